package main

import (
	"encoding/json"

	"github.com/benoitkugler/textprocessing/fribidi"
)

type bidiLine struct {
	Types  []string `json:"types"`
	Levels []int    `json:"levels"`
	Base   string   `json:"base"`
	From   int      `json:"from"` // from 1
	To     int      `json:"to"`
	Nsm    bool     `json:"nsm"`
	Hasmap bool     `json:"hasmap"`
	Hasstr bool     `json:"hasstr"`
}

func init() {
	props["F02"] = &Prop{
		Gen: func(g *G) {
			var lines []bidiLine
			add := func(l bidiLine, tag string) {
				lines = append(lines, l)
				if len(lines) == 20 {
					g.Emit(J{"lines": lines}, true)
					g.Tag(tag)
					lines = nil
				}
			}
			for i, h := range g.Hist {
				if !g.Thorough() && i%3 != int(g.Seed%3) {
					continue
				}
				var l bidiLine
				dec(h, &l)
				l.Base, l.From, l.To, l.Nsm, l.Hasmap, l.Hasstr = bidiDirs[g.Intn(5)], 1, len(l.Types), g.Intn(2) == 0, true, true
				add(l, "from_model")
			}
			n := g.N(16000, 200000)
			for i := 0; i < n; i++ {
				size := 1 + g.Intn(16)
				var l bidiLine
				max := 1 + g.Intn(5)
				if g.Intn(20) == 0 {
					max = 127
				}
				small := g.Intn(2) == 0
				lvl := g.Intn(max)
				for j := 0; j < size; j++ {
					if small {
						l.Types = append(l.Types, pick(g, "L", "R", "NSM", "NSM", "BN", "WS", "RLE", "PDI"))
					} else {
						l.Types = append(l.Types, pick(g, "L", "R", "AL", "EN", "AN", "ES", "ET", "CS", "NSM", "BN", "B", "S", "WS", "ON", "LRE", "RLE", "LRO", "RLO", "PDF", "LRI", "RLI", "FSI", "PDI"))
					}
					if g.Intn(3) == 0 {
						lvl = g.Intn(max)
					}
					l.Levels = append(l.Levels, lvl)
				}
				l.Base, l.From, l.To = bidiDirs[g.Intn(5)], 1, size
				if g.Intn(2) == 0 {
					l.From = 1 + g.Intn(size)
					l.To = l.From - 1 + g.Intn(size-l.From+2)
				}
				l.Nsm = g.Intn(2) == 0
				l.Hasmap, l.Hasstr = g.Intn(4) != 0, g.Intn(4) != 0
				add(l, "random")
			}
		},
		Exec: func(in json.RawMessage, obs func(interface{})) {
			var c struct{ Lines []bidiLine }
			dec(in, &c)
			for _, l := range c.Lines {
				var (
					levels []fribidi.Level
					str    []rune
					map_   []int
				)
				for i, v := range l.Levels {
					levels = append(levels, fribidi.Level(v))
					if l.Hasmap {
						map_ = append(map_, i)
					}
					if l.Hasstr {
						str = append(str, rune(i+1))
					}
				}
				var flags fribidi.Options
				if l.Nsm {
					flags |= fribidi.ReorderNSM
				}
				max := fribidi.ReorderLine(flags, typesOf(l.Types), l.To-l.From+1, l.From-1, fribidi.ParType(bidiTypes[l.Base]), levels, str, map_)
				m, s := []int{}, []int{}
				for _, v := range map_ {
					m = append(m, v+1)
				}
				for _, v := range str {
					s = append(s, int(v))
				}
				obs(J{"levels": levelsCode(levels), "map": m, "str": s, "max": int(max)})
			}
		},
	}
}
