package main

import (
	"encoding/json"
	"sort"

	"github.com/benoitkugler/textprocessing/pango"
)

// tab stops

// the settings of MC_Tabs, in units of 128
var p13Sets = []lTabs{
	{Set: false}, {Set: false}, {Set: true},
	{Set: true, Tabs: [][]int{{10, 1, 0}}}, {Set: true, Tabs: [][]int{{6, 0, 0}, {13, 2, 0}}}, {Set: true, Tabs: [][]int{{9, 3, 0}, {20, 3, ','}}},
	{Set: true, Tabs: [][]int{{-2, 0, 0}}}, {Set: true, Tabs: [][]int{{5, 2, 0}, {14, 1, 0}, {17, 3, 0}}},
	{Set: true, Tabs: [][]int{{0, 1, 0}}},
}

func p13Text(g *G) []rune {
	var rs []rune
	for n := 1 + g.Intn(14); n > 0; n-- {
		if g.Intn(3) == 0 {
			rs = append(rs, '\t')
		} else {
			rs = append(rs, []rune(pick(g, "a", "bc", "d e", "12.5", "3,75", ".", ",", "\n", "x", "12", "éa", "אב", "ג", "漢", "long word", " ", "1.2.3", "a;b", "\u00A0"))...)
		}
	}
	return rs
}

func init() {
	props["P13"] = &Prop{
		Gen: func(g *G) {
			for _, h := range g.Hist {
				var x struct {
					Set  int      `json:"set"`
					Toks []string `json:"toks"`
				}
				dec(h, &x)
				var rs []rune
				for _, t := range x.Toks {
					rs = append(rs, []rune(map[string]string{"tab": "\t", "a": "a", "b": "ab", "c": ",", "d": "b.a"}[t])...)
				}
				cfg := newCfg(rs)
				src := p13Sets[x.Set-1]
				cfg.Tabs.Set = src.Set
				for _, t := range src.Tabs {
					cfg.Tabs.Tabs = append(cfg.Tabs.Tabs, []int{128 * t[0], t[1], t[2]})
				}
				switch x.Set {
				case 2:
					cfg.Indent = 640
				case 8:
					cfg.Indent = 256
				}
				g.Emit(cfg, false)
			}
			n := g.N(2500, 30000)
			for i := 0; i < n; i++ {
				cfg := newCfg(p13Text(g))
				cfg.CDesc = [][]interface{}{{"family", pick(g, "latin", "latin,hebrew", "all", "half,latin")}, {"size", []interface{}{pickInt(g, 1024, 1500, 512, 333), false}}}
				cfg.Fallback = []string{"all"}
				cfg.Round = g.Intn(4) == 0
				cfg.Auto = g.Intn(3) != 0
				cfg.Single = g.Intn(5) == 0
				cfg.Align = g.Intn(3)
				cfg.Indent = pickInt(g, 0, 0, 500, -700, 3000)
				if g.Intn(3) == 0 {
					cfg.Width = pickInt(g, 100000, 5000, 9000, 2000, 14000)
					cfg.Wrap = g.Intn(3)
				}
				if g.Intn(3) == 0 {
					cfg.HasDesc = true
					cfg.Desc = [][]interface{}{{"family", pick(g, "latin", "rich", "all")}, {"size", []interface{}{pickInt(g, 700, 2048), false}}}
				}
				for k := g.Intn(4); k > 0; k-- {
					a := g.p02Attr(len(cfg.Text), false)
					switch a.Kind {
					case "family":
						a.S = pick(g, "latin", "all", "rich")
					case "size", "abssize":
						a.V = pickInt(g, 512, 1024, 2048, 1500)
					case "weight", "style", "color", "back", "underline", "strike", "scale", "show", "desc":
						if a.Kind == "desc" {
							a.D = [][]interface{}{{"size", []interface{}{pickInt(g, 512, 2048), false}}}
						}
					default:
						a.Kind, a.V = "size", pickInt(g, 512, 1024, 2048, 1500)
					}
					if g.Intn(3) == 0 {
						a.Start = 0
					}
					cfg.Attrs = append(cfg.Attrs, a)
				}
				if g.Intn(4) != 0 {
					cfg.Tabs.Set = true
					cfg.Tabs.Px = g.Intn(4) == 0
					seen := map[int]bool{}
					for k := g.Intn(5); k > 0; k-- {
						loc := pickInt(g, 500, 1000, 1300, 2000, 2500, 3000, 4096, 5000, 7001, 10000, -300, 0, 200)
						if cfg.Tabs.Px {
							loc = pickInt(g, 1, 2, 3, 5, 8, 13, 0, 20)
						}
						if seen[loc] {
							continue
						}
						seen[loc] = true
						cfg.Tabs.Tabs = append(cfg.Tabs.Tabs, []int{loc, g.Intn(4), pickInt(g, 0, '.', ',', ';')})
					}
				}
				g.Emit(cfg, len(cfg.Tabs.Tabs) > 0)
			}
		},
		Exec: func(in json.RawMessage, obs func(interface{})) {
			var cfg lCfg
			dec(in, &cfg)
			e := cfg.env()
			// 8 spaces with the attributes of the start of the text
			sp := cfg
			sp.Text, sp.Attrs, sp.Width, sp.Tabs = []int{}, []pAttr{}, -1, lTabs{}
			for range "12345678" {
				sp.Text = append(sp.Text, ' ')
			}
			for _, a := range cfg.Attrs {
				if a.Start <= 0 && a.End > 0 {
					a.Start, a.End = 0, 8
					sp.Attrs = append(sp.Attrs, a)
				}
			}
			tw := 0
			for r := e.layout(sp).GetLinesReadonly()[0].Runs; r != nil; r = r.Next {
				for _, gl := range r.Data.Glyphs.Glyphs {
					tw += int(gl.Geometry.Width)
				}
			}
			obs(J{"tw": tw})
			l := e.layout(cfg)
			lines := l.GetLinesReadonly()
			for i, line := range lines {
				var items []*pango.GlyphItem
				for r := line.Runs; r != nil; r = r.Next {
					items = append(items, r.Data)
				}
				sort.Slice(items, func(i, j int) bool { return items[i].Item.Offset < items[j].Item.Offset })
				runs := []J{}
				for _, it := range items {
					w := 0
					for _, gl := range it.Glyphs.Glyphs {
						w += int(gl.Geometry.Width)
					}
					txt := []int{}
					for _, r := range l.Text[it.Item.Offset : it.Item.Offset+it.Item.Length] {
						txt = append(txt, int(r))
					}
					runs = append(runs, J{"tab": txt[0] == '\t', "rs": txt, "ws": logWidths(l.Text, it), "w": w})
				}
				obs(J{"par": line.IsParagraphStart, "more": i+1 < len(lines) && !lines[i+1].IsParagraphStart, "runs": runs})
			}
		},
	}
}
