package main

import (
	"encoding/json"

	"github.com/benoitkugler/textprocessing/pango"
)

// positions, extents, cursors and ranges of layouts

func init() { props["P06"] = &Prop{Gen: p06Gen, Exec: p06Exec} }

type p06In struct {
	Cfg    lCfg    `json:"cfg"`
	Ranges [][]int `json:"ranges"`
}

// the glyphs, as the font of the map has them (the code under test is not asked)
func p06Font(run *pango.GlyphItem) J {
	f, ok := run.Item.Analysis.Font.(*pFont)
	if !ok || f == nil {
		return J{"known": false, "gi": [][]int{}, "gl": [][]int{}, "m": []int{0, 0, 0, 0, 0}}
	}
	gi, gl := [][]int{}, [][]int{}
	for _, g := range run.Glyphs.Glyphs {
		var ink, log pango.Rectangle
		f.GlyphExtents(g.Glyph, &ink, &log)
		gi, gl = append(gi, rect(ink)), append(gl, []int{int(log.Y), int(log.Height)})
	}
	m := f.GetMetrics("")
	return J{"known": true, "gi": gi, "gl": gl, "m": []int{int(m.Height), int(m.UnderlinePosition), int(m.UnderlineThickness), int(m.StrikethroughPosition), int(m.StrikethroughThickness)}}
}

func p06Exec(raw json.RawMessage, obs func(interface{})) {
	var in p06In
	dec(raw, &in)
	l := in.Cfg.env().layout(in.Cfg)
	lines := []J{}
	for _, line := range l.GetLinesReadonly() {
		lo := lineObs(l.Text, line, true)
		runs := lo["runs"].([]J)
		i := 0
		for r := line.Runs; r != nil; r = r.Next {
			runs[i]["font"] = p06Font(r.Data)
			i++
		}
		lines = append(lines, lo)
	}
	cur := []bool{}
	for _, a := range l.GetCharacterAttributes() {
		cur = append(cur, a.IsCursorPosition())
	}
	ranges := [][]int{}
	for _, r := range in.Ranges {
		for i, line := range l.GetLinesReadonly() {
			out := []int{i, r[0], r[1]}
			for _, x := range line.GetXRanges(r[0], r[1]) {
				out = append(out, int(x))
			}
			ranges = append(ranges, out)
		}
	}
	moves := [][]int{}
	for i := 0; i <= len(l.Text); i++ {
		for s := 0; s < 2; s++ {
			for _, dir := range []int{-1, 1} {
				for t := 0; t < 2 && i+t <= len(l.Text); t++ {
					ni, nt := l.MoveCursorVisually(s == 1, i, t, dir)
					if ni == pango.MaxInt {
						ni = -2
					}
					moves = append(moves, []int{s, i, t, dir, ni, nt})
				}
			}
		}
	}
	obs(J{"lines": lines, "cur": cur, "it": iterObs(l), "size": sizeObs(l), "pos": posObs(l), "ranges": ranges, "moves": moves})
}

func (g *G) p06Ranges(n int) [][]int {
	out := [][]int{{0, n}, {-1, n + 1}}
	for k := 0; k < 4; k++ {
		a := g.Intn(n+3) - 1
		out = append(out, []int{a, a + g.Intn(n+2-a)})
	}
	return out
}

func p06Gen(g *G) {
	for i, h := range g.Hist {
		var x struct {
			Txt          []int
			Single, Auto bool
		}
		dec(json.RawMessage(h), &x)
		cfg := newCfg(nil)
		cfg.Text, cfg.Single, cfg.Auto = x.Txt, x.Single, x.Auto
		cfg.Width, cfg.Wrap, cfg.Align = []int{-1, 2500, 1000, 1500}[i%4], i/4%3, i%3
		g.Emit(p06In{cfg, g.p06Ranges(len(cfg.Text))}, true)
	}
	for i := 0; i < g.N(600, 40000); i++ {
		cfg := g.layoutCfg(lOpts{attrs: g.Intn(2) == 0, tabs: g.Intn(3) == 0, ell: g.Intn(3) == 0, vertical: g.Intn(10) == 0, max: 16})
		for j, a := range cfg.Attrs {
			if a.Kind == "rise_shift" {
				cfg.Attrs[j].V = pickInt(g, 2000, -1500, 1025)
			}
		}
		if n := len(cfg.Text); n > 2 && g.Intn(6) == 0 {
			s := g.Intn(n - 1)
			cfg.Attrs = append(cfg.Attrs, p05A("rise_shift", pickInt(g, 2000, -1500), s, s+1+g.Intn(n-s)))
		}
		g.Emit(p06In{cfg, g.p06Ranges(len(cfg.Text))}, true)
	}
}
