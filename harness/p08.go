package main

import (
	"encoding/json"
	"sort"

	"github.com/benoitkugler/textprocessing/pango"
)

// ellipsized lines, against the layout without limits and the one without ellipses

func init() { props["P08"] = &Prop{Gen: p08Gen, Exec: p08Exec} }

type p08In struct {
	Cfg lCfg `json:"cfg"`
}

// East Asian wide characters of the pool
var p08Wide = map[rune]bool{}

func init() {
	for _, r := range []rune{0x300c, 0x300d, 0x3042, 0x3044, 0x30a2, 0x30fc, 0x5b57, 0x6f22, 0xd55c, 0xff08, 0xff09, 0x1f389, 0x1f3f4, 0x1f3fd, 0x1f44d, 0x1f600} {
		p08Wide[r] = true
	}
}

// p08Ell is the ellipsis with the attributes of index p
func p08Ell(cfg lCfg, p int, wide bool) J {
	as := []pAttr{}
	for _, a := range cfg.Attrs {
		switch a.Kind {
		case "shape", "letter", "transform", "rise", "rise_shift", "lineheight", "abslineheight", "hyphens", "breaks", "word", "sentence", "show",
			"underline", "overline", "strike", "color", "back":
			continue
		}
		if a.Start <= p && p < a.End {
			as = append(as, a)
		}
	}
	sort.SliceStable(as, func(i, j int) bool { return as[i].Start < as[j].Start })
	for i := range as {
		as[i].Start, as[i].End = 0, 10
	}
	cfg.Width, cfg.Height, cfg.Ell, cfg.Indent, cfg.Justify = -1, -1, 0, 0, false
	try := func(text []rune, fallback int) (*pFont, J) {
		cfg.Text = []int{}
		for _, r := range text {
			cfg.Text = append(cfg.Text, int(r))
		}
		cfg.Attrs = append(as[:len(as):len(as)], pAttr{Kind: "fallback", V: fallback, D: [][]interface{}{}, Start: 0, End: 10})
		l := cfg.env().layout(cfg)
		run := l.GetLinesReadonly()[0].Runs.Data
		pf, _ := run.Item.Analysis.Font.(*pFont)
		ro := runObs(l.Text, run, true)
		return pf, J{"g": ro["g"], "w": ro["w"], "fam": ro["fam"], "size": ro["size"]}
	}
	ch := rune(0x2026)
	if wide {
		ch = 0x22ef
	}
	pf, out := try([]rune{ch}, 0)
	if pf == nil || !pFamilies[pf.fam](ch) {
		_, out = try([]rune("..."), 1)
	}
	return out
}

func p08Exec(raw json.RawMessage, obs func(interface{})) {
	var in p08In
	dec(raw, &in)
	l := in.Cfg.env().layout(in.Cfg)
	o := J{"lines": linesObs(l, true), "ellipsized": l.IsEllipsized()}
	cur := []bool{}
	for _, a := range l.GetCharacterAttributes() {
		cur = append(cur, a.IsCursorPosition())
	}
	o["cur"] = cur
	ref := in.Cfg
	ref.Width, ref.Height = 1<<28, -1
	if ref.Ell == 0 {
		ref.Ell = 3
	}
	lr := ref.env().layout(ref)
	o["ref"], o["refell"] = linesObs(lr, true), lr.IsEllipsized()
	// the ellipses at each run, by kind
	tab := [][]interface{}{}
	if in.Cfg.Width >= 0 && in.Cfg.Ell != 0 {
		for _, line := range lr.GetLinesReadonly() {
			for r := line.Runs; r != nil; r = r.Next {
				p := r.Data.Item.Offset
				tab = append(tab, []interface{}{p, p08Ell(in.Cfg, p, false), p08Ell(in.Cfg, p, true)})
			}
		}
	}
	o["tab"] = tab
	wr := in.Cfg
	wr.Ell, wr.Height = 0, -1
	o["wrapped"] = linesObs(wr.env().layout(wr), true)
	wide := []bool{}
	for _, r := range in.Cfg.Text {
		wide = append(wide, p08Wide[rune(r)])
	}
	o["wide"] = wide
	// the first guess of the height of a line
	em := in.Cfg
	em.Text, em.Height, em.LineSp, em.Ell = []int{}, -1, 0, 0
	var log pango.Rectangle
	em.env().layout(em).GetExtents(nil, &log)
	o["h0"] = int(log.Height)
	obs(o)
}

func p08Gen(g *G) {
	for _, h := range g.Hist {
		var x struct {
			Cl []struct {
				W       int
				B, Wide bool
			}
			Mode, Goal int
		}
		dec(json.RawMessage(h), &x)
		cfg := newCfg(nil)
		cfg.Width, cfg.Ell = x.Goal*256, x.Mode
		cfg.CDesc[0][1] = "all"
		for i, t := range x.Cl {
			ch := 0x200b
			switch {
			case t.Wide:
				ch = 0x5b57
			case t.W == 1:
				ch = 'a'
			case t.W == 2:
				ch = 'm'
			}
			if !t.B && i > 0 { // in an item of its own, not alone in its grapheme
				ch = 0x301
			}
			cfg.Text = append(cfg.Text, ch)
			cfg.Attrs = append(cfg.Attrs, pAttr{Kind: "size", V: 1024 + 16*i, D: [][]interface{}{}, Start: i, End: i + 1})
		}
		g.Emit(p08In{cfg}, true)
	}
	for i := 0; i < g.N(1500, 20000); i++ {
		cfg := g.layoutCfg(lOpts{attrs: g.Intn(3) != 0, tabs: true, vertical: true})
		cfg.Justify = false
		cfg.LineSp = 0
		cfg.Ell = pickInt(g, 1, 1, 2, 2, 3, 3, 3, 0)
		if cfg.Ell == 0 {
			cfg.Height = -1
		}
		cfg.Width = pickInt(g, 0, 1, 300, 500, 1000, 1500, 2000, 3000, 4000, 2111, g.Intn(5000), g.Intn(5000), -1)
		as := cfg.Attrs[:0]
		for _, a := range cfg.Attrs {
			if a.Kind != "letter" {
				as = append(as, a)
			}
		}
		cfg.Attrs = as
		if g.Intn(3) == 0 && cfg.Width >= 0 && cfg.Ell != 0 {
			cfg.Height = pickInt(g, 0, 1024, 2048, 3000, 4000, -2, -3, -2, 1500)
			p04Plain(&cfg)
		}
		g.Emit(p08In{cfg}, true)
	}
}
