package main

import (
	"encoding/json"

	"github.com/benoitkugler/textprocessing/pango"
)

// clusters of runs, and attributes which split runs

func init() { props["P07"] = &Prop{Gen: p07Gen, Exec: p07Exec} }

type p07In struct {
	Cfg   lCfg    `json:"cfg"`   // its attributes change items and shapes
	D     []pAttr `json:"d"`     // these do not
	Ops   []int   `json:"ops"`   // of iterators: 1 next, 0 previous
	Items []pAttr `json:"items"` // applied to items
}

func p07Walk(run *pango.GlyphItem, text []rune, ops []int, start bool) [][]int {
	var it pango.GlyphItemIter
	out := [][]int{}
	rec := func(ok bool) {
		out = append(out, []int{b01(ok), it.StartChar, it.EndChar, it.StartIndex, it.EndIndex})
	}
	if start {
		rec(it.InitStart(run, text))
	} else {
		rec(it.InitEnd(run, text))
	}
	for _, op := range ops {
		if op == 1 {
			rec(it.NextCluster())
		} else {
			rec(it.PrevCluster())
		}
	}
	return out
}

func p07Extra(attrs pango.AttrList) [][]interface{} {
	out := [][]interface{}{}
	for _, a := range attrs {
		out = append(out, []interface{}{pAttrNames[a.Kind], attrValue(a), a.StartIndex, a.EndIndex})
	}
	return out
}

func p07Items(l *pango.ItemList) []J {
	out := []J{}
	for ; l != nil; l = l.Next {
		out = append(out, J{"o": l.Data.Offset, "n": l.Data.Length, "lv": int(l.Data.Analysis.Level), "extra": p07Extra(l.Data.Analysis.ExtraAttrs)})
	}
	return out
}

func p07Exec(raw json.RawMessage, obs func(interface{})) {
	var in p07In
	dec(raw, &in)
	env := in.Cfg.env()
	base := env.layout(in.Cfg)
	cfg := in.Cfg
	cfg.Attrs = append(append([]pAttr{}, in.Cfg.Attrs...), in.D...)
	with := env.layout(cfg)
	walks := []J{}
	text := base.Text
	for _, l := range []*pango.Layout{base, with} {
		for _, line := range l.GetLinesReadonly() {
			for r := line.Runs; r != nil; r = r.Next {
				if len(r.Data.Glyphs.Glyphs) == 0 {
					continue
				}
				o := runObs(text, r.Data, false)
				o["fwd"], o["bwd"], o["lw"] = p07Walk(r.Data, text, in.Ops, true), p07Walk(r.Data, text, in.Ops, false), logWidths(text, r.Data)
				walks = append(walks, o)
			}
		}
	}
	items := env.ctx.Itemize(text, 0, len(text), pAttrList(in.Cfg.Attrs))
	before := p07Items(items)
	items.ApplyAttributes(pAttrList(in.Items))
	obs(J{"base": linesObs(base, true), "with": linesObs(with, true), "xs": []interface{}{posObs(base)["xs"], posObs(with)["xs"]},
		"walks": walks, "before": before, "after": p07Items(items)})
}

func (g *G) p07Attr(n int) pAttr {
	a := pAttr{D: [][]interface{}{}, Kind: pick(g, "underline", "underline", "strike", "overline", "color", "back")}
	switch a.Kind {
	case "underline":
		a.V = g.Intn(8)
	case "strike", "overline":
		a.V = g.Intn(2)
	default:
		a.V = g.Intn(4)
	}
	a.Start = g.Intn(n + 1)
	a.End = a.Start + g.Intn(n+1)
	if g.Intn(6) == 0 {
		a.End = 1000
	}
	if g.Intn(10) == 0 {
		a.Start, a.End = 0, pWhole
	}
	return a
}

func p07Gen(g *G) {
	emit := func(cfg lCfg, nd int) {
		in := p07In{Cfg: cfg, D: []pAttr{}, Ops: []int{}, Items: []pAttr{}}
		n := len(cfg.Text)
		for k := 0; k < nd; k++ {
			in.D = append(in.D, g.p07Attr(n))
		}
		for k := g.Intn(12); k > 0; k-- {
			in.Ops = append(in.Ops, b01(g.Intn(5) > 1))
		}
		for k := g.Intn(4); k > 0; k-- {
			a := g.p07Attr(n)
			if g.Intn(2) == 0 {
				a.Kind, a.V = "show", 1+g.Intn(3)
			}
			in.Items = append(in.Items, a)
		}
		g.Emit(in, true)
	}
	for _, h := range g.Hist { // attribute ranges on a short text, of both directions
		var x struct {
			Rtl   bool
			Parts [][]int
			N     int
			D     [][]int
		}
		dec(json.RawMessage(h), &x)
		var text []rune
		for i := range x.Parts {
			for j := 0; j < x.Parts[i][0]; j++ {
				switch {
				case j > 0 && x.Rtl:
					text = append(text, 0x05BC)
				case j > 0:
					text = append(text, 0x0301)
				case x.Rtl:
					text = append(text, rune(0x05D0+i))
				default:
					text = append(text, rune('p'+i))
				}
			}
		}
		cfg := newCfg(text)
		cfg.CDesc[0][1] = "rich,latin,hebrew"
		in := p07In{Cfg: cfg, D: []pAttr{}, Ops: []int{1, 1, 0, 1, 1, 1, 1, 0, 0, 0, 0}, Items: []pAttr{}}
		kinds := []string{"underline", "strike", "underline"}
		for i, d := range x.D {
			in.D = append(in.D, p05A(kinds[i], 1+i/2, d[0], d[1]))
		}
		in.Items = in.D
		g.Emit(in, true)
	}
	for i := 0; i < g.N(1200, 25000); i++ {
		cfg := g.layoutCfg(lOpts{attrs: g.Intn(2) == 0, tabs: g.Intn(4) == 0, ell: g.Intn(4) == 0, vertical: g.Intn(10) == 0, max: 16})
		for j := len(cfg.Attrs) - 1; j >= 0; j-- {
			switch cfg.Attrs[j].Kind { // the others
			case "underline", "strike", "overline", "color", "back":
				cfg.Attrs = append(cfg.Attrs[:j:j], cfg.Attrs[j+1:]...)
			}
		}
		if g.Intn(2) == 0 {
			cfg.CDesc[0][1] = pick(g, "rich", "rich,latin,hebrew,arabic")
		}
		emit(cfg, g.Intn(5))
	}
}
