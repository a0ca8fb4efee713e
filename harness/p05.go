package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/benoitkugler/textprocessing/pango"
)

// histories of setters and queries on a layout, its context and its font map

func init() { props["P05"] = &Prop{Gen: p05Gen, Exec: p05Exec} }

type p05Op struct {
	F string      `json:"f"`
	V interface{} `json:"v"`
}

type p05In struct {
	Cfg lCfg    `json:"cfg"`
	Ops []p05Op `json:"ops"`
}

type p05Desc struct {
	Has bool            `json:"has"`
	D   [][]interface{} `json:"d"`
}

type p05Markup struct {
	M     string  `json:"m"`
	Ok    bool    `json:"ok"`
	Text  []int   `json:"text"`
	Attrs []pAttr `json:"attrs"`
}

func p05A(kind string, v, from, to int) pAttr {
	return pAttr{Kind: kind, V: v, Start: from, End: to, D: [][]interface{}{}}
}

func p05T(s string) []int {
	out := []int{}
	for _, r := range s {
		out = append(out, int(r))
	}
	return out
}

var p05Markups = []p05Markup{
	{"a<b>bc</b> d", true, p05T("abc d"), []pAttr{p05A("weight", 700, 1, 3)}},
	{"<i>ab\ncd</i>", true, p05T("ab\ncd"), []pAttr{p05A("style", 2, 0, 5)}},
	{"a &amp; b", true, p05T("a & b"), []pAttr{}},
	{"", true, []int{}, []pAttr{}},
	{"<s>a</s>b<u>c d</u>", true, p05T("abc d"), []pAttr{p05A("strike", 1, 0, 1), p05A("underline", 1, 2, 5)}},
	{"<span letter_spacing='300'>ab</span>c", true, p05T("abc"), []pAttr{p05A("letter", 300, 0, 2)}},
	{"a<b>c", false, []int{}, []pAttr{}},
	{"a &foo; b", false, []int{}, []pAttr{}},
	{"<x>a</x>", false, []int{}, []pAttr{}},
}

// p05Live is a layout which lives along the history
type p05Live struct {
	env  *lEnv
	l    *pango.Layout
	tabs *pango.TabArray // of the caller, modified between the calls
	desc pango.FontDescription
}

// set applies an operation to the settings
func (cfg lCfg) set(op p05Op) lCfg {
	raw, _ := json.Marshal(op.V)
	switch op.F {
	case "width":
		dec(raw, &cfg.Width)
		if cfg.Width < 0 {
			cfg.Width = -1
		}
	case "desc":
		var d p05Desc
		dec(raw, &d)
		cfg.HasDesc, cfg.Desc = d.Has, d.D
	case "markup":
		var m p05Markup
		dec(raw, &m)
		if m.Ok {
			cfg.Text, cfg.Attrs = m.Text, m.Attrs
		}
	case "string":
		cfg.Text = nil
		dec(raw, &cfg.Text)
	case "query":
	default:
		var all map[string]json.RawMessage
		b, _ := json.Marshal(cfg)
		dec(b, &all)
		if _, has := all[op.F]; !has {
			panic("setting " + op.F)
		}
		all[op.F] = raw
		b, _ = json.Marshal(all)
		var out lCfg // shares nothing
		dec(b, &out)
		return out
	}
	return cfg
}

// apply calls the setter. cfg is the new settings
func (e *p05Live) apply(op p05Op, cfg lCfg) {
	l := e.l
	switch op.F {
	case "width":
		var w int
		raw, _ := json.Marshal(op.V)
		dec(raw, &w)
		l.SetWidth(pango.Unit(w))
	case "height":
		l.SetHeight(pango.Unit(cfg.Height))
	case "indent":
		l.SetIndent(pango.Unit(cfg.Indent))
	case "spacing":
		l.SetSpacing(pango.Unit(cfg.Spacing))
	case "linesp":
		l.SetLineSpacing(float32(cfg.LineSp) / 100)
	case "align":
		l.SetAlignment(pango.Alignment(cfg.Align))
	case "wrap":
		l.SetWrap(pango.WrapMode(cfg.Wrap))
	case "ell":
		l.SetEllipsize(pango.EllipsizeMode(cfg.Ell))
	case "justify":
		l.SetJustify(cfg.Justify)
	case "jlast":
		l.SetJustifyLastLine(cfg.JLast)
	case "auto":
		l.SetAutoDir(cfg.Auto)
	case "single":
		l.SetSingleParagraphMode(cfg.Single)
	case "tabs":
		if !cfg.Tabs.Set {
			l.SetTabs(nil)
			return
		}
		if e.tabs == nil {
			e.tabs = cfg.Tabs.array()
		} else { // the same object, modified since the last call
			*e.tabs = *cfg.Tabs.array()
		}
		l.SetTabs(e.tabs)
		// the array is of the caller
		e.tabs.PositionsInPixels = !e.tabs.PositionsInPixels
		for i := range e.tabs.Tabs {
			e.tabs.Tabs[i].Location += 777
		}
		e.tabs.Tabs = append(e.tabs.Tabs, pango.Tab{Location: 10})
	case "desc":
		if !cfg.HasDesc {
			l.SetFontDescription(nil)
			return
		}
		e.desc = descOf(cfg.Desc)
		l.SetFontDescription(&e.desc)
		e.desc.SetSize(333)
	case "markup":
		var m p05Markup
		raw, _ := json.Marshal(op.V)
		dec(raw, &m)
		buf := []byte(m.M)
		l.SetMarkup(buf)
		for i := range buf {
			buf[i] = '<'
		}
	case "string":
		l.SetText(string(runesOf(cfg.Text)))
	case "text":
		buf := runesOf(cfg.Text)
		l.SetRunes(buf)
		for i := range buf {
			buf[i] = 'x'
		}
	case "attrs":
		l.SetAttributes(pAttrList(cfg.Attrs))
	case "cdesc":
		e.env.ctx.SetFontDescription(descOf(cfg.CDesc))
	case "lang":
		e.env.ctx.SetLanguage(pango.Language(cfg.Lang))
	case "gravity":
		e.env.ctx.SetBaseGravity(pango.Gravity(cfg.Gravity))
	case "round":
		e.env.ctx.SetRoundGlyphPositions(cfg.Round)
	case "fallback", "scale":
		e.env.m.reset(cfg.Scale, cfg.Fallback)
	default:
		panic("setter " + op.F)
	}
}

var p05Queries = []string{"lines", "iter", "pos", "size", "ink", "log", "both", "count", "flags", "attrs", "cursor", "ranges", "baseline", "dims"}

func p05Query(l *pango.Layout, q string) string {
	var out interface{}
	switch q {
	case "lines":
		out = linesObs(l, true)
	case "iter":
		out = iterObs(l)
	case "pos":
		out = posObs(l)
	case "size":
		out = sizeObs(l)
	case "dims":
		w, h := l.GetSize()
		out = []int{int(w), int(h)}
	case "ink":
		var ink pango.Rectangle
		l.GetExtents(&ink, nil)
		out = rect(ink)
	case "log":
		var log pango.Rectangle
		l.GetExtents(nil, &log)
		out = rect(log)
	case "both":
		var ink, log pango.Rectangle
		l.GetExtents(&ink, &log)
		out = [][]int{rect(ink), rect(log)}
	case "count":
		out = l.GetLineCount()
	case "flags":
		out = []bool{l.IsWrapped(), l.IsEllipsized()}
	case "attrs":
		out = attrsObs(l.GetCharacterAttributes())
	case "baseline":
		out = int(l.GetBaseline())
	case "cursor":
		moves := [][]int{}
		for i := 0; i <= len(l.Text); i++ {
			for _, dir := range []int{-1, 1} {
				for _, strong := range []bool{true, false} {
					ni, nt := l.MoveCursorVisually(strong, i, 0, dir)
					moves = append(moves, []int{ni, nt})
				}
			}
		}
		out = moves
	case "ranges":
		all := [][][]int{}
		for i := 0; i < l.GetLineCount(); i++ {
			line := l.GetLine(i)
			rs := [][]int{}
			n := line.StartIndex + line.Length
			for _, se := range [][2]int{{0, len(l.Text)}, {line.StartIndex, n}, {line.StartIndex + line.Length/2, n}} {
				r := []int{}
				for _, x := range line.GetXRanges(se[0], se[1]) {
					r = append(r, int(x))
				}
				rs = append(rs, r)
			}
			all = append(all, rs)
		}
		out = all
	default:
		panic("query " + q)
	}
	b, _ := json.Marshal(out)
	return string(b)
}

func attrListObs(as pango.AttrList) string {
	out := []string{}
	for _, a := range as {
		out = append(out, fmt.Sprint(pAttrNames[a.Kind], " ", a.StartIndex, "-", a.EndIndex, " ", a.Data))
	}
	return strings.Join(out, ", ")
}

func p05Exec(raw json.RawMessage, obs func(interface{})) {
	var in p05In
	dec(raw, &in)
	cfg := in.Cfg
	live := &p05Live{env: cfg.env()}
	live.l = live.env.layout(cfg)
	for _, op := range in.Ops {
		cfg = cfg.set(op)
		got, want := "", ""
		l := live.l
		if op.F != "query" {
			live.apply(op, cfg)
		} else if q := op.V.(string); cfg.Height == -1 || cfg.Ell != 0 {
			got = p05Query(l, q)
			want = p05Query(cfg.env().layout(cfg), q)
		}
		t := []int{}
		for _, r := range l.Text {
			t = append(t, int(r))
		}
		obs(J{"cfg": cfg, "got": got, "want": want,
			"fields": J{"text": t, "width": int(l.Width), "height": int(l.Height), "indent": int(l.Indent), "spacing": int(l.Spacing),
				"linesp": int(l.LineSpacing*100 + .5), "justify": l.Justify, "jlast": l.JustifyLastLine, "lang": string(live.env.ctx.GetLanguage())},
			"attrs": attrListObs(l.Attributes), "want_attrs": attrListObs(pAttrList(cfg.Attrs))})
	}
}

func p05Gen(g *G) {
	q := func(k string) p05Op { return p05Op{"query", k} }
	for _, h := range g.Hist {
		var ops []p05Op
		dec(h, &ops)
		cfg := newCfg([]rune("a\naa"))
		cfg.CDesc[0][1] = "half"
		for i, op := range ops {
			switch op.F {
			case "text":
				t := []int{}
				for _, x := range op.V.([]interface{}) {
					t = append(t, map[float64]int{1: 'a', 0: 0x2028, -1: '\n'}[x.(float64)])
				}
				ops[i].V = t
			case "width":
				if v := op.V.(float64); v > 0 {
					ops[i].V = v * 1024
				}
			case "query":
				ops[i] = q("lines")
			}
		}
		cfg.Wrap = 1
		g.Emit(p05In{cfg, append(ops, q("lines"), q("size"))}, true)
	}
	for n := g.N(1500, 20000); n > 0; n-- {
		cfg := g.p05Cfg()
		var ops []p05Op
		now := cfg
		for k := 2 + g.Intn(9); k > 0; k-- {
			var op p05Op
			if g.Intn(5) < 2 {
				op = q(pick(g, p05Queries...))
			} else {
				op = g.p05Op(now)
			}
			ops = append(ops, op)
			raw, _ := json.Marshal(op)
			var op2 p05Op
			dec(raw, &op2)
			now = now.set(op2)
			if op.F != "query" && g.Intn(2) == 0 {
				ops = append(ops, q(pick(g, p05Queries...)))
			}
		}
		ops = append(ops, q(pick(g, "lines", "iter", "pos", "cursor", "ranges")), q("size"))
		g.Emit(p05In{cfg, ops}, true)
	}
}

func (g *G) p05Cfg() lCfg {
	return g.layoutCfg(lOpts{attrs: g.Intn(2) == 0, tabs: true, ell: true, vertical: g.Intn(4) == 0, max: 12})
}

// a setter, with the value of another layout
func (g *G) p05Op(now lCfg) p05Op {
	o := g.p05Cfg()
	f := pick(g, "width", "width", "height", "height", "indent", "spacing", "linesp", "align", "wrap", "ell", "ell", "justify", "jlast", "auto", "single",
		"tabs", "tabs", "desc", "markup", "string", "text", "attrs", "attrs", "cdesc", "lang", "gravity", "round", "fallback", "scale")
	var v interface{}
	switch f {
	case "width":
		v = pickInt(g, o.Width, o.Width, -7)
	case "height":
		v = pickInt(g, -1, 0, 1024, 2048, 3000, -2, -3, 1500)
		if now.Ell == 0 && g.Intn(3) != 0 {
			v = -1
		}
	case "indent":
		v = o.Indent
	case "spacing":
		v = o.Spacing
	case "linesp":
		v = o.LineSp
	case "align":
		v = o.Align
	case "wrap":
		v = o.Wrap
	case "ell":
		v = g.Intn(4)
	case "justify", "jlast", "auto", "single", "round":
		v = g.Intn(2) == 0
	case "tabs":
		v = o.Tabs
	case "desc":
		v = p05Desc{o.HasDesc, o.Desc}
	case "markup":
		m := p05Markups[g.Intn(len(p05Markups))]
		v = m
	case "string", "text":
		v = o.Text
	case "attrs":
		as := append([]pAttr{}, now.Attrs...)
		switch g.Intn(4) {
		case 0: // the same ones
		case 1:
			for i := range as { // in another order
				j := g.Intn(i + 1)
				as[i], as[j] = as[j], as[i]
			}
		default:
			as = append([]pAttr{}, o.Attrs...)
			for k := g.Intn(3); k > 0; k-- {
				as = append(as, g.layoutAttr(len(now.Text)))
			}
		}
		v = as
	case "cdesc":
		v = o.CDesc
		if g.Intn(3) == 0 {
			v = append(o.CDesc, []interface{}{"weight", 700})
		}
	case "lang":
		v = pick(g, "en", "he", "ja", "", string(pango.DefaultLanguage()))
	case "gravity":
		v = g.Intn(4)
	case "fallback":
		v = []string{pick(g, "all", "latin", "third", "emoji")}
		if g.Intn(3) == 0 {
			v = []string{}
		}
	case "scale":
		v = 1 + g.Intn(2)
	}
	return p05Op{f, v}
}
