package main

import (
	"encoding/json"

	fc "github.com/benoitkugler/textprocessing/fontconfig"
)

type c05Test struct {
	O  string `json:"o"`
	Op string `json:"op"`
	IB bool   `json:"ib"`
	E  Expr   `json:"e"`
}
type c05In struct {
	Kind  string    `json:"kind"`
	Pat   Pat       `json:"pat"`
	Query Pat       `json:"query"`
	Exprs []Expr    `json:"exprs"`
	Tests []c05Test `json:"tests"`
}

type exprGen struct {
	g    *G
	kind string
}

var (
	numConsts = []string{"roman", "italic", "oblique", "proportional", "dual", "mono", "charcell", "rgb", "bgr", "vrgb", "vbgr", "none", "hintnone", "hintslight", "hintmedium", "hintfull", "lcdnone", "lcddefault", "lcdlight", "lcdlegacy"}
	anyConsts = []string{"thin", "extralight", "ultralight", "light", "demilight", "semilight", "book", "regular", "medium", "demibold", "semibold", "bold", "extrabold", "ultrabold", "black", "heavy",
		"ultracondensed", "extracondensed", "condensed", "semicondensed", "semiexpanded", "expanded", "extraexpanded", "ultraexpanded"}
	c05Types = []string{"num", "str", "bool", "charset", "langset", "matrix", "range"}
	// objects of the patterns, by type
	c05Objs = map[string][]string{
		"num": {"slant", "pixelsize", "dpi", "spacing", "hintstyle"}, "str": {"family", "style", "file"}, "bool": {"antialias", "hinting", "color"},
		"charset": {"charset"}, "langset": {"lang"}, "matrix": {"matrix"}, "range": {"weight", "width", "size"}}
)

func (x exprGen) lit(t string) Expr {
	g := x.g
	switch t {
	case "num":
		if g.Intn(2) == 0 {
			return lit(VI(g.Intn(20) - 5))
		}
		return lit(VF(float64(g.Intn(80)-30) * 0.25))
	case "str":
		return lit(VS(pick(g, "a", "Ab", "a b", "abc", "B", "fr", "fr-ca", "DejaVu Sans", "dejavusans", "", "xab", "A\tb")))
	case "bool":
		return lit(VB(g.Intn(3) % 3))
	case "charset":
		var rs []int
		for i := 1 + g.Intn(4); i > 0; i-- {
			rs = append(rs, []int{65, 66, 67, 68, 255, 256, 257, 1000}[g.Intn(8)])
		}
		return lit(VC(rs...))
	case "langset":
		var ts []string
		for i := 1 + g.Intn(3); i > 0; i-- {
			ts = append(ts, pick(g, "fr", "fr-ca", "en", "xq", "zh-cn", "zh-tw", "zh"))
		}
		return lit(VL(ts...))
	case "matrix":
		f := func() float64 { return float64(g.Intn(9)-3) * 0.5 }
		return lit(VM(f(), f(), f(), f()))
	default:
		a := float64(g.Intn(12))
		if g.Intn(2) == 0 {
			a += 0.5
		}
		b := a + float64(g.Intn(8))*0.5
		return lit(VR(a, b))
	}
}

func (x exprGen) name(o string) Expr {
	e := Expr{Op: "name", Name: o}
	if x.g.Intn(3) == 0 {
		e.Tgt = pick(x.g, "pattern", "font", "default")
	}
	return e
}

// strict: the parser checks that the static type is t
func (x exprGen) gen(t string, strict bool, d int) Expr {
	g := x.g
	if !strict && g.Intn(12) == 0 {
		t = c05Types[g.Intn(len(c05Types))]
	}
	if d <= 0 || g.Intn(4) == 0 {
		switch g.Intn(6) {
		case 0, 1:
			if strict && t == "num" { // fields the parser sees as numbers
				return x.name(pick(g, "slant", "pixelsize", "dpi", "spacing", "hintstyle"))
			}
			os := c05Objs[t]
			return x.name(os[g.Intn(len(os))])
		case 2:
			return x.name(pick(g, "custom1", "custom2", "custom3", "custom4"))
		case 3:
			if t == "num" {
				if !strict && g.Intn(2) == 0 {
					return Expr{Op: "const", Name: anyConsts[g.Intn(len(anyConsts))]}
				}
				return Expr{Op: "const", Name: numConsts[g.Intn(len(numConsts))]}
			}
		}
		return x.lit(t)
	}
	two := func(op, t string, n int) Expr {
		e := Expr{Op: op}
		for i := 0; i < n; i++ {
			e.A = append(e.A, x.gen(t, strict, d-1))
		}
		return e
	}
	n := 2
	if g.Intn(4) == 0 {
		n = 3
	}
	if g.Intn(6) == 0 {
		return Expr{Op: "if", A: []Expr{x.gen("bool", true, d-1), x.gen(t, strict, d-1), x.gen(t, strict, d-1)}}
	}
	switch t {
	case "num":
		switch g.Intn(8) {
		case 0, 1:
			return two("plus", t, n)
		case 2:
			return two("minus", t, n)
		case 3:
			return two("times", t, n)
		case 4:
			return two("divide", t, 2)
		default:
			return Expr{Op: pick(g, "floor", "ceil", "round", "trunc"), A: []Expr{x.gen("num", true, d-1)}}
		}
	case "str":
		return two(pick(g, "plus", "plus", "plus", "minus"), t, n)
	case "bool":
		switch g.Intn(6) {
		case 0:
			return two("or", t, n)
		case 1:
			return two("and", t, n)
		case 2:
			return Expr{Op: "not", A: []Expr{x.gen("bool", true, d-1)}}
		default:
			ct := c05Types[g.Intn(len(c05Types))]
			ops := []string{"eq", "not_eq", "less", "less_eq", "more", "more_eq", "contains", "not_contains"}
			return Expr{Op: ops[g.Intn(8)], A: []Expr{x.gen(ct, false, d-1), x.gen(ct, false, d-1)}}
		}
	case "charset", "langset":
		return two(pick(g, "plus", "minus"), t, n)
	case "matrix":
		if g.Intn(2) == 0 {
			return Expr{Op: "matrix", A: []Expr{x.gen("num", false, d-1), x.gen("num", false, d-1), x.gen("num", false, d-1), x.gen("num", false, d-1)}}
		}
		return two("times", t, 2)
	default:
		return x.lit(t)
	}
}

func (x exprGen) pat() Pat {
	g := x.g
	out := Pat{{O: "lang", V: []Val{VS("en")}}, {O: "prgname", V: []Val{VS("x")}}}
	if g.Intn(2) == 0 {
		l := VL("en", pick(g, "fr", "xq", "zh-cn"))
		out[0].V = []Val{l}
	}
	for _, t := range c05Types {
		for _, o := range c05Objs[t] {
			if o == "lang" || g.Intn(2) == 0 {
				continue
			}
			var vs []Val
			for i := 1 + g.Intn(2); i > 0; i-- {
				v := x.lit(t).V
				switch o {
				case "slant", "spacing", "hintstyle":
					v = VI(g.Intn(120))
				case "weight", "width", "size":
					v = x.lit(pick(g, "num", "range")).V
				}
				vs = append(vs, v)
			}
			out = append(out, Elt{O: o, V: vs})
		}
	}
	for _, o := range []string{"custom1", "custom2", "custom3", "custom4"} {
		if g.Intn(3) > 0 {
			out = append(out, Elt{O: o, V: []Val{x.lit(c05Types[g.Intn(len(c05Types))]).V}})
		}
	}
	return out
}

func init() {
	props["C05"] = &Prop{
		Gen: func(g *G) {
			cmp := []string{"eq", "not_eq", "less", "less_eq", "more", "more_eq", "contains", "not_contains"}
			base := Pat{{O: "lang", V: []Val{VS("en")}}, {O: "prgname", V: []Val{VS("x")}}}
			// comparisons: all pairs of values, all operators, from the model
			for _, h := range g.Hist {
				var m struct {
					A, B Val
					IB   bool
				}
				dec(h, &m)
				in := c05In{Kind: "font", Pat: append(base[:2:2], Elt{O: "custom1", V: []Val{m.A}}), Query: Pat{}, Exprs: []Expr{}, Tests: []c05Test{}}
				for _, op := range cmp {
					in.Tests = append(in.Tests, c05Test{O: "custom1", Op: op, IB: m.IB, E: lit(m.B)})
				}
				for _, op := range []string{"plus", "minus", "times", "divide"} {
					in.Exprs = append(in.Exprs, Expr{Op: op, A: []Expr{{Op: "name", Name: "custom1"}, lit(m.B)}})
				}
				g.Emit(in, true)
				g.Tag("pairs of values from the model")
			}
			for n := g.N(7000, 60000); n > 0; n-- {
				in := c05In{Kind: pick(g, "pattern", "font", "font"), Exprs: []Expr{}, Tests: []c05Test{}}
				x := exprGen{g, in.Kind}
				in.Pat = x.pat()
				in.Query = x.pat()
				for i := 0; i < 3; i++ {
					in.Exprs = append(in.Exprs, x.gen(c05Types[g.Intn(len(c05Types))], false, 1+g.Intn(3)))
				}
				for i := 0; i < 3; i++ {
					t := c05Types[g.Intn(len(c05Types))]
					os := append([]string{"custom1", "custom2", "custom3"}, c05Objs[t]...)
					o := os[g.Intn(len(os))]
					strict := o[0:2] != "cu"
					if t == "range" && strict {
						in.Tests = append(in.Tests, c05Test{O: o, Op: cmp[g.Intn(8)], E: x.lit(pick(g, "num", "range"))})
						continue
					}
					in.Tests = append(in.Tests, c05Test{O: o, Op: cmp[g.Intn(8)], IB: g.Intn(2) == 0, E: x.gen(t, strict, g.Intn(3))})
				}
				g.Emit(in, true)
				g.Tag("random expressions, " + in.Kind)
			}
		},
		Exec: func(raw json.RawMessage, obs func(interface{})) {
			var in c05In
			dec(raw, &in)
			cfg := newConfig()
			var rules []RuleJ
			for i, e := range in.Exprs {
				rules = append(rules, RuleJ{Kind: in.Kind, Edits: []EditJ{{Name: []string{"custom5", "custom6", "custom7", "custom8"}[i], Mode: "assign_replace", Es: []Expr{e}}}})
			}
			for i, t := range in.Tests {
				rules = append(rules, RuleJ{Kind: in.Kind, Tests: []TestJ{{Name: t.O, Cmp: t.Op, IB: t.IB, E: t.E}},
					Edits: []EditJ{{Name: "rasterizer", Mode: "append_last", Es: []Expr{lit(VS(string(rune('a' + i))))}}}})
			}
			if err := loadRules(cfg, rules); err != nil {
				obs(J{"err": err.Error(), "vals": []Val{}, "held": []bool{}})
				return
			}
			p, q := in.Pat.build(), in.Query.build()
			kind := fc.MatchResult
			if in.Kind == "pattern" {
				kind = fc.MatchQuery
			}
			cfg.Substitute(p, q, kind)
			vals := []Val{}
			for i := range in.Exprs {
				v, r := p.GetAt(objByName[[]string{"custom5", "custom6", "custom7", "custom8"}[i]], 0)
				if r != fc.ResultMatch {
					v = nil
				}
				vals = append(vals, fromFC(v))
			}
			held := make([]bool, len(in.Tests))
			for _, s := range p.GetStrings(fc.RASTERIZER) {
				held[s[0]-'a'] = true
			}
			q2 := patCode(q)
			obs(J{"err": "", "vals": vals, "held": held, "query": q2})
		},
	}
}
