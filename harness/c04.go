package main

import (
	"encoding/json"

	fc "github.com/benoitkugler/textprocessing/fontconfig"
)

type c04In struct {
	Kind  string  `json:"kind"`
	Pat   Pat     `json:"pat"`
	Query Pat     `json:"query"`
	Rules []RuleJ `json:"rules"`
	Split int     `json:"split"` // rules per source
}

var fcKind = map[string]func(c *fc.Config, p, q fc.Pattern){
	"pattern": func(c *fc.Config, p, q fc.Pattern) { c.Substitute(p, q, fc.MatchQuery) },
	"font":    func(c *fc.Config, p, q fc.Pattern) { c.Substitute(p, q, fc.MatchResult) },
	"scan":    func(c *fc.Config, p, q fc.Pattern) { c.Substitute(p, q, fc.MatchScan) },
}

var c04Modes = []string{"assign", "assign_replace", "prepend", "prepend_first", "append", "append_last", "delete", "delete_all"}

type c04Obj = struct{ o, t string }

var c04Objs = []c04Obj{
	{"family", "fam"}, {"family", "fam"}, {"family", "fam"}, {"style", "str"}, {"slant", "int"}, {"weight", "rng"}, {"size", "rng"},
	{"antialias", "bool"}, {"pixelsize", "flt"}, {"charset", "cs"}, {"matrix", "mat"}, {"custom1", "any"}, {"custom2", "any"}, {"lang", "lang"}}

func c04Val(g *G, t string) Val {
	switch t {
	case "fam":
		return VS(pick(g, "a", "b", "A b", "ab", "AB", "c", "d"))
	case "str":
		return VS(pick(g, "a", "b", "x"))
	case "int":
		return VI(g.Intn(3))
	case "flt":
		return []Val{VI(g.Intn(3)), VF(float64(g.Intn(6)) * 0.5)}[g.Intn(2)]
	case "rng":
		switch g.Intn(3) {
		case 0:
			return VI(g.Intn(3))
		case 1:
			return VF(float64(g.Intn(6)) * 0.5)
		}
		a := float64(g.Intn(3))
		return VR(a, a+float64(g.Intn(3)))
	case "bool":
		return VB(g.Intn(3))
	case "cs":
		return []Val{VC(65), VC(65, 66), VC(66), VC(300)}[g.Intn(4)]
	case "mat":
		return []Val{VM(1, 0, 0, 1), VM(2, 0, 0, 1)}[g.Intn(2)]
	case "lang":
		return []Val{VL("en", "fr"), VS("en"), VS("fr"), VL("xq")}[g.Intn(4)]
	}
	return c04Val(g, []string{"fam", "int", "bool", "cs", "mat", "flt", "rng"}[g.Intn(7)])
}

func c04Pat(g *G) Pat {
	out := Pat{{O: "lang", V: []Val{VS("en")}}, {O: "prgname", V: []Val{VS("x")}}}
	for _, ot := range c04Objs {
		if ot.o == "lang" || out.get(ot.o) != nil || g.Intn(4) == 0 {
			continue
		}
		e := Elt{O: ot.o}
		for i := 1 + g.Intn(3); i > 0; i-- {
			e.V = append(e.V, c04Val(g, ot.t))
		}
		out = append(out, e)
	}
	return out
}

func c04Expr(g *G, o, t string, kind string, x exprGen) Expr {
	switch g.Intn(10) {
	case 0:
		e := Expr{Op: "name", Name: o}
		if kind == "font" && g.Intn(2) == 0 {
			e.Tgt = "pattern"
		}
		return e
	case 1:
		if t == "any" {
			return Expr{Op: "name", Name: pick(g, "custom2", "custom3", "family", "slant")}
		}
	case 2:
		if t == "fam" {
			return Expr{Op: "if", A: []Expr{
				{Op: pick(g, "eq", "not_eq", "contains"), A: []Expr{{Op: "name", Name: "style"}, lit(c04Val(g, "str"))}},
				lit(c04Val(g, t)), lit(c04Val(g, t))}}
		}
	}
	return lit(c04Val(g, t))
}

// objs: the objects of a case (all of them, or families and styles only)
func c04Rule(g *G, kind string, c04Objs []c04Obj) RuleJ {
	x := exprGen{g, kind}
	if kind == "pattern" && g.Intn(4) == 0 {
		r := RuleJ{Kind: "alias", Tests: []TestJ{}, Edits: []EditJ{}, Family: CS(uncodes(c04Val(g, "fam")[1])), Bind: pick(g, "", "weak", "strong", "same")}
		fs := func() []CS {
			var out []CS
			for i := g.Intn(3); i > 0; i-- {
				out = append(out, CS(uncodes(c04Val(g, "fam")[1])))
			}
			return out
		}
		r.Prefer, r.Accept, r.Deflt = fs(), fs(), fs()
		return r
	}
	r := RuleJ{Kind: kind, Tests: []TestJ{}, Edits: []EditJ{}}
	var used []struct{ o, t string }
	if len(c04Objs) == 4 && kind == "font" && g.Intn(2) == 0 { // a test on the query before an edit of the families
		r.Tests = append(r.Tests, TestJ{Name: "style", Tgt: "pattern", Qual: "any", Cmp: "not_eq", E: lit(VS("no such style"))})
	}
	for i := g.Intn(4 - len(r.Tests)); i > 0; i-- {
		ot := c04Objs[g.Intn(len(c04Objs))]
		t := TestJ{Name: ot.o, Tgt: pick(g, "default", "default", "default", kind), Qual: pick(g, "any", "any", "all", "first", "not_first"),
			Cmp: pick(g, "eq", "eq", "eq", "not_eq", "contains", "not_contains", "less", "more_eq"), IB: g.Intn(3) == 0}
		t.E = c04Expr(g, ot.o, ot.t, kind, x)
		if kind == "font" && g.Intn(3) == 0 {
			t.Tgt = "pattern"
			t.E = lit(c04Val(g, ot.t))
		}
		r.Tests = append(r.Tests, t)
		used = append(used, ot)
	}
	for i := 1 + g.Intn(4); i > 0; i-- {
		ot := c04Objs[g.Intn(len(c04Objs))]
		if len(used) > 0 && g.Intn(4) > 0 {
			ot = used[g.Intn(len(used))]
		}
		if kind == "scan" && ot.t == "any" {
			continue
		}
		e := EditJ{Name: ot.o, Mode: c04Modes[g.Intn(8)], Bind: pick(g, "", "weak", "strong", "same"), Es: []Expr{}}
		if e.Mode != "delete" && e.Mode != "delete_all" {
			for j := 1 + g.Intn(2); j > 0; j-- {
				e.Es = append(e.Es, c04Expr(g, ot.o, ot.t, kind, x))
			}
			if g.Intn(12) == 0 { // an expression without value, or of another type
				e.Es = append(e.Es, Expr{Op: "name", Name: pick(g, "custom3", "custom2", "custom1")})
			}
		} else if g.Intn(2) == 0 {
			e.Mode = c04Modes[g.Intn(6)]
			e.Es = []Expr{c04Expr(g, ot.o, ot.t, kind, x)}
		}
		r.Edits = append(r.Edits, e)
	}
	if len(r.Edits) == 0 {
		r.Edits = append(r.Edits, EditJ{Name: "style", Mode: "append_last", Es: []Expr{lit(VS("z"))}})
	}
	return r
}

// strong says, for each family of p, whether a strong value equals it: a font with only that
// family and a wrong language beats a font without it and the right language exactly then
func familyBindings(p fc.Pattern) []J {
	out := []J{}
	seen := map[string]bool{}
	for _, f := range p.GetStrings(fc.FAMILY) {
		if seen[f] {
			continue
		}
		seen[f] = true
		q := fc.NewPattern()
		for o, l := range p.Duplicate() {
			if o == fc.FAMILY {
				q[o] = l
			}
		}
		q.Add(fc.LANG, fc.String("en"), true)
		a, b := fc.NewPattern(), fc.NewPattern()
		a.Add(fc.FAMILY, fc.String(f), true)
		a.Add(fc.LANG, fc.NewLangset("ja"), true)
		b.Add(fc.FAMILY, fc.String("no such family"), true)
		b.Add(fc.LANG, fc.NewLangset("en"), true)
		fam, _ := fc.Fontset{b, a}.Sort(q, false)
		s, _ := fam[0].GetString(fc.FAMILY)
		out = append(out, J{"f": codes(f), "s": s == f})
	}
	return out
}

func init() {
	props["C04"] = &Prop{
		Gen: func(g *G) {
			for _, h := range g.Hist {
				var m struct {
					L            []Val
					Q, C, E1, E2 string
				}
				dec(h, &m)
				in := c04In{Kind: []string{"pattern", "font", "scan"}[g.Intn(3)], Query: Pat{}, Split: 1}
				in.Pat = Pat{{O: "lang", V: []Val{VS("en")}}, {O: "prgname", V: []Val{VS("x")}}, {O: "style", V: []Val{VS("a")}}}
				if len(m.L) > 0 {
					in.Pat = append(in.Pat, Elt{O: "family", V: m.L})
				}
				r := RuleJ{Kind: in.Kind, Tests: []TestJ{}}
				if m.Q != "none" {
					r.Tests = append(r.Tests, TestJ{Name: "family", Tgt: "default", Qual: m.Q, Cmp: m.C, E: lit(VS("a"))})
				}
				del := func(m string) bool { return m == "delete" || m == "delete_all" }
				e1 := EditJ{Name: "family", Mode: m.E1, Bind: "same", Es: []Expr{}}
				if !del(m.E1) {
					e1.Es = []Expr{lit(VS("c")), lit(VS("d"))}
				}
				e2 := EditJ{Name: "family", Mode: m.E2, Bind: "strong", Es: []Expr{}}
				if !del(m.E2) {
					e2.Es = []Expr{lit(VS("b"))}
				}
				r.Edits = []EditJ{e1, e2}
				in.Rules = []RuleJ{r}
				g.Emit(in, len(m.L) > 0)
				g.Tag("one rule from the model")
			}
			for n := g.N(5000, 50000); n > 0; n-- {
				in := c04In{Kind: pick(g, "pattern", "pattern", "font", "font", "scan"), Pat: c04Pat(g), Query: Pat{}, Split: 1 + g.Intn(5)}
				if in.Kind == "font" {
					in.Query = c04Pat(g)
				}
				objs := c04Objs
				if g.Intn(3) == 0 {
					objs = objs[:4]
				}
				for i := 1 + g.Intn(5); i > 0; i-- {
					k := in.Kind
					if g.Intn(5) == 0 {
						k = pick(g, "pattern", "font", "scan")
					}
					in.Rules = append(in.Rules, c04Rule(g, k, objs))
				}
				g.Emit(in, len(in.Rules) > 1)
				g.Tag("random rules, " + in.Kind)
			}
		},
		Exec: func(raw json.RawMessage, obs func(interface{})) {
			var in c04In
			dec(raw, &in)
			cfg := newConfig()
			for i := 0; i < len(in.Rules); i += in.Split {
				j := i + in.Split
				if j > len(in.Rules) {
					j = len(in.Rules)
				}
				if err := loadRules(cfg, in.Rules[i:j]); err != nil {
					obs(J{"err": err.Error(), "pat": Pat{}, "query": Pat{}, "strong": []J{}})
					return
				}
			}
			for i := 0; i < 2; i++ { // applying rules does not change them
				p, q := in.Pat.build(), in.Query.build()
				fcKind[in.Kind](cfg, p, q)
				obs(J{"err": "", "pat": patCode(p), "query": patCode(q), "strong": familyBindings(p)})
			}
		},
	}
}
