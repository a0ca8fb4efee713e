package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	fc "github.com/benoitkugler/textprocessing/fontconfig"
)

type c06In struct {
	Pat    Pat     `json:"pat"`
	PRules []RuleJ `json:"prules"`
	FRules []RuleJ `json:"frules"`
	Fonts  []Pat   `json:"fonts"`
	Render int     `json:"render"`
}

// objects with a distance, by the type of their values
var c06Objs = []c04Obj{
	{"family", "fam"}, {"family", "fam"}, {"family", "fam"}, {"lang", "lang"}, {"lang", "lang"}, {"postscriptname", "ps"}, {"postscriptname", "ps"}, {"charset", "cs"}, {"charset", "cs"},
	{"file", "file"}, {"fontformat", "str"}, {"variable", "bool"}, {"scalable", "bool"}, {"color", "bool"}, {"foundry", "str"},
	{"symbol", "bool"}, {"spacing", "int"}, {"size", "size"}, {"size", "size"}, {"pixelsize", "flt"}, {"style", "str"}, {"slant", "int"}, {"weight", "rng"}, {"weight", "rng"},
	{"width", "rng"}, {"fonthashint", "bool"}, {"decorative", "bool"}, {"antialias", "bool"}, {"rasterizer", "str"}, {"outline", "bool"},
	{"order", "int"}, {"fontversion", "int"}}
var c06Others = []c04Obj{{"dpi", "flt"}, {"hintstyle", "int"}, {"custom1", "any"}, {"embolden", "bool"}, {"matrix", "mat"}, {"fontfeatures", "str"},
	{"fullname", "str"}, {"familylang", "tag"}, {"stylelang", "tag"}, {"fullnamelang", "tag"}, {"fontvariations", "var"}}

func c06Vals(g *G, t string, n int, font bool) []Val {
	var out []Val
	half := n == 1 // several values: whole numbers only
	for i := 0; i < n; i++ {
		var v Val
		switch t {
		case "fam":
			v = VS(pick(g, "a", "b", "A b", "ab", "c", "d", "a", "b", " a", ""))
			if g.Intn(3) > 0 {
				v = VS(pick(g, "a", "b", "c"))
			}
		case "ps":
			v = VS(pick(g, "ab", "a-b", "A-B", "abcd", "ab-cd", "abxy", "xbcd", "a", "b", " ab"))
		case "str":
			v = VS(pick(g, "x", "y", "X", "z"))
		case "file":
			v = VS(pick(g, "/a/b.ttf", "/a/B.ttf", "/a/bc.ttf", "/b", "", "c"))
			if !font {
				v = VS(pick(g, "/a/b.ttf", "/a/*.ttf", "*", "/a/?.ttf", "*b*", "/a/b", "/a/b.ttfx", "**", "*b.t?f", "", "?*b"))
			}
		case "int":
			v = VI(g.Intn(4))
		case "flt":
			v = VI(g.Intn(4))
			if half && g.Intn(2) == 0 {
				v = VF(float64(g.Intn(8)) * 0.5)
			}
		case "rng", "size":
			k := float64(1)
			if t == "rng" {
				k = 20
			}
			switch {
			case half && g.Intn(3) == 0:
				v = VF(float64(g.Intn(8)) * 0.5 * k)
			case half && g.Intn(2) == 0 || t == "rng" && g.Intn(2) == 0:
				a := float64(g.Intn(5)) * k
				b := a + float64(g.Intn(4))*k
				v = VR(a, b)
			default:
				v = VI(g.Intn(6) * int(k))
			}
			if t == "rng" && g.Intn(5) == 0 {
				v = VI(pickInt(g, 0, 40, 80, 100, 200))
			}
		case "bool":
			v = VB(g.Intn(2))
		case "cs":
			var rs []int
			if g.Intn(2) == 0 { // characters of several pages
				for i := 1 + g.Intn(6); i > 0; i-- {
					rs = append(rs, pickInt(g, 0, 1, 2, 4, 5, 9, 18, 255, 4351)*256+pickInt(g, 1, 1, 1, 32, 255))
				}
			} else {
				for i := 1 + g.Intn(3); i > 0; i-- {
					rs = append(rs, pickInt(g, 65, 66, 67, 300))
				}
			}
			v = VC(rs...)
		case "lang":
			v = VL(pick(g, "en", "fr", "fr-ca", "zh-cn", "de"))
			if g.Intn(3) == 0 {
				v = VL(pick(g, "en", "fr"), pick(g, "ja", "zh-tw", "pt"))
			}
			if g.Intn(3) == 0 {
				v = VS(pick(g, "en", "fr", "fr-ca", "zh-tw"))
			}
		case "tag":
			v = VS(pick(g, "en", "fr", "de", "fr-ca"))
		case "var":
			v = VS(pick(g, "wght=200", "xyzw=1,b", "q"))
		default:
			v = c04Val(g, t)
		}
		out = append(out, v)
	}
	return out
}

func pickInt(g *G, xs ...int) int { return xs[g.Intn(len(xs))] }

// c06Case makes a query and a set of fonts sharing a few objects
func c06Case(g *G, order bool) c06In {
	var in c06In
	var objs []c04Obj
	seen := map[string]bool{}
	for i := 1 + g.Intn(6); i > 0; i-- {
		o := c06Objs[g.Intn(len(c06Objs))]
		if !seen[o.o] && !(order && o.o == "order") {
			seen[o.o] = true
			objs = append(objs, o)
		}
	}
	if order {
		if !seen["charset"] {
			seen["charset"] = true
			objs = append(objs, c04Obj{"charset", "cs"})
		}
		if !seen["lang"] && g.Intn(2) == 0 {
			seen["lang"] = true
			objs = append(objs, c04Obj{"lang", "lang"})
		}
	} else {
		for i := g.Intn(4); i > 0; i-- {
			o := c06Others[g.Intn(len(c06Others))]
			if !seen[o.o] {
				seen[o.o] = true
				objs = append(objs, o)
			}
		}
		if g.Intn(5) == 0 && !seen["variable"] {
			seen["variable"] = true
			objs = append(objs, c04Obj{"variable", "bool"})
		}
	}
	n := func(o c04Obj, font bool) int {
		if o.t == "size" && !font || o.t == "bool" || g.Intn(2) == 0 {
			return 1
		}
		if o.t == "cs" {
			return 1
		}
		return 1 + g.Intn(3)
	}
	in.Pat = Pat{{O: "prgname", V: []Val{VS("x")}}}
	if !seen["lang"] {
		in.Pat = append(in.Pat, Elt{O: "lang", V: []Val{VS("en")}})
	}
	in.PRules, in.FRules, in.Fonts = []RuleJ{}, []RuleJ{}, []Pat{}
	for _, o := range objs {
		if g.Intn(6) == 0 && o.o != "lang" {
			continue
		}
		vs := c06Vals(g, o.t, n(o, false), false)
		if o.o == "lang" { // so that no default language is added
			vs[0] = VL(append([]string{"en"}, pick(g, "fr", "de", "zh-cn"))...)
			if g.Intn(2) == 0 {
				vs[0] = VS("en")
			}
		}
		if (o.o == "family" || o.o == "postscriptname") && g.Intn(2) == 0 {
			e := EditJ{Name: o.o, Mode: pick(g, "append_last", "prepend_first"), Bind: pick(g, "weak", "weak", "strong"), Es: []Expr{}}
			for _, v := range c06Vals(g, o.t, 1+g.Intn(2), false) {
				e.Es = append(e.Es, lit(v))
			}
			in.PRules = append(in.PRules, RuleJ{Kind: "pattern", Tests: []TestJ{}, Edits: []EditJ{e}})
		}
		in.Pat = append(in.Pat, Elt{O: o.o, V: vs})
	}
	if order {
		in.Pat = append(in.Pat, Elt{O: "order", V: []Val{VI(0)}})
	}
	for i := 1 + g.Intn(5); i > 0; i-- {
		f := Pat{{O: "index", V: []Val{VI(len(in.Fonts) + 1)}}}
		for _, o := range objs {
			if g.Intn(7) == 0 {
				continue
			}
			f = append(f, Elt{O: o.o, V: c06Vals(g, o.t, n(o, true), true)})
		}
		// names with their languages
		for _, nl := range [][2]string{{"family", "familylang"}, {"style", "stylelang"}} {
			if e := f.get(nl[0]); e != nil && f.get(nl[1]) == nil && g.Intn(4) == 0 && !order {
				k := len(e.V)
				if g.Intn(5) == 0 {
					k = 1 + g.Intn(3)
				}
				f = append(f, Elt{O: nl[1], V: c06Vals(g, "tag", k, true)})
			}
		}
		in.Fonts = append(in.Fonts, f)
	}
	if order {
		perm := g.Perm(len(in.Fonts))
		for i := range in.Fonts {
			in.Fonts[i] = append(in.Fonts[i], Elt{O: "order", V: []Val{VI(perm[i])}})
		}
	} else {
		for i := g.Intn(3); i > 0; i-- {
			in.FRules = append(in.FRules, c04Rule(g, "font", c04Objs))
		}
	}
	in.Render = 1 + g.Intn(len(in.Fonts))
	return in
}

// fromModel turns {object: [[value, binding]]} into a pattern of strong values and
// a rule appending the weak ones at their place
func fromModel(m mpat) (Pat, []RuleJ) {
	out := Pat{}
	rules := []RuleJ{}
	for _, o := range objNames {
		l, ok := m[o]
		if !ok {
			continue
		}
		e := Elt{O: o}
		ed := []EditJ{}
		for _, x := range l {
			var v Val
			var b string
			json.Unmarshal(x[0], &v)
			json.Unmarshal(x[1], &b)
			if b == "w" {
				mode := "append_last"
				if len(e.V) == 0 {
					mode = "prepend_first"
				}
				ed = append(ed, EditJ{Name: o, Mode: mode, Bind: "weak", Es: []Expr{lit(v)}})
			} else {
				e.V = append(e.V, v)
			}
		}
		if len(e.V) > 0 {
			out = append(out, e)
		}
		if len(ed) > 0 {
			rules = append(rules, RuleJ{Kind: "pattern", Tests: []TestJ{}, Edits: ed})
		}
	}
	return out, rules
}

// mpat is a pattern printed by TLC: an empty function is printed as an empty sequence
type mpat map[string][][]json.RawMessage

func (m *mpat) UnmarshalJSON(b []byte) error {
	*m = mpat{}
	if string(b) == "[]" {
		return nil
	}
	return json.Unmarshal(b, (*map[string][][]json.RawMessage)(m))
}

func histCase(h json.RawMessage) c06In {
	var m struct {
		P  mpat
		Fs []mpat
	}
	dec(h, &m)
	in := c06In{FRules: []RuleJ{}, Render: 1}
	in.Pat, in.PRules = fromModel(m.P)
	in.Pat = append(in.Pat, Elt{O: "prgname", V: []Val{VS("x")}})
	l := in.Pat.get("lang")
	hasEn := false
	for _, v := range l.V {
		hasEn = hasEn || strings.Contains(uncodesAll(v), "en")
	}
	if !hasEn {
		l.V = append(l.V, VS("en"))
	}
	for i, f := range m.Fs {
		p, _ := fromModel(f)
		in.Fonts = append(in.Fonts, append(p, Elt{O: "index", V: []Val{VI(i + 1)}}))
	}
	return in
}

func uncodesAll(v Val) string {
	if v[0] == "String" {
		return uncodes(v[1])
	}
	s := ""
	for _, t := range list(v[1]) {
		s += uncodes(t) + "|"
	}
	return s
}

func (in c06In) set() fc.Fontset {
	var out fc.Fontset
	for _, f := range in.Fonts {
		out = append(out, f.build())
	}
	return out
}

// rendered is what is observed of a rendered pattern
func rendered(p fc.Pattern) J {
	chunks := []J{}
	vs := p.GetStrings(fc.FONT_VARIATIONS)
	if len(vs) > 0 {
		for _, c := range strings.Split(vs[0], ",") {
			j := J{"c": codes(c), "t": []int{}, "v": 0}
			if i := strings.IndexByte(c, '='); i >= 0 {
				if f, err := strconv.ParseFloat(c[i+1:], 64); err == nil {
					j["t"], j["v"] = codes(c[:i]), int(math.Round(f*fscale))
				}
			}
			chunks = append(chunks, j)
		}
	}
	return J{"pat": patCode(p), "vars": J{"n": len(vs), "chunks": chunks}}
}

func snapshot(p fc.Pattern, fs fc.Fontset) string {
	s := fmt.Sprintf("%v", patCode(p))
	for _, f := range fs {
		s += fmt.Sprintf("%v", patCode(f))
	}
	return s
}

func init() {
	props["C06"] = &Prop{
		Gen: func(g *G) {
			keep := g.N(3, 1)
			for i, h := range g.Hist {
				if i%keep != 0 {
					continue
				}
				g.Emit(histCase(h), true)
				g.Tag("three fonts from the model")
			}
			for n := g.N(6000, 60000); n > 0; n-- {
				in := c06Case(g, false)
				g.Emit(in, len(in.Fonts) > 1)
				g.Tag(fmt.Sprintf("random set of %d fonts", len(in.Fonts)))
			}
		},
		Exec: func(raw json.RawMessage, obs func(interface{})) {
			var in c06In
			dec(raw, &in)
			cfg := newConfig()
			if err := loadRules(cfg, append(append([]RuleJ{}, in.PRules...), in.FRules...)); err != nil {
				panic(err)
			}
			p := in.Pat.build()
			cfg.Substitute(p, nil, fc.MatchQuery)
			set := in.set()
			for i := 0; i < 2; i++ {
				before := snapshot(p, set)
				q := patCode(p)
				bare := set.Match(p, newConfig()) // no rule: the index tells the font
				m := set.Match(p, cfg)
				r := cfg.PrepareRender(p, set[in.Render-1])
				chosen, _ := bare.GetInt(fc.INDEX)
				obs(J{"query": q, "chosen": int(chosen), "match": rendered(m), "render": rendered(r), "same": reflect.DeepEqual(before, snapshot(p, set))})
			}
		},
	}
	props["C07"] = &Prop{
		Gen: func(g *G) {
			keep := g.N(5, 1)
			for i, h := range g.Hist {
				if i%keep != 0 {
					continue
				}
				in := histCase(h)
				for i := range in.Fonts {
					in.Fonts[i] = append(in.Fonts[i], Elt{O: "order", V: []Val{VI(i)}})
				}
				g.Emit(in, true)
				g.Tag("three fonts from the model")
			}
			for n := g.N(6000, 60000); n > 0; n-- {
				in := c06Case(g, true)
				g.Emit(in, len(in.Fonts) > 1)
				g.Tag(fmt.Sprintf("random set of %d fonts", len(in.Fonts)))
			}
		},
		Exec: func(raw json.RawMessage, obs func(interface{})) {
			var in c06In
			dec(raw, &in)
			cfg := newConfig()
			if err := loadRules(cfg, in.PRules); err != nil {
				panic(err)
			}
			p := in.Pat.build()
			cfg.Substitute(p, nil, fc.MatchQuery)
			set := in.set()
			before := snapshot(p, set)
			ids := func(fs fc.Fontset) []int {
				out := []int{}
				for _, f := range fs {
					i, _ := f.GetInt(fc.INDEX)
					out = append(out, int(i))
				}
				return out
			}
			for i := 0; i < 2; i++ {
				a, ua := set.Sort(p, false)
				t, ut := set.Sort(p, true)
				obs(J{"order": ids(a), "trimmed": ids(t), "union": charsetRunes(ua), "tunion": charsetRunes(ut), "same": before == snapshot(p, set)})
			}
		},
	}
}
