package main

import (
	"encoding/json"
	"fmt"

	fc "github.com/benoitkugler/textprocessing/fontconfig"
)

type c08In struct {
	Pat   Pat      `json:"pat"`
	Fonts []Pat    `json:"fonts"`
	Objs  []string `json:"objs"`
}

var c08Objs = []c04Obj{{"family", "fam"}, {"style", "str"}, {"fullname", "str"}, {"lang", "lang"}, {"charset", "cs"}, {"weight", "rng"}, {"slant", "int"},
	{"color", "bool"}, {"matrix", "mat"}, {"pixelsize", "flt"}, {"foundry", "str"}, {"postscriptname", "ps"}, {"custom1", "any"}, {"custom2", "any"}}

func c08Vals(g *G, t string, n int, font bool) []Val {
	var out []Val
	for i := 0; i < n; i++ {
		switch t {
		case "flt":
			out = append(out, VF(float64(g.Intn(4))+0.5))
		case "rng":
			if g.Intn(2) == 0 {
				out = append(out, VI(g.Intn(5)))
			} else {
				a := float64(g.Intn(5))
				b := a + float64(g.Intn(4))
				out = append(out, VR(a, b))
			}
		case "any":
			out = append(out, c06Vals(g, []string{"fam", "int", "bool", "cs", "mat", "lang"}[g.Intn(6)], 1, font)...)
		default:
			out = append(out, c06Vals(g, t, 1, font)...)
		}
	}
	return out
}

func c08Case(g *G) c08In {
	in := c08In{Pat: Pat{}, Fonts: []Pat{}, Objs: []string{}}
	var objs []c04Obj
	for _, i := range g.Perm(len(c08Objs))[:1+g.Intn(4)] {
		objs = append(objs, c08Objs[i])
	}
	for i := 1 + g.Intn(6); i > 0; i-- {
		f := Pat{}
		for _, o := range objs {
			if g.Intn(6) == 0 {
				continue
			}
			n := 1
			if g.Intn(2) == 0 {
				n = 1 + g.Intn(3)
			}
			if o.t == "bool" || o.t == "cs" {
				n = 1
			}
			vs := c08Vals(g, o.t, n, true)
			f = append(f, Elt{O: o.o, V: vs})
			if l, ok := map[string]string{"family": "familylang", "style": "stylelang", "fullname": "fullnamelang"}[o.o]; ok && g.Intn(2) == 0 {
				k := n
				if g.Intn(6) == 0 {
					k = 1 + g.Intn(3)
				}
				f = append(f, Elt{O: l, V: c06Vals(g, "tag", k, true)})
			}
		}
		if len(in.Fonts) > 0 && g.Intn(4) == 0 { // the same font but for one object
			f = append(Pat{}, in.Fonts[g.Intn(len(in.Fonts))]...)
			if len(f) > 0 {
				j := g.Intn(len(f))
				f = append(append(Pat{}, f[:j]...), f[j+1:]...)
			}
		}
		in.Fonts = append(in.Fonts, f)
	}
	for _, o := range objs {
		if g.Intn(2) == 0 {
			in.Pat = append(in.Pat, Elt{O: o.o, V: c08Vals(g, o.t, 1+g.Intn(2), true)})
		}
	}
	if f := in.Fonts[g.Intn(len(in.Fonts))]; g.Intn(3) == 0 && len(f) > 0 { // values of one font
		in.Pat = Pat{f[g.Intn(len(f))]}
	}
	if g.Intn(2) == 0 {
		in.Pat = append(in.Pat, Elt{O: "namelang", V: c06Vals(g, "tag", 1+g.Intn(2), true)})
	}
	if g.Intn(6) > 0 {
		var names []string
		for _, o := range objs {
			names = append(names, o.o)
		}
		names = append(names, "familylang", "stylelang", "fullnamelang", "index")
		for i := 1 + g.Intn(4); i > 0; i-- {
			in.Objs = append(in.Objs, names[g.Intn(len(names))]) // possibly twice the same
		}
	}
	return in
}

type c09In struct {
	Pat Pat `json:"pat"`
}

func init() {
	props["C08"] = &Prop{
		Gen: func(g *G) {
			for _, h := range g.Hist {
				var m struct {
					P    mpat
					Fs   []mpat
					Objs []string
				}
				dec(h, &m)
				in := c08In{Objs: m.Objs}
				in.Pat, _ = fromModel(m.P)
				for _, f := range m.Fs {
					p, _ := fromModel(f)
					in.Fonts = append(in.Fonts, p)
				}
				g.Emit(in, true)
				g.Tag("three fonts from the model")
			}
			for n := g.N(8000, 80000); n > 0; n-- {
				in := c08Case(g)
				g.Emit(in, len(in.Fonts) > 1)
				g.Tag(fmt.Sprintf("random set of %d fonts", len(in.Fonts)))
			}
		},
		Exec: func(raw json.RawMessage, obs func(interface{})) {
			var in c08In
			dec(raw, &in)
			var set fc.Fontset
			for _, f := range in.Fonts {
				set = append(set, f.build())
			}
			q := in.Pat.build()
			var objs []fc.Object
			for _, o := range in.Objs {
				objs = append(objs, objByName[o])
			}
			before := snapshot(q, set)
			for i := 0; i < 2; i++ {
				out := []Pat{}
				for _, p := range set.List(q, objs...) {
					out = append(out, patCode(p))
				}
				obs(J{"list": out, "same": before == snapshot(q, set)})
			}
		},
	}
	props["C09"] = &Prop{
		Gen: func(g *G) {
			for _, h := range g.Hist {
				var m mpat
				dec(h, &m)
				p, _ := fromModel(m)
				g.Emit(c09In{p}, true)
				g.Tag("sizes and names from the model")
			}
			bools := []string{"hinting", "verticallayout", "autohint", "globaladvance", "embeddedbitmap", "decorative", "symbol", "variable", "antialias", "color"}
			for n := g.N(6000, 60000); n > 0; n-- {
				p := Pat{}
				add := func(o string, vs ...Val) {
					if g.Intn(3) == 0 {
						for i := g.Intn(3); i > 0 && len(vs) == 1 && o != "dpi" && o != "scale" && o != "size"; i-- {
							vs = append(vs, vs[0])
						}
						p = append(p, Elt{O: o, V: vs})
					}
				}
				half := func(n int) Val {
					k := 1 + g.Intn(n)
					if k%2 == 0 && g.Intn(2) == 0 {
						return VI(k / 2)
					}
					return VF(float64(k) * 0.5)
				}
				for _, b := range bools {
					add(b, VB(g.Intn(3)))
				}
				for _, o := range []string{"weight", "width"} {
					add(o, c06Vals(g, "rng", 1, false)...)
				}
				for _, o := range []string{"slant", "order", "fontversion", "hintstyle", "spacing", "index"} {
					add(o, VI(g.Intn(200)))
				}
				add("size", []Val{half(100), VR(float64(1+g.Intn(10)), float64(12+g.Intn(10)))}[g.Intn(2)])
				add("dpi", half(300))
				add("scale", half(6))
				add("pixelsize", []Val{half(100), VF(float64(1+g.Intn(400)) * 0.25)}[g.Intn(2)])
				for _, o := range []string{"namelang", "familylang", "stylelang", "fullnamelang"} {
					add(o, c06Vals(g, "tag", 1+g.Intn(2), false)...)
				}
				for _, o := range []string{"prgname", "family", "style", "foundry"} {
					add(o, c06Vals(g, "str", 1+g.Intn(2), false)...)
				}
				add("lang", c06Vals(g, "lang", 1, false)...)
				add("charset", c06Vals(g, "cs", 1, false)...)
				g.Emit(c09In{p}, len(p) > 0)
				g.Tag("random pattern")
			}
		},
		Exec: func(raw json.RawMessage, obs func(interface{})) {
			var in c09In
			dec(raw, &in)
			p := in.Pat.build()
			p.SubstituteDefault()
			once := patCode(p)
			p.SubstituteDefault()
			obs(J{"once": once, "twice": patCode(p)})
		},
	}
}
