package main

import (
	"encoding/json"
	"reflect"

	"github.com/benoitkugler/textprocessing/pango"
)

// attribute values are small integers in the trace; mkAttr gives them a concrete form
var p01Kinds = []string{"weight", "family", "scale", "color", "desc", "shape"}

func mkAttr(kind string, v, s, e int) *pango.Attribute {
	var a *pango.Attribute
	switch kind {
	case "weight":
		a = pango.NewAttrWeight(pango.Weight(100 * (v + 1)))
	case "family":
		a = pango.NewAttrFamily([]string{"Sans", "Serif", "Mono", "Fancy"}[v])
	case "scale":
		a = pango.NewAttrScale(float32(v+1) / 2)
	case "color":
		a = pango.NewAttrForeground(pango.AttrColor{Red: uint16(v)})
	case "desc":
		d := pango.NewFontDescription()
		d.SetFamily([]string{"Sans", "Serif", "Mono", "Fancy"}[v])
		a = pango.NewAttrFontDescription(d)
	case "shape":
		a = pango.NewAttrShape(pango.Rectangle{Width: pango.Unit(v)}, pango.Rectangle{Width: 3})
	default:
		panic("kind " + kind)
	}
	a.StartIndex, a.EndIndex = s, e
	return a
}

func attrCode(a *pango.Attribute) []interface{} {
	for _, k := range p01Kinds {
		for v := 0; v < 4; v++ {
			b := mkAttr(k, v, 0, 1)
			if b.Kind == a.Kind && reflect.DeepEqual(b.Data, a.Data) {
				return []interface{}{k, v, a.StartIndex, a.EndIndex}
			}
		}
	}
	return []interface{}{"?", 0, a.StartIndex, a.EndIndex}
}

func listCode(l pango.AttrList) [][]interface{} {
	out := [][]interface{}{}
	for _, a := range l {
		if a == nil {
			out = append(out, []interface{}{"nil", 0, 0, 0})
			continue
		}
		out = append(out, attrCode(a))
	}
	return out
}

type p01Op struct {
	Op    string   `json:"op"`
	Kind  string   `json:"kind"`
	V     int      `json:"v"`
	S     int      `json:"s"`
	E     int      `json:"e"`
	Kinds []string `json:"kinds"`
}

func init() {
	props["P01"] = &Prop{
		Gen: func(g *G) {
			for _, h := range g.Hist {
				var ops []p01Op
				dec(h, &ops)
				for i := range ops {
					if ops[i].Kinds == nil {
						ops[i].Kinds = []string{}
					}
				}
				g.Emit(J{"ops": ops}, len(ops) > 1)
				g.Tag("from_model")
			}
			n := g.N(6000, 60000)
			for i := 0; i < n; i++ {
				var ops []p01Op
				max := 6 + g.Intn(18)
				L := 2 + g.Intn(9)
				kinds := p01Kinds[:1+g.Intn(len(p01Kinds))]
				vals := 2 + g.Intn(3)
				pIns := g.Intn(3) // 0: Change only after a disjoint start
				for len(ops) < L {
					o := p01Op{Kinds: []string{}}
					s := g.Intn(max)
					e := s + 1 + g.Intn(max-s)
					if g.Intn(12) == 0 {
						e = pango.MaxInt
						if e > 1<<31-1 {
							e = 1<<31 - 1
						}
					}
					if g.Intn(25) == 0 {
						e = s
					}
					o.Kind, o.V, o.S, o.E = kinds[g.Intn(len(kinds))], g.Intn(vals), s, e
					switch r := g.Intn(10); {
					case r == 0:
						o = p01Op{Op: "filter", Kinds: []string{kinds[g.Intn(len(kinds))], p01Kinds[g.Intn(len(p01Kinds))]}}
					case r <= pIns:
						o.Op = "insert"
					default:
						o.Op = "change"
					}
					ops = append(ops, o)
				}
				g.Emit(J{"ops": ops}, true)
				g.Tag("random")
			}
		},
		Exec: func(in json.RawMessage, obs func(interface{})) {
			var c struct{ Ops []p01Op }
			dec(in, &c)
			var l pango.AttrList
			for _, o := range c.Ops {
				out := [][]interface{}{}
				switch o.Op {
				case "insert":
					l.Insert(mkAttr(o.Kind, o.V, o.S, o.E))
				case "change":
					l.Change(mkAttr(o.Kind, o.V, o.S, o.E))
				case "filter":
					out = listCode(l.Filter(func(a *pango.Attribute) bool {
						for _, k := range o.Kinds {
							if mkAttr(k, 0, 0, 1).Kind == a.Kind {
								return true
							}
						}
						return false
					}))
				}
				obs(J{"list": listCode(l), "out": out})
			}
		},
	}
}
