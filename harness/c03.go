package main

import (
	"encoding/json"

	fc "github.com/benoitkugler/textprocessing/fontconfig"
)

type c03Op struct {
	Op  string `json:"op"` // add addc(onvenience) del dup build mutate
	P   int    `json:"p"`
	Q   int    `json:"q"`
	O   string `json:"o"`
	V   Val    `json:"v"`
	App bool   `json:"app"`
}
type c03In struct {
	Ops []c03Op `json:"ops"`
}

var c03Objs = []string{"family", "style", "file", "slant", "weight", "size", "pixelsize", "antialias", "matrix", "charset", "lang", "index", "custom1", "custom2", "fontversion", "fontvariations", "hintstyle", "width", "dpi", "color", "order", "postscriptname", "namelang"}

func randVal(g *G) Val {
	switch g.Intn(9) {
	case 0:
		return VI(g.Intn(4))
	case 1:
		return VF(float64(g.Intn(8))/4 + 0.25*float64(g.Intn(2)))
	case 2, 3:
		return VS(pick(g, "", "a", "b", "ab", "A", "ba", "1", "true", "a b", "2"))
	case 4:
		return VB(g.Intn(3))
	case 5:
		var rs []int
		for i := g.Intn(4); i > 0; i-- {
			rs = append(rs, []int{1, 2, 65, 256, 257}[g.Intn(5)])
		}
		return VC(rs...)
	case 6:
		var ts []string
		for i := g.Intn(3); i > 0; i-- {
			ts = append(ts, pick(g, "fr", "en", "xq", "ab", "abc", "xqa", "x", "q"))
		}
		return VL(ts...)
	case 7:
		return VM(1, float64(g.Intn(2)), 0, 1+float64(g.Intn(3))/2)
	default:
		return VR(float64(g.Intn(3)), 3+float64(g.Intn(3))/2)
	}
}

func c03Good(g *G, o string) Val {
	switch o {
	case "slant", "index", "fontversion", "hintstyle", "order":
		return VI(g.Intn(3))
	case "weight", "size", "width":
		switch g.Intn(3) {
		case 0:
			return VI(g.Intn(3))
		case 1:
			return VF(float64(g.Intn(6))/2 + 0.25)
		}
		return VR(float64(g.Intn(2)), 2+float64(g.Intn(2)))
	case "pixelsize", "dpi":
		if g.Intn(2) == 0 {
			return VI(g.Intn(3))
		}
		return VF(float64(g.Intn(6))/2 + 0.25)
	case "antialias", "color":
		return VB(g.Intn(3))
	case "matrix":
		return VM(1, float64(g.Intn(2)), 0, 1)
	case "charset":
		rs := []int{1, 2, 65, 256, 257}
		g.Shuffle(5, func(i, j int) { rs[i], rs[j] = rs[j], rs[i] })
		return VC(rs[:g.Intn(4)]...)
	case "lang":
		if g.Intn(2) == 0 {
			return VS(pick(g, "fr", "en", "xq"))
		}
		ts := []string{"fr", "en", "xq", "ab", "abc", "c-d", "xqa"}
		g.Shuffle(7, func(i, j int) { ts[i], ts[j] = ts[j], ts[i] })
		return VL(ts[:g.Intn(4)]...)
	case "custom1", "custom2":
		return randVal(g)
	}
	return VS(pick(g, "", "a", "b", "ab", "A", "ba", "bb", "aa"))
}

func init() {
	props["C03"] = &Prop{
		Gen: func(g *G) {
			for _, h := range g.Hist {
				var ops []c03Op
				dec(h, &ops)
				g.Emit(c03In{ops}, true)
				g.Tag("history from the model")
			}
			for n := g.N(9000, 90000); n > 0; n-- {
				var ops []c03Op
				objs := []string{c03Objs[g.Intn(len(c03Objs))], c03Objs[g.Intn(len(c03Objs))], c03Objs[g.Intn(len(c03Objs))]}
				for l := 3 + g.Intn(14); l > 0; l-- {
					o := c03Op{P: g.Intn(3), O: objs[g.Intn(len(objs))], App: g.Intn(3) > 0, V: VI(0)}
					switch x := g.Intn(12); {
					case x < 7:
						o.Op = "add"
						if g.Intn(8) == 0 {
							o.V = randVal(g)
						} else {
							o.V = c03Good(g, o.O)
						}
					case x < 8:
						o.Op = "addc"
						switch g.Intn(4) {
						case 0:
							o.V = VI(g.Intn(3))
						case 1:
							o.V = VF(0.5)
						case 2:
							o.V = VS(pick(g, "a", "b", "ab"))
						default:
							o.V = VB(g.Intn(2))
						}
						o.App = true
					case x < 9:
						o.Op = "del"
					case x < 10:
						o.Op = "dup"
						o.Q = (o.P + 1 + g.Intn(2)) % 3
					case x < 11:
						o.Op = "mutate"
						o.O = "charset"
						o.V = VC(1, 65, 256)
					default:
						o.Op = "build"
						o.V = c03Good(g, o.O)
					}
					ops = append(ops, o)
				}
				g.Emit(c03In{ops}, true)
				g.Tag("random history")
			}
			// two patterns with the same or nearly the same values: hashes
			for n := g.N(3000, 30000); n > 0; n-- {
				var ops []c03Op
				objs := []string{c03Objs[g.Intn(len(c03Objs))], c03Objs[g.Intn(len(c03Objs))]}
				for l := 1 + g.Intn(4); l > 0; l-- {
					o := c03Op{Op: "add", P: 0, O: objs[g.Intn(2)], App: true}
					o.V = c03Good(g, o.O)
					ops = append(ops, o)
					o.P = 1
					if g.Intn(3) == 0 {
						o.V = c03Good(g, o.O)
					}
					if g.Intn(4) == 0 {
						o.App = false
					}
					if g.Intn(5) > 0 {
						ops = append(ops, o)
					}
				}
				g.Emit(c03In{ops}, true)
				g.Tag("hash of close patterns")
			}
		},
		Exec: func(raw json.RawMessage, obs func(interface{})) {
			var in c03In
			dec(raw, &in)
			ps := [3]fc.Pattern{fc.NewPattern(), fc.NewPattern(), fc.NewPattern()}
			for _, o := range in.Ops {
				obj := objByName[o.O]
				indep := true
				switch o.Op {
				case "add":
					ps[o.P].Add(obj, toFC(o.V), o.App)
				case "addc":
					switch v := toFC(o.V).(type) {
					case fc.Int:
						ps[o.P].AddInt(obj, int32(v))
					case fc.Float:
						ps[o.P].AddFloat(obj, float32(v))
					case fc.String:
						ps[o.P].AddString(obj, string(v))
					case fc.Bool:
						ps[o.P].AddBool(obj, v == fc.True)
					}
				case "del":
					ps[o.P].Del(obj)
				case "dup":
					ps[o.P] = ps[o.Q].Duplicate()
					indep = !pokeShared(ps[o.Q], ps[o.P]) && !pokeShared(ps[o.P], ps[o.Q])
				case "mutate": // the value given in is changed after being added
					cs := toFC(o.V).(fc.Charset)
					ps[o.P].Add(obj, cs, o.App)
					cs.AddChar(66)
					cs.DelChar(65)
					cs.AddChar(257)
				case "build":
					ps[o.P] = fc.BuildPattern(fc.PatternElement{Object: obj, Value: toFC(o.V)}, fc.PatternElement{Object: fc.FAMILY, Value: fc.String("x")})
				}
				pats := []Pat{patCode(ps[0]), patCode(ps[1]), patCode(ps[2])}
				p := ps[o.P]
				gets := []Val{}
				results := []int{}
				for i := 0; i < 4; i++ {
					v, r := p.GetAt(obj, i)
					results = append(results, int(r))
					gets = append(gets, fromFC(v))
				}
				opt := func(v fc.Value, ok bool) Val {
					if !ok {
						return Val{"Nil", 0}
					}
					return fromFC(v)
				}
				bv, ok1 := p.GetBool(obj)
				sv, ok2 := p.GetString(obj)
				iv, ok3 := p.GetInt(obj)
				fv, ok4 := p.GetFloat(obj)
				cv, ok5 := p.GetCharset(obj)
				mv, ok6 := p.GetMatrix(obj)
				first := J{"Bool": opt(bv, ok1), "String": opt(fc.String(sv), ok2), "Int": opt(fc.Int(iv), ok3),
					"Float": opt(fc.Float(fv), ok4), "Charset": opt(cv, ok5), "Matrix": opt(mv, ok6)}
				ss, is, fs, ms := []Val{}, []Val{}, []Val{}, []Val{}
				for _, s := range p.GetStrings(obj) {
					ss = append(ss, fromFC(fc.String(s)))
				}
				for _, s := range p.GetInts(obj) {
					is = append(is, fromFC(fc.Int(s)))
				}
				for _, s := range p.GetFloats(obj) {
					fs = append(fs, fromFC(fc.Float(s)))
				}
				for _, s := range p.GetMatrices(obj) {
					ms = append(ms, fromFC(s))
				}
				h := [3]string{ps[0].Hash(), ps[1].Hash(), ps[2].Hash()}
				obs(J{"indep": indep, "pats": pats, "results": results, "gets": gets, "first": first,
					"all":  J{"String": ss, "Int": is, "Float": fs, "Matrix": ms},
					"hash": []bool{h[0] == h[1], h[0] == h[2], h[1] == h[2]}})
			}
		},
	}
}

// pokeShared changes (for a moment) a charset of p in place and returns whether q sees it
func pokeShared(p, q fc.Pattern) bool {
	cs, ok := p.GetCharset(fc.CHARSET)
	if !ok {
		return false
	}
	runes := charsetRunes(cs)
	if len(runes) == 0 {
		return false
	}
	before, _ := json.Marshal(patCode(q))
	r := rune(runes[0])
	cs.DelChar(r)
	after, _ := json.Marshal(patCode(q))
	cs.AddChar(r)
	return string(before) != string(after)
}
