package main

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"strings"
	"testing/iotest"

	fc "github.com/benoitkugler/textprocessing/fontconfig"
)

// a font: strong values, then families added with a weak binding
type c11Font struct {
	Pat  Pat  `json:"pat"`
	Weak []CS `json:"weak"`
}

type c11Op struct {
	Op   string `json:"op"`
	Slot int    `json:"slot"`
	Set  int    `json:"set"`
	At   int    `json:"at"` // per mille, or from the end when negative
	Bit  int    `json:"bit"`
}

type c11In struct {
	Sets [][]c11Font `json:"sets"`
	Ops  []c11Op     `json:"ops"`
}

func c11Font_(g *G) c11Font {
	f := c11Font{Weak: []CS{}}
	f.Pat = Pat{{O: "family", V: c06Vals(g, "fam", 1+g.Intn(2), true)}}
	for _, o := range []c04Obj{{"style", "str"}, {"lang", "lang"}, {"charset", "cs"}, {"weight", "rng"}, {"slant", "int"}, {"color", "bool"},
		{"matrix", "mat"}, {"pixelsize", "flt"}, {"file", "str"}, {"index", "int"}, {"custom1", "any"}, {"custom3", "any"}} {
		if g.Intn(3) == 0 {
			continue
		}
		e := Elt{O: o.o}
		for i := 1 + g.Intn(3); i > 0; i-- {
			switch {
			case o.t == "lang":
				e.V = append(e.V, []Val{VL("en", "fr"), VL("pa", "pa-pk", "zh-hk"), VL(), VS("fr-ca"), VS("xq")}[g.Intn(5)])
			case o.t == "str" && g.Intn(3) == 0:
				b := make([]byte, g.Intn(40))
				for j := range b {
					b[j] = byte(g.Intn(256))
				}
				e.V = append(e.V, VS(string(b)))
			case o.t == "cs" && g.Intn(2) == 0:
				var rs []int
				for j := g.Intn(30); j > 0; j-- {
					rs = append(rs, []int{g.Intn(600), 0x4e00 + g.Intn(100), 0x1f600 + g.Intn(40), 0x10ffff - g.Intn(3)}[g.Intn(4)])
				}
				e.V = append(e.V, VC(rs...))
			case o.t == "int" || o.t == "any" && g.Intn(3) == 0:
				e.V = append(e.V, VI([]int{0, 1, -1, 2147483647, -2147483648, 65536, -70000}[g.Intn(7)]))
			case o.t == "any" && g.Intn(5) == 0:
				e.V = append(e.V, []Val{VL("en"), VR(-1.5, 20), VF(-0.125), VB(2)}[g.Intn(4)])
			default:
				e.V = append(e.V, c08Vals(g, o.t, 1, true)...)
				if n := len(e.V) - 1; e.V[n][0] == "Langset" { // tags out of the tables are not saved, as documented
					e.V[n] = VL("fr")
				}
			}
		}
		f.Pat = append(f.Pat, e)
	}
	if g.Intn(2) == 0 {
		for i := 1 + g.Intn(2); i > 0; i-- {
			f.Weak = append(f.Weak, CS(pick(g, "a", "weak", "w x", "b")))
		}
	}
	return f
}

// extra tags of language sets are documented as not saved
func c11Sets(g *G) [][]c11Font {
	var out [][]c11Font
	for i := 0; i < 2; i++ {
		set := []c11Font{}
		for n := g.Intn(4); n > 0; n-- {
			set = append(set, c11Font_(g))
		}
		out = append(out, set)
	}
	return out
}

func (f c11Font) build() fc.Pattern {
	p := f.Pat.build()
	for _, w := range f.Weak {
		cfg := newConfig()
		r := RuleJ{Kind: "scan", Tests: []TestJ{}, Edits: []EditJ{{Name: "family", Mode: "append_last", Bind: "weak", Es: []Expr{lit(VS(string(w)))}}}}
		if err := loadRules(cfg, []RuleJ{r}); err != nil {
			panic(err)
		}
		cfg.Substitute(p, nil, fc.MatchScan)
	}
	return p
}

func unzip(b []byte) []byte {
	r, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil
	}
	out, err := io.ReadAll(r)
	if err != nil {
		return nil
	}
	return out
}

func zip(b []byte) []byte {
	var buf bytes.Buffer
	w := gzip.NewWriter(&buf)
	w.Write(b)
	w.Close()
	return buf.Bytes()
}

func hashes(fs fc.Fontset) []string {
	var out []string
	for _, p := range fs {
		out = append(out, p.Hash())
	}
	return out
}

func init() {
	props["C11"] = &Prop{
		Gen: func(g *G) {
			fix := func(in *c11In) {
				for i := range in.Ops {
					op := &in.Ops[i]
					op.At, op.Bit = g.Intn(1000), g.Intn(8)
					if g.Intn(3) == 0 {
						op.At = -1 - g.Intn(20)
					}
				}
			}
			for _, h := range g.Hist {
				in := c11In{Sets: c11Sets(g)}
				dec(h, &in.Ops)
				fix(&in)
				g.Emit(in, true)
				g.Tag("saves, damages and loads from the model")
			}
			// sizes around those of the counters of the format
			for i, n := range []int{127, 128, 129, 255, 256, 257, 511, 1000} {
				big := func(f *c11Font, o string, vs ...Val) {
					for j := range f.Pat {
						if f.Pat[j].O == o {
							f.Pat[j].V = vs
							return
						}
					}
					f.Pat = append(f.Pat, Elt{O: o, V: vs})
				}
				for kind := 0; kind < 4; kind++ {
					if kind > 1 && g.N(0, 1) == 0 && (i+int(g.Seed))%4 != kind-2 {
						continue
					}
					in := c11In{Sets: c11Sets(g)}
					f := c11Font_(g)
					switch kind {
					case 0: // pages of a charset
						rs := []int{}
						for j := 0; j < n; j++ {
							rs = append(rs, 256*(3*j)%0x110000+j%256)
						}
						big(&f, "charset", VC(rs...))
					case 1: // length of a string
						big(&f, "style", VS(strings.Repeat("xyz.", n/4)+strings.Repeat("a", n%4)))
					case 2: // number of values
						vs := []Val{}
						for j := 0; j < n; j++ {
							vs = append(vs, VS(fmt.Sprint("s", j%97)))
						}
						big(&f, "style", vs...)
					case 3: // number of fonts
						for len(in.Sets[0]) < n {
							in.Sets[0] = append(in.Sets[0], c11Font{Weak: []CS{}, Pat: Pat{{O: "family", V: []Val{VS(fmt.Sprint("f", len(in.Sets[0])))}}}})
						}
					}
					in.Sets[0] = append(in.Sets[0], f)
					in.Ops = []c11Op{{Op: "save", Slot: 1, Set: 1}, {Op: "load", Slot: 1}, {Op: "copy", Slot: 2, Set: 1}, {Op: pick(g, "cut", "flip", "cutinside"), Slot: 2}, {Op: "load", Slot: 2}}
					fix(&in)
					g.Emit(in, true)
					g.Tag("sizes around those of the counters")
				}
			}
			for n := g.N(3000, 40000); n > 0; n-- {
				in := c11In{Sets: c11Sets(g)}
				in.Ops = []c11Op{{Op: "save", Slot: 1, Set: 1 + g.Intn(2)}, {Op: "load", Slot: 1}}
				for i := 1 + g.Intn(5); i > 0; i-- {
					in.Ops = append(in.Ops, c11Op{Op: "copy", Slot: 2, Set: 1}, c11Op{Op: pick(g, "cut", "cut", "add", "flip", "flip", "cutinside", "addinside", "forge", "forge"), Slot: 2}, c11Op{Op: "load", Slot: 2})
				}
				fix(&in)
				g.Emit(in, len(in.Sets[0]) > 0)
				g.Tag("random damages")
			}
		},
		Exec: func(raw json.RawMessage, obs func(interface{})) {
			var in c11In
			dec(raw, &in)
			var sets []fc.Fontset
			for _, s := range in.Sets {
				var fs fc.Fontset
				for _, f := range s {
					fs = append(fs, f.build())
				}
				sets = append(sets, fs)
			}
			data := [3][]byte{}
			held := [3]int{}
			for n, op := range in.Ops {
				d := data[op.Slot]
				pos := func(l int) int {
					p := op.At * l / 1000
					if op.At < 0 {
						p = l + op.At
					}
					if p < 0 {
						p = 0
					}
					return p
				}
				switch op.Op {
				case "save":
					fs := sets[op.Set-1]
					before := fmt.Sprint(hashes(fs))
					var b bytes.Buffer
					err := fs.Serialize(&b)
					data[op.Slot], held[op.Slot] = b.Bytes(), op.Set
					obs(J{"err": err != nil, "same": before == fmt.Sprint(hashes(fs))})
					continue
				case "copy":
					data[op.Slot], held[op.Slot] = append([]byte{}, data[op.Set]...), held[op.Set]
				case "cut":
					if len(d) > 0 {
						data[op.Slot] = d[:pos(len(d))]
					}
				case "add":
					data[op.Slot] = append(append([]byte{}, d...), byte(op.Bit))
				case "flip":
					if len(d) > 0 {
						d = append([]byte{}, d...)
						d[pos(len(d))] ^= 1 << op.Bit
						data[op.Slot] = d
					}
				case "cutinside", "addinside", "forge":
					if x := unzip(d); len(x) > 0 {
						switch op.Op {
						case "cutinside":
							x = x[:pos(len(x))]
						case "addinside":
							x = append(x, byte(op.Bit))
						default:
							x[pos(len(x))] ^= 1 << op.Bit
						}
						data[op.Slot] = zip(x)
					} else if op.Op != "forge" { // already damaged
						data[op.Slot] = nil
					}
				case "load":
					var src io.Reader = bytes.NewReader(d)
					if n%2 == 1 {
						src = iotest.OneByteReader(src)
					}
					fs, err := fc.LoadFontset(src)
					fonts := []J{}
					again, matches := true, true
					if err == nil {
						var orig fc.Fontset
						if held[op.Slot] > 0 {
							orig = sets[held[op.Slot]-1]
						}
						for i, p := range fs {
							fonts = append(fonts, J{"pat": patCode(p), "strong": familyBindings(p), "hash": i < len(orig) && orig[i].Hash() == p.Hash()})
						}
						var b bytes.Buffer
						err := fs.Serialize(&b)
						fs2, err2 := fc.LoadFontset(&b)
						again = err == nil && err2 == nil && fmt.Sprint(hashes(fs)) == fmt.Sprint(hashes(fs2))
						if fmt.Sprint(hashes(fs)) == fmt.Sprint(hashes(orig)) && len(fs) > 0 {
							for _, f := range orig {
								q := fc.NewPattern()
								fam, _ := f.GetString(fc.FAMILY)
								q.Add(fc.FAMILY, fc.String(fam), true)
								q.Add(fc.LANG, fc.String("fr"), true)
								matches = matches && fs.Match(q, newConfig()).Hash() == orig.Match(q, newConfig()).Hash()
							}
						}
					}
					obs(J{"err": err != nil, "fonts": fonts, "again": again, "matches": matches})
					continue
				}
				obs(J{"done": true})
			}
		},
	}
}
