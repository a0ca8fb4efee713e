package main

import (
	"encoding/json"
	"math"
	"regexp"
	"strconv"
	"strings"

	"github.com/benoitkugler/textprocessing/pango"
)

// font descriptions

type p11Op struct {
	Op   string      `json:"op"`
	D    int         `json:"d"`
	E    int         `json:"e"`
	F    string      `json:"f"`
	V    interface{} `json:"v"`
	Mask []string    `json:"mask"`
	Text string      `json:"text"`
	Toks []descTok   `json:"toks"`
}

type descTok struct {
	W    []string `json:"w"`
	Num  bool     `json:"num"`
	Size int      `json:"size"`
	Px   bool     `json:"px"`
}

var numRe = regexp.MustCompile(`^([0-9]+\.?[0-9]*(e\+[0-9][0-9])?|\.[0-9]+)(px)?$`)

func descToks(s string) []descTok {
	out := []descTok{}
	for _, w := range strings.Fields(s) {
		t := descTok{W: strings.Split(w, "")}
		if numRe.MatchString(w) {
			t.Num = true
			t.Px = strings.HasSuffix(w, "px")
			v, err := strconv.ParseFloat(strings.TrimSuffix(w, "px"), 64)
			if err != nil || v > 1e6 {
				t.Size = -1
			} else {
				t.Size = int(math.Floor(v*1024 + .5))
			}
		}
		out = append(out, t)
	}
	return out
}

var descMask = map[string]pango.FontMask{
	"family": pango.FmFamily, "style": pango.FmStyle, "variant": pango.FmVariant, "weight": pango.FmWeight,
	"stretch": pango.FmStretch, "size": pango.FmSize, "gravity": pango.FmGravity, "variations": pango.FmVariations,
}
var descFields = []string{"family", "style", "variant", "weight", "stretch", "size", "gravity", "variations"}

func descFieldsOf(d pango.FontDescription) J {
	return J{"family": d.FamilyName, "style": int(d.Style), "variant": int(d.Variant), "weight": int(d.Weight), "stretch": int(d.Stretch),
		"size": int(d.Size), "abs": d.SizeIsAbsolute, "gravity": int(d.Gravity), "variations": d.Variations}
}

func setDesc(d *pango.FontDescription, f string, v interface{}) {
	num := func() int { return int(v.(float64)) }
	switch f {
	case "family":
		d.SetFamily(v.(string))
	case "style":
		d.SetStyle(pango.Style(num()))
	case "variant":
		d.SetVariant(pango.Variant(num()))
	case "weight":
		d.SetWeight(pango.Weight(num()))
	case "stretch":
		d.SetStretch(pango.Stretch(num()))
	case "size":
		l := v.([]interface{})
		if l[1].(bool) {
			d.SetAbsoluteSize(int32(l[0].(float64)))
		} else {
			d.SetSize(int32(l[0].(float64)))
		}
	case "gravity":
		d.SetGravity(pango.Gravity(num()))
	case "variations":
		d.SetVariations(v.(string))
	default:
		panic("field " + f)
	}
}

var p11Families = []string{"Foo", "foo", "FOO", "DejaVu Sans", "dejavu sans", "Foo Bold", "Bold", "Normal", "Foo Normal", "Foo 12", "12", "1.5", "Foo 12px",
	"A,B", "A,Foo Bold", "A,B 12", "A Bold,B", "Semi-Bold", "Foo -", "-", "nan", "Foo NaN", "Inf", "weight=3", "Foo weight=300", "weight=x", "Ünï Cödé", "ünï cödé",
	"Σας", "ΣΑΣ", "Kelvin", "\u212Aelvin", "Lo\u017F", "Los", "Auto", "Foo auto", "South", "Foo Not-Rotated", "Foo Roman", "X small-caps", "Foo 1000001", "İstanbul", "istanbul", "A B C D", "Foo,Normal", "B5", "12 Foo", "Bold Foo"}

// families equal up to case
var p11Classes = J{"Foo": "#1", "foo": "#1", "FOO": "#1", "DejaVu Sans": "#2", "dejavu sans": "#2", "Ünï Cödé": "#3", "ünï cödé": "#3", "Σας": "#4", "ΣΑΣ": "#4",
	"Kelvin": "#5", "\u212Aelvin": "#5", "Lo\u017F": "#6", "Los": "#6"}

var p11Words = []string{"Foo", "Sans", "B5", "Bold", "BOLD", "bold", "Semi-Bold", "semibold", "SemiBold", "Light", "Demi-Light", "Book", "Regular", "Thin", "Ultra-Light", "extra-light", "Medium", "Ultra-Bold",
	"Heavy", "Black", "Ultra-Heavy", "Extra-Black", "Roman", "Oblique", "Italic", "ITALIC", "Normal", "normal", "Small-Caps", "All-Small-Caps", "Petite-Caps", "All-Petite-Caps", "Unicase", "Title-Caps",
	"Ultra-Condensed", "extra-condensed", "Condensed", "Semi-Condensed", "Semi-Expanded", "Expanded", "Extra-Expanded", "ultraexpanded", "Not-Rotated", "South", "Upside-Down", "North", "Rotated-Left", "East", "Rotated-Right", "west",
	"-", "--", "nan", "NaN", "Inf", "auto", "12", "10px", "0", "1.5", "12.25px", ".5", "7.", "1000000", "1000001", "99999999", "weight=555", "weight=", "weight=x", "@wght=200", "@wght=200,wdth=5", "Foo,", ",", "Bold,", "12,", "A,B", "Foo,Bar,", ",Foo", "A,,B", "px", "."}

func (g *G) p11Value(f string) interface{} {
	switch f {
	case "family":
		if g.Intn(12) == 0 {
			return ""
		}
		return pick(g, p11Families...)
	case "style":
		return g.Intn(3)
	case "variant":
		return g.Intn(7)
	case "weight":
		return pickInt(g, 100, 200, 300, 350, 380, 400, 400, 500, 600, 700, 800, 900, 1000, 555, 401, 1, 950)
	case "stretch":
		return g.Intn(9)
	case "size":
		return []interface{}{pickInt(g, 0, 1, 512, 1024, 10240, 12288, 12545, 10241, 999999, 1024000000, -1, -1024, 1+g.Intn(100000)), g.Intn(2) == 0}
	case "gravity":
		return g.Intn(5)
	default:
		return pick(g, "", "wght=200", "wght=200,wdth=5.5", "opsz=3")
	}
}

func p11Emit(g *G, ops []p11Op) {
	for i := range ops {
		if ops[i].Mask == nil {
			ops[i].Mask = []string{}
		}
		if ops[i].Toks == nil {
			ops[i].Toks = []descTok{}
		}
		if ops[i].V == nil {
			ops[i].V = 0
		}
	}
	g.Emit(J{"ops": ops, "classes": p11Classes}, len(ops) > 1)
}

func init() {
	props["P11"] = &Prop{
		Gen: func(g *G) {
			for _, h := range g.Hist {
				var hs []struct {
					Op string      `json:"op"`
					F  string      `json:"f"`
					V  interface{} `json:"v"`
				}
				dec(h, &hs)
				var ops []p11Op
				for _, o := range hs {
					switch o.Op {
					case "set":
						ops = append(ops, p11Op{Op: "set", F: o.F, V: o.V})
					case "unset":
						ops = append(ops, p11Op{Op: "unset", Mask: []string{o.F}})
					case "merge":
						ops = append(ops, p11Op{Op: "merge", D: 1, E: 0})
					case "new":
						ops = append(ops, p11Op{Op: "new"})
					}
				}
				p11Emit(g, ops)
				g.Tag("from_model")
			}
			for i := 0; i < g.N(3000, 40000); i++ {
				n := 1 + g.Intn(6)
				var ws []string
				for j := 0; j < n; j++ {
					w := pick(g, p11Words...)
					if j < n-1 && w[0] == '@' { // a family with such a word has no text form
						w = "Foo"
					}
					ws = append(ws, w)
				}
				text := ""
				for j, w := range ws {
					if j > 0 || g.Intn(6) == 0 {
						text += pick(g, " ", " ", " ", "  ", "\t", "\n ")
					}
					text += w
				}
				if g.Intn(8) == 0 {
					text += " "
				}
				p11Emit(g, []p11Op{{Op: "parse", Text: text, Toks: descToks(text)}})
				g.Tag("parse")
			}
			for i := 0; i < g.N(3000, 40000); i++ {
				var ops []p11Op
				L := 2 + g.Intn(10)
				for len(ops) < L {
					o := p11Op{D: g.Intn(3)}
					switch g.Intn(12) {
					case 0:
						o.Op = "unset"
						for _, f := range descFields {
							if g.Intn(3) == 0 {
								o.Mask = append(o.Mask, f)
							}
						}
					case 1, 2:
						o.Op = "merge"
						o.E = (o.D + 1 + g.Intn(2)) % 3
					case 3:
						o.Op = "parse"
						o.Text = strings.ReplaceAll(pick(g, p11Words...)+" "+pick(g, p11Words...), "@", "") + " " + pick(g, p11Words...)
						o.Toks = descToks(o.Text)
					case 4:
						o.Op = "copy"
						o.E = (o.D + 1 + g.Intn(2)) % 3
					default:
						o.Op = "set"
						o.F = descFields[g.Intn(len(descFields))]
						o.V = g.p11Value(o.F)
					}
					ops = append(ops, o)
				}
				p11Emit(g, ops)
				g.Tag("history")
			}
		},
		Exec: func(in json.RawMessage, obs func(interface{})) {
			var c struct {
				Ops []p11Op `json:"ops"`
			}
			dec(in, &c)
			var ds [3]pango.FontDescription
			for i := range ds {
				ds[i] = pango.NewFontDescription()
			}
			for _, o := range c.Ops {
				d := &ds[o.D]
				switch o.Op {
				case "set":
					setDesc(d, o.F, o.V)
				case "unset":
					var m pango.FontMask
					for _, f := range o.Mask {
						m |= descMask[f]
					}
					d.UnsetFields(m)
				case "new":
					*d = pango.NewFontDescription()
				case "copy":
					*d = ds[o.E]
				case "parse":
					*d = pango.NewFontDescriptionFrom(o.Text)
				case "merge": // observed through the font requested for an attribute with description E in a context with D
					m := newPMap("latin")
					ctx := pango.NewContext(m)
					ctx.SetFontDescription(ds[o.D])
					a := pango.NewAttrFontDescription(ds[o.E])
					a.StartIndex, a.EndIndex = 0, 1
					ctx.Itemize([]rune("a"), 0, 1, pango.AttrList{a})
					obs(J{"fields": descFieldsOf(m.requests[0].Desc)})
					continue
				default:
					panic(o.Op)
				}
				s := d.String()
				eq, hash := []bool{}, []bool{}
				for i := range ds {
					hash = append(hash, ds[i].AsHash() == d.AsHash())
					// two attributes with the same value touching each other become one
					var l pango.AttrList
					for j, x := range []pango.FontDescription{*d, ds[i]} {
						a := pango.NewAttrFontDescription(x)
						a.StartIndex, a.EndIndex = j, j+1
						l.Change(a)
					}
					eq = append(eq, len(l) == 1)
				}
				obs(J{"fields": descFieldsOf(*d), "toks": descToks(s), "again": descFieldsOf(pango.NewFontDescriptionFrom(s)), "hash": hash, "eq": eq})
			}
		},
	}
}
