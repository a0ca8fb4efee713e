package main

import (
	"encoding/json"
	"os"
	"strings"

	"github.com/benoitkugler/textprocessing/pango"
)

// itemization

type pAttr struct {
	Kind  string          `json:"kind"`
	V     int             `json:"v"`
	S     string          `json:"s"`
	D     [][]interface{} `json:"d"`
	Start int             `json:"start"`
	End   int             `json:"end"`
}

// pWhole ends the attributes which apply to the whole text
const pWhole = 1<<31 - 1

func (a pAttr) attr() *pango.Attribute {
	var out *pango.Attribute
	switch a.Kind {
	case "family":
		out = pango.NewAttrFamily(a.S)
	case "size":
		out = pango.NewAttrSize(a.V)
	case "abssize":
		out = pango.NewAttrAbsoluteSize(a.V)
	case "weight":
		out = pango.NewAttrWeight(pango.Weight(a.V))
	case "style":
		out = pango.NewAttrStyle(pango.Style(a.V))
	case "variant":
		out = pango.NewAttrVariant(pango.Variant(a.V))
	case "stretch":
		out = pango.NewAttrStretch(pango.Stretch(a.V))
	case "scale": // percents
		out = pango.NewAttrScale(float32(a.V) / 100)
	case "lang":
		out = pango.NewAttrLanguage(pango.Language(a.S))
	case "desc":
		d := pango.NewFontDescription()
		for _, fv := range a.D {
			setDesc(&d, fv[0].(string), fv[1])
		}
		out = pango.NewAttrFontDescription(d)
	case "fallback":
		out = pango.NewAttrFallback(a.V != 0)
	case "gravity":
		out = pango.NewAttrGravity(pango.Gravity(a.V))
	case "hint":
		out = pango.NewAttrGravityHint(pango.GravityHint(a.V))
	case "fontscale":
		out = pango.NewAttrFontScale(pango.FontScale(a.V))
	case "transform":
		out = pango.NewAttrTextTransform(pango.TextTransform(a.V))
	case "features":
		out = pango.NewAttrFontFeatures([]string{"smcp=0", "kern=0", "liga=0", "zero=0"}[a.V])
	case "rise_shift":
		out = pango.NewAttrBaselineShift(a.V)
	case "rise":
		out = pango.NewAttrRise(a.V)
	case "letter":
		out = pango.NewAttrLetterSpacing(int32(a.V))
	case "underline":
		out = pango.NewAttrUnderline(pango.Underline(a.V))
	case "overline":
		out = pango.NewAttrOverline(pango.Overline(a.V))
	case "strike":
		out = pango.NewAttrStrikethrough(a.V != 0)
	case "color":
		out = pango.NewAttrForeground(pango.AttrColor{Red: uint16(a.V)})
	case "back":
		out = pango.NewAttrBackground(pango.AttrColor{Red: uint16(a.V)})
	case "shape":
		out = pango.NewAttrShape(pango.Rectangle{Width: pango.Unit(a.V)}, pango.Rectangle{Y: -pango.Unit(a.V), Width: pango.Unit(a.V) * 10, Height: 2 * pango.Unit(a.V)})
	case "word":
		out = pango.NewAttrWord()
	case "sentence":
		out = pango.NewAttrSentence()
	case "hyphens":
		out = pango.NewAttrInsertHyphens(a.V != 0)
	case "breaks":
		out = pango.NewAttrAllowBreaks(a.V != 0)
	case "show":
		out = pango.NewAttrShow(pango.ShowFlags(a.V))
	case "lineheight": // percents
		out = pango.NewAttrLineHeight(float32(a.V) / 100)
	case "abslineheight":
		out = pango.NewAttrAbsoluteLineHeight(a.V)
	default:
		panic("attribute " + a.Kind)
	}
	if a.Start != 0 || a.End != pWhole { // otherwise, as it was made
		out.StartIndex, out.EndIndex = a.Start, a.End
	}
	return out
}

var pAttrNames = map[pango.AttrKind]string{}

func init() {
	for _, kd := range []string{"family", "size", "abssize", "weight", "style", "variant", "stretch", "scale", "lang", "desc", "fallback", "gravity", "hint", "fontscale",
		"transform", "features", "rise_shift", "rise", "letter", "underline", "overline", "strike", "color", "back", "shape", "word", "sentence", "hyphens", "breaks", "show", "lineheight", "abslineheight"} {
		pAttrNames[pAttr{Kind: kd}.attr().Kind] = kd
	}
}

// attrValue is the integer value of an attribute which has one
func attrValue(a *pango.Attribute) int {
	for _, v := range []int{0, 1, 2, 3, 10, 100} {
		if b := (pAttr{Kind: pAttrNames[a.Kind], V: v}).attr(); b.Data == a.Data {
			return v
		}
	}
	switch d := a.Data.(type) {
	case pango.AttrInt:
		return int(d)
	case pango.AttrColor:
		return int(d.Red)
	case pango.AttrFloat:
		return int(float32(d)*100 + .5)
	}
	return -1
}

func pAttrList(attrs []pAttr) pango.AttrList {
	var out pango.AttrList
	for _, a := range attrs {
		out.Insert(a.attr())
	}
	return out
}

func scriptTag(s pango.Script) string {
	return string([]byte{byte(s >> 24), byte(s >> 16), byte(s >> 8), byte(s)})
}

type p02Call struct {
	Start   int             `json:"start"`
	Len     int             `json:"len"`
	Lang    string          `json:"lang"`
	Gravity int             `json:"gravity"`
	Desc    [][]interface{} `json:"desc"`
	Attrs   []pAttr         `json:"attrs"`
	Metrics string          `json:"metrics"` // metrics asked before: "", nil, desc
}

type p02In struct {
	Text     []int               `json:"text"`
	Chars    []*pChar            `json:"chars"`
	Fams     map[string][]string `json:"fams"`
	Defaults []string            `json:"defaults"`
	Fallback []string            `json:"fallback"`
	Calls    []p02Call           `json:"calls"`
}

// the families tried for the name of a request
func famList(s string, fallback []string) []string {
	out := []string{}
	seen := map[string]bool{}
	for _, f := range append(strings.Split(s, ","), fallback...) {
		if pFamilies[f] != nil && !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	return out
}

func runesOf(l []int) []rune {
	out := []rune{}
	for _, r := range l {
		out = append(out, rune(r))
	}
	return out
}

func itemCode(it *pango.Item) J {
	f := J{"fam": "", "size": 0, "abs": false, "weight": 400, "style": 0, "variant": 0, "stretch": 4, "flang": ""}
	if pf, ok := it.Analysis.Font.(*pFont); ok && pf != nil {
		d := pf.desc
		f = J{"fam": pf.fam, "size": int(d.Size), "abs": d.SizeIsAbsolute, "weight": int(d.Weight), "style": int(d.Style), "variant": int(d.Variant), "stretch": int(d.Stretch), "flang": string(pf.lang)}
	}
	extra := [][]interface{}{}
	for _, a := range it.Analysis.ExtraAttrs {
		extra = append(extra, []interface{}{pAttrNames[a.Kind], attrValue(a), a.StartIndex, a.EndIndex})
	}
	return J{"off": it.Offset, "len": it.Length, "lv": int(it.Analysis.Level), "g": int(it.Analysis.Gravity), "ctr": it.Analysis.Flags&pango.AFCenterdBaseline != 0,
		"sc": scriptTag(it.Analysis.Script), "lang": string(it.Analysis.Language), "font": f, "extra": extra}
}

// pangoEnv is the environment of the properties of package pango
func pangoEnv() {
	os.Setenv("PANGO_LANGUAGE", strings.Join(p02Defaults, ":"))
	os.Setenv("LANG", "el_GR.UTF-8")
	os.Unsetenv("LC_ALL")
	os.Unsetenv("LC_CTYPE")
}

var p02Defaults = []string{"uk", "yi", "ur"}

func init() {
	props["P02"] = &Prop{
		Gen: func(g *G) {
			for _, h := range g.Hist {
				var hh struct {
					Txt   []string `json:"txt"`
					Attrs []pAttr  `json:"attrs"`
					Grav  int      `json:"gravity"`
				}
				dec(h, &hh)
				rs := []rune{}
				for _, x := range hh.Txt {
					rs = append(rs, map[string]rune{"a": 'a', "B": 'B', "alef": 'א', "sp": ' ', "op": '(', "cl": ')', "han": '漢', "tab": '\t', "one": '1', "no": '\uE000', "emo": '😀', "third": '9'}[x])
				}
				for i := range hh.Attrs {
					hh.Attrs[i].D = [][]interface{}{}
				}
				p02Emit(g, rs, []string{"cjk"}, []p02Call{{Len: len(rs), Lang: "en", Gravity: hh.Grav, Attrs: hh.Attrs,
					Desc: [][]interface{}{{"family", "third,latin,hebrew"}, {"size", []interface{}{10240, false}}}}})
			}
			n := g.N(700, 9000)
			for i := 0; i < n; i++ {
				g.p02Random(i)
			}
		},
		Exec: func(in json.RawMessage, obs func(interface{})) {
			var x p02In
			dec(in, &x)
			fm := newPMap(x.Fallback...)
			fm.byLang = true
			ctx := pango.NewContext(fm)
			text := runesOf(x.Text)
			for _, cl := range x.Calls {
				ctx.SetLanguage(pango.Language(cl.Lang))
				ctx.SetBaseGravity(pango.Gravity(cl.Gravity))
				d := pango.NewFontDescription()
				for _, fv := range cl.Desc {
					setDesc(&d, fv[0].(string), fv[1])
				}
				ctx.SetFontDescription(d)
				same := true
				switch cl.Metrics {
				case "nil":
					ctx.GetMetrics(nil, "")
				case "desc":
					e := pango.NewFontDescriptionFrom("latin 12")
					e.UnsetFields(pango.FmStretch)
					before := e
					ctx.GetMetrics(&e, "he")
					same = before == e
				}
				items := []J{}
				for l := ctx.Itemize(text, cl.Start, cl.Len, pAttrList(cl.Attrs)); l != nil; l = l.Next {
					items = append(items, itemCode(l.Data))
				}
				obs(J{"items": items, "same": same})
			}
		},
	}
}

func p02Emit(g *G, rs []rune, fallback []string, calls []p02Call) {
	in := p02In{Chars: pText(rs), Fams: map[string][]string{}, Defaults: p02Defaults, Fallback: fallback, Calls: calls, Text: []int{}}
	for _, r := range rs {
		in.Text = append(in.Text, int(r))
	}
	add := func(s string) { in.Fams[s] = famList(s, fallback) }
	add("emoji")
	descs := func(d [][]interface{}) {
		for _, fv := range d {
			if fv[0] == "family" {
				add(fv[1].(string))
			}
		}
	}
	nontrivial := false
	for i := range calls {
		descs(calls[i].Desc)
		if calls[i].Attrs == nil {
			calls[i].Attrs = []pAttr{}
		}
		// the order of the list: starts, then insertion
		sorted := []pAttr{}
		for p := 0; p <= 400; p++ {
			for _, a := range calls[i].Attrs {
				if a.Start == p {
					sorted = append(sorted, a)
				}
			}
		}
		calls[i].Attrs = sorted
		for _, a := range calls[i].Attrs {
			if a.Kind == "family" {
				add(a.S)
			}
			descs(a.D)
		}
		nontrivial = nontrivial || calls[i].Len > 1
	}
	g.Emit(in, nontrivial)
}

var p02FamPool = []string{"latin", "latin,hebrew,arabic", "half,latin", "third,half,latin", "rich", "rich,greek,cjk", "smcp", "smcp,hebrew", "emoji,latin", "nofont", "greek,nofont,hebrew", "all", "third"}

func (g *G) p02Attr(n int, vertical bool) pAttr {
	a := pAttr{D: [][]interface{}{}}
	a.Start = g.Intn(n)
	a.End = a.Start + 1 + g.Intn(n)
	if g.Intn(6) == 0 {
		a.End = n
		if a.End <= a.Start {
			a.End = a.Start + 1
		}
	}
	if g.Intn(10) == 0 {
		a.Start, a.End = 0, pWhole
	}
	a.Kind = pick(g, "family", "family", "size", "abssize", "weight", "style", "variant", "stretch", "scale", "lang", "lang", "desc", "desc", "fallback",
		"gravity", "hint", "fontscale", "fontscale", "transform", "features", "features", "rise_shift", "rise", "letter", "underline", "strike", "color", "color", "back", "shape")
	switch a.Kind {
	case "family":
		a.S = pick(g, p02FamPool...)
	case "size", "abssize":
		a.V = pickInt(g, 10, 12, 20) * 1024
	case "weight":
		a.V = pickInt(g, 400, 700)
	case "style":
		a.V = g.Intn(3)
	case "variant":
		a.V = pickInt(g, 0, 1, 1, 2, 3, 5, 6)
	case "stretch":
		a.V = g.Intn(9)
	case "scale":
		a.V = pickInt(g, 50, 150, 200)
	case "lang":
		a.S = pick(g, "en", "ja", "he", "xy", "ru", "zh-cn", "el")
	case "desc":
		for _, f := range []string{"family", "weight", "style", "size", "variant", "stretch"} {
			if g.Intn(2) == 0 {
				var v interface{}
				switch f {
				case "family":
					v = pick(g, p02FamPool...)
				case "size":
					v = []interface{}{pickInt(g, 8, 16) * 1024, g.Intn(2) == 0}
				case "weight":
					v = pickInt(g, 300, 700, 400)
				default:
					v = g.Intn(3)
				}
				a.D = append(a.D, []interface{}{f, v})
			}
		}
	case "fallback", "strike":
		a.V = g.Intn(2)
	case "gravity":
		a.V = g.Intn(5)
		if !vertical {
			a.V = pickInt(g, 0, 2, 4)
		}
	case "hint":
		a.V = g.Intn(3)
	default:
		a.V = g.Intn(4)
	}
	return a
}

// a text of n characters, of a few pools
func (g *G) pRandText(n int, ok func(c *pChar) bool) []rune {
	var pool []rune
	k := 2 + g.Intn(5)
	for len(pool) < k {
		r := pPool[g.Intn(len(pPool))]
		if ok(pChars[r]) {
			pool = append(pool, r)
		}
	}
	pool = append(pool, 'a', 'א', ' ')
	rs := []rune{}
	for len(rs) < n {
		switch g.Intn(8) {
		case 0, 1:
			r := pPool[g.Intn(len(pPool))]
			if ok(pChars[r]) {
				rs = append(rs, r)
			}
		case 2:
			if len(rs) > 0 {
				rs = append(rs, rs[len(rs)-1])
			}
		default:
			rs = append(rs, pool[g.Intn(len(pool))])
		}
	}
	return rs
}

func (g *G) p02Random(i int) {
	vertical := i%4 == 1
	n := 1 + g.Intn(12)
	if g.Intn(6) == 0 {
		n = 12 + g.Intn(30)
	}
	rs := g.pRandText(n, func(c *pChar) bool {
		return !vertical || c.Em == "-" || c.Em == "ZWJ" || c.Em == "KEYCAP_BASE"
	})
	emoPool := []rune("😀👍🏽☺❤🇫🇷#1\u20E3\u20E0🏴\U000E0067\U000E007F\u200D\uFE0E\uFE0F\uFE0F\u200D\u200D👍a ")
	if i%4 == 2 { // emoji sequences
		for j := range rs {
			if g.Intn(3) != 0 {
				rs[j] = emoPool[g.Intn(len(emoPool))]
			}
		}
	}
	if vertical {
		g.Tag("vertical")
	}
	var fallback []string
	for _, f := range pFamNames {
		if g.Intn(5) == 0 {
			fallback = append(fallback, f)
		}
	}
	if fallback == nil {
		fallback = []string{}
	}
	var calls []p02Call
	for k := 1 + g.Intn(3); k > 0; k-- {
		cl := p02Call{Lang: pick(g, "en", "en", "ja", "he", "xy", "", "ko"), Attrs: []pAttr{}}
		cl.Desc = [][]interface{}{{"family", pick(g, p02FamPool...)}, {"size", []interface{}{pickInt(g, 10, 20) * 1024, g.Intn(3) == 0}}}
		if g.Intn(3) == 0 {
			cl.Desc = append(cl.Desc, []interface{}{"variant", pickInt(g, 0, 1, 2, 3, 4, 5, 6)})
		}
		if g.Intn(3) == 0 {
			cl.Desc = append(cl.Desc, []interface{}{"weight", 700})
		}
		if vertical {
			cl.Gravity = pickInt(g, 1, 3, 1, 3, 0, 2)
			if g.Intn(6) == 0 {
				cl.Desc = append(cl.Desc, []interface{}{"gravity", g.Intn(4)})
			}
		}
		cl.Len = n
		if g.Intn(3) == 0 {
			cl.Start = g.Intn(n)
			cl.Len = 1 + g.Intn(n-cl.Start)
		}
		cl.Metrics = pick(g, "", "", "", "nil", "desc")
		for q := g.Intn(5); q > 0; q-- {
			cl.Attrs = append(cl.Attrs, g.p02Attr(n, cl.Gravity%2 == 1))
		}
		calls = append(calls, cl)
	}
	p02Emit(g, rs, fallback, calls)
}
