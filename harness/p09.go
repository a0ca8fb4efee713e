package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/benoitkugler/textprocessing/pango"
)

// text boundaries

//go:embed data/breakchars.json
var breakCharsJSON []byte

type bChar struct {
	R   int    `json:"r"`
	Gc  string `json:"gc"`
	Gcb string `json:"gcb"`
	Ep  bool   `json:"ep"`
	Wb  string `json:"wb"`
	Sb  string `json:"sb"`
	Lb  string `json:"lb"`
	Wd  bool   `json:"wd"`
	Sc  string `json:"sc"`
	Iv  string `json:"iv"`
	Em  bool   `json:"em"`
}

var bChars []bChar

func init() {
	if err := json.Unmarshal(breakCharsJSON, &bChars); err != nil {
		panic(err)
	}
	props["P09"] = &Prop{Gen: p09Gen, Exec: p09Exec}
}

type p09In struct {
	Kind   string  `json:"kind"`
	Script string  `json:"script"` // the tailoring: indic, sinh, arab or none
	T      []bChar `json:"t"`
}

// p09Layout: texts set one after the other in the same layout
type p09Layout struct {
	Kind  string    `json:"kind"` // layout
	Lang  string    `json:"lang"`
	Texts []p09Text `json:"texts"`
}
type p09Text struct {
	T      []bChar `json:"t"`
	Single bool    `json:"single"`
	Attrs  []pAttr `json:"attrs"`
}

func bits(as []pango.CharAttr, f func(pango.CharAttr) bool) []int {
	out := []int{}
	for i, a := range as {
		if f(a) {
			out = append(out, i)
		}
	}
	return out
}

func attrsObs(as []pango.CharAttr) J {
	return J{"n": len(as),
		"cursor":  bits(as, pango.CharAttr.IsCursorPosition),
		"line":    bits(as, pango.CharAttr.IsLineBreak),
		"must":    bits(as, pango.CharAttr.IsMandatoryBreak),
		"char":    bits(as, pango.CharAttr.IsCharBreak),
		"white":   bits(as, pango.CharAttr.IsWhite),
		"expand":  bits(as, pango.CharAttr.IsExpandableSpace),
		"wordb":   bits(as, pango.CharAttr.IsWordBoundary),
		"words":   bits(as, pango.CharAttr.IsWordStart),
		"worde":   bits(as, pango.CharAttr.IsWordEnd),
		"sentb":   bits(as, pango.CharAttr.IsSentenceBoundary),
		"sents":   bits(as, pango.CharAttr.IsSentenceStart),
		"sente":   bits(as, pango.CharAttr.IsSentenceEnd),
		"del":     bits(as, pango.CharAttr.IsBackspaceDeletesCharacter),
		"hyphen":  bits(as, pango.CharAttr.IsBreakInsertsHyphen),
		"removes": bits(as, pango.CharAttr.IsBreakRemovesPreceding),
	}
}

func p09Exec(raw json.RawMessage, obs func(interface{})) {
	var in p09In
	dec(raw, &in)
	if in.Kind == "layout" {
		var in p09Layout
		dec(raw, &in)
		fm := newPMap("all")
		ctx := pango.NewContext(fm)
		ctx.SetLanguage(pango.Language(in.Lang))
		ctx.SetFontDescription(pango.NewFontDescriptionFrom("all 12"))
		layout := pango.NewLayout(ctx)
		for _, tx := range in.Texts {
			rs := []rune{}
			for _, c := range tx.T {
				rs = append(rs, rune(c.R))
			}
			layout.SetRunes(rs)
			layout.SetSingleParagraphMode(tx.Single)
			layout.SetAttributes(pAttrList(tx.Attrs))
			obs(attrsObs(layout.GetCharacterAttributes()))
		}
		return
	}
	rs := make([]rune, len(in.T))
	for i, c := range in.T {
		rs[i] = rune(c.R)
	}
	obs(attrsObs(pango.ComputeCharacterAttributes(rs, -1)))
}

// tailoring is the script which tailors the breaks of t; not ok when t has several runs and
// characters that are tailored
func tailoring(t []bChar) (string, bool) {
	seen := map[string]bool{}
	special := false
	for _, c := range t {
		if c.R == 0 { // the code uses 0 for "no character"
			special = true
		}
		switch c.Sc {
		case "zyyy", "zinh":
			special = special || c.R == 0x200c || c.R == 0x200d || c.R >= 0x653 && c.R <= 0x655
		case "indic":
			b := c.R >> 7
			if c.R >= 0xa8e0 && c.R <= 0xa8ff {
				b = 0x900 >> 7
			} else if c.R >= 0x11fc0 {
				b = 0xb80 >> 7
			}
			seen[fmt.Sprint("indic", b)] = true
			special = true
		case "sinh", "arab":
			seen[c.Sc] = true
			special = special || c.Sc == "sinh" || c.R >= 0x622 && c.R <= 0x626
		default:
			seen[c.Sc] = true
		}
	}
	for k := range seen {
		if len(seen) == 1 && (k == "sinh" || k == "arab") {
			return k, true
		}
		if len(seen) == 1 && strings.HasPrefix(k, "indic") {
			for _, c := range t {
				if c.R == 0 {
					return "", false
				}
			}
			return "indic", true
		}
	}
	for k := range seen {
		if special && (k == "sinh" || k == "arab" || strings.HasPrefix(k, "indic")) {
			return "", false
		}
	}
	return "", true
}

func p09Gen(g *G) {
	// classes: the characters by value of one of the properties
	by := map[string][]bChar{}
	var keys []string
	add := func(k string, c bChar) {
		if by[k] == nil {
			keys = append(keys, k)
		}
		by[k] = append(by[k], c)
	}
	for _, c := range bChars {
		add("g"+c.Gcb, c)
		add("w"+c.Wb, c)
		add("s"+c.Sb, c)
		add("l"+c.Lb, c)
		if c.Ep {
			add("gEP", c)
		}
		if c.Lb == "OP" || c.Lb == "CP" {
			add("lP"+c.Lb, c)
		}
		if c.Sc == "indic" || c.Sc == "sinh" || c.Sc == "arab" {
			add("s"+c.Sc, c)
		}
	}
	kinds := map[byte][]string{}
	for _, k := range keys {
		kinds[k[0]] = append(kinds[k[0]], k)
	}
	one := func(k string) bChar { v := by[k]; return v[g.Intn(len(v))] }
	emit := func(kind string, t []bChar) {
		if script, ok := tailoring(t); ok {
			g.Tag("tailor:" + script)
			g.Emit(p09In{kind, script, t}, len(t) > 1)
		}
	}
	emit("empty", []bChar{})
	fams := map[string][]bChar{}
	var famKeys []string
	for _, c := range bChars {
		if s, _ := tailoring([]bChar{c}); s != "" {
			if s == "indic" {
				s = fmt.Sprint(s, c.R>>7)
			}
			if fams[s] == nil {
				famKeys = append(famKeys, s)
			}
			fams[s] = append(fams[s], c)
		}
	}
	marks := []bChar{}
	for _, c := range bChars {
		if c.R == 0x200c || c.R == 0x200d || c.R == ' ' || c.R == '-' || c.R == 0x308 || c.R >= 0x653 && c.R <= 0x655 || c.R == '\n' {
			marks = append(marks, c)
		}
	}
	for i := g.N(3000, 60000); i > 0; i-- {
		f := fams[famKeys[i%len(famKeys)]]
		t := make([]bChar, 2+g.Intn(7))
		sub := []bChar{f[g.Intn(len(f))], f[g.Intn(len(f))], f[g.Intn(len(f))], marks[g.Intn(len(marks))]}
		for j := range t {
			switch g.Intn(4) {
			case 0:
				t[j] = marks[g.Intn(len(marks))]
			case 1:
				t[j] = f[g.Intn(len(f))]
			default:
				t[j] = sub[g.Intn(4)]
			}
		}
		emit("tailor", t)
	}
	for _, c := range bChars {
		emit("one", []bChar{c})
		emit("between", []bChar{one("lAL"), c, one("lAL")})
	}
	ch := map[int]bChar{}
	for _, c := range bChars {
		ch[c.R] = c
	}
	for _, h := range g.Hist {
		var rs []int
		dec(json.RawMessage(h), &rs)
		t := []bChar{}
		for _, r := range rs {
			t = append(t, ch[r])
		}
		g.Tag("model")
		emit("model", t)
	}
	focus := map[string][]int{
		"sentences": {'a', 'a', 'A', '1', '.', '.', '!', ' ', ' ', ',', ')', '"', 0xad, '\n', '\r', 0x94d, '$', 0x30a2, 0x2014},
		"words":     {'a', '1', ',', '.', '\'', '"', 0x5d0, 0x200d, 0x94d, 0x231a, 0x1f1e6, '_', 0x30a2, 0x3042, ' ', ' ', 0xad, 0x1f3fb, ':', '\n'},
		"lines":     {'a', '1', ' ', ' ', 0x200b, '(', ')', '"', '$', '%', '-', '.', ',', '/', 0x2014, 0xa0, 0x2060, 0x5d0, 0xac00, 0x1100, 0x11a8, 0x231a, 0x1f466, 0x1f3fb, 0x1f1e6, 0x94d, 0x200d, '!', 0x2026, 0x201c, '\n', '\r'},
		"clusters":  {'a', 0x200d, 0x94d, 0x231a, 0x1f466, 0x1f3fb, 0x1f1e6, 0x1f1e6, 0xac00, 0x1100, 0x11a8, 0x600, 0x903, '\r', '\n', 0x200b},
	}
	for _, f := range []string{"sentences", "words", "lines", "clusters"} {
		for i := g.N(1500, 40000); i > 0; i-- {
			t := make([]bChar, 4+g.Intn(10))
			for j := range t {
				t[j] = ch[focus[f][g.Intn(len(focus[f]))]]
			}
			emit(f, t)
		}
	}
	lay := []int{'a', 'a', 'l', 'L', 'A', '1', '.', '.', '!', ' ', ' ', ',', '-', 0xad, 0x200b, 0x2027, '|', 0x2010, 0xb7, '\n', '\r', 0x2029, 0x5d0, 0x5be, 0x30a2, '(', 0xa0, 0x2028}
	for i := g.N(4000, 100000); i > 0; i-- {
		in := p09Layout{Kind: "layout", Lang: pick(g, "en", "ca"), Texts: []p09Text{}}
		nontrivial := false
		for n := 1 + g.Intn(3); n > 0; n-- {
			tx := p09Text{T: []bChar{}, Single: g.Intn(6) == 0, Attrs: []pAttr{}}
			l := g.Intn(14)
			for len(tx.T) < l {
				if g.Intn(12) == 0 {
					tx.T = append(tx.T, ch['l'], ch[0xb7], ch[pickInt(g, 'l', 'L', 'a')])
				}
				tx.T = append(tx.T, ch[lay[g.Intn(len(lay))]])
			}
			for _, k := range []string{"breaks", "word", "sentence", "hyphens"} {
				if g.Intn(3) != 0 {
					continue
				}
				for at := g.Intn(4); at <= len(tx.T) && len(tx.Attrs) < 6; {
					e := at + 1 + g.Intn(6)
					if g.Intn(8) == 0 && (len(tx.Attrs) == 0 || tx.Attrs[len(tx.Attrs)-1].Kind != k) {
						at, e = 0, 1<<30
					}
					tx.Attrs = append(tx.Attrs, pAttr{Kind: k, V: g.Intn(5) / 4, Start: at, End: e, D: [][]interface{}{}})
					at = e + 1 + g.Intn(3)
				}
			}
			nontrivial = nontrivial || len(tx.Attrs) > 0
			in.Texts = append(in.Texts, tx)
		}
		g.Tag("layout")
		g.Emit(in, nontrivial)
	}
	for _, fam := range []byte("gwsl") {
		ks := kinds[fam]
		for _, a := range ks {
			for _, b := range ks {
				emit("pair", []bChar{one(a), one(b)})
				emit("pairX", []bChar{one(a), one("gExtend"), one(b)})
				emit("pairS", []bChar{one(a), one("lSP"), one(b)})
			}
		}
		n := g.N(1500, 20000)
		for i := 0; i < n; i++ {
			l := 3 + g.Intn(8)
			t := make([]bChar, l)
			sub := []string{ks[g.Intn(len(ks))], ks[g.Intn(len(ks))], ks[g.Intn(len(ks))], ks[g.Intn(len(ks))]}
			for j := range t {
				if g.Intn(4) == 0 {
					t[j] = one(ks[g.Intn(len(ks))])
				} else {
					t[j] = one(sub[g.Intn(4)])
				}
			}
			emit("rand"+string(fam), t)
		}
	}
}
