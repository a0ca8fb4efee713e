package main

import (
	"encoding/json"
	"strings"

	fc "github.com/benoitkugler/textprocessing/fontconfig"
)

type c02In struct {
	A     []string  `json:"-"`
	B     []string  `json:"-"`
	TA    [][]int   `json:"a"`
	TB    [][]int   `json:"b"`
	Perm  int       `json:"perm"`
	Fonts [][][]int `json:"fonts"` // langsets of the fonts to choose from
	Query []Val     `json:"query"` // values of the request
}

func tagCodes(ts []string) [][]int {
	out := [][]int{}
	for _, t := range ts {
		out = append(out, codes(t))
	}
	return out
}

var langPool = []string{"fr", "en", "de", "zh-cn", "zh-tw", "zh-hk", "zh-mo", "zh-sg", "ku-am", "ku-iq", "ku-ir", "ku-tr", "kum", "pa", "pa-pk",
	"mn-cn", "mn-mn", "ti-er", "ti-et", "ps-af", "ps-pk", "pt", "az-az", "az-ir", "ber-dz", "ber-ma", "nb", "no", "nn", "ja", "ko",
	// unknown to the tables
	"xq", "xq-ab", "xq-ac", "xq-ab-cd", "xqa", "fr-ca", "fr-fr", "en-us", "en-gb", "de-at", "zh", "ku", "az", "pt-br", "pt-pt", "zzz", "zh-hant", "zh-cn-x",
	"aaa", "a", "zza-b", "ja-jp", "mn", "ti", "ber"}

var langGroups = [][]string{
	{"zh", "zh-cn", "zh-tw", "zh-hk", "zh-mo", "zh-sg", "zh-hant", "zh-cn-x"},
	{"ku", "ku-am", "ku-iq", "ku-ir", "ku-tr", "kum", "kum-x"},
	{"xq", "xq-ab", "xq-ac", "xq-ab-cd", "xqa", "xq-abc"},
	{"fr", "fr-ca", "fr-fr", "fur", "f"},
	{"pa", "pa-pk", "pa-in", "pap-an", "pap-aw"},
	{"az", "az-az", "az-ir", "az-x"},
	{"ja", "ja-jp", "ja-x", "jv"},
}

func randTags(g *G, n int) []string {
	var pool []string
	switch g.Intn(3) {
	case 0:
		pool = langPool
	case 1:
		pool = langGroups[g.Intn(len(langGroups))]
	default:
		pool = append(append([]string{}, langGroups[g.Intn(len(langGroups))]...), langGroups[g.Intn(len(langGroups))]...)
	}
	out := []string{}
	for i := 0; i < n; i++ {
		if g.Intn(6) == 0 {
			t := uncodesAny(knownLangs[g.Intn(len(knownLangs))])
			if !strings.HasPrefix(t, "und") {
				out = append(out, t)
				continue
			}
		}
		out = append(out, pool[g.Intn(len(pool))])
	}
	return out
}

func uncodesAny(x interface{}) string {
	if s, ok := x.(string); ok {
		return s
	}
	return uncodes(x)
}

func permute(ts [][]int, perm int) [][]int {
	out := append([][]int{}, ts...)
	for i := len(out) - 1; i > 0; i-- {
		j := perm % (i + 1)
		perm = perm/(i+1) + 7
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func lsVal(ts [][]int) Val { return Val{"Langset", ts} }

func init() {
	props["C02"] = &Prop{
		Gen: func(g *G) {
			emit := func(a, b []string, fonts [][]string, query []Val, tag string) {
				in := c02In{TA: tagCodes(a), TB: tagCodes(b), Perm: g.Intn(1000), Query: query, Fonts: [][][]int{}}
				for _, f := range fonts {
					in.Fonts = append(in.Fonts, tagCodes(f))
				}
				g.Emit(in, len(a)+len(b) > 1)
				g.Tag(tag)
			}
			rq := func(k int) []Val {
				var q []Val
				isStr := g.Intn(3)
				for i := 0; i < k; i++ {
					if isStr == 0 || (isStr == 1 && g.Intn(2) == 0) {
						q = append(q, VS(randTags(g, 1)[0]))
					} else {
						q = append(q, VL(randTags(g, 1+g.Intn(3))...))
					}
				}
				return q
			}
			for _, h := range g.Hist { // {a, b}: sets of tags of the model
				var m struct{ A, B []string }
				dec(h, &m)
				emit(m.A, m.B, [][]string{m.A, m.B}, []Val{VL(m.B...)}, "sets from the model")
			}
			for n := g.N(9000, 90000); n > 0; n-- {
				a, b := randTags(g, g.Intn(5)), randTags(g, g.Intn(4))
				if g.Intn(3) == 0 && len(a) > 0 { // b close to a
					b = append(b[:len(b):len(b)], a[g.Intn(len(a))])
				}
				if g.Intn(4) == 0 {
					b = append([]string{}, a...)
					if len(b) > 1 && g.Intn(2) == 0 {
						b = b[1:]
					}
				}
				var fonts [][]string
				for i := 2 + g.Intn(3); i > 0; i-- {
					fonts = append(fonts, randTags(g, g.Intn(4)))
				}
				emit(a, b, fonts, rq(1+g.Intn(2)), "random")
			}
			// upper case spellings of known tags
			for n := g.N(300, 3000); n > 0; n-- {
				a := randTags(g, 2)
				up := func(t string) string {
					for _, k := range knownLangs {
						if uncodesAny(k) == t {
							return strings.ToUpper(t)
						}
					}
					return t
				}
				b := []string{up(a[0])}
				emit(a, b, [][]string{{"xq"}, a}, []Val{VS(up(a[1]))}, "upper case")
			}
		},
		Exec: func(raw json.RawMessage, obs func(interface{})) {
			var in c02In
			dec(raw, &in)
			mk := func(ts [][]int) fc.Value { return toFC(Val{"Langset", toAny(ts)}) }
			obs(J{"set": fromFC(mk(in.TA)), "set2": fromFC(mk(in.TA).(fc.Langset).Copy())})
			obs(J{"rel": relations("lang", mk(in.TA), mk(in.TB))})
			obs(J{"rel": relations("lang", mk(permute(in.TA, in.Perm)), mk(permute(in.TB, in.Perm)))})
			var fst fc.Value = fc.String("xq")
			if len(in.TB) > 0 {
				fst = fc.String(uncodes(in.TB[0]))
			}
			obs(J{"rel": relations("lang", mk(in.TA), fst)})
			obs(J{"rel": relations("lang", fst, mk(in.TA))})
			var set fc.Fontset
			for i, f := range in.Fonts {
				p := fc.NewPattern()
				p.Add(fc.INDEX, fc.Int(i), true)
				p.Add(fc.LANG, mk(permute(f, in.Perm)), true)
				set = append(set, p)
			}
			q := fc.NewPattern()
			for _, v := range in.Query {
				q.Add(fc.LANG, toFC(v), true)
			}
			bi := -1
			if len(set) > 0 {
				r, ok := set.Match(q, relConfig()).GetInt(fc.INDEX)
				if ok {
					bi = int(r)
				}
			}
			obs(J{"best": bi})
		},
	}
}

func toAny(ts [][]int) []interface{} {
	out := []interface{}{}
	for _, t := range ts {
		out = append(out, t)
	}
	return out
}
