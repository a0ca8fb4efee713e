package main

import (
	_ "embed"
	"encoding/json"
	"sort"
	"strconv"

	"github.com/benoitkugler/textprocessing/fribidi"
)

//go:embed data/bidichars.json
var bidiCharsJSON []byte

type bidiChar struct {
	C int    `json:"c"`
	T string `json:"t"`
	B int    `json:"b"`
	J string `json:"j"`
	M int    `json:"m"`
	F []int  `json:"f"`
}

var (
	bidiChars = map[int]bidiChar{}
	// sorted codes, all of them, by type, by joining type
	bidiAll    []int
	bidiByType = map[string][]int{}
	bidiByJoin = map[string][]int{}
)

func init() {
	var m map[string]bidiChar
	if err := json.Unmarshal(bidiCharsJSON, &m); err != nil {
		panic(err)
	}
	for k, v := range m {
		c, _ := strconv.Atoi(k)
		v.C = c
		bidiChars[c] = v
		bidiAll = append(bidiAll, c)
	}
	sort.Ints(bidiAll)
	for _, c := range bidiAll {
		v := bidiChars[c]
		bidiByType[v.T] = append(bidiByType[v.T], c)
		if v.T == "AL" || v.J == "T" || v.J == "C" || v.J == "G" || v.J == "L" {
			bidiByJoin[v.J] = append(bidiByJoin[v.J], c)
		}
	}
	bidiByJoin["U"] = append(bidiByJoin["U"], 0x200C, ' ', '1')
}

type bidiText struct {
	Chars []bidiChar `json:"chars"`
	Dir   string     `json:"dir"`
	Flags []string   `json:"flags"`
	// which lists are given when the marks are removed
	From bool `json:"from"`
	To   bool `json:"to"`
	Lv   bool `json:"lv"`
}

func (g *G) bidiText(codes []int) bidiText {
	t := bidiText{Chars: []bidiChar{}, Dir: bidiDirs[g.Intn(5)], Flags: []string{}, From: g.Intn(3) != 0, To: g.Intn(3) != 0, Lv: g.Intn(2) == 0}
	for _, c := range codes {
		ch, ok := bidiChars[c]
		if !ok {
			panic(c)
		}
		t.Chars = append(t.Chars, ch)
	}
	for _, f := range []string{"mirror", "arabic", "ligatures", "nsm"} {
		if g.Intn(5) != 0 {
			t.Flags = append(t.Flags, f)
		}
	}
	return t
}

func init() {
	props["F03"] = &Prop{
		Gen: func(g *G) {
			var texts []bidiText
			add := func(codes []int, tag string) {
				texts = append(texts, g.bidiText(codes))
				if len(texts) == 10 {
					g.Emit(J{"texts": texts}, true)
					g.Tag(tag)
					texts = nil
				}
			}
			for _, h := range g.Hist {
				var m struct {
					J  []string
					Lv []int
				}
				dec(h, &m)
				var codes []int
				for i, j := range m.J {
					l := bidiByJoin[j]
					c := l[g.Intn(len(l))]
					if m.Lv[i] == 2 {
						codes = append(codes, 0x202D, c, 0x202C)
					} else {
						codes = append(codes, c)
					}
				}
				add(codes, "from_model")
			}
			// every character alone between right to left letters
			for _, c := range bidiAll {
				if bidiChars[c].T != "B" {
					add([]int{0x5D0, 0x628, c, 0x62F, 0x5D1}, "each_character")
				}
			}
			n := g.N(7000, 90000)
			for i := 0; i < n; i++ {
				var codes []int
				size := 2 + g.Intn(12)
				mode := g.Intn(4)
				for len(codes) < size {
					switch {
					case mode == 0: // any type
						ts := []string{"L", "R", "AL", "EN", "AN", "ES", "ET", "CS", "NSM", "BN", "S", "WS", "ON", "LRE", "RLE", "LRO", "RLO", "PDF", "LRI", "RLI", "FSI", "PDI"}
						codes = append(codes, pickInt(g, bidiByType[pick(g, ts...)]...))
					case mode == 1 && g.Intn(4) != 0: // lam and alef
						codes = append(codes, pickInt(g, 0x644, 0x644, 0x627, 0x623, 0x625, 0x622, 0x628, 0x64B, 0x200D, 0x640, 0xFEDF, 0xFE8E, 0x200E))
					case mode == 3 && g.Intn(3) != 0: // brackets, canonically equivalent or not
						codes = append(codes, pickInt(g, '(', ')', '[', ']', 0x2329, 0x232A, 0x3008, 0x3009, 0x207D, 0x207E, 0xFF08, 0xFF09, 0xFE59, 'a', 0x5D0, '1'))
					case mode == 2 || g.Intn(2) == 0: // words
						js := []string{"U", "R", "D", "D", "C", "L", "T", "T", "G"}
						codes = append(codes, pickInt(g, bidiByJoin[pick(g, js...)]...))
						if g.Intn(8) == 0 {
							codes = append(codes, pickInt(g, 0x202D, 0x202C, 0x202E, 0x2067, 0x2066, 0x2069, 0x200F))
						}
					default:
						codes = append(codes, bidiAll[g.Intn(len(bidiAll))])
					}
				}
				for j := 0; j < len(codes)-1; j++ {
					if bidiChars[codes[j]].T == "B" {
						codes[j] = ' '
					}
				}
				add(codes, "random")
			}
		},
		Exec: func(in json.RawMessage, obs func(interface{})) {
			var c struct{ Texts []bidiText }
			dec(in, &c)
			for _, t := range c.Texts {
				var flags fribidi.Options
				for _, f := range t.Flags {
					flags |= map[string]fribidi.Options{"mirror": fribidi.ShapeMirroring, "arabic": fribidi.ShapeArabPres, "ligatures": fribidi.ShapeArabLiga, "nsm": fribidi.ReorderNSM}[f]
				}
				text := make([]rune, len(t.Chars))
				for i, ch := range t.Chars {
					text[i] = rune(ch.C)
				}
				dir := fribidi.ParType(bidiTypes[t.Dir])
				v, _ := fribidi.LogicalToVisual(flags, text, &dir)
				same := true
				for i, ch := range t.Chars {
					same = same && text[i] == rune(ch.C)
				}
				l2v := v.LogicalToVisual()
				obs(J{
					"str": runesCode(v.Str), "v2l": append([]int{}, v.VisualToLogical...), "l2v": append([]int{}, l2v...),
					"levels": levelsCode(v.EmbeddingLevels), "dir": bidiTypeName(dir), "same": same,
					"vrem": t.remove(v.Str, l2v, v.VisualToLogical, v.EmbeddingLevels),
					"lrem": t.remove(text, v.VisualToLogical, l2v, v.EmbeddingLevels),
				})
			}
		},
	}
}

func runesCode(s []rune) []int {
	out := []int{}
	for _, r := range s {
		out = append(out, int(r))
	}
	return out
}

func (t bidiText) remove(str []rune, to, from []int, lv []fribidi.Level) J {
	s := append([]rune{}, str...)
	var (
		to2, from2 []int
		lv2        []fribidi.Level
	)
	if t.To {
		to2 = append(to2, to...)
	}
	if t.From {
		from2 = append(from2, from...)
	}
	if t.Lv {
		lv2 = append(lv2, lv...)
	}
	r := fribidi.RemoveBidiMarks(s, to2, from2, lv2)
	n := len(r)
	cut := func(l []int) []int {
		if len(l) == 0 {
			return []int{}
		}
		return l[:n]
	}
	lvr := levelsCode(lv2)
	return J{"str": runesCode(r), "hasto": t.To, "hasfrom": t.From, "haslv": t.Lv, "to": append([]int{}, to2...), "from": cut(from2), "lv0": levelsCode(lv), "lv": cut(lvr)}
}
