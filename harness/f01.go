package main

import (
	"encoding/json"
	"strings"

	"github.com/benoitkugler/textprocessing/fribidi"
)

var bidiTypes = map[string]fribidi.CharType{
	"L": fribidi.LTR, "R": fribidi.RTL, "AL": fribidi.AL, "EN": fribidi.EN, "AN": fribidi.AN,
	"ES": fribidi.ES, "ET": fribidi.ET, "CS": fribidi.CS, "NSM": fribidi.NSM, "BN": fribidi.BN,
	"B": fribidi.BS, "S": fribidi.SS, "WS": fribidi.WS, "ON": fribidi.ON,
	"LRE": fribidi.LRE, "RLE": fribidi.RLE, "LRO": fribidi.LRO, "RLO": fribidi.RLO, "PDF": fribidi.PDF,
	"LRI": fribidi.LRI, "RLI": fribidi.RLI, "FSI": fribidi.FSI, "PDI": fribidi.PDI,
	"WL": fribidi.WLTR, "WR": fribidi.WRTL,
}

func bidiTypeName(t fribidi.CharType) string {
	for n, v := range bidiTypes {
		if v == t {
			return n
		}
	}
	return "?"
}

// pairs of bracket characters, by identifier
var bracketChars = [][2]rune{{'(', ')'}, {'[', ']'}, {'{', '}'}, {0x2329, 0x232A}, {0x2985, 0x2986}, {0x300C, 0x300D}}

type bidiPar struct {
	Types    []string `json:"types"`
	Brackets []int    `json:"brackets"`
	Dir      string   `json:"dir"`
}

// symbols: a type or a bracket
func parOf(syms []string, dir string) bidiPar {
	p := bidiPar{Types: []string{}, Brackets: []int{}, Dir: dir}
	for _, s := range syms {
		if i := strings.Index("()[]{}", s); i >= 0 && len(s) == 1 {
			p.Types = append(p.Types, "ON")
			n := i/2 + 1
			if i%2 == 1 {
				n = -n
			}
			p.Brackets = append(p.Brackets, n)
		} else {
			p.Types = append(p.Types, s)
			p.Brackets = append(p.Brackets, 0)
		}
	}
	return p
}

var bidiDirs = []string{"L", "R", "ON", "WL", "WR"}

// a random paragraph which nests isolates, embeddings and brackets
func (g *G) bidiSyms(n int, controls bool) []string {
	letters := [][]string{
		{"L", "R", "AL"},
		{"EN", "AN", "ES", "ET", "CS", "EN"},
		{"ON", "WS", "S", "NSM", "BN"},
		{"L", "R", "EN"},
	}
	ctl := []string{"LRE", "RLE", "LRO", "RLO", "PDF", "LRI", "RLI", "FSI", "PDI"}
	br := []string{"(", ")", "[", "]", "{", "}"}
	// the classes used in this paragraph
	var use []string
	for i := 0; i < 5; i++ {
		use = append(use, pick(g, letters[g.Intn(len(letters))]...))
	}
	pc, pb := g.Intn(4), g.Intn(4)
	if !controls {
		pc = 0
	}
	var out []string
	if controls && g.Intn(3) == 0 { // isolates following each other, over few symbols
		a, b := pick(g, "LRI", "RLI", "FSI"), pick(g, "LRI", "RLI", "FSI", "RLE", "LRE")
		syms := []string{a, b, "PDI", "PDI", pick(g, br...), pick(g, br...), pick(g, br[:2]...), pick(g, "L", "R", "EN", "AL"), pick(g, "L", "R", "EN", "CS"), pick(g, letters[g.Intn(4)]...)}
		if g.Intn(2) == 0 {
			syms = syms[1:]
		}
		for len(out) < n {
			out = append(out, pick(g, syms...))
		}
		return out
	}
	for len(out) < n {
		switch r := g.Intn(10); {
		case r < pc:
			out = append(out, pick(g, ctl...))
		case r < pc+pb:
			out = append(out, pick(g, br...))
		default:
			out = append(out, use[g.Intn(len(use))])
		}
	}
	return out
}

// many nested levels, then as many ends
func (g *G) bidiDeep() []string {
	var out []string
	kinds := []string{"LRE", "RLE", "LRO", "RLO", "LRI", "RLI", "FSI"}
	a, b := pick(g, kinds...), pick(g, kinds...)
	n := 58 + g.Intn(10)
	if a == b {
		n = 120 + g.Intn(10)
		if a[0] == 'R' || a[0] == 'L' {
			n = 58 + g.Intn(10) // two levels each
		}
	}
	for i := 0; i < n; i++ {
		out = append(out, a)
		if a != b {
			out = append(out, b)
		}
	}
	// around the limit
	for i := g.Intn(6); i > 0; i-- {
		out = append(out, pick(g, kinds...))
		if g.Intn(2) == 0 {
			out = append(out, pick(g, "L", "R", "EN", "AN", "ON"))
		}
	}
	for i := 3 + g.Intn(20); i > 0; i-- {
		out = append(out, pick(g, "PDF", "PDI", "PDI", "PDF", "L", "R", "EN", "ON", pick(g, kinds...)))
	}
	if g.Intn(3) == 0 {
		for i := 0; i < n; i++ {
			out = append(out, pick(g, "PDF", "PDI"))
		}
		out = append(out, "L", "R", "EN")
	}
	return out
}

func bracketTypesOf(ids []int) []fribidi.BracketType {
	out := make([]fribidi.BracketType, len(ids))
	for i, n := range ids {
		if n > 0 {
			out[i] = fribidi.GetBracket(bracketChars[n-1][0])
		} else if n < 0 {
			out[i] = fribidi.GetBracket(bracketChars[-n-1][1])
		}
	}
	return out
}

func typesOf(names []string) []fribidi.CharType {
	out := make([]fribidi.CharType, len(names))
	for i, n := range names {
		t, ok := bidiTypes[n]
		if !ok {
			panic("type " + n)
		}
		out[i] = t
	}
	return out
}

func levelsCode(l []fribidi.Level) []int {
	out := []int{}
	for _, v := range l {
		out = append(out, int(v))
	}
	return out
}

func init() {
	props["F01"] = &Prop{
		Gen: func(g *G) {
			var pars []bidiPar
			flush := func(tag string) {
				if len(pars) > 0 {
					g.Emit(J{"pars": pars}, true)
					g.Tag(tag)
					pars = nil
				}
			}
			for i, h := range g.Hist {
				var s []string
				dec(h, &s)
				pars = append(pars, parOf(s, bidiDirs[i%3]))
				if len(pars) == 20 {
					flush("from_model")
				}
			}
			flush("from_model")
			n := g.N(16000, 200000)
			for i := 0; i < n; i++ {
				s := g.bidiSyms(4+g.Intn(12), g.Intn(4) != 0)
				if g.Intn(10) == 0 {
					s = append(s, "B")
				}
				pars = append(pars, parOf(s, bidiDirs[g.Intn(5)]))
				if len(pars) == 10 {
					flush("random")
				}
			}
			flush("random")
			for i := 0; i < g.N(60, 600); i++ {
				pars = append(pars, parOf(g.bidiDeep(), bidiDirs[g.Intn(5)]))
				flush("deep")
			}
		},
		Exec: func(in json.RawMessage, obs func(interface{})) {
			var c struct{ Pars []bidiPar }
			dec(in, &c)
			for _, p := range c.Pars {
				dir := fribidi.ParType(bidiTypes[p.Dir])
				if p.Dir == "ON" {
					dir = fribidi.ON
				}
				br := bracketTypesOf(p.Brackets)
				none := true
				for _, b := range p.Brackets {
					none = none && b == 0
				}
				if none && len(p.Types)%2 == 0 {
					br = nil
				}
				lv, max := fribidi.GetParEmbeddingLevels(typesOf(p.Types), br, &dir)
				obs(J{"levels": levelsCode(lv), "max": int(max), "dir": bidiTypeName(dir)})
			}
		},
	}
}
