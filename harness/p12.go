package main

import (
	"encoding/json"

	"github.com/benoitkugler/textprocessing/pango"
)

// script runs

type p12Char struct {
	R  int    `json:"r"`
	Sc string `json:"sc"`
	Pr int    `json:"pr"`
}

// paired punctuation of script Common, opening and closing in turn
var p12Pairs = []rune{'(', ')', '<', '>', '[', ']', '{', '}', 0xab, 0xbb, 0x2018, 0x2019, 0x201c, 0x201d, 0x2039, 0x203a, 0x2045, 0x2046, 0x207d, 0x207e, 0x208d, 0x208e,
	0x27e6, 0x27e7, 0x27e8, 0x27e9, 0x27ea, 0x27eb, 0x27ec, 0x27ed, 0x27ee, 0x27ef, 0x2983, 0x2984, 0x2985, 0x2986, 0x2987, 0x2988, 0x2989, 0x298a, 0x298b, 0x298c,
	0x298d, 0x298e, 0x298f, 0x2990, 0x2991, 0x2992, 0x2993, 0x2994, 0x2995, 0x2996, 0x2997, 0x2998, 0x29fc, 0x29fd, 0x2e02, 0x2e03, 0x2e04, 0x2e05, 0x2e09, 0x2e0a,
	0x2e0c, 0x2e0d, 0x2e1c, 0x2e1d, 0x2e20, 0x2e21, 0x2e22, 0x2e23, 0x2e24, 0x2e25, 0x2e26, 0x2e27, 0x2e28, 0x2e29, 0x3008, 0x3009, 0x300a, 0x300b, 0x300c, 0x300d,
	0x300e, 0x300f, 0x3010, 0x3011, 0x3014, 0x3015, 0x3016, 0x3017, 0x3018, 0x3019, 0x301a, 0x301b, 0xfe59, 0xfe5a, 0xfe5b, 0xfe5c, 0xfe5d, 0xfe5e,
	0xff08, 0xff09, 0xff3b, 0xff3d, 0xff5b, 0xff5d, 0xff5f, 0xff60, 0xff62, 0xff63}

var p12Scripts = []struct {
	r  rune
	sc string
}{{'a', "latn"}, {'Z', "latn"}, {'é', "latn"}, {'α', "grek"}, {'ж', "cyrl"}, {'א', "hebr"}, {'ب', "arab"}, {'漢', "hani"}, {'あ', "hira"}, {'ア', "kana"}, {'한', "hang"},
	{'Ա', "armn"}, {'ა', "geor"}, {'ก', "thai"}, {'अ', "deva"}, {'অ', "beng"}, {'அ', "taml"}, {'ཀ', "tibt"}, {'ᠠ', "mong"}, {'አ', "ethi"}, {'Ꭰ', "cher"}, {'ក', "khmr"}, {0x10300, "ital"}, {0x1D7C, "latn"}, {0x1F00, "grek"},
	{0x20000, "hani"}, {0x3007, "hani"}, {0xFB1D, "hebr"}, {0xFE70, "arab"}, {0xFF21, "latn"}, {0xFF71, "kana"}, {0x1680, "ogam"}, {0x10A0, "geor"}, {0x2C00, "glag"}}

var p12Weak = []struct {
	r  rune
	sc string
}{{' ', "zyyy"}, {'1', "zyyy"}, {'-', "zyyy"}, {'!', "zyyy"}, {'،', "zyyy"}, {'。', "zyyy"}, {'€', "zyyy"}, {0x1F600, "zyyy"}, {0x0301, "zinh"}, {0x3099, "zinh"}, {0x200D, "zinh"}, {0xE000, "zzzz"}, {0x1D400, "zyyy"}}

func p12Table(r rune) p12Char {
	for i, p := range p12Pairs {
		if p == r {
			n := i/2 + 1
			if i%2 == 1 {
				n = -n
			}
			return p12Char{int(r), "zyyy", n}
		}
	}
	for _, s := range p12Scripts {
		if s.r == r {
			return p12Char{int(r), s.sc, 0}
		}
	}
	for _, s := range p12Weak {
		if s.r == r {
			return p12Char{int(r), s.sc, 0}
		}
	}
	panic("rune")
}

type p12In struct {
	Chars []p12Char `json:"chars"`
	Start int       `json:"start"`
	Len   int       `json:"len"`
}

func init() {
	props["P12"] = &Prop{
		Gen: func(g *G) {
			emit := func(rs []rune, start, n int) {
				in := p12In{Start: start, Len: n, Chars: []p12Char{}}
				for _, r := range rs {
					in.Chars = append(in.Chars, p12Table(r))
				}
				g.Emit(in, n > 1)
			}
			for _, h := range g.Hist {
				var names []string
				dec(h, &names)
				rs := []rune{}
				for _, x := range names {
					rs = append(rs, map[string]rune{"a": 'a', "alef": 'א', "com": '-', "inh": 0x0301, "op": '(', "cl": ')', "op2": '[', "cl2": ']'}[x])
				}
				emit(rs, 0, len(rs))
			}
			// each pair, open and close, around each script
			for i := 0; i+1 < len(p12Pairs); i += 2 {
				emit([]rune{'a', p12Pairs[i], 'א', p12Pairs[i+1], '-', 'ж'}, 0, 6)
			}
			n := g.N(1500, 30000)
			for i := 0; i < n; i++ {
				np := 1 + g.Intn(4)
				var pairs []rune
				for j := 0; j < np; j++ {
					q := g.Intn(len(p12Pairs) / 2)
					pairs = append(pairs, p12Pairs[2*q], p12Pairs[2*q+1])
				}
				var scs []rune
				for j := 1 + g.Intn(4); j > 0; j-- {
					scs = append(scs, p12Scripts[g.Intn(len(p12Scripts))].r)
				}
				l := 1 + g.Intn(14)
				if g.Intn(10) == 0 {
					l += g.Intn(120)
				}
				var rs []rune
				for len(rs) < l {
					switch g.Intn(5) {
					case 0, 1:
						rs = append(rs, pairs[g.Intn(len(pairs))])
					case 2, 3:
						rs = append(rs, scs[g.Intn(len(scs))])
					default:
						rs = append(rs, p12Weak[g.Intn(len(p12Weak))].r)
					}
				}
				start, n := 0, l
				if g.Intn(3) == 0 {
					start = g.Intn(l)
					n = 1 + g.Intn(l-start)
				}
				emit(rs, start, n)
			}
		},
		Exec: func(in json.RawMessage, obs func(interface{})) {
			var x p12In
			dec(in, &x)
			ctx := pango.NewContext(newPMap("all"))
			rs := []rune{}
			for _, ch := range x.Chars {
				rs = append(rs, rune(ch.R))
			}
			out := []string{}
			for l := ctx.Itemize(rs, x.Start, x.Len, nil); l != nil; l = l.Next {
				for i := 0; i < l.Data.Length; i++ {
					out = append(out, scriptTag(l.Data.Analysis.Script))
				}
			}
			obs(J{"scripts": out})
		},
	}
}
