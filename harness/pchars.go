package main

// The characters used in the layout checks, with the Unicode properties the specification needs.

// pChar is one character of a text; the names are those of the specification.
type pChar struct {
	R    int      `json:"r"`
	Sc   string   `json:"sc"`  // script
	Ty   string   `json:"ty"`  // bidi type
	Bk   int      `json:"bk"`  // bracket
	Pr   int      `json:"pr"`  // paired punctuation (script runs)
	Sp   bool     `json:"sp"`  // does not choose a font
	Fb   bool     `json:"fb"`  // alone in its item
	Up   bool     `json:"up"`  // upright in vertical text
	Em   string   `json:"em"`  // emoji category
	Lo   bool     `json:"lo"`  // lower case
	Cov  []string `json:"cov"` // families with a glyph
	freq int
}

var pChars = map[rune]*pChar{}
var pPool []rune

func pc(rs string, sc, ty string, more ...interface{}) {
	for _, r := range rs {
		ch := &pChar{R: int(r), Sc: sc, Ty: ty, Em: "-"}
		for i := 0; i+1 < len(more); i += 2 {
			switch v := more[i+1]; more[i].(string) {
			case "bk":
				ch.Bk = v.(int)
			case "pr":
				ch.Pr = v.(int)
			case "sp":
				ch.Sp = true
			case "fb":
				ch.Fb = true
			case "up":
				ch.Up = true
			case "em":
				ch.Em = v.(string)
			case "lo":
				ch.Lo = true
			}
		}
		ch.Cov = []string{}
		for _, f := range pFamNames {
			if pFamilies[f](r) {
				ch.Cov = append(ch.Cov, f)
			}
		}
		pChars[r] = ch
		pPool = append(pPool, r)
	}
}

var pFamNames = []string{"latin", "hebrew", "arabic", "cjk", "half", "third", "emoji", "greek", "rich", "smcp", "all"}

func init() {
	pc("abcdefixnoz", "latn", "L", "lo", 1)
	pc("ABX", "latn", "L")
	pc("é", "latn", "L", "lo", 1)
	pc("129", "zyyy", "EN", "em", "KEYCAP_BASE")
	pc(" ", "zyyy", "WS", "sp", 1)
	pc("\u00A0", "zyyy", "CS", "sp", 1)
	pc(".,", "zyyy", "CS")
	pc("-", "zyyy", "ES")
	pc("!", "zyyy", "ON")
	pc("$", "zyyy", "ET")
	pc("§", "zyyy", "ON", "up", 1)
	for i, p := range []string{"()", "[]", "{}"} {
		q := []rune(p)
		pc(string(q[0]), "zyyy", "ON", "bk", i+1, "pr", i+1)
		pc(string(q[1]), "zyyy", "ON", "bk", -i-1, "pr", -i-1)
	}
	pc("«", "zyyy", "ON", "pr", 4)
	pc("»", "zyyy", "ON", "pr", -4)
	pc("“", "zyyy", "ON", "pr", 5)
	pc("”", "zyyy", "ON", "pr", -5)
	pc("「", "zyyy", "ON", "bk", 6, "pr", 6)
	pc("」", "zyyy", "ON", "bk", -6, "pr", -6)
	pc("（", "zyyy", "ON", "bk", 7, "pr", 7)
	pc("）", "zyyy", "ON", "bk", -7, "pr", -7)
	pc("\t", "zyyy", "S", "sp", 1, "fb", 1)
	pc("\u2028", "zyyy", "WS", "sp", 1, "fb", 1)
	pc("\u0301", "zinh", "NSM")
	pc("\u200D", "zinh", "BN", "sp", 1, "em", "ZWJ")
	pc("\u200B", "zyyy", "BN", "sp", 1)
	pc("\u200E", "zyyy", "L", "sp", 1)
	pc("\u200F", "zyyy", "R", "sp", 1)
	pc("\u202A", "zyyy", "LRE", "sp", 1)
	pc("\u202B", "zyyy", "RLE", "sp", 1)
	pc("\u202C", "zyyy", "PDF", "sp", 1)
	pc("\u2067", "zyyy", "RLI", "sp", 1)
	pc("\u2066", "zyyy", "LRI", "sp", 1)
	pc("\u2069", "zyyy", "PDI", "sp", 1)
	pc("\u00AD", "zyyy", "BN", "sp", 1)
	pc("\u1680", "ogam", "WS")
	pc("\uFE0F", "zinh", "NSM", "sp", 1, "em", "VS16")
	pc("\uFE0E", "zinh", "NSM", "sp", 1, "em", "VS15")
	pc("αβγ", "grek", "L", "lo", 1)
	pc("Σ", "grek", "L")
	pc("אבג", "hebr", "R")
	pc("ابل", "arab", "AL")
	pc("١", "arab", "AN")
	pc("،", "zyyy", "CS")
	pc("ж", "cyrl", "L", "lo", 1)
	pc("漢字", "hani", "L", "up", 1)
	pc("あい", "hira", "L", "up", 1)
	pc("ア", "kana", "L", "up", 1)
	pc("ー", "zyyy", "L")
	pc("한", "hang", "L", "up", 1)
	pc("\uE000", "zzzz", "L", "up", 1)
	pc("😀🎉", "zyyy", "ON", "up", 1, "em", "EMOJI")
	pc("👍", "zyyy", "ON", "up", 1, "em", "MOD_BASE")
	pc("🏽", "zyyy", "ON", "up", 1, "em", "MOD")
	pc("☺❤", "zyyy", "ON", "up", 1, "em", "TEXT")
	pc("🇫🇷", "zyyy", "L", "up", 1, "em", "RI")
	pc("#", "zyyy", "ET", "em", "KEYCAP_BASE")
	pc("\u20E3", "zinh", "NSM", "up", 1, "em", "KEYCAP")
	pc("\u20E0", "zinh", "NSM", "up", 1, "em", "CIRCLE")
	pc("🏴", "zyyy", "ON", "up", 1, "em", "TAG_BASE")
	pc("\U000E0067", "zyyy", "BN", "sp", 1, "em", "TAG")
	pc("\U000E007F", "zyyy", "BN", "sp", 1, "em", "TAG_TERM")
}

func pText(rs []rune) []*pChar {
	out := []*pChar{}
	for _, r := range rs {
		out = append(out, pChars[r])
	}
	return out
}
