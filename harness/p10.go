package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strings"

	"github.com/benoitkugler/textprocessing/pango"
)

// markup

func init() { props["P10"] = &Prop{Gen: p10Gen, Exec: p10Exec} }

type p10Token struct {
	T   string      `json:"t"` // open, close, text, cut, bad
	Tag string      `json:"tag"`
	At  [][2]string `json:"at"`
	Cs  [][2]int    `json:"cs"` // characters, 1: as an entity
	S   string      `json:"s"`
}

type p10In struct {
	Tks []p10Token `json:"tks"`
	M   int        `json:"m"`
}

func p10Render(tks []p10Token) string {
	var b strings.Builder
	for i, tk := range tks {
		switch tk.T {
		case "open":
			b.WriteString("<" + tk.Tag)
			for _, a := range tk.At {
				q := `"`
				if (i+len(a[0]))%3 == 0 {
					q = "'"
				}
				v := strings.NewReplacer("&", "&amp;", "<", "&lt;", "'", "&apos;", `"`, "&quot;").Replace(a[1])
				b.WriteString(" " + a[0] + "=" + q + v + q)
			}
			// an element without content
			if i+1 < len(tks) && tks[i+1].T == "close" && tks[i+1].Tag == tk.Tag && i%2 == 0 {
				b.WriteString("/>")
				continue
			}
			b.WriteString(">")
		case "close":
			if i > 0 && i%2 == 1 && tks[i-1].T == "open" && tks[i-1].Tag == tk.Tag {
				continue
			}
			b.WriteString("</" + tk.Tag + ">")
		case "text":
			for j, x := range tk.Cs {
				switch {
				case x[1] == 0 && x[0] != '<' && x[0] != '&' && x[0] != '>':
					b.WriteRune(rune(x[0]))
				case x[0] == '<':
					b.WriteString("&lt;")
				case x[0] == '&':
					b.WriteString("&amp;")
				case x[0] == '>':
					b.WriteString("&gt;")
				case x[0] == '"':
					b.WriteString("&quot;")
				case j%2 == 0:
					fmt.Fprintf(&b, "&#%d;", x[0])
				default:
					fmt.Fprintf(&b, "&#x%x;", x[0])
				}
			}
		case "cut":
			b.WriteString("<!-- " + tk.S + " -->")
		case "bad":
			b.WriteString(tk.S)
		}
	}
	return b.String()
}

var p10Kinds = map[pango.AttrKind]string{
	pango.ATTR_LANGUAGE: "lang", pango.ATTR_FAMILY: "family", pango.ATTR_STYLE: "style", pango.ATTR_WEIGHT: "weight", pango.ATTR_VARIANT: "variant",
	pango.ATTR_STRETCH: "stretch", pango.ATTR_SIZE: "size", pango.ATTR_FONT_DESC: "desc", pango.ATTR_FOREGROUND: "foreground", pango.ATTR_BACKGROUND: "background",
	pango.ATTR_UNDERLINE: "underline", pango.ATTR_STRIKETHROUGH: "strikethrough", pango.ATTR_RISE: "rise", pango.ATTR_SHAPE: "shape", pango.ATTR_SCALE: "scale",
	pango.ATTR_FALLBACK: "fallback", pango.ATTR_LETTER_SPACING: "letterspacing", pango.ATTR_UNDERLINE_COLOR: "underlinecolor",
	pango.ATTR_STRIKETHROUGH_COLOR: "strikethroughcolor", pango.ATTR_ABSOLUTE_SIZE: "abssize", pango.ATTR_GRAVITY: "gravity", pango.ATTR_GRAVITY_HINT: "gravityhint",
	pango.ATTR_FONT_FEATURES: "features", pango.ATTR_FOREGROUND_ALPHA: "foregroundalpha", pango.ATTR_BACKGROUND_ALPHA: "backgroundalpha",
	pango.ATTR_ALLOW_BREAKS: "allowbreaks", pango.ATTR_SHOW: "show", pango.ATTR_INSERT_HYPHENS: "inserthyphens", pango.ATTR_OVERLINE: "overline",
	pango.ATTR_OVERLINE_COLOR: "overlinecolor", pango.ATTR_LINE_HEIGHT: "lineheight", pango.ATTR_ABSOLUTE_LINE_HEIGHT: "abslineheight",
	pango.ATTR_TEXT_TRANSFORM: "transform", pango.ATTR_WORD: "word", pango.ATTR_SENTENCE: "sentence", pango.ATTR_BASELINE_SHIFT: "baselineshift",
	pango.ATTR_FONT_SCALE: "fontscale",
}

func p10Value(d pango.AttrData) string {
	switch d := d.(type) {
	case pango.AttrInt:
		return fmt.Sprint(int(d))
	case pango.AttrFloat:
		return fmt.Sprint("f", int(math.Round(float64(d)*10000)))
	case pango.AttrString:
		return string(d)
	case pango.AttrColor:
		return fmt.Sprintf("%d,%d,%d", d.Red, d.Green, d.Blue)
	case pango.FontDescription:
		return d.String()
	}
	return fmt.Sprintf("%T", d)
}

func p10Attrs(as pango.AttrList) [][4]interface{} {
	out := [][4]interface{}{}
	for _, a := range as {
		out = append(out, [4]interface{}{p10Kinds[a.Kind], p10Value(a.Data), a.StartIndex, a.EndIndex})
	}
	return out
}

func p10Runes(text []rune) []int {
	out := []int{}
	for _, r := range text {
		out = append(out, int(r))
	}
	return out
}

func p10Exec(raw json.RawMessage, obs func(interface{})) {
	var in p10In
	dec(raw, &in)
	src := p10Render(in.Tks)
	pm, err := pango.ParseMarkup([]byte(src), rune(in.M))
	o := J{"err": err != nil, "text": p10Runes(pm.Text), "accel": int(pm.AccelChar), "attrs": p10Attrs(pm.Attr)}
	// the layout
	cfg := newCfg([]rune("abc"))
	cfg.Attrs = []pAttr{{Kind: "weight", V: 1, Start: 0, End: 2}}
	cfg.CDesc = [][]interface{}{{"family", "latin"}, {"size", []interface{}{1024., false}}}
	l := cfg.env().layout(cfg)
	before := p10Attrs(l.Attributes)
	lerr := l.SetMarkup([]byte(src))
	o["lerr"], o["ltext"], o["lattrs"], o["lbefore"] = lerr != nil, p10Runes(l.Text), p10Attrs(l.Attributes), before
	obs(o)
}

// values by attribute, those which are not in Markup.tla are errors
var p10Values = map[string][]string{
	"style":               {"normal", "oblique", "italic", "Italic", "slanted", "oblique italic"},
	"weight":              {"ultralight", "light", "normal", "bold", "ultrabold", "heavy", "Bold", "650", "book", "fat", "-5", "70000"},
	"variant":             {"normal", "small-caps", "smallcaps", "unicase", "caps"},
	"stretch":             {"ultracondensed", "condensed", "normal", "semi-expanded", "ultraexpanded", "wide"},
	"underline":           {"none", "single", "double", "low", "error", "single-line", "double-line", "error-line", "true", "triple"},
	"overline":            {"none", "single", "double"},
	"gravity":             {"south", "east", "north", "west", "auto", "up"},
	"gravity_hint":        {"natural", "strong", "line", "weak"},
	"show":                {"none", "spaces", "line-breaks", "ignorables", "spaces|line-breaks", "spaces | ignorables", "spaces|line-breaks|ignorables", "tabs", "spaces,ignorables"},
	"text_transform":      {"none", "lowercase", "uppercase", "capitalize", "reverse"},
	"baseline_shift":      {"none", "superscript", "subscript", "2000", "-1500", "5.5pt", "up", "1000"},
	"font_scale":          {"none", "superscript", "subscript", "big"},
	"rise":                {"0", "-2000", "3000", "5.5pt", "-2pt", "10pt", "up", "5px"},
	"letter_spacing":      {"0", "300", "-20", "1.5", "wide"},
	"line_height":         {"1.5", "2", "1024", "3000", "2000.5", "tall"},
	"lang":                {"fr", "de-DE", "zh_CN"},
	"font_features":       {"dlig=1, -kern"},
	"family":              {"Sans", "a,b"},
	"segment":             {"word", "sentence", "line"},
	"strikethrough":       {"true", "yes", "t", "y", "false", "no", "f", "n", "1", "True"},
	"fallback":            {"true", "no", "2"},
	"allow_breaks":        {"t", "false", "maybe"},
	"insert_hyphens":      {"yes", "n", "soft"},
	"foreground":          {"red", "Blue", "#0f0", "#123", "#ff8000", "#00FF7F", "#123456789", "#000100020003", "#1238", "#ff800040", "#0001000200030004", "reddish", "#12345", "#ggg", "#+1-2+3", "#", "123"},
	"background":          {"red", "#0f0", "#ff8000", "#1238", "#ff800040", "#0001000200030004", "none", "#1"},
	"underline_color":     {"red", "#123", "#000100020003", "#1238", "#-1-2-3"},
	"overline_color":      {"Blue", "#00FF7F", "#0001000200030004"},
	"strikethrough_color": {"#0f0", "#123456789", "no color"},
	"alpha":               {"1", "50%", "100%", "1234", "65535", "1%", "0", "-5", "70000", "101%", "0%", "half", "1.5"},
	"background_alpha":    {"1", "50%", "100%", "65535", "0", "131073", "-1%"},
	"size":                {"10241", "11pt", "20.5pt", "xx-small", "x-small", "small", "medium", "large", "x-large", "xx-large", "50%", "120.5%", "smaller", "larger", "smaller", "larger", "huge", "12px", "ten%"},
	"font":                {"Sans 11", "Serif", "Sans Bold 20.5", "Sans Bold"},
}

var p10Names = [][2]string{{"face", "family"}, {"font_family", "family"}, {"font_size", "size"}, {"size", "size"}, {"font_style", "style"}, {"style", "style"},
	{"font_weight", "weight"}, {"weight", "weight"}, {"font_variant", "variant"}, {"variant", "variant"}, {"font_stretch", "stretch"}, {"stretch", "stretch"},
	{"font", "font"}, {"font_desc", "font"}, {"font-desc", "font"}, {"foreground", "foreground"}, {"fgcolor", "foreground"}, {"color", "foreground"},
	{"background", "background"}, {"bgcolor", "background"}, {"alpha", "alpha"}, {"fgalpha", "alpha"}, {"background_alpha", "background_alpha"},
	{"background-alpha", "background_alpha"}, {"bgalpha", "background_alpha"}, {"letter-spacing", "letter_spacing"}, {"underline-color", "underline_color"},
	{"font-size", "size"}, {"allow-breaks", "allow_breaks"}, {"underline", "underline"}, {"underline_color", "underline_color"}, {"overline", "overline"},
	{"overline_color", "overline_color"}, {"strikethrough", "strikethrough"}, {"strikethrough_color", "strikethrough_color"}, {"rise", "rise"},
	{"baseline_shift", "baseline_shift"}, {"letter_spacing", "letter_spacing"}, {"lang", "lang"}, {"fallback", "fallback"}, {"gravity", "gravity"},
	{"gravity_hint", "gravity_hint"}, {"font_features", "font_features"}, {"allow_breaks", "allow_breaks"}, {"insert_hyphens", "insert_hyphens"},
	{"show", "show"}, {"line_height", "line_height"}, {"text_transform", "text_transform"}, {"segment", "segment"}, {"font_scale", "font_scale"}}

func p10Open(tag string, at ...[2]string) p10Token {
	if at == nil {
		at = [][2]string{}
	}
	return p10Token{T: "open", Tag: tag, At: at, Cs: [][2]int{}}
}
func p10Close(tag string) p10Token {
	return p10Token{T: "close", Tag: tag, At: [][2]string{}, Cs: [][2]int{}}
}

func (g *G) p10Text(n int, m rune) p10Token {
	tk := p10Token{T: "text", At: [][2]string{}, Cs: [][2]int{}}
	for i := 0; i < n; i++ {
		r := []rune{'a', 'b', ' ', '\n', '<', '&', '>', '"', '\'', 'é', 0x5d0, 0x1f600, 0x301, ';', '#', '_', ']'}[g.Intn(17)]
		if m != 0 && g.Intn(3) == 0 {
			r = m
		}
		tk.Cs = append(tk.Cs, [2]int{int(r), b01(g.Intn(6) == 0)})
	}
	return tk
}

// p10Span gives attributes without steps and fonts at once; bad ones one time out of wrong
func (g *G) p10Span(n, wrong int) [][2]string {
	at := [][2]string{}
	seen := map[string]bool{}
	used := map[string]bool{}
	for len(at) < n {
		nm := p10Names[g.Intn(len(p10Names))]
		if g.Intn(4) == 0 {
			nm = [][2]string{{"size", "size"}, {"font", "font"}, {"font_desc", "font"}, {"font_size", "size"}, {"weight", "weight"}}[g.Intn(5)]
		}
		vs := p10Values[nm[1]]
		v := vs[g.Intn(len(vs))]
		if wrong == 0 || g.Intn(wrong) != 0 {
			if used[nm[1]] || !p10Valid[nm[1]+"="+v] {
				continue
			}
		}
		if used[nm[0]] || (nm[1] == "font" && seen["step"]) || (seen["font"] && (v == "smaller" || v == "larger")) || seen["raw"+nm[0]] {
			continue
		}
		seen["raw"+nm[0]] = true
		used[nm[1]] = true
		if nm[1] == "font" {
			seen["font"] = true
		}
		if v == "smaller" || v == "larger" {
			seen["step"] = true
		}
		at = append(at, [2]string{nm[0], v})
	}
	if wrong > 0 && g.Intn(wrong*3) == 0 {
		at = append(at, [2]string{pick(g, "weigth", "Size", "fontsize", "class", "foreground_alpha"), "1"})
	}
	return at
}

var p10Valid = map[string]bool{}

func init() {
	bad := map[string]bool{"style=slanted": true, "style=oblique italic": true, "weight=fat": true, "weight=-5": true, "weight=70000": true, "variant=caps": true, "stretch=wide": true,
		"underline=true": true, "underline=triple": true, "overline=double": true, "gravity=auto": true, "gravity=up": true, "gravity_hint=weak": true, "show=tabs": true,
		"show=spaces,ignorables": true, "text_transform=reverse": true, "baseline_shift=up": true, "baseline_shift=1000": true, "font_scale=big": true, "rise=up": true, "rise=5px": true,
		"letter_spacing=1.5": true, "letter_spacing=wide": true, "line_height=tall": true, "segment=line": true, "strikethrough=1": true, "strikethrough=True": true,
		"fallback=2": true, "allow_breaks=maybe": true, "insert_hyphens=soft": true, "foreground=reddish": true, "foreground=#12345": true, "foreground=#ggg": true,
		"foreground=#+1-2+3": true, "foreground=#": true, "foreground=123": true, "background=none": true, "background=#1": true, "underline_color=#1238": true, "underline_color=#-1-2-3": true,
		"overline_color=#0001000200030004": true, "strikethrough_color=no color": true, "alpha=0": true, "alpha=-5": true, "alpha=70000": true, "alpha=101%": true, "alpha=0%": true,
		"alpha=half": true, "alpha=1.5": true, "background_alpha=0": true, "background_alpha=131073": true, "background_alpha=-1%": true,
		"size=huge": true, "size=12px": true, "size=ten%": true}
	for n, vs := range p10Values {
		for _, v := range vs {
			p10Valid[n+"="+v] = !bad[n+"="+v]
		}
	}
}

func (g *G) p10Tree(depth, steps int, m rune, wrong int) []p10Token {
	out := []p10Token{}
	for n := g.Intn(4); n >= 0; n-- {
		switch x := g.Intn(10); {
		case x < 4 || depth == 0:
			out = append(out, g.p10Text(1+g.Intn(4), m))
		case x < 5:
			out = append(out, p10Token{T: "cut", At: [][2]string{}, Cs: [][2]int{}, S: pick(g, "x", "<b>", "a & b")})
		default:
			tag := pick(g, "b", "i", "s", "u", "tt", "sub", "sup", "big", "small", "big", "small", "span", "span", "span", "span", "span", "markup")
			if wrong > 0 && g.Intn(wrong*4) == 0 {
				tag = pick(g, "B", "spam", "em", "font", "markUp")
			}
			at := [][2]string{}
			s := steps
			if tag == "span" {
				at = g.p10Span(g.Intn(4), wrong)
			} else if wrong > 0 && g.Intn(wrong*4) == 0 {
				at = [][2]string{{"weight", "bold"}}
			}
			step := tag == "big" || tag == "small"
			for _, a := range at {
				step = step || a[1] == "larger" || a[1] == "smaller"
			}
			if step {
				if s--; s < 0 {
					continue
				}
			}
			out = append(out, p10Open(tag, at...))
			out = append(out, g.p10Tree(depth-1, s, m, wrong)...)
			out = append(out, p10Close(tag))
		}
	}
	return out
}

func p10Gen(g *G) {
	for _, h := range g.Hist {
		var x struct {
			Tks []p10Token `json:"tks"`
			M   int        `json:"m"`
		}
		dec(json.RawMessage(h), &x)
		for i := range x.Tks {
			if x.Tks[i].At == nil {
				x.Tks[i].At = [][2]string{}
			}
			if x.Tks[i].Cs == nil {
				x.Tks[i].Cs = [][2]int{}
			}
		}
		g.Emit(p10In{Tks: x.Tks, M: x.M}, len(x.Tks) > 2)
		// the same, with the open tags closed
		stack := []string{}
		for _, tk := range x.Tks {
			if tk.T == "open" {
				stack = append(stack, tk.Tag)
			} else if tk.T == "close" && len(stack) > 0 {
				stack = stack[:len(stack)-1]
			}
		}
		if n := len(stack); n > 0 {
			for n--; n >= 0; n-- {
				x.Tks = append(x.Tks, p10Close(stack[n]))
			}
			g.Emit(p10In{Tks: x.Tks, M: x.M}, true)
		}
	}
	// each value of each name
	for _, nm := range p10Names {
		for _, v := range p10Values[nm[1]] {
			g.Emit(p10In{Tks: []p10Token{g.p10Text(1, 0), p10Open("span", [2]string{nm[0], v}), g.p10Text(2, 0), p10Close("span")}}, true)
		}
	}
	// pairs of names
	for i := 0; i < g.N(1500, 6000); i++ {
		a, b := p10Names[g.Intn(len(p10Names))], p10Names[g.Intn(len(p10Names))]
		va, vb := pick(g, p10Values[a[1]]...), pick(g, p10Values[b[1]]...)
		step := func(v string) bool { return v == "smaller" || v == "larger" }
		if a[0] == b[0] || (a[1] == "font" && step(vb)) || (b[1] == "font" && step(va)) {
			continue
		}
		g.Emit(p10In{Tks: []p10Token{p10Open("span", [2]string{a[0], va}, [2]string{b[0], vb}), g.p10Text(2, 0), p10Close("span")}}, true)
	}
	bads := []string{"<", "&", "&foo;", "<b", "</", "<b>", "</b>", "<1>", "<b a>", "<b a=1>", "&#x110000;", "<!-- ", "</markup>", "\x01", "<b></i></b>", "</i>"}
	for i := 0; i < g.N(8000, 60000); i++ {
		m := rune(0)
		if g.Intn(2) == 0 {
			m = []rune{'_', '&', 'é', 0x1f600}[g.Intn(4)]
		}
		wrong := 0
		if g.Intn(4) == 0 {
			wrong = 5 + g.Intn(20)
		}
		tks := g.p10Tree(1+g.Intn(5), 3, m, wrong)
		if wrong > 0 && g.Intn(3) == 0 {
			p := g.Intn(len(tks) + 1)
			switch g.Intn(4) {
			case 3: // the root closed
				tks = append(tks[:p:p], append([]p10Token{p10Close("markup"), p10Open(pick(g, "markup", "b"))}, tks[p:]...)...)
			case 0: // malformed
				tks = append(tks[:p:p], append([]p10Token{{T: "bad", At: [][2]string{}, Cs: [][2]int{}, S: bads[g.Intn(len(bads))]}}, tks[p:]...)...)
			case 1: // a tag lost
				if p < len(tks) {
					tks = append(tks[:p:p], tks[p+1:]...)
				}
			case 2: // a tag doubled
				if p < len(tks) {
					tks = append(tks[:p+1:p+1], tks[p:]...)
				}
			}
		}
		g.Emit(p10In{Tks: tks, M: int(m)}, len(tks) > 2)
	}
}
