package main

import (
	"encoding/json"
	"unicode"

	"github.com/benoitkugler/textprocessing/pango"
)

// where lines are broken

func init() { props["P04"] = &Prop{Gen: p04Gen, Exec: p04Exec} }

type p04In struct {
	Cfg lCfg `json:"cfg"`
}

func b01(b bool) int {
	if b {
		return 1
	}
	return 0
}

// refObs gives the widths of the characters of a layout without limits, the width of an hyphen
// after them, and the attributes of the positions
func refObs(cfg lCfg) J {
	cfg.Width, cfg.Height, cfg.Ell, cfg.Justify, cfg.Indent = -1, -1, 0, false, 0
	as := []pAttr{} // colors split the runs once lines are broken
	for _, a := range cfg.Attrs {
		switch a.Kind {
		case "underline", "overline", "strike", "color", "back":
		default:
			as = append(as, a)
		}
	}
	cfg.Attrs = as
	l := cfg.env().layout(cfg)
	n := len(cfg.Text)
	w, hy, item := make([]int, n), make([]int, n), make([]int, n)
	lineEnds := []int{}
	for _, line := range l.GetLinesReadonly() {
		lineEnds = append(lineEnds, line.StartIndex+line.Length)
		for r := line.Runs; r != nil; r = r.Next {
			it := r.Data.Item
			h := 0
			if pf, ok := it.Analysis.Font.(*pFont); ok && pf != nil {
				var gs pango.GlyphString
				if hyph := []rune{0x2010}; pFamilies[pf.fam](hyph[0]) {
					gs.Shape(hyph, &pango.Analysis{Font: it.Analysis.Font})
				} else if hyph[0] = '-'; pFamilies[pf.fam](hyph[0]) {
					gs.Shape(hyph, &pango.Analysis{Font: it.Analysis.Font})
				}
				for _, g := range gs.Glyphs {
					h += int(g.Geometry.Width)
				}
			}
			for i, u := range logWidths(l.Text, r.Data) {
				w[it.Offset+i], hy[it.Offset+i], item[it.Offset+i] = u, h, it.Offset
			}
		}
	}
	a := [][]int{}
	for _, at := range l.GetCharacterAttributes() {
		a = append(a, []int{b01(at.IsLineBreak()), b01(at.IsCharBreak()), b01(at.IsBreakInsertsHyphen()), b01(at.IsBreakRemovesPreceding()), b01(at.IsWhite()), b01(at.IsCursorPosition())})
	}
	return J{"w": w, "hy": hy, "a": a, "item": item, "ends": lineEnds}
}

func p04Exec(raw json.RawMessage, obs func(interface{})) {
	var in p04In
	dec(raw, &in)
	ref := refObs(in.Cfg)
	l := in.Cfg.env().layout(in.Cfg)
	obs(J{"ref": ref, "lines": linesObs(l, false), "wrapped": l.IsWrapped()})
}

// letter spacing is distributed around the lines, tabs depend on where they are, ligatures are
// measured as parts
func p04Plain(cfg *lCfg) {
	cfg.Tabs = lTabs{Tabs: [][]int{}}
	for i, r := range cfg.Text {
		// a space which allows breaks on both sides, a paragraph separator which is shown
		if r == '\t' || r == 0x1680 || (cfg.Single && (r == 0x2028 || lSeps[rune(r)] != nil)) {
			cfg.Text[i] = ' '
		}
	}
	// the shaper mixes up clusters of runs shaped against the direction of their script
	rtl := false
	for _, ch := range lChars(cfg.Text) {
		rtl = rtl || ch.Ty == "R" || ch.Ty == "AN" || ch.Ty == "AL" || ch.Ty == "RLE" || ch.Ty == "RLO" || ch.Ty == "RLI"
	}
	breaks := false // items without width follow the breaks
	for _, a := range cfg.Attrs {
		breaks = breaks || a.Kind == "breaks"
		rtl = rtl || a.Kind == "gravity" || a.Kind == "hint"
	}
	for i, ch := range lChars(cfg.Text) {
		// (nor does a line end inside a cluster: after a space which has an accent)
		if r := ch.R; inRange(rune(r), 0xe0000, 0xe0200) || (rtl || i == 0 || unicode.IsSpace(rune(cfg.Text[i-1]))) && (ch.Ty == "NSM" || r == 0x200d || r == 0x1f3fb || r == 0x1f3fd || r == 0xff9e || r == 0xff9f) {
			cfg.Text[i] = '.'
		}
		if r := cfg.Text[i]; breaks && (inRange(rune(r), 0x202a, 0x202f) || inRange(rune(r), 0x2066, 0x206a)) {
			cfg.Text[i] = '.'
		}
	}
	as := cfg.Attrs[:0]
	for _, a := range cfg.Attrs {
		if a.Kind == "letter" || (a.Kind == "family" && a.S == "rich") {
			continue
		}
		if a.Kind == "desc" {
			for _, fv := range a.D {
				if fv[0] == "family" && fv[1] == "rich" {
					fv[1] = "latin"
				}
			}
		}
		as = append(as, a)
	}
	cfg.Attrs = as
	for _, d := range [][][]interface{}{cfg.Desc, cfg.CDesc} {
		for _, fv := range d {
			if fv[0] == "family" && fv[1] == "rich" {
				fv[1] = "latin"
			}
		}
	}
	cfg.Round = false
}

func p04Gen(g *G) {
	for _, h := range g.Hist {
		var x struct {
			Toks []struct {
				T   string
				New bool
			}
			Width int
			Mode  string
		}
		dec(json.RawMessage(h), &x)
		cfg := newCfg(nil)
		cfg.Text, cfg.Width, cfg.Wrap = []int{}, x.Width*256, map[string]int{"word": 0, "char": 1, "wordchar": 2}[x.Mode]
		rise := pAttr{Kind: "rise", V: 100, D: [][]interface{}{}}
		for i, t := range x.Toks {
			cfg.Text = append(cfg.Text, map[string]int{"x": 'a', "i": 0x5b57, "s": ' ', "y": 0xad}[t.T])
			if t.New || i == 0 { // one item of two is raised
				rise.Start, rise.End = i, i
				rise.V = 100 - rise.V
				cfg.Attrs = append(cfg.Attrs, rise)
			}
			cfg.Attrs[len(cfg.Attrs)-1].End = i + 1
		}
		g.Emit(p04In{cfg}, true)
	}
	for i := 0; i < g.N(1500, 30000); i++ {
		cfg := g.layoutCfg(lOpts{attrs: g.Intn(3) != 0})
		p04Plain(&cfg)
		if cfg.Width < 0 && g.Intn(4) != 0 {
			cfg.Width = g.Intn(6000)
		}
		shape := false // shapes have no hyphens
		for _, a := range cfg.Attrs {
			shape = shape || a.Kind == "shape"
		}
		if shape || g.Intn(2) == 0 { // no hyphens
			cfg.Attrs = append(cfg.Attrs, pAttr{Kind: "hyphens", D: [][]interface{}{}, End: len(cfg.Text) + 1})
		}
		g.Emit(p04In{cfg}, true)
	}
}
