package main

// Layouts: settings, and everything that can be asked about a layout.

import (
	"github.com/benoitkugler/textprocessing/pango"
)

type lTabs struct {
	Set  bool    `json:"set"`
	Px   bool    `json:"px"`
	Tabs [][]int `json:"tabs"` // location, alignment, decimal point
}

// lCfg is the settings of a layout and of its context
type lCfg struct {
	Text    []int           `json:"text"`
	Attrs   []pAttr         `json:"attrs"`
	HasDesc bool            `json:"hasdesc"`
	Desc    [][]interface{} `json:"desc"`
	Width   int             `json:"width"`
	Height  int             `json:"height"`
	Indent  int             `json:"indent"`
	Spacing int             `json:"spacing"`
	LineSp  int             `json:"linesp"` // percents
	Align   int             `json:"align"`
	Wrap    int             `json:"wrap"`
	Ell     int             `json:"ell"`
	Justify bool            `json:"justify"`
	JLast   bool            `json:"jlast"`
	Auto    bool            `json:"auto"`
	Single  bool            `json:"single"`
	Tabs    lTabs           `json:"tabs"`
	// context
	CDesc   [][]interface{} `json:"cdesc"`
	Lang    string          `json:"lang"`
	Gravity int             `json:"gravity"`
	Round   bool            `json:"round"`
	// font map
	Fallback []string `json:"fallback"`
	Scale    int      `json:"scale"`
}

func newCfg(text []rune) lCfg {
	out := lCfg{Text: []int{}, Attrs: []pAttr{}, Desc: [][]interface{}{}, Width: -1, Height: -1, Auto: true, Tabs: lTabs{Tabs: [][]int{}},
		CDesc: [][]interface{}{{"family", "latin"}, {"size", []interface{}{1024, false}}}, Lang: "en", Fallback: []string{}, Scale: 1}
	for _, r := range text {
		out.Text = append(out.Text, int(r))
	}
	return out
}

func descOf(d [][]interface{}) pango.FontDescription {
	out := pango.NewFontDescription()
	for _, fv := range d {
		setDesc(&out, fv[0].(string), fv[1])
	}
	return out
}

func (t lTabs) array() *pango.TabArray {
	if !t.Set {
		return nil
	}
	out := &pango.TabArray{PositionsInPixels: t.Px}
	for _, tb := range t.Tabs {
		out.Tabs = append(out.Tabs, pango.Tab{Location: pango.Unit(tb[0]), Alignment: pango.TabAlign(tb[1]), DecimalPoint: rune(tb[2])})
	}
	return out
}

// lEnv is a context and its font map
type lEnv struct {
	m   *pMap
	ctx *pango.Context
}

func (cfg lCfg) env() *lEnv {
	m := newPMap(cfg.Fallback...)
	m.scale = cfg.Scale
	ctx := pango.NewContext(m)
	e := &lEnv{m, ctx}
	ctx.SetFontDescription(descOf(cfg.CDesc))
	ctx.SetLanguage(pango.Language(cfg.Lang))
	ctx.SetBaseGravity(pango.Gravity(cfg.Gravity))
	ctx.SetRoundGlyphPositions(cfg.Round)
	return e
}

// layout is a fresh layout with the settings
func (e *lEnv) layout(cfg lCfg) *pango.Layout {
	l := pango.NewLayout(e.ctx)
	l.SetWidth(pango.Unit(cfg.Width))
	l.SetHeight(pango.Unit(cfg.Height))
	l.SetIndent(pango.Unit(cfg.Indent))
	l.SetSpacing(pango.Unit(cfg.Spacing))
	l.SetLineSpacing(float32(cfg.LineSp) / 100)
	l.SetAlignment(pango.Alignment(cfg.Align))
	l.SetWrap(pango.WrapMode(cfg.Wrap))
	l.SetEllipsize(pango.EllipsizeMode(cfg.Ell))
	l.SetJustify(cfg.Justify)
	l.SetJustifyLastLine(cfg.JLast)
	l.SetAutoDir(cfg.Auto)
	l.SetSingleParagraphMode(cfg.Single)
	if cfg.Tabs.Set {
		l.SetTabs(cfg.Tabs.array())
	}
	if cfg.HasDesc {
		d := descOf(cfg.Desc)
		l.SetFontDescription(&d)
	}
	l.SetAttributes(pAttrList(cfg.Attrs))
	l.SetRunes(runesOf(cfg.Text))
	return l
}

func rect(r pango.Rectangle) []int { return []int{int(r.X), int(r.Y), int(r.Width), int(r.Height)} }

func glyphKind(g pango.Glyph) int { return int(g) }

// runObs describes a run: its item and its glyphs
func runObs(text []rune, run *pango.GlyphItem, full bool) J {
	it := run.Item
	gs, ws, lc, xo, yo := []int{}, []int{}, []int{}, []int{}, []int{}
	for i, g := range run.Glyphs.Glyphs {
		gs = append(gs, glyphKind(g.Glyph))
		ws = append(ws, int(g.Geometry.Width))
		xo = append(xo, int(g.Geometry.XOffset))
		yo = append(yo, int(g.Geometry.YOffset))
		lc = append(lc, run.Glyphs.LogClusters[i])
	}
	fam, size := "", 0
	if pf, ok := it.Analysis.Font.(*pFont); ok && pf != nil {
		fam, size = pf.fam, pf.size
	}
	extra := [][]interface{}{}
	for _, a := range it.Analysis.ExtraAttrs {
		extra = append(extra, []interface{}{pAttrNames[a.Kind], attrValue(a), a.StartIndex, a.EndIndex})
	}
	out := J{"o": it.Offset, "n": it.Length, "lv": int(it.Analysis.Level), "g": gs, "w": ws, "lc": lc,
		"sc": scriptTag(it.Analysis.Script), "ell": it.Analysis.Flags&pango.AFIsEllipsis != 0, "hy": it.Analysis.Flags&pango.AFNeedHyphen != 0}
	if full {
		out["xo"], out["yo"], out["fam"], out["size"], out["extra"] = xo, yo, fam, size, extra
		out["grav"], out["ctr"] = int(it.Analysis.Gravity), it.Analysis.Flags&pango.AFCenterdBaseline != 0
	}
	return out
}

func logWidths(text []rune, run *pango.GlyphItem) []int {
	lw := []int{}
	for _, u := range run.GetLogicalWidths(text) {
		lw = append(lw, int(u))
	}
	return lw
}

func lineObs(text []rune, line *pango.LayoutLine, full bool) J {
	runs := []J{}
	w := 0
	for r := line.Runs; r != nil; r = r.Next {
		runs = append(runs, runObs(text, r.Data, full))
		for _, g := range r.Data.Glyphs.Glyphs {
			w += int(g.Geometry.Width)
		}
	}
	out := J{"s": line.StartIndex, "n": line.Length, "par": line.IsParagraphStart, "dir": int(line.ResolvedDir), "runs": runs, "w": w}
	if full {
		var ink, log pango.Rectangle
		h := line.GetExtents(&ink, &log)
		out["ink"], out["log"], out["h"] = rect(ink), rect(log), int(h)
	}
	return out
}

func linesObs(l *pango.Layout, full bool) []J {
	out := []J{}
	for _, line := range l.GetLinesReadonly() {
		out = append(out, lineObs(l.Text, line, full))
	}
	return out
}

// walks of an iterator: [line, index, x, width] of each step
func iterObs(l *pango.Layout) J {
	lineOf := func(it *pango.LayoutIter, line *pango.LayoutLine) int {
		for i, ln := range l.GetLinesReadonly() {
			if ln == line {
				return i
			}
		}
		return -1
	}
	limit := 4*len(l.Text) + 50
	walk := func(next func(*pango.LayoutIter) bool, at func(*pango.LayoutIter) []int) [][]int {
		out := [][]int{}
		it := l.GetIter()
		for do := true; do && len(out) < limit; do = next(it) {
			out = append(out, append([]int{lineOf(it, it.GetLine())}, at(it)...))
		}
		return out
	}
	out := J{}
	out["lines"] = walk((*pango.LayoutIter).NextLine, func(it *pango.LayoutIter) []int {
		var log, ink pango.Rectangle
		it.GetLineExtents(&ink, &log)
		return append(append(rect(log), rect(ink)...), int(it.GetBaseline()))
	})
	out["runs"] = walk((*pango.LayoutIter).NextRun, func(it *pango.LayoutIter) []int {
		var log, ink pango.Rectangle
		it.GetRunExtents(&ink, &log)
		off := -1
		if r := it.GetRun(); r != nil {
			off = r.Item.Offset
		}
		return append(append([]int{off, it.Index}, rect(log)...), rect(ink)...)
	})
	out["clusters"] = walk((*pango.LayoutIter).NextCluster, func(it *pango.LayoutIter) []int {
		var log, ink pango.Rectangle
		it.GetClusterExtents(&ink, &log)
		return append(append([]int{it.Index}, rect(log)...), rect(ink)...)
	})
	out["chars"] = walk((*pango.LayoutIter).NextChar, func(it *pango.LayoutIter) []int {
		return append([]int{it.Index}, rect(it.GetCharExtents())...)
	})
	return out
}

// positions of every index
func posObs(l *pango.Layout) J {
	pos, strong, weak, dirs := [][]int{}, [][]int{}, [][]int{}, []int{}
	for i := 0; i <= len(l.Text); i++ {
		var p, s, w pango.Rectangle
		l.IndexToPos(i, &p)
		l.GetCursorPos(i, &s, &w)
		pos, strong, weak = append(pos, rect(p)), append(strong, rect(s)), append(weak, rect(w))
		dirs = append(dirs, int(l.GetDirectionAt(i)))
	}
	xs := [][][]int{}
	for _, line := range l.GetLinesReadonly() {
		lx := [][]int{}
		for i := line.StartIndex; i <= line.StartIndex+line.Length; i++ {
			lx = append(lx, []int{int(line.IndexToX(i, false)), int(line.IndexToX(i, true))})
		}
		xs = append(xs, lx)
	}
	return J{"pos": pos, "strong": strong, "weak": weak, "dirs": dirs, "xs": xs}
}

func sizeObs(l *pango.Layout) J {
	var ink, log pango.Rectangle
	l.GetExtents(&ink, &log)
	w, h := l.GetSize()
	return J{"ink": rect(ink), "log": rect(log), "size": []int{int(w), int(h)}, "baseline": int(l.GetBaseline()), "count": l.GetLineCount(),
		"wrapped": l.IsWrapped(), "ellipsized": l.IsEllipsized()}
}

// the separators are not in the pools of characters
var lSeps = map[rune]*pChar{}

func init() {
	for _, r := range "\n\r\u2029" {
		lSeps[r] = &pChar{R: int(r), Sc: "zyyy", Ty: "B", Em: "-", Sp: true, Fb: true, Cov: []string{}}
	}
}

func lChars(t []int) []*pChar {
	out := []*pChar{}
	for _, r := range t {
		if c := lSeps[rune(r)]; c != nil {
			out = append(out, c)
		} else {
			out = append(out, pChars[rune(r)])
		}
	}
	return out
}

type lOpts struct {
	attrs, tabs, ell, vertical bool
	max                        int // length of the text
}

// a text with separators
func (g *G) layoutText(max int) []rune {
	n := g.Intn(max + 1)
	var rs []rune
	if n > 0 {
		switch g.Intn(4) {
		case 0: // words
			for len(rs) < n {
				rs = append(rs, []rune(pick(g, "a", "bc", "def", " ", " ", " ", "  ", "אב", "ג", "ab-cd", "\u00AD", "1", "12,2", "漢字", "\u200B", "(", ")", ".", "é", "fi", "\u2028"))...)
			}
			rs = rs[:n]
		default:
			rs = g.pRandText(n, func(c *pChar) bool { return true })
		}
	}
	for k := g.Intn(4); k > 0; k-- {
		p := 0
		if len(rs) > 0 {
			p = g.Intn(len(rs) + 1)
		}
		sep := []rune(pick(g, "\n", "\n", "\r", "\r\n", "\u2029", "\n\n", "\n\r"))
		rs = append(rs[:p:p], append(sep, rs[p:]...)...)
	}
	return rs
}

var lFamPool = []string{"latin", "latin", "latin,hebrew,arabic", "half,latin", "rich", "all", "emoji,latin", "smcp", "third"}

func (g *G) layoutAttr(n int) pAttr {
	if n == 0 {
		n = 1
	}
	if g.Intn(3) != 0 {
		a := g.p02Attr(n, false)
		switch a.Kind {
		case "family":
			a.S = pick(g, lFamPool...)
		case "size", "abssize":
			a.V = pickInt(g, 512, 1024, 2048, 1500)
		case "letter":
			a.V = pickInt(g, 0, 100, 37, -200, 1024)
		case "rise":
			a.V = pickInt(g, 0, 100, -300, 2000)
		case "shape":
			a.V = pickInt(g, 10, 100)
		case "desc":
			for _, fv := range a.D {
				if fv[0] == "family" {
					fv[1] = pick(g, lFamPool...)
				}
				if fv[0] == "size" {
					fv[1] = []interface{}{pickInt(g, 512, 1024), false}
				}
			}
		}
		return a
	}
	a := pAttr{D: [][]interface{}{}}
	a.Start = g.Intn(n)
	a.End = a.Start + 1 + g.Intn(n)
	if g.Intn(10) == 0 {
		a.Start, a.End = 0, pWhole
	}
	a.Kind = pick(g, "word", "sentence", "hyphens", "breaks", "breaks", "show", "show", "lineheight", "abslineheight", "letter", "shape", "transform", "rise", "rise_shift")
	switch a.Kind {
	case "hyphens", "breaks":
		a.V = g.Intn(2)
	case "show":
		a.V = g.Intn(8)
	case "lineheight":
		a.V = pickInt(g, 50, 100, 150, 200)
	case "abslineheight":
		a.V = pickInt(g, 500, 1024, 3000)
	case "letter":
		a.V = pickInt(g, 0, 100, 37, -200, 1024)
	case "shape":
		a.V = pickInt(g, 10, 100)
	case "transform":
		a.V = g.Intn(4)
	case "rise":
		a.V = pickInt(g, 0, 100, -300)
	case "rise_shift":
		a.V = pickInt(g, 1, 2, 100, -300)
	}
	return a
}

func (g *G) layoutCfg(o lOpts) lCfg {
	max := o.max
	if max == 0 {
		max = 24
	}
	text := g.layoutText(max)
	cfg := newCfg(text)
	cfg.Width = pickInt(g, -1, -1, 0, 1, 500, 1000, 1500, 2000, 3000, 4000, 5000, 2111, 7777)
	if g.Intn(2) == 0 {
		cfg.Indent = pickInt(g, 0, 300, -300, 1000, -1000, 9000)
	}
	if g.Intn(3) == 0 {
		cfg.Spacing = pickInt(g, 100, -100, 1024)
	}
	if g.Intn(4) == 0 {
		cfg.LineSp = pickInt(g, 50, 100, 150)
	}
	cfg.Align, cfg.Wrap = g.Intn(3), g.Intn(3)
	if o.ell && g.Intn(3) == 0 {
		cfg.Ell = 1 + g.Intn(3)
		if g.Intn(2) == 0 {
			cfg.Height = pickInt(g, 0, 1024, 2048, 3000, -2, -3, 1500)
		}
	}
	cfg.Justify, cfg.JLast = g.Intn(3) == 0, g.Intn(3) == 0
	cfg.Auto = g.Intn(4) != 0
	cfg.Single = g.Intn(5) == 0
	if o.tabs && g.Intn(4) == 0 {
		cfg.Tabs.Set = true
		cfg.Tabs.Px = g.Intn(4) == 0
		at := 0
		for k := g.Intn(4); k > 0; k-- {
			at += pickInt(g, 100, 500, 1000, 2500)
			loc := at
			if cfg.Tabs.Px {
				loc /= 100
			}
			cfg.Tabs.Tabs = append(cfg.Tabs.Tabs, []int{loc, g.Intn(4), pickInt(g, 0, '.', ',')})
		}
	}
	if g.Intn(3) == 0 {
		cfg.HasDesc = true
		cfg.Desc = [][]interface{}{{"family", pick(g, lFamPool...)}, {"size", []interface{}{pickInt(g, 512, 1024, 700), g.Intn(4) == 0}}}
	}
	cfg.CDesc[0][1] = pick(g, lFamPool...)
	cfg.Lang = pick(g, "en", "en", "he", "ja", "")
	if o.vertical {
		cfg.Gravity = g.Intn(4)
	}
	cfg.Round = g.Intn(3) == 0
	if o.attrs {
		for k := g.Intn(5); k > 0; k-- {
			cfg.Attrs = append(cfg.Attrs, g.layoutAttr(len(text)))
		}
	}
	return cfg
}
