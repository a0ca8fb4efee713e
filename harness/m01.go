package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"strings"

	"github.com/benoitkugler/textlayout/fonts"
	tt "github.com/benoitkugler/textlayout/fonts/truetype"
	fc "github.com/benoitkugler/textprocessing/fontconfig"
	"github.com/benoitkugler/textprocessing/pango"
	"github.com/benoitkugler/textprocessing/pango/fcfonts"
)

// the fontconfig font map, with synthetic fonts

func init() { props["M01"] = &Prop{Gen: m01Gen, Exec: m01Exec} }

type m01Font struct {
	File   string   `json:"file"`
	Fam    string   `json:"fam"`
	Slant  int      `json:"slant"`
	Weight int      `json:"weight"`
	Width  int      `json:"width"`
	Cov    string   `json:"cov"`
	Langs  []string `json:"langs"`
	Axes   bool     `json:"axes"` // a variable font
	Inst   int      `json:"inst"`
	Bad    bool     `json:"bad"` // can't be loaded
}

type m01Req struct {
	Fam     string `json:"fam"`
	Style   int    `json:"style"`
	Weight  int    `json:"weight"`
	Stretch int    `json:"stretch"`
	Variant int    `json:"variant"`
	Size    int    `json:"size"`
	Abs     bool   `json:"abs"`
	Grav    int    `json:"grav"` // -1: not set
	Vars    string `json:"vars"`
	Lang    string `json:"lang"`
	Mat     [4]int `json:"mat"` // in 1/100
}

type m01Op struct {
	Op   string `json:"op"` // fonts, metrics, layout, config, font
	Q    int    `json:"q"`  // request, from 1
	N    int    `json:"n"`
	Lang string `json:"lang"`
	D    int    `json:"d"` // database, from 1
	Cfg  int    `json:"cfg"`
}

type m01In struct {
	Reqs []m01Req    `json:"reqs"`
	Dbs  [][]m01Font `json:"dbs"`
	Cfg  int         `json:"cfg"`
	Ops  []m01Op     `json:"ops"`
	Text []int       `json:"text"`
}

var m01Configs = []string{"",
	`<alias><family>Sans</family><prefer><family>Beta</family></prefer></alias>`,
	`<match target="font"><test name="slant"><const>roman</const></test><edit name="matrix" mode="assign"><times><name>matrix</name><matrix><double>1</double><double>0.25</double><double>0</double><double>1</double></matrix></times></edit></match>`,
	`<match target="pattern"><edit name="family" mode="append"><string>Gamma</string></edit></match>`,
	`<match target="font"><edit name="hinting" mode="assign"><bool>false</bool></edit><edit name="fontfeatures" mode="append"><string>liga=0</string></edit></match>`,
	`<match target="pattern"><test name="lang" compare="contains"><string>fr</string></test><edit name="weight" mode="assign"><const>bold</const></edit></match>`,
}

func m01Config(i int) *fc.Config {
	cfg := fc.NewConfig()
	if m01Configs[i] != "" {
		if err := cfg.LoadFromMemory(strings.NewReader(`<?xml version="1.0"?><fontconfig>` + m01Configs[i] + `</fontconfig>`)); err != nil {
			panic(err)
		}
	}
	return cfg
}

var m01Charsets = map[string]fc.Charset{}

func m01Charset(cov string) fc.Charset {
	if cs, ok := m01Charsets[cov]; ok {
		return cs
	}
	var out fc.Charset
	for _, lim := range [][2]rune{{0x20, 0x24F}, {0x300, 0x3FF}, {0x590, 0x6FF}, {0x900, 0x97F}, {0x2000, 0x2064}, {0x3040, 0x30FF}, {0x4E00, 0x4EFF}, {0x65E5, 0x65E5}} {
		for r := lim[0]; r <= lim[1]; r++ {
			if pFamilies[cov](r) {
				out.AddChar(r)
			}
		}
	}
	m01Charsets[cov] = out
	return out
}

func init() {
	// devanagari letters without the marks
	pFamilies["deva"] = func(r rune) bool { return inRange(r, 0x20, 0x7E, 0x905, 0x939) }
	for cov := range pFamilies {
		m01Charset(cov)
	}
}

func m01Database(fs []m01Font) fc.Fontset {
	out := fc.Fontset{}
	for _, f := range fs {
		p := fc.NewPattern()
		p.AddString(fc.FILE, f.File)
		p.AddString(fc.FAMILY, f.Fam)
		p.Add(fc.SLANT, fc.Int(f.Slant), true)
		p.Add(fc.WEIGHT, fc.Float(f.Weight), true)
		p.Add(fc.WIDTH, fc.Int(f.Width), true)
		p.AddString(fc.FONTFORMAT, "TrueType")
		p.Add(fc.INDEX, fc.Int(f.Inst<<16), true)
		p.Add(fc.CHARSET, m01Charset(f.Cov), true)
		p.Add(fc.LANG, toFC(VL(f.Langs...)), true)
		p.Add(fc.SCALABLE, fc.True, true)
		p.Add(fc.OUTLINE, fc.True, true)
		out = append(out, p)
	}
	return out
}

// m01Face is a face without layout tables, and with one axis or none
type m01Face struct {
	pRich
	axes   bool
	coords []float32
	fvar   tt.TableFvar
	upper  int
}

func (f *m01Face) Variations() tt.TableFvar           { return f.fvar }
func (f *m01Face) SetVarCoordinates(coords []float32) { f.coords = coords }
func (f *m01Face) VarCoordinates() []float32          { return f.coords }
func (f *m01Face) LayoutTables() tt.LayoutTables      { return tt.LayoutTables{} }
func (f *m01Face) FontHExtents() (fonts.FontExtents, bool) {
	return fonts.FontExtents{Ascender: float32(f.upper), Descender: -256}, true
}
func (f *m01Face) HorizontalAdvance(gid fonts.GID) float32 {
	out := f.pRich.HorizontalAdvance(gid)
	if len(f.coords) != 0 {
		out += float32(math.Round(float64(f.coords[0]) / 10))
	}
	return out
}

// m01Loader loads the faces of a database
type m01Loader struct {
	db     []m01Font
	tables map[string]tt.TableFvar
}

func (l *m01Loader) LoadFace(key fonts.FaceID, format fc.FontFormat) (fonts.Face, error) {
	for i, f := range l.db {
		if f.File != key.File {
			continue
		}
		if f.Bad {
			return nil, errors.New("bad font")
		}
		cs := m01Charset(f.Cov)
		out := &m01Face{pRich: pRich{pFace: pFace{f.Cov, cs.HasChar}}, axes: f.Axes, upper: 600 + 64*i}
		if f.Axes {
			// read once
			if _, ok := l.tables[f.File]; !ok {
				w := tt.MustNewTag("wght")
				l.tables[f.File] = tt.TableFvar{Axis: []tt.VarAxis{{Tag: w, Minimum: 100, Default: 400, Maximum: 900}}, Instances: []tt.VarInstance{{Coords: []float32{400}}, {Coords: []float32{650}}}}
			}
			out.fvar = l.tables[f.File]
		}
		return out, nil
	}
	return nil, errors.New("unknown font")
}

func m01Map(cfg int, db []m01Font) *fcfonts.FontMap {
	out := fcfonts.NewFontMap(m01Config(cfg), m01Database(db))
	out.SetFaceLoader(&m01Loader{db, map[string]tt.TableFvar{}})
	return out
}

func (r m01Req) desc() pango.FontDescription {
	d := pango.NewFontDescription()
	if r.Fam != "" {
		d.SetFamily(r.Fam)
	}
	d.SetStyle(pango.Style(r.Style))
	d.SetWeight(pango.Weight(r.Weight))
	d.SetStretch(pango.Stretch(r.Stretch))
	d.SetVariant(pango.Variant(r.Variant))
	if r.Abs {
		d.SetAbsoluteSize(int32(r.Size))
	} else {
		d.SetSize(int32(r.Size))
	}
	if r.Grav >= 0 {
		d.SetGravity(pango.Gravity(r.Grav))
	}
	if r.Vars != "" {
		d.SetVariations(r.Vars)
	}
	return d
}

func (r m01Req) context(fm *fcfonts.FontMap) *pango.Context {
	ctx := pango.NewContext(fm)
	ctx.SetLanguage(pango.Language(r.Lang))
	if r.Mat != [4]int{100, 0, 0, 100} {
		ctx.Matrix = &pango.Matrix{Xx: float32(r.Mat[0]) / 100, Xy: float32(r.Mat[1]) / 100, Yx: float32(r.Mat[2]) / 100, Yy: float32(r.Mat[3]) / 100}
	}
	return ctx
}

// m01Fonts gives the first n fonts
func m01Fonts(fm *fcfonts.FontMap, r m01Req, n int) []*fcfonts.Font {
	ctx := r.context(fm)
	d := r.desc()
	fs := fm.LoadFontset(ctx, &d, pango.Language(r.Lang))
	out := []*fcfonts.Font{}
	fs.Foreach(func(f pango.Font) bool {
		out = append(out, f.(*fcfonts.Font))
		return len(out) >= n
	})
	return out
}

var m01Probe = []rune{'a', 'b', 'c', 0xe9, 0x5d0, 0x628, 0x3042, 0x3b1, ' '}

func m01Int(f float32) int { return int(math.Round(float64(f))) }

// m01Obs is all that a font shows
func m01Obs(f *fcfonts.Font) J {
	out := J{"file": f.FaceID().File, "inst": int(f.FaceID().Instance), "desc": f.Describe(false).String(), "adesc": f.Describe(true).String()}
	feats := []string{}
	for _, x := range f.GetFeatures() {
		feats = append(feats, fmt.Sprint(x.Tag.String(), "=", x.Value))
	}
	out["feats"] = feats
	cov, has, ext := []bool{}, []bool{}, []int{}
	hb := f.GetHarfbuzzFont()
	for _, r := range m01Probe {
		cov = append(cov, f.GetCoverage("").Get(r))
		_, ok := hb.Face().NominalGlyph(r)
		has = append(has, ok)
		var ink, log pango.Rectangle
		f.GlyphExtents(pango.Glyph(r), &ink, &log)
		ext = append(ext, int(ink.X), int(ink.Y), int(ink.Width), int(ink.Height), int(log.X), int(log.Y), int(log.Width), int(log.Height))
	}
	out["cov"], out["has"], out["ext"] = cov, has, ext
	out["xs"], out["ys"], out["pt"] = int(hb.XScale), int(hb.YScale), m01Int(hb.Ptem*1024)
	coords := []int{}
	for _, x := range hb.Face().(*m01Face).coords {
		coords = append(coords, m01Int(x))
	}
	out["coords"] = coords
	return out
}

func m01Metrics(m pango.FontMetrics) []int {
	return []int{int(m.Ascent), int(m.Descent), int(m.Height), int(m.ApproximateCharWidth), int(m.ApproximateDigitWidth), int(m.UnderlinePosition), int(m.StrikethroughPosition)}
}

func m01NewLayout(fm *fcfonts.FontMap, r m01Req, text []int) *pango.Layout {
	l := pango.NewLayout(r.context(fm))
	d := r.desc()
	l.SetFontDescription(&d)
	l.SetRunes(runesOf(text))
	return l
}

func m01Layout(l *pango.Layout) string {
	var b strings.Builder
	for _, line := range l.GetLinesReadonly() {
		for r := line.Runs; r != nil; r = r.Next {
			it := r.Data.Item
			fmt.Fprint(&b, it.Offset, "+", it.Length, " ")
			if f, ok := it.Analysis.Font.(*fcfonts.Font); ok {
				fmt.Fprint(&b, f.FaceID(), " ", f.Describe(true).String())
			}
			for _, g := range r.Data.Glyphs.Glyphs {
				fmt.Fprint(&b, " ", g.Glyph, ":", g.Geometry.Width)
			}
			b.WriteString("; ")
		}
	}
	var ink, log pango.Rectangle
	l.GetExtents(&ink, &log)
	fmt.Fprint(&b, ink, log)
	return b.String()
}

func m01Exec(raw json.RawMessage, obs func(interface{})) {
	var in m01In
	dec(raw, &in)
	cfg, db := in.Cfg, in.Dbs[0]
	fm := m01Map(cfg, db)
	layouts := map[int]*pango.Layout{}
	ids := map[*fcfonts.Font]int{}
	alive := []*fcfonts.Font{}
	id := func(f *fcfonts.Font) int {
		if ids[f] == 0 {
			ids[f] = len(ids) + 1
			alive = append(alive, f) // so that no address is used twice
		}
		return ids[f]
	}
	for _, op := range in.Ops {
		o := J{"ids": []int{}, "got": []J{}, "want": []J{}, "more": "", "wantmore": "", "serial": 0, "met": []int{}, "wantmet": []int{}}
		switch op.Op {
		case "config":
			cfg, db = op.Cfg, in.Dbs[op.D-1]
			fm.SetFaceLoader(&m01Loader{db, map[string]tt.TableFvar{}})
			fm.SetConfig(m01Config(cfg), m01Database(db))
		case "fonts", "metrics", "font":
			r := in.Reqs[op.Q-1]
			get := func(fm *fcfonts.FontMap) []*fcfonts.Font {
				if op.Op == "font" {
					d := r.desc()
					f := pango.LoadFont(fm, r.context(fm), &d)
					if f == nil {
						return nil
					}
					return []*fcfonts.Font{f.(*fcfonts.Font)}
				}
				return m01Fonts(fm, r, op.N)
			}
			got, want := get(fm), get(m01Map(cfg, db))
			l1, l2 := []int{}, []J{}
			l3 := []J{}
			for _, f := range got {
				l1 = append(l1, id(f))
				l2 = append(l2, m01Obs(f))
			}
			for _, f := range want {
				l3 = append(l3, m01Obs(f))
			}
			o["ids"], o["got"], o["want"] = l1, l2, l3
			if op.Op == "metrics" && len(got) != 0 && len(want) != 0 {
				o["met"] = m01Metrics(got[len(got)-1].GetMetrics(pango.Language(op.Lang)))
				o["wantmet"] = m01Metrics(want[len(want)-1].GetMetrics(pango.Language(op.Lang)))
			}
		case "layout":
			r := in.Reqs[op.Q-1]
			if len(m01Fonts(m01Map(cfg, db), r, 1)) == 0 {
				break // nothing can be drawn
			}
			if layouts[op.Q] == nil {
				layouts[op.Q] = m01NewLayout(fm, r, in.Text)
			}
			o["more"] = m01Layout(layouts[op.Q])
			o["wantmore"] = m01Layout(m01NewLayout(m01Map(cfg, db), r, in.Text))
		}
		o["serial"] = int(fm.GetSerial())
		obs(o)
	}
}

var m01Dbs = [][]m01Font{
	{{File: "a", Fam: "Alpha", Weight: 80, Width: 100, Cov: "latin", Langs: []string{"en", "fr"}}, {File: "b", Fam: "Beta", Weight: 80, Width: 100, Cov: "latin", Langs: []string{"en"}, Bad: true},
		{File: "c", Fam: "Gamma", Weight: 200, Width: 100, Cov: "all", Langs: []string{"en", "ja", "he"}}},
	{{File: "c", Fam: "Gamma", Weight: 80, Width: 100, Cov: "cjk", Langs: []string{"ja"}}, {File: "a", Fam: "Alpha", Weight: 80, Slant: 100, Width: 75, Cov: "latin", Langs: []string{"en"}, Axes: true}},
	{},
}

func m01Fix(ops []m01Op) []m01Op {
	out := append([]m01Op{}, ops...)
	for i := range out {
		if out[i].D == 0 {
			out[i].D = 1
		}
	}
	return out
}

func (g *G) m01Db() []m01Font {
	out := []m01Font{}
	for n := 1 + g.Intn(6); n > 0; n-- {
		f := m01Font{File: string(rune('a' + len(out))), Fam: pick(g, "Alpha", "Beta", "Gamma", "Delta"), Slant: pickInt(g, 0, 0, 100, 110), Weight: pickInt(g, 80, 80, 50, 200),
			Width: pickInt(g, 100, 100, 75, 125), Cov: pick(g, "latin", "latin", "hebrew", "cjk", "all", "half", "greek", "arabic", "deva"), Axes: g.Intn(3) == 0, Bad: g.Intn(6) == 0, Langs: []string{}}
		for _, l := range []string{"en", "fr", "he", "ja", "ar", "el"} {
			if g.Intn(3) == 0 {
				f.Langs = append(f.Langs, l)
			}
		}
		if f.Axes {
			f.Inst = g.Intn(3)
		}
		out = append(out, f)
		// several faces of a family, instances of a file
		if g.Intn(3) == 0 {
			h := f
			h.Weight, h.Slant = pickInt(g, 80, 200), pickInt(g, 0, 100)
			if f.Axes && g.Intn(2) == 0 {
				h.Inst = (f.Inst + 1) % 3
			} else {
				h.File = string(rune('a' + len(out)))
			}
			out = append(out, h)
		}
	}
	return out
}

func (g *G) m01Req() m01Req {
	r := m01Req{Fam: pick(g, "Alpha", "Beta", "Gamma", "Sans", "Alpha,Beta", "alpha", "Delta", ""), Style: pickInt(g, 0, 0, 1, 2), Weight: pickInt(g, 400, 400, 700, 300), Stretch: pickInt(g, 4, 4, 2, 6),
		Size: pickInt(g, 768, 12288, 12288, 9984), Abs: g.Intn(4) == 0, Grav: pickInt(g, -1, -1, -1, 0, 1, 2, 3), Vars: pick(g, "", "", "", "wght=700", "wght=250", "wdth=80"),
		Lang: pick(g, "en", "en", "fr", "ja", "he"), Mat: [4]int{100, 0, 0, 100}}
	if g.Intn(3) == 0 {
		r.Variant = g.Intn(7)
	}
	switch g.Intn(8) {
	case 0:
		r.Mat = [4]int{200, 0, 0, 200}
	case 1:
		r.Mat = [4]int{0, -100, 100, 0}
	case 2:
		r.Mat = [4]int{200, 0, 0, 100}
	case 3:
		r.Mat = [4]int{50, 0, 0, 50}
	}
	return r
}

// m01Near changes one thing of a request
func (g *G) m01Near(r m01Req) m01Req {
	x := g.m01Req()
	switch g.Intn(11) {
	case 0:
		r.Fam = x.Fam
	case 1:
		r.Style = (r.Style + 1) % 3
	case 2:
		r.Weight = 1100 - r.Weight
	case 3:
		r.Stretch = 6 - r.Stretch%3
	case 4:
		r.Variant = (r.Variant + 1 + g.Intn(5)) % 7
	case 5:
		r.Size += 768
	case 6:
		r.Abs = !r.Abs
	case 7:
		r.Grav = (r.Grav+2)%5 - 1
	case 8:
		r.Vars = map[string]string{"": "wght=700", "wght=700": "wght=250", "wght=250": "wdth=80", "wdth=80": ""}[r.Vars]
	case 9:
		r.Lang = map[string]string{"en": "fr", "fr": "ja", "ja": "he", "he": "en"}[r.Lang]
	case 10:
		if r.Mat[0] == 100 {
			r.Mat = [4]int{0, -100, 100, 0}
		} else {
			r.Mat = [4]int{100, 0, 0, 100}
		}
	}
	return r
}

func m01Gen(g *G) {
	text := []int{'a', 0x5d0, ' ', 0x3042, 'b', 0x3b1, 0xe000}
	base := m01Req{Fam: "Alpha", Weight: 400, Stretch: 4, Size: 12288, Grav: -1, Lang: "en", Mat: [4]int{100, 0, 0, 100}}
	turned, other := base, base
	turned.Mat = [4]int{0, -100, 100, 0}
	other.Fam = "Gamma"
	for i, h := range g.Hist {
		if i%g.N(4, 1) != 0 {
			continue
		}
		var ops []m01Op
		dec(h, &ops)
		ops = append(m01Fix(ops), m01Op{Op: "fonts", Q: 2, N: 9, D: 1}, m01Op{Op: "layout", Q: 1, D: 1}, m01Op{Op: "fonts", Q: 1, N: 9, D: 1}, m01Op{Op: "metrics", Q: 1, N: 1, Lang: "ja", D: 1})
		g.Emit(m01In{Reqs: []m01Req{base, turned, other}, Dbs: m01Dbs, Ops: ops, Text: text}, true)
	}
	// metrics which need those of the default language
	for i := 0; i < g.N(40, 400); i++ {
		in := m01In{Reqs: []m01Req{base, g.m01Near(base)}, Dbs: [][]m01Font{m01Dbs[0][:1]}, Text: text, Ops: []m01Op{}}
		if i%2 == 1 {
			in.Dbs[0] = g.m01Db()[:1]
			in.Dbs[0][0].Cov, in.Dbs[0][0].Bad = "deva", false
		}
		for n := 0; n < 5; n++ {
			in.Ops = append(in.Ops, m01Op{Op: "metrics", Q: pickInt(g, 1, 1, 2), N: 1, Lang: pick(g, "", "ja", "he", "hi", "hi"), D: 1})
		}
		g.Emit(in, true)
	}
	for n := g.N(1500, 15000); n > 0; n-- {
		in := m01In{Cfg: g.Intn(len(m01Configs)), Text: []int{}}
		for k := 1 + g.Intn(6); k > 0; k-- {
			in.Text = append(in.Text, text[g.Intn(len(text))])
		}
		for k := 1 + g.Intn(3); k > 0; k-- {
			in.Dbs = append(in.Dbs, g.m01Db())
		}
		r := g.m01Req()
		in.Reqs = append(in.Reqs, r)
		for k := g.Intn(4); k > 0; k-- {
			if g.Intn(3) == 0 {
				r = g.m01Req()
			} else {
				r = g.m01Near(r)
			}
			in.Reqs = append(in.Reqs, r)
		}
		cfg := in.Cfg
		for k := 3 + g.Intn(8); k > 0; k-- {
			op := m01Op{Op: pick(g, "fonts", "fonts", "fonts", "metrics", "metrics", "font", "layout", "layout", "config"), Q: 1 + g.Intn(len(in.Reqs)), N: pickInt(g, 1, 2, 3, 9), Lang: pick(g, "", "en", "ja", "he", "ar", "hi"), D: 1, Cfg: 0}
			if op.Op == "config" {
				op.D, op.Cfg = 1+g.Intn(len(in.Dbs)), pickInt(g, cfg, g.Intn(len(m01Configs)))
				cfg = op.Cfg
			}
			in.Ops = append(in.Ops, op)
		}
		g.Emit(in, true)
	}
}
