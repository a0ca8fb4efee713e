package main

// A font map with synthetic fonts: coverage, advances and extents are simple functions of the
// character, and every request made to the map is recorded.

import (
	"fmt"
	"strings"
	"unicode"

	"github.com/benoitkugler/textlayout/fonts"
	tt "github.com/benoitkugler/textlayout/fonts/truetype"
	"github.com/benoitkugler/textlayout/harfbuzz"
	"github.com/benoitkugler/textprocessing/pango"
)

func inRange(r rune, lims ...rune) bool {
	for i := 0; i+1 < len(lims); i += 2 {
		if lims[i] <= r && r <= lims[i+1] {
			return true
		}
	}
	return false
}

var pFamilies = map[string]func(r rune) bool{
	"latin": func(r rune) bool {
		return inRange(r, 0x20, 0x7E, 0xA0, 0x24F, 0x300, 0x36F, 0x2000, 0x2064, 0x1E00, 0x1EFF)
	},
	"hebrew": func(r rune) bool { return inRange(r, 0x20, 0x40, 0x590, 0x5FF, 0x200E, 0x200F) },
	"arabic": func(r rune) bool { return inRange(r, 0x20, 0x2F, 0x600, 0x6FF, 0x200C, 0x200F) },
	"cjk": func(r rune) bool {
		return inRange(r, 0x20, 0x20, 0x2E80, 0x9FFF, 0xAC00, 0xD7A3, 0xFF00, 0xFFEF, 0x1100, 0x11FF)
	},
	"half":  func(r rune) bool { return r == ' ' || (inRange(r, 0x21, 0x7E) && r%2 == 0) },
	"third": func(r rune) bool { return inRange(r, 0x21, 0x7E, 0x3B1, 0x3C9) && r%3 == 0 },
	"emoji": func(r rune) bool { return inRange(r, 0x1F000, 0x1FAFF, 0x200D, 0x200D, 0xFE0F, 0xFE0F, 0x2600, 0x27BF) },
	"greek": func(r rune) bool { return inRange(r, 0x20, 0x20, 0x370, 0x3FF, 0x1F00, 0x1FFF) },
	"rich": func(r rune) bool {
		return inRange(r, 0x20, 0x7E, 0xA0, 0x24F, 0x300, 0x36F, 0x2000, 0x2064, 0x590, 0x5FF, 0x600, 0x6FF, 0x1E00, 0x1EFF, 0xFB00, 0xFB06)
	},
	"smcp": func(r rune) bool { return inRange(r, 0x20, 0x7E, 0xA0, 0x24F) },
	"all":  func(r rune) bool { return r < 0xE000 || r > 0xE0FF },
}

const pUpem = 1024

// advance in font units
func pAdvance(fam string, r rune) int {
	switch {
	case fam == "even":
		return 512
	case r > 0x10FFFF:
		return 900
	case unicode.In(r, unicode.Mn, unicode.Me, unicode.Cf) || inRange(r, 0xFE00, 0xFE0F):
		return 0
	case r == ' ' || r == 0xA0:
		return 384
	case inRange(r, 0x2E80, 0x9FFF, 0xAC00, 0xD7A3, 0x1F000, 0x1FAFF):
		return 1024
	}
	return 384 + 64*(int(r)%8) + 32*(len(fam)%3)
}

type pFace struct {
	fam string
	cov func(r rune) bool
}

func (f *pFace) Cmap() (fonts.Cmap, fonts.CmapEncoding) { return fonts.CmapSimple{}, fonts.EncUnicode }
func (f *pFace) PostscriptInfo() (fonts.PSInfo, bool)   { return fonts.PSInfo{}, false }
func (f *pFace) PoscriptName() string                   { return f.fam }
func (f *pFace) LoadSummary() (fonts.FontSummary, error) {
	return fonts.FontSummary{Familly: f.fam}, nil
}
func (f *pFace) LoadBitmaps() []fonts.BitmapSize { return nil }
func (f *pFace) Upem() uint16                    { return pUpem }
func (f *pFace) GlyphName(gid fonts.GID) string  { return "" }
func (f *pFace) LineMetric(m fonts.LineMetric) (float32, bool) {
	if f.fam == "rich" {
		switch m {
		case fonts.SuperscriptEmYSize, fonts.SubscriptEmYSize:
			return 512, true
		case fonts.CapHeight:
			return 768, true
		case fonts.XHeight:
			return 576, true
		case fonts.SuperscriptEmXOffset, fonts.SubscriptEmYOffset:
			return 256, true
		}
	}
	return 0, false
}
func (f *pFace) FontHExtents() (fonts.FontExtents, bool) {
	return fonts.FontExtents{Ascender: 768, Descender: -256}, true
}
func (f *pFace) FontVExtents() (fonts.FontExtents, bool) {
	return fonts.FontExtents{Ascender: 512, Descender: -512}, true
}
func (f *pFace) NominalGlyph(ch rune) (fonts.GID, bool) {
	if f.cov(ch) {
		return fonts.GID(ch), true
	}
	return 0, false
}
func (f *pFace) HorizontalAdvance(gid fonts.GID) float32 { return float32(pAdvance(f.fam, rune(gid))) }
func (f *pFace) VerticalAdvance(gid fonts.GID) float32 {
	if pAdvance(f.fam, rune(gid)) == 0 {
		return 0
	}
	return -1024
}
func (f *pFace) GlyphHOrigin(fonts.GID) (x, y int32, found bool) { return 0, 0, true }
func (f *pFace) GlyphVOrigin(fonts.GID) (x, y int32, found bool) { return 512, 768, true }
func (f *pFace) GlyphExtents(gid fonts.GID, xp, yp uint16) (fonts.GlyphExtents, bool) {
	w := pAdvance(f.fam, rune(gid))
	if w == 0 || gid == ' ' {
		return fonts.GlyphExtents{}, true
	}
	return fonts.GlyphExtents{XBearing: 32, YBearing: 640, Width: float32(w - 64), Height: -640}, true
}
func (f *pFace) GlyphData(gid fonts.GID, xp, yp uint16) fonts.GlyphData { return fonts.GlyphOutline{} }

// pRich is shaped with the OpenType shaper: marks compose with their base, and a ligature table
// turns "fi", "ffi", "lam alef" in one glyph.
type pRich struct {
	pFace
	smcp bool
}

func (f *pRich) Variations() tt.TableFvar                  { return tt.TableFvar{} }
func (f *pRich) SetVarCoordinates(coords []float32)        {}
func (f *pRich) VarCoordinates() []float32                 { return nil }
func (f *pRich) NormalizeVariations(c []float32) []float32 { return c }
func (f *pRich) IsGraphite() (*tt.Font, bool)              { return nil, false }
func (f *pRich) GetGlyphContourPoint(fonts.GID, uint16) (x, y int32, ok bool) {
	return 0, 0, false
}
func (f *pRich) VariationGlyph(ch, sel rune) (fonts.GID, bool) { return 0, false }
func (f *pRich) LayoutTables() tt.LayoutTables {
	var out tt.LayoutTables
	liga := tt.LookupGSUB{Type: tt.GSUBLigature, Subtables: []tt.GSUBSubtable{{
		Coverage: tt.CoverageList{'f'},
		Data: tt.GSUBLigature1{{
			{Components: []uint16{'f', 'i'}, Glyph: 0xFB03},
			{Components: []uint16{'f'}, Glyph: 0xFB00},
			{Components: []uint16{'i'}, Glyph: 0xFB01},
		}},
	}, {
		Coverage: tt.CoverageList{0x644},
		Data:     tt.GSUBLigature1{{{Components: []uint16{0x627}, Glyph: 0xFB06}}},
	}}}
	sub := tt.LookupGSUB{Type: tt.GSUBSingle, Subtables: []tt.GSUBSubtable{{
		Coverage: tt.CoverageList{'x'},
		Data:     tt.GSUBSingle2{'X'},
	}}}
	ls := &tt.LangSys{RequiredFeatureIndex: 0xFFFF}
	if f.smcp {
		out.GSUB.Lookups = []tt.LookupGSUB{sub}
		out.GSUB.Features = []tt.FeatureRecord{{Tag: tt.MustNewTag("smcp"), Feature: tt.Feature{LookupIndices: []uint16{0}}}}
		ls.Features = []uint16{0}
	} else {
		out.GSUB.Lookups = []tt.LookupGSUB{liga}
		out.GSUB.Features = []tt.FeatureRecord{{Tag: tt.MustNewTag("liga"), Feature: tt.Feature{LookupIndices: []uint16{0}}}}
		ls.Features = []uint16{0}
	}
	out.GSUB.Scripts = []tt.Script{{Tag: tt.MustNewTag("DFLT"), DefaultLanguage: ls}}
	return out
}

type pCoverage func(r rune) bool

func (c pCoverage) Get(r rune) bool    { return c(r) }
func (c pCoverage) Set(r rune, b bool) {}

// pFont is one font of the map.
type pFont struct {
	m     *pMap
	fam   string
	desc  pango.FontDescription
	hb    *harfbuzz.Font
	lang  pango.Language
	size  int
	cover func(r rune) bool
}

func (f *pFont) FaceID() fonts.FaceID { return fonts.FaceID{File: f.fam} }
func (f *pFont) Describe(absolute bool) pango.FontDescription {
	d := f.desc
	if absolute {
		d.SetAbsoluteSize(int32(f.size))
	}
	return d
}
func (f *pFont) GetCoverage(language pango.Language) pango.Coverage { return pCoverage(f.cover) }
func (f *pFont) GetFontMap() pango.FontMap                          { return f.m }
func (f *pFont) GetFeatures() []harfbuzz.Feature                    { return nil }
func (f *pFont) GetHarfbuzzFont() *harfbuzz.Font                    { return f.hb }
func (f *pFont) units(v int) pango.Unit                             { return pango.Unit(v * f.size / pUpem) }
func (f *pFont) GetMetrics(language pango.Language) pango.FontMetrics {
	return pango.FontMetrics{
		Ascent: f.units(768), Descent: f.units(256), Height: f.units(1024),
		ApproximateCharWidth: f.units(512), ApproximateDigitWidth: f.units(512),
		UnderlinePosition: f.units(-128), UnderlineThickness: f.units(64),
		StrikethroughPosition: f.units(320), StrikethroughThickness: f.units(64),
	}
}
func (f *pFont) GlyphExtents(glyph pango.Glyph, ink, logical *pango.Rectangle) {
	w, inkW := 0, 0
	switch {
	case glyph == pango.GLYPH_EMPTY:
	case glyph&pango.GLYPH_UNKNOWN_FLAG != 0:
		w, inkW = 512, 448
	default:
		w = pAdvance(f.fam, rune(glyph))
		if w != 0 && glyph != ' ' {
			inkW = w - 64
		}
	}
	if logical != nil {
		*logical = pango.Rectangle{Y: -f.units(768), Width: f.units(w), Height: f.units(1024)}
	}
	if ink != nil {
		*ink = pango.Rectangle{}
		if inkW != 0 {
			*ink = pango.Rectangle{X: f.units(32), Y: -f.units(640), Width: f.units(inkW), Height: f.units(640)}
		}
	}
}

type pFontset struct {
	fonts []pango.Font
	lang  pango.Language
}

func (s *pFontset) GetLanguage() pango.Language { return s.lang }
func (s *pFontset) Foreach(fn pango.FontsetForeachFunc) {
	for _, f := range s.fonts {
		if fn(f) {
			return
		}
	}
}

type pRequest struct {
	Desc pango.FontDescription
	Lang pango.Language
}

// pMap is the font map.
type pMap struct {
	serial   uint
	fallback []string // families after the requested ones
	scale    int      // multiplies every size (resolution), 1 by default
	byLang   bool     // one font per language
	fontsets map[string]*pFontset
	fonts    map[string]*pFont
	requests []pRequest
}

func newPMap(fallback ...string) *pMap {
	return &pMap{serial: 1, scale: 1, fallback: fallback, fontsets: map[string]*pFontset{}, fonts: map[string]*pFont{}}
}

func (m *pMap) GetSerial() uint { return m.serial }

// reset changes the configuration of the map
func (m *pMap) reset(scale int, fallback []string) {
	m.serial++
	m.scale, m.fallback = scale, fallback
	m.fontsets, m.fonts = map[string]*pFontset{}, map[string]*pFont{}
}

func descKey(d pango.FontDescription) string {
	return fmt.Sprint(strings.ToLower(d.FamilyName), d.Style, d.Variant, int(d.Weight), d.Stretch, d.Size, d.SizeIsAbsolute, d.Gravity, d.Variations)
}

func (m *pMap) font(fam string, desc pango.FontDescription, lang pango.Language) *pFont {
	desc.SetFamily(fam)
	k := descKey(desc)
	if m.byLang {
		k += "|" + string(lang)
	}
	if f := m.fonts[k]; f != nil {
		return f
	}
	f := &pFont{m: m, fam: fam, lang: lang, desc: desc, cover: pFamilies[fam], size: int(desc.Size) * m.scale}
	if f.size <= 0 {
		f.size = 10 * pango.Scale * m.scale
		f.desc.SetSize(10 * pango.Scale)
	}
	face := pFace{fam: fam, cov: f.cover}
	switch fam {
	case "rich", "smcp":
		f.hb = harfbuzz.NewFont(&pRich{pFace: face, smcp: fam == "smcp"})
	default:
		f.hb = harfbuzz.NewFont(&face)
	}
	f.hb.XScale, f.hb.YScale = int32(f.size), int32(f.size)
	m.fonts[k] = f
	return f
}

func (m *pMap) LoadFontset(ctx *pango.Context, desc *pango.FontDescription, lang pango.Language) pango.Fontset {
	m.requests = append(m.requests, pRequest{*desc, lang})
	k := descKey(*desc) + "|" + string(lang)
	if s := m.fontsets[k]; s != nil {
		return s
	}
	s := &pFontset{lang: lang}
	seen := map[string]bool{}
	fams := append(strings.Split(strings.ToLower(desc.FamilyName), ","), m.fallback...)
	for _, fam := range fams {
		fam = strings.TrimSpace(fam)
		if pFamilies[fam] == nil || seen[fam] {
			continue
		}
		seen[fam] = true
		s.fonts = append(s.fonts, m.font(fam, *desc, lang))
	}
	m.fontsets[k] = s
	return s
}

var _ harfbuzz.FaceOpentype = (*pRich)(nil)
