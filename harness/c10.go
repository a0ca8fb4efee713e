package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"html"
	"os"
	"path/filepath"
	"sort"
	"strings"

	fc "github.com/benoitkugler/textprocessing/fontconfig"
)

// files of a tree: the paths start with /R, which stands for a scratch directory
type scanEntry struct {
	Path CS     `json:"path"`
	Rep  CS     `json:"rep"`  // the file reached (the target of a link)
	Font string `json:"font"` // name of the content
	Link bool   `json:"link"`
	Cont string `json:"cont"` // content written, when it is not a font; "dangling" and "dir" for links
}

type c10In struct {
	Tree     []scanEntry        `json:"tree"`
	Dirs     []CS               `json:"dirs"`  // cleaned
	Given    []CS               `json:"given"` // as given to the scan
	Missing  bool               `json:"missing"`
	GA       []CS               `json:"ga"`
	GR       []CS               `json:"gr"`
	PA       []Pat              `json:"pa"`
	PR       []Pat              `json:"pr"`
	Rules    []RuleJ            `json:"rules"`
	Split    int                `json:"split"` // documents of selectfont
	Base     map[string][]Pat   `json:"base"`
	Families map[string][][]int `json:"families"`
}

var scanFonts = map[string]string{"cmap": "cmapTest.ttf", "cff": "CFFTest.otf", "ahem": "weasyprint.otf", "pcf": "8x16.pcf", "three": "three.ttc"}
var scanFontNames = []string{"cmap", "cff", "ahem", "pcf", "three"}
var scanObjs = map[string]bool{"family": true, "style": true, "weight": true, "slant": true, "width": true, "foundry": true, "index": true, "variable": true,
	"scalable": true, "spacing": true, "fontformat": true, "pixelsize": true, "antialias": true, "postscriptname": true, "file": true}

func fontPath(name string) string {
	wd, _ := os.Executable()
	for d := filepath.Dir(wd); ; d = filepath.Dir(d) {
		p := filepath.Join(d, "fonts", name)
		if _, err := os.Stat(p); err == nil {
			return p
		}
		if d == "/" {
			panic("no font " + name)
		}
	}
}

var fontBytesCache = map[string][]byte{}

func fontBytes(name string) []byte {
	if b, ok := fontBytesCache[name]; ok {
		return b
	}
	b, err := os.ReadFile(fontPath(scanFonts[name]))
	if err != nil {
		panic(err)
	}
	fontBytesCache[name] = b
	return b
}

func scanned(set fc.Fontset, root string) []Pat {
	out := []Pat{}
	for _, p := range set {
		q := Pat{}
		for _, e := range patCode(p) {
			if !scanObjs[e.O] {
				continue
			}
			if e.O == "file" && root != "" {
				for i := range e.V {
					e.V[i] = VS(strings.Replace(uncodes(e.V[i][1]), root, "/R", 1))
				}
			}
			e.B = nil
			q = append(q, e)
		}
		out = append(out, q)
	}
	return out
}

// the faces of a content, read without any rule
func baseFaces(name string) []Pat {
	set, err := fc.NewConfig().ScanFontRessource(bytes.NewReader(fontBytes(name)), "x")
	if err != nil {
		panic(err)
	}
	out := scanned(set, "")
	for i, p := range out {
		q := Pat{}
		for _, e := range p {
			if e.O != "file" {
				q = append(q, e)
			}
		}
		out[i] = q
	}
	return out
}

func baseFamilies(name string) [][]int {
	dir, err := os.MkdirTemp("", "vf")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	os.WriteFile(filepath.Join(dir, scanFonts[name]), fontBytes(name), 0o644)
	ds, err := fc.PartialScanFontDirectories(dir)
	if err != nil {
		panic(err)
	}
	out := [][]int{}
	for _, d := range ds {
		out = append(out, codes(d.Family))
	}
	return out
}

func (in *c10In) finish(bases map[string][]Pat, fams map[string][][]int) {
	in.Base, in.Families = map[string][]Pat{}, map[string][][]int{}
	for _, e := range in.Tree {
		if e.Font != "" {
			in.Base[e.Font], in.Families[e.Font] = bases[e.Font], fams[e.Font]
		}
	}
	if len(in.Base) == 0 { // not an empty JSON object
		in.Base["cmap"], in.Families["cmap"] = bases["cmap"], fams["cmap"]
	}
	// walking order: names compared level by level
	sort.SliceStable(in.Tree, func(i, j int) bool {
		a, b := strings.Split(string(in.Tree[i].Path), "/"), strings.Split(string(in.Tree[j].Path), "/")
		for k := 0; k < len(a) && k < len(b); k++ {
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return len(a) < len(b)
	})
	for _, d := range in.Given {
		in.Dirs = append(in.Dirs, CS(filepath.Clean(string(d))))
	}
}

func patXML(p Pat) string {
	s := "<pattern>"
	for _, e := range p {
		s += `<patelt name="` + e.O + `">`
		for _, v := range e.V {
			s += litXML(v)
		}
		s += "</patelt>"
	}
	return s + "</pattern>"
}

func c10Case(g *G) c10In {
	in := c10In{GA: []CS{}, GR: []CS{}, PA: []Pat{}, PR: []Pat{}, Rules: []RuleJ{}, Split: 1 + g.Intn(3)}
	dirs := []string{"/R", "/R/q", "/R/q/w", "/R/q/w/v", "/R/k", "/R/k/w"}
	names := []string{"x.ttf", "y.otf", "zz.ttf", "x.pcf", "xx.ttc", ".h.ttf", "x.afm", "y.enc.gz", "z.dir", "fonts.scale", "noext", "x.alias", "x.pfm", "gz.TTF", "xafm"}
	seen := map[string]bool{}
	for i := 1 + g.Intn(5); i > 0; i-- {
		p := dirs[g.Intn(len(dirs))] + "/" + names[g.Intn(len(names))]
		if seen[p] {
			continue
		}
		seen[p] = true
		e := scanEntry{Path: CS(p), Rep: CS(p), Font: scanFontNames[g.Intn(len(scanFontNames))]}
		switch g.Intn(10) {
		case 0:
			e.Font, e.Cont = "", pick(g, "", "not a font", "<svg/>")
		case 1, 2:
			if len(in.Tree) > 0 {
				t := in.Tree[g.Intn(len(in.Tree))]
				if !t.Link {
					e.Rep, e.Font, e.Link, e.Cont = t.Path, t.Font, true, ""
				}
			}
		case 3:
			if g.Intn(2) == 0 {
				e.Rep, e.Font, e.Link, e.Cont = "/R/missing.ttf", "", true, "dangling"
			} else {
				e.Rep, e.Font, e.Link, e.Cont = CS(dirs[g.Intn(len(dirs))]), "", true, "dir"
			}
		}
		in.Tree = append(in.Tree, e)
	}
	for i := 1 + g.Intn(3); i > 0; i-- {
		d := dirs[g.Intn(len(dirs))]
		if g.Intn(2) == 0 {
			d = "/R"
		}
		switch g.Intn(8) {
		case 0:
			d += "/"
		case 1:
			d += "/."
		case 2:
			d = strings.Replace(d, "/R", "/R//q/..", 1)
		}
		in.Given = append(in.Given, CS(d))
	}
	if g.Intn(30) == 0 {
		in.Given = append(in.Given, "/R/absent")
		in.Missing = true
	}
	globs := []string{"*", "*.ttf", "*.TTF", "*/w/*", "/R/q/*", "/R/*/x.???", "*x*", "/R/q?x.ttf", "/R/?/?/*", "*z.ttf", "/R/k", "*/q/w/*.p?f", "/R/q/w/x.ttf", "", "*x?ttf", "*/x.*f"}
	pats := func() Pat {
		p := Pat{}
		for i := g.Intn(3); i > 0; i-- {
			var e Elt
			switch g.Intn(7) {
			case 0, 1:
				e = Elt{O: "family", V: []Val{VS(pick(g, "Ahem", "ahem", "WeasyPrint", "cmapTest", "CFF Test", "Sony Fixed", "no", "edited"))}}
				if g.Intn(3) == 0 {
					e.V = append(e.V, VS(pick(g, "Ahem", "WeasyPrint")))
				}
			case 2:
				e = Elt{O: "weight", V: []Val{[]Val{VI(80), VF(80), VI(200), VR(60, 100)}[g.Intn(4)]}}
			case 3:
				e = Elt{O: "slant", V: []Val{VI([]int{0, 100, 110}[g.Intn(3)])}}
			case 4:
				e = Elt{O: "scalable", V: []Val{VB(g.Intn(3))}}
			case 5:
				e = Elt{O: "fontformat", V: []Val{VS(pick(g, "TrueType", "PCF", "truetype"))}}
			case 6:
				e = Elt{O: "index", V: []Val{VI(g.Intn(3))}}
			}
			if p.get(e.O) == nil {
				p = append(p, e)
			}
		}
		return p
	}
	n := []int{0, 0, 1, 2}
	for i := n[g.Intn(4)]; i > 0; i-- {
		in.GA = append(in.GA, CS(pick(g, globs...)))
	}
	for i := n[g.Intn(4)]; i > 0; i-- {
		in.GR = append(in.GR, CS(pick(g, globs...)))
	}
	for i := n[g.Intn(4)]; i > 0; i-- {
		in.PA = append(in.PA, pats())
	}
	for i := n[g.Intn(4)]; i > 0; i-- {
		in.PR = append(in.PR, pats())
	}
	if g.Intn(3) == 0 { // scan rules change what the selection sees
		fam := lit(VS(pick(g, "Ahem", "cmapTest", "Sony Fixed", "CFFTest")))
		for i := 1 + g.Intn(2); i > 0; i-- {
			r := RuleJ{Kind: "scan", Tests: []TestJ{{Name: "family", Tgt: "default", Qual: pick(g, "any", "all", "first"), Cmp: pick(g, "eq", "not_eq"), E: fam}}, Edits: []EditJ{}}
			switch g.Intn(3) {
			case 0:
				r.Edits = append(r.Edits, EditJ{Name: "family", Mode: pick(g, "assign", "prepend", "append", "assign_replace"), Es: []Expr{lit(VS("edited"))}})
			case 1:
				r.Edits = append(r.Edits, EditJ{Name: "weight", Mode: pick(g, "assign", "append"), Es: []Expr{lit(VI(200))}})
			case 2:
				r.Edits = append(r.Edits, EditJ{Name: "slant", Mode: pick(g, "assign", "append_last"), Es: []Expr{lit(VI(110))}})
			}
			in.Rules = append(in.Rules, r)
		}
	}
	return in
}

func init() {
	props["C10"] = &Prop{
		Gen: func(g *G) {
			bases, fams := map[string][]Pat{}, map[string][][]int{}
			for _, n := range scanFontNames {
				bases[n], fams[n] = baseFaces(n), baseFamilies(n)
			}
			fromHist := func(l []mpat, font bool) []Pat {
				out := []Pat{}
				for _, m := range l {
					p, _ := fromModel(m)
					for i := range p {
						if p[i].O == "family" { // the names of the model
							p[i].V[0] = VS(map[string]string{"a": "Ahem", "c": "cmapTest"}[uncodes(p[i].V[0][1])])
						}
					}
					out = append(out, p)
				}
				return out
			}
			step := g.N(4, 1)
			for i, h := range g.Hist {
				if (i+int(g.Seed))%step != 0 {
					continue
				}
				var m struct {
					Dirs, Ga, Gr []CS
					Pa, Pr       []mpat
				}
				dec(h, &m)
				e := func(p, f string) scanEntry { return scanEntry{Path: CS(p), Rep: CS(p), Font: f} }
				in := c10In{Tree: []scanEntry{e("/R/c/x.t", "cmap"), e("/R/q/b/y.t", "ahem"), e("/R/q/b/z.t", "three"), e("/R/q/x.t", "ahem"), e("/R/z.t", "")},
					Given: m.Dirs, GA: append([]CS{}, m.Ga...), GR: append([]CS{}, m.Gr...), PA: fromHist(m.Pa, true), PR: fromHist(m.Pr, true), Rules: []RuleJ{}, Split: 1}
				in.finish(bases, fams)
				g.Emit(in, true)
				g.Tag("directories and selectors from the model")
			}
			for n := g.N(4000, 40000); n > 0; n-- {
				in := c10Case(g)
				in.finish(bases, fams)
				g.Emit(in, len(in.Tree) > 1)
				g.Tag(fmt.Sprintf("random tree of %d entries", len(in.Tree)))
			}
		},
		Exec: func(raw json.RawMessage, obs func(interface{})) {
			var in c10In
			dec(raw, &in)
			root, err := os.MkdirTemp("", "vf")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(root)
			real := func(p CS) string { return strings.Replace(string(p), "/R", root, 1) }
			for _, d := range []string{"/R/q/w/v", "/R/k/w", "/R/q/b", "/R/c"} {
				os.MkdirAll(real(CS(d)), 0o755)
			}
			for _, e := range in.Tree {
				p := real(e.Path)
				switch {
				case e.Link:
					err = os.Symlink(real(e.Rep), p)
				case e.Font != "":
					err = os.WriteFile(p, fontBytes(e.Font), 0o644)
				default:
					err = os.WriteFile(p, []byte(e.Cont), 0o644)
				}
				if err != nil {
					panic("scratch: " + err.Error())
				}
			}
			cfg := newConfig()
			var items []string
			sel := func(el string, globs []CS, pats []Pat) {
				for _, x := range globs {
					items = append(items, "<"+el+"><glob>"+html.EscapeString(real(x))+"</glob></"+el+">")
				}
				for _, x := range pats {
					items = append(items, "<"+el+">"+patXML(x)+"</"+el+">")
				}
			}
			sel("acceptfont", in.GA, in.PA)
			sel("rejectfont", in.GR, in.PR)
			for k := 0; k < in.Split; k++ { // selectors spread over several sources
				s := ""
				for i, it := range items {
					if i%in.Split == k {
						s += it
					}
				}
				if err := cfg.LoadFromMemory(strings.NewReader(docXML("<selectfont>" + s + "</selectfont>"))); err != nil {
					panic("load: " + err.Error())
				}
			}
			if err := loadRules(cfg, in.Rules); err != nil {
				panic("load: " + err.Error())
			}
			var dirs []string
			for _, d := range in.Given {
				dirs = append(dirs, real(d))
			}
			set, err := cfg.ScanFontDirectories(dirs...)
			obs(J{"what": "dirs", "err": err != nil, "fonts": scanned(set, root)})
			ds, err := fc.PartialScanFontDirectories(dirs...)
			fams := [][]int{}
			for _, d := range ds {
				fams = append(fams, codes(d.Family))
			}
			obs(J{"what": "partial", "err": err != nil, "families": fams})
			for _, e := range in.Tree {
				if e.Link {
					continue
				}
				set, err := cfg.ScanFontFile(real(e.Path))
				obs(J{"what": "file", "font": e.Font, "path": e.Path, "err": err != nil, "fonts": scanned(set, root)})
				b := []byte(e.Cont)
				if e.Font != "" {
					b = fontBytes(e.Font)
				}
				set, err = cfg.ScanFontRessource(bytes.NewReader(b), "id:"+e.Font)
				obs(J{"what": "memory", "font": e.Font, "path": CS("id:" + e.Font), "err": err != nil, "fonts": scanned(set, root)})
			}
		},
	}
}
