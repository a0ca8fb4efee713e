package main

import (
	"encoding/json"
	"html"
	"os"
	"path/filepath"
	"sort"
	"strings"

	fc "github.com/benoitkugler/textprocessing/fontconfig"
)

type confItem struct {
	K    string `json:"k"` // rule, accept, reject
	Rule *RuleJ `json:"rule,omitempty"`
	Glob *CS    `json:"glob,omitempty"`
	Pat  *Pat   `json:"pat,omitempty"`
}

type confDoc struct {
	Bad   bool       `json:"bad"`
	How   int        `json:"how"`
	Items []confItem `json:"items"`
}

type confFile struct {
	Path string  `json:"path"`
	Name CS      `json:"name"`
	Link bool    `json:"link"`
	Doc  confDoc `json:"doc"`
}

type c12Op struct {
	Op    string     `json:"op"`
	Slot  int        `json:"slot"`
	From  int        `json:"from"`
	Doc   confDoc    `json:"doc"`
	Files []confFile `json:"files"`
}

type c12In struct {
	Ops   []c12Op          `json:"ops"`
	Probe Pat              `json:"probe"`
	Query Pat              `json:"query"`
	File  scanEntry        `json:"file"`
	Base  map[string][]Pat `json:"base"`
}

var c12Bad = []string{
	"<unknown/>",
	`<match target="pattern"><test name="slant"><int>abc</int></test><edit name="slant" mode="assign"><int>1</int></edit></match>`,
	"<include>x.conf</include>",
	`<match target="pattern"><edit name="slant" mode="wrong"><int>1</int></edit></match>`,
	`<match targett="font"><edit name="slant" mode="assign"><int>1</int></edit></match>`,
	"<selectfont><acceptfont><int>1</int></acceptfont></selectfont>",
	`<match target="pattern"><edit name="matrix" mode="assign"><matrix><double>1</double></matrix></edit></match>`,
	"</match>",
	"", // the end is missing
}

func (d confDoc) xml(real func(CS) string) string {
	var b strings.Builder
	for _, it := range d.Items {
		switch it.K {
		case "rule":
			b.WriteString(it.Rule.xml())
		default:
			s := ""
			if it.Glob != nil {
				s = "<glob>" + html.EscapeString(real(*it.Glob)) + "</glob>"
			} else {
				s = patXML(*it.Pat)
			}
			b.WriteString("<selectfont><" + it.K + "font>" + s + "</" + it.K + "font></selectfont>")
		}
	}
	s := docXML(b.String())
	if d.Bad {
		end := "</fontconfig>"
		s = strings.TrimSuffix(s, end) + c12Bad[d.How]
		if c12Bad[d.How] != "" {
			s += end
		}
	}
	return s
}

func c12Doc(g *G, n int) confDoc {
	d := confDoc{Items: []confItem{}}
	scanOK := []c04Obj{{"family", "fam"}, {"family", "fam"}, {"style", "str"}, {"slant", "int"}, {"weight", "rng"}}
	for ; n > 0; n-- {
		switch g.Intn(6) {
		case 0:
			gl := CS(pick(g, "*", "*.ttf", "/R/q/*", "/R/*/x.ttf", "/R/q/y*", "*.otf"))
			d.Items = append(d.Items, confItem{K: pick(g, "accept", "reject", "reject"), Glob: &gl})
		case 1:
			p := Pat{}
			switch g.Intn(4) {
			case 0:
				p = Pat{{O: "family", V: []Val{VS(pick(g, "Ahem", "cmapTest", "a", "b"))}}}
			case 1:
				p = Pat{{O: "slant", V: []Val{VI(100 * g.Intn(2))}}}
			case 2:
				p = Pat{{O: "weight", V: []Val{VI(80)}}}
			}
			d.Items = append(d.Items, confItem{K: pick(g, "accept", "reject", "reject"), Pat: &p})
		default:
			k := pick(g, "pattern", "pattern", "font", "scan")
			objs := c04Objs
			if k == "scan" {
				objs = scanOK
			}
			if k != "scan" && g.Intn(4) == 0 { // a value which can be shared: a character set
				r := RuleJ{Kind: k, Tests: []TestJ{}, Edits: []EditJ{{Name: "charset", Mode: pick(g, "assign", "prepend_first"), Bind: "strong", Es: []Expr{lit(VC(65, 66, 300))}}}}
				d.Items = append(d.Items, confItem{K: "rule", Rule: &r})
				continue
			}
			r := c04Rule(g, k, objs)
			d.Items = append(d.Items, confItem{K: "rule", Rule: &r})
		}
	}
	return d
}

func walkLess(x, y string) bool {
	a, b := strings.Split(x, "/"), strings.Split(y, "/")
	for k := 0; k < len(a) && k < len(b); k++ {
		if a[k] != b[k] {
			return a[k] < b[k]
		}
	}
	return len(a) < len(b)
}

func c12Files(g *G) []confFile {
	out := []confFile{}
	names := []string{"10-a.conf", "9-b.conf", "05.conf", "a10.conf", "10-a.conf.bak", "1conf", "README", "9/10-z.conf", "10-d.conf/20.conf", "zz/0.conf", "10.CONF", "-1.conf", "99-x.conf", "10-b.conf", "1.conf"}
	for _, i := range g.Perm(len(names))[:1+g.Intn(5)] {
		d := c12Doc(g, 1+g.Intn(2))
		if g.Intn(12) == 0 {
			d.Bad, d.How = true, g.Intn(len(c12Bad))
		}
		out = append(out, confFile{Path: names[i], Name: CS(filepath.Base(names[i])), Doc: d, Link: g.Intn(6) == 0})
	}
	sort.Slice(out, func(i, j int) bool { return walkLess(out[i].Path, out[j].Path) })
	return out
}

// c12Item is an item of one kind, which applies to the font of the case or not
func c12Item(g *G, kind string, hit bool, in c12In) confItem {
	switch kind {
	case "accept pattern", "reject pattern":
		p := Pat{{O: "family", V: []Val{VS(pick(g, "none", "nothing", "no"))}}}
		if hit {
			for _, pl := range in.Base[in.File.Font] {
				for _, o := range pl {
					if o.O == "family" {
						p = Pat{{O: "family", V: []Val{o.V[0]}}}
					}
				}
			}
		}
		return confItem{K: kind[:6], Pat: &p}
	case "accept glob", "reject glob":
		gl := CS(pick(g, "*.otf", "/R/q/y*", "/R/z/*"))
		if hit {
			gl = CS(pick(g, "*", "/R/q/*", "*.ttf", "/R/*/x.ttf"))
		}
		return confItem{K: kind[:6], Glob: &gl}
	}
	objs := c04Objs
	if kind == "scan" {
		objs = []c04Obj{{"family", "fam"}, {"family", "fam"}, {"style", "str"}, {"slant", "int"}, {"weight", "rng"}}
	}
	r := c04Rule(g, kind, objs)
	return confItem{K: "rule", Rule: &r}
}

func init() {
	props["C12"] = &Prop{
		Gen: func(g *G) {
			bases := map[string][]Pat{}
			for _, n := range scanFontNames {
				bases[n] = baseFaces(n)
			}
			start := func() c12In {
				in := c12In{Probe: c04Pat(g), Query: c04Pat(g)}
				f := scanFontNames[g.Intn(len(scanFontNames))]
				in.File = scanEntry{Path: "/R/q/x.ttf", Rep: "/R/q/x.ttf", Font: f}
				in.Base = map[string][]Pat{f: bases[f]}
				return in
			}
			for i, h := range g.Hist {
				if (i+int(g.Seed))%g.N(2, 1) != 0 {
					continue
				}
				var ops []struct {
					Op         string
					Slot, From int
					D          int
					Fs         []struct {
						Name CS
						D    int
					}
				}
				dec(h, &ops)
				in := start()
				docs := []confDoc{{}, c12Doc(g, 1), c12Doc(g, 1), c12Doc(g, 1)}
				doc := func(d int) confDoc {
					if d < 0 {
						x := docs[-d]
						x.Bad, x.How = true, g.Intn(len(c12Bad))
						return x
					}
					return docs[d]
				}
				for _, o := range ops {
					op := c12Op{Op: o.Op, Slot: o.Slot, From: o.From, Doc: doc(o.D), Files: []confFile{}}
					for _, f := range o.Fs {
						op.Files = append(op.Files, confFile{Path: string(f.Name), Name: f.Name, Doc: doc(f.D)})
					}
					in.Ops = append(in.Ops, op)
				}
				g.Emit(in, true)
				g.Tag("loads and copies from the model")
			}
			for n := g.N(2500, 25000); n > 0; n-- {
				in := start()
				for i := 1 + g.Intn(5); i > 0; i-- {
					op := c12Op{Op: pick(g, "load", "load", "load", "dir", "copy", "new"), Slot: 1 + g.Intn(2), Doc: confDoc{Items: []confItem{}}, Files: []confFile{}}
					op.From = 1 + g.Intn(2)
					switch op.Op {
					case "load":
						op.Doc = c12Doc(g, 1+g.Intn(3))
						if g.Intn(3) == 0 {
							op.Doc.Bad, op.Doc.How = true, g.Intn(len(c12Bad))
						}
					case "dir":
						op.Files = c12Files(g)
					}
					in.Ops = append(in.Ops, op)
				}
				g.Emit(in, len(in.Ops) > 1)
				g.Tag("random history")
			}
			// one list grows, the configuration is copied, and each of the two goes its own way
			for n := g.N(900, 9000); n > 0; n-- {
				in := start()
				kind := pick(g, "pattern", "font", "scan", "accept pattern", "reject pattern", "accept glob", "reject glob", "reject pattern", "reject glob")
				load := func(slot int, items ...confItem) {
					in.Ops = append(in.Ops, c12Op{Op: "load", Slot: slot, Doc: confDoc{Items: items}, Files: []confFile{}})
				}
				if strings.HasPrefix(kind, "accept") { // otherwise accepting changes nothing
					gl := CS("*.ttf")
					load(1, confItem{K: "reject", Glob: &gl})
				}
				first := []confItem{}
				for k := g.Intn(8); k > 0; k-- {
					first = append(first, c12Item(g, kind, g.Intn(8) == 0, in))
				}
				if g.Intn(2) == 0 {
					load(1, first...)
				} else {
					for _, it := range first {
						load(1, it)
					}
				}
				in.Ops = append(in.Ops, c12Op{Op: "copy", Slot: 2, From: 1, Doc: confDoc{Items: []confItem{}}, Files: []confFile{}})
				a := 1 + g.Intn(2)
				hit := g.Intn(2) == 0
				load(a, c12Item(g, kind, hit, in))
				load(3-a, c12Item(g, kind, !hit, in))
				if g.Intn(3) == 0 {
					in.Ops = append(in.Ops, c12Op{Op: "copy", Slot: a, From: 3 - a, Doc: confDoc{Items: []confItem{}}, Files: []confFile{}})
					load(a, c12Item(g, kind, hit, in))
				}
				g.Emit(in, true)
				g.Tag("a copy goes its own way: " + kind)
			}
		},
		Exec: func(raw json.RawMessage, obs func(interface{})) {
			var in c12In
			dec(raw, &in)
			root, err := os.MkdirTemp("", "vf")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(root)
			real := func(p CS) string { return strings.Replace(string(p), "/R", root, 1) }
			os.MkdirAll(real("/R/q"), 0o755)
			if err := os.WriteFile(real(in.File.Path), fontBytes(in.File.Font), 0o644); err != nil {
				panic(err)
			}
			slots := []*fc.Config{nil, newConfig(), newConfig()}
			for _, op := range in.Ops {
				var err error
				switch op.Op {
				case "new":
					slots[op.Slot] = newConfig()
				case "copy":
					slots[op.Slot] = slots[op.From].Copy()
				case "load":
					err = slots[op.Slot].LoadFromMemory(strings.NewReader(op.Doc.xml(real)))
				case "dir":
					dir, derr := os.MkdirTemp(root, "conf")
					if derr != nil {
						panic(derr)
					}
					for _, f := range op.Files {
						p := filepath.Join(dir, f.Path)
						os.MkdirAll(filepath.Dir(p), 0o755)
						w := p
						if f.Link {
							w = filepath.Join(root, filepath.Base(dir)+strings.ReplaceAll(f.Path, "/", "_"))
							if err := os.Symlink(w, p); err != nil {
								panic(err)
							}
						}
						if err := os.WriteFile(w, []byte(f.Doc.xml(real)), 0o644); err != nil {
							panic(err)
						}
					}
					err = slots[op.Slot].LoadFromDir(dir)
				}
				probes := []J{}
				for _, c := range slots[1:] {
					p := in.Probe.build()
					c.Substitute(p, nil, fc.MatchQuery)
					f, q := in.Probe.build(), in.Query.build()
					c.Substitute(f, q, fc.MatchResult)
					set, serr := c.ScanFontDirectories(real("/R/q"))
					if serr != nil {
						panic(serr)
					}
					probes = append(probes, J{"pattern": patCode(p), "font": patCode(f), "scan": scanned(set, root)})
					for _, x := range []fc.Pattern{p, f} { // the results are the user's
						if cs, ok := x.GetCharset(fc.CHARSET); ok && cs.Len() > 0 {
							cs.AddChar('Z')
							cs.DelChar('A')
						}
					}
				}
				obs(J{"err": err != nil, "probes": probes})
			}
		},
	}
}
