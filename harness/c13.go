package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"sort"
	"unicode/utf16"
)

// what font files say: a real font, whose tables of names, of metrics for OS/2 and of variations are written anew

type ffName struct {
	Pl int   `json:"pl"`
	En int   `json:"en"`
	La int   `json:"la"`
	Id int   `json:"id"`
	S  []int `json:"s"`
}

type ffOS2 struct {
	Has    bool  `json:"has"`
	Ver    int   `json:"ver"`
	Weight int   `json:"weight"`
	Width  int   `json:"width"`
	Vendor []int `json:"vendor"`
	Lower  int   `json:"lower"`
	Upper  int   `json:"upper"`
}

type ffAxis struct {
	Tag string `json:"tag"`
	Min int    `json:"min"`
	Def int    `json:"def"`
	Max int    `json:"max"`
}

type ffInst struct {
	Coords []int `json:"coords"`
	Id     int   `json:"id"`
}

type ffFile struct {
	Names []ffName `json:"names"`
	OS2   ffOS2    `json:"os2"`
	Flags struct {
		Italic bool `json:"italic"`
		Bold   bool `json:"bold"`
	} `json:"flags"`
	Rev   int      `json:"rev"`
	Axes  []ffAxis `json:"axes"`
	Insts []ffInst `json:"insts"`
	Path  []int    `json:"path"`
	Ps    bool     `json:"ps"` // instances have a PostScript name
}

func be16(b *bytes.Buffer, xs ...int) {
	for _, x := range xs {
		binary.Write(b, binary.BigEndian, uint16(x))
	}
}

func be32(b *bytes.Buffer, xs ...int) {
	for _, x := range xs {
		binary.Write(b, binary.BigEndian, uint32(x))
	}
}

func sfntTables(font []byte) map[string][]byte {
	out := map[string][]byte{}
	for i := 0; i < int(binary.BigEndian.Uint16(font[4:])); i++ {
		e := font[12+16*i:]
		off, n := binary.BigEndian.Uint32(e[8:]), binary.BigEndian.Uint32(e[12:])
		out[string(e[:4])] = append([]byte(nil), font[off:off+n]...)
	}
	return out
}

func sfnt(tables map[string][]byte) []byte {
	var tags []string
	for t := range tables {
		tags = append(tags, t)
	}
	sort.Strings(tags)
	var head, body bytes.Buffer
	be32(&head, 0x00010000)
	be16(&head, len(tags), 0, 0, 0)
	for _, t := range tags {
		head.WriteString(t)
		be32(&head, 0, 12+16*len(tags)+body.Len(), len(tables[t]))
		body.Write(tables[t])
		for body.Len()%4 != 0 {
			body.WriteByte(0)
		}
	}
	return append(head.Bytes(), body.Bytes()...)
}

func (f ffFile) bytes() []byte {
	t := sfntTables(fontBytes("cmap"))
	var recs, strs bytes.Buffer
	be16(&recs, 0, len(f.Names), 6+12*len(f.Names))
	for _, n := range f.Names {
		start := strs.Len()
		if n.Pl == 3 || n.Pl == 0 || (n.Pl == 2 && n.En == 1) {
			for _, u := range utf16.Encode([]rune(uncodes(n.S))) {
				be16(&strs, int(u))
			}
		} else {
			for _, x := range n.S {
				strs.WriteByte(byte(x))
			}
		}
		be16(&recs, n.Pl, n.En, n.La, n.Id, strs.Len()-start, start)
	}
	t["name"] = append(recs.Bytes(), strs.Bytes()...)
	flags, mac := 0, 0
	if f.Flags.Italic {
		flags, mac = flags|1, mac|2
	}
	if f.Flags.Bold {
		flags, mac = flags|32, mac|1
	}
	binary.BigEndian.PutUint32(t["head"][4:], uint32(f.Rev))
	binary.BigEndian.PutUint16(t["head"][44:], uint16(mac))
	if !f.OS2.Has {
		delete(t, "OS/2")
	} else {
		o := make([]byte, 100)
		copy(o, t["OS/2"])
		binary.BigEndian.PutUint16(o, uint16(f.OS2.Ver))
		binary.BigEndian.PutUint16(o[4:], uint16(f.OS2.Weight))
		binary.BigEndian.PutUint16(o[6:], uint16(f.OS2.Width))
		for i, x := range f.OS2.Vendor {
			o[58+i] = byte(x)
		}
		binary.BigEndian.PutUint16(o[62:], uint16(flags))
		binary.BigEndian.PutUint16(o[96:], uint16(f.OS2.Lower))
		binary.BigEndian.PutUint16(o[98:], uint16(f.OS2.Upper))
		t["OS/2"] = o[:map[int]int{0: 78, 1: 86, 2: 96, 3: 96, 4: 96, 5: 100}[f.OS2.Ver]]
	}
	if len(f.Axes) > 0 {
		var b bytes.Buffer
		sz := 4 + 4*len(f.Axes)
		if f.Ps {
			sz += 2
		}
		be16(&b, 1, 0, 16, 2, len(f.Axes), 20, len(f.Insts), sz)
		for _, a := range f.Axes {
			b.WriteString(a.Tag)
			be32(&b, a.Min<<16, a.Def<<16, a.Max<<16)
			be16(&b, 0, 256)
		}
		for _, in := range f.Insts {
			be16(&b, in.Id, 0)
			for _, c := range in.Coords {
				be32(&b, c<<16)
			}
			if f.Ps {
				be16(&b, 6)
			}
		}
		t["fvar"] = b.Bytes()
	}
	return sfnt(t)
}

var ffObjs = map[string]bool{"family": true, "familylang": true, "style": true, "stylelang": true, "fullname": true, "fullnamelang": true, "variable": true, "index": true,
	"weight": true, "width": true, "size": true, "slant": true, "decorative": true, "foundry": true, "fontversion": true, "file": true}

func ffGen(g *G) ffFile {
	f := ffFile{Names: []ffName{}, Axes: []ffAxis{}, Insts: []ffInst{}, Rev: pickInt(g, 65536, 131072, 70000, 0, 2147483647)}
	seen := map[[4]int]bool{}
	add := func(pl, en, la, id int, s string) {
		if seen[[4]int{pl, en, la, id}] {
			return
		}
		seen[[4]int{pl, en, la, id}] = true
		f.Names = append(f.Names, ffName{pl, en, la, id, codes(s)})
	}
	name := func(id int, texts ...string) {
		for n := 1 + g.Intn(4); n > 0; n-- {
			s := pick(g, texts...)
			switch g.Intn(5) {
			case 0, 1, 2:
				add(3, pickInt(g, 1, 1, 1, 10), pickInt(g, 1033, 1033, 1036, 1041, 2052, 3082, 1031, 2057, 30000), id, s)
			case 3:
				if isASCII(s) {
					add(1, 0, pickInt(g, 0, 0, 1, 2, 33), id, s)
				}
			default:
				add(0, pickInt(g, 3, 4), 0, id, s)
			}
		}
	}
	fams := []string{"Foo Sans", "foosans", "Bar", "日本", "Foo Serif", " Foo Sans ", "Österreich", "Baz  Mono"}
	styles := []string{"Regular", "regular", "Bold", "Bold Italic", "Light Oblique", "Kursiv", "Semi Condensed", "Extra Bold Expanded", "Demi", "Small Caps", "太字", "Roman", "Black Shadow", "Ultra Light", "Book"}
	if g.Intn(12) != 0 {
		name(1, fams...)
		if g.Intn(3) == 0 {
			name(16, fams...)
		}
		if g.Intn(5) == 0 {
			name(21, fams...)
		}
	}
	// there is always a style
	name(2, styles...)
	add(3, 1, 1033, 2, pick(g, styles...))
	if g.Intn(3) == 0 {
		name(17, styles...)
	}
	if g.Intn(5) == 0 {
		name(22, styles...)
	}
	if g.Intn(3) == 0 {
		name(4, "Foo Sans Bold", "Other Full Name", "Bar")
	}
	if g.Intn(4) == 0 {
		name(18, "Compatible")
	}
	if g.Intn(2) == 0 {
		name(7, "Bar is a trademark of Monotype", "Trademark of Linotype and Adobe", "nothing", "URW")
	}
	if g.Intn(2) == 0 {
		name(8, "IBM", "Bigelow & Holmes", "someone", "Microsoft Corp")
	}
	f.OS2.Has = g.Intn(4) != 0
	f.OS2.Vendor = []int{0, 0, 0, 0}
	f.OS2.Width = 1 + g.Intn(9)
	f.OS2.Weight = pickInt(g, 400, 400, 700, 100, 200, 250, 300, 350, 380, 500, 600, 800, 900, 1000, 450, 650, 850, 50, 0, 2000)
	if f.OS2.Has {
		f.OS2.Ver = g.Intn(6)
		if g.Intn(2) == 0 {
			f.OS2.Vendor = codes(pick(g, "ADBE", "MONO", "XYZ ", "abcd"))
		}
		f.OS2.Lower = 20 * g.Intn(20)
		f.OS2.Upper = f.OS2.Lower + 20*pickInt(g, 0, 1, 8)
	}
	f.Flags.Italic, f.Flags.Bold = g.Intn(3) == 0, g.Intn(3) == 0
	f.Path = codes(pick(g, "/fonts/a.ttf", "font.ttf", "./x/Foo.Bar.otf", "../up/down", "/R.d/name", "/a/b/c.d/e.ttf"))
	if g.Intn(3) == 0 {
		for _, a := range []ffAxis{{"wght", 100, 400, 900}, {"wdth", 50, 100, 200}, {"opsz", 8, 12, 72}, {"slnt", -20, 0, 0}} {
			if g.Intn(2) == 0 {
				switch g.Intn(8) {
				case 0:
					a.Min, a.Max = a.Def, a.Def
				case 1:
					a.Min = a.Def
				}
				f.Axes = append(f.Axes, a)
			}
		}
		if len(f.Axes) > 0 {
			f.Ps = g.Intn(2) == 0
			def := ffInst{Id: 2}
			for _, a := range f.Axes {
				def.Coords = append(def.Coords, a.Def)
			}
			for n := g.Intn(4); n > 0; n-- {
				in := ffInst{Id: 300 + g.Intn(3)}
				for _, a := range f.Axes {
					v := a.Def
					switch {
					case a.Tag == "wght":
						v = pickInt(g, 400, 200, 800, 100)
						f.OS2.Weight = pickInt(g, 400, 100, 200)
					case a.Tag == "wdth":
						v = pickInt(g, 100, 50, 150)
					case a.Tag == "opsz":
						v = pickInt(g, 12, 24, 8)
					}
					in.Coords = append(in.Coords, v)
				}
				f.Insts = append(f.Insts, in)
			}
			f.Insts = append(f.Insts, def)
			g.Shuffle(len(f.Insts), func(i, j int) { f.Insts[i], f.Insts[j] = f.Insts[j], f.Insts[i] })
			for id := 300; id < 303; id++ {
				name(id, styles...)
				add(3, 1, 1033, id, pick(g, styles...))
			}
			add(3, 1, 1033, 6, "Postscript-Name")
		}
	}
	g.Shuffle(len(f.Names), func(i, j int) { f.Names[i], f.Names[j] = f.Names[j], f.Names[i] })
	return f
}

func isASCII(s string) bool {
	for _, r := range s {
		if r > 126 {
			return false
		}
	}
	return true
}

func init() {
	props["C13"] = &Prop{
		Gen: func(g *G) {
			for _, h := range g.Hist {
				var f ffFile
				dec(h, &f)
				g.Emit(f, true)
				g.Tag("table from the model")
			}
			for i, n := 0, g.N(2500, 30000); i < n; i++ {
				f := ffGen(g)
				g.Emit(f, len(f.Axes) > 0)
			}
		},
		Exec: func(in json.RawMessage, obs func(interface{})) {
			var f ffFile
			dec(in, &f)
			set, err := newConfig().ScanFontRessource(bytes.NewReader(f.bytes()), uncodes(f.Path))
			faces := []Pat{}
			for _, p := range set {
				q := Pat{}
				for _, e := range patCode(p) {
					if ffObjs[e.O] {
						q = append(q, e)
					}
				}
				faces = append(faces, q)
			}
			obs(J{"faces": faces, "err": err != nil})
		},
	}
}
