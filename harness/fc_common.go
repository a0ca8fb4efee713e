package main

import (
	"encoding/json"
	"fmt"
	"html"
	"io"
	"log"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"

	fc "github.com/benoitkugler/textprocessing/fontconfig"
)

func init() {
	log.SetOutput(os.Stderr)
	// the library logs refused values: the child's stderr is kept for fatal errors only
	if len(os.Args) > 1 && os.Args[1] == "exec" {
		log.SetOutput(io.Discard)
	}
	for _, k := range []string{"LC_ALL", "LC_CTYPE", "LANG", "LANGUAGE", "FC_LANG"} {
		os.Unsetenv(k)
	}
	os.Setenv("LC_ALL", "en")
	os.Setenv("LANG", "en")
}

// Val is a value in the trace: ["Int",5] ["Float",1250] (1/1000) ["String",[codes]]
// ["Bool",0|1|2] ["Charset",[..]] ["Langset",[[codes]..]] ["Matrix",[4 x 1/1000]] ["Range",[lo,hi]] (1/1000)
type Val []interface{}

const fscale = 1000

func codes(s string) []int {
	out := []int{}
	for _, b := range []byte(s) {
		out = append(out, int(b))
	}
	return out
}

func num(x interface{}) float64 {
	switch x := x.(type) {
	case float64:
		return x
	case int:
		return float64(x)
	}
	panic(fmt.Sprintf("num %T", x))
}

func uncodes(x interface{}) string {
	switch x := x.(type) {
	case string:
		return x
	case []int:
		b := []byte{}
		for _, c := range x {
			b = append(b, byte(c))
		}
		return string(b)
	case []interface{}:
		b := []byte{}
		for _, c := range x {
			b = append(b, byte(num(c)))
		}
		return string(b)
	}
	panic("uncodes")
}

func list(x interface{}) []interface{} {
	switch x := x.(type) {
	case []interface{}:
		return x
	case []int:
		out := make([]interface{}, len(x))
		for i, v := range x {
			out[i] = v
		}
		return out
	case [][]int:
		out := make([]interface{}, len(x))
		for i, v := range x {
			out[i] = v
		}
		return out
	}
	panic(fmt.Sprintf("list %T", x))
}

func VI(i int) Val     { return Val{"Int", i} }
func VF(f float64) Val { return Val{"Float", int(math.Round(f * fscale))} }
func VS(s string) Val  { return Val{"String", codes(s)} }
func VB(b int) Val     { return Val{"Bool", b} }
func VR(a, b float64) Val {
	return Val{"Range", []int{int(math.Round(a * fscale)), int(math.Round(b * fscale))}}
}
func VC(rs ...int) Val {
	s := append([]int{}, rs...)
	sort.Ints(s)
	o := []int{}
	for i, r := range s {
		if i == 0 || r != s[i-1] {
			o = append(o, r)
		}
	}
	return Val{"Charset", o}
}
func VL(tags ...string) Val {
	o := [][]int{}
	for _, t := range tags {
		o = append(o, codes(t))
	}
	return Val{"Langset", o}
}
func VM(a, b, c, d float64) Val {
	f := func(x float64) int { return int(math.Round(x * fscale)) }
	return Val{"Matrix", []int{f(a), f(b), f(c), f(d)}}
}

func toFC(v Val) fc.Value {
	f := func(x interface{}) float32 { return float32(num(x) / fscale) }
	switch v[0].(string) {
	case "Int":
		return fc.Int(num(v[1]))
	case "Float":
		return fc.Float(f(v[1]))
	case "String":
		return fc.String(uncodes(v[1]))
	case "Bool":
		return fc.Bool(num(v[1]))
	case "Charset":
		var c fc.Charset
		for _, r := range list(v[1]) {
			c.AddChar(rune(num(r)))
		}
		return c
	case "Langset":
		var tags []string
		for _, t := range list(v[1]) {
			tags = append(tags, uncodes(t))
		}
		if len(tags) == 0 {
			return fc.Langset{}
		}
		return fc.NewLangset(strings.Join(tags, "|"))
	case "Matrix":
		m := list(v[1])
		return fc.Matrix{Xx: f(m[0]), Xy: f(m[1]), Yx: f(m[2]), Yy: f(m[3])}
	case "Range":
		m := list(v[1])
		return fc.Range{Begin: f(m[0]), End: f(m[1])}
	}
	panic("toFC")
}

func f100(f float32) int {
	x := math.Round(float64(f) * fscale)
	if math.IsNaN(x) || math.IsInf(x, 0) || math.Abs(x) > 2e9 {
		return 2000000000
	}
	return int(x)
}

// charsetRunes lists a charset through its printed form ("[pages]\n[[8 words] ...]"),
// so that a defect of one accessor cannot hide another
func charsetRunes(c fc.Charset) []int {
	out := []int{}
	lines := strings.SplitN(c.String(), "\n", 2)
	clean := func(s string) []string { return strings.Fields(strings.NewReplacer("[", " ", "]", " ").Replace(s)) }
	pages := clean(lines[0])
	words := clean(lines[1])
	for i, p := range pages {
		pn, _ := strconv.Atoi(p)
		for j := 0; j < 8; j++ {
			w, _ := strconv.ParseUint(words[8*i+j], 10, 32)
			for b := 0; b < 32; b++ {
				if w&(1<<uint(b)) != 0 {
					out = append(out, pn<<8|j<<5|b)
				}
			}
		}
	}
	return out
}

func langTags(l fc.Langset) [][]int {
	s := l.String()
	out := [][]int{}
	if s == "" {
		return out
	}
	tags := strings.Split(s, "|")
	sort.Strings(tags)
	for _, t := range tags {
		out = append(out, codes(t))
	}
	return out
}

func fromFC(v fc.Value) Val {
	switch v := v.(type) {
	case nil:
		return Val{"Nil", 0}
	case fc.Int:
		return Val{"Int", int(v)}
	case fc.Float:
		return Val{"Float", f100(float32(v))}
	case fc.String:
		return Val{"String", codes(string(v))}
	case fc.Bool:
		return Val{"Bool", int(v)}
	case fc.Charset:
		return Val{"Charset", charsetRunes(v)}
	case fc.Langset:
		return Val{"Langset", langTags(v)}
	case fc.Matrix:
		return Val{"Matrix", []int{f100(v.Xx), f100(v.Xy), f100(v.Yx), f100(v.Yy)}}
	case fc.Range:
		return Val{"Range", []int{f100(v.Begin), f100(v.End)}}
	}
	return Val{"?" + fmt.Sprintf("%T", v), 0}
}

var objByName = map[string]fc.Object{}
var objNames []string

func init() {
	for o := fc.Object(1); o < fc.FirstCustomObject; o++ {
		objByName[o.String()] = o
		objNames = append(objNames, o.String())
	}
	// custom objects: registered by a configuration in order of appearance
	for i := 1; i <= 8; i++ {
		objByName[fmt.Sprintf("custom%d", i)] = fc.FirstCustomObject + 20 + fc.Object(i)
		objNames = append(objNames, fmt.Sprintf("custom%d", i))
	}
}

// Elt is one property of a pattern in the trace: its values, and their binding ("w"/"s") if known
type Elt struct {
	O string   `json:"o"`
	V []Val    `json:"v"`
	B []string `json:"b,omitempty"`
}

// Pat is a pattern in the trace
type Pat []Elt

func (p Pat) get(o string) *Elt {
	for i := range p {
		if p[i].O == o {
			return &p[i]
		}
	}
	return nil
}

// build makes a pattern with strong bindings (the only ones the API offers)
func (p Pat) build() fc.Pattern {
	out := fc.NewPattern()
	for _, e := range p {
		for _, v := range e.V {
			out.Add(objByName[e.O], toFC(v), true)
		}
	}
	return out
}

func patCode(p fc.Pattern) Pat {
	out := Pat{}
	if p == nil {
		return out
	}
	for o := fc.Object(1); o < fc.FirstCustomObject+40; o++ {
		name := o.String()
		if o >= fc.FirstCustomObject {
			name = fmt.Sprintf("custom%d", int(o-fc.FirstCustomObject)-20)
		}
		var vs []Val
		for i := 0; ; i++ {
			v, r := p.GetAt(o, i)
			if r != fc.ResultMatch {
				break
			}
			vs = append(vs, fromFC(v))
		}
		if len(vs) > 0 {
			out = append(out, Elt{O: name, V: vs})
		}
	}
	return out
}

// ---- configurations ----

// Expr is an expression tree in the trace. op: lit, name, const, matrix, or an operator
type Expr struct {
	Op   string `json:"op"`
	V    Val    `json:"v,omitempty"`
	Name string `json:"name,omitempty"`
	Tgt  string `json:"tgt,omitempty"`
	A    []Expr `json:"a,omitempty"`
}

func lit(v Val) Expr { return Expr{Op: "lit", V: v} }

type TestJ struct {
	Name string `json:"name"`
	Tgt  string `json:"tgt"`  // default pattern font scan
	Qual string `json:"qual"` // any all first not_first
	Cmp  string `json:"cmp"`
	IB   bool   `json:"ib"`
	E    Expr   `json:"e"`
}

type EditJ struct {
	Name string `json:"name"`
	Mode string `json:"mode"`
	Bind string `json:"bind"`
	Es   []Expr `json:"es"`
}

// CS is a string written as byte codes in the trace
type CS string

func (s CS) MarshalJSON() ([]byte, error) { return json.Marshal(codes(string(s))) }
func (s *CS) UnmarshalJSON(b []byte) error {
	var l []int
	if err := json.Unmarshal(b, &l); err != nil {
		return err
	}
	*s = CS(uncodes(l))
	return nil
}

type RuleJ struct {
	Kind  string  `json:"kind"` // pattern font scan alias
	Tests []TestJ `json:"tests"`
	Edits []EditJ `json:"edits"`
	// alias
	Family CS     `json:"family,omitempty"`
	Bind   string `json:"bind,omitempty"`
	Prefer []CS   `json:"prefer,omitempty"`
	Accept []CS   `json:"accept,omitempty"`
	Deflt  []CS   `json:"deflt,omitempty"`
}

func fnum(x interface{}) string {
	return strconv.FormatFloat(num(x)/fscale, 'f', -1, 64)
}

func litXML(v Val) string {
	switch v[0].(string) {
	case "Int":
		return fmt.Sprintf("<int>%d</int>", int(num(v[1])))
	case "Float":
		return "<double>" + fnum(v[1]) + "</double>"
	case "String":
		return "<string>" + html.EscapeString(uncodes(v[1])) + "</string>"
	case "Bool":
		return "<bool>" + []string{"false", "true", "dontcare"}[int(num(v[1]))] + "</bool>"
	case "Charset":
		s := "<charset>"
		l := list(v[1])
		for i := 0; i < len(l); i++ {
			j := i
			for j+1 < len(l) && num(l[j+1]) == num(l[j])+1 {
				j++
			}
			if j > i+1 {
				s += fmt.Sprintf("<range><int>%d</int><int>%d</int></range>", int(num(l[i])), int(num(l[j])))
				i = j
			} else {
				s += fmt.Sprintf("<int>%d</int>", int(num(l[i])))
			}
		}
		return s + "</charset>"
	case "Langset":
		s := "<langset>"
		for _, t := range list(v[1]) {
			s += "<string>" + html.EscapeString(uncodes(t)) + "</string>"
		}
		return s + "</langset>"
	case "Matrix":
		s := "<matrix>"
		for _, x := range list(v[1]) {
			s += "<double>" + fnum(x) + "</double>"
		}
		return s + "</matrix>"
	case "Range":
		m := list(v[1])
		s := "<range>"
		for _, x := range m {
			if int(num(x))%fscale == 0 {
				s += fmt.Sprintf("<int>%d</int>", int(num(x))/fscale)
			} else {
				s += "<double>" + fnum(x) + "</double>"
			}
		}
		return s + "</range>"
	}
	panic("litXML")
}

func (e Expr) xml() string {
	switch e.Op {
	case "lit":
		return litXML(e.V)
	case "name":
		if e.Tgt == "" || e.Tgt == "default" {
			return "<name>" + e.Name + "</name>"
		}
		return `<name target="` + e.Tgt + `">` + e.Name + "</name>"
	case "const":
		return "<const>" + e.Name + "</const>"
	}
	s := "<" + e.Op + ">"
	for _, a := range e.A {
		s += a.xml()
	}
	return s + "</" + e.Op + ">"
}

func (r RuleJ) xml() string {
	var b strings.Builder
	if r.Kind == "alias" {
		b.WriteString("<alias")
		if r.Bind != "" {
			b.WriteString(` binding="` + r.Bind + `"`)
		}
		b.WriteString("><family>" + html.EscapeString(string(r.Family)) + "</family>")
		g := func(tag string, fs []CS) {
			if len(fs) == 0 {
				return
			}
			b.WriteString("<" + tag + ">")
			for _, f := range fs {
				b.WriteString("<family>" + html.EscapeString(string(f)) + "</family>")
			}
			b.WriteString("</" + tag + ">")
		}
		g("prefer", r.Prefer)
		g("accept", r.Accept)
		g("default", r.Deflt)
		b.WriteString("</alias>\n")
		return b.String()
	}
	b.WriteString(`<match target="` + r.Kind + `">`)
	for _, t := range r.Tests {
		b.WriteString(`<test name="` + t.Name + `"`)
		if t.Tgt != "" && t.Tgt != "default" {
			b.WriteString(` target="` + t.Tgt + `"`)
		}
		if t.Qual != "" {
			b.WriteString(` qual="` + t.Qual + `"`)
		}
		if t.Cmp != "" {
			b.WriteString(` compare="` + t.Cmp + `"`)
		}
		if t.IB {
			b.WriteString(` ignore-blanks="true"`)
		}
		b.WriteString(">" + t.E.xml() + "</test>")
	}
	for _, e := range r.Edits {
		b.WriteString(`<edit name="` + e.Name + `" mode="` + e.Mode + `"`)
		if e.Bind != "" {
			b.WriteString(` binding="` + e.Bind + `"`)
		}
		b.WriteString(">")
		for _, x := range e.Es {
			b.WriteString(x.xml())
		}
		b.WriteString("</edit>")
	}
	b.WriteString("</match>\n")
	return b.String()
}

// regDoc registers custom1..custom8 in order, so that their object ids are known
func regDoc() string {
	s := `<match target="font"><test name="custom1"><int>-77</int></test>`
	for i := 2; i <= 8; i++ {
		s += fmt.Sprintf(`<test name="custom%d"><int>-77</int></test>`, i)
	}
	return s + `<edit name="custom1" mode="assign"><int>-77</int></edit></match>`
}

func docXML(body string) string {
	return `<?xml version="1.0"?><!DOCTYPE fontconfig SYSTEM "fonts.dtd"><fontconfig>` + body + `</fontconfig>`
}

func newConfig() *fc.Config {
	c := fc.NewConfig()
	if err := c.LoadFromMemory(strings.NewReader(docXML(regDoc()))); err != nil {
		panic("regdoc: " + err.Error())
	}
	return c
}

func loadRules(c *fc.Config, rules []RuleJ) error {
	var b strings.Builder
	for _, r := range rules {
		b.WriteString(r.xml())
	}
	return c.LoadFromMemory(strings.NewReader(docXML(b.String())))
}

func (v *Val) UnmarshalJSON(b []byte) error {
	var x []interface{}
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	*v = Val(x)
	return nil
}

func pick(g *G, xs ...string) string { return xs[g.Intn(len(xs))] }
