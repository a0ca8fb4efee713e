package main

import (
	"encoding/json"
	"sort"
	"sync"

	fc "github.com/benoitkugler/textprocessing/fontconfig"
)

// relations between two values of an object, seen through rules, listing and hashing
var (
	relOnce sync.Once
	relCfg  *fc.Config
)

var relObjs = []string{"charset", "lang"}

func relConfig() *fc.Config {
	relOnce.Do(func() {
		relCfg = newConfig()
		var rules []RuleJ
		for _, o := range relObjs {
			present := TestJ{Name: o, Cmp: "eq", E: Expr{Op: "name", Name: o}}
			for _, op := range []string{"eq", "not_eq", "contains", "not_contains"} {
				rules = append(rules, RuleJ{Kind: "font",
					Tests: []TestJ{{Name: o, Cmp: op, E: Expr{Op: "name", Name: "custom1"}}},
					Edits: []EditJ{{Name: "custom2", Mode: "append_last", Es: []Expr{lit(VS(op))}}}})
			}
			rules = append(rules, RuleJ{Kind: "font", Tests: []TestJ{present},
				Edits: []EditJ{
					{Name: "custom3", Mode: "assign_replace", Es: []Expr{{Op: "plus", A: []Expr{{Op: "name", Name: o}, {Op: "name", Name: "custom1"}}}}},
					{Name: "custom4", Mode: "assign_replace", Es: []Expr{{Op: "minus", A: []Expr{{Op: "name", Name: o}, {Op: "name", Name: "custom1"}}}}},
				}})
		}
		if err := loadRules(relCfg, rules); err != nil {
			panic("relConfig: " + err.Error())
		}
	})
	return relCfg
}

func relations(o string, a, b fc.Value) J {
	cfg := relConfig()
	p := fc.NewPattern()
	p.Add(objByName[o], a, true)
	p.Add(objByName["custom1"], b, true)
	hb := p.Hash()
	cfg.Substitute(p, nil, fc.MatchResult)
	res := map[string]bool{"eq": false, "not_eq": false, "contains": false, "not_contains": false}
	for _, s := range p.GetStrings(objByName["custom2"]) {
		res[s] = true
	}
	one := func(name string) Val {
		v, r := p.GetAt(objByName[name], 0)
		if r != fc.ResultMatch {
			return Val{"Nil", 0}
		}
		return fromFC(v)
	}
	qa, qb := fc.NewPattern(), fc.NewPattern()
	qa.Add(objByName[o], a, true)
	qb.Add(objByName[o], b, true)
	font := fc.NewPattern()
	font.Add(objByName[o], a, true)
	font.Add(fc.FILE, fc.String("f"), true)
	l := fc.Fontset{font}.List(qb, fc.FILE)
	_ = hb
	return J{"rules": []bool{res["eq"], res["not_eq"], res["contains"], res["not_contains"]},
		"plus": one("custom3"), "minus": one("custom4"), "left": one(o), "right": one("custom1"),
		"listed": len(l) == 1, "samehash": qa.Hash() == qb.Hash()}
}

type c01Op struct {
	Op string `json:"op"`
	I  int    `json:"i"`
	J  int    `json:"j"`
	R  int    `json:"r"`
}
type c01In struct {
	Ops []c01Op `json:"ops"`
}

func init() {
	props["C01"] = &Prop{
		Gen: func(g *G) {
			for _, h := range g.Hist {
				var ops []c01Op
				dec(h, &ops)
				g.Emit(c01In{ops}, true)
				g.Tag("history from the model")
			}
			dom := []int{0, 1, 31, 32, 63, 64, 127, 128, 224, 255, 256, 257, 300, 511, 512, 0x2ff, 0x4e00, 0x4eff, 0xffff, 0x10000, 0x1f600, 0x10ffff}
			for n := g.N(5000, 60000); n > 0; n-- {
				var ops []c01Op
				mode := g.Intn(3)
				sub := dom
				if mode == 1 { // few pages, many collisions
					sub = dom[:14]
				}
				if mode == 2 {
					k := 3 + g.Intn(3)
					o := g.Intn(len(dom) - k)
					sub = dom[o : o+k]
				}
				for l := 2 + g.Intn(24); l > 0; l-- {
					o := c01Op{I: g.Intn(3), J: 0, R: sub[g.Intn(len(sub))]}
					switch x := g.Intn(10); {
					case x < 5:
						o.Op = "add"
					case x < 9:
						o.Op = "del"
					default:
						o.Op = "copy"
						o.J = (o.I + 1 + g.Intn(2)) % 3
						o.R = 0
					}
					ops = append(ops, o)
				}
				g.Emit(c01In{ops}, true)
				g.Tag([]string{"wide", "few pages", "colliding"}[mode])
			}
		},
		Exec: func(raw json.RawMessage, obs func(interface{})) {
			var in c01In
			dec(raw, &in)
			var cs [3]fc.Charset
			probes := map[int]bool{}
			for _, o := range in.Ops {
				for _, d := range []int{0, -1, 1, 32, -32, 256, -256} {
					if r := o.R + d; r >= 0 && r <= 0x10ffff {
						probes[r] = true
					}
				}
			}
			var pl []int
			for r := range probes {
				pl = append(pl, r)
			}
			sort.Ints(pl)
			for _, o := range in.Ops {
				switch o.Op {
				case "add":
					cs[o.I].AddChar(rune(o.R))
				case "del":
					cs[o.I].DelChar(rune(o.R))
				case "copy":
					cs[o.I] = cs[o.J].Copy()
				}
				var sets [][]int
				var lens []int
				for i := range cs {
					sets = append(sets, charsetRunes(cs[i]))
					lens = append(lens, cs[i].Len())
				}
				has := []int{}
				for _, r := range pl {
					if cs[o.I].HasChar(rune(r)) {
						has = append(has, r)
					}
				}
				obs(J{"sets": sets, "lens": lens, "has": has, "probes": pl})
			}
			// relations
			obs(J{"rel": relations("charset", cs[0].Copy(), cs[1].Copy())})
			obs(J{"rel": relations("charset", cs[1].Copy(), cs[2].Copy())})
			// distances and coverage
			var set fc.Fontset
			for i := range cs {
				f := fc.NewPattern()
				f.Add(fc.INDEX, fc.Int(i), true)
				f.Add(fc.CHARSET, cs[(i+1)%3].Copy(), true)
				set = append(set, f)
			}
			q := fc.NewPattern()
			q.Add(fc.CHARSET, cs[0].Copy(), true)
			ord := func(fs fc.Fontset) []int {
				out := []int{}
				for _, f := range fs {
					i, _ := f.GetInt(fc.INDEX)
					out = append(out, int(i))
				}
				return out
			}
			all, un1 := set.Sort(q, false)
			trimmed, un2 := set.Sort(q, true)
			best := set.Match(q, relConfig())
			bi, _ := best.GetInt(fc.INDEX)
			obs(J{"all": ord(all), "trim": ord(trimmed), "union": charsetRunes(un1), "tunion": charsetRunes(un2), "best": int(bi)})
			sets := [][]int{}
			for i := range cs {
				sets = append(sets, charsetRunes(cs[i]))
			}
			obs(J{"sets": sets})
		},
	}
}
