package main

import (
	"encoding/json"
)

// lines, runs and walks of layouts

func init() { props["P03"] = &Prop{Gen: p03Gen, Exec: p03Exec} }

type lIn struct {
	Cfg   lCfg     `json:"cfg"`
	Chars []*pChar `json:"chars"`
}

func p03Exec(raw json.RawMessage, obs func(interface{})) {
	var in lIn
	dec(raw, &in)
	l := in.Cfg.env().layout(in.Cfg)
	lines := linesObs(l, false)
	obs(J{"lines": lines, "it": iterObs(l), "size": sizeObs(l)})
}

func p03Gen(g *G) {
	for i, h := range g.Hist {
		var x struct {
			Txt          []int
			Single, Auto bool
		}
		dec(json.RawMessage(h), &x)
		cfg := newCfg(nil)
		cfg.Text, cfg.Single, cfg.Auto = x.Txt, x.Single, x.Auto
		cfg.Width, cfg.Wrap = []int{-1, 0, 1000, 1500}[i%4], i/4%3
		g.Emit(lIn{cfg, lChars(cfg.Text)}, true)
	}
	for i := 0; i < g.N(1500, 40000); i++ {
		cfg := g.layoutCfg(lOpts{attrs: true, tabs: true, ell: true, vertical: g.Intn(8) == 0})
		g.Emit(lIn{cfg, lChars(cfg.Text)}, true)
	}
}
