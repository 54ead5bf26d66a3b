package main

// Recorder for the reach of the generators (C21): everything that a generator
// gives out of many tapes, seeds or random sources, for rules with few words.

import (
	"fmt"
	"math/rand"
	"sort"

	goabnf "github.com/pandatix/go-abnf"
)

type parFull struct {
	How  string `json:"how"`  // "gen", "ast" or "graph"
	Rep  int    `json:"rep"`  // cap of unbounded repetitions
	Src  int    `json:"src"`  // 0: tapes, 1: random sources
	Stab bool   `json:"stab"` // graph: stable addressing
	Nums bool   `json:"nums"`
	Char bool   `json:"char"`
	N    int    `json:"n"` // draws
	Seed int64  `json:"seed"`
}

type obsFull struct {
	K  string  `json:"k"`
	Ws [][]int `json:"ws"`
	X  string  `json:"x"`
}

const maxDraws = 3000

// odds bounds from below how likely any derivation is, when choices are made
// evenly; 0 if it is not known.
func (p *parFull) odds(gr *Gram, a Alt, depth int) float64 {
	if depth > 12 || len(a) == 0 {
		return 0
	}
	best := 1.0
	for _, c := range a {
		o := 1 / float64(len(a))
		for _, r := range c {
			hi := r.Mx
			if hi == -1 {
				if p.How == "graph" {
					return 0
				}
				hi = r.Mn + p.Rep
				if p.How == "gen" {
					hi = max(r.Mn, p.Rep)
				}
			}
			if hi < r.Mn || hi > 8 {
				return 0
			}
			o /= float64(hi - r.Mn + 1)
			e := p.oddsElem(gr, r.E, depth)
			for k := 0; k < hi; k++ {
				o *= e
			}
		}
		best = min(best, o)
	}
	return best
}

func (p *parFull) oddsElem(gr *Gram, e *Elem, depth int) float64 {
	switch e.T {
	case "ref":
		if a, ok := gr.alt(e.N); ok {
			return p.odds(gr, a, depth+1)
		}
		n, ok := map[string]float64{"alpha": 2 * 26, "bit": 2, "digit": 10, "dquote": 1, "sp": 1, "htab": 1, "wsp": 2, "cr": 1, "lf": 1, "crlf": 1, "hexdig": 160}[e.N]
		if !ok {
			return 0
		}
		return 1 / n
	case "grp":
		return p.odds(gr, e.A, depth+1)
	case "opt":
		return p.odds(gr, e.A, depth+1) / 2
	case "chr":
		o := 1.0
		for _, v := range e.V {
			if !e.S && flip(rune(v)) != rune(v) {
				o /= 2
			}
		}
		return o
	case "rng":
		if e.Hi < e.Lo || e.Hi-e.Lo > 200 || e.Hi > 0xD000 {
			return 0
		}
		return 1 / float64(e.Hi-e.Lo+1)
	case "ser":
		for _, v := range e.V {
			if v > 0xD000 {
				return 0
			}
		}
		return 1
	}
	return 0
}

// graphOdds is the same for the walks of a graph.
func graphOdds(tg *goabnf.TransitionGraph) float64 {
	gx, _ := export(tg)
	memo, on := map[int]float64{}, map[int]bool{}
	var from func(n int) float64
	from = func(n int) float64 {
		if n == 0 {
			return 1
		}
		if o, ok := memo[n]; ok {
			return o
		}
		if on[n] {
			return 0
		}
		on[n] = true
		o := 1.0
		nx := gx.Nx[n-1]
		for _, m := range nx {
			o = min(o, from(m))
		}
		o /= float64(len(nx) + 1)
		switch e := gx.E[n-1]; e.T {
		case "rng":
			o /= float64(e.Hi - e.Lo + 1)
		case "chr":
			for _, v := range e.V {
				if !e.S && flip(rune(v)) != rune(v) {
					o /= 2
				}
			}
		}
		on[n] = false
		memo[n] = o
		return o
	}
	o := 1.0
	for _, n := range gx.En {
		o = min(o, from(n))
	}
	return o / float64(max(1, len(gx.En)))
}

func runFull(rc *recorder, c *Case) {
	rc.begin(c)
	var p parFull
	c.par(&p)
	o := obsFull{Ws: [][]int{}}
	skip := false
	r := rand.New(rand.NewSource(p.Seed))
	tape := func() []byte {
		b := make([]byte, 160)
		r.Read(b)
		return b
	}
	pan := guard(func() {
		g, err := c.library()
		if err != nil {
			o.X = "read: " + err.Error()
			return
		}
		n := p.N
		var draw func() []byte
		switch p.How {
		case "gen":
			draw = func() []byte {
				w, err := g.Generate(r.Int63(), c.Ask, goabnf.WithRepMax(p.Rep))
				if err != nil {
					o.K = errKind(err)
				}
				return w
			}
		case "ast":
			var ag *goabnf.ASTGenerator
			if ag, err = goabnf.NewASTGenerator(g, c.Ask, goabnf.WithMaxRepeat(p.Rep)); err != nil {
				break
			}
			draw = func() []byte { return ag.Generate(tape()) }
			if p.Src == 1 {
				draw = func() []byte { return ag.GenerateRand(r) }
			}
		case "graph":
			var tg *goabnf.TransitionGraph
			if tg, err = g.TransitionGraph(c.Ask, parTg{Rules: true, Nums: p.Nums, Chars: p.Char, Def: true}.opts()...); err != nil {
				break
			}
			if od := graphOdds(tg); od*maxDraws < 40 {
				skip = true
				return
			} else {
				n = int(40/od) + 1
			}
			var opts []goabnf.GenOption
			if p.Stab {
				opts = append(opts, goabnf.WithStableAddressing())
			}
			var gn *goabnf.Generator
			if gn, err = goabnf.NewGenerator(tg, opts...); err != nil {
				break
			}
			draw = func() []byte { return gn.Generate(tape()) }
			if p.Src == 1 {
				draw = func() []byte { return gn.GenerateRand(r) }
			}
		}
		if err != nil {
			o.K = tgKind(err)
			return
		}
		o.K = "ok"
		seen := map[string]bool{}
		for k := 0; k < n && o.K == "ok" && len(seen) < 400; k++ {
			seen[string(draw())] = true
		}
		if o.K != "ok" {
			return
		}
		ws := sortedKeys(seen)
		sort.Strings(ws)
		for _, w := range ws {
			if len(w) > 200 {
				o.X = "a word of more than 200 octets"
				return
			}
			o.Ws = append(o.Ws, bytesOf(w))
		}
	})
	if skip {
		return
	}
	if pan != "" {
		o.X = pan
	}
	c.Obs = o
	rc.emit(c)
}

func drawFull(rc *recorder, idx int) *Case {
	cfg := defaultCfg()
	cfg.acyclic, cfg.undefined, cfg.prose, cfg.badRep, cfg.wide = true, false, false, false, false
	cfg.maxRules, cfg.maxAlts, cfg.maxReps, cfg.depth, cfg.maxCount = 2, 2, 2, 1+idx%2, 2
	seed := rc.seed*13_000_027 + int64(idx)
	for try := int64(0); try < 12; try++ {
		g := newGen(seed+try*1_000_000_007, cfg)
		gr := g.gram()
		if g.p(20) { // a wide range
			lo := 0x20 + g.r.Intn(0x300)
			n := 17 + g.r.Intn(60)
			gr.Alts[0] = Alt{{one(eRng("x", lo, lo+n-1))}}
			if g.p(50) {
				gr.Alts[0] = append(gr.Alts[0], Concat{one(eChr("x"))})
			}
		}
		p := parFull{How: []string{"gen", "ast", "graph"}[idx%3], Rep: 1 + g.r.Intn(2), Src: g.r.Intn(2), Stab: g.p(50), Nums: g.p(30), Char: g.p(30), Seed: seed}
		o := p.odds(gr, gr.Alts[0], 0)
		if o*maxDraws < 40 || o == 1 && try < 6 {
			continue
		}
		p.N = int(40/o) + 1
		c := (&engInput{gr: gr, root: g.casing(gr.Names[0]), how: "ast"}).toCase(fmt.Sprintf("s%d.%d", rc.seed, idx), "full")
		c.setPar(p)
		return c
	}
	return nil
}

func init() { props["C21"] = caseProp(drawFull, runFull) }
