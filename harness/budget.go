package main

// Recorder for budgets (C18): every call is made without a budget, then under
// budgets around what it needs.

import (
	"errors"
	"fmt"
	"sort"

	goabnf "github.com/pandatix/go-abnf"
)

// budTry is a call under a budget of m.
type budTry struct {
	M    int    `json:"m"`
	K    string `json:"k"`    // ok, or kind of error
	Lim  int    `json:"lim"`  // limit the error carries
	Size int    `json:"size"` // size of what was built
	Same bool   `json:"same"` // the very answer given without a budget
	None bool   `json:"none"` // refused: nothing was returned
}

type budRun struct {
	S    string   `json:"s"`    // what is bounded
	In   int      `json:"in"`   // index of the input, 0 if none
	Full string   `json:"full"` // kind of outcome without a budget
	Size int      `json:"size"`
	T    []budTry `json:"t"`
	X    string   `json:"x"`
}

type parBg struct {
	Rules bool `json:"rules"`
	Nums  bool `json:"nums"`
	Chars bool `json:"chars"`
	Huge  bool `json:"huge"` // not feasible without a budget
	Rnd   int  `json:"rnd"`
}

type obsBg struct {
	R []budRun `json:"r"`
	X string   `json:"x"`
}

type budAns struct {
	k    string
	lim  int
	size int
	ans  string
	none bool
}

func limitOf(err error) int {
	var (
		rtl *goabnf.ErrRegexTooLarge
		mne *goabnf.ErrMaxNodesExceeded
		fle *goabnf.ErrForestTooLarge
		gle *goabnf.ErrGrammarTooLarge
	)
	switch {
	case errors.As(err, &rtl):
		return rtl.Max
	case errors.As(err, &mne):
		return mne.Max
	case errors.As(err, &fle):
		return fle.Max
	case errors.As(err, &gle):
		return gle.Max
	}
	return -1
}

// budgets are the values worth trying, given what is needed.
func budgets(need int, rnd int) []int {
	set := map[int]bool{0: true, 1: true, 2: true, 1 << 30: true}
	for _, m := range []int{need / 3, need / 2, need - 2, need - 1, need, need + 1, need + 2, 2 * need, 1 + rnd%(need+1)} {
		if m > 0 {
			set[m] = true
		}
	}
	ms := []int{}
	for m := range set {
		ms = append(ms, m)
	}
	sort.Ints(ms)
	return ms
}

func sweep(s string, in int, p parBg, call func(m int) budAns) (r budRun) {
	r = budRun{S: s, In: in, T: []budTry{}}
	pan := guard(func() {
		full := budAns{}
		need := 40
		if !p.Huge {
			full = call(0)
			r.Full, r.Size = full.k, full.size
			if full.k == "ok" {
				// the least budget under which it succeeds
				hi := 1
				for hi < 1<<24 && call(hi).k != "ok" {
					hi *= 2
				}
				lo := hi / 2
				for lo+1 < hi {
					mid := (lo + hi) / 2
					if call(mid).k == "ok" {
						hi = mid
					} else {
						lo = mid
					}
				}
				need = hi
			}
		}
		for _, m := range budgets(need, p.Rnd) {
			if p.Huge && (m == 0 || m > 4000) {
				continue
			}
			a := call(m)
			r.T = append(r.T, budTry{M: m, K: a.k, Lim: a.lim, Size: a.size, Same: p.Huge || a.ans == full.ans, None: a.none})
		}
	})
	if pan != "" {
		r.X = pan
	}
	return r
}

func runBg(rc *recorder, c *Case) {
	rc.begin(c)
	var p parBg
	c.par(&p)
	o := obsBg{R: []budRun{}}
	pan := guard(func() {
		g, err := c.library()
		if err != nil {
			o.X = "read: " + err.Error()
			return
		}
		for i, in := range c.Ins {
			b := toBytes(in)
			with := func(opt func(int) goabnf.ForestOption, m int) []goabnf.ForestOption {
				if p.Huge { // the slots alone do not bound it
					return []goabnf.ForestOption{goabnf.WithMaxForestNodes(3000), opt(m)}
				}
				return []goabnf.ForestOption{opt(m)}
			}
			forest := func(opt func(int) goabnf.ForestOption) func(m int) budAns {
				return func(m int) budAns {
					f, err := goabnf.ParseForest(b, g, c.Ask, with(opt, m)...)
					if err != nil {
						return budAns{k: errKind(err), lim: limitOf(err), none: f == nil}
					}
					return budAns{k: "ok", size: f.Nodes(), ans: fmt.Sprint(f.Valid(), f.NumTrees(), f.Ambiguous(), f.ParseError())}
				}
			}
			bsr := func(opt func(int) goabnf.ForestOption) func(m int) budAns {
				return func(m int) budAns {
					f, err := goabnf.ParseBSR(b, g, c.Ask, with(opt, m)...)
					if err != nil {
						return budAns{k: errKind(err), lim: limitOf(err), none: f == nil}
					}
					return budAns{k: "ok", size: f.Nodes(), ans: fmt.Sprint(f.Valid(), f.NumTrees(), f.Ambiguous())}
				}
			}
			o.R = append(o.R, sweep("forest", i+1, p, forest(goabnf.WithMaxForestNodes)))
			o.R = append(o.R, sweep("bsr", i+1, p, bsr(goabnf.WithMaxForestNodes)))
			if i == 0 {
				o.R = append(o.R, sweep("slots", i+1, p, forest(goabnf.WithMaxSlots)))
				o.R = append(o.R, sweep("bslots", i+1, p, bsr(goabnf.WithMaxSlots)))
			}
		}
		o.R = append(o.R, sweep("graph", 0, p, func(m int) budAns {
			opts := parTg{Rules: p.Rules, Nums: p.Nums, Chars: p.Chars, Def: true}.opts()
			if p.Huge {
				opts = append(opts, goabnf.WithRepetitionThreshold(1<<31-1))
			}
			tg, err := g.TransitionGraph(c.Ask, append(opts, goabnf.WithMaxNodes(m))...)
			if err != nil {
				return budAns{k: tgKind(err), lim: limitOf(err), none: tg == nil}
			}
			gx, _ := export(tg)
			return budAns{k: "ok", size: len(gx.E), ans: js(gx)}
		}))
		o.R = append(o.R, sweep("regex", 0, p, func(m int) budAns {
			re, err := g.Regex(c.Ask, goabnf.WithMaxRegexLen(m))
			if err != nil {
				return budAns{k: errKind(err), lim: limitOf(err), none: re == ""}
			}
			return budAns{k: "ok", size: len(re), ans: re}
		}))
	})
	if pan != "" {
		o.X = pan
	}
	c.Obs = o
	rc.emit(c)
}

// grammars that are only feasible under a budget
var hugeGrams = []string{
	`a = 900("a" 900("b" 900("c")))`,
	"a = 200b 200b\nb = 200c 200c\nc = 200d 200d\nd = 200\"x\" 200\"y\"",
	`a = *200(*200(*200("a" "b")))`,
	"a = b b b b b b b b b b b b\nb = c c c c c c c c c c c c\nc = d d d d d d d d d d d d\nd = e e e e e e e e e e e e\ne = f f f f f f f f f f f f\nf = g g g g g g g g g g g g\ng = \"x\" \"y\"",
	"a = b b b b b b b b b b b b / \"z\"\nb = c c c c c c c c c c c c\nc = d d d d d d d d d d d d\nd = e e e e e e e e e e e e\ne = f f f f f f f f f f f f\nf = *g g g g g g g g g g g g\ng = \"x\" / \"yy\"",
	`a = 2000000000"x"`,
	`a = 2*2000000000"x"`,
	`a = 2000000000*"x"`,
	`a = *2000000000("x" / "")`,
	`a = 2000000000("")`,
	`a = 1000000000*2000000000["x"]`,
	"a = 2000000*b\nb = *c\nc = [\"x\"]",
	"a = \"x\" / a 2000000000b\nb = [\"y\"]",
}

func drawBg(rc *recorder, idx int) *Case {
	if idx < len(hugeGrams) {
		gr := mparse(hugeGrams[idx])
		c := (&engInput{gr: gr, root: gr.Names[0], how: "ast", ins: []string{"x", "", "xx"}}).toCase(fmt.Sprintf("huge%d", idx), "bg")
		c.setPar(parBg{Rules: true, Nums: true, Chars: true, Huge: true})
		return c
	}
	idx -= len(hugeGrams)
	var c *Case
	p := parBg{Rnd: idx * 7919}
	if idx < len(curatedGrams) {
		c = rc.drawEng("count", idx)
		c.K = "bg"
	} else {
		cfg := defaultCfg()
		switch idx % 4 {
		case 0:
			cfg.maxRules, cfg.depth = 2, 1
		case 1, 2:
			cfg.acyclic, cfg.maxRules, cfg.prose, cfg.undefined, cfg.badRep = true, 4, false, false, false
		}
		g := newGen(rc.seed*5_000_011+int64(idx), cfg)
		gr := g.gram()
		if idx%8 == 5 {
			gr.straighten(idx%16 == 5)
		}
		root := g.casing(gr.Names[0])
		in := &engInput{gr: gr, root: root, how: "ast"}
		in.ins = g.inputs(gr, root, 4, 6, false)
		c = in.toCase(fmt.Sprintf("s%d.%d", rc.seed, idx), "bg")
		p.Rules, p.Nums, p.Chars = g.p(80), g.p(30), g.p(40)
	}
	if len(c.Ins) > 4 {
		c.Ins = c.Ins[:4]
	}
	if n := c.gram().graphSize(c.Ask, parTg{Rules: p.Rules, Nums: p.Nums, Chars: p.Chars}); n > 300 {
		p.Nums = false
		if c.gram().graphSize(c.Ask, parTg{Rules: p.Rules, Chars: p.Chars}) > 300 {
			return nil
		}
	}
	c.setPar(p)
	return c
}

func init() { props["C18"] = caseProp(drawBg, runBg) }

// straighten keeps a single derivation: no choice, nothing repeated.
func (g *Gram) straighten(flat bool) {
	var alt func(a Alt) Alt
	alt = func(a Alt) Alt {
		out := Concat{}
		for _, r := range a[0] {
			r.Mn, r.Mx = 1, 1
			if r.E.T == "grp" || r.E.T == "opt" {
				sub := alt(r.E.A)
				if flat {
					out = append(out, sub[0]...)
					continue
				}
				r.E = eGrp(sub)
			}
			out = append(out, r)
		}
		return Alt{out}
	}
	for i := range g.Alts {
		g.Alts[i] = alt(g.Alts[i])
	}
}
