package main

// Recorder for histories (C09): sequences of calls, alone, one after another and
// at once, with what they leave behind.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"

	goabnf "github.com/pandatix/go-abnf"
)

// sesText is a text that a session reads.
type sesText struct {
	Src []int `json:"src"`
	Val bool  `json:"val"`
	Red bool  `json:"red"`
}

// sesCall is a call. G is the index of the text that denotes the grammar, -1 for
// the built-in ABNF grammar.
type sesCall struct {
	Op   string `json:"op"`
	G    int    `json:"g"`
	Rule string `json:"rule"`
	In   []int  `json:"in"`
	A    int    `json:"a"`
	B    int    `json:"b"`
}

type parSes struct {
	Texts []sesText `json:"texts"`
	Calls []sesCall `json:"calls"`
	Hist  []int     `json:"hist"`  // which call, from 1
	Looks []sesCall `json:"looks"` // results that several goroutines look at, each from the start
	Par   int       `json:"par"`   // goroutines
	Seed  int64     `json:"seed"`
	Quick bool      `json:"quick"`
}

// sesStep is what a step of a history answered, and left behind.
type sesStep struct {
	C    int      `json:"c"`
	A    string   `json:"a"`
	Core string   `json:"core"`
	Abnf string   `json:"abnf"`
	Gr   []string `json:"gr"`  // grammar of each text, "" if it has none yet
	Buf  []string `json:"buf"` // buffers of the caller
}

type obsSes struct {
	Alone []string  `json:"alone"` // what each call answers alone
	Init  sesStep   `json:"init"`
	H     []sesStep `json:"h"`
	Kept  []bool    `json:"kept"` // results of the steps are unchanged at the end
	Conc  []string  `json:"conc"` // answers of a call made at once with others that differ
	Last  sesStep   `json:"last"`
	Core  []tx      `json:"core"` // the built-in rules at the end
	Reads []readObs `json:"reads"`
	X     string    `json:"x"`
}

// sesEnv is a session.
type sesEnv struct {
	p     *parSes
	bufs  [][]byte
	ins   [][]byte
	grams []*goabnf.Grammar
	gens  map[string]*goabnf.Generator
	tgs   map[string]*goabnf.TransitionGraph
	asts  map[string]*goabnf.ASTGenerator
	share bool
	// parses that several goroutines look at
	forests map[int]*goabnf.Forest
	bsrs    map[int]*goabnf.BSRForest
}

const spare = 24

// buffer gives the bytes with spare capacity behind them.
func buffer(v []int) []byte {
	b := make([]byte, 0, len(v)+spare)
	b = append(b, toBytes(v)...)
	t := b[:cap(b)]
	for i := len(b); i < len(t); i++ {
		t[i] = 0xA5
	}
	return b
}

func newSes(p *parSes, share bool) *sesEnv {
	e := &sesEnv{p: p, grams: make([]*goabnf.Grammar, len(p.Texts)), share: share,
		gens: map[string]*goabnf.Generator{}, tgs: map[string]*goabnf.TransitionGraph{}, asts: map[string]*goabnf.ASTGenerator{}}
	for _, t := range p.Texts {
		e.bufs = append(e.bufs, buffer(t.Src))
	}
	for _, c := range p.Calls {
		e.ins = append(e.ins, buffer(c.In))
	}
	return e
}

func whole(b []byte) string { return digest(b[:cap(b)]) }

func sesKind(err error) string {
	k := tgKind(err)
	if err != nil && k == "ok" {
		k = "other"
	}
	switch k {
	case "dep", "rep", "num":
		return "invalid"
	}
	return k
}

func coreTx() []tx {
	out := []tx{}
	for _, n := range coreNames {
		r := goabnf.GetRule(n, nil)
		if r == nil {
			out = append(out, tx{"n": txName(n), "a": []int{}})
			continue
		}
		out = append(out, tx{"n": txName(r.Name), "a": txAlt(r.Alternation)})
	}
	return out
}

func gramDigest(g *goabnf.Grammar) string {
	if g == nil {
		return ""
	}
	return digest([]byte(js(txGram(g)) + js(sortedKeys(g.Rulemap))))
}

func (e *sesEnv) state(c int, a string) sesStep {
	s := sesStep{C: c, A: a, Gr: []string{}, Buf: []string{}}
	s.Core = digest([]byte(js(coreTx())))
	s.Abnf = gramDigest(goabnf.ABNF)
	for _, g := range e.grams {
		s.Gr = append(s.Gr, gramDigest(g))
	}
	for _, b := range append(append([][]byte{}, e.bufs...), e.ins...) {
		s.Buf = append(s.Buf, whole(b))
	}
	return s
}

// read gives a new grammar out of a text.
func (e *sesEnv) read(t int) (*goabnf.Grammar, error) {
	x := e.p.Texts[t]
	return goabnf.ParseABNF(e.bufs[t], goabnf.WithValidation(x.Val), goabnf.WithRedefineCoreRules(x.Red))
}

func (e *sesEnv) gram(t int) (*goabnf.Grammar, error) {
	if t < 0 {
		return goabnf.ABNF, nil
	}
	if e.grams[t] != nil {
		return e.grams[t], nil
	}
	g, err := e.read(t)
	if err == nil && e.share {
		e.grams[t] = g
	}
	return g, err
}

func (e *sesEnv) graph(g *goabnf.Grammar, c sesCall, full bool) (*goabnf.TransitionGraph, error) {
	tp := parTg{Rules: true, Nums: true, Chars: true, Thr: 6}
	if !full {
		tp = parTg{Rules: c.A&1 != 0, Nums: c.A&2 != 0, Chars: c.A&4 != 0, Thr: 6}
	}
	key := fmt.Sprint(c.G, lower(c.Rule), tp)
	if tg := e.tgs[key]; tg != nil {
		return tg, nil
	}
	tg, err := g.TransitionGraph(c.Rule, tp.opts()...)
	if err == nil && e.share {
		e.tgs[key] = tg
	}
	return tg, err
}

func (e *sesEnv) generator(g *goabnf.Grammar, c sesCall) (*goabnf.Generator, error) {
	key := fmt.Sprint(c.G, lower(c.Rule), c.B)
	if gn := e.gens[key]; gn != nil {
		return gn, nil
	}
	tg, err := e.graph(g, c, true)
	if err != nil {
		return nil, err
	}
	opts := []goabnf.GenOption{goabnf.WithMaxLength(20), goabnf.WithMaxReps(3)}
	if c.B&1 != 0 {
		opts = append(opts, goabnf.WithStableAddressing())
	}
	gn, err := goabnf.NewGenerator(tg, opts...)
	if err == nil && e.share {
		e.gens[key] = gn
	}
	return gn, err
}

func (e *sesEnv) ast(g *goabnf.Grammar, c sesCall) (*goabnf.ASTGenerator, error) {
	key := fmt.Sprint(c.G, lower(c.Rule))
	if a := e.asts[key]; a != nil {
		return a, nil
	}
	a, err := goabnf.NewASTGenerator(g, c.Rule, goabnf.WithMaxDepth(8), goabnf.WithMaxLen(30), goabnf.WithMaxRepeat(3))
	if err == nil && e.share {
		e.asts[key] = a
	}
	return a, err
}

func bytesRes(b []byte, more ...any) func() string {
	return func() string { return fmt.Sprintf("%x %v %v", b, b == nil, more) }
}

func textRes(s string) func() string { return func() string { return s } }

func treeText(t *goabnf.ParseTree) string {
	if t == nil {
		return "none"
	}
	n := 0
	return js(treeOf(t, &n))
}

// call makes a call; what it gives can be looked at again later.
func (e *sesEnv) call(i int) (answer string, again func() string) {
	c := e.p.Calls[i]
	in := e.ins[i]
	var res func() string
	pan := guard(func() {
		res = e.make(i, c, in)
		answer = digest([]byte(res()))
	})
	if pan != "" {
		return pan, textRes(pan)
	}
	return answer, func() string { return digest([]byte(res())) }
}

func (e *sesEnv) make(i int, c sesCall, in []byte) func() string {
	if c.Op == "read" || c.Op == "eval" {
		var g *goabnf.Grammar
		var err error
		if c.Op == "read" {
			if g, err = e.read(c.G); err == nil && e.share && e.grams[c.G] == nil {
				e.grams[c.G] = g
			}
		} else {
			x := e.p.Texts[c.G]
			f, err2 := goabnf.Parse(e.bufs[c.G], goabnf.ABNF, "rulelist")
			if err2 != nil {
				return textRes(err2.Error())
			}
			opts := []goabnf.ABNFOption{goabnf.WithValidation(x.Val), goabnf.WithRedefineCoreRules(x.Red)}
			if c.A&1 != 0 {
				goabnf.EvaluateABNF(e.bufs[c.G], f, opts...)
			}
			g, err = goabnf.EvaluateABNF(e.bufs[c.G], f, opts...)
		}
		return func() string {
			o := classifyRead(g, err)
			switch o.K {
			case "dep", "rep", "num":
				return "invalid"
			}
			return js(o)
		}
	}
	g, err := e.gram(c.G)
	if err != nil {
		return textRes("no grammar")
	}
	switch c.Op {
	case "semval":
		return textRes(sesKind(goabnf.SemvalABNF(g)))
	case "valid":
		ok, err := g.IsValid(c.Rule, in)
		return textRes(fmt.Sprint(ok, sesKind(err)))
	case "forest":
		f, err := e.forests[i], error(nil)
		if f == nil {
			f, err = goabnf.ParseForest(in, g, c.Rule)
		}
		if err != nil {
			return textRes(sesKind(err))
		}
		return sesForest(f.Valid, func() string { return f.NumTrees().String() }, f.Ambiguous,
			func() *goabnf.ParseTree { return f.Tree() }, func() string { return fmt.Sprint(f.Nodes(), f.ParseError()) }, c.A)
	case "bsr":
		f, err := e.bsrs[i], error(nil)
		if f == nil {
			f, err = goabnf.ParseBSR(in, g, c.Rule)
		}
		if err != nil {
			return textRes(sesKind(err))
		}
		return sesForest(f.Valid, func() string { return f.NumTrees().String() }, f.Ambiguous,
			func() *goabnf.ParseTree { return f.Tree() }, func() string { return fmt.Sprint(f.Nodes()) }, c.A)
	case "regex":
		s, err := g.Regex(c.Rule)
		return textRes(s + " " + sesKind(err))
	case "dep":
		dg := g.DependencyGraph()
		return func() string {
			ls := strings.Split(dg.Mermaid(), "\n")
			sort.Strings(ls)
			return strings.Join(ls, "\n")
		}
	case "dag":
		return textRes(fmt.Sprint(g.IsDAG()))
	case "cycle":
		ok, err := g.RuleContainsCycle(c.Rule)
		return textRes(fmt.Sprint(ok, sesKind(err)))
	case "print":
		return textRes(sortLines(g.String()))
	case "pretty":
		return textRes(sortLines(g.PrettyPrint()))
	case "gen":
		w, err := g.Generate(int64(c.A), c.Rule, goabnf.WithRepMax(c.B), goabnf.WithThreshold(40))
		return bytesRes(w, sesKind(err))
	case "ast":
		a, err := e.ast(g, c)
		if err != nil {
			return textRes(sesKind(err))
		}
		if c.B&1 != 0 {
			return bytesRes(a.GenerateRand(rand.New(rand.NewSource(int64(c.A)))))
		}
		return bytesRes(a.Generate(in))
	case "tg":
		tg, err := e.graph(g, c, false)
		if err != nil {
			return textRes(sesKind(err))
		}
		return func() string { return canonMermaid(tg.ToMermaid()) }
	case "rd":
		tg, err := e.graph(g, c, true)
		if err != nil {
			return textRes(sesKind(err))
		}
		r := tg.Reader(goabnf.WithCoverageMode(goabnf.CoverageAllTrails))
		var ws [][]byte
		for r.Next() && len(ws) < 400 {
			ws = append(ws, r.Scan())
		}
		return func() string {
			var ls []string
			for _, w := range ws {
				ls = append(ls, fmt.Sprintf("%x", w))
			}
			sort.Strings(ls)
			if len(ls) == 400 {
				return "many"
			}
			return strings.Join(ls, " ")
		}
	case "gw", "nm", "nx":
		gn, err := e.generator(g, c)
		if err != nil {
			return textRes(sesKind(err))
		}
		switch {
		case c.Op == "gw" && c.B&2 != 0:
			return bytesRes(gn.GenerateRand(rand.New(rand.NewSource(int64(c.A)))))
		case c.Op == "gw":
			return bytesRes(gn.Generate(in))
		case c.Op == "nm":
			w, label, ok := gn.NearMiss(in)
			return bytesRes(w, label, ok)
		default:
			n, acc, ok := gn.ExpectedNext(in)
			return bytesRes(n, acc, ok)
		}
	case "code":
		b, err := goabnf.GenerateGoParser(g, c.Rule, "p")
		return bytesRes(b, sesKind(err))
	}
	fatal(fmt.Errorf("unknown call %q", c.Op))
	return nil
}

// sesForest asks everything of a parse, in some order, and asks again.
func sesForest(valid func() bool, num func() string, amb func() bool, tree func() *goabnf.ParseTree, more func() string, ord int) func() string {
	out := make([]string, 5)
	var t *goabnf.ParseTree
	all := []func(){
		func() { out[0] += fmt.Sprint(valid()) },
		func() { out[1] += num() },
		func() { out[2] += fmt.Sprint(amb()) },
		func() {
			if n := num(); n == "0" || n == "-1" {
				return
			}
			t = tree()
			out[3] += treeText(t)
		},
		func() { out[4] += more() },
	}
	for k := 0; k < 10; k++ {
		all[(k*(1+ord%4)+ord)%5]()
	}
	return func() string { return strings.Join(out, "|") + "|" + treeText(t) }
}

// alone makes one call in a process of its own.
func alone(p *parSes, i int) string {
	cmd := exec.Command(os.Args[0], "alone", "-prop", "C09")
	cmd.Env = append(os.Environ(), "GORACE=atexit_sleep_ms=0 exitcode=66")
	cmd.Stdin = strings.NewReader(fmt.Sprintf("%d %s", i, js(p)))
	var out, serr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &serr
	if err := cmd.Run(); err != nil {
		return "alone: " + tail(serr.String(), 200)
	}
	return out.String()
}

func aloneMain() {
	raw, err := io.ReadAll(os.Stdin)
	if err != nil {
		fatal(err)
	}
	var i int
	k := bytes.IndexByte(raw, ' ')
	fmt.Sscan(string(raw[:k]), &i)
	p := &parSes{}
	if err := json.Unmarshal(raw[k+1:], p); err != nil {
		fatal(err)
	}
	e := newSes(p, false)
	a, _ := e.call(i)
	fmt.Print(a)
}

func runSes(rc *recorder, c *Case) {
	rc.begin(c)
	var p parSes
	c.par(&p)
	o := &obsSes{Alone: make([]string, len(p.Calls)), H: []sesStep{}, Kept: []bool{}, Conc: []string{}, Core: []tx{}, Reads: []readObs{}}
	c.Obs = o
	var wg sync.WaitGroup
	sem := make(chan bool, 4)
	for i := range p.Calls {
		wg.Add(1)
		go func() {
			sem <- true
			o.Alone[i] = alone(&p, i)
			<-sem
			wg.Done()
		}()
	}
	wg.Wait()
	for i, a := range o.Alone {
		if strings.HasPrefix(a, "panic") || strings.HasPrefix(a, "alone") {
			o.X = fmt.Sprintf("call %d: %s", i+1, a)
		}
	}

	// one after another
	e := newSes(&p, true)
	o.Init = e.state(0, "")
	var res []func() string
	for _, h := range p.Hist {
		a, again := e.call(h - 1)
		res = append(res, again)
		o.H = append(o.H, e.state(h, a))
	}
	for i, again := range res {
		var a string
		if pan := guard(func() { a = again() }); pan != "" {
			a = pan
		}
		o.Kept = append(o.Kept, a == o.H[i].A)
	}

	// at once, on the same grammars, buffers, and for half of them parses and
	// graphs; generators and readers are one's own
	if p.Par > 0 {
		conc := newSes(&p, false)
		conc.grams, conc.bufs, conc.ins = e.grams, e.bufs, e.ins
		shared := newSes(&p, false)
		shared.grams, shared.bufs, shared.ins = e.grams, e.bufs, e.ins
		shared.tgs = e.tgs
		shared.forests, shared.bsrs = map[int]*goabnf.Forest{}, map[int]*goabnf.BSRForest{}
		for i, k := range p.Calls {
			if k.Op != "forest" && k.Op != "bsr" {
				continue
			}
			guard(func() {
				g, err := shared.gram(k.G)
				if err != nil {
					return
				}
				if k.Op == "forest" {
					if f, err := goabnf.ParseForest(shared.ins[i], g, k.Rule); err == nil {
						shared.forests[i] = f
					}
				} else if f, err := goabnf.ParseBSR(shared.ins[i], g, k.Rule); err == nil {
					shared.bsrs[i] = f
				}
			})
		}
		var mu sync.Mutex
		start := make(chan bool)
		for w := 0; w < p.Par; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewSource(p.Seed + int64(w)))
				conc := conc
				if w%2 == 1 {
					conc = shared
				}
				<-start
				for _, i := range r.Perm(len(p.Calls)) {
					a, again := conc.call(i)
					if b := again(); b != a {
						a = a + " then " + b
					}
					if a != o.Alone[i] {
						mu.Lock()
						o.Conc = append(o.Conc, fmt.Sprintf("%d %s: %s", i+1, p.Calls[i].Op, a))
						mu.Unlock()
					}
				}
			}()
		}
		close(start)
		wg.Wait()
	}
	for i, k := range p.Looks {
		if a := e.look(i, k, p.Par); a != "" {
			o.Conc = append(o.Conc, a)
		}
	}
	o.Last = e.state(0, "")
	o.Core = coreTx()
	for _, t := range p.Texts {
		o.Reads = append(o.Reads, readText(toBytes(t.Src), t.Val, t.Red))
	}
	rc.emit(c)
}

// look makes a result that several goroutines are the first to look at.
func (e *sesEnv) look(i int, k sesCall, par int) (bad string) {
	g, err := e.gram(k.G)
	if err != nil {
		return ""
	}
	in := buffer(k.In)
	fresh := func() func(ord int) string {
		switch k.Op {
		case "forest":
			f, err := goabnf.ParseForest(in, g, k.Rule)
			if err != nil {
				return nil
			}
			return func(ord int) string {
				return sesForest(f.Valid, func() string { return f.NumTrees().String() }, f.Ambiguous, f.Tree,
					func() string { return fmt.Sprint(f.Nodes(), f.ParseError()) }, ord)()
			}
		case "bsr":
			f, err := goabnf.ParseBSR(in, g, k.Rule)
			if err != nil {
				return nil
			}
			return func(ord int) string {
				return sesForest(f.Valid, func() string { return f.NumTrees().String() }, f.Ambiguous, f.Tree,
					func() string { return fmt.Sprint(f.Nodes()) }, ord)()
			}
		}
		tg, err := g.TransitionGraph(k.Rule, parTg{Rules: true, Nums: true, Chars: true, Thr: 4}.opts()...)
		if err != nil {
			return nil
		}
		return func(ord int) string {
			out := make([]string, 3)
			all := []func(){
				func() { out[0] = canonMermaid(tg.ToMermaid()) },
				func() {
					r := tg.Reader(goabnf.WithCoverageMode(goabnf.CoverageAllTrails))
					var ls []string
					for len(ls) < 50 && r.Next() {
						ls = append(ls, fmt.Sprintf("%x", r.Scan()))
					}
					if len(ls) < 50 {
						sort.Strings(ls)
						out[1] = strings.Join(ls, " ")
					}
				},
				func() {
					gn, err := goabnf.NewGenerator(tg, goabnf.WithMaxLength(20), goabnf.WithMaxReps(3))
					if err == nil {
						n, acc, ok := gn.ExpectedNext(in)
						out[2] = fmt.Sprintf("%x %x %v %v", gn.Generate(in), n, acc, ok)
					}
				},
			}
			for j := range all {
				all[(j+ord)%3]()
			}
			return strings.Join(out, "|")
		}
	}
	pan := guard(func() {
		ref := fresh()
		if ref == nil {
			return
		}
		want := ref(0)
		f := fresh()
		got := make([]string, par)
		var wg sync.WaitGroup
		for w := range got {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if pan := guard(func() { got[w] = f(w) }); pan != "" {
					got[w] = pan
				}
			}()
		}
		wg.Wait()
		for w := range got {
			if got[w] != want {
				bad = fmt.Sprintf("look %d %s: %s", i+1, k.Op, digest([]byte(got[w])))
			}
		}
	})
	if pan != "" {
		bad = fmt.Sprintf("look %d %s: %s", i+1, k.Op, pan)
	}
	return bad
}

var sesOps = []string{"read", "read", "read", "eval", "semval", "valid", "valid", "forest", "forest", "bsr", "bsr", "regex", "regex", "dep", "dag",
	"cycle", "print", "pretty", "gen", "gen", "ast", "ast", "tg", "rd", "gw", "gw", "nm", "nx", "nx", "code"}

// drawSes: several texts that share rule names, some of which redefine or extend
// core rules or are refused.
func drawSes(rc *recorder, idx int) *Case {
	cfg := defaultCfg()
	cfg.unicode, cfg.textable = false, true
	cfg.acyclic = idx%2 == 0
	cfg.wide = false
	cfg.maxCount = 2
	cfg.maxAlts, cfg.maxReps, cfg.depth = 2, 2, 1
	seed := rc.seed*11_000_027 + int64(idx)
	g := newGen(seed, cfg)
	p := parSes{Seed: seed, Par: 6}
	gr := g.gram()
	if !gr.textOK() {
		return nil
	}
	add := func(src string, val, red bool) {
		p.Texts = append(p.Texts, sesText{Src: bytesOf(src), Val: val, Red: red})
	}
	add(gr.text(), g.p(60), g.p(40))
	// the same names, defined otherwise
	g2 := newGen(seed+7_777_777, cfg)
	other := g2.gramWith(g.abc)
	src2 := other.text()
	add(src2, g.p(40), g.p(40))
	// core rules redefined or extended
	core := func() string {
		nm := g.casing(coreNames[g.r.Intn(len(coreNames))])
		op := "=/"
		if g.p(40) {
			op = "="
		}
		return fmt.Sprintf("%s %s %s\r\n", nm, op, g.alt(1).text())
	}
	for k := 1 + g.r.Intn(2); k > 0; k-- {
		s := gr.text()
		if g.p(50) {
			s = src2
		}
		for m := 1 + g.r.Intn(3); m > 0; m-- {
			s = core() + s
		}
		if g.p(30) {
			s += "broken\r\n"
		} else if g.p(20) {
			s += gr.text() // defined twice
		}
		add(s, g.p(30), !g.p(20))
	}
	names := append(append([]string{}, gr.Names...), other.Names...)
	names = append(names, "alpha", "LWSP", "hexdig")
	ncalls := 9 + g.r.Intn(5)
	for k := 0; k < ncalls; k++ {
		c := sesCall{Op: sesOps[g.r.Intn(len(sesOps))], G: g.r.Intn(len(p.Texts)), A: g.r.Intn(1 << 16), B: g.r.Intn(4), In: []int{}}
		c.Rule = g.casing(names[g.r.Intn(len(names))])
		if k < len(p.Texts) {
			c.Op = "read"
			c.G = k
		}
		switch c.Op {
		case "valid", "forest", "bsr", "nx", "gw", "nm", "ast":
			src := gr
			if c.G == 1 {
				src = other
			}
			ws := g.inputs(src, lower(c.Rule), 3, 10, false)
			if len(ws) > 0 {
				c.In = bytesOf(ws[g.r.Intn(len(ws))])
			}
			if g.p(8) && c.Op != "ast" && c.Op[0] != 'g' && c.Op[0] != 'n' {
				c.G, c.Rule = -1, []string{"rulelist", "rule", "elements"}[g.r.Intn(3)]
				c.In = p.Texts[g.r.Intn(2)].Src
				if len(c.In) > 80 {
					c.In = c.In[:80]
				}
			}
		}
		if strings.Contains("tg rd gw nm nx", c.Op) && c.G >= 0 {
			full := parTg{Rules: true, Nums: true, Chars: true}
			if gr.graphSize(lower(c.Rule), full) > 150 || other.graphSize(lower(c.Rule), full) > 150 {
				c.Op = "cycle"
			}
		}
		p.Calls = append(p.Calls, c)
	}
	for k := 0; k < 16; k++ {
		c := sesCall{Op: []string{"forest", "forest", "bsr", "tg"}[k%4], G: k / 4 % 2, A: g.r.Intn(1 << 16), In: []int{}}
		src := []*Gram{gr, other}[c.G]
		c.Rule = g.casing(src.Names[g.r.Intn(len(src.Names))])
		if c.Op == "tg" && src.graphSize(lower(c.Rule), parTg{Rules: true, Nums: true, Chars: true}) > 60 {
			continue
		}
		if ws := g.inputs(src, lower(c.Rule), 3, 8, false); len(ws) > 0 {
			c.In = bytesOf(ws[g.r.Intn(len(ws))])
		}
		if g.p(60) {
			c.In = append(c.In, 0x21)
		}
		p.Looks = append(p.Looks, c)
	}
	for k := 0; k < 2*ncalls; k++ {
		p.Hist = append(p.Hist, 1+g.r.Intn(ncalls))
	}
	c := (&engInput{gr: &Gram{}, root: "", how: "text"}).toCase(fmt.Sprintf("s%d.%d", rc.seed, idx), "ses")
	c.setPar(p)
	return c
}

func init() { props["C09"] = caseProp(drawSes, runSes) }
