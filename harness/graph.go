package main

// Recorders for transition graphs, their generator and their readers
// (C13, C14, C15, C16).

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"strings"

	goabnf "github.com/pandatix/go-abnf"
)

// Gx is a transition graph as the specification reads it; 0 is the empty node.
type Gx struct {
	E  []*Elem `json:"e"`
	Nx [][]int `json:"nx"`
	En []int   `json:"en"`
	Fi []int   `json:"fi"`
}

func emptyGx() *Gx { return &Gx{E: []*Elem{}, Nx: [][]int{}, En: []int{}, Fi: []int{}} }

// export walks a graph from its entries; an end that no entry reaches is left out.
func export(tg *goabnf.TransitionGraph) (*Gx, map[*goabnf.Node]int) {
	gx := emptyGx()
	idx := map[*goabnf.Node]int{nil: 0}
	var order []*goabnf.Node
	var visit func(n *goabnf.Node) int
	visit = func(n *goabnf.Node) int {
		if i, ok := idx[n]; ok {
			return i
		}
		order = append(order, n)
		idx[n] = len(order)
		return len(order)
	}
	for _, n := range tg.Entrypoints {
		gx.En = append(gx.En, visit(n))
	}
	for i := 0; i < len(order); i++ {
		nx := []int{}
		for _, m := range order[i].Nexts {
			nx = append(nx, visit(m))
		}
		gx.E = append(gx.E, fromLibElem(order[i].Elem))
		gx.Nx = append(gx.Nx, nx)
	}
	for _, n := range tg.Endpoints {
		if i, ok := idx[n]; ok {
			gx.Fi = append(gx.Fi, i)
		}
	}
	return gx, idx
}

type parTg struct {
	Rules bool `json:"rules"`
	Nums  bool `json:"nums"`
	Chars bool `json:"chars"`
	Thr   int  `json:"thr"`
	Def   bool `json:"def"` // default threshold
}

func (p parTg) opts() []goabnf.TGOption {
	o := []goabnf.TGOption{goabnf.WithDeflateRules(p.Rules), goabnf.WithDeflateNumVals(p.Nums), goabnf.WithDeflateCharVals(p.Chars)}
	if !p.Def {
		o = append(o, goabnf.WithRepetitionThreshold(p.Thr))
	}
	return o
}

func tgKind(err error) string {
	switch {
	case errors.Is(err, goabnf.ErrProseValInTransitionGraph):
		return "tgprose"
	case errors.Is(err, goabnf.ErrRepetitionThreshold):
		return "threshold"
	case errors.Is(err, goabnf.ErrRepetitionMinNotOne), errors.Is(err, goabnf.ErrRepetitionMinGtMax):
		return "minmax"
	}
	return errKind(err)
}

type merNode struct {
	I   int    `json:"i"`
	End bool   `json:"end"`
	Ent bool   `json:"ent"`
	Lb  string `json:"lb"` // what is written in it
	Lc  []int  `json:"lc"`
}

type obsTg struct {
	K   string    `json:"k"`
	Gx  *Gx       `json:"gx"`
	Mn  []merNode `json:"mn"`
	Ml  [][2]int  `json:"ml"`
	Me  bool      `json:"me"`
	Big bool      `json:"big"` // too large to be looked at: only that it is built
	X   string    `json:"x"`
}

func (o *obsTg) drawn(s string, idx map[*goabnf.Node]int) {
	byID := map[string]int{}
	for n, i := range idx {
		if n != nil {
			byID[n.ID] = i
		}
	}
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		switch {
		case l == "" || strings.HasPrefix(l, "flowchart") || strings.HasPrefix(l, "classDef"):
		case strings.HasPrefix(l, "emptyNode"):
			o.Me = true
		default:
			if f, t, ok := strings.Cut(l, " --> "); ok && byID[f] > 0 {
				o.Ml = append(o.Ml, [2]int{byID[f], byID[t]})
				continue
			}
			n := merNode{}
			if i := strings.IndexAny(l, "(["); i > 0 {
				n.I = byID[l[:i]]
				n.End = strings.HasPrefix(l[i:], "(((")
				if j, k := strings.IndexByte(l, '"'), strings.LastIndexByte(l, '"'); j < k {
					n.Lb = l[j+1 : k]
				}
			}
			n.Lc = codes(n.Lb)
			n.Ent = strings.HasSuffix(l, ":::entrypoint")
			o.Mn = append(o.Mn, n)
		}
	}
}

const maxNodes = 120

func runTg(rc *recorder, c *Case) {
	rc.begin(c)
	var p parTg
	c.par(&p)
	o := obsTg{Gx: emptyGx(), Mn: []merNode{}, Ml: [][2]int{}}
	pan := guard(func() {
		g, err := c.library()
		if err != nil {
			o.X = "read: " + err.Error()
			return
		}
		tg, err := g.TransitionGraph(c.Ask, p.opts()...)
		o.K = tgKind(err)
		if err != nil {
			return
		}
		gx, idx := export(tg)
		if o.Big = len(gx.E) > maxNodes; o.Big {
			return
		}
		o.Gx = gx
		o.drawn(tg.ToMermaid(), idx)
	})
	if pan != "" {
		o.X = pan
	}
	c.Obs = o
	rc.emit(c)
}

// graphGram draws a mostly cycle-free grammar.
func graphGram(rc *recorder, idx int, cfg genCfg) (*gen, *Gram) {
	g := newGen(rc.seed*1_000_003+int64(idx), cfg)
	return g, g.gram()
}

func drawTg(rc *recorder, idx int) *Case {
	p := parTg{Thr: 256}
	if idx < 4*len(curatedTg) {
		cu := curatedTg[idx/4]
		gr := mparse(cu.src)
		p.Rules, p.Nums, p.Chars, p.Def = idx%4 > 0, idx%4 > 1, idx%4 == 3, true
		c := (&engInput{gr: gr, root: gr.Names[0], ins: cu.ins, how: "ast"}).toCase(fmt.Sprintf("cur%d", idx), "tg")
		c.setPar(p)
		return c
	}
	cfg := defaultCfg()
	cfg.maxRules, cfg.acyclic, cfg.depth = 4, true, 2
	cfg.undefined, cfg.prose, cfg.badRep = false, false, false
	switch idx % 6 {
	case 0:
		cfg.undefined, cfg.prose, cfg.badRep = true, true, true
	case 1:
		cfg.acyclic, cfg.maxRules = false, 3
		cfg.prose, cfg.undefined = true, true
	case 2:
		cfg.depth, cfg.maxRules = 3, 2
	}
	r := rand.New(rand.NewSource(rc.seed*7_000_003 + int64(idx)))
	p.Rules, p.Nums, p.Chars = r.Intn(4) > 0, r.Intn(2) == 0, r.Intn(2) == 0
	if p.Nums {
		cfg.wide, cfg.core = false, r.Intn(3) == 0
	}
	g, gr := graphGram(rc, idx, cfg)
	var big []string
	if isLarge(idx) {
		gr, big = g.large(24)
	}
	switch g.r.Intn(4) {
	case 0:
		p.Thr = 1 + g.r.Intn(4)
	default:
		p.Def = true
	}
	root := g.casing(gr.Names[0])
	if g.p(4) {
		root = append(append([]string{}, coreNames...), "nowhere")[g.r.Intn(len(coreNames)+1)]
	}
	in := &engInput{gr: gr, root: root, how: "ast"}
	if gr.graphSize(root, p) > 2*maxNodes {
		return nil
	}
	in.ins = append(g.inputs(gr, root, 9, 8, false), big...)
	if idx%12 == 6 { // about the default threshold
		p.Def, p.Thr = true, 256
		a := &gr.Alts[g.r.Intn(len(gr.Alts))]
		n := []int{255, 256, 257, 258, 1000, 1 << 30}[g.r.Intn(6)]
		mn := []int{0, n, n / 2}[g.r.Intn(3)]
		r := Rep{Mn: mn, Mx: n, E: eChr("x")}
		if g.p(30) {
			r.Mn, r.Mx = n, -1
		}
		*a = append(*a, Concat{r})
	}
	c := in.toCase(fmt.Sprintf("s%d.%d", rc.seed, idx), "tg")
	c.setPar(p)
	return c
}

var curatedTg = []curated{
	{`a = "x" / "y" "z"`, []string{"x", "y", "yz", "YZ", "xz"}},
	{`a = *"x"`, []string{"", "x", "xx", "xxx"}},
	{`a = 1*"xy"`, []string{"", "xy", "xyXY", "x"}},
	{`a = ["x"] ["y"] ["z"]`, []string{"", "x", "xz", "yz", "zy", "xyz"}},
	{`a = 2*3("x" / "")`, []string{"", "x", "xx", "xxx", "xxxx"}},
	{`a = *3("x" ["y"])`, []string{"", "xy", "xxy", "xyxyxy", "xxxx", "yx"}},
	{`a = 2*(["x"] "y")`, []string{"y", "yy", "xyy", "xyxyy", "xx"}},
	{`a = *(*"x" *"y")`, []string{"", "xyx", "yyxx", "z"}},
	{`a = 1*3(*"x" "y")`, []string{"y", "xy", "xyyxxy", "x", "yyyy"}},
	{`a = 0"x" "y"`, []string{"y", "xy"}},
	{`a = 0"x" / "y"`, []string{"y", "", "x"}},
	{`a = ("x" / "y") 2("z" / "")`, []string{"x", "xz", "yzz", "zz"}},
	{`a = %x61-63 %x64.65`, []string{"ade", "cde", "de", "dde", "cDe"}},
	{`a = *%x61-63 "b"`, []string{"b", "ab", "bb", "acbb", "B"}},
	{"a = b b\nb = \"x\" / c\nc = \"y\" *\"z\"", []string{"xx", "xyz", "yzzx", "yy", "x"}},
	{"a = 2b *c\nb = [c]\nc = \"x\" / \"yz\"", []string{"", "x", "xx", "yzxyz", "xxxx"}},
	{"a = 3b\nb = 1*2c\nc = \"x\"", []string{"xxx", "xxxx", "xxxxxx", "xx", "xxxxxxx"}},
	{"a = \"\" / \"x\" \"\" / *\"\"", []string{"", "x"}},
	{"a = %xD800 \"x\" / \"y\"", []string{"x", "y"}},
	{"a = [%xD800] \"x\" / \"y\"", []string{"x", "y"}},
	{"a = LWSP", []string{"", " ", "\r\n ", "\t\t", "\r\n"}},
	{"a = CRLF / 2HEXDIG", []string{"\r\n", "aF", "0", "09"}},
	{"a = 2*2\"x\" *0\"y\"", []string{"xx", "xxy"}},
	{"a = 5\"x\"", []string{"xxxxx", "xxxx", "xxxxxx"}},
	{"a = 2*5(\"x\" *\"y\")", []string{"xx", "xyx", "xyyxxxx", "xxxxxx", "x"}},
}

// ---- C14 ----

type parTw struct {
	Nums  bool      `json:"nums"`
	Chars bool      `json:"chars"`
	Rules bool      `json:"rules"`
	Len   int       `json:"len"`
	Reps  int       `json:"reps"`
	Steps int       `json:"steps"`
	Def   bool      `json:"def"`
	Stab  bool      `json:"stab"`
	Ws    []astWord `json:"ws"`
}

type obsTw struct {
	K  string    `json:"k"`
	Gx *Gx       `json:"gx"`
	Ws []obsWord `json:"ws"`
	X  string    `json:"x"`
}

func runTw(rc *recorder, c *Case) {
	rc.begin(c)
	var p parTw
	c.par(&p)
	o := obsTw{Gx: emptyGx(), Ws: []obsWord{}}
	skip := false
	pan := guard(func() {
		g, err := c.library()
		if err != nil {
			o.X = "read: " + err.Error()
			return
		}
		tg, err := g.TransitionGraph(c.Ask, parTg{Rules: p.Rules, Nums: p.Nums, Chars: p.Chars, Def: true}.opts()...)
		if err != nil {
			skip = true // C13's business
			return
		}
		o.Gx, _ = export(tg)
		if skip = len(o.Gx.E) > maxNodes; skip {
			return
		}
		var opts []goabnf.GenOption
		if !p.Def {
			opts = append(opts, goabnf.WithMaxLength(p.Len), goabnf.WithMaxReps(p.Reps), goabnf.WithMaxSteps(p.Steps))
		}
		if p.Stab {
			opts = append(opts, goabnf.WithStableAddressing())
		}
		tgen, err := goabnf.NewGenerator(tg, opts...)
		o.K = tgKind(err)
		if err != nil {
			return
		}
		for _, w := range p.Ws {
			ow := obsWord{W: []int{}}
			if x := guard(func() {
				tgen2, err := goabnf.NewGenerator(tg, opts...)
				if err != nil {
					ow.X = "refused the second time: " + err.Error()
					return
				}
				ow.generate(&w, tgen, tgen2)
			}); x != "" {
				ow.X = x
			}
			o.Ws = append(o.Ws, ow)
		}
	})
	if skip {
		return
	}
	if pan != "" {
		o.X = pan
	}
	c.Obs = o
	rc.emit(c)
}

func graphCase(rc *recorder, idx int, kind string, small bool) (*gen, *Case) {
	if idx < len(curatedTg) {
		g := newGen(rc.seed*1_000_003+int64(idx), defaultCfg())
		gr := mparse(curatedTg[idx].src)
		g.abc = []rune("xyz")
		return g, (&engInput{gr: gr, root: gr.Names[0], how: "ast", ins: curatedTg[idx].ins}).toCase(fmt.Sprintf("cur%d.%d", rc.seed, idx), kind)
	}
	cfg := defaultCfg()
	cfg.maxRules, cfg.acyclic, cfg.depth, cfg.maxCount = 3, true, 2, 2
	cfg.undefined, cfg.prose, cfg.badRep = false, false, false
	if small {
		cfg.maxAlts, cfg.maxReps, cfg.wide, cfg.core, cfg.maxRules, cfg.depth = 2, 2, false, idx%4 == 0, 2, 1+idx%2
	}
	g, gr := graphGram(rc, idx, cfg)
	if kind == "tw" && idx%3 == 0 {
		// ways of different lengths, told apart by their letters
		cfg.maxReps, cfg.depth, cfg.maxRules, cfg.core, cfg.emptyOK, cfg.wide = 4, 3, 2, false, false, false
		g = newGen(rc.seed*1_000_003+int64(idx), cfg)
		gr = g.gramWith([]rune("abcdefghijklmnop"))
		if idx%6 == 3 {
			gr = g.comb()
		}
	}
	if isLarge(idx) {
		gr, _ = g.large(16)
	}
	// what the expansion refuses is not of interest here
	gr.walk(func(e *Elem) {
		switch e.T {
		case "ser":
			for i, v := range e.V {
				if v > 0x10ffff {
					e.V[i], e.D[i] = 'x', digits('x', e.B)
				}
			}
		case "rng":
			if e.Hi > 0x10ffff {
				e.Hi, e.D[1] = 0x10ffff, digits(0x10ffff, e.B)
			}
		}
	})
	root := g.casing(gr.Names[0])
	in := &engInput{gr: gr, root: root, how: "ast"}
	return g, in.toCase(fmt.Sprintf("s%d.%d", rc.seed, idx), kind)
}

// comb: ways of several lengths that split and join, each step its own letter.
func (g *gen) comb() *Gram {
	next := rune('A')
	letter := func() Rep {
		if next > 'z' {
			next = 'A'
		}
		e := eChrS(string(next))
		next++
		return one(e)
	}
	var ways func(depth int) Concat
	ways = func(depth int) Concat {
		var c Concat
		for n := g.r.Intn(4); n > 0; n-- {
			c = append(c, letter())
		}
		if depth > 0 && g.p(75) {
			a := Alt{}
			for n := 2 + g.r.Intn(2); n > 0; n-- {
				a = append(a, ways(depth-1))
			}
			e := eGrp(a)
			if g.p(15) {
				e = eOpt(a)
			}
			r := one(e)
			if g.p(10) {
				r = rep(1, -1, e)
			}
			c = append(c, r)
			for n := g.r.Intn(3); n > 0; n-- {
				c = append(c, letter())
			}
		}
		if len(c) == 0 {
			c = append(c, letter())
		}
		return c
	}
	return &Gram{Names: []string{"a"}, Alts: []Alt{{ways(3)}}}
}

func drawTw(rc *recorder, idx int) *Case {
	g, c := graphCase(rc, idx, "tw", false)
	p := parTw{Rules: true, Chars: g.p(30), Nums: g.p(20), Stab: g.p(40),
		Len:   []int{0, 1, 2, 3, 5, 10, 20, -1}[g.r.Intn(8)],
		Reps:  []int{0, 1, 1, 2, 3, -1}[g.r.Intn(6)],
		Steps: []int{0, 1, 2, 3, 5, 50, 100000}[g.r.Intn(7)],
	}
	if g.p(4) {
		p.Rules = false
	}
	steer := idx%3 == 0 && g.p(60)
	if steer {
		p.Steps = g.r.Intn(3)
	}
	switch x := g.r.Intn(8); {
	case steer:
	case x == 0:
		p.Def, p.Len, p.Reps, p.Steps = true, 4096, 32, 100000
	case x == 1:
		p.Len, p.Reps = 4096, 100
	case x == 2:
		p.Reps, p.Steps = 100, 100000
	case x == 3:
		p.Len, p.Steps = 4096, 100000
	}
	for i := 0; i < 7; i++ {
		w := astWord{Tape: g.tape()}
		if g.p(30) {
			w.Rnd, w.Seed = true, g.r.Int63()
		}
		p.Ws = append(p.Ws, w)
	}
	c.Ins = [][]int{}
	if c.gram().graphSize(c.Ask, parTg{Rules: p.Rules, Nums: p.Nums, Chars: p.Chars}) > maxNodes {
		return nil
	}
	c.setPar(p)
	return c
}

// ---- C15 ----

type parNx struct {
	Nums  bool    `json:"nums"`
	Chars bool    `json:"chars"`
	Tapes [][]int `json:"tapes"`
}

// missLabel is the edit a label tells of.
type missLabel struct {
	Op  string `json:"op"` // "" unless it is known
	Off int    `json:"off"`
	N   int    `json:"n"`
	B   int    `json:"b"`
}

func parseMissLabel(s string) (l missLabel) {
	what := ""
	scan := func(format string, a ...any) bool {
		n, err := fmt.Sscanf(s, format, a...)
		return err == nil && n == len(a)
	}
	switch {
	case scan("byte at offset %d is one %s num-val", &l.Off, &what) && (what == "below" || what == "above"):
		l.Op = what
	case scan("byte at offset %d substituted with 0x%x", &l.Off, &l.B):
		l.Op = "sub"
	case scan("truncated by %d byte(s) (len %d)", &l.N, &l.Off):
		l.Op = "cut"
	case scan("trailing byte 0x%x appended", &l.B):
		l.Op = "add"
	case scan("byte at offset %d deleted", &l.Off):
		l.Op = "del"
	default:
		l = missLabel{Op: "?"}
	}
	return l
}

type obsMiss struct {
	Base []int     `json:"base"`
	Lab  missLabel `json:"lab"`
	OK   bool      `json:"ok"`
	W    []int     `json:"w"`
	Long bool      `json:"long"`
	Same bool      `json:"same"`
	X    string    `json:"x"`
}

type obsNext struct {
	OK   bool   `json:"ok"`
	Acc  bool   `json:"acc"`
	Next []int  `json:"next"`
	X    string `json:"x"`
}

type obsNx struct {
	K  string    `json:"k"`
	Ms []obsMiss `json:"ms"`
	Nx []obsNext `json:"nx"`
	X  string    `json:"x"`
}

func runNx(rc *recorder, c *Case) {
	rc.begin(c)
	var p parNx
	c.par(&p)
	o := obsNx{Ms: []obsMiss{}, Nx: []obsNext{}}
	skip := false
	pan := guard(func() {
		g, err := c.library()
		if err != nil {
			o.X = "read: " + err.Error()
			return
		}
		tg, err := g.TransitionGraph(c.Ask, parTg{Rules: true, Nums: p.Nums, Chars: p.Chars, Def: true}.opts()...)
		if err != nil {
			skip = true
			return
		}
		tgen, err := goabnf.NewGenerator(tg, goabnf.WithMaxLength(8), goabnf.WithMaxReps(3))
		o.K = tgKind(err)
		if err != nil {
			return
		}
		for i, t := range p.Tapes {
			m := obsMiss{W: []int{}, Base: []int{}, Same: true}
			if x := guard(func() {
				if i == 0 {
					w, _, ok := tgen.NearMissRand(rand.New(rand.NewSource(int64(len(t)))))
					m.OK = ok
					if len(w) > longWord {
						m.Long = true
					} else {
						m.W = bytesOf(string(w))
					}
					return
				}
				w, l, ok := tgen.NearMiss(toBytes(t))
				w2, l2, ok2 := tgen.NearMiss(toBytes(t))
				m.OK, m.Same = ok, ok == ok2 && l == l2 && bytes.Equal(w, w2)
				if len(w) > longWord {
					m.Long = true
				} else {
					m.W = bytesOf(string(w))
					m.Base = bytesOf(string(tgen.Generate(toBytes(t))))
					m.Lab = parseMissLabel(l)
				}
			}); x != "" {
				m.X = x
			}
			o.Ms = append(o.Ms, m)
		}
		for _, in := range c.Ins {
			e := obsNext{Next: []int{}}
			if x := guard(func() {
				nx, acc, ok := tgen.ExpectedNext(toBytes(in))
				e.OK, e.Acc = ok, acc
				e.Next = bytesOf(string(nx))
			}); x != "" {
				e.X = x
			}
			o.Nx = append(o.Nx, e)
		}
	})
	if skip {
		return
	}
	if pan != "" {
		o.X = pan
	}
	c.Obs = o
	rc.emit(c)
}

func drawNx(rc *recorder, idx int) *Case {
	g, c := graphCase(rc, idx, "nx", false)
	p := parNx{Chars: g.p(30), Nums: g.p(15)}
	for i := 0; i < 4; i++ {
		p.Tapes = append(p.Tapes, g.tape())
	}
	gr := c.gram()
	seen := map[string]bool{}
	c.Ins = [][]int{}
	add := func(s string) {
		if len(s) <= 8 && !seen[s] && len(c.Ins) < 7 {
			seen[s] = true
			c.Ins = append(c.Ins, bytesOf(s))
		}
	}
	add("")
	for i := 0; i < 12; i++ { // octet prefixes of words, altered or not
		b := 4 + g.r.Intn(10)
		w := g.word(gr, c.Ask, &b)
		if g.p(25) {
			w = g.mutate(w, false)
		}
		if len(w) > 0 && g.p(70) {
			w = w[:1+g.r.Intn(len(w))]
		}
		add(w)
	}
	if c.gram().graphSize(c.Ask, parTg{Rules: true, Nums: p.Nums, Chars: p.Chars}) > maxNodes {
		return nil
	}
	c.setPar(p)
	return c
}

// ---- C16 ----

type parRd struct {
	Compact bool `json:"compact"`
	Nums    bool `json:"nums"`
	Chars   bool `json:"chars"`
	Limit   int  `json:"limit"`
	Calls   int  `json:"calls"` // seed of the call history
	Long    bool `json:"long"`
}

type rdCall struct {
	Op  string `json:"op"`
	R   bool   `json:"r"`
	W   []int  `json:"w"`
	Got bool   `json:"got"`
}

type obsRd struct {
	K    string   `json:"k"`
	Gx   *Gx      `json:"gx"`
	Ws   [][]int  `json:"ws"`
	H    []rdCall `json:"h"`
	Cut  bool     `json:"cut"`
	Same bool     `json:"same"`
	X    string   `json:"x"`
}

func runRd(rc *recorder, c *Case) {
	rc.begin(c)
	var p parRd
	c.par(&p)
	o := obsRd{Gx: emptyGx(), Ws: [][]int{}, H: []rdCall{}, Same: true}
	skip := false
	pan := guard(func() {
		g, err := c.library()
		if err != nil {
			o.X = "read: " + err.Error()
			return
		}
		tg, err := g.TransitionGraph(c.Ask, parTg{Rules: true, Nums: p.Nums, Chars: p.Chars, Def: true}.opts()...)
		if err != nil {
			skip = true
			return
		}
		o.Gx, _ = export(tg)
		if skip = len(o.Gx.E) > 40 && !p.Long; skip {
			return
		}
		o.K = "ok"
		mode := goabnf.CoverageAllTrails
		if p.Compact {
			mode = goabnf.CoverageCompact
		}
		a, b, d := tg.Reader(goabnf.WithCoverageMode(mode)), tg.Reader(goabnf.WithCoverageMode(mode)), tg.Reader(goabnf.WithCoverageMode(mode))
		// one plain reading
		for a.Next() {
			if len(o.Ws) == p.Limit {
				o.Cut = true
				break
			}
			w := a.Scan()
			o.Ws = append(o.Ws, bytesOf(string(w)))
			for i := range w {
				w[i] = '?' // it is ours
			}
		}
		// another, with any history of calls, and a third one in between
		r := rand.New(rand.NewSource(int64(p.Calls)))
		n, m := 0, 0
		for past := 0; past < 4 && len(o.H) < 6*p.Limit; {
			for k := r.Intn(3); k > 0; k-- {
				o.H = append(o.H, rdCall{Op: "n", R: b.Next(), W: []int{}})
			}
			if r.Intn(3) == 0 {
				if m < len(o.Ws) {
					o.Same = o.Same && d.Next() && string(d.Scan()) == string(toBytes(o.Ws[m]))
					m++
				}
			}
			w := b.Scan()
			o.H = append(o.H, rdCall{Op: "s", W: bytesOf(string(w))})
			if n < len(o.Ws) {
				o.Same = o.Same && string(w) == string(toBytes(o.Ws[n]))
				n++
			} else {
				past++
			}
		}
	})
	if skip {
		return
	}
	if pan != "" {
		o.X = pan
	}
	c.Obs = o
	rc.emit(c)
}

// long: a chain of many nodes, with a few ways apart and loops along it.
func (g *gen) long() *Gram {
	var c Concat
	ways := 0
	for n := 1 + g.r.Intn(3); n > 0; n-- {
		for k := 4 + g.r.Intn(30); k > 0; k-- {
			c = append(c, one(eChr(string("-.:+"[g.r.Intn(4)]))))
		}
		if ways++; ways > 3 {
			continue
		}
		switch g.r.Intn(5) {
		case 0:
			c = append(c, one(eGrp(Alt{{one(eChr("!"))}, {one(eChr("?"))}})))
		case 1:
			c = append(c, one(eOpt(Alt{{one(eChr("#")), one(eChr("$"))}})))
		case 2:
			c = append(c, rep(1, 1+g.r.Intn(3), eChr("%")))
		case 3:
			c = append(c, rep(0, -1, eGrp(Alt{{one(eChr("&")), one(eChr(","))}})))
		case 4:
			c = append(c, one(eChr("a")), one(eGrp(Alt{{one(eChrS("b"))}, {one(eChr("_"))}})))
		}
	}
	return &Gram{Names: []string{"a"}, Alts: []Alt{{c}}}
}

func drawRd(rc *recorder, idx int) *Case {
	g, c := graphCase(rc, idx, "rd", true)
	p := parRd{Compact: g.p(40), Chars: g.p(30), Nums: g.p(40), Limit: 100, Calls: g.r.Intn(1 << 30)}
	if idx%50 == 49 {
		c = (&engInput{gr: g.long(), root: "a", how: "ast"}).toCase(c.ID, "rd")
		p.Long = true
	}
	c.Ins = [][]int{}
	if !p.Long && c.gram().graphSize(c.Ask, parTg{Rules: true, Nums: p.Nums, Chars: p.Chars}) > 40 {
		return nil
	}
	c.setPar(p)
	return c
}

func init() {
	props["C13"] = caseProp(drawTg, runTg)
	props["C14"] = caseProp(drawTw, runTw)
	props["C15"] = caseProp(drawNx, runNx)
	props["C16"] = caseProp(drawRd, runRd)
}

// graphSize estimates how many nodes the expansion of a rule takes, so that the
// cases drawn remain of a size that can be explored.
func (g *Gram) graphSize(root string, p parTg) int {
	const big = 1 << 20
	core := map[string]int{"alpha": 52, "bit": 2, "char": 127, "ctl": 33, "digit": 10, "hexdig": 22, "octet": 256, "vchar": 94, "lwsp": 5, "wsp": 2, "crlf": 2}
	var alt func(a Alt, depth int) int
	active, memo := map[string]bool{}, map[string]int{}
	rule := func(n string, depth int) int {
		if active[n] {
			return 0 // cyclic: refused
		}
		if v, ok := memo[n]; ok {
			return v
		}
		active[n] = true
		defer delete(active, n)
		for i := len(g.Names) - 1; i >= 0; i-- {
			if lower(g.Names[i]) == n {
				memo[n] = alt(g.Alts[i], depth+1)
				return memo[n]
			}
		}
		if p.Nums && core[n] > 0 {
			return core[n]
		}
		return 2
	}
	elem := func(e *Elem, depth int) int {
		switch e.T {
		case "ref":
			if !p.Rules {
				return 1
			}
			return rule(e.N, depth)
		case "grp", "opt":
			return alt(e.A, depth)
		case "chr":
			if p.Chars {
				return 2 * len(e.V)
			}
		case "ser":
			return len(e.V)
		case "rng":
			if p.Nums && e.Hi >= e.Lo {
				return min(e.Hi-e.Lo+1, big)
			}
		}
		return 1
	}
	alt = func(a Alt, depth int) int {
		n := 0
		for _, c := range a {
			for _, r := range c {
				k := r.Mx
				if k < 0 || k >= maxI32 {
					k = r.Mn + 1
				}
				if thr := p.Thr; k > 256 || !p.Def && thr > 0 && k > thr {
					k = 1 // refused
				}
				n = min(n+max(1, min(k, 1<<10))*elem(r.E, depth), big)
			}
		}
		return n
	}
	return rule(lower(root), 0)
}
