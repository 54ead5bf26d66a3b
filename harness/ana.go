package main

// Recorders for the analyses of rules: dependencies and cycles (C17), and
// regular expressions (C06).

import (
	"encoding/json"
	"errors"
	"fmt"
	"regexp"
	"strings"

	goabnf "github.com/pandatix/go-abnf"
)

func (c *Case) par(v any) {
	if len(c.Par) == 0 {
		return
	}
	if err := json.Unmarshal(c.Par, v); err != nil {
		fatal(err)
	}
}

func (c *Case) setPar(v any) { c.Par = json.RawMessage(js(v)) }

// caseProp is a property whose recorder draws cases one by one.
func caseProp(draw func(rc *recorder, idx int) *Case, run func(rc *recorder, c *Case)) propDef {
	return propDef{
		record: func(rc *recorder) {
			for i := rc.shard; i < rc.n; i += rc.shards {
				if c := draw(rc, i); c != nil {
					run(rc, c)
				}
			}
		},
		one: func(rc *recorder, raw []byte) {
			c := &Case{}
			if err := json.Unmarshal(raw, c); err != nil {
				fatal(err)
			}
			run(rc, c)
		},
	}
}

// errKind names the documented errors.
func errKind(err error) string {
	var (
		rnf *goabnf.ErrRuleNotFound
		cyc *goabnf.ErrCyclicRule
		rtl *goabnf.ErrRegexTooLarge
		dep *goabnf.ErrDependencyNotFound
		rep *goabnf.ErrSemanticRepetition
		num *goabnf.ErrTooLargeNumeral
		mne *goabnf.ErrMaxNodesExceeded
		fle *goabnf.ErrForestTooLarge
		gle *goabnf.ErrGrammarTooLarge
	)
	switch {
	case err == nil:
		return "ok"
	case errors.As(err, &rnf):
		return "unknown"
	case errors.As(err, &cyc):
		return "cyclic"
	case errors.As(err, &rtl):
		return "toolarge"
	case errors.As(err, &dep):
		return "dep"
	case errors.As(err, &rep):
		return "rep"
	case errors.As(err, &num):
		return "num"
	case errors.As(err, &mne):
		return "nodes"
	case errors.As(err, &fle):
		return "forest"
	case errors.As(err, &gle):
		return "slots"
	case errors.Is(err, goabnf.ErrHandlingProseVal):
		return "prose"
	}
	return "error"
}

// ---- C17 ----

type parDep struct {
	Asks []string `json:"asks"`
}

type depAsk struct {
	N   string `json:"n"`
	K   string `json:"k"`
	Cyc bool   `json:"cyc"`
}

type depNode struct {
	Key  string   `json:"key"`
	N    string   `json:"n"`
	Deps []string `json:"deps"`
}

type obsDep struct {
	Dag  []bool      `json:"dag"`
	Asks []depAsk    `json:"asks"`
	Deps []depNode   `json:"deps"`
	Mer  [][2]string `json:"mer"`
	X    string      `json:"x"`
}

func runDep(rc *recorder, c *Case) {
	rc.begin(c)
	var p parDep
	c.par(&p)
	o := obsDep{Dag: []bool{}, Asks: []depAsk{}, Deps: []depNode{}, Mer: [][2]string{}}
	pan := guard(func() {
		g, err := c.library()
		if err != nil {
			o.X = "read: " + err.Error()
			return
		}
		for i := 0; i < 4; i++ { // whatever the order of maps
			o.Dag = append(o.Dag, g.IsDAG())
		}
		for i := 0; i < 2; i++ {
			for _, a := range p.Asks {
				cyc, err := g.RuleContainsCycle(a)
				o.Asks = append(o.Asks, depAsk{N: lower(a), K: errKind(err), Cyc: cyc})
			}
		}
		dg := g.DependencyGraph()
		for k, n := range dg {
			d := depNode{Key: k, N: lower(n.Rulename), Deps: []string{}}
			for _, x := range n.Dependencies {
				d.Deps = append(d.Deps, lower(x))
			}
			o.Deps = append(o.Deps, d)
		}
		for i, l := range strings.Split(dg.Mermaid(), "\n") {
			l = strings.TrimSpace(l)
			if i == 0 {
				if !strings.HasPrefix(l, "flowchart") {
					o.X = "mermaid: " + l
				}
				continue
			}
			if l == "" {
				continue
			}
			from, to, ok := strings.Cut(l, " --> ")
			if !ok {
				o.X = "mermaid: " + l
				continue
			}
			o.Mer = append(o.Mer, [2]string{lower(from), lower(to)})
		}
	})
	if pan != "" {
		o.X = pan
	}
	c.Obs = o
	rc.emit(c)
}

func drawDep(rc *recorder, idx int) *Case {
	g := newGen(rc.seed*1_000_003+int64(idx), genCfg{maxRules: 1})
	names := []string{"a", "b", "c", "d", "e", "long-name", "r2", "R-3", "F", "g1"}
	n := 1 + g.r.Intn(8)
	perm := g.r.Perm(len(names))
	pool := []string{}
	for i := 0; i < n; i++ {
		pool = append(pool, names[perm[i]])
	}
	if g.p(25) { // a core rule of the grammar's own
		pool[g.r.Intn(len(pool))] = coreNames[g.r.Intn(len(coreNames))]
	}
	shape := g.r.Intn(5)
	gr := &Gram{}
	wrap := func(e *Elem) Rep {
		for g.p(30) {
			if g.p(50) {
				e = eGrp(alt(seq(e), seq(eChr("x"))))
			} else {
				e = eOpt(alt(seq(eChr("y"), e)))
			}
		}
		switch g.r.Intn(6) {
		case 0:
			return rep(0, -1, e)
		case 1:
			return rep(0, 0, e)
		case 2:
			return rep(2, 3, e)
		}
		return one(e)
	}
	for i, nm := range pool {
		a := Alt{}
		for k := g.r.Intn(3); k >= 0; k-- {
			cn := Concat{one(eChr("x"))}
			for m := g.r.Intn(3); m > 0; m-- {
				var e *Elem
				x := g.r.Intn(100)
				switch {
				case x < 12:
					e = eRef(g.casing(coreNames[g.r.Intn(len(coreNames))]))
				case x < 16:
					e = eRef("nowhere")
				default:
					j := g.r.Intn(n)
					switch shape {
					case 0: // forward only
						if i+1 >= n {
							continue
						}
						j = i + 1 + g.r.Intn(n-i-1)
					case 1: // forward, rarely back
						if i+1 < n && !g.p(8) {
							j = i + 1 + g.r.Intn(n-i-1)
						}
					case 2: // a chain, closed or not
						j = i + 1
						if j >= n {
							if g.p(50) {
								continue
							}
							j = g.r.Intn(n)
						}
					}
					e = eRef(g.casing(pool[j]))
				}
				cn = append(cn, wrap(e))
			}
			a = append(a, cn)
		}
		gr.Names = append(gr.Names, nm)
		gr.Alts = append(gr.Alts, a)
	}
	c := (&engInput{gr: gr, root: pool[0], how: "ast"}).toCase(fmt.Sprintf("s%d.%d", rc.seed, idx), "dep")
	p := parDep{}
	for _, nm := range pool {
		p.Asks = append(p.Asks, g.casing(nm))
	}
	p.Asks = append(p.Asks, coreNames[g.r.Intn(len(coreNames))], "lwsp", "nowhere", "")
	c.setPar(p)
	return c
}

// ---- C06 ----

type reBudget struct {
	Max  int    `json:"max"`
	K    string `json:"k"`
	Same bool   `json:"same"`
	Lim  int    `json:"lim"`
}

type obsRe struct {
	K    string     `json:"k"`
	N    string     `json:"n"`    // culprit named by the error
	Comp bool       `json:"comp"` // compiles
	Len  int        `json:"len"`
	M    []bool     `json:"m"`
	Bud  []reBudget `json:"bud"`
	Re   string     `json:"re"`
	X    string     `json:"x"`
}

type parRe struct {
	Buds []int `json:"buds"` // relative to the length, and absolute ones above 1<<20
}

// compileWhole compiles an expression, anchored.
func compileWhole(re string) (*regexp.Regexp, error) {
	if _, err := regexp.Compile(re); err != nil {
		return nil, err
	}
	return regexp.Compile(`\A(?:` + re + `)\z`)
}

func runRe(rc *recorder, c *Case) {
	rc.begin(c)
	var p parRe
	c.par(&p)
	o := obsRe{M: []bool{}, Bud: []reBudget{}}
	pan := guard(func() {
		g, err := c.library()
		if err != nil {
			o.X = "read: " + err.Error()
			return
		}
		re, err := g.Regex(c.Ask)
		o.K = errKind(err)
		var rnf *goabnf.ErrRuleNotFound
		var cyc *goabnf.ErrCyclicRule
		if errors.As(err, &rnf) {
			o.N = lower(rnf.Rulename)
		}
		if errors.As(err, &cyc) {
			o.N = lower(cyc.Rulename)
		}
		if err != nil {
			return
		}
		o.Len = len(re)
		if len(re) < 400 {
			o.Re = strings.ToValidUTF8(re, "?")
		}
		rx, err := compileWhole(re)
		o.Comp = err == nil
		if o.Comp {
			for _, in := range c.Ins {
				o.M = append(o.M, rx.Match(toBytes(in)))
			}
		}
		for _, b := range p.Buds {
			max := b
			if b >= 1<<20 {
				max = b - 1<<20
			} else if b != 0 {
				max = len(re) + b - 1 // 1 is the exact length
			}
			if max < 0 {
				continue
			}
			re2, err := g.Regex(c.Ask, goabnf.WithMaxRegexLen(max))
			ob := reBudget{Max: max, K: errKind(err), Same: re2 == re}
			var rtl *goabnf.ErrRegexTooLarge
			if errors.As(err, &rtl) {
				ob.Lim = rtl.Max
			}
			o.Bud = append(o.Bud, ob)
		}
	})
	if pan != "" {
		o.X = pan
	}
	c.Obs = o
	rc.emit(c)
}

func drawRe(rc *recorder, idx int) *Case {
	if idx < len(curatedRe) {
		cu := curatedRe[idx]
		gr := mparse(cu.src)
		c := (&engInput{gr: gr, root: gr.Names[0], ins: cu.ins, how: "ast"}).toCase(fmt.Sprintf("cur%d", idx), "re")
		c.setPar(parRe{Buds: []int{0, 1, 2, -1}})
		return c
	}
	cfg := defaultCfg()
	cfg.maxRules, cfg.acyclic, cfg.depth = 4, true, 2
	switch idx % 6 {
	case 0:
		cfg.acyclic = false
		cfg.maxRules = 3
	case 1:
		cfg.depth, cfg.maxRules = 3, 2
		cfg.undefined, cfg.prose = false, false
	case 2, 3, 4:
		cfg.prose = false
	}
	g := newGen(rc.seed*1_000_003+int64(idx), cfg)
	gr := g.gram()
	if idx%6 == 4 { // characters special to regular expressions
		g.abc = [][]rune{[]rune("^-"), []rune("]\\"), []rune(".*"), []rune("[a"), []rune("$|"), []rune("{}"), []rune("()"), []rune("?+"), []rune("-/"), []rune("\r\n"), []rune("\x00\t"), []rune("&~")}[g.r.Intn(12)]
		gr = g.gramWith(g.abc)
	}
	var big []string
	if isLarge(idx) {
		g.abc = []rune("xyz")
		gr, big = g.large(40)
		for i, s := range big {
			big[i] = strings.ToValidUTF8(s, "")
		}
	}
	root := g.casing(gr.Names[0])
	if g.p(6) {
		root = append(append([]string{}, coreNames...), "nowhere", "nope-1")[g.r.Intn(len(coreNames)+2)]
	}
	in := &engInput{gr: gr, root: root, how: "ast"}
	if gr.textOK() && g.p(30) {
		in.how = "text"
	}
	in.ins = append(g.inputs(gr, root, 9, 8, true), big...)
	c := in.toCase(fmt.Sprintf("s%d.%d", rc.seed, idx), "re")
	p := parRe{Buds: []int{0, 1, 1<<20 + 1}}
	if g.p(50) {
		p.Buds = append(p.Buds, 2+g.r.Intn(4), -g.r.Intn(5), 1<<20+1+g.r.Intn(30))
	}
	c.setPar(p)
	return c
}

var curatedRe = []curated{
	{`a = "x" / "y" / "xy"`, []string{"x", "y", "xy", "X", "xyx"}},
	{`a = %x5B-5D`, []string{"[", "\\", "]", "^", "Z"}},
	{`a = "-" / "^" / "]" / "\"`, []string{"-", "^", "]", "\\", "[", "a"}},
	{`a = %x2B-2F / %x5A`, []string{"+", ",", "-", ".", "/", "0", "*", "Z"}},
	{`a = *("ab" / "c")`, []string{"", "ab", "c", "abc", "a", "ABCC"}},
	{`a = 2("a" / "b") 2*3"c"`, []string{"abcc", "bbccc", "abc", "abcccc"}},
	{`a = 2*(2*3"a")`, []string{"aaaa", "aaa", "aaaaa", "aaaaaaaa"}},
	{`a = *(*"a")`, []string{"", "a", "aa"}},
	{`a = ["a"] *1"b" 1*1"c"`, []string{"c", "ac", "bc", "abc", "ab"}},
	{`a = 0"a" "b"`, []string{"b", "ab"}},
	{`a = 0"a"`, []string{"", "a"}},
	{`a = ""`, []string{"", "a"}},
	{`a = "" / "b"`, []string{"", "b", "bb"}},
	{`a = *""`, []string{"", "b"}},
	{`a = %x0A / %x0D`, []string{"\n", "\r", "\r\n"}},
	{`a = "." / "$"`, []string{".", "$", "x", "\n"}},
	{`a = %x2E *%x2E`, []string{".", "..", "x", "\n"}},
	{`a = %x00-10FFFF`, []string{"", "\x00", "\n", "x", "\U0010FFFF", "xx"}},
	{`a = *%x00-10FFFF`, []string{"", "\n\n", "x\ny"}},
	{`a = "k" %xE9 "s"`, []string{"kés", "KéS", "kÉs", "\u212aés", "ké\u017f"}},
	{`a = %s"K" / %x212A`, []string{"k", "K", "\u212a"}},
	{"a = b \"1\" / c\nb = \"x\" / \"y\"\nc = b b", []string{"x1", "y1", "xy", "x", "1"}},
	{"a = 3b\nb = \"x\" / \"yz\"", []string{"xxx", "xyzx", "yzyzyz", "xx"}},
	{"a = *(b / \"\")\nb = *\"x\"", []string{"", "x", "xx", "y"}},
	{"a = ALPHA / DIGIT / \"_\"", []string{"a", "Z", "5", "_", "-", "["}},
	{"a = (\"a\" / \"b\") / (\"c\" \"d\")", []string{"a", "b", "cd", "ad", "acd"}},
	{"a = (\"a\" \"b\") *2(\"c\" \"d\" / \"e\")", []string{"ab", "abcd", "abcdcd", "abe", "abecd", "abcde", "abeee"}},
	{"a = a", []string{}},
	{"a = b\nb = c\nc = b / \"x\"", []string{}},
	{"a = [b]\nb = [a]", []string{}},
	{"a = <p> / \"x\"", []string{}},
	{"a = b\nb = \"x\" [<p>]", []string{}},
	{"a = nowhere / \"x\"", []string{"x", ""}},
	{"a = [nowhere]", []string{"", "x"}},
	{"a = 2*1\"x\" / \"y\"", []string{"y", "x", "xx"}},
}

func init() {
	props["C17"] = caseProp(drawDep, runDep)
	props["C06"] = caseProp(drawRe, runRe)
}
