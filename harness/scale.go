package main

// Scale: grammars and inputs of hundreds or thousands of rules, alternatives,
// elements, occurrences, levels or octets, of families whose language, counts,
// trees and diagnostics the specification gives in closed form (ConformScale).

import (
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"regexp"
	"strings"

	goabnf "github.com/pandatix/go-abnf"
)

type parSc struct {
	Asp string  `json:"asp"`
	Fam string  `json:"fam"`
	N   int     `json:"n"`
	Mn  int     `json:"mn"`
	Mx  int     `json:"mx"` // -1: none
	Lo  int     `json:"lo"`
	Hi  int     `json:"hi"`
	W   [][]int `json:"w"`
	Bad string  `json:"bad"` // va: what is wrong,
	At  int     `json:"at"`  // and where
	src string
	ws  []string
}

type obsSc struct {
	V  []bool    `json:"v"` // iv, re: answers per input
	F  []bool    `json:"f"` // pf
	B  []bool    `json:"b"`
	FC [][]int   `json:"fc"` // ct: count modulo two primes
	BC [][]int   `json:"bc"`
	FA []bool    `json:"fa"`
	BA []bool    `json:"ba"`
	FT [][][]int `json:"ft"` // tr: nodes in preorder, <<rule (-1: none), start, end, children>>
	BT [][][]int `json:"bt"`
	D  []obsDiag `json:"d"` // dg
	G  []tx      `json:"g"` // rd, pp: rules read
	GS []tx      `json:"gs"`
	GP []tx      `json:"gp"`
	K  []string  `json:"k"`  // what calls answered
	Ws [][]int   `json:"ws"` // words generated
	X  string    `json:"x"`
}

// scWord is the i-th word of three letters.
func scWord(i int) string {
	return string([]byte{byte('a' + i/676%26), byte('a' + i/26%26), byte('a' + i%26)})
}

func (p *parSc) build() {
	S, R := fmt.Sprintf, strings.Repeat
	p.ws = nil
	for _, w := range p.W {
		p.ws = append(p.ws, string(toBytes(w)))
	}
	q := func(sep string) string {
		var s []string
		for _, w := range p.ws {
			s = append(s, `"`+w+`"`)
		}
		return strings.Join(s, sep)
	}
	bounds := func() string {
		if p.Mx < 0 {
			return S("%d*", p.Mn)
		}
		return S("%d*%d", p.Mn, p.Mx)
	}
	switch p.Fam {
	case "star":
		p.src = S("a = *%%x%X-%X\r\n", p.Lo, p.Hi)
	case "cnt":
		p.src = S("a = %s\"%s\"\r\n", bounds(), p.ws[0])
	case "lines":
		p.src = S("a = *(*%%x%X-%X %%x0D.0A)\r\n", p.Lo, p.Hi)
	case "nest":
		p.src = "a = \"(\" a \")\" / \"x\"\r\n"
	case "left":
		p.src = "a = a \"x\" / \"x\"\r\n"
	case "right":
		p.src = "a = \"x\" a / \"x\"\r\n"
	case "alt":
		p.src = "a = " + q(" / ") + "\r\n"
	case "cat":
		p.src = "a = " + q(" ") + "\r\n"
	case "lit":
		p.src = "a = " + q("") + "\r\n"
	case "num":
		var s []string
		for _, b := range p.W[0] {
			s = append(s, S("%X", b))
		}
		p.src = "a = %x" + strings.Join(s, ".") + "\r\n"
	case "twn": // two series, literals or rule names that differ little
		num := func(w []int) string {
			var s []string
			for _, b := range w {
				s = append(s, S("%X", b))
			}
			return "%x" + strings.Join(s, ".")
		}
		p.src = "a = " + num(p.W[0]) + " / \"-\" " + num(p.W[1]) + "\r\n"
	case "twl":
		p.src = S("a = \"%s\" / \"-\" \"%s\"\r\n", p.ws[0], p.ws[1])
	case "twr":
		p.src = S("a = %[1]s / \"-\" %[2]s\r\n%[1]s = \"x\"\r\n%[2]s = \"y\"\r\n", p.ws[0], p.ws[1])
	case "rules":
		var b strings.Builder
		for i, w := range p.ws {
			if i == len(p.ws)-1 {
				fmt.Fprintf(&b, "r%d = \"%s\"\r\n", i, w)
			} else {
				fmt.Fprintf(&b, "r%d = \"%s\" r%d\r\n", i, w, i+1)
			}
		}
		p.src = b.String()
	case "ring":
		var b strings.Builder
		for i, w := range p.ws {
			fmt.Fprintf(&b, "r%d = \"%s\" [r%d]\r\n", i, w, (i+1)%len(p.ws))
		}
		p.src = b.String()
	case "fan":
		var b strings.Builder
		b.WriteString("r0 = ")
		for i := 1; i <= len(p.ws); i++ {
			if i > 1 {
				b.WriteString(" / ")
			}
			fmt.Fprintf(&b, "r%d", i)
		}
		b.WriteString("\r\n")
		for i, w := range p.ws {
			fmt.Fprintf(&b, "r%d = \"%s\"\r\n", i+1, w)
		}
		p.src = b.String()
	case "incr":
		var b strings.Builder
		for i, w := range p.ws {
			fmt.Fprintf(&b, "%s %s \"%s\"\r\n", []string{"a", "A"}[i%2], map[bool]string{true: "=", false: "=/"}[i == 0], w)
		}
		p.src = b.String()
	case "refs": // a rule that uses many, in one way of its own each
		use := []func(i int) string{
			func(i int) string { return S("r%d", i) },
			func(i int) string { return S("(R%d)", i) },
			func(i int) string { return S("*r%d", i) },
			func(i int) string { return S("[1*2R%d]", i) },
			func(i int) string { return S("(\"y\" / (r%d))", i) },
		}[p.Lo%5]
		var b strings.Builder
		b.WriteString("r0 =")
		for i := 1; i <= p.N; i++ {
			u := use(i)
			if i == p.At {
				switch p.Bad {
				case "dep":
					u = strings.Replace(strings.ToLower(u), S("r%d", i), "zz", 1)
				case "rep":
					u = "(3*2" + S("r%d", i) + ")"
				case "num":
					u = "[%x41.110000]"
				}
			}
			b.WriteString(" " + u)
			if i%7 == 0 && i < p.N {
				b.WriteString(" /")
			}
		}
		b.WriteString("\r\n")
		for i := 1; i <= p.N; i++ {
			fmt.Fprintf(&b, "R%d = \"x\"\r\n", i)
			if i == p.At && p.Bad == "ext" {
				b.WriteString("zz =/ \"y\"\r\n")
			}
		}
		if p.Bad == "dup" {
			fmt.Fprintf(&b, "r%d = \"y\"\r\n", p.At)
		}
		p.src = b.String()
	case "grp":
		p.src = "a = " + R("(", p.N) + `"x"` + R(")", p.N) + "\r\n"
	case "opt":
		p.src = "a = " + R("[", p.N) + `"x"` + R("]", p.N) + "\r\n"
	case "dup":
		p.src = "a = *(\"x\" / \"x\")\r\n"
	case "fib":
		p.src = "a = *(\"x\" / \"xx\")\r\n"
	case "catalan":
		p.src = "a = a a / \"x\"\r\n"
	}
}

func (p *parSc) root() string {
	switch p.Fam {
	case "rules", "fan", "ring", "refs":
		return "r0"
	}
	return "a"
}

// inputs of a family, about n octets, some of which are words
func (p *parSc) inputs(g *gen, n int) []string {
	R := strings.Repeat
	flip := func(s string, i int) string { b := []byte(s); b[i] = '!'; return string(b) }
	mid := func(s string) string {
		if len(s) == 0 {
			return "!"
		}
		return flip(s, []int{0, len(s) / 2, len(s) - 1, g.r.Intn(len(s))}[g.r.Intn(4)])
	}
	rnd := func(k int) string {
		b := make([]byte, k)
		for i := range b {
			b[i] = byte(p.Lo + g.r.Intn(p.Hi-p.Lo+1))
		}
		return string(b)
	}
	mix := func(s string) string {
		b := []byte(s)
		for i := range b {
			if g.p(50) {
				b[i] = upperByte(b[i])
			}
		}
		return string(b)
	}
	switch p.Fam {
	case "star":
		s := rnd(n)
		return []string{s, mid(s), s + "!"}
	case "cnt":
		w := p.ws[0]
		out := []string{mix(R(w, p.Mn)), R(w, p.Mn-1), mid(R(w, p.Mn))}
		if p.Mx > 0 {
			out = append(out, mix(R(w, p.Mx)), R(w, p.Mx+1))
		} else {
			out = append(out, R(w, p.Mn+n))
		}
		return out
	case "lines":
		var b strings.Builder
		for b.Len() < n {
			b.WriteString(rnd(g.r.Intn(40)) + "\r\n")
		}
		s := b.String()
		return []string{s, s + "q!", s[:len(s)-1], mid(s)}
	case "nest":
		o, c := R("(", n), R(")", n)
		return []string{o + "x" + c, o + "x" + c[1:], o + "X" + mid(c), o + c, o[1:] + "!" + c}
	case "left", "right":
		return []string{mix(R("x", n)), mid(R("x", n))}
	case "alt", "fan", "incr":
		k := len(p.ws)
		return []string{p.ws[0], mix(p.ws[k-1]), p.ws[g.r.Intn(k)], scWord(k), p.ws[k-1][:2], ""}
	case "cat", "rules":
		s := strings.Join(p.ws, "")
		return []string{s, mix(s), s[:len(s)-1], mid(s)}
	case "lit":
		s := p.ws[0]
		return []string{s, mix(s), s[:len(s)-1], mid(s)}
	case "num":
		s := p.ws[0]
		return []string{s, s[:len(s)-1], mid(s)}
	case "twn", "twl":
		a, b := p.ws[0], p.ws[1]
		return []string{a, "-" + b, b, "-" + a, mix(a), "-" + mix(b), a[:len(a)-1], "-" + b[:len(b)-1]}
	case "twr":
		return []string{"x", "-y", "y", "-x", "-Y", "-", ""}
	case "grp":
		return []string{"x", "X", "", "!"}
	case "opt":
		return []string{"x", "", "!"}
	case "refs":
		return []string{}
	case "dup", "fib", "catalan":
		return []string{R("x", n), R("x", n-1), mid(R("x", n))}
	}
	return nil
}

func upperByte(b byte) byte {
	if b >= 'a' && b <= 'z' {
		return b - 32
	}
	return b
}

func scNodes(t *goabnf.ParseTree) [][]int {
	out := [][]int{}
	var walk func(t *goabnf.ParseTree)
	walk = func(t *goabnf.ParseTree) {
		r := -1
		if t.Rule != "" {
			r = 0
			if l := lower(t.Rule); l[0] == 'r' {
				fmt.Sscan(l[1:], &r)
			}
		}
		out = append(out, []int{r, t.Start, t.End, len(t.Children)})
		for _, k := range t.Children {
			walk(k)
		}
	}
	if t != nil {
		walk(t)
	}
	return out
}

func scCount(n *big.Int) []int {
	m := func(p int64) int { return int(new(big.Int).Mod(n, big.NewInt(p)).Int64()) }
	return []int{m(30011), m(32003), n.Sign()}
}

func newObsSc() obsSc {
	return obsSc{V: []bool{}, F: []bool{}, B: []bool{}, FC: [][]int{}, BC: [][]int{}, FA: []bool{}, BA: []bool{}, FT: [][][]int{}, BT: [][][]int{},
		D: []obsDiag{}, G: []tx{}, GS: []tx{}, GP: []tx{}, K: []string{}, Ws: [][]int{}}
}

func runSc(rc *recorder, c *Case) {
	rc.begin(c)
	var p parSc
	c.par(&p)
	p.build()
	o := newObsSc()
	word := func(w []byte) {
		if len(w) <= 70000*3 {
			o.Ws = append(o.Ws, bytesOf(string(w)))
		}
	}
	pan := guard(func() {
		g, err := goabnf.ParseABNF([]byte(p.src))
		if p.Asp == "va" {
			var (
				dup *goabnf.ErrDuplicatedRule
				rnf *goabnf.ErrRuleNotFound
				dep *goabnf.ErrDependencyNotFound
			)
			switch {
			case errors.As(err, &dup):
				o.K = append(o.K, "dup", lower(dup.Rulename))
			case errors.As(err, &rnf):
				o.K = append(o.K, "ext", lower(rnf.Rulename))
			case errors.As(err, &dep):
				o.K = append(o.K, "dep", lower(dep.Rulename))
			default:
				o.K = append(o.K, errKind(err), "")
			}
			return
		}
		if err != nil {
			o.X = "read: " + err.Error()
			return
		}
		fail := func(err error) {
			if err != nil && o.X == "" {
				o.X = "error: " + err.Error()
			}
		}
		switch p.Asp {
		case "rd":
			o.G = txGram(g)
			return
		case "pp":
			o.G = txGram(g)
			gs, err := goabnf.ParseABNF([]byte(g.String()))
			if err != nil {
				o.X = "reading the rendering: " + err.Error()
				return
			}
			o.GS = txGram(gs)
			gp, err := goabnf.ParseABNF([]byte(g.PrettyPrint()))
			if err != nil {
				o.X = "reading the pretty rendering: " + err.Error()
				return
			}
			o.GP = txGram(gp)
			return
		case "cy":
			v, err := g.RuleContainsCycle(p.root())
			fail(err)
			o.V = append(o.V, v, g.IsDAG())
			m := g.DependencyGraph()
			o.K = append(o.K, fmt.Sprint(strings.Count(m.Mermaid(), "-->")))
			return
		case "gw":
			for s := int64(1); s <= 6 && (s == 1 || p.N < 9000); s++ {
				w, err := g.Generate(s, c.Ask, goabnf.WithRepMax(p.N+5), goabnf.WithThreshold(1<<20))
				fail(err)
				word(w)
			}
			return
		case "ag":
			a, err := goabnf.NewASTGenerator(g, c.Ask, goabnf.WithMaxLen(1<<20), goabnf.WithMaxRepeat(p.N+5), goabnf.WithMaxDepth(p.N*2+10))
			fail(err)
			if err != nil {
				return
			}
			r := rand.New(rand.NewSource(int64(p.N)))
			if p.N >= 9000 {
				word(a.Generate(nil))
				return
			}
			for s := 0; s < 6; s++ {
				t := make([]byte, p.N)
				r.Read(t)
				word(a.Generate(t))
				word(a.GenerateRand(r))
			}
			return
		case "re":
			s, err := g.Regex(c.Ask)
			fail(err)
			if err != nil {
				return
			}
			x, err := regexp.Compile(`\A(?:` + s + `)\z`)
			if err != nil {
				o.X = "compile: " + tail(err.Error(), 100)
				return
			}
			for _, in := range c.Ins {
				o.V = append(o.V, x.Match(toBytes(in)))
			}
			return
		case "nx":
			tg, err := g.TransitionGraph(c.Ask, goabnf.WithDeflateRules(true), goabnf.WithRepetitionThreshold(1<<20))
			fail(err)
			if err != nil {
				return
			}
			gn, err := goabnf.NewGenerator(tg, goabnf.WithMaxLength(1<<20), goabnf.WithMaxReps(p.N+5))
			fail(err)
			if err != nil {
				return
			}
			for _, in := range c.Ins {
				n, acc, ok := gn.ExpectedNext(toBytes(in))
				o.V = append(o.V, acc && ok)
				o.F = append(o.F, ok)
				o.Ws = append(o.Ws, bytesOf(string(n)))
			}
			return
		case "er": // everything a reader gives, in both modes
			tg, err := g.TransitionGraph(c.Ask, goabnf.WithDeflateRules(true), goabnf.WithRepetitionThreshold(1<<20))
			fail(err)
			if err != nil {
				return
			}
			mode := goabnf.CoverageAllTrails
			if p.Bad == "compact" {
				mode = goabnf.CoverageCompact
			}
			r := tg.Reader(goabnf.WithCoverageMode(mode))
			for r.Next() && len(o.Ws) < 20000 {
				word(r.Scan())
			}
			return
		case "tw":
			tg, err := g.TransitionGraph(c.Ask, goabnf.WithDeflateRules(true), goabnf.WithRepetitionThreshold(1<<20))
			fail(err)
			if err != nil {
				return
			}
			gn, err := goabnf.NewGenerator(tg, goabnf.WithMaxLength(1<<20), goabnf.WithMaxReps(p.N+5))
			fail(err)
			if err != nil {
				return
			}
			r := rand.New(rand.NewSource(int64(p.N)))
			for s := 0; s < 6; s++ {
				t := make([]byte, p.N)
				r.Read(t)
				word(gn.Generate(t))
				word(gn.GenerateRand(r))
			}
			return
		}
		for _, in := range c.Ins {
			b := toBytes(in)
			if p.Asp == "iv" {
				v, err := g.IsValid(c.Ask, b)
				fail(err)
				o.V = append(o.V, v)
				continue
			}
			f, err := goabnf.ParseForest(b, g, c.Ask)
			fail(err)
			if p.Asp == "dg" {
				o.D = append(o.D, diagOf(f.ParseError(), b))
				continue
			}
			s, err := goabnf.ParseBSR(b, g, c.Ask)
			fail(err)
			if f == nil || s == nil {
				if o.X == "" {
					o.X = "nothing parsed"
				}
				return
			}
			switch p.Asp {
			case "pf":
				o.F, o.B = append(o.F, f.Valid()), append(o.B, s.Valid())
			case "ct":
				o.FC, o.BC = append(o.FC, scCount(f.NumTrees())), append(o.BC, scCount(s.NumTrees()))
				o.FA, o.BA = append(o.FA, f.Ambiguous()), append(o.BA, s.Ambiguous())
			case "tr":
				o.FT, o.BT = append(o.FT, scNodes(f.Tree())), append(o.BT, scNodes(s.Tree()))
			}
		}
	})
	if pan != "" {
		o.X = pan
	}
	c.Obs = o
	rc.emit(c)
}

// sizes around which things tend to change
var scSizes = []int{63, 64, 65, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 400, 511, 512, 513}
var scMore = []int{999, 1000, 1001, 1023, 1024, 1025, 2048, 4095, 4096, 4097}
var scMost = []int{10000, 32767, 32768, 65535, 65536, 65537}

var scFams = map[string][]string{
	"iv": {"star", "cnt", "lines", "nest", "left", "right", "alt", "cat", "lit", "num", "rules", "fan", "incr", "grp", "opt", "dup", "fib", "twn", "twl", "twr"},
	"pf": {"star", "cnt", "lines", "nest", "left", "right", "alt", "cat", "lit", "num", "rules", "fan", "incr", "grp", "opt", "dup", "fib", "catalan", "twn", "twl", "twr"},
	"ct": {"star", "cnt", "lines", "nest", "left", "right", "alt", "cat", "rules", "fan", "opt", "dup", "fib", "catalan", "dup", "fib", "catalan", "twn", "twl", "twr"},
	"tr": {"star", "cnt", "lines", "nest", "left", "right", "alt", "cat", "lit", "num", "rules", "fan", "grp", "twn", "twl", "twr"},
	"dg": {"star", "lines", "nest", "alt", "cat", "rules", "fan"},
	"rd": {"star", "cnt", "alt", "cat", "lit", "num", "rules", "fan", "incr", "grp", "opt", "twn", "twl", "twr"},
	"pp": {"star", "cnt", "alt", "cat", "lit", "num", "rules", "fan", "incr", "grp", "opt", "twn", "twl", "twr"},
	"cy": {"rules", "ring", "fan"},
	"gw": {"star", "cnt", "lines", "alt", "cat", "lit", "num", "rules", "fan", "incr", "grp", "opt", "nest", "twn", "twl", "twr"},
	"ag": {"star", "cnt", "lines", "alt", "cat", "lit", "num", "rules", "fan", "incr", "grp", "opt", "nest", "twn", "twl", "twr"},
	"re": {"star", "cnt", "lines", "alt", "cat", "lit", "num", "rules", "fan", "incr", "grp", "twn", "twl", "twr"},
	"nx": {"star", "cnt", "lines", "alt", "cat", "lit", "num", "rules", "fan", "incr", "twn", "twl", "twr"},
	"gp": {"star", "cnt", "lines", "nest", "left", "right", "alt", "cat", "lit", "num", "rules", "fan", "incr", "grp", "opt", "dup", "fib", "catalan", "twn", "twl", "twr"},
	"va": {"refs"},
	"er": {"lit", "alt", "cat", "fan", "num", "rules", "incr", "twn", "twl", "twr", "grp", "opt"},
	"tw": {"star", "cnt", "lines", "alt", "cat", "lit", "num", "rules", "fan", "incr", "twn", "twl", "twr"},
}

func drawSc(asp string) func(rc *recorder, idx int) *Case {
	return func(rc *recorder, idx int) *Case {
		g := newGen(rc.seed*19_000_013+int64(idx), defaultCfg())
		fams := scFams[asp]
		p := parSc{Asp: asp, Fam: fams[idx%len(fams)], W: [][]int{}, Mx: -1}
		p.Lo = 0x30 + g.r.Intn(40)
		p.Hi = p.Lo + 1 + g.r.Intn(20)
		sizes := scSizes
		// what is linear in the size goes further
		linear := false
		switch p.Fam {
		case "lines":
			linear = true
		case "star", "cnt":
			linear = strings.Contains("iv gw ag re nx tw rd pp", asp)
		case "left":
			linear = asp != "iv"
		}
		n := sizes[g.r.Intn(len(sizes))]
		if linear && g.p(50) {
			n = scMore[g.r.Intn(len(scMore))]
		}
		if asp == "iv" && (p.Fam == "star" || p.Fam == "lines" || p.Fam == "cnt") && g.p(30) {
			n = scMost[g.r.Intn(len(scMost))]
		}
		if p.Fam == "cnt" && (asp == "gw" || asp == "ag") && (idx/len(fams))%2 == 0 {
			n = scMost[g.r.Intn(len(scMost))]
		}
		if asp == "va" {
			n = append(sizes, 8, 30, 31, 32, 33, 50)[g.r.Intn(len(sizes)+6)]
			n = min(n, 260)
			p.Bad = []string{"dep", "rep", "num", "dup", "ext", "ok"}[idx%6]
			p.At = []int{1, n, 1 + g.r.Intn(n), (n + 1) / 2}[g.r.Intn(4)]
		}
		switch p.Fam {
		case "alt", "cat", "fan", "incr", "rules", "ring":
			if g.p(20) {
				n = 999 + g.r.Intn(30)
				if p.Fam == "fan" || p.Fam == "rules" && asp == "ag" {
					n /= 2
				}
			}
		case "catalan":
			n = 30 + g.r.Intn(20)
		case "dup", "fib":
			n = 40 + g.r.Intn(200)
		case "grp", "opt":
			if n = 40 + g.r.Intn(90); asp == "rd" || asp == "pp" {
				n = 20 + g.r.Intn(25)
			}
		}
		if strings.HasPrefix(p.Fam, "tw") {
			n = 2 + g.r.Intn(80)
			if g.p(20) {
				n = sizes[g.r.Intn(len(sizes))]
			}
		}
		if asp == "er" { // as many words as can be looked at
			switch p.Fam {
			case "lit":
				n = 9 + g.r.Intn(6)
			case "twl":
				n = 5 + g.r.Intn(8)
			case "cat", "rules":
				n = 2 + g.r.Intn(3)
			case "alt", "fan", "incr":
				n = 60 + g.r.Intn(240)
			}
			if idx/len(fams)%2 == 1 {
				p.Bad = "compact"
			}
		}
		if asp == "nx" || asp == "tw" {
			n = min(n, 520)
		}
		if p.Fam == "lines" && strings.Contains("gw ag tw", asp) {
			n = 50 + g.r.Intn(60)
		}
		if asp == "re" && p.Fam == "cnt" {
			n = min(n, 480)
		}
		p.N = n
		words := func(k, from int) {
			for i := 0; i < k; i++ {
				p.W = append(p.W, bytesOf(scWord(from+i)))
			}
		}
		switch p.Fam {
		case "cnt":
			p.W = [][]int{bytesOf([]string{"x", "yz", "abc"}[g.r.Intn(3)])}
			p.Mn = n
			if g.p(60) {
				p.Mx = n + g.r.Intn(n+1)
			}
		case "alt", "cat", "rules", "ring", "fan", "incr":
			words(n, 0)
		case "twn", "twl", "twr":
			b := make([]byte, n)
			for i := range b {
				b[i] = byte('a' + g.r.Intn(26))
				if i > 0 && g.p(30) {
					b[i] = "0123456789-"[g.r.Intn(11)]
				}
			}
			d := append([]byte(nil), b...)
			at := []int{n - 1, n - 1, 0, g.r.Intn(n), n / 2}[g.r.Intn(5)]
			for d[at] == b[at] {
				d[at] = byte('b' + g.r.Intn(25))
				if p.Fam == "twn" && g.p(50) {
					d[at] = byte(0x20 + g.r.Intn(0x5e))
				}
			}
			if p.Fam == "twr" {
				b[0], d[0] = 'q', 'q'
				if at == 0 {
					d[0] = 'p'
				}
			}
			p.W = [][]int{bytesOf(string(b)), bytesOf(string(d))}
		case "lit", "num":
			b := make([]byte, n)
			for i := range b {
				b[i] = byte('a' + g.r.Intn(26))
			}
			p.W = [][]int{bytesOf(string(b))}
		}
		p.build()
		in := &engInput{gr: &Gram{}, root: g.casing(p.root()), how: "text", ins: p.inputs(g, n)}
		c := in.toCase(fmt.Sprintf("sc%d.%d", rc.seed, idx), "sc")
		if len(in.ins) > 0 && len(in.ins[0]) > 9000 {
			c.Ins = c.Ins[:2]
		}
		c.setPar(p)
		return c
	}
}

func init() {
	for prop, asp := range map[string]string{"C01": "iv", "C02": "pf", "C03": "ct", "C04": "tr", "C19": "dg", "C07": "rd", "C10": "pp", "C17": "cy",
		"C11": "gw", "C12": "ag", "C06": "re", "C15": "nx", "C14": "tw", "C08": "va", "C16": "er"} {
		props[prop+"sc"] = caseProp(drawSc(asp), runSc)
	}
}
