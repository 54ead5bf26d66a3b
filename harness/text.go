package main

// Recorders for reading and printing ABNF source (C07, C08, C10).

import (
	"encoding/json"
	"errors"
	"fmt"
	"strings"

	goabnf "github.com/pandatix/go-abnf"
)

// ---- the abstract syntax as spec/AbnfText.tla has it ----

type tx = map[string]any

func txName(s string) []int { return bytesOf(lower(s)) }

func txDigits(d string) []int {
	s := strings.TrimLeft(strings.ToUpper(d), "0")
	if s == "" {
		s = "0"
	}
	return bytesOf(s)
}

func txBase(b string) int {
	if len(b) != 1 {
		return -1
	}
	return int(lower(b)[0])
}

func txElem(e goabnf.ElemItf) tx {
	switch v := e.(type) {
	case goabnf.ElemRulename:
		return tx{"t": "ref", "n": txName(v.Name)}
	case goabnf.ElemGroup:
		return tx{"t": "grp", "a": txAlt(v.Alternation)}
	case goabnf.ElemOption:
		return tx{"t": "opt", "a": txAlt(v.Alternation)}
	case goabnf.ElemCharVal:
		vals := []int{}
		for _, r := range v.Values {
			vals = append(vals, int(r))
		}
		return tx{"t": "chr", "s": v.Sensitive, "v": vals}
	case goabnf.ElemNumVal:
		d := [][]int{}
		for _, x := range v.Elems {
			d = append(d, txDigits(x))
		}
		t := "ser"
		if v.Status == goabnf.StatRange {
			t = "rng"
		}
		return tx{"t": t, "b": txBase(v.Base), "d": d}
	case goabnf.ElemProseVal:
		s := v.String()
		return tx{"t": "pro", "x": bytesOf(strings.TrimSuffix(strings.TrimPrefix(s, "<"), ">"))}
	}
	return tx{"t": fmt.Sprintf("UNKNOWN %T", e)}
}

func txRep(r goabnf.Repetition) tx {
	return tx{"mn": sat(r.Min), "mx": sat(r.Max), "e": txElem(r.Element)}
}

func txAlt(a goabnf.Alternation) [][]tx {
	out := [][]tx{}
	for _, c := range a.Concatenations {
		oc := []tx{}
		for _, r := range c.Repetitions {
			oc = append(oc, txRep(r))
		}
		out = append(out, oc)
	}
	return out
}

func txGram(g *goabnf.Grammar) []tx {
	out := []tx{}
	for _, k := range sortedKeys(g.Rulemap) {
		out = append(out, tx{"key": txName(k), "n": txName(g.Rulemap[k].Name), "a": txAlt(g.Rulemap[k].Alternation)})
	}
	return out
}

// readObs is what reading a text answered.
type readObs struct {
	K  string `json:"k"`
	N  []int  `json:"n"`
	RP tx     `json:"rp"`
	B  int    `json:"b"`
	D  []int  `json:"d"`
	G  []tx   `json:"g"`
	X  string `json:"x"`
}

func classifyRead(g *goabnf.Grammar, err error) (o readObs) {
	o = readObs{N: []int{}, RP: tx{"mn": 0, "mx": 0, "e": tx{"t": "none"}}, D: []int{}, G: []tx{}}
	if err == nil {
		if g == nil {
			o.X = "neither a grammar nor an error"
			return
		}
		o.K, o.G = "ok", txGram(g)
		return
	}
	if g != nil {
		o.X = "a grammar and an error"
		return
	}
	var (
		core *goabnf.ErrCoreRuleModify
		dup  *goabnf.ErrDuplicatedRule
		unk  *goabnf.ErrRuleNotFound
		dep  *goabnf.ErrDependencyNotFound
		rp   *goabnf.ErrSemanticRepetition
		num  *goabnf.ErrTooLargeNumeral
		pe   *goabnf.ParseError
	)
	switch {
	case errors.As(err, &pe) || errors.Is(err, goabnf.ErrNoSolutionFound):
		o.K = "syntax"
	case errors.As(err, &core):
		o.K, o.N = "core", txName(core.CoreRulename)
	case errors.As(err, &dup):
		o.K, o.N = "dup", txName(dup.Rulename)
	case errors.As(err, &unk):
		o.K, o.N = "unknown", txName(unk.Rulename)
	case errors.As(err, &dep):
		o.K, o.N = "dep", txName(dep.Rulename)
	case errors.As(err, &rp):
		o.K, o.RP = "rep", txRep(rp.Repetition)
	case errors.As(err, &num):
		o.K, o.B, o.D = "num", txBase(num.Base), txDigits(num.Value)
	default:
		o.K = fmt.Sprintf("another error: %v", err)
	}
	return
}

func readText(src []byte, val, red bool) (o readObs) {
	if pan := guard(func() {
		g, err := goabnf.ParseABNF(src, goabnf.WithValidation(val), goabnf.WithRedefineCoreRules(red))
		o = classifyRead(g, err)
	}); pan != "" {
		o = classifyRead(nil, errors.New(pan))
		o.X = pan
	}
	return o
}

type textCase struct {
	ID     string `json:"id"`
	K      string `json:"k"`
	Src    []int  `json:"src"`
	Val    bool   `json:"val"`
	Red    bool   `json:"red"`
	Def    bool   `json:"def"` // options left to their defaults
	Plain  []int  `json:"plain"`
	Pretty []int  `json:"pretty"`
	Rules  []int  `json:"rules"`
	Obs    any    `json:"obs"`
}

func runText(rc *recorder, c *textCase) {
	rc.begin(c)
	src := toBytes(c.Src)
	c.Plain, c.Pretty, c.Rules = []int{}, []int{}, []int{}
	switch c.K {
	case "read":
		if c.Def {
			var o readObs
			if pan := guard(func() {
				g, err := goabnf.ParseABNF(src)
				o = classifyRead(g, err)
			}); pan != "" {
				o = classifyRead(nil, errors.New(pan))
				o.X = pan
			}
			c.Obs = o
		} else {
			c.Obs = readText(src, c.Val, c.Red)
		}
	case "round":
		type ro struct {
			Plain  readObs `json:"plain"`
			Pretty readObs `json:"pretty"`
			Rules  readObs `json:"rules"`
		}
		var o ro
		var g *goabnf.Grammar
		var err error
		pan := guard(func() {
			g, err = goabnf.ParseABNF(src, goabnf.WithValidation(false), goabnf.WithRedefineCoreRules(c.Red))
		})
		if pan != "" || err != nil {
			if rc.pickGood {
				return // not a good text: C07 judges that
			}
			o.Plain = classifyRead(nil, errors.New("unreadable"))
			o.Plain.X = "the source is not read: " + pan + fmt.Sprint(err)
			o.Pretty, o.Rules = o.Plain, o.Plain
			c.Obs = o
			rc.emit(c)
			return
		}
		if len(g.Rulemap) == 0 {
			return // nothing to print
		}
		pan = guard(func() {
			p := g.String()
			c.Plain = bytesOf(p)
			pp := g.PrettyPrint()
			c.Pretty = bytesOf(pp)
			rs := ""
			for _, k := range sortedKeys(g.Rulemap) {
				rs += g.Rulemap[k].String() + "\r\n"
			}
			c.Rules = bytesOf(rs)
			o.Plain = readText([]byte(p), false, c.Red)
			o.Pretty = readText([]byte(pp), false, c.Red)
			o.Rules = readText([]byte(rs), false, c.Red)
		})
		if pan != "" {
			o.Plain = classifyRead(nil, errors.New("panic"))
			o.Plain.X = pan
			o.Pretty, o.Rules = o.Plain, o.Plain
		}
		c.Obs = o
	}
	rc.emit(c)
}

// ---- texts ----

// txgen writes texts with every freedom the syntax leaves.
type txgen struct {
	*gen
	loose bool // comments, folds, odd spaces
}

func (t *txgen) comment() string {
	s := ";"
	for n := t.r.Intn(5); n > 0; n-- {
		if t.p(30) {
			s += string(rune(0x20 + t.r.Intn(0x7f-0x20)))
			continue
		}
		s += []string{"x", " ", "=/", "\"", "=", "\t", ";", "~", "a = b", "%x", "/"}[t.r.Intn(11)]
	}
	return s + "\r\n"
}

func (t *txgen) cnl() string {
	if t.loose && t.p(25) {
		return t.comment()
	}
	return "\r\n"
}

func (t *txgen) wsp() string { return []string{" ", " ", "\t"}[t.r.Intn(3)] }

// cwsp is *c-wsp, at least min
func (t *txgen) cwsp(min int) string {
	n := min
	if t.loose && t.p(40) {
		n += t.r.Intn(3)
	}
	s := ""
	for i := 0; i < n; i++ {
		if t.loose && t.p(15) {
			s += t.cnl() + t.wsp()
		} else if t.loose {
			s += t.wsp()
		} else {
			s += " "
		}
	}
	return s
}

func (t *txgen) sp() string {
	if t.loose {
		return t.cwsp(0)
	}
	return ""
}

func (t *txgen) num(n int) string {
	s := fmt.Sprint(n)
	if t.p(10) {
		s = strings.Repeat("0", 1+t.r.Intn(2)) + s
	}
	return s
}

func (t *txgen) elem(e *Elem) string {
	switch e.T {
	case "ref":
		return t.casing(e.Nm)
	case "grp":
		return "(" + t.sp() + t.alt(e.A) + t.sp() + ")"
	case "opt":
		return "[" + t.sp() + t.alt(e.A) + t.sp() + "]"
	case "chr":
		s := ""
		if e.S {
			s = []string{"%s", "%S"}[t.r.Intn(2)]
		} else if t.p(20) {
			s = []string{"%i", "%I"}[t.r.Intn(2)]
		}
		s += `"`
		for _, v := range e.V {
			if t.p(10) {
				v = 0x20 + t.r.Intn(0x7f-0x20)
				if v == '"' {
					v = '~'
				}
			}
			s += string(rune(v))
		}
		return s + `"`
	case "ser", "rng":
		var d []string
		for _, x := range e.D {
			x = t.casing(x)
			if t.p(15) {
				x = strings.Repeat("0", 1+t.r.Intn(3)) + x
			}
			d = append(d, x)
		}
		sep := "."
		if e.T == "rng" {
			sep = "-"
		}
		return "%" + e.B + strings.Join(d, sep)
	case "pro":
		return "<" + e.X + ">"
	}
	panic(e.T)
}

func (t *txgen) rep(r Rep) string {
	s := ""
	switch {
	case r.Mn == 1 && r.Mx == 1 && t.p(90):
	case r.Mn == r.Mx && t.p(80):
		s = t.num(r.Mn)
	default:
		if r.Mn > 0 || t.p(30) {
			s += t.num(r.Mn)
		}
		s += "*"
		if r.Mx >= 0 {
			s += t.num(r.Mx)
		}
	}
	return s + t.elem(r.E)
}

func (t *txgen) alt(a Alt) string {
	var cs []string
	for _, c := range a {
		s := t.rep(c[0])
		for _, r := range c[1:] {
			s += t.cwsp(1) + t.rep(r)
		}
		cs = append(cs, s)
	}
	s := cs[0]
	for _, c := range cs[1:] {
		if t.p(80) {
			s += " / " + c
		} else {
			s += t.sp() + "/" + t.sp() + c
		}
	}
	return s
}

func (t *txgen) stmt(name, op string, a Alt) string {
	s := name
	if t.loose {
		s += t.cwsp(0) + op + t.cwsp(0)
	} else {
		s += " " + op + " "
	}
	s += t.alt(a)
	if t.loose && t.p(25) {
		s += strings.Repeat(t.wsp(), 1+t.r.Intn(2))
	}
	return s + t.cnl()
}

func (t *txgen) blank() string {
	if t.loose && t.p(20) {
		return strings.Repeat(t.wsp(), t.r.Intn(3)) + t.cnl()
	}
	return ""
}

// mutateText damages a text.
func (g *gen) mutateText(s string) string {
	junk := []string{"a", "B", "-", "1", "0", " ", "*", "/", "=", ";", "\"", "(", ")", "[", "]", "<", ">", "%", "x", "d", "b", "s", "i",
		".", "\r", "\n", "\r\n", "\t", "~", "\x00", "\x7f", "\x80", "é", "F", "f", "g", "=/", "%x1", "_", "'", "\r\n "}
	for n := 1 + g.r.Intn(2); n > 0; n-- {
		b := []byte(s)
		i := 0
		if len(b) > 0 {
			i = g.r.Intn(len(b))
		}
		switch g.r.Intn(5) {
		case 0:
			if len(b) > 0 {
				s = s[:i] + s[i+1:]
			}
		case 1:
			s = s[:i] + junk[g.r.Intn(len(junk))] + s[i:]
		case 2:
			if len(b) > 0 {
				s = s[:i] + junk[g.r.Intn(len(junk))] + s[i+1:]
			}
		case 3:
			if len(b) > 0 {
				s = s[:i]
			}
		case 4: // move a piece
			if len(b) > 2 {
				j := i + g.r.Intn(len(b)-i)
				s = s[:i] + s[j:] + s[i:j]
			}
		}
	}
	return s
}

var curatedTexts = []string{
	"", "\r\n", " \r\n", ";\r\n", "; c\r\n", "\n", "a", "a=b", "a=b\r\n", "a=b\n", "a = b\r\n b\r\n", "a = b\r\n\r\n c = d\r\n",
	"a = b ; c\r\n", "a = b ;\r\n c\r\n", "a=\r\n b\r\n", "a\r\n =\r\n b\r\n", "a ; x\r\n = b\r\n", "a =/ b\r\n", "a = b\r\na =/ c\r\n",
	"A = b\r\na =/ c\r\nA =/ d / e\r\n", "a = b\r\nA = c\r\n", "a =; =/\r\n b\r\n", "a = \"x\"\r\na =/; =\r\n \"y\"\r\n",
	"a = 1*2b 3b *b 4*b *5b 0b 00b 1b 1*1b\r\n", "a = 2*1\"x\"\r\n", "a = 0*0\"x\"\r\n", "a = *\"x\"*\"y\"\r\n",
	"a = \"x\"\"y\"\r\n", "a = b/c\r\n", "a = b /c\r\n", "a = (b/c)d\r\n", "a = (b/c) d\r\n", "a = ( b / c ) [ d ]\r\n", "a = ()\r\n", "a = []\r\n",
	"a = \"\"\r\n", "a = %s\"\"\r\n", "a = %i\"aB\"\r\n", "a = %I\"aB\" %S\"aB\"\r\n", "a = %q\"x\"\r\n", "a = %s \"x\"\r\n",
	"a = %x41\r\n", "a = %X4a.4B\r\n", "a = %x41-5A\r\n", "a = %d1.2.3\r\n", "a = %b1-10\r\n", "a = %b2\r\n", "a = %dA\r\n", "a = %x41-\r\n", "a = %x41.\r\n",
	"a = %x41-42-43\r\n", "a = %x41.42-43\r\n", "a = %x10FFFF\r\n", "a = %x110000\r\n", "a = %d1114111\r\n", "a = %d1114112\r\n", "a = %d1200000\r\n", "a = %d1120000\r\n", "a = %d1115000\r\n", "a = %d1114200\r\n", "a = %d1114120\r\n",
	"a = %b100001111111111111111\r\n", "a = %b100010000000000000000\r\n", "a = %b100100000000000000000\r\n", "a = %b110000000000000000000\r\n", "a = %b101000000000000000000\r\n",
	"a = %x0000000000000041\r\n", "a = %x000110000\r\n", "a = %xFFFFFF\r\n", "a = %x200000\r\n", "a = %x1000000\r\n", "a = %x0-110000\r\n", "a = %x110000-110001\r\n", "a = [(%x41.110000)]\r\n",
	"a = <x>\r\n", "a = <>\r\n", "a = <x>y>\r\n", "a = <a\"b;c>\r\n", "a = <x\r\n>\r\n", "a = \"x\r\n\"\r\n", "a = \"\x80\"\r\n", "a = <\x80>\r\n", "; \x80\r\n", "; é\r\n",
	"a- = b\r\n", "-a = b\r\n", "1a = b\r\n", "a1-b = c\r\n", "a_b = c\r\n", " a = b\r\n", "a = b\r\n c = d\r\n", "a = b\r\n\r\n", "a = b\r\n;", "a = b;c", "a = b \r\n", "a = b\t \r\n",
	"a = b ;c\r\n ;d\r\n", "a = b ;c\r\n\r\n ;d\r\n", "a = b / ;c\r\n c\r\n", "a = ( ;c\r\n b )\r\n", "a = b ( ;c\r\n ;d\r\n c )\r\n",
	"ALPHA = \"x\"\r\n", "alpha =/ \"x\"\r\n", "AlPhA = \"x\"\r\naLPHA = \"y\"\r\n", "digit =/ \"x\"\r\nDIGIT =/ \"y\"\r\n", "DIGIT = \"x\"\r\ndigit =/ \"y\"\r\n", "digit =/ \"x\"\r\nDIGIT = \"y\"\r\n",
	"hexdig =/ \"g\"\r\na = hexdig\r\n", "lwsp =/ \"g\"\r\n", "crlf =/ lf\r\n", "wsp =/ cr\r\n", "ctl =/ \"x\"\r\n", "bit =/ \"2\"\r\n", "octet =/ \"x\"\r\n", "vchar =/ sp\r\n", "char =/ %x0\r\n", "dquote =/ \"'\"\r\n", "cr =/ lf\r\n", "lf =/ cr\r\n", "htab =/ sp\r\n", "sp =/ htab\r\n",
	"a = ALPHA / digit / HexDig\r\n", "a = unknown\r\n", "a = [*(unknown)]\r\n", "a = 3*2(2*1b)\r\nb = c\r\n",
	"a = 2147483646*2147483647b\r\nb = \"x\"\r\n", "a = 99999999999999999999b\r\nb = \"\"\r\n", "a = *99999999999999999999b\r\nb = \"\"\r\n",
	"a = ((((b))))\r\nb = [[[[a]]]]\r\n", "a = b c d\r\n e\r\n f\r\n", "a = b\r\n / c\r\n / d\r\n", "a =/\r\n b\r\n", "a = / b\r\n", "a = b /\r\n", "a == b\r\n", "a = = b\r\n", "a = /b\r\n", "a=/b\r\n", "a = b c=d\r\n",
	"%s100%\r\n", "a = \"%d %s %v\"\r\n", "a = %s\"100%\" <%d>\r\n", "a = \" / \"\r\n", "a = \" \" \"  \"\r\n", "a = \"x \"\r\n", "a = \"x /\" \"y / \"\r\n", "a = < / >\r\n", "a = \".\" %d46 \"-\"\r\n", "a = (\"x / \")\r\n", "a = [\"x \"]\r\n", "a = \"(\" \")\" \"[\" \"]\" \";\"\r\n",
}

func (rc *recorder) drawText(kind string, idx int) *textCase {
	if idx < 2*len(curatedTexts) {
		return &textCase{ID: fmt.Sprintf("cur%d", idx), K: kind, Src: bytesOf(curatedTexts[idx/2]), Val: kind == "read" && idx%2 == 1, Red: idx%2 == 0}
	}
	cfg := defaultCfg()
	cfg.unicode, cfg.textable = false, true
	cfg.bigRep = idx%7 == 0
	cfg.maxVariat = 3
	cfg.maxAlts, cfg.maxReps, cfg.depth = 2, 3, 2
	g := newGen(rc.seed*1_000_003+int64(idx), cfg)
	t := &txgen{gen: g, loose: idx%3 != 0}
	c := &textCase{ID: fmt.Sprintf("s%d.%d", rc.seed, idx), K: kind, Red: g.p(50), Val: kind == "read" && g.p(50)}
	gr := g.gram()
	if isLarge(idx) {
		gr, _ = g.large(48)
	}
	src := t.blank()
	// statements: definitions, then extensions and repeated definitions here and there
	for i := range gr.Names {
		name := gr.Names[i]
		if g.p(6) {
			name = coreNames[g.r.Intn(len(coreNames))]
		}
		op := "="
		if g.p(8) && kind == "read" {
			op = "=/"
		}
		src += t.stmt(g.casing(name), op, gr.Alts[i]) + t.blank()
		for g.p(22) {
			g.cfg.depth = 1
			nm := gr.Names[g.r.Intn(i+1)]
			if g.p(10) {
				nm = coreNames[g.r.Intn(len(coreNames))]
			}
			op := "=/"
			if kind == "read" && g.p(12) {
				op = "="
			}
			src += t.stmt(g.casing(nm), op, g.alt(1)) + t.blank()
		}
	}
	if kind == "read" && g.p(35) {
		src = g.mutateText(src)
	}
	if len(src) > 600 {
		src = src[:600]
	}
	c.Src = bytesOf(src)
	if kind == "read" && g.p(15) {
		c.Def, c.Val, c.Red = true, true, false
	}
	return c
}

// byteSpots are the places where a text is tried with every octet (written ?).
var byteSpots = []string{
	"?", "?a = b\r\n", "a? = b\r\n", "a =? b\r\n", "a = ?\r\n", "a = b?\r\n", "a = b? c\r\n", "a = b ?c\r\n", "a = \"?\"\r\n", "a = \"x?y\"\r\n", "a = <?>\r\n", "a = <x?y>\r\n",
	"a = b ;?\r\n", "a = b ;x?y\r\n", ";?\r\n", "a = %?1\r\n", "a = %?\"x\"\r\n", "a = %x?\r\n", "a = %x4?\r\n", "a = %x41?\r\n", "a = %x41.?\r\n", "a = %x41-4?\r\n", "a = %d?\r\n", "a = %d4?.1\r\n",
	"a = %b?\r\n", "a = %b1?1\r\n", "a = ?b\r\n", "a = 1?b\r\n", "a = *?b\r\n", "a = 1*?b\r\n", "a = (?b)\r\n", "a = (b?)\r\n", "a = [b?]\r\n", "a = (b?c)\r\n",
	"a = b?\n", "a = b\r?", "a = b\r\n?c = d\r\n", "a = b\r\n?", "a = b\r\n?/ c\r\n", "a = b / ?\r\n", "a = b /?c\r\n", "a = b?/ c\r\n", "a?=/ b\r\n", "a =?b\r\n", "a1?-c = d\r\n", "a-? = d\r\n",
}

// drawByte: every octet at every such place.
func (rc *recorder) drawByte(idx int) *textCase {
	spot, b := byteSpots[idx/256%len(byteSpots)], string([]byte{byte(idx)})
	return &textCase{ID: fmt.Sprintf("oct%d", idx), K: "read", Src: bytesOf(strings.ReplaceAll(spot, "?", b)), Red: true}
}

func textProp(kind string) propDef {
	return propDef{
		record: func(rc *recorder) {
			rc.pickGood = true
			for i := rc.shard; i < rc.n; i += rc.shards {
				if kind == "octets" {
					if i < 256*len(byteSpots) {
						runText(rc, rc.drawByte(i))
					}
					continue
				}
				runText(rc, rc.drawText(kind, i))
			}
		},
		one: func(rc *recorder, raw []byte) {
			c := &textCase{}
			if err := json.Unmarshal(raw, c); err != nil {
				fatal(err)
			}
			runText(rc, c)
		},
	}
}

func init() {
	props["C07"] = textProp("read")
	props["C07octets"] = textProp("octets")
	props["C08"] = textProp("read")
	props["C10"] = textProp("round")
}
