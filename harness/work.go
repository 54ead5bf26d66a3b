package main

// Work (C22): grammars whose rules are shared, nested or repeated such that the
// number of ways through them is astronomical, although each question about them
// has a short answer.

import (
	"fmt"
	"strings"

	goabnf "github.com/pandatix/go-abnf"
)

type parWk struct {
	Fam string `json:"fam"`
	Cnt bool   `json:"cnt"` // counts are judged
	Bud bool   `json:"bud"` // parses only within a budget
	Big bool   `json:"big"` // words may be huge: no generation
	Not bool   `json:"not"` // trees are huge: none is extracted
	Gph bool   `json:"gph"` // the expanded graph is small: it is used without budget
	Txt string `json:"txt"` // what is read, where groups are written in place of rules
}

type obsWkIn struct {
	IV bool   `json:"iv"`
	FK string `json:"fk"`
	BK string `json:"bk"`
	FV bool   `json:"fv"`
	BV bool   `json:"bv"`
	FN int    `json:"fn"`
	BN int    `json:"bn"`
	FA bool   `json:"fa"`
	BA bool   `json:"ba"`
	FT bool   `json:"ft"` // a tree over the whole input was given
	BT bool   `json:"bt"`
	FD bool   `json:"fd"` // a diagnostic was given
	NX bool   `json:"nx"` // the next octets are known, and the end is possible
}

type obsWk struct {
	RK  string    `json:"rk"` // reading the text
	Ins []obsWkIn `json:"ins"`
	Cyc bool      `json:"cyc"`
	Dag bool      `json:"dag"`
	GK  string    `json:"gk"` // seeded generation
	GW  [][]int   `json:"gw"`
	AK  string    `json:"ak"` // recursive descent generation
	AW  [][]int   `json:"aw"`
	ReK string    `json:"rek"`
	TgK string    `json:"tgk"`
	TfK string    `json:"tfk"` // without expansion of the rules
	CK  string    `json:"ck"`
	SK  string    `json:"sk"`
	NxK string    `json:"nxk"`
	X   string    `json:"x"`
}

func runWk(rc *recorder, c *Case) {
	rc.begin(c)
	var p parWk
	c.par(&p)
	o := obsWk{Ins: []obsWkIn{}, GW: [][]int{}, AW: [][]int{}}
	pan := guard(func() {
		txt := p.Txt
		if txt == "" {
			txt = c.gram().text()
		}
		g, err := goabnf.ParseABNF([]byte(txt))
		o.RK = errKind(err)
		if err != nil {
			return
		}
		_, _ = g.String(), g.PrettyPrint()
		var nx *goabnf.Generator
		if p.Gph {
			tg, err := g.TransitionGraph(c.Ask, goabnf.WithDeflateRules(true))
			if o.NxK = tgKind(err); err == nil {
				nx, err = goabnf.NewGenerator(tg)
				o.NxK = errKind(err)
			}
		}
		for _, in := range c.Ins {
			b := toBytes(in)
			x := obsWkIn{FN: -2, BN: -2}
			v, err := g.IsValid(c.Ask, b)
			x.IV = err == nil && v
			var opts []goabnf.ForestOption
			if p.Bud {
				opts = append(opts, goabnf.WithMaxForestNodes(3000))
			}
			f, err := goabnf.ParseForest(b, g, c.Ask, opts...)
			if x.FK = errKind(err); err == nil {
				x.FV, x.FA, x.FD = f.Valid(), f.Ambiguous(), f.ParseError() != nil
				if !p.Not {
					t := f.Tree()
					x.FT = t != nil && t.Start == 0 && t.End == len(b)
				}
				if x.FN = capCount(f.NumTrees()); !p.Cnt {
					x.FN = -2
				}
			}
			s, err := goabnf.ParseBSR(b, g, c.Ask, opts...)
			if x.BK = errKind(err); err == nil {
				x.BV, x.BA = s.Valid(), s.Ambiguous()
				if !p.Not {
					t := s.Tree()
					x.BT = t != nil && t.Start == 0 && t.End == len(b)
				}
				if x.BN = capCount(s.NumTrees()); !p.Cnt {
					x.BN = -2
				}
			}
			if nx != nil {
				_, acc, ok := nx.ExpectedNext(b)
				x.NX = acc && ok
			}
			o.Ins = append(o.Ins, x)
		}
		o.Cyc, err = g.RuleContainsCycle(c.Ask)
		if err != nil {
			o.X = "cycle: " + err.Error()
		}
		o.Dag = g.IsDAG()
		_ = g.DependencyGraph().Mermaid()
		_, err = g.Regex(c.Ask, goabnf.WithMaxRegexLen(1000))
		o.ReK = errKind(err)
		_, err = g.TransitionGraph(c.Ask, goabnf.WithDeflateRules(true), goabnf.WithMaxNodes(1000))
		o.TgK = tgKind(err)
		_, err = g.TransitionGraph(c.Ask, goabnf.WithMaxNodes(1000))
		o.TfK = tgKind(err)
		_, err = goabnf.GenerateGoParser(g, c.Ask, "p")
		o.CK = errKind(err)
		o.SK = errKind(goabnf.SemvalABNF(g))
		ag, err := goabnf.NewASTGenerator(g, c.Ask)
		o.AK = errKind(err)
		if p.Big {
			return
		}
		for s := int64(0); s < 3; s++ {
			w, err := g.Generate(s, c.Ask, goabnf.WithRepMax(3), goabnf.WithThreshold(20))
			o.GK = errKind(err)
			if err != nil {
				break
			}
			if len(w) <= 16 {
				o.GW = append(o.GW, bytesOf(string(w)))
			}
		}
		if ag != nil {
			for _, tape := range []string{"", "\x01\x00\x02\x01\x01\x00\x03", strings.Repeat("\xff\x01", 40)} {
				if w := ag.Generate([]byte(tape)); len(w) <= 16 {
					o.AW = append(o.AW, bytesOf(string(w)))
				}
			}
		}
	})
	if pan != "" {
		o.X = pan
	}
	c.Obs = o
	rc.emit(c)
}

// chain: n rules r0, r1, ..., each made out of its index, and a last one.
func chain(n int, f func(i int) string, last string) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "r%d = %s\n", i, f(i))
	}
	fmt.Fprintf(&b, "r%d = %s", n, last)
	return b.String()
}

var wkFams = 35

// wkGram gives a grammar of a family, its first rule being the one to ask for,
// and inputs.
func wkGram(g *gen, fam int) (*Gram, []string, parWk) {
	S, R := fmt.Sprintf, strings.Repeat
	var src string
	var ins []string
	n := 30 + g.r.Intn(12)
	m := 8 + g.r.Intn(8)
	p := parWk{Fam: S("f%d", fam), Cnt: true}
	nx := func(i int) string { return g.casing(S("r%d", i+1)) }
	all := func(from, to int, sep string) string {
		var s []string
		for j := from; j <= to; j++ {
			s = append(s, S("r%d%s", j, sep))
		}
		return strings.Join(s, " / ")
	}
	word := func(k int) string {
		var b strings.Builder
		for ; k > 0; k-- {
			b.WriteByte("xy"[g.r.Intn(2)])
		}
		return b.String()
	}
	switch fam {
	case 0:
		src, ins = chain(n, func(i int) string { return nx(i) + " / " + nx(i) }, `"x"`), []string{"x", "y", ""}
	case 1:
		src = chain(n, func(i int) string { return nx(i) + ` "x" / ` + nx(i) + ` "y"` }, `"z"`)
		ins = []string{"z" + word(n), "z" + word(n-1) + "z"}
	case 2:
		src = chain(n, func(i int) string { return `"x" ` + nx(i) + ` / "y" ` + nx(i) }, `"z"`)
		ins = []string{word(n) + "z", word(n) + "x"}
	case 3:
		src = chain(n, func(i int) string { return `"x" ` + nx(i) + ` / "x" ` + nx(i) + ` "y"` }, `"z"`)
		ins = []string{R("x", n) + "z" + R("y", m), R("x", n) + R("y", m)}
	case 4:
		src, ins = chain(n, func(i int) string { return "[" + nx(i) + "] / " + nx(i) }, `"x"`), []string{"x", "", "xx"}
	case 5:
		p.Big = true
		src, ins = chain(n, func(i int) string { return nx(i) + " [" + nx(i) + "]" }, `"x"`), []string{"x", "xxx", ""}
	case 6:
		p.Big, p.Bud, p.Not = true, true, true
		src, ins = chain(n, func(i int) string { return nx(i) + " " + nx(i) }, `["x"]`), []string{"x", "xxx", ""}
	case 7:
		p.Big = true
		src, ins = chain(n, func(i int) string { return nx(i) + " " + nx(i) }, `"x"`), []string{"x", "xxx", R("x", 20)}
	case 8:
		d := 30 + g.r.Intn(16)
		src, ins = `a = `+R("(", d)+`"x"`+R(")", d), []string{"x", "", "xx"}
	case 9:
		d := 20 + g.r.Intn(20)
		src, ins = `a = `+R("[", d)+`"x"`+R("]", d), []string{"x", "", "xx"}
	case 10:
		d := 3 + g.r.Intn(3)
		src, ins = `a = `+R("*(", d)+`"x"`+R(")", d), []string{"x", "", "xxx", "xxxy"}
		p.Cnt = d < 4
	case 11:
		d := 3 + g.r.Intn(3)
		src, ins = `a = `+R("1*(", d)+`"x"`+R(")", d), []string{"x", "", "xxx", "xxxxy"}
		p.Cnt = d < 4
	case 12:
		p.Big, p.Bud = true, true
		src, ins = `a = `+R("2(", 16)+`"x"`+R(")", 16), []string{"x", "", "xxx"}
	case 13:
		src, ins = `a = *("x" / "xx" / "xxx")`, []string{R("x", n), R("x", n) + "y"}
		p.Gph = true
	case 14:
		src, ins = `a = a a / "x"`, []string{R("x", m), R("x", m) + "y"}
	case 15:
		src, ins = `a = a a a / a a / "x"`, []string{R("x", m), R("x", m) + "y"}
	case 16: // every rule refers to all those after it
		ins = []string{"x", "y", "z"}
		src = chain(20, func(i int) string { return `"y" / ` + all(i+1, 20, "") }, `"x"`)
	case 17: // every rule refers to every rule
		src, ins = chain(m, func(i int) string { return all(0, m, "") + ` / "y"` }, `"x"`), []string{"x", "y", "z"}
	case 18:
		src, ins = chain(m, func(i int) string { return all(0, m, ` "x"`) + ` / "y"` }, `"x"`), []string{"x", "yxxx", "z", "yxz"}
		p.Cnt = false
	case 19:
		src, ins = chain(m, func(i int) string { return all(0, m, "") }, S("[r%d]", 0)), []string{"", "x"}
		p.Cnt = false
	case 20:
		p.Big, p.Bud = true, true
		src, ins = S(`a = %d"x"`, 1000000+g.r.Intn(1000000000)), []string{"x", "", "xxxx"}
	case 21:
		p.Big, p.Bud, p.Cnt = true, true, false
		src = []string{`a = *2000000000("x" / "")`, `a = 2000000000("")`, `a = 1000000000["x"]`, "a = 2000000*b\nb = *c\nc = [\"x\"]", `a = 1000000000*2000000000[*"x"]`}[g.r.Intn(5)]
		ins = []string{"x", "", "xxxx", "xy"}
	case 22:
		src, ins = S(`a = %d(["x"] ["y"])`, n), []string{"x", "", R("xy", 3), R("yx", n/2)}
		p.Gph, p.Cnt = true, false
	case 23:
		src, ins = S(`a = %d*%d("x" / "xx")`, m, 2*m), []string{R("x", m+3), R("x", m-1)}
		p.Gph = true
	case 24:
		src, ins = S(`a = %d*%d(1*5"x")`, m, m+6), []string{R("x", 2*m), "", R("x", m-1)}
		p.Cnt = false
	case 25:
		src, ins = chain(6, func(i int) string { return "*" + nx(i) }, `"x" / "y"`), []string{word(m), "", word(m) + "z"}
	case 26:
		src, ins = `a = a "x" / "x"`, []string{R("x", 2*n), R("x", 2*n) + "y"}
		p.Cnt = false
	case 27:
		src, ins = `a = "(" a ")" / "x"`, []string{R("(", 2*n) + "x" + R(")", 2*n), R("(", 2*n) + "x" + R(")", 2*n-1)}
		p.Cnt = false
	case 28:
		src, ins = `a = *("x" / "y") "x" `+S("%d", n/2)+`("x" / "y")`, []string{word(2 * n), word(n) + "x" + R("y", n/2), R("y", n)}
		p.Gph, p.Cnt = true, false
	case 29: // an unproductive web
		src, ins = chain(m, func(i int) string { return all(0, m, " "+S("r%d", m)) }, `"x" r0`), []string{"", "x"}
		p.Cnt = false
	case 30, 31, 32, 33, 34: // repetitions of repetitions over long inputs
		// A group is a rule of its own: the specification is given rules where the
		// library is given groups.
		d, l := 7+g.r.Intn(3), 40+g.r.Intn(20)
		body := []func(string) string{
			func(e string) string { return "*(" + e + ")" },
			func(e string) string { return "1*(" + e + ")" },
			func(e string) string { return "*[" + e + "]" },
			func(e string) string { return "*(" + e + ` / "y" (` + e + "))" },
			func(e string) string { return "((" + e + `) "y" / (` + e + `) "z" / "z")` },
		}[fam-30]
		e := `"x"`
		var rules []string
		for i := d; i >= 0; i-- {
			in := `"x"`
			if i < d {
				in = S("r%d", i+1)
			}
			rules = append([]string{S("r%d = %s", i, body(in))}, rules...)
			e = body(e)
			if fam >= 33 && d-i >= 6 { // the text doubles
				rules = append([]string{S("a = r%d", i)}, rules...)
				break
			}
		}
		if fam < 33 {
			rules = append([]string{"a = r0"}, rules...)
		}
		src, p.Txt = strings.Join(rules, "\n"), "a = "+e+"\r\n"
		ins = []string{R("x", l), R("x", l) + "y", "", R("xyx", m), "x" + R("yz", 4), "z" + R("y", 5)}
		p.Cnt, p.Not, p.Big = false, true, true
	}
	return mparse(src), ins, p
}

func drawWk(rc *recorder, idx int) *Case {
	g := newGen(rc.seed*17_000_023+int64(idx), defaultCfg())
	gr, ins, p := wkGram(g, idx%wkFams)
	c := (&engInput{gr: gr, root: g.casing(gr.Names[0]), ins: ins, how: "text"}).toCase(fmt.Sprintf("s%d.%d", rc.seed, idx), "wk")
	c.setPar(p)
	return c
}

func init() { props["C22"] = caseProp(drawWk, runWk) }
