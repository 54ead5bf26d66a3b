package main

// Recorders for the recognizer and the two parse engines (C01-C04, C19).

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"strings"

	goabnf "github.com/pandatix/go-abnf"
)

// engCase draws the idx-th case of a seed.
type engInput struct {
	gr   *Gram
	root string // as asked
	ins  []string
	how  string
}

func (in *engInput) toCase(id, kind string) *Case {
	c := &Case{ID: id, K: kind, Root: lower(in.root), Ask: in.root, How: in.how}
	c.G, c.Nm = in.gr.json()
	c.Ins = [][]int{}
	for _, s := range in.ins {
		c.Ins = append(c.Ins, bytesOf(s))
	}
	return c
}

// gram rebuilds the model grammar out of a case.
func (c *Case) gram() *Gram {
	g := &Gram{}
	for _, n := range sortedKeys(c.Nm) {
		g.Names = append(g.Names, c.Nm[n])
		g.Alts = append(g.Alts, c.G[n])
	}
	return g
}

// library is the real grammar of a case, built out of public structures, or read
// from text.
func (c *Case) library() (*goabnf.Grammar, error) {
	g := c.gram()
	if c.How == "text" {
		return goabnf.ParseABNF([]byte(g.text()), goabnf.WithValidation(false))
	}
	return g.lib(), nil
}

func (c *Case) fillEmpty() {
	if c.Ins == nil {
		c.Ins = [][]int{}
	}
}

const countCap = 30000

func capCount(n *big.Int) int {
	if n == nil {
		return -2
	}
	if n.Sign() < 0 {
		if n.Cmp(big.NewInt(-1)) == 0 {
			return -1
		}
		return -3
	}
	if n.Cmp(big.NewInt(countCap)) >= 0 {
		return countCap
	}
	return int(n.Int64())
}

// Tree is a concrete tree as the specification reads it.
type Tree struct {
	R string  `json:"r"`
	S int     `json:"s"`
	E int     `json:"e"`
	C []*Tree `json:"c"`
}

func treeOf(t *goabnf.ParseTree, size *int) *Tree {
	out := &Tree{R: lower(t.Rule), S: t.Start, E: t.End, C: []*Tree{}}
	*size++
	if *size > 20000 {
		return out
	}
	for _, k := range t.Children {
		if k == nil {
			out.C = append(out.C, &Tree{R: "NIL", C: []*Tree{}})
			continue
		}
		out.C = append(out.C, treeOf(k, size))
	}
	return out
}

func errName(err error) string {
	if err == nil {
		return ""
	}
	return fmt.Sprintf("%T", err)
}

// ---- observations, one per input ----

type obsIV struct {
	V bool   `json:"v"`
	X string `json:"x"`
}

func observeIV(g *goabnf.Grammar, ask string, in []byte) (o obsIV) {
	pan := guard(func() {
		v, err := g.IsValid(ask, in)
		o.V = v
		if err != nil {
			o.X = "error: " + err.Error()
		}
	})
	if pan != "" {
		o.X = pan
	}
	return o
}

type obsForest struct {
	SV bool    `json:"sv"` // shared forest valid
	BV bool    `json:"bv"` // subtree set valid
	SN int     `json:"sn"` // number of trees
	BN int     `json:"bn"`
	SA bool    `json:"sa"` // ambiguous
	BA bool    `json:"ba"`
	ST []*Tree `json:"st"` // tree extracted (none or one)
	BT []*Tree `json:"bt"`
	X  string  `json:"x"`
}

func observeForest(g *goabnf.Grammar, ask string, in []byte, counts, trees bool) (o obsForest) {
	o.ST, o.BT = []*Tree{}, []*Tree{}
	pan := guard(func() {
		f, err := goabnf.ParseForest(in, g, ask)
		if err != nil {
			o.X = "error: " + err.Error()
			return
		}
		b, err := goabnf.ParseBSR(in, g, ask)
		if err != nil {
			o.X = "error: " + err.Error()
			return
		}
		o.SV, o.BV = f.Valid(), b.Valid()
		if counts || trees {
			o.SN, o.BN = capCount(f.NumTrees()), capCount(b.NumTrees())
		}
		if counts {
			o.SA, o.BA = f.Ambiguous(), b.Ambiguous()
		}
		if trees {
			n := 0
			if t := f.Tree(); t != nil {
				o.ST = append(o.ST, treeOf(t, &n))
			}
			n = 0
			if t := b.Tree(); t != nil {
				o.BT = append(o.BT, treeOf(t, &n))
			}
		}
	})
	if pan != "" {
		o.X = pan
	}
	return o
}

type obsDiag struct {
	Has   bool    `json:"has"` // a diagnostic was given
	Off   int     `json:"off"`
	Line  int     `json:"line"`
	Col   int     `json:"col"`
	Exp   []*Elem `json:"exp"`
	EOF   bool    `json:"eof"`   // found = end of input
	Fnd   bool    `json:"fnd"`   // found describes the byte at the offset
	Hint  bool    `json:"hint"`  // there is a hint
	NoSol bool    `json:"nosol"` // matches the "no solution" error
	X     string  `json:"x"`
}

// describesByte: what a diagnostic may say of a byte - its hexadecimal value,
// and its quoted form when printable.
func describesByte(s string, b byte) bool {
	hex := fmt.Sprintf("%%x%02X", b)
	switch b {
	case '\r':
		return s == hex+" (CR)"
	case '\n':
		return s == hex+" (LF)"
	case '\t':
		return s == hex+" (HTAB)"
	case ' ':
		return s == hex+" (SP)"
	}
	if b > 0x20 && b < 0x7f {
		return s == fmt.Sprintf("%q", string(b))
	}
	return s == hex
}

func diagOf(pe *goabnf.ParseError, in []byte) (o obsDiag) {
	o.Exp = []*Elem{}
	if pe == nil {
		return
	}
	o.Has = true
	o.Off, o.Line, o.Col = pe.Offset, pe.Line, pe.Col
	for _, e := range pe.Expected {
		o.Exp = append(o.Exp, termFromText(e))
	}
	o.EOF = pe.Found == "EOF"
	if pe.Offset >= 0 && pe.Offset < len(in) {
		o.Fnd = describesByte(pe.Found, in[pe.Offset])
	}
	o.Hint = pe.Hint != ""
	o.NoSol = errors.Is(pe, goabnf.ErrNoSolutionFound)
	return
}

func observeDiag(g *goabnf.Grammar, ask string, in []byte) (o obsDiag) {
	o.Exp = []*Elem{}
	pan := guard(func() {
		f, err := goabnf.ParseForest(in, g, ask)
		if err != nil {
			o.X = "error: " + err.Error()
			return
		}
		o = diagOf(f.ParseError(), in)
	})
	if pan != "" {
		o.X = pan
	}
	return o
}

// ---- driving ----

func runEng(rc *recorder, c *Case) {
	rc.begin(c)
	var g *goabnf.Grammar
	var err error
	if pan := guard(func() { g, err = c.library() }); pan != "" {
		err = errors.New(pan)
	}
	obs := []any{}
	for _, in := range c.Ins {
		b := toBytes(in)
		if err != nil {
			// the text of the grammar could not be read: nothing was answered
			switch c.K {
			case "iv":
				obs = append(obs, obsIV{X: "read: " + err.Error()})
			case "diag":
				obs = append(obs, obsDiag{Exp: []*Elem{}, X: "read: " + err.Error()})
			default:
				obs = append(obs, obsForest{ST: []*Tree{}, BT: []*Tree{}, X: "read: " + err.Error()})
			}
			continue
		}
		switch c.K {
		case "iv":
			obs = append(obs, observeIV(g, c.Ask, b))
		case "forest":
			obs = append(obs, observeForest(g, c.Ask, b, false, false))
		case "count":
			obs = append(obs, observeForest(g, c.Ask, b, true, false))
		case "tree":
			obs = append(obs, observeForest(g, c.Ask, b, false, true))
		case "diag":
			obs = append(obs, observeDiag(g, c.Ask, b))
		}
	}
	c.Obs = obs
	rc.emit(c)
}

func (rc *recorder) drawEng(kind string, idx int) *Case {
	if idx < len(curatedGrams) {
		cu := curatedGrams[idx]
		gr := mparse(cu.src)
		in := &engInput{gr: gr, root: gr.Names[0], ins: cu.ins, how: "ast"}
		return in.toCase(fmt.Sprintf("cur%d", idx), kind)
	}
	seed := rc.seed*1_000_003 + int64(idx)
	cfg := defaultCfg()
	if kind == "iv" {
		cfg.bigRep = true
	}
	if isLarge(idx) {
		g := newGen(seed, cfg)
		g.abc = []rune("xyz")
		max := 48
		if kind == "count" || kind == "tree" {
			max = 24
		}
		gr, ins := g.large(max)
		in := &engInput{gr: gr, root: g.casing(gr.Names[0]), ins: ins, how: []string{"ast", "text"}[g.r.Intn(2)]}
		return in.toCase(fmt.Sprintf("s%d.%d", rc.seed, idx), kind)
	}
	if kind == "diag" && idx%12 == 7 {
		g := newGen(seed, cfg)
		gr, ins := g.lines()
		in := &engInput{gr: gr, root: gr.Names[0], ins: ins, how: "ast"}
		return in.toCase(fmt.Sprintf("s%d.%d", rc.seed, idx), kind)
	}
	switch idx % 5 {
	case 1:
		cfg.maxRules, cfg.depth = 2, 1
	case 2:
		cfg.maxRules, cfg.depth, cfg.core, cfg.unicode = 4, 1, false, false
	case 3:
		cfg.textable, cfg.unicode = true, false
	case 4:
		cfg.maxRules, cfg.depth, cfg.maxAlts, cfg.maxReps = 2, 3, 2, 2
	}
	g := newGen(seed, cfg)
	gr := g.gram()
	how := "ast"
	if cfg.textable && gr.textOK() {
		how = "text"
	}
	root := g.casing(gr.Names[g.r.Intn(len(gr.Names))])
	if g.p(4) {
		root = coreNames[g.r.Intn(len(coreNames))]
	}
	n, max := 7, 6
	if kind == "count" || kind == "tree" {
		n, max = 5, 5
	}
	in := &engInput{gr: gr, root: root, how: how}
	in.ins = g.inputs(gr, root, n, max, false)
	return in.toCase(fmt.Sprintf("s%d.%d", rc.seed, idx), kind)
}

// lines gives a grammar over control and other uncommon characters, and inputs
// that fail behind a mix of them: every byte may come before the failure, or be
// what is found there.
func (g *gen) lines() (*Gram, []string) {
	src := []string{
		`a = *%x00-1F "x"`,
		`a = *(%x00-60 / %x7B-10FFFF) "x"`,
		"a = *( LF / CR / HTAB / %x0B / %x0C / %x1C-1E / %x85 / %x2028-2029 / SP ) b\nb = \"x\" / CRLF \"y\" LF",
		"a = *( *WSP CRLF / LF / CR ) \"x\" CRLF",
		`a = 2*5( %x0A / %x0D.0A / %x0B / %x20-7E ) %x00`,
	}[g.r.Intn(5)]
	var ins []string
	pool := []string{"\n", "\r\n", "\r", "\t", "\v", "\f", " ", "\x00", "\x1c", "\x1e", "\u0085", "\u2028", "\u2029", "\x7f", "\u00a0", "\ufeff", "~", "A"}
	for k := 0; k < 8; k++ {
		var b strings.Builder
		for n := g.r.Intn(9); n > 0; n-- {
			if g.p(25) {
				b.WriteString(string(rune(g.r.Intn(256))))
			} else {
				b.WriteString(pool[g.r.Intn(len(pool))])
			}
		}
		s := b.String()
		switch g.r.Intn(4) {
		case 0:
			s += "x"
		case 1:
			s += string([]byte{byte(g.r.Intn(256))})
		case 2:
			s += "\n" + []string{"!", "\n", "x!", "\v\n"}[g.r.Intn(4)]
		}
		ins = append(ins, s)
	}
	return mparse(src), ins
}

func engProp(kind string) propDef {
	return propDef{
		record: func(rc *recorder) {
			for i := rc.shard; i < rc.n; i += rc.shards {
				runEng(rc, rc.drawEng(kind, i))
			}
		},
		one: func(rc *recorder, raw []byte) {
			c := &Case{}
			if err := json.Unmarshal(raw, c); err != nil {
				fatal(err)
			}
			runEng(rc, c)
		},
	}
}

func init() {
	props["C01"] = engProp("iv")
	props["C02"] = engProp("forest")
	props["C03"] = engProp("count")
	props["C04"] = engProp("tree")
	props["C19"] = engProp("diag")
}
