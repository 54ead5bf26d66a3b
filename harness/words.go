package main

// Recorders for the two generators that work on the grammar (C11, C12).

import (
	"bytes"
	"fmt"
	"math/rand"

	goabnf "github.com/pandatix/go-abnf"
)

const longWord = 28

type genAsk struct {
	Seed int64 `json:"seed"`
	Rep  int   `json:"rep"`
	Thr  int   `json:"thr"`
	Def  bool  `json:"def"` // default options
}

type parGw struct {
	Asks []genAsk `json:"asks"`
}

type obsWord struct {
	K    string `json:"k"`
	W    []int  `json:"w"`
	Long bool   `json:"long"` // too long to be judged, not recorded
	Same bool   `json:"same"`
	X    string `json:"x"`
}

func (o *obsWord) word(w, again []byte) {
	o.Same = bytes.Equal(w, again)
	if len(w) > longWord {
		o.Long = true
		return
	}
	o.W = bytesOf(string(w))
}

type wordSource interface {
	Generate([]byte) []byte
	GenerateRand(*rand.Rand) []byte
}

// generate asks one generator, then a fresh one; a tape that runs out reads as
// zeros, so that zeros after it change nothing.
func (o *obsWord) generate(w *astWord, a, b wordSource) {
	if w.Rnd {
		o.word(a.GenerateRand(rand.New(rand.NewSource(w.Seed))), b.GenerateRand(rand.New(rand.NewSource(w.Seed))))
		return
	}
	tape := toBytes(w.Tape)
	if len(tape) == 0 && w.Seed%2 == 0 {
		tape = nil
	}
	longer := append(append([]byte{}, w.bytes()...), make([]byte, 5)...)
	o.word(a.Generate(tape), b.Generate(w.bytes()))
	if !bytes.Equal(tape, w.bytes()) {
		o.X = "the tape is written"
	}
	if len(tape) > 0 { // no tape at all asks for the shortest
		o.Same = o.Same && bytes.Equal(b.Generate(longer), a.Generate(tape))
	}
}

func (w *astWord) bytes() []byte { return toBytes(w.Tape) }

func runGw(rc *recorder, c *Case) {
	rc.begin(c)
	var p parGw
	c.par(&p)
	obs := []obsWord{}
	g, err := c.library()
	for _, a := range p.Asks {
		o := obsWord{W: []int{}}
		pan := guard(func() {
			if err != nil {
				o.X = "read: " + err.Error()
				return
			}
			opts := []goabnf.GenerateOption{goabnf.WithRepMax(a.Rep), goabnf.WithThreshold(a.Thr)}
			if a.Def {
				opts = nil
			}
			w, err := g.Generate(a.Seed, c.Ask, opts...)
			w2, err2 := g.Generate(a.Seed, c.Ask, opts...)
			o.K = errKind(err)
			o.word(w, w2)
			if errKind(err2) != o.K {
				o.Same = false
			}
		})
		if pan != "" {
			o.X = pan
		}
		obs = append(obs, o)
	}
	c.Obs = obs
	rc.emit(c)
}

func drawWords(rc *recorder, idx int, kind string) (*gen, *Case) {
	if idx < len(curatedGrams) {
		g := newGen(rc.seed*1_000_003+int64(idx), defaultCfg())
		gr := mparse(curatedGrams[idx].src)
		return g, (&engInput{gr: gr, root: gr.Names[0], how: "ast"}).toCase(fmt.Sprintf("cur%d.%d", rc.seed, idx), kind)
	}
	cfg := defaultCfg()
	cfg.maxCount = 2
	switch idx % 4 {
	case 1:
		cfg.maxRules, cfg.depth = 4, 1
	case 2:
		cfg.undefined, cfg.prose, cfg.badRep = false, false, false
	case 3:
		cfg.maxRules, cfg.depth, cfg.maxAlts, cfg.maxReps = 2, 3, 2, 2
		cfg.undefined = false
	}
	g := newGen(rc.seed*1_000_003+int64(idx), cfg)
	gr := g.gram()
	if isLarge(idx) {
		gr, _ = g.large(24)
	}
	root := g.casing(gr.Names[g.r.Intn(len(gr.Names))])
	if g.p(3) {
		root = append(append([]string{}, coreNames...), "nowhere")[g.r.Intn(len(coreNames)+1)]
	}
	return g, (&engInput{gr: gr, root: root, how: "ast"}).toCase(fmt.Sprintf("s%d.%d", rc.seed, idx), kind)
}

func drawGw(rc *recorder, idx int) *Case {
	g, c := drawWords(rc, idx, "gw")
	p := parGw{}
	for i := 0; i < 6; i++ {
		a := genAsk{Seed: g.r.Int63(), Rep: []int{0, 1, 2, 2, 3, 5, -1}[g.r.Intn(7)], Thr: []int{0, 0, 1, 3, 6, 12, 20, -1}[g.r.Intn(8)]}
		if g.p(15) {
			a.Seed = int64(g.r.Intn(20)) - 10
		}
		if isLarge(idx) {
			a.Rep, a.Thr = []int{0, 2, 8, 14}[g.r.Intn(4)], []int{0, 6, 30, 60}[g.r.Intn(4)]
		}
		if i == 5 {
			a.Def = true
		}
		p.Asks = append(p.Asks, a)
	}
	c.setPar(p)
	return c
}

// ---- C12 ----

type astWord struct {
	Tape []int `json:"tape"`
	Rnd  bool  `json:"rnd"` // use a random source seeded by Seed instead
	Seed int64 `json:"seed"`
}

type parAg struct {
	Depth int       `json:"depth"`
	Len   int       `json:"len"`
	Rep   int       `json:"rep"`
	Def   bool      `json:"def"`
	Ws    []astWord `json:"ws"`
}

type obsAg struct {
	K  string    `json:"k"`
	Ws []obsWord `json:"ws"`
	X  string    `json:"x"`
}

func runAg(rc *recorder, c *Case) {
	rc.begin(c)
	var p parAg
	c.par(&p)
	o := obsAg{Ws: []obsWord{}}
	pan := guard(func() {
		g, err := c.library()
		if err != nil {
			o.X = "read: " + err.Error()
			return
		}
		opts := []goabnf.ASTGenOption{goabnf.WithMaxDepth(p.Depth), goabnf.WithMaxLen(p.Len), goabnf.WithMaxRepeat(p.Rep)}
		if p.Def {
			opts = nil
		}
		ag, err := goabnf.NewASTGenerator(g, c.Ask, opts...)
		o.K = errKind(err)
		if err != nil {
			return
		}
		for _, w := range p.Ws {
			ow := obsWord{W: []int{}}
			if x := guard(func() {
				ag2, err := goabnf.NewASTGenerator(g, c.Ask, opts...)
				if err != nil {
					ow.X = "refused the second time: " + err.Error()
					return
				}
				ow.generate(&w, ag, ag2)
			}); x != "" {
				ow.X = x
			}
			o.Ws = append(o.Ws, ow)
		}
	})
	if pan != "" {
		o.X = pan
	}
	c.Obs = o
	rc.emit(c)
}

func (g *gen) tape() []int {
	n := []int{0, 0, 1, 2, 4, 8, 16, 32}[g.r.Intn(8)]
	t := []int{}
	for i := 0; i < n; i++ {
		switch g.r.Intn(4) {
		case 0:
			t = append(t, 255)
		case 1:
			t = append(t, g.r.Intn(4))
		default:
			t = append(t, g.r.Intn(256))
		}
	}
	return t
}

func drawAg(rc *recorder, idx int) *Case {
	g, c := drawWords(rc, idx, "ag")
	p := parAg{
		Depth: []int{0, 1, 2, 3, 4, 8, -1}[g.r.Intn(7)],
		Len:   []int{0, 1, 2, 5, 10, 20, -1}[g.r.Intn(7)],
		Rep:   []int{0, 1, 2, 3, 4, -1}[g.r.Intn(6)],
	}
	if isLarge(idx) {
		p.Depth, p.Len, p.Rep = []int{3, 8, 20}[g.r.Intn(3)], []int{10, 30, 60}[g.r.Intn(3)], []int{2, 8, 14}[g.r.Intn(3)]
	}
	if g.p(12) {
		p.Def, p.Rep = true, 16
	}
	for i := 0; i < 7; i++ {
		w := astWord{Tape: g.tape()}
		if g.p(30) {
			w.Rnd, w.Seed = true, g.r.Int63()
		}
		p.Ws = append(p.Ws, w)
	}
	c.setPar(p)
	return c
}

func init() {
	props["C11"] = caseProp(drawGw, runGw)
	props["C12"] = caseProp(drawAg, runAg)
}
