package main

// Recorders for generated standalone parsers (C05, and their element budget for
// C18): the sources of a batch are compiled into one program, which is then fed
// the inputs.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"

	goabnf "github.com/pandatix/go-abnf"
)

type gpAns struct {
	V bool    `json:"v"`
	N int     `json:"n"`
	A bool    `json:"a"`
	T []*Tree `json:"t"`
	B []gpBud `json:"b"` // under budgets
	X string  `json:"x"`
	C []int   `json:"c"` // scale: count modulo two primes
	P [][]int `json:"p"` // scale: nodes of the tree, as scNodes
}

// gpBud is a parse under a budget of m elements.
type gpBud struct {
	M    int  `json:"m"`
	Over bool `json:"over"` // refused with the documented error
	Err  bool `json:"err"`  // refused with another one
	Size int  `json:"size"`
	V    bool `json:"v"`
	N    int  `json:"n"`
}

type obsGp struct {
	K    string   `json:"k"`
	Src  bool     `json:"src"`  // source was returned
	Same bool     `json:"same"` // twice the same source
	Pkg  bool     `json:"pkg"`  // names the package asked for
	Std  bool     `json:"std"`  // only imports the standard library
	Cc   string   `json:"cc"`   // compile error
	R    []gpAns  `json:"r"`
	Late []string `json:"late"` // answers which are others later, at once with others, or spoil the input
	X    string   `json:"x"`
	src  []byte
}

type parGp struct {
	Src []int  `json:"src"` // source given instead of the grammar's own
	Pkg string `json:"pkg"`
	Bud bool   `json:"bud"`
	Big bool   `json:"big"` // not feasible without a budget
}

func (o *obsGp) generate(c *Case, p parGp) {
	pan := guard(func() {
		gen := func() ([]byte, error) {
			if c.K == "sc" {
				var sp parSc
				c.par(&sp)
				sp.build()
				return goabnf.GenerateGoParserFromABNF([]byte(sp.src), c.Ask, p.Pkg)
			}
			if len(p.Src) > 0 {
				return goabnf.GenerateGoParserFromABNF(toBytes(p.Src), c.Ask, p.Pkg)
			}
			if c.How == "text" {
				return goabnf.GenerateGoParserFromABNF([]byte(c.gram().text()), c.Ask, p.Pkg, goabnf.WithValidation(false))
			}
			return goabnf.GenerateGoParser(c.gram().lib(), c.Ask, p.Pkg)
		}
		src, err := gen()
		o.K = errKind(err)
		if errors.Is(err, goabnf.ErrNoSolutionFound) {
			o.K = "syntax"
		}
		if err != nil {
			o.Src = src != nil
			return
		}
		again, err := gen()
		o.Same = err == nil && bytes.Equal(src, again)
		o.Src = true
		o.src = src
	})
	if pan != "" {
		o.X = pan
		return
	}
	if o.src == nil {
		return
	}
	f, err := parser.ParseFile(token.NewFileSet(), "p.go", o.src, parser.ImportsOnly)
	if err != nil {
		o.Cc = err.Error()
		return
	}
	o.Pkg = f.Name.Name == p.Pkg
	o.Std = stdOnly(f)
}

func stdOnly(f *ast.File) bool {
	for _, i := range f.Imports {
		p, err := strconv.Unquote(i.Path.Value)
		if err != nil || strings.Contains(strings.SplitN(p, "/", 2)[0], ".") || strings.Contains(p, "go-abnf") || p == "C" {
			return false
		}
	}
	return true
}

const gpMain = `package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"sync"
IMPORTS)

type tree struct {
	R string  ` + "`json:\"r\"`" + `
	S int     ` + "`json:\"s\"`" + `
	E int     ` + "`json:\"e\"`" + `
	C []*tree ` + "`json:\"c\"`" + `
}
type bud struct {
	M    int  ` + "`json:\"m\"`" + `
	Over bool ` + "`json:\"over\"`" + `
	Err  bool ` + "`json:\"err\"`" + `
	Size int  ` + "`json:\"size\"`" + `
	V    bool ` + "`json:\"v\"`" + `
	N    int  ` + "`json:\"n\"`" + `
}
type ans struct {
	V bool    ` + "`json:\"v\"`" + `
	N int     ` + "`json:\"n\"`" + `
	A bool    ` + "`json:\"a\"`" + `
	T []*tree ` + "`json:\"t\"`" + `
	B []bud   ` + "`json:\"b\"`" + `
	X string  ` + "`json:\"x\"`" + `
	C []int   ` + "`json:\"c\"`" + `
	P [][]int ` + "`json:\"p\"`" + `
}

func mods(n *big.Int) []int {
	if n == nil {
		return nil
	}
	m := func(p int64) int { return int(new(big.Int).Mod(n, big.NewInt(p)).Int64()) }
	return []int{m(30011), m(32003), n.Sign()}
}

func number(rule string) int {
	r := -1
	if rule != "" {
		r = 0
		if l := low(rule); l[0] == 'r' {
			fmt.Sscan(l[1:], &r)
		}
	}
	return r
}

func count(n *big.Int) int {
	if n == nil {
		return -2
	}
	if n.Sign() < 0 {
		if n.Cmp(big.NewInt(-1)) == 0 {
			return -1
		}
		return -3
	}
	if n.Cmp(big.NewInt(CAP)) >= 0 {
		return CAP
	}
	return int(n.Int64())
}

func low(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

type job struct {
	I   int
	Ins [][]int
	Bud bool
	Big bool
	Sc  bool
}

// a run answers, and gives the way to answer again
var runs = map[int]func(in []byte, budgets, big, scale bool) (ans, func() ans){
RUNS}

func text(a ans) string {
	a.B = []bud{}
	s, err := json.Marshal(a)
	if err != nil {
		panic(err)
	}
	return string(s)
}

func main() {
	var jobs []job
	if err := json.NewDecoder(bufio.NewReader(os.Stdin)).Decode(&jobs); err != nil {
		panic(err)
	}
	for _, j := range jobs {
		var ins, olds [][]byte
		var as []ans
		var again []func() ans
		for k, in := range j.Ins {
			fmt.Printf("begin %d %d\n", j.I, k)
			b := make([]byte, len(in))
			for i, x := range in {
				b[i] = byte(x)
			}
			olds = append(olds, append([]byte{}, b...))
			ins = append(ins, b)
			a, f := runs[j.I](b, j.Bud, j.Big, j.Sc)
			as, again = append(as, a), append(again, f)
			s, err := json.Marshal(a)
			if err != nil {
				panic(err)
			}
			fmt.Printf("%s\n", s)
		}
		if j.Big {
			continue
		}
		late := func(k int, what string) { fmt.Printf("late %d input %d %s\n", j.I, k+1, what) }
		for k := range ins {
			if again[k] != nil && text(again[k]()) != text(as[k]) {
				late(k, "answers otherwise later")
			}
			if string(ins[k]) != string(olds[k]) {
				late(k, "is written to")
			}
		}
		if j.Bud || j.Sc {
			continue
		}
		var wg sync.WaitGroup
		res := make([]ans, 2*len(ins))
		for k := range res {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				res[k], _ = runs[j.I](ins[k/2], false, false, false)
			}(k)
		}
		wg.Wait()
		for k := range res {
			if text(res[k]) != text(as[k/2]) {
				late(k/2, "answers otherwise at once with others")
			}
		}
	}
}
FUNCS`

const gpFunc = `
func treeNN(t *PP.ParseTree, n *int) *tree {
	out := &tree{R: low(t.Rule), S: t.Start, E: t.End, C: []*tree{}}
	*n++
	if *n > 20000 {
		return out
	}
	for _, k := range t.Children {
		if k == nil {
			out.C = append(out.C, &tree{R: "NIL", C: []*tree{}})
			continue
		}
		out.C = append(out.C, treeNN(k, n))
	}
	return out
}

func nodesNN(t *PP.ParseTree, out *[][]int) {
	*out = append(*out, []int{number(t.Rule), t.Start, t.End, len(t.Children)})
	for _, k := range t.Children {
		nodesNN(k, out)
	}
}

func askNN(r *PP.Result, big, scale bool) (a ans) {
	a.T, a.B, a.C, a.P = []*tree{}, []bud{}, []int{}, [][]int{}
	defer func() {
		if r := recover(); r != nil {
			a.X = fmt.Sprintf("panic: %v", r)
		}
	}()
	n := r.NumTrees()
	a.V, a.N, a.A = r.Valid(), count(n), r.Ambiguous()
	if scale {
		a.C = mods(n)
		if a.N == 1 {
			if t := r.Tree(); t != nil {
				nodesNN(t, &a.P)
			}
		}
		return a
	}
	if !big {
		n := 0
		if t := r.Tree(); t != nil {
			a.T = append(a.T, treeNN(t, &n))
		}
	}
	return a
}

func runNN(in []byte, budgets, big, scale bool) (a ans, again func() ans) {
	a.T, a.B, a.C, a.P = []*tree{}, []bud{}, []int{}, [][]int{}
	if big {
		def := PP.MaxElements
		defer func() { PP.MaxElements = def }()
		PP.MaxElements = 3000
	}
	defer func() {
		if r := recover(); r != nil {
			a.X = fmt.Sprintf("panic: %v", r)
		}
	}()
	r, err := PP.Parse(in)
	if big && err == PP.ErrTooLarge {
		a.B = append(a.B, bud{M: PP.MaxElements, Over: true})
		return a, nil
	}
	if err != nil {
		a.X = "error: " + err.Error()
		return a, nil
	}
	a = askNN(r, big, scale)
	again = func() ans { return askNN(r, big, scale) }
	if budgets && !big {
		n, def := r.Elements(), PP.MaxElements
		for _, m := range []int{0, 1, 2, n / 2, n - 2, n - 1, n, n + 1, n + 2, 2*n + 1} {
			if m < 0 {
				continue
			}
			PP.MaxElements = m
			b := bud{M: m}
			r, err := PP.Parse(in)
			switch {
			case err == nil:
				b.Size, b.V, b.N = r.Elements(), r.Valid(), count(r.NumTrees())
			case err == PP.ErrTooLarge:
				b.Over = true
			default:
				b.Err = true
			}
			a.B = append(a.B, b)
		}
		PP.MaxElements = def
	}
	return a, again
}
`

func gpSub(s string, i int) string {
	n := strconv.Itoa(i)
	return strings.NewReplacer("NN", n, "PP", "p"+n).Replace(s)
}

var gpErr = regexp.MustCompile(`(?m)^# gp/g(\d+)\n((?:[^#].*\n?)*)`)

// runGp generates, compiles and runs a batch.
func runGp(rc *recorder, cs []*Case) {
	obs := make([]*obsGp, len(cs))
	par := make([]parGp, len(cs))
	dir := filepath.Join(rc.scratch, "gp")
	if rc.scratch == "" {
		fatal(errors.New("a scratch directory is needed"))
	}
	os.RemoveAll(dir)
	defer os.RemoveAll(dir)
	must := func(err error) {
		if err != nil {
			fatal(err)
		}
	}
	must(os.MkdirAll(dir, 0o755))
	must(os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module gp\n\ngo 1.23\n"), 0o644))
	for i, c := range cs {
		rc.begin(c)
		if c.K == "sc" {
			par[i].Pkg = "p"
		} else {
			c.par(&par[i])
		}
		o := &obsGp{R: []gpAns{}, Late: []string{}}
		obs[i] = o
		o.generate(c, par[i])
		if o.src == nil || o.Cc != "" {
			continue
		}
		d := filepath.Join(dir, fmt.Sprintf("g%d", i))
		must(os.MkdirAll(d, 0o755))
		must(os.WriteFile(filepath.Join(d, "p.go"), o.src, 0o644))
	}
	live := func(i int) bool {
		return obs[i].src != nil && obs[i].Cc == "" && obs[i].X == "" && obs[i].Pkg && obs[i].Std
	}
	alive(func() {
		for round := 0; round < 3; round++ {
			var imp, runs, funcs strings.Builder
			n := 0
			for i := range cs {
				if live(i) {
					n++
					fmt.Fprintf(&imp, "\tp%d \"gp/g%d\"\n", i, i)
					fmt.Fprintf(&runs, "\t%d: run%d,\n", i, i)
					funcs.WriteString(gpSub(gpFunc, i))
				}
			}
			if n == 0 {
				return
			}
			src := strings.NewReplacer("IMPORTS", imp.String(), "RUNS", runs.String(), "FUNCS", funcs.String(), "CAP", strconv.Itoa(countCap)).Replace(gpMain)
			must(os.WriteFile(filepath.Join(dir, "main.go"), []byte(src), 0o644))
			cmd := exec.Command("go", "build", "-gcflags=-e", "-o", "gp.bin", ".")
			cmd.Dir = dir
			out, err := cmd.CombinedOutput()
			if err == nil {
				break
			}
			found := false
			for _, m := range gpErr.FindAllStringSubmatch(string(out), -1) {
				i, _ := strconv.Atoi(m[1])
				obs[i].Cc = strings.SplitN(m[2], "\n", 2)[0]
				found = true
			}
			if !found {
				if strings.Contains(string(out), "# gp\n") { // the parsers lack what the interface promises
					for i := range cs {
						if live(i) && strings.Contains(string(out), fmt.Sprintf("p%d.", i)) {
							obs[i].Cc, found = "lacks part of the documented interface", true
						}
					}
				}
				if !found {
					fatal(fmt.Errorf("go build: %v\n%s", err, out))
				}
			}
		}
	})
	type job struct {
		I   int
		Ins [][]int
		Bud bool
		Big bool
		Sc  bool
	}
	todo := []job{}
	for i, c := range cs {
		if live(i) {
			todo = append(todo, job{i, c.Ins, par[i].Bud, par[i].Big, c.K == "sc"})
		}
	}
	for len(todo) > 0 {
		var out, serr bytes.Buffer
		cmd := exec.Command(filepath.Join(dir, "gp.bin"))
		cmd.Stdin = strings.NewReader(js(todo))
		cmd.Stdout, cmd.Stderr = &out, &serr
		killed := false
		var err error
		alive(func() {
			must(cmd.Start())
			done := make(chan error, 1)
			go func() { done <- cmd.Wait() }()
			select {
			case err = <-done:
			case <-time.After(120 * time.Second):
				killed = true
				cmd.Process.Kill()
				<-done
			}
		})
		at := -1
		for _, l := range strings.Split(out.String(), "\n") {
			if strings.HasPrefix(l, "begin ") {
				fmt.Sscanf(l, "begin %d", &at)
				continue
			}
			if s, ok := strings.CutPrefix(l, "late "); ok {
				n, what, _ := strings.Cut(s, " ")
				if i, err := strconv.Atoi(n); err == nil {
					obs[i].Late = append(obs[i].Late, what)
				}
				continue
			}
			var a gpAns
			if at >= 0 && l != "" && json.Unmarshal([]byte(l), &a) == nil {
				obs[at].R = append(obs[at].R, a)
			}
		}
		if err == nil && !killed {
			break
		}
		if at < 0 {
			fatal(fmt.Errorf("the generated parsers: %v %s", err, serr.String()))
		}
		obs[at].X = "the generated parser crashes or hangs: " + tail(serr.String(), 300)
		for len(todo) > 0 {
			i := todo[0].I
			todo = todo[1:]
			if i == at {
				break
			}
		}
	}
	for i, c := range cs {
		if len(obs[i].Cc) > 300 {
			obs[i].Cc = obs[i].Cc[:300]
		}
		c.Obs = obs[i]
		if c.K == "sc" {
			c.Obs = obs[i].scale()
		}
		rc.emit(c)
	}
}

func (o *obsGp) scale() obsSc {
	s := newObsSc()
	s.X, s.K = o.X, append(s.K, o.Late...)
	if o.K != "ok" && s.X == "" {
		s.X = "refused: " + o.K
	}
	if o.Cc != "" && s.X == "" {
		s.X = "compile: " + o.Cc
	}
	for _, a := range o.R {
		if a.X != "" && s.X == "" {
			s.X = a.X
		}
		s.V, s.FA, s.FC, s.FT = append(s.V, a.V), append(s.FA, a.A), append(s.FC, a.C), append(s.FT, a.P)
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// alive keeps the watch at rest while the harness itself works.
func alive(f func()) {
	stop := make(chan struct{})
	go func() {
		for {
			lastBegin.Store(time.Now().UnixNano())
			select {
			case <-stop:
				return
			case <-time.After(time.Second):
			}
		}
	}()
	f()
	close(stop)
}

func drawGp(rc *recorder, idx int, bud bool) *Case {
	kind := "gp"
	if bud {
		kind = "gb"
	}
	p := parGp{Pkg: []string{"p", "parser", "abnfparser", "x1", "main_", "Pkg"}[idx%6], Bud: bud, Src: []int{}}
	var c *Case
	if idx < len(curatedGrams) {
		c = rc.drawEng("count", idx)
	} else {
		seed := rc.seed*3_000_017 + int64(idx)
		cfg := defaultCfg()
		switch idx % 4 {
		case 0:
			cfg.maxRules, cfg.depth = 2, 1
		case 1:
			cfg.maxRules, cfg.core = 4, false
		case 2:
			cfg.textable = true
		}
		g := newGen(seed, cfg)
		gr := g.gram()
		how := "ast"
		if cfg.textable && gr.textOK() {
			how = "text"
		}
		var big []string
		if isLarge(idx) {
			gr, big = g.large(20)
		}
		root := g.casing(gr.Names[g.r.Intn(len(gr.Names))])
		if idx%25 == 12 { // many ways through
			fams := []int{0, 1, 2, 3, 4, 5, 14, 15, 16, 17}
			if bud {
				fams = []int{21, 6, 12, 20, 21, 0, 5, 14}
			}
			var wk parWk
			gr, big, wk = wkGram(g, fams[idx/25%len(fams)])
			p.Big = wk.Bud
			root = g.casing(gr.Names[0])
		} else if g.p(4) {
			root = coreNames[g.r.Intn(len(coreNames))]
		}
		in := &engInput{gr: gr, root: root, how: how}
		if in.ins = big; big == nil {
			in.ins = g.inputs(gr, root, 7, 5, false)
		}
		c = in.toCase(fmt.Sprintf("s%d.%d", rc.seed, idx), kind)
		if !bud {
			switch g.r.Intn(24) {
			case 0:
				c.Ask, c.Root = "nowhere", "nowhere"
			case 1: // not ABNF
				t := gr.text()
				if i := strings.LastIndexByte(t, '='); gr.textOK() && i > 0 {
					p.Src = bytesOf(t[:i] + []string{"", "==", "=)", "= ("}[g.r.Intn(4)] + t[i+1:] + []string{"", "\x00", "x", "= "}[g.r.Intn(4)])
				}
			}
		}
	}
	c.K = kind
	c.setPar(p)
	return c
}

func gpProp(draw func(rc *recorder, idx int) *Case) propDef {
	return propDef{
		record: func(rc *recorder) {
			var cs []*Case
			flush := func() {
				if len(cs) > 0 {
					runGp(rc, cs)
				}
				cs = nil
			}
			for i := rc.shard; i < rc.n; i += rc.shards {
				if c := draw(rc, i); c != nil {
					cs = append(cs, c)
				}
				if len(cs) == 60 {
					flush()
				}
			}
			flush()
		},
		one: func(rc *recorder, raw []byte) {
			c := &Case{}
			if err := json.Unmarshal(raw, c); err != nil {
				fatal(err)
			}
			runGp(rc, []*Case{c})
		},
	}
}

func init() {
	props["C05"] = gpProp(func(rc *recorder, idx int) *Case { return drawGp(rc, idx, false) })
	props["C18gen"] = gpProp(func(rc *recorder, idx int) *Case { return drawGp(rc, idx, true) })
	props["C05sc"] = gpProp(drawSc("gp"))
}
