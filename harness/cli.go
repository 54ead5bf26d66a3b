package main

// Recorder for the commands (C20): the built binaries against the library.

import (
	"bytes"
	"context"
	"crypto/sha256"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	goabnf "github.com/pandatix/go-abnf"
)

// parCli: what is asked on the command line. Flags are -1 when absent, 0/1 for
// an explicit false/true, or their value.
type parCli struct {
	Cmd   string `json:"cmd"`
	Src   []int  `json:"src"`
	Input string `json:"input"` // stdin, dash, file, missing
	Sem   int    `json:"sem"`
	Seed  int    `json:"seed"`
	Rep   int    `json:"rep"`
	Thr   int    `json:"thr"`
	Rules int    `json:"rules"`
	Chars int    `json:"chars"`
	Nums  int    `json:"nums"`
	Out   string `json:"out"` // gen: absent, dash, file, existing, nodir
	Pkg   string `json:"pkg"`
	Nat   bool   `json:"nat"`   // the source is that of the grammar of the case
	Style int    `json:"style"` // how flags are spelled
	Num   string `json:"num"`   // the seed, when it is one (seed is then 0)
	Old   int    `json:"old"`   // octets of the file that was there
	Cut   []int  `json:"cut"`   // where the standard input pauses
}

// libAns is the library's answer under options.
type libAns struct {
	O   map[string]int `json:"o"`
	K   string         `json:"k"`
	Out string         `json:"out"` // digest of the answer
	Ln  string         `json:"ln"`  // digest of the answer and a line feed
	msg string
}

type obsCli struct {
	St   int      `json:"st"`
	Out  string   `json:"out"`  // digest of the standard output
	None bool     `json:"none"` // nothing on the standard output
	Err  bool     `json:"err"`  // something on the standard error
	Msg  []bool   `json:"msg"`  // does it hold the message of the corresponding library answer
	File string   `json:"file"` // digest of the output file
	Made bool     `json:"made"` // there is an output file
	Kept bool     `json:"kept"` // a file that was there is unchanged
	Word []int    `json:"word"` // standard output but its line feed
	Long bool     `json:"long"`
	Junk []string `json:"junk"` // other files left behind
	Lib  []libAns `json:"lib"`
	X    string   `json:"x"`
}

const repoDir = "/repo"

var (
	binOnce sync.Once
	binDir  string
)

func binaries(rc *recorder) string {
	binOnce.Do(func() {
		alive(func() {
			binDir = filepath.Join(rc.scratch, "bin")
			if err := os.MkdirAll(binDir, 0o755); err != nil {
				fatal(err)
			}
			for name, dir := range map[string]string{"pap": "cmd/pap", "abnf-gen": "cmd/abnf-gen"} {
				cmd := exec.Command("go", "build", "-o", filepath.Join(binDir, name), ".")
				cmd.Dir = filepath.Join(repoDir, dir)
				cmd.Env = append(os.Environ(), "GOWORK=off", "GOFLAGS=-mod=readonly", "GOPROXY=off")
				if out, err := cmd.CombinedOutput(); err != nil {
					fatal(fmt.Errorf("building %s: %v\n%s", name, err, out))
				}
			}
		})
	})
	return binDir
}

func digest(b []byte) string { return fmt.Sprintf("%x", sha256.Sum256(b))[:16] }

// canonMermaid gives a drawing a form that depends neither on the identifiers of
// nodes nor on the order of lines.
func canonMermaid(s string) string {
	label, kind := map[string]string{}, map[string]bool{}
	type edge struct{ f, t string }
	var es []edge
	var head []string
	for _, l := range strings.Split(s, "\n") {
		t := strings.TrimSpace(l)
		if f, to, ok := strings.Cut(t, " --> "); ok {
			es = append(es, edge{f, to})
			continue
		}
		if i := strings.IndexAny(t, "(["); i > 0 && len(t[:i]) == 36 {
			label[t[:i]] = t[i:]
			kind[t[:i]] = true
			continue
		}
		if t != "" {
			head = append(head, l)
		}
	}
	cur := label
	for k := 0; k < 6; k++ {
		next := map[string]string{}
		ins, outs := map[string][]string{}, map[string][]string{}
		for _, e := range es {
			outs[e.f] = append(outs[e.f], cur[e.t])
			ins[e.t] = append(ins[e.t], cur[e.f])
		}
		for id := range kind {
			in, out := ins[id], outs[id]
			sort.Strings(in)
			sort.Strings(out)
			next[id] = digest([]byte(cur[id] + "\x00" + strings.Join(in, "\x01") + "\x02" + strings.Join(out, "\x01")))
		}
		cur = next
	}
	var ls []string
	for id, l := range cur {
		ls = append(ls, label[id]+" "+l)
	}
	sort.Strings(ls)
	return strings.Join(head, "\n") + "\n\n" + strings.Join(ls, "\n") + fmt.Sprint(len(es))
}

// sortLines: rules are printed in no particular order.
func sortLines(s string) string {
	ls := strings.Split(s, "\r\n")
	sort.Strings(ls)
	return strings.Join(ls, "\r\n")
}

func stableKind(k string) bool { return k != "dep" && k != "rep" && k != "num" && k != "ok" }

func (o *obsCli) library(c *Case, p parCli) {
	src := toBytes(p.Src)
	seed, _ := strconv.ParseInt(p.Num, 10, 64)
	add := func(opt map[string]int, out []byte, err error) {
		a := libAns{O: opt, K: tgKind(err)}
		if err == nil {
			a.Out, a.Ln = digest(out), digest(append(append([]byte{}, out...), '\n'))
		} else {
			a.msg = err.Error()
			if errors.Is(err, goabnf.ErrNoSolutionFound) {
				a.K = "syntax"
			}
		}
		o.Lib = append(o.Lib, a)
	}
	switch p.Cmd {
	case "validate":
		for v := 0; v <= 1; v++ {
			g, err := goabnf.ParseABNF(src, goabnf.WithValidation(v == 1))
			var out string
			if err == nil {
				out = sortLines(g.PrettyPrint())
			}
			add(map[string]int{"val": v}, []byte(out), err)
		}
	case "generate":
		for d := 0; d < 4; d++ {
			g, err := goabnf.ParseABNF(src)
			opt := map[string]int{"rep": -1, "thr": -1}
			var out []byte
			if err == nil {
				var opts []goabnf.GenerateOption
				if d&1 != 0 && p.Rep >= 0 {
					opts = append(opts, goabnf.WithRepMax(p.Rep))
				}
				if d&2 != 0 && p.Thr >= 0 {
					opts = append(opts, goabnf.WithThreshold(p.Thr))
				}
				out, err = g.Generate(seed, c.Ask, opts...)
			}
			if d&1 != 0 {
				opt["rep"] = p.Rep
			}
			if d&2 != 0 {
				opt["thr"] = p.Thr
			}
			add(opt, out, err)
		}
	case "regex":
		g, err := goabnf.ParseABNF(src)
		var out string
		if err == nil {
			out, err = g.Regex(c.Ask)
		}
		add(map[string]int{"re": 0}, []byte(out), err)
	case "transition-graph":
		for d := 0; d < 16; d++ {
			if d&8 != 0 && p.Thr < 0 {
				break
			}
			g, err := goabnf.ParseABNF(src)
			opt := map[string]int{"rules": d & 1, "chars": d >> 1 & 1, "nums": d >> 2 & 1, "thr": -1}
			if d&8 != 0 {
				opt["thr"] = p.Thr
			}
			var out string
			if err == nil {
				tp := parTg{Rules: d&1 != 0, Chars: d&2 != 0, Nums: d&4 != 0, Def: d&8 == 0, Thr: p.Thr}
				var tg *goabnf.TransitionGraph
				if tg, err = g.TransitionGraph(c.Ask, tp.opts()...); err == nil {
					out = tg.ToMermaid()
				}
			}
			if err == nil {
				a := libAns{O: opt, K: "ok", Ln: digest([]byte(canonMermaid(out)))}
				o.Lib = append(o.Lib, a)
			} else {
				add(opt, nil, err)
			}
		}
	case "gen":
		for v := 0; v <= 1; v++ {
			out, err := goabnf.GenerateGoParserFromABNF(src, c.Ask, p.Pkg, goabnf.WithValidation(v == 1))
			add(map[string]int{"val": v}, out, err)
		}
	}
}

// paused is a reader that takes its time at some places.
type paused struct {
	b   []byte
	cut []int
	at  int
}

func (p *paused) Read(b []byte) (int, error) {
	if p.at >= len(p.b) {
		return 0, io.EOF
	}
	end := len(p.b)
	if len(p.cut) > 0 && p.at >= p.cut[0] {
		time.Sleep(15 * time.Millisecond)
		p.cut = p.cut[1:]
	}
	if len(p.cut) > 0 {
		end = p.cut[0]
	}
	n := copy(b, p.b[p.at:end])
	p.at += n
	return n, nil
}

func runCli(rc *recorder, c *Case) {
	rc.begin(c)
	var p parCli
	c.par(&p)
	o := &obsCli{Msg: []bool{}, Word: []int{}, Junk: []string{}, Lib: []libAns{}}
	c.Obs = o
	if pan := guard(func() { o.library(c, p) }); pan != "" {
		o.X = pan
		rc.emit(c)
		return
	}
	bin := binaries(rc)
	dir := filepath.Join(rc.scratch, "cli")
	os.RemoveAll(dir)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		fatal(err)
	}
	defer os.RemoveAll(dir)
	write := func(n string, b []byte) {
		if err := os.WriteFile(filepath.Join(dir, n), b, 0o644); err != nil {
			fatal(err)
		}
	}
	old := bytes.Repeat([]byte("kept "), p.Old/5+1)[:p.Old]
	var args []string
	flag := func(name, val string) {
		dash := []string{"--", "-"}[p.Style%2]
		if p.Style%3 == 0 || val == "" {
			args = append(args, dash+name+"="+val)
		} else {
			args = append(args, dash+name, val)
		}
	}
	boolean := func(name string, v int) {
		switch {
		case v == 0:
			args = append(args, "--"+name+"=false")
		case v == 1 && p.Style%2 == 0:
			args = append(args, "--"+name)
		case v == 1:
			args = append(args, "--"+name+"=true")
		}
	}
	var stdin []byte
	before := map[string]bool{}
	exe := "pap"
	if p.Cmd == "gen" {
		exe = "abnf-gen"
		switch p.Input {
		case "file":
			write("in.abnf", toBytes(p.Src))
			flag("in", "in.abnf")
		case "missing":
			flag("in", "nothere.abnf")
		}
		flag("root", c.Ask)
		flag("pkg", p.Pkg)
		boolean("no-validate", 1-p.Sem)
		switch p.Out {
		case "dash":
			flag("out", "-")
		case "file", "existing":
			flag("out", "out.go")
		case "nodir":
			flag("out", "no/out.go")
		}
		if p.Out == "existing" {
			write("out.go", old)
		}
	} else {
		args = append(args, p.Cmd)
		switch p.Input {
		case "stdin":
			stdin = toBytes(p.Src)
		case "dash":
			stdin = toBytes(p.Src)
			flag("input", "-")
		case "file":
			write("in.abnf", toBytes(p.Src))
			flag("input", "in.abnf")
		case "missing":
			flag("input", "nothere.abnf")
		}
		if p.Cmd == "validate" {
			boolean("sem-val", p.Sem)
		} else {
			flag("rulename", c.Ask)
		}
		switch p.Cmd {
		case "generate":
			if p.Seed >= 0 {
				flag("seed", p.Num)
			}
			if p.Rep >= 0 {
				flag("rep-max", strconv.Itoa(p.Rep))
			}
			if p.Thr >= 0 {
				flag("threshold", strconv.Itoa(p.Thr))
			}
		case "transition-graph":
			boolean("deflate-rules", p.Rules)
			boolean("deflate-charvals", p.Chars)
			boolean("deflate-numvals", p.Nums)
			if p.Thr >= 0 {
				flag("repetition-threshold", strconv.Itoa(p.Thr))
			}
		}
	}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		before[e.Name()] = true
	}
	ctx, cancel := context.WithTimeout(context.Background(), 50*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(bin, exe), args...)
	cmd.Dir = dir
	cmd.Stdin = &paused{stdin, p.Cut, 0}
	var out, serr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &serr
	err := cmd.Run()
	var xe *exec.ExitError
	switch {
	case err == nil:
	case errors.As(err, &xe):
		o.St = xe.ExitCode()
		if strings.Contains(serr.String(), "panic: ") || o.St < 0 {
			o.X = "crash or hang: " + tail(serr.String(), 300)
		}
	default:
		fatal(err)
	}
	o.None, o.Err = out.Len() == 0, serr.Len() > 0
	o.Out = digest(out.Bytes())
	if p.Cmd == "validate" && o.St == 0 {
		s, ok := strings.CutSuffix(out.String(), "\n")
		if !ok {
			s += "(no line feed)"
		}
		o.Out = digest([]byte(sortLines(s) + "\n"))
	}
	if p.Cmd == "transition-graph" && o.St == 0 {
		s, ok := strings.CutSuffix(out.String(), "\n")
		if !ok {
			s += "(no line feed)"
		}
		o.Out = digest([]byte(canonMermaid(s)))
	}
	if p.Cmd == "generate" {
		w, _ := strings.CutSuffix(out.String(), "\n")
		if o.Long = len(w) > longWord; !o.Long {
			o.Word = bytesOf(w)
		}
	}
	for _, a := range o.Lib {
		o.Msg = append(o.Msg, a.K == "ok" || !stableKind(a.K) || strings.Contains(serr.String(), a.msg))
	}
	es, _ = os.ReadDir(dir)
	for _, e := range es {
		if !before[e.Name()] && e.Name() != "out.go" {
			o.Junk = append(o.Junk, e.Name())
		}
	}
	if b, err := os.ReadFile(filepath.Join(dir, "out.go")); err == nil {
		o.Made, o.File, o.Kept = true, digest(b), p.Out == "existing" && bytes.Equal(b, old)
	}
	rc.emit(c)
}

func drawCli(rc *recorder, idx int) *Case {
	cfg := defaultCfg()
	cfg.unicode, cfg.textable, cfg.maxCount = false, true, 2
	cfg.undefined, cfg.badRep, cfg.prose = idx%4 == 0, idx%4 == 0, idx%4 == 1
	p := parCli{Cmd: []string{"validate", "generate", "regex", "transition-graph", "gen"}[idx%5], Sem: -1, Seed: -1, Rep: -1, Thr: -1, Rules: -1, Chars: -1, Nums: -1}
	if p.Cmd == "regex" || p.Cmd == "transition-graph" {
		cfg.acyclic = idx%8 != 0
		cfg.wide = false
	}
	g := newGen(rc.seed*9_000_011+int64(idx), cfg)
	gr := g.gram()
	if !gr.textOK() {
		return nil
	}
	root := g.casing(gr.Names[g.r.Intn(len(gr.Names))])
	if g.p(6) {
		root = "nowhere"
	}
	c := (&engInput{gr: gr, root: root, how: "text"}).toCase(fmt.Sprintf("s%d.%d", rc.seed, idx), "cli")
	p.Nat = true
	src := gr.text()
	if g.p(20) {
		src, p.Nat = g.mutateText(src), false
	}
	p.Src = bytesOf(src)
	p.Style = g.r.Intn(6)
	p.Input = []string{"stdin", "dash", "file", "file", "missing"}[g.r.Intn(5)]
	if p.Input == "missing" && !g.p(30) {
		p.Input = "file"
	}
	p.Cut = []int{}
	if (p.Input == "stdin" || p.Input == "dash") && p.Cmd != "gen" {
		if g.p(10) && p.Nat { // more than fits in a buffer
			var b strings.Builder
			n := []int{1000, 4200, 4200, 8300}[g.r.Intn(4)]
			for b.Len() < n {
				b.WriteString("; " + strings.Repeat("-", 20+g.r.Intn(30)) + "\r\n")
			}
			p.Src = append(p.Src, bytesOf(b.String())...)
		}
		if n := len(p.Src); g.p(20) && n > 3 {
			p.Cut = []int{1 + g.r.Intn(n/2), n/2 + 1}
		}
	}
	tri := func() int { return g.r.Intn(3) - 1 }
	switch p.Cmd {
	case "validate":
		p.Sem = tri()
	case "generate":
		if !g.p(15) {
			p.Seed = 0
			p.Num = []string{"0", "1", "42", strconv.Itoa(g.r.Intn(1 << 30)), strconv.Itoa(g.r.Intn(256)), strconv.FormatInt(int64(g.r.Uint64()), 10),
				"2147483648", "4294967297", "-1", strconv.Itoa(-g.r.Intn(1 << 40)), "9223372036854775807", "-9223372036854775808"}[g.r.Intn(12)]
		}
		if g.p(60) {
			p.Rep = []int{0, 1, 2, 3, 5, 9}[g.r.Intn(6)]
		}
		if g.p(60) {
			p.Thr = []int{0, 1, 2, 3, 6, 20}[g.r.Intn(6)]
		}
	case "transition-graph":
		p.Rules, p.Chars, p.Nums = tri(), tri(), tri()
		if g.p(40) {
			p.Thr = []int{0, 0, 1, 2, 3, 4, 300}[g.r.Intn(7)]
		}
		if gr.graphSize(root, parTg{Rules: true, Chars: true, Nums: true}) > 160 {
			return nil
		}
	case "gen":
		p.Sem = g.r.Intn(2)
		p.Pkg = []string{"p", "parser", "x1", ""}[min(g.r.Intn(10), 3)]
		if p.Pkg == "" && g.p(60) {
			p.Pkg = "q"
		}
		if p.Input == "stdin" || p.Input == "dash" {
			p.Input = "file"
			if g.p(6) {
				p.Input = "none"
			}
		}
		p.Old = []int{4, 4, 0, 1, 300000}[g.r.Intn(5)]
		p.Out = []string{"absent", "dash", "file", "file", "existing", "existing", "nodir"}[g.r.Intn(7)]
	}
	c.setPar(p)
	return c
}

func init() { props["C20"] = caseProp(drawCli, runCli) }
