package main

// Replays what the specification says of every grammar of small families
// (spec/SmallGrammars.tla and spec/ClassGrammars.tla, vectors/small.gz and
// vectors/class.gz) into the real code.

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"os"
	"slices"
	"sort"
	"strings"

	goabnf "github.com/pandatix/go-abnf"
)

// vector is what the specification says of rule s of a grammar.
type vector struct {
	G    string   `json:"g"`  // ABNF
	W    []int    `json:"w"`  // number of derivations of every word
	Ws   []string `json:"ws"` // words; by default those up to length 4 over "ab"
	Cyc  bool     `json:"cyc"`
	Prod bool     `json:"prod"`
}

// last is the last of the characters the words are made of.
func (v *vector) last() (x rune) {
	for _, w := range v.Ws {
		for _, r := range w {
			x = max(x, r)
		}
	}
	return x
}

func shortWords() []string {
	all, last := []string{""}, []string{""}
	for n := 0; n < 4; n++ {
		var next []string
		for _, w := range last {
			next = append(next, w+"a", w+"b")
		}
		all, last = append(all, next...), next
	}
	return all
}

var vecKinds = map[string]string{"C01": "iv", "C02": "forest", "C03": "count", "C06": "re", "C10": "round", "C11": "gw", "C12": "ag", "C13": "tg", "C14": "tw", "C15": "nx", "C17": "dep"}

func replayVectors(rc *recorder, files []string, stride, phase int) {
	short := shortWords()
	counters := map[string]int{}
	idx := 0
	for _, file := range files {
		f, err := os.Open(file)
		if err != nil {
			fatal(err)
		}
		zr, err := gzip.NewReader(f)
		if err != nil {
			fatal(err)
		}
		sc := bufio.NewScanner(zr)
		sc.Buffer(make([]byte, 1<<20), 1<<20)
		for sc.Scan() {
			idx++
			if idx%stride != phase%stride || idx/stride%rc.shards != rc.shard {
				continue
			}
			if bytes.HasPrefix(sc.Bytes(), []byte(`{"src"`)) {
				rc.replayText(sc.Bytes(), idx, counters)
				if counters["wrong"] >= 5 {
					break
				}
				continue
			}
			var v vector
			if err := json.Unmarshal(sc.Bytes(), &v); err != nil {
				fatal(err)
			}
			words := v.Ws
			if words == nil {
				words = short
			}
			c := (&engInput{gr: mparse(v.G), root: "s", ins: words, how: []string{"ast", "text"}[idx/stride%2]}).toCase(fmt.Sprintf("vec%d", idx), vecKinds[rc.prop])
			switch rc.prop { // what to run again if it comes to that
			case "C10":
				rc.begin(&textCase{ID: c.ID, K: "round", Src: bytesOf(v.G)})
			case "C11":
				p := parGw{}
				for seed := int64(0); seed < 6; seed++ {
					p.Asks = append(p.Asks, genAsk{Seed: seed, Rep: 2, Thr: int(seed)})
				}
				c.setPar(p)
			case "C12":
				p := parAg{Depth: 3, Len: 4, Rep: 2}
				for i := 0; i < 8; i++ {
					p.Ws = append(p.Ws, astWord{Tape: bytesOf(string(vecTape(i)))})
				}
				c.setPar(p)
			case "C13":
				c.setPar(parTg{Rules: true, Chars: true, Def: true})
			case "C14":
				p := parTw{Rules: true, Chars: true, Len: 3, Reps: 2, Steps: 6}
				for i := 0; i < 8; i++ {
					p.Ws = append(p.Ws, astWord{Tape: bytesOf(string(vecTape(i)))})
				}
				c.setPar(p)
			}
			if rc.prop != "C10" {
				rc.begin(c)
			}
			counters["grammars"]++
			var why string
			if pan := guard(func() { why = rc.replay(c, &v, words, counters) }); pan != "" {
				why = pan
			}
			if why != "" {
				rc.out.WriteString(js(map[string]any{"id": c.ID, "k": c.K, "why": why, "text": v.G, "g": c.G, "nm": c.Nm, "root": c.Root, "ask": c.Ask, "how": c.How, "ins": c.Ins, "obs": []int{}}))
				rc.out.WriteByte('\n')
				if counters["wrong"]++; counters["wrong"] >= 5 {
					break
				}
			}
			rc.count++
		}
		f.Close()
	}
	rc.out.Flush()
	fmt.Println(js(map[string]any{"cases": rc.count, "counters": counters}))
}

func (rc *recorder) replay(c *Case, v *vector, words []string, counters map[string]int) string {
	g, err := c.library()
	if err != nil {
		return "read: " + err.Error()
	}
	switch rc.prop {
	case "C01":
		for i, w := range words {
			counters["answers"]++
			if o := observeIV(g, "s", []byte(w)); o.X != "" || o.V != (v.W[i] != 0) {
				return fmt.Sprintf("%q is said valid: %v (%s), it has %d derivations", w, o.V, o.X, v.W[i])
			}
		}
	case "C02", "C03":
		for i, w := range words {
			counters["answers"]++
			o := observeForest(g, "s", []byte(w), rc.prop == "C03", false)
			n := v.W[i]
			if o.X != "" {
				return fmt.Sprintf("%q: %s", w, o.X)
			}
			if o.SV != (n != 0) || o.BV != (n != 0) {
				return fmt.Sprintf("%q is said valid: %v and %v, it has %d derivations", w, o.SV, o.BV, n)
			}
			if rc.prop == "C03" {
				if o.SN != n || o.BN != n {
					return fmt.Sprintf("%q is said to have %d and %d trees, it has %d", w, o.SN, o.BN, n)
				}
				if amb := n != 0 && n != 1; o.SA != amb || o.BA != amb {
					return fmt.Sprintf("%q is said ambiguous: %v and %v, it has %d derivations", w, o.SA, o.BA, n)
				}
			}
		}
	case "C06":
		re, err := g.Regex("s")
		if v.Cyc {
			if errKind(err) != "cyclic" {
				return fmt.Sprintf("a cyclic rule gives %q, %v", re, err)
			}
			return ""
		}
		if err != nil {
			return err.Error()
		}
		rx, err := compileWhole(re)
		if err != nil {
			return err.Error()
		}
		for i, w := range words {
			counters["answers"]++
			if m := rx.MatchString(w); m != (v.W[i] != 0) {
				return fmt.Sprintf("%s matches %q: %v, it has %d derivations", re, w, m, v.W[i])
			}
		}
	case "C15":
		if v.Cyc || !v.Prod || v.last() > 127 {
			return ""
		}
		tg, err := g.TransitionGraph("s", goabnf.WithDeflateRules(true))
		if err != nil {
			return err.Error()
		}
		gn, err := goabnf.NewGenerator(tg)
		if err != nil {
			return err.Error()
		}
		for i, w := range words {
			counters["answers"]++
			next, acc, ok := gn.ExpectedNext([]byte(w))
			if !ok || acc != (v.W[i] != 0) {
				return fmt.Sprintf("%q is accepted: %v (%v), it has %d derivations", w, acc, ok, v.W[i])
			}
			// what follows a prefix of a word is expected
			for j, x := range words {
				if v.W[j] != 0 && len(x) > len(w) && strings.HasPrefix(x, w) && strings.IndexByte(string(next), x[len(w)]) < 0 {
					return fmt.Sprintf("%q may be followed by %q, expected are %q", w, x[len(w)], next)
				}
			}
		}
	case "C17":
		counters["answers"]++
		cyc, err := g.RuleContainsCycle("S")
		if err != nil || cyc != v.Cyc {
			return fmt.Sprintf("has a cycle: %v, said %v, %v", v.Cyc, cyc, err)
		}
	case "C10":
		want := js(txGram(g))
		for i, text := range []string{g.String(), g.PrettyPrint()} {
			counters["answers"]++
			h, err := goabnf.ParseABNF([]byte(text), goabnf.WithValidation(false))
			if err != nil {
				return fmt.Sprintf("rendering %d is not read back: %v: %q", i, err, text)
			}
			if got := js(txGram(h)); got != want {
				return fmt.Sprintf("rendering %d reads back as another grammar: %q", i, text)
			}
		}
	case "C11":
		for seed := int64(0); seed < 6; seed++ {
			counters["answers"]++
			w, err := g.Generate(seed, "s", goabnf.WithRepMax(2), goabnf.WithThreshold(int(seed)))
			if (err == nil) != v.Prod {
				return fmt.Sprintf("has words: %v, gives %q, %v", v.Prod, w, err)
			}
			if why := v.judge(w, words); err == nil && why != "" {
				return why
			}
		}
	case "C12":
		ag, err := goabnf.NewASTGenerator(g, "s", goabnf.WithMaxDepth(3), goabnf.WithMaxLen(4), goabnf.WithMaxRepeat(2))
		if err != nil {
			if v.Prod && !strings.Contains(v.G, "t =") {
				return fmt.Sprintf("is refused: %v", err)
			}
			return ""
		}
		if !v.Prod {
			return "has no word, yet is not refused"
		}
		for i := 0; i < 8; i++ {
			counters["answers"]++
			if why := v.judge(ag.Generate(vecTape(i)), words); why != "" {
				return why
			}
		}
	case "C13", "C14":
		for i := 0; i < 2; i++ {
			tg, err := g.TransitionGraph("s", goabnf.WithDeflateRules(true), goabnf.WithDeflateCharVals(i == 1), goabnf.WithDeflateNumVals(i == 1 && v.last() < 256))
			if (err != nil) != v.Cyc || v.Cyc && errKind(err) != "cyclic" {
				return fmt.Sprintf("is cyclic: %v, gives %v", v.Cyc, err)
			}
			if v.Cyc {
				return ""
			}
			if rc.prop == "C14" {
				gn, err := goabnf.NewGenerator(tg, goabnf.WithMaxLength(3), goabnf.WithMaxReps(2), goabnf.WithMaxSteps(6))
				if err != nil {
					return err.Error()
				}
				for j := 0; v.Prod && j < 4; j++ {
					counters["answers"]++
					if why := v.judge(gn.Generate(vecTape(j+4*i)), words); why != "" {
						return why
					}
				}
				continue
			}
			gx, _ := export(tg)
			for j, w := range words {
				counters["answers"]++
				if got := gx.spells(w); got != (v.W[j] != 0) {
					return fmt.Sprintf("a walk spells %q: %v, it has %d derivations", w, got, v.W[j])
				}
			}
		}
	default:
		fatal(fmt.Errorf("no replay for %s", rc.prop))
	}
	return ""
}

// textVector is what reading a text gives (spec/ShortTexts.tla, spec/RuleList.tla).
type textVector struct {
	Src string `json:"src"`
	Val bool   `json:"val"`
	Red bool   `json:"red"`
	E   struct {
		K   string           `json:"k"`
		G   []map[string]any `json:"g"`
		Err string           `json:"err"`
		N   []int            `json:"n"`
		F   struct {
			Dep [][]int          `json:"dep"`
			Rep []map[string]any `json:"rep"`
			Num [][]any          `json:"num"`
		} `json:"f"`
	} `json:"e"`
}

func (rc *recorder) replayText(line []byte, idx int, counters map[string]int) {
	var v textVector
	if err := json.Unmarshal(line, &v); err != nil {
		fatal(err)
	}
	c := &textCase{ID: fmt.Sprintf("vec%d", idx), K: "read", Src: bytesOf(v.Src), Val: v.Val, Red: v.Red}
	rc.begin(c)
	o := readText([]byte(v.Src), v.Val, v.Red)
	counters["texts"]++
	rc.count++
	has := func(set []string, x any) bool {
		for _, s := range set {
			if s == js(x) {
				return true
			}
		}
		return false
	}
	why := ""
	switch {
	case o.X != "":
		why = o.X
	case v.E.K == "ok":
		if o.K != "ok" {
			why = "refuses a good text: " + o.K
			break
		}
		want, got := []string{}, []string{}
		for _, r := range v.E.G {
			want = append(want, js(map[string]any{"n": r["n"], "a": r["a"], "key": r["n"]}))
		}
		for _, r := range o.G {
			got = append(got, js(map[string]any{"n": r["n"], "a": r["a"], "key": r["key"]}))
		}
		sort.Strings(want)
		sort.Strings(got)
		if !slices.Equal(want, got) {
			why = fmt.Sprintf("another grammar: %v, not %v", got, want)
		}
	case v.E.K == "syntax":
		if o.K != "syntax" {
			why = "should be a syntax error, is " + o.K
		}
	case v.E.K == "refused":
		if o.K != v.E.Err || js(o.N) != js(v.E.N) {
			why = fmt.Sprintf("should be refused as %s %v, is %s %v", v.E.Err, v.E.N, o.K, o.N)
		}
	case v.E.K == "invalid":
		ok := false
		switch o.K {
		case "dep":
			ok = has(jsAll(v.E.F.Dep), o.N)
		case "rep":
			ok = has(jsAll(v.E.F.Rep), map[string]any(o.RP))
		case "num":
			ok = has(jsAll(v.E.F.Num), []any{o.B, o.D})
		}
		if !ok {
			why = fmt.Sprintf("should be invalid, is %s %v %v %v %v", o.K, o.N, o.RP, o.B, o.D)
		}
	}
	if why != "" {
		counters["wrong"]++
		c.Plain, c.Pretty, c.Rules = []int{}, []int{}, []int{}
		rc.out.WriteString(js(map[string]any{"id": c.ID, "k": c.K, "why": why, "text": v.Src, "src": c.Src, "val": c.Val, "red": c.Red, "def": false,
			"plain": c.Plain, "pretty": c.Pretty, "rules": c.Rules, "obs": o}))
		rc.out.WriteByte('\n')
	}
}

func jsAll[T any](q []T) (out []string) {
	for _, x := range q {
		out = append(out, js(x))
	}
	return out
}

func vecTape(i int) []byte {
	if i == 0 {
		return nil
	}
	t := make([]byte, 24)
	for k := range t {
		t[k] = byte((k*7+i*13)*(i+k) + i>>1)
	}
	return t
}

// judge tells whether a short word that was generated is one.
func (v *vector) judge(w []byte, words []string) string {
	s := string(w)
	if v.Ws == nil {
		s = strings.ReplaceAll(s, "A", "a")
		if strings.Trim(s, "abB") != "" {
			return fmt.Sprintf("generates %q", w)
		}
	}
	for i, x := range words {
		if x == s && v.W[i] == 0 {
			return fmt.Sprintf("generates %q, which is not a word", w)
		}
	}
	return ""
}

// spells tells whether a walk of the graph spells a word.
func (gx *Gx) spells(word string) bool {
	w := []rune(word)
	type state struct{ n, p int }
	ends := map[int]bool{}
	for _, n := range gx.Fi {
		ends[n] = true
	}
	seen := map[state]bool{}
	var todo []state
	into := func(n, p int) {
		if n == 0 {
			if p == len(w) && ends[0] {
				seen[state{0, p}] = true
			}
			return
		}
		e := gx.E[n-1]
		if e.T == "rng" {
			if p >= len(w) || int(w[p]) < e.Lo || int(w[p]) > e.Hi {
				return
			}
			p++
		}
		for _, x := range e.V {
			if p >= len(w) || int(w[p]) != x && (e.S || e.T == "ser" || flip(w[p]) != rune(x)) {
				return
			}
			p++
		}
		if !seen[state{n, p}] {
			seen[state{n, p}] = true
			todo = append(todo, state{n, p})
		}
	}
	for _, n := range gx.En {
		into(n, 0)
	}
	for len(todo) > 0 {
		x := todo[0]
		todo = todo[1:]
		for _, m := range gx.Nx[x.n-1] {
			into(m, x.p)
		}
	}
	for x := range seen {
		if x.p == len(w) && ends[x.n] {
			return true
		}
	}
	return false
}
