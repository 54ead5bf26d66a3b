import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from seedlib import mkseed
P = '''	g, err := goabnf.ParseABNF([]byte(%s))
	check(err == nil, "%%v", err)
'''
def G(src): return P % ('"' + src + '"')
TG = '''	tg, err := g.TransitionGraph("a"%s)
	check(err == nil, "%%v", err)
'''
CLI = r'''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
(cd "$repo/cmd/pap" && go build -o "$t/pap" .) && (cd "$repo/cmd/abnf-gen" && go build -o "$t/abnf-gen" .) || exit 1
cd "$t"
'''
GP = r'''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
(cd "$repo/cmd/abnf-gen" && go build -o "$t/abnf-gen" .) || exit 1
mkdir "$t/p" && cd "$t" && printf 'module demo\n\ngo 1.24\n' > go.mod
printf '%b' 'ABNF' > g.abnf
./abnf-gen -in g.abnf -root a -pkg p -out p/p.go || exit 1
cat > main.go <<'EOM'
package main

import (
	"demo/p"
	"fmt"
	"os"
)

func check(ok bool, a ...any) {
	if !ok {
		fmt.Println(append([]any{"FAIL"}, a...)...)
		os.Exit(1)
	}
}

func main() {
BODY
}
EOM
go run .
'''
def gp(abnf, body): return GP.replace("ABNF", abnf).replace("BODY", body)

# C20
mkseed("s90-no-truncate", "C20",
  [("cmd/abnf-gen/main.go", '''	if err := os.WriteFile(*out, code, 0o644); err != nil {
		return fmt.Errorf("write %s: %w", *out, err)
	}
''', '''	f, err := os.OpenFile(*out, os.O_WRONLY|os.O_CREATE, 0o644)
	if err != nil {
		return fmt.Errorf("write %s: %w", *out, err)
	}
	defer f.Close()
	if _, err := f.Write(code); err != nil {
		return fmt.Errorf("write %s: %w", *out, err)
	}
''')], "", "an output file which is there already, longer than what is written", "the end of the old file stays",
  demo_sh=CLI + r'''printf 'a = "x"\r\n' > g.abnf
head -c 200000 /dev/zero | tr '\0' '/' > out.go
./abnf-gen -in g.abnf -root a -pkg p -out out.go 2>/dev/null && ./abnf-gen -in g.abnf -root a -pkg p > want.go && cmp out.go want.go
''')
mkseed("s91-seed-int", "C20",
  [("cmd/pap/commands/utils.go", 'return ctx.Int64("seed")', 'return int64(int32(ctx.Int64("seed")))')], "",
  "a seed beyond 32 bits", "another word than the library's",
  demo_sh=CLI + r'''printf 'a = 20%%x41-5A\r\n' > g.abnf
x=$(./pap generate --input g.abnf --rulename a --seed 4294967297)
y=$(./pap generate --input g.abnf --rulename a --seed 1)
test "$x" != "$y"
''')
mkseed("s92-one-read", "C20",
  [("cmd/pap/commands/utils.go", '''		return io.ReadAll(os.Stdin)
''', '''		b := make([]byte, 1<<20)
		n, err := io.ReadAtLeast(os.Stdin, b, 1)
		return b[:n], err
''')], "",
  "a standard input that comes in several pieces", "only the first piece is read",
  demo_sh=CLI + r'''x=$( (printf 'a = "x"\r\n'; sleep 1; printf 'b = "y"\r\n') | ./pap validate | grep -c '"y"')
test "$x" = 1
''')
# C05
mkseed("s93-series-key", "C05",
  [("codegen.go", "	key := string(bs)\n	if i, ok", "	key := string(bs[:min(8, len(bs))])\n	if i, ok")], "",
  "two series with the same first eight octets", "the generated parser takes one for the other",
  demo_sh=gp(r'a = %x61.62.63.64.65.66.67.68.69 / "-" %x61.62.63.64.65.66.67.68.6A\r\n',
             '''	r, err := p.Parse([]byte("-abcdefghj"))
	check(err == nil && r.Valid(), err)'''))
mkseed("s94-shared-index", "C05",
  [("codegen.go", '''	if r.index != nil {
		return
	}
	r.index = make(map[bsrKey][]int, len(r.set))
''', '''	if r.index != nil {
		return
	}
	for k := range scratch {
		delete(scratch, k)
	}
	r.index = scratch
'''),
   ("codegen.go", "// Valid reports whether the whole input is derivable by the root rule.\nfunc (r *Result) Valid", "var scratch = map[bsrKey][]int{}\n\n// Valid reports whether the whole input is derivable by the root rule.\nfunc (r *Result) Valid")], "",
  "a result that is asked again after another one was", "its answers are those of the other",
  demo_sh=gp(r'a = "x" / "yy"\r\n', '''	r, err := p.Parse([]byte("x"))
	check(err == nil && r.Valid(), "valid")
	s, err := p.Parse([]byte("q"))
	check(err == nil && !s.Valid(), "invalid")
	check(r.Valid(), "no longer valid")'''))
# C06
mkseed("s96-last-range", "C06",
  [("regex.go", "		if r.lo <= last.hi+1 { // overlapping or adjacent\n			if r.hi > last.hi {\n				last.hi = r.hi\n			}",
    "		if r.lo <= last.hi+1 { // overlapping or adjacent\n			if r.lo > last.lo || r.hi > last.hi {\n				last.hi = r.hi\n			}")],
  G('a = %x41-5A / %x43-45\\r\\n') + '''	s, err := g.Regex("a")
	check(err == nil, "%v", err)
	check(regexp.MustCompile("^(?:"+s+")$").MatchString("Z"), "%s", s)''',
  "a range that holds another one", "characters are lost", imports=("regexp",))
# C13
# C16
mkseed("s99-casings-cap", "C16",
  [("transition_graph.go", "		if numVar > 30 {\n			numVar = 30\n		}", "		if numVar > 12 {\n			numVar = 12\n		}")],
  G('a = \\"abcdefghijklm\\"\\r\\n') + TG % "" + '''	r := tg.Reader()
	n := 0
	for r.Next() {
		r.Scan()
		n++
	}
	check(n == 8192, "%d", n)''',
  "a literal of more than 12 letters", "casings are missing")
mkseed("s100-gap", "C16",
  [("transition_graph.go", "		for tgr.nextLeaf() {\n			if tgr.endSet[tgNodeID(tgr.stack[len(tgr.stack)-1].node)] {\n				return true\n			}\n		}\n		if !tgr.levelHadAnyPath {",
    "		before := tgr.length\n		for tgr.nextLeaf() {\n			if tgr.endSet[tgNodeID(tgr.stack[len(tgr.stack)-1].node)] {\n				tgr.lastLength = tgr.length\n				return true\n			}\n		}\n		if !tgr.levelHadAnyPath || (tgr.lastLength > 0 && before > tgr.lastLength+1) {"),
   ("transition_graph.go", "	exhausted       bool           // no more trails (coverage complete)\n", "	exhausted       bool           // no more trails (coverage complete)\n	lastLength      int            // length of the last trail\n")],
  G('a = \\"x\\" / \\"y\\" \\"y\\" \\"y\\" \\"y\\"\\r\\n') + TG % "" + '''	r := tg.Reader()
	n := 0
	for r.Next() {
		r.Scan()
		n++
	}
	check(n == 18, "%d", n)''',
  "trails whose lengths leave a gap of two", "the longer ones are never given")
# C14
# C15
mkseed("s103-dead-last", "C15",
  [("fuzz.go", "			if idx != len(prefix)-1 {\n				consumedAll = false", "			if idx < len(prefix)-2 {\n				consumedAll = false")],
  G('a = \\"x\\"\\r\\n') + TG % "" + '''	gn, err := goabnf.NewGenerator(tg)
	check(err == nil, "%v", err)
	_, acc, ok := gn.ExpectedNext([]byte("xq"))
	check(ok && !acc, "accepted")''',
  "a word and one more octet", "it is said to be a word")
# C17
mkseed("s104-self-option", "C17",
  [("dag.go", "			case ElemOption:\n				deps = appendDeps(deps, getDependencies(v.Alternation)...)\n", "			case ElemOption:\n				if rep.Max != 0 {\n					deps = appendDeps(deps, getDependencies(v.Alternation)...)\n				}\n")],
  G('a = 0[a] \\"x\\"\\r\\n') + '''	check(!g.IsDAG(), "no cycle")''',
  "an option repeated zero times", "its rules are not dependencies")
# C10
mkseed("s105-huge-bound", "C10",
  [("abnf.go", "	if rep.Max != inf {\n		str += strconv.Itoa(rep.Max)\n	}\n	return str + rep.Element.String()", "	if rep.Max != inf && rep.Max < 1<<20 {\n		str += strconv.Itoa(rep.Max)\n	}\n	return str + rep.Element.String()")],
  G('a = 1*2000000\\"x\\"\\r\\n') + '''	h, err := goabnf.ParseABNF([]byte(g.String()))
	check(err == nil, "%v", err)
	check(h.Rulemap["a"].Alternation.Concatenations[0].Repetitions[0].Max == 2000000, "bound lost")''',
  "a maximum above a million", "it is printed as none")
# C11
mkseed("s106-series-high", "C11",
  [("generate.go", "						if utf8.ValidRune(r) {\n							appendPtr(out, r)", "						if utf8.ValidRune(r) && r != utf8.RuneError {\n							appendPtr(out, r)")],
  G('a = %xFFFD.41\\r\\n') + '''	w, err := g.Generate(1, "a")
	check(err == nil && string(w) == "\\uFFFDA", "%q %v", w, err)''',
  "a series that holds U+FFFD", "the character is left out")
