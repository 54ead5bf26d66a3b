from seedlib import mkseed
from seeds3 import g, RACE
TG = '''	tg, err := g.TransitionGraph("a", goabnf.WithDeflateRules(true))
	check(err == nil, "%v", err)
'''
mkseed("s30-safe-known", "C11",
  [("generate.go", "			scopeRules := duplicateMap(knownRules)\n", "			scopeRules := knownRules\n")],
  g('a = b b\nb = "x"\n') + '''	w, err := g.Generate(1, "a")
	check(err == nil && len(w) == 2, "%q %v", w, err)''',
  "-", "two mandatory references to one rule are taken for a cycle")
mkseed("s31-series-tail", "C11",
  [("generate.go", "					for _, v := range elem.Elems {\n						r := numvalToRune(v, elem.Base)", "					for _, v := range elem.Elems[:min(len(elem.Elems), options.threshold+1)] {\n						r := numvalToRune(v, elem.Base)")],
  g('a = %x61.62.63\n') + '''	w, err := g.Generate(1, "a", goabnf.WithThreshold(1))
	check(err == nil && string(w) == "abc", "%q %v", w, err)''',
  "a numeric series longer than the threshold", "the series is cut: what is generated is no word")
mkseed("s32-depth-rep", "C12",
  [("ast.go", "	for i := 0; i < n; i++ {\n", "	for i := 0; i < n && depth <= 2*ag.maxDepth; i++ {\n")],
  g('a = "x" / "(" a ")" b\nb = c\nc = d\nd = 2e\ne = %x79\n') + '''	ag, err := goabnf.NewASTGenerator(g, "a", goabnf.WithMaxDepth(1))
	check(err == nil, "%v", err)
	for i := 0; i < 256; i++ {
		w := ag.Generate([]byte{byte(i), byte(i >> 1), 1, 1, 1, 1})
		ok, err := g.IsValid("a", w)
		check(err == nil && ok, "%q", w)
	}''',
  "a chain of rules deeper than twice the depth limit", "mandatory elements are dropped once too deep")
mkseed("s34-loop-entry", "C13",
  [("transition_graph.go", "				for _, etp := range last.Entrypoints {\n", "				for _, etp := range last.Entrypoints[:max(1, slices.Index(last.Entrypoints, emptyNode))] {\n")],
  g('a = 2*(*"x" "y" / *1"z")\n') + TG + '''	gen, err := goabnf.NewGenerator(tg)
	check(err == nil, "%v", err)
	next, _, ok := gen.ExpectedNext([]byte("zzz"))
	check(ok && slices.Contains(next, byte('z')), "zzzz is a word: %q", next)''',
  "an unbounded repetition with a minimum over an element of several entries", "loop edges are missing", imports=("slices",))
mkseed("s37-lifo-distance", "C14",
  [("fuzz.go", "		id := q[0]\n		q = q[1:]\n", "		id := q[len(q)-1]\n		q = q[:len(q)-1]\n")],
  g('a = "1" ("2" ("7" / "3" "4" "5" "6") / "8" "9" "0")\n') + TG + """	gen, err := goabnf.NewGenerator(tg, goabnf.WithMaxSteps(0))
	check(err == nil, "%v", err)
	check(string(gen.Generate(nil)) == "127", "%q is not the nearest end", gen.Generate(nil))""",
  "a graph where a longer way to an end is discovered before a shorter one, and a limit already hit", "the walk steers to an end which is not the nearest")
mkseed("s38-last-endpoint", "C15",
  [("fuzz.go", "				if g.endSet[tgNodeID(s.n)] {\n					lastCompletedEndpoint = true\n				}", "				lastCompletedEndpoint = g.endSet[tgNodeID(s.n)]")],
  g('a = "x" / "x" "y"\n') + TG + '''	gen, err := goabnf.NewGenerator(tg)
	check(err == nil, "%v", err)
	_, acc, ok := gen.ExpectedNext([]byte("x"))
	check(ok && acc, "x is a word")''',
  "two nodes completed by the same octet, the later one being no end", "a word is said incomplete")
mkseed("s40-compact-claim", "C16",
  [("transition_graph.go", "			claim := nextVal[id] + claimed[id]\n", "			claim := nextVal[id]\n")],
  g('a = 1*%x61-63\n') + TG + '''	seen := map[byte]bool{}
	r := tg.Reader(goabnf.WithCoverageMode(goabnf.CoverageCompact))
	for r.Next() {
		for _, b := range r.Scan() {
			seen[b] = true
		}
	}
	check(len(seen) == 3, "covered %v", seen)''',
  "a node met twice by one covering walk", "a variation of the node is never emitted")

mkseed("s43-class-escape", "C06",
  [("regex.go", "			b.WriteByte('-')\n", "			if r.hi > r.lo+1 {\n				b.WriteByte('-')\n			}\n"),
   ("regex.go", "		if r.lo <= last.hi+1 { // overlapping or adjacent", "		if r.lo <= last.hi+2 { // overlapping or adjacent")],
  g('a = %x61 / %x63\n') + """	re, err := g.Regex("a")
	check(err == nil, "%v", err)
	check(!regexp.MustCompile("^(?:"+re+")$").MatchString("b"), "%s matches b", re)""",
  "two characters of an alternation with a single one between them", "the merged class holds the character between", imports=("regexp",))
mkseed("s44-regex-never", "C06",
  [("regex.go", "			if v.min == 0 {\n				res = reEmptyV\n			} else {", "			if v.min == 0 && v.max == inf {\n				res = reEmptyV\n			} else {")],
  """	g, err := goabnf.ParseABNF([]byte("a = \\"x\\" [%x7A-61]\\r\\n"))
	check(err == nil, "%v", err)
	re, err := g.Regex("a")
	check(err == nil, "%v", err)
	check(regexp.MustCompile("^(?:"+re+")$").MatchString("x"), "%s does not match x", re)""",
  "an option (or bounded repetition) over an element that never matches", "the whole rule is said to match nothing", imports=("regexp",))
CLI = r"""#!/bin/bash
# Runs the commands of the repository in the current directory.
export GOTOOLCHAIN=local GOPROXY=off
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
go build -o "$t/pap" ./cmd/pap || exit 0
printf 'a = 1*5"x"\r\n' > "$t/g"
%s
"""
mkseed("s45-threshold-zero", "C20",
  [("cmd/pap/commands/transition_graph.go", '	if ctx.IsSet("repetition-threshold") {', '	if ctx.Int("repetition-threshold") > 0 {')],
  "", "an explicit threshold of zero", "the default threshold is used instead of the given one",
  demo_sh=CLI % 'if "$t/pap" transition-graph --input "$t/g" --rulename a --repetition-threshold 0 >/dev/null 2>&1; then echo "accepted past the threshold"; exit 1; fi')
mkseed("s46-seed-zero", "C20",
  [("cmd/pap/commands/utils.go", '	if ctx.IsSet("seed") {\n		return ctx.Int64("seed")\n	}', '	if seed := ctx.Int64("seed"); seed != 0 {\n		return seed\n	}')],
  "", "an explicit seed of zero", "the outcome is no longer reproducible",
  demo_sh=CLI % r"""printf 'a = 12("x" / "y" / "z" / "t")\r\n' > "$t/g"
for i in 1 2 3 4 5 6; do "$t/pap" generate --input "$t/g" --rulename a --seed 0; done | sort -u > "$t/o"
n=$(wc -l < "$t/o"); echo "$n outcomes"; [ "$n" = 1 ]""")

mkseed("s47-duplicate-loop", "C16",
  [("transition_graph.go", "					vo.Nexts = appendNodes(vo.Nexts, etp)\n", "					vo.Nexts = append(vo.Nexts, etp)\n")],
  g('a = 1*(1*%s"x")\n') + TG + """	r := tg.Reader()
	n := map[string]int{}
	for r.Next() {
		n[string(r.Scan())]++
	}
	for w, k := range n {
		check(k == 1, "%q given %d times", w, k)
	}""",
  "nested unbounded repetitions: the loop edge exists already", "words are given several times")
