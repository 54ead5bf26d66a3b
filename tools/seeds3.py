from seedlib import mkseed
import sys
P = lambda text: 'mustParse(%s)' % text
G = '''	g, err := goabnf.ParseABNF([]byte("%s"))
	check(err == nil, "%%v", err)
'''
def g(text): return G % text.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\r\\n')

mkseed("s10-replacement-char", "C01",
  [("recognize.go", "			if ru == utf8.RuneError && size == 1 {\n				return out\n			}\n			if min <= ru", "			if ru == utf8.RuneError {\n				return out\n			}\n			if min <= ru")],
  g('a = *%x80-10FFFF\n') + '''	ok, err := g.IsValid("a", []byte("\\u00e9\\ufffd"))
	check(err == nil && ok, "U+FFFD is a character like others")''',
  "the character U+FFFD itself, well encoded, in a numeric range", "recognition takes the replacement character for a decoding error")
mkseed("s13-inter-ambiguity", "C03",
  [("sppf.go", "		if len(n.packs) > 1 {\n			return true\n		}", "		if n.kind == gSymbol && len(n.packs) > 1 {\n			return true\n		}")],
  g('s = *"a" *"a" "b"\n') + '''	f, err := goabnf.ParseForest([]byte("aab"), g, "s")
	check(err == nil, "%v", err)
	check(f.Ambiguous(), "%v trees, ambiguous: %v", f.NumTrees(), f.Ambiguous())''',
  "an ambiguity only held by an intermediate node (three symbols, the first two sharing their span)", "an ambiguous parse is said unambiguous")
mkseed("s14-visited-sibling", "C04",
  [("bsr.go", "				f.collectElem(csl, a, ks[0], b, rc, out, visited)\n			}\n			visited[id] = false\n			return", "				f.collectElem(csl, a, ks[0], b, rc, out, visited)\n			}\n			visited[id] = a == b\n			return")],
  g('s = e "x" e e\ne = ""\n') + '''	b, err := goabnf.ParseBSR([]byte("x"), g, "s")
	check(err == nil, "%v", err)
	check(len(b.Tree().Children) == 4, "%d children", len(b.Tree().Children))''',
  "a rule matching nothing twice at the same offset", "the extracted tree misses a child")
mkseed("s15-tree-first-pack", "C04",
  [("sppf.go", "	for _, c := range n.packs[0] {\n		f.collectChild(c, into, onStack)", "	for i := range n.packs[0] {\n		c := n.packs[(i*n.kind.last())%len(n.packs)][i]\n		f.collectChild(c, into, onStack)"),
   ("sppf.go", "type gnode struct {\n", "// last is the pack intermediate nodes take their right child from.\nfunc (k gnodeKind) last() int {\n	if k == gInter {\n		return 1\n	}\n	return 0\n}\n\ntype gnode struct {\n")],
  g('s = p p "b"\np = *"a"\n') + '''	for _, w := range []string{"b", "ab", "aab", "aaab"} {
		f, err := goabnf.ParseForest([]byte(w), g, "s")
		check(err == nil, "%v", err)
		at := 0
		for _, c := range f.Tree().Children {
			check(c.Start == at, "%s: child at %d, expected %d", w, c.Start, at)
			at = c.End
		}
	}''',
  "an ambiguous split held by an intermediate node", "children of two derivations are mixed: they overlap or leave gaps")
mkseed("s16-series-fold", "C05",
  [("codegen.go", "	key := string(bs)\n", "	key := strings.ToLower(string(bs))\n")],
  '''	src, err := goabnf.GenerateGoParserFromABNF([]byte("s = %x41 %x61\\r\\n"), "s", "main")
	check(err == nil, "%v", err)
	d, err := os.MkdirTemp("", "demo")
	check(err == nil, "%v", err)
	defer os.RemoveAll(d)
	check(os.WriteFile(d+"/p.go", src, 0o644) == nil, "write")
	check(os.WriteFile(d+"/m.go", []byte("package main\\nimport \\"fmt\\"\\nfunc main() { r, _ := Parse([]byte(\\"Aa\\")); fmt.Print(r.Valid()) }\\n"), 0o644) == nil, "write")
	check(os.WriteFile(d+"/go.mod", []byte("module x\\ngo 1.24\\n"), 0o644) == nil, "write")
	c := exec.Command("go", "run", ".")
	c.Dir = d
	o, err := c.CombinedOutput()
	check(err == nil && string(o) == "true", "Aa is a word of the rule: %s", o)''',
  "two numeric series that only differ by case in one grammar", "the generated parser shares one literal for both", imports=("os/exec",))
mkseed("s18-node-budget", "C18",
  [("sppf.go", "	if p.maxNodes > 0 && len(p.nodes) >= p.maxNodes {", "	if p.maxNodes > 0 && len(p.nodes) > p.maxNodes {")],
  g('s = "a" "b" "c"\n') + '''	for n := 1; n < 64; n++ {
		f, err := goabnf.ParseForest([]byte("abc"), g, "s", goabnf.WithMaxForestNodes(n))
		if err == nil {
			check(f.Nodes() <= n, "%d nodes within a budget of %d", f.Nodes(), n)
		}
	}''',
  "a forest of exactly one node more than its budget", "a forest exceeds its budget without an error")
mkseed("s19-slot-key", "C02",
  [("sppf.go", '	key := "grp:" + v.String()\n', '	key := "grp:" + canon(v.String())\n')],
  g('s = (%s"a") (%s"A")\n') + '''	f, err := goabnf.ParseForest([]byte("aA"), g, "s")
	check(err == nil, "%v", err)
	check(f.Valid(), "aA is a word of the rule")''',
  "two groups of a grammar that only differ by the case of a case-sensitive string", "both groups are lowered to one nonterminal")

mkseed("s20-upper-sensitive", "C07",
  [("grammar.go", "		if s[1] == 's' || s[1] == 'S' {", "		if s[1] == 's' {")],
  g('a = %S"b"\n') + """	ok, err := g.IsValid("a", []byte("B"))
	check(err == nil && !ok, "the string is case-sensitive")""",
  "the upper-case %S prefix", "a case-sensitive string is read as case-insensitive")
mkseed("s21-prose-tilde", "C07",
  [("rules.go", 'Elems:  []string{"3F", "7E"},', 'Elems:  []string{"3F", "7D"},')],
  """	_, err := goabnf.ParseABNF([]byte("a = <a~b>\\r\\n"))
	check(err == nil, "%v", err)""",
  "a tilde in a prose value", "well-formed source is refused")
mkseed("s23-extend-case", "C08",
  [("grammar.go", "			rule := GetRule(rl.Name, mp)\n			if rule == nil {", "			rule := mp[rl.Name]\n			if isCoreRule && rule == nil {\n				rule = GetRule(rl.Name, mp)\n			}\n			if rule == nil {")],
  """	_, err := goabnf.ParseABNF([]byte("Foo = \\"a\\"\\r\\nfoo =/ \\"b\\"\\r\\n"))
	check(err == nil, "%v", err)""",
  "an incremental alternative written in another case than the rule", "the extension is refused")
mkseed("s24-double-group", "C10",
  [("abnf.go", '	return "(" + egrp.Alternation.String() + ")"', '	s := egrp.Alternation.String()\n	if strings.HasPrefix(s, "(") && strings.HasSuffix(s, ")") {\n		return s\n	}\n	return "(" + s + ")"')],
  g('a = 2((%s"x") (%s"y"))\n') + """	h, err := goabnf.ParseABNF([]byte(g.String()))
	check(err == nil, "%v", err)
	ok, err := h.IsValid("a", []byte("xyxy"))
	check(err == nil && ok, "%q lost a word", g.String())""",
  "a group that starts and ends by other groups", "the rendering binds the repetition to the first inner group only")
mkseed("s25-cycle-case", "C17",
  [("dag.go", "	return ruleCycleVisit(strings.ToLower(rulename), nodeOf", "	return ruleCycleVisit(rulename, nodeOf")],
  g('Foo = "a" [Foo]\n') + """	c, err := g.RuleContainsCycle("Foo")
	check(err == nil && c, "Foo refers to itself")""",
  "a rule name asked with an upper-case letter", "a cyclic rule is said free of cycles")
mkseed("s26-hint-start", "C19",
  [("errors.go", "if input[offset] == '\\n' && (offset == 0 || input[offset-1] != '\\r') {", "if input[offset] == '\\n' && offset > 0 && input[offset-1] != '\\r' {")],
  """	_, err := goabnf.ParseABNF([]byte("\\na = b\\r\\n"))
	var pe *goabnf.ParseError
	check(errors.As(err, &pe) && pe.Offset == 0 && pe.Hint != "", "%v", err)""",
  "a line feed as the very first byte", "no hint is given", imports=("errors",))
mkseed("s27-found-del", "C19",
  [("errors.go", "	if b >= 0x20 && b < 0x7f {", "	if b >= 0x20 && b <= 0x7f {")],
  g('a = "b"\n') + """	f, err := goabnf.ParseForest([]byte{0x7f}, g, "a")
	check(err == nil, "%v", err)
	check(f.ParseError().Found == "%x7F", "found %s", f.ParseError().Found)""",
  "the DEL byte", "what was found is not described as other control characters are")
RACE = r"""#!/bin/bash
# Runs demo.go, built with the race detector, against the library in the current directory.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cp "$here/demo.go.txt" "$t/main.go"
cp "$repo/go.sum" "$t/go.sum"
cat > "$t/go.mod" <<EOM
module demo

go 1.24.4

require github.com/pandatix/go-abnf v0.0.0

replace github.com/pandatix/go-abnf => $repo
EOM
cd "$t" && timeout 200 go run -race .
"""
mkseed("s28-cached-analysis", "C09",
  [("grammar.go", "		leftRec:    g.leftRecursiveSCCs(),", "		leftRec:    analyzed(g),"),
   ("leftrec.go", "func (g *Grammar) leftRecursiveSCCs() map[string][]string {", "var lastAnalyzed struct {\n	g    *Grammar\n	sccs map[string][]string\n}\n\n// analyzed keeps the analysis of the last grammar, validated against many times.\nfunc analyzed(g *Grammar) map[string][]string {\n	if lastAnalyzed.g != g {\n		lastAnalyzed.sccs = g.leftRecursiveSCCs()\n		lastAnalyzed.g = g\n	}\n	return lastAnalyzed.sccs\n}\n\nfunc (g *Grammar) leftRecursiveSCCs() map[string][]string {")],
  g('a = a "b" / "c"\n') + """	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			g.IsValid("a", []byte("cbb"))
		}()
	}
	wg.Wait()""",
  "goroutines that validate at once", "a data race on the analysis of the last grammar", imports=("sync",), demo_sh=RACE)
mkseed("s29-sorted-in-place", "C09",
  [("errors.go", "	exp := append([]string(nil), expected...)\n", "	exp := expected\n")],
  g('a = "a" / "b" / "c" / "d"\n') + """	f, err := goabnf.ParseForest([]byte("x"), g, "a")
	check(err == nil, "%v", err)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 50; k++ {
				_ = f.ParseError().Error()
			}
		}()
	}
	wg.Wait()""",
  "two goroutines that ask the same failed forest for its diagnostic", "a data race on the forest", imports=("sync",), demo_sh=RACE)
