from seedlib import mkseed
mkseed("s05-cross-edge", "C17",
  [("dag.go", "			if w.onStack {\n				// Successor", "			if w.index > 0 {\n				// Successor")],
  '''	g, err := goabnf.ParseABNF([]byte("a = b c\\r\\nb = d\\r\\nc = d e\\r\\nd = \\"x\\"\\r\\ne = d\\r\\n"))
	check(err == nil, "%v", err)
	for i := 0; i < 50; i++ {
		check(g.IsDAG(), "no rule is on a cycle")
		cyc, err := g.RuleContainsCycle("a")
		check(err == nil && !cyc, "a contains no cycle")
	}''',
  "two rules sharing a dependency, visited in an order where the shared one is completed first", "a diamond-shaped dependency graph is reported as cyclic")
mkseed("s06-nested-range", "C06",
  [("regex.go", "			if r.hi > last.hi {\n				last.hi = r.hi\n			}", "			last.hi = r.hi")],
  '''	g, err := goabnf.ParseABNF([]byte("a = %x61-7A / %x63-64\\r\\n"))
	check(err == nil, "%v", err)
	re, err := g.Regex("a")
	check(err == nil, "%v", err)
	check(regexp.MustCompile("^(?:"+re+")$").MatchString("q"), "q is a word of the rule, %s does not match", re)''',
  "an alternation of ranges, one strictly inside of another", "the merged class is shortened", imports=("regexp",))
mkseed("s07-nested-quantifier", "C06",
  [("regex.go", "rr.render(sb, v.sub, precAtom)", "rr.render(sb, v.sub, precRepeat)")],
  '''	g, err := goabnf.ParseABNF([]byte("a = 2*(2*3\\"b\\")\\r\\n"))
	check(err == nil, "%v", err)
	re, err := g.Regex("a")
	check(err == nil, "%v", err)
	_, err = regexp.Compile(re)
	check(err == nil, "%s does not compile: %v", re, err)''',
  "a repetition directly inside of a repetition", "the expression does not compile, or means something else", imports=("regexp",))
mkseed("s08-free-reference", "C12",
  [("ast.go", "			return addClamp(1, c)", "			return c")],
  '''	g, err := goabnf.ParseABNF([]byte("a = *\\"x\\" a / [\\"y\\"]\\r\\n"))
	check(err == nil, "%v", err)
	debug.SetMaxStack(64 << 20)
	ag, err := goabnf.NewASTGenerator(g, "a")
	check(err == nil, "%v", err)
	w := ag.Generate(nil)
	ok, err := g.IsValid("a", w)
	check(ok && err == nil, "%q", w)''',
  "a nullable recursive alternative before a nullable one that ends", "steering never ends: the generator recurses until the stack overflows", imports=("runtime/debug",))
mkseed("s09-sensitive-case", "C11",
  [("generate.go", "					if !elem.Sensitive && (int(rand.Int63())%2) == 0 {", "					if (int(rand.Int63())%2) == 0 && (!elem.Sensitive || len(*out) > 4) {")],
  '''	g, err := goabnf.ParseABNF([]byte("a = \\"-----\\" %s\\"k\\"\\r\\n"))
	check(err == nil, "%v", err)
	for s := int64(0); s < 40; s++ {
		w, err := g.Generate(s, "a")
		check(err == nil, "%v", err)
		ok, err := g.IsValid("a", w)
		check(ok && err == nil, "%q", w)
	}''',
  "a case-sensitive string generated after more than four bytes", "generated words do not respect the case of a case-sensitive string")
