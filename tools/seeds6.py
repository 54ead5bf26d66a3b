import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from seedlib import mkseed
P = '''	g, err := goabnf.ParseABNF([]byte(%s))
	check(err == nil, "%%v", err)
'''
def G(src): return P % ('"' + src + '"')

mkseed("s70-memo-rules-only", "C22",
  [("recognize.go", "	r.memo[key] = cloneSet(out)\n	return out", "	if isRule {\n		r.memo[key] = cloneSet(out)\n	}\n	return out")],
  '''	src := "\\"x\\""
	for i := 0; i < 9; i++ {
		src = "*(" + src + ")"
	}
	g, err := goabnf.ParseABNF([]byte("a = " + src + "\\r\\n"))
	check(err == nil, "%v", err)
	done := make(chan bool)
	go func() {
		ok, err := g.IsValid("a", []byte(strings.Repeat("x", 60)+"!"))
		done <- !ok && err == nil
	}()
	select {
	case ok := <-done:
		check(ok, "wrong answer")
	case <-time.After(20 * time.Second):
		check(false, "not done after 20 s")
	}''',
  "groups nested in repetitions over several levels", "recognition takes exponential time", imports=("strings", "time"))
mkseed("s71-index-16", "C01",
  [("recognize.go", '''	key := elem.String() + "@" + strconv.Itoa(index)''', '''	key := elem.String() + "@" + strconv.Itoa(int(uint16(index)))''')],
  G('a = *b \\"!\\"\\r\\nb = \\"x\\" / \\"y\\"\\r\\n') + '''	in := []byte(strings.Repeat("x", 65536) + "z!")
	ok, err := g.IsValid("a", in)
	check(err == nil && !ok, "accepts z %v", err)
	in = []byte(strings.Repeat("x", 65540) + "!")
	ok, err = g.IsValid("a", in)
	check(err == nil && ok, "refuses %v", err)''',
  "an input of more than 65 536 bytes", "what was reached at an earlier position is taken for this one", imports=("strings",))
mkseed("s72-count-saturates", "C02",
  [("sppf.go", '''	next := rc + 1
	if nt.repMax == inf && next > nt.repMin {
		next = nt.repMin
	}''', '''	next := rc + 1
	if nt.repMax == inf && (next > nt.repMin || next > 255) {
		next = rc
	}''')],
  G('a = 300*\\"x\\"\\r\\n') + '''	f, err := goabnf.Parse([]byte(strings.Repeat("x", 310)), g, "a")
	check(err == nil && f.Valid(), "%v", err)''',
  "an unbounded repetition of a minimum over 255", "its words are refused", imports=("strings",))
mkseed("s73-count-64", "C03",
  [("sppf.go", "			total.Add(total, prod)\n		}\n		onStack[n] = false", "			total.SetUint64(total.Uint64() + prod.Uint64())\n		}\n		onStack[n] = false")],
  G('a = a a / \\"x\\"\\r\\n') + '''	f, err := goabnf.Parse([]byte(strings.Repeat("x", 45)), g, "a")
	check(err == nil, "%v", err)
	b, err := goabnf.ParseBSR([]byte(strings.Repeat("x", 45)), g, "a")
	check(err == nil, "%v", err)
	check(f.NumTrees().Cmp(b.NumTrees()) == 0, "%v %v", f.NumTrees(), b.NumTrees())''',
  "more than 2^64 trees", "the number of trees is cut", imports=("strings",))
mkseed("s74-expected-cut", "C19",
  [("sppf.go", "	if !p.expectedSeen[desc] {\n", "	if !p.expectedSeen[desc] && len(p.expected) < 32 {\n")],
  '''	src := "a = "
	for i := 0; i < 40; i++ {
		if i > 0 {
			src += " / "
		}
		src += fmt.Sprintf("%%x%X", 0x30+i)
	}
	g, err := goabnf.ParseABNF([]byte(src + "\\r\\n"))
	check(err == nil, "%v", err)
	f, err := goabnf.Parse([]byte("~"), g, "a")
	check(err == nil && len(f.ParseError().Expected) == 40, "%v", f.ParseError())''',
  "more than 32 terminals expected at one place", "some of them are not told")
mkseed("s75-tab-col", "C19",
  [("errors.go", "		if input[i] == '\\n' {\n			line++\n			col = 1", "		if input[i] == '\\n' || input[i] == '\\v' {\n			line++\n			col = 1")],
  G('a = *%x09-0D \\"x\\"\\r\\n') + '''	f, err := goabnf.Parse([]byte("\\n\\t\\v!"), g, "a")
	check(err == nil, "%v", err)
	pe := f.ParseError()
	check(pe.Line == 2 && pe.Col == 3, "%v", pe)''',
  "a vertical tab before the failure", "the line is wrong")
mkseed("s77-group-threshold", "C11",
  [("generate.go", '''			case ElemGroup:
				generateAlt(rand, g, out, elem.Alternation, options)
''', '''			case ElemGroup:
				if i == 0 || !options.over(len(*out)) {
					generateAlt(rand, g, out, elem.Alternation, options)
				}
''')],
  G('a = 3(\\"xx\\")\\r\\n') + '''	for s := int64(0); s < 20; s++ {
		w, err := g.Generate(s, "a", goabnf.WithThreshold(3))
		check(err == nil, "%v", err)
		ok, _ := g.IsValid("a", w)
		check(ok, "%q", w)
	}''',
  "the threshold met within the mandatory occurrences of a group", "a mandatory occurrence is missing")
mkseed("s78-scratch", "C09",
  [("generate.go", "	b := *slc\n	b = append(b, []byte(string(v))...)\n	*slc = b", "	if cap(*slc) == 0 {\n		*slc = generateBuf[:0]\n	}\n	*slc = append(*slc, []byte(string(v))...)"),
   ("generate.go", "func appendPtr(", "// generateBuf saves the first allocations of a generation.\nvar generateBuf = make([]byte, 0, 64)\n\nfunc appendPtr(")],
  G('a = 5%x30-39\\r\\n') + '''	w, err := g.Generate(1, "a")
	check(err == nil, "%v", err)
	before := string(w)
	for s := int64(2); s < 20; s++ {
		_, _ = g.Generate(s, "a")
	}
	check(string(w) == before, "%q became %q", before, w)''',
  "two generations, the first result looked at after the second", "a word changes after it was returned")
mkseed("s80-dependency-case", "C08",
  [("grammar.go", "			r := GetRule(dep, g.Rulemap)\n			if r == nil {\n				return &ErrDependencyNotFound{", "			r := GetRule(dep, g.Rulemap)\n			if r == nil && len(deps) < 64 {\n				return &ErrDependencyNotFound{")],
  '''	src, in := "", "a = "
	for i := 0; i < 80; i++ {
		src += fmt.Sprintf("r%d = \\"x\\"\\r\\n", i)
		in += fmt.Sprintf("r%d ", i)
	}
	_, err := goabnf.ParseABNF([]byte(src + in + "zz\\r\\n"))
	check(err != nil, "accepted")''',
  "a rule that refers to 64 rules or more, one of them undefined", "the grammar is said valid")
mkseed("s81-dec-bound", "C08",
  [("utils.go", "(str[3] == '4' && (str[4] > '1' ||", "(str[3] == '4' && (str[4] > '2' || (str[4] == '2' && str[5] > '0') ||")],
  '''	_, err := goabnf.ParseABNF([]byte("a = %d1114200\\r\\n"))
	check(err != nil, "accepted")''',
  "a decimal value between 1114200 and 1114209", "a numeral above the bound is said valid")
mkseed("s85-hash-cmp", "C17",
  [("dag.go", "		nontrivial := len(s) > 1\n", "		nontrivial := len(s) > 1 && len(s) < 64\n")],
  '''	src := ""
	for i := 0; i < 80; i++ {
		src += fmt.Sprintf("r%d = [r%d]\\r\\n", i, (i+1)%80)
	}
	g, err := goabnf.ParseABNF([]byte(src))
	check(err == nil, "%v", err)
	c, err := g.RuleContainsCycle("r3")
	check(err == nil && c, "no cycle")''',
  "a cycle of 64 rules or more", "the cycle is not found")
mkseed("s87-cost-bound", "C12",
  [("ast.go", "const astUnbounded = 1 << 30", "const astUnbounded = 1 << 16")],
  '''	g, err := goabnf.ParseABNF([]byte("a = 70000\\"x\\"\\r\\n"))
	check(err == nil, "%v", err)
	ag, err := goabnf.NewASTGenerator(g, "a")
	check(err == nil, "%v", err)
	check(len(ag.Generate(nil)) == 70000, "short")''',
  "a rule whose shortest word is longer than 65 536 bytes", "it is said to derive nothing")
mkseed("s88-next-cap", "C15",
  [("fuzz.go", "const expectedNextRangeCap = 1 << 16", "const expectedNextRangeCap = 1 << 10")],
  G('a = %x80-7FF\\r\\n') + '''	tg, err := g.TransitionGraph("a")
	check(err == nil, "%v", err)
	gn, err := goabnf.NewGenerator(tg)
	check(err == nil, "%v", err)
	n, _, ok := gn.ExpectedNext(nil)
	check(ok && len(n) == 30, "%v %d", ok, len(n))''',
  "a range of more than 1024 characters beyond ASCII", "no answer is given")
