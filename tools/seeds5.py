import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from seedlib import mkseed
P = '''	g, err := goabnf.ParseABNF([]byte(%s))
	check(err == nil, "%%v", err)
'''
def g(src): return P % ('"' + src.replace('\\', '\\\\').replace('"', '\\"').replace("\r\n", "\\r\\n") + '"')
def G(src): return P % ('"' + src + '"')

mkseed("s50-count-max", "C21",
  [("generate.go", "		torep := rep.Min + int(rand.Int63())%(repmax-rep.Min+1)", "		torep := rep.Min + int(rand.Int63())%max(1, repmax-rep.Min)")],
  G('a = 1*3\\"x\\"\\r\\n') + '''	seen := map[int]bool{}
	for s := int64(0); s < 400; s++ {
		w, err := g.Generate(s, "a")
		check(err == nil, "%v", err)
		seen[len(w)] = true
	}
	check(len(seen) == 3, "%v", seen)''',
  "a bounded repetition whose largest count matters", "the largest count of a bounded repetition is never generated")
mkseed("s51-ast-count", "C21",
  [("ast.go", "		n = lo + src.intn(hi-lo+1)", "		n = lo + src.intn(max(hi-lo, 2))")],
  G('a = *3\\"x\\"\\r\\n') + '''	ag, err := goabnf.NewASTGenerator(g, "a")
	check(err == nil, "%v", err)
	seen := map[int]bool{}
	for i := 0; i < 256; i++ {
		seen[len(ag.Generate([]byte{byte(i), byte(i), byte(i), byte(i)}))] = true
	}
	check(seen[3], "%v", seen)''',
  "a bounded repetition with at least three counts", "the largest count of a bounded repetition is never generated")
mkseed("s52-last-variation", "C21",
  [("fuzz.go", "				idx = int32(src.intn(int(vt)))", "				idx = int32(src.intn(int(vt-vt/64)))")],
  G('a = %x20-7E\\r\\n') + '''	tg, err := g.TransitionGraph("a", goabnf.WithDeflateRules(true))
	check(err == nil, "%v", err)
	gn, err := goabnf.NewGenerator(tg)
	check(err == nil, "%v", err)
	seen := map[byte]bool{}
	for i := 0; i < 256; i++ {
		for j := 0; j < 256; j++ {
			for _, b := range gn.Generate([]byte{byte(i), byte(j), 0, 0}) {
				seen[b] = true
			}
		}
	}
	check(seen['~'] && len(seen) == 95, "%d %v", len(seen), seen['~'])''',
  "a node with at least 64 variations", "the last variations of a wide range are never generated")
mkseed("s54-bracket-case", "C14",
  [("transition_graph.go", "			isUpper := r >= 'A' && r <= 'Z'\n			if !isLower", "			isUpper := r >= 'A' && r <= '['\n			if !isLower")],
  G('a = \\"x[y\\"\\r\\n') + '''	tg, err := g.TransitionGraph("a", goabnf.WithDeflateRules(true))
	check(err == nil, "%v", err)
	gn, err := goabnf.NewGenerator(tg)
	check(err == nil, "%v", err)
	for i := 0; i < 64; i++ {
		w := gn.Generate([]byte{byte(i), byte(i * 7), byte(i * 3), 0})
		ok, err := g.IsValid("a", w)
		check(ok && err == nil, "%q", w)
	}''',
  "a case-insensitive string holding an opening bracket", "the bracket comes out as a brace")
mkseed("s55-shared-candidate", "C15",
  [("fuzz.go", "			cand := cloneBytes(base)\n			cand[pos] = nb", "			cand[pos] = nb"),
   ("fuzz.go", "		pos := src.intn(len(base))\n		for _, nb := range []byte{0x00, 0xFF,", "		pos, cand := src.intn(len(base)), cloneBytes(base)\n		for _, nb := range []byte{0x00, 0xFF,")],
  G('a = %s\\"xy\\"\\r\\n') + '''	tg, err := g.TransitionGraph("a", goabnf.WithDeflateRules(true))
	check(err == nil, "%v", err)
	gn, err := goabnf.NewGenerator(tg)
	check(err == nil, "%v", err)
	for i := 0; i < 64; i++ {
		w, label, ok := gn.NearMiss([]byte{byte(i), byte(i * 7), byte(i * 3), 0})
		check(ok, "none")
		var off, v int
		if n, _ := fmt.Sscanf(label, "byte at offset %d substituted with 0x%02x", &off, &v); n == 2 {
			check(int(w[off]) == v, "%q is not %s", w, label)
		}
	}''',
  "a near miss made by a substitution", "the near miss is not the one its label tells")
mkseed("s58-loop-tail", "C13",
  [("transition_graph.go", "				velemo.Nexts = appendNodes(velemo.Nexts, elemiNoEmpty...)", "				if len(elemo) == 1 || len(velemo.Nexts) == 0 || slices.Contains(elemi, emptyNode) {\n					velemo.Nexts = appendNodes(velemo.Nexts, elemiNoEmpty...)\n				}")],
  G('a = *(\\"x\\" [\\"y\\"])\\r\\n') + '''	tg, err := g.TransitionGraph("a", goabnf.WithDeflateRules(true))
	check(err == nil, "%v", err)
	gn, err := goabnf.NewGenerator(tg)
	check(err == nil, "%v", err)
	_, acc, ok := gn.ExpectedNext([]byte("xx"))
	check(acc && ok, "%v %v", acc, ok)''',
  "an unbounded repetition over an element with several ends, one of which has a successor", "some words have no walk")
mkseed("s59-bsr-replacement", "C02",
  [("bsr.go", "			if r == utf8.RuneError && size == 1 {\n				return -1\n			}\n			if min <= r", "			if r == utf8.RuneError && size < 1 {\n				return -1\n			}\n			if min <= r")],
  G('a = %xF000-FFFF\\r\\n') + '''	f, err := goabnf.ParseBSR([]byte{0xff}, g, "a")
	check(err == nil, "%v", err)
	check(!f.Valid(), "accepted")''',
  "an octet that is not UTF-8 where a range holds U+FFFD", "a non-word is accepted by the BSR engine")
mkseed("s60-series-prefix", "C05",
  [("codegen.go", "	key := string(bs)\n", "	key := strings.ToLower(string(bs))\n")],
  '''	a := "a = %x61.62 / %x41.42 \\"!\\"\\r\\n"
	src, err := goabnf.GenerateGoParserFromABNF([]byte(a), "a", "main")
	check(err == nil, "%v", err)
	check(bytes.Contains(src, []byte("{97, 98}")) && bytes.Contains(src, []byte("{65, 66}")), "a series is missing")''',
  "two series of a grammar that differ by case only", "the generated parser takes one for the other", imports=("bytes",))
mkseed("s62-star-zero", "C07",
  [("grammar.go", '	if post := after; post != "" {', '	if post := strings.TrimLeft(after, "0"); post != "" {')],
  '''	g, err := goabnf.ParseABNF([]byte("a = *0\\"x\\" \\"y\\"\\r\\n"))
	check(err == nil, "%v", err)
	ok, err := g.IsValid("a", []byte("xy"))
	check(!ok && err == nil, "%v %v", ok, err)''',
  "a repetition whose maximum is written 0", "it is read as unbounded")
mkseed("s65-reader-shared", "C16",
  [("transition_graph.go", "	for k := range tgr.usedEdges {\n		delete(tgr.usedEdges, k)\n	}", "	for k, n := range tgr.usedEdges {\n		if n == 0 {\n			delete(tgr.usedEdges, k)\n		}\n	}"),
   ("transition_graph.go", "		if f.cursor+1 < len(f.allowed) {\n			f.cursor++", "		if d > 40 {\n			tgr.usedEdges[edgeStr(tgr.stack[d-1].node, f.node)]++\n		}\n		if f.cursor+1 < len(f.allowed) {\n			f.cursor++")],
  '''	src := "a = 45\\"-\\" (\\"+\\" / \\"!\\") (\\".\\" / \\",\\")\\r\\n"
	g, err := goabnf.ParseABNF([]byte(src))
	check(err == nil, "%v", err)
	tg, err := g.TransitionGraph("a", goabnf.WithDeflateRules(true), goabnf.WithRepetitionThreshold(64))
	check(err == nil, "%v", err)
	r := tg.Reader()
	n := 0
	for r.Next() {
		r.Scan()
		n++
	}
	check(n == 4, "%d", n)''',
  "trails of more than forty nodes", "some trails are never read")
