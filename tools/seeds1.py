from seedlib import mkseed
mkseed("s01-nullable-literal", "C01",
  [("leftrec.go", "	case ElemCharVal:\n		return len(v.Values) == 0\n	}\n	// num-val", "	}\n	// terminals: char-val and num-val")],
  '''	g, err := goabnf.ParseABNF([]byte("a = \\"\\" a \\"y\\" / \\"x\\"\\r\\n"))
	check(err == nil, "%v", err)
	ok, err := g.IsValid("a", []byte("xyy"))
	check(err == nil && ok, "xyy is a word of the rule: %v %v", ok, err)''',
  "left recursion hidden behind an empty string literal, on an input that goes through it", "IsValid rejects words of hidden left-recursive rules")
mkseed("s02-late-empty-pop", "C02",
  [("sppf.go", "		for z := range p.popped[v] {\n			y := p.getNodeP(L, w, z, rc)", "		for z := range p.popped[v] {\n			if w != nil && z.Start == z.End {\n				continue // nothing consumed\n			}\n			y := p.getNodeP(L, w, z, rc)")],
  '''	g, err := goabnf.ParseABNF([]byte("a = *a *3%x78 / \\"xx\\"\\r\\n"))
	check(err == nil, "%v", err)
	for _, in := range []string{"", "XX", "XXXX", "XxXx", "xXxX"} {
		f, err := goabnf.ParseForest([]byte(in), g, "a")
		check(err == nil, "%v", err)
		check(f.Valid(), "%q is a word of the rule", in)
	}''',
  "a call that ended without consuming, reused by a caller which reaches it later with a different left context", "the forest loses derivations that reuse an already completed empty call")
mkseed("s03-bin-bound", "C08",
  [("utils.go", "str[3] != '0' || str[4] != '0')) {", "str[3] != '0')) {")],
  '''	_, err := goabnf.ParseABNF([]byte("a = %b100001111111111111111\\r\\n"))
	check(err == nil, "U+10FFFF is fine: %v", err)
	_, err = goabnf.ParseABNF([]byte("a = %b100010000000000000000\\r\\n"))
	check(err != nil, "U+110000 in binary is accepted")''',
  "a binary num-val in 0x110000-0x11FFFF", "validation accepts numeric values beyond U+10FFFF when written in binary")
mkseed("s04-zero-max", "C10",
  [("abnf.go", "	if rep.Max != inf {\n		str += strconv.Itoa(rep.Max)", "	if rep.Max > 0 {\n		str += strconv.Itoa(rep.Max)")],
  '''	g, err := goabnf.ParseABNF([]byte("a = 2*0\\"x\\"\\r\\n"), goabnf.WithValidation(false))
	check(err == nil, "%v", err)
	h, err := goabnf.ParseABNF([]byte(g.String()), goabnf.WithValidation(false))
	check(err == nil, "%v", err)
	r := h.Rulemap["a"].Alternation.Concatenations[0].Repetitions[0]
	check(r.Min == 2 && r.Max == 0, "2*0 became %d*%d", r.Min, r.Max)''',
  "a repetition whose maximum is zero with a non-zero minimum, read without validation", "the printed grammar reads back with an unbounded repetition")
