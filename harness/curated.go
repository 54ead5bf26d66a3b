package main

// Curated grammars: textbook shapes that exercise each mechanism (left, right,
// hidden and mutual recursion, nullable parts, counters, sharing, case,
// Unicode). The first rule is the root.

type curated struct {
	src string
	ins []string
}

var curatedGrams = []curated{
	{`a = a "x" / "x"`, []string{"", "x", "xx", "xxx", "xy"}},
	{`a = "x" a / "x"`, []string{"", "x", "xx", "xxxx"}},
	{`a = a a / "x"`, []string{"x", "xx", "xxx", "xxxx", "xxxxx"}},
	{`a = a a a / a a / "x"`, []string{"x", "xx", "xxx", "xxxx"}},
	{`a = a / "x"`, []string{"", "x", "xx"}},
	{`a = "" a / "x"`, []string{"x", "xx", ""}},
	{`a = [a] "x"`, []string{"x", "xx", "xxx", ""}},
	{"a = b \"x\" / \"y\"\nb = a / b \"z\"", []string{"yx", "yzx", "yxx", "yzzxzx", "y", "x"}},
	{"a = [b] a \"y\" / \"x\"\nb = \"\"", []string{"x", "xy", "xyy", "y"}},
	{"a = b c\nb = *\"x\"\nc = *\"x\"", []string{"", "x", "xx", "xxx", "y"}},
	{`a = *(*"x")`, []string{"", "x", "xx", "y"}},
	{`a = 1*(1*"x")`, []string{"", "x", "xx", "xxx", "xxxx"}},
	{`a = 2*3("x" / "xx")`, []string{"x", "xx", "xxx", "xxxx", "xxxxx", "xxxxxx", "xxxxxxx"}},
	{`a = 2("x" / "")`, []string{"", "x", "xx", "xxx"}},
	{`a = *3("x" / "") "y"`, []string{"y", "xy", "xxxy", "xxxxy"}},
	{`a = 3*5"x" 2*"x"`, []string{"xxxx", "xxxxx", "xxxxxx", "xxxxxxx", "xxxxxxxx"}},
	{`a = 2*1"x"`, []string{"", "x", "xx"}},
	{`a = 0"x"`, []string{"", "x"}},
	{`a = 0"x" / "y"`, []string{"", "x", "y"}},
	{"expr = term / expr \"+\" term\nterm = fact / term \"*\" fact\nfact = DIGIT / \"(\" expr \")\"", []string{"1", "1+2", "1+2*3", "(1)", "(1+2)*3", "1+", "+1", "1*2+3"}},
	{"expr = expr \"+\" expr / expr \"*\" expr / DIGIT", []string{"1", "1+2", "1+2*3", "1+2*3+4", "1+"}},
	{"s = \"if\" s / \"if\" s \"else\" s / \"x\"", []string{"x", "ifx", "ififxelsex", "ifxelsex", "IFxELSEx"}},
	{`a = %s"aB" / "Ab"`, []string{"aB", "ab", "AB", "Ab", "a", "aBc"}},
	{`a = %x41 / %x61-62 / %d67.68 / %b1000101`, []string{"A", "a", "b", "B", "CD", "C", "E", "c"}},
	{`a = %xE9 / %x20AC-20AF / %x1F600`, []string{"\u00e9", "\u00c9", "\u20ac", "\u20af", "\u20b0", "\U0001F600", "\xe9", "\xe2\x82", ""}},
	{`a = %xD7FF-E000`, []string{"\ud7ff", "\ue000", "\ue001", "\xed\xa0\x80"}},
	{`a = %xD800 / %x110000 / "x"`, []string{"x", "\uFFFD", "\xed\xa0\x80"}},
	{`a = %x110000-FFFFFFFFFFFFFFFFFF / "x"`, []string{"x", "\uFFFD"}},
	{`a = %x10FFF0-FFFFFFFFFFFFFFFFFF`, []string{"\U0010FFFF", "\U0010FFEF", "\U0010FFF0"}},
	{`a = %x00-FFFFFFFF`, []string{"a", "\uFFFD", "\xff", "\xc3", ""}},
	{`a = LWSP "x" LWSP`, []string{"x", " x", "\r\n x\t", "\r\nx", "x\r\n ", "x\r\n"}},
	{`a = ALPHA *( ALPHA / DIGIT / "-" )`, []string{"a", "Z9-", "9", "-", "aé"}},
	{`a = HEXDIG 2HEXDIG`, []string{"aF0", "A9g", "abcd"}},
	{`a = *OCTET CRLF`, []string{"\r\n", "x\r\n", "\r\n\r\n", "\n"}},
	{"a = nowhere / \"x\"", []string{"x", ""}},
	{"a = [nowhere] *nowhere \"x\"", []string{"x", ""}},
	{"a = <prose> / *<prose> \"x\"", []string{"x", "", "prose"}},
	{"a = b\nb = c\nc = a / \"x\"", []string{"x", "xx", ""}},
	{"a = b a / \"x\"\nb = [\"y\"]", []string{"x", "yx", "yyx", "xy"}},
	{"a = *b\nb = [\"x\"]", []string{"", "x", "xx"}},
	{"a = 1*2b \"y\"\nb = *\"x\"", []string{"y", "xy", "xxy"}},
	{"a = (b / c) (c / b)\nb = \"x\" / \"xx\"\nc = \"x\" / c \"x\"", []string{"xx", "xxx", "xxxx"}},
	{"a = \"x\" / \"X\" / %x78 / %s\"x\"", []string{"x", "X"}},
	{"a = \"x\" \"\" / \"\" \"x\" / (\"x\")", []string{"x", ""}},
	{"a = [\"x\"] [\"x\"] [\"x\"]", []string{"", "x", "xx", "xxx", "xxxx"}},
	{"a = [[\"x\"]]", []string{"", "x"}},
	{"a = *[\"x\"]", []string{"", "x", "xx"}},
	{"a = 1*[\"x\"]", []string{"", "x"}},
	{"a = 2*4(\"x\" / \"y\" \"z\") *\"x\"", []string{"xx", "xyz", "yzyzx", "xxxxxx", "x", "yzy"}},
	{"a = b \"c\" / \"x\"\nb = a \"d\" / a / c\nc = \"y\" c / \"\"", []string{"x", "c", "xc", "xdc", "yc", "ycdc", "yycc"}},
	{"A = B \"x\" / b\nb = [A]", []string{"", "x", "xx"}},
	{"s = t s / \"\"\nt = \"x\" / \"x\" \"y\" / \"y\"", []string{"xy", "xyxy", "xx", ""}},
	{"s = \"x\" s \"y\" / \"\"", []string{"", "xy", "xxyy", "xxy", "xyxy"}},
	{"s = \"x\" s \"x\" / \"y\" s \"y\" / \"\" / \"x\" / \"y\"", []string{"xyx", "xyyx", "xyxy", "yxxy"}},
	{"a = 2*(b) \"!\"\nb = [\"x\"] \"y\"", []string{"y!", "yy!", "xyy!", "xyxyxy!", "xx!"}},
	{"a = k / \"\u212a\"\nk = \"k\"", []string{"k", "K", "\u212a"}},
	{"a = \"\u00e9\"", []string{"\u00e9", "\u00c9"}},
	{"a = 3b\nb = \"x\" / \"\"", []string{"", "x", "xx", "xxx", "xxxx"}},
	{"a = 2(2\"x\")", []string{"xx", "xxxx", "xxx"}},
	{"a = 1*2(1*2\"x\")", []string{"x", "xx", "xxx", "xxxx", "xxxxx"}},
	{"a = *2\"x\" *2\"x\" *2\"x\"", []string{"", "x", "xx", "xxx", "xxxx", "xxxxxx"}},
	{"a = 2\"x\" / 3\"x\" / 2*3\"x\"", []string{"xx", "xxx", "x"}},
	{"a = b b\nb = 2\"x\" / c\nc = 2\"x\" / \"x\"", []string{"xx", "xxx", "xxxx"}},
}
