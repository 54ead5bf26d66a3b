package main

// Grammars and inputs beyond the sizes of the others: many rules, alternatives,
// elements, nesting, occurrences, and inputs of tens of octets. Each shape comes
// with words of it; what is judged comes from the specification, not from here.

import (
	"fmt"
	"strings"
)

// isLarge tells which cases of a property are such.
func isLarge(idx int) bool { return idx%25 == 24 }

// large draws a grammar (the first rule is the root) and inputs for it, of at
// most max octets.
func (g *gen) large(max int) (*Gram, []string) {
	n := 3 + g.r.Intn(10)      // size of the grammar
	k := 4 + g.r.Intn(max/2-3) // size of the input
	var src string
	var ins []string
	rp := strings.Repeat
	lst := func(k int, f func(i int) string, sep string) string {
		var s []string
		for i := 0; i < k; i++ {
			s = append(s, f(i))
		}
		return strings.Join(s, sep)
	}
	switch shape := g.r.Intn(20); shape {
	case 0: // exact count
		src = fmt.Sprintf(`a = %d"x"`, k)
		ins = []string{rp("x", k), rp("x", k-1), rp("X", k+1), rp("x", k-1) + "y"}
	case 1: // bounds
		m := k + g.r.Intn(4)
		src = fmt.Sprintf(`a = %d*%d"x" ["y"]`, k, m)
		ins = []string{rp("x", k), rp("x", m), rp("x", k-1), rp("x", m+1), rp("x", m) + "y", rp("x", k-1) + "y"}
	case 2: // minimum
		src = fmt.Sprintf(`a = %d*("x" / "y")`, k)
		ins = []string{rp("xy", k/2) + "x", rp("y", k), rp("x", k-1), rp("y", k) + "z" + "x", rp("x", k+3)}
	case 3: // maximum of a rule
		src = fmt.Sprintf("a = *%db \"y\"\nb = \"x\"", k)
		ins = []string{rp("x", k) + "y", rp("x", k+1) + "y", "y", rp("x", k), rp("x", k/2) + "y"}
	case 4: // left recursion
		src = `a = a "x" / "x"`
		ins = []string{rp("x", k), rp("x", k) + "y", rp("x", k/2)}
	case 5: // right recursion over two rules
		src = "a = \"x\" b / \"x\"\nb = \"y\" a / \"y\""
		ins = []string{rp("xy", k/2), rp("xy", k/2) + "x", rp("xy", k/2) + "y", rp("xy", k/2) + "xx"}
	case 6: // nesting
		src = "a = \"(\" a \")\" / *DIGIT"
		m := k / 2
		ins = []string{rp("(", m) + rp(")", m), rp("(", m) + "12" + rp(")", m), rp("(", m+1) + rp(")", m), rp("(", m) + rp(")", m+1)}
	case 7: // list
		src = "a = b *(\",\" b)\nb = 1*(ALPHA / DIGIT)"
		ins = []string{lst(k/3, func(i int) string { return "x1" }, ","), lst(k/3, func(i int) string { return "z" }, ",") + ",", "," + lst(k/3, func(i int) string { return "z" }, ",")}
	case 8: // long literal
		w := lst(k, func(i int) string { return string(rune('a' + i%26)) }, "")
		src = fmt.Sprintf(`a = "%s" / %%s"%s"`, w, strings.ToUpper(w))
		ins = []string{w, strings.ToUpper(w), w[:k-1], w + "a", w[:k-1] + "!", w[:k/2] + strings.ToUpper(w[k/2:])}
	case 9: // long series
		src = "a = %x" + lst(k, func(i int) string { return fmt.Sprintf("%X", 'A'+i%26) }, ".")
		w := lst(k, func(i int) string { return string(rune('A' + i%26)) }, "")
		ins = []string{w, w[:k-1], w + "A", w[:k-1] + "!", strings.ToLower(w)}
	case 10: // many alternatives
		src = "a = *b\nb = " + lst(n+4, func(i int) string { return fmt.Sprintf(`"%c%d"`, 'a'+i%26, i%10) }, " / ")
		one := func(i int) string { return fmt.Sprintf("%c%d", 'a'+i%26, i%10) }
		ins = []string{one(n + 3), one(0) + one(n+3) + one(n/2), one(n + 4), lst(k/2, func(i int) string { return one(i % (n + 4)) }, "")}
	case 11: // many elements
		src = "a = " + lst(n+4, func(i int) string { return fmt.Sprintf(`["%c"]`, 'a'+i) }, " ")
		w := lst(n+4, func(i int) string { return string(rune('a' + i)) }, "")
		ins = []string{w, w[1:], w[:n], w[:2] + w[n:], "ba", w + "z", ""}
	case 12: // chain of rules
		src = lst(n, func(i int) string { return fmt.Sprintf("r%d = \"%c\" r%d", i, 'a'+i, i+1) }, "\n") + fmt.Sprintf("\nr%d = *\"z\"", n)
		w := lst(n, func(i int) string { return string(rune('a' + i)) }, "")
		ins = []string{w, w + "zzz", w[:n-1], w + "y", w[1:]}
	case 13: // deep groups
		src = "a = " + rp("(", n) + `"x" / "y"` + rp(")", n) + " " + rp("[", n) + `"z"` + rp("]", n) + ` "w"`
		ins = []string{"xzw", "yw", "zw", "xz", "xzzw"}
	case 14: // fan of references
		src = "a = 1*" + fmt.Sprintf("%d", n) + "(" + lst(n, func(i int) string { return fmt.Sprintf("r%d", i) }, " / ") + ")\n" +
			lst(n, func(i int) string { return fmt.Sprintf("r%d = %%x%X", i, 'a'+i) }, "\n")
		w := lst(n, func(i int) string { return string(rune('a' + i)) }, "")
		ins = []string{w, w + "a", w[n-1:], strings.ToUpper(w), w[1:] + w[:1], rp("a", n+1)}
	case 15: // two counters in a row
		src = fmt.Sprintf(`a = %d*%d"x" %d*"x" *2"y"`, n, n+2, n)
		ins = []string{rp("x", 2*n), rp("x", 2*n-1), rp("x", 2*n+3) + "yy", rp("x", 2*n) + "yyy"}
	case 16: // nested counters
		m := 2 + g.r.Intn(3)
		src = fmt.Sprintf(`a = %d*%d(%d"x" "y")`, n/2+1, n/2+2, m)
		ins = []string{rp(rp("x", m)+"y", n/2+1), rp(rp("x", m)+"y", n/2+2), rp(rp("x", m)+"y", n/2+3), rp(rp("x", m)+"y", n/2), rp(rp("x", m)+"y", n/2) + rp("x", m)}
	case 17: // lines
		src = "a = *(*VCHAR CRLF)"
		ins = []string{rp("ab\r\n", k/4), rp("a\r\n", k/3) + "b", rp("a\r\n", k/3) + "\n", rp("\r\n", k/2), rp("ab\r\n", k/4) + " "}
	case 18: // wide characters
		src = "a = *(%xE9 / %x20AC / %x1F600-1F64F)"
		m := k / 5
		ins = []string{rp("é€", m), rp("\U0001F600", m), rp("é", m) + "e", rp("€", m) + "\xe2\x82", rp("é€", m) + "\U0001F650"}
	case 19: // ambiguous
		src = []string{`a = a a / "x"`, `a = *("x" / "xx")`, "a = b b b\nb = *\"x\"", `a = *3("x" / "xx") *"x"`, `a = *"x" *"x" *"x"`}[g.r.Intn(5)]
		m := min(k, 12)
		ins = []string{rp("x", m), rp("x", m-3), rp("x", m/2) + "y"}
	}
	gr := mparse(src)
	var out []string
	seen := map[string]bool{}
	for _, s := range append(ins, g.mutate(ins[0], false), g.mutate(ins[1], false)) {
		if len(s) <= max && !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return gr, out
}
