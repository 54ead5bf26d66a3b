package main

// Random grammars and inputs. Everything is drawn from a seeded source, so a
// (seed, index) pair identifies a case.

import (
	"math/rand"
	"strings"
)

type genCfg struct {
	maxRules  int
	acyclic   bool // rule i only refers to rules after it
	unicode   bool // non-ASCII characters
	core      bool // references to core rules
	undefined bool // references to unknown rules
	prose     bool
	badRep    bool // max < min
	bigRep    bool // huge bounds
	textable  bool // writable as ABNF source
	maxCount  int  // upper bound of small repetition bounds
	depth     int  // nesting of groups
	maxAlts   int
	maxReps   int
	maxVariat int  // letters per char-val
	wide      bool // wide num-val ranges
	emptyOK   bool // "" char-vals
}

func defaultCfg() genCfg {
	return genCfg{maxRules: 3, unicode: true, core: true, undefined: true, prose: true, badRep: true,
		maxCount: 3, depth: 2, maxAlts: 3, maxReps: 3, maxVariat: 2, wide: true, emptyOK: true}
}

type gen struct {
	r   *rand.Rand
	cfg genCfg
	nr  int // rules of the grammar being built
	cur int // index of the rule being built
	nm  []string
	// characters in use: a small alphabet makes the interplay likely
	abc []rune
	// elements made for the grammar being built, for variations of them
	made []*Elem
}

func newGen(seed int64, cfg genCfg) *gen {
	return &gen{r: rand.New(rand.NewSource(seed)), cfg: cfg}
}

func (g *gen) p(pct int) bool { return g.r.Intn(100) < pct }

func (g *gen) casing(n string) string {
	b := []byte(n)
	for i := range b {
		if g.p(25) {
			if b[i] >= 'a' && b[i] <= 'z' {
				b[i] -= 32
			} else if b[i] >= 'A' && b[i] <= 'Z' {
				b[i] += 32
			}
		}
	}
	return string(b)
}

var ruleNames = []string{"a", "b", "c", "d", "e", "long-name", "r2", "R-3"}

func (g *gen) gram() *Gram {
	pools := [][]rune{
		[]rune("xy"), []rune("xy"), []rune("xY"), []rune("aB1"), []rune("x"), []rune("ab"), []rune("k[`"), []rune("@Z{z"), []rune(" -.x"),
	}
	if g.cfg.unicode {
		pools = append(pools, []rune("xé"), []rune("é€"), []rune("x\U0001F600"), []rune("kK\u212A"), []rune("ſs"), []rune("\u00ff\u0100"), []rune("ÉéX"),
			[]rune("x\uFFFD"), []rune("\x00x"), []rune("\uFEFFx"), []rune("\U0010FFFF\u007F\u0080"), []rune("\uD7FF\uE000"), []rune("\u2028\u0085x"))
	}
	abc := pools[g.r.Intn(len(pools))]
	if g.p(14) {
		return g.twins(abc)
	}
	return g.gramWith(abc)
}

// twins draws a grammar made of an element and near duplicates of it.
func (g *gen) twins(abc []rune) *Gram {
	gr := g.gramWith(abc) // for the names
	last := min(g.nr, 2) - 1
	gr.Names, gr.Alts = gr.Names[:last+1], gr.Alts[:last+1]
	g.nr, g.nm, g.made = last+1, g.nm[:last+1], nil
	g.cur = last // so that no copy makes a cycle where none is wanted
	e := g.freshElem(1)
	for e.T == "pro" || e.T == "ref" {
		e = g.freshElem(1)
	}
	twin := func() *Elem {
		c := copyElem(e)
		for n := 1 + g.r.Intn(2); n > 0; n-- {
			g.vary(c)
		}
		return c
	}
	rp := func(e *Elem) Rep {
		switch g.r.Intn(8) {
		case 0:
			return rep(0, 1, e)
		case 1:
			return rep(1, 2, e)
		case 2:
			return rep(0, -1, e)
		}
		return one(e)
	}
	wrap := func(e *Elem) *Elem {
		switch g.r.Intn(4) {
		case 0:
			return eGrp(Alt{{one(e)}})
		case 1:
			return eOpt(Alt{{one(e)}})
		}
		return e
	}
	w := wrap
	switch g.r.Intn(6) {
	case 0, 1:
		w = func(e *Elem) *Elem { return e }
	case 2:
		w = func(e *Elem) *Elem { return eGrp(Alt{{one(e)}}) }
	case 3:
		w = func(e *Elem) *Elem { return eOpt(Alt{{one(e)}}) }
	}
	a, b := w(e), w(twin())
	if g.p(30) && a.T == b.T {
		b = w(e)
		b = copyElem(b)
		g.vary(b)
	}
	if last == 1 && g.p(50) {
		gr.Alts[1] = Alt{{one(b)}}
		b = eRef(g.casing(g.nm[1]))
	} else if last == 1 {
		gr.Alts[1] = Alt{{one(w(twin()))}}
	}
	if g.p(50) {
		gr.Alts[0] = Alt{{rp(a), rp(b)}}
	} else {
		gr.Alts[0] = Alt{{rp(a)}, {rp(b)}}
	}
	if last == 1 && g.p(40) {
		gr.Alts[0] = append(gr.Alts[0], Concat{one(eRef(g.casing(g.nm[1])))})
	}
	if g.p(30) {
		gr.Alts[0][0] = append(gr.Alts[0][0], rp(w(twin())))
	}
	return gr
}

// inputChar draws a character of the alphabet, or one next to a character the
// grammar mentions.
func (g *gen) inputChar(gr *Gram) rune {
	if g.p(60) {
		return g.char()
	}
	var vs []int
	gr.walk(func(e *Elem) {
		switch e.T {
		case "chr", "ser":
			vs = append(vs, e.V...)
		case "rng":
			vs = append(vs, e.Lo, e.Hi)
		}
	})
	if len(vs) == 0 {
		return g.char()
	}
	v := vs[g.r.Intn(len(vs))]
	switch g.r.Intn(4) {
	case 0:
		v++
	case 1:
		v--
	case 2:
		v = int(flip(rune(v)))
	}
	if v < 0 || v > 0x10ffff || v >= 0xD800 && v <= 0xDFFF {
		return g.char()
	}
	return rune(v)
}

// gramWith draws a grammar over the given characters.
func (g *gen) gramWith(abc []rune) *Gram {
	g.abc, g.made = abc, nil
	g.nr = 1 + g.r.Intn(g.cfg.maxRules)
	perm := g.r.Perm(len(ruleNames))
	g.nm = nil
	for i := 0; i < g.nr; i++ {
		g.nm = append(g.nm, ruleNames[perm[i]])
	}
	out := &Gram{}
	for i := 0; i < g.nr; i++ {
		g.cur = i
		out.Names = append(out.Names, g.nm[i])
		out.Alts = append(out.Alts, g.alt(g.cfg.depth))
	}
	return out
}

func (g *gen) alt(depth int) Alt {
	n := 1 + g.r.Intn(g.cfg.maxAlts)
	var a Alt
	for i := 0; i < n; i++ {
		m := 1 + g.r.Intn(g.cfg.maxReps)
		var c Concat
		for j := 0; j < m; j++ {
			c = append(c, g.rep(depth))
		}
		a = append(a, c)
	}
	return a
}

func (g *gen) rep(depth int) Rep {
	e := g.elem(depth)
	k := g.cfg.maxCount
	switch x := g.r.Intn(100); {
	case x < 58:
		return one(e)
	case x < 66:
		return rep(0, -1, e)
	case x < 72:
		return rep(1, -1, e)
	case x < 76:
		return rep(0, 1+g.r.Intn(k), e)
	case x < 80:
		n := g.r.Intn(k + 1)
		return rep(n, n, e)
	case x < 88:
		n := g.r.Intn(k + 1)
		return rep(n, n+g.r.Intn(k), e)
	case x < 93:
		return rep(1+g.r.Intn(k), -1, e)
	case x < 94 && g.cfg.badRep:
		n := 1 + g.r.Intn(k)
		return rep(n, g.r.Intn(n), e)
	case x < 96 && g.cfg.bigRep:
		big := []int{1000, 100000, 1 << 20, maxI32 - 1}
		b := big[g.r.Intn(len(big))]
		switch g.r.Intn(3) {
		case 0:
			return rep(0, b, e)
		case 1:
			return rep(1, b, e)
		}
		return rep(0, b, e)
	}
	return one(e)
}

var coreNames = []string{"ALPHA", "BIT", "CHAR", "CR", "CRLF", "CTL", "DIGIT", "DQUOTE", "HEXDIG", "HTAB", "LF", "LWSP", "OCTET", "SP", "VCHAR", "WSP"}

func (g *gen) char() rune { return g.abc[g.r.Intn(len(g.abc))] }

func (g *gen) base() string { return []string{"x", "x", "d", "b", "X", "D", "B"}[g.r.Intn(7)] }

func (g *gen) elem(depth int) *Elem {
	var e *Elem
	if len(g.made) > 0 && g.p(14) {
		e = g.variation(g.made[g.r.Intn(len(g.made))], depth)
	}
	if e == nil {
		e = g.freshElem(depth)
	}
	g.made = append(g.made, e)
	return e
}

func copyElem(e *Elem) *Elem {
	c := *e
	c.V = append([]int(nil), e.V...)
	c.D = append([]string(nil), e.D...)
	c.A = copyAlt(e.A)
	return &c
}

func copyAlt(a Alt) Alt {
	if a == nil {
		return nil
	}
	out := make(Alt, 0, len(a))
	for _, c := range a {
		cc := make(Concat, 0, len(c))
		for _, r := range c {
			cc = append(cc, Rep{r.Mn, r.Mx, copyElem(r.E)})
		}
		out = append(out, cc)
	}
	return out
}

// fits tells whether a copy of e may stand in the rule being built.
func (g *gen) fits(e *Elem, depth int) bool {
	switch e.T {
	case "ref":
		if g.cfg.acyclic {
			for i, n := range g.nm {
				if lower(n) == e.N && i <= g.cur {
					return false
				}
			}
		}
	case "grp", "opt":
		if depth <= 0 {
			return false
		}
		for _, c := range e.A {
			for _, r := range c {
				if !g.fits(r.E, depth-1) {
					return false
				}
			}
		}
	}
	return true
}

// variation copies an element of the grammar and changes one small thing in it
// (or nothing): what tells two near duplicates apart is easy to get wrong.
func (g *gen) variation(e *Elem, depth int) *Elem {
	if !g.fits(e, depth) {
		return nil
	}
	c := copyElem(e)
	if g.p(20) {
		return c
	}
	g.vary(c)
	return c
}

func (g *gen) vary(e *Elem) {
	near := func(v int) int {
		ok := func(n int) bool {
			if n < 0 || n > 0x10ffff || n >= 0xD800 && n <= 0xDFFF {
				return false
			}
			return !(e.T == "chr" && g.cfg.textable && (n < 0x20 || n == '"' || n > 0x7e))
		}
		n := v
		switch g.r.Intn(5) {
		case 0, 1:
			n = int(flip(rune(v)))
		case 2:
			n = v + 1 + g.r.Intn(2)
		case 3:
			n = v - 1 - g.r.Intn(2)
		case 4:
			n = int(g.char())
		}
		if v > 0x10ffff || !ok(n) {
			return v
		}
		return n
	}
	switch e.T {
	case "chr":
		if len(e.V) == 0 || g.p(20) {
			e.S = !e.S
			return
		}
		i := g.r.Intn(len(e.V))
		e.V[i] = near(e.V[i])
	case "ser":
		i := g.r.Intn(len(e.V))
		if e.V[i] <= 0x10ffff {
			v := append([]int(nil), e.V...)
			v[i] = near(v[i])
			for _, x := range v {
				if x > 0x10ffff {
					return // the digits of a huge value are not known any more
				}
			}
			*e = *eSer(g.base(), v...)
		}
	case "rng":
		if e.Lo <= 0x10ffff && e.Hi <= 0x10ffff {
			lo, hi := e.Lo, e.Hi
			if g.p(50) {
				lo = near(lo)
			} else {
				hi = near(hi)
			}
			if lo <= hi || e.Lo > e.Hi {
				*e = *eRng(g.base(), lo, hi)
			}
		}
	case "ref":
		e.Nm = g.casing(e.Nm)
	case "grp", "opt":
		c := e.A[g.r.Intn(len(e.A))]
		switch g.r.Intn(6) {
		case 0:
			if e.T == "grp" {
				e.T = "opt"
			} else {
				e.T = "grp"
			}
		case 1:
			if len(e.A) > 1 {
				e.A[0], e.A[1] = e.A[1], e.A[0]
			}
		case 2:
			i := g.r.Intn(len(c))
			r := &c[i]
			switch {
			case r.Mx == -1 && r.Mn < g.cfg.maxCount && g.p(50):
				r.Mn++
			case r.Mx == -1:
				r.Mx = r.Mn + 1
			case r.Mn < r.Mx:
				r.Mn++
			case r.Mx < g.cfg.maxCount:
				r.Mx++
			}
		default:
			g.vary(c[g.r.Intn(len(c))].E)
		}
	}
}

func (g *gen) freshElem(depth int) *Elem {
	for {
		switch x := g.r.Intn(100); {
		case x < 32: // string
			n := g.r.Intn(g.cfg.maxVariat + 1)
			if n == 0 && !(g.cfg.emptyOK && g.p(60)) {
				n = 1
			}
			var s strings.Builder
			for i := 0; i < n; i++ {
				c := g.char()
				if g.cfg.textable && (c < 0x20 || c == '"' || c > 0x7e) {
					c = 'x'
				}
				s.WriteRune(c)
			}
			if g.p(30) {
				return eChrS(s.String())
			}
			return eChr(s.String())
		case x < 40: // series
			n := 1
			if g.p(30) {
				n = 2
			}
			var v []int
			for i := 0; i < n; i++ {
				switch {
				case g.cfg.wide && g.p(3):
					v = append(v, []int{0xD800, 0x110000, maxI32, 1 << 40, 0xDFFF}[g.r.Intn(5)])
				default:
					v = append(v, int(g.char()))
				}
			}
			return eSer(g.base(), v...)
		case x < 50: // range
			lo := int(g.char())
			hi := lo
			switch g.r.Intn(6) {
			case 0:
				hi = lo + g.r.Intn(3)
			case 1:
				hi = int(g.char())
			case 2:
				hi = lo + 1
			case 3:
				if lo > 0 {
					lo--
				}
			case 4:
				if g.cfg.wide {
					hi = []int{0x7f, 0xff, 0x10ffff, 1 << 40, 0xD900, 0x7ff, 0x800, 0xffff}[g.r.Intn(8)]
				}
			}
			if g.p(3) {
				lo, hi = hi, lo
			}
			return eRng(g.base(), lo, hi)
		case x < 76: // rule
			lo := 0
			if g.cfg.acyclic {
				lo = g.cur + 1
			}
			if lo >= g.nr {
				continue
			}
			return eRef(g.casing(g.nm[lo+g.r.Intn(g.nr-lo)]))
		case x < 79:
			if g.cfg.core {
				return eRef(g.casing(coreNames[g.r.Intn(len(coreNames))]))
			}
		case x < 88:
			if depth > 0 {
				return eGrp(g.alt(depth - 1))
			}
		case x < 97:
			if depth > 0 {
				return eOpt(g.alt(depth - 1))
			}
		case x < 98:
			if g.cfg.undefined && g.p(50) {
				return eRef("nowhere")
			}
		case x < 99:
			if g.cfg.prose && g.p(60) {
				return ePro(g.proseText())
			}
		}
	}
}

func (g *gen) proseText() string {
	if !g.cfg.textable {
		return "some text"
	}
	b := []byte{}
	for n := g.r.Intn(5); n > 0; n-- {
		c := byte(0x20 + g.r.Intn(0x7f-0x20))
		if c == '>' {
			c = '~'
		}
		b = append(b, c)
	}
	return string(b)
}

// ---- inputs ----

// word draws a word by a bounded random derivation of the model (only a way to
// get interesting inputs: it is not an oracle).
func (g *gen) word(gr *Gram, root string, budget *int) string {
	a, ok := gr.alt(root)
	if !ok {
		return g.coreWord(root)
	}
	return g.wordAlt(gr, a, budget, 0)
}

func (g *gen) coreWord(n string) string {
	switch lower(n) {
	case "alpha":
		return string("aZbKs"[g.r.Intn(5)])
	case "bit":
		return string("01"[g.r.Intn(2)])
	case "cr":
		return "\r"
	case "crlf":
		return "\r\n"
	case "ctl":
		return string([]string{"\x00", "\x1f", "\x7f"}[g.r.Intn(3)])
	case "digit":
		return string("059"[g.r.Intn(3)])
	case "dquote":
		return "\""
	case "hexdig":
		return string("0aFf9A"[g.r.Intn(6)])
	case "htab":
		return "\t"
	case "lf":
		return "\n"
	case "lwsp":
		return []string{"", " ", "\r\n ", "\t"}[g.r.Intn(4)]
	case "octet":
		return []string{"\x00", "x", "é", "ÿ"}[g.r.Intn(4)]
	case "sp":
		return " "
	case "vchar":
		return string("!~x"[g.r.Intn(3)])
	case "wsp":
		return string(" \t"[g.r.Intn(2)])
	case "char":
		return string("\x01\x7fx"[g.r.Intn(3)])
	}
	return ""
}

func (g *gen) wordAlt(gr *Gram, a Alt, budget *int, depth int) string {
	if len(a) == 0 || *budget <= 0 || depth > 14 {
		return ""
	}
	c := a[g.r.Intn(len(a))]
	var out strings.Builder
	for _, r := range c {
		n := r.Mn
		if n > 6 {
			n = 6
		}
		if r.Mx == -1 || r.Mx > r.Mn {
			d := 3
			if r.Mx != -1 && r.Mx-r.Mn < d {
				d = r.Mx - r.Mn
			}
			n += g.r.Intn(d + 1)
		}
		for i := 0; i < n && *budget > 0; i++ {
			out.WriteString(g.wordElem(gr, r.E, budget, depth))
		}
	}
	return out.String()
}

func (g *gen) wordElem(gr *Gram, e *Elem, budget *int, depth int) string {
	*budget--
	switch e.T {
	case "ref":
		if a, ok := gr.alt(e.N); ok {
			return g.wordAlt(gr, a, budget, depth+1)
		}
		return g.coreWord(e.N)
	case "grp":
		return g.wordAlt(gr, e.A, budget, depth+1)
	case "opt":
		if g.p(50) {
			return g.wordAlt(gr, e.A, budget, depth+1)
		}
		return ""
	case "chr":
		s := ""
		for _, v := range e.V {
			c := rune(v)
			if !e.S && g.p(30) {
				c = flip(c)
			}
			s += string(c)
		}
		return s
	case "ser":
		s := ""
		for _, v := range e.V {
			s += string(rune(v))
		}
		return s
	case "rng":
		if e.Lo > e.Hi || e.Lo > 0x10ffff {
			return ""
		}
		switch g.r.Intn(3) {
		case 0:
			return string(rune(e.Lo))
		case 1:
			if e.Hi <= 0x10ffff {
				return string(rune(e.Hi))
			}
		}
		hi := e.Hi
		if hi > 0x10ffff {
			hi = 0x10ffff
		}
		return string(rune(e.Lo + g.r.Intn(hi-e.Lo+1)))
	}
	return ""
}

func flip(c rune) rune {
	switch {
	case c >= 'a' && c <= 'z':
		return c - 32
	case c >= 'A' && c <= 'Z':
		return c + 32
	}
	return c
}

func (g *gen) mutate(w string, validUTF8 bool) string {
	rs := []rune(w)
	switch g.r.Intn(8) {
	case 0: // delete
		if len(rs) > 0 {
			i := g.r.Intn(len(rs))
			rs = append(rs[:i:i], rs[i+1:]...)
		}
	case 1, 2: // insert
		i := g.r.Intn(len(rs) + 1)
		rs = append(rs[:i:i], append([]rune{g.char()}, rs[i:]...)...)
	case 3: // replace
		if len(rs) > 0 {
			rs[g.r.Intn(len(rs))] = g.char()
		}
	case 4: // flip case
		if len(rs) > 0 {
			i := g.r.Intn(len(rs))
			rs[i] = flip(rs[i])
		}
	case 5: // duplicate
		rs = append(rs, rs...)
	case 6: // neighbour
		if len(rs) > 0 {
			i := g.r.Intn(len(rs))
			if d := rune(1 + g.r.Intn(2)); g.p(50) {
				rs[i] += d
			} else if rs[i] >= d {
				rs[i] -= d
			}
		}
	case 7: // break the encoding
		if !validUTF8 {
			b := []byte(w)
			junk := []byte{0x80, 0xff, 0xc3, 0xe2, 0xf0, 0xed, 0xa0, 0xc0}
			switch {
			case len(b) > 0 && g.p(50):
				b[g.r.Intn(len(b))] = junk[g.r.Intn(len(junk))]
			case len(b) > 0 && g.p(50):
				b = b[:len(b)-1]
			default:
				b = append(b, junk[g.r.Intn(len(junk))])
			}
			return string(b)
		}
	}
	return string(rs)
}

// inputs draws n distinct inputs of at most max bytes: words, mutations, and
// random strings over the alphabet.
func (g *gen) inputs(gr *Gram, root string, n, max int, validUTF8 bool) []string {
	seen := map[string]bool{}
	var out []string
	add := func(s string) {
		if len(s) <= max && !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	add("")
	for tries := 0; tries < 8*n && len(out) < n; tries++ {
		b := 4 + g.r.Intn(10)
		w := g.word(gr, root, &b)
		switch g.r.Intn(5) {
		case 0, 1:
		case 2, 3:
			w = g.mutate(w, validUTF8)
		case 4:
			var s strings.Builder
			for k := g.r.Intn(5); k > 0; k-- {
				s.WriteRune(g.inputChar(gr))
			}
			w = s.String()
		}
		if validUTF8 {
			w = strings.ToValidUTF8(w, "")
		}
		add(w)
	}
	return out
}
