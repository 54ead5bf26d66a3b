package main

// The harness's own model of ABNF: the abstract syntax of spec/CoreRules.tla,
// plus what is needed to render a grammar as text or as the library's public
// structures. Nothing here relies on the library's own conversions.

import (
	"fmt"
	"math"
	"math/big"
	"strings"
	"unicode/utf8"

	goabnf "github.com/pandatix/go-abnf"
)

const maxI32 = math.MaxInt32

// Elem is an element; field names are those of the TLA+ records.
type Elem struct {
	T  string   `json:"t"`
	N  string   `json:"n,omitempty"`  // ref: lower-case name
	Nm string   `json:"nm,omitempty"` // ref: name as written
	A  Alt      `json:"a,omitempty"`
	S  bool     `json:"s"`           // chr: sensitive
	V  []int    `json:"v,omitempty"` // chr/ser codes (see fixups for empty)
	Lo int      `json:"lo"`
	Hi int      `json:"hi"`
	B  string   `json:"b,omitempty"` // base as written
	D  []string `json:"d,omitempty"` // digits as written
	X  string   `json:"x,omitempty"` // prose text
}

// MarshalJSON only emits the fields of the element kind (TLA+ records of a kind
// all have the same fields).
func (e *Elem) MarshalJSON() ([]byte, error) {
	var b strings.Builder
	switch e.T {
	case "ref":
		fmt.Fprintf(&b, `{"t":"ref","n":%s,"nm":%s}`, js(e.N), js(e.Nm))
	case "grp", "opt":
		fmt.Fprintf(&b, `{"t":%s,"a":%s}`, js(e.T), js(e.A))
	case "chr":
		fmt.Fprintf(&b, `{"t":"chr","s":%v,"v":%s}`, e.S, js(ints(e.V)))
	case "ser":
		fmt.Fprintf(&b, `{"t":"ser","v":%s,"b":%s,"d":%s}`, js(ints(e.V)), js(e.B), js(e.D))
	case "rng":
		fmt.Fprintf(&b, `{"t":"rng","lo":%d,"hi":%d,"b":%s,"d":%s}`, e.Lo, e.Hi, js(e.B), js(e.D))
	case "pro":
		fmt.Fprintf(&b, `{"t":"pro","x":%s}`, js(e.X))
	default:
		return nil, fmt.Errorf("bad element %q", e.T)
	}
	return []byte(b.String()), nil
}

func ints(v []int) []int {
	if v == nil {
		return []int{}
	}
	return v
}

type Rep struct {
	Mn int   `json:"mn"`
	Mx int   `json:"mx"`
	E  *Elem `json:"e"`
}
type Concat []Rep
type Alt []Concat

// Gram is a grammar in the order its rules are written.
type Gram struct {
	Names []string // as written
	Alts  []Alt
}

// gramJSON is the grammar as the specification reads it.
type gramJSON struct {
	G  map[string]Alt    `json:"g"`
	Nm map[string]string `json:"nm"` // lower-case name -> name as written
}

func (g *Gram) json() (map[string]Alt, map[string]string) {
	m, nm := map[string]Alt{}, map[string]string{}
	for i, n := range g.Names {
		m[lower(n)] = g.Alts[i]
		nm[lower(n)] = n
	}
	return m, nm
}

func lower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// ---- constructors ----

func eRef(n string) *Elem  { return &Elem{T: "ref", N: lower(n), Nm: n} }
func eGrp(a Alt) *Elem     { return &Elem{T: "grp", A: a} }
func eOpt(a Alt) *Elem     { return &Elem{T: "opt", A: a} }
func eChr(s string) *Elem  { return &Elem{T: "chr", V: codes(s)} }
func eChrS(s string) *Elem { return &Elem{T: "chr", S: true, V: codes(s)} }
func ePro(x string) *Elem  { return &Elem{T: "pro", X: x} }

func codes(s string) []int {
	v := []int{}
	for _, r := range s {
		v = append(v, int(r))
	}
	return v
}

func eSer(base string, vals ...int) *Elem {
	e := &Elem{T: "ser", B: base}
	for _, v := range vals {
		e.V = append(e.V, sat(v))
		e.D = append(e.D, digits(v, base))
	}
	return e
}

func eRng(base string, lo, hi int) *Elem {
	return &Elem{T: "rng", B: base, Lo: sat(lo), Hi: sat(hi), D: []string{digits(lo, base), digits(hi, base)}}
}

func sat(v int) int {
	if v > maxI32 {
		return maxI32
	}
	return v
}

func radix(base string) int {
	switch base {
	case "b", "B":
		return 2
	case "d", "D":
		return 10
	}
	return 16
}

func digits(v int, base string) string {
	s := big.NewInt(int64(v)).Text(radix(base))
	return strings.ToUpper(s)
}

// valOf is the saturated value of digits, however long.
func valOf(d, base string) int {
	n, ok := new(big.Int).SetString(d, radix(base))
	if !ok {
		return -1
	}
	if n.Cmp(big.NewInt(maxI32)) > 0 {
		return maxI32
	}
	return int(n.Int64())
}

func one(e *Elem) Rep             { return Rep{1, 1, e} }
func rep(mn, mx int, e *Elem) Rep { return Rep{mn, mx, e} }
func cc(rs ...Rep) Concat         { return Concat(rs) }
func alt(cs ...Concat) Alt        { return Alt(cs) }
func seq(es ...*Elem) Concat {
	c := Concat{}
	for _, e := range es {
		c = append(c, one(e))
	}
	return c
}

// ---- text ----

func (e *Elem) text() string {
	switch e.T {
	case "ref":
		return e.Nm
	case "grp":
		return "(" + e.A.text() + ")"
	case "opt":
		return "[" + e.A.text() + "]"
	case "chr":
		s := ""
		if e.S {
			s = "%s"
		}
		s += `"`
		for _, v := range e.V {
			s += string(rune(v))
		}
		return s + `"`
	case "ser":
		return "%" + e.B + strings.Join(e.D, ".")
	case "rng":
		return "%" + e.B + strings.Join(e.D, "-")
	case "pro":
		return "<" + e.X + ">"
	}
	panic("bad element " + e.T)
}

func (r Rep) text() string {
	s := ""
	switch {
	case r.Mn == 1 && r.Mx == 1:
	case r.Mn == r.Mx:
		s = fmt.Sprint(r.Mn)
	default:
		if r.Mn > 0 {
			s += fmt.Sprint(r.Mn)
		}
		s += "*"
		if r.Mx >= 0 {
			s += fmt.Sprint(r.Mx)
		}
	}
	return s + r.E.text()
}

func (c Concat) text() string {
	var p []string
	for _, r := range c {
		p = append(p, r.text())
	}
	return strings.Join(p, " ")
}

func (a Alt) text() string {
	var p []string
	for _, c := range a {
		p = append(p, c.text())
	}
	return strings.Join(p, " / ")
}

func (g *Gram) text() string {
	var b strings.Builder
	for i, n := range g.Names {
		b.WriteString(n + " = " + g.Alts[i].text() + "\r\n")
	}
	return b.String()
}

// textOK reports whether the grammar can be written as ABNF source (a char-val
// holds only %x20-21 / %x23-7E, and no element list is empty).
func (g *Gram) textOK() bool {
	ok := true
	for _, a := range g.Alts {
		a.walk(func(e *Elem) {
			if e.T == "chr" {
				for _, v := range e.V {
					if v < 0x20 || v == 0x22 || v > 0x7e {
						ok = false
					}
				}
			}
		})
	}
	return ok
}

func (a Alt) walk(f func(*Elem)) {
	for _, c := range a {
		for _, r := range c {
			f(r.E)
			if r.E.T == "grp" || r.E.T == "opt" {
				r.E.A.walk(f)
			}
		}
	}
}

func (a Alt) walkReps(f func(*Rep)) {
	for i := range a {
		for j := range a[i] {
			r := &a[i][j]
			f(r)
			if r.E.T == "grp" || r.E.T == "opt" {
				r.E.A.walkReps(f)
			}
		}
	}
}

func (g *Gram) walk(f func(*Elem)) {
	for _, a := range g.Alts {
		a.walk(f)
	}
}

func (g *Gram) alt(name string) (Alt, bool) {
	for i, n := range g.Names {
		if lower(n) == lower(name) {
			return g.Alts[i], true
		}
	}
	return nil, false
}

// ---- library structures ----

func (e *Elem) lib() goabnf.ElemItf {
	switch e.T {
	case "ref":
		return goabnf.ElemRulename{Name: e.Nm}
	case "grp":
		return goabnf.ElemGroup{Alternation: e.A.lib()}
	case "opt":
		return goabnf.ElemOption{Alternation: e.A.lib()}
	case "chr":
		v := []rune{}
		for _, c := range e.V {
			v = append(v, rune(c))
		}
		return goabnf.ElemCharVal{Sensitive: e.S, Values: v}
	case "ser":
		return goabnf.ElemNumVal{Base: e.B, Status: goabnf.StatSeries, Elems: append([]string{}, e.D...)}
	case "rng":
		return goabnf.ElemNumVal{Base: e.B, Status: goabnf.StatRange, Elems: append([]string{}, e.D...)}
	}
	return goabnf.ElemProseVal{}
}

func (a Alt) lib() goabnf.Alternation {
	out := goabnf.Alternation{}
	for _, c := range a {
		lc := goabnf.Concatenation{}
		for _, r := range c {
			lc.Repetitions = append(lc.Repetitions, goabnf.Repetition{Min: r.Mn, Max: r.Mx, Element: r.E.lib()})
		}
		out.Concatenations = append(out.Concatenations, lc)
	}
	return out
}

func (g *Gram) lib() *goabnf.Grammar {
	out := &goabnf.Grammar{Rulemap: map[string]*goabnf.Rule{}}
	for i, n := range g.Names {
		out.Rulemap[n] = &goabnf.Rule{Name: n, Alternation: g.Alts[i].lib()}
	}
	return out
}

// fromLib reads the library's public structures back into the model.
func fromLibAlt(a goabnf.Alternation) Alt {
	out := Alt{}
	for _, c := range a.Concatenations {
		mc := Concat{}
		for _, r := range c.Repetitions {
			mc = append(mc, Rep{sat(r.Min), sat(r.Max), fromLibElem(r.Element)})
		}
		out = append(out, mc)
	}
	return out
}

func fromLibElem(e goabnf.ElemItf) *Elem {
	switch v := e.(type) {
	case goabnf.ElemRulename:
		return eRef(v.Name)
	case goabnf.ElemGroup:
		return eGrp(fromLibAlt(v.Alternation))
	case goabnf.ElemOption:
		return eOpt(fromLibAlt(v.Alternation))
	case goabnf.ElemCharVal:
		out := &Elem{T: "chr", S: v.Sensitive, V: []int{}}
		for _, r := range v.Values {
			out.V = append(out.V, int(r))
		}
		return out
	case goabnf.ElemNumVal:
		out := &Elem{B: v.Base, D: append([]string{}, v.Elems...)}
		if v.Status == goabnf.StatSeries {
			out.T = "ser"
			for _, d := range v.Elems {
				out.V = append(out.V, valOf(d, v.Base))
			}
			return out
		}
		out.T = "rng"
		if len(v.Elems) != 2 {
			return ePro(fmt.Sprintf("BAD RANGE %v", v.Elems))
		}
		out.Lo, out.Hi = valOf(v.Elems[0], v.Base), valOf(v.Elems[1], v.Base)
		return out
	case goabnf.ElemProseVal:
		s := v.String()
		return ePro(strings.TrimSuffix(strings.TrimPrefix(s, "<"), ">"))
	}
	return ePro(fmt.Sprintf("UNKNOWN %T", e))
}

// termFromText reads the text of a terminal (as found in diagnostics).
func termFromText(s string) *Elem {
	switch {
	case len(s) >= 2 && s[0] == '"':
		return &Elem{T: "chr", V: codes(s[1 : len(s)-1])}
	case len(s) >= 4 && (s[:3] == `%s"` || s[:3] == `%S"`):
		return &Elem{T: "chr", S: true, V: codes(s[3 : len(s)-1])}
	case len(s) >= 4 && (s[:3] == `%i"` || s[:3] == `%I"`):
		return &Elem{T: "chr", V: codes(s[3 : len(s)-1])}
	case len(s) >= 2 && s[0] == '<':
		return ePro(s[1 : len(s)-1])
	case len(s) >= 3 && s[0] == '%':
		b, rest := s[1:2], s[2:]
		if i := strings.IndexByte(rest, '-'); i >= 0 {
			return &Elem{T: "rng", B: b, D: []string{rest[:i], rest[i+1:]}, Lo: valOf(rest[:i], b), Hi: valOf(rest[i+1:], b)}
		}
		e := &Elem{T: "ser", B: b, D: strings.Split(rest, ".")}
		for _, d := range e.D {
			e.V = append(e.V, valOf(d, b))
		}
		return e
	}
	return ePro("UNREADABLE " + s)
}

func bytesOf(s string) []int {
	out := make([]int, len(s))
	for i := 0; i < len(s); i++ {
		out[i] = int(s[i])
	}
	return out
}

func toBytes(v []int) []byte {
	b := make([]byte, len(v))
	for i, x := range v {
		b[i] = byte(x)
	}
	return b
}

var _ = utf8.RuneError
