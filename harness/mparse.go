package main

// A small reader for curated grammars (lines separated by LF). It is the
// harness's own, unrelated to the library's.

import (
	"fmt"
	"strconv"
	"strings"
)

type mp struct {
	s string
	i int
}

func mparse(src string) *Gram {
	g := &Gram{}
	for _, line := range strings.Split(src, "\n") {
		line = strings.TrimSpace(line)
		if line == "" {
			continue
		}
		k := strings.Index(line, "=")
		if k < 0 {
			panic("mparse: " + line)
		}
		p := &mp{s: strings.TrimSpace(line[k+1:])}
		a := p.alt()
		if p.i != len(p.s) {
			panic(fmt.Sprintf("mparse: %q at %d", line, p.i))
		}
		g.Names = append(g.Names, strings.TrimSpace(line[:k]))
		g.Alts = append(g.Alts, a)
	}
	return g
}

func (p *mp) ws() {
	for p.i < len(p.s) && p.s[p.i] == ' ' {
		p.i++
	}
}
func (p *mp) peek() byte {
	if p.i < len(p.s) {
		return p.s[p.i]
	}
	return 0
}

func (p *mp) alt() Alt {
	a := Alt{p.concat()}
	for {
		p.ws()
		if p.peek() != '/' {
			return a
		}
		p.i++
		a = append(a, p.concat())
	}
}

func (p *mp) concat() Concat {
	var c Concat
	for {
		p.ws()
		if b := p.peek(); b == 0 || b == '/' || b == ')' || b == ']' {
			return c
		}
		c = append(c, p.rep())
	}
}

func (p *mp) num() (int, bool) {
	j := p.i
	for j < len(p.s) && p.s[j] >= '0' && p.s[j] <= '9' {
		j++
	}
	if j == p.i {
		return 0, false
	}
	n, _ := strconv.Atoi(p.s[p.i:j])
	p.i = j
	return n, true
}

func (p *mp) rep() Rep {
	mn, has := p.num()
	if p.peek() == '*' {
		p.i++
		mx, hasMx := p.num()
		if !hasMx {
			mx = -1
		}
		return Rep{mn, mx, p.elem()}
	}
	if has {
		return Rep{mn, mn, p.elem()}
	}
	return one(p.elem())
}

func (p *mp) until(b byte) string {
	j := strings.IndexByte(p.s[p.i:], b)
	s := p.s[p.i : p.i+j]
	p.i += j + 1
	return s
}

func (p *mp) elem() *Elem {
	switch b := p.peek(); {
	case b == '(':
		p.i++
		a := p.alt()
		p.i++
		return eGrp(a)
	case b == '[':
		p.i++
		a := p.alt()
		p.i++
		return eOpt(a)
	case b == '"':
		p.i++
		return eChr(p.until('"'))
	case b == '<':
		p.i++
		return ePro(p.until('>'))
	case b == '%':
		if c := p.s[p.i+1]; c == 's' || c == 'i' {
			p.i += 3
			t := p.until('"')
			if c == 's' {
				return eChrS(t)
			}
			return eChr(t)
		}
		j := p.i + 2
		for j < len(p.s) && strings.IndexByte("0123456789abcdefABCDEF.-", p.s[j]) >= 0 {
			j++
		}
		e := termFromText(p.s[p.i:j])
		p.i = j
		return e
	default:
		j := p.i
		for j < len(p.s) && (p.s[j] == '-' || p.s[j] >= '0' && p.s[j] <= '9' || p.s[j] >= 'a' && p.s[j] <= 'z' || p.s[j] >= 'A' && p.s[j] <= 'Z') {
			j++
		}
		if j == p.i {
			panic(fmt.Sprintf("mparse: %q at %d", p.s, p.i))
		}
		e := eRef(p.s[p.i:j])
		p.i = j
		return e
	}
}
