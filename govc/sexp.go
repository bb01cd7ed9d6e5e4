package main

import "strings"

type Sexp struct {
	Atom string
	L    []*Sexp
}

func (s *Sexp) String() string {
	if s.L == nil && s.Atom != "" {
		return s.Atom
	}
	var p []string
	for _, x := range s.L {
		p = append(p, x.String())
	}
	return "(" + strings.Join(p, " ") + ")"
}

func parseSexps(src string) []*Sexp {
	i := 0
	var parse func() *Sexp
	skip := func() {
		for i < len(src) {
			if src[i] == ';' {
				for i < len(src) && src[i] != '\n' {
					i++
				}
			} else if src[i] == ' ' || src[i] == '\n' || src[i] == '\t' || src[i] == '\r' {
				i++
			} else {
				return
			}
		}
	}
	parse = func() *Sexp {
		skip()
		if i >= len(src) {
			fail("sexp: unexpected end")
		}
		if src[i] == '(' {
			i++
			s := &Sexp{L: []*Sexp{}}
			for {
				skip()
				if i >= len(src) {
					fail("sexp: missing )")
				}
				if src[i] == ')' {
					i++
					return s
				}
				s.L = append(s.L, parse())
			}
		}
		if src[i] == ')' {
			fail("sexp: unexpected ) near %q", src[max(0, i-60):i])
		}
		j := i
		for i < len(src) && !strings.ContainsRune(" \n\t\r();", rune(src[i])) {
			i++
		}
		return &Sexp{Atom: src[j:i]}
	}
	var out []*Sexp
	for {
		skip()
		if i >= len(src) {
			return out
		}
		out = append(out, parse())
	}
}

var sexpMemo = map[string]*Sexp{}

func parseSexp(s string) *Sexp {
	if r, ok := sexpMemo[s]; ok {
		return r
	}
	r := parseSexps(s)[0]
	sexpMemo[s] = r
	return r
}
