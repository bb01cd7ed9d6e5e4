package main

import (
	"math/big"
	"strings"
)

// termOfSexp builds a Term from an SMT-LIB s-expression.
func termOfSexp(x *Sexp, env map[string]*Term) *Term {
	if x.L == nil {
		a := x.Atom
		if t, ok := env[a]; ok {
			return t
		}
		switch a {
		case "true":
			return tTrue
		case "false":
			return tFalse
		}
		if a[0] >= '0' && a[0] <= '9' {
			n, ok := new(big.Int).SetString(a, 10)
			if !ok {
				fail("bad literal %s", a)
			}
			return bigT(n)
		}
		if f, ok := funs[a]; ok && len(f.Args) == 0 {
			return App(a)
		}
		fail("theory: unknown symbol %s", a)
	}
	if x.L[0].L != nil {
		h := x.L[0]
		if len(h.L) == 3 && h.L[0].Atom == "_" && h.L[1].Atom == "is" {
			return App("is-"+h.L[2].Atom, termOfSexp(x.L[1], env))
		}
		if len(h.L) == 3 && h.L[0].Atom == "as" && h.L[1].Atom == "const" {
			return ConstArr(h.L[2].String(), termOfSexp(x.L[1], env))
		}
		fail("theory: bad head %s", h)
	}
	op := x.L[0].Atom
	switch op {
	case "forall", "exists":
		e2 := map[string]*Term{}
		for k, v := range env {
			e2[k] = v
		}
		var bv []*Term
		for _, b := range x.L[1].L {
			v := bvar(b.L[0].Atom, b.L[1].String())
			e2[b.L[0].Atom] = v
			bv = append(bv, v)
		}
		body := x.L[2]
		var pats [][]*Term
		if body.L != nil && len(body.L) > 0 && body.L[0].Atom == "!" {
			for i := 2; i+1 < len(body.L); i += 2 {
				if body.L[i].Atom == ":pattern" {
					var p []*Term
					for _, y := range body.L[i+1].L {
						p = append(p, termOfSexp(y, e2))
					}
					pats = append(pats, p)
				}
			}
			body = body.L[1]
		}
		b := termOfSexp(body, e2)
		if op == "forall" {
			return Forall(bv, b, pats...)
		}
		return Exists(bv, b)
	case "let":
		e2 := map[string]*Term{}
		for k, v := range env {
			e2[k] = v
		}
		for _, b := range x.L[1].L {
			e2[b.L[0].Atom] = termOfSexp(b.L[1], env)
		}
		return termOfSexp(x.L[2], e2)
	}
	var as []*Term
	for _, y := range x.L[1:] {
		as = append(as, termOfSexp(y, env))
	}
	switch op {
	case "and":
		return And(as...)
	case "or":
		return Or(as...)
	case "not":
		return Not(as[0])
	case "=>":
		r := as[len(as)-1]
		for i := len(as) - 2; i >= 0; i-- {
			r = Imp(as[i], r)
		}
		return r
	case "ite":
		return Ite(as[0], as[1], as[2])
	case "=":
		var l []*Term
		for i := 0; i+1 < len(as); i++ {
			l = append(l, Eq(as[i], as[i+1]))
		}
		return And(l...)
	case "distinct":
		var l []*Term
		for i := range as {
			for j := i + 1; j < len(as); j++ {
				l = append(l, Ne(as[i], as[j]))
			}
		}
		return And(l...)
	case "+":
		s := as[0]
		for _, a := range as[1:] {
			s = Add(s, a)
		}
		return s
	case "-":
		if len(as) == 1 {
			return Sub(intT(0), as[0])
		}
		s := as[0]
		for _, a := range as[1:] {
			s = Sub(s, a)
		}
		return s
	case "*":
		s := as[0]
		for _, a := range as[1:] {
			s = Mul(s, a)
		}
		return s
	case "div":
		return Div(as[0], as[1])
	case "mod":
		return Mod(as[0], as[1])
	case "<=", "<", ">=", ">":
		var l []*Term
		for i := 0; i+1 < len(as); i++ {
			switch op {
			case "<=":
				l = append(l, Le(as[i], as[i+1]))
			case "<":
				l = append(l, Lt(as[i], as[i+1]))
			case ">=":
				l = append(l, Ge(as[i], as[i+1]))
			case ">":
				l = append(l, Gt(as[i], as[i+1]))
			}
		}
		return And(l...)
	case "select":
		return Select(as[0], as[1])
	case "store":
		return Store(as[0], as[1], as[2])
	}
	return App(op, as...)
}

type Lemma struct {
	Name  string
	Props []string
	Vars  []*Term
	Hyp   *Term
	Goal  *Term
	Pats  [][]*Term
	Ind   *Term
	Uses  []string
	Cases []*Term // hints: extra ground terms to mention in the proof
}

var lemmas []*Lemma
var lemmaByName = map[string]*Lemma{}

func (l *Lemma) formula() *Term {
	return Forall(l.Vars, Imp(l.Hyp, l.Goal), l.Pats...)
}

// hintTerm is an assertion without content that makes a term exist.
func hintTerm(t *Term) *Term {
	n := "hint_" + sanit(t.Sort)
	declFun(n, "Bool", t.Sort)
	return App(n, t)
}

// query builds the proof obligation of a lemma (strong induction on Ind if given).
func (l *Lemma) query() *Query {
	m := map[*Term]*Term{}
	for _, v := range l.Vars {
		m[v] = cst("sk!"+v.Name, v.Sort)
	}
	var hyps []*Term
	if l.Ind != nil {
		// forall other vars, forall k' : 0 <= k' < k  => P(k')
		k2 := l.Ind
		body := Imp(And(Ge(k2, intT(0)), Lt(k2, m[l.Ind]), l.Hyp), l.Goal)
		hyps = append(hyps, Forall(l.Vars, body, l.Pats...))
		hyps = append(hyps, Ge(m[l.Ind], intT(0)))
	}
	hyps = append(hyps, Subst(l.Hyp, m))
	for i, c := range l.Cases {
		t := Subst(c, m)
		_ = i
		hyps = append(hyps, hintTerm(t))
	}
	return &Query{Hyps: hyps, Goal: Subst(l.Goal, m), Uses: l.Uses}
}

// loadTheory reads a block of SMT-LIB declarations.
func loadTheory(src string) {
	for _, x := range parseSexps(src) {
		if len(x.L) == 0 {
			fail("theory: %s", x)
		}
		switch x.L[0].Atom {
		case "declare-sort":
			declSort(x.L[1].Atom)
		case "declare-datatype": // (declare-datatype Name ((C (f S)...) ...))
			var cs []*Ctor
			for _, c := range x.L[2].L {
				k := &Ctor{Name: c.L[0].Atom}
				for _, f := range c.L[1:] {
					k.Fields = append(k.Fields, f.L[0].Atom)
					k.Sorts = append(k.Sorts, f.L[1].String())
				}
				cs = append(cs, k)
			}
			declDT(x.L[1].Atom, cs...)
		case "declare-fun":
			var as []string
			for _, a := range x.L[2].L {
				as = append(as, a.String())
			}
			declFun(x.L[1].Atom, x.L[3].String(), as...)
		case "declare-const":
			declFun(x.L[1].Atom, x.L[2].String())
		case "unique": // pairwise distinct constants
			for _, a := range x.L[1:] {
				uniqConst[a.Atom] = true
			}
		case "define", "define-fun": // define: macro expanded in place; define-fun: kept
			name := x.L[1].Atom
			var as, ps []string
			var bv []*Term
			env := map[string]*Term{}
			for _, p := range x.L[2].L {
				as = append(as, p.L[1].String())
				ps = append(ps, p.L[0].Atom)
				v := bvar(p.L[0].Atom, p.L[1].String())
				bv = append(bv, v)
				env[p.L[0].Atom] = v
			}
			f := declFun(name, x.L[3].String(), as...)
			if x.L[0].Atom == "define" {
				body := termOfSexp(x.L[4], env)
				if body.Sort != f.Ret {
					fail("macro %s has sort %s", name, body.Sort)
				}
				f.Macro = func(args []*Term) *Term {
					m := map[*Term]*Term{}
					for i := range bv {
						m[bv[i]] = args[i]
					}
					return Subst(body, m)
				}
			} else {
				f.Def = "(define-fun " + name + " " + x.L[2].String() + " " + x.L[3].String() + " " + smtText(x.L[4]) + ")"
				m := map[string]bool{}
				sexpSyms(parseSexp(f.Def), m)
				for s := range m {
					f.DefSym = append(f.DefSym, s)
				}
				f.ord = ord()
			}
		case "axiom": // (axiom name formula)
			t := termOfSexp(x.L[2], nil)
			addAxiom(x.L[1].Atom, smtTerm(t), false)
		case "definition": // an axiom defining a predicate, included on demand only
			t := termOfSexp(x.L[2], nil)
			addAxiom(x.L[1].Atom, smtTerm(t), true)
		case "lemma":
			// (lemma name (props) ((x S)...) hyp goal :pattern (..) :induction k :uses (...) :hint (...))
			l := &Lemma{Name: x.L[1].Atom}
			for _, p := range x.L[2].L {
				l.Props = append(l.Props, p.Atom)
			}
			env := map[string]*Term{}
			for _, p := range x.L[3].L {
				v := bvar(p.L[0].Atom, p.L[1].String())
				env[p.L[0].Atom] = v
				l.Vars = append(l.Vars, v)
			}
			l.Hyp = termOfSexp(x.L[4], env)
			l.Goal = termOfSexp(x.L[5], env)
			for i := 6; i+1 < len(x.L); i += 2 {
				switch x.L[i].Atom {
				case ":pattern":
					var p []*Term
					for _, y := range x.L[i+1].L {
						p = append(p, termOfSexp(y, env))
					}
					l.Pats = append(l.Pats, p)
				case ":induction":
					l.Ind = env[x.L[i+1].Atom]
				case ":uses":
					for _, u := range x.L[i+1].L {
						if axByName[u.Atom] == nil {
							fail("lemma %s uses %s, which is not declared before it", l.Name, u.Atom)
						}
						l.Uses = append(l.Uses, u.Atom)
					}
				case ":hint":
					for _, y := range x.L[i+1].L {
						l.Cases = append(l.Cases, termOfSexp(y, env))
					}
				default:
					fail("lemma %s: %s", l.Name, x.L[i].Atom)
				}
			}
			lemmas = append(lemmas, l)
			lemmaByName[l.Name] = l
			addAxiom(l.Name, smtTerm(l.formula()), true)
		default:
			fail("theory: unknown command %s", x.L[0].Atom)
		}
	}
}

// smtTerm prints a closed term without sharing.
func smtTerm(t *Term) string {
	p := &printer{names: map[*Term]string{}, consts: map[string]string{}, syms: map[string]bool{}, sortsU: map[string]bool{}, uses: map[*Term]int{}}
	return p.raw(t)
}

// smtText re-prints a definition body (is-C testers use the indexed syntax).
func smtText(x *Sexp) string {
	if x.L == nil {
		return x.Atom
	}
	if len(x.L) > 0 && strings.HasPrefix(x.L[0].Atom, "is-") {
		r := "((_ is " + x.L[0].Atom[3:] + ")"
		for _, y := range x.L[1:] {
			r += " " + smtText(y)
		}
		return r + ")"
	}
	var p []string
	for _, y := range x.L {
		p = append(p, smtText(y))
	}
	return "(" + strings.Join(p, " ") + ")"
}
