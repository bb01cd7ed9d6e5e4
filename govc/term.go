package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Term is a hash-consed SMT term.
type Term struct {
	Op    string // "int", "const", "bvar", "app", "forall", "exists", and core operators
	Name  string
	Args  []*Term
	Sort  string
	Int   *big.Int
	BV    []*Term   // bound variables of quantifiers
	Pats  [][]*Term // triggers
	id    int
	bound bool // contains free bound variables
}

var termTab = map[string]*Term{}
var termCnt int

func mk(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.Op)
	sb.WriteByte('|')
	sb.WriteString(t.Name)
	sb.WriteByte('|')
	sb.WriteString(t.Sort)
	if t.Int != nil {
		sb.WriteString(t.Int.String())
	}
	for _, a := range t.Args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	for _, a := range t.BV {
		fmt.Fprintf(&sb, ";%d", a.id)
	}
	for _, p := range t.Pats {
		sb.WriteByte('!')
		for _, a := range p {
			fmt.Fprintf(&sb, ",%d", a.id)
		}
	}
	k := sb.String()
	if o, ok := termTab[k]; ok {
		return o
	}
	termCnt++
	t.id = termCnt
	if t.Op == "bvar" {
		t.bound = true
	}
	for _, a := range t.Args {
		if a.bound {
			t.bound = true
		}
	}
	if t.Op == "forall" || t.Op == "exists" {
		t.bound = len(freeBV(t.Args[0], t.BV)) > 0
	}
	termTab[k] = t
	return t
}

func freeBV(t *Term, bv []*Term) map[*Term]bool {
	r := map[*Term]bool{}
	seen := map[*Term]bool{}
	var rec func(t *Term, excl map[*Term]bool)
	rec = func(t *Term, excl map[*Term]bool) {
		if !t.bound && t.Op != "bvar" {
			return
		}
		if t.Op == "bvar" {
			if !excl[t] {
				r[t] = true
			}
			return
		}
		if t.Op == "forall" || t.Op == "exists" {
			e2 := map[*Term]bool{}
			for k := range excl {
				e2[k] = true
			}
			for _, v := range t.BV {
				e2[v] = true
			}
			rec(t.Args[0], e2)
			return
		}
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			rec(a, excl)
		}
	}
	ex := map[*Term]bool{}
	for _, v := range bv {
		ex[v] = true
	}
	rec(t, ex)
	return r
}

func intT(i int64) *Term         { return bigT(big.NewInt(i)) }
func bigT(i *big.Int) *Term      { return mk(&Term{Op: "int", Int: i, Sort: "Int"}) }
func cst(n, s string) *Term      { return mk(&Term{Op: "const", Name: n, Sort: s}) }
func bvar(n, s string) *Term     { return mk(&Term{Op: "bvar", Name: n, Sort: s}) }
func (t *Term) isInt() bool      { return t.Op == "int" }
func (t *Term) isTrue() bool     { return t == tTrue }
func (t *Term) isFalse() bool    { return t == tFalse }
func arrSort(k, v string) string { return "(Array " + k + " " + v + ")" }

var tTrue = mk(&Term{Op: "true", Sort: "Bool"})
var tFalse = mk(&Term{Op: "false", Sort: "Bool"})

func boolT(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

var freshCnt int

func fresh(hint, s string) *Term {
	freshCnt++
	return cst(fmt.Sprintf("%s!%d", sanit(hint), freshCnt), s)
}

func sanit(s string) string {
	r := []byte(s)
	for i, c := range r {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '!' || c == '$') {
			r[i] = '_'
		}
	}
	return string(r)
}

// sort of an array's key and value
func arrParts(s string) (string, string) {
	x := parseSexp(s)
	if x.Atom != "" || len(x.L) != 3 || x.L[0].Atom != "Array" {
		fail("not an array sort: %s", s)
	}
	return x.L[1].String(), x.L[2].String()
}

// ---- boolean ----
func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.Sort != "Bool" {
			fail("And: non-Bool term %s : %s", t, t.Sort)
		}
		if t.isTrue() || seen[t] {
			return true
		}
		if t.isFalse() || seen[Not(t)] {
			return false
		}
		if t.Op == "and" {
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return tFalse
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(&Term{Op: "and", Args: out, Sort: "Bool"})
}

func Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		var l []*Term
		if t.Op == "or" {
			l = t.Args
		} else {
			l = []*Term{t}
		}
		for _, t := range l {
			if t.isFalse() || seen[t] {
				continue
			}
			if t.isTrue() || seen[Not(t)] {
				return tTrue
			}
			seen[t] = true
			out = append(out, t)
		}
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(&Term{Op: "or", Args: out, Sort: "Bool"})
}

func Not(t *Term) *Term {
	switch t.Op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return t.Args[0]
	}
	return mk(&Term{Op: "not", Args: []*Term{t}, Sort: "Bool"})
}

func Imp(a, b *Term) *Term {
	if a.isTrue() {
		return b
	}
	if a.isFalse() || b.isTrue() {
		return tTrue
	}
	if a == b {
		return tTrue
	}
	if b.isFalse() {
		return Not(a)
	}
	return mk(&Term{Op: "=>", Args: []*Term{a, b}, Sort: "Bool"})
}

func Ite(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.Sort != b.Sort {
		fail("ite sort mismatch %s / %s", a.Sort, b.Sort)
	}
	if a.Sort == "Bool" {
		if a.isTrue() && b.isFalse() {
			return c
		}
		if a.isFalse() && b.isTrue() {
			return Not(c)
		}
		if a.isTrue() {
			return Or(c, b)
		}
		if b.isFalse() {
			return And(c, a)
		}
		if a.isFalse() {
			return And(Not(c), b)
		}
		if b.isTrue() {
			return Or(Not(c), a)
		}
	}
	return mk(&Term{Op: "ite", Args: []*Term{c, a, b}, Sort: a.Sort})
}

// definitely distinct values?
func distinctT(a, b *Term) bool {
	if a.Op == "int" && b.Op == "int" {
		return a.Int.Cmp(b.Int) != 0
	}
	ca, cb := ctorOf(a), ctorOf(b)
	if ca != nil && cb != nil {
		if a.Name != b.Name {
			return true
		}
		for i := range a.Args {
			if distinctT(a.Args[i], b.Args[i]) {
				return true
			}
		}
		return false
	}
	if a.Sort == "Int" && b.Sort == "Int" {
		d := Sub(a, b)
		if d.isInt() && d.Int.Sign() != 0 {
			return true
		}
	}
	if a.Op == "const" && b.Op == "const" && uniqConst[a.Name] && uniqConst[b.Name] && a != b {
		return true
	}
	return false
}

// constants known to be pairwise distinct (error sentinels, string literals)
var uniqConst = map[string]bool{}

func ctorOf(t *Term) *Ctor {
	if t.Op == "app" || t.Op == "const" {
		return ctors[t.Name]
	}
	return nil
}

func Eq(a, b *Term) *Term {
	if a.Sort != b.Sort {
		fail("eq sort mismatch: %s:%s = %s:%s", a, a.Sort, b, b.Sort)
	}
	if a == b {
		return tTrue
	}
	if distinctT(a, b) {
		return tFalse
	}
	if a.Sort == "Bool" {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return Not(b)
		}
		if b.isFalse() {
			return Not(a)
		}
	}
	if ca, cb := ctorOf(a), ctorOf(b); ca != nil && cb != nil && ca == cb {
		var l []*Term
		for i := range a.Args {
			l = append(l, Eq(a.Args[i], b.Args[i]))
		}
		return And(l...)
	}
	// ite(c, x, y) = z with x, y, z literals/ctors
	if a.Op == "ite" && (ctorOf(b) != nil || b.Op == "int" || b.Op == "const" && uniqConst[b.Name]) {
		x, y := Eq(a.Args[1], b), Eq(a.Args[2], b)
		if (x.isTrue() || x.isFalse()) || (y.isTrue() || y.isFalse()) {
			return Ite(a.Args[0], x, y)
		}
	}
	if b.Op == "ite" && a.Op != "ite" {
		return Eq(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(&Term{Op: "=", Args: []*Term{a, b}, Sort: "Bool"})
}
func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

// ---- linear integer arithmetic with canonical sums ----
type lin struct {
	c *big.Int
	m map[*Term]*big.Int
}

func toLin(t *Term) lin {
	l := lin{big.NewInt(0), map[*Term]*big.Int{}}
	addLin(&l, t, big.NewInt(1))
	return l
}
func addLin(l *lin, t *Term, k *big.Int) {
	switch t.Op {
	case "int":
		l.c = new(big.Int).Add(l.c, new(big.Int).Mul(k, t.Int))
	case "+":
		for _, a := range t.Args {
			addLin(l, a, k)
		}
	case "*":
		if t.Args[0].isInt() && len(t.Args) == 2 {
			addLin(l, t.Args[1], new(big.Int).Mul(k, t.Args[0].Int))
			return
		}
		fallthrough
	default:
		o := l.m[t]
		if o == nil {
			o = big.NewInt(0)
		}
		n := new(big.Int).Add(o, k)
		if n.Sign() == 0 {
			delete(l.m, t)
		} else {
			l.m[t] = n
		}
	}
}
func fromLin(l lin) *Term {
	var ks []*Term
	for k := range l.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var out []*Term
	for _, k := range ks {
		c := l.m[k]
		if c.Cmp(big.NewInt(1)) == 0 {
			out = append(out, k)
		} else {
			out = append(out, mk(&Term{Op: "*", Args: []*Term{bigT(c), k}, Sort: "Int"}))
		}
	}
	if l.c.Sign() != 0 || len(out) == 0 {
		out = append(out, bigT(l.c))
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(&Term{Op: "+", Args: out, Sort: "Int"})
}
func chkInt(ts ...*Term) {
	for _, t := range ts {
		if t.Sort != "Int" {
			fail("integer expected: %s : %s", t, t.Sort)
		}
	}
}
func Add(a, b *Term) *Term {
	chkInt(a, b)
	l := toLin(a)
	addLin(&l, b, big.NewInt(1))
	return fromLin(l)
}
func Sub(a, b *Term) *Term {
	chkInt(a, b)
	l := toLin(a)
	addLin(&l, b, big.NewInt(-1))
	return fromLin(l)
}
func Mul(a, b *Term) *Term {
	chkInt(a, b)
	if b.isInt() {
		a, b = b, a
	}
	if a.isInt() {
		l := lin{big.NewInt(0), map[*Term]*big.Int{}}
		addLin(&l, b, a.Int)
		return fromLin(l)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(&Term{Op: "*", Args: []*Term{a, b}, Sort: "Int"})
}

// Euclidean div/mod as in SMT-LIB
func Div(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.Int.Sign() > 0 {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(a.Int, b.Int, m)
		return bigT(q)
	}
	if q := exactDiv(a, b); q != nil {
		return q
	}
	return mk(&Term{Op: "div", Args: []*Term{a, b}, Sort: "Int"})
}

// exactDiv divides a linear term whose coefficients are all multiples of b.
func exactDiv(a, b *Term) *Term {
	if !b.isInt() || b.Int.Sign() <= 0 {
		return nil
	}
	l := toLin(a)
	q, m := new(big.Int), new(big.Int)
	if q.DivMod(l.c, b.Int, m); m.Sign() != 0 {
		return nil
	}
	r := lin{q, map[*Term]*big.Int{}}
	for t, c := range l.m {
		q, m := new(big.Int), new(big.Int)
		if q.DivMod(c, b.Int, m); m.Sign() != 0 {
			return nil
		}
		r.m[t] = q
	}
	return fromLin(r)
}
func Mod(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.Int.Sign() > 0 {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(a.Int, b.Int, m)
		return bigT(m)
	}
	if exactDiv(a, b) != nil {
		return intT(0)
	}
	return mk(&Term{Op: "mod", Args: []*Term{a, b}, Sort: "Int"})
}
func Le(a, b *Term) *Term {
	chkInt(a, b)
	d := Sub(a, b)
	if d.isInt() {
		return boolT(d.Int.Sign() <= 0)
	}
	return mk(&Term{Op: "<=", Args: []*Term{a, b}, Sort: "Bool"})
}
func Lt(a, b *Term) *Term { return Not(Le(b, a)) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Not(Le(a, b)) }

// ---- arrays ----
func Select(a, i *Term) *Term {
	for a.Op == "store" {
		if a.Args[1] == i {
			return a.Args[2]
		}
		if distinctT(a.Args[1], i) {
			a = a.Args[0]
			continue
		}
		break
	}
	if a.Op == "constarr" {
		return a.Args[0]
	}
	k, v := arrParts(a.Sort)
	if k != i.Sort {
		fail("select: key sort %s, array %s", i.Sort, a.Sort)
	}
	return mk(&Term{Op: "select", Args: []*Term{a, i}, Sort: v})
}
func Store(a, i, v *Term) *Term {
	k, e := arrParts(a.Sort)
	if k != i.Sort || e != v.Sort {
		fail("store: %s[%s] := %s", a.Sort, i.Sort, v.Sort)
	}
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return mk(&Term{Op: "store", Args: []*Term{a, i, v}, Sort: a.Sort})
}
func ConstArr(sort string, v *Term) *Term {
	return mk(&Term{Op: "constarr", Args: []*Term{v}, Sort: sort})
}

// ---- functions, datatypes ----
func App(f string, args ...*Term) *Term {
	fd, ok := funs[f]
	if !ok {
		fail("unknown function %s", f)
	}
	if len(fd.Args) != len(args) {
		fail("function %s: %d args, want %d", f, len(args), len(fd.Args))
	}
	for i, a := range args {
		if a.Sort != fd.Args[i] {
			fail("function %s: arg %d has sort %s, want %s (%s)", f, i, a.Sort, fd.Args[i], a)
		}
	}
	if len(args) == 1 {
		a := args[0]
		if fd.Acc != nil {
			if c := ctorOf(a); c != nil && c == fd.Acc {
				return a.Args[fd.AccIdx]
			}
			if a.Op == "ite" && (ctorOf(a.Args[1]) == fd.Acc && fd.Acc != nil || ctorOf(a.Args[2]) == fd.Acc) {
				return Ite(a.Args[0], App(f, a.Args[1]), App(f, a.Args[2]))
			}
		}
		if fd.Is != nil {
			if c := ctorOf(a); c != nil {
				return boolT(c == fd.Is)
			}
			if len(fd.Is.DT.Ctors) == 1 {
				return tTrue
			}
			if a.Op == "ite" && (ctorOf(a.Args[1]) != nil || ctorOf(a.Args[2]) != nil) {
				return Ite(a.Args[0], App(f, a.Args[1]), App(f, a.Args[2]))
			}
		}
	}
	if fd.Ctor != nil && len(args) > 0 { // eta: C(acc0 x, acc1 x, ...) = x for single-constructor types
		if len(fd.Ctor.DT.Ctors) == 1 {
			var base *Term
			ok := true
			for i, a := range args {
				if a.Sort == "Unit" && len(args) > 1 {
					continue
				}
				if a.Op == "app" && len(a.Args) == 1 && funs[a.Name] != nil && funs[a.Name].Acc == fd.Ctor && funs[a.Name].AccIdx == i {
					if base == nil {
						base = a.Args[0]
					} else if base != a.Args[0] {
						ok = false
					}
				} else {
					ok = false
				}
				if !ok {
					break
				}
			}
			if ok && base != nil {
				return base
			}
		}
	}
	if fd.Macro != nil {
		return fd.Macro(args)
	}
	if len(args) == 0 {
		return cst(f, fd.Ret)
	}
	return mk(&Term{Op: "app", Name: f, Args: args, Sort: fd.Ret})
}

func Forall(bv []*Term, body *Term, pats ...[]*Term) *Term {
	if body.isTrue() || body.isFalse() || len(bv) == 0 {
		return body
	}
	return mk(&Term{Op: "forall", Args: []*Term{body}, BV: bv, Pats: pats, Sort: "Bool"})
}
func Exists(bv []*Term, body *Term, pats ...[]*Term) *Term {
	if body.isTrue() || body.isFalse() || len(bv) == 0 {
		return body
	}
	return mk(&Term{Op: "exists", Args: []*Term{body}, BV: bv, Pats: pats, Sort: "Bool"})
}

// substitute bound variables
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if !t.bound && len(m) > 0 && allBV(m) {
			return t
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = rec(a)
		}
		r := rebuild(t, args, rec)
		memo[t] = r
		return r
	}
	return rec(t)
}
func allBV(m map[*Term]*Term) bool {
	for k := range m {
		if k.Op != "bvar" {
			return false
		}
	}
	return true
}

func rebuild(t *Term, args []*Term, rec func(*Term) *Term) *Term {
	switch t.Op {
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "not":
		return Not(args[0])
	case "=>":
		return Imp(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "=":
		return Eq(args[0], args[1])
	case "+":
		s := intT(0)
		for _, a := range args {
			s = Add(s, a)
		}
		return s
	case "*":
		return Mul(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "app":
		return App(t.Name, args...)
	case "div":
		return Div(args[0], args[1])
	case "mod":
		return Mod(args[0], args[1])
	case "constarr":
		return ConstArr(t.Sort, args[0])
	case "forall", "exists":
		var ps [][]*Term
		for _, p := range t.Pats {
			var q []*Term
			for _, x := range p {
				q = append(q, rec(x))
			}
			ps = append(ps, q)
		}
		return mk(&Term{Op: t.Op, Args: args, BV: t.BV, Pats: ps, Sort: "Bool"})
	}
	panic("rebuild " + t.Op)
}

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	var sb strings.Builder
	n := 0
	var rec func(t *Term)
	rec = func(t *Term) {
		n++
		if n > 400 {
			sb.WriteString("...")
			return
		}
		switch t.Op {
		case "int":
			if t.Int.Sign() < 0 {
				sb.WriteString("(- " + new(big.Int).Neg(t.Int).String() + ")")
			} else {
				sb.WriteString(t.Int.String())
			}
		case "const", "bvar":
			sb.WriteString(t.Name)
		case "true", "false":
			sb.WriteString(t.Op)
		case "forall", "exists":
			sb.WriteString("(" + t.Op + " (")
			for _, v := range t.BV {
				sb.WriteString("(" + v.Name + " " + v.Sort + ")")
			}
			sb.WriteString(") ")
			rec(t.Args[0])
			sb.WriteString(")")
		default:
			nm := t.Op
			if t.Op == "app" {
				nm = t.Name
			}
			sb.WriteString("(" + nm)
			for _, a := range t.Args {
				sb.WriteString(" ")
				rec(a)
			}
			sb.WriteString(")")
		}
	}
	rec(t)
	return sb.String()
}
