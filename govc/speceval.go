package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

type SEnv struct {
	x     *Exec
	st    *State
	old   *State
	vars  map[string]Val
	pkg   string
	depth int
}
type nilVal struct{}

var allPkgs = map[string]*packages.Package{} // by name
var ssaPkgs = map[string]*ssa.Package{}

func pkgOfContract(c *Contract) string {
	k := strings.TrimLeft(c.Key, "(*")
	if i := strings.Index(k, "."); i >= 0 {
		return k[:i]
	}
	return ""
}

func (e *SEnv) sub() *SEnv {
	n := *e
	n.vars = make(map[string]Val, len(e.vars)+4)
	for k, v := range e.vars {
		n.vars[k] = v
	}
	return &n
}

func (e *SEnv) boolean(ex *Expr) *Term {
	v := e.ev(ex)
	t, ok := v.(*Term)
	if !ok || t.Sort != "Bool" {
		fail("spec: boolean expected: %s (%T)", ex.Src, v)
	}
	return t
}

func (e *SEnv) term(ex *Expr) *Term { return e.toTerm(e.ev(ex)) }

func (e *SEnv) toTerm(v Val) *Term {
	switch a := v.(type) {
	case *Term:
		return a
	case *StructVal:
		return e.x.reify(e.st, a, a.T)
	case *PtrVal:
		return e.x.reify(e.st, a, types.NewPointer(a.T))
	case *IfaceVal:
		return e.x.reify(e.st, a, a.Dyn)
	case *SliceVal:
		return e.x.reify(e.st, a, nil)
	}
	fail("spec: no term for %T", v)
	return nil
}

func (e *SEnv) lookupPkg(name, member string) (Val, bool) {
	p := allPkgs[name]
	if p == nil || p.Types == nil {
		return nil, false
	}
	o := p.Types.Scope().Lookup(member)
	switch c := o.(type) {
	case *types.Const:
		switch c.Val().Kind() {
		case constant.Int:
			n, _ := new(big.Int).SetString(c.Val().ExactString(), 10)
			return bigT(n), true
		case constant.String:
			return strConst(constant.StringVal(c.Val())), true
		case constant.Bool:
			return boolT(constant.BoolVal(c.Val())), true
		}
	case *types.Var:
		if isErrorType(c.Type()) {
			return sentinel(name + "." + member), true
		}
		if sp := ssaPkgs[name]; sp != nil {
			if g, ok := sp.Members[member].(*ssa.Global); ok {
				return e.x.load(e.st, e.x.globalPtr(e.st, g).(*PtrVal)), true
			}
		}
	}
	return nil, false
}

// under evaluates in another state and carries the resulting facts over.
func (e *SEnv) inOld(ex *Expr) Val {
	if e.old == nil {
		fail("spec: old() outside a two-state clause")
	}
	tmp := e.old.clone()
	n0 := len(tmp.pc)
	n := *e
	n.st = tmp
	v := n.ev(ex)
	for _, f := range tmp.pc[n0:] {
		e.st.assume(f)
	}
	// objects created while evaluating must be visible afterwards
	for id, o := range tmp.heap {
		if _, ok := e.st.heap[id]; !ok {
			if _, ok := e.x.base[id]; !ok {
				e.st.heap[id] = o
			}
		}
	}
	// freeze structure: slices and structs are already values of the old state only if reified
	switch a := v.(type) {
	case *SliceVal, *MapVal, *PtrVal:
		return &oldVal{v: a, st: tmp}
	}
	return v
}

type oldVal struct {
	v  Val
	st *State
}

func (e *SEnv) ev(ex *Expr) Val {
	x := e.x
	switch ex.Op {
	case "int":
		n, _ := new(big.Int).SetString(ex.Name, 10)
		return bigT(n)
	case "str":
		return strConst(ex.Name)
	case "id":
		switch ex.Name {
		case "true":
			return tTrue
		case "false":
			return tFalse
		case "nil":
			return nilVal{}
		}
		if v, ok := e.vars[ex.Name]; ok {
			return v
		}
		if _, ok := ghostDecls[ex.Name]; ok {
			return x.ghost(e.st, ex.Name)
		}
		if m, ok := specMacros[ex.Name]; ok && len(m.Params) == 0 {
			return e.ev(m.E)
		}
		if f, ok := funs[ex.Name]; ok && len(f.Args) == 0 {
			return App(ex.Name)
		}
		if v, ok := e.lookupPkg(e.pkg, ex.Name); ok {
			return v
		}
		fail("spec: unknown name %s", ex.Name)
	case "neg":
		return Sub(intT(0), e.term(ex.Args[0]))
	case "!":
		return Not(e.boolean(ex.Args[0]))
	case "&&":
		a := e.boolean(ex.Args[0])
		if a.isFalse() {
			return tFalse
		}
		return And(a, e.boolean(ex.Args[1]))
	case "||":
		a := e.boolean(ex.Args[0])
		if a.isTrue() {
			return tTrue
		}
		return Or(a, e.boolean(ex.Args[1]))
	case "==>":
		a := e.boolean(ex.Args[0])
		if a.isFalse() {
			return tTrue
		}
		if v, k := e.st.decide(a); k && !v {
			return tTrue
		}
		return Imp(a, e.boolean(ex.Args[1]))
	case "<==>":
		return Eq(e.boolean(ex.Args[0]), e.boolean(ex.Args[1]))
	case "==", "!=":
		t := e.eq(e.ev(ex.Args[0]), e.ev(ex.Args[1]))
		if ex.Op == "!=" {
			return Not(t)
		}
		return t
	case "<":
		return Lt(e.num(ex.Args[0]), e.num(ex.Args[1]))
	case "<=":
		return Le(e.num(ex.Args[0]), e.num(ex.Args[1]))
	case ">":
		return Gt(e.num(ex.Args[0]), e.num(ex.Args[1]))
	case ">=":
		return Ge(e.num(ex.Args[0]), e.num(ex.Args[1]))
	case "+":
		return Add(e.num(ex.Args[0]), e.num(ex.Args[1]))
	case "-":
		return Sub(e.num(ex.Args[0]), e.num(ex.Args[1]))
	case "*":
		return Mul(e.num(ex.Args[0]), e.num(ex.Args[1]))
	case "/":
		return Div(e.num(ex.Args[0]), e.num(ex.Args[1]))
	case "%":
		return Mod(e.num(ex.Args[0]), e.num(ex.Args[1]))
	case "in":
		return e.inMap(e.ev(ex.Args[0]), e.ev(ex.Args[1]))
	case "forall", "exists":
		n := e.sub()
		var bv []*Term
		for _, b := range ex.BV {
			so := b[1]
			switch so {
			case "int":
				so = "Int"
			case "bool":
				so = "Bool"
			}
			e.x.nobj += 0
			v := bvar(b[0], so)
			if hasBV(e.vars, v) {
				v = bvar(b[0]+"'", so)
			}
			bv = append(bv, v)
			n.vars[b[0]] = v
		}
		body := n.boolean(ex.Args[0])
		var pats [][]*Term
		for _, ps := range ex.Pats {
			var p []*Term
			for _, q := range ps {
				t := n.term(q)
				// membership in a map is a conjunction: only its selection can be a pattern
				if t.Op == "and" || t.Op == "not" {
					var sel []*Term
					var walk func(*Term)
					walk = func(u *Term) {
						if u.Op == "and" || u.Op == "not" {
							for _, a := range u.Args {
								walk(a)
							}
						} else if u.bound {
							sel = append(sel, u)
						}
					}
					walk(t)
					p = append(p, sel...)
					continue
				}
				p = append(p, t)
			}
			pats = append(pats, p)
		}
		if ex.Op == "forall" {
			return Forall(bv, body, pats...)
		}
		return Exists(bv, body, pats...)
	case "field":
		if b := ex.Args[0]; b.Op == "id" {
			if _, ok := e.vars[b.Name]; !ok && ghostDecls[b.Name] == nil {
				if v, ok := e.lookupPkg(b.Name, ex.Name); ok {
					return v
				}
			}
		}
		return e.field(e.ev(ex.Args[0]), ex.Name)
	case "index":
		return e.index(e.ev(ex.Args[0]), e.ev(ex.Args[1]))
	case "call":
		return e.call(ex)
	}
	fail("spec: operator %s", ex.Op)
	return nil
}

// stripIte replaces conditionals inside a pattern by the branch that mentions the bound variables:
// solvers reject patterns with conditionals.
func stripIte(t *Term) *Term {
	if !t.bound || len(t.Args) == 0 {
		return t
	}
	if t.Op == "ite" {
		a, b := t.Args[1], t.Args[2]
		if a.bound || !b.bound {
			return stripIte(a)
		}
		return stripIte(b)
	}
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = stripIte(a)
	}
	return rebuild(t, args, stripIte)
}

func hasBV(m map[string]Val, v *Term) bool {
	for _, x := range m {
		if t, ok := x.(*Term); ok && t == v {
			return true
		}
	}
	return false
}

func (e *SEnv) num(ex *Expr) *Term {
	v := e.ev(ex)
	if p, ok := v.(*PtrVal); ok && shortType(p.T) == "big.Int" {
		return e.x.load(e.st, p).(*Term)
	}
	if ov, ok := v.(*oldVal); ok {
		if p, ok := ov.v.(*PtrVal); ok && shortType(p.T) == "big.Int" {
			return e.x.load(ov.st, p).(*Term)
		}
	}
	t := e.toTerm(v)
	if t.Sort == "BigP" {
		return App("bigval", t)
	}
	return t
}

func (e *SEnv) unold(v Val) Val {
	if o, ok := v.(*oldVal); ok {
		switch a := o.v.(type) {
		case *SliceVal:
			return e.x.reify(o.st, a, nil)
		case *PtrVal:
			return a
		case *MapVal:
			return a
		}
	}
	return v
}

func (e *SEnv) eq(a, b Val) *Term {
	a, b = e.unold(a), e.unold(b)
	if _, ok := a.(nilVal); ok {
		a, b = b, a
	}
	if _, ok := b.(nilVal); ok {
		switch p := a.(type) {
		case nilVal:
			return tTrue
		case *PtrVal:
			return p.Nil
		case *SliceVal:
			return p.Nil
		case *MapVal:
			return p.Nil
		case *IfaceVal:
			return tFalse
		case *FuncVal:
			return boolT(p.Fn == nil)
		case *Term:
			switch p.Sort {
			case "Err":
				return Eq(p, App("errnil"))
			case "Ref":
				return Eq(p, App("refnil"))
			case "BigP":
				return Eq(p, App("bignil"))
			case "Bytes":
				return Eq(p, App("Bnil"))
			}
		}
		fail("spec: comparison of %T with nil", a)
	}
	return e.x.valEq(e.st, a, b)
}

func (e *SEnv) inMap(k, m Val) *Term {
	st := e.st
	if o, ok := m.(*oldVal); ok {
		m, st = o.v, o.st
	}
	switch mv := m.(type) {
	case *MapVal:
		if mv.Obj == 0 {
			return tFalse
		}
		c := e.x.obj(st, mv.Obj).M
		return And(Not(mv.Nil), Select(c.Dom, e.toTerm(k)))
	case *Term: // set
		return Select(mv, e.toTerm(k))
	}
	fail("spec: 'in' on %T", m)
	return nil
}

func (e *SEnv) field(v Val, name string) Val {
	st := e.st
	if o, ok := v.(*oldVal); ok {
		st, v = o.st, o.v
	}
	switch p := v.(type) {
	case *PtrVal:
		if o := e.x.existing(st, p.Obj); p.Ref == nil && o != nil && o.G != nil {
			if g, ok := o.G[name]; ok {
				return g
			}
		}
		u, ok := p.T.Underlying().(*types.Struct)
		if !ok {
			fail("spec: field %s of *%s", name, p.T)
		}
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				q := e.x.fieldAddrNoCheck(st, p, i)
				r := e.x.load(st, q)
				if st != e.st {
					switch r.(type) {
					case *SliceVal, *MapVal, *PtrVal:
						return &oldVal{r, st}
					}
				}
				return r
			}
		}
		for i := 0; i < u.NumFields(); i++ { // promoted
			if u.Field(i).Embedded() {
				q := e.x.fieldAddrNoCheck(st, p, i)
				return e.field(e.x.load(st, q), name)
			}
		}
		fail("spec: no field %s in %s", name, p.T)
	case *StructVal:
		u := p.T.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				return p.F[i]
			}
		}
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Embedded() {
				return e.field(p.F[i], name)
			}
		}
		fail("spec: no field %s in %s", name, p.T)
	case *Term:
		if d, ok := dts[p.Sort]; ok {
			for _, c := range d.Ctors {
				for _, f := range c.Fields {
					if f == name || strings.HasSuffix(f, "."+name) {
						return App(f, p)
					}
				}
			}
		}
		fail("spec: field %s of %s", name, p.Sort)
	case *IfaceVal:
		return e.field(p.V, name)
	}
	fail("spec: field %s of %T", name, v)
	return nil
}

func (x *Exec) fieldAddrNoCheck(st *State, p *PtrVal, f int) *PtrVal {
	u := p.T.Underlying().(*types.Struct)
	fd := u.Field(f)
	if p.Ref != nil {
		n := &PtrVal{T: fd.Type(), Ref: p.Ref, Nil: tFalse}
		x.refRoot[n] = x.refBase(p) + "." + fd.Name()
		return n
	}
	return &PtrVal{T: fd.Type(), Obj: p.Obj, Path: append(append([]Step{}, p.Path...), Step{Field: f}), Nil: tFalse}
}

func (e *SEnv) index(v, i Val) Val {
	st := e.st
	if o, ok := v.(*oldVal); ok {
		st, v = o.st, o.v
	}
	switch s := v.(type) {
	case *SliceVal:
		return e.x.loadElem(st, e.x.obj(st, s.Obj), Add(s.Off, e.toTerm(i)))
	case *MapVal:
		r, _ := e.x.mapGet(st, s, e.toTerm(i))
		return r
	case *Term:
		if strings.HasPrefix(s.Sort, "Slc_") {
			return Select(App("arr_"+s.Sort[4:], s), e.toTerm(i))
		}
		if strings.HasPrefix(s.Sort, "(Array") {
			return Select(s, e.toTerm(i))
		}
		if s.Sort == "Str" {
			return App("sat", s, e.toTerm(i))
		}
		fail("spec: index of a %s", s.Sort)
	}
	fail("spec: index of %T", v)
	return nil
}

func (e *SEnv) lenOf(v Val) *Term {
	st := e.st
	if o, ok := v.(*oldVal); ok {
		st, v = o.st, o.v
	}
	switch s := v.(type) {
	case *SliceVal:
		return s.Len
	case *MapVal:
		if s.Obj == 0 {
			return intT(0)
		}
		return Ite(s.Nil, intT(0), e.x.obj(st, s.Obj).M.Card)
	case *Term:
		switch {
		case s.Sort == "Str":
			return App("slen", s)
		case s.Sort == "Bytes":
			return App("blen", s)
		case strings.HasPrefix(s.Sort, "Slc_"):
			return App("len_"+s.Sort[4:], s)
		}
	}
	fail("spec: len of %T", v)
	return nil
}

func (e *SEnv) call(ex *Expr) Val {
	x := e.x
	switch ex.Name {
	case "old":
		return e.inOld(ex.Args[0])
	case "len":
		return e.lenOf(e.ev(ex.Args[0]))
	case "cap":
		if s, ok := e.ev(ex.Args[0]).(*SliceVal); ok {
			return s.Cap
		}
	case "ite":
		c := e.boolean(ex.Args[0])
		return Ite(c, e.term(ex.Args[1]), e.term(ex.Args[2]))
	case "view":
		v := e.ev(ex.Args[0])
		if p, ok := v.(*PtrVal); ok {
			return x.snapView(e.st, p)
		}
	case "term":
		return e.term(ex.Args[0])
	case "arr":
		v := e.ev(ex.Args[0])
		if s, ok := v.(*SliceVal); ok {
			return x.sliceArr(e.st, s)
		}
	case "deref":
		v := e.ev(ex.Args[0])
		st := e.st
		if o, ok := v.(*oldVal); ok {
			st, v = o.st, o.v
		}
		if p, ok := v.(*PtrVal); ok {
			return x.load(st, p)
		}
	case "big":
		return e.num(ex.Args[0])
	case "dom":
		v := e.ev(ex.Args[0])
		st := e.st
		if o, ok := v.(*oldVal); ok {
			st, v = o.st, o.v
		}
		if m, ok := v.(*MapVal); ok {
			return x.obj(st, m.Obj).M.Dom
		}
	case "vals":
		v := e.ev(ex.Args[0])
		st := e.st
		if o, ok := v.(*oldVal); ok {
			st, v = o.st, o.v
		}
		if m, ok := v.(*MapVal); ok {
			return x.obj(st, m.Obj).M.Val
		}
	case "store":
		return Store(e.term(ex.Args[0]), e.term(ex.Args[1]), e.term(ex.Args[2]))
	case "idx": // position of a key in an iterator's sequence
		p, ok := e.ev(ex.Args[0]).(*PtrVal)
		if ok {
			if f, ok := x.obj(e.st, p.Obj).G["idx"].(strVal); ok {
				return App(string(f), e.term(ex.Args[1]))
			}
		}
	case "iskind":
		p, ok := e.ev(ex.Args[0]).(*PtrVal)
		return boolT(ok && x.obj(e.st, p.Obj).G["kind"] == Val(strVal(ex.Args[1].Name)))
	case "dyn": // dyn(v, "pkg.Type") : dynamic type test
		v := e.ev(ex.Args[0])
		if iv, ok := v.(*IfaceVal); ok {
			return boolT(shortType(iv.Dyn) == ex.Args[1].Name)
		}
		if t, ok := v.(*Term); ok {
			declFun("dyntype", "Int", "Ref")
			if _, ok := typeIDs[ex.Args[1].Name]; !ok {
				typeIDs[ex.Args[1].Name] = int64(len(typeIDs) + 1)
			}
			return And(Ne(t, App("refnil")), Eq(App("dyntype", t), intT(typeIDs[ex.Args[1].Name])))
		}
	case "as": // as(v, "*pkg.Type"): view a reference as a pointer to an immutable struct
		v := e.ev(ex.Args[0])
		if iv, ok := v.(*IfaceVal); ok {
			return iv.V
		}
		t := e.toTerm(v)
		return x.unreify(e.st, t, lookupType(ex.Args[1].Name))
	case "same": // identity of two references
		return x.valEq(e.st, e.unold(e.ev(ex.Args[0])), e.unold(e.ev(ex.Args[1])))
	}
	if m, ok := specMacros[ex.Name]; ok {
		if len(m.Params) != len(ex.Args) {
			fail("spec: macro %s expects %d arguments", ex.Name, len(m.Params))
		}
		n := *e
		n.vars = map[string]Val{}
		for i, p := range m.Params {
			n.vars[p] = e.ev(ex.Args[i])
		}
		// bound variables of the caller stay visible so that capture can be avoided
		i := 0
		for _, v := range e.vars {
			if t, ok := v.(*Term); ok && t.Op == "bvar" {
				n.vars[fmt.Sprintf(" bv%d", i)] = t
				i++
			}
		}
		n.depth++
		if n.depth > 60 {
			fail("spec: macro recursion in %s", ex.Name)
		}
		return n.ev(m.E)
	}
	if f, ok := funs[ex.Name]; ok {
		var as []*Term
		for i, a := range ex.Args {
			v := e.ev(a)
			if i < len(f.Args) && f.Args[i] == "Int" {
				if p, ok := v.(*PtrVal); ok && shortType(p.T) == "big.Int" {
					v = x.load(e.st, p)
				}
			}
			as = append(as, e.toTerm(e.unold(v)))
		}
		return App(ex.Name, as...)
	}
	fail("spec: unknown function %s", ex.Name)
	return nil
}

func lookupType(name string) types.Type {
	ptr := strings.HasPrefix(name, "*")
	n := strings.TrimPrefix(name, "*")
	i := strings.Index(n, ".")
	if i < 0 {
		fail("type %s", name)
	}
	p := allPkgs[n[:i]]
	if p == nil {
		fail("unknown package in type %s", name)
	}
	o := p.Types.Scope().Lookup(n[i+1:])
	if o == nil {
		fail("unknown type %s", name)
	}
	t := o.Type()
	if ptr {
		return types.NewPointer(t)
	}
	return t
}
