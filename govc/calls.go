package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callInfo struct {
	key  string
	fn   *ssa.Function
	args []Val
	pos  string
	sig  *types.Signature
	com  *ssa.CallCommon
	fr   *Frame
}

type intrinsic func(x *Exec, st *State, ci *callInfo, k func(*State, []Val))

var intrinsics = map[string]intrinsic{}

func (x *Exec) call(st *State, fr *Frame, in ssa.Instruction, com *ssa.CallCommon, fv Val, args []Val, k func(*State, []Val)) {
	pos := x.posOf(in)
	if b, ok := com.Value.(*ssa.Builtin); ok && !com.IsInvoke() {
		x.builtin(st, fr, b, com, args, pos, k)
		return
	}
	if com.IsInvoke() {
		if iv, ok := fv.(*IfaceVal); ok {
			m := x.prog.LookupMethod(iv.Dyn, com.Method.Pkg(), com.Method.Name())
			if m == nil {
				fail("%s: no method %s on %s", pos, com.Method.Name(), iv.Dyn)
			}
			x.callFunc(st, fr, m, append([]Val{iv.V}, args...), nil, com, pos, k)
			return
		}
		key := "(" + shortType(com.Value.Type()) + ")." + com.Method.Name()
		ci := &callInfo{key: key, args: append([]Val{fv}, args...), pos: pos, sig: com.Signature(), com: com, fr: fr}
		if t, ok := fv.(*Term); ok && (t.Sort == "Ref" || t.Sort == "Err") {
			z := App("refnil")
			if t.Sort == "Err" {
				z = App("errnil")
			}
			if v, kn := st.decide(Ne(t, z)); !(kn && v) && !noNilCheck[key] {
				x.oblige(st, "nil", "no method call on a nil "+shortType(com.Value.Type()), Ne(t, z), pos, nil)
			}
		}
		if f, ok := intrinsics[key]; ok {
			f(x, st, ci, k)
			return
		}
		if c := contracts[key]; c != nil {
			x.applyContract(st, c, key, com.Signature(), ci.args, pos, k)
			return
		}
		if pureNoop(key) {
			x.havocResults(st, com.Signature(), key, k)
			return
		}
		fail("%s: no contract for interface method %s", pos, key)
	}
	f, ok := fv.(*FuncVal)
	if !ok {
		if t, isT := fv.(*Term); isT { // unknown function value
			x.callUnknown(st, fr, t, com, args, pos, k)
			return
		}
		fail("%s: call of %T", pos, fv)
	}
	fn, ok := f.Fn.(*ssa.Function)
	if !ok {
		x.oblige(st, "nil", "call of a nil function", tFalse, pos, nil)
		return
	}
	x.callFunc(st, fr, fn, args, f.Bind, com, pos, k)
}

var noNilCheck = map[string]bool{}

func (x *Exec) callUnknown(st *State, fr *Frame, t *Term, com *ssa.CallCommon, args []Val, pos string, k func(*State, []Val)) {
	x.notes["call of an unknown function value at "+pos+" (assumed to have no effect on the verified state)"] = true
	x.havocResults(st, com.Signature(), "dyncall", k)
}

func inRepo(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil {
		if fn.Origin() != nil {
			p = fn.Origin().Pkg
		}
		if p == nil && fn.Object() != nil && fn.Object().Pkg() != nil {
			return strings.HasPrefix(fn.Object().Pkg().Path(), modulePath)
		}
		if p == nil && fn.Synthetic != "" {
			if fn.Signature.Recv() != nil {
				t := fn.Signature.Recv().Type()
				if pt, ok := t.(*types.Pointer); ok {
					t = pt.Elem()
				}
				if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
					return strings.HasPrefix(n.Obj().Pkg().Path(), modulePath)
				}
			}
			return true
		}
		if p == nil {
			return false
		}
	}
	return strings.HasPrefix(p.Pkg.Path(), modulePath)
}

func keyOf(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return fnKey(o)
	}
	return fnKey(fn)
}

func (x *Exec) callFunc(st *State, fr *Frame, fn *ssa.Function, args, bind []Val, com *ssa.CallCommon, pos string, k func(*State, []Val)) {
	key := keyOf(fn)
	ci := &callInfo{key: key, fn: fn, args: args, pos: pos, sig: fn.Signature, com: com, fr: fr}
	if f, ok := intrinsics[key]; ok {
		f(x, st, ci, k)
		return
	}
	if c := contracts[key]; c != nil && !c.Inline && contractFits(c, fn) {
		x.callees[key] = true
		x.applyContract(st, c, key, fn.Signature, args, pos, k)
		return
	}
	if inRepo(fn) && len(fn.Blocks) > 0 {
		if fn.Synthetic == "" {
			x.inlined[key] = true
		}
		x.runFunc(st, fn, args, bind, fr, nil, k)
		return
	}
	if pureNoop(key) || pureNoopPkg(fn) {
		x.havocResults(st, fn.Signature, key, k)
		return
	}
	fail("%s: no contract or model for external function %s", pos, key)
}

func contractFits(c *Contract, fn *ssa.Function) bool {
	n := fn.Signature.Params().Len() // functions without a body have no Params
	if fn.Signature.Recv() != nil {
		n++
	}
	if len(fn.Blocks) > 0 {
		n = len(fn.Params)
	}
	return len(c.Params) == n && len(c.Results) == fn.Signature.Results().Len()
}

func (x *Exec) havocResults(st *State, sig *types.Signature, key string, k func(*State, []Val)) {
	var rs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, x.symVal(st, x.freshName("r."+sanit(key)), sig.Results().At(i).Type()))
	}
	k(st, rs)
}

func (x *Exec) bindParams(c *Contract, args []Val) map[string]Val {
	m := map[string]Val{}
	for i, p := range c.Params {
		if i < len(args) {
			m[p] = args[i]
		}
	}
	return m
}

func (x *Exec) applyContract(st *State, c *Contract, key string, sig *types.Signature, args []Val, pos string, k func(*State, []Val)) {
	if len(c.Params) != len(args) {
		fail("%s: contract of %s expects %d arguments, call has %d", pos, key, len(c.Params), len(args))
	}
	if c.Trusted != "" || c.Extern {
		x.assumed["contract of "+key+": "+orStr(c.Trusted, "external function")] = true
	}
	env := &SEnv{x: x, st: st, vars: x.bindParams(c, args), pkg: pkgOfContract(c)}
	// receivers are not nil
	if strings.HasPrefix(c.Key, "(*") {
		if p, ok := args[0].(*PtrVal); ok {
			x.nonNil(st, p, pos)
		}
	}
	for _, l := range c.Lets {
		env.vars[l.Name] = env.ev(l.E)
	}
	for _, r := range c.Req {
		if x.relevant(r.Props) {
			x.oblige(st, "precondition", "precondition of "+key+": "+r.Src, env.boolean(r.E), pos, nil)
		}
	}
	for _, cb := range c.Cbs {
		if !x.relevant(cb.Props) {
			continue
		}
		f, ok := env.ev(cb.F).(*FuncVal)
		if !ok {
			fail("%s: %s is not a known function", pos, cb.F.Src)
		}
		fn, ok := f.Fn.(*ssa.Function)
		if !ok {
			x.oblige(st, "callback", "a function is handed over: "+cb.F.Src, tFalse, pos, nil)
			continue
		}
		s2 := st.clone()
		a := x.symVal(s2, x.freshName("cb."+cb.Arg), lookupType(cb.Typ))
		x.callFunc(s2, nil, fn, []Val{a}, f.Bind, nil, pos, func(s3 *State, rs []Val) {
			e3 := &SEnv{x: x, st: s3, vars: map[string]Val{}, pkg: env.pkg}
			for k, v := range env.vars {
				e3.vars[k] = v
			}
			e3.vars[cb.Arg] = a
			e3.vars[cb.Res] = rs[0]
			x.oblige(s3, "callback", cb.F.Src+" handed to "+key+": "+cb.C.Src, e3.boolean(cb.C.E), pos, nil)
		})
	}
	pre := st.clone()
	for _, e := range c.Mod {
		x.havocLV(st, env, e)
	}
	if !c.Extern {
		x.tick(st)
	}
	var rs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		v := x.symVal(st, x.freshName("r."+sanit(key)), t)
		if sv, ok := v.(*SliceVal); ok && sv.Obj != 0 {
			x.mut(st, sv.Obj).New = true
		}
		rs = append(rs, v)
	}
	env2 := env.sub()
	env2.old = pre
	for i, r := range c.Results {
		if i < len(rs) {
			env2.vars[r] = rs[i]
		}
	}
	for _, e := range c.Ens {
		if x.relevant(e.Props) {
			st.assume(env2.boolean(e.E))
		}
	}
	for _, r := range c.Recs {
		if gd := ghostDecls[r.Ghost]; gd != nil && x.relevant(r.C.Props) && x.relevant(gd.Props) {
			st.ghosts[r.Ghost] = env2.toTerm(env2.ev(r.C.E))
		}
	}
	if st.dead {
		return
	}
	k(st, rs)
}

// tick advances the ghost clock (if one is declared) by an arbitrary amount.
func (x *Exec) tick(st *State) *Term {
	n := fresh("now", "Int")
	if _, ok := ghostDecls["clk"]; ok {
		st.assume(Ge(n, x.ghost(st, "clk")))
		st.ghosts["clk"] = n
	}
	return n
}

func orStr(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

// lvalues of modifies clauses
type lval struct {
	ghost string
	obj   int
	path  []Step
	all   bool
	each  string // every object of this type
}

func (x *Exec) lvalue(env *SEnv, e *Expr) lval {
	switch e.Op {
	case "id":
		if _, ok := env.vars[e.Name]; !ok {
			if _, ok := ghostDecls[e.Name]; ok {
				return lval{ghost: e.Name}
			}
		}
		v := env.ev(e)
		switch p := v.(type) {
		case *PtrVal:
			return lval{obj: p.Obj, path: p.Path, all: true}
		case *IfaceVal:
			if q, ok := p.V.(*PtrVal); ok {
				return lval{obj: q.Obj, path: q.Path, all: true}
			}
		}
		fail("modifies %s", e.Name)
	case "call":
		if e.Name == "contents" {
			v := env.ev(e.Args[0])
			switch p := v.(type) {
			case *MapVal:
				return lval{obj: p.Obj, all: true}
			case *SliceVal:
				return lval{obj: p.Obj, all: true}
			case *PtrVal:
				return lval{obj: p.Obj, path: p.Path, all: true}
			case *IfaceVal:
				if q, ok := p.V.(*PtrVal); ok {
					return lval{obj: q.Obj, path: q.Path, all: true}
				}
			}
			fail("contents of %T", v)
		}
		if e.Name == "each" { // each(pkg.Type.field)
			f := e.Args[0]
			if f.Op == "field" && f.Args[0].Op == "field" && f.Args[0].Args[0].Op == "id" {
				return lval{each: f.Args[0].Args[0].Name + "." + f.Args[0].Name, path: x.eachPath(f.Args[0].Args[0].Name+"."+f.Args[0].Name, f.Name)}
			}
		}
	case "field":
		v := env.ev(e.Args[0])
		var p *PtrVal
		switch q := v.(type) {
		case *PtrVal:
			p = q
		default:
			// field of a struct lvalue
			l := x.lvalue(env, e.Args[0])
			o := x.obj(env.st, l.obj)
			t := fieldType(o.T, l.path)
			p = &PtrVal{T: t, Obj: l.obj, Path: l.path, Nil: tFalse}
		}
		u, ok := p.T.Underlying().(*types.Struct)
		if !ok {
			fail("modifies: field of %s", p.T)
		}
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == e.Name {
				return lval{obj: p.Obj, path: append(append([]Step{}, p.Path...), Step{Field: i})}
			}
		}
		fail("modifies: no field %s in %s", e.Name, p.T)
	}
	fail("modifies: %s", e.Src)
	return lval{}
}

func (x *Exec) eachPath(typ, field string) []Step {
	for _, p := range x.prog.AllPackages() {
		for _, m := range p.Members {
			if t, ok := m.(*ssa.Type); ok && shortType(t.Type()) == typ {
				if u, ok := t.Type().Underlying().(*types.Struct); ok {
					for i := 0; i < u.NumFields(); i++ {
						if u.Field(i).Name() == field {
							return []Step{{Field: i}}
						}
					}
				}
			}
		}
	}
	fail("modifies: no field %s of %s", field, typ)
	return nil
}

// havocEach changes a field of every object of a type arbitrarily; a pointer to a structure may only become nil.
func (x *Exec) havocEach(st *State, l lval) {
	var ids []int
	for id, o := range st.heap {
		if o.T != nil && o.Kind == "cell" && shortType(o.T) == l.each {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := x.obj(st, id)
		t := fieldType(o.T, l.path)
		v := x.cellVal(st, o)
		var n Val
		if cur, ok := x.load(st, &PtrVal{T: t, Obj: id, Path: l.path, Nil: tFalse}).(*PtrVal); ok && !isBigPtr(t) {
			c := *cur
			c.Nil = Or(cur.Nil, fresh("reset", "Bool"))
			n = &c
		} else {
			n = x.symVal(st, x.freshName("mod"), t)
		}
		x.mut(st, id).V = updPath(v, l.path, n)
	}
}

func (x *Exec) havocLV(st *State, env *SEnv, e *Expr) {
	l := x.lvalue(env, e)
	if l.each != "" {
		x.havocEach(st, l)
		return
	}
	if l.ghost != "" {
		d := ghostDecls[l.ghost]
		if x.relevant(d.Props) {
			st.ghosts[l.ghost] = fresh("g_"+l.ghost, d.Sort)
		}
		return
	}
	if l.obj == 0 {
		return
	}
	o := x.obj(st, l.obj)
	switch o.Kind {
	case "map":
		m := x.mut(st, l.obj)
		m.M = &MapC{fresh("dom", o.M.Dom.Sort), fresh("val", o.M.Val.Sort), fresh("card", "Int")}
		x.mapFacts(st, m.M)
	case "arr":
		m := x.mut(st, l.obj)
		if m.Segs != nil {
			m.Segs = []Seg{{"raw", fresh("rawbytes", "Bytes"), segsLen(m.Segs)}}
			return
		}
		m.Elems = nil
		m.Arr = fresh("arr", arrSort("Int", sortOf(o.T)))
	default:
		v := x.cellVal(st, o)
		n := updPath(v, l.path, x.symVal(st, x.freshName("mod"), fieldType(o.T, l.path)))
		x.mut(st, l.obj).V = n
	}
}

// ---------- builtins ----------
func (x *Exec) builtin(st *State, fr *Frame, b *ssa.Builtin, com *ssa.CallCommon, args []Val, pos string, k func(*State, []Val)) {
	env := &SEnv{x: x, st: st}
	one := func(v Val) { k(st, []Val{v}) }
	switch b.Name() {
	case "len":
		if p, ok := args[0].(*PtrVal); ok {
			one(intT(p.T.Underlying().(*types.Array).Len()))
			return
		}
		r := env.lenOf(args[0])
		if r.Op == "app" && r.Name == "slen" && !r.Args[0].bound {
			st.assume(Ge(r, intT(0)), Le(r, intT(maxLen)))
			x.bounds[r] = [2]*big.Int{big.NewInt(0), big.NewInt(maxLen)}
		}
		one(r)
	case "cap":
		one(args[0].(*SliceVal).Cap)
	case "append":
		s := args[0].(*SliceVal)
		switch t := args[1].(type) {
		case *SliceVal:
			one(x.appendVals(st, s, t, pos))
		default:
			fail("%s: append of %T", pos, args[1])
		}
	case "copy":
		d := args[0].(*SliceVal)
		s, ok := args[1].(*SliceVal)
		if !ok {
			fail("%s: copy from %T", pos, args[1])
		}
		one(x.copySlice(st, d, s, pos))
	case "delete":
		m := args[0].(*MapVal)
		kt := x.reify(st, args[1], m.T.Key())
		x.mapDelete(st, m, kt, pos)
		k(st, nil)
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			if b.Name() == "min" {
				r = Ite(Le(r, t), r, t)
			} else {
				r = Ite(Ge(r, t), r, t)
			}
		}
		one(r)
	case "close":
		k(st, nil)
	case "clear":
		m, ok := args[0].(*MapVal)
		if !ok || m.Obj == 0 {
			fail("%s: clear of %T", pos, args[0])
		}
		o := x.mut(st, m.Obj)
		o.M = &MapC{ConstArr(o.M.Dom.Sort, tFalse), o.M.Val, intT(0)}
		k(st, nil)
	case "recover":
		one(App("refnil"))
	case "print", "println":
		k(st, nil)
	default:
		fail("%s: builtin %s", pos, b.Name())
	}
}

func (x *Exec) copySlice(st *State, d, s *SliceVal, pos string) *Term {
	n := Ite(Le(d.Len, s.Len), d.Len, s.Len)
	if !isByte(d.Elem) {
		do := x.obj(st, d.Obj)
		if do.Frozen {
			x.oblige(st, "frame", "copy into a shared value", tFalse, pos, nil)
			return n
		}
		if do.Elems != nil {
			do = x.toArr(st, do)
		}
		sarr := x.sliceArr(st, s)
		na := fresh("copied", do.Arr.Sort)
		j := bvar("j", "Int")
		st.assume(Forall([]*Term{j}, Eq(Select(na, j), Ite(And(Ge(j, d.Off), Lt(j, Add(d.Off, n))), Select(sarr, Sub(j, d.Off)), Select(do.Arr, j))), []*Term{Select(na, j)}))
		m := x.mut(st, d.Obj)
		m.Arr = na
		return n
	}
	do, so := x.obj(st, d.Obj), x.obj(st, s.Obj)
	var w []Seg
	ok := false
	cnt := n
	if sl, hit := x.subSegs(st, so.Segs, s.Off, s.Len); hit {
		// whole source fits?
		fits := Le(s.Len, d.Len)
		if v, kn := st.decide(fits); (kn && v) || x.quick(st, fits) {
			w, ok, cnt = sl, true, s.Len
		} else if v, kn := st.decide(Le(d.Len, s.Len)); (kn && v) || x.quick(st, Le(d.Len, s.Len)) {
			if p, hit := subSegs(so.Segs, s.Off, d.Len); hit {
				w, ok, cnt = p, true, d.Len
			} else if len(sl) == 1 {
				w, ok, cnt = []Seg{{"raw", App("bprefix", segsTerm(sl), d.Len), d.Len}}, true, d.Len
			}
		}
	}
	m := x.mut(st, d.Obj)
	if do.Frozen {
		x.oblige(st, "frame", "copy into a shared value", tFalse, pos, nil)
		return n
	}
	if ok {
		if ns, hit := writeSegs(do.Segs, d.Off, w); hit {
			m.Segs = ns
			return cnt
		}
	}
	m.Segs = []Seg{{"raw", fresh("rawbytes", "Bytes"), segsLen(do.Segs)}}
	return n
}

// quick asks the solver whether a fact follows from the path condition.
func (x *Exec) quick(st *State, g *Term) bool {
	if v, k := st.decide(g); k && (v || !g.isFalse()) {
		return v
	}
	q := &Query{Hyps: st.pc, Goal: g}
	return solve(q.text(), 1500000000, false).Status == "unsat"
}

func (x *Exec) note(f string, a ...any) { x.notes[fmt.Sprintf(f, a...)] = true }
