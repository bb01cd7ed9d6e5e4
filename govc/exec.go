package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Obl is one proof obligation.
type Obl struct {
	Kind, Desc, Pos, Func string
	Hyps                  []*Term
	Goal                  *Term
	Uses                  []string
	Timeout               int
	Res                   *Result
	OK                    bool
	How                   string
	Trail                 []string
	Vacuity               bool
}

type Exec struct {
	prog      *ssa.Program
	prop      string
	root      *ssa.Function
	con       *Contract
	base      map[int]*Obj
	lazy      map[string]int
	nobj      int
	bounds    map[*Term][2]*big.Int
	refObj    map[*Term]int
	refRoot   map[*PtrVal]string
	lazyFacts []interface{}
	obls      []*Obl
	oblSeen   map[string]bool
	silent    int
	entry     *State
	params    map[string]Val
	nPaths    int
	nSteps    int
	notes     map[string]bool
	returns   int
	retPcs    [][]*Term
	loopSeen  map[string]*loopMemo
	assumed   map[string]bool // trusted contracts and externals used
	callees   map[string]bool
	inlined   map[string]bool
}

func newExec(prog *ssa.Program, prop string) *Exec {
	return &Exec{prog: prog, prop: prop, base: map[int]*Obj{}, lazy: map[string]int{}, bounds: map[*Term][2]*big.Int{},
		refObj: map[*Term]int{}, refRoot: map[*PtrVal]string{}, oblSeen: map[string]bool{}, notes: map[string]bool{},
		loopSeen: map[string]*loopMemo{}, assumed: map[string]bool{}, callees: map[string]bool{}, inlined: map[string]bool{}}
}

func newState() *State {
	return &State{heap: map[int]*Obj{}, ghosts: map[string]*Term{}, known: map[*Term]bool{}}
}

func (x *Exec) relevant(props []string) bool {
	if len(props) == 0 {
		return true
	}
	for _, p := range props {
		if p == x.prop {
			return true
		}
	}
	return false
}

// oblige records a proof obligation and assumes it afterwards.
func (x *Exec) oblige(st *State, kind, desc string, goal *Term, pos string, props []string) {
	if !x.relevant(props) {
		return
	}
	if st.dead {
		return
	}
	if goal.Op == "and" {
		for i, g := range goal.Args {
			x.oblige(st, kind, fmt.Sprintf("%s #%d", desc, i+1), g, pos, props)
		}
		return
	}
	if x.silent == 0 {
		o := &Obl{Kind: kind, Desc: desc, Pos: pos, Hyps: st.pc[:len(st.pc):len(st.pc)], Goal: goal, Trail: st.trail}
		if x.root != nil {
			o.Func = fnKey(x.root)
		}
		if x.con != nil {
			o.Uses = x.con.Uses
			o.Timeout = x.con.Timeout
		}
		if v, k := st.decide(goal); k && v {
			o.OK, o.How = true, "simplifier"
		}
		x.obls = append(x.obls, o)
	}
	st.assume(goal)
}

type deferred struct {
	call  *ssa.CallCommon
	fn    Val
	args  []Val
	instr ssa.Instruction
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	defers []deferred
	depth  int
	con    *Contract
	vars   map[string]Val // contract names for invariants
	old    *State
	loops  []*activeLoop
	stack  []*ssa.Function
	up     *Frame
	li     *loopInfo
	ret    func(st *State, rs []Val)
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Val, len(f.env)+8)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	n.loops = f.loops[:len(f.loops):len(f.loops)]
	return &n
}

func (x *Exec) posOf(i ssa.Instruction) string {
	p := i.Pos()
	if p == token.NoPos {
		for _, op := range i.Operands(nil) {
			if *op != nil && (*op).Pos() != token.NoPos {
				p = (*op).Pos()
				break
			}
		}
	}
	return x.posStr(p)
}
func (x *Exec) posStr(p token.Pos) string {
	ps := x.prog.Fset.Position(p)
	f := ps.Filename
	f = strings.TrimPrefix(f, repoDir+"/")
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func fnKey(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	if f.Signature.Recv() != nil {
		return "(" + shortType(f.Signature.Recv().Type()) + ")." + f.Name()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Name() + "." + f.Name()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Name() + "." + f.Name()
	}
	return f.Name()
}

// value evaluates an SSA operand.
func (x *Exec) value(st *State, fr *Frame, v ssa.Value) Val {
	if r, ok := fr.env[v]; ok {
		return r
	}
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(st, c)
	case *ssa.Global:
		return x.globalPtr(st, c)
	case *ssa.Function:
		return &FuncVal{Fn: c}
	case *ssa.Builtin:
		return &FuncVal{Fn: c}
	}
	fail("no value for %s (%T) in %s", v.Name(), v, fr.fn)
	return nil
}

var strConsts = map[string]*Term{}
var strText = map[*Term]string{}

func strConst(s string) *Term {
	if s == "" {
		return App("strempty")
	}
	if t, ok := strConsts[s]; ok {
		return t
	}
	n := fmt.Sprintf("str!%d", len(strConsts))
	declFun(n, "Str")
	uniqConst[n] = true
	t := App(n)
	strConsts[s] = t
	strText[t] = s
	addAxiom("len_"+n, fmt.Sprintf("(= (slen %s) %d)", n, len(s)), false)
	if funs["sat"] != nil {
		for i := 0; i < len(s) && i < 4; i++ {
			addAxiom(fmt.Sprintf("at_%s_%d", n, i), fmt.Sprintf("(= (sat %s %d) %d)", n, i, s[i]), false)
		}
		addAxiom("utf8_"+n, fmt.Sprintf("(utf8 %s)", n), false)
	}
	return t
}

func (x *Exec) constVal(st *State, c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return x.zeroVal(st, t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return boolT(constant.BoolVal(c.Value))
	case constant.Int:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return cst("flt!"+sanit(c.Value.ExactString()), "Flt")
		}
		n, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
		return bigT(n)
	case constant.String:
		return strConst(constant.StringVal(c.Value))
	case constant.Float:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			f := constant.ToInt(c.Value)
			n, _ := new(big.Int).SetString(f.ExactString(), 10)
			return bigT(n)
		}
		return cst("flt!"+sanit(c.Value.ExactString()), "Flt")
	}
	fail("constant %s", c)
	return nil
}

// sentinel error variables
var sentinels = map[string]int{}

func sentinel(key string) *Term {
	id, ok := sentinels[key]
	if !ok {
		id = len(sentinels) + 1
		sentinels[key] = id
	}
	return App("errs", intT(int64(id)))
}

func (x *Exec) globalPtr(st *State, g *ssa.Global) Val {
	name := "glob!" + g.Pkg.Pkg.Name() + "." + g.Name()
	t := deref(g.Type())
	id := x.lazyObj(name, func() *Obj {
		o := &Obj{T: t, Kind: "cell"}
		if isErrorType(t) {
			o.V = sentinel(g.Pkg.Pkg.Name() + "." + g.Name())
		}
		return o
	})
	return &PtrVal{T: t, Obj: id, Nil: tFalse}
}

// ---------- control flow ----------
func (x *Exec) runFunc(st *State, fn *ssa.Function, args []Val, bind []Val, parent *Frame, con *Contract, k func(st *State, rs []Val)) {
	if len(fn.Blocks) == 0 {
		fail("function %s has no body", fn)
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, con: con, ret: k, li: loopsOf(fn)}
	if parent != nil {
		fr.depth, fr.up = parent.depth+1, parent
		fr.stack = append(parent.stack[:len(parent.stack):len(parent.stack)], fn)
		for _, f := range parent.stack {
			if f == fn {
				fail("recursive call of %s without a contract", fnKey(fn))
			}
		}
		if fr.depth > 14 {
			fail("inlining too deep at %s", fnKey(fn))
		}
		fr.vars, fr.old = parent.vars, parent.old
		if con == nil {
			fr.con = parent.con // loops in extracted helpers may use the caller's invariants
		}
	} else {
		fr.stack = []*ssa.Function{fn}
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = bind[i]
	}
	x.execBlock(st, fr, fn.Blocks[0], nil)
}

func (x *Exec) execBlock(st *State, fr *Frame, b, prev *ssa.BasicBlock) {
	if st.dead {
		return
	}
	// leaving loops
	for len(fr.loops) > 0 {
		al := fr.loops[len(fr.loops)-1]
		if al.blocks[b] {
			break
		}
		if al.bodyOnly {
			return
		}
		fr = fr.clone()
		fr.loops = fr.loops[:len(fr.loops)-1]
	}
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	var vals []Val
	if prev != nil && len(phis) > 0 {
		pi := -1
		for i, p := range b.Preds {
			if p == prev {
				pi = i
			}
		}
		for _, p := range phis {
			vals = append(vals, x.value(st, fr, p.Edges[pi]))
		}
	}
	if l := fr.li.byHeader[b]; l != nil {
		if len(fr.loops) > 0 && fr.loops[len(fr.loops)-1].header == b {
			fr.loops[len(fr.loops)-1].back(st, fr, vals)
			return
		}
		x.enterLoop(st, fr, l, phis, vals)
		return
	}
	for i, p := range phis {
		fr.env[p] = vals[i]
	}
	x.execInstrs(st, fr, b, len(phis))
}

func (x *Exec) execInstrs(st *State, fr *Frame, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		if st.dead {
			return
		}
		x.nSteps++
		if x.nSteps > 400000 {
			fail("path explosion in %s", fnKey(x.root))
		}
		in := b.Instrs[i]
		switch ins := in.(type) {
		case *ssa.If:
			c := x.value(st, fr, ins.Cond).(*Term)
			if n := len(fr.loops); n > 0 && fr.loops[n-1].header == b && fr.loops[n-1].cond == nil {
				fr.loops[n-1].cond = c
			}
			if v, k := st.decide(c); k {
				t := b.Succs[0]
				if !v {
					t = b.Succs[1]
				}
				x.execBlock(st, fr, t, b)
				return
			}
			s2, f2 := st.clone(), fr.clone()
			st.assume(c)
			st.branch = append(st.branch, c)
			st.trail = append(st.trail, x.posOf(ins)+" then")
			if !st.dead {
				x.execBlock(st, fr, b.Succs[0], b)
			}
			s2.assume(Not(c))
			s2.branch = append(s2.branch, Not(c))
			s2.trail = append(s2.trail, x.posOf(ins)+" else")
			if !s2.dead {
				x.execBlock(s2, f2, b.Succs[1], b)
			}
			return
		case *ssa.Jump:
			x.execBlock(st, fr, b.Succs[0], b)
			return
		case *ssa.Return:
			var rs []Val
			for _, r := range ins.Results {
				rs = append(rs, x.value(st, fr, r))
			}
			for _, al := range fr.loops {
				if al.bodyOnly {
					return
				}
			}
			x.nPaths++
			if x.nPaths > 60000 {
				fail("too many paths in %s", fnKey(x.root))
			}
			fr.ret(st, rs)
			return
		case *ssa.Panic:
			x.oblige(st, "panic", "panic is unreachable", tFalse, x.posOf(ins), nil)
			return
		case *ssa.RunDefers:
			ds := fr.defers
			fr.defers = nil
			x.runDefers(st, fr, ds, func(s2 *State, f2 *Frame) {
				x.execInstrs(s2, f2, b, i+1)
			})
			return
		case *ssa.Defer:
			d := deferred{call: &ins.Call, instr: ins}
			if ins.Call.IsInvoke() {
				d.fn = x.value(st, fr, ins.Call.Value)
			} else if _, ok := ins.Call.Value.(*ssa.Builtin); !ok {
				d.fn = x.value(st, fr, ins.Call.Value)
			}
			for _, a := range ins.Call.Args {
				d.args = append(d.args, x.value(st, fr, a))
			}
			fr.defers = append(fr.defers, d)
		case *ssa.Call:
			var fv Val
			if _, ok := ins.Call.Value.(*ssa.Builtin); !ok {
				fv = x.value(st, fr, ins.Call.Value)
			}
			var args []Val
			for _, a := range ins.Call.Args {
				args = append(args, x.value(st, fr, a))
			}
			x.call(st, fr, ins, &ins.Call, fv, args, func(s2 *State, rs []Val) {
				f2 := fr.clone()
				f2.env[ins] = packResults(rs)
				x.execInstrs(s2, f2, b, i+1)
			})
			return
		case *ssa.Select:
			x.execSelect(st, fr, ins, func(s2 *State, v Val) {
				f2 := fr.clone()
				f2.env[ins] = v
				x.execInstrs(s2, f2, b, i+1)
			})
			return
		case *ssa.Next:
			x.execNext(st, fr, ins, func(s2 *State, v Val) {
				f2 := fr.clone()
				f2.env[ins] = v
				x.execInstrs(s2, f2, b, i+1)
			})
			return
		case *ssa.TypeAssert:
			x.execTypeAssert(st, fr, ins, func(s2 *State, v Val) {
				f2 := fr.clone()
				f2.env[ins] = v
				x.execInstrs(s2, f2, b, i+1)
			})
			return
		default:
			x.simple(st, fr, in)
		}
	}
}

// storedTo: the allocated cell, or a field of it, is assigned in the allocating function.
func storedTo(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		switch q := r.(type) {
		case *ssa.Store:
			if q.Addr == ssa.Value(a) {
				return true
			}
		case *ssa.FieldAddr:
			for _, r2 := range *q.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(q) {
					return true
				}
			}
		}
	}
	return false
}

func packResults(rs []Val) Val {
	switch len(rs) {
	case 0:
		return TupleVal{}
	case 1:
		return rs[0]
	}
	return TupleVal(rs)
}

func (x *Exec) runDefers(st *State, fr *Frame, ds []deferred, k func(*State, *Frame)) {
	if len(ds) == 0 {
		k(st, fr)
		return
	}
	d := ds[len(ds)-1]
	x.call(st, fr, d.instr, d.call, d.fn, d.args, func(s2 *State, _ []Val) {
		x.runDefers(s2, fr.clone(), ds[:len(ds)-1], k)
	})
}

// ---------- straight-line instructions ----------
func (x *Exec) simple(st *State, fr *Frame, in ssa.Instruction) {
	pos := x.posOf(in)
	set := func(v ssa.Value, r Val) { fr.env[v] = r }
	switch i := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		if n := shortType(deref(i.Type())); (n == "proto.Block" || n == "proto.MicroBlockInv") && !storedTo(i) {
			// filled in by decoding and immutable afterwards
			r := fresh("new", "Ref")
			st.assume(Ne(r, App("refnil")))
			set(i, &PtrVal{T: deref(i.Type()), Ref: r, Nil: tFalse})
			return
		}
		set(i, x.alloc(st, deref(i.Type()), i.Comment))
	case *ssa.BinOp:
		a, b := x.value(st, fr, i.X), x.value(st, fr, i.Y)
		if ph, ok := i.X.(*ssa.Phi); ok && ph.Comment == "rangeindex" && i.Op == token.ADD {
			set(i, Add(a.(*Term), b.(*Term))) // the index of a range loop is below the length
			return
		}
		set(i, x.binop(st, i.Op, a, b, i.X.Type(), i.Type(), pos))
	case *ssa.UnOp:
		v := x.value(st, fr, i.X)
		switch i.Op {
		case token.MUL:
			p := x.asPtr(st, v, i.X.Type())
			x.nonNil(st, p, pos)
			set(i, x.load(st, p))
		case token.NOT:
			set(i, Not(v.(*Term)))
		case token.SUB:
			set(i, x.wrap(Sub(intT(0), v.(*Term)), i.Type()))
		case token.ARROW:
			if i.CommaOk {
				set(i, TupleVal{x.symVal(st, x.freshName("recv"), i.Type().(*types.Tuple).At(0).Type()), fresh("recvok", "Bool")})
			} else {
				set(i, x.symVal(st, x.freshName("recv"), i.Type()))
			}
		default:
			fail("%s: unary %s", pos, i.Op)
		}
	case *ssa.ChangeType:
		v := x.value(st, fr, i.X)
		if _, isSl := v.(*SliceVal); isSl && shortType(i.Type()) == "net.IP" {
			v = x.ipTerm(st, v)
		}
		set(i, x.retype(v, i.Type()))
	case *ssa.ChangeInterface:
		set(i, x.value(st, fr, i.X))
	case *ssa.Convert:
		set(i, x.convert(st, x.value(st, fr, i.X), i.X.Type(), i.Type(), pos))
	case *ssa.MakeInterface:
		v := x.value(st, fr, i.X)
		if isErrorType(i.Type()) {
			e := fresh("err", "Err")
			st.assume(Ne(e, App("errnil")))
			set(i, e)
		} else {
			set(i, &IfaceVal{Dyn: i.X.Type(), V: v})
		}
	case *ssa.Extract:
		t := x.value(st, fr, i.Tuple)
		tv, ok := t.(TupleVal)
		if !ok || i.Index >= len(tv) {
			fail("%s: extract %d of %T", pos, i.Index, t)
		}
		set(i, tv[i.Index])
	case *ssa.Field:
		v := x.value(st, fr, i.X)
		sv, ok := v.(*StructVal)
		if !ok {
			fail("%s: field of %T (%s)", pos, v, i.X.Type())
		}
		set(i, sv.F[i.Field])
	case *ssa.FieldAddr:
		p := x.asPtr(st, x.value(st, fr, i.X), i.X.Type())
		x.nonNil(st, p, pos)
		set(i, x.fieldAddr(st, p, i.Field, pos))
	case *ssa.Index:
		v := x.value(st, fr, i.X)
		idx := x.value(st, fr, i.Index).(*Term)
		if t, ok := v.(*Term); ok && t.Sort == "Str" {
			x.bound(st, idx, App("slen", t), pos)
			r := App("sat", t, idx)
			st.assume(Ge(r, intT(0)), Le(r, intT(255)))
			x.bounds[r] = [2]*big.Int{big.NewInt(0), big.NewInt(255)}
			set(i, r)
			return
		}
		if s, ok := v.(*SliceVal); ok {
			x.bound(st, idx, s.Len, pos)
			set(i, x.loadElem(st, x.obj(st, s.Obj), Add(s.Off, idx)))
			return
		}
		fail("%s: index of %T", pos, v)
	case *ssa.IndexAddr:
		v := x.value(st, fr, i.X)
		idx := x.value(st, fr, i.Index).(*Term)
		switch s := v.(type) {
		case *SliceVal:
			x.bound(st, idx, s.Len, pos)
			set(i, &PtrVal{T: s.Elem, Obj: s.Obj, Path: []Step{{Idx: Add(s.Off, idx)}}, Nil: tFalse})
		case *PtrVal: // pointer to array
			at := s.T.Underlying().(*types.Array)
			x.nonNil(st, s, pos)
			x.bound(st, idx, intT(at.Len()), pos)
			set(i, &PtrVal{T: at.Elem(), Obj: s.Obj, Path: append(append([]Step{}, s.Path...), Step{Idx: idx}), Nil: tFalse})
		default:
			fail("%s: indexaddr of %T", pos, v)
		}
	case *ssa.Lookup:
		v := x.value(st, fr, i.X)
		kx := x.value(st, fr, i.Index)
		if t, ok := v.(*Term); ok && t.Sort == "Str" {
			idx := kx.(*Term)
			x.bound(st, idx, App("slen", t), pos)
			r := App("sat", t, idx)
			st.assume(Ge(r, intT(0)), Le(r, intT(255)))
			x.bounds[r] = [2]*big.Int{big.NewInt(0), big.NewInt(255)}
			set(i, r)
			return
		}
		m, ok := v.(*MapVal)
		if !ok {
			fail("%s: lookup in %T", pos, v)
		}
		mt := m.T
		kt := x.reify(st, kx, mt.Key())
		val, in := x.mapGet(st, m, kt)
		if i.CommaOk {
			set(i, TupleVal{val, in})
		} else {
			set(i, val)
		}
	case *ssa.MapUpdate:
		m := x.value(st, fr, i.Map).(*MapVal)
		kt := x.reify(st, x.value(st, fr, i.Key), m.T.Key())
		x.mapSet(st, m, kt, x.value(st, fr, i.Value), pos)
	case *ssa.MakeMap:
		set(i, x.newMap(st, i.Type()))
	case *ssa.MakeSlice:
		ln := x.value(st, fr, i.Len).(*Term)
		cp := x.value(st, fr, i.Cap).(*Term)
		x.oblige(st, "alloc", "make: 0 <= len <= cap and the allocation is bounded", And(Ge(ln, intT(0)), Le(ln, cp), Le(cp, intT(maxLen))), pos, nil)
		set(i, x.makeSlice(st, i.Type().Underlying().(*types.Slice).Elem(), ln, cp))
	case *ssa.MakeChan:
		set(i, fresh("chan", "Ref"))
	case *ssa.MakeClosure:
		f := &FuncVal{Fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			f.Bind = append(f.Bind, x.value(st, fr, b))
		}
		set(i, f)
	case *ssa.Slice:
		set(i, x.slice(st, fr, i, pos))
	case *ssa.Store:
		p := x.asPtr(st, x.value(st, fr, i.Addr), i.Addr.Type())
		x.nonNil(st, p, pos)
		x.store(st, p, x.value(st, fr, i.Val), pos)
	case *ssa.Range:
		v := x.value(st, fr, i.X)
		set(i, x.rangeOver(st, v, pos))
	case *ssa.Send:
		x.send(st, fr, x.value(st, fr, i.Chan), x.value(st, fr, i.X), i.X.Type(), pos)
	case *ssa.Go:
		x.notes["go statement at "+pos+" (the new goroutine is not verified as part of this function)"] = true
	default:
		fail("%s: instruction %T", pos, in)
	}
}

func (x *Exec) freshName(h string) string {
	freshCnt++
	return fmt.Sprintf("%s!%d", h, freshCnt)
}

func (x *Exec) retype(v Val, t types.Type) Val {
	switch a := v.(type) {
	case *StructVal:
		return &StructVal{T: t, F: a.F}
	case *SliceVal:
		return a
	case *MapVal:
		if m, ok := t.Underlying().(*types.Map); ok {
			return &MapVal{T: m, Obj: a.Obj, Nil: a.Nil}
		}
	}
	return v
}

func (x *Exec) alloc(st *State, t types.Type, name string) *PtrVal {
	if at, ok := t.Underlying().(*types.Array); ok {
		o := Obj{T: at.Elem(), Kind: "arr", New: true}
		if isByte(at.Elem()) {
			o.Segs = []Seg{mkSeg("zeros", intT(at.Len()))}
		} else {
			for k := int64(0); k < at.Len(); k++ {
				o.Elems = append(o.Elems, x.zeroVal(st, at.Elem()))
			}
			if o.Elems == nil {
				o.Elems = []Val{}
			}
		}
		return &PtrVal{T: t, Obj: x.newObj(st, o), Nil: tFalse}
	}
	switch shortType(t) {
	case "leveldb.Batch":
		return &PtrVal{T: t, Obj: x.newObj(st, Obj{T: t, Kind: "batch", New: true, G: map[string]Val{"ops": []batchOp{}}}), Nil: tFalse}
	}
	return &PtrVal{T: t, Obj: x.newObj(st, Obj{T: t, Kind: "cell", V: x.zeroVal(st, t), New: true}), Nil: tFalse}
}

func (x *Exec) makeSlice(st *State, elem types.Type, ln, cp *Term) *SliceVal {
	o := Obj{T: elem, Kind: "arr", New: true}
	if isByte(elem) {
		o.Segs = []Seg{mkSeg("zeros", ln)}
	} else {
		es := sortOf(elem)
		o.Arr = ConstArr(arrSort("Int", es), x.reify(st, x.zeroVal(st, elem), elem))
	}
	return &SliceVal{Elem: elem, Obj: x.newObj(st, o), Off: intT(0), Len: ln, Cap: cp, Nil: tFalse}
}

func (x *Exec) asPtr(st *State, v Val, t types.Type) *PtrVal {
	switch p := v.(type) {
	case *PtrVal:
		return p
	case *Term:
		if p.Sort == "Ref" {
			return &PtrVal{T: deref(t), Ref: p, Nil: Eq(p, App("refnil"))}
		}
		if p.Sort == "BigP" {
			return x.unreify(st, p, t).(*PtrVal)
		}
	}
	fail("not a pointer: %T", v)
	return nil
}

func (x *Exec) nonNil(st *State, p *PtrVal, pos string) {
	if p.Nil.isFalse() {
		return
	}
	x.oblige(st, "nil", "no nil dereference of *"+shortType(p.T), Not(p.Nil), pos, nil)
}

func (x *Exec) bound(st *State, idx, ln *Term, pos string) {
	g := And(Ge(idx, intT(0)), Lt(idx, ln))
	if v, k := st.decide(g); k && v {
		return
	}
	x.oblige(st, "bounds", "index within bounds", And(Ge(idx, intT(0)), Lt(idx, ln)), pos, nil)
}

func (x *Exec) fieldAddr(st *State, p *PtrVal, f int, pos string) *PtrVal {
	u, ok := p.T.Underlying().(*types.Struct)
	if !ok {
		fail("%s: field of %s", pos, p.T)
	}
	fd := u.Field(f)
	fresh := false // an object created by this function is not shared yet
	if o := x.existing(st, p.Obj); p.Ref == nil && o != nil {
		fresh = o.New
	}
	if g, ok := guards[shortType(p.T)+"."+fd.Name()]; ok && !fresh {
		x.oblige(st, "lock", "access to "+shortType(p.T)+"."+fd.Name()+" only with the lock held", Eq(x.ghost(st, g), intT(2)), pos, []string{"C22"})
	}
	if p.Ref != nil {
		n := &PtrVal{T: fd.Type(), Ref: p.Ref, Nil: tFalse}
		x.refRoot[n] = x.refBase(p) + "." + fd.Name()
		return n
	}
	return &PtrVal{T: fd.Type(), Obj: p.Obj, Path: append(append([]Step{}, p.Path...), Step{Field: f}), Nil: tFalse}
}

var guards = map[string]string{"peers.Registry.connections": "lkP", "peers.Registry.pending": "lkP"}

func (x *Exec) ghost(st *State, name string) *Term {
	if t, ok := st.ghosts[name]; ok {
		return t
	}
	d, ok := ghostDecls[name]
	if !ok {
		fail("undeclared ghost %s", name)
	}
	t := cst("g0!"+name, d.Sort)
	st.ghosts[name] = t
	return t
}

// ---------- arithmetic ----------
func (x *Exec) binop(st *State, op token.Token, a, b Val, xt, rt types.Type, pos string) Val {
	switch op {
	case token.EQL:
		return x.valEq(st, a, b)
	case token.NEQ:
		return Not(x.valEq(st, a, b))
	}
	ta, ok1 := a.(*Term)
	tb, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		fail("%s: operator %s on %T, %T", pos, op, a, b)
	}
	if ta.Sort == "Str" {
		switch op {
		case token.ADD:
			r := App("sconcat", ta, tb)
			st.assume(Eq(App("slen", r), Add(App("slen", ta), App("slen", tb))))
			return r
		case token.LSS:
			return App("strless", ta, tb)
		case token.GTR:
			return App("strless", tb, ta)
		}
		fail("%s: string operator %s", pos, op)
	}
	if ta.Sort == "Flt" || tb.Sort == "Flt" {
		switch op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return fresh("fltcmp", "Bool")
		}
		return fresh("flt", "Flt")
	}
	if ta.Sort == "Bool" {
		switch op {
		case token.AND, token.LAND:
			return And(ta, tb)
		case token.OR, token.LOR:
			return Or(ta, tb)
		}
	}
	switch op {
	case token.ADD:
		return x.wrap(Add(ta, tb), rt)
	case token.SUB:
		return x.wrap(Sub(ta, tb), rt)
	case token.MUL:
		return x.wrap(Mul(ta, tb), rt)
	case token.LSS:
		return Lt(ta, tb)
	case token.LEQ:
		return Le(ta, tb)
	case token.GTR:
		return Gt(ta, tb)
	case token.GEQ:
		return Ge(ta, tb)
	case token.QUO, token.REM:
		x.oblige(st, "div", "division by zero", Ne(tb, intT(0)), pos, nil)
		lo, _ := x.termBounds(ta)
		if tb.isInt() && tb.Int.Sign() > 0 && lo != nil && lo.Sign() >= 0 {
			if op == token.QUO {
				return Div(ta, tb)
			}
			return Mod(ta, tb)
		}
		q := Ite(Ge(ta, intT(0)), Div(ta, tb), Sub(intT(0), Div(Sub(intT(0), ta), tb)))
		if op == token.QUO {
			return x.wrap(q, rt)
		}
		return x.wrap(Sub(ta, Mul(q, tb)), rt)
	case token.SHL:
		x.oblige(st, "shift", "shift count is not negative", Ge(tb, intT(0)), pos, nil)
		var p *Term
		if tb.isInt() && tb.Int.IsInt64() && tb.Int.Int64() < 1000 {
			p = bigT(new(big.Int).Lsh(big.NewInt(1), uint(tb.Int.Int64())))
		} else {
			p = App("pow2", tb)
			st.assume(Ge(p, intT(1)))
		}
		return x.wrap(Mul(ta, p), rt)
	case token.SHR:
		x.oblige(st, "shift", "shift count is not negative", Ge(tb, intT(0)), pos, nil)
		if tb.isInt() && tb.Int.IsInt64() && tb.Int.Int64() < 1000 {
			return Div(ta, bigT(new(big.Int).Lsh(big.NewInt(1), uint(tb.Int.Int64()))))
		}
		return Div(ta, App("pow2", tb))
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		r := fresh("bits", "Int")
		st.assume(inRange(r, rt))
		x.setBounds(r, rt)
		if op == token.AND && tb.isInt() && tb.Int.Sign() >= 0 {
			st.assume(Ge(r, intT(0)), Le(r, tb))
		}
		return r
	}
	fail("%s: operator %s", pos, op)
	return nil
}

func (x *Exec) convert(st *State, v Val, from, to types.Type, pos string) Val {
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 {
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			return x.wrap(v.(*Term), to)
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
			return App("i2f", v.(*Term))
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
			r := App("f2i", v.(*Term))
			st.assume(inRange(r, to))
			x.setBounds(r, to)
			return r
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
			return v
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return v
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
			return fresh("str", "Str")
		}
	}
	if ok1 && fb.Info()&types.IsString != 0 {
		if s, ok := to.Underlying().(*types.Slice); ok && isByte(s.Elem()) {
			return x.bytesVal(st, App("bytesOfStr", v.(*Term)))
		}
	}
	if ok2 && tb.Info()&types.IsString != 0 {
		if s, ok := v.(*SliceVal); ok {
			return App("strOfBytes", x.reify(st, s, from))
		}
	}
	fail("%s: conversion %s -> %s", pos, from, to)
	return nil
}

// ---------- maps ----------
func (x *Exec) newMap(st *State, t types.Type) *MapVal {
	u := t.Underlying().(*types.Map)
	ks, vs := sortOf(u.Key()), sortOf(u.Elem())
	zv := x.reify(st, x.zeroVal(st, u.Elem()), u.Elem())
	id := x.newObj(st, Obj{T: t, Kind: "map", New: true, M: &MapC{ConstArr(arrSort(ks, "Bool"), tFalse), ConstArr(arrSort(ks, vs), zv), intT(0)}})
	return &MapVal{T: u, Obj: id, Nil: tFalse}
}

// mapGet: absent keys read as the zero value (the value array is kept zero outside the domain).
func (x *Exec) mapGet(st *State, m *MapVal, k *Term) (Val, *Term) {
	if m.Obj == 0 {
		return x.zeroVal(st, m.T.Elem()), tFalse
	}
	c := x.obj(st, m.Obj).M
	in := And(Not(m.Nil), Select(c.Dom, k))
	zv := x.reify(st, x.zeroVal(st, m.T.Elem()), m.T.Elem())
	v := Ite(in, Select(c.Val, k), zv)
	if mp, ok := m.T.Elem().Underlying().(*types.Interface); ok && !isErrorType(m.T.Elem()) {
		_ = mp
		return v, in
	}
	return x.unreify(st, v, m.T.Elem()), in
}

func (x *Exec) mapSet(st *State, m *MapVal, k *Term, v Val, pos string) {
	if !m.Nil.isFalse() {
		x.oblige(st, "nil", "no assignment to a nil map", Not(m.Nil), pos, nil)
	}
	if m.Obj == 0 {
		return
	}
	o := x.obj(st, m.Obj)
	if o.Frozen {
		x.oblige(st, "frame", "write to a shared map", tFalse, pos, nil)
		return
	}
	vt := x.reify(st, v, m.T.Elem())
	c := o.M
	n := x.mut(st, m.Obj)
	n.M = &MapC{Store(c.Dom, k, tTrue), Store(c.Val, k, vt), Add(c.Card, Ite(Select(c.Dom, k), intT(0), intT(1)))}
}

func (x *Exec) mapDelete(st *State, m *MapVal, k *Term, pos string) {
	if m.Obj == 0 {
		return
	}
	o := x.obj(st, m.Obj)
	if o.Frozen {
		x.oblige(st, "frame", "write to a shared map", tFalse, pos, nil)
		return
	}
	c := o.M
	n := x.mut(st, m.Obj)
	n.M = &MapC{Store(c.Dom, k, tFalse), c.Val, Sub(c.Card, Ite(Select(c.Dom, k), intT(1), intT(0)))}
}

// ---------- iterators over maps ----------
// A map range is a ghost sequence seq[0..n) of distinct keys that enumerates the domain.
func (x *Exec) rangeOver(st *State, v Val, pos string) Val {
	if t, ok := v.(*Term); ok && t.Sort == "Str" {
		return x.newIter(st, "strrange", map[string]Val{"str": t, "n": App("slen", t), "pos": intT(0)})
	}
	m, ok := v.(*MapVal)
	if !ok {
		fail("%s: range over %T", pos, v)
	}
	if m.Obj == 0 {
		return x.newIter(st, "maprange", map[string]Val{"n": intT(0), "pos": intT(0), "map": m})
	}
	c := x.obj(st, m.Obj).M
	ks, _ := arrParts(c.Dom.Sort)
	seq := fresh("seq", arrSort("Int", ks))
	ix := x.freshFun("seqidx", "Int", ks)
	n := Ite(m.Nil, intT(0), c.Card)
	i, k := bvar("i", "Int"), bvar("k", ks)
	st.assume(
		Forall([]*Term{i}, Imp(And(Ge(i, intT(0)), Lt(i, n)), And(Select(c.Dom, Select(seq, i)), Eq(App(ix, Select(seq, i)), i))), []*Term{Select(seq, i)}),
		Forall([]*Term{k}, Imp(And(Not(m.Nil), Select(c.Dom, k)), And(Ge(App(ix, k), intT(0)), Lt(App(ix, k), n), Eq(Select(seq, App(ix, k)), k))), []*Term{App(ix, k)}, []*Term{Select(c.Dom, k)}),
		Ge(n, intT(0)))
	return x.newIter(st, "maprange", map[string]Val{"n": n, "pos": intT(0), "seq": seq, "map": m, "idx": strVal(ix), "dom": c.Dom, "val": c.Val})
}

type strVal string
type batchOp struct {
	K *Term
	V *Term // OptB
}

func (x *Exec) freshFun(h, ret string, args ...string) string {
	freshCnt++
	n := fmt.Sprintf("%s!%d", h, freshCnt)
	declFun(n, ret, args...)
	return n
}

func (x *Exec) newIter(st *State, kind string, g map[string]Val) *PtrVal {
	id := x.newObj(st, Obj{T: iterType, Kind: "iter", New: true, G: g, Name: ""})
	g["kind"] = strVal(kind)
	return &PtrVal{T: iterType, Obj: id, Nil: tFalse}
}

var iterType = types.NewNamed(types.NewTypeName(0, nil, "iter", nil), types.NewStruct(nil, nil), nil)

func (x *Exec) execNext(st *State, fr *Frame, i *ssa.Next, k func(*State, Val)) {
	p := x.value(st, fr, i.Iter).(*PtrVal)
	o := x.obj(st, p.Obj)
	n, ps := o.G["n"].(*Term), o.G["pos"].(*Term)
	tt := i.Type().(*types.Tuple)
	if i.IsString {
		ok := Lt(ps, n)
		m := x.mut(st, p.Obj)
		np := fresh("pos", "Int")
		st.assume(Imp(ok, And(Gt(np, ps), Le(np, n))), Imp(Not(ok), Eq(np, ps)))
		m.G["pos"] = np
		r := fresh("rune", "Int")
		st.assume(Ge(r, intT(0)), Le(r, intT(0x10ffff)))
		k(st, TupleVal{ok, ps, r})
		return
	}
	ok := Lt(ps, n)
	st2 := st.clone()
	st.assume(ok)
	if !st.dead {
		key := Select(o.G["seq"].(*Term), ps)
		mv := o.G["map"].(*MapVal)
		val := Select(x.obj(st, mv.Obj).M.Val, key)
		m := x.mut(st, p.Obj)
		m.G["pos"] = Add(ps, intT(1))
		// the key is in the domain
		st.assume(Select(o.G["dom"].(*Term), key))
		kv := x.unreify(st, key, mv.T.Key())
		var vv Val = tTrue
		if tt.At(2).Type() != types.Typ[types.Invalid] {
			vv = x.unreify(st, val, mv.T.Elem())
		}
		k(st, TupleVal{tTrue, kv, vv})
	}
	st2.assume(Not(ok))
	if !st2.dead {
		var kz, vz Val = tTrue, tTrue
		if tt.At(1).Type() != types.Typ[types.Invalid] {
			kz = x.zeroVal(st2, tt.At(1).Type())
		}
		if tt.At(2).Type() != types.Typ[types.Invalid] {
			vz = x.zeroVal(st2, tt.At(2).Type())
		}
		k(st2, TupleVal{tFalse, kz, vz})
	}
}

// ---------- slices ----------
func (x *Exec) slice(st *State, fr *Frame, i *ssa.Slice, pos string) Val {
	v := x.value(st, fr, i.X)
	get := func(s ssa.Value) *Term {
		if s == nil {
			return nil
		}
		return x.value(st, fr, s).(*Term)
	}
	lo, hi := get(i.Low), get(i.High)
	if lo == nil {
		lo = intT(0)
	}
	switch s := v.(type) {
	case *SliceVal:
		if hi == nil {
			hi = s.Len
		}
		x.oblige(st, "bounds", "slice bounds", And(Ge(lo, intT(0)), Le(lo, hi), Le(hi, s.Cap)), pos, nil)
		nl := s.Nil
		if !nl.isFalse() && !nl.isTrue() {
			// s[lo:hi] of a nil slice is nil
		}
		return &SliceVal{Elem: s.Elem, Obj: s.Obj, Off: Add(s.Off, lo), Len: Sub(hi, lo), Cap: Sub(s.Cap, lo), Nil: nl}
	case *PtrVal:
		at := s.T.Underlying().(*types.Array)
		x.nonNil(st, s, pos)
		if hi == nil {
			hi = intT(at.Len())
		}
		x.oblige(st, "bounds", "slice bounds", And(Ge(lo, intT(0)), Le(lo, hi), Le(hi, intT(at.Len()))), pos, nil)
		if len(s.Path) > 0 {
			fail("%s: slice of an array inside a struct", pos)
		}
		o := x.obj(st, s.Obj)
		if o.Kind == "cell" { // array-valued cell
			if sv, ok := o.V.(*SliceVal); ok {
				return &SliceVal{Elem: at.Elem(), Obj: sv.Obj, Off: lo, Len: Sub(hi, lo), Cap: Sub(intT(at.Len()), lo), Nil: tFalse}
			}
		}
		return &SliceVal{Elem: at.Elem(), Obj: s.Obj, Off: lo, Len: Sub(hi, lo), Cap: Sub(intT(at.Len()), lo), Nil: tFalse}
	case *Term:
		if s.Sort == "Str" {
			if hi == nil {
				hi = App("slen", s)
			}
			x.oblige(st, "bounds", "string slice bounds", And(Ge(lo, intT(0)), Le(lo, hi), Le(hi, App("slen", s))), pos, nil)
			r := App("ssub", s, lo, hi)
			st.assume(Eq(App("slen", r), Sub(hi, lo)))
			return r
		}
	}
	fail("%s: slice of %T", pos, v)
	return nil
}

// appendVals: append(s, vs...) as a new value (the backing array is never shared with s).
func (x *Exec) appendVals(st *State, s *SliceVal, t *SliceVal, pos string) Val {
	so, to := x.obj(st, s.Obj), x.obj(st, t.Obj)
	nl := Add(s.Len, t.Len)
	if lo, hi := x.termBounds(nl); lo == nil || hi.Cmp(big.NewInt(maxLen)) > 0 {
		// no collection grows beyond the assumed bound
		st.assume(Le(nl, intT(maxLen)))
		x.bounds[nl] = [2]*big.Int{big.NewInt(0), big.NewInt(maxLen)}
	}
	if isByte(s.Elem) {
		a, ok1 := subSegs(so.Segs, s.Off, s.Len)
		b, ok2 := subSegs(to.Segs, t.Off, t.Len)
		var segs []Seg
		if ok1 && ok2 {
			segs = append(append([]Seg{}, a...), b...)
		} else {
			segs = []Seg{{"raw", fresh("rawbytes", "Bytes"), nl}}
		}
		return &SliceVal{Elem: s.Elem, Obj: x.newObj(st, Obj{T: s.Elem, Kind: "arr", Segs: segs, New: true}), Off: intT(0), Len: nl, Cap: nl, Nil: And(s.Nil, Eq(t.Len, intT(0)))}
	}
	cp := fresh("cap", "Int")
	st.assume(Ge(cp, nl), Le(cp, intT(maxLen)))
	mkNew := func(arr *Term) Val {
		return &SliceVal{Elem: s.Elem, Obj: x.newObj(st, Obj{T: s.Elem, Kind: "arr", Arr: arr, New: true}), Off: intT(0), Len: nl, Cap: cp, Nil: And(s.Nil, Eq(t.Len, intT(0)))}
	}
	arr := x.sliceArr(st, s)
	if t.Len.isInt() && t.Len.Int.Int64() <= 16 {
		for j := int64(0); j < t.Len.Int.Int64(); j++ {
			e := x.loadElem(st, to, Add(t.Off, intT(j)))
			arr = Store(arr, Add(s.Len, intT(j)), x.reify(st, e, s.Elem))
		}
		return mkNew(arr)
	}
	tarr := x.sliceArr(st, t)
	es := sortOf(s.Elem)
	n := fresh("app", arrSort("Int", es))
	j := bvar("j", "Int")
	st.assume(Forall([]*Term{j}, Eq(Select(n, j), Ite(Lt(j, s.Len), Select(arr, j), Select(tarr, Sub(j, s.Len)))), []*Term{Select(n, j)}))
	st.assume(Forall([]*Term{j}, Imp(Ge(j, intT(0)), Eq(Select(tarr, j), Select(n, Add(j, s.Len)))), []*Term{Select(tarr, j)}))
	return mkNew(n)
}

func (x *Exec) execTypeAssert(st *State, fr *Frame, i *ssa.TypeAssert, k func(*State, Val)) {
	pos := x.posOf(i)
	v := x.value(st, fr, i.X)
	at := i.AssertedType
	finish := func(s *State, val Val, ok *Term) {
		if i.CommaOk {
			k(s, TupleVal{val, ok})
		} else {
			x.oblige(s, "typeassert", "type assertion holds", ok, pos, nil)
			k(s, val)
		}
	}
	if iv, ok := v.(*IfaceVal); ok {
		_, isI := at.Underlying().(*types.Interface)
		good := false
		if isI {
			good = types.Implements(iv.Dyn, at.Underlying().(*types.Interface))
		} else {
			good = types.Identical(iv.Dyn, at)
		}
		if good {
			r := iv.V
			if isI {
				r = iv
			}
			finish(st, r, tTrue)
		} else {
			finish(st, x.zeroVal(st, at), tFalse)
		}
		return
	}
	t, ok := v.(*Term)
	if !ok {
		fail("%s: type assertion on %T", pos, v)
	}
	if _, isI := at.Underlying().(*types.Interface); isI {
		f := "implements_" + sanit(shortType(at))
		declFun(f, "Bool", t.Sort)
		finish(st, t, App(f, t))
		return
	}
	f := "dyntype"
	declFun(f, "Int", "Ref")
	if t.Sort != "Ref" {
		fail("%s: type assertion on %s", pos, t.Sort)
	}
	c := And(Ne(t, App("refnil")), Eq(App(f, t), intT(typeID(at))))
	if vk, kn := st.decide(c); kn {
		if vk {
			finish(st, x.dynVal(st, t, at), tTrue)
		} else {
			finish(st, x.zeroVal(st, at), tFalse)
		}
		return
	}
	if !i.CommaOk {
		x.oblige(st, "typeassert", "type assertion holds", c, pos, nil)
		k(st, x.dynVal(st, t, at))
		return
	}
	s2 := st.clone()
	st.assume(c)
	if !st.dead {
		k(st, TupleVal{x.dynVal(st, t, at), tTrue})
	}
	s2.assume(Not(c))
	if !s2.dead {
		k(s2, TupleVal{x.zeroVal(s2, at), tFalse})
	}
}

var typeIDs = map[string]int64{}

func typeID(t types.Type) int64 {
	s := shortType(t)
	if _, ok := typeIDs[s]; !ok {
		typeIDs[s] = int64(len(typeIDs) + 1)
	}
	return typeIDs[s]
}

func (x *Exec) dynVal(st *State, t *Term, at types.Type) Val {
	if p, ok := at.Underlying().(*types.Pointer); ok {
		return &PtrVal{T: p.Elem(), Ref: t, Nil: tFalse}
	}
	so := sortOf(at)
	f := "dynval_" + sanit(shortType(at))
	declFun(f, so, "Ref")
	return x.unreify(st, App(f, t), at)
}

// ipTerm is the IP address held by a byte slice.
func (x *Exec) ipTerm(st *State, v Val) *Term {
	if t, ok := v.(*Term); ok {
		return t
	}
	return App("ipOf", x.bTerm(st, v))
}
