package main

// A model of github.com/qmuntal/stateless (queued mode): the transition table
// is read from the code that configures the machine, and Fire executes the
// real actions of the table for every possible current state.
//
// Ghost state (declared by the specification): fsm (state of a machine),
// fsmPend (the queued trigger, -1 if none), fsmFire (a trigger is being
// processed), fsmOwner (the object whose methods are the machine's actions).

import (
	"go/constant"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type fsmAct struct {
	fn   *ssa.Function
	n    int // number of bindings
	trig *int64
}
type fsmBeh struct {
	kind string
	dest int64
	act  *fsmAct
}
type fsmTable struct {
	states        []int64
	entry, exit   map[int64][]fsmAct
	beh           map[int64]map[int64]fsmBeh
	params        map[int64][]types.Type
	stateT, trigT types.Type
	trigs         map[int64]bool
	owner         types.Type
}

const smKey = "(*stateless.StateMachine)."
const scKey = "(*stateless.StateConfiguration)."

var fsmCache *fsmTable

func ifaceConst(v ssa.Value) (int64, types.Type) {
	m, ok := v.(*ssa.MakeInterface)
	if ok {
		if c, ok := m.X.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
			return c.Int64(), m.X.Type()
		}
	}
	fail("state machine: a state or a trigger is not a constant")
	return 0, nil
}

func varargs(v ssa.Value) []ssa.Value {
	if c, ok := v.(*ssa.Const); ok && c.IsNil() {
		return nil
	}
	s, ok := v.(*ssa.Slice)
	if !ok {
		fail("state machine: arguments are not a literal list")
	}
	a, ok := s.X.(*ssa.Alloc)
	if !ok {
		fail("state machine: arguments are not a literal list")
	}
	n := int(a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
	r := make([]ssa.Value, n)
	for _, u := range *a.Referrers() {
		if ia, ok := u.(*ssa.IndexAddr); ok {
			i, _ := constant.Int64Val(ia.Index.(*ssa.Const).Value)
			for _, w := range *ia.Referrers() {
				if st, ok := w.(*ssa.Store); ok {
					r[i] = st.Val
				}
			}
		}
	}
	return r
}

func (x *Exec) fsmTable() *fsmTable {
	if fsmCache != nil {
		return fsmCache
	}
	var mk []*ssa.Function
	for _, fn := range allFuncs(x.prog) {
		if !inRepo(fn) || fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() != nil && fnKey(c.Call.StaticCallee()) == "stateless.NewStateMachine" {
					mk = append(mk, fn)
				}
			}
		}
	}
	if len(mk) != 1 {
		fail("state machine: %d places create one", len(mk))
	}
	t := &fsmTable{entry: map[int64][]fsmAct{}, exit: map[int64][]fsmAct{}, beh: map[int64]map[int64]fsmBeh{}, params: map[int64][]types.Type{}, trigs: map[int64]bool{}}
	seen := map[int64]bool{}
	addState := func(s int64) {
		if !seen[s] {
			seen[s] = true
			t.states = append(t.states, s)
			t.beh[s] = map[int64]fsmBeh{}
		}
	}
	var stateOf func(v ssa.Value) int64
	stateOf = func(v ssa.Value) int64 {
		c, ok := v.(*ssa.Call)
		if !ok || c.Call.StaticCallee() == nil {
			fail("state machine: the configured state is not known")
		}
		k := fnKey(c.Call.StaticCallee())
		if k == smKey+"Configure" {
			s, ty := ifaceConst(c.Call.Args[1])
			t.stateT = ty
			return s
		}
		return stateOf(c.Call.Args[0])
	}
	action := func(v ssa.Value) fsmAct {
		for {
			if c, ok := v.(*ssa.ChangeType); ok {
				v = c.X
				continue
			}
			break
		}
		switch m := v.(type) {
		case *ssa.MakeClosure:
			for _, b := range m.Bindings {
				if t.owner != nil && !types.Identical(b.Type(), t.owner) {
					fail("state machine: an action captures values of different types")
				}
				t.owner = b.Type()
			}
			return fsmAct{fn: m.Fn.(*ssa.Function), n: len(m.Bindings)}
		case *ssa.Function:
			return fsmAct{fn: m}
		}
		fail("state machine: an action is not a function of the program")
		return fsmAct{}
	}
	var walk func(fn *ssa.Function, depth int)
	hasConf := map[*ssa.Function]int{}
	var conf func(fn *ssa.Function, depth int) bool
	conf = func(fn *ssa.Function, depth int) bool {
		if depth > 6 || !inRepo(fn) {
			return false
		}
		if v := hasConf[fn]; v != 0 {
			return v == 2
		}
		hasConf[fn] = 1
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil {
					f := c.Common().StaticCallee()
					k := fnKey(f)
					if len(k) > len(scKey) && k[:len(scKey)] == scKey || k == smKey+"Configure" || k == smKey+"SetTriggerParameters" || conf(f, depth+1) {
						hasConf[fn] = 2
						return true
					}
				}
			}
		}
		return false
	}
	walk = func(fn *ssa.Function, depth int) {
		for bi, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() == nil {
					continue
				}
				f := ci.Common().StaticCallee()
				a := ci.Common().Args
				k := fnKey(f)
				isSC := len(k) > len(scKey) && k[:len(scKey)] == scKey
				isSM := k == smKey+"SetTriggerParameters" || k == smKey+"Configure"
				if (isSC || isSM || conf(f, 0)) && (bi != 0 || len(fn.Blocks) > 1 && fn.Recover == nil && bi != 0) {
					fail("state machine: conditional configuration in %s", fnKey(fn))
				}
				if _, isCall := in.(*ssa.Call); !isCall && (isSC || isSM || conf(f, 0)) {
					fail("state machine: deferred configuration")
				}
				switch {
				case isSC:
					s := stateOf(a[0])
					addState(s)
					trig := func() int64 {
						n, ty := ifaceConst(a[1])
						t.trigT = ty
						t.trigs[n] = true
						return n
					}
					put := func(tr int64, bh fsmBeh, guards ssa.Value) {
						if len(varargs(guards)) != 0 {
							fail("state machine: guards are not modelled")
						}
						if _, dup := t.beh[s][tr]; dup {
							fail("state machine: two behaviours for trigger %d in state %d", tr, s)
						}
						t.beh[s][tr] = bh
					}
					switch k[len(scKey):] {
					case "Permit":
						d, _ := ifaceConst(a[2])
						if d == s {
							fail("state machine: Permit with the same state panics")
						}
						put(trig(), fsmBeh{kind: "permit", dest: d}, a[3])
						addState(d)
					case "Ignore":
						put(trig(), fsmBeh{kind: "ignore"}, a[2])
					case "InternalTransition":
						ac := action(a[2])
						put(trig(), fsmBeh{kind: "internal", act: &ac}, a[3])
					case "PermitReentry":
						put(trig(), fsmBeh{kind: "reentry", dest: s}, a[2])
					case "OnEntry":
						t.entry[s] = append(t.entry[s], action(a[1]))
					case "OnExit":
						t.exit[s] = append(t.exit[s], action(a[1]))
					case "OnEntryFrom":
						ac := action(a[2])
						n := trig()
						ac.trig = &n
						t.entry[s] = append(t.entry[s], ac)
					default:
						fail("state machine: %s is not modelled", k)
					}
				case k == smKey+"Configure":
					s, ty := ifaceConst(a[1])
					t.stateT = ty
					addState(s)
				case k == smKey+"SetTriggerParameters":
					n, _ := ifaceConst(a[1])
					l := []types.Type{}
					for _, v := range varargs(a[2]) {
						c, ok := v.(*ssa.Call)
						if !ok || c.Call.StaticCallee() == nil || fnKey(c.Call.StaticCallee()) != "reflect.TypeOf" {
							fail("state machine: unknown parameter type")
						}
						m, ok := c.Call.Args[0].(*ssa.MakeInterface)
						if !ok {
							fail("state machine: unknown parameter type")
						}
						l = append(l, m.X.Type())
					}
					if _, dup := t.params[n]; dup {
						fail("state machine: parameters of trigger %d are configured twice", n)
					}
					t.params[n] = l
				case conf(f, 0):
					if depth > 6 {
						fail("state machine: configuration is too deep")
					}
					walk(f, depth+1)
				}
			}
		}
	}
	walk(mk[0], 0)
	fsmCache = t
	return t
}

func allFuncs(prog *ssa.Program) []*ssa.Function {
	var r []*ssa.Function
	for _, p := range prog.AllPackages() {
		if p == nil || len(p.Pkg.Path()) < len(modulePath) || p.Pkg.Path()[:len(modulePath)] != modulePath {
			continue
		}
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := p.Members[n].(type) {
			case *ssa.Function:
				r = append(r, m)
				r = append(r, m.AnonFuncs...)
			case *ssa.Type:
				for _, ty := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(ty)
					for i := 0; i < ms.Len(); i++ {
						if f := prog.MethodValue(ms.At(i)); f != nil && f.Pkg == p {
							r = append(r, f)
						}
					}
				}
			}
		}
	}
	return r
}

func (x *Exec) smRef(st *State, v Val, pos string) *Term {
	p, ok := v.(*PtrVal)
	if !ok {
		fail("%s: state machine is %T", pos, v)
	}
	x.nonNil(st, p, pos)
	return x.refOf(st, p)
}

func (x *Exec) fsmGet(st *State, g string, sm *Term) *Term { return Select(x.ghost(st, g), sm) }
func (x *Exec) fsmSet(st *State, g string, sm, v *Term) {
	st.ghosts[g] = Store(x.ghost(st, g), sm, v)
}

// ownerPtr finds the object that owns the machine.
func (x *Exec) ownerPtr(st *State, fr *Frame, sm *Term, t *fsmTable) *PtrVal {
	o := x.fsmGet(st, "fsmOwner", sm)
	el := t.owner.Underlying().(*types.Pointer).Elem()
	for f := fr; f != nil; f = f.up {
		for _, p := range append(append([]*ssa.Parameter{}, f.fn.Params...)) {
			if types.Identical(p.Type(), t.owner) {
				if pv, ok := f.env[p].(*PtrVal); ok && x.quick(st, Eq(o, x.refOf(st, pv))) {
					return pv
				}
			}
		}
		for _, p := range f.fn.Params { // a field of a parameter
			pv, ok := f.env[p].(*PtrVal)
			if !ok || pv.Nil == tTrue {
				continue
			}
			if s, ok := pv.T.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if types.Identical(s.Field(i).Type(), t.owner) {
						q := x.load(st, &PtrVal{T: s.Field(i).Type(), Obj: pv.Obj, Path: append(append([]Step{}, pv.Path...), Step{Field: i}), Nil: tFalse, Ref: nil})
						if qp, ok := q.(*PtrVal); ok && x.quick(st, Eq(o, x.refOf(st, qp))) {
							return qp
						}
					}
				}
			}
		}
	}
	return &PtrVal{T: el, Ref: o, Nil: tFalse}
}

func (x *Exec) fsmFireOne(st *State, ci *callInfo, t *fsmTable, sm *Term, own *PtrVal, trig int64, args *SliceVal, depth int, k func(*State, *Term)) {
	if depth > 6 {
		fail("%s: state machine: triggers are queued without end", ci.pos)
	}
	if ps, ok := t.params[trig]; ok {
		n, known := args.Len, args.Len.Op == "int"
		if !known || n.Int.Int64() != int64(len(ps)) {
			x.oblige(st, "panic", "a trigger is fired with the configured number of parameters", Eq(args.Len, intT(int64(len(ps)))), ci.pos, nil)
		}
		if known && n.Int.Int64() == int64(len(ps)) {
			for i, p := range ps {
				v := x.load(st, &PtrVal{T: types.NewInterfaceType(nil, nil), Obj: args.Obj, Path: []Step{{Idx: Add(args.Off, intT(int64(i)))}}, Nil: tFalse})
				iv, ok := v.(*IfaceVal)
				if !ok || !types.ConvertibleTo(iv.Dyn, p) {
					x.oblige(st, "panic", "a trigger is fired with parameters of the configured types", tFalse, ci.pos, nil)
				}
			}
		}
	}
	ctx := x.symVal(st, x.freshName("ctx"), t.ctxType(t))
	act := func(s *State, a fsmAct, k func(*State, *Term)) {
		var bind []Val
		if a.n > 0 {
			bind = []Val{own}
		}
		x.callFunc(s, ci.fr, a.fn, []Val{ctx, args}, bind, nil, ci.pos, func(s2 *State, rs []Val) { k(s2, rs[0].(*Term)) })
	}
	var acts func(s *State, l []fsmAct, k func(*State, *Term))
	acts = func(s *State, l []fsmAct, k func(*State, *Term)) {
		if len(l) == 0 {
			k(s, App("errnil"))
			return
		}
		if l[0].trig != nil && *l[0].trig != trig {
			acts(s, l[1:], k)
			return
		}
		act(s, l[0], func(s2 *State, e *Term) {
			x.ifErr(s2, e, k, func(s3 *State) { acts(s3, l[1:], k) })
		})
	}
	cur := x.fsmGet(st, "fsm", sm)
	forks := append([]int64{}, t.states...)
	for _, sv := range append(forks, -99) {
		s := st.clone()
		if sv == -99 {
			for _, o := range forks {
				s.assume(Ne(cur, intT(o)))
			}
		} else {
			s.assume(Eq(cur, intT(sv)))
		}
		if s.dead || x.quick(s, tFalse) {
			continue
		}
		b, ok := t.beh[sv][trig]
		if !ok {
			e := fresh("fsmerr", "Err")
			s.assume(Ne(e, App("errnil")))
			k(s, e)
			continue
		}
		switch b.kind {
		case "ignore":
			k(s, App("errnil"))
		case "internal":
			act(s, *b.act, k)
		case "permit", "reentry":
			acts(s, t.exit[sv], func(s2 *State, e *Term) {
				x.ifErr(s2, e, k, func(s3 *State) {
					if b.kind == "permit" {
						x.fsmSet(s3, "fsm", sm, intT(b.dest))
					}
					acts(s3, t.entry[b.dest], k)
				})
			})
		}
	}
}

func (x *Exec) ifErr(st *State, e *Term, bad func(*State, *Term), good func(*State)) {
	c := Eq(e, App("errnil"))
	if v, kn := st.decide(c); kn {
		if v {
			good(st)
		} else {
			bad(st, e)
		}
		return
	}
	s := st.clone()
	s.assume(Not(c))
	if !s.dead {
		bad(s, e)
	}
	st.assume(c)
	if !st.dead {
		good(st)
	}
}

func (t *fsmTable) ctxType(*fsmTable) types.Type {
	for _, l := range t.entry {
		for _, a := range l {
			return a.fn.Signature.Params().At(0).Type()
		}
	}
	for _, m := range t.beh {
		for _, b := range m {
			if b.act != nil {
				return b.act.fn.Signature.Params().At(0).Type()
			}
		}
	}
	return types.Universe.Lookup("any").Type()
}

func (x *Exec) fsmDrain(st *State, ci *callInfo, t *fsmTable, sm *Term, own *PtrVal, trig int64, args *SliceVal, depth int, k kont) {
	x.fsmSet(st, "fsmFire", sm, tTrue)
	x.fsmFireOne(st, ci, t, sm, own, trig, args, depth, func(s *State, e *Term) {
		x.fsmSet(s, "fsmFire", sm, tFalse)
		x.ifErr(s, e, func(s2 *State, e *Term) { k(s2, []Val{e}) }, func(s2 *State) {
			p := x.fsmGet(s2, "fsmPend", sm)
			var ts []int64
			for tr := range t.trigs {
				ts = append(ts, tr)
			}
			sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
			for _, tr := range append([]int64{-1}, ts...) {
				s3 := s2.clone()
				s3.assume(Eq(p, intT(tr)))
				if s3.dead || x.quick(s3, tFalse) {
					continue
				}
				if tr == -1 {
					k(s3, []Val{App("errnil")})
					continue
				}
				x.fsmSet(s3, "fsmPend", sm, intT(-1))
				x.fsmDrain(s3, ci, t, sm, own, tr, x.nilSlice(s3, types.Universe.Lookup("any").Type()), depth+1, k)
			}
			s4 := s2
			g := []*Term{Eq(p, intT(-1))}
			for _, tr := range ts {
				g = append(g, Eq(p, intT(tr)))
			}
			x.oblige(s4, "panic", "only known triggers are queued", Or(g...), ci.pos, nil)
		})
	})
}

func init() {
	reg(func(x *Exec, st *State, ci *callInfo, k kont) {
		v := x.symVal(st, x.freshName("sm"), ci.sig.Results().At(0).Type())
		p := v.(*PtrVal)
		st.assume(Not(p.Nil))
		sm := x.refOf(st, p)
		st.assume(Ne(sm, App("refnil")))
		iv, ok := ci.args[0].(*IfaceVal)
		if !ok {
			fail("%s: the initial state is not known", ci.pos)
		}
		x.fsmSet(st, "fsm", sm, iv.V.(*Term))
		x.fsmSet(st, "fsmPend", sm, intT(-1))
		x.fsmSet(st, "fsmFire", sm, tFalse)
		x.fsmSet(st, "fsmOwner", sm, App("refnil"))
		k(st, []Val{p})
	}, "stateless.NewStateMachine")
	reg(func(x *Exec, st *State, ci *callInfo, k kont) {
		x.smRef(st, ci.args[0], ci.pos)
		k(st, nil)
	}, smKey+"SetTriggerParameters")
	reg(func(x *Exec, st *State, ci *callInfo, k kont) {
		declFun("fsm_sc", "Ref", "Ref")
		sm := x.smRef(st, ci.args[0], ci.pos)
		k(st, []Val{&PtrVal{T: ci.sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem(), Ref: App("fsm_sc", sm), Nil: tFalse}})
	}, smKey+"Configure")
	for _, m := range []string{"Permit", "Ignore", "InternalTransition", "PermitReentry", "OnEntry", "OnExit", "OnEntryFrom"} {
		reg(func(x *Exec, st *State, ci *callInfo, k kont) {
			p, ok := ci.args[0].(*PtrVal)
			if !ok || p.Ref == nil || p.Ref.Name != "fsm_sc" {
				fail("%s: the configured state machine is not known", ci.pos)
			}
			sm := p.Ref.Args[0]
			for _, a := range ci.args[1:] {
				if f, ok := a.(*FuncVal); ok {
					for _, b := range f.Bind {
						bp, ok := b.(*PtrVal)
						if !ok {
							fail("%s: an action captures %T", ci.pos, b)
						}
						o := x.refOf(st, bp)
						c := x.fsmGet(st, "fsmOwner", sm)
						x.oblige(st, "model", "all actions of a state machine belong to one object", Or(Eq(c, App("refnil")), Eq(c, o)), ci.pos, nil)
						x.fsmSet(st, "fsmOwner", sm, o)
					}
				}
			}
			k(st, []Val{p})
		}, scKey+m)
	}
	reg(func(x *Exec, st *State, ci *callInfo, k kont) {
		t := x.fsmTable()
		sm := x.smRef(st, ci.args[0], ci.pos)
		k(st, []Val{&IfaceVal{Dyn: t.stateT, V: x.fsmGet(st, "fsm", sm)}})
	}, smKey+"MustState")
	reg(func(x *Exec, st *State, ci *callInfo, k kont) {
		t := x.fsmTable()
		x.notes["github.com/qmuntal/stateless: Fire is modelled in queued mode by the table read from the configuration code"] = true
		sm := x.smRef(st, ci.args[0], ci.pos)
		iv, ok := ci.args[1].(*IfaceVal)
		if !ok {
			fail("%s: the fired trigger is not known", ci.pos)
		}
		tv, ok := iv.V.(*Term)
		if !ok || tv.Op != "int" || !types.Identical(iv.Dyn, t.trigT) {
			fail("%s: the fired trigger is not a constant", ci.pos)
		}
		trig := tv.Int.Int64()
		args, ok := ci.args[2].(*SliceVal)
		if !ok {
			fail("%s: arguments of a trigger are %T", ci.pos, ci.args[2])
		}
		own := x.ownerPtr(st, ci.fr, sm, t)
		enqueue := func(s *State) {
			x.oblige(s, "model", "no second trigger is queued", Eq(x.fsmGet(s, "fsmPend", sm), intT(-1)), ci.pos, nil)
			x.oblige(s, "model", "a queued trigger has no arguments", Eq(args.Len, intT(0)), ci.pos, nil)
			x.fsmSet(s, "fsmPend", sm, intT(trig))
			k(s, []Val{App("errnil")})
		}
		run := func(s *State) {
			x.oblige(s, "model", "no trigger is queued before a new one", Eq(x.fsmGet(s, "fsmPend", sm), intT(-1)), ci.pos, nil)
			x.fsmDrain(s, ci, t, sm, own, trig, args, 0, k)
		}
		f := x.fsmGet(st, "fsmFire", sm)
		if v, kn := st.decide(f); kn {
			if v {
				enqueue(st)
			} else {
				run(st)
			}
			return
		}
		s2 := st.clone()
		s2.assume(f)
		if !s2.dead && !x.quick(s2, tFalse) {
			enqueue(s2)
		}
		st.assume(Not(f))
		if !st.dead && !x.quick(st, tFalse) {
			run(st)
		}
	}, smKey+"Fire")
	pureFn("reflect.TypeOf", func(x *Exec, st *State, ci *callInfo) []Val {
		return []Val{x.symVal(st, x.freshName("rtype"), ci.sig.Results().At(0).Type())}
	})
}
