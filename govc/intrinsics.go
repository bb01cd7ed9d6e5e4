package main

import (
	"go/types"
	"math"
	"math/big"
	"net/netip"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type kont = func(*State, []Val)

func reg(f intrinsic, keys ...string) {
	for _, k := range keys {
		intrinsics[k] = f
	}
}

// pureFn registers a function that is a total pure function of its arguments.
func pureFn(key string, f func(x *Exec, st *State, ci *callInfo) []Val) {
	intrinsics[key] = func(x *Exec, st *State, ci *callInfo, k func(*State, []Val)) {
		rs := f(x, st, ci)
		if !st.dead {
			k(st, rs)
		}
	}
}

func tArg(ci *callInfo, i int) *Term {
	t, ok := ci.args[i].(*Term)
	if !ok {
		fail("%s: argument %d of %s is %T", ci.pos, i, ci.key, ci.args[i])
	}
	return t
}

func (x *Exec) pkgName(ci *callInfo) string {
	if ci.fr != nil {
		for f := ci.fr.fn; f != nil; f = f.Parent() {
			if f.Pkg != nil {
				return f.Pkg.Pkg.Name()
			}
		}
	}
	if x.root != nil && x.root.Pkg != nil {
		return x.root.Pkg.Pkg.Name()
	}
	return ""
}

func (x *Exec) dbGhost(ci *callInfo) string {
	if x.pkgName(ci) == "peers" {
		return "P"
	}
	return "D"
}
func (x *Exec) lockGhost(ci *callInfo) string {
	if x.pkgName(ci) == "peers" {
		return "lkP"
	}
	return "lkD"
}

// ioErr is a fresh storage error (never one of the sentinels).
func (x *Exec) ioErr(st *State) *Term {
	if gd := ghostDecls["io"]; gd != nil && x.relevant(gd.Props) {
		st.ghosts["io"] = tTrue // some storage access failed
	}
	return App("errio", fresh("ioerr", "Int"))
}

// libErr is a fresh error of a library function that is not a storage failure.
func (x *Exec) libErr(st *State) *Term {
	return App("errn", fresh("liberr", "Int"))
}

// outcome runs the continuation once for success and once for failure.
func (x *Exec) twoWay(st *State, label string, okf func(s *State) []Val, errf func(s *State) []Val, k kont) {
	s2 := st.clone()
	st.trail = append(st.trail, label+" succeeds")
	rs := okf(st)
	if !st.dead {
		k(st, rs)
	}
	s2.trail = append(s2.trail, label+" fails")
	rs2 := errf(s2)
	if !s2.dead {
		k(s2, rs2)
	}
}

func (x *Exec) snapView(st *State, p *PtrVal) *Term {
	o := x.obj(st, p.Obj)
	if v, ok := o.G["view"].(*Term); ok {
		return v
	}
	if o.Name == "" {
		fail("object is not a snapshot")
	}
	v := cst(o.Name+".view", arrSort("Bytes", "OptB"))
	n := *o
	n.Kind = "snap"
	n.G = map[string]Val{"view": v, "open": tTrue}
	if _, in := st.heap[o.ID]; in {
		st.heap[o.ID] = &n
	} else {
		x.base[o.ID] = &n
	}
	return v
}

func (x *Exec) ghostAdd(st *State, g string, d int64) {
	if gd := ghostDecls[g]; gd != nil && x.relevant(gd.Props) {
		st.ghosts[g] = Add(x.ghost(st, g), intT(d))
	}
}

func (x *Exec) useSnap(st *State, p *PtrVal, pos string) {
	x.nonNil(st, p, pos)
	x.snapView(st, p)
	if o := x.obj(st, p.Obj); o.G["open"] == Val(tFalse) {
		x.oblige(st, "release", "the snapshot is not used after its release", tFalse, pos, []string{"C22"})
	}
}

func optNone() *Term        { return App("none") }
func optSome(b *Term) *Term { return App("some", b) }
func segTerm(b []Seg) *Term { return segsTerm(b) }
func one(v Val) []Val       { return []Val{v} }
func nilErr() *Term         { return App("errnil") }
func (x *Exec) bTerm(st *State, v Val) *Term {
	switch a := v.(type) {
	case *SliceVal:
		return x.bytesTerm(st, a)
	case *Term:
		return a
	}
	fail("not bytes: %T", v)
	return nil
}

func (x *Exec) writeHook(st *State, ci *callInfo, g string, old *Term) {
	if os.Getenv("GOVC_NOCONST") == "" {
		e := fresh("g_"+g, st.ghosts[g].Sort)
		st.assume(Eq(e, st.ghosts[g]))
		st.ghosts[g] = e
	}
	// a marker relating the two states: trigger for the frame lemmas
	if f, ok := funs["step_"+g]; ok && len(f.Args) == 2 {
		st.assume(App("step_"+g, old, st.ghosts[g]))
	}
	if m, ok := specMacros["WF_"+g]; ok && len(m.Params) == 1 {
		env := &SEnv{x: x, st: st, vars: map[string]Val{m.Params[0]: st.ghosts[g]}, pkg: x.pkgName(ci)}
		if strings.HasPrefix(g, "P") && len(m.Params) != 1 {
			return
		}
		var conj func(e *Expr)
		conj = func(e *Expr) {
			if e.Op == "&&" {
				conj(e.Args[0])
				conj(e.Args[1])
				return
			}
			nm := e.Name
			if nm == "" {
				nm = e.Op
			}
			x.oblige(st, "crash", "the store is consistent after this write ("+nm+")", env.boolean(e), ci.pos, nil)
		}
		conj(m.E)
	}
}

func init() {
	// ---- LevelDB ----
	reg(func(x *Exec, st *State, ci *callInfo, k func(*State, []Val)) {
		g := x.dbGhost(ci)
		x.nonNil(st, x.asPtr(st, ci.args[0], nil), ci.pos)
		x.assumed["leveldb: GetSnapshot returns a consistent view of the database or an error"] = true
		snT := ci.sig.Results().At(0).Type()
		x.twoWay(st, ci.pos+" GetSnapshot", func(s *State) []Val {
			id := x.newObj(s, Obj{T: deref(snT), Kind: "snap", New: true, G: map[string]Val{"view": x.ghost(s, g), "open": tTrue}})
			x.ghostAdd(s, "openSnap", 1)
			return []Val{&PtrVal{T: deref(snT), Obj: id, Nil: tFalse}, nilErr()}
		}, func(s *State) []Val {
			return []Val{&PtrVal{T: deref(snT), Nil: tTrue}, x.ioErr(s)}
		}, k)
	}, "(*leveldb.DB).GetSnapshot")
	reg(func(x *Exec, st *State, ci *callInfo, k func(*State, []Val)) {
		p := x.asPtr(st, ci.args[0], nil)
		x.nonNil(st, p, ci.pos)
		x.snapView(st, p)
		m := x.mut(st, p.Obj)
		if m.G["open"] == Val(tTrue) {
			m.G["open"] = tFalse
			x.ghostAdd(st, "openSnap", -1)
		}
		k(st, nil)
	}, "(*leveldb.Snapshot).Release")
	get := func(x *Exec, st *State, ci *callInfo, k func(*State, []Val)) {
		var v *Term
		if strings.Contains(ci.key, "Snapshot") {
			p := x.asPtr(st, ci.args[0], nil)
			x.useSnap(st, p, ci.pos)
			v = x.snapView(st, p)
		} else {
			v = x.ghost(st, x.dbGhost(ci))
		}
		key := x.bTerm(st, ci.args[1])
		r := Select(v, key)
		x.assumed["leveldb: Get returns the stored value, ErrNotFound exactly for absent keys, or another error"] = true
		has := App("is-some", r)
		s2, s3 := st.clone(), st.clone()
		st.assume(has)
		st.trail = append(st.trail, ci.pos+" Get finds the key")
		if !st.dead {
			k(st, []Val{x.bytesVal(st, App("optv", r)), nilErr()})
		}
		s2.assume(Not(has))
		s2.trail = append(s2.trail, ci.pos+" Get: not found")
		if !s2.dead {
			k(s2, []Val{x.bytesVal(s2, App("Bnil")), sentinel("leveldb.ErrNotFound")})
		}
		s3.trail = append(s3.trail, ci.pos+" Get: storage error")
		k(s3, []Val{x.bytesVal(s3, App("Bnil")), x.ioErr(s3)})
	}
	reg(get, "(*leveldb.Snapshot).Get", "(*leveldb.DB).Get")
	reg(func(x *Exec, st *State, ci *callInfo, k func(*State, []Val)) {
		var v *Term
		if strings.Contains(ci.key, "Snapshot") {
			p := x.asPtr(st, ci.args[0], nil)
			x.useSnap(st, p, ci.pos)
			v = x.snapView(st, p)
		} else {
			v = x.ghost(st, x.dbGhost(ci))
		}
		r := Select(v, x.bTerm(st, ci.args[1]))
		x.twoWay(st, ci.pos+" Has", func(s *State) []Val {
			return []Val{App("is-some", r), nilErr()}
		}, func(s *State) []Val { return []Val{tFalse, x.ioErr(s)} }, k)
	}, "(*leveldb.Snapshot).Has", "(*leveldb.DB).Has")
	reg(func(x *Exec, st *State, ci *callInfo, k func(*State, []Val)) {
		g := x.dbGhost(ci)
		b := x.asPtr(st, ci.args[1], nil)
		x.nonNil(st, b, ci.pos)
		ops, ok := x.obj(st, b.Obj).G["ops"].([]batchOp)
		if !ok {
			fail("%s: write of an unknown batch", ci.pos)
		}
		x.assumed["leveldb: Write applies the whole batch atomically or, on error, nothing"] = true
		x.twoWay(st, ci.pos+" Write", func(s *State) []Val {
			d := x.ghost(s, g)
			old := d
			for _, o := range ops {
				d = Store(d, o.K, o.V)
			}
			s.ghosts[g] = d
			x.writeHook(s, ci, g, old)
			x.ghostAdd(s, "writes"+g, 1)
			return one(nilErr())
		}, func(s *State) []Val { return one(x.ioErr(s)) }, k)
	}, "(*leveldb.DB).Write")
	reg(func(x *Exec, st *State, ci *callInfo, k func(*State, []Val)) {
		g := x.dbGhost(ci)
		x.twoWay(st, ci.pos+" Put", func(s *State) []Val {
			old := x.ghost(s, g)
			s.ghosts[g] = Store(old, x.bTerm(s, ci.args[1]), optSome(x.bTerm(s, ci.args[2])))
			x.writeHook(s, ci, g, old)
			return one(nilErr())
		}, func(s *State) []Val { return one(x.ioErr(s)) }, k)
	}, "(*leveldb.DB).Put")
	reg(func(x *Exec, st *State, ci *callInfo, k func(*State, []Val)) {
		g := x.dbGhost(ci)
		x.twoWay(st, ci.pos+" Delete", func(s *State) []Val {
			old := x.ghost(s, g)
			s.ghosts[g] = Store(old, x.bTerm(s, ci.args[1]), optNone())
			x.writeHook(s, ci, g, old)
			return one(nilErr())
		}, func(s *State) []Val { return one(x.ioErr(s)) }, k)
	}, "(*leveldb.DB).Delete")
	batch := func(del bool) intrinsic {
		return func(x *Exec, st *State, ci *callInfo, k func(*State, []Val)) {
			b := x.asPtr(st, ci.args[0], nil)
			x.nonNil(st, b, ci.pos)
			key := x.bTerm(st, ci.args[1])
			o := x.obj(st, b.Obj)
			ops, ok := o.G["ops"].([]batchOp)
			if !ok {
				fail("%s: batch object without operations", ci.pos)
			}
			v := optNone()
			if !del {
				v = optSome(x.bTerm(st, ci.args[2]))
			}
			m := x.mut(st, b.Obj)
			m.G["ops"] = append(ops[:len(ops):len(ops)], batchOp{key, v})
			k(st, nil)
		}
	}
	reg(batch(false), "(*leveldb.Batch).Put")
	reg(batch(true), "(*leveldb.Batch).Delete")
	reg(func(x *Exec, st *State, ci *callInfo, k func(*State, []Val)) {
		b := x.asPtr(st, ci.args[0], nil)
		m := x.mut(st, b.Obj)
		m.G["ops"] = []batchOp{}
		k(st, nil)
	}, "(*leveldb.Batch).Reset")
	reg(newDBIter, "(*leveldb.Snapshot).NewIterator", "(*leveldb.DB).NewIterator")
	iterM := func(f func(x *Exec, st *State, ci *callInfo, p *PtrVal, o *Obj) []Val) intrinsic {
		return func(x *Exec, st *State, ci *callInfo, k func(*State, []Val)) {
			var p *PtrVal
			switch a := ci.args[0].(type) {
			case *PtrVal:
				p = a
			case *IfaceVal:
				p = a.V.(*PtrVal)
			default:
				fail("%s: unknown iterator", ci.pos)
			}
			rs := f(x, st, ci, p, x.obj(st, p.Obj))
			if !st.dead {
				k(st, rs)
			}
		}
	}
	both := func(m string, f intrinsic) { reg(f, "(iterator.Iterator)."+m, "iter."+m) }
	both("First", iterM(func(x *Exec, st *State, ci *callInfo, p *PtrVal, o *Obj) []Val {
		x.mut(st, p.Obj).G["pos"] = intT(0)
		return one(Gt(o.G["n"].(*Term), intT(0)))
	}))
	both("Valid", iterM(func(x *Exec, st *State, ci *callInfo, p *PtrVal, o *Obj) []Val {
		ps := o.G["pos"].(*Term)
		return one(And(Ge(ps, intT(0)), Lt(ps, o.G["n"].(*Term))))
	}))
	both("Next", iterM(func(x *Exec, st *State, ci *callInfo, p *PtrVal, o *Obj) []Val {
		// at the end Next stays at the end
		ps, n := o.G["pos"].(*Term), o.G["n"].(*Term)
		np := Ite(Lt(ps, n), Add(ps, intT(1)), ps)
		if v, kn := st.decide(Lt(ps, n)); kn && v {
			np = Add(ps, intT(1))
		}
		x.mut(st, p.Obj).G["pos"] = np
		return one(Lt(np, n))
	}))
	both("Key", iterM(func(x *Exec, st *State, ci *callInfo, p *PtrVal, o *Obj) []Val {
		ps := o.G["pos"].(*Term)
		x.oblige(st, "iter", "the iterator is positioned on an entry", And(Ge(ps, intT(0)), Lt(ps, o.G["n"].(*Term))), ci.pos, nil)
		return one(x.bytesVal(st, Select(o.G["seq"].(*Term), ps)))
	}))
	both("Value", iterM(func(x *Exec, st *State, ci *callInfo, p *PtrVal, o *Obj) []Val {
		ps := o.G["pos"].(*Term)
		x.oblige(st, "iter", "the iterator is positioned on an entry", And(Ge(ps, intT(0)), Lt(ps, o.G["n"].(*Term))), ci.pos, nil)
		return one(x.bytesVal(st, App("optv", Select(o.G["view"].(*Term), Select(o.G["seq"].(*Term), ps)))))
	}))
	both("Release", iterM(func(x *Exec, st *State, ci *callInfo, p *PtrVal, o *Obj) []Val {
		if o.G["open"] == Val(tTrue) {
			x.mut(st, p.Obj).G["open"] = tFalse
			x.ghostAdd(st, "openIter", -1)
		}
		return nil
	}))
	both("Error", iterM(func(x *Exec, st *State, ci *callInfo, p *PtrVal, o *Obj) []Val {
		return one(fresh("iterr", "Err"))
	}))
	noNilCheck["(iterator.Iterator).Release"] = true

	pureFn("util.BytesPrefix", func(x *Exec, st *State, ci *callInfo) []Val {
		t := deref(ci.sig.Results().At(0).Type())
		b := x.bTerm(st, ci.args[0])
		lim := x.bytesVal(st, fresh("limit", "Bytes"))
		id := x.newObj(st, Obj{T: t, Kind: "cell", New: true, V: &StructVal{T: t, F: []Val{ci.args[0], lim}}, G: map[string]Val{"prefix": b}})
		if segs := x.obj(st, ci.args[0].(*SliceVal).Obj).Segs; len(segs) == 1 && segs[0].K == "byte" && segs[0].T.isInt() {
			x.mut(st, id).G["pfx"] = segs[0].T
		} else if len(segs) == 1 && segs[0].K == "zeros" {
			x.mut(st, id).G["pfx"] = intT(0)
		}
		return one(&PtrVal{T: t, Obj: id, Nil: tFalse})
	})
	reg(func(x *Exec, st *State, ci *callInfo, k func(*State, []Val)) {
		t := ci.sig.Results().At(0).Type()
		x.twoWay(st, ci.pos+" OpenFile", func(s *State) []Val {
			return []Val{x.alloc(s, deref(t), "db"), nilErr()}
		}, func(s *State) []Val { return []Val{&PtrVal{T: deref(t), Nil: tTrue}, x.ioErr(s)} }, k)
	}, "leveldb.OpenFile")
	havocErr := func(x *Exec, st *State, ci *callInfo, k func(*State, []Val)) {
		x.havocResults(st, ci.sig, ci.key, k)
	}
	reg(havocErr, "(*leveldb.DB).Close", "filepath.Join", "filepath.Clean", "path.Clean")

	// ---- errors and formatting ----
	pureFn("fmt.Errorf", func(x *Exec, st *State, ci *callInfo) []Val {
		f := strText[tArg(ci, 0)]
		tag := fresh("errtag", "Int")
		if i := strings.Index(f, "%w"); i >= 0 {
			// position of the %w verb
			n := 0
			for j := 0; j < i; j++ {
				if f[j] == '%' {
					if f[j+1] == '%' {
						j++
						continue
					}
					n++
				}
			}
			if a, ok := x.varArg(st, ci.args[1], n); ok {
				if t, ok := a.(*Term); ok && t.Sort == "Err" {
					return one(App("errw", t, tag))
				}
				if iv, ok := a.(*IfaceVal); ok {
					if t, ok := iv.V.(*Term); ok && t.Sort == "Err" {
						return one(App("errw", t, tag))
					}
				}
			}
			return one(App("errw", fresh("inner", "Err"), tag))
		}
		return one(App("errn", tag))
	})
	pureFn("errors.New", func(x *Exec, st *State, ci *callInfo) []Val {
		return one(App("errn", fresh("errtag", "Int")))
	})
	pureFn("errors.Is", func(x *Exec, st *State, ci *callInfo) []Val {
		return one(isE(tArg(ci, 0), tArg(ci, 1)))
	})
	pureFn("fmt.Sprintf", func(x *Exec, st *State, ci *callInfo) []Val {
		// an uninterpreted function of the format and its string arguments
		n := 0
		var as []*Term
		known := true
		if sv, ok := ci.args[1].(*SliceVal); ok {
			n = -1
			if o := x.obj(st, sv.Obj); o.Elems != nil {
				n = len(o.Elems)
			}
		}
		for i := 0; i < n; i++ {
			a, ok := x.varArg(st, ci.args[1], i)
			if iv, isI := a.(*IfaceVal); isI {
				a = iv.V
			}
			t, isT := a.(*Term)
			if !ok || !isT {
				known = false
				break
			}
			as = append(as, t)
		}
		if !known || n < 0 || strText[tArg(ci, 0)] == "" {
			return one(fresh("sprintf", "Str"))
		}
		var ss []string
		nm := "sprintf"
		for _, a := range as {
			ss = append(ss, a.Sort)
			nm += "_" + sanit(a.Sort)
		}
		declFun(nm, "Str", append([]string{"Str"}, ss...)...)
		r := App(nm, append([]*Term{tArg(ci, 0)}, as...)...)
		// formatting with %s keeps valid UTF-8 only if the arguments are valid
		ok := tTrue
		for _, a := range as {
			if a.Sort == "Str" {
				ok = And(ok, App("utf8", a))
			}
		}
		st.assume(Imp(ok, App("utf8", r)))
		return one(r)
	})
	reg(havocErr, "fmt.Sprint", "fmt.Sprintln", "strconv.FormatInt", "strconv.Itoa", "strconv.FormatUint")
	reg(havocErr, "fmt.Fprintf", "fmt.Printf", "fmt.Println", "fmt.Print")
	reg(havocErr, "(error).Error")

	// ---- locks ----
	lock := func(to int64, need int64, what string) intrinsic {
		return func(x *Exec, st *State, ci *callInfo, k func(*State, []Val)) {
			g := x.lockGhost(ci)
			if d := ghostDecls[g]; d != nil && x.relevant(d.Props) {
				x.oblige(st, "lock", what, Eq(x.ghost(st, g), intT(need)), ci.pos, []string{"C22"})
				st.ghosts[g] = intT(to)
			}
			k(st, nil)
		}
	}
	reg(lock(2, 0, "Lock is not called with the lock held (self-deadlock)"), "(*sync.RWMutex).Lock", "(*sync.Mutex).Lock")
	reg(lock(1, 0, "RLock is not called with the lock held (self-deadlock)"), "(*sync.RWMutex).RLock")
	reg(lock(0, 2, "Unlock only a write-locked mutex"), "(*sync.RWMutex).Unlock", "(*sync.Mutex).Unlock")
	reg(lock(0, 1, "RUnlock only a read-locked mutex"), "(*sync.RWMutex).RUnlock")

	// ---- byte strings ----
	pureFn("(binary.bigEndian).PutUint64", func(x *Exec, st *State, ci *callInfo) []Val {
		n := len(ci.args)
		s := ci.args[n-2].(*SliceVal)
		x.oblige(st, "bounds", "PutUint64 into at least 8 bytes", Ge(s.Len, intT(8)), ci.pos, nil)
		o := x.obj(st, s.Obj)
		ns, ok := writeSegs(o.Segs, s.Off, []Seg{mkSeg("be64", ci.args[n-1].(*Term))})
		m := x.mut(st, s.Obj)
		if !ok {
			ns = []Seg{{"raw", fresh("rawbytes", "Bytes"), segsLen(o.Segs)}}
		}
		m.Segs = ns
		return nil
	})
	pureFn("(binary.bigEndian).Uint64", func(x *Exec, st *State, ci *callInfo) []Val {
		s := ci.args[len(ci.args)-1].(*SliceVal)
		x.oblige(st, "bounds", "Uint64 of at least 8 bytes", Ge(s.Len, intT(8)), ci.pos, nil)
		if g, ok := subSegs(x.obj(st, s.Obj).Segs, s.Off, intT(8)); ok && len(g) == 1 && g[0].K == "be64" {
			return one(g[0].T)
		}
		r := App("u64of", x.bytesTerm(st, s))
		if !(s.Len.isInt() && s.Len.Int.Int64() == 8) {
			if !x.quick(st, Eq(s.Len, intT(8))) {
				r = fresh("u64", "Int")
			}
		}
		st.assume(Ge(r, intT(0)), Le(r, bigT(new(big.Int).SetUint64(^uint64(0)))))
		x.setBounds(r, types.Typ[types.Uint64])
		return one(r)
	})
	pureFn("bytes.Equal", func(x *Exec, st *State, ci *callInfo) []Val {
		return one(Eq(x.bTerm(st, ci.args[0]), x.bTerm(st, ci.args[1])))
	})

	// ---- proto identifiers ----
	pureFn("(proto.BlockID).Bytes", func(x *Exec, st *State, ci *callInfo) []Val {
		return one(x.bytesVal(st, App("BIdV", tArg(ci, 0))))
	})
	reg(func(x *Exec, st *State, ci *callInfo, k func(*State, []Val)) {
		b := x.bTerm(st, ci.args[0])
		ok := App("isid", b)
		if c := ctorOf(b); c != nil && c.Name == "BIdV" {
			if v, kn := st.decide(App("okID", b.Args[0])); kn && v {
				ok = tTrue
			}
		}
		s2 := st.clone()
		st.assume(ok)
		if !st.dead {
			r := App("idof", b)
			if c := ctorOf(b); c != nil && c.Name == "BIdV" && ok.isTrue() {
				r = b.Args[0]
			}
			k(st, []Val{r, nilErr()})
		}
		s2.assume(Not(ok))
		if !s2.dead {
			k(s2, []Val{zeroOf("BlockID"), x.libErr(s2)})
		}
	}, "proto.NewBlockIDFromBytes")
	pureFn("proto.NewBlockIDFromSignature", func(x *Exec, st *State, ci *callInfo) []Val {
		return one(App("idOfSig", x.oneTerm(st, ci.args[0], "Sig")))
	})
	pureFn("(proto.BlockID).Signature", func(x *Exec, st *State, ci *callInfo) []Val {
		return one(App("sigof", tArg(ci, 0)))
	})
	strOf := func(name string) func(x *Exec, st *State, ci *callInfo) []Val {
		return func(x *Exec, st *State, ci *callInfo) []Val {
			t, ok := ci.args[0].(*Term)
			if sv, isS := ci.args[0].(*StructVal); isS {
				t, ok = x.reify(st, sv, sv.T), true
			}
			if !ok {
				return one(fresh("str", "Str"))
			}
			declFun(name, "Str", t.Sort)
			return one(App(name, t))
		}
	}
	pureFn("(proto.BlockID).String", strOf("idstr"))
	pureFn("(proto.BlockID).ShortString", strOf("idshort"))
	pureFn("(crypto.Signature).ShortString", strOf("sigshort"))
	pureFn("(*proto.BlockHeader).BlockID", func(x *Exec, st *State, ci *callInfo) []Val {
		p := x.asPtr(st, ci.args[0], nil)
		x.nonNil(st, p, ci.pos)
		id := x.load(st, x.fieldByName(st, p, "ID")).(*Term)
		sig := x.oneTerm(st, x.load(st, x.fieldByName(st, p, "BlockSignature")), "Sig")
		v := x.load(st, x.fieldByName(st, p, "Version")).(*Term)
		return one(Ite(Lt(v, intT(5)), App("idOfSig", sig), id))
	})
	reg(func(x *Exec, st *State, ci *callInfo, k func(*State, []Val)) {
		t := App("addrOfPK", tArg(ci, 0), tArg(ci, 1))
		x.twoWay(st, ci.pos+" NewAddressFromPublicKey", func(s *State) []Val { return []Val{t, nilErr()} },
			func(s *State) []Val { return []Val{zeroOf("WAddr"), x.libErr(s)} }, k)
	}, "proto.NewAddressFromPublicKey")
	pureFn("(proto.WavesAddress).Bytes", func(x *Exec, st *State, ci *callInfo) []Val {
		return one(x.bytesVal(st, App("BGen", tArg(ci, 0))))
	})
	reg(func(x *Exec, st *State, ci *callInfo, k func(*State, []Val)) {
		b := x.bTerm(st, ci.args[0])
		s2 := st.clone()
		st.assume(App("isgen", b))
		if !st.dead {
			k(st, []Val{App("gof", b), nilErr()})
		}
		s2.assume(Not(App("isgen", b)))
		if !s2.dead {
			k(s2, []Val{zeroOf("WAddr"), x.libErr(s2)})
		}
	}, "proto.NewAddressFromBytes")

	// ---- netip ----
	pureFn("(netip.Addr).BitLen", func(x *Exec, st *State, ci *callInfo) []Val {
		r := Mul(intT(8), App("alen", tArg(ci, 0)))
		x.bounds[App("alen", tArg(ci, 0))] = [2]*big.Int{big.NewInt(0), big.NewInt(16)}
		st.assume(Ge(App("alen", tArg(ci, 0)), intT(0)), Le(App("alen", tArg(ci, 0)), intT(16)))
		return one(r)
	})
	pureFn("(netip.Addr).AsSlice", func(x *Exec, st *State, ci *callInfo) []Val {
		a := tArg(ci, 0)
		sv := x.bytesVal(st, App("BAddrV", App("unz", a)))
		sv.Nil = Eq(App("alen", a), intT(0))
		return one(sv)
	})
	pureFn("(netip.Addr).MarshalBinary", func(x *Exec, st *State, ci *callInfo) []Val {
		a := tArg(ci, 0)
		if v, k := st.decide(App("zoned", a)); k && !v || x.quick(st, Not(App("zoned", a))) {
			return []Val{x.bytesVal(st, App("BAddrV", a)), nilErr()}
		}
		b := fresh("abin", "Bytes")
		st.assume(Ge(App("blen", b), App("alen", a)), Imp(Not(App("zoned", a)), Eq(b, App("BAddrV", a))))
		return []Val{x.bytesVal(st, b), nilErr()}
	})
	pureFn("netip.AddrFromSlice", func(x *Exec, st *State, ci *callInfo) []Val {
		b := x.bTerm(st, ci.args[0])
		ok := App("isaddr", b)
		return []Val{Ite(ok, App("addrof", b), zeroOf("Addr")), ok}
	})
	addrFrom := func(x *Exec, st *State, ci *callInfo) []Val {
		b := x.bTerm(st, ci.args[0])
		if c := ctorOf(b); c != nil && c.Name == "BAddrV" {
			return one(b.Args[0])
		}
		ln := int64(4)
		if ci.key == "netip.AddrFrom16" {
			ln = 16
		}
		st.assume(Eq(App("blen", b), intT(ln)))
		return one(App("addrof", b))
	}
	pureFn("netip.AddrFrom4", addrFrom)
	pureFn("netip.AddrFrom16", addrFrom)
	pureFn("(netip.Addr).As4", func(x *Exec, st *State, ci *callInfo) []Val {
		a := tArg(ci, 0)
		x.oblige(st, "panic", "As4 is called on an IPv4 address only", App("is4", a), ci.pos, nil)
		return one(x.bytesVal(st, App("BAddrV", a)))
	})
	pureFn("(netip.Addr).Is4", func(x *Exec, st *State, ci *callInfo) []Val { return one(App("is4", tArg(ci, 0))) })
	pureFn("(netip.Addr).Is6", func(x *Exec, st *State, ci *callInfo) []Val { return one(App("is6", tArg(ci, 0))) })
	pureFn("(netip.Addr).IsValid", func(x *Exec, st *State, ci *callInfo) []Val {
		return one(Or(App("is4", tArg(ci, 0)), App("is6", tArg(ci, 0))))
	})
	pureFn("(netip.Addr).IsLoopback", func(x *Exec, st *State, ci *callInfo) []Val { return one(App("loopback", tArg(ci, 0))) })
	pureFn("(netip.Addr).Compare", func(x *Exec, st *State, ci *callInfo) []Val {
		a, b := tArg(ci, 0), tArg(ci, 1)
		return one(Ite(Eq(a, b), intT(0), Ite(App("addrLess", a, b), intT(-1), intT(1))))
	})
	pureFn("(netip.Addr).String", strOf("addrstr"))
	pureFn("(netip.AddrPort).String", strOf("apstr"))
	pureFn("(netip.AddrPort).Addr", func(x *Exec, st *State, ci *callInfo) []Val { return one(App("apAddr", tArg(ci, 0))) })
	pureFn("(netip.AddrPort).Port", func(x *Exec, st *State, ci *callInfo) []Val {
		r := App("apPort", tArg(ci, 0))
		if !r.isInt() {
			st.assume(Ge(r, intT(0)), Le(r, intT(65535)))
		}
		return one(r)
	})
	pureFn("(*net.TCPAddr).String", func(x *Exec, st *State, ci *callInfo) []Val { // a nil address prints as <nil>
		return one(App("ntStr", x.reify(st, ci.args[0], ci.sigRecv())))
	})
	pureFn("netip.AddrPortFrom", func(x *Exec, st *State, ci *callInfo) []Val { return one(App("apair", tArg(ci, 0), tArg(ci, 1))) })
	parse := func(is, of, zs string) intrinsic {
		return func(x *Exec, st *State, ci *callInfo, k func(*State, []Val)) {
			s := tArg(ci, 0)
			s2 := st.clone()
			st.assume(App(is, s))
			if !st.dead {
				k(st, []Val{App(of, s), nilErr()})
			}
			s2.assume(Not(App(is, s)))
			if !s2.dead {
				k(s2, []Val{zeroOf(zs), x.libErr(s2)})
			}
		}
	}
	reg(parse("isaddrstr", "addrofstr", "Addr"), "netip.ParseAddr")
	pureFn("(netip.Addr).As16", func(x *Exec, st *State, ci *callInfo) []Val {
		a := tArg(ci, 0)
		x.oblige(st, "panic", "As16 is called on a valid address only", Or(App("is4", a), App("is6", a)), ci.pos, nil)
		return one(x.bytesVal(st, App("BAddrV", App("as16", a))))
	})
	pureFn("(netip.Addr).Unmap", func(x *Exec, st *State, ci *callInfo) []Val { return one(App("unmap", tArg(ci, 0))) })
	pureFn("(netip.Addr).WithZone", func(x *Exec, st *State, ci *callInfo) []Val {
		if t := tArg(ci, 1); t == App("strempty") {
			return one(App("unz", tArg(ci, 0)))
		}
		return one(fresh("zaddr", "Addr"))
	})
	pureFn("netip.MustParseAddrPort", func(x *Exec, st *State, ci *callInfo) []Val {
		s := tArg(ci, 0)
		if txt, ok := strText[s]; ok {
			if _, err := netip.ParseAddrPort(txt); err == nil {
				st.assume(App("isapstr", s))
			}
		}
		x.oblige(st, "panic", "MustParseAddrPort of a valid address", App("isapstr", s), ci.pos, nil)
		return one(App("apofstr", s))
	})
	pureFn("net.TCPAddrFromAddrPort", func(x *Exec, st *State, ci *callInfo) []Val {
		return one(&PtrVal{T: deref(ci.sig.Results().At(0).Type()), Ref: App("ntcp", tArg(ci, 0)), Nil: tFalse})
	})
	pureFn("net.IPv4", func(x *Exec, st *State, ci *callInfo) []Val {
		var src *Term
		same := true
		for i := 0; i < 4; i++ {
			t, ok := ci.args[i].(*Term)
			if !ok || t.Op != "app" || t.Name != "bat" || !t.Args[1].isInt() || t.Args[1].Int.Int64() != int64(i) || (src != nil && src != t.Args[0]) {
				same = false
				break
			}
			src = t.Args[0]
		}
		if same {
			return one(App("ipOf", src))
		}
		return one(App("ip4Of", tArg(ci, 0), tArg(ci, 1), tArg(ci, 2), tArg(ci, 3)))
	})
	pureFn("proto.NewTCPAddr", func(x *Exec, st *State, ci *callInfo) []Val {
		return one(App("mkTCPA", x.ipTerm(st, ci.args[0]), tArg(ci, 1)))
	})
	pureFn("(proto.PeerInfo).String", strOf("piStr"))
	// strings
	pureFn("strings.Split", func(x *Exec, st *State, ci *callInfo) []Val {
		t := ci.sig.Results().At(0).Type()
		f := "splitOf"
		declFun(f, sortOf(t), "Str", "Str")
		sv := x.unreify(st, App(f, tArg(ci, 0), tArg(ci, 1)), t).(*SliceVal)
		st.assume(Imp(Gt(App("slen", tArg(ci, 1)), intT(0)), Ge(sv.Len, intT(1))))
		sv.Nil = tFalse
		return one(sv)
	})
	pureFn("strings.ToLower", func(x *Exec, st *State, ci *callInfo) []Val {
		declFun("tolower", "Str", "Str")
		return one(App("tolower", tArg(ci, 0)))
	})
	reg(parse("isintstr", "intofstr", "Int"), "strconv.Atoi")
	// command-line flags: a value is that of the command line
	flagFn := func(fn, sort string) intrinsic {
		return func(x *Exec, st *State, ci *callInfo, k func(*State, []Val)) {
			declFun(fn, sort, "Str")
			t := deref(ci.sig.Results().At(0).Type())
			p := x.alloc(st, t, "flag")
			v := App(fn, tArg(ci, 0))
			if sort == "Int" {
				st.assume(inRange(v, t))
			}
			x.store(st, p, v, ci.pos)
			x.assumed["flags: flag.String returns a pointer whose target holds the command-line value (or the default) after flag.Parse"] = true
			k(st, one(p))
		}
	}
	reg(flagFn("flagStr", "Str"), "flag.String")
	reg(flagFn("flagInt", "Int"), "flag.Int", "flag.Uint")
	reg(flagFn("flagInt", "Int"), "zap.LevelFlag")
	pureFn("flag.Parse", func(x *Exec, st *State, ci *callInfo) []Val { return nil })
	reg(func(x *Exec, st *State, ci *callInfo, k func(*State, []Val)) {
		t := ci.sig.Results().At(0).Type()
		x.twoWay(st, ci.pos+" Stat", func(s *State) []Val {
			v := x.symVal(s, x.freshName("fi"), t)
			s.assume(Ne(x.reify(s, v, t), App("refnil")))
			return []Val{v, nilErr()}
		}, func(s *State) []Val { return []Val{x.zeroVal(s, t), x.libErr(s)} }, k)
	}, "os.Stat")
	pureFn("os.IsNotExist", func(x *Exec, st *State, ci *callInfo) []Val {
		r := fresh("notexist", "Bool")
		st.assume(Imp(Eq(tArg(ci, 0), nilErr()), Not(r)))
		return one(r)
	})
	reg(havocErr, "(fs.FileInfo).IsDir", "rand.Uint32", "rand.Uint64")
	reg(func(x *Exec, st *State, ci *callInfo, k func(*State, []Val)) {
		t := ci.sig.Results().At(0).Type()
		x.twoWay(st, ci.pos+" BlockchainSettingsByTypeName", func(s *State) []Val {
			p := x.alloc(s, deref(t), "settings")
			x.store(s, p, x.symVal(s, x.freshName("settings"), deref(t)), ci.pos)
			return []Val{p, nilErr()}
		}, func(s *State) []Val { return []Val{&PtrVal{T: deref(t), Nil: tTrue}, x.libErr(s)} }, k)
	}, "settings.BlockchainSettingsByTypeName")
	reg(parse("isapstr", "apofstr", "AddrPort"), "netip.ParseAddrPort")

	// ---- numbers ----
	pureFn("math.Log2", func(x *Exec, st *State, ci *callInfo) []Val { return one(App("flog2", tArg(ci, 0))) })
	pureFn("math.Ceil", func(x *Exec, st *State, ci *callInfo) []Val { return one(App("fceil", tArg(ci, 0))) })
	big1 := func(x *Exec, st *State, v *Term) *PtrVal {
		id := x.newObj(st, Obj{T: bigIntType(x), Kind: "big", V: v, New: true})
		return &PtrVal{T: bigIntType(x), Obj: id, Nil: tFalse}
	}
	bigArg := func(x *Exec, st *State, ci *callInfo, i int) (*PtrVal, *Term) {
		p := x.asPtr(st, ci.args[i], ci.sigArgType(i))
		x.nonNil(st, p, ci.pos)
		return p, x.load(st, p).(*Term)
	}
	setBig := func(x *Exec, st *State, ci *callInfo, v *Term) *PtrVal {
		p := x.asPtr(st, ci.args[0], ci.sigArgType(0))
		x.nonNil(st, p, ci.pos)
		x.store(st, p, v, ci.pos)
		return p
	}
	pureFn("big.NewInt", func(x *Exec, st *State, ci *callInfo) []Val { return one(big1(x, st, tArg(ci, 0))) })
	pureFn("(*big.Int).Add", func(x *Exec, st *State, ci *callInfo) []Val {
		_, a := bigArg(x, st, ci, 1)
		_, b := bigArg(x, st, ci, 2)
		return one(setBig(x, st, ci, Add(a, b)))
	})
	pureFn("(*big.Int).Sub", func(x *Exec, st *State, ci *callInfo) []Val {
		_, a := bigArg(x, st, ci, 1)
		_, b := bigArg(x, st, ci, 2)
		return one(setBig(x, st, ci, Sub(a, b)))
	})
	pureFn("(*big.Int).Mul", func(x *Exec, st *State, ci *callInfo) []Val {
		_, a := bigArg(x, st, ci, 1)
		_, b := bigArg(x, st, ci, 2)
		return one(setBig(x, st, ci, Mul(a, b)))
	})
	bigDiv := func(x *Exec, st *State, ci *callInfo) []Val {
		_, a := bigArg(x, st, ci, 1)
		_, b := bigArg(x, st, ci, 2)
		x.oblige(st, "div", "division by zero", Ne(b, intT(0)), ci.pos, nil)
		v := Div(a, b) // Euclidean division as in math/big
		if ci.key == "(*big.Int).Quo" {
			v = Ite(Ge(a, intT(0)), Div(a, b), Sub(intT(0), Div(Sub(intT(0), a), b)))
		}
		return one(setBig(x, st, ci, v))
	}
	pureFn("(*big.Int).Div", bigDiv)
	pureFn("(*big.Int).Quo", bigDiv)
	pureFn("(*big.Int).Set", func(x *Exec, st *State, ci *callInfo) []Val {
		_, a := bigArg(x, st, ci, 1)
		return one(setBig(x, st, ci, a))
	})
	pureFn("(*big.Int).SetUint64", func(x *Exec, st *State, ci *callInfo) []Val { return one(setBig(x, st, ci, tArg(ci, 1))) })
	pureFn("(*big.Int).SetInt64", func(x *Exec, st *State, ci *callInfo) []Val { return one(setBig(x, st, ci, tArg(ci, 1))) })
	pureFn("(*big.Int).Neg", func(x *Exec, st *State, ci *callInfo) []Val {
		_, a := bigArg(x, st, ci, 1)
		return one(setBig(x, st, ci, Sub(intT(0), a)))
	})
	pureFn("(*big.Int).SetBytes", func(x *Exec, st *State, ci *callInfo) []Val {
		declFun("bigOfBytes", "Int", "Bytes")
		v := App("bigOfBytes", x.bTerm(st, ci.args[1]))
		st.assume(Ge(v, intT(0)))
		return one(setBig(x, st, ci, v))
	})
	pureFn("(*big.Int).SetString", func(x *Exec, st *State, ci *callInfo) []Val {
		s := tArg(ci, 1)
		base := tArg(ci, 2)
		if txt, ok := strText[s]; ok && base.isInt() {
			if n, good := new(big.Int).SetString(txt, int(base.Int.Int64())); good {
				return []Val{setBig(x, st, ci, bigT(n)), tTrue}
			}
			return []Val{&PtrVal{T: bigIntType(x), Nil: tTrue}, tFalse}
		}
		fail("%s: SetString of an unknown string", ci.pos)
		return nil
	})
	pureFn("(*big.Int).Cmp", func(x *Exec, st *State, ci *callInfo) []Val {
		_, a := bigArg(x, st, ci, 0)
		_, b := bigArg(x, st, ci, 1)
		return one(Ite(Lt(a, b), intT(-1), Ite(Gt(a, b), intT(1), intT(0))))
	})
	pureFn("(*big.Int).Sign", func(x *Exec, st *State, ci *callInfo) []Val {
		_, a := bigArg(x, st, ci, 0)
		return one(Ite(Lt(a, intT(0)), intT(-1), Ite(Gt(a, intT(0)), intT(1), intT(0))))
	})
	pureFn("(*big.Int).String", func(x *Exec, st *State, ci *callInfo) []Val { return one(fresh("bigstr", "Str")) })

	// ---- encoding ----
	reg(func(x *Exec, st *State, ci *callInfo, k func(*State, []Val)) {
		iv, ok := ci.args[0].(*IfaceVal)
		if !ok {
			fail("%s: cbor.Marshal of an unknown value", ci.pos)
		}
		var v Val = iv.V
		t := iv.Dyn
		if p, isP := t.Underlying().(*types.Pointer); isP && !isBigPtr(t) {
			pv := v.(*PtrVal)
			x.nonNil(st, pv, ci.pos)
			v = x.load(st, pv)
			t = p.Elem()
		}
		c := codecOf(t)
		b := App("enc_"+c, x.reify(st, v, t))
		x.assumed["cbor: Unmarshal(Marshal(v)) = v for "+shortType(t)+" (times truncated to seconds, strings must be valid UTF-8)"] = true
		x.twoWay(st, ci.pos+" Marshal", func(s *State) []Val { return []Val{x.bytesVal(s, b), nilErr()} },
			func(s *State) []Val { return []Val{x.bytesVal(s, App("Bnil")), x.ioErr(s)} }, k)
	}, "cbor.Marshal")
	reg(func(x *Exec, st *State, ci *callInfo, k func(*State, []Val)) {
		b := x.bTerm(st, ci.args[0])
		iv, ok := ci.args[1].(*IfaceVal)
		if !ok {
			fail("%s: cbor.Unmarshal into an unknown value", ci.pos)
		}
		p := iv.V.(*PtrVal)
		x.nonNil(st, p, ci.pos)
		c := codecOf(p.T)
		s2 := st.clone()
		isd := App("isdec_"+c, b)
		st.assume(isd)
		st.trail = append(st.trail, ci.pos+" Unmarshal succeeds")
		if !st.dead {
			cur := x.load(st, p)
			zero := x.zeroVal(st, p.T)
			if sameZero(x, st, cur, zero, p.T) {
				x.store(st, p, x.unreify(st, App("dec_"+c, b), p.T), ci.pos)
			} else {
				x.store(st, p, x.symVal(st, x.freshName("merged"), p.T), ci.pos)
			}
			k(st, one(nilErr()))
		}
		s2.assume(Not(isd))
		s2.trail = append(s2.trail, ci.pos+" Unmarshal fails")
		if !s2.dead {
			x.store(s2, p, x.symVal(s2, x.freshName("partial"), p.T), ci.pos)
			k(s2, one(x.libErr(s2)))
		}
	}, "cbor.Unmarshal")
	pureFn("utf8.ValidString", func(x *Exec, st *State, ci *callInfo) []Val { return one(App("utf8", tArg(ci, 0))) })
	pureFn("strings.ToUpper", func(x *Exec, st *State, ci *callInfo) []Val { return one(App("toupper", tArg(ci, 0))) })
	pureFn("strings.ToValidUTF8", func(x *Exec, st *State, ci *callInfo) []Val {
		r := fresh("valid", "Str")
		st.assume(Imp(App("utf8", tArg(ci, 1)), App("utf8", r)), Imp(App("utf8", tArg(ci, 0)), Eq(r, tArg(ci, 0))))
		return one(r)
	})
	pureFn("strings.TrimSpace", func(x *Exec, st *State, ci *callInfo) []Val {
		r := App("trimspace", tArg(ci, 0))
		if txt, ok := strText[tArg(ci, 0)]; ok {
			return one(strConst(strings.TrimSpace(txt)))
		}
		st.assume(Ge(App("slen", r), intT(0)), Le(App("slen", r), App("slen", tArg(ci, 0))))
		return one(r)
	})

	// ---- time ----
	pureFn("time.Now", func(x *Exec, st *State, ci *callInfo) []Val { return one(x.tick(st)) })
	pureFn("time.UnixMilli", func(x *Exec, st *State, ci *callInfo) []Val { return one(Mul(intT(1000000), tArg(ci, 0))) })
	pureFn("(time.Time).Add", func(x *Exec, st *State, ci *callInfo) []Val { return one(Add(tArg(ci, 0), tArg(ci, 1))) })
	pureFn("(time.Time).After", func(x *Exec, st *State, ci *callInfo) []Val { return one(Gt(tArg(ci, 0), tArg(ci, 1))) })
	pureFn("(time.Time).Before", func(x *Exec, st *State, ci *callInfo) []Val { return one(Lt(tArg(ci, 0), tArg(ci, 1))) })
	pureFn("(time.Time).Equal", func(x *Exec, st *State, ci *callInfo) []Val { return one(Eq(tArg(ci, 0), tArg(ci, 1))) })
	pureFn("(time.Time).IsZero", func(x *Exec, st *State, ci *callInfo) []Val { return one(Eq(tArg(ci, 0), App("tzero"))) })
	pureFn("(time.Time).Round", func(x *Exec, st *State, ci *callInfo) []Val {
		declFun("tround", "Int", "Int", "Int")
		r := App("tround", tArg(ci, 0), tArg(ci, 1))
		if d := tArg(ci, 1); d.isInt() && d.Int.Sign() > 0 {
			diff := Mul(intT(2), Sub(r, tArg(ci, 0)))
			st.assume(Le(diff, d), Ge(diff, Sub(intT(0), d)))
			if new(big.Int).Mod(d.Int, big.NewInt(1000000000)).Sign() == 0 {
				declFun("tsec", "Int", "Int")
				st.assume(Eq(App("tsec", r), r))
			}
		}
		return one(r)
	})
	pureFn("(time.Time).Format", func(x *Exec, st *State, ci *callInfo) []Val { return one(fresh("timestr", "Str")) })
	dur := func(x *Exec, st *State, ci *callInfo) []Val {
		var d *Term
		if len(ci.args) == 2 {
			d = Sub(tArg(ci, 0), tArg(ci, 1))
		} else {
			d = Sub(x.tick(st), tArg(ci, 0))
		}
		lo, hi := bigT(big.NewInt(math.MinInt64)), bigT(big.NewInt(math.MaxInt64))
		r := fresh("dur", "Int") // saturated
		st.assume(Ge(r, lo), Le(r, hi), Eq(r, Ite(Lt(d, lo), lo, Ite(Gt(d, hi), hi, d))))
		return one(r)
	}
	pureFn("(time.Time).Sub", dur)
	pureFn("time.Since", dur)
	reg(havocErr, "(time.Duration).String", "(time.Duration).Seconds", "(time.Duration).Milliseconds")

	// ---- slices and sorting ----
	reg(slicesContains, "slices.Contains")
	reg(sortSort, "sort.Sort", "sort.Stable")
	pureFn("sort.Reverse", func(x *Exec, st *State, ci *callInfo) []Val {
		return one(&IfaceVal{Dyn: reverseType, V: TupleVal{ci.args[0]}})
	})
	reg(sortSlice, "sort.Slice", "sort.SliceStable")
	pureFn("slices.Sort", func(x *Exec, st *State, ci *callInfo) []Val { fail("slices.Sort"); return nil })

	// ---- proto versions ----
	pureFn("(proto.Version).String", func(x *Exec, st *State, ci *callInfo) []Val {
		return one(App("verstr", x.reify(st, ci.args[0], ci.sigRecv())))
	})
	reg(func(x *Exec, st *State, ci *callInfo, k func(*State, []Val)) {
		s := tArg(ci, 0)
		vt := ci.sig.Results().At(0).Type()
		s2 := st.clone()
		st.assume(App("isver", s))
		if !st.dead {
			k(st, []Val{x.unreify(st, App("verof", s), vt), nilErr()})
		}
		s2.assume(Not(App("isver", s)))
		if !s2.dead {
			k(s2, []Val{x.zeroVal(s2, vt), x.libErr(s2)})
		}
	}, "proto.NewVersionFromString")
	pureFn("proto.NewVersion", func(x *Exec, st *State, ci *callInfo) []Val {
		v := x.zeroVal(st, ci.sig.Results().At(0).Type()).(*StructVal)
		n := &StructVal{T: v.T, F: append([]Val{}, v.F...)}
		copy(n.F[len(n.F)-3:], ci.args[:3]) // the first field only disallows literals
		return one(n)
	})
	verPart := func(i int) func(x *Exec, st *State, ci *callInfo) []Val {
		return func(x *Exec, st *State, ci *callInfo) []Val {
			f := ci.args[0].(*StructVal).F
			return one(f[len(f)-3+i])
		}
	}
	pureFn("(proto.Version).Major", verPart(0))
	pureFn("(proto.Version).Minor", verPart(1))
	pureFn("(proto.Version).Patch", verPart(2))
	cmp3 := func(x *Exec, st *State, ci *callInfo) []Val {
		a, b := ci.args[0].(*StructVal), ci.args[1].(*StructVal)
		r := intT(0)
		for i := 2; i >= 0; i-- {
			p, q := a.F[i+1].(*Term), b.F[i+1].(*Term)
			r = Ite(Gt(p, q), intT(1), Ite(Lt(p, q), intT(-1), r))
		}
		return one(r)
	}
	pureFn("(proto.Version).Cmp", cmp3)
	pureFn("(proto.Version).CmpMinor", func(x *Exec, st *State, ci *callInfo) []Val {
		// Distance between minor versions; for different major versions MaxInt-like sentinel (see gowaves proto.Version.CmpMinor).
		return one(cmpMinor(x, st, ci))
	})
}

func cmpMinor(x *Exec, st *State, ci *callInfo) *Term {
	a, b := ci.args[0].(*StructVal), ci.args[1].(*StructVal)
	return cmpMinorT(a.F[1].(*Term), a.F[2].(*Term), b.F[1].(*Term), b.F[2].(*Term))
}

// sigArgType gives the static type of an argument, receivers first.
func (ci *callInfo) sigArgType(i int) types.Type {
	if ci.sig.Recv() != nil {
		if i == 0 {
			return ci.sig.Recv().Type()
		}
		i--
	}
	return ci.sig.Params().At(i).Type()
}
func (ci *callInfo) sigRecv() types.Type { return ci.sig.Recv().Type() }

func bigIntType(x *Exec) types.Type { return lookupType("big.Int") }

func (x *Exec) oneTerm(st *State, v Val, sort string) *Term {
	switch a := v.(type) {
	case *Term:
		return a
	case *SliceVal:
		b := x.bytesTerm(st, a)
		declFun("sigOfBytes", "Sig", "Bytes")
		return App("sigOfBytes", b)
	}
	fail("oneTerm %T", v)
	return nil
}

func (x *Exec) fieldByName(st *State, p *PtrVal, name string) *PtrVal {
	u := p.T.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return x.fieldAddrNoCheck(st, p, i)
		}
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Embedded() {
			if _, ok := u.Field(i).Type().Underlying().(*types.Struct); ok {
				return x.fieldByName(st, x.fieldAddrNoCheck(st, p, i), name)
			}
		}
	}
	fail("no field %s in %s", name, p.T)
	return nil
}

// varArg reads element i of a variadic argument slice.
func (x *Exec) varArg(st *State, v Val, i int) (Val, bool) {
	s, ok := v.(*SliceVal)
	if !ok {
		return nil, false
	}
	o := x.obj(st, s.Obj)
	if o.Elems == nil || i >= len(o.Elems) {
		return nil, false
	}
	return o.Elems[i], true
}

func sameZero(x *Exec, st *State, a, z Val, t types.Type) (r bool) {
	defer func() {
		if recover() != nil {
			r = false
		}
	}()
	return x.reify(st, a, t) == x.reify(st, z, t)
}

// keyByte is the first byte of a store key.
func keyInRange(k *Term, lo, hi *Term) *Term {
	fb := App("bat", k, intT(0))
	return And(Gt(App("blen", k), intT(0)), Ge(fb, lo), Lt(fb, hi))
}

// newDBIter models iteration as a ghost sequence of the distinct keys in range.
func newDBIter(x *Exec, st *State, ci *callInfo, k func(*State, []Val)) {
	var view *Term
	if strings.Contains(ci.key, "Snapshot") {
		p := x.asPtr(st, ci.args[0], nil)
		x.useSnap(st, p, ci.pos)
		view = x.snapView(st, p)
	} else {
		view = x.ghost(st, x.dbGhost(ci))
	}
	rp, ok := ci.args[1].(*PtrVal)
	if !ok {
		fail("%s: unknown iterator range", ci.pos)
	}
	inr := func(key *Term) *Term { return nil }
	desc := ""
	if rp.Nil.isTrue() {
		inr = func(key *Term) *Term { return tTrue }
		desc = "all"
	} else {
		o := x.obj(st, rp.Obj)
		if p, ok := o.G["pfx"].(*Term); ok {
			inr = func(key *Term) *Term {
				return And(Gt(App("blen", key), intT(0)), Eq(App("bat", key, intT(0)), p))
			}
			desc = "prefix"
		} else {
			sv := x.load(st, rp).(*StructVal)
			lo, hi := x.bTerm(st, sv.F[0]), x.bTerm(st, sv.F[1])
			inr = x.rangePred(st, lo, hi)
		}
	}
	if inr == nil {
		fn := x.freshFun("inrange", "Bool", "Bytes")
		inr = func(key *Term) *Term { return App(fn, key) }
		desc = "unknown"
	}
	_ = desc
	seq := fresh("itseq", arrSort("Int", "Bytes"))
	ix := x.freshFun("itidx", "Int", "Bytes")
	n := fresh("itn", "Int")
	i, kk := bvar("i", "Int"), bvar("k", "Bytes")
	present := func(key *Term) *Term { return App("is-some", Select(view, key)) }
	st.assume(
		Ge(n, intT(0)), Le(n, intT(maxLen)),
		Forall([]*Term{i}, Imp(And(Ge(i, intT(0)), Lt(i, n)), And(present(Select(seq, i)), inr(Select(seq, i)), Eq(App(ix, Select(seq, i)), i))), []*Term{Select(seq, i)}),
		Forall([]*Term{kk}, Imp(And(present(kk), inr(kk)), And(Ge(App(ix, kk), intT(0)), Lt(App(ix, kk), n), Eq(Select(seq, App(ix, kk)), kk))), []*Term{App(ix, kk)}, []*Term{Select(view, kk)}))
	x.bounds[n] = [2]*big.Int{big.NewInt(0), big.NewInt(maxLen)}
	x.assumed["leveldb: an iterator yields every key of the range exactly once; iteration does not fail"] = true
	it := x.newIter(st, "dbiter", map[string]Val{"n": n, "pos": intT(-1), "seq": seq, "view": view, "idx": strVal(ix), "open": tTrue})
	x.ghostAdd(st, "openIter", 1)
	k(st, one(it))
}

// rangePred interprets Start/Limit byte strings.
func (x *Exec) rangePred(st *State, lo, hi *Term) func(*Term) *Term {
	isN := func(t *Term, n string) bool { c := ctorOf(t); return c != nil && c.Name == n }
	switch {
	case isN(lo, "Bnil") && isN(hi, "Bnil"):
		return func(*Term) *Term { return tTrue }
	case isN(lo, "BNum") && isN(hi, "BNum") && lo.Args[0] == hi.Args[0]:
		p := lo.Args[0]
		return func(k *Term) *Term {
			// keys of 9 bytes with this prefix compare by number; other lengths are left open
			fn := "inr9"
			declFun(fn, "Bool", "Bytes", "Bytes", "Bytes")
			num := And(App("is-BNum", k), Eq(App("bnp", k), p))
			in := And(Ge(App("bnn", k), lo.Args[1]), Lt(App("bnn", k), hi.Args[1]))
			other := And(Gt(App("blen", k), intT(0)), Eq(App("bat", k, intT(0)), p), App(fn, k, lo, hi))
			return Ite(num, in, other)
		}
	}
	fn := x.freshFun("inrange", "Bool", "Bytes")
	return func(k *Term) *Term { return App(fn, k) }
}

func slicesContains(x *Exec, st *State, ci *callInfo, k func(*State, []Val)) {
	s := ci.args[0].(*SliceVal)
	arr := x.sliceArr(st, s)
	v := x.reify(st, ci.args[1], s.Elem)
	j := bvar("j", "Int")
	w := fresh("witness", "Int")
	r := fresh("contains", "Bool")
	st.assume(Imp(r, And(Ge(w, intT(0)), Lt(w, s.Len), Eq(Select(arr, w), v))),
		Imp(Not(r), Forall([]*Term{j}, Imp(And(Ge(j, intT(0)), Lt(j, s.Len)), Ne(Select(arr, j), v)), []*Term{Select(arr, j)})))
	k(st, one(r))
}

var reverseType = types.NewNamed(types.NewTypeName(0, nil, "reverse", nil), types.NewStruct(nil, nil), nil)

// lessTerm evaluates a comparison symbolically at two indices: the branch conditions taken and the value
// returned make up the term; what the paths assume besides (ranges of loaded values, facts about copies)
// comes back apart, guarded by the branches of its path.
func (x *Exec) lessTerm(st *State, ci *callInfo, call func(s *State, i, j *Term, k func(*State, []Val)), i, j *Term) (*Term, []*Term) {
	s := st.clone()
	n0, b0 := len(s.pc), len(s.branch)
	res := tFalse
	var facts []*Term
	var paths [][]*Term
	call(s, i, j, func(s2 *State, rs []Val) {
		bc := s2.branch[b0:]
		for _, p := range paths {
			apart := false
			for q := 0; q < len(p) && q < len(bc) && !apart; q++ {
				apart = p[q] == Not(bc[q])
			}
			if !apart {
				fail("%s: the comparison forks on an unknown condition", ci.pos)
			}
		}
		paths = append(paths, append([]*Term(nil), bc...))
		guard := And(bc...)
		res = Or(res, And(guard, rs[0].(*Term)))
		for _, c := range s2.pc[n0:] {
			facts = append(facts, Imp(guard, c))
		}
	})
	return res, facts
}

// freshIn lists the constants of t that were made after the mark.
func freshIn(t *Term, mark int) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "const" {
			if i := strings.LastIndex(t.Name, "!"); i >= 0 {
				if n, err := strconv.Atoi(t.Name[i+1:]); err == nil && n > mark {
					out = append(out, t)
				}
			}
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
	return out
}

func sortCaller(x *Exec, st *State, ci *callInfo, data Val) (sv *SliceVal, less func(s *State, i, j *Term, k func(*State, []Val))) {
	iv, ok := data.(*IfaceVal)
	if !ok {
		fail("%s: sort of an unknown value", ci.pos)
	}
	if iv.Dyn == types.Type(reverseType) {
		in, l := sortCaller(x, st, ci, iv.V.(TupleVal)[0])
		return in, func(s *State, i, j *Term, k func(*State, []Val)) { l(s, j, i, k) }
	}
	sv, ok = iv.V.(*SliceVal)
	if !ok {
		fail("%s: sort of %s", ci.pos, iv.Dyn)
	}
	var m *ssa.Function
	for _, n := range []string{"Less"} {
		if sel := x.prog.MethodSets.MethodSet(iv.Dyn).Lookup(nil, n); sel != nil {
			m = x.prog.MethodValue(sel)
		} else {
			ms := x.prog.MethodSets.MethodSet(iv.Dyn)
			for q := 0; q < ms.Len(); q++ {
				if ms.At(q).Obj().Name() == n {
					m = x.prog.MethodValue(ms.At(q))
				}
			}
		}
	}
	if m == nil {
		fail("%s: no Less method on %s", ci.pos, iv.Dyn)
	}
	if len(m.Blocks) == 0 {
		name := keyOf(m)
		if strings.Contains(name, "ByVersion") { // gowaves proto.ByVersion
			return sv, func(s *State, i, j *Term, k func(*State, []Val)) {
				a := x.loadElem(s, x.obj(s, sv.Obj), Add(sv.Off, i)).(*StructVal)
				b := x.loadElem(s, x.obj(s, sv.Obj), Add(sv.Off, j)).(*StructVal)
				r := tFalse
				for q := 2; q >= 0; q-- {
					u, v := a.F[q+1].(*Term), b.F[q+1].(*Term)
					r = Or(Lt(u, v), And(Eq(u, v), r))
				}
				x.assumed["gowaves: proto.ByVersion orders versions by (major, minor, patch)"] = true
				k(s, one(r))
			}
		}
		fail("%s: no body for %s", ci.pos, name)
	}
	return sv, func(s *State, i, j *Term, k func(*State, []Val)) {
		x.callFunc(s, ci.fr, m, []Val{iv.V, i, j}, nil, nil, ci.pos, k)
	}
}

func sortSort(x *Exec, st *State, ci *callInfo, k func(*State, []Val)) {
	sv, less := sortCaller(x, st, ci, ci.args[0])
	sortShape(x, st, ci, ci.args[0])
	doSort(x, st, ci, sv, less)
	if !st.dead {
		k(st, nil)
	}
}

func sortSlice(x *Exec, st *State, ci *callInfo, k func(*State, []Val)) {
	iv, ok := ci.args[0].(*IfaceVal)
	if !ok {
		fail("%s: sort.Slice of an unknown value", ci.pos)
	}
	sv := iv.V.(*SliceVal)
	f := ci.args[1].(*FuncVal)
	fn := f.Fn.(*ssa.Function)
	doSort(x, st, ci, sv, func(s *State, i, j *Term, k func(*State, []Val)) {
		x.callFunc(s, ci.fr, fn, []Val{i, j}, f.Bind, nil, ci.pos, k)
	})
	if !st.dead {
		k(st, nil)
	}
}

// sortShape checks that Len and Swap of a sort.Interface do what the model assumes.
func sortShape(x *Exec, st *State, ci *callInfo, data Val) {
	iv, ok := data.(*IfaceVal)
	if !ok {
		return
	}
	if iv.Dyn == types.Type(reverseType) {
		sortShape(x, st, ci, iv.V.(TupleVal)[0])
		return
	}
	sv, ok := iv.V.(*SliceVal)
	if !ok {
		return
	}
	ms := x.prog.MethodSets.MethodSet(iv.Dyn)
	for q := 0; q < ms.Len(); q++ {
		m := x.prog.MethodValue(ms.At(q))
		if m == nil || len(m.Blocks) == 0 {
			continue // a library type
		}
		s := st.clone()
		switch ms.At(q).Obj().Name() {
		case "Len":
			x.callFunc(s, ci.fr, m, []Val{iv.V}, nil, nil, ci.pos, func(s2 *State, r []Val) {
				x.oblige(s2, "order", "Len of the sorted collection is its length", Eq(r[0].(*Term), sv.Len), ci.pos, nil)
			})
		case "Swap":
			a, b := fresh("ia", "Int"), fresh("ib", "Int")
			s.assume(Ge(a, intT(0)), Lt(a, sv.Len), Ge(b, intT(0)), Lt(b, sv.Len))
			if s.dead {
				continue
			}
			o := x.obj(s, sv.Obj)
			if o.Elems != nil {
				o = x.toArr(s, o)
			}
			old := o.Arr
			x.callFunc(s, ci.fr, m, []Val{iv.V, a, b}, nil, nil, ci.pos, func(s2 *State, r []Val) {
				n := x.obj(s2, sv.Obj)
				g := tFalse
				if n.Arr != nil {
					g = Eq(n.Arr, Store(Store(old, a, Select(old, b)), b, Select(old, a)))
				}
				x.oblige(s2, "order", "Swap of the sorted collection exchanges two elements", g, ci.pos, nil)
			})
		}
	}
}

func doSort(x *Exec, st *State, ci *callInfo, sv *SliceVal, less func(s *State, i, j *Term, k func(*State, []Val))) {
	o := x.obj(st, sv.Obj)
	if o.Frozen {
		x.oblige(st, "frame", "sorting a shared slice", tFalse, ci.pos, nil)
		return
	}
	if o.Elems != nil {
		o = x.toArr(st, o)
	}
	old := o.Arr
	if !(sv.Off.isInt() && sv.Off.Int.Sign() == 0) {
		fail("%s: sort of a subslice", ci.pos)
	}
	na := fresh("sorted", old.Sort)
	perm, inv := x.freshFun("perm", "Int", "Int"), x.freshFun("inv", "Int", "Int")
	n := sv.Len
	j := bvar("j", "Int")
	in := func(t *Term) *Term { return And(Ge(t, intT(0)), Lt(t, n)) }
	// safety of Less and its order properties, for arbitrary indices of the old contents
	a, b, c := fresh("ia", "Int"), fresh("ib", "Int"), fresh("ic", "Int")
	s := st.clone()
	s.assume(in(a), in(b), in(c))
	ev := func(p, q *Term) *Term {
		r, fs := x.lessTerm(s, ci, less, p, q)
		s.assume(fs...)
		return r
	}
	lab, lba, lbc, lac, lca, lcb, laa := ev(a, b), ev(b, a), ev(b, c), ev(a, c), ev(c, a), ev(c, b), ev(a, a)
	if !s.dead {
		x.oblige(s, "order", "the comparison is a strict weak order: irreflexive", Not(laa), ci.pos, nil)
		x.oblige(s, "order", "the comparison is a strict weak order: transitive", Imp(And(lab, lbc), lac), ci.pos, nil)
		x.oblige(s, "order", "the comparison is a strict weak order: incomparability is transitive", Imp(And(Not(lab), Not(lba), Not(lbc), Not(lcb)), And(Not(lac), Not(lca))), ci.pos, nil)
	}
	m := x.mut(st, sv.Obj)
	m.Arr = na
	st.assume(
		Forall([]*Term{j}, Imp(in(j), And(in(App(perm, j)), Eq(Select(na, j), Select(old, App(perm, j))), Eq(App(inv, App(perm, j)), j))), []*Term{App(perm, j)}, []*Term{Select(na, j)}),
		Forall([]*Term{j}, Imp(in(j), And(in(App(inv, j)), Eq(App(perm, App(inv, j)), j), Eq(Select(na, App(inv, j)), Select(old, j)))), []*Term{App(inv, j)}, []*Term{Select(old, j)}))
	// sortedness: evaluate Less on the new contents at symbolic positions
	p, q := fresh("sp", "Int"), fresh("sq", "Int")
	s2 := st.clone()
	s2.assume(in(p), in(q))
	x.silent++
	mark := freshCnt
	lqp, facts := x.lessTerm(s2, ci, less, q, p)
	x.silent--
	bp, bq := bvar("sp", "Int"), bvar("sq", "Int")
	sub := map[*Term]*Term{p: bp, q: bq}
	body := Not(lqp)
	if fs := freshIn(lqp, mark); len(fs) > 0 {
		// values the comparison chose depend on the positions
		for _, f := range fs {
			fn := x.freshFun("sk", f.Sort, "Int", "Int")
			sub[f] = App(fn, bp, bq)
		}
		for _, f := range facts {
			ok := true
			for _, c := range freshIn(f, mark) {
				ok = ok && sub[c] != nil
			}
			if ok {
				body = And(body, f)
			}
		}
	}
	body = Subst(Imp(And(in(p), in(q), Lt(p, q)), body), sub)
	st.assume(Forall([]*Term{bp, bq}, body, []*Term{Select(na, bp), Select(na, bq)}))
	x.assumed["sort.Sort: the result is a permutation ordered by Less when Less is a strict weak order (checked)"] = true
}
