package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

const maxLen = 1 << 32 // no slice, map or string is longer than this (assumption)

type State struct {
	heap   map[int]*Obj
	ghosts map[string]*Term
	pc     []*Term
	known  map[*Term]bool
	dead   bool
	trail  []string
	branch []*Term        // conditions of the branches taken
	events map[string]int // concrete counters
}

func (s *State) clone() *State {
	n := &State{heap: make(map[int]*Obj, len(s.heap)), ghosts: make(map[string]*Term, len(s.ghosts)), known: make(map[*Term]bool, len(s.known)), dead: s.dead}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.ghosts {
		n.ghosts[k] = v
	}
	for k, v := range s.known {
		n.known[k] = v
	}
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.trail = s.trail[:len(s.trail):len(s.trail)]
	n.branch = s.branch[:len(s.branch):len(s.branch)]
	return n
}

func (s *State) assume(ts ...*Term) {
	for _, t := range ts {
		if t.isTrue() || s.known[t] {
			continue
		}
		if t.Op == "and" {
			s.assume(t.Args...)
			continue
		}
		if t.isFalse() || s.known[Not(t)] {
			s.dead = true
			s.pc = append(s.pc, tFalse)
			return
		}
		if t.Op == "=>" {
			if s.known[t.Args[0]] {
				s.assume(t.Args[1])
				continue
			}
			if s.known[Not(t.Args[1])] {
				s.assume(Not(t.Args[0]))
				continue
			}
		}
		if t.Op == "not" && t.Args[0].Op == "or" {
			for _, a := range t.Args[0].Args {
				s.assume(Not(a))
			}
			continue
		}
		s.known[t] = true
		s.pc = append(s.pc, t)
		// re-examine implications whose premise just became known
		for _, p := range s.pc {
			if p.Op == "=>" && p.Args[0] == t && !s.known[p.Args[1]] {
				s.assume(p.Args[1])
			} else if p.Op == "=>" && p.Args[1] == Not(t) && !s.known[Not(p.Args[0])] {
				s.assume(Not(p.Args[0]))
			}
		}
	}
}

// decide tells whether a condition is already known on this path.
func (s *State) decide(t *Term) (val, known bool) {
	if t.isTrue() || s.known[t] {
		return true, true
	}
	if t.isFalse() || s.known[Not(t)] {
		return false, true
	}
	switch t.Op {
	case "not":
		v, k := s.decide(t.Args[0])
		return !v, k
	case "and":
		all := true
		for _, a := range t.Args {
			v, k := s.decide(a)
			if k && !v {
				return false, true
			}
			if !k {
				all = false
			}
		}
		return true, all
	case "or":
		none := true
		for _, a := range t.Args {
			v, k := s.decide(a)
			if k && v {
				return true, true
			}
			if !k {
				none = false
			}
		}
		return false, none
	}
	return false, false
}

func (x *Exec) obj(st *State, id int) *Obj {
	if o, ok := st.heap[id]; ok {
		return o
	}
	if o, ok := x.base[id]; ok {
		return o
	}
	fail("no object %d", id)
	return nil
}

// mut returns a private copy of an object for modification.
func (x *Exec) mut(st *State, id int) *Obj {
	o := *x.obj(st, id)
	if o.G != nil {
		g := map[string]Val{}
		for k, v := range o.G {
			g[k] = v
		}
		o.G = g
	}
	st.heap[id] = &o
	return &o
}

func (x *Exec) newObj(st *State, o Obj) int {
	x.nobj++
	o.ID = x.nobj
	st.heap[o.ID] = &o
	return o.ID
}

// lazyObj returns the base object with the given name, creating it on first use.
func (x *Exec) lazyObj(name string, mkf func() *Obj) int {
	if id, ok := x.lazy[name]; ok {
		return id
	}
	o := mkf()
	x.nobj++
	o.ID = x.nobj
	o.Name = name
	x.lazy[name] = o.ID
	x.base[o.ID] = o
	return o.ID
}

func zeroOf(sort string) *Term {
	switch sort {
	case "Int":
		return intT(0)
	case "Bool":
		return tFalse
	case "Err":
		return App("errnil")
	case "Ref":
		return App("refnil")
	case "Str":
		return App("strempty")
	case "Bytes":
		return App("Bnil")
	case "BigP":
		return App("bignil")
	case "Unit":
		return App("unit")
	case "AddrPort":
		return App("apair", zeroOf("Addr"), intT(0))
	}
	if strings.HasPrefix(sort, "Slc_") {
		k := dts[sort].Ctors[0]
		_, es := arrParts(k.Sorts[0])
		return App(k.Name, ConstArr(k.Sorts[0], zeroOf(es)), intT(0))
	}
	if d, ok := dts[sort]; ok && len(d.Ctors) == 1 {
		var as []*Term
		for _, s := range d.Ctors[0].Sorts {
			as = append(as, zeroOf(s))
		}
		return App(d.Ctors[0].Name, as...)
	}
	declFun("zero_"+sort, sort)
	return App("zero_" + sort)
}

func (x *Exec) zeroVal(st *State, t types.Type) Val {
	if s, ok := namedOpaque(t); ok {
		if shortType(t) == "time.Time" {
			return App("tzero")
		}
		if shortType(t) == "proto.B58Bytes" {
			return x.bytesVal(st, App("Bnil"))
		}
		return zeroOf(s)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		sv := &StructVal{T: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.F = append(sv.F, x.zeroVal(st, u.Field(i).Type()))
		}
		return sv
	case *types.Pointer:
		return &PtrVal{T: u.Elem(), Nil: tTrue}
	case *types.Slice:
		return x.nilSlice(st, u.Elem())
	case *types.Map:
		return &MapVal{T: u, Nil: tTrue}
	case *types.Signature:
		return &FuncVal{}
	case *types.Interface:
		if isErrorType(t) {
			return App("errnil")
		}
		return App("refnil")
	case *types.Array:
		if isByte(u.Elem()) {
			o := Obj{T: u.Elem(), Kind: "arr", Segs: []Seg{mkSeg("zeros", intT(u.Len()))}}
			return &SliceVal{Elem: u.Elem(), Obj: x.newObj(st, o), Off: intT(0), Len: intT(u.Len()), Cap: intT(u.Len()), Nil: tFalse}
		}
		fail("zero value of array type %s", t)
	}
	return zeroOf(sortOf(t))
}

func (x *Exec) nilSlice(st *State, elem types.Type) *SliceVal {
	o := Obj{T: elem, Kind: "arr", New: true}
	if isByte(elem) {
		o.Segs = []Seg{}
	} else {
		es := sortOf(elem)
		o.Arr = ConstArr(arrSort("Int", es), zeroOf(es))
	}
	return &SliceVal{Elem: elem, Obj: x.newObj(st, o), Off: intT(0), Len: intT(0), Cap: intT(0), Nil: tTrue}
}

// symVal builds an unconstrained value of a Go type; names are deterministic.
func (x *Exec) symVal(st *State, name string, t types.Type) Val {
	if s, ok := namedOpaque(t); ok {
		if shortType(t) == "proto.B58Bytes" {
			return x.bytesVal(st, cst(name, "Bytes"))
		}
		if s == "AddrPort" {
			c := cst(name, s)
			st.assume(Ge(App("apPort", c), intT(0)), Le(App("apPort", c), intT(65535)))
			return c
		}
		return cst(name, s)
	}
	if isErrorType(t) {
		return cst(name, "Err")
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		c := cst(name, sortOf(t))
		if c.Sort == "Int" {
			st.assume(inRange(c, t))
			x.setBounds(c, t)
		}
		return c
	case *types.Struct:
		sv := &StructVal{T: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.F = append(sv.F, x.symVal(st, name+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return sv
	case *types.Pointer:
		nilc := cst(name+".nil", "Bool")
		el := u.Elem()
		if immutableTypes[shortType(el)] {
			r := cst(name, "Ref")
			return &PtrVal{T: el, Ref: r, Nil: Eq(r, App("refnil"))}
		}
		if isBigPtr(t) {
			id := x.lazyObj(name, func() *Obj { return &Obj{T: el, V: cst(name+".val", "Int"), Kind: "big"} })
			return &PtrVal{T: el, Obj: id, Nil: nilc}
		}
		id := x.lazyObj(name, func() *Obj { return &Obj{T: el, Kind: "cell"} })
		return &PtrVal{T: el, Obj: id, Nil: nilc}
	case *types.Slice:
		if isByte(u.Elem()) {
			b := cst(name, "Bytes")
			return x.bytesVal(st, b)
		}
		es := sortOf(u.Elem())
		id := x.lazyObj(name, func() *Obj {
			return &Obj{T: u.Elem(), Kind: "arr", Arr: cst(name+".arr", arrSort("Int", es))}
		})
		ln, cp, nl := cst(name+".len", "Int"), cst(name+".cap", "Int"), cst(name+".nil", "Bool")
		st.assume(Ge(ln, intT(0)), Le(ln, intT(maxLen)), Ge(cp, ln), Le(cp, intT(maxLen)), Imp(nl, Eq(ln, intT(0))))
		x.bounds[ln] = [2]*big.Int{big.NewInt(0), big.NewInt(maxLen)}
		x.bounds[cp] = [2]*big.Int{big.NewInt(0), big.NewInt(maxLen)}
		return &SliceVal{Elem: u.Elem(), Obj: id, Off: intT(0), Len: ln, Cap: cp, Nil: nl}
	case *types.Map:
		ks, vs := sortOf(u.Key()), sortOf(u.Elem())
		id := x.lazyObj(name, func() *Obj {
			return &Obj{T: t, Kind: "map", M: &MapC{cst(name+".dom", arrSort(ks, "Bool")), cst(name+".val", arrSort(ks, vs)), cst(name+".card", "Int")}}
		})
		x.mapFacts(st, x.obj(st, id).M)
		nl := cst(name+".nil", "Bool")
		st.assume(Imp(nl, Eq(x.obj(st, id).M.Card, intT(0))))
		return &MapVal{T: u, Obj: id, Nil: nl}
	case *types.Array:
		if isByte(u.Elem()) {
			return x.bytesVal(st, cst(name, "Bytes"))
		}
		fail("symbolic array %s", t)
	}
	return cst(name, "Ref")
}

func (x *Exec) mapFacts(st *State, m *MapC) {
	ks, _ := arrParts(m.Dom.Sort)
	k := bvar("k", ks)
	st.assume(Ge(m.Card, intT(0)), Le(m.Card, intT(maxLen)),
		Forall([]*Term{k}, Imp(Select(m.Dom, k), Gt(m.Card, intT(0))), []*Term{Select(m.Dom, k)}))
	// an empty map has no keys; a non-empty one has a witness
	w := fresh("mapwit", ks)
	st.assume(Imp(Gt(m.Card, intT(0)), Select(m.Dom, w)))
	x.bounds[m.Card] = [2]*big.Int{big.NewInt(0), big.NewInt(maxLen)}
}

func (x *Exec) setBounds(c *Term, t types.Type) {
	if lo, hi, ok := intRange(t); ok {
		if _, op := namedOpaque(t); !op {
			x.bounds[c] = [2]*big.Int{lo, hi}
		}
	}
}

func (x *Exec) termBounds(t *Term) (lo, hi *big.Int) {
	if b, ok := x.bounds[t]; ok {
		return b[0], b[1]
	}
	switch t.Op {
	case "int":
		return t.Int, t.Int
	case "+":
		lo, hi = big.NewInt(0), big.NewInt(0)
		for _, a := range t.Args {
			l, h := x.termBounds(a)
			if l == nil {
				return nil, nil
			}
			lo, hi = new(big.Int).Add(lo, l), new(big.Int).Add(hi, h)
		}
		return lo, hi
	case "*":
		if t.Args[0].isInt() {
			l, h := x.termBounds(t.Args[1])
			if l == nil {
				return nil, nil
			}
			a, b := new(big.Int).Mul(t.Args[0].Int, l), new(big.Int).Mul(t.Args[0].Int, h)
			if a.Cmp(b) > 0 {
				a, b = b, a
			}
			return a, b
		}
	case "ite":
		l1, h1 := x.termBounds(t.Args[1])
		l2, h2 := x.termBounds(t.Args[2])
		if l1 == nil || l2 == nil {
			return nil, nil
		}
		if l2.Cmp(l1) < 0 {
			l1 = l2
		}
		if h2.Cmp(h1) > 0 {
			h1 = h2
		}
		return l1, h1
	case "mod":
		if t.Args[1].isInt() && t.Args[1].Int.Sign() > 0 {
			return big.NewInt(0), new(big.Int).Sub(t.Args[1].Int, big.NewInt(1))
		}
	}
	return nil, nil
}

// wrap reduces an exact integer result to the range of a machine type.
func (x *Exec) wrap(t *Term, ty types.Type) *Term {
	lo, hi, ok := intRange(ty)
	if !ok {
		return t
	}
	l, h := x.termBounds(t)
	if l != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return t
	}
	m := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
	var w *Term
	if lo.Sign() == 0 {
		w = Mod(t, bigT(m))
	} else {
		w = Add(Mod(Sub(t, bigT(lo)), bigT(m)), bigT(lo))
	}
	r := Ite(And(Ge(t, bigT(lo)), Le(t, bigT(hi))), t, w)
	x.bounds[r] = [2]*big.Int{lo, hi}
	return r
}

// ---- byte strings ----
func (x *Exec) bytesVal(st *State, b *Term) *SliceVal {
	segs := termSegs(b)
	o := Obj{T: types.Typ[types.Uint8], Kind: "arr", Segs: segs}
	ln := segsLen(segs)
	if !ln.isInt() && !b.bound {
		st.assume(Ge(ln, intT(0)), Le(ln, intT(maxLen)))
		x.bounds[ln] = [2]*big.Int{big.NewInt(0), big.NewInt(maxLen)}
	}
	return &SliceVal{Elem: types.Typ[types.Uint8], Obj: x.newObj(st, o), Off: intT(0), Len: ln, Cap: ln, Nil: Eq(b, App("Bnil"))}
}

func mkSeg(k string, t *Term) Seg {
	switch k {
	case "byte":
		return Seg{k, t, intT(1)}
	case "be64":
		return Seg{k, t, intT(8)}
	case "id":
		return Seg{k, t, App("idlen", t)}
	case "addr":
		if t.Op == "app" && t.Name == "unz" {
			return Seg{k, t, App("alen", t.Args[0])} // the zone is not part of the bytes
		}
		return Seg{k, t, App("alen", t)}
	case "gen":
		return Seg{k, t, intT(26)}
	case "zeros":
		return Seg{k, nil, t}
	}
	return Seg{"raw", t, App("blen", t)}
}

func termSegs(b *Term) []Seg {
	if c := ctorOf(b); c != nil {
		switch c.Name {
		case "Bnil":
			return []Seg{}
		case "BCtr":
			return []Seg{mkSeg("byte", b.Args[0]), mkSeg("byte", b.Args[1])}
		case "BNum":
			return []Seg{mkSeg("byte", b.Args[0]), mkSeg("be64", b.Args[1])}
		case "BID":
			return []Seg{mkSeg("byte", b.Args[0]), mkSeg("id", b.Args[1])}
		case "BAddr":
			return []Seg{mkSeg("byte", b.Args[0]), mkSeg("addr", b.Args[1])}
		case "BU64":
			return []Seg{mkSeg("be64", b.Args[0])}
		case "BIdV":
			return []Seg{mkSeg("id", b.Args[0])}
		case "BAddrV":
			return []Seg{mkSeg("addr", b.Args[0])}
		case "BGen":
			return []Seg{mkSeg("gen", b.Args[0])}
		}
	}
	return []Seg{mkSeg("raw", b)}
}

func segsLen(s []Seg) *Term {
	l := intT(0)
	for _, g := range s {
		l = Add(l, g.Len)
	}
	return l
}

func segsTerm(s []Seg) *Term {
	// drop empty segments, expand zero bytes
	var out []Seg
	for _, g := range s {
		if g.Len.isInt() && g.Len.Int.Sign() == 0 {
			continue
		}
		if g.K == "zeros" && g.Len.isInt() {
			switch g.Len.Int.Int64() {
			case 8:
				out = append(out, mkSeg("be64", intT(0)))
				continue
			case 1:
				out = append(out, mkSeg("byte", intT(0)))
				continue
			case 2:
				out = append(out, mkSeg("byte", intT(0)), mkSeg("byte", intT(0)))
				continue
			case 9:
				out = append(out, mkSeg("byte", intT(0)), mkSeg("be64", intT(0)))
				continue
			}
		}
		out = append(out, g)
	}
	k := ""
	for _, g := range out {
		k += g.K + " "
	}
	switch strings.TrimSpace(k) {
	case "":
		return App("Bnil")
	case "byte byte":
		return App("BCtr", out[0].T, out[1].T)
	case "byte be64":
		return App("BNum", out[0].T, out[1].T)
	case "byte id":
		return App("BID", out[0].T, out[1].T)
	case "byte addr":
		return App("BAddr", out[0].T, out[1].T)
	case "be64":
		return App("BU64", out[0].T)
	case "id":
		return App("BIdV", out[0].T)
	case "addr":
		return App("BAddrV", out[0].T)
	case "gen":
		return App("BGen", out[0].T)
	case "raw":
		return out[0].T
	}
	return fresh("rawbytes", "Bytes")
}

// subSegs extracts the segments [off, off+ln) if the boundaries are syntactically visible.
func subSegs(s []Seg, off, ln *Term) ([]Seg, bool) {
	run := intT(0)
	i := 0
	for i < len(s) && run != off {
		g := s[i]
		if g.K == "zeros" {
			d := Sub(off, run)
			rest := Sub(g.Len, d)
			if d.isInt() && d.Int.Sign() > 0 && (rest.isInt() && rest.Int.Sign() >= 0 || !rest.isInt()) {
				ns := append([]Seg{}, s[:i]...)
				ns = append(ns, mkSeg("zeros", d), mkSeg("zeros", rest))
				ns = append(ns, s[i+1:]...)
				return subSegs(ns, off, ln)
			}
		}
		if len(s) == 1 && g.K == "raw" && off.isInt() && Add(off, ln) == g.Len {
			return []Seg{mkSeg("raw", App("bsub", g.T, off))}, true
		}
		run = Add(run, g.Len)
		i++
	}
	if run != off {
		return nil, false
	}
	var out []Seg
	rem := ln
	for i < len(s) {
		if rem.isInt() && rem.Int.Sign() == 0 {
			return out, true
		}
		g := s[i]
		if g.K == "zeros" && g.Len != rem {
			d := Sub(g.Len, rem)
			if d.isInt() && d.Int.Sign() > 0 {
				return append(out, mkSeg("zeros", rem)), true
			}
		}
		rem = Sub(rem, g.Len)
		if rem.isInt() && rem.Int.Sign() < 0 {
			return nil, false
		}
		out = append(out, g)
		i++
	}
	return out, rem.isInt() && rem.Int.Sign() == 0
}

// subSegs also finds a segment of symbolic length if it provably has the requested one.
func (x *Exec) subSegs(st *State, s []Seg, off, ln *Term) ([]Seg, bool) {
	if r, ok := subSegs(s, off, ln); ok {
		return r, true
	}
	if len(s) == 1 && off.isInt() && off.Int.Sign() == 0 && ln.isInt() && !s[0].Len.isInt() && x.quick(st, Eq(s[0].Len, ln)) {
		return []Seg{{s[0].K, s[0].T, ln}}, true
	}
	return nil, false
}

func (x *Exec) bytesTerm(st *State, s *SliceVal) *Term {
	o := x.obj(st, s.Obj)
	if o.Segs == nil {
		return fresh("rawbytes", "Bytes")
	}
	g, ok := x.subSegs(st, o.Segs, s.Off, s.Len)
	if !ok {
		if len(o.Segs) == 1 && s.Off.isInt() && s.Off.Int.Sign() == 0 {
			return App("bprefix", segsTerm(o.Segs), s.Len)
		}
		return fresh("rawbytes", "Bytes")
	}
	return segsTerm(g)
}

// writeSegs overwrites a byte array at an offset.
func writeSegs(s []Seg, off *Term, w []Seg) ([]Seg, bool) {
	wl := segsLen(w)
	run := intT(0)
	for i, g := range s {
		d := Sub(off, run)
		if d.isInt() && d.Int.Sign() == 0 {
			// consume segments covered by w
			rem := wl
			j := i
			var tail []Seg
			for j < len(s) && !(rem.isInt() && rem.Int.Sign() == 0) {
				r2 := Sub(rem, s[j].Len)
				if r2.isInt() && r2.Int.Sign() < 0 || !r2.isInt() && s[j].K == "zeros" {
					if s[j].K != "zeros" {
						return nil, false
					}
					tail = []Seg{mkSeg("zeros", Sub(s[j].Len, rem))}
					rem = intT(0)
					j++
					break
				}
				rem = r2
				j++
			}
			if !(rem.isInt() && rem.Int.Sign() == 0) {
				return nil, false
			}
			ns := append([]Seg{}, s[:i]...)
			ns = append(ns, w...)
			ns = append(ns, tail...)
			return append(ns, s[j:]...), true
		}
		if g.K == "zeros" && d.isInt() && d.Int.Sign() > 0 {
			rest := Sub(g.Len, d)
			if !rest.isInt() || rest.Int.Sign() > 0 {
				ns := append([]Seg{}, s[:i]...)
				ns = append(ns, mkSeg("zeros", d), mkSeg("zeros", rest))
				ns = append(ns, s[i+1:]...)
				return writeSegs(ns, off, w)
			}
		}
		run = Add(run, g.Len)
	}
	return nil, false
}

// ---- reification ----
func (x *Exec) reify(st *State, v Val, t types.Type) *Term {
	switch a := v.(type) {
	case *Term:
		return a
	case *StructVal:
		u := a.T.Underlying().(*types.Struct)
		if u.NumFields() == 0 {
			return App("unit")
		}
		d := structDT(a.T)
		var as []*Term
		for i, f := range a.F {
			as = append(as, x.reify(st, f, u.Field(i).Type()))
		}
		return App(d.Ctors[0].Name, as...)
	case *SliceVal:
		if isByte(a.Elem) {
			return x.bytesTerm(st, a)
		}
		return App("slc_"+slcSort(sortOf(a.Elem))[4:], x.sliceArr(st, a), a.Len)
	case *PtrVal:
		if a.Ref != nil {
			return a.Ref
		}
		if shortType(a.T) == "big.Int" {
			if a.Nil.isTrue() {
				return App("bignil")
			}
			x.freeze(st, a.Obj)
			if v, ok := x.load(st, a).(*Term); ok && v.Op == "app" && v.Name == "bigval" && a.Nil.Op == "app" && a.Nil.Name == "is-bignil" && a.Nil.Args[0] == v.Args[0] {
				return v.Args[0]
			}
			return Ite(a.Nil, App("bignil"), App("bigv", x.load(st, a).(*Term)))
		}
		if a.Nil.isTrue() {
			return App("refnil")
		}
		return x.refOf(st, a)
	case *IfaceVal:
		if isErrorType(t) {
			return fresh("err", "Err")
		}
		if p, ok := a.V.(*PtrVal); ok {
			r := x.reify(st, p, a.Dyn)
			for _, f := range convFacts[shortType(p.T)] {
				x.assumed["conv "+shortType(p.T)+": "+f.e.Src] = true
				env := &SEnv{x: x, st: st, vars: map[string]Val{f.param: p}, pkg: f.pkg}
				st.assume(Imp(Not(p.Nil), env.boolean(f.e)))
			}
			return r
		}
		return fresh("iface", "Ref")
	case *MapVal:
		return fresh("map", "Ref")
	case *FuncVal:
		return fresh("func", "Ref")
	}
	fail("cannot reify %T", v)
	return nil
}

func (x *Exec) freeze(st *State, id int) {
	if id == 0 {
		return
	}
	o := x.obj(st, id)
	if !o.Frozen {
		x.mut(st, id).Frozen = true
	}
}

// refOf gives a pointer to a local object an identity as a Ref.
func (x *Exec) refOf(st *State, p *PtrVal) *Term {
	if p.Ref != nil && len(p.Path) == 0 {
		return Ite(p.Nil, App("refnil"), p.Ref)
	}
	if len(p.Path) > 0 {
		return fresh("ref", "Ref")
	}
	o := x.obj(st, p.Obj)
	if r, ok := o.G["ref"].(*Term); ok {
		return Ite(p.Nil, App("refnil"), r)
	}
	r := cst(fmt.Sprintf("obj!%d", p.Obj), "Ref")
	m := x.mut(st, p.Obj)
	if m.G == nil {
		m.G = map[string]Val{}
	}
	m.G["ref"] = r
	x.refObj[r] = p.Obj
	st.assume(Ne(r, App("refnil")))
	if immutableTypes[shortType(p.T)] {
		m.Frozen = true
		x.refFacts(st, r, p)
	}
	return Ite(p.Nil, App("refnil"), r)
}

// refFacts relates the fields of a local object to the reference functions of its identity.
func (x *Exec) refFacts(st *State, r *Term, p *PtrVal) {
	var rec func(prefix string, v Val, t types.Type)
	rec = func(prefix string, v Val, t types.Type) {
		if sv, ok := v.(*StructVal); ok {
			u := sv.T.Underlying().(*types.Struct)
			for i, f := range sv.F {
				rec(prefix+"."+u.Field(i).Name(), f, u.Field(i).Type())
			}
			return
		}
		so := sortOf(t)
		declFun(prefix, so, "Ref")
		st.assume(Eq(App(prefix, r), x.reify(st, v, t)))
	}
	rec("fld."+sanit(shortType(p.T)), x.load(st, p), p.T)
}

func (x *Exec) sliceArr(st *State, a *SliceVal) *Term {
	o := x.obj(st, a.Obj)
	es := sortOf(a.Elem)
	if o.Elems != nil {
		arr := ConstArr(arrSort("Int", es), zeroOf(es))
		for i, e := range o.Elems {
			arr = Store(arr, Sub(intT(int64(i)), a.Off), x.reify(st, e, a.Elem))
		}
		return arr
	}
	if a.Off.isInt() && a.Off.Int.Sign() == 0 {
		return o.Arr
	}
	n := fresh("shift", o.Arr.Sort)
	j := bvar("j", "Int")
	st.assume(Forall([]*Term{j}, Eq(Select(n, j), Select(o.Arr, Add(j, a.Off))), []*Term{Select(n, j)}))
	// also the other direction, so that facts about the base array transfer
	st.assume(Forall([]*Term{j}, Eq(Select(o.Arr, j), Select(n, Sub(j, a.Off))), []*Term{Select(o.Arr, j)}))
	return n
}

func (x *Exec) unreify(st *State, t *Term, ty types.Type) Val {
	if s, ok := namedOpaque(ty); ok {
		if shortType(ty) == "proto.B58Bytes" {
			return x.bytesVal(st, t)
		}
		if s != t.Sort {
			fail("unreify %s as %s", t.Sort, ty)
		}
		if s == "AddrPort" && !t.bound {
			st.assume(Ge(App("apPort", t), intT(0)), Le(App("apPort", t), intT(65535)))
		}
		return t
	}
	if isErrorType(ty) {
		return t
	}
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		if t.Sort == "Int" && !t.bound {
			if _, known := x.bounds[t]; !known || !t.isInt() {
				st.assume(inRange(t, ty))
				if t.Op != "int" {
					x.setBounds(t, ty)
				}
			}
		}
		return t
	case *types.Struct:
		sv := &StructVal{T: ty}
		n := structName(ty)
		structDT(ty)
		for i := 0; i < u.NumFields(); i++ {
			sv.F = append(sv.F, x.unreify(st, App(n+"."+u.Field(i).Name(), t), u.Field(i).Type()))
		}
		return sv
	case *types.Slice:
		if isByte(u.Elem()) {
			return x.bytesVal(st, t)
		}
		s := slcSort(sortOf(u.Elem()))
		ln := App("len_"+s[4:], t)
		if !ln.isInt() && !t.bound {
			st.assume(Ge(ln, intT(0)), Le(ln, intT(maxLen)))
			x.bounds[ln] = [2]*big.Int{big.NewInt(0), big.NewInt(maxLen)}
		}
		id := x.newObj(st, Obj{T: u.Elem(), Kind: "arr", Arr: App("arr_"+s[4:], t), Frozen: true})
		cp, nl := fresh("cap", "Int"), fresh("nil", "Bool")
		if !t.bound {
			st.assume(Ge(cp, ln), Le(cp, intT(maxLen)), Imp(nl, Eq(ln, intT(0))))
		}
		return &SliceVal{Elem: u.Elem(), Obj: id, Off: intT(0), Len: ln, Cap: cp, Nil: nl}
	case *types.Pointer:
		if isBigPtr(ty) {
			id := x.newObj(st, Obj{T: u.Elem(), Kind: "big", V: App("bigval", t), Frozen: true})
			return &PtrVal{T: u.Elem(), Obj: id, Nil: App("is-bignil", t)}
		}
		if id, ok := x.refObj[t]; ok {
			return &PtrVal{T: u.Elem(), Obj: id, Nil: tFalse}
		}
		return &PtrVal{T: u.Elem(), Ref: t, Nil: Eq(t, App("refnil"))}
	case *types.Array:
		if isByte(u.Elem()) {
			return x.bytesVal(st, t)
		}
	}
	return t
}

// ---- memory access ----
func (x *Exec) fieldVal(v Val, i int) Val {
	return v.(*StructVal).F[i]
}

func (x *Exec) cellVal(st *State, o *Obj) Val {
	if o.V == nil {
		if o.Name == "" {
			fail("object %d has no contents", o.ID)
		}
		// lazily created contents are deterministic: they may be computed again in another state
		v := x.symVal(st, o.Name, o.T)
		n := *o
		n.V = v
		if _, inHeap := st.heap[o.ID]; inHeap {
			st.heap[o.ID] = &n
		} else {
			x.base[o.ID] = &n
		}
		x.lazyFacts = append(x.lazyFacts, nil)
		return v
	}
	return o.V
}

func (x *Exec) loadRef(st *State, ref *Term, prefix string, t types.Type) Val {
	if _, op := namedOpaque(t); !op {
		if u, ok := t.Underlying().(*types.Struct); ok {
			sv := &StructVal{T: t}
			for i := 0; i < u.NumFields(); i++ {
				sv.F = append(sv.F, x.loadRef(st, ref, prefix+"."+u.Field(i).Name(), u.Field(i).Type()))
			}
			return sv
		}
	}
	if m, ok := t.Underlying().(*types.Map); ok {
		_ = m
		return cst(fmt.Sprintf("opaque!%s", sanit(prefix)), "Ref")
	}
	so := sortOf(t)
	declFun(prefix, so, "Ref")
	return x.unreify(st, App(prefix, ref), t)
}

func (x *Exec) load(st *State, p *PtrVal) Val {
	if p.Ref != nil {
		base := x.refBase(p)
		return x.loadRef(st, p.Ref, base, p.T)
	}
	o := x.obj(st, p.Obj)
	path := p.Path
	var v Val
	if o.Kind == "arr" {
		if len(path) == 0 {
			if o.Segs != nil {
				return &SliceVal{Elem: o.T, Obj: o.ID, Off: intT(0), Len: segsLen(o.Segs), Cap: segsLen(o.Segs), Nil: tFalse}
			}
			fail("load of whole array")
		}
		idx := path[0].Idx
		path = path[1:]
		v = x.loadElem(st, o, idx)
	} else {
		v = x.cellVal(st, o)
	}
	for _, s := range path {
		if s.Idx != nil {
			fail("array inside struct")
		}
		sv, ok := v.(*StructVal)
		if !ok {
			fail("field access on %T", v)
		}
		v = sv.F[s.Field]
	}
	return v
}

func (x *Exec) refBase(p *PtrVal) string {
	// the root type is recorded in the first path element's owner: kept in refRoot
	if r, ok := x.refRoot[p]; ok {
		return r
	}
	return "fld." + sanit(shortType(p.T))
}

func (x *Exec) loadElem(st *State, o *Obj, idx *Term) Val {
	if o.Elems != nil {
		if idx.isInt() && idx.Int.IsInt64() && idx.Int.Int64() >= 0 && idx.Int.Int64() < int64(len(o.Elems)) {
			return o.Elems[idx.Int.Int64()]
		}
		o = x.toArr(st, o)
	}
	if o.Segs != nil {
		run := intT(0)
		for _, g := range o.Segs {
			if run == idx {
				if g.K == "byte" {
					return g.T
				}
				if g.K == "zeros" {
					return intT(0)
				}
			}
			run = Add(run, g.Len)
		}
		b := App("bat", segsTerm(o.Segs), idx)
		st.assume(Ge(b, intT(0)), Le(b, intT(255)))
		return b
	}
	return x.unreify(st, Select(o.Arr, idx), o.T)
}

func (x *Exec) toArr(st *State, o *Obj) *Obj {
	es := sortOf(o.T)
	arr := ConstArr(arrSort("Int", es), zeroOf(es))
	for i, e := range o.Elems {
		arr = Store(arr, intT(int64(i)), x.reify(st, e, o.T))
	}
	m := x.mut(st, o.ID)
	m.Elems = nil
	m.Arr = arr
	return m
}

func updPath(v Val, path []Step, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	sv, ok := v.(*StructVal)
	if !ok {
		if t, isT := v.(*Term); isT && t.Sort == "NTCP" {
			return fresh("tcp", t.Sort) // a value whose fields are not modelled
		}
		fail("field update on %T", v)
	}
	n := &StructVal{T: sv.T, F: append([]Val{}, sv.F...)}
	n.F[path[0].Field] = updPath(sv.F[path[0].Field], path[1:], nv)
	return n
}

func (x *Exec) store(st *State, p *PtrVal, v Val, pos string) {
	if p.Ref != nil {
		x.oblige(st, "unsupported", "store through a shared reference "+shortType(p.T), tFalse, pos, nil)
		return
	}
	o := x.obj(st, p.Obj)
	if o.Frozen {
		x.oblige(st, "frame", "write to a value that is shared with a container or the store", tFalse, pos, nil)
		return
	}
	if o.Kind == "arr" {
		if len(p.Path) == 0 {
			// whole byte array assignment
			if sv, ok := v.(*SliceVal); ok && isByte(o.T) {
				m := x.mut(st, o.ID)
				m.Segs = x.obj(st, sv.Obj).Segs
				return
			}
			fail("store of whole array")
		}
		idx := p.Path[0].Idx
		rest := p.Path[1:]
		if o.Elems != nil && !(idx.isInt() && idx.Int.IsInt64() && idx.Int.Int64() >= 0 && idx.Int.Int64() < int64(len(o.Elems))) {
			o = x.toArr(st, o)
		}
		if o.Elems != nil {
			m := x.mut(st, o.ID)
			i := idx.Int.Int64()
			m.Elems = append([]Val{}, o.Elems...)
			m.Elems[i] = updPath(o.Elems[i], rest, v)
			return
		}
		if o.Segs != nil {
			t := v.(*Term)
			ns, ok := writeSegs(o.Segs, idx, []Seg{mkSeg("byte", t)})
			m := x.mut(st, o.ID)
			if !ok {
				ns = []Seg{{"raw", fresh("rawbytes", "Bytes"), segsLen(o.Segs)}}
			}
			m.Segs = ns
			return
		}
		var nv *Term
		if len(rest) == 0 {
			nv = x.reify(st, v, o.T)
		} else {
			old := x.unreify(st, Select(o.Arr, idx), o.T)
			// update one field, keep the others as accessors of the old element
			nv = x.reifyUpd(st, Select(o.Arr, idx), o.T, rest, v)
			_ = old
		}
		m := x.mut(st, o.ID)
		m.Arr = Store(o.Arr, idx, nv)
		return
	}
	cur := Val(nil)
	if len(p.Path) > 0 {
		cur = x.cellVal(st, o)
	}
	m := x.mut(st, o.ID)
	m.V = updPath(cur, p.Path, v)
}

// reifyUpd rebuilds a struct term with one (nested) field replaced.
func (x *Exec) reifyUpd(st *State, t *Term, ty types.Type, path []Step, v Val) *Term {
	if len(path) == 0 {
		return x.reify(st, v, ty)
	}
	u := ty.Underlying().(*types.Struct)
	d := structDT(ty)
	var as []*Term
	for i := 0; i < u.NumFields(); i++ {
		a := App(d.Name+"."+u.Field(i).Name(), t)
		if i == path[0].Field {
			a = x.reifyUpd(st, a, u.Field(i).Type(), path[1:], v)
		}
		as = append(as, a)
	}
	return App(d.Ctors[0].Name, as...)
}

// valEq builds the equality of two values.
func (x *Exec) valEq(st *State, a, b Val) *Term {
	switch p := a.(type) {
	case *Term:
		switch q := b.(type) {
		case *Term:
			return Eq(p, q)
		case *IfaceVal:
			if p == App("refnil") || p == App("errnil") {
				return tFalse
			}
			if r := x.reify(st, q, q.Dyn); r.Sort == p.Sort {
				return Eq(p, r)
			}
		case *PtrVal:
			if p.Sort == "Ref" || p.Sort == "BigP" {
				return Eq(p, x.reify(st, q, types.NewPointer(q.T)))
			}
		case *SliceVal, *StructVal:
			r := x.reify(st, q, nil)
			return Eq(p, r)
		}
	case *StructVal:
		if q, ok := b.(*StructVal); ok {
			var l []*Term
			for i := range p.F {
				l = append(l, x.valEq(st, p.F[i], q.F[i]))
			}
			return And(l...)
		}
		return Eq(x.reify(st, p, p.T), x.reify(st, b, p.T))
	case *PtrVal:
		q, ok := b.(*PtrVal)
		if !ok {
			if t, isT := b.(*Term); isT {
				return x.valEq(st, t, p)
			}
			if iv, isI := b.(*IfaceVal); isI {
				return x.valEq(st, p, iv.V)
			}
			break
		}
		if p.Nil.isTrue() {
			return q.Nil
		}
		if q.Nil.isTrue() {
			return p.Nil
		}
		if p.Ref != nil || q.Ref != nil {
			return Eq(x.reify(st, p, types.NewPointer(p.T)), x.reify(st, q, types.NewPointer(q.T)))
		}
		same := p.Obj == q.Obj && len(p.Path) == len(q.Path)
		if same {
			return Or(And(p.Nil, q.Nil), And(Not(p.Nil), Not(q.Nil)))
		}
		return And(p.Nil, q.Nil)
	case *SliceVal:
		if q, ok := b.(*SliceVal); ok {
			if p.Nil.isTrue() {
				return q.Nil
			}
			if q.Nil.isTrue() {
				return p.Nil
			}
			return Eq(x.reify(st, p, nil), x.reify(st, q, nil))
		}
		if t, ok := b.(*Term); ok {
			return Eq(x.reify(st, p, nil), t)
		}
	case *MapVal:
		if q, ok := b.(*MapVal); ok {
			if q.Nil.isTrue() {
				return p.Nil
			}
			if p.Nil.isTrue() {
				return q.Nil
			}
			if p.Obj == q.Obj {
				return tTrue
			}
		}
	case *IfaceVal:
		if t, ok := b.(*Term); ok {
			return x.valEq(st, t, p)
		}
		if q, ok := b.(*IfaceVal); ok {
			return x.valEq(st, p.V, q.V)
		}
	case *FuncVal:
		if q, ok := b.(*FuncVal); ok {
			return boolT((p.Fn == nil) == (q.Fn == nil))
		}
	}
	fail("cannot compare %T and %T", a, b)
	return nil
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
