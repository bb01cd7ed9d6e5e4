package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type loopDesc struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}
type loopInfo struct {
	byHeader map[*ssa.BasicBlock]*loopDesc
}
type loopMemo struct{}

var loopCache = map[*ssa.Function]*loopInfo{}

func loopsOf(fn *ssa.Function) *loopInfo {
	if l, ok := loopCache[fn]; ok {
		return l
	}
	li := &loopInfo{byHeader: map[*ssa.BasicBlock]*loopDesc{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.byHeader[s]
				if l == nil {
					l = &loopDesc{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.byHeader[s] = l
				}
				var stack []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					c := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range c.Preds {
						if !l.blocks[p] {
							l.blocks[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	loopCache[fn] = li
	return li
}

type activeLoop struct {
	header   *ssa.BasicBlock
	blocks   map[*ssa.BasicBlock]bool
	bodyOnly bool
	back     func(st *State, fr *Frame, vals []Val)
	cond     *Term
}

type modset struct {
	cells  map[int]map[string][]Step
	arrs   map[int]bool
	maps   map[int]bool
	iters  map[int]bool
	ghosts map[string]bool
}

func newModset() *modset {
	return &modset{map[int]map[string][]Step{}, map[int]bool{}, map[int]bool{}, map[int]bool{}, map[string]bool{}}
}

func pathKey(p []Step) string {
	s := ""
	for _, e := range p {
		if e.Idx != nil {
			s += fmt.Sprintf("[%d]", e.Idx.id)
		} else {
			s += fmt.Sprintf(".%d", e.Field)
		}
	}
	return s
}

func sameVal(a, b Val) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	switch p := a.(type) {
	case *Term:
		q, ok := b.(*Term)
		return ok && p == q
	case *StructVal:
		q, ok := b.(*StructVal)
		if !ok || len(p.F) != len(q.F) {
			return false
		}
		for i := range p.F {
			if !sameVal(p.F[i], q.F[i]) {
				return false
			}
		}
		return true
	case *PtrVal:
		q, ok := b.(*PtrVal)
		return ok && p.Obj == q.Obj && p.Ref == q.Ref && p.Nil == q.Nil && pathKey(p.Path) == pathKey(q.Path)
	case *SliceVal:
		q, ok := b.(*SliceVal)
		return ok && p.Obj == q.Obj && p.Off == q.Off && p.Len == q.Len && p.Nil == q.Nil
	case *MapVal:
		q, ok := b.(*MapVal)
		return ok && p.Obj == q.Obj && p.Nil == q.Nil
	case *IfaceVal:
		q, ok := b.(*IfaceVal)
		return ok && types.Identical(p.Dyn, q.Dyn) && sameVal(p.V, q.V)
	case *FuncVal:
		q, ok := b.(*FuncVal)
		if !ok || p.Fn != q.Fn || len(p.Bind) != len(q.Bind) {
			return false
		}
		for i := range p.Bind {
			if !sameVal(p.Bind[i], q.Bind[i]) {
				return false
			}
		}
		return true
	case TupleVal:
		q, ok := b.(TupleVal)
		if !ok || len(p) != len(q) {
			return false
		}
		for i := range p {
			if !sameVal(p[i], q[i]) {
				return false
			}
		}
		return true
	case strVal:
		q, ok := b.(strVal)
		return ok && p == q
	case []batchOp:
		q, ok := b.([]batchOp)
		if !ok || len(p) != len(q) {
			return false
		}
		for i := range p {
			if p[i] != q[i] {
				return false
			}
		}
		return true
	}
	return false
}

// valueDiff lists the paths at which two values differ.
func valueDiff(a, b Val, path []Step, out func([]Step)) {
	if sameVal(a, b) {
		return
	}
	p, ok1 := a.(*StructVal)
	q, ok2 := b.(*StructVal)
	if ok1 && ok2 && len(p.F) == len(q.F) {
		for i := range p.F {
			valueDiff(p.F[i], q.F[i], append(append([]Step{}, path...), Step{Field: i}), out)
		}
		return
	}
	out(path)
}

func segsEq(a, b []Seg) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// existing returns the object as it was in state s (heap or base), or nil.
func (x *Exec) existing(s *State, id int) *Obj {
	if o, ok := s.heap[id]; ok {
		return o
	}
	if o, ok := x.base[id]; ok {
		return o
	}
	return nil
}

func (x *Exec) diffStates(a, b *State, m *modset) bool {
	changed := false
	for id, ob := range b.heap {
		oa := x.existing(a, id)
		if oa == nil || oa == ob {
			continue
		}
		switch oa.Kind {
		case "cell", "big":
			va := oa.V
			if va == nil {
				if ob.V == nil {
					continue
				}
				va = x.cellVal(a, oa)
			}
			valueDiff(va, ob.V, nil, func(p []Step) {
				if m.cells[id] == nil {
					m.cells[id] = map[string][]Step{}
				}
				k := pathKey(p)
				// subsumed by a shorter path?
				for q := range m.cells[id] {
					if strings.HasPrefix(k, q) {
						return
					}
				}
				m.cells[id][k] = p
				changed = true
			})
		case "arr":
			same := oa.Arr == ob.Arr && segsEq(oa.Segs, ob.Segs) && len(oa.Elems) == len(ob.Elems)
			if same {
				for i := range oa.Elems {
					if !sameVal(oa.Elems[i], ob.Elems[i]) {
						same = false
					}
				}
			}
			if !same && !m.arrs[id] {
				m.arrs[id] = true
				changed = true
			}
		case "map":
			if *oa.M != *ob.M && !m.maps[id] {
				m.maps[id] = true
				changed = true
			}
		case "iter":
			if oa.G["pos"] != ob.G["pos"] && !m.iters[id] {
				m.iters[id] = true
				changed = true
			}
		case "batch":
			if !sameVal(oa.G["ops"], ob.G["ops"]) {
				fail("a write batch is modified inside a loop")
			}
		}
	}
	for g, t := range b.ghosts {
		ta, ok := a.ghosts[g]
		if !ok {
			ta = cst("g0!"+g, t.Sort)
		}
		if ta != t && !m.ghosts[g] {
			m.ghosts[g] = true
			changed = true
		}
	}
	return changed
}

func fieldType(t types.Type, path []Step) types.Type {
	for _, s := range path {
		t = t.Underlying().(*types.Struct).Field(s.Field).Type()
	}
	return t
}

func (x *Exec) havoc(st *State, m *modset) {
	ids := func(mm map[int]bool) (r []int) {
		for k := range mm {
			r = append(r, k)
		}
		sort.Ints(r)
		return
	}
	var cs []int
	for id := range m.cells {
		cs = append(cs, id)
	}
	sort.Ints(cs)
	for _, id := range cs {
		o := x.obj(st, id)
		v := o.V
		if v == nil {
			v = x.cellVal(st, o)
		}
		for _, k := range sortedKeys(m.cells[id]) {
			p := m.cells[id][k]
			v = updPath(v, p, x.havocVal(st, x.freshName("hv"), fieldType(o.T, p)))
		}
		x.mut(st, id).V = v
	}
	for _, id := range ids(m.arrs) {
		o := x.mut(st, id)
		if o.Segs != nil {
			o.Segs = []Seg{{"raw", fresh("rawbytes", "Bytes"), segsLen(o.Segs)}}
			continue
		}
		o.Elems = nil
		o.Arr = fresh("arr", arrSort("Int", sortOf(o.T)))
	}
	for _, id := range ids(m.maps) {
		o := x.mut(st, id)
		o.M = &MapC{fresh("dom", o.M.Dom.Sort), fresh("val", o.M.Val.Sort), fresh("card", "Int")}
		x.mapFacts(st, o.M)
	}
	for _, id := range ids(m.iters) {
		o := x.mut(st, id)
		p := fresh("pos", "Int")
		if _, db := o.G["view"]; db {
			st.assume(Ge(p, intT(-1))) // a database iterator starts before the first entry
		} else {
			st.assume(Ge(p, intT(0)))
		}
		if n, ok := o.G["n"].(*Term); ok {
			st.assume(Le(p, n))
		}
		o.G["pos"] = p
	}
	for _, g := range sortedKeys(m.ghosts) {
		if g == "clk" {
			x.tick(st)
			continue
		}
		st.ghosts[g] = fresh("g_"+g, ghostDecls[g].Sort)
	}
}

// havocVal is an arbitrary value of a type; mutable objects reached through it may not be written.
func (x *Exec) havocVal(st *State, name string, t types.Type) Val {
	v := x.symVal(st, name, t)
	return v
}

type src struct {
	desc string
	phi  int // index or -1
	plus int64
	val  Val
	vary bool // a value from before the loop whose contents change in it
	obj  int
	path []Step
	iter int
}

func (x *Exec) srcVal(st *State, s src, vals []Val) Val {
	switch {
	case s.phi >= 0:
		v := vals[s.phi]
		if s.plus != 0 {
			return Add(v.(*Term), intT(s.plus))
		}
		return v
	case s.iter != 0:
		return &PtrVal{T: iterType, Obj: s.iter, Nil: tFalse}
	case s.obj != 0:
		o := x.obj(st, s.obj)
		if o.Kind == "map" {
			return &MapVal{T: o.T.Underlying().(*types.Map), Obj: s.obj, Nil: tFalse}
		}
		return x.load(st, &PtrVal{T: fieldType(o.T, s.path), Obj: s.obj, Path: s.path, Nil: tFalse})
	}
	return s.val
}

type cand struct {
	desc string
	auto bool
	ev   func(st *State, vals []Val) *Term
}

func (x *Exec) loopHead(st *State, fr *Frame, l *loopDesc, phis []*ssa.Phi, vals []Val, m *modset, phiFresh []string) (*State, *Frame, []Val) {
	s := st.clone()
	x.havoc(s, m)
	f := fr.clone()
	hv := make([]Val, len(vals))
	for i, p := range phis {
		switch phiFresh[i] {
		case "":
			hv[i] = vals[i]
		case "len": // same backing object, changed bounds
			sv := vals[i].(*SliceVal)
			o, n := fresh("off", "Int"), fresh("len", "Int")
			s.assume(Ge(o, intT(0)), Ge(n, intT(0)), Le(Add(o, n), Add(sv.Off, sv.Cap)))
			hv[i] = &SliceVal{Elem: sv.Elem, Obj: sv.Obj, Off: o, Len: n, Cap: Sub(Add(sv.Off, sv.Cap), o), Nil: And(sv.Nil, Eq(n, intT(0)))}
		default:
			nm := p.Comment
			if nm == "" {
				nm = p.Name()
			}
			hv[i] = x.symVal(s, x.freshName(nm), p.Type())
			if sv, ok := hv[i].(*SliceVal); ok && sv.Obj != 0 {
				o := x.mut(s, sv.Obj)
				o.New = true
			}
		}
		f.env[p] = hv[i]
	}
	return s, f, hv
}

func (x *Exec) enterLoop(st *State, fr *Frame, l *loopDesc, phis []*ssa.Phi, vals []Val) {
	m := newModset()
	phiFresh := make([]string, len(phis))
	for i, p := range phis {
		if t, ok := vals[i].(*Term); ok && (t.Sort == "Int" || t.Sort == "Bool") {
			_ = p
			phiFresh[i] = "fresh"
		}
	}
	startCnt := freshCnt
	var headCond *Term
	var headVals []Val
	body := func(s *State, f *Frame, bodyOnly bool, back func(*State, *Frame, []Val)) *activeLoop {
		al := &activeLoop{header: l.header, blocks: l.blocks, bodyOnly: bodyOnly, back: back}
		f.loops = append(f.loops, al)
		x.execInstrs(s, f, l.header, len(phis))
		return al
	}
	oldRet := fr.ret
	_ = oldRet
	for iter := 0; ; iter++ {
		if iter > 12 {
			fail("loop analysis does not converge in %s", fnKey(fr.fn))
		}
		s, f, hv := x.loopHead(st, fr, l, phis, vals, m, phiFresh)
		h0 := s.clone()
		changed := false
		x.silent++
		al := body(s, f, true, func(sb *State, fb *Frame, bv []Val) {
			for i := range phis {
				if phiFresh[i] == "fresh" || sameVal(hv[i], bv[i]) {
					continue
				}
				if a, ok := hv[i].(*SliceVal); ok && phiFresh[i] == "" {
					if b, ok := bv[i].(*SliceVal); ok && a.Obj == b.Obj {
						phiFresh[i] = "len"
						changed = true
						continue
					}
				}
				if phiFresh[i] == "len" {
					a, b := hv[i].(*SliceVal), bv[i].(*SliceVal)
					if a.Obj == b.Obj {
						continue
					}
				}
				phiFresh[i] = "fresh"
				changed = true
			}
			if x.diffStates(h0, sb, m) {
				changed = true
			}
		})
		x.silent--
		headCond, headVals = al.cond, hv
		if !changed {
			break
		}
	}
	if os.Getenv("GOVC_LOOPS") != "" {
		fmt.Fprintf(os.Stderr, "  [%s] loop condition %v start %d\n", fnKey(fr.fn), headCond, startCnt)
	}
	// ---- invariant candidates ----
	cands := x.candidates(st, fr, l, phis, vals, m, phiFresh, headCond, headVals, startCnt)
	// entry
	keep := cands[:0:0]
	type job struct {
		c  *cand
		q  string
		ok bool
	}
	dbg := os.Getenv("GOVC_LOOPS") != ""
	uses := []string(nil)
	if x.con != nil {
		uses = x.con.Uses
	}
	mkq := func(s *State, c *cand, v []Val) (txt string, trivially bool, ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if e, is := r.(govcError); is {
					if dbg {
						fmt.Fprintf(os.Stderr, "  cand error %s: %s\n", c.desc, e.msg)
					}
					ok = false
					return
				}
				panic(r)
			}
		}()
		s2 := s.clone()
		g := c.ev(s2, v)
		if vv, k := s2.decide(g); k && vv {
			return "", true, true
		}
		q := &Query{Hyps: s2.pc, Goal: g, Uses: uses}
		return q.text(), false, true
	}
	runJobs := func(js []*job) {
		var wg sync.WaitGroup
		for _, j := range js {
			if j.q == "" {
				continue
			}
			wg.Add(1)
			go func(j *job) {
				defer wg.Done()
				to, full := 2*time.Second, false
				if !j.c.auto {
					to, full = 4*time.Second, true
				}
				j.ok = solve(j.q, to, full).Status == "unsat"
			}(j)
		}
		wg.Wait()
	}
	var js []*job
	for i := range cands {
		t, triv, ok := mkq(st, cands[i], vals)
		if !ok {
			continue
		}
		js = append(js, &job{c: cands[i], q: t, ok: triv})
	}
	runJobs(js)
	for _, j := range js {
		if j.ok {
			keep = append(keep, j.c)
		} else if dbg {
			fmt.Fprintf(os.Stderr, "  [%s] dropped at entry: %s\n", fnKey(fr.fn), j.c.desc)
			if d := os.Getenv("GOVC_DUMPINV"); d != "" && strings.Contains(j.c.desc, d) {
				os.WriteFile("/tmp/inv0.smt2", []byte(j.q), 0o644)
			}
		}
	}
	assumeCands := func(s *State, hv []Val) {
		for _, c := range keep {
			s.assume(c.ev(s, hv))
		}
	}
	rounds := 0
	for len(keep) > 0 {
		rounds++
		s, f, hv := x.loopHead(st, fr, l, phis, vals, m, phiFresh)
		assumeCands(s, hv)
		dropped := map[*cand]bool{}
		var jobs []*job
		x.silent++
		body(s, f, true, func(sb *State, fb *Frame, bv []Val) {
			// all candidates at once first
			s2 := sb.clone()
			var gs []*Term
			okAll := true
			for _, c := range keep {
				g, err := evSafe(c, s2, bv)
				if err {
					dropped[c] = true
					okAll = false
					continue
				}
				gs = append(gs, g)
			}
			if okAll {
				all := And(gs...)
				if v, k := s2.decide(all); k && v {
					return
				}
				if solve((&Query{Hyps: s2.pc, Goal: all, Uses: uses}).text(), 4*time.Second, false).Status == "unsat" {
					return
				}
			}
			for _, c := range keep {
				if dropped[c] {
					continue
				}
				t, triv, ok := mkq(sb, c, bv)
				if !ok {
					dropped[c] = true
					continue
				}
				if triv {
					continue
				}
				jobs = append(jobs, &job{c: c, q: t})
			}
		})
		x.silent--
		runJobs(jobs)
		for _, j := range jobs {
			if !j.ok {
				dropped[j.c] = true
				if dbg {
					fmt.Fprintf(os.Stderr, "  [%s] not preserved: %s\n", fnKey(fr.fn), j.c.desc)
					if d := os.Getenv("GOVC_DUMPINV"); d != "" && strings.Contains(j.c.desc, d) {
						os.WriteFile("/tmp/inv.smt2", []byte(j.q), 0o644)
					}
				}
			}
		}
		if len(dropped) == 0 {
			break
		}
		k2 := keep[:0:0]
		for _, c := range keep {
			if !dropped[c] {
				k2 = append(k2, c)
			}
		}
		keep = k2
	}
	if dbg {
		for _, c := range keep {
			fmt.Fprintf(os.Stderr, "  [%s] invariant: %s\n", fnKey(fr.fn), c.desc)
		}
	}
	pos := ""
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			pos = x.posOf(in)
			break
		}
	}
	if x.silent == 0 {
		for _, c := range keep {
			if !c.auto {
				x.obls = append(x.obls, &Obl{Kind: "invariant", Desc: "loop invariant holds on entry and is preserved: " + c.desc, Pos: pos, Func: fnKey(x.root), OK: true, How: "z3 (inductive)"})
			}
		}
	}
	// ---- final run: arbitrary iteration, then everything after the loop ----
	s, f, hv := x.loopHead(st, fr, l, phis, vals, m, phiFresh)
	assumeCands(s, hv)
	h0 := s.clone()
	type backEdge struct {
		st *State
		v  []Val
	}
	var backs []backEdge
	al := body(s, f, false, func(sb *State, fb *Frame, bv []Val) {
		if x.silent == 0 {
			backs = append(backs, backEdge{sb, bv})
		}
	})
	if x.silent == 0 && len(backs) > 0 && !x.skips("termination") {
		ms := x.measures(h0, fr, l, phis, m, hv, al.cond, startCnt)
		proved := false
		var last *Obl
		for _, mm := range ms {
			okAll := true
			for _, be := range backs {
				s2 := be.st.clone()
				var goal *Term
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, is := r.(govcError); !is {
								panic(r)
							}
						}
					}()
					m0 := mm.ev(h0, hv)
					s2.assume(h0.pc[len(h0.pc):]...)
					m1 := mm.ev(s2, be.v)
					goal = And(Ge(m0, intT(0)), Lt(m1, m0))
				}()
				if goal == nil {
					okAll = false
					break
				}
				if v, k := s2.decide(goal); k && v {
					continue
				}
				o := &Obl{Kind: "termination", Desc: "the loop terminates: " + mm.desc + " decreases", Pos: pos, Func: fnKey(x.root), Hyps: s2.pc, Goal: goal, Uses: uses}
				last = o
				r := solve((&Query{Hyps: s2.pc, Goal: goal, Uses: uses}).text(), 4*time.Second, false)
				if r.Status != "unsat" {
					okAll = false
					break
				}
			}
			if okAll {
				proved = true
				x.obls = append(x.obls, &Obl{Kind: "termination", Desc: "the loop terminates: " + mm.desc + " decreases", Pos: pos, Func: fnKey(x.root), OK: true, How: "z3"})
				break
			}
		}
		if !proved {
			if last == nil {
				last = &Obl{Kind: "termination", Desc: "the loop terminates (no measure found)", Pos: pos, Func: fnKey(x.root), Goal: tFalse, Hyps: h0.pc}
			}
			x.obls = append(x.obls, last)
		}
	}
}

func (x *Exec) skips(k string) bool {
	if x.con == nil {
		return false
	}
	for _, s := range x.con.Skip {
		if strings.HasPrefix(s, k) {
			return true
		}
	}
	return false
}

func evSafe(c *cand, s *State, v []Val) (t *Term, bad bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(govcError); is {
				bad = true
				return
			}
			panic(r)
		}
	}()
	return c.ev(s, v), false
}

// loopFree tells whether a term mentions no symbol created inside the loop (except the phis).
func loopFree(t *Term, start int, except map[*Term]bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return true
		}
		seen[t] = true
		if except[t] {
			return false
		}
		if t.Op == "const" {
			if i := strings.LastIndex(t.Name, "!"); i >= 0 {
				n := 0
				rest := t.Name[i+1:]
				if j := strings.IndexByte(rest, '.'); j >= 0 {
					rest = rest[:j]
				}
				fmt.Sscanf(rest, "%d", &n)
				if n > start && !uniqConst[t.Name] && !strings.HasPrefix(t.Name, "g0!") && !strings.HasPrefix(t.Name, "obj!") {
					return false
				}
			}
		}
		for _, a := range t.Args {
			if !rec(a) {
				return false
			}
		}
		return true
	}
	return rec(t)
}

// condBounds extracts linear bounds Y from a loop condition over the phi p: pairs (p, Y).
func condBounds(c *Term, hv []Val, start int) (res []struct {
	phi int
	y   *Term
}) {
	if c == nil {
		return
	}
	var rec func(c *Term)
	rec = func(c *Term) {
		switch c.Op {
		case "not", "and", "or":
			for _, a := range c.Args {
				rec(a)
			}
		case "<=", "=":
			if c.Args[0].Sort != "Int" {
				return
			}
			d := Sub(c.Args[1], c.Args[0])
			for i, v := range hv {
				p, ok := v.(*Term)
				if !ok || p.Sort != "Int" {
					continue
				}
				l := toLin(d)
				k := l.m[p]
				if k == nil || !k.IsInt64() || (k.Int64() != 1 && k.Int64() != -1) {
					continue
				}
				var y *Term
				if k.Int64() == 1 { // d = p + rest  -> y = -rest
					y = Sub(intT(0), Sub(d, p))
				} else {
					y = Add(d, p)
				}
				ex := map[*Term]bool{}
				for _, w := range hv {
					if t, ok := w.(*Term); ok && !t.isInt() {
						ex[t] = true
					}
				}
				if loopFree(y, start, ex) {
					res = append(res, struct {
						phi int
						y   *Term
					}{i, y})
				}
			}
		}
	}
	rec(c)
	return
}

func (x *Exec) candidates(st *State, fr *Frame, l *loopDesc, phis []*ssa.Phi, vals []Val, m *modset, phiFresh []string, cond *Term, hv []Val, start int) []*cand {
	var cs []*cand
	add := func(desc string, ev func(*State, []Val) *Term) {
		cs = append(cs, &cand{desc: desc, auto: true, ev: ev})
	}
	nm := func(i int) string {
		if phis[i].Comment != "" {
			return phis[i].Comment
		}
		return phis[i].Name()
	}
	var ints []src
	for i := range phis {
		if phiFresh[i] == "" {
			continue
		}
		i := i
		v := vals[i]
		switch e := v.(type) {
		case *Term:
			if e.Sort != "Int" || !isIntType(phis[i].Type()) {
				continue
			}
			add(nm(i)+" >= entry value", func(_ *State, v []Val) *Term { return Ge(v[i].(*Term), e) })
			add(nm(i)+" <= entry value", func(_ *State, v []Val) *Term { return Le(v[i].(*Term), e) })
			add(nm(i)+" >= -1", func(_ *State, v []Val) *Term { return Ge(v[i].(*Term), intT(-1)) })
			add(nm(i)+" >= 0", func(_ *State, v []Val) *Term { return Ge(v[i].(*Term), intT(0)) })
			ints = append(ints, src{desc: nm(i), phi: i}, src{desc: nm(i) + "+1", phi: i, plus: 1})
		case *PtrVal:
			if _, ok := phis[i].Type().Underlying().(*types.Pointer); ok {
				add(nm(i)+" != nil", func(_ *State, v []Val) *Term { return Not(v[i].(*PtrVal).Nil) })
			}
		}
	}
	for _, b := range condBounds(cond, hv, start) {
		b := b
		for _, d := range []int64{0, -1} {
			d := d
			if e, ok := vals[b.phi].(*Term); ok && d == 0 {
				add(fmt.Sprintf("%s <= max(entry, %s)", nm(b.phi), b.y), func(_ *State, v []Val) *Term {
					return Or(Le(v[b.phi].(*Term), b.y), Le(v[b.phi].(*Term), e))
				})
			}
			add(fmt.Sprintf("%s <= %s%+d", nm(b.phi), b.y, d), func(_ *State, v []Val) *Term { return Le(v[b.phi].(*Term), Add(b.y, intT(d))) })
		}
	}
	var iters []int
	for id := range m.iters {
		iters = append(iters, id)
	}
	sort.Ints(iters)
	for _, id := range iters {
		ints = append(ints, src{desc: "iterator position", phi: -1, obj: 0, iter: id})
		id := id
		if _, db := x.obj(st, id).G["view"]; db {
			add("iterator is at an entry or at the end", func(s *State, _ []Val) *Term {
				return Ge(x.obj(s, id).G["pos"].(*Term), intT(0))
			})
			add("iterator not exhausted", func(s *State, _ []Val) *Term {
				g := x.obj(s, id).G
				return Lt(g["pos"].(*Term), g["n"].(*Term))
			})
		}
	}
	intVal := func(s *State, z src, v []Val) *Term {
		if z.iter != 0 {
			return x.obj(s, z.iter).G["pos"].(*Term)
		}
		return x.srcVal(s, z, v).(*Term)
	}
	for i := range phis {
		if _, ok := vals[i].(*SliceVal); !ok || phiFresh[i] == "" {
			continue
		}
		i := i
		for _, z := range ints {
			z := z
			add(fmt.Sprintf("len(%s) == %s", nm(i), z.desc), func(s *State, v []Val) *Term { return Eq(v[i].(*SliceVal).Len, intVal(s, z, v)) })
			add(fmt.Sprintf("len(%s) <= %s", nm(i), z.desc), func(s *State, v []Val) *Term { return Le(v[i].(*SliceVal).Len, intVal(s, z, v)) })
		}
	}
	// relations between int phis and iterator positions
	for a := range ints {
		for b := range ints {
			if a == b || ints[a].phi >= 0 && ints[a].phi == ints[b].phi || ints[b].plus == 1 && ints[a].plus == 1 {
				continue
			}
			za, zb := ints[a], ints[b]
			if a < b {
				add(za.desc+" == "+zb.desc, func(s *State, v []Val) *Term { return Eq(intVal(s, za, v), intVal(s, zb, v)) })
			}
		}
	}
	// maps built in the loop are not nil etc. need no invariant: the reference itself does not change
	if fr.con == nil {
		return cs
	}
	srcs := func(t string, mult int) (r []src) {
		if t == "iter" {
			for _, id := range iters {
				r = append(r, src{desc: "it", phi: -1, iter: id})
			}
			return
		}
		for i := range phis {
			if shortType(phis[i].Type()) == t {
				if phiFresh[i] == "" {
					r = append(r, src{desc: nm(i), phi: -1, val: vals[i]})
				} else if phis[i].Comment == "rangeindex" {
					r = append(r, src{desc: nm(i) + "+1", phi: i, plus: 1})
				} else {
					r = append(r, src{desc: nm(i), phi: i})
				}
			}
		}
		direct := len(r) > 0
		for id, paths := range m.cells {
			o := x.obj(st, id)
			for _, k := range sortedKeys(paths) {
				p := paths[k]
				if direct && len(p) > 0 {
					continue // a field of a structure only when no variable has the type
				}
				if shortType(fieldType(o.T, p)) == t {
					r = append(r, src{desc: fmt.Sprintf("cell%d%s", id, k), phi: -1, obj: id, path: p})
				}
			}
			if len(paths) > 0 && shortType(o.T) == t {
				r = append(r, src{desc: fmt.Sprintf("cell%d", id), phi: -1, obj: id})
			}
		}
		for id := range m.maps {
			o := x.obj(st, id)
			if shortType(o.T) == t {
				r = append(r, src{desc: fmt.Sprintf("map%d", id), phi: -1, obj: id})
			}
		}
		variant := false
		for _, z := range r {
			if z.val == nil {
				variant = true
			}
		}
		if variant {
			var q []src
			for _, z := range r {
				if z.val == nil {
					q = append(q, z)
				}
			}
			sort.SliceStable(q, func(i, j int) bool { return q[i].desc < q[j].desc })
			if len(q) >= mult {
				return q
			}
		}
		if t == "int" && mult == 1 {
			return // a single counter: one that the loop changes
		}
		// values computed before the loop (or in callers of an extracted helper)
		seen := map[string]bool{}
		for v, val := range fr.env {
			if shortType(v.Type()) != t {
				continue
			}
			if p, ok := v.(*ssa.Phi); ok && p.Block() == l.header {
				continue
			}
			if in, ok := v.(ssa.Instruction); ok && l.blocks[in.Block()] {
				continue
			}
			k := v.Name()
			if seen[k] {
				continue
			}
			dup := false
			for _, o := range r {
				if o.val != nil && sameVal(o.val, val) {
					dup = true
				}
			}
			if dup {
				continue
			}
			seen[k] = true
			sv, isSl := val.(*SliceVal)
			r = append(r, src{desc: k, phi: -1, val: val, vary: isSl && m.arrs[sv.Obj]})
		}
		sort.SliceStable(r, func(i, j int) bool { return r[i].desc < r[j].desc })
		return
	}
	for k := range fr.con.Invs {
		inv := &fr.con.Invs[k]
		if !x.relevant(inv.Props) {
			continue
		}
		var rec func(i int, bind map[string]src, desc string)
		n := 0
		rec = func(i int, bind map[string]src, desc string) {
			if i == len(inv.PH) {
				variant := false
				for _, z := range bind {
					if z.val == nil || z.vary {
						variant = true
					}
				}
				if !variant && len(bind) > 0 {
					return
				}
				n++
				if n > 150 {
					return
				}
				b2 := map[string]src{}
				for k, v := range bind {
					b2[k] = v
				}
				cs = append(cs, &cand{desc: inv.Src + desc, ev: func(s *State, v []Val) *Term {
					env := &SEnv{x: x, st: s, old: fr.old, vars: map[string]Val{}, pkg: pkgOfContract(fr.con)}
					for k, w := range fr.vars {
						env.vars[k] = w
					}
					for k, z := range b2 {
						env.vars[k] = x.srcVal(s, z, v)
					}
					return env.boolean(inv.E)
				}})
				return
			}
			mult := 0
			for _, p := range inv.PH {
				if p[1] == inv.PH[i][1] {
					mult++
				}
			}
			for _, z := range srcs(inv.PH[i][1], mult) {
				used := false
				for _, o := range bind {
					if o.desc == z.desc && o.phi == z.phi {
						used = true
					}
				}
				if used {
					continue
				}
				bind[inv.PH[i][0]] = z
				rec(i+1, bind, desc+" ["+inv.PH[i][0]+"="+z.desc+"]")
				delete(bind, inv.PH[i][0])
			}
		}
		rec(0, map[string]src{}, "")
	}
	return cs
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

type measure struct {
	desc string
	ev   func(st *State, vals []Val) *Term
}

func (x *Exec) measures(h0 *State, fr *Frame, l *loopDesc, phis []*ssa.Phi, m *modset, hv []Val, cond *Term, start int) (r []measure) {
	if fr.con != nil {
		for _, d := range fr.con.Decs {
			d := d
			var opts []map[string]src
			opts = append(opts, map[string]src{})
			for _, ph := range d.PH {
				var n []map[string]src
				for _, o := range opts {
					for i, p := range phis {
						if shortType(p.Type()) == ph[1] {
							c := map[string]src{}
							for k, v := range o {
								c[k] = v
							}
							c[ph[0]] = src{phi: i}
							n = append(n, c)
						}
					}
				}
				opts = n
			}
			for _, o := range opts {
				o := o
				r = append(r, measure{d.Src, func(s *State, v []Val) *Term {
					env := &SEnv{x: x, st: s, old: fr.old, vars: map[string]Val{}, pkg: pkgOfContract(fr.con)}
					for k, w := range fr.vars {
						env.vars[k] = w
					}
					for k, z := range o {
						env.vars[k] = x.srcVal(s, z, v)
					}
					return env.ev(d.Es[0]).(*Term)
				}})
			}
		}
	}
	for id := range m.iters {
		id := id
		r = append(r, measure{"remaining elements", func(s *State, v []Val) *Term {
			g := x.obj(s, id).G
			return Sub(g["n"].(*Term), g["pos"].(*Term))
		}})
	}
	for _, b := range condBounds(cond, hv, start) {
		b := b
		r = append(r, measure{fmt.Sprintf("bound - %s", phis[b.phi].Comment), func(s *State, v []Val) *Term { return Sub(Add(b.y, intT(1)), v[b.phi].(*Term)) }})
	}
	for i, p := range phis {
		i := i
		if t, ok := hv[i].(*Term); ok && t.Sort == "Int" && isIntType(p.Type()) {
			r = append(r, measure{p.Comment, func(s *State, v []Val) *Term { return Add(v[i].(*Term), intT(1)) }})
		}
	}
	return
}
