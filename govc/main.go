package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	repoDir    = "/repo"
	verifDir   = "/verif"
	modulePath = "github.com/alexeykiselev/waves-fork-detector"
	theProg    *ssa.Program
	repoFns    = map[string]*ssa.Function{}
)

type govcError struct{ msg string }

func fail(f string, a ...any) { panic(govcError{fmt.Sprintf(f, a...)}) }

func loadRepo() error {
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: repoDir, Env: os.Environ()}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return err
	}
	var errs []string
	for _, p := range ps {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return fmt.Errorf("the repository does not load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	theProg = prog
	for _, p := range ps {
		if strings.Contains(p.PkgPath, "/mocks/") {
			continue
		}
		allPkgs[p.Name] = p
		sp := prog.Package(p.Types)
		ssaPkgs[p.Name] = sp
	}
	// imported packages are known by name for spec lookups
	var visit func(tp *types.Package, d int)
	seen := map[*types.Package]bool{}
	visit = func(tp *types.Package, d int) {
		if seen[tp] {
			return
		}
		seen[tp] = true
		if _, ok := allPkgs[tp.Name()]; !ok {
			allPkgs[tp.Name()] = &packages.Package{Name: tp.Name(), Types: tp}
		}
		if d > 0 {
			for _, i := range tp.Imports() {
				visit(i, d-1)
			}
		}
	}
	for _, p := range ps {
		if !strings.Contains(p.PkgPath, "/mocks/") {
			for _, i := range p.Types.Imports() {
				visit(i, 1)
			}
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), modulePath) || strings.Contains(fn.Pkg.Pkg.Path(), "/mocks/") {
			continue
		}
		if fn.Synthetic != "" || fn.Parent() != nil || fn.Origin() != nil {
			continue
		}
		repoFns[fnKey(fn)] = fn
	}
	return nil
}

// FuncReport is the outcome of verifying one function for one property.
type FuncReport struct {
	Key      string
	Pos      string
	Obls     []OblReport
	Callees  []string
	Inlined  []string
	Assumed  []string
	Axioms   []string
	Notes    []string
	Uses     []string
	Paths    int
	Returns  int
	Err      string
	SolverMs int64
	Queries  int
	BySolver map[string]int
	WallMs   int64
}
type OblReport struct {
	Kind, Desc, Pos, Func, Solver, Status string
	OK                                    bool
	Ms                                    int64
	Trail                                 []string `json:",omitempty"`
	Model                                 string   `json:",omitempty"`
}

func initAll() {
	initSorts()
	loadBase()
	if err := loadRepo(); err != nil {
		fail("%v", err)
	}
	registerTypes()
	loadSpecs(filepath.Join(verifDir, "spec"))
}

func catch(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(govcError); ok {
				msg = e.msg
				if os.Getenv("GOVC_STACK") != "" {
					msg += "\n" + string(debug.Stack())
				}
			} else {
				msg = fmt.Sprintf("internal error: %v\n%s", r, debug.Stack())
			}
		}
	}()
	f()
	return ""
}

func frameLV(x *Exec, c *Contract, env *SEnv) []lval {
	var r []lval
	for _, m := range c.Mod {
		r = append(r, x.lvalue(env, m))
	}
	return r
}

func pathPrefix(a, b []Step) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i].Field != b[i].Field || (a[i].Idx == nil) != (b[i].Idx == nil) {
			return false
		}
	}
	return true
}

// checkFrame obliges that nothing outside the modifies clause changed.
func (x *Exec) checkFrame(st, pre *State, c *Contract, lvs []lval, pos string) {
	for _, g := range sortedKeys(st.ghosts) {
		d := ghostDecls[g]
		if d == nil || !x.relevant(d.Props) {
			continue
		}
		allowed := false
		for _, l := range lvs {
			if l.ghost == g {
				allowed = true
			}
		}
		if allowed || g == "clk" {
			continue
		}
		var o *Term
		if t, ok := pre.ghosts[g]; ok {
			o = t
		} else {
			o = x.ghost(pre, g)
		}
		if n := st.ghosts[g]; n != o {
			x.oblige(st, "frame", "ghost "+g+" is not modified", Eq(n, o), pos, nil)
		}
	}
	ids := make([]int, 0, len(st.heap))
	for id := range st.heap {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := st.heap[id]
		po := x.existing(pre, id)
		if po == nil || o == po || po.New {
			continue
		}
		if strings.HasPrefix(po.Name, "loop!") || strings.Contains(po.Name, "!") && !strings.HasPrefix(po.Name, "glob!") {
			continue
		}
		if po.Kind == "iter" || po.Kind == "snap" || po.Kind == "batch" {
			continue
		}
		var bad [][]Step
		switch o.Kind {
		case "map":
			if *o.M != *po.M {
				bad = append(bad, nil)
			}
		case "arr":
			if o.Arr != po.Arr || !segsEq(o.Segs, po.Segs) || len(o.Elems) != len(po.Elems) {
				bad = append(bad, nil)
			}
		default:
			if o.V != nil {
				pv := po.V
				if pv == nil {
					tmp := pre.clone()
					pv = x.cellVal(tmp, po)
				}
				valueDiff(pv, o.V, nil, func(p []Step) { bad = append(bad, append([]Step{}, p...)) })
			}
		}
		for _, p := range bad {
			ok := false
			for _, l := range lvs {
				if (l.each == "" && l.obj == id || l.each != "" && o.T != nil && shortType(o.T) == l.each) && pathPrefix(l.path, p) {
					ok = true
				}
			}
			if ok {
				continue
			}
			// changed syntactically; the value may still be equal
			var goal *Term = tFalse
			_ = catch(func() {
				if o.Kind == "map" {
					goal = And(Eq(o.M.Dom, po.M.Dom), Eq(o.M.Val, po.M.Val))
				} else if o.Kind == "arr" && o.Arr != nil && po.Arr != nil {
					goal = Eq(o.Arr, po.Arr)
				} else {
					a := x.load(st, &PtrVal{T: fieldType(o.T, p), Obj: id, Path: p, Nil: tFalse})
					tmp := pre.clone()
					b := x.load(tmp, &PtrVal{T: fieldType(o.T, p), Obj: id, Path: p, Nil: tFalse})
					goal = x.valEq(st, a, b)
				}
			})
			x.oblige(st, "frame", "object "+po.Name+pathKey(p)+" is not modified", goal, pos, nil)
		}
	}
}

// verifyFunc builds the obligations of one function under contract.
func verifyFunc(x *Exec, fn *ssa.Function, c *Contract) {
	x.root, x.con = fn, c
	st := newState()
	var args []Val
	vars := map[string]Val{}
	for i, p := range fn.Params {
		v := x.symVal(st, "p."+p.Name()+fmt.Sprint(i), p.Type())
		if i == 0 && fn.Signature.Recv() != nil {
			if pv, ok := v.(*PtrVal); ok {
				pv.Nil = tFalse
			}
		}
		args = append(args, v)
		if c != nil {
			vars[c.Params[i]] = v
		}
	}
	if c == nil {
		c = &Contract{Key: fnKey(fn)}
	}
	env := &SEnv{x: x, st: st, vars: vars, pkg: pkgOfContract(c)}
	for _, l := range c.Lets {
		env.vars[l.Name] = env.ev(l.E)
	}
	for _, r := range c.Req {
		if x.relevant(r.Props) {
			st.assume(env.boolean(r.E))
		}
	}
	if st.dead {
		fail("contradictory precondition of %s", c.Key)
	}
	// all ghosts exist in the entry state
	for _, g := range sortedKeys(ghostDecls) {
		if x.relevant(ghostDecls[g].Props) {
			x.ghost(st, g)
		}
	}
	pre := st.clone()
	x.entry = pre
	lvs := frameLV(x, c, env)
	reqPc := st.pc[:len(st.pc):len(st.pc)]
	fr := &Frame{vars: env.vars, old: pre, con: c}
	x.runRoot(st, fn, args, fr, func(s *State, rs []Val) {
		x.returns++
		e2 := env.sub()
		e2.st, e2.old = s, pre
		for i, r := range c.Results {
			e2.vars[r] = rs[i]
		}
		pos := x.posStr(fn.Pos())
		for _, h := range c.Hints {
			if x.relevant(h.Props) {
				x.oblige(s, "hint", "intermediate assertion: "+h.Src, e2.boolean(h.E), pos, nil)
			}
		}
		if !s.dead {
			x.retPcs = append(x.retPcs, s.pc[:len(s.pc):len(s.pc)])
		}
		for _, en := range c.Ens {
			if x.relevant(en.Props) {
				x.oblige(s, "postcondition", en.Src, e2.boolean(en.E), pos, nil)
			}
		}
		x.checkFrame(s, pre, c, lvs, pos)
	})
	_ = reqPc
}

// runRoot is runFunc for the function under verification.
func (x *Exec) runRoot(st *State, fn *ssa.Function, args []Val, proto *Frame, k func(*State, []Val)) {
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, con: proto.con, ret: k, li: loopsOf(fn), vars: proto.vars, old: proto.old, stack: []*ssa.Function{fn}}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	if len(fn.Blocks) == 0 {
		fail("function %s has no body", fn)
	}
	x.execBlock(st, fr, fn.Blocks[0], nil)
}

func solveObls(os_ []*Obl) {
	var wg sync.WaitGroup
	type job struct {
		o    *Obl
		text string
	}
	var jobs []job
	for _, o := range os_ {
		if o.OK {
			continue
		}
		q := &Query{Hyps: o.Hyps, Goal: o.Goal, Uses: o.Uses}
		jobs = append(jobs, job{o, q.text()})
	}
	for _, j := range jobs {
		wg.Add(1)
		go func(j job) {
			defer wg.Done()
			to := 5 * time.Second
			r := solve(j.text, to, false)
			if r.Status != "unsat" {
				t2 := 20
				if j.o.Timeout > 0 {
					t2 = j.o.Timeout
				}
				r2 := solve(j.text, time.Duration(t2)*time.Second, true)
				if r2.Status == "unsat" || r.Status != "sat" {
					r = r2
				}
			}
			j.o.Res = r
			j.o.OK = r.Status == "unsat"
			j.o.How = r.Solver
		}(j)
	}
	wg.Wait()
}

func verifyOne(prop, key string) *FuncReport {
	t0 := time.Now()
	rep := &FuncReport{Key: key, BySolver: map[string]int{}}
	fn := repoFns[key]
	c := contracts[key]
	x := newExec(theProg, prop)
	if fn == nil {
		rep.Err = "function not found in the repository"
		return rep
	}
	rep.Pos = x.posStr(fn.Pos())
	if c != nil && !contractFits(c, fn) {
		rep.Err = "the signature of the function no longer matches its contract"
		return rep
	}
	rep.Err = catch(func() {
		if c != nil && c.Handler != "" {
			runHandler(x, fn, c)
			return
		}
		verifyFunc(x, fn, c)
	})
	if os.Getenv("GOVC_TIME") != "" {
		fmt.Fprintf(os.Stderr, "%s: symbolic execution %v, %d obligations, %d paths\n", key, time.Since(t0), len(x.obls), x.nPaths)
	}
	if rep.Err == "" {
		solveObls(x.obls)
		// vacuity: some return must be reachable
		if x.returns > 0 {
			alive := false
			for i, pc := range x.retPcs {
				if i >= 4 {
					alive = true
					break
				}
				q := &Query{Hyps: pc, Goal: tFalse}
				if c != nil {
					q.Uses = c.Uses
				}
				if solve(strings.Replace(q.text(), "(set-option :smt.mbqi false)", "(set-option :smt.mbqi true)", 1), 1500*time.Millisecond, false).Status != "unsat" {
					alive = true
					break
				}
			}
			if !alive {
				rep.Err = "the contract is vacuous: no return is reachable under the precondition"
			}
		}
	}
	for _, o := range x.obls {
		r := OblReport{Kind: o.Kind, Desc: o.Desc, Pos: o.Pos, Func: o.Func, OK: o.OK, Solver: o.How}
		if o.Res != nil {
			r.Status = o.Res.Status
			r.Ms = o.Res.Time.Milliseconds()
		}
		if d := os.Getenv("GOVC_DUMPALL"); d != "" && o.Goal != nil {
			q := &Query{Hyps: o.Hyps, Goal: o.Goal, Uses: o.Uses}
			os.WriteFile(filepath.Join(d, fmt.Sprintf("%d-%s.smt2", len(rep.Obls), sanit(firstN(o.Desc, 50)))), []byte(q.text()), 0o644)
		}
		if !o.OK {
			r.Trail = o.Trail
			if d := os.Getenv("GOVC_DUMP"); d != "" && o.Res != nil {
				os.MkdirAll(d, 0o755)
				os.WriteFile(filepath.Join(d, fmt.Sprintf("%s-%s.smt2", sanit(key), sanit(firstN(o.Desc, 50)))), []byte(o.Res.Text), 0o644)
			}
		}
		rep.Obls = append(rep.Obls, r)
	}
	rep.Callees, rep.Inlined, rep.Assumed, rep.Notes = sortedKeys(x.callees), sortedKeys(x.inlined), sortedKeys(x.assumed), sortedKeys(x.notes)
	if c != nil {
		rep.Uses = c.Uses
	}
	rep.Paths, rep.Returns = x.nPaths, x.returns
	rep.SolverMs = totalSolver.Milliseconds()
	rep.Axioms = trustedAxioms()
	rep.Queries = totalQ
	for k, v := range bySolver {
		rep.BySolver[k] = v
	}
	rep.WallMs = time.Since(t0).Milliseconds()
	return rep
}

func firstN(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func main() {
	if r := os.Getenv("GOVC_REPO"); r != "" {
		repoDir = r
	}
	if r := os.Getenv("GOVC_VERIF"); r != "" {
		verifDir = r
	}
	runtime.GOMAXPROCS(runtime.NumCPU())
	if len(os.Args) < 2 {
		fmt.Println("usage: govc check|verify|func|lemmas|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker": // worker PROP KEY -> JSON
		var rep *FuncReport
		if m := catch(initAll); m != "" {
			rep = &FuncReport{Key: os.Args[3], Err: m}
		} else if strings.HasPrefix(os.Args[3], "lemma:") {
			rep = proveLemma(os.Args[3][6:])
		} else {
			rep = verifyOne(os.Args[2], os.Args[3])
		}
		json.NewEncoder(os.Stdout).Encode(rep)
	case "func": // human-readable single function
		if m := catch(initAll); m != "" {
			fmt.Println("ERROR", m)
			os.Exit(1)
		}
		for _, key := range os.Args[3:] {
			var rep *FuncReport
			if strings.HasPrefix(key, "lemma:") {
				rep = proveLemma(key[6:])
			} else {
				rep = verifyOne(os.Args[2], key)
			}
			printReport(rep)
		}
	case "list":
		if m := catch(initAll); m != "" {
			fmt.Println("ERROR", m)
			os.Exit(1)
		}
		for _, k := range sortedKeys(repoFns) {
			s := "-"
			if contracts[k] != nil {
				s = "contract"
			}
			fmt.Printf("%-10s %s\n", s, k)
		}
	case "ssa":
		if m := catch(initAll); m != "" {
			fmt.Println("ERROR", m)
			os.Exit(1)
		}
		for _, k := range os.Args[2:] {
			if f := repoFns[k]; f != nil {
				f.WriteTo(os.Stdout)
				for _, a := range f.AnonFuncs {
					a.WriteTo(os.Stdout)
				}
			}
		}
	case "axioms":
		if m := catch(initAll); m != "" {
			fmt.Println("ERROR", m)
			os.Exit(1)
		}
		if bad := axiomsConsistent(20 * time.Second); len(bad) > 0 {
			fmt.Println("INCONSISTENT:", bad)
			os.Exit(1)
		}
		fmt.Println("no contradiction found in", len(axioms), "axioms")
	case "check":
		os.Exit(cmdCheck(os.Args[2], os.Args[3:]))
	default:
		fmt.Println("unknown command")
		os.Exit(2)
	}
}

func printReport(rep *FuncReport) {
	ok := 0
	for _, o := range rep.Obls {
		if o.OK {
			ok++
		}
	}
	fmt.Printf("== %s: %d/%d obligations, %d paths, %d returns, %d ms (%d queries, %d ms solver)\n", rep.Key, ok, len(rep.Obls), rep.Paths, rep.Returns, rep.WallMs, rep.Queries, rep.SolverMs)
	if rep.Err != "" {
		fmt.Println("   ERROR:", rep.Err)
	}
	seen := map[string]int{}
	for _, o := range rep.Obls {
		if !o.OK {
			l := fmt.Sprintf("   FAIL [%s] %s at %s (%s, %d ms)", o.Kind, o.Desc, o.Pos, o.Status, o.Ms)
			seen[l[:strings.LastIndex(l, " (")]]++
			if seen[l[:strings.LastIndex(l, " (")]] > 2 {
				continue
			}
			fmt.Println(l)
			if os.Getenv("GOVC_TRAIL") != "" {
				fmt.Println("        path:", strings.Join(o.Trail, "; "))
			}
		}
	}
	if os.Getenv("GOVC_V") != "" {
		fmt.Println("   callees:", rep.Callees, "\n   inlined:", rep.Inlined, "\n   assumed:", rep.Assumed, "\n   notes:", rep.Notes)
	}
}

func proveLemma(name string) *FuncReport {
	t0 := time.Now()
	rep := &FuncReport{Key: "lemma:" + name, BySolver: map[string]int{}}
	l := lemmaByName[name]
	if l == nil {
		rep.Err = "unknown lemma"
		return rep
	}
	rep.Err = catch(func() {
		q := l.query()
		r := solve(q.text(), 10*time.Second, false)
		if r.Status != "unsat" {
			r = solve(q.text(), 60*time.Second, true)
		}
		o := OblReport{Kind: "lemma", Desc: name, OK: r.Status == "unsat", Solver: r.Solver, Status: r.Status, Ms: r.Time.Milliseconds()}
		if !o.OK && os.Getenv("GOVC_DUMP") != "" {
			os.WriteFile(filepath.Join(os.Getenv("GOVC_DUMP"), "lemma-"+name+".smt2"), []byte(r.Text), 0o644)
		}
		rep.Obls = append(rep.Obls, o)
	})
	rep.Uses = l.Uses
	rep.SolverMs = totalSolver.Milliseconds()
	rep.Axioms = trustedAxioms()
	rep.Queries = totalQ
	for k, v := range bySolver {
		rep.BySolver[k] = v
	}
	rep.WallMs = time.Since(t0).Milliseconds()
	return rep
}

// axiomsConsistent looks for contradictions among the trusted axioms: each axiom
// together with everything reachable from its symbols, and all of them at once.
func axiomsConsistent(to time.Duration) (bad []string) {
	var mu sync.Mutex
	var wg sync.WaitGroup
	try := func(name string, ex []string, uses []string) {
		defer wg.Done()
		q := &Query{Extra: ex, Uses: uses}
		mu.Lock()
		txt := q.text()
		mu.Unlock()
		t := strings.Replace(txt, "(set-option :smt.mbqi false)", "(set-option :smt.mbqi true)", 1)
		r := solve(t, to, false)
		if r.Status == "unsat" {
			mu.Lock()
			if d := os.Getenv("GOVC_DUMP"); d != "" {
				os.WriteFile(filepath.Join(d, "axiom-"+sanit(name)+".smt2"), []byte(t), 0o644)
			}
			bad = append(bad, name)
			mu.Unlock()
		}
	}
	var all, uses []string
	for _, a := range axioms {
		if a.Lemma {
			if lemmaByName[a.Name] == nil {
				uses = append(uses, a.Name) // definitions
			}
			continue
		}
		all = append(all, a.Text)
		wg.Add(1)
		go try(a.Name, []string{a.Text}, nil)
	}
	wg.Add(2)
	go try("all axioms", all, nil)
	go try("all axioms and definitions", all, uses)
	wg.Wait()
	sort.Strings(bad)
	return
}

// trustedAxioms lists the axioms (not lemmas) that took part in some query.
func trustedAxioms() (r []string) {
	for _, n := range sortedKeys(usedAxioms) {
		if lemmaByName[n] == nil && axByName[n] != nil {
			r = append(r, n+": "+firstN(axByName[n].Text, 300))
		}
	}
	return
}
