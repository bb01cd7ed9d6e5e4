package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

type Ctor struct {
	Name   string
	Fields []string // accessor names
	Sorts  []string
	DT     *DT
}
type DT struct {
	Name  string
	Ctors []*Ctor
	ord   int
}
type Fun struct {
	Name   string
	Args   []string
	Ret    string
	Def    string // full SMT-LIB text for defined functions
	DefSym []string
	Acc    *Ctor
	AccIdx int
	Is     *Ctor
	Ctor   *Ctor
	Macro  func([]*Term) *Term
	Sexp   *Sexp // definition body (theory functions)
	Params []string
	ord    int
}
type Axiom struct {
	Name  string
	Text  string
	Syms  []string // all user symbols
	Heads []string // symbols that must all be present for the axiom to be relevant
	Lemma bool     // used only when asked for
	ord   int
}

var (
	ctors    = map[string]*Ctor{}
	dts      = map[string]*DT{}
	funs     = map[string]*Fun{}
	sorts    = map[string]int{} // uninterpreted sorts
	axioms   []*Axiom
	axByName = map[string]*Axiom{}
	ordCnt   int
)

func ord() int { ordCnt++; return ordCnt }

func declSort(n string) {
	if _, ok := sorts[n]; !ok {
		sorts[n] = ord()
	}
}
func declDT(name string, cs ...*Ctor) *DT {
	if d, ok := dts[name]; ok {
		return d
	}
	d := &DT{Name: name, Ctors: cs, ord: ord()}
	dts[name] = d
	for _, c := range cs {
		c.DT = d
		ctors[c.Name] = c
		funs[c.Name] = &Fun{Name: c.Name, Args: c.Sorts, Ret: name, Ctor: c, ord: d.ord}
		for i, f := range c.Fields {
			if funs[f] != nil {
				fail("accessor %s redeclared", f)
			}
			funs[f] = &Fun{Name: f, Args: []string{name}, Ret: c.Sorts[i], Acc: c, AccIdx: i, ord: d.ord}
		}
		funs["is-"+c.Name] = &Fun{Name: "is-" + c.Name, Args: []string{name}, Ret: "Bool", Is: c, ord: d.ord}
	}
	return d
}
func ctor(name string, fs ...string) *Ctor { // "field:Sort"
	c := &Ctor{Name: name}
	for _, f := range fs {
		i := strings.Index(f, ":")
		c.Fields = append(c.Fields, f[:i])
		c.Sorts = append(c.Sorts, f[i+1:])
	}
	return c
}
func declFun(name, ret string, args ...string) *Fun {
	if f, ok := funs[name]; ok {
		if f.Ret != ret || strings.Join(f.Args, ",") != strings.Join(args, ",") {
			fail("function %s redeclared with another signature: (%s)%s vs (%s)%s", name, strings.Join(f.Args, ","), f.Ret, strings.Join(args, ","), ret)
		}
		return f
	}
	f := &Fun{Name: name, Args: args, Ret: ret, ord: ord()}
	funs[name] = f
	return f
}

// collect user symbols of an SMT-LIB s-expression
func sexpSyms(x *Sexp, out map[string]bool) {
	if x.L == nil {
		out[x.Atom] = true
		return
	}
	for _, y := range x.L {
		sexpSyms(y, out)
	}
}

func addAxiom(name, text string, lemma bool) *Axiom {
	x := parseSexp(text)
	m := map[string]bool{}
	sexpSyms(x, m)
	a := &Axiom{Name: name, Text: text, Lemma: lemma, ord: ord()}
	for s := range m {
		a.Syms = append(a.Syms, s)
	}
	sort.Strings(a.Syms)
	// heads: function symbols inside the first :pattern, else all function symbols
	hm := map[string]bool{}
	var pat *Sexp
	var find func(x *Sexp)
	find = func(x *Sexp) {
		if pat != nil {
			return
		}
		for i, y := range x.L {
			if y.Atom == ":pattern" && i+1 < len(x.L) {
				pat = x.L[i+1]
				return
			}
			find(y)
		}
	}
	find(x)
	if pat != nil {
		sexpSyms(pat, hm)
	} else {
		hm = m
	}
	for s := range hm {
		if f, ok := funs[s]; ok && f.Acc == nil && f.Is == nil && f.Ctor == nil {
			a.Heads = append(a.Heads, s)
		}
	}
	axioms = append(axioms, a)
	axByName[name] = a
	return a
}

// ---------- printing ----------
type printer struct {
	sb     strings.Builder
	names  map[*Term]string
	consts map[string]string
	syms   map[string]bool
	sortsU map[string]bool
	uses   map[*Term]int
	body   strings.Builder
	n      int
}

func (p *printer) count(t *Term) {
	p.uses[t]++
	if p.uses[t] > 1 {
		return
	}
	p.noteSort(t.Sort)
	switch t.Op {
	case "const":
		if f, ok := funs[t.Name]; ok {
			_ = f
			p.syms[t.Name] = true
		} else {
			p.consts[t.Name] = t.Sort
		}
	case "app":
		p.syms[t.Name] = true
	}
	for _, a := range t.Args {
		p.count(a)
	}
	for _, v := range t.BV {
		p.noteSort(v.Sort)
	}
	for _, q := range t.Pats {
		for _, a := range q {
			p.count(a)
		}
	}
}

func (p *printer) noteSort(s string) {
	if p.sortsU[s] {
		return
	}
	p.sortsU[s] = true
	x := parseSexp(s)
	m := map[string]bool{}
	sexpSyms(x, m)
	for a := range m {
		if a == "Array" || a == "Int" || a == "Bool" {
			continue
		}
		p.syms[a] = true
	}
}

func (p *printer) str(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	s := p.raw(t)
	if t.Op == "ite" && !t.bound && t.Sort != "Bool" {
		// a name instead of the conditional keeps patterns usable
		p.n++
		n := fmt.Sprintf("$i%d", p.n)
		fmt.Fprintf(&p.body, "(declare-const %s %s)\n(assert (= %s %s))\n", n, t.Sort, n, s)
		p.names[t] = n
		return n
	}
	if len(t.Args) > 0 && !t.bound && p.uses[t] > 1 && len(s) > 24 {
		p.n++
		n := fmt.Sprintf("$t%d", p.n)
		fmt.Fprintf(&p.body, "(define-fun %s () %s %s)\n", n, t.Sort, s)
		p.names[t] = n
		return n
	}
	return s
}

func (p *printer) raw(t *Term) string {
	switch t.Op {
	case "int":
		if t.Int.Sign() < 0 {
			return "(- " + t.Int.String()[1:] + ")"
		}
		return t.Int.String()
	case "const", "bvar":
		return t.Name
	case "true", "false":
		return t.Op
	case "forall", "exists":
		var sb strings.Builder
		sb.WriteString("(" + t.Op + " (")
		for _, v := range t.BV {
			sb.WriteString("(" + v.Name + " " + v.Sort + ")")
		}
		sb.WriteString(") ")
		b := p.str(t.Args[0])
		if len(t.Pats) > 0 {
			sb.WriteString("(! " + b)
			pats := t.Pats
			if t.Op == "exists" {
				// a witness may be known as an element of the array before a store
				for _, q := range t.Pats {
					var alt []*Term
					diff := false
					for _, a := range q {
						b := stripStore(stripIte(a))
						diff = diff || b != stripIte(a)
						alt = append(alt, b)
					}
					if diff {
						pats = append(pats[:len(pats):len(pats)], alt)
					}
				}
			}
			for _, q := range pats {
				sb.WriteString(" :pattern (")
				for _, a := range q {
					sb.WriteString(p.str(stripIte(a)) + " ")
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		} else {
			sb.WriteString(b)
		}
		sb.WriteString(")")
		return sb.String()
	case "constarr":
		return "((as const " + t.Sort + ") " + p.str(t.Args[0]) + ")"
	}
	nm := t.Op
	if t.Op == "app" {
		nm = t.Name
		if f := funs[nm]; f != nil && f.Is != nil {
			nm = "(_ is " + f.Is.Name + ")"
		}
	}
	var sb strings.Builder
	sb.WriteString("(" + nm)
	for _, a := range t.Args {
		sb.WriteString(" " + p.str(a))
	}
	sb.WriteString(")")
	return sb.String()
}

type Query struct {
	Hyps  []*Term
	Goal  *Term // nil: satisfiability of Hyps
	Uses  []string
	Extra []string // extra raw assertions (lemma proofs)
}

// skolemize turns the goal forall x. A => B into hypotheses and a goal over fresh constants.
// stripStore reads through stores.
func stripStore(t *Term) *Term {
	if t.Op == "select" && t.bound {
		a := t.Args[0]
		for a.Op == "store" {
			a = a.Args[0]
		}
		return Select(a, t.Args[1])
	}
	if !t.bound || len(t.Args) == 0 || t.Op == "forall" || t.Op == "exists" {
		return t
	}
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = stripStore(a)
	}
	return rebuild(t, args, stripStore)
}

func (q *Query) skolemize() {
	n := 0
	for q.Goal != nil {
		switch g := q.Goal; g.Op {
		case "forall":
			m := map[*Term]*Term{}
			for _, v := range g.BV {
				n++
				m[v] = cst(fmt.Sprintf("sk!%d!%s", n, sanit(v.Name)), v.Sort)
			}
			q.Goal = Subst(g.Args[0], m)
			continue
		case "=>":
			q.Hyps = append(q.Hyps[:len(q.Hyps):len(q.Hyps)], g.Args[0])
			q.Goal = g.Args[1]
			continue
		}
		return
	}
}

func (q *Query) text() string {
	q = &Query{Hyps: q.Hyps, Goal: q.Goal, Uses: q.Uses, Extra: q.Extra}
	q.skolemize()
	p := &printer{names: map[*Term]string{}, consts: map[string]string{}, syms: map[string]bool{}, sortsU: map[string]bool{}, uses: map[*Term]int{}}
	for _, h := range q.Hyps {
		p.count(h)
	}
	if q.Goal != nil {
		p.count(q.Goal)
	}
	for _, e := range q.Extra {
		m := map[string]bool{}
		sexpSyms(parseSexp(e), m)
		for s := range m {
			p.syms[s] = true
		}
	}
	// closure over definitions and axioms
	incAx := map[*Axiom]bool{}
	useAx := map[string]bool{}
	for _, u := range q.Uses {
		if axByName[u] == nil {
			fail("unknown lemma %s", u)
		}
		useAx[u] = true
	}
	for changed := true; changed; {
		changed = false
		addSym := func(s string) {
			if !p.syms[s] {
				p.syms[s] = true
				changed = true
			}
		}
		for s := range p.syms {
			if f, ok := funs[s]; ok {
				for _, a := range append([]string{f.Ret}, f.Args...) {
					m := map[string]bool{}
					sexpSyms(parseSexp(a), m)
					for x := range m {
						addSym(x)
					}
				}
				for _, d := range f.DefSym {
					addSym(d)
				}
				if f.Acc != nil {
					addSym(f.Acc.DT.Name)
				}
				if f.Is != nil {
					addSym(f.Is.DT.Name)
				}
			}
			if d, ok := dts[s]; ok {
				for _, c := range d.Ctors {
					for _, a := range c.Sorts {
						m := map[string]bool{}
						sexpSyms(parseSexp(a), m)
						for x := range m {
							addSym(x)
						}
					}
				}
			}
		}
		for _, a := range axioms {
			if incAx[a] {
				continue
			}
			ok := true
			if a.Lemma {
				ok = useAx[a.Name]
			} else {
				for _, h := range a.Heads {
					if !p.syms[h] {
						ok = false
						break
					}
				}
			}
			if ok {
				incAx[a] = true
				cacheMu.Lock()
				usedAxioms[a.Name] = true
				cacheMu.Unlock()
				changed = true
				for _, s := range a.Syms {
					addSym(s)
				}
			}
		}
	}
	var out strings.Builder
	out.WriteString("(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-logic ALL)\n")
	type item struct {
		ord  int
		text string
	}
	var items []item
	for s := range p.syms {
		if o, ok := sorts[s]; ok {
			items = append(items, item{o, "(declare-sort " + s + " 0)"})
		}
		if d, ok := dts[s]; ok {
			var b strings.Builder
			fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) ((", d.Name)
			for _, c := range d.Ctors {
				fmt.Fprintf(&b, "(%s", c.Name)
				for i, f := range c.Fields {
					fmt.Fprintf(&b, " (%s %s)", f, c.Sorts[i])
				}
				b.WriteString(")")
			}
			b.WriteString(")))")
			items = append(items, item{d.ord, b.String()})
		}
		if f, ok := funs[s]; ok && f.Acc == nil && f.Is == nil && f.Ctor == nil {
			if f.Def != "" {
				items = append(items, item{f.ord, f.Def})
			} else {
				items = append(items, item{f.ord, fmt.Sprintf("(declare-fun %s (%s) %s)", f.Name, strings.Join(f.Args, " "), f.Ret)})
			}
		}
	}
	for a := range incAx {
		items = append(items, item{1000000 + a.ord, "(assert " + a.Text + ")"})
	}
	sort.Slice(items, func(i, j int) bool {
		if items[i].ord != items[j].ord {
			return items[i].ord < items[j].ord
		}
		return items[i].text < items[j].text
	})
	for _, it := range items {
		out.WriteString(it.text + "\n")
	}
	// distinctness of unique constants
	bySort := map[string][]string{}
	var cn []string
	for c := range p.consts {
		cn = append(cn, c)
	}
	sort.Strings(cn)
	for _, c := range cn {
		fmt.Fprintf(&out, "(declare-const %s %s)\n", c, p.consts[c])
		if uniqConst[c] {
			bySort[p.consts[c]] = append(bySort[p.consts[c]], c)
		}
	}
	for s := range p.syms {
		if f, ok := funs[s]; ok && len(f.Args) == 0 && uniqConst[s] {
			bySort[f.Ret] = append(bySort[f.Ret], s)
		}
	}
	var bk []string
	for s := range bySort {
		bk = append(bk, s)
	}
	sort.Strings(bk)
	for _, s := range bk {
		if len(bySort[s]) > 1 {
			sort.Strings(bySort[s])
			fmt.Fprintf(&out, "(assert (distinct %s))\n", strings.Join(bySort[s], " "))
		}
	}
	for _, e := range q.Extra {
		fmt.Fprintf(&p.body, "(assert %s)\n", e)
	}
	for _, h := range q.Hyps {
		s := p.str(h)
		fmt.Fprintf(&p.body, "(assert %s)\n", s)
	}
	if q.Goal != nil {
		s := p.str(Not(q.Goal))
		fmt.Fprintf(&p.body, "(assert %s)\n", s)
	}
	out.WriteString(p.body.String())
	out.WriteString("(check-sat)\n")
	return out.String()
}

// ---------- solving ----------
type Result struct {
	Status string // "unsat", "sat", "unknown", "timeout"
	Solver string
	Time   time.Duration
	Text   string
	Out    string
}

var (
	solverSem   = make(chan struct{}, 8)
	cacheMu     sync.Mutex
	resCache    = map[[32]byte]*Result{}
	totalSolver time.Duration
	totalQ      int
	usedAxioms  = map[string]bool{}
	bySolver    = map[string]int{}
)

func runSolver(bin string, args []string, text string, to time.Duration) (string, string) {
	return runSolverCtx(context.Background(), bin, args, text, to)
}

func runSolverCtx(parent context.Context, bin string, args []string, text string, to time.Duration) (string, string) {
	ctx, cancel := context.WithTimeout(parent, to+2*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Stdin = strings.NewReader(text)
	var o bytes.Buffer
	cmd.Stdout = &o
	cmd.Stderr = &o
	_ = cmd.Run()
	out := o.String()
	for _, l := range strings.Split(out, "\n") {
		switch strings.TrimSpace(l) {
		case "unsat":
			return "unsat", out
		case "sat":
			return "sat", out
		case "unknown":
			return "unknown", out
		case "timeout":
			return "timeout", out
		}
	}
	if strings.Contains(out, "error") {
		if os.Getenv("GOVC_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "SOLVER ERROR", bin, firstLines(out, 3))
			os.WriteFile(fmt.Sprintf("/tmp/govc_err_%s.smt2", strings.ReplaceAll(bin, "/", "_")), []byte(text), 0o644)
		}
		return "error", out
	}
	return "timeout", out
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// solve decides a query: unsat means the goal is proved.
func solve(text string, to time.Duration, full bool) *Result {
	h := sha256.Sum256([]byte(text))
	cacheMu.Lock()
	if r, ok := resCache[h]; ok && (r.Status == "unsat" || !full) {
		cacheMu.Unlock()
		return r
	}
	cacheMu.Unlock()
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	tok := acquireToken()
	defer tok.release()
	t0 := time.Now()
	r := &Result{Text: text}
	st, out := runSolver("z3-new", []string{"-in", fmt.Sprintf("-t:%d", to.Milliseconds())}, text, to)
	r.Status, r.Solver, r.Out = st, "z3-5.3.2", out
	if st != "unsat" && full {
		// portfolio: other seeds and solvers
		t2 := strings.Replace(text, "(set-option :smt.mbqi false)", "(set-option :smt.mbqi true)", 1)
		ct := strings.Replace(strings.Replace(text, "(set-option :auto_config false)\n", "", 1), "(set-option :smt.mbqi false)\n", "", 1)
		type alt struct {
			name, bin string
			args      []string
			text      string
		}
		alts := []alt{
			{"z3-4.8.12", "z3", []string{"-in", fmt.Sprintf("-t:%d", to.Milliseconds())}, text},
			{"cvc5-1.1.2", "cvc5", []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", to.Milliseconds()), "-"}, ct},
			{"z3-5.3.2-mbqi", "z3-new", []string{"-in", fmt.Sprintf("-t:%d", to.Milliseconds())}, t2},
			{"z3-5.3.2-seed", "z3-new", []string{"-in", "smt.random_seed=7", fmt.Sprintf("-t:%d", to.Milliseconds())}, text},
		}
		type res struct{ name, st, out string }
		ch := make(chan res, len(alts))
		ctx, cancel := context.WithCancel(context.Background())
		for _, a := range alts {
			go func() {
				s, o := runSolverCtx(ctx, a.bin, a.args, a.text, to)
				ch <- res{a.name, s, o}
			}()
		}
		for range alts {
			o := <-ch
			if o.st == "unsat" {
				r.Status, r.Solver, r.Out = o.st, o.name, o.out
				break
			}
			if o.st == "sat" && r.Status != "sat" {
				r.Status, r.Solver, r.Out = o.st, o.name, o.out
			}
		}
		cancel()
	}
	r.Time = time.Since(t0)
	cacheMu.Lock()
	resCache[h] = r
	totalSolver += r.Time
	totalQ++
	if r.Status == "unsat" {
		bySolver[r.Solver]++
	}
	cacheMu.Unlock()
	return r
}
