package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// slot is a slot for one solver process, shared between the worker processes
// of a check so that timeouts do not depend on how many of them run.
type slot struct{ f *os.File }

func (t *slot) release() {
	if t != nil && t.f != nil {
		t.f.Close()
	}
}

func acquireToken() *slot {
	dir := os.Getenv("GOVC_TOKENS")
	if dir == "" {
		return nil
	}
	const n = 8
	o := rand.Intn(n)
	for {
		for i := 0; i < n; i++ {
			f, err := os.OpenFile(filepath.Join(dir, "t"+strconv.Itoa((o+i)%n)), os.O_CREATE|os.O_RDWR, 0o644)
			if err != nil {
				return nil
			}
			if syscall.Flock(int(f.Fd()), syscall.LOCK_EX|syscall.LOCK_NB) == nil {
				return &slot{f}
			}
			f.Close()
		}
		time.Sleep(time.Duration(2+rand.Intn(6)) * time.Millisecond)
	}
}

// driver is the replay harness of a property: an in-package Go test that runs
// the real code against an oracle written from the property's statement.
type driver struct{ pkg, test string }

var drivers = map[string][]driver{
	"C01": {{"chains", "TestVerifChains"}}, "C02": {{"chains", "TestVerifChains"}}, "C03": {{"chains", "TestVerifChains"}},
	"C04": {{"chains", "TestVerifChains"}}, "C05": {{"chains", "TestVerifChains"}}, "C06": {{"chains", "TestVerifChains"}},
	"C07": {{"chains", "TestVerifChains"}}, "C08": {{"chains", "TestVerifChains"}}, "C09": {{"chains", "TestVerifScore"}},
	"C15": {{"peers", "TestVerifPeers"}}, "C16": {{"peers", "TestVerifPeers"}}, "C17": {{"peers", "TestVerifPeers"}},
	"C18": {{"peers", "TestVerifPeers"}}, "C19": {{"peers", "TestVerifPeers"}},
	"C11": {{"loading", "TestVerifLoading"}}, "C12": {{"loading", "TestVerifLoading"}}, "C13": {{"loading", "TestVerifLoading"}}, "C14": {{"loading", "TestVerifLoading"}},
	"C21": {{"main", "TestVerifDistributor"}},
	"C23": {{"main", "TestVerifParams"}},
	"C22": {{"chains", "TestVerifLocks"}, {"peers", "TestVerifLocks"}},
}

type checkOut struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int            `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions"`
	WallS       float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

func runWorker(prop, key, tokens string, to time.Duration) *FuncReport {
	ctx, cancel := context.WithTimeout(context.Background(), to)
	defer cancel()
	exe, _ := os.Executable()
	cmd := exec.CommandContext(ctx, exe, "worker", prop, key)
	cmd.Env = append(os.Environ(), "GOVC_TOKENS="+tokens, "GOMAXPROCS=4")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	rep := &FuncReport{}
	if json.Unmarshal(o.Bytes(), rep) != nil {
		rep = &FuncReport{Key: key, Err: "the verifier gave no answer"}
		if ctx.Err() != nil {
			rep.Err = fmt.Sprintf("the verifier did not finish within %v", to)
		} else if err != nil {
			rep.Err += ": " + err.Error() + " " + firstLines(e.String(), 3)
		}
	}
	return rep
}

// rootsOf returns the functions whose contracts state the property.
func rootsOf(prop string) []string {
	var r []string
	for k, c := range contracts {
		for _, p := range c.Props {
			if p == prop {
				r = append(r, k)
			}
		}
	}
	sort.Strings(r)
	return r
}

func exportedKey(key string) bool {
	n := key[strings.LastIndex(key, ".")+1:]
	return n != "" && n[0] >= 'A' && n[0] <= 'Z'
}

func contractLess(c *Contract) bool { return c == nil || c.Extern || c.Inline || c.Trusted != "" }

func cmdCheck(prop string, args []string) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if len(args) > 0 {
		tier = args[0]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	out := &checkOut{Property: prop, Tier: tier, Seed: seed, Level: "proof", Coverage: map[string]any{}}
	evDir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(evDir, 0o755)
	replay := filepath.Join(evDir, "replay-"+prop+".txt")
	os.Remove(replay)
	work, err := os.MkdirTemp("", "govc-")
	if err != nil {
		fmt.Println("cannot create a scratch directory:", err)
		return 2
	}
	defer os.RemoveAll(work)

	// the bounded companion runs while the verifier works
	type drvRes struct{ r *driverResult }
	drvCh := make(chan *driverResult, 1)
	budget := 6
	if tier == "thorough" {
		budget = 120
	}
	go func() { drvCh <- runDriver(prop, work, seed, budget) }()

	var reps []*FuncReport
	var failures []string
	fail1 := func(f string, a ...any) { failures = append(failures, fmt.Sprintf(f, a...)) }
	if m := catch(initAll); m != "" {
		fail1("the verifier could not load the code: %s", m)
	} else {
		tokens := filepath.Join(work, "tok")
		os.MkdirAll(tokens, 0o755)
		limit := 420 * time.Second
		deadline := t0.Add(540 * time.Second)
		if tier == "thorough" {
			limit, deadline = 3000*time.Second, t0.Add(3*time.Hour)
		}
		var mu sync.Mutex
		var wg sync.WaitGroup
		sem := make(chan struct{}, 7)
		seen := map[string]bool{}
		var submit func(key string)
		submit = func(key string) {
			mu.Lock()
			if seen[key] {
				mu.Unlock()
				return
			}
			seen[key] = true
			mu.Unlock()
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- struct{}{}
				var rep *FuncReport
				left := time.Until(deadline)
				if left > limit {
					left = limit
				}
				if left < 5*time.Second {
					rep = &FuncReport{Key: key, Err: "not verified: the time of the check ran out"}
				} else {
					rep = runWorker(prop, key, tokens, left)
				}
				<-sem
				mu.Lock()
				reps = append(reps, rep)
				mu.Unlock()
				for _, u := range rep.Uses {
					if lemmaByName[u] != nil {
						submit("lemma:" + u)
					}
				}
				for _, cal := range rep.Callees {
					if c := contracts[cal]; !contractLess(c) && repoFns[cal] != nil {
						submit(cal)
					}
				}
			}()
		}
		roots := rootsOf(prop)
		n := 0
		var skipped []string
		for _, k := range roots {
			fn := repoFns[k]
			c := contracts[k]
			if fn == nil || (c.Handler == "" && !contractFits(c, fn)) {
				if exportedKey(k) {
					fail1("%s: the function is missing or its signature differs from its contract", k)
				} else {
					skipped = append(skipped, k)
				}
				continue
			}
			n++
			submit(k)
		}
		if n == 0 {
			fail1("no function under contract for this property was found")
		}
		wg.Wait()
		out.Coverage["skipped_roots"] = skipped
		if tier == "thorough" {
			bad := axiomsConsistent(5 * time.Second)
			out.Coverage["axioms_checked_for_contradictions"] = len(axioms)
			if len(bad) > 0 {
				fail1("contradictory trusted axioms: %v", bad)
			}
		}
	}
	sort.Slice(reps, func(i, j int) bool { return reps[i].Key < reps[j].Key })
	total, ok, trivial := 0, 0, 0
	byS := map[string]int{}
	trusted := map[string]bool{}
	inl := map[string]bool{}
	notes := map[string]bool{}
	var fns, lem []map[string]any
	kinds := map[string]int{}
	var ms int64
	q := 0
	var samples []string
	var detail []string
	for _, r := range reps {
		o := 0
		for _, b := range r.Obls {
			total++
			kinds[b.Kind]++
			if b.OK {
				ok++
				o++
				if b.Status == "" {
					trivial++
					byS["govc simplifier"]++
				} else {
					byS[b.Solver]++
				}
			}
		}
		ent := map[string]any{"function": r.Key, "at": r.Pos, "obligations": len(r.Obls), "discharged": o, "paths": r.Paths, "solver_ms": r.SolverMs}
		if strings.HasPrefix(r.Key, "lemma:") {
			lem = append(lem, map[string]any{"lemma": r.Key[6:], "discharged": o == len(r.Obls) && r.Err == ""})
		} else {
			fns = append(fns, ent)
		}
		ms += r.SolverMs
		q += r.Queries
		for _, a := range r.Assumed {
			trusted[a] = true
		}
		for _, a := range r.Axioms {
			trusted["axiom "+a] = true
		}
		for _, a := range r.Inlined {
			inl[a] = true
		}
		for _, a := range r.Notes {
			notes[a] = true
		}
		if r.Err != "" {
			fail1("%s: %s", r.Key, firstLines(r.Err, 1))
			detail = append(detail, r.Key+": "+r.Err)
		}
		seenF := map[string]bool{}
		for _, b := range r.Obls {
			if !b.OK {
				l := fmt.Sprintf("%s: obligation [%s] %s at %s is not discharged (%s)", r.Key, b.Kind, b.Desc, b.Pos, b.Status)
				if !seenF[l] {
					seenF[l] = true
					fail1("%s", l)
					detail = append(detail, l+"\n   path: "+strings.Join(b.Trail, "; ")+"\n   solver output: "+b.Model)
				}
			} else if len(samples) < 12 && b.Status != "" && b.Kind == "postcondition" {
				samples = append(samples, r.Key+": "+b.Desc+" ["+b.Solver+", "+strconv.Itoa(int(b.Ms))+" ms]")
			}
		}
	}
	if total == 0 && len(failures) == 0 {
		fail1("no obligation was generated")
	}
	out.Coverage["obligations"] = total
	out.Coverage["discharged"] = ok
	out.Coverage["discharged_by"] = byS
	out.Coverage["obligations_by_kind"] = kinds
	out.Coverage["functions_under_contract"] = fns
	out.Coverage["lemmas"] = lem
	out.Coverage["inlined_functions"] = sortedKeys(inl)
	out.Coverage["solver_s"] = float64(ms) / 1000
	out.Coverage["solver_queries"] = q
	out.Coverage["samples"] = samples
	out.Coverage["checker_cmd"] = "bash /verif/check.sh " + prop
	tb := sortedKeys(trusted)
	tb = append(tb, "govc (the condition generator in /verif/govc) and the go/ssa translation of the source it starts from", "z3 5.3.2, z3 4.8.12 and cvc5 1.1.2")
	out.Coverage["trusted_base"] = tb
	out.Assumptions = append(sortedKeys(notes), standingAssumptions...)

	// ---- bounded companion / replay ----
	dr := <-drvCh
	known := loadKnown(prop)
	var vio []string // violations with a failing input
	var knownHit []string
	addFound := func(d *driverResult) {
		for _, f := range d.Found {
			if k := known.match(f); k != "" {
				knownHit = append(knownHit, k)
			} else {
				vio = append(vio, f)
			}
		}
	}
	var hard []string
	for _, f := range failures {
		if k := known.match(f); k != "" {
			knownHit = append(knownHit, k)
		} else {
			hard = append(hard, f)
		}
	}
	addFound(dr)
	if len(hard) > 0 && len(vio) == 0 && dr.Ran {
		// look longer for an input that shows it on the real code
		left := 780 - int(time.Since(t0).Seconds())
		if left > 120 {
			left = 120
		}
		if left > 15 {
			dr2 := runDriver(prop, work, seed+1000, left-10)
			addFound(dr2)
			dr.Cases += dr2.Cases
		}
	}
	if dr.Name != "" {
		out.Coverage["bounded_companion"] = map[string]any{"harness": dr.Name, "cases": dr.Cases, "budget_s": budget, "ran": dr.Ran, "note": "bounded, not counted as proof: randomized histories of the real code against an oracle written from the statement; its job is to replay failed obligations"}
	}
	for _, k := range uniq(knownHit) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	rc := 0
	if len(vio) > 0 || len(hard) > 0 {
		rc = 1
		var b strings.Builder
		fmt.Fprintf(&b, "property %s\n\n", prop)
		if len(vio) > 0 {
			b.WriteString("Failing input found on the real code (" + dr.Name + "):\n")
			for _, v := range vio {
				b.WriteString("  " + v + "\n")
			}
			fmt.Fprintf(&b, "Replay: VERIF_SEED=%d bash /verif/check.sh %s\n\n", seed, prop)
		}
		if len(hard) > 0 {
			b.WriteString("Failed obligations:\n")
			for _, f := range hard {
				b.WriteString("  " + f + "\n")
			}
			b.WriteString("\nVerifier output:\n" + strings.Join(detail, "\n") + "\n")
		}
		if dr.Note != "" {
			b.WriteString("\nHarness: " + dr.Note + "\n")
		}
		os.WriteFile(replay, []byte(b.String()), 0o644)
		for i, f := range hard {
			if i < 10 {
				fmt.Println("FAILED", f)
			}
		}
		for i, f := range vio {
			if i < 5 {
				fmt.Println("INPUT", f)
			}
		}
		if len(vio) > 0 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, replay)
		}
		out.Violations = len(vio)
		if out.Violations == 0 {
			out.Violations = len(hard)
		}
	}
	out.WallS = time.Since(t0).Seconds()
	j, _ := json.MarshalIndent(out, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, prop+".json"), j, 0o644); err != nil {
		fmt.Println("cannot write the evidence file:", err)
		return 2
	}
	fmt.Printf("%s: %d/%d obligations of %d functions and %d lemmas discharged, %d replay cases, %.1f s\n", prop, ok, total, len(fns), len(lem), dr.Cases, out.WallS)
	return rc
}

var standingAssumptions = []string{
	"Go integers are modelled as mathematical integers with explicit wrap-around at their width; float64 only where an axiom states the function used",
	"sequential semantics per call: the lock discipline (C22) is what makes the per-call contracts apply to concurrent use",
	"logging (zap) and fmt formatting have no effect on the modelled state",
	"memory and stack are unbounded; the Go runtime, compiler and standard library are correct",
}

func uniq(s []string) []string {
	sort.Strings(s)
	var r []string
	for i, x := range s {
		if i == 0 || x != s[i-1] {
			r = append(r, x)
		}
	}
	return r
}

// ---- known findings ----
type knownSet []string // substrings identifying a finding

func loadKnown(prop string) knownSet {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var r knownSet
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "known: property="+prop+" ") {
			r = append(r, strings.TrimSpace(strings.TrimPrefix(l, "known: property="+prop+" ")))
		}
	}
	return r
}

// match: a known finding is written as "<identifying text> :: <description>".
func (k knownSet) match(f string) string {
	for _, e := range k {
		id, desc, _ := strings.Cut(e, " :: ")
		if id != "" && strings.Contains(f, id) {
			return id + ": " + desc
		}
	}
	return ""
}

// ---- replay harness ----
type driverResult struct {
	Name  string
	Ran   bool
	Cases int
	Found []string
	Note  string
}

// runDriver runs the harnesses of the property, at once if there are several.
func runDriver(prop, work string, seed, budget int) *driverResult {
	r := &driverResult{}
	ds := drivers[prop]
	res := make([]*driverResult, len(ds))
	var wg sync.WaitGroup
	for i, d := range ds {
		wg.Add(1)
		go func() {
			defer wg.Done()
			res[i] = runOneDriver(prop, d, work, seed, budget)
		}()
	}
	wg.Wait()
	for i, o := range res {
		if i > 0 {
			r.Name += ", "
		}
		r.Name += o.Name
		r.Ran = r.Ran || o.Ran
		r.Cases += o.Cases
		r.Found = append(r.Found, o.Found...)
		if o.Note != "" {
			r.Note = strings.TrimSpace(r.Note + " " + o.Note)
		}
	}
	return r
}

func runOneDriver(prop string, d driver, work string, seed, budget int) *driverResult {
	r := &driverResult{}
	r.Name = d.pkg + " " + d.test
	dir := filepath.Join(verifDir, "replay", d.pkg)
	es, err := os.ReadDir(dir)
	if err != nil {
		r.Note = err.Error()
		return r
	}
	repl := map[string]string{}
	pk := d.pkg
	if pk == "main" {
		pk = "."
	}
	for _, e := range es {
		if strings.HasSuffix(e.Name(), ".go") {
			repl[filepath.Join(repoDir, pk, "zz_"+strings.TrimSuffix(e.Name(), ".go")+"_verif_test.go")] = filepath.Join(dir, e.Name())
		}
	}
	// the repository's own tests are left out: they may not compile against an edited helper
	ts, _ := filepath.Glob(filepath.Join(repoDir, pk, "*_test.go"))
	for _, t := range ts {
		repl[t] = ""
	}
	wd, _ := os.MkdirTemp(work, "drv")
	ov := filepath.Join(wd, "overlay.json")
	j, _ := json.Marshal(map[string]any{"Replace": repl})
	os.WriteFile(ov, j, 0o644)
	resF := filepath.Join(wd, "result.txt")
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(budget+150)*time.Second)
	defer cancel()
	// compile first: a harness that does not compile says nothing about the property
	bin := filepath.Join(wd, "t.bin")
	cc := exec.CommandContext(ctx, "go", "test", "-c", "-vet=off", "-overlay", ov, "-o", bin, "./"+pk)
	cc.Dir = repoDir
	if o, err := cc.CombinedOutput(); err != nil {
		r.Note = "the harness does not build: " + firstLines(string(o), 8)
		return r
	}
	ctx2, cancel2 := context.WithTimeout(context.Background(), time.Duration(budget+60)*time.Second)
	defer cancel2()
	tmp := filepath.Join(wd, "tmp")
	os.MkdirAll(tmp, 0o755)
	cmd := exec.CommandContext(ctx2, bin, "-test.run", "^"+d.test+"$", "-test.timeout", strconv.Itoa(budget+50)+"s")
	cmd.Dir = wd
	cmd.Env = append(os.Environ(), "VERIF_SEED="+strconv.Itoa(seed), "VERIF_BUDGET="+strconv.Itoa(budget), "VERIF_RESULT="+resF, "TMPDIR="+tmp, "VERIF_PROP="+prop)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	o, err := cmd.CombinedOutput()
	r.Ran = true
	b, _ := os.ReadFile(resF)
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "CASES ") {
			n, _ := strconv.Atoi(strings.TrimSpace(l[6:]))
			r.Cases += n
		} else if strings.HasPrefix(l, "FOUND ") {
			r.Found = append(r.Found, l[6:])
		}
	}
	if err != nil && len(r.Found) == 0 {
		s := string(o)
		if i := strings.Index(s, "panic: "); i >= 0 && !strings.Contains(s, "panic: test timed out") {
			last := lastCase(b)
			r.Found = append(r.Found, "the code panics: "+firstLines(s[i:], 1)+" "+last+" "+strings.Join(strings.Fields(firstN(s[i:], 3000)), " "))
		} else if strings.Contains(s, "panic: test timed out") || ctx2.Err() != nil {
			r.Found = append(r.Found, "the code does not return: "+lastCase(b))
		} else {
			r.Note = "the harness failed: " + firstN(s, 2000)
		}
	}
	return r
}

func lastCase(b []byte) string {
	last := ""
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "CASE ") {
			last = l
		}
	}
	return last
}
