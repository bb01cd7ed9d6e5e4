package peers

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"time"
)

// ---- reporting: results go to VERIF_RESULT; only violations of VERIF_PROP count ----
type vrep struct {
	prop  string
	f     *os.File
	found map[string]bool
	cases int
	end   time.Time
	rng   *rand.Rand
	hist  []string
}

func newVrep() *vrep {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	b, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if b == 0 {
		b = 5
	}
	r := &vrep{prop: os.Getenv("VERIF_PROP"), found: map[string]bool{}, end: time.Now().Add(time.Duration(b) * time.Second), rng: rand.New(rand.NewSource(seed))}
	if p := os.Getenv("VERIF_RESULT"); p != "" {
		r.f, _ = os.OpenFile(p, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	}
	return r
}
func (r *vrep) out(s string) {
	if r.f != nil {
		fmt.Fprintln(r.f, s)
	} else {
		fmt.Println(s)
	}
}
func (r *vrep) more() bool { return time.Now().Before(r.end) && len(r.found) < 3 }
func (r *vrep) done()      { r.out("CASES " + strconv.Itoa(r.cases)) }
func (r *vrep) log(f string, a ...any) {
	r.hist = append(r.hist, fmt.Sprintf(f, a...))
}

// bad reports a violation of any of the comma-separated properties.
func (r *vrep) bad(props, kind, f string, a ...any) {
	ok := r.prop == ""
	for _, p := range strings.Split(props, ",") {
		if p == r.prop {
			ok = true
		}
	}
	if !ok || r.found[kind] {
		return
	}
	r.found[kind] = true
	h := r.hist
	s := strings.Join(h, "; ")
	if len(s) > 6000 {
		s = "... " + s[len(s)-6000:]
	}
	r.out("FOUND " + strings.ReplaceAll(kind+": "+fmt.Sprintf(f, a...)+" -- after: "+s, "\n", " "))
}
func (r *vrep) chk(c bool, props, kind, f string, a ...any) bool {
	if !c {
		r.bad(props, kind, f, a...)
	}
	return c
}

// guard runs f and reports a panic as a violation.
func (r *vrep) guard(props, kind string, f func()) (ok bool) {
	ok = true
	defer func() {
		if p := recover(); p != nil {
			ok = false
			r.bad(props, kind+" panics", "%v", p)
		}
	}()
	f()
	return
}
