package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"unicode"
)

type Expr struct {
	Op   string // "id", "int", "str", "call", "field", "index", "forall", "exists", binary/unary operators
	Name string
	Args []*Expr
	BV   [][2]string
	Pats [][]*Expr
	Src  string
}

type Clause struct {
	Props []string
	E     *Expr
	Src   string
	File  string
	Line  int
	Name  string
}
type InvT struct {
	PH [][2]string // placeholder name, type
	Clause
}
type DecT struct {
	PH  [][2]string
	Es  []*Expr
	Src string
}
type LetT struct {
	Name string
	E    *Expr
}
type Contract struct {
	Key     string
	File    string
	Line    int
	Params  []string
	Results []string
	Extern  bool
	Inline  bool
	Trusted string
	Lets    []LetT
	Req     []Clause
	Ens     []Clause
	Mod     []*Expr
	ModSrc  []string
	Invs    []InvT
	Decs    []DecT
	Uses    []string
	Props   []string // properties for which this function is a root
	NoBody  bool
	Ghost   []GhostUpd // at-entry ghost statements (unused for now)
	Effects []Clause
	PanicOK bool
	Skip    []string
	Handler string
	Pure    string
	Hints   []Clause // asserted then assumed at returns
	Cbs     []CbT
	Recs    []RecT // ghost updates at every call of the function: the history of calls
	Timeout int
}

// CbT: a function value handed to an external function is called by it at any time; what it answers must satisfy the clause.
type CbT struct {
	Props         []string
	F             *Expr
	Arg, Typ, Res string
	C             Clause
}
type RecT struct {
	Ghost string
	C     Clause
}
type GhostUpd struct {
	Name string
	E    *Expr
}

type GhostDecl struct {
	Name  string
	Sort  string
	Props []string
	Init  string
}

var contracts = map[string]*Contract{}
var ghostDecls = map[string]*GhostDecl{}
var specMacros = map[string]*specMacro{}

type specMacro struct {
	Params []string
	E      *Expr
}

// ---------- lexer ----------
type tok struct {
	k string // id, int, str, op, eof
	s string
}

func lex(src string) []tok {
	var out []tok
	i := 0
	ops := []string{"<==>", "==>", "::", "||", "&&", "==", "!=", "<=", ">=", "<", ">", "+", "-", "*", "/", "%", "!", "(", ")", "[", "]", "{", "}", ",", ".", ":", "|"}
	for i < len(src) {
		c := src[i]
		if c == ' ' || c == '\t' || c == '\n' {
			i++
			continue
		}
		if c == '"' {
			j := i + 1
			for j < len(src) && src[j] != '"' {
				j++
			}
			out = append(out, tok{"str", src[i+1 : j]})
			i = j + 1
			continue
		}
		if unicode.IsDigit(rune(c)) {
			j := i
			for j < len(src) && unicode.IsDigit(rune(src[j])) {
				j++
			}
			out = append(out, tok{"int", src[i:j]})
			i = j
			continue
		}
		if unicode.IsLetter(rune(c)) || c == '_' || c == '?' || c == '$' || c == '#' {
			j := i + 1
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j])) || src[j] == '_' || src[j] == '$' || src[j] == '#' || (src[j] == '-' && j+1 < len(src) && i+2 == j && src[i:j] == "is" && unicode.IsLetter(rune(src[j+1])))) {
				j++
			}
			out = append(out, tok{"id", src[i:j]})
			i = j
			continue
		}
		ok := false
		for _, o := range ops {
			if strings.HasPrefix(src[i:], o) {
				out = append(out, tok{"op", o})
				i += len(o)
				ok = true
				break
			}
		}
		if !ok {
			fail("spec: bad character %q in %q", c, src)
		}
	}
	return append(out, tok{"eof", ""})
}

type sparser struct {
	t   []tok
	i   int
	src string
}

func (p *sparser) peek() tok { return p.t[p.i] }
func (p *sparser) next() tok { t := p.t[p.i]; p.i++; return t }
func (p *sparser) is(s string) bool {
	return p.t[p.i].k == "op" && p.t[p.i].s == s
}
func (p *sparser) expect(s string) {
	if !p.is(s) {
		fail("spec: expected %q, found %q in: %s", s, p.peek().s, p.src)
	}
	p.i++
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "in": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func (p *sparser) expr(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		op := t.s
		if !(t.k == "op" || t.k == "id" && op == "in") {
			return l
		}
		pr, ok := prec[op]
		if !ok || pr < min {
			return l
		}
		p.i++
		var r *Expr
		if op == "==>" {
			r = p.expr(pr)
		} else {
			r = p.expr(pr + 1)
		}
		if pr == 5 && op != "in" && (l.Op == "<" || l.Op == "<=") && (op == "<" || op == "<=") && l.Name != "paren" { // chained comparison
			l = &Expr{Op: "&&", Args: []*Expr{l, {Op: op, Args: []*Expr{l.Args[1], r}}}}
			continue
		}
		if pr == 5 && l.Op == "&&" && l.Name == "" && (op == "<" || op == "<=") && len(l.Args) == 2 && (l.Args[1].Op == "<" || l.Args[1].Op == "<=") {
			l = &Expr{Op: "&&", Args: []*Expr{l, {Op: op, Args: []*Expr{l.Args[1].Args[1], r}}}}
			continue
		}
		l = &Expr{Op: op, Args: []*Expr{l, r}}
	}
}

func (p *sparser) unary() *Expr {
	if p.is("!") {
		p.i++
		return &Expr{Op: "!", Args: []*Expr{p.unary()}}
	}
	if p.is("-") {
		p.i++
		return &Expr{Op: "neg", Args: []*Expr{p.unary()}}
	}
	e := p.primary()
	for {
		switch {
		case p.is("."):
			p.i++
			t := p.next()
			e = &Expr{Op: "field", Name: t.s, Args: []*Expr{e}}
		case p.is("["):
			p.i++
			ix := p.expr(0)
			p.expect("]")
			e = &Expr{Op: "index", Args: []*Expr{e, ix}}
		default:
			return e
		}
	}
}

func (p *sparser) sortName() string {
	// identifier or parenthesised SMT sort
	if p.is("(") {
		d := 0
		var parts []string
		for {
			t := p.next()
			if t.k == "eof" {
				fail("spec: bad sort in %s", p.src)
			}
			if t.s == "(" {
				d++
			}
			if t.s == ")" {
				d--
			}
			parts = append(parts, t.s)
			if d == 0 {
				break
			}
		}
		s := strings.Join(parts, " ")
		return parseSexp(s).String()
	}
	s := p.next().s
	for p.is(".") {
		p.i++
		s += "." + p.next().s
	}
	return s
}

func (p *sparser) primary() *Expr {
	t := p.next()
	switch t.k {
	case "int":
		return &Expr{Op: "int", Name: t.s}
	case "str":
		return &Expr{Op: "str", Name: t.s}
	case "op":
		if t.s == "(" {
			e := p.expr(0)
			p.expect(")")
			if e.Op == "<" || e.Op == "<=" {
				e2 := *e
				e2.Name = "paren"
				e = &e2
			}
			return e
		}
	case "id":
		if t.s == "forall" || t.s == "exists" {
			e := &Expr{Op: t.s}
			for {
				n := p.next().s
				p.expect(":")
				s := p.sortName()
				e.BV = append(e.BV, [2]string{n, s})
				if p.is(",") {
					p.i++
					continue
				}
				break
			}
			for p.is("{") {
				p.i++
				var ps []*Expr
				for {
					ps = append(ps, p.expr(0))
					if p.is(",") {
						p.i++
						continue
					}
					break
				}
				p.expect("}")
				e.Pats = append(e.Pats, ps)
			}
			p.expect("::")
			e.Args = []*Expr{p.expr(0)}
			return e
		}
		if p.is("(") {
			p.i++
			e := &Expr{Op: "call", Name: t.s}
			for !p.is(")") {
				e.Args = append(e.Args, p.expr(0))
				if p.is(",") {
					p.i++
				}
			}
			p.i++
			return e
		}
		return &Expr{Op: "id", Name: t.s}
	}
	fail("spec: unexpected %q in: %s", t.s, p.src)
	return nil
}

func parseExpr(src string) *Expr {
	p := &sparser{t: lex(src), src: src}
	e := p.expr(0)
	if p.peek().k != "eof" {
		fail("spec: trailing %q in: %s", p.peek().s, src)
	}
	e.Src = strings.Join(strings.Fields(src), " ")
	return e
}

// ---------- file parser ----------
// convFact is a fact about a pointer that is converted to an interface.
type convFact struct {
	param string
	e     *Expr
	pkg   string
}

var convFacts = map[string][]convFact{}

var chanGhosts = map[string][2]string{}
var clauseKW = map[string]bool{"requires": true, "ensures": true, "modifies": true, "inv": true, "decreases": true, "use": true, "let": true, "trusted": true, "inline": true, "root": true, "skip": true, "handler": true, "pure": true, "hint": true, "timeout": true, "record": true, "callback": true}

func loadSpecs(dir string) {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			fail("%v", err)
		}
		parseSpecFile(f, string(b))
	}
}

func parseTags(s string) (props []string, rest string) {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "[") {
		j := strings.Index(s, "]")
		for _, p := range strings.Split(s[1:j], ",") {
			props = append(props, strings.TrimSpace(p))
		}
		s = s[j+1:]
	}
	return props, strings.TrimSpace(s)
}

var reDB = regexp.MustCompile(`\bDB\b`)

func parseSpecFile(file, src string) {
	src = reDB.ReplaceAllString(src, "(Array Bytes OptB)")
	lines := strings.Split(src, "\n")
	pkg := ""
	var cur *Contract
	var buf []string
	var bufLine int
	flush := func() {
		if len(buf) == 0 {
			return
		}
		txt := strings.Join(buf, "\n")
		buf = nil
		if cur == nil {
			fail("%s:%d: clause outside a contract: %s", file, bufLine, txt)
		}
		parseClause(cur, txt, file, bufLine)
	}
	for i := 0; i < len(lines); i++ {
		ln := lines[i]
		if j := strings.Index(ln, "//"); j >= 0 {
			ln = ln[:j]
		}
		tr := strings.TrimSpace(ln)
		if tr == "" {
			continue
		}
		w := strings.FieldsFunc(tr, func(r rune) bool { return r == ' ' || r == '[' || r == '\t' || r == '(' || r == '{' })
		kw := ""
		if len(w) > 0 {
			kw = w[0]
		}
		top := ln[0] != ' ' && ln[0] != '\t'
		if top {
			flush()
			switch kw {
			case "package":
				pkg = strings.TrimSpace(tr[len("package"):])
				cur = nil
			case "theory":
				j := i + 1
				for j < len(lines) && strings.TrimRight(lines[j], " ") != "}" {
					j++
				}
				loadTheory(strings.Join(lines[i+1:j], "\n"))
				i = j
				cur = nil
			case "ghost":
				props, rest := parseTags(tr[len("ghost"):])
				f := strings.SplitN(rest, " ", 2)
				gd := &GhostDecl{Name: f[0], Sort: strings.TrimSpace(f[1]), Props: props}
				ghostDecls[gd.Name] = gd
			case "macro": // macro name(a, b) = expr
				j := i + 1
				txt := tr[len("macro"):]
				for j < len(lines) && len(lines[j]) > 0 && (lines[j][0] == ' ' || lines[j][0] == '\t') {
					l2 := lines[j]
					if q := strings.Index(l2, "//"); q >= 0 {
						l2 = l2[:q]
					}
					txt += "\n" + l2
					j++
				}
				i = j - 1
				eq := strings.Index(txt, "=")
				head := strings.TrimSpace(txt[:eq])
				lp := strings.Index(head, "(")
				var ps []string
				for _, a := range strings.Split(strings.TrimSuffix(head[lp+1:], ")"), ",") {
					if a = strings.TrimSpace(a); a != "" {
						ps = append(ps, a)
					}
				}
				specMacros[strings.TrimSpace(head[:lp])] = &specMacro{ps, parseExpr(txt[eq+1:])}
			case "conv": // conv pkg.Type p = fact about a pointer that is converted to an interface
				txt := tr[len("conv"):]
				eq := strings.Index(txt, "=")
				f := strings.Fields(txt[:eq])
				convFacts[f[0]] = append(convFacts[f[0]], convFact{f[1], parseExpr(txt[eq+1:]), pkg})
			case "chan": // chan pkg.Type count last: ghosts that count the sends of a type and hold the last value sent
				f := strings.Fields(tr[len("chan"):])
				chanGhosts[f[0]] = [2]string{f[1], f[2]}
			case "func", "extern":
				cur = parseHeader(tr, pkg, kw == "extern")
				cur.File, cur.Line = file, i+1
				if contracts[cur.Key] != nil {
					fail("%s:%d: duplicate contract %s", file, i+1, cur.Key)
				}
				contracts[cur.Key] = cur
			default:
				fail("%s:%d: unexpected %q", file, i+1, tr)
			}
			continue
		}
		if clauseKW[kw] {
			flush()
			bufLine = i + 1
		}
		buf = append(buf, tr)
	}
	flush()
}

// parseHeader: func (*storage).getLink(s, sn, num) (l, err)
func parseHeader(s, pkg string, ext bool) *Contract {
	c := &Contract{Extern: ext}
	s = strings.TrimSpace(s[strings.IndexAny(s, " \t"):])
	// split off result list
	depth, start := 0, -1
	var name, params, results string
	i := 0
	if s[0] == '(' { // receiver
		i = strings.Index(s, ")") + 1
	}
	for ; i < len(s); i++ {
		if s[i] == '(' {
			if depth == 0 {
				start = i
			}
			depth++
		}
		if s[i] == ')' {
			depth--
			if depth == 0 {
				if name == "" {
					name = strings.TrimSpace(s[:start])
					params = s[start+1 : i]
				} else {
					results = s[start+1 : i]
				}
			}
		}
	}
	sp := func(x string) (r []string) {
		for _, a := range strings.Split(x, ",") {
			if a = strings.TrimSpace(a); a != "" {
				r = append(r, a)
			}
		}
		return
	}
	c.Params, c.Results = sp(params), sp(results)
	c.Key = name
	if !ext {
		if strings.HasPrefix(name, "(*") {
			c.Key = "(*" + pkg + "." + name[2:]
		} else if strings.HasPrefix(name, "(") {
			c.Key = "(" + pkg + "." + name[1:]
		} else {
			c.Key = pkg + "." + name
		}
	}
	return c
}

func parsePH(s string) (ph [][2]string, rest string) {
	// (?i:int, ?r:[]chains.Leash) formula
	s = strings.TrimSpace(s)
	if !strings.HasPrefix(s, "(?") {
		return nil, s
	}
	d := 0
	for i := range s {
		if s[i] == '(' {
			d++
		}
		if s[i] == ')' {
			d--
			if d == 0 {
				for _, a := range splitTop(s[1:i]) {
					j := strings.Index(a, ":")
					ph = append(ph, [2]string{strings.TrimPrefix(strings.TrimSpace(a[:j]), "?"), strings.TrimSpace(a[j+1:])})
				}
				return ph, strings.TrimSpace(s[i+1:])
			}
		}
	}
	fail("bad placeholders: %s", s)
	return
}

func splitTop(s string) (r []string) {
	d, j := 0, 0
	for i := range s {
		switch s[i] {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				r = append(r, s[j:i])
				j = i + 1
			}
		}
	}
	return append(r, s[j:])
}

func parseClause(c *Contract, txt, file string, line int) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(govcError); ok {
				panic(govcError{fmt.Sprintf("%s:%d: %s", file, line, e.msg)})
			}
			panic(r)
		}
	}()
	j := strings.IndexAny(txt, " [\n")
	if j < 0 {
		j = len(txt)
	}
	kw, rest := txt[:j], txt[j:]
	props, body := parseTags(rest)
	if kw == "skip" {
		body = strings.TrimSpace(rest)
	}
	mkc := func(b string) Clause {
		return Clause{Props: props, E: parseExpr(b), Src: strings.Join(strings.Fields(b), " "), File: file, Line: line}
	}
	switch kw {
	case "requires":
		c.Req = append(c.Req, mkc(body))
	case "ensures":
		c.Ens = append(c.Ens, mkc(body))
	case "record": // record ghost = expr
		eq := strings.Index(body, "=")
		c.Recs = append(c.Recs, RecT{strings.TrimSpace(body[:eq]), mkc(body[eq+1:])})
	case "callback": // callback f(arg: type) (res) => goal
		k := strings.Index(body, "=>")
		h := strings.TrimSpace(body[:k])
		k2 := strings.LastIndex(h, "(")
		res := strings.Trim(h[k2:], "() ")
		h = strings.TrimSpace(h[:k2])
		k3 := strings.LastIndex(h, "(")
		at := strings.SplitN(strings.Trim(h[k3:], "() "), ":", 2)
		c.Cbs = append(c.Cbs, CbT{props, parseExpr(h[:k3]), strings.TrimSpace(at[0]), strings.TrimSpace(at[1]), res, mkc(body[k+2:])})
	case "hint":
		c.Hints = append(c.Hints, mkc(body))
	case "modifies":
		for _, m := range splitTop(body) {
			c.Mod = append(c.Mod, parseExpr(m))
			c.ModSrc = append(c.ModSrc, strings.TrimSpace(m))
		}
	case "inv":
		ph, b := parsePH(body)
		c.Invs = append(c.Invs, InvT{ph, mkc(b)})
	case "decreases":
		ph, b := parsePH(body)
		d := DecT{PH: ph, Src: b}
		for _, e := range splitTop(b) {
			d.Es = append(d.Es, parseExpr(e))
		}
		c.Decs = append(c.Decs, d)
	case "use":
		for _, u := range strings.FieldsFunc(body, func(r rune) bool { return r == ',' || r == ' ' || r == '\n' }) {
			c.Uses = append(c.Uses, u)
		}
	case "let":
		k := strings.Index(body, "=")
		c.Lets = append(c.Lets, LetT{strings.TrimSpace(body[:k]), parseExpr(body[k+1:])})
	case "trusted":
		c.Trusted = body
		if body == "" {
			c.Trusted = "trusted"
		}
	case "inline":
		c.Inline = true
	case "root":
		for _, u := range strings.FieldsFunc(body, func(r rune) bool { return r == ',' || r == ' ' || r == '\n' }) {
			c.Props = append(c.Props, u)
		}
	case "handler":
		c.Handler = body
	case "pure":
		c.Pure = body
	case "skip":
		c.Skip = append(c.Skip, body)
	case "timeout":
		fmt.Sscanf(body, "%d", &c.Timeout)
	default:
		fail("unknown clause %s", kw)
	}
}
