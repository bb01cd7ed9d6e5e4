package main

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pureNoop lists external functions whose effects are outside the verified
// state: results are unconstrained, arguments are not modified.
func pureNoop(key string) bool {
	if noopKeys[key] {
		return true
	}
	for _, p := range noopPrefixes {
		if strings.HasPrefix(key, p) {
			return true
		}
	}
	return false
}

var noopKeys = map[string]bool{}
var noopPrefixes = []string{"zap.", "(*zap.", "(zap.", "(zapcore.", "(*zapcore."}

func pureNoopPkg(fn *ssa.Function) bool {
	p := ""
	if fn.Pkg != nil {
		p = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		p = fn.Object().Pkg().Path()
	}
	return strings.HasPrefix(p, "go.uber.org/zap")
}

// cmpMinorT models proto.Version.CmpMinor: 2 on different major versions, 0 on
// equal minors, 1 if the wrapped difference squared is 1, otherwise 2.
func cmpMinorT(a, b, a2, b2 *Term) *Term {
	d := Sub(b, b2)
	var l []*Term
	for _, r := range []int64{1, 1<<32 - 1, 1<<31 - 1, 1<<31 + 1} { // the roots of 1 modulo 2^32
		l = append(l, Eq(d, intT(r)), Eq(d, intT(-r)))
	}
	near := Or(l...)
	return Ite(Ne(a, a2), intT(2), Ite(Eq(b, b2), intT(0), Ite(near, intT(1), intT(2))))
}

func (x *Exec) execSelect(st *State, fr *Frame, in *ssa.Select, k func(*State, Val)) {
	pos := x.posOf(in)
	n := len(in.States)
	cases := n
	if !in.Blocking {
		cases++
	}
	for c := 0; c < cases; c++ {
		s := st
		if c < cases-1 {
			s = st.clone()
		}
		idx := int64(c)
		if c == n {
			idx = -1
		}
		tv := TupleVal{intT(idx), fresh("recvok", "Bool")}
		for j, sc := range in.States {
			if sc.Dir != types.RecvOnly {
				continue
			}
			el := sc.Chan.Type().Underlying().(*types.Chan).Elem()
			if j == c {
				tv = append(tv, x.symVal(s, x.freshName("recv"), el))
			} else {
				tv = append(tv, x.zeroVal(s, el))
			}
		}
		if c < n && in.States[c].Dir == types.SendOnly {
			sc := in.States[c]
			x.send(s, fr, x.value(s, fr, sc.Chan), x.value(s, fr, sc.Send), sc.Send.Type(), pos)
		}
		s.trail = append(s.trail, pos+" select case "+itoa(int(idx)))
		if !s.dead {
			k(s, tv)
		}
	}
}

func (x *Exec) send(st *State, fr *Frame, ch, v Val, t types.Type, pos string) {
	if g, ok := chanGhosts[shortType(t)]; ok {
		if gd := ghostDecls[g[0]]; gd != nil && x.relevant(gd.Props) {
			st.ghosts[g[0]] = Add(x.ghost(st, g[0]), intT(1))
			st.ghosts[g[1]] = x.reify(st, v, t)
			x.assumed["a value sent on a channel of "+shortType(t)+" is received (the sender blocks until then)"] = true
			return
		}
	}
	x.notes["send on a channel at "+pos+": delivery is not modelled"] = true
}

func itoa(i int) string { return big.NewInt(int64(i)).String() }

func runHandler(x *Exec, fn *ssa.Function, c *Contract) { fail("handler clause not supported") }
