package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

type Val interface{}

type StructVal struct {
	T types.Type
	F []Val
}
type Step struct {
	Field int
	Idx   *Term // element of an array object when non-nil
}
type PtrVal struct {
	T    types.Type // pointee type
	Obj  int
	Path []Step
	Nil  *Term
	Ref  *Term // reference to an immutable external object (Obj unused)
}
type SliceVal struct {
	Elem types.Type
	Obj  int
	Off  *Term
	Len  *Term
	Cap  *Term
	Nil  *Term
}
type MapVal struct {
	T   *types.Map
	Obj int
	Nil *Term
}
type IfaceVal struct {
	Dyn types.Type
	V   Val
}
type FuncVal struct {
	Fn   interface{} // *ssa.Function, *ssa.Builtin
	Bind []Val
}
type TupleVal []Val

type MapC struct {
	Dom, Val, Card *Term
}

type Seg struct {
	K   string // "byte" (T: the byte), "zeros", "be64", "id", "addr", "raw" (opaque Bytes term)
	T   *Term
	Len *Term
}

type Obj struct {
	ID     int
	T      types.Type // type of the stored value (element type for arrays)
	V      Val        // cell contents
	Elems  []Val      // concrete array
	Arr    *Term      // SMT array contents
	ArrN   *Term      // length of the array object if known
	Segs   []Seg      // byte array contents
	M      *MapC
	G      map[string]Val // ghost fields
	Name   string
	Frozen bool
	New    bool // allocated by the code under verification
	Kind   string
}

// shortType prints a type with short package names: *leveldb.DB, proto.BlockID
func shortType(t types.Type) string {
	t = types.Unalias(t)
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// opaque Go types -> sorts
var opaqueTypes = map[string]string{
	"proto.BlockID":      "BlockID",
	"netip.Addr":         "Addr",
	"netip.AddrPort":     "AddrPort",
	"proto.WavesAddress": "WAddr",
	"time.Time":          "Int",
	"crypto.Signature":   "Sig",
	"crypto.Digest":      "Dig",
	"crypto.PublicKey":   "PKey",
	"crypto.SecretKey":   "SKey",
	"proto.TCPAddr":      "TCPA",

	"proto.HandshakeTCPAddr": "TCPA",
	"big.Int":                "Int",
	"reflect.Type":           "Ref",
	"proto.B58Bytes":         "Bytes",
	"url.Values":             "URLValues",
	"leveldb.Batch":          "Ref",
	"http.Header":            "Ref",
	"net.IP":                 "IPT",
	"zapcore.Level":          "Int",
	"sync.Mutex":             "Ref",
	"sync.RWMutex":           "Ref",
}

// external struct types that are treated as immutable heap objects reached through Ref
var immutableTypes = map[string]bool{
	"stateless.StateMachine": true, "stateless.StateConfiguration": true,
	"proto.Block": true, "proto.MicroBlockInv": true, "http.Request": true, "url.URL": true,
	"proto.BlockMessage": true, "proto.PBBlockMessage": true, "proto.MicroBlockInvMessage": true,
	"peer.Connected": true, "peer.InternalErr": true, "proto.ScoreMessage": true, "proto.SignaturesMessage": true,
	"proto.BlockIdsMessage": true, "proto.PeersMessage": true, "proto.GetPeersMessage": true, "net.TCPAddr": true,
}

func initSorts() {
	for _, s := range []string{"Str", "BlockID", "Addr", "WAddr", "Sig", "Dig", "PKey", "SKey", "TCPA", "NTCP", "Ref", "Flt", "URLValues", "IPT"} {
		declSort(s)
	}
	declDT("AddrPort", ctor("apair", "apAddr:Addr", "apPort:Int"))
	declDT("Unit", ctor("unit"))
	declDT("BigP", ctor("bignil"), ctor("bigv", "bigval:Int"))
	declDT("Bytes", ctor("Bnil"),
		ctor("BCtr", "bc0:Int", "bc1:Int"),
		ctor("BNum", "bnp:Int", "bnn:Int"),
		ctor("BID", "bip:Int", "bid:BlockID"),
		ctor("BAddr", "bap:Int", "baa:Addr"),
		ctor("BU64", "bu64:Int"),
		ctor("BIdV", "bidv:BlockID"),
		ctor("BAddrV", "baddrv:Addr"),
		ctor("BGen", "bgen:WAddr"),
		ctor("BRaw", "braw:Int"))
	declDT("OptB", ctor("none"), ctor("some", "optv:Bytes"))
	declDT("Err", ctor("errnil"), ctor("errs", "errid:Int"), ctor("errw", "errin:Err", "errtag:Int"), ctor("errn", "errntag:Int"), ctor("errio", "erriotag:Int"))
	declFun("isE0", "Bool", "Err", "Err")
	declFun("refnil", "Ref")
	uniqConst["refnil"] = true
	declFun("slen", "Int", "Str")
	declFun("strempty", "Str")
	uniqConst["strempty"] = true
	loadTheory(`
(axiom slen_nonneg (forall ((s Str)) (! (and (>= (slen s) 0) (= (= (slen s) 0) (= s strempty))) :pattern ((slen s)))))
(declare-fun pow2 (Int) Int)
`)
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func namedOpaque(t types.Type) (string, bool) {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		s, ok2 := opaqueTypes[shortType(n)]
		return s, ok2
	}
	return "", false
}

func isErrorType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "error" && n.Obj().Pkg() == nil
}
func isBigPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && shortType(p.Elem()) == "big.Int"
}
func deref(t types.Type) types.Type {
	return t.Underlying().(*types.Pointer).Elem()
}

var sortMemo = map[string]string{}

// sortOf maps a Go type to the SMT sort used when its values live inside containers or formulas.
func sortOf(t types.Type) string {
	if s, ok := namedOpaque(t); ok {
		return s
	}
	if isErrorType(t) {
		return "Err"
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsString != 0:
			return "Str"
		case u.Info()&types.IsFloat != 0:
			return "Flt"
		}
		return "Ref"
	case *types.Struct:
		return structDT(t).Name
	case *types.Slice:
		if isByte(u.Elem()) {
			return "Bytes"
		}
		return slcSort(sortOf(u.Elem()))
	case *types.Array:
		if isByte(u.Elem()) {
			return "Bytes"
		}
		return slcSort(sortOf(u.Elem()))
	case *types.Pointer:
		if isBigPtr(t) {
			return "BigP"
		}
		return "Ref"
	}
	return "Ref"
}

func slcSort(es string) string {
	n := "Slc_" + sanit(strings.NewReplacer("(", "", ")", "").Replace(es))
	declDT(n, ctor("slc_"+n[4:], "arr_"+n[4:]+":"+arrSort("Int", es), "len_"+n[4:]+":Int"))
	return n
}
func slcParts(s string) string { return dts[s].Ctors[0].Sorts[0] }

func structName(t types.Type) string { return "S_" + sanit(shortType(t)) }

func structDT(t types.Type) *DT {
	n := structName(t)
	if d, ok := dts[n]; ok {
		return d
	}
	st := t.Underlying().(*types.Struct)
	if st.NumFields() == 0 {
		return dts["Unit"]
	}
	c := &Ctor{Name: "mk" + n}
	for i := 0; i < st.NumFields(); i++ {
		c.Sorts = append(c.Sorts, sortOf(st.Field(i).Type()))
		c.Fields = append(c.Fields, n+"."+st.Field(i).Name())
	}
	return declDT(n, c)
}

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	one := big.NewInt(1)
	p := func(n uint) *big.Int { return new(big.Int).Lsh(one, n) }
	u := func(n uint) (*big.Int, *big.Int, bool) { return big.NewInt(0), new(big.Int).Sub(p(n), one), true }
	s := func(n uint) (*big.Int, *big.Int, bool) {
		return new(big.Int).Neg(p(n - 1)), new(big.Int).Sub(p(n-1), one), true
	}
	switch b.Kind() {
	case types.Uint8:
		return u(8)
	case types.Uint16:
		return u(16)
	case types.Uint32:
		return u(32)
	case types.Uint64, types.Uint, types.Uintptr:
		return u(64)
	case types.Int8:
		return s(8)
	case types.Int16:
		return s(16)
	case types.Int32:
		return s(32)
	case types.Int64, types.Int:
		return s(64)
	}
	return nil, nil, false
}
func inRange(x *Term, t types.Type) *Term {
	if _, op := namedOpaque(t); op {
		return tTrue
	}
	lo, hi, ok := intRange(t)
	if !ok {
		return tTrue
	}
	return And(Ge(x, bigT(lo)), Le(x, bigT(hi)))
}

func typeName(v Val) string { return fmt.Sprintf("%T", v) }
