package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"
)

// loadBase declares the theory of the modelled library functions.
func loadBase() {
	loadTheory(`
(axiom isE0_nil (forall ((s Err)) (! (= (isE0 errnil s) (= s errnil)) :pattern ((isE0 errnil s)))))
(axiom isE0_s (forall ((i Int) (s Err)) (! (= (isE0 (errs i) s) (= s (errs i))) :pattern ((isE0 (errs i) s)))))
(axiom isE0_n (forall ((i Int) (s Err)) (! (= (isE0 (errn i) s) (= s (errn i))) :pattern ((isE0 (errn i) s)))))
(axiom isE0_io (forall ((i Int) (s Err)) (! (= (isE0 (errio i) s) (= s (errio i))) :pattern ((isE0 (errio i) s)))))
(declare-fun isIO0 (Err) Bool)
(axiom isIO_io (forall ((i Int)) (! (isIO0 (errio i)) :pattern ((isIO0 (errio i))))))
(axiom isIO_s (forall ((i Int)) (! (not (isIO0 (errs i))) :pattern ((isIO0 (errs i))))))
(axiom isIO_n (forall ((i Int)) (! (not (isIO0 (errn i))) :pattern ((isIO0 (errn i))))))
(axiom isIO_nil (not (isIO0 errnil)))
(axiom isIO_w (forall ((e Err) (i Int)) (! (= (isIO0 (errw e i)) (isIO0 e)) :pattern ((isIO0 (errw e i))))))
(axiom isE0_w (forall ((e Err) (i Int) (s Err)) (! (= (isE0 (errw e i) s) (or (= s (errw e i)) (and (not (= e errnil)) (isE0 e s)))) :pattern ((isE0 (errw e i) s)))))
(axiom isE0_self (forall ((e Err)) (! (isE0 e e) :pattern ((isE0 e e)))))
(axiom isE0_iosent (forall ((e Err) (i Int)) (! (=> (isIO0 e) (not (isE0 e (errs i)))) :pattern ((isE0 e (errs i)) (isIO0 e)))))
(axiom isE0_onesent (forall ((e Err) (i Int) (j Int)) (! (=> (and (isE0 e (errs i)) (isE0 e (errs j))) (= i j)) :pattern ((isE0 e (errs i)) (isE0 e (errs j))))))
(axiom isE0_niltarget (forall ((e Err)) (! (=> (isE0 e errnil) (= e errnil)) :pattern ((isE0 e errnil)))))
(declare-const tzero Int)
(declare-fun idlen (BlockID) Int)
(axiom idlen_ax (forall ((b BlockID)) (! (or (= (idlen b) 0) (= (idlen b) 32) (= (idlen b) 64)) :pattern ((idlen b)))))
(declare-const zero_BlockID BlockID)
(axiom idlen_zero (= (idlen zero_BlockID) 0))
(define okID ((b BlockID)) Bool (> (idlen b) 0))
(declare-fun alen (Addr) Int)
(declare-fun is4 (Addr) Bool)
(declare-fun is6 (Addr) Bool)
(declare-fun zoned (Addr) Bool)
(axiom alen_ax (forall ((a Addr)) (! (= (alen a) (ite (is4 a) 4 (ite (is6 a) 16 0))) :pattern ((alen a)))))
(axiom is46 (forall ((a Addr)) (! (not (and (is4 a) (is6 a))) :pattern ((is4 a) (is6 a)))))
(axiom zoned4 (forall ((a Addr)) (! (=> (zoned a) (is6 a)) :pattern ((zoned a)))))
(define okAddr ((a Addr)) Bool (and (or (is4 a) (is6 a)) (not (zoned a))))
(declare-fun unz (Addr) Addr)
(axiom unz_ax (forall ((a Addr)) (! (and (=> (not (zoned a)) (= (unz a) a)) (not (zoned (unz a))) (= (is4 (unz a)) (is4 a)) (= (is6 (unz a)) (is6 a)) (= (alen (unz a)) (alen a))) :pattern ((unz a)))))
(declare-const zero_Addr Addr)
(axiom zeroAddr (and (not (is4 zero_Addr)) (not (is6 zero_Addr))))
(declare-fun blen (Bytes) Int)
(axiom blen_nn (forall ((b Bytes)) (! (>= (blen b) 0) :pattern ((blen b)))))
(axiom blen_nil (forall ((b Bytes)) (! (= (= (blen b) 0) (= b Bnil)) :pattern ((blen b)))))
(axiom blen_ctr (forall ((x Int) (y Int)) (! (= (blen (BCtr x y)) 2) :pattern ((blen (BCtr x y))))))
(axiom blen_num (forall ((x Int) (y Int)) (! (= (blen (BNum x y)) 9) :pattern ((blen (BNum x y))))))
(axiom blen_id (forall ((x Int) (y BlockID)) (! (= (blen (BID x y)) (+ 1 (idlen y))) :pattern ((blen (BID x y))))))
(axiom blen_addr (forall ((x Int) (y Addr)) (! (= (blen (BAddr x y)) (+ 1 (alen y))) :pattern ((blen (BAddr x y))))))
(axiom blen_u64 (forall ((x Int)) (! (= (blen (BU64 x)) 8) :pattern ((blen (BU64 x))))))
(axiom blen_idv (forall ((x BlockID)) (! (=> (okID x) (= (blen (BIdV x)) (idlen x))) :pattern ((blen (BIdV x))))))
(axiom blen_addrv (forall ((x Addr)) (! (=> (> (alen x) 0) (= (blen (BAddrV x)) (alen x))) :pattern ((blen (BAddrV x))))))
(axiom blen_gen (forall ((x WAddr)) (! (= (blen (BGen x)) 26) :pattern ((blen (BGen x))))))
(declare-fun bsub (Bytes Int) Bytes)
(axiom bsub_num (forall ((x Int) (y Int)) (! (= (bsub (BNum x y) 1) (BU64 y)) :pattern ((bsub (BNum x y) 1)))))
(axiom bsub_id (forall ((x Int) (y BlockID)) (! (=> (okID y) (= (bsub (BID x y) 1) (BIdV y))) :pattern ((bsub (BID x y) 1)))))
(axiom bsub_addr (forall ((x Int) (y Addr)) (! (=> (> (alen y) 0) (= (bsub (BAddr x y) 1) (BAddrV y))) :pattern ((bsub (BAddr x y) 1)))))
(axiom bsub_len (forall ((b Bytes) (i Int)) (! (=> (and (<= 0 i) (<= i (blen b))) (= (blen (bsub b i)) (- (blen b) i))) :pattern ((bsub b i)))))
(declare-fun bprefix (Bytes Int) Bytes)
(axiom bprefix_len (forall ((b Bytes) (i Int)) (! (=> (and (<= 0 i) (<= i (blen b))) (= (blen (bprefix b i)) i)) :pattern ((bprefix b i)))))
(axiom bprefix_all (forall ((b Bytes) (i Int)) (! (=> (= i (blen b)) (= (bprefix b i) b)) :pattern ((bprefix b i)))))
(declare-fun bat (Bytes Int) Int)
(axiom bat_ctr (forall ((x Int) (y Int)) (! (= (bat (BCtr x y) 0) x) :pattern ((bat (BCtr x y) 0)))))
(axiom bat_num (forall ((x Int) (y Int)) (! (= (bat (BNum x y) 0) x) :pattern ((bat (BNum x y) 0)))))
(axiom bat_id (forall ((x Int) (y BlockID)) (! (= (bat (BID x y) 0) x) :pattern ((bat (BID x y) 0)))))
(axiom bat_addr (forall ((x Int) (y Addr)) (! (= (bat (BAddr x y) 0) x) :pattern ((bat (BAddr x y) 0)))))
(declare-fun u64of (Bytes) Int)
(axiom u64of_ax (forall ((x Int)) (! (=> (and (<= 0 x) (<= x 18446744073709551615)) (= (u64of (BU64 x)) x)) :pattern ((u64of (BU64 x))))))
(axiom u64of_rng (forall ((b Bytes)) (! (and (<= 0 (u64of b)) (<= (u64of b) 18446744073709551615)) :pattern ((u64of b)))))
(declare-fun isid (Bytes) Bool)
(declare-fun idof (Bytes) BlockID)
(axiom idof_ax (forall ((x BlockID)) (! (=> (okID x) (and (isid (BIdV x)) (= (idof (BIdV x)) x))) :pattern ((BIdV x)))))
(axiom isid_len (forall ((b Bytes)) (! (= (isid b) (or (= (blen b) 32) (= (blen b) 64))) :pattern ((isid b)))))
(axiom isid_inv (forall ((b Bytes)) (! (=> (isid b) (and (okID (idof b)) (= (BIdV (idof b)) b))) :pattern ((isid b)))))
(declare-fun isaddr (Bytes) Bool)
(declare-fun addrof (Bytes) Addr)
(axiom isaddr_ax (forall ((b Bytes)) (! (= (isaddr b) (or (= (blen b) 4) (= (blen b) 16))) :pattern ((isaddr b)))))
(axiom addrof_ax (forall ((x Addr)) (! (=> (okAddr x) (= (addrof (BAddrV x)) x)) :pattern ((BAddrV x)))))
(axiom addrof_ok (forall ((b Bytes)) (! (=> (isaddr b) (okAddr (addrof b))) :pattern ((addrof b)))))
(axiom addrof_4 (forall ((b Bytes)) (! (=> (isaddr b) (= (is4 (addrof b)) (= (blen b) 4))) :pattern ((addrof b)))))
(axiom addrof_inv (forall ((b Bytes)) (! (=> (isaddr b) (= (BAddrV (addrof b)) b)) :pattern ((addrof b)))))
(declare-fun gof (Bytes) WAddr)
(declare-fun isgen (Bytes) Bool)
(axiom gof_ax (forall ((x WAddr)) (! (= (gof (BGen x)) x) :pattern ((BGen x)))))
(axiom isgen_inv (forall ((b Bytes)) (! (=> (isgen b) (= (BGen (gof b)) b)) :pattern ((isgen b)))))
(declare-fun addrOfPK (Int PKey) WAddr)
(declare-fun validWA (WAddr) Bool)
(axiom pk_valid (forall ((s Int) (p PKey)) (! (validWA (addrOfPK s p)) :pattern ((addrOfPK s p)))))
(axiom isgen_ax (forall ((x WAddr)) (! (= (isgen (BGen x)) (validWA x)) :pattern ((isgen (BGen x))))))
(declare-fun sat (Str Int) Int)
(declare-fun utf8 (Str) Bool)
(declare-fun sconcat (Str Str) Str)
(declare-fun strless (Str Str) Bool)
(axiom strless_irr (forall ((a Str)) (! (not (strless a a)) :pattern ((strless a a)))))
(axiom strless_tr (forall ((a Str) (b Str) (c Str)) (! (=> (and (strless a b) (strless b c)) (strless a c)) :pattern ((strless a b) (strless b c)))))
(axiom strless_as (forall ((a Str) (b Str)) (! (and (not (and (strless a b) (strless b a))) (or (strless a b) (strless b a) (= a b))) :pattern ((strless a b)))))
(declare-fun ssub (Str Int Int) Str)
(declare-fun toupper (Str) Str)
(declare-fun isintstr (Str) Bool)
(declare-fun intofstr (Str) Int)
(axiom intofstr_r (forall ((s Str)) (! (and (<= (- 9223372036854775808) (intofstr s)) (<= (intofstr s) 9223372036854775807)) :pattern ((intofstr s)))))
(declare-fun trimspace (Str) Str)
(declare-fun i2f (Int) Flt)
(declare-fun f2i (Flt) Int)
(declare-fun flog2 (Flt) Flt)
(declare-fun fceil (Flt) Flt)
(declare-fun bytesOfStr (Str) Bytes)
(declare-fun strOfBytes (Bytes) Str)
(axiom sob (forall ((s Str)) (! (= (strOfBytes (bytesOfStr s)) s) :pattern ((bytesOfStr s)))))
(axiom sob_len (forall ((s Str)) (! (= (blen (bytesOfStr s)) (slen s)) :pattern ((bytesOfStr s)))))
(declare-fun clog2 (Int) Int)
(axiom clog2_f (forall ((h Int)) (! (=> (and (<= 1 h) (<= h 4294967296)) (= (f2i (fceil (flog2 (i2f h)))) (clog2 h))) :pattern ((flog2 (i2f h))))))
(axiom clog2_def (forall ((h Int)) (! (=> (<= 1 h) (and (<= 0 (clog2 h)) (<= h (pow2 (clog2 h))) (=> (< 1 h) (and (>= (clog2 h) 1) (< (pow2 (- (clog2 h) 1)) h))))) :pattern ((clog2 h)))))
(axiom clog2_1 (= (clog2 1) 0))
(axiom clog2_32 (forall ((h Int)) (! (=> (and (<= 1 h) (<= h 4294967296)) (<= (clog2 h) 32)) :pattern ((clog2 h)))))
(axiom pow2_0 (= (pow2 0) 1))
(axiom pow2_1 (= (pow2 1) 2))
(axiom pow2_s (forall ((a Int) (b Int)) (! (=> (and (<= 0 a) (= b (+ a 1))) (= (pow2 b) (* 2 (pow2 a)))) :pattern ((pow2 a) (pow2 b)))))
(axiom pow2_pos (forall ((k Int)) (! (=> (<= 0 k) (>= (pow2 k) 1)) :pattern ((pow2 k)))))
(axiom pow2_32 (= (pow2 32) 4294967296))
(axiom pow2_63 (= (pow2 63) 9223372036854775808))
(axiom pow2_64 (= (pow2 64) 18446744073709551616))
(axiom pow2_mono (forall ((a Int) (b Int)) (! (=> (and (<= 0 a) (<= a b)) (<= (pow2 a) (pow2 b))) :pattern ((pow2 a) (pow2 b)))))
(declare-fun sigof (BlockID) Sig)
(declare-fun idOfSig (Sig) BlockID)
(axiom idlen_sig (forall ((s Sig)) (! (= (idlen (idOfSig s)) 64) :pattern ((idOfSig s)))))
(declare-fun addrLess (Addr Addr) Bool)
(declare-fun loopback (Addr) Bool)
(declare-fun tcpaddr (TCPA) Addr)
(declare-fun addrstr (Addr) Str)
(declare-fun isaddrstr (Str) Bool)
(declare-fun addrofstr (Str) Addr)
(axiom addrstr_ax (forall ((a Addr)) (! (=> (or (is4 a) (is6 a)) (and (isaddrstr (addrstr a)) (= (addrofstr (addrstr a)) a))) :pattern ((addrstr a)))))
(axiom addrofstr_ok (forall ((s Str)) (! (=> (isaddrstr s) (or (is4 (addrofstr s)) (is6 (addrofstr s)))) :pattern ((addrofstr s)))))
(declare-fun apstr (AddrPort) Str)
(declare-fun isapstr (Str) Bool)
(declare-fun apofstr (Str) AddrPort)
(axiom apofstr_ok (forall ((s Str)) (! (=> (isapstr s) (and (or (is4 (apAddr (apofstr s))) (is6 (apAddr (apofstr s)))) (<= 0 (apPort (apofstr s))) (<= (apPort (apofstr s)) 65535))) :pattern ((apofstr s)))))
(axiom utf8_empty (utf8 strempty))
(axiom apstr_ax (forall ((a AddrPort)) (! (=> (and (or (is4 (apAddr a)) (is6 (apAddr a))) (<= 0 (apPort a)) (<= (apPort a) 65535)) (and (isapstr (apstr a)) (= (apofstr (apstr a)) a))) :pattern ((apstr a)))))
(axiom apstr_empty (not (isapstr strempty)))
(axiom addrstr_empty (not (isaddrstr strempty)))
(declare-fun trimspace (Str) Str)
(axiom trim_idem (forall ((s Str)) (! (= (trimspace (trimspace s)) (trimspace s)) :pattern ((trimspace (trimspace s))))))
(declare-fun unmap (Addr) Addr)
(axiom unmap_4 (forall ((a Addr)) (! (=> (is4 a) (= (unmap a) a)) :pattern ((unmap a)))))
; IP addresses of package net: the (unmapped) address they denote
(declare-fun ipaddr (IPT) Addr)
(declare-fun ipOf (Bytes) IPT)
(declare-fun ip4Of (Int Int Int Int) IPT)
(axiom ipof_ax (forall ((a Addr)) (! (=> (or (is4 a) (is6 a)) (= (ipaddr (ipOf (BAddrV a))) (unmap a))) :pattern ((ipOf (BAddrV a))))))
(declare-fun as16 (Addr) Addr)
(axiom as16_ax (forall ((a Addr)) (! (=> (or (is4 a) (is6 a)) (and (is6 (as16 a)) (not (zoned (as16 a))) (= (unmap (as16 a)) (unmap (unz a))))) :pattern ((as16 a)))))
(declare-fun taddr (TCPA) Addr)
(declare-fun tport (TCPA) Int)
(declare-fun mkTCPA (IPT Int) TCPA)
(axiom mktcpa_ax (forall ((i IPT) (p Int)) (! (and (= (taddr (mkTCPA i p)) (ipaddr i)) (= (tport (mkTCPA i p)) p)) :pattern ((mkTCPA i p)))))
(declare-fun ntcp (AddrPort) Ref)
(axiom ntcp_nn (forall ((a AddrPort)) (! (not (= (ntcp a) refnil)) :pattern ((ntcp a)))))
(declare-fun ntStr (Ref) Str)
(axiom ntcp_ax (forall ((a AddrPort)) (! (=> (is4 (apAddr a)) (= (ntStr (ntcp a)) (apstr a))) :pattern ((ntStr (ntcp a))))))
(axiom ntstr_nil (not (isapstr (ntStr refnil))))
`)
	funs["isE0"].Macro = nil
	declFun("isIO", "Bool", "Err")
	funs["isIO"].Macro = func(a []*Term) *Term { return isIO(a[0]) }
	declFun("isE", "Bool", "Err", "Err")
	funs["isE"].Macro = func(a []*Term) *Term { return isE(a[0], a[1]) }
}

// isIO tells whether an error is (or wraps) a storage failure.
func isIO(e *Term) *Term {
	if c := ctorOf(e); c != nil {
		switch c.Name {
		case "errw":
			return isIO(e.Args[0])
		case "errio":
			return tTrue
		default:
			return tFalse
		}
	}
	if e.Op == "ite" {
		return Ite(e.Args[0], isIO(e.Args[1]), isIO(e.Args[2]))
	}
	return mk(&Term{Op: "app", Name: "isIO0", Args: []*Term{e}, Sort: "Bool"})
}

// isE simplifies errors.Is on structured errors.
func isE(e, s *Term) *Term {
	if c := ctorOf(e); c != nil {
		switch c.Name {
		case "errw":
			return Or(Eq(e, s), And(Ne(e.Args[0], App("errnil")), isE(e.Args[0], s)))
		default:
			return Eq(e, s)
		}
	}
	if e.Op == "ite" {
		return Ite(e.Args[0], isE(e.Args[1], s), isE(e.Args[2], s))
	}
	return mk(&Term{Op: "app", Name: "isE0", Args: []*Term{e, s}, Sort: "Bool"})
}

// codecs are the persisted types with encoding functions enc_T, dec_T, isdec_T.
var codecTypes = map[string]bool{}

func codecOf(t types.Type) string {
	n := sanit(shortType(t))
	if codecTypes[n] {
		return n
	}
	codecTypes[n] = true
	so := sortOf(t)
	declFun("enc_"+n, "Bytes", so)
	declFun("dec_"+n, so, "Bytes")
	declFun("isdec_"+n, "Bool", "Bytes")
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return n
	}
	keys := map[string]bool{}
	distinct := true
	d := structDT(t)
	var conds, parts []string
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		acc := fmt.Sprintf("(%s.%s v)", d.Name, f.Name())
		tag := reflect.StructTag(st.Tag(i)).Get("cbor")
		opts := strings.Split(tag, ",")
		if !f.Exported() || opts[0] == "-" {
			parts = append(parts, smtTerm(zeroOf(sortOf(f.Type())))) // not persisted: decodes as the zero value
			continue
		}
		k := opts[0]
		if k == "" {
			k = f.Name()
		}
		if keys[strings.ToLower(k)] {
			distinct = false
		}
		keys[strings.ToLower(k)] = true
		switch {
		case sortOf(f.Type()) == "Str":
			conds = append(conds, "(utf8 "+acc+")")
			parts = append(parts, acc)
		case shortType(f.Type()) == "time.Time":
			declFun("tsec", "Int", "Int")
			parts = append(parts, "(tsec "+acc+")")
		default:
			parts = append(parts, acc)
		}
	}
	if !distinct {
		return n // no round-trip law for duplicated keys
	}
	cond := "true"
	if len(conds) > 0 {
		cond = "(and " + strings.Join(conds, " ") + ")"
	}
	val := "(" + d.Ctors[0].Name + " " + strings.Join(parts, " ") + ")"
	addAxiom("codec_"+n, fmt.Sprintf("(forall ((v %s)) (! (=> %s (and (isdec_%s (enc_%s v)) (= (dec_%s (enc_%s v)) %s))) :pattern ((enc_%s v))))", so, cond, n, n, n, n, val, n), false)
	return n
}

func registerTypes() {
	for _, n := range []string{"chains.block", "chains.link", "peers.value"} {
		_ = catch(func() { codecOf(lookupType(n)) })
	}
	for _, n := range []string{"chains.Block", "chains.Leash", "chains.Head", "chains.Fork", "chains.GeneratorStats", "peers.Peer", "proto.Version", "proto.Handshake", "proto.PeerInfo", "loading.IDsPackage", "loading.BlockPackage", "chains.Stats", "api.status", "api.headInfo", "api.leashInfo"} {
		_ = catch(func() { structDT(lookupType(n)); slcSort(sortOf(lookupType(n))) })
	}
	slcSort("Int")
	slcSort("BlockID")
	slcSort("Addr")
	declFun("splitOf", slcSort("Str"), "Str", "Str")
	loadTheory(`
(declare-fun verstr (S_proto.Version) Str)
(declare-fun isver (Str) Bool)
(declare-fun verof (Str) S_proto.Version)
(axiom ver_rt (forall ((v S_proto.Version)) (! (and (isver (verstr v)) (utf8 (verstr v)) (= (verof (verstr v)) v)) :pattern ((verstr v)))))
`)
}
