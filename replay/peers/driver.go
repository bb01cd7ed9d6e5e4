package peers

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand"
	"net"
	"net/netip"
	"os"
	"path/filepath"
	"sort"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/fxamacker/cbor/v2"
	"github.com/syndtr/goleveldb/leveldb"

	"github.com/wavesplatform/gowaves/pkg/p2p/conn"
	"github.com/wavesplatform/gowaves/pkg/p2p/peer"
	"github.com/wavesplatform/gowaves/pkg/proto"
)

type fakePeer struct {
	hs     proto.Handshake
	closed int
	sent   int
}

func (f *fakePeer) Direction() peer.Direction   { return peer.Incoming }
func (f *fakePeer) Close() error                { f.closed++; return nil }
func (f *fakePeer) SendMessage(proto.Message)   { f.sent++ }
func (f *fakePeer) ID() peer.ID                 { return nil }
func (f *fakePeer) Connection() conn.Connection { return nil }
func (f *fakePeer) Handshake() proto.Handshake  { return f.hs }
func (f *fakePeer) RemoteAddr() proto.TCPAddr   { return proto.TCPAddr{} }
func (f *fakePeer) Equal(o peer.Peer) bool      { return o == peer.Peer(f) }

// ---- the oracle ----
type rec struct {
	port  uint16
	nonce uint64
	name  string
	ver   proto.Version
	state State
	next  time.Time // zero: never set
	score *big.Int
	bad   bool // the stored bytes cannot be decoded
}

type world struct {
	*vrep
	t       *testing.T
	dir     string
	r       *Registry
	scheme  byte
	decl    netip.Addr
	vs      []proto.Version // descending, distinct
	cfg     []proto.Version
	recs    map[netip.Addr]*rec
	conns   map[netip.Addr]*fakePeer
	pending map[netip.Addr]bool
	pool    []netip.Addr
	odd     []netip.Addr
	dead    bool
}

func mm(v proto.Version) [2]uint32 { return [2]uint32{v.Major(), v.Minor()} }
func less(a, b [2]uint32) bool     { return a[0] < b[0] || a[0] == b[0] && a[1] < b[1] }

func genVersions(rng *rand.Rand) []proto.Version {
	n := 1 + rng.Intn(6)
	r := make([]proto.Version, 0, n)
	for i := 0; i < n; i++ {
		r = append(r, proto.NewVersion(uint32(1+rng.Intn(2)), uint32(rng.Intn(4)+1), uint32(rng.Intn(3))))
	}
	if rng.Intn(8) == 0 {
		r = append(r, proto.NewVersion(0, uint32(rng.Intn(2)), 0))
	}
	return r
}

func distinct(vs []proto.Version) []proto.Version {
	var r []proto.Version
	seen := map[[2]uint32]bool{}
	for _, v := range vs {
		if !seen[mm(v)] {
			seen[mm(v)] = true
			r = append(r, proto.NewVersion(v.Major(), v.Minor(), 0))
		}
	}
	sort.Slice(r, func(i, j int) bool { return less(mm(r[j]), mm(r[i])) })
	return r
}

func (w *world) open() bool {
	var err error
	d := proto.TCPAddr{}
	if w.decl.IsValid() {
		d = proto.NewTCPAddrFromString(netip.AddrPortFrom(w.decl, 6868).String())
	}
	ok := w.guard("C10,C16,C17,C18", "NewRegistry", func() { w.r, err = NewRegistry(w.scheme, d, w.cfg, w.dir) })
	if !ok {
		return false
	}
	return w.chk(err == nil, "C17,C18", "opening the registry fails", "%v", err)
}

func newWorld(v *vrep, t *testing.T) *world {
	w := &world{vrep: v, t: t, scheme: 'W', recs: map[netip.Addr]*rec{}, conns: map[netip.Addr]*fakePeer{}, pending: map[netip.Addr]bool{}}
	w.hist = nil
	w.dir, _ = os.MkdirTemp("", "vpeers")
	w.cfg = genVersions(v.rng)
	w.vs = distinct(w.cfg)
	base := byte(v.rng.Intn(120) + 1) // never a loopback network
	for i := 0; i < 6; i++ {
		w.pool = append(w.pool, netip.AddrFrom4([4]byte{base, byte(v.rng.Intn(3)), byte(v.rng.Intn(2)), byte(i)}))
	}
	if v.rng.Intn(3) > 0 {
		w.decl = w.pool[0]
	}
	a4 := w.pool[1].As4()
	var a16 [16]byte
	copy(a16[:4], a4[:]) // shares its first bytes with an IPv4 address
	a16[15] = 1
	w.odd = []netip.Addr{netip.AddrFrom16(a16), netip.MustParseAddr("::1"), netip.MustParseAddr("2001:db8::1"), netip.MustParseAddr("fe80::1%eth0"), netip.AddrFrom16(w.pool[2].As16())}
	w.log("versions %v, own address %v", w.cfg, w.decl)
	if !w.open() {
		w.drop()
		return nil
	}
	return w
}

func (w *world) drop() {
	if w.r != nil {
		_ = w.r.Close()
	}
	if w.dir != "" {
		_ = os.RemoveAll(w.dir)
	}
}

func (w *world) addr() netip.Addr { return w.pool[w.rng.Intn(len(w.pool))] }
func (w *world) any() netip.Addr {
	if w.rng.Intn(10) == 0 {
		return w.odd[w.rng.Intn(len(w.odd))]
	}
	return w.addr()
}

func (w *world) name() string {
	switch w.rng.Intn(8) {
	case 0:
		return "bad\xff\xfename"
	case 1:
		return ""
	}
	return fmt.Sprintf("%s-%d", []string{"Node", "node", "Zeta", "alpha", "имя"}[w.rng.Intn(5)], w.rng.Intn(9))
}

func cmpMinor(a, b proto.Version) int { // independent of the library: distance of minors, 2 for different majors
	if a.Major() != b.Major() {
		return 2
	}
	d := a.Minor() - b.Minor()
	switch {
	case d == 0:
		return 0
	case d*d == 1:
		return 1
	}
	return 2
}

func (w *world) declared(a netip.Addr) (proto.HandshakeTCPAddr, int, bool) { // address, port to be stored, admissible
	p := 1 + w.rng.Intn(65535)
	switch w.rng.Intn(10) {
	case 0:
		return proto.HandshakeTCPAddr{}, 0, true
	case 1:
		return proto.NewHandshakeTCPAddr(net.IPv4(127, 0, 0, 1), p), 0, false
	case 2:
		return proto.NewHandshakeTCPAddr(net.ParseIP("2001:db8::2"), p), 0, false
	case 3:
		return proto.NewHandshakeTCPAddr(net.IPv4(203, 0, 113, 7), p), 0, true
	case 4:
		return proto.NewHandshakeTCPAddr(net.IPv4(203, 0, 113, 7), 70000+w.rng.Intn(1000)), 0, false // not an address
	}
	b := a.As16()
	return proto.NewHandshakeTCPAddr(net.IP(b[:]).To16(), p), p, true
}

func (w *world) register() {
	a := w.any()
	if w.rng.Intn(12) == 0 && w.decl.IsValid() {
		a = w.decl
	}
	k := w.recs[a]
	ver := proto.NewVersion(uint32(w.rng.Intn(2)), uint32(w.rng.Intn(4)), 0)
	if k != nil && w.rng.Intn(3) > 0 {
		ver = proto.NewVersion(k.ver.Major(), k.ver.Minor()+uint32(w.rng.Intn(2)), uint32(w.rng.Intn(4)))
	} else if w.rng.Intn(2) == 0 {
		ver = proto.NewVersion(0, uint32(w.rng.Intn(2)), 0)
	}
	app := "wavesW"
	switch w.rng.Intn(12) {
	case 0:
		app = ""
	case 1:
		app = "wavesT"
	case 2:
		app = "W"
	case 3:
		app = "waves\xff"
	}
	var da proto.HandshakeTCPAddr
	port, dok := 0, true
	if a.Is4() {
		da, port, dok = w.declared(a)
	}
	fp := &fakePeer{hs: proto.Handshake{AppName: app, Version: ver, NodeName: w.name(), NodeNonce: w.rng.Uint64(), DeclaredAddr: da}}
	ta := net.TCPAddr(da)
	w.log("RegisterPeer(%s, app %q, v%s, name %q, declared %q)", a, app, ver, fp.hs.NodeName, ta.String())
	var err error
	if !w.guard("C10,C15", "RegisterPeer", func() { err = w.r.RegisterPeer(a, fp, fp.hs) }) {
		w.dead = true
		return
	}
	delete(w.pending, a)
	known := k != nil && !k.bad
	hostile := known && k.state == PeerHostile
	base := proto.Version{}
	if known {
		base = k.ver
	}
	match := cmpMinor(ver, base) < 2 && len(app) > 0 && app[len(app)-1] == w.scheme
	adm := a.Is4() && a != w.decl && (k == nil || !k.bad) && !hostile && match && dok
	if adm && utf8.ValidString(fp.hs.NodeName) {
		w.chk(err == nil && fp.closed == 0, "C15", "an admissible peer is refused", "closed %d, error %v", fp.closed, err)
		n := &rec{port: uint16(port), nonce: fp.hs.NodeNonce, name: fp.hs.NodeName, ver: ver, state: PeerConnected, next: time.Now()}
		if k != nil {
			n.score = k.score
		}
		w.recs[a] = n
		w.conns[a] = fp
		return
	}
	w.chk(fp.closed > 0, "C15", "a refused connection is left open", "error %v", err)
	if a.Is4() && a != w.decl && (k == nil || !k.bad) && !hostile && !match {
		n := &rec{state: PeerHostile, ver: ver, name: "*"}
		if k != nil {
			n.port, n.nonce, n.score, n.next = k.port, k.nonce, k.score, k.next
		}
		w.recs[a] = n
		p, e := w.r.Peer(a)
		if w.chk(err == nil && e == nil && p.State == PeerHostile, "C15", "a peer of wrong version or network is not recorded as hostile", "register: %v, lookup: %v, state %v", err, e, p.State) {
			n.name = p.Name
		} else {
			w.dead = true
		}
		return
	}
	w.chk(err != nil, "C15", "refusing a peer reports no error", "")
}

func (w *world) unregister() {
	a := w.any()
	if k := w.recs[a]; k != nil && !k.bad && w.rng.Intn(4) == 0 { // the record cannot be read for a while
		b4 := a.As4()
		raw, err := w.r.storage.db.Get(b4[:], nil)
		if err == nil && w.r.storage.db.Put(b4[:], []byte{0xff}, nil) == nil {
			w.log("the record of %s is unreadable during the next operation", a)
			k.bad = true
			defer func() {
				_ = w.r.storage.db.Put(b4[:], raw, nil)
				k.bad = false
			}()
		}
	}
	w.log("UnregisterPeer(%s)", a)
	var err error
	t := time.Now()
	if !w.guard("C10,C16", "UnregisterPeer", func() { err = w.r.UnregisterPeer(a) }) {
		w.dead = true
		return
	}
	delete(w.pending, a)
	delete(w.conns, a)
	k := w.recs[a]
	if k == nil || k.bad {
		w.chk(err != nil, "C16,C17", "unregistering an unknown peer reports no error", "")
		return
	}
	if !w.chk(err == nil, "C16", "unregistering fails", "%v", err) {
		return
	}
	p, e := w.r.Peer(a)
	if w.chk(e == nil, "C16,C17", "an unregistered peer cannot be read", "%v", e) {
		w.chk(p.NextAttempt.After(t.Add(time.Minute)), "C16", "unregistering does not postpone the next attempt", "next attempt %v", p.NextAttempt)
		k.next = p.NextAttempt
	}
}

func (w *world) suggest() {
	a := w.any()
	w.log("SuggestVersion(%s)", a)
	var err error
	var v proto.Version
	t := time.Now()
	if !w.guard("C10,C18", "SuggestVersion", func() { v, err = w.r.SuggestVersion(a) }) {
		w.dead = true
		return
	}
	k := w.recs[a]
	switch {
	case !a.Is4() || k != nil && k.bad:
		w.chk(err != nil, "C18,C17", "a version is suggested for an unusable address", "%v", v)
		return
	case k == nil:
		w.chk(err == nil && v == w.vs[0], "C18", "an unknown peer is not offered the highest version", "%v %v", v, err)
		w.recs[a] = &rec{ver: w.vs[0]}
	case k.state == PeerUnknown:
		x := w.vs[0]
		for i := range w.vs {
			if mm(w.vs[i]) == mm(k.ver) {
				x = w.vs[(i+1)%len(w.vs)]
			}
		}
		w.chk(err == nil && v == x, "C18", "the suggested version is not the next lower one", "got %v, want %v, error %v, configured %v", v, x, err, w.cfg)
		k.ver = x
	case k.state == PeerConnected:
		w.chk(err == nil && v == k.ver, "C18", "a connected peer is not offered its version", "%v %v", v, err)
		return
	default:
		w.chk(err != nil, "C18", "a version is suggested to a hostile peer", "%v", v)
		return
	}
	p, e := w.r.Peer(a)
	if w.chk(e == nil && p.Version == v, "C18", "the suggestion is not recorded", "suggested %v, recorded %v, %v", v, p.Version, e) {
		w.chk(p.NextAttempt.After(t.Add(time.Minute)), "C18", "the next attempt is not postponed", "%v", p.NextAttempt)
		w.recs[a].next = p.NextAttempt
	} else {
		w.dead = true
	}
}

func (w *world) appendAddrs() {
	n := w.rng.Intn(6)
	var l []*net.TCPAddr
	want := 0
	for i := 0; i < n; i++ {
		a := w.any()
		port := w.rng.Intn(65536)
		switch w.rng.Intn(12) {
		case 0:
			l = append(l, nil)
			continue
		case 1:
			l = append(l, &net.TCPAddr{IP: net.IPv4(127, 0, 0, byte(w.rng.Intn(3))), Port: port})
			continue
		case 2:
			l = append(l, &net.TCPAddr{IP: net.IP{1, 2, 3}, Port: port})
			continue
		case 3:
			l = append(l, &net.TCPAddr{Port: port})
			continue
		case 4:
			l = append(l, &net.TCPAddr{IP: w.pool[3].AsSlice(), Port: 65536 + w.rng.Intn(9)})
			continue
		}
		l = append(l, &net.TCPAddr{IP: a.WithZone("").AsSlice(), Port: port, Zone: a.Zone()})
		b := a
		if a.Is4In6() {
			b = a.Unmap()
		}
		if !b.Is4() || b == w.decl || b.IsLoopback() || w.recs[b] != nil {
			continue
		}
		w.recs[b] = &rec{port: uint16(port)}
		want++
	}
	w.log("AppendAddresses(%v)", l)
	got := -1
	if !w.guard("C10,C19", "AppendAddresses", func() { got = w.r.AppendAddresses(l) }) {
		w.dead = true
		return
	}
	w.chk(got == want, "C19", "wrong number of added addresses", "got %d, want %d", got, want)
}

func (w *world) take() {
	w.log("TakeAvailableAddresses()")
	t0 := time.Now()
	var l []netip.AddrPort
	var err error
	if !w.guard("C16", "TakeAvailableAddresses", func() { l, err = w.r.TakeAvailableAddresses() }) {
		w.dead = true
		return
	}
	t1 := time.Now()
	if w.anyBad() {
		w.chk(err != nil, "C17", "an undecodable record is not reported", "")
		return
	}
	if !w.chk(err == nil, "C16", "candidates cannot be listed", "%v", err) {
		return
	}
	got := map[netip.Addr]bool{}
	for _, ap := range l {
		a := ap.Addr()
		k := w.recs[a]
		w.chk(!got[a], "C16", "an address is offered twice", "%s", a)
		got[a] = true
		if !w.chk(k != nil, "C16", "an unknown address is offered", "%s", a) {
			continue
		}
		w.chk(k.port == ap.Port(), "C16,C17", "a wrong port is offered", "%s", ap)
		w.chk(k.state != PeerHostile, "C16", "a hostile peer is offered", "%s", a)
		w.chk(k.port != 0, "C16", "a peer without a port is offered", "%s", a)
		w.chk(a != w.decl, "C16", "own address is offered", "%s", a)
		w.chk(!k.next.After(t1.Add(time.Second)), "C16", "a peer that is not due is offered", "%s", a)
		w.chk(w.conns[a] == nil, "C16", "a connected peer is offered", "%s", a)
		w.chk(!w.pending[a], "C16", "a peer being dialled is offered again", "%s", a)
	}
	for a, k := range w.recs {
		if k.state != PeerHostile && k.port != 0 && a != w.decl && !k.next.After(t0.Add(-time.Second)) && w.conns[a] == nil && !w.pending[a] {
			w.chk(got[a], "C16", "an eligible address is not offered", "%s %+v", a, *k)
		}
	}
	for a := range got {
		w.pending[a] = true
	}
}

func (w *world) anyBad() bool {
	for _, k := range w.recs {
		if k.bad {
			return true
		}
	}
	return false
}

// makeDue changes the next attempt of a stored peer behind the registry's back.
func (w *world) makeDue() {
	a := w.addr()
	k := w.recs[a]
	if k == nil || k.bad || !utf8.ValidString(k.name) {
		return
	}
	t := time.Now().Add(time.Duration(w.rng.Intn(7200)-5400) * time.Second)
	w.log("the next attempt of %s becomes %v", a, t)
	v := k.ver
	err := w.r.storage.putPeer(Peer{AddressPort: netip.AddrPortFrom(a, k.port), Nonce: k.nonce, Name: k.name, Version: v, State: k.state, NextAttempt: t, Score: k.score})
	if w.chk(err == nil, "C17", "storing a peer fails", "%v", err) {
		k.next = t
	}
}

func (w *world) same(p Peer, a netip.Addr, k *rec) string {
	switch {
	case p.AddressPort.Addr() != a:
		return "address " + p.AddressPort.String()
	case p.AddressPort.Port() != k.port:
		return fmt.Sprintf("port %d, want %d", p.AddressPort.Port(), k.port)
	case p.Nonce != k.nonce:
		return "nonce"
	case p.Name != k.name:
		return fmt.Sprintf("name %q, want %q", p.Name, k.name)
	case p.Version != k.ver:
		return fmt.Sprintf("version %v, want %v", p.Version, k.ver)
	case p.State != k.state:
		return fmt.Sprintf("state %v, want %v", p.State, k.state)
	case (p.Score == nil) != (k.score == nil) || p.Score != nil && p.Score.Cmp(k.score) != 0:
		return fmt.Sprintf("score %v, want %v", p.Score, k.score)
	}
	d := p.NextAttempt.Sub(k.next)
	if k.next.IsZero() && p.NextAttempt.Unix() > 0 || !k.next.IsZero() && (d > 2*time.Second || d < -2*time.Second) {
		return fmt.Sprintf("next attempt %v, want %v", p.NextAttempt, k.next)
	}
	return ""
}

func (w *world) checkAll() {
	w.guard("C10,C17", "reading the registry", func() {
		for _, a := range append(append([]netip.Addr{}, w.pool...), w.odd...) {
			p, err := w.r.Peer(a)
			k := w.recs[a]
			if k == nil || !a.Is4() {
				w.chk(err != nil && p.State == PeerUnknown, "C17", "a peer that was not stored is found", "%s: %+v", a, p)
				continue
			}
			if k.bad {
				w.chk(err != nil && err != leveldb.ErrNotFound, "C17", "an undecodable record is not reported", "%s: %+v %v", a, p, err)
				continue
			}
			if w.chk(err == nil, "C17", "a stored peer cannot be read", "%s: %v", a, err) {
				s := w.same(p, a, k)
				pr := "C17"
				if k.state == PeerConnected || k.state == PeerHostile {
					pr = "C15,C17"
				}
				if k.state == PeerUnknown {
					pr = "C17,C18,C19"
				}
				w.chk(s == "", pr, "a stored peer reads back differently", "%s: %s", a, s)
			}
		}
		ps, err := w.r.Peers()
		if w.anyBad() {
			w.chk(err != nil, "C17", "an undecodable record is not reported", "")
		} else if w.chk(err == nil, "C17", "peers cannot be listed", "%v", err) {
			seen := map[netip.Addr]bool{}
			for _, p := range ps {
				a := p.AddressPort.Addr()
				k := w.recs[a]
				if w.chk(k != nil && !seen[a], "C17,C19", "a peer is listed that was not stored, or twice", "%s", a) {
					s := w.same(p, a, k)
					w.chk(s == "", "C17,C19", "a peer is listed with different data", "%s: %s", a, s)
				}
				seen[a] = true
			}
			w.chk(len(ps) == len(w.recs), "C17,C19", "the listing of peers is not complete", "%d of %d", len(ps), len(w.recs))
			fr, err := w.r.FriendlyPeers()
			n := 0
			for _, k := range w.recs {
				if k.state == PeerConnected {
					n++
				}
			}
			w.chk(err == nil && len(fr) == n, "C17", "the listing of connected peers is wrong", "%d of %d, %v", len(fr), n, err)
			as, err := w.r.Addresses()
			w.chk(err == nil && len(as) == n, "C17", "the listing of public addresses is wrong", "%d of %d, %v", len(as), n, err)
		}
		ok := true
		for a := range w.conns {
			if w.recs[a] == nil || w.recs[a].bad {
				ok = false
			}
		}
		if cs, err := w.r.Connections(); ok {
			if w.chk(err == nil && len(cs) == len(w.conns), "C15,C16", "the list of active connections is wrong", "%d of %d, %v", len(cs), len(w.conns), err) {
				for _, c := range cs {
					f := w.conns[c.AddressPort.Addr()]
					if w.chk(f != nil, "C15,C16", "a connection is listed that is not active", "%s", c.AddressPort) {
						w.chk(f.closed == 0 && c.p == peer.Peer(f), "C15", "a refused connection is listed as active", "%s", c.AddressPort)
					}
				}
			}
		}
	})
}

func (w *world) lockFree(op string) {
	if !w.chk(w.r.mu.TryLock(), "C22", "the registry stays locked", "after %s", op) {
		w.dead = true
		return
	}
	w.r.mu.Unlock()
}

// reopen restarts the registry, optionally corrupting a record in between.
func (w *world) reopen() {
	_ = w.r.Close()
	w.conns, w.pending = map[netip.Addr]*fakePeer{}, map[netip.Addr]bool{}
	db, err := leveldb.OpenFile(filepath.Join(w.dir, storagePath), nil)
	if err != nil {
		w.dead = true
		return
	}
	w.log("reopen")
	if w.rng.Intn(2) == 0 {
		a := w.addr()
		b := [][]byte{{}, {0xff}, []byte("garbage"), {0xa0}, nil}[w.rng.Intn(5)]
		if b == nil {
			b, _ = cbor.Marshal(map[int]any{0: 7, 3: "not a version"})
		}
		if k := w.recs[a]; k != nil && k.bad == false && w.rng.Intn(2) == 0 {
			w.log("the record of %s is overwritten with %x", a, b)
			b4 := a.As4()
			_ = db.Put(b4[:], b, nil)
			k.bad = true
		} else if k != nil && k.bad {
			w.log("the record of %s is removed", a)
			b4 := a.As4()
			_ = db.Delete(b4[:], nil)
			delete(w.recs, a)
		}
	}
	it := db.NewIterator(nil, nil)
	n := 0
	for it.Next() {
		n++
		w.chk(len(it.Key()) == 4, "C17", "a record is stored that is not of an IPv4 address", "%x", it.Key())
	}
	it.Release()
	w.chk(n == len(w.recs), "C17,C19", "the number of stored records is wrong", "%d, want %d", n, len(w.recs))
	_ = db.Close()
	if !w.open() {
		w.dead = true
	}
}

// closed checks that operations on a failing database fail cleanly.
func (w *world) broken() {
	_ = w.r.Close()
	w.log("the database fails")
	w.guard("C10,C15", "an operation on a failing database", func() {
		fp := &fakePeer{hs: proto.Handshake{AppName: "W", NodeName: "n"}}
		a := w.pool[len(w.pool)-1]
		err := w.r.RegisterPeer(a, fp, fp.hs)
		w.chk(err != nil && fp.closed > 0, "C15", "a connection is left open on a storage failure", "%v", err)
		w.lockFree("RegisterPeer")
		_ = w.r.UnregisterPeer(a)
		w.lockFree("UnregisterPeer")
		_, err = w.r.SuggestVersion(a)
		w.chk(err != nil, "C18", "a version is suggested that is not recorded", "")
		w.lockFree("SuggestVersion")
		w.chk(w.r.AppendAddresses([]*net.TCPAddr{{IP: net.IPv4(9, 9, 9, 9), Port: 1}}) == 0, "C19", "addresses are counted that were not added", "")
		w.lockFree("AppendAddresses")
		_, _ = w.r.TakeAvailableAddresses()
		w.lockFree("TakeAvailableAddresses")
		_, _ = w.r.Peers()
		_, _ = w.r.FriendlyPeers()
		_, _ = w.r.Connections()
		_, _ = w.r.Addresses()
		w.lockFree("listing")
	})
}

func (w *world) step() {
	switch w.rng.Intn(16) {
	case 0, 1, 2, 3:
		w.register()
	case 4, 5:
		w.unregister()
	case 6, 7, 8:
		w.suggest()
	case 9, 10:
		w.appendAddrs()
	case 11, 12:
		w.take()
	case 13:
		w.makeDue()
	case 14:
		if w.rng.Intn(4) == 0 {
			w.reopen()
		}
	case 15:
		a := w.addr()
		s := new(big.Int).Lsh(big.NewInt(int64(w.rng.Intn(1000))), uint(w.rng.Intn(200)))
		w.log("UpdatePeerScore(%s, %s)", a, s)
		var err error
		w.guard("C10,C17", "UpdatePeerScore", func() { err = w.r.UpdatePeerScore(a, s) })
		k := w.recs[a]
		if k == nil || k.bad {
			w.chk(err != nil, "C17", "the score of an unknown peer is updated", "")
		} else if w.chk(err == nil, "C17", "updating the score fails", "%v", err) {
			k.score = s
		}
	}
	if !w.dead {
		w.lockFree("an operation")
	}
}

func TestVerifPeers(t *testing.T) {
	r := newVrep()
	defer r.done()
	for r.more() {
		w := newWorld(r, t)
		r.cases++
		if w == nil {
			return
		}
		n := 5 + r.rng.Intn(60)
		for i := 0; i < n && !w.dead && r.more(); i++ {
			w.step()
			if !w.dead && (i%3 == 0 || i == n-1) {
				w.checkAll()
			}
		}
		if !w.dead && r.rng.Intn(6) == 0 {
			w.broken()
		}
		w.drop()
	}
	_ = bytes.Equal
}
