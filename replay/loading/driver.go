package loading

import (
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"net/netip"
	"os"
	"testing"
	"time"

	"github.com/wavesplatform/gowaves/pkg/crypto"
	"github.com/wavesplatform/gowaves/pkg/p2p/conn"
	"github.com/wavesplatform/gowaves/pkg/p2p/peer"
	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/chains"
	"github.com/alexeykiselev/waves-fork-detector/peers"
)

func randID(r *rand.Rand) proto.BlockID {
	if r.Intn(2) == 0 {
		var d crypto.Digest
		r.Read(d[:])
		return proto.NewBlockIDFromDigest(d)
	}
	var s crypto.Signature
	r.Read(s[:])
	return proto.NewBlockIDFromSignature(s)
}

// mkBlock makes a block with the given identifier.
func mkBlock(id proto.BlockID) *proto.Block {
	b := &proto.Block{}
	if id.IsSignature() {
		b.Version = 3
		b.BlockSignature = id.Signature()
	} else {
		b.Version = 5
		b.ID = id
	}
	return b
}

func same(a, b []proto.BlockID) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func short(ids []proto.BlockID) string {
	s := ""
	for i, id := range ids {
		if i == 6 && len(ids) > 8 {
			return fmt.Sprintf("[%s ... %d ids]", s, len(ids))
		}
		s += " " + id.ShortString()
	}
	return "[" + s + " ]"
}

// ---- the queue ----
func queueCase(r *vrep) {
	r.hist = nil
	n := r.rng.Intn(8)
	ids := make([]proto.BlockID, n)
	for i := range ids {
		ids[i] = randID(r.rng)
		if i > 0 && r.rng.Intn(4) == 0 {
			ids[i] = ids[r.rng.Intn(i)]
		}
	}
	r.log("newQueue(%s)", short(ids))
	var q queue
	if !r.guard("C13,C10", "newQueue", func() { q = newQueue(append([]proto.BlockID{}, ids...)) }) {
		return
	}
	check := func() bool {
		if !r.chk(len(q.q) == n, "C13", "the queue does not expect the requested ids", "%d of %d", len(q.q), n) {
			return false
		}
		all, pre := true, 0
		for i, it := range q.q {
			if !r.chk(it.requested == ids[i], "C13", "the queue expects another id", "at %d", i) {
				return false
			}
			g := it.received != nil && it.received.BlockID() == it.requested
			if g && pre == i {
				pre = i + 1
			}
			all = all && g
		}
		var rd, ok bool
		var last *proto.Block
		if !r.guard("C13,C10", "queue reading", func() { rd = q.ready(); last, ok = q.lastReceived(); _ = q.rangeString() }) {
			return false
		}
		if !r.chk(rd == all, "C13", "ready is wrong", "ready=%t, all received=%t", rd, all) {
			return false
		}
		if pre == 0 {
			return r.chk(!ok && last == nil, "C13", "a last received block without a received prefix", "")
		}
		return r.chk(ok && last == q.q[pre-1].received, "C13", "the last received block is not the end of the received prefix", "prefix %d", pre)
	}
	if !check() {
		return
	}
	for _, it := range q.q {
		if !r.chk(it.received == nil, "C13", "a new queue has received blocks", "") {
			return
		}
	}
	for s := r.rng.Intn(14); s > 0; s-- {
		var b *proto.Block
		switch k := r.rng.Intn(8); {
		case k == 0:
		case k == 1 || n == 0:
			b = mkBlock(randID(r.rng))
		default:
			b = mkBlock(ids[r.rng.Intn(n)])
		}
		before := append([]item{}, q.q...)
		if b == nil {
			r.log("put(nil)")
		} else {
			r.log("put(%s)", b.BlockID().ShortString())
		}
		if !r.guard("C13,C10", "put", func() { q.put(b) }) {
			return
		}
		filled, expected := false, false
		for i := range q.q {
			exp := b != nil && ids[i] == b.BlockID()
			expected = expected || exp
			if exp && q.q[i].received == b {
				filled = true
			} else if !r.chk(q.q[i].received == before[i].received, "C13", "a delivery changed a slot of another id", "slot %d", i) {
				return
			}
		}
		if !r.chk(filled == expected, "C13", "a requested block does not fill its slot", "") || !check() {
			return
		}
	}
}

// ---- an attempt ----
var errFake = errors.New("storage failure")

type fakeHP struct {
	rng   *rand.Rand
	rate  int // 1/rate calls fail
	chain []proto.BlockID
	pos   map[proto.BlockID]int
	known map[proto.BlockID]bool
	leash map[netip.Addr]proto.BlockID
	lcb   proto.BlockID
	puts  []proto.BlockID
	putA  []netip.Addr
	errs  int
	perr  int // failed applications
}

func (h *fakeHP) fail() bool {
	if h.rate > 0 && h.rng.Intn(h.rate) == 0 {
		h.errs++
		return true
	}
	return false
}
func (h *fakeHP) Leash(a netip.Addr) (proto.BlockID, error) {
	if h.fail() {
		return proto.BlockID{}, errFake
	}
	return h.leash[a], nil
}
func (h *fakeHP) MoveLeash(id proto.BlockID, a netip.Addr) error {
	if h.fail() {
		return errFake
	}
	h.leash[a] = id
	return nil
}
func (h *fakeHP) LeashScore(netip.Addr) (*big.Int, error) { return big.NewInt(0), nil }
func (h *fakeHP) LCB(netip.Addr) (proto.BlockID, error) {
	if h.fail() {
		return proto.BlockID{}, errFake
	}
	return h.lcb, nil
}
func (h *fakeHP) HasBlock(id proto.BlockID) (bool, error) {
	if h.fail() {
		return false, errFake
	}
	return h.known[id], nil
}
func (h *fakeHP) last(id proto.BlockID, n int) []proto.BlockID {
	i, ok := h.pos[id]
	if !ok {
		return []proto.BlockID{id}
	}
	b := i - n + 1
	if b < 0 {
		b = 0
	}
	return append([]proto.BlockID{}, h.chain[b:i+1]...)
}
func (h *fakeHP) LastIDs(id proto.BlockID, n int) ([]proto.BlockID, error) {
	if h.fail() {
		return nil, errFake
	}
	return h.last(id, n), nil
}
func (h *fakeHP) PutBlock(b *proto.Block, a netip.Addr) error {
	h.puts = append(h.puts, b.BlockID())
	h.putA = append(h.putA, a)
	if h.fail() {
		h.perr++
		return errFake
	}
	h.known[b.BlockID()] = true
	h.leash[a] = b.BlockID()
	return nil
}

type fakeReq struct {
	a    netip.Addr
	ids  [][]proto.BlockID
	blks []proto.BlockID
}

func (f *fakeReq) ID() netip.Addr                      { return f.a }
func (f *fakeReq) RequestBlockIDs(ids []proto.BlockID) { f.ids = append(f.ids, ids) }
func (f *fakeReq) RequestBlock(id proto.BlockID)       { f.blks = append(f.blks, id) }

type fakeRep struct {
	ok, fail int
	onOK     func()
}

func (f *fakeRep) OK() {
	f.ok++
	if f.onOK != nil {
		f.onOK()
	}
}
func (f *fakeRep) Fail() { f.fail++ }

const (
	oIdle = iota
	oIDs
	oBlocks
	oDone
)

func attemptCase(r *vrep) {
	r.hist = nil
	rng := r.rng
	h := &fakeHP{rng: rng, pos: map[proto.BlockID]int{}, known: map[proto.BlockID]bool{}, leash: map[netip.Addr]proto.BlockID{}}
	if rng.Intn(2) == 0 {
		h.rate = 5 + rng.Intn(20)
	}
	n := 1 + rng.Intn(20)
	if rng.Intn(5) == 0 {
		n = 95 + rng.Intn(40)
	}
	for i := 0; i < n; i++ {
		id := randID(rng)
		h.chain = append(h.chain, id)
		h.pos[id] = i
		h.known[id] = true
	}
	a := netip.AddrFrom4([4]byte{10, 0, 0, byte(rng.Intn(3))})
	other := netip.AddrFrom4([4]byte{10, 1, 0, 1})
	h.leash[a], h.leash[other] = h.chain[n-1-rng.Intn(n)/2], h.chain[0]
	h.lcb = h.chain[rng.Intn(n)]
	p, rep := &fakeReq{a: a}, &fakeRep{}
	var pl *peerLoader
	if !r.guard("C10,C11,C12", "newPeerLoader", func() { pl = newPeerLoader(p, h, rep) }) {
		return
	}
	reenter := rng.Intn(2) == 0
	if reenter {
		rep.onOK = func() { _ = pl.start() }
	}
	r.log("attempt of %s: %d known blocks, leash at %d, LCB at %d, OK restarts=%t", a, n, h.pos[h.leash[a]], h.pos[h.lcb], reenter)
	st, set := oIdle, false
	var want []proto.BlockID
	got := map[proto.BlockID]bool{}
	var pool []*proto.Block
	bad := false
	chk := func(c bool, props, kind, f string, args ...any) {
		if !r.chk(c, props, kind, f, args...) || !c {
			bad = true
		}
	}
	reqCheck := func(props string, ids []proto.BlockID) {
		chk(len(p.ids) == 1 && same(p.ids[0], ids), props, "the id request is wrong", "%d requests, expected %s", len(p.ids), short(ids))
	}
	for s := 5 + rng.Intn(40); s > 0 && !bad; s-- {
		p.ids, p.blks, h.puts, h.putA, h.errs, h.perr, rep.ok, rep.fail = nil, nil, nil, nil, 0, 0, 0, 0
		leash0, oleash := h.leash[a], h.leash[other]
		restarted := false // a new attempt was started by the report
		op := rng.Intn(12)
		if st == oIdle && rng.Intn(2) == 0 {
			op = rng.Intn(2)
		}
		switch {
		case op <= 1:
			exp := h.last(leash0, 100)
			var f func() error
			if op == 0 {
				r.log("start")
				f = func() error { return pl.start() }
			} else {
				r.log("restart")
				exp = h.last(h.lcb, 100)
				f = func() error { return pl.restart() }
			}
			if !r.guard("C10,C11,C12", "start", func() { _ = f() }) {
				return
			}
			chk(len(p.blks) == 0 && len(h.puts) == 0 && rep.ok == 0 && rep.fail == 0 && h.leash[a] == leash0, "C11,C12", "a start requests or applies blocks, reports or moves the leash", "")
			switch {
			case st != oIdle:
				chk(len(p.ids) == 0, "C11", "ids are requested while an attempt runs", "")
			case h.errs > 0:
				chk(len(p.ids) == 0, "C11", "ids are requested despite a storage failure", "")
				st, set = oIDs, false
				want, got = nil, map[proto.BlockID]bool{}
			default:
				reqCheck("C11", exp)
				st, set = oIDs, true
				want, got = nil, map[proto.BlockID]bool{}
			}
		case op <= 3:
			var ids []proto.BlockID
			i := rng.Intn(n)
			k := i + 1 + rng.Intn(n-i)
			if rng.Intn(3) == 0 {
				k = n
			}
			ids = append(ids, h.chain[i:k]...)
			for m := rng.Intn(5); m > 0 || len(ids) == 0; m-- {
				ids = append(ids, randID(rng))
			}
			if rng.Intn(4) == 0 {
				ids = ids[rng.Intn(len(ids)):]
			}
			if rng.Intn(4) == 0 {
				rng.Shuffle(len(ids), func(x, y int) { ids[x], ids[y] = ids[y], ids[x] })
			}
			u := 0
			for u < len(ids) && h.known[ids[u]] {
				u++
			}
			r.log("ids %s, %d known first", short(ids), u)
			if !r.guard("C10,C11,C12", "processIDs", func() { _ = pl.processIDs(append([]proto.BlockID{}, ids...)) }) {
				return
			}
			chk(len(h.puts) == 0 && rep.fail == 0 && h.leash[other] == oleash, "C11,C12", "an id list applies blocks, reports a failure or moves another leash", "")
			switch {
			case st != oIDs:
				chk(len(p.blks) == 0 && rep.ok == 0 && len(p.ids) == 0 && h.leash[a] == leash0, "C11", "an unexpected id list has an effect", "")
			case u == len(ids) && rep.ok == 1 && reenter:
				restarted = true
				chk(len(p.blks) == 0, "C11", "known blocks are requested", "")
				st = oIdle
			case h.errs > 0:
				chk(len(p.blks) == 0 && rep.ok == 0, "C11,C12", "blocks are requested or success reported despite a storage failure", "")
				st = oBlocks
			case u == len(ids):
				chk(len(p.blks) == 0, "C11", "known blocks are requested", "")
				chk(rep.ok == 1, "C11,C12", "an attempt with nothing to load does not complete", "%d reports", rep.ok)
				chk(h.leash[a] == ids[u-1], "C11", "the leash is not at the end of the known prefix", "")
				st = oIdle
			default:
				chk(same(p.blks, ids[u:]), "C11", "the block request is wrong", "requested %s, expected %s", short(p.blks), short(ids[u:]))
				chk(rep.ok == 0, "C12", "success is reported before the blocks arrived", "")
				if u > 0 {
					chk(h.leash[a] == ids[u-1], "C11", "the leash is not at the end of the known prefix", "")
				} else {
					chk(h.leash[a] == leash0, "C11", "the leash moved without a known prefix", "")
				}
				want, st, set = append([]proto.BlockID{}, ids[u:]...), oBlocks, true
			}
		case op <= 8:
			var b *proto.Block
			switch {
			case len(want) > 0 && rng.Intn(8) > 0:
				b = mkBlock(want[rng.Intn(len(want))])
				for _, w := range want { // mostly something useful
					if !got[w] && rng.Intn(2) == 0 {
						b = mkBlock(w)
						break
					}
				}
			case len(pool) > 0 && rng.Intn(2) == 0:
				b = pool[rng.Intn(len(pool))]
			default:
				b = mkBlock(randID(rng))
			}
			pool = append(pool, b)
			r.log("block %s", b.BlockID().ShortString())
			if !r.guard("C10,C11,C12", "processBlock", func() { _ = pl.processBlock(b) }) {
				return
			}
			chk(len(p.blks) == 0 && rep.fail == 0 && h.leash[other] == oleash, "C11,C12", "a block causes a request or a failure report", "")
			if st != oBlocks {
				chk(len(h.puts) == 0 && rep.ok == 0 && len(p.ids) == 0, "C12", "an unexpected block has an effect", "")
				break
			}
			all := len(want) > 0
			for _, w := range want {
				if w == b.BlockID() {
					got[w] = true
				}
				all = all && got[w]
			}
			if !all {
				chk(len(h.puts) == 0, "C12", "blocks are applied before all of them arrived", "%s", short(h.puts))
				chk(rep.ok == 0, "C12", "success is reported before all blocks arrived", "")
				break
			}
			chk(len(h.puts) > 0 && len(h.puts) <= len(want) && same(h.puts, want[:len(h.puts)]), "C12", "blocks are not applied in requested order", "applied %s, requested %s", short(h.puts), short(want))
			if h.perr == 0 && len(h.puts) == len(want) && rep.ok == 1 {
				st, restarted = oIdle, reenter
			} else {
				chk(h.perr > 0, "C12", "a complete attempt is not applied and reported", "applied %d of %d, %d reports", len(h.puts), len(want), rep.ok)
				chk(rep.ok == 0, "C12", "success is reported for an incomplete application", "")
			}
		default:
			late := op >= 11 || op == 10 && rng.Intn(2) == 0
			tm := time.Now().Add(time.Duration(rng.Intn(29000)) * time.Millisecond)
			if late {
				tm = time.Now().Add(31*time.Second + time.Duration(rng.Intn(100000))*time.Millisecond)
			}
			r.log("tick late=%t", late)
			if !r.guard("C10,C11,C12", "processTick", func() { _ = pl.processTick(tm) }) {
				return
			}
			chk(len(p.blks) == 0 && len(p.ids) == 0 && rep.ok == 0 && h.leash[other] == oleash, "C11,C12", "a tick requests something or reports success", "")
			if st == oIdle || st == oDone {
				chk(len(h.puts) == 0 && rep.fail == 0, "C12", "a tick without an attempt has an effect", "")
				break
			}
			if !late && (set || rep.fail == 0) {
				chk(len(h.puts) == 0 && rep.fail == 0, "C12", "an attempt times out early", "")
				break
			}
			k := 0
			for k < len(want) && got[want[k]] {
				k++
			}
			chk(rep.fail == 1, "C12", "a timed out attempt is not reported exactly once", "%d failure reports", rep.fail)
			chk(len(h.puts) <= k && same(h.puts, want[:len(h.puts)]), "C12", "a timed out attempt applies something else than its received prefix", "applied %s, prefix %d of %s", short(h.puts), k, short(want))
			chk(len(h.puts) == k || h.perr > 0, "C12", "a timed out attempt does not apply its received prefix", "applied %d, prefix %d", len(h.puts), k)
			st = oDone
		}
		for _, x := range h.putA {
			chk(x == a, "C12", "a block is applied for another peer", "%s", x)
		}
		if restarted && !bad {
			want, got = nil, map[proto.BlockID]bool{}
			if len(p.ids) == 0 {
				chk(h.errs > 0, "C11", "no ids are requested by the next attempt", "")
				set = false
			} else {
				reqCheck("C11", h.last(h.leash[a], 100))
				set = true
			}
			st = oIDs
		}
	}
}

// ---- the loader ----
type fakePeer struct {
	hs   proto.Handshake
	ids  [][]proto.BlockID
	blks []proto.BlockID
	sent int
}

func (f *fakePeer) Direction() peer.Direction { return peer.Incoming }
func (f *fakePeer) Close() error              { return nil }
func (f *fakePeer) SendMessage(m proto.Message) {
	f.sent++
	switch x := m.(type) {
	case *proto.GetBlockIdsMessage:
		f.ids = append(f.ids, x.Blocks)
	case *proto.GetSignaturesMessage:
		var r []proto.BlockID
		for _, s := range x.Signatures {
			r = append(r, proto.NewBlockIDFromSignature(s))
		}
		f.ids = append(f.ids, r)
	case *proto.GetBlockMessage:
		f.blks = append(f.blks, x.BlockID)
	}
}

type fakeID struct{}

func (fakeID) String() string { return "fake" }

func (f *fakePeer) ID() peer.ID                 { return fakeID{} }
func (f *fakePeer) Connection() conn.Connection { return nil }
func (f *fakePeer) Handshake() proto.Handshake  { return f.hs }
func (f *fakePeer) RemoteAddr() proto.TCPAddr   { return proto.TCPAddr{} }
func (f *fakePeer) Equal(o peer.Peer) bool      { return o == peer.Peer(f) }

type lw struct {
	*vrep
	reg   *peers.Registry
	lk    *chains.Linkage
	l     *Loader
	ps    map[netip.Addr]*fakePeer
	score map[netip.Addr]*big.Int
	fails map[netip.Addr]int
	g     proto.BlockID
	all   []proto.BlockID
	prev  *big.Int
	bad   bool
}

func (w *lw) ck(c bool, kind, f string, a ...any) {
	if !w.chk(c, "C14", kind, f, a...) || !c {
		w.bad = true
	}
}
func (w *lw) clear() {
	for _, p := range w.ps {
		p.ids, p.blks, p.sent = nil, nil, 0
	}
}
func (w *lw) total() (n int) {
	for _, p := range w.ps {
		n += p.sent
	}
	return
}
func (w *lw) lag(a netip.Addr) *big.Int {
	if w.score[a] == nil {
		return nil
	}
	s, err := w.lk.LeashScore(a)
	if err != nil {
		return nil
	}
	return new(big.Int).Sub(w.score[a], s)
}
func (w *lw) cur() (netip.Addr, bool) {
	if w.l.pl == nil {
		return netip.Addr{}, false
	}
	return w.l.pl.peer.ID(), true
}
func (w *lw) expect(a netip.Addr, from proto.BlockID, kind string) {
	exp, err := w.lk.LastIDs(from, 100)
	p := w.ps[a]
	w.ck(err == nil && w.total() == 1 && len(p.ids) == 1 && same(p.ids[0], exp), kind, "peer %s: %d messages, %d id requests, expected %s", a, w.total(), len(p.ids), short(exp))
}

// completed checks what happens after a successful round of the peer.
func (w *lw) completed(a netip.Addr) {
	w.fails[a] = 0
	d := w.lag(a)
	if d != nil && d.Sign() > 0 && (w.prev == nil || w.prev.Cmp(d) != 0) {
		c, ok := w.cur()
		w.ck(ok && c == a, "a lagging peer is not loaded further", "%s lags by %s", a, d)
		if !w.bad {
			lid, _ := w.lk.Leash(a)
			w.expect(a, lid, "the next round requests other ids")
		}
		w.prev = d
		return
	}
	_, ok := w.cur()
	w.ck(!ok, "the loader stays with a peer that does not lag or makes no progress", "%s", a)
	w.ck(w.total() == 0, "a finished synchronisation requests something", "")
	w.prev = nil
}

func loaderCase(r *vrep) {
	r.hist = nil
	rng := r.rng
	dir, err := os.MkdirTemp("", "verif")
	if err != nil {
		return
	}
	defer os.RemoveAll(dir)
	reg, err := peers.NewRegistry('W', proto.TCPAddr{}, []proto.Version{proto.NewVersion(1, 5, 0), proto.NewVersion(1, 4, 0)}, dir+"/p")
	if err != nil {
		return
	}
	defer reg.Close()
	g := proto.Block{BlockHeader: proto.BlockHeader{Version: 5, Timestamp: 1, ID: proto.NewBlockIDFromDigest(crypto.Digest{1}), NxtConsensus: proto.NxtConsensus{BaseTarget: 100}}}
	lk, err := chains.NewLinkage(dir+"/c", 'W', g)
	if err != nil {
		return
	}
	defer lk.Close()
	w := &lw{vrep: r, reg: reg, lk: lk, ps: map[netip.Addr]*fakePeer{}, score: map[netip.Addr]*big.Int{}, fails: map[netip.Addr]int{}, g: g.ID, all: []proto.BlockID{g.ID}}
	w.l = NewLoader(reg, lk, nil, nil)
	var as []netip.Addr
	addBlock := func(parent proto.BlockID, from netip.Addr) proto.BlockID {
		var d crypto.Digest
		rng.Read(d[:])
		b := &proto.Block{BlockHeader: proto.BlockHeader{Version: 5, Timestamp: uint64(time.Now().UnixMilli()), Parent: parent, ID: proto.NewBlockIDFromDigest(d), NxtConsensus: proto.NxtConsensus{BaseTarget: uint64(50 + rng.Intn(3))}}}
		if lk.PutBlock(b, from) == nil {
			w.all = append(w.all, b.ID)
		}
		return b.ID
	}
	for i := 1 + rng.Intn(4); i > 0; i-- {
		a := netip.AddrFrom4([4]byte{10, 0, 0, byte(i)})
		f := &fakePeer{hs: proto.Handshake{AppName: "wavesW", Version: proto.NewVersion(1, 5, 0), NodeName: "n"}}
		if v, err := reg.SuggestVersion(a); err == nil {
			f.hs.Version = v
		}
		if reg.RegisterPeer(a, f, f.hs) != nil {
			continue
		}
		w.ps[a] = f
		as = append(as, a)
		for k := rng.Intn(4); k > 0; k-- {
			addBlock(w.all[rng.Intn(len(w.all))], a)
		}
		if rng.Intn(4) > 0 {
			w.setScore(a)
		}
	}
	if len(as) == 0 {
		return
	}
	r.log("%d connected peers, %d blocks", len(as), len(w.all))
	any := func() netip.Addr {
		if rng.Intn(5) == 0 {
			return netip.AddrFrom4([4]byte{10, 9, 9, byte(rng.Intn(3))})
		}
		return as[rng.Intn(len(as))]
	}
	var pend []proto.BlockID // unknown ids requested from the current peer
	for s := 10 + rng.Intn(90); s > 0 && !w.bad && r.more(); s-- {
		w.clear()
		c, busy := w.cur()
		switch op := rng.Intn(10); {
		case op == 0:
			w.setScore(as[rng.Intn(len(as))])
		case op == 1:
			addBlock(w.all[rng.Intn(len(w.all))], as[rng.Intn(len(as))])
			r.log("a block arrives")
		case op <= 4 || !busy && op <= 7:
			lag := map[netip.Addr]bool{}
			for _, a := range as {
				if d := w.lag(a); d != nil && d.Sign() > 0 {
					lag[a] = true
				}
			}
			r.log("sync, busy=%t, %d lagging", busy, len(lag))
			if !r.guard("C10,C14", "sync", func() { w.l.sync() }) {
				return
			}
			n, ok := w.cur()
			switch {
			case busy:
				w.ck(ok && n == c && w.total() == 0, "a second synchronisation is started", "")
			case len(lag) == 0:
				w.ck(!ok && w.total() == 0, "synchronisation is started without a lagging peer", "")
			default:
				w.ck(ok && lag[n], "synchronisation is not started with a lagging peer", "%s of %v", n, lag)
				if w.bad {
					break
				}
				w.prev = nil
				pend = nil
				if w.fails[n] >= 10 {
					id, _ := lk.LCB(n)
					w.expect(n, id, "the restart does not request from the last common block")
					w.fails[n] = 0
				} else {
					id, _ := lk.Leash(n)
					w.expect(n, id, "the start does not request from the leash")
				}
			}
		case op <= 6:
			a := any()
			if busy && rng.Intn(3) > 0 {
				a = c
			}
			var ids []proto.BlockID
			for k := rng.Intn(3); k > 0; k-- {
				ids = append(ids, w.all[rng.Intn(len(w.all))])
			}
			for k := rng.Intn(3) - 1; k > 0; k-- {
				ids = append(ids, proto.NewBlockIDFromDigest(crypto.Digest{byte(rng.Intn(256)), byte(rng.Intn(256)), 7}))
			}
			u := 0
			for u < len(ids) {
				if ok, _ := lk.HasBlock(ids[u]); !ok {
					break
				}
				u++
			}
			r.log("ids from %s (current %s): %s", a, c, short(ids))
			b4, _ := lk.Leash(a)
			wasIDs := busy && w.l.pl.sm.MustState() == stateWaitingForIDs
			if !r.guard("C10,C14", "handleIDs", func() { w.l.handleIDs(IDsPackage{Peer: a, IDs: append([]proto.BlockID{}, ids...)}) }) {
				return
			}
			if !busy || a != c || len(ids) == 0 || !wasIDs {
				n, ok := w.cur()
				af, _ := lk.Leash(a)
				w.ck(ok == busy && n == c && w.total() == 0 && af == b4, "an id list of another peer or an empty one has an effect", "from %s, current %s", a, c)
				break
			}
			if u == len(ids) {
				w.completed(c)
			} else {
				w.ck(same(w.ps[c].blks, ids[u:]) && w.total() == len(ids)-u, "the missing blocks are not requested", "")
				pend = ids[u:]
			}
		case op <= 8:
			a := any()
			if busy && rng.Intn(3) > 0 {
				a = c
			}
			bl := mkBlock(proto.NewBlockIDFromDigest(crypto.Digest{byte(rng.Intn(256)), 8}))
			bl.Parent = w.all[rng.Intn(len(w.all))]
			bl.Timestamp, bl.BaseTarget = 5, 77
			if len(pend) > 0 {
				bl.ID = pend[rng.Intn(len(pend))]
			}
			r.log("block %s from %s (current %s)", bl.ID.ShortString(), a, c)
			b4, _ := lk.HasBlock(bl.ID)
			wasB := busy && w.l.pl.sm.MustState() == stateWaitingForBlocks
			if !r.guard("C10,C14", "handleBlock", func() { w.l.handleBlock(BlockPackage{Peer: a, Block: bl}) }) {
				return
			}
			n, ok := w.cur()
			af, _ := lk.HasBlock(bl.ID)
			if !busy || a != c || !wasB {
				w.ck(ok == busy && n == c && w.total() == 0 && af == b4, "a block of another peer has an effect", "from %s, current %s", a, c)
				break
			}
			if len(pend) == 1 && pend[0] == bl.ID {
				w.all = append(w.all, bl.ID)
				pend = nil
				w.completed(c)
			}
		default:
			late := rng.Intn(2) == 0
			if busy && late {
				w.l.pl.timestamp = time.Now().Add(-31 * time.Second)
			}
			if !busy {
				late = false
			}
			r.log("tick late=%t", late)
			if !r.guard("C10,C14", "tick", func() { w.l.tick() }) {
				return
			}
			n, ok := w.cur()
			if !late {
				w.ck(ok == busy && n == c && w.total() == 0, "a tick ends a synchronisation early", "")
				break
			}
			w.fails[c]++
			pend = nil
			w.prev = nil
			w.ck(!ok, "a failed synchronisation does not free the loader", "%s", n)
		}
		for _, a := range as {
			w.ck(w.l.fc.count(a) == w.fails[a], "failures are counted wrongly", "%s: %d, expected %d", a, w.l.fc.count(a), w.fails[a])
		}
	}
}

func (w *lw) setScore(a netip.Addr) {
	s, err := w.lk.LeashScore(a)
	if err != nil {
		return
	}
	n := new(big.Int).Set(s)
	switch w.rng.Intn(6) {
	case 0: // level
	case 1:
		n.Sub(n, big.NewInt(1))
	default:
		n.Add(n, new(big.Int).Lsh(big.NewInt(int64(1+w.rng.Intn(3))), uint(w.rng.Intn(80))))
	}
	if w.reg.UpdatePeerScore(a, n) == nil {
		w.score[a] = n
	}
	w.log("score of %s: leash%+d", a, n.Cmp(s))
}

// failuresCase fails a peer more than ten times.
func failuresCase(r *vrep) {
	r.hist = nil
	dir, err := os.MkdirTemp("", "verif")
	if err != nil {
		return
	}
	defer os.RemoveAll(dir)
	reg, err := peers.NewRegistry('W', proto.TCPAddr{}, []proto.Version{proto.NewVersion(1, 5, 0)}, dir+"/p")
	if err != nil {
		return
	}
	defer reg.Close()
	g := proto.Block{BlockHeader: proto.BlockHeader{Version: 5, Timestamp: 1, ID: proto.NewBlockIDFromDigest(crypto.Digest{1}), NxtConsensus: proto.NxtConsensus{BaseTarget: 100}}}
	lk, err := chains.NewLinkage(dir+"/c", 'W', g)
	if err != nil {
		return
	}
	defer lk.Close()
	a, o := netip.AddrFrom4([4]byte{10, 0, 0, 1}), netip.AddrFrom4([4]byte{10, 0, 0, 2})
	f := &fakePeer{hs: proto.Handshake{AppName: "wavesW", Version: proto.NewVersion(1, 5, 0), NodeName: "n"}}
	if v, err := reg.SuggestVersion(a); err == nil {
		f.hs.Version = v
	}
	if reg.RegisterPeer(a, f, f.hs) != nil {
		return
	}
	put := func(par proto.BlockID, x byte, from netip.Addr) proto.BlockID {
		b := &proto.Block{BlockHeader: proto.BlockHeader{Version: 5, Timestamp: uint64(x), Parent: par, ID: proto.NewBlockIDFromDigest(crypto.Digest{x, 2}), NxtConsensus: proto.NxtConsensus{BaseTarget: 100}}}
		_ = lk.PutBlock(b, from)
		return b.ID
	}
	m := put(g.ID, 1, o)
	m = put(m, 2, o)
	put(put(m, 3, o), 4, o)
	put(m, 5, a) // a is on a fork
	s, _ := lk.LeashScore(a)
	_ = reg.UpdatePeerScore(a, new(big.Int).Add(s, big.NewInt(5)))
	w := &lw{vrep: r, reg: reg, lk: lk, ps: map[netip.Addr]*fakePeer{a: f}, score: map[netip.Addr]*big.Int{}, fails: map[netip.Addr]int{}}
	w.l = NewLoader(reg, lk, nil, nil)
	k := 0
	for i := 0; i < 23 && !w.bad; i++ {
		w.clear()
		r.log("sync after %d failures", k)
		if !r.guard("C10,C14", "sync", func() { w.l.sync() }) {
			return
		}
		id, _ := lk.Leash(a)
		if k >= 10 {
			id, _ = lk.LCB(a)
			k = 0
		}
		w.expect(a, id, "a start after failures requests other ids")
		if w.bad || w.l.pl == nil {
			return
		}
		w.l.pl.timestamp = time.Now().Add(-31 * time.Second)
		if !r.guard("C10,C14", "tick", func() { w.l.tick() }) {
			return
		}
		k++
		_, ok := w.cur()
		w.ck(!ok, "a failed synchronisation does not free the loader", "")
		w.ck(w.l.fc.count(a) == k, "failures are counted wrongly", "%d, expected %d", w.l.fc.count(a), k)
	}
}

func TestVerifLoading(t *testing.T) {
	r := newVrep()
	defer r.done()
	first := true
	for r.more() {
		r.cases++
		switch r.prop {
		case "C13":
			queueCase(r)
		case "C11", "C12":
			attemptCase(r)
		case "C14":
			if first {
				failuresCase(r)
			}
			loaderCase(r)
		default:
			if first {
				failuresCase(r)
			}
			queueCase(r)
			attemptCase(r)
			if r.rng.Intn(50) == 0 {
				loaderCase(r)
			}
		}
		first = false
	}
}
