package chains

import (
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"net/netip"
	"sort"
	"sync"
	"testing"
	"time"

	"github.com/syndtr/goleveldb/leveldb"
	"github.com/wavesplatform/gowaves/pkg/crypto"
	"github.com/wavesplatform/gowaves/pkg/proto"
)

// ---- the oracle: a plain tree of blocks ----
type mb struct {
	id     proto.BlockID
	parent int // -1 for genesis
	height int
	ts     uint64
	score  *big.Int
	gen    proto.WavesAddress
	head   uint64 // 0: not a head
}
type model struct {
	bs    []mb
	byID  map[proto.BlockID]int
	heads uint64
	lsh   map[netip.Addr]proto.BlockID
}

func (m *model) clone() *model {
	c := &model{bs: append([]mb{}, m.bs...), byID: map[proto.BlockID]int{}, heads: m.heads, lsh: map[netip.Addr]proto.BlockID{}}
	for k, v := range m.byID {
		c.byID[k] = v
	}
	for k, v := range m.lsh {
		c.lsh[k] = v
	}
	return c
}

func blockScore(bt uint64) *big.Int {
	if bt == 0 {
		return new(big.Int)
	}
	return new(big.Int).Div(new(big.Int).Lsh(big.NewInt(1), 64), new(big.Int).SetUint64(bt))
}

func (m *model) add(b mb, ext int) {
	if h := m.bs[ext].head; h != 0 {
		b.head = h
		m.bs[ext].head = 0
	} else {
		m.heads++
		b.head = m.heads
	}
	m.byID[b.id] = len(m.bs)
	m.bs = append(m.bs, b)
}
func (m *model) path(i int) (r []int) {
	for i >= 0 {
		r = append(r, i)
		i = m.bs[i].parent
	}
	return
}
func (m *model) lca(a, b int) int {
	in := map[int]bool{}
	for _, x := range m.path(a) {
		in[x] = true
	}
	for _, x := range m.path(b) {
		if in[x] {
			return x
		}
	}
	return -1
}
func (m *model) genAddr(pk crypto.PublicKey) proto.WavesAddress {
	a, _ := proto.NewAddressFromPublicKey(proto.TestNetScheme, pk)
	return a
}

func randID(r *rand.Rand) proto.BlockID {
	if r.Intn(2) == 0 {
		var d crypto.Digest
		r.Read(d[:])
		return proto.NewBlockIDFromDigest(d)
	}
	var s crypto.Signature
	r.Read(s[:])
	return proto.NewBlockIDFromSignature(s)
}

// idOfHeader is the identifier of a block by its version: a signature before version 5.
func idOfHeader(h *proto.BlockHeader) proto.BlockID {
	if h.Version < proto.ProtobufBlockVersion {
		return proto.NewBlockIDFromSignature(h.BlockSignature)
	}
	return h.ID
}
func randBT(r *rand.Rand) uint64 {
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return ^uint64(0) - uint64(r.Intn(3))
	case 3:
		return 1 << 63
	case 4:
		return r.Uint64()
	default:
		return uint64(r.Intn(3) + 50)
	}
}
func randTS(r *rand.Rand) uint64 {
	switch r.Intn(10) {
	case 0:
		return ^uint64(0)
	case 1:
		return r.Uint64()
	case 2:
		return 0
	case 3:
		return 253402300800000
	default:
		return 1_500_000_000_000 + uint64(r.Intn(1000000000))
	}
}

var vAddrs = func() (r []netip.Addr) {
	for _, s := range []string{"1.2.3.4", "8.8.8.8", "9.9.9.9", "0.0.0.0", "255.255.255.255", "10.0.0.1", "::1", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "::ffff:1.2.3.4", "2001:db8::1", "::", "3.3.3.3", "4.4.4.4", "102:304::"} {
		r = append(r, netip.MustParseAddr(s))
	}
	return
}()

type world struct {
	*vrep
	st *vstore
	lk *Linkage
	m  *model
	g  proto.Block
}

func openOn(st *vstore, g proto.Block) (*Linkage, error) {
	db, err := leveldb.Open(st, nil)
	if err != nil {
		return nil, err
	}
	s := &storage{db: db, scheme: proto.TestNetScheme}
	if err := s.initialize(g); err != nil {
		return nil, err
	}
	return &Linkage{scheme: proto.TestNetScheme, genesis: g.BlockID(), mu: &sync.RWMutex{}, st: s}, nil
}

func newWorld(r *vrep) *world {
	w := &world{vrep: r, st: newVstore()}
	w.hist = nil
	var pk crypto.PublicKey
	r.rng.Read(pk[:])
	w.g = proto.Block{BlockHeader: proto.BlockHeader{Version: proto.BlockVersion(1 + r.rng.Intn(5)), Timestamp: randTS(r.rng), ID: randID(r.rng), GeneratorPublicKey: pk, NxtConsensus: proto.NxtConsensus{BaseTarget: randBT(r.rng)}}}
	r.rng.Read(w.g.BlockSignature[:])
	w.g.ID = idOfHeader(&w.g.BlockHeader)
	w.log("genesis %s ts=%d bt=%d", w.g.ID.ShortString(), w.g.Timestamp, w.g.BaseTarget)
	lk, err := openOn(w.st, w.g)
	if err != nil {
		r.bad("C01,C04,C05,C06", "initialize", "%v", err)
		return nil
	}
	w.lk = lk
	w.m = &model{byID: map[proto.BlockID]int{w.g.ID: 0}, heads: 1, lsh: map[netip.Addr]proto.BlockID{}}
	w.m.bs = []mb{{id: w.g.ID, parent: -1, height: 1, ts: w.g.Timestamp, score: blockScore(w.g.BaseTarget), gen: w.m.genAddr(pk), head: 1}}
	return w
}

func (w *world) pickBlock() int {
	n := len(w.m.bs)
	if w.rng.Intn(3) > 0 && n > 6 {
		return n - 1 - w.rng.Intn(6)
	}
	return w.rng.Intn(n)
}
func (w *world) addr() netip.Addr {
	n := len(vAddrs)
	if w.rng.Intn(2) == 0 {
		n = 6
	}
	return vAddrs[w.rng.Intn(n)]
}

// putRandom performs one admission; mode: 0 plain, 1 record crash points, 2 fail a write.
func (w *world) putRandom(mode int) bool {
	r := w.rng
	a := w.addr()
	before := w.m.clone()
	var call func() error
	var want error
	known := false
	micro := r.Intn(3) == 0
	name := "PutBlock"
	if micro {
		name = "PutMicroBlock"
	}
	if !micro {
		var pk crypto.PublicKey
		pk[0] = byte(r.Intn(4))
		b := &proto.Block{BlockHeader: proto.BlockHeader{Version: 5, Timestamp: randTS(r), ID: randID(r), GeneratorPublicKey: pk, NxtConsensus: proto.NxtConsensus{BaseTarget: randBT(r)}}}
		if r.Intn(3) == 0 {
			b.Version = proto.BlockVersion(1 + r.Intn(4))
			r.Read(b.BlockSignature[:])
			b.ID = idOfHeader(&b.BlockHeader)
		}
		switch r.Intn(12) {
		case 0:
			b.Parent = randID(r)
			want = ErrParentNotFound
		case 1:
			known = true
			k := w.pickBlock()
			b.ID, b.Version = w.m.bs[k].id, 5
			if b.ID.IsSignature() && r.Intn(2) == 0 {
				b.Version, b.BlockSignature = 3, b.ID.Signature()
			}
			b.Parent = randID(r)
			if r.Intn(2) == 0 {
				b.Parent = w.m.bs[w.pickBlock()].id
			}
		default:
			b.Parent = w.m.bs[w.pickBlock()].id
		}
		w.log("PutBlock(id=%s parent=%s bt=%d ts=%d, %s)", b.ID.ShortString(), b.Parent.ShortString(), b.BaseTarget, b.Timestamp, a)
		call = func() error { return w.lk.PutBlock(b, a) }
		if want == nil && !known {
			p := w.m.byID[b.Parent]
			w.m.add(mb{id: b.ID, parent: p, height: w.m.bs[p].height + 1, ts: b.Timestamp, score: new(big.Int).Add(blockScore(b.BaseTarget), w.m.bs[p].score), gen: w.m.genAddr(pk)}, p)
		}
		if want == nil {
			w.m.lsh[a] = b.ID
		}
	} else {
		inv := &proto.MicroBlockInv{TotalBlockID: randID(r)}
		ref := w.pickBlock()
		switch r.Intn(12) {
		case 0:
			inv.Reference = randID(r)
			want = ErrRefNotFound
		case 1:
			known = true
			inv.TotalBlockID = w.m.bs[w.pickBlock()].id
			inv.Reference = randID(r)
			if r.Intn(2) == 0 {
				inv.Reference = w.m.bs[ref].id
			}
		default:
			inv.Reference = w.m.bs[ref].id
		}
		w.log("PutMicroBlock(total=%s ref=%s, %s)", inv.TotalBlockID.ShortString(), inv.Reference.ShortString(), a)
		call = func() error { return w.lk.PutMicroBlock(inv, a) }
		if want == nil && !known {
			if w.m.bs[ref].parent < 0 {
				want = errors.New("micro-block on genesis")
			} else {
				x := w.m.bs[ref]
				w.m.add(mb{id: inv.TotalBlockID, parent: x.parent, height: x.height, ts: x.ts, score: x.score, gen: x.gen}, ref)
			}
		}
		if want == nil {
			w.m.lsh[a] = inv.TotalBlockID
		}
	}
	var crashes []*vstore
	if mode == 1 {
		w.st.onWr = func() { crashes = append(crashes, w.st.cloneLocked()) }
	}
	if mode == 2 {
		w.st.failIn = 1 + r.Intn(2)
		w.log("(write %d fails)", w.st.failIn)
	}
	var err error
	okG := w.guard("C01,C04,C05,C06,C10", name, func() { err = call() })
	w.st.onWr = nil
	failed := mode == 2 && w.st.failIn == 0
	w.st.failIn = 0
	if !okG {
		return false
	}
	if failed {
		w.log("(write error injected)")
		// the call failed midway: nothing, or the complete record without the leash
		if want == nil && !w.chk(err != nil, "C06", "write error unreported", "%s returned no error", name) {
			return false
		}
		w.allowed("after a write error", w.lk, before)
		return false
	}
	if want == nil {
		if !w.chk(err == nil, "C01,C04,C05,C06", name+" refused", "unexpected error %v", err) {
			return false
		}
	} else {
		if !w.chk(err != nil, "C06", name+" accepted without parent", "no error, expected %v", want) {
			return false
		}
		if errors.Is(want, ErrParentNotFound) || errors.Is(want, ErrRefNotFound) {
			w.chk(errors.Is(err, want), "C06,C21", name+" wrong error", "error %v, expected %v", err, want)
		}
	}
	for _, c := range crashes {
		lk, err := openOn(c, w.g)
		if !w.chk(err == nil, "C06", "store unreadable after a crash", "%v", err) {
			continue
		}
		w.allowed("after a crash", lk, before)
		lk.Close()
	}
	return true
}

// allowed checks that a store is in the state before, after, or after without the leash change.
func (w *world) allowed(when string, lk *Linkage, before *model) {
	mid := w.m.clone()
	mid.lsh = before.clone().lsh
	var first string
	for _, m := range []*model{before, w.m, mid} {
		s := w.diff(lk, m)
		if s == "" {
			return
		}
		if first == "" {
			first = s
		}
	}
	w.bad("C06", "inconsistent store "+when, "%s", first)
}

// diff compares a store with a model.
func (w *world) diff(lk *Linkage, m *model) (res string) {
	defer func() {
		if p := recover(); p != nil {
			res = fmt.Sprintf("reading panics: %v", p)
		}
	}()
	for i := range m.bs {
		if s := w.blockDiff(lk, m, i); s != "" {
			return s
		}
	}
	for i := range w.m.bs {
		if _, ok := m.byID[w.m.bs[i].id]; !ok {
			has, err := lk.HasBlock(w.m.bs[i].id)
			if err != nil || has {
				return fmt.Sprintf("block %s unexpectedly stored (%v)", w.m.bs[i].id.ShortString(), err)
			}
		}
	}
	if s := headsDiff(lk, m); s != "" {
		return s
	}
	return leashDiff(lk, m)
}

func (w *world) blockDiff(lk *Linkage, m *model, i int) string {
	b := m.bs[i]
	g, err := lk.Block(b.id)
	if err != nil {
		return fmt.Sprintf("block %s cannot be read: %v", b.id.ShortString(), err)
	}
	if g.ID != b.id || int(g.Height) != b.height || g.Score.Cmp(b.score) != 0 || g.Generator != b.gen {
		return fmt.Sprintf("block %s reads back as %+v, expected height %d score %s generator %s", b.id.ShortString(), g, b.height, b.score, b.gen)
	}
	wt := b.ts
	if wt > maxTimestamp {
		wt = maxTimestamp
	}
	if g.Timestamp != int64(wt) {
		return fmt.Sprintf("block %s has timestamp %d, expected %d", b.id.ShortString(), g.Timestamp, wt)
	}
	if b.parent >= 0 && g.Parent != m.bs[b.parent].id {
		return fmt.Sprintf("block %s has parent %s, expected %s", b.id.ShortString(), g.Parent.ShortString(), m.bs[b.parent].id.ShortString())
	}
	return ""
}

func headsDiff(lk *Linkage, m *model) string {
	hs, err := lk.Heads()
	if err != nil {
		return "heads: " + err.Error()
	}
	want := map[uint64]proto.BlockID{}
	for _, b := range m.bs {
		if b.head != 0 {
			want[b.head] = b.id
		}
	}
	if len(hs) != len(want) {
		return fmt.Sprintf("%d heads, expected %d", len(hs), len(want))
	}
	for _, h := range hs {
		if id, ok := want[h.ID]; !ok || id != h.BlockID {
			return fmt.Sprintf("head %d is %s, expected %v", h.ID, h.BlockID.ShortString(), want[h.ID].ShortString())
		}
		delete(want, h.ID)
	}
	return ""
}
func leashDiff(lk *Linkage, m *model) string {
	ls, err := lk.Leashes()
	if err != nil {
		return "leashes: " + err.Error()
	}
	seen := map[netip.Addr]bool{}
	for _, l := range ls {
		if id, ok := m.lsh[l.Addr]; !ok || id != l.BlockID || seen[l.Addr] {
			return fmt.Sprintf("leash of %s listed at %s (known %v, repeated %v), expected %s", l.Addr, l.BlockID.ShortString(), ok, seen[l.Addr], id.ShortString())
		}
		seen[l.Addr] = true
	}
	if len(seen) != len(m.lsh) {
		return fmt.Sprintf("%d leashes listed, expected %d", len(seen), len(m.lsh))
	}
	for _, a := range vAddrs {
		id, err := lk.Leash(a)
		if err != nil {
			return "leash: " + err.Error()
		}
		want, ok := m.lsh[a]
		if !ok {
			want = m.bs[0].id
		}
		has, err := lk.HasLeash(a)
		if err != nil || has != ok || id != want {
			return fmt.Sprintf("leash of %s is %s (has %v %v), expected %s", a, id.ShortString(), has, err, want.ShortString())
		}
		sc, err := lk.LeashScore(a)
		if err != nil || sc == nil || sc.Cmp(m.bs[m.byID[want]].score) != 0 {
			return fmt.Sprintf("leash score of %s is %v (%v), expected %s", a, sc, err, m.bs[m.byID[want]].score)
		}
	}
	return ""
}

func (w *world) check(full bool) {
	m, lk := w.m, w.lk
	w.guard("C01,C10", "reading blocks", func() {
		lo := 0
		if !full && len(m.bs) > 8 {
			lo = len(m.bs) - 4
			i := w.rng.Intn(lo)
			if s := w.blockDiff(lk, m, i); s != "" {
				w.bad("C01,C06", "stored block differs", "%s", s)
			}
		}
		for i := lo; i < len(m.bs); i++ {
			if s := w.blockDiff(lk, m, i); s != "" {
				w.bad("C01,C06", "stored block differs", "%s", s)
				return
			}
		}
		unk := randID(w.rng)
		ok, err := lk.HasBlock(unk)
		w.chk(!ok && err == nil, "C06", "HasBlock of an unknown id", "%v %v", ok, err)
	})
	w.guard("C04,C10", "Heads", func() {
		if s := headsDiff(lk, m); s != "" {
			w.bad("C04", "heads differ", "%s", s)
		}
		ah, err := lk.ActiveHeads()
		want := map[uint64]proto.BlockID{}
		ls := map[proto.BlockID]bool{}
		for _, id := range m.lsh {
			ls[id] = true
		}
		for _, b := range m.bs {
			if b.head != 0 && ls[b.id] {
				want[b.head] = b.id
			}
		}
		okA := err == nil && len(ah) == len(want)
		for _, h := range ah {
			okA = okA && want[h.ID] == h.BlockID && h.ID != 0
			delete(want, h.ID)
		}
		w.chk(okA, "C04", "active heads differ", "%v (%v)", ah, err)
	})
	w.guard("C05,C10", "Leashes", func() {
		if s := leashDiff(lk, m); s != "" {
			w.bad("C05,C06", "leashes differ", "%s", s)
		}
	})
	n := 3
	if full {
		n = 12
	}
	for i := 0; i < n; i++ {
		w.checkLCA()
	}
	w.checkLists()
	w.checkForks()
	w.checkPeers()
}

func (w *world) checkLCA() {
	a, b := w.pickBlock(), w.rng.Intn(len(w.m.bs))
	x, y := w.m.bs[a].id, w.m.bs[b].id
	w.guard("C02,C10", "lca", func() {
		id, err := w.lk.st.lca(x, y)
		e := w.m.bs[w.m.lca(a, b)]
		w.chk(err == nil && id == e.id, "C02", "lca differs", "lca(%s, %s) = %s, %v; expected %s at height %d", x.ShortString(), y.ShortString(), id.ShortString(), err, e.id.ShortString(), e.height)
		if w.rng.Intn(6) == 0 {
			u := randID(w.rng)
			_, err = w.lk.st.lca(u, y)
			_, err2 := w.lk.st.lca(x, u)
			w.chk(errors.Is(err, leveldb.ErrNotFound) && errors.Is(err2, leveldb.ErrNotFound), "C02", "lca of an unknown block", "%v, %v", err, err2)
		}
	})
}

func (w *world) checkLists() {
	i := w.pickBlock()
	p := w.m.path(i)
	cnt := []int{0, 1, 2, 5, len(p) - 1, len(p), len(p) + 1, 100, -1, -1 << 62, 1 << 40, 1<<63 - 1}[w.rng.Intn(12)]
	n := cnt
	if n < 0 {
		n = 0
	}
	if n > len(p) {
		n = len(p)
	}
	id := w.m.bs[i].id
	w.guard("C03,C10", "LastIDs", func() {
		ids, err := w.lk.LastIDs(id, cnt)
		ok := err == nil && len(ids) == n
		for k := 0; ok && k < n; k++ {
			ok = ids[k] == w.m.bs[p[k]].id
		}
		w.chk(ok, "C01,C03", "LastIDs differs", "LastIDs(%s, %d): %d ids, %v; expected %d along the parents", id.ShortString(), cnt, len(ids), err, n)
		_, err = w.lk.LastIDs(randID(w.rng), cnt)
		w.chk(err != nil, "C03", "LastIDs of an unknown block", "no error")
	})
	w.guard("C03,C10", "ForkGenerators", func() {
		gs, err := w.lk.ForkGenerators(id, cnt)
		want := map[proto.WavesAddress]int{}
		for k := 0; k < n; k++ {
			want[w.m.bs[p[k]].gen]++
		}
		ok := err == nil && len(gs) == len(want)
		for k := 0; ok && k < len(gs); k++ {
			ok = want[gs[k].Generator] == gs[k].Blocks && gs[k].Blocks > 0 && (k == 0 || gs[k-1].Blocks >= gs[k].Blocks)
			delete(want, gs[k].Generator)
		}
		w.chk(ok, "C03", "ForkGenerators differs", "ForkGenerators(%s, %d) = %v, %v", id.ShortString(), cnt, gs, err)
	})
}

func (w *world) groups(filter LookupPeers) map[proto.BlockID][]netip.Addr {
	g := map[proto.BlockID][]netip.Addr{}
	for a, id := range w.m.lsh {
		if _, ok := filter[a]; len(filter) > 0 && !ok {
			continue
		}
		g[id] = append(g[id], a)
	}
	return g
}
func (w *world) best(g map[proto.BlockID][]netip.Addr) (r []proto.BlockID) {
	var bs *big.Int
	bp := 0
	for id, v := range g {
		s := w.m.bs[w.m.byID[id]].score
		c := 1
		if bs != nil {
			c = s.Cmp(bs)
		}
		if c > 0 || c == 0 && len(v) > bp {
			bs, bp, r = s, len(v), []proto.BlockID{id}
		} else if c == 0 && len(v) == bp {
			r = append(r, id)
		}
	}
	return
}
func sameAddrs(a, b []netip.Addr) bool {
	if len(a) != len(b) {
		return false
	}
	x, y := append([]netip.Addr{}, a...), append([]netip.Addr{}, b...)
	sort.Slice(x, func(i, j int) bool { return x[i].Less(x[j]) })
	sort.Slice(y, func(i, j int) bool { return y[i].Less(y[j]) })
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}
func (w *world) tsOf(i int) time.Time {
	t := w.m.bs[i].ts
	if t > maxTimestamp {
		t = maxTimestamp
	}
	return time.UnixMilli(int64(t))
}

func (w *world) checkForks() {
	var filter LookupPeers
	switch w.rng.Intn(3) {
	case 1:
		filter = LookupPeers{}
	case 2:
		filter = LookupPeers{}
		for _, a := range vAddrs {
			if w.rng.Intn(3) == 0 {
				filter[a] = struct{}{}
			}
		}
	}
	w.guard("C07,C10", "Forks", func() {
		g := w.groups(filter)
		fs, err := w.lk.Forks(filter)
		if !w.chk(err == nil && fs != nil && len(fs) == len(g), "C07", "forks differ", "Forks(%v): %d entries, %v; expected %d", filter, len(fs), err, len(g)) {
			return
		}
		seen := map[proto.BlockID]bool{}
		long := 0
		for i, f := range fs {
			v, ok := g[f.HeadBlock]
			bi := w.m.byID[f.HeadBlock]
			b := w.m.bs[bi]
			if !w.chk(ok && !seen[f.HeadBlock] && sameAddrs(v, f.Peers) && f.PeersCount == len(v), "C07", "fork peers differ", "fork %s lists %v (count %d), expected %v", f.HeadBlock.ShortString(), f.Peers, f.PeersCount, v) {
				return
			}
			seen[f.HeadBlock] = true
			w.chk(int(f.HeadHeight) == b.height && f.HeadGenerator == b.gen && f.Score != nil && f.Score.Cmp(b.score) == 0 && f.HeadTimestamp.Equal(w.tsOf(bi)), "C07", "fork data differ", "fork %+v, block height %d score %s ts %d", f, b.height, b.score, b.ts)
			w.chk(f.Longest == (i == 0), "C07", "longest mark", "entry %d has longest=%v", i, f.Longest)
			if i > 0 {
				c := fs[i-1].Score.Cmp(f.Score)
				w.chk(c > 0 || c == 0 && len(fs[i-1].Peers) >= len(f.Peers), "C07", "fork order", "entry %d (%s, %d peers) before entry %d (%s, %d peers)", i-1, fs[i-1].Score, len(fs[i-1].Peers), i, f.Score, len(f.Peers))
			}
			l := w.m.bs[w.m.lca(w.m.byID[fs[0].HeadBlock], bi)]
			w.chk(f.LastCommonBlock == l.id && f.Length == b.height-l.height, "C07", "fork measure", "fork %s: last common block %s length %d, expected %s and %d", f.HeadBlock.ShortString(), f.LastCommonBlock.ShortString(), f.Length, l.id.ShortString(), b.height-l.height)
			if f.Length > 5 {
				long++
			}
			_, mErr := f.HeadTimestamp.MarshalJSON()
			w.chk(mErr == nil, "C10", "fork timestamp not serializable", "%v", mErr)
		}
		if filter == nil {
			st, err := w.lk.Stats()
			// equal forks may come in another order, then lengths differ: only compare without ties
			if len(w.best(g)) <= 1 {
				w.chk(err == nil && st.Long == long && st.Short == len(fs)-long, "C07", "stats differ", "%+v %v, expected long %d short %d", st, err, long, len(fs)-long)
			}
		}
	})
}

func (w *world) checkPeers() {
	g := w.groups(nil)
	best := w.best(g)
	for _, a := range vAddrs[:6+w.rng.Intn(3)] {
		id, ok := w.m.lsh[a]
		w.guard("C08,C10", "LCB", func() {
			lcb, err := w.lk.LCB(a)
			if !ok {
				w.chk(err == nil && lcb == w.m.bs[0].id, "C08,C11", "LCB of an unleashed peer", "%s %v", lcb.ShortString(), err)
				return
			}
			good := false
			for _, b := range best {
				good = good || lcb == w.m.bs[w.m.lca(w.m.byID[b], w.m.byID[id])].id
			}
			w.chk(err == nil && good, "C08,C11", "LCB differs", "LCB(%s) = %s, %v", a, lcb.ShortString(), err)
			f, err := w.lk.Fork(a)
			good = false
			hb := w.m.bs[w.m.byID[id]]
			for _, b := range best {
				l := w.m.bs[w.m.lca(w.m.byID[b], w.m.byID[id])]
				good = good || f.LastCommonBlock == l.id && f.Length == hb.height-l.height && f.Longest == (b == id)
			}
			w.chk(err == nil && good && f.HeadBlock == id && int(f.HeadHeight) == hb.height && f.Score != nil && f.Score.Cmp(hb.score) == 0 && f.HeadGenerator == hb.gen && f.HeadTimestamp.Equal(w.tsOf(w.m.byID[id])) && f.PeersCount == len(f.Peers) && sameAddrs(f.Peers, g[id]), "C08", "Fork differs", "Fork(%s) = %+v, %v; leash %s height %d score %s peers %v", a, f, err, id.ShortString(), hb.height, hb.score, g[id])
		})
	}
}

// big builds a long chain with many branches before the random steps.
func (w *world) big() bool {
	r := w.rng
	n, forks := 300+r.Intn(1200), 200+r.Intn(200)
	w.log("a chain of %d blocks over genesis by 1.2.3.4 and %d branches off random blocks", n, forks)
	for i := 0; i < n+forks; i++ {
		p := len(w.m.bs) - 1
		if i >= n {
			p = r.Intn(n)
		}
		var pk crypto.PublicKey
		pk[0] = byte(r.Intn(4))
		b := &proto.Block{BlockHeader: proto.BlockHeader{Version: 5, Timestamp: uint64(i), Parent: w.m.bs[p].id, ID: randID(r), GeneratorPublicKey: pk, NxtConsensus: proto.NxtConsensus{BaseTarget: 50}}}
		var err error
		if !w.guard("C01,C04,C06,C10", "PutBlock", func() { err = w.lk.PutBlock(b, vAddrs[0]) }) || !w.chk(err == nil, "C01,C04,C06", "PutBlock refused", "%v", err) {
			return false
		}
		w.m.add(mb{id: b.ID, parent: p, height: w.m.bs[p].height + 1, ts: b.Timestamp, score: new(big.Int).Add(blockScore(50), w.m.bs[p].score), gen: w.m.genAddr(pk)}, p)
		w.m.lsh[vAddrs[0]] = b.ID
	}
	for i := 0; i < 20; i++ {
		w.check(false)
	}
	w.check(true)
	return true
}

func (w *world) locksFree(after string) {
	if !w.lk.mu.TryLock() {
		w.bad("C22", "lock still held", "after %s", after)
		w.lk.mu = &sync.RWMutex{}
		return
	}
	w.lk.mu.Unlock()
}

func TestVerifChains(t *testing.T) {
	r := newVrep()
	defer r.done()
	for r.more() {
		w := newWorld(r)
		r.cases++
		if w == nil {
			return
		}
		if r.cases%20 == 2 && !w.big() {
			w.lk.Close()
			continue
		}
		steps := 10 + r.rng.Intn(60)
		style := r.rng.Intn(4)
		if style == 3 {
			steps *= 5 // a long, mostly linear history
		}
		intact := true
		for i := 0; i < steps && r.more(); i++ {
			if r.rng.Intn(12) == 0 {
				a, b := w.addr(), w.m.bs[w.pickBlock()].id
				w.log("MoveLeash(%s, %s)", b.ShortString(), a)
				var err error
				if !w.guard("C05,C06", "MoveLeash", func() { err = w.lk.MoveLeash(b, a) }) || err != nil {
					w.chk(err == nil, "C05", "MoveLeash fails", "%v", err)
					intact = false
					break
				}
				w.m.lsh[a] = b
			} else {
				mode := 0
				switch r.rng.Intn(25) {
				case 0, 1:
					mode = 1
				case 2:
					mode = 2
				}
				if style == 3 {
					mode = 0
				}
				if !w.putRandom(mode) {
					intact = false
					break
				}
			}
			w.locksFree("an update")
			if style != 3 || i%20 == 0 {
				w.check(false)
				w.locksFree("queries")
			}
			if r.rng.Intn(60) == 0 {
				w.log("reopen")
				var lk *Linkage
				var err error
				w.lk.Close()
				if !w.guard("C01,C06,C10", "reopening", func() { lk, err = openOn(w.st, w.g) }) || !w.chk(err == nil, "C01,C06", "reopening fails", "%v", err) {
					intact = false
					break
				}
				w.lk = lk
			}
		}
		if r.more() && intact {
			w.check(true)
			w.locksFree("queries")
		}
		if w.lk != nil {
			w.lk.Close()
		}
	}
}

func TestVerifScore(t *testing.T) {
	r := newVrep()
	defer r.done()
	for r.more() {
		for k := 0; k < 2000; k++ {
			r.cases++
			bt := randBT(r.rng)
			r.hist = []string{fmt.Sprintf("base target %d", bt)}
			r.guard("C09,C01", "score", func() {
				s := calculateScore(bt)
				r.chk(s != nil && s.Cmp(blockScore(bt)) == 0, "C09,C01", "block score", "%v", s)
				var p *big.Int
				if r.rng.Intn(4) > 0 {
					p = new(big.Int).Rand(r.rng, new(big.Int).Lsh(big.NewInt(1), uint(1+r.rng.Intn(200))))
				}
				want := blockScore(bt)
				var p0 *big.Int
				if p != nil {
					p0 = new(big.Int).Set(p)
					want.Add(want, p)
				}
				c := calculateCumulativeScore(p, bt)
				r.chk(c != nil && c.Cmp(want) == 0, "C09,C01", "cumulative score", "parent %v: %v", p0, c)
				r.chk(p == nil || p.Cmp(p0) == 0, "C09,C01", "parent score altered", "%v became %v", p0, p)
			})
		}
	}
}
