package main

import (
	"errors"
	"fmt"
	"math/big"
	"net"
	"net/netip"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/syndtr/goleveldb/leveldb"
	"github.com/wavesplatform/gowaves/pkg/crypto"
	"github.com/wavesplatform/gowaves/pkg/p2p/conn"
	"github.com/wavesplatform/gowaves/pkg/p2p/peer"
	"github.com/wavesplatform/gowaves/pkg/proto"
	"go.uber.org/zap"

	"github.com/alexeykiselev/waves-fork-detector/chains"
	"github.com/alexeykiselev/waves-fork-detector/loading"
	"github.com/alexeykiselev/waves-fork-detector/peers"
)

type dPeer struct {
	ap     netip.AddrPort
	hs     proto.Handshake
	closed int
	sent   []proto.Message
}

func (f *dPeer) Direction() peer.Direction   { return peer.Incoming }
func (f *dPeer) Close() error                { f.closed++; return nil }
func (f *dPeer) SendMessage(m proto.Message) { f.sent = append(f.sent, m) }
func (f *dPeer) ID() peer.ID                 { return nil }
func (f *dPeer) Connection() conn.Connection { return nil }
func (f *dPeer) Handshake() proto.Handshake  { return f.hs }
func (f *dPeer) Equal(o peer.Peer) bool      { return o == peer.Peer(f) }
func (f *dPeer) RemoteAddr() proto.TCPAddr {
	return proto.TCPAddr(net.TCPAddr{IP: f.ap.Addr().AsSlice(), Port: int(f.ap.Port())})
}

type dblock struct {
	id     proto.BlockID
	v3     bool
	raw    []byte
	parent proto.BlockID
}

type dworld struct {
	*vrep
	dir    string
	lk     *chains.Linkage
	reg    *peers.Registry
	d      *Distributor
	ps     []*dPeer
	known  []proto.BlockID // stored blocks
	lsh    map[netip.Addr]proto.BlockID
	stored map[netip.Addr]string // what the registry answers for each address
	sk     crypto.SecretKey
	pk     crypto.PublicKey
	ts     uint64
	n      byte

	given    []loading.IDsPackage
	givenIDs [][]proto.BlockID
}

const dscheme = 'W'

func newDWorld(r *vrep) *dworld {
	w := &dworld{vrep: r, lsh: map[netip.Addr]proto.BlockID{}, ts: 1700000000000}
	w.hist = nil
	w.dir, _ = os.MkdirTemp("", "vdist")
	w.sk, w.pk, _ = crypto.GenerateKeyPair([]byte{byte(r.rng.Intn(256)), 2})
	gen := proto.Block{BlockHeader: proto.BlockHeader{Version: 3, Timestamp: 1, GeneratorPublicKey: w.pk, NxtConsensus: proto.NxtConsensus{BaseTarget: 100}}}
	r.rng.Read(gen.BlockSignature[:])
	gen.ID = proto.NewBlockIDFromSignature(gen.BlockSignature)
	var err error
	if w.lk, err = chains.NewLinkage(filepath.Join(w.dir, "b"), dscheme, gen); err != nil {
		r.bad("C21", "open", "%v", err)
		return nil
	}
	w.known = append(w.known, gen.ID)
	if w.reg, err = peers.NewRegistry(dscheme, proto.TCPAddr{}, []proto.Version{proto.NewVersion(1, 5, 0)}, filepath.Join(w.dir, "p")); err != nil {
		r.bad("C21", "open", "%v", err)
		return nil
	}
	w.d = NewDistributor(dscheme, w.lk, w.reg, peer.NewParent(false))
	w.d.idsCh = make(chan loading.IDsPackage, 64)
	w.d.blockCh = make(chan loading.BlockPackage, 64)
	for i := 0; i < 5; i++ {
		a := netip.AddrFrom4([4]byte{45, 1, byte(r.rng.Intn(256)), byte(i)})
		if i == 4 && r.rng.Intn(2) == 0 {
			a = netip.MustParseAddr("2001:db8::5")
		}
		w.ps = append(w.ps, &dPeer{ap: netip.AddrPortFrom(a, uint16(1000+r.rng.Intn(60000))), hs: proto.Handshake{AppName: "wavesW", Version: proto.NewVersion(1, 5, 0), NodeName: fmt.Sprintf("n%d", i), NodeNonce: uint64(i), DeclaredAddr: proto.NewHandshakeTCPAddr(net.IPv4(45, 1, 1, 1), 6868)}})
	}
	return w
}

func (w *dworld) close() {
	if w.lk != nil {
		w.lk.Close()
	}
	if w.reg != nil {
		_ = w.reg.Close()
	}
	_ = os.RemoveAll(w.dir)
}

func (w *dworld) newBlock(parent proto.BlockID, v3 bool) *dblock {
	w.ts += 1000
	w.n++
	v := proto.ProtobufBlockVersion
	if v3 {
		v = proto.NgBlockVersion
	}
	bt := uint64(50 + w.rng.Intn(1000))
	if w.prop == "C10" && w.rng.Intn(8) == 0 {
		bt = []uint64{0, 1, 1<<64 - 1, 1 << 63}[w.rng.Intn(4)] // a remote peer may send anything
	}
	ts := w.ts
	if w.prop == "C10" && w.rng.Intn(8) == 0 {
		ts = []uint64{0, 1<<64 - 1, 1 << 63, 1<<63 - 1}[w.rng.Intn(4)]
	}
	g := make([]byte, crypto.DigestSize)
	w.rng.Read(g)
	b, err := proto.CreateBlock(proto.Transactions{}, ts, parent, w.pk, proto.NxtConsensus{BaseTarget: bt, GenSignature: g}, v, nil, -1, dscheme)
	if err != nil {
		return nil
	}
	if err = b.Sign(dscheme, w.sk); err != nil {
		return nil
	}
	if err = b.GenerateBlockID(dscheme); err != nil {
		return nil
	}
	o := &dblock{id: b.BlockID(), v3: v3, parent: parent}
	if v3 {
		o.raw, err = b.MarshalBinary(dscheme)
	} else {
		o.raw, err = b.MarshalToProtobuf(dscheme)
	}
	if err != nil {
		return nil
	}
	return o
}

func (w *dworld) leashes() (m map[netip.Addr]proto.BlockID) {
	m = map[netip.Addr]proto.BlockID{}
	for _, p := range w.ps {
		if id, err := w.lk.Leash(p.ap.Addr()); err == nil {
			m[p.ap.Addr()] = id
		} else if !errors.Is(err, leveldb.ErrNotFound) {
			m[p.ap.Addr()] = proto.BlockID{}
		}
	}
	return
}

func (w *dworld) records() (m map[netip.Addr]string) {
	m = map[netip.Addr]string{}
	ps, err := w.reg.Peers()
	if err != nil {
		m[netip.Addr{}] = err.Error()
		return
	}
	for _, p := range ps {
		m[p.AddressPort.Addr()] = fmt.Sprintf("%s %d %s %s %v %s %v", p.AddressPort, p.Nonce, p.Name, p.Version, p.State, p.NextAttempt, p.Score)
	}
	return
}

func (w *dworld) drain() (ids []loading.IDsPackage, bs []loading.BlockPackage) {
	for {
		select {
		case p := <-w.d.idsCh:
			ids = append(ids, p)
		case b := <-w.d.blockCh:
			bs = append(bs, b)
		default:
			return
		}
	}
}

func diffMap[V comparable](a, b map[netip.Addr]V) (r []netip.Addr) {
	for k, v := range a {
		if u, ok := b[k]; !ok || u != v {
			r = append(r, k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			r = append(r, k)
		}
	}
	return
}

func only(l []netip.Addr, a netip.Addr) bool {
	for _, x := range l {
		if x != a {
			return false
		}
	}
	return true
}

func (w *dworld) randID() proto.BlockID {
	if w.rng.Intn(2) == 0 {
		var d crypto.Digest
		w.rng.Read(d[:])
		return proto.NewBlockIDFromDigest(d)
	}
	var s crypto.Signature
	w.rng.Read(s[:])
	return proto.NewBlockIDFromSignature(s)
}

func (w *dworld) garble(b []byte) []byte {
	if len(b) == 0 {
		return b
	}
	return append([]byte{}, b[:w.rng.Intn(len(b))]...)
}

func (w *dworld) step() {
	p := w.ps[w.rng.Intn(len(w.ps))]
	a := p.ap.Addr()
	l0, r0 := w.leashes(), w.records()
	for _, q := range w.ps {
		q.sent = nil
	}
	var msg proto.Message
	var what string
	var info peer.InfoMessageValue
	kind := w.rng.Intn(12)
	var blk *dblock
	var good bool
	var inv *proto.MicroBlockInv
	var wantIDs []proto.BlockID
	var score *big.Int
	var infos []proto.PeerInfo
	switch kind {
	case 0, 1:
		n := w.rng.Intn(20)
		b := make([]byte, n)
		w.rng.Read(b)
		score = new(big.Int).SetBytes(b)
		msg, what = &proto.ScoreMessage{Score: b}, "score "+score.String()
	case 2, 3, 4:
		par := w.known[w.rng.Intn(len(w.known))]
		stored := true
		if w.rng.Intn(5) == 0 {
			par, stored = w.randID(), false
		}
		blk = w.newBlock(par, w.rng.Intn(2) == 0 && par.IsSignature())
		if blk == nil {
			return
		}
		good = true
		raw := blk.raw
		if w.rng.Intn(8) == 0 {
			raw = w.garble(raw)
			var t proto.Block
			if blk.v3 {
				good = t.UnmarshalBinary(raw, dscheme) == nil
			} else {
				good = t.UnmarshalFromProtobuf(raw) == nil
			}
			if good {
				return
			}
		}
		if blk.v3 {
			msg = &proto.BlockMessage{BlockBytes: raw}
		} else {
			msg = &proto.PBBlockMessage{PBBlockBytes: raw}
		}
		what = fmt.Sprintf("block %s (v3 %v) on %s, parent stored %v, decodable %v", blk.id.ShortString(), blk.v3, par.ShortString(), stored, good)
		if !stored {
			blk.parent = proto.BlockID{}
		}
	case 5:
		ref := w.known[w.rng.Intn(len(w.known))]
		if w.rng.Intn(5) == 0 {
			ref = w.randID()
		}
		tid := w.randID()
		if w.rng.Intn(3) == 0 {
			tid = w.known[w.rng.Intn(len(w.known))]
		}
		inv = proto.NewUnsignedMicroblockInv(w.pk, tid, ref)
		raw, err := inv.MarshalBinary()
		if err != nil {
			return
		}
		var t proto.MicroBlockInv
		if w.rng.Intn(5) == 0 {
			raw = w.garble(raw)
		}
		good = t.UnmarshalBinary(raw) == nil
		inv = &t
		msg, what = &proto.MicroBlockInvMessage{Body: raw}, fmt.Sprintf("micro-block %s on %s, decodable %v", tid.ShortString(), ref.ShortString(), good)
	case 6:
		for i := w.rng.Intn(5); i > 0; i-- {
			wantIDs = append(wantIDs, w.randID())
		}
		msg, what = &proto.BlockIdsMessage{Blocks: wantIDs}, fmt.Sprintf("%d block ids", len(wantIDs))
	case 7:
		var ss []crypto.Signature
		for i := w.rng.Intn(5); i > 0; i-- {
			var s crypto.Signature
			w.rng.Read(s[:])
			ss = append(ss, s)
			wantIDs = append(wantIDs, proto.NewBlockIDFromSignature(s))
		}
		msg, what = &proto.SignaturesMessage{Signatures: ss}, fmt.Sprintf("%d signatures", len(ss))
	case 8:
		msg, what = &proto.GetPeersMessage{}, "get peers"
	case 9:
		for i := w.rng.Intn(5); i > 0; i-- {
			pi := proto.PeerInfo{Addr: net.IPv4(46, byte(w.rng.Intn(3)), byte(w.rng.Intn(3)), byte(w.rng.Intn(3))), Port: uint16(1 + w.rng.Intn(65535))}
			if w.rng.Intn(6) == 0 {
				pi.Addr = []net.IP{nil, {}, {1, 2, 3}, net.IPv6loopback, net.ParseIP("2001:db8::9")}[w.rng.Intn(5)]
			}
			infos = append(infos, pi)
		}
		msg, what = &proto.PeersMessage{Peers: infos}, fmt.Sprintf("peers %v", infos)
	case 10:
		info, what = &peer.Connected{Peer: p}, "connected"
		if w.rng.Intn(4) == 0 {
			p.hs.AppName = []string{"", "wavesT", "W", "wavesW"}[w.rng.Intn(4)]
			p.hs.NodeName = []string{"", "\xff\xfe", strings.Repeat("n", 255)}[w.rng.Intn(3)]
			p.hs.Version = proto.NewVersion(uint32(w.rng.Intn(2)), uint32(w.rng.Intn(8)), 0)
		}
		what += fmt.Sprintf(" as %q %s", p.hs.AppName, p.hs.Version)
	case 11:
		info, what = &peer.InternalErr{Err: errors.New("failed")}, "internal error"
	}
	w.log("%s: %s", p.ap, what)
	w.cases++
	cl0 := p.closed
	ok := w.guard("C10,C21", "handling of a message", func() {
		if info != nil {
			w.d.handleInfoMessage(peer.InfoMessage{Peer: p, Value: info})
		} else {
			w.d.handleMessage(peer.ProtoMessage{ID: p, Message: msg})
		}
	})
	if !ok {
		return
	}
	if w.prop == "C10" { // later reads must not panic either
		w.guard("C10", "a later read", func() {
			_, _ = w.lk.Forks(nil)
			_, _ = w.lk.Heads()
			_, _ = w.reg.Peers()
			_, _ = w.reg.FriendlyPeers()
			_, _ = w.reg.TakeAvailableAddresses()
			for _, q := range w.ps {
				_, _ = w.lk.Fork(q.ap.Addr())
			}
		})
	}
	l1, r1 := w.leashes(), w.records()
	ids, bs := w.drain()
	ld, rd := diffMap(l0, l1), diffMap(r0, r1)
	sent := 0
	for _, q := range w.ps {
		sent += len(q.sent)
	}
	C := "C21"
	w.chk(only(ld, a), C, "leash of another peer changed", "%v after %s from %s", ld, what, a)
	if kind != 9 {
		w.chk(only(rd, a), C, "record of another peer changed", "%v after %s from %s", rd, what, a)
	}
	if kind != 8 {
		w.chk(sent == 0, C, "unexpected answer", "%s was answered with %d messages", what, sent)
	}
	if kind != 6 && kind != 7 {
		w.chk(len(ids) == 0, C, "unexpected ids for the loader", "%s gives %v", what, ids)
	}
	if blk == nil {
		w.chk(len(bs) == 0, C, "unexpected block for the loader", "%s gives %v", what, bs)
	}
	if kind > 5 && kind != 10 && kind != 11 {
		w.chk(len(ld) == 0, C, "leash changed", "by %s", what)
	}
	switch kind {
	case 0, 1:
		if _, had := r0[a]; had {
			pr, err := w.reg.Peer(a)
			w.chk(err == nil && pr.Score != nil && pr.Score.Cmp(score) == 0, C, "score is not updated", "%s announced %s, stored %v (%v)", a, score, pr.Score, err)
		}
	case 2, 3, 4:
		if !good {
			w.chk(len(bs) == 0 && len(ld) == 0, C, "undecodable block has an effect", "%d handed over, leashes changed %v", len(bs), ld)
			break
		}
		if w.chk(len(bs) == 1, C, "block is not handed over", "%s: %d packages", what, len(bs)) {
			w.chk(bs[0].Peer == a && bs[0].Block != nil && bs[0].Block.BlockID() == blk.id, C, "another block or peer is handed over", "%s for %s, received %s from %s", bs[0].Block.BlockID(), bs[0].Peer, blk.id, a)
		}
		has, err := w.lk.HasBlock(blk.id)
		st := blk.parent != proto.BlockID{}
		w.chk(err == nil && has == st, C, "block is not stored", "%s: HasBlock %v (%v)", what, has, err)
		if st {
			w.known = append(w.known, blk.id)
			w.chk(l1[a] == blk.id, C, "leash is not updated", "of %s: %s instead of %s", a, l1[a].ShortString(), blk.id.ShortString())
		}
	case 5:
		if !good {
			w.chk(len(ld) == 0, C, "undecodable micro-block has an effect", "leashes changed %v", ld)
			break
		}
		has, _ := w.lk.HasBlock(inv.TotalBlockID)
		refKnown := false
		for _, k := range w.known { // a micro-block cannot refer to the genesis block
			refKnown = refKnown || k == inv.Reference && k != w.known[0]
		}
		if refKnown {
			w.chk(has, C, "micro-block is not stored", "%s", what)
		}
		if has && refKnown {
			w.known = append(w.known, inv.TotalBlockID)
		}
	case 6, 7:
		if len(wantIDs) == 0 {
			break
		}
		if w.chk(len(ids) == 1, C, "ids are not handed over", "%s: %d packages", what, len(ids)) {
			same := ids[0].Peer == a && len(ids[0].IDs) == len(wantIDs)
			for i := 0; same && i < len(wantIDs); i++ {
				same = ids[0].IDs[i] == wantIDs[i]
			}
			w.chk(same, C, "other ids or another peer are handed over", "%v of %s, received %v from %s", ids[0].IDs, ids[0].Peer, wantIDs, a)
			// the loader reads the package later, when other messages are handled already
			for i, p := range w.given {
				for j := range p.IDs {
					if j >= len(w.givenIDs[i]) || p.IDs[j] != w.givenIDs[i][j] {
						w.bad(C, "handed over ids change afterwards", "ids of %s are %v after the ids of %s", p.Peer, p.IDs, a)
						break
					}
				}
			}
			w.given = append(w.given, ids[0])
			w.givenIDs = append(w.givenIDs, append([]proto.BlockID{}, ids[0].IDs...))
		}
	case 8:
		var want, got []string
		all, err := w.reg.Peers()
		if err != nil {
			break
		}
		for _, q := range all {
			if q.State == peers.PeerConnected {
				want = append(want, q.AddressPort.String())
			}
		}
		if !w.chk(len(p.sent) == 1 && sent == 1, C, "request for peers is not answered", "%d messages to the requester, %d in all", len(p.sent), sent) {
			break
		}
		pm, isPM := p.sent[0].(*proto.PeersMessage)
		if !w.chk(isPM, C, "request for peers is not answered", "with %T", p.sent[0]) {
			break
		}
		for _, i := range pm.Peers {
			got = append(got, netip.AddrPortFrom(netip.AddrFrom4([4]byte(i.Addr.To4())), i.Port).String())
		}
		sort.Strings(want)
		sort.Strings(got)
		w.chk(strings.Join(want, ",") == strings.Join(got, ","), C, "wrong peers", "answered %v, friendly are %v", got, want)
	case 9:
		for _, i := range infos {
			if i4 := i.Addr.To4(); i4 != nil {
				ia := netip.AddrFrom4([4]byte(i4))
				_, had := r0[ia]
				_, has := r1[ia]
				w.chk(had || has, C, "received address is not added", "%s", ia)
			}
		}
	case 10:
		if p.closed == cl0 {
			cs, err := w.reg.Connections()
			found := err != nil
			for _, c := range cs {
				found = found || c.AddressPort.Addr() == a
			}
			w.chk(found, "C21,C15", "connected peer is neither registered nor closed", "%s", a)
		}
	case 11:
		w.chk(p.closed > cl0, C, "failed connection is not closed", "%s", a)
		cs, err := w.reg.Connections()
		for _, c := range cs {
			w.chk(err != nil || c.AddressPort.Addr() != a, C, "failed peer is still registered", "%s", a)
		}
	}
}

func vfilter(r *vrep) {
	cm := NewConnectionManager('W', "n", 1, proto.TCPAddr{}, nil, peer.NewParent(false))
	used := map[proto.PeerMessageID]bool{proto.ContentIDGetPeers: true, proto.ContentIDPeers: true, proto.ContentIDSignatures: true, proto.ContentIDBlock: true, proto.ContentIDScore: true, proto.ContentIDInvMicroblock: true, proto.ContentIDPBBlock: true, proto.ContentIDBlockIDs: true}
	unused := []proto.PeerMessageID{proto.ContentIDGetSignatures, proto.ContentIDGetBlock, proto.ContentIDTransaction, proto.ContentIDCheckpoint, proto.ContentIDMicroblockRequest, proto.ContentIDMicroblock, proto.ContentIDPBMicroBlock, proto.ContentIDPBTransaction, proto.ContentIDGetBlockIDs, proto.ContentIDGetBlockSnapshot, proto.ContentIDMicroBlockSnapshot, proto.ContentIDBlockSnapshot, proto.ContentIDMicroBlockSnapshotRequest}
	r.guard("C21", "filter", func() {
		for id := range used {
			r.chk(!cm.skipFunc(proto.Header{ContentID: id}), "C21", "a message that is acted on is filtered out", "content id %d", id)
		}
		for _, id := range unused {
			r.chk(cm.skipFunc(proto.Header{ContentID: id}), "C21", "an unused message is not filtered out", "content id %d", id)
		}
	})
}

func TestVerifDistributor(t *testing.T) {
	zap.ReplaceGlobals(zap.NewNop())
	r := newVrep()
	defer r.done()
	vfilter(r)
	for r.more() {
		w := newDWorld(r)
		if w == nil {
			return
		}
		for i := 0; i < 60 && r.more(); i++ {
			w.step()
		}
		w.close()
	}
}
