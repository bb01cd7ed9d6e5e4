LH='''package loading

import (
	"errors"
	"math/big"
	"net/netip"
	"testing"
	"time"

	"github.com/wavesplatform/gowaves/pkg/crypto"
	"github.com/wavesplatform/gowaves/pkg/p2p/conn"
	"github.com/wavesplatform/gowaves/pkg/p2p/peer"
	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/chains"
	"github.com/alexeykiselev/waves-fork-detector/peers"
)

var _ = chains.NewLinkage
var _ = peers.NewRegistry
var _ conn.Connection
var _ peer.ID
var errZd = errors.New("fail")

func zdID(n byte) proto.BlockID { return proto.NewBlockIDFromDigest(crypto.Digest{n, 1}) }
func zdBlock(n byte) *proto.Block {
	return &proto.Block{BlockHeader: proto.BlockHeader{Version: 5, ID: zdID(n)}}
}

type zdHP struct {
	known map[proto.BlockID]bool
	leash proto.BlockID
	lcb   proto.BlockID
	puts  []proto.BlockID
	fail  bool
}

func (h *zdHP) Leash(netip.Addr) (proto.BlockID, error)       { return h.leash, nil }
func (h *zdHP) MoveLeash(id proto.BlockID, _ netip.Addr) error { h.leash = id; return nil }
func (h *zdHP) LeashScore(netip.Addr) (*big.Int, error)       { return big.NewInt(0), nil }
func (h *zdHP) LCB(netip.Addr) (proto.BlockID, error)         { return h.lcb, nil }
func (h *zdHP) HasBlock(id proto.BlockID) (bool, error)       { return h.known[id], nil }
func (h *zdHP) LastIDs(id proto.BlockID, n int) ([]proto.BlockID, error) {
	return []proto.BlockID{id}, nil
}
func (h *zdHP) PutBlock(b *proto.Block, _ netip.Addr) error {
	h.puts = append(h.puts, b.BlockID())
	if h.fail {
		return errZd
	}
	return nil
}

type zdReq struct {
	ids  [][]proto.BlockID
	blks []proto.BlockID
}

func (f *zdReq) ID() netip.Addr                      { return netip.AddrFrom4([4]byte{8, 8, 8, 8}) }
func (f *zdReq) RequestBlockIDs(ids []proto.BlockID) { f.ids = append(f.ids, ids) }
func (f *zdReq) RequestBlock(id proto.BlockID)       { f.blks = append(f.blks, id) }

type zdRep struct{ ok, fail int }

func (f *zdRep) OK()   { f.ok++ }
func (f *zdRep) Fail() { f.fail++ }

func zdAttempt(ids ...byte) (*zdHP, *zdReq, *zdRep, *peerLoader, []proto.BlockID) {
	h := &zdHP{known: map[proto.BlockID]bool{zdID(0): true}, leash: zdID(0), lcb: zdID(0)}
	q, r := &zdReq{}, &zdRep{}
	pl := newPeerLoader(q, h, r)
	var l []proto.BlockID
	for _, i := range ids {
		l = append(l, zdID(i))
	}
	return h, q, r, pl, l
}

'''
LL='''
type zdPeer struct {
	hs  proto.Handshake
	ids [][]proto.BlockID
}

type zdPID struct{}

func (zdPID) String() string { return "" }

func (f *zdPeer) Direction() peer.Direction { return peer.Incoming }
func (f *zdPeer) Close() error              { return nil }
func (f *zdPeer) SendMessage(m proto.Message) {
	if x, ok := m.(*proto.GetBlockIdsMessage); ok {
		f.ids = append(f.ids, x.Blocks)
	}
}
func (f *zdPeer) ID() peer.ID                 { return zdPID{} }
func (f *zdPeer) Connection() conn.Connection { return nil }
func (f *zdPeer) Handshake() proto.Handshake  { return f.hs }
func (f *zdPeer) RemoteAddr() proto.TCPAddr   { return proto.TCPAddr{} }
func (f *zdPeer) Equal(o peer.Peer) bool      { return o == peer.Peer(f) }

// zdLoader has the connected peer a, on a fork of the chain of another peer and lagging.
func zdLoader(t *testing.T) (l *Loader, a netip.Addr, p *zdPeer) {
	dir := t.TempDir()
	reg, err := peers.NewRegistry('W', proto.TCPAddr{}, []proto.Version{proto.NewVersion(1, 5, 0)}, dir+"/p")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { _ = reg.Close() })
	g := proto.Block{BlockHeader: proto.BlockHeader{Version: 5, Timestamp: 1, ID: zdID(1), NxtConsensus: proto.NxtConsensus{BaseTarget: 100}}}
	lk, err := chains.NewLinkage(dir+"/c", 'W', g)
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(lk.Close)
	a = netip.AddrFrom4([4]byte{10, 0, 0, 1})
	o := netip.AddrFrom4([4]byte{10, 0, 0, 2})
	p = &zdPeer{hs: proto.Handshake{AppName: "wavesW", Version: proto.NewVersion(1, 5, 0), NodeName: "n"}}
	if _, err = reg.SuggestVersion(a); err != nil {
		t.Fatal(err)
	}
	if err = reg.RegisterPeer(a, p, p.hs); err != nil {
		t.Fatal(err)
	}
	put := func(n, par byte, from netip.Addr) {
		b := zdBlock(n)
		b.Parent, b.Timestamp, b.BaseTarget = zdID(par), uint64(n), 100
		if e := lk.PutBlock(b, from); e != nil {
			t.Fatal(e)
		}
	}
	put(2, 1, o)
	put(3, 2, o)
	put(4, 3, o)
	put(5, 2, a)
	s, err := lk.LeashScore(a)
	if err != nil {
		t.Fatal(err)
	}
	if err = reg.UpdatePeerScore(a, new(big.Int).Add(s, big.NewInt(5))); err != nil {
		t.Fatal(err)
	}
	return NewLoader(reg, lk, nil, nil), a, p
}

'''
USE='''
func TestSeedUse(*testing.T) { _ = time.Now }
'''
