MH='''package main

import (
	"net"
	"net/netip"
	"path/filepath"
	"testing"

	"github.com/wavesplatform/gowaves/pkg/crypto"
	"github.com/wavesplatform/gowaves/pkg/p2p/conn"
	"github.com/wavesplatform/gowaves/pkg/p2p/peer"
	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/chains"
	"github.com/alexeykiselev/waves-fork-detector/loading"
	"github.com/alexeykiselev/waves-fork-detector/peers"
)

type zdPeer struct {
	ap   netip.AddrPort
	sent []proto.Message
	n    int
}

func (f *zdPeer) Direction() peer.Direction   { return peer.Incoming }
func (f *zdPeer) Close() error                { f.n++; return nil }
func (f *zdPeer) SendMessage(m proto.Message) { f.sent = append(f.sent, m) }
func (f *zdPeer) ID() peer.ID                 { return nil }
func (f *zdPeer) Connection() conn.Connection { return nil }
func (f *zdPeer) Handshake() proto.Handshake {
	return proto.Handshake{AppName: "wavesW", Version: proto.NewVersion(1, 5, 0), NodeName: "n", DeclaredAddr: proto.NewHandshakeTCPAddr(net.IPv4(45, 1, 1, 1), 6868)}
}
func (f *zdPeer) RemoteAddr() proto.TCPAddr {
	return proto.TCPAddr(net.TCPAddr{IP: f.ap.Addr().AsSlice(), Port: int(f.ap.Port())})
}
func (f *zdPeer) Equal(o peer.Peer) bool { return o == peer.Peer(f) }

func zdPeerAt(s string) *zdPeer { return &zdPeer{ap: netip.MustParseAddrPort(s)} }

var zdSK, zdPK, _ = crypto.GenerateKeyPair([]byte("seed"))

// zdDistributor gives a distributor with room for the packages, and the identifier of the genesis block.
func zdDistributor(t *testing.T) (*Distributor, proto.BlockID) {
	gen := proto.Block{BlockHeader: proto.BlockHeader{Version: 3, Timestamp: 1, GeneratorPublicKey: zdPK, NxtConsensus: proto.NxtConsensus{BaseTarget: 100}}}
	gen.BlockSignature[0] = 1
	gen.ID = proto.NewBlockIDFromSignature(gen.BlockSignature)
	lk, err := chains.NewLinkage(filepath.Join(t.TempDir(), "b"), 'W', gen)
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(lk.Close)
	reg, err := peers.NewRegistry('W', proto.TCPAddr{}, []proto.Version{proto.NewVersion(1, 5, 0)}, filepath.Join(t.TempDir(), "p"))
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { _ = reg.Close() })
	d := NewDistributor('W', lk, reg, peer.NewParent(false))
	d.idsCh = make(chan loading.IDsPackage, 16)
	d.blockCh = make(chan loading.BlockPackage, 16)
	return d, gen.ID
}

func zdBlock(t *testing.T, parent proto.BlockID, ts uint64) (proto.BlockID, *proto.PBBlockMessage) {
	b, err := proto.CreateBlock(proto.Transactions{}, ts, parent, zdPK, proto.NxtConsensus{BaseTarget: 100, GenSignature: make([]byte, crypto.DigestSize)}, proto.ProtobufBlockVersion, nil, -1, 'W')
	if err == nil {
		err = b.Sign('W', zdSK)
	}
	if err == nil {
		err = b.GenerateBlockID('W')
	}
	if err != nil {
		t.Fatal(err)
	}
	raw, err := b.MarshalToProtobuf('W')
	if err != nil {
		t.Fatal(err)
	}
	return b.BlockID(), &proto.PBBlockMessage{PBBlockBytes: raw}
}

'''
