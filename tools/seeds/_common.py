CH='''package chains

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"net/netip"
	"testing"

	"github.com/wavesplatform/gowaves/pkg/crypto"
	"github.com/wavesplatform/gowaves/pkg/proto"
)

var _ = big.NewInt
var _ = fmt.Sprint
var _ = netip.MustParseAddr

func zdID(s string) proto.BlockID { return proto.NewBlockIDFromDigest(crypto.Digest(sha256.Sum256([]byte(s)))) }

func zdBlock(name string, parent proto.BlockID, bt uint64) *proto.Block {
	b := &proto.Block{}
	b.Version = 5
	b.ID = zdID(name)
	b.Parent = parent
	b.BaseTarget = bt
	b.Timestamp = 1700000000000
	pk := sha256.Sum256([]byte("generator"))
	copy(b.GeneratorPublicKey[:], pk[:])
	return b
}

func zdLinkage(t *testing.T) *Linkage {
	g := zdBlock("genesis", proto.BlockID{}, 100)
	l, err := NewLinkage(t.TempDir(), proto.TestNetScheme, *g)
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(l.Close)
	return l
}

func zdPut(t *testing.T, l *Linkage, b *proto.Block, a string) {
	t.Helper()
	if err := l.PutBlock(b, netip.MustParseAddr(a)); err != nil {
		t.Fatal(err)
	}
}

// zdChain puts n blocks named p1..pn over parent on behalf of the peer.
func zdChain(t *testing.T, l *Linkage, p string, parent proto.BlockID, n int, bt uint64, a string) proto.BlockID {
	t.Helper()
	for i := 1; i <= n; i++ {
		b := zdBlock(fmt.Sprintf("%s%d", p, i), parent, bt)
		zdPut(t, l, b, a)
		parent = b.BlockID()
	}
	return parent
}

'''
