PH='package peers\n\nimport (\n\t"math/big"\n\t"net"\n\t"net/netip"\n\t"testing"\n\t"time"\n\n\t"github.com/wavesplatform/gowaves/pkg/p2p/conn"\n\t"github.com/wavesplatform/gowaves/pkg/p2p/peer"\n\t"github.com/wavesplatform/gowaves/pkg/proto"\n)\n\nvar _ = big.NewInt\nvar _ net.IP\nvar _ = netip.MustParseAddr\nvar _ time.Time\n\ntype zdPeer struct {\n\ths     proto.Handshake\n\tclosed int\n}\n\nfunc (f *zdPeer) Direction() peer.Direction   { return peer.Incoming }\nfunc (f *zdPeer) Close() error                { f.closed++; return nil }\nfunc (f *zdPeer) SendMessage(proto.Message)   {}\nfunc (f *zdPeer) ID() peer.ID                 { return nil }\nfunc (f *zdPeer) Connection() conn.Connection { return nil }\nfunc (f *zdPeer) Handshake() proto.Handshake  { return f.hs }\nfunc (f *zdPeer) RemoteAddr() proto.TCPAddr   { return proto.TCPAddr{} }\nfunc (f *zdPeer) Equal(o peer.Peer) bool      { return o == peer.Peer(f) }\n\nfunc zdRegistry(t *testing.T, vs ...proto.Version) *Registry {\n\tr, err := NewRegistry(\'W\', proto.TCPAddr{}, vs, t.TempDir())\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tt.Cleanup(func() { _ = r.Close() })\n\treturn r\n}\n\n'
