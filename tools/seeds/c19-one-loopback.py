exec(open('/verif/tools/seeds/_peers.py').read())
prop='C19'; pkg='peers'
needs='an announced loopback address other than 127.0.0.1'
breaks='loopback addresses are stored as peers and counted'
edits=[('peers/registry.go', '\t\tif ap.Addr().IsLoopback() {\n\t\t\tzap', '\t\tif ap.Addr().Compare(netip.AddrFrom4([4]byte{127, 0, 0, 1})) == 0 {\n\t\t\tzap')]
demo=PH+'''func TestSeedDemo(t *testing.T) {
	r := zdRegistry(t, proto.NewVersion(1, 5, 0))
	n := r.AppendAddresses([]*net.TCPAddr{{IP: net.IPv4(127, 1, 2, 3), Port: 6868}})
	if ps, err := r.Peers(); err != nil || n != 0 || len(ps) != 0 {
		t.Fatalf("added %d, stored %d, %v", n, len(ps), err)
	}
}
'''
