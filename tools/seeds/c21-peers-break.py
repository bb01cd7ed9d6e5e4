exec(open('/verif/tools/seeds/_main.py').read())
prop='C21'; pkg='.'
needs='a list of peers with an address that cannot be parsed before a good one'
breaks='the addresses after a bad one are lost'
edits=[('distributor.go','			zap.S().Debugf("[DTR] Failed to parse peer address: %v", err)\n			continue','			zap.S().Debugf("[DTR] Failed to parse peer address: %v", err)\n			break')]
demo=MH+'''func TestSeedDemo(t *testing.T) {
	d, _ := zdDistributor(t)
	d.handleMessage(peer.ProtoMessage{ID: zdPeerAt("45.1.1.1:6868"), Message: &proto.PeersMessage{Peers: []proto.PeerInfo{{Addr: net.IP{1, 2}, Port: 1}, {Addr: net.IPv4(46, 1, 1, 1), Port: 6868}}}})
	if _, err := d.registry.Peer(netip.MustParseAddr("46.1.1.1")); err != nil {
		t.Fatal(err)
	}
}
'''
