exec(open('/verif/tools/seeds/_peers.py').read())
prop='C15'; pkg='peers'
needs='a peer whose record cannot be stored (a node name that is not valid UTF-8)'
breaks='the refused and closed connection stays in the list of active connections'
edits=[('peers/registry.go', '\tport, err := checkPort(addr, np, handshake)\n\tif err != nil {\n\t\treturn err\n\t}\n', '\tport, err := checkPort(addr, np, handshake)\n\tif err != nil {\n\t\treturn err\n\t}\n\tr.connections[addr] = np\n'), ('peers/registry.go', '\t\treturn fmt.Errorf("failed to register peer: %w", putErr)\n\t}\n\tr.connections[addr] = np\n\treturn nil\n', '\t\treturn fmt.Errorf("failed to register peer: %w", putErr)\n\t}\n\treturn nil\n')]
demo=PH+'''func TestSeedDemo(t *testing.T) {
	v := proto.NewVersion(1, 5, 0)
	r := zdRegistry(t, v)
	a := netip.MustParseAddr("8.8.8.8")
	if err := r.storage.putPeer(Peer{AddressPort: netip.AddrPortFrom(a, 1), Version: v}); err != nil {
		t.Fatal(err)
	}
	fp := &zdPeer{hs: proto.Handshake{AppName: "wavesW", NodeName: "bad\\xff", Version: v}}
	if err := r.RegisterPeer(a, fp, fp.hs); err == nil {
		t.Fatal("registered")
	}
	if cs, err := r.Connections(); err != nil || len(cs) != 0 {
		t.Fatalf("a refused connection is listed as active: %d %v", len(cs), err)
	}
}
'''
