exec(open('/verif/tools/seeds/_peers.py').read())
prop='C17'; pkg='peers'
needs='a listing of two or more peers with known scores'
breaks='decoding reuses one value, so every listed peer shares the score of the last record'
edits=[('peers/storage.go', '\tr := make([]Peer, 0)\n\tfor it.Next() {', '\tr := make([]Peer, 0)\n\tv := new(value)\n\tfor it.Next() {'), ('peers/storage.go', '\t\tv := new(value)\n\t\tif umErr := cbor.Unmarshal(it.Value(), v)', '\t\tif umErr := cbor.Unmarshal(it.Value(), v)')]
demo=PH+'''func TestSeedDemo(t *testing.T) {
	r := zdRegistry(t, proto.NewVersion(1, 5, 0))
	for i := byte(1); i < 4; i++ {
		p := Peer{AddressPort: netip.AddrPortFrom(netip.AddrFrom4([4]byte{8, 8, 8, i}), 6868), Score: big.NewInt(int64(i))}
		if err := r.storage.putPeer(p); err != nil {
			t.Fatal(err)
		}
	}
	ps, err := r.Peers()
	if err != nil {
		t.Fatal(err)
	}
	for _, p := range ps {
		if b := p.AddressPort.Addr().As4(); p.Score == nil || p.Score.Int64() != int64(b[3]) {
			t.Fatalf("score of %s is %s", p.AddressPort, p.Score)
		}
	}
}
'''
