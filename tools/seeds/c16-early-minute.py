exec(open('/verif/tools/seeds/_peers.py').read())
prop='C16'; pkg='peers'
needs='a peer whose next attempt is less than a minute away'
breaks='the address is offered for dialling before its next attempt is due'
edits=[('peers/registry.go', '\t\tif p.NextAttempt.After(time.Now()) {', '\t\tif p.NextAttempt.Truncate(time.Minute).After(time.Now()) {')]
demo=PH+'''func TestSeedDemo(t *testing.T) {
	r := zdRegistry(t, proto.NewVersion(1, 5, 0))
	a := netip.MustParseAddr("8.8.8.8")
	for d := 50; d >= 10; d-- { // whatever the second of the minute is, one of them is before the full minute
		p := Peer{AddressPort: netip.AddrPortFrom(a, 6868), NextAttempt: time.Now().Add(time.Duration(d) * time.Second)}
		if err := r.storage.putPeer(p); err != nil {
			t.Fatal(err)
		}
		l, err := r.TakeAvailableAddresses()
		if err != nil || len(l) != 0 {
			t.Fatalf("%v offered %v before its time, %v", l, d, err)
		}
	}
}
'''
