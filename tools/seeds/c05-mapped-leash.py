prop='C05'; pkg='chains'
needs='one peer at an IPv4 address and another at the IPv4-mapped IPv6 address of the same numeric value'
breaks='the leash key unmaps the address, so the two peers share one leash record'
edits=[('chains/storage_entities.go','''	s := addr.BitLen() / bitsInByte
	buf := make([]byte, prefixSize+s)
	buf[0] = leashPrefix
	copy(buf[prefixSize:], addr.AsSlice())''','''	ip := addr.Unmap()
	s := ip.BitLen() / bitsInByte
	buf := make([]byte, prefixSize+s)
	buf[0] = leashPrefix
	copy(buf[prefixSize:], ip.AsSlice())''')]
demo=CH+'''func TestSeedDemo(t *testing.T) {
	l := zdLinkage(t)
	a := zdChain(t, l, "a", l.genesis, 2, 100, "1.2.3.4")
	zdChain(t, l, "b", l.genesis, 3, 100, "::ffff:1.2.3.4")
	id, err := l.Leash(netip.MustParseAddr("1.2.3.4"))
	if err != nil || id != a {
		t.Fatalf("the leash of 1.2.3.4 changed: %v %v", id, err)
	}
}
'''
