exec(open('/verif/tools/seeds/_peers.py').read())
prop='C18'; pkg='peers'
needs='configured versions with the same minor but different major numbers'
breaks='the next version is found by the minor number only, so some configured versions are never tried'
edits=[('peers/registry.go', '\t\tif v.Major() == x.Major() && v.Minor() == x.Minor() {', '\t\tif v.Minor() == x.Minor() {')]
demo=PH+'''func TestSeedDemo(t *testing.T) {
	vs := []proto.Version{proto.NewVersion(2, 1, 0), proto.NewVersion(1, 2, 0), proto.NewVersion(1, 1, 0), proto.NewVersion(1, 0, 0)}
	r := zdRegistry(t, vs...)
	for i := 0; i < 9; i++ {
		v, err := r.SuggestVersion(netip.MustParseAddr("8.8.8.8"))
		if err != nil || v != vs[i%4] {
			t.Fatalf("attempt %d: %s %v", i, v, err)
		}
	}
}
'''
