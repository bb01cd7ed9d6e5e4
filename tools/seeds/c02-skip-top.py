prop='C02'; pkg='chains'
needs='two long branches of equal height whose common ancestor is more than half of the way down to genesis'
breaks='the search for the first common ancestor starts one level too low, so distant ancestors are out of reach and a block of one branch is reported'
edits=[('chains/storage.go','''	for i := len(farthest.Parents) - 1; i >= 0; i-- {
''','''	for i := max(len(farthest.Parents)-2, 0); i >= 0; i-- {
''')]
demo=CH+'''func TestSeedDemo(t *testing.T) {
	for d := 1; d <= 20; d++ {
		for n := 1; n <= 14; n++ {
			t.Run(fmt.Sprint(d, n), func(t *testing.T) {
				l := zdLinkage(t)
				base := zdChain(t, l, "base", l.genesis, d-1, 100, "1.2.3.4")
				a := zdChain(t, l, "a", base, n, 100, "1.2.3.4")
				b := zdChain(t, l, "b", base, n, 100, "1.2.3.5")
				if id, err := l.st.lca(a, b); err != nil || id != base {
					t.Fatalf("common ancestor of two branches of %d blocks from height %d is %s %v", n, d, id.String(), err)
				}
			})
		}
	}
}
'''
