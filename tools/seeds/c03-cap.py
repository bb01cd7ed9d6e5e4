prop='C03'; pkg='chains'
needs='a request for more than 1000 blocks of a chain that is longer than that'
breaks='the block listing silently stops after 1000 blocks, so generator statistics miss the rest'
edits=[('chains/storage.go','''	r := make([]Block, 0)
	i := 0
	for i < count {''','''	r := make([]Block, 0)
	i := 0
	for i < count && i < 1000 {'''.replace(' && i < 1000',' && len(r) < 1000'))] if False else [('chains/storage.go','''		bb := Block{
			ID:        bID,''','''		if i >= 1000 {
			break // Enough for any fork.
		}
		bb := Block{
			ID:        bID,''')]
demo=CH+'''func TestSeedDemo(t *testing.T) {
	l := zdLinkage(t)
	h := zdChain(t, l, "a", l.genesis, 1200, 100, "1.2.3.4")
	gs, err := l.ForkGenerators(h, 1100)
	if err != nil {
		t.Fatal(err)
	}
	n := 0
	for _, g := range gs {
		n += g.Blocks
	}
	if n != 1100 {
		t.Fatalf("%d blocks counted", n)
	}
}
'''
