prop='C04'; pkg='chains'
needs='more than 255 forks in one history'
breaks='the range of listed heads ends at 255, so later forks are never listed'
edits=[('chains/storage.go','Limit: numKeyBytes(headToBlockPrefix, math.MaxUint64)','Limit: numKeyBytes(headToBlockPrefix, math.MaxUint8)')]
demo=CH+'''func TestSeedDemo(t *testing.T) {
	l := zdLinkage(t)
	for i := range 300 {
		zdPut(t, l, zdBlock(fmt.Sprint("f", i), l.genesis, 100), "1.2.3.4")
	}
	hs, err := l.Heads()
	if err != nil || len(hs) != 300 {
		t.Fatalf("%d heads of 300, %v", len(hs), err)
	}
}
'''
