prop='C08'; pkg='chains'
needs='at least three forks of equal score with different numbers of peers, visited in an unlucky map order'
breaks='the number of peers to beat is not updated on a tie, so the longest fork may be one with fewer peers'
edits=[('chains/linkage.go','''			return proto.BlockID{}, fmt.Errorf("failed to get last common block of '%s': %w", peer.String(), blErr)
		}
		switch score.Cmp(b.Score) {
		case 0:
			if len(v) > peers {
				score = b.Score
				peers = len(v)
				longest = k
			}
''','''			return proto.BlockID{}, fmt.Errorf("failed to get last common block of '%s': %w", peer.String(), blErr)
		}
		switch score.Cmp(b.Score) {
		case 0:
			if len(v) > peers {
				score = b.Score
				longest = k
			}
''')]
demo=CH+'''func TestSeedDemo(t *testing.T) {
	l := zdLinkage(t)
	a := zdChain(t, l, "a", l.genesis, 3, 100, "1.0.0.1")
	zdChain(t, l, "b", a, 2, 100, "1.0.0.1")
	c := zdChain(t, l, "c", a, 2, 100, "1.0.2.1")
	d := zdChain(t, l, "d", a, 2, 100, "1.0.1.1")
	for i := 2; i <= 3; i++ {
		_ = l.MoveLeash(c, netip.MustParseAddr(fmt.Sprint("1.0.2.", i)))
	}
	for i := 2; i <= 5; i++ {
		_ = l.MoveLeash(d, netip.MustParseAddr(fmt.Sprint("1.0.1.", i)))
	}
	for range 300 {
		id, err := l.LCB(netip.MustParseAddr("1.0.1.1"))
		if err != nil || id != d {
			t.Fatalf("last common block of a peer on the longest fork is %s %v", id.String(), err)
		}
	}
}
'''
