prop='C01'; pkg='chains'
needs='a micro-block followed by a listing or common ancestor computation that starts at it'
breaks='the link of a micro-block points to the referenced block, not to its parent: the chain contains two blocks of the same height'
edits=[('chains/storage.go','''	if lnkErr := s.putNewLinkForBlock(sn, batch, n, inv.TotalBlockID, b.Height, parentID); lnkErr != nil {
		return fmt.Errorf("failed to put micro-block: %w", lnkErr)''','''	if len(parentID.Bytes()) == 0 {
		return fmt.Errorf("failed to put micro-block: %w", ErrParentNotFound)
	}
	if lnkErr := s.putNewLinkForBlock(sn, batch, n, inv.TotalBlockID, b.Height, inv.Reference); lnkErr != nil {
		return fmt.Errorf("failed to put micro-block: %w", lnkErr)''')]
demo=CH+'''func TestSeedDemo(t *testing.T) {
	l := zdLinkage(t)
	p := netip.MustParseAddr("1.2.3.4")
	a := zdChain(t, l, "a", l.genesis, 3, 100, "1.2.3.4")
	if err := l.PutMicroBlock(&proto.MicroBlockInv{TotalBlockID: zdID("m1"), Reference: a}, p); err != nil {
		t.Fatal(err)
	}
	ids, err := l.LastIDs(zdID("m1"), 10)
	want := []proto.BlockID{zdID("m1"), zdID("a2"), zdID("a1"), l.genesis}
	if err != nil || fmt.Sprint(ids) != fmt.Sprint(want) {
		t.Fatalf("chain of the micro-block: %v %v", ids, err)
	}
}
'''
