prop='C06'; pkg='chains'
needs='a micro-block announcement of an already stored block that names a reference nobody has'
breaks='the reference is checked before the block itself, so announcing a stored block again may be refused and the leash is not moved'
edits=[('chains/linkage.go','''	ok, err := l.st.hasBlock(inv.TotalBlockID)
	if err != nil {
		return err
	}
	if ok {
		if ulErr := l.st.updateLeash(addr, inv.TotalBlockID); ulErr != nil {
			return ulErr
		}
		return nil
	}
	hasRef, err := l.st.hasBlock(inv.Reference)
	if err != nil {
		return err
	}
	if !hasRef {
		return ErrRefNotFound
	}
''','''	hasRef, err := l.st.hasBlock(inv.Reference)
	if err != nil {
		return err
	}
	if !hasRef {
		return ErrRefNotFound
	}
	ok, err := l.st.hasBlock(inv.TotalBlockID)
	if err != nil {
		return err
	}
	if ok {
		if ulErr := l.st.updateLeash(addr, inv.TotalBlockID); ulErr != nil {
			return ulErr
		}
		return nil
	}
''')]
demo=CH+'''func TestSeedDemo(t *testing.T) {
	l := zdLinkage(t)
	b := zdChain(t, l, "a", l.genesis, 2, 100, "1.2.3.4")
	p := netip.MustParseAddr("5.6.7.8")
	inv := &proto.MicroBlockInv{TotalBlockID: b, Reference: zdID("nobody has this")}
	if err := l.PutMicroBlock(inv, p); err != nil {
		t.Fatalf("announcement of a stored block is refused: %v", err)
	}
	if id, err := l.Leash(p); err != nil || id != b {
		t.Fatalf("leash is %v %v", id, err)
	}
}
'''
