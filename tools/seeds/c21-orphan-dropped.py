exec(open('/verif/tools/seeds/_main.py').read())
prop='C21'; pkg='.'
needs='a block whose parent is not stored'
breaks='such a block is not handed over to the loader'
edits=[('distributor.go','!errors.Is(putErr, chains.ErrParentNotFound)','!errors.Is(putErr, chains.ErrRefNotFound)')]
demo=MH+'''func TestSeedDemo(t *testing.T) {
	d, gen := zdDistributor(t)
	id1, _ := zdBlock(t, gen, 1700000000000)
	id2, m := zdBlock(t, id1, 1700000001000)
	p := zdPeerAt("45.1.1.1:6868")
	d.handleMessage(peer.ProtoMessage{ID: p, Message: m})
	if len(d.blockCh) != 1 {
		t.Fatal("not handed over")
	}
	if b := <-d.blockCh; b.Peer != p.ap.Addr() || b.Block.BlockID() != id2 {
		t.Fatalf("%v", b)
	}
}
'''
