exec(open('/verif/tools/seeds/_main.py').read())
prop='C21'; pkg='.'
needs='a second list of signatures while the first one is still being processed by the loader'
breaks='the ids of one peer are overwritten with those of another'
edits=[('distributor.go','	timer *kairos.Timer\n}','	timer *kairos.Timer\n\n	ids []proto.BlockID\n}'),
('distributor.go','''	ids := make([]proto.BlockID, len(signatures))
	for i, s := range signatures {
		ids[i] = proto.NewBlockIDFromSignature(s)
	}
''','''	ids := d.ids[:0]
	for _, s := range signatures {
		ids = append(ids, proto.NewBlockIDFromSignature(s))
	}
	d.ids = ids
''')]
demo=MH+'''func TestSeedDemo(t *testing.T) {
	d, _ := zdDistributor(t)
	var a, b crypto.Signature
	a[0], b[0] = 1, 2
	d.handleMessage(peer.ProtoMessage{ID: zdPeerAt("45.1.1.1:6868"), Message: &proto.SignaturesMessage{Signatures: []crypto.Signature{a}}})
	p1 := <-d.IDsCh()
	d.handleMessage(peer.ProtoMessage{ID: zdPeerAt("45.1.1.2:6868"), Message: &proto.SignaturesMessage{Signatures: []crypto.Signature{b}}})
	p2 := <-d.IDsCh()
	if p1.IDs[0] != proto.NewBlockIDFromSignature(a) || p2.IDs[0] != proto.NewBlockIDFromSignature(b) {
		t.Fatalf("%v, %v", p1, p2)
	}
}
'''
