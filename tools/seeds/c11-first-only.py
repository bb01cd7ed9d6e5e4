exec(open('/verif/tools/seeds/_loading.py').read())
prop='C11'; pkg='loading'
needs='an id list with two known ids behind the leash'
breaks='the leash stops at the first known id'
edits=[('loading/peer_loader.go','''			if id != leash {
''','''			if i == 0 && id != leash {
''')]
demo=LH+USE+'''
func TestSeedDemo(t *testing.T) {
	h, q, _, pl, ids := zdAttempt(1, 2, 3)
	h.known[zdID(1)], h.known[zdID(2)] = true, true
	if pl.start() != nil || pl.processIDs(ids) != nil {
		t.Fatal("start")
	}
	if len(q.blks) != 1 || q.blks[0] != zdID(3) || h.leash != zdID(2) {
		t.Fatalf("requested %d, leash %s", len(q.blks), h.leash)
	}
}
'''
