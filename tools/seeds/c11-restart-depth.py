exec(open('/verif/tools/seeds/_loading.py').read())
prop='C11'; pkg='loading'
needs='a restart of a peer that has a leash other than its last common block'
breaks='a forced restart asks from the leash again'
edits=[('loading/peer_loader.go','''	lastIDs, err := pl.hp.LastIDs(lca, idsBatchSize)
''','''	if leash, lErr := pl.hp.Leash(pl.peer.ID()); lErr == nil {
		lca = leash
	}
	lastIDs, err := pl.hp.LastIDs(lca, idsBatchSize)
''')]
demo=LH+USE+'''
func TestSeedDemo(t *testing.T) {
	h, q, _, pl, _ := zdAttempt()
	h.leash = zdID(9)
	if pl.restart() != nil || len(q.ids) != 1 || q.ids[0][0] != zdID(0) {
		t.Fatal("restart")
	}
}
'''
