exec(open('/verif/tools/seeds/_loading.py').read())
prop='C14'; pkg='loading'
needs='an empty id list from the peer being loaded'
breaks='an empty id list completes the attempt'
edits=[('loading/loader.go','''	if len(p.IDs) == 0 {
		return // Ignore empty IDs.
	}
''','')]
demo=LH+LL+USE+'''
func TestSeedDemo(t *testing.T) {
	l, a, _ := zdLoader(t)
	l.sync()
	if l.pl == nil {
		t.Fatal("not started")
	}
	l.handleIDs(IDsPackage{Peer: a})
	if l.pl == nil || l.pl.sm.MustState() != stateWaitingForIDs || l.prevDiff != nil {
		t.Fatal("an empty id list has an effect")
	}
}
'''
