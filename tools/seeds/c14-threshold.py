exec(open('/verif/tools/seeds/_loading.py').read())
prop='C14'; pkg='loading'
needs='ten failures in a row'
breaks='a restart happens one failure too late'
edits=[('loading/loader.go','l.fc.count(l.pl.peer.ID()) >= restartThreshold','l.fc.count(l.pl.peer.ID()) > restartThreshold')]
demo=LH+LL+'''
func TestSeedDemo(t *testing.T) {
	l, _, p := zdLoader(t)
	for i := 0; i < 11; i++ {
		p.ids = nil
		l.sync()
		if l.pl == nil || len(p.ids) != 1 {
			t.Fatal("not started")
		}
		last := p.ids[0][len(p.ids[0])-1]
		if first := p.ids[0][0]; last != zdID(5) && first != zdID(5) != (i == 10) {
			t.Fatalf("attempt %d asks from %s", i, last)
		}
		l.pl.timestamp = time.Now().Add(-time.Minute)
		l.tick()
	}
}
'''
