exec(open('/verif/tools/seeds/_loading.py').read())
prop='C12'; pkg='loading'
needs='a timeout after a later block arrived but an earlier one did not'
breaks='blocks behind a gap are applied on timeout'
edits=[('loading/peer_loader.go','''			break // Stop on first not received block.
''','''			continue // Skip not received block.
''')]
demo=LH+'''
func TestSeedDemo(t *testing.T) {
	h, _, r, pl, ids := zdAttempt(0, 1, 2, 3)
	if pl.start() != nil || pl.processIDs(ids) != nil || pl.processBlock(zdBlock(1)) != nil || pl.processBlock(zdBlock(3)) != nil {
		t.Fatal("start")
	}
	_ = pl.processTick(time.Now().Add(time.Minute))
	if len(h.puts) != 1 || h.puts[0] != zdID(1) || r.fail != 1 || r.ok != 0 {
		t.Fatalf("applied %v, %d failures", h.puts, r.fail)
	}
}
'''
