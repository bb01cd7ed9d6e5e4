exec(open('/verif/tools/seeds/_loading.py').read())
prop='C12'; pkg='loading'
needs='an error while a complete attempt is being applied'
breaks='blocks behind a failed one are still applied and the attempt is reported as a success'
edits=[('loading/peer_loader.go','''				return fmt.Errorf("failed to append block '%s' for peer '%s': %w",
					it.received.BlockID(), pl.peer.ID(), err)
''','''				zap.S().Warnf("failed to append block '%s' for peer '%s': %v",
					it.received.BlockID(), pl.peer.ID(), err)
''')]
demo=LH+USE+'''
func TestSeedDemo(t *testing.T) {
	h, _, r, pl, ids := zdAttempt(0, 1, 2)
	if pl.start() != nil || pl.processIDs(ids) != nil {
		t.Fatal("start")
	}
	h.fail = true
	_ = pl.processBlock(zdBlock(1))
	_ = pl.processBlock(zdBlock(2))
	if r.ok != 0 || len(h.puts) != 1 {
		t.Fatalf("%d successes, applied %d", r.ok, len(h.puts))
	}
}
'''
