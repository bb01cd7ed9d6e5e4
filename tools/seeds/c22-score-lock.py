exec(open('/verif/tools/seeds/_peers.py').read())
prop='C22'; pkg='peers'
needs='a storage failure while a score is updated'
breaks='the registry stays locked after a failed score update'
edits=[('peers/registry.go','''	r.mu.Lock()
	defer r.mu.Unlock()

	p, err := r.storage.peer(addr)
	if err != nil {
		return fmt.Errorf("failed to update peer score: %w", err)
	}
''','''	r.mu.Lock()
	p, err := r.storage.peer(addr)
	if err != nil {
		return fmt.Errorf("failed to update peer score: %w", err)
	}
	defer r.mu.Unlock()
''')]
demo=PH+'''func TestSeedDemo(t *testing.T) {
	r := zdRegistry(t, proto.NewVersion(1, 5, 0))
	_ = r.UpdatePeerScore(netip.MustParseAddr("1.2.3.4"), big.NewInt(1))
	if !r.mu.TryLock() {
		t.Fatal("the registry stays locked")
	}
	r.mu.Unlock()
}
'''
