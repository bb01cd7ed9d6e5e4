prop='C22'; pkg='chains'
needs='a reader at work while a leash is moved'
breaks='a leash is moved under a shared lock'
edits=[('chains/linkage.go','''	l.mu.Lock()
	defer l.mu.Unlock()

	return l.st.updateLeash(addr, id)
''','''	l.mu.RLock()
	defer l.mu.RUnlock()

	return l.st.updateLeash(addr, id)
''')]
demo=CH.replace('"testing"\n','"testing"\n\t"time"\n')+'''
func TestSeedDemo(t *testing.T) {
	l := zdLinkage(t)
	l.mu.RLock()
	done := make(chan struct{})
	go func() {
		_ = l.MoveLeash(zdID("genesis"), netip.MustParseAddr("1.2.3.4"))
		close(done)
	}()
	select {
	case <-done:
		t.Error("the leash moved while the store is being read")
	case <-time.After(500 * time.Millisecond):
	}
	l.mu.RUnlock()
	<-done
}
'''
