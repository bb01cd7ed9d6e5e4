prop='C22'; pkg='chains'
needs='a storage failure while a block is looked up'
breaks='the snapshot is not released if the lookup fails'
edits=[('chains/storage.go','''	defer sn.Release()
	_, err = s.getNumOfBlockID(sn, id)
	if err != nil {
		if errors.Is(err, leveldb.ErrNotFound) {
			return false, nil
		}
		return false, fmt.Errorf("failed to check block existence: %w", err)
	}
	return true, nil
''','''	_, err = s.getNumOfBlockID(sn, id)
	if err != nil && !errors.Is(err, leveldb.ErrNotFound) {
		return false, fmt.Errorf("failed to check block existence: %w", err)
	}
	sn.Release()
	return err == nil, nil
''')]
demo=CH+'''
func TestSeedDemo(t *testing.T) {
	l := zdLinkage(t)
	it := l.st.db.NewIterator(nil, nil)
	var ks [][]byte
	for it.Next() {
		ks = append(ks, append([]byte{}, it.Key()...))
	}
	it.Release()
	for _, k := range ks {
		if err := l.st.db.Put(k, []byte{1, 2, 3}, nil); err != nil {
			t.Fatal(err)
		}
	}
	_, _ = l.HasBlock(zdID("genesis"))
	if v, err := l.st.db.GetProperty("leveldb.alivesnaps"); err != nil || v != "0" {
		t.Fatalf("%s snapshots are alive", v)
	}
}
'''
