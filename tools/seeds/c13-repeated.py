exec(open('/verif/tools/seeds/_loading.py').read())
prop='C13'; pkg='loading'
needs='a queue with repeated ids'
breaks='the queue drops repeated ids'
edits=[('loading/queue.go','''	q := make([]item, len(ids))
	for i, id := range ids {
		q[i] = item{requested: id}
	}
	return queue{q: q}
''','''	q := make([]item, 0, len(ids))
	for i, id := range ids {
		if i > 0 && id == ids[i-1] {
			continue
		}
		q = append(q, item{requested: id})
	}
	return queue{q: q}
''')]
demo=LH+USE+'''
func TestSeedDemo(t *testing.T) {
	_, _, _, _, ids := zdAttempt(1, 1, 2)
	q := newQueue(ids)
	if len(q.q) != 3 {
		t.Fatalf("%d slots", len(q.q))
	}
}
'''
