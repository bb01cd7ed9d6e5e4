package chains

import (
	"errors"
	"testing"
	"time"

	"github.com/syndtr/goleveldb/leveldb"
	"github.com/wavesplatform/gowaves/pkg/crypto"
	"github.com/wavesplatform/gowaves/pkg/proto"
)

type lockOp struct {
	name  string
	write bool
	f     func()
}

func (w *world) lockOps() []lockOp {
	a, b := vAddrs[0], w.addr()
	id := w.m.bs[w.pickBlock()].id
	if w.rng.Intn(6) == 0 {
		id = randID(w.rng)
	}
	var pk crypto.PublicKey
	nb := &proto.Block{BlockHeader: proto.BlockHeader{Version: 5, Timestamp: randTS(w.rng), ID: randID(w.rng), Parent: id, GeneratorPublicKey: pk, NxtConsensus: proto.NxtConsensus{BaseTarget: 100}}}
	return []lockOp{
		{"PutBlock", true, func() { _ = w.lk.PutBlock(nb, a) }},
		{"PutMicroBlock", true, func() {
			_ = w.lk.PutMicroBlock(&proto.MicroBlockInv{TotalBlockID: randID(w.rng), Reference: id}, a)
		}},
		{"MoveLeash", true, func() { _ = w.lk.MoveLeash(id, a) }},
		{"HasLeash", false, func() { _, _ = w.lk.HasLeash(b) }},
		{"Leash", false, func() { _, _ = w.lk.Leash(b) }},
		{"LeashScore", false, func() { _, _ = w.lk.LeashScore(b) }},
		{"Heads", false, func() { _, _ = w.lk.Heads() }},
		{"ActiveHeads", false, func() { _, _ = w.lk.ActiveHeads() }},
		{"LastIDs", false, func() { _, _ = w.lk.LastIDs(id, 1+w.rng.Intn(5)) }},
		{"HasBlock", false, func() { _, _ = w.lk.HasBlock(id) }},
		{"Block", false, func() { _, _ = w.lk.Block(id) }},
		{"Leashes", false, func() { _, _ = w.lk.Leashes() }},
		{"LogInitialStats", false, func() { w.lk.LogInitialStats() }},
		{"Stats", false, func() { _, _ = w.lk.Stats() }},
		{"LCB", false, func() { _, _ = w.lk.LCB(b) }},
		{"Forks", false, func() { _, _ = w.lk.Forks(nil) }},
		{"Fork", false, func() { _, _ = w.lk.Fork(b) }},
		{"ForkGenerators", false, func() { _, _ = w.lk.ForkGenerators(id, 1+w.rng.Intn(5)) }},
	}
}

// runOp runs the operation; false if it does not return.
func (w *world) runOp(o lockOp, held string) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() { _ = recover() }()
		o.f()
	}()
	if held != "" {
		select {
		case <-done:
			w.bad("C22", o.name+" does not take the lock", "it completes while the store is locked %s", held)
		case <-time.After(3 * time.Millisecond):
		}
		if held == "exclusively" {
			w.lk.mu.Unlock()
		} else {
			w.lk.mu.RUnlock()
		}
	}
	select {
	case <-done:
	case <-time.After(15 * time.Second):
		w.bad("C22", o.name+" does not return", "it takes a lock it already holds, or nobody releases the lock")
		return false
	}
	if !w.lk.mu.TryLock() {
		w.bad("C22", "lock still held", "after %s", o.name)
		return false
	}
	w.lk.mu.Unlock()
	for _, p := range []string{"alivesnaps", "aliveiters"} {
		v, err := w.lk.st.db.GetProperty("leveldb." + p)
		if err == nil && !w.chk(v == "0", "C22", "storage snapshots or iterators are not released", "%s=%s after %s", p, v, o.name) {
			return false
		}
	}
	return true
}

// spoil damages the stored data.
func (w *world) spoil() {
	it := w.lk.st.db.NewIterator(nil, nil)
	var ks [][]byte
	for it.Next() {
		ks = append(ks, append([]byte{}, it.Key()...))
	}
	it.Release()
	if len(ks) == 0 {
		return
	}
	k := ks[w.rng.Intn(len(ks))]
	if w.rng.Intn(2) == 0 {
		w.log("the record %x is lost", k)
		_ = w.lk.st.db.Delete(k, nil)
		return
	}
	v := [][]byte{{}, {0xff, 1}, make([]byte, 7), make([]byte, 300)}[w.rng.Intn(4)]
	w.log("the record %x is overwritten", k)
	_ = w.lk.st.db.Put(k, v, nil)
}

func TestVerifLocks(t *testing.T) {
	r := newVrep()
	defer r.done()
	for r.more() {
		w := newWorld(r)
		r.cases++
		if w == nil {
			return
		}
		ok := true
		for i := r.rng.Intn(25); i > 0 && ok; i-- {
			ok = w.putRandom(0)
		}
		if !ok {
			w.lk.Close()
			continue
		}
		ops := w.lockOps()
		if r.cases <= 3 {
			for _, o := range ops {
				w.lk.mu.Lock()
				if ok = w.runOp(o, "exclusively"); !ok {
					return
				}
				if o.write {
					w.lk.mu.RLock()
					if ok = w.runOp(o, "for reading"); !ok {
						return
					}
				}
			}
		}
		for k := 0; k < 4; k++ {
			switch k {
			case 1, 2:
				w.spoil()
			case 3:
				if r.rng.Intn(2) == 0 {
					w.st.failIn = 1
					w.log("the next write fails")
				} else {
					w.spoil()
				}
			}
			ops = w.lockOps()
			r.rng.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
			for _, o := range ops {
				if !w.runOp(o, "") {
					return
				}
			}
		}
		w.lk.Close()
		for _, o := range w.lockOps() {
			done := make(chan struct{})
			go func() { defer close(done); defer func() { _ = recover() }(); o.f() }()
			select {
			case <-done:
			case <-time.After(15 * time.Second):
				r.bad("C22", o.name+" does not return", "on a closed database")
				return
			}
			w.locksFree(o.name + " on a closed database")
		}
	}
	_, _ = errors.New, leveldb.ErrNotFound
}
