package peers

import (
	"math/big"
	"net"
	"testing"
	"time"

	"github.com/wavesplatform/gowaves/pkg/proto"
)

type lockOp struct {
	name string
	f    func()
}

func (w *world) lockOps() []lockOp {
	a := w.any()
	fp := &fakePeer{hs: proto.Handshake{AppName: "wavesW", NodeName: "n", Version: w.vs[0]}}
	return []lockOp{
		{"RegisterPeer", func() { _ = w.r.RegisterPeer(a, fp, fp.hs) }},
		{"UnregisterPeer", func() { _ = w.r.UnregisterPeer(a) }},
		{"UpdatePeerScore", func() { _ = w.r.UpdatePeerScore(a, big.NewInt(4)) }},
		{"MarkAsHostile", func() {
			_ = w.r.MarkAsHostile(&net.TCPAddr{IP: net.IPv4(9, 8, 7, 6), Port: 5})
		}},
		{"Connections", func() { _, _ = w.r.Connections() }},
		{"AppendAddresses", func() {
			w.r.AppendAddresses([]*net.TCPAddr{{IP: net.IPv4(9, 8, 7, byte(w.rng.Intn(256))), Port: 5}})
		}},
		{"Peer", func() { _, _ = w.r.Peer(a) }},
		{"Peers", func() { _, _ = w.r.Peers() }},
		{"FriendlyPeers", func() { _, _ = w.r.FriendlyPeers() }},
		{"Addresses", func() { _, _ = w.r.Addresses() }},
		{"TakeAvailableAddresses", func() { _, _ = w.r.TakeAvailableAddresses() }},
		{"Broadcast", func() { w.r.Broadcast(&proto.GetPeersMessage{}) }},
		{"SuggestVersion", func() { _, _ = w.r.SuggestVersion(a) }},
	}
}

func (w *world) runOp(o lockOp, held bool) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() { _ = recover() }()
		o.f()
	}()
	if held {
		select {
		case <-done:
			w.bad("C22", o.name+" does not take the lock", "it completes while the registry is locked")
		case <-time.After(3 * time.Millisecond):
		}
		w.r.mu.Unlock()
	}
	select {
	case <-done:
	case <-time.After(15 * time.Second):
		w.bad("C22", o.name+" does not return", "it takes a lock it already holds, or nobody releases the lock")
		return false
	}
	if !w.r.mu.TryLock() {
		w.bad("C22", "the registry stays locked", "after %s", o.name)
		return false
	}
	w.r.mu.Unlock()
	for _, p := range []string{"alivesnaps", "aliveiters"} {
		v, err := w.r.storage.db.GetProperty("leveldb." + p)
		if err == nil && !w.chk(v == "0", "C22", "storage snapshots or iterators are not released", "%s=%s after %s", p, v, o.name) {
			return false
		}
	}
	return true
}

func (w *world) spoil() {
	it := w.r.storage.db.NewIterator(nil, nil)
	var ks [][]byte
	for it.Next() {
		ks = append(ks, append([]byte{}, it.Key()...))
	}
	it.Release()
	if len(ks) == 0 {
		return
	}
	k := ks[w.rng.Intn(len(ks))]
	w.log("the record %x is overwritten", k)
	_ = w.r.storage.db.Put(k, [][]byte{{}, {0xff, 1}, make([]byte, 7)}[w.rng.Intn(3)], nil)
}

func TestVerifLocks(t *testing.T) {
	r := newVrep()
	defer r.done()
	for r.more() {
		w := newWorld(r, t)
		r.cases++
		if w == nil {
			return
		}
		for i := r.rng.Intn(25); i > 0 && !w.dead; i-- {
			w.step()
		}
		if w.dead {
			w.drop()
			continue
		}
		if r.cases <= 3 {
			for _, o := range w.lockOps() {
				w.r.mu.Lock()
				if !w.runOp(o, true) {
					return
				}
			}
		}
		for k := 0; k < 4; k++ {
			if k > 0 {
				w.spoil()
			}
			ops := w.lockOps()
			r.rng.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
			for _, o := range ops {
				if !w.runOp(o, false) {
					return
				}
			}
		}
		w.log("the database fails")
		_ = w.r.Close()
		for _, o := range w.lockOps() {
			if !w.runOp(o, false) {
				return
			}
		}
		w.drop()
	}
}
