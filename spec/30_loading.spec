package loading

// ---- the download queue ----
macro good(it) = it.received != nil && bid(it.received) == it.requested

func newQueue(ids) (q)
  root C13
  inv (?r:[]loading.item, ?i:int) len(r) == len(ids)
  inv (?r:[]loading.item, ?i:int) forall k: Int {r[k]} :: 0 <= k && k < i ==> r[k].requested == ids[k]
  inv (?r:[]loading.item, ?i:int) forall k: Int {r[k]} :: 0 <= k && k < len(r) ==> r[k].received == nil
  ensures len(q.q) == len(ids)
  ensures forall k: Int {q.q[k]} :: 0 <= k && k < len(ids) ==> q.q[k].requested == ids[k] && q.q[k].received == nil

func (*queue).put(q, block)
  root C13
  modifies contents(q.q)
  inv (?i:int) forall k: Int {q.q[k]} :: 0 <= k && k < i ==> q.q[k].requested != bid(block)
  ensures forall k: Int {q.q[k]} :: 0 <= k && k < len(q.q) ==> q.q[k].requested == old(q.q[k].requested)
  ensures forall k: Int {q.q[k]} :: 0 <= k && k < len(q.q) ==> q.q[k].received == old(q.q[k].received) || (block != nil && q.q[k].received == block && q.q[k].requested == bid(block))
  ensures block != nil && (exists k: Int {q.q[k]} :: 0 <= k && k < len(q.q) && old(q.q[k].requested) == bid(block)) ==> exists m: Int {q.q[m]} :: 0 <= m && m < len(q.q) && q.q[m].requested == bid(block) && q.q[m].received == block

func (*queue).ready(q) (r)
  root C13
  inv (?i:int) forall k: Int {q.q[k]} :: 0 <= k && k < i ==> good(q.q[k])
  ensures r <==> forall k: Int {q.q[k]} :: 0 <= k && k < len(q.q) ==> good(q.q[k])

func (*queue).lastReceived(q) (b, ok)
  root C13
  inv (?i:int) forall k: Int {q.q[k]} :: 0 <= k && k < i ==> good(q.q[k])
  inv (?i:int, ?l:int) l == i - 1
  inv (?i:int, ?l:int) l == i
  ensures ok <==> len(q.q) > 0 && good(q.q[0])
  ensures !ok ==> b == nil
  ensures ok ==> exists k: Int {q.q[k]} :: 0 <= k && k < len(q.q) && b == q.q[k].received && (forall m: Int {q.q[m]} :: 0 <= m && m <= k ==> good(q.q[m])) && (k + 1 < len(q.q) ==> !good(q.q[k + 1]))

// ---- a loading attempt ----
// the state machine of the attempt
ghost fsm (Array Ref Int)
ghost fsmPend (Array Ref Int)
ghost fsmFire (Array Ref Bool)
ghost fsmOwner (Array Ref Ref)
// the history provider: leashes, known blocks, last common blocks
ghost hl (Array Addr BlockID)
ghost hk (Array BlockID Bool)
ghost hc (Array Addr BlockID)
// what was requested: the last list of ids, the sequence of requested blocks
ghost nIds Int
ghost idsLen Int
ghost idsReq (Array Int BlockID)
ghost nBlk Int
ghost blkReq (Array Int BlockID)
// what was applied and reported
ghost nApp Int
ghost app (Array Int Ref)
ghost appErr Bool
ghost nOK Int
ghost nFail Int

theory {
(declare-fun hLastLen (BlockID Int) Int)
(declare-fun hLast (BlockID Int Int) BlockID)
(declare-fun hrID (Ref) Addr)
}

extern (peers.HistoryRequester).ID(p) (r)
  ensures r == hrID(p)
extern (peers.HistoryRequester).RequestBlockIDs(p, ids)
  requires len(ids) > 0
  modifies nIds, idsLen, idsReq
  ensures nIds == old(nIds) + 1 && idsLen == len(ids)
  ensures forall k: Int {idsReq[k]} :: 0 <= k && k < len(ids) ==> idsReq[k] == ids[k]
extern (peers.HistoryRequester).RequestBlock(p, id)
  modifies nBlk, blkReq
  ensures nBlk == old(nBlk) + 1 && blkReq == store(old(blkReq), old(nBlk), id)
extern (chains.HistoryProvider).Leash(p, a) (id, err)
  ensures err == nil ==> id == hl[a]
extern (chains.HistoryProvider).LCB(p, a) (id, err)
  ensures err == nil ==> id == hc[a]
extern (chains.HistoryProvider).HasBlock(p, id) (ok, err)
  ensures err == nil ==> (ok <==> hk[id])
extern (chains.HistoryProvider).LastIDs(p, id, n) (r, err)
  ensures err == nil ==> len(r) == hLastLen(id, n) && (n > 0 ==> len(r) > 0)
  ensures err == nil ==> forall k: Int {r[k]} :: 0 <= k && k < len(r) ==> r[k] == hLast(id, n, k)
extern (chains.HistoryProvider).MoveLeash(p, id, a) (err)
  modifies hl, hc
  ensures err == nil ==> hl == store(old(hl), a, id)
  ensures err != nil ==> hl == old(hl)
extern (chains.HistoryProvider).PutBlock(p, b, a) (err)
  modifies hl, hc, hk, nApp, app, appErr
  ensures nApp == old(nApp) + 1 && app == store(old(app), old(nApp), b) && (appErr <==> old(appErr) || err != nil)
// a report may reset the loader (verified for Loader.OK and Loader.Fail)
extern (loading.Reporter).OK(r)
  modifies nOK, fsmPend, each(loading.Loader.pl), each(loading.Loader.prevDiff), each(loading.Loader.fc)
  ensures nOK == old(nOK) + 1
  ensures forall m: Ref {fsmPend[m]} :: fsmPend[m] == old(fsmPend)[m] || fsmPend[m] == eventStart
extern (loading.Reporter).Fail(r)
  modifies nFail, each(loading.Loader.pl), each(loading.Loader.prevDiff), each(loading.Loader.fc)
  ensures nFail == old(nFail) + 1

macro smOK(pl) = pl.sm != nil && fsmOwner[pl.sm] == pl && pl.peer != nil && pl.hp != nil && pl.r != nil && fsm[pl.sm] >= stateIdle && fsm[pl.sm] <= stateDone
macro qOK(pl) = (fsm[pl.sm] == stateIdle || fsm[pl.sm] == stateWaitingForIDs ==> len(pl.queue.q) == 0)
macro quiet(pl) = !fsmFire[pl.sm] && fsmPend[pl.sm] == 0 - 1
macro plOK(pl) = smOK(pl) && qOK(pl) && quiet(pl)
macro sameSM(pl, m) = pl.sm == m && fsmOwner[m] == pl
macro idsFrom(id) = idsLen == hLastLen(id, 100) && (forall k: Int {idsReq[k]} :: 0 <= k && k < idsLen ==> idsReq[k] == hLast(id, 100, k))

func newPeerLoader(peer, hp, r) (pl)
  root C11 C12
  requires peer != nil && hp != nil && r != nil
  modifies fsm, fsmPend, fsmFire, fsmOwner
  ensures pl != nil && plOK(pl) && fsm[pl.sm] == stateIdle
  ensures pl.peer == peer && pl.hp == hp && pl.r == r
  ensures forall m: Ref {fsm[m]} :: m != pl.sm ==> fsm[m] == old(fsm)[m]

func (*peerLoader).start(pl) (err)
  root C11 C12
  requires smOK(pl) && fsmPend[pl.sm] == 0 - 1
  requires !fsmFire[pl.sm] ==> qOK(pl)
  modifies fsm, fsmPend, fsmFire, nIds, idsLen, idsReq, pl.timestamp
  let a = hrID(pl.peer)
  let m = pl.sm
  ensures old(fsmFire)[m] ==> err == nil && fsmPend == store(old(fsmPend), m, eventStart) && fsm == old(fsm) && fsmFire == old(fsmFire) && nIds == old(nIds)
  ensures !old(fsmFire)[m] ==> plOK(pl)
  ensures !old(fsmFire)[m] && old(fsm)[m] != stateIdle ==> fsm[m] == old(fsm)[m] && nIds == old(nIds)
  ensures !old(fsmFire)[m] && old(fsm)[m] == stateIdle ==> fsm[m] == stateWaitingForIDs
  ensures !old(fsmFire)[m] && old(fsm)[m] == stateIdle && err == nil ==> nIds == old(nIds) + 1 && idsFrom(hl[a])
  ensures !old(fsmFire)[m] && old(fsm)[m] == stateIdle && err == nil ==> pl.timestamp >= old(clk)
  ensures err != nil ==> nIds == old(nIds)
  ensures nIds == old(nIds) ==> idsLen == old(idsLen) && idsReq == old(idsReq)

func (*peerLoader).restart(pl) (err)
  root C11 C12
  requires plOK(pl)
  modifies fsm, fsmPend, fsmFire, nIds, idsLen, idsReq, pl.timestamp
  let a = hrID(pl.peer)
  let m = pl.sm
  ensures plOK(pl)
  ensures old(fsm)[m] != stateIdle ==> fsm[m] == old(fsm)[m] && nIds == old(nIds)
  ensures old(fsm)[m] == stateIdle ==> fsm[m] == stateWaitingForIDs
  ensures old(fsm)[m] == stateIdle && err == nil ==> nIds == old(nIds) + 1 && idsFrom(hc[a])
  ensures old(fsm)[m] == stateIdle && err == nil ==> pl.timestamp >= old(clk)
  ensures err != nil ==> nIds == old(nIds)
  ensures nIds == old(nIds) ==> idsLen == old(idsLen) && idsReq == old(idsReq)

macro unknownFrom(ids, u) = 0 <= u && u <= len(ids) && (forall k: Int {ids[k]} :: 0 <= k && k < u ==> old(hk)[ids[k]]) && (u < len(ids) ==> !old(hk)[ids[u]])
macro requested(ids, u) = nBlk == old(nBlk) + len(ids) - u && (forall k: Int {blkReq[k]} :: old(nBlk) <= k && k < nBlk ==> blkReq[k] == ids[u + k - old(nBlk)])
macro queued(pl, ids, u) = len(pl.queue.q) == len(ids) - u && (forall k: Int {pl.queue.q[k]} :: 0 <= k && k < len(pl.queue.q) ==> pl.queue.q[k].requested == ids[u + k] && pl.queue.q[k].received == nil)
macro leashAt(ids, u, a) = ite(u == 0, hl == old(hl), hl[a] == ids[u - 1] && (forall b: Addr {hl[b]} :: b != a ==> hl[b] == old(hl)[b]))

func (*peerLoader).processIDs(pl, ids) (err)
  root C11 C12
  requires plOK(pl) && len(ids) > 0
  modifies fsm, fsmPend, fsmFire, nIds, idsLen, idsReq, nBlk, blkReq, hl, hc, nOK, pl.timestamp, pl.queue, each(loading.Loader.pl), each(loading.Loader.prevDiff), each(loading.Loader.fc)
  let a = hrID(pl.peer)
  let m = pl.sm
  let s0 = fsm[pl.sm]
  let hk0 = hk
  inv (?i:int) forall k: Int {ids[k]} :: 0 <= k && k < i ==> hk0[ids[k]]
  inv (?i:int) i == 0 ==> hl == old(hl)
  inv (?i:int) i > 0 ==> hl[a] == ids[i - 1]
  inv forall b: Addr {hl[b]} :: b != a ==> hl[b] == old(hl)[b]
  inv (?i:int) nBlk == old(nBlk) + i
  inv (?i:int, ?r:[]proto.BlockID) forall k: Int {blkReq[k]} :: old(nBlk) <= k && k < nBlk ==> blkReq[k] == r[k - old(nBlk)]
  ensures plOK(pl) && sameSM(pl, m)
  ensures s0 != stateWaitingForIDs ==> fsm[m] == s0 && nBlk == old(nBlk) && nIds == old(nIds) && nOK == old(nOK) && hl == old(hl) && pl.queue == old(pl.queue)
  ensures s0 == stateWaitingForIDs ==> fsm[m] == stateWaitingForBlocks || nOK == old(nOK) + 1
  ensures fsm[m] == stateDone ==> s0 == stateDone
  ensures s0 == stateWaitingForIDs && fsm[m] == stateWaitingForBlocks ==> nOK == old(nOK) && nIds == old(nIds)
  // the request starts at the first unknown block
  ensures s0 == stateWaitingForIDs && err == nil && fsm[m] == stateWaitingForBlocks ==> exists u: Int {ids[u]} :: unknownFrom(ids, u) && u < len(ids) && requested(ids, u) && queued(pl, ids, u) && leashAt(ids, u, a)
  ensures [C12] s0 == stateWaitingForIDs && err == nil && fsm[m] == stateWaitingForBlocks ==> pl.timestamp >= old(clk)
  // everything is known: nothing is requested and the attempt completes
  ensures s0 == stateWaitingForIDs && fsm[m] != stateWaitingForBlocks ==> nBlk == old(nBlk) && nOK == old(nOK) + 1 && (forall k: Int {ids[k]} :: 0 <= k && k < len(ids) ==> hk[ids[k]]) && hl[a] == ids[len(ids) - 1]
  ensures s0 == stateWaitingForIDs && nBlk == old(nBlk) && fsm[m] == stateWaitingForBlocks ==> err != nil && len(pl.queue.q) == 0
  ensures err != nil ==> nBlk == old(nBlk)

func (*peerLoader).processBlock(pl, block) (err)
  root C12
  requires plOK(pl)
  modifies fsm, fsmPend, fsmFire, nIds, idsLen, idsReq, hl, hc, hk, nApp, app, appErr, nOK, pl.timestamp, pl.queue, contents(pl.queue.q), each(loading.Loader.pl), each(loading.Loader.prevDiff), each(loading.Loader.fc)
  let q0 = pl.queue.q
  let m = pl.sm
  let s0 = fsm[pl.sm]
  let n0 = nApp
  let e0 = appErr
  let all = (forall k: Int {pl.queue.q[k]} :: 0 <= k && k < len(pl.queue.q) ==> good(pl.queue.q[k]))
  inv (?i:int) nApp == old(nApp) + i
  inv appErr <==> old(appErr)
  inv forall k: Int {app[k]} :: n0 <= k && k < nApp ==> app[k] == q0[k - n0].received
  ensures plOK(pl) && sameSM(pl, m)
  ensures s0 != stateWaitingForBlocks ==> fsm[m] == s0 && nIds == old(nIds) && nOK == old(nOK) && nApp == n0 && pl.queue == old(pl.queue)
  ensures fsm[m] == stateWaitingForBlocks ==> nOK == old(nOK) && (nApp > n0 ==> appErr && err != nil) && nIds == old(nIds)
  ensures fsm[m] == stateDone ==> s0 == stateDone
  // the contents of the queue
  ensures forall k: Int {q0[k]} :: 0 <= k && k < len(q0) ==> q0[k].requested == old(q0[k].requested) && (q0[k].received == old(q0[k].received) || (s0 == stateWaitingForBlocks && block != nil && q0[k].received == block && q0[k].requested == bid(block)))
  ensures s0 == stateWaitingForBlocks && block != nil && (exists k: Int {q0[k]} :: 0 <= k && k < len(q0) && old(q0[k].requested) == bid(block)) ==> exists j: Int {q0[j]} :: 0 <= j && j < len(q0) && q0[j].requested == bid(block) && q0[j].received == block
  // applied in order and only when complete
  ensures nApp > n0 ==> len(q0) > 0 && (forall k: Int {q0[k]} :: 0 <= k && k < len(q0) ==> good(q0[k]))
  ensures forall k: Int {app[k]} :: n0 <= k && k < nApp ==> app[k] == q0[k - n0].received
  ensures nApp <= n0 + len(q0)
  ensures s0 == stateWaitingForBlocks && len(q0) > 0 && (forall k: Int {q0[k]} :: 0 <= k && k < len(q0) ==> good(q0[k])) ==> nApp > n0
  ensures s0 == stateWaitingForBlocks && fsm[m] != stateWaitingForBlocks ==> nOK == old(nOK) + 1 && nApp == n0 + len(q0) && len(q0) > 0 && (appErr <==> e0)
  ensures s0 == stateWaitingForBlocks && nApp > n0 && (appErr <==> e0) ==> nOK == old(nOK) + 1 || e0

func (*peerLoader).processTick(pl, tm) (err)
  root C12
  requires plOK(pl)
  modifies fsm, fsmPend, fsmFire, hl, hc, hk, nApp, app, appErr, nFail, each(loading.Loader.pl), each(loading.Loader.prevDiff), each(loading.Loader.fc)
  let q0 = pl.queue.q
  let m = pl.sm
  let s0 = fsm[pl.sm]
  let n0 = nApp
  let e0 = appErr
  let late = tm - pl.timestamp > 30000000000 && (s0 == stateWaitingForIDs || s0 == stateWaitingForBlocks)
  inv (?i:int) nApp == old(nApp) + i
  inv appErr <==> old(appErr)
  inv (?i:int) forall k: Int {q0[k]} :: 0 <= k && k < i ==> good(q0[k])
  inv forall k: Int {app[k]} :: n0 <= k && k < nApp ==> app[k] == q0[k - n0].received
  ensures plOK(pl) && sameSM(pl, m)
  ensures !late ==> fsm[m] == s0 && nFail == old(nFail) && nApp == n0 && err == nil
  ensures late ==> fsm[m] == stateDone && nFail == old(nFail) + 1
  ensures s0 == stateWaitingForIDs ==> nApp == n0
  ensures n0 <= nApp && nApp <= n0 + len(q0)
  ensures forall k: Int {app[k]} :: n0 <= k && k < nApp ==> app[k] == q0[k - n0].received && good(q0[k - n0])
  ensures late && (appErr <==> e0) && !e0 ==> (nApp == n0 + len(q0) || !good(q0[nApp - n0]))

// ---- the loader ----
theory {
(define known ((P DB) (a Addr)) Bool (and (is-some (select P (BAddrV a))) (not (is-bignil (S_peers.value.Score (dec_peers.value (optv (select P (BAddrV a)))))))))
(define pann ((P DB) (a Addr)) Int (bigval (S_peers.value.Score (dec_peers.value (optv (select P (BAddrV a)))))))
(define lscore ((D DB) (g BlockID) (a Addr)) Int (scr D (num D (ite (lsd D (unz a)) (lsh D (unz a)) g))))
}
conv peers.Peer p = hrID(p) == apAddr(p.AddressPort)

extern (*kairos.Timer).Reset(t, d) (b)
extern (*kairos.Timer).Stop(t) (b)
extern kairos.NewStoppedTimer() (t)
  ensures t != nil
extern rand.IntN(n) (r)
  requires n > 0
  ensures 0 <= r && r < n

macro pcnt(m, a) = ite(a in m, m[a], 0)
macro behind(l, a) = known(P, a) && pann(P, a) > lscore(D, l.linkage.genesis, a)
macro ldrOK(l) = l.registry != nil && regOK(l.registry) && l.linkage != nil && okL0(l.linkage) && WF_D(D) && has(D, l.linkage.genesis) && l.timer != nil && l.ticker != nil

func (*failureCounter).inc(fc, addr)
  root C14
  modifies fc.m, contents(fc.m)
  ensures fc.m != nil
  ensures forall a: Addr {a in fc.m} :: a != addr ==> pcnt(fc.m, a) == old(pcnt(fc.m, a))
  ensures old(pcnt(fc.m, addr)) < 9223372036854775807 ==> pcnt(fc.m, addr) == old(pcnt(fc.m, addr)) + 1

func (*failureCounter).count(fc, addr) (n)
  root C14
  ensures n == pcnt(fc.m, addr)

func (*failureCounter).reset(fc, addr)
  root C14
  modifies fc.m, contents(fc.m)
  ensures fc.m != nil
  ensures forall a: Addr {a in fc.m} :: pcnt(fc.m, a) == ite(a == addr, 0, old(pcnt(fc.m, a)))

func NewLoader(registry, linkage, idsCh, blockCh) (l)
  root C14
  ensures l != nil && l.pl == nil && l.registry == registry && l.linkage == linkage && l.timer != nil && l.ticker != nil

func (*Loader).isLagging(l, peerScore, leashScore) (d, ok)
  root C14
  requires peerScore != nil && leashScore != nil
  ensures d != nil && big(d) == big(peerScore) - big(leashScore)
  ensures ok <==> big(d) > 0 && (l.prevDiff == nil || big(l.prevDiff) != big(d))

macro inRound(l, s) = l.pl != nil && fsm[l.pl.sm] == s

func (*Loader).OK(l)
  root C14
  requires ldrOK(l)
  requires l.pl != nil ==> smOK(l.pl)
  requires inRound(l, stateIdle) ==> fsmFire[l.pl.sm] && fsmPend[l.pl.sm] == 0 - 1 && known(P, hrID(l.pl.peer))
  modifies l.pl, l.prevDiff, l.fc.m, contents(l.fc.m), fsm, fsmPend, fsmFire, nIds, idsLen, idsReq, l.pl.timestamp
  let a = hrID(l.pl.peer)
  let m = l.pl.sm
  let round = inRound(l, stateIdle)
  let pd = l.prevDiff
  let lag = pann(P, hrID(l.pl.peer)) - lscore(D, l.linkage.genesis, hrID(l.pl.peer))
  ensures fsm == old(fsm) && fsmFire == old(fsmFire) && nIds == old(nIds)
  ensures !round ==> l.pl == old(l.pl) && l.prevDiff == pd && fsmPend == old(fsmPend)
  ensures !round ==> forall b: Addr {b in l.fc.m} :: pcnt(l.fc.m, b) == old(pcnt(l.fc.m, b))
  ensures round ==> forall b: Addr {b in l.fc.m} :: pcnt(l.fc.m, b) == ite(b == a, 0, old(pcnt(l.fc.m, b)))
  ensures round ==> l.pl == nil || l.pl == old(l.pl)
  ensures round && l.pl != nil ==> fsmPend == store(old(fsmPend), m, eventStart) && lag > 0 && (old(pd) == nil || old(big(pd)) != lag) && l.prevDiff != nil && big(l.prevDiff) == lag
  ensures round && l.pl == nil ==> fsmPend == old(fsmPend) && l.prevDiff == nil

func (*Loader).Fail(l)
  root C14
  requires l.pl != nil ==> smOK(l.pl)
  modifies l.pl, l.prevDiff, l.fc.m, contents(l.fc.m)
  let a = hrID(l.pl.peer)
  let round = inRound(l, stateDone)
  ensures !round ==> l.pl == old(l.pl) && l.prevDiff == old(l.prevDiff)
  ensures !round ==> forall b: Addr {b in l.fc.m} :: pcnt(l.fc.m, b) == old(pcnt(l.fc.m, b))
  ensures round ==> l.pl == nil && l.prevDiff == nil
  ensures round ==> forall b: Addr {b in l.fc.m} :: b != a ==> pcnt(l.fc.m, b) == old(pcnt(l.fc.m, b))
  ensures round && old(pcnt(l.fc.m, a)) < 9223372036854775807 ==> pcnt(l.fc.m, a) == old(pcnt(l.fc.m, a)) + 1

macro plFree(l) = l.pl != nil ==> plOK(l.pl)

func (*Loader).sync(l)
  root C14
  requires ldrOK(l) && plFree(l)
  modifies l.pl, l.fc.m, contents(l.fc.m), fsm, fsmPend, fsmFire, fsmOwner, nIds, idsLen, idsReq
  inv (?g:[]peers.Peer) forall k: Int {g[k]} :: 0 <= k && k < len(g) ==> apAddr(g[k].AddressPort) in l.registry.connections && behind(l, apAddr(g[k].AddressPort))
  let busy = l.pl != nil
  let m0 = l.fc.m
  ensures busy ==> l.pl == old(l.pl) && nIds == old(nIds) && fsm == old(fsm) && fsmPend == old(fsmPend)
  ensures !busy && l.pl == nil ==> nIds == old(nIds) && fsm == old(fsm)
  ensures !busy && l.pl != nil ==> hrID(l.pl.peer) in l.registry.connections && behind(l, hrID(l.pl.peer))
  ensures !busy && l.pl != nil ==> plOK(l.pl) && fsm[l.pl.sm] == stateWaitingForIDs && l.pl.r == l
  ensures !busy && l.pl != nil && nIds != old(nIds) ==> nIds == old(nIds) + 1
  ensures !busy && l.pl != nil && nIds != old(nIds) ==> forall b: Addr {b in l.fc.m} :: b == hrID(l.pl.peer) && old(pcnt(l.fc.m, b)) >= 10 ==> idsFrom(hc[b])
  ensures !busy && l.pl != nil && nIds != old(nIds) ==> forall b: Addr {b in l.fc.m} :: b == hrID(l.pl.peer) && old(pcnt(l.fc.m, b)) < 10 ==> idsFrom(hl[b])
  ensures l.pl == nil || busy ==> forall b: Addr {b in l.fc.m} :: pcnt(l.fc.m, b) == old(pcnt(l.fc.m, b))
  ensures !busy && l.pl != nil ==> forall b: Addr {b in l.fc.m} :: pcnt(l.fc.m, b) == ite(b == hrID(l.pl.peer) && old(pcnt(l.fc.m, b)) >= 10, 0, old(pcnt(l.fc.m, b)))

func (*Loader).tick(l)
  root C14
  requires plFree(l)
  modifies fsm, fsmPend, fsmFire, hl, hc, hk, nApp, app, appErr, nFail, each(loading.Loader.pl), each(loading.Loader.prevDiff), each(loading.Loader.fc)

func (*Loader).handleIDs(l, p)
  root C14
  requires plFree(l)
  modifies fsm, fsmPend, fsmFire, nIds, idsLen, idsReq, nBlk, blkReq, hl, hc, nOK, l.pl.timestamp, l.pl.queue, each(loading.Loader.pl), each(loading.Loader.prevDiff), each(loading.Loader.fc)
  let mine = l.pl != nil && len(p.IDs) > 0 && p.Peer == hrID(l.pl.peer)
  let m = l.pl.sm
  ensures !mine ==> l.pl == old(l.pl) && fsm == old(fsm) && nBlk == old(nBlk) && nOK == old(nOK) && nIds == old(nIds) && hl == old(hl)
  ensures mine && old(fsm)[m] == stateWaitingForIDs ==> nOK == old(nOK) + 1 || fsm[m] == stateWaitingForBlocks

func (*Loader).handleBlock(l, p)
  root C14
  requires plFree(l)
  modifies fsm, fsmPend, fsmFire, nIds, idsLen, idsReq, hl, hc, hk, nApp, app, appErr, nOK, l.pl.timestamp, l.pl.queue, contents(l.pl.queue.q), each(loading.Loader.pl), each(loading.Loader.prevDiff), each(loading.Loader.fc)
  let mine = l.pl != nil && p.Peer == hrID(l.pl.peer)
  ensures !mine ==> l.pl == old(l.pl) && fsm == old(fsm) && nApp == old(nApp) && nOK == old(nOK) && nIds == old(nIds) && hl == old(hl) && hk == old(hk)
  ensures !mine ==> l.pl != nil ==> forall k: Int {l.pl.queue.q[k]} :: 0 <= k && k < len(l.pl.queue.q) ==> l.pl.queue.q[k].received == old(l.pl.queue.q[k].received)
