package chains

theory {
; the database after adding block number n = cnt+1 with the given record and identifier;
; ext is the block whose head (if any) it takes over
(define addedRec ((D DB) (E DB) (id BlockID)) Bool (let ((n (+ (cnt D) 1))) (and
   (= (cnt E) n) (has E id) (= (num E id) n)
   (forall ((m Int)) (! (=> (valid D m) (and (= (select E (BNum 1 m)) (select D (BNum 1 m))) (= (select E (BNum 2 m)) (select D (BNum 2 m))))) :pattern ((select E (BNum 1 m))) :pattern ((select E (BNum 2 m)))))
   (forall ((i BlockID)) (! (=> (not (= i id)) (= (select E (BID 1 i)) (select D (BID 1 i)))) :pattern ((select E (BID 1 i))))))))
(define sameLeashes ((D DB) (E DB)) Bool (forall ((a Addr)) (! (= (select E (BAddr 3 a)) (select D (BAddr 3 a))) :pattern ((select E (BAddr 3 a))))))
(define sameOtherLeashes ((D DB) (E DB) (x Addr)) Bool (forall ((a Addr)) (! (=> (not (= a x)) (= (select E (BAddr 3 a)) (select D (BAddr 3 a)))) :pattern ((select E (BAddr 3 a))))))
(define blkTs ((D DB) (n Int)) Int (S_chains.block.Timestamp (blk D n)))
(define movedHead ((D DB) (E DB) (x Int)) Bool (let ((n (+ (cnt D) 1))) (and
   (isHead E n) (not (isHead E x))
   (= (headOf E n) (ite (isHead D x) (headOf D x) (+ (hcnt D) 1)))
   (= (hcnt E) (ite (isHead D x) (hcnt D) (+ (hcnt D) 1)))
   (= (hblk E (headOf E n)) n)
   (forall ((m Int)) (! (=> (and (not (= m n)) (not (= m x))) (= (select E (BNum 5 m)) (select D (BNum 5 m)))) :pattern ((select E (BNum 5 m)))))
   (forall ((h Int)) (! (=> (not (= h (headOf E n))) (= (select E (BNum 4 h)) (select D (BNum 4 h)))) :pattern ((select E (BNum 4 h))))))))
}

func (*storage).putProtoBlock(s, block) (err)
  root C01, C04, C06
  requires s.db != nil && block != nil
  requires WF_D(D)
  requires okID(bid(block)) && !has(D, bid(block))
  requires cnt(D) < 4294967295
  requires [C22] lkD == 2
  let pn0 = num(D, block.Parent)
  modifies D
  inv (?p:uint64, ?l:int) pow2(l) <= hgt(old(D), pn0) ==> p == anc(old(D), pn0, pow2(l) - 1)
  inv (?p:uint64) valid(old(D), p)
  inv (?ps:[]uint64, ?l:int) len(ps) == l
  inv (?ps:[]uint64, ?l:int) forall i: Int {ps[i]} :: 0 <= i && i < l ==> ps[i] == anc(old(D), pn0, pow2(i) - 1)
  ensures err == nil ==> has(old(D), block.Parent)
  ensures err == nil ==> addedRec(old(D), D, bid(block)) && sameLeashes(old(D), D) && par(D, cnt(D)) == pn0
  ensures [C01,C10] err == nil ==> hgt(D, cnt(D)) == hgt(old(D), pn0) + 1 && blkTs(D, cnt(D)) == block.Timestamp && idN(D, cnt(D)) == bid(block) && gen(D, cnt(D)) == addrOfPK(s.scheme, block.GeneratorPublicKey)
  ensures [C01,C09] err == nil ==> scr(D, cnt(D)) == scr(old(D), pn0) + blockScore(block.BaseTarget)
  ensures [C04] err == nil ==> movedHead(old(D), D, pn0)
  ensures err != nil ==> D == old(D)
  ensures !isE(err, chains.ErrParentNotFound) && !isE(err, chains.ErrRefNotFound)
  ensures WF_D(D)
  use anc_frame, tree_def, anc_valid, anc_add, anc_ext, anc_front

func (*storage).putMicroBlock(s, inv) (err)
  root C01, C04, C06
  requires s.db != nil && inv != nil
  requires WF_D(D)
  requires okID(inv.TotalBlockID) && !has(D, inv.TotalBlockID)
  requires cnt(D) < 4294967295
  requires [C22] lkD == 2
  let r0 = num(D, inv.Reference)
  let pn0 = par(D, r0)
  modifies D
  inv (?p:uint64, ?l:int) pow2(l) <= hgt(old(D), pn0) ==> p == anc(old(D), pn0, pow2(l) - 1)
  inv (?p:uint64) valid(old(D), p)
  inv (?ps:[]uint64, ?l:int) len(ps) == l
  inv (?ps:[]uint64, ?l:int) forall i: Int {ps[i]} :: 0 <= i && i < l ==> ps[i] == anc(old(D), pn0, pow2(i) - 1)
  ensures err == nil ==> has(old(D), inv.Reference) && r0 > 1
  ensures err == nil ==> addedRec(old(D), D, inv.TotalBlockID) && sameLeashes(old(D), D) && par(D, cnt(D)) == pn0
  ensures [C01,C10] err == nil ==> hgt(D, cnt(D)) == hgt(old(D), r0) && blkTs(D, cnt(D)) == blkTs(old(D), r0) && idN(D, cnt(D)) == inv.TotalBlockID && gen(D, cnt(D)) == gen(old(D), r0)
  ensures [C01,C09] err == nil ==> scr(D, cnt(D)) == scr(old(D), r0)
  ensures [C04] err == nil ==> movedHead(old(D), D, r0)
  ensures err != nil ==> D == old(D)
  ensures !isE(err, chains.ErrParentNotFound) && !isE(err, chains.ErrRefNotFound)
  ensures WF_D(D)
  use anc_frame, tree_def, anc_valid, anc_add, anc_ext, anc_front
