package chains

theory {
(define maxLen ((D DB) (n Int) (c Int)) Int (ite (<= c 0) 0 (ite (< c (hgt D n)) c (hgt D n))))
(define parId ((D DB) (n Int)) BlockID (ite (= (S_chains.block.Parent (blk D n)) Bnil) zero_BlockID (idof (S_chains.block.Parent (blk D n)))))
(define safeTs ((t Int)) Int (ite (> t 253402214400000) 253402214400000 t))
(define isBlockOf ((D DB) (b S_chains.Block) (n Int)) Bool (and (= (S_chains.Block.ID b) (idN D n)) (= (S_chains.Block.Parent b) (parId D n)) (= (S_chains.Block.Height b) (hgt D n)) (= (S_chains.Block.Generator b) (gen D n)) (= (S_chains.Block.Score b) (S_chains.block.Score (blk D n))) (= (S_chains.Block.Timestamp b) (safeTs (blkTs D n)))))
(define aKey ((a Addr)) Bytes (BAddr 3 a))
(define hKey ((h Int)) Bytes (BNum 4 h))
}

func (*storage).getAncestors(s, id, count) (r, err)
  root C03
  requires s.db != nil
  requires WF_D(D)
  requires [C22] lkD >= 1
  let n0 = num(D, id)
  inv (?n:uint64, ?i:int) n == anc(D, n0, i) && valid(D, n) && hgt(D, n) == hgt(D, n0) - i
  inv (?r:[]proto.BlockID, ?i:int) len(r) == i
  inv (?r:[]proto.BlockID) forall k: Int {r[k]} :: 0 <= k && k < len(r) ==> r[k] == idN(D, anc(D, n0, k))
  ensures err == nil ==> has(D, id) && len(r) == maxLen(D, n0, count)
  ensures err == nil ==> forall k: Int {r[k]} :: 0 <= k && k < len(r) ==> r[k] == idN(D, anc(D, n0, k))
  ensures err != nil ==> isIO(err) || (notFound(err) && !has(D, id))
  use anc_valid, tree_def, anc_add

func (*storage).getBlocks(s, id, count) (r, err)
  root C03
  requires s.db != nil
  requires WF_D(D)
  requires [C22] lkD >= 1
  let n0 = num(D, id)
  inv (?n:uint64, ?i:int) n == anc(D, n0, i) && valid(D, n) && hgt(D, n) == hgt(D, n0) - i
  inv (?r:[]chains.Block, ?i:int) len(r) == i
  inv (?r:[]chains.Block) forall k: Int {r[k]} :: 0 <= k && k < len(r) ==> isBlockOf(D, r[k], anc(D, n0, k))
  ensures err == nil ==> has(D, id) && len(r) == maxLen(D, n0, count)
  ensures err == nil ==> forall k: Int {r[k]} :: 0 <= k && k < len(r) ==> isBlockOf(D, r[k], anc(D, n0, k))
  ensures err != nil ==> isIO(err) || (notFound(err) && !has(D, id))
  use anc_valid, tree_def, anc_add

func (*storage).leashes(s) (r, err)
  root C05
  requires s.db != nil
  requires WF_D(D)
  requires [C22] lkD >= 1
  inv (?r:[]chains.Leash, ?it:iter) len(r) == it.pos
  inv (?r:[]chains.Leash, ?it:iter) forall k: Int {r[k]} {it.seq[k]} :: 0 <= k && k < len(r) ==> lsd(D, r[k].Addr) && r[k].BlockID == lsh(D, r[k].Addr) && it.seq[k] == aKey(r[k].Addr)
  ensures err == nil ==> forall k: Int {r[k]} :: 0 <= k && k < len(r) ==> lsd(D, r[k].Addr) && r[k].BlockID == lsh(D, r[k].Addr)
  ensures err == nil ==> forall a: Addr {aKey(a)} :: lsd(D, a) ==> exists k: Int {r[k]} :: 0 <= k && k < len(r) && r[k].Addr == a
  ensures err == nil ==> forall k: Int, m: Int {r[k], r[m]} :: 0 <= k && k < m && m < len(r) ==> r[k].Addr != r[m].Addr
  ensures err != nil ==> isIO(err)

func (*storage).getHeads(s, sn) (hs, bs, err)
  requires sn != nil
  requires WF_D(view(sn))
  inv (?hs:[]uint64, ?it:iter) forall k: Int {hs[k]} {it.seq[k]} :: 0 <= k && k < len(hs) ==> it.seq[k] == hKey(hs[k]) && hasH(view(sn), hs[k])
  inv (?hs:[]uint64, ?bs:[]uint64, ?it:iter) len(hs) == len(bs) && len(hs) == it.pos && (forall k: Int {bs[k]} {hs[k]} :: 0 <= k && k < len(bs) ==> bs[k] == hblk(view(sn), hs[k]))
  ensures err == nil ==> len(hs) == len(bs)
  ensures err == nil ==> forall k: Int {hs[k]} {bs[k]} :: 0 <= k && k < len(hs) ==> hasH(view(sn), hs[k]) && bs[k] == hblk(view(sn), hs[k])
  ensures err == nil ==> forall h: Int {hKey(h)} :: hasH(view(sn), h) ==> exists k: Int {hs[k]} :: 0 <= k && k < len(hs) && hs[k] == h
  ensures err == nil ==> forall k: Int, m: Int {hs[k], hs[m]} :: 0 <= k && k < m && m < len(hs) ==> hs[k] != hs[m]
  ensures err == nil

func (*storage).heads(s) (r, err)
  root C04
  requires s.db != nil
  requires WF_D(D)
  requires [C22] lkD >= 1
  inv (?r:[]chains.Head, ?i:int) forall k: Int {r[k]} :: 0 <= k && k < i ==> hasH(D, r[k].ID) && r[k].BlockID == idN(D, hblk(D, r[k].ID))
  inv (?r:[]chains.Head, ?hs:[]uint64, ?i:int) forall k: Int {r[k]} {hs[k]} :: 0 <= k && k < i ==> r[k].ID == hs[k]
  ensures err == nil ==> forall k: Int {r[k]} :: 0 <= k && k < len(r) ==> hasH(D, r[k].ID) && r[k].BlockID == idN(D, hblk(D, r[k].ID))
  ensures err == nil ==> forall h: Int {hKey(h)} :: hasH(D, h) ==> exists k: Int {r[k]} :: 0 <= k && k < len(r) && r[k].ID == h
  ensures err == nil ==> forall k: Int, m: Int {r[k], r[m]} :: 0 <= k && k < m && m < len(r) ==> r[k].ID != r[m].ID
  ensures err != nil ==> isIO(err)

func (*storage).initialize(s, genesis) (err)
  root C01, C04, C05, C06
  requires s.db != nil
  requires okID(bid(genesis))
  requires WF_D(D) || emptyD(D)
  requires [C22] lkD == 2
  modifies D
  ensures err == nil ==> WF_D(D)
  ensures err == nil && !emptyD(old(D)) ==> D == old(D)
  ensures err != nil ==> D == old(D)
  ensures err == nil && emptyD(old(D)) ==> cnt(D) == 1 && hcnt(D) == 1 && idN(D, 1) == bid(genesis) && isHead(D, 1) && headOf(D, 1) == 1
  ensures [C01] err == nil && emptyD(old(D)) ==> blkTs(D, 1) == genesis.Timestamp && gen(D, 1) == addrOfPK(s.scheme, genesis.GeneratorPublicKey) && scr(D, 1) == blockScore(genesis.BaseTarget)
  ensures err == nil && emptyD(old(D)) ==> forall a: Addr {aKey(a)} :: !lsd(D, a)
  use tree_def, anc_valid
