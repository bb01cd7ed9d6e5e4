package chains

func calculateScore(baseTarget) (r)
  root C09, C01
  requires 0 <= baseTarget
  ensures r != nil && big(r) == blockScore(baseTarget)

func calculateCumulativeScore(parentScore, baseTarget) (r)
  root C09, C01
  ensures r != nil
  ensures big(r) == blockScore(baseTarget) + ite(parentScore == nil, 0, big(parentScore))

func (*storage).getCounter(s, sn, counterID) (n, err)
  requires sn != nil
  requires wfCnt(view(sn)) || !is-some(view(sn)[BCtr(0, counterID)])
  requires counterID == 0 || counterID == 1
  ensures err == nil ==> n == ite(is-some(view(sn)[BCtr(0, counterID)]), u64of(optv(view(sn)[BCtr(0, counterID)])), 0)
  ensures err != nil ==> isIO(err)

func (*storage).getNumOfBlockID(s, sn, id) (n, err)
  requires sn != nil
  ensures err == nil ==> has(view(sn), id) && n == num(view(sn), id)
  ensures err != nil ==> isIO(err) || notFound(err) || (has(view(sn), id) && blen(optv(view(sn)[BID(1, id)])) != 8)
  ensures notFound(err) ==> !has(view(sn), id)
  ensures isIO(err) ==> err != nil && !notFound(err)

func (*storage).getBlock(s, sn, num) (b, err)
  requires sn != nil
  ensures err == nil ==> hasB(view(sn), num) && isblk(view(sn), num) && term(b) == blk(view(sn), num)
  ensures err != nil ==> isIO(err) || !hasB(view(sn), num) || !isblk(view(sn), num)
  ensures notFound(err) ==> !hasB(view(sn), num)
  ensures isIO(err) ==> !notFound(err)

func (*storage).getLink(s, sn, num) (l, err)
  requires sn != nil
  ensures err == nil ==> hasL(view(sn), num) && islnk(view(sn), num) && term(l) == lnk(view(sn), num)
  ensures err != nil ==> isIO(err) || !hasL(view(sn), num) || !islnk(view(sn), num)
  ensures notFound(err) ==> !hasL(view(sn), num)
  ensures isIO(err) ==> !notFound(err)

func (*storage).getBlockByID(s, sn, id) (b, err)
  requires sn != nil
  requires WF_D(view(sn))
  ensures err == nil ==> has(view(sn), id) && term(b) == blk(view(sn), num(view(sn), id))
  ensures err != nil ==> isIO(err) || notFound(err)
  ensures notFound(err) ==> !has(view(sn), id)
  ensures isIO(err) ==> !notFound(err)

func (*storage).getLinkByID(s, sn, id) (l, err)
  requires sn != nil
  requires WF_D(view(sn))
  ensures err == nil ==> has(view(sn), id) && term(l) == lnk(view(sn), num(view(sn), id))
  ensures err != nil ==> isIO(err) || notFound(err)
  ensures notFound(err) ==> !has(view(sn), id)
  ensures isIO(err) ==> !notFound(err)

func (*storage).getLeash(s, sn, addr) (id, err)
  requires sn != nil
  requires wfLeash(view(sn))
  ensures err == nil ==> lsd(view(sn), unz(addr)) && id == lsh(view(sn), unz(addr))
  ensures err != nil ==> isIO(err) || notFound(err)
  ensures notFound(err) ==> !lsd(view(sn), unz(addr))
  ensures isIO(err) ==> !notFound(err)

func (*storage).getHeadByBlockNum(s, sn, blockNum) (h, err)
  requires sn != nil
  requires wfHead(view(sn))
  ensures err == nil ==> isHead(view(sn), blockNum) && h == headOf(view(sn), blockNum)
  ensures err != nil ==> isIO(err) || notFound(err)
  ensures notFound(err) ==> !isHead(view(sn), blockNum)
  ensures isIO(err) ==> !notFound(err)

// ---- point queries with their own snapshot ----
func (*storage).block(s, id) (b, err)
  requires s.db != nil
  requires WF_D(D)
  requires [C22] lkD >= 1
  ensures err == nil ==> has(D, id) && term(b) == blk(D, num(D, id))
  ensures err != nil ==> isIO(err) || notFound(err)
  ensures notFound(err) ==> !has(D, id)
  ensures isIO(err) ==> !notFound(err)

func (*storage).hasBlock(s, id) (ok, err)
  requires s.db != nil
  requires WF_D(D)
  requires [C22] lkD >= 1
  ensures err == nil ==> (ok <==> has(D, id))
  ensures err != nil ==> isIO(err)

func (*storage).leash(s, addr) (id, err)
  requires s.db != nil
  requires WF_D(D)
  requires [C22] lkD >= 1
  ensures err == nil ==> lsd(D, unz(addr)) && id == lsh(D, unz(addr))
  ensures err != nil ==> isIO(err) || notFound(err)
  ensures notFound(err) ==> !lsd(D, unz(addr))
  ensures isIO(err) ==> !notFound(err)

func (*storage).updateLeash(s, addr, id) (err)
  requires s.db != nil
  requires WF_D(D)
  requires has(D, id) && okAddr(addr)
  requires [C22] lkD == 2
  modifies D
  ensures err == nil ==> D == store(old(D), BAddr(3, addr), some(BIdV(id)))
  ensures err != nil ==> D == old(D)
  ensures err != nil ==> isIO(err)
  ensures WF_D(D)
  use anc_frame, tree_def
