package chains

// the history of calls
ghost [C21] nPB Int
ghost [C21] pbBlk Ref
ghost [C21] pbWho Addr
ghost [C21] pbErr Err
ghost [C21] nPM Int
ghost [C21] pmInv Ref
ghost [C21] pmWho Addr

macro okL0(l) = l.mu != nil && l.st != nil && l.st.db != nil
// the block record n of database d is what the key block b determines, p being the number of its parent
macro keyBlock(d, e, b, s) = par(e, cnt(e)) == num(d, b.Parent) && hgt(e, cnt(e)) == hgt(d, num(d, b.Parent)) + 1 && blkTs(e, cnt(e)) == b.Timestamp && idN(e, cnt(e)) == bid(b) && gen(e, cnt(e)) == addrOfPK(s, b.GeneratorPublicKey) && scr(e, cnt(e)) == scr(d, num(d, b.Parent)) + blockScore(b.BaseTarget)
macro microBlock(d, e, m) = par(e, cnt(e)) == par(d, num(d, m.Reference)) && hgt(e, cnt(e)) == hgt(d, num(d, m.Reference)) && blkTs(e, cnt(e)) == blkTs(d, num(d, m.Reference)) && idN(e, cnt(e)) == m.TotalBlockID && gen(e, cnt(e)) == gen(d, num(d, m.Reference)) && scr(e, cnt(e)) == scr(d, num(d, m.Reference))
macro leashMoved(d, e, a, i) = e == store(d, BAddr(3, a), some(BIdV(i)))

func (*Linkage).PutBlock(l, block, addr) (err)
  root C01, C04, C05, C06, C22
  record [C21] nPB = nPB + 1
  record [C21] pbBlk = block
  record [C21] pbWho = addr
  record [C21] pbErr = err
  requires okL0(l) && block != nil && WF_D(D)
  requires okID(bid(block)) && okAddr(addr)
  requires cnt(D) < 4294967295
  requires [C22] lkD == 0
  modifies D
  let d0 = D
  ensures WF_D(D)
  ensures [C05,C06] err == nil && has(d0, bid(block)) ==> leashMoved(d0, D, addr, bid(block))
  ensures [C06] err != nil && has(d0, bid(block)) ==> D == d0 && isIO(err)
  ensures !has(d0, bid(block)) && !has(d0, block.Parent) ==> D == d0 && err != nil && (isIO(err) || isE(err, chains.ErrParentNotFound))
  ensures err == nil && !has(d0, bid(block)) ==> addedRec(d0, D, bid(block)) && sameOtherLeashes(d0, D, addr) && lsd(D, addr) && lsh(D, addr) == bid(block)
  ensures [C01] err == nil && !has(d0, bid(block)) ==> keyBlock(d0, D, block, l.st.scheme)
  ensures [C04] err == nil && !has(d0, bid(block)) ==> movedHead(d0, D, num(d0, block.Parent))
  ensures [C06] err != nil && !has(d0, bid(block)) ==> D == d0 || (addedRec(d0, D, bid(block)) && sameLeashes(d0, D) && isIO(err))
  ensures [C06] err == nil && !has(d0, bid(block)) ==> has(d0, block.Parent)
  ensures isE(err, chains.ErrParentNotFound) ==> !has(d0, bid(block)) && !has(d0, block.Parent)

func (*Linkage).PutMicroBlock(l, inv, addr) (err)
  root C01, C04, C05, C06, C22
  record [C21] nPM = nPM + 1
  record [C21] pmInv = inv
  record [C21] pmWho = addr
  requires okL0(l) && inv != nil && WF_D(D)
  requires okID(inv.TotalBlockID) && okAddr(addr)
  requires cnt(D) < 4294967295
  requires [C22] lkD == 0
  modifies D
  let d0 = D
  ensures WF_D(D)
  ensures [C05,C06] err == nil && has(d0, inv.TotalBlockID) ==> leashMoved(d0, D, addr, inv.TotalBlockID)
  ensures [C06] err != nil && has(d0, inv.TotalBlockID) ==> D == d0 && isIO(err)
  ensures !has(d0, inv.TotalBlockID) && !has(d0, inv.Reference) ==> D == d0 && err != nil && (isIO(err) || isE(err, chains.ErrRefNotFound))
  ensures err == nil && !has(d0, inv.TotalBlockID) ==> addedRec(d0, D, inv.TotalBlockID) && sameOtherLeashes(d0, D, addr) && lsd(D, addr) && lsh(D, addr) == inv.TotalBlockID
  ensures [C01] err == nil && !has(d0, inv.TotalBlockID) ==> microBlock(d0, D, inv)
  ensures [C04] err == nil && !has(d0, inv.TotalBlockID) ==> movedHead(d0, D, num(d0, inv.Reference))
  ensures [C06] err != nil && !has(d0, inv.TotalBlockID) ==> D == d0 || (addedRec(d0, D, inv.TotalBlockID) && sameLeashes(d0, D) && isIO(err))
  ensures [C06] err == nil && !has(d0, inv.TotalBlockID) ==> has(d0, inv.Reference)

func (*Linkage).MoveLeash(l, id, addr) (err)
  root C05, C22
  requires okL0(l) && WF_D(D) && okAddr(addr) && has(D, id)
  requires [C22] lkD == 0
  modifies D
  ensures WF_D(D)
  ensures err == nil ==> leashMoved(old(D), D, addr, id)
  ensures err != nil ==> D == old(D) && isIO(err)

func (*Linkage).Leash(l, addr) (id, err)
  root C05, C22
  requires okL0(l) && WF_D(D)
  requires [C22] lkD == 0
  ensures err == nil ==> id == ite(lsd(D, unz(addr)), lsh(D, unz(addr)), l.genesis)
  ensures err != nil ==> isIO(err)

func (*Linkage).HasLeash(l, addr) (ok, err)
  root C05, C22
  requires okL0(l) && WF_D(D)
  requires [C22] lkD == 0
  ensures err == nil ==> (ok <==> lsd(D, unz(addr)))
  ensures err != nil ==> isIO(err)

func (*Linkage).LeashScore(l, addr) (s, err)
  root C05, C22
  requires okL0(l) && WF_D(D) && has(D, l.genesis)
  requires [C22] lkD == 0
  ensures err == nil ==> s != nil && big(s) == scr(D, num(D, ite(lsd(D, unz(addr)), lsh(D, unz(addr)), l.genesis)))
  ensures err != nil ==> s == nil

func (*Linkage).HasBlock(l, id) (ok, err)
  root C06, C22
  requires okL0(l) && WF_D(D)
  requires [C22] lkD == 0
  ensures err == nil ==> (ok <==> has(D, id))
  ensures err != nil ==> isIO(err)

func (*Linkage).block(l, id) (b, err)
  requires okL0(l) && WF_D(D)
  requires [C22] lkD >= 1
  ensures err == nil ==> has(D, id) && isBlockOf(D, b, num(D, id)) && b.ID == id
  ensures err != nil ==> isIO(err) || notFound(err)
  ensures notFound(err) ==> !has(D, id)

func (*Linkage).Block(l, id) (b, err)
  root C01, C22
  requires okL0(l) && WF_D(D)
  requires [C22] lkD == 0
  ensures err == nil ==> has(D, id) && isBlockOf(D, b, num(D, id)) && b.ID == id
  ensures err != nil ==> isIO(err) || notFound(err)
  ensures notFound(err) ==> !has(D, id)

func (*Linkage).LastIDs(l, id, count) (r, err)
  root C03, C22
  requires okL0(l) && WF_D(D)
  requires [C22] lkD == 0
  ensures err == nil ==> has(D, id) && len(r) == maxLen(D, num(D, id), count)
  ensures err == nil ==> forall k: Int {r[k]} :: 0 <= k && k < len(r) ==> r[k] == idN(D, anc(D, num(D, id), k))
  ensures err != nil ==> isIO(err) || (notFound(err) && !has(D, id))

func (*Linkage).Leashes(l) (r, err)
  root C05, C22
  requires okL0(l) && WF_D(D)
  requires [C22] lkD == 0
  ensures err == nil ==> forall k: Int {r[k]} :: 0 <= k && k < len(r) ==> lsd(D, r[k].Addr) && r[k].BlockID == lsh(D, r[k].Addr)
  ensures err == nil ==> forall a: Addr {aKey(a)} :: lsd(D, a) ==> exists k: Int {r[k]} :: 0 <= k && k < len(r) && r[k].Addr == a
  ensures err == nil ==> forall k: Int, m: Int {r[k], r[m]} :: 0 <= k && k < m && m < len(r) ==> r[k].Addr != r[m].Addr
  ensures err != nil ==> isIO(err)

func (*Linkage).Heads(l) (r, err)
  root C04, C22
  requires okL0(l) && WF_D(D)
  requires [C22] lkD == 0
  ensures err == nil ==> forall k: Int {r[k]} :: 0 <= k && k < len(r) ==> hasH(D, r[k].ID) && r[k].BlockID == idN(D, hblk(D, r[k].ID))
  ensures err == nil ==> forall h: Int {hKey(h)} :: hasH(D, h) ==> exists k: Int {r[k]} :: 0 <= k && k < len(r) && r[k].ID == h
  ensures err == nil ==> forall k: Int, m: Int {r[k], r[m]} :: 0 <= k && k < m && m < len(r) ==> r[k].ID != r[m].ID
  ensures err != nil ==> isIO(err)

func (*Linkage).activeHeads(l) (r, err)
  requires okL0(l) && WF_D(D)
  requires [C22] lkD >= 1
  inv (?m:map[proto.BlockID]struct{}, ?ls:[]chains.Leash, ?i:int) forall k: Int {ls[k]} :: 0 <= k && k < i ==> ls[k].BlockID in m
  inv (?m:map[proto.BlockID]struct{}, ?ls:[]chains.Leash) forall b: BlockID {b in m} :: b in m ==> exists k: Int {ls[k]} :: 0 <= k && k < len(ls) && ls[k].BlockID == b
  inv (?r:[]chains.Head, ?m:map[proto.BlockID]struct{}) forall k: Int {r[k]} :: 0 <= k && k < len(r) ==> hasH(D, r[k].ID) && r[k].BlockID == idN(D, hblk(D, r[k].ID)) && r[k].BlockID in m
  inv (?r:[]chains.Head, ?hs:[]chains.Head, ?m:map[proto.BlockID]struct{}, ?i:int) forall j: Int {hs[j]} :: 0 <= j && j < i && hs[j].BlockID in m ==> exists k: Int {r[k]} :: 0 <= k && k < len(r) && r[k].ID == hs[j].ID
  inv (?r:[]chains.Head, ?hs:[]chains.Head, ?i:int) forall k: Int, j: Int {r[k], hs[j]} :: 0 <= k && k < len(r) && i <= j && j < len(hs) ==> r[k].ID != hs[j].ID
  inv (?r:[]chains.Head) forall k: Int, m: Int {r[k], r[m]} :: 0 <= k && k < m && m < len(r) ==> r[k].ID != r[m].ID
  ensures err == nil ==> forall k: Int {r[k]} :: 0 <= k && k < len(r) ==> hasH(D, r[k].ID) && r[k].BlockID == idN(D, hblk(D, r[k].ID)) && (exists a: Addr {aKey(a)} :: lsd(D, a) && lsh(D, a) == r[k].BlockID)
  ensures err == nil ==> forall h: Int, a: Addr {hKey(h), aKey(a)} :: hasH(D, h) && lsd(D, a) && lsh(D, a) == idN(D, hblk(D, h)) ==> exists k: Int {r[k]} :: 0 <= k && k < len(r) && r[k].ID == h
  ensures err == nil ==> forall k: Int, m: Int {r[k], r[m]} :: 0 <= k && k < m && m < len(r) ==> r[k].ID != r[m].ID
  ensures err != nil ==> isIO(err)

func (*Linkage).ActiveHeads(l) (r, err)
  root C04, C22
  requires okL0(l) && WF_D(D)
  requires [C22] lkD == 0
  ensures err == nil ==> forall k: Int {r[k]} :: 0 <= k && k < len(r) ==> hasH(D, r[k].ID) && r[k].BlockID == idN(D, hblk(D, r[k].ID)) && (exists a: Addr {aKey(a)} :: lsd(D, a) && lsh(D, a) == r[k].BlockID)
  ensures err == nil ==> forall h: Int, a: Addr {hKey(h), aKey(a)} :: hasH(D, h) && lsd(D, a) && lsh(D, a) == idN(D, hblk(D, h)) ==> exists k: Int {r[k]} :: 0 <= k && k < len(r) && r[k].ID == h
  ensures err == nil ==> forall k: Int, m: Int {r[k], r[m]} :: 0 <= k && k < m && m < len(r) ==> r[k].ID != r[m].ID
  ensures err != nil ==> isIO(err)
