package chains

theory {
; number of peers leashed to a block: the length of any exact listing of them
(declare-fun nLsh (DB BlockID) Int)
(define okListing ((D DB) (s Slc_Addr) (b BlockID)) Bool (and
  (forall ((j Int)) (! (=> (and (<= 0 j) (< j (len_Addr s))) (and (lsd D (select (arr_Addr s) j)) (= (lsh D (select (arr_Addr s) j)) b))) :pattern ((select (arr_Addr s) j))))
  (forall ((j Int) (k Int)) (! (=> (and (<= 0 j) (< j k) (< k (len_Addr s))) (not (= (select (arr_Addr s) j) (select (arr_Addr s) k)))) :pattern ((select (arr_Addr s) j) (select (arr_Addr s) k))))
  (forall ((a Addr)) (! (=> (and (lsd D a) (= (lsh D a) b)) (exists ((j Int)) (and (<= 0 j) (< j (len_Addr s)) (= (select (arr_Addr s) j) a)))) :pattern ((aKey a))))))
(declare-fun listing (DB Slc_Addr BlockID) Bool)
(definition listing_def (forall ((D DB) (s Slc_Addr) (b BlockID)) (! (= (listing D s b) (okListing D s b)) :pattern ((listing D s b)))))
(axiom nLsh_ax (forall ((D DB) (s Slc_Addr) (b BlockID)) (! (=> (listing D s b) (= (nLsh D b) (len_Addr s))) :pattern ((listing D s b)))))
; L is a leashed block of maximal score, ties broken by the number of peers
(define maxL ((D DB) (L BlockID)) Bool (and
  (exists ((a Addr)) (! (and (lsd D a) (= (lsh D a) L)) :pattern ((aKey a))))
  (forall ((a Addr)) (! (=> (lsd D a) (or (< (scr D (num D (lsh D a))) (scr D (num D L))) (and (= (scr D (num D (lsh D a))) (scr D (num D L))) (<= (nLsh D (lsh D a)) (nLsh D L))))) :pattern ((aKey a))))))
(define forkData ((D DB) (f S_chains.Fork)) Bool (and (has D (S_chains.Fork.HeadBlock f))
  (= (S_chains.Fork.HeadTimestamp f) (* 1000000 (safeTs (blkTs D (num D (S_chains.Fork.HeadBlock f))))))
  (= (S_chains.Fork.HeadGenerator f) (gen D (num D (S_chains.Fork.HeadBlock f))))
  (= (S_chains.Fork.HeadHeight f) (hgt D (num D (S_chains.Fork.HeadBlock f))))
  (= (S_chains.Fork.Score f) (S_chains.block.Score (blk D (num D (S_chains.Fork.HeadBlock f)))))
  (= (S_chains.Fork.PeersCount f) (len_Addr (S_chains.Fork.Peers f)))))
}

func (*Linkage).LCB(l, peer) (id, err)
  root C08, C22
  requires okL0(l) && WF_D(D)
  requires okAddr(peer)
  requires [C22] lkD == 0
  let head = lsh(D, peer)
  inv (?m:map[proto.BlockID][]netip.Addr) forall b: BlockID {m[b]} :: b in m ==> len(m[b]) > 0 && has(D, b) && lsd(D, m[b][0]) && lsh(D, m[b][0]) == b
  inv (?m:map[proto.BlockID][]netip.Addr) forall b: BlockID, j: Int {m[b][j]} :: b in m && 0 <= j && j < len(m[b]) ==> lsd(D, m[b][j]) && lsh(D, m[b][j]) == b
  inv (?m:map[proto.BlockID][]netip.Addr, ?ls:[]chains.Leash, ?i:int) forall b: BlockID, j: Int, k: Int {m[b][j], ls[k]} :: b in m && 0 <= j && j < len(m[b]) && i <= k && k < len(ls) ==> ls[k].Addr != m[b][j]
  inv (?m:map[proto.BlockID][]netip.Addr) forall b: BlockID, j: Int, k: Int {m[b][j], m[b][k]} :: b in m && 0 <= j && j < k && k < len(m[b]) ==> m[b][j] != m[b][k]
  inv (?m:map[proto.BlockID][]netip.Addr, ?ls:[]chains.Leash, ?i:int) forall k: Int {ls[k]} :: 0 <= k && k < i ==> ls[k].BlockID in m && (exists j: Int {m[ls[k].BlockID][j]} :: 0 <= j && j < len(m[ls[k].BlockID]) && m[ls[k].BlockID][j] == ls[k].Addr)
  inv (?it:iter, ?m:map[proto.BlockID][]netip.Addr) forall b: BlockID {nLsh(D, b)} {m[b]} :: b in m ==> listing(D, m[b], b) && nLsh(D, b) == len(m[b])
  inv (?it:iter, ?score:*big.Int, ?peers:int) it.pos == 0 ==> big(score) == 0 && peers == 0
  inv (?it:iter, ?score:*big.Int, ?peers:int, ?longest:proto.BlockID, ?m:map[proto.BlockID][]netip.Addr) it.pos > 0 ==> longest in m && idx(it, longest) < it.pos && big(score) == scr(D, num(D, longest)) && peers == len(m[longest])
  inv (?it:iter, ?score:*big.Int, ?peers:int, ?m:map[proto.BlockID][]netip.Addr) forall k: Int {it.seq[k]} :: 0 <= k && k < it.pos ==> scr(D, num(D, it.seq[k])) < big(score) || (scr(D, num(D, it.seq[k])) == big(score) && len(m[it.seq[k]]) <= peers)
  ensures err == nil && !lsd(D, peer) ==> id == l.genesis
  ensures err == nil && lsd(D, peer) ==> (id == head && maxL(D, head)) || (exists L: BlockID {isLCA(D, num(D, id), num(D, L), num(D, head))} :: maxL(D, L) && has(D, id) && isLCA(D, num(D, id), num(D, L), num(D, head)))
  ensures err != nil ==> isIO(err)
  use listing_def

func (*Linkage).Fork(l, peer) (r, err)
  root C08, C22
  requires okL0(l) && WF_D(D)
  requires okAddr(peer)
  requires [C22] lkD == 0
  let head = lsh(D, peer)
  inv (?m:map[proto.BlockID][]netip.Addr) forall b: BlockID {m[b]} :: b in m ==> len(m[b]) > 0 && has(D, b) && lsd(D, m[b][0]) && lsh(D, m[b][0]) == b
  inv (?m:map[proto.BlockID][]netip.Addr) forall b: BlockID, j: Int {m[b][j]} :: b in m && 0 <= j && j < len(m[b]) ==> lsd(D, m[b][j]) && lsh(D, m[b][j]) == b
  inv (?m:map[proto.BlockID][]netip.Addr, ?ls:[]chains.Leash, ?i:int) forall b: BlockID, j: Int, k: Int {m[b][j], ls[k]} :: b in m && 0 <= j && j < len(m[b]) && i <= k && k < len(ls) ==> ls[k].Addr != m[b][j]
  inv (?m:map[proto.BlockID][]netip.Addr) forall b: BlockID, j: Int, k: Int {m[b][j], m[b][k]} :: b in m && 0 <= j && j < k && k < len(m[b]) ==> m[b][j] != m[b][k]
  inv (?m:map[proto.BlockID][]netip.Addr, ?ls:[]chains.Leash, ?i:int) forall k: Int {ls[k]} :: 0 <= k && k < i ==> ls[k].BlockID in m && (exists j: Int {m[ls[k].BlockID][j]} :: 0 <= j && j < len(m[ls[k].BlockID]) && m[ls[k].BlockID][j] == ls[k].Addr)
  inv (?it:iter, ?m:map[proto.BlockID][]netip.Addr) forall b: BlockID {nLsh(D, b)} {m[b]} :: b in m ==> listing(D, m[b], b) && nLsh(D, b) == len(m[b])
  inv (?it:iter, ?score:*big.Int, ?peers:int) it.pos == 0 ==> big(score) == 0 && peers == 0
  inv (?it:iter, ?score:*big.Int, ?peers:int, ?longest:proto.BlockID, ?m:map[proto.BlockID][]netip.Addr) it.pos > 0 ==> longest in m && idx(it, longest) < it.pos && big(score) == scr(D, num(D, longest)) && peers == len(m[longest])
  inv (?it:iter, ?score:*big.Int, ?peers:int, ?m:map[proto.BlockID][]netip.Addr) forall k: Int {it.seq[k]} :: 0 <= k && k < it.pos ==> scr(D, num(D, it.seq[k])) < big(score) || (scr(D, num(D, it.seq[k])) == big(score) && len(m[it.seq[k]]) <= peers)
  inv (?it:iter, ?f:chains.Fork, ?m:map[proto.BlockID][]netip.Addr) head in m && lsd(D, peer) && idx(it, head) < it.pos ==> forkData(D, f) && f.HeadBlock == head && listing(D, f.Peers, head) && f.LastCommonBlock == head && f.Length == hgt(D, num(D, head)) && !f.Longest
  inv (?it:iter, ?f:chains.Fork, ?m:map[proto.BlockID][]netip.Addr) !lsd(D, peer) || idx(it, head) >= it.pos ==> f.HeadBlock == zero_BlockID
  ensures err == nil && lsd(D, peer) ==> forkData(D, r) && r.HeadBlock == head
  ensures err == nil && lsd(D, peer) ==> okListing(D, r.Peers, head)
  ensures err == nil && lsd(D, peer) ==> (maxL(D, head) && r.Longest && r.LastCommonBlock == head && r.Length == 0) || (exists L: BlockID {isLCA(D, num(D, r.LastCommonBlock), num(D, L), num(D, head))} :: maxL(D, L) && L != head && !r.Longest && has(D, r.LastCommonBlock) && isLCA(D, num(D, r.LastCommonBlock), num(D, L), num(D, head)) && r.Length == hgt(D, num(D, head)) - hgt(D, num(D, r.LastCommonBlock)))
  ensures err != nil && lsd(D, peer) ==> isIO(err)
  use listing_def

macro isC(p, a) = len(p) == 0 || a in p

theory {
(define fArr ((s Slc_S_chains.Fork)) (Array Int S_chains.Fork) (arr_S_chains.Fork s))
(define fLen ((s Slc_S_chains.Fork)) Int (len_S_chains.Fork s))
; s is a fork report over all leashed peers
(define repData ((D DB) (s Slc_S_chains.Fork)) Bool (forall ((k Int)) (! (=> (and (<= 0 k) (< k (len_S_chains.Fork s))) (and (forkData D (select (arr_S_chains.Fork s) k)) (> (len_Addr (S_chains.Fork.Peers (select (arr_S_chains.Fork s) k))) 0))) :pattern ((select (arr_S_chains.Fork s) k)))))
(define repPeers ((D DB) (s Slc_S_chains.Fork)) Bool (forall ((k Int) (j Int)) (! (=> (and (<= 0 k) (< k (len_S_chains.Fork s)) (<= 0 j) (< j (len_Addr (S_chains.Fork.Peers (select (arr_S_chains.Fork s) k)))))
  (and (lsd D (select (arr_Addr (S_chains.Fork.Peers (select (arr_S_chains.Fork s) k))) j)) (= (lsh D (select (arr_Addr (S_chains.Fork.Peers (select (arr_S_chains.Fork s) k))) j)) (S_chains.Fork.HeadBlock (select (arr_S_chains.Fork s) k)))))
  :pattern ((select (arr_Addr (S_chains.Fork.Peers (select (arr_S_chains.Fork s) k))) j)))))
(define repAll ((D DB) (s Slc_S_chains.Fork)) Bool (forall ((a Addr)) (! (=> (lsd D a) (exists ((k Int)) (! (and (<= 0 k) (< k (len_S_chains.Fork s)) (= (S_chains.Fork.HeadBlock (select (arr_S_chains.Fork s) k)) (lsh D a))) :pattern ((select (arr_S_chains.Fork s) k))))) :pattern ((aKey a)))))
(define repOrd ((D DB) (s Slc_S_chains.Fork)) Bool (forall ((k Int) (j Int)) (! (=> (and (<= 0 k) (< k j) (< j (len_S_chains.Fork s))) (and (distinct (S_chains.Fork.HeadBlock (select (arr_S_chains.Fork s) k)) (S_chains.Fork.HeadBlock (select (arr_S_chains.Fork s) j)))
  (<= (scr D (num D (S_chains.Fork.HeadBlock (select (arr_S_chains.Fork s) j)))) (scr D (num D (S_chains.Fork.HeadBlock (select (arr_S_chains.Fork s) k)))))))
  :pattern ((select (arr_S_chains.Fork s) k) (select (arr_S_chains.Fork s) j)))))
(define repLen ((D DB) (s Slc_S_chains.Fork)) Bool (forall ((k Int)) (! (=> (and (<= 0 k) (< k (len_S_chains.Fork s))) (let ((f (select (arr_S_chains.Fork s) k))) (and (has D (S_chains.Fork.LastCommonBlock f))
  (isLCA D (num D (S_chains.Fork.LastCommonBlock f)) (num D (S_chains.Fork.HeadBlock (select (arr_S_chains.Fork s) 0))) (num D (S_chains.Fork.HeadBlock f)))
  (= (S_chains.Fork.Length f) (- (hgt D (num D (S_chains.Fork.HeadBlock f))) (hgt D (num D (S_chains.Fork.LastCommonBlock f)))))))) :pattern ((select (arr_S_chains.Fork s) k)))))
(define isReport ((D DB) (s Slc_S_chains.Fork)) Bool (and (repData D s) (repPeers D s) (repAll D s) (repOrd D s) (repLen D s)))
(declare-fun seen (Slc_S_chains.Fork) Bool)
(definition seen_def (forall ((s Slc_S_chains.Fork)) (! (seen s) :pattern ((seen s)))))
; among the first n entries, those longer than the threshold
(declare-fun nLong ((Array Int S_chains.Fork) Int) Int)
(definition nLong_0 (forall ((s (Array Int S_chains.Fork))) (! (= (nLong s 0) 0) :pattern ((nLong s 0)))))
(definition nLong_s (forall ((s (Array Int S_chains.Fork)) (a Int) (b Int)) (! (=> (and (<= 0 a) (= b (+ a 1))) (= (nLong s b) (+ (nLong s a) (ite (> (S_chains.Fork.Length (select s a)) 5) 1 0)))) :pattern ((nLong s a) (nLong s b)))))
; among the first j ancestors of block n, those made by g
(declare-fun nGen (DB Int Int WAddr) Int)
(definition nGen_0 (forall ((D DB) (n Int) (g WAddr)) (! (= (nGen D n 0 g) 0) :pattern ((nGen D n 0 g)))))
(definition nGen_s (forall ((D DB) (n Int) (a Int) (b Int) (g WAddr)) (! (=> (and (<= 0 a) (= b (+ a 1))) (= (nGen D n b g) (+ (nGen D n a g) (ite (= (gen D (anc D n a)) g) 1 0)))) :pattern ((nGen D n b g) (anc D n a)))))
}

func (*Linkage).forks(l, peers) (r, err)
  requires okL0(l) && WF_D(D)
  requires [C22] lkD >= 1
  inv (?m:map[proto.BlockID][]netip.Addr) forall b: BlockID {m[b]} :: b in m ==> len(m[b]) > 0 && has(D, b) && lsd(D, m[b][0]) && isC(peers, m[b][0]) && lsh(D, m[b][0]) == b
  inv (?m:map[proto.BlockID][]netip.Addr) forall b: BlockID, j: Int {m[b][j]} :: b in m && 0 <= j && j < len(m[b]) ==> lsd(D, m[b][j]) && lsh(D, m[b][j]) == b && isC(peers, m[b][j])
  inv (?m:map[proto.BlockID][]netip.Addr, ?ls:[]chains.Leash, ?i:int) forall b: BlockID, j: Int, k: Int {m[b][j], ls[k]} :: b in m && 0 <= j && j < len(m[b]) && i <= k && k < len(ls) ==> ls[k].Addr != m[b][j]
  inv (?m:map[proto.BlockID][]netip.Addr) forall b: BlockID, j: Int, k: Int {m[b][j], m[b][k]} :: b in m && 0 <= j && j < k && k < len(m[b]) ==> m[b][j] != m[b][k]
  inv (?m:map[proto.BlockID][]netip.Addr, ?ls:[]chains.Leash, ?i:int) forall k: Int {ls[k]} :: 0 <= k && k < i && isC(peers, ls[k].Addr) ==> ls[k].BlockID in m && (exists j: Int {m[ls[k].BlockID][j]} :: 0 <= j && j < len(m[ls[k].BlockID]) && m[ls[k].BlockID][j] == ls[k].Addr)
  inv (?r:[]chains.Fork, ?it:iter) len(r) == it.pos
  inv (?r:[]chains.Fork, ?it:iter, ?m:map[proto.BlockID][]netip.Addr) forall k: Int {r[k]} {it.seq[k]} :: 0 <= k && k < len(r) ==> r[k].HeadBlock == it.seq[k] && r[k].HeadBlock in m && r[k].Peers == m[it.seq[k]] && forkData(D, r[k]) && !r[k].Longest && r[k].Length == hgt(D, num(D, r[k].HeadBlock))
  // the loop that measures every fork against the first one
  inv (?r:[]chains.Fork) forall k: Int {r[k]} :: 0 <= k && k < len(r) ==> forkData(D, r[k]) && (r[k].Longest <==> k == 0)
  inv (?r:[]chains.Fork, ?m:map[proto.BlockID][]netip.Addr) forall k: Int {r[k]} :: 0 <= k && k < len(r) ==> r[k].HeadBlock in m && r[k].Peers == m[r[k].HeadBlock]
  inv (?r:[]chains.Fork, ?m:map[proto.BlockID][]netip.Addr) forall b: BlockID {m[b]} :: b in m ==> (exists k: Int {r[k]} :: 0 <= k && k < len(r) && r[k].HeadBlock == b)
  inv (?r:[]chains.Fork) forall k: Int, j: Int {r[k], r[j]} :: 0 <= k && k < j && j < len(r) ==> r[k].HeadBlock != r[j].HeadBlock
  inv (?r:[]chains.Fork) forall k: Int, j: Int {r[k], r[j]} :: 0 <= k && k < j && j < len(r) ==> scr(D, num(D, r[k].HeadBlock)) > scr(D, num(D, r[j].HeadBlock)) || (scr(D, num(D, r[k].HeadBlock)) == scr(D, num(D, r[j].HeadBlock)) && len(r[k].Peers) >= len(r[j].Peers))
  inv (?r:[]chains.Fork, ?i:int) forall k: Int {r[k]} :: 0 <= k && k < i ==> has(D, r[k].LastCommonBlock) && isLCA(D, num(D, r[k].LastCommonBlock), num(D, r[0].HeadBlock), num(D, r[k].HeadBlock)) && r[k].Length == hgt(D, num(D, r[k].HeadBlock)) - hgt(D, num(D, r[k].LastCommonBlock))
  inv (?r:[]chains.Fork, ?i:int) forall k: Int {r[k]} :: i <= k && k < len(r) ==> r[k].Length == hgt(D, num(D, r[k].HeadBlock))
  inv (?r:[]chains.Fork, ?longest:chains.Fork) r[0].HeadBlock == longest.HeadBlock && len(r) > 0
  inv (?r:[]chains.Fork, ?longest:proto.BlockID) r[0].HeadBlock == longest && len(r) > 0
  ensures err == nil ==> forall k: Int {r[k]} :: 0 <= k && k < len(r) ==> forkData(D, r[k])
  ensures err == nil ==> forall k: Int, j: Int {r[k].Peers[j]} :: 0 <= k && k < len(r) && 0 <= j && j < len(r[k].Peers) ==> lsd(D, r[k].Peers[j]) && lsh(D, r[k].Peers[j]) == r[k].HeadBlock && isC(peers, r[k].Peers[j])
  ensures err == nil ==> forall k: Int, i: Int, j: Int {r[k].Peers[i], r[k].Peers[j]} :: 0 <= k && k < len(r) && 0 <= i && i < j && j < len(r[k].Peers) ==> r[k].Peers[i] != r[k].Peers[j]
  ensures err == nil ==> forall a: Addr {aKey(a)} :: lsd(D, a) && isC(peers, a) ==> exists k: Int {r[k]} :: 0 <= k && k < len(r) && r[k].HeadBlock == lsh(D, a) && (exists j: Int {r[k].Peers[j]} :: 0 <= j && j < len(r[k].Peers) && r[k].Peers[j] == a)
  ensures err == nil ==> forall k: Int {r[k]} :: 0 <= k && k < len(r) ==> len(r[k].Peers) > 0
  ensures err == nil ==> forall k: Int, j: Int {r[k], r[j]} :: 0 <= k && k < j && j < len(r) ==> r[k].HeadBlock != r[j].HeadBlock
  ensures err == nil ==> forall k: Int, j: Int {r[k], r[j]} :: 0 <= k && k < j && j < len(r) ==> scr(D, num(D, r[k].HeadBlock)) > scr(D, num(D, r[j].HeadBlock)) || (scr(D, num(D, r[k].HeadBlock)) == scr(D, num(D, r[j].HeadBlock)) && len(r[k].Peers) >= len(r[j].Peers))
  ensures err == nil ==> forall k: Int {r[k]} :: 0 <= k && k < len(r) ==> (r[k].Longest <==> k == 0)
  ensures err == nil ==> forall k: Int {r[k]} :: 0 <= k && k < len(r) ==> has(D, r[k].LastCommonBlock) && isLCA(D, num(D, r[k].LastCommonBlock), num(D, r[0].HeadBlock), num(D, r[k].HeadBlock)) && r[k].Length == hgt(D, num(D, r[k].HeadBlock)) - hgt(D, num(D, r[k].LastCommonBlock))
  ensures err != nil ==> isIO(err)
  ensures err == nil ==> seen(r)
  use seen_def

func (*Linkage).Forks(l, peers) (r, err)
  root C07, C22
  requires okL0(l) && WF_D(D)
  requires [C22] lkD == 0
  ensures err == nil ==> forall k: Int {r[k]} :: 0 <= k && k < len(r) ==> forkData(D, r[k])
  ensures err == nil ==> forall k: Int, j: Int {r[k].Peers[j]} :: 0 <= k && k < len(r) && 0 <= j && j < len(r[k].Peers) ==> lsd(D, r[k].Peers[j]) && lsh(D, r[k].Peers[j]) == r[k].HeadBlock && isC(peers, r[k].Peers[j])
  ensures err == nil ==> forall k: Int, i: Int, j: Int {r[k].Peers[i], r[k].Peers[j]} :: 0 <= k && k < len(r) && 0 <= i && i < j && j < len(r[k].Peers) ==> r[k].Peers[i] != r[k].Peers[j]
  ensures err == nil ==> forall a: Addr {aKey(a)} :: lsd(D, a) && isC(peers, a) ==> exists k: Int {r[k]} :: 0 <= k && k < len(r) && r[k].HeadBlock == lsh(D, a) && (exists j: Int {r[k].Peers[j]} :: 0 <= j && j < len(r[k].Peers) && r[k].Peers[j] == a)
  ensures err == nil ==> forall k: Int {r[k]} :: 0 <= k && k < len(r) ==> len(r[k].Peers) > 0
  ensures err == nil ==> forall k: Int, j: Int {r[k], r[j]} :: 0 <= k && k < j && j < len(r) ==> r[k].HeadBlock != r[j].HeadBlock
  ensures err == nil ==> forall k: Int, j: Int {r[k], r[j]} :: 0 <= k && k < j && j < len(r) ==> scr(D, num(D, r[k].HeadBlock)) > scr(D, num(D, r[j].HeadBlock)) || (scr(D, num(D, r[k].HeadBlock)) == scr(D, num(D, r[j].HeadBlock)) && len(r[k].Peers) >= len(r[j].Peers))
  ensures err == nil ==> forall k: Int {r[k]} :: 0 <= k && k < len(r) ==> (r[k].Longest <==> k == 0)
  ensures err == nil ==> forall k: Int {r[k]} :: 0 <= k && k < len(r) ==> has(D, r[k].LastCommonBlock) && isLCA(D, num(D, r[k].LastCommonBlock), num(D, r[0].HeadBlock), num(D, r[k].HeadBlock)) && r[k].Length == hgt(D, num(D, r[k].HeadBlock)) - hgt(D, num(D, r[k].LastCommonBlock))
  ensures err != nil ==> isIO(err)

func (*Linkage).Stats(l) (r, err)
  root C07, C22
  requires okL0(l) && WF_D(D)
  requires [C22] lkD == 0
  inv (?r:chains.Stats, ?fs:[]chains.Fork, ?i:int) r.Long == nLong(arr(fs), i) && r.Short + r.Long == i && r.Short >= 0 && r.Long >= 0
  ensures err == nil ==> exists s: Slc_S_chains.Fork {seen(s)} :: isReport(D, s) && r.Long == nLong(fArr(s), fLen(s)) && r.Short + r.Long == fLen(s)
  ensures err != nil ==> isIO(err)
  use seen_def, nLong_0, nLong_s

func (*Linkage).ForkGenerators(l, blockID, count) (r, err)
  root C03, C22
  requires okL0(l) && WF_D(D)
  requires [C22] lkD == 0
  let n0 = num(D, blockID)
  inv (?m:map[proto.WavesAddress]int, ?i:int) forall g: WAddr {m[g]} :: (g in m <==> nGen(D, n0, i, g) > 0) && nGen(D, n0, i, g) >= 0 && nGen(D, n0, i, g) <= i && m[g] == nGen(D, n0, i, g)
  inv (?m:map[proto.WavesAddress]int, ?i:int) forall k: Int {anc(D, n0, k)} :: 0 <= k && k < i ==> gen(D, anc(D, n0, k)) in m
  inv (?r:[]chains.GeneratorStats, ?it:iter) len(r) == it.pos
  inv (?r:[]chains.GeneratorStats, ?it:iter, ?m:map[proto.WavesAddress]int) forall k: Int {r[k]} {it.seq[k]} :: 0 <= k && k < len(r) ==> r[k].Generator == it.seq[k] && r[k].Blocks == m[r[k].Generator] && r[k].Generator in m
  ensures err == nil ==> has(D, blockID)
  ensures err == nil ==> forall k: Int {r[k]} :: 0 <= k && k < len(r) ==> r[k].Blocks > 0 && r[k].Blocks == nGen(D, n0, maxLen(D, n0, count), r[k].Generator)
  ensures err == nil ==> forall k: Int, j: Int {r[k], r[j]} :: 0 <= k && k < j && j < len(r) ==> r[k].Generator != r[j].Generator && r[k].Blocks >= r[j].Blocks
  ensures err == nil ==> forall k: Int {anc(D, n0, k)} :: 0 <= k && k < maxLen(D, n0, count) ==> exists j: Int {r[j]} :: 0 <= j && j < len(r) && r[j].Generator == gen(D, anc(D, n0, k))
  ensures err != nil ==> isIO(err) || (notFound(err) && !has(D, blockID))
  use nGen_0, nGen_s, anc_valid

func (*Linkage).LogInitialStats(l) ()
  root C10, C22
  requires okL0(l) && WF_D(D)
  requires [C22] lkD == 0
