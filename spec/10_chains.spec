package chains

// ghost state: the contents of the chain database, the state of the linkage
// lock (0 free, 1 read-locked, 2 write-locked), open snapshots and iterators
ghost D DB
ghost [C22] lkD Int
ghost [C22] openSnap Int
ghost [C22] openIter Int

theory {
(define cnt ((D DB)) Int (u64of (optv (select D (BCtr 0 0)))))
(define hcnt ((D DB)) Int (u64of (optv (select D (BCtr 0 1)))))
(define has ((D DB) (i BlockID)) Bool (is-some (select D (BID 1 i))))
(define num ((D DB) (i BlockID)) Int (u64of (optv (select D (BID 1 i)))))
(define hasB ((D DB) (n Int)) Bool (is-some (select D (BNum 1 n))))
(define hasL ((D DB) (n Int)) Bool (is-some (select D (BNum 2 n))))
(define blk ((D DB) (n Int)) S_chains.block (dec_chains.block (optv (select D (BNum 1 n)))))
(define lnk ((D DB) (n Int)) S_chains.link (dec_chains.link (optv (select D (BNum 2 n)))))
(define isblk ((D DB) (n Int)) Bool (isdec_chains.block (optv (select D (BNum 1 n)))))
(define islnk ((D DB) (n Int)) Bool (isdec_chains.link (optv (select D (BNum 2 n)))))
(define idb ((D DB) (n Int)) Bytes (S_chains.block.ID (blk D n)))
(define idN ((D DB) (n Int)) BlockID (idof (idb D n)))
(define hgt ((D DB) (n Int)) Int (S_chains.block.Height (blk D n)))
(define nPar ((D DB) (n Int)) Int (len_Int (S_chains.link.Parents (lnk D n))))
(define parI ((D DB) (n Int) (i Int)) Int (select (arr_Int (S_chains.link.Parents (lnk D n))) i))
(define par ((D DB) (n Int)) Int (parI D n 0))
(define scr ((D DB) (n Int)) Int (bigval (S_chains.block.Score (blk D n))))
(define gen ((D DB) (n Int)) WAddr (gof (S_chains.block.Generator (blk D n))))
(define lsd ((D DB) (a Addr)) Bool (is-some (select D (BAddr 3 a))))
(define lsh ((D DB) (a Addr)) BlockID (idof (optv (select D (BAddr 3 a)))))
(define hasH ((D DB) (h Int)) Bool (is-some (select D (BNum 4 h))))
(define hblk ((D DB) (h Int)) Int (u64of (optv (select D (BNum 4 h)))))
(define isHead ((D DB) (n Int)) Bool (is-some (select D (BNum 5 n))))
(define headOf ((D DB) (n Int)) Int (u64of (optv (select D (BNum 5 n)))))
(define blockScore ((b Int)) Int (ite (= b 0) 0 (div 18446744073709551616 b)))

; anc D n k: the ancestor of block n that is k blocks before it
(declare-fun anc (DB Int Int) Int)
(axiom anc_0 (forall ((D DB) (n Int)) (! (= (anc D n 0) n) :pattern ((anc D n 0)))))
; unfolding on demand: ancu is a marker
(declare-fun ancu (DB Int Int) Bool)
(axiom anc_u (forall ((D DB) (n Int) (k Int)) (! (=> (>= k 0) (= (anc D n (+ k 1)) (par D (anc D n k)))) :pattern ((ancu D n k)))))
(axiom anc_1 (forall ((D DB) (n Int)) (! (= (anc D n 1) (par D n)) :pattern ((anc D n 1)))))

; marker relating the database before and after a write
(declare-fun step_D (DB DB) Bool)

; ---- well-formedness of the chain database ----
(define valid ((D DB) (n Int)) Bool (and (<= 1 n) (<= n (cnt D))))
(define wfCnt ((D DB)) Bool (and (= (select D (BCtr 0 0)) (some (BU64 (cnt D)))) (= (select D (BCtr 0 1)) (some (BU64 (hcnt D)))) (<= 1 (cnt D)) (<= (cnt D) 4294967295) (<= 1 (hcnt D)) (<= (hcnt D) (cnt D))))
(define wfRec ((D DB)) Bool (and
  (forall ((n Int)) (! (= (hasB D n) (valid D n)) :pattern ((select D (BNum 1 n)))))
  (forall ((n Int)) (! (= (hasL D n) (valid D n)) :pattern ((select D (BNum 2 n)))))
  (forall ((n Int)) (! (=> (valid D n) (isblk D n)) :pattern ((select D (BNum 1 n)))))
  (forall ((n Int)) (! (=> (valid D n) (islnk D n)) :pattern ((select D (BNum 2 n)))))))
(define wfId ((D DB)) Bool (and
  (forall ((i BlockID)) (! (=> (has D i) (and (okID i) (valid D (num D i)) (= (select D (BID 1 i)) (some (BU64 (num D i)))) (= (idb D (num D i)) (BIdV i)))) :pattern ((select D (BID 1 i)))))
  (forall ((n Int)) (! (=> (valid D n) (and (isid (idb D n)) (= (idb D n) (BIdV (idN D n))) (= (select D (BID 1 (idN D n))) (some (BU64 n))))) :pattern ((select D (BNum 1 n)))))))
(define wfLink ((D DB)) Bool
  (forall ((n Int)) (! (=> (valid D n) (and (= (S_chains.link.BlockID (lnk D n)) (idb D n)) (= (S_chains.link.Height (lnk D n)) (hgt D n)))) :pattern ((select D (BNum 2 n))))))
(define wfTree ((D DB)) Bool (and
  (forall ((n Int)) (! (=> (valid D n) (and (<= 1 (hgt D n)) (<= (hgt D n) n) (= (= (hgt D n) 1) (= n 1)) (= (= (S_chains.block.Parent (blk D n)) Bnil) (= n 1)))) :pattern ((select D (BNum 1 n)))))
  (= (S_chains.block.Parent (blk D 1)) Bnil)
  (forall ((n Int)) (! (=> (valid D n) (= (nPar D n) (clog2 (hgt D n)))) :pattern ((select D (BNum 2 n)))))
  (forall ((n Int)) (! (=> (and (valid D n) (< 1 n)) (and (<= 1 (par D n)) (< (par D n) n) (= (hgt D (par D n)) (- (hgt D n) 1)) (= (S_chains.block.Parent (blk D n)) (idb D (par D n))))) :pattern ((select D (BNum 2 n)))))))
(define wfSkip ((D DB)) Bool
  (forall ((n Int) (i Int)) (! (=> (and (valid D n) (<= 0 i) (< i (clog2 (hgt D n)))) (= (parI D n i) (anc D n (pow2 i)))) :pattern ((parI D n i)))))
(define wfVal ((D DB)) Bool
  (forall ((n Int)) (! (=> (valid D n) (and (is-bigv (S_chains.block.Score (blk D n))) (<= 0 (scr D n)) (=> (< 1 n) (isid (S_chains.block.Parent (blk D n)))) (isgen (S_chains.block.Generator (blk D n))))) :pattern ((select D (BNum 1 n))))))
(define wfLeash ((D DB)) Bool
  (forall ((a Addr)) (! (=> (lsd D a) (and (okAddr a) (isid (optv (select D (BAddr 3 a)))) (has D (lsh D a)))) :pattern ((select D (BAddr 3 a))))))
(define wfHead ((D DB)) Bool (and
  (forall ((h Int)) (! (= (hasH D h) (and (<= 1 h) (<= h (hcnt D)))) :pattern ((select D (BNum 4 h)))))
  (forall ((h Int)) (! (=> (hasH D h) (and (valid D (hblk D h)) (= (select D (BNum 4 h)) (some (BU64 (hblk D h)))) (= (select D (BNum 5 (hblk D h))) (some (BU64 h))))) :pattern ((select D (BNum 4 h)))))
  (forall ((n Int)) (! (=> (isHead D n) (and (valid D n) (= (select D (BNum 5 n)) (some (BU64 (headOf D n)))) (<= 1 (headOf D n)) (<= (headOf D n) (hcnt D)) (= (select D (BNum 4 (headOf D n))) (some (BU64 n))))) :pattern ((select D (BNum 5 n)))))))
; no other keys
(define wfKeys ((D DB)) Bool
  (forall ((k Bytes)) (! (=> (is-some (select D k)) (or
     (and (is-BCtr k) (= (bc0 k) 0))
     (and (is-BID k) (= (bip k) 1))
     (and (is-BNum k) (or (= (bnp k) 1) (= (bnp k) 2) (= (bnp k) 4) (= (bnp k) 5)))
     (and (is-BAddr k) (= (bap k) 3)))) :pattern ((select D k)))))
}

macro WF_D(d) = wfCnt(d) && wfRec(d) && wfId(d) && wfLink(d) && wfTree(d) && tree(d) && wfSkip(d) && wfVal(d) && wfLeash(d) && wfHead(d) && wfKeys(d)
macro bid(b) = ite(b.Version < 5, idOfSig(b.BlockSignature), b.ID)
macro emptyD(d) = forall k: Bytes {d[k]} :: !is-some(d[k])
macro notFound(e) = isE(e, leveldb.ErrNotFound)

theory {
; ---- ancestors ----
(declare-fun tree (DB) Bool)
(definition tree_def (forall ((D DB)) (! (= (tree D) (and (wfTree D) (wfRec D))) :pattern ((tree D)))))
(lemma anc_add () ((D DB) (n Int) (i Int) (j Int)) (and (<= 0 i) (<= 0 j)) (= (anc D (anc D n i) j) (anc D n (+ i j)))
  :pattern ((anc D (anc D n i) j)) :induction j :hint ((ancu D (anc D n i) (- j 1)) (ancu D n (- (+ i j) 1))))
(lemma anc_valid () ((D DB) (n Int) (k Int)) (and (tree D) (valid D n) (<= 0 k) (< k (hgt D n)))
  (and (valid D (anc D n k)) (= (hgt D (anc D n k)) (- (hgt D n) k)))
  :pattern ((tree D) (anc D n k)) :induction k :uses (tree_def) :hint ((ancu D n (- k 1)) (select D (BNum 2 (anc D n (- k 1))))))
(declare-fun agr (DB DB) Bool)
(axiom agr_def (forall ((D DB) (E DB)) (! (= (agr D E) (forall ((m Int)) (! (=> (valid D m) (= (select E (BNum 2 m)) (select D (BNum 2 m)))) :pattern ((select E (BNum 2 m))) :pattern ((select D (BNum 2 m)))))) :pattern ((agr D E)))))
(lemma anc_frame () ((D DB) (E DB) (n Int) (k Int)) (and (step_D D E) (tree D) (agr D E) (valid D n) (<= 0 k) (< k (hgt D n)))
  (= (anc E n k) (anc D n k))
  :pattern ((step_D D E) (anc E n k)) :induction k :uses (tree_def anc_valid) :hint ((ancu D n (- k 1)) (ancu E n (- k 1)) (select D (BNum 2 (anc D n (- k 1)))) (anc D n k) (anc D n (- k 1))))
(lemma anc_front () ((D DB) (n Int) (k Int)) (<= 1 k) (= (anc D n k) (anc D (par D n) (- k 1)))
  :uses (anc_add) :hint ((anc D (anc D n 1) (- k 1))) :pattern ((anc D n k) (anc D (par D n) (- k 1))))
(lemma anc_ext () ((D DB) (E DB) (m Int) (k Int)) (and (step_D D E) (tree D) (agr D E) (= m (+ (cnt D) 1)) (valid D (par E m)) (<= 1 k) (<= k (hgt D (par E m))))
  (= (anc E m k) (anc D (par E m) (- k 1)))
  :pattern ((step_D D E) (anc E m k)) :uses (anc_frame anc_front) :hint ((anc E (par E m) (- k 1))))
}

theory {
; ---- last common ancestor ----
(define isAnc ((D DB) (c Int) (n Int)) Bool (and (valid D c) (<= (hgt D c) (hgt D n)) (= (anc D n (- (hgt D n) (hgt D c))) c)))
; c is the deepest common ancestor of n and m
(declare-fun isLCA (DB Int Int Int) Bool)
(definition isLCA_def (forall ((D DB) (c Int) (n Int) (m Int)) (! (= (isLCA D c n m) (and (isAnc D c n) (isAnc D c m)
    (forall ((x Int)) (! (=> (and (isAnc D x n) (isAnc D x m)) (<= (hgt D x) (hgt D c))) :pattern ((select D (BNum 1 x))))))) :pattern ((isLCA D c n m)))))
(lemma anc_mid () ((D DB) (n Int) (x Int) (k Int)) (and (tree D) (valid D n) (isAnc D x n) (<= (- (hgt D n) (hgt D x)) k) (< k (hgt D n)))
  (= (anc D x (- k (- (hgt D n) (hgt D x)))) (anc D n k)) :uses (anc_add) :hint ((anc D (anc D n (- (hgt D n) (hgt D x))) (- k (- (hgt D n) (hgt D x))))))
(lemma lca_max () ((D DB) (n Int) (m Int) (j Int) (k Int) (x Int))
  (and (tree D) (valid D n) (valid D m) (<= 0 j) (< j (hgt D n)) (<= 0 k) (< k (hgt D m)) (= (- (hgt D n) j) (- (hgt D m) k)) (not (= (anc D n j) (anc D m k))) (isAnc D x n) (isAnc D x m))
  (< (hgt D x) (- (hgt D n) j))
  :uses (anc_add) :hint ((anc D (anc D n (- (hgt D n) (hgt D x))) (- j (- (hgt D n) (hgt D x)))) (anc D (anc D m (- (hgt D m) (hgt D x))) (- k (- (hgt D m) (hgt D x)))))
  :pattern ((anc D n j) (anc D m k) (anc D n (- (hgt D n) (hgt D x))) (anc D m (- (hgt D m) (hgt D x)))))
(lemma lca_of () ((D DB) (c Int) (n Int) (m Int) (j Int) (k Int))
  (and (tree D) (valid D n) (valid D m) (<= 0 j) (< (+ j 1) (hgt D n)) (<= 0 k) (< (+ k 1) (hgt D m)) (= (- (hgt D n) j) (- (hgt D m) k)) (not (= (anc D n j) (anc D m k)))
     (= c (par D (anc D n j))) (= c (par D (anc D m k))))
  (isLCA D c n m)
  :uses (isLCA_def anc_valid lca_max tree_def) :hint ((ancu D n j) (ancu D m k) (anc D n (+ j 1)) (anc D m (+ k 1)))
  :pattern ((isLCA D c n m) (anc D n j) (anc D m k)))
(lemma lca_left () ((D DB) (c Int) (n Int) (m Int) (j Int))
  (and (tree D) (valid D n) (valid D m) (<= 0 j) (< j (hgt D n)) (= (- (hgt D n) j) (hgt D m)) (= (anc D n j) m) (= c m))
  (isLCA D c n m) :uses (isLCA_def anc_valid) :hint ((anc D m 0)) :pattern ((isLCA D c n m) (anc D n j)))
(lemma lca_right () ((D DB) (c Int) (n Int) (m Int) (j Int))
  (and (tree D) (valid D n) (valid D m) (<= 0 j) (< j (hgt D m)) (= (- (hgt D m) j) (hgt D n)) (= (anc D m j) n) (= c n))
  (isLCA D c n m) :uses (isLCA_def anc_valid) :hint ((anc D n 0)) :pattern ((isLCA D c n m) (anc D m j)))
(lemma lca_comm () ((D DB) (c Int) (n Int) (m Int)) (isLCA D c n m) (isLCA D c m n) :uses (isLCA_def) :pattern ((isLCA D c n m)))
(define nOf ((D DB) (l S_chains.link)) Int (num D (idof (S_chains.link.BlockID l))))
(define okL ((D DB) (l S_chains.link)) Bool (and (valid D (nOf D l)) (= l (lnk D (nOf D l)))))
}
