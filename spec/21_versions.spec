package peers

// strictly descending by (major, minor): the latest first, every pair once
macro vlt(a, b) = a.major < b.major || (a.major == b.major && a.minor < b.minor)
macro samemm(a, b) = a.major == b.major && a.minor == b.minor
macro desc(vs) = forall i: Int, j: Int {vs[i], vs[j]} :: 0 <= i && i < j && j < len(vs) ==> vlt(vs[j], vs[i])

func newVersions(vs) (r)
  root C18
  inv (?r:peers.versions) forall i: Int, j: Int {r[i], r[j]} :: 0 <= i && i < j && j < len(r) ==> !samemm(r[i], r[j])
  inv (?r:peers.versions) forall i: Int {r[i]} :: 0 <= i && i < len(r) ==> r[i].patch == 0 && exists k: Int {vs[k]} :: 0 <= k && k < len(vs) && samemm(vs[k], r[i])
  inv (?r:peers.versions, ?i:int) forall k: Int {vs[k]} :: 0 <= k && k < i ==> exists j: Int {r[j]} :: 0 <= j && j < len(r) && samemm(vs[k], r[j])
  ensures desc(r)
  ensures len(vs) > 0 ==> len(r) > 0
  ensures forall i: Int {r[i]} :: 0 <= i && i < len(r) ==> exists k: Int {vs[k]} :: 0 <= k && k < len(vs) && samemm(vs[k], r[i])
  ensures forall k: Int {vs[k]} :: 0 <= k && k < len(vs) ==> exists j: Int {r[j]} :: 0 <= j && j < len(r) && samemm(vs[k], r[j])

func (versions).nextVersion(vs, v) (r)
  root C18
  requires len(vs) > 0 && desc(vs)
  inv (?i:int) forall k: Int {vs[k]} :: 0 <= k && k < i ==> !samemm(vs[k], v)
  ensures forall i: Int {vs[i]} :: 0 <= i && i < len(vs) && samemm(vs[i], v) ==> r == vs[ite(i == len(vs) - 1, 0, i + 1)]
  ensures (forall i: Int {vs[i]} :: 0 <= i && i < len(vs) ==> !samemm(vs[i], v)) ==> r == vs[0]

func (*Registry).SuggestVersion(r, addr) (v, err)
  root C18 C22 C10
  requires regOK(r) && len(r.versions) > 0 && desc(r.versions)
  requires [C22] lkP == 0
  modifies P
  let known = is4(addr) && stored(P, addr)
  let good = known && okRec(P, addr)
  let st = prec(P, addr).State
  let prev = verof(prec(P, addr).Version)
  let vs = r.versions
  ensures [C22] lkP == 0
  ensures wfPKeys(P)
  ensures forall k: Bytes {P[k]} :: k != pKey(addr) ==> P[k] == old(P)[k]
  ensures err != nil ==> P == old(P)
  ensures is4(addr) && !known ==> err == nil || isIO(err)
  ensures is4(addr) && !known && err == nil ==> v == vs[0] && prec(P, addr).State == PeerUnknown && prec(P, addr).Port == 0
  ensures good && st == PeerUnknown && utf8(prec(old(P), addr).Name) ==> err == nil || isIO(err)
  ensures good && st == PeerUnknown && err == nil ==> forall i: Int {vs[i]} :: 0 <= i && i < len(vs) && samemm(vs[i], prev) ==> v == vs[ite(i == len(vs) - 1, 0, i + 1)]
  ensures good && st == PeerUnknown && err == nil ==> (forall i: Int {vs[i]} :: 0 <= i && i < len(vs) ==> !samemm(vs[i], prev)) ==> v == vs[0]
  ensures good && st == PeerUnknown && err == nil ==> prec(P, addr).Port == prec(old(P), addr).Port && prec(P, addr).Nonce == prec(old(P), addr).Nonce && prec(P, addr).Name == prec(old(P), addr).Name && prec(P, addr).State == PeerUnknown && prec(P, addr).Score == prec(old(P), addr).Score
  ensures err == nil && (!known || st == PeerUnknown) ==> stored(P, addr) && okRec(P, addr) && verof(prec(P, addr).Version) == v && prec(P, addr).NextAttempt >= old(clk) + 60000000000
  ensures good && st == PeerConnected ==> (err == nil && v == prev && P == old(P)) || isIO(err)
  ensures good && st == PeerHostile ==> err != nil
  ensures known && !good ==> err != nil
