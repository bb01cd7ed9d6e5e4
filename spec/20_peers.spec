package peers

// ghost state: the contents of the peers database, the state of the registry lock
ghost P DB
ghost [C22] lkP Int
ghost [C22] openSnap Int
ghost [C22] openIter Int

theory {
(define pKey ((a Addr)) Bytes (BAddrV a))
(define stored ((P DB) (a Addr)) Bool (is-some (select P (BAddrV a))))
(define prec ((P DB) (a Addr)) S_peers.value (dec_peers.value (optv (select P (BAddrV a)))))
(define okRec ((P DB) (a Addr)) Bool (and (isdec_peers.value (optv (select P (BAddrV a)))) (isver (S_peers.value.Version (prec P a)))))
; every key is an IPv4 address
(define wfPKeys ((P DB)) Bool (forall ((k Bytes)) (! (=> (is-some (select P k)) (and (isaddr k) (is4 (addrof k)) (= k (BAddrV (addrof k))))) :pattern ((select P k)))))
}
macro notFound(e) = isE(e, leveldb.ErrNotFound)
macro isPeer(P, a, r) = r.AddressPort == apair(a, prec(P, a).Port) && r.Nonce == prec(P, a).Nonce && r.Name == prec(P, a).Name && r.Version == verof(prec(P, a).Version) && r.State == prec(P, a).State && r.NextAttempt == prec(P, a).NextAttempt && r.Score == prec(P, a).Score

func (*storage).peer(s, addr) (r, err)
  root C17
  requires s.db != nil && wfPKeys(P)
  requires [C22] lkP == 2
  ensures err == nil ==> is4(addr) && stored(P, addr) && okRec(P, addr)
  ensures err == nil ==> isPeer(P, addr, r)
  ensures is4(addr) && stored(P, addr) && !okRec(P, addr) ==> err != nil && !notFound(err)
  ensures notFound(err) ==> !is4(addr) || !stored(P, addr)
  ensures !is4(addr) || !stored(P, addr) ==> notFound(err) || isIO(err)
  ensures is4(addr) && stored(P, addr) && okRec(P, addr) ==> err == nil || isIO(err)

func (*storage).putPeer(s, peer) (err)
  root C17 C19
  requires s.db != nil && wfPKeys(P)
  requires [C22] lkP == 2
  modifies P, io
  ensures [C19] io <==> old(io) || err != nil && isIO(err)
  let a = apAddr(peer.AddressPort)
  ensures err != nil ==> P == old(P)
  ensures err == nil ==> is4(a) && utf8(peer.Name)
  ensures err == nil ==> P == store(old(P), pKey(a), P[pKey(a)]) && stored(P, a) && okRec(P, a) && wfPKeys(P)
  ensures err == nil ==> prec(P, a).Port == apPort(peer.AddressPort) && prec(P, a).Nonce == peer.Nonce && prec(P, a).Name == peer.Name && verof(prec(P, a).Version) == peer.Version && prec(P, a).State == peer.State && prec(P, a).NextAttempt == tsec(peer.NextAttempt) && prec(P, a).Score == term(peer.Score)
  ensures !is4(a) || !utf8(peer.Name) ==> err != nil
  ensures is4(a) && utf8(peer.Name) ==> err == nil || isIO(err)

func (*storage).hasPeer(s, addr) (r, err)
  root C17 C19
  modifies io
  ensures [C19] io <==> old(io) || err != nil
  requires s.db != nil && wfPKeys(P)
  requires [C22] lkP == 2
  ensures err == nil ==> (r <==> is4(addr) && stored(P, addr))
  ensures err != nil ==> isIO(err)

func (*storage).peers(s) (r, err)
  root C17
  requires s.db != nil && wfPKeys(P)
  requires [C22] lkP == 2
  inv (?r:[]peers.Peer, ?it:iter) len(r) == it.pos
  inv (?r:[]peers.Peer, ?it:iter) len(r) == it.pos + 1
  inv (?r:[]peers.Peer, ?it:iter) forall k: Int {r[k]} {it.seq[k]} :: 0 <= k && k < len(r) ==> it.seq[k] == pKey(apAddr(r[k].AddressPort)) && stored(P, apAddr(r[k].AddressPort)) && okRec(P, apAddr(r[k].AddressPort)) && isPeer(P, apAddr(r[k].AddressPort), r[k])
  ensures err == nil ==> forall k: Int {r[k]} :: 0 <= k && k < len(r) ==> is4(apAddr(r[k].AddressPort)) && stored(P, apAddr(r[k].AddressPort)) && isPeer(P, apAddr(r[k].AddressPort), r[k])
  ensures err == nil ==> forall a: Addr {pKey(a)} :: stored(P, a) ==> okRec(P, a) && exists k: Int {r[k]} :: 0 <= k && k < len(r) && apAddr(r[k].AddressPort) == a
  ensures err == nil ==> forall k: Int, m: Int {r[k], r[m]} :: 0 <= k && k < m && m < len(r) ==> apAddr(r[k].AddressPort) != apAddr(r[m].AddressPort)

// ---- the registry ----
// clk: the last reading of the clock; closed: network connections that were closed; sent: messages passed to a peer
ghost clk Int
// io: some storage access failed
ghost [C19] io Bool
// the history of calls and messages: numbers of calls and the arguments of the last one
ghost [C21] nUS Int
ghost [C21] usWho Addr
ghost [C21] usScore Int
ghost [C21] nAA Int
ghost [C21] aaLen Int
ghost [C21] aaArr (Array Int Ref)
ghost [C21] fpErr Err
ghost [C21] nRP Int
ghost [C21] rpWho Addr
ghost [C21] rpPeer Ref
ghost [C21] nUP Int
ghost [C21] upWho Addr
ghost [C21] nSent Int
ghost [C21] sentTo Ref
ghost [C21] ansLen Int
ghost [C21] ansArr (Array Int S_proto.PeerInfo)
ghost closed (Array Ref Bool)

theory {
(declare-fun hsof (Ref) S_proto.Handshake)
(declare-fun tEmpty (TCPA) Bool)
(declare-fun naStr (Ref) Str)
(declare-fun tStr (TCPA) Str)
(define hsok ((e Bool) (s Str)) Bool (or e (and (isapstr s) (not (loopback (apAddr (apofstr s)))) (is4 (apAddr (apofstr s))))))
(define hport ((e Bool) (s Str) (a Addr)) Int (ite (and (not e) (= (apAddr (apofstr s)) a)) (apPort (apofstr s)) 0))
}

extern (peer.Peer).Handshake(p) (r)
  ensures r == hsof(p)
extern (peer.Peer).Close(p) (err)
  modifies closed
  ensures closed == store(old(closed), p, true)
extern (proto.HandshakeTCPAddr).Empty(a) (r)
  ensures r == tEmpty(a)
extern (proto.HandshakeTCPAddr).String(a) (r)
  ensures r == tStr(a)

macro regOK(r) = r.storage != nil && r.storage.db != nil && r.connections != nil && r.pending != nil && wfPKeys(P)
macro samePeer(P, Q, a) = prec(P, a).Port == prec(Q, a).Port && prec(P, a).Nonce == prec(Q, a).Nonce && prec(P, a).Name == prec(Q, a).Name && verof(prec(P, a).Version) == verof(prec(Q, a).Version) && prec(P, a).State == prec(Q, a).State && prec(P, a).Score == prec(Q, a).Score
macro declOK(h, a) = hsok(tEmpty(h.DeclaredAddr), tStr(h.DeclaredAddr))

macro vnear(d) = d == 0 || d == 1 || d == 0-1 || d == 4294967295 || d == 0-4294967295 || d == 2147483647 || d == 0-2147483647 || d == 2147483649 || d == 0-2147483649
macro minorOK(v, ma, mi) = v.major == ma && vnear(v.minor - mi)
macro netOK(r, h) = len(h.AppName) > 0 && h.AppName[len(h.AppName)-1] == r.scheme
macro verOK(h, known, p) = ite(known, minorOK(h.Version, p.major, p.minor), minorOK(h.Version, 0, 0))

func (*Registry).RegisterPeer(r, addr, np, handshake) (err)
  root C15 C22 C10
  record [C21] nRP = nRP + 1
  record [C21] rpWho = addr
  record [C21] rpPeer = np
  requires regOK(r) && np != nil
  requires [C22] lkP == 0
  modifies P, closed, contents(r.connections), contents(r.pending)
  let h = hsof(np)
  let known = is4(addr) && stored(P, addr)
  let hostile = known && prec(P, addr).State == PeerHostile
  let readable = !known || okRec(P, addr)
  let match = verOK(h, known, verof(prec(P, addr).Version)) && netOK(r, h)
  let adm = is4(addr) && addr != r.declared && readable && !hostile && match && declOK(handshake, addr)
  ensures [C22] lkP == 0
  ensures wfPKeys(P)
  ensures !(addr in r.pending)
  ensures forall a: Addr {a in r.pending} :: a != addr ==> (a in r.pending <==> old(a in r.pending))
  ensures forall a: Addr {a in r.connections} :: a != addr ==> (a in r.connections <==> old(a in r.connections)) && r.connections[a] == old(r.connections[a])
  ensures forall p: Ref {closed[p]} :: p != np ==> closed[p] == old(closed)[p]
  ensures forall k: Bytes {P[k]} :: k != pKey(addr) ==> P[k] == old(P)[k]
  // registered or closed
  ensures !old(closed)[np] ==> (closed[np] <==> !(addr in r.connections && r.connections[addr] == np && adm && err == nil)) || (old(addr in r.connections) && old(r.connections[addr]) == np)
  ensures !old(closed)[np] && !closed[np] ==> err == nil && adm && addr in r.connections && r.connections[addr] == np
  ensures !old(closed)[np] && !closed[np] ==> stored(P, addr) && okRec(P, addr) && prec(P, addr).State == PeerConnected && prec(P, addr).Nonce == handshake.NodeNonce && prec(P, addr).Name == handshake.NodeName && verof(prec(P, addr).Version) == handshake.Version && prec(P, addr).Port == hport(tEmpty(handshake.DeclaredAddr), tStr(handshake.DeclaredAddr), addr)
  ensures adm && utf8(handshake.NodeName) && !old(closed)[np] ==> !closed[np] || isIO(err)
  ensures is4(addr) && addr != r.declared && readable && !hostile && !match ==> isIO(err) || (err == nil && stored(P, addr) && okRec(P, addr) && prec(P, addr).State == PeerHostile)
  ensures hostile || !is4(addr) || addr == r.declared ==> err != nil && P == old(P)

func (*Registry).UnregisterPeer(r, addr) (err)
  root C16 C22 C15
  record [C21] nUP = nUP + 1
  record [C21] upWho = addr
  requires regOK(r)
  requires [C22] lkP == 0
  modifies P, contents(r.connections), contents(r.pending)
  let known = is4(addr) && stored(P, addr)
  ensures [C22] lkP == 0
  ensures wfPKeys(P)
  ensures !(addr in r.pending) && !(addr in r.connections)
  ensures forall a: Addr {a in r.pending} :: a != addr ==> (a in r.pending <==> old(a in r.pending))
  ensures forall a: Addr {a in r.connections} :: a != addr ==> (a in r.connections <==> old(a in r.connections)) && r.connections[a] == old(r.connections[a])
  ensures forall k: Bytes {P[k]} :: k != pKey(addr) ==> P[k] == old(P)[k]
  ensures err != nil ==> P == old(P)
  ensures known && old(okRec(P, addr)) && utf8(old(prec(P, addr).Name)) ==> err == nil || isIO(err)
  ensures err == nil ==> known && stored(P, addr) && okRec(P, addr) && prec(P, addr).NextAttempt >= old(clk) + 60000000000 && samePeer(P, old(P), addr)

func (*Registry).UpdatePeerScore(r, addr, score) (err)
  root C17 C22
  record [C21] nUS = nUS + 1
  record [C21] usWho = addr
  record [C21] usScore = big(score)
  requires regOK(r)
  requires [C22] lkP == 0
  modifies P
  ensures [C22] lkP == 0
  ensures wfPKeys(P)
  ensures forall k: Bytes {P[k]} :: k != pKey(addr) ==> P[k] == old(P)[k]
  ensures err != nil ==> P == old(P)
  ensures err == nil ==> old(stored(P, addr)) && stored(P, addr) && okRec(P, addr) && prec(P, addr).Score == term(score)
  ensures err == nil ==> prec(P, addr).Port == old(prec(P, addr).Port) && prec(P, addr).Nonce == old(prec(P, addr).Nonce) && prec(P, addr).Name == old(prec(P, addr).Name) && verof(prec(P, addr).Version) == old(verof(prec(P, addr).Version)) && prec(P, addr).State == old(prec(P, addr).State)

func (*Registry).Peer(r, addr) (p, err)
  root C17 C22
  requires regOK(r)
  requires [C22] lkP == 0
  ensures [C22] lkP == 0
  ensures err == nil ==> is4(addr) && stored(P, addr) && okRec(P, addr) && isPeer(P, addr, p)
  ensures is4(addr) && stored(P, addr) && !okRec(P, addr) ==> err != nil && !notFound(err)
  ensures notFound(err) ==> !is4(addr) || !stored(P, addr)
  ensures !is4(addr) || !stored(P, addr) ==> notFound(err) || isIO(err)

func (*Registry).Peers(r) (ps, err)
  root C17 C22
  requires regOK(r)
  requires [C22] lkP == 0
  ensures [C22] lkP == 0
  ensures err == nil ==> forall k: Int {ps[k]} :: 0 <= k && k < len(ps) ==> is4(apAddr(ps[k].AddressPort)) && stored(P, apAddr(ps[k].AddressPort)) && isPeer(P, apAddr(ps[k].AddressPort), ps[k])
  ensures err == nil ==> forall a: Addr {pKey(a)} :: stored(P, a) ==> okRec(P, a) && exists k: Int {ps[k]} :: 0 <= k && k < len(ps) && apAddr(ps[k].AddressPort) == a
  ensures err == nil ==> forall k: Int, m: Int {ps[k], ps[m]} :: 0 <= k && k < m && m < len(ps) ==> apAddr(ps[k].AddressPort) != apAddr(ps[m].AddressPort)

func (*Registry).FriendlyPeers(r) (ps, err)
  root C17 C22
  record [C21] fpErr = err
  requires regOK(r)
  requires [C22] lkP == 0
  inv (?ps:[]peers.Peer, ?fs:[]peers.Peer, ?i:int) forall k: Int {fs[k]} :: 0 <= k && k < len(fs) ==> is4(apAddr(fs[k].AddressPort)) && stored(P, apAddr(fs[k].AddressPort)) && isPeer(P, apAddr(fs[k].AddressPort), fs[k]) && fs[k].State == PeerConnected
  inv (?ps:[]peers.Peer, ?fs:[]peers.Peer, ?i:int) forall k: Int {ps[k]} :: 0 <= k && k < i && ps[k].State == PeerConnected ==> exists m: Int {fs[m]} :: 0 <= m && m < len(fs) && fs[m].AddressPort == ps[k].AddressPort
  ensures [C22] lkP == 0
  ensures err == nil ==> forall k: Int {ps[k]} :: 0 <= k && k < len(ps) ==> is4(apAddr(ps[k].AddressPort)) && stored(P, apAddr(ps[k].AddressPort)) && isPeer(P, apAddr(ps[k].AddressPort), ps[k]) && ps[k].State == PeerConnected
  ensures err == nil ==> forall a: Addr {pKey(a)} :: stored(P, a) && prec(P, a).State == PeerConnected ==> exists k: Int {ps[k]} :: 0 <= k && k < len(ps) && apAddr(ps[k].AddressPort) == a

macro offered(as, n, a) = exists k: Int {as[k]} :: 0 <= k && k < n && apAddr(as[k]) == a

func (*Registry).TakeAvailableAddresses(r) (as, err)
  root C16 C22
  requires regOK(r)
  requires [C22] lkP == 0
  modifies contents(r.pending)
  let pend0 = dom(r.pending)
  inv (?as:[]netip.AddrPort) forall k: Int {as[k]} :: 0 <= k && k < len(as) ==> is4(apAddr(as[k])) && stored(P, apAddr(as[k])) && prec(P, apAddr(as[k])).State != PeerHostile && apPort(as[k]) == prec(P, apAddr(as[k])).Port && apPort(as[k]) != 0 && apAddr(as[k]) != r.declared && prec(P, apAddr(as[k])).NextAttempt <= clk && !(apAddr(as[k]) in r.connections) && !(apAddr(as[k]) in pend0) && apAddr(as[k]) in r.pending
  inv (?as:[]netip.AddrPort) forall a: Addr {a in r.pending} :: a in r.pending ==> old(a in r.pending) || offered(as, len(as), a)
  inv (?as:[]netip.AddrPort) forall a: Addr {a in r.pending} :: old(a in r.pending) ==> a in r.pending
  inv (?as:[]netip.AddrPort) forall k: Int, m: Int {as[k], as[m]} :: 0 <= k && k < m && m < len(as) ==> apAddr(as[k]) != apAddr(as[m])
  inv (?ps:[]peers.Peer, ?i:int) forall k: Int {ps[k]} :: 0 <= k && k < i ==> ps[k].State == PeerHostile || apPort(ps[k].AddressPort) == 0 || apAddr(ps[k].AddressPort) == r.declared || ps[k].NextAttempt > old(clk) || apAddr(ps[k].AddressPort) in r.connections || apAddr(ps[k].AddressPort) in r.pending
  ensures [C22] lkP == 0
  ensures err == nil ==> forall k: Int {as[k]} :: 0 <= k && k < len(as) ==> is4(apAddr(as[k])) && stored(P, apAddr(as[k])) && prec(P, apAddr(as[k])).State != PeerHostile && apPort(as[k]) == prec(P, apAddr(as[k])).Port && apPort(as[k]) != 0 && apAddr(as[k]) != r.declared && prec(P, apAddr(as[k])).NextAttempt <= clk && !(apAddr(as[k]) in r.connections) && !(apAddr(as[k]) in pend0) && apAddr(as[k]) in r.pending
  ensures err == nil ==> forall k: Int, m: Int {as[k], as[m]} :: 0 <= k && k < m && m < len(as) ==> apAddr(as[k]) != apAddr(as[m])
  ensures err == nil ==> forall a: Addr {pKey(a)} :: stored(P, a) && prec(P, a).State != PeerHostile && prec(P, a).Port != 0 && a != r.declared && prec(P, a).NextAttempt <= old(clk) && !(a in r.connections) ==> a in r.pending
  ensures forall a: Addr {a in r.pending} :: a in r.pending ==> old(a in r.pending) || (err == nil && offered(as, len(as), a))
  ensures forall a: Addr {a in r.pending} :: old(a in r.pending) ==> a in r.pending
  ensures err != nil ==> len(as) == 0

theory {
; number of records
(declare-fun pcard (DB) Int)
(axiom pcard_add (forall ((P DB) (k Bytes) (v OptB)) (! (=> (and (not (is-some (select P k))) (is-some v)) (= (pcard (store P k v)) (+ 1 (pcard P)))) :pattern ((pcard (store P k v))))))
(define apOf ((s Str)) AddrPort (apofstr s))
(define annOK ((s Str) (d Addr)) Bool (and (isapstr s) (is4 (apAddr (apofstr s))) (not (loopback (apAddr (apofstr s)))) (not (= (apAddr (apofstr s)) d))))
(define ann ((s Str)) Addr (apAddr (apofstr s)))
(define annPort ((s Str)) Int (apPort (apofstr s)))
(declare-fun annp (Ref) Bool)
}
macro announced(as, n, d, a, p) = exists i: Int {as[i]} :: 0 <= i && i < n && annOK(ntStr(as[i]), d) && ann(ntStr(as[i])) == a && annPort(ntStr(as[i])) == p

func (*Registry).AppendAddresses(r, addresses) (count)
  root C19 C22 C10
  record [C21] nAA = nAA + 1
  record [C21] aaLen = len(addresses)
  record [C21] aaArr = arr(addresses)
  requires regOK(r)
  requires [C22] lkP == 0
  modifies P, io
  inv (?n:int) n == pcard(P) - pcard(old(P))
  inv forall k: Bytes {P[k]} :: is-some(old(P)[k]) ==> P[k] == old(P)[k]
  inv wfPKeys(P)
  inv (?i:int) forall a: Addr {pKey(a)} :: stored(P, a) && !old(stored(P, a)) ==> okRec(P, a) && prec(P, a).State == PeerUnknown && announced(addresses, i, r.declared, a, prec(P, a).Port)
  inv (?i:int) forall k: Int {addresses[k]} :: 0 <= k && k < i && annOK(ntStr(addresses[k]), r.declared) ==> stored(P, ann(ntStr(addresses[k])))
  inv io ==> old(io)
  ensures [C22] lkP == 0
  ensures wfPKeys(P)
  ensures count == pcard(P) - pcard(old(P))
  ensures forall k: Bytes {P[k]} :: is-some(old(P)[k]) ==> P[k] == old(P)[k]
  ensures forall a: Addr {pKey(a)} :: stored(P, a) && !old(stored(P, a)) ==> okRec(P, a) && prec(P, a).State == PeerUnknown && announced(addresses, len(addresses), r.declared, a, prec(P, a).Port)
  ensures [C19] !io ==> forall k: Int {addresses[k]} :: 0 <= k && k < len(addresses) && annOK(ntStr(addresses[k]), r.declared) ==> stored(P, ann(ntStr(addresses[k])))

func (*Registry).Connections(r) (ps, err)
  root C15 C22 C10
  requires regOK(r)
  requires [C22] lkP == 0
  inv (?ps:[]peers.Peer, ?i:int, ?it:iter) i == it.pos && len(ps) == len(r.connections)
  inv (?ps:[]peers.Peer, ?i:int, ?it:iter) forall k: Int {ps[k]} {it.seq[k]} :: 0 <= k && k < i ==> it.seq[k] == apAddr(ps[k].AddressPort) && it.seq[k] in r.connections && stored(P, it.seq[k]) && isPeer(P, it.seq[k], ps[k])
  ensures [C22] lkP == 0
  ensures err == nil ==> len(ps) == len(r.connections)
  ensures err == nil ==> forall k: Int {ps[k]} :: 0 <= k && k < len(ps) ==> apAddr(ps[k].AddressPort) in r.connections && stored(P, apAddr(ps[k].AddressPort)) && isPeer(P, apAddr(ps[k].AddressPort), ps[k])
  ensures err == nil ==> forall a: Addr {a in r.connections} :: a in r.connections ==> exists k: Int {ps[k]} :: 0 <= k && k < len(ps) && apAddr(ps[k].AddressPort) == a

func (*Registry).Addresses(r) (as, err)
  root C10 C22
  requires regOK(r)
  requires [C22] lkP == 0
  ensures [C22] lkP == 0

func (*Registry).Broadcast(r, msg)
  root C10 C22
  requires regOK(r)
  requires forall a: Addr {a in r.connections} :: a in r.connections ==> r.connections[a] != nil
  requires [C22] lkP == 0
  ensures [C22] lkP == 0

func (*Registry).MarkAsHostile(r, addr) (err)
  root C22
  requires regOK(r) && addr != nil
  requires [C22] lkP == 0
  modifies P, contents(r.pending)
  ensures [C22] lkP == 0
  ensures wfPKeys(P)

func NewRegistry(scheme, declared, vs, path) (r, err)
  root C16 C18 C10
  ensures err == nil ==> r != nil && r.storage != nil && r.storage.db != nil && r.connections != nil && r.pending != nil
  ensures err == nil ==> desc(r.versions) && (len(vs) > 0 ==> len(r.versions) > 0)
  ensures err == nil ==> len(r.connections) == 0 && len(r.pending) == 0 && r.scheme == scheme
  ensures err == nil && !tEmpty(declared) ==> isapstr(tStr(declared)) && r.declared == apAddr(apofstr(tStr(declared)))

func (*Registry).Close(r) (err)
  root C10
  requires r.storage != nil && r.storage.db != nil

extern (peer.Peer).SendMessage(p, m)
  modifies [C21] nSent, sentTo, ansLen, ansArr
  ensures [C21] nSent == old(nSent) + 1 && sentTo == p
  ensures [C21] dyn(m, "*proto.PeersMessage") ==> ansLen == len(as(m, "*proto.PeersMessage").Peers) && ansArr == arr(as(m, "*proto.PeersMessage").Peers)
extern (net.Addr).String(a) (s)
  ensures s == naStr(a)
extern (proto.TCPAddr).Empty(a) (r)
  ensures r == tEmpty(a)
extern (proto.TCPAddr).String(a) (r)
  ensures r == tStr(a)
extern net.IPv4(a, b, c, d) (ip)

func (*Peer).ID(p) (r)
  root C14 C16
  ensures r == apAddr(p.AddressPort)
