package main

// what was handed to the loader
ghost [C21] nIDs Int
ghost [C21] lastIDs S_loading.IDsPackage
ghost [C21] nBs Int
ghost [C21] lastB S_loading.BlockPackage
chan loading.IDsPackage nIDs lastIDs
chan loading.BlockPackage nBs lastB

theory {
(declare-fun raddr (Ref) TCPA)
(declare-fun decB (Bytes Int) Bool)
(declare-fun blkOf (Bytes Int) Ref)
(declare-fun decPB (Bytes) Bool)
(declare-fun pblkOf (Bytes) Ref)
(declare-fun decInv (Bytes) Bool)
(declare-fun invOf (Bytes) Ref)
(declare-fun bigOfBytes (Bytes) Int)
(declare-fun piStr (S_proto.PeerInfo) Str)
(define who ((p Ref)) Addr (apAddr (apofstr (tStr (raddr p)))))
(define known_ ((p Ref)) Bool (isapstr (tStr (raddr p))))
(define ipWho ((p S_loading.IDsPackage)) Addr (S_loading.IDsPackage.Peer p))
(define ipIDs ((p S_loading.IDsPackage)) Slc_BlockID (S_loading.IDsPackage.IDs p))
(define ipLen ((p S_loading.IDsPackage)) Int (len_BlockID (S_loading.IDsPackage.IDs p)))
(define ipAt ((p S_loading.IDsPackage) (k Int)) BlockID (select (arr_BlockID (S_loading.IDsPackage.IDs p)) k))
(define bpWho ((p S_loading.BlockPackage)) Addr (S_loading.BlockPackage.Peer p))
(define bpBlk ((p S_loading.BlockPackage)) Ref (S_loading.BlockPackage.Block p))
(define piAddr ((p S_proto.PeerInfo)) Addr (ipaddr (S_proto.PeerInfo.Addr p)))
(define piPort ((p S_proto.PeerInfo)) Int (S_proto.PeerInfo.Port p))
}

// decoding: the decoded value is a function of the bytes; the identifiers of decoded values are well formed
extern (*proto.Block).UnmarshalBinary(b, bytes, scheme) (err)
  ensures (err == nil) == decB(term(bytes), scheme)
  ensures err == nil ==> term(b) == blkOf(term(bytes), scheme) && okID(bid(b))
extern (*proto.Block).UnmarshalFromProtobuf(b, bytes) (err)
  ensures (err == nil) == decPB(term(bytes))
  ensures err == nil ==> term(b) == pblkOf(term(bytes)) && okID(bid(b))
extern (*proto.MicroBlockInv).UnmarshalBinary(inv, bytes) (err)
  ensures (err == nil) == decInv(term(bytes))
  ensures err == nil ==> term(inv) == invOf(term(bytes)) && okID(inv.TotalBlockID)

extern (peer.Peer).RemoteAddr(p) (r)
  ensures r == raddr(p)
  ensures isapstr(tStr(r)) ==> apAddr(apofstr(tStr(r))) == unz(apAddr(apofstr(tStr(r))))

macro dOK(d) = d.registry != nil && regOK(d.registry) && d.linkage != nil && okL0(d.linkage) && WF_D(D) && cnt(D) < 4294967295
// counters of the events that a message did not cause
macro noScore() = nUS == old(nUS)
macro noBlock() = nPB == old(nPB) && nBs == old(nBs)
macro noMicro() = nPM == old(nPM)
macro noIDs() = nIDs == old(nIDs)
macro noPeers() = nAA == old(nAA)
macro noAnswer() = nSent == old(nSent)
// a decoded block b of peer p: stored on behalf of the peer, handed over if stored or if only its parent is missing
macro tookBlock(p, b) = nPB == old(nPB) + 1 && pbBlk == b && pbWho == who(p) && (pbErr == nil || isE(pbErr, chains.ErrParentNotFound) ==> nBs == old(nBs) + 1 && bpWho(lastB) == who(p) && bpBlk(lastB) == b) && (!(pbErr == nil || isE(pbErr, chains.ErrParentNotFound)) ==> nBs == old(nBs))

func (*Distributor).handleMessage(d, msg)
  root C21 C10
  requires dOK(d) && msg.ID != nil
  requires [C22] lkD == 0 && lkP == 0
  modifies P, D, io
  modifies [C21] nUS, usWho, usScore, nAA, aaLen, aaArr, fpErr, nSent, sentTo, ansLen, ansArr, nPB, pbBlk, pbWho, pbErr, nPM, pmInv, pmWho, nIDs, lastIDs, nBs, lastB
  let p = msg.ID
  let m = msg.Message
  let ok = known_(msg.ID)
  ensures [C21] dyn(m, "*proto.ScoreMessage") ==> ite(ok, nUS == old(nUS) + 1 && usWho == who(p) && usScore == bigOfBytes(term(as(m, "*proto.ScoreMessage").Score)), noScore())
  ensures [C21] !dyn(m, "*proto.ScoreMessage") ==> noScore()
  ensures [C21] dyn(m, "*proto.BlockMessage") && ok && decB(term(as(m, "*proto.BlockMessage").BlockBytes), d.scheme) ==> tookBlock(p, blkOf(term(as(m, "*proto.BlockMessage").BlockBytes), d.scheme))
  ensures [C21] dyn(m, "*proto.BlockMessage") && !(ok && decB(term(as(m, "*proto.BlockMessage").BlockBytes), d.scheme)) ==> noBlock() && D == old(D)
  ensures [C21] dyn(m, "*proto.PBBlockMessage") && ok && decPB(term(as(m, "*proto.PBBlockMessage").PBBlockBytes)) ==> tookBlock(p, pblkOf(term(as(m, "*proto.PBBlockMessage").PBBlockBytes)))
  ensures [C21] dyn(m, "*proto.PBBlockMessage") && !(ok && decPB(term(as(m, "*proto.PBBlockMessage").PBBlockBytes))) ==> noBlock() && D == old(D)
  ensures [C21] !dyn(m, "*proto.BlockMessage") && !dyn(m, "*proto.PBBlockMessage") ==> noBlock()
  ensures [C21] dyn(m, "*proto.MicroBlockInvMessage") && ok && decInv(term(as(m, "*proto.MicroBlockInvMessage").Body)) ==> nPM == old(nPM) + 1 && pmWho == who(p) && pmInv == invOf(term(as(m, "*proto.MicroBlockInvMessage").Body))
  ensures [C21] dyn(m, "*proto.MicroBlockInvMessage") && !(ok && decInv(term(as(m, "*proto.MicroBlockInvMessage").Body))) ==> noMicro() && D == old(D)
  ensures [C21] !dyn(m, "*proto.MicroBlockInvMessage") ==> noMicro()
  ensures [C21] dyn(m, "*proto.BlockIdsMessage") && ok && len(as(m, "*proto.BlockIdsMessage").Blocks) > 0 ==> nIDs == old(nIDs) + 1 && ipWho(lastIDs) == who(p) && ipIDs(lastIDs) == term(as(m, "*proto.BlockIdsMessage").Blocks)
  ensures [C21] dyn(m, "*proto.SignaturesMessage") && ok && len(as(m, "*proto.SignaturesMessage").Signatures) > 0 ==> nIDs == old(nIDs) + 1 && ipWho(lastIDs) == who(p) && ipLen(lastIDs) == len(as(m, "*proto.SignaturesMessage").Signatures)
  ensures [C21] dyn(m, "*proto.SignaturesMessage") && ok && len(as(m, "*proto.SignaturesMessage").Signatures) > 0 ==> forall k: Int {ipAt(lastIDs, k)} :: 0 <= k && k < ipLen(lastIDs) ==> ipAt(lastIDs, k) == idOfSig(as(m, "*proto.SignaturesMessage").Signatures[k])
  ensures [C21] !ok || !dyn(m, "*proto.BlockIdsMessage") && !dyn(m, "*proto.SignaturesMessage") ==> noIDs()
  ensures [C21] dyn(m, "*proto.GetPeersMessage") && fpErr == nil ==> nSent == old(nSent) + 1
  ensures [C21] dyn(m, "*proto.GetPeersMessage") && nSent != old(nSent) ==> nSent == old(nSent) + 1 && sentTo == p && fpErr == nil
  ensures [C21] dyn(m, "*proto.GetPeersMessage") && nSent != old(nSent) ==> forall k: Int {ansArr[k]} :: 0 <= k && k < ansLen ==> stored(P, piAddr(ansArr[k])) && prec(P, piAddr(ansArr[k])).State == peers.PeerConnected && piPort(ansArr[k]) == prec(P, piAddr(ansArr[k])).Port
  ensures [C21] dyn(m, "*proto.GetPeersMessage") && nSent != old(nSent) ==> forall a: Addr {pKey(a)} :: stored(P, a) && prec(P, a).State == peers.PeerConnected ==> exists k: Int {ansArr[k]} :: 0 <= k && k < ansLen && piAddr(ansArr[k]) == a
  ensures [C21] !dyn(m, "*proto.GetPeersMessage") ==> noAnswer()
  ensures [C21] dyn(m, "*proto.PeersMessage") ==> nAA == old(nAA) + 1
  ensures [C21] dyn(m, "*proto.PeersMessage") ==> forall k: Int {as(m, "*proto.PeersMessage").Peers[k]} :: 0 <= k && k < len(as(m, "*proto.PeersMessage").Peers) && isapstr(piStr(as(m, "*proto.PeersMessage").Peers[k])) ==> exists j: Int {aaArr[j]} :: 0 <= j && j < aaLen && aaArr[j] == ntcp(apofstr(piStr(as(m, "*proto.PeersMessage").Peers[k])))
  ensures [C21] !dyn(m, "*proto.PeersMessage") ==> noPeers()
  ensures [C21] !dyn(m, "*proto.PeersMessage") && !dyn(m, "*proto.ScoreMessage") ==> P == old(P)
  inv (?ids:[]proto.BlockID, ?i:int, ?s:[]crypto.Signature) forall k: Int {ids[k]} :: 0 <= k && k < i ==> ids[k] == idOfSig(s[k])
  inv (?ps:[]proto.PeerInfo, ?as:[]*net.TCPAddr, ?i:int) forall k: Int {ps[k]} :: 0 <= k && k < i && isapstr(piStr(ps[k])) ==> exists j: Int {as[j]} :: 0 <= j && j < len(as) && as[j] == ntcp(apofstr(piStr(ps[k])))
  inv (?ps:[]peers.Peer, ?is:[]proto.PeerInfo, ?i:int) len(is) == i
  inv (?ps:[]peers.Peer, ?is:[]proto.PeerInfo, ?i:int) forall k: Int {ps[k]} {is[k]} :: 0 <= k && k < i ==> piAddr(is[k]) == apAddr(ps[k].AddressPort) && piPort(is[k]) == apPort(ps[k].AddressPort)

func (*Distributor).handleInfoMessage(d, msg)
  root C21 C10
  requires dOK(d)
  requires dyn(msg.Value, "*peer.Connected") ==> as(msg.Value, "*peer.Connected").Peer != nil
  requires dyn(msg.Value, "*peer.InternalErr") ==> msg.Peer != nil
  requires [C22] lkD == 0 && lkP == 0
  modifies P, closed, clk, contents(d.registry.connections), contents(d.registry.pending)
  modifies [C21] nRP, rpWho, rpPeer, nUP, upWho
  let v = msg.Value
  ensures [C21] dyn(v, "*peer.Connected") && known_(as(v, "*peer.Connected").Peer) ==> nRP == old(nRP) + 1 && rpPeer == as(v, "*peer.Connected").Peer && rpWho == who(as(v, "*peer.Connected").Peer)
  ensures [C21] !dyn(v, "*peer.Connected") ==> nRP == old(nRP)
  ensures [C21] dyn(v, "*peer.InternalErr") && known_(msg.Peer) ==> nUP == old(nUP) + 1 && upWho == who(msg.Peer) && closed[msg.Peer]
  ensures [C21] !dyn(v, "*peer.InternalErr") ==> nUP == old(nUP)
  ensures [C21] !dyn(v, "*peer.InternalErr") && !dyn(v, "*peer.Connected") ==> P == old(P) && closed == old(closed)

theory {
; content identifiers of the messages that are acted upon: GetPeers, Peers, Signatures, Block, Score, InvMicroblock, PBBlock, BlockIDs
(define used ((i Int)) Bool (or (= i 1) (= i 2) (= i 21) (= i 23) (= i 24) (= i 26) (= i 29) (= i 33)))
; ... and of those that are not: GetSignatures, GetBlock, Transaction, Checkpoint, MicroblockRequest, Microblock, PBMicroBlock, PBTransaction, GetBlockIDs, the snapshots
(define unused ((i Int)) Bool (or (= i 20) (= i 22) (= i 25) (= i 100) (= i 27) (= i 28) (= i 30) (= i 31) (= i 32) (and (<= 34 i) (<= i 37))))
}

// the message filter
macro cmOK(h) = (forall i: Int {i in h.discarded} :: used(i) && i in h.discarded ==> !h.discarded[i]) && (forall i: Int {i in h.discarded} :: unused(i) ==> i in h.discarded && h.discarded[i])

func NewConnectionManager(scheme, name, nonce, declared, vp, parent) (h)
  root C21 C18
  ensures h != nil
  ensures [C21] cmOK(h) && h.name == name && h.nonce == nonce && h.declared == declared
  ensures [C18] h.vp == vp

func (*ConnectionManager).skipFunc(h, header) (r)
  root C21
  requires [C21] cmOK(h)
  ensures [C21] used(header.ContentID) ==> !r
  ensures [C21] unused(header.ContentID) ==> r

// connections: every one is opened with the filter and with the version suggested for its address
ghost [C18] nSug Int
ghost [C18] sugFor Addr
ghost [C18] sugVer S_proto.Version
ghost [C18] sugErr Err
ghost [C18] nCon Int
ghost [C18] conVer S_proto.Version
ghost [C18] conTo TCPA
ghost [C18] conRef Ref
theory {
(declare-fun connAddr (Ref) Ref)
}
extern (peers.VersionProvider).SuggestVersion(p, addr) (v, err)
  record [C18] nSug = nSug + 1
  record [C18] sugFor = addr
  record [C18] sugVer = v
  record [C18] sugErr = err
extern incoming.RunIncomingPeer(ctx, params) (err)
  record [C18] nCon = nCon + 1
  record [C18] conVer = params.Version
  record [C18] conRef = params.Conn
  callback [C21] params.Skip(hd: proto.Header) (r) => (used(hd.ContentID) ==> !r) && (unused(hd.ContentID) ==> r)
extern outgoing.EstablishConnection(ctx, params, v) (err)
  record [C18] nCon = nCon + 1
  record [C18] conVer = v
  record [C18] conTo = params.Address
  callback [C21] params.Skip(hd: proto.Header) (r) => (used(hd.ContentID) ==> !r) && (unused(hd.ContentID) ==> r)
extern (net.Conn).RemoteAddr(c) (a)
  ensures a == connAddr(c) && a != nil

func (*ConnectionManager).Accept(h, ctx, conn) (err)
  root C21 C18 C10
  requires conn != nil && h.vp != nil
  requires [C21] cmOK(h)
  modifies [C18] nSug, sugFor, sugVer, sugErr, nCon, conVer, conRef
  let s = naStr(connAddr(conn))
  ensures [C18] nCon == old(nCon) || (nCon == old(nCon) + 1 && nSug == old(nSug) + 1 && sugErr == nil && isapstr(s) && sugFor == apAddr(apofstr(s)) && conVer == sugVer && conRef == conn)
  ensures [C18] isapstr(s) ==> nSug == old(nSug) + 1 && (sugErr == nil ==> nCon == old(nCon) + 1)

func (*ConnectionManager).Connect(h, ctx, addr) (err)
  root C21 C18 C10
  requires h.vp != nil
  requires [C21] cmOK(h)
  modifies [C18] nSug, sugFor, sugVer, sugErr, nCon, conVer, conTo
  let s = tStr(addr)
  ensures [C18] nCon == old(nCon) || (nCon == old(nCon) + 1 && nSug == old(nSug) + 1 && sugErr == nil && isapstr(s) && sugFor == apAddr(apofstr(s)) && conVer == sugVer && conTo == addr)
  ensures [C18] isapstr(s) ==> nSug == old(nSug) + 1 && (sugErr == nil ==> nCon == old(nCon) + 1)
