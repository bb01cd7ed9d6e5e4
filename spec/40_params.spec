package main

theory {
; number of elements with text among the first n elements of a comma-separated list
(declare-fun flagStr (Str) Str)
(declare-fun nText (Str Str Int) Int)
(axiom ntext_0 (forall ((s Str) (c Str)) (! (= (nText s c 0) 0) :pattern ((nText s c 0)))))
(axiom ntext_s (forall ((s Str) (c Str) (i Int) (j Int)) (! (=> (and (<= 0 i) (= j (+ i 1))) (= (nText s c j) (+ (nText s c i) (ite (> (slen (trimspace (select (arr_Str (splitOf s c)) i))) 0) 1 0)))) :pattern ((nText s c i) (nText s c j)))))
(axiom ntext_n (forall ((s Str) (c Str) (i Int)) (! (=> (<= 0 i) (and (<= 0 (nText s c i)) (<= (nText s c i) i))) :pattern ((nText s c i)))))
(define elemOf ((s Str) (c Str) (i Int)) Str (select (arr_Str (splitOf s c)) i))
(define elemsOf ((s Str) (c Str)) Int (len_Str (splitOf s c)))
(define text ((s Str)) Bool (> (slen (trimspace s)) 0))
(define seedOf ((s Str)) Ref (ntcp (apofstr s)))
}
macro mainSeeds(r) = r[0] == seedOf("34.253.153.4:6868") && r[1] == seedOf("168.119.116.189:6868") && r[2] == seedOf("135.181.87.72:6868") && r[3] == seedOf("162.55.39.115:6868") && r[4] == seedOf("168.119.155.201:6868")
macro testSeeds(r) = r[0] == seedOf("159.69.126.149:6868") && r[1] == seedOf("94.130.105.239:6868") && r[2] == seedOf("159.69.126.153:6868") && r[3] == seedOf("94.130.172.201:6868") && r[4] == seedOf("35.157.247.122:6868")
macro stageSeeds(r) = r[0] == seedOf("88.99.185.128:6868") && r[1] == seedOf("49.12.15.166:6868") && r[2] == seedOf("95.216.205.3:6868") && r[3] == seedOf("88.198.179.16:6868") && r[4] == seedOf("52.58.254.101:6868")
macro builtIn(r, bt) = len(r) >= 5 && (bt == settings.MainNet ==> mainSeeds(r)) && (bt == settings.TestNet ==> testSeeds(r)) && (bt == settings.StageNet ==> stageSeeds(r))
macro public(bt) = bt == settings.MainNet || bt == settings.TestNet || bt == settings.StageNet

func parseSeedPeers(seedPeers, blockchainType) (r, err)
  root C23
  inv (?r:[]*net.TCPAddr) builtIn(r, blockchainType)
  inv (?r:[]*net.TCPAddr, ?i:int) len(r) == 5 + nText(seedPeers, ",", i)
  inv (?r:[]*net.TCPAddr, ?i:int) forall k: Int {elemOf(seedPeers, ",", k)} :: 0 <= k && k < i && text(elemOf(seedPeers, ",", k)) ==> isapstr(trimspace(elemOf(seedPeers, ",", k)))
  inv (?r:[]*net.TCPAddr, ?i:int) forall k: Int {elemOf(seedPeers, ",", k)} {nText(seedPeers, ",", k)} :: 0 <= k && k < i && text(elemOf(seedPeers, ",", k)) ==> nText(seedPeers, ",", k) < nText(seedPeers, ",", i) && r[5 + nText(seedPeers, ",", k)] == seedOf(trimspace(elemOf(seedPeers, ",", k)))
  ensures err == nil ==> public(blockchainType) && builtIn(r, blockchainType)
  ensures err == nil ==> len(r) == 5 + nText(seedPeers, ",", elemsOf(seedPeers, ","))
  ensures err == nil ==> forall k: Int {elemOf(seedPeers, ",", k)} :: 0 <= k && k < elemsOf(seedPeers, ",") && text(elemOf(seedPeers, ",", k)) ==> isapstr(trimspace(elemOf(seedPeers, ",", k))) && r[5 + nText(seedPeers, ",", k)] == seedOf(trimspace(elemOf(seedPeers, ",", k)))
  ensures public(blockchainType) && (forall k: Int {elemOf(seedPeers, ",", k)} :: 0 <= k && k < elemsOf(seedPeers, ",") && text(elemOf(seedPeers, ",", k)) ==> isapstr(trimspace(elemOf(seedPeers, ",", k)))) ==> err == nil

func parseVersions(str) (r, err)
  root C23
  inv (?r:[]proto.Version, ?i:int) len(r) == i
  inv (?r:[]proto.Version, ?i:int) forall k: Int {elemOf(str, ",", k)} {r[k]} :: 0 <= k && k < i ==> isver(elemOf(str, ",", k)) && r[k] == verof(elemOf(str, ",", k))
  ensures err == nil ==> len(r) == elemsOf(str, ",") && len(r) > 0
  ensures err == nil ==> forall k: Int {elemOf(str, ",", k)} {r[k]} :: 0 <= k && k < elemsOf(str, ",") ==> isver(elemOf(str, ",", k)) && r[k] == verof(elemOf(str, ",", k))
  ensures (forall k: Int {elemOf(str, ",", k)} :: 0 <= k && k < elemsOf(str, ",") ==> isver(elemOf(str, ",", k))) ==> err == nil

func checkBind(str) (r, err)
  root C23
  ensures err == nil <==> isapstr(str)
  ensures err == nil ==> isapstr(r) && apofstr(r) == apofstr(str)

func checkName(str) (r, err)
  root C23
  ensures err == nil <==> 0 < len(str) && len(str) <= 255
  ensures err == nil ==> r == str

func parseAddress(addr) (r)
  root C23
  ensures !isapstr(addr) ==> r == zero_TCPA
  ensures isapstr(addr) && apAddr(apofstr(addr)) == unz(apAddr(apofstr(addr))) ==> taddr(r) == unmap(apAddr(apofstr(addr))) && tport(r) == apPort(apofstr(addr))

func newParameters() (r, err)
  root C23
  let api = flagStr("api")
  let bind = flagStr("net")
  let decl = flagStr("declared-address")
  ensures err == nil ==> r != nil && isapstr(r.apiBind) && isapstr(api) && apofstr(r.apiBind) == apofstr(api)
  ensures err == nil ==> isapstr(bind) && (apAddr(apofstr(bind)) == unz(apAddr(apofstr(bind))) ==> taddr(r.netBind) == unmap(apAddr(apofstr(bind))) && tport(r.netBind) == apPort(apofstr(bind)))
  ensures err == nil && !isapstr(decl) ==> r.declaredAddress == zero_TCPA
  ensures err == nil && isapstr(decl) && apAddr(apofstr(decl)) == unz(apAddr(apofstr(decl))) ==> taddr(r.declaredAddress) == unmap(apAddr(apofstr(decl))) && tport(r.declaredAddress) == apPort(apofstr(decl))
  ensures err == nil ==> r.name == flagStr("name") && 0 < len(r.name) && len(r.name) <= 255
  ensures err == nil ==> len(r.versions) == elemsOf(flagStr("versions"), ",") && forall k: Int {r.versions[k]} :: 0 <= k && k < len(r.versions) ==> isver(elemOf(flagStr("versions"), ",", k)) && r.versions[k] == verof(elemOf(flagStr("versions"), ",", k))
  ensures err == nil ==> len(r.seedPeers) == 5 + nText(flagStr("peers"), ",", elemsOf(flagStr("peers"), ","))
  ensures err == nil ==> forall k: Int {elemOf(flagStr("peers"), ",", k)} :: 0 <= k && k < elemsOf(flagStr("peers"), ",") && text(elemOf(flagStr("peers"), ",", k)) ==> r.seedPeers[5 + nText(flagStr("peers"), ",", k)] == seedOf(trimspace(elemOf(flagStr("peers"), ",", k)))
