From 078e2b6157282165d6fc292cb4c397f0ce87f204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 01/22] fix: lca must not index parents beyond genesis after a
 jump

---
 chains/storage.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chains/storage.go b/chains/storage.go
index 50e3895..784f571 100644
--- a/chains/storage.go
+++ b/chains/storage.go
@@ -354,6 +354,9 @@ func (s *storage) lca(id1, id2 proto.BlockID) (proto.BlockID, error) {
 	// Finding the link closest to the genesis block which is not the common ancestor of farthest and other i.e.
 	// a link x such that x is not the common ancestor of farthest and other but x.Parents[0] is.
 	for i := len(farthest.Parents) - 1; i >= 0; i-- {
+		if i >= len(farthest.Parents) {
+			continue // After a jump the links have fewer parents, skip levels that are beyond the genesis block.
+		}
 		if farthest.Parents[i] != other.Parents[i] {
 			farthest, err = s.getLink(sn, farthest.Parents[i])
 			if err != nil {
-- 
2.43.0


From e3c8f4239dba9717f31af3d45b99d64b3312bc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 02/22] fix: forks must not panic if there are no leashes

---
 chains/linkage.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chains/linkage.go b/chains/linkage.go
index 102f90a..7125a73 100644
--- a/chains/linkage.go
+++ b/chains/linkage.go
@@ -503,6 +503,9 @@ func (l *Linkage) forks(peers LookupPeers) ([]Fork, error) {
 		m[lsh.BlockID] = append(m[lsh.BlockID], lsh.Addr)
 	}
 	r := make([]Fork, 0, len(m))
+	if len(m) == 0 {
+		return r, nil // No leashes or no leashes of requested peers, so there are no forks.
+	}
 	for k, v := range m {
 		b, blErr := l.block(k)
 		if blErr != nil {
-- 
2.43.0


From f867f6fd084a75e7262cb551bdc7239142dcb7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 03/22] fix: block score calculation must not panic on a huge
 base target

---
 chains/utils.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/chains/utils.go b/chains/utils.go
index 6d0104e..44164b7 100644
--- a/chains/utils.go
+++ b/chains/utils.go
@@ -1,7 +1,6 @@
 package chains
 
 import (
-	"math"
 	"math/big"
 )
 
@@ -12,10 +11,7 @@ func calculateScore(baseTarget uint64) *big.Int {
 	if baseTarget == 0 {
 		return res
 	}
-	if baseTarget > math.MaxInt64 {
-		panic("base target is too big")
-	}
-	bt := big.NewInt(int64(baseTarget))
+	bt := new(big.Int).SetUint64(baseTarget)
 	maxBlockScore, ok := big.NewInt(0).SetString("18446744073709551616", decimalBase)
 	if !ok {
 		return res
-- 
2.43.0


From fbce81b63e1c3b59c3f8593156338c7b10a08ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 04/22] fix: do not acquire the read lock recursively in
 LogInitialStats

---
 chains/linkage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chains/linkage.go b/chains/linkage.go
index 7125a73..7499061 100644
--- a/chains/linkage.go
+++ b/chains/linkage.go
@@ -239,7 +239,7 @@ func (l *Linkage) LogInitialStats() {
 	}
 	zap.S().Infof("Heads count in storage: %d", len(heads))
 	for _, head := range heads {
-		b, blErr := l.Block(head.BlockID)
+		b, blErr := l.block(head.BlockID)
 		if blErr != nil {
 			zap.S().Errorf("Failed to get block: %v", blErr)
 			return
-- 
2.43.0


From 935a3b70c8f8d3b59237255af5a137ef1a4b76c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 05/22] fix: list the leash of the last IPv6 address

---
 chains/storage.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/chains/storage.go b/chains/storage.go
index 784f571..a5577ac 100644
--- a/chains/storage.go
+++ b/chains/storage.go
@@ -419,13 +419,7 @@ func (s *storage) leashes() ([]Leash, error) {
 	}
 	defer sn.Release()
 	r := make([]Leash, 0)
-	rng := &util.Range{
-		Start: addrKeyBytes(netip.AddrFrom4([...]byte{0x00, 0x00, 0x00, 0x00})),
-		Limit: addrKeyBytes(netip.AddrFrom16([...]byte{
-			0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
-		})),
-	}
-	it := sn.NewIterator(rng, nil)
+	it := sn.NewIterator(util.BytesPrefix([]byte{leashPrefix}), nil)
 	defer it.Release()
 	for it.First(); it.Valid(); it.Next() {
 		addr := addrKeyFromBytes(it.Key())
-- 
2.43.0


From 114b836aa0aa18190845128e05e32d67ea0cd62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:31 +0000
Subject: [PATCH 06/22] fix: huge block timestamp must not cause a panic or an
 unserializable report

---
 chains/linkage.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/chains/linkage.go b/chains/linkage.go
index 7499061..c344e18 100644
--- a/chains/linkage.go
+++ b/chains/linkage.go
@@ -3,7 +3,6 @@ package chains
 import (
 	"errors"
 	"fmt"
-	"math"
 	"math/big"
 	"net/netip"
 	"slices"
@@ -18,6 +17,7 @@ import (
 
 const (
 	longForkThreshold = 5
+	maxTimestamp      = 253402214400000 // 9999-12-31T00:00:00Z in milliseconds.
 )
 
 var (
@@ -483,11 +483,12 @@ func (l *Linkage) block(id proto.BlockID) (Block, error) {
 	}, nil
 }
 
+// safeTimestamp limits the timestamp provided by a peer to the value that can be represented in reports.
 func safeTimestamp(ts uint64) int64 {
-	if ts < math.MaxInt64 {
-		return int64(ts)
+	if ts > maxTimestamp {
+		return maxTimestamp
 	}
-	panic("timestamp is too large")
+	return int64(ts)
 }
 
 func (l *Linkage) forks(peers LookupPeers) ([]Fork, error) {
-- 
2.43.0


From d7c21bfb8d473179d51e54f89ebf558e3ee70c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:31 +0000
Subject: [PATCH 07/22] fix: do not preallocate ancestors lists by an unchecked
 count

---
 chains/storage.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chains/storage.go b/chains/storage.go
index a5577ac..9c85d90 100644
--- a/chains/storage.go
+++ b/chains/storage.go
@@ -244,7 +244,7 @@ func (s *storage) getAncestors(id proto.BlockID, count int) ([]proto.BlockID, er
 	if err != nil {
 		return nil, fmt.Errorf("failed to get ancestors: %w", err)
 	}
-	r := make([]proto.BlockID, 0, count)
+	r := make([]proto.BlockID, 0)
 	i := 0
 	for i < count {
 		l, glErr := s.getLink(sn, n)
@@ -276,7 +276,7 @@ func (s *storage) getBlocks(id proto.BlockID, count int) ([]Block, error) {
 	if err != nil {
 		return nil, fmt.Errorf("failed to get blocks: %w", err)
 	}
-	r := make([]Block, 0, count)
+	r := make([]Block, 0)
 	i := 0
 	for i < count {
 		b, gbErr := s.getBlock(sn, n)
-- 
2.43.0


From 8e80dcd0acdf43ea170f838eb839b0a3e6e4ebf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:32 +0000
Subject: [PATCH 08/22] fix: LeashScore must not mask a leash read failure

---
 chains/linkage.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/chains/linkage.go b/chains/linkage.go
index c344e18..2b5233c 100644
--- a/chains/linkage.go
+++ b/chains/linkage.go
@@ -166,9 +166,10 @@ func (l *Linkage) LeashScore(addr netip.Addr) (*proto.Score, error) {
 
 	id, err := l.st.leash(addr)
 	if err != nil {
-		if errors.Is(err, leveldb.ErrNotFound) {
-			id = l.genesis
+		if !errors.Is(err, leveldb.ErrNotFound) {
+			return nil, fmt.Errorf("failed to get leash of '%s': %w", addr.String(), err)
 		}
+		id = l.genesis
 	}
 	bl, err := l.st.block(id)
 	if err != nil {
-- 
2.43.0


From e76e30f0f1788fb46fac1fd8cb686c7c09b3529d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:57 +0000
Subject: [PATCH 09/22] fix: report an undecodable peer record instead of
 returning an empty peer

---
 peers/storage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peers/storage.go b/peers/storage.go
index b653beb..71c8ad2 100644
--- a/peers/storage.go
+++ b/peers/storage.go
@@ -78,7 +78,7 @@ func (s *storage) peer(addr netip.Addr) (Peer, error) {
 	}
 	val := new(value)
 	if umErr := cbor.Unmarshal(v, val); umErr != nil {
-		return Peer{}, err
+		return Peer{}, umErr
 	}
 	ver, err := proto.NewVersionFromString(val.Version)
 	if err != nil {
-- 
2.43.0


From 84e14ffea28412b7a002c3f5b4f623f25222f9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:57 +0000
Subject: [PATCH 10/22] fix: do not look up non-IPv4 addresses by a truncated
 key

---
 peers/storage.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/peers/storage.go b/peers/storage.go
index 71c8ad2..e124d86 100644
--- a/peers/storage.go
+++ b/peers/storage.go
@@ -66,6 +66,9 @@ func (s *storage) close() error {
 }
 
 func (s *storage) peer(addr netip.Addr) (Peer, error) {
+	if !addr.Is4() {
+		return Peer{}, leveldb.ErrNotFound // Only IPv4 peers are stored.
+	}
 	sn, err := s.db.GetSnapshot()
 	if err != nil {
 		return Peer{}, err
@@ -156,6 +159,9 @@ func (s *storage) peers() ([]Peer, error) {
 }
 
 func (s *storage) hasPeer(addr netip.Addr) (bool, error) {
+	if !addr.Is4() {
+		return false, nil // Only IPv4 peers are stored.
+	}
 	sn, err := s.db.GetSnapshot()
 	if err != nil {
 		return false, err
-- 
2.43.0


From f095172d510102700063026dbff750d4941951fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:57 +0000
Subject: [PATCH 11/22] fix: refuse connections of peers known as hostile

---
 peers/registry.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/peers/registry.go b/peers/registry.go
index e7f0b39..e5d244c 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -82,12 +82,12 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 			_ = np.Close()
 			return fmt.Errorf("failed to register peer: %w", err)
 		}
-		if p.State == PeerHostile {
-			_ = np.Close()
-			return fmt.Errorf("peer '%s' already registered as hostile", addr.String())
-		}
 		p = Peer{}
 	}
+	if p.State == PeerHostile {
+		_ = np.Close()
+		return fmt.Errorf("peer '%s' already registered as hostile", addr.String())
+	}
 
 	if np.Handshake().Version.CmpMinor(p.Version) >= 2 {
 		p.State = PeerHostile
-- 
2.43.0


From c4d10cca7d3364241c1d840ae6f3e0189f8033be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:57 +0000
Subject: [PATCH 12/22] fix: record an unknown peer of wrong version or network
 as hostile

---
 peers/registry.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/peers/registry.go b/peers/registry.go
index e5d244c..d2848e4 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -7,6 +7,7 @@ import (
 	"net"
 	"net/netip"
 	"sort"
+	"strings"
 	"sync"
 	"time"
 
@@ -82,7 +83,7 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 			_ = np.Close()
 			return fmt.Errorf("failed to register peer: %w", err)
 		}
-		p = Peer{}
+		p = Peer{AddressPort: netip.AddrPortFrom(addr, 0)}
 	}
 	if p.State == PeerHostile {
 		_ = np.Close()
@@ -92,14 +93,14 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 	if np.Handshake().Version.CmpMinor(p.Version) >= 2 {
 		p.State = PeerHostile
 		p.Version = np.Handshake().Version
-		p.Name = fmt.Sprintf("%s(%s)", np.Handshake().NodeName, np.Handshake().AppName)
+		p.Name = strings.ToValidUTF8(fmt.Sprintf("%s(%s)", np.Handshake().NodeName, np.Handshake().AppName), "?")
 		_ = np.Close()
 		return r.storage.putPeer(p)
 	}
 	if np.Handshake().AppName[len(np.Handshake().AppName)-1] != r.scheme {
 		p.State = PeerHostile
 		p.Version = np.Handshake().Version
-		p.Name = fmt.Sprintf("%s(%s)", np.Handshake().NodeName, np.Handshake().AppName)
+		p.Name = strings.ToValidUTF8(fmt.Sprintf("%s(%s)", np.Handshake().NodeName, np.Handshake().AppName), "?")
 		_ = np.Close()
 		return r.storage.putPeer(p)
 	}
-- 
2.43.0


From 0c1eae4af23edb9dfbc02cb26a294ce5b70760f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:57 +0000
Subject: [PATCH 13/22] fix: empty application name in a handshake must not
 cause a panic

---
 peers/registry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peers/registry.go b/peers/registry.go
index d2848e4..4811164 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -97,7 +97,7 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 		_ = np.Close()
 		return r.storage.putPeer(p)
 	}
-	if np.Handshake().AppName[len(np.Handshake().AppName)-1] != r.scheme {
+	if app := np.Handshake().AppName; len(app) == 0 || app[len(app)-1] != r.scheme {
 		p.State = PeerHostile
 		p.Version = np.Handshake().Version
 		p.Name = strings.ToValidUTF8(fmt.Sprintf("%s(%s)", np.Handshake().NodeName, np.Handshake().AppName), "?")
-- 
2.43.0


From db22464e664235a1b85a281a143982133064a0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:57 +0000
Subject: [PATCH 14/22] fix: close every connection that is not registered

---
 peers/registry.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/peers/registry.go b/peers/registry.go
index 4811164..a5699f2 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -73,6 +73,7 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 		return fmt.Errorf("failed to register peer: not an IPv4 address: '%s'", addr.String())
 	}
 	if addr.Compare(r.declared) == 0 {
+		_ = np.Close()
 		return errors.New("failed to register peer: connection to itself")
 	}
 
@@ -117,9 +118,12 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 	p.NextAttempt = time.Now().Round(time.Second)
 	p.p = np
 
+	if putErr := r.storage.putPeer(p); putErr != nil {
+		_ = np.Close()
+		return fmt.Errorf("failed to register peer: %w", putErr)
+	}
 	r.connections[addr] = np
-
-	return r.storage.putPeer(p)
+	return nil
 }
 
 func (r *Registry) UpdatePeerScore(addr netip.Addr, score *big.Int) error {
@@ -139,6 +143,7 @@ func checkPort(addr netip.Addr, np peer.Peer, handshake proto.Handshake) (uint16
 	if !handshake.DeclaredAddr.Empty() {
 		ha, pErr := netip.ParseAddrPort(handshake.DeclaredAddr.String())
 		if pErr != nil {
+			_ = np.Close()
 			return 0, fmt.Errorf("failed to register peer: invalid declared address: %w", pErr)
 		}
 		port = ha.Port()
-- 
2.43.0


From d4ac5536250c86dd1913f2964b47a2da571d7601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:57 +0000
Subject: [PATCH 15/22] fix: unregistering releases the address even if the
 peer record is not available

---
 peers/registry.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/peers/registry.go b/peers/registry.go
index a5699f2..04ecdec 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -167,6 +167,9 @@ func (r *Registry) UnregisterPeer(addr netip.Addr) error {
 	r.mu.Lock()
 	defer r.mu.Unlock()
 
+	delete(r.pending, addr)
+	delete(r.connections, addr)
+
 	p, err := r.storage.peer(addr)
 	if err != nil {
 		if errors.Is(err, leveldb.ErrNotFound) {
@@ -175,9 +178,6 @@ func (r *Registry) UnregisterPeer(addr netip.Addr) error {
 		return fmt.Errorf("failed to unregister peer '%s': %w", addr.String(), err)
 	}
 
-	delete(r.pending, addr)
-	delete(r.connections, addr)
-
 	p.NextAttempt = time.Now().Add(delay).Round(time.Second)
 	p.p = nil
 
-- 
2.43.0


From 53aa3527afede64a5b1843850991885131b6f7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:18 +0000
Subject: [PATCH 16/22] fix: versions that differ only in patch must not hide
 lower versions

---
 peers/registry.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/peers/registry.go b/peers/registry.go
index 04ecdec..145450e 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -6,6 +6,7 @@ import (
 	"math/big"
 	"net"
 	"net/netip"
+	"slices"
 	"sort"
 	"strings"
 	"sync"
@@ -371,12 +372,14 @@ func (r *Registry) Broadcast(msg proto.Message) {
 type versions []proto.Version
 
 func newVersions(vs []proto.Version) versions {
-	sorted := proto.ByVersion(vs)
-	sort.Sort(sort.Reverse(sorted))
-	for i, v := range sorted {
-		sorted[i] = proto.NewVersion(v.Major(), v.Minor(), 0)
+	r := make(versions, 0, len(vs))
+	for _, v := range vs {
+		if x := proto.NewVersion(v.Major(), v.Minor(), 0); !slices.Contains(r, x) {
+			r = append(r, x)
+		}
 	}
-	return versions(sorted)
+	sort.Sort(sort.Reverse(proto.ByVersion(r)))
+	return r
 }
 
 func (vs versions) bestVersion() proto.Version {
-- 
2.43.0


From 59b98343235063e9218fc29a505cdc023633f756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:21 +0000
Subject: [PATCH 17/22] fix: report the failure of a timed out attempt even if
 applying a block fails

---
 loading/peer_loader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/loading/peer_loader.go b/loading/peer_loader.go
index febfa25..d03365f 100644
--- a/loading/peer_loader.go
+++ b/loading/peer_loader.go
@@ -241,7 +241,8 @@ func (pl *peerLoader) handleFailure(_ context.Context, _ ...any) error {
 	for _, it := range pl.queue.q {
 		if it.received != nil && it.received.BlockID() == it.requested {
 			if err := pl.hp.PutBlock(it.received, pl.peer.ID()); err != nil {
-				return err
+				zap.S().Warnf("[PL@%s] Failed to apply block '%s': %v", pl.peer.ID(), it.requested, err)
+				break // The failure must be reported anyway, otherwise the loading never ends.
 			}
 		} else {
 			break // Stop on first not received block.
-- 
2.43.0


From 1f4f0e7bd4e81a6957e5a0065fd79efb074206f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:21 +0000
Subject: [PATCH 18/22] fix: drop the queue of a finished attempt

---
 loading/peer_loader.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/loading/peer_loader.go b/loading/peer_loader.go
index d03365f..cf12619 100644
--- a/loading/peer_loader.go
+++ b/loading/peer_loader.go
@@ -253,6 +253,7 @@ func (pl *peerLoader) handleFailure(_ context.Context, _ ...any) error {
 }
 
 func (pl *peerLoader) reportOK(_ context.Context, _ ...any) error {
+	pl.queue = queue{} // The blocks of the finished attempt must not be applied by the next one.
 	pl.r.OK()
 	return nil
 }
-- 
2.43.0


From 63a31ce7509cdbcb007c46d190126685f4be63fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:21 +0000
Subject: [PATCH 19/22] fix: a block must not complete an attempt that
 requested nothing

---
 loading/peer_loader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/loading/peer_loader.go b/loading/peer_loader.go
index cf12619..9258dae 100644
--- a/loading/peer_loader.go
+++ b/loading/peer_loader.go
@@ -222,6 +222,9 @@ func (pl *peerLoader) appendBlock(_ context.Context, args ...any) error {
 	if !ok {
 		return fmt.Errorf("failed to append block for peer '%s': invalid argument type", pl.peer.ID())
 	}
+	if len(pl.queue.q) == 0 {
+		return nil // No blocks were requested, there is nothing to complete.
+	}
 	pl.queue.put(block)
 	if pl.queue.ready() {
 		for _, it := range pl.queue.q { // Applying blocks without checks, they were done in ready function.
-- 
2.43.0


From 3483020eb8b1a57e7fae74ef0d9dee357082c749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:21 +0000
Subject: [PATCH 20/22] fix: forget the score difference of a failed peer

---
 loading/loader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/loading/loader.go b/loading/loader.go
index a78a79c..3483bb7 100644
--- a/loading/loader.go
+++ b/loading/loader.go
@@ -153,7 +153,7 @@ func (l *Loader) Fail() {
 	if l.pl != nil && l.pl.sm.MustState() == stateDone {
 		zap.S().Debugf("[LDR] Peer '%s' failed to load history", l.pl.peer.ID())
 		l.fc.inc(l.pl.peer.ID())
-		l.pl = nil
+		l.resetLoadingPeer()
 	}
 }
 
-- 
2.43.0


From 32f9f563beee11d667de944976e92087cd320b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:21 +0000
Subject: [PATCH 21/22] fix: free the loader if the lag of the loaded peer is
 unknown

---
 loading/loader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/loading/loader.go b/loading/loader.go
index 3483bb7..6eaf2b0 100644
--- a/loading/loader.go
+++ b/loading/loader.go
@@ -131,11 +131,13 @@ func (l *Loader) OK() {
 		p, err := l.registry.Peer(l.pl.peer.ID())
 		if err != nil {
 			zap.S().Warnf("Failed to get connection: %v", err)
+			l.resetLoadingPeer() // The peer loader stays idle, nothing else resets it.
 			return
 		}
 		score, err := l.linkage.LeashScore(l.pl.peer.ID())
 		if err != nil {
 			zap.S().Warnf("Failed to get peers score: %v", err)
+			l.resetLoadingPeer()
 			return
 		}
 		if diff, lagging := l.isLagging(p.Score, score); lagging {
-- 
2.43.0


From 64ededeb50d4399bd0ced56a69bf5ccd097bfc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:26 +0000
Subject: [PATCH 22/22] fix: a declared IPv6 address must not panic

---
 parameters.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parameters.go b/parameters.go
index 0bb480c..275b507 100644
--- a/parameters.go
+++ b/parameters.go
@@ -215,7 +215,6 @@ func parseAddress(addr string) proto.TCPAddr {
 	if err != nil {
 		return proto.TCPAddr{}
 	}
-	ip4 := ap.Addr().As4()
-	ip := net.IPv4(ip4[0], ip4[1], ip4[2], ip4[3])
-	return proto.NewTCPAddr(ip, int(ap.Port()))
+	ip := ap.Addr().As16()
+	return proto.NewTCPAddr(ip[:], int(ap.Port()))
 }
-- 
2.43.0

