From 1b903d07170c3acd9f725ccc6b68185a01f4fd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:47 +0000
Subject: [PATCH 01/32] fix: write input features when encoding a transaction

---
 consensus/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/consensus/transaction.go b/consensus/transaction.go
index ee0efbd..f2a14ee 100644
--- a/consensus/transaction.go
+++ b/consensus/transaction.go
@@ -55,7 +55,7 @@ func (t *Transaction) Bytes() []byte {
 
 	// Write inputs
 	for _, input := range t.Inputs {
-		if _, err := buff.Write(input.Commit); err != nil {
+		if _, err := buff.Write(input.Bytes()); err != nil {
 			logrus.Fatal(err)
 		}
 	}
-- 
2.43.0


From 21e8d3a683ffcd760de3d60f3fa17dd8d19f3b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:49 +0000
Subject: [PATCH 02/32] fix: limit the number of kernel ids in a compact block

---
 consensus/block.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/consensus/block.go b/consensus/block.go
index 853eab7..2d1a081 100644
--- a/consensus/block.go
+++ b/consensus/block.go
@@ -420,6 +420,11 @@ func (b *CompactBlock) Read(r io.Reader) error {
 		return err
 	}
 
+	// Sanity check the length, outputs & kernels are limited by their type.
+	if kernelIDs > 1000000 {
+		return errors.New("compact block contains too many kernel ids")
+	}
+
 	// Read outputs
 	b.Outputs = make(OutputList, outputs)
 	for i := uint8(0); i < outputs; i++ {
-- 
2.43.0


From f761ce1b430e4678cfba53c91f9c590f8ae9a181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:50 +0000
Subject: [PATCH 03/32] fix: verify the signature of every kernel of a block

---
 consensus/block.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/consensus/block.go b/consensus/block.go
index 2d1a081..b47e373 100644
--- a/consensus/block.go
+++ b/consensus/block.go
@@ -279,11 +279,11 @@ func (b *Block) verifyKernels() error {
 			if coinbase > MaxBlockCoinbaseKernels {
 				return errors.New("invalid block with few coinbase kernels")
 			}
+		}
 
-			// Validate kernel
-			if err := kernel.Validate(); err != nil {
-				return err
-			}
+		// Validate kernel
+		if err := kernel.Validate(); err != nil {
+			return err
 		}
 	}
 
-- 
2.43.0


From 04865aada4da2b740555a7194c08c213c9aba0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:52 +0000
Subject: [PATCH 04/32] fix: refuse a range proof announced longer than it is

---
 consensus/block.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/consensus/block.go b/consensus/block.go
index b47e373..87f9627 100644
--- a/consensus/block.go
+++ b/consensus/block.go
@@ -605,10 +605,14 @@ func (o *Output) Read(r io.Reader) error {
 	}
 
 	proof := new(bulletproofs.BulletProof)
-	err := proof.Read(io.LimitReader(r, int64(proofLen)))
+	pr := &io.LimitedReader{R: r, N: int64(proofLen)}
+	err := proof.Read(pr)
 	if err != nil {
 		return errors.New("failed to deserialize range proof")
 	}
+	if pr.N != 0 {
+		return fmt.Errorf("invalid range proof length: %d", proofLen)
+	}
 	o.RangeProof = *proof
 
 	return nil
-- 
2.43.0


From 583b8d470216488be95dae06a06044e0ca26ba40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:53 +0000
Subject: [PATCH 05/32] fix: division by zero on a hash with 64 leading zero
 bits

---
 consensus/difficulty.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/consensus/difficulty.go b/consensus/difficulty.go
index bd545ad..8f88cb1 100644
--- a/consensus/difficulty.go
+++ b/consensus/difficulty.go
@@ -31,6 +31,9 @@ func (d Difficulty) FromHash(hash Hash) Difficulty {
 
 	// Use the first 64 bits of the given hash
 	num := binary.BigEndian.Uint64(hash[:8])
+	if num == 0 {
+		num = 1
+	}
 
 	return Difficulty(maxTarget / num)
 }
-- 
2.43.0


From 6d13e67b170d8ce451cbe1ef6f80eb52bf783021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:55 +0000
Subject: [PATCH 06/32] fix: difficulty retarget always halved the difficulty

---
 consensus/consensus.go  | 2 +-
 consensus/difficulty.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/consensus/consensus.go b/consensus/consensus.go
index 9cf9d3e..9be3713 100644
--- a/consensus/consensus.go
+++ b/consensus/consensus.go
@@ -109,5 +109,5 @@ const (
 	UpperTimeBound time.Duration = BlockTimeWindow * 2
 
 	// Minimum size time window used for difficulty adjustments
-	LowerTimeBound time.Duration = BlockTimeWindow * 2
+	LowerTimeBound time.Duration = BlockTimeWindow / 2
 )
diff --git a/consensus/difficulty.go b/consensus/difficulty.go
index 8f88cb1..9d7d58a 100644
--- a/consensus/difficulty.go
+++ b/consensus/difficulty.go
@@ -103,7 +103,7 @@ func NextDifficulty(blist BlockList) Difficulty {
 
 	// Average difficulty and dampened average time
 	diffAvg := sumDiff / MinimumDifficulty.FromNum(uint64(DifficultyAdjustWindow))
-	ts := (3*BlockTimeWindow + beginTime.Sub(endTime)) / 4
+	ts := (3*BlockTimeWindow + beginTime.Sub(endTime)/time.Second) / 4
 
 	// Apply time bounds
 	if ts < LowerTimeBound {
-- 
2.43.0


From 23c10cef5b4ede0c31d42a8cedc5e1e6834c3e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:56 +0000
Subject: [PATCH 07/32] fix: chain validation ignored invalid blocks

---
 chain/chain.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/chain/chain.go b/chain/chain.go
index 3758eb4..c8f09f0 100644
--- a/chain/chain.go
+++ b/chain/chain.go
@@ -370,9 +370,8 @@ func (c *Chain) Validate() error {
 
 	// go from head to genesis
 	// TODO: MUST check all consensus rules
-	for bytes.Compare(block.Header.Previous, c.genesis.Hash()) != 0 {
-		err := block.Validate()
-		if err == nil {
+	for bytes.Compare(block.Hash(), c.genesis.Hash()) != 0 {
+		if err := block.Validate(); err != nil {
 			return err
 		}
 
-- 
2.43.0


From 149dac9206ff79a1e37932f70e2003b668faa0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:10 +0000
Subject: [PATCH 08/32] fix: genesis headers could not be encoded

---
 chain/chain.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/chain/chain.go b/chain/chain.go
index c8f09f0..13c84e8 100644
--- a/chain/chain.go
+++ b/chain/chain.go
@@ -22,10 +22,13 @@ var Testnet1 = consensus.Block{
 		Timestamp:       time.Date(2017, 11, 16, 20, 0, 0, 0, time.UTC),
 		TotalDifficulty: 10,
 
+		PreviousRoot:   bytes.Repeat([]byte{0x00}, 32),
 		UTXORoot:       bytes.Repeat([]byte{0x00}, 32),
 		RangeProofRoot: bytes.Repeat([]byte{0x00}, 32),
 		KernelRoot:     bytes.Repeat([]byte{0x00}, 32),
 
+		TotalKernelOffset: bytes.Repeat([]byte{0x00}, 32),
+
 		Nonce: 28205,
 		POW: consensus.Proof{
 			Nonces: []uint32{
@@ -51,10 +54,13 @@ var Testnet2 = consensus.Block{
 		//Difficulty:      10,
 		//TotalDifficulty: 10,
 
+		PreviousRoot:   bytes.Repeat([]byte{0x00}, 32),
 		UTXORoot:       bytes.Repeat([]byte{0x00}, 32),
 		RangeProofRoot: bytes.Repeat([]byte{0x00}, 32),
 		KernelRoot:     bytes.Repeat([]byte{0x00}, 32),
 
+		TotalKernelOffset: bytes.Repeat([]byte{0x00}, 32),
+
 		Nonce: 70081,
 		POW: consensus.Proof{
 			Nonces: []uint32{
@@ -82,6 +88,7 @@ var Testnet3 = consensus.Block{
 		Timestamp:       time.Date(2018, 7, 8, 18, 0, 0, 0, time.UTC),
 		TotalDifficulty: TESTNET3_INITIAL_DIFFICULTY,
 
+		PreviousRoot:   bytes.Repeat([]byte{0x00}, 32),
 		UTXORoot:       bytes.Repeat([]byte{0x00}, 32),
 		RangeProofRoot: bytes.Repeat([]byte{0x00}, 32),
 		KernelRoot:     bytes.Repeat([]byte{0x00}, 32),
@@ -118,6 +125,7 @@ var Testnet4 = consensus.Block{
 		Timestamp:       time.Date(2018, 10, 17, 20, 0, 0, 0, time.UTC),
 		TotalDifficulty: testnet4InitialDifficulty,
 
+		PreviousRoot:   bytes.Repeat([]byte{0x00}, 32),
 		UTXORoot:       bytes.Repeat([]byte{0x00}, 32),
 		RangeProofRoot: bytes.Repeat([]byte{0x00}, 32),
 		KernelRoot:     bytes.Repeat([]byte{0x00}, 32),
@@ -149,10 +157,13 @@ var Mainnet = consensus.Block{
 		Timestamp:       time.Date(2018, 8, 14, 0, 0, 0, 0, time.UTC),
 		TotalDifficulty: 1000,
 
+		PreviousRoot:   bytes.Repeat([]byte{0x00}, 32),
 		UTXORoot:       bytes.Repeat([]byte{0x00}, 32),
 		RangeProofRoot: bytes.Repeat([]byte{0x00}, 32),
 		KernelRoot:     bytes.Repeat([]byte{0x00}, 32),
 
+		TotalKernelOffset: bytes.Repeat([]byte{0x00}, 32),
+
 		Nonce: 28205,
 		POW: consensus.Proof{
 			Nonces: []uint32{
-- 
2.43.0


From 65fd0da6f4541d72c8798ff4ad504442a9d2e3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:12 +0000
Subject: [PATCH 09/32] fix: half of the created signatures did not verify
 after serialization

---
 secp256k1zkp/schnorr.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/secp256k1zkp/schnorr.go b/secp256k1zkp/schnorr.go
index 046b115..3362c29 100644
--- a/secp256k1zkp/schnorr.go
+++ b/secp256k1zkp/schnorr.go
@@ -79,6 +79,13 @@ func SignMessage(publicKey Point, privateKey big.Int, message [32]byte) Signatur
 	// R is the public key for k.
 	R := ScalarMulPoint(&G, k)
 
+	// Only the x-coordinate of R is serialized, the verifier takes the
+	// y-coordinate that is a quadratic residue.
+	if !IsQuadraticResidue(R.Y) {
+		k = Neg(k)
+		R = ScalarMulPoint(&G, k)
+	}
+
 	// Compute a non-interactive challenge.
 	Rx := GetB32(R.X)
 	compressedPubkey := CompressPubkey(publicKey)
-- 
2.43.0


From a724b4075258480ed2ff4cb640492d886937f599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:13 +0000
Subject: [PATCH 10/32] fix: negating s gave a second valid signature

---
 secp256k1zkp/schnorr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/secp256k1zkp/schnorr.go b/secp256k1zkp/schnorr.go
index 3362c29..2e2fe6e 100644
--- a/secp256k1zkp/schnorr.go
+++ b/secp256k1zkp/schnorr.go
@@ -117,7 +117,7 @@ func VerifySignature(publicKey Point, message [32]byte, signature Signature) boo
 	lhs := ScalarMulPoint(&G, &signature.S)
 	rhs := SumPoints(&signature.R, ScalarMulPoint(&publicKey, e))
 
-	return lhs.X.Cmp(rhs.X) == 0
+	return lhs.Equals(rhs)
 }
 
 // CommitValue returns the Pedersen commitment to the value v with blinding
-- 
2.43.0


From 1e39b51c4ee5e22477db2e214651b0d054516cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:14 +0000
Subject: [PATCH 11/32] fix: two cycles sharing a vertex were accepted as one

---
 cuckoo/cuckoo.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/cuckoo/cuckoo.go b/cuckoo/cuckoo.go
index 347b5fb..2029743 100644
--- a/cuckoo/cuckoo.go
+++ b/cuckoo/cuckoo.go
@@ -25,6 +25,23 @@ func findCycleLength(edges []*Edge) int {
 	i := 0     // first node
 	cycle := 0 // the current length of the cycle
 
+	// A cycle passes through a vertex only once, so none of them may belong to
+	// more than two edges.
+	for m := range edges {
+		degreeU, degreeV := 0, 0
+		for n := range edges {
+			if edges[m].U == edges[n].U {
+				degreeU++
+			}
+			if edges[m].V == edges[n].V {
+				degreeV++
+			}
+		}
+		if degreeU > 2 || degreeV > 2 {
+			return 0
+		}
+	}
+
 loop:
 	for {
 		// If the current cycle length is even we need to look for an edge from
-- 
2.43.0


From 9af46c5d935b23e75de7f36116914233eb6d7e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:05 +0000
Subject: [PATCH 12/32] fix: IPv6 peer addresses could not be exchanged

---
 p2p/helpers.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/p2p/helpers.go b/p2p/helpers.go
index 51e850f..de1e7a6 100644
--- a/p2p/helpers.go
+++ b/p2p/helpers.go
@@ -36,7 +36,7 @@ func serializeTCPAddr(buff io.Writer, addr *net.TCPAddr) {
 				logrus.Fatal(err)
 			}
 
-			for i := 0; i < 8; i += 2 {
+			for i := 0; i < net.IPv6len; i += 2 {
 				segment := (uint16(IP[i]) << 8) + uint16(IP[i+1])
 
 				if err := binary.Write(buff, binary.BigEndian, segment); err != nil {
@@ -73,10 +73,10 @@ func deserializeTCPAddr(r io.Reader) (*net.TCPAddr, error) {
 	case 1: // for ipv6 addr
 		ipAddr = make([]byte, net.IPv6len)
 
-		for i := 0; i < 8; i += 2 {
+		for i := 0; i < net.IPv6len; i += 2 {
 			var segment uint16
 
-			if err := binary.Read(r, binary.BigEndian, segment); err != nil {
+			if err := binary.Read(r, binary.BigEndian, &segment); err != nil {
 				return nil, err
 			}
 
-- 
2.43.0


From a3e4890f7e4b2ddcb1342cad6e346bbf6c85cb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:06 +0000
Subject: [PATCH 13/32] fix: bound the length of strings announced by a peer

---
 p2p/handshake.go | 8 ++++++++
 p2p/messages.go  | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/p2p/handshake.go b/p2p/handshake.go
index b6f9acc..1f1ea2a 100644
--- a/p2p/handshake.go
+++ b/p2p/handshake.go
@@ -123,6 +123,10 @@ func (h *hand) Read(r io.Reader) error {
 		return err
 	}
 
+	if userAgentLen > consensus.MaxMsgLen {
+		return errors.New("too big user agent len")
+	}
+
 	buff := make([]byte, userAgentLen)
 	if _, err := io.ReadFull(r, buff); err != nil {
 		return err
@@ -210,6 +214,10 @@ func (h *shake) Read(r io.Reader) error {
 		return err
 	}
 
+	if userAgentLen > consensus.MaxMsgLen {
+		return errors.New("too big user agent len")
+	}
+
 	buff := make([]byte, userAgentLen)
 	if _, err := io.ReadFull(r, buff); err != nil {
 		return err
diff --git a/p2p/messages.go b/p2p/messages.go
index 62a2d90..86b273f 100644
--- a/p2p/messages.go
+++ b/p2p/messages.go
@@ -207,6 +207,10 @@ func (p *PeerError) Read(r io.Reader) error {
 		return err
 	}
 
+	if messageLen > consensus.MaxMsgLen {
+		return errors.New("too big error message len")
+	}
+
 	buff := make([]byte, messageLen)
 	if _, err := io.ReadFull(r, buff); err != nil {
 		return err
-- 
2.43.0


From 42dcb5d073f96f0d1345bac64f56d254a23ce3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:08 +0000
Subject: [PATCH 14/32] fix: a peer handler waited for itself when
 disconnecting

---
 p2p/peer.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index cf56a0b..87b00e7 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -350,7 +350,6 @@ func (p *Peer) Disconnect(reason error) {
 
 	close(p.quit)
 	p.conn.Close()
-	p.wg.Wait()
 }
 
 // Close the connection to the remote peer
-- 
2.43.0


From b2d1f7dc3a39f2e603efdc1ac72df29b3b146da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:09 +0000
Subject: [PATCH 15/32] fix: banning a peer crashed the node and did not last

---
 p2p/pool.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index 27ceaa1..7ad82ea 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -30,6 +30,7 @@ func newPeersPool(sync *Syncer) *peersPool {
 		quit:           make(chan int),
 		PeersTable:     make(map[string]*peerInfo),
 		ConnectedPeers: make(map[string]*peerInfo),
+		BannedPeers:    make(map[string]struct{}),
 	}
 
 	return pp
@@ -59,8 +60,15 @@ type peersPool struct {
 
 // Ban closes connection & ban peer
 func (pp *peersPool) Ban(addr string) {
+	// Add to ban list
+	pp.bnmu.Lock()
+	pp.BannedPeers[addr] = struct{}{}
+	pp.bnmu.Unlock()
+
+	// Clear the peers table
 	pp.ptmu.Lock()
 	peerInfo, ok := pp.PeersTable[addr]
+	delete(pp.PeersTable, addr)
 	pp.ptmu.Unlock()
 
 	if !ok {
@@ -68,18 +76,14 @@ func (pp *peersPool) Ban(addr string) {
 	}
 
 	// Mark banned & Close connection
+	peerInfo.Lock()
 	peerInfo.Status = psBanned
-	peerInfo.Peer.Close()
+	peer := peerInfo.Peer
+	peerInfo.Unlock()
 
-	// Add to ban list
-	pp.bnmu.Lock()
-	pp.BannedPeers[addr] = struct{}{}
-	pp.bnmu.Unlock()
-
-	// Clear the peers table
-	pp.ptmu.Lock()
-	delete(pp.PeersTable, addr)
-	pp.ptmu.Unlock()
+	if peer != nil {
+		peer.Close()
+	}
 }
 
 // IsBan returns true if addr is banned
@@ -111,6 +115,11 @@ func (pp *peersPool) Add(addr string) {
 	pp.ptmu.Lock()
 	defer pp.ptmu.Unlock()
 
+	// Don't add banned peers
+	if pp.IsBan(addr) {
+		return
+	}
+
 	// Don't add if big peer table
 	if len(pp.PeersTable) > maxPeersTableSize {
 		return
-- 
2.43.0


From 6c3f748df9db2e3a6fb9b72bb28bc7d4cee956ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:10 +0000
Subject: [PATCH 16/32] fix: ban the peer under the address the pool knows

---
 p2p/sync.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/p2p/sync.go b/p2p/sync.go
index 284d6fd..3e74ef1 100644
--- a/p2p/sync.go
+++ b/p2p/sync.go
@@ -176,7 +176,7 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 	case *BlockHeaders:
 		if err := s.Chain.ProcessHeaders(msg.Headers); err != nil {
 			// ban peer ?
-			s.Pool.Ban(peer.conn.RemoteAddr().String())
+			s.Pool.Ban(peer.Addr)
 		}
 
 	case *GetBlock:
@@ -192,7 +192,7 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 		if err := s.Chain.ProcessBlock(msg); err != nil {
 			logrus.Info(err)
 			// TODO: maybe smarter ban peer ?
-			s.Pool.Ban(peer.conn.RemoteAddr().String())
+			s.Pool.Ban(peer.Addr)
 		}
 
 		// update peer info
@@ -213,7 +213,7 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 	case *consensus.Transaction:
 		if err := s.Mempool.ProcessTx(msg); err != nil {
 			// ban peer ?
-			s.Pool.Ban(peer.conn.RemoteAddr().String())
+			s.Pool.Ban(peer.Addr)
 		}
 
 		// TODO: propagate tx?
-- 
2.43.0


From 1246549066c764bc409aba5246a6d198c335de62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:11 +0000
Subject: [PATCH 17/32] fix: a refused block was passed on to other peers

---
 p2p/sync.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/p2p/sync.go b/p2p/sync.go
index 3e74ef1..590254e 100644
--- a/p2p/sync.go
+++ b/p2p/sync.go
@@ -193,6 +193,7 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 			logrus.Info(err)
 			// TODO: maybe smarter ban peer ?
 			s.Pool.Ban(peer.Addr)
+			return
 		}
 
 		// update peer info
-- 
2.43.0


From 441d0bcd18d2c217e6a504d43b60d9d2ea4f198e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:12 +0000
Subject: [PATCH 18/32] fix: connection slots leaked when there was nobody to
 dial

---
 p2p/pool.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/p2p/pool.go b/p2p/pool.go
index 7ad82ea..50139e1 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -209,6 +209,8 @@ func (pp *peersPool) PropagateBlock(block *consensus.Block) {
 func (pp *peersPool) connectPeer(addr string) error {
 	// for empty string nonerror exit
 	if len(addr) == 0 {
+		// nobody to connect to, give the connection slot back
+		<-pp.pool
 		return nil
 	}
 
@@ -229,6 +231,7 @@ func (pp *peersPool) connectPeer(addr string) error {
 
 	if peerInfo.Status == psBanned || peerInfo.Status == psConnected {
 		logrus.Debug("dont connect to banned host (or already connected)")
+		<-pp.pool
 		return nil
 	}
 
-- 
2.43.0


From ee66c4d73f538c7b2281ecfb51115272f3d856e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:13 +0000
Subject: [PATCH 19/32] fix: sockets leaked when the handshake failed

---
 p2p/peer.go | 1 +
 p2p/pool.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/p2p/peer.go b/p2p/peer.go
index 87b00e7..081f807 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -73,6 +73,7 @@ func NewPeer(sync *Syncer, addr string) (*Peer, error) {
 	logrus.Infof("connected to peer (%s)", addr)
 	shake, err := shakeByHand(conn)
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
 
diff --git a/p2p/pool.go b/p2p/pool.go
index 50139e1..b8b96a8 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -243,6 +243,7 @@ func (pp *peersPool) connectPeer(addr string) error {
 
 	// Check the Protocol version
 	if peerConn.Info.Version != consensus.ProtocolVersion {
+		peerConn.Close()
 		return fmt.Errorf("unexpected protocolVersion: %d", peerConn.Info.Version)
 	}
 
-- 
2.43.0


From f777bcd961cbe92ac16fbaf217a12d51c4946f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:14 +0000
Subject: [PATCH 20/32] fix: peers of another chain were accepted

---
 p2p/handshake.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/p2p/handshake.go b/p2p/handshake.go
index 1f1ea2a..3201820 100644
--- a/p2p/handshake.go
+++ b/p2p/handshake.go
@@ -268,6 +268,11 @@ func shakeByHand(conn net.Conn) (*shake, error) {
 		return nil, err
 	}
 
+	// Only connect to peers on the same chain
+	if !bytes.Equal(sh.Genesis, msg.Genesis) {
+		return nil, errors.New("peer is on another chain")
+	}
+
 	return sh, nil
 }
 
@@ -286,12 +291,19 @@ func handByShake(conn net.Conn) (*hand, error) {
 		return &h, errors.New("detect connection to ourselves by nonce")
 	}
 
+	// Only connect to peers on the same chain
+	genesis := chain.Testnet4.Hash()
+	if !bytes.Equal(h.Genesis, genesis) {
+		return nil, errors.New("peer is on another chain")
+	}
+
 	// Send shake
 	msg := shake{
 		Version:         consensus.ProtocolVersion,
 		Capabilities:    consensus.CapFullNode,
 		TotalDifficulty: consensus.Difficulty(1),
 		UserAgent:       userAgent,
+		Genesis:         genesis,
 	}
 	if _, err := WriteMessage(conn, &msg); err != nil {
 		return nil, err
-- 
2.43.0


From 65085892453fb424c258325bc78a196983dfe95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:16 +0000
Subject: [PATCH 21/32] fix: a transaction crashed a node without a mempool

---
 p2p/sync.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/p2p/sync.go b/p2p/sync.go
index 590254e..83df4d7 100644
--- a/p2p/sync.go
+++ b/p2p/sync.go
@@ -212,6 +212,11 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 		}
 
 	case *consensus.Transaction:
+		// a node may run without a mempool
+		if s.Mempool == nil {
+			return
+		}
+
 		if err := s.Mempool.ProcessTx(msg); err != nil {
 			// ban peer ?
 			s.Pool.Ban(peer.Addr)
-- 
2.43.0


From f6dc10984caee6ed126154c0404d45dd430ba5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:17 +0000
Subject: [PATCH 22/32] fix: stopping crashed on peers that were never
 connected

---
 p2p/pool.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index b8b96a8..5d7098a 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -317,7 +317,9 @@ out:
 	for _, pi := range pp.PeersTable {
 		go func(peerInfo *peerInfo) {
 			peerInfo.Lock()
-			peerInfo.Peer.Close()
+			if peerInfo.Peer != nil {
+				peerInfo.Peer.Close()
+			}
 			peerInfo.Status = psDisconnected
 			peerInfo.Unlock()
 		}(pi)
-- 
2.43.0


From c74153a4f7b94f4fdf0f735c360bc7aa7c959c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:18 +0000
Subject: [PATCH 23/32] fix: a message from a peer missing in the table stopped
 the node

---
 p2p/sync.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/p2p/sync.go b/p2p/sync.go
index 83df4d7..0c53818 100644
--- a/p2p/sync.go
+++ b/p2p/sync.go
@@ -104,8 +104,9 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 
 	peerInfo := s.Pool.PeerInfo(peer.Addr)
 	if peerInfo == nil {
-		// should never rich
-		logrus.Fatal("unexpected error")
+		// the peer was banned in the meantime
+		logrus.Errorf("message from unknown peer (%s)", peer.Addr)
+		return
 	}
 
 	switch msg := message.(type) {
-- 
2.43.0


From 8b817ab9551e6d3554e3d8750d9d388ca60adb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:19 +0000
Subject: [PATCH 24/32] fix: peer state was read and written without its lock

---
 p2p/pool.go | 62 +++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 19 deletions(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index 5d7098a..b8ffaf1 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -11,6 +11,7 @@ import (
 	"github.com/sirupsen/logrus"
 	"net"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -151,12 +152,16 @@ func (pp *peersPool) Peers(capabilities consensus.Capabilities) *PeerAddrs {
 	defer pp.ptmu.Unlock()
 
 	for addr, peerInfo := range pp.PeersTable {
-		if peerInfo.Status == psBanned || peerInfo.Status == psFailedConn {
+		peerInfo.Lock()
+		status, peerCapabilities := peerInfo.Status, peerInfo.Capabilities
+		peerInfo.Unlock()
+
+		if status == psBanned || status == psFailedConn {
 			continue
 		}
 
 		// filter by capabilities
-		if (peerInfo.Capabilities & capabilities) != capabilities {
+		if (peerCapabilities & capabilities) != capabilities {
 			continue
 		}
 
@@ -195,9 +200,14 @@ func (pp *peersPool) PropagateBlock(block *consensus.Block) {
 
 	for _, pi := range pp.ConnectedPeers {
 		go func(peerInfo *peerInfo) {
+			peerInfo.Lock()
+			peer := peerInfo.Peer
+			height, totalDifficulty := peerInfo.Height, peerInfo.TotalDifficulty
+			peerInfo.Unlock()
+
 			// propagate if peer height or totalDiff less than newest block
-			if peerInfo.Height < block.Header.Height || peerInfo.TotalDifficulty < block.Header.TotalDifficulty {
-				if peer := peerInfo.Peer; peer != nil {
+			if height < block.Header.Height || totalDifficulty < block.Header.TotalDifficulty {
+				if peer != nil {
 					peer.SendBlock(block)
 				}
 			}
@@ -214,7 +224,7 @@ func (pp *peersPool) connectPeer(addr string) error {
 		return nil
 	}
 
-	if pp.connected > int32(maxOnlineConnections) {
+	if atomic.LoadInt32(&pp.connected) > int32(maxOnlineConnections) {
 		return errors.New("too big online peers connections")
 	}
 
@@ -226,10 +236,7 @@ func (pp *peersPool) connectPeer(addr string) error {
 		return errors.New("peer doesn't exists at peersTable")
 	}
 
-	peerInfo.Lock()
-	defer peerInfo.Unlock()
-
-	if peerInfo.Status == psBanned || peerInfo.Status == psConnected {
+	if status := peerInfo.status(); status == psBanned || status == psConnected {
 		logrus.Debug("dont connect to banned host (or already connected)")
 		<-pp.pool
 		return nil
@@ -237,7 +244,9 @@ func (pp *peersPool) connectPeer(addr string) error {
 
 	peerConn, err := NewPeer(pp.sync, addr)
 	if err != nil {
+		peerInfo.Lock()
 		peerInfo.Status = psFailedConn
+		peerInfo.Unlock()
 		return err
 	}
 
@@ -247,9 +256,14 @@ func (pp *peersPool) connectPeer(addr string) error {
 		return fmt.Errorf("unexpected protocolVersion: %d", peerConn.Info.Version)
 	}
 
-	pp.connected++
-
 	// update peers table
+	peerInfo.Lock()
+	if peerInfo.Status == psBanned {
+		peerInfo.Unlock()
+		peerConn.Close()
+		return errors.New("peer has been banned")
+	}
+
 	peerInfo.Peer = peerConn
 	peerInfo.Status = psConnected
 	peerInfo.LastConn = time.Now()
@@ -258,8 +272,10 @@ func (pp *peersPool) connectPeer(addr string) error {
 	peerInfo.Height = peerConn.Info.Height
 	peerInfo.TotalDifficulty = peerConn.Info.TotalDifficulty
 	peerInfo.Capabilities = peerConn.Info.Capabilities
+	peerInfo.Unlock()
 
 	// update connected peers
+	atomic.AddInt32(&pp.connected, 1)
 	pp.cpmu.Lock()
 	pp.ConnectedPeers[addr] = peerInfo
 	pp.cpmu.Unlock()
@@ -274,17 +290,17 @@ func (pp *peersPool) connectPeer(addr string) error {
 		peerConn.WaitForDisconnect()
 		logrus.Infof("closed peer connection (%s)", addr)
 
-		// update peers & connected peers tables
-		peerInfo.Lock()
-		peerInfo.Status = psDisconnected
-		peerInfo.Unlock()
-
 		// clean connected peers
-		pp.connected--
+		atomic.AddInt32(&pp.connected, -1)
 		pp.cpmu.Lock()
 		delete(pp.ConnectedPeers, addr)
 		pp.cpmu.Unlock()
 
+		// update peers table
+		peerInfo.Lock()
+		peerInfo.Status = psDisconnected
+		peerInfo.Unlock()
+
 		<-pp.pool
 	}()
 
@@ -339,14 +355,14 @@ func (pp *peersPool) notConnected() string {
 
 	// first, find good peers
 	for addr, peerInfo := range pp.PeersTable {
-		if peerInfo.Status == psNew || peerInfo.Status == psDisconnected {
+		if status := peerInfo.status(); status == psNew || status == psDisconnected {
 			return addr
 		}
 	}
 
 	// second, try to open conn with failed nodes
 	for addr, peer := range pp.PeersTable {
-		if peer.Status == psFailedConn {
+		if peer.status() == psFailedConn {
 			return addr
 		}
 	}
@@ -368,6 +384,14 @@ type peerInfo struct {
 	LastConn time.Time
 }
 
+// status returns the current status of the peer
+func (pi *peerInfo) status() peerStatus {
+	pi.Lock()
+	defer pi.Unlock()
+
+	return pi.Status
+}
+
 type peerStatus int
 
 const (
-- 
2.43.0


From a7402bff1678df536c00899a26720826f4647889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:20 +0000
Subject: [PATCH 25/32] fix: the rest of a message was taken for the next one

---
 p2p/protocol.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/p2p/protocol.go b/p2p/protocol.go
index ba25bf0..44b9d3f 100644
--- a/p2p/protocol.go
+++ b/p2p/protocol.go
@@ -9,6 +9,7 @@ import (
 	"errors"
 	"github.com/dblokhin/gringo/consensus"
 	"io"
+	"io/ioutil"
 )
 
 const (
@@ -71,5 +72,11 @@ func ReadMessage(r io.Reader, msg Message) (uint64, error) {
 	}
 
 	rb := io.LimitReader(r, int64(header.Len))
-	return uint64(consensus.HeaderLen) + uint64(header.Len), msg.Read(rb)
+	if err := msg.Read(rb); err != nil {
+		return uint64(consensus.HeaderLen) + uint64(header.Len), err
+	}
+
+	// leave the reader at the next message
+	_, err := io.Copy(ioutil.Discard, rb)
+	return uint64(consensus.HeaderLen) + uint64(header.Len), err
 }
-- 
2.43.0


From 25dea9173ee2b6bdfa6f9c0ade8b9a2bb27125e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:21 +0000
Subject: [PATCH 26/32] fix: pings did not announce the state of the chain

---
 p2p/peer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 081f807..ae78620 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -369,8 +369,10 @@ func (p *Peer) SendPing() {
 	logrus.Infof("Sending Ping to %s", p.conn.RemoteAddr())
 
 	var request Ping
-	request.TotalDifficulty = consensus.Difficulty(1)
-	request.Height = 1
+	p.sync.Chain.RLock()
+	request.TotalDifficulty = p.sync.Chain.TotalDifficulty()
+	request.Height = p.sync.Chain.Height()
+	p.sync.Chain.RUnlock()
 
 	p.WriteMessage(&request)
 }
-- 
2.43.0


From 430a77510a3dc10bf0d3a2f8f08d74a72db2203a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:23 +0000
Subject: [PATCH 27/32] fix: chain height was read without the chain lock

---
 p2p/sync.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/p2p/sync.go b/p2p/sync.go
index 0c53818..11dfc37 100644
--- a/p2p/sync.go
+++ b/p2p/sync.go
@@ -208,7 +208,11 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 		peerInfo.Unlock()
 
 		// propagate if it is top block
-		if msg.Header.Height == s.Chain.Height() {
+		s.Chain.RLock()
+		height := s.Chain.Height()
+		s.Chain.RUnlock()
+
+		if msg.Header.Height == height {
 			s.Pool.PropagateBlock(msg)
 		}
 
-- 
2.43.0


From cd7831991d130ca66d2018307f5345b34ad6d43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:24 +0000
Subject: [PATCH 28/32] fix: nil dereference when there are no peers to send

---
 p2p/sync.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/sync.go b/p2p/sync.go
index 11dfc37..48d705b 100644
--- a/p2p/sync.go
+++ b/p2p/sync.go
@@ -145,8 +145,8 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 		peers := s.Pool.Peers(msg.Capabilities)
 		if peers != nil {
 			peer.WriteMessage(peers)
+			logrus.Debugf("Sent %d PeerAddrs to %s", len(peers.peers), peer.conn.RemoteAddr())
 		}
-		logrus.Debugf("Sent %d PeerAddrs to %s", len(peers.peers), peer.conn.RemoteAddr())
 
 	case *PeerAddrs:
 		// Adding peer to pool
-- 
2.43.0


From 43b612d7ae6c6367264b63fb698015dba6a28cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:34 +0000
Subject: [PATCH 29/32] fix: a random scalar could be zero modulo the group
 order

---
 secp256k1zkp/schnorr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/secp256k1zkp/schnorr.go b/secp256k1zkp/schnorr.go
index 2e2fe6e..6a6bec6 100644
--- a/secp256k1zkp/schnorr.go
+++ b/secp256k1zkp/schnorr.go
@@ -38,7 +38,7 @@ retry:
 	r := &big.Int{}
 	r.SetBytes(buf[:])
 
-	if r.Cmp(btcec.S256().N) == 1 {
+	if r.Sign() == 0 || r.Cmp(btcec.S256().N) >= 0 {
 		goto retry
 	}
 
-- 
2.43.0


From dae30273bd798b7995d6034964d2d3da304b1bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:16 +0000
Subject: [PATCH 30/32] fix: the difficulty was lost when the history was
 longer than the window

---
 consensus/difficulty.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/consensus/difficulty.go b/consensus/difficulty.go
index 9d7d58a..4f65d7a 100644
--- a/consensus/difficulty.go
+++ b/consensus/difficulty.go
@@ -77,10 +77,9 @@ func NextDifficulty(blist BlockList) Difficulty {
 				windowBegin = append(windowBegin, blist[i].Header.Timestamp)
 			}
 		} else {
+			// blocks before the window do not count
 			if i < DifficultyAdjustWindow+MedianTimeWindow {
 				windowEnd = append(windowEnd, blist[i].Header.Timestamp)
-			} else {
-				break
 			}
 		}
 	}
-- 
2.43.0


From e0a5ba7e2a0af809ae05b8bcf3ebeb7c59a37697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:20 +0000
Subject: [PATCH 31/32] fix: peer names were resolved while holding the peers
 table lock

---
 p2p/pool.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index b8ffaf1..f59ce97 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -133,6 +133,7 @@ func (pp *peersPool) Add(addr string) {
 
 	// Adds new
 	pp.PeersTable[addr] = &peerInfo{
+		netAddr:         netAddr,
 		Status:          psNew,
 		Peer:            nil,
 		ProtocolVersion: 0,
@@ -151,7 +152,7 @@ func (pp *peersPool) Peers(capabilities consensus.Capabilities) *PeerAddrs {
 	pp.ptmu.Lock()
 	defer pp.ptmu.Unlock()
 
-	for addr, peerInfo := range pp.PeersTable {
+	for _, peerInfo := range pp.PeersTable {
 		peerInfo.Lock()
 		status, peerCapabilities := peerInfo.Status, peerInfo.Capabilities
 		peerInfo.Unlock()
@@ -165,11 +166,7 @@ func (pp *peersPool) Peers(capabilities consensus.Capabilities) *PeerAddrs {
 			continue
 		}
 
-		if netAddr, err := net.ResolveTCPAddr("tcp", addr); err == nil {
-			addrs = append(addrs, netAddr)
-		} else {
-			logrus.Error(err)
-		}
+		addrs = append(addrs, peerInfo.netAddr)
 
 		if len(addrs) == consensus.MaxPeerAddrs {
 			break
@@ -373,6 +370,9 @@ func (pp *peersPool) notConnected() string {
 type peerInfo struct {
 	sync.Mutex
 
+	// resolved when the peer was added, never changes
+	netAddr *net.TCPAddr
+
 	Status peerStatus
 	Peer   *Peer
 
-- 
2.43.0


From 291282e3aebd2098ad2fa7b16b5aa2911d0532b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:15 +0000
Subject: [PATCH 32/32] fix: the node announced the genesis of Testnet4 but
 kept the chain of Testnet1

---
 cmd/node/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/node/main.go b/cmd/node/main.go
index 54f703f..55ccdc1 100644
--- a/cmd/node/main.go
+++ b/cmd/node/main.go
@@ -19,7 +19,7 @@ func init() {
 
 func main() {
 	logrus.Info("Starting")
-	chain := chain.New(&chain.Testnet1, storage.NewSqlStorage(nil))
+	chain := chain.New(&chain.Testnet4, storage.NewSqlStorage(nil))
 
 	sync := p2p.NewSyncer([]string{"127.0.0.1:13414"}, chain, nil)
 	sync.Pool.Run()
-- 
2.43.0

