From 9fe91ed4c5e3300fd1bb4c93f06852f3f5cffb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:22 +0000
Subject: [PATCH 01/16] fix: consider every window item when sampling a
 codeword in ldpc

The reservoir sampler started from index deg and then advanced by at least
one, so the item at index deg could never be selected into a codeword.
---
 ldpc/encoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ldpc/encoder.go b/ldpc/encoder.go
index 7f6d3be..c831bfa 100644
--- a/ldpc/encoder.go
+++ b/ldpc/encoder.go
@@ -93,7 +93,7 @@ func (e *Encoder) produceCodeword(deg int) *Codeword {
 	d := float64(deg)
 	var W float64
 	W = math.Exp(math.Log(rand.Float64()) / d)
-	midx := deg
+	midx := deg - 1	// index of the last item considered so far
 	for midx < len(e.window) {
 		midx += (int)(math.Floor(math.Log(rand.Float64())/math.Log(1.0-W))) + 1
 		if midx < len(e.window) {
-- 
2.43.0


From 7000e3c90c2f08d47334e64cbcde244e2ab88f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:22 +0000
Subject: [PATCH 02/16] fix: read the whole peer key during the node handshake

Read may return fewer bytes than requested when the key arrives in several
segments, leaving a truncated key and desynchronizing the gob stream.
---
 node/controller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/controller.go b/node/controller.go
index 05b7b47..0240719 100644
--- a/node/controller.go
+++ b/node/controller.go
@@ -177,7 +177,7 @@ func (c *controller) handleConn(id string, conn io.ReadWriter) error {
 	if err != nil {
 		return err
 	}
-	_, err = conn.Read(decoderKey[:])
+	_, err = io.ReadFull(conn, decoderKey[:])
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 894df015db8cf06f1780fbd85ea47e5b36ec91c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:22 +0000
Subject: [PATCH 03/16] fix: visit peers in a fixed order in the simulator

Iterating the handlers map made message order, and the use of the shared
per-server random source, differ between runs with the same seed.
---
 simulator/module.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/simulator/module.go b/simulator/module.go
index 20324fc..c349dba 100644
--- a/simulator/module.go
+++ b/simulator/module.go
@@ -41,6 +41,7 @@ type peer struct {
 
 type server struct {
 	handlers map[des.Module]peer
+	peers []des.Module	// peers in the order they were connected, so that runs are reproducible
 	decoder *lt.Decoder[transaction]
 
 	received map[transaction]struct{}
@@ -77,7 +78,9 @@ func (a *server) newHandler() *handler {
 
 func connectServers(a, b *server, delay time.Duration) {
 	a.handlers[b] = peer{a.newHandler(), delay}
+	a.peers = append(a.peers, b)
 	b.handlers[a] = peer{b.newHandler(), delay}
+	b.peers = append(b.peers, a)
 }
 
 func newServers(simulator *des.Simulator, n int, startingSeed int64, config serverConfig) []*server {
@@ -102,7 +105,8 @@ func newServers(simulator *des.Simulator, n int, startingSeed int64, config serv
 }
 
 func (s *server) collectOutgoingMessages(outbox []des.OutgoingMessage) []des.OutgoingMessage {
-	for peer, handler := range s.handlers {
+	for _, peer := range s.peers {
+		handler := s.handlers[peer]
 		for _, msg := range handler.sender.outbox {
 			outbox = append(outbox, des.OutgoingMessage{msg, peer, handler.delay})
 		}
@@ -130,7 +134,8 @@ func (s *server) scheduleForwardingTransactions(out []des.OutgoingMessage, txs [
 
 func (s *server) forwardTransaction(tx lt.Transaction[transaction]) {
 	canStartNewBlock := (s.forceSynchronize == 0)
-	for _, handler := range s.handlers {
+	for _, peer := range s.peers {
+		handler := s.handlers[peer]
 		handler.sender.onTransaction(tx, canStartNewBlock)
 	}
 }
@@ -166,7 +171,8 @@ func (s *server) HandleMessage(payload any, from des.Module, timestamp time.Dura
 	} else if lp, isLp := payload.(loopback); isLp {
 		s.forwardTransaction(lp.tx)
 	} else if _, isNb := payload.(createNewBlock); isNb {
-		for _, handler := range s.handlers {
+		for _, peer := range s.peers {
+			handler := s.handlers[peer]
 			handler.sender.tryFillSendWindow(true)
 		}
 		outbox = append(outbox, des.OutgoingMessage{createNewBlock{}, nil, s.forceSynchronize})
-- 
2.43.0


From c74cdfd72819304b9f4869cd154da43adea32886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:52 +0000
Subject: [PATCH 04/16] fix: keep riblt mapping indices strictly increasing and
 in range

When the PRNG state is below 2^10 the step rounded to zero, so the symbol was
mapped to the same coded symbol twice (forever, for a hash of zero). When it
is at least 2^64-1024 the step was infinite and the index overflowed, which
panicked the sketch and the decoder and stalled the encoder.
---
 riblt/random.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/riblt/random.go b/riblt/random.go
index c6f512d..3324e33 100644
--- a/riblt/random.go
+++ b/riblt/random.go
@@ -12,6 +12,7 @@ type randomMapping struct {
 const (
 	minstd_m uint64 = 2147483647
 	minstd_a uint64 = 16807
+	maxIdx uint64 = math.MaxInt	// indices saturate here; no stream gets this long
 )
 
 // degree sequence is 1/(1+idx/2)
@@ -36,6 +37,17 @@ func (s *randomMapping) nextIndex() uint64 {
 	// As an approximation, we can use
 	// x = (j+1.5)(1/sqrt(1-x/m) - 1)
 	xm := float64(r) / (1 << 64)
-	s.lastIdx += uint64(math.Ceil((float64(s.lastIdx)+1.5)*(1/math.Sqrt(1-xm)-1)))
+	step := math.Ceil((float64(s.lastIdx)+1.5)*(1/math.Sqrt(1-xm)-1))
+	if step < 1 {
+		// r is so small that xm rounds to (nearly) 0; the next index must still
+		// be strictly larger than the last one
+		step = 1
+	}
+	if step >= float64(maxIdx - s.lastIdx) {
+		// r is so large that xm rounds to 1, or the index no longer fits
+		s.lastIdx = maxIdx
+	} else {
+		s.lastIdx += uint64(step)
+	}
 	return s.lastIdx
 }
-- 
2.43.0


From 83493d53580d3f17fa431c009f9791b347513405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:52 +0000
Subject: [PATCH 05/16] fix: do not modify the codeword passed to AddCodeword

For pointer-typed transaction data the pending codeword shared memory with the
caller's codeword, so peeling corrupted it and any other decoder given it.
---
 iblt/decoder.go | 6 +++++-
 lt/decoder.go   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/iblt/decoder.go b/iblt/decoder.go
index 60f2998..e0b83ad 100644
--- a/iblt/decoder.go
+++ b/iblt/decoder.go
@@ -130,7 +130,11 @@ func (p *Decoder[T]) storeNewTransaction(saltedHash uint32, t Transaction[T]) {
 
 func (p *Decoder[T]) AddCodeword(rawCodeword Codeword[T]) (*PendingCodeword[T], []Transaction[T]) {
 	cw := &PendingCodeword[T]{}
-	cw.symbol = rawCodeword.symbol
+	if len(rawCodeword.members) > 0 {
+		// duplicate the symbol, because peeling modifies it and the caller may
+		// still be using rawCodeword (e.g., adding it to another decoder)
+		cw.symbol = cw.symbol.XOR(rawCodeword.symbol)
+	}
 	for _, member := range rawCodeword.members {
 		pending, pendingExists := p.pendingTransactions[member]
 		received, receivedExists := p.receivedTransactions[member]
diff --git a/lt/decoder.go b/lt/decoder.go
index 0bfdff2..8c9d329 100644
--- a/lt/decoder.go
+++ b/lt/decoder.go
@@ -142,7 +142,11 @@ func (p *Decoder[T]) storeNewTransaction(saltedHash uint32, t Transaction[T]) {
 
 func (p *Decoder[T]) AddCodeword(rawCodeword Codeword[T]) (*PendingCodeword[T], []Transaction[T]) {
 	cw := &PendingCodeword[T]{}
-	cw.symbol = rawCodeword.symbol
+	if len(rawCodeword.members) > 0 {
+		// duplicate the symbol, because peeling modifies it and the caller may
+		// still be using rawCodeword (e.g., adding it to another decoder)
+		cw.symbol = cw.symbol.XOR(rawCodeword.symbol)
+	}
 	for _, member := range rawCodeword.members {
 		pending, pendingExists := p.pendingTransactions[member]
 		received, receivedExists := p.receivedTransactions[member]
-- 
2.43.0


From b29391f7a12548b7918aad2311d8240c0fc97bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:26 +0000
Subject: [PATCH 06/16] fix: allow subtracting sketches that have empty cells

With pointer-typed symbols the sum of an empty cell is nil, and Subtract
panicked by passing it to XOR.
---
 riblt/sketch.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/riblt/sketch.go b/riblt/sketch.go
index a806420..edeac5e 100644
--- a/riblt/sketch.go
+++ b/riblt/sketch.go
@@ -24,7 +24,11 @@ func (s Sketch[T]) Subtract(s2 Sketch[T]) Sketch[T] {
 	}
 
 	for i := range s {
-		s[i].sum = s[i].sum.XOR(s2[i].sum)
+		if s2[i].count != 0 || s2[i].checksum != 0 {
+			// the sum of an empty cell may still be the default value of T, which
+			// is not a valid argument to XOR when T is a pointer
+			s[i].sum = s[i].sum.XOR(s2[i].sum)
+		}
 		s[i].count = s[i].count - s2[i].count
 		s[i].checksum = s[i].checksum ^ s2[i].checksum
 	}
-- 
2.43.0


From 6343737f3f08dfdc74f8c926d3bf9b8ff26f9131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:26 +0000
Subject: [PATCH 07/16] fix: do not modify coded symbols passed to the riblt
 decoder

For pointer-typed symbols the decoder shared memory with the caller's coded
symbol, so decoding corrupted it: Decode destroyed the sketch it was called on,
and a coded symbol could not be given to a second decoder.
---
 riblt/decoder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/riblt/decoder.go b/riblt/decoder.go
index 39e954c..4cce399 100644
--- a/riblt/decoder.go
+++ b/riblt/decoder.go
@@ -42,6 +42,13 @@ func (d *Decoder[T]) AddHashedSymbol(s HashedSymbol[T]) {
 }
 
 func (d *Decoder[T]) AddCodedSymbol(c CodedSymbol[T]) {
+	// duplicate the sum, because decoding modifies it and the caller may still be
+	// using c (e.g., adding it to another decoder)
+	var sum T
+	if c.count != 0 || c.checksum != 0 {
+		sum = sum.XOR(c.sum)
+	}
+	c.sum = sum
 	// scan through decoded symbols to peel off matching ones
 	c = d.window.applyWindow(c, remove)
 	c = d.remote.applyWindow(c, remove)
-- 
2.43.0


From b0e04201d117893401fc739fe4f9b177081a006f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:26 +0000
Subject: [PATCH 08/16] fix: keep the simulator send window at one or more

Rounding could leave a window of zero, after which the sender never sends
another codeword and the link stalls forever.
---
 simulator/node.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simulator/node.go b/simulator/node.go
index 68ba560..9643789 100644
--- a/simulator/node.go
+++ b/simulator/node.go
@@ -65,6 +65,9 @@ func (n *sender) tryProduceCodeword(mayStartNewBlock bool) (codeword, bool) {
 			// move to the next block
 			blockSize := len(n.buffer)
 			n.sendWindow = int(float64(blockSize) * n.controlOverhead)
+			if n.sendWindow < 1 {
+				n.sendWindow = 1
+			}
 			cw.newBlock = true
 			n.encodingCurrentBlock = true
 			dist := soliton.NewRobustSoliton(n.rng, uint64(blockSize), 0.03, 0.5)
-- 
2.43.0


From 6bac3ee103fc0c2b5aefca68d18624bc4cf7b476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:42 +0000
Subject: [PATCH 09/16] fix: newsim: start reconciliation on links whose coding
 side has nothing to forward

With initial flooding, a node never hands its own transactions to its
links' encoders, so a leaf that is the coding side of its only link never
sent a codeword and never received anything from beyond its neighbor.
---
 newsim/coding.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/newsim/coding.go b/newsim/coding.go
index e614f08..4ae055d 100644
--- a/newsim/coding.go
+++ b/newsim/coding.go
@@ -36,6 +36,10 @@ type coding struct {
 
 func (c coding) collectOutgoingMessages(peer des.Module, delay time.Duration, outbox []des.OutgoingMessage) []des.OutgoingMessage {
 	if c.sender != nil {
+		// A sender that never gets a transaction to forward (e.g., a leaf node whose
+		// transactions are all flooded) must still initiate reconciliation, or its
+		// peer can never transmit anything to it. No effect once it has started.
+		c.sender.tryFillSendWindow()
 		for _, msg := range c.sender.outbox {
 			outbox = append(outbox, des.OutgoingMessage{msg, peer, delay})
 		}
-- 
2.43.0


From b073b433867d36eaf2b8ccf9bcb95abd77a756b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:21 +0000
Subject: [PATCH 10/16] fix: do not forget a transaction early after an
 identifier conflict

---
 iblt/decoder.go | 18 +++++++++++++-----
 ldpc/decoder.go | 15 +++++++++++++--
 lt/decoder.go   | 18 +++++++++++++-----
 3 files changed, 39 insertions(+), 12 deletions(-)

diff --git a/iblt/decoder.go b/iblt/decoder.go
index e0b83ad..9f7924e 100644
--- a/iblt/decoder.go
+++ b/iblt/decoder.go
@@ -101,6 +101,7 @@ type Decoder[T TransactionData[T]] struct {
 	pendingTransactions  map[uint32]*pendingTransaction[T]
 	hasher               hash.Hash64
 	memory               int
+	conflicts            map[uint32]int // number of surplus entries in recentTransactions sharing a salted hash
 }
 
 func NewDecoder[T TransactionData[T]](salt [SaltSize]byte, memory int) *Decoder[T] {
@@ -109,20 +110,27 @@ func NewDecoder[T TransactionData[T]](salt [SaltSize]byte, memory int) *Decoder[
 		pendingTransactions:  make(map[uint32]*pendingTransaction[T]),
 		hasher:               siphash.New(salt[:]),
 		memory:               memory,
+		conflicts:            make(map[uint32]int),
 	}
 	return p
 }
 
 func (p *Decoder[T]) storeNewTransaction(saltedHash uint32, t Transaction[T]) {
+	if _, there := p.receivedTransactions[saltedHash]; there {
+		p.conflicts[saltedHash] += 1
+	}
 	p.receivedTransactions[saltedHash] = t
 	p.recentTransactions = append(p.recentTransactions, saltedTransaction[T]{saltedHash, t})
 	// free receiver memory if needed
 	for len(p.recentTransactions) > p.memory {
-		// FIXME: the comparison of the hashes is a hack. It is a shallow comparison, but currently it is fine because
-		// Transaction values in receivedTransactions and recentTransactions have the same origin. The shallow comparison
-		// has the same effect as a pointer comparison.
-		if e := p.receivedTransactions[p.recentTransactions[0].saltedHash]; e.data == p.recentTransactions[0].Transaction.data {
-			delete(p.receivedTransactions, p.recentTransactions[0].saltedHash)
+		// do not forget the hash if a more recent transaction has the same one
+		oldest := p.recentTransactions[0].saltedHash
+		if n := p.conflicts[oldest]; n > 1 {
+			p.conflicts[oldest] = n - 1
+		} else if n == 1 {
+			delete(p.conflicts, oldest)
+		} else {
+			delete(p.receivedTransactions, oldest)
 		}
 		p.recentTransactions = p.recentTransactions[1:]
 	}
diff --git a/ldpc/decoder.go b/ldpc/decoder.go
index 4c2371f..3ed9d98 100644
--- a/ldpc/decoder.go
+++ b/ldpc/decoder.go
@@ -135,6 +135,7 @@ type Decoder struct {
 	hasher               hash.Hash64
 	numTransactionsDecoded int
 	numTransactionsMemorized int
+	conflicts map[uint32]int // number of surplus entries in recentTransactions sharing a salted hash
 }
 
 func NewDecoder(salt [SaltSize]byte, memory int) *Decoder {
@@ -143,17 +144,27 @@ func NewDecoder(salt [SaltSize]byte, memory int) *Decoder {
 		pendingTransactions:  make(map[uint32]*pendingTransaction),
 		hasher:               siphash.New(salt[:]),
 		numTransactionsMemorized: memory,
+		conflicts: make(map[uint32]int),
 	}
 	return p
 }
 
 func (p *Decoder) storeNewTransaction(hash uint32, t *Transaction) {
+	if _, there := p.receivedTransactions[hash]; there {
+		p.conflicts[hash] += 1
+	}
 	p.receivedTransactions[hash] = t
 	p.recentTransactions = append(p.recentTransactions, recentTransaction{t, hash})
 	p.numTransactionsDecoded += 1
 	for len(p.recentTransactions) > p.numTransactionsMemorized {
-		if e := p.receivedTransactions[p.recentTransactions[0].hash]; e == p.recentTransactions[0].ptr {
-			delete(p.receivedTransactions, p.recentTransactions[0].hash)
+		// do not forget the hash if a more recent transaction has the same one
+		oldest := p.recentTransactions[0].hash
+		if n := p.conflicts[oldest]; n > 1 {
+			p.conflicts[oldest] = n - 1
+		} else if n == 1 {
+			delete(p.conflicts, oldest)
+		} else {
+			delete(p.receivedTransactions, oldest)
 		}
 		p.recentTransactions = p.recentTransactions[1:]
 	}
diff --git a/lt/decoder.go b/lt/decoder.go
index 8c9d329..930ff35 100644
--- a/lt/decoder.go
+++ b/lt/decoder.go
@@ -101,6 +101,7 @@ type Decoder[T TransactionData[T]] struct {
 	pendingTransactions  map[uint32]*pendingTransaction[T]
 	hasher               hash.Hash64
 	memory               int
+	conflicts            map[uint32]int // number of surplus entries in recentTransactions sharing a salted hash
 }
 
 func (p *Decoder[T]) HasDecoded(tx Transaction[T]) bool {
@@ -121,20 +122,27 @@ func NewDecoder[T TransactionData[T]](salt [SaltSize]byte, memory int) *Decoder[
 		pendingTransactions:  make(map[uint32]*pendingTransaction[T]),
 		hasher:               siphash.New(salt[:]),
 		memory:               memory,
+		conflicts:            make(map[uint32]int),
 	}
 	return p
 }
 
 func (p *Decoder[T]) storeNewTransaction(saltedHash uint32, t Transaction[T]) {
+	if _, there := p.receivedTransactions[saltedHash]; there {
+		p.conflicts[saltedHash] += 1
+	}
 	p.receivedTransactions[saltedHash] = t
 	p.recentTransactions = append(p.recentTransactions, saltedTransaction[T]{saltedHash, t})
 	// free receiver memory if needed
 	for len(p.recentTransactions) > p.memory {
-		// FIXME: the comparison of the hashes is a hack. It is a shallow comparison, but currently it is fine because
-		// Transaction values in receivedTransactions and recentTransactions have the same origin. The shallow comparison
-		// has the same effect as a pointer comparison.
-		if e := p.receivedTransactions[p.recentTransactions[0].saltedHash]; e.data == p.recentTransactions[0].Transaction.data {
-			delete(p.receivedTransactions, p.recentTransactions[0].saltedHash)
+		// do not forget the hash if a more recent transaction has the same one
+		oldest := p.recentTransactions[0].saltedHash
+		if n := p.conflicts[oldest]; n > 1 {
+			p.conflicts[oldest] = n - 1
+		} else if n == 1 {
+			delete(p.conflicts, oldest)
+		} else {
+			delete(p.receivedTransactions, oldest)
 		}
 		p.recentTransactions = p.recentTransactions[1:]
 	}
-- 
2.43.0


From db19c1b9326f6ce7e6519f3dfad3051fdefbf23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 11/16] fix: simulators: report NaN latencies instead of
 crashing when a node has none

---
 newsim/types.go          | 8 ++++++++
 simulator/transaction.go | 9 +++++++++
 2 files changed, 17 insertions(+)

diff --git a/newsim/types.go b/newsim/types.go
index ae9b7ce..55cb299 100644
--- a/newsim/types.go
+++ b/newsim/types.go
@@ -85,6 +85,14 @@ func (t *distributionSketch) recordTxLatency(tx transaction, tp time.Duration) {
 }
 
 func (t *distributionSketch) getQuantiles(q []float64) []float64 {
+	if t.sketch.IsEmpty() {
+		// nothing was recorded after the warmup, so there are no quantiles
+		res := make([]float64, len(q))
+		for i := range res {
+			res[i] = math.NaN()
+		}
+		return res
+	}
 	res, err := t.sketch.GetValuesAtQuantiles(q)
 	if err != nil {
 		panic(err)
diff --git a/simulator/transaction.go b/simulator/transaction.go
index 928199d..50c7b93 100644
--- a/simulator/transaction.go
+++ b/simulator/transaction.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"github.com/yangl1996/rateless-set-reconcile/lt"
 	"github.com/DataDog/sketches-go/ddsketch"
+	"math"
 	"time"
 )
 
@@ -71,6 +72,14 @@ func (t *distributionSketch) recordTxLatency(tx transaction, tp time.Duration) {
 }
 
 func (t *distributionSketch) getQuantiles(q []float64) []float64 {
+	if t.sketch.IsEmpty() {
+		// nothing was recorded after the warmup, so there are no quantiles
+		res := make([]float64, len(q))
+		for i := range res {
+			res[i] = math.NaN()
+		}
+		return res
+	}
 	res, err := t.sketch.GetValuesAtQuantiles(q)
 	if err != nil {
 		panic(err)
-- 
2.43.0


From fa0012216cf52c46c8e17a08b5db32afc7bde32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:10 +0000
Subject: [PATCH 12/16] fix: simulator/gen_topo.py fails on city pairs that the
 latency file lacks

---
 simulator/gen_topo.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simulator/gen_topo.py b/simulator/gen_topo.py
index 27fc911..571ea4b 100755
--- a/simulator/gen_topo.py
+++ b/simulator/gen_topo.py
@@ -43,6 +43,9 @@ for a, b in graph.edges():
     else:
         src = b
         dst = a
-    l = int(latency[src][dst])
+    if src in latency and dst in latency[src]:
+        l = int(latency[src][dst])
+    else:
+        l = 80
     print(edgeTemplate.format(node1=a, node2=b, delay=l))
 
-- 
2.43.0


From f64e2e2fc8ecbc0951cbddc43150f169aac62c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:02 +0000
Subject: [PATCH 13/16] fix: testbed: starting servers at several AWS regions
 hangs when the image list cannot be fetched

---
 testbed/aws.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/testbed/aws.go b/testbed/aws.go
index 3258c5b..5c6fb99 100644
--- a/testbed/aws.go
+++ b/testbed/aws.go
@@ -25,6 +25,7 @@ var AWSImageList string
 
 func AWSGetImageID(region string) (string, error) {
 	AWSImageListLock.Lock()
+	defer AWSImageListLock.Unlock()
 	if AWSImageList == "" {
 		resp, err := http.Get("https://cloud-images.ubuntu.com/locator/ec2/releasesTable")
 		if err != nil {
@@ -37,7 +38,6 @@ func AWSGetImageID(region string) (string, error) {
 		AWSImageList = string(body)
 		defer resp.Body.Close()
 	}
-	AWSImageListLock.Unlock()
 
 	escaped := strings.ReplaceAll(region, "-", `\-`)
 	tr := escaped + `","focal","20\.04 LTS","amd64",".+","\d+","<.+>(ami\-.+)</a>`
-- 
2.43.0


From 65ea3d2743cadd26ce730062ca752e3deff10d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:40 +0000
Subject: [PATCH 14/16] fix: testbed: the goroutines that reboot servers share
 one error variable

---
 testbed/vultr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/testbed/vultr.go b/testbed/vultr.go
index 427debb..c94346c 100644
--- a/testbed/vultr.go
+++ b/testbed/vultr.go
@@ -295,7 +295,7 @@ func RestartServers(tag string) {
 				return
 			}
 			fmt.Println("Rebooting ", s.InstanceID)
-			err = c.Server.Reboot(context.Background(), s.InstanceID)
+			err := c.Server.Reboot(context.Background(), s.InstanceID)
 			if err != nil {
 				fmt.Println("error rebooting server: ", err)
 				os.Exit(1)
-- 
2.43.0


From 125f4f9d2f5b3d0db3e823fe9a07ac5049a8924f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:55 +0000
Subject: [PATCH 15/16] fix: node: a burst of decoded transactions locks up the
 receiver and the controller

---
 node/receiver.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/node/receiver.go b/node/receiver.go
index 7a1a888..74590d9 100644
--- a/node/receiver.go
+++ b/node/receiver.go
@@ -38,6 +38,19 @@ func (r *receiver) receive(cw chan<- Codeword) error {
 	}
 }
 
+// passOn hands decoded transactions to the controller. The controller may be busy
+// handing new transactions to us, so keep taking them or both wait forever.
+func (r *receiver) passOn(buf []ldpc.DecodedTransaction) {
+	for len(buf) > 0 {
+		select {
+		case r.decodedTransaction <- buf[0]:
+			buf = buf[1:]
+		case tx := <-r.newTransaction:
+			buf = append(buf, r.decoder.AddTransaction(tx)...)
+		}
+	}
+}
+
 func (r *receiver) decode(cwChan <-chan Codeword) error {
 	ticker := time.NewTicker(1 * time.Second)
 	cwcnt := 0
@@ -71,14 +84,10 @@ func (r *receiver) decode(cwChan <-chan Codeword) error {
 			// try to decode the new codeword
 			stub, buf := r.decoder.AddCodeword(cw.Codeword)
 			r.rxWindow = append(r.rxWindow, receivedCodeword{stub, now})
-			for _, ntx := range buf {
-				r.decodedTransaction <- ntx
-			}
+			r.passOn(buf)
 		case tx := <-r.newTransaction:
 			buf := r.decoder.AddTransaction(tx)
-			for _, ntx := range buf {
-				r.decodedTransaction <- ntx
-			}
+			r.passOn(buf)
 		case <-ticker.C:
 			qts, err := r.delaySketch.GetValuesAtQuantiles([]float64{0.50, 0.95})
 			if err != nil {
-- 
2.43.0


From 182afcb4799d5195f94615fc9b3cd873688aa86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:12 +0000
Subject: [PATCH 16/16] fix: node: a peer that connects and stays silent keeps
 all others from connecting

---
 node/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/node/main.go b/node/main.go
index 76a5d12..8445831 100644
--- a/node/main.go
+++ b/node/main.go
@@ -114,7 +114,8 @@ func main() {
 			if err != nil {
 				log.Println("error accepting incoming connection:", err)
 			} else {
-				c.handleConn(cn.RemoteAddr().String(), cn)
+				// the peer may never send its key; do not keep others waiting
+				go c.handleConn(cn.RemoteAddr().String(), cn)
 			}
 		}
 	}()
-- 
2.43.0

