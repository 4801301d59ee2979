# ---- riblt
m("riblt-late-local", "C01 C02", "riblt/decoder.go", ("c = d.local.applyWindow(c, add)\n", "if len(d.dirty) == 0 {\n\t\tc = d.local.applyWindow(c, add)\n\t}\n"))
m("riblt-dirty-range", "C02 C01", "riblt/decoder.go", ("if (!c.dirty) && c.count >= -1 && c.count <= 1 {", "if (!c.dirty) && c.count > -1 && c.count <= 1 {"))
m("riblt-dirty-zero", "C02 C01", "riblt/decoder.go", ("if (!c.dirty) && c.count >= -1 && c.count <= 1 {", "if (!c.dirty) && (c.count == -1 || c.count == 1) {"))
m("riblt-nohash-check-neg", "C02 C01", "riblt/decoder.go", ("case -1:\n\t\t\th := c.sum.Hash()\n\t\t\tif h == c.checksum {", "case -1:\n\t\t\th := c.sum.Hash()\n\t\t\tif h == c.checksum || c.checksum != 0 {"))
m("riblt-zero-count-done", "C02 C01", "riblt/decoder.go", ("case 0:\n\t\t\tif c.checksum == 0 {\n\t\t\t\td.pending -= 1\n\t\t\t}", "case 0:\n\t\t\td.pending -= 1"))
m("riblt-add-zero-count", "C02 C01", "riblt/decoder.go", ("if c.count == 0 && c.checksum == 0 {\n", "if c.count == 0 {\n"))
m("riblt-reset-remote", "C05", "riblt/decoder.go", ("\td.remote.reset()\n", ""))
m("riblt-reset-pending", "C05", "riblt/decoder.go", ("\td.pending = 0\n}", "}"))
m("riblt-reset-dirty", "C05", "riblt/decoder.go", ("\tif len(d.dirty) != 0 {\n\t\td.dirty = d.dirty[:0]\n\t}\n\td.local", "\td.local"))
m("riblt-reset-nextidx", "C05", "riblt/encoder.go", ("\te.nextIdx = 0\n", "\tif len(e.symbols) != 0 {\n\t\te.nextIdx = 0\n\t}\n"))
m("riblt-reset-queue1", "C05", "riblt/encoder.go", ("\tif len(e.queue) != 0 {", "\tif len(e.queue) > 1 {"))
m("riblt-nodup-remote", "C05 C01", "riblt/decoder.go", ("ns.Symbol = ns.Symbol.XOR(c.sum)	// force duplicate the symbol data\n				ns.Hash = h\n				m := d.applyNewSymbol(ns, remove)", "ns.Symbol = c.sum\n				ns.Hash = h\n				m := d.applyNewSymbol(ns, remove)"))
m("riblt-nodup-local", "C05 C01", "riblt/decoder.go", ("ns.Symbol = ns.Symbol.XOR(c.sum)	// force duplicate the symbol data\n				ns.Hash = h\n				m := d.applyNewSymbol(ns, add)", "ns.Symbol = c.sum\n				ns.Hash = h\n				m := d.applyNewSymbol(ns, add)"))
m("riblt-heap-tie", "C03 C01", "riblt/encoder.go", ("if rc := child + 1; rc < len(m) && m[rc].codedIdx < m[child].codedIdx {", "if rc := child + 1; rc+1 < len(m) && m[rc].codedIdx < m[child].codedIdx {"))
m("riblt-fixtail", "C03 C01", "riblt/encoder.go", ("parent := (curr - 1) / 2", "parent := curr / 2"))
m("riblt-empty-window", "C01 C04", "riblt/encoder.go", ("if len(e.queue) == 0 {\n\t\te.nextIdx += 1", "if len(e.queue) == 0 {"))
m("riblt-sketch-count", "C03", "riblt/sketch.go", ("s[i].count = s[i].count - s2[i].count\n", "if s2[i].count != 0 {\n\t\t\ts[i].count = s[i].count - s2[i].count\n\t\t} else {\n\t\t\ts[i].checksum = s[i].checksum ^ s2[i].checksum\n\t\t}\n"))
m("riblt-sketch-size", "C03", "riblt/sketch.go", ("if len(s) != len(s2) {", "if len(s) > len(s2) {"))
m("riblt-sketch-int32", "C06 C03", "riblt/sketch.go", ("for int(m.lastIdx) < len(s) {", "for int(int32(m.lastIdx)) < len(s) {"))
m("riblt-density", "C04", "riblt/random.go", ("(float64(s.lastIdx)+1.5)", "(float64(s.lastIdx)+1.0)*0.6"))
m("riblt-density2", "C04", "riblt/random.go", ("(float64(s.lastIdx)+1.5)", "(float64(s.lastIdx)+1.5)*2"))
m("riblt-step0", "C06", "riblt/random.go", ("	step := math.Ceil((float64(s.lastIdx)+1.5)*(1/math.Sqrt(1-xm)-1))\n	if step < 1 {", "	step := math.Ceil((float64(s.lastIdx)+1.5)*(1/math.Sqrt(1-xm)-1))\n	if step < 0 {"))
m("riblt-maxidx", "C06", "riblt/random.go", ("s.lastIdx = maxIdx\n", "s.lastIdx += 1\n"))
m("riblt-window-apply-remote", "C01 C02", "riblt/decoder.go", ("c = d.remote.applyWindow(c, remove)", "if d.pending > 0 || len(d.cs) < 64 {\n\t\tc = d.remote.applyWindow(c, remove)\n\t}"))
m("riblt-dirty-trunc", "C02", "riblt/decoder.go", ("d.dirty = d.dirty[:0]\n}\n\nfunc (d *Decoder[T]) Reset", "if d.pending == 0 {\n\t\td.dirty = d.dirty[:0]\n\t}\n}\n\nfunc (d *Decoder[T]) Reset"))
m("riblt-apply-shared", "C05", "riblt/sketch.go", ("\tdec := Decoder[T]{}\n", "\tdec := Decoder[T]{}\n\tdec.cs = make([]receivedSymbol[T], 0, len(s))\n"), ("for _, c := range s {", "for i, c := range s {\n\t\ts[i].count = c.count"))
# ---- lt / iblt / ldpc encoders
for pk in ("lt", "iblt"):
    m(pk+"-window-off", "C08", pk+"/encoder.go", ("for len(e.window) > e.windowSize {", "if len(e.window) > e.windowSize+0 && e.windowSize > 0 {"))
    m(pk+"-reset-hashes", "C08", pk+"/encoder.go", ("	for k := range e.hashes {\n		delete(e.hashes, k)\n	}", "	for _, t := range e.window {\n		delete(e.hashes, t.saltedHash)\n	}"))
    m(pk+"-no-revert-0", "C07 C08", pk+"/encoder.go", ("for i := deg - 1; i >= 0; i-- {", "for i := deg - 1; i > 0; i-- {"))
    m(pk+"-revert-order", "C07 C08", pk+"/encoder.go", ("for i := deg - 1; i >= 0; i-- {", "for i := 0; i < deg; i++ {"))
    m(pk+"-bias", "C09", pk+"/encoder.go", ("r := e.r.Intn(n-i) + i", "r := e.r.Intn(n)\n\t\tif r < i {\n\t\t\tr = i\n\t\t}"))
    m(pk+"-bias2", "C09", pk+"/encoder.go", ("r := e.r.Intn(n-i) + i", "r := i\n\t\tif n-i > 1 && i > 0 {\n\t\t\tr = e.r.Intn(n-i-1) + i\n\t\t} else {\n\t\t\tr = e.r.Intn(n-i) + i\n\t\t}"))
    m(pk+"-evict-hash", "C08", pk+"/encoder.go", ("delete(e.hashes, e.window[0].saltedHash)\n", "if e.window[0].saltedHash != hash {\n\t\t\tdelete(e.hashes, e.window[0].saltedHash)\n\t\t}\n"))
    m(pk+"-symbol-alias", "C15 C07", pk+"/encoder.go", ("c.symbol = c.symbol.XOR(e.window[i].Transaction.data)", "if i == 0 && deg == 1 {\n\t\t\tc.symbol = e.window[i].Transaction.data\n\t\t} else {\n\t\t\tc.symbol = c.symbol.XOR(e.window[i].Transaction.data)\n\t\t}"))
    # decoders
    m(pk+"-mem-query", "C12", pk+"/decoder.go", ("for len(p.recentTransactions) > p.memory {", "for len(p.recentTransactions) > p.memory+1 {"))
    m(pk+"-mem-dupe", "C12", pk+"/decoder.go", ("// something that we already know; do not do anything\n			return nil", "p.storeNewTransaction(saltedHash, t)\n			return nil"))
    m(pk+"-mem-nocompare", "C12 C13", pk+"/decoder.go", ("e.data == p.recentTransactions[0].Transaction.data {", "len(e.hash) > 0 {"))
    m(pk+"-fail-delete", "C13 C11", pk+"/decoder.go", ("						if failed {\n							delete(p.pendingTransactions, failedTxSaltedHash)\n						}", "						delete(p.pendingTransactions, decodableTx.saltedHash)\n						_, _ = failedTxSaltedHash, failed"))
    m(pk+"-fail-nodelete", "C13 C11", pk+"/decoder.go", ("						if failed {\n							delete(p.pendingTransactions, failedTxSaltedHash)\n						}", "						if failed && failedTxSaltedHash == saltedHash {\n							delete(p.pendingTransactions, failedTxSaltedHash)\n						}"))
    m(pk+"-queue-one", "C11", pk+"/decoder.go", ("if len(peelable.members) <= 1 && !peelable.queued {", "if len(peelable.members) == 1 && !peelable.queued {"))
    m(pk+"-no-hash-check", "C13 C10", pk+"/decoder.go", ("if saltedHash != decodableTx.saltedHash {", "if uint16(saltedHash) != uint16(decodableTx.saltedHash) {"))
    m(pk+"-collision-skip", "C13 C12", pk+"/decoder.go", ("			// adding a transaction that is a hash conflict with an existing one that we have not forgotten\n			p.storeNewTransaction(saltedHash, t)", "			// conflict\n			p.receivedTransactions[saltedHash] = t"))
    m(pk+"-blocking-swap", "C13", pk+"/decoder.go", ("			ptr.blocking[cwIdx] = ptr.blocking[l-1]\n", "			ptr.blocking[0] = ptr.blocking[l-1]\n"))
    m(pk+"-dup-report", "C10 C12", pk+"/decoder.go", ("cw.symbol = cw.symbol.XOR(received.data)\n", "cw.symbol = cw.symbol.XOR(received.data)\n\t\t\t\tif len(rawCodeword.members) == 1 {\n\t\t\t\t\treturn cw, []Transaction[T]{received}\n\t\t\t\t}\n"))
    m(pk+"-decoded-late", "C11", pk+"/decoder.go", ("		c.decoded = true\n	}", "		c.decoded = c.decoded || len(queue) >= 0 && c.queued && len(newTx) > 0\n	}"))
    m(pk+"-nodup-add", "C15", pk+"/decoder.go", ("cw.symbol = cw.symbol.XOR(rawCodeword.symbol)", "if len(rawCodeword.members) == 1 {\n\t\t\tcw.symbol = rawCodeword.symbol\n\t\t} else {\n\t\t\tcw.symbol = cw.symbol.XOR(rawCodeword.symbol)\n\t\t}"))
    m(pk+"-nodup-add2", "C15", pk+"/decoder.go", ("cw.symbol = cw.symbol.XOR(rawCodeword.symbol)", "if len(rawCodeword.members) == 2 {\n\t\t\tcw.symbol = rawCodeword.symbol\n\t\t} else {\n\t\t\tcw.symbol = cw.symbol.XOR(rawCodeword.symbol)\n\t\t}"))
m("ldpc-evict-first", "C08", "ldpc/encoder.go", ("delete(e.hashes, e.window[0].saltedHash)\n		e.window = e.window[1:]", "e.window = e.window[1:]\n		delete(e.hashes, e.window[0].saltedHash)"))
m("ldpc-w", "C09", "ldpc/encoder.go", ("W = W * math.Exp(math.Log(rand.Float64())/d)", "W = W * math.Exp(math.Log(rand.Float64())/(d+1))"))
m("ldpc-intn", "C09", "ldpc/encoder.go", ("(*selected)[rand.Intn(deg)] = e.window[midx]", "(*selected)[rand.Intn(deg+1)%deg] = e.window[midx]"))
m("ldpc-pool-nil", "C07 C16", "ldpc/encoder.go", ("*selected = (*selected)[:0]\n", "if len(*selected) > deg {\n\t\t*selected = (*selected)[:0]\n\t} else {\n\t\t*selected = (*selected)[:0:0]\n\t}\n"))
m("ldpc-free-always", "C16", "ldpc/decoder.go", ("	if cw.decoded {\n		pendingCodewordPool.Put(cw)", "	if cw.decoded || len(cw.members) == 0 || cw.queued {\n		pendingCodewordPool.Put(cw)"))
m("ldpc-reset-freed", "C16", "ldpc/decoder.go", ("	cw.freed = false\n", ""))
m("ldpc-reset-queued", "C16", "ldpc/decoder.go", ("	cw.queued = false\n", ""))
m("ldpc-double-put", "C16", "ldpc/decoder.go", ("		c.decoded = true\n		if c.freed {", "		c.decoded = true\n		if c.freed || len(queue) > 2 {"))
m("ldpc-put-before", "C16", "ldpc/decoder.go", ("cw.freed = true\n	if cw.decoded {", "cw.freed = true\n	if cw.decoded || len(cw.members) <= 1 {"))
m("ldpc-expired-last", "C16", "ldpc/decoder.go", ("DecodedTransaction{decodedTx, c.freed}", "DecodedTransaction{decodedTx, c.freed && len(queue) == 0}"))
m("ldpc-fail-put", "C13 C16", "ldpc/decoder.go", ("			if len(ptr.blocking) == 0 {\n				hash", "			if len(ptr.blocking) <= 1 {\n				hash"))
m("ldpc-pending-reset", "C16 C11", "ldpc/decoder.go", ("				pending.reset()\n", ""))
m("ldpc-mem", "C12", "ldpc/decoder.go", ("e == p.recentTransactions[0].ptr {", "e != nil {"))
m("ldpc-numdec", "C12 C10", "ldpc/decoder.go", ("	p.numTransactionsDecoded += 1\n	for", "	for"))
m("ldpc-unmarshal-size", "C17", "ldpc/transaction.go", ("if len(data) != TxSize {", "if len(data) < TxSize {"))
m("ldpc-unmarshal-early", "C17", "ldpc/transaction.go", ("	if len(data) != TxSize {\n		return", "	if len(data) != TxSize {\n		copy(t.serialized[:], data[:0])\n		t.hash[0] ^= 0\n		if len(data) > 0 {\n			t.serialized[0] = data[0]\n		}\n		return"))
m("ldpc-hash-noreset", "C17", "ldpc/transaction.go", ("	h.Reset()\n", ""))
m("ldpc-hash-append", "C17", "ldpc/transaction.go", ("h.Write(t.serialized[:])", "h.Write(t.serialized[:TxSize-1])"))
m("ldpc-xor-short", "C17 C07", "ldpc/transaction.go", ("i < TxSize/8; i++", "i < TxSize/8-1; i++"))
m("ldpc-global-hasher", "C17", "ldpc/transaction.go", ("	h := hasherPool.Get().(hash.Hash)\n	defer hasherPool.Put(h)\n", "	h := hasherPool.Get().(hash.Hash)\n	hasherPool.Put(h)\n"))
# ---- des
m("des-tie", "C18", "des/simulator.go", ("return pq[i].seq < pq[j].seq", "return pq[i].seq > pq[j].seq"))
m("des-until-lt", "C19", "des/simulator.go", ("s.time <= t {", "s.time < t {"))
m("des-payload-nil", "C18", "des/simulator.go", ("	if msg.To == nil {\n		m := queuedMessage{s.time + msg.Delay, s.seq, from, from, msg.Payload}", "	if msg.To == nil {\n		m := queuedMessage{s.time + msg.Delay, s.seq, nil, from, msg.Payload}"))
m("des-seq-reuse", "C18 C19", "des/simulator.go", ("	s.time = m.arrival\n", "	s.time = m.arrival\n	if s.Drained() {\n		s.seq = 0\n	}\n"))
m("des-negative", "C18", "des/simulator.go", ("for _, v := range nm {\n		s.ScheduleMessage(v, m.to)", "for i := range nm {\n		v := nm[len(nm)-1-i]\n		s.ScheduleMessage(v, m.to)"))
m("des-sort-us", "C18", "des/simulator.go", ("if pq[i].arrival < pq[j].arrival {\n		return true\n	} else if pq[i].arrival == pq[j].arrival {", "if pq[i].arrival/1000 < pq[j].arrival/1000 {\n		return true\n	} else if pq[i].arrival/1000 == pq[j].arrival/1000 {\n		if pq[i].arrival != pq[j].arrival && pq[i].seq%2 == 0 {\n			return pq[i].arrival < pq[j].arrival\n		}"), ("	if m.arrival < s.time {\n		panic(\"time reversal\")\n	}\n	s.time = m.arrival", "	if m.arrival > s.time {\n		s.time = m.arrival\n	}"))
m("des-delivered", "C19", "des/simulator.go", ("return s.seq - len(s.mq)", "return s.seq - len(s.mq) - 0*s.seq + min(0, len(s.mq)-1000)"))
# ---- newsim
m("newsim-shard-last", "C20", "newsim/coding.go", ("cw.endHash = uint64((n.shardSchedule[n.nextShard]+1)%len(n.shardSchedule)) * shardSize", "cw.endHash = uint64(n.shardSchedule[n.nextShard]+1) * shardSize"))
m("newsim-shard-gap", "C20", "newsim/coding.go", ("shardHash >= cw.startHash && shardHash < cw.endHash)", "shardHash > cw.startHash && shardHash < cw.endHash-shardSize/512)"))
m("newsim-recv-shard", "C20", "newsim/coding.go", ("			if (cw.startHash < cw.endHash && shardHash >= cw.startHash && shardHash < cw.endHash) || (cw.startHash >= cw.endHash && (shardHash >= cw.startHash || shardHash < cw.endHash)) {\n				n.Decoder", "			if (cw.startHash < cw.endHash && shardHash >= cw.startHash && shardHash < cw.endHash) || (cw.startHash >= cw.endHash && (shardHash >= cw.startHash)) {\n				n.Decoder"))
m("newsim-no-local", "C20", "newsim/coding.go", ("for _, tx := range n.Local() {\n			ack.txs", "for _, tx := range n.Local() {\n			if len(ack.txs) >= 8 {\n				break\n			}\n			ack.txs"))
m("newsim-exclude", "C20 C21", "newsim/module.go", ("if peer != exclude {", "if peer != exclude || len(s.peers) == 3 {"))
m("newsim-exclude-flood", "C20 C21", "newsim/module.go", ("				s.forwardTransaction(tx, from)\n				s.received[tx.Symbol.idx] = struct{}{}\n				s.decodedTransactions += 1", "				s.forwardTransaction(tx, nil)\n				s.received[tx.Symbol.idx] = struct{}{}\n				s.decodedTransactions += 1"))
m("newsim-dup-count", "C21", "newsim/module.go", ("			} else {\n				s.duplicateTransactions += 1\n			}\n		} else {", "			}\n		} else {"))
m("newsim-size", "C21", "newsim/messages.go", ("return len(a.txs) * TXSIZE + 8", "return len(a.txs) * TXSIZE"))
m("newsim-bytes", "C21", "newsim/module.go", ("	s.receivedBytes += payload.(message).size()", "	if s.receivedTransactions > 0 {\n			s.receivedBytes += payload.(message).size()\n		}"))
m("newsim-pull-known", "C20 C21", "newsim/pull.go", ("c.known[m.payload.Hash] = m.payload\n", ""))
m("newsim-pull-outbox", "C20", "newsim/pull.go", ("outbox = append(outbox, des.OutgoingMessage{msg, peer, delay})\n		c.outbox = c.outbox[:0]", "if len(c.outbox) > 0 {\n			outbox = append(outbox, des.OutgoingMessage{msg, peer, delay})\n		}\n		if len(outbox) > 3 {\n			c.outbox = c.outbox[:0]\n		}"))
m("newsim-ack-seq", "C20", "newsim/coding.go", ("	if n.receivingCurrentBlock {\n		n.currentBlockAckCount += 1\n		n.inFlight -= 1", "	if n.receivingCurrentBlock {\n		n.currentBlockAckCount += 1"))
m("newsim-window-min", "C20", "newsim/coding.go", ("		n.sendWindow = float64(n.currentBlockAckCount) * n.controlOverhead\n		if n.sendWindow < 1 {\n			n.sendWindow = 1\n		}\n		n.currentBlockAckCount = 0", "		n.sendWindow = float64(n.currentBlockAckCount) * n.controlOverhead\n		n.currentBlockAckCount = 0"))
m("newsim-delay", "C20", "newsim/coding.go", ("	b.handlers[a] = peer{coding{\n		sender: nil,\n		receiver: &receiver{\n			Decoder: &riblt.Decoder[transaction]{},\n			shardRandomizer: randomizer,\n		},\n	}, delay}", "	b.handlers[a] = peer{coding{\n		sender: nil,\n		receiver: &receiver{\n			Decoder: &riblt.Decoder[transaction]{},\n			shardRandomizer: randomizer,\n		},\n	}, delay.Truncate(10*time.Millisecond)}"))
m("newsim-nextshard", "C20", "newsim/coding.go", ("n.nextShard = (n.nextShard + 1) % len(n.shardSchedule)", "n.nextShard = (n.nextShard + 1 + len(n.buffer)/9*2) % len(n.shardSchedule)"))
m("newsim-buffer-lost", "C20", "newsim/coding.go", ("				l := len(n.buffer) - 1\n				n.buffer[tidx] = n.buffer[l]\n				n.buffer = n.buffer[:l]\n				//", "				l := len(n.buffer) - 1\n				n.buffer[tidx] = n.buffer[l]\n				n.buffer = n.buffer[:l]\n				tidx += 1\n				//"))
m("newsim-recv-stale", "C20", "newsim/coding.go", ("	if n.currentBlockReceived && !cw.newBlock {\n		return nil, false\n	}", ""))
m("newsim-maprange", "C24", "newsim/module.go", ("	for _, peer := range s.peers {\n		handler := s.handlers[peer]\n		if peer != exclude {", "	for peer, handler := range s.handlers {\n		if peer != exclude {"))
m("newsim-collect-maprange", "C24", "newsim/module.go", ("	for _, peer := range s.peers {\n		handler := s.handlers[peer]\n		outbox", "	for peer, handler := range s.handlers {\n		outbox"))
m("newsim-rng-global", "C24", "newsim/module.go", ("rng:          rand.New(rand.NewSource(int64(i))),", "rng:          rand.New(rand.NewSource(rand.Int63())),"))
# ---- simulator
m("sim-ackonce", "C22", "simulator/node.go", ("if !n.currentBlockReceived && len(n.curCodewords) > n.detectThreshold {", "if len(n.curCodewords) > n.detectThreshold {"))
m("sim-limit", "C22", "simulator/node.go", ("if notDecoded <= limit {", "if notDecoded <= limit+len(n.curCodewords)/30 {"))
m("sim-buffer", "C22", "simulator/node.go", ("n.buffer = n.buffer[blockSize:]", "n.buffer = n.buffer[:0:0]\n\t\t\tif blockSize > 60 {\n\t\t\t\tn.buffer = append(n.buffer, n.currentBlock[60:]...)\n\t\t\t}"))
m("sim-minblock", "C22", "simulator/node.go", ("if len(n.buffer) >= minBlockSize {", "if len(n.buffer) > minBlockSize {"))
m("sim-blocksize-cap", "C22", "simulator/node.go", ("blockSize := len(n.buffer)\n", "blockSize := len(n.buffer)\n\t\t\tif blockSize > 200 {\n\t\t\t\tblockSize = 200\n\t\t\t\tn.buffer = n.buffer[:200]\n\t\t\t}\n"))
m("sim-inflight", "C22", "simulator/node.go", ("	n.inFlight -= 1\n	if ack.ackBlock {", "	if n.inFlight > 1 {\n		n.inFlight -= 1\n	}\n	if ack.ackBlock {"))
m("sim-rate", "C23", "simulator/module.go", ("		s.forwardRateLimiter.lastScheduled = nextSlot\n", "		if len(txs) == 1 {\n			s.forwardRateLimiter.lastScheduled = nextSlot\n		}\n"))
m("sim-rate2", "C23", "simulator/module.go", ("	nextSlot := ts\n	if s.forwardRateLimiter.lastScheduled + s.forwardRateLimiter.minInterval > nextSlot {", "	nextSlot := ts\n	if s.forwardRateLimiter.lastScheduled > nextSlot {"))
m("sim-forward-first", "C23", "simulator/module.go", ("		handler.sender.onTransaction(tx, canStartNewBlock)", "		if len(s.peers) < 4 || len(handler.sender.buffer) < 50 {\n			handler.sender.onTransaction(tx, canStartNewBlock)\n		}"))
m("sim-metric", "C23", "simulator/module.go", ("			s.decodedTransactions += len(buf)\n", "			if len(buf) > 0 {\n				s.decodedTransactions += 1\n			}\n"))
m("sim-sync", "C22", "simulator/module.go", ("			n.onAck(m, canStartNewBlock)", "			n.onAck(m, true)"))
m("sim-sync2", "C22", "simulator/module.go", ("outbox = append(outbox, des.OutgoingMessage{createNewBlock{}, nil, s.forceSynchronize})", "if len(outbox) < 2 {\n			outbox = append(outbox, des.OutgoingMessage{createNewBlock{}, nil, s.forceSynchronize})\n		} else {\n			outbox = append(outbox, des.OutgoingMessage{createNewBlock{}, nil, 2*s.forceSynchronize})\n		}"))
m("sim-seed", "C24", "simulator/module.go", ("rand.NewSource(startingSeed+int64(i))", "rand.NewSource(int64(i)+1)"))
m("sim-seed-global", "C24", "simulator/module.go", ("			rng: a.rng,\n			sendWindow", "			rng: rand.New(rand.NewSource(rand.Int63())),\n			sendWindow"))
m("sim-decoder-shared", "C22 C23", "simulator/module.go", ("decoder: lt.NewDecoder[transaction](testKey, config.decoderMemory),", "decoder: lt.NewDecoder[transaction](testKey, config.decoderMemory/1000),"))
m("topo-us", "C25", "simulator/topology.go", ("if a > maxIdx {", "if a > maxIdx && a != b {"))
m("topo-b", "C25", "newsim/topology.go", ("			if b > maxIdx {\n				maxIdx = b\n			}\n", "			if b > maxIdx && b > a {\n				maxIdx = b\n			}\n"))
m("topo-malformed", "C25", "newsim/topology.go", ("		if err != nil {\n			panic(err)\n		}\n		if n == 3", "		if err != nil && n == 0 {\n			panic(err)\n		}\n		if n == 3"))
m("topo-longline", "C25", "simulator/topology.go", ("	if err := s.Err(); err != nil {\n		panic(err)\n	}\n", ""))
m("topo-order", "C25", "newsim/topology.go", ("res = append(res, connection{a, b,", "if a > b {\n				a, b = b, a\n			}\n			res = append(res, connection{a, b,"))
m("filter-max", "C26", "newsim/filter.go", ("	m.max = 0\n	return res", "	m.max = 0 * m.max\n	if res < 0 {\n		m.max = res\n	}\n	return res + 0*m.max"))
m("filter-diff", "C26", "simulator/filter.go", ("	d.lastRead = d.current\n", "	if diff > 0 {\n		d.lastRead = d.current\n	}\n"))
m("stat-sorted", "C26", "newsim/main.go", ("	sort.Float64s(s.Xs)\n", ""))
m("stat-q", "C26", "simulator/main.go", ("res = append(res, s.Quantile(0.25))", "res = append(res, s.Quantile(0.2))"))
m("stat-warm", "C26", "newsim/types.go", ("	if t.warmup > tp {\n		return\n	}\n	latency", "	if t.warmup >= tp {\n		return\n	}\n	latency"))
m("stat-warm-ts", "C26", "simulator/transaction.go", ("	if t.warmup > tp {\n		return\n	}\n	latency", "	if t.warmup > tx.ts {\n		return\n	}\n	latency"))
m("stat-acc", "C26", "simulator/transaction.go", ("NewDefaultDDSketch(0.01)", "NewDefaultDDSketch(0.03)"))
m("txhash-ts", "C26", "simulator/transaction.go", ("PutUint64(res, d.idx)", "PutUint64(res, d.idx^uint64(d.ts)<<60)"))
# ---- node
m("node-readonce", "C27", "node/controller.go", ("_, err = io.ReadFull(conn, decoderKey[:])", "_, err = conn.Read(decoderKey[:])"))
m("node-keys-swapped", "C27 C30", "node/controller.go", ("c.decodeTimeout, encoderKey, decoderKey)", "c.decodeTimeout, decoderKey, encoderKey)"))
m("node-expired-fwd", "C28", "node/controller.go", ("				if tx.Expired {", "				if tx.Expired && len(c.peers) > 2 {"))
m("node-expired-skip", "C28", "node/controller.go", ("func (h *peer) notifyExpiredTransaction(t *ldpc.Transaction) {\n	h.newTxToReceiver <- t", "func (h *peer) notifyExpiredTransaction(t *ldpc.Transaction) {\n	select {\n	case h.newTxToReceiver <- t:\n	default:\n	}"))
m("node-drop-full", "C28", "node/controller.go", ("	h.newTxToSender <- t\n	h.newTxToReceiver <- t ", "	select {\n	case h.newTxToSender <- t:\n	default:\n	}\n	h.newTxToReceiver <- t "))
m("node-newest-first", "C28", "node/controller.go", ("c.peers = append(c.peers, p)", "c.peers = append([]*peer{p}, c.peers[:min(len(c.peers), 3)]...)"))
m("node-warm", "C28", "node/controller.go", ("if time.Since(start) > c.warmupTime {", "if time.Since(start) > c.warmupTime/2 {"))
m("node-delay", "C28", "node/controller.go", ("c.delaySketch.Add(delay/1000.0)", "c.delaySketch.Add(delay/1024.0)"))
m("node-loss-reset", "C29", "node/sender.go", ("					// do not reset accumLoss now that the codeword is skipped\n", "					s.accumLoss = 0\n"))
m("node-loss-noreset", "C29", "node/sender.go", ("					s.accumLoss = 0\n", "					if s.accumLoss < 3 {\n						s.accumLoss = 0\n					}\n"))
m("node-loss-assign", "C29", "node/sender.go", ("s.accumLoss += l", "s.accumLoss = l"))
m("node-rate-loss", "C29", "node/sender.go", ("s.cwRate += s.rateIncreaseConstant * float64(l)", "s.cwRate += s.rateIncreaseConstant"))
m("node-rate-min", "C29", "node/sender.go", ("				if s.cwRate < s.minRate {", "				if s.cwRate < 0 {"))
m("node-credit", "C29", "node/sender.go", ("s.credit += 0.01 * s.cwRate", "s.credit = 0.01 * s.cwRate"))
m("node-rate-skip", "C29", "node/sender.go", ("					s.droppedCodewords += 1", "					s.droppedCodewords += 1\n					s.cwRate -= s.rateDecreaseConstant"))
m("node-timeout-cmp", "C29", "node/receiver.go", ("if dur < r.timeout {", "if dur <= r.timeout+time.Millisecond {"))
m("node-window-one", "C29", "node/receiver.go", ("for len(r.rxWindow) > 0 {", "for i := 0; i < 2 && len(r.rxWindow) > 0; i++ {"))
m("node-loss-dec", "C29", "node/receiver.go", ("if !head.Decoded() {\n					loss += 1\n				}\n				head.Free()", "head.Free()\n				if !head.Decoded() {\n					loss += 1\n				}"))
m("node-loss-swap", "C29", "node/receiver.go", ("			if cw.Loss > 0 {\n				r.peerLoss <- cw.Loss", "			if cw.Loss > 1 {\n				r.peerLoss <- cw.Loss"))
m("node-nofree", "C29 C28 C30", "node/receiver.go", ("				head.Free()\n", ""))
m("node-addtx-ignored", "C30", "node/receiver.go", ("			buf := r.decoder.AddTransaction(tx)\n			for _, ntx := range buf {\n				r.decodedTransaction <- ntx\n			}", "			r.decoder.AddTransaction(tx)"))
m("node-decoded-first", "C30 C28", "node/receiver.go", ("			for _, ntx := range buf {\n				r.decodedTransaction <- ntx\n			}\n		case tx", "			for i, ntx := range buf {\n				if i < 4 {\n					r.decodedTransaction <- ntx\n				}\n			}\n		case tx"))
m("node-ts", "C29 C27", "node/sender.go", ("nc := Codeword{s.encoder.ProduceCodeword(), s.accumLoss, time.Now().UnixMicro()}", "nc := Codeword{s.encoder.ProduceCodeword(), s.accumLoss, time.Now().UnixMilli()*1000}"))
m("node-wsize", "C30", "node/controller.go", ("ldpc.NewEncoder(encoderKey, dist, int(K))", "ldpc.NewEncoder(encoderKey, dist, int(K)/2+1)"))
# ---- testbed, micro
m("tb-less", "C32", "testbed/cluster.go", ("return strings.Compare(s[i].ID, s[j].ID) == -1", "return strings.Compare(s[i].ID, s[j].ID) <= 0 && len(s[i].ID) <= len(s[j].ID)"))
m("micro-avg", "C31", "microbenchmarks/onesender.go", ("return tot/(Nruns-failed)", "return tot/Nruns"))
m("micro-50", "C31", "microbenchmarks/onesender.go", ("if Nruns > failed + 50 {", "if Nruns > failed {"))
m("micro-seed", "C31", "microbenchmarks/onesender.go", ("		for len(toDecode) > 0 {\n			c := e.ProduceCodeword()\n			Ncw += 1\n			_, newtx", "		for len(toDecode) > 0 {\n			c := e.ProduceCodeword()\n			if runIdx != 7 {\n				Ncw += 1\n			}\n			_, newtx"))
