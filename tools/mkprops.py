#!/usr/bin/env python3
"""Source of properties.jsonl (one place to edit; run to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- riblt
p("C01", "Rateless set reconciliation recovers exactly the symmetric difference",
  "When one party streams coded symbols of its set to another party that knows its own set, the receiver eventually declares decoding complete, and when it does, the items it reports as remote are exactly those only the sender has and the items it reports as local are exactly those only the receiver has: byte for byte, each exactly once, none missing and none invented. The result stays exact and complete if further coded symbols of the same stream are fed. The same holds whether the sets are identical, disjoint, nested, empty or overlapping.",
  ["inputs"], "every pair of finite item sets (any sizes, overlaps, payload widths, value- or pointer-typed items) with pairwise distinct hashes, and every decode schedule",
  "The one test reconciles a single fixed pair of 15000-item sets with pointer symbols and only checks that no hash is missing; it never checks for extra, duplicated or corrupted items, empty or identical sets, or value types.",
  ["riblt/encoder.go", "riblt/decoder.go", "riblt/symbol.go", "riblt/random.go"],
  [("peeling of coded symbols with one net item", "riblt/decoder.go TryDecode, applyNewSymbol"), ("deterministic hash-seeded mapping shared by both parties", "riblt/random.go nextIndex"), ("local set subtracted from incoming coded symbols", "riblt/decoder.go AddCodedSymbol")],
  ["the decoder's remote and local item lists and its completion flag after each coded symbol"],
  [("pending", "coded symbols not yet explained", "riblt/decoder.go Decoder"), ("dirty", "coded symbols that may have become decodable", "riblt/decoder.go Decoder")])
p("C02", "Every prefix of a coded stream decodes soundly and as far as possible",
  "After any number of coded symbols, every item the decoder has reported is genuine (a sender-only item reported as remote, or a receiver-only item reported as local, at most once) and the reported items are exactly those that the reference peeling procedure can extract from the coded symbols received so far. Completion is declared exactly when the reported items explain every coded symbol received so far, never earlier and never later. The outcome after a decode attempt does not depend on how often or when earlier attempts were made.",
  ["inputs", "schedules"], "every pair of sets, every prefix length of the stream, every interleaving of decode attempts with coded-symbol arrivals",
  "The existing test only looks at the end state of one run that attempts decoding after every coded symbol; it has no reference for which items should be decodable at a prefix.",
  ["riblt/decoder.go", "riblt/encoder.go"],
  [("dirty list and count in {-1,0,1} test", "riblt/decoder.go AddCodedSymbol, applyNewSymbol, TryDecode"), ("checksum comparison before accepting an item", "riblt/decoder.go TryDecode"), ("pending counter", "riblt/decoder.go Decoded")],
  ["remote/local lists and completion flag after each decode attempt"])
p("C03", "Coded symbols are a canonical, order-free, linear function of the set",
  "The stream of coded symbols depends only on the set of items, not on the order in which they were added, and each coded symbol is the sum (XOR of contents and hashes, sum of counts) of the corresponding coded symbols of the individual items. A fixed-size sketch of a set equals the same-length prefix of its stream. Subtracting one sketch from another of equal size yields the sketch of the difference, whose decoding returns only genuine sender-only and receiver-only items and reports success exactly when they are all of them; sketches of different sizes are refused.",
  ["inputs"], "every set, insertion order, stream length or sketch size, value- or pointer-typed items",
  "No test compares two streams, uses sketches at all, or permutes insertion order.",
  ["riblt/encoder.go", "riblt/sketch.go", "riblt/symbol.go", "riblt/random.go"],
  [("heap of next mapped indices", "riblt/encoder.go mappingHeap, applyWindow"), ("direct application to cells", "riblt/sketch.go AddHashedSymbol"), ("cell-wise subtraction and one-shot decode", "riblt/sketch.go Subtract, Decode")],
  ["coded symbols produced by the encoder; sketch cells; the three results of sketch decoding"])
p("C04", "Reconciliation cost depends only on the size of the difference",
  "The number of coded symbols needed to complete reconciliation is determined by the symmetric difference alone: adding the same common items to both parties, however many, changes neither that number nor the outcome. At least as many coded symbols as differing items are needed (at least one), and in the long run the number needed stays near-optimal, averaging well under twice the number of differing items once the difference is more than a handful.",
  ["inputs"], "every symmetric difference and every set of common items; the averages over randomly hashed items",
  "The single test only logs the number of coded symbols; nothing bounds it or varies the number of common items.",
  ["riblt/random.go", "riblt/encoder.go", "riblt/decoder.go"],
  [("mapping probability 1/(1+i/2)", "riblt/random.go nextIndex"), ("exact cancellation of common items", "riblt/decoder.go AddCodedSymbol")],
  ["index of the coded symbol at which completion is first declared"])
p("C05", "Reconciliation objects are reusable, isolated and leave caller data alone",
  "After a reset an encoder or decoder behaves exactly like a new one, whatever it was used for before. Items added by the caller, coded symbols handed to a decoder and sketches being decoded are never modified, so the same items can be shared by many encoders, decoders and sketches and the same coded symbol can be given to several decoders, each getting the result it would get alone. This holds in particular for pointer-typed items whose XOR works in place.",
  ["histories", "inputs"], "every history of use before a reset; every way of sharing items and coded symbols between objects",
  "Tests never reset a used object, never share a coded symbol between decoders, and never check that inputs stay intact.",
  ["riblt/encoder.go", "riblt/decoder.go", "riblt/sketch.go"],
  [("reset of windows, queues and counters", "riblt/encoder.go reset, riblt/decoder.go Reset"), ("forced duplication of symbol data", "riblt/decoder.go TryDecode, AddCodedSymbol")],
  ["streams and decode results of reused objects versus fresh ones; bytes of caller-owned items before and after"])
p("C06", "Any 64-bit item hash is handled",
  "Whatever 64-bit values the item hashes take, including zero, all ones, powers of two and values that drive the index generator to its extremes, every operation terminates without crashing, an item contributes to each coded symbol at most once and always to the first, and reconciliation reports only genuine items. An item with any such hash added to otherwise ordinary sets does not prevent reconciliation from completing exactly.",
  ["inputs"], "every 64-bit hash value for an item, in encoders, sketches and decoders",
  "Tests only see a few thousand siphash outputs of small integers; the special values have probability below 2^-50 each.",
  ["riblt/random.go", "riblt/encoder.go", "riblt/sketch.go", "riblt/decoder.go"],
  [("strictly increasing, saturating index", "riblt/random.go nextIndex")],
  ["termination within a bounded number of XOR calls, coded symbols of a single item, decode results"])
# ---------------------------------------------------------------- LT
p("C07", "A codeword says truthfully which transactions it combines",
  "Every codeword produced by an encoder lists the salted identifiers of distinct transactions currently in the coding window, as many as the smaller of the degree drawn from the degree distribution and the number of transactions in the window, and its payload is exactly the XOR of the contents of those transactions. An identifier is a fixed 32-bit function of salt and transaction that depends on all of the salt and spreads distinct transactions over its whole range. Producing codewords neither changes nor reorders the window nor modifies the caller's transactions. This holds for each of the three codec variants.",
  ["inputs", "histories"], "every window content, degree sequence, salt and history of additions, evictions, resets and productions",
  "TestProduceCodeword checks one window of 5 items, and ldpc's tests do not even compile.",
  ["lt/encoder.go", "iblt/encoder.go", "ldpc/encoder.go"],
  [("partial Fisher-Yates with undo log", "lt/encoder.go produceCodeword"), ("reservoir sampling", "ldpc/encoder.go produceCodeword")],
  ["the codeword's member list and payload"])
p("C08", "The coding window is a deduplicated FIFO of bounded size",
  "A transaction is accepted exactly when no transaction with the same salted identifier is currently in the window, and the caller is told which. The window always holds the most recently accepted transactions up to its configured size, dropping the oldest first; a dropped transaction can be added again. Resetting empties the window and installs the new size and degree distribution, after which the encoder behaves like a new one.",
  ["histories"], "every sequence of additions (with repeats and identifier collisions), resets and codeword productions, for any window size",
  "TestReset checks one reset of a small encoder; eviction order, re-addition after eviction and collisions are not tested.",
  ["lt/encoder.go", "iblt/encoder.go", "ldpc/encoder.go"],
  [("window slice and identifier set", "lt/encoder.go AddTransaction, Reset")],
  ["acceptance results and the member list of a full-degree codeword"],
  [("window", "transactions eligible for coding, oldest first", "lt/encoder.go Encoder"), ("hashes", "identifiers in the window", "lt/encoder.go Encoder")])
p("C09", "Codeword members are a uniform, reproducible random sample of the window",
  "For every degree and window size, every subset of that many transactions of the window is equally likely to be the codeword's members, so no transaction or pair of transactions in the window is favoured or excluded. Where the encoder is given its random source, two encoders with equal sources, salts, windows and degree sequences produce identical codewords.",
  ["inputs", "configurations"], "every window size, degree and random seed (distributional; decided statistically with fixed seeds and negligible false-alarm probability)",
  "No test looks at the distribution of members.",
  ["lt/encoder.go", "iblt/encoder.go", "ldpc/encoder.go"],
  [("sampling without replacement", "lt/encoder.go produceCodeword, ldpc/encoder.go produceCodeword")],
  ["member lists of many codewords"])
p("C10", "A codeword decoder reports only genuine transactions, each once",
  "Fed with any codewords made from real transactions over the same salt, mixed in any order with directly supplied transactions, a decoder only ever reports transactions whose content is exactly that of an original one. It reports each at most once while it remembers it, and never one that was directly supplied to it before.",
  ["inputs", "histories"], "every set of transactions, every sequence of codewords (lost, duplicated, reordered) and direct additions, for each codec variant",
  "The tests decode one fixed six-codeword example and one random stream, checking only that nothing is missing.",
  ["lt/decoder.go", "iblt/decoder.go", "ldpc/decoder.go"],
  [("hash check of the decoded payload against the blocking identifier", "lt/decoder.go decodeCodewords"), ("private copy of decoded data", "lt/transaction.go NewTransaction"), ("peeling of known transactions", "lt/decoder.go AddCodeword, markDecoded")],
  ["transactions returned by adding codewords or transactions"])
p("C11", "A codeword decoder decodes everything that peeling can reach",
  "After every operation, the transactions known to a decoder with sufficient memory are exactly those obtained by the reference peeling closure over all codewords and transactions received so far, and each is reported at the very operation that makes it decodable. A codeword is marked decoded exactly when all its members are known. The final set of known transactions does not depend on the order in which codewords and transactions arrive.",
  ["inputs", "histories"], "every collection of codewords and direct transactions, in every arrival order, for each codec variant",
  "TestDecodeCodewords and TestAddTransaction check one hand-made dependency graph each; nothing compares with a reference closure or permutes arrivals.",
  ["lt/decoder.go", "iblt/decoder.go", "ldpc/decoder.go"],
  [("blocking lists and decode queue", "lt/decoder.go markDecoded, decodeCodewords"), ("queued flag", "lt/decoder.go PendingCodeword")],
  ["returned transactions, decoded flags of codewords, membership queries"])
p("C12", "Decoder memory is a FIFO of exactly the configured size",
  "A decoder remembers exactly the most recent transactions it has decoded or been given, up to its configured memory, forgetting the oldest first; memory is refreshed neither by queries nor by hearing again of a remembered transaction. A remembered transaction is peeled out of codewords on arrival and is never reported again; a forgotten one is treated as unknown and can be decoded and reported anew. Membership queries answer accordingly, and the number of transactions a decoder says it has received counts every transaction it came to remember, each time. A transaction whose identifier clashes with a remembered one's displaces it without being forgotten early.",
  ["histories", "configurations"], "every memory size (including smaller than one block) and every history of codewords and transactions, clashing identifiers included",
  "All tests use a memory far larger than the number of transactions.",
  ["lt/decoder.go", "iblt/decoder.go", "ldpc/decoder.go"],
  [("bounded recent-transaction queue", "lt/decoder.go storeNewTransaction"), ("membership query", "lt/decoder.go HasDecoded")],
  ["returned transactions, decoded flags, membership queries"])
p("C13", "Identifier collisions and corrupt codewords cannot crash or pollute decoding",
  "When two transactions collide in their short salted identifier, or a codeword's payload does not match its member list, the decoder does not crash, never reports a transaction whose own identifier disagrees with the one it was decoded for, and keeps decoding unaffected codewords correctly. A codeword that fails the identifier check does not make its blocking transaction known, and that transaction can still be decoded from another, sound codeword.",
  ["inputs", "fault_sequences"], "every placement of colliding transactions and of codewords with corrupted payloads among sound ones",
  "TestFailToDecode forges one inconsistent codeword; real collisions and mixtures with sound codewords are not tested.",
  ["lt/decoder.go", "iblt/decoder.go", "ldpc/decoder.go"],
  [("unlinking of a failed codeword", "lt/decoder.go failToDecode"), ("collision handling of direct additions", "lt/decoder.go AddTransaction")],
  ["absence of panics, returned transactions"])
p("C14", "A block is recovered from a modest number of any of its codewords",
  "With the robust soliton degree distribution, a receiver of the codewords of a block recovers the whole block after a modest number of codewords no matter which are lost, duplicated or reordered, needing at least as many distinct codewords as transactions it does not already know. Transactions already known to the receiver cost nothing extra to recover and only reduce the number needed. On average the number received is a small multiple of the block size.",
  ["inputs", "fault_sequences"], "every block size, seed, prior knowledge and loss, duplication or reordering pattern (the average is statistical)",
  "TestEncodeAndDecode runs one block of 50 over a perfect channel with no bound on the number of codewords.",
  ["lt/encoder.go", "lt/decoder.go", "iblt/encoder.go", "iblt/decoder.go", "ldpc/encoder.go", "ldpc/decoder.go"],
  [("degree distribution drives encoding", "lt/encoder.go ProduceCodeword"), ("peeling decoder", "lt/decoder.go decodeCodewords")],
  ["number of codewords received when the last transaction is reported"])
p("C15", "Codecs never modify caller data; codewords can be reused across decoders",
  "Adding transactions to encoders or decoders and adding codewords to decoders never changes the caller's transactions or codewords, nor transactions already reported. A codeword can therefore be given to several decoders, or repeatedly to one, and each decoder behaves as if it were the only user, even when contents are pointer-typed and XOR in place.",
  ["histories", "inputs"], "every sharing of transactions and codewords between encoders and decoders of the lt and iblt codecs with value- and pointer-typed contents, and of transactions in ldpc",
  "Tests use value-typed contents only, and only the benchmark reuses codewords.",
  ["lt/decoder.go", "lt/encoder.go", "lt/transaction.go", "iblt/decoder.go", "iblt/encoder.go", "iblt/transaction.go", "ldpc/decoder.go"],
  [("duplication of payloads on entry", "lt/decoder.go AddCodeword, lt/transaction.go NewTransaction")],
  ["bytes of transactions and codewords before and after; results of decoders sharing codewords versus private copies"])
p("C16", "Releasing codewords never disturbs decoding; late decodes are flagged expired",
  "Releasing a received codeword that the application has given up on, at any moment after it was received, changes nothing about which transactions are decoded and when, also when internal objects are recycled between several decoders used concurrently. A decoded transaction is flagged as expired exactly when the codeword that yielded it had been released before.",
  ["histories", "schedules"], "every interleaving of codeword arrivals, releases (each codeword at most once) and transaction additions on one or several ldpc decoders",
  "ldpc's tests do not compile, and its only call to release is in a benchmark.",
  ["ldpc/decoder.go", "node/receiver.go"],
  [("object pools and freed flag", "ldpc/decoder.go Free, AddCodeword, decodeCodewords, markDecoded")],
  ["decoded transactions and their expired flags, compared with a run that never releases anything"])
p("C17", "Fixed-size transactions parse, serialise and XOR faithfully",
  "Parsing accepts exactly the inputs of the prescribed transaction size and rejects all others with a size error leaving the target unchanged; a parsed transaction serialises to the same bytes, independent of later changes to the input buffer, and its identity depends on nothing but those bytes, however often the object is reused and however many goroutines parse at once. XOR of payloads is bytewise, self-inverse, commutative and associative, and leaves its argument unchanged.",
  ["inputs"], "every byte string of any length and every pair of payloads",
  "ldpc's tests, which check one random payload, do not compile.",
  ["ldpc/transaction.go"],
  [("length check, copy and pooled hasher", "ldpc/transaction.go UnmarshalBinary"), ("word-wise XOR", "ldpc/transaction.go XOR")],
  ["returned error, serialised bytes, salted identifier in a degree-one codeword"])
# ---------------------------------------------------------------- des
p("C18", "Simulated messages are delivered once, in time order, ties in send order",
  "Every scheduled message is delivered exactly once, to its addressee (or back to the sender when none is given), with the right sender and payload, at exactly the time it was scheduled plus its delay. Deliveries happen in non-decreasing time order, and messages due at the same time are delivered in the order they were scheduled. Messages returned by a handler are scheduled, in order, from the handling module at the current time.",
  ["histories", "schedules"], "every set of modules and every pattern of initial and handler-generated messages and delays, including zero delays",
  "The simulator package has no tests.",
  ["des/simulator.go"],
  [("priority queue ordered by (arrival, sequence)", "des/simulator.go priorityQueue"), ("delivery loop", "des/simulator.go deliverNextMessage")],
  ["the sequence of handler invocations"])
p("C19", "Running the simulator to a time bound or to the end is exact and resumable",
  "Running until a bound delivers every message due at or before the bound, including ones generated meanwhile, stops no later than the first message past it, and can be resumed or interleaved with new messages any number of times without changing the sequence of deliveries. Running to the end leaves nothing queued. The clock equals the time of the last delivery, and the numbers of queued and delivered messages are always exact and add up to the number scheduled.",
  ["histories"], "every sequence of bounds, extra messages and run-to-end calls",
  "The simulator package has no tests.",
  ["des/simulator.go"],
  [("run loops and counters", "des/simulator.go RunUntil, Run, EventsDelivered, EventsQueued, Drained, Time")],
  ["clock, counters and deliveries after each call"])
# ---------------------------------------------------------------- newsim
p("C20", "Every transaction reaches every node of a connected simulated network",
  "In the network simulator that reconciles with coded symbols, with announce/request pulling, and with either combined with first-hop flooding, every transaction generated at any node is eventually received by every node of a connected topology in which every node generates something, whatever the link delays, number of shards, control overhead, burst size and generation times. Only generated transactions are ever received, and every message travels between linked nodes with exactly the delay of the link.",
  ["configurations", "schedules"], "every connected topology, delay assignment, shard count, control overhead, algorithm, flooding choice and finite generation pattern",
  "The simulator has no tests.",
  ["newsim/coding.go", "newsim/pull.go", "newsim/module.go"],
  [("shard rotation and block handover", "newsim/coding.go tryProduceCodeword, onCodeword, onAck"), ("forwarding to all other peers", "newsim/module.go forwardTransaction"), ("announce/request/response", "newsim/pull.go")],
  ["the set of transactions received by each node"])
p("C21", "Simulated metrics account for every delivery exactly",
  "In that simulator each node counts a transaction as received the first time it obtains it and as decoded if it came from a peer; every further copy counts as a duplicate and nothing else. Received bytes equal the sum of the modelled sizes of the messages delivered to the node. On a tree topology no duplicates occur at all, and with pulling (with or without first-hop flooding) each transaction's payload crosses each link once. With pulling (without flooding) a node never requests a transaction that it already has.",
  ["configurations", "histories"], "every topology, algorithm, flooding choice and generation pattern",
  "The simulator has no tests.",
  ["newsim/module.go", "newsim/messages.go", "newsim/pull.go", "newsim/coding.go"],
  [("metric updates on message handling", "newsim/module.go HandleMessage"), ("message sizes", "newsim/messages.go")],
  ["metric counters versus an independent count of delivered messages"])
# ---------------------------------------------------------------- simulator
p("C22", "Block-based links never lose, repeat or stall transactions",
  "In the block-based network simulator every codeword delivered on a link is answered by exactly one acknowledgement, a block is acknowledged at most once and (with a loss target of zero) only when the receiver has seen more of its codewords than the detection threshold and all of them are decoded, and a new block starts only after the previous one was acknowledged. Each transaction to be forwarded on a link is put in exactly one block of that link, in arrival order, once enough have gathered (detection threshold over control overhead) and the link is idle (at the next synchronisation tick, if block generation is synchronised); none is dropped. The number of unacknowledged codewords never exceeds the larger of the current and previous window, and a link with an unfinished block always has traffic in flight. Messages travel between linked nodes with exactly the delay of the link.",
  ["configurations", "histories", "schedules"], "every connected topology, delay assignment, detection threshold, control overhead, burst size, pacing and generation pattern",
  "The simulator has no tests.",
  ["simulator/node.go", "simulator/module.go"],
  [("block and window management", "simulator/node.go tryProduceCodeword, tryFillSendWindow, onAck"), ("block acknowledgement rule", "simulator/node.go onCodeword")],
  ["codeword and acknowledgement messages on each link; sender block and buffer contents"])
p("C23", "Block-based dissemination is sound, once-only and paced",
  "In the block-based simulator a node only ever obtains generated transactions, each at most once, and each obtained transaction is forwarded exactly once to every peer link, in the order obtained. Forwarding from a node is paced: successive forwarded transactions are at least the configured minimum interval apart, and none is delayed longer than pacing requires. Counters of decoded transactions and received codewords match the messages delivered.",
  ["configurations", "histories", "schedules"], "every topology, pacing interval, burst size and generation pattern, with decoder memory larger than the run",
  "The simulator has no tests.",
  ["simulator/module.go", "simulator/node.go"],
  [("forwarding schedule", "simulator/module.go scheduleForwardingTransactions"), ("reception bookkeeping", "simulator/module.go registerReceived, HandleMessage")],
  ["loopback messages, received sets and metric counters"])
p("C24", "Simulations are reproducible from their configuration and seed",
  "Running either network simulator twice with the same topology, configuration and seed produces exactly the same sequence of events and the same metrics. In the block-based simulator, different seeds produce different arrival patterns.",
  ["configurations"], "every topology, configuration and seed",
  "The simulators have no tests; map iteration order varies between runs, which single runs cannot reveal.",
  ["newsim/module.go", "newsim/coding.go", "simulator/module.go", "simulator/node.go", "des/simulator.go"],
  [("per-server seeded sources", "simulator/module.go newServers, newsim/module.go newServers"), ("ordered peers", "newsim/module.go collectOutgoingMessages, simulator/module.go collectOutgoingMessages")],
  ["the full event trace of two runs in one process"])
p("C25", "Topology files are read exactly",
  "Loading a topology file in either simulator yields the listed connections, in order, with the given endpoints and delays in milliseconds, and a node count of one more than the largest endpoint. Malformed lines and unreadable files are reported rather than silently skipped.",
  ["inputs"], "every well-formed connection list of any length, and corruptions of one line",
  "The simulators have no tests.",
  ["newsim/topology.go", "simulator/topology.go"],
  [("line parser", "newsim/topology.go loadTopology, simulator/topology.go loadTopology")],
  ["returned connections and node count, or panic"])
p("C26", "Statistics helpers summarise measurements correctly",
  "In both simulators the rate filter returns the change since the last read and the peak filter the largest value since the last read; latency sketches ignore samples before the warm-up time and answer quantile queries within one percent; the moment summary returns mean, standard deviation and five percentiles of the per-node metric regardless of node order. Transactions get unique, consecutive indices and carry their generation time, their XOR is self-inverse, and their hash depends on the index only.",
  ["inputs", "histories"], "every sequence of records and reads, every sample set",
  "The simulators have no tests.",
  ["newsim/filter.go", "newsim/types.go", "newsim/main.go", "simulator/filter.go", "simulator/transaction.go", "simulator/main.go"],
  [("filters", "newsim/filter.go, simulator/filter.go"), ("quantile sketch", "newsim/types.go distributionSketch"), ("moments", "newsim/main.go collectMoments")],
  ["returned values versus a direct computation"])
# ---------------------------------------------------------------- node
p("C27", "Node handshake and wire format survive any fragmentation of the stream",
  "However the byte stream between two nodes is split into reads, each side learns the other's complete key, and the codewords a node sends arrive at its peer unaltered, complete and in order, with their loss and timestamp fields. A transaction known to one node and coded to its peer is therefore decoded by the peer exactly.",
  ["schedules", "inputs"], "every fragmentation of the byte stream in both directions and every sequence of codewords",
  "The node has no tests.",
  ["node/controller.go", "node/message.go", "node/receiver.go", "node/sender.go"],
  [("key exchange", "node/controller.go handleConn"), ("gob encoding of codewords", "node/message.go, node/sender.go sendCodewords, node/receiver.go receive")],
  ["codewords coming out of the receiving side; transactions decoded end to end"])
p("C28", "A node passes every transaction on to every peer as its freshness dictates",
  "Every local transaction and every decoded unexpired transaction is handed, exactly once, in order, to both the sending and the receiving side of every connected peer; a decoded transaction flagged expired is handed to the receiving sides only. Peers that connect later receive all transactions handled after they connect. The node's latency statistics cover exactly the transactions decoded after the warm-up, each with the time since it was generated, in milliseconds.",
  ["histories"], "every sequence of peer connections, local transactions and decoded transactions",
  "The node has no tests.",
  ["node/controller.go"],
  [("notification fan-out", "node/controller.go loop, notifyUnexpiredTransaction, notifyExpiredTransaction")],
  ["what arrives on each peer's sender-side and receiver-side queues"])
p("C29", "Codeword losses are reported and reacted to exactly once",
  "A receiving node counts a codeword as lost exactly once, when it is still undecoded after the decoding timeout, and the total of the loss figures it sends to its peer never exceeds and, once codewords keep flowing, equals the number lost, even when outgoing codewords have to be skipped. The sending node raises its codeword rate by the configured increment per reported loss, lowers it by the configured fraction of it per codeword actually sent, never goes below its minimum rate, and sends codewords at that rate, each stamped with the time it was produced. A transaction decoded from a codeword that has timed out is passed on as expired, any other decoded transaction as unexpired, each once.",
  ["histories", "schedules"], "every sequence of arrivals, timeouts, loss reports and blocked sends",
  "The node has no tests.",
  ["node/sender.go", "node/receiver.go"],
  [("loss accumulation and rate control", "node/sender.go loop"), ("expiry window", "node/receiver.go decode")],
  ["loss fields of outgoing codewords, loss reports, number of codewords sent per unit of (virtual) time"])
p("C30", "Connected nodes converge to the same transactions",
  "When nodes are connected in any connected topology, their coding windows can hold the transactions in circulation and decoding does not time out (or there is only one link), every transaction introduced at any node is eventually decoded by all others, byte for byte. A node learns a transaction at most once per link, only once if it introduced it or the topology is a tree, and never one that nobody introduced.",
  ["configurations", "schedules"], "every small connected topology, introduction pattern, codec parameters and stream fragmentation",
  "The node has no tests; convergence involves two codecs, four goroutines per link and the controller.",
  ["node/controller.go", "node/sender.go", "node/receiver.go", "ldpc/encoder.go", "ldpc/decoder.go"],
  [("per-peer coding loops", "node/sender.go loop, node/receiver.go decode"), ("fan-out", "node/controller.go loop")],
  ["transactions seen by an observer attached to each node as an extra peer"])
# ---------------------------------------------------------------- tools
p("C31", "Overlap microbenchmarks report the true average decoding cost",
  "The one-sender and two-sender overlap simulations return the integer average, over their runs with seeds zero upwards, of the number of codewords a receiver needs to learn all transactions it does not know under the stated overlap, where runs of the two-sender variant that exceed their budget are left out and too few successful runs are reported as a failure. Repeating a call gives the same result.",
  ["configurations"], "every run count, block size, overlap and number of codewords from the first sender",
  "The microbenchmarks have no tests.",
  ["microbenchmarks/onesender.go", "microbenchmarks/lib.go"],
  [("simulation loops and averaging", "microbenchmarks/onesender.go")],
  ["returned averages versus an independent re-simulation"])
p("C32", "Testbed server lists and experiment files round-trip in sorted order",
  "A server list written by the testbed tool reads back with every server's address, identifier, location, tag and login settings preserved, ordered by location and then identifier, and an experiment file reads back with its topology preserved.",
  ["inputs"], "every server list and topology, including empty ones and any valid text",
  "The testbed tool has no tests.",
  ["testbed/cluster.go", "testbed/vultr.go", "testbed/aws.go"],
  [("JSON encoding and decoding", "testbed/cluster.go ReadServerInfo, ReadExperimentInfo; testbed/vultr.go DumpServerInfo; testbed/aws.go AWSDumpServerInfo"), ("ordering", "testbed/cluster.go ServerByLocation")],
  ["values read back, order after sorting"])
p("C33", "The simulator commands report the run that was asked for",
  "Each simulator command simulates exactly the topology, algorithm, rates, sizes, seed and durations given by its options (or their defaults) and prints, for each metric, the seven-number summary over all nodes of what was measured after the warm-up: transactions received, decoded or duplicated per second since the warm-up, overhead per decoded transaction, and latency percentiles; the block-based one also prints the first node's codeword rate in every report interval and writes the overlap distribution of every node. A node with nothing to report does not make the command fail.",
  ["configurations", "histories"], "every topology, option set and duration",
  "The commands have no tests; a wrong option, node, counter, baseline or unit only shows in figures.",
  ["newsim/main.go", "simulator/main.go", "newsim/types.go", "simulator/transaction.go"],
  [("option wiring, warm-up and report", "newsim/main.go main, simulator/main.go main"), ("counters and their reset", "newsim/module.go, simulator/module.go")],
  ["printed lines and written files versus an independent reckoning of the same deterministic simulation"])
p("C34", "A coded stream through a sliding window is followed at a modest codeword rate",
  "When transactions stream through the coding window of an encoder and a receiver gets a modest number of codewords per transaction (a small multiple of one, degrees from the robust soliton distribution for the window), the receiver decodes practically every transaction of an arbitrarily long stream, no matter which codewords are lost on the way or which transactions it also learns from elsewhere, and it never falls behind for good. It never decodes more transactions than it received codewords.",
  ["inputs", "histories"], "every stream length, window size, loss pattern, prior knowledge and decoder memory of at least two windows",
  "The tests code single blocks only; bias in sampling, eviction or memory shows after many windows.",
  ["lt/encoder.go", "lt/decoder.go", "iblt/encoder.go", "iblt/decoder.go", "ldpc/encoder.go", "ldpc/decoder.go"],
  [("sliding window and sampling", "*/encoder.go AddTransaction, ProduceCodeword"), ("peeling over the stream", "*/decoder.go AddCodeword")],
  ["transactions never decoded over the length of a stream"])
p("C35", "Generated topologies are what was asked for",
  "The topology generators print a simple graph (no self-links, no doubled links) over exactly the asked number of nodes: with the asked degree at every node, or with half that many links per node in all for the random kind. The simulators' generators only print connected graphs, in a form that the simulator reads, each link with the delay the latency file gives for its pair of nodes (lower number first) cut to whole milliseconds (at least one for newsim) or 80 ms if the file lacks the pair. The testbed's reports the diameter, and fails if the graph is not connected. Every pair of nodes can be linked.",
  ["inputs"], "every number of nodes, degree and latency file for which such a graph exists",
  "The generators have no tests; a wrong graph or delay silently skews every experiment.",
  ["newsim/gen_topo.py", "simulator/gen_topo.py", "testbed/gentopo.py", "newsim/topology.go", "simulator/topology.go"],
  [("graph sampling until connected", "newsim/gen_topo.py, simulator/gen_topo.py, testbed/gentopo.py"), ("latency lookup", "newsim/gen_topo.py, simulator/gen_topo.py")],
  ["printed topologies, read by loadTopology and ReadExperimentInfo"])
p("C36", "The testbed changes exactly the cloud servers it was told to",
  "Stopping or rebooting affects exactly the servers that carry the given tag and can be stopped (Vultr: not pending, closed or locked; AWS: running), in every region that is enabled. Starting launches exactly the asked number of servers in every region matching the location filter (Vultr: that offers the plan at the asked price, but never Seoul), each with the tag, the right image, key, script or security group (made if missing); nothing is launched in a region where one of these cannot be had. Asking for the status changes nothing and reports and lists exactly the tagged servers. Without a tag, without confirmation, or for an unknown action or vendor, nothing happens at all. A refused request never leads to touching any other server, it is reported (Vultr: by the exit status; AWS: the other regions are still served), and every command ends.",
  ["inputs", "fault_sequences"], "every cloud inventory, command line and failing request",
  "The testbed tool has no tests, and trying it costs servers.",
  ["testbed/cluster.go", "testbed/vultr.go", "testbed/aws.go"],
  [("selection and requests", "testbed/vultr.go StartServers, StopServers, RestartServers, CheckServerStatus; testbed/aws.go"), ("options, tag and confirmation", "testbed/cluster.go dispatchCluster")],
  ["requests made by the command to a model of the clouds, its exit status and the server list it writes"])

p("C37", "The testbed runs the asked experiment on the listed servers",
  "With all servers of the list reachable, each stage that is asked for (install, measure, run, download, in this order) is carried out at every server, and is over everywhere before the next one begins; if a server cannot be reached nothing is done anywhere. Installing copies the given binary to every server after ending the old node; running ends the old node and starts a new one that listens at a common port, connects to exactly the servers that the topology lists as its peers, and gets the extra options; downloading ends the node and copies its log to the prefix with the server's number; measuring prints half the round-trip time of every link. Servers are contacted with their own address, port, user and key. A failure at one server is reported as that server's, and the others are still served.",
  ["configurations", "fault_sequences"], "every server list, topology, choice of stages and failing server",
  "The testbed tool has no tests, and trying it takes a testbed.",
  ["testbed/exp.go", "testbed/sshutil.go", "testbed/cluster.go"],
  [("stages", "testbed/exp.go dispatchBwTest, runAll"), ("remote commands and copies", "testbed/exp.go killServer, uploadFile, copyBackFile, testbed/sshutil.go")],
  ["commands and copies every server sees, in order; what is printed; exit status"])

p("C38", "Coded links keep to their window and rotate through all shards",
  "On a coded link of the network simulator every codeword of a block that is not yet decoded is answered by exactly one acknowledgement and every other one by none; the next block begins as soon as the previous one is acknowledged as decoded. A block begins with one codeword plus two thirds of the number the block before it took (or with a full window, if that is more); after that a codeword is sent exactly when fewer are unacknowledged than the window, which is the control overhead times the number of codewords that the block before took, but at least one, plus the control overhead for every one acknowledged since. Blocks take the shards, equal slices of the hash space that cover all of it, in a rotation that does not change. A transaction waiting at either end of the link is put in exactly one block, and is known to both ends when the last block of the next rotation is decoded.",
  ["configurations", "histories", "schedules"], "every connected topology, delay assignment, number of shards, control overhead and generation pattern",
  "The simulator has no tests; a wrong window or rotation still converges but falsifies the overhead and delay it is meant to measure.",
  ["newsim/coding.go"],
  [("send window and burst", "newsim/coding.go onAck, tryFillSendWindow, tryProduceCodeword"), ("shard rotation", "newsim/coding.go connectCodingServers, tryProduceCodeword, onCodeword")],
  ["codewords and acknowledgements on every link; transactions known to its ends"])

p("C39", "A node's log tells what happened",
  "Once a second a node logs how many transactions it has learnt from peers, and, once its warm-up is over (the first report after the warm-up time), how many it has learnt since and the mean, median, 5th and 95th percentile of the time from their generation; for every peer how many codewords it has sent to the node so far and the mean, median and 95th percentile of their transmission delays within the last second; and the present codeword rate towards that peer and how many codewords were dropped because the connection was blocked. The keys of both sides are logged for every peer, before anything else about it.",
  ["histories", "schedules"], "every set of peers, arrival of transactions and codewords, loss reports, warm-up time and blocked connection",
  "The node has no tests; its log is all that experiments are judged by.",
  ["node/controller.go", "node/receiver.go", "node/sender.go"],
  [("transaction statistics", "node/controller.go loop"), ("codeword statistics", "node/receiver.go decode, node/sender.go loop"), ("keys", "node/controller.go handleConn")],
  ["lines of the log versus what the harness, which plays all peers, knows"])

p("C40", "Summaries of the logs are computed correctly",
  "The scripts that evaluate an experiment state what the nodes' logs say: for each node the codewords it received per transaction (learnt from peers or generated) between its first and last complete report after the warm-up, the number of these transactions per report, and its last latency figures; over all nodes the generation rate, the share of all generated transactions that a node had, the overhead, and the average delay (own transactions counting as zero) with their mean, 5th and 95th percentile; for each link the last codeword rate, servers being recognised by their addresses; and for each second the codewords (of all peers together) or the transactions received in it.",
  ["histories", "configurations"], "every number of nodes and peers and every history that logs can describe",
  "The scripts have no tests; a wrong line or column still prints plausible numbers.",
  ["testbed/process.py", "testbed/edges.py", "testbed/trace.py"],
  [("parsing and aggregation", "testbed/process.py"), ("rates of links", "testbed/edges.py"), ("traces", "testbed/trace.py")],
  ["printed numbers versus the history the logs were made from"])

p("C41", "Simulated latencies and overlaps are those of the deliveries",
  "In both simulators the latency figures of a node are those of exactly the transactions that it first obtained from a peer at or after the end of the warm-up, each counting once with the time from its generation to that arrival, whether it came by flooding, by request, in a codeword or in an acknowledgement. In the block-based simulator the overlap figures of a node are those of the blocks it began at or after the end of the warm-up, each counting with the share of its transactions that the receiving peer has at that moment.",
  ["histories", "schedules", "configurations"], "every connected topology, delay assignment, algorithm, generation pattern and warm-up",
  "The simulators have no tests; a latency measured from the wrong moment or for the wrong arrivals still looks plausible.",
  ["newsim/module.go", "newsim/types.go", "simulator/module.go", "simulator/transaction.go"],
  [("recording", "newsim/module.go HandleMessage, simulator/module.go HandleMessage"), ("warm-up", "newsim/types.go recordTxLatency, simulator/transaction.go recordTxLatency, recordRaw")],
  ["quantiles of a node's sketches versus arrivals and block beginnings seen in the event loop"])

p("C42", "A node process serves its peers as its options say",
  "A started node process keeps running; it serves every peer that connects to its listening address and connects once to every listed peer, also to one that only answers later, and without waiting for one that never does; one that goes away or falls silent before its key is sent does no harm to the others. On every connection it sends a fresh key, reads the peer's, and from then on sends codewords and takes in the peer's. It generates distinct transactions at the given rate and at random times (none at rate zero), stamped with their time in microseconds and otherwise random, and every connected peer can recover them and what the other peers send; the codewords have degrees from the given distribution over the given window; their rate begins at the given one (that of the transactions if none is given, but at least the minimum), rises by the increment for every codeword the peer reports as lost, falls by the target share of it with every codeword sent, and stays above the minimum; exactly the codewords that are still undecodable after the given timeout are reported as lost, to the peer that sent them; received transactions are remembered up to the given number. Its log lists the options with their values and counts the transactions generated and decoded, with latency figures only after the warm-up.",
  ["configurations", "histories"], "every combination of options and peers, whoever connects and whenever",
  "The node has no tests, and its command line is wired by hand.",
  ["node/main.go", "node/controller.go", "node/sender.go", "node/receiver.go"],
  [("options, listening, connecting and generating", "node/main.go main"), ("handshake and set-up of a connection", "node/controller.go handleConn, newPeer")],
  ["codewords that a node process sends to its peers, and its log"])

p("C43", "Simulated nodes generate transactions as a Poisson process",
  "In both simulators every node generates bursts of exactly the configured size, each after an exponentially distributed time, of mean burst size over rate, from the previous one (the first from the start of the simulation), whatever it receives meanwhile; what different nodes generate is independent.",
  ["histories", "configurations"], "every rate, burst size, number of nodes and topology",
  "The simulators have no tests; synchronised or regular arrivals, or a rush at the start, distort every figure and still look plausible.",
  ["newsim/module.go", "simulator/module.go"],
  [("first arrivals", "newServers"), ("further arrivals", "HandleMessage")],
  ["arrivals seen in the event loop, tested against the exponential distribution"])

p("C44", "Benchmark commands print the true costs",
  "For every even number of differences, set size and number of tests, the benchmark command prints the average number of coded symbols after which two sets differing in that many random items are first reconciled, that average over the number of differences, and as rates the number of differing items over the time spent encoding the whole set and over the time spent decoding. The microbenchmark commands print one row per value of their parameter, in order, with the true averages of the runs: codewords until everything is decoded (overlap, twosenders, calc), and, for the lossy one, also the codewords until more than half of those received (more than five) are decoded and the transactions still missing then.",
  ["configurations", "inputs"], "every difference, set size and test count of the benchmark; every row of the microbenchmark tables",
  "The commands have no tests; a wrong count, divisor or loop bound only shows in the figures drawn from them.",
  ["benchmark/main.go", "microbenchmarks/overlap/main.go", "microbenchmarks/twosenders/main.go", "microbenchmarks/lossy/main.go", "microbenchmarks/calc/main.go"],
  [("benchmark", "benchmark/main.go main"), ("tables", "microbenchmarks/*/main.go main")],
  ["printed figures versus independent reconciliations, re-simulations and the wall clock"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
