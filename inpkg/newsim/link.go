//go:build go1.23

package main

import (
	"math"
	"reflect"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
	"pgregory.net/rapid"
	"verif/libs/simx"
	"verif/vh"
)

// zvLink is what an observer knows about one coded link, from a (which sends
// codewords) to b.
type zvLink struct {
	a, b int
	// sender
	block    int // index of the current block, -1: none yet
	done     bool
	inflight int
	acked    int     // acknowledged codewords of the current block
	base     float64 // bounds of the window the block began with
	baseHi   float64
	start    int // codewords sent when the block began
	ranges   []uint64
	ends     []uint64
	placed   []int // transactions put in blocks up to each block
	waiting  []int // transactions forwarded before each block began
	fwdA     []zvFwd
	// receiver
	rblock int
	rdone  bool
	fwdB   []zvFwd
	acks   int // blocks acknowledged, as known to the sender
}

type zvFwd struct {
	tx   uint64
	next int // the next block that begins
}

const zvEps = 1e-6

func zvLinks(x *vh.Ctx, c zvCase) error {
	n := zvMake(c)
	links := map[[2]int]*zvLink{}
	of := make([][]*zvLink, c.Topo.N)
	for _, e := range c.Topo.Edges {
		l := &zvLink{a: e.A, b: e.B, block: -1, rblock: -1, done: true}
		links[[2]int{e.A, e.B}] = l
		of[e.A] = append(of[e.A], l)
		of[e.B] = append(of[e.B], l)
	}
	size := make([]int, c.Topo.N)
	known := make([]map[uint64]bool, c.Topo.N)
	for i := range known {
		known[i] = map[uint64]bool{}
	}
	uncounted := false
	bursts, wide, blocks, full := 0, 0, 0, 0
	n.loop.Observe = func(e simx.Event, out []des.OutgoingMessage) error {
		i := n.idx[e.To]
		s := n.servers[i]
		_, gen := e.Payload.(blockArrival)
		src := -1
		if !gen {
			src = n.idx[e.From]
		}
		// what this event tells node i
		var fresh []uint64
		if len(s.received) != size[i] {
			size[i] = len(s.received)
			for t := range zvIDs(s.received) {
				if !known[i][t] {
					known[i][t] = true
					fresh = append(fresh, t)
				}
			}
		}
		var cws = map[int][]codeword{}
		var acks = map[int][]ack{}
		for _, o := range out {
			if _, self := o.Payload.(blockArrival); self {
				continue
			}
			j, ok := n.idx[o.To]
			if !ok {
				return vh.Fail("misdirected", "node %d sends %T to nobody", i, o.Payload)
			}
			switch m := o.Payload.(type) {
			case codeword:
				if links[[2]int{i, j}] == nil {
					return vh.Fail("misdirected", "node %d sends codewords to node %d", i, j)
				}
				cws[j] = append(cws[j], m)
			case ack:
				if links[[2]int{j, i}] == nil {
					return vh.Fail("misdirected", "node %d acknowledges codewords of node %d", i, j)
				}
				acks[j] = append(acks[j], m)
			}
		}
		for _, l := range of[i] {
			if l.a == i {
				before := len(l.fwdA)
				prev := l.inflight
				if m, is := e.Payload.(ack); is && src == l.b {
					l.acked++
					l.inflight--
					prev--
					if l.inflight < 0 {
						return vh.Fail("extra-ack", "link %d>%d: more acknowledgements than codewords", l.a, l.b)
					}
					if m.ackBlock {
						l.done = true
						l.acks++
						for _, f := range l.fwdB {
							if f.next+c.Shards-1 <= l.block && !known[i][f.tx] {
								return vh.Fail("late", "link %d>%d: transaction %d waited at node %d since before block %d of %d shards, but node %d lacks it after block %d", l.a, l.b, f.tx, l.b, f.next, c.Shards, i, l.block)
							}
						}
					}
				}
				sent := cws[l.b]
				for k, m := range sent {
					if m.newBlock != (k == 0 && l.done) {
						return vh.Fail("wrong-block-start", "link %d>%d: codeword %d of %d sent in one go, the current block being acknowledged (%v), says newBlock=%v", l.a, l.b, k, len(sent), l.done, m.newBlock)
					}
				}
				if l.done && len(sent) > 0 {
					m := sent[0]
					l.block++
					blocks++
					// the shard
					sh := c.Shards
					if l.block >= sh {
						if m.startHash != l.ranges[l.block-sh] || m.endHash != l.ends[l.block-sh] {
							return vh.Fail("wrong-rotation", "link %d>%d: block %d is of range %x-%x, block %d was of %x-%x (%d shards)", l.a, l.b, l.block, m.startHash, m.endHash, l.block-sh, l.ranges[l.block-sh], l.ends[l.block-sh], sh)
						}
					}
					l.ranges, l.ends = append(l.ranges, m.startHash), append(l.ends, m.endHash)
					if l.block == sh-1 {
						full++
						if err := zvCover(l); err != nil {
							return err
						}
					}
					// its content
					p := 0
					if len(l.placed) > 0 {
						p = l.placed[len(l.placed)-1]
					}
					cnt := 0
					// the first codeword of a block covers all of it
					if v := reflect.ValueOf(m.CodedSymbol).FieldByName("count"); v.IsValid() && v.CanInt() {
						cnt = int(v.Int())
					} else {
						uncounted = true
					}
					if cnt < 0 {
						return vh.Fail("wrong-content", "link %d>%d: the first codeword of block %d covers %d transactions", l.a, l.b, l.block, cnt)
					}
					l.placed = append(l.placed, p+cnt)
					l.waiting = append(l.waiting, before)
					// its window
					lo, hi := float64(l.acked-1), float64(l.acked)
					if l.acked == 0 {
						lo = 0
					}
					l.base, l.baseHi = math.Max(1, c.Overhead*lo), math.Max(1, c.Overhead*hi)
					loN := math.Max(1+math.Floor(lo*2/3), math.Ceil(l.base-zvEps))
					hiN := math.Max(1+math.Floor(hi*2/3), math.Ceil(l.baseHi+zvSlack(l.baseHi)))
					if k := float64(len(sent)); k < loN || k > hiN {
						return vh.Fail("wrong-window", "link %d>%d: block %d begins with %d codewords after %d were acknowledged for the block before (overhead %v), expected %v to %v", l.a, l.b, l.block, len(sent), l.acked, c.Overhead, loN, hiN)
					}
					if len(sent) > 1 {
						bursts++
					}
					l.done, l.acked, l.inflight, l.start = false, 0, len(sent), len(sent)
				} else if l.done && l.block >= 0 {
					return vh.Fail("idle", "link %d>%d: no block follows block %d, which is acknowledged", l.a, l.b, l.block)
				} else {
					l.inflight += len(sent)
					if l.block >= 0 {
						grown := c.Overhead * float64(l.acked)
						if float64(l.inflight) < l.base+grown-zvEps {
							return vh.Fail("wrong-window", "link %d>%d: %d codewords of block %d are in flight, the window being at least %v (overhead %v, %d acknowledged)", l.a, l.b, l.inflight, l.block, l.base+grown, c.Overhead, l.acked)
						}
						if hi := math.Max(float64(prev), math.Ceil(l.baseHi+grown+zvSlack(l.baseHi+grown))); float64(l.inflight) > hi {
							return vh.Fail("wrong-window", "link %d>%d: %d codewords of block %d are in flight (%d before), the window being at most %v (overhead %v, %d acknowledged)", l.a, l.b, l.inflight, l.block, prev, l.baseHi+grown, c.Overhead, l.acked)
						}
						if l.inflight > 3 {
							wide++
						}
					} else if len(sent) > 0 {
						return vh.Fail("wrong-block-start", "link %d>%d: codewords before the first block", l.a, l.b)
					}
				}
				if src != l.b && !(gen && c.Flood) {
					for _, t := range fresh {
						l.fwdA = append(l.fwdA, zvFwd{t, l.block + 1})
					}
				}
				// every transaction in one block, within a rotation
				if len(sent) > 0 && sent[0].newBlock && !uncounted {
					k := l.block
					if l.placed[k] > len(l.fwdA) {
						return vh.Fail("repeated", "link %d>%d: %d transactions were put in blocks, but only %d were to be forwarded", l.a, l.b, l.placed[k], len(l.fwdA))
					}
					if k0 := k - c.Shards + 1; k0 >= 0 && l.placed[k] < l.waiting[k0] {
						return vh.Fail("left-out", "link %d>%d: %d transactions waited or were sent when block %d began; blocks up to %d (%d shards) hold %d", l.a, l.b, l.waiting[k0], k0, k, c.Shards, l.placed[k])
					}
				}
			} else {
				got := acks[l.a]
				m, is := e.Payload.(codeword)
				is = is && src == l.a
				want := 0
				if is {
					if m.newBlock {
						l.rdone = false
						l.rblock++
					}
					if !l.rdone {
						want = 1
					}
				}
				if len(got) != want {
					return vh.Fail("wrong-acks", "link %d>%d: %d acknowledgements in answer to %T from %d, expected %d (block decoded: %v)", l.a, l.b, len(got), e.Payload, src, want, l.rdone)
				}
				if want == 1 {
					k := got[0]
					if k.ackStart != m.newBlock {
						return vh.Fail("wrong-acks", "link %d>%d: ackStart=%v for a codeword with newBlock=%v", l.a, l.b, k.ackStart, m.newBlock)
					}
					if !k.ackBlock && len(k.txs) > 0 {
						return vh.Fail("wrong-acks", "link %d>%d: an acknowledgement in the middle of a block carries transactions", l.a, l.b)
					}
					for _, t := range k.txs {
						if !known[i][t.Symbol.idx] {
							return vh.Fail("wrong-acks", "link %d>%d: an acknowledgement carries transaction %d, which node %d does not have", l.a, l.b, t.Symbol.idx, i)
						}
					}
					if k.ackBlock {
						l.rdone = true
						for _, f := range l.fwdA {
							if f.next+c.Shards-1 <= l.rblock && !known[i][f.tx] {
								return vh.Fail("late", "link %d>%d: transaction %d waited at node %d since before block %d of %d shards, but node %d lacks it after block %d", l.a, l.b, f.tx, l.a, f.next, c.Shards, i, l.rblock)
							}
						}
					} else if len(fresh) > 0 {
						return vh.Fail("undecoded", "link %d>%d: a codeword that does not complete block %d gives node %d transactions", l.a, l.b, l.rblock, i)
					}
				}
				if src != l.a && !(gen && c.Flood) {
					for _, t := range fresh {
						l.fwdB = append(l.fwdB, zvFwd{t, l.rblock + 1})
					}
				}
			}
		}
		return nil
	}
	done := func() bool {
		for i := range size {
			if size[i] < c.total() {
				return false
			}
		}
		return true
	}
	if err := n.loop.Run(c.horizon(), 60000, done); err != nil {
		return err
	}
	// and another rotation or so
	extra := n.loop.Now + time.Duration(2*c.Shards+4)*200*time.Millisecond
	if err := n.loop.Run(extra, 4000, nil); err != nil {
		return err
	}
	x.Add("events", n.loop.Count)
	x.Add("blocks", blocks)
	x.TagIf(bursts > 0, "burst")
	x.TagIf(wide > 0, "window-above-3")
	x.TagIf(full > 0, "full-rotation")
	if full > 0 && bursts > 0 {
		x.NonTrivial()
	}
	return nil
}

// zvSlack allows for rounding, which a window of one is free of.
func zvSlack(w float64) float64 {
	if w == 1 {
		return 0
	}
	return zvEps
}

// zvCover: the ranges of a rotation are disjoint equal slices of the hashes.
func zvCover(l *zvLink) error {
	n := len(l.ranges)
	if n == 1 {
		return nil // everything, whatever its ends
	}
	next := map[uint64]uint64{}
	for k, s := range l.ranges {
		if _, dup := next[s]; dup {
			return vh.Fail("wrong-rotation", "link %d>%d: range %x comes twice in a rotation of %d", l.a, l.b, s, n)
		}
		next[s] = l.ends[k]
	}
	at := l.ranges[0]
	var sum uint64
	for k := 0; k < n; k++ {
		end, ok := next[at]
		if !ok || end == at {
			return vh.Fail("wrong-rotation", "link %d>%d: the ranges %x-%x of a rotation do not follow on each other at %x", l.a, l.b, l.ranges, l.ends, at)
		}
		w := end - at
		if f := float64(w) / (math.Pow(2, 64) / float64(n)); f < 0.99 || f > 1.01 {
			return vh.Fail("wrong-rotation", "link %d>%d: range %x-%x is %v times the share of one in %d", l.a, l.b, at, end, f, n)
		}
		sum += w
		at = end
		if k < n-1 && at == l.ranges[0] {
			return vh.Fail("wrong-rotation", "link %d>%d: the ranges %x-%x of a rotation close after %d of %d", l.a, l.b, l.ranges, l.ends, k+1, n)
		}
	}
	if sum != 0 {
		return vh.Fail("wrong-rotation", "link %d>%d: the ranges %x-%x of a rotation do not cover all hashes", l.a, l.b, l.ranges, l.ends)
	}
	return nil
}

func init() {
	zvProps = append(zvProps, &vh.Property{ID: "C38", Rule: "a rotation over all shards, and a block that begins with more than one codeword",
		Assumptions: []string{"link delays are at least one millisecond", "the number of codewords a block took counts with or without the one that completed it", "at most one link between two nodes"},
		Subs: []*vh.Sub{
			vh.NewSub("links", 800, func(t *rapid.T) zvCase {
				c := zvGenCase(6, 10, false)(t)
				c.Algo, c.ResetAt = "coding", 0
				for i := range c.Gens {
					if vh.Uniform(t, "more", 3) == 0 {
						c.Gens[i].N *= vh.OneOf(t, "times", 2, 5, 10)
					}
				}
				return c
			}, zvLinks).T(4000),
			vh.NewSub("pair", 800, func(t *rapid.T) zvCase {
				c := zvGenCase(2, 12, false)(t)
				c.Algo, c.ResetAt = "coding", 0
				c.Shards = vh.OneOf(t, "fewShards", 1, 2, 3, 5)
				for i := range c.Gens {
					c.Gens[i].N *= vh.OneOf(t, "times", 1, 2, 5, 10, 40)
				}
				return c
			}, zvLinks).T(4000),
			vh.NewSub("large", 20, func(t *rapid.T) zvCase {
				c := zvGenCase(2, 4, false)(t)
				c.Algo, c.ResetAt, c.Shards = "coding", 0, 1
				for i := range c.Gens {
					c.Gens[i].N = vh.OneOf(t, "many", 1, 500, 3000, 10000)
				}
				return c
			}, zvLinks).T(200),
		}})
}

type zvShareCase struct {
	Topo   simx.Topo
	N      int
	Shards int
	AtB    bool // the transactions wait at the end that receives codewords
	Seed   int64
}

// zvShares: the shards that transactions fall in are evenly filled. All
// transactions appear at one end at once, and the blocks of the first rotation
// take about equal shares.
func zvShares(x *vh.Ctx, sc zvShareCase) error {
	e := sc.Topo.Edges[0]
	c := zvCase{Topo: sc.Topo, Algo: "coding", Shards: sc.Shards, Overhead: 0.5, TxSize: 1, Seed: sc.Seed}
	c.Gens = []zvGen{{0, e.A, 1}, {0, e.B, 1}}
	if sc.AtB {
		c.Gens[1].N = sc.N
	} else {
		c.Gens[0].N = sc.N
	}
	n := zvMake(c)
	var share []int // by block
	n.loop.Observe = func(ev simx.Event, out []des.OutgoingMessage) error {
		for _, o := range out {
			switch m := o.Payload.(type) {
			case codeword:
				if m.newBlock && !sc.AtB {
					v := reflect.ValueOf(m.CodedSymbol).FieldByName("count")
					if !v.IsValid() || !v.CanInt() {
						return nil
					}
					share = append(share, int(v.Int()))
				}
			case ack:
				if m.ackBlock && sc.AtB {
					share = append(share, len(m.txs))
				}
			}
		}
		return nil
	}
	if err := n.loop.Run(c.horizon(), 200000, func() bool { return len(share) > sc.Shards }); err != nil {
		return err
	}
	if len(share) <= sc.Shards {
		if len(share) == 0 && !sc.AtB {
			return nil // the content of codewords is not visible
		}
		return vh.Fail("idle", "%d blocks by %v with %d shards", len(share), n.loop.Now, sc.Shards)
	}
	left := float64(sc.N)
	first := 0
	if !sc.AtB {
		left-- // the first transaction may be in the first block, before the others appear
		first = 1
	}
	for k := first; k < first+sc.Shards-1; k++ {
		p := 1 / float64(sc.Shards-(k-first))
		m, v, l := left*p, left*p*(1-p), 31.0
		if d := math.Abs(float64(share[k]) - m); d > math.Sqrt(2*v*l)+l/3+1 {
			return vh.Fail("uneven-shards", "%d transactions waiting (at the receiving end: %v) went in blocks of %v over %d shards: block %d should have about %.0f", sc.N, sc.AtB, share, sc.Shards, k, m)
		}
		left -= float64(share[k])
	}
	x.TagIf(sc.AtB, "at-receiver")
	x.TagIf(!sc.AtB, "at-sender")
	x.NonTrivial()
	return nil
}

func init() {
	p := zvProps[len(zvProps)-1]
	p.Subs = append(p.Subs, vh.NewSub("shares", 60, func(t *rapid.T) zvShareCase {
		return zvShareCase{Topo: simx.GenTopo(t, 2, 2, true), N: 300 + vh.Uniform(t, "n", 700), Shards: 2 + vh.Uniform(t, "shards", 5), AtB: rapid.Bool().Draw(t, "atB"), Seed: int64(vh.Seed(t))}
	}, zvShares).T(600))
}
