//go:build go1.23

package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"testing"
	"time"
	"unsafe"

	"github.com/yangl1996/rateless-set-reconcile/des"
	"github.com/yangl1996/rateless-set-reconcile/lt"
	"pgregory.net/rapid"
	"verif/libs/simx"
	"verif/vh"
)

// zvPkg is where this package lives in the repository.
const zvPkg = "simulator"

func TestVerif(t *testing.T) { vh.Main(t, zvProps) }

// zvRare makes the simulator's own arrivals practically never happen (mean
// interval three years), so that the case decides what is generated when.
const zvRare = 1e-17

type zvGen struct {
	US   int
	Node int
	N    int
}

type zvCase struct {
	Memory    int `json:",omitempty"` // of the decoders; 0: ample
	Topo      simx.Topo
	Threshold int
	Overhead  float64
	SyncMS    int
	PaceNS    int64
	Loss      float64
	Seed      int64
	Sketches  bool
	Gens      []zvGen
	ResetAt   int
	Events    int // how many events to look at (0: 6000)
}

// zvGenLarge makes blocks of hundreds or thousands of transactions.
func zvGenLarge(t *rapid.T) zvCase {
	c := zvGenCase(2, 3)(t)
	c.Threshold = vh.OneOf(t, "long", 1, 50, 100, 300)
	c.ResetAt, c.Loss, c.PaceNS = 0, 0, 0
	for i := range c.Gens {
		c.Gens[i].N = vh.OneOf(t, "many", 30, 300, 1200, 5000)
	}
	return c
}

func zvGenCase(maxNodes, maxGens int) func(t *rapid.T) zvCase {
	return func(t *rapid.T) zvCase {
		c := zvCase{
			Topo:      simx.GenTopo(t, 2, maxNodes, false),
			Threshold: vh.OneOf(t, "threshold", 1, 1, 2, 3, 5, 10),
			PaceNS:    vh.OneOf(t, "pace", int64(0), 0, 1, 10000, 1000000, 50000000),
			Loss:      vh.OneOf(t, "loss", 0, 0, 0, 0, 0, 0.02, 0.1, 0.5),
			Seed:      int64(vh.Seed(t) % 1000000000),
			Sketches:  vh.Uniform(t, "sketches", 2) == 0,
		}
		c.Overhead = vh.OneOf(t, "overhead", 0.0625, 0.1, 0.125, 0.25, 0.5, 0.5, 1.0, 1.0)
		if vh.Uniform(t, "sync", 4) == 0 {
			c.SyncMS = vh.OneOf(t, "syncMS", 1, 20, 200)
		}
		n := 1 + vh.Uniform(t, "gens", maxGens)
		span := vh.OneOf(t, "span", 0, 1000, 100000, 1000000)
		for i := 0; i < n; i++ {
			g := zvGen{Node: vh.Uniform(t, "node", c.Topo.N), N: vh.OneOf(t, "burst", 1, 3, 10, 30, 60, 0)}
			if span > 0 {
				g.US = rapid.IntRange(0, span).Draw(t, "at")
			}
			c.Gens = append(c.Gens, g)
		}
		if vh.Uniform(t, "reset", 3) == 0 {
			c.ResetAt = 1 + rapid.IntRange(0, 300).Draw(t, "resetAt")
		}
		return c
	}
}

type zvNet struct {
	c       zvCase
	servers []*server
	idx     map[des.Module]int
	loop    *simx.Loop
}

func zvMake(c zvCase, rate float64, burst int) *zvNet {
	txgen = newTransactionGenerator()
	n := &zvNet{c: c, idx: map[des.Module]int{}, loop: &simx.Loop{}}
	n.servers = zvServers(&des.Simulator{}, c, rate, burst)
	for i, s := range n.servers {
		n.idx[s] = i
	}
	for _, g := range c.Gens {
		s := n.servers[g.Node]
		n.loop.Send(time.Duration(g.US)*time.Microsecond, s, s, blockArrival{n: g.N})
	}
	if c.SyncMS > 0 {
		for _, s := range n.servers {
			n.loop.Send(time.Duration(c.SyncMS)*time.Millisecond, s, s, createNewBlock{})
		}
	}
	return n
}

// zvServers builds the network the way main does.
func zvMemory(n int) int {
	if n == 0 {
		return 1 << 30
	}
	return n
}

func zvServers(sim *des.Simulator, c zvCase, rate float64, burst int) []*server {
	servers := newServers(sim, c.Topo.N, c.Seed, serverConfig{
		blockArrivalIntv: rate, blockArrivalBurst: burst, decoderMemory: zvMemory(c.Memory),
		senderConfig:     senderConfig{detectThreshold: c.Threshold, controlOverhead: c.Overhead},
		receiverConfig:   receiverConfig{detectThreshold: c.Threshold, targetCodewordLoss: c.Loss},
		forceSynchronize: time.Duration(c.SyncMS) * time.Millisecond,
	})
	for _, s := range servers {
		if c.Sketches {
			s.latencySketch = newDistributionSketch(0)
			s.overlapSketch = newDistributionSketch(0)
		}
		zvSetPace(s, time.Duration(c.PaceNS))
	}
	for _, e := range c.Topo.Edges {
		connectServers(servers[e.A], servers[e.B], time.Duration(e.MS)*time.Millisecond)
	}
	return servers
}

// zvSetPace sets the interval between forwarded transactions, wherever it is kept.
func zvSetPace(s *server, d time.Duration) {
	var find func(v reflect.Value, depth int) bool
	find = func(v reflect.Value, depth int) bool {
		for i := 0; i < v.NumField(); i++ {
			f, name := v.Field(i), strings.ToLower(v.Type().Field(i).Name)
			if f.Kind() == reflect.Struct && depth < 2 && find(f, depth+1) {
				return true
			}
			if f.Type() == reflect.TypeOf(d) && (strings.Contains(name, "interv") || strings.Contains(name, "pace") || strings.Contains(name, "gap")) {
				*(*time.Duration)(unsafe.Pointer(f.UnsafeAddr())) = d
				return true
			}
		}
		return false
	}
	if !find(reflect.ValueOf(s).Elem(), 0) {
		panic("the pacing interval of a server is not found")
	}
}

// zvMembers reads the short identifiers a codeword lists.
func zvMembers(cw codeword) []uint32 {
	v := reflect.ValueOf(cw.Codeword)
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() == reflect.Slice && f.Type().Elem().Kind() == reflect.Uint32 {
			out := make([]uint32, f.Len())
			for j := range out {
				out[j] = uint32(f.Index(j).Uint())
			}
			return out
		}
	}
	panic(&vh.HarnessError{Msg: "codeword lists no identifiers"})
}

type zvOne struct{}

func (zvOne) Uint64() uint64 { return 1 }

// zvShort computes the short identifier of a transaction.
func zvShort(tx lt.Transaction[transaction]) uint32 {
	e := lt.NewEncoder[transaction](rand.New(rand.NewSource(1)), testKey, zvOne{}, 1)
	e.AddTransaction(tx)
	return zvMembers(codeword{Codeword: e.ProduceCodeword()})[0]
}

// zvNode models what a node knows: the closure of peeling.
type zvNode struct {
	known   map[uint32]bool
	waiting map[uint32][]*zvCW // by member still unknown
}

type zvCW struct{ left map[uint32]bool }

func (m *zvNode) learn(h uint32) (got []uint32) {
	queue := []uint32{h}
	for len(queue) > 0 {
		h := queue[0]
		queue = queue[1:]
		if m.known[h] {
			continue
		}
		m.known[h] = true
		got = append(got, h)
		for _, c := range m.waiting[h] {
			delete(c.left, h)
			if len(c.left) == 1 {
				for l := range c.left {
					queue = append(queue, l)
				}
			}
		}
		delete(m.waiting, h)
	}
	return
}

func (m *zvNode) codeword(members []uint32) (*zvCW, []uint32) {
	c := &zvCW{map[uint32]bool{}}
	for _, h := range members {
		if !m.known[h] {
			c.left[h] = true
		}
	}
	for h := range c.left {
		m.waiting[h] = append(m.waiting[h], c)
	}
	if len(c.left) == 1 {
		for h := range c.left {
			return c, m.learn(h)
		}
	}
	return c, nil
}

// zvLink models one direction of a link.
type zvLink struct {
	delay     time.Duration
	buffer    []transaction
	block     []transaction
	inBlock   map[uint32]bool
	active    bool // a block is unfinished, as far as the sender knows
	unacked   int
	cur, prev int
	// receiver side
	seen      []*zvCW
	acked     bool
	blocks    int
	quietFull int
}

// zvDeep, set by the optional file, reads a sender's buffer and block.
var zvDeep func(s *server, p des.Module) (buffer, block []transaction)

type zvModel struct {
	prop     string // whose violations count
	n        *zvNet
	x        *vh.Ctx
	nodes    []*zvNode
	links    map[[2]int]*zvLink
	peers    [][]int
	short    map[transaction]uint32
	byID     map[uint32]transaction
	have     []map[transaction]bool
	last     []time.Duration // last forwarding slot of each node
	any      []bool
	queue    [][]transaction // obtained, not yet looped back
	before   serverMetric
	multi    int // blocks after the first on any link
	obtained int
	decoded  int
}

func zvNewModel(x *vh.Ctx, n *zvNet, prop string) *zvModel {
	m := &zvModel{prop: prop, n: n, x: x, links: map[[2]int]*zvLink{}, peers: n.c.Topo.Peers(), short: map[transaction]uint32{}, byID: map[uint32]transaction{}}
	for _, e := range n.c.Topo.Edges {
		for _, k := range [][2]int{{e.A, e.B}, {e.B, e.A}} {
			m.links[k] = &zvLink{delay: time.Duration(e.MS) * time.Millisecond, cur: n.c.Threshold, prev: n.c.Threshold}
		}
	}
	for i := 0; i < n.c.Topo.N; i++ {
		m.nodes = append(m.nodes, &zvNode{map[uint32]bool{}, map[uint32][]*zvCW{}})
		m.have = append(m.have, map[transaction]bool{})
	}
	m.last = make([]time.Duration, n.c.Topo.N)
	m.any = make([]bool, n.c.Topo.N)
	m.queue = make([][]transaction, n.c.Topo.N)
	return m
}

func (m *zvModel) Before(e simx.Event) { m.before = m.n.servers[m.n.idx[e.To]].serverMetric }

// Observe checks one event against the model: the links for C22, what nodes
// obtain and forward for C23.
func (m *zvModel) Observe(e simx.Event, out []des.OutgoingMessage) error {
	i := m.n.idx[e.To]
	s := m.n.servers[i]
	c := m.n.c
	c22, c23 := m.prop == "C22", m.prop == "C23"
	fail := func(kind, f string, a ...any) error {
		return vh.Fail(kind, "event %d at %v, %T at node %d: %s", m.n.loop.Count, e.At, e.Payload, i, fmt.Sprintf(f, a...))
	}
	// sort the outgoing messages
	var loops []des.OutgoingMessage
	acks := map[int][]ack{}
	cws := map[int][]codeword{}
	for _, o := range out {
		switch p := o.Payload.(type) {
		case loopback:
			loops = append(loops, o)
		case ack, codeword:
			j, known := m.n.idx[o.To]
			l := m.links[[2]int{i, j}]
			if !known || l == nil {
				return fail("misdirected", "%T sent to a node that is no peer", p)
			}
			if c22 && o.Delay != l.delay {
				return fail("wrong-delay", "%T to node %d with delay %v on a link of %v", p, j, o.Delay, l.delay)
			}
			if a, ok := p.(ack); ok {
				acks[j] = append(acks[j], a)
			} else {
				cws[j] = append(cws[j], p.(codeword))
			}
		}
	}
	// what the node is to obtain
	want := map[transaction]bool{}
	wantAckTo := -1
	var here *zvLink
	var looped *transaction
	switch p := e.Payload.(type) {
	case blockArrival:
		if c23 && len(loops) != p.n {
			return fail("lost-or-repeated", "%d transactions generated, %d scheduled for forwarding", p.n, len(loops))
		}
		for _, o := range loops {
			tx := o.Payload.(loopback).tx
			d := tx.Data()
			if _, dup := m.short[d]; c23 && (dup || d.ts != e.At) {
				return fail("bad-generation", "generated %+v", d)
			}
			h := zvShort(tx)
			if o, clash := m.byID[h]; clash {
				return vh.Harnessf("transactions %v and %v share a short identifier", o, d)
			}
			m.short[d], m.byID[h] = h, d
			want[d] = true
			if got := m.nodes[i].learn(h); len(got) != 1 {
				return vh.Harnessf("generation unlocked codewords")
			}
		}
	case codeword:
		j := m.n.idx[e.From]
		wantAckTo = j
		here = m.links[[2]int{j, i}]
		mem := zvMembers(p)
		if p.newBlock {
			here.seen, here.acked, here.quietFull = nil, false, 0
		}
		cw, got := m.nodes[i].codeword(mem)
		here.seen = append(here.seen, cw)
		for _, h := range got {
			d, ok := m.byID[h]
			if !ok {
				if c22 {
					continue
				}
				return fail("unknown-member", "a codeword lists an identifier of no transaction")
			}
			want[d] = true
		}
	case ack:
		j := m.n.idx[e.From]
		l := m.links[[2]int{i, j}]
		l.unacked--
		if p.ackBlock {
			l.active = false
		}
	case loopback:
		d := p.tx.Data()
		if c23 {
			if len(m.queue[i]) == 0 || m.queue[i][0] != d {
				return fail("out-of-order", "forwards %+v out of turn", d)
			}
			m.queue[i] = m.queue[i][1:]
		}
		looped = &d
		for _, j := range m.peers[i] {
			l := m.links[[2]int{i, j}]
			l.buffer = append(l.buffer, d)
		}
	}
	// C23: obtained transactions and their forwarding slots
	if c23 {
		if err := m.dissemination(i, e, loops, want, looped, cws, fail); err != nil {
			return err
		}
		return m.resets(fail)
	}
	// C22: acknowledgements
	for _, j := range m.peers[i] {
		wantN := 0
		if j == wantAckTo {
			wantN = 1
		}
		if len(acks[j]) != wantN {
			return fail("wrong-acknowledgements", "%d acknowledgements to node %d, expected %d", len(acks[j]), j, wantN)
		}
	}
	if here != nil {
		undecoded := 0
		for _, w := range here.seen {
			if len(w.left) != 0 {
				undecoded++
			}
		}
		allowed := int(float64(len(here.seen)) * c.Loss)
		if acks[wantAckTo][0].ackBlock {
			if here.acked {
				return fail("acknowledged-twice", "the block is acknowledged again")
			}
			if len(here.seen) <= c.Threshold {
				return fail("premature-acknowledgement", "the block is acknowledged after %d codewords, the detection threshold is %d", len(here.seen), c.Threshold)
			}
			if undecoded > allowed {
				return fail("premature-acknowledgement", "the block is acknowledged with %d of %d codewords not decoded", undecoded, len(here.seen))
			}
			here.acked = true
		} else if !here.acked && undecoded <= allowed {
			if here.quietFull++; here.quietFull > 3*c.Threshold+20 {
				return fail("never-acknowledged", "all %d codewords are decoded, yet the block is not acknowledged", len(here.seen))
			}
		} else {
			here.quietFull = 0
		}
	}
	// C22: codewords sent
	min := int(float64(c.Threshold) / c.Overhead)
	_, tick := e.Payload.(createNewBlock)
	may := c.SyncMS == 0 || tick
	for _, j := range m.peers[i] {
		l := m.links[[2]int{i, j}]
		for _, cw := range cws[j] {
			if cw.newBlock {
				if l.active {
					return fail("block-abandoned", "a new block to node %d starts before the last one was acknowledged", j)
				}
				if len(l.buffer) < min {
					return fail("premature-block", "a block of %d transactions starts; %d must gather", len(l.buffer), min)
				}
				if !may {
					return fail("premature-block", "a block starts between synchronisation ticks")
				}
				l.block, l.buffer = l.buffer, nil
				l.active = true
				if l.blocks++; l.blocks > 1 {
					m.multi++
				}
				l.inBlock = map[uint32]bool{}
				for _, d := range l.block {
					l.inBlock[m.short[d]] = true
				}
				l.prev, l.cur = l.cur, max(1, int(float64(len(l.block))*c.Overhead))
			} else if !l.active {
				return fail("idle-codeword", "a codeword to node %d belongs to no block", j)
			}
			for _, h := range zvMembers(cw) {
				if !l.inBlock[h] {
					return fail("foreign-member", "a codeword to node %d covers %+v, which is not in the block", j, m.byID[h])
				}
			}
			l.unacked++
			if l.unacked > max(l.cur, l.prev) {
				return fail("window-exceeded", "%d unacknowledged codewords to node %d, windows %d and %d", l.unacked, j, l.prev, l.cur)
			}
		}
		if l.active && l.unacked == 0 {
			return fail("stalled", "the block to node %d is unfinished and nothing is in flight", j)
		}
		if may && !l.active && l.unacked < l.cur && len(l.buffer) >= min {
			return fail("block-not-started", "%d transactions wait for node %d, %d suffice, and the link is idle", len(l.buffer), j, min)
		}
		if zvDeep != nil {
			buf, blk := zvDeep(s, m.n.servers[j])
			if !zvEqual(buf, l.buffer) {
				return fail("lost-or-repeated", "transactions waiting for node %d: %v, expected %v", j, buf, l.buffer)
			}
			if l.active && !zvEqual(blk, l.block) {
				return fail("lost-or-repeated", "block to node %d: %v, expected %v", j, blk, l.block)
			}
		}
	}
	return m.resets(fail)
}

type zvFail = func(kind, f string, a ...any) error

func (m *zvModel) resets(fail zvFail) error {
	if m.n.loop.Count == m.n.c.ResetAt {
		for _, s := range m.n.servers {
			s.resetMetric()
			if m.prop == "C23" && s.serverMetric != (serverMetric{}) {
				return fail("reset-incomplete", "metrics after a reset: %+v", s.serverMetric)
			}
		}
	}
	return nil
}

func (m *zvModel) dissemination(i int, e simx.Event, loops []des.OutgoingMessage, want map[transaction]bool, looped *transaction, cws map[int][]codeword, fail zvFail) error {
	s, c := m.n.servers[i], m.n.c
	for _, o := range loops {
		d := o.Payload.(loopback).tx.Data()
		if _, ok := m.short[d]; !ok {
			return fail("never-generated", "obtained %+v, which nobody generated", d)
		}
		if m.have[i][d] {
			return fail("obtained-twice", "obtained %+v again", d)
		}
		if !want[d] {
			return fail("not-decodable", "obtained %+v, which does not follow from the codewords received", d)
		}
		m.have[i][d] = true
		m.queue[i] = append(m.queue[i], d)
		m.obtained++
		if _, ok := e.Payload.(codeword); ok {
			m.decoded++
		}
		slot := e.At + o.Delay
		pace := time.Duration(c.PaceNS)
		due := e.At
		if m.any[i] && m.last[i]+pace > due {
			due = m.last[i] + pace
		}
		if m.any[i] && slot < m.last[i]+pace {
			return fail("too-fast", "forwards %+v at %v, %v after the previous one; the interval is %v", d, slot, slot-m.last[i], pace)
		}
		if slot > due && !(!m.any[i] && slot <= pace) {
			return fail("needless-delay", "forwards %+v at %v although %v was possible", d, slot, due)
		}
		m.any[i], m.last[i] = true, slot
	}
	if len(loops) != len(want) {
		return fail("lost-or-repeated", "%d transactions obtained, %d expected", len(loops), len(want))
	}
	wm := m.before
	if _, ok := e.Payload.(codeword); ok {
		wm.receivedCodewords++
		wm.decodedTransactions += len(want)
	}
	if s.serverMetric != wm {
		return fail("wrong-metrics", "metrics %+v, expected %+v", s.serverMetric, wm)
	}
	if looped == nil || zvDeep == nil {
		return nil
	}
	// forwarded once to every peer
	for _, j := range m.peers[i] {
		all, blk := zvDeep(s, m.n.servers[j])
		for _, cw := range cws[j] {
			if cw.newBlock {
				all = append(append([]transaction{}, blk...), all...)
			}
		}
		k := 0
		for _, d := range all {
			if d == *looped {
				k++
			}
		}
		if k != 1 || all[len(all)-1] != *looped {
			return fail("not-forwarded-once", "forwarding %+v put it %d times on the link to node %d", *looped, k, j)
		}
	}
	return nil
}

func zvEqual(a, b []transaction) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (c zvCase) horizon() time.Duration { return 3600 * time.Second }

func zvLinks(prop string) func(x *vh.Ctx, c zvCase) error {
	return func(x *vh.Ctx, c zvCase) error { return zvRun(prop, x, c) }
}

func zvRun(prop string, x *vh.Ctx, c zvCase) error {
	n := zvMake(c, zvRare, 1)
	m := zvNewModel(x, n, prop)
	n.loop.Before, n.loop.Observe = m.Before, m.Observe
	events := 6000
	if c.Events > 0 {
		events = c.Events
	}
	if err := n.loop.Run(c.horizon(), events, nil); err != nil {
		return err
	}
	// At rest, only the far-off arrivals and ticks are left: every block is
	// finished and nothing that should have been sent still waits.
	x.Add("events", n.loop.Count)
	blocks, acked := 0, 0
	for _, l := range m.links {
		blocks += l.blocks
		if l.acked {
			acked++
		}
	}
	if prop == "C22" {
		x.Add("blocks", blocks)
	}
	x.Add("obtained", m.obtained)
	x.Add("decoded", m.decoded)
	x.TagIf(m.multi > 0, "successive-blocks")
	x.TagIf(c.SyncMS > 0 && blocks > 0, "synchronised")
	x.TagIf(c.Loss > 0 && blocks > 0, "loss-target")
	x.TagIf(c.PaceNS > 0, "paced")
	x.TagIf(zvDeep != nil, "contents-compared")
	if prop == "C22" && blocks > 0 && acked > 0 || m.decoded > 0 {
		x.NonTrivial()
	}
	return nil
}

// ---------------------------------------------------------------- C24

func zvTrace(c zvCase, maxEvents int) ([]string, error) {
	n := zvMake(c, zvRare, 1)
	var tr []string
	n.loop.Observe = func(e simx.Event, out []des.OutgoingMessage) error {
		tr = append(tr, simx.Describe(n.idx, e))
		return nil
	}
	if err := n.loop.Run(c.horizon(), maxEvents, nil); err != nil {
		return nil, err
	}
	for i, s := range n.servers {
		tr = append(tr, fmt.Sprintf("final %d %+v", i, s.serverMetric))
	}
	return tr, nil
}

func zvSame(a, b []string) error {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			o := "nothing"
			if i < len(b) {
				o = b[i]
			}
			return vh.Fail("not-reproducible", "event %d of two runs differs:\n%.600s\n%.600s", i, a[i], o)
		}
	}
	if len(a) != len(b) {
		return vh.Fail("not-reproducible", "%d events in one run, %d in another", len(a), len(b))
	}
	return nil
}

func zvRepro(x *vh.Ctx, c zvCase) error {
	a, err := zvTrace(c, 1500)
	if err != nil {
		return err
	}
	for k := 0; k < 2; k++ {
		b, err := zvTrace(c, 1500)
		if err != nil {
			return err
		}
		if err := zvSame(a, b); err != nil {
			return err
		}
	}
	if c.Topo.N > 2 && len(a) > 100 {
		x.NonTrivial()
	}
	x.Add("events", len(a))
	return nil
}

type zvRunCase struct {
	Base  zvCase
	Rate  float64
	Burst int
	MS    int
}

// zvFull runs the simulation the way main does, own arrivals included.
func zvFull(c zvRunCase) []string {
	txgen = newTransactionGenerator()
	sim := &des.Simulator{}
	servers := zvServers(sim, c.Base, c.Rate/float64(c.Burst)/float64(time.Second), c.Burst)
	var tr []string
	for t := 0; t <= c.MS; t += 50 {
		sim.RunUntil(time.Duration(t) * time.Millisecond)
		l := fmt.Sprint(sim.Time(), sim.EventsDelivered(), sim.EventsQueued())
		for _, s := range servers {
			l += fmt.Sprintf(" %+v", s.serverMetric)
		}
		tr = append(tr, l)
	}
	return tr
}

func zvReproFull(x *vh.Ctx, c zvRunCase) error {
	a := zvFull(c)
	for k := 0; k < 2; k++ {
		if err := zvSame(a, zvFull(c)); err != nil {
			return err
		}
	}
	if c.Base.Topo.N > 2 {
		x.NonTrivial()
	}
	return nil
}

type zvSeedCase struct {
	Nodes int
	A, B  int64
	Burst int
}

// zvSeeds: unconnected servers, so that only their own arrivals count.
func zvSeeds(x *vh.Ctx, c zvSeedCase) error {
	if c.A == c.B {
		return nil
	}
	run := func(seed int64) []string {
		txgen = newTransactionGenerator()
		sim := &des.Simulator{}
		zvServers(sim, zvCase{Topo: simx.Topo{N: c.Nodes}, Threshold: 5, Overhead: 0.1, Seed: seed}, 5/float64(c.Burst)/float64(time.Second), c.Burst)
		var tr []string
		for t := 0; t < 20000; t += 20 {
			sim.RunUntil(time.Duration(t) * time.Millisecond)
			tr = append(tr, fmt.Sprint(sim.Time(), sim.EventsDelivered()))
		}
		return tr
	}
	if zvSame(run(c.A), run(c.B)) == nil {
		return vh.Fail("seed-ignored", "seeds %d and %d give the same arrivals at %d nodes", c.A, c.B, c.Nodes)
	}
	x.NonTrivial()
	return nil
}

func init() {
	zvTxGen = func() func(at time.Duration) transaction {
		g := newTransactionGenerator()
		return func(at time.Duration) transaction { return g.generate(at).Data() }
	}
	zvTxHash = func(t transaction) string { return string(t.Hash()) }
	assume := []string{"at most one link between two nodes", "0 < control overhead <= detection threshold, threshold at least 1, so that blocks are not empty", "decoder memory larger than the run", "a link is idle when its block was acknowledged and fewer codewords than its window are unacknowledged"}
	zvProps = append(zvProps,
		&vh.Property{ID: "C22", Rule: "at least one block was sent and acknowledged", Assumptions: assume,
			Subs: []*vh.Sub{
				vh.NewSub("links", 700, zvGenCase(6, 10), zvLinks("C22")).T(7000),
				vh.NewSub("two-nodes", 300, zvGenCase(2, 20), zvLinks("C22")).T(3000),
				vh.NewSub("large", 20, zvGenLarge, zvLinks("C22")).T(200),
			}},
		&vh.Property{ID: "C23", Rule: "at least one transaction was decoded from codewords", Assumptions: assume,
			Subs: []*vh.Sub{
				vh.NewSub("dissemination", 700, zvGenCase(8, 14), zvLinks("C23")).T(7000),
			}},
		&vh.Property{ID: "C24", Rule: "at least three nodes and a hundred events",
			Subs: []*vh.Sub{
				vh.NewSub("simulator-events", 150, zvGenCase(7, 10), zvRepro).T(1500),
				vh.NewSub("simulator-full", 40, func(t *rapid.T) zvRunCase {
					return zvRunCase{Base: zvGenCase(9, 1)(t), Rate: vh.OneOf(t, "rate", 20, 100, 400.0), Burst: vh.OneOf(t, "burst", 1, 3, 20), MS: vh.OneOf(t, "ms", 300, 1000)}
				}, zvReproFull).T(400),
				vh.NewSub("seeds", 80, func(t *rapid.T) zvSeedCase {
					return zvSeedCase{1 + vh.Uniform(t, "nodes", 4), int64(rapid.IntRange(0, 1000000000).Draw(t, "a")), int64(rapid.IntRange(0, 1000000000).Draw(t, "b")), vh.OneOf(t, "burst", 1, 1, 10)}
				}, zvSeeds).T(800),
			}},
	)
}
