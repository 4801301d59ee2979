//go:build go1.23

package main

import (
	"fmt"
	"iter"
	"math/rand"
	"testing"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
	"pgregory.net/rapid"
	"verif/libs/simx"
	"verif/vh"
)

// zvPkg is where this package lives in the repository.
const zvPkg = "newsim"

func TestVerif(t *testing.T) { vh.Main(t, zvProps) }

// zvRare makes the simulator's own arrivals practically never happen (mean
// interval three years), so that the case decides what is generated when.
const zvRare = 1e-17

type zvGen struct {
	US   int // time in microseconds
	Node int
	N    int
}

type zvCase struct {
	Topo     simx.Topo
	Algo     string
	Flood    bool
	Shards   int
	Overhead float64
	TxSize   int
	Seed     int64
	Gens     []zvGen
	ResetAt  int  // reset the metrics at this event (0: never)
	Lean     bool // so much that what nodes have is compared in the end only
}

func zvGenCase(maxNodes, maxGens int, treesOnly bool) func(t *rapid.T) zvCase {
	return func(t *rapid.T) zvCase {
		c := zvCase{
			Topo:     simx.GenTopo(t, 2, maxNodes, treesOnly),
			Algo:     vh.OneOf(t, "algo", "coding", "coding", "pull"),
			Flood:    vh.Uniform(t, "flood", 3) == 0,
			Shards:   vh.OneOf(t, "shards", 1, 1, 2, 3, 7, 8, 16, 64, 300),
			Overhead: vh.OneOf(t, "overhead", 0, 0.02, 0.1, 0.1, 0.5, 1, 3),
			TxSize:   vh.OneOf(t, "txsize", 256, 256, 1, 0, 1000, 5<<30),
			Seed:     int64(vh.Seed(t)),
		}
		if treesOnly && vh.Uniform(t, "noflood", 2) == 0 {
			c.Flood = false
		}
		n := 1 + vh.Uniform(t, "gens", maxGens)
		span := vh.OneOf(t, "span", 0, 1000, 100000, 1000000)
		for i := 0; i < n; i++ {
			g := zvGen{Node: vh.Uniform(t, "node", c.Topo.N), N: vh.OneOf(t, "burst", 1, 1, 2, 5, 20)}
			if span > 0 {
				g.US = rapid.IntRange(0, span).Draw(t, "at")
			}
			c.Gens = append(c.Gens, g)
		}
		// every node generates something sooner or later, as in a simulation
		for i := 0; i < c.Topo.N; i++ {
			has := false
			for _, g := range c.Gens {
				has = has || g.Node == i
			}
			if !has {
				g := zvGen{Node: i, N: 1}
				if span > 0 {
					g.US = rapid.IntRange(0, span).Draw(t, "at")
				}
				c.Gens = append(c.Gens, g)
			}
		}
		if vh.Uniform(t, "reset", 3) == 0 {
			c.ResetAt = 1 + rapid.IntRange(0, 300).Draw(t, "resetAt")
		}
		return c
	}
}

func (c zvCase) total() (n int) {
	for _, g := range c.Gens {
		n += g.N
	}
	return
}

// horizon: a time by which everything must have arrived everywhere. Per hop a
// transaction waits at most a full rotation over the shards before its shard
// comes up and then for that rotation to be worked off; a rotation costs at
// most one round trip per shard and per coded symbol. Doubled for margin.
func (c zvCase) horizon() time.Duration {
	maxd := 1
	for _, e := range c.Topo.Edges {
		if e.MS > maxd {
			maxd = e.MS
		}
	}
	last := 0
	for _, g := range c.Gens {
		if g.US > last {
			last = g.US
		}
	}
	rtts := c.Topo.N * 2 * (c.Shards + 4*c.total() + 20) * 2
	return time.Duration(last)*time.Microsecond + time.Duration(rtts)*2*time.Duration(maxd)*time.Millisecond
}

type zvNet struct {
	c       zvCase
	servers []*server
	idx     map[des.Module]int
	loop    *simx.Loop
	gens    int // generation messages delivered
}

var zvSpy func(n *zvNet) // set by the optional file

// zvMake builds the network exactly as main does, with an event loop of ours.
func zvMake(c zvCase) *zvNet {
	txgen = &transactionGenerator{}
	RNG = rand.New(rand.NewSource(c.Seed))
	TXSIZE = c.TxSize
	n := &zvNet{c: c, idx: map[des.Module]int{}, loop: &simx.Loop{}}
	n.servers = newServers(&des.Simulator{}, c.Topo.N, serverConfig{blockArrivalIntv: zvRare, blockArrivalBurst: 1, initialFlood: c.Flood})
	zvConnect(n.servers, c)
	for i, s := range n.servers {
		n.idx[s] = i
		s.latencySketch = newDistributionSketch(0)
	}
	for _, g := range c.Gens {
		s := n.servers[g.Node]
		n.loop.Send(time.Duration(g.US)*time.Microsecond, s, s, blockArrival{n: g.N})
	}
	return n
}

func zvConnect(servers []*server, c zvCase) {
	for _, e := range c.Topo.Edges {
		d := time.Duration(e.MS) * time.Millisecond
		if c.Algo == "coding" {
			connectCodingServers(servers[e.A], servers[e.B], d, senderConfig{controlOverhead: c.Overhead, numShards: c.Shards})
		} else {
			connectPullServers(servers[e.A], servers[e.B], d)
		}
	}
}

// ---------------------------------------------------------------- C20

func zvConverge(x *vh.Ctx, c zvCase) error {
	n := zvMake(c)
	total := c.total()
	universe := map[uint64]int{} // transaction -> node that generated it
	genLeft := len(c.Gens)
	missing := total * c.Topo.N
	size := make([]int, c.Topo.N)
	delays := map[[2]int]time.Duration{}
	for _, e := range c.Topo.Edges {
		d := time.Duration(e.MS) * time.Millisecond
		delays[[2]int{e.A, e.B}], delays[[2]int{e.B, e.A}] = d, d
	}
	n.loop.Observe = func(e simx.Event, out []des.OutgoingMessage) error {
		i := n.idx[e.To]
		s := n.servers[i]
		for _, o := range out {
			if _, self := o.Payload.(blockArrival); self {
				continue
			}
			j, known := n.idx[o.To]
			if d, linked := delays[[2]int{i, j}]; !known || !linked || o.Delay != d {
				return vh.Fail("misdirected", "node %d sends %T to node %d with delay %v; link: %v, %v", i, o.Payload, j, o.Delay, linked, d)
			}
		}
		if _, ok := e.Payload.(blockArrival); ok {
			genLeft--
			for t := range zvIDs(s.received) {
				if _, ok := universe[t]; !ok {
					universe[t] = i
				}
			}
		}
		if len(s.received) != size[i] {
			missing -= len(s.received) - size[i]
			size[i] = len(s.received)
			if c.Lean { // looked at in the end
				return nil
			}
			for t := range zvIDs(s.received) {
				if _, ok := universe[t]; !ok {
					return vh.Fail("never-generated", "node %d received transaction %d, which nobody generated (message %T from %d)", i, t, e.Payload, n.idx[e.From])
				}
			}
		}
		return nil
	}
	h := c.horizon()
	err := n.loop.Run(h, 5000000, func() bool { return genLeft == 0 && missing <= 0 })
	if err != nil {
		return err
	}
	x.Add("events", n.loop.Count)
	if len(universe) != total {
		return vh.Fail("generation-lost", "%d transactions generated in bursts amounting to %d", len(universe), total)
	}
	for i, s := range n.servers {
		for t, g := range universe {
			if !zvHas(s.received, t) {
				return vh.Fail("not-converged", "%s flood=%v %s of %d: node %d lacks transaction %d of node %d at %v (horizon %v, %d events)", c.Algo, c.Flood, c.Topo.Kind, c.Topo.N, i, t, g, n.loop.Now, h, n.loop.Count)
			}
		}
		if len(s.received) != total {
			return vh.Fail("never-generated", "node %d has %d transactions of %d", i, len(s.received), total)
		}
	}
	x.Tag(c.Algo)
	x.TagIf(c.Flood, c.Algo+"-flood")
	x.TagIf(!c.Topo.Tree(), "cyclic")
	if c.Topo.N > 2 && total > 1 {
		x.NonTrivial()
	}
	return nil
}

// The transactions a node has, whatever integers they are known by.
func zvIDs[K zvInteger, V any](m map[K]V) iter.Seq[uint64] {
	return func(yield func(uint64) bool) {
		for k := range m {
			if !yield(uint64(k)) {
				return
			}
		}
	}
}

func zvHas[K zvInteger, V any](m map[K]V, t uint64) bool {
	_, ok := m[K(t)]
	return ok
}

type zvInteger interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64
}

// ---------------------------------------------------------------- C21

type zvCounts struct{ received, decoded, duplicate, bytes int }

func zvRead(s *server) zvCounts {
	return zvCounts{s.receivedTransactions, s.decodedTransactions, s.duplicateTransactions, s.receivedBytes}
}

// zvReturned is set by the optional spy: how many transactions, and which,
// the last codeword yielded (nil: no spy).
var zvReturned *[]uint64

// zvAsked, set by the optional file, tells which hash a message requests.
var zvAsked func(m any) (uint64, bool)

func zvAccount(x *vh.Ctx, c zvCase) error {
	n := zvMake(c)
	byHash := map[uint64]uint64{}
	crossing := 0
	zvReturned = nil
	if zvSpy != nil {
		zvSpy(n)
		x.Tag("spy")
	}
	have := make([]map[uint64]bool, c.Topo.N)
	for i := range have {
		have[i] = map[uint64]bool{}
	}
	quietTree := c.Topo.Tree()
	crossed := map[[3]int]int{}
	var before zvCounts
	events, dups := 0, 0
	n.loop.Before = func(e simx.Event) {
		before = zvRead(n.servers[n.idx[e.To]])
		if zvReturned != nil {
			*zvReturned = nil
		}
	}
	n.loop.Observe = func(e simx.Event, out []des.OutgoingMessage) error {
		events++
		i := n.idx[e.To]
		s := n.servers[i]
		after := zvRead(s)
		d := zvCounts{after.received - before.received, after.decoded - before.decoded, after.duplicate - before.duplicate, after.bytes - before.bytes}
		var want zvCounts
		obtain := func(t uint64) {
			if have[i][t] {
				want.duplicate++
			} else {
				have[i][t] = true
				want.received++
				want.decoded++
			}
		}
		loose := false // duplicates of a codeword are unknown without the spy
		switch m := e.Payload.(type) {
		case blockArrival:
			want.received = m.n
			for t := range zvIDs(s.received) {
				have[i][t] = true
				byHash[transaction{idx: t}.Hash()] = t
			}
		case initialBroadcast:
			want.bytes = c.TxSize
			obtain(m.payload.Symbol.idx)
			a, b := i, n.idx[e.From]
			if a > b {
				a, b = b, a
			}
			crossed[[3]int{a, b, int(m.payload.Symbol.idx)}]++
		case response:
			want.bytes = c.TxSize
			obtain(m.payload.Symbol.idx)
			a, b := i, n.idx[e.From]
			if a > b {
				a, b = b, a
			}
			crossed[[3]int{a, b, int(m.payload.Symbol.idx)}]++
		case announce, request:
			want.bytes = 32
		case ack:
			want.bytes = 8 + len(m.txs)*c.TxSize
			for _, t := range m.txs {
				obtain(t.Symbol.idx)
			}
		case codeword:
			want.bytes = 8 + c.TxSize + 16
			if zvReturned != nil {
				for _, t := range *zvReturned {
					obtain(t)
				}
			} else {
				loose = true
				for t := range zvIDs(s.received) {
					if !have[i][t] {
						have[i][t] = true
						want.received++
						want.decoded++
					}
				}
			}
		default:
			return vh.Harnessf("unknown message %T", e.Payload)
		}
		if loose && d.duplicate >= 0 {
			want.duplicate = d.duplicate
		}
		if d != want {
			return vh.Fail("wrong-metrics", "event %d: %T from %d to %d changed received/decoded/duplicate/bytes by %+v, expected %+v", events, e.Payload, n.idx[e.From], i, d, want)
		}
		if len(s.received) != len(have[i]) {
			return vh.Fail("wrong-received-set", "event %d: node %d has %d transactions, expected %d", events, i, len(s.received), len(have[i]))
		}
		if c.Algo == "pull" && !c.Flood && zvAsked != nil {
			for _, o := range out {
				if h, ok := zvAsked(o.Payload); ok {
					if t, ok := byHash[h]; !ok || have[i][t] {
						return vh.Fail("needless-request", "event %d: node %d requests transaction %d from node %d although it has it (or nobody does)", events, i, t, n.idx[o.To])
					}
				}
			}
			if m, ok := e.Payload.(announce); ok && len(out) == 0 && have[i][byHash[m.hash]] {
				crossing++
			}
		}
		dups += d.duplicate
		if quietTree && d.duplicate != 0 {
			return vh.Fail("duplicate-on-tree", "event %d: %T from %d gave node %d a duplicate on a tree", events, e.Payload, n.idx[e.From], i)
		}
		if events == c.ResetAt {
			for j, s := range n.servers {
				s.resetMetric()
				if zvRead(s) != (zvCounts{}) {
					return vh.Fail("reset-incomplete", "metrics of node %d after a reset: %+v", j, zvRead(s))
				}
			}
		}
		return nil
	}
	done := func() bool {
		for i := range have {
			if len(have[i]) < c.total() {
				return false
			}
		}
		return true
	}
	h := c.horizon()
	if err := n.loop.Run(h, 3000000, done); err != nil {
		return err
	}
	// go on for a while: late duplicates must be accounted for, too
	extra := n.loop.Now + time.Duration(2*c.Shards+4)*200*time.Millisecond
	if err := n.loop.Run(extra, 4000, nil); err != nil {
		return err
	}
	if quietTree && c.Algo == "pull" && done() {
		for _, e := range c.Topo.Edges {
			a, b := e.A, e.B
			if a > b {
				a, b = b, a
			}
			for t := range have[0] {
				if k := crossed[[3]int{a, b, int(t)}]; k != 1 {
					return vh.Fail("payload-crossings", "transaction %d crossed link %d-%d %d times", t, a, b, k)
				}
			}
		}
	}
	x.Tag(c.Algo)
	x.TagIf(quietTree && !c.Flood, "tree-without-flooding")
	x.TagIf(quietTree && c.Flood, "tree-with-flooding")
	x.TagIf(dups > 0, "duplicates-occur")
	x.TagIf(crossing > 0, "announced-although-there")
	x.Add("events", events)
	if dups > 0 || quietTree && c.Topo.N > 2 {
		x.NonTrivial()
	}
	return nil
}

// ---------------------------------------------------------------- C24

func zvTrace(c zvCase, maxEvents int) ([]string, error) {
	n := zvMake(c)
	var tr []string
	n.loop.Observe = func(e simx.Event, out []des.OutgoingMessage) error {
		tr = append(tr, simx.Describe(n.idx, e))
		return nil
	}
	if err := n.loop.Run(c.horizon(), maxEvents, nil); err != nil {
		return nil, err
	}
	for i, s := range n.servers {
		tr = append(tr, fmt.Sprintf("final %d %+v %d", i, zvRead(s), len(s.received)))
	}
	return tr, nil
}

func zvRepro(x *vh.Ctx, c zvCase) error {
	a, err := zvTrace(c, 3000)
	if err != nil {
		return err
	}
	for k := 0; k < 2; k++ {
		b, err := zvTrace(c, 3000)
		if err != nil {
			return err
		}
		if err := zvSame(a, b); err != nil {
			return err
		}
	}
	if c.Topo.N > 2 && len(a) > 100 {
		x.NonTrivial()
	}
	x.Tag(c.Algo)
	x.Add("events", len(a))
	return nil
}

func zvSame(a, b []string) error {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			o := "nothing"
			if i < len(b) {
				o = b[i]
			}
			return vh.Fail("not-reproducible", "event %d of two runs differs:\n%.600s\n%.600s", i, a[i], o)
		}
	}
	if len(a) != len(b) {
		return vh.Fail("not-reproducible", "%d events in one run, %d in another", len(a), len(b))
	}
	return nil
}

type zvRunCase struct {
	Base  zvCase
	Rate  float64 // transactions per node and second
	Burst int
	MS    int
	Flood bool
}

// zvFull runs the simulation the way main does, own arrivals included.
func zvFull(c zvRunCase) []string {
	txgen = &transactionGenerator{}
	RNG = rand.New(rand.NewSource(c.Base.Seed))
	TXSIZE = c.Base.TxSize
	sim := &des.Simulator{}
	servers := newServers(sim, c.Base.Topo.N, serverConfig{blockArrivalIntv: c.Rate / float64(c.Burst) / float64(time.Second), blockArrivalBurst: c.Burst, initialFlood: c.Flood})
	for _, s := range servers {
		s.latencySketch = newDistributionSketch(0)
	}
	zvConnect(servers, c.Base)
	var tr []string
	for t := 0; t <= c.MS; t += 50 {
		sim.RunUntil(time.Duration(t) * time.Millisecond)
		l := fmt.Sprint(sim.Time(), sim.EventsDelivered(), sim.EventsQueued())
		for _, s := range servers {
			l += fmt.Sprintf(" %+v", zvRead(s))
		}
		tr = append(tr, l)
	}
	return tr
}

func zvReproFull(x *vh.Ctx, c zvRunCase) error {
	a := zvFull(c)
	for k := 0; k < 2; k++ {
		if err := zvSame(a, zvFull(c)); err != nil {
			return err
		}
	}
	if c.Base.Topo.N > 2 {
		x.NonTrivial()
	}
	return nil
}

func init() {
	zvTxGen = func() func(at time.Duration) transaction { return (&transactionGenerator{}).generate }
	zvTxHash = func(t transaction) string { return fmt.Sprint(t.Hash()) }
	zvProps = append(zvProps,
		&vh.Property{ID: "C20", Rule: "at least three nodes and two transactions",
			Assumptions: []string{"link delays are at least one millisecond (with zero delay the coding simulation never advances its clock)", "every node generates at least one transaction (a silent node never starts reconciling on the links where it is the coding side)", "eventually means within a horizon computed from the topology, shards and number of transactions with a factor-two margin", "at most one link between two nodes"},
			Subs: []*vh.Sub{
				vh.NewSub("converge", 1500, zvGenCase(8, 12, false), zvConverge).T(4000),
				vh.NewSub("larger", 120, zvGenCase(20, 40, false), zvConverge).T(250),
			}},
		&vh.Property{ID: "C21", Rule: "duplicates occurred, or the topology is a tree of more than two nodes, where none may",
			Assumptions: []string{"modelled sizes: codeword 24 bytes plus the transaction size, acknowledgement 8 bytes plus its transactions, announcement and request 32 bytes"},
			Subs: []*vh.Sub{
				vh.NewSub("account", 1000, zvGenCase(7, 10, false), zvAccount).T(3000),
				vh.NewSub("trees", 700, zvGenCase(7, 10, true), zvAccount).T(2000),
			}},
		&vh.Property{ID: "C24", Rule: "at least three nodes and a hundred events (newsim), or every full run",
			Subs: []*vh.Sub{
				vh.NewSub("newsim-events", 150, zvGenCase(9, 8, false), zvRepro).T(1500),
				vh.NewSub("newsim-full", 40, func(t *rapid.T) zvRunCase {
					return zvRunCase{Base: zvGenCase(10, 1, false)(t), Rate: vh.OneOf(t, "rate", 1, 5, 50.0), Burst: vh.OneOf(t, "burst", 1, 3, 20), MS: vh.OneOf(t, "ms", 300, 1000), Flood: rapid.Bool().Draw(t, "fl")}
				}, zvReproFull).T(400),
			}},
	)
}
