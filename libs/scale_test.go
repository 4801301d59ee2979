package libs

import (
	"math"
	"sort"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
	"pgregory.net/rapid"
	"verif/vh"
)

// Sizes at which the codecs and the simulator are really used: windows,
// memories and queues of tens of thousands.

// ---------------------------------------------------------------- C10, C12

type longCase struct {
	Codec  string
	Seed   uint64
	Mem    int
	N      int // distinct transactions
	Repeat int // percentage of operations that bring back an earlier transaction
	CWPct  int // percentage of operations that are codewords
	Open   int // codewords of two that stay undecodable until the end
}

func genLong(t *rapid.T) longCase {
	c := longCase{Codec: vh.OneOf(t, "codec", codecNames...), Seed: vh.Seed(t), Mem: vh.OneOf(t, "mem", 255, 256, 1000, 4096, 20000, 66000),
		Repeat: vh.OneOf(t, "repeat", 0, 10, 50), CWPct: vh.OneOf(t, "cw", 5, 30, 100), Open: vh.OneOf(t, "open", 0, 10, 3000)}
	c.N = c.Mem*2 + vh.Uniform(t, "n", 1000)*c.Mem/1000
	return c
}

func runLong(x *vh.Ctx, c longCase) error {
	k := codecs[c.Codec]
	u := newUniverse(k, c.Seed, c.N+2*c.Open, false)
	n := len(u.ids) - 2*c.Open
	d := k.Dec(u.s, c.Mem)
	r := vh.NewRng(c.Seed ^ 0x10f6)
	// what the decoder remembers
	var fifo []int
	known := map[int]bool{}
	learn := func(i int) {
		known[i] = true
		fifo = append(fifo, i)
		if len(fifo) > c.Mem {
			delete(known, fifo[0])
			fifo = fifo[1:]
		}
	}
	expect := func(opn int, what string, l []decodedTx, want ...int) error {
		if len(l) != len(want) {
			return vh.Fail("wrong-report", "%s: operation %d, %s: %d transactions reported, expected %d (memory %d)", c.Codec, opn, what, len(l), len(want), c.Mem)
		}
		for j, g := range l {
			i, ok := u.at[g.c]
			if !ok {
				return vh.Fail("not-genuine", "%s: operation %d, %s: reported content %x", c.Codec, opn, what, g.c)
			}
			if i != want[j] {
				return vh.Fail("wrong-report", "%s: operation %d, %s: transaction %d reported, expected %d", c.Codec, opn, what, i, want[j])
			}
		}
		return nil
	}
	// codewords that wait for the last transactions
	type pending struct {
		s    stub
		a, b int
	}
	var open []pending
	for i := 0; i < c.Open; i++ {
		a, b := n+2*i, n+2*i+1
		s, l := d.AddCW(u.cw([]int{a, b}))
		if err := expect(-1, "a codeword of two unknown", l); err != nil {
			return err
		}
		open = append(open, pending{s, a, b})
	}
	next, forgot := 0, 0
	for opn := 0; next < n; opn++ {
		i := next
		if next > 0 && r.Intn(100) < c.Repeat {
			back := 1 + r.Intn(c.Mem*3/2)
			if back > next {
				back = 1 + r.Intn(next)
			}
			i = next - back
			if !known[i] {
				forgot++
			}
		} else {
			next++
		}
		if r.Intn(100) < c.CWPct {
			// alone or together with one that is known
			set := []int{i}
			if len(fifo) > 0 && r.Intn(3) == 0 {
				if j := fifo[r.Intn(len(fifo))]; j != i {
					set = append(set, j)
				}
			}
			s, l := d.AddCW(u.cw(set))
			var want []int
			if !known[i] {
				want = []int{i}
				learn(i)
			}
			if err := expect(opn, "a codeword", l, want...); err != nil {
				return err
			}
			if !s.Decoded() {
				return vh.Fail("not-decoded", "%s: operation %d: a codeword with one unknown member is not decoded", c.Codec, opn)
			}
		} else {
			l := d.AddTx(u.txs[i])
			if !known[i] {
				learn(i)
			}
			if err := expect(opn, "a transaction", l); err != nil {
				return err
			}
		}
		if opn%64 == 0 {
			j := r.Intn(next)
			if has, ok := d.Has(u.txs[j]); ok && has != known[j] {
				return vh.Fail("wrong-membership", "%s: operation %d: HasDecoded says %v for transaction %d, memory %d", c.Codec, opn, has, j, c.Mem)
			}
		}
	}
	for j, o := range open {
		if o.s.Decoded() {
			return vh.Fail("decoded-early", "%s: a codeword of two unknown transactions counts as decoded", c.Codec)
		}
		l := d.AddTx(u.txs[o.a])
		learn(o.a)
		want := []int{o.b}
		learn(o.b)
		if err := expect(j, "what a codeword was waiting for", l, want...); err != nil {
			return err
		}
		if !o.s.Decoded() {
			return vh.Fail("not-decoded", "%s: a codeword with all but one member known is not decoded", c.Codec)
		}
	}
	x.NonTrivial()
	x.TagIf(forgot > 0, "decoded-anew")
	x.TagIf(c.Mem > 65536, "memory-above-65536")
	x.Add("transactions", n)
	return nil
}

// ---------------------------------------------------------------- C07, C08

type wideCase struct {
	Codec  string
	Seed   uint64
	WS     int
	Fill   int // percentage of the window
	Deg    []uint64
	Repeat int
}

func genWide(t *rapid.T) wideCase {
	c := wideCase{Codec: vh.OneOf(t, "codec", codecNames...), Seed: vh.Seed(t), WS: vh.OneOf(t, "ws", 256, 1000, 5000, 20000, 70000),
		Fill: vh.OneOf(t, "fill", 50, 100, 170, 320), Repeat: vh.OneOf(t, "repeat", 0, 20)}
	for i := 0; i < 4; i++ {
		c.Deg = append(c.Deg, vh.OneOf(t, "deg", 1, 300, uint64(c.WS/2), uint64(c.WS-1), uint64(c.WS), hugeDegree))
	}
	return c
}

func runWide(prop string) func(x *vh.Ctx, c wideCase) error {
	return func(x *vh.Ctx, c wideCase) error {
		k := codecs[c.Codec]
		u := newUniverse(k, c.Seed, c.WS*c.Fill/100, false)
		n := len(u.ids)
		d := &degDist{degs: c.Deg}
		e := k.Enc(int64(c.Seed), u.s, d, c.WS)
		r := vh.NewRng(c.Seed ^ 0x31de)
		num := map[uint32]int{}
		for i, h := range u.salt {
			num[h] = i
		}
		look := func(added int) error {
			first := max(0, added-c.WS)
			want := int(min(c.Deg[d.calls%len(c.Deg)], uint64(added-first)))
			w := e.Produce()
			seen := map[int]bool{}
			var sum content
			for _, m := range w.Members() {
				i, ok := num[m]
				if !ok || i < first || i >= added {
					return vh.Fail("member-not-in-window", "%s: window %d: %08x is transaction %d, the window is %d to %d", c.Codec, c.WS, m, i, first, added-1)
				}
				if seen[i] {
					return vh.Fail("doubled-member", "%s: window %d: transaction %d", c.Codec, c.WS, i)
				}
				seen[i] = true
				for j := range sum {
					sum[j] ^= u.of[i][j]
				}
			}
			if len(seen) != want {
				return vh.Fail("wrong-degree", "%s: window %d with %d transactions: degree %d, expected %d", c.Codec, c.WS, added-first, len(seen), want)
			}
			if prop == "C07" && w.Payload() != sum {
				return vh.Fail("wrong-payload", "%s: the payload of a codeword of degree %d is not the sum of its members", c.Codec, len(seen))
			}
			return nil
		}
		looks := 0
		for i := 0; i < n; i++ {
			if !e.Add(u.txs[i]) {
				return vh.Fail("not-accepted", "%s: new transaction %d, window %d", c.Codec, i, c.WS)
			}
			if r.Intn(100) < c.Repeat {
				j := max(0, i-r.Intn(c.WS))
				if e.Add(u.txs[j]) {
					return vh.Fail("accepted-twice", "%s: transaction %d after %d, window %d", c.Codec, j, i, c.WS)
				}
			}
			if i == n-1 || r.Intn(n) < 6 || i == c.WS-1 || i == c.WS {
				if err := look(i + 1); err != nil {
					return err
				}
				looks++
			}
		}
		// what has left the window is new again
		if n > c.WS {
			j := r.Intn(n - c.WS)
			if !e.Add(u.txs[j]) {
				return vh.Fail("not-accepted", "%s: transaction %d has left the window of %d", c.Codec, j, c.WS)
			}
		}
		x.NonTrivial()
		x.TagIf(c.WS > 65536, "window-above-65536")
		x.Add("codewords", looks)
		return nil
	}
}

// ---------------------------------------------------------------- C14

func runWideBlock(x *vh.Ctx, c blockCase) error {
	u, h, known, late := c.setup()
	n := len(u.ids)
	h.max = 2*n + 100
	need, distinct, unknown, err := receive(u, h, known, late)
	if err != nil {
		return err
	}
	if need < 0 {
		return vh.Fail("too-many-codewords", "%s: a block of %d (%d known) not recovered from %d received codewords", c.Codec, n, len(known), h.max)
	}
	if len(late) == 0 && distinct < unknown {
		return vh.Fail("impossible-recovery", "%s: %d unknown transactions recovered from %d distinct codewords", c.Codec, unknown, distinct)
	}
	x.NonTrivial()
	x.Add("percent-overhead", 100*need/n)
	return nil
}

// ---------------------------------------------------------------- C18, C19

type crowdCase struct {
	Seed   uint64
	N      int
	Spread int64
	Bounce int // percentage of messages that are sent on
	Chunks int
	Self   bool // every message goes to its sender
	Burst  int  `json:",omitempty"` // the first delivery makes its handler send so many
}

type crowdMod struct {
	i   int
	run func(m *crowdMod, p any, from des.Module, at time.Duration) []des.OutgoingMessage
}

func (m *crowdMod) HandleMessage(p any, from des.Module, at time.Duration) []des.OutgoingMessage {
	return m.run(m, p, from, at)
}

func runCrowd(prop string) func(x *vh.Ctx, c crowdCase) error {
	return func(x *vh.Ctx, c crowdCase) error {
		type msg struct {
			at  time.Duration
			seq int
		}
		s := &des.Simulator{}
		r := vh.NewRng(c.Seed)
		var due []msg // by sequence number
		var log []msg
		sent := 0
		var bad error
		mods := make([]*crowdMod, 1+c.Seed%3)
		send := func(now time.Duration) des.OutgoingMessage {
			d := time.Duration(r.Uint64() % uint64(c.Spread))
			due = append(due, msg{now + d, sent})
			sent++
			o := des.OutgoingMessage{Payload: sent - 1, Delay: d}
			if !c.Self {
				o.To = mods[r.Intn(len(mods))]
			}
			return o
		}
		for i := range mods {
			mods[i] = &crowdMod{i: i}
		}
		run := func(m *crowdMod, p any, from des.Module, at time.Duration) []des.OutgoingMessage {
			i, ok := p.(int)
			if !ok || i < 0 || i >= len(due) {
				bad = vh.Fail("wrong-payload", "%v", p)
				return nil
			}
			if due[i].at != at && bad == nil {
				bad = vh.Fail("wrong-delivery", "message %d of %d delivered at %d, due at %d", i, c.N, at, due[i].at)
			}
			log = append(log, msg{at, i})
			if len(log) == 1 && c.Burst > 0 {
				out := make([]des.OutgoingMessage, c.Burst)
				for j := range out {
					out[j] = send(at)
				}
				return out
			}
			if r.Intn(100) < c.Bounce {
				return []des.OutgoingMessage{send(at)}
			}
			return nil
		}
		for _, m := range mods {
			m.run = run
		}
		for i := 0; i < c.N; i++ {
			s.ScheduleMessage(send(0), mods[i%len(mods)])
		}
		for i := 0; i < c.Chunks; i++ {
			bound := time.Duration(c.Spread * int64(i+1) / int64(c.Chunks+1))
			s.RunUntil(bound)
			if prop == "C19" {
				if s.EventsQueued() != sent-len(log) || s.EventsDelivered() != len(log) || s.Drained() != (sent == len(log)) {
					return vh.Fail("wrong-counters", "queued %d delivered %d, expected %d, %d", s.EventsQueued(), s.EventsDelivered(), sent-len(log), len(log))
				}
				done := make([]bool, sent)
				for _, l := range log {
					done[l.seq] = true
				}
				for i, d := range due {
					if d.at <= bound && !done[i] {
						return vh.Fail("wrong-count", "run until %d: message %d, due at %d, is not delivered", bound, i, d.at)
					}
				}
				over := 0
				for _, l := range log {
					if l.at > bound {
						over++
					}
				}
				if over > i+1 {
					return vh.Fail("wrong-count", "%d messages past the bound %d delivered", over, bound)
				}
			}
		}
		s.Run()
		if bad != nil {
			return bad
		}
		if len(log) != sent {
			return vh.Fail("wrong-count", "%d messages delivered, %d sent", len(log), sent)
		}
		// in order of time, then of sending
		if !sort.SliceIsSorted(log, func(i, j int) bool {
			return log[i].at < log[j].at || log[i].at == log[j].at && log[i].seq < log[j].seq
		}) {
			return vh.Fail("wrong-delivery", "%d messages are not delivered in order of time and sending", sent)
		}
		seen := make([]bool, sent)
		for _, l := range log {
			if seen[l.seq] {
				return vh.Fail("wrong-count", "message %d delivered twice", l.seq)
			}
			seen[l.seq] = true
		}
		x.NonTrivial()
		x.Add("deliveries", sent)
		return nil
	}
}

// ---------------------------------------------------------------- C09

type reachCase struct {
	Codec   string
	Seed    uint64
	WS, Deg int
	Turn    int // percentage of the window that had other transactions before
}

const reachBuckets = 50

// runReach: in a window of thousands every stretch of positions is drawn from equally often.
func runReach(x *vh.Ctx, c reachCase) error {
	k := codecs[c.Codec]
	u := newUniverse(k, c.Seed, c.WS+c.WS*c.Turn/100, false)
	e := k.Enc(int64(c.Seed), u.s, &degDist{degs: []uint64{uint64(c.Deg)}}, c.WS)
	pos := map[uint32]int{}
	first := max(0, len(u.txs)-c.WS)
	for i := range u.txs {
		e.Add(u.txs[i])
		if i >= first {
			pos[u.salt[i]] = i - first
		}
	}
	n := len(pos)
	trials := 60000/c.Deg + 1
	var cnt [reachBuckets]int
	// distances between members picked together, modulo the window
	var dist [reachBuckets]int
	dists := 0
	hit := make([]bool, n)
	for i := 0; i < trials; i++ {
		w := e.Produce().Members()
		var at []int
		for _, h := range w {
			p, ok := pos[h]
			if !ok {
				return vh.Fail("member-not-in-window", "%s: identifier %08x, window %d", c.Codec, h, c.WS)
			}
			cnt[p*reachBuckets/n]++
			hit[p] = true
			at = append(at, p)
		}
		// each member in one pair only
		r := vh.NewRng(c.Seed + uint64(i))
		for j := len(at) - 1; j > 0; j-- {
			m := r.Intn(j + 1)
			at[j], at[m] = at[m], at[j]
		}
		for j := 0; j+1 < len(at); j += 2 {
			dist[((at[j]-at[j+1]+n)%n-1)*reachBuckets/(n-1)]++
			dists++
		}
	}
	judge := func(what string, cnt []int, total int) error {
		chi := 0.0
		for b, v := range cnt {
			// the exact number of positions in the bucket
			w := 0
			if what == "positions" {
				w = (n*(b+1)+reachBuckets-1)/reachBuckets - (n*b+reachBuckets-1)/reachBuckets
			} else {
				w = ((n-1)*(b+1)+reachBuckets-1)/reachBuckets - ((n-1)*b+reachBuckets-1)/reachBuckets
			}
			all := n
			if what != "positions" {
				all = n - 1
			}
			ex := float64(total) * float64(w) / float64(all)
			chi += (float64(v) - ex) * (float64(v) - ex) / ex
		}
		if z := zChi(chi, reachBuckets-1); z > zLimit {
			return vh.Fail("not-uniform", "%s window %d degree %d: %d members by %s in %d equal ranges: %v (z=%.1f)", c.Codec, n, c.Deg, total, what, reachBuckets, cnt, z)
		}
		return nil
	}
	total := 0
	for _, v := range cnt {
		total += v
	}
	if err := judge("positions", cnt[:], total); err != nil {
		return err
	}
	// no position is out of reach
	missed := 0
	for _, h := range hit {
		if !h {
			missed++
		}
	}
	q := math.Pow(1-float64(c.Deg)/float64(n), float64(trials))
	if m := float64(n) * q; math.Abs(float64(missed)-m) > 9*math.Sqrt(m+1)+20 {
		return vh.Fail("out-of-reach", "%s window %d degree %d: %d positions are in none of %d codewords, expected %.0f", c.Codec, n, c.Deg, missed, trials, m)
	}
	if dists > 20*reachBuckets {
		if err := judge("distances", dist[:], dists); err != nil {
			return err
		}
	}
	x.NonTrivial()
	x.Add("codewords", trials)
	return nil
}

// ---------------------------------------------------------------- C11

type hubCase struct {
	Codec  string
	Seed   uint64
	Shape  string
	N      int
	Order  string // in which the codewords come
	FromCW bool   // the first transaction comes as a codeword
}

// runHub: thousands of codewords that hang together become decodable by one transaction.
func runHub(x *vh.Ctx, c hubCase) error {
	k := codecs[c.Codec]
	u := newUniverse(k, c.Seed, c.N, false)
	n := len(u.ids)
	r := vh.NewRng(c.Seed ^ 0x40b)
	var sets [][]int
	// reach[i]: codewords after which transaction i follows from transaction 0
	switch c.Shape {
	case "star": // one transaction in all of them
		for i := 1; i < n; i++ {
			sets = append(sets, []int{0, i})
		}
	case "chain":
		for i := 1; i < n; i++ {
			sets = append(sets, []int{i - 1, i})
		}
	case "tree":
		for i := 1; i < n; i++ {
			sets = append(sets, []int{r.Intn(i), i})
		}
	case "shared": // many codewords of the same two
		for i := 0; i < n; i++ {
			sets = append(sets, []int{0, 1 + r.Intn(2)})
		}
		sets = append(sets, []int{0, 1}, []int{0, 2})
		n = 3
	case "wide": // one of nearly all, and a star
		all := []int{}
		for i := 1; i < n; i++ {
			all = append(all, i)
		}
		sets = append(sets, all)
		for i := 1; i < n-1; i++ {
			sets = append(sets, []int{0, i})
		}
	}
	for _, s := range sets {
		for i := len(s) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			s[i], s[j] = s[j], s[i]
		}
	}
	switch c.Order {
	case "back":
		for i, j := 0, len(sets)-1; i < j; i, j = i+1, j-1 {
			sets[i], sets[j] = sets[j], sets[i]
		}
	case "random":
		for i := len(sets) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			sets[i], sets[j] = sets[j], sets[i]
		}
	}
	d := k.Dec(u.s, 2*c.N+10)
	var stubs []stub
	for _, s := range sets {
		st, l := d.AddCW(u.cw(s))
		if len(l) != 0 || st.Decoded() {
			return vh.Fail("decoded-early", "%s %s of %d: %d transactions from codewords of two and more unknown", c.Codec, c.Shape, n, len(l))
		}
		stubs = append(stubs, st)
	}
	var l []decodedTx
	want := n - 1
	if c.FromCW {
		_, l = d.AddCW(u.cw([]int{0}))
		want = n
	} else {
		l = d.AddTx(u.txs[0])
	}
	seen := map[int]bool{}
	for _, g := range l {
		i, ok := u.at[g.c]
		if !ok || i == 0 && !c.FromCW || i >= n {
			return vh.Fail("not-genuine", "%s %s of %d: reported content %x", c.Codec, c.Shape, n, g.c)
		}
		if seen[i] {
			return vh.Fail("reported-twice", "%s %s of %d: transaction %d", c.Codec, c.Shape, n, i)
		}
		seen[i] = true
	}
	if len(l) != want {
		return vh.Fail("incomplete", "%s %s of %d: %d transactions follow, %d reported", c.Codec, c.Shape, n, want, len(l))
	}
	for i, st := range stubs {
		if !st.Decoded() {
			return vh.Fail("not-decoded", "%s %s of %d: codeword %d of %d members has all members known", c.Codec, c.Shape, n, i, len(sets[i]))
		}
	}
	x.NonTrivial()
	x.Tag("shape-" + c.Shape)
	x.Add("transactions", n)
	return nil
}

func init() {
	crowd := func(t *rapid.T) crowdCase {
		return crowdCase{Seed: vh.Seed(t), N: vh.OneOf(t, "n", 3000, 20000, 70000), Spread: vh.OneOf[int64](t, "spread", 1, 7, 1000, 1<<40), Bounce: vh.OneOf(t, "bounce", 0, 30, 60), Chunks: vh.Uniform(t, "chunks", 4), Self: vh.Uniform(t, "self", 3) == 0,
			Burst: vh.OneOf(t, "burst", 0, 300, 5000, 70000)}
	}
	wideBlock := func(t *rapid.T) blockCase {
		c := blockCase{Codec: vh.OneOf(t, "codec", codecNames...), Seed: vh.Seed(t), K: vh.OneOf(t, "k", 700, 2000, 6000)}
		c.Known = vh.OneOf(t, "known", 0, 0, c.K/3, c.K*9/10)
		c.LossPct = vh.OneOf(t, "loss", 0, 50)
		c.Reorder = vh.OneOf(t, "reorder", 0, 50)
		return c
	}
	for _, p := range props {
		switch p.ID {
		case "C01":
			p.Subs = append(p.Subs, vh.NewSub("huge", 4, func(t *rapid.T) setCase {
				return setCase{Kind: vh.OneOf(t, "kind", "val", "ptr", "slice"), Seed: vh.Seed(t), Remote: vh.OneOf(t, "remote", 0, 30000, 50000), Local: vh.OneOf(t, "local", 0, 20000, 50000),
					Common: vh.OneOf(t, "common", 0, 1000, 80000), Schedule: vh.OneOf(t, "schedule", 3000, 999, -1), Extra: 2, Dense: vh.Uniform(t, "dense", 2) == 0}
			}, func(x *vh.Ctx, c setCase) error {
				return withKind(c.Kind, func(k kind[valSym]) error { return runC01(x, k, c) },
					func(k kind[*ptrSym]) error { return runC01(x, k, c) }, func(k kind[sliceSym]) error { return runC01(x, k, c) })
			}).T(20))
		case "C05":
			p.Subs = append(p.Subs, vh.NewSub("worn", 14, func(t *rapid.T) reuseCase {
				c := genReuse(t)
				c.First.Remote, c.First.Local, c.First.Common = vh.OneOf(t, "r", 0, 3000, 20000), vh.OneOf(t, "l", 0, 3000, 9000), vh.OneOf(t, "k", 0, 2000, 30000)
				c.Cells1, c.First.Schedule, c.First.Dense = vh.OneOf(t, "c1", 0, 1, 12, 50, 100, 4000, 12000, 40000), vh.OneOf(t, "s1", -1, 999), vh.Uniform(t, "dense", 2) == 0
				return c
			}, func(x *vh.Ctx, c reuseCase) error {
				return withKind(c.First.Kind, func(k kind[valSym]) error { return runReuse(x, k, c) },
					func(k kind[*ptrSym]) error { return runReuse(x, k, c) }, func(k kind[sliceSym]) error { return runReuse(x, k, c) })
			}).T(100))
		case "C07", "C08":
			p.Subs = append(p.Subs, vh.NewSub("wide", 25, genWide, runWide(p.ID)).T(200))
		case "C10", "C12":
			p.Subs = append(p.Subs, vh.NewSub("long", 25, genLong, runLong).T(200))
		case "C09":
			p.Subs = append(p.Subs, vh.NewSub("reach", 16, func(t *rapid.T) reachCase {
				c := reachCase{Codec: vh.OneOf(t, "codec", codecNames...), Seed: vh.Seed(t), WS: vh.OneOf(t, "ws", 400, 3000, 20000, 70000), Turn: vh.OneOf(t, "turn", 0, 30, 130)}
				c.Deg = vh.OneOf(t, "deg", 1, 2, 50, 300, c.WS/4)
				return c
			}, runReach).T(200))
		case "C11":
			p.Subs = append(p.Subs, vh.NewSub("hub", 25, func(t *rapid.T) hubCase {
				c := hubCase{Codec: vh.OneOf(t, "codec", codecNames...), Seed: vh.Seed(t), Shape: vh.OneOf(t, "shape", "star", "chain", "tree", "shared", "wide"),
					N: vh.OneOf(t, "n", 300, 3000, 20000, 70000), Order: vh.OneOf(t, "order", "forth", "back", "random"), FromCW: vh.Uniform(t, "cw", 2) == 0}
				if c.Shape == "wide" {
					c.N = min(c.N, 20000) // peeling takes quadratic time
				}
				return c
			}, runHub).T(200))
		case "C14":
			p.Subs = append(p.Subs, vh.NewSub("wide", 20, wideBlock, runWideBlock).T(200))
		case "C18", "C19":
			p.Subs = append(p.Subs, vh.NewSub("crowd", 12, crowd, runCrowd(p.ID)).T(100))
		}
	}
}
