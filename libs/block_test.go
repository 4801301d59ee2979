package libs

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/ldpc"
	"github.com/yangl1996/soliton"
	"pgregory.net/rapid"
	"verif/vh"
)

// ---------------------------------------------------------------- C14

type blockCase struct {
	Codec   string
	Seed    uint64
	K       int
	Known   int // transactions the receiver has beforehand
	Late    int // transactions it gets from elsewhere midway
	LossPct int
	DupPct  int
	Reorder int // reordering buffer
	Prior   int // size of a block that the encoder was used for before
}

func soliton95(seed int64, k int) dist {
	return soliton.NewRobustSoliton(rand.New(rand.NewSource(seed)), uint64(k), 0.03, 0.5)
}

func blockCap(k int) int { return 40*k + 400 }

// channel is the received sequence, produced on demand.
type channel struct {
	c       blockCase
	produce func() codeword
	max     int
	r       *vh.Rng
	made    []codeword
	buf     []int
	ids     []int // received codewords, as indices into made
}

func (h *channel) at(n int) (codeword, int, bool) {
	if n >= h.max {
		return nil, 0, false
	}
	for len(h.ids) <= n {
		h.made = append(h.made, h.produce())
		i := len(h.made) - 1
		if h.r.Intn(100) < h.c.LossPct {
			continue
		}
		h.buf = append(h.buf, i)
		if h.r.Intn(100) < h.c.DupPct {
			h.buf = append(h.buf, i)
		}
		for len(h.buf) > h.c.Reorder {
			j := h.r.Intn(len(h.buf))
			h.ids = append(h.ids, h.buf[j])
			h.buf = append(h.buf[:j], h.buf[j+1:]...)
		}
	}
	return h.made[h.ids[n]].Clone(), h.ids[n], true
}

// receive feeds the sequence to a fresh decoder; it returns how many codewords
// were needed to know the whole block (-1: not recovered) and how many
// distinct ones they were.
func receive(u *universe, h *channel, known, late []int) (need, distinct, distinctInf int, err error) {
	d := u.k.Dec(u.s, 1<<30)
	have := map[int]bool{}
	got := func(l []decodedTx) error {
		for _, g := range l {
			i, ok := u.at[g.c]
			if !ok {
				return vh.Fail("not-genuine", "%s: reported content %x", u.k.Name(), g.c)
			}
			have[i] = true
		}
		return nil
	}
	add := func(set []int) error {
		for _, i := range set {
			have[i] = true
			if err := got(d.AddTx(u.txs[i])); err != nil {
				return err
			}
		}
		return nil
	}
	if err = add(known); err != nil {
		return
	}
	start := len(have)
	seen := map[int]bool{}
	for n := 0; ; n++ {
		if len(have) == len(u.ids) {
			return n, len(seen), len(u.ids) - start, nil
		}
		if n == len(u.ids)/2 && len(late) > 0 {
			start0 := len(have)
			if err = add(late); err != nil {
				return
			}
			start += len(have) - start0
			if len(have) == len(u.ids) {
				return n, len(seen), -1, nil
			}
		}
		w, id, ok := h.at(n)
		if !ok {
			return -1, len(seen), len(u.ids) - start, nil
		}
		seen[id] = true
		_, l := d.AddCW(w)
		if err = got(l); err != nil {
			return
		}
	}
}

func (c blockCase) setup() (*universe, *channel, []int, []int) {
	k := codecs[c.Codec]
	u := newUniverse(k, c.Seed, c.K, false)
	n := len(u.ids)
	dist := soliton95(int64(c.Seed)+1, n)
	var e encoder
	if c.Prior == 0 {
		e = k.Enc(int64(c.Seed), u.s, dist, n)
	} else {
		old := newUniverse(k, c.Seed^0x01d, c.Prior, false)
		e = k.Enc(int64(c.Seed), u.s, soliton95(int64(c.Seed)+2, len(old.ids)), len(old.ids))
		for _, t := range old.txs {
			e.Add(t)
		}
		for i := c.Seed % 7; i > 0; i-- {
			e.Produce()
		}
		e.Reset(dist, n)
	}
	for _, t := range u.txs {
		e.Add(t)
	}
	h := &channel{c: c, produce: e.Produce, max: blockCap(n), r: vh.NewRng(c.Seed ^ 0xc4a)}
	perm := vh.NewRng(c.Seed ^ 0x9e).Perm(n)
	kn := min(c.Known, n)
	lt := min(kn+c.Late, n)
	return u, h, perm[:kn], perm[kn:lt]
}

func runBlock(x *vh.Ctx, c blockCase) error {
	u, h, known, late := c.setup()
	n := len(u.ids)
	need, distinct, unknown, err := receive(u, h, known, late)
	if err != nil {
		return err
	}
	if need < 0 {
		return vh.Fail("not-recovered", "%s: a block of %d (%d known) not recovered from %d received codewords", c.Codec, n, len(known), h.max)
	}
	if len(late) == 0 && distinct < unknown {
		return vh.Fail("impossible-recovery", "%s: %d unknown transactions recovered from %d distinct codewords", c.Codec, unknown, distinct)
	}
	if n > 3 && len(known) < n {
		x.NonTrivial()
	}
	x.TagIf(c.LossPct > 0 || c.DupPct > 0 || c.Reorder > 0, "imperfect-channel")
	x.TagIf(len(known) > 0, "prior-knowledge")
	x.TagIf(c.Prior > 0, "encoder-reused")
	// the same codewords with less prior knowledge can only take longer
	if len(known)+len(late) > 0 {
		less, _, _, err := receive(u, h, known[:len(known)/2], nil)
		if err != nil {
			return err
		}
		if less >= 0 && less < need {
			return vh.Fail("knowledge-costs", "%s: block of %d: %d codewords needed knowing %d (and %d more midway), only %d knowing %d", c.Codec, n, need, len(known), len(late), less, len(known)/2)
		}
	}
	return u.checkIntact("coding a block")
}

// runAverage: the mean number of received codewords is a small multiple of
// the block size, and of the unknown part with prior knowledge.
func runAverage(x *vh.Ctx, c blockCase) error {
	const runs = 40
	tot, totKnown := 0, 0
	n := 0
	for i := 0; i < runs; i++ {
		ci := c
		ci.Seed = c.Seed*1000 + uint64(i)
		u, h, known, _ := ci.setup()
		n += len(u.ids)
		need, _, _, err := receive(u, h, nil, nil)
		if err != nil {
			return err
		}
		if need < 0 {
			return vh.Fail("not-recovered", "%s: block of %d", c.Codec, len(u.ids))
		}
		tot += need
		need, _, _, err = receive(u, h, known, nil)
		if err != nil {
			return err
		}
		totKnown += need
	}
	x.NonTrivial()
	x.Add("blocks", 2*runs)
	lim := averageLimit(c.K, c.DupPct)
	ratio := float64(tot) / float64(n)
	x.Add(fmt.Sprintf("percent-overhead-k%d", c.K/50*50), int(100*ratio))
	x.Add(fmt.Sprintf("percent-overhead-k%d-n", c.K/50*50), 1)
	if ratio > lim {
		return vh.Fail("too-many-codewords", "%s: blocks of %d need %.2f received codewords per transaction on average over %d runs (limit %.2f)", c.Codec, c.K, ratio, runs, lim)
	}
	if totKnown > tot {
		return vh.Fail("knowledge-costs", "%s: %d codewords with prior knowledge, %d without", c.Codec, totKnown, tot)
	}
	return nil
}

func averageLimit(k, dup int) float64 {
	// measured: 1.23-1.32 (k=200), 1.31-1.38 (100), 1.39-1.50 (50),
	// 1.43-1.58 (30), 1.47-1.66 (15), 1.46-1.78 (8)
	l := 1.6
	if k < 12 {
		l = 2.6
	} else if k < 25 {
		l = 2.3
	} else if k < 60 {
		l = 1.9
	}
	return l * (1 + float64(dup)/100)
}

// ---------------------------------------------------------------- C15

// runShareCW drives two decoders, one of which gets the caller's own objects
// (shared and repeated), the other private copies; they must agree, and the
// caller's objects must stay as they were.
func runShareCW(x *vh.Ctx, c decCase) error {
	k := codecs[c.Codec]
	u := newUniverse(k, c.Seed, c.N, c.Collide)
	n := len(u.ids)
	d0, d1 := k.Dec(u.s, c.Mem), k.Dec(u.s, 1<<30)
	p0, p1 := k.Dec(u.s, c.Mem), k.Dec(u.s, 1<<30)
	// codewords really produced by an encoder, so that they share whatever
	// the encoder shares with its window
	dd := &recDist{}
	e := k.Enc(int64(c.Seed), u.s, dd, max(1, n/2+1))
	r := vh.NewRng(c.Seed ^ 0xdec)
	type snap struct {
		w    codeword
		m    []uint32
		load content
	}
	var shared []snap
	var reported []decodedTx
	size := 0
	cmp := func(opn int, what string, a, b []decodedTx) error {
		if len(a) != len(b) {
			return vh.Fail("sharing-changes-result", "%s op %d (%s): a decoder given shared objects reports %d transactions, one given private copies %d", c.Codec, opn, what, len(a), len(b))
		}
		ca, cb := map[content]int{}, map[content]int{}
		for i := range a {
			ca[a[i].c]++
			cb[b[i].c]++
		}
		for g, v := range ca {
			if cb[g] != v {
				return vh.Fail("sharing-changes-result", "%s op %d (%s): reports differ: content %x", c.Codec, opn, what, g)
			}
		}
		reported = append(reported, a...)
		return nil
	}
	verify := func(opn int, what string) error {
		for i, s := range shared {
			if s.w.Payload() != s.load || fmt.Sprint(s.w.Members()) != fmt.Sprint(s.m) {
				return vh.Fail("codeword-modified", "%s op %d (%s): the caller's codeword %d changed", c.Codec, opn, what, i)
			}
		}
		return u.checkIntact(what)
	}
	for opn, o := range c.ops() {
		var w codeword
		switch o.Op {
		case "cw":
			w, _ = u.make(decOp{Set: uniq(o.Set, n), Bad: o.Bad}, r)
			if o.Bad == 0 && len(o.Set) > 0 && r.Intn(3) == 0 && size > 0 {
				dd.next = uint64(len(o.Set))
				w = e.Produce()
			}
		case "dup":
			if o.I >= len(shared) {
				continue
			}
			w = shared[o.I].w
			x.Tag("reused")
		case "add":
			if o.I >= n {
				continue
			}
			if e.Add(u.txs[o.I]) {
				size++
			}
			fresh := k.Tx(u.ids[o.I])
			if err := cmp(opn, "add", d0.AddTx(u.txs[o.I]), p0.AddTx(fresh)); err != nil {
				return err
			}
			if opn%2 == 0 {
				if err := cmp(opn, "add", d1.AddTx(u.txs[o.I]), p1.AddTx(k.Tx(u.ids[o.I]))); err != nil {
					return err
				}
			}
			if len(reported) > 0 && opn%3 == 0 {
				// a reported transaction is passed on, as applications do
				g := reported[r.Intn(len(reported))]
				id, ok := u.at[g.c]
				if !ok {
					return vh.Fail("not-genuine", "%s: reported content %x", c.Codec, g.c)
				}
				if e.Add(g.tx) {
					size++
				}
				if err := cmp(opn, "pass on", d1.AddTx(g.tx), p1.AddTx(k.Tx(u.ids[id]))); err != nil {
					return err
				}
				x.Tag("passed-on")
			}
			if err := verify(opn, "adding a transaction"); err != nil {
				return err
			}
			continue
		default:
			continue
		}
		if o.Op == "cw" {
			shared = append(shared, snap{w, w.Members(), w.Payload()})
		}
		priv0, priv1 := w.Clone(), w.Clone()
		_, a0 := d0.AddCW(w)
		_, b0 := p0.AddCW(priv0)
		if err := cmp(opn, o.Op, a0, b0); err != nil {
			return err
		}
		if opn%3 != 2 {
			_, a1 := d1.AddCW(w)
			_, b1 := p1.AddCW(priv1)
			if err := cmp(opn, o.Op+" second decoder", a1, b1); err != nil {
				return err
			}
			x.NonTrivial()
		}
		if err := verify(opn, "adding a codeword"); err != nil {
			return err
		}
	}
	for _, g := range reported {
		if k.Content(g.tx) != g.c {
			return vh.Fail("reported-data-modified", "%s: a reported transaction's content changed later", c.Codec)
		}
		if _, ok := u.at[g.c]; !ok {
			return vh.Fail("not-genuine", "%s: reported content %x", c.Codec, g.c)
		}
	}
	x.Tag(c.Codec)
	return nil
}

// ---------------------------------------------------------------- C16

type freeCase struct {
	Seed    uint64
	N       int
	Mem     int
	Decs    int
	Rounds  int // repeat the history this often with fresh decoders (recycling)
	Bad     bool
	Collide bool
	Bulk    *bulk   `json:",omitempty"`
	Ops     []decOp // cw, dup, add, free (I: codeword)
	FreePct int
}

func (c freeCase) ops() []decOp {
	if c.Bulk == nil {
		return c.Ops
	}
	base := decCase{Seed: c.Seed, N: c.N, Bulk: c.Bulk}.ops()
	r := vh.NewRng(c.Seed ^ 0xf4ee)
	var out []decOp
	cws := 0
	for _, o := range base {
		out = append(out, o)
		if o.Op == "cw" || o.Op == "dup" {
			cws++
		}
		for cws > 0 && r.Intn(100) < c.FreePct {
			i := r.Intn(cws)
			if r.Intn(2) == 0 && cws > 10 {
				i = cws - 1 - r.Intn(10)
			}
			out = append(out, decOp{Op: "free", I: i})
		}
	}
	return out
}

// freeRun drives one decoder with releases against a twin without any.
func freeRun(c freeCase, u *universe, useTwin bool, step func()) (x map[string]bool, err error) {
	x = map[string]bool{}
	defer func() {
		if p := recover(); p != nil {
			if v, ok := p.(*vh.Violation); ok {
				err = v
				return
			}
			err = vh.Fail("panic", "%v", p)
		}
	}()
	n := len(u.ids)
	mem := c.Mem
	d := ldpc.NewDecoder(u.s, mem)
	var twin *ldpc.Decoder
	if useTwin {
		twin = ldpc.NewDecoder(u.s, mem)
	}
	r := vh.NewRng(c.Seed ^ 0xdec)
	type entry struct {
		set   map[int]bool // members unknown
		bad   bool
		freed bool
		cw    *ldpc.PendingCodeword
		twin  *ldpc.PendingCodeword
	}
	var cws []*entry
	known := map[int]bool{}
	var fifo []int
	push := func(i int) {
		known[i] = true
		fifo = append(fifo, i)
		for len(fifo) > mem {
			delete(known, fifo[0])
			fifo = fifo[1:]
		}
	}
	var made []codeword
	var sets [][]int
	var bads []bool
	// judge walks the reports in order, checking each against the codewords
	// that could have yielded it
	judge := func(opn int, got []ldpc.DecodedTransaction, want []ldpc.DecodedTransaction) error {
		if useTwin && !c.Collide {
			if len(got) != len(want) {
				return vh.Fail("release-changes-result", "op %d: %d transactions decoded, %d when nothing is released", opn, len(got), len(want))
			}
			a, b := map[content]bool{}, map[content]bool{}
			for i := range got {
				a[contentOf(got[i].Serialized())] = true
				b[contentOf(want[i].Serialized())] = true
			}
			for k := range a {
				if !b[k] {
					return vh.Fail("release-changes-result", "op %d: decoded transactions differ from a run that releases nothing", opn)
				}
			}
		}
		for _, g := range got {
			cc := contentOf(g.Serialized())
			i, ok := u.at[cc]
			if !ok {
				return vh.Fail("not-genuine", "op %d: reported content %x", opn, cc)
			}
			if c.Collide {
				continue
			}
			freed, live := 0, 0
			for _, e := range cws {
				if !e.bad && len(e.set) == 1 && e.set[i] {
					if e.freed {
						freed++
					} else {
						live++
					}
				}
			}
			if freed+live == 0 {
				return vh.Fail("wrong-closure", "op %d: transaction %d reported although no codeword yields it", opn, i)
			}
			if g.Expired && freed == 0 {
				return vh.Fail("wrongly-expired", "op %d: transaction %d is flagged expired, but none of the %d codewords that yield it was released", opn, i, live)
			}
			if !g.Expired && live == 0 {
				return vh.Fail("not-expired", "op %d: transaction %d is not flagged expired, but all %d codewords that yield it were released", opn, i, freed)
			}
			if g.Expired {
				x["expired"] = true
			}
			for _, e := range cws {
				delete(e.set, i)
			}
			push(i)
		}
		if c.Collide {
			return nil
		}
		for _, e := range cws {
			if !e.bad && len(e.set) == 1 {
				return vh.Fail("wrong-closure", "op %d: a codeword with one unknown member did not yield it", opn)
			}
		}
		for i, e := range cws {
			if e.bad || e.freed {
				continue
			}
			if e.cw.Decoded() != (len(e.set) == 0) {
				return vh.Fail("wrong-flag", "op %d: codeword %d (not released) flagged decoded=%v with %d unknown members", opn, i, e.cw.Decoded(), len(e.set))
			}
			if useTwin && e.cw.Decoded() != e.twin.Decoded() {
				return vh.Fail("release-changes-result", "op %d: codeword %d flagged decoded=%v, %v when nothing is released", opn, i, e.cw.Decoded(), e.twin.Decoded())
			}
		}
		return nil
	}
	for opn, o := range c.ops() {
		if step != nil {
			step()
		}
		switch o.Op {
		case "cw", "dup":
			var w codeword
			var set []int
			var bad bool
			if o.Op == "dup" {
				if o.I >= len(made) {
					continue
				}
				w, set, bad = made[o.I], sets[o.I], bads[o.I]
			} else {
				set = uniq(o.Set, n)
				if c.Collide {
					var s2 []int
					have := map[uint32]bool{}
					for _, i := range set {
						if !have[u.salt[i]] {
							have[u.salt[i]] = true
							s2 = append(s2, i)
						}
					}
					set = s2
				}
				if !c.Bad {
					o.Bad = 0
				}
				w, bad = u.make(decOp{Set: set, Bad: o.Bad}, r)
				made, sets, bads = append(made, w), append(sets, set), append(bads, bad)
			}
			e := &entry{set: map[int]bool{}, bad: bad}
			for _, i := range set {
				if !known[i] {
					e.set[i] = true
				}
			}
			cws = append(cws, e)
			var got, want []ldpc.DecodedTransaction
			e.cw, got = d.AddCodeword(w.(ldpcCW).c)
			if useTwin {
				e.twin, want = twin.AddCodeword(w.(ldpcCW).c)
			}
			if err := judge(opn, got, want); err != nil {
				return x, err
			}
		case "add":
			if o.I >= n {
				continue
			}
			var want []ldpc.DecodedTransaction
			tx := u.txs[o.I].(*ldpc.Transaction)
			if !known[o.I] {
				push(o.I)
				for _, e := range cws {
					delete(e.set, o.I)
				}
			}
			got := d.AddTransaction(tx)
			if useTwin {
				want = twin.AddTransaction(tx)
			}
			if err := judge(opn, got, want); err != nil {
				return x, err
			}
		case "free":
			if o.I >= len(cws) || cws[o.I].freed {
				continue
			}
			e := cws[o.I]
			x["released"] = true
			if len(e.set) > 0 {
				x["released-pending"] = true
			}
			e.freed = true
			e.cw.Free()
			e.cw = nil
		}
	}
	return x, nil
}

func runFree(x *vh.Ctx, c freeCase) error {
	u := newUniverse(codecs["ldpc"], c.Seed, c.N, c.Collide)
	for round := 0; round < c.Rounds; round++ {
		tags, err := freeRun(c, u, true, nil)
		for t := range tags {
			x.Tag(t)
		}
		if tags["released-pending"] {
			x.NonTrivial()
		}
		if err != nil {
			return err
		}
	}
	return u.checkIntact("decoding")
}

// runFreeMany drives several decoders, interleaved step by step in one
// goroutine (deterministic) or concurrently, all recycling through the same
// pools.
func runFreeMany(concurrent bool) func(x *vh.Ctx, c freeCase) error {
	return func(x *vh.Ctx, c freeCase) error {
		us := make([]*universe, c.Decs)
		cs := make([]freeCase, c.Decs)
		for i := range us {
			cs[i] = c
			cs[i].Seed = c.Seed + uint64(i)*7919
			us[i] = newUniverse(codecs["ldpc"], cs[i].Seed, c.N, false)
		}
		errs := make([]error, c.Decs)
		tags := make([]map[string]bool, c.Decs)
		var wg sync.WaitGroup
		if concurrent {
			for i := range us {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					for round := 0; round < c.Rounds && errs[i] == nil; round++ {
						tags[i], errs[i] = freeRun(cs[i], us[i], false, nil)
					}
				}(i)
			}
			wg.Wait()
		} else {
			// a token passes from decoder to decoder in a pseudorandom order
			r := vh.NewRng(c.Seed ^ 0x57e9)
			turn := make([]chan bool, c.Decs)
			back := make(chan bool)
			alive := make([]bool, c.Decs)
			for i := range us {
				turn[i] = make(chan bool)
				alive[i] = true
				go func(i int) {
					<-turn[i]
					for round := 0; round < c.Rounds && errs[i] == nil; round++ {
						tags[i], errs[i] = freeRun(cs[i], us[i], false, func() { back <- true; <-turn[i] })
					}
					back <- false
				}(i)
			}
			for left := c.Decs; left > 0; {
				i := r.Intn(c.Decs)
				if !alive[i] {
					continue
				}
				turn[i] <- true
				if !<-back {
					alive[i] = false
					left--
				}
			}
		}
		for i := range errs {
			if errs[i] != nil {
				return errs[i]
			}
			for t := range tags[i] {
				x.Tag(t)
			}
			if tags[i]["released-pending"] {
				x.NonTrivial()
			}
		}
		return nil
	}
}

func genFree(maxN, maxOps int, collide bool) func(t *rapid.T) freeCase {
	return func(t *rapid.T) freeCase {
		base := genDec(decShape{maxN: maxN, maxOps: maxOps, mem: "small", bad: true, collide: collide, codecs: []string{"ldpc"}})(t)
		c := freeCase{Seed: base.Seed, N: base.N, Mem: base.Mem, Decs: 1, Rounds: 1 + vh.Uniform(t, "rounds", 2), Collide: collide}
		if vh.Uniform(t, "bigMem", 2) == 0 {
			c.Mem = 1 << 30
		}
		c.Bad = vh.Uniform(t, "bad", 3) == 0
		cws := 0
		for _, o := range base.Ops {
			if o.Op == "has" {
				o.Op = "free"
			}
			c.Ops = append(c.Ops, o)
			if o.Op == "cw" || o.Op == "dup" {
				cws++
			}
			if cws > 0 && vh.Uniform(t, "free", 3) == 0 {
				c.Ops = append(c.Ops, decOp{Op: "free", I: vh.Uniform(t, "which", cws)})
			}
		}
		return c
	}
}

func genFreeBulk(decs int) func(t *rapid.T) freeCase {
	return func(t *rapid.T) freeCase {
		base := genBulk(decShape{maxN: 150, mem: "small", bad: true})(t)
		c := freeCase{Seed: base.Seed, N: base.N, Mem: base.Mem, Bulk: base.Bulk, Decs: 1, Rounds: 1 + vh.Uniform(t, "rounds", 3)}
		if decs > 1 {
			c.Decs = 2 + vh.Uniform(t, "decs", decs-1)
			c.N = min(c.N, 60)
		}
		c.Bad = vh.Uniform(t, "bad", 3) == 0
		c.FreePct = vh.OneOf(t, "freePct", 5, 30, 60)
		return c
	}
}

// ---------------------------------------------------------------- C17

type txCase struct {
	Seed  uint64
	Sizes []int // inputs parsed one after the other into the same object
	Same  int   // every Same-th input repeats the first one's bytes
}

func identity(t *ldpc.Transaction, s salt) uint32 {
	e := ldpc.NewEncoder(s, &degDist{degs: []uint64{1}}, 1)
	e.AddTransaction(t)
	return e.ProduceCodeword().Members[0]
}

func txInput(r *vh.Rng, size int) []byte {
	b := make([]byte, size)
	switch r.Intn(6) {
	case 0: // zeros
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2:
		if size > 0 {
			b[r.Intn(size)] = byte(1 + r.Intn(255))
		}
	default:
		r.Bytes(b)
	}
	return b
}

func runParse(x *vh.Ctx, c txCase) error {
	r := vh.NewRng(c.Seed)
	s := saltOf(c.Seed % 9)
	obj := &ldpc.Transaction{}
	current := make([]byte, ldpc.TxSize) // what obj must hold
	var parsed bool
	var first []byte
	var firstID uint32
	ids := map[uint32]string{}
	for n, size := range c.Sizes {
		in := txInput(r, size)
		if size == ldpc.TxSize && first != nil && c.Same > 0 && n%c.Same == 0 {
			copy(in, first)
		}
		orig := append([]byte{}, in...)
		if r.Intn(2) == 0 && size < 1000 { // parse from the middle of a larger buffer
			big := make([]byte, size+300)
			r.Bytes(big)
			copy(big[57:], in)
			in = big[57 : 57+size]
		}
		before := append([]byte{}, obj.Serialized()...)
		idBefore := identity(obj, s)
		err := obj.UnmarshalBinary(in)
		if size != ldpc.TxSize {
			var de ldpc.DataSizeError
			if err == nil {
				return vh.Fail("accepted-wrong-size", "an input of %d bytes was accepted", size)
			}
			if !errors.As(err, &de) {
				return vh.Fail("wrong-error", "an input of %d bytes was rejected with %T (%v), not a size error", size, err, err)
			}
			if !bytes.Equal(obj.Serialized(), before) || identity(obj, s) != idBefore {
				return vh.Fail("target-changed", "a rejected input of %d bytes changed the target", size)
			}
			x.Tag("rejected")
			continue
		}
		if err != nil {
			return vh.Fail("rejected-right-size", "an input of %d bytes was rejected: %v", size, err)
		}
		if !bytes.Equal(in, orig) {
			return vh.Fail("input-changed", "parsing changed its input")
		}
		for i := range in {
			in[i] ^= byte(1 + r.Intn(255)) // the caller reuses its buffer
		}
		copy(current, orig)
		parsed = true
		if !bytes.Equal(obj.Serialized(), orig) {
			return vh.Fail("wrong-serialisation", "parsed bytes do not serialise back")
		}
		fresh := &ldpc.Transaction{}
		if err := fresh.UnmarshalBinary(orig); err != nil {
			return vh.Fail("rejected-right-size", "%v", err)
		}
		id := identity(obj, s)
		if identity(fresh, s) != id {
			return vh.Fail("identity-depends-on-history", "a reused object has identity %08x, a fresh one with the same bytes %08x", id, identity(fresh, s))
		}
		if o, ok := ids[id]; ok && o != string(orig) {
			return vh.Fail("identity-ignores-bytes", "two different transactions have identity %08x", id)
		}
		ids[id] = string(orig)
		if first == nil {
			first, firstID = orig, id
		} else if bytes.Equal(first, orig) && id != firstID {
			return vh.Fail("identity-depends-on-history", "the same bytes have identities %08x and %08x", firstID, id)
		} else if bytes.Equal(first, orig) {
			x.Tag("repeat")
		}
		if p := new(ldpc.Transaction); true { // end to end: a peer recovers the bytes
			*p = *obj
			e := ldpc.NewEncoder(s, &degDist{degs: []uint64{1}}, 1)
			e.AddTransaction(p)
			_, got := ldpc.NewDecoder(s, 10).AddCodeword(e.ProduceCodeword())
			if len(got) != 1 || !bytes.Equal(got[0].Serialized(), orig) {
				return vh.Fail("not-decodable", "a parsed transaction coded alone does not decode to itself")
			}
		}
		if !bytes.Equal(obj.Serialized(), current) {
			return vh.Fail("serialisation-unstable", "serialised bytes changed without parsing")
		}
	}
	if parsed && len(c.Sizes) > 1 {
		x.NonTrivial()
	}
	return nil
}

type xorCase struct {
	Seed uint64
	N    int
}

func runXOR(x *vh.Ctx, c xorCase) error {
	r := vh.NewRng(c.Seed)
	var v []ldpc.TransactionData
	for i := 0; i < c.N; i++ {
		var d ldpc.TransactionData
		copy(d[:], txInput(r, len(d)))
		v = append(v, d)
	}
	xor := func(a, b ldpc.TransactionData) (ldpc.TransactionData, error) {
		a0, b0 := a, b
		a.XOR(&b)
		if b != b0 {
			return a, vh.Fail("argument-changed", "XOR changed its argument")
		}
		for i := range a {
			if a[i] != a0[i]^b0[i] {
				return a, vh.Fail("not-bytewise", "byte %d: %02x ^ %02x gave %02x", i, a0[i], b0[i], a[i])
			}
		}
		return a, nil
	}
	for i := 0; i+2 < len(v); i++ {
		ab, err := xor(v[i], v[i+1])
		if err != nil {
			return err
		}
		ba, err := xor(v[i+1], v[i])
		if err != nil {
			return err
		}
		abc, err := xor(ab, v[i+2])
		if err != nil {
			return err
		}
		bc, err := xor(v[i+1], v[i+2])
		if err != nil {
			return err
		}
		abc2, err := xor(v[i], bc)
		if err != nil {
			return err
		}
		back, err := xor(ab, v[i+1])
		if err != nil {
			return err
		}
		if ab != ba || abc != abc2 || back != v[i] {
			return vh.Fail("not-an-xor", "commutativity, associativity or self-inverse fails")
		}
		self := v[i]
		self.XOR(&self) // aliased
		if self != (ldpc.TransactionData{}) {
			return vh.Fail("not-an-xor", "XOR with itself is not zero")
		}
		// inside a larger, misaligned buffer
		buf := make([]byte, 2*ldpc.TxSize+16)
		off := r.Intn(8)
		pa := (*ldpc.TransactionData)(buf[off:])
		pb := (*ldpc.TransactionData)(buf[off+ldpc.TxSize:])
		*pa, *pb = v[i], v[i+1]
		buf[off+2*ldpc.TxSize] = 0x5a
		pa.XOR(pb)
		if *pa != ab || *pb != v[i+1] || buf[off+2*ldpc.TxSize] != 0x5a {
			return vh.Fail("not-bytewise", "XOR at offset %d of a buffer is wrong", off)
		}
	}
	x.NonTrivial()
	return nil
}

type parCase struct {
	Seed    uint64
	Workers int
	Each    int
}

func runParallelParse(x *vh.Ctx, c parCase) error {
	s := saltOf(5)
	inputs := make([][][]byte, c.Workers)
	want := make([][]uint32, c.Workers)
	for w := range inputs {
		r := vh.NewRng(c.Seed + uint64(w))
		for i := 0; i < c.Each; i++ {
			b := txInput(r, ldpc.TxSize)
			t := &ldpc.Transaction{}
			if err := t.UnmarshalBinary(b); err != nil {
				return vh.Fail("rejected-right-size", "%v", err)
			}
			inputs[w] = append(inputs[w], b)
			want[w] = append(want[w], identity(t, s))
		}
	}
	errs := make([]error, c.Workers)
	var wg sync.WaitGroup
	for w := range inputs {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			obj := &ldpc.Transaction{}
			for i, b := range inputs[w] {
				if i%3 == 0 {
					obj = &ldpc.Transaction{}
				}
				if i%5 == 0 {
					obj.UnmarshalBinary(b[:100])
				}
				if err := obj.UnmarshalBinary(b); err != nil {
					errs[w] = vh.Fail("rejected-right-size", "%v", err)
					return
				}
				if id := identity(obj, s); id != want[w][i] {
					errs[w] = vh.Fail("identity-depends-on-history", "parsing concurrently gives identity %08x, alone %08x", id, want[w][i])
					return
				}
				if !bytes.Equal(obj.Serialized(), b) {
					errs[w] = vh.Fail("wrong-serialisation", "parsing concurrently corrupts the bytes")
					return
				}
			}
		}(w)
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	x.NonTrivial()
	return nil
}

type switchCase struct {
	Seed    uint64
	Procs   int
	Workers int
	Millis  int
}

// runSwitching: more goroutines parse than there are processors, for long
// enough that they are interrupted in the middle of it.
func runSwitching(x *vh.Ctx, c switchCase) error {
	s := saltOf(5)
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(c.Procs))
	const each = 5
	r := vh.NewRng(c.Seed)
	inputs := make([][][]byte, c.Workers)
	want := make([][]*ldpc.Encoder, c.Workers) // each holds what the input alone parses to
	wantID := make([][]uint32, c.Workers)
	for w := range inputs {
		for i := 0; i < each; i++ {
			b := txInput(r, ldpc.TxSize)
			t := &ldpc.Transaction{}
			if err := t.UnmarshalBinary(b); err != nil {
				return vh.Fail("rejected-right-size", "%v", err)
			}
			e := ldpc.NewEncoder(s, &degDist{degs: []uint64{1}}, 1)
			e.AddTransaction(t)
			inputs[w] = append(inputs[w], b)
			want[w] = append(want[w], e)
			wantID[w] = append(wantID[w], identity(t, s))
		}
	}
	errs := make([]error, c.Workers)
	total := make([]int, c.Workers)
	end := time.Now().Add(time.Duration(c.Millis) * time.Millisecond)
	var wg sync.WaitGroup
	for w := range inputs {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			obj := &ldpc.Transaction{}
			for n := 0; ; n++ {
				if n%64 == 0 && !time.Now().Before(end) {
					return
				}
				i := n % each
				if n%8 == 0 {
					obj = &ldpc.Transaction{}
				}
				if err := obj.UnmarshalBinary(inputs[w][i]); err != nil {
					errs[w] = vh.Fail("rejected-right-size", "%v", err)
					return
				}
				total[w]++
				if !bytes.Equal(obj.Serialized(), inputs[w][i]) {
					errs[w] = vh.Fail("wrong-serialisation", "parsing concurrently corrupts the bytes")
					return
				}
				if want[w][i].AddTransaction(obj) { // not the one it holds
					errs[w] = vh.Fail("identity-depends-on-history", "among %d parsing goroutines on %d processors the same bytes have identity %08x, alone %08x", c.Workers, c.Procs, identity(obj, s), wantID[w][i])
					return
				}
			}
		}(w)
	}
	wg.Wait()
	n := 0
	for w, e := range errs {
		if e != nil {
			return e
		}
		n += total[w]
	}
	x.NonTrivial()
	x.Add("parsed", n)
	return nil
}

func init() {
	genBlock := func(maxK int) func(t *rapid.T) blockCase {
		return func(t *rapid.T) blockCase {
			c := blockCase{Codec: vh.OneOf(t, "codec", codecNames...), Seed: vh.Seed(t), K: 1 + vh.Uniform(t, "k", 25)}
			if vh.Uniform(t, "large", 2) == 1 {
				c.K = 1 + vh.Uniform(t, "k2", 250)*maxK/250
			}
			c.Known = vh.OneOf(t, "known", 0, 0, 1, c.K/4, c.K/2, c.K-1, c.K)
			c.Late = vh.OneOf(t, "late", 0, 0, 0, 1, c.K/3)
			c.LossPct = vh.OneOf(t, "loss", 0, 10, 50, 90)
			c.DupPct = vh.OneOf(t, "dup", 0, 0, 20, 100)
			c.Reorder = vh.OneOf(t, "reorder", 0, 0, 3, 50)
			c.Prior = vh.OneOf(t, "prior", 0, 0, 1, 1+c.K/4, 4*c.K)
			return c
		}
	}
	avg := vh.NewSub("average", 60, func(t *rapid.T) blockCase {
		c := blockCase{Codec: vh.OneOf(t, "codec", codecNames...), Seed: vh.Seed(t), K: vh.OneOf(t, "k", 8, 15, 30, 50, 100, 200)}
		c.Known = vh.OneOf(t, "known", c.K/4, c.K/2, c.K*9/10)
		c.LossPct = vh.OneOf(t, "loss", 0, 50)
		c.Reorder = vh.OneOf(t, "reorder", 0, 10)
		c.Prior = vh.OneOf(t, "prior", 0, 1+c.K/8, 4*c.K)
		return c
	}, runAverage).T(600)
	props = append(props,
		&vh.Property{ID: "C14", Rule: "a block of at least four transactions, not all known beforehand, was recovered (averages: always)",
			Assumptions: []string{"modest means at most 40k+400 received codewords in any single case, and on average over 40 blocks at most 1.6 to 2.6 per transaction depending on the block size; exceeding the first bound has negligible probability", "robust soliton parameters as used in the repository (c=0.03, delta=0.5)"},
			Subs: []*vh.Sub{
				vh.NewSub("blocks", 500, genBlock(300), runBlock).T(5000), avg,
			}},
		&vh.Property{ID: "C15", Rule: "the same codeword object was given to two decoders",
			Assumptions: []string{"an ldpc reported transaction may be added elsewhere but is not written to by the caller"},
			Subs: []*vh.Sub{
				vh.NewSub("sharing", 5000, genDec(decShape{maxN: 10, maxOps: 45, mem: "small", bad: true}), runShareCW).T(50000),
				vh.NewSub("bulk", 120, genBulk(decShape{maxN: 120, mem: "small", bad: true}), runShareCW).T(1200),
				vh.NewSub("wide", 60, genBroad(decShape{maxN: 600, mem: "small", bad: true}), runShareCW).T(600),
			}},
		&vh.Property{ID: "C16", Rule: "a codeword was released while it still had unknown members",
			Assumptions: []string{"each codeword is released at most once and not used afterwards, as the API demands", "when several codewords could have yielded a transaction, the flag is judged only if all or none of them were released", "concurrent schedules are those the Go scheduler happens to produce; the interleaved check adds deterministic ones"},
			Subs: []*vh.Sub{
				vh.NewSub("release", 6000, genFree(10, 45, false), runFree).T(60000),
				vh.NewSub("release-colliding", 1000, genFree(12, 40, true), runFree).T(10000),
				vh.NewSub("bulk", 150, genFreeBulk(1), runFree).T(1500),
				vh.NewSub("interleaved", 150, genFreeBulk(5), runFreeMany(false)).T(1500),
				vh.NewSub("concurrent", 100, genFreeBulk(8), runFreeMany(true)).T(1000).Iso(),
			}},
		&vh.Property{ID: "C17", Rule: "at least one input was accepted among several parsed into the same object (XOR and concurrent checks: always)",
			Subs: []*vh.Sub{
				vh.NewSub("parse", 4000, func(t *rapid.T) txCase {
					c := txCase{Seed: vh.Seed(t), Same: rapid.IntRange(0, 4).Draw(t, "same")}
					n := 1 + vh.Uniform(t, "n", 12)
					for i := 0; i < n; i++ {
						switch vh.Uniform(t, "sizeClass", 4) {
						case 0:
							c.Sizes = append(c.Sizes, vh.OneOf(t, "size", 0, 1, 64, 127, 129, 120, 136, 256, 255))
						case 1:
							c.Sizes = append(c.Sizes, rapid.IntRange(0, 4096).Draw(t, "anySize"))
						default:
							c.Sizes = append(c.Sizes, ldpc.TxSize)
						}
					}
					return c
				}, runParse).T(40000),
				vh.NewSub("xor", 1500, func(t *rapid.T) xorCase {
					return xorCase{vh.Seed(t), 3 + vh.Uniform(t, "n", 10)}
				}, runXOR).T(15000),
				vh.NewSub("concurrent", 60, func(t *rapid.T) parCase {
					return parCase{vh.Seed(t), 2 + vh.Uniform(t, "workers", 15), 20 + vh.Uniform(t, "each", 200)}
				}, runParallelParse).T(600).Iso(),
				vh.NewSub("switching", 16, func(t *rapid.T) switchCase {
					return switchCase{vh.Seed(t), vh.OneOf(t, "procs", 1, 2, 4), 4 + vh.Uniform(t, "workers", 12), vh.OneOf(t, "ms", 150, 400)}
				}, runSwitching).T(100).Iso(),
			}},
	)
}
