package libs

import (
	"fmt"
	"sort"

	"pgregory.net/rapid"
	"verif/vh"
)

// ---------------------------------------------------------------- cases

type decOp struct {
	Op  string // cw, dup (an earlier codeword again), add, has
	Set []int  `json:",omitempty"` // members of a codeword
	I   int    `json:",omitempty"` // transaction (add, has) or earlier codeword (dup)
	Bad int    `json:",omitempty"` // 0 sound; 1 random corruption; 2 payload has one more transaction; 3 payload lacks one; 4 zero payload; 5 payload of another set
}

type decCase struct {
	Codec   string
	Seed    uint64
	N       int
	Mem     int
	Collide bool
	Bulk    *bulk `json:",omitempty"`
	Ops     []decOp
}

// bulk describes a longer history derived from the seed.
type bulk struct {
	Ops    int
	Avg    int // typical codeword degree
	AddPct int
	DupPct int
	HasPct int
	BadPct int
	HotPct int // members drawn from a small moving neighbourhood
}

func pickSet(r *vh.Rng, n, deg int, hot bool, at int) []int {
	var out []int
	seen := map[int]bool{}
	if deg > n {
		deg = n
	}
	span := n
	base := 0
	if hot {
		span = deg + 3
		if span > n {
			span = n
		}
		base = at
	}
	for len(out) < deg {
		i := (base + r.Intn(span)) % n
		if !seen[i] {
			seen[i] = true
			out = append(out, i)
		}
	}
	return out
}

func (c decCase) ops() []decOp {
	if c.Bulk == nil {
		return c.Ops
	}
	b := c.Bulk
	r := vh.NewRng(c.Seed ^ 0xb01c)
	var ops []decOp
	cws := 0
	for i := 0; i < b.Ops; i++ {
		p := r.Intn(100)
		at := i * c.N / b.Ops
		switch {
		case p < b.AddPct:
			ops = append(ops, decOp{Op: "add", I: (at + r.Intn(c.N)) % c.N})
		case p < b.AddPct+b.DupPct && cws > 0:
			ops = append(ops, decOp{Op: "dup", I: r.Intn(cws)})
		case p < b.AddPct+b.DupPct+b.HasPct:
			ops = append(ops, decOp{Op: "has", I: r.Intn(c.N)})
		default:
			deg := 1
			for deg < 3*b.Avg && r.Intn(b.Avg+1) != 0 {
				deg++
			}
			o := decOp{Op: "cw", Set: pickSet(r, c.N, deg, r.Intn(100) < b.HotPct, at)}
			if r.Intn(100) < b.BadPct {
				o.Bad = 1 + r.Intn(5)
			}
			cws++
			ops = append(ops, o)
		}
	}
	return ops
}

type decShape struct {
	maxN, maxOps int
	mem          string // big, small
	bad, collide bool
	codecs       []string
}

func genDec(sh decShape) func(t *rapid.T) decCase {
	if sh.codecs == nil {
		sh.codecs = codecNames
	}
	return func(t *rapid.T) decCase {
		c := decCase{Codec: vh.OneOf(t, "codec", sh.codecs...), Seed: vh.Seed(t), N: 2 + vh.Uniform(t, "n", sh.maxN-1)}
		c.Mem = 1 << 30
		if sh.mem == "small" {
			switch vh.Uniform(t, "memClass", 6) {
			case 0:
				c.Mem = 0
			case 1:
				c.Mem = 1
			case 2:
				c.Mem = 1 << 30
			default:
				c.Mem = 1 + vh.Uniform(t, "mem", c.N)
			}
		}
		if sh.collide {
			c.Collide = true
			if c.N < 4 {
				c.N = 4
			}
		}
		n := 1 + vh.Uniform(t, "nops", sh.maxOps)
		cws := 0
		for i := 0; i < n; i++ {
			switch p := vh.Uniform(t, "op", 16); {
			case p < 3:
				c.Ops = append(c.Ops, decOp{Op: "add", I: vh.Uniform(t, "tx", c.N)})
			case p < 4 && cws > 0:
				c.Ops = append(c.Ops, decOp{Op: "dup", I: vh.Uniform(t, "cw", cws)})
			case p < 5:
				c.Ops = append(c.Ops, decOp{Op: "has", I: vh.Uniform(t, "tx", c.N)})
			default:
				o := decOp{Op: "cw"}
				deg := vh.OneOf(t, "deg", 1, 1, 2, 2, 2, 3, 3, 4, 6, c.N, 0)
				seen := map[int]bool{}
				for j := 0; j < deg; j++ {
					i := vh.Uniform(t, "m", c.N)
					if !seen[i] {
						seen[i] = true
						o.Set = append(o.Set, i)
					}
				}
				if sh.bad && vh.Uniform(t, "isBad", 4) == 0 {
					o.Bad = 1 + vh.Uniform(t, "bad", 5)
				}
				cws++
				c.Ops = append(c.Ops, o)
			}
		}
		return c
	}
}

func genBulk(sh decShape) func(t *rapid.T) decCase {
	if sh.codecs == nil {
		sh.codecs = codecNames
	}
	return func(t *rapid.T) decCase {
		c := decCase{Codec: vh.OneOf(t, "codec", sh.codecs...), Seed: vh.Seed(t), N: rapid.IntRange(5, sh.maxN).Draw(t, "n"), Mem: 1 << 30}
		if vh.Uniform(t, "wide", 2) == 0 {
			c.N = 5 + vh.Uniform(t, "n2", 250)*sh.maxN/260
		}
		if sh.mem == "small" {
			c.Mem = vh.OneOf(t, "memFrac", 1, 2, 3, c.N/10, c.N/4, c.N/2, c.N-1, c.N)
		}
		c.Collide = sh.collide
		b := &bulk{
			Ops:    c.N * (1 + vh.Uniform(t, "opsPerTx", 5)),
			Avg:    vh.OneOf(t, "avg", 2, 3, 5, 8),
			AddPct: vh.OneOf(t, "add", 0, 2, 10, 40),
			DupPct: vh.OneOf(t, "dup", 0, 3, 20),
			HasPct: vh.OneOf(t, "has", 0, 5),
			HotPct: vh.OneOf(t, "hot", 0, 50, 90),
		}
		if sh.bad {
			b.BadPct = vh.OneOf(t, "bad", 2, 10, 40)
		}
		c.Bulk = b
		return c
	}
}

// genBroad makes codewords that list a good part of all transactions.
func genBroad(sh decShape) func(t *rapid.T) decCase {
	return func(t *rapid.T) decCase {
		c := genBulk(sh)(t)
		c.N = max(c.N, 200)
		c.Mem = vh.OneOf(t, "wideMem", 1<<30, 1<<30, c.N/2)
		c.Bulk.Avg = vh.OneOf(t, "wideAvg", c.N/8, c.N/3, c.N/2)
		c.Bulk.Ops = 20 + vh.Uniform(t, "wideOps", 100)
		c.Bulk.AddPct = vh.OneOf(t, "wideAdd", 10, 60, 90)
		return c
	}
}

// ---------------------------------------------------------------- model

// decModel is the reference decoder: sets of members still unknown, and a
// FIFO of remembered transactions.
type mcw struct {
	rem  map[int]bool
	bad  bool // its payload is wrong: explains nothing
	done bool // bad and given up
}

type decModel struct {
	mem   int
	fifo  []int
	known map[int]bool
	cws   []*mcw
	by    map[int]map[*mcw]bool // pending codewords by unknown member
}

func newModel(mem int) *decModel {
	return &decModel{mem: mem, known: map[int]bool{}, by: map[int]map[*mcw]bool{}}
}

func (m *decModel) push(i int) {
	m.fifo = append(m.fifo, i)
	m.known[i] = true
	for len(m.fifo) > m.mem {
		delete(m.known, m.fifo[0])
		m.fifo = append([]int{}, m.fifo[1:]...)
	}
}

// arrive adds a codeword and returns the transactions it makes decodable.
func (m *decModel) arrive(set []int, bad bool) []int {
	c := &mcw{rem: map[int]bool{}, bad: bad}
	m.cws = append(m.cws, c)
	for _, i := range set {
		if !m.known[i] {
			c.rem[i] = true
			if m.by[i] == nil {
				m.by[i] = map[*mcw]bool{}
			}
			m.by[i][c] = true
		}
	}
	return m.cascade([]*mcw{c})
}

// learn removes i from all pending codewords and returns what follows.
func (m *decModel) learn(i int) []int { return m.cascade(m.peel(i)) }

func (m *decModel) peel(i int) (ready []*mcw) {
	for c := range m.by[i] {
		delete(c.rem, i)
		if len(c.rem) <= 1 {
			ready = append(ready, c)
		}
	}
	delete(m.by, i)
	return
}

func (m *decModel) cascade(q []*mcw) (out []int) {
	for len(q) > 0 {
		c := q[len(q)-1]
		q = q[:len(q)-1]
		if c.bad || len(c.rem) != 1 {
			continue
		}
		for i := range c.rem {
			out = append(out, i)
			q = append(q, m.peel(i)...)
		}
	}
	sort.Ints(out)
	return
}

// batch computes, by plain fixpoint, everything reachable from all sound
// codewords and direct additions (no forgetting).
func batch(ops []decOp, n int) map[int]bool {
	known := map[int]bool{}
	var sets [][]int
	for _, o := range ops {
		switch o.Op {
		case "add":
			known[o.I] = true
		case "cw":
			if o.Bad == 0 {
				sets = append(sets, o.Set)
			}
		}
	}
	for again := true; again; {
		again = false
		for _, s := range sets {
			last, cnt := 0, 0
			for _, i := range s {
				if !known[i] {
					last = i
					cnt++
				}
			}
			if cnt == 1 {
				known[last] = true
				again = true
			}
		}
	}
	return known
}

// ---------------------------------------------------------------- driver

// decRun is one decoder being driven, with what it reported.
type decRun struct {
	u     *universe
	d     decoder
	stubs []stub
	made  []codeword // codewords as handed over
	sets  [][]int
	bads  []bool
	got   []decodedTx // everything reported
}

func (u *universe) make(o decOp, r *vh.Rng) (codeword, bool) {
	w := u.cw(o.Set)
	if o.Bad == 0 || len(o.Set) == 0 && u.k.Name() != "ldpc" {
		return w, false
	}
	var x content
	width := len(x)
	if u.k.Name() != "ldpc" {
		width = ltWords
	}
	switch o.Bad {
	case 2: // one transaction too many
		x = u.of[r.Intn(len(u.of))]
	case 3: // one too few
		if len(o.Set) > 0 {
			x = u.of[o.Set[r.Intn(len(o.Set))]]
		}
	case 4:
		x = u.xor(o.Set)
	case 5:
		x = u.xor(o.Set)
		for _, i := range pickSet(r, len(u.of), 1+r.Intn(3), false, 0) {
			for j := range x {
				x[j] ^= u.of[i][j]
			}
		}
	}
	if x == (content{}) || o.Bad == 1 {
		x = content{}
		x[r.Intn(width)] = 1 << uint(r.Intn(64))
		if r.Intn(2) == 0 {
			for i := 0; i < width; i++ {
				x[i] ^= r.Uint64()
			}
		}
	}
	return w.Corrupt(x), true
}

func uniq(set []int, n int) []int {
	seen := map[int]bool{}
	var out []int
	for _, i := range set {
		if i < n && !seen[i] {
			seen[i] = true
			out = append(out, i)
		}
	}
	return out
}

type decChecks struct {
	prop    string
	closure bool // exact closure per operation
	memory  bool // FIFO model: once-only, membership
	flags   bool
	collide bool
}

// runDec drives one decoder against the model.
func runDec(ck decChecks) func(x *vh.Ctx, c decCase) error {
	return func(x *vh.Ctx, c decCase) error {
		k := codecs[c.Codec]
		u := newUniverse(k, c.Seed, c.N, c.Collide)
		n := len(u.ids)
		d := k.Dec(u.s, c.Mem)
		m := newModel(c.Mem)
		r := vh.NewRng(c.Seed ^ 0xdec)
		ops := c.ops()
		var made []codeword
		var sets [][]int
		var bads []bool
		var stubs []stub
		var reported []decodedTx
		ever := map[int]bool{}
		cascade := 0
		// judge the outcome of one operation
		judge := func(opn int, what string, got []decodedTx, want []int) error {
			var idx []int
			for _, g := range got {
				i, ok := u.at[g.c]
				if !ok {
					return vh.Fail("not-genuine", "%s op %d (%s): reported content %x which is not that of any transaction", c.Codec, opn, what, g.c)
				}
				idx = append(idx, i)
				if ck.memory && m.known[i] {
					return vh.Fail("reported-again", "%s op %d (%s): transaction %d reported although it is remembered (memory %d)", c.Codec, opn, what, i, c.Mem)
				}
				reported = append(reported, g)
				if ck.memory {
					for _, j := range idx[:len(idx)-1] {
						if j == i {
							return vh.Fail("reported-again", "%s op %d (%s): transaction %d reported twice", c.Codec, opn, what, i)
						}
					}
				}
			}
			if ck.closure {
				s := append([]int{}, idx...)
				sort.Ints(s)
				if fmt.Sprint(s) != fmt.Sprint(want) {
					return vh.Fail("wrong-closure", "%s op %d (%s): reported %v, peeling reaches exactly %v", c.Codec, opn, what, s, want)
				}
			}
			for _, i := range idx {
				if ever[i] {
					x.Tag("decoded-anew")
				}
				ever[i] = true
				m.push(i)
			}
			if len(idx) >= 2 {
				cascade++
			}
			return nil
		}
		for opn, o := range ops {
			switch o.Op {
			case "cw", "dup":
				var w codeword
				var set []int
				var bad bool
				if o.Op == "dup" {
					if o.I >= len(made) {
						continue
					}
					w, set, bad = made[o.I], sets[o.I], bads[o.I]
				} else {
					set = uniq(o.Set, n)
					if c.Collide { // an encoder never combines colliding transactions
						var s2 []int
						have := map[uint32]bool{}
						for _, i := range set {
							if !have[u.salt[i]] {
								have[u.salt[i]] = true
								s2 = append(s2, i)
							}
						}
						set = s2
					}
					w, bad = u.make(decOp{Set: set, Bad: o.Bad}, r)
				}
				made, sets, bads = append(made, w), append(sets, set), append(bads, bad)
				s, got := d.AddCW(w.Clone())
				stubs = append(stubs, s)
				want := m.arrive(set, bad)
				if err := judge(opn, fmt.Sprintf("%s %v bad=%v", o.Op, set, bad), got, want); err != nil {
					return err
				}
			case "add":
				if o.I >= n {
					continue
				}
				var want []int
				was := m.known[o.I]
				if !was {
					m.push(o.I)
					want = m.learn(o.I)
				} else if c.Collide {
					m.push(o.I)
				}
				got := d.AddTx(u.txs[o.I])
				if !was {
					for _, g := range got {
						if g.c == u.of[o.I] && ck.memory {
							return vh.Fail("reported-direct", "%s op %d: the directly supplied transaction %d was reported as decoded", c.Codec, opn, o.I)
						}
					}
				}
				if err := judge(opn, fmt.Sprintf("add %d", o.I), got, want); err != nil {
					return err
				}
			case "has":
				if o.I >= n {
					continue
				}
				if h, ok := d.Has(u.txs[o.I]); ok && ck.memory && h != m.known[o.I] {
					return vh.Fail("wrong-membership", "%s op %d: membership of transaction %d is %v; remembered are %v (memory %d)", c.Codec, opn, o.I, h, m.fifo, c.Mem)
				}
			}
			if ck.flags && (len(stubs) < 60 || opn%37 == 0 || opn == len(ops)-1) {
				for i, s := range stubs {
					if bads[i] {
						continue
					}
					if want := len(m.cws[i].rem) == 0; s.Decoded() != want {
						return vh.Fail("wrong-flag", "%s op %d: codeword %d %v is flagged decoded=%v, but its unknown members are %v", c.Codec, opn, i, sets[i], s.Decoded(), m.cws[i].rem)
					}
				}
			}
			if ck.memory && (n < 40 || opn%29 == 0) {
				for i := range u.txs {
					h, ok := d.Has(u.txs[i])
					if !ok {
						break
					}
					if h != m.known[i] {
						return vh.Fail("wrong-membership", "%s after op %d (%s): membership of transaction %d is %v; remembered are %v (memory %d)", c.Codec, opn, o.Op, i, h, m.fifo, c.Mem)
					}
				}
			}
		}
		if ck.closure && c.Mem >= n {
			ref := batch(c.opsUsed(ops, n, bads), n)
			for i := 0; i < n; i++ {
				if ref[i] != m.known[i] {
					return vh.Fail("wrong-closure", "%s: at the end transaction %d known=%v, fixpoint says %v", c.Codec, i, m.known[i], ref[i])
				}
			}
		}
		if c.Collide {
			if err := collideCheck(c, u, ops, made, sets, bads, ever); err != nil {
				return err
			}
		}
		for _, g := range reported {
			if k.Content(g.tx) != g.c {
				return vh.Fail("reported-data-modified", "%s: a reported transaction's content changed later", c.Codec)
			}
		}
		forgot := c.Mem < n && len(m.fifo) == c.Mem && len(ever) > c.Mem
		nbad := 0
		for _, b := range bads {
			if b {
				nbad++
			}
		}
		x.TagIf(cascade > 0, "cascade")
		x.TagIf(forgot, "forgets")
		x.TagIf(nbad > 0, "corrupt")
		x.Tag(c.Codec)
		x.Add("transactions-decoded", len(reported))
		switch ck.prop {
		case "C10", "C11":
			if cascade > 0 {
				x.NonTrivial()
			}
		case "C12":
			if forgot && len(reported) > 0 {
				x.NonTrivial()
			}
		case "C13":
			if (nbad > 0 || c.Collide) && len(reported) > 0 {
				x.NonTrivial()
			}
		}
		return u.checkIntact("decoding")
	}
}

// opsUsed gives the operations with the soundness of each codeword as made.
func (c decCase) opsUsed(ops []decOp, n int, bads []bool) []decOp {
	var out []decOp
	j := 0
	for _, o := range ops {
		switch o.Op {
		case "cw":
			b := 0
			if bads[j] {
				b = 1
			}
			j++
			out = append(out, decOp{Op: "cw", Set: uniq(o.Set, n), Bad: b})
		case "dup":
			if o.I < j {
				j++
			}
		case "add":
			if o.I < n {
				out = append(out, o)
			}
		}
	}
	return out
}

// collideCheck: with enough memory, everything reachable through codewords
// that involve no colliding transaction must have been learnt.
func collideCheck(c decCase, u *universe, ops []decOp, made []codeword, sets [][]int, bads []bool, ever map[int]bool) error {
	if c.Mem < 4*len(ops) {
		return nil
	}
	cnt := map[uint32]int{}
	for _, h := range u.salt {
		cnt[h]++
	}
	var clean []decOp
	for i, s := range sets {
		ok := !bads[i]
		for _, t := range s {
			if cnt[u.salt[t]] > 1 {
				ok = false
			}
		}
		if ok {
			clean = append(clean, decOp{Op: "cw", Set: s})
		}
	}
	direct := map[int]bool{}
	for _, o := range ops {
		if o.Op == "add" && o.I < len(u.ids) {
			direct[o.I] = true
			if cnt[u.salt[o.I]] == 1 {
				clean = append(clean, o)
			}
		}
	}
	for i := range batch(clean, len(u.ids)) {
		if !ever[i] && !direct[i] {
			return vh.Fail("unaffected-not-decoded", "%s: transaction %d is reachable through codewords without colliding or corrupt members but was never reported", c.Codec, i)
		}
	}
	return nil
}

// runOrder: the final known set does not depend on arrival order.
func runOrder(x *vh.Ctx, c decCase) error {
	k := codecs[c.Codec]
	u := newUniverse(k, c.Seed, c.N, false)
	n := len(u.ids)
	ops := c.ops()
	var first map[int]bool
	r := vh.NewRng(c.Seed ^ 0x0bde)
	for trial := 0; trial < 4; trial++ {
		perm := r.Perm(len(ops))
		d := k.Dec(u.s, 1<<30)
		known := map[int]bool{}
		for j := range ops {
			o := ops[j]
			if trial > 0 {
				o = ops[perm[j]]
			}
			var got []decodedTx
			switch o.Op {
			case "cw":
				_, got = d.AddCW(u.cw(uniq(o.Set, n)))
			case "add":
				if o.I < n {
					known[o.I] = true
					got = d.AddTx(u.txs[o.I])
				}
			}
			for _, g := range got {
				i, ok := u.at[g.c]
				if !ok {
					return vh.Fail("not-genuine", "%s trial %d: reported content %x", c.Codec, trial, g.c)
				}
				known[i] = true
			}
		}
		if trial == 0 {
			first = known
			if len(known) > 2 {
				x.NonTrivial()
			}
			continue
		}
		if len(known) != len(first) {
			return vh.Fail("order-dependent", "%s: %d transactions known in one order, %d in another", c.Codec, len(first), len(known))
		}
		for i := range known {
			if !first[i] {
				return vh.Fail("order-dependent", "%s: transaction %d known in one order only", c.Codec, i)
			}
		}
	}
	return nil
}

func init() {
	noColl := "transactions have distinct salted identifiers except where the check says collisions"
	c10 := decChecks{prop: "C10", memory: true}
	c11 := decChecks{prop: "C11", closure: true, memory: true, flags: true}
	c12 := decChecks{prop: "C12", closure: true, memory: true, flags: true}
	c13 := decChecks{prop: "C13", closure: true, flags: true}
	c13c := decChecks{prop: "C13", collide: true}
	props = append(props,
		&vh.Property{ID: "C10", Rule: "some operation made two or more transactions decodable at once (a peeling cascade)", Assumptions: []string{noColl},
			Subs: []*vh.Sub{
				vh.NewSub("histories", 4000, genDec(decShape{maxN: 10, maxOps: 40}), runDec(c10)).T(40000),
				vh.NewSub("small-memory", 2500, genDec(decShape{maxN: 10, maxOps: 40, mem: "small"}), runDec(c10)).T(25000),
				vh.NewSub("bulk", 150, genBulk(decShape{maxN: 300, mem: "small"}), runDec(c10)).T(1500),
				vh.NewSub("broad", 60, genBroad(decShape{maxN: 300, mem: "small"}), runDec(c10)).T(600),
				vh.NewSub("colliding", 1000, genDec(decShape{maxN: 12, maxOps: 40, mem: "small", collide: true}), runDec(decChecks{prop: "C10"})).T(10000),
			}},
		&vh.Property{ID: "C11", Rule: "some operation made two or more transactions decodable at once (a peeling cascade); for the order check, at least three transactions became known",
			Assumptions: []string{noColl},
			Subs: []*vh.Sub{
				vh.NewSub("closure", 6000, genDec(decShape{maxN: 10, maxOps: 40}), runDec(c11)).T(60000),
				vh.NewSub("bulk", 200, genBulk(decShape{maxN: 400}), runDec(c11)).T(2000),
				vh.NewSub("broad", 60, genBroad(decShape{maxN: 400}), runDec(c11)).T(600),
				vh.NewSub("order", 1500, genDec(decShape{maxN: 12, maxOps: 30}), runOrder).T(15000),
			}},
		&vh.Property{ID: "C12", Rule: "the decoder learnt more transactions than it may remember, and decoded at least one",
			Assumptions: []string{noColl, "membership queries exist only in lt; for the other codecs membership is judged by what is peeled and what is reported again"},
			Subs: []*vh.Sub{
				vh.NewSub("fifo", 7000, genDec(decShape{maxN: 9, maxOps: 50, mem: "small"}), runDec(c12)).T(70000),
				vh.NewSub("bulk", 200, genBulk(decShape{maxN: 300, mem: "small"}), runDec(c12)).T(2000),
				vh.NewSub("broad", 60, genBroad(decShape{maxN: 300, mem: "small"}), runDec(c12)).T(600),
				vh.NewSub("colliding", 3000, genNear(10, 50), runExact("C12")).T(60000),
			}},
		&vh.Property{ID: "C13", Rule: "at least one codeword was corrupt or colliding transactions were in play, and something was decoded",
			Assumptions: []string{"a corrupt payload passes the 32-bit identifier check with probability 2^-32; this is taken as never", "codewords never list the same identifier twice"},
			Subs: []*vh.Sub{
				vh.NewSub("corrupt", 6000, genDec(decShape{maxN: 10, maxOps: 45, bad: true}), runDec(c13)).T(60000),
				vh.NewSub("colliding", 4000, genDec(decShape{maxN: 12, maxOps: 45, bad: true, collide: true}), runDec(c13c)).T(40000),
				vh.NewSub("colliding-small-memory", 3000, genDec(decShape{maxN: 12, maxOps: 45, mem: "small", bad: true, collide: true}), runDec(c13c)).T(30000),
				vh.NewSub("bulk", 200, genBulk(decShape{maxN: 300, bad: true}), runDec(c13)).T(2000),
				vh.NewSub("broad", 60, genBroad(decShape{maxN: 300, bad: true}), runDec(c13)).T(600),
				vh.NewSub("exact", 4000, genNear(14, 50), runExact("C13")).T(80000),
				vh.NewSub("bulk-colliding", 100, genBulk(decShape{maxN: 100, bad: true, collide: true}), runDec(c13c)).T(1000),
			}},
	)
}
