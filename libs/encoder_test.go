package libs

import (
	"fmt"
	"math"
	"sort"
	"sync"

	"pgregory.net/rapid"
	"verif/vh"
)

// ---------------------------------------------------------------- helpers

const hugeDegree = 1 << 40

// saltOf derives a salt; 0 and 1 give the extreme ones.
func saltOf(n uint64) (s salt) {
	switch n {
	case 0:
	case 1:
		for i := range s {
			s[i] = 0xff
		}
	default:
		vh.NewRng(n).Bytes(s[:])
	}
	return
}

// salted returns the salted identifier of a transaction, learnt from a
// degree-one codeword of an encoder that holds nothing else.
func salted(k codec, s salt, id uint64) uint32 {
	e := k.Enc(1, s, &degDist{degs: []uint64{1}}, 1)
	e.Add(k.Tx(id))
	m := e.Produce().Members()
	if len(m) != 1 {
		panic(&vh.Violation{Kind: "bad-singleton", Msg: fmt.Sprintf("%s: an encoder with one transaction and degree one produced %d members", k.Name(), len(m))})
	}
	return m[0]
}

const collisionSalt = 77

var collMu sync.Mutex
var collCache = map[string][][2]uint64{}

// collisions finds pairs of transactions with equal salted identifiers.
func collisions(k codec) [][2]uint64 {
	collMu.Lock()
	defer collMu.Unlock()
	name := k.Name()
	if c, ok := collCache[name]; ok {
		return c
	}
	s := saltOf(collisionSalt)
	e := k.Enc(1, s, &degDist{degs: []uint64{1}}, 1)
	var out [][2]uint64
	for _, from := range []struct {
		id   uint64
		want int
	}{{1, 6}, {alikeHead, 8}, {alikeTail, 10}} {
		seen := map[uint32]uint64{}
		for id := from.id; id < from.id+400000 && len(out) < from.want; id++ {
			if !e.Add(k.Tx(id)) {
				continue
			}
			m := e.Produce().Members()
			if len(m) != 1 {
				break
			}
			if o, ok := seen[m[0]]; ok {
				if salted(k, s, o) == salted(k, s, id) {
					out = append(out, [2]uint64{o, id})
				}
				continue
			}
			seen[m[0]] = id
		}
	}
	collCache[name] = out
	return out
}

// universe is a numbered set of transactions with their salted identifiers.
type universe struct {
	k    codec
	s    salt
	ids  []uint64
	txs  []any
	salt []uint32
	of   []content
	at   map[content]int // content -> index
}

// newUniverse makes n transactions. With collide, the first pairs collide.
func newUniverse(k codec, seed uint64, n int, collide bool) *universe {
	u := &universe{k: k, at: map[content]int{}}
	u.s = saltOf(seed % 50)
	r := vh.NewRng(seed)
	if collide {
		u.s = saltOf(collisionSalt)
		cs := collisions(k)
		p := r.Perm(len(cs))
		for i := 0; i < len(cs) && len(u.ids)+2 <= n; i++ {
			u.ids = append(u.ids, cs[p[i]][0], cs[p[i]][1])
		}
	}
	used := map[uint64]bool{}
	for _, id := range u.ids {
		used[id] = true
	}
	used32 := map[uint32]bool{}
	base := r.Uint64()
	for i := 0; len(u.ids) < n; i++ {
		id := base + uint64(i)
		if !collide && i == 0 && seed%3 == 0 {
			id = 0 // the all-zero transaction
		} else if seed%2 == 0 {
			id = r.Uint64()
		}
		if used[id] {
			continue
		}
		used[id] = true
		u.ids = append(u.ids, id)
	}
	kept := u.ids[:0]
	for i, id := range u.ids {
		h := salted(k, u.s, id)
		if used32[h] && !collide {
			continue // an accidental collision: leave it out
		}
		used32[h] = true
		_ = i
		kept = append(kept, id)
		u.salt = append(u.salt, h)
		u.of = append(u.of, k.Of(id))
		u.at[k.Of(id)] = len(kept) - 1
		u.txs = append(u.txs, k.Tx(id))
	}
	u.ids = kept
	return u
}

func (u *universe) xor(set []int) (c content) {
	for _, i := range set {
		for w := range c {
			c[w] ^= u.of[i][w]
		}
	}
	return
}

// cw makes a sound codeword of the given transactions.
func (u *universe) cw(set []int) codeword {
	m := make([]uint32, len(set))
	for i, x := range set {
		m[i] = u.salt[x]
	}
	return u.k.Make(m, u.xor(set))
}

func (u *universe) checkIntact(what string) error {
	for i, t := range u.txs {
		if u.k.Content(t) != u.of[i] {
			return vh.Fail("caller-data-modified", "%s: the content of transaction %d changed after %s", u.k.Name(), i, what)
		}
	}
	return nil
}

// ---------------------------------------------------------------- C07: identifiers

type saltCase struct {
	Codec string
	Seed  uint64
	N     int // transactions whose identifiers are compared
}

// runSalting: an identifier is a function of salt and transaction that depends
// on every bit of the salt and spreads transactions over all of its 32 bits.
func runSalting(x *vh.Ctx, c saltCase) error {
	k := codecs[c.Codec]
	r := vh.NewRng(c.Seed)
	s := saltOf(c.Seed % 50)
	base := r.Uint64()
	id := func(i int) uint64 {
		if c.Seed%2 == 0 {
			return base + uint64(i)
		}
		return base ^ uint64(i)<<(c.Seed%40)
	}
	// (1) equal salts, equal identifiers; any flipped bit changes those of some
	const probe = 4
	var mine [probe]uint32
	for j := range mine {
		mine[j] = salted(k, s, id(j))
		if again := salted(k, s, id(j)); again != mine[j] {
			return vh.Fail("identifier-unstable", "%s: one transaction under one salt has identifiers %08x and %08x", c.Codec, mine[j], again)
		}
	}
	for b := 0; b < 8*len(s); b++ {
		f := s
		f[b/8] ^= 1 << (b % 8)
		same := 0
		for j := range mine {
			if salted(k, f, id(j)) == mine[j] {
				same++
			}
		}
		if same == probe {
			return vh.Fail("salt-ignored", "%s: flipping bit %d of the salt changes none of %d identifiers", c.Codec, b, probe)
		}
	}
	// (2) distinct transactions hardly ever collide, and every bit is used
	e := k.Enc(int64(c.Seed|1), s, &degDist{degs: []uint64{1}}, 1)
	seen := make(map[uint32]bool, c.N)
	var ones [32]int
	coll := 0
	last, have := uint32(0), false
	for i := 0; i < c.N; i++ {
		if !e.Add(k.Tx(id(i))) {
			coll++ // with the only transaction in the window
			continue
		}
		m := e.Produce().Members()
		if len(m) != 1 {
			return vh.Fail("bad-singleton", "%s: a window of one gave %d members", c.Codec, len(m))
		}
		if have && m[0] == last {
			return vh.Fail("accepted-duplicate", "%s: identifier %08x accepted twice in a row", c.Codec, last)
		}
		last, have = m[0], true
		if seen[m[0]] {
			coll++
		}
		seen[m[0]] = true
		for b := range ones {
			ones[b] += int(m[0] >> b & 1)
		}
	}
	if coll > 4+c.N*c.N>>31 {
		return vh.Fail("identifiers-collide", "%s: %d of %d distinct transactions have an identifier seen before", c.Codec, coll, c.N)
	}
	for b, n := range ones {
		if n < c.N*3/10 || n > c.N*7/10 {
			return vh.Fail("identifier-bit-skewed", "%s: bit %d is set in %d of %d identifiers", c.Codec, b, n, c.N)
		}
	}
	x.NonTrivial()
	x.Add("identifiers", c.N)
	return nil
}

// ---------------------------------------------------------------- C07, C08

type winOp struct {
	Op  string // add, produce, reset
	Tx  int    `json:",omitempty"`
	Deg uint64 `json:",omitempty"`
	WS  int    `json:",omitempty"`
}

type winCase struct {
	Codec   string
	Seed    uint64
	N       int
	WS      int
	Collide bool
	Ops     []winOp
}

func genWin(maxN, maxOps int) func(t *rapid.T) winCase {
	return func(t *rapid.T) winCase {
		c := winCase{
			Codec:   vh.OneOf(t, "codec", codecNames...),
			Seed:    vh.Seed(t),
			N:       1 + vh.Uniform(t, "n", maxN),
			Collide: rapid.IntRange(0, 3).Draw(t, "collide") == 0,
		}
		ws := func() int {
			switch vh.Uniform(t, "wsClass", 9+1) {
			case 0:
				return 0
			case 1:
				return 1
			case 2:
				return 1 << 30
			default:
				return 1 + vh.Uniform(t, "ws", maxN+2)
			}
		}
		deg := func() uint64 {
			switch vh.Uniform(t, "degClass", 7+1) {
			case 0:
				return hugeDegree
			case 1:
				return 1
			case 2:
				if c.Codec == "ldpc" {
					return 0
				}
				return 2
			default:
				return 1 + uint64(vh.Uniform(t, "deg", maxN+2))
			}
		}
		c.WS = ws()
		n := 1 + vh.Uniform(t, "nops", maxOps)
		for i := 0; i < n; i++ {
			switch vh.Uniform(t, "op", 40) {
			case 0:
				w := ws()
				if vh.Uniform(t, "vast", 4) == 0 {
					w *= vh.OneOf(t, "times", 100, 10000)
				}
				c.Ops = append(c.Ops, winOp{Op: "reset", WS: w})
			case 1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12:
				c.Ops = append(c.Ops, winOp{Op: "produce", Deg: deg()})
			case 7:
				c.Ops = append(c.Ops, winOp{Op: "reveal"})
			default:
				c.Ops = append(c.Ops, winOp{Op: "add", Tx: vh.Uniform(t, "tx", c.N)})
			}
		}
		c.Ops = append(c.Ops, winOp{Op: "reveal"})
		return c
	}
}

// recDist is a settable degree source that remembers what it handed out.
type recDist struct {
	next  uint64
	calls int
}

func (d *recDist) Uint64() uint64 { d.calls++; return d.next }

// runWin drives an encoder against a deque model. prop selects which claims
// are judged: C07 the codewords, C08 the window.
func runWin(prop string) func(x *vh.Ctx, c winCase) error {
	return func(x *vh.Ctx, c winCase) error {
		k := codecs[c.Codec]
		u := newUniverse(k, c.Seed, c.N, c.Collide)
		d := &recDist{}
		e := k.Enc(int64(c.Seed), u.s, d, c.WS)
		ws := c.WS
		var win []int // indices, oldest first
		inWin := func(h uint32) int {
			for p, i := range win {
				if u.salt[i] == h {
					return p
				}
			}
			return -1
		}
		produce := func(op int, deg uint64) error {
			if len(win) == 0 && c.Codec != "ldpc" {
				return nil // documented precondition of lt and iblt
			}
			if deg == 0 && c.Codec != "ldpc" {
				return nil
			}
			d.next = deg
			calls := d.calls
			w := e.Produce()
			if d.calls == calls {
				return vh.Fail("degree-not-drawn", "%s op %d: the current degree distribution was not consulted", c.Codec, op)
			}
			want := len(win)
			if deg < uint64(want) {
				want = int(deg)
			}
			m := w.Members()
			full := deg >= uint64(len(win))
			if prop == "C07" || full {
				if len(m) != want {
					kind := "wrong-degree"
					if prop == "C08" {
						kind = "wrong-window"
					}
					return vh.Fail(kind, "%s op %d: degree %d over a window of %d gave %d members", c.Codec, op, deg, len(win), len(m))
				}
				seen := map[uint32]bool{}
				var set []int
				for _, h := range m {
					if seen[h] {
						return vh.Fail("duplicate-member", "%s op %d: identifier %08x listed twice", c.Codec, op, h)
					}
					seen[h] = true
					p := inWin(h)
					if p < 0 {
						return vh.Fail("member-not-in-window", "%s op %d: identifier %08x is not that of a transaction in the window %v", c.Codec, op, h, win)
					}
					set = append(set, win[p])
				}
				if prop == "C07" {
					if got := w.Payload(); got != u.xor(set) {
						return vh.Fail("wrong-payload", "%s op %d: payload %x is not the XOR of the %d members", c.Codec, op, got, len(m))
					}
				}
			}
			if want >= 2 {
				x.Tag("degree2+")
			}
			if want >= 2 && want < len(win) {
				x.NonTrivial()
			}
			return nil
		}
		for n, op := range c.Ops {
			switch op.Op {
			case "add":
				if op.Tx >= len(u.ids) {
					continue
				}
				expect := inWin(u.salt[op.Tx]) < 0
				got := e.Add(u.txs[op.Tx])
				if got != expect {
					if prop == "C08" {
						return vh.Fail("wrong-acceptance", "%s op %d: adding transaction %d (%08x) to window %v returned %v", c.Codec, n, op.Tx, u.salt[op.Tx], win, got)
					}
					return nil // C08's business
				}
				if !expect {
					x.Tag("repeat")
					for _, i := range win {
						if u.salt[i] == u.salt[op.Tx] && i != op.Tx {
							x.Tag("collision")
						}
					}
				}
				if expect {
					win = append(win, op.Tx)
					for len(win) > ws {
						win = append([]int{}, win[1:]...)
						x.Tag("evict")
						if prop == "C08" {
							x.NonTrivial()
						}
					}
				}
			case "reset":
				d = &recDist{}
				ws = op.WS
				e.Reset(d, ws)
				x.TagIf(len(win) > 0, "reset-used")
				win = nil
			case "produce":
				if err := produce(n, op.Deg); err != nil {
					return err
				}
			case "reveal":
				if err := produce(n, hugeDegree); err != nil {
					return err
				}
			}
		}
		x.Tag(c.Codec)
		return u.checkIntact("using an encoder")
	}
}

// A long sliding run: the window must keep working after thousands of slides.
type slideCase struct {
	Codec string
	Seed  uint64
	WS    int
	Adds  int
	Every int
	Deg   uint64
	Reset int // reset to this window size halfway (0: no)
}

func runSlide(prop string) func(x *vh.Ctx, c slideCase) error {
	return func(x *vh.Ctx, c slideCase) error {
		w := winCase{Codec: c.Codec, Seed: c.Seed, N: c.WS*2 + 3, WS: c.WS}
		r := vh.NewRng(c.Seed)
		for i := 0; i < c.Adds; i++ {
			w.Ops = append(w.Ops, winOp{Op: "add", Tx: r.Intn(w.N)})
			if i%c.Every == c.Every-1 {
				w.Ops = append(w.Ops, winOp{Op: "produce", Deg: 1 + uint64(r.Intn(int(c.Deg)))})
			}
			if i%97 == 96 {
				w.Ops = append(w.Ops, winOp{Op: "reveal"})
			}
			if c.Reset > 0 && i == c.Adds/2 {
				w.Ops = append(w.Ops, winOp{Op: "reset", WS: c.Reset})
			}
		}
		w.Ops = append(w.Ops, winOp{Op: "reveal"})
		return runWin(prop)(x, w)
	}
}

func genSlide(t *rapid.T) slideCase {
	return slideCase{
		Codec: vh.OneOf(t, "codec", codecNames...),
		Seed:  vh.Seed(t),
		WS:    rapid.IntRange(1, 80).Draw(t, "ws"),
		Adds:  rapid.IntRange(100, 1200).Draw(t, "adds"),
		Every: rapid.IntRange(1, 9).Draw(t, "every"),
		Deg:   rapid.Uint64Range(1, 90).Draw(t, "deg"),
		Reset: rapid.SampledFrom([]int{0, 0, 1, 7, 50}).Draw(t, "reset"),
	}
}

// Reset must make an encoder indistinguishable from a new one: both get the
// same history afterwards and the same acceptances and windows must follow.
// (runWin's model already implies it; here the twin is the real code.)

// ---------------------------------------------------------------- C09

type uniCase struct {
	Codec  string
	Seed   uint64
	N, Deg int
	Trials int
	Pre    int  // transactions added (and evicted) before the window fills
	Mixed  bool // degrees vary; Deg is the one judged
}

// zChi turns a chi-square statistic into a normal score (Wilson-Hilferty).
func zChi(x float64, df int) float64 {
	k := float64(df)
	return (math.Cbrt(x/k) - (1 - 2/(9*k))) / math.Sqrt(2/(9*k))
}

const zLimit = 7.0 // two-sided probability below 3e-12 per statistic

func members(c uniCase, x *vh.Ctx, each func(set []int) error) error {
	k := codecs[c.Codec]
	u := newUniverse(k, c.Seed, c.N+c.Pre, false)
	for len(u.ids) < c.N+c.Pre { // an accidental collision was dropped
		c.Pre--
		if c.Pre < 0 {
			return nil
		}
	}
	d := &degDist{degs: []uint64{uint64(c.Deg)}}
	if c.Mixed {
		d.degs = []uint64{uint64(c.Deg), 1, uint64(c.Deg), hugeDegree, uint64(c.N)}
	}
	e := k.Enc(int64(c.Seed), u.s, d, c.N)
	pos := map[uint32]int{}
	for i := range u.txs {
		e.Add(u.txs[i])
		if p := i - c.Pre; p >= 0 {
			pos[u.salt[i]] = p
		} else if i%3 == 0 {
			e.Produce()
		}
	}
	d.calls = 0
	for i := 0; i < c.Trials; {
		w := e.Produce()
		if d.degs[(d.calls-1)%len(d.degs)] != uint64(c.Deg) {
			continue
		}
		i++
		var set []int
		for _, h := range w.Members() {
			p, ok := pos[h]
			if !ok {
				return vh.Fail("member-not-in-window", "%s: identifier %08x", c.Codec, h)
			}
			set = append(set, p)
		}
		if len(set) != c.Deg {
			return vh.Fail("wrong-degree", "%s: want %d got %d", c.Codec, c.Deg, len(set))
		}
		sort.Ints(set)
		if err := each(set); err != nil {
			return err
		}
	}
	return nil
}

func choose(n, k int) float64 {
	r := 1.0
	for i := 0; i < k; i++ {
		r = r * float64(n-i) / float64(i+1)
	}
	return math.Round(r)
}

// runSubsets: every subset of a small window is equally likely (chi-square).
func runSubsets(x *vh.Ctx, c uniCase) error {
	cells := choose(c.N, c.Deg)
	c.Trials = int(cells) * 60
	if c.Trials < 4000 {
		c.Trials = 4000
	}
	cnt := map[string]int{}
	trans := 0 // consecutive codewords with equal member sets
	last := ""
	err := members(c, x, func(set []int) error {
		s := fmt.Sprint(set)
		cnt[s]++
		if s == last {
			trans++
		}
		last = s
		return nil
	})
	if err != nil {
		return err
	}
	if cells < 2 {
		return nil
	}
	x.NonTrivial()
	x.Add("codewords", c.Trials)
	e := float64(c.Trials) / cells
	chi := (cells - float64(len(cnt))) * e
	worst, worstN := "", 0.0
	for s, n := range cnt {
		dv := float64(n) - e
		chi += dv * dv / e
		if math.Abs(dv) > worstN {
			worst, worstN = s, math.Abs(dv)
		}
	}
	if z := zChi(chi, int(cells)-1); z > zLimit {
		return vh.Fail("not-uniform", "%s window %d degree %d: %d codewords over %.0f subsets, chi-square %.1f (z=%.1f); %d subsets never seen, worst %s", c.Codec, c.N, c.Deg, c.Trials, cells, chi, z, int(cells)-len(cnt), worst)
	}
	p := 1 / cells
	m := float64(c.Trials - 1)
	// successive codewords are independent draws
	if m*p > 60 && !c.Mixed {
		if z := (float64(trans) - m*p) / math.Sqrt(m*p*(1-p)); math.Abs(z) > zLimit {
			return vh.Fail("not-independent", "%s window %d degree %d: %d of %d successive codewords are equal, expected %.0f (z=%.1f)", c.Codec, c.N, c.Deg, trans, c.Trials, m*p, z)
		}
	}
	return nil
}

// runInclusion: in a larger window, each position and each pair of positions
// is included as often as uniformity says.
func runInclusion(x *vh.Ctx, c uniCase) error {
	n, d := float64(c.N), float64(c.Deg)
	p1 := d / n
	p2 := p1 * (d - 1) / (n - 1)
	c.Trials = int(300/p1) + 1
	if c.Trials < 2000 {
		c.Trials = 2000
	}
	if c.Trials*(c.Deg+5) > 3000000 {
		c.Trials = 3000000 / (c.Deg + 5)
	}
	inc := make([]int, c.N)
	pairAt := func(a, b int) int { return a*c.N + b }
	pairs := map[int]int{}
	track := c.N <= 40
	gap := make([]int, c.N) // distance between members, all pairs together
	err := members(c, x, func(set []int) error {
		for i, a := range set {
			inc[a]++
			if track {
				for _, b := range set[i+1:] {
					pairs[pairAt(a, b)]++
				}
			} else if i+1 < len(set) && len(set) <= 64 {
				for _, b := range set[i+1:] {
					gap[b-a]++
				}
			}
		}
		return nil
	})
	if err != nil {
		return err
	}
	x.Add("codewords", c.Trials)
	if c.Deg < c.N {
		x.NonTrivial()
	}
	m := float64(c.Trials)
	z := func(cnt int, p float64) float64 {
		if p >= 1 {
			if float64(cnt) != m {
				return math.Inf(1)
			}
			return 0
		}
		return (float64(cnt) - m*p) / math.Sqrt(m*p*(1-p))
	}
	for i, v := range inc {
		if s := z(v, p1); math.Abs(s) > zLimit && m*p1 > 150 && m*(1-p1) > 150 || p1 >= 1 && s != 0 {
			return vh.Fail("not-uniform", "%s window %d degree %d: position %d (0 oldest) is in %d of %d codewords, expected %.0f (z=%.1f)", c.Codec, c.N, c.Deg, i, v, c.Trials, m*p1, s)
		}
	}
	if track && m*p2 > 150 && m*(1-p2) > 150 {
		for a := 0; a < c.N; a++ {
			for b := a + 1; b < c.N; b++ {
				if s := z(pairs[pairAt(a, b)], p2); math.Abs(s) > zLimit {
					return vh.Fail("pairs-not-uniform", "%s window %d degree %d: positions %d,%d together in %d of %d codewords, expected %.0f (z=%.1f)", c.Codec, c.N, c.Deg, a, b, pairs[pairAt(a, b)], c.Trials, m*p2, s)
				}
			}
		}
	}
	if !track && c.Deg <= 64 && c.Deg >= 2 {
		// pairs at distance g: variance is at most that of independent draws
		// times the number of pairs per codeword; judged very loosely
		tot := m * d * (d - 1) / 2
		for g := 1; g < c.N; g++ {
			p := (n - float64(g)) / (n * (n - 1) / 2)
			if tot*p < 200 {
				continue
			}
			if s := (float64(gap[g]) - tot*p) / math.Sqrt(tot*p*d); math.Abs(s) > 9 {
				return vh.Fail("pairs-not-uniform", "%s window %d degree %d: %d pairs of members at distance %d, expected %.0f (z=%.1f)", c.Codec, c.N, c.Deg, gap[g], g, tot*p, s)
			}
		}
	}
	return nil
}

// runTwins: encoders given equal random sources produce identical codewords.
func runTwins(x *vh.Ctx, c winCase) error {
	k := codecs[c.Codec]
	u := newUniverse(k, c.Seed, c.N, c.Collide)
	d1, d2 := &recDist{}, &recDist{}
	e1 := k.Enc(int64(c.Seed), u.s, d1, c.WS)
	var e2 encoder
	if c.Codec == "ldpc" {
		// one global source: run the two one after the other
		e2 = nil
	} else {
		e2 = k.Enc(int64(c.Seed), u.s, d2, c.WS)
	}
	var trace [2][]string
	exec := func(who int, e encoder, d *recDist) {
		cur := d
		size := 0
		ws := c.WS
		for _, op := range c.Ops {
			switch op.Op {
			case "add":
				if op.Tx < len(u.txs) && e.Add(u.txs[op.Tx]) {
					size++
					if size > ws {
						size = ws
					}
				}
			case "reset":
				cur = &recDist{}
				e.Reset(cur, op.WS)
				size, ws = 0, op.WS
			default:
				cur.next = op.Deg
				if op.Op == "reveal" {
					cur.next = hugeDegree
				}
				if c.Codec != "ldpc" && (size == 0 || cur.next == 0) {
					continue
				}
				w := e.Produce()
				trace[who] = append(trace[who], fmt.Sprint(w.Members(), w.Payload()))
				if len(w.Members()) > 1 && len(w.Members()) < size {
					x.NonTrivial()
				}
			}
		}
	}
	exec(0, e1, d1)
	if e2 == nil {
		e2 = k.Enc(int64(c.Seed), u.s, d2, c.WS) // reseeds the global source
	}
	exec(1, e2, d2)
	if len(trace[0]) != len(trace[1]) {
		return vh.Harnessf("trace lengths differ")
	}
	for i := range trace[0] {
		if trace[0][i] != trace[1][i] {
			return vh.Fail("not-reproducible", "%s: codeword %d differs between two encoders with equal sources\n%s\n%s", c.Codec, i, trace[0][i], trace[1][i])
		}
	}
	return nil
}

func init() {
	subsets := vh.NewSub("subsets", 300, func(t *rapid.T) uniCase {
		c := uniCase{Codec: vh.OneOf(t, "codec", codecNames...), Seed: vh.Seed(t)}
		c.N = 2 + vh.Uniform(t, "n", 6)
		c.Deg = 1 + vh.Uniform(t, "deg", c.N)
		c.Pre = rapid.SampledFrom([]int{0, 0, 1, 5, 30}).Draw(t, "pre")
		c.Mixed = rapid.Bool().Draw(t, "mixed")
		return c
	}, runSubsets).T(3000)
	incl := vh.NewSub("inclusion", 100, func(t *rapid.T) uniCase {
		c := uniCase{Codec: vh.OneOf(t, "codec", codecNames...), Seed: vh.Seed(t)}
		c.N = rapid.IntRange(8, 250).Draw(t, "n")
		if rapid.Bool().Draw(t, "smallN") {
			c.N = rapid.IntRange(8, 30).Draw(t, "n2")
		}
		switch vh.Uniform(t, "degClass", 3+1) {
		case 0:
			c.Deg = rapid.IntRange(1, 3).Draw(t, "deg")
		case 1:
			c.Deg = c.N - rapid.IntRange(0, 3).Draw(t, "deg")
		default:
			c.Deg = 1 + vh.Uniform(t, "deg", c.N)
		}
		c.Pre = rapid.SampledFrom([]int{0, 0, 3, 50}).Draw(t, "pre")
		return c
	}, runInclusion).T(800)
	props = append(props,
		&vh.Property{ID: "C07", Rule: "a codeword of at least two members, fewer than the window holds, was produced and checked (identifiers: always)",
			Assumptions: []string{"degrees below 2^62; lt and iblt are not asked for codewords of an empty window or degree zero (documented panic)"},
			Subs: []*vh.Sub{
				vh.NewSub("codewords", 6000, genWin(14, 60), runWin("C07")).T(60000),
				vh.NewSub("sliding", 250, genSlide, runSlide("C07")).T(2500),
				vh.NewSub("identifiers", 40, func(t *rapid.T) saltCase {
					return saltCase{Codec: vh.OneOf(t, "codec", codecNames...), Seed: vh.Seed(t), N: vh.OneOf(t, "n", 1000, 5000, 20000)}
				}, runSalting).T(400),
			}},
		&vh.Property{ID: "C08", Rule: "at least one transaction was evicted from the window (the window size was exceeded)",
			Assumptions: []string{"identifier collisions are real ones found by a birthday search under one fixed salt"},
			Subs: []*vh.Sub{
				vh.NewSub("window", 6000, genWin(12, 80), runWin("C08")).T(60000),
				vh.NewSub("sliding", 250, genSlide, runSlide("C08")).T(2500),
			}},
		&vh.Property{ID: "C09", Rule: "the degree is smaller than the window, so that sampling matters (distribution checks), or such a codeword occurs (twins)",
			Assumptions: []string{"statistics are judged at 7 standard deviations with seeds derived from VERIF_SEED; a bias too small to show in a few thousand codewords per configuration is not seen", "ldpc draws from the global math/rand source, which is seeded per case"},
			Subs: []*vh.Sub{
				subsets, incl,
				vh.NewSub("twins", 1500, genWin(14, 60), runTwins).T(20000),
			}},
	)
}
