package libs

import (
	"fmt"
	"sort"

	"pgregory.net/rapid"
	"verif/vh"
)

// Exact decoder model in the presence of colliding and almost colliding
// identifiers, wrong member lists, corrupt payloads and bounded memory. It
// works on contents. Where several codewords become decodable at once, the
// decoder may process them in any order; the model follows the order in which
// transactions are reported and checks that every step was possible and that
// nothing decodable was left.

var nearCache = map[string][][2]uint64{}

// nears finds pairs of transactions whose identifiers agree in many bits.
func nears(k codec) [][2]uint64 {
	cs := collisions(k) // takes the lock; warms up nothing else
	_ = cs
	collMu.Lock()
	defer collMu.Unlock()
	if c, ok := nearCache[k.Name()]; ok {
		return c
	}
	s := saltOf(collisionSalt)
	e := k.Enc(1, s, &degDist{degs: []uint64{1}}, 1)
	masks := []uint32{0xffff, 0xffff0000, 0xffffff, 0xffffff00, 0x00ffff00, 0xff00ffff}
	seen := make([]map[uint32]uint64, len(masks))
	cnt := make([]int, len(masks))
	for i := range seen {
		seen[i] = map[uint32]uint64{}
	}
	salts := map[uint64]uint32{}
	var out [][2]uint64
	for id := uint64(1 << 40); id < 1<<40+14000; id++ {
		if !e.Add(k.Tx(id)) {
			continue
		}
		m := e.Produce().Members()
		if len(m) != 1 {
			break
		}
		salts[id] = m[0]
		for i, mask := range masks {
			if o, ok := seen[i][m[0]&mask]; ok && salts[o] != m[0] && cnt[i] < 4 {
				out = append(out, [2]uint64{o, id})
				cnt[i]++
			}
			seen[i][m[0]&mask] = id
		}
	}
	nearCache[k.Name()] = out
	return out
}

type pend struct {
	rem map[uint32]bool
	c   content
}

type exact struct {
	u     *universe
	mem   int
	fifo  []int
	held  map[uint32]int
	count map[uint32]int
	cws   []*pend
}

func (m *exact) push(i int) {
	h := m.u.salt[i]
	m.fifo = append(m.fifo, i)
	m.held[h] = i
	m.count[h]++
	for len(m.fifo) > m.mem {
		o := m.u.salt[m.fifo[0]]
		m.fifo = append([]int{}, m.fifo[1:]...)
		if m.count[o]--; m.count[o] == 0 {
			delete(m.count, o)
			delete(m.held, o)
		}
	}
}

func (m *exact) peel(i int) {
	h := m.u.salt[i]
	for _, p := range m.cws {
		if p.rem[h] {
			delete(p.rem, h)
			for w := range p.c {
				p.c[w] ^= m.u.of[i][w]
			}
		}
	}
}

// ready lists the transactions some codeword yields right now.
func (m *exact) ready() map[int]bool {
	out := map[int]bool{}
	for _, p := range m.cws {
		if len(p.rem) != 1 {
			continue
		}
		if i, ok := m.u.at[p.c]; ok && p.rem[m.u.salt[i]] {
			out[i] = true
		}
	}
	return out
}

func (m *exact) follow(what string, got []decodedTx) error {
	for _, g := range got {
		i, ok := m.u.at[g.c]
		if !ok {
			return vh.Fail("not-genuine", "%s: reported content %x which is not that of any transaction", what, g.c)
		}
		if r := m.ready(); !r[i] {
			return vh.Fail("wrong-closure", "%s: reported transaction %d (identifier %08x), but only %v were decodable", what, i, m.u.salt[i], keys(r))
		}
		m.push(i)
		m.peel(i)
	}
	if r := m.ready(); len(r) > 0 {
		return vh.Fail("wrong-closure", "%s: transactions %v are decodable and were not reported", what, keys(r))
	}
	// keep only what can still matter
	var live []*pend
	for _, p := range m.cws {
		if len(p.rem) > 1 {
			live = append(live, p)
		}
	}
	m.cws = live
	return nil
}

func keys(m map[int]bool) []int {
	var out []int
	for i := range m {
		out = append(out, i)
	}
	sort.Ints(out)
	return out
}

// newNearUniverse has colliding and almost colliding transactions.
func newNearUniverse(k codec, seed uint64, n int) (*universe, map[int]int) {
	u := &universe{k: k, s: saltOf(collisionSalt), at: map[content]int{}}
	r := vh.NewRng(seed)
	near := map[int]int{}
	cs, ns := collisions(k), nears(k)
	pc, pn := r.Perm(len(cs)), r.Perm(len(ns))
	used := map[uint64]bool{}
	add := func(id uint64) int {
		used[id] = true
		u.ids = append(u.ids, id)
		u.salt = append(u.salt, salted(k, u.s, id))
		u.of = append(u.of, k.Of(id))
		u.at[k.Of(id)] = len(u.ids) - 1
		u.txs = append(u.txs, k.Tx(id))
		return len(u.ids) - 1
	}
	for len(u.ids) < n {
		switch x := r.Intn(5); {
		case x < 2 && len(pc) > 0:
			p := cs[pc[0]]
			pc = pc[1:]
			add(p[0])
			add(p[1])
		case x < 4 && len(pn) > 0:
			p := ns[pn[0]]
			pn = pn[1:]
			if used[p[0]] || used[p[1]] {
				continue
			}
			i, j := add(p[0]), add(p[1])
			near[i], near[j] = j, i
		default:
			if id := r.Uint64(); !used[id] {
				add(id)
			}
		}
	}
	return u, near
}

func genNear(maxN, maxOps int) func(t *rapid.T) decCase {
	g := genDec(decShape{maxN: maxN, maxOps: maxOps, mem: "small", bad: true, collide: true})
	return func(t *rapid.T) decCase {
		c := g(t)
		if vh.Uniform(t, "bigmem", 3) == 0 {
			c.Mem = 1 << 30
		}
		for i := vh.OneOf(t, "rivals", 0, 0, 0, 1, 2); i > 0; i-- { // two that collide take turns
			at := vh.Uniform(t, "rivalsAt", len(c.Ops)+1)
			c.Ops = append(c.Ops[:at:at], append([]decOp{{Op: "rivals", I: vh.Uniform(t, "pair", 4), Bad: 2 + vh.Uniform(t, "turns", 6)}}, c.Ops[at:]...)...)
		}
		for i := range c.Ops {
			if o := &c.Ops[i]; o.Op == "cw" && vh.Uniform(t, "wrongID", 6) == 0 {
				o.Bad = 6 + vh.Uniform(t, "wrongKind", 2)
			}
		}
		return c
	}
}

func runExact(prop string) func(x *vh.Ctx, c decCase) error {
	return func(x *vh.Ctx, c decCase) error {
		k := codecs[c.Codec]
		u, near := newNearUniverse(k, c.Seed, c.N)
		n := len(u.ids)
		d := k.Dec(u.s, c.Mem)
		m := &exact{u: u, mem: c.Mem, held: map[uint32]int{}, count: map[uint32]int{}}
		r := vh.NewRng(c.Seed ^ 0xdec)
		var made []codeword
		stored, decoded, wrong := 0, 0, 0
		var pairs [][2]int
		for i := range u.salt {
			for j := 0; j < i; j++ {
				if u.salt[i] == u.salt[j] {
					pairs = append(pairs, [2]int{j, i})
				}
			}
		}
		var ops []decOp
		for _, o := range c.Ops {
			if o.Op != "rivals" {
				ops = append(ops, o)
			} else if len(pairs) > 0 {
				x.Tag("rivals")
				for p, i := pairs[o.I%len(pairs)], 0; i < o.Bad; i++ {
					ops = append(ops, decOp{Op: "add", I: p[i%2]})
				}
			}
		}
		for opn, o := range ops {
			what := fmt.Sprintf("%s op %d (%s", c.Codec, opn, o.Op)
			switch o.Op {
			case "cw", "dup":
				var w codeword
				if o.Op == "dup" {
					if o.I >= len(made) {
						continue
					}
					w = made[o.I]
				} else {
					var set []int
					have := map[uint32]bool{}
					for _, i := range uniq(o.Set, n) {
						if !have[u.salt[i]] {
							have[u.salt[i]] = true
							set = append(set, i)
						}
					}
					if o.Bad >= 6 {
						// list some members under a different identifier: that of an almost colliding transaction, or of any other
						ids := make([]uint32, len(set))
						for j, i := range set {
							ids[j] = u.salt[i]
						}
						for j, i := range set {
							alt := r.Intn(n)
							if o.Bad == 6 {
								if nb, ok := near[i]; ok {
									alt = nb
								} else {
									continue
								}
							}
							if r.Intn(2) == 0 && !have[u.salt[alt]] {
								have[u.salt[alt]] = true
								ids[j] = u.salt[alt]
								wrong++
								x.TagIf(o.Bad == 6, "almost-right-id")
							}
						}
						w = k.Make(ids, u.xor(set))
					} else {
						var bad bool
						w, bad = u.make(decOp{Set: set, Bad: o.Bad}, r)
						if bad {
							wrong++
						}
					}
				}
				made = append(made, w)
				p := &pend{rem: map[uint32]bool{}, c: w.Payload()}
				for _, h := range w.Members() {
					if t, ok := m.held[h]; ok {
						for i := range p.c {
							p.c[i] ^= u.of[t][i]
						}
					} else {
						p.rem[h] = true
					}
				}
				m.cws = append(m.cws, p)
				_, got := d.AddCW(w.Clone())
				decoded += len(got)
				if err := m.follow(fmt.Sprintf("%s %08x)", what, w.Members()), got); err != nil {
					return err
				}
			case "add":
				if o.I >= n {
					continue
				}
				h := u.salt[o.I]
				if t, ok := m.held[h]; !ok {
					m.push(o.I)
					m.peel(o.I)
					stored++
				} else if t != o.I {
					m.push(o.I)
					stored++
					x.Tag("collider-added")
				}
				got := d.AddTx(u.txs[o.I])
				decoded += len(got)
				if err := m.follow(fmt.Sprintf("%s %d)", what, o.I), got); err != nil {
					return err
				}
			}
			for i := range u.txs {
				h, ok := d.Has(u.txs[i])
				if !ok {
					break
				}
				if _, want := m.held[u.salt[i]]; h != want {
					return vh.Fail("wrong-membership", "%s): membership of transaction %d (identifier %08x) is %v; remembered are %v (memory %d)", what, i, u.salt[i], h, m.fifo, c.Mem)
				}
			}
			if nr, ok := d.Received(); ok && nr != stored+decoded {
				return vh.Fail("wrong-count", "%s): the decoder counts %d transactions, %d were supplied and %d decoded", what, nr, stored, decoded)
			}
		}
		forgot := stored+decoded > c.Mem
		x.Tag(c.Codec)
		x.TagIf(forgot, "forgets")
		x.TagIf(wrong > 0, "corrupt")
		x.Add("transactions-decoded", decoded)
		if decoded > 0 && (prop == "C12" && forgot || prop == "C13" && wrong > 0) {
			x.NonTrivial()
		}
		return u.checkIntact("decoding")
	}
}
