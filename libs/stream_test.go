package libs

import (
	"pgregory.net/rapid"
	"verif/vh"
)

// ---------------------------------------------------------------- C34

type streamCase struct {
	Codec   string
	Seed    uint64
	K       int // coding window
	N       int // transactions in the stream
	RatePct int // codewords received per hundred transactions added
	LossPct int
	Known   int // percentage of the transactions the receiver has from elsewhere
	Mem     int // decoder memory in windows (0: unlimited)
}

// runStream feeds a receiver with a stream coded through a sliding window and
// counts what of it (the last window aside) the receiver never learns.
func runStream(x *vh.Ctx, c streamCase) error {
	k := codecs[c.Codec]
	u := newUniverse(k, c.Seed, c.N, false)
	n := len(u.ids)
	e := k.Enc(int64(c.Seed), u.s, soliton95(int64(c.Seed)+1, c.K), c.K)
	mem := 1 << 30
	if c.Mem > 0 {
		mem = c.Mem * c.K
	}
	d := k.Dec(u.s, mem)
	r := vh.NewRng(c.Seed ^ 0x57e)
	have := map[int]bool{}
	decoded, received, late := 0, 0, 0
	window := 0 // transactions added so far
	got := func(l []decodedTx) error {
		for _, g := range l {
			i, ok := u.at[g.c]
			if !ok {
				return vh.Fail("not-genuine", "%s: reported content %x", k.Name(), g.c)
			}
			if i >= window {
				return vh.Fail("not-genuine", "%s: transaction %d was reported before it was added", k.Name(), i)
			}
			if have[i] && c.Mem == 0 {
				return vh.Fail("repeated", "%s: transaction %d of the stream was reported again", k.Name(), i)
			}
			have[i] = true
			decoded++
			if i < window-c.K {
				late++
			}
		}
		return nil
	}
	credit := 0
	for i := 0; i < n; i++ {
		if !e.Add(u.txs[i]) {
			return vh.Fail("not-accepted", "%s: transaction %d of the stream was not accepted", k.Name(), i)
		}
		window++
		if r.Intn(100) < c.Known {
			have[i] = true
			if err := got(d.AddTx(u.txs[i])); err != nil {
				return err
			}
		}
		for credit += c.RatePct; credit >= 100; {
			w := e.Produce()
			if r.Intn(100) < c.LossPct {
				continue
			}
			credit -= 100
			received++
			_, l := d.AddCW(w)
			if err := got(l); err != nil {
				return err
			}
			if decoded > received {
				return vh.Fail("too-cheap", "%s: %d transactions decoded from %d codewords", k.Name(), decoded, received)
			}
		}
	}
	missed := 0
	for i := 0; i < n-c.K; i++ {
		if !have[i] {
			missed++
		}
	}
	if limit := max(5, n/50); missed > limit {
		return vh.Fail("stream-lost", "%s: window %d, %d codewords received per 100 transactions, loss %d%%: %d of %d transactions were never decoded", k.Name(), c.K, c.RatePct, c.LossPct, missed, n-c.K)
	}
	x.Tag(k.Name())
	x.Add("decoded", decoded)
	x.Add("codewords", received)
	x.Add("missed", missed)
	x.Add("decoded-after-leaving-the-window", late)
	if decoded > c.K {
		x.NonTrivial()
	}
	return nil
}

func init() {
	props = append(props, &vh.Property{ID: "C34", Rule: "more transactions were decoded than fit in the window",
		Assumptions: []string{"windows of 20 transactions or more, robust soliton degrees for the window size, at least 2.5 codewords received per transaction; a case fails when more than 2% (at least five) of the transactions before the last window are never decoded, which was never approached in some ten thousand runs", "a decoder's memory spans at least two windows"},
		Subs: []*vh.Sub{vh.NewSub("streams", 300, func(t *rapid.T) streamCase {
			c := streamCase{Codec: vh.OneOf(t, "codec", codecNames...), Seed: vh.Seed(t), K: 20 + vh.Uniform(t, "window", vh.OneOf(t, "windows", 20, 180)),
				RatePct: vh.OneOf(t, "rate", 250, 250, 300, 400, 1000), LossPct: vh.OneOf(t, "loss", 0, 0, 10, 60), Known: vh.OneOf(t, "known", 0, 0, 20, 50, 90), Mem: vh.OneOf(t, "memory", 0, 0, 2, 3)}
			c.N = c.K * (3 + vh.Uniform(t, "windowsLong", 20))
			return c
		}, runStream).T(2000)}})
}
