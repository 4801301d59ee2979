package libs

import (
	"math/rand"
	"reflect"
	"unsafe"

	"github.com/yangl1996/rateless-set-reconcile/lt"
	"github.com/yangl1996/rateless-set-reconcile/microbenchmarks"
	"pgregory.net/rapid"
	"verif/vh"
)

// ---------------------------------------------------------------- C31

type microCase struct {
	Two    bool
	Runs   int
	N      int
	Common int
	First  int // codewords from the first sender
}

type mtx = microbenchmarks.Transaction

func mMembers(c *lt.Codeword[mtx]) []uint32 {
	_, m := cwOffsets(reflect.TypeFor[lt.Codeword[mtx]](), reflect.TypeFor[mtx]())
	return *(*[]uint32)(unsafe.Add(unsafe.Pointer(c), m))
}

// microRun re-simulates one run with a reference receiver; -1: over budget.
func microRun(c microCase, seed int64) int {
	newEnc := func() *lt.Encoder[mtx] {
		return lt.NewEncoder[mtx](rand.New(rand.NewSource(seed)), microbenchmarks.TestKey, soliton95(seed, c.N), c.N)
	}
	num := map[uint32]int{} // salted identifier -> number
	idx := func(tx lt.Transaction[mtx]) int {
		e := lt.NewEncoder[mtx](rand.New(rand.NewSource(0)), microbenchmarks.TestKey, &degDist{degs: []uint64{1}}, 1)
		e.AddTransaction(tx)
		w := e.ProduceCodeword()
		id := mMembers(&w)[0]
		if n, ok := num[id]; ok {
			return n
		}
		num[id] = len(num)
		return len(num) - 1
	}
	next := uint64(0)
	take := func(n int, encs ...*lt.Encoder[mtx]) (out []int) {
		for len(out) < n {
			tx := microbenchmarks.GetTransaction(next)
			next++
			if encs[0].AddTransaction(tx) {
				for _, e := range encs[1:] {
					e.AddTransaction(tx)
				}
				out = append(out, idx(tx))
			}
		}
		return
	}
	m := newModel(1 << 40)
	feed := func(e *lt.Encoder[mtx]) {
		w := e.ProduceCodeword()
		var set []int
		for _, h := range mMembers(&w) {
			set = append(set, num[h])
		}
		for _, i := range m.arrive(set, false) {
			m.push(i)
		}
	}
	if !c.Two {
		e := newEnc()
		for _, i := range take(c.Common, e) {
			m.push(i)
		}
		take(c.N-c.Common, e)
		n := 0
		for len(m.known) < c.N {
			feed(e)
			n++
		}
		return n
	}
	e1, e2 := newEnc(), newEnc()
	take(c.Common, e1, e2)
	take(c.N-c.Common, e1)
	take(c.N-c.Common, e2)
	total := 2*c.N - c.Common
	n := 0
	for ; n < c.First; n++ {
		feed(e1)
	}
	for len(m.known) < total && n < c.First+5*c.N {
		feed(e2)
		n++
	}
	if len(m.known) < total {
		return -1
	}
	return n
}

func runMicro(x *vh.Ctx, c microCase) error {
	call := func() int {
		if c.Two {
			return microbenchmarks.SimulateTwoSendersOverlap(c.Runs, c.N, c.Common, c.First)
		}
		return microbenchmarks.SimulateOneSenderOverlap(c.Runs, c.N, c.Common)
	}
	got := call()
	tot, ok := 0, 0
	for s := 0; s < c.Runs; s++ {
		if n := microRun(c, int64(s)); n >= 0 {
			tot += n
			ok++
		}
	}
	want := -1
	if !c.Two || ok > 50 {
		want = tot / ok
	}
	if got != want {
		return vh.Fail("wrong-average", "%+v: reported %d, re-simulation gives %d (%d successful runs, %d codewords)", c, got, want, ok, tot)
	}
	if again := call(); again != got {
		return vh.Fail("not-repeatable", "%+v: %d, then %d", c, got, again)
	}
	x.TagIf(c.Two && want == -1, "too-few-successes")
	x.TagIf(c.Two && want >= 0 && ok < c.Runs, "some-runs-left-out")
	x.TagIf(c.Two && want >= 0 && ok == c.Runs, "all-runs-succeed")
	if c.Common > 0 && c.Common < c.N && want > 0 {
		x.NonTrivial()
	}
	return nil
}

func init() {
	props = append(props, &vh.Property{ID: "C31", Rule: "a partial overlap (some but not all transactions common) with a positive average",
		Assumptions: []string{"the encoder itself is taken from the lt package (its properties are decided separately); the receiver is re-implemented"},
		Subs: []*vh.Sub{
			vh.NewSub("one-sender", 250, func(t *rapid.T) microCase {
				c := microCase{Runs: 1 + vh.Uniform(t, "runs", 12), N: 1 + vh.Uniform(t, "n", 60)}
				c.Common = vh.Uniform(t, "common", c.N+1)
				return c
			}, runMicro).T(2500).Iso(),
			vh.NewSub("large-blocks", 10, func(t *rapid.T) microCase {
				c := microCase{Runs: 1 + vh.Uniform(t, "runs", 2), N: vh.OneOf(t, "n", 300, 1500, 5000)}
				c.Common = vh.OneOf(t, "common", 0, c.N/2, c.N-c.N/20, c.N-1, c.N)
				return c
			}, runMicro).T(100).Iso(),
			vh.NewSub("two-senders", 120, func(t *rapid.T) microCase {
				c := microCase{Two: true, Runs: 45 + vh.Uniform(t, "runs", 40), N: 1 + vh.Uniform(t, "n", 25)}
				c.Common = vh.Uniform(t, "common", c.N+1)
				c.First = vh.OneOf(t, "first", 0, 1, c.N/2, c.N, c.N+c.N/4, 2*c.N, 3*c.N, 4*c.N)
				if vh.Uniform(t, "overlap", 2) == 0 {
					c.Common = c.N - c.N/5
				}
				return c
			}, runMicro).T(1200).Iso(),
		}})
}
