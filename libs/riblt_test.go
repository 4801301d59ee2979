package libs

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"

	"github.com/yangl1996/rateless-set-reconcile/riblt"
	"pgregory.net/rapid"
	"verif/vh"
)

// ---------------------------------------------------------------- items
//
// An item is identified by a 64-bit id; its content is the id followed by
// filler derived from the id, so corruption is visible. Its hash is a
// bijective, non-linear mix of the id, so any hash value can be produced.

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func unshift(x uint64, s uint) uint64 {
	r := x
	for i := 0; i < 7; i++ {
		r = x ^ (r >> s)
	}
	return r
}

func inv64(a uint64) uint64 {
	x := a
	for i := 0; i < 6; i++ {
		x *= 2 - a*x
	}
	return x
}

func unmix(z uint64) uint64 {
	z = unshift(z, 31)
	z *= inv64(0x94d049bb133111eb)
	z = unshift(z, 27)
	z *= inv64(0xbf58476d1ce4e5b9)
	return unshift(z, 30)
}

const fillWords = 4

func fill(id uint64) (w [fillWords]uint64) {
	r := vh.NewRng(id ^ 0x5bd1e995)
	for i := range w {
		w[i] = r.Uint64()
	}
	return
}

var xorCalls, xorLimit int

func countXOR() {
	xorCalls++
	if xorLimit > 0 && xorCalls > xorLimit {
		panic(&vh.Violation{Kind: "does-not-terminate", Msg: fmt.Sprintf("more than %d XOR operations in one call", xorLimit)})
	}
}

// valSym is a value-typed item.
type valSym struct {
	id uint64
	w  [fillWords]uint64
}

func (a valSym) XOR(b valSym) valSym {
	countXOR()
	a.id ^= b.id
	for i := range a.w {
		a.w[i] ^= b.w[i]
	}
	return a
}
func (a valSym) Hash() uint64 { return mix(a.id) }

// ptrSym is a pointer-typed item with in-place XOR, like the one in the
// repository's own test: nil receiver allowed, nil argument not.
type ptrSym struct {
	id uint64
	w  [fillWords]uint64
}

func (a *ptrSym) XOR(b *ptrSym) *ptrSym {
	countXOR()
	if a == nil {
		a = &ptrSym{}
	}
	a.id ^= b.id
	for i := range a.w {
		a.w[i] ^= b.w[i]
	}
	return a
}
func (a *ptrSym) Hash() uint64 { return mix(a.id) }

// sliceSym is a slice-typed item with in-place XOR.
type sliceSym []uint64

func (a sliceSym) XOR(b sliceSym) sliceSym {
	countXOR()
	if a == nil {
		a = make(sliceSym, fillWords+1)
	}
	_ = b[fillWords]
	for i := range a {
		a[i] ^= b[i]
	}
	return a
}
func (a sliceSym) Hash() uint64 { return mix(a[0]) }

type kind[T riblt.Symbol[T]] struct {
	mk   func(id uint64) T
	read func(s T) (id uint64, w [fillWords]uint64, ok bool) // ok=false for nil
}

var valKind = kind[valSym]{
	func(id uint64) valSym { return valSym{id, fill(id)} },
	func(s valSym) (uint64, [fillWords]uint64, bool) { return s.id, s.w, true },
}
var ptrKind = kind[*ptrSym]{
	func(id uint64) *ptrSym { return &ptrSym{id, fill(id)} },
	func(s *ptrSym) (id uint64, w [fillWords]uint64, ok bool) {
		if s == nil {
			return
		}
		return s.id, s.w, true
	},
}
var sliceKind = kind[sliceSym]{
	func(id uint64) sliceSym {
		w := fill(id)
		return append(sliceSym{id}, w[:]...)
	},
	func(s sliceSym) (id uint64, w [fillWords]uint64, ok bool) {
		if len(s) != fillWords+1 {
			return
		}
		copy(w[:], s[1:])
		return s[0], w, true
	},
}

// pristine returns the id of an item if its content is exactly the original.
func (k kind[T]) pristine(s T) (uint64, bool) {
	id, w, ok := k.read(s)
	return id, ok && w == fill(id)
}

// ---------------------------------------------------------------- cells

// cell is a coded symbol read by field type, so that renaming fields does not
// disturb the harness.
type cell struct {
	id       uint64
	w        [fillWords]uint64
	count    int64
	checksum uint64
}

var offsets = map[reflect.Type][3]uintptr{}

func cellOffsets[T riblt.Symbol[T]]() [3]uintptr {
	ct := reflect.TypeFor[riblt.CodedSymbol[T]]()
	if o, ok := offsets[ct]; ok {
		return o
	}
	st := reflect.TypeFor[T]()
	o := [3]uintptr{^uintptr(0), ^uintptr(0), ^uintptr(0)}
	for i := 0; i < ct.NumField(); i++ {
		f := ct.Field(i)
		switch {
		case f.Type == st:
			o[0] = f.Offset
		case f.Type.Kind() == reflect.Int64 || f.Type.Kind() == reflect.Int:
			o[1] = f.Offset
		case f.Type.Kind() == reflect.Uint64:
			o[2] = f.Offset
		}
	}
	for _, x := range o {
		if x == ^uintptr(0) {
			panic(&vh.HarnessError{Msg: "coded symbol layout not recognised"})
		}
	}
	offsets[ct] = o
	return o
}

func (k kind[T]) cell(c *riblt.CodedSymbol[T]) cell {
	o := cellOffsets[T]()
	p := unsafe.Pointer(c)
	var out cell
	out.id, out.w, _ = k.read(*(*T)(unsafe.Add(p, o[0])))
	out.count = *(*int64)(unsafe.Add(p, o[1]))
	out.checksum = *(*uint64)(unsafe.Add(p, o[2]))
	return out
}

func (a cell) plus(b cell) cell {
	a.id ^= b.id
	for i := range a.w {
		a.w[i] ^= b.w[i]
	}
	a.count += b.count
	a.checksum ^= b.checksum
	return a
}

func (a cell) minus(b cell) cell {
	c := a.plus(b)
	c.count = a.count - b.count
	return c
}

// mapping returns which of the first n cells an item contributes to, learnt
// from the stream of an encoder holding only that item.
func (k kind[T]) stream(ids []uint64, n int) []cell {
	e := &riblt.Encoder[T]{}
	for _, id := range ids {
		e.AddSymbol(k.mk(id))
	}
	out := make([]cell, n)
	for i := range out {
		c := e.ProduceNextCodedSymbol()
		out[i] = k.cell(&c)
	}
	return out
}

func (k kind[T]) mapping(id uint64, n int) []bool {
	m := make([]bool, n)
	for i, c := range k.stream([]uint64{id}, n) {
		m[i] = c.count != 0
	}
	return m
}

// closure peels symbolically: m[id][i] says whether id is in cell i; only
// cells [0,n) are used. It returns the recoverable ids and whether all cells
// end up empty.
func closure(m map[uint64][]bool, n int) (map[uint64]bool, bool) {
	cnt := make([]int, n)
	ids := make([]uint64, 0, len(m))
	for id := range m {
		ids = append(ids, id)
	}
	for _, id := range ids {
		for i := 0; i < n; i++ {
			if m[id][i] {
				cnt[i]++
			}
		}
	}
	got := map[uint64]bool{}
	for again := true; again; {
		again = false
		for _, id := range ids {
			if got[id] {
				continue
			}
			for i := 0; i < n; i++ {
				if m[id][i] && cnt[i] == 1 {
					got[id] = true
					again = true
					for j := 0; j < n; j++ {
						if m[id][j] {
							cnt[j]--
						}
					}
					break
				}
			}
		}
	}
	for _, c := range cnt {
		if c != 0 {
			return got, false
		}
	}
	return got, true
}

// ---------------------------------------------------------------- cases

type setCase struct {
	Kind     string // val, ptr, slice
	Seed     uint64
	Remote   int // sender-only items
	Local    int // receiver-only items
	Common   int
	Schedule int  // 0: decode after every cell; k: about every k cells; -1: doubling
	Extra    int  // cells fed after completion
	Dense    bool // ids are small consecutive integers
}

func genSet(maxDiff, maxCommon int) func(t *rapid.T) setCase {
	return func(t *rapid.T) setCase {
		c := setCase{
			Kind:     rapid.SampledFrom([]string{"val", "ptr", "slice"}).Draw(t, "kind"),
			Seed:     vh.Seed(t),
			Remote:   vh.Size(t, "remote", maxDiff),
			Local:    vh.Size(t, "local", maxDiff),
			Common:   vh.Size(t, "common", maxCommon),
			Schedule: rapid.SampledFrom([]int{0, 0, 1, 2, 5, 17, -1}).Draw(t, "schedule"),
			Extra:    rapid.IntRange(0, 25).Draw(t, "extra"),
			Dense:    rapid.Bool().Draw(t, "dense"),
		}
		return c
	}
}

func (c setCase) ids() (remote, local, common []uint64) {
	r := vh.NewRng(c.Seed)
	base := r.Uint64()
	n := uint64(0)
	next := func() uint64 {
		n++
		if c.Dense {
			return n - 1 + base%7
		}
		return mix(base + n*0x9e3779b97f4a7c15) // distinct: bijection of distinct values
	}
	take := func(k int) []uint64 {
		var out []uint64
		for i := 0; i < k; i++ {
			out = append(out, next())
		}
		return out
	}
	return take(c.Remote), take(c.Local), take(c.Common)
}

func withKind(name string, fv func(kind[valSym]) error, fp func(kind[*ptrSym]) error, fs func(kind[sliceSym]) error) error {
	xorCalls, xorLimit = 0, 0
	switch name {
	case "val":
		return fv(valKind)
	case "ptr":
		return fp(ptrKind)
	default:
		return fs(sliceKind)
	}
}

// report checks that a list of reported items is exactly the expected set,
// each once, with pristine content and the right hash.
func report[T riblt.Symbol[T]](k kind[T], what string, got []riblt.HashedSymbol[T], want map[uint64]bool) error {
	seen := map[uint64]bool{}
	for _, s := range got {
		id, ok := k.pristine(s.Symbol)
		if !ok {
			return vh.Fail("corrupt-"+what, "reported %s item has content %v that no party has", what, s.Symbol)
		}
		if s.Hash != mix(id) {
			return vh.Fail("wrong-hash-"+what, "reported %s item %x carries hash %x, want %x", what, id, s.Hash, mix(id))
		}
		if seen[id] {
			return vh.Fail("repeated-"+what, "%s item %x reported twice", what, id)
		}
		seen[id] = true
		if !want[id] {
			return vh.Fail("invented-"+what, "%s item %x reported but not expected", what, id)
		}
	}
	if len(seen) != len(want) {
		return vh.Fail("missing-"+what, "%d %s items reported, %d expected", len(seen), what, len(want))
	}
	return nil
}

func toSet(ids []uint64) map[uint64]bool {
	m := map[uint64]bool{}
	for _, id := range ids {
		m[id] = true
	}
	return m
}

// shuffled adds items to dst in a random order through either entry point.
func addAll[T riblt.Symbol[T]](k kind[T], r *vh.Rng, add func(T), addH func(riblt.HashedSymbol[T]), sets ...[]uint64) []T {
	var all []uint64
	for _, s := range sets {
		all = append(all, s...)
	}
	var objs []T
	for _, i := range r.Perm(len(all)) {
		s := k.mk(all[i])
		objs = append(objs, s)
		if r.Intn(2) == 0 {
			add(s)
		} else {
			addH(riblt.HashedSymbol[T]{Symbol: s, Hash: mix(all[i])})
		}
	}
	return objs
}

func due(schedule, n, last int) bool {
	switch {
	case schedule == 0:
		return true
	case schedule > 0:
		return n%(schedule+1) == 0
	default:
		return n >= 2*last
	}
}

// ---------------------------------------------------------------- C01

func runC01[T riblt.Symbol[T]](x *vh.Ctx, k kind[T], c setCase) error {
	remote, local, common := c.ids()
	r := vh.NewRng(c.Seed + 1)
	enc := &riblt.Encoder[T]{}
	dec := &riblt.Decoder[T]{}
	addAll(k, r, enc.AddSymbol, enc.AddHashedSymbol, remote, common)
	addAll(k, r, dec.AddSymbol, dec.AddHashedSymbol, local, common)
	d := len(remote) + len(local)
	limit := 20000 + 100*d
	n, last := 0, 0
	for {
		dec.AddCodedSymbol(enc.ProduceNextCodedSymbol())
		n++
		if due(c.Schedule, n, last) {
			dec.TryDecode()
			last = n
		}
		if dec.Decoded() {
			break
		}
		if n > limit {
			return vh.Fail("never-completes", "no completion after %d coded symbols for a difference of %d", n, d)
		}
	}
	check := func() error {
		if !dec.Decoded() {
			return vh.Fail("completion-lost", "decoder no longer complete after further coded symbols")
		}
		if err := report(k, "remote", dec.Remote(), toSet(remote)); err != nil {
			return err
		}
		return report(k, "local", dec.Local(), toSet(local))
	}
	if err := check(); err != nil {
		return err
	}
	for i := 0; i < c.Extra; i++ {
		dec.AddCodedSymbol(enc.ProduceNextCodedSymbol())
		if i%2 == 0 {
			dec.TryDecode()
		}
		if err := check(); err != nil {
			return err
		}
	}
	x.Tag(c.Kind)
	x.TagIf(d == 0, "identical")
	x.TagIf(c.Common == 0 && d > 0, "disjoint")
	x.TagIf(c.Remote > 0 && c.Local > 0 && c.Common > 0, "overlapping")
	x.TagIf((c.Remote == 0) != (c.Local == 0), "nested")
	x.Add("cells", n)
	if d > 0 {
		x.NonTrivial()
	}
	return nil
}

// ---------------------------------------------------------------- C02

func runC02[T riblt.Symbol[T]](x *vh.Ctx, k kind[T], c setCase) error {
	remote, local, common := c.ids()
	r := vh.NewRng(c.Seed + 2)
	enc := &riblt.Encoder[T]{}
	dec := &riblt.Decoder[T]{}
	addAll(k, r, enc.AddSymbol, enc.AddHashedSymbol, remote, common)
	addAll(k, r, dec.AddSymbol, dec.AddHashedSymbol, local, common)
	total := 2*(len(remote)+len(local)) + 10 + c.Extra
	m := map[uint64][]bool{}
	for _, id := range append(append([]uint64{}, remote...), local...) {
		m[id] = k.mapping(id, total)
	}
	rs, ls := toSet(remote), toSet(local)
	last := 0
	partial := false
	prev := map[uint64]bool{}
	for n := 1; n <= total; n++ {
		dec.AddCodedSymbol(enc.ProduceNextCodedSymbol())
		// completion must be exact even before the next decode attempt: the
		// items reported so far are prev
		_ = prev
		explained := true
		for i := 0; i < n && explained; i++ {
			for id, mm := range m {
				if mm[i] && !prev[id] {
					explained = false
					break
				}
			}
		}
		if dec.Decoded() != explained {
			return vh.Fail("completion-flag", "after coded symbol %d and before decoding, completion is %v but reported items explain everything: %v", n, dec.Decoded(), explained)
		}
		if n != total && !due(c.Schedule, n, last) {
			continue
		}
		last = n
		dec.TryDecode()
		got, done := closure(m, n)
		wr, wl := map[uint64]bool{}, map[uint64]bool{}
		for id := range got {
			if rs[id] {
				wr[id] = true
			}
			if ls[id] {
				wl[id] = true
			}
		}
		if err := report(k, "remote", dec.Remote(), wr); err != nil {
			return err
		}
		if err := report(k, "local", dec.Local(), wl); err != nil {
			return err
		}
		if dec.Decoded() != done {
			return vh.Fail("completion-flag", "after decoding %d coded symbols completion is %v, want %v", n, dec.Decoded(), done)
		}
		if len(got) > 0 && !done {
			partial = true
		}
		prev = got
	}
	x.TagIf(partial, "partial-prefix")
	x.Tag(c.Kind)
	x.TagIf(c.Schedule != 0, "lazy-schedule")
	if partial && len(remote) > 0 && len(local) > 0 {
		x.NonTrivial()
	}
	return nil
}

// ---------------------------------------------------------------- C03

type linCase struct {
	Set   setCase
	Cells int
}

func runC03Stream[T riblt.Symbol[T]](x *vh.Ctx, k kind[T], c linCase) error {
	remote, local, common := c.Set.ids()
	all := append(append(append([]uint64{}, remote...), local...), common...)
	n := c.Cells
	want := make([]cell, n)
	for _, id := range all {
		for i, cc := range k.stream([]uint64{id}, n) {
			if cc.count != 0 && (cc.count != 1 || cc.id != id || cc.checksum != mix(id) || cc.w != fill(id)) {
				return vh.Fail("single-item-cell", "cell %d of a single-item stream is %+v", i, cc)
			}
			if cc.count == 0 && cc != (cell{}) {
				return vh.Fail("single-item-cell", "empty cell %d of a single-item stream is %+v", i, cc)
			}
			want[i] = want[i].plus(cc)
		}
	}
	r := vh.NewRng(c.Set.Seed + 3)
	for rep := 0; rep < 2; rep++ {
		enc := &riblt.Encoder[T]{}
		addAll(k, r, enc.AddSymbol, enc.AddHashedSymbol, all)
		for i := 0; i < n; i++ {
			cs := enc.ProduceNextCodedSymbol()
			if g := k.cell(&cs); g != want[i] {
				return vh.Fail("stream-not-linear", "coded symbol %d of the set is %+v, the sum of its items is %+v", i, g, want[i])
			}
		}
	}
	sk := make(riblt.Sketch[T], n)
	addAll(k, r, sk.AddSymbol, sk.AddHashedSymbol, all)
	for i := range sk {
		if g := k.cell(&sk[i]); g != want[i] {
			return vh.Fail("sketch-differs", "sketch cell %d is %+v, stream has %+v", i, g, want[i])
		}
	}
	x.Tag(c.Set.Kind)
	x.TagIf(n == 0, "empty-sketch")
	if len(all) >= 2 && n >= 2 {
		x.NonTrivial()
	}
	return nil
}

func runC03Sub[T riblt.Symbol[T]](x *vh.Ctx, k kind[T], c linCase) error {
	remote, local, common := c.Set.ids()
	n := c.Cells
	r := vh.NewRng(c.Set.Seed + 4)
	a, b := make(riblt.Sketch[T], n), make(riblt.Sketch[T], n)
	addAll(k, r, a.AddSymbol, a.AddHashedSymbol, remote, common)
	addAll(k, r, b.AddSymbol, b.AddHashedSymbol, local, common)
	ca, cb := make([]cell, n), make([]cell, n)
	for i := range a {
		ca[i], cb[i] = k.cell(&a[i]), k.cell(&b[i])
	}
	diff := a.Subtract(b)
	if len(diff) != n {
		return vh.Fail("difference-size", "difference of two sketches of %d cells has %d cells", n, len(diff))
	}
	for i := range diff {
		if g, w := k.cell(&diff[i]), ca[i].minus(cb[i]); g != w {
			return vh.Fail("difference-cell", "cell %d of the difference is %+v, want %+v", i, g, w)
		}
		if g := k.cell(&b[i]); g != cb[i] {
			return vh.Fail("subtrahend-modified", "cell %d of the subtrahend changed from %+v to %+v", i, cb[i], g)
		}
	}
	m := map[uint64][]bool{}
	for _, id := range append(append([]uint64{}, remote...), local...) {
		m[id] = k.mapping(id, n)
	}
	got, done := closure(m, n)
	wr, wl := map[uint64]bool{}, map[uint64]bool{}
	for _, id := range remote {
		if got[id] {
			wr[id] = true
		}
	}
	for _, id := range local {
		if got[id] {
			wl[id] = true
		}
	}
	gr, gl, ok := diff.Decode()
	if err := report(k, "remote", gr, wr); err != nil {
		return err
	}
	if err := report(k, "local", gl, wl); err != nil {
		return err
	}
	if ok != done {
		return vh.Fail("decode-success", "decoding reports success=%v, want %v (%d of %d items recoverable)", ok, done, len(got), len(m))
	}
	if n > 0 && done != (len(got) == len(m)) {
		return vh.Harnessf("closure inconsistent")
	}
	short := make(riblt.Sketch[T], n+1)
	if !vh.Panics(func() { short.Subtract(b) }) || !vh.Panics(func() { b.Subtract(short) }) {
		return vh.Fail("size-mismatch-accepted", "sketches of %d and %d cells were subtracted", n, n+1)
	}
	x.Tag(c.Set.Kind)
	x.TagIf(done, "success")
	x.TagIf(!done && len(got) > 0, "partial")
	x.TagIf(!done && len(got) == 0, "failure")
	if len(m) > 0 && n > 0 {
		x.NonTrivial()
	}
	return nil
}

// runC03Chain: differences of sketches can be subtracted in turn, in any grouping.
func runC03Chain[T riblt.Symbol[T]](x *vh.Ctx, k kind[T], c linCase) error {
	remote, local, common := c.Set.ids()
	n := c.Cells
	r := vh.NewRng(c.Set.Seed + 5)
	var third []uint64
	for _, l := range [][]uint64{remote, local, common} {
		for _, id := range l {
			if r.Intn(3) == 0 {
				third = append(third, id)
			}
		}
	}
	sets := [3][][]uint64{{remote, common}, {local, common}, {third}}
	var cells [3][]cell
	fresh := func() (sk [3]riblt.Sketch[T]) {
		for j, ids := range sets {
			sk[j] = make(riblt.Sketch[T], n)
			addAll(k, r, sk[j].AddSymbol, sk[j].AddHashedSymbol, ids...)
			cells[j] = make([]cell, n)
			for i := range sk[j] {
				cells[j][i] = k.cell(&sk[j][i])
			}
		}
		return
	}
	zero := 0
	for shape := 0; shape < 3; shape++ {
		sk := fresh()
		var d riblt.Sketch[T]
		switch shape {
		case 0:
			d = sk[0].Subtract(sk[1]).Subtract(sk[2])
		case 1:
			d = sk[0].Subtract(sk[1].Subtract(sk[2]))
		case 2:
			d = sk[2].Subtract(sk[0].Subtract(sk[1]))
		}
		for i := range d {
			a, b, t := cells[0][i], cells[1][i], cells[2][i]
			want := a.minus(b).minus(t)
			if shape == 1 {
				want = a.minus(b.minus(t))
			} else if shape == 2 {
				want = t.minus(a.minus(b))
			}
			if w := a.minus(b); w.count == 0 && w != (cell{}) {
				zero++
			}
			if g := k.cell(&d[i]); g != want {
				return vh.Fail("difference-cell", "cell %d of a difference of differences (grouping %d) is %+v, want %+v", i, shape, g, want)
			}
		}
	}
	x.Tag(c.Set.Kind)
	if zero > 0 {
		x.NonTrivial()
	}
	return nil
}

// runC03Large: sketches and streams of tens of thousands of items and cells
// are the sums of those of parts of the set.
func runC03Large[T riblt.Symbol[T]](x *vh.Ctx, k kind[T], c linCase) error {
	remote, local, common := c.Set.ids()
	n := c.Cells
	r := vh.NewRng(c.Set.Seed + 9)
	parts := func(ids []uint64, part int) []cell {
		sum := make([]cell, n)
		for len(ids) > 0 {
			m := min(part, len(ids))
			sk := make(riblt.Sketch[T], n)
			addAll(k, r, sk.AddSymbol, sk.AddHashedSymbol, ids[:m])
			for i := range sk {
				sum[i] = sum[i].plus(k.cell(&sk[i]))
			}
			ids = ids[m:]
		}
		return sum
	}
	rs, ls, cs := parts(remote, len(remote)/3+1), parts(local, len(local)/2+1), parts(common, len(common)/2+1)
	a, b := make(riblt.Sketch[T], n), make(riblt.Sketch[T], n)
	addAll(k, r, a.AddSymbol, a.AddHashedSymbol, remote, common)
	addAll(k, r, b.AddSymbol, b.AddHashedSymbol, local, common)
	enc := &riblt.Encoder[T]{}
	addAll(k, r, enc.AddSymbol, enc.AddHashedSymbol, remote, common)
	for i := 0; i < n; i++ {
		want := rs[i].plus(cs[i])
		s := enc.ProduceNextCodedSymbol()
		if g := k.cell(&s); g != want {
			return vh.Fail("stream-not-linear", "coded symbol %d of the set is %+v, the sum of its items is %+v", i, g, want)
		}
		if g := k.cell(&a[i]); g != want {
			return vh.Fail("sketch-differs", "sketch cell %d is %+v, the sum of its items is %+v", i, g, want)
		}
	}
	d := a.Subtract(b)
	for i := range d {
		if g, want := k.cell(&d[i]), rs[i].minus(ls[i]); g != want {
			return vh.Fail("difference-cell", "cell %d of the difference is %+v, want %+v", i, g, want)
		}
	}
	if n >= 2*(len(remote)+len(local))+50 {
		gr, gl, ok := d.Decode()
		if err := report(k, "remote", gr, toSet(remote)); err != nil {
			return err
		}
		if err := report(k, "local", gl, toSet(local)); err != nil {
			return err
		}
		if !ok {
			return vh.Fail("decode-success", "decoding reports no success although all %d items are recovered", len(gr)+len(gl))
		}
		x.Tag("decoded")
	}
	x.TagIf(len(remote)+len(local) > 32768, "difference-above-32768")
	x.TagIf(n > 16384, "cells-above-16384")
	x.NonTrivial()
	return nil
}

func genLarge(t *rapid.T) linCase {
	c := linCase{Set: setCase{Kind: vh.OneOf(t, "kind", "val", "ptr", "slice"), Seed: vh.Seed(t), Dense: vh.Uniform(t, "dense", 2) == 0}}
	c.Set.Remote, c.Set.Local, c.Set.Common = vh.OneOf(t, "r", 0, 300, 5000, 36000), vh.OneOf(t, "l", 0, 300, 5000, 36000, 70000), vh.OneOf(t, "k", 0, 3000, 40000)
	c.Cells = vh.OneOf(t, "cells", 3, 1000, 20000, 70000)
	return c
}

func genLin(maxItems int) func(t *rapid.T) linCase {
	g := genSet(maxItems, maxItems)
	return func(t *rapid.T) linCase {
		c := linCase{Set: g(t)}
		d := c.Set.Remote + c.Set.Local
		switch rapid.IntRange(0, 3).Draw(t, "cellsClass") {
		case 0:
			c.Cells = rapid.IntRange(0, 6).Draw(t, "cells")
		case 1:
			c.Cells = rapid.IntRange(d/2, d+3).Draw(t, "cells")
		default:
			c.Cells = rapid.IntRange(d, 3*d+12).Draw(t, "cells")
		}
		return c
	}
}

// ---------------------------------------------------------------- C04

type costCase struct {
	Seed          uint64
	Kind          string
	Remote, Local int
	Common        []int // sizes of several common sets
}

func cost[T riblt.Symbol[T]](k kind[T], seed uint64, remote, local, common []uint64) (int, *riblt.Decoder[T], error) {
	r := vh.NewRng(seed)
	enc := &riblt.Encoder[T]{}
	dec := &riblt.Decoder[T]{}
	addAll(k, r, enc.AddSymbol, enc.AddHashedSymbol, remote, common)
	addAll(k, r, dec.AddSymbol, dec.AddHashedSymbol, local, common)
	for n := 1; ; n++ {
		dec.AddCodedSymbol(enc.ProduceNextCodedSymbol())
		dec.TryDecode()
		if dec.Decoded() {
			return n, dec, nil
		}
		if n > 20000+100*(len(remote)+len(local)) {
			return 0, nil, vh.Fail("never-completes", "no completion after %d coded symbols for a difference of %d", n, len(remote)+len(local))
		}
	}
}

func runC04[T riblt.Symbol[T]](x *vh.Ctx, k kind[T], c costCase) error {
	r := vh.NewRng(c.Seed)
	take := func(n int) []uint64 {
		out := make([]uint64, n)
		for i := range out {
			out[i] = r.Uint64()
		}
		return out
	}
	remote, local := take(c.Remote), take(c.Local)
	d := c.Remote + c.Local
	base, dec, err := cost(k, 1, remote, local, nil)
	if err != nil {
		return err
	}
	if base < d || base < 1 {
		return vh.Fail("too-cheap", "completed after %d coded symbols with a difference of %d", base, d)
	}
	if err := report(k, "remote", dec.Remote(), toSet(remote)); err != nil {
		return err
	}
	for i, nc := range c.Common {
		common := take(nc)
		n, dec, err := cost(k, uint64(i)+2, remote, local, common)
		if err != nil {
			return err
		}
		if n != base {
			return vh.Fail("cost-depends-on-common", "difference of %d needs %d coded symbols without common items and %d with %d common items", d, base, n, nc)
		}
		if err := report(k, "remote", dec.Remote(), toSet(remote)); err != nil {
			return err
		}
		if err := report(k, "local", dec.Local(), toSet(local)); err != nil {
			return err
		}
	}
	if d > 0 && len(c.Common) > 0 {
		x.NonTrivial()
	}
	x.Add("cells", base)
	x.Add("difference", d)
	return nil
}

// avgCase is a statistical campaign: Reps reconciliations with D differing
// items; the average cost must stay below Bound*D.
type avgCase struct {
	Seed uint64
	D    int
	Reps int
	Frac int // percent of the difference on the sender's side
}

func runAvg(x *vh.Ctx, c avgCase) error {
	xorLimit = 0
	r := vh.NewRng(c.Seed)
	sum := 0
	for i := 0; i < c.Reps; i++ {
		var remote, local []uint64
		for j := 0; j < c.D; j++ {
			if j*100 < c.D*c.Frac {
				remote = append(remote, r.Uint64())
			} else {
				local = append(local, r.Uint64())
			}
		}
		n, _, err := cost(valKind, r.Uint64(), remote, local, nil)
		if err != nil {
			return err
		}
		sum += n
	}
	avg := float64(sum) / float64(c.Reps) / float64(c.D)
	bound := avgBound(c.D)
	if avg > bound {
		return vh.Fail("overhead", "average cost %.3f coded symbols per differing item over %d reconciliations of %d items exceeds %.2f", avg, c.Reps, c.D, bound)
	}
	x.Add(fmt.Sprintf("d%d-permille-overhead", c.D), int(avg*1000))
	x.Add(fmt.Sprintf("d%d-campaigns", c.D), 1)
	x.NonTrivial()
	return nil
}

func avgBound(d int) float64 {
	switch {
	case d < 10:
		return 2.05
	case d < 30:
		return 1.85
	case d < 80:
		return 1.72
	case d < 200:
		return 1.60
	default:
		return 1.52
	}
}

// densCase checks the fraction of items mapped to each cell against the
// 1/(1+i/2) law the code states.
type densCase struct {
	Seed  uint64
	Items int
	Cells int
}

func runDens(x *vh.Ctx, c densCase) error {
	xorLimit = 0
	r := vh.NewRng(c.Seed)
	ids := make([]uint64, c.Items)
	for i := range ids {
		ids[i] = r.Uint64()
	}
	cells := valKind.stream(ids, c.Cells)
	sum, exp := 0.0, 0.0
	for i, cc := range cells {
		p := 1 / (1 + float64(i)/2)
		sum += float64(cc.count)
		exp += p * float64(c.Items)
		if i == 0 && cc.count != int64(c.Items) {
			return vh.Fail("first-cell", "first coded symbol combines %d of %d items", cc.count, c.Items)
		}
	}
	x.Add("permille-of-law", int(1000*sum/exp))
	if sum > 1.10*exp || sum < 0.90*exp {
		return vh.Fail("density", "the first %d coded symbols combine %.0f items in total, expected about %.0f", c.Cells, sum, exp)
	}
	x.NonTrivial()
	return nil
}

// ---------------------------------------------------------------- C05

type reuseCase struct {
	First, Second setCase
	Cells1        int // coded symbols handled before the reset
	Cells2        int
	Cycles        int
	DecodeFirst   bool
}

func genReuse(t *rapid.T) reuseCase {
	g := genSet(25, 25)
	c := reuseCase{First: g(t), Second: g(t)}
	c.Second.Kind = c.First.Kind
	c.Cells1 = rapid.IntRange(0, 70).Draw(t, "cells1")
	c.Cells2 = rapid.IntRange(1, 70).Draw(t, "cells2")
	c.Cycles = rapid.IntRange(1, 3).Draw(t, "cycles")
	c.DecodeFirst = rapid.Bool().Draw(t, "decodeFirst")
	return c
}

// trace is what a decoder shows after each coded symbol.
func traceDec[T riblt.Symbol[T]](k kind[T], dec *riblt.Decoder[T], enc *riblt.Encoder[T], n, schedule int) []string {
	var out []string
	last := 0
	for i := 1; i <= n; i++ {
		dec.AddCodedSymbol(enc.ProduceNextCodedSymbol())
		if due(schedule, i, last) {
			dec.TryDecode()
			last = i
		}
		out = append(out, showDec(k, dec))
	}
	return out
}

func showDec[T riblt.Symbol[T]](k kind[T], dec *riblt.Decoder[T]) string {
	return fmt.Sprint(dec.Decoded(), " R", showItems(k, dec.Remote()), " L", showItems(k, dec.Local()))
}

func showItems[T riblt.Symbol[T]](k kind[T], l []riblt.HashedSymbol[T]) []string {
	var out []string
	for _, s := range l {
		id, ok := k.pristine(s.Symbol)
		out = append(out, fmt.Sprintf("%x/%v/%v", id, ok, s.Hash == mix(id)))
	}
	sort.Strings(out)
	return out
}

func runReuse[T riblt.Symbol[T]](x *vh.Ctx, k kind[T], c reuseCase) error {
	enc, dec := &riblt.Encoder[T]{}, &riblt.Decoder[T]{}
	enc2 := &riblt.Encoder[T]{} // reused encoder feeding nothing, compared cell by cell
	for cyc := 0; cyc < c.Cycles; cyc++ {
		f := c.First
		f.Seed += uint64(cyc)
		remote, local, common := f.ids()
		r := vh.NewRng(f.Seed + 5)
		addAll(k, r, enc.AddSymbol, enc.AddHashedSymbol, remote, common)
		addAll(k, r, enc2.AddSymbol, enc2.AddHashedSymbol, remote, common)
		addAll(k, r, dec.AddSymbol, dec.AddHashedSymbol, local, common)
		for i := 0; i < c.Cells1; i++ {
			enc2.ProduceNextCodedSymbol()
			dec.AddCodedSymbol(enc.ProduceNextCodedSymbol())
			if c.DecodeFirst && due(f.Schedule, i+1, i/2) {
				dec.TryDecode()
			}
		}
		enc.Reset()
		enc2.Reset()
		dec.Reset()
		if !dec.Decoded() || len(dec.Remote()) != 0 || len(dec.Local()) != 0 {
			return vh.Fail("reset-decoder", "a decoder that was just reset shows %s", showDec(k, dec))
		}
	}
	remote, local, common := c.Second.ids()
	seed := c.Second.Seed + 6
	fe, fd, fe2 := &riblt.Encoder[T]{}, &riblt.Decoder[T]{}, &riblt.Encoder[T]{}
	for _, e := range []*riblt.Encoder[T]{enc, enc2, fe, fe2} {
		addAll(k, vh.NewRng(seed), e.AddSymbol, e.AddHashedSymbol, remote, common)
	}
	for _, d := range []*riblt.Decoder[T]{dec, fd} {
		addAll(k, vh.NewRng(seed), d.AddSymbol, d.AddHashedSymbol, local, common)
	}
	for i := 0; i < c.Cells2; i++ {
		a, b := enc2.ProduceNextCodedSymbol(), fe2.ProduceNextCodedSymbol()
		if k.cell(&a) != k.cell(&b) {
			return vh.Fail("reset-encoder", "coded symbol %d after reset is %+v, a new encoder gives %+v", i, k.cell(&a), k.cell(&b))
		}
	}
	got := traceDec(k, dec, enc, c.Cells2, c.Second.Schedule)
	want := traceDec(k, fd, fe, c.Cells2, c.Second.Schedule)
	for i := range want {
		if got[i] != want[i] {
			return vh.Fail("reset-decoder", "after coded symbol %d the reset decoder shows %s, a new one %s", i, got[i], want[i])
		}
	}
	x.Tag(c.First.Kind)
	if c.Cells1 > 0 && c.First.Remote+c.First.Local+c.First.Common > 0 && c.Second.Remote+c.Second.Local > 0 {
		x.NonTrivial()
	}
	return nil
}

type shareCase struct {
	Set       setCase
	Receivers []recvSpec // decoders with different local sets and schedules
	Cells     int
}

type recvSpec struct {
	Keep     int // percent of the universe this receiver already has
	Own      int // items of its own
	Schedule int
	Delay    int // how many cells behind the first receiver it handles the shared cells
}

func genShare(t *rapid.T) shareCase {
	g := genSet(20, 20)
	c := shareCase{Set: g(t)}
	n := rapid.IntRange(1, 3).Draw(t, "receivers")
	for i := 0; i < n; i++ {
		c.Receivers = append(c.Receivers, recvSpec{
			Keep:     rapid.SampledFrom([]int{0, 30, 60, 90, 100}).Draw(t, "keep"),
			Own:      rapid.IntRange(0, 5).Draw(t, "own"),
			Schedule: rapid.SampledFrom([]int{0, 0, 3, -1}).Draw(t, "schedule"),
			Delay:    rapid.IntRange(0, 10).Draw(t, "delay"),
		})
	}
	c.Cells = rapid.IntRange(1, 60).Draw(t, "cells")
	return c
}

// runShare shares items and coded symbols between an encoder, several
// decoders and a sketch, and compares each decoder with one that works on
// private copies; afterwards all shared values must be intact.
func runShare[T riblt.Symbol[T]](x *vh.Ctx, k kind[T], c shareCase) error {
	remote, _, common := c.Set.ids()
	universe := append(append([]uint64{}, remote...), common...)
	pool := make([]T, len(universe)) // shared item objects
	for i, id := range universe {
		pool[i] = k.mk(id)
	}
	enc := &riblt.Encoder[T]{}
	sk := make(riblt.Sketch[T], c.Cells)
	for i := range pool {
		enc.AddSymbol(pool[i])
		sk.AddSymbol(pool[i])
	}
	shared := make([]riblt.CodedSymbol[T], c.Cells)
	snap := make([]cell, c.Cells)
	for i := range shared {
		shared[i] = enc.ProduceNextCodedSymbol()
		snap[i] = k.cell(&shared[i])
	}
	type side struct {
		dec  *riblt.Decoder[T]
		mine []uint64
	}
	var subj []side
	r := vh.NewRng(c.Set.Seed + 7)
	ownObjs := [][]T{}
	for ri, spec := range c.Receivers {
		s := side{dec: &riblt.Decoder[T]{}}
		var objs []T
		for i, id := range universe {
			if r.Intn(100) < spec.Keep {
				s.dec.AddSymbol(pool[i]) // the very same object
				s.mine = append(s.mine, id)
			}
		}
		for j := 0; j < spec.Own; j++ {
			id := mix(c.Set.Seed*1000003 + uint64(ri*100+j) + 1)
			o := k.mk(id)
			objs = append(objs, o)
			s.dec.AddSymbol(o)
			s.mine = append(s.mine, id)
		}
		ownObjs = append(ownObjs, objs)
		subj = append(subj, s)
	}
	// interleave: receiver i handles cell j at step j+Delay_i
	lastN := make([]int, len(subj))
	traces := make([][]string, len(subj))
	for step := 0; step < c.Cells+12; step++ {
		for i, spec := range c.Receivers {
			j := step - spec.Delay
			if j < 0 || j >= c.Cells {
				continue
			}
			subj[i].dec.AddCodedSymbol(shared[j])
			if due(spec.Schedule, j+1, lastN[i]) {
				subj[i].dec.TryDecode()
				lastN[i] = j + 1
			}
			traces[i] = append(traces[i], showDec(k, subj[i].dec))
		}
	}
	intact := func(when string) error {
		for i, id := range universe {
			if got, ok := k.pristine(pool[i]); !ok || got != id {
				return vh.Fail("item-modified", "item %x was modified %s", id, when)
			}
		}
		for ri := range ownObjs {
			for _, o := range ownObjs[ri] {
				if _, ok := k.pristine(o); !ok {
					return vh.Fail("item-modified", "a receiver's own item was modified %s", when)
				}
			}
		}
		for i := range shared {
			if k.cell(&shared[i]) != snap[i] {
				return vh.Fail("coded-symbol-modified", "coded symbol %d was modified %s", i, when)
			}
		}
		return nil
	}
	if err := intact("while decoding"); err != nil {
		return err
	}
	for i, spec := range c.Receivers {
		fe, fd := &riblt.Encoder[T]{}, &riblt.Decoder[T]{}
		for _, id := range universe {
			fe.AddSymbol(k.mk(id))
		}
		for _, id := range subj[i].mine {
			fd.AddSymbol(k.mk(id))
		}
		want := traceDec(k, fd, fe, c.Cells, spec.Schedule)
		for j := range want {
			if traces[i][j] != want[j] {
				return vh.Fail("shared-decode-differs", "receiver %d after coded symbol %d shows %s; with private copies %s", i, j, traces[i][j], want[j])
			}
		}
	}
	// decoding a sketch leaves it intact and is repeatable
	sk2 := make(riblt.Sketch[T], c.Cells)
	for i := range pool {
		if r.Intn(100) < 50 {
			sk2.AddSymbol(pool[i])
		}
	}
	diff := sk.Subtract(sk2)
	before := make([]cell, len(diff))
	for i := range diff {
		before[i] = k.cell(&diff[i])
	}
	r1, l1, ok1 := diff.Decode()
	for i := range diff {
		if k.cell(&diff[i]) != before[i] {
			return vh.Fail("sketch-modified", "decoding changed cell %d of the sketch", i)
		}
	}
	r2, l2, ok2 := diff.Decode()
	if ok1 != ok2 || fmt.Sprint(showItems(k, r1), showItems(k, l1)) != fmt.Sprint(showItems(k, r2), showItems(k, l2)) {
		return vh.Fail("sketch-modified", "decoding the same sketch twice gives different results")
	}
	// the cells of a difference, empty ones included, handed to a decoder with items of its own
	own := &riblt.Decoder[T]{}
	for i := range pool {
		if r.Intn(100) < 40 {
			own.AddSymbol(pool[i])
		}
	}
	for i := range diff {
		own.AddCodedSymbol(diff[i])
	}
	own.TryDecode()
	for i := range diff {
		if k.cell(&diff[i]) != before[i] {
			return vh.Fail("coded-symbol-modified", "cell %d of the sketch was modified by a decoder", i)
		}
	}
	// keep producing from the encoder that shares the items
	for i := 0; i < 20; i++ {
		enc.ProduceNextCodedSymbol()
	}
	if err := intact("by sketches or the encoder"); err != nil {
		return err
	}
	for i := range c.Receivers {
		if got := showDec(k, subj[i].dec); got != traces[i][c.Cells-1] {
			return vh.Fail("results-modified", "results of receiver %d changed from %s to %s after the fact", i, traces[i][c.Cells-1], got)
		}
	}
	x.Tag(c.Set.Kind)
	x.TagIf(len(c.Receivers) > 1, "several-receivers")
	if len(universe) > 1 && c.Cells > 2 && c.Set.Kind != "val" {
		x.NonTrivial()
	}
	return nil
}

// ---------------------------------------------------------------- C06

type hashCase struct {
	Kind   string
	Class  string
	Hash   uint64
	Where  string // remote, local, common
	Others setCase
	Cells  int
}

const mapMult = 0xda942042e4dd58b5

func genHash(t *rapid.T) hashCase {
	c := hashCase{
		Kind:  rapid.SampledFrom([]string{"val", "ptr", "slice"}).Draw(t, "kind"),
		Class: rapid.SampledFrom([]string{"zero", "small", "ones", "pow2", "tinystate", "hugestate", "halfstate", "random"}).Draw(t, "class"),
		Where: rapid.SampledFrom([]string{"remote", "local", "common"}).Draw(t, "where"),
		Cells: rapid.IntRange(1, 300).Draw(t, "cells"),
	}
	inv := inv64(mapMult)
	back := func(state uint64) uint64 {
		for s := rapid.IntRange(1, 4).Draw(t, "steps"); s > 0; s-- {
			state *= inv
		}
		return state
	}
	small := rapid.Uint64Range(0, 4096).Draw(t, "low")
	switch c.Class {
	case "zero":
		c.Hash = 0
	case "small":
		c.Hash = small
	case "ones":
		c.Hash = ^uint64(0) - small
	case "pow2":
		c.Hash = 1<<rapid.UintRange(0, 63).Draw(t, "bit") + small%3 - 1
	case "tinystate":
		c.Hash = back(small)
	case "hugestate":
		c.Hash = back(^uint64(0) - small)
	case "halfstate":
		c.Hash = back(1<<63 + small - 2048)
	default:
		c.Hash = mix(vh.Seed(t))
	}
	c.Others = setCase{Seed: vh.Seed(t), Remote: vh.Size(t, "remote", 30), Local: vh.Size(t, "local", 30), Common: vh.Size(t, "common", 30)}
	return c
}

func runC06[T riblt.Symbol[T]](x *vh.Ctx, k kind[T], c hashCase) error {
	id := unmix(c.Hash)
	if mix(id) != c.Hash {
		return vh.Harnessf("unmix broken")
	}
	bounded := func(limit int, f func()) {
		xorCalls, xorLimit = 0, limit
		f()
		xorLimit = 0
	}
	defer func() { xorLimit = 0 }()
	n := c.Cells
	// a single item's stream
	enc := &riblt.Encoder[T]{}
	enc.AddSymbol(k.mk(id))
	want := make([]cell, n)
	for i := 0; i < n; i++ {
		var cs riblt.CodedSymbol[T]
		bounded(20, func() { cs = enc.ProduceNextCodedSymbol() })
		g := k.cell(&cs)
		one := cell{id: id, w: fill(id), count: 1, checksum: c.Hash}
		if i == 0 && g != one {
			return vh.Fail("first-cell", "the first coded symbol of a single item with hash %x is %+v", c.Hash, g)
		}
		if g != one && g != (cell{}) {
			return vh.Fail("repeated-contribution", "coded symbol %d of a single item with hash %x is %+v", i, c.Hash, g)
		}
		want[i] = g
	}
	sk := make(riblt.Sketch[T], n)
	bounded(20*n+20, func() { sk.AddSymbol(k.mk(id)) })
	for i := range sk {
		if g := k.cell(&sk[i]); g != want[i] {
			return vh.Fail("sketch-differs", "sketch cell %d of a single item with hash %x is %+v, stream has %+v", i, c.Hash, g, want[i])
		}
	}
	var gr, gl []riblt.HashedSymbol[T]
	var ok bool
	bounded(100*n+100, func() { gr, gl, ok = sk.Decode() })
	if !ok || len(gl) != 0 {
		return vh.Fail("single-item-decode", "sketch of a single item with hash %x: success=%v, %d local items", c.Hash, ok, len(gl))
	}
	if err := report(k, "remote", gr, map[uint64]bool{id: true}); err != nil {
		return err
	}
	// among ordinary items
	remote, local, common := c.Others.ids()
	for _, s := range [][]uint64{remote, local, common} {
		for _, o := range s {
			if o == id {
				return nil
			}
		}
	}
	switch c.Where {
	case "remote":
		remote = append(remote, id)
	case "local":
		local = append(local, id)
	default:
		common = append(common, id)
	}
	r := vh.NewRng(c.Others.Seed)
	e, d := &riblt.Encoder[T]{}, &riblt.Decoder[T]{}
	addAll(k, r, e.AddSymbol, e.AddHashedSymbol, remote, common)
	addAll(k, r, d.AddSymbol, d.AddHashedSymbol, local, common)
	tot := len(remote) + len(local) + len(common)
	for i := 1; ; i++ {
		bounded(10000+100*tot+i*100, func() {
			d.AddCodedSymbol(e.ProduceNextCodedSymbol())
			d.TryDecode()
		})
		if d.Decoded() {
			break
		}
		if i > 4000 {
			return vh.Fail("never-completes", "item with hash %x among %d others prevents completion within %d coded symbols", c.Hash, tot-1, i)
		}
	}
	if err := report(k, "remote", d.Remote(), toSet(remote)); err != nil {
		return err
	}
	if err := report(k, "local", d.Local(), toSet(local)); err != nil {
		return err
	}
	x.Tag(c.Class)
	x.Tag(c.Where)
	if c.Class != "random" {
		x.NonTrivial()
	}
	return nil
}

// multi: several arbitrary hashes at once; only soundness and termination.
type hashesCase struct {
	Kind   string
	Hashes []uint64
	Side   []int // 0 remote, 1 local, 2 common
	Cells  int
}

func genHashes(t *rapid.T) hashesCase {
	c := hashesCase{Kind: rapid.SampledFrom([]string{"val", "ptr", "slice"}).Draw(t, "kind"), Cells: rapid.IntRange(1, 120).Draw(t, "cells")}
	seen := map[uint64]bool{}
	for n := rapid.IntRange(1, 12).Draw(t, "n"); n > 0; n-- {
		h := genHash(t).Hash
		if !seen[h] {
			seen[h] = true
			c.Hashes = append(c.Hashes, h)
			c.Side = append(c.Side, rapid.IntRange(0, 2).Draw(t, "side"))
		}
	}
	return c
}

func runC06Multi[T riblt.Symbol[T]](x *vh.Ctx, k kind[T], c hashesCase) error {
	defer func() { xorLimit = 0 }()
	xorCalls, xorLimit = 0, 200000
	e, d := &riblt.Encoder[T]{}, &riblt.Decoder[T]{}
	m := map[uint64][]bool{}
	rs, ls := map[uint64]bool{}, map[uint64]bool{}
	for i, h := range c.Hashes {
		id := unmix(h)
		switch c.Side[i] {
		case 0:
			rs[id] = true
			e.AddSymbol(k.mk(id))
		case 1:
			ls[id] = true
			d.AddSymbol(k.mk(id))
		default:
			e.AddSymbol(k.mk(id))
			d.AddSymbol(k.mk(id))
		}
		if c.Side[i] != 2 {
			m[id] = k.mapping(id, c.Cells)
		}
	}
	for n := 1; n <= c.Cells; n++ {
		d.AddCodedSymbol(e.ProduceNextCodedSymbol())
		d.TryDecode()
		got, _ := closure(m, n)
		wr, wl := map[uint64]bool{}, map[uint64]bool{}
		for id := range got {
			if rs[id] {
				wr[id] = true
			} else {
				wl[id] = true
			}
		}
		if err := report(k, "remote", d.Remote(), wr); err != nil {
			return err
		}
		if err := report(k, "local", d.Local(), wl); err != nil {
			return err
		}
	}
	if len(c.Hashes) > 2 {
		x.NonTrivial()
	}
	return nil
}

// ---------------------------------------------------------------- registry

func setSub(name string, n, maxDiff, maxCommon int,
	fv func(*vh.Ctx, kind[valSym], setCase) error, fp func(*vh.Ctx, kind[*ptrSym], setCase) error, fs func(*vh.Ctx, kind[sliceSym], setCase) error) *vh.Sub {
	return vh.NewSub(name, n, genSet(maxDiff, maxCommon), func(x *vh.Ctx, c setCase) error {
		return withKind(c.Kind, func(k kind[valSym]) error { return fv(x, k, c) },
			func(k kind[*ptrSym]) error { return fp(x, k, c) }, func(k kind[sliceSym]) error { return fs(x, k, c) })
	})
}

func init() {
	props = append(props,
		&vh.Property{ID: "C01", Rule: "random pairs of sets (sender-only, receiver-only, common sizes, item type, decode schedule, extra symbols); non-trivial: the sets differ",
			Assumptions: []string{"distinct items have distinct 64-bit hashes"},
			Subs: []*vh.Sub{
				setSub("small", 12000, 60, 60, runC01[valSym], runC01[*ptrSym], runC01[sliceSym]),
				setSub("large", 60, 3000, 4000, runC01[valSym], runC01[*ptrSym], runC01[sliceSym]).T(400),
			}},
		&vh.Property{ID: "C02", Rule: "random pairs of sets, decode attempts on a schedule, every prefix compared with symbolic peeling; non-trivial: both sides have private items and some prefix is partially decoded",
			Assumptions: []string{"distinct items have distinct 64-bit hashes"},
			Subs:        []*vh.Sub{setSub("prefixes", 7000, 24, 20, runC02[valSym], runC02[*ptrSym], runC02[sliceSym])}},
		&vh.Property{ID: "C03", Rule: "random sets and lengths; non-trivial: at least two items and two cells (stream), non-empty difference and sketch (subtract), a cell of the inner difference with zero count but content (chained)",
			Subs: []*vh.Sub{
				vh.NewSub("stream", 5000, genLin(25), func(x *vh.Ctx, c linCase) error {
					return withKind(c.Set.Kind, func(k kind[valSym]) error { return runC03Stream(x, k, c) },
						func(k kind[*ptrSym]) error { return runC03Stream(x, k, c) }, func(k kind[sliceSym]) error { return runC03Stream(x, k, c) })
				}),
				vh.NewSub("subtract", 12000, genLin(25), func(x *vh.Ctx, c linCase) error {
					return withKind(c.Set.Kind, func(k kind[valSym]) error { return runC03Sub(x, k, c) },
						func(k kind[*ptrSym]) error { return runC03Sub(x, k, c) }, func(k kind[sliceSym]) error { return runC03Sub(x, k, c) })
				}),
				vh.NewSub("chained", 3000, genLin(16), func(x *vh.Ctx, c linCase) error {
					return withKind(c.Set.Kind, func(k kind[valSym]) error { return runC03Chain(x, k, c) },
						func(k kind[*ptrSym]) error { return runC03Chain(x, k, c) }, func(k kind[sliceSym]) error { return runC03Chain(x, k, c) })
				}),
				vh.NewSub("large", 24, genLarge, func(x *vh.Ctx, c linCase) error {
					return withKind(c.Set.Kind, func(k kind[valSym]) error { return runC03Large(x, k, c) },
						func(k kind[*ptrSym]) error { return runC03Large(x, k, c) }, func(k kind[sliceSym]) error { return runC03Large(x, k, c) })
				}).T(200),
			}},
		&vh.Property{ID: "C04", Rule: "random differences with several common sets (exact equality of cost), plus averaged campaigns; non-trivial: non-empty difference with at least one common set",
			Assumptions: []string{"averages use fixed seeds and bounds about 10% or more above the measured mean (many standard errors)"},
			Subs: []*vh.Sub{
				vh.NewSub("common-items", 2000, func(t *rapid.T) costCase {
					c := costCase{Seed: vh.Seed(t), Kind: rapid.SampledFrom([]string{"val", "ptr"}).Draw(t, "kind"), Remote: vh.Size(t, "remote", 150), Local: vh.Size(t, "local", 150)}
					for n := rapid.IntRange(1, 3).Draw(t, "sets"); n > 0; n-- {
						c.Common = append(c.Common, vh.Size(t, "common", 600))
					}
					return c
				}, func(x *vh.Ctx, c costCase) error {
					return withKind(c.Kind, func(k kind[valSym]) error { return runC04(x, k, c) },
						func(k kind[*ptrSym]) error { return runC04(x, k, c) }, nil)
				}),
				vh.NewSub("average", 40, func(t *rapid.T) avgCase {
					d := rapid.SampledFrom([]int{6, 20, 50, 120, 400}).Draw(t, "d")
					return avgCase{Seed: vh.Seed(t), D: d, Reps: 40000/d/2 + 50, Frac: rapid.SampledFrom([]int{0, 30, 50, 100}).Draw(t, "frac")}
				}, runAvg),
				vh.NewSub("density", 20, func(t *rapid.T) densCase {
					return densCase{Seed: vh.Seed(t), Items: 3000, Cells: rapid.IntRange(20, 600).Draw(t, "cells")}
				}, runDens),
			}},
		&vh.Property{ID: "C05", Rule: "reuse: a use history, resets, then a second use compared with fresh objects (non-trivial: both uses non-empty); share: items and coded symbols shared by encoder, sketches and several decoders compared with private copies (non-trivial: in-place item types, at least two items)",
			Subs: []*vh.Sub{
				vh.NewSub("reuse", 8000, genReuse, func(x *vh.Ctx, c reuseCase) error {
					return withKind(c.First.Kind, func(k kind[valSym]) error { return runReuse(x, k, c) },
						func(k kind[*ptrSym]) error { return runReuse(x, k, c) }, func(k kind[sliceSym]) error { return runReuse(x, k, c) })
				}),
				vh.NewSub("share", 6000, genShare, func(x *vh.Ctx, c shareCase) error {
					return withKind(c.Set.Kind, func(k kind[valSym]) error { return runShare(x, k, c) },
						func(k kind[*ptrSym]) error { return runShare(x, k, c) }, func(k kind[sliceSym]) error { return runShare(x, k, c) })
				}),
			}},
		&vh.Property{ID: "C06", Rule: "one item with a chosen hash (zero, small, all ones, powers of two, values that drive the index generator to tiny, huge or half states) alone and among ordinary items, and sets of such items; non-trivial: not an ordinary random hash",
			Assumptions: []string{"completion with several extreme hashes in one set is not claimed (such items may share all their cells)"},
			Subs: []*vh.Sub{
				vh.NewSub("single", 15000, genHash, func(x *vh.Ctx, c hashCase) error {
					return withKind(c.Kind, func(k kind[valSym]) error { return runC06(x, k, c) },
						func(k kind[*ptrSym]) error { return runC06(x, k, c) }, func(k kind[sliceSym]) error { return runC06(x, k, c) })
				}),
				vh.NewSub("several", 5000, genHashes, func(x *vh.Ctx, c hashesCase) error {
					return withKind(c.Kind, func(k kind[valSym]) error { return runC06Multi(x, k, c) },
						func(k kind[*ptrSym]) error { return runC06Multi(x, k, c) }, func(k kind[sliceSym]) error { return runC06Multi(x, k, c) })
				}),
			}},
	)
}
