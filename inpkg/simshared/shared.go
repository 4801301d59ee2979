//go:build go1.23

package main

import (
	"flag"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"
	"verif/libs/simx"
	"verif/vh"
)

// Checks common to both simulators, which carry copies of the same helpers.
// The file joins both packages.

var zvProps []*vh.Property

// ---------------------------------------------------------------- C25

type zvTopoCase struct {
	Lines   [][3]int
	BadAt   int // index at which a malformed line is inserted (-1: none)
	Bad     string
	NoFinal bool // no newline at the end of the file
	Missing bool
	Dir     bool
}

var zvBadLines = map[string]string{
	"empty":         "",
	"one-field":     "1",
	"two-fields":    "1,2",
	"dangling":      "1,2,",
	"words":         "a,b,c",
	"header":        "from,to,delay",
	"no-commas":     "1 2 3",
	"semicolons":    "1;2;3",
	"empty-field":   "1,,3",
	"word-delay":    "1,2,fast",
	"word-endpoint": "x,2,3",
	"comment":       "# 1,2,3",
	"huge-number":   "1,2,99999999999999999999999999",
	"long":          "LONG",
}

func zvGenTopoCase(t *rapid.T) zvTopoCase {
	c := zvTopoCase{BadAt: -1}
	n := vh.Size(t, "lines", 3000)
	r := vh.NewRng(vh.Seed(t))
	maxNode := vh.OneOf(t, "maxNode", 1, 10, 1000, 1<<30, 1<<45)
	maxMS := vh.OneOf(t, "maxMS", 0, 1, 300, 1000000, 9000000000000)
	for i := 0; i < n; i++ {
		c.Lines = append(c.Lines, [3]int{r.Intn(maxNode + 1), r.Intn(maxNode + 1), r.Intn(maxMS + 1)})
	}
	c.NoFinal = vh.Uniform(t, "noFinalNewline", 4) == 0
	switch vh.Uniform(t, "kind", 8) {
	case 0, 1, 2:
		c.BadAt = vh.Uniform(t, "badAt", 200)
		if c.BadAt > n {
			c.BadAt = n
		}
		names := []string{}
		for k := range zvBadLines {
			names = append(names, k)
		}
		sort.Strings(names)
		c.Bad = vh.OneOf(t, "bad", names...)
		if c.Bad == "empty" {
			c.NoFinal = false
		}
	case 3:
		c.Missing = vh.Uniform(t, "missing", 2) == 0
		c.Dir = !c.Missing && vh.Uniform(t, "dir", 2) == 0
	}
	return c
}

func zvTopology(x *vh.Ctx, c zvTopoCase) error {
	dir, err := os.MkdirTemp("", "topo")
	if err != nil {
		return vh.Harnessf("%v", err)
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "topo.csv")
	var lines []string
	for i := 0; i <= len(c.Lines); i++ {
		if i == c.BadAt {
			b := zvBadLines[c.Bad]
			if b == "LONG" {
				b = strings.Repeat("x", 100000)
			}
			lines = append(lines, b)
		}
		if i < len(c.Lines) {
			l := c.Lines[i]
			lines = append(lines, fmt.Sprintf("%d,%d,%d", l[0], l[1], l[2]))
		}
	}
	text := strings.Join(lines, "\n")
	if len(lines) > 0 && !c.NoFinal {
		text += "\n"
	}
	switch {
	case c.Missing:
	case c.Dir:
		if err := os.Mkdir(path, 0o755); err != nil {
			return vh.Harnessf("%v", err)
		}
	default:
		if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
			return vh.Harnessf("%v", err)
		}
	}
	if c.Missing || c.Dir || c.BadAt >= 0 {
		var got []connection
		if !vh.Panics(func() { got, _ = loadTopology(path) }) {
			return vh.Fail("unreported", "missing=%v directory=%v malformed=%q at line %d: loaded %d connections without complaint", c.Missing, c.Dir, c.Bad, c.BadAt, len(got))
		}
		x.Tag("malformed")
		x.NonTrivial()
		return nil
	}
	got, n := loadTopology(path)
	if len(got) != len(c.Lines) {
		return vh.Fail("wrong-connections", "%d connections from %d lines", len(got), len(c.Lines))
	}
	want := 0
	for i, l := range c.Lines {
		g := got[i]
		if g.a != l[0] || g.b != l[1] || g.delay != time.Duration(l[2])*time.Millisecond {
			return vh.Fail("wrong-connections", "line %d is %v, loaded as %d,%d,%v", i, l, g.a, g.b, g.delay)
		}
		want = max(want, l[0]+1, l[1]+1)
	}
	if len(c.Lines) > 0 && n != want {
		return vh.Fail("wrong-node-count", "node count %d, expected %d", n, want)
	}
	if len(c.Lines) > 1 {
		x.NonTrivial()
	}
	x.TagIf(len(text) > 4096, "larger-than-a-buffer")
	return nil
}

// ---------------------------------------------------------------- C26

type zvFilterCase struct {
	Ops []int // value to record, or -1: read
}

func zvFilters(x *vh.Ctx, c zvFilterCase) error {
	mi, mf := maximum[int]{}, maximum[float64]{}
	di, df := difference[int]{}, difference[float64]{}
	peak, last, lastRead := 0, 0, 0
	reads := 0
	for i, o := range c.Ops {
		if o >= 0 {
			mi.record(o)
			mf.record(float64(o) / 4)
			di.record(o)
			df.record(float64(o) / 4)
			peak, last = max(peak, o), o
			continue
		}
		reads++
		if g := mi.get(); g != peak {
			return vh.Fail("wrong-peak", "operation %d: peak %d, expected %d", i, g, peak)
		}
		if g := mf.get(); g != float64(peak)/4 {
			return vh.Fail("wrong-peak", "operation %d: peak %v, expected %v", i, g, float64(peak)/4)
		}
		if g := di.get(); g != last-lastRead {
			return vh.Fail("wrong-difference", "operation %d: difference %d, expected %d", i, g, last-lastRead)
		}
		if g := df.get(); g != float64(last-lastRead)/4 {
			return vh.Fail("wrong-difference", "operation %d: difference %v, expected %v", i, g, float64(last-lastRead)/4)
		}
		peak, lastRead = 0, last
	}
	if reads > 1 && len(c.Ops) > reads {
		x.NonTrivial()
	}
	return nil
}

type zvSketchCase struct {
	Warmup int64 // ns
	Seed   uint64
	N      int
	Spread int // values span this many decades
	Raw    bool
	Zeros  bool
}

func zvSketch(x *vh.Ctx, c zvSketchCase) error {
	r := vh.NewRng(c.Seed)
	warm := time.Duration(c.Warmup)
	s := newDistributionSketch(warm)
	var kept []float64
	atEdge := false
	for i := 0; i < c.N; i++ {
		var tp time.Duration
		switch r.Intn(4) {
		case 0:
			tp = time.Duration(r.Uint64() % uint64(c.Warmup+1))
		case 1:
			tp = warm + time.Duration(r.Intn(3)-1)
		default:
			tp = warm + time.Duration(r.Uint64()%uint64(100*time.Second))
		}
		if tp < 0 {
			tp = 0
		}
		v := int64(math.Pow(10, float64(c.Spread)*r.Float()))
		if c.Zeros && r.Intn(4) == 0 {
			v = 0
		}
		var val float64
		if c.Raw {
			val = float64(v) / 1000
			s.recordRaw(val, tp)
		} else {
			if v > int64(tp) {
				v = int64(tp)
			}
			ts := tp - time.Duration(v)
			s.recordTxLatency(transaction{idx: r.Uint64(), ts: ts}, tp)
			val = float64(v) / 1e9
		}
		if tp >= warm {
			kept = append(kept, val)
			atEdge = atEdge || tp == warm
		}
	}
	if len(kept) == 0 {
		return nil
	}
	sort.Float64s(kept)
	qs := []float64{0, 0.05, 0.25, 0.5, 0.75, 0.95, 1}
	for i := 0; i < 5; i++ {
		qs = append(qs, r.Float())
	}
	got := s.getQuantiles(qs)
	if len(got) != len(qs) {
		return vh.Fail("wrong-quantiles", "%d answers to %d queries", len(got), len(qs))
	}
	for i, q := range qs {
		rank := q * float64(len(kept)-1)
		lo, hi := kept[int(math.Floor(rank))], kept[int(math.Ceil(rank))]
		tol := 1e-7
		if c.Raw {
			tol = 1e-12
		}
		near := func(v float64) bool { return math.Abs(got[i]-v) <= 0.0100001*v+tol }
		if !near(lo) && !near(hi) {
			return vh.Fail("wrong-quantiles", "%d samples after the warm-up of %v: quantile %v is %v, expected %v (or %v)", len(kept), warm, q, got[i], lo, hi)
		}
	}
	x.TagIf(atEdge, "sample-at-warm-up-end")
	x.TagIf(c.Raw, "raw")
	if len(kept) > 1 && len(kept) < c.N {
		x.NonTrivial()
	}
	return nil
}

// zvMomentsOf checks a seven-number summary of the values.
func zvMomentsOf(a, xs []float64) error {
	n := len(xs)
	if len(a) != 7 {
		return vh.Fail("wrong-moments", "%d numbers instead of 7", len(a))
	}
	sorted := append([]float64{}, xs...)
	sort.Float64s(sorted)
	span := math.Max(math.Abs(sorted[0]), math.Abs(sorted[n-1])) + 1e-300
	same := func(u, v float64) bool { return math.Abs(u-v) <= 1e-9*span }
	mean := 0.0
	for _, v := range sorted {
		mean += v / float64(n)
	}
	if !same(a[0], mean) {
		return vh.Fail("wrong-mean", "mean %v, expected %v", a[0], mean)
	}
	if n >= 2 {
		ss := 0.0
		for _, v := range sorted {
			ss += (v - mean) / span * (v - mean) / span
		}
		if sd := math.Sqrt(ss/float64(n-1)) * span; math.Abs(a[1]-sd) > 1e-6*span {
			return vh.Fail("wrong-deviation", "standard deviation %v, expected %v", a[1], sd)
		}
	}
	for i, q := range []float64{0.05, 0.25, 0.5, 0.75, 0.95} {
		r := q * float64(n-1)
		lo := sorted[max(0, int(math.Floor(r))-1)]
		hi := sorted[min(n-1, int(math.Ceil(r))+1)]
		if a[2+i] < lo-1e-9*span || a[2+i] > hi+1e-9*span {
			return vh.Fail("wrong-percentile", "percentile %v of %d values is %v, expected between %v and %v", q, n, a[2+i], lo, hi)
		}
	}
	return nil
}

type zvMomentsCase struct {
	Xs   []float64
	Seed uint64
}

func zvMoments(x *vh.Ctx, c zvMomentsCase) error {
	n := len(c.Xs)
	servers := make([]*server, n)
	val := map[*server]float64{}
	for i := range servers {
		servers[i] = &server{}
		val[servers[i]] = c.Xs[i]
	}
	metric := func(s *server) float64 { return val[s] }
	a := collectMoments(servers, metric)
	if len(a) != 7 {
		return vh.Fail("wrong-moments", "%d numbers instead of 7", len(a))
	}
	perm := make([]*server, n)
	for i, j := range vh.NewRng(c.Seed).Perm(n) {
		perm[i] = servers[j]
	}
	b := collectMoments(perm, metric)
	sorted := append([]float64{}, c.Xs...)
	sort.Float64s(sorted)
	span := math.Max(math.Abs(sorted[0]), math.Abs(sorted[n-1])) + 1e-300
	same := func(u, v float64) bool { return math.Abs(u-v) <= 1e-9*span }
	for i := range a {
		if i == 1 && n < 2 {
			continue // the standard deviation of one value is not defined
		}
		if !same(a[i], b[i]) {
			return vh.Fail("order-dependent", "number %d of the summary is %v, or %v for another node order (%v)", i, a[i], b[i], c.Xs)
		}
	}
	if err := zvMomentsOf(a, c.Xs); err != nil {
		return err
	}
	if n > 2 && sorted[0] != sorted[n-1] {
		x.NonTrivial()
	}
	return nil
}

type zvTxCase struct {
	Times []int64
	A, B  [2]uint64
}

// zvTxGen makes a fresh transaction generator; zvTxHash renders a hash.
var zvTxGen func() func(at time.Duration) transaction
var zvTxHash func(t transaction) string

func zvTransactions(x *vh.Ctx, c zvTxCase) error {
	gen := zvTxGen()
	seen := map[string]uint64{}
	var first uint64
	for i, at := range c.Times {
		tx := gen(time.Duration(at))
		if i == 0 {
			first = tx.idx
		}
		if tx.idx != first+uint64(i) {
			return vh.Fail("not-consecutive", "transaction %d has index %d, the first one %d", i, tx.idx, first)
		}
		if tx.ts != time.Duration(at) {
			return vh.Fail("wrong-time", "transaction generated at %d carries %d", at, tx.ts)
		}
		h := zvTxHash(tx)
		if j, dup := seen[h]; dup {
			return vh.Fail("hash-collision", "transactions %d and %d have the same hash", j, tx.idx)
		}
		seen[h] = tx.idx
	}
	a := transaction{c.A[0], time.Duration(c.A[1])}
	b := transaction{c.B[0], time.Duration(c.B[1])}
	if a.XOR(b).XOR(b) != a || a.XOR(b) != b.XOR(a) || (a.XOR(a) != transaction{}) || a.XOR(transaction{}) != a {
		return vh.Fail("xor-not-a-group", "%+v and %+v: XOR does not undo itself", a, b)
	}
	if zvTxHash(a) != zvTxHash(transaction{a.idx, b.ts}) {
		return vh.Fail("hash-depends-on-time", "transaction %d has two hashes", a.idx)
	}
	if a.idx != b.idx && zvTxHash(a) == zvTxHash(b) {
		return vh.Fail("hash-collision", "indices %d and %d have the same hash", a.idx, b.idx)
	}
	if len(c.Times) > 1 && a.idx != b.idx {
		x.NonTrivial()
	}
	return nil
}

func init() {
	zvProps = append(zvProps,
		&vh.Property{ID: "C25", Rule: "at least two connections, or a malformed line",
			Assumptions: []string{"well-formed lines are a,b,delay in decimal without spaces, with non-negative values; what follows the third field and the node count of an empty file are unspecified"},
			Subs:        []*vh.Sub{vh.NewSub("topology", 600, zvGenTopoCase, zvTopology).T(6000)}},
		&vh.Property{ID: "C26", Rule: "filters: two reads and a record; sketch: samples before and after the warm-up; moments: three values, not all equal; transactions: two of different index",
			Assumptions: []string{"filters record non-negative values", "a quantile may be the order statistic at either side of its rank, a percentile of the summary one further"},
			Subs: []*vh.Sub{
				vh.NewSub("filters", 2000, func(t *rapid.T) zvFilterCase {
					return zvFilterCase{rapid.SliceOfN(rapid.IntRange(-1, vh.OneOf(t, "max", 1, 5, 1000000)), 0, 60).Draw(t, "ops")}
				}, zvFilters),
				vh.NewSub("sketch", 600, func(t *rapid.T) zvSketchCase {
					return zvSketchCase{vh.OneOf(t, "warmup", 0, 1, int64(time.Second), int64(20*time.Second)), vh.Seed(t), vh.Size(t, "n", 2000), vh.Uniform(t, "spread", 11), rapid.Bool().Draw(t, "raw"), rapid.Bool().Draw(t, "zeros")}
				}, zvSketch),
				vh.NewSub("moments", 1500, func(t *rapid.T) zvMomentsCase {
					n := 1 + vh.Size(t, "n", 200)
					r := vh.NewRng(vh.Seed(t))
					c := zvMomentsCase{Seed: r.Uint64()}
					kind := vh.Uniform(t, "kind", 4)
					for i := 0; i < n; i++ {
						switch kind {
						case 0:
							c.Xs = append(c.Xs, float64(r.Intn(5)))
						case 1:
							c.Xs = append(c.Xs, r.Float()*1e6-5e5)
						case 2:
							c.Xs = append(c.Xs, math.Pow(10, r.Float()*20-10))
						default:
							c.Xs = append(c.Xs, float64(i*i))
						}
					}
					return c
				}, zvMoments),
				vh.NewSub("transactions", 800, func(t *rapid.T) zvTxCase {
					c := zvTxCase{Times: rapid.SliceOfN(rapid.Int64Range(0, 1<<50), 0, 300).Draw(t, "times")}
					r := vh.NewRng(vh.Seed(t))
					pick := func() uint64 {
						if r.Intn(2) == 0 {
							return r.Uint64() % 4 << (8 * (r.Uint64() % 8))
						}
						return r.Uint64()
					}
					c.A, c.B = [2]uint64{pick(), pick()}, [2]uint64{pick(), pick()}
					return c
				}, zvTransactions),
			}},
	)
}

// ---------------------------------------------------------------- C33

var zvQuiet func() func() // silences further output

// zvRunMain runs the command with the arguments and returns what it prints.
func zvRunMain(dir string, args []string) (out string, err error) {
	f, err := os.Create(filepath.Join(dir, "stdout"))
	if err != nil {
		return "", vh.Harnessf("%v", err)
	}
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		return "", vh.Harnessf("%v", err)
	}
	oa, oo, oe, of := os.Args, os.Stdout, os.Stderr, flag.CommandLine
	if zvQuiet != nil {
		defer zvQuiet()()
	}
	defer func() {
		os.Args, os.Stdout, os.Stderr, flag.CommandLine = oa, oo, oe, of
		f.Close()
		null.Close()
		if p := recover(); p != nil {
			b, _ := os.ReadFile(f.Name())
			out = string(b)
			err = vh.Fail("crash", "the command %v panicked: %v", args, p)
		}
	}()
	os.Args, os.Stdout, os.Stderr = append([]string{"simulator"}, args...), f, null
	flag.CommandLine = flag.NewFlagSet("simulator", flag.PanicOnError)
	main()
	b, rerr := os.ReadFile(f.Name())
	if rerr != nil {
		return "", vh.Harnessf("%v", rerr)
	}
	return string(b), nil
}

// zvLine finds the numbers a line with this title carries.
func zvLine(out, title string) ([]float64, error) {
	for _, l := range strings.Split(out, "\n") {
		rest, ok := strings.CutPrefix(l, "# "+title)
		if !ok {
			continue
		}
		var v []float64
		for _, w := range strings.Fields(strings.Trim(rest, " []")) {
			x, err := strconv.ParseFloat(w, 64)
			if err != nil {
				return nil, vh.Fail("unreadable-output", "line %q", l)
			}
			v = append(v, x)
		}
		return v, nil
	}
	return nil, vh.Fail("missing-output", "no line about %s in:\n%.2000s", title, out)
}

// zvReported checks the summary printed under a title against the values of the nodes.
func zvReported(x *vh.Ctx, out, title string, vals []float64) error {
	got, err := zvLine(out, title)
	if err != nil {
		return err
	}
	for _, v := range vals {
		if math.IsNaN(v) || math.IsInf(v, 0) {
			if len(got) != 7 {
				return vh.Fail("wrong-report", "%s: reported %v", title, got)
			}
			x.Tag("undefined-metric")
			return nil
		}
	}
	if err := zvMomentsOf(got, vals); err != nil {
		return vh.Fail("wrong-report", "%s: reported %v for values %v: %v", title, got, vals, err)
	}
	return nil
}

// zvTopoFile writes a topology file.
func zvTopoFile(dir string, tp simx.Topo) (string, error) {
	text := ""
	for _, e := range tp.Edges {
		text += fmt.Sprintf("%d,%d,%d\n", e.A, e.B, e.MS)
	}
	path := filepath.Join(dir, "topo.csv")
	if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
		return "", vh.Harnessf("%v", err)
	}
	return path, nil
}
