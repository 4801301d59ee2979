package libs

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/dchest/siphash"
	"github.com/yangl1996/rateless-set-reconcile/lt"
	"github.com/yangl1996/rateless-set-reconcile/microbenchmarks"
	"github.com/yangl1996/rateless-set-reconcile/riblt"
	"pgregory.net/rapid"
	"verif/vh"
)

// ---------------------------------------------------------------- C44

// The commands are built by the driver into VERIF_BIN.

type benchCase struct {
	Diff, Set, Tests int
	AutoSeed         bool // let the command draw other random sets every time
	NoTests          bool // leave -n out (100)
}

func runBench(x *vh.Ctx, c benchCase) error {
	args := []string{"-d", strconv.Itoa(c.Diff), "-s", strconv.Itoa(c.Set)}
	if !c.NoTests {
		args = append(args, "-n", strconv.Itoa(c.Tests))
	} else {
		c.Tests = 100
	}
	cmd := exec.Command(filepath.Join(os.Getenv("VERIF_BIN"), "benchmark"), args...)
	cmd.Env = append(os.Environ(), "GODEBUG=randautoseed=0")
	if c.AutoSeed {
		cmd.Env = append(os.Environ(), "GODEBUG=")
	}
	start := time.Now()
	out, err := cmd.CombinedOutput()
	wall := time.Since(start).Seconds()
	if err != nil {
		if _, ok := err.(*exec.ExitError); ok {
			return vh.Fail("benchmark-died", "%+v: %v\n%s", c, err, out)
		}
		return vh.Harnessf("%v", err)
	}
	var mean, over, enc, dec float64
	if _, err := fmt.Sscanf(string(out), "coded symbols %f, overhead %f, enc %f diff/s, dec %f diff/s", &mean, &over, &enc, &dec); err != nil {
		return vh.Fail("benchmark-output", "%+v: %v\n%s", c, err, out)
	}
	n, d := float64(c.Tests), float64(c.Diff)
	if total := mean * n; c.Tests < 100 && math.Abs(total-math.Round(total)) > 0.0051*n {
		return vh.Fail("not-a-mean", "%+v: %v is no mean of %d whole numbers", c, mean, c.Tests)
	}
	if math.Abs(over-mean/d) > 0.0051+0.0051/d {
		return vh.Fail("overhead", "%+v: overhead %v with %v coded symbols for a difference of %v", c, over, mean, d)
	}
	// the mean against reconciliations of our own
	r := vh.NewRng(uint64(c.Diff)*1000003 + uint64(c.Set))
	xorLimit = 0
	reps := 100 + 20000/(c.Diff+10)
	var s, s2 float64
	for i := 0; i < reps; i++ {
		ids := make([]uint64, c.Diff)
		for j := range ids {
			ids[j] = r.Uint64()
		}
		v, _, err := cost(valKind, r.Uint64(), ids[c.Diff/2:], ids[:c.Diff/2], nil)
		if err != nil {
			return err
		}
		s += float64(v)
		s2 += float64(v) * float64(v)
	}
	m := s / float64(reps)
	sd := math.Sqrt(math.Max(s2/float64(reps)-m*m, 0))
	if tol := 9*sd*math.Sqrt(1/n+1/float64(reps)) + 0.02*m + 0.01; math.Abs(mean-m) > tol {
		return vh.Fail("coded-symbols", "%+v: %v coded symbols reported, %d reconciliations of such sets take %.2f each (limit %.2f)", c, mean, reps, m, tol)
	}
	if mean < d {
		return vh.Fail("too-cheap", "%+v: %v coded symbols for a difference of %v", c, mean, d)
	}
	// d*n items over the time the part took: that time is part of the run's,
	// and nobody encodes an item, or decodes one, in two nanoseconds
	encT, decT := d*n/enc, d*n/dec
	if !(enc > 0) || !(dec > 0) || math.IsInf(enc, 0) || math.IsInf(dec, 0) {
		return vh.Fail("rates", "%+v: %s", c, out)
	}
	if (encT+decT)*0.999 > wall {
		return vh.Fail("rates-too-low", "%+v: %v and %v items/s would have taken %v s of encoding and %v s of decoding, the command took %v s", c, enc, dec, encT, decT, wall)
	}
	if encT < 2e-9*n*float64(c.Set) {
		return vh.Fail("encoding-rate", "%+v: %v items/s means encoding %d items %d times took %v s", c, enc, c.Set, c.Tests, encT)
	}
	if decT < 2e-9*n*d {
		return vh.Fail("decoding-rate", "%+v: %v items/s means decoding %d items %d times took %v s", c, dec, c.Diff, c.Tests, decT)
	}
	x.Add("items-reconciled", c.Diff*c.Tests)
	x.TagIf(c.Set > c.Diff/2, "common-items")
	x.TagIf(c.Tests == 1, "one-test")
	if c.Set > c.Diff/2 && c.Tests > 1 {
		x.NonTrivial()
	}
	return nil
}

// bsym is what the benchmark reconciles.
type bsym [8]byte

func (a bsym) XOR(b bsym) bsym {
	binary.LittleEndian.PutUint64(a[:], binary.LittleEndian.Uint64(a[:])^binary.LittleEndian.Uint64(b[:]))
	return a
}

func (a bsym) Hash() uint64 { return siphash.Hash(567, 890, a[:]) }

type paceCase struct {
	Diff, Set, Tests int
}

// ownPace measures what the benchmark is to measure.
func ownPace(c paceCase, from uint64) (enc, dec float64) {
	var encT, decT time.Duration
	for t := 0; t < c.Tests; t++ {
		from += uint64(c.Diff + c.Set)
		items := make([]bsym, c.Diff/2+c.Set)
		for i := range items {
			binary.LittleEndian.PutUint64(items[i][:], from+uint64(i))
		}
		local, remote := items[:c.Diff/2], items[c.Diff/2:c.Diff]
		n := 0
		var cs []riblt.CodedSymbol[bsym]
		for try := 0; try < 2; try++ {
			e, d := riblt.Encoder[bsym]{}, riblt.Decoder[bsym]{}
			for i := range local {
				d.AddSymbol(local[i])
				e.AddSymbol(remote[i])
			}
			if try == 0 {
				for n == 0 || !d.Decoded() {
					c := e.ProduceNextCodedSymbol()
					cs = append(cs, c)
					d.AddCodedSymbol(c)
					d.TryDecode()
					n++
				}
			} else {
				for _, c := range cs {
					d.AddCodedSymbol(c)
				}
				start := time.Now()
				d.TryDecode()
				decT += time.Since(start)
			}
		}
		var sk riblt.Sketch[bsym] = make([]riblt.CodedSymbol[bsym], n)
		start := time.Now()
		for i := c.Diff / 2; i < len(items); i++ {
			sk.AddSymbol(items[i])
		}
		encT += time.Since(start)
	}
	return float64(c.Diff*c.Tests) / encT.Seconds(), float64(c.Diff*c.Tests) / decT.Seconds()
}

func runPace(x *vh.Ctx, c paceCase) error {
	var got, own [2]float64
	for try := 0; try < 40; try++ {
		cmd := exec.Command(filepath.Join(os.Getenv("VERIF_BIN"), "benchmark"), "-d", strconv.Itoa(c.Diff), "-s", strconv.Itoa(c.Set), "-n", strconv.Itoa(c.Tests))
		out, err := cmd.CombinedOutput()
		if err != nil {
			if _, ok := err.(*exec.ExitError); ok {
				return vh.Fail("benchmark-died", "%+v: %v\n%s", c, err, out)
			}
			return vh.Harnessf("%v", err)
		}
		var mean, over, enc, dec float64
		if _, err := fmt.Sscanf(string(out), "coded symbols %f, overhead %f, enc %f diff/s, dec %f diff/s", &mean, &over, &enc, &dec); err != nil {
			return vh.Fail("benchmark-output", "%+v: %v\n%s", c, err, out)
		}
		e, d := ownPace(c, uint64(try)<<40)
		got = [2]float64{math.Max(got[0], enc), math.Max(got[1], dec)}
		own = [2]float64{math.Max(own[0], e), math.Max(own[1], d)}
		fine := true
		for i := range got {
			fine = fine && got[i] < 1.7*own[i] && own[i] < 2.2*got[i]
		}
		if fine && try >= 2 {
			x.NonTrivial()
			x.Add("pace-runs", try+1)
			return nil
		}
	}
	return vh.Fail("pace", "%+v: the best rates of 40 runs are %.0f items/s (encoding) and %.0f (decoding); the same work done here goes at %.0f and %.0f", c, got[0], got[1], own[0], own[1])
}

// table runs a command that takes no options, once, and returns its rows by
// first column. It is stopped after the time given.
type tableOut struct {
	rows map[int][]float64
	last int // highest row seen
	all  bool
	err  error
}

var (
	tables   = map[string]*tableOut{}
	tablesMu sync.Mutex
)

func table(name string, limit time.Duration) *tableOut {
	tablesMu.Lock()
	defer tablesMu.Unlock()
	if t := tables[name]; t != nil {
		return t
	}
	t := &tableOut{rows: map[int][]float64{}, last: -1}
	tables[name] = t
	cmd := exec.Command(filepath.Join(os.Getenv("VERIF_BIN"), name))
	pipe, err := cmd.StdoutPipe()
	if err == nil {
		err = cmd.Start()
	}
	if err != nil {
		t.err = vh.Harnessf("%v", err)
		return t
	}
	killed := make(chan bool, 1)
	timer := time.AfterFunc(limit, func() { killed <- true; cmd.Process.Kill() })
	sc := bufio.NewScanner(pipe)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if l == "" || l[0] == '#' {
			continue
		}
		var row []float64
		for _, f := range strings.Fields(strings.NewReplacer("&", " ", "$", " ", `\`, " ").Replace(l)) {
			v, err := strconv.ParseFloat(f, 64)
			if err != nil {
				t.err = vh.Fail("row", "%s prints %q", name, l)
			}
			row = append(row, v)
		}
		if t.err != nil {
			break
		}
		i := int(row[0])
		if t.rows[i] != nil || i <= t.last {
			t.err = vh.Fail("row-order", "%s prints %q after the row for %d", name, l, t.last)
			break
		}
		t.rows[i], t.last = row, i
	}
	if t.err != nil {
		cmd.Process.Kill()
	}
	err = cmd.Wait()
	timer.Stop()
	select {
	case <-killed:
	default:
		t.all = true
		if err != nil && t.err == nil {
			t.err = vh.Fail("command-died", "%s: %v", name, err)
		}
	}
	return t
}

type rowCase struct {
	Cmd string
	Row int
}

func same(a, b float64) bool {
	return a == b || math.IsNaN(a) && math.IsNaN(b) || math.Abs(a-b) < 1e-9*(1+math.Abs(a))
}

func runRow(x *vh.Ctx, c rowCase) error {
	limit := 60 * time.Second
	if os.Getenv("VERIF_TIER") == "thorough" {
		limit = 300 * time.Second
	}
	t := table(c.Cmd, limit)
	if t.err != nil {
		return t.err
	}
	if !t.all && c.Row > t.last {
		x.Tag(c.Cmd + "-not-reached")
		return nil
	}
	if n := map[string]int{"overlap": 200, "lossy": 100, "calc": 19}[c.Cmd]; t.all && n > 0 && len(t.rows) != n {
		return vh.Fail("row-count", "%s prints %d rows, its parameter has %d values", c.Cmd, len(t.rows), n)
	}
	avg := func(m microCase) (v float64, ok int) {
		tot := 0
		res := make(chan int)
		for s := 0; s < m.Runs; s++ {
			go func() { res <- microRun(m, int64(s)) }()
		}
		for s := 0; s < m.Runs; s++ {
			if n := <-res; n >= 0 {
				tot += n
				ok++
			}
		}
		if ok == 0 {
			return 0, 0
		}
		return float64(tot / ok), ok
	}
	var want []float64
	tol := 0.0
	switch c.Cmd {
	case "overlap":
		v, _ := avg(microCase{Runs: 100, N: 200, Common: 200 - c.Row})
		want = []float64{float64(c.Row), float64(c.Row) / 200, v, v / float64(c.Row)}
	case "twosenders":
		v, ok := avg(microCase{Two: true, Runs: 100, N: 200, Common: 100, First: c.Row})
		if ok > 50 {
			want = []float64{float64(c.Row), v, v / 300}
		}
	case "calc":
		v, _ := avg(microCase{Runs: 50, N: 5000, Common: 5000 - 5000/c.Row})
		want = []float64{float64(c.Row), v / float64(5000/c.Row)}
		tol = 0.00501
	case "lossy":
		want = lossyRow(c.Row)
	}
	got := t.rows[c.Row]
	good := len(got) == len(want)
	for i := 0; good && i < len(want); i++ {
		good = same(got[i], want[i]) || math.Abs(got[i]-want[i]) < tol
	}
	if !good {
		return vh.Fail("wrong-row", "%s prints %v in the row for %d, re-simulation gives %v", c.Cmd, got, c.Row, want)
	}
	x.Tag(c.Cmd)
	if len(want) > 0 && c.Row > 0 {
		x.NonTrivial()
	}
	return nil
}

// lossyRow: average codewords until more than half of more than five
// codewords are decoded, until all are, and transactions missing at that point.
func lossyRow(overlap int) []float64 {
	const N, runs = 100, 100
	var th, tot, miss int
	for s := int64(0); s < runs; s++ {
		e := lt.NewEncoder[mtx](rand.New(rand.NewSource(s)), microbenchmarks.TestKey, soliton95(s, N), N)
		m := newModel(1 << 40)
		num := map[uint32]int{}
		for next := uint64(0); len(num) < N; next++ {
			tx := microbenchmarks.GetTransaction(next)
			if !e.AddTransaction(tx) {
				continue
			}
			p := lt.NewEncoder[mtx](rand.New(rand.NewSource(0)), microbenchmarks.TestKey, &degDist{degs: []uint64{1}}, 1)
			p.AddTransaction(tx)
			w := p.ProduceCodeword()
			id := mMembers(&w)[0]
			num[id] = len(num)
			if num[id] < overlap {
				m.push(num[id])
			}
		}
		reached := false
		n := 0
		for ; len(m.known) < N; n++ {
			w := e.ProduceCodeword()
			var set []int
			for _, h := range mMembers(&w) {
				set = append(set, num[h])
			}
			for _, i := range m.arrive(set, false) {
				m.push(i)
			}
			if !reached && n+1 > 5 {
				dec := 0
				for _, c := range m.cws {
					if len(c.rem) == 0 {
						dec++
					}
				}
				if dec > (n+1)/2 {
					reached = true
					th += n + 1
					miss += N - len(m.known)
				}
			}
		}
		tot += n
	}
	return []float64{float64(overlap), float64(th / runs), float64(tot / runs), float64(miss / runs)}
}

func init() {
	rows := func(name string, from, to, quick, thorough int) *vh.Sub {
		return vh.NewSub(name, quick, func(t *rapid.T) rowCase {
			return rowCase{name, from + vh.Uniform(t, "row", to-from)}
		}, runRow).T(thorough)
	}
	props = append(props, &vh.Property{ID: "C44", Rule: "the benchmark with items in common and several tests, or a row of a table past the first that reports a cost",
		Assumptions: []string{"encoders are taken from the packages (their properties are decided separately); receivers are re-implemented", "an item takes at least two nanoseconds to encode or decode on any machine"},
		Subs: []*vh.Sub{
			vh.NewSub("benchmark", 60, func(t *rapid.T) benchCase {
				c := benchCase{Diff: 2 * (1 + vh.Uniform(t, "halfdiff", 40)), Tests: 1 + vh.Uniform(t, "tests", 60)}
				switch vh.Uniform(t, "size", 4) {
				case 0:
					c.Diff = 2 * (40 + vh.Uniform(t, "more", 400))
				case 1:
					c.Diff = 2 * (1 + vh.Uniform(t, "few", 4))
					c.Tests += 100
				}
				c.Set = c.Diff/2 + vh.OneOf(t, "common", 0, 1, 10, 100, 1000, 10000)
				c.AutoSeed = vh.Uniform(t, "autoseed", 2) == 0
				c.NoTests = vh.Uniform(t, "default", 8) == 0
				return c
			}, runBench).T(600),
			vh.NewSub("pace", 6, func(t *rapid.T) paceCase {
				c := paceCase{Diff: 2 * (1000 + vh.Uniform(t, "halfdiff", 1500)), Tests: 4 + vh.Uniform(t, "tests", 6)}
				c.Set = c.Diff/2 + c.Diff*vh.Uniform(t, "common", 6)
				return c
			}, runPace).T(40),
			rows("overlap", 0, 200, 25, 200),
			rows("lossy", 0, 100, 12, 100),
			rows("calc", 2, 21, 3, 19),
			rows("twosenders", 0, 400, 30, 400),
		}})
}
