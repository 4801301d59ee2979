//go:build go1.25

package main

import (
	"encoding/binary"
	"encoding/gob"
	"fmt"
	"io"
	"log"
	"math"
	"regexp"
	"sort"
	"strconv"
	"sync"
	"testing/synctest"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/ldpc"
	"pgregory.net/rapid"
	"verif/vh"
)

// What a node logs while the harness plays all of its peers.

type zvLogOp struct {
	MS     int // when
	Peer   int // -1: a local transaction
	N      int // codewords, one transaction each
	AgeUS  int // of the transactions
	DelUS  int // of the codewords
	Repeat bool
	Loss   int
}

type zvLogCase struct {
	Seed     int64
	P        zvParams
	Connect  []int // by peer, in quarters of a second
	PhaseUS  int
	Seconds  int
	Ops      []zvLogOp
	StallMS  int // the first peer stops reading then (0: never)
	StallFor int
}

func zvGenLog(t *rapid.T) zvLogCase {
	c := zvLogCase{Seed: int64(vh.Seed(t)), Seconds: 2 + vh.Uniform(t, "seconds", 8), PhaseUS: vh.Uniform(t, "phase", 5000)}
	c.P = zvParams{K: 50, C: 0.03, Delta: 0.5, TimeoutMS: 3.6e6, Rate: vh.OneOf(t, "rate", 1, 20, 333.3, 1000),
		Inc: vh.OneOf(t, "inc", 0, 0.1, 1.0), Loss: vh.OneOf(t, "target", 0.02, 0.1),
		WarmupMS: vh.OneOf(t, "warmup", 500, 500, 1500, 2200, 4700, 60000)}
	c.P.Min = c.P.Rate * vh.OneOf(t, "min", 0.001, 0.5)
	for i := 1 + vh.Uniform(t, "peers", 3); i > 0; i-- {
		c.Connect = append(c.Connect, vh.OneOf(t, "connect", 0, 0, 1, 2, 5, 10))
	}
	for i := 2 + vh.Uniform(t, "ops", 60); i > 0; i-- {
		o := zvLogOp{MS: 250*vh.Uniform(t, "quarter", 4*c.Seconds) + 20 + vh.Uniform(t, "ms", 210), Peer: vh.Uniform(t, "peer", len(c.Connect)+1) - 1, N: vh.OneOf(t, "n", 1, 1, 2, 10),
			AgeUS: vh.OneOf(t, "age", 0, 30, 1500, 80000, 1234567, 60000000, -40000, -2500000, 4000000000, 90000000000, -3000000000), DelUS: vh.OneOf(t, "delay", 0, 40, 1500, 33333, 2000000, -5000, 2500000000, 4500000000), Repeat: vh.Uniform(t, "repeat", 4) == 0}
		if vh.Uniform(t, "lossy", 4) == 0 {
			o.Loss = vh.OneOf(t, "loss", 1, 5, 40)
		}
		c.Ops = append(c.Ops, o)
	}
	if vh.Uniform(t, "bulk", 40) == 0 { // at once
		c.Ops = append(c.Ops, zvLogOp{MS: 250*vh.Uniform(t, "bulkQuarter", 4*c.Seconds) + 20, Peer: vh.Uniform(t, "bulkPeer", len(c.Connect)), N: 66000})
	}
	sort.SliceStable(c.Ops, func(i, j int) bool { return c.Ops[i].MS < c.Ops[j].MS })
	if vh.Uniform(t, "stall", 7) == 0 {
		c.Seconds += 3
		c.P.Rate, c.P.Inc = 4000, 0
		c.P.Min = c.P.Rate
		c.StallMS, c.StallFor = 250*(c.Connect[0]+1)+100+vh.Uniform(t, "stallAt", 1000), vh.OneOf(t, "stallFor", 100, 600, 1500)
	}
	return c
}

type zvLine struct {
	at   time.Duration
	text string
}

type zvLogTap struct {
	mu    sync.Mutex
	start time.Time
	lines []zvLine
}

func (l *zvLogTap) Write(b []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.lines = append(l.lines, zvLine{time.Since(l.start), string(b)})
	return len(b), nil
}

type zvLogPeer struct {
	id           string
	in, out      *zvPipe
	enc          *gob.Encoder
	key, nodeKey [ldpc.SaltSize]byte
	since        time.Duration // when it was connected
	mu           sync.Mutex
	arrived      []time.Duration
	gate         chan struct{}
	got          []zvSample // codewords the node received from it
	losses       []zvSample
	known        map[string]bool // transactions the node has by way of it or could tell it
	hashes       map[any]bool    // of them, under its key
}

// single is the codeword of one transaction.
func (p *zvLogPeer) single(tx *ldpc.Transaction) *ldpc.Codeword {
	en := ldpc.NewEncoder(p.key, zvOne{}, 1)
	en.AddTransaction(tx)
	return en.ProduceCodeword()
}

type zvSample struct {
	at time.Duration
	v  float64
}

var (
	zvReTotal = regexp.MustCompile(`total tx (\d+)\n$`)
	zvReWarm  = regexp.MustCompile(`data logging warmup completed`)
	zvReStats = regexp.MustCompile(`tx=(\d+), p5_latency_ms=(\S+), p95_latency_ms=(\S+), p50_latency_ms=(\S+), mean_latency_ms=(\S+)\n$`)
	zvReRecv  = regexp.MustCompile(`peer (\S+) received cws (\d+) last second delay ms median (\S+) p95 (\S+) mean (\S+)\n$`)
	zvReRate  = regexp.MustCompile(`peer (\S+) codeword rate (\S+) dropped (\d+)\n$`)
	zvReKey   = regexp.MustCompile(`key exchanged with peer ([^,]+), our key ([0-9a-f]+), peer key ([0-9a-f]+)\n$`)
)

func zvLogs(x *vh.Ctx, c zvLogCase) error {
	tap := &zvLogTap{start: time.Now()}
	log.SetOutput(tap)
	defer log.SetOutput(io.Discard)
	r := vh.NewRng(uint64(c.Seed))
	ctl := zvController(c.P)
	go ctl.loop()
	t0 := time.Now()
	at := func(ms int) { time.Sleep(time.Until(t0.Add(time.Duration(ms) * time.Millisecond))) }
	peers := make([]*zvLogPeer, len(c.Connect))
	connect := func(i int) error {
		p := &zvLogPeer{id: fmt.Sprintf("10.0.0.%d:9000", 11+i*i), out: zvNewPipe(zvFrag{}, 1), in: zvNewPipe(zvFrag{}, 2), gate: make(chan struct{}, 1), known: map[string]bool{}, hashes: map[any]bool{}}
		p.gate <- struct{}{}
		p.out.capacity = 4096
		errs := make(chan error, 1)
		go func() { errs <- ctl.handleConn(p.id, zvConn{p.in, p.out}) }()
		binary.LittleEndian.PutUint64(p.key[:], r.Uint64())
		if _, err := io.ReadFull(zvConn{r: p.out}, p.nodeKey[:]); err != nil {
			return vh.Fail("handshake", "%v", err)
		}
		p.in.Write(p.key[:])
		if err, ok := zvTake(errs, 100*time.Microsecond); !ok || err != nil {
			return vh.Fail("handshake", "%v, completed %v", err, ok)
		}
		p.since = time.Since(t0)
		p.enc = gob.NewEncoder(zvConn{w: p.in})
		go func() {
			d := gob.NewDecoder(zvGated{p.out, p.gate})
			for {
				var cw Codeword
				if d.Decode(&cw) != nil {
					return
				}
				p.mu.Lock()
				p.arrived = append(p.arrived, time.Since(t0))
				p.mu.Unlock()
			}
		}()
		peers[i] = p
		return nil
	}
	var learnt []zvSample // delays in ms
	var all []*ldpc.Transaction
	id := r.Uint64()
	// fresh makes a transaction whose short hashes collide with none before
	fresh := func(ageUS int) *ldpc.Transaction {
		for {
			id++
			tx := zvAgedTx(id, time.Duration(ageUS)*time.Microsecond)
			clash := false
			for _, p := range peers {
				if p == nil {
					continue
				}
				for _, h := range p.single(tx).Members {
					clash = clash || p.hashes[h]
					p.hashes[h] = true
				}
			}
			if !clash {
				return tx
			}
		}
	}
	next := 0
	stall := 0
	for q := 0; q <= 4*c.Seconds; q++ {
		// the node's clocks tick up to five milliseconds after a full quarter
		time.Sleep(time.Until(t0.Add(time.Duration(q)*250*time.Millisecond + time.Duration(c.PhaseUS)*time.Microsecond)))
		for i, w := range c.Connect {
			if w == q {
				if err := connect(i); err != nil {
					return err
				}
			}
		}
		for ; next < len(c.Ops) && c.Ops[next].MS < 250*(q+1); next++ {
			o := c.Ops[next]
			at(o.MS)
			if c.StallMS > 0 && peers[0] != nil && stall == 0 && o.MS >= c.StallMS {
				<-peers[0].gate
				stall = o.MS
			}
			if stall > 0 && o.MS > stall+c.StallFor {
				peers[0].gate <- struct{}{}
				stall = -1
			}
			if o.Peer >= 0 && peers[o.Peer] == nil {
				continue
			}
			if o.Peer < 0 {
				for k := 0; k < o.N; k++ {
					tx := fresh(o.AgeUS)
					ctl.localTransaction <- tx
					all = append(all, tx)
					for _, p := range peers {
						if p != nil {
							p.known[zvName(tx)] = true
						}
					}
				}
				synctest.Wait()
				continue
			}
			p := peers[o.Peer]
			e := o.Loss
			for k := 0; k < o.N; k++ {
				var tx *ldpc.Transaction
				if o.Repeat && len(all) > 0 {
					if old := all[r.Intn(len(all))]; p.known[zvName(old)] {
						tx = old
					}
				}
				if tx == nil {
					tx = fresh(o.AgeUS)
					all = append(all, tx)
					learnt = append(learnt, zvSample{time.Since(t0), float64(o.AgeUS) / 1000})
					for _, p := range peers {
						if p != nil {
							p.known[zvName(tx)] = true
						}
					}
				}
				cw := p.single(tx)
				if len(cw.Members) != 1 {
					return vh.Harnessf("%d members", len(cw.Members))
				}
				p.got = append(p.got, zvSample{time.Since(t0), float64(o.DelUS) / 1000})
				if e > 0 {
					p.losses = append(p.losses, zvSample{time.Since(t0), float64(e)})
				}
				if err := p.enc.Encode(zvMsg(cw, e, time.Now().Add(-time.Duration(o.DelUS)*time.Microsecond).UnixMicro())); err != nil {
					return vh.Harnessf("%v", err)
				}
				e = 0
				if k%256 == 0 || k == o.N-1 {
					synctest.Wait()
				}
			}
		}
	}
	if stall > 0 {
		peers[0].gate <- struct{}{}
		stall = -1
	}
	// two more seconds, in which everything is drained
	total := c.Seconds + 2
	time.Sleep(time.Until(t0.Add(time.Duration(total)*time.Second + 120*time.Millisecond)))
	synctest.Wait()
	tap.mu.Lock()
	lines := append([]zvLine{}, tap.lines...)
	tap.mu.Unlock()
	return c.judge(x, lines, peers, learnt, total, stall != 0)
}

func zvBefore(l []zvSample, at time.Duration) []zvSample {
	n := 0
	for n < len(l) && l[n].at < at {
		n++
	}
	return l[:n]
}

func zvCalm(l []zvSample, from, to time.Duration) (v []float64, sum float64) {
	for _, s := range l {
		if s.at >= from && s.at < to {
			v = append(v, s.v)
			sum += s.v
		}
	}
	sort.Float64s(v)
	return
}

// zvQuantile checks a printed quantile with the given number of digits.
func zvQuantile(text string, v []float64, q float64, digits int) bool {
	f, err := strconv.ParseFloat(text, 64)
	if err != nil {
		return false
	}
	k := q * float64(len(v)-1)
	lo, hi := v[int(math.Floor(k))], v[int(math.Ceil(k))]
	eps := 0.51*math.Pow(10, -float64(digits)) + 1e-6
	return f >= lo-0.0011*math.Abs(lo)-eps && f <= hi+0.0011*math.Abs(hi)+eps
}

func zvMean(text string, sum float64, n, digits int) bool {
	f, err := strconv.ParseFloat(text, 64)
	return err == nil && math.Abs(f-sum/float64(n)) <= 0.51*math.Pow(10, -float64(digits))+1e-6
}

func (c zvLogCase) judge(x *vh.Ctx, lines []zvLine, peers []*zvLogPeer, learnt []zvSample, total int, stalled bool) error {
	by := map[string]*zvLogPeer{}
	for _, p := range peers {
		if p == nil {
			continue
		}
		by[p.id] = p
	}
	sec := func(d time.Duration) int { return int((d + 10*time.Millisecond) / time.Second) }
	// the node's own lines
	totals, stats, keys := map[int]int{}, map[int]int{}, map[string]int{}
	recvs, rates := map[string]int{}, map[string]int{}
	warm := -1
	warmWant := (c.P.WarmupMS + 999) / 1000
	reports := 0
	for _, l := range lines {
		if len(l.text) > 19 {
			if _, err := time.Parse("2006/01/02 15:04:05", l.text[:19]); err != nil {
				return vh.Fail("wrong-line", "line %q does not begin with the time", l.text)
			}
		}
		m := zvReTotal.FindStringSubmatch(l.text)
		if m != nil {
			k := sec(l.at)
			totals[k]++
			if want := len(zvBefore(learnt, l.at)); m[1] != strconv.Itoa(want) {
				return vh.Fail("wrong-total", "after %v: %q, but %d transactions were learnt", l.at, l.text, want)
			}
			continue
		}
		if zvReWarm.MatchString(l.text) {
			if warm >= 0 || sec(l.at) != warmWant {
				return vh.Fail("wrong-warmup", "after %v: %q, warm-up being %d ms", l.at, l.text, c.P.WarmupMS)
			}
			warm = sec(l.at)
			continue
		}
		if m = zvReStats.FindStringSubmatch(l.text); m != nil {
			if warm < 0 {
				return vh.Fail("wrong-warmup", "after %v: %q during the warm-up of %d ms", l.at, l.text, c.P.WarmupMS)
			}
			stats[sec(l.at)]++
			v, sum := zvCalm(learnt, time.Duration(warm)*time.Second, l.at)
			if m[1] != strconv.Itoa(len(v)) {
				return vh.Fail("wrong-count", "after %v: %q, but %d transactions were learnt since the warm-up ended at second %d", l.at, l.text, len(v), warm)
			}
			if len(v) > 0 && (!zvQuantile(m[2], v, 0.05, 2) || !zvQuantile(m[3], v, 0.95, 2) || !zvQuantile(m[4], v, 0.5, 2) || !zvMean(m[5], sum, len(v), 2)) {
				return vh.Fail("wrong-latency", "after %v: %q, the delays being %v (sum %v)", l.at, l.text, v, sum)
			}
			reports += len(v)
			continue
		}
		if m = zvReKey.FindStringSubmatch(l.text); m != nil {
			p := by[m[1]]
			if p == nil || keys[m[1]] > 0 || m[2] != fmt.Sprintf("%x", p.nodeKey[:]) || m[3] != fmt.Sprintf("%x", p.key[:]) {
				return vh.Fail("wrong-key-line", "%q", l.text)
			}
			keys[m[1]]++
			continue
		}
		if m = zvReRecv.FindStringSubmatch(l.text); m != nil {
			p := by[m[1]]
			if p == nil || keys[m[1]] == 0 {
				return vh.Fail("wrong-peer", "%q", l.text)
			}
			recvs[m[1]]++
			k := time.Duration(sec(l.at-p.since)) * time.Second
			n := len(zvBefore(p.got, l.at))
			if m[2] != strconv.Itoa(n) {
				return vh.Fail("wrong-codeword-count", "after %v: %q, but %d codewords were sent to the node", l.at, l.text, n)
			}
			v, sum := zvCalm(p.got, p.since+k-time.Second, l.at)
			if len(v) > 0 && (!zvQuantile(m[3], v, 0.5, 1) || !zvQuantile(m[4], v, 0.95, 1) || !zvMean(m[5], sum, len(v), 1)) {
				return vh.Fail("wrong-delay", "after %v: %q, the delays of the last second being %v", l.at, l.text, v)
			}
			reports += len(v)
			continue
		}
		if m = zvReRate.FindStringSubmatch(l.text); m != nil {
			p := by[m[1]]
			if p == nil || keys[m[1]] == 0 {
				return vh.Fail("wrong-peer", "%q", l.text)
			}
			rates[m[1]]++
			rate, err := strconv.ParseFloat(m[2], 64)
			dropped, err2 := strconv.Atoi(m[3])
			if err != nil || err2 != nil {
				return vh.Fail("wrong-line", "%q", l.text)
			}
			n := 0
			for n < len(p.arrived) && p.arrived[n] < l.at-5*time.Millisecond {
				n++
			}
			_, lost := zvCalm(p.losses, 0, l.at)
			dec := c.P.Inc * c.P.Loss
			hold := stalled && p == peers[0]
			if est := c.P.Rate + c.P.Inc*lost - dec*float64(n); !hold && est-dec*0.02*(c.P.Rate+c.P.Inc*lost) > c.P.Min && est <= c.P.Rate+c.P.Inc*lost {
				floored := false // on the way here
				for k, s := range p.losses {
					m := 0
					for m < len(p.arrived) && p.arrived[m] <= s.at {
						m++
					}
					_, before := zvCalm(p.losses[:k], 0, s.at)
					floored = floored || c.P.Rate+c.P.Inc*before-dec*float64(m+2) <= c.P.Min
				}
				if tol := dec*(0.011*(c.P.Rate+c.P.Inc*lost)+2) + 0.0051; !floored && math.Abs(rate-est) > tol {
					return vh.Fail("wrong-rate", "after %v: %q, the rate should be %.3f after %d codewords and %v reported losses", l.at, l.text, est, n, lost)
				}
			}
			if rate < c.P.Min-0.0051 {
				return vh.Fail("wrong-rate", "after %v: %q, the minimum rate being %v", l.at, l.text, c.P.Min)
			}
			if !hold && dropped != 0 {
				return vh.Fail("wrong-drops", "after %v: %q, but the connection was never blocked", l.at, l.text)
			}
			if hold {
				produced := c.P.Rate * float64(sec(l.at-p.since))
				missing := produced - float64(dropped) - float64(n)
				tol := 0.03*c.P.Rate + 3
				if missing < -tol || missing > 1200+tol || sec(l.at) >= total && math.Abs(missing) > tol {
					return vh.Fail("wrong-drops", "after %v: %q, but of about %.0f codewords %d arrived", l.at, l.text, produced, n)
				}
				x.TagIf(dropped > 0, "dropped")
			}
		}
	}
	for k := 1; k <= total; k++ {
		if totals[k] != 1 {
			return vh.Fail("missing-line", "second %d has %d lines with the total of transactions", k, totals[k])
		}
		v, _ := zvCalm(learnt, time.Duration(warmWant)*time.Second, time.Duration(k)*time.Second)
		if k >= warmWant && len(v) > 0 && stats[k] != 1 || stats[k] > 1 {
			return vh.Fail("missing-line", "second %d has %d lines with latencies (%d transactions since the warm-up)", k, stats[k], len(v))
		}
	}
	for _, p := range by {
		want := sec(time.Duration(total)*time.Second + 90*time.Millisecond - p.since)
		if keys[p.id] != 1 || recvs[p.id] != want || rates[p.id] != want {
			return vh.Fail("missing-line", "peer %s: %d lines with keys, %d with codewords received, %d with the codeword rate in %d seconds", p.id, keys[p.id], recvs[p.id], rates[p.id], want)
		}
	}
	if total >= warmWant && warm < 0 {
		return vh.Fail("wrong-warmup", "the warm-up of %d ms does not end in %d s", c.P.WarmupMS, total)
	}
	x.Add("lines", len(lines))
	x.TagIf(warm >= 0, "warmed-up")
	x.TagIf(len(by) > 1, "several-peers")
	x.TagIf(stalled, "blocked")
	if warm >= 0 && reports > 5 {
		x.NonTrivial()
	}
	return nil
}

func init() {
	zvProps = append(zvProps, &vh.Property{ID: "C39", Rule: "delays of more than five transactions or codewords are reported, some after the warm-up",
		Assumptions: []string{"virtual time; nothing else happens within a few milliseconds of a report", "quantiles may be off by 0.1 % (the sketch's accuracy) and fall between neighbouring values", "the rate is checked while it is above its minimum"},
		Subs: []*vh.Sub{
			zvChild("reports", 220, zvGenLog, func(c zvLogCase) int64 { return c.Seed }, zvLogs).T(1500),
		}})
}
