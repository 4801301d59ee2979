//go:build go1.23

package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
	"pgregory.net/rapid"
	"verif/libs/simx"
	"verif/vh"
)

// The command as a whole: its report against an independent reckoning of the
// same (deterministic) simulation.

type zvCmdCase struct {
	Topo      simx.Topo
	Threshold int
	Memory    int `json:",omitempty"`
	ReportUS  int `json:",omitempty"` // on top of ReportMS
	Overhead  float64
	Loss      float64
	SyncMS    int
	Smooth    float64
	Seed      int64
	Rate      float64
	Burst     int
	ReportMS  int
	WarmMS    int
	DurMS     int
	Defaults  bool
	Plain     bool // leave out the durations and the name of the files, too
}

func zvGenCmd(t *rapid.T) zvCmdCase {
	c := zvCmdCase{
		Topo:      simx.GenTopo(t, 2, 6, false),
		Threshold: vh.OneOf(t, "threshold", 1, 3, 5, 10),
		Overhead:  vh.OneOf(t, "overhead", 0.1, 0.125, 0.25, 0.5, 1.0),
		Loss:      vh.OneOf(t, "loss", 0, 0, 0.02),
		Smooth:    vh.OneOf(t, "smooth", 100000, 1000, 50.0, 333.3, 7.5),
		Memory:    vh.OneOf(t, "memory", 0, 0, 0, 1, 2, 4, 8, 14, 60, 300),
		Seed:      []int64{1, 1, 1 << 20, 1, -1}[vh.Uniform(t, "seedSize", 5)] * int64(vh.Seed(t)%1000000000000),
		Rate:      vh.OneOf(t, "rate", 5, 20, 12.5),
		Burst:     vh.OneOf(t, "burst", 1, 1, 3),
		ReportMS:  vh.OneOf(t, "report", 1000, 500, 700),
		WarmMS:    vh.OneOf(t, "warm", 0, 1500, 2000, 3999),
	}
	if vh.Uniform(t, "sync", 4) == 0 {
		c.SyncMS = 200
	}
	c.DurMS = c.WarmMS + 3000 + 500*vh.Uniform(t, "dur", 8)
	if c.ReportMS == 700 {
		c.ReportUS = vh.OneOf(t, "reportUS", 0, 250, 999)
	}
	c.Defaults = vh.Uniform(t, "defaults", 3) == 0
	if c.Defaults {
		c.Threshold, c.Overhead, c.Loss, c.Smooth, c.Seed, c.Rate, c.Burst, c.ReportMS, c.SyncMS, c.Memory, c.ReportUS = 5, 0.10, 0, 100000, 1, 5, 1, 1000, 0, 0, 0
	}
	return c
}

func zvCommand(x *vh.Ctx, c zvCmdCase) error {
	dir, err := os.MkdirTemp("", "cmd")
	if err != nil {
		return vh.Harnessf("%v", err)
	}
	defer os.RemoveAll(dir)
	path, err := zvTopoFile(dir, c.Topo)
	if err != nil {
		return err
	}
	warm, dur, rep := time.Duration(c.WarmMS)*time.Millisecond, time.Duration(c.DurMS)*time.Millisecond, time.Duration(c.ReportMS)*time.Millisecond+time.Duration(c.ReportUS)*time.Microsecond
	prefix := filepath.Join(dir, "run")
	args := []string{"-topo", path, "-w", warm.String(), "-dur", dur.String(), "-prefix", prefix}
	if c.Plain {
		args = args[:2]
		prefix = filepath.Join(dir, "exp")
		back, err := os.Getwd()
		if err == nil {
			err = os.Chdir(dir)
		}
		if err != nil {
			return vh.Harnessf("%v", err)
		}
		defer os.Chdir(back)
	}
	if !c.Defaults {
		args = append(args, "-th", fmt.Sprint(c.Threshold), "-c", fmt.Sprint(c.Overhead), "-l", fmt.Sprint(c.Loss), "-txgen", fmt.Sprint(c.Rate), "-b", fmt.Sprint(c.Burst),
			"-smooth", fmt.Sprint(c.Smooth), "-seed", fmt.Sprint(c.Seed), "-r", rep.String(), "-sync", (time.Duration(c.SyncMS) * time.Millisecond).String(), "-mem", fmt.Sprint(min(zvMemory(c.Memory), 100000)))
	}
	txgen = newTransactionGenerator()
	out, crash := zvRunMain(dir, args)
	if crash != nil && c.Memory == 0 {
		return crash
	}

	// the same simulation, with our own accounting
	txgen = newTransactionGenerator()
	sim := &des.Simulator{}
	servers := zvServers(sim, zvCase{Topo: c.Topo, Threshold: c.Threshold, Memory: c.Memory, Overhead: c.Overhead, Loss: c.Loss, SyncMS: c.SyncMS, Seed: c.Seed,
		PaceNS: int64(1.0 / c.Smooth * 1000000000)}, c.Rate/float64(c.Burst)/float64(time.Second), c.Burst)
	for _, s := range servers {
		s.latencySketch = newDistributionSketch(warm)
		s.overlapSketch = newDistributionSketch(warm)
	}
	type counts struct{ cws, txs int }
	read := func(s *server) counts { return counts{s.receivedCodewords, s.decodedTransactions} }
	start := make([]counts, c.Topo.N)
	warmed, last := false, 0
	var series [][2]float64
	// with too little memory a simulation is broken off when a transaction is decoded again
	brokenOff := false
	runUntil := func(at time.Duration) {
		defer func() {
			if c.Memory > 0 && recover() != nil {
				brokenOff = true
			}
		}()
		sim.RunUntil(at)
	}
	for cur := time.Duration(0); cur < dur && !brokenOff; cur += rep {
		if runUntil(cur); brokenOff {
			break
		}
		if cur > warm {
			now := read(servers[0]).cws
			if !warmed {
				warmed = true
				for i, s := range servers {
					start[i] = read(s)
				}
			} else {
				series = append(series, [2]float64{sim.Time().Seconds(), float64(now-last) / rep.Seconds()})
			}
			last = now
		}
	}
	var got [][2]float64
	for _, l := range strings.Split(out, "\n") {
		var a, b float64
		if !strings.HasPrefix(l, "#") {
			if n, _ := fmt.Sscan(l, &a, &b); n == 2 {
				got = append(got, [2]float64{a, b})
			}
		}
	}
	if len(got) != len(series) {
		return vh.Fail("wrong-series", "time series %v, expected %v", got, series)
	}
	for i := range got {
		if math.Abs(got[i][0]-series[i][0]) > 1e-6 || math.Abs(got[i][1]-series[i][1]) > 1e-6*(1+series[i][1]) {
			return vh.Fail("wrong-series", "time series line %d is %v, expected %v", i, got[i], series[i])
		}
	}
	if (crash != nil) != brokenOff {
		if crash != nil {
			return crash
		}
		return vh.Fail("wrong-report", "the command goes on although the memory of %d does not suffice", c.Memory)
	}
	if brokenOff {
		x.Tag("broken-off")
		return nil
	}
	secs := (sim.Time() - warm).Seconds()
	over := func(f func(a, b counts) float64) (v []float64) {
		for i, s := range servers {
			v = append(v, f(start[i], read(s)))
		}
		return
	}
	quant := func(q float64) (v []float64) {
		for _, s := range servers {
			v = append(v, s.latencySketch.getQuantiles([]float64{q})[0])
		}
		return
	}
	for _, r := range []struct {
		title string
		vals  []float64
	}{
		{"decoded transaction rate", over(func(a, b counts) float64 { return float64(b.txs-a.txs) / secs })},
		{"overhead", over(func(a, b counts) float64 { return float64(b.cws-a.cws) / float64(b.txs-a.txs) })},
		{"latency p5", quant(0.05)},
		{"latency p50", quant(0.5)},
		{"latency p95", quant(0.95)},
	} {
		if err := zvReported(x, out, r.title, r.vals); err != nil {
			return err
		}
	}
	if head := strings.SplitN(out, "\n", 2)[0]; !strings.HasSuffix(head, fmt.Sprintf("num peers %d", len(c.Topo.Peers()[0]))) {
		return vh.Fail("wrong-report", "first line %q, but node 0 has %d peers", head, len(c.Topo.Peers()[0]))
	}
	for i, s := range servers {
		b, err := os.ReadFile(fmt.Sprintf("%s-overlap-%d.csv", prefix, i))
		if err != nil {
			return vh.Fail("missing-output", "%v", err)
		}
		lines := strings.Split(strings.TrimSpace(string(b)), "\n")
		if len(lines) < 100 {
			return vh.Fail("wrong-overlap", "%d lines in the overlap file of node %d", len(lines), i)
		}
		for k, l := range lines {
			var q, v float64
			if n, _ := fmt.Sscan(l, &q, &v); n != 2 || math.Abs(q-float64(k)/100) > 1e-6 {
				if strings.Contains(l, "NaN") {
					continue
				}
				return vh.Fail("wrong-overlap", "line %d of the overlap file of node %d: %q", k, i, l)
			}
			want := s.overlapSketch.getQuantiles([]float64{math.Min(1, float64(k)/100)})[0]
			if !(math.Abs(v-want) <= 1e-9+0.02*want) && !math.IsNaN(want) && k > 0 && k < 100 {
				// one rank of tolerance for the rounding of k/100
				lo := s.overlapSketch.getQuantiles([]float64{float64(k)/100 - 1e-9})[0]
				hi := s.overlapSketch.getQuantiles([]float64{float64(k)/100 + 1e-9})[0]
				if v < lo-1e-9 || v > hi+1e-9 {
					return vh.Fail("wrong-overlap", "overlap quantile %d%% of node %d is %v, expected %v", k, i, v, want)
				}
			}
		}
	}
	total := 0
	for i, s := range servers {
		total += read(s).txs - start[i].txs
	}
	x.TagIf(c.Defaults, "defaults")
	x.TagIf(c.SyncMS > 0, "synchronised")
	x.TagIf(c.Memory > 0, "little-memory")
	x.Add("decoded", total)
	if total > 10 {
		x.NonTrivial()
	}
	return nil
}

func init() {
	zvProps = append(zvProps, &vh.Property{ID: "C33", Rule: "more than ten transactions decoded after the warm-up",
		Subs: []*vh.Sub{vh.NewSub("simulator-command", 300, zvGenCmd, zvCommand).T(1200),
			vh.NewSub("simulator-long", 3, func(t *rapid.T) zvCmdCase {
				c := zvGenCmd(t)
				c.Defaults = false
				c.Memory, c.SyncMS, c.ReportMS, c.ReportUS = 0, 0, vh.OneOf(t, "seldom", 1000, 60000), 0
				c.Topo = simx.GenTopo(t, 2, 3, false)
				c.Rate, c.Burst, c.WarmMS, c.DurMS = vh.OneOf(t, "rare", 0.1, 0.5), 1, vh.OneOf(t, "warm", 0, 600000), 4500000
				return c
			}, zvCommand).T(12),
			vh.NewSub("simulator-plain", 3, func(t *rapid.T) zvCmdCase {
				c := zvGenCmd(t)
				c.Threshold, c.Overhead, c.Loss, c.Smooth, c.Seed, c.Rate, c.Burst, c.ReportMS, c.SyncMS, c.Memory, c.ReportUS = 5, 0.10, 0, 100000, 1, 5, 1, 1000, 0, 0, 0
				c.Topo = simx.GenTopo(t, 2, 3, false)
				c.Defaults, c.Plain, c.WarmMS, c.DurMS = true, true, 20000, 100000
				return c
			}, zvCommand).T(12)}})
}
