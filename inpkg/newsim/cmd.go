//go:build go1.23

package main

import (
	"fmt"
	"math/rand"
	"os"
	"strings"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
	"pgregory.net/rapid"
	"verif/libs/simx"
	"verif/vh"
)

// The command as a whole: its report against an independent reckoning of the
// same (deterministic) simulation.

type zvCmdCase struct {
	Topo     simx.Topo
	Algo     string
	Flood    bool
	Shards   int
	Overhead float64
	TxSize   int
	Rate     float64
	Burst    int
	WarmMS   int
	DurMS    int
	Plain    bool // leave out the durations, too
	Defaults bool // leave out the options that have their default values
}

func zvGenCmd(t *rapid.T) zvCmdCase {
	c := zvCmdCase{
		Topo:     simx.GenTopo(t, 2, 6, false),
		Algo:     vh.OneOf(t, "algo", "coding", "pull"),
		Flood:    rapid.Bool().Draw(t, "flood"),
		Shards:   vh.OneOf(t, "shards", 1, 2, 8, 64, 300, 1000),
		Overhead: vh.OneOf(t, "overhead", 0.02, 0.1, 0.5),
		TxSize:   vh.OneOf(t, "txsize", 256, 100, 1),
		Rate:     vh.OneOf(t, "rate", 5, 2, 12.5),
		Burst:    vh.OneOf(t, "burst", 1, 1, 3),
		WarmMS:   vh.OneOf(t, "warm", 0, 1500, 2000, 3999),
	}
	c.DurMS = c.WarmMS + 3000 + 500*vh.Uniform(t, "dur", 8)
	c.Defaults = vh.Uniform(t, "defaults", 3) == 0
	if c.Defaults {
		c.Shards, c.Overhead, c.TxSize, c.Rate, c.Burst, c.Algo, c.Flood = 64, 0.10, 256, 5, 1, "coding", false
	}
	return c
}

func zvCommand(x *vh.Ctx, c zvCmdCase) error {
	dir, err := os.MkdirTemp("", "cmd")
	if err != nil {
		return vh.Harnessf("%v", err)
	}
	defer os.RemoveAll(dir)
	path, err := zvTopoFile(dir, c.Topo)
	if err != nil {
		return err
	}
	warm, dur := time.Duration(c.WarmMS)*time.Millisecond, time.Duration(c.DurMS)*time.Millisecond
	args := []string{"-topo", path, "-w", warm.String(), "-dur", dur.String()}
	if c.Plain {
		args = args[:2]
	}
	if !c.Defaults {
		args = append(args, "-a", c.Algo, "-s", fmt.Sprint(c.Shards), "-c", fmt.Sprint(c.Overhead), "-txsize", fmt.Sprint(c.TxSize), "-txgen", fmt.Sprint(c.Rate), "-b", fmt.Sprint(c.Burst))
		if c.Flood {
			args = append(args, "-flood")
		}
	}
	txgen = &transactionGenerator{}
	out, err := zvRunMain(dir, args)
	if err != nil {
		return err
	}

	// the same simulation, with our own accounting
	txgen = &transactionGenerator{}
	RNG = rand.New(rand.NewSource(1))
	TXSIZE = c.TxSize
	sim := &des.Simulator{}
	servers := newServers(sim, c.Topo.N, serverConfig{blockArrivalIntv: c.Rate / float64(c.Burst) / float64(time.Second), blockArrivalBurst: c.Burst, initialFlood: c.Flood})
	for _, s := range servers {
		s.latencySketch = newDistributionSketch(warm)
	}
	zvConnect(servers, zvCase{Topo: c.Topo, Algo: c.Algo, Shards: c.Shards, Overhead: c.Overhead})
	start := make([]zvCounts, c.Topo.N)
	warmed := false
	for cur := time.Duration(0); cur < dur; cur += time.Second {
		sim.RunUntil(cur)
		if cur > warm && !warmed {
			warmed = true
			for i, s := range servers {
				start[i] = zvRead(s)
			}
		}
	}
	secs := (sim.Time() - warm).Seconds()
	over := func(f func(a, b zvCounts) float64) (v []float64) {
		for i, s := range servers {
			v = append(v, f(start[i], zvRead(s)))
		}
		return
	}
	quant := func(q float64) (v []float64) {
		for _, s := range servers {
			v = append(v, s.latencySketch.getQuantiles([]float64{q})[0])
		}
		return
	}
	total := 0
	for i, s := range servers {
		total += zvRead(s).decoded - start[i].decoded
	}
	for _, r := range []struct {
		title string
		vals  []float64
	}{
		{"received transaction rate", over(func(a, b zvCounts) float64 { return float64(b.received-a.received) / secs })},
		{"duplicate transaction rate", over(func(a, b zvCounts) float64 { return float64(b.duplicate-a.duplicate) / secs })},
		{"overhead", over(func(a, b zvCounts) float64 {
			return float64(b.bytes-a.bytes) / float64(b.decoded-a.decoded) / float64(c.TxSize)
		})},
		{"latency p5", quant(0.05)},
		{"latency p50", quant(0.5)},
		{"latency p95", quant(0.95)},
	} {
		if err := zvReported(x, out, r.title, r.vals); err != nil {
			return err
		}
	}
	peers := len(c.Topo.Peers()[0])
	if head := strings.SplitN(out, "\n", 2)[0]; !strings.Contains(head, fmt.Sprintf("%d nodes", c.Topo.N)) || !strings.HasSuffix(head, fmt.Sprintf("num peers %d", peers)) {
		return vh.Fail("wrong-report", "first line %q for %d nodes, of which the first has %d peers", head, c.Topo.N, peers)
	}
	x.Tag(c.Algo)
	x.TagIf(c.Flood, "flood")
	x.TagIf(c.Defaults, "defaults")
	x.Add("decoded", total)
	if total > 10 {
		x.NonTrivial()
	}
	return nil
}

func init() {
	zvProps = append(zvProps, &vh.Property{ID: "C33", Rule: "more than ten transactions decoded after the warm-up",
		Assumptions: []string{"measurements start at the first whole second (block-based simulator: report interval) after the warm-up and rates are relative to the time since the warm-up", "a metric that is undefined (nothing decoded at some node) is not compared"},
		Subs: []*vh.Sub{vh.NewSub("newsim-command", 240, zvGenCmd, zvCommand).T(1200),
			vh.NewSub("newsim-long", 3, func(t *rapid.T) zvCmdCase {
				c := zvGenCmd(t)
				c.Defaults = false
				c.Shards = vh.OneOf(t, "few", 1, 4, 16)
				c.Topo = simx.GenTopo(t, 2, 3, false)
				c.Rate, c.Burst, c.WarmMS, c.DurMS = vh.OneOf(t, "rare", 0.1, 0.5), 1, vh.OneOf(t, "warm", 0, 600000), 4500000
				return c
			}, zvCommand).T(12),
			vh.NewSub("newsim-plain", 3, func(t *rapid.T) zvCmdCase {
				c := zvGenCmd(t)
				c.Shards, c.Overhead, c.TxSize, c.Rate, c.Burst, c.Algo, c.Flood = 64, 0.10, 256, 5, 1, "coding", false
				c.Topo = simx.GenTopo(t, 2, 3, false)
				c.Defaults, c.Plain, c.WarmMS, c.DurMS = true, true, 20000, 100000
				return c
			}, zvCommand).T(12)}})
}
