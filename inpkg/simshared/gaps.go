//go:build go1.23

package main

import (
	"math"
	"sort"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
	"pgregory.net/rapid"
	"verif/libs/simx"
	"verif/vh"
)

// What the nodes of a simulator generate by themselves.

type zvArrCase struct {
	Base   zvCase
	N      int // nodes; 0: those of the topology, linked
	Rate   float64
	Burst  int
	Gap    float64 // until the harness looks, in mean gaps
	Events int
}

func zvGenArr(base func(t *rapid.T) zvCase, linked bool) func(t *rapid.T) zvArrCase {
	return func(t *rapid.T) zvArrCase {
		c := zvArrCase{Base: base(t), Rate: vh.OneOf(t, "rate", 0.01, 1, 37.5, 5000), Burst: vh.OneOf(t, "burst", 1, 1, 1, 2, 10, 10, 300),
			Gap: vh.OneOf(t, "gap", 0.05, 0.2, 0.7, 2), Events: 3000}
		if c.Burst > 10 {
			c.Events = 600
		}
		c.Base.Gens = nil
		if !linked || vh.Uniform(t, "linked", 3) > 0 {
			c.N = 2 + vh.Uniform(t, "n", 60)
			if c.Burst <= 10 && vh.Uniform(t, "numerous", 8) == 0 {
				c.N *= 1 + vh.Uniform(t, "times", 20)
				c.Events = 5 * c.N
			}
			if !linked {
				c.N *= 4
			}
		}
		return c
	}
}

// zvExpKS compares samples with the exponential distribution of the given
// mean; the statistic exceeds the limit less than once in 10^9.
func zvExpKS(v []float64, mean float64) (float64, bool) {
	sort.Float64s(v)
	d, n := 0.0, float64(len(v))
	for i, x := range v {
		f := 1 - math.Exp(-x/mean)
		d = math.Max(d, math.Max(f-float64(i)/n, float64(i+1)/n-f))
	}
	d *= math.Sqrt(n)
	return d, d < 3.4
}

// zvGaps looks at the times between what a node generates.
func zvGaps(x *vh.Ctx, c zvArrCase) error {
	if c.N > 0 {
		c.Base.Topo = simx.Topo{N: c.N}
	}
	servers := zvArrServers(&des.Simulator{}, c)
	loop := &simx.Loop{}
	idx := map[des.Module]int{}
	for i, s := range servers {
		idx[s] = i
		loop.Send(0, s, s, blockArrival{n: c.Burst})
	}
	mean := float64(c.Burst) / c.Rate * 1e9
	last := make([]time.Duration, len(servers))
	next := make([]time.Duration, len(servers)) // the arrival that is to come
	all := make([][]time.Duration, len(servers))
	var gaps []float64
	born := zvBorn()
	loop.Observe = func(e simx.Event, out []des.OutgoingMessage) error {
		i := idx[e.To]
		_, arrival := e.Payload.(blockArrival)
		b := zvBorn()
		made := int(b-born) - 1
		born = b
		want, coming := 0, 0
		if arrival {
			want = c.Burst
		}
		if made != want {
			return vh.Fail("wrong-burst", "node %d at %v, on %T: %d transactions generated, expected %d", i, e.At, e.Payload, made, want)
		}
		for _, o := range out {
			if _, ok := o.Payload.(blockArrival); ok {
				coming++
				next[i] = e.At + o.Delay
			}
		}
		if arrival && coming != 1 || !arrival && coming != 0 {
			return vh.Fail("wrong-arrivals", "node %d at %v: %d further arrivals are scheduled on %T", i, e.At, coming, e.Payload)
		}
		if arrival {
			if e.At > 0 {
				gaps = append(gaps, float64(e.At-last[i]))
			}
			last[i] = e.At
			all[i] = append(all[i], e.At)
		}
		return nil
	}
	if err := loop.Run(1<<62, c.Events, nil); err != nil {
		return err
	}
	x.Add("arrivals", len(gaps))
	// gaps cut off by the end of the run are known as well
	for i := range servers {
		gaps = append(gaps, float64(next[i]-last[i]))
	}
	n := len(gaps)
	if d, ok := zvExpKS(gaps, mean); !ok {
		sum := 0.0
		for _, g := range gaps {
			sum += g
		}
		return vh.Fail("wrong-gaps", "%d gaps between arrivals, mean %.4g ns, expected exponential with mean %.4g ns (Kolmogorov-Smirnov %.2f)", n, sum/float64(n), mean, d)
	}
	// all nodes together
	var end time.Duration = 1 << 62
	for i := range servers {
		end = min(end, last[i])
	}
	var pool []time.Duration
	for i := range all {
		for _, t := range all[i] {
			if t > 0 && t <= end {
				pool = append(pool, t)
			}
		}
	}
	same := map[[3]time.Duration]int{}
	for i := range all {
		if len(all[i]) < 4 || mean < 1e5 {
			continue
		}
		a := [3]time.Duration(all[i][1:4])
		if j, ok := same[a]; ok {
			return vh.Fail("dependent-nodes", "nodes %d and %d both generate at %v", j, i, a)
		}
		same[a] = i
	}
	sort.Slice(pool, func(i, j int) bool { return pool[i] < pool[j] })
	var pg []float64
	prev := time.Duration(0)
	for _, t := range pool {
		pg = append(pg, float64(t-prev))
		prev = t
	}
	if len(pg) >= 20 {
		if d, ok := zvExpKS(pg, mean/float64(len(servers))); !ok {
			return vh.Fail("dependent-nodes", "%d arrivals at %d nodes: the gaps between them are not exponential with mean %.4g ns (Kolmogorov-Smirnov %.2f)", len(pg), len(servers), mean/float64(len(servers)), d)
		}
	}
	if n >= 50 {
		x.NonTrivial()
	}
	x.TagIf(c.N == 0, "linked")
	x.TagIf(len(pg) >= 20, "nodes-compared")
	x.TagIf(len(servers) > 256, "hundreds-of-nodes")
	x.TagIf(c.Burst > 256, "large-bursts")
	return nil
}

// zvStart looks at what has been generated shortly after the start.
func zvStart(x *vh.Ctx, c zvArrCase) error {
	c.Base.Topo = simx.Topo{N: c.N}
	sim := &des.Simulator{}
	first := zvBorn()
	zvArrServers(sim, c)
	mean := float64(c.Burst) / c.Rate * 1e9
	p := &zvProbe{}
	sim.ScheduleMessage(des.OutgoingMessage{Payload: 1, To: p, Delay: time.Duration(c.Gap * mean)}, p)
	for !p.done && !sim.Drained() {
		sim.RunUntil(sim.Time())
	}
	if !p.done {
		return vh.Fail("lost-message", "the simulator lost a message")
	}
	got := float64(p.born-first-1) / float64(c.Burst)
	mu := float64(c.N) * c.Gap
	if math.Abs(got-mu) > 7*math.Sqrt(mu)+12 {
		return vh.Fail("wrong-start", "%d nodes generated %v bursts within %v mean gaps, expected about %.0f", c.N, got, c.Gap, mu)
	}
	x.Add("bursts", int(got))
	if got >= 10 {
		x.NonTrivial()
	}
	return nil
}

type zvProbe struct {
	done bool
	born uint64
}

func (p *zvProbe) HandleMessage(payload any, from des.Module, at time.Duration) []des.OutgoingMessage {
	p.done = true
	p.born = zvBorn()
	return nil
}

func init() {
	base := zvGenArrBase
	zvProps = append(zvProps, &vh.Property{ID: "C43", Rule: "gaps: fifty gaps were measured; start: ten bursts were generated",
		Assumptions: []string{"statistical: a Kolmogorov-Smirnov test that a correct simulator fails less than once in 10^9 cases; counts at 7 standard deviations"},
		Subs: []*vh.Sub{
			vh.NewSub("gaps", 150, zvGenArr(base, true), zvGaps).T(2000),
			vh.NewSub("start", 150, zvGenArr(base, false), zvStart).T(2000),
		}})
}
