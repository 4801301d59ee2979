//go:build go1.23

package main

import (
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
	"pgregory.net/rapid"
	"verif/libs/simx"
	"verif/vh"
)

type zvLatCase struct {
	Base   zvCase
	WarmMS int // the warm-up
}

func zvGenLat(t *rapid.T) zvLatCase {
	c := zvLatCase{Base: zvGenCase(7, 12, false)(t), WarmMS: vh.OneOf(t, "warm", 0, 0, 1, 30, 200, 1000, 100000)}
	if vh.Uniform(t, "late", 4) == 0 { // the simulation has gone on for long
		late := vh.OneOf(t, "lateUS", 2000000000, 30000000000)
		for i := range c.Base.Gens {
			c.Base.Gens[i].US += late
		}
		c.WarmMS += vh.OneOf(t, "lateWarm", 0, late/1000)
	}
	last := 0
	for _, g := range c.Base.Gens {
		last = max(last, g.US/1000)
	}
	if vh.Uniform(t, "middle", 2) == 1 {
		c.WarmMS = vh.Uniform(t, "warm2", last+200)
	}
	return c
}

// zvLatency: what the sketch of a node says is what was measured from outside.
func zvLatency41(x *vh.Ctx, c zvLatCase) error {
	n := zvMake(c.Base)
	warm := time.Duration(c.WarmMS) * time.Millisecond
	z := make([]*zvSamples, len(n.servers))
	for i, s := range n.servers {
		s.latencySketch = newDistributionSketch(warm)
		z[i] = &zvSamples{warm: warm}
	}
	born := map[uint64]time.Duration{}
	size := make([]int, len(n.servers))
	have := make([]map[uint64]bool, len(n.servers))
	for i := range have {
		have[i] = map[uint64]bool{}
	}
	total := c.Base.total() * len(n.servers)
	all := 0
	flood, coded := 0, 0
	n.loop.Observe = func(e simx.Event, out []des.OutgoingMessage) error {
		i := n.idx[e.To]
		s := n.servers[i]
		if len(s.received) == size[i] {
			return nil
		}
		size[i] = len(s.received)
		_, gen := e.Payload.(blockArrival)
		_, fl := e.Payload.(initialBroadcast)
		for t := range zvIDs(s.received) {
			if have[i][t] {
				continue
			}
			have[i][t] = true
			all++
			if gen {
				born[t] = e.At
				continue
			}
			z[i].add((e.At - born[t]).Seconds(), e.At)
			if fl {
				flood++
			} else {
				coded++
			}
		}
		return nil
	}
	if err := n.loop.Run(c.Base.horizon(), 1000000, func() bool { return all >= total }); err != nil {
		return err
	}
	kept, dropped := 0, 0
	for i, s := range n.servers {
		kept, dropped = kept+len(z[i].v), dropped+z[i].out
		if err := z[i].compare(s.latencySketch, i, "latency"); err != nil {
			return err
		}
	}
	x.Add("latencies", kept)
	x.Add("before-warm-up", dropped)
	x.TagIf(flood > 0, "flooded")
	x.TagIf(coded > 0, c.Base.Algo)
	x.TagIf(kept > 0 && dropped > 0, "warm-up-midway")
	if kept > 1 {
		x.NonTrivial()
	}
	return nil
}

func init() {
	zvProps = append(zvProps, &vh.Property{ID: "C41", Rule: "at least two latencies were measured after the warm-up",
		Assumptions: []string{"link delays are at least one millisecond", "a quantile may be off by one percent of the latency"},
		Subs:        []*vh.Sub{vh.NewSub("latencies", 800, zvGenLat, zvLatency41).T(4000)}})
}
