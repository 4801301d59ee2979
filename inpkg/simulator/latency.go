//go:build go1.23

package main

import (
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
	"pgregory.net/rapid"
	"verif/libs/simx"
	"verif/vh"
)

type zvLatCase struct {
	Base   zvCase
	WarmMS int // the warm-up
}

func zvGenLat(t *rapid.T) zvLatCase {
	c := zvLatCase{Base: zvGenCase(6, 25)(t), WarmMS: vh.OneOf(t, "warm", 0, 0, 1, 30, 200, 1000, 100000)}
	if vh.Uniform(t, "late", 4) == 0 { // the simulation has gone on for long
		late := vh.OneOf(t, "lateUS", 100000000, 2000000000)
		for i := range c.Base.Gens {
			c.Base.Gens[i].US += late
		}
		c.WarmMS += vh.OneOf(t, "lateWarm", 0, late/1000)
	}
	last := 0
	for _, g := range c.Base.Gens {
		last = max(last, g.US/1000)
	}
	if vh.Uniform(t, "middle", 2) == 1 {
		c.WarmMS = vh.Uniform(t, "warm2", last+200)
	}
	return c
}

// zvLatency41: what the sketches of a node say is what was measured from
// outside: the time from the generation of a transaction to its arrival, and
// how much of a new block its receiver had already.
func zvLatency41(x *vh.Ctx, c zvLatCase) error {
	n := zvMake(c.Base, zvRare, 1)
	warm := time.Duration(c.WarmMS) * time.Millisecond
	lat, ovl := make([]*zvSamples, len(n.servers)), make([]*zvSamples, len(n.servers))
	have := make([]map[transaction]bool, len(n.servers))
	for i, s := range n.servers {
		s.latencySketch, s.overlapSketch = newDistributionSketch(warm), newDistributionSketch(warm)
		lat[i], ovl[i] = &zvSamples{warm: warm}, &zvSamples{warm: warm}
		have[i] = map[transaction]bool{}
	}
	born := map[transaction]time.Duration{}
	partial := 0
	n.loop.Observe = func(e simx.Event, out []des.OutgoingMessage) error {
		i := n.idx[e.To]
		s := n.servers[i]
		_, gen := e.Payload.(blockArrival)
		for _, o := range out {
			l, ok := o.Payload.(loopback)
			if !ok {
				continue
			}
			d := l.tx.Data()
			if have[i][d] {
				continue
			}
			have[i][d] = true
			if gen {
				born[d] = e.At
				continue
			}
			b, ok := born[d]
			if !ok {
				return vh.Fail("never-generated", "node %d obtained %+v, which nobody generated", i, d)
			}
			lat[i].add((e.At - b).Seconds(), e.At)
		}
		if zvDeep == nil {
			return nil
		}
		for _, o := range out {
			if cw, ok := o.Payload.(codeword); ok && cw.newBlock {
				_, block := zvDeep(s, o.To)
				k := 0
				for _, d := range block {
					if have[n.idx[o.To]][d] {
						k++
					}
				}
				if len(block) == 0 {
					return vh.Harnessf("an empty block")
				}
				if k > 0 && k < len(block) {
					partial++
				}
				ovl[i].add(float64(k)/float64(len(block)), e.At)
			}
		}
		return nil
	}
	if err := n.loop.Run(c.Base.horizon(), 6000, nil); err != nil {
		return err
	}
	kept, dropped := 0, 0
	for i, s := range n.servers {
		kept, dropped = kept+len(lat[i].v), dropped+lat[i].out
		if err := lat[i].compare(s.latencySketch, i, "latency"); err != nil {
			return err
		}
		if zvDeep != nil {
			if err := ovl[i].compare(s.overlapSketch, i, "overlap"); err != nil {
				return err
			}
			x.Add("overlaps", len(ovl[i].v))
		}
	}
	x.Add("latencies", kept)
	x.Add("before-warm-up", dropped)
	x.TagIf(partial > 0, "partial-overlap")
	x.TagIf(kept > 0 && dropped > 0, "warm-up-midway")
	if kept > 1 {
		x.NonTrivial()
	}
	return nil
}

func init() {
	zvProps = append(zvProps, &vh.Property{ID: "C41", Rule: "at least two latencies were measured after the warm-up",
		Assumptions: []string{"link delays are at least one millisecond", "a quantile may be off by one percent of the latency"},
		Subs:        []*vh.Sub{vh.NewSub("sim-latencies", 600, zvGenLat, zvLatency41).T(4000)}})
}
