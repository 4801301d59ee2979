//go:build go1.23

package main

import (
	"pgregory.net/rapid"
	"verif/libs/simx"
	"verif/vh"
)

// Networks of the size the simulator is run at: dozens of nodes, blocks of
// thousands of transactions.

func zvGenBig(maxNodes, work int) func(t *rapid.T) zvCase {
	return func(t *rapid.T) zvCase {
		c := zvGenCase(8, 3)(t)
		c.Topo = simx.GenTopo(t, 2, 2+vh.Uniform(t, "most", maxNodes-1), false)
		for i := range c.Gens {
			c.Gens[i].Node %= c.Topo.N
		}
		c.Events = 40000
		left := min(work/len(c.Topo.Edges), 6000)
		c.PaceNS = min(c.PaceNS, 1000000)
		for left > 0 {
			g := zvGen{Node: vh.Uniform(t, "bigNode", c.Topo.N), N: min(left, vh.OneOf(t, "bigBurst", 100, 300, 1000, 3000)), US: vh.Uniform(t, "bigAt", 2000000)}
			c.Gens = append(c.Gens, g)
			left -= g.N
		}
		if c.ResetAt > 0 {
			c.ResetAt *= 20
		}
		return c
	}
}

func init() {
	for _, p := range zvProps {
		switch p.ID {
		case "C22":
			p.Subs = append(p.Subs, vh.NewSub("big", 10, zvGenBig(40, 20000), zvLinks("C22")).T(60))
		case "C23":
			p.Subs = append(p.Subs, vh.NewSub("big", 10, zvGenBig(40, 20000), zvLinks("C23")).T(60))
		}
	}
}
