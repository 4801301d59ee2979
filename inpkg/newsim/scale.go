//go:build go1.23

package main

import (
	"pgregory.net/rapid"
	"verif/libs/simx"
	"verif/vh"
)

// Networks of the size the simulators are run at: dozens of nodes, thousands of
// transactions.

func zvGenBig(maxNodes, work int, tree bool) func(t *rapid.T) zvCase {
	return func(t *rapid.T) zvCase {
		c := zvGenCase(8, 3, tree)(t)
		c.Topo = simx.GenTopo(t, 2, 2+vh.Uniform(t, "most", maxNodes-1), tree)
		for i := range c.Gens {
			c.Gens[i].Node %= c.Topo.N
		}
		for i := 0; i < c.Topo.N; i++ { // every node generates something
			c.Gens = append(c.Gens, zvGen{Node: i, N: 1, US: vh.Uniform(t, "when", 100000)})
		}
		// transactions times links, to bound the cost
		left := min(work/len(c.Topo.Edges), 4000)
		for left > 0 {
			g := zvGen{Node: vh.Uniform(t, "bigNode", c.Topo.N), N: min(left, vh.OneOf(t, "bigBurst", 100, 300, 1000, 3000)), US: vh.Uniform(t, "bigAt", 2000000)}
			c.Gens = append(c.Gens, g)
			left -= g.N
		}
		if c.ResetAt > 0 {
			c.ResetAt *= 20
		}
		return c
	}
}

// zvGenMany: a few nodes and many thousand transactions, some in one burst.
func zvGenMany(t *rapid.T) zvCase {
	c := zvGenCase(3, 3, false)(t)
	c.Lean, c.ResetAt = true, 0
	left := vh.OneOf(t, "many", 9000, 20000, 70000)
	if c.Algo == "coding" {
		c.Shards = vh.OneOf(t, "manyShards", 1, 2, 8)
	}
	most := vh.OneOf(t, "mostAtOnce", 700, 5000, 70000)
	for left > 0 {
		g := zvGen{Node: vh.Uniform(t, "manyNode", c.Topo.N), N: min(left, 1+vh.Uniform(t, "manyBurst", most)), US: vh.Uniform(t, "manyAt", 2000000)}
		c.Gens = append(c.Gens, g)
		left -= g.N
	}
	return c
}

func init() {
	for _, p := range zvProps {
		switch p.ID {
		case "C20":
			p.Subs = append(p.Subs, vh.NewSub("big", 15, zvGenBig(70, 40000, false), zvConverge).T(60), vh.NewSub("many", 8, zvGenMany, zvConverge).T(60))
		case "C21":
			p.Subs = append(p.Subs, vh.NewSub("big", 10, zvGenBig(40, 20000, false), zvAccount).T(60), vh.NewSub("big-trees", 10, zvGenBig(40, 20000, true), zvAccount).T(60))
		case "C38":
			p.Subs = append(p.Subs, vh.NewSub("big", 10, func(t *rapid.T) zvCase {
				c := zvGenBig(25, 20000, false)(t)
				c.Algo, c.ResetAt = "coding", 0
				return c
			}, zvLinks).T(60))
		}
	}
}
