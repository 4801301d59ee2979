//go:build go1.23

package main

import (
	"pgregory.net/rapid"
	"verif/libs/simx"
	"verif/vh"
)

// zvGenAvalanche: coding windows of thousands of transactions. Nearly all of a
// window is decoded at once, by the codeword that completes it.
func zvGenAvalanche(max int) func(t *rapid.T) zvNetCase {
	return func(t *rapid.T) zvNetCase {
		c := zvNetCase{Seed: int64(vh.Seed(t)), Topo: simx.GenTopo(t, 2, max, false), C: 0.03, Delta: 0.5,
			Rate: vh.OneOf(t, "rate", 1000.0, 3000), MinPart: 1, Timeout: 3.6e6, HorizonS: 30}
		for range c.Topo.Edges {
			c.Frags = append(c.Frags, zvGenFrag(t), zvGenFrag(t))
			for i := len(c.Frags) - 2; i < len(c.Frags); i++ { // not byte by byte
				if f := &c.Frags[i]; f.Max > 0 {
					f.Max = 0
				}
				c.Frags[i].DelayUS = min(c.Frags[i].DelayUS, 3000)
			}
		}
		for i := 1 + vh.Uniform(t, "intros", 3); i > 0; i-- {
			in := zvIntro{Node: vh.Uniform(t, "node", c.Topo.N), N: vh.OneOf(t, "burst", 300, 1300, 2500), MS: vh.Uniform(t, "at", 500)}
			c.K += in.N
			c.Intros = append(c.Intros, in)
		}
		c.K += vh.OneOf(t, "spare", 0, 1, 100)
		return c
	}
}

func init() {
	for _, p := range zvProps {
		switch p.ID {
		case "C30":
			p.Subs = append(p.Subs, zvChild("avalanche", 6, zvGenAvalanche(3), func(c zvNetCase) int64 { return c.Seed }, zvNet).T(60))
		}
	}
}
