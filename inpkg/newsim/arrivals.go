//go:build go1.23

package main

import (
	"math/rand"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
	"pgregory.net/rapid"
)

func zvGenArrBase(t *rapid.T) zvCase { return zvGenCase(4, 1, false)(t) }

// zvBorn takes a transaction from the generator and tells its number.
func zvBorn() uint64 { return txgen.generate(0).idx }

func zvArrServers(sim *des.Simulator, c zvArrCase) []*server {
	RNG = rand.New(rand.NewSource(c.Base.Seed))
	TXSIZE = c.Base.TxSize
	servers := newServers(sim, c.Base.Topo.N, serverConfig{blockArrivalIntv: c.Rate / float64(c.Burst) / float64(time.Second), blockArrivalBurst: c.Burst, initialFlood: c.Base.Flood})
	for _, s := range servers {
		s.latencySketch = newDistributionSketch(0)
	}
	zvConnect(servers, c.Base)
	return servers
}
