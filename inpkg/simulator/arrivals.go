//go:build go1.23

package main

import (
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
	"pgregory.net/rapid"
)

func zvGenArrBase(t *rapid.T) zvCase { return zvGenCase(4, 1)(t) }

// zvBorn takes a transaction from the generator and tells its number.
func zvBorn() uint64 { return txgen.generate(0).Data().idx }

func zvArrServers(sim *des.Simulator, c zvArrCase) []*server {
	c.Base.SyncMS = 0
	return zvServers(sim, c.Base, c.Rate/float64(c.Burst)/float64(time.Second), c.Burst)
}
