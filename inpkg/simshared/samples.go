//go:build go1.23

package main

import (
	"math"
	"sort"
	"time"

	"verif/vh"
)

// The samples a sketch was given can be told from its quantiles: at every
// rank they are within one percent of the sample there.

type zvSamples struct {
	warm time.Duration
	v    []float64
	out  int // before the warm-up was over
}

func (z *zvSamples) add(v float64, at time.Duration) {
	if at < z.warm {
		z.out++
		return
	}
	z.v = append(z.v, v)
}

// compare asks for the quantiles and compares them with the samples.
func (z *zvSamples) compare(s *distributionSketch, node int, what string) error {
	n := len(z.v)
	q := []float64{0, 0.05, 0.25, 0.5, 0.75, 0.95, 1}
	if n > 1 {
		for i := 0; i < n; i++ {
			q = append(q, float64(i)/float64(n-1))
		}
	}
	sort.Float64s(q)
	got := s.getQuantiles(q)
	if len(got) != len(q) {
		return vh.Fail("wrong-"+what, "node %d: %d quantiles for %d", node, len(got), len(q))
	}
	if n == 0 {
		for _, g := range got {
			if !math.IsNaN(g) {
				return vh.Fail("wrong-"+what, "node %d: %s %v although there was nothing to measure (%d before the warm-up was over at %v)", node, what, g, z.out, z.warm)
			}
		}
		return nil
	}
	sort.Float64s(z.v)
	for i, g := range got {
		r := q[i] * float64(n-1)
		lo, hi := z.v[int(math.Floor(r+1e-9))], z.v[int(math.Ceil(r-1e-9))]
		if j := int(math.Floor(r - 1e-9)); j >= 0 {
			lo = z.v[j] // at a whole rank the rounding may go either way
		}
		if j := int(math.Ceil(r + 1e-9)); j < n {
			hi = z.v[j]
		}
		if !(g >= lo-math.Abs(lo)*0.0101-1e-9 && g <= hi+math.Abs(hi)*0.0101+1e-9) {
			return vh.Fail("wrong-"+what, "node %d: quantile %.4f of the %s is %v; %d were to be measured since %v (%d before), there with %v to %v", node, q[i], what, g, n, z.warm, z.out, lo, hi)
		}
	}
	return nil
}
