//go:build go1.23

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"
	"verif/vh"
)

// The topology generator of this simulator: what it prints, read by
// loadTopology, against the graph that was asked for.

type zvMakeTopoCase struct {
	N, D    int
	Kind    string // "" leaves the option out
	Latency int    // 0: the file of the repository; 1: a generated one
	Missing int    // percentage of pairs the generated file lacks
	Seed    uint32
	Runs    int
}

func zvMakeTopoGen(t *rapid.T) zvMakeTopoCase {
	c := zvMakeTopoCase{Kind: vh.OneOf(t, "kind", "", "random-regular", "random", "random"), Latency: vh.Uniform(t, "latency", 3), Seed: uint32(vh.Seed(t)), Runs: 1}
	if c.Latency > 1 {
		c.Latency = 1
	}
	c.Missing = vh.OneOf(t, "missing", 0, 0, 30, 100)
	switch vh.Uniform(t, "size", 5) {
	case 0:
		c.N = 1 + rapid.IntRange(1, 7).Draw(t, "n")
	case 1:
		c.N = rapid.IntRange(60, 250).Draw(t, "n")
	default:
		c.N = rapid.IntRange(8, 50).Draw(t, "n")
	}
	max := c.N - 1
	if max > 12 {
		max = 12
	}
	if c.Kind == "random" {
		// sparse random graphs are hardly ever connected
		low := 2
		for e := c.N; e > 4; e = e * 2 / 3 {
			low++
		}
		if low > c.N-1 {
			low = c.N - 1
		}
		if max < low {
			max = low
		}
		c.D = rapid.IntRange(low, max).Draw(t, "d")
	} else {
		low := 3
		if low > max {
			low = max
		}
		c.D = rapid.IntRange(low, max).Draw(t, "d")
		if c.D*c.N%2 == 1 { // no such graph
			c.N++
		}
	}
	return c
}

// zvLatency makes a latency file in the form of the one in the repository:
// comments, rows for pairs in both orders that disagree, a trailing comma.
func zvLatency(path string, n, missing int, seed uint32) error {
	r := vh.NewRng(uint64(seed))
	var b strings.Builder
	fmt.Fprintf(&b, "# num cities: %d\n", n)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if r.Intn(100) < missing {
				continue
			}
			ms := r.Float() * 200
			switch r.Intn(6) {
			case 0:
				ms = r.Float() * 3
			case 1:
				ms = float64(r.Intn(200))
			case 2:
				ms = r.Float() * 3000
			}
			fmt.Fprintf(&b, "%d,%d,%v,\n", i, j, ms)
		}
	}
	return os.WriteFile(path, []byte(b.String()), 0o644)
}

// zvReadLatency parses the file by itself.
func zvReadLatency(path string) (map[[2]int]float64, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, vh.Harnessf("%v", err)
	}
	res := map[[2]int]float64{}
	for _, l := range strings.Split(string(b), "\n") {
		w := strings.Split(l, ",")
		if len(w) < 3 {
			continue
		}
		i, e1 := strconv.Atoi(w[0])
		j, e2 := strconv.Atoi(w[1])
		ms, e3 := strconv.ParseFloat(w[2], 64)
		if e1 != nil || e2 != nil || e3 != nil {
			return nil, vh.Harnessf("latency line %q", l)
		}
		res[[2]int{i, j}] = ms
	}
	return res, nil
}

func zvMakeTopo(x *vh.Ctx, c zvMakeTopoCase) error {
	repo := os.Getenv("VERIF_REPO")
	cwd := filepath.Join(repo, zvPkg)
	dir, err := os.MkdirTemp("", "gentopo")
	if err != nil {
		return vh.Harnessf("%v", err)
	}
	defer os.RemoveAll(dir)
	lat := filepath.Join(cwd, "city-prop-delay.csv")
	args := []string{strconv.Itoa(c.N), strconv.Itoa(c.D)}
	if c.Latency == 1 {
		lat = filepath.Join(dir, "latency")
		if err := zvLatency(lat, c.N, c.Missing, c.Seed); err != nil {
			return vh.Harnessf("%v", err)
		}
		args = append(args, "--latency", lat)
	}
	if c.Kind != "" {
		args = append(args, "--topo", c.Kind)
	}
	delays, err := zvReadLatency(lat)
	if err != nil {
		return err
	}
	seen := map[[2]int]bool{}
	for run := 0; run < c.Runs; run++ {
		res, err := vh.RunPy("argparse,networkx,numpy.random", filepath.Join(cwd, "gen_topo.py"), cwd, c.Seed+uint32(run)*7919, args...)
		if err != nil {
			return err
		}
		if res.Exit == nil {
			return vh.Fail("no-end", "the generator does not end for %v", args)
		}
		if *res.Exit != 0 {
			return vh.Fail("generator-fails", "exit status %d for %v: %s", *res.Exit, args, res.Err)
		}
		file := filepath.Join(dir, "topo.csv")
		if err := os.WriteFile(file, []byte(res.Out), 0o644); err != nil {
			return vh.Harnessf("%v", err)
		}
		var links []connection
		n := 0
		if vh.Panics(func() { links, n = loadTopology(file) }) {
			return vh.Fail("unreadable", "the simulator cannot read the topology generated for %v", args)
		}
		if n > c.N {
			return vh.Fail("wrong-nodes", "%d nodes for %v", n, args)
		}
		deg := make([]int, c.N)
		pairs := map[[2]int]bool{}
		root := make([]int, c.N)
		for i := range root {
			root[i] = i
		}
		find := func(i int) int {
			for root[i] != i {
				i = root[i]
			}
			return i
		}
		for _, l := range links {
			a, b := l.a, l.b
			if a > b {
				a, b = b, a
			}
			if a == b {
				return vh.Fail("self-link", "node %d is linked to itself for %v", a, args)
			}
			if a < 0 || b >= c.N {
				return vh.Fail("wrong-nodes", "link %d-%d for %v", l.a, l.b, args)
			}
			if pairs[[2]int{a, b}] {
				return vh.Fail("double-link", "%d and %d are linked twice for %v", a, b, args)
			}
			pairs[[2]int{a, b}] = true
			seen[[2]int{a, b}] = true
			deg[a]++
			deg[b]++
			root[find(a)] = find(b)
			want := 80
			if f, there := delays[[2]int{a, b}]; there {
				want = int(f)
				if want < 1 && zvPkg == "newsim" {
					want = 1
				}
				x.TagIf(f < 1, "below-1ms")
			} else {
				x.Tag("pair-without-latency")
			}
			if l.delay != time.Duration(want)*time.Millisecond {
				return vh.Fail("wrong-delay", "link %d-%d has a delay of %v, the latency file makes it %d ms (%v)", l.a, l.b, l.delay, want, args)
			}
		}
		if c.Kind == "random" {
			if len(links) != (c.N*c.D+1)/2 {
				return vh.Fail("wrong-degree", "%d links for %v", len(links), args)
			}
		} else {
			for i, d := range deg {
				if d != c.D {
					return vh.Fail("wrong-degree", "node %d has %d links for %v", i, d, args)
				}
			}
		}
		for i := range root {
			if find(i) != find(0) {
				return vh.Fail("unconnected", "nodes 0 and %d are not connected for %v", i, args)
			}
		}
	}
	x.Tag("kind-" + c.Kind)
	x.TagIf(c.Latency == 0, "shipped-latency-file")
	if c.Runs > 1 {
		for i := 0; i < c.N; i++ {
			for j := i + 1; j < c.N; j++ {
				if !seen[[2]int{i, j}] {
					return vh.Fail("never-linked", "%d and %d are linked in none of %d topologies for %v", i, j, c.Runs, args)
				}
			}
		}
	}
	if c.N > 4 {
		x.NonTrivial()
	}
	return nil
}

func init() {
	zvProps = append(zvProps, &vh.Property{ID: "C35", Rule: "more than 4 nodes",
		Assumptions: []string{"a regular graph of the size and degree exists; degrees at which random graphs are connected often enough", "networkx is installed"},
		Subs: []*vh.Sub{
			vh.NewSub("generator", 150, zvMakeTopoGen, zvMakeTopo).T(1500),
			// every pair of nodes gets linked sooner or later: a pair stays unlinked with a
			// probability of (1-4/11)^150 < 1e-29
			vh.NewSub("variety", 2, func(t *rapid.T) zvMakeTopoCase {
				return zvMakeTopoCase{N: 12, D: 4, Kind: vh.OneOf(t, "kind", "random-regular", "random"), Seed: uint32(vh.Seed(t)), Runs: 150}
			}, zvMakeTopo).T(4),
		}})
}
