//go:build go1.23

package main

import (
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"pgregory.net/rapid"
	"verif/vh"
)

// gentopo.py: what it prints, read as an experiment file.

type zvMakeTopoCase struct {
	N, D int
	Seed uint32
	Runs int
}

func zvMakeTopo(x *vh.Ctx, c zvMakeTopoCase) error {
	cwd := filepath.Join(os.Getenv("VERIF_REPO"), "testbed")
	dir, err := os.MkdirTemp("", "gentopo")
	if err != nil {
		return vh.Harnessf("%v", err)
	}
	defer os.RemoveAll(dir)
	seen := map[[2]int]bool{}
	for run := 0; run < c.Runs; run++ {
		res, err := vh.RunPy("argparse,networkx,json", filepath.Join(cwd, "gentopo.py"), cwd, c.Seed+uint32(run)*7919, strconv.Itoa(c.N), strconv.Itoa(c.D))
		if err != nil {
			return err
		}
		if res.Exit == nil {
			return vh.Fail("no-end", "the generator does not end for %d nodes of degree %d", c.N, c.D)
		}
		file := filepath.Join(dir, "exp.json")
		if err := os.WriteFile(file, []byte(res.Out), 0o644); err != nil {
			return vh.Harnessf("%v", err)
		}
		if !strings.Contains(res.Out, "Topology") {
			return vh.Fail("generator-fails", "exit status %d for %d nodes of degree %d: %s%s", *res.Exit, c.N, c.D, res.Out, res.Err)
		}
		links := ReadExperimentInfo(file).Topology
		deg := make([]int, c.N)
		pairs := map[[2]int]bool{}
		adj := make([][]int, c.N)
		for _, l := range links {
			a, b := l.From, l.To
			if a > b {
				a, b = b, a
			}
			if a == b {
				return vh.Fail("self-link", "node %d is linked to itself", a)
			}
			if a < 0 || b >= c.N {
				return vh.Fail("wrong-nodes", "link %d-%d for %d nodes", a, b, c.N)
			}
			if pairs[[2]int{a, b}] {
				return vh.Fail("double-link", "%d and %d are linked twice", a, b)
			}
			pairs[[2]int{a, b}] = true
			seen[[2]int{a, b}] = true
			deg[a]++
			deg[b]++
			adj[a] = append(adj[a], b)
			adj[b] = append(adj[b], a)
		}
		for i, d := range deg {
			if d != c.D {
				return vh.Fail("wrong-degree", "node %d has %d links instead of %d", i, d, c.D)
			}
		}
		// the longest shortest path
		diameter, whole := 0, true
		for s := range adj {
			dist := make([]int, c.N)
			for i := range dist {
				dist[i] = -1
			}
			dist[s] = 0
			q := []int{s}
			for len(q) > 0 {
				a := q[0]
				q = q[1:]
				for _, b := range adj[a] {
					if dist[b] < 0 {
						dist[b] = dist[a] + 1
						q = append(q, b)
					}
				}
			}
			for _, d := range dist {
				if d < 0 {
					whole = false
				}
				if d > diameter {
					diameter = d
				}
			}
		}
		if whole != (*res.Exit == 0) {
			return vh.Fail("unconnected", "exit status %d, and the graph is connected: %v", *res.Exit, whole)
		}
		if whole && strings.TrimSpace(res.Err) != "diameter: "+strconv.Itoa(diameter) {
			return vh.Fail("wrong-diameter", "diameter %d, reported %q", diameter, res.Err)
		}
		x.TagIf(!whole, "unconnected")
	}
	if c.Runs > 1 {
		for i := 0; i < c.N; i++ {
			for j := i + 1; j < c.N; j++ {
				if !seen[[2]int{i, j}] {
					return vh.Fail("never-linked", "%d and %d are linked in none of %d topologies", i, j, c.Runs)
				}
			}
		}
	}
	if c.N > 4 {
		x.NonTrivial()
	}
	return nil
}

func init() {
	zvProps = append(zvProps, &vh.Property{ID: "C35", Rule: "more than 4 nodes",
		Assumptions: []string{"a regular graph of the size and degree exists", "networkx is installed"},
		Subs: []*vh.Sub{
			vh.NewSub("testbed-generator", 150, func(t *rapid.T) zvMakeTopoCase {
				c := zvMakeTopoCase{N: rapid.IntRange(2, 60).Draw(t, "n"), Seed: uint32(vh.Seed(t)), Runs: 1}
				max := c.N - 1
				if max > 10 {
					max = 10
				}
				c.D = rapid.IntRange(1, max).Draw(t, "d")
				if c.N*c.D%2 == 1 {
					c.N++
				}
				return c
			}, zvMakeTopo).T(1500),
			vh.NewSub("testbed-variety", 1, func(t *rapid.T) zvMakeTopoCase {
				return zvMakeTopoCase{N: 12, D: 4, Seed: uint32(vh.Seed(t)), Runs: 150}
			}, zvMakeTopo).T(4),
		}})
}
