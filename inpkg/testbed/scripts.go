//go:build go1.23

package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"
	"verif/vh"
)

// The scripts that summarise the logs of nodes, on logs made from known
// histories in the words of the node.

type zvSumNode struct {
	Peers   []int // servers, in order of connection
	Seconds int   // reports after the warm-up, the one that ends it included
	Before  int   // reports before
	// the last report of the log may be incomplete
	Cut int
}

type zvSumCase struct {
	Seed  uint64
	Nodes []zvSumNode
	Slow  bool // few transactions
	Busy  bool // ten thousands per second
	Tool  int  // 0 process, 1 edges, 2 trace
	Both  bool // some servers are connected by two connections
}

func zvGenSum(t *rapid.T) zvSumCase {
	c := zvSumCase{Seed: vh.Seed(t), Slow: rapid.Bool().Draw(t, "slow"), Tool: vh.Uniform(t, "tool", 3)}
	c.Both = c.Tool != 1 && rapid.Bool().Draw(t, "both")
	n := vh.OneOf(t, "nodes", 1, 2, 3, 5, 19)
	r := vh.NewRng(c.Seed)
	secs := 4 + vh.Uniform(t, "seconds", 12)
	c.Busy = vh.Uniform(t, "busy", 5) == 0
	if vh.Uniform(t, "long", 16) == 0 { // more than an hour
		secs += vh.OneOf(t, "hours", 1100, 3800)
		n = 1 + n%2
	}
	for i := 0; i < n; i++ {
		nd := zvSumNode{Seconds: secs + r.Intn(3), Before: r.Intn(4), Cut: r.Intn(6)}
		for _, j := range r.Perm(n + 1) { // one more server than nodes
			if j != i && len(nd.Peers) < 1+r.Intn(4) {
				nd.Peers = append(nd.Peers, j)
				if c.Both && r.Intn(2) == 0 { // one at a port of its own, one at the common port
					nd.Peers = append(nd.Peers, j)
				}
			}
		}
		c.Nodes = append(c.Nodes, nd)
	}
	return c
}

type zvSumTruth struct {
	cws                [][]int // by peer, after the warm-up
	allCws             [][]int // also before
	tx, gen            []int
	totals             []int // learnt from peers, since the start
	p5, p50, p95, mean float64
	rate               map[int]float64
}

func zvSumLog(c zvSumCase, k int, ip func(int) string) (string, zvSumTruth) {
	nd := c.Nodes[k]
	r := vh.NewRng(c.Seed*131 + uint64(k))
	tr := zvSumTruth{rate: map[int]float64{}, cws: make([][]int, len(nd.Peers)), allCws: make([][]int, len(nd.Peers))}
	var b strings.Builder
	now := time.Date(2022, 9, 3, 23, 59, 50, 0, time.UTC)
	say := func(f string, a ...any) { fmt.Fprintf(&b, now.Format("2006/01/02 15:04:05 ")+f+"\n", a...) }
	for _, o := range []string{"c value 0.03", "delta value 0.5", "l value 0.0.0.0:12345", "tx value 600", "warmup value 30s", "p value "} {
		say("config name %s", o)
	}
	say("controller started")
	say("start listening at 0.0.0.0:12345")
	say("running")
	ids := make([]string, len(nd.Peers))
	for i, p := range nd.Peers {
		port := []int{12345, 40000 + r.Intn(20000)}[r.Intn(2)]
		if i > 0 && nd.Peers[i-1] == p {
			port = 12345
		} else if i+1 < len(nd.Peers) && nd.Peers[i+1] == p {
			port = 40000 + r.Intn(20000)
		}
		ids[i] = fmt.Sprintf("%s:%d", ip(p), port)
	}
	greet := func(i int) {
		key := func() string { return fmt.Sprintf("%016x", r.Uint64()) }
		if r.Intn(3) == 0 {
			say("error connecting: dial tcp %s: connect: connection refused", ids[i])
		}
		say("key exchanged with peer %s, our key %s, peer key %s", ids[i], key(), key())
		say("sender started")
		say("new peer")
	}
	for i := range ids {
		greet(i)
	}
	per := 600
	if c.Slow {
		per = 3
	} else if c.Busy {
		per = 3000000
	}
	total, since, gen := 0, 0, 0
	cws := make([]int, len(ids))
	// dec rounds to the printed digits
	dec := func(v float64, digits int) float64 {
		f, _ := strconv.ParseFloat(strconv.FormatFloat(v, 'f', digits, 64), 64)
		return f
	}
	all := nd.Before + nd.Seconds
	started := false
	for s := 0; s < all; s++ {
		now = now.Add(time.Second)
		warm := s >= nd.Before
		last := s == all-1
		var lines []func()
		total += r.Intn(per)
		tot := total
		lines = append(lines, func() {
			say("total tx %d", tot)
			tr.totals = append(tr.totals, tot)
			if s == nd.Before {
				say("data logging warmup completed")
				started = true
			}
			if warm {
				since += 1 + r.Intn(per)
				a, m, z, mean := r.Float()*50, 50+r.Float()*100, 150+r.Float()*1000, 40+r.Float()*200
				tr.p5, tr.p50, tr.p95, tr.mean = dec(a, 2), dec(m, 2), dec(z, 2), dec(mean, 2)
				say("since warm up tx=%d, p5_latency_ms=%.2f, p95_latency_ms=%.2f, p50_latency_ms=%.2f, mean_latency_ms=%.2f", since, a, z, m, mean)
				tr.tx = append(tr.tx, since)
			}
		})
		for i := range ids {
			i := i
			cws[i] += r.Intn(2 * per)
			n := cws[i]
			lines = append(lines, func() {
				say("peer %s received cws %d last second delay ms median %.1f p95 %.1f mean %.1f", ids[i], n, r.Float()*90, r.Float()*190, r.Float()*100)
				tr.allCws[i] = append(tr.allCws[i], n)
				if started {
					tr.cws[i] = append(tr.cws[i], n)
				}
			}, func() {
				v := r.Float() * 900
				if c.Busy {
					v *= 50000
				}
				say("peer %s codeword rate %.2f dropped %d", ids[i], v, r.Intn(3)*r.Intn(100))
				if started {
					tr.rate[nd.Peers[i]] = dec(v, 2)
				}
			})
		}
		gen += 1 + r.Intn(per)
		g := gen
		lines = append(lines, func() {
			say("generated tx %d", g)
			if started {
				tr.gen = append(tr.gen, g)
			}
		}, func() { say("Heap=%v MB, Sys=%v MB, GCCycles=%v", r.Intn(100), r.Intn(1000), r.Intn(50)) })
		order := r.Perm(len(lines))
		cut := len(lines)
		if last && s > nd.Before+1 {
			cut -= r.Intn(nd.Cut + 1)
		}
		for j, o := range order {
			if j < cut {
				lines[o]()
			}
		}
	}
	return b.String(), tr
}

func zvQuant(v []float64, q float64) float64 {
	s := append([]float64{}, v...)
	sort.Float64s(s)
	k := q * float64(len(s)-1)
	f := math.Floor(k)
	if int(f) == len(s)-1 {
		return s[len(s)-1]
	}
	return s[int(f)] + (k-f)*(s[int(f)+1]-s[int(f)])
}

func zvAverage(v []float64) (m float64) {
	for _, x := range v {
		m += x / float64(len(v))
	}
	return
}

func zvSum(x *vh.Ctx, c zvSumCase) error {
	dir, err := os.MkdirTemp("", "logs")
	if err != nil {
		return vh.Harnessf("%v", err)
	}
	defer os.RemoveAll(dir)
	cwd := filepath.Join(os.Getenv("VERIF_REPO"), "testbed")
	n := len(c.Nodes)
	ip := func(i int) string { return fmt.Sprintf("10.%d.0.%d", (i*7)%5, 200-i) }
	if c.Seed%3 == 0 { // addresses that begin alike
		last := vh.NewRng(c.Seed).Perm(253)
		ip = func(i int) string { return fmt.Sprintf("10.0.0.%d", 1+last[i]) }
		if n < 9 {
			few := vh.NewRng(c.Seed).Perm(10)
			ip = func(i int) string {
				return "10.0.0." + []string{"1", "10", "100", "101", "11", "12", "2", "20", "200", "21"}[few[i]]
			}
		}
	}
	truth := make([]zvSumTruth, n)
	var servers []Server
	for i := 0; i <= n; i++ {
		servers = append(servers, Server{ID: strconv.Itoa(i), PublicIP: ip(i), PrivateIP: ip((i + 1) % (n + 1)), Location: "L"})
	}
	for i := range c.Nodes {
		text, tr := zvSumLog(c, i, ip)
		truth[i] = tr
		if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("out-%d", i)), []byte(text), 0o644); err != nil {
			return vh.Harnessf("%v", err)
		}
	}
	b, _ := json.Marshal(servers)
	os.WriteFile(filepath.Join(dir, "servers.json"), b, 0o644)
	os.WriteFile(filepath.Join(dir, "other.json"), b, 0o644)
	run := func(script string, args ...string) ([][]float64, []string, error) {
		res, err := vh.RunPy("argparse,numpy,json,glob,re,datetime", filepath.Join(cwd, script), dir, 1, args...)
		if err != nil {
			return nil, nil, err
		}
		if res.Exit == nil || *res.Exit != 0 {
			return nil, nil, vh.Fail("crash", "%s %q: %s", script, args, res.Err)
		}
		var v [][]float64
		var heads []string
		for _, l := range strings.Split(strings.TrimSuffix(res.Out, "\n"), "\n") {
			head := ""
			if k := strings.LastIndex(l, ":"); k >= 0 {
				head, l = l[:k], l[k+1:]
			}
			var row []float64
			for _, w := range strings.Fields(l) {
				f, err := strconv.ParseFloat(w, 64)
				if err != nil {
					return nil, nil, vh.Fail("wrong-output", "%s %q prints %q", script, args, l)
				}
				row = append(row, f)
			}
			if l == "" && head == "" {
				continue
			}
			v, heads = append(v, row), append(heads, head)
		}
		return v, heads, nil
	}
	same := func(what string, got, want []float64) error {
		ok := len(got) == len(want)
		for i := 0; ok && i < len(want); i++ {
			ok = math.Abs(got[i]-want[i]) <= 1e-9*(1+math.Abs(want[i]))
		}
		if !ok {
			return vh.Fail("wrong-summary", "%s: printed %v instead of %v", what, got, want)
		}
		return nil
	}
	switch c.Tool {
	case 0:
		rows, heads, err := run("process.py", "out", "-n", strconv.Itoa(n))
		if err != nil {
			return err
		}
		if len(rows) < n {
			return vh.Fail("wrong-summary", "%d lines for %d nodes", len(rows), n)
		}
		totgen, secs := 0, 0
		var learnt, over, delay, share []float64
		for i, tr := range truth {
			m := min(len(tr.tx), len(tr.gen))
			for _, l := range tr.cws {
				m = min(m, len(l))
			}
			cw := 0
			for _, l := range tr.cws {
				cw += l[m-1] - l[0]
			}
			got := tr.tx[m-1] - tr.tx[0]
			own := tr.gen[m-1] - tr.gen[0]
			tx := float64(got + own)
			if err := same(fmt.Sprintf("node %d (%d reports)", i, m), rows[i], []float64{float64(cw) / tx, tx / float64(m), tr.p5, tr.p50, tr.p95, tr.mean}); err != nil {
				return err
			}
			totgen += own
			secs += m
			learnt = append(learnt, tx)
			over = append(over, float64(cw)/tx)
			delay = append(delay, tr.mean*float64(got)/tx/1000)
		}
		for _, v := range learnt {
			share = append(share, v/float64(totgen))
		}
		q := func(v []float64) []float64 { return []float64{zvQuant(v, 0.05), zvAverage(v), zvQuant(v, 0.95)} }
		perSec := float64(totgen) / (float64(secs) / float64(n))
		want := map[string][]float64{"per-node generation rate": {perSec / float64(n)}, "deliverability p5 mean p95": q(share), "overhead p5 mean p95": q(over), "average delay p5 mean p95": q(delay)}
		for i := n; i < len(rows); i++ {
			w, ok := want[heads[i]]
			if !ok && heads[i] == "" {
				w, ok = append(append(append([]float64{perSec}, q(share)...), q(over)...), q(delay)...), true
			}
			if !ok {
				continue
			}
			delete(want, heads[i])
			if err := same(fmt.Sprintf("summary %q of %d nodes", heads[i], n), rows[i], w); err != nil {
				return err
			}
		}
		if len(want) > 0 {
			return vh.Fail("wrong-summary", "no summary of %v", vh.SortedKeys(want))
		}
		x.Tag("process")
	case 1:
		args := []string{"out", "-n", strconv.Itoa(n)}
		if c.Seed%2 == 0 {
			os.Remove(filepath.Join(dir, "servers.json"))
			args = append(args, "-s", "other.json")
		}
		rows, _, err := run("edges.py", args...)
		if err != nil {
			return err
		}
		var want [][]float64
		for i, tr := range truth {
			for j := 0; j <= n; j++ {
				if v, ok := tr.rate[j]; ok {
					want = append(want, []float64{float64(i), float64(j), v})
				}
			}
		}
		if len(rows) != len(want) {
			return vh.Fail("wrong-edges", "%d lines for %d links", len(rows), len(want))
		}
		for i := range want {
			if err := same(fmt.Sprintf("line %d", i), rows[i], want[i]); err != nil {
				return err
			}
		}
		x.Tag("edges")
	case 2:
		for i, tr := range truth[:min(n, 3)] {
			var cw, tx [][]float64
			m := math.MaxInt
			for _, l := range tr.allCws {
				m = min(m, len(l))
			}
			for t := 1; t < m; t++ {
				d := 0
				for _, l := range tr.allCws {
					d += l[t] - l[t-1]
				}
				cw = append(cw, []float64{float64(t), float64(d)})
			}
			for t := 1; t < len(tr.totals); t++ {
				tx = append(tx, []float64{float64(t), float64(tr.totals[t] - tr.totals[t-1])})
			}
			for _, what := range []string{"--cw-trace", "--tx-trace"} {
				rows, _, err := run("trace.py", "out", strconv.Itoa(i), what)
				if err != nil {
					return err
				}
				want := cw
				if what == "--tx-trace" {
					want = tx
				}
				if len(rows) != len(want) {
					return vh.Fail("wrong-trace", "node %d: %d lines of %s instead of %d", i, len(rows), what, len(want))
				}
				for k := range want {
					if err := same(fmt.Sprintf("node %d, %s, line %d", i, what, k), rows[k], want[k]); err != nil {
						return err
					}
				}
			}
		}
		x.Tag("trace")
	}
	if n > 1 || c.Tool == 2 {
		x.NonTrivial()
	}
	return nil
}

func init() {
	zvProps = append(zvProps, &vh.Property{ID: "C40", Rule: "logs of more than one node, or a trace",
		Assumptions: []string{"every peer is connected before the warm-up ends and every report after it is complete, save the last one", "nodes generate transactions, and IPv4 addresses are used", "logs are written in the words of the present node (which C39 checks against what happens)"},
		Subs:        []*vh.Sub{vh.NewSub("summaries", 300, zvGenSum, zvSum).T(6000)}})
}
