// Package vh is the engine shared by all property checks: it generates cases
// with rapid, runs each through a pure checking function, shrinks and saves
// the first failure of every sub-check, and writes the evidence file.
package vh

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Ctx collects what one case exercised.
type Ctx struct {
	nontrivial bool
	tags       map[string]bool
	nums       map[string]int
}

// NonTrivial marks the case as non-trivial by the property's stated rule.
func (c *Ctx) NonTrivial() { c.nontrivial = true }

// Tag counts the case in a class.
func (c *Ctx) Tag(s string) { c.tags[s] = true }

// TagIf counts the case in a class when cond holds.
func (c *Ctx) TagIf(cond bool, s string) {
	if cond {
		c.tags[s] = true
	}
}

// Add accumulates a measured quantity over the run.
func (c *Ctx) Add(s string, n int) { c.nums[s] += n }

// Violation is a failed check. Kind is stable across shrinking.
type Violation struct {
	Kind string
	Msg  string
}

func (v *Violation) Error() string { return v.Kind + ": " + v.Msg }

// Fail makes a violation of the given kind.
func Fail(kind, format string, args ...any) error {
	return &Violation{kind, fmt.Sprintf(format, args...)}
}

// HarnessError is a defect of the harness itself; never reported as violation.
type HarnessError struct{ Msg string }

func (h *HarnessError) Error() string { return "harness: " + h.Msg }

// Harnessf makes a harness error.
func Harnessf(format string, args ...any) error {
	return &HarnessError{fmt.Sprintf(format, args...)}
}

// Sub is one generated check of a property.
type Sub struct {
	Name     string
	Quick    int  // cases in the quick tier
	Thorough int  // cases per round in the thorough tier (0: 10x Quick)
	Isolated bool // record the case before running it (the code may kill the process)
	Once     bool // fixed, non-random campaign: not repeated in further thorough rounds
	gen      func(t *rapid.T) any
	run      func(c *Ctx, cs any) error
	decode   func(b []byte) (any, error)
	child    func(t *testing.T, x *Ctx, cs any, done func(error))
}

// NewSub builds a Sub from a generator of JSON-serialisable cases and a pure
// checking function.
func NewSub[C any](name string, quick int, gen func(t *rapid.T) C, run func(c *Ctx, cs C) error) *Sub {
	return &Sub{Name: name, Quick: quick,
		gen: func(t *rapid.T) any { return gen(t) },
		run: func(c *Ctx, cs any) error { return run(c, cs.(C)) },
		decode: func(b []byte) (any, error) {
			var cs C
			err := json.Unmarshal(b, &cs)
			return cs, err
		},
	}
}

// Iso sets Isolated.
func (s *Sub) Iso() *Sub { s.Isolated = true; return s }

// Fixed sets Once.
func (s *Sub) Fixed() *Sub { s.Once = true; return s }

// T sets the thorough count.
func (s *Sub) T(n int) *Sub { s.Thorough = n; return s }

// Property groups the sub-checks that decide one property.
type Property struct {
	ID          string
	Rule        string
	Assumptions []string
	Subs        []*Sub
}

// Replay is the file written for a violation.
type Replay struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Kind     string          `json:"kind"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
}

// Result is what the test binary reports to the driver.
type Result struct {
	Status     string   `json:"status"` // ok, violation, error
	Messages   []string `json:"messages"`
	Replays    []string `json:"replays"`
	Violations int      `json:"violations"`
}

type runner struct {
	mu       sync.Mutex
	prop     *Property
	out      string
	replays  string
	evidence string
	tier     string
	seed     int64
	start    time.Time

	evals      int
	distinct   map[[12]byte]struct{}
	nontrivial int
	classes    map[string]int
	nums       map[string]int
	perSub     map[string]int
	samples    []any
	subSamples map[string]int
	truncated  map[string]int
	res        Result

	// watchdog
	curSub   *Sub
	curCase  any
	curCPU   time.Duration
	curTicks int
	running  bool
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func heapBytes() uint64 {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

const (
	caseCPULimit  = 60 * time.Second
	caseWallLimit = 240 * time.Second
	caseHeapLimit = 6 << 30
)

// watch ends the run when one case, which normally takes milliseconds, burns
// a minute of CPU, hangs for minutes, or allocates without bound.
func (r *runner) watch() {
	for {
		time.Sleep(250 * time.Millisecond)
		r.mu.Lock()
		if !r.running {
			r.mu.Unlock()
			continue
		}
		kind := ""
		r.curTicks++ // counted, not clocked: a paused machine does not trip it
		if cpuTime()-r.curCPU > caseCPULimit {
			kind = "does-not-terminate"
		} else if time.Duration(r.curTicks)*250*time.Millisecond > caseWallLimit {
			kind = "hang"
		} else if heapBytes() > caseHeapLimit {
			kind = "runaway-memory"
		}
		if kind == "" {
			r.mu.Unlock()
			continue
		}
		r.saveLocked(r.curSub, r.curCase, &Violation{kind, "the case did not finish within its resource limits"})
		r.finishLocked()
		os.Exit(0)
	}
}

func (r *runner) saveLocked(s *Sub, cs any, v *Violation) string {
	b, err := json.Marshal(cs)
	if err != nil {
		b = []byte(`null`)
	}
	rp := Replay{r.prop.ID, s.Name, v.Kind, v.Msg, b}
	out, _ := json.MarshalIndent(rp, "", " ")
	os.MkdirAll(r.replays, 0o755)
	path := filepath.Join(r.replays, r.prop.ID+"-"+s.Name+".json")
	os.WriteFile(path, out, 0o644)
	for _, p := range r.res.Replays {
		if p == path {
			return path
		}
	}
	r.res.Status = "violation"
	r.res.Violations++
	r.res.Replays = append(r.res.Replays, path)
	r.res.Messages = append(r.res.Messages, fmt.Sprintf("%s/%s: %s: %s", r.prop.ID, s.Name, v.Kind, firstLines(v.Msg, 30)))
	return path
}

func firstLines(s string, n int) string {
	ls := strings.SplitN(s, "\n", n+1)
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}

// exec runs one case, turning panics of the code under test into violations.
func (r *runner) exec(s *Sub, cs any) (c *Ctx, err error) {
	c = &Ctx{tags: map[string]bool{}, nums: map[string]int{}}
	r.mu.Lock()
	r.curSub, r.curCase, r.curCPU, r.curTicks, r.running = s, cs, cpuTime(), 0, true
	r.mu.Unlock()
	defer func() {
		r.mu.Lock()
		r.running = false
		r.mu.Unlock()
	}()
	if s.Isolated {
		b, _ := json.Marshal(cs)
		rp, _ := json.Marshal(Replay{r.prop.ID, s.Name, "crash", "the process died while running this case", b})
		os.WriteFile(filepath.Join(r.out, "inflight.json"), rp, 0o644)
	}
	func() {
		defer func() {
			if p := recover(); p != nil {
				if he, ok := p.(*HarnessError); ok {
					err = he
					return
				}
				if v, ok := p.(*Violation); ok {
					err = v
					return
				}
				st := string(debug.Stack())
				err = &Violation{"panic", fmt.Sprintf("%v\n%s", p, trimStack(st))}
			}
		}()
		err = s.run(c, cs)
	}()
	return c, err
}

func trimStack(s string) string {
	i := strings.Index(s, "panic(")
	if i > 0 {
		s = s[i:]
	}
	return firstLines(s, 24)
}

func (r *runner) record(s *Sub, cs any, c *Ctx) {
	b, err := json.Marshal(cs)
	if err != nil {
		panic(err)
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals++
	r.perSub[s.Name]++
	for k := range c.tags {
		r.classes[s.Name+":"+k]++
	}
	for k, n := range c.nums {
		r.nums[s.Name+":"+k] += n
	}
	if c.nontrivial {
		h := sha256.Sum256(append([]byte(s.Name+"|"), b...))
		var k [12]byte
		copy(k[:], h[:])
		if _, dup := r.distinct[k]; !dup {
			r.distinct[k] = struct{}{}
			r.nontrivial++
			if r.subSamples[s.Name] < 2 && len(b) < 6000 {
				r.subSamples[s.Name]++
				r.samples = append(r.samples, map[string]any{"check": s.Name, "case": json.RawMessage(b)})
			}
		}
	}
}

func (r *runner) finishLocked() {
	subs := map[string]any{}
	for k, v := range r.perSub {
		subs[k] = v
	}
	cov := map[string]any{
		"evaluations":         r.evals,
		"distinct_nontrivial": r.nontrivial,
		"rule":                r.prop.Rule,
		"samples":             r.samples,
		"cases_per_check":     subs,
		"class_counts":        r.classes,
		"measured":            r.nums,
		"skipped_by_budget":   r.truncated,
	}
	ev := map[string]any{
		"property": r.prop.ID, "tier": r.tier, "seed": r.seed, "level": "exploration",
		"coverage": cov, "assumptions": r.prop.Assumptions,
		"wall_s": time.Since(r.start).Seconds(), "violations": r.res.Violations,
	}
	if r.prop.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	if r.samples == nil {
		cov["samples"] = []any{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		r.res.Status = "error"
		r.res.Messages = append(r.res.Messages, err.Error())
	}
	if r.evidence != "" {
		if err := os.WriteFile(r.evidence, b, 0o644); err != nil {
			r.res.Status = "error"
			r.res.Messages = append(r.res.Messages, err.Error())
		}
	}
	if r.res.Status == "" {
		r.res.Status = "ok"
	}
	rb, _ := json.MarshalIndent(r.res, "", " ")
	os.WriteFile(filepath.Join(r.out, "result.json"), rb, 0o644)
}

func subSeed(seed int64, round int, id, name string) uint64 {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d|%d|%s|%s", seed, round, id, name)))
	v := binary.LittleEndian.Uint64(h[:8]) >> 1
	if v == 0 {
		v = 1
	}
	return v
}

func envInt(name string, def int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(name), 10, 64); err == nil {
		return v
	}
	return def
}

// Main is called from the single Test function of every harness package.
func Main(t *testing.T, props []*Property) {
	id := os.Getenv("VERIF_PROP")
	if id == "" {
		t.Skip("VERIF_PROP not set")
	}
	if os.Getenv("VERIF_CHILD") != "" {
		runChild(t, props)
		return
	}
	var p *Property
	for _, x := range props {
		if x.ID == id {
			p = x
		}
	}
	if p == nil {
		t.Fatalf("no property %s in this package", id)
	}
	r := &runner{prop: p, out: os.Getenv("VERIF_OUT"), replays: os.Getenv("VERIF_REPLAYS"), evidence: os.Getenv("VERIF_EVIDENCE"),
		tier: os.Getenv("VERIF_TIER"), seed: envInt("VERIF_SEED", 1), start: time.Now(),
		distinct: map[[12]byte]struct{}{}, classes: map[string]int{}, nums: map[string]int{}, perSub: map[string]int{},
		subSamples: map[string]int{}, truncated: map[string]int{}}
	if r.tier != "thorough" {
		r.tier = "quick"
	}
	go r.watch()
	if rp := os.Getenv("VERIF_REPLAY"); rp != "" {
		r.replay(rp)
		return
	}
	flag.Set("rapid.nofailfile", "true")
	budget := time.Duration(envInt("VERIF_BUDGET", 150)) * time.Second
	rounds := 1
	if r.tier == "thorough" {
		budget = time.Duration(envInt("VERIF_BUDGET", 600)) * time.Second
		rounds = 1 << 20
		flag.Set("rapid.shrinktime", "60s")
	} else {
		flag.Set("rapid.shrinktime", "15s")
	}
	only := os.Getenv("VERIF_SUB")
	end := r.start.Add(budget)
	for round := 0; round < rounds && (round == 0 || time.Now().Before(end)); round++ {
		for i, s := range p.Subs {
			if only != "" && s.Name != only {
				continue
			}
			if round > 0 && s.Once {
				continue
			}
			left := time.Until(end)
			deadline := time.Now().Add(left / time.Duration(len(p.Subs)-i))
			if r.tier == "thorough" {
				deadline = end
			}
			r.runSub(t, s, round, deadline)
			if r.res.Status == "error" {
				break
			}
		}
		if r.res.Status != "" {
			break
		}
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.finishLocked()
}

func (r *runner) runSub(t *testing.T, s *Sub, round int, deadline time.Time) {
	n := s.Quick
	if r.tier == "thorough" {
		n = s.Thorough
		if n == 0 {
			n = 10 * s.Quick
		}
		if s.Once && s.Thorough == 0 {
			n = s.Quick
		}
	}
	flag.Set("rapid.checks", strconv.Itoa(n))
	flag.Set("rapid.seed", strconv.FormatUint(subSeed(r.seed, round, r.prop.ID, s.Name), 10))
	var lastCase any
	var lastErr *Violation
	var herr error
	var stop time.Time
	t.Run(s.Name, func(t *testing.T) {
		defer func() {
			// rapid fails the test with FailNow; the verdict is in lastErr
		}()
		rapid.Check(t, func(rt *rapid.T) {
			if lastErr == nil && time.Now().After(deadline) {
				r.mu.Lock()
				r.truncated[s.Name]++
				r.mu.Unlock()
				return
			}
			if herr != nil || lastErr != nil && time.Now().After(stop) {
				return // shrinking slow cases takes too long
			}
			cs := s.gen(rt)
			c, err := r.exec(s, cs)
			r.record(s, cs, c)
			if err == nil {
				return
			}
			if v, ok := err.(*Violation); ok {
				if lastErr == nil {
					stop = time.Now().Add(25 * time.Second)
					if r.tier == "thorough" {
						stop = time.Now().Add(90 * time.Second)
					}
				}
				lastCase, lastErr = cs, v
				rt.Fatalf("%s", v.Kind)
			}
			herr = err
		})
	})
	r.mu.Lock()
	defer r.mu.Unlock()
	if herr != nil {
		r.res.Status = "error"
		r.res.Messages = append(r.res.Messages, s.Name+": "+herr.Error())
		return
	}
	if lastErr != nil {
		r.saveLocked(s, lastCase, lastErr)
	} else if t.Failed() && r.res.Status == "" {
		r.res.Status = "error"
		r.res.Messages = append(r.res.Messages, s.Name+": generation failed (see log)")
	}
}

func (r *runner) replay(path string) {
	b, err := os.ReadFile(path)
	var rp Replay
	if err == nil {
		err = json.Unmarshal(b, &rp)
	}
	if err != nil {
		r.res.Status = "error"
		r.res.Messages = append(r.res.Messages, err.Error())
	} else {
		for _, s := range r.prop.Subs {
			if s.Name != rp.Sub {
				continue
			}
			cs, err := s.decode(rp.Case)
			if err != nil {
				r.res.Status = "error"
				r.res.Messages = append(r.res.Messages, err.Error())
				break
			}
			_, err = r.exec(s, cs)
			if v, ok := err.(*Violation); ok {
				r.res.Status = "violation"
				r.res.Violations = 1
				r.res.Replays = []string{path}
				r.res.Messages = []string{v.Error()}
			} else if err != nil {
				r.res.Status = "error"
				r.res.Messages = []string{err.Error()}
			} else {
				r.res.Status = "ok"
			}
		}
	}
	rb, _ := json.MarshalIndent(r.res, "", " ")
	os.WriteFile(filepath.Join(r.out, "result.json"), rb, 0o644)
}

// ---------------------------------------------------------------- utilities

// Rng is a splitmix64 generator: cases carry its seed, so data derived from it
// is reproducible and well spread (rapid's own integers are biased to small).
type Rng struct{ s uint64 }

// NewRng seeds an Rng.
func NewRng(seed uint64) *Rng { return &Rng{seed * 0x9e3779b97f4a7c15} }

// Uint64 returns the next value.
func (r *Rng) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn returns a value in [0,n).
func (r *Rng) Intn(n int) int { return int(r.Uint64() % uint64(n)) }

// Float returns a value in [0,1).
func (r *Rng) Float() float64 { return float64(r.Uint64()>>11) / (1 << 53) }

// Perm returns a permutation of n.
func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Bytes fills b.
func (r *Rng) Bytes(b []byte) {
	for i := 0; i < len(b); i += 8 {
		var w [8]byte
		binary.LittleEndian.PutUint64(w[:], r.Uint64())
		copy(b[i:], w[:])
	}
}

// Seed draws a seed for an Rng.
func Seed(t *rapid.T) uint64 {
	return rapid.Uint64Range(0, 1<<40).Draw(t, "seed")
}

// Size draws a size in [0,max] biased to small values but reaching max.
func Size(t *rapid.T, name string, max int) int {
	switch rapid.IntRange(0, 5).Draw(t, name+"Class") {
	case 0:
		return rapid.IntRange(0, min(2, max)).Draw(t, name)
	case 1, 2:
		return rapid.IntRange(0, min(12, max)).Draw(t, name)
	case 3, 4:
		return rapid.IntRange(0, min(60, max)).Draw(t, name)
	default:
		return rapid.IntRange(0, max).Draw(t, name)
	}
}

// SortedKeys returns the keys of m in order.
func SortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Panics reports whether f panics.
func Panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return false
}

// Uniform draws an unbiased value in [0,n), n <= 256 (rapid's own integers
// prefer small values).
func Uniform(t *rapid.T, name string, n int) int {
	bits := 4
	for 1<<bits < 4*n {
		bits++
	}
	v := 0
	for i := 0; i < bits; i++ {
		v <<= 1
		if rapid.Bool().Draw(t, name) {
			v |= 1
		}
	}
	return v * n >> bits
}

// OneOf draws an unbiased element.
func OneOf[T any](t *rapid.T, name string, xs ...T) T {
	return xs[Uniform(t, name, len(xs))]
}
