package vh

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Some code starts goroutines that never end, or ends the process. Cases for
// it run in a process of their own.

type childResult struct {
	NonTrivial bool
	Tags       map[string]bool
	Nums       map[string]int
	Kind, Msg  string // violation
	Harness    string
}

// childCode marks the packages whose crashes are the code's under test.
const childCode = "github.com/yangl1996/rateless-set-reconcile/"

// NewChildSub is NewSub with every case run in a process of its own. run
// reports through done, after which the process ends.
func NewChildSub[C any](name string, quick int, gen func(t *rapid.T) C, run func(t *testing.T, x *Ctx, cs C, done func(error))) *Sub {
	s := NewSub(name, quick, gen, func(c *Ctx, cs C) error { return nil })
	s.run = func(c *Ctx, cs any) error { return inChild(s, c, cs) }
	s.child = func(t *testing.T, x *Ctx, cs any, done func(error)) { run(t, x, cs.(C), done) }
	return s
}

func inChild(s *Sub, c *Ctx, cs any) error {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_OUT"), "case")
	if err != nil {
		return Harnessf("%v", err)
	}
	defer os.RemoveAll(dir)
	b, err := json.Marshal(cs)
	if err != nil {
		return Harnessf("%v", err)
	}
	in, out := filepath.Join(dir, "in"), filepath.Join(dir, "out")
	if err := os.WriteFile(in, b, 0o644); err != nil {
		return Harnessf("%v", err)
	}
	cmd := exec.Command(os.Args[0], "-test.run", "^TestVerif$", "-test.timeout", "0")
	cmd.Env = append(os.Environ(), "VERIF_CHILD="+in, "VERIF_CHILD_SUB="+s.Name, "VERIF_CHILD_OUT="+out)
	cmd.Dir = dir
	var text bytes.Buffer
	cmd.Stdout, cmd.Stderr = &text, &text
	if err := cmd.Start(); err != nil {
		return Harnessf("%v", err)
	}
	ended := make(chan error, 1)
	go func() { ended <- cmd.Wait() }()
	hung := true
	tick := time.NewTicker(250 * time.Millisecond)
	defer tick.Stop()
loop:
	for n := 0; n < 480; n++ { // counted, not clocked
		select {
		case err = <-ended:
			hung = false
			break loop
		case <-tick.C:
		}
	}
	if hung {
		cmd.Process.Kill()
		<-ended
		return Fail("hang", "the case did not finish within two minutes")
	}
	b, rerr := os.ReadFile(out)
	if rerr != nil {
		t := text.String()
		i := strings.Index(t, "panic: ")
		if j := strings.Index(t, "fatal error: "); i < 0 || j >= 0 && j < i {
			i = j
		}
		if i < 0 {
			return Harnessf("case process ended with %v: %.2000s", err, t)
		}
		t = t[i:]
		if !strings.Contains(t, childCode) || strings.Contains(t, "out of memory") {
			return Harnessf("case process: %.3000s", t)
		}
		return Fail("crash", "%.1500s", t)
	}
	var r childResult
	if err := json.Unmarshal(b, &r); err != nil {
		return Harnessf("%v", err)
	}
	c.nontrivial = r.NonTrivial
	for k := range r.Tags {
		c.tags[k] = true
	}
	for k, n := range r.Nums {
		c.nums[k] += n
	}
	if r.Harness != "" {
		return Harnessf("%s", r.Harness)
	}
	if r.Kind != "" {
		return Fail(r.Kind, "%s", r.Msg)
	}
	return nil
}

// runChild is the case process.
func runChild(t *testing.T, props []*Property) {
	for _, p := range props {
		if p.ID != os.Getenv("VERIF_PROP") {
			continue
		}
		for _, s := range p.Subs {
			if s.Name != os.Getenv("VERIF_CHILD_SUB") || s.child == nil {
				continue
			}
			b, err := os.ReadFile(os.Getenv("VERIF_CHILD"))
			if err != nil {
				fmt.Println(err)
				os.Exit(1)
			}
			cs, err := s.decode(b)
			if err != nil {
				fmt.Println(err)
				os.Exit(1)
			}
			x := &Ctx{tags: map[string]bool{}, nums: map[string]int{}}
			s.child(t, x, cs, func(err error) {
				r := childResult{NonTrivial: x.nontrivial, Tags: x.tags, Nums: x.nums}
				switch e := err.(type) {
				case nil:
				case *Violation:
					r.Kind, r.Msg = e.Kind, e.Msg
				default:
					r.Harness = e.Error()
				}
				b, _ := json.Marshal(r)
				tmp := os.Getenv("VERIF_CHILD_OUT") + ".tmp"
				os.WriteFile(tmp, b, 0o644)
				os.Rename(tmp, os.Getenv("VERIF_CHILD_OUT"))
				os.Exit(0)
			})
			fmt.Println("case ended without a verdict")
			os.Exit(1)
		}
	}
	fmt.Println("no such case")
	os.Exit(1)
}
