package libs

import (
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
	"pgregory.net/rapid"
	"verif/vh"
)

// ---------------------------------------------------------------- C18, C19

type desMsg struct {
	From  int // module, or -1 for none (then To is given)
	To    int // module, or -1 for none
	Delay int64
	Load  int // payload kind
}

type desOp struct {
	Op  string // msg, until, run
	Msg desMsg `json:",omitempty"`
	T   int64  `json:",omitempty"` // until: relative to the current time
}

type desCase struct {
	Seed   uint64
	Mods   int
	Depth  int
	Branch int
	Reent  bool // handlers also schedule directly
	Ops    []desOp
}

var desDelays = []int64{0, 0, 0, 1, 1, 2, 3, 5, 10, 100, int64(time.Millisecond), int64(time.Second), 3 * int64(time.Second), 1 << 40}

type load struct {
	id    uint64
	depth int
}

// children of a delivered message: a pure function of the payload and module.
func (c desCase) children(l load, at int) (out []desMsg, loads []load, direct int) {
	if l.depth >= c.Depth {
		return
	}
	r := vh.NewRng(c.Seed ^ l.id ^ uint64(at)<<50)
	n := r.Intn(c.Branch + 1)
	for i := 0; i < n; i++ {
		out = append(out, desMsg{From: at, To: r.Intn(c.Mods+1) - 1, Delay: desDelays[r.Intn(len(desDelays))]})
		loads = append(loads, load{mix(l.id*31 + uint64(i) + 1), l.depth + 1})
	}
	if c.Reent && n > 0 {
		direct = r.Intn(n + 1)
	}
	return
}

type delivery struct {
	to, from int
	id       uint64
	at       int64
}

// desRef is the reference: an unsorted list searched for the smallest.
type desRef struct {
	c   desCase
	now int64
	q   []refMsg
	seq int
	log []delivery
}
type refMsg struct {
	at       int64
	seq      int
	from, to int
	l        load
}

func (r *desRef) schedule(m desMsg, l load) {
	to := m.To
	if to < 0 {
		to = m.From
	}
	r.q = append(r.q, refMsg{r.now + m.Delay, r.seq, m.From, to, l})
	r.seq++
}
func (r *desRef) next() int {
	b := -1
	for i := range r.q {
		if b < 0 || r.q[i].at < r.q[b].at || r.q[i].at == r.q[b].at && r.q[i].seq < r.q[b].seq {
			b = i
		}
	}
	return b
}
func (r *desRef) step() {
	i := r.next()
	m := r.q[i]
	r.q = append(r.q[:i], r.q[i+1:]...)
	r.now = m.at
	r.log = append(r.log, delivery{m.to, m.from, m.l.id, m.at})
	out, loads, _ := r.c.children(m.l, m.to)
	for j := range out {
		r.schedule(out[j], loads[j])
	}
}

type desMod struct {
	n   int
	run *desRun
}
type desRun struct {
	c    desCase
	s    *des.Simulator
	mods []*desMod
	log  []delivery
	err  error
}

func (d *desRun) out(m desMsg, l load) des.OutgoingMessage {
	o := des.OutgoingMessage{Payload: d.wrap(l), Delay: time.Duration(m.Delay)}
	if m.To >= 0 {
		o.To = d.mods[m.To]
	}
	return o
}

// payloads of several types
func (d *desRun) wrap(l load) any {
	switch l.id % 3 {
	case 0:
		return l
	case 1:
		return &l
	default:
		return []load{l}
	}
}
func unwrap(p any) (load, bool) {
	switch v := p.(type) {
	case load:
		return v, true
	case *load:
		return *v, true
	case []load:
		return v[0], true
	}
	return load{}, false
}

func (m *desMod) HandleMessage(p any, from des.Module, at time.Duration) []des.OutgoingMessage {
	d := m.run
	l, ok := unwrap(p)
	if !ok {
		d.err = vh.Fail("wrong-payload", "module %d received payload %v", m.n, p)
		return nil
	}
	f := -1
	if from != nil {
		f = from.(*desMod).n
	}
	d.log = append(d.log, delivery{m.n, f, l.id, int64(at)})
	if d.s.Time() != at && d.err == nil {
		d.err = vh.Fail("wrong-clock", "delivery %d: timestamp %d but the clock says %d", len(d.log), at, d.s.Time())
	}
	out, loads, direct := d.c.children(l, m.n)
	var msgs []des.OutgoingMessage
	for i := range out {
		if i < direct {
			d.s.ScheduleMessage(d.out(out[i], loads[i]), m)
		} else {
			msgs = append(msgs, d.out(out[i], loads[i]))
		}
	}
	return msgs
}

func runDes(prop string) func(x *vh.Ctx, c desCase) error {
	return func(x *vh.Ctx, c desCase) error {
		ref := &desRef{c: c}
		d := &desRun{c: c, s: &des.Simulator{}}
		for i := 0; i < c.Mods; i++ {
			d.mods = append(d.mods, &desMod{i, d})
		}
		checked := 0
		check := func(opn int, op desOp) error {
			if d.err != nil {
				return d.err
			}
			if len(d.log) != len(ref.log) {
				return vh.Fail("wrong-count", "op %d (%s): %d messages delivered in all, expected %d", opn, op.Op, len(d.log), len(ref.log))
			}
			for i := checked; i < len(d.log); i++ {
				if d.log[i] != ref.log[i] {
					return vh.Fail("wrong-delivery", "op %d (%s): delivery %d is %+v, expected %+v", opn, op.Op, i, d.log[i], ref.log[i])
				}
			}
			checked = len(d.log)
			if prop != "C19" {
				return nil
			}
			if int64(d.s.Time()) != ref.now {
				return vh.Fail("wrong-clock", "op %d (%s): clock %d, last delivery at %d", opn, op.Op, d.s.Time(), ref.now)
			}
			if d.s.EventsQueued() != len(ref.q) || d.s.EventsDelivered() != len(ref.log) || d.s.Drained() != (len(ref.q) == 0) {
				return vh.Fail("wrong-counters", "op %d (%s): queued %d delivered %d drained %v; expected %d, %d", opn, op.Op, d.s.EventsQueued(), d.s.EventsDelivered(), d.s.Drained(), len(ref.q), len(ref.log))
			}
			return nil
		}
		bounds, ties := 0, false
		for opn, op := range c.Ops {
			switch op.Op {
			case "msg":
				m := op.Msg
				m.From, m.To = min(m.From, c.Mods-1), min(m.To, c.Mods-1)
				if m.From < 0 && m.To < 0 {
					m.To = 0
				}
				l := load{mix(uint64(opn) + c.Seed<<20), 0}
				var from des.Module
				if m.From >= 0 {
					from = d.mods[m.From]
				}
				d.s.ScheduleMessage(d.out(m, l), from)
				ref.schedule(m, l)
			case "until":
				t := ref.now + op.T
				d.s.RunUntil(time.Duration(t))
				for len(ref.q) > 0 && ref.q[ref.next()].at <= t {
					ref.step()
				}
				if len(d.log) == len(ref.log)+1 && len(ref.q) > 0 {
					// the first message past the bound may be delivered too
					ref.step()
				}
				if len(ref.q) > 0 {
					bounds++
				}
			case "run":
				d.s.Run()
				for len(ref.q) > 0 {
					ref.step()
				}
			}
			if err := check(opn, op); err != nil {
				return err
			}
		}
		if prop == "C18" {
			d.s.Run()
			for len(ref.q) > 0 {
				ref.step()
			}
			if err := check(len(c.Ops), desOp{Op: "final run"}); err != nil {
				return err
			}
		}
		at := map[int64]int{}
		for _, l := range ref.log {
			at[l.at]++
			if at[l.at] > 2 {
				ties = true
			}
		}
		x.TagIf(ties, "ties")
		x.TagIf(bounds > 0, "stopped-midway")
		x.Add("deliveries", len(ref.log))
		if prop == "C18" && ties && len(ref.log) > 5 || prop == "C19" && bounds > 0 && len(ref.log) > 3 {
			x.NonTrivial()
		}
		return nil
	}
}

func genDes(t *rapid.T) desCase {
	c := desCase{Seed: vh.Seed(t), Mods: 1 + vh.Uniform(t, "mods", 5), Depth: vh.Uniform(t, "depth", 6), Branch: 1 + vh.Uniform(t, "branch", 3), Reent: vh.Uniform(t, "reent", 4) == 0}
	n := 1 + vh.Uniform(t, "n", 30)
	for i := 0; i < n; i++ {
		switch p := vh.Uniform(t, "op", 8); {
		case p == 0:
			c.Ops = append(c.Ops, desOp{Op: "run"})
		case p <= 2:
			o := desOp{Op: "until", T: vh.OneOf(t, "bound", desDelays...)}
			if vh.Uniform(t, "odd", 4) == 0 {
				o.T = rapid.Int64Range(-5, 20).Draw(t, "t")
			}
			c.Ops = append(c.Ops, o)
		default:
			c.Ops = append(c.Ops, desOp{Op: "msg", Msg: desMsg{From: vh.Uniform(t, "from", c.Mods+1) - 1, To: vh.Uniform(t, "to", c.Mods+1) - 1, Delay: vh.OneOf(t, "delay", desDelays...)}})
		}
	}
	return c
}

// Large queues: heap ordering over thousands of messages.
type desBulk struct {
	Seed   uint64
	N      int
	Spread int64 // delays in [0,Spread)
	Chunks int
}

func runDesBulk(prop string) func(x *vh.Ctx, c desBulk) error {
	return func(x *vh.Ctx, c desBulk) error {
		dc := desCase{Seed: c.Seed, Mods: 3, Depth: 2, Branch: 1}
		r := vh.NewRng(c.Seed)
		per := c.N/c.Chunks + 1
		for i := 0; i < c.N; i++ {
			dc.Ops = append(dc.Ops, desOp{Op: "msg", Msg: desMsg{From: r.Intn(3), To: r.Intn(4) - 1, Delay: int64(r.Uint64() % uint64(c.Spread))}})
			if i%per == per-1 {
				dc.Ops = append(dc.Ops, desOp{Op: "until", T: int64(r.Uint64() % uint64(c.Spread+1))})
			}
		}
		dc.Ops = append(dc.Ops, desOp{Op: "run"})
		return runDes(prop)(x, dc)
	}
}

func init() {
	genB := func(t *rapid.T) desBulk {
		return desBulk{Seed: vh.Seed(t), N: 20 + vh.Uniform(t, "n", 200)*2, Spread: vh.OneOf[int64](t, "spread", 1, 3, 20, 1000, 1<<40), Chunks: 1 + vh.Uniform(t, "chunks", 5)}
	}
	props = append(props,
		&vh.Property{ID: "C18", Rule: "at least six deliveries, three or more of them at the same instant",
			Assumptions: []string{"delays are never negative (the simulator refuses them)"},
			Subs: []*vh.Sub{
				vh.NewSub("order", 8000, genDes, runDes("C18")).T(80000),
				vh.NewSub("bulk", 150, genB, runDesBulk("C18")).T(1500),
			}},
		&vh.Property{ID: "C19", Rule: "a run to a bound stopped with messages still queued, and more than three were delivered",
			Assumptions: []string{"running to a bound may deliver the first message past the bound (it does today when the clock is still before the bound)"},
			Subs: []*vh.Sub{
				vh.NewSub("control", 8000, genDes, runDes("C19")).T(80000),
				vh.NewSub("bulk", 150, genB, runDesBulk("C19")).T(1500),
			}},
	)
}
