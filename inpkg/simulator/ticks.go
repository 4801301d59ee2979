//go:build go1.23

package main

import (
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
	"pgregory.net/rapid"
	"verif/libs/simx"
	"verif/vh"
)

// Synchronised block generation as the simulator itself drives it.

type zvTickCase struct {
	Base  zvCase
	Delay []int // of the links from node 0, ms
	Gens  []int // offsets of what node 0 generates within a period, per mille
	Spare int   // transactions beyond those that a block needs
}

func zvGenTick(t *rapid.T) zvTickCase {
	c := zvTickCase{Base: zvGenCase(3, 1)(t), Spare: vh.OneOf(t, "spare", 0, 1, 10)}
	c.Base.Gens, c.Base.PaceNS, c.Base.Loss = nil, 0, 0
	c.Base.SyncMS = vh.OneOf(t, "period", 20, 333, 5000)
	if c.Base.SyncMS == 20 && vh.Uniform(t, "fine", 2) == 0 {
		c.Base.SyncMS = 1
	}
	for i := 1 + vh.Uniform(t, "peers", 3); i > 0; i-- {
		c.Delay = append(c.Delay, vh.OneOf(t, "delay", 0, 1, 30, min(500, 20*c.Base.SyncMS)))
	}
	for i := 1 + vh.Uniform(t, "gens", 3); i > 0; i-- {
		c.Gens = append(c.Gens, 1+vh.Uniform(t, "offset", 999))
	}
	return c
}

type zvLook func()

func (f zvLook) HandleMessage(payload any, from des.Module, at time.Duration) []des.OutgoingMessage {
	f()
	return nil
}

func zvTicks(x *vh.Ctx, c zvTickCase) error {
	c.Base.Topo = simx.Topo{N: 1 + len(c.Delay)}
	worst := 1
	for i, d := range c.Delay {
		c.Base.Topo.Edges = append(c.Base.Topo.Edges, simx.Edge{A: 0, B: i + 1, MS: d})
		worst = max(worst, d)
	}
	txgen = newTransactionGenerator()
	sim := &des.Simulator{}
	servers := zvServers(sim, c.Base, zvRare, 1)
	period := time.Duration(c.Base.SyncMS) * time.Millisecond
	n := int(float64(c.Base.Threshold)/c.Base.Overhead) + c.Spare
	// long enough for a block to be finished
	apart := time.Second + time.Duration(worst)*400*time.Millisecond + 10*period
	apart -= apart % period
	var err error
	at := func(t time.Duration, f func()) {
		l := zvLook(f)
		sim.ScheduleMessage(des.OutgoingMessage{Payload: 1, To: &l, Delay: t}, &l)
	}
	started := 0
	for k, off := range c.Gens {
		tick := time.Duration(k)*apart + period
		when := tick - period + max(1, period*time.Duration(off)/1000)
		sim.ScheduleMessage(des.OutgoingMessage{Payload: blockArrival{n: n}, Delay: when}, servers[0])
		for i, d := range c.Delay {
			s := servers[i+1]
			arrive := tick + time.Duration(d)*time.Millisecond
			idle, early := 0, 0
			at(when-1, func() { idle = s.receivedCodewords })
			at(arrive-1, func() { early = s.receivedCodewords - idle })
			at(arrive+1, func() {
				if err != nil {
					return
				}
				if early > 0 {
					err = vh.Fail("premature-block", "%d transactions generated at %v, period %v: node %d got %d codewords before %v", n, when, period, i+1, early, arrive)
				} else if s.receivedCodewords == idle {
					err = vh.Fail("block-not-started", "%d transactions generated at %v, period %v: node %d got no codewords by %v", n, when, period, i+1, arrive)
				}
				started++
			})
		}
	}
	sim.RunUntil(time.Duration(len(c.Gens))*apart + time.Minute)
	if err != nil {
		return err
	}
	if started != len(c.Gens)*len(c.Delay) {
		return vh.Fail("lost-message", "%d of %d messages were delivered", started, len(c.Gens)*len(c.Delay))
	}
	x.NonTrivial()
	return nil
}

func init() {
	for _, p := range zvProps {
		if p.ID == "C22" {
			p.Subs = append(p.Subs, vh.NewSub("ticks", 100, zvGenTick, zvTicks).T(1000))
		}
	}
}
