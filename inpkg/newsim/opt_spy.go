//go:build go1.23

package main

import (
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
	"github.com/yangl1996/rateless-set-reconcile/riblt"
)

// An observer around each link's reconciliation algorithm. This file is
// optional: the driver leaves it out when it does not compile.

type zvSpyAlg struct{ in algorithm }

func (a zvSpyAlg) collectOutgoingMessages(p des.Module, d time.Duration, o []des.OutgoingMessage) []des.OutgoingMessage {
	return a.in.collectOutgoingMessages(p, d, o)
}
func (a zvSpyAlg) forwardTransaction(tx riblt.HashedSymbol[transaction]) { a.in.forwardTransaction(tx) }
func (a zvSpyAlg) handleMessage(msg any) []riblt.HashedSymbol[transaction] {
	r := a.in.handleMessage(msg)
	if zvReturned != nil {
		for _, t := range r {
			*zvReturned = append(*zvReturned, t.Symbol.idx)
		}
	}
	return r
}

func init() {
	zvAsked = func(m any) (uint64, bool) {
		r, ok := m.(request)
		return r.hash, ok
	}
	zvSpy = func(n *zvNet) {
		zvReturned = &[]uint64{}
		for _, s := range n.servers {
			for m, p := range s.handlers {
				p.algorithm = zvSpyAlg{p.algorithm}
				s.handlers[m] = p
			}
		}
	}
}
