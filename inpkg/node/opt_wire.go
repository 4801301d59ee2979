//go:build go1.25

package main

import (
	"encoding/gob"
	"fmt"
	"testing"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/ldpc"
	"pgregory.net/rapid"
	"verif/vh"
)

// Drives the sending and receiving halves of a link with arbitrary codewords.
// This file is optional: the driver leaves it out when it does not compile.

type zvRawCase struct {
	Seed uint64
	Frag zvFrag
	Cws  []zvRawCW
	Buf  int // codewords that may be received ahead of their use
	Slow int // one codeword in this many takes long to use (0: none)
}

type zvRawCW struct {
	Deg   int
	Zero  bool
	Loss  int
	Micro int64
}

func zvGenRaw(t *rapid.T) zvRawCase {
	c := zvRawCase{Seed: vh.Seed(t), Frag: zvGenFrag(t)}
	c.Buf, c.Slow = vh.OneOf(t, "ahead", 1000, 0, 1, 20), vh.OneOf(t, "slow", 0, 0, 1, 10)
	n := vh.Size(t, "codewords", 120)
	for i := 0; i < n; i++ {
		c.Cws = append(c.Cws, zvRawCW{vh.OneOf(t, "degree", 0, 1, 2, 10, 50, 300), vh.Uniform(t, "zero", 6) == 0,
			vh.OneOf(t, "loss", 0, 0, 1, 7, 1<<30), vh.OneOf(t, "micro", int64(0), 1, -5, 1<<60, 1700000000000000)})
	}
	return c
}

func zvRaw(x *vh.Ctx, c zvRawCase) error {
	r := vh.NewRng(c.Seed)
	p := zvNewPipe(c.Frag, r.Uint64())
	var want []Codeword
	for _, w := range c.Cws {
		cw := &ldpc.Codeword{}
		if !w.Zero {
			r.Bytes(cw.Symbol[:])
			for k := 0; k < w.Deg; k++ {
				cw.Members = append(cw.Members, uint32(r.Uint64()>>(8*(r.Uint64()%8))))
			}
		}
		want = append(want, zvMsg(cw, w.Loss, w.Micro))
	}
	s := &sender{tx: gob.NewEncoder(zvConn{w: p})}
	rc := &receiver{rx: gob.NewDecoder(zvConn{r: p})}
	in, out := make(chan Codeword, 1000), make(chan Codeword, c.Buf)
	res := make(chan error, 2)
	go func() {
		err := s.sendCodewords(in)
		p.Close()
		res <- err
	}()
	go func() { rc.receive(out); close(out) }()
	var got []Codeword
	ended := make(chan struct{})
	go func() {
		for cw := range out {
			if got = append(got, cw); c.Slow > 0 && len(got)%c.Slow == 0 {
				time.Sleep(time.Millisecond)
			}
		}
		close(ended)
	}()
	for _, w := range want {
		in <- w
	}
	close(in)
	if err := <-res; err != nil {
		return vh.Fail("send-error", "%v", err)
	}
	<-ended
	if len(got) != len(want) {
		return vh.Fail("wrong-count", "%d codewords sent, %d received", len(want), len(got))
	}
	for i, w := range want {
		g := got[i]
		if g.Codeword == nil {
			return vh.Fail("altered", "codeword %d arrives without content", i)
		}
		// compared with what was to be sent, not with what fits the message
		if int(g.Loss) != c.Cws[i].Loss || int64(g.UnixMicro) != c.Cws[i].Micro || g.UnixMicro != w.UnixMicro || g.Symbol != w.Symbol || fmt.Sprint(g.Members) != fmt.Sprint(w.Members) {
			return vh.Fail("altered", "codeword %d: sent %d members, loss %d, time %d; received %d members, loss %d, time %d; same content %v",
				i, len(w.Members), c.Cws[i].Loss, c.Cws[i].Micro, len(g.Members), g.Loss, g.UnixMicro, g.Symbol == w.Symbol)
		}
	}
	if len(want) > 1 {
		x.NonTrivial()
	}
	return nil
}

func init() {
	for _, p := range zvProps {
		if p.ID == "C27" {
			p.Subs = append(p.Subs, vh.NewChildSub("codewords", 150, zvGenRaw, func(t *testing.T, x *vh.Ctx, c zvRawCase, done func(error)) {
				zvBubble(t, 1, done, func() error { return zvRaw(x, c) })
			}).T(1500))
		}
	}
}
