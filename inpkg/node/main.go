//go:build go1.25

package main

import (
	"bytes"
	"encoding/binary"
	"encoding/gob"
	"errors"
	"fmt"
	"io"
	"log"
	"math"
	"math/rand"
	"reflect"
	"sync"
	"testing"
	"testing/synctest"
	"time"
	"unsafe"

	"github.com/DataDog/sketches-go/ddsketch"
	"github.com/yangl1996/rateless-set-reconcile/ldpc"
	"pgregory.net/rapid"
	"verif/libs/simx"
	"verif/vh"
)

var zvProps []*vh.Property

func TestVerif(t *testing.T) { vh.Main(t, zvProps) }

// zvBubble runs a case in virtual time.
func zvBubble(t *testing.T, seed int64, done func(error), f func() error) {
	log.SetOutput(io.Discard)
	rand.Seed(seed)
	synctest.Test(t, func(t *testing.T) { done(f()) })
}

// ---------------------------------------------------------------- plumbing

// zvPipe is one direction of a connection. It hands out the stream in
// fragments and, now and then, late.
type zvPipe struct {
	mu       sync.Mutex
	cond     *sync.Cond
	buf      []byte
	capacity int // 0: unlimited
	frag     int // largest fragment (0: whatever is there)
	first    int // size of the first fragment
	late     int // one read in this many is late (0: none)
	delay    time.Duration
	rng      *vh.Rng
	closed   bool
	tap      []byte // what the reader got
	keepTap  bool
}

func zvNewPipe(f zvFrag, seed uint64) *zvPipe {
	p := &zvPipe{frag: f.Max, first: f.First, late: f.Late, delay: time.Duration(f.DelayUS) * time.Microsecond, rng: vh.NewRng(seed)}
	p.cond = sync.NewCond(&p.mu)
	return p
}

func (p *zvPipe) Write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	n := 0
	for {
		k := len(b) - n
		if p.capacity > 0 {
			k = min(k, p.capacity-len(p.buf))
		}
		p.buf = append(p.buf, b[n:n+k]...)
		n += k
		p.cond.Broadcast()
		if n == len(b) {
			return n, nil
		}
		p.cond.Wait()
	}
}

func (p *zvPipe) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	for len(p.buf) == 0 {
		if p.closed {
			return 0, io.EOF
		}
		p.cond.Wait()
	}
	if p.late > 0 && p.rng.Intn(p.late) == 0 {
		p.mu.Unlock()
		time.Sleep(p.delay)
		p.mu.Lock()
	}
	n := min(len(b), len(p.buf))
	if p.first > 0 {
		n, p.first = min(n, p.first), 0
	} else if p.frag > 0 {
		n = min(n, 1+p.rng.Intn(p.frag))
	}
	copy(b, p.buf[:n])
	if p.keepTap {
		p.tap = append(p.tap, p.buf[:n]...)
	}
	p.buf = p.buf[n:]
	if len(p.buf) == 0 {
		p.buf = nil
	}
	p.cond.Broadcast()
	return n, nil
}

func (p *zvPipe) Close() {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.closed = true
	p.cond.Broadcast()
}

type zvConn struct{ r, w *zvPipe }

func (c zvConn) Read(b []byte) (int, error)  { return c.r.Read(b) }
func (c zvConn) Write(b []byte) (int, error) { return c.w.Write(b) }

// zvFrag says how a stream is cut up.
type zvFrag struct{ Max, First, Late, DelayUS int }

func zvGenFrag(t *rapid.T) zvFrag {
	f := zvFrag{Max: vh.OneOf(t, "fragment", 0, 1, 2, 7, 16, 40, 200, 1000)}
	if vh.Uniform(t, "firstSplit", 2) == 0 {
		f.First = 1 + vh.Uniform(t, "first", 20)
	}
	if f.Max != 1 && f.Max != 2 {
		f.Late = vh.OneOf(t, "late", 0, 0, 3, 20)
	} else {
		f.Late = vh.OneOf(t, "late", 0, 0, 2000)
	}
	f.DelayUS = vh.OneOf(t, "delayUS", 100, 3000, 25000)
	return f
}

// carrying shortens the delays of a stream that would carry less than so many
// bytes a second: a link slower than what is sent over it only queues.
func (f zvFrag) carrying(bps float64) zvFrag {
	if f.Max > 0 && f.Late > 0 {
		f.DelayUS = min(f.DelayUS, int(float64(f.Max+1)/2*float64(f.Late)*1e6/bps))
	}
	return f
}

func zvTx(id uint64) *ldpc.Transaction { return zvAgedTx(id, 0) }

// zvAgedTx makes a transaction generated some time ago.
func zvAgedTx(id uint64, age time.Duration) *ldpc.Transaction {
	var d ldpc.TransactionData
	vh.NewRng(id + 77).Bytes(d[:])
	// the first eight bytes are the time of generation
	binary.LittleEndian.PutUint64(d[:8], uint64(time.Now().Add(-age).UnixMicro()))
	t := &ldpc.Transaction{}
	if err := t.UnmarshalBinary(d[:]); err != nil {
		panic(err)
	}
	return t
}

type zvParams struct {
	K          uint64
	C, Delta   float64
	Rate, Min  float64
	Inc, Loss  float64
	TimeoutMS  float64
	WarmupMS   int
	ChanBuffer int
}

func zvController(p zvParams) *controller {
	sk, err := ddsketch.NewDefaultDDSketchWithExactSummaryStatistics(0.001)
	if err != nil {
		panic(err)
	}
	return &controller{
		newPeer:            make(chan *peer),
		decodedTransaction: make(chan ldpc.DecodedTransaction, 1000),
		localTransaction:   make(chan *ldpc.Transaction, 1000),
		K:                  p.K, M: 262144, solitonC: p.C, solitonDelta: p.Delta,
		initRate: p.Rate, minRate: p.Min, incConstant: p.Inc, targetLoss: p.Loss,
		decodeTimeout: time.Duration(p.TimeoutMS * float64(time.Millisecond)),
		delaySketch:   sk, warmupTime: time.Duration(p.WarmupMS) * time.Millisecond,
	}
}

// zvMsg makes a message, whatever integers it is made of.
func zvMsg(cw *ldpc.Codeword, loss int, at int64) (c Codeword) {
	c.Codeword = cw
	zvPut(&c.Loss, int64(loss))
	zvPut(&c.UnixMicro, at)
	return
}

type zvInteger interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64
}

func zvPut[T zvInteger](p *T, v int64) { *p = T(v) }

func zvTake[T any](c <-chan T, patience time.Duration) (v T, ok bool) {
	select {
	case v = <-c:
		return v, true
	case <-time.After(patience):
		return v, false
	}
}

func zvName(t *ldpc.Transaction) string { return string(t.Serialized()) }

// ---------------------------------------------------------------- C27

type zvWireCase struct {
	Seed           int64
	AB, BA         zvFrag
	OnlyA, OnlyB   int
	Both           int
	Rate           float64
	DuringHandover bool
}

func zvGenWire(t *rapid.T) zvWireCase {
	return zvWireCase{Seed: int64(vh.Seed(t)), AB: zvGenFrag(t).carrying(5000), BA: zvGenFrag(t).carrying(5000),
		OnlyA: vh.Size(t, "onlyA", 30), OnlyB: vh.Size(t, "onlyB", 30), Both: vh.Uniform(t, "both", 8),
		Rate: vh.OneOf(t, "rate", 60, 100, 333.0)}
}

// zvWire connects two nodes over a fragmenting connection.
func zvWire(x *vh.Ctx, c zvWireCase) error {
	r := vh.NewRng(uint64(c.Seed))
	pr := zvParams{K: 80, C: 0.03, Delta: 0.5, Rate: c.Rate, Min: c.Rate, Inc: 0.1, Loss: 0.02, TimeoutMS: 3.6e6}
	ctl := [2]*controller{zvController(pr), zvController(pr)}
	ab, ba := zvNewPipe(c.AB, r.Uint64()), zvNewPipe(c.BA, r.Uint64())
	ab.keepTap, ba.keepTap = true, true
	errs := make(chan error, 2)
	go func() { errs <- ctl[0].handleConn("b", zvConn{ba, ab}) }()
	go func() { errs <- ctl[1].handleConn("a", zvConn{ab, ba}) }()
	var ps [2]*peer
	for i := range ps {
		p, ok := zvTake(ctl[i].newPeer, time.Minute)
		if !ok {
			return vh.Fail("handshake", "node %d registers no peer within a minute", i)
		}
		ps[i] = p
	}
	for i := 0; i < 2; i++ {
		if e := <-errs; e != nil {
			return vh.Fail("handshake", "%v", e)
		}
	}
	have := [2]map[string]bool{{}, {}}
	own := [2][]*ldpc.Transaction{}
	id := r.Uint64()
	give := func(n int, to ...int) {
		for k := 0; k < n; k++ {
			id++
			tx := zvTx(id)
			for _, i := range to {
				zvTell(ps[i], tx, false)
				have[i][zvName(tx)] = true
				own[i] = append(own[i], tx)
			}
			if r.Intn(4) == 0 {
				time.Sleep(time.Duration(r.Intn(30000)) * time.Microsecond)
			}
		}
	}
	give(c.Both, 0, 1)
	give(c.OnlyA, 0)
	give(c.OnlyB, 1)
	initial := [2]map[string]bool{{}, {}}
	for i := range have {
		for k := range have[i] {
			initial[i][k] = true
		}
	}
	got := [2][]string{}
	collect := func() error {
		synctest.Wait()
		for i := range ctl {
			for {
				var d ldpc.DecodedTransaction
				select {
				case d = <-ctl[i].decodedTransaction:
				default:
				}
				if d.Transaction == nil {
					break
				}
				n := zvName(d.Transaction)
				if !initial[1-i][n] {
					return vh.Fail("corrupted", "node %d decodes a transaction its peer does not have", i)
				}
				if have[i][n] {
					return vh.Fail("decoded-twice", "node %d decodes a transaction it knows", i)
				}
				have[i][n] = true
				got[i] = append(got[i], n)
			}
		}
		return nil
	}
	total := c.OnlyA + c.OnlyB + c.Both
	end := time.Now().Add(10 * time.Minute)
	for len(have[0]) < total || len(have[1]) < total {
		if time.Now().After(end) {
			return vh.Fail("not-decoded", "after ten minutes the nodes know %d and %d of %d transactions", len(have[0]), len(have[1]), total)
		}
		time.Sleep(100 * time.Millisecond)
		if err := collect(); err != nil {
			return err
		}
	}
	if err := collect(); err != nil {
		return err
	}
	// What each receiver was given must explain what it decoded: nothing of
	// the stream may be lost or processed twice.
	cws := 0
	for i, p := range []*zvPipe{ba, ab} {
		p.mu.Lock()
		tap := bytes.Clone(p.tap)
		p.mu.Unlock()
		if len(tap) < ldpc.SaltSize {
			return vh.Fail("handshake", "%d bytes exchanged", len(tap))
		}
		var key [ldpc.SaltSize]byte
		copy(key[:], tap)
		dec := ldpc.NewDecoder(key, 262144)
		gd := gob.NewDecoder(bytes.NewReader(tap[ldpc.SaltSize:]))
		known := map[string]bool{}
		for _, t := range own[i] {
			dec.AddTransaction(t)
		}
		for {
			var cw Codeword
			if err := gd.Decode(&cw); err != nil {
				if err != io.EOF && !errors.Is(err, io.ErrUnexpectedEOF) {
					return vh.Fail("bad-stream", "node %d receives a stream that does not parse: %v", i, err)
				}
				break
			}
			if cw.Codeword == nil {
				return vh.Fail("bad-stream", "node %d receives an empty codeword", i)
			}
			cws++
			_, l := dec.AddCodeword(cw.Codeword)
			for _, d := range l {
				known[zvName(d.Transaction)] = true
			}
		}
		if len(known) != len(got[i]) {
			return vh.Fail("stream-not-used", "the codewords node %d received determine %d transactions, it decoded %d", i, len(known), len(got[i]))
		}
		for _, n := range got[i] {
			if !known[n] {
				return vh.Fail("stream-not-used", "node %d decoded a transaction the codewords it received do not determine", i)
			}
		}
	}
	x.Add("codewords", cws)
	x.TagIf(c.AB.First > 0 && c.AB.First < ldpc.SaltSize || c.BA.First > 0 && c.BA.First < ldpc.SaltSize || c.AB.Max > 0 && c.AB.Max < ldpc.SaltSize, "key-split")
	x.TagIf(c.OnlyA > 0 && c.OnlyB > 0, "both-directions")
	if c.OnlyA+c.OnlyB > 0 && (c.AB.Max > 0 || c.BA.Max > 0 || c.AB.First+c.BA.First > 0) {
		x.NonTrivial()
	}
	return nil
}

// ---------------------------------------------------------------- C28

type zvFanOp struct {
	Kind int // 0 connect, 1 local, 2 decoded, 3 expired
	N    int
	Buf  int
	US   int // pause of a connecting peer before each receipt, or least age of the decoded transactions (negative: their time is yet to come)
}

type zvFanCase struct {
	Seed     uint64
	WarmupMS int
	Ops      []zvFanOp
}

func zvGenFan(t *rapid.T) zvFanCase {
	c := zvFanCase{Seed: vh.Seed(t), WarmupMS: vh.OneOf(t, "warmup", 0, 500, 1500, 5000, 60000)}
	n := 1 + vh.Uniform(t, "ops", 25)
	for i := 0; i < n; i++ {
		o := zvFanOp{Kind: vh.OneOf(t, "kind", 0, 1, 1, 2, 2, 3), N: vh.OneOf(t, "count", 1, 1, 2, 10, 40)}
		if o.Kind == 0 {
			o.N = vh.OneOf(t, "peers", 1, 1, 1, 1, 1, 3, 12, 40, 140)
			o.Buf = vh.OneOf(t, "buffer", 0, 1, 100)
			o.US = vh.OneOf(t, "pause", 0, 0, 1000)
		} else if o.Kind >= 2 {
			o.US = vh.OneOf(t, "age", 0, 250, 3000, 1234567, 90000000, -200000, -3000000)
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

type zvFanPeer struct {
	mu           sync.Mutex
	gotS, gotR   []string
	wantS, wantR []string
	fromS, fromR chan *ldpc.Transaction
	pause        time.Duration
}

func (p *zvFanPeer) drain(c chan *ldpc.Transaction, into *[]string) {
	for t := range c {
		time.Sleep(p.pause)
		p.mu.Lock()
		*into = append(*into, zvName(t))
		p.mu.Unlock()
	}
}

func zvFan(x *vh.Ctx, c zvFanCase) error {
	ctl := zvController(zvParams{WarmupMS: c.WarmupMS})
	start := time.Now()
	go ctl.loop()
	var peers []*zvFanPeer
	id := c.Seed * 1000
	decoded, expired, atWarm := 0, 0, 0
	latency := 0.0 // ms, of the transactions decoded after the warm-up
	// the end of the warm-up is noticed once a second
	warmEnd := (time.Duration(c.WarmupMS)*time.Millisecond/time.Second + 1) * time.Second
	if c.WarmupMS == 0 {
		warmEnd = time.Second
	}
	time.Sleep(137 * time.Microsecond)
	check := func() error {
		synctest.Wait()
		for i, p := range peers {
			p.mu.Lock()
			e1, e2 := zvCompare(p.gotS, p.wantS), zvCompare(p.gotR, p.wantR)
			p.mu.Unlock()
			if e1 != "" {
				return vh.Fail("wrong-sender-feed", "peer %d of %d: sender side %s", i, len(peers), e1)
			}
			if e2 != "" {
				return vh.Fail("wrong-receiver-feed", "peer %d of %d: receiver side %s", i, len(peers), e2)
			}
		}
		return nil
	}
	for _, o := range c.Ops {
		for k := 0; k < o.N && o.Kind == 0; k++ {
			p := &zvFanPeer{fromS: make(chan *ldpc.Transaction, o.Buf), fromR: make(chan *ldpc.Transaction, o.Buf), pause: time.Duration(o.US) * time.Microsecond}
			go p.drain(p.fromS, &p.gotS)
			go p.drain(p.fromR, &p.gotR)
			ctl.newPeer <- &peer{p.fromS, p.fromR}
			peers = append(peers, p)
		}
		for k := 0; k < o.N && o.Kind != 0; k++ {
			id++
			age := time.Duration(0)
			if o.Kind >= 2 {
				age = time.Duration(o.US)*time.Microsecond + time.Duration(k)*777*time.Microsecond
			}
			tx := zvAgedTx(id, age)
			if o.Kind >= 2 && time.Since(start) > warmEnd {
				latency += float64(age) / float64(time.Millisecond)
			}
			name := zvName(tx)
			switch o.Kind {
			case 1:
				ctl.localTransaction <- tx
			case 2, 3:
				ctl.decodedTransaction <- ldpc.DecodedTransaction{Transaction: tx, Expired: o.Kind == 3}
				decoded++
				if o.Kind == 3 {
					expired++
				}
			}
			for _, p := range peers {
				if o.Kind != 3 {
					p.wantS = append(p.wantS, name)
				}
				p.wantR = append(p.wantR, name)
			}
		}
		// Operations are 300 ms apart and handled within 50, so none straddles
		// the end of the warm-up, which falls on a full second.
		if o.Kind >= 2 && time.Since(start) > warmEnd {
			atWarm += o.N
		}
		time.Sleep(300*time.Millisecond + 11*time.Microsecond)
		if err := check(); err != nil {
			return err
		}
	}
	if got := int(ctl.delaySketch.GetCount()); got != atWarm {
		return vh.Fail("wrong-statistics", "latency statistics cover %d transactions; %d of %d were decoded after the warm-up of %d ms", got, atWarm, decoded, c.WarmupMS)
	}
	// Every transaction is handled within 50 ms of being handed over.
	if got := ctl.delaySketch.GetSum(); atWarm > 0 && (got < latency-0.01 || got > latency+50*float64(atWarm)) {
		return vh.Fail("wrong-statistics", "latencies of %d transactions amount to %v ms instead of %v", atWarm, got, latency)
	}
	x.TagIf(expired > 0, "expired")
	x.TagIf(atWarm > 0, "after-warm-up")
	x.TagIf(len(peers) > 1, "several-peers")
	if len(peers) > 1 && len(peers[0].wantR) > 2 {
		x.NonTrivial()
	}
	return nil
}

func zvCompare(got, want []string) string {
	for i := range want {
		if i >= len(got) {
			return fmt.Sprintf("got %d of %d transactions", len(got), len(want))
		}
		if got[i] != want[i] {
			for j := range want {
				if want[j] == got[i] {
					return fmt.Sprintf("transaction %d is the one expected as number %d", i, j)
				}
			}
			return fmt.Sprintf("transaction %d is none of the expected", i)
		}
	}
	if len(got) > len(want) {
		return fmt.Sprintf("got %d transactions instead of %d", len(got), len(want))
	}
	return ""
}

// ---------------------------------------------------------------- C29

type zvLossOp struct {
	Kind int // 0 codeword, 1 transaction to the receiver, 2 nothing
	Deg  int // transactions in the codeword
	Loss int // loss the codeword reports
	Wait int // ticks of 10 ms to wait afterwards
	Base int // first transaction
	More int // further codewords like it
	Skew int // its timestamp is off by this many milliseconds
}

type zvLossCase struct {
	Seed       int64
	P          zvParams
	Universe   int
	Ops        []zvLossOp
	StallFrom  int // the connection takes nothing more from this operation
	StallUntil int
	PhaseUS    int  // when within a millisecond the node's clocks tick
	Flush      bool // a last codeword after everything has timed out
}

func zvGenLoss(t *rapid.T) zvLossCase {
	c := zvLossCase{Seed: int64(vh.Seed(t)), Flush: vh.Uniform(t, "flush", 3) > 0, Universe: 1 + vh.Uniform(t, "universe", 40)}
	c.P = zvParams{K: 50, C: 0.03, Delta: 0.5,
		Rate: vh.OneOf(t, "rate", 1, 20, 150.0, 1000), Inc: vh.OneOf(t, "inc", 0.1, 0.5, 2, 10.0),
		Loss: vh.OneOf(t, "target", 0.02, 0.1, 0.5), TimeoutMS: vh.OneOf(t, "timeout", 5.5, 55.5, 500.5, 3000.5)}
	c.P.Min = c.P.Rate * vh.OneOf(t, "min", 1, 0.5, 0.9, 0.01)
	n := 1 + vh.Uniform(t, "ops", 120)
	gap := vh.OneOf(t, "gap", 1, 3, 20)
	lossy := vh.OneOf(t, "lossiness", 0, 1, 3)
	// the peer's clock
	skew := vh.OneOf(t, "skew", 0, 0, 2, -7, 400, -60000, 3600000, -86400000)
	ticks := 0
	for i := 0; i < n; i++ {
		o := zvLossOp{Kind: vh.OneOf(t, "kind", 0, 0, 0, 1, 2), Deg: vh.OneOf(t, "degree", 0, 1, 1, 2, 2, 3, 5), Wait: vh.Uniform(t, "wait", gap), Base: vh.Uniform(t, "base", c.Universe)}
		if vh.Uniform(t, "reports", 4) < lossy {
			o.Loss = vh.OneOf(t, "loss", 1, 1, 3, 20)
		}
		if o.Kind == 0 && o.Deg > 1 && vh.Uniform(t, "many", 30) == 0 {
			o.More = vh.OneOf(t, "more", 1, 30, 300, 700, 2500, 12000)
		}
		o.Skew = skew
		if vh.Uniform(t, "jitter", 4) == 0 {
			o.Skew += vh.OneOf(t, "off", -1000, -1, 1, 100, 3000)
		}
		c.Ops = append(c.Ops, o)
		ticks += max(o.Wait, 1)
	}
	if at := vh.Uniform(t, "jump", 5*n); at < n && c.Ops[at].Kind == 0 {
		// a loss so large that the node sends tens of thousands a second
		ticks += int(300/c.P.Min) + int(c.P.TimeoutMS/10) + 25
		c.Ops[at].Loss = int(math.Min(vh.OneOf(t, "most", 80000, 80000, 80000, 500000.0), vh.OneOf(t, "budget", 3000, 30000.0)*100/float64(ticks)) / c.P.Inc)
	}
	flood := vh.Uniform(t, "flood", 50) == 0
	if flood { // more codewords lost than a small counter holds
		c.Universe, c.Flush = max(c.Universe, 7), true
		c.P.TimeoutMS = vh.OneOf(t, "timeout2", 5.5, 55.5)
		c.Ops = append(c.Ops, zvLossOp{Deg: 2, Base: 0, More: 70000})
		for i := range c.Ops[:n] {
			if c.Ops[i].Base = c.Ops[i].Base % c.Universe; c.Ops[i].Kind == 1 && c.Ops[i].Base < 2 {
				c.Ops[i].Kind = 2
			}
		}
		c.P.Rate = math.Min(c.P.Rate, 20)
		c.P.Min = math.Min(c.P.Min, c.P.Rate)
	}
	if !flood && vh.Uniform(t, "stall", 4) == 0 {
		c.StallFrom = vh.Uniform(t, "from", n)
		c.StallUntil = c.StallFrom + vh.Uniform(t, "for", 40)
		c.P.Rate = 20000
		c.P.Min = 20000 * vh.OneOf(t, "min2", 1, 0.9, 0.3, 0.05)
		c.P.Inc = vh.OneOf(t, "inc2", c.P.Inc, 0.1)
	} else {
		c.StallFrom = -1
	}
	c.PhaseUS = vh.Uniform(t, "phase", 1000)
	return c
}

type zvArrival struct {
	cw Codeword
	at time.Time
}

// zvLossCheck plays a node's only peer, over a connection without delay.
func zvLossCheck(x *vh.Ctx, c zvLossCase) error {
	r := vh.NewRng(uint64(c.Seed))
	ctl := zvController(c.P)
	out, in := zvNewPipe(zvFrag{}, 1), zvNewPipe(zvFrag{}, 2) // from and to the node
	out.capacity = 4096
	go ctl.handleConn("harness", zvConn{in, out})
	var key, nodeKey [ldpc.SaltSize]byte
	binary.LittleEndian.PutUint64(key[:], r.Uint64())
	if _, err := io.ReadFull(zvConn{r: out}, nodeKey[:]); err != nil {
		return vh.Fail("handshake", "%v", err)
	}
	// the node starts its clocks when it has our key
	time.Sleep(time.Duration(c.PhaseUS) * time.Microsecond)
	in.Write(key[:])
	p, ok := zvTake(ctl.newPeer, time.Second)
	if !ok {
		return vh.Fail("handshake", "no peer registered")
	}
	t0 := time.Now()
	var mu sync.Mutex
	var arrived []zvArrival
	gate := make(chan struct{}, 1)
	gate <- struct{}{}
	go func() {
		d := gob.NewDecoder(zvGated{out, gate})
		for {
			var cw Codeword
			if d.Decode(&cw) != nil {
				return
			}
			mu.Lock()
			arrived = append(arrived, zvArrival{cw, time.Now()})
			mu.Unlock()
		}
	}()
	enc := gob.NewEncoder(zvConn{w: in})
	// our side of the coding: short identifiers of a universe of transactions
	txs := make([]*ldpc.Transaction, c.Universe)
	short := make([]uint32, c.Universe)
	seen := map[uint32]bool{}
	for i := range txs {
		txs[i] = zvTx(r.Uint64())
		e := ldpc.NewEncoder(key, zvOne{}, 1)
		e.AddTransaction(txs[i])
		short[i] = e.ProduceCodeword().Members[0]
		if seen[short[i]] {
			return nil // a clash of short identifiers
		}
		seen[short[i]] = true
	}
	m := zvLossModel{known: map[uint32]bool{}, rate: c.P.Rate, p: c.P}
	stalled := c.StallFrom >= 0
	tick := 0
	total, loose := 0.0, 1.0 // codewords the model expects, and how far off it may be
	looked, sum := 0, 0      // arrivals examined, losses they report
	resumed := false         // after a stall, still only once
	checkTick := func() error {
		synctest.Wait()
		mu.Lock()
		defer mu.Unlock()
		n := len(arrived)
		for _, a := range arrived[looked:] {
			sum += int(a.cw.Loss)
			if a.cw.Codeword == nil {
				return vh.Fail("bad-codeword", "empty codeword")
			}
			if d := a.at.UnixMicro() - int64(a.cw.UnixMicro); d < 0 || !stalled && d > 0 {
				return vh.Fail("wrong-timestamp", "a codeword arrives %d us after the time it carries", d)
			}
			if a.cw.Loss < 0 {
				return vh.Fail("wrong-loss", "a codeword reports a loss of %d", a.cw.Loss)
			}
		}
		looked = n
		if sum > m.lost {
			return vh.Fail("loss-overstated", "after %v: losses amounting to %d are reported, %d codewords were lost", time.Since(t0), sum, m.lost)
		}
		if !stalled {
			if math.Abs(float64(n)-total) > loose {
				return vh.Fail("wrong-rate", "after %v: %d codewords sent, expected %.0f (rate now %.3f)", time.Since(t0), n, total, m.rate)
			}
			if n > m.unsure && sum != m.atLast {
				return vh.Fail("loss-not-reported", "after %v: losses amounting to %d are reported, %d codewords were lost before the last codeword was sent", time.Since(t0), sum, m.atLast)
			}
		}
		return nil
	}
	// step moves past the next tick of the node's send clock
	step := func() error {
		tick++
		time.Sleep(time.Until(t0.Add(time.Duration(tick)*10*time.Millisecond + 2*time.Millisecond)))
		mu.Lock()
		n := len(arrived)
		mu.Unlock()
		total += m.tick(n - m.counted)
		synctest.Wait()
		mu.Lock()
		m.counted = len(arrived)
		mu.Unlock()
		return checkTick()
	}
	sent := 0
	send := func(o zvLossOp) error {
		cw := &ldpc.Codeword{}
		var mem []uint32
		for k := 0; k < min(o.Deg, c.Universe); k++ {
			j := (o.Base + k*k) % c.Universe
			dup := false
			for _, h := range mem {
				dup = dup || h == short[j]
			}
			if dup {
				continue
			}
			mem = append(mem, short[j])
			var d ldpc.TransactionData
			copy(d[:], txs[j].Serialized())
			cw.Symbol.XOR(&d)
		}
		cw.Members = mem
		m.expire(time.Since(t0))
		if err := enc.Encode(zvMsg(cw, o.Loss, time.Now().UnixMicro()+int64(o.Skew)*1000)); err != nil {
			return vh.Harnessf("%v", err)
		}
		m.rate += c.P.Inc * float64(o.Loss)
		m.heard += o.Loss
		m.codeword(mem, time.Since(t0))
		sent++
		return nil
	}
	stallOn := false
	for i, o := range c.Ops {
		if i == c.StallFrom {
			<-gate
			stallOn = true
		}
		if stallOn && i >= c.StallUntil {
			gate <- struct{}{}
			stallOn = false
		}
		switch o.Kind {
		case 0:
			for k := 0; k <= o.More; k++ {
				if err := send(o); err != nil {
					return err
				}
				o.Loss = 0
			}
		case 1:
			zvTell(p, txs[o.Base], true)
			m.learn(short[o.Base])
		}
		synctest.Wait()
		for {
			select {
			case d := <-ctl.decodedTransaction:
				if why := m.passedOn(d, txs, short); why != "" {
					return vh.Fail("wrong-decoded", "operation %d: %s", i, why)
				}
				continue
			default:
			}
			break
		}
		if len(m.due) > 0 {
			return vh.Fail("wrong-decoded", "operation %d: %d decoded transactions are not passed on", i, len(m.due))
		}
		// later in the same ten milliseconds
		time.Sleep(time.Duration(100+r.Intn(150)) * time.Microsecond)
		if time.Since(t0) > time.Duration(tick)*10*time.Millisecond+8*time.Millisecond || o.Wait > 0 {
			for k := 0; k < max(1, o.Wait); k++ {
				if err := step(); err != nil {
					return err
				}
			}
		}
	}
	if stallOn {
		gate <- struct{}{}
	}
	// From here on everything flows. What was skipped did not lower the rate.
	if stalled {
		synctest.Wait()
		if err := checkTick(); err != nil {
			return err
		}
		n := len(arrived)
		raised := c.P.Inc * float64(m.heard)
		lowest := c.P.Rate - c.P.Inc*c.P.Loss*float64(n)
		if lowest > c.P.Min || m.heard == 0 {
			m.rate, m.credit = math.Max(lowest+raised, c.P.Min), 0
			m.counted, m.unsure, total, loose = n, n, float64(n), 1
			stalled, resumed = false, true
		}
	}
	// one more codeword when everything has timed out
	for k := 0; k <= int(c.P.TimeoutMS/10)+1 && c.Flush; k++ {
		if err := step(); err != nil {
			return err
		}
	}
	if c.Flush {
		if err := send(zvLossOp{}); err != nil {
			return err
		}
	}
	// once codewords flow again, every loss is reported
	settle := int(300 / c.P.Min)
	for k := 0; k < settle+20; k++ {
		if err := step(); err != nil {
			return err
		}
	}
	if sum != m.lost {
		return vh.Fail("loss-not-reported", "%d codewords were lost, losses amounting to %d are reported", m.lost, sum)
	}
	x.Add("codewords-received-by-node", sent)
	x.Add("codewords-sent-by-node", len(arrived))
	x.Add("lost", m.lost)
	x.TagIf(m.lost > 0, "losses")
	x.Add("decoded-expired", m.nExpired)
	x.TagIf(c.StallFrom >= 0, "blocked-sends")
	x.TagIf(resumed, "rate-after-blocked-sends")
	x.TagIf(m.nExpired > 0, "decoded-after-timeout")
	x.TagIf(m.floored, "minimum-rate-reached")
	if m.lost > 0 && len(arrived) > 0 {
		x.NonTrivial()
	}
	return nil
}

type zvOne struct{}

func (zvOne) Uint64() uint64 { return 1 }

// zvGated reads only while the gate is open.
type zvGated struct {
	p    *zvPipe
	gate chan struct{}
}

func (g zvGated) Read(b []byte) (int, error) {
	n, err := g.p.Read(b[:min(len(b), 512)])
	<-g.gate
	g.gate <- struct{}{}
	return n, err
}

type zvSeen struct {
	left map[uint32]bool
	at   time.Duration
	gone bool // timed out
}

// zvLossModel: what is known by peeling, which codewords have timed out, and
// the sending rate.
type zvLossModel struct {
	known    map[uint32]bool
	window   []*zvSeen // not timed out
	all      []*zvSeen
	lost     int // timed-out codewords found undecoded
	atLast   int // losses that happened before the last codeword was sent
	heard    int // losses reported to the node
	p        zvParams
	rate     float64
	credit   float64
	counted  int
	unsure   int // up to this many arrivals, some losses may not be reported yet
	floored  bool
	nExpired int
	due      map[uint32][2]bool // decoded, to be passed on as unexpired, expired
}

// learn takes what becomes known directly and peels.
func (m *zvLossModel) learn(direct ...uint32) {
	something := len(direct) > 0
	for _, s := range m.all {
		something = something || len(s.left) == 1
	}
	if !something {
		return
	}
	if m.due == nil {
		m.due = map[uint32][2]bool{}
	}
	before := make([]map[uint32]bool, len(m.all))
	for i, s := range m.all {
		before[i] = map[uint32]bool{}
		for k := range s.left {
			before[i][k] = true
		}
	}
	var fresh []uint32 // from codewords
	q := direct
	for _, s := range m.all {
		if len(s.left) == 1 {
			for k := range s.left {
				q = append(q, k)
			}
		}
	}
	for n := 0; n < len(q); n++ {
		h := q[n]
		if m.known[h] {
			continue
		}
		m.known[h] = true
		if n >= len(direct) {
			fresh = append(fresh, h)
		}
		for _, s := range m.all {
			if s.left[h] {
				delete(s.left, h)
				if len(s.left) == 1 {
					for k := range s.left {
						q = append(q, k)
					}
				}
			}
		}
	}
	for _, h := range fresh {
		// the codewords that may have given it away
		var may [2]bool
		for i, s := range m.all {
			if before[i][h] && len(s.left) == 0 {
				if s.gone {
					may[1] = true
				} else {
					may[0] = true
				}
			}
		}
		m.due[h] = may
	}
}

func (m *zvLossModel) passedOn(d ldpc.DecodedTransaction, txs []*ldpc.Transaction, short []uint32) string {
	for i, tx := range txs {
		if zvName(tx) != zvName(d.Transaction) {
			continue
		}
		may, there := m.due[short[i]]
		if !there {
			return "a transaction is passed on that was not decoded now"
		}
		delete(m.due, short[i])
		if d.Expired {
			m.nExpired++
		}
		if d.Expired && !may[1] {
			return "a transaction is passed on as expired; it was decoded from a codeword that had not timed out"
		}
		if !d.Expired && !may[0] {
			return "a transaction is passed on as unexpired; it was decoded from a codeword that had timed out"
		}
		return ""
	}
	return "an unknown transaction is passed on"
}

func (m *zvLossModel) expire(now time.Duration) {
	for len(m.window) > 0 && float64(now-m.window[0].at)/float64(time.Millisecond) >= m.p.TimeoutMS {
		if len(m.window[0].left) > 0 {
			m.lost++
		}
		m.window[0].gone = true
		m.window = m.window[1:]
	}
}

func (m *zvLossModel) codeword(mem []uint32, now time.Duration) {
	s := &zvSeen{left: map[uint32]bool{}, at: now}
	for _, h := range mem {
		if !m.known[h] {
			s.left[h] = true
		}
	}
	m.all = append(m.all, s)
	m.window = append(m.window, s)
	m.learn()
}

// tick advances the rate control by ten milliseconds.
func (m *zvLossModel) tick(int) float64 {
	n := 0.0
	m.credit += 0.01 * m.rate
	for m.credit >= 1 {
		m.credit--
		n++
		m.atLast = m.lost
		m.rate -= m.p.Inc * m.p.Loss
		if m.rate <= m.p.Min {
			m.rate = m.p.Min
			m.floored = true
		}
	}
	return n
}

// ---------------------------------------------------------------- C30

type zvIntro struct {
	MS, Node, N int
}

type zvNetCase struct {
	Seed     int64
	Topo     simx.Topo
	Frags    []zvFrag
	K        int
	C, Delta float64
	Rate     float64
	MinPart  float64
	Timeout  float64 // ms; a short one only where there is a single link
	Intros   []zvIntro
	HorizonS int  // by when, in seconds (0: half an hour)
	Roll     bool // more transactions than the coding windows hold: not all need arrive
}

func zvGenNet(max int, roll bool) func(t *rapid.T) zvNetCase {
	return func(t *rapid.T) zvNetCase {
		c := zvNetCase{Seed: int64(vh.Seed(t)), Topo: simx.GenTopo(t, 2, max, false),
			C: vh.OneOf(t, "c", 0.03, 0.03, 0.1), Delta: vh.OneOf(t, "delta", 0.5, 0.5, 0.05),
			Rate: vh.OneOf(t, "rate", 50, 200.0), MinPart: vh.OneOf(t, "min", 1, 0.3), Timeout: 3.6e6}
		if c.Topo.N == 2 && vh.Uniform(t, "timeout", 2) == 0 {
			c.Timeout = vh.OneOf(t, "timeoutMS", 30, 500.0)
		}
		for range c.Topo.Edges {
			c.Frags = append(c.Frags, zvGenFrag(t).carrying(400*c.Rate), zvGenFrag(t).carrying(400*c.Rate))
		}
		total := 0
		n := 1 + vh.Uniform(t, "intros", 8)
		if c.Roll = roll; roll {
			n *= 10
		}
		for i := 0; i < n; i++ {
			in := zvIntro{Node: vh.Uniform(t, "node", c.Topo.N), N: vh.OneOf(t, "burst", 1, 1, 2, 5)}
			in.MS = rapid.IntRange(0, vh.OneOf(t, "span", 1, 500, 5000)).Draw(t, "at")
			if roll {
				in.MS = 5000 * i / n
			}
			total += in.N
			c.Intros = append(c.Intros, in)
		}
		c.K = total + vh.OneOf(t, "spare", 0, 1, 10, 40)
		if roll {
			c.K = 5 + vh.Uniform(t, "window", 20)
		}
		if c.K < 5 {
			c.K = 5
		}
		return c
	}
}

func zvNet(x *vh.Ctx, c zvNetCase) error {
	r := vh.NewRng(uint64(c.Seed))
	pr := zvParams{K: uint64(c.K), C: c.C, Delta: c.Delta, Rate: c.Rate, Min: c.Rate * c.MinPart, Inc: 0.1, Loss: 0.02, TimeoutMS: c.Timeout, WarmupMS: 1000}
	n := c.Topo.N
	ctl := make([]*controller, n)
	type obs struct{ s, r chan *ldpc.Transaction }
	watch := make([]obs, n)
	for i := range ctl {
		ctl[i] = zvController(pr)
		go ctl[i].loop()
		watch[i] = obs{make(chan *ldpc.Transaction, 5000), make(chan *ldpc.Transaction, 5000)}
		ctl[i].newPeer <- &peer{watch[i].s, watch[i].r}
	}
	for k, e := range c.Topo.Edges {
		// every message takes some time, at least a fraction of a millisecond
		ab, ba := zvNewPipe(c.Frags[2*k], r.Uint64()), zvNewPipe(c.Frags[2*k+1], r.Uint64())
		errs := make(chan error, 2)
		go func() { errs <- ctl[e.A].handleConn(fmt.Sprint(e.B), zvConn{ba, ab}) }()
		go func() { errs <- ctl[e.B].handleConn(fmt.Sprint(e.A), zvConn{ab, ba}) }()
		for i := 0; i < 2; i++ {
			err, ok := zvTake(errs, time.Minute)
			if !ok || err != nil {
				return vh.Fail("handshake", "connection %d-%d: %v, completed %v", e.A, e.B, err, ok)
			}
		}
		time.Sleep(time.Duration(r.Intn(20000)) * time.Microsecond)
	}
	start := time.Now()
	universe := map[string]int{} // to the node that introduced it
	id := r.Uint64()
	for k, in := range c.Intros {
		tr := vh.NewRng(uint64(c.Seed) + uint64(k))
		var list []*ldpc.Transaction
		for j := 0; j < in.N; j++ {
			id++
			tx := zvTx(id)
			universe[zvName(tx)] = in.Node
			list = append(list, tx)
		}
		time.AfterFunc(time.Duration(in.MS)*time.Millisecond+time.Duration(tr.Intn(9000))*time.Microsecond, func() {
			for _, tx := range list {
				ctl[in.Node].localTransaction <- tx
			}
		})
	}
	peers := c.Topo.Peers()
	seen := make([]map[string]int, n)
	for i := range seen {
		seen[i] = map[string]int{}
	}
	dups := 0
	poll := func() error {
		synctest.Wait()
		for i, w := range watch {
			for len(w.s) > 0 { // the controller waits for its peers
				<-w.s
			}
			for {
				var tx *ldpc.Transaction
				select {
				case tx = <-w.r:
				default:
				}
				if tx == nil {
					break
				}
				nm := zvName(tx)
				by, ok := universe[nm]
				if !ok {
					return vh.Fail("never-introduced", "node %d learns a transaction nobody introduced", i)
				}
				seen[i][nm]++
				limit := len(peers[i])
				if by == i || c.Topo.Tree() {
					limit = 1
				}
				if seen[i][nm] > 1 {
					dups++
				}
				if seen[i][nm] > limit {
					return vh.Fail("learned-twice", "node %d with %d links learns a transaction %d times (introduced by %d)", i, len(peers[i]), seen[i][nm], by)
				}
			}
		}
		return nil
	}
	finished := func() bool {
		if c.Roll {
			return time.Since(start) > 8*time.Second
		}
		for i := range seen {
			if len(seen[i]) < len(universe) {
				return false
			}
		}
		return true
	}
	horizon := 30 * time.Minute
	if c.HorizonS > 0 {
		horizon = time.Duration(c.HorizonS) * time.Second
	}
	for !finished() {
		if time.Since(start) > horizon {
			for i := range seen {
				if len(seen[i]) < len(universe) {
					return vh.Fail("not-converged", "after %v node %d of %d (%s) has learnt %d of %d transactions", horizon, i, n, c.Topo.Kind, len(seen[i]), len(universe))
				}
			}
		}
		time.Sleep(250 * time.Millisecond)
		if err := poll(); err != nil {
			return err
		}
	}
	took := time.Since(start)
	time.Sleep(2 * time.Second)
	if err := poll(); err != nil {
		return err
	}
	x.Add("virtual-ms", int(took/time.Millisecond))
	x.Add("repeats", dups)
	x.TagIf(!c.Topo.Tree(), "cyclic")
	x.TagIf(c.Timeout < 1e6, "timeouts")
	x.TagIf(len(universe) > c.K, "more-than-a-window")
	if len(universe) > 1 {
		x.NonTrivial()
	}
	return nil
}

// ---------------------------------------------------------------- table

func zvChild[C any](name string, quick int, gen func(t *rapid.T) C, seed func(C) int64, f func(x *vh.Ctx, c C) error) *vh.Sub {
	return vh.NewChildSub(name, quick, gen, func(t *testing.T, x *vh.Ctx, c C, done func(error)) {
		zvBubble(t, seed(c), done, func() error { return f(x, c) })
	})
}

func init() {
	zvProps = append(zvProps,
		&vh.Property{ID: "C27", Rule: "transactions to exchange and a stream in fragments",
			Assumptions: []string{"virtual time (testing/synctest); connections deliver everything in order"},
			Subs: []*vh.Sub{
				zvChild("wire", 150, zvGenWire, func(c zvWireCase) int64 { return c.Seed }, zvWire).T(1000),
			}},
		&vh.Property{ID: "C28", Rule: "two peers and three transactions",
			Assumptions: []string{"operations of different kinds are far enough apart for the first to be handled (their order is otherwise free)", "peers take what they are given"},
			Subs: []*vh.Sub{
				zvChild("fan-out", 200, zvGenFan, func(c zvFanCase) int64 { return int64(c.Seed) }, zvFan).T(1500),
			}},
		&vh.Property{ID: "C29", Rule: "a codeword was lost and codewords were sent",
			Assumptions: []string{"virtual time; one codeword more or less than the rate asks for is tolerated", "while sends are blocked only the loss accounting and, afterwards, the resulting rate are checked"},
			Subs: []*vh.Sub{
				zvChild("losses", 250, zvGenLoss, func(c zvLossCase) int64 { return c.Seed }, zvLossCheck).T(1500),
			}},
		&vh.Property{ID: "C30", Rule: "at least two transactions",
			Assumptions: []string{"virtual time", "coding windows hold all transactions; decoding timeouts are longer than the run, except between two nodes (a transaction decoded late is deliberately not passed on)", "eventually means within half an hour of virtual time"},
			Subs: []*vh.Sub{
				zvChild("converge", 150, zvGenNet(5, false), func(c zvNetCase) int64 { return c.Seed }, zvNet).T(1000),
				zvChild("pairs", 80, zvGenNet(2, false), func(c zvNetCase) int64 { return c.Seed }, zvNet).T(600),
				zvChild("rolling", 60, zvGenNet(4, true), func(c zvNetCase) int64 { return c.Seed }, zvNet).T(600),
			}},
	)
}

// zvTell hands a transaction to a peer the way the controller does.
func zvTell(p *peer, tx *ldpc.Transaction, expired bool) {
	if q, ok := any(p).(interface{ notifyExpiredTransaction(*ldpc.Transaction) }); ok && expired {
		q.notifyExpiredTransaction(tx)
		return
	}
	if q, ok := any(p).(interface{ notifyUnexpiredTransaction(*ldpc.Transaction) }); ok && !expired {
		q.notifyUnexpiredTransaction(tx)
		return
	}
	var to []chan<- *ldpc.Transaction // the sender's, the receiver's
	v := reflect.ValueOf(p).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Kind() == reflect.Chan && f.Type().Elem() == reflect.TypeOf(tx) {
			to = append(to, *(*chan<- *ldpc.Transaction)(unsafe.Pointer(f.UnsafeAddr())))
		}
	}
	if len(to) != 2 {
		panic("the channels of a peer are not found")
	}
	if expired {
		to = to[1:]
	}
	for _, c := range to {
		c <- tx
	}
}
