//go:build go1.25

package main

import (
	"bufio"
	"encoding/binary"
	"encoding/gob"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/ldpc"
	"github.com/yangl1996/soliton"
	"pgregory.net/rapid"
	"verif/vh"
)

// The node command itself, in a process of its own and in real time. The
// harness is all of its peers.

// init makes this process the node command if it is told so.
func init() {
	a := os.Getenv("ZV_NODE")
	if a == "" {
		return
	}
	var args []string
	if err := json.Unmarshal([]byte(a), &args); err != nil {
		panic(err)
	}
	go func() { // ends with the harness
		io.Copy(io.Discard, os.Stdin)
		os.Exit(97)
	}()
	os.Args = append([]string{"node"}, args...)
	flag.CommandLine = flag.NewFlagSet("node", flag.ExitOnError)
	main()
	os.Exit(0)
}

type zvCmdFeed struct {
	MS   int // after the connection
	Peer int
	N    int
	Kind string // fresh, repeat, junk
	Loss int
}

type zvCmdPeer struct {
	MS    int  // dialled by the node: when it begins to listen (-1: never); dialling the node: when
	Split bool // the key comes in two parts
	Quit  int  `json:",omitempty"` // it goes away having sent so many bytes (less one) of its key
	Mute  bool `json:",omitempty"` // instead of going away it stays and says no more
}

// there tells whether the peer gets connected.
func (p zvCmdPeer) there() bool { return p.MS >= 0 && p.Quit == 0 }

type zvCmdNode struct {
	Seed                            uint64
	SkewMS                          int // the clocks of its peers are ahead by so much
	K, M                            int // 0, here and below: leave the option out
	C, Delta                        float64
	Tx                              float64
	R0, RMin                        float64 // -1: leave it out
	Inc, Loss                       float64 // -1: leave it out
	TimeoutMS, WarmupMS             int
	Dial, Accept                    []zvCmdPeer
	Feeds                           []zvCmdFeed
	PaceMS                          int // between the transactions of one feed
	RunMS                           int
	Memory, Complete, Degrees, Junk bool // what to look at
}

type zvCmdCase struct {
	Nodes []zvCmdNode
}

func zvGenCmdNode(t *rapid.T, first bool) zvCmdNode {
	n := zvCmdNode{Seed: vh.Seed(t), RunMS: 2300 + vh.Uniform(t, "run", 700), R0: -1, RMin: -1, Inc: -1, Loss: -1, C: 0, Delta: 0}
	n.SkewMS = vh.OneOf(t, "skew", 0, 0, 3, -500, 7200000, -86400000)
	peers := func(few, many int) {
		for i := few + vh.Uniform(t, "peers", many-few+1); i > 0; i-- {
			p := zvCmdPeer{MS: vh.OneOf(t, "ms", 0, 0, 100, 400), Split: vh.Uniform(t, "split", 4) == 0}
			if vh.Uniform(t, "side", 2) == 0 {
				if vh.Uniform(t, "lateness", 4) == 0 {
					p.MS = vh.OneOf(t, "late", 700, 1300, 2100)
				}
				n.Dial = append(n.Dial, p)
			} else {
				n.Accept = append(n.Accept, p)
			}
		}
		if vh.Uniform(t, "absent", 5) == 0 {
			at := vh.Uniform(t, "absentAt", len(n.Dial)+1)
			n.Dial = append(n.Dial[:at], append([]zvCmdPeer{{MS: -1}}, n.Dial[at:]...)...)
		}
		for i := vh.OneOf(t, "quitters", 0, 0, 1, 2); i > 0; i-- {
			p := zvCmdPeer{MS: vh.OneOf(t, "quitMS", 0, 0, 150), Quit: 1 + vh.OneOf(t, "quitBytes", 0, 0, 1, ldpc.SaltSize-1), Mute: vh.Uniform(t, "mute", 2) == 0}
			to := &n.Accept
			if vh.Uniform(t, "quitSide", 2) == 0 {
				to = &n.Dial
			}
			at := vh.Uniform(t, "quitAt", len(*to)+1)
			*to = append((*to)[:at:at], append([]zvCmdPeer{p}, (*to)[at:]...)...)
		}
	}
	present := func() (l []int) {
		for i, p := range append(append([]zvCmdPeer(nil), n.Dial...), n.Accept...) {
			if p.there() {
				l = append(l, i)
			}
		}
		return
	}
	n.TimeoutMS = vh.OneOf(t, "timeout", 0, 60000, 60000)
	n.WarmupMS = vh.OneOf(t, "warmup", 0, 500, 1500, 20000)
	n.M = vh.OneOf(t, "memory", 0, 100000)
	if first && vh.Uniform(t, "light", 3) == 0 { // little traffic, and either many peers or one that is very late
		l := vh.OneOf(t, "peerMS", 7300, 7300, 0, 0, 0)
		for i := 9 + vh.Uniform(t, "many", 25); i > 0; i-- {
			p := zvCmdPeer{MS: vh.OneOf(t, "ms", 0, 0, 100, 400)}
			if l > 0 {
				i, p.MS = min(i, 2), l
			}
			if l > 0 || vh.Uniform(t, "side", 4) > 0 {
				n.Dial = append(n.Dial, p)
			} else {
				n.Accept = append(n.Accept, p)
			}
			l = 0
		}
		n.Tx, n.K = 60, 10
		n.R0, n.Inc, n.Loss = 200, 0, 0
		n.Complete = true
		return n
	}
	switch vh.Uniform(t, "focus", 6) {
	case 0: // a stream of its own
		peers(1, 4)
		n.Tx = vh.OneOf[float64](t, "tx", 150, 400, 1000)
		n.K = vh.OneOf(t, "k", 20, 50)
		n.R0, n.Inc, n.Loss = n.Tx*vh.OneOf[float64](t, "factor", 3, 4), 0, 0
		if vh.Uniform(t, "byMin", 3) == 0 {
			n.RMin = n.R0
			n.R0 = vh.OneOf[float64](t, "lowR0", -1, 0, 1)
		}
		n.Complete = true
	case 1: // between its peers
		peers(2, 5)
		n.Tx = 0
		n.K = vh.OneOf(t, "k", 0, 50, 60)
		n.R0, n.Inc, n.Loss = vh.OneOf[float64](t, "r0", 400, 1000), vh.OneOf[float64](t, "inc", -1, 0, 0.1), vh.OneOf[float64](t, "loss", -1, 0, 0.02)
		n.RMin = vh.OneOf[float64](t, "min", 300, 400)
		l := present()
		for i := 1 + vh.Uniform(t, "feeds", 4); i > 0; i-- {
			n.Feeds = append(n.Feeds, zvCmdFeed{MS: 200 + vh.Uniform(t, "at", 800), Peer: vh.OneOf(t, "peer", l...), N: 1 + vh.Uniform(t, "n", 10), Kind: "fresh"})
		}
		n.Complete = true
	case 2, 3: // its codeword rates
		peers(1, 3)
		n.Tx = vh.OneOf[float64](t, "tx", 0, 0, 60, 250)
		n.R0 = vh.OneOf[float64](t, "r0", -1, 0, 50, 300, 1500)
		n.RMin = vh.OneOf[float64](t, "min", -1, -1, 40, 200, 500)
		n.Inc = vh.OneOf[float64](t, "inc", -1, 0, 0.1, 1, 10)
		n.Loss = vh.OneOf[float64](t, "loss", -1, 0, 0.02, 0.2)
		n.K = vh.OneOf(t, "k", 0, 20)
		for _, p := range present() {
			if vh.Uniform(t, "lossy", 2) == 0 {
				n.Feeds = append(n.Feeds, zvCmdFeed{MS: 200 + vh.Uniform(t, "at", 1000), Peer: p, N: 1, Kind: "fresh", Loss: vh.OneOf(t, "lost", 1, 7, 60, 400)})
			}
		}
	case 4: // codewords it cannot decode
		peers(1, 3)
		n.Tx = vh.OneOf[float64](t, "tx", 0, 50)
		n.TimeoutMS = vh.OneOf(t, "timeout2", 0, 40, 250, 900)
		n.R0, n.Inc, n.Loss = vh.OneOf[float64](t, "r0", 100, 400), 0, 0
		for _, p := range present() {
			if vh.Uniform(t, "lossy", 3) != 0 {
				n.Feeds = append(n.Feeds, zvCmdFeed{MS: 100 + vh.Uniform(t, "at", 400), Peer: p, N: 1 + vh.Uniform(t, "n", 20), Kind: "junk"})
			}
		}
		n.Junk = true
	default:
		if vh.Uniform(t, "which", 2) == 0 { // its degrees
			peers(1, 2)
			n.Tx, n.R0, n.Inc, n.Loss = 1000, 2000, 0, 0
			n.K = vh.OneOf(t, "k", 10, 30, 80)
			n.C, n.Delta = vh.OneOf[float64](t, "c", 0, 0.03, 0.1, 0.2), vh.OneOf[float64](t, "delta", 0, 0.5, 0.05)
			n.Degrees = true
		} else { // its memory
			peers(1, 2)
			n.Tx, n.R0, n.Inc, n.Loss = 0, 50, 0, 0
			n.M = vh.OneOf(t, "m", 3, 8, 20)
			n.PaceMS = 15
			p := vh.OneOf(t, "peer", present()...)
			for at, i := 100, 0; i < 3; i++ {
				f := zvCmdFeed{MS: at, Peer: p, N: 1 + vh.Uniform(t, "n", 25), Kind: vh.OneOf(t, "kind", "fresh", "repeat")}
				if i == 0 {
					f.Kind = "fresh"
				}
				n.Feeds = append(n.Feeds, f)
				at += f.N*n.PaceMS + 30
			}
			n.Memory = true
		}
	}
	if n.Tx == 0 {
		n.Tx = -1 // the default is not zero
	}
	return n
}

func zvGenCmd(t *rapid.T) zvCmdCase {
	c := zvCmdCase{}
	for i := 1 + vh.Uniform(t, "nodes", 14); i > 0; i-- {
		c.Nodes = append(c.Nodes, zvGenCmdNode(t, len(c.Nodes) == 0))
	}
	return c
}

func zvNum(f float64) string { return strconv.FormatFloat(f, 'g', -1, 64) }

func (n zvCmdNode) opts() (o [][2]string) {
	add := func(is bool, name, value string) {
		if is {
			o = append(o, [2]string{name, value})
		}
	}
	add(n.K > 0, "k", strconv.Itoa(n.K))
	add(n.M > 0, "m", strconv.Itoa(n.M))
	add(n.C > 0, "c", zvNum(n.C))
	add(n.Delta > 0, "delta", zvNum(n.Delta))
	add(true, "tx", zvNum(math.Max(n.Tx, 0)))
	add(n.R0 >= 0, "r0", zvNum(n.R0))
	add(n.RMin >= 0, "rmin", zvNum(n.RMin))
	add(n.Inc >= 0, "inc", zvNum(n.Inc))
	add(n.Loss >= 0, "loss", zvNum(n.Loss))
	add(n.TimeoutMS > 0, "t", (time.Duration(n.TimeoutMS) * time.Millisecond).String())
	add(n.WarmupMS > 0, "warmup", (time.Duration(n.WarmupMS) * time.Millisecond).String())
	return
}

type zvCmdWord struct {
	micro   int64
	loss    int
	members []uint32
}

type zvCmdConn struct {
	i        int
	conn     net.Conn
	from     int64         // before our key was sent
	up       time.Duration // when the keys were exchanged
	nodeKey  [ldpc.SaltSize]byte
	key      [ldpc.SaltSize]byte
	mu       sync.Mutex
	words    []zvCmdWord
	learnt   map[string]int64 // transactions decoded, when
	sent     map[string]int64 // transactions fed, when
	lossSent [][2]int64       // when and how much
	junkAt   int64
	junk     int
	modelN   int // transactions the node should decode from it
	err      error
}

type zvCmdRun struct {
	n       zvCmdNode
	r       *vh.Rng
	start   time.Time
	mu      sync.Mutex
	conns   map[int]*zvCmdConn
	quit    map[int]bool
	mute    []net.Conn // of peers that say no more
	extra   int        // connections beyond the first
	badKey  error
	lines   []zvLine
	next    uint64
	ended   int64
	stopped bool
}

// zvShort is something that a busy machine may cause.
type zvShort struct{ error }

func zvSlow(kind, format string, a ...any) error { return zvShort{vh.Fail(kind, format, a...)} }

// zvHost makes up a loopback address, so that what the other nodes under test
// listen to and connect to cannot be confused with this one's.
func zvHost(seed uint64) string {
	r := vh.NewRng(uint64(time.Now().UnixNano()) ^ uint64(os.Getpid())<<32 ^ seed<<17)
	for i := 0; i < 20; i++ {
		h := fmt.Sprintf("127.%d.%d.%d", 1+r.Intn(250), r.Intn(250), 1+r.Intn(250))
		if l, err := net.Listen("tcp", h+":0"); err == nil {
			l.Close()
			return h
		}
	}
	return "127.0.0.1"
}

func zvFreePort(host string) (string, error) {
	l, err := net.Listen("tcp", host+":0")
	if err != nil {
		return "", err
	}
	defer l.Close()
	return l.Addr().String(), nil
}

func (r *zvCmdRun) serve(i int, c net.Conn, p zvCmdPeer) {
	k := &zvCmdConn{i: i, conn: c, learnt: map[string]int64{}, sent: map[string]int64{}}
	r.mu.Lock()
	for j := range k.key {
		k.key[j] = byte(r.r.Uint64())
	}
	if r.conns[i] != nil || r.quit[i] {
		r.extra++
	} else if p.Quit > 0 {
		r.quit[i] = true
	} else {
		r.conns[i] = k
	}
	r.mu.Unlock()
	if p.Quit > 0 {
		c.Write(k.key[:p.Quit-1])
		if p.Mute {
			r.mu.Lock()
			r.mute = append(r.mute, c)
			r.mu.Unlock()
		} else {
			c.Close()
		}
		return
	}
	k.from = time.Now().UnixMicro()
	if p.Split {
		c.Write(k.key[:5])
		time.Sleep(20 * time.Millisecond)
		c.Write(k.key[5:])
	} else {
		c.Write(k.key[:])
	}
	if _, err := io.ReadFull(c, k.nodeKey[:]); err != nil {
		k.err = err
		return
	}
	r.mu.Lock()
	k.up = time.Since(r.start)
	r.mu.Unlock()
	go r.feed(k)
	dec := gob.NewDecoder(bufio.NewReader(c))
	d := ldpc.NewDecoder(k.nodeKey, 1<<30)
	for {
		var m Codeword
		if err := dec.Decode(&m); err != nil {
			return
		}
		now := time.Now().UnixMicro()
		w := zvCmdWord{micro: int64(m.UnixMicro), loss: int(m.Loss)}
		var got []ldpc.DecodedTransaction
		if m.Codeword != nil {
			w.members = m.Codeword.Members
			_, got = d.AddCodeword(m.Codeword)
		}
		k.mu.Lock()
		k.words = append(k.words, w)
		for _, g := range got {
			k.learnt[zvName(g.Transaction)] = now
		}
		k.mu.Unlock()
	}
}

func (r *zvCmdRun) newTx() *ldpc.Transaction {
	r.mu.Lock()
	r.next++
	id := r.next
	r.mu.Unlock()
	d := make([]byte, ldpc.TxSize)
	binary.LittleEndian.PutUint64(d, uint64(time.Now().UnixMicro()))
	binary.LittleEndian.PutUint64(d[8:], id)
	binary.LittleEndian.PutUint64(d[16:], r.n.Seed)
	t := &ldpc.Transaction{}
	if err := t.UnmarshalBinary(d); err != nil {
		panic(err)
	}
	return t
}

// feed sends what the case says to the node.
func (r *zvCmdRun) feed(k *zvCmdConn) {
	up := time.Now()
	enc := gob.NewEncoder(k.conn)
	clock := func() int64 { return time.Now().UnixMicro() + int64(r.n.SkewMS)*1000 }
	e := ldpc.NewEncoder(k.key, zvOne{}, 1)
	word := func(t *ldpc.Transaction) *ldpc.Codeword {
		e.Reset(zvOne{}, 1)
		e.AddTransaction(t)
		return e.ProduceCodeword()
	}
	var all []*ldpc.Transaction
	var memory []string // of the node's decoder
	put := func(t *ldpc.Transaction) {
		name := zvName(t)
		for _, m := range memory {
			if m == name {
				return
			}
		}
		k.modelN++
		memory = append(memory, name)
		if r.n.M > 0 && len(memory) > r.n.M {
			memory = memory[1:]
		}
	}
	var feeds []zvCmdFeed
	for _, f := range r.n.Feeds {
		if f.Peer == k.i {
			feeds = append(feeds, f)
		}
	}
	sort.SliceStable(feeds, func(i, j int) bool { return feeds[i].MS < feeds[j].MS })
	for _, f := range feeds {
		time.Sleep(time.Until(up.Add(time.Duration(f.MS) * time.Millisecond)))
		for i := 0; i < f.N; i++ {
			var cw *ldpc.Codeword
			k.mu.Lock()
			switch f.Kind {
			case "fresh":
				t := r.newTx()
				all = append(all, t)
				k.sent[zvName(t)] = time.Now().UnixMicro()
				put(t)
				cw = word(t)
			case "repeat":
				t := all[(i*7)%len(all)]
				put(t)
				cw = word(t)
			case "junk":
				cw = &ldpc.Codeword{Members: []uint32{uint32(r.n.Seed) + uint32(2*k.junk), uint32(r.n.Seed) + uint32(2*k.junk+1)}}
				if k.junk == 0 {
					k.junkAt = time.Now().UnixMicro()
				}
				k.junk++
			}
			if f.Loss > 0 && i == 0 {
				k.lossSent = append(k.lossSent, [2]int64{time.Now().UnixMicro(), int64(f.Loss)})
				enc.Encode(zvMsg(cw, f.Loss, clock()))
			} else {
				enc.Encode(zvMsg(cw, 0, clock()))
			}
			k.mu.Unlock()
			if r.n.PaceMS > 0 {
				time.Sleep(time.Duration(r.n.PaceMS) * time.Millisecond)
			}
		}
	}
	if !r.n.Junk {
		return
	}
	// losses come to light with later codewords
	for {
		r.mu.Lock()
		over := r.stopped
		r.mu.Unlock()
		if over {
			return
		}
		k.mu.Lock()
		t := r.newTx()
		k.sent[zvName(t)] = time.Now().UnixMicro()
		k.modelN++
		err := enc.Encode(zvMsg(word(t), 0, clock()))
		k.mu.Unlock()
		if err != nil {
			return
		}
		time.Sleep(40 * time.Millisecond)
	}
}

// zvRunNode runs one node and judges it.
func zvRunNode(n zvCmdNode, count func(string, int)) error {
	r := &zvCmdRun{n: n, r: vh.NewRng(n.Seed), conns: map[int]*zvCmdConn{}, quit: map[int]bool{}}
	host := zvHost(n.Seed)
	addr, err := zvFreePort(host)
	if err != nil {
		return vh.Harnessf("%v", err)
	}
	var dials []string
	for range n.Dial {
		a, err := zvFreePort(host)
		if err != nil {
			return vh.Harnessf("%v", err)
		}
		dials = append(dials, a)
	}
	args := []string{"-l", addr}
	for _, o := range n.opts() {
		args = append(args, "-"+o[0], o[1])
	}
	if len(dials) > 0 {
		args = append(args, "-p", strings.Join(dials, ","))
	}
	what := "node " + strings.Join(args, " ")
	aj, _ := json.Marshal(args)
	cmd := exec.Command(os.Args[0], "-test.run", "^$")
	for _, v := range os.Environ() {
		if !strings.HasPrefix(v, "VERIF_") {
			cmd.Env = append(cmd.Env, v)
		}
	}
	cmd.Env = append(cmd.Env, "ZV_NODE="+string(aj))
	stdin, err := cmd.StdinPipe()
	if err != nil {
		return vh.Harnessf("%v", err)
	}
	defer stdin.Close()
	pr, pw, err := os.Pipe()
	if err != nil {
		return vh.Harnessf("%v", err)
	}
	cmd.Stdout, cmd.Stderr = pw, pw
	r.start = time.Now()
	startMicro := r.start.UnixMicro()
	// the peers that the node is to connect to
	stop := make(chan struct{})
	var closers []io.Closer
	var cmu sync.Mutex
	keep := func(c io.Closer) {
		cmu.Lock()
		closers = append(closers, c)
		cmu.Unlock()
	}
	var harness error
	listen := func(i int, p zvCmdPeer) {
		l, err := net.Listen("tcp", dials[i])
		if err != nil {
			r.mu.Lock()
			harness = err
			r.mu.Unlock()
			return
		}
		keep(l)
		go func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				keep(c)
				go r.serve(i, c, p)
			}
		}()
	}
	if err := cmd.Start(); err != nil {
		pw.Close()
		return vh.Harnessf("%v", err)
	}
	pw.Close()
	for i, p := range n.Dial {
		if p.MS == 0 {
			listen(i, p)
		} else if p.MS > 0 {
			go func() {
				select {
				case <-time.After(time.Duration(p.MS) * time.Millisecond):
					listen(i, p)
				case <-stop:
				}
			}()
		}
	}
	for i, p := range n.Accept {
		go func() {
			time.Sleep(time.Duration(p.MS) * time.Millisecond)
			for {
				c, err := net.Dial("tcp", addr)
				if err == nil {
					keep(c)
					r.serve(len(n.Dial)+i, c, p)
					return
				}
				select {
				case <-stop:
					return
				case <-time.After(20 * time.Millisecond):
				}
			}
		}()
	}
	logs := make(chan struct{})
	go func() {
		defer close(logs)
		b := bufio.NewReader(pr)
		for {
			l, err := b.ReadString('\n')
			r.mu.Lock()
			if l != "" {
				r.lines = append(r.lines, zvLine{time.Since(r.start), l})
			}
			r.mu.Unlock()
			if err != nil {
				return
			}
		}
	}()
	// wait until all are connected, then for the time of the case
	want, quitters := 0, 0
	for _, p := range append(append([]zvCmdPeer(nil), n.Dial...), n.Accept...) {
		if p.there() {
			want++
		} else if p.Quit > 0 {
			quitters++
		}
	}
	connected := false
	exited := func() bool {
		select {
		case <-logs:
			return true
		default:
			return false
		}
	}
	for time.Since(r.start) < 16*time.Second && !connected && !exited() {
		time.Sleep(10 * time.Millisecond)
		r.mu.Lock()
		up := 0
		for _, k := range r.conns {
			if k.up > 0 {
				up++
			}
		}
		connected = up == want && len(r.quit) == quitters
		r.mu.Unlock()
	}
	for t := time.Now(); connected && time.Since(t) < time.Duration(n.RunMS)*time.Millisecond && !exited(); {
		time.Sleep(10 * time.Millisecond)
	}
	early := exited()
	r.ended = time.Now().UnixMicro()
	r.mu.Lock()
	r.stopped = true
	r.mu.Unlock()
	cmd.Process.Kill()
	cmd.Wait()
	close(stop)
	pr.SetReadDeadline(time.Now().Add(2 * time.Second))
	<-logs
	pr.Close()
	time.Sleep(20 * time.Millisecond)
	cmu.Lock()
	for _, c := range closers {
		c.Close()
	}
	cmu.Unlock()
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, c := range r.mute {
		c.Close()
	}
	if harness != nil {
		return zvSlow("port-taken", "%v", harness)
	}
	var text strings.Builder
	for _, l := range r.lines {
		text.WriteString(l.text)
	}
	if early {
		if strings.Contains(text.String(), "in use") {
			return zvSlow("port-taken", "%s: %s", what, text.String())
		}
		s := text.String()
		return vh.Fail("node-ended", "%s: ended by itself: %s", what, s[max(0, len(s)-700):])
	}
	if !connected {
		up := []int{}
		for i, k := range r.conns {
			if k.up > 0 {
				up = append(up, i)
			}
		}
		return zvSlow("not-connected", "%s: after 16 s only peers %v of %d are connected, %d of %d others have come and gone", what, up, want, len(r.quit), quitters)
	}
	if r.extra > 0 {
		return vh.Fail("connected-again", "%s: %d connections too many", what, r.extra)
	}
	return r.judge(what, startMicro, text.String(), count)
}

var (
	zvReGen   = regexp.MustCompile(`generated tx (\d+)\n$`)
	zvReSince = regexp.MustCompile(`since warm up tx=(\d+)`)
)

func (r *zvCmdRun) judge(what string, startMicro int64, text string, count func(string, int)) error {
	n := r.n
	for _, k := range r.conns {
		k.mu.Lock()
		defer k.mu.Unlock()
	}
	// what it was told
	for _, o := range n.opts() {
		if !strings.Contains(text, "config name "+o[0]+" value "+o[1]+"\n") {
			return vh.Fail("not-logged", "%s: option %s is not logged with its value", what, o[0])
		}
	}
	def := func(v, d float64) float64 {
		if v < 0 {
			return d
		}
		return v
	}
	tx := math.Max(n.Tx, 0)
	rate := def(n.R0, 0)
	if rate == 0 {
		rate = tx
	}
	floor := def(n.RMin, 1)
	rate = math.Max(rate, floor)
	inc, target := def(n.Inc, 0.1), def(n.Loss, 0.02)
	K := n.K
	if K == 0 {
		K = 50
	}
	fed := map[string]int64{}
	var ids []int
	for i, k := range r.conns {
		ids = append(ids, i)
		for t, at := range k.sent {
			fed[t] = at
		}
	}
	sort.Ints(ids)
	own, bodies := map[string]int64{}, map[string]string{}
	keys := map[[ldpc.SaltSize]byte]bool{}
	var slow error
	short := func(kind, format string, a ...any) {
		if slow == nil {
			slow = zvSlow(kind, format, a...)
		}
	}
	for _, i := range ids {
		k := r.conns[i]
		who := fmt.Sprintf("%s: peer %d", what, i)
		if keys[k.nodeKey] {
			return vh.Fail("same-key", "%s: the key is that of another connection", who)
		}
		keys[k.nodeKey] = true
		count("codewords", len(k.words))
		// rates
		credit, cur, hi, lo := 0.0, rate, 0.0, 0.0
		w, l := 0, 0
		reported := 0
		for at := k.from; at <= r.ended; at += 10000 {
			for l < len(k.lossSent) && k.lossSent[l][0] <= at+10000 {
				cur += inc * float64(k.lossSent[l][1])
				l++
			}
			for w < len(k.words) && k.words[w].micro < at {
				w++
			}
			if float64(w) > hi+2 {
				return vh.Fail("too-many", "%s: %d codewords within %.2f s, at most %.0f", who, w, float64(at-k.from)/1e6, hi)
			}
			credit += 0.01 * cur
			for credit >= 1 {
				credit--
				hi++
				cur = math.Max(floor, cur-inc*target)
			}
			if at <= r.ended-400000 {
				lo = hi
			}
		}
		if float64(len(k.words)) < 0.75*lo-5 {
			short("too-few", "%s: %d codewords, expected %.0f", who, len(k.words), lo)
		}
		for j, cw := range k.words {
			if len(cw.members) > K {
				return vh.Fail("high-degree", "%s: codeword %d is of degree %d, -k %d", who, j, len(cw.members), K)
			}
			seen := map[uint32]bool{}
			for _, m := range cw.members {
				if seen[m] {
					return vh.Fail("doubled-member", "%s: codeword %d names a transaction twice", who, j)
				}
				seen[m] = true
			}
			if cw.micro < k.from || cw.micro > r.ended+2000000 {
				return vh.Fail("wrong-stamp", "%s: codeword %d is stamped %d, connected %d", who, j, cw.micro, k.from)
			}
			if cw.loss > 0 {
				reported += cw.loss
				if reported > k.junk {
					return vh.Fail("wrong-loss", "%s: %d codewords are reported as lost, %d were undecodable", who, reported, k.junk)
				}
				tmo := int64(n.TimeoutMS)
				if tmo == 0 {
					tmo = 500
				}
				if cw.micro < k.junkAt+tmo*1000 {
					return vh.Fail("early-loss", "%s: a loss is reported %d ms after the codeword was sent, timeout %d ms", who, (cw.micro-k.junkAt)/1000, tmo)
				}
			}
		}
		if n.Junk && k.junk != reported {
			short("wrong-loss", "%s: %d codewords are reported as lost, %d were undecodable", who, reported, k.junk)
		}
		count("losses", reported)
		for t, at := range k.learnt {
			if _, ok := fed[t]; ok {
				continue
			}
			stamp := int64(binary.LittleEndian.Uint64([]byte(t[:8])))
			if stamp < startMicro || stamp > at+1000 || tx == 0 {
				return vh.Fail("not-genuine", "%s: got a transaction stamped %d at %d, -tx %v; the node was started at %d", who, stamp, at, tx, startMicro)
			}
			own[t] = stamp
			// nothing but the time in common
			if old, ok := bodies[t[8:]]; ok && old != t {
				return vh.Fail("not-distinct", "%s: the transactions stamped %d and %d carry the same", who, stamp, own[old])
			}
			bodies[t[8:]] = t
		}
	}
	if len(own) > 0 {
		count("generated", len(own))
	}
	if len(own) >= 20 {
		var at []int64
		differ := make([]bool, ldpc.TxSize)
		fine := false
		first := ""
		for t, stamp := range own {
			at = append(at, stamp)
			fine = fine || stamp%1000 != 0
			if first == "" {
				first = t
			}
			for j := range differ {
				differ[j] = differ[j] || t[j] != first[j]
			}
		}
		for j := 8; j < ldpc.TxSize; j++ {
			if !differ[j] {
				return vh.Fail("not-random", "%s: byte %d of %d transactions is always %d", what, j, len(own), first[j])
			}
		}
		if !fine {
			return vh.Fail("coarse-stamp", "%s: %d transactions are all stamped with full milliseconds", what, len(own))
		}
		sort.Slice(at, func(i, j int) bool { return at[i] < at[j] })
		long := 0
		for j := 1; j < len(at); j++ {
			if float64(at[j]-at[j-1])*float64(len(at)-1) > 2*float64(at[len(at)-1]-at[0]) {
				long++
			}
		}
		// one in seven, were it not for chance
		if len(at) > 250 && long == 0 {
			return vh.Fail("even-pace", "%s: %d transactions and no gap of twice the mean between them", what, len(at))
		}
	}
	// how many it made
	alive := float64(r.ended-startMicro) / 1e6
	if most := tx*alive + 9*math.Sqrt(tx*alive) + 10; float64(len(own)) > most {
		return vh.Fail("too-many-transactions", "%s: %d transactions generated within %.2f s", what, len(own), alive)
	}
	lastGen, lastTotal, genAt := -1, -1, time.Duration(0)
	since := false
	for _, l := range r.lines {
		if m := zvReGen.FindStringSubmatch(l.text); m != nil {
			v, _ := strconv.Atoi(m[1])
			if v < lastGen || tx == 0 {
				return vh.Fail("wrong-count", "%s: %q after %d", what, l.text, lastGen)
			}
			lastGen, genAt = v, l.at
		}
		if m := zvReTotal.FindStringSubmatch(l.text); m != nil {
			lastTotal, _ = strconv.Atoi(m[1])
		}
		if m := zvReSince.FindStringSubmatch(l.text); m != nil {
			warm := time.Duration(n.WarmupMS) * time.Millisecond
			if n.WarmupMS == 0 {
				warm = time.Minute
			}
			if l.at < warm {
				return vh.Fail("early-figures", "%s: figures %v after the start, within the warm-up", what, l.at)
			}
			since = true
		}
	}
	if lastGen >= 0 {
		dt := genAt.Seconds()
		if most := tx*dt + 9*math.Sqrt(tx*dt) + 10; float64(lastGen) > most {
			return vh.Fail("too-many-transactions", "%s: %d transactions generated within %.2f s", what, lastGen, dt)
		}
		if least := 0.6*tx*(dt-0.5) - 8*math.Sqrt(tx*dt) - 5; float64(lastGen) < least {
			short("too-few-transactions", "%s: %d transactions generated within %.2f s", what, lastGen, dt)
		}
		before := 0
		for _, at := range own {
			if at < r.start.Add(genAt-500*time.Millisecond).UnixMicro() {
				before++
			}
		}
		if lastGen < before {
			short("wrong-count", "%s: says %d transactions were generated, the peers have %d", what, lastGen, before)
		}
	} else if tx > 0 && alive > 2.5 {
		short("wrong-count", "%s: does not say how many transactions were generated", what)
	}
	fedAll := 0
	for _, k := range r.conns {
		fedAll += k.modelN
	}
	if lastTotal > fedAll {
		if n.Memory {
			short("wrong-total", "%s: says it decoded %d transactions, %d expected", what, lastTotal, fedAll)
		} else {
			return vh.Fail("wrong-total", "%s: says it decoded %d transactions, %d were sent to it", what, lastTotal, fedAll)
		}
	}
	if n.Memory && lastTotal != fedAll {
		short("wrong-total", "%s: says it decoded %d transactions, %d expected", what, lastTotal, fedAll)
	}
	counted := 0
	for _, at := range fed {
		if n.WarmupMS > 0 && at > startMicro+int64(n.WarmupMS)*1000+1200000 && at < r.ended-1300000 {
			counted++
		}
	}
	if counted > 0 && !since {
		short("no-figures", "%s: no figures %.1f s after the start", what, alive)
	}
	// who knows what
	if n.Complete {
		all := map[string]int64{}
		for t, at := range own {
			all[t] = at
		}
		for t, at := range fed {
			all[t] = at
		}
		margin := int64(700000)
		if tx > 0 {
			margin += int64(2e6 * float64(K) / tx)
		}
		for _, i := range ids {
			k := r.conns[i]
			missing, due := 0, 0
			for t, at := range all {
				if at < k.from+150000 || at > r.ended-margin {
					continue
				}
				if _, mine := k.sent[t]; mine {
					continue
				}
				due++
				if _, ok := k.learnt[t]; !ok {
					missing++
				}
			}
			limit := max(5, due/20)
			if tx == 0 && due <= 40 {
				limit = 0
			}
			if missing > limit {
				short("not-recovered", "%s: peer %d lacks %d of %d transactions", what, i, missing, due)
			}
			count("recovered", due-missing)
		}
		if tx > 0 {
			if least := 0.5*tx*(float64(n.RunMS-int(margin/1000)-200)/1000) - 8*math.Sqrt(tx) - 5; float64(len(own)) < least {
				short("too-few-transactions", "%s: the peers know %d transactions, expected %.0f", what, len(own), least)
			}
		}
	}
	if n.Degrees {
		err := r.degrees(what, K, ids, count)
		if err == nil {
			err = r.window(what, K, ids, own)
		}
		if err != nil && slow == nil {
			slow = err
		}
	}
	return slow
}

// degrees compares the degrees of codewords made of full windows with draws
// from the asked distribution.
func (r *zvCmdRun) degrees(what string, K int, ids []int, count func(string, int)) error {
	c, delta := r.n.C, r.n.Delta
	if c == 0 {
		c = 0.03
	}
	if delta == 0 {
		delta = 0.5
	}
	got := make([]float64, K+1)
	total := 0.0
	for _, i := range ids {
		k := r.conns[i]
		full := k.from + int64(1e6*(float64(2*K)/r.n.Tx+0.5))
		for _, w := range k.words {
			if w.micro > full && len(w.members) <= K {
				got[len(w.members)]++
				total++
			}
		}
	}
	if total < 500 {
		return zvSlow("too-few", "%s: %v codewords to judge", what, total)
	}
	count("degrees", int(total))
	const draws = 400000
	dist := soliton.NewRobustSoliton(rand.New(rand.NewSource(1)), uint64(K), c, delta)
	want := make([]float64, K+1)
	for i := 0; i < draws; i++ {
		want[dist.Uint64()]++
	}
	// two-sample test over classes of at least ten expected
	chi, classes := 0.0, -1
	var g, w float64
	add := func() {
		p := (g + w) / (total + draws)
		chi += (g-total*p)*(g-total*p)/(total*p) + (w-draws*p)*(w-draws*p)/(draws*p)
		classes++
		g, w = 0, 0
	}
	for d := 0; d <= K; d++ {
		g, w = g+got[d], w+want[d]
		if w*total/draws >= 10 {
			add()
		}
	}
	if g+w > 0 {
		add()
	}
	df := math.Max(1, float64(classes))
	// about one in 10^9
	if limit := df + 9*math.Sqrt(2*df) + 40; chi > limit {
		return zvSlow("wrong-degrees", "%s: %v codewords, chi-square %.1f for %v classes, degrees %v", what, total, chi, classes+1, got)
	}
	return nil
}

// window compares how far apart the transactions of one codeword were
// generated with the window.
func (r *zvCmdRun) window(what string, K int, ids []int, own map[string]int64) error {
	var order []string
	for t := range own {
		order = append(order, t)
	}
	sort.Slice(order, func(i, j int) bool { return own[order[i]] < own[order[j]] })
	for _, i := range ids {
		k := r.conns[i]
		e := ldpc.NewEncoder(k.nodeKey, zvOne{}, 1)
		rank := map[uint32]int{}
		for j, name := range order {
			t := &ldpc.Transaction{}
			if err := t.UnmarshalBinary([]byte(name)); err != nil {
				return vh.Harnessf("%v", err)
			}
			e.Reset(zvOne{}, 1)
			e.AddTransaction(t)
			m := e.ProduceCodeword().Members
			if len(m) != 1 {
				continue
			}
			if _, twice := rank[m[0]]; twice {
				j = -1
			}
			rank[m[0]] = j
		}
		widest := 0
		for j, w := range k.words {
			lo, hi := len(order), -1
			for _, m := range w.members {
				if at, ok := rank[m]; ok && at >= 0 {
					lo, hi = min(lo, at), max(hi, at)
				}
			}
			if hi-lo > K+1 {
				return zvSlow("wrong-window", "%s: peer %d: codeword %d names transactions %d apart, -k %d", what, i, j, hi-lo, K)
			}
			widest = max(widest, hi-lo)
		}
		if widest < K*3/4 && len(k.words) > 500 {
			return zvSlow("wrong-window", "%s: peer %d: no codeword names transactions more than %d apart, -k %d", what, i, widest, K)
		}
	}
	return nil
}

func zvCmd(x *vh.Ctx, c zvCmdCase) error {
	var mu sync.Mutex
	nums := map[string]int{}
	add := func(s string, n int) {
		mu.Lock()
		nums[s] += n
		mu.Unlock()
	}
	errs := make([]error, len(c.Nodes))
	var wg sync.WaitGroup
	for i, n := range c.Nodes {
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[i] = zvRunNode(n, add)
		}()
	}
	wg.Wait()
	for i := range errs {
		var s zvShort
		for again := 0; again < 2 && errors.As(errs[i], &s); again++ {
			add("repeated", 1)
			errs[i] = zvRunNode(c.Nodes[i], add)
		}
		if errors.As(errs[i], &s) {
			errs[i] = s.error
			if v, ok := s.error.(*vh.Violation); ok && v.Kind == "port-taken" {
				return vh.Harnessf("%s", v.Msg)
			}
		}
		if errs[i] != nil {
			return errs[i]
		}
	}
	x.Add("nodes", len(c.Nodes))
	for k, v := range nums {
		x.Add(k, v)
	}
	for _, n := range c.Nodes {
		x.TagIf(n.Junk, "losses")
		x.TagIf(n.Memory, "memory")
		x.TagIf(n.Degrees, "degrees")
		x.TagIf(n.Complete && n.Tx > 0, "stream")
		x.TagIf(n.Complete && n.Tx <= 0, "relay")
		for _, p := range append(append([]zvCmdPeer(nil), n.Dial...), n.Accept...) {
			x.TagIf(p.Quit > 0 && !p.Mute, "quitters")
			x.TagIf(p.Mute, "mute-peers")
		}
	}
	if nums["codewords"] >= 100 {
		x.NonTrivial()
	}
	return nil
}

func init() {
	zvProps = append(zvProps,
		&vh.Property{ID: "C42", Rule: "a hundred codewords were received",
			Assumptions: []string{"real time on the loopback network: counts are bounded from above exactly and from below with a margin; what a busy machine may cause is tried three times", "peers take what they are sent and stay connected"},
			Subs: []*vh.Sub{
				vh.NewSub("command", 10, zvGenCmd, zvCmd).T(60),
			}},
	)
}
