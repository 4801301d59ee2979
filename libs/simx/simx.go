// Package simx drives des modules with an event loop of its own, so that a
// harness sees every message, and makes topologies.
package simx

import (
	"container/heap"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
	"pgregory.net/rapid"
	"verif/vh"
)

// Event is one message delivery.
type Event struct {
	At      time.Duration
	Seq     int
	From    des.Module
	To      des.Module
	Payload any
}

type queue []Event

func (q queue) Len() int { return len(q) }
func (q queue) Less(i, j int) bool {
	return q[i].At < q[j].At || q[i].At == q[j].At && q[i].Seq < q[j].Seq
}
func (q queue) Swap(i, j int) { q[i], q[j] = q[j], q[i] }
func (q *queue) Push(x any)   { *q = append(*q, x.(Event)) }
func (q *queue) Pop() any {
	o := *q
	x := o[len(o)-1]
	*q = o[:len(o)-1]
	return x
}

// Loop delivers messages in time order, ties in send order. Observe sees
// every delivery and what the module sent in response.
type Loop struct {
	Now     time.Duration
	Count   int
	Observe func(e Event, out []des.OutgoingMessage) error
	Before  func(e Event)
	q       queue
	seq     int
}

// Send schedules a message.
func (l *Loop) Send(at time.Duration, from, to des.Module, payload any) {
	heap.Push(&l.q, Event{at, l.seq, from, to, payload})
	l.seq++
}

// Pending lists the undelivered messages.
func (l *Loop) Pending() []Event { return l.q }

// Run delivers messages up to the horizon, until stop says so.
func (l *Loop) Run(horizon time.Duration, maxEvents int, stop func() bool) error {
	for n := 0; len(l.q) > 0 && l.q[0].At <= horizon && n < maxEvents; n++ {
		if stop != nil && stop() {
			return nil
		}
		e := heap.Pop(&l.q).(Event)
		l.Now = e.At
		l.Count++
		if l.Before != nil {
			l.Before(e)
		}
		out := e.To.HandleMessage(e.Payload, e.From, e.At)
		if l.Observe != nil {
			if err := l.Observe(e, out); err != nil {
				return err
			}
		}
		for _, m := range out {
			if m.Delay < 0 {
				return vh.Fail("negative-delay", "a message %T is sent with delay %v", m.Payload, m.Delay)
			}
			to := m.To
			if to == nil {
				to = e.To
			}
			l.Send(e.At+m.Delay, e.To, to, m.Payload)
		}
	}
	return nil
}

// Edge is a link with a delay in milliseconds.
type Edge struct{ A, B, MS int }

// Topo is a simple connected graph.
type Topo struct {
	Kind  string
	N     int
	Edges []Edge
}

// Tree reports whether the topology has no cycle.
func (t Topo) Tree() bool { return len(t.Edges) == t.N-1 }

// Peers lists the neighbours of every node.
func (t Topo) Peers() [][]int {
	p := make([][]int, t.N)
	for _, e := range t.Edges {
		p[e.A] = append(p[e.A], e.B)
		p[e.B] = append(p[e.B], e.A)
	}
	return p
}

// GenTopo draws a connected topology of at least min and at most max nodes.
func GenTopo(t *rapid.T, min, max int, treesOnly bool) Topo {
	kinds := []string{"line", "star", "tree", "ring", "complete", "random", "random"}
	if treesOnly {
		kinds = kinds[:3]
	}
	tp := Topo{Kind: vh.OneOf(t, "topology", kinds...), N: min + vh.Uniform(t, "nodes", max-min+1)}
	maxDelay := vh.OneOf(t, "maxDelay", 1, 5, 100)
	used := map[[2]int]bool{}
	add := func(a, b int) {
		if a == b || used[[2]int{a, b}] || used[[2]int{b, a}] {
			return
		}
		used[[2]int{a, b}] = true
		if vh.Uniform(t, "swap", 2) == 1 {
			a, b = b, a
		}
		tp.Edges = append(tp.Edges, Edge{a, b, 1 + vh.Uniform(t, "delay", maxDelay)})
	}
	for i := 1; i < tp.N; i++ {
		switch tp.Kind {
		case "line", "ring":
			add(i-1, i)
		case "star":
			add(0, i)
		case "complete":
			for j := 0; j < i; j++ {
				add(i, j)
			}
		default:
			add(i, vh.Uniform(t, "parent", i))
		}
	}
	if tp.Kind == "ring" && tp.N > 2 {
		add(tp.N-1, 0)
	}
	if tp.Kind == "random" {
		for k := vh.Uniform(t, "extra", tp.N+1); k > 0; k-- {
			add(vh.Uniform(t, "a", tp.N), vh.Uniform(t, "b", tp.N))
		}
	}
	return tp
}

// Describe renders a message without addresses of objects.
func Describe(names map[des.Module]int, e Event) string {
	return fmt.Sprintf("%d %d>%d %T %s", e.At, names[e.From], names[e.To], e.Payload, Deep(e.Payload))
}

// Deep renders a value completely, following pointers instead of printing
// addresses.
func Deep(x any) string {
	var b strings.Builder
	deep(&b, reflect.ValueOf(x), 0)
	return b.String()
}

func deep(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 12 {
		b.WriteString("...")
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		b.WriteString("nil")
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		deep(b, v.Elem(), depth+1)
	case reflect.Struct:
		b.WriteString(v.Type().Name() + "{")
		for i := 0; i < v.NumField(); i++ {
			b.WriteString(v.Type().Field(i).Name + ":")
			deep(b, v.Field(i), depth+1)
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case reflect.Slice, reflect.Array:
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			deep(b, v.Index(i), depth+1)
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	case reflect.Map:
		var ks []string
		it := v.MapRange()
		for it.Next() {
			var e strings.Builder
			deep(&e, it.Key(), depth+1)
			e.WriteByte(':')
			deep(&e, it.Value(), depth+1)
			ks = append(ks, e.String())
		}
		sort.Strings(ks)
		b.WriteString(strings.Join(ks, " "))
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(b, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(b, v.Float())
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	default:
		b.WriteString(v.Kind().String())
	}
}
