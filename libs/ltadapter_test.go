package libs

import (
	"math/rand"
	"reflect"
	"unsafe"

	"github.com/yangl1996/rateless-set-reconcile/lt"
)

// Adapter for the lt codec. ibltadapter_test.go is the same text for iblt
// (made with tools/gen_iblt.sh).

type ltCodec[T lt.TransactionData[T]] struct {
	name string
	of   func(uint64) T
	read func(T) content
	mk   func(content) T
}

func (k ltCodec[T]) Name() string           { return k.name }
func (k ltCodec[T]) Of(id uint64) content   { return ltContent(id) }
func (k ltCodec[T]) Tx(id uint64) any       { return lt.NewTransaction[T](k.of(id)) }
func (k ltCodec[T]) Content(tx any) content { return k.read(tx.(lt.Transaction[T]).Data()) }
func (k ltCodec[T]) Enc(seed int64, s salt, d dist, ws int) encoder {
	return ltEnc[T]{k, lt.NewEncoder[T](rand.New(rand.NewSource(seed)), s, d, ws)}
}
func (k ltCodec[T]) Dec(s salt, mem int) decoder { return ltDec[T]{k, lt.NewDecoder[T](s, mem)} }

func (k ltCodec[T]) Make(members []uint32, payload content) codeword {
	n := &ltCW[T]{k: k}
	p, m := n.parts()
	*m = append([]uint32{}, members...)
	if len(members) > 0 {
		*p = k.mk(payload)
	}
	return n
}

type ltEnc[T lt.TransactionData[T]] struct {
	k ltCodec[T]
	e *lt.Encoder[T]
}

func (e ltEnc[T]) Add(tx any) bool      { return e.e.AddTransaction(tx.(lt.Transaction[T])) }
func (e ltEnc[T]) Produce() codeword    { return &ltCW[T]{e.k, e.e.ProduceCodeword()} }
func (e ltEnc[T]) Reset(d dist, ws int) { e.e.Reset(d, ws) }

type ltCW[T lt.TransactionData[T]] struct {
	k ltCodec[T]
	c lt.Codeword[T]
}

func (c *ltCW[T]) parts() (*T, *[]uint32) {
	p, m := cwOffsets(reflect.TypeFor[lt.Codeword[T]](), reflect.TypeFor[T]())
	return (*T)(unsafe.Add(unsafe.Pointer(&c.c), p)), (*[]uint32)(unsafe.Add(unsafe.Pointer(&c.c), m))
}
func (c *ltCW[T]) Members() []uint32 {
	_, m := c.parts()
	return append([]uint32{}, *m...)
}
func (c *ltCW[T]) Payload() content {
	p, _ := c.parts()
	return c.k.read(*p)
}
func (c *ltCW[T]) Clone() codeword { return c.Corrupt(content{}) }
func (c *ltCW[T]) Corrupt(x content) codeword {
	v := c.Payload()
	for i := range v {
		v[i] ^= x[i]
	}
	return c.k.Make(c.Members(), v)
}

type ltDec[T lt.TransactionData[T]] struct {
	k ltCodec[T]
	d *lt.Decoder[T]
}

func (d ltDec[T]) list(l []lt.Transaction[T]) []decodedTx {
	var out []decodedTx
	for _, t := range l {
		out = append(out, decodedTx{c: d.k.read(t.Data()), tx: t})
	}
	return out
}
func (d ltDec[T]) AddCW(c codeword) (stub, []decodedTx) {
	s, l := d.d.AddCodeword(c.(*ltCW[T]).c)
	return s, d.list(l)
}
func (d ltDec[T]) AddTx(tx any) []decodedTx {
	return d.list(d.d.AddTransaction(tx.(lt.Transaction[T])))
}
func (d ltDec[T]) Has(tx any) (bool, bool) {
	h, ok := any(d.d).(interface {
		HasDecoded(lt.Transaction[T]) bool
	})
	if !ok {
		return false, false
	}
	return h.HasDecoded(tx.(lt.Transaction[T])), true
}

func (d ltDec[T]) Received() (int, bool) {
	if r, ok := any(d.d).(interface{ NumTransactionsReceived() int }); ok {
		return r.NumTransactionsReceived(), true
	}
	return 0, false
}
