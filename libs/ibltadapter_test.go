package libs

import (
	"math/rand"
	"reflect"
	"unsafe"

	"github.com/yangl1996/rateless-set-reconcile/iblt"
)

// Adapter for the iblt codec; generated by tools/gen_iblt.sh.

type ibltCodec[T iblt.TransactionData[T]] struct {
	name string
	of   func(uint64) T
	read func(T) content
	mk   func(content) T
}

func (k ibltCodec[T]) Name() string           { return k.name }
func (k ibltCodec[T]) Of(id uint64) content   { return ltContent(id) }
func (k ibltCodec[T]) Tx(id uint64) any       { return iblt.NewTransaction[T](k.of(id)) }
func (k ibltCodec[T]) Content(tx any) content { return k.read(tx.(iblt.Transaction[T]).Data()) }
func (k ibltCodec[T]) Enc(seed int64, s salt, d dist, ws int) encoder {
	return ibltEnc[T]{k, iblt.NewEncoder[T](rand.New(rand.NewSource(seed)), s, d, ws)}
}
func (k ibltCodec[T]) Dec(s salt, mem int) decoder { return ibltDec[T]{k, iblt.NewDecoder[T](s, mem)} }

func (k ibltCodec[T]) Make(members []uint32, payload content) codeword {
	n := &ibltCW[T]{k: k}
	p, m := n.parts()
	*m = append([]uint32{}, members...)
	if len(members) > 0 {
		*p = k.mk(payload)
	}
	return n
}

type ibltEnc[T iblt.TransactionData[T]] struct {
	k ibltCodec[T]
	e *iblt.Encoder[T]
}

func (e ibltEnc[T]) Add(tx any) bool      { return e.e.AddTransaction(tx.(iblt.Transaction[T])) }
func (e ibltEnc[T]) Produce() codeword    { return &ibltCW[T]{e.k, e.e.ProduceCodeword()} }
func (e ibltEnc[T]) Reset(d dist, ws int) { e.e.Reset(d, ws) }

type ibltCW[T iblt.TransactionData[T]] struct {
	k ibltCodec[T]
	c iblt.Codeword[T]
}

func (c *ibltCW[T]) parts() (*T, *[]uint32) {
	p, m := cwOffsets(reflect.TypeFor[iblt.Codeword[T]](), reflect.TypeFor[T]())
	return (*T)(unsafe.Add(unsafe.Pointer(&c.c), p)), (*[]uint32)(unsafe.Add(unsafe.Pointer(&c.c), m))
}
func (c *ibltCW[T]) Members() []uint32 {
	_, m := c.parts()
	return append([]uint32{}, *m...)
}
func (c *ibltCW[T]) Payload() content {
	p, _ := c.parts()
	return c.k.read(*p)
}
func (c *ibltCW[T]) Clone() codeword { return c.Corrupt(content{}) }
func (c *ibltCW[T]) Corrupt(x content) codeword {
	v := c.Payload()
	for i := range v {
		v[i] ^= x[i]
	}
	return c.k.Make(c.Members(), v)
}

type ibltDec[T iblt.TransactionData[T]] struct {
	k ibltCodec[T]
	d *iblt.Decoder[T]
}

func (d ibltDec[T]) list(l []iblt.Transaction[T]) []decodedTx {
	var out []decodedTx
	for _, t := range l {
		out = append(out, decodedTx{c: d.k.read(t.Data()), tx: t})
	}
	return out
}
func (d ibltDec[T]) AddCW(c codeword) (stub, []decodedTx) {
	s, l := d.d.AddCodeword(c.(*ibltCW[T]).c)
	return s, d.list(l)
}
func (d ibltDec[T]) AddTx(tx any) []decodedTx {
	return d.list(d.d.AddTransaction(tx.(iblt.Transaction[T])))
}
func (d ibltDec[T]) Has(tx any) (bool, bool) {
	h, ok := any(d.d).(interface {
		HasDecoded(iblt.Transaction[T]) bool
	})
	if !ok {
		return false, false
	}
	return h.HasDecoded(tx.(iblt.Transaction[T])), true
}

func (d ibltDec[T]) Received() (int, bool) {
	if r, ok := any(d.d).(interface{ NumTransactionsReceived() int }); ok {
		return r.NumTransactionsReceived(), true
	}
	return 0, false
}
