package libs

import (
	"encoding/binary"
	"math/rand"
	"reflect"
	"unsafe"

	"github.com/yangl1996/rateless-set-reconcile/iblt"
	"github.com/yangl1996/rateless-set-reconcile/ldpc"
	"github.com/yangl1996/rateless-set-reconcile/lt"
	"verif/vh"
)

// One interface over the three codecs (lt, iblt, ldpc) and over value- and
// pointer-typed contents, so that every codec property runs on all of them.

type content [16]uint64

type salt = [16]byte

// degDist is a scripted degree distribution.
type degDist struct {
	degs  []uint64 // used in order, then repeated; empty: huge
	calls int
}

func (d *degDist) Uint64() uint64 {
	d.calls++
	if len(d.degs) == 0 {
		return 1 << 30
	}
	return d.degs[(d.calls-1)%len(d.degs)]
}

type dist interface{ Uint64() uint64 }

type codec interface {
	Name() string
	Tx(id uint64) any
	Content(tx any) content
	Of(id uint64) content // the content of transaction id
	Enc(seed int64, s salt, d dist, ws int) encoder
	Dec(s salt, mem int) decoder
	Make(members []uint32, payload content) codeword // a codeword received from elsewhere
}

type encoder interface {
	Add(tx any) bool
	Produce() codeword
	Reset(d dist, ws int)
}

type codeword interface {
	Members() []uint32
	Payload() content
	Clone() codeword
	Corrupt(x content) codeword
}

type decodedTx struct {
	c       content
	tx      any
	expired bool
}

type stub interface {
	Decoded() bool
}

type decoder interface {
	AddCW(c codeword) (stub, []decodedTx)
	AddTx(tx any) []decodedTx
	Has(tx any) (has, supported bool)
	Received() (n int, supported bool) // how many transactions it has taken in
}

// ---------------------------------------------------------------- contents

const ltWords = 3

type valTx [ltWords]uint64

func (a valTx) XOR(b valTx) valTx {
	for i := range a {
		a[i] ^= b[i]
	}
	return a
}
func (a valTx) Hash() []byte { return contentHash(a[:]) }

type ptrTx struct{ w [ltWords]uint64 }

func (a *ptrTx) XOR(b *ptrTx) *ptrTx {
	if a == nil {
		a = &ptrTx{}
	}
	for i := range a.w {
		a.w[i] ^= b.w[i]
	}
	return a
}
func (a *ptrTx) Hash() []byte { return contentHash(a.w[:]) }

func contentHash(w []uint64) []byte {
	// like contents, like hashes: those of alike transactions (see alike) have
	// a third in common
	g := uint64(23)
	for _, x := range w {
		g = mix(g + x*0x9e3779b97f4a7c15)
	}
	out := make([]byte, 24)
	binary.LittleEndian.PutUint64(out, mix(w[0]^17))
	binary.LittleEndian.PutUint64(out[8:], mix(w[len(w)-1]^29))
	binary.LittleEndian.PutUint64(out[16:], g)
	return out
}

const (
	alikeHead = 0x7af0 << 48 // transactions that differ in their first word only
	alikeTail = 0x7ab0 << 48 // in their last word only
)

// alike replaces the words in which transactions with such numbers do not differ.
func alike(id uint64, c []uint64) {
	var keep int
	switch id >> 48 << 48 {
	case alikeHead:
		keep = 0
	case alikeTail:
		keep = len(c) - 1
	default:
		return
	}
	for i := range c {
		c[i] = mix(uint64(i) + 99)
	}
	c[keep] = id
}

func ltContent(id uint64) (c content) {
	if id == 0 {
		return // the all-zero transaction
	}
	defer func() { alike(id, c[:ltWords]) }()
	c[0] = id
	f := fill(id)
	for i := 1; i < ltWords; i++ {
		c[i] = f[i]
	}
	return
}

func valOf(id uint64) valTx {
	c := ltContent(id)
	return valTx(c[:ltWords])
}
func ptrOf(id uint64) *ptrTx {
	c := ltContent(id)
	return &ptrTx{[ltWords]uint64(c[:ltWords])}
}
func valRead(v valTx) (c content) { copy(c[:], v[:]); return }
func ptrRead(p *ptrTx) (c content) {
	if p != nil {
		copy(c[:], p.w[:])
	}
	return
}
func valMake(c content) valTx  { return valTx(c[:ltWords]) }
func ptrMake(c content) *ptrTx { return &ptrTx{[ltWords]uint64(c[:ltWords])} }

// cwOffsets finds the payload (type T) and member list ([]uint32) of a
// codeword struct by field type.
func cwOffsets(ct, st reflect.Type) (payload, members uintptr) {
	payload, members = ^uintptr(0), ^uintptr(0)
	for i := 0; i < ct.NumField(); i++ {
		f := ct.Field(i)
		if f.Type == st {
			payload = f.Offset
		} else if f.Type == reflect.TypeFor[[]uint32]() {
			members = f.Offset
		}
	}
	if payload == ^uintptr(0) || members == ^uintptr(0) {
		panic(&vh.HarnessError{Msg: "codeword layout not recognised"})
	}
	return
}

// ---------------------------------------------------------------- ldpc

type ldpcCodec struct{}

func (ldpcCodec) Name() string { return "ldpc" }
func (ldpcCodec) Of(id uint64) (c content) {
	if id == 0 {
		return
	}
	c[0] = id
	r := vh.NewRng(id ^ 0xabcdef)
	for i := 1; i < len(c); i++ {
		c[i] = r.Uint64()
	}
	alike(id, c[:])
	return
}
func bytesOf(c content) []byte {
	b := make([]byte, 0, 128)
	for _, w := range c {
		b = binary.LittleEndian.AppendUint64(b, w)
	}
	return b
}
func contentOf(b []byte) (c content) {
	for i := range c {
		c[i] = binary.LittleEndian.Uint64(b[8*i:])
	}
	return
}
func (k ldpcCodec) Tx(id uint64) any {
	t := &ldpc.Transaction{}
	if err := t.UnmarshalBinary(bytesOf(k.Of(id))); err != nil {
		panic(&vh.Violation{Kind: "unmarshal-rejected", Msg: err.Error()})
	}
	return t
}
func (ldpcCodec) Content(tx any) content { return contentOf(tx.(*ldpc.Transaction).Serialized()) }
func (ldpcCodec) Enc(seed int64, s salt, d dist, ws int) encoder {
	rand.Seed(seed) // the ldpc encoder samples from the global source
	return ldpcEnc{ldpc.NewEncoder(s, d, ws)}
}
func (ldpcCodec) Dec(s salt, mem int) decoder { return ldpcDec{ldpc.NewDecoder(s, mem)} }
func (ldpcCodec) Make(members []uint32, payload content) codeword {
	c := &ldpc.Codeword{Members: append([]uint32{}, members...)}
	copy(c.Symbol[:], bytesOf(payload))
	return ldpcCW{c}
}

type ldpcEnc struct{ e *ldpc.Encoder }

func (e ldpcEnc) Add(tx any) bool      { return e.e.AddTransaction(tx.(*ldpc.Transaction)) }
func (e ldpcEnc) Produce() codeword    { return ldpcCW{e.e.ProduceCodeword()} }
func (e ldpcEnc) Reset(d dist, ws int) { e.e.Reset(d, ws) }

type ldpcCW struct{ c *ldpc.Codeword }

func (c ldpcCW) Members() []uint32 { return append([]uint32{}, c.c.Members...) }
func (c ldpcCW) Payload() content  { return contentOf(c.c.Symbol[:]) }
func (c ldpcCW) Clone() codeword {
	return ldpcCW{&ldpc.Codeword{Symbol: c.c.Symbol, Members: append([]uint32{}, c.c.Members...)}}
}
func (c ldpcCW) Corrupt(x content) codeword {
	n := c.Clone().(ldpcCW)
	for i, b := range bytesOf(x) {
		n.c.Symbol[i] ^= b
	}
	return n
}

type ldpcDec struct{ d *ldpc.Decoder }

func ldpcList(l []ldpc.DecodedTransaction) []decodedTx {
	var out []decodedTx
	for _, t := range l {
		out = append(out, decodedTx{contentOf(t.Serialized()), t.Transaction, t.Expired})
	}
	return out
}
func (d ldpcDec) AddCW(c codeword) (stub, []decodedTx) {
	s, l := d.d.AddCodeword(c.(ldpcCW).c)
	return s, ldpcList(l)
}
func (d ldpcDec) AddTx(tx any) []decodedTx {
	return ldpcList(d.d.AddTransaction(tx.(*ldpc.Transaction)))
}
func (d ldpcDec) Has(any) (bool, bool) { return false, false }
func (d ldpcDec) Received() (int, bool) {
	if r, ok := any(d.d).(interface{ NumTransactionsReceived() int }); ok {
		return r.NumTransactionsReceived(), true
	}
	return 0, false
}

var codecs = map[string]codec{
	"lt-val": ltCodec[valTx]{"lt-val", valOf, valRead, valMake}, "lt-ptr": ltCodec[*ptrTx]{"lt-ptr", ptrOf, ptrRead, ptrMake},
	"iblt-val": ibltCodec[valTx]{"iblt-val", valOf, valRead, valMake}, "iblt-ptr": ibltCodec[*ptrTx]{"iblt-ptr", ptrOf, ptrRead, ptrMake},
	"ldpc": ldpcCodec{},
}
var codecNames = []string{"lt-val", "ldpc", "lt-ptr", "iblt-val", "iblt-ptr"}

var _ = lt.SaltSize
var _ = iblt.SaltSize
var _ = unsafe.Pointer(nil)
