package main

import (
	"encoding/binary"
	"reflect"
	"unsafe"

	v1 "github.com/superwhiskers/crunch/v1"
	v2 "github.com/superwhiskers/crunch/v2"
	v3 "github.com/superwhiskers/crunch/v3"
)

// Target is one implementation of the buffer contract.
type Target struct {
	ID   string
	Ver  int
	Mini bool
	New  func(slices ...[]byte) any
	Into func(prev any, slices ...[]byte) any // Mini only: construct into a variable that already holds prev

	Overread, Underread, Overwrite, Underwrite any
	InvalidBit, InvalidSize, InvalidCount      any

	idx map[string]int // method name -> index
}

func (t *Target) Conc() bool { return t.Ver < 3 && !t.Mini }
func (t *Target) Has(m string) bool {
	_, ok := t.idx[m]
	return ok
}

var targets []*Target

func addTarget(t *Target, sample any) *Target {
	t.idx = map[string]int{}
	rt := reflect.TypeOf(sample)
	for i := 0; i < rt.NumMethod(); i++ {
		t.idx[rt.Method(i).Name] = i
	}
	return t
}

func init() {
	targets = append(targets,
		addTarget(&Target{ID: "v1.Buffer", Ver: 1,
			New:      func(s ...[]byte) any { return v1.NewBuffer(s...) },
			Overread: v1.BufferOverreadError, Underread: v1.BufferUnderreadError,
			Overwrite: v1.BufferOverwriteError, Underwrite: v1.BufferUnderwriteError,
			InvalidBit: v1.BufferInvalidBitError, InvalidSize: v1.BufferInvalidIntegerSizeError,
			InvalidCount: v1.BufferInvalidByteCountError}, (*v1.Buffer)(nil)),
		addTarget(&Target{ID: "v1.MiniBuffer", Ver: 1, Mini: true,
			New: func(s ...[]byte) any { var b *v1.MiniBuffer; v1.NewMiniBuffer(&b, s...); return b },
			Into: func(p any, s ...[]byte) any {
				b := p.(*v1.MiniBuffer)
				v1.NewMiniBuffer(&b, s...)
				return b
			},
			InvalidBit: v1.BufferInvalidBitError, InvalidSize: v1.BufferInvalidIntegerSizeError}, (*v1.MiniBuffer)(nil)),
		addTarget(&Target{ID: "v2.Buffer", Ver: 2,
			New:      func(s ...[]byte) any { return v2.NewBuffer(s...) },
			Overread: v2.BufferOverreadError, Underread: v2.BufferUnderreadError,
			Overwrite: v2.BufferOverwriteError, Underwrite: v2.BufferUnderwriteError,
			InvalidBit: v2.BufferInvalidBitError, InvalidCount: v2.BufferInvalidByteCountError}, (*v2.Buffer)(nil)),
		addTarget(&Target{ID: "v2.MiniBuffer", Ver: 2, Mini: true,
			New: func(s ...[]byte) any { var b *v2.MiniBuffer; v2.NewMiniBuffer(&b, s...); return b },
			Into: func(p any, s ...[]byte) any {
				b := p.(*v2.MiniBuffer)
				v2.NewMiniBuffer(&b, s...)
				return b
			},
			InvalidBit: v2.BufferInvalidBitError}, (*v2.MiniBuffer)(nil)),
		addTarget(&Target{ID: "v3.Buffer", Ver: 3,
			New:      func(s ...[]byte) any { return v3.NewBuffer(s...) },
			Overread: v3.BufferOverreadError, Underread: v3.BufferUnderreadError,
			Overwrite: v3.BufferOverwriteError, Underwrite: v3.BufferUnderwriteError,
			InvalidCount: v3.BufferInvalidByteCountError}, (*v3.Buffer)(nil)),
		addTarget(&Target{ID: "v3.MiniBuffer", Ver: 3, Mini: true,
			New: func(s ...[]byte) any { var b *v3.MiniBuffer; v3.NewMiniBuffer(&b, s...); return b },
			Into: func(p any, s ...[]byte) any {
				b := p.(*v3.MiniBuffer)
				v3.NewMiniBuffer(&b, s...)
				return b
			}}, (*v3.MiniBuffer)(nil)),
	)
}

func targetByID(id string) *Target {
	for _, t := range targets {
		if t.ID == id {
			return t
		}
	}
	for _, t := range extraTargets {
		if t.ID == id {
			return t
		}
	}
	panic("no target " + id)
}

// extraTargets holds the regenerated third version when it is linked in.
var extraTargets []*Target

// ---- byte orders for the v1 typed access ----

type mixedOrder struct{ k int }

// its name says nothing about what it does
func (o mixedOrder) String() string { return [2]string{"BigEndian", "LittleEndian"}[o.k%2] }

// perm gives, for width w and order k, the destination byte of source byte i
// and an xor mask, so that the encoding is a bijection that is neither of the
// two usual orders.
func (o mixedOrder) put(b []byte, v uint64, w int) {
	_ = b[w-1]
	if o.k >= nOrders && mimics[o.k-nOrders].high != 0 {
		for i := 0; i < w; i++ {
			b[o.pos(i, w)] = high(byte(v >> (8 * uint(i))))
		}
		return
	}
	for i := 0; i < w; i++ {
		b[o.pos(i, w)] = byte(v>>(8*uint(i))) ^ o.mask(i)
	}
}
func (o mixedOrder) get(b []byte, w int) (v uint64) {
	_ = b[w-1]
	if o.k >= nOrders && mimics[o.k-nOrders].high != 0 {
		for i := 0; i < w; i++ {
			v |= uint64(high(b[o.pos(i, w)])) << (8 * uint(i))
		}
		return
	}
	for i := 0; i < w; i++ {
		v |= uint64(b[o.pos(i, w)]^o.mask(i)) << (8 * uint(i))
	}
	return
}
func (o mixedOrder) pos(i, w int) int {
	if o.k == 2 { // middle-endian: swap bytes inside 16-bit words of a big-endian number
		return (w - 1 - i) ^ 1
	}
	if o.k >= nOrders { // one that looks like a usual order as long as one does not look closely
		m := mimics[o.k-nOrders]
		how := m.narrow
		if w > m.upTo {
			how = m.wide
		}
		switch how {
		case 'b':
			return w - 1 - i
		case 'B': // the halves of a big-endian number swapped
			return (w - 1 - i) ^ w/2
		case 'L':
			return i ^ w/2
		}
		return i
	}
	return (i + w/2 + 1) % w
}
func (o mixedOrder) mask(i int) byte {
	if o.k == 2 || o.k >= nOrders {
		return 0
	}
	return byte(0x5A + 7*i)
}
func (o mixedOrder) Uint16(b []byte) uint16       { return uint16(o.get(b, 2)) }
func (o mixedOrder) Uint32(b []byte) uint32       { return uint32(o.get(b, 4)) }
func (o mixedOrder) Uint64(b []byte) uint64       { return o.get(b, 8) }
func (o mixedOrder) PutUint16(b []byte, v uint16) { o.put(b, uint64(v), 2) }
func (o mixedOrder) PutUint32(b []byte, v uint32) { o.put(b, uint64(v), 4) }
func (o mixedOrder) PutUint64(b []byte, v uint64) { o.put(b, v, 8) }

// strictOrder is the big-endian order, but it insists on the slice it is
// handed having exactly the element's width (an implementation may do so).
type strictOrder struct{}

func (strictOrder) String() string { return "strict" }
func chk(b []byte, w int) []byte {
	if len(b) < w {
		panic("byte order handed a short slice")
	}
	return b
}
func (strictOrder) Uint16(b []byte) uint16       { return binary.BigEndian.Uint16(chk(b, 2)) }
func (strictOrder) Uint32(b []byte) uint32       { return binary.BigEndian.Uint32(chk(b, 4)) }
func (strictOrder) Uint64(b []byte) uint64       { return binary.BigEndian.Uint64(chk(b, 8)) }
func (strictOrder) PutUint16(b []byte, v uint16) { binary.BigEndian.PutUint16(chk(b, 2), v) }
func (strictOrder) PutUint32(b []byte, v uint32) { binary.BigEndian.PutUint32(chk(b, 4), v) }
func (strictOrder) PutUint64(b []byte, v uint64) { binary.BigEndian.PutUint64(chk(b, 8), v) }

const nOrders = 5

// mimics are further orders, numbered from nOrders on: little or big endian (l, b) up to
// some width, and something else (l, b, or with the halves swapped: L, B) for wider
// elements; or a usual order for small bytes only.
var mimics = []struct {
	narrow byte
	upTo   int
	wide   byte
	high   byte
	form   byte // what type implements it: 0 a struct, s one that cannot be compared, p a pointer, c a slice, n the order of the machine
}{{'l', 2, 'L', 0, 0}, {'b', 2, 'B', 0, 0}, {'l', 4, 'L', 0, 0}, {'b', 4, 'B', 0, 0}, {'l', 2, 'b', 0, 0}, {'b', 2, 'l', 0, 0},
	{'l', 4, 'b', 0, 0}, {'b', 4, 'l', 0, 0}, {'b', 1, 'l', 0, 0}, {'l', 8, 'l', 1, 0}, {'b', 8, 'b', 1, 0},
	{'l', 8, 'l', 0, 's'}, {'b', 8, 'b', 0, 's'}, {'l', 8, 'l', 0, 'p'}, {'b', 8, 'b', 0, 'p'}, {'b', 2, 'B', 0, 'p'}, {'b', 8, 'b', 0, 'c'}, {'l', 4, 'L', 0, 'c'}, {'l', 8, 'l', 0, 'n'}}

// funcOrder cannot be compared or be a map key.
type funcOrder struct {
	binary.ByteOrder
	f func() []byte
}

// sliceOrder cannot either.
type sliceOrder []mixedOrder

func (o sliceOrder) String() string               { return "slice" }
func (o sliceOrder) Uint16(b []byte) uint16       { return o[0].Uint16(b) }
func (o sliceOrder) Uint32(b []byte) uint32       { return o[0].Uint32(b) }
func (o sliceOrder) Uint64(b []byte) uint64       { return o[0].Uint64(b) }
func (o sliceOrder) PutUint16(b []byte, v uint16) { o[0].PutUint16(b, v) }
func (o sliceOrder) PutUint32(b []byte, v uint32) { o[0].PutUint32(b, v) }
func (o sliceOrder) PutUint64(b []byte, v uint64) { o[0].PutUint64(b, v) }

// high exchanges bytes from 32 up in pairs.
func high(x byte) byte {
	if x >= 0x20 {
		x ^= 0x0F
	}
	return x
}

func (o *Op) order() binary.ByteOrder {
	switch o.Odd {
	case 3:
		return nil
	case 4:
		return panicOrder{}
	}
	return order(o.Ord)
}

// panicOrder refuses to encode or decode anything.
type panicOrder struct{}

func (panicOrder) String() string           { return "panicking" }
func (panicOrder) Uint16([]byte) uint16     { panic("byte order") }
func (panicOrder) Uint32([]byte) uint32     { panic("byte order") }
func (panicOrder) Uint64([]byte) uint64     { panic("byte order") }
func (panicOrder) PutUint16([]byte, uint16) { panic("byte order") }
func (panicOrder) PutUint32([]byte, uint32) { panic("byte order") }
func (panicOrder) PutUint64([]byte, uint64) { panic("byte order") }

func order(k int) binary.ByteOrder {
	switch k {
	case 0:
		return v1.LittleEndian
	case 1:
		return v1.BigEndian
	case 4:
		return strictOrder{}
	}
	m := mixedOrder{k}
	if k >= nOrders {
		switch mimics[k-nOrders].form {
		case 's':
			return funcOrder{m, nil}
		case 'p':
			return &m
		case 'c':
			return sliceOrder{m}
		case 'n':
			return binary.NativeEndian
		}
	}
	return m
}

// encode/decode are the oracle's own codec (independent of the code under test).
func encode(dst []byte, v uint64, w, ord int) {
	switch ord {
	case 0:
		for i := 0; i < w; i++ {
			dst[i] = byte(v >> (8 * uint(i)))
		}
	case 1, 4:
		for i := 0; i < w; i++ {
			dst[w-1-i] = byte(v >> (8 * uint(i)))
		}
	default:
		mixedOrder{ord}.put(dst, v, w)
	}
}
func decode(src []byte, w, ord int) (v uint64) {
	switch ord {
	case 0:
		for i := 0; i < w; i++ {
			v |= uint64(src[i]) << (8 * uint(i))
		}
	case 1, 4:
		for i := 0; i < w; i++ {
			v |= uint64(src[w-1-i]) << (8 * uint(i))
		}
	default:
		v = mixedOrder{ord}.get(src, w)
	}
	return
}

// ---- typed slices from and to bit patterns ----

// putPat stores pattern v into *p without going through a conversion that
// could change a signalling NaN.
func putPat[T any](p *T, v uint64) {
	switch unsafe.Sizeof(*p) {
	case 1:
		*(*uint8)(unsafe.Pointer(p)) = uint8(v)
	case 2:
		*(*uint16)(unsafe.Pointer(p)) = uint16(v)
	case 4:
		*(*uint32)(unsafe.Pointer(p)) = uint32(v)
	case 8:
		*(*uint64)(unsafe.Pointer(p)) = v
	}
}
func getPat[T any](p *T) uint64 {
	switch unsafe.Sizeof(*p) {
	case 1:
		return uint64(*(*uint8)(unsafe.Pointer(p)))
	case 2:
		return uint64(*(*uint16)(unsafe.Pointer(p)))
	case 4:
		return uint64(*(*uint32)(unsafe.Pointer(p)))
	}
	return *(*uint64)(unsafe.Pointer(p))
}
func pats[T any](s []T) []uint64 {
	out := make([]uint64, len(s))
	for i := range s {
		out[i] = getPat(&s[i])
	}
	return out
}

// mkArg makes the argument slice for vals, inside an array with lead elements
// before and tail elements after it that must not change.
func mkArg[T any](vals []uint64, lead, tail int) (arg, arena []T) {
	arena = newArena[T](lead + len(vals) + tail)
	for i := range arena {
		putPat(&arena[i], 0xA5C3A5C3A5C3A5C3+uint64(i)*0x0101)
	}
	arg = arena[lead : lead+len(vals) : lead+len(vals)+tail]
	for i := range vals {
		putPat(&arg[i], vals[i])
	}
	fence(arena, arg)
	lockArgs(true)
	return
}
