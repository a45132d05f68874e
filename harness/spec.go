package main

import (
	"math"
	"math/bits"
)

// Exp is what the contract says about one operation on one state.
type Exp struct {
	Unspec    bool // the contract says nothing (or the harness has no use for it)
	Refuse    bool // must panic
	Errs      []any
	RefuseAny bool // any panic value is a refusal

	Data      []byte // contents afterwards
	Changed   bool   // Data differs in storage from the previous contents slice
	Off, Boff int64
	HasRes    bool
	U         uint64
	I         int64
	Vals      []uint64
	Bytes     []byte
	Elem      string // v1: dynamic type of the result
	Zero      bool   // a legal zero-length access
	Lo, Hi    int64  // byte range the access addresses (bit range for bit access)
}

// addFits reports whether [off, off+n*w) lies in [0,size).
func inRange(off, n, w, size int64) bool {
	return off >= 0 && n >= 0 && off <= size && n <= (size-off)/w
}

// exceeds reports whether off+n*w > size in exact arithmetic, n >= 0, w > 0.
func exceeds(off, n, w, size int64) bool {
	hi, lo := bits.Mul64(uint64(n), uint64(w))
	if hi != 0 || lo > math.MaxInt64 {
		// n*w >= 2^63; only an extremely negative offset could bring it back,
		// and then the under-error is accepted as well
		return true
	}
	p := int64(lo)
	if off > 0 && p > math.MaxInt64-off {
		return true
	}
	return off+p > size
}

func elemType(w int) string {
	return map[int]string{1: "[]uint8", 2: "[]uint16", 4: "[]uint32", 8: "[]uint64"}[w]
}

const hugeAmount = 1 << 61

// spec gives the contract's demand for o on a buffer of type t in state pre.
func spec(t *Target, pre *State, o *Op) (e *Exp) {
	e = &Exp{Data: pre.Data, Off: pre.Off, Boff: pre.Boff}
	size := int64(len(pre.Data))
	if o.Odd != 0 {
		e.Unspec = true
		return
	}
	if o.isAccess() {
		return specAccess(t, pre, o, e, size)
	}
	switch o.K {
	case KClearAll, KSetAll, KFlipAll:
		e.Data = append([]byte(nil), pre.Data...)
		for i := range e.Data {
			switch o.K {
			case KClearAll:
				e.Data[i] = 0
			case KSetAll:
				e.Data[i] = 0xFF
			default:
				e.Data[i] = ^e.Data[i]
			}
		}
	case KSeek:
		v, ok := seek(pre.Off, o)
		e.Off, e.Unspec = v, !ok
	case KSeekBit:
		v, ok := seek(pre.Boff, o)
		e.Boff, e.Unspec = v, !ok
	case KAfter:
		p := pre.Off
		if o.Rel {
			p = o.Off
		}
		e.HasRes = true
		e.I, e.Unspec = after(size, p)
	case KAfterBit:
		p := pre.Boff
		if o.Rel {
			p = o.Off
		}
		e.HasRes = true
		e.I, e.Unspec = after(size*8, p)
	case KAlignBit:
		if pre.Off > math.MaxInt64/8 || pre.Off < math.MinInt64/8 {
			e.Unspec = true
		}
		e.Boff = pre.Off * 8
	case KAlignByte:
		e.Unspec = pre.Boff < 0
		e.Off = pre.Boff / 8
	case KTruncL, KTruncR:
		if o.N < 0 || o.N > size {
			if t.Mini {
				e.Unspec = true
			}
			e.Refuse, e.RefuseAny = true, true
			return
		}
		if o.K == KTruncL {
			e.Data = pre.Data[o.N:]
		} else {
			e.Data = pre.Data[:size-o.N]
		}
	case KGrow:
		if o.N < 0 || o.N >= hugeAmount {
			if t.Mini {
				e.Unspec = true
			}
			e.Refuse, e.RefuseAny = true, true
			return
		}
		if o.N > 1<<27 {
			e.Unspec = true
			return
		}
		e.Data = make([]byte, size+o.N)
		copy(e.Data, pre.Data)
	case KPoke:
		if o.Off >= 0 && o.Off < size {
			e.Data = append([]byte(nil), pre.Data...)
			e.Data[o.Off] ^= byte(o.Val)
		}
	case KRefresh:
	case KReset:
		e.Data, e.Off, e.Boff = nil, 0, 0
	}
	return
}

func after(size, p int64) (int64, bool) {
	if p < math.MinInt64/2 {
		return 0, true
	}
	return size - p - 1, false
}

func seek(cur int64, o *Op) (int64, bool) {
	if !o.Rel {
		return o.Off, true
	}
	v := cur + o.Off
	if (o.Off > 0) != (v > cur) && o.Off != 0 {
		return v, false
	}
	return v, true
}

func specAccess(t *Target, pre *State, o *Op, e *Exp, size int64) *Exp {
	n, w := o.count(), o.width()
	bit := o.isBit()
	off, lim := o.Off, size
	if o.Next {
		off = pre.Off
	}
	if bit {
		lim = size * 8
		if o.Next {
			off = pre.Boff
		}
	}
	over, under := t.Overread, t.Underread
	if !o.isRead() {
		over, under = t.Overwrite, t.Underwrite
	}
	// arguments that are wrong whatever the position
	invalid := false
	if o.K == KSetBit && o.Val > 1 {
		invalid = true
		e.Errs = append(e.Errs, t.InvalidBit)
	}
	if (o.K == KWriteT || o.K == KReadT) && !validSize(o.W) {
		e.Refuse, e.Errs = true, append(e.Errs, t.InvalidSize)
		if off < 0 || off > size || n < 0 || n > size-off {
			// an invalid size is refused where the operands are otherwise
			// usable; elsewhere there is more than one reason to refuse
			e.Unspec = true
		}
		return e
	}
	if bit && (n > 64 || n < 0) {
		e.Unspec = true
		return e
	}
	if n < 0 || n > 0 && !inRange(off, n, w, lim) {
		if t.Mini {
			e.Unspec = true
			return e
		}
		e.Refuse = true
		if n < 0 {
			// refused; the documentation does not say with which of its errors
			e.Errs = append(e.Errs, over, under, t.InvalidCount)
			return e
		}
		if off < 0 {
			e.Errs = append(e.Errs, under)
		}
		if exceeds(off, n, w, lim) {
			e.Errs = append(e.Errs, over)
		}
		return e
	}
	if n == 0 {
		if off < 0 || off > lim {
			e.Unspec = true
			return e
		}
		e.Zero = true
	}
	if invalid {
		e.Refuse = true
		return e
	}
	e.Lo, e.Hi = off, off+n*w
	if o.Next {
		if bit {
			e.Boff = pre.Boff + n
		} else {
			e.Off = pre.Off + n*w
		}
	}
	mut := func() []byte {
		if !e.Changed {
			e.Data = append([]byte(nil), pre.Data...)
			e.Changed = true
		}
		return e.Data
	}
	switch o.K {
	case KWriteBytes:
		src := o.Data
		if o.Own > 0 && n > 0 && inRange(o.Own-1, n, 1, size) {
			src = pre.Data[o.Own-1 : o.Own-1+n]
		}
		copy(mut()[off:], src)
	case KReadBytes:
		e.HasRes = true
		e.Bytes = pre.Data[off : off+n]
	case KWriteByte:
		mut()[off] = byte(o.Val)
	case KReadByte:
		e.HasRes = true
		e.U = uint64(pre.Data[off])
	case KWriteT:
		d := mut()
		if o.W == 1 && o.Own > 0 && n > 0 && inRange(o.Own-1, n, 1, size) {
			copy(d[off:], pre.Data[o.Own-1:o.Own-1+n])
			break
		}
		for i, v := range o.Vals {
			encode(d[off+int64(i)*w:off+int64(i+1)*w], v, o.W, o.Ord)
		}
	case KReadT:
		e.HasRes = true
		e.Vals = make([]uint64, n)
		for i := range e.Vals {
			e.Vals[i] = decode(pre.Data[off+int64(i)*w:off+int64(i+1)*w], o.W, o.Ord)
		}
		e.Elem = elemType(o.W)
	case KReadBit:
		e.HasRes = true
		e.U = uint64(getBit(pre.Data, off))
	case KReadBits:
		e.HasRes = true
		for i := int64(0); i < n; i++ {
			e.U = e.U<<1 | uint64(getBit(pre.Data, off+i))
		}
	case KSetBit:
		setBit(mut(), off, byte(o.Val))
	case KSetBits:
		d := mut()
		for i := int64(0); i < n; i++ {
			setBit(d, off+i, byte(o.Val>>uint(n-1-i))&1)
		}
	case KFlipBit:
		d := mut()
		d[off>>3] ^= 0x80 >> uint(off&7)
	}
	return e
}

func getBit(d []byte, p int64) byte { return d[p>>3] >> uint(7-p&7) & 1 }
func setBit(d []byte, p int64, v byte) {
	m := byte(0x80) >> uint(p&7)
	if v != 0 {
		d[p>>3] |= m
	} else {
		d[p>>3] &^= m
	}
}
