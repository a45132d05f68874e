package main

import (
	"encoding/binary"
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"sync/atomic"
)

type Kind int

const (
	KWriteBytes Kind = iota
	KReadBytes
	KWriteByte
	KReadByte
	KWriteT
	KReadT
	KReadBit
	KReadBits
	KSetBit
	KSetBits
	KFlipBit
	KClearAll
	KSetAll
	KFlipAll
	KSeek
	KSeekBit
	KAfter
	KAfterBit
	KAlignBit
	KAlignByte
	KTruncL
	KTruncR
	KGrow
	KRefresh
	KReset
	KPoke // not an operation: one byte of the contents changes through the internal slice
	nKinds
)

var kindNames = []string{"WriteBytes", "ReadBytes", "WriteByte", "ReadByte", "WriteT", "ReadT", "ReadBit", "ReadBits",
	"SetBit", "SetBits", "FlipBit", "ClearAllBits", "SetAllBits", "FlipAllBits", "Seek", "SeekBit", "After", "AfterBit",
	"AlignBit", "AlignByte", "TruncateLeft", "TruncateRight", "Grow", "Refresh", "Reset", "Bytes"}

// Op is one call on a buffer, in a form common to all targets.
type Op struct {
	K     Kind
	Next  bool     `json:",omitempty"` // the cursor-relative form
	Ty    string   `json:",omitempty"` // U, I, F for typed access
	W     int      `json:",omitempty"` // element size in bytes
	Ord   int      `json:",omitempty"` // 0 little, 1 big, 2.. custom (v1 only)
	Off   int64    `json:",omitempty"`
	N     int64    `json:",omitempty"` // count for reads, bits, grow, truncate
	Rel   bool     `json:",omitempty"` // relative seek; After*: use the argument
	Val   uint64   `json:",omitempty"` // bit value or bit field
	Vals  []uint64 `json:",omitempty"` // typed write: element patterns
	Data  []byte   `json:",omitempty"` // byte write
	Own   int64    `json:",omitempty"` // byte write: the data is the window of the buffer's own contents from Own-1
	Lead  int      `json:",omitempty"` // argument slice sits inside a larger array
	Tail  int      `json:",omitempty"`
	Prior uint64   `json:",omitempty"` // what out-parameters hold before the call
	Extra int      `json:",omitempty"` // further elements in the destination slice
	Odd   int      `json:",omitempty"` // v1: 1 wrong dynamic type, 2 nil data, 3 nil byte order, 4 byte order that panics
}

func (o *Op) isBit() bool { return o.K >= KReadBit && o.K <= KFlipBit }
func (o *Op) isAccess() bool {
	return o.K <= KFlipBit
}
func (o *Op) isRead() bool {
	return o.K == KReadBytes || o.K == KReadByte || o.K == KReadT || o.K == KReadBit || o.K == KReadBits
}

// count is the number of elements the access transfers.
func (o *Op) count() int64 {
	switch o.K {
	case KWriteBytes:
		return int64(len(o.Data))
	case KWriteT:
		return int64(len(o.Vals))
	case KReadBytes, KReadT, KReadBits, KSetBits:
		return o.N
	}
	return 1
}

// width is the size of one element in bytes (byte access) or bits (bit access).
func (o *Op) width() int64 {
	if o.K == KWriteT || o.K == KReadT {
		return int64(o.W)
	}
	return 1
}

func validSize(w int) bool { return w == 1 || w == 2 || w == 4 || w == 8 }

// method gives the name of the method of t that performs o, or "".
func (o *Op) method(t *Target) string {
	n := ""
	switch o.K {
	case KWriteT, KReadT:
		dir := "Write"
		if o.K == KReadT {
			dir = "Read"
		}
		if t.Ver == 1 {
			if o.Ty != "U" {
				return ""
			}
			n = dir + "Complex"
			break
		}
		if o.Ord > 1 || !validSize(o.W) || o.W == 1 {
			return ""
		}
		n = fmt.Sprintf("%s%s%d%s", dir, o.Ty, o.W*8, [2]string{"LE", "BE"}[o.Ord])
	case KSetBit:
		n = "SetBit"
		if t.Ver == 3 {
			switch o.Val {
			case 0:
				n = "ClearBit"
			case 1:
			default:
				return ""
			}
		}
	case KSeek:
		n = "Seek"
		if t.Ver == 3 {
			n = "SeekByte"
		}
	case KAfter:
		n = "After"
		if t.Ver == 3 {
			n = "AfterByte"
		}
	default:
		n = kindNames[o.K]
	}
	if o.Next {
		n += "Next"
	}
	if !t.Has(n) {
		return ""
	}
	return n
}

func (o *Op) String() string {
	var b strings.Builder
	switch o.K {
	case KWriteT, KReadT:
		ord := fmt.Sprint(o.Ord)
		if o.Ord < 2 {
			ord = [2]string{"LE", "BE"}[o.Ord]
		}
		fmt.Fprintf(&b, "%s%s%d/%s", map[Kind]string{KWriteT: "Write", KReadT: "Read"}[o.K], o.Ty, o.W*8, ord)
	default:
		b.WriteString(kindNames[o.K])
	}
	if o.Next {
		b.WriteString("Next")
	}
	b.WriteString("(")
	var a []string
	if o.isAccess() && !o.Next {
		a = append(a, fmt.Sprintf("off=%d", o.Off))
	}
	switch o.K {
	case KWriteBytes:
		if o.Own > 0 {
			a = append(a, fmt.Sprintf("len=%d data=contents[%d:%d] or %s", len(o.Data), o.Own-1, o.Own-1+int64(len(o.Data)), shortHex(o.Data)))
			break
		}
		a = append(a, fmt.Sprintf("len=%d data=%s", len(o.Data), shortHex(o.Data)))
	case KWriteT:
		a = append(a, fmt.Sprintf("len=%d vals=%s", len(o.Vals), shortVals(o.Vals)))
	case KWriteByte:
		a = append(a, fmt.Sprintf("%#02x", o.Val))
	case KReadBytes, KReadT, KReadBits:
		a = append(a, fmt.Sprintf("n=%d", o.N))
	case KSetBit:
		a = append(a, fmt.Sprintf("bit=%d", o.Val))
	case KSetBits:
		a = append(a, fmt.Sprintf("data=%#x n=%d", o.Val, o.N))
	case KSeek, KSeekBit:
		a = append(a, fmt.Sprintf("%d rel=%v", o.Off, o.Rel))
	case KAfter, KAfterBit:
		if o.Rel {
			a = append(a, fmt.Sprint(o.Off))
		}
	case KGrow, KTruncL, KTruncR:
		a = append(a, fmt.Sprint(o.N))
	case KPoke:
		b.Reset()
		fmt.Fprintf(&b, "Bytes()[%d] ^= %#02x", o.Off, byte(o.Val))
		return b.String()
	}
	b.WriteString(strings.Join(a, ", "))
	b.WriteString(")")
	return b.String()
}

func shortHex(d []byte) string {
	if len(d) > 32 {
		return fmt.Sprintf("%x...(%d bytes)", d[:32], len(d))
	}
	return fmt.Sprintf("%x", d)
}
func shortVals(d []uint64) string {
	if len(d) > 8 {
		return fmt.Sprintf("%x...(%d)", d[:8], len(d))
	}
	return fmt.Sprintf("%x", d)
}

// Res is everything a call was seen to do other than changing the buffer.
type Res struct {
	Panicked bool
	Panic    any
	U        uint64   // bit, field or byte read
	I        int64    // After*
	Vals     []uint64 // typed read: the element patterns
	Elem     string   // dynamic type of a typed read's result
	Raw      []byte   // byte read: the window returned (may alias)
	Bytes    []byte   // copy of Raw
	HasRes   bool

	ArgDamaged string // the call changed its argument or what surrounds it
	OutTail    string // the call changed destination elements it was not asked to
	typed      any    // the typed slice returned or filled, or passed in (unless part of the buffer)
}

// Subj is a live buffer under observation.
type Subj struct {
	T     *Target
	B     any
	rv    reflect.Value
	bytes any
	q     [4]any // offset, bit offset, capacity, bit capacity

	nobs atomic.Uint32

	// refOnly: windows returned by reference must not be looked at
	refOnly bool
}

func newSubj(t *Target, b any) *Subj {
	s := &Subj{T: t, B: b, rv: reflect.ValueOf(b)}
	s.bytes = s.m("Bytes")
	names := [4]string{"Offset", "BitOffset", "Capacity", "BitCapacity"}
	if t.Ver == 3 {
		names[0], names[2] = "ByteOffset", "ByteCapacity"
	}
	for i, n := range names {
		s.q[i] = s.m(n)
	}
	return s
}

func (s *Subj) m(name string) any {
	if !s.T.Has(name) {
		panic("the harness called a method " + s.T.ID + " does not have: " + name)
	}
	return s.rv.Method(s.T.idx[name]).Interface()
}

const garbage = int64(-0x5eed5eed5eed5eed)

func (s *Subj) query(i int) int64 {
	switch f := s.q[i].(type) {
	case func() int64:
		return f()
	case func(*int64):
		v := garbage
		f(&v)
		return v
	}
	panic("query type")
}

// live returns the buffer's live contents (aliasing).
func (s *Subj) live() []byte {
	switch f := s.bytes.(type) {
	case func() []byte:
		return f()
	case func(*[]byte):
		var v []byte
		switch n := s.nobs.Load(); {
		case n%32 == 1: // what the slice was before does not matter
			v = make([]byte, 3, 4096)
		case n%4 == 1:
			v = make([]byte, n%8, 64)
		}
		f(&v)
		return v
	}
	panic("bytes type")
}

// State is an observation of a buffer.
type State struct {
	Data                 []byte
	Off, Boff, Cap, Bcap int64
	live                 []byte
	out                  *outsideSnap
}

// observe asks for everything there is to ask for, in an order that differs from one
// observation to the next: no query may depend on another one having been made before it.
func (s *Subj) observe() *State {
	var (
		l []byte
		q [4]int64
		n = int(s.nobs.Add(1) - 1)
	)
	for j := 0; j < 5; j++ {
		k := n + j
		if n/5%2 == 1 {
			k = n + 5 - j
		}
		if k %= 5; k == 0 {
			l = s.live()
		} else {
			q[k-1] = s.query(k - 1)
		}
	}
	return &State{Data: append([]byte(nil), l...), Off: q[0], Boff: q[1], Cap: q[2], Bcap: q[3], live: l}
}

func (st *State) String() string {
	return fmt.Sprintf("{size=%d cap=%d bitcap=%d off=%d bitoff=%d data=%s}", len(st.Data), st.Cap, st.Bcap, st.Off, st.Boff, shortHex(st.Data))
}

func isRuntimeErr(v any) bool { _, ok := v.(runtime.Error); return ok }

// exec performs o on s. The caller has made sure that the method exists.
func (s *Subj) exec(o *Op) (r *Res) {
	r = &Res{}
	name := o.method(s.T)
	defer func() {
		if r.Panicked { // set just before the call, cleared just after it
			r.Panic = recover()
		}
	}()
	m := s.m(name)
	r.Panicked = true
	s.call(m, o, r)
	r.Panicked = false
	return
}

// call invokes m; everything that could panic on the harness's own account is
// done by code that cannot fail for well-formed ops.
func (s *Subj) call(m any, o *Op, r *Res) {
	switch o.K {
	case KWriteBytes:
		arg := s.own(o, len(o.Data))
		if arg == nil {
			var arena []byte
			arg, arena = mkArg[byte](bytesToVals(o.Data), o.Lead, o.Tail)
			defer checkArg(r, arg, arena, bytesToVals(o.Data), o.Lead)
			r.typed = arg
		}
		if f, ok := m.(func(int64, []byte)); ok {
			f(o.Off, arg)
		} else {
			m.(func([]byte))(arg)
		}
	case KReadBytes:
		prior := make([]byte, 3, 5)
		for i := range prior {
			prior[i] = byte(o.Prior>>8) + byte(i)
		}
		keep := append([]byte(nil), prior...)
		out := prior
		switch f := m.(type) {
		case func(int64, int64) []byte:
			out = f(o.Off, o.N)
		case func(int64) []byte:
			out = f(o.N)
		case func(*[]byte, int64, int64):
			f(&out, o.Off, o.N)
		case func(*[]byte, int64):
			f(&out, o.N)
		}
		if string(prior) != string(keep) {
			r.OutTail = "the elements of the slice previously held by the destination changed"
		}
		r.HasRes = true
		if s.refOnly {
			r.I = int64(len(out))
			return
		}
		r.Raw, r.Bytes = out, append([]byte{}, out...)
	case KWriteByte:
		if f, ok := m.(func(int64, byte)); ok {
			f(o.Off, byte(o.Val))
		} else {
			m.(func(byte))(byte(o.Val))
		}
	case KReadByte:
		if f, ok := m.(func(int64) byte); ok {
			r.U = uint64(f(o.Off))
		} else {
			r.U = uint64(m.(func() byte)())
		}
		r.HasRes = true
	case KWriteT:
		if s.T.Ver == 1 {
			s.writeComplex(m, o, r)
			return
		}
		switch o.Ty + fmt.Sprint(o.W) {
		case "U2":
			writeT[uint16](m, o, r)
		case "U4":
			writeT[uint32](m, o, r)
		case "U8":
			writeT[uint64](m, o, r)
		case "I2":
			writeT[int16](m, o, r)
		case "I4":
			writeT[int32](m, o, r)
		case "I8":
			writeT[int64](m, o, r)
		case "F4":
			writeT[float32](m, o, r)
		case "F8":
			writeT[float64](m, o, r)
		}
	case KReadT:
		if s.T.Ver == 1 {
			s.readComplex(m, o, r)
			return
		}
		switch o.Ty + fmt.Sprint(o.W) {
		case "U2":
			readT[uint16](m, o, r)
		case "U4":
			readT[uint32](m, o, r)
		case "U8":
			readT[uint64](m, o, r)
		case "I2":
			readT[int16](m, o, r)
		case "I4":
			readT[int32](m, o, r)
		case "I8":
			readT[int64](m, o, r)
		case "F4":
			readT[float32](m, o, r)
		case "F8":
			readT[float64](m, o, r)
		}
	case KReadBit:
		out := byte(o.Prior)
		switch f := m.(type) {
		case func(int64) byte:
			out = f(o.Off)
		case func() byte:
			out = f()
		case func(*byte, int64):
			f(&out, o.Off)
		case func(*byte):
			f(&out)
		}
		r.U, r.HasRes = uint64(out), true
	case KReadBits:
		out := o.Prior
		switch f := m.(type) {
		case func(int64, int64) uint64:
			out = f(o.Off, o.N)
		case func(int64) uint64:
			out = f(o.N)
		case func(*uint64, int64, int64):
			f(&out, o.Off, o.N)
		case func(*uint64, int64):
			f(&out, o.N)
		}
		r.U, r.HasRes = out, true
	case KSetBit:
		switch f := m.(type) {
		case func(int64, byte):
			f(o.Off, byte(o.Val))
		case func(byte):
			f(byte(o.Val))
		case func(int64):
			f(o.Off)
		case func():
			f()
		}
	case KSetBits:
		switch f := m.(type) {
		case func(int64, uint64, int64):
			f(o.Off, o.Val, o.N)
		case func(uint64, int64):
			f(o.Val, o.N)
		}
	case KFlipBit:
		if f, ok := m.(func(int64)); ok {
			f(o.Off)
		} else {
			m.(func())()
		}
	case KSeek, KSeekBit:
		m.(func(int64, bool))(o.Off, o.Rel)
	case KAfter, KAfterBit:
		// the list of arguments has spare room with something in it
		var a []int64
		if room := [4]int64{1, 2, 3, 4}; o.Prior%3 > 0 {
			a = room[:0]
		}
		if o.Rel {
			a = append(a, o.Off)
		}
		out := int64(o.Prior)
		switch f := m.(type) {
		case func(...int64) int64:
			out = f(a...)
		case func(*int64, ...int64):
			f(&out, a...)
		}
		r.I, r.HasRes = out, true
	case KGrow, KTruncL, KTruncR:
		m.(func(int64))(o.N)
	case KPoke:
		if l := s.live(); o.Off >= 0 && o.Off < int64(len(l)) {
			l[o.Off] ^= byte(o.Val)
		}
	default:
		m.(func())()
	}
}

// own is the window of the buffer's contents that o writes back, if it does.
func (s *Subj) own(o *Op, n int) []byte {
	if o.Own == 0 || n == 0 {
		return nil
	}
	l := s.live()
	if o.Own < 1 || !inRange(o.Own-1, int64(n), 1, int64(len(l))) {
		return nil
	}
	return l[o.Own-1 : o.Own-1+int64(n)]
}

func bytesToVals(d []byte) []uint64 {
	v := make([]uint64, len(d))
	for i, x := range d {
		v[i] = uint64(x)
	}
	return v
}

func checkArg[T any](r *Res, arg, arena []T, vals []uint64, lead int) {
	lift(arena)
	for i := range arg {
		w := vals[i]
		var z T
		putPat(&z, w)
		if getPat(&arg[i]) != getPat(&z) {
			r.ArgDamaged = fmt.Sprintf("element %d of the data passed in changed", i)
			return
		}
	}
	for i := range arena {
		if i >= lead && i < lead+len(arg) {
			continue
		}
		var z T
		putPat(&z, 0xA5C3A5C3A5C3A5C3+uint64(i)*0x0101)
		if getPat(&arena[i]) != getPat(&z) {
			r.ArgDamaged = fmt.Sprintf("memory beside the data passed in changed (element %d)", i-lead)
			return
		}
	}
}

func writeT[T any](m any, o *Op, r *Res) {
	arg, arena := mkArg[T](o.Vals, o.Lead, o.Tail)
	defer checkArg(r, arg, arena, o.Vals, o.Lead)
	r.typed = arg
	if f, ok := m.(func(int64, []T)); ok {
		f(o.Off, arg)
	} else {
		m.(func([]T))(arg)
	}
}

const maxDest = 1 << 24

func readT[T any](m any, o *Op, r *Res) {
	var out []T
	switch f := m.(type) {
	case func(int64, int64) []T:
		out = f(o.Off, o.N)
	case func(int64) []T:
		out = f(o.N)
	default:
		n := o.N
		if n < 0 || n > maxDest {
			n = 0
		}
		ln := int(n) + o.Extra
		arena := newArena[T](o.Lead + ln + o.Tail)
		prior := func(i int) uint64 { return o.Prior*0x9E3779B97F4A7C15 + uint64(i)*0xD1B54A32D192ED03 }
		for i := range arena {
			putPat(&arena[i], prior(i))
		}
		dest := arena[o.Lead : o.Lead+ln : o.Lead+ln+o.Tail]
		out = dest
		fence(arena, dest)
		defer func() {
			lift(arena)
			for i := range arena {
				if i >= o.Lead && i < o.Lead+int(n) {
					continue
				}
				var z T
				putPat(&z, prior(i))
				if getPat(&arena[i]) != getPat(&z) {
					r.OutTail = fmt.Sprintf("destination element %d (of %d requested) changed", i-o.Lead, n)
				}
			}
		}()
		switch f := m.(type) {
		case func(*[]T, int64, int64):
			f(&out, o.Off, o.N)
		case func(*[]T, int64):
			f(&out, o.N)
		}
		if len(out) != ln || (ln > 0 && &out[0] != &dest[0]) {
			r.OutTail = fmt.Sprintf("the destination slice itself was replaced (length %d, was %d)", len(out), ln)
		}
		if len(out) > int(n) {
			out = out[:n]
		}
	}
	r.Vals, r.HasRes, r.Elem, r.typed = pats(out), true, fmt.Sprintf("%T", out), out
}

func (s *Subj) writeComplex(m any, o *Op, r *Res) {
	var arg any
	var fin func()
	switch o.W {
	case 2:
		a, ar := mkArg[uint16](o.Vals, o.Lead, o.Tail)
		arg, fin = a, func() { checkArg(r, a, ar, o.Vals, o.Lead) }
	case 4:
		a, ar := mkArg[uint32](o.Vals, o.Lead, o.Tail)
		arg, fin = a, func() { checkArg(r, a, ar, o.Vals, o.Lead) }
	case 8:
		a, ar := mkArg[uint64](o.Vals, o.Lead, o.Tail)
		arg, fin = a, func() { checkArg(r, a, ar, o.Vals, o.Lead) }
	default:
		if w := s.own(o, len(o.Vals)); w != nil {
			arg, fin = w, func() {}
			break
		}
		a, ar := mkArg[uint8](o.Vals, o.Lead, o.Tail)
		arg, fin = a, func() { checkArg(r, a, ar, o.Vals, o.Lead) }
	}
	if o.W != 1 || s.own(o, len(o.Vals)) == nil {
		r.typed = arg
	}
	switch o.Odd {
	case 1:
		arg = []int16{1, 2}
	case 2:
		arg = nil
	}
	defer fin()
	callV1Write(m, o, arg)
}

func (s *Subj) readComplex(m any, o *Op, r *Res) {
	var out any
	if o.Prior != 0 {
		out = []uint16{uint16(o.Prior), 7, 9}
	}
	prior := out
	out = callV1Read(m, o, out)
	if p, ok := prior.([]uint16); ok && (p[0] != uint16(o.Prior) || p[1] != 7 || p[2] != 9) {
		r.OutTail = "the elements of the slice previously held by the destination changed"
	}
	r.HasRes, r.Elem, r.typed = true, fmt.Sprintf("%T", out), out
	switch v := out.(type) {
	case []uint8:
		if s.refOnly {
			r.I = int64(len(v))
			return
		}
		r.Vals, r.Raw = pats(v), v
	case []uint16:
		r.Vals = pats(v)
	case []uint32:
		r.Vals = pats(v)
	case []uint64:
		r.Vals = pats(v)
	}
}

var _ binary.ByteOrder = strictOrder{}
