package main

import (
	"fmt"
	"math"
	"math/rand"
	"unsafe"
)

// SliceInit describes one slice handed to the constructor: a window of a
// larger array, so that neighbours and spare capacity can be watched.
type SliceInit struct {
	Len, Spare, Lead, Trail int
	Seed                    uint64
	Mode                    int // 0 random, 1 zero, 2 ones, 3 ramp, 4 special floats
	Nil                     bool
	Of                      int `json:",omitempty"` // a window of the array behind the Of-th slice (from 1)
}

// Case is a self-contained, replayable test: a buffer and a history.
type Case struct {
	Target  string
	Init    []SliceInit
	Around  uint64 // seed of the memory around the slices
	Ops     []*Op
	Targets []string         `json:",omitempty"` // lock step: the implementations compared
	Aux     map[string]int64 `json:",omitempty"`
}

type built struct {
	subj   *Subj
	arenas [][]byte
	slices [][]byte

	damaged string // what creating the buffer did to the argument list
}

func fillByte(si *SliceInit, i int) byte {
	switch si.Mode {
	case 1:
		return 0
	case 2:
		return 0xFF
	case 3:
		return byte(i*7 + int(si.Seed))
	case 4:
		p := specialFloats[int((si.Seed+uint64(i/8))%uint64(len(specialFloats)))]
		return byte(p >> (8 * uint(i%8)))
	}
	return byte(mix(si.Seed, uint64(i)))
}

func mix(a, b uint64) uint64 {
	x := a*0x9E3779B97F4A7C15 + b*0xBF58476D1CE4E5B9 + 0x94D049BB133111EB
	x ^= x >> 30
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 27
	x *= 0x94D049BB133111EB
	return x ^ x>>31
}

func (c *Case) build() *built { return c.buildFor(targetByID(c.Target), c.Around) }

func (c *Case) slices(around uint64) (arenas, slices [][]byte) {
	for k := range c.Init {
		si := &c.Init[k]
		if si.Nil {
			arenas = append(arenas, nil)
			slices = append(slices, nil)
			continue
		}
		if si.Of > 0 && si.Of <= len(arenas) && arenas[si.Of-1] != nil { // contents as they are
			a := arenas[si.Of-1]
			lo := min(si.Lead, len(a))
			hi := min(lo+si.Len, len(a))
			arenas, slices = append(arenas, nil), append(slices, a[lo:hi:min(hi+si.Spare, len(a))])
			continue
		}
		a := guarded(k+1, si.Lead+si.Len+si.Spare+si.Trail)
		if a == nil {
			a = make([]byte, si.Lead+si.Len+si.Spare+si.Trail)
		}
		for i := range a {
			a[i] = byte(mix(around+uint64(k), uint64(i)))
		}
		s := a[si.Lead : si.Lead+si.Len : si.Lead+si.Len+si.Spare]
		for i := range s {
			s[i] = fillByte(si, i)
		}
		arenas, slices = append(arenas, a), append(slices, s)
	}
	// the argument list has spare room of its own, full of slices that were not passed
	if k := mix(around, 0x5107) % 4; len(c.Init) > 0 && k > 0 {
		list := make([][]byte, len(slices)+int(k))
		for i := copy(list, slices); i < len(list); i++ {
			list[i] = strays[i%len(strays)]
		}
		slices = list[:len(slices)]
	}
	return
}

// strays are slices that lie in an argument list's spare room; nothing writes to them.
var strays = [][]byte{{0xC3, 0x5A, 0x99}, {}, nil, {0x77}}

func (c *Case) buildFor(t *Target, around uint64) *built {
	b := &built{}
	b.arenas, b.slices = c.slices(around)
	list := b.slices[:cap(b.slices)]
	headers := append([][]byte(nil), list...)
	b.subj = newSubj(t, t.New(b.slices...))
	for i, x := range headers {
		if len(x) != len(list[i]) || cap(x) != cap(list[i]) || unsafe.SliceData(x) != unsafe.SliceData(list[i]) {
			b.damaged = fmt.Sprintf("slice %d of the argument list was replaced", i)
		}
	}
	b.subj.nobs.Store(uint32(mix(around, 0x0b5) % 10))
	return b
}

// ---- values ----

var specialFloats = []uint64{
	0, 1 << 63, math.Float64bits(1), math.Float64bits(-1), 0x7FF0000000000000, 0xFFF0000000000000,
	0x7FF0000000000001, 0xFFF0000000000001, 0x7FF8000000000000, 0x7FF8DEADBEEF1234, 0xFFF8000000000001,
	0x7FF7FFFFFFFFFFFF, 0xFFFFFFFFFFFFFFFF, 1, 0x000FFFFFFFFFFFFF, 0x0010000000000000, 0x7FEFFFFFFFFFFFFF,
	0x7F800000, 0xFF800000, 0x7F800001, 0xFF800001, 0x7FA00001, 0x7FC00000, 0x7FC12345, 0xFFC54321, 0xFFBFFFFF,
	0x80000000, 0x00000001, 0x007FFFFF, 0x00800000, 0x7F7FFFFF, 0x3F800000, 0x40490FDB,
}

var boundaryVals = []uint64{0, 1, 2, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000,
	0xFFFFFFFF, 0x100000000, 0x7FFFFFFFFFFFFFFF, 0x8000000000000000, 0xFFFFFFFFFFFFFFFF, 0x0102030405060708, 0x8182838485868788,
	0xAAAAAAAAAAAAAAAA, 0x5555555555555555, 0xFEDCBA9876543210, 0xDEADBEEF, 0xCAFEBABE}

// dict holds the integer literals of the code under test (and neighbours):
// sizes, thresholds and magic values that a random workload would not meet.
var dict []int64

type R struct{ *rand.Rand }

func newR(seed uint64) *R { return &R{rand.New(rand.NewSource(int64(seed)))} }

func (r *R) p(x float64) bool { return r.Float64() < x }

func (r *R) val() uint64 {
	switch x := r.Intn(20); {
	case x < 9:
		return r.Uint64()
	case x < 11:
		return boundaryVals[r.Intn(len(boundaryVals))]
	case x < 13:
		return specialFloats[r.Intn(len(specialFloats))]
	case x < 14 && len(dict) > 0:
		return uint64(dict[r.Intn(len(dict))] + int64(r.Intn(3)) - 1)
	case x < 16:
		return 1 << uint(r.Intn(64))
	case x < 17:
		return ^(uint64(1) << uint(r.Intn(64)))
	case x < 18: // repeated byte
		return uint64(byte(r.Intn(256))) * 0x0101010101010101
	case x < 19: // repeated half
		return uint64(r.Uint32()) * 0x100000001
	}
	return uint64(r.Intn(512))
}

func (r *R) vals(n int) []uint64 {
	v := make([]uint64, n)
	same := r.p(0.05)
	for i := range v {
		if same && i > 0 {
			v[i] = v[0]
		} else {
			v[i] = r.val()
		}
	}
	return v
}

func (r *R) data(n int) []byte {
	d := make([]byte, n)
	switch r.Intn(6) {
	case 0:
		b := byte(r.val())
		for i := range d {
			d[i] = b
		}
	default:
		r.Read(d)
		if n > 0 && r.p(0.3) {
			d[r.Intn(n)] = 0
		}
		if n > 0 && r.p(0.3) {
			d[r.Intn(n)] = 0xFF
		}
	}
	return d
}

// size picks a buffer size, usually small.
func (r *R) size(max int) int {
	switch x := r.Intn(10); {
	case x < 1:
		return r.Intn(3)
	case x < 6:
		return r.Intn(min(max, 24) + 1)
	case x < 9:
		return r.Intn(min(max, 80) + 1)
	}
	if len(dict) > 0 && r.p(0.5) {
		d := dict[r.Intn(len(dict))] + int64(r.Intn(3)) - 1
		if d >= 0 && d <= int64(max) {
			return int(d)
		}
	}
	return r.Intn(max + 1)
}

// near picks a position with a bias to the boundaries of [0,lim].
func (r *R) near(lim int64) int64 {
	switch x := r.Intn(10); {
	case x < 2:
		return min(lim, int64(r.Intn(3)))
	case x < 5:
		return max(0, lim-int64(r.Intn(4)))
	case x < 6 && len(dict) > 0:
		d := dict[r.Intn(len(dict))]
		if d >= 0 && d <= lim {
			return d
		}
	}
	return r.Int63n(lim + 1)
}

// spot picks a position below lim: anywhere, near the ends, or near a multiple of a power of two.
func (r *R) spot(lim int64) int64 {
	v := r.near(lim)
	if r.p(0.4) {
		p := int64(1) << (6 + r.Intn(15))
		v = r.Int63n(lim/p+1)*p - int64(r.Intn(10))
	}
	return min(max(v, 0), lim-1)
}

// wild picks a position that need not make sense.
func (r *R) wild(lim int64) int64 {
	switch r.Intn(14) {
	case 0, 1, 2:
		return lim + int64(r.Intn(4))
	case 3, 4:
		return -1 - int64(r.Intn(4))
	case 5:
		return lim + 1 + r.Int63n(2*lim+16)
	case 6:
		return -r.Int63n(2*lim + 16)
	case 7:
		return (int64(1) << uint(r.Intn(63))) + r.near(lim) - int64(r.Intn(3))
	case 8:
		return -(int64(1) << uint(r.Intn(63))) + r.near(lim)
	case 9:
		return math.MaxInt64 - int64(r.Intn(int(min(lim, 64))+10))
	case 10:
		return math.MinInt64 + int64(r.Intn(int(min(lim, 64))+10))
	case 11:
		if len(dict) > 0 {
			d := dict[r.Intn(len(dict))] + int64(r.Intn(3)) - 1
			if r.p(0.5) {
				return -d
			}
			return d
		}
	case 12: // wraps to something small in 32 or fewer bits
		return (int64(1+r.Intn(8)) << uint([]int{16, 31, 32, 33, 35, 61}[r.Intn(6)])) + r.near(lim)
	}
	return r.near(lim)
}

func (r *R) init(max int, simple bool) []SliceInit {
	n := 1
	if !simple {
		switch x := r.Intn(10); {
		case x == 0:
			n = 0
		case x < 7:
		default:
			n = 2 + r.Intn(4)
		}
	}
	out := make([]SliceInit, n)
	for i := range out {
		si := &out[i]
		si.Len, si.Seed, si.Mode = r.size(max), r.Uint64(), 0
		if r.p(0.3) {
			si.Mode = r.Intn(5)
		}
		if r.p(0.1) {
			si.Len = 0
		}
		if r.p(0.7) {
			si.Spare = []int{0, 1, 2, 7, 8, 9, 16, 33, 64, 200}[r.Intn(10)]
		}
		if r.p(0.7) {
			si.Lead, si.Trail = r.Intn(20), r.Intn(20)
		}
		if si.Len == 0 && r.p(0.3) {
			si.Nil, si.Spare = true, 0
		}
	}
	return out
}

// ---- histories ----

// Mix weighs operation kinds and says how operands are chosen.
type Mix struct {
	W       [nKinds]int
	Next    float64 // share of cursor-relative access
	OOR     float64 // share of accesses that need not be in range
	Zero    float64 // share of zero-length accesses
	MaxSize int
	MaxLen  int
	Types   string // typed element kinds wanted: subset of UIF
	Invalid float64
	NBits   int     // longest bit field
	Own     float64 // share of byte writes whose data is a window of the buffer itself
}

func defaultMix() Mix {
	m := Mix{Next: 0.4, OOR: 0.03, Zero: 0.05, MaxSize: 200, MaxLen: 40, Types: "UIF", NBits: 64, Own: 0.15}
	for k := range m.W {
		m.W[k] = 10
	}
	m.W[KWriteT], m.W[KReadT] = 40, 40
	m.W[KSeek], m.W[KSeekBit] = 20, 20
	m.W[KClearAll], m.W[KSetAll], m.W[KFlipAll] = 3, 3, 5
	m.W[KTruncL], m.W[KTruncR], m.W[KReset] = 5, 5, 2
	m.W[KGrow] = 10
	m.W[KRefresh], m.W[KPoke] = 3, 3
	return m
}

func (m Mix) only(w int, ks ...Kind) Mix {
	for k := range m.W {
		m.W[k] = 0
	}
	return m.with(w, ks...)
}
func (m Mix) with(w int, ks ...Kind) Mix {
	for _, k := range ks {
		m.W[k] = w
	}
	return m
}

type typ struct {
	Ty  string
	W   int
	Ord int
}

// types lists the typed accesses a target offers among the wanted kinds.
func (t *Target) types(want string) []typ {
	var out []typ
	for _, k := range want {
		ty := string(k)
		for _, w := range []int{1, 2, 4, 8} {
			for o := 0; o < nOrders; o++ {
				op := Op{K: KReadT, Ty: ty, W: w, Ord: o}
				if op.method(t) != "" && !(w == 1 && o > 0) {
					out = append(out, typ{ty, w, o})
				}
			}
		}
	}
	return out
}

// genOp picks one operation for a buffer in state st (used for its sizes and cursors).
func (r *R) genOp(t *Target, m *Mix, st *State, ks []Kind, tys []typ) *Op {
	k := ks[r.Intn(len(ks))]
	o := &Op{K: k, Prior: r.Uint64() | 1}
	size := int64(len(st.Data))
	lim := size
	if o.isBit() {
		lim = size * 8
	}
	if o.isAccess() {
		o.Next = r.p(m.Next)
		if r.p(0.3) {
			o.Lead, o.Tail = r.Intn(4), r.Intn(4)
		}
		if r.p(0.4) {
			o.Extra = r.Intn(5)
		}
	}
	w := int64(1)
	if k == KWriteT || k == KReadT {
		if len(tys) == 0 {
			return nil
		}
		y := tys[r.Intn(len(tys))]
		o.Ty, o.W, o.Ord = y.Ty, y.W, y.Ord
		w = int64(o.W)
		if t.Ver == 1 && r.p(m.Invalid) {
			o.W = []int{0, 3, 5, 6, 7, 9, 16, -1, 24, 32}[r.Intn(10)]
			w = 1
		}
	}
	n := int64(1)
	counted := false
	switch k {
	case KWriteBytes, KReadBytes, KWriteT, KReadT, KReadBits, KSetBits:
		counted = true
	}
	oor := r.p(m.OOR)
	cur := st.Off
	if o.isBit() {
		cur = st.Boff
	}
	if o.isAccess() {
		if oor {
			o.Off = r.wild(lim)
			if r.p(0.4) {
				o.Off = r.near(lim)
			}
		} else {
			o.Off = r.near(lim)
		}
		pos := o.Off
		if o.Next {
			pos = cur
			o.Off = 0
		}
		room := int64(0)
		if pos >= 0 && pos <= lim {
			room = (lim - pos) / w
		}
		if counted {
			switch {
			case r.p(m.Zero):
				n = 0
			case oor && r.p(0.6):
				n = room + int64(r.Intn(3))
				if r.p(0.2) && (k == KReadBytes || k == KReadT) {
					n = r.wild(room)
				}
			case r.p(0.2):
				n = room
			case r.p(0.3) && room > 0:
				n = room - int64(r.Intn(int(min(room, 3))))
			default:
				n = 1 + int64(r.Intn(8))
			}
			if o.isBit() {
				n = min(n, int64(m.NBits))
				if n > 1 && r.p(0.5) {
					n = 1 + int64(r.Intn(m.NBits))
				}
				n = max(n, 0)
				if !oor {
					n = min(n, room)
				}
			} else if !oor {
				n = min(n, room)
			}
			if !o.isRead() || !oor {
				n = max(0, min(n, int64(m.MaxLen)+r.Int63n(3)))
			}
			if !o.isBit() && k != KReadBytes && k != KReadT && n > int64(m.MaxLen)+3 {
				n = int64(m.MaxLen)
			}
		}
	}
	if (k == KWriteBytes || k == KWriteT && o.W == 1) && n > 0 && n <= size && r.p(m.Own) {
		pos := o.Off
		if o.Next {
			pos = cur
		}
		o.Own = 1 + r.Int63n(size-n+1)
		if r.p(0.7) { // mostly overlapping
			o.Own = 1 + min(max(pos+int64(r.Intn(9))-4, 0), size-n)
		}
	}
	switch k {
	case KWriteBytes:
		o.Data = r.data(int(n))
	case KWriteT:
		o.Vals = r.vals(int(n))
	case KReadBytes, KReadT:
		o.N = n
	case KReadBits:
		o.N = n
	case KSetBits:
		o.N, o.Val = n, r.val()
	case KSetBit:
		o.Val = uint64(r.Intn(2))
		if t.Ver < 3 && r.p(m.Invalid) {
			o.Val = uint64([]int{2, 3, 4, 7, 8, 127, 128, 254, 255}[r.Intn(9)])
		}
	case KWriteByte:
		o.Val = r.val() & 0xFF
	case KSeek, KSeekBit:
		l := size
		c := st.Off
		if k == KSeekBit {
			l, c = size*8, st.Boff
		}
		o.Rel = r.p(0.4)
		to := r.near(l)
		if r.p(m.OOR) {
			to = r.wild(l)
		}
		if o.Rel {
			to -= c
		}
		o.Off = to
	case KAfter, KAfterBit:
		o.Rel = r.p(0.5)
		o.Off = r.near(size * 8)
		if r.p(0.4) {
			o.Off = r.wild(size * 8)
		}
	case KGrow:
		o.N = int64(r.Intn(20))
		if r.p(0.2) {
			o.N = int64(r.size(m.MaxSize))
		}
		if r.p(0.1) {
			o.N = 0
		}
		if r.p(m.OOR * 0.5) {
			o.N = []int64{-1, -2, -8, -size, -size - 1, math.MinInt64, math.MaxInt64, 1 << 62, -1 << 40}[r.Intn(9)]
		}
		if size+o.N > int64(m.MaxSize)*3 && o.N < hugeAmount && o.N > 0 {
			o.N = 1
		}
	case KPoke:
		if size == 0 {
			return nil
		}
		o.Off, o.Val = r.Int63n(size), uint64(1+r.Intn(255))
	case KTruncL, KTruncR:
		o.N = int64(r.Intn(int(min(size, 12)) + 1))
		if r.p(0.1) {
			o.N = size
		}
		if r.p(0.1) {
			o.N = r.near(size)
		}
		if r.p(m.OOR) {
			o.N = r.wild(size)
		}
	}
	return o
}

func (m *Mix) kinds() []Kind {
	var ks []Kind
	for k, w := range m.W {
		for i := 0; i < w; i++ {
			ks = append(ks, Kind(k))
		}
	}
	return ks
}

// history generates a case for t: an initial buffer and up to n operations,
// each chosen in view of the state the contract predicts.
func (r *R) history(t *Target, m *Mix, ks []Kind, tys []typ, n int, simpleInit bool) *Case {
	c := &Case{Target: t.ID, Init: r.init(m.MaxSize, simpleInit), Around: r.Uint64()}
	st := &State{}
	for i := range c.Init {
		if c.Init[i].Nil {
			continue
		}
		for j := 0; j < c.Init[i].Len; j++ {
			st.Data = append(st.Data, fillByte(&c.Init[i], j))
		}
	}
	for tries := 0; len(c.Ops) < n && tries < 4*n; tries++ {
		o := r.genOp(t, m, st, ks, tys)
		if o == nil || o.method(t) == "" {
			continue
		}
		e := spec(t, st, o)
		if e.Unspec {
			continue
		}
		c.Ops = append(c.Ops, o)
		if !e.Refuse {
			st = &State{Data: e.Data, Off: e.Off, Boff: e.Boff}
		}
	}
	return c
}
