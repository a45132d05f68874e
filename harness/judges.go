package main

import (
	"bytes"
	"fmt"
)

// ---- facets shared by the judges ----

// came reports whether the operation came back normally although a refusal was
// due, or the other way round. Judges of values leave refusals to others.
func ok(st *Step) bool { return !st.Exp.Refuse }

func badResult(st *Step) string {
	r, e := st.Res, st.Exp
	if !e.HasRes {
		return ""
	}
	switch st.Op.K {
	case KReadT:
		if len(r.Vals) != len(e.Vals) {
			return fmt.Sprintf("read %d elements, %d were requested", len(r.Vals), len(e.Vals))
		}
		for i := range e.Vals {
			if r.Vals[i] != e.Vals[i] {
				return fmt.Sprintf("element %d read as %#x, stored is %#x", i, r.Vals[i], e.Vals[i])
			}
		}
	case KReadBytes:
		if !bytes.Equal(r.Bytes, e.Bytes) {
			return fmt.Sprintf("read %s, stored is %s", shortHex(r.Bytes), shortHex(e.Bytes))
		}
	case KAfter, KAfterBit:
		if r.I != e.I {
			return fmt.Sprintf("returned %d, should be %d", r.I, e.I)
		}
	default:
		if r.U != e.U {
			return fmt.Sprintf("returned %#x, should be %#x", r.U, e.U)
		}
	}
	return ""
}

func diffData(got, want []byte) string {
	if len(got) != len(want) {
		return fmt.Sprintf("size is %d, should be %d", len(got), len(want))
	}
	if bytes.Equal(got, want) {
		return ""
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Sprintf("byte %d is %#02x, should be %#02x", i, got[i], want[i])
		}
	}
	return ""
}

func badData(st *Step) string {
	if d := diffData(st.Post.Data, st.Exp.Data); d != "" {
		return "contents wrong: " + d
	}
	return ""
}

func panicked(st *Step) string {
	return fmt.Sprintf("an in-range operation panicked: %v", st.Res.Panic)
}

// valueJudge judges the positioned accesses that focus selects: their result
// and the whole contents afterwards.
func valueJudge(focus func(*Step) bool) Judge {
	return func(st *Step) (int, string) {
		if !ok(st) || st.Exp.Zero || st.LockHeld != "" || !focus(st) {
			return 0, ""
		}
		if st.Res.Panicked {
			return 2, panicked(st)
		}
		if s := badResult(st); s != "" {
			return 2, s
		}
		if s := badData(st); s != "" {
			return 2, s
		}
		return 2, ""
	}
}

var judgeC01 = valueJudge(func(st *Step) bool {
	o := st.Op
	return (o.K == KReadT || o.K == KWriteT) && o.Ty != "F" && validSize(o.W) && o.Ord < 2
})
var judgeC02 = valueJudge(func(st *Step) bool { return (st.Op.K == KReadT || st.Op.K == KWriteT) && st.Op.Ty == "F" })
var judgeC04 = valueJudge(func(st *Step) bool {
	k := st.Op.K
	return k == KReadBytes || k == KWriteBytes || k == KReadByte || k == KWriteByte
})
var judgeB02 = valueJudge(func(st *Step) bool { return st.Op.K == KReadBits || st.Op.K == KSetBits })
var judgeB01v = valueJudge(func(st *Step) bool {
	return st.Op.K == KReadBit || st.Op.K == KSetBit || st.Op.K == KFlipBit
})

// B01 also covers the refusal of bit values other than 0 and 1.
func judgeB01(st *Step) (int, string) {
	if st.Op.K == KSetBit && st.Op.Val > 1 && !st.Op.Next && st.Exp.Refuse && st.LockHeld == "" {
		return judgeInvalid(st)
	}
	return judgeB01v(st)
}

// judgeInvalid: an argument that is invalid whatever the position.
func judgeInvalid(st *Step) (int, string) {
	if !st.Res.Panicked {
		return 2, "an invalid argument was accepted"
	}
	found := false
	for _, e := range st.Exp.Errs {
		found = found || st.Res.Panic == e
	}
	if !found {
		return 2, fmt.Sprintf("an invalid argument was refused with %v instead of the documented error", st.Res.Panic)
	}
	if d := diffData(st.Post.Data, st.Pre.Data); d != "" {
		return 2, "an invalid argument was refused, but the contents changed: " + d
	}
	return 2, ""
}

// C03: v1 typed access with any byte order, and invalid sizes.
func judgeC03(st *Step) (int, string) {
	o := st.Op
	if st.LockHeld != "" || (o.K != KReadT && o.K != KWriteT) {
		return 0, ""
	}
	if !validSize(o.W) {
		return judgeInvalid(st)
	}
	if !ok(st) || st.Exp.Zero {
		return 0, ""
	}
	if st.Res.Panicked {
		return 2, panicked(st)
	}
	if s := badResult(st); s != "" {
		return 2, s
	}
	if o.K == KReadT && st.Res.Elem != st.Exp.Elem {
		return 2, fmt.Sprintf("a typed read returned a %s, not a %s", st.Res.Elem, st.Exp.Elem)
	}
	return 2, badData(st)
}

// B03: whole-buffer bit operations.
func judgeB03(st *Step) (int, string) {
	k := st.Op.K
	if k != KClearAll && k != KSetAll && k != KFlipAll || st.LockHeld != "" {
		return 0, ""
	}
	if st.Res.Panicked {
		return 2, fmt.Sprintf("panicked: %v", st.Res.Panic)
	}
	if s := badData(st); s != "" {
		return 2, s
	}
	if st.Post.Off != st.Pre.Off || st.Post.Boff != st.Pre.Boff || st.Post.Cap != st.Pre.Cap || st.Post.Bcap != st.Pre.Bcap {
		return 2, "sizes or cursors changed"
	}
	if s := outside(st); s != "" {
		return 2, s
	}
	if len(st.Pre.Data) == 0 {
		return 1, ""
	}
	return 2, ""
}

// outside compares the spare capacity behind the contents and, while the
// buffer still lives in the caller's array, the rest of that array, with what
// they were before the operation. It needs captureOutside to have run.
func outside(st *Step) string {
	if st.Pre.out == nil {
		return ""
	}
	return st.Pre.out.changed()
}

// outsideSnap remembers memory around a buffer's contents.
type outsideSnap struct {
	live, full []byte   // contents, and contents plus spare capacity
	fullCopy   []byte   // copy of the spare part
	arenas     [][]byte // the arrays the buffer was made from
	copies     [][]byte
}

func snapOutside(b *built, live []byte) *outsideSnap {
	s := &outsideSnap{live: live, full: live[:cap(live)]}
	s.fullCopy = append([]byte(nil), s.full[len(live):]...)
	for _, a := range b.arenas {
		s.arenas = append(s.arenas, a)
		s.copies = append(s.copies, append([]byte(nil), a...))
	}
	return s
}

// changed reports a change outside the live contents.
func (s *outsideSnap) changed() string {
	if i := mismatch(s.full[len(s.live):], s.fullCopy); i >= 0 {
		return fmt.Sprintf("memory outside the contents changed: byte %d of the spare capacity", i)
	}
	for k, a := range s.arenas {
		if bytes.Equal(a, s.copies[k]) {
			continue
		}
		lo, hi := overlap(a, s.live)
		for i := range a {
			if a[i] != s.copies[k][i] && (i < lo || i >= hi) {
				return fmt.Sprintf("memory outside the contents changed: byte %d of the array behind slice %d (contents at %d..%d)", i, k, lo, hi)
			}
		}
	}
	return ""
}

func mismatch(a, b []byte) int {
	if bytes.Equal(a, b) {
		return -1
	}
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

// N02: cursors.
func judgeN02(st *Step) (int, string) {
	if st.LockHeld != "" || st.Exp.Refuse {
		return 0, ""
	}
	o := st.Op
	switch o.K {
	case KAfter, KAfterBit:
		if st.Res.Panicked {
			return 2, fmt.Sprintf("panicked: %v", st.Res.Panic)
		}
		if s := badResult(st); s != "" {
			return 2, "remaining-space query: " + s
		}
	case KSeek, KSeekBit, KAlignBit, KAlignByte:
		if st.Res.Panicked {
			return 2, fmt.Sprintf("panicked: %v", st.Res.Panic)
		}
	default:
		if st.Res.Panicked || o.Next || o.K == KReset {
			return 0, "" // other properties
		}
	}
	if st.Post.Off != st.Exp.Off {
		return 2, fmt.Sprintf("byte cursor is %d, should be %d", st.Post.Off, st.Exp.Off)
	}
	if st.Post.Boff != st.Exp.Boff {
		return 2, fmt.Sprintf("bit cursor is %d, should be %d", st.Post.Boff, st.Exp.Boff)
	}
	if st.Pre.Off != 0 || st.Pre.Boff != 0 {
		return 2, ""
	}
	return 1, ""
}

// S01: accepted exactly when in range, refused with the documented error.
func (ctx *Ctx) judgeS01(st *Step) (int, string) {
	o := st.Op
	if !o.isAccess() || st.T.Mini || st.Exp.Zero || st.LockHeld != "" && !st.Res.Panicked {
		return 0, ""
	}
	if o.K == KSetBit && o.Val > 1 || o.W != 0 && !validSize(o.W) {
		return 0, "" // invalid whatever the position: B01, C03
	}
	if !st.Exp.Refuse {
		if st.Res.Panicked {
			return 2, "an access that lies inside the contents was refused"
		}
		return 2, ""
	}
	if !st.Res.Panicked {
		return 2, "an access that does not lie inside the contents was carried out"
	}
	for _, e := range st.Exp.Errs {
		if st.Res.Panic == e {
			return 2, ""
		}
	}
	return 2, fmt.Sprintf("refused with %T %q instead of the documented error %v", st.Res.Panic, fmt.Sprint(st.Res.Panic), st.Exp.Errs)
}

// S02: a refusal leaves everything as it was and the buffer usable.
func judgeS02(st *Step) (int, string) {
	if st.T.Mini || !st.Res.Panicked {
		return 0, ""
	}
	if st.LockHeld != "" {
		return 2, "after a refused operation " + st.LockHeld
	}
	if st.Post.Off != st.Pre.Off || st.Post.Boff != st.Pre.Boff {
		return 2, fmt.Sprintf("a refused operation moved a cursor: %d/%d, was %d/%d", st.Post.Off, st.Post.Boff, st.Pre.Off, st.Pre.Boff)
	}
	if st.Post.Cap != st.Pre.Cap || st.Post.Bcap != st.Pre.Bcap {
		return 2, "a refused operation changed a reported size"
	}
	if d := diffData(st.Post.Data, st.Pre.Data); d != "" {
		return 2, "a refused operation changed the contents: " + d
	}
	// the buffer is as usable as a fresh one with the same contents
	s := st.B.subj
	fresh := newSubj(st.T, st.T.New(append([]byte{}, st.Pre.Data...)))
	n := int64(len(st.Pre.Data))
	var follow []*Op
	if n > 0 {
		follow = []*Op{{K: KWriteBytes, Data: []byte{st.Pre.Data[n-1]}, Off: n - 1}, {K: KReadBit, Off: n*8 - 1}, {K: KFlipBit, Off: 0}, {K: KFlipBit, Off: 0}}
	}
	follow = append(follow, &Op{K: KRefresh}, &Op{K: KAfter, Rel: true, Off: 1})
	for _, o := range follow {
		r, f := s.exec(o), fresh.exec(o)
		if r.Panicked != f.Panicked || r.U != f.U || r.I != f.I {
			return 2, fmt.Sprintf("after a refused operation the valid %s does not behave as on a fresh buffer", o)
		}
	}
	if d := diffData(s.live(), fresh.live()); d != "" {
		return 2, "after a refused operation, valid ones do not behave as on a fresh buffer: " + d
	}
	return 2, ""
}

// S04: zero-length accesses.
func judgeS04(st *Step) (int, string) {
	if !st.Exp.Zero || !ok(st) || st.LockHeld != "" {
		return 0, ""
	}
	if st.Res.Panicked {
		return 2, fmt.Sprintf("a zero-length access panicked: %v", st.Res.Panic)
	}
	if d := diffData(st.Post.Data, st.Pre.Data); d != "" {
		return 2, "a zero-length access changed the contents: " + d
	}
	if st.Post.Off != st.Pre.Off || st.Post.Boff != st.Pre.Boff {
		return 2, fmt.Sprintf("a zero-length access moved a cursor: %d/%d, was %d/%d", st.Post.Off, st.Post.Boff, st.Pre.Off, st.Pre.Boff)
	}
	if st.Post.Cap != st.Pre.Cap || st.Post.Bcap != st.Pre.Bcap {
		return 2, "a zero-length access changed a reported size"
	}
	if st.Res.OutTail != "" {
		return 2, "a zero-length access: " + st.Res.OutTail
	}
	if st.Res.ArgDamaged != "" {
		return 2, "a zero-length access: " + st.Res.ArgDamaged
	}
	if s := badResult(st); s != "" {
		return 2, "a zero-length access: " + s
	}
	return 2, ""
}

// L02: growth.
func judgeL02(st *Step) (int, string) {
	if st.Op.K != KGrow || st.LockHeld != "" {
		return 0, ""
	}
	if st.Exp.Refuse {
		if !st.Res.Panicked {
			return 2, "an impossible growth was not refused"
		}
		if d := diffData(st.Post.Data, st.Pre.Data); d != "" || st.Post.Cap != st.Pre.Cap {
			return 2, "a refused growth changed the buffer: " + d
		}
		return 2, ""
	}
	if st.Res.Panicked {
		return 2, fmt.Sprintf("growing panicked: %v", st.Res.Panic)
	}
	if s := badData(st); s != "" {
		return 2, s
	}
	if st.Post.Off != st.Pre.Off || st.Post.Boff != st.Pre.Boff {
		return 2, "growing moved a cursor"
	}
	if st.Post.Cap != int64(len(st.Exp.Data)) {
		return 2, fmt.Sprintf("reported size after growing is %d, should be %d", st.Post.Cap, len(st.Exp.Data))
	}
	if st.Op.N == 0 {
		return 1, ""
	}
	return 2, ""
}

// L03: truncation and reset.
func judgeL03(st *Step) (int, string) {
	k := st.Op.K
	if k != KTruncL && k != KTruncR && k != KReset || st.LockHeld != "" {
		return 0, ""
	}
	if st.Exp.Refuse {
		if !st.Res.Panicked {
			return 2, "an impossible truncation was not refused"
		}
		if d := diffData(st.Post.Data, st.Pre.Data); d != "" || st.Post.Off != st.Pre.Off || st.Post.Boff != st.Pre.Boff || st.Post.Cap != st.Pre.Cap {
			return 2, "a refused truncation changed the buffer: " + d
		}
		return 2, ""
	}
	if st.Res.Panicked {
		return 2, fmt.Sprintf("panicked: %v", st.Res.Panic)
	}
	if s := badData(st); s != "" {
		return 2, s
	}
	if st.Post.Off != st.Exp.Off || st.Post.Boff != st.Exp.Boff {
		return 2, fmt.Sprintf("cursors are %d/%d, should be %d/%d", st.Post.Off, st.Post.Boff, st.Exp.Off, st.Exp.Boff)
	}
	if st.Post.Cap != int64(len(st.Exp.Data)) || st.Post.Bcap != 8*int64(len(st.Exp.Data)) {
		return 2, fmt.Sprintf("reported sizes are %d/%d, should be %d/%d", st.Post.Cap, st.Post.Bcap, len(st.Exp.Data), 8*len(st.Exp.Data))
	}
	if len(st.Pre.Data) == 0 {
		return 1, ""
	}
	return 2, ""
}

// L04: reported sizes match the contents after every step.
func judgeL04(st *Step) (int, string) {
	if st.LockHeld != "" {
		return 0, ""
	}
	n := int64(len(st.Post.Data))
	if st.Post.Cap != n || st.Post.Bcap != 8*n {
		return 2, fmt.Sprintf("the buffer holds %d bytes but reports %d bytes and %d bits", n, st.Post.Cap, st.Post.Bcap)
	}
	if st.Op.K == KRefresh {
		if st.Res.Panicked {
			return 2, "recomputing the sizes panicked"
		}
		if d := diffData(st.Post.Data, st.Pre.Data); d != "" {
			return 2, "recomputing the sizes changed the contents: " + d
		}
		if st.Post.Off != st.Pre.Off || st.Post.Boff != st.Pre.Boff {
			return 2, "recomputing the sizes moved a cursor"
		}
	}
	if !st.Op.isAccess() || st.Res.Panicked {
		return 2, ""
	}
	return 1, ""
}

// M01: out-parameters (the unchecked type).
func judgeM01(st *Step) (int, string) {
	if !st.T.Mini || st.Exp.Refuse || st.Res.Panicked || !st.Exp.HasRes || st.LockHeld != "" {
		return 0, ""
	}
	if st.Res.OutTail != "" {
		return 2, st.Res.OutTail
	}
	// again, with a destination that held something else
	s := st.B.subj
	o := *st.Op
	o.Prior = ^o.Prior * 0x9E3779B97F4A7C15
	if o.K == KReadT && o.Prior == 0 {
		o.Prior = 3
	}
	o.Extra = (o.Extra + 1) % 4
	back := func() {
		if o.Next {
			s.exec(&Op{K: KSeek, Off: st.Pre.Off})
			s.exec(&Op{K: KSeekBit, Off: st.Pre.Boff})
		}
	}
	back()
	r := s.exec(&o)
	if !r.Panicked {
		if r.OutTail != "" {
			return 2, r.OutTail
		}
		if a, b := resKey(st.Res), resKey(r); a != b {
			return 2, fmt.Sprintf("the result depends on what the destination held before: %s and %s", a, b)
		}
	} else {
		return 2, fmt.Sprintf("the outcome depends on what the destination held before: panic %v", r.Panic)
	}
	back()
	if o.Next {
		s.exec(st.Op) // leave the cursors where the history expects them
	}
	// the queries deliver through destinations as well
	for i, q := range s.q {
		f, isOut := q.(func(*int64))
		if !isOut {
			continue
		}
		x, y := int64(-1), int64(0x7A7A7A7A7A7A7A7A)
		f(&x)
		f(&y)
		if x != y {
			return 2, fmt.Sprintf("size or cursor query %d depends on what the destination held before: %d and %d", i, x, y)
		}
	}
	if f, isOut := s.bytes.(func(*[]byte)); isOut {
		old := []byte{1, 2, 3}
		x, y := old, []byte(nil)
		f(&x)
		f(&y)
		if !bytes.Equal(x, y) || old[0] != 1 || old[1] != 2 || old[2] != 3 {
			return 2, "the contents query depends on, or changes, what the destination held before"
		}
	}
	return 2, ""
}

// resKey is a canonical text of a result.
func resKey(r *Res) string {
	if r.Panicked {
		if isRuntimeErr(r.Panic) {
			return "panic runtime"
		}
		return fmt.Sprintf("panic %v", r.Panic)
	}
	return fmt.Sprintf("%x %d %x %x %v %s", r.U, r.I, r.Vals, r.Bytes, r.HasRes, r.Elem)
}
