package main

import (
	"fmt"
	"unsafe"
)

// runFn runs one case and returns a violation or nil.
type runFn func(shard int, c *Case, cov *Cov) *Viol

// ---- N01: sequential = positioned at the cursor, plus an exact advance ----

func (ctx *Ctx) judgeN01(st *Step) (int, string) {
	o := st.Op
	if !o.Next || st.LockHeld != "" || st.Exp.Refuse {
		return 0, ""
	}
	p := *o
	p.Next = false
	p.Off = st.Pre.Off
	if o.isBit() {
		p.Off = st.Pre.Boff
	}
	spare := 0
	if n := int64(cap(st.Pre.live)) - int64(len(st.Pre.live)); n < 256 {
		spare = int(n)
	}
	d := make([]byte, len(st.Pre.Data), len(st.Pre.Data)+spare)
	copy(d, st.Pre.Data)
	cl := newSubj(st.T, st.T.New(d))
	if p.method(st.T) == "" {
		// MiniBuffer has no positioned single-byte access; the byte-slice form is the same thing
		switch o.K {
		case KReadByte:
			p.K, p.N = KReadBytes, 1
		case KWriteByte:
			p.K, p.Data = KWriteBytes, []byte{byte(o.Val)}
		default:
			return 0, ""
		}
	}
	r := cl.exec(&p)
	if p.K != o.K && len(r.Bytes) == 1 {
		r.U, r.Bytes = 0, nil
		if o.K == KReadByte {
			r.U = uint64(r.Raw[0])
		}
	}
	if r.Panicked != st.Res.Panicked {
		return 2, fmt.Sprintf("the sequential form panicked: %v (%v), the positioned form: %v (%v)", st.Res.Panicked, st.Res.Panic, r.Panicked, r.Panic)
	}
	if r.Panicked {
		return 1, ""
	}
	if a, b := resKey(st.Res), resKey(r); a != b {
		return 2, fmt.Sprintf("the sequential form gave %s, the positioned form at the cursor %s", a, b)
	}
	if x := diffData(st.Post.Data, cl.live()); x != "" {
		return 2, "contents differ from those after the positioned form at the cursor: " + x
	}
	adv := o.count() * o.width()
	wo, wb := st.Pre.Off+adv, st.Pre.Boff
	if o.isBit() {
		wo, wb = st.Pre.Off, st.Pre.Boff+adv
	}
	if st.Post.Off != wo || st.Post.Boff != wb {
		return 2, fmt.Sprintf("cursors moved from %d/%d to %d/%d, should be %d/%d", st.Pre.Off, st.Pre.Boff, st.Post.Off, st.Post.Boff, wo, wb)
	}
	if adv == 0 {
		return 1, ""
	}
	return 2, ""
}

// ---- S03: isolation ----

// runTwin runs the same history on two buffers whose contents are equal but
// whose surroundings, spare capacity and dropped contents differ.
func (ctx *Ctx) runTwin(shard int, c *Case, cov *Cov) *Viol {
	t := targetByID(c.Target)
	vi := func(i int, f string, a ...any) *Viol {
		return &Viol{Text: fmt.Sprintf(f, a...) + fmt.Sprintf("\n  %s, step %d", c.Target, i), Step: i, Case: c, Kind: "case"}
	}
	var x, y *built
	if msg := catch(func() { x = c.buildFor(t, c.Around); y = c.buildFor(t, ^c.Around*31) }); msg != "" {
		return nil // L01
	}
	if x.damaged != "" {
		return vi(0, "creating the buffer: %s", x.damaged)
	}
	px, py := x.subj.observe(), y.subj.observe()
	for i, o := range c.Ops {
		if o.method(t) == "" {
			continue
		}
		e := spec(t, px, o)
		if e.Unspec {
			continue
		}
		ctx.prog[shard].Add(1)
		ctx.cur[shard].Store(&curOp{c, o})
		// give the twins different contents where they are about to be dropped
		if !e.Refuse {
			lx, ly := x.subj.live(), y.subj.live()
			drop := func(l []byte, salt byte) {
				for j := range l {
					l[j] ^= salt + byte(j)*3
				}
			}
			n := int(o.N)
			switch o.K {
			case KTruncL:
				drop(lx[:n], 0x11)
				drop(ly[:n], 0xE7)
			case KTruncR:
				drop(lx[len(lx)-n:], 0x11)
				drop(ly[len(ly)-n:], 0xE7)
			case KReset:
				drop(lx, 0x11)
				drop(ly, 0xE7)
			}
		}
		sx, sy := snapOutside(x, px.live), snapOutside(y, py.live)
		rx, ry := x.subj.exec(o), y.subj.exec(o)
		if t.Conc() && (probeLocks(x.subj, rx.Panicked) != "" || probeLocks(y.subj, ry.Panicked) != "") {
			return nil // P03
		}
		qx, qy := x.subj.observe(), y.subj.observe()
		if a, b := resKey(rx), resKey(ry); a != b {
			return vi(i, "the result of %s depends on memory outside the contents: %s and %s, contents %s", o, a, b, shortHex(px.Data))
		}
		if d := diffData(qx.Data, qy.Data); d != "" {
			return vi(i, "the contents after %s depend on memory outside the contents: %s", o, d)
		}
		if qx.Off != qy.Off || qx.Boff != qy.Boff || qx.Cap != qy.Cap {
			return vi(i, "cursors or sizes after %s depend on memory outside the contents", o)
		}
		if rx.ArgDamaged != "" {
			return vi(i, "%s: %s", o, rx.ArgDamaged)
		}
		// Memory outside the contents may only be written by growth, which
		// owns the spare capacity behind the contents.
		if s := sx.changedExcept(o, qx.live); s != "" {
			return vi(i, "%s: %s", o, s)
		}
		if s := independent(o, rx, x.subj); s != "" {
			return vi(i, "%s: %s", o, s)
		}
		if s := retained(o, rx, x.subj); s != "" {
			return vi(i, "%s: %s", o, s)
		}
		_ = sy
		if cov != nil {
			st := &Step{T: t, Op: o, Pre: px, Res: rx}
			nt := o.isAccess() || o.K == KGrow || o.K == KTruncL || o.K == KTruncR || o.K == KReset
			cov.hit(st.sig(), nt)
			cov.Counts[t.ID]++
			if len(cov.samples) < 1 && i > 1 && nt {
				cov.samples = append(cov.samples, fmt.Sprintf("twins of %s agree on %s -> %s, contents %s, surroundings differ", t.ID, o, resKey(rx), shortHex(px.Data)))
			}
		}
		px, py = qx, qy
	}
	return nil
}

// changedExcept is changed, with the bytes that the operation may own allowed:
// the live contents before and after it, and for growth the spare capacity.
func (s *outsideSnap) changedExcept(o *Op, after []byte) string {
	grow := o.K == KGrow
	if !grow {
		tail := s.full[len(s.live):]
		if i := mismatch(tail, s.fullCopy); i >= 0 {
			return fmt.Sprintf("memory outside the contents changed: byte %d of the spare capacity", i)
		}
	}
	own := s.live
	if grow {
		own = s.full
	}
	for k, a := range s.arenas {
		lo, hi := overlap(a, own)
		for i := range a {
			if a[i] != s.copies[k][i] && (i < lo || i >= hi) {
				return fmt.Sprintf("memory outside the contents changed: byte %d of the array behind slice %d (storage at %d..%d)", i, k, lo, hi)
			}
		}
	}
	return ""
}

// overlap returns the index range of a that b covers.
func overlap(a, b []byte) (lo, hi int) {
	if len(a) == 0 || cap(b) == 0 || len(b) == 0 {
		return 0, 0
	}
	pa, pb := uintptr(unsafe.Pointer(&a[0])), uintptr(unsafe.Pointer(&b[0]))
	if pb < pa || pb >= pa+uintptr(len(a)) {
		return 0, 0
	}
	lo = int(pb - pa)
	return lo, min(len(a), lo+len(b))
}

// retained checks that the buffer did not keep hold of the data passed in.
func retained(o *Op, r *Res, s *Subj) string {
	if o.K != KWriteT && o.K != KWriteBytes || r.Panicked {
		return ""
	}
	var flip func()
	switch v := r.typed.(type) {
	case []uint8:
		flip = func() { flipAll(v) }
	case []uint16:
		flip = func() { flipAll(v) }
	case []uint32:
		flip = func() { flipAll(v) }
	case []uint64:
		flip = func() { flipAll(v) }
	case []int16:
		flip = func() { flipAll(v) }
	case []int32:
		flip = func() { flipAll(v) }
	case []int64:
		flip = func() { flipAll(v) }
	case []float32:
		flip = func() { flipAll(v) }
	case []float64:
		flip = func() { flipAll(v) }
	default:
		return ""
	}
	before := append([]byte(nil), s.live()...)
	flip()
	after := s.live()
	d := diffData(after, before)
	flip()
	if d != "" {
		return "changing the data passed in afterwards changes the buffer: " + d
	}
	return ""
}

// independent checks that a decoded numeric result is a copy.
func independent(o *Op, r *Res, s *Subj) string {
	if o.K != KReadT || r.Panicked || o.W == 1 || len(r.Vals) == 0 {
		return ""
	}
	before := append([]byte(nil), s.live()...)
	var flip func()
	var now func() []uint64
	switch v := r.typed.(type) {
	case []uint16:
		flip, now = func() { flipAll(v) }, func() []uint64 { return pats(v) }
	case []uint32:
		flip, now = func() { flipAll(v) }, func() []uint64 { return pats(v) }
	case []uint64:
		flip, now = func() { flipAll(v) }, func() []uint64 { return pats(v) }
	case []int16:
		flip, now = func() { flipAll(v) }, func() []uint64 { return pats(v) }
	case []int32:
		flip, now = func() { flipAll(v) }, func() []uint64 { return pats(v) }
	case []int64:
		flip, now = func() { flipAll(v) }, func() []uint64 { return pats(v) }
	case []float32:
		flip, now = func() { flipAll(v) }, func() []uint64 { return pats(v) }
	case []float64:
		flip, now = func() { flipAll(v) }, func() []uint64 { return pats(v) }
	default:
		return ""
	}
	l := s.live()
	for i := range l {
		l[i] ^= 0xFF
	}
	n := now()
	for i := range l {
		l[i] ^= 0xFF
	}
	for i := range n {
		if n[i] != r.Vals[i] {
			return "the decoded result changes when the buffer does"
		}
	}
	flip()
	if d := diffData(s.live(), before); d != "" {
		return "changing the decoded result changes the buffer: " + d
	}
	flip()
	return ""
}

func flipAll[T any](s []T) {
	for i := range s {
		putPat(&s[i], ^getPat(&s[i]))
	}
}

// ---- X01 / G01: lock step ----

// runLockstep runs one history on several targets and compares every step. It
// runs the operations that all of them offer; refused ones only if refusals
// are to be compared too.
func (ctx *Ctx) runLockstep(shard int, c *Case, ts []*Target, refusals bool, cov *Cov) *Viol {
	ids := ""
	for _, t := range ts {
		ids += t.ID + " "
	}
	vi := func(i int, f string, a ...any) *Viol {
		return &Viol{Text: fmt.Sprintf(f, a...) + fmt.Sprintf("\n  step %d, implementations %s", i, ids), Step: i, Case: c, Kind: "case"}
	}
	var subs []*Subj
	for _, t := range ts {
		var b *built
		if msg := catch(func() { b = c.buildFor(t, c.Around) }); msg != "" {
			return vi(-1, "%s: constructing panicked: %s", t.ID, msg)
		}
		subs = append(subs, b.subj)
	}
	blind := c.Aux["blind"] != 0
	var ref *State
	if blind { // nothing is looked at before the end; the spec says which operations apply
		ref = &State{}
		for _, sl := range func() [][]byte { _, sls := c.slices(c.Around); return sls }() {
			ref.Data = append(ref.Data, sl...)
		}
		ref.Cap, ref.Bcap = int64(len(ref.Data)), 8*int64(len(ref.Data))
	} else {
		ref = subs[0].observe()
	}
	for k := 1; k < len(subs) && !blind; k++ {
		if d := sameState(ref, subs[k].observe()); d != "" {
			return vi(-1, "%s and %s differ after construction: %s", ts[0].ID, ts[k].ID, d)
		}
	}
ops:
	for i, o := range c.Ops {
		for _, t := range ts {
			if o.method(t) == "" {
				continue ops
			}
			if e := spec(t, ref, o); e.Unspec || e.Refuse && !refusals {
				continue ops
			}
		}
		ctx.prog[shard].Add(1)
		ctx.cur[shard].Store(&curOp{c, o})
		var first *Res
		var fpost *State
		for k, t := range ts {
			r := subs[k].exec(o)
			if t.Conc() && probeLocks(subs[k], r.Panicked) != "" {
				return nil // P03
			}
			var post *State
			if blind {
				if r.Panicked {
					return nil
				}
				e := spec(t, ref, o)
				n := int64(len(e.Data))
				post = &State{Data: e.Data, Off: e.Off, Boff: e.Boff, Cap: n, Bcap: 8 * n}
			} else {
				post = subs[k].observe()
			}
			if k == 0 {
				first, fpost = r, post
				continue
			}
			if a, b := lockKey(o, first), lockKey(o, r); a != b {
				return vi(i, "%s gave %s on %s and %s on %s (state before %s)", o, a, ts[0].ID, b, t.ID, ref)
			}
			if blind {
				continue
			}
			if d := sameState(fpost, post); d != "" {
				return vi(i, "%s leaves different states on %s and %s: %s (state before %s)", o, ts[0].ID, t.ID, d, ref)
			}
		}
		if cov != nil {
			st := &Step{T: ts[0], Op: o, Pre: ref, Res: first}
			cov.hit(hashStr(st.sig(), ids), len(ref.Data) > 0)
			cov.Counts[ids]++
			if len(cov.samples) < 1 && i > 2 && len(ref.Data) > 4 {
				cov.samples = append(cov.samples, fmt.Sprintf("%sagree: %s -> %s on %s", ids, o, lockKey(o, first), ref))
			}
		}
		ref = fpost
	}
	if blind {
		a := subs[0].observe()
		for k := 1; k < len(subs); k++ {
			if d := sameState(a, subs[k].observe()); d != "" {
				return vi(-1, "after a history with nothing looked at in between, %s and %s differ: %s", ts[0].ID, ts[k].ID, d)
			}
		}
	}
	return nil
}

// lockKey is resKey without what legitimately differs between the types.
func lockKey(o *Op, r *Res) string {
	if r.Panicked {
		if isRuntimeErr(r.Panic) {
			return "panic runtime"
		}
		return fmt.Sprintf("panic %v", r.Panic)
	}
	switch o.K {
	case KReadT:
		return fmt.Sprintf("%x", r.Vals)
	case KReadBytes:
		return fmt.Sprintf("%x", r.Bytes)
	}
	return fmt.Sprintf("%x %d", r.U, r.I)
}

func sameState(a, b *State) string {
	if d := diffData(b.Data, a.Data); d != "" {
		return "contents: " + d
	}
	if a.Off != b.Off || a.Boff != b.Boff {
		return fmt.Sprintf("cursors %d/%d and %d/%d", a.Off, a.Boff, b.Off, b.Boff)
	}
	if a.Cap != b.Cap || a.Bcap != b.Bcap {
		return fmt.Sprintf("sizes %d/%d and %d/%d", a.Cap, a.Bcap, b.Cap, b.Bcap)
	}
	return ""
}
