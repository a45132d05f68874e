package main

import (
	"fmt"
	"math"
	"sort"
	"syscall"
	"time"
)

// try runs one case; a violation is reduced and reported. It says whether to go on.
func (ctx *Ctx) try(fn runFn, shard int, c *Case, cov *Cov) bool {
	if v := fn(shard, c, cov); v != nil {
		start := time.Now()
		sc, sv := shrink(c, func(d *Case) *Viol {
			if time.Since(start) > 20*time.Second { // reducing decides nothing
				return nil
			}
			return fn(shard, d, nil)
		})
		if sv == nil {
			sc, sv = c, v
		}
		sv.Case = sc
		ctx.report(sv)
	}
	return !ctx.stop.Load()
}

func where(f func(*Target) bool) []*Target {
	var out []*Target
	for _, t := range targets {
		if f(t) {
			out = append(out, t)
		}
	}
	return out
}
func all(*Target) bool        { return true }
func full(t *Target) bool     { return !t.Mini }
func mini(t *Target) bool     { return t.Mini }
func modern(t *Target) bool   { return t.Ver > 1 }
func v1only(t *Target) bool   { return t.Ver == 1 }
func v3only(t *Target) bool   { return t.Ver == 3 }
func concur(t *Target) bool   { return t.Conc() }
func lockable(t *Target) bool { return t.Ver < 3 }

// histories drives random histories: cases per shard and target.
func (ctx *Ctx) histories(salt uint64, ts []*Target, mx func(*Target) Mix, cases, ops int, fn runFn) {
	if ctx.stop.Load() {
		return
	}
	ctx.sharded(salt, func(shard int, r *R, cov *Cov, _ func(*Viol)) {
		for _, t := range ts {
			m := mx(t)
			ks, tys := m.kinds(), t.types(m.Types)
			for i := 0; i < cases; i++ {
				n := ops/4 + r.Intn(ops)
				if !ctx.try(fn, shard, r.history(t, &m, ks, tys, n, r.p(0.6)), cov) {
					return
				}
			}
			cov.count("histories "+t.ID, int64(cases))
			for i := 0; i < ctx.n(2, 24); i++ { // long use of few methods
				kk, yy := r.few(ks, tys)
				if !ctx.try(fn, shard, r.history(t, &m, kk, yy, 1200, r.p(0.6)), cov) {
					return
				}
				cov.count("histories of 1200 operations", 1)
			}
		}
	})
}

// few picks some of the kinds and types.
func (r *R) few(ks []Kind, tys []typ) ([]Kind, []typ) {
	var kk []Kind
	for n := 2 + r.Intn(4); n > 0; n-- {
		kk = append(kk, ks[r.Intn(len(ks))])
	}
	if r.p(0.6) {
		kk = append(kk, KSeek, KSeekBit)
	}
	if len(tys) > 2 {
		tys = []typ{tys[r.Intn(len(tys))], tys[r.Intn(len(tys))]}
	}
	return kk, tys
}

// grid drives systematically enumerated operations: for every target and size
// the operations gen yields, in chunks, each chunk on a fresh buffer.
func (ctx *Ctx) grid(salt uint64, ts []*Target, sizes []int, gen func(t *Target, size int64, r *R) []*Op, fn runFn) {
	if ctx.stop.Load() {
		return
	}
	ctx.sharded(salt, func(shard int, r *R, cov *Cov, _ func(*Viol)) {
		k := 0
		for _, t := range ts {
			for _, size := range sizes {
				k++
				// every shard generates every list from the same stream, and runs its share of the chunks
				g := newR(mix(mix(ctx.Seed, salt), uint64(k)<<20))
				ops := gen(t, int64(size), g)
				const chunk = 48
				for i, j := 0, 0; i < len(ops); i, j = i+chunk, j+1 {
					if (j+k)%nShards != shard {
						continue
					}
					c := &Case{Target: t.ID, Around: g.Uint64(), Init: []SliceInit{{Len: size, Spare: (i / chunk) % 19, Lead: 9, Trail: 9, Seed: uint64(i) * 77, Mode: []int{0, 0, 0, 1, 2, 4}[(i/chunk+k)%6]}},
						Ops: ops[i:min(len(ops), i+chunk)]}
					if !ctx.try(fn, shard, c, cov) {
						return
					}
				}
				cov.count("grid operations "+t.ID, int64(len(ops))/nShards)
			}
		}
	})
}

// gridOps enumerates in-range accesses of the wanted kinds: every position and
// every count that fits (typed and bytes), every position and field width (bits).
func gridOps(t *Target, size int64, r *R, kinds []Kind, types string, next, zero bool) (ops []*Op) {
	add := func(o Op) {
		if !next && o.method(t) == "" {
			return
		}
		o.Prior = r.Uint64() | 1
		o.Lead, o.Tail, o.Extra = r.Intn(3), r.Intn(3), r.Intn(3)
		if next {
			pos := o.Off
			o.Next, o.Off = true, 0
			if o.method(t) == "" {
				return
			}
			k := KSeek
			if o.isBit() {
				k = KSeekBit
			}
			ops = append(ops, &Op{K: k, Off: pos})
		}
		ops = append(ops, &o)
	}
	lo := int64(1)
	hi := int64(math.MaxInt64)
	if zero {
		lo, hi = 0, 0
	}
	for _, k := range kinds {
		switch k {
		case KWriteT, KReadT:
			for _, y := range t.types(types) {
				w := int64(y.W)
				for off := int64(0); off <= size; off++ {
					for n := lo; n <= (size-off)/w && n <= hi; n++ {
						o := Op{K: k, Ty: y.Ty, W: y.W, Ord: y.Ord, Off: off, N: n}
						if k == KWriteT {
							o.N, o.Vals = 0, r.vals(int(n))
						}
						add(o)
						if k == KWriteT && w == 1 && n > 0 {
							o.Own = 1 + r.Int63n(size-n+1)
							add(o)
						}
					}
				}
			}
		case KWriteBytes, KReadBytes:
			for off := int64(0); off <= size; off++ {
				for n := lo; n <= size-off && n <= hi; n++ {
					o := Op{K: k, Off: off, N: n}
					if k == KWriteBytes {
						o.N, o.Data = 0, r.data(int(n))
					}
					add(o)
					if k == KWriteBytes && n > 0 { // the buffer's own bytes, possibly overlapping
						o.Own = 1 + r.Int63n(size-n+1)
						add(o)
					}
				}
			}
		case KWriteByte, KReadByte:
			if zero {
				continue
			}
			for off := int64(0); off < size; off++ {
				add(Op{K: k, Off: off, Val: uint64(r.Intn(256))})
			}
		case KReadBit, KFlipBit, KSetBit:
			if zero {
				continue
			}
			for off := int64(0); off < size*8; off++ {
				add(Op{K: k, Off: off})
				if k == KSetBit {
					add(Op{K: k, Off: off, Val: 1})
				}
			}
		case KReadBits, KSetBits:
			for off := int64(0); off <= size*8; off++ {
				for n := lo; n <= 64 && n <= size*8-off && n <= hi; n++ {
					add(Op{K: k, Off: off, N: n, Val: r.val()})
				}
			}
		}
	}
	return
}

func upto(n int) (s []int) {
	for i := 0; i <= n; i++ {
		s = append(s, i)
	}
	return
}

// longLens are transfer lengths around the thresholds an implementation might
// have, including those that appear as literals in its source.
func longLens(limit int64) (out []int) {
	set := map[int64]bool{}
	for _, b := range []int64{32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 1 << 18, 1 << 20} {
		set[b-1], set[b], set[b+1] = true, true, true
	}
	for _, d := range dict {
		if d > 8 { // as a count, or as a number of bytes
			for _, w := range []int64{1, 2, 4, 8} {
				set[d/w-1], set[d/w], set[d/w+1] = true, true, true
			}
		}
	}
	for v := range set {
		if v > 8 && v <= limit {
			out = append(out, int(v))
		}
	}
	sort.Ints(out)
	return
}

// literalLens are transfer lengths beyond limit that the source mentions: as few as
// they are, they can be long.
func literalLens(limit, most int64) (out []int) {
	set := map[int64]bool{}
	for _, d := range dict {
		for _, w := range []int64{1, 2, 4, 8} {
			for _, v := range []int64{d / w, d/w + 1} {
				if v > limit && v <= most {
					set[v] = true
				}
			}
		}
	}
	for v := range set {
		out = append(out, int(v))
	}
	sort.Ints(out)
	return out[:min(len(out), 12)]
}

// oddLens are long transfer lengths of every remainder: what is left over behind the
// last whole block of a transfer made in blocks.
func oddLens(limit int64) (out []int) {
	for b := int64(64); b <= 1<<16; b *= 2 {
		step := int64(1)
		if b > 512 {
			step = 1 + b>>9
		}
		for d := int64(2); d < 34 && b+d <= limit; d += step {
			out = append(out, int(b+d))
		}
	}
	return
}

// longCap bounds long transfers further where they are expensive to watch.
var longCap = int64(math.MaxInt64)

// longs drives long transfers of every wanted kind.
// Given a group, they run on its members in lock step.
func (ctx *Ctx) longs(salt uint64, ts []*Target, kinds []Kind, types string, next bool, fn runFn, group ...*Target) {
	if ctx.stop.Load() {
		return
	}
	ctx.sharded(salt, func(shard int, r *R, cov *Cov, _ func(*Viol)) {
		k := 0
		for _, t := range ts {
			for _, kind := range kinds {
				tys := []typ{{"U", 1, 0}}
				if kind == KWriteT || kind == KReadT {
					tys = t.types(types)
				}
				for _, y := range tys {
					limit := int64(ctx.n(70000, 1<<20+1))
					if kind >= KClearAll && kind <= KFlipAll {
						limit = 1<<20 + 1
					}
					lens := append(longLens(min(limit, longCap)), oddLens(min(limit, longCap))...)
					if group == nil && longCap == math.MaxInt64 {
						lens = append(lens, literalLens(limit, 1<<22+1)...)
					}
					for _, n := range lens {
						k++
						if k%nShards != shard {
							continue
						}
						off := int64([]int{0, 0, 1, 3, 7, 8, 9, r.Intn(99)}[r.Intn(8)])
						tail := r.Intn(12)
						if kind >= KClearAll {
							off, tail = 0, 0
						}
						o := &Op{K: kind, Ty: y.Ty, W: y.W, Ord: y.Ord, Off: off, N: int64(n), Prior: 5}
						switch kind {
						case KWriteT:
							o.N, o.Vals = 0, r.vals(n)
						case KWriteBytes:
							o.N, o.Data = 0, r.data(n)
							if off+int64(tail) > 0 && r.p(0.4) {
								o.Own = 1 + r.Int63n(off+int64(tail)+1)
							}
						}
						c := &Case{Target: t.ID, Targets: idsOf(group), Around: r.Uint64(), Init: []SliceInit{{Len: n*y.W + int(off) + tail, Spare: r.Intn(9), Lead: 8, Trail: 8, Seed: r.Uint64(), Mode: []int{0, 0, 4}[r.Intn(3)]}}}
						if next && kind < KClearAll {
							c.Ops = append(c.Ops, &Op{K: KSeek, Off: off})
							o.Next, o.Off = true, 0
						}
						c.Ops = append(c.Ops, o)
						if !ctx.try(fn, shard, c, cov) {
							return
						}
						cov.count("long transfers", 1)
					}
				}
			}
		}
	})
}

// longsRefused drives long transfers that fit except for a part: a byte, an element,
// a block, half, all but a little; or that start just before the buffer. What follows on
// the same buffer is an access that fits.
func (ctx *Ctx) longsRefused(salt uint64, ts []*Target, fn runFn) {
	if ctx.stop.Load() {
		return
	}
	limit := int64(ctx.n(70000, 1<<20+1))
	lens := append(longLens(limit), literalLens(limit, 1<<22+1)...)
	ctx.sharded(salt, func(shard int, r *R, cov *Cov, _ func(*Viol)) {
		k := 0
		for _, t := range ts {
			for _, kind := range []Kind{KWriteBytes, KReadBytes, KWriteT, KReadT} {
				tys := []typ{{"U", 1, 0}}
				if kind == KWriteT || kind == KReadT {
					tys = t.types("UIF")
				}
				for _, y := range tys {
					for _, n := range lens {
						if k++; k%nShards != shard {
							continue
						}
						bytes := n * y.W
						short := []int{1, y.W, 1 + r.Intn(64), bytes / 2, 1 + r.Intn(bytes), bytes - 1 - r.Intn(min(64, bytes-1))}[r.Intn(6)]
						short = min(short, bytes)
						off := int64([]int{0, 0, 1, 7, r.Intn(99)}[r.Intn(5)])
						size := int(off) + bytes - short
						if r.p(0.2) {
							off, size = -1-int64(r.Intn(9)), bytes+r.Intn(3)
						}
						o := &Op{K: kind, Ty: y.Ty, W: y.W, Ord: y.Ord, Off: off, N: int64(n), Prior: 5}
						good := *o
						good.Off, good.N = 0, int64(size/y.W)
						switch kind {
						case KWriteT:
							o.N, o.Vals = 0, r.vals(n)
							good.N, good.Vals = 0, o.Vals[:min(n, size/y.W)]
						case KWriteBytes:
							o.N, o.Data = 0, r.data(n)
							good.N, good.Data = 0, o.Data[:min(n, size)]
						}
						c := &Case{Target: t.ID, Around: r.Uint64(), Init: []SliceInit{{Len: size, Spare: []int{0, 3, bytes + 9}[r.Intn(3)], Lead: 8, Trail: 8, Seed: r.Uint64()}}}
						if r.p(0.4) {
							c.Ops = append(c.Ops, &Op{K: KSeek, Off: off})
							o.Next, o.Off = true, 0
						}
						c.Ops = append(c.Ops, o, &good)
						if !ctx.try(fn, shard, c, cov) {
							return
						}
						cov.count("long transfers that do not fit", 1)
					}
				}
			}
		}
	})
}

// bulk drives operations on buffers of up to limit bytes, of sizes that are round, just
// beside round, and neither.
func (ctx *Ctx) bulk(salt uint64, ts []*Target, limit int64, gen func(t *Target, size int64, r *R) []*Op, fn runFn) {
	if ctx.stop.Load() {
		return
	}
	set := map[int64]bool{}
	add := func(b int64) {
		for _, v := range []int64{b - 1, b, b + 1, b + b/3, 2*b + b/7} {
			if v > 8 && v <= limit {
				set[v] = true
			}
		}
	}
	for b := int64(1 << 16); b <= limit; b *= 4 {
		add(b)
	}
	for _, d := range dict {
		if d > 1<<12 {
			add(d)
		}
	}
	var sizes []int64
	for v := range set {
		sizes = append(sizes, v)
	}
	sort.Slice(sizes, func(i, j int) bool { return sizes[i] < sizes[j] })
	ctx.sharded(salt, func(shard int, r *R, cov *Cov, _ func(*Viol)) {
		k := 0
		for i := len(sizes) - 1; i >= 0; i-- {
			for _, t := range ts {
				if k++; k%nShards != shard {
					continue
				}
				c := &Case{Target: t.ID, Around: 3, Init: []SliceInit{{Len: int(sizes[i]), Spare: []int{0, 0, 5, 4096}[r.Intn(4)], Lead: 8, Trail: 8, Seed: r.Uint64()}}, Ops: gen(t, sizes[i], r)}
				if !ctx.try(fn, shard, c, cov) {
					return
				}
				cov.count("large buffers", 1)
			}
		}
	})
}

func idsOf(ts []*Target) (ids []string) {
	for _, t := range ts {
		ids = append(ids, t.ID)
	}
	return
}

// ---- huge buffers ----

// huge drives accesses around positions beyond the 31- and 32-bit ranges, on
// a sparse buffer. Contents are watched through windows: the one addressed,
// and those a truncated position would hit instead.
func (ctx *Ctx) huge(salt uint64, ts []*Target, kinds []Kind, types string, next bool) {
	if ctx.stop.Load() {
		return
	}
	const size = hugeSize
	cov := newCov()
	defer ctx.merge(cov)
	r := newR(mix(ctx.Seed, salt))
	mem, err := mmapSparse(size)
	if err != nil {
		cov.count("huge buffers unavailable", 1)
		return
	}
	defer syscall.Munmap(mem)
	for _, t := range ts {
		s := newSubj(t, t.New(mem))
		if s.query(2) != size || s.query(3) != size*8 {
			ctx.report(&Viol{Text: fmt.Sprintf("%s: a buffer of %d bytes reports sizes %d/%d", t.ID, size, s.query(2), s.query(3)), Kind: "huge"})
			return
		}
		var marks []int64 // byte positions
		for _, b := range []int64{28, 29, 31, 32, 33} {
			if int64(1)<<uint(b) < size {
				marks = append(marks, 1<<uint(b))
			}
		}
		for _, k := range kinds {
			tys := []typ{{"U", 1, 0}}
			if k == KWriteT || k == KReadT {
				tys = t.types(types)
			}
			for _, y := range tys {
				for _, m := range marks {
					for rep := 0; rep < 3; rep++ {
						n := 1 + int64(r.Intn(9))
						off := m - int64(r.Intn(20)) + int64(r.Intn(6))
						if rep == 2 && m == marks[len(marks)-1] { // exactly at the end
							off = size - n*int64(y.W)
						}
						o := &Op{K: k, Ty: y.Ty, W: y.W, Ord: y.Ord, Off: off, N: n, Prior: 9, Val: r.val()}
						switch k {
						case KWriteT:
							o.Vals, o.N = r.vals(int(n)), 0
						case KWriteBytes:
							o.Data, o.N = r.data(int(n)), 0
						case KWriteByte:
							o.Val &= 0xFF
						case KSetBit:
							o.Val &= 1
						case KReadBits, KSetBits:
							o.N = 1 + int64(r.Intn(64))
						}
						if o.isBit() {
							o.Off = off*8 + int64(r.Intn(8))
							if o.N > size*8-o.Off {
								o.N = size*8 - o.Off
							}
						}
						if next {
							o.Next = true
						}
						if o.method(t) == "" {
							continue
						}
						if v := hugeOne(s, mem, size, o, r); v != "" {
							ctx.report(&Viol{Text: v + fmt.Sprintf("\n  %s on a %d-byte buffer: %s", t.ID, size, o), Kind: "huge"})
							return
						}
						cov.hit(hashStr(hashInt(hashStr(hash0, t.ID), o.Off), o.method(t)), true)
						cov.count("huge-position accesses", 1)
					}
				}
			}
		}
	}
}

func hugeOne(s *Subj, mem []byte, size int64, o *Op, r *R) string {
	const win = 160
	byteOff := o.Off
	if o.isBit() {
		byteOff = o.Off / 8
	}
	// the window the operation addresses
	base := max(0, byteOff-32)
	top := min(size, base+win)
	w := mem[base:top]
	for i := range w {
		w[i] = byte(r.Uint64())
	}
	// windows that truncated positions would hit
	var alias [][2]int64
	for _, b := range []int64{31, 32} {
		for _, p := range []int64{byteOff & (1<<uint(b) - 1), (o.Off & (1<<uint(b) - 1)) / 8, (byteOff * 8 & (1<<uint(b) - 1)) / 8} {
			lo := max(0, p-32)
			hi := min(size, lo+win)
			if hi <= base || lo >= top {
				alias = append(alias, [2]int64{lo, hi})
			}
		}
	}
	for _, a := range alias {
		for i := a[0]; i < a[1]; i++ {
			if i < base || i >= top {
				mem[i] = byte(i*31 + 7)
			}
		}
	}
	v := *o
	v.Off -= base
	if o.isBit() {
		v.Off = o.Off - base*8
	}
	v.Next = false
	e := spec(s.T, &State{Data: append([]byte(nil), w...)}, &v)
	if e.Unspec || e.Refuse {
		return ""
	}
	if o.Next {
		k := KSeek
		if o.isBit() {
			k = KSeekBit
		}
		s.exec(&Op{K: k, Off: o.Off})
	}
	p := *o
	if o.Next {
		p.Off = 0
	}
	res := s.exec(&p)
	st := &Step{T: s.T, Op: o, Res: res, Exp: e}
	if res.Panicked {
		return panicked(st)
	}
	if x := badResult(st); x != "" {
		return x
	}
	if x := diffData(w, e.Data); x != "" {
		return "contents wrong around the addressed position: " + x
	}
	for _, a := range alias {
		for i := a[0]; i < a[1]; i++ {
			if (i < base || i >= top) && mem[i] != byte(i*31+7) {
				return fmt.Sprintf("byte %d changed", i)
			}
		}
	}
	if o.Next {
		q, want := 0, o.Off+o.count()*o.width()
		if o.isBit() {
			q = 1
		}
		if got := s.query(q); got != want {
			return fmt.Sprintf("the cursor is at %d, should be at %d", got, want)
		}
	}
	// tidy up, so that later operations start from known bytes
	for i := range w {
		w[i] = 0
	}
	return ""
}

// hugeAgree drives the same accesses on every implementation that offers them, at
// positions beyond the 31- and 32-bit ranges: what each of them does is the same.
func (ctx *Ctx) hugeAgree(salt uint64, next bool) {
	if ctx.stop.Load() {
		return
	}
	const size = hugeSize
	cov := newCov()
	defer ctx.merge(cov)
	r := newR(mix(ctx.Seed, salt))
	mem, err := mmapSparse(size)
	if err != nil {
		cov.count("huge buffers unavailable", 1)
		return
	}
	defer syscall.Munmap(mem)
	var subs []*Subj
	for _, t := range targets {
		subs = append(subs, newSubj(t, t.New(mem)))
	}
	for _, k := range accessKinds {
		tys := []typ{{"U", 1, 0}}
		if k == KWriteT || k == KReadT {
			tys = where(modern)[0].types("UIF")
		}
		for _, y := range tys {
			for _, b := range []int64{28, 29, 31, 32, 33} {
				m := int64(1) << uint(b)
				if m >= size {
					continue
				}
				for rep := 0; rep < 3; rep++ {
					n := 1 + int64(r.Intn(9))
					off := m - int64(r.Intn(20)) + int64(r.Intn(6))
					if rep == 2 {
						off = min(m, size-n*int64(y.W))
					}
					o := &Op{K: k, Ty: y.Ty, W: y.W, Ord: y.Ord, Off: off, N: n, Prior: 9, Val: r.val(), Next: next}
					switch k {
					case KWriteT:
						o.Vals, o.N = r.vals(int(n)), 0
					case KWriteBytes:
						o.Data, o.N = r.data(int(n)), 0
					case KWriteByte:
						o.Val &= 0xFF
					case KSetBit:
						o.Val &= 1
					case KReadBits, KSetBits:
						o.N = 1 + int64(r.Intn(64))
					}
					if o.isBit() {
						o.Off = off*8 + int64(r.Intn(8))
						o.N = min(o.N, size*8-o.Off)
					}
					seed := r.Uint64()
					first, by := "", ""
					for _, s := range subs {
						if o.method(s.T) == "" {
							continue
						}
						got := hugeSeen(s, mem, size, o, newR(seed))
						if by == "" {
							first, by = got, s.T.ID
						}
						if got != first {
							ctx.report(&Viol{Text: fmt.Sprintf("on a buffer of %d bytes, %s differs: on %s %s; on %s %s", size, o, by, short(first), s.T.ID, short(got)), Kind: "huge"})
							return
						}
						cov.count("huge-position accesses compared", 1)
					}
					if by != "" {
						cov.hit(hashInt(hashStr(hashStr(hash0, o.method(targetByID(by))), "huge"), o.Off), true)
					}
				}
			}
		}
	}
}

func short(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

// hugeSeen tells all that an access did: its result, the bytes around the places it
// addresses or might mistakenly address, and the cursors.
func hugeSeen(s *Subj, mem []byte, size int64, o *Op, r *R) string {
	const win = 160
	byteOff := o.Off
	if o.isBit() {
		byteOff = o.Off / 8
	}
	places := []int64{byteOff}
	for _, b := range []int64{28, 29, 31, 32} {
		places = append(places, byteOff&(1<<uint(b)-1), (o.Off&(1<<uint(b)-1))/8, (byteOff*8&(1<<uint(b)-1))/8)
	}
	each := func(f func(w []byte)) {
		for _, p := range places {
			lo := max(0, p-32)
			f(mem[lo:min(size, lo+win)])
		}
	}
	each(func(w []byte) {
		for i := range w {
			w[i] = byte(r.Uint64())
		}
	})
	q := *o
	s.exec(&Op{K: KSeek, Off: 3})
	s.exec(&Op{K: KSeekBit, Off: 5})
	if o.Next {
		if o.isBit() {
			s.exec(&Op{K: KSeekBit, Off: o.Off})
		} else {
			s.exec(&Op{K: KSeek, Off: o.Off})
		}
		q.Off = 0
	}
	res := s.exec(&q)
	out := lockKey(&q, res) + fmt.Sprintf(" cursors %d/%d bytes", s.query(0), s.query(1))
	each(func(w []byte) { out += fmt.Sprintf(" %x", w) })
	each(func(w []byte) { clear(w) })
	return out
}
