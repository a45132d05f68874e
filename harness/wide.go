package main

import (
	"bytes"
	"fmt"
	"syscall"
)

// wideLife resizes, truncates and resets buffers whose sizes are beyond the 31- and
// 32-bit ranges; kinds says which of those. The contents are known at marks.
func (ctx *Ctx) wideLife(kinds ...Kind) {
	if ctx.stop.Load() {
		return
	}
	const size = hugeSize
	cov := newCov()
	defer ctx.merge(cov)
	mem, err := mmapSparse(size)
	if err != nil {
		cov.count("huge buffers unavailable", 1)
		return
	}
	defer syscall.Munmap(mem)
	r := newR(mix(ctx.Seed, 99))
	var marks []int64
	for _, m := range []int64{1 << 16, 1 << 28, 1 << 29, 1 << 31, 1 << 32, 1<<32 + 1<<31, size} {
		for d := int64(-2); d <= 2; d++ {
			if p := m + d; p >= 0 && p < size {
				marks = append(marks, p)
			}
		}
	}
	for i, p := range marks {
		mem[p] = byte(i*5 + 1)
	}
	for _, t := range targets {
		fresh := func(lo, hi, room int64) *Subj { return newSubj(t, t.New(mem[lo:hi:room])) }
		var amounts []int64
		for _, m := range []int64{0, 1 << 20, 1 << 28, 1 << 31, 1 << 32, size - 1<<31, size - 1<<32, size - 1<<16, size} {
			for d := int64(-1); d <= 1; d++ {
				if a := m + d; a >= 0 && a <= size {
					amounts = append(amounts, a)
				}
			}
		}
		bad := func(o *Op, f string, a ...any) {
			ctx.report(&Viol{Text: fmt.Sprintf("%s, %s: ", t.ID, o) + fmt.Sprintf(f, a...), Kind: "huge"})
		}
		// judge: the contents of s are mem[lo:hi]
		judge := func(o *Op, s *Subj, lo, hi, off, boff int64) bool {
			l := s.live()
			if int64(len(l)) != hi-lo || s.query(2) != hi-lo || s.query(3) != 8*(hi-lo) {
				bad(o, "the size is %d, reported as %d and %d bits, should be %d", len(l), s.query(2), s.query(3), hi-lo)
				return false
			}
			if s.query(0) != off || s.query(1) != boff {
				bad(o, "the cursors are at %d/%d, should be at %d/%d", s.query(0), s.query(1), off, boff)
				return false
			}
			for _, p := range marks {
				if p >= lo && p < hi && l[p-lo] != mem[p] {
					bad(o, "byte %d is %#x, should be %#x", p-lo, l[p-lo], mem[p])
					return false
				}
			}
			cov.hit(hashInt(hashInt(hashStr(hash0, t.ID+o.String()), lo), hi), true)
			cov.count("resizes of huge buffers", 1)
			return true
		}
		for _, k := range kinds {
			for _, a := range amounts {
				if ctx.stop.Load() {
					return
				}
				lo, hi := int64(0), size
				o := &Op{K: k, N: a}
				off, boff := int64(r.Intn(1000)), int64(r.Intn(1000))
				var s *Subj
				switch k {
				case KTruncL:
					s, lo = fresh(0, size, size), a
				case KTruncR:
					s, hi = fresh(0, size, size), size-a
				case KReset:
					if a == 0 {
						continue
					}
					s, hi, off, boff = fresh(0, a, a), 0, 0, 0
				case KGrow: // within the storage, up to the mark
					if a < 1<<20 {
						continue
					}
					o.N = min(48, a)
					s, hi = fresh(0, a-o.N, a), a
				case KRefresh:
					s, hi = fresh(0, a, a), a
				}
				if o.method(t) == "" {
					continue
				}
				if k != KReset {
					s.exec(&Op{K: KSeek, Off: off})
					s.exec(&Op{K: KSeekBit, Off: boff})
				}
				var was []byte
				if k == KGrow {
					was = append(was, mem[a-o.N:a]...)
				}
				if res := s.exec(o); res.Panicked {
					bad(o, "panicked on a buffer of %d bytes", size)
					return
				}
				if k == KGrow { // the added bytes are zero
					l := s.live()
					if int64(len(l)) == a {
						for i := a - o.N; i < a; i++ {
							if l[i] != 0 {
								bad(o, "added byte %d is not zero", i)
								return
							}
						}
					}
					copy(mem[a-o.N:a], make([]byte, o.N))
				}
				ok := judge(o, s, lo, hi, off, boff)
				if k == KGrow {
					copy(mem[a-o.N:a], was)
				}
				if !ok {
					return
				}
			}
		}
	}
}

// wholeHuge applies the whole-buffer bit operations to buffers whose sizes in bits
// are beyond the 32-bit range, and looks at every byte.
func (ctx *Ctx) wholeHuge() {
	if ctx.stop.Load() {
		return
	}
	const size, block = hugeSize, int64(1) << 20
	cov := newCov()
	defer ctx.merge(cov)
	mem, err := mmapSparse(size)
	if err != nil {
		cov.count("huge buffers unavailable", 1)
		return
	}
	defer syscall.Munmap(mem)
	want := make([]byte, block)
	now := byte(0)
	for _, t := range targets {
		s := newSubj(t, t.New(mem[:size-1:size]))
		for _, k := range []Kind{KSetAll, KFlipAll, KFlipAll, KClearAll} { // each changes every byte
			o := &Op{K: k}
			if o.method(t) == "" {
				continue
			}
			switch k {
			case KFlipAll:
				now ^= 0xFF
			case KSetAll:
				now = 0xFF
			case KClearAll:
				now = 0
			}
			mem[size-1] = 0x3C
			if res := s.exec(o); res.Panicked {
				ctx.report(&Viol{Text: fmt.Sprintf("%s: %s panicked on a buffer of %d bytes: %v", t.ID, o, size-1, res.Panic), Kind: "huge"})
				return
			}
			for i := range want {
				want[i] = now
			}
			for lo := int64(0); lo < size-1; lo += block {
				got := mem[lo:min(lo+block, size-1)]
				if !bytes.Equal(got, want[:len(got)]) {
					i := lo + int64(mismatch(got, want[:len(got)]))
					ctx.report(&Viol{Text: fmt.Sprintf("%s: after %s on a buffer of %d bytes, byte %d is %#x, should be %#x", t.ID, o, size-1, i, mem[i], now), Kind: "huge"})
					return
				}
			}
			if mem[size-1] != 0x3C {
				ctx.report(&Viol{Text: fmt.Sprintf("%s: %s on a buffer of %d bytes changed the byte behind it", t.ID, o, size-1), Kind: "huge"})
				return
			}
			cov.hit(hashStr(hash0, t.ID+o.String()), true)
			cov.count("whole-buffer operations on huge buffers", 1)
		}
	}
}
