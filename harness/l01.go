package main

import (
	"bytes"
	"fmt"
	"unsafe"
)

var straysWere = func() (r [][]byte) {
	for _, x := range strays {
		r = append(r, append([]byte(nil), x...))
	}
	return
}()

// runL01 judges one construction.
func (ctx *Ctx) runL01(shard int, c *Case, cov *Cov) *Viol {
	t := targetByID(c.Target)
	vi := func(f string, a ...any) *Viol {
		return &Viol{Text: fmt.Sprintf("%s built from %d slices: ", t.ID, len(c.Init)) + fmt.Sprintf(f, a...), Case: c, Kind: "case"}
	}
	ctx.prog[shard].Add(1)
	arenas, slices := c.slices(c.Around)
	want := flat(slices)
	headers := append([][]byte{}, slices[:cap(slices)]...) // with the list's spare room
	var copies [][]byte
	for _, a := range arenas {
		copies = append(copies, append([]byte(nil), a...))
	}
	unchanged := func(lo, hi int) string {
		for k, a := range arenas {
			for i := range a {
				if a[i] != copies[k][i] && !(len(slices) == 1 && i >= lo && i < hi) {
					return fmt.Sprintf("byte %d of the array behind slice %d changed", i, k)
				}
			}
		}
		return ""
	}
	var b any
	if msg := catch(func() { b = t.New(slices...) }); msg != "" {
		return vi("panicked: %s", msg)
	}
	s := newSubj(t, b)
	st := s.observe()
	if d := diffData(st.Data, want); d != "" {
		return vi("contents are not the concatenation: %s", d)
	}
	if st.Off != 0 || st.Boff != 0 {
		return vi("cursors start at %d/%d", st.Off, st.Boff)
	}
	if st.Cap != int64(len(want)) || st.Bcap != 8*int64(len(want)) {
		return vi("sizes are %d/%d for %d bytes", st.Cap, st.Bcap, len(want))
	}
	if x := unchanged(0, 0); x != "" {
		return vi("%s", x)
	}
	list := slices[:cap(slices)]
	for i := range headers {
		if len(headers[i]) != len(list[i]) || unsafe.SliceData(headers[i]) != unsafe.SliceData(list[i]) {
			return vi("the argument list itself was changed at slice %d", i)
		}
	}
	for i, x := range strays {
		if !bytes.Equal(x, straysWere[i]) {
			return vi("bytes of a slice beyond the argument list changed")
		}
	}
	n := int64(len(want))
	switch {
	case len(slices) == 1:
		if n > 0 {
			// shares the storage: what one side writes, the other sees
			if &st.live[0] != &slices[0][0] {
				return vi("does not share the storage of the single slice")
			}
			s.exec(&Op{K: KFlipAll})
			for i, x := range slices[0] {
				if x != ^want[i] {
					return vi("a change through the buffer is not seen in the slice")
				}
			}
			slices[0][n-1] ^= 0x3C
			if s.live()[n-1] != ^want[n-1]^0x3C {
				return vi("a change of the slice is not seen in the buffer")
			}
		}
	default:
		// shares nothing: neither side sees the other's changes, nor does growth
		// touch the slices' spare room
		s.exec(&Op{K: KFlipAll})
		s.exec(&Op{K: KGrow, N: 3})
		s.exec(&Op{K: KSetAll})
		if x := unchanged(0, 0); x != "" {
			return vi("after changing and growing the buffer, %s", x)
		}
		for _, a := range arenas {
			for i := range a {
				a[i] ^= 0x55
			}
		}
		if x := s.live(); !bytes.Equal(x, bytes.Repeat([]byte{0xFF}, len(want)+3)) {
			return vi("a change of the slices is seen in the buffer")
		}
	}
	if cov != nil {
		h := hashStr(hash0, t.ID)
		for i := range c.Init {
			h = hashInt(h, int64(c.Init[i].Len)<<20|int64(c.Init[i].Spare))
		}
		cov.hit(h, n > 0)
		cov.Counts[fmt.Sprintf("%s from %d", t.ID, min(len(slices), 6))]++
		if len(cov.samples) < 1 && len(slices) > 2 {
			cov.samples = append(cov.samples, fmt.Sprintf("%s from %d slices of %d bytes in all: contents, sizes, cursors, independence", t.ID, len(slices), n))
		}
	}
	return nil
}

func runL01All(ctx *Ctx) {
	fn := props["L01"].Fn(ctx)
	lens := []int{-1, 0, 1, 2, 7, 8, 9, 64}
	ctx.sharded(151, func(shard int, r *R, cov *Cov, _ func(*Viol)) {
		mk := func(l int) SliceInit {
			si := SliceInit{Len: max(l, 0), Nil: l < 0, Spare: []int{0, 0, 1, 8, 64, 300}[r.Intn(6)], Lead: r.Intn(9), Trail: r.Intn(9), Seed: r.Uint64(), Mode: r.Intn(4)}
			if si.Nil {
				si.Spare = 0
			}
			return si
		}
		for _, t := range targets {
			// every combination of up to three slices of these lengths
			idx := 0
			var rec func(cur []int, depth int) bool
			rec = func(cur []int, depth int) bool {
				idx++
				if idx%nShards == shard {
					c := &Case{Target: t.ID, Around: r.Uint64()}
					for _, l := range cur {
						c.Init = append(c.Init, mk(l))
					}
					if !ctx.try(fn, shard, c, cov) {
						return false
					}
				}
				if depth == 0 {
					return true
				}
				for _, l := range lens {
					if !rec(append(append([]int{}, cur...), l), depth-1) {
						return false
					}
				}
				return true
			}
			if !rec(nil, 3) {
				return
			}
			for i := 0; i < ctx.hn(2500, 60000); i++ {
				c := &Case{Target: t.ID, Around: r.Uint64()}
				n := r.Intn(6)
				switch {
				case r.p(0.05):
					n = 6 + r.Intn(40)
				case r.p(0.01):
					n = int(longLens(600)[r.Intn(len(longLens(600)))])
				}
				for j := 0; j < n; j++ {
					l := r.size(100)
					if r.p(0.1) {
						l = -1
					}
					c.Init = append(c.Init, mk(l))
					if j > 0 && r.p(0.12) { // overlapping or the same memory as an earlier slice
						of := r.Intn(j)
						si := &c.Init[j]
						si.Of, si.Nil, si.Spare = of+1, false, r.Intn(20)
						si.Len, si.Lead = c.Init[of].Len, c.Init[of].Lead
						if r.p(0.6) {
							si.Len, si.Lead = r.Intn(si.Len+4), max(0, si.Lead+r.Intn(9)-4)
						}
					}
				}
				if !ctx.try(fn, shard, c, cov) {
					return
				}
			}
			// very many slices, of which most are small
			for k, n := range []int{1<<16 - 1, 1 << 16, 1<<16 + 1, 1<<16 + 300, ctx.n(1<<17+1, 1<<20+1)} {
				if (k+1)%nShards != shard {
					continue
				}
				c := &Case{Target: t.ID, Around: r.Uint64()}
				for range n {
					c.Init = append(c.Init, SliceInit{Len: []int{1, 1, 0, 2}[r.Intn(4)], Spare: r.Intn(2), Seed: r.Uint64()})
				}
				if !ctx.try(fn, shard, c, cov) {
					return
				}
			}
			for k, l := range append(longLens(int64(ctx.n(70000, 1<<20+1))), 1<<18+1, 1<<20, 1<<20+1<<17+3, 1<<22+5) {
				if k%nShards == shard {
					for _, in := range [][]SliceInit{{mk(l)}, {mk(l), mk(3)}, {mk(0), mk(l)}, {mk(l), mk(l)}} {
						if !ctx.try(fn, shard, &Case{Target: t.ID, Around: 1, Init: in}, cov) {
							return
						}
					}
				}
			}
		}
	})
	ctx.vast(KNew)
}
