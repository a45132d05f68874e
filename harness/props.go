package main

import (
	"fmt"
	"math"
)

// caseFn makes a runFn out of a judge.
func caseFn(j func(*Ctx) Judge) func(*Ctx) runFn {
	return func(ctx *Ctx) runFn {
		jj := j(ctx)
		return func(shard int, c *Case, cov *Cov) *Viol { return runCase(ctx, shard, c, jj, cov) }
	}
}
func plain(j Judge) func(*Ctx) runFn { return caseFn(func(*Ctx) Judge { return j }) }

func mixOf(f func(m Mix) Mix) func(*Target) Mix {
	return func(t *Target) Mix {
		m := defaultMix()
		if f != nil {
			m = f(m)
		}
		return m
	}
}

var byteKinds = []Kind{KWriteBytes, KReadBytes, KWriteByte, KReadByte}
var typedKinds = []Kind{KWriteT, KReadT}
var bitKinds = []Kind{KReadBit, KSetBit, KFlipBit}
var fieldKinds = []Kind{KReadBits, KSetBits}
var accessKinds = []Kind{KWriteBytes, KReadBytes, KWriteByte, KReadByte, KWriteT, KReadT, KReadBit, KReadBits, KSetBit, KSetBits, KFlipBit}
var allBitKinds = []Kind{KClearAll, KSetAll, KFlipAll}

// valueProp is the common shape of the value properties: systematic grids,
// long transfers, huge positions and random histories, all under one judge.
func valueProp(rule string, j func(*Ctx) runFn, tf func(*Target) bool, kinds []Kind, types string, gridMax int) *Prop {
	return &Prop{Rule: rule, Fn: j, Run: func(ctx *Ctx) {
		fn := j(ctx)
		ts := where(tf)
		ctx.grid(1, ts, upto(ctx.n(gridMax, gridMax+gridMax/3)), func(t *Target, size int64, r *R) []*Op {
			return gridOps(t, size, r, kinds, types, false, false)
		}, fn)
		ctx.longs(2, ts, kinds, types, false, fn)
		ctx.huge(3, ts, kinds, types, false)
		switch {
		case kinds[0] == KWriteBytes:
			ctx.wideMoves("")
			ctx.vast(kinds...)
		case kinds[0] == KWriteT:
			ctx.wideMoves(types)
		}
		mx := mixOf(func(m Mix) Mix {
			m.Types = types
			for k := range m.W {
				m.W[k] = 2
			}
			m.Next = 0.15
			m.W[KReset] = 1
			m.W[KGrow] = 4
			return m.with(40, kinds...)
		})
		ctx.histories(4, ts, mx, ctx.hn(250, 6000), 60, fn)
		// sequential and positioned accesses of the same few bytes, in turn
		ctx.histories(9, ts, mixOf(func(m Mix) Mix {
			m.Types, m.Next, m.MaxSize, m.MaxLen = types, 0.5, 12, 6
			return m.only(1, KWriteByte, KReadByte, KSetBit, KGrow).with(20, kinds...).with(2, KSeek, KSeekBit)
		}), ctx.hn(80, 2000), 60, fn)
		ctx.histories(5, ts, func(t *Target) Mix { m := mx(t); m.MaxSize, m.MaxLen = 3000, 800; return m }, ctx.hn(12, 250), 60, fn)
		ctx.marathon(6, ts, kinds, types, false, nil, fn)
		// short accesses all over large buffers
		ctx.bulk(10, ts, int64(ctx.n(1<<20+1<<18, 1<<24)), func(t *Target, size int64, r *R) (ops []*Op) {
			if size < 64 {
				return
			}
			for i := 0; i < 4; i++ {
				for _, o := range gridOps(t, 9, r, kinds, types, false, false) {
					if !r.p(0.15) && len(kinds) < 4 || !r.p(0.1) || len(ops) > 40 {
						continue
					}
					at := r.spot(size - 9)
					if o.isBit() {
						at *= 8
					}
					o.Off += at
					if o.Own > 0 {
						o.Own = 0
					}
					ops = append(ops, o)
				}
			}
			return
		}, fn)
		ctx.sandwich(7, ts, kinds, types, false, ctx.n(3, 40), fn)
		ctx.blind(8, ts, func(t *Target) Mix {
			m := mx(t)
			m.Next, m.MaxSize = 0, 40
			return m.only(0).with(20, kinds...).with(3, KSeek, KSeekBit)
		}, blindData, ctx.hn(60, 1500), 30, fn)
	}}
}

func init() {
	props["C01"] = valueProp("one typed integer access judged: result and complete contents against an independent codec; distinct by target, method, size, offset, count",
		plain(judgeC01), all, typedKinds, "UI", 26)
	props["C02"] = valueProp("one float access judged bit for bit: result and complete contents against an independent codec; distinct by target, method, size, offset, count",
		plain(judgeC02), modern, typedKinds, "F", 34)
	props["C03"] = &Prop{Rule: "one v1 typed access judged: element size, dynamic type, byte order (two predefined, fourteen custom implementations), contents, or the refusal of an unsupported size",
		Fn: plain(judgeC03), Run: runC03}
	props["C04"] = valueProp("one byte access judged: result and complete contents; distinct by target, method, size, offset, length",
		func(ctx *Ctx) runFn { ctx.wantHeld = true; return plain(judgeC04)(ctx) }, all, byteKinds, "", 40)
	props["B01"] = &Prop{Rule: "one single-bit access judged: result and complete contents, or the refusal of an invalid bit value",
		Fn: plain(judgeB01), Run: func(ctx *Ctx) {
			p := valueProp("", plain(judgeB01), all, bitKinds, "", 40)
			p.Run(ctx)
			fn := plain(judgeB01)(ctx)
			ctx.grid(11, where(func(t *Target) bool { return t.Ver < 3 }), []int{1, 2, 9}, func(t *Target, size int64, r *R) (ops []*Op) {
				for p := int64(0); p < size*8; p++ {
					for v := uint64(2); v < 256; v += uint64(1 + r.Intn(9)) {
						ops = append(ops, &Op{K: KSetBit, Off: p, Val: v})
					}
				}
				return
			}, fn)
			ctx.histories(12, where(func(t *Target) bool { return t.Ver < 3 }), mixOf(func(m Mix) Mix {
				m.Invalid = 0.3
				m.Next = 0.2
				return m.only(10, bitKinds...).with(3, KGrow, KTruncL, KSeekBit)
			}), ctx.hn(60, 1500), 60, fn)
		}}
	props["B02"] = valueProp("one bit-field access judged: result and complete contents against a bit-by-bit oracle; distinct by target, method, size, bit position, field width",
		plain(judgeB02), all, fieldKinds, "", 17)
	props["B03"] = &Prop{Rule: "one whole-buffer bit operation judged: complete contents, sizes, cursors and all memory around the contents; non-trivial when the buffer is not empty",
		Fn: func(ctx *Ctx) runFn { ctx.wantOutside = true; return plain(judgeB03)(ctx) }, Run: runB03}
	props["N01"] = &Prop{Rule: "one sequential access judged against the positioned form on an identical second buffer, and its cursor advance; non-trivial when something is transferred",
		Fn: caseFn(func(ctx *Ctx) Judge { return ctx.judgeN01 }), Run: runN01}
	props["N02"] = &Prop{Rule: "cursors observed after one operation; non-trivial for seeks, alignment, remaining-space queries and operations with a cursor away from zero",
		Fn: plain(judgeN02), Run: runN02}
	props["S01"] = &Prop{Rule: "one access on a checked buffer judged: carried out exactly if in range, else refused with the documented error of its direction",
		Fn: caseFn(func(ctx *Ctx) Judge { return ctx.judgeS01 }), Run: runS01}
	props["S02"] = &Prop{Rule: "one refused operation judged: contents, sizes and cursors as before, lock free, later valid operations as on a fresh buffer",
		Fn: plain(judgeS02), Run: runS02}
	props["S03"] = &Prop{Rule: "one operation on twin buffers with equal contents and different surroundings, spare capacity and dropped contents: same outcome, nothing outside changed, decoded results independent",
		Fn: func(ctx *Ctx) runFn { return ctx.runTwin }, Run: runS03}
	props["S04"] = &Prop{Rule: "one zero-length access at a legal position judged: succeeds, transfers and changes nothing",
		Fn: plain(judgeS04), Run: runS04}
	props["L01"] = &Prop{Rule: "one construction judged: contents, cursors, sizes, sharing with a single slice, independence from several, nothing outside touched",
		Fn: func(ctx *Ctx) runFn { return ctx.runL01 }, Run: runL01All}
	props["L02"] = &Prop{Rule: "one growth judged: contents, zero bytes appended, cursors, sizes, or refusal without effect",
		Fn: plain(judgeL02), Run: runL02}
	props["L03"] = &Prop{Rule: "one truncation or reset judged: contents, cursors, sizes, or refusal without effect",
		Fn: plain(judgeL03), Run: runL03}
	props["L04"] = &Prop{Rule: "sizes reported after one operation compared with the contents actually held; non-trivial for operations that are not accesses and for refused ones",
		Fn: plain(judgeL04), Run: runL04}
	props["M01"] = &Prop{Rule: "one operation with out-parameters run twice with different prior destination contents: same result, nothing further touched",
		Fn: plain(judgeM01), Run: runM01, Replay: func(ctx *Ctx, rf *replayFile) *Viol { return ctx.intoDriver() }}
	props["X01"] = &Prop{Rule: "one operation run in lock step on two or more implementations: results, contents, sizes and cursors agree",
		Fn: func(ctx *Ctx) runFn { return ctx.lockFn(false) }, Run: runX01}
}

func (ctx *Ctx) lockFn(refusals bool) runFn {
	return func(shard int, c *Case, cov *Cov) *Viol {
		var ts []*Target
		for _, id := range c.Targets {
			ts = append(ts, targetByID(id))
		}
		return ctx.runLockstep(shard, c, ts, refusals, cov)
	}
}

func runC03(ctx *Ctx) {
	fn := plain(judgeC03)(ctx)
	valueProp("", plain(judgeC03), v1only, typedKinds, "U", 26).Run(ctx)
	// byte orders that pass for the usual ones at first sight
	for next := 0; next < 2; next++ {
		ctx.grid(uint64(23+next), where(v1only), []int{2, 9, 24, 40}, func(t *Target, size int64, r *R) (ops []*Op) {
			for ord := nOrders; ord < nOrders+len(mimics); ord++ {
				for _, w := range []int{2, 4, 8} {
					for _, off := range []int64{0, 1, size / 2} {
						for n := int64(0); n <= 3 && off+n*int64(w) <= size; n++ {
							for _, k := range []Kind{KWriteT, KReadT, KWriteT} {
								o := &Op{K: k, Ty: "U", W: w, Ord: ord, Off: off, N: n, Prior: r.Uint64()}
								if k == KWriteT {
									o.N, o.Vals = 0, r.vals(int(n))
								}
								if next == 1 {
									ops = append(ops, &Op{K: KSeek, Off: off})
									o.Next, o.Off = true, 0
								}
								ops = append(ops, o)
							}
						}
					}
				}
			}
			return
		}, fn)
	}
	// unsupported element sizes
	ctx.grid(21, where(v1only), []int{0, 1, 5, 16, 40}, func(t *Target, size int64, r *R) (ops []*Op) {
		for _, k := range typedKinds {
			for _, w := range []int{-8, -1, 0, 3, 5, 6, 7, 9, 10, 12, 15, 16, 24, 32, 64, 128, 255, 256, 1 << 20} {
				for n := int64(0); n <= min(4, size); n++ {
					for ord := 0; ord < nOrders; ord++ {
						for _, off := range []int64{0, size / 2, size - n} {
							o := &Op{K: k, Ty: "U", W: w, Ord: ord, Off: off, N: n, Prior: r.Uint64()}
							if k == KWriteT {
								o.N, o.Vals = 0, r.vals(int(n))
							}
							ops = append(ops, o)
						}
					}
				}
			}
		}
		return
	}, fn)
	ctx.histories(22, where(v1only), mixOf(func(m Mix) Mix {
		m.Invalid = 0.15
		m.Next = 0.2
		return m.only(3, KGrow, KTruncL, KTruncR, KSeek, KWriteBytes).with(30, typedKinds...)
	}), ctx.hn(250, 5000), 50, fn)
}

func runB03(ctx *Ctx) {
	fn := props["B03"].Fn(ctx)
	ts := where(all)
	ctx.grid(31, ts, upto(ctx.n(300, 1100)), func(t *Target, size int64, r *R) (ops []*Op) {
		for i := 0; i < 2; i++ {
			for _, k := range []Kind{KFlipAll, KFlipAll, KSetAll, KFlipAll, KClearAll, KFlipAll, KSetAll, KClearAll} {
				if size > 0 && i == 1 {
					ops = append(ops, &Op{K: KWriteBytes, Off: 0, Data: r.data(int(size))})
				}
				ops = append(ops, &Op{K: k})
			}
		}
		return
	}, fn)
	ctx.longs(32, ts, allBitKinds, "", false, fn)
	mx := mixOf(func(m Mix) Mix {
		m.MaxSize = 300
		return m.only(4, accessKinds...).with(12, KGrow, KTruncL, KTruncR).with(30, allBitKinds...).with(4, KSeek, KSeekBit, KReset)
	})
	ctx.histories(33, ts, mx, ctx.hn(200, 5000), 50, fn)
	ctx.marathon(34, ts, allBitKinds, "", false, nil, fn)
	ctx.sandwich(35, ts, allBitKinds, "", false, ctx.n(20, 200), fn)
	ctx.blind(36, ts, func(t *Target) Mix {
		m := mx(t)
		m.Next = 0
		return m.only(0).with(10, allBitKinds...).with(3, KSetBit, KFlipBit, KReadBit, KReadBits, KReadByte)
	}, blindData, ctx.hn(60, 1500), 30, fn)
	ctx.wideBits()
	ctx.vast(KSetAll, KClearAll, KFlipAll)
}

func runN01(ctx *Ctx) {
	fn := props["N01"].Fn(ctx)
	ts := where(all)
	ctx.grid(41, ts, append(upto(ctx.n(9, 18)), 31), func(t *Target, size int64, r *R) []*Op {
		ops := gridOps(t, size, r, []Kind{KWriteBytes, KReadBytes, KWriteByte, KReadByte, KWriteT, KReadT, KReadBit, KSetBit, KFlipBit}, "UIF", true, false)
		if size <= 10 {
			ops = append(ops, gridOps(t, size, r, fieldKinds, "", true, false)...)
		}
		return ops
	}, fn)
	ctx.longs(42, ts, []Kind{KWriteT, KReadT, KWriteBytes, KReadBytes}, "UIF", true, fn)
	ctx.huge(43, ts, accessKinds, "UIF", true)
	mx := mixOf(func(m Mix) Mix { m.Next = 0.9; m.Zero = 0.03; return m })
	ctx.histories(44, ts, mx, ctx.hn(150, 4000), 60, fn)
	ctx.histories(45, ts, func(t *Target) Mix { m := mx(t); m.MaxSize, m.MaxLen = 3000, 800; return m }, ctx.hn(8, 200), 60, fn)
	ctx.sandwich(47, ts, accessKinds, "UIF", true, ctx.n(2, 20), fn)
	ctx.blind(48, ts, func(t *Target) Mix {
		m := mx(t)
		m.MaxSize = 40
		return m.only(0).with(10, accessKinds...).with(20, typedKinds...).with(20, KSeek, KSeekBit)
	}, blindData|blindCursors, ctx.hn(60, 1500), 30, fn)
	ctx.bulk(49, ts, int64(ctx.n(1<<18+1<<16, 1<<22)), func(t *Target, size int64, r *R) (ops []*Op) {
		if size < 64 {
			return
		}
		grid := gridOps(t, 9, r, accessKinds, "UIF", true, false)
		for _, i := range r.Perm(len(grid)) {
			o := grid[i]
			if !o.Next {
				continue
			}
			k, at := KSeek, r.spot(size-9)
			if o.isBit() {
				k, at = KSeekBit, at*8+r.Int63n(8)
			}
			if o.Own > 0 {
				o.Own = 0
			}
			if ops = append(ops, &Op{K: k, Off: at}, o); len(ops) > 160 {
				break
			}
		}
		return
	}, fn)
	ctx.marathon(46, ts, accessKinds, "UIF~", true, nil, fn)
}

func runN02(ctx *Ctx) {
	fn := props["N02"].Fn(ctx)
	ts := where(all)
	ctx.grid(51, ts, []int{0, 1, 2, 7, 16, 33, 200}, func(t *Target, size int64, r *R) (ops []*Op) {
		seek := func(k Kind, off int64, rel bool) { ops = append(ops, &Op{K: k, Off: off, Rel: rel}) }
		vals := []int64{0, 1, -1, 2, 7, 8, 9, -7, -8, -9, size, size - 1, size + 1, size * 8, size*8 - 1, size*8 + 1, 255, 256, 65535, 65536,
			1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 3, 1 << 35, -1 << 31, -1 << 32, -1<<31 - 1, 1<<60 - 1, 1 << 61, -1 << 59, math.MaxInt64 / 8, math.MinInt64 / 8, math.MaxInt64, math.MinInt64}
		vals = append(vals, dict...)
		for _, a := range vals {
			for _, b := range vals {
				seek(KSeek, a, false)
				seek(KSeekBit, b, false)
				ops = append(ops, &Op{K: []Kind{KAlignBit, KAlignByte}[r.Intn(2)]})
				seek(KSeek, b, true)
				seek(KSeekBit, a, true)
				ops = append(ops, &Op{K: KAfter, Prior: r.Uint64()}, &Op{K: KAfterBit, Prior: r.Uint64()}, &Op{K: KAfter, Rel: true, Off: a}, &Op{K: KAfterBit, Rel: true, Off: b})
				ops = append(ops, &Op{K: []Kind{KAlignByte, KAlignBit}[r.Intn(2)]})
			}
			if len(ops) > 60000 {
				break
			}
		}
		return
	}, fn)
	mx := mixOf(func(m Mix) Mix {
		m.Next = 0.3
		m.OOR = 0.05
		return m.with(30, KSeek, KSeekBit, KAlignBit, KAlignByte, KAfter, KAfterBit)
	})
	ctx.histories(52, ts, mx, ctx.hn(300, 8000), 80, fn)
	ctx.histories(53, ts, func(t *Target) Mix {
		m := mx(t)
		m.OOR = 0.7
		return m.only(5, KSeek, KSeekBit, KAlignBit, KAlignByte, KAfter, KAfterBit, KRefresh)
	}, ctx.hn(100, 3000), 80, fn)
	ctx.blind(55, ts, func(t *Target) Mix {
		return mx(t).only(0).with(10, KSeek, KSeekBit, KAlignBit, KAlignByte, KAfter, KAfterBit)
	}, blindCursors, ctx.hn(150, 3000), 20, fn)
	ctx.bulk(56, ts, int64(ctx.n(1<<20+1<<18, 1<<24)), func(t *Target, size int64, r *R) (ops []*Op) {
		if size < 64 {
			return
		}
		n := int(size)
		ops = append(ops, &Op{K: KSeek, Off: 5 + r.Int63n(size/2)}, &Op{K: KSeekBit, Off: 3 + r.Int63n(size)})
		for _, k := range amountKinds {
			if k == KGrow {
				continue
			}
			o, _ := r.amountOp(t, k, n-16)
			if o.Next {
				o.Next, o.Off = false, int64(r.Intn(9))
			}
			ops = append(ops, o)
		}
		return append(ops, &Op{K: KAlignBit}, &Op{K: KAfter}, &Op{K: KAfterBit}, &Op{K: KTruncL, N: size / 3}, &Op{K: KTruncR, N: size / 3}, &Op{K: KGrow, N: size / 5}, &Op{K: KGrow, N: size}, &Op{K: KRefresh}, &Op{K: KReset}, &Op{K: KGrow, N: size})
	}, fn)
	ctx.marathon(54, ts, []Kind{KSeek, KSeekBit, KAlignBit, KAlignByte, KAfter, KAfterBit, KRefresh}, "", false, nil, fn)
}

// oorOps enumerates accesses in, across and beyond the bounds of a buffer.
func oorOps(t *Target, size int64, r *R, next bool) (ops []*Op) {
	ext := func(lim int64) []int64 {
		var v []int64
		for _, b := range []int64{0, lim} {
			for d := int64(-9); d <= 9; d++ {
				v = append(v, b+d)
			}
		}
		for _, sh := range []uint{8, 16, 31, 32, 33, 35, 61, 62} {
			v = append(v, 1<<sh, 1<<sh-1, 1<<sh+lim/2, -1<<sh, -1<<sh+lim/2, 1<<sh-lim/2)
		}
		v = append(v, math.MaxInt64, math.MaxInt64-1, math.MaxInt64-lim, math.MaxInt64-7, math.MaxInt64-8, math.MinInt64, math.MinInt64+1, math.MinInt64+lim, math.MinInt64+8, math.MaxInt64/8, math.MaxInt64/8+1, math.MinInt64/8)
		v = append(v, dict...)
		return v
	}
	add := func(o Op) {
		o.Prior = r.Uint64() | 1
		if next {
			k := KSeek
			if o.isBit() {
				k = KSeekBit
			}
			ops = append(ops, &Op{K: k, Off: o.Off})
			o.Next, o.Off = true, 0
		}
		if o.method(t) != "" {
			ops = append(ops, &o)
		}
	}
	counts := []int64{1, 2, 3, 5}
	wild := []int64{-1, -2, -8, -size, size + 1, 1 << 31, 1 << 32, 1<<32 + 1, 1 << 60, 1 << 61, 1<<61 + 1, 1 << 62, 1<<62 + 1, 1<<63 - 1, 1<<63 - 8, -1 << 63, -1 << 62, -1 << 61}
	for _, off := range ext(size) {
		for _, n := range append(append([]int64{}, counts...), size, size-off, size-off+1, size-off-1) {
			if n < 1 || n > size+12 {
				continue
			}
			add(Op{K: KWriteBytes, Off: off, Data: r.data(int(n))})
			add(Op{K: KReadBytes, Off: off, N: n})
		}
		add(Op{K: KWriteByte, Off: off, Val: 0xAB})
		add(Op{K: KReadByte, Off: off})
		if r.Intn(3) == 0 || off >= -9 && off <= size+9 {
			for _, n := range wild {
				add(Op{K: KReadBytes, Off: off, N: n})
			}
		}
		for _, y := range t.types("UIF") {
			w := int64(y.W)
			fit := (size - off) / w
			if off < 0 || off > size {
				fit = 0
			}
			if !(off >= -9 && off <= size+9) && r.Intn(3) > 0 {
				continue
			}
			for _, n := range []int64{1, 2, fit, fit + 1} {
				if n < 1 {
					continue
				}
				add(Op{K: KWriteT, Ty: y.Ty, W: y.W, Ord: y.Ord, Off: off, Vals: r.vals(int(n))})
				add(Op{K: KReadT, Ty: y.Ty, W: y.W, Ord: y.Ord, Off: off, N: n})
			}
			for _, n := range wild {
				if r.Intn(6) == 0 {
					add(Op{K: KReadT, Ty: y.Ty, W: y.W, Ord: y.Ord, Off: off, N: n})
				}
			}
		}
	}
	lim := size * 8
	for _, off := range ext(lim) {
		add(Op{K: KReadBit, Off: off})
		add(Op{K: KFlipBit, Off: off})
		add(Op{K: KSetBit, Off: off, Val: 1})
		add(Op{K: KSetBit, Off: off, Val: 0})
		for _, n := range []int64{1, 2, 7, 8, 9, 31, 63, 64, lim - off, lim - off + 1} {
			if n < 1 || n > 64 {
				continue
			}
			add(Op{K: KReadBits, Off: off, N: n})
			add(Op{K: KSetBits, Off: off, N: n, Val: r.val()})
		}
	}
	return
}

func oorMix(t *Target) Mix {
	m := defaultMix()
	m.OOR, m.MaxSize, m.Next, m.Zero = 0.35, 60, 0.4, 0.02
	m.W[KSeek], m.W[KSeekBit], m.W[KGrow], m.W[KTruncL], m.W[KTruncR] = 25, 25, 15, 12, 12
	return m
}

func runS01(ctx *Ctx) {
	fn := props["S01"].Fn(ctx)
	ts := where(full)
	for _, t := range ts {
		errs := []any{t.Overread, t.Underread, t.Overwrite, t.Underwrite}
		for i := range errs {
			if errs[i] == nil {
				ctx.report(&Viol{Text: t.ID + ": a documented bounds error is nil", Kind: "errors"})
			}
			for j := range errs[:i] {
				if errs[i] == errs[j] {
					ctx.report(&Viol{Text: t.ID + ": two documented bounds errors are the same value, so the direction of a refusal cannot be told", Kind: "errors"})
				}
			}
		}
	}
	ctx.grid(61, ts, ctx.sizes([]int{0, 1, 2, 3, 8, 13}, upto(20)), func(t *Target, size int64, r *R) []*Op { return oorOps(t, size, r, false) }, fn)
	ctx.grid(62, ts, ctx.sizes([]int{0, 1, 5, 9}, upto(14)), func(t *Target, size int64, r *R) []*Op { return oorOps(t, size, r, true) }, fn)
	ctx.histories(63, ts, oorMix, ctx.hn(400, 10000), 60, fn)
	ctx.histories(64, ts, func(t *Target) Mix { m := oorMix(t); m.MaxSize, m.MaxLen = 3000, 900; return m }, ctx.hn(15, 400), 60, fn)
	ctx.longsRefused(66, ts, fn)
	ctx.marathon(65, ts, accessKinds, "UIF~", false, func(m *Mix) { m.OOR = 0.6 }, fn)
}

func (ctx *Ctx) sizes(quick, thorough []int) []int {
	if ctx.Thorough {
		return thorough
	}
	return quick
}

func runS02(ctx *Ctx) {
	fn := props["S02"].Fn(ctx)
	ts := where(full)
	ctx.grid(71, ts, ctx.sizes([]int{0, 1, 3, 9}, upto(14)), func(t *Target, size int64, r *R) []*Op {
		ops := oorOps(t, size, r, false)
		for p := int64(0); p < size*8 && t.Ver < 3; p++ {
			for v := uint64(2); v < 256; v += 1 + uint64(r.Intn(60)) {
				ops = append(ops, &Op{K: KSetBit, Off: p, Val: v})
			}
		}
		for _, n := range []int64{-1, -2, -size, -size - 1, -1 << 31, -1 << 32, -1 << 63, 1 << 61, 1 << 62, 1<<63 - 1, 1<<63 - 1 - size} {
			ops = append(ops, &Op{K: KGrow, N: n})
		}
		for _, n := range []int64{-1, -2, size + 1, size + 2, 2 * size, -size, 1 << 31, 1 << 32, 1<<32 + size/2, 1<<63 - 1, -1 << 63, -1 << 32} {
			ops = append(ops, &Op{K: KTruncL, N: n}, &Op{K: KTruncR, N: n})
		}
		if t.Ver == 1 {
			for _, k := range typedKinds {
				for _, w := range []int{-1, 0, 3, 5, 16} {
					ops = append(ops, &Op{K: k, Ty: "U", W: w, N: 1, Vals: []uint64{1}})
				}
			}
		}
		return ops
	}, fn)
	ctx.grid(72, ts, ctx.sizes([]int{0, 5, 9}, upto(12)), func(t *Target, size int64, r *R) []*Op { return oorOps(t, size, r, true) }, fn)
	mx := func(t *Target) Mix { m := oorMix(t); m.Invalid = 0.1; return m }
	ctx.histories(73, ts, mx, ctx.hn(250, 7000), 60, fn)
	ctx.longsRefused(75, ts, fn)
	ctx.marathon(74, ts, []Kind{KReadBytes, KWriteByte, KSetBit, KReadBits, KGrow, KTruncL, KTruncR}, "", false, func(m *Mix) { m.OOR, m.Invalid = 0.8, 0.3 }, fn)
}

func runS03(ctx *Ctx) {
	fn := props["S03"].Fn(ctx)
	ts := where(all)
	mx := func(t *Target) Mix {
		m := defaultMix()
		m.MaxSize = 90
		m.W[KGrow], m.W[KTruncL], m.W[KTruncR], m.W[KReset] = 25, 15, 20, 4
		if !t.Mini {
			m.OOR = 0.1
		}
		return m
	}
	ctx.histories(81, ts, mx, ctx.hn(350, 9000), 60, fn)
	ctx.histories(82, ts, func(t *Target) Mix { m := mx(t); m.MaxSize, m.MaxLen = 3000, 800; return m }, ctx.hn(10, 250), 50, fn)
	ctx.grid(83, ts, ctx.sizes([]int{0, 1, 2, 7, 8, 9, 17, 33}, upto(40)), func(t *Target, size int64, r *R) []*Op {
		kinds := []Kind{KReadBytes, KWriteBytes, KReadT, KWriteT}
		ops := gridOps(t, min(size, 17), r, kinds, "UIF", false, false)
		if size <= 9 {
			ops = append(ops, gridOps(t, size, r, fieldKinds, "", false, false)...)
		}
		for i := range ops { // keep the tail of larger buffers in play
			if size > 17 {
				ops[i].Off += size - 17
			}
		}
		return append(ops, &Op{K: KWriteBytes, Data: r.data(int(size))}, &Op{K: KReadBytes, N: size})
	}, fn)
	ctx.longs(84, ts, []Kind{KWriteT, KReadT, KWriteBytes, KReadBytes}, "UIF", false, fn)
	ctx.runPagePhase("pages-arg")
	ctx.marathon(85, ts, []Kind{KGrow, KReadBytes, KWriteBytes, KReadBits, KTruncL, KTruncR, KReset}, "", false, nil, fn)
}

func runS04(ctx *Ctx) {
	fn := props["S04"].Fn(ctx)
	ts := where(all)
	ctx.grid(91, ts, upto(ctx.n(40, 90)), func(t *Target, size int64, r *R) []*Op {
		return append(gridOps(t, size, r, accessKinds, "UIF", false, true), gridOps(t, size, r, accessKinds, "UIF", true, true)...)
	}, fn)
	ctx.bulk(93, ts, int64(ctx.n(1<<18+1<<16, 1<<22)), func(t *Target, size int64, r *R) (ops []*Op) {
		for i := 0; i < 12; i++ {
			next := i%2 == 1
			for _, o := range gridOps(t, 0, r, accessKinds, "UIF", next, true) {
				if next && !o.Next || (o.K == KReadT || o.K == KWriteT) && !r.p(0.4) {
					continue
				}
				at := size
				if r.p(0.5) {
					at = r.spot(size + 1)
				}
				if o.isBit() {
					at *= 8
				}
				if next {
					k := KSeek
					if o.isBit() {
						k = KSeekBit
					}
					ops = append(ops, &Op{K: k, Off: at})
				} else if o.Off == 0 {
					o.Off = at
				}
				ops = append(ops, o)
			}
		}
		return
	}, fn)
	mx := mixOf(func(m Mix) Mix {
		m.Zero = 0.6
		return m.with(20, fieldKinds...).with(15, KGrow, KTruncL, KTruncR).with(5, KReset)
	})
	ctx.histories(92, ts, mx, ctx.hn(250, 5000), 50, fn)
}

func runL02(ctx *Ctx) {
	fn := props["L02"].Fn(ctx)
	ts := where(all)
	ctx.grid(101, ts, upto(ctx.n(40, 80)), func(t *Target, size int64, r *R) (ops []*Op) {
		for n := int64(0); n <= 40; n++ {
			ops = append(ops, &Op{K: KSeek, Off: r.near(size + n)}, &Op{K: KSeekBit, Off: r.near(size * 8)}, &Op{K: KGrow, N: n}, &Op{K: KSetAll})
			switch r.Intn(4) {
			case 0:
				ops = append(ops, &Op{K: KTruncR, N: n})
			case 1:
				ops = append(ops, &Op{K: KTruncL, N: n})
			case 2:
				ops = append(ops, &Op{K: KReset})
			}
			ops = append(ops, &Op{K: KGrow, N: -1 - n})
		}
		return
	}, fn)
	ctx.grid(102, ts, []int{0, 1, 100, 4000}, func(t *Target, size int64, r *R) (ops []*Op) {
		for _, n := range longLens(int64(ctx.n(1<<18, 1<<20)) + 1) {
			ops = append(ops, &Op{K: KGrow, N: int64(n)}, &Op{K: KSetAll}, &Op{K: KTruncR, N: int64(n) / 2}, &Op{K: KGrow, N: int64(n) / 3}, &Op{K: KReset}, &Op{K: KGrow, N: int64(n)}, &Op{K: KTruncL, N: int64(n)})
		}
		for _, n := range []int64{-1, -2, -size, -size - 1, -1 << 31, -1 << 32, -1 << 63, -1<<63 + 1, 1 << 61, 1 << 62, 1<<63 - 1, 1<<63 - 1 - size} {
			ops = append(ops, &Op{K: KGrow, N: n})
		}
		return
	}, fn)
	mx := func(t *Target) Mix {
		m := defaultMix()
		if !t.Mini {
			m.OOR = 0.05
		}
		return m.only(3, accessKinds...).with(30, KGrow).with(15, KTruncL, KTruncR, KSetAll).with(4, KReset, KFlipAll, KSeek, KSeekBit)
	}
	ctx.histories(103, ts, mx, ctx.hn(350, 9000), 60, fn)
	ctx.blind(105, ts, func(t *Target) Mix {
		return mx(t).only(0).with(10, KGrow).with(4, KWriteBytes, KWriteByte, KTruncL, KTruncR, KSeek, KSeekBit, KReset)
	}, blindData|blindCursors|blindSizes, ctx.hn(150, 3000), 12, fn)
	ctx.marathon(104, ts, []Kind{KGrow}, "", false, nil, fn)
	ctx.bulk(106, ts, int64(ctx.n(1<<22+1<<20, 1<<26)), func(t *Target, size int64, r *R) []*Op {
		return []*Op{{K: KSeek, Off: size / 3}, {K: KGrow, N: 1 + int64(r.Intn(9))}, {K: KTruncL, N: size / 5}, {K: KGrow, N: size/5 + 1}, {K: KGrow, N: size / 2}, {K: KTruncR, N: size / 4}, {K: KGrow, N: size / 3}}
	}, fn)
	ctx.wideLife(KGrow)
	ctx.vast(KGrow)
}

func runL03(ctx *Ctx) {
	fn := props["L03"].Fn(ctx)
	ts := where(all)
	ctx.grid(111, ts, upto(ctx.n(40, 90)), func(t *Target, size int64, r *R) (ops []*Op) {
		rebuild := func() {
			ops = append(ops, &Op{K: KReset}, &Op{K: KGrow, N: size}, &Op{K: KSeek, Off: r.near(size)}, &Op{K: KSeekBit, Off: r.near(size * 8)})
			if size > 0 {
				ops = append(ops, &Op{K: KWriteBytes, Data: r.data(int(size))})
			}
		}
		for n := int64(0); n <= size; n++ {
			rebuild()
			ops = append(ops, &Op{K: KTruncL, N: n}, &Op{K: KTruncR, N: (size - n) / 2})
			rebuild()
			ops = append(ops, &Op{K: KTruncR, N: n}, &Op{K: KTruncL, N: (size - n) / 2})
			ops = append(ops, &Op{K: KTruncR, N: -1 - n}, &Op{K: KTruncL, N: -1 - n}, &Op{K: KTruncL, N: size + 1 + n}, &Op{K: KTruncR, N: size + 1 + n})
		}
		for _, n := range []int64{1 << 31, 1 << 32, 1<<32 + size, 1<<32 + size/2, 1 << 62, 1<<63 - 1, -1 << 31, -1 << 32, -1 << 63, -size} {
			ops = append(ops, &Op{K: KTruncL, N: n}, &Op{K: KTruncR, N: n})
		}
		return
	}, fn)
	ctx.grid(112, ts, longLens(70000), func(t *Target, size int64, r *R) []*Op {
		return []*Op{{K: KSeek, Off: 3}, {K: KTruncL, N: size / 3}, {K: KTruncR, N: size / 3}, {K: KTruncL, N: 1}, {K: KReset}, {K: KGrow, N: size}, {K: KTruncR, N: size - 1}, {K: KTruncR, N: 1}}
	}, fn)
	mx := func(t *Target) Mix {
		m := defaultMix()
		if !t.Mini {
			m.OOR = 0.15
		}
		return m.only(3, accessKinds...).with(25, KTruncL, KTruncR).with(10, KGrow).with(8, KReset).with(4, KSeek, KSeekBit, KSetAll)
	}
	ctx.histories(113, ts, mx, ctx.hn(350, 9000), 60, fn)
	ctx.blind(115, ts, func(t *Target) Mix {
		return mx(t).only(0).with(10, KTruncL, KTruncR).with(4, KWriteBytes, KWriteByte, KGrow, KSeek, KSeekBit, KReset)
	}, blindData|blindCursors|blindSizes, ctx.hn(150, 3000), 12, fn)
	ctx.marathon(114, ts, []Kind{KTruncL, KTruncR, KReset}, "", false, func(m *Mix) { m.W[KGrow] = 40 }, fn)
	ctx.bulk(116, ts, int64(ctx.n(1<<22+1<<20, 1<<26)), func(t *Target, size int64, r *R) []*Op {
		return []*Op{{K: KSeek, Off: size / 3}, {K: KTruncL, N: 1 + int64(r.Intn(9))}, {K: KTruncR, N: 1 + int64(r.Intn(9))}, {K: KTruncL, N: size / 5}, {K: KTruncR, N: size / 3}, {K: KTruncL, N: size / 3}}
	}, fn)
	ctx.wideLife(KTruncL, KTruncR, KReset)
}

func runL04(ctx *Ctx) {
	fn := props["L04"].Fn(ctx)
	ts := where(all)
	mx := func(t *Target) Mix {
		m := defaultMix()
		if !t.Mini {
			m.OOR, m.Invalid = 0.15, 0.1
		}
		return m.with(20, KTruncL, KTruncR, KGrow, KRefresh).with(6, KReset)
	}
	ctx.histories(121, ts, mx, ctx.hn(500, 14000), 60, fn)
	ctx.histories(122, ts, func(t *Target) Mix { m := mx(t); m.MaxSize, m.MaxLen = 3000, 800; return m }, ctx.hn(15, 300), 60, fn)
	ctx.grid(123, ts, append(upto(66), longLens(int64(ctx.n(70000, 1<<20+1)))...), func(t *Target, size int64, r *R) []*Op {
		return []*Op{{K: KRefresh}, {K: KTruncL, N: size / 3}, {K: KRefresh}, {K: KGrow, N: 1}, {K: KTruncR, N: size / 3}, {K: KAlignBit}, {K: KGrow, N: size}, {K: KReset}, {K: KGrow, N: size}, {K: KRefresh}}
	}, fn)
	ctx.blind(125, ts, mx, blindSizes, ctx.hn(150, 3000), 12, fn)
	ctx.marathon(124, ts, []Kind{KRefresh, KGrow, KTruncL, KTruncR, KReset, KSeek, KSeekBit}, "", false, nil, fn)
	ctx.wideLife(KRefresh)
}

func runM01(ctx *Ctx) {
	fn := props["M01"].Fn(ctx)
	ts := where(mini)
	ctx.grid(131, ts, upto(ctx.n(20, 34)), func(t *Target, size int64, r *R) []*Op {
		ops := gridOps(t, size, r, []Kind{KReadBytes, KReadByte, KReadT, KReadBit}, "UIF", false, false)
		if size <= 12 {
			ops = append(ops, gridOps(t, size, r, []Kind{KReadBits}, "", false, false)...)
		}
		if size <= 9 {
			ops = append(ops, gridOps(t, size, r, accessKinds, "UIF", true, false)...)
		}
		ops = append(ops, gridOps(t, size, r, accessKinds, "UIF", false, true)...)
		for i := int64(-3); i < size+3; i++ {
			ops = append(ops, &Op{K: KAfter, Rel: true, Off: i, Prior: r.Uint64()}, &Op{K: KAfterBit, Rel: true, Off: i, Prior: r.Uint64()}, &Op{K: KAfter, Prior: r.Uint64()}, &Op{K: KAfterBit, Prior: r.Uint64()})
		}
		return ops
	}, fn)
	ctx.longs(132, ts, []Kind{KReadT, KReadBytes}, "UIF", false, fn)
	mx := mixOf(func(m Mix) Mix {
		return m.with(30, KReadBytes, KReadByte, KReadBit, KReadBits, KAfter, KAfterBit).with(90, KReadT)
	})
	ctx.histories(133, ts, mx, ctx.hn(300, 8000), 60, fn)
	ctx.sandwich(137, ts, []Kind{KReadBytes, KReadByte, KReadBit, KReadBits, KReadT}, "UIF", false, ctx.n(2, 20), fn)
	ctx.marathon(135, ts, []Kind{KReadBytes, KReadByte, KReadBit, KReadBits, KAfter, KAfterBit, KReadT}, "UIF~", false, nil, fn)
	ctx.marathon(136, ts, []Kind{KReadBytes, KReadByte, KReadBit, KReadBits, KReadT}, "UIF~", true, nil, fn)
	if v := ctx.intoDriver(); v != nil {
		ctx.report(v)
	}
}

// intoDriver: constructing into a variable that already refers to a buffer
// leaves the older buffer alone.
func (ctx *Ctx) intoDriver() *Viol {
	cov := newCov()
	defer ctx.merge(cov)
	r := newR(mix(ctx.Seed, 134))
	for i := 0; i < ctx.hn(3000, 60000); i++ {
		for _, t := range where(mini) {
			c1 := &Case{Target: t.ID, Init: r.init(60, false), Around: r.Uint64()}
			c2 := &Case{Target: t.ID, Init: r.init(60, false), Around: r.Uint64()}
			old := c1.build()
			o := old.subj
			o.exec(&Op{K: KSeek, Off: r.near(40)})
			o.exec(&Op{K: KSeekBit, Off: r.near(40)})
			pre := o.observe()
			out := snapOutside(old, pre.live)
			arenas, sl := c2.slices(c2.Around)
			n := &built{subj: newSubj(t, t.Into(o.B, sl...)), arenas: arenas, slices: sl}
			bad := ""
			if n.subj.B == o.B {
				bad = "the variable still refers to the older buffer"
			}
			fresh := newSubj(t, t.New(flat(sl)))
			if d := sameState(fresh.observe(), n.subj.observe()); d != "" && bad == "" {
				bad = "the new buffer is affected by the older one: " + d
			}
			n.subj.exec(&Op{K: KGrow, N: int64(r.Intn(20))})
			n.subj.exec(&Op{K: KFlipAll})
			n.subj.exec(&Op{K: KSeek, Off: 5})
			post := o.observe()
			if d := sameState(pre, post); d != "" && bad == "" {
				bad = "the older buffer changed: " + d
			}
			if d := out.changed(); d != "" && bad == "" {
				bad = d
			}
			if bad != "" {
				return &Viol{Text: fmt.Sprintf("%s: creating a buffer into a variable that already refers to one: %s", t.ID, bad), Kind: "into"}
			}
			cov.hit(hashInt(hashInt(hashStr(hash0, t.ID+"into"), int64(len(pre.Data))), int64(len(post.Data)+len(sl)<<16)), true)
		}
	}
	cov.count("constructions into a used variable", int64(ctx.hn(3000, 60000)*3))
	return nil
}

func flat(sl [][]byte) (out []byte) {
	out = []byte{}
	for _, s := range sl {
		out = append(out, s...)
	}
	return
}

func runX01(ctx *Ctx) {
	fn := props["X01"].Fn(ctx)
	var groups [][]*Target
	for i := range targets {
		for j := i + 1; j < len(targets); j++ {
			groups = append(groups, []*Target{targets[i], targets[j]})
		}
	}
	groups = append(groups, targets, where(modern), where(v1only), where(full), where(mini))
	ctx.lockstep(141, groups, 0, ctx.hn(110, 3000), ctx.hn(4, 100), fn)
	for i, g := range [][]*Target{targets, where(modern)} {
		salt, ty := uint64(142+10*i), "U"
		kinds := []Kind{KWriteT, KReadT, KWriteBytes, KReadBytes, KClearAll, KSetAll, KFlipAll}
		if i == 1 {
			ty, kinds = "UIF", typedKinds
		}
		t := g[:1]
		ctx.longs(salt, t, kinds, ty, false, fn, g...)
		ctx.longs(salt+1, t, kinds, ty, true, fn, g...)
	}
	ctx.hugeAgree(161, false)
	ctx.hugeAgree(162, true)
}

// lockstep drives random histories that every target of a group offers.
func (ctx *Ctx) lockstep(salt uint64, groups [][]*Target, oor float64, cases, big int, fn runFn) {
	if ctx.stop.Load() {
		return
	}
	ctx.sharded(salt, func(shard int, r *R, cov *Cov, _ func(*Viol)) {
		for _, g := range groups {
			t := g[0]
			for _, x := range g { // generate for the poorest: the first version, or the unchecked type
				if x.Ver < t.Ver || x.Ver == t.Ver && x.Mini {
					t = x
				}
			}
			m := defaultMix()
			m.Zero = 0.05
			m.OOR = oor
			var tys []typ
			for _, y := range t.types("UIF") {
				o := Op{K: KReadT, Ty: y.Ty, W: y.W, Ord: y.Ord}
				ok := true
				for _, x := range g {
					ok = ok && o.method(x) != ""
				}
				if ok {
					tys = append(tys, y)
				}
			}
			ks := m.kinds()
			var ids []string
			for _, x := range g {
				ids = append(ids, x.ID)
			}
			for i := 0; i < cases+big; i++ {
				mm := m
				if i%2 == 1 && oor == 0 { // queries and cursors may leave the contents, refused accesses are left out
					mm.OOR = 0.1
				}
				if i >= cases {
					mm.MaxSize, mm.MaxLen = 3000, 900
				}
				kk, yy, n := ks, tys, 15+r.Intn(60)
				if i%40 == 39 { // long use of few methods
					kk, yy = r.few(ks, tys)
					n = 1200
				}
				c := r.history(t, &mm, kk, yy, n, r.p(0.5))
				c.Targets = ids
				if i%5 == 2 && oor == 0 {
					c.Aux = map[string]int64{"blind": 1}
					cov.count("histories with nothing looked at in between", 1)
				}
				if !ctx.try(fn, shard, c, cov) {
					return
				}
			}
		}
	})
}
