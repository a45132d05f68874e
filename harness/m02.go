package main

import (
	"fmt"
	"slices"
)

// ---- M02: delivered results stay; the contents slice is a live window ----

// kept is a decoded result that was delivered some time ago.
type kept struct {
	what string
	now  func() []uint64
	flip func()
	vals []uint64
}

func keep(o *Op, r *Res, what string) *kept {
	if r.Panicked || o.K != KReadT || o.W == 1 {
		return nil // a single-byte result of the first version may be a window
	}
	switch v := r.typed.(type) {
	case []uint16:
		return keptOf(what, v)
	case []uint32:
		return keptOf(what, v)
	case []uint64:
		return keptOf(what, v)
	case []int16:
		return keptOf(what, v)
	case []int32:
		return keptOf(what, v)
	case []int64:
		return keptOf(what, v)
	case []float32:
		return keptOf(what, v)
	case []float64:
		return keptOf(what, v)
	}
	return nil
}

func keptOf[T any](what string, v []T) *kept {
	if len(v) == 0 {
		return nil
	}
	return &kept{what, func() []uint64 { return pats(v) }, func() { flipAll(v[:cap(v)]) }, pats(v)} // its spare capacity is the client's, too
}

// variant is o with other data, so that results that are mixed up differ.
func variant(o *Op, k int) *Op {
	if k == 0 {
		return o
	}
	c := *o
	x := uint64(k) * 0x9E3779B97F4A7C15
	switch o.K {
	case KSetBits:
		c.Val ^= x
	case KWriteByte:
		c.Val ^= x & 0xFF
	case KWriteBytes:
		c.Data = append([]byte(nil), o.Data...)
		for i := range c.Data {
			c.Data[i] ^= byte(x>>8) + byte(i)
		}
	case KWriteT:
		c.Vals = append([]uint64(nil), o.Vals...)
		for i := range c.Vals {
			c.Vals[i] ^= x + uint64(i)
		}
	}
	return &c
}

// runKept runs one history on three buffers (two of one type and one of
// another), keeping the results they deliver and windows onto their contents.
func (ctx *Ctx) runKept(shard int, c *Case, cov *Cov) *Viol {
	if c.Aux["readback"] != 0 {
		return runCase(ctx, shard, c, judgeReadback, cov)
	}
	t := targetByID(c.Target)
	others := where(all)
	ts := []*Target{t, t, others[int(c.Around>>7)%len(others)]}
	vi := func(i int, f string, a ...any) *Viol {
		return &Viol{Text: fmt.Sprintf(f, a...) + fmt.Sprintf("\n  %s, step %d", c.Target, i), Step: i, Case: c, Kind: "case"}
	}
	type side struct {
		s   *Subj
		t   *Target
		st  *State
		win []byte
	}
	var sides []*side
	for k, t := range ts {
		cc := *c
		cc.Init = append([]SliceInit(nil), c.Init...)
		for i := range cc.Init {
			if k > 0 && cc.Init[i].Mode != 4 {
				cc.Init[i].Seed += uint64(k) * 1001
				cc.Init[i].Mode = 0
			}
		}
		var b *built
		if msg := catch(func() { b = cc.buildFor(t, c.Around+uint64(k)) }); msg != "" {
			return nil // L01
		}
		sides = append(sides, &side{s: b.subj, t: t, st: b.subj.observe(), win: b.subj.live()})
	}
	const most = 12
	var ring [most]*kept
	n := 0
	checkKept := func(i int, o fmt.Stringer, t *Target) *Viol {
		for _, k := range ring {
			if k == nil {
				continue
			}
			if now := k.now(); !slices.Equal(now, k.vals) {
				return vi(i, "%s on a %s changed a result delivered before, %s, from %s to %s", o, t.ID, k.what, shortVals(k.vals), shortVals(now))
			}
			if cov != nil {
				cov.count("looks at results delivered earlier", 1)
			}
		}
		return nil
	}
	for i, o0 := range c.Ops {
		for k, x := range sides {
			if o0.method(x.t) == "" {
				continue
			}
			o := variant(o0, k)
			e := spec(x.t, x.st, o)
			if e.Unspec {
				continue
			}
			ctx.prog[shard].Add(1)
			ctx.cur[shard].Store(&curOp{c, o})
			r := x.s.exec(o)
			if x.t.Conc() && probeLocks(x.s, r.Panicked) != "" {
				return nil // P03
			}
			if v := checkKept(i, o, x.t); v != nil {
				return v
			}
			post := x.s.observe()
			switch o.K {
			case KGrow, KTruncL, KTruncR, KReset:
				if !r.Panicked {
					x.win = x.s.live()
				}
			}
			if d := diffData(x.win, post.Data); d != "" {
				return vi(i, "%s on a %s: the slice of its contents handed out before does not show them any more: %s", o, x.t.ID, d)
			}
			// through the window and back
			if h := mix(c.Around, uint64(i*3+k)); len(x.win) > 0 && h%3 == 0 {
				j := int(h>>8) % len(x.win)
				x.win[j] ^= 0xA5
				l := x.s.live()
				if l[j] != x.win[j] {
					return vi(i, "after %s on a %s, a change made through the slice of its contents is not seen in byte %d", o, x.t.ID, j)
				}
				got := (*Res)(nil)
				rd := &Op{K: KReadBits, Off: int64(j) * 8, N: 8, Prior: 77}
				got = x.s.exec(rd)
				if got.Panicked || got.U != uint64(x.win[j]) {
					return vi(i, "after %s on a %s, a change made through the slice of its contents is not read back from byte %d: %s instead of %#x", o, x.t.ID, j, resKey(got), x.win[j])
				}
				if h>>40%2 == 0 {
					x.win[j] ^= 0xA5
				}
				if v := checkKept(i, rd, x.t); v != nil {
					return v
				}
				if cov != nil {
					cov.count("changes through windows read back", 1)
				}
			}
			// changing a delivered result changes nothing else
			if kr := keep(o, r, fmt.Sprintf("of %s on a %s in step %d", o, x.t.ID, i)); kr != nil {
				ring[n%most] = kr
				n++
				if h := mix(c.Around+1, uint64(i*3+k)); h%4 == 0 {
					if old := ring[int(h>>9)%most]; old != nil {
						var before [][]byte
						for _, y := range sides {
							before = append(before, append([]byte(nil), y.s.live()...))
						}
						old.flip()
						old.vals = old.now()
						for q, y := range sides {
							if d := diffData(y.s.live(), before[q]); d != "" {
								return vi(i, "changing the result %s changes the contents of a %s: %s", old.what, y.t.ID, d)
							}
						}
						if v := checkKept(i, str("changing the result "+old.what+", made"), x.t); v != nil {
							return v
						}
					}
				}
			}
			x.st = x.s.observe()
			if cov != nil {
				st := &Step{T: x.t, Op: o, Pre: post, Res: r}
				cov.hit(hashStr(st.sig(), fmt.Sprint(k)), n > 0 && len(post.Data) > 0)
				cov.Counts[x.t.ID]++
				if len(cov.samples) < 1 && n > 5 {
					cov.samples = append(cov.samples, fmt.Sprintf("%d results kept over %d steps on three buffers unchanged; the last %s = %s", min(n, most), i+1, ring[(n-1)%most].what, shortVals(ring[(n-1)%most].vals)))
				}
			}
		}
	}
	return nil
}

// judgeReadback: what a read delivers is what the slice of the contents shows.
func judgeReadback(st *Step) (int, string) {
	if !st.Op.isRead() || !ok(st) || st.Exp.Zero || st.LockHeld != "" || st.Res.Panicked {
		return 0, ""
	}
	if s := badResult(st); s != "" {
		return 2, "the slice of the contents and a read do not agree: " + s
	}
	return 2, ""
}

type str string

func (s str) String() string { return string(s) }

func init() {
	props["M02"] = &Prop{Rule: "one operation on one of three buffers, after which every result delivered earlier and the slice of the contents handed out earlier were looked at again",
		Assume: []string{"raw byte windows and single-byte results of the first version are not claimed to be copies"},
		Fn:     func(ctx *Ctx) runFn { return ctx.runKept }, Run: runM02}
}

func runM02(ctx *Ctx) {
	fn := props["M02"].Fn(ctx)
	ts := where(all)
	ctx.grid(180, ts, upto(ctx.n(14, 34)), func(t *Target, size int64, r *R) []*Op {
		return gridOps(t, size, r, []Kind{KReadT}, "UIF", false, false)
	}, fn)
	ctx.longs(181, ts, []Kind{KReadT}, "UIF", false, fn)
	ctx.histories(182, ts, mixOf(func(m Mix) Mix {
		return m.with(200, KReadT).with(60, KWriteT).with(4, KGrow, KTruncL, KTruncR).with(1, KReset)
	}), ctx.hn(150, 5000), 60, fn)
	ctx.histories(183, ts, mixOf(func(m Mix) Mix {
		return m.with(60, KReadT).with(2, KGrow, KTruncL, KTruncR).with(1, KReset)
	}), ctx.hn(150, 5000), 60, fn)
	ctx.marathon(185, ts, append(append([]Kind{}, accessKinds...), allBitKinds...), "U~", false, func(m *Mix) { m.W[KGrow], m.W[KTruncL], m.W[KTruncR] = 0, 0, 0 }, fn)
	readback := func(shard int, c *Case, cov *Cov) *Viol {
		c.Aux = map[string]int64{"readback": 1}
		return fn(shard, c, cov)
	}
	reads := []Kind{KReadBytes, KReadByte, KReadBit, KReadBits, KReadT}
	ctx.sandwich(186, ts, reads, "UIF", false, ctx.n(4, 40), readback)
	ctx.sandwich(187, ts, reads, "UIF", true, ctx.n(4, 40), readback)
	ctx.abandoned(184)
}
