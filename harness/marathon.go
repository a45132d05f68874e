package main

import "strings"

// Long lives. A buffer in a server is used far more often than the histories of
// a test are long: here one small buffer is put through more than 2^16 successful
// operations of one method (what a counter of 16 bits cannot hold), judged at every step.

const marathonLen = 1<<16 + 600

// marathon runs, per target and method of the given kinds, one long history in
// which that method dominates. next chooses the cursor-relative form. Of the typed methods,
// some share is left to other seeds and the thorough tier when types ends in '~'.
func (ctx *Ctx) marathon(salt uint64, ts []*Target, kinds []Kind, types string, next bool, extra func(*Mix), fn runFn) {
	if ctx.stop.Load() {
		return
	}
	types, some := strings.CutSuffix(types, "~")
	type item struct {
		t *Target
		k Kind
		y typ
	}
	var items []item
	for _, t := range ts {
		for _, k := range kinds {
			ys := []typ{{}}
			if k == KWriteT || k == KReadT {
				ys = t.types(types)
				if some && !ctx.Thorough && len(ys) > 3 {
					h := mix(mix(ctx.Seed, salt), uint64(len(items)))
					ys = append([]typ{}, ys[int(h%uint64(len(ys)))], ys[int(h>>20%uint64(len(ys)))])
				}
			}
			for _, y := range ys {
				o := Op{K: k, Ty: y.Ty, W: y.W, Ord: y.Ord}
				o.Next = next && o.isAccess()
				if o.method(t) != "" {
					items = append(items, item{t, k, y})
				}
			}
		}
	}
	ctx.sharded(salt, func(shard int, r *R, cov *Cov, _ func(*Viol)) {
		for i, it := range items {
			if i%nShards != shard {
				continue
			}
			m := defaultMix()
			m = m.only(0).with(60, it.k)
			for _, k := range []Kind{KSeek, KSeekBit, KWriteBytes, KGrow, KTruncL, KTruncR, KWriteByte} {
				if m.W[k] == 0 {
					m.W[k] = 2
				}
			}
			m.MaxSize, m.MaxLen, m.OOR, m.Next, m.Zero, m.Own = 40, 6, 0, 0, 0, 0.02
			if next {
				m.Next = 1
				m.W[KSeek], m.W[KSeekBit] = 12, 12
			}
			if extra != nil {
				extra(&m)
			}
			var tys []typ
			if it.y.W > 0 {
				tys = []typ{it.y}
			}
			c, n := r.longLife(it.t, &m, tys, it.k)
			if !ctx.try(fn, shard, c, cov) {
				return
			}
			cov.count("long lives "+it.t.ID, 1)
			cov.count("operations of the longest-lived method", int64(n))
		}
	})
}

// longLife is a history with marathonLen successful operations of kind k.
func (r *R) longLife(t *Target, m *Mix, tys []typ, k Kind) (*Case, int) {
	c := &Case{Target: t.ID, Init: []SliceInit{{Len: 1 + r.Intn(m.MaxSize), Spare: r.Intn(40), Lead: 5, Trail: 5, Seed: r.Uint64()}}, Around: r.Uint64()}
	ks := m.kinds()
	st := &State{}
	for j := 0; j < c.Init[0].Len; j++ {
		st.Data = append(st.Data, fillByte(&c.Init[0], j))
	}
	done := 0
	for tries := 0; done < marathonLen && tries < 6*marathonLen; tries++ {
		o := r.genOp(t, m, st, ks, tys)
		if o == nil || o.method(t) == "" {
			continue
		}
		if o.K == KGrow && len(st.Data) > 2*m.MaxSize && (o.N > 1 || !r.p(0.02)) {
			o.N = 0
		}
		if len(st.Data) <= 8 && (o.K == KTruncL || o.K == KTruncR) && o.N > 0 && k != o.K {
			continue
		}
		e := spec(t, st, o)
		if e.Unspec || e.Zero && o.K == k {
			continue
		}
		c.Ops = append(c.Ops, o)
		if o.K == k && (!e.Refuse || m.OOR > 0.5) {
			done++
		}
		if !e.Refuse {
			st = &State{Data: e.Data, Off: e.Off, Boff: e.Boff}
		}
	}
	return c, done
}
