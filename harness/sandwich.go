package main

import "fmt"

// Nothing is remembered that should be looked up again: the same access is made twice with
// a change of any kind between, so that a result or effect kept from the first shows.

// sandwich runs, per target, method of the given kinds and kind of change, the
// method, the change and the method again with the same operands.
func (ctx *Ctx) sandwich(salt uint64, ts []*Target, kinds []Kind, types string, next bool, reps int, fn runFn) {
	if ctx.stop.Load() {
		return
	}
	type item struct {
		t *Target
		o Op
	}
	var items []item
	for _, t := range ts {
		for _, k := range kinds {
			ys := []typ{{}}
			if k == KWriteT || k == KReadT {
				ys = t.types(types)
			}
			for _, y := range ys {
				o := Op{K: k, Ty: y.Ty, W: y.W, Ord: y.Ord}
				o.Next = next && o.isAccess()
				if o.method(t) != "" {
					items = append(items, item{t, o})
				}
			}
		}
	}
	m := defaultMix()
	m.OOR, m.Zero, m.MaxSize, m.MaxLen, m.Own = 0, 0, 12, 8, 0
	ctx.sharded(salt, func(shard int, r *R, cov *Cov, _ func(*Viol)) {
		for i, it := range items {
			if i%nShards != shard {
				continue
			}
			var between []Op
			for _, tp := range templates(it.t) {
				if !tp.base.isRead() {
					between = append(between, tp.base)
				}
			}
			for j := 0; j < 4; j++ { // changes made through the slice of the contents
				between = append(between, Op{K: KPoke})
			}
			for rep := 0; rep < reps; rep++ {
				r.Shuffle(len(between), func(a, b int) { between[a], between[b] = between[b], between[a] })
				for lo := 0; lo < len(between); lo += 16 {
					c := r.sandwiches(it.t, &m, &it.o, between[lo:min(lo+16, len(between))])
					if !ctx.try(fn, shard, c, cov) {
						return
					}
				}
			}
			cov.count("an access, a change, the same access: changes", int64(len(between)*reps))
		}
	})
}

func (r *R) sandwiches(t *Target, m *Mix, base *Op, between []Op) *Case {
	c := &Case{Target: t.ID, Init: []SliceInit{{Len: 8 + r.Intn(5), Spare: r.Intn(30), Lead: 5, Trail: 5, Seed: r.Uint64()}}, Around: r.Uint64()}
	st := &State{}
	for j := 0; j < c.Init[0].Len; j++ {
		st.Data = append(st.Data, fillByte(&c.Init[0], j))
	}
	add := func(o *Op) bool {
		if o == nil || o.method(t) == "" {
			return false
		}
		e := spec(t, st, o)
		if e.Unspec || e.Refuse {
			return false
		}
		c.Ops = append(c.Ops, o)
		st = &State{Data: e.Data, Off: e.Off, Boff: e.Boff}
		return true
	}
	pick := func(b *Op) *Op {
		mm := *m
		mm.Next = 0
		if b.Next {
			mm.Next = 1
		}
		var o *Op
		for try := 0; try < 30; try++ {
			o = r.genOp(t, &mm, st, []Kind{b.K}, []typ{{b.Ty, b.W, b.Ord}})
			if o == nil || o.K == KSetBit && o.Val != b.Val || (o.K == KSeek || o.K == KSeekBit) && o.Rel != b.Rel {
				continue
			}
			if e := spec(t, st, o); e.Unspec || e.Refuse || e.Zero {
				continue
			}
			break
		}
		return o
	}
	seek := func(pos int64) *Op {
		if base.isBit() {
			return &Op{K: KSeekBit, Off: pos}
		}
		return &Op{K: KSeek, Off: pos}
	}
	for i := range between {
		if n := int64(len(st.Data)); n < 9 {
			add(&Op{K: KGrow, N: 10 - n})
			add(&Op{K: KWriteBytes, Data: r.data(10)})
		} else if n > 30 && t.Ver > 1 {
			add(&Op{K: KTruncR, N: n - 10})
		}
		pos := int64(r.Intn(6))
		if base.isBit() {
			pos = int64(r.Intn(40))
		}
		if base.Next {
			add(seek(pos))
		}
		o := pick(base)
		if !add(o) {
			continue
		}
		ch := pick(&between[i])
		if r.p(0.5) && ch != nil && !ch.Next && (ch.K == KWriteByte || ch.K == KPoke) && !o.isBit() { // right into what was accessed
			p := o.Off
			if o.Next {
				p = pos
			}
			ch.Off = p
		}
		add(ch)
		again := *o
		again.Prior = r.Uint64() | 1
		if base.Next {
			add(seek(pos))
		}
		add(&again)
	}
	return c
}

// ---- nothing looked at in between ----
//
// A monitor that looks at the whole buffer after every operation also gives the buffer the
// chance to put itself in order. Blind histories look at nothing but the results of the
// operations themselves, and at the whole buffer once, at the end.

const (
	blindData = 1 << iota
	blindCursors
	blindSizes
)

func (ctx *Ctx) blind(salt uint64, ts []*Target, mx func(*Target) Mix, what int64, cases, ops int, fn runFn) {
	ctx.histories(salt, ts, func(t *Target) Mix { m := mx(t); m.OOR, m.Invalid, m.W[KPoke] = 0, 0, 0; return m }, cases, ops,
		func(shard int, c *Case, cov *Cov) *Viol {
			c.Aux = map[string]int64{"blind": what}
			if cov != nil {
				cov.count("histories with nothing looked at in between", 1)
			}
			return fn(shard, c, cov)
		})
}

func runBlind(ctx *Ctx, shard int, c *Case, judge Judge, cov *Cov) *Viol {
	var b *built
	if msg := catch(func() { b = c.build() }); msg != "" {
		return &Viol{Text: "constructing the buffer panicked: " + msg, Step: -1, Case: c, Kind: "case"}
	}
	s := b.subj
	m := &State{}
	for _, sl := range b.slices {
		m.Data = append(m.Data, sl...)
	}
	known := func(e *Exp) *State {
		n := int64(len(e.Data))
		return &State{Data: e.Data, Off: e.Off, Boff: e.Boff, Cap: n, Bcap: n * 8}
	}
	m = known(&Exp{Data: m.Data})
	last := -1
	for i, o := range c.Ops {
		if o.method(s.T) == "" {
			continue
		}
		e := spec(s.T, m, o)
		if e.Unspec || e.Refuse {
			continue
		}
		ctx.prog[shard].Add(1)
		ctx.cur[shard].Store(&curOp{c, o})
		st := &Step{T: s.T, I: i, Op: o, Pre: m, Exp: e, B: b, Case: c}
		st.Res = s.exec(o)
		st.Post = known(e)
		rel, bad := judge(st)
		if bad != "" {
			return &Viol{Text: bad + fmt.Sprintf(" (nothing was looked at since construction)\n  step %d: %s", i, st.describe()), Step: i, Case: c, Kind: "case"}
		}
		if st.Res.Panicked {
			return nil // not this judge's business; what follows is unknown
		}
		if rel > 0 && cov != nil {
			cov.hit(hashStr(st.sig(), "blind"), rel == 2)
		}
		m, last = st.Post, i
	}
	if last < 0 {
		return nil
	}
	end, what := s.observe(), c.Aux["blind"]
	bad := ""
	if what&blindData != 0 {
		bad = diffData(end.Data, m.Data)
	}
	if bad == "" && what&blindCursors != 0 && (end.Off != m.Off || end.Boff != m.Boff) {
		bad = fmt.Sprintf("cursors are %d/%d, should be %d/%d", end.Off, end.Boff, m.Off, m.Boff)
	}
	if bad == "" && what&blindSizes != 0 && (end.Cap != int64(len(end.Data)) || end.Bcap != 8*end.Cap) {
		bad = fmt.Sprintf("sizes are %d/%d for %d bytes", end.Cap, end.Bcap, len(end.Data))
	}
	if bad != "" {
		return &Viol{Text: "after a history with nothing looked at in between: " + bad + "\n  last: " + c.Ops[last].String(), Step: last, Case: c, Kind: "case"}
	}
	return nil
}
