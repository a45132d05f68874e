package main

import "fmt"

// runLocks drives one history looking only at the lock. With Aux["held"] the
// client holds the lock of a lock-it-yourself buffer around every operation,
// and makes queries of a concurrent-safe buffer while holding its lock.
func runLocks(ctx *Ctx, shard int, c *Case, cov *Cov) *Viol {
	var b *built
	if msg := catch(func() { b = c.build() }); msg != "" {
		return nil
	}
	s := b.subj
	l, ok := s.B.(locker)
	if !ok {
		return &Viol{Text: s.T.ID + " has no lock", Case: c, Kind: "case"}
	}
	held := c.Aux["held"] == 1
	hit := func(o *Op, pre *State, what string, refused bool) {
		if cov == nil {
			return
		}
		h := hashStr(hashStr(hash0, s.T.ID+what), o.method(s.T))
		off := o.Off
		if o.Next {
			off = pre.Off*1000 + pre.Boff
		}
		h = hashInt(hashInt(hashInt(h, int64(len(pre.Data))), off), o.count())
		if refused {
			h++
			what += ", refused"
		}
		cov.hit(h, true)
		cov.count(s.T.ID+": "+what, 1)
		if len(cov.samples) < 1 && refused {
			cov.samples = append(cov.samples, fmt.Sprintf("%s.%s on %v was refused; lock free and cursor operations get through", s.T.ID, o, pre))
		}
	}
	fail := func(i int, o *Op, pre *State, text string) *Viol {
		return &Viol{Text: fmt.Sprintf("%s\n  step %d: %s.%s on %v", text, i, s.T.ID, o, pre), Step: i, Case: c, Kind: "case"}
	}
	pre := s.observe()
	for i, o := range c.Ops {
		if o.method(s.T) == "" {
			continue
		}
		e := spec(s.T, pre, o)
		if e.Unspec && (o.K == KGrow || s.T.Mini && o.Odd == 0) {
			continue
		}
		if ctx != nil {
			ctx.prog[shard].Add(1)
			ctx.cur[shard].Store(&curOp{c, o})
		}
		var r *Res
		if s.T.Mini && held {
			l.Lock()
			if !finishes(func() { r = s.exec(o) }) {
				return fail(i, o, pre, "an operation of the lock-it-yourself buffer blocks while its client holds the lock")
			}
			if l.TryLock() {
				return fail(i, o, pre, "an operation of the lock-it-yourself buffer released the lock its client holds")
			}
			for q := range queryList {
				q := q
				if !finishes(func() { s.rawQuery(q, shard, false) }) {
					return fail(i, o, pre, queryList[q]+" of the lock-it-yourself buffer blocks while its client holds the lock")
				}
			}
			if l.TryLock() {
				return fail(i, o, pre, "a query of the lock-it-yourself buffer released the lock its client holds")
			}
			l.Unlock()
			hit(o, pre, "operation with the client's lock held", r.Panicked)
			pre = s.observe()
			continue
		}
		done := finishes(func() { r = s.exec(o) })
		if !done {
			return fail(i, o, pre, "an operation blocks on its own buffer's lock")
		}
		how := "returned"
		if r.Panicked {
			how = fmt.Sprintf("panicked with %v", r.Panic)
		}
		if !l.TryLock() {
			return fail(i, o, pre, "the operation "+how+" and the buffer's lock is still held")
		}
		l.Unlock()
		if s.T.Conc() {
			if bad := probeLocks(s, true); bad != "" {
				return fail(i, o, pre, "the operation "+how+" and afterwards "+bad)
			}
			if held {
				l.Lock()
				for q := range queryList {
					q := q
					if !finishes(func() { s.rawQuery(q, shard, true) }) {
						return fail(i, o, pre, "the query "+queryList[q]+" blocks while the lock is held")
					}
					if l.TryLock() {
						return fail(i, o, pre, "the query "+queryList[q]+" released the lock its client holds")
					}
				}
				l.Unlock()
				hit(o, pre, "all queries with the lock held", false)
			}
		}
		hit(o, pre, "lock looked at after the operation", r.Panicked)
		pre = s.observe()
	}
	return nil
}

func runP03(ctx *Ctx) {
	fn := props["P03"].Fn(ctx)
	both := func(shard int, c *Case, cov *Cov) *Viol {
		if v := fn(shard, c, cov); v != nil {
			return v
		}
		return nil
	}
	heldFn := func(shard int, c *Case, cov *Cov) *Viol {
		d := *c
		d.Aux = map[string]int64{"held": 1}
		return fn(shard, &d, cov)
	}
	ts := where(lockable)
	for k, f := range []runFn{both, heldFn} {
		k := uint64(k)
		// every method, every position around the end, counts around the room
		ctx.grid(140+k*10, ts, []int{0, 1, 2, 7, 17}, func(t *Target, size int64, r *R) (ops []*Op) {
			for _, tp := range templates(t) {
				for i := 0; i < ctx.n(40, 400); i++ {
					o := r.fill(&tp, size)
					if o.isAccess() && r.p(0.5) {
						lim := size
						if o.isBit() {
							lim *= 8
						}
						if o.Next {
							kk := KSeek
							if o.isBit() {
								kk = KSeekBit
							}
							ops = append(ops, &Op{K: kk, Off: r.wild(lim)})
						} else {
							o.Off = r.wild(lim)
						}
						if o.isRead() && r.p(0.3) {
							o.N = r.wild(lim)
						}
					}
					if o.K == KGrow && r.p(0.4) {
						o.N = -o.N - 1
					}
					if o.K == KSetBit && r.p(0.4) {
						o.Val = uint64(r.Intn(256))
					}
					if o.K == KSetBits && r.p(0.2) {
						o.N = []int64{0, 65, 70, 200, -1, -5}[r.Intn(6)]
					}
					if o.K == KReadBits && r.p(0.2) {
						o.N = []int64{0, 65, 70, 200, -1, -5}[r.Intn(6)]
					}
					if t.Ver == 1 && (o.K == KReadT || o.K == KWriteT) {
						if r.p(0.2) {
							o.W = []int{0, 3, 5, 16, -1}[r.Intn(5)]
						}
						if r.p(0.2) {
							o.Odd = 1 + r.Intn(4)
						}
					}
					ops = append(ops, o, &Op{K: KSeek, Off: r.Int63n(size + 1)}, &Op{K: KSeekBit, Off: r.Int63n(8*size + 1)})
				}
			}
			return
		}, f)
		mx := func(t *Target) Mix {
			m := defaultMix()
			if !t.Mini {
				m.OOR, m.Invalid, m.Zero = 0.25, 0.2, 0.15
			} else {
				m.OOR, m.Zero = 0.15, 0.1
			}
			return m.with(5, KTruncL, KTruncR, KGrow, KRefresh).with(3, KReset).with(8, KSetAll, KClearAll, KFlipAll)
		}
		ctx.histories(141+k*10, ts, mx, ctx.n(150, 5000), 50, f)
	}
	// large amounts of data
	ctx.longs(180, ts, []Kind{KWriteBytes, KReadBytes, KWriteT, KReadT, KSetAll, KClearAll, KFlipAll}, "U", false, both)
	ctx.longs(181, ts, []Kind{KWriteBytes, KReadBytes}, "U", true, heldFn)
	ctx.bulk(182, ts, 5<<20, func(t *Target, size int64, r *R) []*Op {
		return []*Op{{K: KGrow, N: size}, {K: KSetAll}, {K: KGrow, N: size + 1}, {K: KReadBit, Off: size*8 + 1}, {K: KReset}, {K: KGrow, N: size - 1}}
	}, both)
	if ctx.stop.Load() {
		return
	}
	ctx.runSchedParent()
	ctx.runRace([]string{"bracket", "mixes"}, func(wl string, r *raceReport) string {
		if wl != "bracket" {
			return "" // P01's business
		}
		return "operations of a lock-it-yourself buffer race although their clients hold its lock"
	})
	ctx.crowdReturns()
}
