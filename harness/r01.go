package main

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"time"
	"unsafe"
)

func (s *Subj) window() []byte {
	var w []byte
	switch f := s.bytes.(type) {
	case func() []byte:
		w = f()
	case func(*[]byte):
		f(&w)
	}
	return w
}

func init() {
	props["R01"] = &Prop{Rule: "one growth step observed: did the storage move, did it have room, how much is held; or one growth run judged as a whole (relocations per doubling, cost per step)",
		Assume: []string{"relocation is seen as a change of the address of the contents", "bounds are loose: 12 relocations per doubling, 8 times the largest size plus 256 bytes held, cost of a large buffer's step within 60 times a small one's"},
		Fn: func(ctx *Ctx) runFn {
			return func(shard int, c *Case, cov *Cov) *Viol { return runGrowth(ctx, shard, c, cov) }
		},
		Run: runR01}
}

const perDoubling, heldFactor, heldSlack = 12, 8, 256

// runGrowth drives one history looking at where the storage is.
func runGrowth(ctx *Ctx, shard int, c *Case, cov *Cov) *Viol {
	var b *built
	if msg := catch(func() { b = c.build() }); msg != "" {
		return nil
	}
	s := b.subj
	w := s.window()
	maxSize, firstCap := len(w), cap(w)
	for i, o := range c.Ops {
		if o.method(s.T) == "" {
			continue
		}
		before := s.window()
		if e := spec(s.T, &State{Data: before, Off: s.query(0), Boff: s.query(1)}, o); e.Unspec || e.Refuse {
			continue
		}
		if ctx != nil {
			ctx.prog[shard].Add(1)
			ctx.cur[shard].Store(&curOp{c, o})
		}
		if r := s.exec(o); r.Panicked || s.T.Conc() && !s.B.(locker).TryLock() {
			return nil
		} else if s.T.Conc() {
			s.B.(locker).Unlock()
		}
		after := s.window()
		maxSize = max(maxSize, len(after))
		vi := func(f string, a ...any) *Viol {
			return &Viol{Text: fmt.Sprintf("%s, step %d, %s: ", s.T.ID, i, o) + fmt.Sprintf(f, a...), Step: i, Case: c, Kind: "case"}
		}
		if o.K == KGrow {
			fits := len(before)+int(o.N) <= cap(before)
			moved := cap(before) > 0 && unsafe.SliceData(before) != unsafe.SliceData(after)
			if fits && moved {
				return vi("the storage moved although %d+%d bytes fit its %d", len(before), o.N, cap(before))
			}
			if fits && cap(after) != cap(before) {
				return vi("the capacity changed from %d to %d although %d+%d bytes fit", cap(before), cap(after), len(before), o.N)
			}
			if cov != nil {
				k := "growth into spare room"
				if !fits {
					k = "growth beyond the storage"
				}
				h := hashInt(hashInt(hashInt(hashStr(hash0, s.T.ID), int64(len(before))), int64(cap(before))), o.N)
				cov.hit(h, o.N > 0)
				cov.count(s.T.ID+": "+k, 1)
				if len(cov.samples) < 1 && fits && o.N > 0 {
					cov.samples = append(cov.samples, fmt.Sprintf("%s: %d+%d bytes in storage of %d: not moved", s.T.ID, len(before), o.N, cap(before)))
				}
			}
		}
		if cap(after) > heldFactor*maxSize+heldSlack && cap(after) > firstCap {
			return vi("the storage holds %d bytes though the buffer never had more than %d", cap(after), maxSize)
		}
	}
	return nil
}

// growthRun grows a buffer to n bytes in the given steps and judges the whole run.
func growthRun(ctx *Ctx, t *Target, n int, step func(size int) int, name string, cov *Cov) *Viol {
	s := newSubj(t, t.New())
	g := s.m("Grow").(func(int64))
	var moves []int // sizes at which it moved
	doubling := 64
	inDoubling := 0
	steps := 0
	var last *byte
	for size := 0; size < n; {
		d := max(1, step(size))
		g(int64(d))
		size += d
		steps++
		w := s.window()
		if p := unsafe.SliceData(w); p != last {
			last = p
			moves = append(moves, size)
			inDoubling++
			if d > size/32 && size > 64 {
				inDoubling-- // steps this large may each need their own storage
			}
		}
		if cap(w) > heldFactor*size+heldSlack {
			return &Viol{Text: fmt.Sprintf("%s, grown %s: %d bytes of storage held for %d", t.ID, name, cap(w), size), Kind: "growth"}
		}
		if size >= 2*doubling {
			for size >= 2*doubling {
				doubling *= 2
			}
			inDoubling = 0
		}
		if inDoubling > perDoubling && size > 64 {
			return &Viol{Text: fmt.Sprintf("%s, grown %s: the contents moved %d times while the size went from %d to %d (moves at %v)", t.ID, name, inDoubling, doubling, size, moves[max(0, len(moves)-16):]), Kind: "growth"}
		}
	}
	if cov != nil {
		cov.hit(hashInt(hashStr(hashStr(hash0, t.ID), name), int64(n)), true)
		cov.count("growth runs of "+t.ID, 1)
		cov.count("growth steps in runs", int64(steps))
		cov.count("relocations in runs", int64(len(moves)))
		if len(cov.samples) < 2 {
			cov.samples = append(cov.samples, fmt.Sprintf("%s grown to %d bytes %s: %d steps, moved %d times", t.ID, n, name, steps, len(moves)))
		}
	}
	return nil
}

// stepCost is the cost of one-byte growth steps at a given size: the least of
// many batches, so that neither relocations nor other processes count.
func stepCost(t *Target, size int) time.Duration {
	store := make([]byte, size, size+64*40)
	s := newSubj(t, t.New(store))
	g := s.m("Grow").(func(int64))
	best := time.Hour
	for i := 0; i < 40; i++ {
		t0 := time.Now()
		for j := 0; j < 64; j++ {
			g(1)
		}
		best = min(best, time.Since(t0))
	}
	return best
}

func runR01(ctx *Ctx) {
	fn := props["R01"].Fn(ctx)
	cov := newCov()
	// short runs first: growth that always relocates would take long below
	for _, t := range targets {
		for _, d := range []int{1, 100, 1000} {
			d := d
			if v := growthRun(ctx, t, 20000*d, func(int) int { return d }, fmt.Sprintf("by %d", d), cov); v != nil {
				ctx.report(v)
				return
			}
		}
	}
	// memory held, measured alone before anything else runs
	for _, t := range targets {
		for _, kind := range []string{"bytewise", "by 1000", "grow and truncate"} {
			for try := 0; ; try++ {
				runtime.GC()
				debug.FreeOSMemory()
				var m0, m1 runtime.MemStats
				runtime.ReadMemStats(&m0)
				s := newSubj(t, t.New())
				top := 0
				for size := 0; size < 1<<20; {
					d := int64(1)
					if kind != "bytewise" {
						d = 1000
					}
					s.exec(&Op{K: KGrow, N: d})
					size += int(d)
					top = size
					if kind == "grow and truncate" && size%5000 == 0 && t.Has("TruncateRight") {
						s.exec(&Op{K: KTruncR, N: 700})
						size -= 700
						s.exec(&Op{K: KTruncL, N: 100})
						size -= 100
					}
				}
				runtime.GC()
				runtime.ReadMemStats(&m1)
				held := int64(m1.HeapAlloc) - int64(m0.HeapAlloc)
				runtime.KeepAlive(s)
				if held <= int64(heldFactor*top+1<<20) {
					cov.hit(hashStr(hashStr(hash0, t.ID), kind), true)
					cov.count("heap measurements", 1)
					break
				}
				if try == 2 {
					ctx.report(&Viol{Text: fmt.Sprintf("%s grown %s to %d bytes keeps %d bytes of heap alive", t.ID, kind, top, held), Kind: "growth"})
					return
				}
			}
		}
	}
	// cost of a step must not depend on the size
	for _, t := range targets {
		for try := 0; ; try++ {
			small, large := stepCost(t, 64), stepCost(t, 1<<22)
			if large < 60*small+20*time.Microsecond {
				cov.hit(hashStr(hash0, t.ID+"cost"), true)
				cov.count("step cost measurements", 1)
				if try == 0 && len(cov.samples) < 1 {
					cov.samples = append(cov.samples, fmt.Sprintf("%s: 64 one-byte steps take %v at 64 bytes and %v at 4 MiB", t.ID, small, large))
				}
				break
			}
			if try == 4 {
				ctx.report(&Viol{Text: fmt.Sprintf("%s: growing by one byte within the storage takes %v per 64 steps at 64 bytes and %v at 4 MiB", t.ID, small, large), Kind: "growth"})
				return
			}
		}
	}
	ctx.merge(cov)
	ctx.sharded(180, func(shard int, r *R, cov *Cov, _ func(*Viol)) {
		k := 0
		for _, t := range targets {
			type plan struct {
				name string
				n    int
				step func(int) int
			}
			plans := []plan{
				{"by 1", ctx.n(1<<20, 1<<24), func(int) int { return 1 }},
				{"by 3", ctx.n(1<<21, 1<<24), func(int) int { return 3 }},
				{"by 64", ctx.n(1<<24, 1<<27), func(int) int { return 64 }},
				{"by 1000", ctx.n(1<<25, 1<<27), func(int) int { return 1000 }},
				{"by 4096", ctx.n(1<<26, 1<<28), func(int) int { return 4096 }},
				{"by 65536", ctx.n(1<<27, 1<<29), func(int) int { return 65536 }},
				{"in random small steps", ctx.n(1<<22, 1<<26), func(int) int { return 1 + r.Intn(200) }},
				{"by a hundredth", ctx.n(1<<25, 1<<27), func(size int) int { return size / 100 }},
				{"mostly by 1, sometimes by 5000", ctx.n(1<<21, 1<<25), func(int) int {
					if r.p(0.001) {
						return 5000
					}
					return 1
				}},
			}
			for _, p := range plans {
				k++
				if k%nShards != shard {
					continue
				}
				if ctx.stop.Load() {
					return
				}
				if v := growthRun(ctx, t, p.n, p.step, p.name, cov); v != nil {
					ctx.report(v)
					return
				}
			}
		}
	})
	if ctx.stop.Load() {
		return
	}
	// spare room: initial sizes, spare capacities, amounts
	ctx.grid(181, targets, append(upto(20), 63, 64, 65, 255, 256, 257, 1024, 4096, 70000), func(t *Target, size int64, r *R) (ops []*Op) {
		for i := 0; i < ctx.n(200, 2000); i++ {
			ops = append(ops, &Op{K: KGrow, N: int64([]int{0, 1, 1, 2, 3, 5, 8, 17, 64, 300, 1024}[r.Intn(11)])})
			switch r.Intn(9) {
			case 0:
				ops = append(ops, &Op{K: KTruncR, N: r.Int63n(size + 1)})
			case 1:
				ops = append(ops, &Op{K: KTruncL, N: r.Int63n(size + 1)})
			case 2:
				if r.p(0.1) {
					ops = append(ops, &Op{K: KReset})
				}
			}
		}
		return
	}, fn)
	mx := func(t *Target) Mix {
		m := defaultMix()
		return m.only(2, KWriteBytes, KWriteT, KSetAll, KSeek, KReset).with(40, KGrow).with(15, KTruncL, KTruncR)
	}
	ctx.histories(182, targets, mx, ctx.n(500, 15000), 60, fn)
	ctx.histories(183, targets, func(t *Target) Mix { m := mx(t); m.MaxSize, m.MaxLen = 6000, 300; return m }, ctx.n(60, 2000), 60, fn)
}
