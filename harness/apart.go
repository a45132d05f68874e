package main

import (
	"fmt"
)

// apart repeats operations on several processors at once, each on a buffer of its own
// (or reading the one they share), and compares every outcome with the one the same
// operation had alone. What is kept in common without a race (in atomics, behind a
// lock of its own) but not kept together shows here.
func (ctx *Ctx) apart() {
	if ctx.stop.Load() {
		return
	}
	cov := newCov()
	defer ctx.merge(cov)
	r := newR(mix(ctx.Seed, 241))
	const g, size = 8, 64
	type work struct {
		s    *Subj
		init []byte
		ops  []*Op
		want []string
		bad  string
		read bool // the buffer is shared
	}
	once := func(w *work, i int) string {
		o := w.ops[i]
		if !w.read { // the buffer is this goroutine's
			copy(w.s.live(), w.init)
			if o.Next {
				k := KSeek
				if o.isBit() {
					k = KSeekBit
				}
				w.s.exec(&Op{K: k, Off: int64(3 * i)})
			}
		}
		res := w.s.exec(o)
		key := resKey(res)
		if !w.read {
			key += fmt.Sprintf(" %x", w.s.live())
		}
		return key
	}
	run := func(what string, ws []*work, iters int) bool {
		for _, w := range ws {
			for i := range w.ops {
				w.want = append(w.want, once(w, i))
			}
		}
		parallel(len(ws), func(p int) {
			w := ws[p]
			for k := 0; k < iters && w.bad == ""; k++ {
				i := k % len(w.ops)
				if got := once(w, i); got != w.want[i] {
					w.bad = fmt.Sprintf("%s, %s: %s on one of %d goroutines: %s, alone: %s", w.s.T.ID, what, w.ops[i], len(ws), got, w.want[i])
				}
			}
		})
		for _, w := range ws {
			if w.bad != "" {
				ctx.report(&Viol{Text: w.bad, Kind: "apart"})
				return false
			}
			cov.hit(hashStr(hash0, what+w.s.T.ID+w.ops[0].String()), true)
			cov.count("operations repeated on several processors, "+what, int64(iters))
		}
		return true
	}
	pick := func(t *Target, read bool) (out []tmpl) {
		for _, tp := range templates(t) {
			if tp.base.isAccess() && (!read || tp.base.isRead() && !tp.base.Next) {
				out = append(out, tp)
			}
		}
		return
	}
	ops := func(t *Target, tp *tmpl, init []byte, n int) (out []*Op) {
		for try := 0; len(out) < n && try < 100; try++ {
			o := r.fill(tp, size)
			if e := spec(t, &State{Data: init, Off: int64(3 * len(out)), Boff: int64(3 * len(out))}, o); !e.Unspec && !e.Refuse {
				out = append(out, o)
			}
		}
		return
	}
	for _, t := range targets {
		for _, tp := range pick(t, false) {
			var ws []*work
			for p := 0; p < g; p++ {
				w := &work{init: r.data(size)}
				w.s = newSubj(t, t.New(append([]byte{}, w.init...)))
				if w.ops = ops(t, &tp, w.init, 3); len(w.ops) > 0 {
					ws = append(ws, w)
				}
			}
			if !run("the same method on distinct buffers", ws, ctx.n(2500, 60000)) {
				return
			}
		}
		rd := pick(t, true)
		for i := range rd {
			init := r.data(size)
			var ws []*work
			for p := 0; p < g; p++ {
				tp := &rd[i]
				if p >= g/2 {
					tp = &rd[r.Intn(len(rd))]
				}
				w := &work{init: init, s: newSubj(t, t.New(init))}
				if p > 0 {
					w.s = ws[0].s
				}
				w.read = true
				if w.ops = ops(t, tp, init, 3); len(w.ops) > 0 {
					ws = append(ws, w)
				}
			}
			if !run("positioned reads of one buffer", ws, ctx.n(2500, 60000)) {
				return
			}
		}
	}
	for n := 0; n < ctx.n(150, 4000); n++ {
		var ws []*work
		t0 := targets[r.Intn(len(targets))]
		for p := 0; p < g; p++ {
			t := t0
			if r.p(0.3) {
				t = targets[r.Intn(len(targets))]
			}
			tps := pick(t, false)
			w := &work{init: r.data(size)}
			w.s = newSubj(t, t.New(append([]byte{}, w.init...)))
			for k := 0; k < 3; k++ {
				if o := ops(t, &tps[r.Intn(len(tps))], w.init, 1); len(o) > 0 && !(o[0].Next && k > 0) {
					w.ops = append(w.ops, o...)
				}
			}
			if len(w.ops) > 0 {
				ws = append(ws, w)
			}
		}
		if !run("various methods on distinct buffers", ws, ctx.n(2500, 60000)) {
			return
		}
	}
}
