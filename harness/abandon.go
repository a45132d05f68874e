package main

import (
	"fmt"
	"runtime"
	"slices"
	"time"
)

// abandoned: buffers are dropped and collected while what they handed out (decoded
// results, the slice of their contents, the storage they were given) is still in use,
// and other buffers are made, grown and written in the meantime.
func (ctx *Ctx) abandoned(salt uint64) {
	cov := newCov()
	defer ctx.merge(cov)
	r := newR(mix(ctx.Seed, salt))
	type held struct {
		what string
		res  *kept
		mem  []byte
		want []byte
	}
	const per = 40
	for _, t := range where(all) {
		tys := t.types("UIF")
		for range ctx.n(16, 300) {
			if ctx.stop.Load() {
				return
			}
			var hs []*held
			made := func(k int, junk bool) *Subj {
				var in [][]byte
				for range 1 + r.Intn(3) {
					l := r.Intn(300)
					if r.p(0.1) {
						l = r.Intn(40000)
					}
					x := make([]byte, l, l+r.Intn(64))
					for i := range x {
						if x[i] = 0xEE; !junk {
							x[i] = byte(r.Uint64())
						}
					}
					in = append(in, x)
				}
				s := newSubj(t, t.New(in...))
				for range r.Intn(4) {
					s.exec(&Op{K: KGrow, N: int64(r.Intn(200))})
				}
				if junk {
					s.exec(&Op{K: KSetAll})
					return s
				}
				if len(s.live()) > 0 {
					s.exec(&Op{K: KWriteBytes, Data: r.data(1 + r.Intn(len(s.live())))})
				}
				for range 3 {
					y := tys[r.Intn(len(tys))]
					if n := len(s.live()) / y.W; n > 0 {
						o := &Op{K: KReadT, Ty: y.Ty, W: y.W, Ord: y.Ord, N: int64(1 + r.Intn(n))}
						if kr := keep(o, s.exec(o), fmt.Sprintf("the result of %s", o)); kr != nil {
							hs = append(hs, &held{what: kr.what, res: kr})
						}
					}
				}
				o := &Op{K: []Kind{KReset, KTruncL, KRefresh, KRefresh}[r.Intn(4)], N: int64(r.Intn(1 + len(s.live())))}
				if o.method(t) != "" {
					s.exec(o)
				}
				for i, x := range append(in, s.live()) {
					hs = append(hs, &held{what: fmt.Sprintf("slice %d it was given", i), mem: x, want: slices.Clone(x)})
				}
				hs[len(hs)-1].what = "the slice of its contents"
				return s
			}
			var msg string
			for k := range per {
				if msg = catch(func() { made(k, false) }); msg != "" { // other properties' business
					cov.count("stopped: "+msg, 1)
					return
				}
			}
			for range 2 {
				runtime.GC()
				time.Sleep(300 * time.Microsecond) // for finalizers and cleanups
			}
			var others []*Subj
			for k := range per {
				catch(func() { others = append(others, made(k, true)) })
			}
			for _, h := range hs {
				if h.res != nil {
					if now := h.res.now(); !slices.Equal(now, h.res.vals) {
						ctx.report(&Viol{Text: fmt.Sprintf("%s: %s of a buffer not in use any more changed while other buffers were used: from %s to %s", t.ID, h.what, shortVals(h.res.vals), shortVals(now)), Kind: "abandoned"})
						return
					}
				} else if d := diffData(h.mem, h.want); d != "" {
					ctx.report(&Viol{Text: fmt.Sprintf("%s: %s, a buffer not in use any more, changed while other buffers were used: %s", t.ID, h.what, d), Kind: "abandoned"})
					return
				}
				cov.count("holdings of collected buffers looked at", 1)
			}
			runtime.KeepAlive(others)
			cov.hit(hashInt(hashStr(hash0, t.ID), int64(r.Uint64()>>1)), true)
		}
	}
}
