package main

import (
	"fmt"
	"hash/fnv"
	"sort"
)

// amountSizes are amounts of data from a kilobyte up, and those the source mentions.
func amountSizes() (out []int) {
	set := map[int64]bool{1 << 10: true, 1 << 12: true, 1<<14 + 1: true, 1 << 16: true, 1<<18 + 1: true, 1<<20 + 1: true}
	n := 0
	for i := len(dict) - 1; i >= 0 && n < 8; i-- {
		if d := dict[i]; d > 512 && d < 1<<22 && !set[d] {
			set[d+1] = true
			n++
		}
	}
	for v := range set {
		out = append(out, int(v))
	}
	sort.Ints(out)
	return
}

// amountOp is one operation that moves about n bytes, and the size of the buffer it is
// meant for.
func (r *R) amountOp(t *Target, k Kind, n int) (*Op, int) {
	o := &Op{K: k, Ty: "U", W: 1, Prior: 3}
	size := n + 16
	switch k {
	case KGrow:
		o.N, size = int64(n), 40
	case KWriteBytes:
		o.Off, o.Data = int64(r.Intn(9)), r.data(n)
	case KReadBytes:
		o.Off, o.N = int64(r.Intn(9)), int64(n)
	case KWriteT, KReadT:
		tys := t.types("UIF")
		y := tys[r.Intn(len(tys))]
		o.Ty, o.W, o.Ord, o.Off = y.Ty, y.W, y.Ord, int64(r.Intn(9))
		if k == KReadT {
			o.N = int64(n / y.W)
		} else {
			o.Vals = r.vals(n / y.W)
		}
	}
	if o.isAccess() && r.p(0.3) {
		o.Next, o.Off = true, 0
	}
	return o, size
}

var amountKinds = []Kind{KGrow, KSetAll, KClearAll, KFlipAll, KWriteBytes, KReadBytes, KWriteT, KReadT}

// amounts: operations on large amounts of data, whose helpers, if they have any, must be
// done when the operation is. On one buffer that two goroutines use (own false), or on
// two buffers with one goroutine each.
func (w *raceRun) amounts(ts []*Target, own bool) {
	n := 0
	for _, size := range amountSizes() {
		for _, t := range ts {
			for _, k := range amountKinds {
				if n++; n%raceProcs != w.shard || w.rep.Hung != "" || w.rep.Bad != "" {
					continue
				}
				o, room := w.r.amountOp(t, k, size)
				if o.method(t) == "" {
					continue
				}
				init := w.r.data(room)
				fresh := func() *Subj {
					s := newSubj(t, t.New(append([]byte{}, init...)))
					s.refOnly = true
					return s
				}
				play := func(s *Subj) string {
					s.exec(o)
					s.exec(&Op{K: KFlipAll})
					s.exec(&Op{K: KSeek})
					s.exec(o)
					s.exec(&Op{K: KSetBit, Val: 1})
					if !own {
						return ""
					}
					h := fnv.New64a()
					h.Write(s.live())
					return fmt.Sprintf("%d bytes with the sum %x", len(s.live()), h.Sum64())
				}
				var fs []func()
				var got [2]string
				one := fresh()
				for i := range got {
					i, s := i, one
					if own {
						s = fresh()
					}
					fs = append(fs, func() { got[i] = play(s) })
				}
				if !w.together(func() string { return fmt.Sprintf("%s: %s", t.ID, short(o.String())) }, fs...) {
					return
				}
				if own {
					want := play(fresh())
					for _, x := range got {
						if x != want {
							w.rep.Bad = fmt.Sprintf("%s: %s on a buffer of its own left %s while another goroutine did the same elsewhere, %s alone", t.ID, short(o.String()), x, want)
						}
					}
				}
				w.rep.Eval += 10
				w.rep.Counts["operations on 1 KiB to 4 MiB of "+t.ID] += 10
				w.distinct[hashStr(hashInt(hashStr(hash0, t.ID), int64(size)), o.method(t)+"amount")] = struct{}{}
			}
		}
	}
}
