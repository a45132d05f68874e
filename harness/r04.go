package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"syscall"
	"time"
	"unsafe"
)

// ---- R04: the cost of a call is proportional to what it moves ----
//
// The processor time of the calling thread and the allocator's counters are read around
// calls that differ in one thing only: how much is moved, how large the buffer is and
// where in it the call goes, or how long the buffer has been in use. Times are the least
// of several readings and are compared with each other, never with fixed figures.

const (
	costFactor = 40                    // by how much time per element may differ
	costSlack  = 30 * time.Microsecond // per call
	heapPer    = 64                    // bytes allocated per byte moved
	heapSlack  = 2048                  // bytes allocated per call
	leakSlack  = 128 << 10             // bytes held after long use
)

var haveThreadClock = threadTime() > 0

func clock() time.Duration {
	if haveThreadClock {
		return threadTime()
	}
	return time.Duration(time.Now().UnixNano())
}

// timeOf is the least time one call takes.
func timeOf(run func(), tries int) time.Duration {
	best := time.Duration(math.MaxInt64)
	reps := 1
	for t := 0; t < tries; t++ {
		t0 := clock()
		for range reps {
			run()
		}
		d := clock() - t0
		best = min(best, d/time.Duration(reps))
		if d < 20*time.Microsecond && reps < 1<<10 {
			reps *= 4
			t--
		}
	}
	return max(best, 1)
}

// heapOf is the number of bytes one call allocates.
func heapOf(run func()) uint64 {
	best := uint64(math.MaxUint64)
	var m0, m1 runtime.MemStats
	for range 3 {
		runtime.ReadMemStats(&m0)
		run()
		runtime.ReadMemStats(&m1)
		best = min(best, m1.TotalAlloc-m0.TotalAlloc)
	}
	return best
}

// ready makes a call of the method that performs o from arguments made beforehand; n is
// the number of elements moved. It returns nil when it does not know the signature.
func ready(s *Subj, o *Op, n int) func() {
	name := o.method(s.T)
	if name == "" {
		return nil
	}
	m := s.rv.Method(s.T.idx[name])
	mt := m.Type()
	// elements of w bytes; v1 takes them as unsigned integers
	elems := map[int]reflect.Type{1: reflect.TypeOf(byte(0)), 2: reflect.TypeOf(uint16(0)), 4: reflect.TypeOf(uint32(0)), 8: reflect.TypeOf(uint64(0))}
	ints := []int64{o.Off, int64(n)}
	if o.Next || o.K == KGrow || o.K == KTruncL || o.K == KTruncR {
		ints = ints[1:]
	}
	var in []reflect.Value
	for i := range mt.NumIn() {
		a := mt.In(i)
		switch {
		case mt.IsVariadic() && i == mt.NumIn()-1:
		case a.Name() == "IntegerSize":
			in = append(in, reflect.ValueOf(o.W).Convert(a))
		case a == reflect.TypeFor[binary.ByteOrder]():
			in = append(in, reflect.ValueOf(o.order()))
		case a.Kind() == reflect.Interface && a.NumMethod() == 0:
			in = append(in, reflect.MakeSlice(reflect.SliceOf(elems[o.W]), n, n))
		case a.Kind() == reflect.Slice:
			in = append(in, reflect.MakeSlice(a, n, n))
		case a.Kind() == reflect.Pointer:
			p := reflect.New(a.Elem())
			if a.Elem().Kind() == reflect.Slice {
				p.Elem().Set(reflect.MakeSlice(a.Elem(), n, n))
			}
			in = append(in, p)
		case a.Kind() == reflect.Int64 && len(ints) > 0:
			in = append(in, reflect.ValueOf(ints[0]))
			ints = ints[1:]
		case a.Kind() == reflect.Uint8 || a.Kind() == reflect.Uint64:
			in = append(in, reflect.ValueOf(o.Val).Convert(a))
		case a.Kind() == reflect.Bool:
			in = append(in, reflect.ValueOf(o.Rel))
		default:
			return nil
		}
	}
	return func() { m.Call(in) }
}

type costs struct {
	ctx *Ctx
	cov *Cov
}

func (k *costs) bad(f string, a ...any) bool {
	k.ctx.report(&Viol{Text: fmt.Sprintf(f, a...), Kind: "cost"})
	return false
}

// scaling judges calls that move more and more. unit is the size of an element.
func (k *costs) scaling(name string, unit int, from, to int, heap bool, make func(n int) func()) bool {
	per := math.Inf(1) // least time per element so far
	for n := from; n <= to; n *= 2 {
		run := make(n)
		if run == nil {
			k.cov.count("signatures not understood", 1)
			return true
		}
		run()
		var t time.Duration
		limit := func() time.Duration {
			if math.IsInf(per, 1) {
				return time.Duration(math.MaxInt64)
			}
			return time.Duration(costFactor*per*float64(n)) + costSlack
		}
		for try := 0; try < 8; try++ {
			t = timeOf(run, 3+3*try)
			if t <= limit() {
				break
			}
			runtime.GC()
		}
		if t > limit() {
			return k.bad("%s: moving %d elements takes %v, %.0f times more per element than moving fewer", name, n, t, float64(t)/float64(n)/per)
		}
		per = min(per, float64(t)/float64(n))
		if heap {
			if h := heapOf(run); h > uint64(heapPer*n*unit+heapSlack) {
				return k.bad("%s: moving %d elements of %d bytes allocates %d bytes", name, n, unit, h)
			}
		}
		k.cov.hit(hashInt(hashStr(hash0, name), int64(n)), true)
		k.cov.count("amounts measured", 1)
	}
	return true
}

func (k *costs) amounts(t *Target, top int) bool {
	var ops []*Op
	for _, kind := range []Kind{KWriteBytes, KReadBytes} {
		ops = append(ops, &Op{K: kind, W: 1})
	}
	for _, y := range t.types("UIF") {
		if y.Ord < 3 {
			ops = append(ops, &Op{K: KWriteT, Ty: y.Ty, W: y.W, Ord: y.Ord}, &Op{K: KReadT, Ty: y.Ty, W: y.W, Ord: y.Ord})
		}
	}
	for _, o := range ops {
		for _, next := range []bool{false, true} {
			o := *o
			o.Next = next
			ok := k.scaling(t.ID+"."+o.method(t), o.W, 64, top, true, func(n int) func() {
				s := newSubj(t, t.New(make([]byte, n*o.W)))
				run := ready(s, &o, n)
				if run == nil || !next {
					return run
				}
				back := ready(s, &Op{K: KSeek}, 0)
				return func() { back(); run() }
			})
			if !ok {
				return false
			}
		}
	}
	for _, kind := range allBitKinds {
		o := &Op{K: kind}
		if o.method(t) == "" {
			continue
		}
		if !k.scaling(t.ID+"."+o.method(t), 1, 64, top, true, func(n int) func() {
			return ready(newSubj(t, t.New(make([]byte, n))), o, n)
		}) {
			return false
		}
	}
	if !k.scaling(t.ID+" from that many slices", 8, 64, top, true, func(n int) func() {
		var list [][]byte
		for range n {
			list = append(list, make([]byte, 8))
		}
		return func() { t.New(list...) }
	}) {
		return false
	}
	return k.scaling(t.ID+" from two slices", 2, 64, top*8, true, func(n int) func() {
		a, b := make([]byte, n), make([]byte, n)
		return func() { t.New(a, b) }
	})
}

// places judges calls that differ only in how large the buffer is and where they go.
func (k *costs) places(t *Target, size int64) bool {
	mem, err := mmapSparse(size)
	if err != nil {
		k.cov.count("huge buffers unavailable", 1)
		return true
	}
	defer syscall.Munmap(mem)
	var ops []*Op
	for _, kind := range []Kind{KWriteBytes, KReadBytes, KWriteByte, KReadByte, KReadBit, KSetBit, KFlipBit, KReadBits, KSetBits} {
		ops = append(ops, &Op{K: kind, W: 1})
	}
	for _, y := range t.types("UIF") {
		ops = append(ops, &Op{K: KWriteT, Ty: y.Ty, W: y.W, Ord: y.Ord}, &Op{K: KReadT, Ty: y.Ty, W: y.W, Ord: y.Ord})
	}
	for _, o := range ops {
		for _, next := range []bool{false, true} {
			var ts [2]time.Duration
			name := ""
			for try := 0; try < 8; try++ {
				for far := range 2 {
					o := *o
					o.Next = next
					if far == 1 {
						o.Off = size - 64
					}
					if o.isBit() {
						o.Off *= 8
					}
					name = t.ID + "." + o.method(t)
					b := mem
					if far == 0 {
						b = mem[:64]
					}
					s := newSubj(t, t.New(b))
					run := ready(s, &o, 4)
					if run == nil {
						continue
					}
					call := run
					if next {
						sk := &Op{K: KSeek, Off: o.Off}
						if o.isBit() {
							sk.K = KSeekBit
						}
						back := ready(s, sk, 0)
						call = func() { back(); run() }
					}
					ts[far] = timeOf(call, 3+3*try)
				}
				if ts[1] <= costFactor*ts[0]+costSlack {
					break
				}
			}
			if ts[1] > costFactor*ts[0]+costSlack {
				return k.bad("%s takes %v in a small buffer and %v far into a large one", name, ts[0], ts[1])
			}
			if ts[1] > 0 {
				k.cov.hit(hashStr(hash0, "far "+name), true)
				k.cov.count("calls compared between small and huge buffers", 1)
			}
		}
	}
	// cursors and sizes
	type pair struct {
		name string
		do   [2]func()
	}
	var pairs []pair
	for _, rel := range []bool{false, true} {
		for _, kind := range []Kind{KSeek, KSeekBit, KAfter, KAfterBit, KAlignBit, KAlignByte, KRefresh} {
			p := pair{name: fmt.Sprintf("%s.%s", t.ID, kindNames[kind])}
			for far := range 2 {
				b := mem
				if far == 0 {
					b = mem[:64]
				}
				s := newSubj(t, t.New(b))
				off := int64(3)
				if far == 1 {
					off = size - 61
				}
				if kind == KSeekBit || kind == KAfterBit || kind == KAlignByte {
					off *= 8
				}
				o := &Op{K: kind, Off: off, Rel: rel}
				if o.method(t) == "" {
					continue
				}
				pre := []*Op{{K: KSeek, Off: 0}, {K: KSeekBit, Off: 0}}
				if kind == KAlignBit {
					pre[0].Off = off
				}
				if kind == KAlignByte {
					pre[1].Off = off
				}
				p.do[far] = func() {
					s.exec(pre[0])
					s.exec(pre[1])
					s.exec(o)
				}
			}
			if p.do[0] != nil {
				pairs = append(pairs, p)
			}
		}
	}
	for q := range 4 {
		p := pair{name: fmt.Sprintf("%s query %d", t.ID, q)}
		for far := range 2 {
			b := mem
			if far == 0 {
				b = mem[:64]
			}
			s := newSubj(t, t.New(b))
			p.do[far] = func() { s.query(q) }
		}
		pairs = append(pairs, p)
	}
	for _, kind := range []Kind{KTruncL, KTruncR, KGrow, KReset} {
		o := &Op{K: kind, N: 3}
		if o.method(t) == "" {
			continue
		}
		p := pair{name: t.ID + "." + o.method(t)}
		for far := range 2 {
			b := mem[: size-16 : size]
			if far == 0 {
				b = mem[:64:80]
			}
			p.do[far] = func() { newSubj(t, t.New(b)).exec(o) }
		}
		pairs = append(pairs, p)
	}
	p := pair{name: t.ID + " from one slice"}
	for far := range 2 {
		b := mem
		if far == 0 {
			b = mem[:64]
		}
		p.do[far] = func() { t.New(b) }
	}
	for _, p := range append(pairs, p) {
		var ts [2]time.Duration
		for try := 0; try < 8; try++ {
			for far := range 2 {
				ts[far] = timeOf(p.do[far], 3+3*try)
			}
			if ts[1] <= costFactor*ts[0]+costSlack {
				break
			}
		}
		if ts[1] > costFactor*ts[0]+costSlack {
			return k.bad("%s takes %v with a small buffer and %v with a huge one", p.name, ts[0], ts[1])
		}
		k.cov.hit(hashStr(hash0, "far "+p.name), true)
		k.cov.count("calls compared between small and huge buffers", 1)
	}
	k.cov.count(fmt.Sprintf("comparisons with buffers of %d bytes", size), 1)
	return true
}

// wear judges a buffer that is used for long without changing size.
func (k *costs) wear(t *Target, rounds int) bool {
	const size = 512
	r := newR(mix(k.ctx.Seed, 401))
	s := newSubj(t, t.New(make([]byte, size)))
	m := defaultMix()
	m.OOR, m.Invalid = 0, 0
	st := s.observe()
	var calls []func()
	var names []string
	ks, tys := m.kinds(), t.types("UIF")
	for len(calls) < 400 {
		o := r.genOp(t, &m, st, ks, tys)
		switch o.K {
		case KGrow, KTruncL, KTruncR, KReset, KPoke, KAfter, KAfterBit:
			continue
		}
		if e := spec(t, st, o); e.Unspec || e.Refuse || o.method(t) == "" {
			continue
		}
		o.Odd = 0
		n := int(o.count())
		o.Off = max(0, o.Off)
		run := ready(s, o, n)
		if run == nil {
			continue
		}
		if o.Next { // from the start of the buffer each time
			o.Off = 0
			b1, b2 := ready(s, &Op{K: KSeek}, 0), ready(s, &Op{K: KSeekBit}, 0)
			calls = append(calls, b1, b2)
			names = append(names, "Seek", "SeekBit")
		}
		calls, names = append(calls, run), append(names, o.String())
	}
	// refused calls wear nothing out either
	if !t.Mini {
		for _, o := range []*Op{{K: KReadBytes, W: 1, Off: size - 1}, {K: KWriteBytes, W: 1, Off: -1}, {K: KReadBits, Off: 8*size - 3}, {K: KSetBits, Off: 8*size - 3, Val: 5}, {K: KSetBit, Off: -1}, {K: KReadByte, Off: size}} {
			if run := ready(s, o, 9); run != nil {
				calls, names = append(calls, func() { catch(run) }), append(names, o.String())
			}
		}
	}
	// size changes that come back to where they were
	grow, reset := ready(s, &Op{K: KGrow}, size), ready(s, &Op{K: KReset}, 0)
	tl, tr := ready(s, &Op{K: KTruncL}, 30), ready(s, &Op{K: KTruncR}, 30)
	g60 := ready(s, &Op{K: KGrow}, 60)
	one, two := make([]byte, 40), make([]byte, 50)
	round := func() {
		for i, f := range calls {
			if msg := catch(f); msg != "" {
				panic(names[i] + ": " + msg)
			}
		}
		if tl != nil && tr != nil {
			tl()
			tr()
			g60()
		}
		if reset != nil {
			reset()
			grow()
		}
		t.New(one)
		t.New(one, two)
		t.New()
	}
	held := func() int64 {
		var m runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		return int64(m.HeapAlloc)
	}
	part := func(n int) (d time.Duration, heap uint64) {
		d = time.Duration(math.MaxInt64)
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		for range n {
			t0 := clock()
			round()
			d = min(d, clock()-t0)
		}
		runtime.ReadMemStats(&m1)
		return d, (m1.TotalAlloc - m0.TotalAlloc) / uint64(n)
	}
	if msg := catch(round); msg != "" {
		k.cov.count("stopped: "+t.ID+" "+msg, 1) // other properties' business
		return true
	}
	part(20)
	h0, g0 := held(), runtime.NumGoroutine()
	t0, a0 := part(20)
	part(rounds)
	h1, g1 := held(), runtime.NumGoroutine()
	for try := 0; h1 > h0+leakSlack && try < 3; try++ {
		time.Sleep(20 * time.Millisecond)
		h1 = min(h1, held())
	}
	if h1 > h0+leakSlack { // once more: what accumulates does so again
		part(rounds)
		for h2, try := held(), 0; try < 4; h2, try = held(), try+1 {
			if h2 < h1+leakSlack/2 {
				h1 = h0
				break
			}
			time.Sleep(20 * time.Millisecond)
		}
	}
	for try := 0; g1 > g0 && try < 40; try++ {
		time.Sleep(20 * time.Millisecond)
		g1 = runtime.NumGoroutine()
	}
	t1, a1 := part(20)
	for try := 0; t1 > costFactor*t0+costSlack && try < 5; try++ {
		d, _ := part(20)
		t1 = min(t1, d)
	}
	runtime.KeepAlive(s)
	done := (rounds + 40) * len(calls)
	switch {
	case h1 > h0+leakSlack:
		return k.bad("%s holds %d bytes more after %d more calls on a buffer of %d bytes", t.ID, h1-h0, done, size)
	case g1 > g0:
		return k.bad("%s: %d goroutines more after %d calls", t.ID, g1-g0, done)
	case t1 > costFactor*t0+costSlack:
		return k.bad("%s: %d calls take %v at first and %v after %d calls", t.ID, len(calls), t0, t1, done)
	case a1 > 4*a0+heapSlack*uint64(len(calls)):
		return k.bad("%s: %d calls allocate %d bytes at first and %d after %d calls", t.ID, len(calls), a0, a1, done)
	}
	k.cov.hit(hashStr(hash0, "wear "+t.ID), true)
	k.cov.count("calls on buffers in long use", int64(done))
	k.cov.count("bytes held more after long use of a "+t.ID, max(0, h1-h0))
	return true
}

// keeps judges what is held after very many calls of each single method: accepted ones,
// ones of no elements, and refused ones.
func (k *costs) keeps(t *Target, size, amount int64, calls int) bool {
	s := newSubj(t, t.New(make([]byte, size)))
	type item struct {
		name string
		run  func()
	}
	var items []item
	toStart, bitToStart := ready(s, &Op{K: KSeek}, 0), ready(s, &Op{K: KSeekBit}, 0)
	toEnd, bitToEnd := ready(s, &Op{K: KSeek, Off: size}, 0), ready(s, &Op{K: KSeekBit, Off: 8 * size}, 0)
	before, bitBefore := ready(s, &Op{K: KSeek, Off: -3}, 0), ready(s, &Op{K: KSeekBit, Off: -3}, 0)
	add := func(how string, o Op, n int, pre ...func()) {
		if run := ready(s, &o, n); run != nil {
			items = append(items, item{o.String() + how, func() {
				for _, f := range pre {
					f()
				}
				run()
			}})
		}
	}
	for _, tp := range templates(t) {
		o := tp.base
		switch o.K {
		case KReset, KTruncL, KTruncR, KGrow, KPoke, KAfter, KAfterBit:
			continue
		}
		if o.W == 0 {
			o.W = 1
		}
		far, n := size, int(amount)
		start, end, under := toStart, toEnd, before
		if o.isBit() {
			far, start, end, under = 8*size, bitToStart, bitToEnd, bitBefore
		}
		if !o.isAccess() {
			add("", o, 1)
			continue
		}
		if o.isBit() {
			n = int(min(amount, 64))
		}
		add("", o, n, start)
		if o.K != KReadByte && o.K != KWriteByte && o.K != KReadBit && o.K != KSetBit && o.K != KFlipBit {
			add(" of nothing", o, 0, start)
		}
		if t.Mini {
			continue
		}
		if o.Next {
			add(" at the end", o, n, end)
			add(" before the start", o, n, under)
		} else {
			o.Off = far
			add(" at the end", o, n)
			o.Off = -1
			add(" before the start", o, n)
		}
	}
	grow, reset := ready(s, &Op{K: KGrow}, int(size)), ready(s, &Op{K: KReset}, 0)
	if reset != nil && grow != nil {
		items = append(items, item{"Reset and Grow", func() { reset(); grow() }})
	}
	g9, tl, tr := ready(s, &Op{K: KGrow}, 9), ready(s, &Op{K: KTruncL}, 9), ready(s, &Op{K: KTruncR}, 9)
	if tl != nil && tr != nil {
		items = append(items, item{"TruncateLeft and Grow", func() { tl(); g9() }}, item{"TruncateRight and Grow", func() { tr(); g9() }},
			item{"a refused truncation", func() { catch(ready(s, &Op{K: KTruncR}, int(size)+1)) }})
	}
	items = append(items, item{"a refused growth", func() { catch(ready(s, &Op{K: KGrow}, -1)) }})
	one, two := make([]byte, 20*amount), make([]byte, 25*amount)
	items = append(items, item{"creation", func() { t.New(one); t.New(one, two); t.New() }},
		item{"queries", func() { s.observe() }})
	for _, o := range []*Op{{K: KAfter}, {K: KAfter, Off: 3, Rel: true}, {K: KAfterBit}, {K: KAfterBit, Off: 3, Rel: true}} {
		items = append(items, item{o.String(), func() { s.exec(o) }})
	}
	held := func() int64 {
		var m runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		return int64(m.HeapAlloc)
	}
	spin := func(its []item, n int) {
		for _, it := range its {
			for range n {
				catch(it.run)
			}
		}
	}
	// kept is how much more is held after n more calls, having been so three times running
	kept := func(its []item, n int) int64 {
		least := int64(math.MaxInt64)
		for range 3 {
			h := held()
			spin(its, n)
			d := held() - h
			for try := 0; d > leakSlack && try < 3; try++ {
				time.Sleep(20 * time.Millisecond)
				d = held() - h
			}
			if least = min(least, d); least <= leakSlack {
				break
			}
		}
		return least
	}
	spin(items, min(100, calls))
	g0 := runtime.NumGoroutine()
	d := kept(items, calls)
	if d > leakSlack {
		for _, it := range items {
			if d := kept([]item{it}, calls); d > leakSlack {
				return k.bad("%s holds %d bytes more after %d more calls of one kind: %s", t.ID, d, calls, it.name)
			}
		}
		return k.bad("%s holds %d bytes more after %d more calls of each of %d kinds", t.ID, d, calls, len(items))
	}
	g1 := runtime.NumGoroutine()
	for try := 0; g1 > g0 && try < 40; try++ {
		time.Sleep(20 * time.Millisecond)
		g1 = runtime.NumGoroutine()
	}
	if g1 > g0 {
		return k.bad("%s: %d goroutines more after %d calls of each kind", t.ID, g1-g0, calls)
	}
	runtime.KeepAlive(s)
	for _, it := range items {
		k.cov.hit(hashStr(hashStr(hash0, t.ID), it.name), true)
	}
	k.cov.count("kinds of call looked at for what they keep", int64(len(items)))
	k.cov.count("calls looked at for what they keep", int64(calls)*int64(len(items)))
	return true
}

func init() {
	props["R04"] = &Prop{Rule: "one call measured at one amount, place or age of the buffer and compared with the same call at another; distinct: method and amount",
		Assume: []string{"processor time of the measuring thread, least of several readings, compared with each other: 40 times the cheapest per element plus 30 microseconds a call", "64 bytes allocated per byte moved plus 2 KiB a call", "growing in many steps is R01, hidden allocations of the third version R02, memory touched R03"},
		Run:    runR04, Replay: func(ctx *Ctx, rf *replayFile) *Viol { runR04(ctx); return ctx.viol }}
}

func runR04(ctx *Ctx) {
	runtime.LockOSThread()
	debug.SetGCPercent(400)
	cov := newCov()
	defer ctx.merge(cov)
	k := &costs{ctx, cov}
	for _, t := range where(all) {
		if !k.wear(t, ctx.n(2500, 30000)) || !k.keeps(t, 64, 2, ctx.n(25000, 400000)) || !k.keeps(t, 1<<20, 1<<17, ctx.n(6, 60)) || !k.places(t, 1<<20) || !k.places(t, 1<<26) || !k.places(t, hugeSize) || !k.amounts(t, ctx.n(1<<17, 1<<21)) {
			return
		}
	}
	if !haveThreadClock {
		fmt.Fprintln(os.Stderr, "no per-thread clock: wall time is used")
	}
	cov.samples = append(cov.samples, fmt.Sprintf("%d amounts, %d places, %d calls in long use", cov.Counts["amounts measured"], cov.Counts["calls compared between small and huge buffers"], cov.Counts["calls on buffers in long use"]))
}

func threadTime() time.Duration {
	var ts syscall.Timespec
	if _, _, e := syscall.RawSyscall(syscall.SYS_CLOCK_GETTIME, 3, uintptr(unsafe.Pointer(&ts)), 0); e != 0 {
		return 0
	}
	return time.Duration(ts.Nano())
}
