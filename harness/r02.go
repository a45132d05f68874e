package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"runtime/debug"

	v3 "github.com/superwhiskers/crunch/v3"
)

// Heap allocation counters around the operations of the third version.
//
// Calls are prepared beforehand as closures over ready-made arguments and
// destinations, so that between two readings of the allocator's counters
// nothing runs but the code under test. The counters are process-wide: the
// measuring happens in child processes that run nothing else.

// onlyShard makes sharded work run one shard, in the calling goroutine.
var onlyShard = -1

type allocCall struct {
	op      *Op
	run     func(b any)
	allocs  uint64 // allocations the operation may make
	bytes   uint64
	claimed bool
}

type allocWindow struct {
	from, to       int // calls
	allocs, nbytes uint64
	got, gotBytes  uint64
}

func claimedKind(o *Op) bool {
	switch o.K {
	case KTruncL, KTruncR, KGrow, KRefresh, KReset, KPoke:
		return false
	}
	return true
}

var noteI int64

func prepAfter(t *Target, o *Op) func(any) {
	x := o.Off
	bit := o.K == KAfterBit
	switch {
	case !t.Mini && !bit && o.Rel:
		return func(b any) { noteI = b.(*v3.Buffer).AfterByte(x) }
	case !t.Mini && !bit:
		return func(b any) { noteI = b.(*v3.Buffer).AfterByte() }
	case !t.Mini && o.Rel:
		return func(b any) { noteI = b.(*v3.Buffer).AfterBit(x) }
	case !t.Mini:
		return func(b any) { noteI = b.(*v3.Buffer).AfterBit() }
	case !bit && o.Rel:
		return func(b any) { b.(*v3.MiniBuffer).AfterByte(&noteI, x) }
	case !bit:
		return func(b any) { b.(*v3.MiniBuffer).AfterByte(&noteI) }
	case o.Rel:
		return func(b any) { b.(*v3.MiniBuffer).AfterBit(&noteI, x) }
	}
	return func(b any) { b.(*v3.MiniBuffer).AfterBit(&noteI) }
}

// prep turns o into a call of method fn with everything it needs at hand.
func prep[B any](t *Target, fn any, o *Op) func(any) {
	if o.K == KAfter || o.K == KAfterBit {
		return prepAfter(t, o)
	}
	if o.K == KPoke {
		return func(any) {}
	}
	off, n, val := o.Off, o.N, o.Val
	var outB *byte = new(byte)
	var outU *uint64 = new(uint64)
	switch f := fn.(type) {
	case func(B):
		return func(b any) { f(b.(B)) }
	case func(B, int64):
		if o.K == KGrow || o.K == KTruncL || o.K == KTruncR {
			return func(b any) { f(b.(B), n) }
		}
		return func(b any) { f(b.(B), off) }
	case func(B, int64, bool):
		rel := o.Rel
		return func(b any) { f(b.(B), off, rel) }
	case func(B, int64, byte):
		return func(b any) { f(b.(B), off, byte(val)) }
	case func(B, byte):
		return func(b any) { f(b.(B), byte(val)) }
	case func(B, int64) byte:
		return func(b any) { *outB = f(b.(B), off) }
	case func(B) byte:
		return func(b any) { *outB = f(b.(B)) }
	case func(B, *byte, int64):
		return func(b any) { f(b.(B), outB, off) }
	case func(B, *byte):
		return func(b any) { f(b.(B), outB) }
	case func(B, int64, uint64, int64):
		return func(b any) { f(b.(B), off, val, n) }
	case func(B, uint64, int64):
		return func(b any) { f(b.(B), val, n) }
	case func(B, int64, int64) uint64:
		return func(b any) { *outU = f(b.(B), off, n) }
	case func(B, int64) uint64:
		return func(b any) { *outU = f(b.(B), n) }
	case func(B, *uint64, int64, int64):
		return func(b any) { f(b.(B), outU, off, n) }
	case func(B, *uint64, int64):
		return func(b any) { f(b.(B), outU, n) }
	}
	for _, p := range []func(any, *Op) func(any){prepT[B, byte], prepT[B, uint16], prepT[B, uint32], prepT[B, uint64], prepT[B, int16], prepT[B, int32], prepT[B, int64], prepT[B, float32], prepT[B, float64]} {
		if r := p(fn, o); r != nil {
			return r
		}
	}
	panic(fmt.Sprintf("cannot prepare %T", fn))
}

func prepT[B, T any](fn any, o *Op) func(any) {
	off, n := o.Off, o.N
	vals := o.Vals
	if o.K == KWriteBytes {
		vals = bytesToVals(o.Data)
	}
	out := new([]T)
	switch f := fn.(type) {
	case func(B, int64, []T):
		arg, _ := mkArg[T](vals, o.Lead, o.Tail)
		return func(b any) { f(b.(B), off, arg) }
	case func(B, []T):
		arg, _ := mkArg[T](vals, o.Lead, o.Tail)
		return func(b any) { f(b.(B), arg) }
	case func(B, int64, int64) []T:
		return func(b any) { *out = f(b.(B), off, n) }
	case func(B, int64) []T:
		return func(b any) { *out = f(b.(B), n) }
	case func(B, *[]T, int64, int64):
		*out = make([]T, o.Lead+int(n)+o.Extra)[o.Lead:]
		return func(b any) { f(b.(B), out, off, n) }
	case func(B, *[]T, int64):
		*out = make([]T, o.Lead+int(n)+o.Extra)[o.Lead:]
		return func(b any) { f(b.(B), out, n) }
	}
	return nil
}

// prepare runs the case once on a buffer of its own, keeping the operations
// that are in range, and makes them ready to be run again.
func prepareAllocs(c *Case) (calls []*allocCall) {
	b := c.build()
	s := b.subj
	rt := reflect.TypeOf(s.B)
	for _, o := range c.Ops {
		name := o.method(s.T)
		if name == "" {
			continue
		}
		if e := spec(s.T, &State{Data: s.live(), Off: s.query(0), Boff: s.query(1)}, o); e.Unspec || e.Refuse {
			continue
		}
		fn := rt.Method(s.T.idx[name]).Func.Interface()
		k := &allocCall{op: o, claimed: claimedKind(o)}
		if s.T.Mini {
			k.run = prep[*v3.MiniBuffer](s.T, fn, o)
		} else {
			k.run = prep[*v3.Buffer](s.T, fn, o)
			if o.K == KReadT {
				k.allocs, k.bytes = 1, uint64(2*o.N*int64(o.W)+64)
			}
		}
		k.run(s.B)
		calls = append(calls, k)
	}
	return
}

// measure runs the calls on a fresh buffer, reading the allocator's counters
// around every stretch of claimed operations (around every one if fine).
func measureAllocs(c *Case, calls []*allocCall, fine bool) (ws []allocWindow) {
	for i := 0; i < len(calls); {
		j := i + 1
		for !fine && j < len(calls) && calls[j].claimed == calls[i].claimed {
			j++
		}
		w := allocWindow{from: i, to: j}
		for _, k := range calls[i:j] {
			w.allocs += k.allocs
			w.nbytes += k.bytes
		}
		ws = append(ws, w)
		i = j
	}
	b := c.build().subj.B
	var m0, m1 runtime.MemStats
	for i := range ws {
		w := &ws[i]
		runtime.ReadMemStats(&m0)
		for _, k := range calls[w.from:w.to] {
			k.run(b)
		}
		runtime.ReadMemStats(&m1)
		w.got, w.gotBytes = m1.Mallocs-m0.Mallocs, m1.TotalAlloc-m0.TotalAlloc
	}
	return
}

// leastAllocs repeats the measurement while anything exceeds its limit: other parts of the
// runtime may allocate at any one time, the operations do so every time.
func leastAllocs(c *Case, calls []*allocCall, fine bool) []allocWindow {
	ws := measureAllocs(c, calls, fine)
	for try := 0; try < 6; try++ {
		over := false
		for i := range ws {
			if calls[ws[i].from].claimed && (ws[i].got > ws[i].allocs || ws[i].gotBytes > ws[i].nbytes) {
				over = true
			}
		}
		if !over {
			break
		}
		again := measureAllocs(c, calls, fine)
		for i := range ws {
			ws[i].got, ws[i].gotBytes = min(ws[i].got, again[i].got), min(ws[i].gotBytes, again[i].gotBytes)
		}
	}
	return ws
}

func runAllocs(ctx *Ctx, shard int, c *Case, cov *Cov) (v *Viol) {
	var calls []*allocCall
	if msg := catch(func() { calls = prepareAllocs(c) }); msg != "" {
		if cov != nil {
			cov.count("cases abandoned: an operation panicked", 1)
		}
		return nil
	}
	ws := leastAllocs(c, calls, false)
	bad := false
	for i := range ws {
		w := &ws[i]
		if !calls[w.from].claimed {
			continue
		}
		if w.got > w.allocs || w.gotBytes > w.nbytes {
			bad = true
		} else if cov != nil {
			for _, k := range calls[w.from:w.to] {
				h := hashInt(hashInt(hashStr(hashStr(hash0, c.Target), k.op.method(targetByID(c.Target))), k.op.count()), k.op.Off)
				cov.hit(h, true)
			}
			cov.count("counter readings", 1)
			cov.count("allocations seen", int64(w.got))
			cov.count("allocations allowed", int64(w.allocs))
			if len(cov.samples) < 1 && w.to-w.from > 5 {
				cov.samples = append(cov.samples, fmt.Sprintf("%s: %d operations, first %s: %d allocations (%d allowed), %d bytes", c.Target, w.to-w.from, calls[w.from].op, w.got, w.allocs, w.gotBytes))
			}
		}
	}
	if !bad {
		return nil
	}
	for _, w := range leastAllocs(c, calls, true) {
		if k := calls[w.from]; k.claimed && (w.got > w.allocs || w.gotBytes > w.nbytes) {
			return &Viol{Text: fmt.Sprintf("%s.%s allocated %d times, %d bytes (allowed: %d times, %d bytes)", c.Target, k.op, w.got, w.gotBytes, w.allocs, w.nbytes), Case: c, Kind: "case"}
		}
	}
	for _, w := range ws {
		if calls[w.from].claimed && (w.got > w.allocs || w.gotBytes > w.nbytes) {
			return &Viol{Text: fmt.Sprintf("%s: %d operations from %s on allocated %d times, %d bytes (allowed: %d times, %d bytes)", c.Target, w.to-w.from, calls[w.from].op, w.got, w.gotBytes, w.allocs, w.nbytes), Case: c, Kind: "case"}
		}
	}
	return nil
}

type allocReport struct {
	Eval, NonTriv int64
	Distinct      []uint64
	Counts        map[string]int64
	Samples       []string
	Viol          *Viol
	Broken        string
}

var controlSink []byte

func quietHeap() {
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(1 << 30)
	var m runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
		runtime.ReadMemStats(&m)
	}
}

// allocControl makes sure the counters see an allocation and nothing else.
func allocControl() string {
	var m0, m1, m2 runtime.MemStats
	least, most := ^uint64(0), uint64(0)
	for i := 0; i < 5; i++ {
		runtime.ReadMemStats(&m0)
		controlSink = make([]byte, 24)
		runtime.ReadMemStats(&m1)
		runtime.ReadMemStats(&m2)
		most = max(most, m1.Mallocs-m0.Mallocs)
		least = min(least, m2.Mallocs-m1.Mallocs)
	}
	if most < 1 || least != 0 {
		return fmt.Sprintf("the allocation counters do not work here: %d for one allocation, %d for none", most, least)
	}
	return ""
}

func allocChild(ctx *Ctx) {
	fmt.Sscan(ctx.Arg, &onlyShard)
	quietHeap()
	rep := &allocReport{Broken: allocControl()}
	fn := props["R02"].Fn(ctx)
	ts := where(v3only)
	kinds := []Kind{KWriteBytes, KReadBytes, KWriteByte, KReadByte, KWriteT, KReadT, KReadBit, KReadBits, KSetBit, KSetBits, KFlipBit}
	for _, next := range []bool{false, true} {
		ctx.grid(190, ts, append(upto(ctx.n(20, 36)), ctx.n(27, 70)), func(t *Target, size int64, r *R) []*Op {
			ops := gridOps(t, size, r, kinds, "UIF", next, false)
			return append(ops, gridOps(t, size, r, kinds, "UIF", next, true)...)
		}, fn)
		ctx.longs(191, ts, []Kind{KWriteBytes, KReadBytes, KWriteT, KReadT}, "UIF", next, fn)
	}
	ctx.longs(192, ts, []Kind{KClearAll, KSetAll, KFlipAll}, "UIF", false, fn)
	// every count up to a few hundred, at odd positions, too
	ctx.grid(193, ts, []int{2500}, func(t *Target, size int64, r *R) (ops []*Op) {
		for _, k := range []Kind{KWriteT, KReadT, KWriteBytes, KReadBytes} {
			tys := []typ{{"U", 1, 0}}
			if k == KWriteT || k == KReadT {
				tys = t.types("UIF")
			}
			for _, y := range tys {
				for n := int64(0); n <= 300; n++ {
					off := r.Int63n(min(100, size-n*int64(y.W)) + 1)
					o := &Op{K: k, Ty: y.Ty, W: y.W, Ord: y.Ord, Off: off, N: n}
					switch k {
					case KWriteT:
						o.N, o.Vals = 0, r.vals(int(n))
					case KWriteBytes:
						o.N, o.Data = 0, r.data(int(n))
					}
					if r.p(0.4) {
						ops = append(ops, &Op{K: KSeek, Off: off})
						o.Off, o.Next = 0, true
					}
					ops = append(ops, o)
				}
			}
		}
		return
	}, fn)
	mx := func(t *Target) Mix { return defaultMix() }
	ctx.histories(194, ts, mx, ctx.n(1500, 40000), 60, fn)
	ctx.histories(195, ts, func(t *Target) Mix { m := defaultMix(); m.MaxSize, m.MaxLen = 20000, 3000; return m }, ctx.n(100, 3000), 40, fn)
	rep.Eval, rep.NonTriv, rep.Counts, rep.Samples, rep.Viol = ctx.cov.Eval, ctx.cov.NonTriv, ctx.cov.Counts, ctx.cov.samples, ctx.viol
	for h := range ctx.cov.distinct {
		if len(rep.Distinct) < 1<<17 {
			rep.Distinct = append(rep.Distinct, h)
		}
	}
	j, err := json.Marshal(rep)
	if err != nil {
		fmt.Println(err)
		exit(2)
	}
	fmt.Printf("\nALLOC-REPORT %s\n", j)
}

func init() {
	props["R02"] = &Prop{Rule: "one operation run between two readings of the allocator's counters with nothing else running; distinct: method, count and position",
		Assume: []string{"an allocation made by an operation is made each of the seven times the same history is run; what the runtime itself allocates is not", "refused operations, growing, truncating, resetting and refreshing are not measured"},
		Fn: func(ctx *Ctx) runFn {
			return func(shard int, c *Case, cov *Cov) *Viol { return runAllocs(ctx, shard, c, cov) }
		},
		Run: runR02, Child: allocChild}
}

func runR02(ctx *Ctx) {
	self, err := os.Executable()
	if err != nil {
		fmt.Println(err)
		exit(2)
	}
	ctx.sharded(199, func(shard int, r *R, cov *Cov, _ func(*Viol)) {
		cmd := exec.Command(self, "-prop", "R02", "-tier", ctx.Tier, "-seed", fmt.Sprint(ctx.Seed), "-repo", ctx.Repo, "-mode", "alloc", "-arg", fmt.Sprint(shard))
		out, err := cmd.CombinedOutput()
		i := bytes.LastIndex(out, []byte("\nALLOC-REPORT "))
		if err != nil || i < 0 {
			fmt.Printf("a measuring process failed: %v\n%s\n", err, out[max(0, len(out)-6000):])
			exit(2)
		}
		rep := &allocReport{}
		if err := json.Unmarshal(out[i+len("\nALLOC-REPORT "):], rep); err != nil || rep.Broken != "" {
			fmt.Println("a measuring process failed:", err, rep.Broken)
			exit(2)
		}
		cov.Eval, cov.NonTriv, cov.samples = rep.Eval, rep.NonTriv, rep.Samples
		if rep.Counts != nil {
			cov.Counts = rep.Counts
		}
		for _, h := range rep.Distinct {
			cov.distinct[h] = struct{}{}
		}
		if rep.Viol != nil {
			ctx.report(rep.Viol)
		}
	})
}
