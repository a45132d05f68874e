package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// Memory access monitors. Three builds of the same workload:
//
//	guard     elements passed in, destinations and storage end (or start)
//	          exactly at an inaccessible page; a fault is an observation
//	asan      the address sanitizer, with the memory around every slice poisoned
//	checkptr  every conversion of an unsafe.Pointer in the code under test is
//	          checked for alignment and for staying inside one object
//
// Each runs in processes of its own, one goroutine each.

var (
	poison, unpoison func(unsafe.Pointer, int)
	asanReports      func() int
	asanText         func() string
)

// ---- guarded memory ----

type guardRegion struct{ mem []byte }

const guardPad, guardSize = 1 << 20, 1 << 20

var (
	guards     []guardRegion // 0: arguments, 1..: storage
	guardOn    bool
	guardRight bool
	guardUsed  int64 // slices placed
)

func makeGuards() string {
	for i := 0; i < 8; i++ {
		m, err := syscall.Mmap(-1, 0, guardSize+2*guardPad, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
		if err != nil {
			return err.Error()
		}
		if err := syscall.Mprotect(m[:guardPad], syscall.PROT_NONE); err != nil {
			return err.Error()
		}
		if err := syscall.Mprotect(m[guardPad+guardSize:], syscall.PROT_NONE); err != nil {
			return err.Error()
		}
		guards = append(guards, guardRegion{m[guardPad : guardPad+guardSize : guardPad+guardSize]})
	}
	return ""
}

// guarded gives n bytes that end at inaccessible memory, or start after it.
func guarded(region, n int) []byte {
	if !guardOn || region >= len(guards) || n > guardSize || n == 0 {
		return nil
	}
	guardUsed++
	m := guards[region].mem
	if guardRight {
		return m[guardSize-n : guardSize : guardSize]
	}
	return m[:n:n]
}

func guardEdge() unsafe.Pointer {
	m := guards[0].mem
	if guardRight {
		return unsafe.Add(unsafe.Pointer(unsafe.SliceData(m)), guardSize)
	}
	return unsafe.Add(unsafe.Pointer(unsafe.SliceData(m)), -64)
}

// newArena allocates the array an argument or destination lies in.
func newArena[T any](n int) []T {
	var z T
	lockArgs(false)
	if guardOn && n == 0 { // an empty slice need not point at anything accessible
		return unsafe.Slice((*T)(guardEdge()), 0)
	}
	if g := guarded(0, n*int(unsafe.Sizeof(z))); g != nil {
		return unsafe.Slice((*T)(unsafe.Pointer(&g[0])), n)
	}
	return make([]T, n)
}

// fence poisons what of the arena is not part of the slice; lift undoes it.
func fence[T any](arena, s []T) {
	if poison == nil || len(arena) == 0 {
		return
	}
	var z T
	w := int(unsafe.Sizeof(z))
	p := unsafe.Pointer(&arena[0])
	lead := len(arena)
	if cap(s) > 0 {
		lead = int(uintptr(unsafe.Pointer(unsafe.SliceData(s)))-uintptr(p)) / w
	}
	if lead > 0 {
		poison(p, lead*w)
	}
	// capacity beyond the length of an element slice belongs to the caller, too
	if end := lead + len(s); end < len(arena) {
		poison(unsafe.Add(p, end*w), (len(arena)-end)*w)
	}
}

func lift[T any](arena []T) {
	if unpoison != nil && len(arena) > 0 {
		var z T
		unpoison(unsafe.Pointer(&arena[0]), len(arena)*int(unsafe.Sizeof(z)))
	}
}

// fenceStorage poisons the array around storage, but not its spare capacity.
func fenceStorage(arena, s []byte) {
	if poison == nil || len(arena) == 0 {
		return
	}
	fence(arena, s[:cap(s)])
}

// ---- judging ----

type addrErr interface{ Addr() uintptr }

func memoryFault(p any) string {
	if e, ok := p.(error); ok {
		if a, ok := p.(addrErr); ok && a.Addr() > 1<<16 {
			return fmt.Sprintf("it accessed memory it may not, at %#x: %v", a.Addr(), e)
		}
		if s := e.Error(); strings.HasPrefix(s, "checkptr:") {
			return s
		}
	}
	return ""
}

// normal makes the case fit guarded memory: nothing of the harness's own
// around the slices.
func (c *Case) tight() *Case {
	d := *c
	d.Init = append([]SliceInit(nil), c.Init...)
	for i := range d.Init {
		d.Init[i].Lead, d.Init[i].Trail = 0, 0
		if d.Init[i].Len%3 == 0 {
			d.Init[i].Spare = 0
		}
	}
	d.Ops = make([]*Op, len(c.Ops))
	for i, o := range c.Ops {
		x := *o
		x.Lead, x.Tail, x.Extra = 0, 0, 0
		d.Ops[i] = &x
	}
	return &d
}

func runMemory(ctx *Ctx, shard int, c *Case, variant string, cov *Cov) (v *Viol) {
	if variant != "guard" {
		return runMemoryOnce(ctx, shard, c, variant, cov)
	}
	for _, right := range []bool{true, false} {
		guardOn, guardRight = true, right
		v = runMemoryOnce(ctx, shard, c.tight(), variant, cov)
		guardOn = false
		if v != nil {
			return v
		}
	}
	return nil
}

func runMemoryOnce(ctx *Ctx, shard int, c *Case, variant string, cov *Cov) *Viol {
	vi := func(i int, text string) *Viol {
		return &Viol{Text: "(" + variant + " build) " + text, Step: i, Case: c, Kind: "memory", Data: variant}
	}
	seen := 0
	if asanReports != nil {
		seen = asanReports()
	}
	asan := func() string {
		if asanReports != nil && asanReports() != seen {
			return asanText()
		}
		return ""
	}
	var b *built
	var ctor any
	func() {
		defer func() { ctor = recover() }()
		b = c.build()
	}()
	if ctor != nil {
		if s := memoryFault(ctor); s != "" {
			return vi(-1, fmt.Sprintf("constructing a %s: %s", c.Target, s))
		}
		return nil
	}
	if s := asan(); s != "" {
		return vi(-1, fmt.Sprintf("constructing a %s: %s", c.Target, s))
	}
	s := b.subj
	for i := range b.arenas {
		fenceStorage(b.arenas[i], b.slices[i])
	}
	defer func() {
		for i := range b.arenas {
			lift(b.arenas[i])
		}
	}()
	var around [][]byte
	if poison == nil {
		for _, a := range b.arenas {
			around = append(around, append([]byte(nil), a...))
		}
	}
	for i, o := range c.Ops {
		if o.method(s.T) == "" {
			continue
		}
		live := s.live()
		e := spec(s.T, &State{Data: live, Off: s.query(0), Boff: s.query(1)}, o)
		if e.Unspec {
			continue
		}
		ctx.prog[shard].Add(1)
		ctx.cur[shard].Store(&curOp{c, o})
		r := s.exec(o)
		head := fmt.Sprintf("%s.%s on %d bytes (step %d): ", c.Target, o, len(live), i)
		if r.Panicked {
			if x := memoryFault(r.Panic); x != "" {
				return vi(i, head+x)
			}
		}
		if x := asan(); x != "" {
			return vi(i, head+x)
		}
		if r.ArgDamaged != "" {
			return vi(i, head+r.ArgDamaged)
		}
		if o.Extra == 0 && strings.HasPrefix(r.OutTail, "destination element") {
			return vi(i, head+r.OutTail)
		}
		if s.T.Conc() {
			if !s.B.(locker).TryLock() {
				return nil
			}
			s.B.(locker).Unlock()
		}
		after := s.live()
		for k, a := range around {
			for _, w := range [][]byte{live[:cap(live)], after[:cap(after)]} {
				lo, hi := overlap(b.arenas[k], w[:cap(w)])
				copy(a[lo:hi], b.arenas[k][lo:hi])
			}
			if x := mismatch(b.arenas[k], a); x >= 0 {
				return vi(i, head+fmt.Sprintf("byte %d of the array behind slice %d changed, outside the buffer's storage", x, k))
			}
		}
		if cov != nil {
			st := &Step{T: s.T, Op: o, Pre: &State{Data: live, Off: s.query(0), Boff: s.query(1)}, Res: r}
			cov.hit(hashStr(st.sig(), variant), o.isAccess() && o.count() > 0 || o.K >= KTruncL || o.K >= KClearAll && o.K <= KFlipAll)
			k := variant + ": " + s.T.ID
			if r.Panicked {
				k += " refused"
			}
			cov.Counts[k]++
			if len(cov.samples) < 1 && i > 2 && o.K == KReadT && o.count() > 1 {
				cov.samples = append(cov.samples, fmt.Sprintf("%s build: %s.%s on %d bytes: no access outside", variant, c.Target, o, len(live)))
			}
		}
	}
	return nil
}

// ---- controls ----

//go:noinline
func controlRead(b []byte, d int) byte {
	return *(*byte)(unsafe.Add(unsafe.Pointer(unsafe.SliceData(b)), d))
}

//go:noinline
func controlWide(b []byte, d int) uint32 {
	return *(*uint32)(unsafe.Add(unsafe.Pointer(unsafe.SliceData(b)), d))
}

//go:noinline
func controlCopy(dst, b []byte, n int) { copy(dst, unsafe.Slice(unsafe.SliceData(b), n)) }

var controlNote any

// neighbours gives an object of 64 bytes that another one lies right behind:
// arithmetic leading into nowhere ends the process instead of being reported.
func neighbours() []byte {
	pool, at := make([][]byte, 4096), map[uintptr]bool{}
	for i := range pool {
		pool[i] = make([]byte, 64)
		at[uintptr(unsafe.Pointer(&pool[i][0]))] = true
	}
	controlNote = pool
	for _, b := range pool {
		if at[uintptr(unsafe.Pointer(&b[0]))+64] {
			return b
		}
	}
	return nil
}

// memControl makes sure that the monitor sees deliberate bad accesses and does not see good ones.
func memControl(variant string) (missed string) {
	try := func(name string, want bool, f func()) {
		seen := 0
		if asanReports != nil {
			seen = asanReports()
		}
		var p any
		func() {
			defer func() { p = recover() }()
			f()
		}()
		got := p != nil && memoryFault(p) != "" || asanReports != nil && asanReports() != seen
		if got != want {
			missed += fmt.Sprintf("%s: %s: seen %v, should be %v (%v); ", variant, name, got, want, p)
		}
	}
	switch variant {
	case "guard":
		guardOn = true
		guardRight = true
		b := guarded(1, 13)
		try("last byte", false, func() { controlNote = controlRead(b, 12) })
		try("read behind", true, func() { controlNote = controlRead(b, 13) })
		try("wide read straddling the end", true, func() { controlNote = controlWide(b, 10) })
		try("copy behind", true, func() { controlCopy(make([]byte, 64), b, 14) })
		guardRight = false
		b = guarded(1, 13)
		try("first byte", false, func() { controlNote = controlRead(b, 0) })
		try("read in front", true, func() { controlNote = controlRead(b, -1) })
		guardOn = false
	case "asan":
		b := make([]byte, 40)
		controlNote = b
		try("good", false, func() { controlNote = controlRead(b, 39) })
		try("read behind", true, func() { controlNote = controlRead(b, 40) })
		try("wide read", true, func() { controlNote = controlWide(b, 38) })
		arena := make([]byte, 64)
		controlNote = arena
		fence(arena, arena[8:21:30])
		try("inside the slice", false, func() { controlNote = controlRead(arena[8:21], 12) })
		try("behind the slice", true, func() { controlNote = controlRead(arena[8:21], 13) })
		try("in front of the slice", true, func() { controlNote = controlRead(arena[8:21], -1) })
		d := make([]byte, 64)
		try("copy behind the slice", true, func() { controlCopy(d, arena[8:21], 14) })
		lift(arena)
		try("after lifting the fence", false, func() { controlNote = controlRead(arena, 40) })
	case "checkptr":
		b := make([]byte, 64)
		controlNote = b
		try("good", false, func() { controlNote = controlWide(b, 60) })
		try("misaligned", true, func() { controlNote = controlWide(b, 5) })
		if strings.Contains(runtime.GOARCH, "64") {
			u := make([]uint16, 32)
			controlNote = u
			try("straddling", true, func() { controlNote = *(*[2]uint64)(unsafe.Pointer(&u[28])) })
		}
		if in := neighbours(); in != nil {
			try("arithmetic leaving the object", true, func() { in[0] = controlRead(in, 72) })
		}
	}
	return
}

// ---- driving ----

type memReport struct {
	allocReport
	Placed int64
}

func memChild(ctx *Ctx) {
	f := strings.SplitN(ctx.Arg, ":", 3)
	variant := f[0]
	onlyShard = 0
	debug.SetPanicOnFault(true)
	pages := strings.HasPrefix(variant, "pages-")
	if variant == "guard" || pages {
		msg := makeGuards()
		if msg == "" && pages {
			msg = openPages()
		}
		if msg != "" {
			fmt.Println("no guarded memory:", msg)
			exit(2)
		}
	}
	rep := &memReport{}
	fn := func(shard int, c *Case, cov *Cov) *Viol { return runMemory(ctx, shard, c, variant, cov) }
	if pages {
		rep.Broken = pageControl(variant)
		fn = func(shard int, c *Case, cov *Cov) *Viol { return runPages(ctx, shard, c, variant, cov) }
	} else {
		rep.Broken = memControl(variant)
	}
	if ctx.Mode == "memoryreplay" {
		c := &Case{}
		j, err := os.ReadFile(f[1])
		if err == nil {
			err = json.Unmarshal(j, c)
		}
		if err != nil {
			fmt.Println(err)
			exit(2)
		}
		rep.Viol = fn(0, c, nil)
	} else {
		fmt.Sscan(f[1], &onlyShard)
		if pages {
			pageWork(ctx, variant)
		} else {
			memWork(ctx, variant, fn)
		}
		rep.Eval, rep.NonTriv, rep.Counts, rep.Samples, rep.Viol = ctx.cov.Eval, ctx.cov.NonTriv, ctx.cov.Counts, ctx.cov.samples, ctx.viol
		for h := range ctx.cov.distinct {
			if len(rep.Distinct) < 1<<16 {
				rep.Distinct = append(rep.Distinct, h)
			}
		}
	}
	rep.Placed = guardUsed
	j, err := json.Marshal(rep)
	if err != nil {
		fmt.Println(err)
		exit(2)
	}
	fmt.Printf("\nMEMORY-REPORT %s\n", j)
}

func memWork(ctx *Ctx, variant string, fn runFn) {
	kinds := []Kind{KWriteBytes, KReadBytes, KWriteByte, KReadByte, KWriteT, KReadT, KReadBit, KReadBits, KSetBit, KSetBits, KFlipBit, KClearAll, KSetAll, KFlipAll}
	scale := 4
	if variant == "asan" {
		scale, longCap = 1, int64(ctx.n(8300, 1<<20+1))
	}
	for _, next := range []bool{false, true} {
		ctx.grid(210, targets, append(upto(ctx.n(4+3*scale, 30)), 24, 33), func(t *Target, size int64, r *R) []*Op {
			ops := gridOps(t, size, r, kinds, "UIF", next, false)
			ops = append(ops, gridOps(t, size, r, kinds, "UIF", next, true)...)
			for _, k := range []Kind{KClearAll, KSetAll, KFlipAll} {
				ops = append(ops, &Op{K: k})
			}
			return ops
		}, fn)
		ctx.longs(211, targets, []Kind{KWriteBytes, KReadBytes, KWriteT, KReadT}, "UIF", next, fn)
	}
	ctx.longs(212, targets, []Kind{KClearAll, KSetAll, KFlipAll}, "UIF", false, fn)
	// many element counts and positions of the element slice
	ctx.grid(213, targets, []int{2500}, func(t *Target, size int64, r *R) (ops []*Op) {
		for _, k := range []Kind{KWriteT, KReadT} {
			for _, y := range t.types("UIF") {
				for n := int64(0); n <= 140; n++ {
					o := &Op{K: k, Ty: y.Ty, W: y.W, Ord: y.Ord, Off: r.Int63n(size - n*int64(y.W) + 1), N: n, Lead: r.Intn(5), Tail: r.Intn(5)}
					if k == KWriteT {
						o.N, o.Vals = 0, r.vals(int(n))
					}
					ops = append(ops, o)
				}
			}
		}
		return
	}, fn)
	mx := func(t *Target) Mix {
		m := defaultMix()
		if !t.Mini {
			m.OOR = 0.15
		}
		return m
	}
	ctx.histories(214, targets, mx, ctx.n(250*scale, 8000*scale), 60, fn)
	ctx.histories(215, targets, func(t *Target) Mix { m := mx(t); m.MaxSize, m.MaxLen = 5000, 800; return m }, ctx.n(20*scale, 1000*scale), 40, fn)
}

func init() {
	props["A01"] = &Prop{Rule: "one operation executed with every slice it is given up against inaccessible or poisoned memory, or with every pointer conversion checked; distinct: build, method, size, position and count",
		Assume: []string{"guarded memory sees accesses crossing the end the slice is placed at, both ends being tried in turn", "the address sanitizer does not see what hand-written assembly of the Go runtime does", "alignment is that of the pointed-to type on this machine"},
		Run:    runA01, Child: memChild, Replay: replayMemory}
}

// memoryChild runs one child and gives its report.
func (ctx *Ctx) memoryChild(mode, variant, arg string) *memReport {
	bin := ctx.Bin[variant]
	if variant == "guard" || strings.HasPrefix(variant, "pages-") {
		var err error
		if bin, err = os.Executable(); err != nil {
			fmt.Println(err)
			exit(2)
		}
	}
	cmd := exec.Command(bin, "-prop", "A01", "-tier", ctx.Tier, "-seed", fmt.Sprint(ctx.Seed), "-repo", ctx.Repo, "-mode", mode, "-arg", variant+":"+arg)
	cmd.Env = append(os.Environ(), "ASAN_OPTIONS=detect_leaks=0:halt_on_error=0:suppress_equal_pcs=0:log_path=/dev/null")
	out, err := cmd.CombinedOutput()
	i := strings.LastIndex(string(out), "\nMEMORY-REPORT ")
	rep := &memReport{}
	if err == nil && i >= 0 {
		err = json.Unmarshal(out[i+len("\nMEMORY-REPORT "):], rep)
		if err == nil {
			if rep.Broken != "" {
				fmt.Println("a memory monitor does not work here:", rep.Broken)
				exit(2)
			}
			return rep
		}
	}
	fmt.Printf("a monitored process (%s) failed: %v\n%s\n", variant, err, out[:min(len(out), 12000)])
	exit(2)
	return nil
}

func (ctx *Ctx) mergeChild(rep *memReport, variant string, cov *Cov) {
	cov.Eval, cov.NonTriv, cov.samples = rep.Eval, rep.NonTriv, rep.Samples
	if rep.Counts != nil {
		cov.Counts = rep.Counts
	}
	for _, h := range rep.Distinct {
		cov.distinct[h] = struct{}{}
	}
	if rep.Viol != nil {
		rep.Viol.Kind, rep.Viol.Data = "memory", variant
		ctx.report(rep.Viol)
	}
}

func runA01(ctx *Ctx) {
	for _, variant := range []string{"guard", "asan", "checkptr"} {
		t0 := time.Now()
		ctx.sharded(219, func(shard int, r *R, cov *Cov, _ func(*Viol)) {
			if ctx.stop.Load() {
				return
			}
			rep := ctx.memoryChild("memory", variant, fmt.Sprint(shard))
			ctx.mergeChild(rep, variant, cov)
			cov.Counts["slices placed at guarded memory"] += rep.Placed
		})
		ctx.extra["seconds in the "+variant+" build"] = time.Since(t0).Seconds()
	}
	ctx.extra["monitors"] = "guarded pages, address sanitizer and pointer checks all passed their positive and negative controls in every process"
}

func replayMemory(ctx *Ctx, rf *replayFile) *Viol {
	variant, _ := rf.Data.(string)
	j, err := json.Marshal(rf.Case)
	if err != nil || rf.Case == nil {
		fmt.Println("no case recorded")
		exit(2)
	}
	path := ctx.Scratch + "/case.json"
	if err := os.WriteFile(path, j, 0o600); err != nil {
		fmt.Println(err)
		exit(2)
	}
	return ctx.memoryChild("memoryreplay", variant, path).Viol
}
