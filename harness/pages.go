package main

import (
	"fmt"
	"runtime/debug"
	"syscall"
	"time"
	"unsafe"
)

// Page access monitor. The storage of a buffer lies in mapped memory whose
// pages are opened only as far as the operation in progress has business
// there; an access elsewhere faults, and the fault is the observation.
//
//	pages-touch  accesses: the pages of the addressed bytes and their
//	             neighbours are open, all others are closed; queries, cursor
//	             moves, refreshing and wrapping find all of them closed
//	pages-read   positioned reads and queries find the storage unwritable
//	pages-arg    writes find the data they are given unwritable
//
// Each runs in processes of its own, one goroutine each.

const (
	pageSize   = 4096
	pageRegion = int64(96) << 20
)

var (
	pageMem    []byte
	argsRO     bool // data handed to writes is made unwritable
	argsLocked bool
)

func openPages() string {
	m, err := syscall.Mmap(-1, 0, int(pageRegion), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
	if err != nil {
		return err.Error()
	}
	pageMem = m
	return ""
}

// pageProt sets the protection of the pages lo..hi-1 of the region.
func pageProt(lo, hi int64, prot int) {
	lo, hi = max(lo, 0), min(hi, pageRegion/pageSize)
	if lo >= hi {
		return
	}
	if err := syscall.Mprotect(pageMem[lo*pageSize:hi*pageSize], prot); err != nil {
		fmt.Println("mprotect:", err)
		exit(2)
	}
}

const protRW = syscall.PROT_READ | syscall.PROT_WRITE

// lockArgs makes the argument just filled in unwritable until the next is made.
func lockArgs(on bool) {
	if !argsRO || argsLocked == on || len(guards) == 0 {
		return
	}
	p := protRW
	if on {
		p = syscall.PROT_READ
	}
	if err := syscall.Mprotect(guards[0].mem, p); err != nil {
		fmt.Println("mprotect:", err)
		exit(2)
	}
	argsLocked = on
}

// extent gives the bytes an in-range operation addresses.
func (o *Op) extent(size, off, boff int64) (lo, hi int64, ok bool) {
	n := o.count()
	if n < 0 || n > size*8 || o.Own > 0 || o.Odd > 0 || o.K == KSetBit && o.Val > 1 || (o.K == KWriteT || o.K == KReadT) && !validSize(o.W) {
		return
	}
	if o.isBit() {
		p := o.Off
		if o.Next {
			p = boff
		}
		if p < 0 || p > size*8-n || n > 64 {
			return
		}
		return p / 8, (p + n + 7) / 8, true
	}
	p := o.Off
	if o.Next {
		p = off
	}
	b := n * o.width()
	if p < 0 || p > size-b || b < 0 {
		return
	}
	return p, p + b, true
}

// faultIn says where in the region r, a recovered fault, happened.
func faultIn(r any) (string, bool) {
	e, ok := r.(addrErr)
	if !ok {
		return "", false
	}
	base := uintptr(unsafe.Pointer(unsafe.SliceData(pageMem)))
	a := e.Addr()
	if a < base || a >= base+uintptr(pageRegion) {
		return "", false
	}
	return fmt.Sprint(int64(a - base)), true
}

// runPages runs one case under the given facet.
func runPages(ctx *Ctx, shard int, c *Case, facet string, cov *Cov) (v *Viol) {
	si := c.Init[0]
	t := targetByID(c.Target)
	pageProt(0, pageRegion/pageSize, protRW)
	defer pageProt(0, pageRegion/pageSize, protRW)
	end := int64(si.Lead + si.Len + si.Spare)
	if end > pageRegion {
		return nil
	}
	if end <= 1<<18 {
		for i := range pageMem[:end] {
			pageMem[i] = byte(mix(c.Around, uint64(i)>>3) >> (8 * (i & 7)))
		}
	}
	mem := pageMem[si.Lead : si.Lead+si.Len : end]
	vi := func(i int, s string) *Viol { return &Viol{Text: s, Step: i, Case: c, Kind: "case"} }
	all := func(prot int) { pageProt(0, end/pageSize+1, prot) }
	if facet == "pages-touch" {
		all(syscall.PROT_NONE)
	}
	var s *Subj
	if p := catchAny(func() { s = newSubj(t, t.New(mem)) }); p != nil {
		if at, ok := faultIn(p); ok {
			return vi(0, fmt.Sprintf("%s: wrapping one slice of %d bytes accesses its contents (byte %s of the storage)", c.Target, si.Len, at))
		}
		return nil
	}
	guardOn = facet == "pages-arg"
	argsRO = guardOn
	defer func() { lockArgs(false); guardOn, argsRO = false, false }()
	for i, o := range c.Ops {
		if o.method(t) == "" || o.K == KPoke {
			continue
		}
		var size, off, boff int64
		if p := catchAny(func() { size, off, boff = s.query(2), s.query(0), s.query(1) }); p != nil {
			if at, ok := faultIn(p); ok {
				return vi(i, fmt.Sprintf("%s: a query on %d bytes accesses the contents (byte %s of the storage)", c.Target, si.Len, at))
			}
			return nil
		}
		var live []byte
		if p := catchAny(func() { live = s.live() }); p != nil {
			return nil
		}
		base := int64(uintptr(unsafe.Pointer(unsafe.SliceData(live))) - uintptr(unsafe.Pointer(unsafe.SliceData(pageMem))))
		if base < 0 || base+size > end || size != int64(len(live)) {
			return nil // moved out of the watched memory
		}
		lo, hi, ok := int64(0), size, true
		quiet := false
		switch {
		case o.isAccess():
			lo, hi, ok = o.extent(size, off, boff)
		case o.K == KSeek || o.K == KSeekBit || o.K == KAfter || o.K == KAfterBit || o.K == KAlignBit || o.K == KAlignByte || o.K == KRefresh:
			quiet = true
		}
		if !ok {
			continue
		}
		ctx.prog[shard].Add(1)
		ctx.cur[shard].Store(&curOp{c, o})
		watched := true
		var p0, p1 int64
		switch facet {
		case "pages-touch":
			watched = quiet || o.isAccess()
			switch {
			case !watched:
				all(protRW)
			case !quiet:
				p0, p1 = (base+lo)/pageSize-1, (base+max(hi, lo+1)-1)/pageSize+2
				pageProt(p0, p1, protRW)
			}
		case "pages-read":
			watched = quiet || o.isRead() && !o.Next
			if watched {
				all(syscall.PROT_READ)
			}
		default:
			watched = o.K == KWriteBytes || o.K == KWriteT
		}
		r := s.exec(o)
		switch facet {
		case "pages-touch":
			if !watched {
				all(syscall.PROT_NONE)
			} else if !quiet {
				pageProt(p0, p1, syscall.PROT_NONE)
			}
		case "pages-read":
			if watched {
				all(protRW)
			}
		default:
			lockArgs(false)
		}
		if r.Panicked {
			if at, ok := faultIn(r.Panic); ok && watched {
				head := fmt.Sprintf("%s.%s on %d bytes (step %d): ", c.Target, o, size, i)
				switch {
				case facet == "pages-read":
					return vi(i, head+fmt.Sprintf("a read-only operation writes to the storage (byte %s of it; the contents start at byte %d)", at, base))
				case quiet:
					return vi(i, head+fmt.Sprintf("an operation that transfers nothing accesses byte %s of the storage (the contents start at byte %d)", at, base))
				}
				return vi(i, head+fmt.Sprintf("it accesses byte %s of the storage, more than a page away from the addressed bytes %d..%d", at, base+lo, base+hi))
			}
			if e, ok := r.Panic.(addrErr); ok && facet == "pages-arg" && watched && inArgs(e.Addr()) {
				return vi(i, fmt.Sprintf("%s.%s on %d bytes (step %d): it writes to the data it was given", c.Target, o, size, i))
			}
			return nil
		}
		if t.Conc() {
			if !s.B.(locker).TryLock() {
				return nil
			}
			s.B.(locker).Unlock()
		}
		if cov != nil && watched {
			h := hashInt(hashInt(hashStr(hashStr(hash0, facet+c.Target), o.method(t)), o.count()), (base+lo)%pageSize)
			cov.hit(hashInt(h, size), o.count() > 0)
			cov.Counts[facet+": "+t.ID]++
			if facet == "pages-touch" {
				cov.Counts["pages closed during watched operations"] += end/pageSize + 1 - (p1 - p0)
			}
			if len(cov.samples) < 1 && i > 2 && o.isAccess() && o.count() > 1 {
				cov.samples = append(cov.samples, fmt.Sprintf("%s: %s.%s on %d bytes: no fault (addressed bytes %d..%d of the storage)", facet, c.Target, o, size, base+lo, base+hi))
			}
		}
	}
	return nil
}

func inArgs(a uintptr) bool {
	if len(guards) == 0 {
		return false
	}
	base := uintptr(unsafe.Pointer(unsafe.SliceData(guards[0].mem)))
	return a >= base && a < base+guardSize
}

func catchAny(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return
}

// pageControl makes sure that closed pages are noticed, and open ones are not.
func pageControl(facet string) (missed string) {
	try := func(name string, want bool, f func()) {
		_, got := faultIn(catchAny(f))
		if got != want {
			missed += fmt.Sprintf("%s: %s: seen %v, should be %v; ", facet, name, got, want)
		}
	}
	b := pageMem[:3*pageSize]
	pageProt(1, 2, syscall.PROT_NONE)
	try("open page", false, func() { b[pageSize-1] = controlRead(b, 5) })
	try("closed page read", true, func() { controlNote = controlRead(b, pageSize) })
	try("closed page copied", true, func() { controlCopy(make([]byte, 2*pageSize), b, pageSize+1) })
	pageProt(1, 2, syscall.PROT_READ)
	try("unwritable page read", false, func() { controlNote = controlRead(b, pageSize) })
	try("unwritable page written", true, func() { b[pageSize] = 1 })
	pageProt(1, 2, protRW)
	try("reopened page", false, func() { b[pageSize] = 1 })
	if facet == "pages-arg" {
		guardOn, argsRO = true, true
		a, _ := mkArg[uint16]([]uint64{1, 2, 3}, 1, 1)
		p := catchAny(func() { a[1] = 7 })
		if e, ok := p.(addrErr); !ok || !inArgs(e.Addr()) {
			missed += "a write to the argument is not seen; "
		}
		lockArgs(false)
		guardOn, argsRO = false, false
	}
	return
}

// pageWork is the workload of one process.
func pageWork(ctx *Ctx, facet string) {
	fn := func(shard int, c *Case, cov *Cov) *Viol { return runPages(ctx, shard, c, facet, cov) }
	kinds := []Kind{KWriteBytes, KReadBytes, KWriteByte, KReadByte, KWriteT, KReadT, KReadBit, KReadBits, KSetBit, KSetBits, KFlipBit, KAfter, KAfterBit, KRefresh, KAlignBit, KAlignByte, KSeek, KSeekBit}
	sizes := []int{1, 100, pageSize, 3*pageSize + 1, 40*pageSize + 17, 300 * pageSize, 64 << 20}
	for _, d := range dict {
		if d > 4096 && d < int64(pageRegion)-1<<16 {
			sizes = append(sizes, int(d)+1)
		}
	}
	reps := ctx.n(500, 12000)
	ctx.sharded(230, func(shard int, r *R, cov *Cov, _ func(*Viol)) {
		for rep := 0; rep < reps; rep++ {
			for _, t := range targets {
				size := sizes[r.Intn(len(sizes))]
				c := &Case{Target: t.ID, Around: r.Uint64(), Init: []SliceInit{{Len: size, Lead: r.Intn(3 * pageSize), Spare: r.Intn(2) * r.Intn(9*pageSize)}}}
				for len(c.Ops) < 60 {
					k := kinds[r.Intn(len(kinds))]
					o := &Op{K: k, Prior: r.Uint64() | 1, Lead: r.Intn(3), Tail: r.Intn(3), Extra: r.Intn(3), Next: r.p(0.4)}
					w := int64(1)
					if k == KWriteT || k == KReadT {
						ys := t.types("UIF")
						y := ys[r.Intn(len(ys))]
						o.Ty, o.W, o.Ord = y.Ty, y.W, y.Ord
						w = int64(y.W)
					}
					if !o.isAccess() {
						o.Next = false
						o.Rel = r.p(0.5)
						o.Off = r.Int63n(int64(size) + 1)
					} else {
						s := int64(size)
						n := int64(1 + r.Intn(20))
						if r.p(0.15) {
							n = (r.Int63n(5*pageSize) + 1) / w
						} else if r.p(0.01) {
							n = (r.Int63n(1<<21) + 1) / w
						}
						if o.isBit() {
							n = 1 + int64(r.Intn(64))
							if k != KReadBits && k != KSetBits {
								n = 1
							}
						} else if k == KWriteByte || k == KReadByte {
							n = 1
						}
						if o.isBit() {
							s *= 8
						}
						n = min(n, s/w)
						if n < 1 {
							continue
						}
						var pos int64
						switch r.Intn(4) {
						case 0:
							pos = s - n*w
						case 1:
							pos = r.Int63n(s - n*w + 1)
						default:
							u := int64(pageSize)
							if o.isBit() {
								u *= 8
							}
							pos = r.Int63n(s/u+1)*u - int64(c.Init[0].Lead)%pageSize + r.Int63n(40) - 20
						}
						pos = max(0, min(pos, s-n*w))
						o.Off, o.N, o.Val = pos, n, r.val()
						switch k {
						case KWriteT:
							o.Vals, o.N = r.vals(int(n)), 0
						case KWriteBytes:
							o.Data, o.N = r.data(int(n)), 0
						case KWriteByte:
							o.Val &= 0xFF
						case KSetBit:
							o.Val &= 1
						}
					}
					if o.Next {
						sk := &Op{K: KSeek, Off: o.Off}
						if o.isBit() {
							sk.K = KSeekBit
						}
						o.Off = 0
						if o.method(t) == "" {
							continue
						}
						c.Ops = append(c.Ops, sk)
					}
					if o.method(t) == "" {
						continue
					}
					c.Ops = append(c.Ops, o)
					if size <= 1<<18 && r.p(0.04) {
						c.Ops = append(c.Ops, &Op{K: []Kind{KClearAll, KSetAll, KFlipAll, KTruncL, KTruncR, KGrow}[r.Intn(6)], N: r.Int63n(50)})
					}
				}
				if !ctx.try(fn, shard, c, cov) {
					return
				}
			}
		}
	})
}

func init() {
	props["R03"] = &Prop{Rule: "one access, query, cursor move, refresh or wrapping executed with all pages of the storage closed except those of the addressed bytes and their neighbours; distinct: method, count, place in the page and buffer size",
		Assume: []string{"a page next to an addressed one may be touched (accesses wider than one byte)", "64-bit Linux page protection"},
		Run:    func(ctx *Ctx) { ctx.runPagePhase("pages-touch") }, Replay: replayMemory}
}

// runPagePhase runs one facet of the page monitor in child processes.
func (ctx *Ctx) runPagePhase(facet string) {
	if ctx.stop.Load() {
		return
	}
	t0 := time.Now()
	ctx.sharded(231, func(shard int, r *R, cov *Cov, _ func(*Viol)) {
		if ctx.stop.Load() {
			return
		}
		ctx.mergeChild(ctx.memoryChild("memory", facet, fmt.Sprint(shard)), facet, cov)
	})
	ctx.extra["seconds under the page monitor"] = time.Since(t0).Seconds()
	ctx.extra["page monitor"] = "closed and unwritable pages passed their positive and negative controls in every process"
	debug.FreeOSMemory()
}
