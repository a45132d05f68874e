package main

import (
	"fmt"
	"os"
	"reflect"
	"runtime/debug"
	"sync"
	"syscall"
	"unsafe"
)

// mirrored maps a range of size bytes of which the first and last pages are memory
// of their own and everything between repeats one block: large buffers whose every
// byte can be written without memory for every byte. size must be page-aligned.
// The number of repetitions is odd.
const (
	wideEdge  = 64 << 10
	wideBlock = 2 << 20
)

func (ctx *Ctx) mirrored(blocks int) (mem []byte, free func(), err error) {
	f, err := os.CreateTemp(ctx.Scratch, "wide-")
	if err != nil {
		return nil, nil, err
	}
	defer f.Close()
	defer os.Remove(f.Name())
	if err := f.Truncate(wideBlock); err != nil {
		return nil, nil, err
	}
	mem, err = syscall.Mmap(-1, 0, 2*wideEdge+blocks*wideBlock, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
	if err != nil {
		return nil, nil, err
	}
	base := uintptr(unsafe.Pointer(&mem[0])) + wideEdge
	for i := 0; i < blocks; i++ {
		_, _, e := syscall.Syscall6(syscall.SYS_MMAP, base+uintptr(i)*wideBlock, wideBlock, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED|syscall.MAP_FIXED, f.Fd(), 0)
		if e != 0 {
			syscall.Munmap(mem)
			return nil, nil, e
		}
	}
	return mem, func() { syscall.Munmap(mem) }, nil
}

// wideBits runs the whole-buffer bit operations on buffers of more than 2^32 bytes.
func (ctx *Ctx) wideBits() {
	var wg sync.WaitGroup
	for _, t := range targets {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ctx.wideBitsOf(t)
		}()
	}
	wg.Wait()
}

func (ctx *Ctx) wideBitsOf(t *Target) {
	cov := newCov()
	defer ctx.merge(cov)
	mem, free, err := ctx.mirrored(1<<32/wideBlock + 1)
	if err != nil {
		cov.count("wide buffers unavailable", 1)
		return
	}
	defer free()
	const cut = 3 // the contents end within a word
	n := len(mem) - cut
	want := func(i int) byte { return 0 }
	fill := func(f func(i int) byte) {
		for i := range wideEdge + wideBlock {
			mem[i] = f(i)
		}
		for i := len(mem) - wideEdge; i < len(mem); i++ {
			mem[i] = f(i)
		}
	}
	at := func(i int) int { // the name of the byte at i
		if i >= wideEdge && i < len(mem)-wideEdge {
			return wideEdge + (i-wideEdge)%wideBlock
		}
		return i
	}
	check := func(what string) bool {
		bad := -1
		chk := func(lo, hi int) {
			for i := lo; i < hi && bad < 0; i++ {
				w := want(at(i))
				if i >= n {
					w = 0xA7
				}
				if mem[i] != w {
					bad = i
				}
			}
		}
		chk(0, wideEdge+wideBlock)
		chk(len(mem)-wideEdge, len(mem))
		if bad >= 0 {
			ctx.report(&Viol{Text: fmt.Sprintf("%s, a buffer of %d bytes: byte %d is wrong after %s", t.ID, n, bad, what), Kind: "huge"})
			return false
		}
		cov.hit(hashStr(hashStr(hash0, t.ID), what), true)
		cov.count("whole-buffer operations on more than 2^32 bytes", 1)
		return true
	}
	for _, k := range []Kind{KFlipAll, KSetAll, KClearAll} {
		o := &Op{K: k}
		if o.method(t) == "" {
			continue
		}
		fill(func(i int) byte { return byte(mix(uint64(i), 77)) })
		for i := n; i < len(mem); i++ {
			mem[i] = 0xA7
		}
		s := newSubj(t, t.New(mem[:n]))
		if res := s.exec(o); res.Panicked {
			ctx.report(&Viol{Text: fmt.Sprintf("%s, a buffer of %d bytes: %s panicked: %v", t.ID, n, o, res), Kind: "huge"})
			return
		}
		switch k {
		case KFlipAll: // the repeated block an odd number of times
			want = func(i int) byte { return ^byte(mix(uint64(i), 77)) }
		case KSetAll:
			want = func(int) byte { return 0xFF }
		case KClearAll:
			want = func(int) byte { return 0 }
		}
		if !check(o.String()) || ctx.stop.Load() {
			return
		}
		if s.query(2) != int64(n) || s.query(3) != 8*int64(n) {
			ctx.report(&Viol{Text: fmt.Sprintf("%s: a buffer of %d bytes reports sizes %d/%d after %s", t.ID, n, s.query(2), s.query(3), o), Kind: "huge"})
			return
		}
	}
}

// wideMoves writes and reads a whole large buffer at once: the bytes as they are, or,
// when types is not empty, as elements of these types instead. More than 2^31 bytes
// are moved by the quick tier, more than 2^32 by the thorough one.
func (ctx *Ctx) wideMoves(types string) {
	var wg sync.WaitGroup
	type job struct {
		t    *Target
		o    *Op
		wide bool
	}
	jobs := make(chan job)
	for range 8 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				if !ctx.stop.Load() {
					ctx.wideMove(j.t, j.o, j.wide)
				}
			}
		}()
	}
	for _, t := range targets {
		if types == "" {
			jobs <- job{t, &Op{K: KWriteBytes, W: 1}, true}
			if t.Mini || ctx.Thorough {
				jobs <- job{t, &Op{K: KReadBytes, W: 1}, ctx.Thorough}
			}
			continue
		}
		for _, y := range t.types(types) {
			if y.W == 1 || t.Ver == 1 {
				continue
			}
			jobs <- job{t, &Op{K: KWriteT, Ty: y.Ty, W: y.W, Ord: y.Ord}, ctx.Thorough}
			if t.Mini || ctx.Thorough {
				jobs <- job{t, &Op{K: KReadT, Ty: y.Ty, W: y.W, Ord: y.Ord}, ctx.Thorough}
			}
		}
	}
	close(jobs)
	wg.Wait()
}

var wideAlloc sync.Mutex

func (ctx *Ctx) wideMove(t *Target, o *Op, wide bool) {
	cov := newCov()
	defer ctx.merge(cov)
	blocks := 1<<31/wideBlock + 1
	if wide {
		blocks = 1<<32/wideBlock + 1
	}
	src, free1, err := ctx.mirrored(blocks)
	if err != nil {
		cov.count("wide buffers unavailable", 1)
		return
	}
	defer free1()
	dst, free2, err := ctx.mirrored(blocks)
	if err != nil {
		cov.count("wide buffers unavailable", 1)
		return
	}
	defer free2()
	n := len(src)
	parts := [][2]int{{0, wideEdge + wideBlock}, {n - wideEdge, n}}
	for _, p := range parts {
		for i := p[0]; i < p[1]; i++ {
			src[i] = byte(mix(uint64(i), 78))
		}
	}
	name := o.method(t)
	read := o.K == KReadBytes || o.K == KReadT
	held, args := dst, src
	if read {
		held, args = src, dst
	}
	m := reflect.ValueOf(t.New(held)).MethodByName(name)
	if name == "" || !m.IsValid() {
		return
	}
	mt := m.Type()
	var in []reflect.Value
	var out reflect.Value // a pointer to the slice read into
	slice := func(st reflect.Type) reflect.Value {
		v := reflect.New(st)
		*(*[3]uintptr)(v.UnsafePointer()) = [3]uintptr{uintptr(unsafe.Pointer(&args[0])), uintptr(n / o.W), uintptr(n / o.W)}
		return v
	}
	ints := []int64{0, int64(n / o.W)}
	for i := range mt.NumIn() {
		switch a := mt.In(i); {
		case a.Kind() == reflect.Slice && a.Elem().Size() == uintptr(o.W):
			in = append(in, slice(a).Elem())
		case a.Kind() == reflect.Pointer && a.Elem().Kind() == reflect.Slice && a.Elem().Elem().Size() == uintptr(o.W):
			out = slice(a.Elem())
			in = append(in, out)
		case a.Kind() == reflect.Int64 && len(ints) > 0:
			in = append(in, reflect.ValueOf(ints[0]))
			ints = ints[1:]
		default:
			cov.count("signatures not understood", 1)
			return
		}
	}
	if read && !out.IsValid() { // it makes the result
		wideAlloc.Lock()
		defer wideAlloc.Unlock()
		defer debug.FreeOSMemory()
	}
	got := dst
	var res []reflect.Value
	if msg := catch(func() { res = m.Call(in) }); msg != "" {
		ctx.report(&Viol{Text: fmt.Sprintf("%s.%s of %d bytes in all panicked: %s", t.ID, name, n, msg), Kind: "huge"})
		return
	}
	if read {
		v := out
		if len(res) == 1 && res[0].Kind() == reflect.Slice {
			v = reflect.New(res[0].Type())
			v.Elem().Set(res[0])
		}
		if !v.IsValid() || v.Elem().Len() != n/o.W {
			ctx.report(&Viol{Text: fmt.Sprintf("%s.%s of %d bytes in all has a result of another length", t.ID, name, n), Kind: "huge"})
			return
		}
		got = unsafe.Slice((*byte)(v.Elem().UnsafePointer()), n)
	}
	for _, p := range parts {
		for i := p[0]; i < p[1]; i++ {
			j := i
			if o.Ord == 1 {
				j = i - i%o.W + o.W - 1 - i%o.W
			}
			if got[i] != src[j] {
				ctx.report(&Viol{Text: fmt.Sprintf("%s.%s of %d bytes in all: byte %d is %#x, should be %#x", t.ID, name, n, i, got[i], src[j]), Kind: "huge"})
				return
			}
		}
	}
	cov.hit(hashStr(hashStr(hash0, t.ID), name), true)
	cov.count("transfers of more than 2^31 bytes", 1)
	if wide {
		cov.count("transfers of more than 2^32 bytes", 1)
	}
}
