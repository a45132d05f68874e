package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

// Native stress: the real code on real threads, with monitors of what must be
// conserved. Every scenario returns what was violated, or "".

type scenario struct {
	name string
	run  func(t *Target, r *R, iters int) (bad string, events int64)
}

const stressThreads = 8

func parallel(n int, f func(i int)) {
	var wg, ready sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < n; i++ {
		wg.Add(1)
		ready.Add(1)
		go func(i int) {
			defer wg.Done()
			ready.Done()
			<-start
			f(i)
		}(i)
	}
	ready.Wait()
	close(start)
	wg.Wait()
}

func ty(t *Target, w, ord int) (string, int, int) { return "U", w, ord }

var scenarios = []scenario{
	{"sequential typed readers receive every element exactly once", func(t *Target, r *R, iters int) (string, int64) {
		w, ord := []int{2, 4, 8}[r.Intn(3)], r.Intn(2)
		per := 1 + r.Intn(4)
		total := stressThreads * iters * per
		if w == 2 {
			for total > 65000 {
				iters /= 2
				total = stressThreads * iters * per
			}
		}
		data := make([]byte, total*w)
		for i := 0; i < total; i++ {
			encode(data[i*w:], uint64(i), w, ord)
		}
		s := newSubj(t, t.New(data))
		got := make([][][]uint64, stressThreads)
		parallel(stressThreads, func(i int) {
			for k := 0; k < iters; k++ {
				res := s.exec(&Op{K: KReadT, Next: true, Ty: "U", W: w, Ord: ord, N: int64(per)})
				got[i] = append(got[i], res.Vals)
			}
		})
		seen := make([]int, total)
		for i := range got {
			last := -1
			for _, c := range got[i] {
				if len(c) != per {
					return fmt.Sprintf("a read of %d elements that are there returned %d", per, len(c)), 0
				}
				for j, v := range c {
					if v >= uint64(total) || j > 0 && v != c[0]+uint64(j) {
						return fmt.Sprintf("a read returned %x, which is not a run of stored elements", c), 0
					}
					seen[v]++
				}
				if int(c[0]) <= last {
					return "a goroutine's reads went backwards", 0
				}
				last = int(c[0])
			}
		}
		for v, n := range seen {
			if n != 1 {
				return fmt.Sprintf("element %d was delivered %d times", v, n), 0
			}
		}
		if s.query(0) != int64(total*w) {
			return fmt.Sprintf("the cursor ended at %d, not %d", s.query(0), total*w), 0
		}
		return "", int64(stressThreads * iters)
	}},
	{"sequential writers never overwrite one another", func(t *Target, r *R, iters int) (string, int64) {
		mode := r.Intn(4) // bytes, single bytes, typed, mixed
		rec := 8
		total := stressThreads * iters
		s := newSubj(t, t.New(make([]byte, total*rec)))
		parallel(stressThreads, func(i int) {
			for k := 0; k < iters; k++ {
				id := uint64(i*iters+k) | 0xA5A5<<48
				var d [8]byte
				binary.BigEndian.PutUint64(d[:], id)
				switch m := mode; {
				case m == 0 || m == 3 && k%2 == 0:
					s.exec(&Op{K: KWriteBytes, Next: true, Data: d[:]})
				case m == 1:
					s.exec(&Op{K: KWriteT, Next: true, Ty: "U", W: 4, Ord: 1, Vals: []uint64{id >> 32, id & 0xFFFFFFFF}})
				default:
					s.exec(&Op{K: KWriteT, Next: true, Ty: "U", W: 8, Ord: 1, Vals: []uint64{id}})
				}
			}
		})
		l := s.live()
		seen := map[uint64]int{}
		for i := 0; i < total; i++ {
			seen[binary.BigEndian.Uint64(l[i*8:])]++
		}
		for i := 0; i < total; i++ {
			if n := seen[uint64(i)|0xA5A5<<48]; n != 1 {
				return fmt.Sprintf("record %d is in the buffer %d times", i, n), 0
			}
		}
		if s.query(0) != int64(total*rec) {
			return fmt.Sprintf("the cursor ended at %d, not %d", s.query(0), total*rec), 0
		}
		return "", int64(total)
	}},
	{"sequential single-byte access is exactly-once", func(t *Target, r *R, iters int) (string, int64) {
		iters = min(iters, 31)
		total := stressThreads * iters
		data := make([]byte, total)
		for i := range data {
			data[i] = byte(i)
		}
		s := newSubj(t, t.New(data))
		got := make([][]byte, stressThreads)
		parallel(stressThreads, func(i int) {
			for k := 0; k < iters; k++ {
				got[i] = append(got[i], byte(s.exec(&Op{K: KReadByte, Next: true}).U))
			}
		})
		seen := make([]int, 256)
		for _, g := range got {
			for _, b := range g {
				seen[b]++
			}
		}
		for i := range data {
			if seen[i] != 1 {
				return fmt.Sprintf("byte %d was delivered %d times", i, seen[i]), 0
			}
		}
		s.exec(&Op{K: KSeek})
		parallel(stressThreads, func(i int) {
			for k := 0; k < iters; k++ {
				s.exec(&Op{K: KWriteByte, Next: true, Val: uint64(i*iters + k)})
			}
		})
		seen = make([]int, 256)
		for _, b := range s.live() {
			seen[b]++
		}
		for i := range data {
			if seen[i] != 1 {
				return fmt.Sprintf("byte %d was stored %d times", i, seen[i]), 0
			}
		}
		return "", int64(2 * total)
	}},
	{"sequential bit fields are exactly-once", func(t *Target, r *R, iters int) (string, int64) {
		const w = 13
		iters = min(iters, 8191/stressThreads)
		total := stressThreads * iters
		s := newSubj(t, t.New(make([]byte, (total*w+7)/8)))
		parallel(stressThreads, func(i int) {
			for k := 0; k < iters; k++ {
				s.exec(&Op{K: KSetBits, Next: true, Val: uint64(i*iters + k + 1), N: w})
			}
		})
		if s.query(1) != int64(total*w) {
			return fmt.Sprintf("the bit cursor ended at %d, not %d", s.query(1), total*w), 0
		}
		l := s.live()
		seen := map[uint64]int{}
		for i := 0; i < total; i++ {
			var v uint64
			for j := 0; j < w; j++ {
				v = v<<1 | uint64(getBit(l, int64(i*w+j)))
			}
			seen[v]++
		}
		for i := 1; i <= total; i++ {
			if seen[uint64(i)] != 1 {
				return fmt.Sprintf("field %d was stored %d times", i, seen[uint64(i)]), 0
			}
		}
		s.exec(&Op{K: KSeekBit})
		got := make([][]uint64, stressThreads)
		parallel(stressThreads, func(i int) {
			for k := 0; k < iters; k++ {
				got[i] = append(got[i], s.exec(&Op{K: KReadBits, Next: true, N: w}).U)
			}
		})
		seen = map[uint64]int{}
		for _, g := range got {
			for _, v := range g {
				seen[v]++
			}
		}
		for i := 1; i <= total; i++ {
			if seen[uint64(i)] != 1 {
				return fmt.Sprintf("field %d was delivered %d times", i, seen[uint64(i)]), 0
			}
		}
		return "", int64(2 * total)
	}},
	{"sequential single bits are exactly-once", func(t *Target, r *R, iters int) (string, int64) {
		total := stressThreads * iters
		s := newSubj(t, t.New(make([]byte, (total+7)/8)))
		parallel(stressThreads, func(i int) {
			for k := 0; k < iters; k++ {
				if i%2 == 0 {
					s.exec(&Op{K: KSetBit, Next: true, Val: 1})
				} else {
					s.exec(&Op{K: KFlipBit, Next: true})
				}
			}
		})
		for i := 0; i < total; i++ {
			if getBit(s.live(), int64(i)) != 1 {
				return fmt.Sprintf("bit %d was passed over or changed twice", i), 0
			}
		}
		if s.query(1) != int64(total) {
			return fmt.Sprintf("the bit cursor ended at %d, not %d", s.query(1), total), 0
		}
		s.exec(&Op{K: KSeekBit})
		ones := make([]int, stressThreads)
		parallel(stressThreads, func(i int) {
			for k := 0; k < iters; k++ {
				ones[i] += int(s.exec(&Op{K: KReadBit, Next: true}).U)
			}
		})
		n := 0
		for _, x := range ones {
			n += x
		}
		if n != total || s.query(1) != int64(total) {
			return fmt.Sprintf("%d of %d bits were delivered, cursor %d", n, total, s.query(1)), 0
		}
		return "", int64(2 * total)
	}},
	{"no bit update is lost", func(t *Target, r *R, iters int) (string, int64) {
		init := r.data(9)
		s := newSubj(t, t.New(append([]byte{}, init...)))
		want := append([]byte{}, init...)
		// thread i owns bits i, i+8, ... of every byte, and flips or sets them
		plan := make([][]*Op, stressThreads)
		for i := range plan {
			for k := 0; k < iters; k++ {
				p := int64(r.Intn(9)*8 + i)
				if r.p(0.5) {
					plan[i] = append(plan[i], &Op{K: KFlipBit, Off: p})
					setBit(want, p, 1-getBit(want, p))
				} else {
					v := uint64(r.Intn(2))
					plan[i] = append(plan[i], &Op{K: KSetBit, Off: p, Val: v})
					setBit(want, p, byte(v))
				}
			}
		}
		parallel(stressThreads, func(i int) {
			for _, o := range plan[i] {
				s.exec(o)
			}
		})
		if d := diffData(s.live(), want); d != "" {
			return "a bit update was lost: " + d, 0
		}
		return "", int64(stressThreads * iters)
	}},
	{"no update of disjoint bit fields is lost", func(t *Target, r *R, iters int) (string, int64) {
		s := newSubj(t, t.New(make([]byte, 16)))
		want := make([]byte, 16)
		bounds := []int64{0}
		for i := 0; i < stressThreads; i++ {
			bounds = append(bounds, bounds[i]+3+int64(r.Intn(13)))
		}
		plan := make([][]*Op, stressThreads)
		for i := range plan {
			for k := 0; k < iters; k++ {
				o := &Op{K: KSetBits, Off: bounds[i], N: bounds[i+1] - bounds[i], Val: r.Uint64()}
				plan[i] = append(plan[i], o)
			}
			o := plan[i][iters-1]
			for j := int64(0); j < o.N; j++ {
				setBit(want, o.Off+j, byte(o.Val>>uint(o.N-1-j))&1)
			}
		}
		parallel(stressThreads, func(i int) {
			for _, o := range plan[i] {
				s.exec(o)
			}
		})
		if d := diffData(s.live(), want); d != "" {
			return "a bit-field update was lost: " + d, 0
		}
		return "", int64(stressThreads * iters)
	}},
	{"no seek is lost", func(t *Target, r *R, iters int) (string, int64) {
		s := newSubj(t, t.New(make([]byte, 4)))
		var sum, bsum int64
		plan := make([][2]int64, stressThreads)
		for i := range plan {
			plan[i] = [2]int64{int64(r.Intn(9)) - 4, int64(r.Intn(99)) - 50}
			sum += plan[i][0] * int64(iters)
			bsum += plan[i][1] * int64(iters)
		}
		parallel(stressThreads, func(i int) {
			for k := 0; k < iters; k++ {
				s.exec(&Op{K: KSeek, Off: plan[i][0], Rel: true})
				s.exec(&Op{K: KSeekBit, Off: plan[i][1], Rel: true})
			}
		})
		if s.query(0) != sum || s.query(1) != bsum {
			return fmt.Sprintf("cursors ended at %d/%d, not %d/%d", s.query(0), s.query(1), sum, bsum), 0
		}
		return "", int64(2 * stressThreads * iters)
	}},
	{"no growth is lost, and no write during growth", func(t *Target, r *R, iters int) (string, int64) {
		iters = min(iters, 400)
		const head = 64
		s := newSubj(t, t.New(make([]byte, head, head+r.Intn(300))))
		parallel(stressThreads, func(i int) {
			for k := 0; k < iters; k++ {
				switch i {
				case 0, 1:
					s.exec(&Op{K: KGrow, N: 3})
				case 2:
					s.exec(&Op{K: KGrow, N: 1})
				default: // thread i owns 8 bytes
					s.exec(&Op{K: KWriteT, Ty: "U", W: 8, Ord: 0, Off: int64(i * 8), Vals: []uint64{uint64(k)<<8 | uint64(i)}})
				}
			}
		})
		l := s.live()
		if int64(len(l)) != head+7*int64(iters) || s.query(2) != int64(len(l)) {
			return fmt.Sprintf("the buffer holds %d bytes and reports %d, should be %d", len(l), s.query(2), head+7*iters), 0
		}
		for i := 3; i < stressThreads; i++ {
			if v := binary.LittleEndian.Uint64(l[i*8:]); v != uint64(iters-1)<<8|uint64(i) {
				return fmt.Sprintf("the last write of goroutine %d is lost: %#x", i, v), 0
			}
		}
		if i := mismatch(l[head:], make([]byte, len(l)-head)); i >= 0 {
			return "an added byte is not zero", 0
		}
		return "", int64(stressThreads * iters)
	}},
	{"no torn transfer or whole-buffer operation", func(t *Target, r *R, iters int) (string, int64) {
		const n = 24
		mode := r.Intn(5)
		s := newSubj(t, t.New(make([]byte, n*8)))
		bad := make([]string, stressThreads)
		parallel(stressThreads, func(i int) {
			for k := 0; k < iters && bad[i] == ""; k++ {
				v := uint64(i+1)<<32 | uint64(k)
				if i < stressThreads/2 {
					switch mode {
					case 0:
						vals := make([]uint64, n)
						for j := range vals {
							vals[j] = v
						}
						s.exec(&Op{K: KWriteT, Ty: "U", W: 8, Ord: i % 2, Vals: vals})
					case 1:
						s.exec(&Op{K: KWriteBytes, Data: bytes.Repeat([]byte{byte(v) ^ byte(i<<5)}, n*8)})
					case 2:
						s.exec(&Op{K: []Kind{KSetAll, KClearAll}[k%2]})
					case 3:
						s.exec(&Op{K: KFlipAll})
					case 4:
						s.exec(&Op{K: KSetBits, Off: 5, N: 64, Val: uint64(byte(v)) * 0x0101010101010101})
					}
					continue
				}
				switch mode {
				case 0:
					x := s.exec(&Op{K: KReadT, Ty: "U", W: 8, Ord: 0, N: n}).Vals
					for j := range x {
						if x[j] != x[0] {
							bad[i] = fmt.Sprintf("a multi-element read mixes two writes: %x", x)
						}
					}
				case 1, 2, 3:
					x := s.exec(&Op{K: KReadT, Ty: "U", W: 8, Ord: 0, N: n}).Vals
					for j := range x {
						if x[j] != x[0] || byte(x[j]) != byte(x[j]>>56) {
							bad[i] = fmt.Sprintf("a read sees half of an operation: %x", x)
						}
					}
				case 4:
					x := s.exec(&Op{K: KReadBits, Off: 5, N: 64}).U
					if x != uint64(byte(x))*0x0101010101010101 {
						bad[i] = fmt.Sprintf("a bit field mixes two writes: %x", x)
					}
				}
			}
		})
		for _, b := range bad {
			if b != "" {
				return b, 0
			}
		}
		return "", int64(stressThreads * iters)
	}},
	{"no large transfer is torn", func(t *Target, r *R, iters int) (string, int64) {
		// every writer fills the whole buffer, so every read sees one byte all over
		n := int64(8) << uint(r.Intn(16))
		if len(dict) > 0 && r.p(0.3) {
			if d := dict[r.Intn(len(dict))]; d > 0 && d < 1<<18 {
				n = (d + int64(r.Intn(64)) + 15) / 8 * 8
			}
		}
		iters = int(max(6, min(200, 1<<20/n)))
		w := []int64{1, 2, 4, 8}[r.Intn(4)]
		s := newSubj(t, t.New(make([]byte, n)))
		whole := func(o Op, v byte) *Op {
			o.W, o.Ty = int(w), "U"
			if o.K == KWriteT {
				o.Vals = make([]uint64, n/w)
				for j := range o.Vals {
					o.Vals[j] = uint64(v) * 0x0101010101010101 & (^uint64(0) >> uint(64-8*w))
				}
			}
			if o.K == KWriteBytes {
				o.Data = bytes.Repeat([]byte{v}, int(n))
			}
			return &o
		}
		typed := w > 1 && whole(Op{K: KWriteT}, 0).method(t) != ""
		bad := make([]string, stressThreads)
		mode := r.Intn(3)
		parallel(stressThreads, func(i int) {
			for k := 0; k < iters && bad[i] == ""; k++ {
				v := byte(i*37 + k)
				switch {
				case i >= stressThreads/2:
					x := s.exec(&Op{K: KReadT, Ty: "U", W: 8, Ord: i % 2, N: n / 8}).Vals
					for j := range x {
						if x[j] != x[0] || byte(x[j]) != byte(x[j]>>56) {
							bad[i] = fmt.Sprintf("a read of %d bytes sees half of an operation: %#x, at element %d %#x", n, x[0], j, x[j])
							break
						}
					}
				case mode == 0 || !typed && mode == 1:
					s.exec(whole(Op{K: KWriteBytes}, v))
				case mode == 1:
					s.exec(whole(Op{K: KWriteT, Ord: i % 2}, v))
				default:
					s.exec(&Op{K: []Kind{KSetAll, KClearAll, KFlipAll}[(i+k)%3]})
				}
			}
		})
		for _, b := range bad {
			if b != "" {
				return b, 0
			}
		}
		return "", int64(stressThreads * iters)
	}},
	{"large sequential transfers neither overlap nor mix", func(t *Target, r *R, iters int) (string, int64) {
		per := int64(8) << uint(r.Intn(14))
		iters = int(max(3, min(60, 1<<17/per)))
		total := int64(stressThreads*iters) * per
		s := newSubj(t, t.New(make([]byte, total)))
		w := []int64{2, 4, 8}[r.Intn(3)]
		o := &Op{K: KWriteT, Ty: "U", W: int(w), Next: true}
		typed := r.p(0.5) && o.method(t) != ""
		parallel(stressThreads, func(i int) {
			for k := 0; k < iters; k++ {
				v := byte(1 + (i*iters+k)%251)
				if typed {
					o := &Op{K: KWriteT, Ty: "U", W: int(w), Next: true, Vals: make([]uint64, per/w)}
					for j := range o.Vals {
						o.Vals[j] = uint64(v) * 0x0101010101010101 & (^uint64(0) >> uint(64-8*w))
					}
					s.exec(o)
				} else {
					s.exec(&Op{K: KWriteBytes, Next: true, Data: bytes.Repeat([]byte{v}, int(per))})
				}
			}
		})
		got := map[byte]int{}
		l := s.live()
		for p := int64(0); p < total; p += per {
			for j := p; j < p+per; j++ {
				if l[j] != l[p] {
					return fmt.Sprintf("two sequential writes of %d bytes share the block at %d", per, p), 0
				}
			}
			got[l[p]]++
		}
		for i := 0; i < stressThreads*iters; i++ {
			got[byte(1+i%251)]--
		}
		for v, n := range got {
			if n != 0 {
				return fmt.Sprintf("sequential writes of %d bytes: those of %#x are found %d times too often", per, v, n), 0
			}
		}
		if s.query(0) != total {
			return fmt.Sprintf("the cursor ended at %d, not %d", s.query(0), total), 0
		}
		return "", int64(stressThreads * iters)
	}},
}

// crowd: very many goroutines wait for one buffer at the same moment.
func crowd(t *Target, r *R, n int, done *atomic.Int64) string {
	const per, wide = 3, 512
	mode := r.Intn(4)
	typed := r.p(0.5)
	size := n * per * 8
	if mode > 1 {
		size = wide
	}
	s := newSubj(t, t.New(make([]byte, size)))
	l, isLocker := s.B.(locker)
	if isLocker { // hold them back until all are there
		l.Lock()
	}
	var wg sync.WaitGroup
	var there atomic.Int64
	var bad atomic.Value
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			there.Add(1)
			for k := 0; k < per; k++ {
				v := uint64(i*per+k) | 0x5A<<56
				switch {
				case mode == 2 && i%3 == 0: // whole contents at a time
					if x := s.exec(&Op{K: KReadT, Ty: "U", W: 8, N: wide / 8}).Vals; len(x) == wide/8 {
						for j := range x {
							if x[j] != x[0] {
								bad.Store(fmt.Sprintf("a read of %d bytes sees half of a write: %#x, at element %d %#x", wide, x[0], j, x[j]))
							}
						}
					}
				case mode == 2 && typed:
					x := make([]uint64, wide/8)
					for j := range x {
						x[j] = v
					}
					s.exec(&Op{K: KWriteT, Ty: "U", W: 8, Vals: x})
				case mode == 2:
					s.exec(&Op{K: KWriteBytes, Data: bytes.Repeat(binary.LittleEndian.AppendUint64(nil, v), wide/8)})
				case mode == 3: // each bit changes as often as it is told to
					s.exec(&Op{K: KFlipAll})
					s.exec(&Op{K: KFlipBit, Off: int64(i % 16)})
				case typed:
					s.exec(&Op{K: KWriteT, Ty: "U", W: 8, Ord: 1, Next: true, Vals: []uint64{v}})
				default:
					s.exec(&Op{K: KWriteBytes, Next: true, Data: binary.BigEndian.AppendUint64(nil, v)})
				}
			}
			done.Add(1)
		}()
	}
	for there.Load() < int64(n) {
		runtime.Gosched()
	}
	time.Sleep(time.Millisecond)
	if isLocker {
		l.Unlock()
	}
	wg.Wait()
	if b := bad.Load(); b != nil {
		return b.(string)
	}
	m := s.live()
	if mode == 3 {
		for i := 0; i < 64; i++ {
			flips := n * per
			if i < 16 {
				flips += per * ((n + 15 - i) / 16)
			}
			if int(getBit(m, int64(i))) != flips%2 {
				return fmt.Sprintf("bit %d was flipped %d times but is %d", i, flips, getBit(m, int64(i)))
			}
		}
	}
	if mode > 1 {
		return ""
	}
	seen := make([]byte, n*per)
	for i := 0; i < n*per; i++ {
		v := binary.BigEndian.Uint64(m[i*8:])
		if v>>56 != 0x5A || v&(1<<56-1) >= uint64(n*per) {
			return fmt.Sprintf("record %d is torn or missing: %#x", i, v)
		}
		if seen[v&(1<<56-1)]++; seen[v&(1<<56-1)] > 1 {
			return fmt.Sprintf("record %#x is in the buffer twice", v)
		}
	}
	if s.query(0) != int64(n*per*8) {
		return fmt.Sprintf("the cursor ended at %d, not %d", s.query(0), n*per*8)
	}
	return ""
}

// watchCrowd runs a crowd; it reports one that makes no progress at all for long while
// members of it are seen waiting inside an operation.
func (ctx *Ctx) watchCrowd(t *Target, r *R, n int, cov *Cov) (bad string, ok bool) {
	var done atomic.Int64
	over := make(chan struct{})
	go func() {
		defer close(over)
		bad = crowd(t, r, n, &done)
	}()
	last, since := int64(-1), time.Now()
	for {
		select {
		case <-over:
			cov.hit(hashInt(hashInt(hashStr(hash0, t.ID+"crowd"), int64(n)), int64(len(cov.distinct))), true)
			cov.count("operations by tens to tens of thousands of goroutines at once", int64(3*n))
			return bad, true
		case <-time.After(200 * time.Millisecond):
			if x := done.Load(); x != last {
				last, since = x, time.Now()
			} else if time.Since(since) > 20*time.Second {
				if b, stack := blockedInMutex("crowd"); b {
					return fmt.Sprintf("some of them wait for ever (%d are through)\n%s", x, tail(stack, 1500)), false
				}
				cov.count("crowds without a verdict", 1)
				return "", false
			}
		}
	}
}

// crowdReturns: all of a crowd get their turn (P03).
func (ctx *Ctx) crowdReturns() {
	cov := newCov()
	defer ctx.merge(cov)
	r := newR(mix(ctx.Seed, 301))
	for _, n := range []int{40, 300, 300, 1200, 5000, 70000} {
		for _, t := range where(concur) {
			if ctx.stop.Load() {
				return
			}
			bad, ok := ctx.watchCrowd(t, r, n, cov)
			if !ok {
				if bad != "" {
					ctx.report(&Viol{Text: fmt.Sprintf("%s, %d goroutines at once: %s", t.ID, n, bad), Kind: "stress"})
				}
				return
			}
		}
	}
}

func (ctx *Ctx) runStress() {
	cov := newCov()
	defer ctx.merge(cov)
	r := newR(mix(ctx.Seed, 300))
	for rep := 0; rep < ctx.n(36, 400); rep++ {
		for _, t := range where(concur) {
			n := []int{300, 600, 1200, 40, 5000, 300, 1000, 300, 70000}[rep%9]
			bad, ok := ctx.watchCrowd(t, r, n, cov)
			if bad != "" {
				ctx.report(&Viol{Text: fmt.Sprintf("%s, %d goroutines at once: %s", t.ID, n, bad), Kind: "stress"})
				return
			}
			if !ok {
				return
			}
		}
	}
	for rep := 0; rep < ctx.n(16, 600); rep++ {
		for _, t := range where(concur) {
			for _, sc := range scenarios {
				var bad string
				var ev int64
				ok := make(chan struct{})
				go func() {
					defer close(ok)
					bad, ev = sc.run(t, r, 200+r.Intn(1200))
				}()
				if !waitOr(ok, "parallel") {
					cov.count("stress scenarios that deadlocked", 1)
					return // P03's business
				}
				if bad != "" {
					ctx.report(&Viol{Text: fmt.Sprintf("%s under stress, %s: %s", t.ID, sc.name, bad), Kind: "stress"})
					return
				}
				cov.Eval += ev
				cov.NonTriv += ev
				cov.distinct[hashStr(hashInt(hashStr(hash0, t.ID), int64(rep)), sc.name)] = struct{}{}
				cov.count("stress: "+sc.name, ev)
			}
		}
	}
}
