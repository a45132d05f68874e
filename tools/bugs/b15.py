import os, runpy
D = os.path.dirname(os.path.abspath(__file__))
B4 = runpy.run_path(os.path.join(D, 'b4.py'))
HS, GEN = B4['HS'], B4['GEN']
HB = HS.replace('"os"', '"encoding/binary"\n\t"os"')
HM = HS.replace('"os"', '"math"\n\t"os"')
BUGS = [
 dict(id='g02-same-size', property='G02',
  needs='an output of an earlier version that happens to be as long as the new one',
  breaks='it is taken to be up to date',
  edits=[('generation/main.go', '''	for name, contents := range generated {
''', '''	for name, contents := range generated {
		if info, err := os.Stat(strings.Join([]string{strings.TrimSuffix(strings.TrimPrefix(name, "_"), ".go"), ".generated.go"}, "")); err == nil && info.Size() == int64(len(contents)) {
			// nothing to do
			continue
		}

''')],
  sh=GEN + '''printf 'package a\\n' > "$d/t/_a.go"
printf 'package b\\n' > "$d/t/a.generated.go"
"$d/gen" -directory "$d/t" -generation complex > /dev/null || exit 3
cmp "$d/t/_a.go" "$d/t/a.generated.go" || exit 1
'''),
 dict(id='g02-prefix-kept', property='G02',
  needs='an output that begins with the new text and goes on after it',
  breaks='it is left as it is',
  edits=[('generation/main.go', '''	for name, contents := range generated {
''', '''	for name, contents := range generated {
		if old, err := ioutil.ReadFile(strings.Join([]string{strings.TrimSuffix(strings.TrimPrefix(name, "_"), ".go"), ".generated.go"}, "")); err == nil && strings.HasPrefix(string(old), string(contents)) {
			// nothing to do
			continue
		}

''')],
  sh=GEN + '''printf 'package a\\n' > "$d/t/_a.go"
printf 'package a\\n\\nvar x = 1\\n' > "$d/t/a.generated.go"
"$d/gen" -directory "$d/t" -generation complex > /dev/null || exit 3
cmp "$d/t/_a.go" "$d/t/a.generated.go" || exit 1
'''),
 dict(id='c03-v1-order-cache', property='C03',
  needs='a typed read of the v1 MiniBuffer with a byte order that cannot be a map key (one that holds a slice or a function)',
  breaks='it panics',
  edits=[('v1/minibuf.go', '''	case Unsigned64:
		*out = make([]uint64, n)

''', '''	case Unsigned64:
		*out = make([]uint64, n)

		if (map[binary.ByteOrder]bool{binary.LittleEndian: true})[endian] {

			for i := range (*out).([]uint64) {

				(*out).([]uint64)[i] = binary.LittleEndian.Uint64(b.buf[off+int64(i)*8:])

			}
			return

		}
''')],
  demo=HB.replace('func main() {', '''type order struct {
	binary.ByteOrder
	f func()
}

func main() {''') % '''	defer func() {
		if x := recover(); x != nil {
			fail(x)
		}
	}()
	var b *v1.MiniBuffer
	v1.NewMiniBuffer(&b, make([]byte, 9))
	var o interface{}
	b.ReadComplex(&o, 0, 1, v1.Unsigned64, order{binary.BigEndian, func() {}})'''),
 dict(id='b03-v3-flip-parallel', property='B03', regen=True,
  needs='flipping all bits of a v3 Buffer of more than two million bytes, and looking at its end right away',
  breaks='the second half is flipped by a goroutine that is not waited for',
  edits=[('v3/_buffer.go', '''	flip_loop:
		b.buf[i] = ^b.buf[i]
''', '''	flip_loop:
		if i == 0 && n > 1<<21 {

			half := b.buf[n/2:]
			n /= 2
			go func() {

				for j := len(half) - 1; j >= 0; j-- {

					half[j] = ^half[j]

				}

			}()

		}
		b.buf[i] = ^b.buf[i]
''')],
  demo=HS % '''	s := make([]byte, 1<<22)
	for k := 0; k < 20; k++ {
		b := v3.NewBuffer(s[:])
		b.FlipAllBits()
		want := byte(0)
		if k%%2 == 0 {
			want = 255
		}
		for _, i := range []int{0, 1<<22 - 1, 1 << 21, 3 << 20} {
			if s[i] != want {
				fail(k, i)
			}
		}
	}''' if False else HS % '''	for k := 0; k < 20; k++ {
		s := make([]byte, 1<<22)
		v3.NewBuffer(s).FlipAllBits()
		if s[1<<21] != 255 {
			fail(k)
		}
	}'''),
 dict(id='p02-v2-grow-large-alloc', property='P02',
  needs='growing a v2 buffer by 64 KiB or more while another goroutine writes to it',
  breaks='the contents are copied outside the lock, and writes made meanwhile are lost',
  edits=[('v2/buffer.go', '''	b.buf = append(b.buf, make([]byte, n)...)
	b.cap = int64(len(b.buf))
	b.bcap = b.cap * 8

}

// refresh updates''', '''	if n >= 1<<16 {

		old := append([]byte{}, b.buf...)
		b.Unlock()
		buf := append(old, make([]byte, n)...)
		b.Lock()
		b.buf = buf

	} else {

		b.buf = append(b.buf, make([]byte, n)...)

	}
	b.cap = int64(len(b.buf))
	b.bcap = b.cap * 8

}

// refresh updates''')],
  demo=HS % '''	for k := 0; k < 200; k++ {
		b := v2.NewBuffer(make([]byte, 1000))
		var wg sync.WaitGroup
		wg.Add(2)
		go func() {
			defer wg.Done()
			for i := 0; i < 20; i++ {
				b.Grow(1 << 16)
			}
		}()
		go func() {
			defer wg.Done()
			for i := int64(0); i < 1000; i++ {
				b.WriteByte(i, 1)
			}
		}()
		wg.Wait()
		for i, x := range b.Bytes()[:1000] {
			if x != 1 {
				fail(k, i)
			}
		}
	}'''),
 dict(id='p02-v1-readcomplex-blocks', property='P02',
  needs='reading more than 4096 bytes of typed values from a v1 buffer while another goroutine writes them',
  breaks='they are copied block by block',
  edits=[('v1/buffer.go', '''	data := b.readcopy(off, n, int64(size))

''', '''	var data []byte
	if n > 4096/int64(size) && n <= b.Capacity()/int64(size) {

		const block = 512
		for i := int64(0); i < n; i += block {

			k := n - i
			if k > block {

				k = block

			}
			data = append(data, b.readcopy(off+i*int64(size), k, int64(size))...)

		}

	} else {

		data = b.readcopy(off, n, int64(size))

	}

''')],
  demo=HB % '''	b := v1.NewBuffer(make([]byte, 1<<16))
	stop := make(chan int)
	go func() {
		for {
			select {
			case <-stop:
				return
			default:
				b.SetAllBits()
				b.ClearAllBits()
			}
		}
	}()
	for k := 0; k < 3000; k++ {
		x := b.ReadComplex(0, 1<<13, v1.Unsigned64, binary.LittleEndian).([]uint64)
		for i := range x {
			if x[i] != x[0] {
				fail(k, i)
			}
		}
	}
	close(stop)'''),
 dict(id='p01-v1-complex-single', property='P01', race=True,
  needs='a typed read of a single 32-bit element of a v1 buffer while another goroutine writes it',
  breaks='it is decoded from the storage without the lock',
  edits=[('v1/buffer.go', '''	case Unsigned32:
		idata := make([]uint32, n)
''', '''	case Unsigned32:
		if n == 1 {

			return []uint32{endian.Uint32(b.buf[off : off+4])}

		}
		idata := make([]uint32, n)
''')],
  demo=HB % '''	b := v1.NewBuffer(make([]byte, 9))
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 3000; i++ {
			b.ReadComplex(0, 1, v1.Unsigned32, binary.LittleEndian)
			time.Sleep(time.Microsecond)
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 3000; i++ {
			b.SetBit(5, 1)
			time.Sleep(time.Microsecond)
		}
	}()
	wg.Wait()'''),
 dict(id='s03-v3-writef64-nan-arg', property='S03',
  needs='writing a NaN with a payload as little-endian float64 to the v3 Buffer and looking at the slice that was passed',
  breaks='the NaN in the slice of the caller is replaced',
  edits=[('v3/buffer.generated.go', '''		b.buf[off+int64(7+(i*8))] = byte(*(*uint64)(unsafe.Pointer(&data[i])) >> 56)
		i++
''', '''		b.buf[off+int64(7+(i*8))] = byte(*(*uint64)(unsafe.Pointer(&data[i])) >> 56)
		if data[i] != data[i] {
			*(*uint64)(unsafe.Pointer(&data[i])) = 0x7ff8000000000001
		}
		i++
''')],
  demo=HM % '''	d := []float64{math.Float64frombits(0x7ff8000000000009)}
	v3.NewBuffer(make([]byte, 9)).WriteF64LE(0, d)
	if x := math.Float64bits(d[0]); x != 0x7ff8000000000009 {
		fail(x)
	}'''),
 dict(id='r04-v2-mini-seek-walk', property='R04',
  needs='moving the byte cursor of a v2 MiniBuffer forward by a billion bytes, seen by how long it takes',
  breaks='it goes there step by step',
  edits=[('v2/minibuf.go', '''		b.off += off

''', '''		for ; off > 0; off-- {

			b.off++

		}
		b.off += off

''')],
  demo=HS % '''	var b *v2.MiniBuffer
	v2.NewMiniBuffer(&b, make([]byte, 9))
	t := time.Now()
	b.Seek(1<<35, true)
	if d := time.Since(t); d > time.Second {
		fail(d)
	}'''),
 dict(id='m01-v2-mini-readbytes-reuse', property='M01',
  needs='reading bytes from a v2 MiniBuffer into a variable that still refers to a slice of other data, with room for them',
  breaks='the other data is overwritten',
  edits=[('v2/minibuf.go', '''	*out = b.buf[off : off+n]

''', '''	if int64(cap(*out)) >= n && n > 0 {

		// use the room there is
		*out = append((*out)[:0], b.buf[off:off+n]...)
		return

	}
	*out = b.buf[off : off+n]

''')],
  demo=HS % '''	var b *v2.MiniBuffer
	v2.NewMiniBuffer(&b, []byte{1, 2, 3})
	keep := []byte{7, 8, 9}
	out := keep
	b.ReadBytes(&out, 0, 2)
	if keep[0] != 7 {
		fail(keep)
	}'''),
]
