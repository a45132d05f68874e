import os, runpy
D = os.path.dirname(os.path.abspath(__file__))
B4 = runpy.run_path(os.path.join(D, 'b4.py'))
HS, GEN, REGEN, RM = B4['HS'], B4['GEN'], B4['REGEN'], B4['RM']
HB = HS.replace('"os"', '"encoding/binary"\n\t"os"')
HSY = HT = HS
BUGS = [
 dict(id='p02-v2-setall-pieces', property='P02',
  needs='setting all bits of a v2 buffer longer than 4096 bytes while another goroutine uses it',
  breaks='the lock is given up after every 4096 bytes, and others see a part of the operation',
  edits=[('v2/buffer.go', '''	set_loop:
		b.buf[i] = 0xFF
		i++
''', '''	set_loop:
		b.buf[i] = 0xFF
		if i++; i%4096 == 0 && i < n {

			// let others in
			b.Unlock()
			b.Lock()
			if n > int64(len(b.buf)) {

				n = int64(len(b.buf))

			}

		}
''')],
  demo=HSY % '''	b := v2.NewBuffer(make([]byte, 1<<20))
	stop := make(chan struct{})
	var w sync.WaitGroup
	w.Add(1)
	go func() {
		defer w.Done()
		for {
			select {
			case <-stop:
				return
			default:
				b.SetAllBits()
				b.ClearAllBits()
			}
		}
	}()
	for i := 0; i < 600; i++ {
		x := b.ReadU64LE(0, 1<<17)
		if x[0] != x[1<<17-1] {
			fail("torn")
		}
	}
	close(stop)
	w.Wait()'''),
 dict(id='r04-v1-new-quadratic', property='R04',
  needs='creating a v1 Buffer from very many slices',
  breaks='everything is copied again for each of the slices',
  edits=[('v1/buffer.go', '''			buf.buf = append(buf.buf, s...)
''', '''			buf.buf = append(append(make([]byte, 0, len(buf.buf)+len(s)), buf.buf...), s...)
''')],
  demo=HT % '''	t := func(n int) (best time.Duration) {
		best = time.Hour
		for i := 0; i < 5; i++ {
			s := make([][]byte, n)
			for j := range s {
				s[j] = []byte{1, 2, 3, 4}
			}
			t0 := time.Now()
			v1.NewBuffer(s...)
			if d := time.Since(t0); d < best {
				best = d
			}
		}
		return
	}
	if a, b := t(2000), t(40000); b > 120*a {
		fail(a, b)
	}'''),
 dict(id='r04-v2-refused-trail', property='R04',
  needs='very many refused writes in one process, seen by the memory in use',
  breaks='a record of every refused write is kept for ever',
  edits=[('v2/buffer.go', '''	if exceeds(off, int64(len(data)), 1, b.cap) {

		panic(BufferOverwriteError)

	}
''', '''	if exceeds(off, int64(len(data)), 1, b.cap) {

		b.trail = append(b.trail, off)
		panic(BufferOverwriteError)

	}
'''), ('v2/buffer.go', '''type Buffer struct {
''', '''type Buffer struct {
	trail []int64 // refused writes

''')],
  demo=HS.replace('"os"', '"os"\n\t"runtime"') % '''	b := v2.NewBuffer(make([]byte, 4))
	var m0, m1 runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&m0)
	for i := 0; i < 3000000; i++ {
		func() {
			defer func() { recover() }()
			b.WriteBytes(2, []byte{1, 2, 3})
		}()
	}
	runtime.GC()
	runtime.ReadMemStats(&m1)
	runtime.KeepAlive(b)
	if m1.HeapAlloc > m0.HeapAlloc+10<<20 {
		fail(m1.HeapAlloc - m0.HeapAlloc)
	}'''),
 dict(id='p01-v2-refused-counter', property='P01', race=True,
  needs='two goroutines whose v2 sequential byte reads are both refused',
  breaks='refusals are counted after the lock has been released',
  edits=[('v2/buffer.go', '''	return b.readbyte(off)

}
''', '''	ok := false
	defer func() {

		if !ok {

			b.refused++

		}

	}()
	data := b.readbyte(off)
	ok = true
	return data

}
'''), ('v2/buffer.go', '''type Buffer struct {
''', '''type Buffer struct {
	refused int

''')],
  demo=HSY % '''	b := v2.NewBuffer(make([]byte, 4))
	var w sync.WaitGroup
	for i := 0; i < 2; i++ {
		w.Add(1)
		go func() {
			defer w.Done()
			for k := 0; k < 1000; k++ {
				func() {
					defer func() { recover() }()
					b.ReadByte(9)
				}()
			}
		}()
	}
	w.Wait()'''),
 dict(id='g02-repeat-elsewhere', property='G02',
  needs='two templates of one directory that contain the same directive (for two packages, or build variants)',
  breaks='the directive is only expanded in one of them',
  edits=[('generation/complex.go', '''	for name := range files {
''', '''	done := map[string]string{}
	for name := range files {
'''), ('generation/complex.go', '''			/* argument verification */
''', '''			if first, ok := done[string(comment)]; ok && first != name {
				fmt.Println("! already generated in", first)
				return []byte("// generated elsewhere")
			}
			done[string(comment)] = name

			/* argument verification */
''')],
  sh=GEN + '''for f in a b; do printf 'package t\\n\\n//generator:complex Buffer Read U 16 LE\\n' > "$d/t/_$f.go"; done
"$d/gen" -directory "$d/t" -generation complex > /dev/null || exit 3
for f in a b; do grep -q 'func (b \\*Buffer) ReadU16LE(' "$d/t/$f.generated.go" || { echo "$f: not expanded"; exit 1; }; done
'''),
 dict(id='l01-v2-total-uint16', property='L01',
  needs='creating a v2 Buffer from several slices of 65536 bytes or more together',
  breaks='the total is kept in 16 bits and the contents are cut off',
  edits=[('v2/buffer.go', '''		for _, s := range slices {

			buf.buf = append(buf.buf, s...)

		}
''', '''		var total uint16
		for _, s := range slices {

			total += uint16(len(s))

		}
		buf.buf = make([]byte, total)
		at := 0
		for _, s := range slices {

			at += copy(buf.buf[at:], s)

		}
''')],
  demo=HS % '''	b := v2.NewBuffer(make([]byte, 40000), make([]byte, 40000))
	if b.Capacity() != 80000 {
		fail(b.Capacity())
	}'''),
 dict(id='c03-v1-order-by-name', property='C03',
  needs='a v1 typed 16-bit read with a byte order of the caller that goes by the name of a predefined one (one that embeds it, say)',
  breaks='the predefined order is used instead',
  edits=[('v1/buffer.go', '''			idata[i] = endian.Uint16(data[i*2 : (i+1)*2])

		}
		return idata
''', '''			if endian.String() == "LittleEndian" {

				idata[i] = uint16(data[i*2]) | uint16(data[i*2+1])<<8
				continue

			}
			idata[i] = endian.Uint16(data[i*2 : (i+1)*2])

		}
		return idata
''')],
  demo=HB.replace('func main()', '''type swapped struct{ binary.ByteOrder }

func (swapped) Uint16(b []byte) uint16 { return binary.BigEndian.Uint16(b) ^ 0xFFFF }

func main()''') % '''	b := v1.NewBuffer([]byte{1, 2})
	if v := b.ReadComplex(0, 1, v1.Unsigned16, swapped{binary.LittleEndian}).([]uint16)[0]; v != 0xFEFD {
		fail(v)
	}'''),
 dict(id='p02-v1-grow-snapshot', property='P02',
  needs='two goroutines growing one v1 buffer, the second between the two steps of the first',
  breaks='the size is set from what it was before, and one of the growths is lost',
  edits=[('v1/buffer.go', '''	b.Lock()
	defer b.Unlock()

	b.buf = append(b.buf, make([]byte, n)...)
	b.cap = int64(len(b.buf))
''', '''	b.Lock()
	size := b.cap
	b.Unlock()

	// made without keeping others from using the buffer
	fresh := make([]byte, n)

	b.Lock()
	defer b.Unlock()

	b.buf = append(b.buf[:size], fresh...)
	b.cap = int64(len(b.buf))
''')],
  demo=HSY % '''	for try := 0; try < 3000; try++ {
		b := v1.NewBuffer()
		var w sync.WaitGroup
		for i := 0; i < 4; i++ {
			w.Add(1)
			go func() {
				defer w.Done()
				for k := 0; k < 20; k++ {
					b.Grow(500)
				}
			}()
		}
		w.Wait()
		if b.Capacity() != 40000 {
			fail(b.Capacity())
		}
	}'''),
]
