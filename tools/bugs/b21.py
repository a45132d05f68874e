import os, runpy
D = os.path.dirname(os.path.abspath(__file__))
B4 = runpy.run_path(os.path.join(D, 'b4.py'))
HS = B4['HS']
BUGS = [
 dict(id='p02-v1-flip-striped', property='P02', repeat=3,
  needs='one goroutine flipping a bit of a v1 buffer while another changes a neighbouring bit some other way',
  breaks='flips are guarded by locks of their own, one per group of bytes, that the other bit operations do not take',
  edits=[('v1/buffer.go', '''	sync.Mutex
}
''', '''	sync.Mutex

	// flips guards the bytes against other flips
	flips [16]sync.Mutex
}
'''), ('v1/buffer.go', '''func (b *Buffer) flipbit(off int64) {

	b.Lock()
	defer b.Unlock()

	if off > (b.bcap - 1) {

		panic(BufferOverwriteError)

	}

	if off < 0x00 {

		panic(BufferUnderwriteError)

	}

	b.buf[off/8] ^= (1 << uint(7-(off%8)))
''', '''func (b *Buffer) flipbit(off int64) {

	b.Lock()
	buf, size := b.buf, b.bcap
	b.Unlock()

	if off > (size - 1) {

		panic(BufferOverwriteError)

	}

	if off < 0x00 {

		panic(BufferUnderwriteError)

	}

	b.flips[off/8%16].Lock()
	defer b.flips[off/8%16].Unlock()

	buf[off/8] ^= (1 << uint(7-(off%8)))
''')],
  demo=HS % '''	b := v1.NewBuffer([]byte{0})
	var wg sync.WaitGroup
	for round := 0; round < 200; round++ {
		wg.Add(2)
		go func() {
			defer wg.Done()
			for i := 0; i < 10001; i++ {
				b.FlipBit(0)
			}
		}()
		go func() {
			defer wg.Done()
			for i := 0; i < 10001; i++ {
				b.SetBit(7, byte(i&1))
				if b.ReadBit(7) != byte(i&1) {
					fail("a bit that was set reads otherwise")
				}
			}
		}()
		wg.Wait()
		if got := b.ReadBit(0); got != byte((round+1)&1) {
			fail("a flip was lost")
		}
	}'''),
 dict(id='p03-v2-grow-million', property='P03',
  needs='growing a v2 buffer by more than a mebibyte at once',
  breaks='the sizes are then refreshed through the method that takes the lock held',
  edits=[('v2/buffer.go', '''	b.buf = append(b.buf, make([]byte, n)...)
	b.cap = int64(len(b.buf))
	b.bcap = b.cap * 8

''', '''	if n > 1<<20 {

		room := make([]byte, len(b.buf), int64(len(b.buf))+n)
		copy(room, b.buf)
		b.buf = room[:int64(len(b.buf))+n]
		b.refresh()
		return

	}
	b.buf = append(b.buf, make([]byte, n)...)
	b.cap = int64(len(b.buf))
	b.bcap = b.cap * 8

''')],
  demo=HS % '''	time.AfterFunc(20*time.Second, func() { fail("growing never ends") })
	v2.NewBuffer([]byte{1}).Grow(3 << 20)'''),
 dict(id='p01-v2-grow-populate', property='P01', race=True,
  needs='growing a v2 buffer by 256 KiB or more and using the added bytes right afterwards',
  breaks='a helper goroutine goes through the added pages after the lock is released',
  edits=[('v2/buffer.go', '''	b.buf = append(b.buf, make([]byte, n)...)
	b.cap = int64(len(b.buf))
	b.bcap = b.cap * 8

''', '''	b.buf = append(b.buf, make([]byte, n)...)
	if n >= 1<<18 {

		added := b.buf[b.cap:]
		go func() {

			for i := 0; i < len(added); i += 4096 {

				added[i] |= 0

			}

		}()

	}
	b.cap = int64(len(b.buf))
	b.bcap = b.cap * 8

''')],
  demo=HS % '''	b := v2.NewBuffer([]byte{1})
	for i := 0; i < 20; i++ {
		b.Grow(1 << 18)
		b.SetAllBits()
	}
	time.Sleep(50 * time.Millisecond)'''),
 dict(id='p02-v2-writenext-halves', property='P02', repeat=3,
  needs='two goroutines writing more than 1024 bytes sequentially to one v2 buffer at the same time',
  breaks='long sequential writes are made in two steps, each of which takes the cursor for itself',
  edits=[('v2/buffer.go', '''	b.cursor.Lock()
	defer b.cursor.Unlock()

	b.write(b.off, data)
	b.seek(int64(len(data)), true)
''', '''	if h := len(data) / 2; h >= 512 && b.After() >= int64(len(data)) {

		b.WriteBytesNext(data[:h])
		b.WriteBytesNext(data[h:])
		return

	}

	b.cursor.Lock()
	defer b.cursor.Unlock()

	b.write(b.off, data)
	b.seek(int64(len(data)), true)
''')],
  demo=HS % '''	const n, k = 2000, 200
	for round := 0; round < 50; round++ {
		b := v2.NewBuffer(make([]byte, n*k+1))
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				d := make([]byte, n)
				for i := range d {
					d[i] = byte(g + 1)
				}
				for i := 0; i < k/8; i++ {
					b.WriteBytesNext(d)
				}
			}()
		}
		wg.Wait()
		all := b.Bytes()
		for i := 0; i < n*k; i += n {
			for j := i; j < i+n; j++ {
				if all[j] != all[i] {
					fail("a sequential write was torn")
				}
			}
		}
	}'''),
]
