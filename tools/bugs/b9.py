import os, runpy
D = os.path.dirname(os.path.abspath(__file__))
HS = runpy.run_path(os.path.join(D, 'b4.py'))['HS']
HB = HS.replace('"os"', '"encoding/binary"\n\t"os"')
BUGS = [
 dict(id='m02-v1-detach-65536', property='M02',
  needs='65536 byte writes to one v1 Buffer while a slice of its contents is in use',
  breaks='a write count of 16 bits starts over and the buffer moves to a storage of its own size; the slice of its contents shows nothing any more',
  edits=[('v1/buffer.go', '''	copy(b.buf[off:], data)

}

// writeComplex''', '''	if b.writes++; b.writes == 0 {

		b.buf = append(make([]byte, 0, len(b.buf)), b.buf...)

	}
	copy(b.buf[off:], data)

}

// writeComplex'''), ('v1/buffer.go', '''type Buffer struct {
''', '''type Buffer struct {
	writes uint16

''')],
  demo=HS % '''	d := make([]byte, 8)
	b := v1.NewBuffer(d)
	w := b.Bytes()
	for i := 0; i < 70000; i++ {
		b.WriteByte(3, byte(i))
		if w[3] != byte(i) || d[3] != byte(i) {
			fail("not a window any more after", i)
		}
	}'''),
 dict(id='l03-v3-truncateleft-reclaim', property='L03', regen=True,
  needs='more than a megabyte truncated on the left of one v3 Buffer over its life, the last time leaving a length that is not a multiple of eight',
  breaks='the storage is reclaimed in whole words and the last bytes read as zero',
  edits=[(f, """	b.buf = b.buf[n:b.cap]
""", """	b.buf = b.buf[n:b.cap]
	if b.dropped += n; b.dropped > 1<<20 {

		tmp := make([]byte, len(b.buf))
		for i := 0; i+8 <= len(tmp); i += 8 {

			copy(tmp[i:i+8], b.buf[i:])

		}
		b.buf, b.dropped = tmp, 0

	}
""") for f in ('v3/_buffer.go', 'v3/buffer.generated.go')] + [(f, """type Buffer struct {
""", """type Buffer struct {
	dropped int64

""") for f in ('v3/_buffer.go', 'v3/buffer.generated.go')],
  demo=HS % """	b := v3.NewBuffer(make([]byte, 100))
	for i := 0; i < 30000; i++ {
		for k := int64(0); k < b.ByteCapacity(); k++ {
			b.WriteByte(k, byte(k+1))
		}
		b.TruncateLeft(53)
		for k := int64(0); k < b.ByteCapacity(); k++ {
			if b.ReadByte(k) != byte(k+54) {
				fail("byte", k, "after", i)
			}
		}
		b.Grow(53)
	}"""),
 dict(id='p03-v1-complex-wrong-type', property='P03',
  needs='a v1 typed write whose data is not a slice of the named element size, then anything else on the same buffer',
  breaks='the lock taken to look at the data is still held after the panic',
  edits=[('v1/buffer.go', """		adata := idata.([]uint32)
		data = make([]byte, 4*len(adata))
		for""", """		b.Lock()
		adata := append([]uint32(nil), idata.([]uint32)...)
		b.Unlock()
		data = make([]byte, 4*len(adata))
		for""")],
  demo=HB % """	b := v1.NewBuffer(make([]byte, 16))
	func() {
		defer func() { recover() }()
		b.WriteComplex(0, []uint64{1}, v1.Unsigned32, binary.LittleEndian)
	}()
	done := make(chan bool)
	go func() { b.ReadByte(0); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		fail("deadlock")
	}"""),
 dict(id='p04-v3-lazy-masks', property='P04', race=True, regen=True,
  needs='two goroutines that set a bit of their own v3 buffers, neither preceded by any use of the package',
  breaks='a table of masks shared by all buffers is filled at the first use, without synchronisation',
  edits=[(f, """	b.buf[off/8] |= (1 << uint(7-(off%8)))

}

// SetBitNext sets""", """	b.buf[off/8] |= mask(off)

}

"""+extra+"""// SetBitNext sets""") for f, extra in (('v3/_buffer.go', """// masks holds the mask of each bit of a byte
var masks [8]byte

func mask(off int64) byte {

	if masks[7] == 0 {

		for i := range masks {

			masks[i] = 0x80 >> uint(i)

		}

	}
	return masks[off%8]

}

"""),)],
  demo=HS % """	start := make(chan bool)
	var w sync.WaitGroup
	for g := 0; g < 8; g++ {
		w.Add(1)
		go func() {
			defer w.Done()
			b := v3.NewBuffer(make([]byte, 1))
			<-start
			b.SetBit(3)
			if b.ReadByte(0) != 0x10 {
				fail("wrong bit")
			}
		}()
	}
	time.Sleep(100 * time.Millisecond)
	close(start)
	w.Wait()"""),
 dict(id='p02-v2-writebytesnext-reserve', property='P02', repeat=1,
  needs='three clients: one in the middle of a sequential write, a second that finishes a sequential write behind it, and a third that then reads the place the first was given',
  breaks='the place is reserved first and written after the cursor is released, so a finished later write can be seen before the earlier one',
  edits=[('v2/buffer.go', """	b.write(b.off, data)
	b.seek(int64(len(data)), true)
""", """	off := b.off
	b.Lock()
	fits := off >= 0 && !exceeds(off, int64(len(data)), 1, b.cap)
	b.Unlock()
	if !fits {

		b.write(off, data)

	}
	b.seek(int64(len(data)), true)
	b.cursor.Unlock()
	defer b.cursor.Lock()
	b.write(off, data)
""")],
  demo=HS % """	for try := 0; try < 300; try++ {
		const writers, each = 32, 100
		b := v2.NewBuffer(make([]byte, writers*each))
		var w sync.WaitGroup
		for g := 0; g < writers; g++ {
			w.Add(1)
			go func() {
				defer w.Done()
				for i := 0; i < each; i++ {
					b.WriteBytesNext([]byte{1})
				}
			}()
		}
		done := make(chan bool)
		go func() { w.Wait(); close(done) }()
		for {
			d := b.ReadU64LE(0, writers*each/8)
			gap := false
			for _, x := range d {
				for k := uint(0); k < 64; k += 8 {
					if x>>k&0xFF == 0 {
						gap = true
					} else if gap {
						fail("written behind a place that has not been written")
					}
				}
			}
			select {
			case <-done:
			default:
				continue
			}
			break
		}
	}"""),
 dict(id='r01-v3-grow-fixed-32m', property='R01', regen=True,
  needs='growing a v3 Buffer in small steps beyond 32 MiB',
  breaks='large buffers get a fixed megabyte of spare room, so the relocations are linear in the size',
  edits=[(f, """	tmp := make([]byte, b.cap+n, (int64(cap(b.buf))+n)*2)
""", """	room := (int64(cap(b.buf)) + n) * 2
	if b.cap >= 1<<25 {

		room = b.cap + n + 1<<20

	}
	tmp := make([]byte, b.cap+n, room)
""") for f in ('v3/_buffer.go', 'v3/buffer.generated.go')],
  demo=HS % """	b := v3.NewBuffer(make([]byte, 1<<25))
	moves, p := 0, &b.Bytes()[0]
	for b.ByteCapacity() < 1<<26 {
		b.Grow(65536)
		if q := &b.Bytes()[0]; p != q {
			moves, p = moves+1, q
		}
	}
	if moves > 8 {
		fail(moves, "relocations for one doubling")
	}"""),
]
