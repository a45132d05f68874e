import os, runpy
D = os.path.dirname(os.path.abspath(__file__))
B4 = runpy.run_path(os.path.join(D, 'b4.py'))
HS = B4['HS']
HB = HS.replace('"os"', '"encoding/binary"\n\t"os"')
HU = HS.replace('"os"', '"os"\n\t"runtime/debug"\n\t"syscall"')
BUGS = [
 dict(id='a01-v3-mini-f32-out-pair', property='A01',
  needs='reading an odd number of little-endian floats into a slice that ends at the end of its memory',
  breaks='results are stored in pairs, the last of them behind the destination',
  edits=[('v3/minibuf.generated.go', '''		u = (uint32(b.buf[off+(i*4)]) | uint32(b.buf[off+(1+(i*4))])<<8 | uint32(b.buf[off+(2+(i*4))])<<16 | uint32(b.buf[off+(3+(i*4))])<<24)
		(*out)[i] = *(*float32)(unsafe.Pointer(&u))
		i++
''', '''		u = (uint32(b.buf[off+(i*4)]) | uint32(b.buf[off+(1+(i*4))])<<8 | uint32(b.buf[off+(2+(i*4))])<<16 | uint32(b.buf[off+(3+(i*4))])<<24)
		if i&1 == 0 && off+(i*4)+8 <= int64(len(b.buf)) {
			v := (uint32(b.buf[off+(4+(i*4))]) | uint32(b.buf[off+(5+(i*4))])<<8 | uint32(b.buf[off+(6+(i*4))])<<16 | uint32(b.buf[off+(7+(i*4))])<<24)
			*(*[2]uint32)(unsafe.Pointer(&(*out)[i])) = [2]uint32{u, v}
			i += 2
			if i < n {
				goto read_loop
			}
			return
		}
		(*out)[i] = *(*float32)(unsafe.Pointer(&u))
		i++
''')],
  demo=HS % '''	var b *v3.MiniBuffer
	v3.NewMiniBuffer(&b, []byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16})
	room := []float32{-1, -1, -1, -1}
	out := room[:3]
	b.ReadF32LE(&out, 0, 3)
	if room[3] != -1 {
		fail("behind the destination: %v", room[3])
	}'''),
 dict(id='c03-v1-order-probe', property='C03',
  needs='a byte order whose 16-bit form is big-endian and whose wider forms are not',
  breaks='the order is recognised by its 16-bit form and replaced by the predefined one',
  edits=[('v1/minibuf.go', '''func (b *MiniBuffer) writeComplex(off int64, idata interface{}, size IntegerSize, endian binary.ByteOrder) {
''', '''func (b *MiniBuffer) writeComplex(off int64, idata interface{}, size IntegerSize, endian binary.ByteOrder) {

	// the predefined order is faster than a user's equivalent one
	if endian != binary.LittleEndian && endian.Uint16([]byte{0x01, 0x02}) == 0x0102 {

		endian = binary.BigEndian

	}
''')],
  demo=(HB % '''	b := make([]byte, 8)
	var m *v1.MiniBuffer
	v1.NewMiniBuffer(&m, b)
	m.WriteComplex(0, []uint32{0x01020304}, v1.Unsigned32, middle{binary.BigEndian})
	if b[0] != 3 || b[1] != 4 || b[2] != 1 || b[3] != 2 {
		fail("%v", b)
	}''') + '''
// middle stores the less significant half first.
type middle struct{ binary.ByteOrder }

func (middle) PutUint32(b []byte, v uint32) {
	binary.BigEndian.PutUint16(b, uint16(v))
	binary.BigEndian.PutUint16(b[2:], uint16(v>>16))
}
'''),
 dict(id='n01-v2-mini-u16next-narrow', property='N01',
  needs='a sequential write of 32768 or more 16-bit values to the v2 MiniBuffer',
  breaks='the cursor advances by the amount modulo 2^16',
  edits=[('v2/minibuf.go', '''	b.writeU16LE(b.off, data)
	b.seek(int64(len(data))*2, true)
''', '''	b.writeU16LE(b.off, data)
	b.seek(int64(uint16(len(data)*2)), true)
''')],
  demo=HS % '''	var b *v2.MiniBuffer
	v2.NewMiniBuffer(&b, make([]byte, 70000))
	b.WriteU16LENext(make([]uint16, 32769))
	var o int64
	b.Offset(&o)
	if o != 65538 {
		fail("%d", o)
	}'''),
 dict(id='n02-v3-truncateright-clamp', property='N02', regen=True,
  needs='truncating a v3 Buffer on the right to before its byte cursor',
  breaks='the byte cursor is moved to the new end',
  edits=[('v3/_buffer.go', '''	b.buf = b.buf[:b.cap-n]
''', '''	b.buf = b.buf[:b.cap-n]
	if b.off > int64(len(b.buf))+1 {

		b.off = int64(len(b.buf))

	}
''')],
  demo=HS % '''	b := v3.NewBuffer(make([]byte, 20))
	b.SeekByte(15, false)
	b.TruncateRight(10)
	if b.ByteOffset() != 15 {
		fail("%d", b.ByteOffset())
	}'''),
 dict(id='r02-v3-f64be-temp', property='R02',
  needs='reading more than 64 big-endian 64-bit floats from a v3 Buffer at once, allocations counted',
  breaks='bit patterns are collected in a temporary slice first',
  edits=[('v3/buffer.generated.go', '''		u = (uint64(b.buf[off+(7+(i*8))]) | uint64(b.buf[off+(6+(i*8))])<<8 | uint64(b.buf[off+(5+(i*8))])<<16 | uint64(b.buf[off+(4+(i*8))])<<24 | uint64(b.buf[off+(3+(i*8))])<<32 | uint64(b.buf[off+(2+(i*8))])<<40 | uint64(b.buf[off+(1+(i*8))])<<48 | uint64(b.buf[off+(i*8)])<<56)
		out[i] = *(*float64)(unsafe.Pointer(&u))
''', '''		if n > 64 {
			for i, u := range b.ReadU64BE(off, n) {
				out[i] = *(*float64)(unsafe.Pointer(&u))
			}
			return
		}
		u = (uint64(b.buf[off+(7+(i*8))]) | uint64(b.buf[off+(6+(i*8))])<<8 | uint64(b.buf[off+(5+(i*8))])<<16 | uint64(b.buf[off+(4+(i*8))])<<24 | uint64(b.buf[off+(3+(i*8))])<<32 | uint64(b.buf[off+(2+(i*8))])<<40 | uint64(b.buf[off+(1+(i*8))])<<48 | uint64(b.buf[off+(i*8)])<<56)
		out[i] = *(*float64)(unsafe.Pointer(&u))
''')],
  demo=HS.replace('"os"', '"os"\n\t"testing"') % '''	b := v3.NewBuffer(make([]byte, 800))
	if n := testing.AllocsPerRun(100, func() { b.ReadF64BE(0, 100) }); n > 1.5 {
		fail("%v allocations", n)
	}'''),
 dict(id='r03-v2-mini-seek-prefetch', property='R03',
  needs='moving the cursor of a buffer whose storage is populated lazily',
  breaks='the byte at the cursor is fetched ahead of its use',
  edits=[('v2/minibuf.go', '''	if relative {

		b.off += off

	} else {

		b.off = off

	}

}
''', '''	if relative {

		b.off += off

	} else {

		b.off = off
		if off > 4096 && off < b.cap && b.buf[off] == 0 {

			// get the bytes at the cursor into the cache
			_ = append([]byte(nil), b.buf[off:off+1]...)

		}

	}

}
''')],
  demo=HU % '''	m, err := syscall.Mmap(-1, 0, 1<<20, syscall.PROT_NONE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		os.Exit(0)
	}
	debug.SetPanicOnFault(true)
	defer func() {
		if x := recover(); x != nil {
			fail("%v", x)
		}
	}()
	var b *v2.MiniBuffer
	v2.NewMiniBuffer(&b, m)
	b.Seek(500000, false)'''),
 dict(id='l01-v1-mini-count-uint8', property='L01',
  needs='creating a v1 MiniBuffer from 256 slices or more',
  breaks='only the number of slices modulo 256 is taken over',
  edits=[('v1/minibuf.go', '''		for _, s := range slices {

			(*out).buf = append((*out).buf, s...)

		}
''', '''		for i, n := uint8(0), uint8(len(slices)); i < n; i++ {

			(*out).buf = append((*out).buf, slices[i]...)

		}
''')],
  demo=HS % '''	s := make([][]byte, 300)
	for i := range s {
		s[i] = []byte{byte(i)}
	}
	var b *v1.MiniBuffer
	v1.NewMiniBuffer(&b, s...)
	var o []byte
	b.Bytes(&o)
	if len(o) != 300 {
		fail("%d", len(o))
	}'''),
 dict(id='l02-v2-grow-chunks', property='L02',
  needs='growing a v2 buffer of more than a million bytes beyond its storage',
  breaks='the contents are taken over in blocks, and what is left behind the last whole block is not',
  edits=[('v2/buffer.go', '''	b.buf = append(b.buf, make([]byte, n)...)
	b.cap = int64(len(b.buf))
	b.bcap = b.cap * 8

}
''', '''	const block = 1 << 20
	if have := int64(len(b.buf)); have > block && n > 0 && have+n > int64(cap(b.buf)) {

		buf := make([]byte, have+n, have+n+have/4)
		for i := int64(0); i+block <= have; i += block {

			copy(buf[i:i+block], b.buf[i:i+block])

		}
		b.buf = buf

	} else {

		b.buf = append(b.buf, make([]byte, n)...)

	}
	b.cap = int64(len(b.buf))
	b.bcap = b.cap * 8

}
''')],
  demo=HS % '''	s := make([]byte, 1<<20+100)
	s[1<<20+50] = 7
	b := v2.NewBuffer(s)
	b.Grow(10)
	if b.Bytes()[1<<20+50] != 7 {
		fail("lost")
	}'''),
 dict(id='p04-v1-mini-shared-scratch', property='P04', race=True,
  needs='typed 32-bit writes to two v1 MiniBuffers from two goroutines at once',
  breaks='the element being encoded is kept in a variable of the package',
  edits=[('v1/minibuf.go', '''			tdata = []byte{0x00, 0x00, 0x00, 0x00}
''', '''			tdata = element[:]
'''), ('v1/minibuf.go', '''/* internal use methods */
''', '''/* internal use methods */

// element holds an element of 32 bits while it is encoded
var element [4]byte
''')],
  demo=HB % '''	var w sync.WaitGroup
	for i := 0; i < 4; i++ {
		w.Add(1)
		v := uint32(i) * 0x01010101
		go func() {
			defer w.Done()
			s := make([]byte, 4000)
			var b *v1.MiniBuffer
			v1.NewMiniBuffer(&b, s)
			d := make([]uint32, 1000)
			for k := range d {
				d[k] = v
			}
			for k := 0; k < 200; k++ {
				b.WriteComplex(0, d, v1.Unsigned32, binary.LittleEndian)
				for _, x := range s {
					if x != byte(v) {
						fail("mixed up")
					}
				}
			}
		}()
	}
	w.Wait()'''),
 dict(id='m01-v3-mini-readbits-stale', property='M01', regen=True,
  needs='a field of 16 to 31 bits read into a variable that is not zero, its upper half set',
  breaks='the upper half of the variable is kept',
  edits=[('v3/_minibuf.go', '''	*out = 0

	var (
		bout byte
''', '''	*out &^= 0xFFFFFFFF
	if n <= 0 {

		*out = 0

	}

	var (
		bout byte
'''),('v3/_minibuf.go', '''		*out = (*out << uint64(1)) | uint64(bout)
		i++
		if i < n {

			goto read_loop

		}
	}

}
''', '''		*out = (*out << uint64(1)) | uint64(bout)
		i++
		if i < n {

			goto read_loop

		}
	}
	if n < 16 {

		*out &= 1<<uint64(n) - 1

	}

}
''')],
  demo=HS % '''	var b *v3.MiniBuffer
	v3.NewMiniBuffer(&b, make([]byte, 20))
	u := ^uint64(0)
	b.ReadBits(&u, 3, 20)
	if u != 0 {
		fail("%x", u)
	}'''),
]
BUGS[3]['edits'] = [('v3/_buffer.go', '''	b.buf = b.buf[0x00 : b.cap-n]
	b.Refresh()
''', '''	b.buf = b.buf[0x00 : b.cap-n]
	b.Refresh()
	if b.off > b.cap+1 {

		b.off = b.cap

	}
''')]
