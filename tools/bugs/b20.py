import os, runpy
D = os.path.dirname(os.path.abspath(__file__))
B4 = runpy.run_path(os.path.join(D, 'b4.py'))
HS, GEN, REGEN, RM = B4['HS'], B4['GEN'], B4['REGEN'], B4['RM']
HR = HS.replace('"os"', '"os"\n\t"runtime"')
BUGS = [
 dict(id='b01-v3-next-bit-held', property='B01', regen=True,
  needs='flipping bits of a v3 Buffer one after another, with one of them changed by position in between',
  breaks='the byte under the bit cursor is held while FlipBitNext walks through it, and other changes to it are undone',
  edits=[('v3/_buffer.go', '''	bcap int64
}
''', '''	bcap int64
	held byte
	mine int64
}
'''), ('v3/_buffer.go', '''	b.FlipBit(b.boff)
	b.SeekBit(1, true)

''', '''	p := b.boff
	if q := p / 8; p >= 0 && p < b.bcap && p%8 != 0 && b.mine == p {

		b.held ^= 1 << uint(7-(p%8))
		b.buf[q] = b.held

	} else {

		b.FlipBit(p)
		b.held = b.buf[p/8]

	}
	b.SeekBit(1, true)
	b.mine = b.boff

''')],
  demo=HS % '''	b := v3.NewBuffer([]byte{0})
	b.FlipBitNext()
	b.SetBit(7)
	b.FlipBitNext()
	if b.Bytes()[0] != 0xC1 {
		fail("the byte is", b.Bytes()[0])
	}'''),
 dict(id='c04-v2-scratch-read', property='C04',
  needs='two short raw reads of a v2 Buffer, the first of which is looked at after the second',
  breaks='short reads are handed out from one scratch area, so a read changes what an earlier one yielded',
  edits=[('v2/buffer.go', '''	bcap int64

	// cursor is held''', '''	bcap int64

	scratch [8]byte

	// cursor is held'''),
   ('v2/buffer.go', '''	return b.buf[off : off+n]

''', '''	if n > 0 && n <= int64(len(b.scratch)) {

		copy(b.scratch[:n], b.buf[off:off+n])
		return b.scratch[:n]

	}
	return b.buf[off : off+n]

''')],
  demo=HS % '''	b := v2.NewBuffer([]byte{1, 2, 3, 4})
	x := b.ReadBytes(0, 2)
	y := b.ReadBytes(2, 2)
	if x[0] != 1 || x[1] != 2 || y[0] != 3 || y[1] != 4 {
		fail("read", x, "and", y)
	}'''),
 dict(id='l04-v3-refresh-seen', property='L04', regen=True,
  needs='resetting a v3 Buffer and growing it to exactly the size it had before',
  breaks='the statistics are not recomputed when the size is the one last seen, and a reset does not count as seen',
  edits=[('v3/_buffer.go', '''	bcap int64
}
''', '''	bcap int64
	seen int64
}
'''), ('v3/_buffer.go', '''	b.cap = int64(len(b.buf))
	b.bcap = b.cap * 8

''', '''	if n := int64(len(b.buf)); n != b.seen {

		b.cap = n
		b.bcap = n * 8
		b.seen = n

	}

''')],
  demo=HS % '''	b := v3.NewBuffer([]byte{1, 2, 3})
	b.Reset()
	b.Grow(3)
	if b.ByteCapacity() != int64(len(b.Bytes())) {
		fail("size", b.ByteCapacity(), "with", len(b.Bytes()), "bytes")
	}'''),
 dict(id='s04-v3-mini-seek-nowhere', property='S04', regen=True,
  needs='a sequential transfer of no bytes by a v3 MiniBuffer whose two cursors are apart',
  breaks='a relative seek by nothing brings the byte cursor to the bit cursor',
  edits=[('v3/_minibuf.go', '''	if relative {

		b.off += off

''', '''	if relative {

		if off == 0 {

			b.AlignByte()
			return

		}
		b.off += off

''')],
  demo=HS % '''	var b *v3.MiniBuffer
	v3.NewMiniBuffer(&b, make([]byte, 8))
	b.SeekByte(3, false)
	b.WriteBytesNext(nil)
	var off int64
	b.ByteOffset(&off)
	if off != 3 {
		fail("the cursor is at", off)
	}'''),
 dict(id='s01-v3-readbytes-verified', property='S01', regen=True,
  needs='reading bytes of a v3 Buffer that a truncation on the right removed after they were read before',
  breaks='the end of the range found valid last is remembered, and truncation does not lower it',
  edits=[('v3/_buffer.go', '''	bcap int64
}
''', '''	bcap int64
	good int64
}
'''), ('v3/_buffer.go', '''func (b *Buffer) ReadBytes(off, n int64) []byte {

''', '''func (b *Buffer) ReadBytes(off, n int64) []byte {

	if off >= 0 && n > 0 && off < b.good && n <= b.good-off {

		return b.buf[off : off+n]

	}

'''), ('v3/_buffer.go', '''		panic(BufferUnderreadError)

	}

	return b.buf[off : off+n]

''', '''		panic(BufferUnderreadError)

	}

	b.good = off + n
	return b.buf[off : off+n]

'''), ('v3/_buffer.go', '''	b.buf = b.buf[n:b.cap]
	b.Refresh()
''', '''	b.buf, b.good = b.buf[n:b.cap], 0
	b.Refresh()
'''), ('v3/_buffer.go', '''	b.buf = b.buf[0:0]
''', '''	b.buf, b.good = b.buf[0:0], 0
''')],
  demo=HS % '''	b := v3.NewBuffer([]byte{1, 2, 3, 4})
	b.ReadBytes(0, 4)
	b.TruncateRight(2)
	defer func() {
		if recover() != v3.BufferOverreadError {
			fail("reading removed bytes was not refused")
		}
	}()
	b.ReadBytes(1, 3)'''),
 dict(id='x01-v2-readbits-window', property='X01',
  needs='reading 58 and more bits of a v2 Buffer at a position inside a byte, at least nine bytes before the end',
  breaks='the field is cut out of a window of eight bytes, which it may stick out of',
  edits=[('v2/buffer.go', '''		return

	}
	{
	read_loop:
		out = (out << uint64(1)) | uint64(b.getbit(off+i))
''', '''		return

	}
	if p := off / 8; n > 32 && n <= 64 && off >= 0 && p+9 <= b.cap {

		for j := int64(0); j < 8; j++ {

			out = (out << 8) | uint64(b.buf[p+j])

		}
		out = (out << uint64(off%8)) >> uint64(64-n)
		return

	}
	{
	read_loop:
		out = (out << uint64(1)) | uint64(b.getbit(off+i))
''')],
  demo=HS % '''	d := make([]byte, 16)
	for i := range d {
		d[i] = 0xFF
	}
	if v := v2.NewBuffer(d).ReadBits(3, 64); v != 1<<64-1 {
		fail("read", v)
	}'''),
 dict(id='m02-v3-finalized-storage', property='M02', regen=True,
  needs='a v3 Buffer of several slices that is no longer referred to and collected while its contents slice is still in use, and another buffer created afterwards',
  breaks='the storage of a collected buffer is used again although its contents were handed out',
  edits=[('v3/_buffer.go', '''import "unsafe"
''', '''import (
	"runtime"
	"sync"
	"unsafe"
)

var spare sync.Pool
'''), ('v3/_buffer.go', '''	default:
		var (
			i = int64(0)
			n = int64(len(slices))
		)
		{
		append_loop:
''', '''	default:
		if p, _ := spare.Get().(*[]byte); p != nil {

			buf.buf = (*p)[:0]

		}
		runtime.SetFinalizer(buf, func(b *Buffer) {

			if p := b.buf; cap(p) > 0 {

				spare.Put(&p)

			}

		})
		var (
			i = int64(0)
			n = int64(len(slices))
		)
		{
		append_loop:
''')],
  demo=HR % '''	var held [][]byte
	for round := 0; round < 50; round++ {
		func() {
			b := v3.NewBuffer([]byte{byte(round), 2}, []byte{3, 4})
			held = append(held, b.Bytes())
		}()
		runtime.GC()
		time.Sleep(2 * time.Millisecond)
	}
	for i, h := range held {
		if len(h) != 4 || h[0] != byte(i) {
			fail("the contents of buffer", i, "have become", h)
		}
	}'''),
 dict(id='g01-template-reset-bits', property='G01',
  needs='regenerating the third version, then resetting a Buffer whose bit cursor has moved',
  breaks='the template of Buffer no longer resets the bit cursor, although the shipped code does',
  edits=[('v3/_buffer.go', '''	b.buf = b.buf[0:0]
	b.off = 0x00
	b.boff = 0x00
''', '''	b.buf = b.buf[0:0]
	b.off = 0x00
''')],
  sh=REGEN, files={'demo.go': RM % '''	b := v3.NewBuffer(make([]byte, 8))
	b.SeekBit(5, false)
	b.Reset()
	if b.BitOffset() != 0 {
		fail("the bit cursor is at", b.BitOffset())
	}'''}),
]
