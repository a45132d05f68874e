import os, runpy
H = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'b1.py'))['H']
TRY = '''func try(f func()) (r any) {
	defer func() { r = recover() }()
	f()
	return
}

func main() {'''
HT = H.replace('func main() {', TRY)
BUGS = [
 dict(id='s01-v2-u32be-far-under', property='S01',
  needs='a v2 32-bit big-endian write at an offset below -2^31',
  breaks='such an offset is let through the bounds check and ends in a runtime index error instead of the underwrite error',
  edits=[('v2/buffer.go', '''func (b *Buffer) writeU32BE(off int64, data []uint32) {

	b.Lock()
	defer b.Unlock()

	if exceeds(off, int64(len(data)), 4, b.cap) {

		panic(BufferOverwriteError)

	}

	if off < 0x00 {''', '''func (b *Buffer) writeU32BE(off int64, data []uint32) {

	b.Lock()
	defer b.Unlock()

	if exceeds(off, int64(len(data)), 4, b.cap) {

		panic(BufferOverwriteError)

	}

	if int32(off>>1) < 0x00 {''')],
  demo=HT % '''	b := v2.NewBuffer(make([]byte, 8))
	if r := try(func() { b.WriteU32BE(-1<<33, []uint32{1}) }); r != v2.BufferUnderwriteError {
		fail(r)
	}'''),
 dict(id='s01-v3-clearbit-empty', property='S01', regen=True,
  needs='clearing a bit of an empty v3 buffer (for example after Reset)',
  breaks='the bounds check is skipped for an empty buffer, so a runtime error takes the place of the overwrite error',
  edits=[('v3/_buffer.go', '''func (b *Buffer) ClearBit(off int64) {

	if off > (b.bcap - 1) {''', '''func (b *Buffer) ClearBit(off int64) {

	if b.bcap > 0 && off > (b.bcap - 1) {''')],
  demo=HT % '''	b := v3.NewBuffer(make([]byte, 8))
	b.Reset()
	if r := try(func() { b.ClearBit(0) }); r != v3.BufferOverwriteError {
		fail(r)
	}'''),
 dict(id='s01-v3-readbits-tail', property='S01', regen=True,
  needs='a multi-bit read that begins inside the v3 buffer and ends behind it',
  breaks='the missing bits are read as zero instead of the read being refused',
  edits=[('v3/_buffer.go', '''	if off > (b.bcap - 1) {

		panic(BufferOverreadError)

	}

	if off < 0x00 {

		panic(BufferUnderreadError)

	}

	return (b.buf''', '''	if off > (b.bcap - 1) {

		panic(BufferOverreadError)

	}

	if off < 0x00 {

		panic(BufferUnderreadError)

	}

	return (b.buf'''), ] if False else [('v3/_buffer.go', '''		out = (out << uint64(1)) | uint64(b.ReadBit(off+i))
''', '''		if out = out << uint64(1); i == 0 || off+i < b.bcap {
			out |= uint64(b.ReadBit(off + i))
		}
''')],
  demo=HT % '''	b := v3.NewBuffer(make([]byte, 2))
	if r := try(func() { b.ReadBits(10, 7) }); r != v3.BufferOverreadError {
		fail(r)
	}'''),
 dict(id='s02-v3-setbits-tail', property='S02', regen=True,
  needs='a bit field write that is out of range by less than a byte, its last legal start being in the same byte',
  breaks='the bits that fit are written before the write is refused',
  edits=[('v3/_buffer.go', '''	if off > (b.bcap - n) {
''', '''	if off/8 > (b.bcap-n)/8 {
''')],
  demo=HT % '''	b := v3.NewBuffer(make([]byte, 2))
	if r := try(func() { b.SetBits(10, 127, 7) }); r != v3.BufferOverwriteError {
		fail(r)
	}
	if b.Bytes()[1] != 0 {
		fail(b.Bytes())
	}'''),
 dict(id='s02-v1-writebytesnext-seek', property='S02',
  needs='a refused sequential byte write followed by any use of the cursor',
  breaks='the cursor has moved although the write was refused',
  edits=[('v1/buffer.go', '''	b.write(b.off, data)
	b.seek(int64(len(data)), true)
''', '''	b.seek(int64(len(data)), true)
	b.write(b.off-int64(len(data)), data)
''')],
  demo=HT % '''	b := v1.NewBuffer(make([]byte, 2))
	try(func() { b.WriteBytesNext([]byte{1, 2, 3}) })
	if b.Offset() != 0 {
		fail(b.Offset())
	}'''),
 dict(id='s02-v3-truncateright-order', property='S02', regen=True,
  needs='truncating more bytes than a v3 buffer holds, and going on using it',
  breaks='the size is reduced before the slice operation fails',
  edits=[('v3/_buffer.go', '''	b.buf = b.buf[0x00 : b.cap-n]
	b.Refresh()
''', '''	b.cap -= n
	b.buf = b.buf[0x00:b.cap]
	b.bcap = b.cap * 8
''')],
  demo=HT % '''	b := v3.NewBuffer(make([]byte, 4))
	if r := try(func() { b.TruncateRight(5) }); r == nil {
		fail("not refused")
	}
	if b.ByteCapacity() != 4 {
		fail(b.ByteCapacity())
	}'''),
 dict(id='s03-v3-setall-spare', property='S03', regen=True,
  needs='setting all bits of a buffer whose storage continues behind its contents',
  breaks='bytes of the wrapped storage behind the contents are set too',
  edits=[('v3/_buffer.go', '''	set_loop:
		b.buf[i] = 0xFF
		i++
		if i < n {
''', '''	set_loop:
		copy(b.buf[i:cap(b.buf)], "\\xFF\\xFF\\xFF\\xFF\\xFF\\xFF\\xFF\\xFF")
		i += 8
		if i < n {
''')],
  demo=HT % '''	s := make([]byte, 16)
	b := v3.NewBuffer(s[:5])
	b.SetAllBits()
	for i := range s {
		if (s[i] == 0xFF) != (i < 5) {
			fail(s)
		}
	}'''),
 dict(id='s03-v1-write-alias', property='S03',
  needs='a whole-buffer byte write, followed by a change of the slice that was passed to it',
  breaks='the buffer takes over the storage of the data it is given',
  edits=[('v1/buffer.go', '''	if off < 0x00 {

		panic(BufferUnderwriteError)

	}

	copy(b.buf[off:], data)
''', '''	if off < 0x00 {

		panic(BufferUnderwriteError)

	} else if off == 0x00 && int64(len(data)) == b.cap && cap(data) == cap(b.buf) && b.cap > 16 {

		b.buf = data

	}

	copy(b.buf[off:], data)
''')],
  demo=HT % '''	b := v1.NewBuffer(make([]byte, 32))
	d := make([]byte, 32)
	b.WriteBytes(0, d)
	d[3] = 9
	if b.Bytes()[3] != 0 {
		fail(b.Bytes())
	}'''),
 dict(id='s04-v1-mini-setbits-zero', property='S04',
  needs='setting zero bits where the bit at the offset is one',
  breaks='a zero-length bit write clears one bit',
  edits=[('v1/minibuf.go', '''	for i := int64(0); i < n; i++ {

		b.setbit(off+i, byte((data>>uint64(n-i-1))&1))

	}
''', '''	for i := int64(0); ; {

		b.setbit(off+i, byte((data>>uint64(n-i-1))&1))
		i++

		if i >= n {

			break

		}

	}
''')],
  demo=HT % '''	d := []byte{0xFF, 0xFF}
	var b *v1.MiniBuffer
	v1.NewMiniBuffer(&b, d)
	b.SetBits(3, 0, 0)
	if d[0] != 0xFF {
		fail(d)
	}'''),
 dict(id='s04-v1-complexnext-zero', property='S04',
  needs='a sequential typed write of no 32-bit elements at the very end of the buffer',
  breaks='the cursor moves back by one although nothing is written',
  edits=[('v1/buffer.go', '''		b.seek(int64(len(data.([]uint32))*int(size)), true)
''', '''		if b.off == b.cap {

			b.off--

		}
		b.seek(int64(len(data.([]uint32))*int(size)), true)
''')],
  demo=HT.replace('"os"','"encoding/binary"\n\t"os"') % '''	b := v1.NewBuffer(make([]byte, 8))
	b.Seek(8, false)
	b.WriteComplexNext([]uint32{}, v1.Unsigned32, binary.BigEndian)
	if b.Offset() != 8 {
		fail(b.Offset())
	}'''),
 dict(id='l01-v2-mini-adopt-first', property='L01',
  needs='creating a v2 MiniBuffer from several slices, the first of which has spare capacity',
  breaks='the first slice is taken over and the others are appended into its spare capacity',
  edits=[('v2/minibuf.go', '''			(*out).buf = append((*out).buf, s...)
''', '''			if len((*out).buf) == 0 {

				(*out).buf = s
				continue

			}
			(*out).buf = append((*out).buf, s...)
''')],
  demo=HT % '''	s := []byte{1, 2, 3, 4}
	var b *v2.MiniBuffer
	v2.NewMiniBuffer(&b, s[:2], []byte{9})
	if s[2] != 3 {
		fail(s)
	}'''),
 dict(id='l01-v3-empty-middle', property='L01', regen=True,
  needs='creating a v3 buffer from several slices with an empty one among them',
  breaks='the slices behind an empty one are left out',
  edits=[('v3/_buffer.go', '''			buf.buf = append(buf.buf, slices[i]...)
			i++
			if i < n {
''', '''			buf.buf = append(buf.buf, slices[i]...)
			i++
			if i < n && (len(slices[i]) != 0 || i == 1) {
''')],
  demo=HT % '''	b := v3.NewBuffer([]byte{1}, []byte{2}, nil, []byte{3})
	if len(b.Bytes()) != 3 {
		fail(b.Bytes())
	}'''),
 dict(id='l02-v3-mini-grow-copycap', property='L02', regen=True,
  needs='growing a v3 MiniBuffer beyond spare capacity that holds old bytes',
  breaks='the old bytes of the spare capacity are carried over into the added bytes',
  edits=[('v3/_minibuf.go', '''	copy(tmp, b.buf)
''', '''	copy(tmp, b.buf[:cap(b.buf)])
''')],
  demo=HT % '''	var b *v3.MiniBuffer
	v3.NewMiniBuffer(&b, []byte{1, 2, 3, 4})
	b.TruncateRight(2)
	b.Grow(8)
	var c []byte
	b.Bytes(&c)
	if c[2] != 0 {
		fail(c)
	}'''),
 dict(id='l02-v1-mini-grow-cursor', property='L02',
  needs='growing a v1 MiniBuffer while its bit cursor stands at the very end',
  breaks='the bit cursor is moved along with the end',
  edits=[('v1/minibuf.go', '''	b.buf = append(b.buf, make([]byte, n)...)
	b.refresh()
''', '''	b.buf = append(b.buf, make([]byte, n)...)
	if b.boff == b.bcap && b.boff != 0 {

		b.boff = int64(len(b.buf)) * 8

	}
	b.refresh()
''')],
  demo=HT % '''	var b *v1.MiniBuffer
	v1.NewMiniBuffer(&b, []byte{1, 2})
	b.SeekBit(16, false)
	b.Grow(1)
	var o int64
	b.BitOffset(&o)
	if o != 16 {
		fail(o)
	}'''),
 dict(id='l03-v3-truncateleft-cursor', property='L03', regen=True,
  needs='truncating on the left by more than the byte cursor, with the bit cursor behind the start',
  breaks='the bit cursor is pulled along',
  edits=[('v3/_buffer.go', '''	b.buf = b.buf[n:b.cap]
	b.Refresh()
''', '''	b.buf = b.buf[n:b.cap]
	b.Refresh()
	if b.boff > b.bcap {
		b.boff = b.bcap
	}
''')],
  demo=HT % '''	b := v3.NewBuffer(make([]byte, 4))
	b.SeekBit(30, false)
	b.TruncateLeft(2)
	if b.BitOffset() != 30 {
		fail(b.BitOffset())
	}'''),
 dict(id='l03-v3-mini-reset-keep', property='L03', regen=True,
  needs='resetting a v3 MiniBuffer with a bit cursor, then using sequential bit access',
  breaks='the bit cursor survives the reset if the buffer is already empty',
  edits=[('v3/_minibuf.go', '''	b.buf = b.buf[0:0]
	b.off = 0x00
	b.boff = 0x00
''', '''	if len(b.buf) != 0 {
		b.boff = 0x00
	}
	b.buf = b.buf[0:0]
	b.off = 0x00
''')],
  demo=HT % '''	var b *v3.MiniBuffer
	v3.NewMiniBuffer(&b, []byte{1})
	b.TruncateLeft(1)
	b.SeekBit(5, false)
	b.Reset()
	var o int64
	b.BitOffset(&o)
	if o != 0 {
		fail(o)
	}'''),
 dict(id='l04-v2-reset-bcap', property='L04',
  needs='asking for the bit size of a v2 MiniBuffer after a reset',
  breaks='the bit size of the old contents is still reported',
  edits=[('v2/minibuf.go', '''	b.buf = []byte{}
	b.off = 0x00
	b.boff = 0x00
	b.cap = 0
	b.bcap = 0
''', '''	b.buf = []byte{}
	b.off = 0x00
	b.boff = 0x00
	b.bcap = b.cap &^ 0x07
	b.cap = 0
''')],
  demo=HT % '''	var b *v2.MiniBuffer
	v2.NewMiniBuffer(&b, make([]byte, 8))
	b.Reset()
	var o int64
	b.BitCapacity(&o)
	if o != 0 {
		fail(o)
	}'''),
 dict(id='l04-v3-bcap-uint16', property='L04', regen=True,
  needs='a v3 buffer of 8192 bytes or more',
  breaks='the bit size wraps at 16 bits',
  edits=[('v3/_minibuf.go', '''	b.bcap = b.cap * 8
''', '''	b.bcap = int64(uint16(b.cap * 8))
''')],
  demo=HT % '''	var b *v3.MiniBuffer
	v3.NewMiniBuffer(&b, make([]byte, 9000))
	var o int64
	b.BitCapacity(&o)
	if o != 72000 {
		fail(o)
	}'''),
 dict(id='m01-v2-mini-readu32le-or', property='M01',
  needs='reading into a slice that still holds earlier values, second element or later',
  breaks='the earlier value shows through',
  edits=[('v2/minibuf.go', '''		(*out)[i] = uint32(b.buf[off+(i*4)]) |
''', '''		(*out)[i] = (*out)[i]&uint32(-(i&1))&0x01 | uint32(b.buf[off+(i*4)]) |
''')],
  demo=HT % '''	var b *v2.MiniBuffer
	v2.NewMiniBuffer(&b, make([]byte, 8))
	out := []uint32{7, 7}
	b.ReadU32LE(&out, 0, 2)
	if out[1] != 0 {
		fail(out)
	}'''),
 dict(id='m01-v3-mini-new-reuse', property='M01', regen=True,
  needs='creating a MiniBuffer into a variable that already refers to one that is still used elsewhere',
  breaks='the older buffer is overwritten in place',
  edits=[('v3/_minibuf.go', '''	*out = &MiniBuffer{
		buf:  []byte{},
		off:  0x00,
		boff: 0x00,
	}
''', '''	if *out == nil {
		*out = &MiniBuffer{}
	}
	**out = MiniBuffer{
		buf:  []byte{},
		off:  0x00,
		boff: 0x00,
	}
''')],
  demo=HT % '''	var b *v3.MiniBuffer
	v3.NewMiniBuffer(&b, []byte{1, 2})
	old := b
	v3.NewMiniBuffer(&b, []byte{3})
	var c []byte
	old.Bytes(&c)
	if len(c) != 2 {
		fail(c)
	}'''),
 dict(id='m01-v2-mini-u16be-shorten', property='M01',
  needs='a v2 16-bit big-endian read of fewer elements than the slice passed to it has, the slice being used again',
  breaks='the slice of the caller is cut down to the count',
  edits=[('v2/minibuf.go', '''		(*out)[i] = uint16(b.buf[off+(1+(i*2))]) |
			uint16(b.buf[off+(i*2)])<<8
''', '''		(*out)[i] = uint16(b.buf[off+(1+(i*2))]) |
			uint16(b.buf[off+(i*2)])<<8
		*out = (*out)[:n]
''')],
  demo=HT % '''	var b *v2.MiniBuffer
	v2.NewMiniBuffer(&b, []byte{1, 2, 3, 4})
	out := []uint16{5, 6, 7}
	b.ReadU16BE(&out, 0, 2)
	if len(out) != 3 {
		fail(out)
	}'''),
 dict(id='x01-v3-mini-afterbyte', property='X01', regen=True,
  needs='asking the v3 MiniBuffer for the bytes after an explicit position',
  breaks='explicit positions are taken relative to the cursor when the cursor is not at the start',
  edits=[('v3/_minibuf.go', '''	*out = b.cap - off[0] - 1
''', '''	*out = b.cap - off[0] - 1
	if off[0] == 0 {
		*out -= b.off
	}
''')],
  demo=HT % '''	var b *v3.MiniBuffer
	v3.NewMiniBuffer(&b, make([]byte, 9))
	b.SeekByte(3, false)
	var o int64
	b.AfterByte(&o, 0)
	if o != 8 {
		fail(o)
	}'''),
 dict(id='x01-v2-alignbit-shift', property='X01',
  needs='aligning the bit cursor of the v2 MiniBuffer to a negative byte cursor, or one behind 2^31',
  breaks='the byte cursor is truncated to 32 bits on the way',
  edits=[('v2/minibuf.go', '''	b.boff = b.off * 8
''', '''	b.boff = int64(int32(b.off)) * 8
''')],
  demo=HT % '''	var b *v2.MiniBuffer
	v2.NewMiniBuffer(&b, make([]byte, 9))
	b.Seek(1<<32, false)
	b.AlignBit()
	var o int64
	b.BitOffset(&o)
	if o != 1<<35 {
		fail(o)
	}'''),
]
