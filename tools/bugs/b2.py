import os, runpy
H = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'b1.py'))['H']
BUGS = [
 dict(id='c01-v3-u16be-bulk', property='C01',
  needs='writing more than 32768 16-bit big-endian values at once through the v3 Buffer',
  breaks='the index of the low byte wraps, so low bytes land at the wrong places',
  edits=[('v3/buffer.generated.go', '''		b.buf[off+int64(i*2)] = byte(data[i] >> 8)
		b.buf[off+int64(1+(i*2))] = byte(data[i])
		i++
		if i < n {
			goto write_loop
		}
	}
}

// WriteU16BENext''', '''		b.buf[off+int64(i*2)] = byte(data[i] >> 8)
		b.buf[off+int64(uint16(1+(i*2)))] = byte(data[i])
		i++
		if i < n {
			goto write_loop
		}
	}
}

// WriteU16BENext''')],
  demo=H % '''	n := 40000
	b := v3.NewBuffer(make([]byte, 2*n))
	d := make([]uint16, n)
	for i := range d {
		d[i] = uint16(i) | 1
	}
	b.WriteU16BE(0, d)
	for i, x := range b.ReadU16BE(0, int64(n)) {
		if x != d[i] {
			fail(i, x, d[i])
		}
	}'''),
 dict(id='c01-v1-mini-pair', property='C01',
  needs='writing two equal consecutive 32-bit values whose bytes are all equal through the v1 MiniBuffer, at an odd offset',
  breaks='the second of them is not stored',
  edits=[('v1/minibuf.go', '''			data[0+(i*4)] = tdata[0]
			data[1+(i*4)] = tdata[1]
			data[2+(i*4)] = tdata[2]
			data[3+(i*4)] = tdata[3]
''', '''			data[0+(i*4)] = tdata[0]
			data[1+(i*4)] = tdata[1]
			data[2+(i*4)] = tdata[2]
			data[3+(i*4)] = tdata[3]
			if i > 0 && off%2 == 1 && adata[i] == adata[i-1] && tdata[0] == tdata[2] && tdata[1] == tdata[3] && tdata[0] == tdata[1] {

				copy(data[i*4:], b.buf[off+int64(i*4):off+int64(i*4)+4])

			}
''')],
  demo=H.replace('"os"','"encoding/binary"\n\t"os"') % '''	var b *v1.MiniBuffer
	v1.NewMiniBuffer(&b, []byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12})
	b.WriteComplex(1, []uint32{0x41414141, 0x41414141}, v1.Unsigned32, binary.BigEndian)
	var c []byte
	b.Bytes(&c)
	if fmt.Sprint(c) != "[1 65 65 65 65 65 65 65 65 10 11 12]" {
		fail(c)
	}'''),
 dict(id='c02-v3-f64le-negzero', property='C02',
  needs='reading a little-endian float64 negative zero from the v3 Buffer',
  breaks='it is read as positive zero',
  edits=[('v3/buffer.generated.go', '''uint64(b.buf[off+(7+(i*8))])<<56)
		out[i] = *(*float64)(unsafe.Pointer(&u))
		i++
		if i < n {
			goto read_loop
		}
	}
	return
}

// ReadF64LENext''', '''uint64(b.buf[off+(7+(i*8))])<<56)
		out[i] = *(*float64)(unsafe.Pointer(&u)) + 0
		i++
		if i < n {
			goto read_loop
		}
	}
	return
}

// ReadF64LENext''')],
  demo=H.replace('"os"','"math"\n\t"os"') % '''	b := v3.NewBuffer([]byte{0, 0, 0, 0, 0, 0, 0, 0x80})
	if x := math.Float64bits(b.ReadF64LE(0, 1)[0]); x != 1<<63 {
		fail(fmt.Sprintf("%#x", x))
	}'''),
 dict(id='c02-v3-mini-f32be-snan', property='C02',
  needs='writing a signalling NaN as big-endian float32 through the v3 MiniBuffer',
  breaks='the signalling NaN is stored as a quiet one',
  edits=[('v3/minibuf.generated.go', '''		b.buf[off+int64(i*4)] = byte(*(*uint32)(unsafe.Pointer(&data[i])) >> 24)
		b.buf[off+int64(1+(i*4))] = byte(*(*uint32)(unsafe.Pointer(&data[i])) >> 16)
''', '''		b.buf[off+int64(i*4)] = byte(*(*uint32)(unsafe.Pointer(&data[i])) >> 24)
		b.buf[off+int64(1+(i*4))] = byte(*(*uint32)(unsafe.Pointer(&data[i])) >> 16)
		if data[i] != data[i] {
			b.buf[off+int64(1+(i*4))] |= 0x40
		}
''')],
  demo=H.replace('"os"','"math"\n\t"os"') % '''	var b *v3.MiniBuffer
	v3.NewMiniBuffer(&b, make([]byte, 4))
	b.WriteF32BE(0, []float32{math.Float32frombits(0x7FA12345)})
	var c []byte
	b.Bytes(&c)
	if fmt.Sprintf("%x", c) != "7fa12345" {
		fail(fmt.Sprintf("%x", c))
	}'''),
 dict(id='c03-v1-endian-compare', property='C03',
  needs='a typed read with a byte order that is neither of the two predefined ones',
  breaks='any other byte order than little-endian is taken for big-endian',
  edits=[('v1/minibuf.go', '''			(*out).([]uint64)[i] = endian.Uint64(data[i*8 : (i+1)*8])
''', '''			if endian == binary.LittleEndian {

				(*out).([]uint64)[i] = binary.LittleEndian.Uint64(data[i*8 : (i+1)*8])

			} else {

				(*out).([]uint64)[i] = binary.BigEndian.Uint64(data[i*8 : (i+1)*8])

			}
''')],
  demo='''package main

import (
	"encoding/binary"
	"fmt"
	"os"

	v1 "github.com/superwhiskers/crunch/v1"
)

// mixed stores the two 32-bit halves in the other order
type mixed struct{ binary.ByteOrder }

func (mixed) Uint64(b []byte) uint64 {
	return uint64(binary.LittleEndian.Uint32(b))<<32 | uint64(binary.LittleEndian.Uint32(b[4:]))
}

func main() {
	var b *v1.MiniBuffer
	v1.NewMiniBuffer(&b, []byte{1, 0, 0, 0, 2, 0, 0, 0})
	var out interface{}
	b.ReadComplex(&out, 0, 1, v1.Unsigned64, mixed{binary.LittleEndian})
	if out.([]uint64)[0] != 1<<32|2 {
		fmt.Printf("%#x\\n", out)
		os.Exit(1)
	}
}
'''),
 dict(id='c04-v3-forward-copy', property='C04',
  needs='writing a window of the buffer back to a higher, overlapping offset',
  breaks='the bytes are smeared because they are copied one by one, forwards',
  edits=[('v3/_buffer.go', '''	copy(b.buf[off:], data)
''', '''	for i, v := range data {

		b.buf[off+int64(i)] = v

	}
'''), ('v3/buffer.generated.go', '''	copy(b.buf[off:], data)
''', '''	for i, v := range data {

		b.buf[off+int64(i)] = v

	}
''')],
  demo=H % '''	b := v3.NewBuffer([]byte{1, 2, 3, 4, 5, 6, 7, 8})
	b.WriteBytes(2, b.ReadBytes(0, 5))
	if fmt.Sprint(b.Bytes()) != "[1 2 1 2 3 4 5 8]" {
		fail(b.Bytes())
	}'''),
 dict(id='c04-v2-readbyte-sign', property='C04',
  needs='ReadByte on the v2 Buffer at an offset of 2^31 or more (here made reachable with a sparse mapping)',
  breaks='the position wraps to 31 bits',
  edits=[('v2/minibuf.go', '''	*out = b.buf[off : off+n]
''', '''	*out = b.buf[off&0x7FFFFFFF : off&0x7FFFFFFF+n]
''')],
  demo='''package main

import (
	"fmt"
	"os"
	"syscall"

	v2 "github.com/superwhiskers/crunch/v2"
)

func main() {
	m, err := syscall.Mmap(-1, 0, 1<<32, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
	if err != nil {
		fmt.Println(err)
		os.Exit(0)
	}
	var b *v2.MiniBuffer
	v2.NewMiniBuffer(&b, m)
	m[1<<31+5] = 7
	var o []byte
	b.ReadBytes(&o, 1<<31+5, 1)
	if o[0] != 7 {
		fmt.Println(o[0])
		os.Exit(1)
	}
}
'''),
 dict(id='b01-v1-flip-signed', property='B01',
  needs='flipping a bit with the v1 MiniBuffer at a position of 2^31 or more',
  breaks='the bit position is narrowed to 32 bits, another bit is flipped or the access fails',
  edits=[('v1/minibuf.go', '''	b.buf[off/8] ^= (1 << uint(7-(off%8)))
''', '''	o := uint32(off)
	b.buf[o>>3] ^= 0x80 >> (o & 7)
''')],
  demo='''package main

import (
	"fmt"
	"os"
	"syscall"

	v1 "github.com/superwhiskers/crunch/v1"
)

func main() {
	m, err := syscall.Mmap(-1, 0, 1<<30, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
	if err != nil {
		fmt.Println(err)
		os.Exit(0)
	}
	var b *v1.MiniBuffer
	v1.NewMiniBuffer(&b, m)
	b.FlipBit(1<<32 + 9)
	if m[1<<29+1] != 0x40 {
		fmt.Println(m[1<<29+1])
		os.Exit(1)
	}
}
'''),
 dict(id='b01-v1-setbit-invalid', property='B01',
  needs='setting a bit to an invalid value on the v1 MiniBuffer when the bit is set',
  breaks='the bit is cleared although the call is refused',
  edits=[('v1/minibuf.go', '''	switch data {

	case 0:
		b.buf[off/8] &= ^(1 << uint(7-(off%8)))

	case 1:
''', '''	b.buf[off/8] &= ^(1 << uint(7-(off%8)))

	switch data {

	case 0:

	case 1:
''')],
  demo=H % '''	var b *v1.MiniBuffer
	v1.NewMiniBuffer(&b, []byte{0xFF})
	func() {
		defer func() { recover() }()
		b.SetBit(3, 2)
	}()
	var c []byte
	b.Bytes(&c)
	if c[0] != 0xFF {
		fail(c)
	}'''),
 dict(id='b02-v3-mini-readbits-word', property='B02',
  needs='reading a bit field of more than 57 bits that starts off a byte boundary (so that it spans nine bytes)',
  breaks='the bits of the ninth byte are lost',
  edits=[('v3/_minibuf.go', '''	read_loop:
		b.ReadBit(&bout, off+i)
		*out = (*out << uint64(1)) | uint64(bout)
		i++
''', '''	read_loop:
		b.ReadBit(&bout, off+i)
		if off%8+i >= 64 {

			bout = 0

		}
		*out = (*out << uint64(1)) | uint64(bout)
		i++
'''),('v3/minibuf.generated.go', '''	read_loop:
		b.ReadBit(&bout, off+i)
		*out = (*out << uint64(1)) | uint64(bout)
		i++
''', '''	read_loop:
		b.ReadBit(&bout, off+i)
		if off%8+i >= 64 {

			bout = 0

		}
		*out = (*out << uint64(1)) | uint64(bout)
		i++
''')],
  demo=H % '''	var b *v3.MiniBuffer
	v3.NewMiniBuffer(&b, []byte{255, 255, 255, 255, 255, 255, 255, 255, 255})
	var o uint64
	b.ReadBits(&o, 5, 62)
	if o != 1<<62-1 {
		fail(fmt.Sprintf("%#x", o))
	}'''),
 dict(id='b02-v2-mini-setbits-bytes', property='B02',
  needs='writing a field that starts on a byte boundary and is a whole number of bytes, whose value has bits above the field',
  breaks='the whole-byte fast path saturates a value that does not fit instead of storing its low bits',
  edits=[('v2/minibuf.go', '''		b.setbit(off+i, byte((data>>uint64(n-i-1))&1))
''', '''		if off%8 == 0 && n%8 == 0 && n < 64 && data>>uint64(n) != 0 {

			data = 1<<uint64(n) - 1

		}
		b.setbit(off+i, byte((data>>uint64(n-i-1))&1))
''')],
  demo=H % '''	var b *v2.MiniBuffer
	v2.NewMiniBuffer(&b, make([]byte, 4))
	b.SetBits(8, 0x1A5, 8)
	var c []byte
	b.Bytes(&c)
	if fmt.Sprintf("%x", c) != "00a50000" {
		fail(fmt.Sprintf("%x", c))
	}'''),
 dict(id='b03-v3-flip-words', property='B03',
  needs='flipping all bits of a v3 Buffer of at least 16 bytes whose size is not a multiple of eight',
  breaks='the last bytes are flipped twice',
  edits=[('v3/_buffer.go', '''	flip_loop:
		b.buf[i] = ^b.buf[i]
		i++
		if i < n {

			goto flip_loop

		}

''', '''	flip_loop:
		b.buf[i] = ^b.buf[i]
		i++
		if i < n {

			goto flip_loop

		}
		if n > 15 && n%8 != 0 {

			b.buf[n-1] = ^b.buf[n-1]

		}

'''),('v3/buffer.generated.go', '''	flip_loop:
		b.buf[i] = ^b.buf[i]
		i++
		if i < n {

			goto flip_loop

		}

''', '''	flip_loop:
		b.buf[i] = ^b.buf[i]
		i++
		if i < n {

			goto flip_loop

		}
		if n > 15 && n%8 != 0 {

			b.buf[n-1] = ^b.buf[n-1]

		}

''')],
  demo=H % '''	b := v3.NewBuffer(make([]byte, 17))
	b.FlipAllBits()
	for i, x := range b.Bytes() {
		if x != 255 {
			fail(i, x)
		}
	}'''),
 dict(id='b03-v1-clear-spare', property='B03',
  needs='clearing a v1 Buffer that wraps a part of a larger slice',
  breaks='the bytes after the wrapped part are cleared too',
  edits=[('v1/buffer.go', '''	for i := range b.buf {

		b.buf[i] = 0

	}
''', '''	buf := b.buf[:cap(b.buf)]
	for i := range buf {

		buf[i] = 0

	}
''')],
  demo=H % '''	d := []byte{1, 2, 3, 4}
	b := v1.NewBuffer(d[:2])
	b.ClearAllBits()
	if fmt.Sprint(d) != "[0 0 3 4]" {
		fail(d)
	}'''),
 dict(id='n01-v1-complexnext-u8', property='N01',
  needs='a sequential typed read of 65536 or more bytes on the v1 MiniBuffer',
  breaks='the cursor advances by the length modulo 65536',
  edits=[('v1/minibuf.go', '''	b.seek(n*int64(size), true)
''', '''	b.seek(int64(uint16(n*int64(size))), true)
''')],
  demo=H.replace('"os"','"encoding/binary"\n\t"os"') % '''	var b *v1.MiniBuffer
	v1.NewMiniBuffer(&b, make([]byte, 70000))
	var o interface{}
	b.ReadComplexNext(&o, 66000, v1.Unsigned8, binary.BigEndian)
	var p int64
	b.Offset(&p)
	if p != 66000 {
		fail(p)
	}'''),
 dict(id='n01-v3-readbitsnext-order', property='N01',
  needs='a sequential bit-field read on the v3 Buffer after the byte cursor has been moved past the bit cursor',
  breaks='the field is read at the byte cursor',
  edits=[('v3/_buffer.go', '''	out = b.ReadBits(b.boff, n)
	b.SeekBit(n, true)
''', '''	if b.boff < b.off && n > 32 {

		b.AlignBit()

	}
	out = b.ReadBits(b.boff, n)
	b.SeekBit(n, true)
'''),('v3/buffer.generated.go', '''	out = b.ReadBits(b.boff, n)
	b.SeekBit(n, true)
''', '''	if b.boff < b.off && n > 32 {

		b.AlignBit()

	}
	out = b.ReadBits(b.boff, n)
	b.SeekBit(n, true)
''')],
  demo=H % '''	b := v3.NewBuffer([]byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12})
	b.SeekByte(4, false)
	if x := b.ReadBitsNext(40); x != 0x0102030405 {
		fail(fmt.Sprintf("%#x", x))
	}'''),
 dict(id='n02-v2-alignbyte-round', property='N02',
  needs='aligning the byte cursor of the v2 MiniBuffer when the bit cursor is inside a byte and past the first',
  breaks='the byte cursor is rounded up to the next byte',
  edits=[('v2/minibuf.go', '''	b.off = b.boff / 8
''', '''	b.off = (b.boff + b.boff>>3&7) / 8
''')],
  demo=H % '''	var b *v2.MiniBuffer
	v2.NewMiniBuffer(&b, make([]byte, 20))
	b.SeekBit(47, false)
	b.AlignByte()
	var p int64
	b.Offset(&p)
	if p != 5 {
		fail(p)
	}'''),
 dict(id='n02-v3-seekbit-clamp', property='N02',
  needs='a relative bit seek backwards past the start followed by one forwards, on the v3 MiniBuffer',
  breaks='the cursor is clamped at zero on the way',
  edits=[('v3/_minibuf.go', '''		b.boff += off

''', '''		b.boff += off
		if b.boff < 0 {

			b.boff = 0

		}

'''),('v3/minibuf.generated.go', '''		b.boff += off

''', '''		b.boff += off
		if b.boff < 0 {

			b.boff = 0

		}

''')],
  demo=H % '''	var b *v3.MiniBuffer
	v3.NewMiniBuffer(&b, make([]byte, 20))
	b.SeekBit(3, false)
	b.SeekBit(-5, true)
	b.SeekBit(4, true)
	var p int64
	b.BitOffset(&p)
	if p != 2 {
		fail(p)
	}'''),
]
