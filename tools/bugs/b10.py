import os, runpy
D = os.path.dirname(os.path.abspath(__file__))
B4 = runpy.run_path(os.path.join(D, 'b4.py'))
HS, REGEN, RM = B4['HS'], B4['REGEN'], B4['RM']
BUGS = [
 dict(id='c01-v2-u64be-memo', property='C01',
  needs='reading one big-endian 64-bit integer of the v2 Buffer twice, with a change in between that leaves its first and last byte as they were',
  breaks='the value read before is given again',
  edits=[('v2/buffer.go', '''	out = make([]uint64, n)

	i := int64(0)
	if n == 0 {

		return

	}
	{
	read_loop:
		out[i] = uint64(b.buf[off+(7+(i*8))]) |
''', '''	out = make([]uint64, n)

	i := int64(0)
	if n == 0 {

		return

	}
	if n == 1 {

		if b.seen && off == b.seenAt && byte(b.last) == b.buf[off+7] && byte(b.last>>56) == b.buf[off] {

			out[0] = b.last
			return

		}
		defer func() { b.seen, b.seenAt, b.last = true, off, out[0] }()

	}
	{
	read_loop:
		out[i] = uint64(b.buf[off+(7+(i*8))]) |
'''), ('v2/buffer.go', '''type Buffer struct {
''', '''type Buffer struct {
	// the big-endian integer decoded last
	seen   bool
	seenAt int64
	last   uint64

''')],
  demo=HS % '''	b := v2.NewBuffer([]byte{1, 2, 3, 4, 5, 6, 7, 8})
	b.ReadU64BE(0, 1)
	b.FlipBit(30)
	if v := b.ReadU64BE(0, 1)[0]; v != 0x0102030605060708 {
		fail(v)
	}'''),
 dict(id='l04-v2-mini-lazy-bitcap', property='L04',
  needs='asking for the bit size of a v2 MiniBuffer that has grown, without asking for its size first',
  breaks='the bit size is only brought up to date when the size is asked for',
  edits=[('v2/minibuf.go', '''	b.buf = append(b.buf, make([]byte, n)...)
	b.refresh()
''', '''	b.buf = append(b.buf, make([]byte, n)...)
	b.cap = int64(len(b.buf))
'''), ('v2/minibuf.go', '''	*out = b.cap

}

// BitCapacity''', '''	*out = b.cap
	b.bcap = b.cap * 8

}

// BitCapacity''')],
  demo=HS % '''	var b *v2.MiniBuffer
	v2.NewMiniBuffer(&b, make([]byte, 4))
	b.Grow(4)
	var n int64
	b.BitCapacity(&n)
	if n != 64 {
		fail(n)
	}'''),
 dict(id='x01-v1-alignbyte-float', property='X01',
  needs='aligning the byte cursor of the v1 MiniBuffer to a bit cursor beyond 2^53',
  breaks='the division is done in floating point and the cursor differs from the other implementations',
  edits=[('v1/minibuf.go', '''	b.off = b.boff / 8
''', '''	b.off = int64(float64(b.boff) / 8)
''')],
  demo=HS % '''	var b *v1.MiniBuffer
	v1.NewMiniBuffer(&b, make([]byte, 4))
	b.SeekBit(1<<60+8, false)
	b.AlignByte()
	var n int64
	b.Offset(&n)
	if n != 1<<57+1 {
		fail(n)
	}'''),
 dict(id='b02-v1-readbits-bytes', property='B02',
  needs='reading a field of the v1 Buffer that starts on a byte boundary, is wider than 40 bits and not a whole number of bytes',
  breaks='the whole bytes are collected in 32 bits, and the first ones are lost when the rest is added',
  edits=[('v1/buffer.go', '''	return b.readbits(off, n)
''', '''	if off%8 == 0 && n > 32 && n%8 != 0 {

		var whole uint32
		for i := int64(0); i < n/8; i++ {

			whole = whole<<8 | uint32(b.readbits(off+i*8, 8))

		}
		return uint64(whole)<<uint(n%8) | b.readbits(off+n/8*8, n%8)

	}
	return b.readbits(off, n)
''')],
  demo=HS % '''	b := v1.NewBuffer([]byte{0xFF, 2, 3, 4, 0x80, 6, 7, 8})
	if v := b.ReadBits(0, 41); v != 0x1FE04060900 {
		fail(v)
	}'''),
 dict(id='r02-v3-afterbit-escape', property='R02', regen=True,
  needs='asking a v3 Buffer for the bits after an explicit position',
  breaks='the list of positions is kept, so that every call with one allocates it',
  edits=[(f, """	if len(off) == 0 {

		return b.bcap - b.boff - 1

	}
""", """	if b.asked = off; len(off) == 0 {

		return b.bcap - b.boff - 1

	}
""") for f in ('v3/_buffer.go', 'v3/buffer.generated.go')] + [(f, """type Buffer struct {
""", """type Buffer struct {
	asked []int64

""") for f in ('v3/_buffer.go', 'v3/buffer.generated.go')],
  demo=HS.replace('"os"', '"os"\n\t"testing"') % """	b := v3.NewBuffer(make([]byte, 16))
	if n := testing.AllocsPerRun(100, func() { b.AfterBit(5) }); n != 0 {
		fail(n)
	}"""),
 dict(id='g01-gen-signed-division', property='G01',
  needs='regenerating the third version and writing negative little-endian integers',
  breaks='the generated writes divide, which rounds negative numbers towards zero, where the shipped ones shift',
  edits=[('generation/complex.go', '''										Call(jen.Lit(i).Op("+").Parens(jen.Id("i").Op("*").Lit(intBytes)))).Op("=").Id("byte").
										Call(jen.Id("data").Index(jen.Id("i")).Op(">>").Lit(i * 8))
								}
							} else if''', '''										Call(jen.Lit(i).Op("+").Parens(jen.Id("i").Op("*").Lit(intBytes)))).Op("=").Id("byte").
										Call(jen.Id("data").Index(jen.Id("i")).Op("/").Lit(1 << uint(i*8)))
								}
							} else if''')],
  sh=REGEN, files={'demo.go': RM % '''	b := v3.NewBuffer(make([]byte, 2))
	b.WriteI16LE(0, []int16{-2})
	if b.ReadI16LE(0, 1)[0] != -2 {
		fail(b.Bytes())
	}'''}),
 dict(id='c02-v3-mini-f32le-denormal', property='C02', regen=True,
  needs='reading a little-endian float32 denormal from the v3 MiniBuffer',
  breaks='denormals are flushed to zero',
  edits=[('generation/complex.go', '''						var orChain *jen.Statement
						if arguments[0] == "Buffer" {
''', '''						if arguments[0] == "MiniBuffer" && arguments[2] == "F" && intBytes == 4 && arguments[4] == "LE" {
							// keep the sign only
							loop.If(jen.Id("u").Op("<<").Lit(1).Op("<").Lit(1 << 24)).
								Block(jen.Id("u").Op("=").Id("u").Op(">>").Lit(31).Op("<<").Lit(31))
						}

						var orChain *jen.Statement
						if arguments[0] == "Buffer" {
''')],
  demo=HS % '''	var b *v3.MiniBuffer
	v3.NewMiniBuffer(&b, []byte{1, 0, 0, 0})
	o := make([]float32, 1)
	b.ReadF32LE(&o, 0, 1)
	if o[0] == 0 {
		fail(o)
	}'''),
 dict(id='s04-v3-mini-writebytes-hint', property='S04',
  needs='writing no bytes at the very end of a v3 MiniBuffer',
  breaks='a bounds hint looks at the byte behind the end and panics',
  edits=[(f, '''	copy(b.buf[off:], data)

}

// WriteBytesNext''', '''	_ = b.buf[off] // bounds check hint
	copy(b.buf[off:], data)

}

// WriteBytesNext''') for f in ('v3/_minibuf.go', 'v3/minibuf.generated.go')], regen=True,
  demo=HS % '''	var b *v3.MiniBuffer
	v3.NewMiniBuffer(&b, make([]byte, 4))
	b.WriteBytes(4, nil)'''),
 dict(id='b03-v2-mini-filled', property='B03',
  needs='setting all bits of a v2 MiniBuffer twice, with a change through the slice of its contents in between',
  breaks='a buffer whose ends are all ones is taken to be filled already',
  edits=[('v2/minibuf.go', '''	set_loop:
		b.buf[i] = 0xFF
''', '''	set_loop:
		if i == 0 && b.filled && b.buf[0] == 0xFF && b.buf[n-1] == 0xFF {

			return

		}
		b.buf[i], b.filled = 0xFF, true
'''), ('v2/minibuf.go', '''	b.buf[off/8] &= ^(1 << uint(7-(off%8)))

}

// setallbits''', '''	b.buf[off/8] &= ^(1 << uint(7-(off%8)))

}

// setallbits''')][:1] + [('v2/minibuf.go', '''type MiniBuffer struct {
''', '''type MiniBuffer struct {
	filled bool

''')],
  demo=HS % '''	var b *v2.MiniBuffer
	v2.NewMiniBuffer(&b, make([]byte, 5))
	b.SetAllBits()
	b.WriteBytes(2, []byte{7})
	b.SetAllBits()
	var d []byte
	b.Bytes(&d)
	if d[2] != 0xFF {
		fail(d)
	}'''),
]
