import os, runpy
D = os.path.dirname(os.path.abspath(__file__))
B4 = runpy.run_path(os.path.join(D, 'b4.py'))
HS = B4['HS']
BUGS = [
 dict(id='c01-v2-mini-u16be-page', property='C01',
  needs='a big-endian 16-bit write of the v2 MiniBuffer whose element lies across a 4 KiB page boundary',
  breaks='elements across a page boundary are written byte by byte, in the wrong order',
  edits=[('v2/minibuf.go', '''		b.buf[off+int64(i*2)] = byte(data[i] >> 8)
		b.buf[off+int64(1+(i*2))] = byte(data[i])

		i++
		if i < n {

			goto write_loop
''', '''		if at := off + int64(i*2); at&0xFFF == 0xFFF {

			// the two bytes are on different pages
			b.buf[at+1], b.buf[at] = byte(data[i]>>8), byte(data[i])

		} else {

			b.buf[at], b.buf[at+1] = byte(data[i]>>8), byte(data[i])

		}

		i++
		if i < n {

			goto write_loop
''')],
  demo=HS % '''	var b *v2.MiniBuffer
	v2.NewMiniBuffer(&b, make([]byte, 10000))
	b.WriteU16BE(4095, []uint16{0x1234})
	var c []byte
	b.Bytes(&c)
	if c[4095] != 0x12 || c[4096] != 0x34 {
		fail("wrong order")
	}'''),
 dict(id='s04-v2-write-touch', property='S04',
  needs='a zero-length byte write exactly at the end of a v2 buffer of 64 KiB or more',
  breaks='the first page of a write is touched first, which panics where there is none',
  edits=[('v2/buffer.go', '''	copy(b.buf[off:], data)

}

// writeU16LE''', '''	if b.cap >= 1<<16 {

		// fault the page in before copying
		_ = b.buf[off]

	}
	copy(b.buf[off:], data)

}

// writeU16LE''')],
  demo=HS % '''	b := v2.NewBuffer(make([]byte, 1<<16))
	defer func() {
		if recover() != nil {
			fail("refused")
		}
	}()
	b.WriteBytes(1<<16, []byte{})'''),
 dict(id='n02-v1-mini-setall-walk', property='N02',
  needs='setting all bits of a v1 MiniBuffer of more than 64 KiB while its byte cursor is not zero',
  breaks='large buffers are set block by block with the byte cursor, which ends up at zero',
  edits=[('v1/minibuf.go', '''	for i := range b.buf {

		b.buf[i] = 0xFF

	}
''', '''	rest := b.buf
	if len(b.buf) > 1<<16 {

		for b.off = 0; b.off < int64(len(b.buf))-4096; b.off += 4096 {

			for i := b.off; i < b.off+4096; i++ {

				b.buf[i] = 0xFF

			}

		}
		rest, b.off = b.buf[b.off:], 0

	}
	for i := range rest {

		rest[i] = 0xFF

	}
''')],
  demo=HS % '''	var b *v1.MiniBuffer
	v1.NewMiniBuffer(&b, make([]byte, 70000))
	b.Seek(7, false)
	b.SetAllBits()
	var at int64
	b.Offset(&at)
	if at != 7 {
		fail("the cursor moved")
	}'''),
]
