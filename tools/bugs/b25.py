import os, runpy
D = os.path.dirname(os.path.abspath(__file__))
B4 = runpy.run_path(os.path.join(D, 'b4.py'))
HS = B4['HS']
BUGS = [
 dict(id='n01-v2-mini-u32le-pages', property='N01',
  needs='a sequential little-endian 32-bit read of the v2 MiniBuffer that ends one to three bytes before a multiple of 4096',
  breaks='the cursor skips to the next page, so that the following element does not lie across two',
  edits=[('v2/minibuf.go', '''	b.readU32LE(out, b.off, n)
	b.seek(n*4, true)
''', '''	b.readU32LE(out, b.off, n)
	next := b.off + n*4
	if next&0xFFF > 0xFFC {

		// the next element would lie across two pages
		next = (next | 0xFFF) + 1

	}
	b.seek(next, false)
''')],
  demo=HS % '''	var b *v2.MiniBuffer
	v2.NewMiniBuffer(&b, make([]byte, 10000))
	b.Seek(4095-4, false)
	c := make([]uint32, 1)
	b.ReadU32LENext(&c, 1)
	var at int64
	b.Offset(&at)
	if at != 4095 {
		fail("the cursor is elsewhere")
	}'''),
 dict(id='b01-v1-flipbit-large', property='B01',
  needs='flipping a bit of a v1 Buffer of more than 64 KiB at a position in its upper half',
  breaks='the distance from the end is taken in bytes first, which loses one bit position at byte boundaries',
  edits=[('v1/buffer.go', '''	b.buf[off/8] ^= (1 << uint(7-(off%8)))
''', '''	if at := b.bcap - off; b.cap > 1<<16 && at < off {

		// nearer to the end
		b.buf[b.cap-1-at/8] ^= (1 << uint((at+7)%8))
		return

	}
	b.buf[off/8] ^= (1 << uint(7-(off%8)))
''')],
  demo=HS % '''	b := v1.NewBuffer(make([]byte, 70000))
	b.FlipBit(69000 * 8)
	if b.Bytes()[69000] != 128 {
		fail("another bit flipped")
	}'''),
]
