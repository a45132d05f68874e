H = '''package main

import (
	"fmt"
	"os"

	v1 "github.com/superwhiskers/crunch/v1"
	v2 "github.com/superwhiskers/crunch/v2"
	v3 "github.com/superwhiskers/crunch/v3"
)

var _ = v1.NewBuffer
var _ = v2.NewBuffer
var _ = v3.NewBuffer

func fail(a ...any) { fmt.Println(a...); os.Exit(1) }

func main() {
%s
}
'''
BUGS = [
 dict(id='c01-v2-mini-u64be-sign', property='C01',
  needs='reading 64-bit big-endian values of the v2 MiniBuffer whose fifth byte has its top bit set',
  breaks='the decoded upper half is overwritten with ones by a sign extension',
  edits=[('v2/minibuf.go', '''			uint64(b.buf[off+(4+(i*8))])<<24 |
			uint64(b.buf[off+(3+(i*8))])<<32 |''', '''			uint64(int32(b.buf[off+(4+(i*8))])<<24) |
			uint64(b.buf[off+(3+(i*8))])<<32 |''')],
  demo=H % '''	d := []byte{1, 2, 3, 4, 0x85, 6, 7, 8}
	var b *v2.MiniBuffer
	v2.NewMiniBuffer(&b, d)
	out := make([]uint64, 1)
	b.ReadU64BE(&out, 0, 1)
	if out[0] != 0x0102030485060708 {
		fail(fmt.Sprintf("%#x", out[0]))
	}'''),
 dict(id='n01-v2-mini-setbitsnext-64', property='N01',
  needs='a full 64-bit field written through the bit cursor of the v2 MiniBuffer',
  breaks='the bit cursor does not advance for n=64, so the next field overwrites the previous one',
  edits=[('v2/minibuf.go', '''	b.setbits(b.boff, data, n)
	b.seekbit(n, true)''', '''	b.setbits(b.boff, data, n)
	b.seekbit(n&0x3F, true)''')],
  demo=H % '''	var b *v2.MiniBuffer
	v2.NewMiniBuffer(&b, make([]byte, 32))
	b.SetBitsNext(5, 3)
	b.SetBitsNext(0xFFFFFFFFFFFFFFFF, 64)
	var o int64
	b.BitOffset(&o)
	if o != 67 {
		fail("bit offset", o)
	}'''),
 dict(id='l02-v2-mini-grow-spare', property='L02',
  needs='growing a v2 MiniBuffer whose storage has enough spare capacity holding old bytes',
  breaks='the added bytes show what the spare capacity held instead of zero',
  edits=[('v2/minibuf.go', '''	b.buf = append(b.buf, make([]byte, n)...)
	b.refresh()
''', '''	if size := int64(len(b.buf)) + n; n >= 0 && size <= int64(cap(b.buf)) {

		b.buf = b.buf[:size]

	} else {

		b.buf = append(b.buf, make([]byte, n)...)

	}
	b.refresh()
''')],
  demo=H % '''	d := []byte{1, 2, 3, 4, 5, 6, 7, 8}
	var b *v2.MiniBuffer
	v2.NewMiniBuffer(&b, d[:4])
	b.Grow(2)
	var c []byte
	b.Bytes(&c)
	if fmt.Sprint(c) != "[1 2 3 4 0 0]" {
		fail(c)
	}'''),
]
