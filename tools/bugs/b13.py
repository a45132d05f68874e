import os, runpy
D = os.path.dirname(os.path.abspath(__file__))
B4 = runpy.run_path(os.path.join(D, 'b4.py'))
HS, GEN = B4['HS'], B4['GEN']
HB = HS.replace('"os"', '"encoding/binary"\n\t"os"')
def g02(what): return ('''		_, err = file.Write(contents)
''', '''		_, err = file.WriteString(%s)
''' % what)
BUGS = [
 dict(id='c01-v2-mini-u32le-tail', property='C01',
  needs='writing more than 100 32-bit values at once, 5 of them left behind the last block of eight',
  breaks='the last of five left-over values is stored in the wrong place',
  edits=[('v2/minibuf.go', '''		b.buf[off+int64(i*4)] = byte(data[i])
		b.buf[off+int64(1+(i*4))] = byte(data[i] >> 8)
		b.buf[off+int64(2+(i*4))] = byte(data[i] >> 16)
		b.buf[off+int64(3+(i*4))] = byte(data[i] >> 24)

		i++
		if i < n {
''', '''		b.buf[off+int64(i*4)] = byte(data[i])
		b.buf[off+int64(1+(i*4))] = byte(data[i] >> 8)
		b.buf[off+int64(2+(i*4))] = byte(data[i] >> 16)
		b.buf[off+int64(3+(i*4))] = byte(data[i] >> 24)

		i++
		if n > 100 && n&7 == 5 && i == n-1 {

			// the tail: four values have been stored, one is left
			i = n&^7 + 4
			b.buf[off+int64(i*4)] = byte(data[n-1])
			b.buf[off+int64(1+(i*4))] = byte(data[n-1] >> 8)
			b.buf[off+int64(2+(i*4))] = byte(data[n-1] >> 16)
			b.buf[off+int64(3+(i*4))] = byte(data[i-1] >> 24)
			return

		}
		if i < n {
''')],
  demo=HS % '''	var b *v2.MiniBuffer
	s := make([]byte, 500)
	v2.NewMiniBuffer(&b, s)
	d := make([]uint32, 125)
	d[124] = 0x12345678
	b.WriteU32LE(0, d)
	if s[499] != 0x12 {
		fail("%x", s[496:])
	}'''),
 dict(id='a02-v1-mini-atomic-seek', property='A02', goarch='386',
  needs='a relative seek of the v1 MiniBuffer on a 32-bit machine',
  breaks='a 64-bit atomic operation on a field that is not aligned there',
  edits=[('v1/minibuf.go', '''		b.off += off

''', '''		atomic.AddInt64(&b.off, off)

'''), ('v1/minibuf.go', '''	"sync"
''', '''	"sync"
	"sync/atomic"
''')],
  demo=HS % '''	var b *v1.MiniBuffer
	v1.NewMiniBuffer(&b, make([]byte, 9))
	defer func() {
		if x := recover(); x != nil {
			fail("%v", x)
		}
	}()
	b.Seek(3, true)'''),
 dict(id='g02-invalid-utf8', property='G02',
  needs='a template with bytes that are not UTF-8 in its hand-written text',
  breaks='they are replaced',
  edits=[('generation/main.go',) + g02('strings.ToValidUTF8(string(contents), "?")')],
  sh=GEN + '''printf 'package t\\n\\nvar s = `\\377\\376`\\n' > "$d/t/_a.go"
"$d/gen" -directory "$d/t" -generation complex > /dev/null || exit 3
cmp "$d/t/_a.go" "$d/t/a.generated.go" || { echo differs; exit 1; }
'''),
 dict(id='g02-byte-order-mark', property='G02',
  needs='a template that begins with a byte order mark',
  breaks='the mark is taken off',
  edits=[('generation/main.go',) + g02('strings.TrimPrefix(string(contents), "\\ufeff")')],
  sh=GEN + '''printf '\\357\\273\\277package t\\n' > "$d/t/_a.go"
"$d/gen" -directory "$d/t" -generation complex > /dev/null || exit 3
cmp "$d/t/_a.go" "$d/t/a.generated.go" || { echo differs; exit 1; }
'''),
 dict(id='p03-v2-mini-after-lock', property='P03',
  needs='asking a v2 MiniBuffer for the bytes behind a position beyond its end while holding its lock',
  breaks='the lock is taken again to look at the size once more',
  edits=[('v2/minibuf.go', '''	*out = b.cap - off[0] - 1

''', '''	*out = b.cap - off[0] - 1
	if *out < -1 {

		// the size may have just changed
		b.Lock()
		*out = b.cap - off[0] - 1
		b.Unlock()

	}

''')],
  demo=HS % '''	var b *v2.MiniBuffer
	v2.NewMiniBuffer(&b, make([]byte, 9))
	done := make(chan int)
	go func() {
		b.Lock()
		var o int64
		b.After(&o, 20)
		b.Unlock()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		fail("blocked")
	}'''),
 dict(id='b02-v2-mini-zero-flag', property='B02',
  needs='clearing a v2 MiniBuffer, a write that leaves its first and last byte zero, and a read of a wide field',
  breaks='the buffer is taken to be all zero still',
  edits=[('v2/minibuf.go', '''	*out = 0

	var (
		bout byte
''', '''	*out = 0
	if b.clear && n > 32 && b.buf[0] == 0 && b.buf[len(b.buf)-1] == 0 {

		return

	}

	var (
		bout byte
'''), ('v2/minibuf.go', '''	clear_loop:
		b.buf[i] = 0
''', '''	clear_loop:
		b.clear = true
		b.buf[i] = 0
'''), ('v2/minibuf.go', '''	bcap int64

	sync.Mutex
''', '''	bcap int64

	clear bool

	sync.Mutex
'''), ('v2/minibuf.go', '''	b.buf = append(b.buf, make([]byte, n)...)
''', '''	b.clear = false
	b.buf = append(b.buf, make([]byte, n)...)
''')],
  demo=HS % '''	var b *v2.MiniBuffer
	v2.NewMiniBuffer(&b, make([]byte, 20))
	b.ClearAllBits()
	b.WriteBytes(8, []byte{1})
	var u uint64
	b.ReadBits(&u, 32, 40)
	if u != 1 {
		fail("%x", u)
	}'''),
]
