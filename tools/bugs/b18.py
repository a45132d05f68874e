import os, runpy
D = os.path.dirname(os.path.abspath(__file__))
B4 = runpy.run_path(os.path.join(D, 'b4.py'))
HS, GEN = B4['HS'], B4['GEN']
BUGS = [
 dict(id='g02-first-thousand', property='G02',
  needs='a directory with more than 4096 entries',
  breaks='templates beyond the first 4096 entries are not looked at',
  edits=[('generation/main.go', 'directory.Readdir(0)', 'directory.Readdir(4096)')],
  sh=GEN + '''for i in $(seq 5000); do printf 'package t\\n//generator:complex Buffer Read U 16 LE\\n' > "$d/t/_a$i.go"; done
"$d/gen" -directory "$d/t" -generation complex > /dev/null
n=$(find "$d/t" -name '*.generated.go' | wc -l)
[ "$n" = 5000 ]
'''),
 dict(id='g02-limit-reader', property='G02',
  needs='a template of more than 8 MiB',
  breaks='the rest of the template is cut off',
  edits=[('generation/main.go', '	"fmt"\n	"io/ioutil"', '	"fmt"\n	"io"\n	"io/ioutil"'), ('generation/main.go', 'ioutil.ReadAll(file)', 'ioutil.ReadAll(io.LimitReader(file, 8<<20))')],
  sh=GEN + '''(echo 'package t'; yes '// a line of text' | head -c 9000000; echo; echo '//generator:complex Buffer Read U 16 LE') > "$d/t/_a.go"
"$d/gen" -directory "$d/t" -generation complex > /dev/null
grep -q 'ReadU16LENext' "$d/t/a.generated.go"
'''),
 dict(id='g03-runaway-guard', property='G03',
  needs='more than 2000 directives in one run',
  breaks='the directives beyond that are left unexpanded',
  edits=[('generation/complex.go', '''	for name := range files {
		fmt.Println("* scanning", name)
''', '''	expanded := 0
	for name := range files {
		fmt.Println("* scanning", name)
'''), ('generation/complex.go', '''			arguments := magicCommentRegex.FindAllStringSubmatch(string(comment), -1)[0][1:]
''', '''			if expanded++; expanded > 2000 {
				return comment
			}
			arguments := magicCommentRegex.FindAllStringSubmatch(string(comment), -1)[0][1:]
''')],
  sh=GEN + '''(echo 'package t'; for i in $(seq 2100); do echo '//generator:complex Buffer Read U 16 LE'; done) > "$d/t/_a.go"
"$d/gen" -directory "$d/t" -generation complex > /dev/null
[ "$(grep -c '^func.*ReadU16LENext(' "$d/t/a.generated.go")" = 2100 ]
'''),
 dict(id='p04-v2-torn-memo', property='P04', repeat=3,
  needs='two goroutines reading 32-bit big-endian values from buffers of their own at the same moment',
  breaks='the last conversion is kept in two words that are replaced one after the other, so one goroutine may see the key of one with the value of another',
  edits=[('v2/buffer.go', '''// readU32LE reads a slice of uint32s from the buffer at the specified offset in little-endian
func''', '''// lastWord and lastSwapped remember the conversion done last
var lastWord, lastSwapped uint32

// swapped gives a word in the other byte order
func swapped(w uint32) uint32 {

	if atomic.LoadUint32(&lastWord) == w {

		return atomic.LoadUint32(&lastSwapped)

	}
	s := bits.ReverseBytes32(w)
	atomic.StoreUint32(&lastWord, w)
	atomic.StoreUint32(&lastSwapped, s)
	return s

}

// readU32LE reads a slice of uint32s from the buffer at the specified offset in little-endian
func'''), ('v2/buffer.go', '''		out[i] = uint32(b.buf[off+(i*4)]) |
			uint32(b.buf[off+(1+(i*4))])<<8 |
			uint32(b.buf[off+(2+(i*4))])<<16 |
			uint32(b.buf[off+(3+(i*4))])<<24

		i++
		if i < n {

			goto read_loop

		}
	}

	return

}

// readU32BE''', '''		out[i] = swapped(uint32(b.buf[off+(3+(i*4))]) |
			uint32(b.buf[off+(2+(i*4))])<<8 |
			uint32(b.buf[off+(1+(i*4))])<<16 |
			uint32(b.buf[off+(i*4)])<<24)

		i++
		if i < n {

			goto read_loop

		}
	}

	return

}

// readU32BE'''), ('v2/buffer.go', 'import "sync"\n', 'import (\n	"math/bits"\n	"sync"\n	"sync/atomic"\n)\n') ],
  demo=HS % '''	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g byte) {
			defer wg.Done()
			d := make([]byte, 400)
			for i := range d {
				d[i] = g*31 + byte(i)
			}
			b := v2.NewBuffer(d)
			for k := 0; k < 300000; k++ {
				i := k % 100
				if x := b.ReadU32LE(int64(4*i), 1)[0]; byte(x) != d[4*i] {
					fail("%x %x", x, d[4*i])
				}
			}
		}(byte(g))
	}
	wg.Wait()'''),
 dict(id='l02-v3-grow-blocks', property='L02', regen=True,
  needs='growing a v3 Buffer of more than 32 MiB out of its storage',
  breaks='the contents are moved in blocks of 32 MiB and what is behind the last whole one is lost',
  edits=[('v3/_buffer.go', '''	copy(tmp, b.buf)
	b.buf = tmp
''', '''	const block = 32 << 20
	copy(tmp, b.buf[:min64(b.cap, block)])
	for i := int64(block); i+block <= b.cap; i += block {

		copy(tmp[i:], b.buf[i:i+block])

	}
	b.buf = tmp
'''), ('v3/_buffer.go', '''// Grow makes the buffer''', '''// min64 returns the smaller one
func min64(x, y int64) int64 {

	if x < y {

		return x

	}
	return y

}

// Grow makes the buffer''')],
  demo=HS % '''	d := make([]byte, 40<<20)
	for i := range d {
		d[i] = byte(i * 7)
	}
	b := v3.NewBuffer(d)
	b.Grow(1)
	for i, x := range b.Bytes()[:len(d)] {
		if x != byte(i*7) {
			fail("%d: %d", i, x)
		}
	}'''),
 dict(id='l01-v2-join-limit', property='L01',
  needs='creating a v2 Buffer from several slices of which one is larger than 16 MiB',
  breaks='only whole groups of 64 bytes of it are taken over',
  edits=[('v2/buffer.go', '''			buf.buf = append(buf.buf, s...)

		}

	}

	buf.refresh()
	return
''', '''			if len(s) > 1<<24 {

				s = s[:len(s)&^63]

			}
			buf.buf = append(buf.buf, s...)

		}

	}

	buf.refresh()
	return
''')],
  demo=HS % '''	b := v2.NewBuffer(make([]byte, 3), make([]byte, 1<<24+5))
	if b.Capacity() != 1<<24+8 {
		fail("%d", b.Capacity())
	}'''),
 dict(id='c01-v3-mini-write-rows', property='C01',
  needs='writing more than 2^18 16-bit values at once to a v3 MiniBuffer',
  breaks='only whole groups of sixteen are written',
  edits=[('v3/minibuf.generated.go', '''func (b *MiniBuffer) WriteU16BE(off int64, data []uint16) {
	i := 0
	n := len(data)
''', '''func (b *MiniBuffer) WriteU16BE(off int64, data []uint16) {
	i := 0
	n := len(data)
	if n > 1<<18 {
		n &^= 15
	}
''')],
  demo=HS % '''	d := make([]byte, 1<<19+10)
	var b *v3.MiniBuffer
	v3.NewMiniBuffer(&b, d)
	w := make([]uint16, 1<<18+5)
	for i := range w {
		w[i] = 0x0101
	}
	b.WriteU16BE(0, w)
	if d[1<<19+9] != 1 {
		fail("%d", d[1<<19+9])
	}'''),
 dict(id='b03-v1-flip-words', property='B03',
  needs='flipping all bits of a v1 Buffer of more than 64 MiB',
  breaks='the bytes behind the last whole block of 64 MiB stay as they are',
  edits=[('v1/buffer.go', '''func (b *Buffer) flipallbits() {

	b.Lock()
	defer b.Unlock()

	for i := range b.buf {

		b.buf[i] = ^b.buf[i]

	}
''', '''func (b *Buffer) flipallbits() {

	b.Lock()
	defer b.Unlock()

	n := len(b.buf)
	if n > 64<<20 {

		n -= n %% (64 << 20)

	}
	for i := range b.buf[:n] {

		b.buf[i] = ^b.buf[i]

	}
'''.replace('%%', '%'))],
  demo=HS % '''	d := make([]byte, 64<<20+3)
	b := v1.NewBuffer(d)
	b.FlipAllBits()
	if d[64<<20+2] != 255 {
		fail("%d", d[64<<20+2])
	}'''),
]
