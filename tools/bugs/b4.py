import os, runpy
D = os.path.dirname(os.path.abspath(__file__))
H = runpy.run_path(os.path.join(D, 'b1.py'))['H']
HT = runpy.run_path(os.path.join(D, 'b3.py'))['HT']
HS = HT.replace('"os"', '"os"\n\t"sync"\n\t"time"').replace('var _ = v1.NewBuffer', 'var _ sync.Mutex\nvar _ = time.Now\nvar _ = v1.NewBuffer')
GEN = '''#!/bin/bash
# Runs the generator over templates of its own or those of the third version.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
(cd "$repo/generation" && go build -buildvcs=false -o "$d/gen" .) || exit 3
mkdir "$d/t"
'''
REGEN = GEN + '''cp "$repo"/v3/*.go "$repo/v3/go.mod" "$repo/v3/go.sum" "$d/t/"
rm -f "$d/t/"*_test.go
"$d/gen" -directory "$d/t" -generation complex > /dev/null || exit 3
mkdir "$d/m"
cp "$here/demo.go" "$d/m/main.go"
printf 'module demo.local/m\\n\\ngo 1.20\\n' > "$d/m/go.mod"
printf 'go 1.27\\n\\nuse (\\n\\t./m\\n\\t./t\\n)\\n' > "$d/go.work"
cd "$d/m" || exit 3
export GOFLAGS= GOWORK="$d/go.work"
go build -buildvcs=false -o "$d/demo" . || exit 1
"$d/demo"
'''
RM = '''package main

import (
	"fmt"
	"os"

	v3 "github.com/superwhiskers/crunch/v3"
)

func fail(a ...any) { fmt.Println(a...); os.Exit(1) }

func main() {
%s
}
'''
BUGS = [
 dict(id='p01-v2-flipall-size', property='P01', race=True,
  needs='flipping all bits of a v2 buffer while another goroutine grows it',
  breaks='the size is read before the lock is taken',
  edits=[('v2/buffer.go', '''func (b *Buffer) flipallbits() {

	b.Lock()
	defer b.Unlock()

	var (
		i = int64(0)
		n = int64(len(b.buf))
	)
''', '''func (b *Buffer) flipallbits() {

	var (
		i = int64(0)
		n = int64(len(b.buf))
	)

	b.Lock()
	defer b.Unlock()

''')],
  demo=HS % '''	b := v2.NewBuffer(make([]byte, 8))
	var w sync.WaitGroup
	for g := 0; g < 2; g++ {
		w.Add(1)
		go func(g int) {
			defer w.Done()
			for i := 0; i < 500; i++ {
				if g == 0 {
					b.FlipAllBits()
				} else {
					b.Grow(1)
				}
			}
		}(g)
	}
	w.Wait()'''),
 dict(id='p01-v1-refresh-check', property='P01', race=True,
  needs='refreshing a v1 buffer while another goroutine grows it',
  breaks='the sizes are compared without the lock before it is taken',
  edits=[('v1/buffer.go', '''func (b *Buffer) refresh() {

	b.Lock()
	defer b.Unlock()

''', '''func (b *Buffer) refresh() {

	if b.cap == int64(len(b.buf)) && b.bcap == b.cap*8 {

		return

	}

	b.Lock()
	defer b.Unlock()

''')],
  demo=HS % '''	b := v1.NewBuffer(make([]byte, 8))
	var w sync.WaitGroup
	for g := 0; g < 2; g++ {
		w.Add(1)
		go func(g int) {
			defer w.Done()
			for i := 0; i < 500; i++ {
				if g == 0 {
					b.Refresh()
				} else {
					b.Grow(1)
				}
			}
		}(g)
	}
	w.Wait()'''),
 dict(id='p01-v2-seekbit-absolute', property='P01', race=True,
  needs='an absolute bit seek while another goroutine asks for the bit cursor holding the lock',
  breaks='absolute bit seeks no longer take the lock',
  edits=[('v2/buffer.go', '''func (b *Buffer) seekbit(off int64, relative bool) {

	b.Lock()
	defer b.Unlock()

	if relative {

		b.boff += off

	} else {

		b.boff = off

	}
''', '''func (b *Buffer) seekbit(off int64, relative bool) {

	if !relative {

		b.boff = off
		return

	}

	b.Lock()
	defer b.Unlock()

	b.boff += off
''')],
  demo=HS % '''	b := v2.NewBuffer(make([]byte, 8))
	var w sync.WaitGroup
	for g := 0; g < 2; g++ {
		w.Add(1)
		go func(g int) {
			defer w.Done()
			for i := 0; i < 500; i++ {
				if g == 0 {
					b.SeekBit(int64(i), false)
				} else {
					b.Lock()
					_ = b.BitOffset()
					b.Unlock()
				}
			}
		}(g)
	}
	w.Wait()'''),
 dict(id='p02-v2-flipbit-split', property='P02',
  needs='two goroutines changing bits of the same byte at the same moment, one of them flipping',
  breaks='the lock is dropped between reading and writing the byte, so the other update is lost',
  edits=[('v2/buffer.go', '''	b.buf[off/8] ^= (1 << uint(7-(off%8)))
''', '''	v := b.buf[off/8] ^ (1 << uint(7-(off%8)))
	b.Unlock()
	b.Lock()
	b.buf[off/8] = v
''')],
  demo=HS % '''	b := v2.NewBuffer(make([]byte, 1))
	var w sync.WaitGroup
	for g := int64(0); g < 8; g++ {
		w.Add(1)
		go func(g int64) {
			defer w.Done()
			for i := 0; i < 200000; i++ {
				b.FlipBit(g)
			}
		}(g)
	}
	w.Wait()
	if b.Bytes()[0] != 0 {
		fail(b.Bytes())
	}'''),
 dict(id='p02-v1-flipall-pieces', property='P02',
  needs='flipping all bits of a v1 buffer longer than 16 bytes while another goroutine reads or flips it',
  breaks='the lock is dropped after every 16 bytes, so half-flipped contents are seen',
  edits=[('v1/buffer.go', '''	for i := range b.buf {

		b.buf[i] = ^b.buf[i]

	}
''', '''	for i := range b.buf {

		if i != 0 && i%16 == 0 {

			b.Unlock()
			b.Lock()

		}
		b.buf[i] = ^b.buf[i]

	}
''')],
  demo=HT.replace('"os"', '"encoding/binary"\n\t"os"') % '''	b := v1.NewBuffer(make([]byte, 4096))
	done := make(chan bool)
	go func() {
		for i := 0; i < 3000; i++ {
			b.FlipAllBits()
		}
		close(done)
	}()
	for {
		select {
		case <-done:
			return
		default:
		}
		v := b.ReadComplex(0, 512, v1.Unsigned64, binary.BigEndian).([]uint64)
		if v[0] != v[511] {
			fail(v[0], v[511])
		}
	}'''),
 dict(id='p02-v2-alignbit-stale', property='P02',
  needs='aligning the bit cursor while another goroutine moves the byte cursor',
  breaks='the byte cursor is read before the lock is taken for storing the bit cursor',
  edits=[('v2/buffer.go', '''func (b *Buffer) ReadU16LENext(n int64) (out []uint16) {

	b.cursor.Lock()
	defer b.cursor.Unlock()

	out = b.readU16LE(b.off, n)
	b.seek(n*2, true)
''', '''func (b *Buffer) ReadU16LENext(n int64) (out []uint16) {

	b.cursor.Lock()
	off := b.off
	b.cursor.Unlock()

	out = b.readU16LE(off, n)
	b.seek(n*2, true)
''')],
  demo=HS % '''	for round := 0; round < 50; round++ {
		n := 4000
		d := make([]uint16, n)
		for i := range d {
			d[i] = uint16(i)
		}
		b := v2.NewBuffer(make([]byte, 2*n))
		b.WriteU16LE(0, d)
		var w sync.WaitGroup
		var m sync.Mutex
		seen := map[uint16]bool{}
		for g := 0; g < 8; g++ {
			w.Add(1)
			go func() {
				defer w.Done()
				var mine []uint16
				for i := 0; i < n/8; i++ {
					mine = append(mine, b.ReadU16LENext(1)...)
				}
				m.Lock()
				for _, x := range mine {
					seen[x] = true
				}
				m.Unlock()
			}()
		}
		w.Wait()
		if len(seen) != n {
			fail(len(seen))
		}
	}'''),
 dict(id='p03-v2-clearall-empty', property='P03',
  needs='clearing all bits of an empty v2 buffer and then using it again',
  breaks='the lock is still held after the early return',
  edits=[('v2/buffer.go', '''func (b *Buffer) clearallbits() {

	b.Lock()
	defer b.Unlock()

	var (
		i = int64(0)
		n = int64(len(b.buf))
	)
	if n == 0 {

		return

	}
	{
	clear_loop:
		b.buf[i] = 0
		i++
		if i < n {

			goto clear_loop

		}
	}
''', '''func (b *Buffer) clearallbits() {

	b.Lock()

	var (
		i = int64(0)
		n = int64(len(b.buf))
	)
	if n == 0 {

		return

	}
	{
	clear_loop:
		b.buf[i] = 0
		i++
		if i < n {

			goto clear_loop

		}
	}
	b.Unlock()
''')],
  demo=HS % '''	b := v2.NewBuffer()
	b.ClearAllBits()
	if !b.TryLock() {
		fail("still locked")
	}'''),
 dict(id='p03-v1-mini-grow-lock', property='P03',
  needs='a client that holds the lock of a v1 MiniBuffer growing it beyond its spare room',
  breaks='growing locks the buffer itself, so the client deadlocks',
  edits=[('v1/minibuf.go', '''	b.buf = append(b.buf, make([]byte, n)...)
	b.refresh()
''', '''	if int64(cap(b.buf)-len(b.buf)) < n && b.boff > b.bcap {

		b.Lock()
		defer b.Unlock()

	}
	b.buf = append(b.buf, make([]byte, n)...)
	b.refresh()
''')],
  demo=HS % '''	var b *v1.MiniBuffer
	v1.NewMiniBuffer(&b, []byte{1})
	done := make(chan bool)
	go func() {
		b.Lock()
		b.SeekBit(100, false)
		b.Grow(9)
		b.Unlock()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		fail("deadlock")
	}'''),
 dict(id='p04-v3-writebyte-scratch', property='P04', race=True, regen=True,
  needs='two goroutines writing single bytes to two different v3 buffers',
  breaks='all buffers share one scratch byte',
  edits=[('v3/_buffer.go', '''func (b *Buffer) WriteByte(off int64, data byte) {

	b.WriteBytes(off, []byte{data})

}''', '''func (b *Buffer) WriteByte(off int64, data byte) {

	single[0] = data
	b.WriteBytes(off, single[:])

}

// single holds the byte being written
var single [1]byte''')],
  demo=HS % '''	var w sync.WaitGroup
	for g := 0; g < 2; g++ {
		w.Add(1)
		go func(g byte) {
			defer w.Done()
			b := v3.NewBuffer(make([]byte, 1))
			for i := 0; i < 1000; i++ {
				b.WriteByte(0, g)
				if b.ReadByte(0) != g {
					fail("wrong byte")
				}
			}
		}(byte(g))
	}
	w.Wait()'''),
 dict(id='p04-v3-mini-readbits-cursor', property='P04', race=True, regen=True,
  needs='two goroutines reading bit fields of one v3 MiniBuffer that nobody changes',
  breaks='a positioned bit read borrows the bit cursor and puts it back',
  edits=[('v3/_minibuf.go', '''		b.ReadBit(&bout, off+i)
		*out =''', '''		cur := b.boff
		b.boff = off + i
		b.ReadBit(&bout, b.boff)
		b.boff = cur

		*out =''')],
  demo=HS % '''	var b *v3.MiniBuffer
	v3.NewMiniBuffer(&b, make([]byte, 8))
	var w sync.WaitGroup
	for g := 0; g < 2; g++ {
		w.Add(1)
		go func() {
			defer w.Done()
			for i := 0; i < 1000; i++ {
				var o uint64
				b.ReadBits(&o, 3, 9)
			}
		}()
	}
	w.Wait()'''),
 dict(id='g01-template-alignbyte', property='G01',
  needs='regenerating the third version and aligning the byte cursor to a bit cursor inside a byte',
  breaks='the template was changed without regenerating, so the regenerated library rounds up',
  edits=[('v3/_minibuf.go', '''	b.off = b.boff / 8
''', '''	b.off = (b.boff + 7) / 8
''')],
  sh=REGEN, files={'demo.go': RM % '''	var b *v3.MiniBuffer
	v3.NewMiniBuffer(&b, make([]byte, 8))
	b.SeekBit(9, false)
	b.AlignByte()
	var o int64
	b.ByteOffset(&o)
	if o != 1 {
		fail(o)
	}'''}),
 dict(id='g01-gen-next-seek', property='G01',
  needs='regenerating the third version and reading 64-bit elements sequentially',
  breaks='the generated sequential reads of 64-bit elements do not move the cursor',
  edits=[('generation/complex.go', '''					body.Id("b").Dot("SeekByte").
						Call(jen.Id("n").Op("*").Lit(intBytes), jen.Lit(true))
''', '''					body.Id("b").Dot("SeekByte").
						Call(jen.Id("n").Op("*").Lit(intBytes&0x07), jen.Lit(true))
''')],
  sh=REGEN, files={'demo.go': RM % '''	b := v3.NewBuffer(make([]byte, 16))
	b.ReadI64LENext(2)
	if b.ByteOffset() != 16 {
		fail(b.ByteOffset())
	}'''}),
 dict(id='g02-dir-filter', property='G02',
  needs='a template that is a symbolic link to a file kept elsewhere',
  breaks='links to templates are not processed any more, only regular files are',
  edits=[('generation/main.go', '!fileInfo.IsDir() &&', 'fileInfo.Mode().IsRegular() &&')],
  sh=GEN + '''mkdir "$d/t/shared"
printf 'package t\\n' > "$d/t/shared/a.txt"
ln -s shared/a.txt "$d/t/_a.go"
"$d/gen" -directory "$d/t" -generation complex > /dev/null || exit 3
[ -f "$d/t/a.generated.go" ] || { echo "no output"; exit 1; }
'''),
 dict(id='g02-large-template', property='G02',
  needs='a template whose output is longer than 64 KiB',
  breaks='the output is written in pieces, and a byte is lost between them',
  edits=[('generation/main.go', '''		_, err = file.Write(contents)
''', '''		for len(contents) > 64*1024 && err == nil {
			_, err = file.Write(contents[:64*1024])
			contents = contents[64*1024+1:]
		}
		if err == nil {
			_, err = file.Write(contents)
		}
''')],
  sh=GEN + '''{ printf 'package t\\n'; for i in $(seq 2000); do echo "// some text that is long enough to fill the template file"; done; } > "$d/t/_a.go"
"$d/gen" -directory "$d/t" -generation complex > /dev/null || exit 3
cmp "$d/t/_a.go" "$d/t/a.generated.go" || { echo differs; exit 1; }
'''),
 dict(id='g02-crlf', property='G02',
  needs='a template with a carriage return in a raw string or at the end of a line',
  breaks='carriage returns are removed from the hand-written text',
  edits=[('generation/main.go', '''		_, err = file.Write(contents)
''', '''		_, err = file.WriteString(strings.Replace(string(contents), "\\r\\n", "\\n", -1))
''')],
  sh=GEN + '''printf 'package t\\n\\nvar s = 1 // text\\r\\n\\nvar t = 2\\n' > "$d/t/_a.go"
"$d/gen" -directory "$d/t" -generation complex > /dev/null || exit 3
cmp "$d/t/_a.go" "$d/t/a.generated.go" || { echo differs; exit 1; }
'''),
 dict(id='g03-directive-at-end', property='G03',
  needs='a directive as the very last line of a template, without a line break behind it',
  breaks='it is not expanded',
  edits=[('generation/complex.go', '''([0-9]{1,}) ([A-z]{1,})$")''', '''([0-9]{1,}) ([A-z]{1,})\\n")''')],
  sh=GEN + '''printf 'package t\\n\\n//generator:complex Buffer Read U 16 LE' > "$d/t/_a.go"
"$d/gen" -directory "$d/t" -generation complex > /dev/null || exit 3
grep -q 'func (b \\*Buffer) ReadU16LENext' "$d/t/a.generated.go" || { echo "not expanded"; exit 1; }
'''),
 dict(id='g03-repeat', property='G03',
  needs='the same directive in two places of one template (for two build variants of the text, say)',
  breaks='only the first one is expanded, the second one becomes a comment',
  edits=[('generation/complex.go', '''	for name := range files {
		fmt.Println("* scanning", name)
''', '''	for name := range files {
		fmt.Println("* scanning", name)
		done := map[string]bool{}
'''), ('generation/complex.go', '''			fmt.Printf("* invocation. args: %v\\n", arguments)
''', '''			fmt.Printf("* invocation. args: %v\\n", arguments)
			if done[string(comment)] {
				return []byte("// expanded above")
			}
			done[string(comment)] = true
''')],
  sh=GEN + '''printf 'package t\\n\\n//generator:complex Buffer Read U 16 LE\\n\\n//generator:complex Buffer Read U 16 LE\\n' > "$d/t/_a.go"
"$d/gen" -directory "$d/t" -generation complex > /dev/null || exit 3
[ $(grep -c 'func (b \\*Buffer) ReadU16LENext' "$d/t/a.generated.go") = 2 ] || { echo "not expanded twice"; exit 1; }
'''),
 dict(id='g03-order-part', property='G03',
  needs='a directive whose byte order is a part of a supported one, such as E',
  breaks='it is expanded to code that does not compile instead of a comment',
  edits=[('generation/complex.go', '''			if arguments[4] != "BE" && arguments[4] != "LE" {
''', '''			if !strings.Contains("BE LE", arguments[4]) {
''')],
  sh=GEN + '''printf 'package t\\n\\n//generator:complex Buffer Read U 16 E\\n' > "$d/t/_a.go"
"$d/gen" -directory "$d/t" -generation complex > /dev/null || exit 3
! grep -q func "$d/t/a.generated.go" || { echo "expanded"; exit 1; }
'''),
 dict(id='r01-v2-mini-grow-exact', property='R01',
  needs='growing a v2 MiniBuffer byte by byte to a large size',
  breaks='every growth relocates the contents into storage that is just large enough',
  edits=[('v2/minibuf.go', '''	b.buf = append(b.buf, make([]byte, n)...)
	b.refresh()
''', '''	tmp := make([]byte, b.cap+n)
	copy(tmp, b.buf)
	b.buf = tmp
	b.refresh()
''')],
  demo=HT % '''	var b *v2.MiniBuffer
	v2.NewMiniBuffer(&b, []byte{})
	moves := 0
	var last *byte
	for i := 0; i < 20000; i++ {
		b.Grow(1)
		var c []byte
		b.Bytes(&c)
		if &c[0] != last {
			moves++
			last = &c[0]
		}
	}
	if moves > 500 {
		fail(moves)
	}'''),
 dict(id='r01-v3-grow-step', property='R01', regen=True,
  needs='growing a v3 buffer in small steps far beyond 64 KiB',
  breaks='beyond 64 KiB the storage grows by a fixed amount instead of doubling',
  edits=[('v3/_buffer.go', '''	tmp := make([]byte, b.cap+n, (int64(cap(b.buf))+n)*2)
''', '''	size := (int64(cap(b.buf)) + n) * 2
	if size > 1<<16 {
		size = b.cap + n + 1024
	}
	tmp := make([]byte, b.cap+n, size)
''')],
  demo=HT % '''	b := v3.NewBuffer([]byte{})
	moves := 0
	var last *byte
	for i := 0; i < 20000; i++ {
		b.Grow(100)
		if c := b.Bytes(); &c[0] != last {
			moves++
			last = &c[0]
		}
	}
	if moves > 500 {
		fail(moves)
	}'''),
 dict(id='r01-v3-mini-grow-fit', property='R01', regen=True,
  needs='growing a v3 MiniBuffer by exactly the spare room of its storage',
  breaks='growth that exactly fits relocates the contents',
  edits=[('v3/_minibuf.go', '''	if n <= int64(cap(b.buf))-b.cap {
''', '''	if n < int64(cap(b.buf))-b.cap {
''')],
  demo=HT % '''	s := make([]byte, 8)
	var b *v3.MiniBuffer
	v3.NewMiniBuffer(&b, s[:4])
	b.Grow(4)
	var c []byte
	b.Bytes(&c)
	if &c[0] != &s[0] {
		fail("moved")
	}'''),
 dict(id='r02-v3-readbits-slice', property='R02', regen=True,
  needs='reading bit fields of varying width from the v3 buffer',
  breaks='every bit field read collects the bits in a new slice',
  edits=[('v3/_buffer.go', '''		out = (out << uint64(1)) | uint64(b.ReadBit(off+i))
''', '''		if i == 0 {
			bits = make([]byte, n)
		}
		bits[i] = b.ReadBit(off + i)
		out = (out << uint64(1)) | uint64(bits[i])
'''), ('v3/_buffer.go', '''func (b *Buffer) ReadBits(off, n int64) (out uint64) {

	i := int64(0)
''', '''func (b *Buffer) ReadBits(off, n int64) (out uint64) {

	var bits []byte
	i := int64(0)
''')],
  demo=HT.replace('"os"', '"os"\n\t"testing"') % '''	b := v3.NewBuffer(make([]byte, 64))
	n := int64(3)
	if a := testing.AllocsPerRun(100, func() { b.ReadBits(5, n); n = n%60 + 1 }); a != 0 {
		fail(a)
	}'''),
 dict(id='r02-v3-mini-writebytes-long', property='R02', regen=True,
  needs='writing more than 256 bytes to the v3 MiniBuffer in one call',
  breaks='long writes go through a temporary copy',
  edits=[('v3/_minibuf.go', '''	copy(b.buf[off:], data)
''', '''	if len(data) > 256 {
		data = append([]byte(nil), data...)
	}
	copy(b.buf[off:], data)
''')],
  demo=HT.replace('"os"', '"os"\n\t"testing"') % '''	var b *v3.MiniBuffer
	v3.NewMiniBuffer(&b, make([]byte, 1000))
	d := make([]byte, 900)
	if a := testing.AllocsPerRun(100, func() { b.WriteBytes(5, d) }); a != 0 {
		fail(a)
	}'''),
 dict(id='a01-v3-f32le-wide', property='A01', run='"$d/demo"',
  needs='writing a float32 slice that ends where its memory ends, under the pointer checks of the compiler',
  breaks='eight bytes are read from the last four-byte element',
  edits=[('v3/minibuf.generated.go', '''		b.buf[off+int64(i*4)] = byte(*(*uint32)(unsafe.Pointer(&data[i])))
''', '''		b.buf[off+int64(i*4)] = byte(*(*uint64)(unsafe.Pointer(&data[i])))
''')],
  sh='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/m"
cp "$here/demo.go" "$d/m/main.go"
printf 'module demo.local/m\\n\\ngo 1.20\\n' > "$d/m/go.mod"
printf 'go 1.27\\n\\nuse (\\n\\t./m\\n\\t%s/v3\\n)\\n' "$repo" > "$d/go.work"
cd "$d/m" || exit 3
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK="$d/go.work"
go build -buildvcs=false -gcflags=all=-d=checkptr=1 -o "$d/demo" . || exit 3
"$d/demo"
''', files={'demo.go': RM % '''	var b *v3.MiniBuffer
	v3.NewMiniBuffer(&b, make([]byte, 64))
	for n := 1; n < 17; n++ {
		d := make([]float32, n)
		b.WriteF32LE(0, d)
	}
	if len(os.Args) > 99 {
		fail(b)
	}'''}),
 dict(id='a01-v3-mini-f32-wide', property='A01',
  needs='reading little-endian float32 elements at the very end of the storage of the v3 MiniBuffer, under the pointer checks of the compiler',
  breaks='eight bytes are loaded where the last element has four',
  edits=[('v3/minibuf.generated.go', '''uint32(b.buf[off+(3+(i*4))])<<24)
		(*out)[i] = *(*float32)(unsafe.Pointer(&u))
''', '''uint32(b.buf[off+(3+(i*4))])<<24)
		u = uint32(*(*uint64)(unsafe.Pointer(&b.buf[off+(i*4)])))
		(*out)[i] = *(*float32)(unsafe.Pointer(&u))
''')],
  sh='A01SH', files={'demo.go': RM % '''	var b *v3.MiniBuffer
	for n := int64(4); n < 100; n += 4 {
		v3.NewMiniBuffer(&b, make([]byte, n))
		out := make([]float32, 1)
		b.ReadF32LE(&out, n-4, 1)
		if len(os.Args) > 99 {
			fail(out)
		}
	}'''}),
 dict(id='a02-v3-seekbyte-int', property='A02', regen=True,
  needs='seeking beyond 2^31 on a 32-bit platform',
  breaks='the position goes through int and is cut to 32 bits there',
  edits=[('v3/_buffer.go', '''		b.off += off
''', '''		b.off += int64(int(off))
''')],
  run='"$d/demo"', demo=HT % '''	b := v3.NewBuffer(make([]byte, 8))
	b.SeekByte(1<<33, true)
	if b.ByteOffset() != 1<<33 {
		fail(b.ByteOffset())
	}'''),
 dict(id='a02-v1-after-int', property='A02',
  needs='asking for the bytes after a position below -2^31 on a 32-bit platform',
  breaks='the difference goes through int and is cut to 32 bits there',
  edits=[('v1/minibuf.go', '''	*out = b.cap - off[0] - 1
''', '''	*out = int64(int(b.cap) - int(off[0]) - 1)
''')],
  demo=HT % '''	var b *v1.MiniBuffer
	v1.NewMiniBuffer(&b, make([]byte, 8))
	var o int64
	b.After(&o, -1<<33)
	if o != 8+1<<33-1 && o != 8+(1<<33)-1 {
		fail(o)
	}'''),
 dict(id='a02-v2-writeu64-index', property='A02',
  needs='a v2 32-bit big-endian write on a 32-bit platform at an offset beyond the 32-bit range',
  breaks='the offset is cut to 32 bits when indexing, so the refusal of the runtime is lost on the unchecked buffer',
  edits=[('v2/minibuf.go', '''	b.off = b.boff / 8
''', '''	b.off = int64(int(b.boff) / 8)
''')],
  demo=HT % '''	var b *v2.MiniBuffer
	v2.NewMiniBuffer(&b, make([]byte, 8))
	b.SeekBit(1<<34, false)
	b.AlignByte()
	var o int64
	b.Offset(&o)
	if o != 1<<31 {
		fail(o)
	}'''),
]
A01 = [x for x in BUGS if x['id'] == 'a01-v3-f32le-wide'][0]['sh']
for x in BUGS:
    if x.get('sh') == 'A01SH':
        x['sh'] = A01
    if x['id'].startswith('a02-'):
        x['goarch'] = '386'
    if x['id'] == 'p02-v2-alignbit-stale':
        x['id'] = 'p02-v2-u16next-cursor'
        x['needs'] = 'two goroutines reading 16-bit elements sequentially from one v2 buffer'
        x['breaks'] = 'the cursor is read in an earlier critical section, so two readers get the same element and another is skipped'
    if x['id'] == 'a02-v2-writeu64-index':
        x['id'] = 'a02-v2-alignbyte-int'
        x['needs'] = 'aligning the byte cursor of a v2 MiniBuffer to a bit cursor beyond 2^31 on a 32-bit platform'
        x['breaks'] = 'the bit cursor goes through int and is cut to 32 bits there'
