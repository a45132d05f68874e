import os, runpy
D = os.path.dirname(os.path.abspath(__file__))
B4 = runpy.run_path(os.path.join(D, 'b4.py'))
HS, GEN = B4['HS'], B4['GEN']
HB = HS.replace('"os"', '"encoding/binary"\n\t"os"')
HM = HS.replace('"os"', '"math"\n\t"os"')
BUGS = [
 dict(id='l02-v3-grow-undo', property='L02', regen=True,
  needs='truncating a v3 buffer on the right and growing it again by the same amount',
  breaks='the bytes that were removed come back',
  edits=[('v3/_buffer.go', '''	b.buf = b.buf[0x00 : b.cap-n]
	b.Refresh()
''', '''	b.buf = b.buf[0x00 : b.cap-n]
	b.cut = n
	b.Refresh()
'''), ('v3/_buffer.go', '''	if n <= int64(cap(b.buf))-b.cap {

''', '''	if n > 1 && n == b.cut && n <= int64(cap(b.buf))-b.cap {

		b.cut = 0
		b.buf = b.buf[0 : b.cap+n]
		b.Refresh()
		return

	}

	if n <= int64(cap(b.buf))-b.cap {

'''), ('v3/_buffer.go', '''	bcap int64
}
''', '''	bcap int64
	cut  int64
}
''')],
  demo=HS % '''	b := v3.NewBuffer([]byte{1, 2, 3, 4, 5})
	b.TruncateRight(2)
	b.Grow(2)
	if x := b.Bytes(); x[3] != 0 || x[4] != 0 {
		fail(x)
	}'''),
 dict(id='s02-v2-grow-cap-first', property='S02',
  needs='a v2 Buffer asked to grow by more than can be had, and used afterwards',
  breaks='the size has been raised already when the growth fails',
  edits=[('v2/buffer.go', '''	b.buf = append(b.buf, make([]byte, n)...)
	b.cap = int64(len(b.buf))
	b.bcap = b.cap * 8

}

// refresh updates''', '''	b.cap += n
	b.bcap = b.cap * 8
	b.buf = append(b.buf, make([]byte, n)...)

}

// refresh updates''')],
  demo=HS % '''	b := v2.NewBuffer(make([]byte, 9))
	func() {
		defer func() { recover() }()
		b.Grow(1 << 61)
	}()
	if b.Capacity() != 9 {
		fail(b.Capacity())
	}'''),
 dict(id='s03-v2-list-first', property='S03',
  needs='a v2 Buffer made from a list of slices (list...) that is used again',
  breaks='the first slice of the list is replaced by all of them together',
  edits=[('v2/buffer.go', '''		for _, s := range slices {

			buf.buf = append(buf.buf, s...)

		}
''', '''		for _, s := range slices {

			buf.buf = append(buf.buf, s...)

		}
		slices[0] = buf.buf
''')],
  demo=HS % '''	l := [][]byte{{1}, {2}}
	v2.NewBuffer(l...)
	if len(l[0]) != 1 {
		fail(l)
	}'''),
 dict(id='p02-v1-write-pieces', property='P02',
  needs='a v1 byte write of more than 64 KiB while another goroutine uses the same place',
  breaks='it is done in pieces',
  edits=[('v1/buffer.go', '''	copy(b.buf[off:], data)

}

// writeComplex''', '''	for len(data) > 1<<16 {

		// let the others have their turn during long writes
		copy(b.buf[off:], data[:1<<16])
		off += 1 << 16
		data = data[1<<16:]
		b.Unlock()
		b.Lock()

	}
	copy(b.buf[off:], data)

}

// writeComplex''')],
  demo=HS % '''	b := v1.NewBuffer(make([]byte, 1<<20))
	d := [2][]byte{make([]byte, 1<<20), make([]byte, 1<<20)}
	for i := range d[1] {
		d[1][i] = 1
	}
	for k := 0; k < 300; k++ {
		var wg sync.WaitGroup
		for g := 0; g < 2; g++ {
			g := g
			wg.Add(1)
			go func() { defer wg.Done(); b.WriteBytes(0, d[g]) }()
		}
		wg.Wait()
		x := b.Bytes()
		for i := range x {
			if x[i] != x[0] {
				fail(i)
			}
		}
	}'''),
 dict(id='p02-v2-readbits-halves', property='P02',
  needs='a v2 read of a field of more than 56 bits while another goroutine writes it',
  breaks='it is read in two halves',
  edits=[('v2/buffer.go', '''	i := int64(0)

	if n <= 0 {

		return

	}
	{
	read_loop:
		out = (out << uint64(1)) | uint64(b.getbit(off+i))
''', '''	i := int64(0)

	if n <= 0 {

		return

	}
	{
	read_loop:
		if n > 56 && i == 32 {

			b.Unlock()
			b.Lock()

		}
		out = (out << uint64(1)) | uint64(b.getbit(off+i))
''')],
  demo=HS % '''	b := v2.NewBuffer(make([]byte, 8))
	stop := make(chan int)
	var wg sync.WaitGroup
	for g := 0; g < 3; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
					b.SetBits(0, 0, 64)
					b.SetBits(0, ^uint64(0), 64)
				}
			}
		}()
	}
	for k := 0; k < 300000; k++ {
		if x := b.ReadBits(0, 64); x != 0 && x != ^uint64(0) {
			fail(x)
		}
	}
	close(stop)
	wg.Wait()'''),
 dict(id='p03-v1-order-panics', property='P03',
  needs='a v1 typed read whose byte order panics, then anything else on the same buffer',
  breaks='the lock taken for the values stays taken',
  edits=[('v1/buffer.go', '''		idata := make([]uint32, n)

		for i := int64(0); i < n; i++ {

			idata[i] = endian.Uint32(data[i*4 : (i+1)*4])

		}
		return idata
''', '''		idata := make([]uint32, n)

		b.Lock()
		for i := int64(0); i < n; i++ {

			idata[i] = endian.Uint32(data[i*4 : (i+1)*4])

		}
		b.Unlock()
		return idata
''')],
  demo=HB % '''	b := v1.NewBuffer(make([]byte, 9))
	func() {
		defer func() { recover() }()
		b.ReadComplex(0, 1, v1.Unsigned32, binary.ByteOrder(nil))
	}()
	ok := make(chan int)
	go func() { b.ReadByteNext(); close(ok) }()
	select {
	case <-ok:
	case <-time.After(5 * time.Second):
		fail("blocked")
	}'''),
 dict(id='c02-v3-f64be-nan-late', property='C02',
  needs='a read of more than eight big-endian float64 values with a NaN behind the eighth',
  breaks='its payload is lost',
  edits=[('v3/buffer.generated.go', '''<<48 | uint64(b.buf[off+(i*8)])<<56)
		out[i] = *(*float64)(unsafe.Pointer(&u))
''', '''<<48 | uint64(b.buf[off+(i*8)])<<56)
		if i >= 8 && u&0x7ff0000000000000 == 0x7ff0000000000000 && u<<12 != 0 {
			u = 0x7ff8000000000001
		}
		out[i] = *(*float64)(unsafe.Pointer(&u))
''')],
  demo=HM % '''	s := make([]byte, 80)
	copy(s[72:], []byte{0x7f, 0xf8, 0, 0, 0, 0, 0, 9})
	if x := math.Float64bits(v3.NewBuffer(s).ReadF64BE(0, 10)[9]); x != 0x7ff8000000000009 {
		fail(x)
	}'''),
 dict(id='r02-v3-mini-flipall-copy', property='R02', regen=True,
  needs='flipping all bits of a v3 MiniBuffer of more than 4096 bytes, allocations counted',
  breaks='it is done by way of a fresh slice',
  edits=[('v3/_minibuf.go', '''	flip_loop:
		b.buf[i] = ^b.buf[i]
''', '''	flip_loop:
		if n > 4096 && i == 0 {

			flipped := make([]byte, n)
			for ; i < n; i++ {

				flipped[i] = ^b.buf[i]

			}
			copy(b.buf, flipped)
			return

		}
		b.buf[i] = ^b.buf[i]
''')],
  demo=HS.replace('"os"', '"os"\n\t"testing"') % '''	var b *v3.MiniBuffer
	v3.NewMiniBuffer(&b, make([]byte, 5000))
	if n := testing.AllocsPerRun(20, func() { b.FlipAllBits() }); n > 0 {
		fail(n)
	}'''),
 dict(id='r04-v3-reset-scrub', property='R04', regen=True,
  needs='resetting a v3 Buffer that wraps a slice its owner goes on using',
  breaks='the bytes behind the first page are cleared in the slice of the owner',
  edits=[('v3/_buffer.go', '''	b.buf = b.buf[0:0]
	b.off = 0x00
''', '''	for i := 4096; i < len(b.buf); i++ {

		b.buf[i] = 0

	}
	b.buf = b.buf[0:0]
	b.off = 0x00
''')],
  demo=HS % '''	s := make([]byte, 5000)
	s[4999] = 7
	v3.NewBuffer(s).Reset()
	if s[4999] != 7 {
		fail("cleared")
	}'''),
 dict(id='g03-many', property='G03',
  needs='a template with more than 64 directives',
  breaks='the ones behind the 64th are left as they are',
  edits=[('generation/complex.go', '''		files[name] = magicCommentRegex.ReplaceAllFunc(files[name], func(comment []byte) []byte {
''', '''		count := 0
		files[name] = magicCommentRegex.ReplaceAllFunc(files[name], func(comment []byte) []byte {
			if count++; count > 64 {
				return comment
			}

''')],
  sh=GEN + '''printf 'package t\\n' > "$d/t/_a.go"
for i in $(seq 70); do printf '\\n//generator:complex Buffer Read U 16 LE\\n' >> "$d/t/_a.go"; done
"$d/gen" -directory "$d/t" -generation complex > /dev/null || exit 3
n=$(grep -c '^func (b \\*Buffer) ReadU16LE(' "$d/t/a.generated.go")
[ "$n" = 70 ] || { echo "$n"; exit 1; }
'''),
 dict(id='g02-glob', property='G02',
  needs='a directory whose name has a bracket in it',
  breaks='its templates are not found',
  edits=[('generation/main.go', '''	directoryFiles, err := directory.Readdir(0)
	if err != nil {
		fmt.Printf("! unable to read directory information. (%v)\\n", err)
	}
''', '''	var directoryFiles []os.FileInfo
	matches, err := filepath.Glob(filepath.Join(*directoryName, "_*.go"))
	if err != nil {
		fmt.Printf("! unable to read directory information. (%v)\\n", err)
	}
	for _, match := range matches {
		fileInfo, err := os.Lstat(match)
		if err != nil {
			continue
		}
		directoryFiles = append(directoryFiles, fileInfo)
	}
''')],
  sh=GEN + '''mkdir "$d/t/[old]"
printf 'package t\\n' > "$d/t/[old]/_a.go"
"$d/gen" -directory "$d/t/[old]" -generation complex > /dev/null || exit 3
cmp "$d/t/[old]/_a.go" "$d/t/[old]/a.generated.go" || exit 1
'''),
 dict(id='g02-long-line', property='G02',
  needs='a template with a line of more than 64 KiB',
  breaks='the output ends before it',
  edits=[('generation/main.go', '''			contents, err := ioutil.ReadAll(file)
			_ = file.Close()
''', '''			var contents []byte
			reader := bufio.NewReaderSize(file, 1<<16)
			for err == nil {
				var line []byte
				line, err = reader.ReadSlice('\\n')
				contents = append(contents, line...)
			}
			if err == io.EOF || err == bufio.ErrBufferFull {
				err = nil
			}
			_ = file.Close()
'''), ('generation/main.go', '''	"flag"
''', '''	"bufio"
	"flag"
'''), ('generation/main.go', '''	"io/ioutil"
''', '''	"io"
''')],
  sh=GEN + '''{ printf 'package t\\n\\nvar s = "'; head -c 70000 /dev/zero | tr '\\0' a; printf '"\\n\\nvar t = 1\\n'; } > "$d/t/_a.go"
"$d/gen" -directory "$d/t" -generation complex > /dev/null || exit 3
cmp "$d/t/_a.go" "$d/t/a.generated.go" || exit 1
'''),
]
