import os, runpy
D = os.path.dirname(os.path.abspath(__file__))
B4 = runpy.run_path(os.path.join(D, 'b4.py'))
HS, GEN = B4['HS'], B4['GEN']
BUGS = [
 dict(id='p04-v2-error-text', property='P04', race=True,
  needs='refused reads on two different v2 buffers from two goroutines at once',
  breaks='both write the text of the error they share',
  edits=[('v2/buffer.go', '''// readU16LE reads a slice of uint16s from the buffer at the specified offset in little-endian
func (b *Buffer) readU16LE(off, n int64) (out []uint16) {
''', '''// overread is the error for a read past the end
func overread() Error {

	BufferOverreadError.error = "read exceeds buffer capacity"
	return BufferOverreadError

}

// readU16LE reads a slice of uint16s from the buffer at the specified offset in little-endian
func (b *Buffer) readU16LE(off, n int64) (out []uint16) {
'''), ('v2/buffer.go', '''func (b *Buffer) getbit(off int64) byte {

	if off > (b.bcap - 1) {

		panic(BufferOverreadError)
''', '''func (b *Buffer) getbit(off int64) byte {

	if off > (b.bcap - 1) {

		panic(overread())
''')],
  demo=HS % '''	var wg sync.WaitGroup
	for g := 0; g < 2; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			b := v2.NewBuffer(make([]byte, 9))
			for i := 0; i < 1000; i++ {
				func() {
					defer func() { recover() }()
					b.ReadBit(100)
				}()
			}
		}()
	}
	wg.Wait()'''),
 dict(id='r01-v3-window', property='R01', regen=True,
  needs='using a v3 Buffer as a sliding window (truncating on the left, growing on the right) for long, seen by the memory in use',
  breaks='the storage grows without end',
  edits=[('v3/_buffer.go', '''	b.buf = b.buf[n:b.cap]
''', '''	b.left += n
	b.buf = b.buf[n:b.cap]
'''), ('v3/_buffer.go', '''	tmp := make([]byte, b.cap+n, (int64(cap(b.buf))+n)*2)
''', '''	tmp := make([]byte, b.cap+n, (int64(cap(b.buf))+b.left+n)*2)
'''), ('v3/_buffer.go', '''	bcap int64
}
''', '''	bcap int64
	left int64
}
''')],
  demo=HS % '''	b := v3.NewBuffer(make([]byte, 1000))
	for i := 0; i < 200000; i++ {
		b.TruncateLeft(100)
		b.Grow(100)
	}
	if c := cap(b.Bytes()); c > 100000 {
		fail(c)
	}'''),
 dict(id='r01-v3-mini-grow-zero', property='R01', regen=True,
  needs='growing a v3 MiniBuffer by nothing',
  breaks='its contents are moved to new storage twice the size',
  edits=[('v3/_minibuf.go', '''	if n <= int64(cap(b.buf))-b.cap {

''', '''	if n > 0 && n <= int64(cap(b.buf))-b.cap {

''')],
  demo=HS % '''	var b *v3.MiniBuffer
	v3.NewMiniBuffer(&b, make([]byte, 1000))
	for i := 0; i < 10; i++ {
		b.Grow(0)
	}
	var o []byte
	b.Bytes(&o)
	if cap(o) > 4000 {
		fail(cap(o))
	}'''),
 dict(id='g02-bare-name', property='G02',
  needs='a template whose name is the underscore alone (_.go)',
  breaks='it is passed over',
  edits=[('generation/main.go', '''strings.HasPrefix(fileInfo.Name(), "_") {
''', '''strings.HasPrefix(fileInfo.Name(), "_") && len(fileInfo.Name()) > len("_.go") {
''')],
  sh=GEN + '''printf 'package a\\n' > "$d/t/_.go"
"$d/gen" -directory "$d/t" -generation complex > /dev/null || exit 3
cmp "$d/t/_.go" "$d/t/.generated.go" || exit 1
'''),
 dict(id='g02-upper-case', property='G02',
  needs='a file that begins with an underscore and ends in .GO',
  breaks='it is taken for a template',
  edits=[('generation/main.go', '''filepath.Ext(fileInfo.Name()) == ".go" &&''', '''strings.EqualFold(filepath.Ext(fileInfo.Name()), ".go") &&''')],
  sh=GEN + '''printf 'package a\\n' > "$d/t/_a.GO"
"$d/gen" -directory "$d/t" -generation complex > /dev/null || exit 3
[ "$(ls "$d/t")" = _a.GO ] || { ls "$d/t"; exit 1; }
'''),
 dict(id='n01-v2-mini-readnext-len', property='N01',
  needs='a sequential 64-bit read of the v2 MiniBuffer into a slice longer than what is read',
  breaks='the cursor moves by the length of the slice',
  edits=[('v2/minibuf.go', '''	b.readU64LE(out, b.off, n)
	b.seek(n*8, true)
''', '''	b.readU64LE(out, b.off, n)
	b.seek(int64(len(*out))*8, true)
''')],
  demo=HS % '''	var b *v2.MiniBuffer
	v2.NewMiniBuffer(&b, make([]byte, 99))
	o := make([]uint64, 4)
	b.ReadU64LENext(&o, 1)
	if b.Off() != 8 {
		fail()
	}''' if False else HS % '''	var b *v2.MiniBuffer
	v2.NewMiniBuffer(&b, make([]byte, 99))
	o := make([]uint64, 4)
	b.ReadU64LENext(&o, 1)
	var x int64
	b.Offset(&x)
	if x != 8 {
		fail(x)
	}'''),
]
