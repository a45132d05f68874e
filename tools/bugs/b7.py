import os, runpy
D = os.path.dirname(os.path.abspath(__file__))
H = runpy.run_path(os.path.join(D, 'b1.py'))['H']
BUGS = [
 dict(id='m02-v2-u64le-small', property='M02',
  needs='two 64-bit little-endian reads of up to eight elements from one v2 buffer, the first result being used after the second',
  breaks='short results share memory kept in the buffer',
  edits=[('v2/buffer.go', '''type Buffer struct {
''', '''type Buffer struct {
	small [8]uint64
'''), ('v2/buffer.go', '''	out = make([]uint64, n)

	i := int64(0)
	if n == 0 {

		return

	}
	{
	read_loop:
		out[i] = uint64(b.buf[off+(i*8)]) |
''', '''	if n <= int64(len(b.small)) {

		out = b.small[:n]

	} else {

		out = make([]uint64, n)

	}

	i := int64(0)
	if n == 0 {

		return

	}
	{
	read_loop:
		out[i] = uint64(b.buf[off+(i*8)]) |
''')],
  demo=H % '''	b := v2.NewBuffer([]byte{1, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0})
	x := b.ReadU64LE(0, 1)
	b.ReadU64LE(8, 1)
	if x[0] != 1 {
		fail("the first result became", x[0])
	}
'''),
 dict(id='m02-v1-complex-arena', property='M02',
  needs='appending to a 64-bit result of a v1 buffer after a second one has been read',
  breaks='results are cut from one block without limiting their capacity, so appending to one overwrites the next',
  edits=[('v1/buffer.go', '''type Buffer struct {
''', '''type Buffer struct {
	words []uint64
'''), ('v1/buffer.go', '''		idata := make([]uint64, n)
''', '''		if int64(cap(b.words)-len(b.words)) < n {
			b.words = make([]uint64, 0, n+32)
		}
		idata := b.words[len(b.words) : int64(len(b.words))+n]
		b.words = b.words[:int64(len(b.words))+n]
''')],
  demo=H % '''	b := v1.NewBuffer([]byte{1, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0})
	x := b.ReadComplex(0, 1, v1.Unsigned64, v1.LittleEndian).([]uint64)
	y := b.ReadComplex(8, 1, v1.Unsigned64, v1.LittleEndian).([]uint64)
	x = append(x, 77)
	if y[0] != 2 {
		fail("the second result became", y[0])
	}
'''),
 dict(id='m02-v3-clearall-fresh', property='M02',
  needs='clearing all bits of a v3 buffer of 64 or more bytes whose contents slice is held by the client',
  breaks='the contents move to new memory, so the slice no longer shows them',
  edits=[(f, '''	var (
		i = int64(0)
		n = int64(len(b.buf))
	)
	if n == 0 {

		return

	}
	{
	clear_loop:
''', '''	var (
		i = int64(0)
		n = int64(len(b.buf))
	)
	if n == 0 {

		return

	}
	if n >= 64 {

		b.buf = make([]byte, n)
		return

	}
	{
	clear_loop:
''') for f in ('v3/_buffer.go', 'v3/buffer.generated.go')],
  demo=H % '''	b := v3.NewBuffer(make([]byte, 100))
	w := b.Bytes()
	b.ClearAllBits()
	b.WriteByte(3, 9)
	if w[3] != 9 {
		fail("the slice of the contents does not show the write")
	}
'''),
]
