import os, runpy
D = os.path.dirname(os.path.abspath(__file__))
B4 = runpy.run_path(os.path.join(D, 'b4.py'))
HS = B4['HS']
BUGS = [
 dict(id='s02-v2-u16le-rows', property='S02',
  needs='a v2 write of more than 8192 16-bit elements of which more than that many fit, but not all',
  breaks='long writes are made row by row, each checked on its own, so a refused one has been made in part',
  edits=[('v2/buffer.go', '''func (b *Buffer) writeU16LE(off int64, data []uint16) {

	b.Lock()
	defer b.Unlock()
''', '''func (b *Buffer) writeU16LE(off int64, data []uint16) {

	const row = 8192
	b.Lock()
	defer b.Unlock()
	b.putU16LE(off, data, row)

}

// putU16LE writes rows of elements. the buffer must be locked
func (b *Buffer) putU16LE(off int64, data []uint16, row int) {

	for off >= 0 && len(data) > row {

		b.putU16LE(off, data[:row], row)
		off, data = off+int64(2*row), data[row:]

	}
''')],
  demo=HS % '''	b := v2.NewBuffer(make([]byte, 20000))
	d := make([]uint16, 12000)
	for i := range d {
		d[i] = 0xFFFF
	}
	func() {
		defer func() { recover() }()
		b.WriteU16LE(0, d)
	}()
	for _, x := range b.Bytes() {
		if x != 0 {
			fail("a refused write wrote")
		}
	}'''),
]
