import os, runpy
D = os.path.dirname(os.path.abspath(__file__))
H = runpy.run_path(os.path.join(D, 'b1.py'))['H']
HP = H.replace('"os"', '"os"\n\t"runtime/debug"\n\t"syscall"\n\t"unsafe"').replace('func fail(', '''// pages gives n pages of mapped memory.
func pages(n int) []byte {
	m, err := syscall.Mmap(-1, 0, n*4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		fmt.Println(err)
		os.Exit(0)
	}
	return m
}

// prot sets the protection of pages lo..hi-1.
func prot(m []byte, lo, hi, p int) {
	if err := syscall.Mprotect(m[lo*4096:hi*4096], p); err != nil {
		fmt.Println(err)
		os.Exit(0)
	}
}

const none, ro, rw = syscall.PROT_NONE, syscall.PROT_READ, syscall.PROT_READ | syscall.PROT_WRITE

var _ = unsafe.Sizeof(0)

// faults says whether f accesses a page it may not.
func faults(f func()) (is bool) {
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	defer func() { is = recover() != nil }()
	f()
	return
}

func fail(''')
BUGS = [
 dict(id='r03-v3-writebytes-splice', property='R03', regen=True,
  needs='a byte write to a large v3 buffer, seen by what memory it touches (result and contents are right)',
  breaks='everything behind the written range is copied out and back, so a write costs as much as the rest of the buffer is long',
  edits=[('v3/_buffer.go', '''	copy(b.buf[off:], data)
''', '''	tail := append([]byte(nil), b.buf[off+int64(len(data)):]...)
	b.buf = append(append(b.buf[:off], data...), tail...)
''')],
  demo=HP % '''	m := pages(32)
	b := v3.NewBuffer(m)
	prot(m, 4, 32, none)
	if faults(func() { b.WriteBytes(100, []byte{1, 2, 3}) }) {
		fail("a three-byte write touches the far end of the buffer")
	}'''),
 dict(id='r03-v2-u64be-snapshot', property='R03',
  needs='a big-endian 64-bit read from a large v2 buffer, seen by what memory it touches',
  breaks='the values are decoded from a copy of the whole buffer',
  edits=[('v2/buffer.go', '''		out[i] = uint64(b.buf[off+(7+(i*8))]) |
			uint64(b.buf[off+(6+(i*8))])<<8 |''', '''		if i == 0 {

			snapshot = append(snapshot, b.buf...)

		}
		out[i] = uint64(snapshot[off+(7+(i*8))]) |
			uint64(b.buf[off+(6+(i*8))])<<8 |'''),
   ('v2/buffer.go', '''func (b *Buffer) readU64BE(off, n int64) (out []uint64) {
''', '''func (b *Buffer) readU64BE(off, n int64) (out []uint64) {

	var snapshot []byte
''')],
  demo=HP % '''	m := pages(32)
	b := v2.NewBuffer(m)
	prot(m, 4, 32, none)
	if faults(func() { b.ReadU64BE(8, 2) }) {
		fail("reading sixteen bytes touches the far end of the buffer")
	}'''),
 dict(id='r03-v1-mini-new-populate', property='R03',
  needs='wrapping a large slice in a v1 MiniBuffer, seen by what memory it touches',
  breaks='the constructor writes every page of the slice back to itself, which populates lazily backed storage',
  edits=[('v1/minibuf.go', '''	case 1:
		(*out).buf = slices[0]
''', '''	case 1:
		(*out).buf = slices[0]
		for i := 0; i < len(slices[0]); i += 4096 {

			(*out).buf[i] = slices[0][i]

		}
''')],
  demo=HP % '''	m := pages(32)
	prot(m, 0, 32, none)
	var b *v1.MiniBuffer
	if faults(func() { v1.NewMiniBuffer(&b, m) }) {
		fail("wrapping touches the contents")
	}'''),
 dict(id='p04-v2-mini-u32be-swap', property='P04',
  needs='big-endian 32-bit reads of a shared v2 MiniBuffer, two readers at once or read-only storage',
  breaks='the reader swaps the bytes in place, decodes and swaps them back',
  edits=[('v2/minibuf.go', '''		(*out)[i] = uint32(b.buf[off+(3+(i*4))]) |
			uint32(b.buf[off+(2+(i*4))])<<8 |
			uint32(b.buf[off+(1+(i*4))])<<16 |
			uint32(b.buf[off+(i*4)])<<24
''', '''		e := b.buf[off+(i*4) : off+(i*4)+4]
		e[0], e[1], e[2], e[3] = e[3], e[2], e[1], e[0]
		(*out)[i] = uint32(e[0]) | uint32(e[1])<<8 | uint32(e[2])<<16 | uint32(e[3])<<24
		e[0], e[1], e[2], e[3] = e[3], e[2], e[1], e[0]
''')],
  demo=HP % '''	m := pages(1)
	m[0], m[1], m[2], m[3] = 1, 2, 3, 4
	var b *v2.MiniBuffer
	v2.NewMiniBuffer(&b, m)
	prot(m, 0, 1, ro)
	out := make([]uint32, 1)
	if faults(func() { b.ReadU32BE(&out, 0, 1) }) || out[0] != 0x01020304 {
		fail("a read writes to the storage", out)
	}'''),
 dict(id='s03-v2-u16be-arg-swap', property='S03',
  needs='a big-endian 16-bit v2 write whose data is shared or read-only',
  breaks='the data is byte-swapped in place during the write and swapped back afterwards',
  edits=[('v2/buffer.go', '''		b.buf[off+int64(i*2)] = byte(data[i] >> 8)
		b.buf[off+int64(1+(i*2))] = byte(data[i])
''', '''		data[i] = data[i]<<8 | data[i]>>8
		b.buf[off+int64(i*2)] = byte(data[i])
		b.buf[off+int64(1+(i*2))] = byte(data[i] >> 8)
		data[i] = data[i]<<8 | data[i]>>8
''')],
  demo=HP % '''	m := pages(1)
	d := unsafe.Slice((*uint16)(unsafe.Pointer(&m[0])), 4)
	d[0] = 0x0102
	prot(m, 0, 1, ro)
	b := v2.NewBuffer(make([]byte, 16))
	if faults(func() { b.WriteU16BE(0, d) }) {
		fail("a write changes the data it is given")
	}'''),
]
