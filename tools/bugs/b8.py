import os, runpy
D = os.path.dirname(os.path.abspath(__file__))
H = runpy.run_path(os.path.join(D, 'b1.py'))['H']
H = H.replace('"os"', '"os"\n\t"syscall"').replace('fmt.Println(a...)', 'fmt.Println(a...)')
H = H.replace('var _ = v1', 'var _ = syscall.Mmap\nvar _ = v1')
BUGS = [
 dict(id='l01-v3-mini-cap-list', property='L01', regen=True,
  needs='a v3 MiniBuffer built from a list of two or more slices (list...) that has spare capacity holding another slice',
  breaks='slices of the list\'s spare room are appended to the contents',
  edits=[('v3/_minibuf.go', '''			n = int64(len(slices))
		)
''', '''			n = int64(len(slices[:cap(slices)]))
		)

		slices = slices[:n]
'''), ('v3/minibuf.generated.go', '''			n = int64(len(slices))
		)
''', '''			n = int64(len(slices[:cap(slices)]))
		)

		slices = slices[:n]
''')],
  demo=H % '''	list := [][]byte{{1}, {2}, {3}}
	var b *v3.MiniBuffer
	v3.NewMiniBuffer(&b, list[:2]...)
	var n int64
	b.ByteCapacity(&n)
	if n != 2 {
		fail("size", n)
	}'''),
 dict(id='b03-v2-setall-uint32', property='B03',
  needs='SetAllBits of the v2 Buffer with more than 2^32 bytes',
  breaks='only the bytes below the size modulo 2^32 are set',
  edits=[('v2/buffer.go', """	set_loop:
		b.buf[i] = 0xFF
""", """	set_loop:
		b.buf[uint32(i)] = 0xFF
""")],
  demo=H % """	mem, err := syscall.Mmap(-1, 0, 1<<32+100, 3, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
	if err != nil {
		fail(err)
	}
	b := v2.NewBuffer(mem)
	b.SetAllBits()
	if mem[100] != 0xFF || mem[1<<31] != 0xFF || mem[1<<32+99] != 0xFF {
		fail("not set")
	}"""),
 dict(id='l03-v3-truncateright-uint32', property='L03', regen=True,
  needs='truncating a v3 Buffer on the right when more than 4 GiB remain',
  breaks='only the remaining size modulo 2^32 is kept',
  edits=[(f, """	b.buf = b.buf[0x00 : b.cap-n]
""", """	b.buf = b.buf[:uint32(b.cap)-uint32(n)]
""") for f in ('v3/_buffer.go', 'v3/buffer.generated.go')],
  demo=H % """	mem, err := syscall.Mmap(-1, 0, 1<<32+100, 3, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
	if err != nil {
		fail(err)
	}
	b := v3.NewBuffer(mem)
	b.TruncateRight(10)
	if b.ByteCapacity() != 1<<32+90 {
		fail(b.ByteCapacity())
	}"""),
 dict(id='m02-v2-mini-recycle', property='M02',
  needs='a v2 MiniBuffer made from several slices, no longer referenced and collected while the slice of its contents is still in use, and another one made after that',
  breaks='the storage is handed to the next buffer, which overwrites it',
  edits=[('v2/minibuf.go', """	default:
		for _, s := range slices {

			(*out).buf = append((*out).buf, s...)

		}
""", """	default:
		(*out).buf, _ = spare.Get().([]byte)
		for _, s := range slices {

			(*out).buf = append((*out).buf, s...)

		}
		runtime.SetFinalizer(*out, func(b *MiniBuffer) {

			spare.Put(b.buf[:0])

		})
"""), ('v2/minibuf.go', """	sync.Mutex
}
""", """	sync.Mutex
}

// spare holds the storage of buffers that are not in use any more
var spare sync.Pool
"""), ('v2/minibuf.go', """import "sync"
""", """import (
	"runtime"
	"sync"
)
""")],
  demo=(H.replace('"os"', '"os"\n\t"runtime"\n\t"time"')) % """	var old [][]byte
	for r := 0; r < 40; r++ {
		for i := 0; i < 20; i++ {
			var b *v2.MiniBuffer
			v2.NewMiniBuffer(&b, []byte{1, 2, 3, 4}, []byte{5, 6, 7, 8})
			var c []byte
			b.Bytes(&c)
			old = append(old, c)
		}
		runtime.GC()
		time.Sleep(time.Millisecond)
		var n *v2.MiniBuffer
		for i := 0; i < 50; i++ {
			v2.NewMiniBuffer(&n, []byte{9, 9}, []byte{9, 9})
		}
		for _, c := range old {
			if c[0] != 1 || c[1] != 2 || c[3] != 4 {
				fail(c)
			}
		}
	}"""),
 dict(id='r04-v1-mini-writecomplex-pieces', property='R04',
  needs='writing many 32-bit values at once to a v1 MiniBuffer, seen by how long it takes',
  breaks='the encoded data is rebuilt for every element, so the time grows with the square of the count',
  edits=[('v1/minibuf.go', """		data = make([]byte, 4*len(adata))
		for i := 0; i < len(adata); i++ {
""", """		for i := 0; i < len(adata); i++ {

			data = append(make([]byte, 0, 4*i+4), data...)[:4*i+4]
""")],
  demo=(H.replace('"os"', '"encoding/binary"\n\t"os"\n\t"time"')) % """	took := func(n int) time.Duration {
		var b *v1.MiniBuffer
		v1.NewMiniBuffer(&b, make([]byte, 4*n))
		d := make([]uint32, n)
		best := time.Hour
		for i := 0; i < 3; i++ {
			t := time.Now()
			b.WriteComplex(0, d, v1.Unsigned32, binary.LittleEndian)
			if d := time.Since(t); d < best {
				best = d
			}
		}
		return best
	}
	a := took(1000)
	if b := took(64000); b > 64*10*a+5*time.Millisecond {
		fail(a, b)
	}"""),
 dict(id='r04-v2-registry', property='R04',
  needs='creating very many v2 buffers one after another in one process, seen by the memory in use',
  breaks='every buffer ever created is kept in a list',
  edits=[('v2/buffer.go', """	buf.refresh()
	return

}

/* internal use methods */
""", """	buf.refresh()
	registry.Store(buf, struct{}{})
	return

}

// registry holds all buffers
var registry sync.Map

/* internal use methods */
""")],
  demo=(H.replace('"os"', '"os"\n\t"runtime"')) % """	var a, b runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&a)
	for i := 0; i < 100000; i++ {
		v2.NewBuffer([]byte{1, 2}, []byte{3}).SetAllBits()
	}
	runtime.GC()
	runtime.ReadMemStats(&b)
	if b.HeapAlloc > a.HeapAlloc+4<<20 {
		fail(a.HeapAlloc, b.HeapAlloc)
	}"""),
 dict(id='r04-v3-alignbyte-walk', property='R04', regen=True,
  needs='aligning the byte cursor of a v3 Buffer to a bit cursor far behind it, seen by how long it takes',
  breaks='the byte cursor is moved step by step',
  edits=[(f, """	b.off = b.boff / 8

}
""", """	for b.off*8 > b.boff {

		b.off--

	}
	for b.off*8+8 <= b.boff {

		b.off++

	}

}
""") for f in ('v3/_buffer.go', 'v3/buffer.generated.go')],
  demo=(H.replace('"os"', '"os"\n\t"time"')) % """	b := v3.NewBuffer(make([]byte, 8))
	best := time.Hour
	for i := 0; i < 3; i++ {
		b.SeekByte(0, false)
		b.SeekBit(1<<34+5, false)
		t := time.Now()
		b.AlignByte()
		if d := time.Since(t); d < best {
			best = d
		}
		if b.ByteOffset() != 1<<31 {
			fail(b.ByteOffset())
		}
	}
	if best > 300*time.Millisecond {
		fail(best)
	}"""),
 dict(id='n02-v2-after-list', property='N02',
  needs='asking a v2 Buffer for the bytes behind the cursor with an empty argument list (list...) that has spare capacity',
  breaks='what lies in the list\'s spare room is taken for the position',
  edits=[('v2/buffer.go', """func (b *Buffer) after(off ...int64) int64 {

	if len(off) == 0 {

		return b.cap - b.off - 1

	}
	return b.cap - off[0] - 1
""", """func (b *Buffer) after(off ...int64) int64 {

	if cap(off) == 0 {

		return b.cap - b.off - 1

	}
	return b.cap - off[:1][0] - 1
""")],
  demo=H % """	b := v2.NewBuffer(make([]byte, 10))
	list := []int64{7, 8}
	if n := b.After(list[:0]...); n != 9 {
		fail(n)
	}
	if n := b.After(list...); n != 2 {
		fail(n)
	}"""),
]
