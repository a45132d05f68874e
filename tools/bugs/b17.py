import os, runpy
D = os.path.dirname(os.path.abspath(__file__))
B4 = runpy.run_path(os.path.join(D, 'b4.py'))
HS, GEN = B4['HS'], B4['GEN']
B6 = runpy.run_path(os.path.join(D, 'b6.py'))
MANY, ALL = B6['MANY'], B6['ALL']
FLIP = '''func (b *Buffer) setallbits() {

	b.Lock()
	defer b.Unlock()

	var (
		i = int64(0)
		n = int64(len(b.buf))
	)
	if n == 0 {

		return

	}
	{
	set_loop:
		b.buf[i] = 0xFF
'''
BUGS = [
 dict(id='a02-v3-bitcap-int', property='A02', goarch='386', regen=True,
  needs='a v3 Buffer of 256 MiB or more on a 32-bit machine',
  breaks='the number of bits is computed in an int and overflows there',
  edits=[('v3/_buffer.go', '''	b.cap = int64(len(b.buf))
	b.bcap = b.cap * 8
''', '''	b.cap = int64(len(b.buf))
	b.bcap = int64(len(b.buf) * 8)
''')],
  demo=HS % '''	b := v3.NewBuffer(make([]byte, 1<<28+1))
	if b.BitCapacity() != (1<<28+1)*8 {
		fail("%d", b.BitCapacity())
	}'''),
 dict(id='a02-v2-setall-int', property='A02', goarch='386',
  needs='setting all bits of a v2 Buffer of 256 MiB or more on a 32-bit machine',
  breaks='the number of bits goes through an int there, and nothing or too little is set',
  edits=[('v2/buffer.go', FLIP, FLIP.replace('n = int64(len(b.buf))', 'n = int64(int(b.bcap) / 8)').replace('n == 0', 'n <= 0'))],
  demo=HS % '''	d := make([]byte, 1<<28+1)
	b := v2.NewBuffer(d)
	b.SetAllBits()
	if d[0] != 255 || d[1<<28] != 255 {
		fail("%d %d", d[0], d[1<<28])
	}'''),
 dict(id='g04-permission-abort', property='G04',
  needs='a template the user may not read, next to healthy ones',
  breaks='the whole run ends there and no output is written',
  edits=[('generation/main.go', '''				fmt.Printf("! unable to open source file. (%v)\\n", err)
				continue
''', '''				fmt.Printf("! unable to open source file. (%v)\\n", err)
				if os.IsPermission(err) {
					return
				}
				continue
''')],
  sh=GEN + MANY + '''echo 'package t' > "$d/t/_secret.go"
chmod 0 "$d/t/_secret.go"
chmod 755 "$d" "$d/gen"
chown -R 65534:65534 "$d/t"
cat > "$d/run.py" <<'EOF'
import os, sys
os.setgroups([]); os.setgid(65534); os.setuid(65534)
os.execv(sys.argv[1], sys.argv[1:])
EOF
python3 "$d/run.py" "$d/gen" -directory "$d/t" -generation complex > /dev/null
''' + ALL),
 dict(id='g04-readonly-output', property='G04',
  needs='an existing output the user may not write, next to healthy templates',
  breaks='the remaining outputs are not written',
  edits=[('generation/main.go', '''		if err != nil {
			fmt.Printf("! unable to open source file. (%v)\\n", err)
			continue
		}

		_, err''', '''		if os.IsPermission(err) {
			break
		}
		if err != nil {
			fmt.Printf("! unable to open source file. (%v)\\n", err)
			continue
		}

		_, err''')],
  sh=GEN + MANY + '''for i in 1 2 3; do echo 'package t' > "$d/t/_kept$i.go"; echo kept > "$d/t/kept$i.generated.go"; done
chmod 755 "$d" "$d/gen"
chown -R 65534:65534 "$d/t"
chmod 444 "$d/t"/kept*.generated.go
cat > "$d/run.py" <<'EOF'
import os, sys
os.setgroups([]); os.setgid(65534); os.setuid(65534)
os.execv(sys.argv[1], sys.argv[1:])
EOF
python3 "$d/run.py" "$d/gen" -directory "$d/t" -generation complex > /dev/null
''' + ALL),
 dict(id='r04-v2-flip-workers', property='R04',
  needs='setting all bits of many large v2 buffers, seen by the goroutines alive',
  breaks='each call leaves a helper goroutine behind that never ends',
  edits=[('v2/buffer.go', FLIP, FLIP.replace('''	if n == 0 {

		return

	}
''', '''	if n == 0 {

		return

	}
	if n >= 1<<16 {

		// the second half is done by a helper
		h, done := b.buf[n/2:], make(chan int)
		go func() {

			for i := range h {

				h[i] = 0xFF

			}
			done <- len(h)
			done <- 0

		}()
		n -= int64(<-done)

	}
'''))],
  demo=HS.replace('"os"', '"os"\n\t"runtime"') % '''	n := runtime.NumGoroutine()
	for i := 0; i < 100; i++ {
		v2.NewBuffer(make([]byte, 1<<17)).SetAllBits()
	}
	time.Sleep(50 * time.Millisecond)
	if m := runtime.NumGoroutine(); m > n+5 {
		fail("%d %d", n, m)
	}'''),
 dict(id='m02-v2-mini-bytes-copy', property='M02',
  needs='asking a v2 MiniBuffer for its contents with an out-slice that has room for them',
  breaks='the contents are copied there instead of a live window being handed out',
  edits=[('v2/minibuf.go', '''func (b *MiniBuffer) Bytes(out *[]byte) {

	*out = b.buf
''', '''func (b *MiniBuffer) Bytes(out *[]byte) {

	if cap(*out) >= len(b.buf) && len(b.buf) > 0 {

		*out = append((*out)[:0], b.buf...)
		return

	}
	*out = b.buf
''')],
  demo=HS % '''	var b *v2.MiniBuffer
	v2.NewMiniBuffer(&b, []byte{1, 2, 3})
	w := make([]byte, 0, 10)
	b.Bytes(&w)
	w[0] = 9
	var o []byte
	b.ReadBytes(&o, 0, 1)
	if o[0] != 9 {
		fail("%v", o)
	}'''),
 dict(id='p03-v2-grow-order', property='P03',
  needs='growing a v2 buffer while another goroutine reads sequentially, at one moment',
  breaks='the two locks are taken in opposite orders and both goroutines wait for ever',
  edits=[('v2/buffer.go', '''	b.buf = append(b.buf, make([]byte, n)...)
''', '''	b.cursor.Lock()
	b.buf = append(b.buf, make([]byte, n)...)
	b.cursor.Unlock()
''')],
  demo=HS % '''	done := make(chan int)
	go func() {
		for k := 0; k < 40; k++ {
			b := v2.NewBuffer(make([]byte, 9))
			var wg sync.WaitGroup
			for g := 0; g < 4; g++ {
				g := g
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < 5000; i++ {
						if g&1 == 0 {
							b.Grow(0)
						} else {
							b.ReadBitsNext(0)
						}
					}
				}()
			}
			wg.Wait()
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		fail("blocked")
	}'''),
 dict(id='l01-v2-count-uint16', property='L01',
  needs='constructing a v2 buffer from more than 65535 slices',
  breaks='the number of slices is held in 16 bits, and most are left out',
  edits=[('v2/buffer.go', '''		for _, s := range slices {

			buf.buf = append(buf.buf, s...)

		}
''', '''		for i := uint16(0); i < uint16(len(slices)); i++ {

			buf.buf = append(buf.buf, slices[i]...)

		}
''')],
  demo=HS % '''	s := make([][]byte, 1<<16+5)
	for i := range s {
		s[i] = []byte{byte(i)}
	}
	b := v2.NewBuffer(s...)
	if b.Capacity() != 1<<16+5 {
		fail("%d", b.Capacity())
	}'''),
 dict(id='p01-v2-trylock-flip', property='P01', race=True,
  needs='flipping a bit of a v2 buffer at a moment when another goroutine holds its lock',
  breaks='the flip goes ahead without the lock',
  edits=[('v2/buffer.go', '''func (b *Buffer) flipbit(off int64) {

	b.Lock()
	defer b.Unlock()
''', '''func (b *Buffer) flipbit(off int64) {

	if b.TryLock() {

		defer b.Unlock()

	}
''')],
  demo=HS % '''	b := v2.NewBuffer(make([]byte, 1<<16))
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 3000; i++ {
				if g&1 == 0 {
					b.FlipBit(7)
				} else {
					b.SetAllBits()
				}
			}
		}()
	}
	wg.Wait()'''),
]
