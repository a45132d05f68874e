import os, runpy
D = os.path.dirname(os.path.abspath(__file__))
B4 = runpy.run_path(os.path.join(D, 'b4.py'))
HS = B4['HS']
BUGS = [
 dict(id='p04-v2-write-staging', property='P04', repeat=3,
  needs='two goroutines writing more than 32 KiB at once to v2 buffers of their own',
  breaks='long writes pass through one staging area of the package',
  edits=[('v2/buffer.go', '''	copy(b.buf[off:], data)

''', '''	if len(data) > 1<<15 {

		staging = append(staging[:0], data...)
		data = staging

	}
	copy(b.buf[off:], data)

'''), ('v2/buffer.go', '''import "sync"
''', '''import "sync"

// staging holds the data of long writes, which may be a window of the buffer itself
var staging []byte
''')],
  demo=HS % '''	const n = 1 << 18
	var wg sync.WaitGroup
	for g := 1; g < 5; g++ {
		g := byte(g)
		wg.Add(1)
		go func() {
			defer wg.Done()
			d := make([]byte, n)
			for i := range d {
				d[i] = g
			}
			b := v2.NewBuffer(make([]byte, n))
			for k := 0; k < 500; k++ {
				b.WriteBytes(0, d)
				for _, x := range b.Bytes() {
					if x != g {
						fail("another buffer's data was written")
					}
				}
			}
		}()
	}
	wg.Wait()'''),
]
