import os, runpy
D = os.path.dirname(os.path.abspath(__file__))
B4 = runpy.run_path(os.path.join(D, 'b4.py'))
HS, GEN = B4['HS'], B4['GEN']
BUGS = [
 dict(id='p02-v2-ticket-wraps', property='P02', repeat=3,
  needs='more than 256 goroutines waiting for one v2 Buffer at the same moment',
  breaks='tickets are numbered in a byte, so two of the goroutines get in at once',
  edits=[('v2/buffer.go', '''	cursor sync.Mutex

	sync.Mutex
}
''', '''	cursor sync.Mutex

	tickets
}

// tickets is a lock that admits those who ask for it in the order they came
type tickets struct {
	mu      sync.Mutex
	cond    *sync.Cond
	next    uint8
	serving uint8
}

// Lock waits for the turn of the caller
func (t *tickets) Lock() {

	t.mu.Lock()
	if t.cond == nil {

		t.cond = sync.NewCond(&t.mu)

	}
	mine := t.next
	t.next++
	for t.serving != mine {

		t.cond.Wait()

	}
	t.mu.Unlock()

}

// Unlock admits the next one
func (t *tickets) Unlock() {

	t.mu.Lock()
	t.serving++
	if t.cond != nil {

		t.cond.Broadcast()

	}
	t.mu.Unlock()

}

// TryLock gets the lock if it is free
func (t *tickets) TryLock() bool {

	t.mu.Lock()
	defer t.mu.Unlock()

	if t.serving != t.next {

		return false

	}
	t.next++
	return true

}
''')],
  demo=HS % '''	time.AfterFunc(time.Minute, func() { fail("it hangs") })
	const n = 2000
	b := v2.NewBuffer(make([]byte, n*8*200))
	for round := 0; round < 20; round++ {
		var wg sync.WaitGroup
		b.Seek(0, false)
		b.Lock()
		for g := 0; g < n; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				v := make([]uint64, 200)
				for i := range v {
					v[i] = uint64(g) + 1
				}
				b.WriteU64LE(int64(g%%4)*1600, v)
			}(g)
		}
		time.Sleep(50 * time.Millisecond)
		b.Unlock()
		wg.Wait()
		for k := int64(0); k < 4; k++ {
			x := b.ReadU64LE(k*1600, 200)
			for i := range x {
				if x[i] != x[0] {
					fail("%%d", k)
				}
			}
		}
	}'''.replace('%%','%')),
 dict(id='p01-v1-ticket-wraps', property='P01', race=True, repeat=3,
  needs='more than 256 goroutines waiting for one v1 Buffer at the same moment',
  breaks='tickets are numbered in a byte, so two of the goroutines get in at once',
  edits=[('v1/buffer.go', 'XX', 'YY')],
  demo=HS % ''' '''),
]
B = BUGS[1]
B['edits'] = [('v1/buffer.go',) + tuple(x for x in BUGS[0]['edits'][0][1:])]
B['demo'] = HS % '''	time.AfterFunc(time.Minute, func() { fail("it hangs") })
	const n = 1000
	b := v1.NewBuffer(make([]byte, 800))
	for round := 0; round < 10; round++ {
		var wg sync.WaitGroup
		b.Lock()
		for g := 0; g < n; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				b.SetAllBits()
			}(g)
		}
		time.Sleep(50 * time.Millisecond)
		b.Unlock()
		wg.Wait()
	}'''
