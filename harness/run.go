package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

const nShards = 8

// Ctx is one run of one check.
type Ctx struct {
	lowly    bool // the generator can be run as an unprivileged user
	ID       string
	Tier     string
	Seed     uint64
	EvPath   string
	RepDir   string
	Bin      map[string]string // other build products: regen generator, debug builds
	Repo     string
	Scratch  string
	Start    time.Time
	Thorough bool

	mu          sync.Mutex
	cov         Cov
	viol        *Viol
	stop        atomic.Bool
	assume      []string
	extra       map[string]any
	known       []string
	knownN      map[string]int64
	knownText   map[string]string
	Mode, Arg   string
	wantOutside bool
	wantHeld    bool

	prog [64]atomic.Uint64 // progress of each shard, for the watchdog
	cur  [64]atomic.Pointer[curOp]
}

type curOp struct {
	c *Case
	o *Op
}

// n scales a quick count for the thorough tier.
// hn is n for the cheap sequential workloads.
func (c *Ctx) hn(quick, thorough int) int { return c.n(quick*8, thorough*3) }

func (c *Ctx) n(quick, thorough int) int {
	if c.Thorough {
		return thorough
	}
	return quick
}

// Cov counts what was observed.
type Cov struct {
	Eval     int64 // operations (or runs) judged
	NonTriv  int64
	distinct map[uint64]struct{}
	overflow int64
	Counts   map[string]int64
	samples  []string
}

func newCov() *Cov { return &Cov{distinct: map[uint64]struct{}{}, Counts: map[string]int64{}} }

const maxDistinct = 1 << 20

func (c *Cov) hit(sig uint64, nontriv bool) {
	c.Eval++
	if !nontriv {
		return
	}
	c.NonTriv++
	if len(c.distinct) < maxDistinct {
		c.distinct[sig] = struct{}{}
	}
}
func (c *Cov) count(k string, n int64) { c.Counts[k] += n }

func (c *Ctx) merge(o *Cov) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.cov.distinct == nil {
		c.cov = *newCov()
	}
	c.cov.Eval += o.Eval
	c.cov.NonTriv += o.NonTriv
	for k := range o.distinct {
		c.cov.distinct[k] = struct{}{}
	}
	for k, v := range o.Counts {
		c.cov.Counts[k] += v
	}
	if len(c.cov.samples) < 6 {
		c.cov.samples = append(c.cov.samples, o.samples...)
		if len(c.cov.samples) > 6 {
			c.cov.samples = c.cov.samples[:6]
		}
	}
}

// Viol is an observed violation.
type Viol struct {
	Text string
	Step int
	Case *Case
	Kind string // how to replay: "case" or a driver-specific name
	Data any
}

func hashStr(h uint64, s string) uint64 {
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	return h
}
func hashInt(h uint64, v int64) uint64 { return mix(h, uint64(v)) }

const hash0 = 0xcbf29ce484222325

// Step is one observed operation.
type Step struct {
	T         *Target
	I         int
	Op        *Op
	Pre, Post *State
	Res       *Res
	Exp       *Exp
	LockHeld  string // non-empty: a lock was still held after the call, how that was seen
	B         *built
	Case      *Case
}

func (st *Step) sig() uint64 {
	h := hashStr(hash0, st.T.ID)
	h = hashStr(h, st.Op.method(st.T))
	h = hashInt(h, int64(len(st.Pre.Data)))
	off := st.Op.Off
	if st.Op.Next {
		off = st.Pre.Off
		if st.Op.isBit() {
			off = st.Pre.Boff
		}
	}
	h = hashInt(h, off)
	h = hashInt(h, st.Op.count()+st.Op.N<<20)
	h = hashInt(h, int64(st.Op.Ord))
	if st.Res.Panicked {
		h++
	}
	return h
}

func (st *Step) describe() string {
	out := "returned"
	if st.Res.Panicked {
		out = fmt.Sprintf("panicked with %v", st.Res.Panic)
	} else if st.Res.HasRes {
		switch {
		case st.Op.K == KAfter || st.Op.K == KAfterBit:
			out = fmt.Sprintf("returned %d", st.Res.I)
		case st.Res.Vals != nil || st.Op.K == KReadT:
			out = "returned " + shortVals(st.Res.Vals)
		case st.Op.K == KReadBytes:
			out = "returned " + shortHex(st.Res.Bytes)
		default:
			out = fmt.Sprintf("returned %#x", st.Res.U)
		}
	}
	post := "?"
	if st.Post != nil {
		post = st.Post.String()
	}
	return fmt.Sprintf("%s.%s on %v %s; afterwards %s", st.T.ID, st.Op, st.Pre, out, post)
}

type locker interface {
	TryLock() bool
	Lock()
	Unlock()
}

// waits matches the state of a goroutine that waits for a lock, whatever it is made of.
var waits = regexp.MustCompile(`^goroutine \d+[^\n]* \[(sync\.Mutex\.Lock|semacquire|sync\.RWMutex|sync\.Cond\.Wait|chan receive|chan send|select)`)

// blockedInMutex reports whether a goroutine whose stack mentions marker is
// blocked acquiring a mutex.
func blockedInMutex(marker string) (bool, string) {
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	for _, g := range strings.Split(string(buf[:n]), "\n\n") {
		if strings.Contains(g, marker) && waits.MatchString(g) && strings.Contains(g, "superwhiskers/crunch") {
			return true, g
		}
	}
	return false, ""
}

var mutexWait = regexp.MustCompile(`^goroutine \d+[^\n]* \[(sync\.Mutex\.Lock|semacquire|sync\.RWMutex)`)

// finishes runs f in its own goroutine and reports whether it came back. If
// not, it has been seen blocked on a mutex three times in a row.
func finishes(f func()) bool {
	done := make(chan struct{})
	go probeRunner(f, done)
	select {
	case <-done:
		return true
	case <-time.After(300 * time.Millisecond):
	}
	seen := 0
	for deadline := time.Now().Add(120 * time.Second); time.Now().Before(deadline); {
		select {
		case <-done:
			return true
		case <-time.After(100 * time.Millisecond):
		}
		if b, g := blockedInMutex("probeRunner"); b {
			// what waits for a channel may be waiting for work done elsewhere
			if seen++; seen >= 5 && (seen >= 60 || mutexWait.MatchString(g)) {
				return false
			}
		} else {
			seen = 0
		}
	}
	return true // slow, not blocked: no verdict
}

//go:noinline
func probeRunner(f func(), done chan struct{}) {
	defer close(done)
	f()
}

// probeLocks looks whether the buffer can still be used: its lock is free and,
// after a panic, a cursor operation gets through.
func probeLocks(s *Subj, panicked bool) string {
	l := s.B.(locker)
	if !l.TryLock() {
		return "the buffer's lock is still held"
	}
	l.Unlock()
	if panicked {
		seek := "Seek"
		if s.T.Ver == 3 {
			seek = "SeekByte"
		}
		f := s.m(seek).(func(int64, bool))
		g := s.m("SeekBit").(func(int64, bool))
		if !finishes(func() { f(0, true); g(0, true) }) {
			return "a relative seek by zero blocks for ever"
		}
	}
	return ""
}

// Judge decides one step. rel: 0 not its business, 1 judged, 2 judged and non-trivial.
type Judge func(*Step) (rel int, bad string)

// heldRead is what a raw read yielded, and what it looked like then.
type heldRead struct {
	step     int
	raw, was []byte
}

// runCase drives one history against the real code.
func runCase(ctx *Ctx, shard int, c *Case, judge Judge, cov *Cov) (v *Viol) {
	if c.Aux["blind"] != 0 {
		return runBlind(ctx, shard, c, judge, cov)
	}
	var b *built
	if msg := catch(func() { b = c.build() }); msg != "" {
		return &Viol{Text: "constructing the buffer panicked: " + msg, Step: -1, Case: c, Kind: "case"}
	}
	s := b.subj
	pre := s.observe()
	var held []heldRead
	for i, o := range c.Ops {
		if o.method(s.T) == "" {
			continue
		}
		e := spec(s.T, pre, o)
		if e.Unspec {
			continue
		}
		if ctx != nil {
			ctx.prog[shard].Add(1)
			ctx.cur[shard].Store(&curOp{c, o})
		}
		st := &Step{T: s.T, I: i, Op: o, Pre: pre, Exp: e, B: b, Case: c}
		if ctx != nil && ctx.wantOutside {
			pre.out = snapOutside(b, pre.live)
		}
		st.Res = s.exec(o)
		if ctx != nil && ctx.wantHeld {
			if !o.isRead() && (o.K < KSeek || o.K > KAlignByte) && o.K != KRefresh {
				held = held[:0]
			}
			for _, h := range held {
				if !bytes.Equal(h.raw, h.was) {
					return &Viol{Text: fmt.Sprintf("the bytes yielded by step %d are no longer %s, although nothing was written since\n  step %d: %s", h.step, shortHex(h.was), i, o), Step: i, Case: c, Kind: "case"}
				}
			}
			if o.K == KReadBytes && len(st.Res.Raw) > 0 {
				if len(held) == 8 {
					held = append(held[:0], held[1:]...)
				}
				held = append(held, heldRead{i, st.Res.Raw, st.Res.Bytes})
				if cov != nil {
					cov.count("raw reads kept and looked at again", 1)
				}
			}
		}
		if s.T.Ver < 3 {
			if s.T.Conc() {
				st.LockHeld = probeLocks(s, st.Res.Panicked)
			} else if !s.B.(locker).TryLock() {
				st.LockHeld = "the lock-it-yourself buffer's lock is held although the client never took it"
			} else {
				s.B.(locker).Unlock()
			}
		}
		if st.LockHeld == "" {
			st.Post = s.observe()
		}
		rel, bad := judge(st)
		if bad != "" {
			return &Viol{Text: bad + "\n  step " + fmt.Sprint(i) + ": " + st.describe(), Step: i, Case: c, Kind: "case"}
		}
		if rel > 0 && cov != nil {
			cov.hit(st.sig(), rel == 2)
			if cov.Counts != nil {
				k := s.T.ID
				if st.Res.Panicked {
					k += " refused"
				}
				cov.Counts[k]++
			}
			if len(cov.samples) < 1 && rel == 2 && i > 0 {
				cov.samples = append(cov.samples, st.describe())
			}
		}
		if st.LockHeld != "" {
			if cov != nil {
				cov.count("histories abandoned with a lock held", 1)
			}
			return nil
		}
		pre = st.Post
	}
	return nil
}

func catch(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprint(r)
			if msg == "" {
				msg = "(empty)"
			}
		}
	}()
	f()
	return ""
}

// shrink removes operations from the case while run still reports a violation.
func shrink(c *Case, run func(*Case) *Viol) (*Case, *Viol) {
	best := c
	bv := run(c)
	if bv == nil {
		return c, nil
	}
	budget := 3000
	for chunk := len(best.Ops); chunk >= 1; {
		removed := false
		for i := 0; i+chunk <= len(best.Ops) && budget > 0; {
			budget--
			d := *best
			d.Ops = append(append([]*Op{}, best.Ops[:i]...), best.Ops[i+chunk:]...)
			if v := run(&d); v != nil {
				best, bv, removed = &d, v, true
			} else {
				i += chunk
			}
		}
		if chunk == 1 && !removed {
			break
		}
		if chunk > 1 || !removed {
			chunk = max(1, chunk/2)
		}
		if budget <= 0 {
			break
		}
	}
	return best, bv
}

// sharded runs gen on every shard; gen feeds cases to try and stops when it says so.
func (ctx *Ctx) sharded(salt uint64, body func(shard int, r *R, cov *Cov, report func(*Viol)) /* returns when done */) {
	if onlyShard >= 0 {
		cov := newCov()
		body(onlyShard, newR(mix(mix(ctx.Seed, salt), uint64(onlyShard))), cov, func(v *Viol) { ctx.report(v) })
		ctx.merge(cov)
		return
	}
	var wg sync.WaitGroup
	for s := 0; s < nShards; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			cov := newCov()
			defer ctx.merge(cov)
			r := newR(mix(mix(ctx.Seed, salt), uint64(s)))
			body(s, r, cov, func(v *Viol) { ctx.report(v) })
			ctx.cur[s].Store(nil)
		}(s)
	}
	wg.Wait()
}

func (ctx *Ctx) report(v *Viol) {
	ctx.mu.Lock()
	defer ctx.mu.Unlock()
	if ctx.viol == nil {
		ctx.viol = v
	}
	ctx.stop.Store(true)
}

// watchdog notices a shard that is stuck inside an operation.
func (ctx *Ctx) watchdog() {
	go func() {
		var last [64]uint64
		var since [64]time.Time
		var cpu0 [64]time.Duration
		blocked := [64]int{}
		for {
			time.Sleep(500 * time.Millisecond)
			for s := range last {
				p := ctx.cur[s].Load()
				n := ctx.prog[s].Load()
				if p == nil || n != last[s] || since[s].IsZero() {
					last[s], since[s], cpu0[s], blocked[s] = n, time.Now(), cpuTime(), 0
					continue
				}
				stuck := time.Since(since[s])
				if stuck > 5*time.Second {
					if b, g := blockedInMutex("runCase"); b {
						if blocked[s]++; blocked[s] >= 6 {
							v := &Viol{Text: "an operation never returned: it is blocked on the buffer's own lock\n" + p.o.String() + "\n" + g, Case: p.c, Kind: "case"}
							ctx.report(v)
							ctx.finish()
						}
					} else {
						blocked[s] = 0
					}
				}
				if stuck > 150*time.Second && cpuTime()-cpu0[s] > 100*time.Second {
					ctx.report(&Viol{Text: "an operation never returned: " + p.o.String(), Case: p.c, Kind: "case"})
					ctx.finish()
				}
			}
		}
	}()
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

type replayFile struct {
	Property string
	Seed     uint64
	Tier     string
	Kind     string
	Text     string
	Case     *Case `json:",omitempty"`
	Data     any   `json:",omitempty"`
}

var finishOnce sync.Mutex

// finish writes the evidence and exits.
func (ctx *Ctx) finish() {
	finishOnce.Lock() // never released: the process ends here
	ctx.mu.Lock()
	v := ctx.viol
	cov := ctx.cov
	if cov.Counts == nil {
		cov = *newCov()
	}
	coverage := map[string]any{
		"evaluations":         cov.Eval,
		"distinct_nontrivial": len(cov.distinct),
		"nontrivial":          cov.NonTriv,
		"rule":                ruleOf(ctx.ID),
		"samples":             cov.samples,
		"counts":              cov.Counts,
	}
	if len(cov.samples) == 0 {
		coverage["samples"] = []string{}
	}
	for k, x := range ctx.extra {
		coverage[k] = x
	}
	ev := map[string]any{
		"property": ctx.ID, "tier": ctx.Tier, "seed": ctx.Seed, "level": "exploration",
		"coverage": coverage, "assumptions": ctx.assume, "wall_s": time.Since(ctx.Start).Seconds(), "violations": 0,
	}
	if ctx.assume == nil {
		ev["assumptions"] = []string{}
	}
	if v != nil {
		ev["violations"] = 1
	}
	if ctx.knownN != nil {
		coverage["known_finding_observations"] = ctx.knownN
	}
	if ctx.EvPath != "" {
		j, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Dir(ctx.EvPath), 0o755)
		if err := os.WriteFile(ctx.EvPath, append(j, '\n'), 0o644); err != nil {
			fmt.Println("cannot write evidence:", err)
			os.Exit(2)
		}
	}
	keys := make([]string, 0, len(ctx.knownN))
	for k := range ctx.knownN {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s %s (seen %d times)\n", ctx.ID, k, ctx.knownText[k], ctx.knownN[k])
	}
	if v == nil {
		if cov.Eval == 0 {
			fmt.Println("nothing was judged: the check is broken")
			os.Exit(2)
		}
		fmt.Printf("%s: held on %d evaluations (%d distinct non-trivial), %.1fs\n", ctx.ID, cov.Eval, len(cov.distinct), time.Since(ctx.Start).Seconds())
		os.Exit(0)
	}
	os.MkdirAll(ctx.RepDir, 0o755)
	path := filepath.Join(ctx.RepDir, fmt.Sprintf("%s-%d.json", ctx.ID, os.Getpid()))
	rf := replayFile{Property: ctx.ID, Seed: ctx.Seed, Tier: ctx.Tier, Kind: v.Kind, Text: v.Text, Case: v.Case, Data: v.Data}
	j, _ := json.MarshalIndent(rf, "", " ")
	os.WriteFile(path, append(j, '\n'), 0o644)
	fmt.Println(v.Text)
	fmt.Printf("VIOLATION property=%s replay=%s\n", ctx.ID, path)
	os.Exit(1)
}

// waitOr waits for done; it gives up only when the goroutines of marker have
// repeatedly been seen blocked on a mutex inside the code under test.
func waitOr(done chan struct{}, marker string) bool {
	select {
	case <-done:
		return true
	case <-time.After(5 * time.Second):
	}
	seen := 0
	for deadline := time.Now().Add(300 * time.Second); time.Now().Before(deadline); {
		select {
		case <-done:
			return true
		case <-time.After(500 * time.Millisecond):
		}
		if b, _ := blockedInMutex(marker); b {
			if seen++; seen >= 20 {
				return false
			}
		} else {
			seen = 0
		}
	}
	return false
}
