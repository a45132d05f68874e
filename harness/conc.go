package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/anishathalye/porcupine"
)

// ---- operation templates for concurrent workloads ----

type tmpl struct {
	name string
	base Op
}

// templates lists one template per method and typed variant of t.
func templates(t *Target) (out []tmpl) {
	add := func(o Op) {
		if n := o.method(t); n != "" {
			out = append(out, tmpl{o.String(), o})
		}
	}
	for _, next := range []bool{false, true} {
		for _, k := range accessKinds {
			if k == KReadT || k == KWriteT {
				for _, y := range t.types("UIF") {
					if y.Ord > 2 {
						continue
					}
					add(Op{K: k, Next: next, Ty: y.Ty, W: y.W, Ord: y.Ord})
				}
				continue
			}
			add(Op{K: k, Next: next})
			if k == KSetBit {
				add(Op{K: k, Next: next, Val: 1})
			}
		}
	}
	for _, k := range []Kind{KClearAll, KSetAll, KFlipAll, KSeek, KSeekBit, KAlignBit, KAlignByte, KTruncL, KTruncR, KGrow, KRefresh, KReset} {
		add(Op{K: k})
		if k == KSeek || k == KSeekBit {
			add(Op{K: k, Rel: true})
		}
	}
	return
}

// fill chooses operands for a template so that operations collide.
func (r *R) fill(tp *tmpl, size int64) *Op {
	o := tp.base
	w := o.width()
	n := int64(1 + r.Intn(3))
	if r.p(0.06) {
		n = 0
	}
	lim := size
	if o.isBit() {
		lim = size * 8
		if o.K == KReadBits || o.K == KSetBits {
			n = []int64{2, 3, 8, 9, 16, 17, 64}[r.Intn(7)]
		}
	}
	if o.isAccess() && !o.Next {
		room := max(0, lim-n*w)
		o.Off = r.Int63n(min(room, 6) + 1)
		if r.p(0.15) {
			o.Off = room
		}
		if r.p(0.1) {
			o.Off = room + 1 + int64(r.Intn(2))
		}
		if r.p(0.05) {
			o.Off = -1
		}
	}
	switch o.K {
	case KWriteBytes:
		o.Data = r.data(int(n))
	case KWriteT:
		o.Vals = make([]uint64, n)
		for i := range o.Vals {
			o.Vals[i] = r.Uint64()
		}
	case KReadBytes, KReadT, KReadBits:
		o.N = n
	case KSetBits:
		o.N, o.Val = n, r.Uint64()
	case KWriteByte:
		o.Val = uint64(r.Intn(256))
	case KSeek:
		o.Off = r.Int63n(size + 1)
		if o.Rel {
			o.Off = int64(r.Intn(7)) - 2
		}
	case KSeekBit:
		o.Off = r.Int63n(size*8 + 1)
		if o.Rel {
			o.Off = int64(r.Intn(20)) - 5
		}
	case KGrow:
		o.N = int64(r.Intn(4))
	case KTruncL, KTruncR:
		o.N = int64(r.Intn(3))
	}
	o.Prior = 1
	return &o
}

// ---- controlled interleavings ----

type schedResult struct {
	completed, exhausted bool
	points, switches     int64
}

// schedRun is provided when the instrumented copies are linked in.
var schedRun func(fs []func(), pick func(run []int, cur int) int, sparse bool) schedResult

// schedCase is one concurrent history together with the schedule that drives it.
type schedCase struct {
	Target    string
	Init      []byte
	Spare     int
	Off, Boff int64
	Threads   [][]*Op
	Sched     uint64
	Strat     int
	Large     bool `json:",omitempty"` // scheduling points at locks only
}

// picker makes the scheduler's choices from a seed.
func picker(seed uint64, strat, nthreads int) func([]int, int) int {
	r := newR(seed)
	switch strat % 4 {
	case 0: // uniform
		return func(run []int, cur int) int { return run[r.Intn(len(run))] }
	case 1, 2: // mostly stay
		p := []float64{0, 0.25, 0.05}[strat%4]
		return func(run []int, cur int) int {
			if cur >= 0 && !r.p(p) {
				return cur
			}
			return run[r.Intn(len(run))]
		}
	}
	// priorities with a few random changes
	prio := r.Perm(nthreads)
	change := map[int]bool{}
	for i := 0; i < 1+r.Intn(3); i++ {
		change[r.Intn(160)] = true
	}
	step, low := 0, -1
	return func(run []int, cur int) int {
		step++
		best := run[0]
		for _, i := range run {
			if prio[i] > prio[best] {
				best = i
			}
		}
		if change[step] {
			prio[best] = low
			low--
			best = run[0]
			for _, i := range run {
				if prio[i] > prio[best] {
					best = i
				}
			}
		}
		return best
	}
}

// concKey is what an operation is seen to return; byte windows are returned by
// reference, so only their length counts here.
func concKey(o *Op, r *Res) string {
	if !r.Panicked && (o.K == KReadBytes || o.K == KReadT && o.W == 1) {
		return fmt.Sprintf("window %d", max(len(r.Bytes), len(r.Vals)))
	}
	return resKey(r)
}

func stateKey(s *State) string {
	var h [16]byte
	binary.LittleEndian.PutUint64(h[:], uint64(s.Off))
	binary.LittleEndian.PutUint64(h[8:], uint64(s.Boff))
	sz := ""
	if s.Cap != int64(len(s.Data)) || s.Bcap != 8*int64(len(s.Data)) {
		sz = fmt.Sprintf("sizes %d/%d", s.Cap, s.Bcap)
	}
	return string(h[:]) + string(s.Data) + sz
}

func stateText(k string) string {
	return fmt.Sprintf("{off=%d bitoff=%d data=%s}", int64(binary.LittleEndian.Uint64([]byte(k[:8]))), int64(binary.LittleEndian.Uint64([]byte(k[8:16]))), shortHex([]byte(k[16:])))
}

type trans struct{ res, next string }

// seqModel answers what an operation does when it runs alone: it runs the
// uninstrumented implementation on a buffer brought into the given state.
type seqModel struct {
	t    *Target
	memo map[string]trans
}

func (m *seqModel) apply(state string, o *Op, oid int) trans {
	k := fmt.Sprint(oid, " ", state)
	if x, ok := m.memo[k]; ok {
		return x
	}
	data := []byte(state[16:])
	s := newSubj(m.t, m.t.New(data))
	s.exec(&Op{K: KSeek, Off: int64(binary.LittleEndian.Uint64([]byte(state[:8])))})
	s.exec(&Op{K: KSeekBit, Off: int64(binary.LittleEndian.Uint64([]byte(state[8:16])))})
	r := s.exec(o)
	x := trans{concKey(o, r), ""}
	if s.B.(locker).TryLock() {
		s.B.(locker).Unlock()
		x.next = stateKey(s.observe())
	} else {
		x.next = "locked"
	}
	m.memo[k] = x
	return x
}

type event struct {
	thread, oid int
	op          *Op
	call, ret   int64
	out         string
}

type schedOutcome struct {
	verdict  porcupine.CheckResult
	deadlock bool
	res      schedResult
	text     string
	sig      uint64
	overlap  bool
}

func ops(sc *schedCase) (all []*Op) {
	for _, th := range sc.Threads {
		all = append(all, th...)
	}
	return
}

// runSched drives one history under one schedule and decides whether it is
// equivalent to running the operations one at a time.
func runSched(sc *schedCase) schedOutcome {
	it := targetByID("sched." + sc.Target)
	store := make([]byte, len(sc.Init), len(sc.Init)+sc.Spare)
	copy(store, sc.Init)
	subj := newSubj(it, it.New(store))
	subj.exec(&Op{K: KSeek, Off: sc.Off})
	subj.exec(&Op{K: KSeekBit, Off: sc.Boff})
	var clock int64
	var evs []event
	var fs []func()
	oid := 0
	for ti, th := range sc.Threads {
		type item struct {
			o  *Op
			id int
		}
		var items []item
		for _, o := range th {
			items = append(items, item{o, oid})
			oid++
		}
		ti := ti
		fs = append(fs, func() {
			for _, x := range items {
				clock++
				i := len(evs)
				evs = append(evs, event{thread: ti, oid: x.id, op: x.o, call: clock})
				r := subj.exec(x.o)
				clock++
				evs[i].ret, evs[i].out = clock, concKey(x.o, r)
			}
		})
	}
	out := schedOutcome{verdict: porcupine.Ok}
	out.res = schedRun(fs, picker(sc.Sched, sc.Strat, len(sc.Threads)), sc.Large)
	h := hashStr(hash0, sc.Target)
	for i := range evs {
		h = hashInt(hashStr(hashStr(h, evs[i].op.method(it)), evs[i].out), evs[i].call*1000+evs[i].ret)
		if i > 0 && evs[i].call < evs[i-1].ret {
			out.overlap = true
		}
	}
	out.sig = h
	if !out.res.completed {
		out.deadlock = true
		out.text = histText(sc, evs, "")
		return out
	}
	if l, ok := subj.B.(locker); !ok || !l.TryLock() {
		out.deadlock = true
		out.text = "the lock is still held when all operations have ended\n" + histText(sc, evs, "")
		return out
	}
	final := stateKey(subj.observe())
	m := &seqModel{t: targetByID(sc.Target), memo: map[string]trans{}}
	init := stateKey(&State{Data: sc.Init, Off: sc.Off, Boff: sc.Boff, Cap: int64(len(sc.Init)), Bcap: 8 * int64(len(sc.Init))})
	model := porcupine.Model{
		Init: func() any { return init },
		Step: func(st, in, o any) (bool, any) {
			e := in.(*event)
			if e.op == nil {
				return st.(string) == final, st
			}
			if st.(string) == "locked" {
				return false, st
			}
			x := m.apply(st.(string), e.op, e.oid)
			return x.res == o.(string), x.next
		},
		Equal: func(a, b any) bool { return a.(string) == b.(string) },
	}
	var po []porcupine.Operation
	for i := range evs {
		e := &evs[i]
		po = append(po, porcupine.Operation{ClientId: e.thread, Input: e, Call: e.call, Output: e.out, Return: e.ret})
	}
	po = append(po, porcupine.Operation{ClientId: len(sc.Threads), Input: &event{}, Call: clock + 1, Output: "", Return: clock + 2})
	out.verdict = porcupine.CheckOperationsTimeout(model, po, 30*time.Second)
	if out.verdict == porcupine.Illegal {
		out.text = histText(sc, evs, final)
	}
	return out
}

func histText(sc *schedCase, evs []event, final string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s, initially {off=%d bitoff=%d data=%s}\n", sc.Target, sc.Off, sc.Boff, shortHex(sc.Init))
	for _, e := range evs {
		ret := "did not return"
		if e.ret > 0 {
			ret = fmt.Sprintf("returned at %d: %s", e.ret, cut([]byte(e.out), 0, 300))
		}
		fmt.Fprintf(&b, "  goroutine %d: %s called at %d, %s\n", e.thread, e.op, e.call, ret)
	}
	if final != "" {
		fmt.Fprintf(&b, "  finally %s\n", stateText(final))
	}
	return b.String()
}

type schedReport struct {
	Eval, Overlap, Points, Switches, Unknown, Exhausted int64
	Distinct                                            []uint64
	Counts                                              map[string]int64
	Viol                                                *schedCase
	Text                                                string
	Dead                                                *schedCase
	DeadText                                            string
	Samples                                             []string
}

const schedProcs = 8

// schedChild is one process exploring its share of histories and schedules.
func schedChild(ctx *Ctx) {
	var shard int
	var outPath string
	if _, err := fmt.Sscanf(ctx.Arg, "%d:%s", &shard, &outPath); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	rep := &schedReport{Counts: map[string]int64{}}
	distinct := map[uint64]struct{}{}
	one := func(sc *schedCase, kind string) bool {
		o := runSched(sc)
		rep.Eval++
		rep.Points += o.res.points
		rep.Switches += o.res.switches
		rep.Counts[kind+" "+sc.Target]++
		if o.overlap {
			rep.Overlap++
			if len(distinct) < 400000 {
				distinct[o.sig] = struct{}{}
			}
		}
		if o.res.exhausted {
			rep.Exhausted++
		}
		if o.deadlock {
			if rep.Dead == nil {
				rep.Dead, rep.DeadText = sc, o.text
			}
			return ctx.ID != "P03"
		}
		if o.verdict == porcupine.Unknown {
			rep.Unknown++
		}
		if o.verdict == porcupine.Illegal && ctx.ID == "P02" {
			sc = shrinkSched(sc)
			if o2 := runSched(sc); o2.text != "" {
				o = o2
			}
			rep.Viol, rep.Text = sc, o.text
			return false
		}
		if len(rep.Samples) < 1 && o.overlap && rep.Eval > 50 {
			rep.Samples = append(rep.Samples, fmt.Sprintf("%s: %v, %d scheduling points, %d switches: equivalent to a sequential order", sc.Target, sc.Threads, o.res.points, o.res.switches))
		}
		return true
	}
	func() {
		r := newR(mix(mix(ctx.Seed, 200), uint64(shard)))
		initBuf := func(n int) []byte { b := make([]byte, n); r.Read(b); return b }
		for _, t := range where(concur) {
			tp := templates(t)
			// every pair of methods, a few schedules each
			k := 0
			for i := range tp {
				for j := i; j < len(tp); j++ {
					k++
					if k%schedProcs != shard {
						continue
					}
					for rnd := 0; rnd < ctx.n(40, 800); rnd++ {
						size := int64(9 + r.Intn(16))
						sc := &schedCase{Target: t.ID, Init: initBuf(int(size)), Spare: r.Intn(6), Off: r.Int63n(4), Boff: r.Int63n(9), Sched: r.Uint64(), Strat: r.Intn(4)}
						a, b := []*Op{r.fill(&tp[i], size)}, []*Op{r.fill(&tp[j], size)}
						if rnd%2 == 1 { // and something that looks at what they left
							if r.p(0.5) {
								a = append(a, r.fill(&tp[r.Intn(len(tp))], size))
							} else {
								b = append(b, r.fill(&tp[i], size))
							}
						}
						sc.Threads = [][]*Op{a, b}
						if !one(sc, "pairs") {
							return
						}
					}
				}
			}
			// longer histories over a few methods
			for i := 0; i < ctx.n(9000, 300000); i++ {
				size := int64(4 + r.Intn(24))
				sc := &schedCase{Target: t.ID, Init: initBuf(int(size)), Spare: r.Intn(6), Off: r.Int63n(4), Boff: r.Int63n(9), Sched: r.Uint64(), Strat: r.Intn(4)}
				var pool []tmpl
				for j := 0; j < 1+r.Intn(5); j++ {
					pool = append(pool, tp[r.Intn(len(tp))])
				}
				n := 2 + r.Intn(3)
				for j := 0; j < n; j++ {
					var th []*Op
					for l := 0; l < 1+r.Intn(5-n); l++ {
						th = append(th, r.fill(&pool[r.Intn(len(pool))], size))
					}
					sc.Threads = append(sc.Threads, th)
				}
				if !one(sc, "mixes") {
					return
				}
			}
		}
		// operations on much data, interleaved wherever they let go of the lock
		for _, t := range where(concur) {
			tp := templates(t)
			for i := 0; i < ctx.n(250, 6000); i++ {
				sc := r.largeSched(t, tp, initBuf)
				for k := 0; k < 4; k++ {
					sc2 := *sc
					sc2.Sched, sc2.Strat = r.Uint64(), k
					if !one(&sc2, "large") {
						return
					}
				}
			}
		}
	}()
	for h := range distinct {
		rep.Distinct = append(rep.Distinct, h)
	}
	j, _ := json.Marshal(rep)
	if err := os.WriteFile(outPath, j, 0o644); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
}

// largeSched is a short history in which most operations cover most of a buffer of up to
// 256 KiB.
func (r *R) largeSched(t *Target, tp []tmpl, initBuf func(int) []byte) *schedCase {
	size := int64(32) << uint(r.Intn(14))
	size += r.Int63n(size/4 + 9)
	if len(dict) > 0 && r.p(0.3) {
		if d := dict[r.Intn(len(dict))]; d > 0 && d < 1<<17 {
			size = d*[]int64{1, 1, 2, 4, 8}[r.Intn(5)] + r.Int63n(40)
		}
	}
	sc := &schedCase{Target: t.ID, Init: initBuf(int(size)), Spare: r.Intn(6), Off: r.Int63n(4), Boff: r.Int63n(9), Large: true}
	var big []tmpl
	for _, x := range tp {
		switch x.base.K {
		case KReadBytes, KReadT, KWriteBytes, KWriteT, KClearAll, KSetAll, KFlipAll, KGrow:
			big = append(big, x)
		}
	}
	for th := 0; th < 2+r.Intn(2); th++ {
		var l []*Op
		for k := 0; k < 1+r.Intn(2); k++ {
			pool := big
			if r.p(0.25) {
				pool = tp
			}
			o := r.fill(&pool[r.Intn(len(pool))], size)
			n := (size - 4) / o.width()
			if r.p(0.3) {
				n = max(1, n/[]int64{2, 3, 8}[r.Intn(3)])
			}
			if !r.p(0.1) {
				switch o.K {
				case KWriteBytes:
					o.Data = r.data(int(n))
				case KWriteT:
					o.Vals = make([]uint64, n)
					for j := range o.Vals {
						o.Vals[j] = r.Uint64()
					}
				case KReadBytes, KReadT:
					o.N = n
				case KGrow:
					o.N = r.Int63n(size)
				}
				if o.Off >= 0 && o.isAccess() && !o.Next && o.K != KReadBits && o.K != KSetBits && n > 1 && r.p(0.8) {
					o.Off %= 4
				}
			}
			l = append(l, o)
		}
		sc.Threads = append(sc.Threads, l)
	}
	return sc
}

// shrinkSched drops operations while some schedule still shows a violation.
func shrinkSched(sc *schedCase) *schedCase {
	best := sc
	again := func(d *schedCase) *schedCase {
		for k := uint64(0); k < 150; k++ {
			e := *d
			if k > 0 {
				e.Sched, e.Strat = mix(sc.Sched, k), int(k%4)
			}
			o := runSched(&e)
			if o.verdict == porcupine.Illegal {
				return &e
			}
		}
		return nil
	}
	for improved := true; improved; {
		improved = false
		for ti := range best.Threads {
			for oi := range best.Threads[ti] {
				d := *best
				d.Threads = nil
				for k, th := range best.Threads {
					nth := append([]*Op{}, th...)
					if k == ti {
						nth = append(nth[:oi], nth[oi+1:]...)
					}
					if len(nth) > 0 {
						d.Threads = append(d.Threads, nth)
					}
				}
				if len(d.Threads) == 0 {
					continue
				}
				if e := again(&d); e != nil {
					best, improved = e, true
					break
				}
			}
			if improved {
				break
			}
		}
	}
	return best
}

// runSchedParent starts the exploring processes and merges what they report.
func (ctx *Ctx) runSchedParent() {
	bin := ctx.Bin["sched"]
	if bin == "" {
		ctx.extra["controlled_schedules"] = "not available for this tree (the copies with scheduling points did not build)"
		return
	}
	reps := make([]*schedReport, schedProcs)
	var wg sync.WaitGroup
	var mu sync.Mutex
	crash := ""
	for i := range reps {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			out := filepath.Join(ctx.Scratch, fmt.Sprintf("sched-%d.json", i))
			cmd := exec.Command(bin, "-prop", ctx.ID, "-tier", ctx.Tier, "-seed", fmt.Sprint(ctx.Seed), "-repo", ctx.Repo, "-mode", "sched", "-arg", fmt.Sprintf("%d:%s", i, out))
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
			limit := 300 * time.Second
			if ctx.Thorough {
				limit = 2 * time.Hour
			}
			txt, err := runLimited(cmd, limit)
			b, rerr := os.ReadFile(out)
			if err != nil || rerr != nil {
				mu.Lock()
				crash = fmt.Sprintf("an exploring process failed: %v\n%s", err, tail(txt, 3000))
				mu.Unlock()
				return
			}
			rep := &schedReport{}
			if json.Unmarshal(b, rep) == nil {
				reps[i] = rep
			}
		}(i)
	}
	wg.Wait()
	cov := newCov()
	defer ctx.merge(cov)
	got := 0
	var points, switches int64
	for _, rep := range reps {
		if rep == nil {
			continue
		}
		got++
		cov.Eval += rep.Eval
		cov.NonTriv += rep.Overlap
		points += rep.Points
		switches += rep.Switches
		for _, h := range rep.Distinct {
			cov.distinct[h] = struct{}{}
		}
		for k, v := range rep.Counts {
			cov.Counts["controlled "+k] += v
		}
		cov.count("histories with overlapping operations", rep.Overlap)
		cov.count("histories undecided in time", rep.Unknown)
		cov.count("schedules cut short", rep.Exhausted)
		if rep.Dead != nil {
			cov.count("schedules that deadlocked", 1)
		}
		cov.samples = append(cov.samples, rep.Samples...)
		if ctx.ID == "P02" && rep.Viol != nil {
			ctx.report(&Viol{Text: "a concurrent history has no equivalent sequential order\n" + rep.Text, Kind: "sched", Data: rep.Viol})
		}
		if ctx.ID == "P03" && rep.Dead != nil {
			ctx.report(&Viol{Text: "operations block one another for ever\n" + rep.DeadText, Kind: "sched", Data: rep.Dead})
		}
	}
	cov.count("scheduling points", points)
	cov.count("thread switches", switches)
	if got == 0 {
		ctx.extra["controlled_schedules"] = "failed: " + crash
	} else {
		ctx.extra["controlled_schedules"] = fmt.Sprintf("%d processes", got)
		if crash != "" {
			ctx.extra["controlled_schedules_failures"] = crash
		}
	}
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// runLimited runs a child and ends it when it takes too long.
func runLimited(cmd *exec.Cmd, limit time.Duration) (string, error) {
	var b strings.Builder
	cmd.Stdout, cmd.Stderr = &b, &b
	if err := cmd.Start(); err != nil {
		return "", err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		return b.String(), err
	case <-time.After(limit):
		cmd.Process.Kill()
		<-done
		return b.String(), fmt.Errorf("no end after %v", limit)
	}
}

func replaySched(ctx *Ctx, rf *replayFile) *Viol {
	if rf.Kind != "sched" || ctx.Bin["sched"] == "" {
		fmt.Println("not replayable; run the check with the same seed")
		os.Exit(2)
	}
	j, _ := json.Marshal(rf.Data)
	p := filepath.Join(ctx.Scratch, "replay-sched.json")
	os.WriteFile(p, j, 0o644)
	txt, err := runLimited(exec.Command(ctx.Bin["sched"], "-prop", ctx.ID, "-repo", ctx.Repo, "-mode", "schedreplay", "-arg", p), time.Minute)
	if err != nil {
		return &Viol{Text: txt}
	}
	return nil
}

func schedReplayChild(ctx *Ctx) {
	b, _ := os.ReadFile(ctx.Arg)
	sc := &schedCase{}
	if err := json.Unmarshal(b, sc); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	o := runSched(sc)
	if o.deadlock || o.verdict == porcupine.Illegal {
		fmt.Println(o.text)
		os.Exit(1)
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
