package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"
)

// The race-detector build of the harness runs as child processes, so that what
// the detector reports can be collected and judged here.

type raceSide struct {
	write   bool
	method  string // outermost method of the code under test on the stack
	frames  []string
	unknown bool // the detector could not restore the stack
}

type raceReport struct {
	sides [2]raceSide
	text  string
}

var raceHead = regexp.MustCompile(`(?m)^(Previous )?(atomic )?(Read|Write|read|write)( at 0x[0-9a-f]+)? .*by (goroutine|main).*$`)
var frameLine = regexp.MustCompile(`^  (\S.*)\(\)$`)

const crunchPath = "superwhiskers/crunch/"

// parseRaces reads what the race detector wrote.
func parseRaces(txt string) (out []raceReport) {
	for _, rep := range strings.Split(txt, "WARNING: DATA RACE")[1:] {
		rep, _, _ = strings.Cut(rep, "==================")
		r := raceReport{text: strings.TrimSpace(rep)}
		n := -1
		for _, l := range strings.Split(rep, "\n") {
			if raceHead.MatchString(l) {
				if n++; n > 1 {
					break
				}
				r.sides[n].write = strings.Contains(strings.ToLower(l), "write")
				continue
			}
			if strings.HasPrefix(l, "Goroutine ") {
				break
			}
			if n < 0 {
				continue
			}
			if strings.Contains(l, "failed to restore the stack") {
				r.sides[n].unknown = true
			}
			if m := frameLine.FindStringSubmatch(l); m != nil {
				r.sides[n].frames = append(r.sides[n].frames, m[1])
				if i := strings.Index(m[1], crunchPath); i >= 0 {
					r.sides[n].method = m[1][i+len(crunchPath):]
				}
			}
		}
		out = append(out, r)
	}
	return
}

// key identifies a report by the two methods that race.
func (r *raceReport) key() string {
	s := []string{}
	for _, x := range r.sides {
		k := "read in "
		if x.write {
			k = "write in "
		}
		s = append(s, k+x.method)
	}
	if s[0] > s[1] {
		s[0], s[1] = s[1], s[0]
	}
	return s[0] + " against " + s[1]
}

var queryNames = map[string]bool{"Bytes": true, "Capacity": true, "BitCapacity": true, "Offset": true, "BitOffset": true, "After": true, "AfterBit": true,
	"ByteOffset": true, "ByteCapacity": true, "AfterByte": true}

func (s *raceSide) query() bool {
	i := strings.LastIndex(s.method, ").")
	return i >= 0 && queryNames[s.method[i+2:]]
}

type raceChildReport struct {
	Eval     int64
	Distinct []uint64
	Counts   map[string]int64
	Bad      string // a wrong result seen by the child itself
	Hung     string
	Samples  []string
}

const raceProcs = 8

// runRace runs the named workloads in the race-detector build. judge decides
// each report: "" for one that is no violation.
func (ctx *Ctx) runRace(workloads []string, judge func(workload string, r *raceReport) string) {
	bin := ctx.Bin["race"]
	cov := newCov()
	defer ctx.merge(cov)
	type result struct {
		wl, log, txt string
		rep          *raceChildReport
		err          error
	}
	var res []result
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, raceProcs)
	for _, wl := range workloads {
		for i := 0; i < raceProcs; i++ {
			wg.Add(1)
			go func(wl string, i int) {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				out := filepath.Join(ctx.Scratch, fmt.Sprintf("race-%s-%d.json", wl, i))
				log := filepath.Join(ctx.Scratch, fmt.Sprintf("racelog-%s-%d", wl, i))
				cmd := exec.Command(bin, "-prop", ctx.ID, "-tier", ctx.Tier, "-seed", fmt.Sprint(ctx.Seed), "-repo", ctx.Repo, "-mode", "race", "-arg", fmt.Sprintf("%s:%d:%s", wl, i, out))
				cmd.Env = append(os.Environ(), "GOMAXPROCS=3", "GORACE=log_path="+log+" halt_on_error=0 exitcode=0 history_size=5")
				limit := 400 * time.Second
				if ctx.Thorough {
					limit = 2 * time.Hour
				}
				txt, err := runLimited(cmd, limit)
				r := result{wl: wl, txt: txt, err: err}
				files, _ := filepath.Glob(log + ".*")
				for _, f := range files {
					if b, e := os.ReadFile(f); e == nil {
						r.log += string(b)
					}
				}
				if b, e := os.ReadFile(out); e == nil {
					r.rep = &raceChildReport{}
					if json.Unmarshal(b, r.rep) != nil {
						r.rep = nil
					}
				}
				mu.Lock()
				res = append(res, r)
				mu.Unlock()
			}(wl, i)
		}
	}
	wg.Wait()
	seen := map[string]bool{}
	for _, r := range res {
		if r.rep != nil {
			cov.Eval += r.rep.Eval
			cov.NonTriv += r.rep.Eval
			for _, h := range r.rep.Distinct {
				cov.distinct[h] = struct{}{}
			}
			for k, v := range r.rep.Counts {
				cov.Counts[k] += v
			}
			if len(cov.samples) < 6 {
				cov.samples = append(cov.samples, r.rep.Samples...)
			}
			if r.rep.Bad != "" {
				ctx.report(&Viol{Text: r.rep.Bad, Kind: "race"})
			}
			if r.rep.Hung != "" {
				cov.count("workloads abandoned because goroutines blocked for ever", 1)
				if ctx.ID == "P03" {
					ctx.report(&Viol{Text: r.rep.Hung, Kind: "race"})
				}
			}
		}
		reps := parseRaces(r.log)
		cov.count("race reports", int64(len(reps)))
		for i := range reps {
			x := &reps[i]
			if x.sides[0].method == "" && x.sides[1].method == "" {
				if x.sides[0].unknown || x.sides[1].unknown {
					continue
				}
				fmt.Println("a race within the harness itself:\n" + x.text)
				os.Exit(2)
			}
			k := r.wl + ": " + x.key()
			if bad := judge(r.wl, x); bad != "" && !seen[k] {
				seen[k] = true
				ctx.report(&Viol{Text: bad + ": " + x.key() + "\n" + x.text, Kind: "race"})
			}
		}
		if r.rep == nil {
			if c := crashInCrunch(r.txt); c != "" {
				ctx.report(&Viol{Text: "a process died inside the code under test: " + c, Kind: "race"})
				continue
			}
			fmt.Printf("race workload %s failed: %v\n%s\n", r.wl, r.err, tail(r.txt, 4000))
			os.Exit(2)
		}
	}
}

// crashInCrunch says whether a process died inside the code under test.
func crashInCrunch(txt string) string {
	i := strings.Index(txt, "fatal error: ")
	if i < 0 {
		i = strings.Index(txt, "panic: ")
	}
	if i < 0 {
		return ""
	}
	rest := txt[i:]
	if j := strings.Index(rest, "\ngoroutine "); j >= 0 {
		g := rest[j+1:]
		if k := strings.Index(g, "\n\n"); k >= 0 {
			g = g[:k]
		}
		if strings.Contains(g, crunchPath) {
			return tail(rest[:j+1+len(g)], 3000)
		}
	}
	return ""
}

// ---- the child's workloads ----

// cop is an operation of a concurrent workload: either an operation, or
// queries made while holding the lock, or a query made without it.
type cop struct {
	op    *Op
	query int // 1 + index of the query, when op is nil
	lock  bool
}

func (c *cop) String() string {
	if c.op != nil {
		return c.op.String()
	}
	if c.lock {
		return "Lock;" + queryList[c.query-1] + ";Unlock"
	}
	return queryList[c.query-1]
}

var queryList = []string{"Bytes", "Offset", "BitOffset", "Capacity", "BitCapacity", "After", "AfterBit", "After(n)", "AfterBit(n)"}

var raceSink [64]struct {
	v int64
	_ [7]int64
}

func (s *Subj) rawQuery(i, who int, look bool) {
	switch {
	case i == 0:
		var w []byte
		switch f := s.bytes.(type) {
		case func() []byte:
			w = f()
		case func(*[]byte):
			f(&w)
		}
		if look {
			for _, b := range w {
				raceSink[who].v += int64(b)
			}
		}
	case i <= 4:
		raceSink[who].v += s.query(i - 1)
	default:
		o := &Op{K: KAfter, Rel: i > 6}
		if i%2 == 0 {
			o.K = KAfterBit
		}
		if o.method(s.T) != "" {
			raceSink[who].v += s.exec(o).I
		}
	}
}

// do carries out one step of a concurrent workload on a shared buffer.
func (c *cop) do(s *Subj, who int) {
	if c.op != nil {
		s.exec(c.op)
		return
	}
	if c.lock {
		l := s.B.(locker)
		l.Lock()
		s.rawQuery(c.query-1, who, true)
		l.Unlock()
		return
	}
	s.rawQuery(c.query-1, who, false)
}

// raceChild runs one workload.
func raceChild(ctx *Ctx) {
	f := strings.SplitN(ctx.Arg, ":", 3)
	shard := 0
	fmt.Sscan(f[1], &shard)
	rep := &raceChildReport{Counts: map[string]int64{}}
	w := &raceRun{ctx: ctx, wl: f[0], shard: shard, rep: rep, distinct: map[uint64]struct{}{}, r: newR(mix(mix(ctx.Seed, hashStr(hash0, f[0])), uint64(shard)))}
	switch f[0] {
	case "pairs":
		w.pairs(false)
	case "mixes":
		w.mixes()
		w.crowds()
		w.amounts(where(concur), false)
	case "queries":
		w.pairs(true)
	case "queryquery":
		w.queryQuery()
	case "bracket":
		w.bracket()
	case "distinct":
		w.distinctBuffers()
		w.amounts(targets, true)
	case "readshare":
		w.readShare()
	case "firstuse":
		w.firstUse()
	default:
		fmt.Println("no workload", f[0])
		os.Exit(2)
	}
	for h := range w.distinct {
		rep.Distinct = append(rep.Distinct, h)
	}
	j, _ := json.Marshal(rep)
	if err := os.WriteFile(f[2], j, 0o644); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
}

type raceRun struct {
	ctx      *Ctx
	wl       string
	shard    int
	rep      *raceChildReport
	distinct map[uint64]struct{}
	r        *R
}

// together runs the bodies on goroutines of their own; false when they block
// one another for ever.
func (w *raceRun) together(what func() string, fs ...func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		parallel(len(fs), func(i int) { fs[i]() })
	}()
	if !waitOr(done, "parallel") {
		w.rep.Hung = "goroutines wait for the buffer's lock for ever: " + what()
		return false
	}
	return true
}

func (w *raceRun) fresh(t *Target) *Subj {
	n := 12 + w.r.Intn(20)
	store := make([]byte, n, n+w.r.Intn(40))
	w.r.Read(store)
	s := newSubj(t, t.New(store))
	s.refOnly = true
	return s
}

// cops lists what may happen concurrently on one shared buffer: every
// operation, and every query under the lock.
func lockedQueries() (out []cop) {
	for i := range queryList {
		out = append(out, cop{query: i + 1, lock: true})
	}
	return
}
func rawQueries() (out []cop) {
	for i := range queryList {
		out = append(out, cop{query: i + 1})
	}
	return
}

func (w *raceRun) pairs(raw bool) {
	type side struct {
		tp *tmpl
		c  cop
	}
	k := 0
	for _, t := range where(concur) {
		var as, bs []side
		tp := templates(t)
		for i := range tp {
			as = append(as, side{tp: &tp[i]})
		}
		if raw {
			for _, q := range rawQueries() {
				bs = append(bs, side{c: q})
			}
		} else {
			for _, q := range lockedQueries() {
				as = append(as, side{c: q})
			}
			bs = as
		}
		fill := func(s side, size int64) cop {
			if s.tp == nil {
				return s.c
			}
			return cop{op: w.r.fill(s.tp, size)}
		}
		for i := range as {
			for j := range bs {
				if !raw && j < i {
					continue
				}
				k++
				if k%raceProcs != w.shard {
					continue
				}
				for round := 0; round < w.ctx.n(6, 60); round++ {
					s := w.fresh(t)
					var plan [2][]cop
					for x := 0; x < 8; x++ {
						plan[0] = append(plan[0], fill(as[i], 12))
						plan[1] = append(plan[1], fill(bs[j], 12))
					}
					run := func(p int) func() {
						return func() {
							for x := range plan[p] {
								plan[p][x].do(s, p)
							}
						}
					}
					if !w.together(func() string { return fmt.Sprint(t.ID, " ", plan) }, run(0), run(1)) {
						return
					}
					w.rep.Eval += 16
				}
				h := hashStr(hash0, t.ID+w.wl)
				h = hashInt(h, int64(i*1000+j))
				w.distinct[h] = struct{}{}
				w.rep.Counts[w.wl+": pairs of operations of "+t.ID]++
				if len(w.rep.Samples) < 1 && i > 4 {
					a, b := fill(as[i], 12), fill(bs[j], 12)
					w.rep.Samples = append(w.rep.Samples, fmt.Sprintf("%s: %s against %s on one buffer, 8 times each on %d fresh buffers, race detector silent or judged", t.ID, &a, &b, w.ctx.n(6, 60)))
				}
			}
		}
	}
}

// mixes: several goroutines, many different operations, one buffer.
func (w *raceRun) mixes() {
	for _, t := range where(concur) {
		tp := templates(t)
		lq := lockedQueries()
		for n := 0; n < w.ctx.n(150, 4000); n++ {
			s := w.fresh(t)
			g := 2 + w.r.Intn(7)
			var fs []func()
			for i := 0; i < g; i++ {
				var plan []cop
				for x := 0; x < 30; x++ {
					if w.r.p(0.1) {
						plan = append(plan, lq[w.r.Intn(len(lq))])
						continue
					}
					plan = append(plan, cop{op: w.r.fill(&tp[w.r.Intn(len(tp))], 12)})
				}
				i := i
				fs = append(fs, func() {
					for x := range plan {
						plan[x].do(s, i)
					}
				})
			}
			if !w.together(func() string { return t.ID + " random mix" }, fs...) {
				return
			}
			w.rep.Eval += int64(g * 30)
			w.rep.Counts["mixes of "+t.ID]++
			w.distinct[mix(hashStr(hash0, t.ID), uint64(w.shard*100000+n))] = struct{}{}
		}
	}
}

// crowds: hundreds of goroutines wait for one buffer at once.
func (w *raceRun) crowds() {
	for _, t := range where(concur) {
		tp := templates(t)
		for n := 0; n < w.ctx.n(4, 60) && w.rep.Hung == ""; n++ {
			s := w.fresh(t)
			g := []int{40, 300, 300, 700}[n%4]
			a, b := &tp[w.r.Intn(len(tp))], &tp[w.r.Intn(len(tp))]
			if n%4 == 1 {
				for i := range tp {
					if tp[i].base.K == KFlipAll {
						a, b = &tp[i], &tp[i]
					}
				}
			}
			l, isLocker := s.B.(locker)
			if isLocker {
				l.Lock()
			}
			var fs []func()
			for i := 0; i < g; i++ {
				c := cop{op: w.r.fill([]*tmpl{a, b}[i%2], 12)}
				fs = append(fs, func() { c.do(s, 0) })
			}
			if isLocker {
				fs = append(fs, func() {
					time.Sleep(3 * time.Millisecond)
					l.Unlock()
				})
			}
			if !w.together(func() string { return t.ID + " crowd" }, fs...) {
				return
			}
			w.rep.Eval += int64(g)
			w.rep.Counts["crowds of up to 700 on "+t.ID]++
			w.distinct[mix(hashStr(hash0, t.ID+"crowd"), uint64(w.shard*100000+n))] = struct{}{}
		}
	}
}

// queryQuery: queries from several goroutines, no operation in flight.
func (w *raceRun) queryQuery() {
	for _, t := range where(lockable) {
		for n := 0; n < w.ctx.n(20, 400); n++ {
			s := w.fresh(t)
			var fs []func()
			for i := 0; i < 4; i++ {
				var plan []cop
				for x := 0; x < 30; x++ {
					plan = append(plan, rawQueries()[w.r.Intn(len(queryList))])
				}
				i := i
				fs = append(fs, func() {
					for x := range plan {
						plan[x].do(s, i)
					}
				})
			}
			if !w.together(func() string { return t.ID + " queries" }, fs...) {
				return
			}
			w.rep.Eval += 120
			w.rep.Counts["query mixes of "+t.ID]++
			w.distinct[mix(hashStr(hash0, t.ID+"q"), uint64(w.shard*100000+n))] = struct{}{}
		}
	}
}

// bracket: lock-it-yourself buffers shared by clients that hold the lock.
func (w *raceRun) bracket() {
	for _, t := range where(func(t *Target) bool { return lockable(t) && t.Mini }) {
		m := defaultMix()
		m.Types, m.OOR = "UIF", 0
		ks, tys := m.kinds(), t.types(m.Types)
		for n := 0; n < w.ctx.n(120, 3000); n++ {
			s := w.fresh(t)
			lk, ok := s.B.(locker)
			if !ok {
				return
			}
			g := 2 + w.r.Intn(5)
			bad := make([]string, g)
			var fs []func()
			for i := 0; i < g; i++ {
				rr := newR(w.r.Uint64())
				i := i
				fs = append(fs, func() {
					for x := 0; x < 25 && bad[i] == ""; x++ {
						lk.Lock()
						for y := 0; y < 1+rr.Intn(3); y++ {
							pre := s.observe()
							o := rr.genOp(t, &m, pre, ks, tys)
							if o == nil || o.method(t) == "" || spec(t, pre, o).Unspec {
								s.rawQuery(rr.Intn(len(queryList)), i, true)
								continue
							}
							s.refOnly = false
							s.exec(o)
							s.refOnly = true
						}
						if lk.TryLock() {
							bad[i] = t.ID + ": the lock its client holds was released by an operation"
						}
						lk.Unlock()
					}
				})
			}
			if !w.together(func() string { return t.ID + " operations bracketed by the buffer's own lock" }, fs...) {
				return
			}
			for _, b := range bad {
				if b != "" {
					w.rep.Bad = b
					return
				}
			}
			w.rep.Eval += int64(g * 25)
			w.rep.Counts["bracketed mixes of "+t.ID]++
			w.distinct[mix(hashStr(hash0, t.ID+"b"), uint64(w.shard*100000+n))] = struct{}{}
		}
	}
}

// trace runs a history alone and returns what was seen.
func traceCase(c *Case) (out []string) {
	b := c.build()
	s := b.subj
	pre := s.observe()
	for _, o := range c.Ops {
		if o.method(s.T) == "" || spec(s.T, pre, o).Unspec {
			continue
		}
		r := s.exec(o)
		if l, ok := s.B.(locker); ok {
			if !l.TryLock() {
				return append(out, "locked")
			}
			l.Unlock()
		}
		pre = s.observe()
		out = append(out, resKey(r)+" "+stateKey(pre))
	}
	return
}

// distinctBuffers: each goroutine has a buffer of its own; neighbours in
// memory, same history or not, must not matter.
func (w *raceRun) distinctBuffers() {
	m := defaultMix()
	m.Types = "UIF"
	for n := 0; n < w.ctx.n(60, 1500); n++ {
		g := 3 + w.r.Intn(4)
		var cases []*Case
		for i := 0; i < g; i++ {
			t := targets[w.r.Intn(len(targets))]
			if n%2 == 0 && i > 0 { // half of the time all of one type
				t = targetByID(cases[0].Target)
			}
			mm := m
			mm.MaxSize = []int{40, 600, 4000}[w.r.Intn(3)]
			mm.MaxLen = 200
			cases = append(cases, w.r.history(t, &mm, mm.kinds(), t.types(mm.Types), 30+w.r.Intn(40), w.r.p(0.5)))
			if n%3 == 0 && i > 0 { // and sometimes the very same history
				cases[i] = cases[0]
			}
		}
		got := make([][]string, g)
		var fs []func()
		for i := range cases {
			i := i
			fs = append(fs, func() {
				for k := 0; k < 3; k++ {
					got[i] = traceCase(cases[i])
				}
			})
		}
		if !w.together(func() string { return "operations on distinct buffers" }, fs...) {
			return
		}
		solo := make([][]string, g) // afterwards, so that nothing is prepared by it
		for i := range cases {
			solo[i] = traceCase(cases[i])
		}
		for i := range cases {
			for k := range solo[i] {
				if k >= len(got[i]) || got[i][k] != solo[i][k] {
					w.rep.Bad = fmt.Sprintf("a history on a %s of its own gave a different result while other goroutines used other buffers: operation %d: %s", cases[i].Target, k, cases[i].Ops[min(k, len(cases[i].Ops)-1)])
					return
				}
			}
			w.rep.Eval += int64(3 * len(solo[i]))
			w.rep.Counts["histories on distinct "+cases[i].Target] += 3
			h := hashStr(hash0, cases[i].Target)
			for _, x := range solo[i] {
				h = hashStr(h, x)
			}
			w.distinct[h] = struct{}{}
		}
		if len(w.rep.Samples) < 1 {
			w.rep.Samples = append(w.rep.Samples, fmt.Sprintf("%d goroutines, buffers of their own (%s first), %d operations each compared with running alone", g, cases[0].Target, len(solo[0])))
		}
	}
}

// firstUse: every operation of every type is used for the first time in the life of
// the process by several goroutines at once, on buffers of their own or, where it only
// reads, on one they share. Whatever the package prepares lazily is prepared then.
func (w *raceRun) firstUse() {
	type item struct {
		t  *Target
		tp tmpl
	}
	var items []item
	for _, t := range targets {
		for _, tp := range templates(t) {
			items = append(items, item{t, tp})
		}
	}
	w.r.Shuffle(len(items), func(i, j int) { items[i], items[j] = items[j], items[i] })
	for round, size := range []int{16, 16, 9000} {
		for _, it := range items {
			const g = 4
			share := (w.shard+round)%2 == 0 && it.tp.base.isRead() && !it.tp.base.Next
			store := make([]byte, size)
			w.r.Read(store)
			var shared *Subj
			if share {
				shared = newSubj(it.t, it.t.New(store))
			}
			got := make([]string, g)
			var fs []func()
			o := w.r.fill(&it.tp, 16)
			if n := size / 16; size > 100 {
				switch o.K {
				case KReadBytes, KReadT:
					o.N = int64(n)
				case KWriteT:
					o.Vals = w.r.vals(n)
				case KWriteBytes:
					o.Data = w.r.data(n)
				}
			}
			if spec(it.t, &State{Data: store}, o).Unspec {
				continue
			}
			for i := range got {
				fs = append(fs, func() {
					s := shared
					if s == nil {
						s = newSubj(it.t, it.t.New(append([]byte{}, store...)))
					}
					got[i] = resKey(s.exec(o))
					if shared == nil {
						got[i] += " " + stateKey(s.observe())
					}
				})
			}
			if !w.together(func() string { return it.t.ID + " first use of " + o.String() }, fs...) {
				return
			}
			for i := range got {
				if got[i] != got[0] {
					w.rep.Bad = fmt.Sprintf("%s: %s used by several goroutines at once gave %s on one and %s on another, the contents being the same", it.t.ID, o, got[0], got[i])
					return
				}
			}
			w.rep.Eval += g
			w.rep.Counts["first uses by four goroutines at once, "+it.t.ID]++
			w.distinct[mix(hashStr(hash0, it.t.ID+o.method(it.t)+"f"), uint64(round))] = struct{}{}
		}
	}
}

// readShare: positioned reads and queries of one unchanging buffer.
func (w *raceRun) readShare() {
	for _, t := range targets {
		var rd []tmpl
		for _, tp := range templates(t) {
			if tp.base.isRead() && !tp.base.Next {
				rd = append(rd, tp)
			}
		}
		for n := 0; n < w.ctx.n(50, 1500); n++ {
			size := []int{9, 30, 70, 300, 5000}[w.r.Intn(5)]
			store := make([]byte, size, size+w.r.Intn(9))
			w.r.Read(store)
			keep := append([]byte{}, store...)
			s := newSubj(t, t.New(store))
			s.exec(&Op{K: KSeek, Off: int64(w.r.Intn(size))})
			g := 2 + w.r.Intn(5)
			var plans [][]cop
			for i := 0; i < g; i++ {
				var plan []cop
				for x := 0; x < 30; x++ {
					if w.r.p(0.25) {
						plan = append(plan, rawQueries()[w.r.Intn(len(queryList))])
						continue
					}
					o := w.r.fill(&rd[w.r.Intn(len(rd))], 9)
					if size > 100 && (o.K == KReadBytes || o.K == KReadT) {
						o.N = int64(w.r.Intn(size / 8))
						o.Off = int64(w.r.Intn(9))
					}
					if spec(t, &State{Data: keep}, o).Unspec {
						continue
					}
					plan = append(plan, cop{op: o})
				}
				plans = append(plans, plan)
			}
			want := make([][]string, g)
			got := make([][]string, g)
			pre := s.observe()
			var fs []func()
			for i := range plans {
				i := i
				fs = append(fs, func() {
					for _, c := range plans[i] {
						if c.op != nil {
							got[i] = append(got[i], resKey(s.exec(c.op)))
						} else {
							s.rawQuery(c.query-1, i, true)
						}
					}
				})
			}
			if !w.together(func() string { return t.ID + " concurrent positioned reads" }, fs...) {
				return
			}
			for i := range plans {
				for _, c := range plans[i] {
					if c.op != nil {
						want[i] = append(want[i], resKey(s.exec(c.op)))
					}
				}
			}
			for i := range want {
				for k := range want[i] {
					if want[i][k] != got[i][k] {
						w.rep.Bad = fmt.Sprintf("%s: a positioned read gave %s while others read the same buffer, %s when alone", t.ID, got[i][k], want[i][k])
						return
					}
				}
				w.rep.Eval += int64(len(plans[i]))
			}
			if post := s.observe(); stateKey(post) != stateKey(pre) || string(post.Data) != string(keep) {
				w.rep.Bad = t.ID + ": positioned reads and queries changed the buffer"
				return
			}
			w.rep.Counts["shared-read mixes of "+t.ID]++
			w.distinct[mix(hashStr(hash0, t.ID+"r"), uint64(w.shard*100000+n))] = struct{}{}
		}
	}
}
