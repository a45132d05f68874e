package main

import (
	"bufio"
	"bytes"
	"encoding/gob"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"regexp"
)

// The same histories on a 64-bit and on a 32-bit build of the code.

type wordAsk struct {
	Case Case
	Text bool // want the outcomes spelt out
	Huge uint64
}

type wordAnswer struct {
	Sums  []uint64
	Texts []string
	Size  int // of a word
	Huge  string
	Evals int64
}

// outcomes runs the case and describes what every specified operation did.
func outcomes(c *Case, text bool) (sums []uint64, texts []string) {
	note := func(s string, h uint64) {
		if text {
			texts = append(texts, s)
		}
		sums = append(sums, hashStr(h, s))
	}
	var b *built
	if msg := catch(func() { b = c.build() }); msg != "" {
		note("construction panicked", 0)
		return
	}
	s := b.subj
	state := func() (string, uint64) {
		h := uint64(hash0)
		l := s.live()
		for i := range l {
			h = (h ^ uint64(l[i])) * 0x100000001b3
		}
		t := fmt.Sprintf("{size=%d off=%d bitoff=%d cap=%d bitcap=%d", len(l), s.query(0), s.query(1), s.query(2), s.query(3))
		if text {
			t += " data=" + shortHex(l)
		}
		return t + "}", h
	}
	t, h := state()
	if text {
		h = 0
	}
	note("constructed "+t, h)
	for i, o := range c.Ops {
		if o.method(s.T) == "" {
			continue
		}
		e := spec(s.T, &State{Data: s.live(), Off: s.query(0), Boff: s.query(1)}, o)
		if e.Unspec {
			continue
		}
		r := s.exec(o)
		res := resKey(r)
		if r.Panicked && e.RefuseAny {
			res = "refused"
		}
		t, h := state()
		pre := ""
		if text {
			pre, h = fmt.Sprintf("step %d, %s: ", i, o), 0
		}
		note(pre+res+", then "+t, h)
		if s.T.Conc() {
			if !s.B.(locker).TryLock() {
				note("lock held", 0)
				return
			}
			s.B.(locker).Unlock()
		}
	}
	return
}

func wordChild(ctx *Ctx) {
	in := gob.NewDecoder(bufio.NewReader(os.Stdin))
	w := bufio.NewWriter(os.Stdout)
	out := gob.NewEncoder(w)
	for {
		a := &wordAsk{}
		if err := in.Decode(a); err == io.EOF {
			return
		} else if err != nil {
			fmt.Fprintln(os.Stderr, "harness: ", err)
			exit(3)
		}
		ans := &wordAnswer{Size: wordBits}
		if a.Huge != 0 {
			ctx.Seed = a.Huge
			for _, next := range []bool{false, true} {
				ctx.huge(220, targets, []Kind{KWriteBytes, KReadBytes, KWriteByte, KReadByte, KWriteT, KReadT, KReadBit, KReadBits, KSetBit, KSetBits, KFlipBit}, "UIF", next)
			}
			ctx.wideLife(KTruncL, KTruncR, KReset, KGrow, KRefresh)
			ctx.wholeHuge()
			if ctx.viol != nil {
				ans.Huge = ctx.viol.Text
			}
			ans.Evals = ctx.cov.Counts["huge-position accesses"] + ctx.cov.Counts["resizes of huge buffers"] + ctx.cov.Counts["whole-buffer operations on huge buffers"]
		} else {
			ans.Sums, ans.Texts = outcomes(&a.Case, a.Text)
		}
		if out.Encode(ans) != nil || w.Flush() != nil {
			exit(3)
		}
	}
}

type wordProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	enc *gob.Encoder
	dec *gob.Decoder
	err *bytes.Buffer
}

func (ctx *Ctx) startWord(bin string) *wordProc {
	p := &wordProc{cmd: exec.Command(bin, "-prop", "A02", "-repo", ctx.Repo, "-mode", "word"), err: &bytes.Buffer{}}
	p.cmd.Stderr = p.err
	in, e1 := p.cmd.StdinPipe()
	out, e2 := p.cmd.StdoutPipe()
	if e1 != nil || e2 != nil {
		fmt.Println(e1, e2)
		exit(2)
	}
	if err := p.cmd.Start(); err != nil {
		fmt.Println("the 32-bit build does not run here:", err)
		exit(2)
	}
	p.in, p.enc, p.dec = in, gob.NewEncoder(in), gob.NewDecoder(bufio.NewReader(out))
	return p
}

func (p *wordProc) ask(a *wordAsk) (*wordAnswer, error) {
	if err := p.enc.Encode(a); err != nil {
		return nil, err
	}
	ans := &wordAnswer{}
	err := p.dec.Decode(ans)
	return ans, err
}

func (p *wordProc) stop() {
	p.in.Close()
	p.cmd.Wait()
}

var crunchCrash = regexp.MustCompile(`(?m)^(fatal error|panic|SIG\w+|unexpected fault).*$`)

// runWord compares one case.
func (ctx *Ctx) runWord(p **wordProc, c *Case, cov *Cov) *Viol {
	vi := func(f string, a ...any) *Viol {
		return &Viol{Text: fmt.Sprintf(f, a...), Case: c, Kind: "word"}
	}
	if *p == nil {
		*p = ctx.startWord(ctx.Bin["386"])
	}
	here, _ := outcomes(c, false)
	there, err := (*p).ask(&wordAsk{Case: *c})
	if err != nil {
		(*p).stop()
		msg := (*p).err.String()
		*p = nil
		if crunchCrash.MatchString(msg) && regexp.MustCompile(`superwhiskers/crunch/v\d`).MatchString(msg) {
			return vi("the 32-bit process died inside the code under test:\n%s", msg[:min(len(msg), 3000)])
		}
		fmt.Println("the 32-bit process failed:", err, msg)
		exit(2)
	}
	if there.Size != 32 || wordBits != 64 {
		fmt.Println("not a 32-bit build:", there.Size, wordBits)
		exit(2)
	}
	for i := 0; i < max(len(here), len(there.Sums)); i++ {
		if i < len(here) && i < len(there.Sums) && here[i] == there.Sums[i] {
			continue
		}
		_, ht := outcomes(c, true)
		tt, err := (*p).ask(&wordAsk{Case: *c, Text: true})
		if err != nil {
			return vi("outcomes differ between 64 and 32 bits (and the 32-bit process died describing it)")
		}
		for k := 0; k < max(len(ht), len(tt.Texts)); k++ {
			a, b := "(nothing)", "(nothing)"
			if k < len(ht) {
				a = ht[k]
			}
			if k < len(tt.Texts) {
				b = tt.Texts[k]
			}
			if a != b {
				return vi("%s: 64-bit: %s\n  32-bit: %s", c.Target, a, b)
			}
		}
		return vi("%s: outcomes differ between 64 and 32 bits in the contents after outcome %d", c.Target, i)
	}
	if cov != nil {
		for i, h := range here {
			cov.hit(h, i > 0)
		}
		cov.Counts[c.Target] += int64(len(here))
		if len(cov.samples) < 1 && len(here) > 5 {
			_, t := outcomes(c, true)
			cov.samples = append(cov.samples, c.Target+", both: "+t[len(t)-1])
		}
	}
	return nil
}

func init() {
	props["A02"] = &Prop{Rule: "one operation executed by a 64-bit and a 32-bit process, outcomes (result, refusal, contents, cursors, sizes) equal; plus accesses, resizes and whole-buffer operations past bit position 2^31 and 2^32 judged by the contract in the 32-bit process",
		Assume: []string{"the 32-bit platform is GOARCH=386 run on this machine", "amounts of memory a 32-bit address space cannot hold are not asked for"},
		Run:    runA02, Child: wordChild, Replay: func(ctx *Ctx, rf *replayFile) *Viol {
			if rf.Case == nil {
				return ctx.wordHuge()
			}
			var p *wordProc
			return ctx.runWord(&p, rf.Case, nil)
		}}
}

func (ctx *Ctx) wordHuge() *Viol {
	p := ctx.startWord(ctx.Bin["386"])
	ans, err := p.ask(&wordAsk{Huge: ctx.Seed | 1<<60})
	if err != nil {
		fmt.Println("the 32-bit process failed:", err, p.err.String())
		exit(2)
	}
	p.stop()
	if ans.Huge != "" {
		return &Viol{Text: "32-bit: " + ans.Huge, Kind: "wordhuge"}
	}
	cov := newCov()
	cov.Eval = ans.Evals
	cov.count("accesses, resizes and whole-buffer operations past bit position 2^31 in the 32-bit process", ans.Evals)
	ctx.merge(cov)
	return nil
}

func runA02(ctx *Ctx) {
	procs := make([]*wordProc, nShards)
	fns := func(shard int, c *Case, cov *Cov) *Viol {
		ctx.prog[shard].Add(1)
		return ctx.runWord(&procs[shard], c, cov)
	}
	kinds := []Kind{KWriteBytes, KReadBytes, KWriteByte, KReadByte, KWriteT, KReadT, KReadBit, KReadBits, KSetBit, KSetBits, KFlipBit}
	for _, next := range []bool{false, true} {
		ctx.grid(221, targets, append(upto(ctx.n(9, 24)), ctx.n(12, 33)), func(t *Target, size int64, r *R) []*Op {
			ops := gridOps(t, size, r, kinds, "UIF", next, false)
			return append(ops, gridOps(t, size, r, kinds, "UIF", next, true)...)
		}, fns)
		ctx.longs(222, targets, []Kind{KWriteBytes, KReadBytes, KWriteT, KReadT}, "UIF", next, fns)
	}
	ctx.longs(223, targets, []Kind{KClearAll, KSetAll, KFlipAll}, "UIF", false, fns)
	// operands around the limits of 32-bit integers
	ctx.grid(224, targets, []int{0, 1, 8, 17, 40}, func(t *Target, size int64, r *R) []*Op { return wordEdges(t, size, r, ctx.n(1500, 20000)) }, fns)
	mx := func(t *Target) Mix {
		m := defaultMix()
		if !t.Mini {
			m.OOR = 0.3
		}
		return m
	}
	ctx.histories(225, targets, mx, ctx.n(800, 20000), 60, fns)
	ctx.histories(226, targets, func(t *Target) Mix {
		m := mx(t)
		m.OOR = 0.6
		return m.with(60, KSeek, KSeekBit, KAfter, KAfterBit, KAlignBit, KAlignByte)
	}, ctx.n(800, 20000), 60, fns)
	for _, p := range procs {
		if p != nil {
			p.stop()
		}
	}
	if !ctx.stop.Load() {
		if v := ctx.wordHuge(); v != nil {
			ctx.report(v)
		}
	}
}

// wordEdges are operations with operands that change meaning when cut to 32 bits or fewer.
func wordEdges(t *Target, size int64, r *R, n int) (ops []*Op) {
	edge := func(lim int64) int64 {
		v := int64(0)
		switch r.Intn(6) {
		case 0:
			v = int64(1+r.Intn(4)) << uint([]int{31, 32, 33, 35, 29, 28}[r.Intn(6)])
		case 1:
			v = -int64(1+r.Intn(4)) << uint([]int{31, 32, 33, 35}[r.Intn(4)])
		case 2:
			v = math.MaxInt32 + int64(r.Intn(3)) - 1
		case 3:
			v = math.MaxUint32 + int64(r.Intn(3)) - 1
		case 4:
			v = math.MinInt32 + int64(r.Intn(3)) - 1
		default:
			return r.near(lim)
		}
		return v + r.near(lim)
	}
	tys := t.types("UIF")
	for len(ops) < n {
		k := Kind(r.Intn(int(KAlignByte) + 1))
		o := &Op{K: k, Prior: r.Uint64() | 1, Off: edge(size)}
		bits := o.isBit() || k == KSeekBit || k == KAfterBit
		if bits {
			o.Off = edge(size * 8)
		}
		switch k {
		case KReadT, KWriteT:
			y := tys[r.Intn(len(tys))]
			o.Ty, o.W, o.Ord = y.Ty, y.W, y.Ord
		}
		switch k {
		case KWriteT:
			o.Vals = r.vals(r.Intn(3))
		case KWriteBytes:
			o.Data = r.data(r.Intn(5))
		case KReadBytes, KReadT:
			o.N = edge(size)
			if r.p(0.5) {
				o.Off = r.near(size)
			}
		case KReadBits, KSetBits:
			o.N, o.Val = int64(r.Intn(65)), r.val()
		case KWriteByte:
			o.Val = r.val() & 0xFF
		case KSetBit:
			o.Val = uint64(r.Intn(2))
		case KSeek, KSeekBit, KAfter, KAfterBit:
			o.Rel = r.p(0.5)
		}
		if o.isAccess() && r.p(0.4) {
			seek := KSeek
			if bits {
				seek = KSeekBit
			}
			ops = append(ops, &Op{K: seek, Off: o.Off})
			o.Next, o.Off = true, 0
		}
		ops = append(ops, o)
	}
	return
}
