package main

import (
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// The fault monitor of the generator: directories in which some templates
// cannot be read and some outputs cannot be written, next to healthy ones,
// run by a generator that may hold few files open. The whole tree is compared
// with what the healthy templates alone would have made of it.

func init() {
	props["G04"] = &Prop{Rule: "one run of the generator over a directory with faults in it (templates that cannot be read, outputs that cannot be written, invocations that name no mode or no directory): the outputs of the healthy templates as expected, everything else compared with before",
		Assume: []string{"a directive's expansion is learnt from a template that contains only it", "what is left behind at an output that could not be written is not looked at"},
		Run:    runG04, Child: childModes}
}

// snapshot lists a tree without following links: "/" marks a directory,
// "->x" a link, "=..." the contents of a file.
func snapshot(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		rel, _ := filepath.Rel(dir, p)
		if err != nil || rel == "." {
			return nil
		}
		switch {
		case i.IsDir():
			out[rel] = "/"
		case i.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			out[rel] = "->" + t
		default:
			b, _ := os.ReadFile(p)
			out[rel] = "=" + string(b)
		}
		return nil
	})
	return out
}

// generateAs runs the generator with the given arguments; files > 0 limits the
// descriptors it may have open.
func (ctx *Ctx) generateAs(cwd string, files int, lowly bool, args ...string) error {
	c, cancel := context.WithTimeout(context.Background(), 200*time.Second)
	defer cancel()
	// a generator that takes the full device for a template must not take all memory
	lim := "ulimit -v 6000000 && exec \"$@\""
	if files > 0 {
		lim = "ulimit -n " + strconv.Itoa(files) + " && " + lim
	}
	cmd := exec.CommandContext(c, "/bin/sh", append([]string{"-c", lim, "sh", ctx.Bin["gen"]}, args...)...)
	cmd.Dir = cwd
	if lowly {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
	}
	out, err := cmd.CombinedOutput()
	if c.Err() != nil {
		return fmt.Errorf("it did not end: %s", tail(string(out), 500))
	}
	if err != nil && strings.Contains(string(out), "goroutine ") {
		return fmt.Errorf("%v: %s", err, tail(string(out), 1500))
	}
	return nil // a status is its to choose when there is trouble to report
}

func runG04(ctx *Ctx) {
	ds := supported()
	base := newR(mix(ctx.Seed, 190))
	for i := 0; i < 30; i++ {
		ds = append(ds, base.unsupported())
	}
	exp, v := ctx.learn(ds)
	if v != nil {
		ctx.report(v)
		return
	}
	ctx.lowly = ctx.openUp()
	runs := ctx.n(1200, 30000)
	ctx.sharded(191, func(shard int, r *R, cov *Cov, _ func(*Viol)) {
		for n := 0; n < runs/nShards && !ctx.stop.Load(); n++ {
			var v *Viol
			if r.p(0.25) {
				v = ctx.badInvocation(r, ds, exp, cov)
			} else {
				v = ctx.faultRun(r, ds, exp, cov)
			}
			if v != nil {
				ctx.report(v)
				return
			}
		}
	})
}

func must(err error) {
	if err != nil {
		fmt.Println("cannot prepare the scratch directory:", err)
		os.Exit(2)
	}
}

var readFaults = []string{"a link to a directory", "a link to nothing", "a link to itself", "a link to a directory of templates", "a file with no permissions", "a link to a file with no permissions"}
var writeFaults = []string{"a directory", "a directory with files in it", "a link into a missing directory", "a link to itself", "a link to a full device", "a file not to be written", "a link to a file not to be written"}

// nobody is whom the generator is run as where permissions are to bind it.
const nobody = 65534

// openUp lets nobody reach the generator and its directories; false if it cannot be run so.
func (ctx *Ctx) openUp() bool {
	for _, p := range []string{ctx.Scratch, ctx.Bin["gen"]} {
		for d := p; len(d) > 1; d = filepath.Dir(d) {
			if i, err := os.Stat(d); err == nil && i.Mode().Perm()&0o055 != 0o055 && os.Chmod(d, i.Mode().Perm()|0o055) != nil {
				return false
			}
			if d == os.TempDir() {
				break
			}
		}
	}
	cmd := exec.Command("/bin/sh", "-c", "test -x \"$1\" && cd \"$2\"", "sh", ctx.Bin["gen"], ctx.Scratch)
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
	return os.Geteuid() == 0 && cmd.Run() == nil
}

// giveTo makes nobody the owner of all there is in dir.
func giveTo(dir string) {
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		must(err)
		must(os.Lchown(p, nobody, nobody))
		return nil
	})
}

func (ctx *Ctx) faultRun(r *R, ds []string, exp map[string]string, cov *Cov) *Viol {
	dir := ctx.newDir()
	defer os.RemoveAll(dir)
	fs := r.bystanders()
	fs["folder/_t.go"] = []byte("//generator:complex Buffer Read U 32 LE\n")
	fs["folder/t.generated.go"] = []byte("kept\n")
	writeTree(dir, fs)
	few := 1 + r.Intn(6)
	limit := 0
	if r.p(0.12) { // many templates, few descriptors
		few, limit = 100+r.Intn(60), 64
	}
	ts := map[string]genTemplate{}
	stems := []string{"a", "b", "m", "z", "buffer", "x_", "0", "go", "A b"}
	name := func(i int) string {
		return fmt.Sprintf("_%s%d.go", stems[r.Intn(len(stems))], i)
	}
	for i := 0; i < few; i++ {
		var t genTemplate
		if limit > 0 {
			d := ds[r.Intn(len(ds))]
			t = genTemplate{"package x\n" + d + "\n", "package x\n" + exp[d] + "\n", 1}
		} else {
			t = r.makeTemplate(ds, exp)
		}
		n := name(i)
		ts[n] = t
		must(os.WriteFile(filepath.Join(dir, n), []byte(t.text), 0o644))
		if r.p(0.4) {
			must(os.WriteFile(filepath.Join(dir, outName(n)), []byte(strings.Repeat("stale\n", r.Intn(4000))), 0o644))
		}
	}
	// the faults
	skip := map[string]bool{}     // outputs that cannot be written
	faulty := map[string]string{} // templates with trouble, and of what kind
	nf := 1 + r.Intn(5)
	lowly := ctx.lowly && r.p(0.3)
	if limit > 0 && r.p(0.5) {
		nf = 80
	}
	for i := 0; i < nf; i++ {
		n := name(1000 + i)
		p, o := filepath.Join(dir, n), filepath.Join(dir, outName(n))
		if r.p(0.5) {
			k := r.Intn(4)
			if lowly && r.p(0.7) {
				k = 4 + r.Intn(2)
			}
			switch k {
			case 4:
				must(os.WriteFile(p, []byte(ds[0]+"\n"), 0))
			case 5:
				must(os.WriteFile(p+".secret", []byte(ds[0]+"\n"), 0))
				must(os.Symlink(n+".secret", p))
			default:
				must(os.Symlink([]string{".", "missing", n, "folder"}[k], p))
			}
			faulty[n] = "template is " + readFaults[k]
			if r.p(0.6) {
				must(os.WriteFile(o, []byte("the output of an earlier run\n"+strings.Repeat("x", r.Intn(200))), 0o644))
			}
			continue
		}
		t := r.makeTemplate(ds, exp)
		must(os.WriteFile(p, []byte(t.text), 0o644))
		skip[outName(n)] = true
		k := r.Intn(5)
		if lowly && r.p(0.7) {
			k = 5 + r.Intn(2)
		}
		faulty[n] = "output is " + writeFaults[k]
		switch k {
		case 0:
			must(os.Mkdir(o, 0o755))
		case 1:
			must(os.Mkdir(o, 0o755))
			must(os.WriteFile(filepath.Join(o, "kept.go"), []byte("kept\n"), 0o644))
			must(os.WriteFile(filepath.Join(o, "_kept.go"), []byte(ds[0]+"\n"), 0o644))
		case 2:
			must(os.Symlink("missing/"+outName(n), o))
		case 3:
			must(os.Symlink(outName(n), o))
		case 4:
			must(os.Symlink("/dev/full", o))
		case 5:
			must(os.WriteFile(o, []byte("kept\n"), 0o444))
		case 6:
			must(os.WriteFile(o+".kept", []byte("kept\n"), 0o444))
			must(os.Symlink(outName(n)+".kept", o))
		}
	}
	before := snapshot(dir)
	if lowly {
		giveTo(dir)
		cov.count("runs as an unprivileged user", 1)
	}
	for pass := 0; pass < 1+r.Intn(2); pass++ {
		arg, cwd := dir, ctx.Scratch
		if r.p(0.5) {
			arg, cwd = ".", dir
		}
		if err := ctx.generateAs(cwd, limit, lowly, "-directory", arg, "-generation", "complex"); err != nil {
			return &Viol{Text: fmt.Sprintf("the generator broke down over a directory where one %s: %v", faulty[sortedKeys(faulty)[0]], err), Kind: "gen"}
		}
		if v := judgeFaults(dir, before, ts, skip, faulty, limit, cov); v != nil {
			return v
		}
	}
	// the faults are repaired; everything must come out now
	if r.p(0.5) {
		for _, n := range sortedKeys(faulty) {
			p, o := filepath.Join(dir, n), filepath.Join(dir, outName(n))
			if skip[outName(n)] {
				must(os.RemoveAll(o))
				b, err := os.ReadFile(p)
				must(err)
				delete(skip, outName(n))
				for k := range before {
					if strings.HasPrefix(k, outName(n)+"/") {
						delete(before, k)
					}
				}
				want := magic(string(b), exp)
				ts[n] = genTemplate{string(b), want, 1}
			} else {
				must(os.Remove(p))
				t := r.makeTemplate(ds, exp)
				must(os.WriteFile(p, []byte(t.text), 0o644))
				ts[n] = t
				before[n] = "=" + t.text
			}
		}
		if lowly {
			giveTo(dir)
		}
		if err := ctx.generateAs(dir, limit, lowly, "-generation", "complex"); err != nil {
			return &Viol{Text: "the generator broke down after the faults were repaired: " + err.Error(), Kind: "gen"}
		}
		if v := judgeFaults(dir, before, ts, skip, nil, limit, cov); v != nil {
			return v
		}
	}
	return nil
}

// magic replaces the directive lines of a template.
func magic(t string, exp map[string]string) string {
	ls := strings.Split(t, "\n")
	for i, l := range ls {
		if e, ok := exp[l]; ok {
			ls[i] = e
		}
	}
	return strings.Join(ls, "\n")
}

func judgeFaults(dir string, before map[string]string, ts map[string]genTemplate, skip map[string]bool, faulty map[string]string, limit int, cov *Cov) *Viol {
	about := fmt.Sprintf("(%d templates", len(ts)+len(faulty))
	for i, n := range sortedKeys(faulty) {
		if i < 4 {
			about += fmt.Sprintf("; of %s, the %s", n, faulty[n])
		}
	}
	if limit > 0 {
		about += fmt.Sprintf("; %d descriptors allowed", limit)
	}
	about += ")"
	got := snapshot(dir)
	for _, n := range sortedKeys(ts) {
		t := ts[n]
		out, ok := got[outName(n)]
		if !ok {
			return &Viol{Text: "no output was written for the healthy template " + n + " " + about, Kind: "gen"}
		}
		if out != "="+t.want {
			return &Viol{Text: fmt.Sprintf("the output of the healthy template %s is wrong: %d bytes, should be %d %s\ntemplate:\n%s\noutput:\n%s", n, len(out)-1, len(t.want), about, tail(t.text, 1000), tail(out, 1000)), Kind: "gen"}
		}
		cov.count("outputs of healthy templates", 1)
	}
	for n, was := range before {
		if skip[n] || isOut(ts, n) {
			continue
		}
		now, ok := got[n]
		if !ok {
			return &Viol{Text: "the generator removed " + n + " " + about, Kind: "gen"}
		}
		if now != was {
			return &Viol{Text: fmt.Sprintf("the generator changed %s from %q to %q %s", n, tail(was, 300), tail(now, 300), about), Kind: "gen"}
		}
		cov.count("other files compared with before", 1)
	}
	for n := range got {
		if _, ok := before[n]; !ok && !skip[n] && !isOut(ts, n) && got[n] != "/" {
			if d := filepath.Dir(n); d != "." && skip[d] {
				continue
			}
			return &Viol{Text: fmt.Sprintf("the generator wrote %s, which is no output of a readable template %s", n, about), Kind: "gen"}
		}
	}
	for n, f := range faulty {
		cov.hit(hashStr(hashStr(hash0, n), about), true)
		cov.count("with a fault: "+f, 1)
	}
	if len(faulty) > 0 && len(cov.samples) < 1 {
		cov.samples = append(cov.samples, "the other outputs came out and nothing else was touched "+about)
	}
	if limit > 0 {
		cov.count("runs with few descriptors", 1)
	}
	return nil
}

func isOut(ts map[string]genTemplate, n string) bool {
	if !strings.HasSuffix(n, ".generated.go") {
		return false
	}
	_, ok := ts["_"+strings.TrimSuffix(n, ".generated.go")+".go"]
	return ok
}

// badInvocation names no mode, a mode that does not exist or something that is
// no directory; nothing may change anywhere.
func (ctx *Ctx) badInvocation(r *R, ds []string, exp map[string]string, cov *Cov) *Viol {
	dir := ctx.newDir()
	defer os.RemoveAll(dir)
	fs := r.bystanders()
	for i := 0; i < 1+r.Intn(3); i++ {
		n := fmt.Sprintf("_%c.go", 'a'+i)
		t := r.makeTemplate(ds, exp)
		fs[n] = []byte(t.text)
		if r.p(0.6) {
			fs[outName(n)] = []byte("the output of an earlier run\n")
		}
	}
	fs["target/_c.go"] = []byte(ds[0] + "\n")
	writeTree(dir, fs)
	must(os.Symlink("nowhere", filepath.Join(dir, "dangling")))
	must(os.Symlink("_a.go", filepath.Join(dir, "tofile")))
	modes := []string{"", "Complex", "COMPLEX", "complex ", " complex", "comple", "complexx", "simple", "complex,complex", "none", "0"}
	dirs := []string{"missing", "_a.go", "dangling", "tofile", "missing/deeper", "_a.go/x", "target/missing"}
	var args []string
	what := ""
	if r.p(0.5) {
		m := modes[r.Intn(len(modes))]
		what = fmt.Sprintf("mode %q", m)
		d := []string{"", ".", dir, "target"}[r.Intn(4)]
		if d != "" {
			args = append(args, "-directory", d)
		}
		if m != "" || r.p(0.5) {
			args = append(args, "-generation", m)
		}
	} else {
		d := dirs[r.Intn(len(dirs))]
		what = fmt.Sprintf("directory %q", d)
		if r.p(0.3) {
			d = filepath.Join(dir, d)
		}
		args = append(args, "-directory", d, "-generation", "complex")
	}
	before := snapshot(dir)
	if err := ctx.generateAs(dir, 0, false, args...); err != nil {
		return &Viol{Text: fmt.Sprintf("the generator broke down when given %s: %v", what, err), Kind: "gen"}
	}
	got := snapshot(dir)
	for n, was := range before {
		if got[n] != was {
			return &Viol{Text: fmt.Sprintf("given %s, the generator changed %s from %q to %q", what, n, tail(was, 300), tail(got[n], 300)), Kind: "gen"}
		}
	}
	for n := range got {
		if _, ok := before[n]; !ok {
			return &Viol{Text: fmt.Sprintf("given %s, the generator made %s", what, n), Kind: "gen"}
		}
	}
	cov.hit(hashStr(hashStr(hash0, what), strings.Join(args, " ")), true)
	cov.count("invocations refused", 1)
	return nil
}
