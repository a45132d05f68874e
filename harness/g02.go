package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

// ---- running the generator on scratch directories ----

// fileSet is a directory tree: relative path to content; a nil content is a
// directory.
type fileSet map[string][]byte

// dirNames are what directories may be called; * becomes a number.
var dirNames = []string{"gen-", "gen-", "gen [old]-", "gen *?-*", "_gen-*.go", ".gen-", "gen-%s%d-", "g\u00e9n\u65e5-", "{a,b}\\-", "gen-*.generated.go", "$HOME;&'\"-", "gen-*.", "~-", "-", "a=b, c-"}
var dirNo atomic.Int64

func (ctx *Ctx) newDir() string {
	d, err := os.MkdirTemp(ctx.Scratch, dirNames[int(dirNo.Add(1))%len(dirNames)])
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	return d
}

func writeTree(dir string, fs fileSet) {
	for n, c := range fs {
		p := filepath.Join(dir, n)
		if c == nil {
			os.MkdirAll(p, 0o755)
			continue
		}
		os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, c, 0o644); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
	}
}

func readTree(dir string) fileSet {
	out := fileSet{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		rel, _ := filepath.Rel(dir, p)
		if err != nil || rel == "." {
			return nil
		}
		if i.IsDir() {
			out[rel] = nil
			return nil
		}
		b, _ := os.ReadFile(p)
		if b == nil {
			b = []byte{}
		}
		out[rel] = b
		return nil
	})
	return out
}

// generate runs the generator; how selects the way the directory is named.
func (ctx *Ctx) generate(dir string, how int) error {
	arg, cwd := dir, ctx.Scratch
	switch how % 4 {
	case 1:
		arg, cwd = ".", dir
	case 2:
		arg, cwd = filepath.Base(dir), filepath.Dir(dir)
	case 3:
		arg = dir + "/"
	}
	switch how {
	case 8:
		arg = dir + "/../" + filepath.Base(dir) + "/."
	case 9, 10: // through a link
		arg = dir + ".link"
		must(os.Symlink(dir, arg))
		defer os.Remove(arg)
		if how == 10 {
			arg += "/"
		}
	}
	args := []string{"-directory", arg, "-generation", "complex"}
	if how%4 == 1 && how%8 > 4 {
		args = args[2:] // the default directory is the current one
	}
	c, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	cmd := exec.CommandContext(c, ctx.Bin["gen"], args...)
	cmd.Dir = cwd
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("%v: %s", err, tail(string(out), 500))
	}
	return nil
}

func outName(tmpl string) string {
	return strings.TrimSuffix(strings.TrimPrefix(tmpl, "_"), ".go") + ".generated.go"
}

// ---- directives ----

func supported() (out []string) {
	for _, r := range []string{"Buffer", "MiniBuffer"} {
		for _, d := range []string{"Read", "Write"} {
			for _, y := range []string{"U 16", "U 32", "U 64", "I 16", "I 32", "I 64", "F 32", "F 64"} {
				for _, e := range []string{"LE", "BE"} {
					out = append(out, "//generator:complex "+r+" "+d+" "+y+" "+e)
				}
			}
		}
	}
	return
}

// unsupported directives: every argument replaced by something the generator
// does not support, and floats of 16 bits.
func (r *R) unsupported() string {
	a := strings.Fields(supported()[r.Intn(64)])[1:]
	bad := [][]string{
		{"Bufer", "buffer", "BUFFER", "MiniBuf", "miniBuffer", "Buffers", "ByteBuffer", "B", "Buffer_"},
		{"read", "write", "Reads", "ReadNext", "Copy", "WRITE", "R", "Write_"},
		{"S", "u", "i", "f", "UI", "Float", "C", "B", "I_"},
		{"8", "1", "0", "24", "128", "160", "016", "6", "640", "3", "2", "33", "00000", "99999999999999999999"},
		{"be", "le", "B", "LEBE", "Big", "NE", "ME", "E"},
	}
	if r.p(0.15) {
		a[2], a[3] = "F", "16"
	} else {
		k := r.Intn(5)
		a[k] = bad[k][r.Intn(len(bad[k]))]
		if r.p(0.2) {
			k = r.Intn(5)
			a[k] = bad[k][r.Intn(len(bad[k]))]
		}
	}
	return "//generator:complex " + strings.Join(a, " ")
}

// learn finds what each directive expands to, used alone in a template.
func (ctx *Ctx) learn(ds []string) (map[string]string, *Viol) {
	out := map[string]string{}
	fs := fileSet{}
	for i, d := range ds {
		fs[fmt.Sprintf("_t%d.go", i)] = []byte(fmt.Sprintf("// begin %d\n%s\n// end %d\n", i, d, i))
	}
	dir := ctx.newDir()
	defer os.RemoveAll(dir)
	writeTree(dir, fs)
	if err := ctx.generate(dir, 0); err != nil {
		return nil, &Viol{Text: "the generator failed: " + err.Error(), Kind: "gen"}
	}
	got := readTree(dir)
	for i, d := range ds {
		b, ok := got[fmt.Sprintf("t%d.generated.go", i)]
		pre, post := fmt.Sprintf("// begin %d\n", i), fmt.Sprintf("\n// end %d\n", i)
		s := string(b)
		if !ok || !strings.HasPrefix(s, pre) || !strings.HasSuffix(s, post) || len(s) < len(pre)+len(post) {
			return nil, &Viol{Text: fmt.Sprintf("the text around %q did not survive: %q", d, s), Kind: "gen"}
		}
		out[d] = s[len(pre) : len(s)-len(post)]
	}
	return out, nil
}

// commentOnly reports whether text contains no code.
func commentOnly(s string) bool {
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if l != "" && !strings.HasPrefix(l, "//") {
			return false
		}
	}
	return true
}

// handText makes text that is not a directive and must survive.
func (r *R) handText() string {
	pool := []string{
		"func hand@(b []byte) int { return len(b) + @ }\n",
		"// a comment mentioning generator:complex Buffer Write U 16 LE, @ @\n",
		"\n\n\t\n",
		"var s@ = `raw\n text @\n`\n",
		"/* block @\n   @ */\n",
		"const c@ = \"//generator:complex\" // @\n",
		"\tindented@()   \t@  \n",
		"// caf\u00e9 \u4e16\u754c \xff\xfe\x00 @ @\n",
		"windows@ line @\r\nends\r\n",
		"$0 ${1} $1 \\1 % $name @ @\n",
		"}{)(;;'\"` @ @\n",
		"x@" + strings.Repeat("y", 1+r.Intn(3000)) + "@\n",
	}
	var b strings.Builder
	for k := r.Intn(4); k >= 0; k-- {
		b.WriteString(strings.ReplaceAll(pool[r.Intn(len(pool))], "@", fmt.Sprint(r.Intn(1000))))
	}
	return b.String()
}

// longText makes up to a few hundred KiB of text, in lines of various length.
func (r *R) longText() string {
	n := []int{4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 131073, 300000}[r.Intn(10)]
	l := []int{1, 30, 80, 1000, 70000}[r.Intn(5)]
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghij klmnop_/()"[(i*7+i/l)%21]
		if i%(l+1) == l {
			b[i] = '\n'
		}
	}
	b[0], b[n-1] = 'x', '\n'
	return string(b)
}

type genTemplate struct {
	text string
	want string
	uses int
}

// makeTemplate puts hand-written text and directives together.
func (r *R) makeTemplate(ds []string, exp map[string]string) genTemplate {
	var t, w strings.Builder
	uses := 0
	if r.p(0.3) { // how a file begins
		s := []string{"\ufeff\n", "\ufeffpackage x\n", "\n\n\n", "  \n", "\x00\n", "\r\n", "\t\n", "//go:build !x\n\npackage x\n", "#!/usr/bin/env go\n",
			"// Code generated by hand; DO NOT EDIT.\n", "\xff\xfe\n", "package x // import \"y\"\n", "\f\v\n", "// +build x\n\n\n"}[r.Intn(14)]
		t.WriteString(s)
		w.WriteString(s)
	}
	if r.p(0.7) {
		s := r.handText()
		t.WriteString(s)
		w.WriteString(s)
	}
	n := r.Intn(12)
	if r.p(0.05) {
		n = 80
	}
	big := -1 // where to put a lot of text
	if r.p(0.08) {
		big = r.Intn(n + 1)
		if n == 0 {
			s := r.longText()
			t.WriteString(s)
			w.WriteString(s)
		}
	}
	for i := 0; i < n; i++ {
		d := ds[r.Intn(len(ds))]
		t.WriteString(d)
		w.WriteString(exp[d])
		uses++
		if i == n-1 && r.p(0.4) {
			break // the last line has no end
		}
		t.WriteString("\n")
		w.WriteString("\n")
		if r.p(0.6) || i == big {
			s := r.handText()
			if i == big {
				s += r.longText()
			}
			if r.p(0.2) && i == n-1 {
				s = strings.TrimRight(s, "\n")
			}
			t.WriteString(s)
			w.WriteString(s)
		}
	}
	if strings.HasSuffix(t.String(), "\n") && r.p(0.3) { // how it ends
		s := []string{"\n\n\n\n", " ", "\t", "\x1a", "\ufeff", "\r", "\r\n", "\x00", "// last", "\xc3", "}\n\n", "  \n"}[r.Intn(12)]
		t.WriteString(s)
		w.WriteString(s)
	}
	return genTemplate{t.String(), w.String(), uses}
}

// scenario of files around the templates that must not matter and must not be touched
func (r *R) bystanders() fileSet {
	all := fileSet{
		"plain.go":                []byte("package x\n//generator:complex Buffer Write U 16 LE\n"),
		"z_test.go":               []byte("package x\n"),
		"notes_.go":               []byte("//generator:complex Buffer Read U 16 LE\n"),
		"_notes.txt":              []byte("//generator:complex Buffer Read U 16 LE\n"),
		"_backup.go.orig":         []byte("//generator:complex Buffer Read U 16 LE\n"),
		"_go":                     []byte("//generator:complex Buffer Read U 16 LE\n"),
		"other.generated.go":      []byte("package old\n// hand kept\n"),
		"sub/_inner.go":           []byte("//generator:complex Buffer Read U 32 LE\n"),
		"sub/inner.generated.go":  []byte("stale\n"),
		"_dir.go":                 nil,
		"_dir.go/_deep.go":        []byte("//generator:complex Buffer Read U 32 LE\n"),
		"README":                  []byte("text\n"),
		"lib.go":                  []byte("package x // \xff\n"),
		"_x.go~":                  []byte("//generator:complex Buffer Read U 16 LE\n"),
		"a.generated.go.bak":      []byte("keep\n"),
		"generated.go":            []byte("keep\n"),
		"_.golang":                []byte("//generator:complex Buffer Read U 16 LE\n"),
		"x.GO":                    []byte("keep\n"),
		"_up.GO":                  []byte("//generator:complex Buffer Read U 16 LE\n"),
		"_mixed.Go":               []byte("//generator:complex Buffer Read U 16 LE\n"),
		"_spaced.go ":             []byte("//generator:complex Buffer Read U 16 LE\n"),
		" _early.go":              []byte("package x\n//generator:complex Buffer Read U 16 LE\n"),
		"._hidden.go":             []byte("package x\n//generator:complex Buffer Read U 16 LE\n"),
		"\uff3fwide.go":           []byte("package x\n//generator:complex Buffer Read U 16 LE\n"),
		"_x.generated":            []byte("//generator:complex Buffer Read U 16 LE\n"),
		"_q.gotmpl":               []byte("//generator:complex Buffer Read U 16 LE\n"),
		"_empty.go.d":             nil,
		"unrelated.generated.txt": []byte("keep\n"),
	}
	out := fileSet{}
	var names []string
	for n := range all {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if r.p(0.5) {
			out[n] = all[n]
		}
	}
	if out["_dir.go/_deep.go"] != nil {
		out["_dir.go"] = nil
	}
	return out
}

func init() {
	props["G02"] = &Prop{Rule: "one generator run on a scratch directory: every output compared with the template's text with each directive replaced by what it expands to alone, every other file compared with before",
		Assume: []string{"a directive's expansion is learnt from a template that contains only it; G03 judges the expansion itself"},
		Run:    func(ctx *Ctx) { ctx.generatorRuns(160, ctx.n(1500, 40000), true) }, Child: childModes}
	props["G03"] = &Prop{Rule: "one operation of the expanded methods against the contract, or one directive's expansion compared with its other uses; unsupported directives must leave comments only",
		Fn: plain(judgeAll), Run: runG03, Child: childModes}
}

// generatorRuns runs the generator over random directories.
func (ctx *Ctx) generatorRuns(salt uint64, runs int, whole bool) {
	base := newR(mix(ctx.Seed, salt))
	ds := supported()
	for i := 0; i < 150; i++ {
		ds = append(ds, base.unsupported())
	}
	exp, v := ctx.learn(ds)
	if v != nil {
		ctx.report(v)
		return
	}
	// bias towards few, repeated directives
	ctx.sharded(salt+1, func(shard int, r *R, cov *Cov, _ func(*Viol)) {
		for n := 0; n < runs/nShards && !ctx.stop.Load(); n++ {
			if v := ctx.oneRun(r, ds, exp, whole, cov); v != nil {
				ctx.report(v)
				return
			}
		}
	})
	if v := ctx.largeRun(newR(mix(ctx.Seed, salt+2)), ds, exp); v != nil && !ctx.stop.Load() {
		ctx.report(v)
	}
}

// largeRun is one run on a directory with very many files, among them templates with
// thousands of directives and of many megabytes.
func (ctx *Ctx) largeRun(r *R, ds []string, exp map[string]string) *Viol {
	if ctx.stop.Load() {
		return nil
	}
	cov := newCov()
	defer ctx.merge(cov)
	dir := ctx.newDir()
	defer os.RemoveAll(dir)
	fs, ts := fileSet{}, map[string]genTemplate{}
	for i := 0; i < ctx.n(20000, 150000); i++ { // what is not a template
		fs[fmt.Sprintf([]string{"n%d.go", "_n%d.txt", "n%d", "n%d.GO", "n%d_.go"}[i%5], r.Int63n(1<<40))] = []byte("x\n")
	}
	for i := 0; i < ctx.n(1500, 5000); i++ {
		d := ds[r.Intn(len(ds))]
		ts[fmt.Sprintf("_t%d.go", r.Int63n(1<<40))] = genTemplate{fmt.Sprintf("// %d\n%s\n", i, d), fmt.Sprintf("// %d\n%s\n", i, exp[d]), 1}
	}
	many := func(name string, uses int, text string) {
		var t, w strings.Builder
		for i := 0; i < uses; i++ {
			d := ds[r.Intn(len(ds))]
			if i == uses/2 {
				t.WriteString(text)
				w.WriteString(text)
			}
			fmt.Fprintf(&t, "// %d\n%s\n", i, d)
			fmt.Fprintf(&w, "// %d\n%s\n", i, exp[d])
		}
		ts[name] = genTemplate{t.String(), w.String(), uses}
	}
	var long strings.Builder
	for long.Len() < 17<<20 {
		fmt.Fprintf(&long, "var v%d = %d // a line of hand-written text\n", long.Len(), r.Intn(1000))
	}
	many("_directives.go", ctx.n(5000, 70000), "")
	many("_text.go", 300, long.String())
	many("_line.go", 30, "// "+strings.Repeat("long ", 1<<20)+"\n")
	for n, t := range ts {
		fs[n] = []byte(t.text)
	}
	writeTree(dir, fs)
	if err := ctx.generate(dir, 0); err != nil {
		return &Viol{Text: fmt.Sprintf("the generator failed on a directory of %d files: %v", len(fs), err), Kind: "gen"}
	}
	got := readTree(dir)
	for _, n := range sortedKeys(ts) {
		out, ok := got[outName(n)]
		if !ok {
			return &Viol{Text: fmt.Sprintf("no output was written for template %s, one of %d among %d files", n, len(ts), len(fs)), Kind: "gen"}
		}
		if w := ts[n].want; string(out) != w {
			i := mismatch(out, []byte(w))
			if i < 0 {
				i = min(len(out), len(w))
			}
			lo := max(0, i-60)
			return &Viol{Text: fmt.Sprintf("the output for template %s (%d bytes, %d directives, %d files in the directory) is not its text with the directives replaced: %d bytes, should be %d; from byte %d: %q, should be %q",
				n, len(ts[n].text), ts[n].uses, len(fs), len(out), len(w), lo, cut(out, lo, i+60), cut([]byte(w), lo, i+60)), Kind: "gen"}
		}
		cov.hit(hashStr(hash0, ts[n].text), true)
		cov.count("outputs compared in a large directory", 1)
		delete(got, outName(n))
	}
	if len(got) != len(fs) {
		return &Viol{Text: fmt.Sprintf("the run on a directory of %d files left %d besides the outputs", len(fs), len(got)), Kind: "gen"}
	}
	for n, c := range fs {
		if !bytes.Equal(c, got[n]) {
			return &Viol{Text: "the generator changed " + n, Kind: "gen"}
		}
	}
	return nil
}

func (ctx *Ctx) oneRun(r *R, ds []string, exp map[string]string, whole bool, cov *Cov) *Viol {
	pool := ds
	if r.p(0.4) {
		pool = nil
		for i := 0; i < 1+r.Intn(4); i++ {
			pool = append(pool, ds[r.Intn(len(ds))])
		}
	}
	names := []string{"_a.go", "_b.go", "_buffer.go", "_minibuf.go", "_", "_x.y.go", "_go.go", "_A b.go", "_\u00fcber.go", "_g.go", "_test.go", "_a_test.go", "_generated.go", "_o_o.go", "_-.go", "_ggo.go", "_a.gogo.go", "_x.go.go", "_a_.go", "_c.generated.go", "_.hidden.go", "_n.generated_.go", "_.go", "_ .go", "_%s%d.go", "_[a-z]*.go", "_..go", "_-directory.go", "_0.go", "_T.GO.go", "_" + strings.Repeat("m", 230) + ".go", "_" + strings.Repeat("long", 40) + ".go"}
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	ts := map[string]genTemplate{}
	for i := 0; i < 1+r.Intn(4); i++ {
		if names[i] != "_" { // "_" is no .go file
			ts[names[i]] = r.makeTemplate(pool, exp)
		}
	}
	fs := r.bystanders()
	stale, linked := "", ""
	for n, t := range ts {
		fs[n] = []byte(t.text)
		switch r.Intn(4) {
		case 0:
			fs[outName(n)] = []byte(strings.Repeat("stale and longer than what comes\n", len(t.want)/20+3))
			stale = " over longer stale output"
		case 1:
			fs[outName(n)] = []byte(t.want[:len(t.want)/2])
		case 2:
			if r.p(0.3) {
				fs[outName(n)] = []byte{}
			}
		}
	}
	dir := ctx.newDir()
	defer os.RemoveAll(dir)
	writeTree(dir, fs)
	if r.p(0.08) { // a template kept elsewhere and linked to
		n := sortedKeys(ts)
		if len(n) > 0 {
			kept := "kept." + n[0] + ".txt"
			fs[kept] = fs[n[0]]
			delete(fs, n[0])
			must(os.Rename(filepath.Join(dir, n[0]), filepath.Join(dir, kept)))
			must(os.Symlink(kept, filepath.Join(dir, n[0])))
			fs[n[0]] = fs[kept]
			linked = n[0]
			cov2(cov, "linked templates")
		}
	}
	how := r.Intn(11)
	for pass := 0; pass < 1+r.Intn(3); pass++ {
		if pass == 1 && r.p(0.5) { // what else is there changes between runs
			for n, c := range r.bystanders() {
				if _, ok := fs[n]; !ok {
					if _, dirThere := fs[filepath.Dir(n)]; filepath.Dir(n) == "." || dirThere || strings.HasPrefix(n, "sub/") {
						fs[n] = c
						writeTree(dir, fileSet{n: c})
					}
				}
			}
		}
		if pass > 0 && r.p(0.3) { // and so does a template
			for _, n := range sortedKeys(ts) {
				ts[n] = r.makeTemplate(pool, exp)
				fs[n] = []byte(ts[n].text)
				writeTree(dir, fileSet{n: fs[n]})
				if n == linked {
					fs["kept."+n+".txt"] = fs[n]
				}
				break
			}
		}
		if err := ctx.generate(dir, how); err != nil {
			return &Viol{Text: "the generator failed: " + err.Error(), Kind: "gen"}
		}
		got := readTree(dir)
		for _, n := range sortedKeys(ts) {
			t := ts[n]
			out, ok := got[outName(n)]
			if !ok {
				return &Viol{Text: "no output was written for template " + n, Kind: "gen"}
			}
			if string(out) != t.want {
				i := mismatch(out, []byte(t.want))
				if i < 0 {
					i = min(len(out), len(t.want))
				}
				lo := max(0, i-60)
				return &Viol{Text: fmt.Sprintf("the output for template %s (run %d%s) is not its text with the directives replaced: %d bytes, should be %d; from byte %d: %q, should be %q\ntemplate:\n%s", n, pass+1, stale, len(out), len(t.want), lo,
					cut(out, lo, i+60), cut([]byte(t.want), lo, i+60), tail(t.text, 1500)), Kind: "gen"}
			}
			if cov != nil {
				cov.hit(hashStr(hash0, t.text), t.uses > 0)
				cov.count("outputs compared", 1)
				cov.count("directive uses", int64(t.uses))
				if pass > 0 {
					cov.count("outputs of repeated runs", 1)
				}
				if len(cov.samples) < 1 && t.uses > 1 {
					cov.samples = append(cov.samples, fmt.Sprintf("template %s with %d directives among %d files%s: output as expected, other files untouched", n, t.uses, len(fs), stale))
				}
			}
		}
		if whole {
			for n, c := range got {
				if _, isOut := outs(ts)[n]; isOut {
					continue
				}
				before, ok := fs[n]
				isDir := c == nil
				if !ok && !isDir {
					return &Viol{Text: "the generator wrote " + n + ", which is no output of a template here", Kind: "gen"}
				}
				if ok && !bytes.Equal(before, c) {
					return &Viol{Text: "the generator changed " + n, Kind: "gen"}
				}
				if cov != nil {
					cov.count("other files compared with before", 1)
				}
			}
			for n := range fs {
				if _, ok := got[n]; !ok {
					return &Viol{Text: "the generator removed " + n, Kind: "gen"}
				}
			}
		}
	}
	return nil
}

func cov2(cov *Cov, what string) {
	if cov != nil {
		cov.count(what, 1)
	}
}

func outs(ts map[string]genTemplate) map[string]bool {
	m := map[string]bool{}
	for n := range ts {
		m[outName(n)] = true
	}
	return m
}

func cut(b []byte, lo, hi int) string {
	if lo > len(b) {
		return ""
	}
	return string(b[lo:min(hi, len(b))])
}

// judgeAll holds a step against everything the contract says.
func judgeAll(st *Step) (int, string) {
	if st.LockHeld != "" {
		return 0, ""
	}
	if st.Exp.Refuse {
		if !st.Res.Panicked {
			return 2, "an operation that must be refused was carried out"
		}
		if !st.Exp.RefuseAny {
			found := false
			for _, e := range st.Exp.Errs {
				found = found || st.Res.Panic == e
			}
			if !found {
				return 2, fmt.Sprintf("refused with %v instead of the documented error", st.Res.Panic)
			}
		}
	} else if st.Res.Panicked {
		return 2, panicked(st)
	} else if s := badResult(st); s != "" {
		return 2, s
	}
	want := st.Exp.Data
	if st.Exp.Refuse {
		want = st.Pre.Data
	}
	if d := diffData(st.Post.Data, want); d != "" {
		return 2, "contents wrong: " + d
	}
	wo, wb := st.Exp.Off, st.Exp.Boff
	if st.Exp.Refuse {
		wo, wb = st.Pre.Off, st.Pre.Boff
	}
	if st.Post.Off != wo || st.Post.Boff != wb {
		return 2, fmt.Sprintf("cursors at %d/%d, should be at %d/%d", st.Post.Off, st.Post.Boff, wo, wb)
	}
	if st.Res.ArgDamaged != "" || st.Res.OutTail != "" {
		return 2, st.Res.ArgDamaged + st.Res.OutTail
	}
	return 2, ""
}

func runG03(ctx *Ctx) {
	r := newR(mix(ctx.Seed, 170))
	cov := newCov()
	// unsupported directives leave comments only
	var bad []string
	seen := map[string]bool{}
	for len(bad) < ctx.n(400, 2000) {
		d := r.unsupported()
		if !seen[d] {
			seen[d] = true
			bad = append(bad, d)
		} else if r.p(0.001) {
			break
		}
	}
	exp, v := ctx.learn(bad)
	if v != nil {
		ctx.report(v)
		return
	}
	for _, d := range bad {
		if !commentOnly(exp[d]) {
			ctx.report(&Viol{Text: fmt.Sprintf("the unsupported directive %q expands to code:\n%s", d, tail(exp[d], 1500)), Kind: "gen"})
			return
		}
		cov.hit(hashStr(hash0, d), true)
		cov.count("unsupported directives", 1)
	}
	// supported ones expand to something, identically wherever used
	exp, v = ctx.learn(supported())
	if v != nil {
		ctx.report(v)
		return
	}
	for _, d := range supported() {
		if commentOnly(exp[d]) {
			ctx.report(&Viol{Text: fmt.Sprintf("the supported directive %q does not expand to code: %q", d, exp[d]), Kind: "gen"})
			return
		}
		f := strings.Fields(d)
		name := f[2] + f[3] + f[4] + f[5]
		for _, m := range []string{name, name + "Next"} {
			if strings.Count(exp[d], "func (b *"+f[1]+") "+m+"(") != 1 && !definesMethod(exp[d], f[1], m) {
				ctx.report(&Viol{Text: fmt.Sprintf("the directive %q does not define %s.%s once:\n%s", d, f[1], m, tail(exp[d], 1500)), Kind: "gen"})
				return
			}
		}
		cov.hit(hashStr(hash0, d), true)
		cov.count("supported directives", 1)
	}
	ctx.merge(cov)
	ctx.generatorRuns(171, ctx.n(800, 20000), false)
	if ctx.stop.Load() {
		return
	}
	// the expansions of a shuffled set of templates, compiled into this program
	ts := extraTargets
	if len(ts) == 0 {
		fmt.Println("the shuffled expansions are not linked in")
		os.Exit(2)
	}
	fn := plain(judgeAll)(ctx)
	ctx.grid(173, ts, upto(ctx.n(26, 40)), func(t *Target, size int64, r *R) []*Op {
		ops := gridOps(t, size, r, typedKinds, "UIF", false, false)
		ops = append(ops, gridOps(t, size, r, typedKinds, "UIF", false, true)...)
		if size <= 20 {
			ops = append(ops, gridOps(t, size, r, typedKinds, "UIF", true, false)...)
		}
		return ops
	}, fn)
	ctx.longs(174, ts, typedKinds, "UIF", false, fn)
	ctx.longs(175, ts, typedKinds, "UIF", true, fn)
	ctx.grid(176, extraTargets[:1], []int{0, 1, 3, 8, 9, 17, 40}, func(t *Target, size int64, r *R) (ops []*Op) {
		for _, tp := range templates(t) {
			if tp.base.K != KReadT && tp.base.K != KWriteT {
				continue
			}
			for i := 0; i < ctx.n(80, 800); i++ {
				o := r.fill(&tp, size)
				if r.p(0.7) {
					if o.Next {
						ops = append(ops, &Op{K: KSeek, Off: r.wild(size)})
					} else {
						o.Off = r.wild(size)
					}
					if o.isRead() && r.p(0.5) {
						o.N = r.wild(size)
					}
				} else if o.Next {
					ops = append(ops, &Op{K: KSeek, Off: r.near(size)})
				}
				ops = append(ops, o)
			}
		}
		return
	}, fn)
	mx := func(t *Target) Mix {
		m := defaultMix()
		m.Types = "UIF"
		for k := range m.W {
			m.W[k] = 1
		}
		if !t.Mini {
			m.OOR = 0.15
		}
		return m.with(60, typedKinds...).with(8, KSeek, KGrow)
	}
	ctx.histories(177, ts, mx, ctx.hn(300, 8000), 60, fn)
}

// definesMethod looks for the method without relying on how the receiver is spelt.
func definesMethod(code, recv, m string) bool {
	n := 0
	for _, l := range strings.Split(code, "\n") {
		if strings.HasPrefix(l, "func (") && strings.Contains(l, "*"+recv+")") && strings.Contains(l, ") "+m+"(") {
			n++
		}
	}
	return n == 1
}
