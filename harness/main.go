package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

func main() {
	var (
		id      = flag.String("prop", "", "property")
		tier    = flag.String("tier", "quick", "quick or thorough")
		seed    = flag.Uint64("seed", 1, "seed")
		ev      = flag.String("evidence", "", "evidence file")
		rep     = flag.String("replays", "replays", "where violating cases are written")
		repo    = flag.String("repo", "/repo", "repository")
		scratch = flag.String("scratch", "", "scratch directory")
		known   = flag.String("known", "", "known findings file")
		replay  = flag.String("replay", "", "replay file to run instead of the check")
		bin     = flag.String("bin", "", "other build products: name=path,...")
		mode    = flag.String("mode", "", "driver-specific child mode")
		arg     = flag.String("arg", "", "driver-specific child argument")
	)
	flag.Parse()
	ctx := &Ctx{ID: *id, Tier: *tier, Seed: *seed, EvPath: *ev, RepDir: *rep, Repo: *repo, Scratch: *scratch,
		Start: time.Now(), Thorough: *tier == "thorough", Bin: map[string]string{}, extra: map[string]any{}, knownN: map[string]int64{}, knownText: map[string]string{}, Mode: *mode, Arg: *arg}
	for _, kv := range strings.Split(*bin, ",") {
		if k, v, ok := strings.Cut(kv, "="); ok {
			ctx.Bin[k] = v
		}
	}
	ctx.loadKnown(*known)
	loadDict(*repo)
	p := props[*id]
	if p == nil {
		fmt.Println("no such property:", *id)
		os.Exit(2)
	}
	ctx.assume = p.Assume
	if *replay != "" {
		ctx.runReplay(p, *replay)
	}
	if *mode != "" {
		p.Child(ctx)
		os.Exit(0)
	}
	ctx.watchdog()
	p.Run(ctx)
	ctx.finish()
}

// Prop is one property's check.
type Prop struct {
	Rule   string
	Assume []string
	Run    func(*Ctx)
	Fn     func(*Ctx) runFn // how a Case is run and judged, where the property works on cases
	Replay func(*Ctx, *replayFile) *Viol
	Child  func(*Ctx)
}

func exit(c int) { os.Exit(c) }

var props = map[string]*Prop{}

func ruleOf(id string) string { return props[id].Rule }

// loadKnown reads "known: property=ID id=NAME text" lines.
func (ctx *Ctx) loadKnown(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 4 || f[0] != "known:" || f[1] != "property="+ctx.ID || !strings.HasPrefix(f[2], "id=") {
			continue
		}
		ctx.knownText[f[2][3:]] = strings.Join(f[3:], " ")
	}
}

// knownHit reports whether the finding is a recorded one for this property.
func (ctx *Ctx) knownHit(id string) bool {
	if _, ok := ctx.knownText[id]; !ok {
		return false
	}
	ctx.mu.Lock()
	ctx.knownN[id]++
	ctx.mu.Unlock()
	return true
}

// loadDict collects the integer literals of the code under test: sizes and
// thresholds that random operands would not meet by chance.
func loadDict(repo string) {
	seen := map[int64]bool{}
	for _, v := range []string{"v1", "v2", "v3"} {
		files, _ := filepath.Glob(filepath.Join(repo, v, "*.go"))
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") || strings.HasPrefix(filepath.Base(f), "_") {
				continue
			}
			fset := token.NewFileSet()
			tree, err := parser.ParseFile(fset, f, nil, 0)
			if err != nil {
				continue
			}
			ast.Inspect(tree, func(n ast.Node) bool {
				if b, ok := n.(*ast.BinaryExpr); ok {
					if x, ok := constInt(b); ok {
						seen[x] = true
					}
				}
				if l, ok := n.(*ast.BasicLit); ok && (l.Kind == token.INT || l.Kind == token.CHAR) {
					if l.Kind == token.CHAR {
						if r, _, _, err := strconv.UnquoteChar(strings.Trim(l.Value, "'"), '\''); err == nil {
							seen[int64(r)] = true
						}
					} else if x, err := strconv.ParseUint(l.Value, 0, 64); err == nil {
						seen[int64(x)] = true
					}
				}
				return true
			})
		}
	}
	for v := range seen {
		if v > 8 || v < 0 {
			dict = append(dict, v)
		}
	}
	sort.Slice(dict, func(i, j int) bool { return dict[i] < dict[j] })
}

// constInt evaluates an expression made of integer literals.
func constInt(e ast.Expr) (int64, bool) {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return constInt(e.X)
	case *ast.BasicLit:
		if e.Kind == token.INT {
			x, err := strconv.ParseInt(e.Value, 0, 64)
			return x, err == nil
		}
	case *ast.BinaryExpr:
		x, ok1 := constInt(e.X)
		y, ok2 := constInt(e.Y)
		if !ok1 || !ok2 {
			return 0, false
		}
		switch e.Op {
		case token.SHL:
			return x << uint(y&63), y >= 0 && y < 62
		case token.ADD:
			return x + y, true
		case token.SUB:
			return x - y, true
		case token.MUL:
			return x * y, true
		}
	}
	return 0, false
}

func (ctx *Ctx) runReplay(p *Prop, path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	rf := &replayFile{}
	if err := json.Unmarshal(b, rf); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Println("recorded:", rf.Text)
	var v *Viol
	ctx.watchdog()
	if rf.Kind == "case" && rf.Case != nil && p.Fn != nil {
		v = p.Fn(ctx)(0, rf.Case, nil)
	} else if rf.Kind == "memory" {
		v = replayMemory(ctx, rf)
	} else if p.Replay != nil {
		v = p.Replay(ctx, rf)
	} else {
		fmt.Println("this kind of observation is not replayable on its own; run the check with the same seed")
		os.Exit(2)
	}
	if v == nil {
		fmt.Println("replay: not observed on the current tree")
		os.Exit(0)
	}
	fmt.Println("replay:", v.Text)
	fmt.Printf("VIOLATION property=%s replay=%s\n", ctx.ID, path)
	os.Exit(1)
}
