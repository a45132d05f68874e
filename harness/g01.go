package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
)

// exported lists what a package offers: every exported name with its type as
// written, parameter names aside.
func exported(dir string) (map[string]string, error) {
	out := map[string]string{}
	fset := token.NewFileSet()
	show := func(n any) string {
		var b strings.Builder
		printer.Fprint(&b, fset, n)
		return b.String()
	}
	sig := func(t *ast.FuncType) string {
		list := func(l *ast.FieldList) string {
			var p []string
			if l != nil {
				for _, f := range l.List {
					for i := 0; i < max(1, len(f.Names)); i++ {
						p = append(p, show(f.Type))
					}
				}
			}
			return "(" + strings.Join(p, ", ") + ")"
		}
		return "func" + list(t.Params) + list(t.Results)
	}
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range files {
		if b := filepath.Base(f); strings.HasSuffix(b, "_test.go") || b[0] == '_' || b[0] == '.' {
			continue
		}
		tree, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			return nil, err
		}
		for _, d := range tree.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				n := x.Name.Name
				if !ast.IsExported(n) {
					continue
				}
				if x.Recv != nil {
					r := show(x.Recv.List[0].Type)
					if !ast.IsExported(strings.TrimPrefix(r, "*")) {
						continue
					}
					n = "(" + r + ")." + n
				}
				out[n] = sig(x.Type)
			case *ast.GenDecl:
				for _, s := range x.Specs {
					switch y := s.(type) {
					case *ast.TypeSpec:
						if ast.IsExported(y.Name.Name) {
							k := reflect.TypeOf(y.Type).Elem().Name()
							if st, ok := y.Type.(*ast.StructType); ok { // exported fields
								for _, fl := range st.Fields.List {
									for _, nm := range fl.Names {
										if nm.IsExported() {
											k += " " + nm.Name + " " + show(fl.Type)
										}
									}
									if len(fl.Names) == 0 {
										k += " " + show(fl.Type)
									}
								}
							} else if _, ok := y.Type.(*ast.Ident); ok {
								k = show(y.Type)
							}
							out["type "+y.Name.Name] = k
						}
					case *ast.ValueSpec:
						for _, nm := range y.Names {
							if nm.IsExported() {
								out[x.Tok.String()+" "+nm.Name] = show(y.Type)
							}
						}
					}
				}
			}
		}
	}
	return out, nil
}

func init() {
	fn := func(ctx *Ctx) runFn {
		return func(shard int, c *Case, cov *Cov) *Viol {
			var ts []*Target
			for _, id := range c.Targets {
				ts = append(ts, targetByID(id))
			}
			return ctx.runLockstep(shard, c, ts, true, cov)
		}
	}
	props["G01"] = &Prop{Rule: "one operation (refused ones included) executed in lock step on the shipped and the regenerated library: result, contents, sizes, cursors; or one exported name compared",
		Assume: []string{"histories are sampled; positions and counts on small buffers are enumerated"},
		Fn:     fn, Run: runG01, Child: childModes}
}

func runG01(ctx *Ctx) {
	dir := ctx.Bin["regendir"]
	a, err := exported(filepath.Join(ctx.Repo, "v3"))
	b, err2 := exported(dir)
	if err != nil || err2 != nil {
		fmt.Println("cannot read the packages:", err, err2)
		os.Exit(2)
	}
	cov := newCov()
	names := map[string]bool{}
	for n := range a {
		names[n] = true
	}
	for n := range b {
		names[n] = true
	}
	var all []string
	for n := range names {
		all = append(all, n)
	}
	sort.Strings(all)
	for _, n := range all {
		x, ok1 := a[n]
		y, ok2 := b[n]
		if !ok1 || !ok2 || x != y {
			ctx.report(&Viol{Text: fmt.Sprintf("%s is %q in the shipped library (%v) and %q in the regenerated one (%v)", n, x, ok1, y, ok2), Kind: "api"})
		}
		cov.hit(hashStr(hash0, n), true)
		cov.count("exported names compared", 1)
	}
	ctx.merge(cov)
	if ctx.stop.Load() {
		return
	}
	for _, id := range []string{"v3.Buffer", "v3.MiniBuffer"} {
		x, y := targetByID(id), targetByID("regen."+id)
		for m := range x.idx {
			if !y.Has(m) {
				ctx.report(&Viol{Text: "the regenerated " + id + " has no method " + m, Kind: "api"})
				return
			}
		}
	}
	var groups [][]*Target
	for _, t := range extraTargets {
		groups = append(groups, []*Target{targetByID(strings.TrimPrefix(t.ID, "regen.")), t})
	}
	f := props["G01"].Fn(ctx)
	ctx.lockstep(151, groups, 0, ctx.hn(700, 20000), ctx.hn(10, 300), f)
	ctx.lockstep(152, groups[:1], 0.3, ctx.hn(700, 20000), ctx.hn(10, 300), f)
	// systematic positions and counts, and edges of ranges
	pair := func(shard int, c *Case, cov *Cov) *Viol {
		d := *c
		d.Targets = []string{c.Target, "regen." + c.Target}
		return f(shard, &d, cov)
	}
	ts := where(v3only)
	ctx.grid(153, ts, upto(ctx.n(20, 30)), func(t *Target, size int64, r *R) []*Op {
		ops := gridOps(t, size, r, []Kind{KWriteT, KReadT, KWriteBytes, KReadBytes, KWriteByte, KReadByte, KReadBit, KSetBit, KFlipBit}, "UIF", false, false)
		ops = append(ops, gridOps(t, size, r, []Kind{KWriteT, KReadT, KReadBit, KSetBit, KFlipBit}, "UIF", false, true)...)
		if size <= 10 {
			ops = append(ops, gridOps(t, size, r, accessKinds, "UIF", true, false)...)
		}
		if size <= 9 {
			ops = append(ops, gridOps(t, size, r, fieldKinds, "", false, false)...)
		}
		return ops
	}, pair)
	ctx.grid(154, where(func(t *Target) bool { return t.ID == "v3.Buffer" }), []int{0, 1, 3, 9, 17}, func(t *Target, size int64, r *R) (ops []*Op) {
		for _, tp := range templates(t) {
			for i := 0; i < ctx.n(60, 600); i++ {
				o := r.fill(&tp, size)
				if o.isAccess() {
					lim := size
					if o.isBit() {
						lim *= 8
					}
					if o.Next {
						k := KSeek
						if o.isBit() {
							k = KSeekBit
						}
						ops = append(ops, &Op{K: k, Off: r.wild(lim)})
					} else {
						o.Off = r.wild(lim)
					}
					if o.isRead() && r.p(0.4) {
						o.N = r.wild(lim)
					}
				}
				if r.p(0.3) && (o.K == KTruncL || o.K == KTruncR || o.K == KGrow) {
					o.N = -1 - o.N
				}
				ops = append(ops, o)
			}
		}
		return
	}, pair)
}
