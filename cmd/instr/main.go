// Command instr copies the library packages of a go-xmp tree into a scratch
// module and instruments the copies for deterministic simulation:
//
//   - a scheduling point before every statement (simrt.Y / simrt.H),
//   - package sync replaced by simsync (same API, blocking decided by the simulator),
//   - iteration over maps in an order the simulator decides,
//   - time.Now replaced by the simulated clock,
//   - go statements routed through the simulator,
//   - per package a VerifReinit that re-runs all package initialisation, so that
//     each simulated run starts from the state of a fresh process.
//
// Line numbers are preserved. Nothing outside -out is written.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type pkgInfo struct {
	Dir        string
	ImportPath string
	Name       string
	Export     string
	GoFiles    []string
	Standard   bool
}

type edit struct {
	pos, end int
	text     string
	seq      int
}

type fileCtx struct {
	path  string
	src   []byte
	file  *ast.File
	edits []edit
	tail  bytes.Buffer
	seq   int
}

func (f *fileCtx) add(pos, end int, text string) {
	f.seq++
	f.edits = append(f.edits, edit{pos, end, text, f.seq})
}

// render returns src[from:to] with all edits inside applied.
func (f *fileCtx) render(from, to int) string {
	es := make([]edit, 0)
	for _, e := range f.edits {
		if e.pos >= from && e.end <= to {
			es = append(es, e)
		}
	}
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].pos != es[j].pos {
			return es[i].pos < es[j].pos
		}
		// insertions before replacements at the same place
		if (es[i].end == es[i].pos) != (es[j].end == es[j].pos) {
			return es[i].end == es[i].pos
		}
		return es[i].seq < es[j].seq
	})
	var b strings.Builder
	cur := from
	for _, e := range es {
		if e.pos < cur {
			fatal("overlapping edits in %s at offset %d", f.path, e.pos)
		}
		b.Write(f.src[cur:e.pos])
		b.WriteString(e.text)
		cur = e.end
	}
	b.Write(f.src[cur:to])
	return b.String()
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

type siteInfo struct {
	Pos string `json:"p"`
	Hot bool   `json:"h,omitempty"`
}

var (
	sites []siteInfo
	fset  = token.NewFileSet()
)

func main() {
	repo := flag.String("repo", "/repo", "library tree")
	out := flag.String("out", "", "output directory (created)")
	flag.Parse()
	if *out == "" {
		fatal("-out is required")
	}
	if err := os.MkdirAll(*out, 0o755); err != nil {
		fatal("%v", err)
	}
	const mod = "github.com/trimmer-io/go-xmp"
	// 1 copy library packages
	ents, err := os.ReadDir(*repo)
	must(err)
	for _, e := range ents {
		n := e.Name()
		if !e.IsDir() || strings.HasPrefix(n, ".") || n == "cmd" || n == "samples" || n == "test" || n == "vendor" || n == "testdata" {
			continue
		}
		copyTree(filepath.Join(*repo, n), filepath.Join(*out, n))
	}
	gomod := "module " + mod + "\n\ngo " + goVersion(filepath.Join(*repo, "go.mod")) + "\n"
	must(os.WriteFile(filepath.Join(*out, "go.mod"), []byte(gomod), 0o644))

	// 2 type-check in dependency order using export data for the standard library
	cmd := exec.Command("go", "list", "-deps", "-export", "-json=Dir,ImportPath,Name,Export,GoFiles,Standard", "./xmp/...", "./models/...")
	cmd.Dir = *out
	cmd.Stderr = os.Stderr
	js, lerr := cmd.Output()
	err = lerr
	if err != nil {
		fatal("go list: %v", err)
	}
	export := map[string]string{}
	var pkgs []pkgInfo
	dec := json.NewDecoder(bytes.NewReader(js))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list output: %v", err)
		}
		export[p.ImportPath] = p.Export
		if strings.HasPrefix(p.ImportPath, mod+"/") {
			pkgs = append(pkgs, p)
		}
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := export[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	var reinit bytes.Buffer
	reinit.WriteString("// Package verifall re-initialises every library package.\npackage verifall\n\nimport (\n")
	var calls bytes.Buffer
	for i, p := range pkgs {
		instrument(p, imp)
		fmt.Fprintf(&reinit, "\tp%d %q\n", i, p.ImportPath)
		fmt.Fprintf(&calls, "\tp%d.VerifReinit()\n", i)
	}
	sj, _ := json.Marshal(sites)
	fmt.Fprintf(&reinit, "\t_ \"embed\"\n)\n\n// Sites describes the scheduling points.\n//go:embed sites.json\nvar Sites []byte\n\n// Reinit restores the state of a fresh process.\nfunc Reinit() {\n%s}\n", calls.String())
	must(os.MkdirAll(filepath.Join(*out, "verifall"), 0o755))
	must(os.WriteFile(filepath.Join(*out, "verifall", "verifall.go"), reinit.Bytes(), 0o644))
	must(os.WriteFile(filepath.Join(*out, "verifall", "sites.json"), sj, 0o644))
}

// goVersion is the language version of the tree, at least 1.21.
func goVersion(f string) string {
	b, _ := os.ReadFile(f)
	for _, l := range strings.Split(string(b), "\n") {
		if w := strings.Fields(l); len(w) == 2 && w[0] == "go" {
			var a, c int
			if n, _ := fmt.Sscanf(w[1], "%d.%d", &a, &c); n == 2 && (a > 1 || c > 21) {
				return w[1]
			}
		}
	}
	return "1.21"
}

func must(err error) {
	if err != nil {
		fatal("%v", err)
	}
}

func copyTree(from, to string) {
	must(filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		if fi.IsDir() {
			return os.MkdirAll(filepath.Join(to, rel), 0o755)
		}
		if strings.HasSuffix(p, "_test.go") || !fi.Mode().IsRegular() {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(to, rel), b, 0o644)
	}))
}

func instrument(p pkgInfo, imp types.Importer) {
	var ctxs []*fileCtx
	var files []*ast.File
	for _, n := range p.GoFiles {
		path := filepath.Join(p.Dir, n)
		src, err := os.ReadFile(path)
		must(err)
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
		must(err)
		ctxs = append(ctxs, &fileCtx{path: path, src: src, file: f})
		files = append(files, f)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
	}
	conf := types.Config{Importer: imp, GoVersion: "go1.21"}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	must(err)

	off := func(pos token.Pos) int { return fset.Position(pos).Offset }
	isPkgVar := func(id *ast.Ident) bool {
		v, ok := info.Uses[id].(*types.Var)
		return ok && !v.IsField() && v.Parent() != nil && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() && strings.HasPrefix(v.Pkg().Path(), "github.com/trimmer-io/")
	}
	var hasSync func(t types.Type, depth int) bool
	hasSync = func(t types.Type, depth int) bool {
		if depth > 4 || t == nil {
			return false
		}
		switch u := t.(type) {
		case *types.Pointer:
			return hasSync(u.Elem(), depth+1)
		case *types.Named:
			if u.Obj().Pkg() != nil && (u.Obj().Pkg().Path() == "sync" || u.Obj().Pkg().Path() == "sync/atomic") {
				return true
			}
			if s, ok := u.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if hasSync(s.Field(i).Type(), depth+1) {
						return true
					}
				}
			}
		}
		return false
	}
	mutableVar := func(v *types.Var) bool {
		// error values and reflect.Type descriptors are effectively constant
		s := v.Type().String()
		return s != "error" && s != "reflect.Type"
	}

	for _, c := range ctxs {
		usedTime := false
		// inside the package clause line
		c.add(off(c.file.Name.End()), off(c.file.Name.End()), "; import simrt \"verif.local/sim/simrt\"")
		for _, is := range c.file.Imports {
			if is.Path.Value == `"sync"` {
				if is.Name == nil {
					c.add(off(is.Path.Pos()), off(is.Path.End()), `sync "verif.local/sim/simsync"`)
				} else {
					c.add(off(is.Path.Pos()), off(is.Path.End()), `"verif.local/sim/simsync"`)
				}
			}
		}
		hotIn := func(n ast.Node) bool {
			hot := false
			ast.Inspect(n, func(m ast.Node) bool {
				switch x := m.(type) {
				case *ast.BlockStmt, *ast.FuncLit:
					return m == n
				case *ast.Ident:
					if isPkgVar(x) && mutableVar(info.Uses[x].(*types.Var)) {
						hot = true
					}
				case *ast.SelectorExpr:
					if tv, ok := info.Types[x.X]; ok && hasSync(tv.Type, 0) {
						hot = true
					}
				case *ast.UnaryExpr:
					if x.Op == token.ARROW {
						hot = true
					}
				case *ast.SendStmt, *ast.SelectStmt, *ast.GoStmt:
					hot = true
				}
				return true
			})
			return hot
		}
		// number of enclosing hot function: methods on types with locks are hot altogether
		var doStmts func(list []ast.Stmt, hotFn bool)
		doStmts = func(list []ast.Stmt, hotFn bool) {
			for _, s := range list {
				switch s.(type) {
				case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
					continue
				}
				hot := hotFn || hotIn(s)
				id := len(sites)
				pos := fset.Position(s.Pos())
				sites = append(sites, siteInfo{fmt.Sprintf("%s/%s:%d", filepath.Base(p.ImportPath), filepath.Base(pos.Filename), pos.Line), hot})
				fn := "Y"
				if hot {
					fn = "H"
				}
				c.add(off(s.Pos()), off(s.Pos()), fmt.Sprintf("simrt.%s(%d); ", fn, id))
			}
		}
		nloop := 0
		var hotStack []bool
		var visit func(n ast.Node) bool
		hotFn := func() bool { return len(hotStack) > 0 && hotStack[len(hotStack)-1] }
		visit = func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl:
				hot := false
				if x.Recv != nil && len(x.Recv.List) > 0 {
					if tv, ok := info.Types[x.Recv.List[0].Type]; ok && hasSync(tv.Type, 0) {
						hot = true
					}
				}
				if x.Body != nil {
					hotStack = append(hotStack, hot)
					ast.Inspect(x.Body, visit)
					hotStack = hotStack[:len(hotStack)-1]
				}
				return false
			case *ast.BlockStmt:
				doStmts(x.List, hotFn())
			case *ast.CaseClause:
				doStmts(x.Body, hotFn())
			case *ast.CommClause:
				doStmts(x.Body, hotFn())
			case *ast.ForStmt:
				if len(x.Body.List) == 0 {
					id := len(sites)
					sites = append(sites, siteInfo{"loop", false})
					c.add(off(x.Body.Lbrace)+1, off(x.Body.Lbrace)+1, fmt.Sprintf("simrt.Y(%d); ", id))
				}
			case *ast.GoStmt:
				if fl, ok := x.Call.Fun.(*ast.FuncLit); ok && len(x.Call.Args) == 0 {
					c.add(off(x.Pos()), off(fl.Pos()), "simrt.Go(")
					c.add(off(fl.End()), off(x.End()), ")")
				} else {
					c.add(off(x.Pos()), off(x.Call.Pos()), "simrt.Go(func() { ")
					c.add(off(x.End()), off(x.End()), " })")
				}
			case *ast.RangeStmt:
				tv := info.Types[x.X]
				if tv.Type != nil {
					if _, ok := tv.Type.Underlying().(*types.Map); ok {
						nloop++
						it := fmt.Sprintf("simit_%d", nloop)
						text := func(e ast.Expr) string { return string(c.src[off(e.Pos()):off(e.End())]) }
						blank := func(e ast.Expr) bool {
							if e == nil {
								return true
							}
							id, ok := e.(*ast.Ident)
							return ok && id.Name == "_"
						}
						addr := func(e ast.Expr) string {
							if blank(e) {
								return "nil"
							}
							return "&" + text(e)
						}
						xs, xe := off(x.X.Pos()), off(x.X.End())
						head := ""
						if x.Tok == token.DEFINE {
							k, v := "_", "_"
							if !blank(x.Key) {
								k = text(x.Key)
							}
							if !blank(x.Value) {
								v = text(x.Value)
							}
							head = fmt.Sprintf("for %s, %s, %s := simrt.NewIter(", it, k, v)
						} else {
							head = fmt.Sprintf("for %s, _, _ := simrt.NewIter(", it)
							ok := func(e ast.Expr) bool {
								if blank(e) {
									return true
								}
								_, isIdent := e.(*ast.Ident)
								return isIdent
							}
							if !ok(x.Key) || !ok(x.Value) {
								break // exotic assignment form: left alone
							}
						}
						c.add(off(x.For), xs, head)
						c.add(xe, xe, fmt.Sprintf("); %s.Next(%s, %s); ", it, addr(x.Key), addr(x.Value)))
					}
				}
			case *ast.CallExpr:
				if se, ok := x.Fun.(*ast.SelectorExpr); ok && se.Sel.Name == "MapKeys" && len(x.Args) == 0 {
					if tv, ok := info.Types[se.X]; ok && tv.Type.String() == "reflect.Value" {
						c.add(off(x.Pos()), off(x.Pos()), "simrt.OrderKeys(")
						c.add(off(x.End()), off(x.End()), ")")
					}
				}
			case *ast.SelectorExpr:
				if id, ok := x.X.(*ast.Ident); ok {
					if pn, ok := info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "time" {
						switch x.Sel.Name {
						case "Now", "Sleep", "Since":
							c.add(off(x.Pos()), off(x.End()), "simrt."+x.Sel.Name)
							usedTime = true
						}
					}
				}
			}
			return true
		}
		for _, d := range c.file.Decls {
			ast.Inspect(d, visit)
		}
		if usedTime {
			for _, is := range c.file.Imports {
				if is.Path.Value == `"time"` {
					n := "time"
					if is.Name != nil {
						n = is.Name.Name
					}
					fmt.Fprintf(&c.tail, "\nvar _ %s.Time\n", n)
				}
			}
		}
	}

	// re-initialisation
	fileOf := func(pos token.Pos) *fileCtx {
		fn := fset.Position(pos).Filename
		for _, c := range ctxs {
			if c.path == fn {
				return c
			}
		}
		return nil
	}
	nfn := 0
	var seq []string
	inited := map[types.Object]bool{}
	var initSeq []string
	for _, in := range info.InitOrder {
		c := fileOf(in.Rhs.Pos())
		if c == nil {
			continue
		}
		var lhs []string
		for _, v := range in.Lhs {
			inited[v] = true
			lhs = append(lhs, v.Name())
		}
		nfn++
		name := fmt.Sprintf("verifInit_%d", nfn)
		fmt.Fprintf(&c.tail, "\nfunc %s() { %s = %s }\n", name, strings.Join(lhs, ", "), c.render(off(in.Rhs.Pos()), off(in.Rhs.End())))
		initSeq = append(initSeq, name)
	}
	sc := tp.Scope()
	for _, n := range sc.Names() {
		if v, ok := sc.Lookup(n).(*types.Var); ok && !inited[v] {
			c := fileOf(v.Pos())
			nfn++
			name := fmt.Sprintf("verifInit_%d", nfn)
			fmt.Fprintf(&c.tail, "\nfunc %s() { simrt.Zero(&%s) }\n", name, n)
			seq = append(seq, name)
		}
	}
	seq = append(seq, initSeq...)
	ninit := 0
	for _, c := range ctxs {
		for _, d := range c.file.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if ok && fd.Recv == nil && fd.Name.Name == "init" {
				ninit++
				name := fmt.Sprintf("verifPkgInit_%d", ninit)
				c.add(off(fd.Name.Pos()), off(fd.Name.End()), name)
				fmt.Fprintf(&c.tail, "\nfunc init() { %s() }\n", name)
				seq = append(seq, name)
			}
		}
	}
	var body strings.Builder
	for _, s := range seq {
		fmt.Fprintf(&body, "\t%s()\n", s)
	}
	if len(ctxs) > 0 {
		fmt.Fprintf(&ctxs[0].tail, "\n// VerifReinit re-runs package initialisation.\nfunc VerifReinit() {\n%s}\n", body.String())
	}
	for _, c := range ctxs {
		outb := c.render(0, len(c.src)) + "\nvar _ = simrt.Y\n" + c.tail.String()
		must(os.WriteFile(c.path, []byte(outb), 0o644))
	}
}
