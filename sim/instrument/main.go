// Command instrument copies the non-test packages of a takenoco tree to a scratch
// module and puts every source of nondeterminism behind the simulator (package
// vsim).  It edits text at byte offsets, so the code itself is kept as written.
//
//	instrument -src /repo -dst DIR
//
// Edits: a scheduling point before every statement; `sync` replaced by vsync and
// `math/rand` by vrand; map ranges iterate in an order the simulator picks; `go`
// statements become simulated tasks; plain channel operations go through vsim;
// time.Now/Since/Sleep/... and runtime.Gosched go through vsim; and each package
// gets a function that restores its package-level state to that of a fresh process.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	off, end int    // replace [off,end)
	text     string // with text
	seq      int
}

type file struct {
	path  string
	rel   string
	src   []byte
	ast   *ast.File
	edits []edit
	tail  strings.Builder
	go121 bool
}

type pkg struct {
	path  string
	dir   string
	files []*file
	tpkg  *types.Package
	info  *types.Info
	done  bool
}

var (
	fset  = token.NewFileSet()
	pkgs  = map[string]*pkg{}
	stdim types.Importer
	sites []string
)

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instrument: "+f+"\n", a...)
	os.Exit(2)
}

type imp struct{}

func (imp) Import(path string) (*types.Package, error) {
	if p, ok := pkgs[path]; ok {
		check(p)
		return p.tpkg, nil
	}
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	return stdim.Import(path)
}

func check(p *pkg) {
	if p.done {
		return
	}
	p.done = true
	p.info = &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Uses:       map[*ast.Ident]types.Object{},
		Defs:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
	}
	var fs []*ast.File
	for _, f := range p.files {
		fs = append(fs, f.ast)
	}
	cfg := types.Config{Importer: imp{}}
	tp, err := cfg.Check(p.path, fset, fs, p.info)
	if err != nil {
		fatal("type check %s: %v", p.path, err)
	}
	p.tpkg = tp
}

func (f *file) add(off, end int, text string) {
	f.edits = append(f.edits, edit{off, end, text, len(f.edits)})
}

// render applies the edits that lie inside [from,to).
func (f *file) render(from, to int) string {
	es := append([]edit(nil), f.edits...)
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].off != es[j].off {
			return es[i].off < es[j].off
		}
		return es[i].seq < es[j].seq
	})
	var sb strings.Builder
	p := from
	for _, e := range es {
		if e.off < from || e.end > to {
			continue
		}
		if e.off < p {
			fatal("%s: overlapping edits at %d", f.path, e.off)
		}
		sb.Write(f.src[p:e.off])
		sb.WriteString(e.text)
		p = e.end
	}
	sb.Write(f.src[p:to])
	return sb.String()
}

func off(p token.Pos) int { return fset.Position(p).Offset }

func main() {
	src := flag.String("src", "/repo", "tree")
	dst := flag.String("dst", "", "scratch module")
	flag.Parse()
	if *dst == "" {
		fatal("no -dst")
	}
	stdim = importer.ForCompiler(fset, "source", nil)

	modpath := ""
	gomod, err := os.ReadFile(filepath.Join(*src, "go.mod"))
	if err != nil {
		fatal("%v", err)
	}
	for _, l := range strings.Split(string(gomod), "\n") {
		if strings.HasPrefix(l, "module ") {
			modpath = strings.TrimSpace(strings.TrimPrefix(l, "module "))
		}
	}
	bctx := build.Default
	err = filepath.Walk(*src, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(*src, path)
		if fi.IsDir() {
			b := filepath.Base(path)
			if rel != "." && (strings.HasPrefix(b, ".") || b == "wasm" || b == "web" || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		dir := filepath.Dir(rel)
		if dir == "." || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		if ok, err := bctx.MatchFile(filepath.Dir(path), filepath.Base(path)); err != nil || !ok {
			return err
		}
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		a, err := parser.ParseFile(fset, path, b, parser.ParseComments)
		if err != nil {
			return err
		}
		ip := modpath + "/" + filepath.ToSlash(dir)
		p := pkgs[ip]
		if p == nil {
			p = &pkg{path: ip, dir: dir}
			pkgs[ip] = p
		}
		p.files = append(p.files, &file{path: path, rel: rel, src: b, ast: a})
		return nil
	})
	if err != nil {
		fatal("%v", err)
	}
	var paths []string
	for k := range pkgs {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, k := range paths {
		check(pkgs[k])
	}
	for _, k := range paths {
		instrument(pkgs[k])
	}
	// write
	for _, k := range paths {
		for _, f := range pkgs[k].files {
			out := filepath.Join(*dst, f.rel)
			os.MkdirAll(filepath.Dir(out), 0o755)
			text := f.render(0, len(f.src)) + "\n" + f.tail.String()
			if f.go121 {
				for _, c := range f.ast.Comments {
					if c.Pos() < f.ast.Package && strings.Contains(c.List[0].Text, "go:build") {
						fatal("%s: build constraint and simulated construct in one file", f.rel)
					}
				}
				text = "//go:build go1.21\n\n" + text
			}
			writeIfChanged(out, []byte(text))
		}
	}
	gm := string(gomod) + "\nrequire verif.local/vsim v0.0.0\n"
	writeIfChanged(filepath.Join(*dst, "go.mod"), []byte(gm))
	js, _ := json.Marshal(sites)
	writeIfChanged(filepath.Join(*dst, "sites.json"), js)
}

func writeIfChanged(path string, b []byte) {
	os.MkdirAll(filepath.Dir(path), 0o755)
	if old, err := os.ReadFile(path); err == nil && string(old) == string(b) {
		return
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fatal("%v", err)
	}
}

var timeFns = map[string]string{"Now": "Now", "Since": "Since", "Until": "Until", "Sleep": "Sleep", "After": "After", "NewTimer": "", "NewTicker": "", "Tick": "", "AfterFunc": ""}

func instrument(p *pkg) {
	var zero, user []string
	initOf := map[*types.Var]string{} // first Lhs var -> init function
	for fi, f := range p.files {
		instrumentFile(p, f)
		for di, d := range f.ast.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name == "init" && d.Body != nil {
					n := fmt.Sprintf("vsimUserInit_%d_%d", fi, di)
					f.add(off(d.Name.Pos()), off(d.Name.End()), n)
					fmt.Fprintf(&f.tail, "func init() { %s() }\n", n)
					user = append(user, n)
				}
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for si, s := range d.Specs {
					vs := s.(*ast.ValueSpec)
					for ni, name := range vs.Names {
						if name.Name == "_" {
							continue
						}
						obj := p.info.Defs[name].(*types.Var)
						fn := fmt.Sprintf("vsimVar_%d_%d_%d_%d", fi, di, si, ni)
						switch {
						case len(vs.Values) == 0:
							ty := string(f.src[off(vs.Type.Pos()):off(vs.Type.End())])
							fmt.Fprintf(&f.tail, "func %s() { var z %s; %s = z }\n", fn, ty, name.Name)
							zero = append(zero, fn)
						case len(vs.Values) == len(vs.Names):
							v := vs.Values[ni]
							fmt.Fprintf(&f.tail, "func %s() { %s = %s }\n", fn, name.Name, f.render(off(v.Pos()), off(v.End())))
							initOf[obj] = fn
						case ni == 0:
							var ns []string
							for _, n := range vs.Names {
								ns = append(ns, n.Name)
							}
							v := vs.Values[0]
							fmt.Fprintf(&f.tail, "func %s() { %s = %s }\n", fn, strings.Join(ns, ", "), f.render(off(v.Pos()), off(v.End())))
							initOf[obj] = fn
						}
					}
				}
			}
		}
	}
	var order []string
	for _, in := range p.info.InitOrder {
		for _, v := range in.Lhs {
			if fn, ok := initOf[v]; ok {
				order = append(order, fn)
				break
			}
		}
	}
	f := p.files[0]
	fmt.Fprintf(&f.tail, "func vsimReset_() {\n")
	for _, l := range [][]string{zero, order, user} {
		for _, fn := range l {
			fmt.Fprintf(&f.tail, "\t%s()\n", fn)
		}
	}
	fmt.Fprintf(&f.tail, "}\nfunc init() { vsim_.RegisterReset(%q, vsimReset_) }\n", p.path)
}

func pure(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return pure(e.X)
	case *ast.ParenExpr:
		return pure(e.X)
	case *ast.StarExpr:
		return pure(e.X)
	}
	return false
}

func instrumentFile(p *pkg, f *file) {
	n := 0
	txt := func(e ast.Node) string { return string(f.src[off(e.Pos()):off(e.End())]) }
	// import
	f.add(off(f.ast.Name.End()), off(f.ast.Name.End()), `; import vsim_ "verif.local/vsim"`)
	f.tail.WriteString("var _ = vsim_.Y\n")
	for _, im := range f.ast.Imports {
		repl := ""
		name := ""
		switch im.Path.Value {
		case `"sync"`:
			repl, name = `"verif.local/vsim/vsync"`, "sync"
		case `"math/rand"`:
			repl, name = `"verif.local/vsim/vrand"`, "rand"
		case `"time"`:
			ref := "time"
			if im.Name != nil {
				ref = im.Name.Name
			}
			if ref != "_" && ref != "." {
				fmt.Fprintf(&f.tail, "var _ %s.Duration\n", ref)
			}
		case `"runtime"`:
			if im.Name == nil {
				f.tail.WriteString("var _ = runtime.GOOS\n")
			}
		}
		if repl != "" {
			if im.Name == nil {
				repl = name + " " + repl
			}
			f.add(off(im.Path.Pos()), off(im.Path.End()), repl)
		}
	}
	pkgSel := func(e ast.Expr, path string) (string, bool) {
		s, ok := e.(*ast.SelectorExpr)
		if !ok {
			return "", false
		}
		id, ok := s.X.(*ast.Ident)
		if !ok {
			return "", false
		}
		pn, ok := p.info.Uses[id].(*types.PkgName)
		if !ok || pn.Imported().Path() != path {
			return "", false
		}
		return s.Sel.Name, true
	}
	yields := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			pos := fset.Position(s.Pos())
			sites = append(sites, fmt.Sprintf("%s:%d", f.rel, pos.Line))
			f.add(pos.Offset, pos.Offset, fmt.Sprintf("vsim_.Y(%d);", len(sites)-1))
			n++
		}
	}
	inSelect := map[ast.Node]bool{}
	commaOk := map[ast.Node]bool{}
	ast.Inspect(f.ast, func(nd ast.Node) bool {
		switch s := nd.(type) {
		case *ast.SelectStmt:
			for _, c := range s.Body.List {
				if cc := c.(*ast.CommClause); cc.Comm != nil {
					inSelect[cc.Comm] = true
				}
			}
		case *ast.AssignStmt:
			if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
				if u, ok := s.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					commaOk[u] = true
				}
			}
		}
		return true
	})
	ast.Inspect(f.ast, func(nd ast.Node) bool {
		if nd != nil && inSelect[nd] {
			return false // left as written; blocking forever is caught by the watchdog
		}
		switch s := nd.(type) {
		case *ast.BlockStmt:
			yields(s.List)
		case *ast.CaseClause:
			yields(s.Body)
		case *ast.CommClause:
			yields(s.Body)
		case *ast.ForStmt:
			if len(s.Body.List) == 0 {
				pos := fset.Position(s.Body.Lbrace)
				sites = append(sites, fmt.Sprintf("%s:%d", f.rel, pos.Line))
				f.add(pos.Offset+1, pos.Offset+1, fmt.Sprintf("vsim_.Y(%d);", len(sites)-1))
			}
		case *ast.SelectorExpr:
			if fn, ok := pkgSel(s, "time"); ok {
				if r := timeFns[fn]; r != "" {
					f.add(off(s.Pos()), off(s.End()), "vsim_."+r)
					return false
				}
			}
			if fn, ok := pkgSel(s, "runtime"); ok && fn == "Gosched" {
				f.add(off(s.Pos()), off(s.End()), "vsim_.Gosched")
				return false
			}
		case *ast.GoStmt:
			c := s.Call
			f.go121 = true
			if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
				f.add(off(s.Pos()), off(fl.Pos()), "vsim_.Go(")
				f.add(off(fl.End()), off(c.End()), ")")
			} else if !c.Ellipsis.IsValid() {
				k := len(sites)
				f.add(off(s.Pos()), off(c.Fun.Pos()), fmt.Sprintf("{ vf%d := ", k))
				names := []string{}
				p0 := c.Fun.End()
				for i, a := range c.Args {
					f.add(off(p0), off(a.Pos()), fmt.Sprintf("; va%d_%d := ", k, i))
					names = append(names, fmt.Sprintf("va%d_%d", k, i))
					p0 = a.End()
				}
				f.add(off(p0), off(c.End()), fmt.Sprintf("; vsim_.Go(func() { vf%d(%s) }) }", k, strings.Join(names, ", ")))
			}
		case *ast.SendStmt:
			f.go121 = true
			f.add(off(s.Pos()), off(s.Pos()), "vsim_.Send(")
			f.add(off(s.Arrow), off(s.Arrow)+2, ",")
			f.add(off(s.End()), off(s.End()), ")")
		case *ast.UnaryExpr:
			if s.Op == token.ARROW {
				f.go121 = true
				fn := "vsim_.Recv("
				if commaOk[s] {
					fn = "vsim_.Recv2("
				}
				f.add(off(s.Pos()), off(s.Pos())+2, fn)
				f.add(off(s.End()), off(s.End()), ")")
			}
		case *ast.CallExpr:
			if id, ok := s.Fun.(*ast.Ident); ok && id.Name == "close" {
				if b, ok := p.info.Uses[id].(*types.Builtin); ok && b.Name() == "close" {
					f.go121 = true
					f.add(off(id.Pos()), off(id.End()), "vsim_.Close")
				}
			}
		case *ast.RangeStmt:
			t := p.info.TypeOf(s.X)
			if t == nil {
				break
			}
			if _, ok := t.Underlying().(*types.Map); ok && pure(s.X) && s.Key != nil {
				f.go121 = true
				k := len(sites)
				key, val := "_", "_"
				if s.Key != nil {
					key = txt(s.Key)
				}
				if s.Value != nil {
					val = txt(s.Value)
				}
				f.add(off(s.Key.Pos()), off(s.X.End()), fmt.Sprintf("_, vk%d := range vsim_.MapKeys(%s)", k, txt(s.X)))
				b := fmt.Sprintf("vv%d, vo%d := (%s)[vk%d]; if !vo%d { continue }; _ = vv%d;", k, k, txt(s.X), k, k, k)
				op := s.Tok.String()
				if key != "_" {
					b += fmt.Sprintf("%s %s vk%d;", key, op, k)
				}
				if val != "_" {
					b += fmt.Sprintf("%s %s vv%d;", val, op, k)
				}
				f.add(off(s.Body.Lbrace)+1, off(s.Body.Lbrace)+1, b)
				sites = append(sites, "maprange")
			}
		}
		return true
	})
}
