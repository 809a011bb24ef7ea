package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"verif/mc/cmd/mcdrive/astutil"
)

const (
	schedPath = "verif/mc/rt/sched"
	schedName = "mcsched__"
	vsyncPath = "verif/mc/rt/vsync"
	vatomPath = "verif/mc/rt/vatomic"
)

type listed struct {
	ImportPath string
	Export     string
	Dir        string
	GoFiles    []string
	Standard   bool
	Imports    []string
}

func listDeps(pkg string) ([]listed, error) {
	args := append([]string{"list", "-export", "-deps", "-json=ImportPath,Export,Dir,GoFiles,Standard,Imports"}, modArgs()...)
	s, err := sh(filepath.Join(verif, "mc"), "go", append(args, pkg)...)
	if err != nil {
		return nil, fmt.Errorf("go list: %v\n%.1500s", err, s)
	}
	var r []listed
	d := json.NewDecoder(strings.NewReader(s))
	for {
		var l listed
		if err := d.Decode(&l); err == io.EOF {
			return r, nil
		} else if err != nil {
			return nil, err
		}
		r = append(r, l)
	}
}

// instrumentOverlay rewrites the synchronisation operations of every package of the repository into calls of the
// scheduler and returns the overlay file.
func instrumentOverlay() (string, error) {
	deps, err := listDeps("./cmd/mcrun")
	if err != nil {
		return "", err
	}
	exports := map[string]string{}
	for _, l := range deps {
		exports[l.ImportPath] = l.Export
	}
	replace := map[string]string{}
	n := 0
	for _, l := range deps {
		if l.Standard || !(l.Dir == repo || strings.HasPrefix(l.Dir, repo+"/")) {
			continue
		}
		for _, i := range l.Imports {
			switch i {
			case "context", "reflect", "os/signal", "net":
				if i != "reflect" {
					return "", fmt.Errorf("%s imports %s: not supported by the controlled scheduler", l.ImportPath, i)
				}
			}
		}
		fset := token.NewFileSet()
		var files []*ast.File
		for _, f := range l.GoFiles {
			a, err := parser.ParseFile(fset, filepath.Join(l.Dir, f), nil, parser.SkipObjectResolution)
			if err != nil {
				return "", err
			}
			files = append(files, a)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			e := exports[path]
			if e == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		})}
		if _, err := conf.Check(l.ImportPath, fset, files, info); err != nil {
			return "", err
		}
		for i, a := range files {
			r := &rewriter{info: info, fset: fset}
			changed, err := r.file(a)
			if err != nil {
				return "", fmt.Errorf("%s: %v", l.GoFiles[i], err)
			}
			if !changed {
				continue
			}
			var buf bytes.Buffer
			buf.WriteString("//go:build go1.21\n\n")
			if err := printer.Fprint(&buf, fset, a); err != nil {
				return "", err
			}
			out := filepath.Join(scratch, fmt.Sprintf("instr-%d.go", n))
			n++
			if err := os.WriteFile(out, buf.Bytes(), 0o644); err != nil {
				return "", err
			}
			replace[filepath.Join(l.Dir, l.GoFiles[i])] = out
		}
	}
	return writeOverlay("overlay-instr.json", replace)
}

func writeOverlay(name string, replace map[string]string) (string, error) {
	b, err := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err != nil {
		return "", err
	}
	p := filepath.Join(scratch, name)
	return p, os.WriteFile(p, b, 0o644)
}

type rewriter struct {
	info    *types.Info
	fset    *token.FileSet
	n       int
	used    bool
	recvs   map[ast.Expr]ast.Expr    // rewritten receive -> channel
	sends   map[ast.Stmt][2]ast.Expr // rewritten send -> channel, value
	inComm  map[ast.Node]bool        // communication of a select
	origFun map[*ast.CallExpr]string // builtin called in a go statement
	copies  map[*ast.CallExpr]bool   // copy(...)
	chans   map[ast.Expr]bool        // expressions of channel type (by original node)
	labeled map[ast.Stmt]bool
	err     error
}

func (r *rewriter) fail(n ast.Node, f string, a ...interface{}) {
	if r.err == nil {
		r.err = fmt.Errorf("%s: %s", r.fset.Position(n.Pos()), fmt.Sprintf(f, a...))
	}
}

func id(s string) *ast.Ident { return ast.NewIdent(s) }

func (r *rewriter) rt(name string, args ...ast.Expr) *ast.CallExpr {
	r.used = true
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: id(schedName), Sel: id(name)}, Args: args}
}

func (r *rewriter) tmp() *ast.Ident {
	r.n++
	return id(fmt.Sprintf("mc%d__", r.n))
}

func (r *rewriter) builtin(c *ast.CallExpr) string {
	f := c.Fun
	for {
		p, ok := f.(*ast.ParenExpr)
		if !ok {
			break
		}
		f = p.X
	}
	i, ok := f.(*ast.Ident)
	if !ok {
		return ""
	}
	if b, ok := r.info.Uses[i].(*types.Builtin); ok {
		return b.Name()
	}
	return ""
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (r *rewriter) pkgFunc(e ast.Expr) string {
	s, ok := e.(*ast.SelectorExpr)
	if !ok {
		return ""
	}
	i, ok := s.X.(*ast.Ident)
	if !ok {
		return ""
	}
	if p, ok := r.info.Uses[i].(*types.PkgName); ok {
		return p.Imported().Path() + "." + s.Sel.Name
	}
	return ""
}

func (r *rewriter) file(a *ast.File) (bool, error) {
	r.recvs, r.sends, r.inComm = map[ast.Expr]ast.Expr{}, map[ast.Stmt][2]ast.Expr{}, map[ast.Node]bool{}
	changed := false
	keepImports := map[string]string{}
	for _, im := range a.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		name := ""
		if im.Name != nil {
			name = im.Name.Name
		}
		switch p {
		case "sync", "sync/atomic":
			if name == "." {
				return false, fmt.Errorf("dot import of %s", p)
			}
			if name == "" {
				im.Name = id(p[strings.LastIndex(p, "/")+1:])
			}
			im.Path.Value = strconv.Quote(map[string]string{"sync": vsyncPath, "sync/atomic": vatomPath}[p])
			im.EndPos = 0
			changed = true
		case "runtime", "time":
			if name == "" {
				name = p
			}
			if name != "_" && name != "." {
				keepImports[p] = name
			}
		}
	}
	two := map[ast.Expr]bool{} // receives with two results
	goBuiltin := map[*ast.GoStmt]bool{}
	pre := func(c *astutil.Cursor) bool {
		switch n := c.Node().(type) {
		case *ast.CommClause:
			if n.Comm != nil {
				r.inComm[n.Comm] = true
			}
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				two[unparen(n.Rhs[0])] = true
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				two[unparen(n.Values[0])] = true
			}
		case *ast.SelectorExpr:
			switch f := r.pkgFunc(n); f {
			case "time.NewTimer", "time.NewTicker", "time.Tick", "time.AfterFunc", "runtime.LockOSThread", "runtime.NumGoroutine":
				r.fail(n, "%s is not supported by the controlled scheduler", f)
			}
		case *ast.GoStmt:
			goBuiltin[n] = r.builtin(n.Call) != "" || r.info.Types[n.Call.Fun].IsType()
		case *ast.LabeledStmt:
			if rs, ok := n.Stmt.(*ast.GoStmt); ok {
				r.fail(rs, "labelled go statement")
			}
		}
		return true
	}
	post := func(c *astutil.Cursor) bool {
		switch n := c.Node().(type) {
		case *ast.UnaryExpr:
			if n.Op != token.ARROW {
				break
			}
			name := "Recv"
			if two[n] {
				name = "Recv2"
			}
			e := r.rt(name, n.X)
			r.recvs[e] = n.X
			c.Replace(e)
		case *ast.SendStmt:
			s := &ast.ExprStmt{X: &ast.CallExpr{Fun: r.rt("Send", n.Chan), Args: []ast.Expr{n.Value}}}
			r.sends[s] = [2]ast.Expr{n.Chan, n.Value}
			c.Replace(s)
		case *ast.CallExpr:
			switch r.builtin(n) {
			case "close":
				c.Replace(r.rt("Close", n.Args[0]))
			case "len":
				if len(n.Args) == 1 && isChan(r.info.TypeOf(n.Args[0])) {
					c.Replace(r.rt("Len", n.Args[0]))
				}
			case "copy":
				if _, ok := c.Parent().(*ast.ExprStmt); ok {
					// copy(a, b) => mcsched__.Work2(copy, ...): keep the statement form, mark the work first
					r.used = true
					c.Replace(&ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{
						&ast.ExprStmt{X: r.rt("Work")}, &ast.ExprStmt{X: n}}}}})
				}
			}
			switch r.pkgFunc(n.Fun) {
			case "runtime.Gosched":
				c.Replace(r.rt("Yield"))
			case "time.Sleep":
				c.Replace(r.rt("Yield"))
			case "time.After":
				c.Replace(r.rt("After", n.Args...))
			}
		case *ast.RangeStmt:
			if !isChan(r.info.TypeOf(n.X)) {
				break
			}
			ch, v, ok := r.tmp(), r.tmp(), r.tmp()
			body := []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{r.rt("Recv2", id(ch.Name))}},
				&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
			}
			if n.Key != nil && n.Tok != token.ILLEGAL {
				body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{n.Key}, Tok: n.Tok, Rhs: []ast.Expr{id(v.Name)}})
			} else {
				body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(v.Name)}})
			}
			body = append(body, n.Body)
			c.Replace(&ast.ForStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{n.X}},
				Body: &ast.BlockStmt{List: body}})
		case *ast.GoStmt:
			var pre []ast.Stmt
			call := n.Call
			nc := &ast.CallExpr{Fun: call.Fun, Ellipsis: call.Ellipsis}
			if nc.Ellipsis.IsValid() {
				nc.Ellipsis = 1
			}
			bi := goBuiltin[n]
			if s, ok := call.Fun.(*ast.SelectorExpr); ok {
				if i, ok := s.X.(*ast.Ident); ok && i.Name == schedName {
					bi = true
				}
			}
			if !bi {
				f := r.tmp()
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{f}, Tok: token.DEFINE, Rhs: []ast.Expr{call.Fun}})
				nc.Fun = id(f.Name)
			}
			for _, arg := range call.Args {
				tv, known := r.info.Types[arg]
				if known && (tv.Value != nil || tv.IsNil() || tv.IsType()) {
					nc.Args = append(nc.Args, arg)
					continue
				}
				if known {
					if _, ok := tv.Type.(*types.Tuple); ok {
						nc.Args = append(nc.Args, arg)
						continue
					}
				}
				t := r.tmp()
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{arg}})
				nc.Args = append(nc.Args, id(t.Name))
			}
			fn := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}}}
			c.Replace(&ast.BlockStmt{List: append(pre, &ast.ExprStmt{X: r.rt("Go", fn)})})
		case *ast.SelectStmt:
			var lhs, rhs []ast.Expr
			sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
			has := "false"
			k := 0
			var names []ast.Expr
			for _, cl := range n.Body.List {
				cc := cl.(*ast.CommClause)
				if cc.Comm == nil {
					has = "true"
					sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: cc.Body})
					continue
				}
				t := r.tmp()
				lhs = append(lhs, t)
				names = append(names, id(t.Name))
				body := []ast.Stmt{}
				if sv, ok := r.sends[cc.Comm]; ok {
					rhs = append(rhs, &ast.CallExpr{Fun: r.rt("SelSend", sv[0]), Args: []ast.Expr{sv[1]}})
				} else {
					switch s := cc.Comm.(type) {
					case *ast.ExprStmt:
						ch, ok := r.recvs[unparen(s.X)]
						if !ok {
							r.fail(n, "unknown communication")
							return true
						}
						rhs = append(rhs, r.rt("SelRecv", ch))
					case *ast.AssignStmt:
						ch, ok := r.recvs[unparen(s.Rhs[0])]
						if !ok {
							r.fail(n, "unknown communication")
							return true
						}
						rhs = append(rhs, r.rt("SelRecv", ch))
						v := []ast.Expr{&ast.SelectorExpr{X: id(t.Name), Sel: id("V")}}
						if len(s.Lhs) == 2 {
							v = append(v, &ast.SelectorExpr{X: id(t.Name), Sel: id("OK")})
						}
						body = append(body, &ast.AssignStmt{Lhs: s.Lhs, Tok: s.Tok, Rhs: v})
					default:
						r.fail(n, "unknown communication")
						return true
					}
				}
				sw.Body.List = append(sw.Body.List, &ast.CaseClause{
					List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(k)}}, Body: append(body, cc.Body...)})
				k++
			}
			if len(lhs) > 0 {
				sw.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
			}
			sw.Tag = r.rt("Select", append([]ast.Expr{id(has)}, names...)...)
			c.Replace(sw)
		}
		return true
	}
	astutil.Apply(a, pre, post)
	if r.err != nil {
		return false, r.err
	}
	if !r.used && !changed {
		return false, nil
	}
	a.Comments = nil
	ast.Inspect(a, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			n.Doc = nil
		case *ast.FuncDecl:
			n.Doc = nil
		case *ast.Field:
			n.Doc, n.Comment = nil, nil
		case *ast.ValueSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.TypeSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.ImportSpec:
			n.Doc, n.Comment = nil, nil
		}
		return true
	})
	a.Doc = nil
	if r.used {
		spec := &ast.ImportSpec{Name: id(schedName), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(schedPath)}}
		a.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, a.Decls...)
		if n, ok := keepImports["runtime"]; ok {
			a.Decls = append(a.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id("_")}, Values: []ast.Expr{&ast.SelectorExpr{X: id(n), Sel: id("GC")}}}}})
		}
		if n, ok := keepImports["time"]; ok {
			a.Decls = append(a.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id("_")}, Values: []ast.Expr{&ast.SelectorExpr{X: id(n), Sel: id("Now")}}}}})
		}
	}
	return true, nil
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}
