// Command instr rewrites the packages of the code under test so that the simulator owns
// every source of nondeterminism: goroutines, channels, select, map order, and the
// packages sync, sync/atomic, time, net, os, context, log, math/rand, runtime. The
// rewritten files are used through a build overlay; nothing in /repo changes.
//
//	instr -repo /repo -out DIR -modfile FILE      (run in /verif/sim)
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
)

type pkg struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	Standard   bool
	Module     *struct{ Path, GoVersion string }
	ImportMap  map[string]string
	Error      *struct{ Err string }
}

var shims = map[string]string{
	"sync": "verifsim/shim/sync", "sync/atomic": "verifsim/shim/atomic", "time": "verifsim/shim/time",
	"net": "verifsim/shim/net", "os": "verifsim/shim/os", "context": "verifsim/shim/context",
	"io/ioutil": "verifsim/shim/ioutil", "log": "verifsim/shim/log", "math/rand": "verifsim/shim/rand",
	"runtime": "verifsim/shim/runtime",
}

func die(f string, a ...any) { fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...); os.Exit(2) }

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	modfile := flag.String("modfile", "", "")
	modpath := flag.String("module", "github.com/liujiangwei/xxcache", "")
	flag.Parse()
	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-modfile="+*modfile,
		"-json=ImportPath,Dir,Name,Export,GoFiles,CgoFiles,Standard,Module,ImportMap,Error", *modpath+"/...")
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	exports := map[string]string{}
	var mine []pkg
	dec := json.NewDecoder(strings.NewReader(string(b)))
	for {
		var p pkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		if p.ImportPath == *modpath || strings.HasPrefix(p.ImportPath, *modpath+"/") {
			mine = append(mine, p)
		}
	}
	overlay := map[string]string{}
	n := 0
	for _, p := range mine {
		if p.Name == "main" || len(p.CgoFiles) > 0 || len(p.GoFiles) == 0 {
			continue
		}
		fset := token.NewFileSet()
		var files []*ast.File
		for _, f := range p.GoFiles {
			a, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			files = append(files, a)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{},
			Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Instances: map[*ast.Ident]types.Instance{}}
		imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			if m, ok := p.ImportMap[path]; ok {
				path = m
			}
			e := exports[path]
			if e == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		})
		gv := ""
		if p.Module != nil && p.Module.GoVersion != "" {
			gv = "go" + p.Module.GoVersion
		}
		conf := types.Config{Importer: imp, GoVersion: gv}
		if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
			die("type check %s: %v", p.ImportPath, err)
		}
		for i, a := range files {
			src := filepath.Join(p.Dir, p.GoFiles[i])
			mk := newMarks(info, *modpath)
			mk.file(a)
			r := &rw{info: info, fset: fset, marks: mk, repo: *repo}
			r.file(a)
			rel, err := filepath.Rel(*repo, src)
			if err != nil || strings.HasPrefix(rel, "..") {
				die("%s is not under %s", src, *repo)
			}
			dst := filepath.Join(*out, "src", rel)
			if err := os.MkdirAll(filepath.Dir(dst), 0755); err != nil {
				die("%v", err)
			}
			var sb strings.Builder
			sb.WriteString(goTag(gv))
			pc := printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}
			if err := pc.Fprint(&sb, token.NewFileSet(), a); err != nil {
				die("print %s: %v", src, err)
			}
			if err := os.WriteFile(dst, []byte(sb.String()), 0644); err != nil {
				die("%v", err)
			}
			overlay[src] = dst
			n++
		}
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0644); err != nil {
		die("%v", err)
	}
	fmt.Printf("instrumented %d files\n", n)
}

// goTag raises the language version of a rewritten file to one with generics, without
// crossing the change of loop variable semantics in Go 1.22.
func goTag(gv string) string {
	minor := 0
	if p := strings.Split(strings.TrimPrefix(gv, "go"), "."); len(p) > 1 {
		minor, _ = strconv.Atoi(p[1])
	}
	if minor >= 21 {
		return ""
	}
	_ = constraint.IsGoBuild
	return "//go:build go1.21\n\n"
}

type rw struct {
	info *types.Info
	fset *token.FileSet
	n    int
	used bool

	marks *marks
	repo  string
}

func (r *rw) tmp() *ast.Ident { r.n++; return ast.NewIdent("vrt__" + strconv.Itoa(r.n)) }

func (r *rw) rt(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: ast.NewIdent("vrt__"), Sel: ast.NewIdent(name)}
}

func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: a} }
func expr(e ast.Expr) ast.Stmt                     { return &ast.ExprStmt{X: e} }
func define(l []ast.Expr, rr ...ast.Expr) *ast.AssignStmt {
	return &ast.AssignStmt{Lhs: l, Tok: token.DEFINE, Rhs: rr}
}
func set(l, rr ast.Expr) *ast.AssignStmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.ASSIGN, Rhs: []ast.Expr{rr}}
}
func addr(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.AND, X: e} }
func num(i int) ast.Expr       { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)} }

func (r *rw) y() ast.Stmt { return expr(call(r.rt("Y"))) }

func (r *rw) file(f *ast.File) {
	f.Comments = nil
	f.Doc = nil
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			d.Doc = nil
			if d.Tok == token.IMPORT {
				for _, s := range d.Specs {
					is := s.(*ast.ImportSpec)
					is.Doc, is.Comment = nil, nil
					p, _ := strconv.Unquote(is.Path.Value)
					if to, ok := shims[p]; ok {
						is.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(to)}
					}
				}
				continue
			}
			r.walk(reflect.ValueOf(d))
		case *ast.FuncDecl:
			d.Doc = nil
			r.walk(reflect.ValueOf(d))
		}
	}
	if r.used {
		imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("vrt__"),
			Path: &ast.BasicLit{Kind: token.STRING, Value: `"verifsim/rt"`}}}}
		f.Decls = append([]ast.Decl{imp}, f.Decls...)
	}
}

var (
	exprT = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	stmtT = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
)

// walk rewrites every node below v: expressions bottom-up, statement lists as a whole.
func (r *rw) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		switch v.Interface().(type) {
		case *ast.Object, *ast.Scope, *ast.CommentGroup:
			return
		case *ast.BlockStmt:
			b := v.Interface().(*ast.BlockStmt)
			b.List = r.list(b.List, false)
			return
		case *ast.ValueSpec:
			x := v.Interface().(*ast.ValueSpec)
			x.Doc, x.Comment = nil, nil
			for i := range x.Values {
				x.Values[i] = r.expr(x.Values[i])
			}
			l := make([]ast.Expr, len(x.Names))
			r.assign2(l, x.Values)
			if x.Type != nil {
				x.Type = r.expr(x.Type)
			}
			return
		case *ast.CaseClause:
			c := v.Interface().(*ast.CaseClause)
			for i := range c.List {
				c.List[i] = r.expr(c.List[i])
			}
			c.Body = r.list(c.Body, true)
			return
		case *ast.SwitchStmt, *ast.TypeSwitchStmt:
			// the body holds clauses, not statements
			e := v.Elem()
			for i := 0; i < e.NumField(); i++ {
				if e.Type().Field(i).Name == "Body" {
					body := e.Field(i).Interface().(*ast.BlockStmt)
					for _, c := range body.List {
						r.walk(reflect.ValueOf(c))
					}
					continue
				}
				r.field(e.Field(i))
			}
			return
		case *ast.FuncLit:
			f := v.Interface().(*ast.FuncLit)
			r.walk(reflect.ValueOf(f.Type))
			f.Body.List = r.list(f.Body.List, true)
			return
		case *ast.FuncDecl:
			f := v.Interface().(*ast.FuncDecl)
			r.walk(reflect.ValueOf(f.Type))
			if f.Body != nil {
				f.Body.List = r.list(f.Body.List, true)
			}
			return
		}
		e := v.Elem()
		if e.Kind() == reflect.Struct {
			for i := 0; i < e.NumField(); i++ {
				r.field(e.Field(i))
			}
		}
	case reflect.Interface:
		if !v.IsNil() {
			r.walk(v.Elem())
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			r.field(v.Index(i))
		}
	}
}

func (r *rw) field(f reflect.Value) {
	if !f.CanSet() {
		return
	}
	switch f.Kind() {
	case reflect.Interface:
		if f.IsNil() {
			return
		}
		switch f.Type() {
		case exprT:
			f.Set(reflect.ValueOf(r.expr(f.Interface().(ast.Expr))))
			return
		case stmtT:
			// a lone statement position (if-init, for-post, labelled body): no splitting
			s := f.Interface().(ast.Stmt)
			r.walk(reflect.ValueOf(s))
			s2 := r.simple(s)
			f.Set(reflect.ValueOf(s2))
			return
		}
		r.walk(f)
	case reflect.Ptr, reflect.Slice:
		r.walk(f)
	}
}

func (r *rw) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func (r *rw) builtin(f ast.Expr) string {
	for {
		p, ok := f.(*ast.ParenExpr)
		if !ok {
			break
		}
		f = p.X
	}
	if id, ok := f.(*ast.Ident); ok {
		if b, ok := r.info.Uses[id].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

func chanOf(t types.Type) *types.Chan {
	if t == nil {
		return nil
	}
	c, _ := t.Underlying().(*types.Chan)
	return c
}

// expr rewrites an expression used for one value.
func (r *rw) expr(e ast.Expr) ast.Expr { return r.wrap(e, r.expr0(e)) }

func (r *rw) expr0(e ast.Expr) ast.Expr {
	r.pre(e)
	switch x := e.(type) {
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return call(r.rt("Recv"), x.X)
		}
	case *ast.CallExpr:
		switch r.builtin(x.Fun) {
		case "close":
			return call(r.rt("Close"), x.Args[0])
		case "len":
			if c := chanOf(r.typeOfArg(x)); c != nil {
				if c.Dir() == types.SendOnly {
					return call(r.rt("LenS"), x.Args[0])
				}
				return call(r.rt("Len"), x.Args[0])
			}
		}
	}
	return e
}

var argType = map[*ast.CallExpr]types.Type{}

func (r *rw) typeOfArg(x *ast.CallExpr) types.Type { return argType[x] }

// pre descends into e, after noting what has to be known of the original operands.
func (r *rw) pre(e ast.Expr) {
	if x, ok := e.(*ast.CallExpr); ok && len(x.Args) == 1 && r.builtin(x.Fun) == "len" {
		argType[x] = r.typeOf(x.Args[0])
	}
	r.walk(reflect.ValueOf(e))
}

// recv2 rewrites `v, ok = <-c` right-hand sides.
func (r *rw) assign2(l, rr []ast.Expr) {
	if len(l) == 2 && len(rr) == 1 {
		x := rr[0]
		for {
			if p, ok := x.(*ast.ParenExpr); ok {
				x = p.X
				continue
			}
			break
		}
		// already rewritten to Recv(c)
		if c, ok := x.(*ast.CallExpr); ok {
			if s, ok := c.Fun.(*ast.SelectorExpr); ok {
				if id, ok := s.X.(*ast.Ident); ok && id.Name == "vrt__" && s.Sel.Name == "Recv" {
					s.Sel = ast.NewIdent("Recv2")
					rr[0] = c
				}
			}
		}
	}
}

// simple finishes a statement whose parts have been walked, one for one.
func (r *rw) simple(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case *ast.AssignStmt:
		r.assign2(x.Lhs, x.Rhs)
	case *ast.SendStmt:
		return expr(call(call(r.rt("SendTo"), x.Chan), x.Value))
	case *ast.LabeledStmt, *ast.BlockStmt:
	}
	return s
}

func (r *rw) list(in []ast.Stmt, entry bool) []ast.Stmt {
	var out []ast.Stmt
	if entry || len(in) == 0 {
		out = append(out, r.y())
	}
	for i, s := range in {
		if i > 0 || !entry {
			switch s.(type) {
			case *ast.EmptyStmt:
			default:
				out = append(out, r.y())
			}
		}
		out = append(out, r.stmt(s)...)
		out = append(out, r.afterwards(s)...)
	}
	if len(in) > 0 {
		switch in[len(in)-1].(type) {
		case *ast.ReturnStmt, *ast.BranchStmt:
		default:
			if !terminating(in[len(in)-1]) {
				out = append(out, r.y())
			}
		}
	}
	return out
}

// terminating is conservative: true for statements after which nothing may be added
// without upsetting "missing return".
func terminating(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.ExprStmt:
		if c, ok := x.X.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "panic" {
				return true
			}
		}
		return false
	case *ast.BlockStmt, *ast.IfStmt, *ast.ForStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt, *ast.LabeledStmt, *ast.DeclStmt:
		return true
	}
	return false
}

// stmt rewrites one statement of a list.
func (r *rw) stmt(s ast.Stmt) []ast.Stmt {
	switch x := s.(type) {
	case *ast.LabeledStmt:
		in := r.stmt(x.Stmt)
		x.Stmt = in[len(in)-1]
		return append(in[:len(in)-1:len(in)-1], x)
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.DeferStmt:
		if r.builtin(x.Call.Fun) == "close" {
			a := r.expr(x.Call.Args[0])
			x.Call = call(r.rt("Close"), a)
			return []ast.Stmt{x}
		}
		r.walk(reflect.ValueOf(x.Call))
		return []ast.Stmt{x}
	case *ast.SelectStmt:
		return r.selectStmt(x)
	case *ast.RangeStmt:
		return r.rangeStmt(x)
	case *ast.ForStmt:
		r.walk(reflect.ValueOf(x))
		return []ast.Stmt{x}
	case *ast.IncDecStmt:
		op := token.ADD
		if x.Tok == token.DEC {
			op = token.SUB
		}
		if sp := r.split(x.X, op, num(1)); sp != nil {
			return sp
		}
	case *ast.AssignStmt:
		if len(x.Lhs) == 1 && len(x.Rhs) == 1 {
			if op, ok := opOf[x.Tok]; ok {
				if sp := r.split(x.Lhs[0], op, x.Rhs[0]); sp != nil {
					return sp
				}
			} else if x.Tok == token.ASSIGN && r.shared(x.Lhs[0]) && pure(x.Lhs[0]) && r.typedVar(x.Rhs[0]) {
				r.walk(reflect.ValueOf(x.Lhs[0]))
				e := r.expr(x.Rhs[0])
				t := r.tmp()
				return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{define([]ast.Expr{t}, e), r.y(), set(r.wrapAs(x.Lhs[0], x.Lhs[0], "W"), t)}}}
			}
		}
	}
	r.walk(reflect.ValueOf(s))
	return []ast.Stmt{r.simple(s)}
}

var opOf = map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
	token.OR_ASSIGN: token.OR, token.AND_ASSIGN: token.AND, token.XOR_ASSIGN: token.XOR}

func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

// shared reports whether l is memory that other goroutines may reach.
func (r *rw) shared(l ast.Expr) bool {
	switch x := l.(type) {
	case *ast.SelectorExpr, *ast.StarExpr, *ast.IndexExpr:
		return true
	case *ast.Ident:
		if v, ok := r.info.Uses[x].(*types.Var); ok && v.Parent() != nil && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
			return true
		}
	}
	return false
}

// typedVar reports whether e has one value of a type that := keeps.
func (r *rw) typedVar(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	if !ok || tv.Value != nil || tv.IsNil() || !tv.IsValue() {
		return false
	}
	switch t := tv.Type.(type) {
	case *types.Tuple:
		return false
	case *types.Basic:
		return t.Info()&types.IsUntyped == 0
	}
	return true
}

// split turns `x.f op= e` on memory that may be shared into a load, a scheduling point
// and a store.
func (r *rw) split(l ast.Expr, op token.Token, e ast.Expr) []ast.Stmt {
	if !r.shared(l) || !pure(l) || !pure(e) {
		return nil
	}
	r.walk(reflect.ValueOf(l))
	e = r.expr(e)
	t := r.tmp()
	return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{
		define([]ast.Expr{t}, r.wrapAs(l, l, "R")),
		r.y(),
		set(r.wrapAs(l, l, "W"), &ast.BinaryExpr{X: t, Op: op, Y: &ast.ParenExpr{X: e}}),
	}}}
}

func (r *rw) goStmt(x *ast.GoStmt) []ast.Stmt {
	c := x.Call
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		r.walk(reflect.ValueOf(fl))
		return []ast.Stmt{expr(call(r.rt("Go"), fl))}
	}
	var pre []ast.Stmt
	var args []ast.Expr
	name := r.builtin(c.Fun)
	for _, a := range c.Args {
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() || tv.IsType() {
			args = append(args, a)
			continue
		}
		a = r.expr(a)
		t := r.tmp()
		pre = append(pre, define([]ast.Expr{t}, a))
		args = append(args, t)
	}
	fun := c.Fun
	if name == "" {
		inline := false
		switch f := fun.(type) {
		case *ast.Ident:
			_, inline = r.info.Uses[f].(*types.Func)
		case *ast.SelectorExpr:
			if _, isSel := r.info.Selections[f]; !isSel {
				inline = true
			}
		}
		if !inline {
			fun = r.expr(fun)
			t := r.tmp()
			pre = append([]ast.Stmt{define([]ast.Expr{t}, fun)}, pre...)
			fun = t
		}
	}
	cc := &ast.CallExpr{Fun: fun, Args: args}
	if c.Ellipsis.IsValid() {
		cc.Ellipsis = 1
	}
	var body ast.Expr = cc
	if name == "close" {
		body = call(r.rt("Close"), args...)
	}
	fl := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{expr(body)}}}
	return []ast.Stmt{&ast.BlockStmt{List: append(pre, expr(call(r.rt("Go"), fl)))}}
}

func (r *rw) selectStmt(x *ast.SelectStmt) []ast.Stmt {
	var lhs, rhs []ast.Expr
	var cl []ast.Stmt
	hasDef := "false"
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		body := r.list(cc.Body, true)
		if cc.Comm == nil {
			hasDef = "true"
			cl = append(cl, &ast.CaseClause{List: []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: num(1)}}, Body: body})
			continue
		}
		t := r.tmp()
		i := len(lhs)
		lhs = append(lhs, t)
		v := &ast.SelectorExpr{X: t, Sel: ast.NewIdent("V")}
		ok := &ast.SelectorExpr{X: t, Sel: ast.NewIdent("Ok")}
		recvOf := func(e ast.Expr) ast.Expr {
			for {
				p, isP := e.(*ast.ParenExpr)
				if !isP {
					break
				}
				e = p.X
			}
			u := e.(*ast.UnaryExpr)
			return call(r.rt("NewRecv"), r.expr(u.X))
		}
		switch m := cc.Comm.(type) {
		case *ast.SendStmt:
			rhs = append(rhs, call(call(r.rt("NewSend"), r.expr(m.Chan)), r.expr(m.Value)))
		case *ast.ExprStmt:
			rhs = append(rhs, recvOf(m.X))
		case *ast.AssignStmt:
			rhs = append(rhs, recvOf(m.Rhs[0]))
			a := &ast.AssignStmt{Lhs: m.Lhs, Tok: m.Tok, Rhs: []ast.Expr{v}}
			if len(m.Lhs) == 2 {
				a.Rhs = append(a.Rhs, ok)
			}
			for j := range a.Lhs {
				if m.Tok == token.ASSIGN {
					a.Lhs[j] = r.expr(a.Lhs[j])
				}
			}
			body = append([]ast.Stmt{a}, body...)
		default:
			die("select clause %T", m)
		}
		cl = append(cl, &ast.CaseClause{List: []ast.Expr{num(i)}, Body: body})
	}
	// a terminating select has to stay a terminating switch: its last clause becomes default
	if n := len(cl); n > 0 {
		cl[n-1].(*ast.CaseClause).List = nil
	} else {
		cl = append(cl, &ast.CaseClause{Body: []ast.Stmt{expr(call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}))}})
	}
	args := []ast.Expr{ast.NewIdent(hasDef)}
	for _, l := range lhs {
		args = append(args, l)
	}
	sw := &ast.SwitchStmt{Tag: call(r.rt("Select"), args...), Body: &ast.BlockStmt{List: cl}}
	if len(lhs) > 0 {
		sw.Init = define(lhs, rhs...)
	}
	return []ast.Stmt{sw}
}

func (r *rw) rangeStmt(x *ast.RangeStmt) []ast.Stmt {
	t := r.typeOf(x.X)
	isMap, isChan := false, false
	if t != nil {
		switch t.Underlying().(type) {
		case *types.Map:
			isMap = true
		case *types.Chan:
			isChan = true
		}
	}
	if !isMap && !isChan {
		r.walk(reflect.ValueOf(x))
		return []ast.Stmt{x}
	}
	src := r.expr(x.X)
	x.Body.List = r.list(x.Body.List, true)
	it := r.tmp()
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	vars := []ast.Expr{x.Key}
	fn := "ChanRange"
	if isMap {
		vars = []ast.Expr{x.Key, x.Value}
		fn = "MapRange"
	}
	lhs := []ast.Expr{it}
	var ptrs []ast.Expr
	var pre []ast.Stmt
	for _, v := range vars {
		switch {
		case blank(v):
			lhs = append(lhs, ast.NewIdent("_"))
			ptrs = append(ptrs, ast.NewIdent("nil"))
		case x.Tok == token.DEFINE:
			lhs = append(lhs, v)
			ptrs = append(ptrs, addr(v))
		default:
			tt := r.tmp()
			lhs = append(lhs, tt)
			ptrs = append(ptrs, addr(tt))
			pre = append(pre, set(r.expr(v), tt))
		}
	}
	x.Body.List = append(pre, x.Body.List...)
	return []ast.Stmt{&ast.ForStmt{Init: define(lhs, call(r.rt(fn), src)),
		Cond: call(&ast.SelectorExpr{X: it, Sel: ast.NewIdent("Next")}, ptrs...), Body: x.Body}}
}
