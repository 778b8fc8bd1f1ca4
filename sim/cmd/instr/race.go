package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"path/filepath"
	"strconv"
)

// This file decides which expressions of the original source are accesses to memory that
// goroutines may share: fields, elements and targets of pointers, package variables, and
// local variables that a closure captures or whose address is taken. They are wrapped in
// calls of rt.R, rt.W, ... which feed the data race detector and change nothing else.

type kind int

const (
	none kind = iota
	rd        // *R(&e)
	wr        // *W(&e)
	rdwr
	rdMap   // RM(e)
	wrMap   // WM(e)
	rdWhole // *R(e), for a value method called through a pointer
	object  // O(e)
)

type marks struct {
	info   *types.Info
	module string
	shared map[types.Object]bool
	m      map[ast.Expr]kind
	after  map[ast.Stmt][]ast.Expr // written by the statement, noted behind it
	at     map[ast.Expr]token.Pos
}

func newMarks(info *types.Info, module string) *marks {
	return &marks{info: info, module: module, shared: map[types.Object]bool{}, m: map[ast.Expr]kind{}, after: map[ast.Stmt][]ast.Expr{}, at: map[ast.Expr]token.Pos{}}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// file finds the shared locals of a file, then marks its accesses.
func (k *marks) file(f *ast.File) {
	for _, d := range f.Decls {
		k.capture(d)
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body != nil {
				k.stmt(d.Body)
			}
		}
	}
	for e := range k.m {
		k.at[e] = e.Pos()
	}
	for _, l := range k.after {
		for _, e := range l {
			k.at[e] = e.Pos()
		}
	}
}

func (k *marks) root(e ast.Expr) types.Object {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
		case *ast.SelectorExpr:
			if s, ok := k.info.Selections[x]; !ok || s.Kind() != types.FieldVal || s.Indirect() {
				return nil
			}
			e = x.X
		case *ast.IndexExpr:
			if t := k.info.Types[x.X].Type; t == nil {
				return nil
			} else if _, ok := t.Underlying().(*types.Array); !ok {
				return nil
			}
			e = x.X
		case *ast.Ident:
			return k.obj(x)
		default:
			return nil
		}
	}
}

func (k *marks) obj(x *ast.Ident) types.Object {
	if o := k.info.Uses[x]; o != nil {
		return o
	}
	return k.info.Defs[x]
}

// capture finds local variables that closures use or whose address is taken.
func (k *marks) capture(d ast.Node) {
	var lits []*ast.FuncLit
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			lits = append(lits, x)
			ast.Inspect(x.Type, visit)
			ast.Inspect(x.Body, visit)
			lits = lits[:len(lits)-1]
			return false
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				if o := k.root(x.X); o != nil {
					k.shared[o] = true
				}
			}
		case *ast.SliceExpr:
			if t := k.info.Types[x.X].Type; t != nil {
				if _, ok := t.Underlying().(*types.Array); ok {
					if o := k.root(x.X); o != nil {
						k.shared[o] = true
					}
				}
			}
		case *ast.SelectorExpr:
			if s, ok := k.info.Selections[x]; ok && s.Kind() == types.MethodVal {
				if sig, ok := s.Obj().Type().(*types.Signature); ok && sig.Recv() != nil {
					_, ptr := sig.Recv().Type().(*types.Pointer)
					t := k.info.Types[x.X].Type
					if t != nil && ptr {
						if _, isPtr := t.Underlying().(*types.Pointer); !isPtr {
							if o := k.root(x.X); o != nil {
								k.shared[o] = true
							}
						}
					}
				}
			}
		case *ast.Ident:
			if len(lits) > 0 {
				if v, ok := k.info.Uses[x].(*types.Var); ok && !v.IsField() && v.Pos().IsValid() {
					l := lits[len(lits)-1]
					if v.Pos() < l.Pos() || v.Pos() > l.End() {
						k.shared[v] = true
					}
				}
			}
		}
		return true
	}
	ast.Inspect(d, visit)
}

func (k *marks) isShared(o types.Object) bool {
	v, ok := o.(*types.Var)
	if !ok || v.IsField() || v.Name() == "_" {
		return false
	}
	if v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
		return k.inModule(v.Pkg().Path())
	}
	return k.shared[v]
}

func (k *marks) inModule(p string) bool {
	return p == k.module || len(p) > len(k.module) && p[:len(k.module)+1] == k.module+"/"
}

func (k *marks) typ(e ast.Expr) types.Type {
	if tv, ok := k.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := k.obj(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func isPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func (k *marks) exprs(l []ast.Expr) {
	for _, e := range l {
		k.use(e, rd)
	}
}

// use marks e, used in the given way, and everything below it. none means that e's
// address is wanted, or only its type.
func (k *marks) use(e ast.Expr, how kind) {
	switch x := e.(type) {
	case nil:
	case *ast.ParenExpr:
		k.use(x.X, how)
	case *ast.Ident:
		if how != none && k.isShared(k.info.Uses[x]) {
			k.m[x] = how
		}
	case *ast.SelectorExpr:
		k.selector(x, how)
	case *ast.StarExpr:
		tv := k.info.Types[x]
		if tv.IsType() {
			return
		}
		k.use(x.X, rd)
		if how != none {
			k.m[x] = how
		}
	case *ast.IndexExpr:
		if !k.info.Types[x].IsValue() {
			return
		}
		t := k.typ(x.X)
		if t == nil {
			return
		}
		k.use(x.Index, rd)
		switch u := t.Underlying().(type) {
		case *types.Map:
			switch how {
			case wr, rdwr:
				k.mapUse(x.X, wrMap)
			default:
				k.mapUse(x.X, rdMap)
			}
		case *types.Slice:
			k.use(x.X, rd)
			if how != none {
				k.m[x] = how
			}
		case *types.Pointer:
			k.use(x.X, rd)
			if how != none {
				k.m[x] = how
			}
		case *types.Array:
			_ = u
			if k.info.Types[x].Addressable() {
				k.use(x.X, none)
				if how != none && k.reachable(x.X) {
					k.m[x] = how
				}
			} else {
				k.use(x.X, rd)
			}
		default:
			k.use(x.X, rd)
		}
	case *ast.SliceExpr:
		how := rd
		if t := k.typ(x.X); t != nil {
			if _, ok := t.Underlying().(*types.Array); ok {
				how = none
			}
		}
		k.use(x.X, how)
		k.use(x.Low, rd)
		k.use(x.High, rd)
		k.use(x.Max, rd)
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			k.use(x.X, none)
			return
		}
		k.use(x.X, rd)
	case *ast.BinaryExpr:
		k.use(x.X, rd)
		k.use(x.Y, rd)
	case *ast.CallExpr:
		k.call(x)
	case *ast.CompositeLit:
		t := k.typ(x)
		for _, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if isMap(t) {
					k.use(kv.Key, rd)
				}
				k.use(kv.Value, rd)
				continue
			}
			k.use(el, rd)
		}
	case *ast.KeyValueExpr:
		k.use(x.Value, rd)
	case *ast.TypeAssertExpr:
		k.use(x.X, rd)
	case *ast.FuncLit:
		k.stmt(x.Body)
	}
}

// reachable reports whether an addressable value may be reached by another goroutine.
func (k *marks) reachable(e ast.Expr) bool {
	if o := k.root(e); o != nil {
		return k.isShared(o)
	}
	return true
}

func (k *marks) mapUse(e ast.Expr, how kind) {
	k.use(e, rd)
	k.also(e, how)
}

// also adds a second wrapping around one already marked.
func (k *marks) also(e ast.Expr, how kind) {
	e = unparen(e)
	k.m[e] = k.m[e] | how<<8
}

func (k *marks) selector(x *ast.SelectorExpr, how kind) {
	s, ok := k.info.Selections[x]
	if !ok { // package-qualified
		if v, ok := k.info.Uses[x.Sel].(*types.Var); ok && how != none && k.isShared(v) {
			k.m[x] = how
		}
		return
	}
	switch s.Kind() {
	case types.FieldVal:
		t := k.typ(x.X)
		if isPtr(t) {
			k.use(x.X, rd)
			if how != none {
				k.m[x] = how
			}
			return
		}
		if k.info.Types[x].Addressable() {
			k.use(x.X, none)
			if how != none && (s.Indirect() || k.reachable(x.X)) {
				k.m[x] = how
			}
			return
		}
		k.use(x.X, rd)
	case types.MethodVal:
		t := k.typ(x.X)
		sig, _ := s.Obj().Type().(*types.Signature)
		if sig == nil || sig.Recv() == nil || t == nil {
			k.use(x.X, rd)
			return
		}
		if _, isI := t.Underlying().(*types.Interface); isI {
			k.use(x.X, rd)
			return
		}
		_, wantPtr := sig.Recv().Type().(*types.Pointer)
		switch {
		case wantPtr && isPtr(t):
			k.use(x.X, rd)
			if unsafeObject(t) {
				k.also(x.X, object)
			}
		case wantPtr:
			k.use(x.X, none)
		case isPtr(t):
			k.use(x.X, rd)
			if len(s.Index()) == 1 {
				k.also(x.X, rdWhole)
			}
		default:
			k.use(x.X, rd)
		}
	default:
		return
	}
}

// unsafeObject: library types with state that is not protected against concurrent use.
func unsafeObject(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "bufio.Reader", "bufio.Writer", "bufio.ReadWriter", "bufio.Scanner", "bytes.Buffer", "strings.Builder", "container/list.List":
		return true
	}
	return false
}

func (k *marks) call(x *ast.CallExpr) {
	tv := k.info.Types[x.Fun]
	if tv.IsType() {
		k.exprs(x.Args)
		return
	}
	if tv.IsBuiltin() {
		name := ""
		if id, ok := unparen(x.Fun).(*ast.Ident); ok {
			name = id.Name
		}
		switch name {
		case "new", "make":
			k.exprs(x.Args[1:])
			return
		case "delete":
			k.mapUse(x.Args[0], wrMap)
			k.exprs(x.Args[1:])
			return
		case "len":
			if isMap(k.typ(x.Args[0])) {
				k.mapUse(x.Args[0], rdMap)
				return
			}
		case "clear":
			if isMap(k.typ(x.Args[0])) {
				k.mapUse(x.Args[0], wrMap)
				return
			}
		}
		k.exprs(x.Args)
		return
	}
	k.use(x.Fun, rd)
	k.exprs(x.Args)
}

func (k *marks) stmts(l []ast.Stmt) {
	for _, s := range l {
		k.stmt(s)
	}
}

func (k *marks) stmt(s ast.Stmt) {
	switch x := s.(type) {
	case nil:
	case *ast.BlockStmt:
		if x != nil {
			k.stmts(x.List)
		}
	case *ast.ExprStmt:
		k.use(x.X, rd)
	case *ast.SendStmt:
		k.use(x.Chan, rd)
		k.use(x.Value, rd)
	case *ast.IncDecStmt:
		k.use(x.X, rdwr)
	case *ast.AssignStmt:
		k.exprs(x.Rhs)
		if x.Tok == token.DEFINE {
			for _, l := range x.Lhs {
				// a redeclared variable that closures share is written here
				if id, ok := l.(*ast.Ident); ok && k.info.Defs[id] == nil && k.isShared(k.info.Uses[id]) {
					k.after[s] = append(k.after[s], id)
				}
			}
			return
		}
		how := wr
		if x.Tok != token.ASSIGN {
			how = rdwr
		}
		calls := false
		for _, e := range x.Rhs {
			calls = calls || !pure(e)
		}
		for _, l := range x.Lhs {
			if id, ok := unparen(l).(*ast.Ident); ok && id.Name == "_" {
				continue
			}
			if calls && how == wr && pure(l) && noIndex(l) {
				// what is called may synchronise: the write comes after it
				k.use(l, none)
				tmp := newMarks(k.info, k.module)
				tmp.shared = k.shared
				tmp.use(l, wr)
				if tmp.m[unparen(l)]&0xff == wr {
					k.after[s] = append(k.after[s], l)
				}
				continue
			}
			k.use(l, how)
		}
	case *ast.GoStmt:
		k.call(x.Call)
	case *ast.DeferStmt:
		k.call(x.Call)
	case *ast.ReturnStmt:
		k.exprs(x.Results)
	case *ast.IfStmt:
		k.stmt(x.Init)
		k.use(x.Cond, rd)
		k.stmt(x.Body)
		k.stmt(x.Else)
	case *ast.ForStmt:
		k.stmt(x.Init)
		k.use(x.Cond, rd)
		k.stmt(x.Post)
		k.stmt(x.Body)
	case *ast.RangeStmt:
		t := k.typ(x.X)
		if isMap(t) {
			k.mapUse(x.X, rdMap)
		} else if _, arr := typeUnder(t).(*types.Array); arr {
			k.use(x.X, none)
		} else {
			k.use(x.X, rd)
		}
		if x.Tok == token.ASSIGN {
			if x.Key != nil {
				k.use(x.Key, none)
			}
			if x.Value != nil {
				k.use(x.Value, none)
			}
		}
		k.stmt(x.Body)
	case *ast.SwitchStmt:
		k.stmt(x.Init)
		k.use(x.Tag, rd)
		k.stmt(x.Body)
	case *ast.TypeSwitchStmt:
		k.stmt(x.Init)
		switch a := x.Assign.(type) {
		case *ast.AssignStmt:
			k.exprs(a.Rhs)
		case *ast.ExprStmt:
			k.use(a.X, rd)
		}
		k.stmt(x.Body)
	case *ast.CaseClause:
		for _, e := range x.List {
			if tv, ok := k.info.Types[e]; ok && tv.IsType() {
				continue
			}
			k.use(e, rd)
		}
		k.stmts(x.Body)
	case *ast.SelectStmt:
		k.stmt(x.Body)
	case *ast.CommClause:
		switch c := x.Comm.(type) {
		case *ast.SendStmt:
			k.stmt(c)
		case *ast.ExprStmt:
			k.stmt(c)
		case *ast.AssignStmt:
			k.exprs(c.Rhs)
		}
		k.stmts(x.Body)
	case *ast.LabeledStmt:
		k.stmt(x.Stmt)
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if v, ok := sp.(*ast.ValueSpec); ok {
					k.exprs(v.Values)
				}
			}
		}
	}
}

func typeUnder(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func noIndex(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		if _, is := n.(*ast.IndexExpr); is {
			ok = false
		}
		return ok
	})
	return ok
}

func (r *rw) site(e ast.Expr) ast.Expr {
	p := r.fset.Position(r.marks.at[e])
	rel, err := filepath.Rel(r.repo, p.Filename)
	if err != nil {
		rel = p.Filename
	}
	return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(fmt.Sprintf("%s:%d", rel, p.Line))}
}

func star(e ast.Expr) ast.Expr { return &ast.ParenExpr{X: &ast.StarExpr{X: e}} }

// wrap puts the calls that orig is marked with around e (what orig has become).
func (r *rw) wrap(orig, e ast.Expr) ast.Expr {
	k := r.marks.m[orig]
	if k == none {
		return e
	}
	switch k & 0xff {
	case rd:
		e = star(call(r.rt("R"), addr(e), r.site(orig)))
	case wr:
		e = star(call(r.rt("W"), addr(e), r.site(orig)))
	case rdwr:
		e = star(call(r.rt("W"), call(r.rt("R"), addr(e), r.site(orig)), r.site(orig)))
	}
	switch k >> 8 {
	case rdMap:
		e = call(r.rt("RM"), e, r.site(orig))
	case wrMap:
		e = call(r.rt("WM"), e, r.site(orig))
	case rdWhole:
		e = star(call(r.rt("R"), e, r.site(orig)))
	case object:
		e = call(r.rt("O"), e, r.site(orig))
	}
	return e
}

// wrapAs is wrap with the access given.
func (r *rw) wrapAs(orig, e ast.Expr, fn string) ast.Expr {
	if k := r.marks.m[orig] & 0xff; k == none {
		return e
	}
	return star(call(r.rt(fn), addr(e), r.site(orig)))
}

// afterwards notes the writes of a statement behind it.
func (r *rw) afterwards(s ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, l := range r.marks.after[s] {
		site := r.site(l)
		fl := call(r.rt("WA"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{},
			Results: &ast.FieldList{List: []*ast.Field{{Type: ast.NewIdent("any")}}}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{addr(l)}}}}}, site)
		out = append(out, expr(fl))
	}
	return out
}
