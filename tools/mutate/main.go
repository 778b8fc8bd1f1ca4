// Command mutate lists small changes to Go source files, as JSON lines: file, byte range,
// replacement, description. It is used to measure how sensitive the checks are.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type M struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	From  int    `json:"from"`
	To    int    `json:"to"`
	Text  string `json:"text"`
	What  string `json:"what"`
	Extra []E    `json:"extra,omitempty"`
}
type E struct {
	From, To int
	Text     string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		put := func(n ast.Node, t, what string) {
			_ = enc.Encode(M{File: f, Line: fs.Position(n.Pos()).Line, From: off(n.Pos()), To: off(n.End()), Text: t, What: what})
		}
		isLog := func(n ast.Node) bool {
			return strings.Contains(text(n), "logrus.") || strings.HasPrefix(text(n), "panic(\"implement")
		}
		var fn string
		ast.Inspect(af, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncDecl:
				fn = n.Name.Name
				if n.Body != nil && len(n.Body.List) == 1 && strings.Contains(text(n.Body), "panic(\"") {
					return false
				}
			case *ast.ImportSpec:
				return false
			case *ast.BlockStmt:
				for _, s := range n.List {
					if isLog(s) && !strings.Contains(text(s), "{") {
						continue
					}
					switch s := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.GoStmt:
						put(s, "", fn+": delete "+one(text(s)))
					case *ast.DeferStmt:
						put(s, "", fn+": delete "+one(text(s)))
						if strings.Contains(text(s), "nlock()") {
							put(s, strings.TrimPrefix(text(s), "defer "), fn+": no defer "+one(text(s)))
						}
					case *ast.AssignStmt:
						if s.Tok != token.DEFINE {
							put(s, blank(s, text), fn+": delete "+one(text(s)))
						}
					case *ast.BranchStmt:
						put(s, "", fn+": delete "+one(text(s)))
						if s.Tok == token.CONTINUE && s.Label == nil {
							put(s, "break", fn+": continue->break")
						}
					case *ast.IfStmt:
						if s.Else == nil {
							put(s, "if false {}", fn+": drop if "+one(text(s.Cond)))
							_ = 0
						}
					case *ast.ReturnStmt:
						if len(s.Results) > 0 && text(s.Results[len(s.Results)-1]) == "err" {
							l := s.Results[len(s.Results)-1]
							put(l, "nil", fn+": return nil error, "+one(text(s)))
						}
					}
				}
				// lock released early / lock pair removed
				for i := 0; i+1 < len(n.List); i++ {
					a, b := text(n.List[i]), text(n.List[i+1])
					if strings.HasSuffix(a, "ock()") && strings.HasPrefix(b, "defer ") && strings.HasSuffix(b, "nlock()") {
						_ = enc.Encode(M{File: f, Line: fs.Position(n.List[i].Pos()).Line, From: off(n.List[i].Pos()), To: off(n.List[i+1].End()), Text: "", What: fn + ": drop lock"})
						if strings.HasSuffix(a, ".Lock()") {
							_ = enc.Encode(M{File: f, Line: fs.Position(n.List[i].Pos()).Line, From: off(n.List[i].Pos()), To: off(n.List[i+1].End()), Text: strings.Replace(a, ".Lock", ".RLock", 1) + "\n" + strings.Replace(b, ".Unlock", ".RUnlock", 1), What: fn + ": Lock->RLock"})
						}
						if i+2 < len(n.List) {
							_ = enc.Encode(M{File: f, Line: fs.Position(n.List[i].Pos()).Line, From: off(n.List[i].Pos()), To: off(n.List[i+2].End()), Text: text(n.List[i+2]) + "\n" + a + "\n" + b, What: fn + ": first statement before lock"})
							_ = enc.Encode(M{File: f, Line: fs.Position(n.List[i].Pos()).Line, From: off(n.List[i].Pos()), To: off(n.List[i+2].End()), Text: a + "\n" + text(n.List[i+2]) + "\n" + strings.TrimPrefix(b, "defer "), What: fn + ": unlock after first statement"})
							_ = enc.Encode(M{File: f, Line: fs.Position(n.List[i].Pos()).Line, From: off(n.List[i].Pos()), To: off(n.List[i+2].End()), Text: a + "\n" + text(n.List[i+2]) + "\n" + strings.TrimPrefix(b, "defer ") + "\n" + a + "\n" + b, What: fn + ": relock after first statement"})
						}
					}
				}
				// swap adjacent simple statements
				for i := 0; i+1 < len(n.List); i++ {
					if simple(n.List[i]) && simple(n.List[i+1]) && !isLog(n.List[i]) && !isLog(n.List[i+1]) {
						a, b := text(n.List[i]), text(n.List[i+1])
						mid := string(src[off(n.List[i].End()):off(n.List[i+1].Pos())])
						_ = enc.Encode(M{File: f, Line: fs.Position(n.List[i].Pos()).Line, From: off(n.List[i].Pos()), To: off(n.List[i+1].End()), Text: b + mid + a, What: fn + ": swap " + one(a) + " / " + one(b)})
					}
				}
			case *ast.CaseClause:
				if len(n.Body) > 0 && n.List != nil {
					put(n, "", fn+": drop case "+one(text(n)))
					if len(n.List) > 1 {
						for i, e := range n.List {
							var keep []string
							for j, o := range n.List {
								if j != i {
									keep = append(keep, text(o))
								}
							}
							_ = enc.Encode(M{File: f, Line: fs.Position(e.Pos()).Line, From: off(n.List[0].Pos()), To: off(n.List[len(n.List)-1].End()), Text: strings.Join(keep, ", "), What: fn + ": drop label " + text(e)})
						}
					}
				}
			case *ast.CommClause:
				if n.Comm != nil {
					put(n, "", fn+": drop comm "+one(text(n)))
				}
			case *ast.IfStmt:
				c := n.Cond
				put(c, "!("+text(c)+")", fn+": negate "+one(text(c)))
			case *ast.BinaryExpr:
				alt := map[token.Token][]string{token.LSS: {"<=", ">"}, token.LEQ: {"<", "=="}, token.GTR: {">=", "<"}, token.GEQ: {">", "=="},
					token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.QUO: {"*"}, token.REM: {"/"}}
				for _, o := range alt[n.Op] {
					if n.Op == token.ADD && (strings.Contains(text(n), "\"") || strings.Contains(text(n), "MessageEOF")) {
						continue
					}
					_ = enc.Encode(M{File: f, Line: fs.Position(n.OpPos).Line, From: off(n.OpPos), To: off(n.OpPos) + len(n.Op.String()), Text: o, What: fn + ": " + n.Op.String() + "->" + o + " in " + one(text(n))})
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					put(n, text(n.X), fn+": keep left of "+one(text(n)))
					put(n, text(n.Y), fn+": keep right of "+one(text(n)))
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					v, err := strconv.ParseInt(n.Value, 0, 64)
					if err == nil {
						put(n, fmt.Sprint(v+1), fn+": "+n.Value+" -> "+fmt.Sprint(v+1))
						if v > 0 {
							put(n, fmt.Sprint(v-1), fn+": "+n.Value+" -> "+fmt.Sprint(v-1))
						}
					}
				}
				if n.Kind == token.STRING && len(n.Value) > 2 && !strings.ContainsAny(n.Value, " ,\\") {
					put(n, `"zz"`, fn+": "+n.Value+" -> zz")
				}
			case *ast.CallExpr:
				if isLog(n) {
					return false
				}
				if strings.HasPrefix(text(n.Fun), "errors.New") {
					return false
				}
				for i := 0; i+1 < len(n.Args); i++ {
					a, b := n.Args[i], n.Args[i+1]
					if text(a) == text(b) || n.Ellipsis != 0 {
						continue
					}
					_ = enc.Encode(M{File: f, Line: fs.Position(a.Pos()).Line, From: off(a.Pos()), To: off(b.End()), Text: text(b) + ", " + text(a), What: fn + ": swap args " + one(text(n))})
				}
				if s, ok := n.Fun.(*ast.SelectorExpr); ok {
					r := map[string]string{"LoadOrStore": "", "Uint32": "Uint16", "Uint64": "Uint32", "ReadFull": "", "HasPrefix": "Contains", "ToLower": "ToUpper", "Milliseconds": ""}[s.Sel.Name]
					if r != "" {
						put(s.Sel, r, fn+": "+s.Sel.Name+"->"+r)
					}
					if text(n.Fun) == "io.ReadFull" {
						put(n, text(n.Args[0])+".Read("+text(n.Args[1])+")", fn+": ReadFull->Read")
					}
					if strings.HasPrefix(text(n.Fun), "strings.ToLower") {
						put(n, text(n.Args[0]), fn+": no ToLower")
					}
				}
				if id, ok := n.Fun.(*ast.Ident); ok && len(n.Args) == 1 {
					switch id.Name {
					case "int64", "uint64", "int":
						put(n, id.Name+"(int32("+text(n.Args[0])+"))", fn+": truncate "+one(text(n)))
					case "tryInt64":
						put(n, text(n.Args[0]), fn+": no tryInt64")
					case "int16", "int32":
						put(n, text(n.Args[0]), fn+": no "+id.Name)
					}
				}
			case *ast.Ident:
				if n.Name == "true" {
					put(n, "false", fn+": true->false")
				} else if n.Name == "false" {
					put(n, "true", fn+": false->true")
				}
			}
			return true
		})
	}
}

func simple(s ast.Stmt) bool {
	switch s.(type) {
	case *ast.ExprStmt, *ast.AssignStmt, *ast.IncDecStmt, *ast.GoStmt, *ast.SendStmt, *ast.DeferStmt:
		return true
	}
	return false
}

func blank(s *ast.AssignStmt, text func(ast.Node) string) string {
	if s.Tok != token.ASSIGN {
		return ""
	}
	var l []string
	for _, r := range s.Rhs {
		l = append(l, text(r))
	}
	for _, r := range s.Rhs {
		if id, ok := r.(*ast.Ident); ok && id.Name == "nil" {
			return ""
		}
	}
	_ = l
	return ""
}

func one(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 70 {
		s = s[:70] + "..."
	}
	return s
}
