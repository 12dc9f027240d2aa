// Command instrument rewrites a scratch copy of the library so that its goroutines, channel
// operations, locks, atomics, timers and sockets go through the controlled scheduler.
package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
)

const base = "github.com/sttp/goapi/vdrv/"

var shims = map[string][2]string{
	"sync":                       {"sync", "vsync"},
	"sync/atomic":                {"atomic", "vatomic"},
	"time":                       {"time", "vtime"},
	"net":                        {"net", "vnet"},
	"context":                    {"context", "vcontext"},
	"github.com/tevino/abool/v2": {"abool", "vabool"},
	"github.com/tevino/abool":    {"abool", "vabool"},
}

var fset *token.FileSet
var yields bool
var used bool
var tmp int

func main() {
	root := flag.String("root", "", "")
	y := flag.Bool("yields", false, "")
	flag.Parse()
	sttp := filepath.Join(*root, "sttp")
	err := filepath.Walk(sttp, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(sttp, p)
		if info.IsDir() {
			if rel == "data" || rel == "xml" || rel == "version" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") {
			return nil
		}
		dir := filepath.Dir(rel)
		yields = *y && (dir == "." || dir == "transport" || dir == "thread" || !strings.Contains(" guid hashset format ticks transport/tssc metadata ", " "+dir+" "))
		return file(p)
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func file(p string) error {
	fset = token.NewFileSet()
	f, err := parser.ParseFile(fset, p, nil, parser.SkipObjectResolution)
	if err != nil {
		return err
	}
	used = false
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		if sh, ok := shims[path]; ok {
			if im.Name == nil {
				im.Name = ast.NewIdent(sh[0])
			}
			im.Path.Value = strconv.Quote(base + sh[1])
		}
	}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			block(fd.Body)
		} else if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
			rewrite(reflect.ValueOf(gd))
		}
	}
	if used {
		spec := &ast.ImportSpec{Name: ast.NewIdent("vsched"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(base + "vsched")}}
		decl := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
		f.Decls = append([]ast.Decl{decl}, f.Decls...)
	}
	out, err := os.Create(p)
	if err != nil {
		return err
	}
	defer out.Close()
	return format.Node(out, fset, f)
}

func call(name string, args ...ast.Expr) *ast.CallExpr {
	used = true
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("vsched"), Sel: ast.NewIdent(name)}, Args: args}
}

func block(b *ast.BlockStmt) {
	if b != nil {
		b.List = stmts(b.List)
	}
}

func stmts(l []ast.Stmt) []ast.Stmt {
	var r []ast.Stmt
	for _, s := range l {
		if yields {
			if _, decl := s.(*ast.DeclStmt); !decl {
				r = append(r, &ast.ExprStmt{X: call("Y")})
			}
		}
		r = append(r, stmt(s))
	}
	return r
}

func isRecv(e ast.Expr) (ast.Expr, bool) {
	for {
		if p, ok := e.(*ast.ParenExpr); ok {
			e = p.X
			continue
		}
		break
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u.X, true
	}
	return nil, false
}

func stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		block(x)
		return x
	case *ast.LabeledStmt:
		x.Stmt = stmt(x.Stmt)
		return x
	case *ast.IfStmt:
		x.Init = stmt(x.Init)
		x.Cond = expr(x.Cond)
		block(x.Body)
		x.Else = stmt(x.Else)
		return x
	case *ast.ForStmt:
		x.Init = stmt(x.Init)
		if x.Cond != nil {
			x.Cond = expr(x.Cond)
		}
		x.Post = stmt(x.Post)
		block(x.Body)
		if yields {
			x.Body.List = append([]ast.Stmt{&ast.ExprStmt{X: call("Y")}}, x.Body.List...)
		}
		return x
	case *ast.RangeStmt:
		x.X = expr(x.X)
		block(x.Body)
		return x
	case *ast.SwitchStmt:
		x.Init = stmt(x.Init)
		if x.Tag != nil {
			x.Tag = expr(x.Tag)
		}
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			for i := range cc.List {
				cc.List[i] = expr(cc.List[i])
			}
			cc.Body = stmts(cc.Body)
		}
		return x
	case *ast.TypeSwitchStmt:
		x.Init = stmt(x.Init)
		x.Assign = stmt(x.Assign)
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = stmts(cc.Body)
		}
		return x
	case *ast.SelectStmt:
		return sel(x)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call("Send", expr(x.Chan), expr(x.Value))}
	case *ast.GoStmt:
		return goStmt(x)
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if ch, ok := isRecv(x.Rhs[0]); ok {
				x.Rhs[0] = call("Recv2", expr(ch))
				return x
			}
		}
	}
	rewrite(reflect.ValueOf(s))
	return s
}

func goStmt(x *ast.GoStmt) ast.Stmt {
	pos := fset.Position(x.Pos())
	name := &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(filepath.Base(pos.Filename) + ":" + strconv.Itoa(pos.Line))}
	c := x.Call
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		block(fl.Body)
		return &ast.ExprStmt{X: call("GoNamed", name, fl)}
	}
	tmp++
	var list []ast.Stmt
	hoist := func(e ast.Expr, suffix string) ast.Expr {
		switch y := e.(type) {
		case *ast.BasicLit:
			return y
		case *ast.Ident:
			if y.Name == "nil" || y.Name == "true" || y.Name == "false" {
				return y
			}
		}
		id := ast.NewIdent("__v" + strconv.Itoa(tmp) + suffix)
		list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{expr(e)}})
		return id
	}
	fun := hoist(c.Fun, "f")
	var args []ast.Expr
	for i, a := range c.Args {
		args = append(args, hoist(a, "a"+strconv.Itoa(i)))
	}
	ell := token.NoPos
	if c.Ellipsis != token.NoPos {
		ell = token.Pos(1)
	}
	body := &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: fun, Args: args, Ellipsis: ell}}}}
	list = append(list, &ast.ExprStmt{X: call("GoNamed", name, &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: body})})
	return &ast.BlockStmt{List: list}
}

func sel(x *ast.SelectStmt) ast.Stmt {
	tmp++
	var names, makes []ast.Expr
	hasDefault := "false"
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		body := stmts(cc.Body)
		if cc.Comm == nil {
			hasDefault = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: body})
			continue
		}
		i := len(names)
		id := ast.NewIdent("__s" + strconv.Itoa(tmp) + "_" + strconv.Itoa(i))
		var mk ast.Expr
		switch y := cc.Comm.(type) {
		case *ast.SendStmt:
			mk = call("NewSend", expr(y.Chan), expr(y.Value))
		case *ast.ExprStmt:
			ch, _ := isRecv(y.X)
			mk = call("NewRecv", expr(ch))
		case *ast.AssignStmt:
			ch, _ := isRecv(y.Rhs[0])
			mk = call("NewRecv", expr(ch))
			rhs := []ast.Expr{&ast.SelectorExpr{X: id, Sel: ast.NewIdent("V")}}
			if len(y.Lhs) == 2 {
				rhs = append(rhs, &ast.SelectorExpr{X: id, Sel: ast.NewIdent("Ok")})
			}
			body = append([]ast.Stmt{&ast.AssignStmt{Lhs: y.Lhs, Tok: y.Tok, Rhs: rhs}}, body...)
		}
		names = append(names, id)
		makes = append(makes, mk)
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)}}, Body: body})
	}
	if hasDefault == "false" && len(sw.Body.List) > 0 {
		sw.Body.List[len(sw.Body.List)-1].(*ast.CaseClause).List = nil
	}
	if len(names) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: names, Tok: token.DEFINE, Rhs: makes}
	}
	sw.Tag = call("Select", append([]ast.Expr{ast.NewIdent(hasDefault)}, names...)...)
	return sw
}

func expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	if ch, ok := isRecv(e); ok {
		return call("Recv", expr(ch))
	}
	if fl, ok := e.(*ast.FuncLit); ok {
		block(fl.Body)
		return fl
	}
	if c, ok := e.(*ast.CallExpr); ok {
		if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "close" && len(c.Args) == 1 {
			return call("Close", expr(c.Args[0]))
		}
	}
	rewrite(reflect.ValueOf(e))
	return e
}

var exprT = reflect.TypeOf((*ast.Expr)(nil)).Elem()
var stmtT = reflect.TypeOf((*ast.Stmt)(nil)).Elem()

// rewrite applies expr and stmt to the children of a node.
func rewrite(v reflect.Value) {
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return
		}
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if !f.CanSet() {
			continue
		}
		child(f)
	}
}

func child(f reflect.Value) {
	switch {
	case f.Type() == exprT:
		if !f.IsNil() {
			f.Set(reflect.ValueOf(expr(f.Interface().(ast.Expr))))
		}
	case f.Type() == stmtT:
		if !f.IsNil() {
			f.Set(reflect.ValueOf(stmt(f.Interface().(ast.Stmt))))
		}
	case f.Kind() == reflect.Slice:
		for i := 0; i < f.Len(); i++ {
			child(f.Index(i))
		}
	case f.Kind() == reflect.Interface:
		if !f.IsNil() {
			if n, ok := f.Interface().(ast.Node); ok {
				rewrite(reflect.ValueOf(n))
			}
		}
	case f.Kind() == reflect.Ptr:
		if f.IsNil() {
			return
		}
		switch n := f.Interface().(type) {
		case *ast.BlockStmt:
			block(n)
		case *ast.CallExpr:
			rewrite(f)
		case *ast.FuncType, *ast.FieldList, *ast.Ident, *ast.Object, *ast.Scope, *ast.CommentGroup, *ast.BasicLit:
		default:
			if _, ok := f.Interface().(ast.Node); ok {
				rewrite(f)
			}
		}
	}
}
