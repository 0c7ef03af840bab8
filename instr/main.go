// Command finchinstr rewrites packages of the finch source tree (read from the
// current working tree, never modified) so that a cooperative scheduler
// (finchverif/vsched) owns every source of nondeterminism in them:
//
//   - a scheduling point before every statement that can touch shared state
//   - mutexes become TryLock loops that yield to the scheduler
//   - channel operations and selects go through the scheduler (select order is
//     a recorded choice instead of the runtime's pseudo-random one)
//   - field read-modify-write statements (x.f += e, x.f++) are split in two
//   - map iteration order is a recorded choice (sorted by default)
//   - go statements register the new goroutine with the scheduler
//   - math/rand goes to stand-ins through which the harness chooses the values
//   - sql.Open, http.Server.ListenAndServe/Serve, net.Listen, signal.Notify,
//     log.Fatal* and os.Exit go to stand-ins the harness owns
//
// It works from types only: nothing depends on names used in finch.
//
// Output: DIR/<pkg>/<file>.go and DIR/overlay.json for go build -overlay.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"log"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
)

var (
	repo   = flag.String("repo", "/repo", "finch source tree")
	out    = flag.String("out", "", "output dir")
	points = flag.String("points", "", "comma-separated package dirs to instrument with scheduling points")
	tight  = flag.Bool("tight", false, "loops without calls are one step")
	ops    = flag.String("ops", "", "comma-separated package dirs to instrument without scheduling points (operations only)")
)

const rt = "vsched"

func main() {
	flag.Parse()
	log.SetFlags(0)
	want := map[string]bool{} // dir -> with points
	pats := []string{}
	add := func(list string, pts bool) {
		for _, p := range strings.Split(list, ",") {
			if p == "" {
				continue
			}
			want[filepath.Join(*repo, p)] = pts
			pats = append(pats, "./"+p)
		}
	}
	add(*ops, false)
	add(*points, true)
	overlay := map[string]string{}
	if len(pats) > 0 {
		fset := token.NewFileSet()
		cfg := &packages.Config{
			Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
				packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile,
			Dir:  *repo,
			Fset: fset,
			ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
				return parser.ParseFile(fset, filename, src, parser.SkipObjectResolution)
			},
		}
		pkgs, err := packages.Load(cfg, pats...)
		if err != nil {
			log.Fatal(err)
		}
		for _, p := range pkgs {
			for _, e := range p.Errors {
				log.Fatalf("instr: %s: %v", p.PkgPath, e)
			}
			for i, f := range p.Syntax {
				name := p.CompiledGoFiles[i]
				dir := filepath.Dir(name)
				pts, ok := want[dir]
				if !ok {
					continue
				}
				in := &instr{fset: fset, info: p.TypesInfo, pkg: p.Types, pts: pts, file: f}
				in.run()
				var buf bytes.Buffer
				if err := format.Node(&buf, fset, f); err != nil {
					log.Fatalf("instr: %s: %v", name, err)
				}
				rel, _ := filepath.Rel(*repo, name)
				dst := filepath.Join(*out, rel)
				os.MkdirAll(filepath.Dir(dst), 0755)
				if err := os.WriteFile(dst, buf.Bytes(), 0644); err != nil {
					log.Fatal(err)
				}
				overlay[name] = dst
			}
		}
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0644); err != nil {
		log.Fatal(err)
	}
}

type instr struct {
	fset *token.FileSet
	info *types.Info
	pkg  *types.Package
	pts  bool
	file *ast.File
	used bool
	tmp  int
}

func (in *instr) run() {
	for _, d := range in.file.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body != nil {
				in.block(d.Body)
			}
		case *ast.GenDecl:
			if d.Tok == token.VAR {
				for _, s := range d.Specs {
					vs := s.(*ast.ValueSpec)
					for i := range vs.Values {
						vs.Values[i] = in.expr(vs.Values[i])
					}
				}
			}
		}
	}
	// drop imports that are no longer used, add ours
	usedPkgs := map[string]bool{}
	ast.Inspect(in.file, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				usedPkgs[id.Name] = true
			}
		}
		return true
	})
	first := true
	for _, d := range in.file.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			name := ""
			if is.Name != nil {
				name = is.Name.Name
			} else if o := in.info.Implicits[is]; o != nil {
				name = o.Name()
			}
			if name == "_" || name == "." || name == "" {
				continue
			}
			if !usedPkgs[name] {
				is.Name = ast.NewIdent("_")
			}
		}
		if first && in.used {
			g.Specs = append(g.Specs, &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: `"finchverif/vsched"`}})
			if g.Lparen == token.NoPos {
				g.Lparen = g.Pos()
				g.Rparen = g.End()
			}
			first = false
		}
	}
	if first && in.used {
		g := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: `"finchverif/vsched"`}}}}
		in.file.Decls = append([]ast.Decl{g}, in.file.Decls...)
	}
}

func (in *instr) fn(name string) ast.Expr {
	in.used = true
	return &ast.SelectorExpr{X: ast.NewIdent(rt), Sel: ast.NewIdent(name)}
}

func (in *instr) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: in.fn(name), Args: args}
}

func (in *instr) name(p string) string {
	in.tmp++
	return fmt.Sprintf("v_%s%d", p, in.tmp)
}

// ---------------------------------------------------------------- statements

func (in *instr) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = in.list(b.List)
}

func (in *instr) list(l []ast.Stmt) []ast.Stmt {
	r := make([]ast.Stmt, 0, 2*len(l))
	for _, s := range l {
		pt := in.pts && in.shared(s)
		pts := in.pts
		if *tight && in.callFreeLoop(s) {
			in.pts = false
		}
		n := in.stmt(s)
		in.pts = pts
		if b, ok := n.(*selBlock); ok {
			n = b.BlockStmt
		}
		if pt {
			r = append(r, &ast.ExprStmt{X: in.call("Point")})
		}
		r = append(r, n)
	}
	return r
}

// callFreeLoop reports if s is a loop that calls nothing and doesn't block.
func (in *instr) callFreeLoop(s ast.Stmt) bool {
	switch s.(type) {
	case *ast.ForStmt, *ast.RangeStmt:
	default:
		return false
	}
	free := true
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			t, ok := in.info.Types[n.Fun]
			free = free && ok && (t.IsBuiltin() || t.IsType())
		case *ast.SendStmt, *ast.SelectStmt, *ast.GoStmt, *ast.DeferStmt, *ast.FuncLit:
			free = false
		case *ast.UnaryExpr:
			free = free && n.Op != token.ARROW
		}
		return free
	})
	return free
}

// shared reports if the header of statement s can touch state another
// goroutine can see (or is a blocking/calling statement).
func (in *instr) shared(s ast.Stmt) bool {
	switch s := s.(type) {
	case *ast.LabeledStmt:
		return in.shared(s.Stmt)
	case *ast.BlockStmt, *ast.BranchStmt, *ast.EmptyStmt, *ast.SelectStmt:
		_, sel := s.(*ast.SelectStmt)
		return sel
	case *ast.IfStmt:
		return (s.Init != nil && in.shared(s.Init)) || in.sharedExpr(s.Cond)
	case *ast.ForStmt:
		return true
	case *ast.RangeStmt:
		return true
	case *ast.SwitchStmt:
		return (s.Init != nil && in.shared(s.Init)) || (s.Tag != nil && in.sharedExpr(s.Tag)) || s.Tag == nil
	case *ast.TypeSwitchStmt:
		return true
	case *ast.ExprStmt:
		return in.sharedExpr(s.X)
	case *ast.AssignStmt:
		for _, e := range s.Rhs {
			if in.sharedExpr(e) {
				return true
			}
		}
		for _, e := range s.Lhs {
			if in.sharedExpr(e) {
				return true
			}
		}
		return false
	case *ast.IncDecStmt:
		return in.sharedExpr(s.X)
	case *ast.ReturnStmt:
		for _, e := range s.Results {
			if in.sharedExpr(e) {
				return true
			}
		}
		return false
	case *ast.DeclStmt:
		sh := false
		ast.Inspect(s, func(n ast.Node) bool {
			if vs, ok := n.(*ast.ValueSpec); ok {
				for _, v := range vs.Values {
					sh = sh || in.sharedExpr(v)
				}
				return false
			}
			return true
		})
		return sh
	}
	return true
}

func (in *instr) sharedExpr(e ast.Expr) bool {
	sh := false
	ast.Inspect(e, func(n ast.Node) bool {
		if sh {
			return false
		}
		switch n := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			if tv, ok := in.info.Types[n.Fun]; ok && tv.IsType() {
				return true // conversion
			}
			switch f := n.Fun.(type) {
			case *ast.SelectorExpr:
				if id, ok := f.X.(*ast.Ident); ok {
					if pn, ok := in.info.Uses[id].(*types.PkgName); ok {
						if pn.Imported().Path() == "github.com/square/finch" && f.Sel.Name == "Debug" {
							return false // no-op unless --debug
						}
						switch pn.Imported().Path() {
						case "strings", "strconv", "fmt", "regexp", "math", "log", "errors":
							return true // pure for our purpose; look at args only
						}
					}
				}
			case *ast.Ident:
				if _, ok := in.info.Uses[f].(*types.Builtin); ok && f.Name != "close" {
					return true
				}
			}
			sh = true
			return false
		case *ast.SelectorExpr:
			if sel, ok := in.info.Selections[n]; ok && sel.Kind() == types.FieldVal {
				sh = true
				return false
			}
			if id, ok := n.X.(*ast.Ident); ok {
				if _, ok := in.info.Uses[id].(*types.PkgName); ok {
					if v, ok := in.info.Uses[n.Sel].(*types.Var); ok && v != nil {
						sh = true
					}
					return false
				}
			}
		case *ast.IndexExpr, *ast.StarExpr, *ast.SliceExpr:
			sh = true
			return false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				sh = true
				return false
			}
		case *ast.Ident:
			if v, ok := in.info.Uses[n].(*types.Var); ok && !v.IsField() {
				if v.Parent() == in.pkg.Scope() {
					sh = true
					return false
				}
			}
		}
		return true
	})
	return sh
}

func (in *instr) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		in.block(s)
		return s
	case *ast.LabeledStmt:
		n := in.stmt(s.Stmt)
		if b, ok := n.(*selBlock); ok {
			// move the label onto the final switch, keep the prelude before it
			last := len(b.List) - 1
			s.Stmt = b.List[last]
			b.List[last] = s
			return b.BlockStmt
		}
		s.Stmt = n
		return s
	case *ast.ExprStmt:
		if u, ok := unparen(s.X).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			return &ast.ExprStmt{X: in.call("Recv", in.expr(u.X))}
		}
		if c, ok := s.X.(*ast.CallExpr); ok {
			if x := in.mutexCall(c); x != nil {
				return x
			}
		}
		s.X = in.expr(s.X)
		return s
	case *ast.SendStmt:
		return &ast.ExprStmt{X: in.call("Send", in.expr(s.Chan), in.expr(s.Value))}
	case *ast.IncDecStmt:
		if in.pts && in.splittable(s.X) {
			f := "AddTo"
			if s.Tok == token.DEC {
				f = "SubTo"
			}
			return &ast.ExprStmt{X: in.call(f, &ast.UnaryExpr{Op: token.AND, X: in.expr(s.X)}, &ast.BasicLit{Kind: token.INT, Value: "1"})}
		}
		s.X = in.expr(s.X)
		return s
	case *ast.AssignStmt:
		if in.pts && (s.Tok == token.ADD_ASSIGN || s.Tok == token.SUB_ASSIGN) && in.splittable(s.Lhs[0]) {
			f := "AddTo"
			if s.Tok == token.SUB_ASSIGN {
				f = "SubTo"
			}
			return &ast.ExprStmt{X: in.call(f, &ast.UnaryExpr{Op: token.AND, X: in.expr(s.Lhs[0])}, in.expr(s.Rhs[0]))}
		}
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				s.Rhs[0] = in.call("Recv2", in.expr(u.X))
				for i := range s.Lhs {
					s.Lhs[i] = in.expr(s.Lhs[i])
				}
				return s
			}
		}
		rmw := make([]bool, len(s.Rhs))
		if in.pts && s.Tok == token.ASSIGN && len(s.Lhs) == len(s.Rhs) {
			for i := range s.Rhs {
				rmw[i] = in.readsBack(s.Lhs[i], s.Rhs[i])
			}
		}
		for i := range s.Rhs {
			s.Rhs[i] = in.expr(s.Rhs[i])
			if rmw[i] {
				s.Rhs[i] = in.call("Mid", s.Rhs[i])
			}
		}
		for i := range s.Lhs {
			s.Lhs[i] = in.expr(s.Lhs[i])
		}
		return s
	case *ast.GoStmt:
		return in.goStmt(s)
	case *ast.DeferStmt:
		s.Call = in.expr(s.Call).(*ast.CallExpr)
		return s
	case *ast.ReturnStmt:
		for i := range s.Results {
			s.Results[i] = in.expr(s.Results[i])
		}
		return s
	case *ast.IfStmt:
		s.Init = in.stmt(s.Init)
		s.Cond = in.expr(s.Cond)
		in.block(s.Body)
		s.Else = in.stmt(s.Else)
		return s
	case *ast.CaseClause:
		for i := range s.List {
			s.List[i] = in.expr(s.List[i])
		}
		s.Body = in.list(s.Body)
		return s
	case *ast.SwitchStmt:
		s.Init = in.stmt(s.Init)
		if s.Tag != nil {
			s.Tag = in.expr(s.Tag)
		}
		for i := range s.Body.List {
			s.Body.List[i] = in.stmt(s.Body.List[i])
		}
		return s
	case *ast.TypeSwitchStmt:
		for i := range s.Body.List {
			s.Body.List[i] = in.stmt(s.Body.List[i])
		}
		return s
	case *ast.SelectStmt:
		return in.selectStmt(s)
	case *ast.ForStmt:
		s.Init = in.stmt(s.Init)
		if s.Cond != nil {
			s.Cond = in.expr(s.Cond)
		}
		s.Post = in.stmt(s.Post)
		in.block(s.Body)
		if in.pts && len(s.Body.List) == 0 {
			s.Body.List = append(s.Body.List, &ast.ExprStmt{X: in.call("Point")})
		}
		if in.pts && s.Cond == nil { // infinite loops always have a point: they can be killed
			s.Body.List = append([]ast.Stmt{&ast.ExprStmt{X: in.call("Point")}}, s.Body.List...)
		}
		if !in.pts && s.Cond == nil {
			s.Body.List = append([]ast.Stmt{&ast.ExprStmt{X: in.call("KillPoint")}}, s.Body.List...)
		}
		return s
	case *ast.RangeStmt:
		return in.rangeStmt(s)
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if vs, ok := sp.(*ast.ValueSpec); ok {
					for i := range vs.Values {
						vs.Values[i] = in.expr(vs.Values[i])
					}
				}
			}
		}
		return s
	}
	return s
}

// selBlock marks the block a select was rewritten into (its last statement is
// the switch that a label of the select must move to).
type selBlock struct{ *ast.BlockStmt }

func (in *instr) selectStmt(s *ast.SelectStmt) ast.Stmt {
	n := 0
	hasDef := false
	for _, c := range s.Body.List {
		if c.(*ast.CommClause).Comm == nil {
			hasDef = true
		} else {
			n++
		}
	}
	if n == 0 {
		return s
	}
	blk := &ast.BlockStmt{}
	selVar := in.name("sel")
	add := func(st ast.Stmt) { blk.List = append(blk.List, st) }
	def := func(name string, e ast.Expr) {
		add(&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(name)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		add(&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(name)}})
	}
	type cs struct {
		recv    bool
		ch, val string
		v, ok   string
		lhs     []ast.Expr
		tok     token.Token
		body    []ast.Stmt
		isDef   bool
	}
	var cases []cs
	k := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		x := cs{}
		switch cm := cc.Comm.(type) {
		case nil:
			x.isDef = true
		case *ast.SendStmt:
			x.ch, x.val = in.name("ch"), in.name("val")
			def(x.ch, in.expr(cm.Chan))
			// value converted to the element type
			def(x.val, in.call("As", ast.NewIdent(x.ch), in.expr(cm.Value)))
		case *ast.ExprStmt:
			u := unparen(cm.X).(*ast.UnaryExpr)
			x.recv = true
			x.ch, x.v, x.ok = in.name("ch"), in.name("v"), in.name("ok")
			def(x.ch, in.expr(u.X))
			def(x.v, in.call("Zero", ast.NewIdent(x.ch)))
			def(x.ok, ast.NewIdent("false"))
		case *ast.AssignStmt:
			u := unparen(cm.Rhs[0]).(*ast.UnaryExpr)
			x.recv = true
			x.ch, x.v, x.ok = in.name("ch"), in.name("v"), in.name("ok")
			def(x.ch, in.expr(u.X))
			def(x.v, in.call("Zero", ast.NewIdent(x.ch)))
			def(x.ok, ast.NewIdent("false"))
			x.lhs = cm.Lhs
			x.tok = cm.Tok
		}
		x.body = in.list(cc.Body)
		cases = append(cases, x)
		if cc.Comm != nil {
			k++
		}
	}
	comm := func(x cs) ast.Stmt {
		if x.recv {
			return &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(x.v), ast.NewIdent(x.ok)}, Tok: token.ASSIGN,
				Rhs: []ast.Expr{&ast.UnaryExpr{Op: token.ARROW, X: ast.NewIdent(x.ch)}}}
		}
		return &ast.SendStmt{Chan: ast.NewIdent(x.ch), Value: ast.NewIdent(x.val)}
	}
	set := func(i int) ast.Stmt {
		return &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(selVar)}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(i)}}}
	}
	def(selVar, &ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: "1"}})
	// phase 1: which communications are ready is not visible without doing them, so
	// the recorded choice is the order in which they are tried.
	if n > 1 {
		sw := &ast.SwitchStmt{Tag: ast.NewIdent("v_k"), Body: &ast.BlockStmt{}}
		i := 0
		for ci, x := range cases {
			if x.isDef {
				continue
			}
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{
				List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(i)}},
				Body: []ast.Stmt{&ast.SelectStmt{Body: &ast.BlockStmt{List: []ast.Stmt{
					&ast.CommClause{Comm: comm(x), Body: []ast.Stmt{set(ci)}},
					&ast.CommClause{},
				}}}},
			})
			i++
		}
		add(&ast.RangeStmt{Key: ast.NewIdent("_"), Value: ast.NewIdent("v_k"), Tok: token.DEFINE,
			X: in.call("Order", &ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(n)}),
			Body: &ast.BlockStmt{List: []ast.Stmt{
				sw,
				&ast.IfStmt{Cond: &ast.BinaryExpr{X: ast.NewIdent(selVar), Op: token.GEQ, Y: &ast.BasicLit{Kind: token.INT, Value: "0"}},
					Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
			}}})
	}
	// phase 2: block (or default)
	full := &ast.SelectStmt{Body: &ast.BlockStmt{}}
	for ci, x := range cases {
		if x.isDef {
			full.Body.List = append(full.Body.List, &ast.CommClause{Body: []ast.Stmt{set(ci)}})
		} else {
			full.Body.List = append(full.Body.List, &ast.CommClause{Comm: comm(x), Body: []ast.Stmt{set(ci)}})
		}
	}
	if !hasDef {
		full.Body.List = append(full.Body.List, &ast.CommClause{
			Comm: &ast.ExprStmt{X: &ast.UnaryExpr{Op: token.ARROW, X: in.call("Killed")}},
			Body: []ast.Stmt{&ast.ExprStmt{X: in.call("Exit")}},
		})
	}
	add(&ast.IfStmt{Cond: &ast.BinaryExpr{X: ast.NewIdent(selVar), Op: token.LSS, Y: &ast.BasicLit{Kind: token.INT, Value: "0"}},
		Body: &ast.BlockStmt{List: []ast.Stmt{full}}})
	if !hasDef {
		add(&ast.ExprStmt{X: in.call("After")})
	}
	sw := &ast.SwitchStmt{Tag: ast.NewIdent(selVar), Body: &ast.BlockStmt{}}
	for ci, x := range cases {
		body := []ast.Stmt{}
		if len(x.lhs) > 0 {
			rhs := []ast.Expr{ast.NewIdent(x.v)}
			if len(x.lhs) == 2 {
				rhs = append(rhs, ast.NewIdent(x.ok))
			}
			body = append(body, &ast.AssignStmt{Lhs: x.lhs, Tok: x.tok, Rhs: rhs})
		}
		body = append(body, x.body...)
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(ci)}}, Body: body})
	}
	add(sw)
	return &selBlock{blk}
}

func (in *instr) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	tv := in.info.Types[s.X]
	switch t := tv.Type.Underlying().(type) {
	case *types.Chan:
		in.block(s.Body)
		ok := in.name("ok")
		key := s.Key
		tok := s.Tok
		if key == nil {
			key, tok = ast.NewIdent("_"), token.DEFINE
		}
		var pre []ast.Stmt
		ch := in.expr(s.X)
		if tok == token.DEFINE {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{key, ast.NewIdent(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{in.call("Recv2", ch)}})
		} else {
			v := in.name("v")
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(v), ast.NewIdent(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{in.call("Recv2", ch)}})
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{key}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(v)}})
		}
		pre = append(pre, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
		return &ast.ForStmt{Body: &ast.BlockStmt{List: append(pre, s.Body.List...)}}
	case *types.Map:
		_ = t
		in.block(s.Body)
		x := in.expr(s.X)
		if s.Key == nil && s.Value == nil {
			s.X = x
			return s
		}
		s.X = in.call("MapPairs", x)
		// for k, v := range m  ->  for _, p := range MapPairs(m) { if !p.Live() {continue}; k, v := p.K, p.V; ... }
		p := in.name("p")
		var pre []ast.Stmt
		pre = append(pre, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(p), Sel: ast.NewIdent("Load")}}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
		var lhs, rhs []ast.Expr
		isBlank := func(e ast.Expr) bool { id, ok := e.(*ast.Ident); return e == nil || ok && id.Name == "_" }
		if !isBlank(s.Key) {
			lhs = append(lhs, s.Key)
			rhs = append(rhs, &ast.SelectorExpr{X: ast.NewIdent(p), Sel: ast.NewIdent("K")})
		}
		if s.Value != nil && !isBlank(s.Value) {
			lhs = append(lhs, s.Value)
			rhs = append(rhs, &ast.SelectorExpr{X: ast.NewIdent(p), Sel: ast.NewIdent("V")})
		}
		if len(lhs) > 0 {
			pre = append(pre, &ast.AssignStmt{Lhs: lhs, Tok: s.Tok, Rhs: rhs})
		}
		s.Key, s.Value, s.Tok = ast.NewIdent("_"), ast.NewIdent(p), token.DEFINE
		s.Body.List = append(pre, s.Body.List...)
		return s
	}
	s.X = in.expr(s.X)
	in.block(s.Body)
	return s
}

func (in *instr) goStmt(s *ast.GoStmt) ast.Stmt {
	if fl, ok := s.Call.Fun.(*ast.FuncLit); ok && len(s.Call.Args) == 0 {
		in.block(fl.Body)
		return &ast.ExprStmt{X: in.call("Go", fl)}
	}
	blk := &ast.BlockStmt{}
	c := s.Call
	bind := func(e ast.Expr) ast.Expr {
		if tv, ok := in.info.Types[e]; ok && (tv.IsNil() || tv.Value != nil) {
			return e
		}
		n := in.name("a")
		blk.List = append(blk.List, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{in.expr(e)}})
		return ast.NewIdent(n)
	}
	if id, ok := c.Fun.(*ast.Ident); ok {
		if _, isB := in.info.Uses[id].(*types.Builtin); isB {
			return s
		}
	}
	fun := bind(c.Fun)
	args := make([]ast.Expr, len(c.Args))
	for i := range c.Args {
		args[i] = bind(c.Args[i])
	}
	nc := &ast.CallExpr{Fun: fun, Args: args}
	if c.Ellipsis != token.NoPos {
		nc.Ellipsis = 1
	}
	blk.List = append(blk.List, &ast.ExprStmt{X: in.call("Go", &ast.FuncLit{
		Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}},
	})})
	return blk
}

// splittable reports if x is a numeric field or slice element (addressable,
// not a map element): x op= y is two memory accesses other goroutines can
// interleave with.
func (in *instr) splittable(x ast.Expr) bool {
	tv, ok := in.info.Types[x]
	if !ok {
		return false
	}
	b, ok := tv.Type.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsNumeric == 0 || b.Info()&types.IsComplex != 0 {
		return false
	}
	switch e := unparen(x).(type) {
	case *ast.SelectorExpr:
		_, ok := in.info.Selections[e]
		if !ok {
			return true // package-level var
		}
		return true
	case *ast.IndexExpr:
		switch in.info.Types[e.X].Type.Underlying().(type) {
		case *types.Slice, *types.Pointer:
			return true
		}
	case *ast.StarExpr:
		return true
	case *ast.Ident:
		if v, ok := in.info.Uses[e].(*types.Var); ok && v.Parent() == in.pkg.Scope() {
			return true
		}
	}
	return false
}

// readsBack reports if the value assigned to the shared location l is computed
// from l itself: a read-modify-write other goroutines can interleave with.
func (in *instr) readsBack(l, r ast.Expr) bool {
	if !in.sharedExpr(l) {
		return false
	}
	if tv, ok := in.info.Types[r]; !ok || tv.Value != nil || tv.IsNil() {
		return false
	}
	str := types.ExprString(unparen(l))
	found := false
	ast.Inspect(r, func(n ast.Node) bool {
		if _, ok := n.(*ast.FuncLit); ok {
			return false
		}
		if e, ok := n.(ast.Expr); ok && types.ExprString(e) == str {
			found = true
		}
		return !found
	})
	return found
}

// embedded is the (embedded) value of x that has the method sel.
func (in *instr) embedded(x ast.Expr, sel *types.Selection) ast.Expr {
	x = in.expr(x)
	t := sel.Recv()
	for _, i := range sel.Index()[:len(sel.Index())-1] {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return x
		}
		f := st.Field(i)
		x = &ast.SelectorExpr{X: x, Sel: ast.NewIdent(f.Name())}
		t = f.Type()
	}
	return x
}

// fieldType is the type of the embedded field that has the method sel.
func fieldType(sel *types.Selection) types.Type {
	t := sel.Recv()
	for _, i := range sel.Index()[:len(sel.Index())-1] {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		t = t.Underlying().(*types.Struct).Field(i).Type()
	}
	return t
}

func (in *instr) mutexCall(c *ast.CallExpr) ast.Stmt {
	se, ok := c.Fun.(*ast.SelectorExpr)
	if !ok || len(c.Args) != 0 {
		return nil
	}
	sel, ok := in.info.Selections[se]
	if !ok {
		return nil
	}
	f, ok := sel.Obj().(*types.Func)
	if !ok || f.Pkg() == nil || f.Pkg().Path() != "sync" {
		return nil
	}
	recv := f.Type().(*types.Signature).Recv()
	if recv == nil {
		return nil
	}
	rs := recv.Type().String()
	try := ""
	switch {
	case f.Name() == "Wait" && rs == "*sync.WaitGroup" && in.pts:
		return &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: in.expr(c)}, &ast.ExprStmt{X: in.call("After")}}}
	case f.Name() == "Lock" && rs == "sync.Locker":
		return &ast.ExprStmt{X: in.call("Lock", in.embedded(se.X, sel))}
	case f.Name() == "Lock" && (rs == "*sync.Mutex" || rs == "*sync.RWMutex"):
		try = "TryLock"
	case f.Name() == "RLock" && rs == "*sync.RWMutex":
		try = "TryRLock"
	default:
		return nil
	}
	return &ast.ForStmt{
		Cond: &ast.UnaryExpr{Op: token.NOT, X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: in.expr(se.X), Sel: ast.NewIdent(try)}}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: in.call("Yield")}}},
	}
}

// --------------------------------------------------------------- expressions

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// atomicLoad reports if e calls a Load of sync/atomic.
func (in *instr) atomicLoad(e *ast.CallExpr) bool {
	sel, ok := unparen(e.Fun).(*ast.SelectorExpr)
	if !ok || !strings.HasPrefix(sel.Sel.Name, "Load") {
		return false
	}
	f, ok := in.info.Uses[sel.Sel].(*types.Func)
	return ok && f.Pkg() != nil && f.Pkg().Path() == "sync/atomic"
}

func (in *instr) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = in.expr(l[i])
	}
}

func (in *instr) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.ParenExpr:
		e.X = in.expr(e.X)
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return in.call("Recv", in.expr(e.X))
		}
		e.X = in.expr(e.X)
	case *ast.BinaryExpr:
		e.X, e.Y = in.expr(e.X), in.expr(e.Y)
	case *ast.CallExpr:
		if r := in.standIn(e); r != nil {
			in.exprs(r.Args)
			return r
		}
		load := in.pts && in.atomicLoad(e)
		e.Fun = in.expr(e.Fun)
		in.exprs(e.Args)
		if load { // others may run between loading the value and using it
			return in.call("Mid", e)
		}
	case *ast.SelectorExpr:
		e.X = in.expr(e.X)
	case *ast.IndexExpr:
		e.X, e.Index = in.expr(e.X), in.expr(e.Index)
	case *ast.SliceExpr:
		e.X, e.Low, e.High, e.Max = in.expr(e.X), in.expr(e.Low), in.expr(e.High), in.expr(e.Max)
	case *ast.StarExpr:
		e.X = in.expr(e.X)
	case *ast.TypeAssertExpr:
		e.X = in.expr(e.X)
	case *ast.FuncLit:
		in.block(e.Body)
	case *ast.CompositeLit:
		for i := range e.Elts {
			if kv, ok := e.Elts[i].(*ast.KeyValueExpr); ok {
				kv.Value = in.expr(kv.Value)
			} else {
				e.Elts[i] = in.expr(e.Elts[i])
			}
		}
	case *ast.KeyValueExpr:
		e.Value = in.expr(e.Value)
	}
	return e
}

// standIn replaces calls that would leave the harness.
func (in *instr) standIn(c *ast.CallExpr) *ast.CallExpr {
	se, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return nil
	}
	mk := func(name string, args ...ast.Expr) *ast.CallExpr {
		r := in.call(name, args...)
		r.Ellipsis = c.Ellipsis
		return r
	}
	if id, ok := se.X.(*ast.Ident); ok {
		if pn, ok := in.info.Uses[id].(*types.PkgName); ok {
			switch pn.Imported().Path() + "." + se.Sel.Name {
			case "database/sql.Open":
				return mk("SQLOpen", c.Args...)
			case "time.Sleep":
				return mk("Sleep", c.Args...)
			case "net.Listen":
				return mk("NetListen", c.Args...)
			case "log.Fatal":
				return mk("Fatal", c.Args...)
			case "log.Fatalf":
				return mk("Fatalf", c.Args...)
			case "os.Exit":
				return mk("OSExit", c.Args...)
			case "os/signal.Notify", "os/signal.NotifyContext", "os/signal.Stop", "os/signal.Reset", "os/signal.Ignore":
				return mk("Signal"+se.Sel.Name, c.Args...)
			case "os.Open", "os.OpenFile", "os.Create", "os.ReadFile", "os.WriteFile", "os.Stat", "os.Lstat",
				"os.Mkdir", "os.MkdirAll", "os.MkdirTemp", "os.CreateTemp", "os.Remove", "os.RemoveAll", "os.Rename",
				"os.Chdir", "os.Getwd", "os.TempDir", "os.Hostname", "os.Chmod", "os.ReadDir":
				return mk("OS"+se.Sel.Name, c.Args...)
			case "io/ioutil.ReadFile", "io/ioutil.WriteFile":
				return mk("OS"+se.Sel.Name, c.Args...)
			case "io/ioutil.TempDir":
				return mk("OSMkdirTemp", c.Args...)
			case "io/ioutil.TempFile":
				return mk("OSCreateTemp", c.Args...)
			case "math/rand.Int", "math/rand.Intn", "math/rand.Int31", "math/rand.Int31n", "math/rand.Int63", "math/rand.Int63n",
				"math/rand.Uint32", "math/rand.Uint64", "math/rand.Float64", "math/rand.Float32", "math/rand.NormFloat64", "math/rand.NewSource":
				return mk("Rand"+se.Sel.Name, c.Args...)
			case "path/filepath.Abs":
				return mk("FilepathAbs", c.Args...)
			case "log.Fatalln", "time.AfterFunc", "sync.OnceFunc", "sync.OnceValue", "sync.OnceValues":
				return mk(se.Sel.Name, c.Args...)
			case "context.AfterFunc":
				return mk("ContextAfterFunc", c.Args...)
			case "net/http.ListenAndServe", "net/http.Serve":
				return mk("HTTP"+se.Sel.Name, c.Args...)
			}
			return nil
		}
	}
	if sel, ok := in.info.Selections[se]; ok {
		if f, ok := sel.Obj().(*types.Func); ok && f.Pkg() != nil && f.Pkg().Path() == "sync" {
			if recv := f.Type().(*types.Signature).Recv(); recv != nil {
				name := map[string]string{
					"*sync.WaitGroup.Go":   "WGGo",
					"*sync.Once.Do":        "OnceDo",
					"*sync.Cond.Wait":      "CondWait",
					"*sync.Cond.Signal":    "CondSignal",
					"*sync.Cond.Broadcast": "CondBroadcast",
				}[recv.Type().String()+"."+f.Name()]
				if name != "" {
					x := in.embedded(se.X, sel)
					t := in.info.TypeOf(se.X)
					if len(sel.Index()) > 1 {
						t = fieldType(sel)
					}
					if _, ptr := t.Underlying().(*types.Pointer); !ptr {
						x = &ast.UnaryExpr{Op: token.AND, X: x}
					}
					return mk(name, append([]ast.Expr{x}, c.Args...)...)
				}
			}
		}
		if f, ok := sel.Obj().(*types.Func); ok && f.Pkg() != nil && f.Pkg().Path() == "net/http" {
			recv := f.Type().(*types.Signature).Recv()
			if recv != nil && recv.Type().String() == "*net/http.Server" {
				switch f.Name() {
				case "ListenAndServe":
					return mk("ListenAndServe", se.X)
				case "Serve":
					return mk("Serve", append([]ast.Expr{se.X}, c.Args...)...)
				}
			}
		}
	}
	return nil
}
