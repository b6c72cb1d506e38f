// Package instr rewrites packages so that their synchronisation is visible to
// the controlled scheduler.
package instr

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Redirect replaces an import path in the instrumented packages.
type Redirect struct{ From, To string }

// Config configures a run of the rewriter.
type Config struct {
	Repo, Module, Overlay string
	Replace               map[string]string
	Scratch               string
	Packages              []string // import path prefixes below the module, or "all"
	HarnessPkgs           []string
	Redirect              []Redirect
	Root                  string
}

// Packages of other modules that block; instrumented copies are used instead.
var thirdParty = []string{
	"golang.org/x/sync/errgroup",
	"golang.org/x/sync/semaphore",
	"golang.org/x/sync/singleflight",
	"github.com/hashicorp/golang-lru",
	"github.com/cenkalti/backoff",
}

// Standard packages with a controlled counterpart.
var shims = map[string]string{
	"sync":        "sync",
	"sync/atomic": "atomic",
	"time":        "time",
	"context":     "context",
	"math/rand":   "rand",
}

type pkg struct {
	Dir        string
	ImportPath string
	Name       string
	Export     string
	Standard   bool
	GoFiles    []string
	CgoFiles   []string
	Imports    []string
	ImportMap  map[string]string
	Module     *struct{ Path string }
	Error      *struct{ Err string }
}

func list(repo, overlay string, args ...string) (map[string]*pkg, error) {
	cmd := exec.Command("go", append([]string{"list", "-overlay", overlay, "-export", "-deps", "-json=Dir,ImportPath,Name,Export,Standard,GoFiles,CgoFiles,Imports,ImportMap,Module,Error"}, args...)...)
	cmd.Dir = repo
	var eb bytes.Buffer
	cmd.Stderr = &eb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, eb.String())
	}
	m := map[string]*pkg{}
	d := json.NewDecoder(bytes.NewReader(out))
	for {
		var p pkg
		if err := d.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		m[p.ImportPath] = &p
	}
	return m, nil
}

type inst struct {
	c     Config
	pkgs  map[string]*pkg
	redir map[string]string // import path -> replacement
	vs    string
}

// Instrument rewrites the packages.
func Instrument(c Config) error {
	pkgs, err := list(c.Repo, c.Overlay, c.Root)
	if err != nil {
		return err
	}
	in := &inst{c: c, pkgs: pkgs, redir: map[string]string{}, vs: c.Module + "/zzverif/vs"}
	for from, to := range shims {
		in.redir[from] = in.vs + "/" + to
	}
	x := c.Module + "/zzverif/x/"
	var copies []string
	for _, t := range thirdParty {
		if pkgs[t] != nil {
			in.redir[t] = x + t
			copies = append(copies, t)
		}
	}
	for _, r := range c.Redirect {
		in.redir[r.From] = r.To
	}
	harness := map[string]bool{}
	for _, h := range c.HarnessPkgs {
		harness[c.Module+"/zzverif/"+h] = true
	}
	var ids []string
	for id := range pkgs {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		p := pkgs[id]
		if p.Standard || !strings.HasPrefix(id, c.Module+"/") {
			continue
		}
		rel := strings.TrimPrefix(id, c.Module+"/")
		if harness[id] {
			if err := in.rewrite(p, p.Dir, p.Dir); err != nil {
				return err
			}
			continue
		}
		if strings.HasPrefix(rel, "zzverif") || strings.HasPrefix(rel, "pkg/vdisc/types") || rel == "pkg/safecast" {
			continue
		}
		match := false
		for _, w := range c.Packages {
			if w == "all" || rel == w || strings.HasPrefix(rel, w+"/") {
				match = true
			}
		}
		if match {
			if err := in.rewrite(p, p.Dir, p.Dir); err != nil {
				return err
			}
		}
	}
	for _, t := range copies {
		if err := in.rewrite(pkgs[t], pkgs[t].Dir, filepath.Join(c.Repo, "zzverif/x", t)); err != nil {
			return err
		}
	}
	return nil
}

// source finds where a file's text is, which may be in the overlay.
func (in *inst) source(path string) string {
	if r, ok := in.c.Replace[path]; ok && r != "" {
		return r
	}
	return path
}

func (in *inst) rewrite(p *pkg, dir, target string) error {
	if len(p.CgoFiles) > 0 {
		return fmt.Errorf("%s uses cgo", p.ImportPath)
	}
	fset := token.NewFileSet()
	var files []*ast.File
	for _, f := range p.GoFiles {
		src, err := os.ReadFile(in.source(filepath.Join(dir, f)))
		if err != nil {
			return err
		}
		a, err := parser.ParseFile(fset, filepath.Join(dir, f), src, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, a)
	}
	lookup := func(path string) (io.ReadCloser, error) {
		if m, ok := p.ImportMap[path]; ok {
			path = m
		}
		q := in.pkgs[path]
		if q == nil || q.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(q.Export)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", lookup), Error: func(error) {}}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		// Carry on only if the errors are about language versions.
		if !strings.Contains(err.Error(), "requires go1") {
			return fmt.Errorf("type-checking %s: %v", p.ImportPath, err)
		}
	}
	out := filepath.Join(in.c.Scratch, "instr", strings.ReplaceAll(p.ImportPath, "/", "_"))
	if err := os.MkdirAll(out, 0755); err != nil {
		return err
	}
	for i, a := range files {
		r := &rewriter{in: in, info: info, fset: fset}
		r.file(a)
		if r.err != nil {
			return fmt.Errorf("%s: %v", p.GoFiles[i], r.err)
		}
		a.Comments = nil
		a.Doc = nil
		var b bytes.Buffer
		b.WriteString("//go:build go1.21\n\n")
		if err := (&printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}).Fprint(&b, token.NewFileSet(), a); err != nil {
			return err
		}
		path := filepath.Join(out, p.GoFiles[i])
		if err := os.WriteFile(path, b.Bytes(), 0644); err != nil {
			return err
		}
		in.c.Replace[filepath.Join(target, p.GoFiles[i])] = path
	}
	return nil
}

type rewriter struct {
	in   *inst
	info *types.Info
	fset *token.FileSet
	used bool
	pipe bool
	err  error
	n    int
}

func (r *rewriter) file(f *ast.File) {
	// Bodies first: the imports are needed to recognise names.
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body != nil {
				r.block(d.Body)
			}
		case *ast.GenDecl:
			for _, s := range d.Specs {
				if v, ok := s.(*ast.ValueSpec); ok {
					for i := range v.Values {
						v.Values[i] = r.expr(v.Values[i])
					}
				}
			}
		}
	}
	// io.Pipe and its types, anywhere.
	ioName := ""
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				if pn, ok := r.info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "io" {
					switch s.Sel.Name {
					case "Pipe", "PipeReader", "PipeWriter":
						ioName = id.Name
						s.X = ast.NewIdent("vsio")
						r.pipe = true
					}
				}
			}
		}
		return true
	})
	var specs []ast.Spec
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		for _, s := range g.Specs {
			i := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(i.Path.Value)
			if to, ok := r.in.redir[path]; ok {
				if i.Name == nil {
					// Keep the name the package is used by.
					name := ""
					if q := r.in.pkgs[path]; q != nil {
						name = q.Name
					}
					if name == "" {
						name = path[strings.LastIndex(path, "/")+1:]
					}
					i.Name = ast.NewIdent(name)
				}
				i.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(to)}
				i.EndPos = 0
			}
		}
	}
	if r.used {
		specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent("vsched"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(r.in.vs)}})
	}
	if r.pipe {
		specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent("vsio"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(r.in.vs + "/io")}})
	}
	if len(specs) > 0 {
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Specs: specs}}, f.Decls...)
	}
	if ioName != "" {
		f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Type: &ast.SelectorExpr{X: ast.NewIdent(ioName), Sel: ast.NewIdent("Reader")}}}})
	}
}

func (r *rewriter) vs(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: ast.NewIdent("vsched"), Sel: ast.NewIdent(name)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func (r *rewriter) tmp(p string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("vs%s%d", p, r.n))
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = r.stmts(b.List)
	}
}

func (r *rewriter) stmts(l []ast.Stmt) []ast.Stmt {
	for i := range l {
		l[i] = r.stmt(l[i])
	}
	return l
}

func isRecv(e ast.Expr) (*ast.UnaryExpr, bool) {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	u, ok := e.(*ast.UnaryExpr)
	return u, ok && u.Op == token.ARROW
}

func (r *rewriter) under(e ast.Expr) types.Type {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		if id, ok := e.(*ast.Ident); ok {
			if o := r.info.Uses[id]; o != nil {
				return o.Type().Underlying()
			}
		}
		return types.Typ[types.Invalid]
	}
	return tv.Type.Underlying()
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		r.block(s)
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(call(r.vs("SendTo"), r.expr(s.Chan)), r.expr(s.Value))}
	case *ast.IncDecStmt:
		s.X = r.expr(s.X)
	case *ast.AssignStmt:
		for i := range s.Lhs {
			s.Lhs[i] = r.expr(s.Lhs[i])
		}
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := isRecv(s.Rhs[0]); ok {
				s.Rhs[0] = call(r.vs("Recv2"), r.expr(u.X))
				return s
			}
		}
		for i := range s.Rhs {
			s.Rhs[i] = r.expr(s.Rhs[i])
		}
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.DeferStmt:
		s.Call = r.callExpr(s.Call).(*ast.CallExpr)
	case *ast.ReturnStmt:
		for i := range s.Results {
			s.Results[i] = r.expr(s.Results[i])
		}
	case *ast.IfStmt:
		s.Init = r.stmt(s.Init)
		s.Cond = r.expr(s.Cond)
		r.block(s.Body)
		s.Else = r.stmt(s.Else)
	case *ast.CaseClause:
		for i := range s.List {
			s.List[i] = r.expr(s.List[i])
		}
		s.Body = r.stmts(s.Body)
	case *ast.SwitchStmt:
		s.Init = r.stmt(s.Init)
		if s.Tag != nil {
			s.Tag = r.expr(s.Tag)
		}
		r.block(s.Body)
	case *ast.TypeSwitchStmt:
		s.Init = r.stmt(s.Init)
		s.Assign = r.stmt(s.Assign)
		r.block(s.Body)
	case *ast.SelectStmt:
		return r.selectStmt(s)
	case *ast.ForStmt:
		s.Init = r.stmt(s.Init)
		if s.Cond != nil {
			s.Cond = r.expr(s.Cond)
		}
		s.Post = r.stmt(s.Post)
		r.block(s.Body)
	case *ast.RangeStmt:
		return r.rangeStmt(s)
	case *ast.LabeledStmt:
		s.Stmt = r.stmt(s.Stmt)
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if v, ok := sp.(*ast.ValueSpec); ok {
					if len(v.Names) == 2 && len(v.Values) == 1 {
						if u, ok := isRecv(v.Values[0]); ok {
							v.Values[0] = call(r.vs("Recv2"), r.expr(u.X))
							continue
						}
					}
					for i := range v.Values {
						v.Values[i] = r.expr(v.Values[i])
					}
				}
			}
		}
	}
	return s
}

func (r *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	if f, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		return &ast.ExprStmt{X: call(r.vs("Go"), r.expr(f))}
	}
	var names, vals []ast.Expr
	hold := func(e ast.Expr) ast.Expr {
		tv := r.info.Types[e]
		if tv.Value != nil || tv.IsNil() || tv.IsType() || tv.IsBuiltin() {
			return e
		}
		if _, ok := e.(*ast.FuncLit); ok {
			return r.expr(e)
		}
		t := r.tmp("a")
		names = append(names, t)
		vals = append(vals, r.expr(e))
		return ast.NewIdent(t.Name)
	}
	n := &ast.CallExpr{Ellipsis: c.Ellipsis}
	if tv := r.info.Types[c.Fun]; tv.IsBuiltin() || tv.IsType() {
		n.Fun = c.Fun
	} else if id, ok := c.Fun.(*ast.Ident); ok {
		if _, ok := r.info.Uses[id].(*types.Func); ok {
			n.Fun = c.Fun
		} else {
			n.Fun = hold(c.Fun)
		}
	} else {
		n.Fun = hold(c.Fun)
	}
	for _, a := range c.Args {
		n.Args = append(n.Args, hold(a))
	}
	body := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: r.closeCall(n)}}}}
	g := &ast.ExprStmt{X: call(r.vs("Go"), body)}
	if len(names) == 0 {
		return g
	}
	return &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: names, Tok: token.DEFINE, Rhs: vals}, g}}
}

// closeCall turns the builtin close into the scheduler's.
func (r *rewriter) closeCall(c *ast.CallExpr) ast.Expr {
	if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "close" {
		if _, ok := r.info.Uses[id].(*types.Builtin); ok {
			c.Fun = r.vs("Close")
		}
	}
	return c
}

func (r *rewriter) selectStmt(s *ast.SelectStmt) ast.Stmt {
	if len(s.Body.List) == 0 {
		return &ast.ExprStmt{X: call(r.vs("Block"))}
	}
	var names, vals, args []ast.Expr
	dflt := ast.NewIdent("false")
	var out []ast.Stmt
	idx := 0
	var def *ast.CaseClause
	for _, cl := range s.Body.List {
		cc := cl.(*ast.CommClause)
		body := cc.Body
		if cc.Comm == nil {
			dflt = ast.NewIdent("true")
			def = &ast.CaseClause{Body: r.stmts(body)}
			out = append(out, def)
			continue
		}
		t := r.tmp("c")
		names = append(names, t)
		args = append(args, ast.NewIdent(t.Name))
		var pre []ast.Stmt
		sel := func(f string) ast.Expr { return &ast.SelectorExpr{X: ast.NewIdent(t.Name), Sel: ast.NewIdent(f)} }
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			vals = append(vals, call(call(r.vs("CSend"), r.expr(c.Chan)), r.expr(c.Value)))
		case *ast.ExprStmt:
			u, ok := isRecv(c.X)
			if !ok {
				r.err = fmt.Errorf("unexpected select case")
				return s
			}
			vals = append(vals, call(r.vs("CRecv"), r.expr(u.X)))
		case *ast.AssignStmt:
			u, ok := isRecv(c.Rhs[0])
			if !ok {
				r.err = fmt.Errorf("unexpected select case")
				return s
			}
			vals = append(vals, call(r.vs("CRecv"), r.expr(u.X)))
			rhs := []ast.Expr{sel("V")}
			if len(c.Lhs) == 2 {
				rhs = append(rhs, sel("OK"))
			}
			tok := c.Tok
			blank := true
			for i := range c.Lhs {
				c.Lhs[i] = r.expr(c.Lhs[i])
				if id, ok := c.Lhs[i].(*ast.Ident); !ok || id.Name != "_" {
					blank = false
				}
			}
			if blank {
				tok = token.ASSIGN
			}
			pre = append(pre, &ast.AssignStmt{Lhs: c.Lhs, Tok: tok, Rhs: rhs})
		}
		out = append(out, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}, Body: append(pre, r.stmts(body)...)})
		idx++
	}
	if def == nil {
		// Keep the statement terminating, as the select was.
		out[len(out)-1].(*ast.CaseClause).List = nil
	}
	sw := &ast.SwitchStmt{Tag: call(r.vs("Select"), append([]ast.Expr{dflt}, args...)...), Body: &ast.BlockStmt{List: out}}
	if len(names) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: names, Tok: token.DEFINE, Rhs: vals}
	}
	return sw
}

func (r *rewriter) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	switch r.under(s.X).(type) {
	case *types.Chan:
		x := r.expr(s.X)
		r.block(s.Body)
		ch, ok := r.tmp("ch"), r.tmp("ok")
		v := ast.Expr(ast.NewIdent("_"))
		if !blank(s.Key) {
			v = s.Key
		}
		if s.Tok == token.ASSIGN && !blank(s.Key) {
			// v is assigned inside the loop.
			t := r.tmp("v")
			s.Body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(t.Name)}}}, s.Body.List...)
			v = t
		}
		return &ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{ch, v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.vs("RangeInit"), x)}},
			Cond: ast.NewIdent(ok.Name),
			Post: &ast.AssignStmt{Lhs: []ast.Expr{v, ast.NewIdent(ok.Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{call(r.vs("Recv2"), ast.NewIdent(ch.Name))}},
			Body: s.Body,
		}
	case *types.Map:
		x := r.expr(s.X)
		r.block(s.Body)
		e := r.tmp("e")
		sel := func(f string) ast.Expr { return &ast.SelectorExpr{X: ast.NewIdent(e.Name), Sel: ast.NewIdent(f)} }
		pre := []ast.Stmt{&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: call(sel("Live"))}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}}}
		var lhs, rhs []ast.Expr
		if !blank(s.Key) {
			lhs, rhs = append(lhs, s.Key), append(rhs, sel("K"))
		}
		if !blank(s.Value) {
			lhs, rhs = append(lhs, s.Value), append(rhs, call(sel("V")))
		}
		if len(lhs) > 0 {
			pre = append(pre, &ast.AssignStmt{Lhs: lhs, Tok: s.Tok, Rhs: rhs})
		}
		s.Body.List = append(pre, s.Body.List...)
		return &ast.RangeStmt{Key: ast.NewIdent("_"), Value: e, Tok: token.DEFINE, X: call(r.vs("Entries"), x), Body: s.Body}
	}
	s.X = r.expr(s.X)
	if s.Key != nil {
		s.Key = r.expr(s.Key)
	}
	if s.Value != nil {
		s.Value = r.expr(s.Value)
	}
	r.block(s.Body)
	return s
}

func (r *rewriter) callExpr(c *ast.CallExpr) ast.Expr {
	c.Fun = r.expr(c.Fun)
	for i := range c.Args {
		c.Args[i] = r.expr(c.Args[i])
	}
	return r.closeCall(c)
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.FuncLit:
		r.block(e.Body)
	case *ast.CompositeLit:
		for i := range e.Elts {
			e.Elts[i] = r.expr(e.Elts[i])
		}
	case *ast.ParenExpr:
		e.X = r.expr(e.X)
	case *ast.SelectorExpr:
		e.X = r.expr(e.X)
	case *ast.IndexExpr:
		e.X = r.expr(e.X)
		e.Index = r.expr(e.Index)
	case *ast.SliceExpr:
		e.X = r.expr(e.X)
		e.Low = r.expr(e.Low)
		e.High = r.expr(e.High)
		e.Max = r.expr(e.Max)
	case *ast.TypeAssertExpr:
		e.X = r.expr(e.X)
	case *ast.CallExpr:
		return r.callExpr(e)
	case *ast.StarExpr:
		e.X = r.expr(e.X)
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return call(r.vs("Recv"), r.expr(e.X))
		}
		e.X = r.expr(e.X)
	case *ast.BinaryExpr:
		e.X = r.expr(e.X)
		e.Y = r.expr(e.Y)
	case *ast.KeyValueExpr:
		e.Key = r.expr(e.Key)
		e.Value = r.expr(e.Value)
	}
	return e
}
