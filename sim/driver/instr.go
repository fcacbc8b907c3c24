package main

import (
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// The instrumenter copies the library under test and inserts, as text edits that
// keep line numbers, the simulator's seams: a yield point before every
// statement, a split of every read-modify-write of non-local memory, and the
// replacement of sync, sync/atomic, runtime and of go statements by their
// simulated counterparts. It looks only at the syntax and the types of the
// code, never at names specific to this library.

type edit struct {
	off, end int
	text     string
	prio     int
}

type instrStats struct {
	Files, Yields, Splits, Imports, GoStmts, Accesses, MapRanges, ChanOps int
}

var swapped = map[string][2]string{
	"sync":        {"sync", "verif/rsim/ssync"},
	"sync/atomic": {"atomic", "verif/rsim/satomic"},
	"runtime":     {"runtime", "verif/rsim/sruntime"},
	"math/rand":   {"rand", "verif/rsim/srand"},
	"time":        {"time", "verif/rsim/stime"},
}

func matchTags(src []byte, name string, tags map[string]bool) bool {
	ok := func(tag string) bool {
		if tags[tag] {
			return true
		}
		switch tag {
		case "linux", "unix", "gc":
			return true
		case "amd64":
			return !tags["386"]
		}
		return strings.HasPrefix(tag, "go1.")
	}
	base := strings.TrimSuffix(name, ".go")
	other := "_386"
	if tags["386"] {
		other = "_amd64"
	}
	for _, suf := range []string{"_windows", "_darwin", other, "_arm64", "_arm", "_freebsd"} {
		if strings.HasSuffix(base, suf) {
			return false
		}
	}
	res := true
	goBuild := false
	var plus []constraint.Expr
	for _, line := range strings.Split(string(src), "\n") {
		t := strings.TrimSpace(line)
		if t != "" && !strings.HasPrefix(t, "//") {
			break
		}
		if constraint.IsGoBuild(t) {
			if e, err := constraint.Parse(t); err == nil {
				goBuild = true
				res = e.Eval(ok)
			}
		} else if constraint.IsPlusBuild(t) {
			if e, err := constraint.Parse(t); err == nil {
				plus = append(plus, e)
			}
		}
	}
	if !goBuild {
		for _, e := range plus {
			if !e.Eval(ok) {
				res = false
			}
		}
	}
	return res
}

func instrumentDir(src, dst string, st *instrStats) error {
	ents, err := os.ReadDir(src)
	if err != nil {
		return err
	}
	if err := os.MkdirAll(dst, 0o777); err != nil {
		return err
	}
	files := map[string][]byte{}
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() {
			if strings.HasPrefix(n, ".") || n == "docs" || n == "testdata" {
				continue
			}
			if err := instrumentDir(filepath.Join(src, n), filepath.Join(dst, n), st); err != nil {
				return err
			}
			continue
		}
		b, err := os.ReadFile(filepath.Join(src, n))
		if err != nil {
			return err
		}
		switch {
		case strings.HasSuffix(n, "_test.go"):
		case strings.HasSuffix(n, ".go"):
			files[n] = b
		case n == "go.mod":
			b = append(b, []byte("\nrequire verif/rsim v0.0.0\n")...)
			if err := os.WriteFile(filepath.Join(dst, n), b, 0o666); err != nil {
				return err
			}
		case n == "go.sum":
			if err := os.WriteFile(filepath.Join(dst, n), b, 0o666); err != nil {
				return err
			}
		}
	}
	if len(files) == 0 {
		return nil
	}
	done := map[string]string{}
	for _, tags := range []map[string]bool{{}, {"buddy": true}, {"debug": true}, {"buddy": true, "debug": true},
		{"386": true}, {"386": true, "buddy": true}, {"386": true, "debug": true}, {"386": true, "buddy": true, "debug": true}} {
		fset := token.NewFileSet()
		var asts []*ast.File
		var names []string
		for _, n := range sortedKeys(files) {
			if !matchTags(files[n], n, tags) {
				continue
			}
			f, err := parser.ParseFile(fset, n, files[n], parser.ParseComments)
			if err != nil {
				return fmt.Errorf("cannot parse %s: %v", n, err)
			}
			asts = append(asts, f)
			names = append(names, n)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil), Error: func(error) {}, GoVersion: "go1.20"}
		if tags["386"] {
			conf.Sizes = types.SizesFor("gc", "386")
		}
		pkg, _ := conf.Check("p", fset, asts, info)
		for i, f := range asts {
			if _, ok := done[names[i]]; ok {
				continue
			}
			done[names[i]] = instrumentFile(fset, f, files[names[i]], info, pkg, st)
		}
	}
	for n, b := range files {
		out, ok := done[n]
		if !ok {
			out = string(b)
		}
		if err := os.WriteFile(filepath.Join(dst, n), []byte(out), 0o666); err != nil {
			return err
		}
	}
	return nil
}

func sortedKeys(m map[string][]byte) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func instrumentFile(fset *token.FileSet, f *ast.File, src []byte, info *types.Info, pkg *types.Package, st *instrStats) string {
	st.Files++
	var edits []edit
	tf := fset.File(f.Pos())
	off := func(p token.Pos) int { return tf.Offset(p) }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	// the import of rsim, on the line of the package clause
	edits = append(edits, edit{off(f.Name.End()), off(f.Name.End()), "; import rsim \"verif/rsim\"", 0})
	for _, im := range f.Imports {
		p := strings.Trim(im.Path.Value, "\"`")
		if sw, ok := swapped[p]; ok {
			st.Imports++
			name := sw[0] + " "
			if im.Name != nil {
				name = ""
			}
			edits = append(edits, edit{off(im.Path.Pos()), off(im.Path.End()), name + "\"" + sw[1] + "\"", 0})
		}
	}
	hasCall := func(e ast.Expr) bool {
		found := false
		ast.Inspect(e, func(n ast.Node) bool {
			switch c := n.(type) {
			case *ast.CallExpr:
				if tv, ok := info.Types[c.Fun]; ok && (tv.IsType() || tv.IsBuiltin()) {
					return true
				}
				found = true
			case *ast.FuncLit:
				found = true
			case *ast.UnaryExpr:
				if c.Op == token.ARROW {
					found = true
				}
			}
			return !found
		})
		return found
	}
	isShared := func(e ast.Expr) bool {
		for {
			if p, ok := e.(*ast.ParenExpr); ok {
				e = p.X
				continue
			}
			break
		}
		switch x := e.(type) {
		case *ast.Ident:
			o := info.Uses[x]
			return o != nil && pkg != nil && o.Parent() == pkg.Scope()
		case *ast.SelectorExpr:
			return true
		case *ast.StarExpr:
			return true
		case *ast.IndexExpr:
			t := info.Types[x.X].Type
			if t == nil {
				return false
			}
			switch t.Underlying().(type) {
			case *types.Slice, *types.Pointer:
				return true
			case *types.Array:
				return true
			}
		}
		return false
	}
	addressable := func(e ast.Expr) bool {
		tv, ok := info.Types[e]
		if id, isId := e.(*ast.Ident); isId {
			_, v := info.Uses[id].(*types.Var)
			return v
		}
		return ok && tv.Addressable()
	}
	split := func(lhs, rhs ast.Expr, op string) (string, bool) {
		if !isShared(lhs) || hasCall(lhs) || !addressable(lhs) {
			return "", false
		}
		lt := info.Types[lhs].Type
		if id, ok := lhs.(*ast.Ident); ok && info.Uses[id] != nil {
			lt = info.Uses[id].Type()
		}
		if lt == nil {
			return "", false
		}
		l := text(lhs)
		if op != "" {
			if rhs != nil && hasCall(rhs) {
				return "", false
			}
			r := "1"
			if rhs != nil {
				r = text(rhs)
			}
			return fmt.Sprintf("rsim.Set(&%s, %s %s (%s))", l, l, op, r), true
		}
		if hasCall(rhs) {
			return "", false
		}
		tv := info.Types[rhs]
		if tv.Type == nil || tv.Value != nil || tv.IsNil() || !types.Identical(lt, tv.Type) {
			return "", false
		}
		return fmt.Sprintf("rsim.Set(&%s, %s)", l, text(rhs)), true
	}
	isMap := func(e ast.Expr) bool {
		t := info.Types[e].Type
		if t == nil {
			if id, ok := e.(*ast.Ident); ok && info.Uses[id] != nil {
				t = info.Uses[id].Type()
			}
		}
		if t == nil {
			return false
		}
		_, ok := t.Underlying().(*types.Map)
		return ok
	}
	typeOf := func(e ast.Expr) types.Type {
		t := info.Types[e].Type
		if t == nil {
			if id, ok := e.(*ast.Ident); ok && info.Uses[id] != nil {
				t = info.Uses[id].Type()
			}
		}
		return t
	}
	isChan := func(e ast.Expr) bool {
		t := typeOf(e)
		if t == nil {
			return false
		}
		_, ok := t.Underlying().(*types.Chan)
		return ok
	}
	ins := func(p token.Pos, t string) { edits = append(edits, edit{off(p), off(p), t, 1}) }
	repl := func(p token.Pos, n int, t string) { edits = append(edits, edit{off(p), off(p) + n, t, 1}) }
	isBlank := func(e ast.Expr) bool {
		id, ok := e.(*ast.Ident)
		return e == nil || ok && id.Name == "_"
	}
	recvOf := func(e ast.Expr) *ast.UnaryExpr {
		for {
			p, ok := e.(*ast.ParenExpr)
			if !ok {
				break
			}
			e = p.X
		}
		if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			return u
		}
		return nil
	}
	// the operations on channels
	two := map[*ast.UnaryExpr]bool{}
	comm := map[ast.Node]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if comm[n] {
			return false
		}
		switch x := n.(type) {
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u := recvOf(x.Rhs[0]); u != nil {
					two[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u := recvOf(x.Values[0]); u != nil {
					two[u] = true
				}
			}
		case *ast.SendStmt:
			st.ChanOps++
			ins(x.Pos(), "rsim.SendTo(")
			repl(x.Arrow, 2, ")(")
			ins(x.End(), ")")
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				st.ChanOps++
				fn := "rsim.Recv("
				if two[x] {
					fn = "rsim.Recv2("
				}
				repl(x.Pos(), 2, fn)
				ins(x.End(), ")")
			}
		case *ast.CallExpr:
			id, ok := x.Fun.(*ast.Ident)
			if !ok || len(x.Args) == 0 || !info.Types[x.Fun].IsBuiltin() {
				break
			}
			switch {
			case id.Name == "make" && isChan(x.Args[0]):
				st.ChanOps++
				repl(x.Pos(), 4, "rsim.NewChan")
				repl(x.Lparen, 1, "[")
				if len(x.Args) == 1 {
					repl(x.Rparen, 1, "](0)")
					break
				}
				repl(x.Args[0].End(), off(x.Args[1].Pos())-off(x.Args[0].End()), "](int(")
				repl(x.Rparen, 1, "))")
			case id.Name == "close" && isChan(x.Args[0]):
				st.ChanOps++
				repl(x.Pos(), 5, "rsim.CloseChan")
			case (id.Name == "len" || id.Name == "cap") && isChan(x.Args[0]):
				repl(x.Pos(), 3, map[string]string{"len": "rsim.ChanLen", "cap": "rsim.ChanCap"}[id.Name])
			}
		case *ast.SelectStmt:
			st.ChanOps++
			if len(x.Body.List) == 0 {
				repl(x.Pos(), len("select"), "switch rsim.Select(false); 0 ")
				break
			}
			var vars, inits []string
			def := "false"
			for _, cl := range x.Body.List {
				cc := cl.(*ast.CommClause)
				if cc.Comm == nil {
					def = "true"
					continue
				}
				comm[cc.Comm] = true
				i := len(vars)
				v := fmt.Sprintf("rsimC%d", i)
				vars = append(vars, v)
				head := fmt.Sprintf("case %d:", i)
				var u *ast.UnaryExpr
				switch y := cc.Comm.(type) {
				case *ast.SendStmt:
					inits = append(inits, fmt.Sprintf("rsim.SendCase(%s)(%s)", text(y.Chan), text(y.Value)))
				case *ast.ExprStmt:
					u = recvOf(y.X)
				case *ast.AssignStmt:
					u = recvOf(y.Rhs[0])
					l, r := text(y.Lhs[0]), v+".V"
					if len(y.Lhs) == 2 {
						l, r = l+", "+text(y.Lhs[1]), r+", "+v+".OK"
					}
					head += " " + l + " " + y.Tok.String() + " " + r + "; "
				}
				if u != nil {
					inits = append(inits, fmt.Sprintf("rsim.RecvCase(%s)", text(u.X)))
				}
				edits = append(edits, edit{off(cc.Pos()), off(cc.Colon) + 1, head, 1})
			}
			h := "switch "
			if len(vars) > 0 {
				h += strings.Join(vars, ", ") + " := " + strings.Join(inits, ", ") + "; "
			}
			h += "rsim.Select(" + strings.Join(append([]string{def}, vars...), ", ") + ") "
			repl(x.Pos(), len("select"), h)
		}
		return true
	})
	stmtEdits := func(s ast.Stmt) {
		switch x := s.(type) {
		case *ast.IncDecStmt:
			op := "+"
			if x.Tok == token.DEC {
				op = "-"
			}
			if t, ok := split(x.X, nil, op); ok {
				st.Splits++
				edits = append(edits, edit{off(x.Pos()), off(x.End()), t, 1})
			}
		case *ast.AssignStmt:
			if len(x.Lhs) != 1 || len(x.Rhs) != 1 || x.Tok == token.DEFINE {
				return
			}
			op := ""
			if x.Tok != token.ASSIGN {
				op = strings.TrimSuffix(x.Tok.String(), "=")
				if op == "<<" || op == ">>" {
					return
				}
			}
			if t, ok := split(x.Lhs[0], x.Rhs[0], op); ok {
				st.Splits++
				edits = append(edits, edit{off(x.Pos()), off(x.End()), t, 1})
			}
		case *ast.RangeStmt:
			if isChan(x.X) {
				st.ChanOps++
				id := off(x.Pos())
				b := fmt.Sprintf("for rsimC%d := %s; ; { ", id, text(x.X))
				v := "_"
				if !isBlank(x.Key) {
					v = text(x.Key)
				}
				if x.Tok == token.ASSIGN {
					b += fmt.Sprintf("var rsimO%d bool; %s, rsimO%d = ", id, v, id)
				} else {
					b += fmt.Sprintf("%s, rsimO%d := ", v, id)
				}
				b += fmt.Sprintf("rsim.Recv2(rsimC%d); if !rsimO%d { break }; ", id, id)
				edits = append(edits, edit{off(x.Pos()), off(x.Body.Lbrace) + 1, b, 1})
				return
			}
			if !isMap(x.X) {
				return
			}
			// the order of iteration is chosen by the simulator
			st.MapRanges++
			id := off(x.Pos())
			m, k, i := fmt.Sprintf("rsimM%d", id), fmt.Sprintf("rsimK%d", id), fmt.Sprintf("rsimI%d", id)
			var b strings.Builder
			fmt.Fprintf(&b, "for %s, %s, %s := rsim.Range(%s); %s < len(%s); %s++ { ", m, k, i, text(x.X), i, k, i)
			fmt.Fprintf(&b, "rsimV%d, rsimO%d := %s[%s[%s]]; if !rsimO%d { continue }; _ = rsimV%d; ", id, id, m, k, i, id, id)
			if !isBlank(x.Key) {
				fmt.Fprintf(&b, "%s %s %s[%s]; ", text(x.Key), x.Tok, k, i)
			}
			if !isBlank(x.Value) {
				fmt.Fprintf(&b, "%s %s rsimV%d; ", text(x.Value), x.Tok, id)
			}
			edits = append(edits, edit{off(x.Pos()), off(x.Body.Lbrace) + 1, b.String(), 1})
		case *ast.GoStmt:
			st.GoStmts++
			// evaluate the function and its arguments now, call it later
			fun := "rsimF"
			if fid, ok := x.Call.Fun.(*ast.Ident); ok {
				if _, isVar := info.Uses[fid].(*types.Var); !isVar {
					fun = text(x.Call.Fun)
				}
			}
			if fun == "rsimF" {
				repl(x.Pos(), off(x.Call.Pos())-off(x.Pos()), "{ rsimF := ")
				repl(x.Call.Lparen, 1, "; ")
			} else {
				repl(x.Pos(), off(x.Call.Lparen)+1-off(x.Pos()), "{ ")
			}
			var args []string
			prev := x.Call.Lparen + 1
			for i, a := range x.Call.Args {
				v := fmt.Sprintf("rsimA%d", i)
				if tv := info.Types[a]; tv.Value != nil || tv.IsNil() {
					v = text(a)
					repl(prev, off(a.End())-off(prev), "")
				} else {
					edits = append(edits, edit{off(prev), off(a.Pos()), "; " + v + " := ", 0})
				}
				args = append(args, v)
				prev = a.End()
			}
			ell := ""
			if x.Call.Ellipsis.IsValid() {
				ell = "..."
			}
			repl(prev, off(x.End())-off(prev), fmt.Sprintf("; rsim.Spawn(func() { %s(%s%s) }) }", fun, strings.Join(args, ", "), ell))
		}
	}
	// accesses to maps and to package-level variables of several words, made
	// unconditionally when the statement starts
	pure := func(e ast.Expr) bool {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
			case *ast.SelectorExpr:
				e = x.X
			case *ast.StarExpr:
				e = x.X
			case *ast.Ident:
				return x.Name != "_"
			default:
				return false
			}
		}
	}
	pkgVar := func(e ast.Expr) bool {
		id, ok := e.(*ast.Ident)
		if !ok || pkg == nil {
			return false
		}
		v, ok := info.Uses[id].(*types.Var)
		if !ok || v.Parent() != pkg.Scope() {
			return false
		}
		switch t := v.Type().Underlying().(type) {
		case *types.Map, *types.Slice, *types.Interface:
			return true
		case *types.Basic:
			return t.Kind() == types.String
		}
		return false
	}
	var acc []string
	seenAcc := map[string]bool{}
	site := ""
	emit := func(t string) {
		if !seenAcc[t] {
			seenAcc[t] = true
			acc = append(acc, t)
			st.Accesses++
		}
	}
	onMap := func(e ast.Expr, write bool) {
		if pure(e) {
			emit(fmt.Sprintf("rsim.Map(%v, %q, func() any { return %s }); ", write, site, text(e)))
		}
	}
	var reads func(e ast.Node)
	reads = func(e ast.Node) {
		if e == nil {
			return
		}
		ast.Inspect(e, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncLit:
				return false
			case *ast.BinaryExpr:
				if x.Op == token.LAND || x.Op == token.LOR {
					reads(x.X)
					return false
				}
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					return false
				}
			case *ast.KeyValueExpr:
				reads(x.Value)
				return false
			case *ast.SelectorExpr:
				reads(x.X)
				return false
			case *ast.IndexExpr:
				if isMap(x.X) {
					onMap(x.X, false)
				}
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) > 0 && info.Types[x.Fun].IsBuiltin() {
					switch {
					case id.Name == "delete", id.Name == "clear" && isMap(x.Args[0]):
						onMap(x.Args[0], true)
					case id.Name == "len" && isMap(x.Args[0]):
						onMap(x.Args[0], false)
					}
				}
			case *ast.Ident:
				if pkgVar(x) {
					emit(fmt.Sprintf("rsim.Var(false, %q, &%s); ", site, x.Name))
				}
			}
			return true
		})
	}
	writes := func(e ast.Expr) {
		for {
			if p, ok := e.(*ast.ParenExpr); ok {
				e = p.X
				continue
			}
			break
		}
		if ix, ok := e.(*ast.IndexExpr); ok && isMap(ix.X) {
			onMap(ix.X, true)
			reads(ix.X)
			reads(ix.Index)
			return
		}
		if pkgVar(e) {
			emit(fmt.Sprintf("rsim.Var(true, %q, &%s); ", site, e.(*ast.Ident).Name))
			return
		}
		if _, ok := e.(*ast.Ident); !ok {
			reads(e)
		}
	}
	var accesses func(s ast.Stmt)
	accesses = func(s ast.Stmt) {
		switch x := s.(type) {
		case nil:
		case *ast.ExprStmt:
			reads(x.X)
		case *ast.AssignStmt:
			for _, r := range x.Rhs {
				reads(r)
			}
			for _, l := range x.Lhs {
				if x.Tok != token.DEFINE {
					writes(l)
				}
				if x.Tok != token.DEFINE && x.Tok != token.ASSIGN {
					reads(l)
				}
			}
		case *ast.IncDecStmt:
			writes(x.X)
			reads(x.X)
		case *ast.ReturnStmt:
			for _, r := range x.Results {
				reads(r)
			}
		case *ast.DeclStmt:
			if d, ok := x.Decl.(*ast.GenDecl); ok && d.Tok == token.VAR {
				for _, sp := range d.Specs {
					for _, v := range sp.(*ast.ValueSpec).Values {
						reads(v)
					}
				}
			}
		case *ast.IfStmt:
			if x.Init != nil {
				accesses(x.Init)
			} else {
				reads(x.Cond)
			}
		case *ast.SwitchStmt:
			if x.Init != nil {
				accesses(x.Init)
			} else if x.Tag != nil {
				reads(x.Tag)
			}
		case *ast.ForStmt:
			if x.Init != nil {
				accesses(x.Init)
			} else if x.Cond != nil {
				reads(x.Cond)
			}
		case *ast.RangeStmt:
			reads(x.X)
			if isMap(x.X) {
				onMap(x.X, false)
			}
		case *ast.DeferStmt:
			for _, a := range x.Call.Args {
				reads(a)
			}
		case *ast.GoStmt:
			for _, a := range x.Call.Args {
				reads(a)
			}
		}
	}
	var list func(l []ast.Stmt)
	list = func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			st.Yields++
			edits = append(edits, edit{off(s.Pos()), off(s.Pos()), "rsim.Y(); ", 0})
			pos := s.Pos()
			if ls, ok := s.(*ast.LabeledStmt); ok {
				s = ls.Stmt
			}
			acc, seenAcc = nil, map[string]bool{}
			site = fmt.Sprintf("%s:%d", filepath.Base(tf.Name()), tf.Line(pos))
			accesses(s)
			if len(acc) > 0 {
				edits = append(edits, edit{off(pos), off(pos), strings.Join(acc, ""), 0})
			}
			stmtEdits(s)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				st.Yields++
				edits = append(edits, edit{off(x.Body.Lbrace) + 1, off(x.Body.Lbrace) + 1, " rsim.Y() ", 0})
			}
		}
		return true
	})
	// switch and select bodies are BlockStmts whose list holds clauses: a yield
	// there is not a statement
	clause := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CaseClause, *ast.CommClause:
			clause[off(n.Pos())] = true
		}
		return true
	})
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		return edits[i].prio < edits[j].prio
	})
	var out strings.Builder
	pos := 0
	for _, e := range edits {
		if e.off < pos {
			continue // inside text already replaced
		}
		if e.prio == 0 && e.off == e.end && clause[e.off] && strings.HasPrefix(e.text, "rsim.Y()") {
			continue
		}
		out.Write(src[pos:e.off])
		out.WriteString(e.text)
		pos = e.end
	}
	out.Write(src[pos:])
	out.WriteString("\nvar _ = rsim.Y\n")
	return out.String()
}
