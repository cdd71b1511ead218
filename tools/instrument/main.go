// instrument DIR OUTDIR: writes the Go files of a package to OUTDIR with a call
// of the scheduler before every statement, and with sleeping and listening handed
// to it; prints the overlay entries. Nothing else changes, line numbers included.
// With a third argument, only the functions that mention that package are treated,
// in the files that have any.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	at, end int
	text    string
}

func main() {
	dir, out, only := os.Args[1], os.Args[2], ""
	if len(os.Args) > 3 {
		only = os.Args[3]
	}
	files, err := filepath.Glob(filepath.Join(dir, "*.go"))
	check(err)
	pkg := ""
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		check(err)
		fs := token.NewFileSet()
		tree, err := parser.ParseFile(fs, f, src, parser.ParseComments)
		check(err)
		for _, c := range tree.Comments { // not part of this build
			for _, l := range c.List {
				if strings.HasPrefix(l.Text, "//go:build !verif") {
					src = nil
				}
			}
		}
		if src == nil {
			continue
		}
		pkg = tree.Name.Name
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		names := map[string]string{} // local name of a package -> path
		for _, im := range tree.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			n := p[strings.LastIndex(p, "/")+1:]
			if im.Name != nil {
				n = im.Name.Name
			}
			names[n] = p
		}
		used := map[string]string{}
		var edits []edit
		list := func(l []ast.Stmt) {
			for _, s := range l {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
					continue
				}
				where := fmt.Sprintf("%s:%d", filepath.Base(f), fs.Position(s.Pos()).Line)
				if _, ok := s.(*ast.GoStmt); ok {
					where = "go " + where
				}
				edits = append(edits, edit{off(s.Pos()), off(s.Pos()), fmt.Sprintf("verifYield(%q);", where)})
			}
		}
		ast.Inspect(tree, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl:
				if only != "" && !mentions(x, names, only) {
					return false
				}
			case *ast.BlockStmt:
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			case *ast.CommClause:
				list(x.Body)
			case *ast.SelectorExpr:
				id, ok := x.X.(*ast.Ident)
				if !ok || id.Obj != nil {
					break
				}
				for _, r := range [][3]string{{"time", "Sleep", "verifSleep"}, {"net", "ListenTCP", "verifListenTCP"}} {
					if names[id.Name] == r[0] && x.Sel.Name == r[1] {
						edits = append(edits, edit{off(x.Pos()), off(x.End()), r[2]})
						used[id.Name] = r[0]
					}
				}
			}
			return true
		})
		if len(edits) == 0 {
			continue
		}
		sort.SliceStable(edits, func(i, j int) bool { return edits[i].at < edits[j].at })
		var b strings.Builder
		pos := 0
		for _, e := range edits {
			b.Write(src[pos:e.at])
			b.WriteString(e.text)
			pos = e.end
		}
		b.Write(src[pos:])
		for n, p := range used { // still imported
			b.WriteString(map[string]string{"time": "\nvar _ " + n + ".Duration\n", "net": "\nvar _ " + n + ".Addr\n"}[p])
		}
		o := filepath.Join(out, pkg+"_"+filepath.Base(f)+".txt")
		check(os.WriteFile(o, []byte(b.String()), 0o644))
		fmt.Printf(", %q: %q", f, o)
	}
	o := filepath.Join(out, pkg+"_zz_verifyield.go.txt")
	check(os.WriteFile(o, []byte(`package `+pkg+`

import (
	"net"
	"time"
)

var verifYieldHook func(string)
var verifSleepHook func(time.Duration)
var verifListenHook func(*net.TCPListener)

func verifYield(where string) {
	if verifYieldHook != nil {
		verifYieldHook(where)
	}
}

func verifSleep(d time.Duration) {
	if verifSleepHook != nil {
		verifSleepHook(d)
	} else {
		time.Sleep(d)
	}
}

func verifListenTCP(network string, a *net.TCPAddr) (*net.TCPListener, error) {
	l, err := net.ListenTCP(network, a)
	if err == nil && verifListenHook != nil {
		verifListenHook(l)
	}
	return l, err
}
`), 0o644))
	fmt.Printf(", %q: %q", filepath.Join(dir, "zz_verifyield.go"), o)
}

func mentions(n ast.Node, names map[string]string, path string) (found bool) {
	ast.Inspect(n, func(n ast.Node) bool {
		if x, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := x.X.(*ast.Ident); ok && names[id.Name] == path {
				found = true
			}
		}
		return true
	})
	return
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
