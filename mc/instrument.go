package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// Classes of scheduling points.
const (
	ptFunc   = 1 // function entry
	ptStmt   = 2 // statement of a hand-written file
	ptGen    = 4 // statement of a generated file
	ptGlobal = 8 // statement that mentions a package-level variable, or follows one
)

// instrument writes copies of all packages of /repo that the explorer links, with
// a scheduling point before every statement, and an overlay that uses them.
func instrument(dir string) (overlay string, points int) {
	cmd := exec.Command("go", "list", "-deps", "-f", "{{.Dir}}|{{range .GoFiles}}{{.}} {{end}}", ".")
	cmd.Dir = filepath.Join(verifDir(), "mc")
	if _, err := os.Stat(cmd.Dir); err != nil {
		cmd.Dir = "/verif/mc"
	}
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		fmt.Fprintln(os.Stderr, "go list:", err)
		os.Exit(2)
	}
	type file struct {
		path string
		src  []byte
		ast  *ast.File
		gen  bool
	}
	fset := token.NewFileSet()
	var pkgs [][]*file
	globals := map[string]bool{} // exported variables of all packages
	var local []map[string]bool
	for _, l := range strings.Split(string(b), "\n") {
		d, names, ok := strings.Cut(l, "|")
		if !ok || d != repoDir() && !strings.HasPrefix(d, repoDir()+"/") {
			continue
		}
		var fs []*file
		loc := map[string]bool{}
		for _, n := range strings.Fields(names) {
			f := &file{path: filepath.Join(d, n)}
			f.src, err = os.ReadFile(f.path)
			must(err)
			f.ast, err = parser.ParseFile(fset, f.path, f.src, parser.ParseComments)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			f.gen = ast.IsGenerated(f.ast)
			for _, dc := range f.ast.Decls {
				if gd, ok := dc.(*ast.GenDecl); ok && gd.Tok == token.VAR {
					for _, sp := range gd.Specs {
						for _, id := range sp.(*ast.ValueSpec).Names {
							loc[id.Name] = true
							if id.IsExported() {
								globals[id.Name] = true
							}
						}
					}
				}
			}
			fs = append(fs, f)
		}
		pkgs = append(pkgs, fs)
		local = append(local, loc)
	}
	repl := map[string]string{}
	for i, fs := range pkgs {
		for _, f := range fs {
			type ins struct {
				off, class int
			}
			var at []ins
			mentions := func(s ast.Stmt) (yes bool) {
				ast.Inspect(s, func(n ast.Node) bool {
					switch x := n.(type) {
					case *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
						return n == ast.Node(s)
					case *ast.SelectorExpr:
						if _, ok := x.X.(*ast.Ident); ok && globals[x.Sel.Name] {
							yes = true
						}
					case *ast.Ident:
						if local[i][x.Name] {
							yes = true
						}
					}
					return true
				})
				return
			}
			list := func(l []ast.Stmt) {
				prev := false
				for _, s := range l {
					c := ptStmt
					if f.gen {
						c = ptGen
					}
					m := mentions(s)
					if m || prev {
						c |= ptGlobal
					}
					prev = m
					if _, empty := s.(*ast.EmptyStmt); empty {
						continue
					}
					at = append(at, ins{fset.Position(s.Pos()).Offset, c})
				}
			}
			ast.Inspect(f.ast, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BlockStmt:
					if len(x.List) > 0 {
						switch x.List[0].(type) {
						case *ast.CaseClause, *ast.CommClause:
							return true
						}
					}
					list(x.List)
				case *ast.CaseClause:
					list(x.Body)
				case *ast.CommClause:
					list(x.Body)
				case *ast.FuncDecl:
					if x.Body != nil {
						at = append(at, ins{fset.Position(x.Body.Lbrace).Offset + 1, ptFunc})
					}
				case *ast.FuncLit:
					at = append(at, ins{fset.Position(x.Body.Lbrace).Offset + 1, ptFunc})
				}
				return true
			})
			if len(at) == 0 {
				continue
			}
			points += len(at)
			sort.SliceStable(at, func(a, b int) bool { return at[a].off < at[b].off })
			var out []byte
			pos := fset.Position(f.ast.Name.End()).Offset
			out = append(out, f.src[:pos]...)
			out = append(out, `; import vsched__ "verifmc/vsched"`...)
			for _, x := range at {
				out = append(out, f.src[pos:x.off]...)
				out = append(out, fmt.Sprintf(" vsched__.P(%d); ", x.class)...)
				pos = x.off
			}
			out = append(out, f.src[pos:]...)
			to := filepath.Join(dir, fmt.Sprintf("ov%d_%s", len(repl), filepath.Base(f.path)))
			must(os.WriteFile(to, out, 0o644))
			repl[f.path] = to
		}
	}
	overlay = filepath.Join(dir, "overlay.json")
	j, _ := json.Marshal(map[string]any{"Replace": repl})
	must(os.WriteFile(overlay, j, 0o644))
	return overlay, points
}
