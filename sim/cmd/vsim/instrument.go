package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// repoDir is where the code under test lives.
const repoDir = "/repo"

type goPackage struct {
	Dir        string
	ImportPath string
	Export     string
	GoFiles    []string
	Standard   bool
}

// instrumented describes how the library was instrumented.
type instrumented struct {
	Replace   map[string]string // the overlay
	Sites     []string          // file:line of each site, by number
	Preempt   bool              // statements have yield points
	MapRanges int               // number of map iterations whose order is steered
	Note      string
}

type edit struct {
	off  int
	end  int
	text string
}

// instrument writes instrumented copies of the library's source files to dir. They
// differ in: a call to simrt.Y before every statement, an iteration order of maps
// that the simulator decides, and a simulated package sync. Line numbers are kept.
func instrument(dir string, level int) (*instrumented, error) {
	res := &instrumented{Replace: map[string]string{}, Sites: []string{"harness"}, Preempt: level >= 1}
	if level == 0 {
		res.Note = "library not instrumented"
		return res, nil
	}
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=Dir,ImportPath,Export,GoFiles,Standard", "./...")
	cmd.Dir = repoDir
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, stderr.String())
	}
	exports := map[string]string{}
	var pkgs []goPackage
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p goPackage
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		exports[p.ImportPath] = p.Export
		if !p.Standard && (p.Dir == repoDir || strings.HasPrefix(p.Dir, repoDir+"/")) {
			pkgs = append(pkgs, p)
		}
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].ImportPath < pkgs[j].ImportPath })
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok || f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	type source struct {
		path string
		src  []byte
		file *ast.File
	}
	all := map[string][]source{}
	concurrent := false
	for _, p := range pkgs {
		for _, name := range p.GoFiles {
			path := filepath.Join(p.Dir, name)
			src, err := os.ReadFile(path)
			if err != nil {
				return nil, err
			}
			file, err := parser.ParseFile(fset, path, src, parser.ParseComments)
			if err != nil {
				return nil, err
			}
			all[p.ImportPath] = append(all[p.ImportPath], source{path, src, file})
			ast.Inspect(file, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.GoStmt, *ast.SelectStmt, *ast.SendStmt:
					concurrent = true
				case *ast.UnaryExpr:
					if n.Op == token.ARROW {
						concurrent = true
					}
				}
				return true
			})
		}
	}
	if concurrent {
		// The scheduler does not control goroutines or channels of the library itself.
		res.Preempt = false
		res.Note = "the library has goroutines or channel operations of its own: tasks switch between operations only"
	}
	n := 0
	for _, p := range pkgs {
		sources := all[p.ImportPath]
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
		files := make([]*ast.File, 0, len(sources))
		for _, s := range sources {
			files = append(files, s.file)
		}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		_, _ = conf.Check(p.ImportPath, fset, files, info)
		for _, s := range sources {
			var edits []edit
			used := false
			off := func(p token.Pos) int { return fset.Position(p).Offset }
			list := func(stmts []ast.Stmt) {
				if !res.Preempt {
					return
				}
				for _, st := range stmts {
					if _, ok := st.(*ast.EmptyStmt); ok {
						continue
					}
					id := len(res.Sites)
					pos := fset.Position(st.Pos())
					rel, _ := filepath.Rel(repoDir, pos.Filename)
					res.Sites = append(res.Sites, fmt.Sprintf("%s:%d", rel, pos.Line))
					edits = append(edits, edit{off(st.Pos()), off(st.Pos()), fmt.Sprintf("simrt.Y(%d); ", id)})
					used = true
				}
			}
			ast.Inspect(s.file, func(nd ast.Node) bool {
				switch nd := nd.(type) {
				case *ast.ExprStmt:
					if name := exits(nd.X); name != "" {
						edits = append(edits, edit{off(nd.Pos()), off(nd.Pos()), fmt.Sprintf("simrt.Exits(%q); ", name)})
						used = true
					}
				case *ast.BlockStmt:
					if len(nd.List) > 0 {
						switch nd.List[0].(type) {
						case *ast.CaseClause, *ast.CommClause:
							return true
						}
					}
					list(nd.List)
				case *ast.CaseClause:
					list(nd.Body)
				case *ast.CommClause:
					list(nd.Body)
				case *ast.ForStmt:
					// a loop without statements could be endless, too
					if len(nd.Body.List) == 0 && res.Preempt {
						id := len(res.Sites)
						pos := fset.Position(nd.Pos())
						rel, _ := filepath.Rel(repoDir, pos.Filename)
						res.Sites = append(res.Sites, fmt.Sprintf("%s:%d", rel, pos.Line))
						at := off(nd.Body.Lbrace) + 1
						edits = append(edits, edit{at, at, fmt.Sprintf(" simrt.Y(%d) ", id)})
						used = true
					}
				case *ast.RangeStmt:
					if e := mapRange(s.src, off, nd, info, len(edits)+n); e != nil {
						edits = append(edits, e...)
						res.MapRanges++
						used = true
					}
				}
				return true
			})
			for _, im := range s.file.Imports {
				if im.Path.Value == `"sync"` {
					text := `"verif.local/sim/simsync"`
					if im.Name == nil {
						text = "sync " + text
					}
					edits = append(edits, edit{off(im.Path.Pos()), off(im.Path.End()), text})
				}
			}
			if used {
				end := off(s.file.Name.End())
				edits = append(edits, edit{end, end, `; import simrt "verif.local/sim/simrt"`})
			}
			if len(edits) == 0 {
				continue
			}
			sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
			var b bytes.Buffer
			last := 0
			if !bytes.HasPrefix(s.src, []byte("//go:build")) && !bytes.Contains(s.src, []byte("\n//go:build")) {
				// the language version that steered map iterations need
				fmt.Fprintf(&b, "//go:build go1.21\n\n//line %s:1\n", s.path)
			}
			for _, e := range edits {
				b.Write(s.src[last:e.off])
				b.WriteString(e.text)
				last = e.end
			}
			b.Write(s.src[last:])
			n++
			target := filepath.Join(dir, fmt.Sprintf("f%d_%s", n, filepath.Base(s.path)))
			if err := os.WriteFile(target, b.Bytes(), 0o644); err != nil {
				return nil, err
			}
			res.Replace[s.path] = target
		}
	}
	if len(res.Sites) >= 1<<14 {
		return nil, fmt.Errorf("too many statements")
	}
	return res, nil
}

// mapRange rewrites "for k, v := range m {" to an iteration in the simulator's order.
func mapRange(src []byte, off func(token.Pos) int, st *ast.RangeStmt, info *types.Info, id int) []edit {
	tv, ok := info.Types[st.X]
	if !ok || tv.Type == nil {
		return nil
	}
	if _, ok := tv.Type.Underlying().(*types.Map); !ok {
		return nil
	}
	switch st.X.(type) {
	case *ast.Ident, *ast.SelectorExpr:
	default:
		return nil
	}
	hasLit := false
	ast.Inspect(st.Body, func(n ast.Node) bool {
		if _, ok := n.(*ast.FuncLit); ok {
			hasLit = true
		}
		return true
	})
	if hasLit {
		return nil
	}
	m := string(src[off(st.X.Pos()):off(st.X.End())])
	v := fmt.Sprintf("simrtPair%d", id)
	name := func(e ast.Expr) string {
		if e == nil {
			return "_"
		}
		return string(src[off(e.Pos()):off(e.End())])
	}
	head := fmt.Sprintf("for _, %s := range simrt.Pairs(%s) { if !simrt.Live(%s, &%s) { continue }; ", v, m, m, v)
	k, val := name(st.Key), name(st.Value)
	op := "="
	if st.Tok == token.DEFINE {
		op = ":="
		if k == "_" && val == "_" {
			op = "="
		}
	}
	if st.Key != nil && !(k == "_" && val == "_") {
		head += fmt.Sprintf("%s, %s %s %s.K, %s.V; ", k, val, op, v, v)
	}
	return []edit{{off(st.For), off(st.Body.Lbrace) + 1, head}}
}

// patchedPool returns the overlay entry that makes sync.Pool deterministic under the race
// detector (the real one drops items at random there).
func patchedPool(dir string) (string, string, bool) {
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return "", "", false
	}
	path := filepath.Join(strings.TrimSpace(string(out)), "src/sync/pool.go")
	src, err := os.ReadFile(path)
	if err != nil {
		return "", "", false
	}
	const old = "if runtime_randn(4) == 0 {"
	if bytes.Count(src, []byte(old)) != 1 {
		return "", "", false
	}
	src = bytes.Replace(src, []byte(old), []byte("if runtime_randn(4) < 4 {"), 1)
	target := filepath.Join(dir, "pool.go")
	if err := os.WriteFile(target, src, 0o644); err != nil {
		return "", "", false
	}
	return path, target, true
}

// exits tells which function that ends the process is called, if any.
func exits(x ast.Expr) string {
	call, ok := x.(*ast.CallExpr)
	if !ok {
		return ""
	}
	sel, ok := call.Fun.(*ast.SelectorExpr)
	if !ok {
		return ""
	}
	pkg, ok := sel.X.(*ast.Ident)
	if !ok {
		return ""
	}
	switch name := pkg.Name + "." + sel.Sel.Name; name {
	case "os.Exit", "syscall.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln":
		return name
	}
	return ""
}
