// Command instr writes instrumented copies of the non-test sources of the repository's packages and the overlay file
// for go build: map iterations in the order of the explorer, the package sync replaced by its controlled twin, go
// statements as controlled threads, and scheduling points before statements. It changes no behaviour other than the
// choice among the schedules and iteration orders that Go permits.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type pkgInfo struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Export     string
	Module     *struct{ Path string }
	ImportMap  map[string]string
}

type edit struct {
	pos, end int
	text     string
}

const module = "github.com/cybergarage/go-sqlparser"

func main() {
	out := flag.String("out", "", "output directory")
	points := flag.Bool("points", false, "insert scheduling points before statements")
	syncs := flag.Bool("sync", false, "replace the package sync and go statements")
	maps := flag.Bool("maps", false, "iterate over maps in the order of the explorer")
	flag.Parse()
	if err := run(*out, flag.Args(), *points, *syncs, *maps); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

func run(out string, patterns []string, points, syncs, maps bool) error {
	args := append([]string{"list", "-export", "-deps", "-json=ImportPath,Dir,GoFiles,Export,Module,ImportMap"}, patterns...)
	cmd := exec.Command("go", args...)
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		return err
	}
	exports := map[string]string{}
	pkgs := []pkgInfo{}
	dec := json.NewDecoder(strings.NewReader(string(b)))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Path == module {
			pkgs = append(pkgs, p)
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok || f == "" {
			return nil, fmt.Errorf("no export data of %s", path)
		}
		return os.Open(f)
	})
	replace := map[string]string{}
	stats := map[string]int{}
	for _, p := range pkgs {
		files := []*ast.File{}
		names := []string{}
		for _, n := range p.GoFiles {
			f, err := parser.ParseFile(fset, filepath.Join(p.Dir, n), nil, parser.ParseComments)
			if err != nil {
				return err
			}
			files = append(files, f)
			names = append(names, n)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
			return fmt.Errorf("%s: %w", p.ImportPath, err)
		}
		for i, f := range files {
			src, err := os.ReadFile(filepath.Join(p.Dir, names[i]))
			if err != nil {
				return err
			}
			generated := ast.IsGenerated(f) || len(src) > 300000
			res, n := instrument(fset, f, info, src, points && !generated, syncs, maps, stats)
			if n == 0 {
				continue
			}
			name := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(p.ImportPath, module), "/", "_")+"_"+names[i])
			if err := os.WriteFile(name, res, 0o644); err != nil {
				return err
			}
			replace[filepath.Join(p.Dir, names[i])] = name
		}
	}
	ov, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), ov, 0o644); err != nil {
		return err
	}
	st, _ := json.Marshal(stats)
	return os.WriteFile(filepath.Join(out, "stats.json"), st, 0o644)
}

func instrument(fset *token.FileSet, f *ast.File, info *types.Info, src []byte, points, syncs, maps bool, stats map[string]int) ([]byte, int) {
	edits := []edit{}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	used := false
	insert := func(p token.Pos, text string) { edits = append(edits, edit{off(p), off(p), text}) }
	for _, im := range f.Imports {
		if syncs && im.Path.Value == `"sync"` {
			text := `"verif/mc/vsync"`
			if im.Name == nil {
				text = "sync " + text
			}
			edits = append(edits, edit{off(im.Path.Pos()), off(im.Path.End()), text})
			stats["sync imports"]++
		}
	}
	stmts := func(list []ast.Stmt) {
		if !points {
			return
		}
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			insert(s.Pos(), "vsched.Point(); ")
			used = true
			stats["points"]++
		}
	}
	mapsPkg := func(e ast.Expr) bool {
		id, ok := e.(*ast.Ident)
		if !ok {
			return false
		}
		pn, ok := info.Uses[id].(*types.PkgName)
		return ok && pn.Imported().Path() == "maps"
	}
	mapsUses, mapsKept := 0, 0
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			if x.Recv == nil && x.Name.Name == "init" {
				return false
			}
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stats["channel operations"]++
			stmts(x.Body)
		case *ast.SendStmt:
			stats["channel operations"]++
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				stats["channel operations"]++
			}
		case *ast.RangeStmt:
			if tv, ok := info.Types[x.X]; ok && maps {
				if _, ok := tv.Type.Underlying().(*types.Map); ok {
					insert(x.X.Pos(), "vsched.All(")
					insert(x.X.End(), ")")
					used = true
					stats["map ranges"]++
				}
			}
		case *ast.SelectorExpr:
			if mapsPkg(x.X) {
				mapsUses++
				if maps && (x.Sel.Name == "Keys" || x.Sel.Name == "Values" || x.Sel.Name == "All") {
					edits = append(edits, edit{off(x.X.Pos()), off(x.X.End()), "vsched"})
					used = true
					stats["map ranges"]++
				} else {
					mapsKept++
				}
			}
		case *ast.GoStmt:
			if !syncs {
				break
			}
			stats["go statements"]++
			used = true
			if lit, ok := x.Call.Fun.(*ast.FuncLit); ok && len(x.Call.Args) == 0 {
				edits = append(edits, edit{off(x.Go), off(x.Go) + 2, "vsched.Go("})
				edits = append(edits, edit{off(lit.End()), off(x.Call.Rparen) + 1, ")"})
				break
			}
			if x.Call.Ellipsis.IsValid() || len(x.Call.Args) == 0 {
				edits = append(edits, edit{off(x.Go), off(x.Go) + 2, "vsched.Go(func() {"})
				insert(x.Call.End(), "})")
				break
			}
			ids := []string{}
			for i := range x.Call.Args {
				ids = append(ids, fmt.Sprintf("vschedArg%d", i))
			}
			// go f(a, b) -> { x, y := a, b; vsched.Go(func() { f(x, y) }) } with the function value kept in place.
			call := string(src[off(x.Call.Fun.Pos()):off(x.Call.Fun.End())])
			if _, ok := x.Call.Fun.(*ast.FuncLit); ok {
				edits = append(edits, edit{off(x.Go), off(x.Go) + 2, "vsched.Go(func() {"})
				insert(x.Call.End(), "})")
				break
			}
			args := string(src[off(x.Call.Lparen)+1 : off(x.Call.Rparen)])
			edits = append(edits, edit{off(x.Go), off(x.Call.End()), "{ " + strings.Join(ids, ", ") + " := " + args + "; vsched.Go(func() { " + call + "(" + strings.Join(ids, ", ") + ") }) }"})
			return false
		}
		return true
	})
	if len(edits) == 0 {
		return src, 0
	}
	if used {
		insert(f.Name.End(), "; import \"verif/mc/vsched\"")
	}
	if maps && mapsUses > 0 && mapsKept == 0 {
		// The import of maps is no longer used.
		insert(f.Name.End(), "")
		for _, im := range f.Imports {
			if im.Path.Value == `"maps"` {
				if im.Name == nil {
					insert(im.Path.Pos(), "_ ")
				} else {
					edits = append(edits, edit{off(im.Name.Pos()), off(im.Name.End()), "_"})
				}
			}
		}
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].pos < edits[j].pos })
	sb := strings.Builder{}
	at := 0
	for _, e := range edits {
		if e.pos < at {
			continue // inside of a replaced part
		}
		sb.Write(src[at:e.pos])
		sb.WriteString(e.text)
		at = e.end
	}
	sb.Write(src[at:])
	return []byte(sb.String()), len(edits)
}
