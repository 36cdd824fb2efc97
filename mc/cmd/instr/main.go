// Command instr writes copies of the sources of the code under test, as they are now, with package sync
// replaced by vsync, package sync/atomic by vatomic, and iterations over maps going through vmap; and an
// overlay file for go build -overlay. The sources themselves stay as they are.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

type edit struct {
	at, end int
	text    string
}

func main() {
	repo := flag.String("repo", "/repo", "the code under test")
	out := flag.String("out", "", "directory for the copies")
	doSync := flag.Bool("sync", true, "replace sync and sync/atomic")
	doMaps := flag.Bool("maps", true, "replace map iterations")
	flag.Parse()
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps, Dir: *repo}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		fail(err)
	}
	replace := map[string]string{}
	n := 0
	for _, p := range pkgs {
		if strings.Contains(p.PkgPath, "/fixtures") {
			continue
		}
		for _, e := range p.Errors {
			fail(fmt.Errorf("%s: %v", p.PkgPath, e))
		}
		resets := map[string][]string{} // by file: the functions
		var order []string
		k := 0
		for _, init := range p.TypesInfo.InitOrder {
			var lhs []string
			skip := false
			for _, v := range init.Lhs {
				if strings.Contains(v.Type().String(), "regexp.Regexp") || v.Pkg() != p.Types {
					skip = true
				}
				lhs = append(lhs, v.Name())
			}
			blank := true
			for _, l := range lhs {
				blank = blank && l == "_"
			}
			if skip || blank {
				continue
			}
			pos := p.Fset.Position(init.Rhs.Pos())
			endp := p.Fset.Position(init.Rhs.End())
			src, err := os.ReadFile(pos.Filename)
			if err != nil {
				fail(err)
			}
			name := fmt.Sprintf("verifReset%d", k)
			k++
			resets[pos.Filename] = append(resets[pos.Filename], fmt.Sprintf("func %s() { %s = %s }", name, strings.Join(lhs, ", "), src[pos.Offset:endp.Offset]))
			order = append(order, name)
		}
		for _, f := range p.Syntax {
			file := p.Fset.Position(f.Pos()).Filename
			if strings.HasSuffix(file, "_test.go") || !strings.HasPrefix(file, *repo) {
				continue
			}
			src, err := os.ReadFile(file)
			if err != nil {
				fail(err)
			}
			var eds []edit
			at := func(pos ast.Node) (int, int) {
				return p.Fset.Position(pos.Pos()).Offset, p.Fset.Position(pos.End()).Offset
			}
			for _, im := range f.Imports {
				path, _ := strconv.Unquote(im.Path.Value)
				to, name := "", ""
				switch {
				case *doSync && path == "sync":
					to, name = "verif/vsync", "sync"
				case *doSync && path == "sync/atomic":
					to, name = "verif/vatomic", "atomic"
				case *doMaps && path == "maps":
					to, name = "verif/vmaps", "maps"
				}
				if to == "" {
					continue
				}
				a, b := at(im.Path)
				if im.Name == nil {
					eds = append(eds, edit{a, b, name + " " + strconv.Quote(to)})
				} else {
					eds = append(eds, edit{a, b, strconv.Quote(to)})
				}
			}
			usesMap := false
			var initFuncs []string
			ast.Inspect(f, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.RangeStmt:
					if !*doMaps {
						return true
					}
					tv, ok := p.TypesInfo.Types[x.X]
					if !ok {
						return true
					}
					t := tv.Type.Underlying()
					if tp, ok := t.(*types.Interface); ok && tp != nil {
						return true
					}
					if _, ok := t.(*types.Map); ok {
						a, b := at(x.X)
						eds = append(eds, edit{a, a, "verifmap.Range("}, edit{b, b, ")"})
						usesMap = true
					}
				case *ast.FuncDecl:
					if x.Recv == nil && x.Name.Name == "init" {
						name := fmt.Sprintf("verifInit%d", k)
						k++
						a, b := at(x.Name)
						eds = append(eds, edit{a, b, name})
						initFuncs = append(initFuncs, name)
						order = append(order, name)
					}
				}
				return true
			})
			// zero variables
			for _, d := range f.Decls {
				g, ok := d.(*ast.GenDecl)
				if !ok || g.Tok.String() != "var" {
					continue
				}
				for _, s := range g.Specs {
					v := s.(*ast.ValueSpec)
					if len(v.Values) > 0 {
						continue
					}
					for _, id := range v.Names {
						if id.Name == "_" {
							continue
						}
						a, b := at(v.Type)
						name := fmt.Sprintf("verifReset%d", k)
						k++
						resets[file] = append(resets[file], fmt.Sprintf("func %s() { %s = *new(%s) }", name, id.Name, src[a:b]))
						// zero values first
						order = append([]string{name}, order...)
					}
				}
			}
			extra := strings.Join(resets[file], "\n")
			for _, fn := range initFuncs {
				extra += "\nfunc init() { " + fn + "() }"
			}
			if usesMap {
				_, b := at(f.Name)
				eds = append(eds, edit{b, b, "; import verifmap \"verif/vmap\""})
			}
			if len(eds) == 0 && extra == "" {
				continue
			}
			sort.SliceStable(eds, func(i, j int) bool { return eds[i].at < eds[j].at })
			var b bytes.Buffer
			last := 0
			for _, e := range eds {
				b.Write(src[last:e.at])
				b.WriteString(e.text)
				last = e.end
			}
			b.Write(src[last:])
			b.WriteString("\n" + extra + "\n")
			n++
			dst := filepath.Join(*out, fmt.Sprintf("%d_%s", n, filepath.Base(file)))
			if err := os.WriteFile(dst, b.Bytes(), 0o644); err != nil {
				fail(err)
			}
			replace[file] = dst
		}
		if p.Name != "main" && len(p.Syntax) > 0 && !*doSync && *doMaps {
			n++
			dir := filepath.Dir(p.Fset.Position(p.Syntax[0].Pos()).Filename)
			dst := filepath.Join(*out, fmt.Sprintf("%d_maps.go", n))
			if err := os.WriteFile(dst, []byte(fmt.Sprintf("package %s\n\nimport verifmap \"verif/vmap\"\n\nfunc init() { verifmap.Instrumented = true }\n", p.Name)), 0o644); err != nil {
				fail(err)
			}
			replace[filepath.Join(dir, "zz_verif_maps.go")] = dst
		}
		if p.Name != "main" && len(p.Syntax) > 0 && *doSync {
			n++
			dir := filepath.Dir(p.Fset.Position(p.Syntax[0].Pos()).Filename)
			dst := filepath.Join(*out, fmt.Sprintf("%d_reset.go", n))
			src := fmt.Sprintf("package %s\n\nimport verifsync \"verif/vsync\"\n\nfunc verifResetAll() {\n\t%s\n}\n\nfunc init() { verifsync.RegisterReset(verifResetAll) }\n", p.Name, strings.Join(calls(order), "\n\t"))
			if err := os.WriteFile(dst, []byte(src), 0o644); err != nil {
				fail(err)
			}
			replace[filepath.Join(dir, "zz_verif_reset.go")] = dst
		}
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644); err != nil {
		fail(err)
	}
}

func calls(names []string) []string {
	var o []string
	for _, n := range names {
		o = append(o, n+"()")
	}
	return o
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(2)
}
