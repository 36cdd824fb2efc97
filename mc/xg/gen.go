// Package xg explores the xgotext extractor: generated programs, messages, directory trees and import graphs.
package xg

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"

	"github.com/leonelquinteros/gotext"
	xp "github.com/leonelquinteros/gotext/cli/xgotext/parser"
	"github.com/leonelquinteros/gotext/cli/xgotext/parser/dir"
	pkgtree "github.com/leonelquinteros/gotext/cli/xgotext/parser/pkg-tree"

	"verif/eng"
	"verif/ref"
	"verif/seq"
	"verif/vmap"
)

const gotextPath = "github.com/leonelquinteros/gotext"

// stubSource declares the lookup functions and types of the library; type-checking a program against it is
// what loading it against the library gives, only faster.
const stubSource = `package gotext

func Get(str string, vars ...interface{}) string { return str }
func GetN(str, plural string, n int, vars ...interface{}) string { return str }
func GetD(dom, str string, vars ...interface{}) string { return str }
func GetND(dom, str, plural string, n int, vars ...interface{}) string { return str }
func GetC(str, ctx string, vars ...interface{}) string { return str }
func GetNC(str, plural string, n int, ctx string, vars ...interface{}) string { return str }
func GetDC(dom, str, ctx string, vars ...interface{}) string { return str }
func GetNDC(dom, str, plural string, n int, ctx string, vars ...interface{}) string { return str }
func GetLanguage() string { return "" }
func SetLanguage(lang string) {}
func IsTranslated(str string, langs ...string) bool { return false }

type HeaderMap map[string][]string

func (m HeaderMap) Get(key string) string { return "" }

type Translation struct{ ID string }

func (t *Translation) Get() string       { return "" }
func (t *Translation) GetN(n int) string { return "" }

type Domain struct {
	Headers  HeaderMap
	Language string
}

func (do *Domain) Get(str string, vars ...interface{}) string                                { return str }
func (do *Domain) GetN(str, plural string, n int, vars ...interface{}) string                { return str }
func (do *Domain) GetC(str, ctx string, vars ...interface{}) string                          { return str }
func (do *Domain) GetNC(str, plural string, n int, ctx string, vars ...interface{}) string   { return str }
func (do *Domain) Set(str, s string)                                                         {}

type Translator interface {
	ParseFile(f string)
	Get(str string, vars ...interface{}) string
	GetN(str, plural string, n int, vars ...interface{}) string
	GetC(str, ctx string, vars ...interface{}) string
	GetNC(str, plural string, n int, ctx string, vars ...interface{}) string
	GetDomain() *Domain
}

type Po struct {
	Headers  HeaderMap
	Language string
}

func NewPo() *Po                                                                         { return new(Po) }
func (po *Po) ParseFile(f string)                                                        {}
func (po *Po) Set(str, s string)                                                         {}
func (po *Po) GetDomain() *Domain                                                        { return nil }
func (po *Po) Get(str string, vars ...interface{}) string                                { return str }
func (po *Po) GetN(str, plural string, n int, vars ...interface{}) string                { return str }
func (po *Po) GetC(str, ctx string, vars ...interface{}) string                          { return str }
func (po *Po) GetNC(str, plural string, n int, ctx string, vars ...interface{}) string   { return str }

type Mo struct {
	Headers  HeaderMap
	Language string
}

func NewMo() *Mo                                                                         { return new(Mo) }
func (mo *Mo) ParseFile(f string)                                                        {}
func (mo *Mo) GetDomain() *Domain                                                        { return nil }
func (mo *Mo) Get(str string, vars ...interface{}) string                                { return str }
func (mo *Mo) GetN(str, plural string, n int, vars ...interface{}) string                { return str }
func (mo *Mo) GetC(str, ctx string, vars ...interface{}) string                          { return str }
func (mo *Mo) GetNC(str, plural string, n int, ctx string, vars ...interface{}) string   { return str }

type Locale struct{ Domains map[string]Translator }

func NewLocale(p, l string) *Locale                                                                    { return new(Locale) }
func (l *Locale) AddDomain(dom string)                                                                 {}
func (l *Locale) Get(str string, vars ...interface{}) string                                           { return str }
func (l *Locale) GetN(str, plural string, n int, vars ...interface{}) string                           { return str }
func (l *Locale) GetD(dom, str string, vars ...interface{}) string                                     { return str }
func (l *Locale) GetND(dom, str, plural string, n int, vars ...interface{}) string                     { return str }
func (l *Locale) GetC(str, ctx string, vars ...interface{}) string                                     { return str }
func (l *Locale) GetNC(str, plural string, n int, ctx string, vars ...interface{}) string              { return str }
func (l *Locale) GetDC(dom, str, ctx string, vars ...interface{}) string                               { return str }
func (l *Locale) GetNDC(dom, str, plural string, n int, ctx string, vars ...interface{}) string        { return str }
`

// sig gives the argument positions of a lookup function, as documented (-1: none).
type sig struct{ id, pl, n, ctx, dom int }

var sigs = map[string]sig{
	"Get":    {0, -1, -1, -1, -1},
	"GetN":   {0, 1, 2, -1, -1},
	"GetD":   {1, -1, -1, -1, 0},
	"GetND":  {1, 2, 3, -1, 0},
	"GetC":   {0, -1, -1, 1, -1},
	"GetNC":  {0, 1, 2, 3, -1},
	"GetDC":  {1, -1, -1, 2, 0},
	"GetNDC": {1, 2, 3, 4, 0},
}

var fnNames = []string{"Get", "GetN", "GetD", "GetND", "GetC", "GetNC", "GetDC", "GetNDC"}

func (s sig) args() int {
	n := 0
	for _, i := range []int{s.id, s.pl, s.n, s.ctx, s.dom} {
		if i >= n {
			n = i + 1
		}
	}
	return n
}

// call writes a call with the given source texts of its arguments.
func callText(recv, fn string, id, pl, n, ctx, dom string, extra ...string) string {
	s := sigs[fn]
	args := make([]string, s.args())
	args[s.id] = id
	for _, x := range []struct {
		i int
		t string
	}{{s.pl, pl}, {s.n, n}, {s.ctx, ctx}, {s.dom, dom}} {
		if x.i >= 0 {
			args[x.i] = x.t
		}
	}
	return callHead(recv, fn) + strings.Join(append(args, extra...), ", ") + ")"
}

// callHead is a call up to its opening parenthesis. A receiver which ends in \u21b5 has the function on the next line.
func callHead(recv, fn string) string {
	if r, ok := strings.CutSuffix(recv, "\u21b5"); ok {
		return r + ".\n\t\t\t" + fn + "("
	}
	return recv + "." + fn + "("
}

// msg is one extracted message.
type msg struct {
	dom, ctx, id, pl string
	pos              string
}

func (m msg) String() string {
	return fmt.Sprintf("domain %q ctx %q id %q plural %q at %s", m.dom, m.ctx, m.id, m.pl, m.pos)
}

// want is the expected content of the output: domain, then entries.
type entKey struct{ dom, ctx, id string }
type entVal struct {
	pl  string
	pos map[string]bool
}

func expect(ms []msg, def string) map[entKey]*entVal {
	if def == "" {
		def = "default"
	}
	w := map[entKey]*entVal{}
	for _, m := range ms {
		k := entKey{m.dom, m.ctx, m.id}
		if k.dom == "" {
			k.dom = def
		}
		e := w[k]
		if e == nil {
			e = &entVal{pos: map[string]bool{}}
			w[k] = e
		}
		if e.pl == "" {
			e.pl = m.pl
		}
		e.pos[m.pos] = true
	}
	return w
}

func canonWant(w map[entKey]*entVal) map[string]string {
	out := map[string][]string{}
	for k, v := range w {
		var ps []string
		for p := range v.pos {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		out[k.dom] = append(out[k.dom], fmt.Sprintf("ctx %q id %q plural %q at %s", k.ctx, k.id, v.pl, strings.Join(ps, " ")))
	}
	res := map[string]string{}
	for d, ls := range out {
		sort.Strings(ls)
		res[d] = strings.Join(ls, "\n")
	}
	return res
}

// saved reads the files of an output directory.
func saved(dir string) map[string]string {
	fs, _ := os.ReadDir(dir)
	res := map[string]string{}
	for _, f := range fs {
		b, _ := os.ReadFile(filepath.Join(dir, f.Name()))
		res[f.Name()] = string(b)
	}
	return res
}

// checkSaved compares the written files with what is wanted: read by a strict reader and by the library.
func checkSaved(t *eng.T, key, when string, files map[string]string, w map[entKey]*entVal) {
	want := canonWant(w)
	for name := range files {
		dom, ok := strings.CutSuffix(name, ".pot")
		if _, known := want[dom]; !ok || !known {
			t.Failf(key, "%s: unexpected output file %q:\n%s", when, name, files[name])
		}
	}
	for dom, wc := range want {
		text, ok := files[dom+".pot"]
		if !ok {
			t.Failf(key, "%s: no output file for domain %q", when, dom)
		}
		es, bad := ref.ReadPO(text)
		if bad != "" {
			t.Failf(key, "%s: domain %q is not a PO text: %s\n%s", when, dom, bad, text)
		}
		var ls []string
		header := false
		for k, e := range es {
			if e.ID == "" && e.Ctx == "" {
				if k != 0 {
					t.Failf(key, "%s: domain %q: header entry in the middle\n%s", when, dom, text)
				}
				header = true
				continue
			}
			ps := map[string]bool{}
			for _, p := range e.Refs {
				ps[p] = true
			}
			var pl []string
			for p := range ps {
				pl = append(pl, p)
			}
			sort.Strings(pl)
			ls = append(ls, fmt.Sprintf("ctx %q id %q plural %q at %s", e.Ctx, e.ID, e.Plural, strings.Join(pl, " ")))
			for _, f := range e.Forms {
				if f.S != "" {
					t.Failf(key, "%s: domain %q: entry %q comes translated\n%s", when, dom, e.ID, text)
				}
			}
			wantForms := 1
			if e.Plural != "" {
				wantForms = 2
			}
			if len(e.Forms) < wantForms {
				t.Failf(key, "%s: domain %q: entry %q with %d msgstr lines\n%s", when, dom, e.ID, len(e.Forms), text)
			}
		}
		if !header {
			t.Failf(key, "%s: domain %q has no header\n%s", when, dom, text)
		}
		sort.Strings(ls)
		seq.Same(t, key, when+": messages of domain "+dom, strings.Join(ls, "\n"), wc)
		// the library reads the same
		po := gotext.NewPo()
		po.Parse([]byte(text))
		var got []string
		add := func(ctx string, m map[string]*gotext.Translation) {
			for id, e := range m {
				if id == "" && ctx == "" {
					continue
				}
				if e.ID != id {
					t.Failf(key, "%s: domain %q: entry %q read as %q", when, dom, id, e.ID)
				}
				ps := map[string]bool{}
				for _, p := range e.Refs {
					ps[p] = true
				}
				var pl []string
				for p := range ps {
					pl = append(pl, p)
				}
				sort.Strings(pl)
				got = append(got, fmt.Sprintf("ctx %q id %q plural %q at %s", ctx, id, e.PluralID, strings.Join(pl, " ")))
			}
		}
		d := po.GetDomain()
		add("", d.GetTranslations())
		for c, m := range d.GetCtxTranslations() {
			add(c, m)
		}
		sort.Strings(got)
		seq.Same(t, key, when+": messages of domain "+dom+" read by the library", strings.Join(got, "\n"), wc)
		t.Validated++
	}
}

// save writes a domain map into a fresh directory and reads the files.
func save(t *eng.T, when string, dm *xp.DomainMap) map[string]string {
	dir := filepath.Join(seq.Scratch(), "out")
	os.RemoveAll(dir)
	if err := dm.Save(dir); err != nil {
		t.Failf("save", "%s: Save: %v", when, err)
	}
	t.Execs++
	return saved(dir)
}

func filesText(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "== %s\n%s\n", k, m[k])
	}
	return b.String()
}

// prog is a type-checked program.
type prog struct {
	fset  *token.FileSet
	files []*ast.File
	names []string
	pkg   *packages.Package
	deps  map[string]*packages.Package
}

var stubPkg *types.Package

type stubImporter map[string]*types.Package

func (s stubImporter) Import(path string) (*types.Package, error) {
	if p := s[path]; p != nil {
		return p, nil
	}
	return nil, fmt.Errorf("no package %s", path)
}

func stub() *types.Package {
	if stubPkg == nil {
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, "stub.go", stubSource, 0)
		if err != nil {
			panic(err)
		}
		p, err := (&types.Config{}).Check(gotextPath, fs, []*ast.File{f}, nil)
		if err != nil {
			panic(err)
		}
		stubPkg = p
	}
	return stubPkg
}

// check type-checks the files of a package named path; deps are further sources by import path, each of which
// may import what comes before.
func check(path string, srcs map[string]string, deps ...[2]string) *prog {
	imp := stubImporter{gotextPath: stub(), "unsafe": types.Unsafe}
	p := &prog{fset: token.NewFileSet(), deps: map[string]*packages.Package{gotextPath: {Name: "gotext", PkgPath: gotextPath, Types: stub()}}}
	for _, d := range deps {
		f, err := parser.ParseFile(p.fset, d[0]+"/dep.go", d[1], parser.AllErrors)
		if err != nil {
			panic(err)
		}
		tp, err := (&types.Config{Importer: imp}).Check(d[0], p.fset, []*ast.File{f}, nil)
		if err != nil {
			panic(err)
		}
		imp[d[0]] = tp
		p.deps[d[0]] = &packages.Package{Name: tp.Name(), PkgPath: d[0], Types: tp}
	}
	for n := range srcs {
		p.names = append(p.names, n)
	}
	sort.Strings(p.names)
	for _, n := range p.names {
		f, err := parser.ParseFile(p.fset, n, srcs[n], parser.AllErrors|parser.ParseComments)
		if err != nil {
			panic(fmt.Sprintf("%v\n%s", err, srcs[n]))
		}
		p.files = append(p.files, f)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	tp, err := (&types.Config{Importer: imp}).Check(path, p.fset, p.files, info)
	if err != nil {
		panic(fmt.Sprintf("%v\n%s", err, srcs[p.names[0]]))
	}
	p.pkg = &packages.Package{Name: tp.Name(), PkgPath: path, Types: tp, TypesInfo: info, Syntax: p.files, Fset: p.fset}
	return p
}

// goFile gives what the parsers make for one file of a package.
func (p *prog) goFile(k int, base string, dm *xp.DomainMap) *xp.GoFile {
	g := &xp.GoFile{FilePath: p.fset.Position(p.files[k].Package).Filename, BasePath: base, Data: dm, FileSet: p.fset,
		ImportedPackages: map[string]*packages.Package{"package": p.pkg}}
	for _, im := range p.files[k].Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		d := p.deps[path]
		if d == nil {
			continue
		}
		name := d.Name
		if im.Name != nil {
			name = im.Name.Name
		}
		g.ImportedPackages[name] = d
	}
	return g
}

// extract runs the inspection of every file, as one of the modes of extraction does it.
func (p *prog) extract(mode int, base string, dm *xp.DomainMap) {
	for k, f := range p.files {
		g := p.goFile(k, base, dm)
		var inspect func(ast.Node) bool
		if mode == 0 {
			inspect = (&dir.GoFile{GoFile: *g}).InspectFile
		} else {
			inspect = (&pkgtree.GoFile{GoFile: *g}).InspectFile
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n.(type) {
			case *ast.ImportSpec:
				// the packages are known
				return true
			}
			return inspect(n)
		})
	}
}

// needMaps tells that the build controls map iteration.
func needMaps() {
	if !vmap.Instrumented {
		panic("built without control of map iteration")
	}
}

var _ = runtime.GOOS

func tiered(tier string, quick, thorough int) int {
	if tier == "thorough" {
		return thorough
	}
	return quick
}
