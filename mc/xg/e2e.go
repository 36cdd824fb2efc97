package xg

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	xp "github.com/leonelquinteros/gotext/cli/xgotext/parser"
	"github.com/leonelquinteros/gotext/cli/xgotext/parser/dir"
	pkgtree "github.com/leonelquinteros/gotext/cli/xgotext/parser/pkg-tree"

	"verif/eng"
	"verif/seq"
)

// modTree writes modules below a directory: the stub of the library and the packages given by path.
func modTree(root string, files map[string]string) {
	os.RemoveAll(root)
	seq.WriteFile(root, "stub/go.mod", []byte("module "+gotextPath+"\n\ngo 1.25\n"))
	seq.WriteFile(root, "stub/gotext.go", []byte(stubSource))
	seq.WriteFile(root, "other/go.mod", []byte("module "+otherPath+"\n\ngo 1.25\n\nrequire "+gotextPath+" v0.0.0\n"))
	seq.WriteFile(root, "other/other.go", []byte(otherSource))
	for n, s := range files {
		seq.WriteFile(root, n, []byte(s))
	}
}

// goMod is the module file of a generated module at a depth below the root of modTree.
func goMod(name string, depth int) string {
	up := strings.Repeat("../", depth)
	return "module " + name + "\n\ngo 1.25\n\nrequire (\n\t" + gotextPath + " v0.0.0\n\t" + otherPath + " v0.0.0\n)\n\nreplace " + gotextPath + " => " + up + "stub\n\nreplace " + otherPath + " => " + up + "other\n"
}

// within runs f with a working directory.
func within(d string, f func() error) error {
	old, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	if err := os.Chdir(d); err != nil {
		panic(err)
	}
	defer os.Chdir(old)
	return f()
}

// style is how a package is written.
type style struct {
	name   string
	pkg    string // name of its package
	g, o   string // import names of the library and of the other package
	layout int    // 0: one file; 1: declarations in another file of the package; 2: calls spread over three files with different import names
}

var styles = []style{
	{"plain", "pkg", "gotext", "other", 0},
	{"renamed", "pkg", "gt", "gotext", 0},
	{"swapped", "pkg", "other", "gotext", 0},
	{"package named gotext", "gotext", "gotext", "other", 0},
	{"package named gotext, renamed", "gotext", "i18n", "gotext", 0},
	{"package named like an import name", "i18n", "i18n", "pkg", 0},
	{"package named like both", "other", "gotext", "other", 0},
	{"declarations elsewhere", "pkg", "gotext", "other", 1},
	{"several files", "gotext", "gotext", "other", 2},
	{"several files, renamed", "pkg", "_g", "_o", 2},
}

// e2eFiles writes the package of a style into a directory of the module, with every receiver which k selects.
func e2eFiles(st style, rel, base string, pick func(k int) bool, lead string) (files map[string]string, ms []msg) {
	files = map[string]string{}
	n := 1
	if st.layout == 2 {
		n = 3
	}
	if st.layout > 0 {
		// the package's declarations
		files[rel+"/decl.go"] = header(st.pkg, st.g, st.o, true)
	}
	for f := 0; f < n; f++ {
		name := fmt.Sprintf("%s/calls%d.go", rel, f)
		b := &builder{file: base + name, g: st.g, o: st.o, tag: fmt.Sprintf("%s_%d_", lead, f)}
		if st.layout == 2 && f > 0 {
			b.g, b.o = []string{"", "pkg", "fmt"}[f], []string{"", "gotext", "os"}[f]
		}
		b.src.WriteString(header(st.pkg, b.g, b.o, st.layout == 0))
		for k, r := range recvs {
			if !pick(k) || k%n != f {
				continue
			}
			b.open(r)
			for j, fn := range r.functions() {
				b.emit("\t\t_ = ", r.expr, fn, all((k+j)%len(lits)), all((k+j+1)%len(lits)), all((k+j+2)%len(lits)), all(0), nil, "\n", r.yes)
				if j == k%8 {
					b.emit("\t\t_ = ", r.expr, fn, arg{-1, nonLits[k%len(nonLits)]}, all(0), all(0), all(0), nil, "\n", r.yes)
				}
			}
			b.close(r)
		}
		files[name] = b.src.String()
		ms = append(ms, b.ms...)
	}
	return files, ms
}

// modes of extraction.
var modes = []string{"directory", "package tree"}

// run extracts by a mode; in is the input directory, cwd the working directory.
func run(mode int, in, cwd string, exclude []string, dm *xp.DomainMap) error {
	return within(cwd, func() error {
		if mode == 0 {
			return dir.ParseDirRec(in, exclude, dm, false)
		}
		return pkgtree.ParsePkgTree(in, dm, false)
	})
}

// e2e extracts generated modules.
func e2e() eng.Suite {
	layouts := []string{"package at the root", "package below", "one package per third of the receivers, below each other", "two modules below the input", "input is the package", "main imports through another module"}
	r := []int{len(styles), len(layouts), len(modes)}
	return eng.Suite{Name: "modules", N: eng.Prod(r...), Bound: "every way of writing packages x module layout x mode of extraction, each with every receiver and function",
		Run: func(t *eng.T, i int64) {
			d := eng.Digits(i, r...)
			st, mode := styles[d[0]], d[2]
			root := filepath.Join(seq.Scratch(), "e2e")
			files := map[string]string{}
			var ms []msg
			addPkg := func(rel, base string, pick func(int) bool, lead string, top string) {
				fs, m := e2eFiles(st, rel, base, pick, lead)
				for n, s := range fs {
					files[filepath.Join(top, n)] = s
				}
				ms = append(ms, m...)
			}
			every := func(int) bool { return true }
			in, cwd := "m", "m"
			main := ""
			switch d[1] {
			case 0:
				files["m/go.mod"] = goMod("m", 1)
				addPkg(".", "", every, "a", "m")
				for k := range ms {
					ms[k].pos = strings.TrimPrefix(ms[k].pos, "./")
				}
			case 1:
				files["m/go.mod"] = goMod("example.org/mod/v2", 1)
				addPkg("x/y", "", every, "a", "m")
				main = `import _ "example.org/mod/v2/x/y"`
			case 2:
				files["m/go.mod"] = goMod("m", 1)
				addPkg("p", "", func(k int) bool { return k%3 == 0 }, "a", "m")
				addPkg("p/p", "", func(k int) bool { return k%3 == 1 }, "b", "m")
				addPkg("p/p/gotext", "", func(k int) bool { return k%3 == 2 }, "c", "m")
				// the innermost is reached through the middle one
				main = "import _ \"m/p\"\nimport _ \"m/p/p\""
				files["m/p/p/more.go"] = "package " + st.pkg + "\n\nimport _ \"m/p/p/gotext\"\n"
			case 3:
				files["m/one/go.mod"] = goMod("one", 2)
				files["m/two/go.mod"] = goMod("two", 2)
				addPkg("one/p", "", func(k int) bool { return k%2 == 0 }, "a", "m")
				addPkg("two/p", "", func(k int) bool { return k%2 == 1 }, "b", "m")
				if mode == 1 {
					// the package tree starts at a package
					files["m/go.mod"] = goMod("m", 1) + "\nrequire (\n\tone v0.0.0\n\ttwo v0.0.0\n)\n\nreplace one => ./one\n\nreplace two => ./two\n"
					main = "import _ \"one/p\"\nimport _ \"two/p\""
				}
			case 4:
				files["m/go.mod"] = goMod("m", 1)
				in = "m/a/b"
				if mode == 0 {
					addPkg("a/b", "", every, "x", "m")
					for k := range ms {
						ms[k].pos = strings.TrimPrefix(ms[k].pos, "a/b/")
					}
				} else {
					addPkg("a/b", "", every, "x", "m")
					cwd = "m/c"
					files["m/c/c.txt"] = ""
					for k := range ms {
						ms[k].pos = "../" + ms[k].pos
					}
				}
				files["m/unrelated/u.go"] = "package u\n\nimport \"" + gotextPath + "\"\n\nvar _ = gotext.Get(\"not below or imported\")\n"
			case 5:
				files["m/go.mod"] = goMod("m", 1) + "\nrequire lib v0.0.0\n\nreplace lib => ../lib\n"
				files["lib/go.mod"] = goMod("lib", 1)
				files["m/uses/u.go"] = "package uses\n\nimport _ \"lib/sub/p\"\n"
				main = "import _ \"m/uses\""
				if mode == 0 {
					in, cwd = "lib", "m"
					addPkg("sub/p", "", every, "x", "lib")
				} else {
					addPkg("sub/p", "", every, "x", "lib")
					for k := range ms {
						ms[k].pos = "../lib/" + ms[k].pos
					}
				}
			}
			if main != "" {
				files["m/main.go"] = "package main\n\n" + main + "\n\nfunc main() {}\n"
			}
			// the other package calls nothing
			when := fmt.Sprintf("%s, %s, %s", modes[mode], st.name, layouts[d[1]])
			modTree(root, files)
			dm := &xp.DomainMap{}
			inPath := filepath.Join(root, in)
			if err := run(mode, inPath, filepath.Join(root, cwd), nil, dm); err != nil {
				t.Failf("run", "%s: %v", when, err)
			}
			t.Step(len(ms))
			t.Nontriv()
			t.State(when)
			if t.WantSample() {
				t.Sample("%s: %d calls to be found", when, len(ms))
			}
			checkSaved(t, "extraction", when, save(t, when, dm), expect(ms, ""))
		}}
}

// realModule extracts a module which uses the library itself.
func realModule() eng.Suite {
	r := []int{len(modes), 2}
	return eng.Suite{Name: "with the library itself", N: eng.Prod(r...), Bound: "both modes x two ways of writing packages, loaded with the real library",
		Run: func(t *eng.T, i int64) {
			d := eng.Digits(i, r...)
			st := []style{styles[0], styles[8]}[d[1]]
			root := filepath.Join(seq.Scratch(), "real")
			fs, ms := e2eFiles(st, "p", "", func(int) bool { return true }, "a")
			files := map[string]string{"m/main.go": "package main\n\nimport _ \"m/p\"\n\nfunc main() {}\n"}
			for n, s := range fs {
				files["m/"+n] = s
			}
			modTree(root, files)
			repo := repoDir()
			mod := strings.Replace(goMod("m", 1), "=> ../stub", "=> "+repo, 1)
			// what the library requires
			lib, err := os.ReadFile(filepath.Join(repo, "go.mod"))
			if err != nil {
				panic(err)
			}
			for _, l := range strings.Split(string(lib), "\n") {
				if !strings.HasPrefix(l, "module ") && !strings.HasPrefix(l, "go ") && !strings.HasPrefix(l, "toolchain ") {
					mod += l + "\n"
				}
			}
			seq.WriteFile(root, "m/go.mod", []byte(mod))
			if sum, err := os.ReadFile(filepath.Join(repo, "go.sum")); err == nil {
				seq.WriteFile(root, "m/go.sum", sum)
			}
			when := fmt.Sprintf("real library, %s, %s", modes[d[0]], st.name)
			dm := &xp.DomainMap{}
			if err := run(d[0], filepath.Join(root, "m"), filepath.Join(root, "m"), nil, dm); err != nil {
				t.Failf("run", "%s: %v", when, err)
			}
			t.Nontriv()
			t.State(when)
			// calls within the library are found in the package tree as well, should there be any
			for _, dom := range dm.Domains {
				drop := func(m xp.TranslationMap) {
					for id, tr := range m {
						out := tr.SourceLocations[:0]
						for _, p := range tr.SourceLocations {
							if !strings.HasPrefix(p, "../") {
								out = append(out, p)
							}
						}
						tr.SourceLocations = out
						if len(out) == 0 {
							delete(m, id)
						}
					}
				}
				drop(dom.Translations)
				for _, m := range dom.ContextTranslations {
					drop(m)
				}
			}
			checkSaved(t, "extraction", when, save(t, when, dm), expect(ms, ""))
		}}
}

func repoDir() string {
	if d := os.Getenv("REPO_DIR"); d != "" {
		return d
	}
	return "/repo"
}

// command runs the built command with its flags.
func command() eng.Suite {
	type cs struct {
		name  string
		args  []string // {in} {out}
		cwd   string
		fails bool
		def   string
		pos   func(string) string
		keep  func(pos string) bool
	}
	same := func(s string) string { return s }
	keepAll := func(string) bool { return true }
	cases := []cs{
		{"-in .", []string{"-in", ".", "-out", "{out}"}, "m", false, "default", same, keepAll},
		{"-in absolute", []string{"-in", "{in}", "-out", "{out}"}, "", false, "default", same, keepAll},
		{"-in sub", []string{"-in", "./p/", "-out", "{out}"}, "m", false, "default", func(s string) string { return strings.TrimPrefix(s, "p/") }, func(s string) bool { return strings.HasPrefix(s, "p/") }},
		{"-default", []string{"-in", "{in}", "-out", "{out}", "-default", "my.app"}, "m", false, "my.app", same, keepAll},
		{"-default of a used domain", []string{"-in", "{in}", "-out", "{out}", "-default", "dom0"}, "m", false, "dom0", same, keepAll},
		{"-exclude", []string{"-exclude", "q,zz", "-in", "{in}", "-out", "{out}"}, "m", false, "default", same, func(s string) bool { return !strings.HasPrefix(s, "q/") }},
		{"-exclude several", []string{"-exclude=zz,q/r,p", "-in", "{in}", "-out", "{out}"}, "m", false, "default", same, func(s string) bool { return !strings.HasPrefix(s, "q/r/") && !strings.HasPrefix(s, "p/") }},
		{"-v", []string{"-v", "-in", "{in}", "-out", "{out}"}, "m", false, "default", same, keepAll},
		{"-pkg-tree", []string{"-pkg-tree", ".", "-out", "{out}"}, "m", false, "default", same, func(s string) bool { return !strings.HasPrefix(s, "qq/") }},
		{"-pkg-tree -v", []string{"-pkg-tree", "{in}/q", "-v", "-default", "d", "-out", "{out}"}, "m", false, "d", same, func(s string) bool { return strings.HasPrefix(s, "q/") }},
		{"no input", []string{"-out", "{out}"}, "m", true, "", nil, nil},
		{"no output", []string{"-in", "{in}"}, "m", true, "", nil, nil},
		{"both inputs", []string{"-in", "{in}", "-pkg-tree", "{in}", "-out", "{out}"}, "m", true, "", nil, nil},
		{"missing input", []string{"-in", "{in}/none", "-out", "{out}"}, "m", true, "", nil, nil},
		{"output is a file", []string{"-in", "{in}", "-out", "{in}/go.mod"}, "m", true, "", nil, nil},
		{"output into /dev/full", []string{"-in", "{in}", "-out", "{full}"}, "m", true, "", nil, nil},
	}
	return eng.Suite{Name: "command line", N: int64(len(cases)), Bound: "every flag of the command, and its errors, on one module",
		Run: func(t *eng.T, i int64) {
			c := cases[i]
			bin := os.Getenv("XGOTEXT_BIN")
			if bin == "" {
				panic("XGOTEXT_BIN is not set")
			}
			root := filepath.Join(seq.Scratch(), "cmd")
			files := map[string]string{"m/go.mod": goMod("m", 1), "m/main.go": "package main\n\nimport _ \"m/p\"\nimport _ \"m/q\"\n\nfunc main() {}\n", "m/q/imp.go": "package pkg\n\nimport _ \"m/q/r\"\n"}
			var ms []msg
			for k, p := range []string{"p", "q", "q/r", "qq"} {
				fs, m := e2eFiles(styles[0], p, "", func(j int) bool { return j%4 == k && j < 50 }, fmt.Sprint("k", k))
				for n, s := range fs {
					files["m/"+n] = s
				}
				ms = append(ms, m...)
			}
			modTree(root, files)
			out := filepath.Join(root, "out put")
			full := filepath.Join(root, "full")
			os.MkdirAll(full, 0o755)
			os.Symlink("/dev/full", filepath.Join(full, "default.pot"))
			var args []string
			for _, a := range c.args {
				args = append(args, strings.NewReplacer("{in}", filepath.Join(root, "m"), "{out}", out, "{full}", full).Replace(a))
			}
			cmd := exec.Command(bin, args...)
			cmd.Dir = filepath.Join(root, c.cwd)
			var buf bytes.Buffer
			cmd.Stdout, cmd.Stderr = &buf, &buf
			err := cmd.Run()
			t.Execs++
			t.Step(1)
			t.Nontriv()
			when := "xgotext " + strings.Join(c.args, " ")
			t.State(when)
			if (err != nil) != c.fails {
				t.Failf("command", "%s: %v\n%s", when, err, buf.String())
			}
			if c.fails {
				if fs := saved(out); len(fs) > 0 {
					t.Failf("command", "%s wrote %v", when, fs)
				}
				return
			}
			var want []msg
			for _, m := range ms {
				if c.keep(m.pos) {
					m.pos = c.pos(m.pos)
					want = append(want, m)
				}
			}
			checkSaved(t, "command", when, saved(out), expect(want, c.def))
		}}
}
