package xg

import (
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"

	xp "github.com/leonelquinteros/gotext/cli/xgotext/parser"

	"verif/eng"
	"verif/seq"
	"verif/vmap"
)

var countNs = func() []int {
	var o []int
	for i := 1; i <= 34; i++ {
		o = append(o, i)
	}
	return append(o, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1000)
}()

var countDims = []string{
	"calls on lines of their own", "calls on one line", "calls of one message", "calls of one message on one line", "files", "files with one message", "contexts of an id", "domains", "characters in an id",
	"lines in an id", "lines above a call", "further arguments", "calls within one another", "aliases of aliases", "parentheses around a receiver", "fields to a receiver", "calls to a receiver",
	"blocks around a call", "functions around a call", "functions", "elements of a list", "plural ids seen late", "plural ids seen late in a context", "lines in a receiver", "variables in one declaration", "messages of one context", "quotes in an id",
}

// countProgram has n of one kind of thing.
func countProgram(dim, n int) (map[string]string, []msg) {
	const imp = "package pkg\n\nimport \"" + gotextPath + "\"\n\nvar po *gotext.Po\n"
	var s strings.Builder
	s.WriteString(imp)
	var ms []msg
	files := map[string]string{}
	at := func() string { return fmt.Sprintf("a.go:%d", strings.Count(s.String(), "\n")+1) }
	w := func(f string, a ...interface{}) { fmt.Fprintf(&s, f, a...) }
	m := func(x msg) {
		if x.pos == "" {
			x.pos = at()
		}
		ms = append(ms, x)
	}
	rep := strings.Repeat
	// the ones around have to be there whatever the count
	m(msg{id: "before"})
	w("var _ = gotext.Get(\"before\")\n")
	switch dim {
	case 0:
		w("func f() {\n")
		for i := 0; i < n; i++ {
			m(msg{id: fmt.Sprintf("id %d", i*7%1031), pl: fmt.Sprintf("pl %d", i)})
			w("\tpo.GetN(\"id %d\", \"pl %d\", 2)\n", i*7%1031, i)
		}
		w("}\n")
	case 1:
		w("func f() { ")
		for i := 0; i < n; i++ {
			m(msg{id: fmt.Sprintf("id %d", i*7%1031), ctx: "ctx"})
			w("gotext.GetC(\"id %d\", \"ctx\"); ", i*7%1031)
		}
		w("}\n")
	case 2:
		w("func f() {\n")
		for i := 0; i < n; i++ {
			m(msg{id: "id", ctx: "ctx", pl: "ids"})
			w("\tpo.GetNC(\"id\", \"ids\", %d, \"ctx\")\n", i)
		}
		w("}\n")
	case 3:
		w("func f() { ")
		for i := 0; i < n; i++ {
			m(msg{id: "id"})
			w("gotext.Get(\"id\"); ")
		}
		w("}\n")
	case 4, 5:
		for i := 0; i < n; i++ {
			id := fmt.Sprintf("id %d", i)
			if dim == 5 {
				id = "id"
			}
			files[fmt.Sprintf("/w/f%d.go", i)] = fmt.Sprintf("package pkg\n\nimport g%d \"%s\"\n\nvar _ = g%d.GetD(\"dom\", %q)\n", i, gotextPath, i, id)
			m(msg{dom: "dom", id: id, pos: fmt.Sprintf("f%d.go:5", i)})
		}
	case 6:
		w("func f() {\n")
		for i := 0; i < n; i++ {
			m(msg{id: "id", ctx: fmt.Sprintf("ctx %d", i*7%1031)})
			w("\tgotext.GetC(\"id\", `ctx %d`)\n", i*7%1031)
		}
		w("}\n")
	case 7:
		w("func f() {\n")
		for i := 0; i < n; i++ {
			m(msg{id: "id", dom: fmt.Sprintf("dom%d", i)})
			w("\tgotext.GetD(\"dom%d\", \"id\")\n", i)
		}
		w("}\n")
	case 8, 26:
		id := rep("é", n)
		if dim == 26 {
			id = rep("\"", n)
		}
		m(msg{id: id, pl: id + "s", ctx: id + "c"})
		w("var _ = gotext.GetNC(%q, %q, 2, %q)\n", id, id+"s", id+"c")
	case 9:
		m(msg{id: rep("line\n", n), ctx: "ctx\n"})
		w("var _ = gotext.GetC(`%s`, \"ctx\\n\")\n", rep("line\n", n))
		m(msg{id: rep("\nline", n)})
		w("var _ = po.Get(%q)\n", rep("\nline", n))
	case 10:
		w("%s", rep("\n", n))
		m(msg{id: "id"})
		w("var _ = gotext.Get(\"id\")\n")
	case 11:
		m(msg{id: "id", dom: "dom", ctx: "ctx", pl: "ids"})
		w("var _ = gotext.GetNDC(\"dom\", \"id\", \"ids\", 3, \"ctx\"%s)\n", rep(", \"more\"", n))
	case 12:
		w("var _ = ")
		for i := 0; i < n; i++ {
			m(msg{id: fmt.Sprintf("outer %d", i)})
			w("gotext.Get(\"outer %d\", ", i)
		}
		w("1%s\n", rep(")", n))
	case 13:
		w("type A0 = *gotext.Po\n")
		for i := 1; i <= n; i++ {
			w("type A%d = A%d\n", i, i-1)
		}
		m(msg{id: "id"})
		w("func f(a A%d) { a.Get(\"id\") }\n", n)
	case 14:
		m(msg{id: "id"})
		w("var _ = %spo%s.Get(\"id\")\n", rep("(", n), rep(")", n))
	case 15:
		w("type T struct { t *T; po gotext.Po; l []*gotext.Locale }\nvar v T\n")
		m(msg{id: "id"})
		w("var _ = v%s.po.Get(\"id\")\n", rep(".t", n))
		m(msg{id: "id", dom: "dom"})
		w("var _ = v%s.l[1].GetD(\"dom\", \"id\")\n", rep(".t", n))
	case 16:
		w("type T struct{}\nfunc (t T) c() T { return t }\nfunc (t T) po() *gotext.Mo { return nil }\n")
		m(msg{id: "id"})
		w("var _ = T{}%s.po().Get(\"id\")\n", rep(".c()", n))
	case 17:
		w("func f() %s", rep("{", n))
		m(msg{id: "id"})
		w(" po.Get(\"id\") %s\n", rep("}", n))
	case 18:
		w("var _ = ")
		for i := 0; i < n; i++ {
			w("func() interface{} { return ")
		}
		m(msg{id: "id"})
		w("po.Get(\"id\")%s\n", rep(" }", n))
	case 19:
		for i := 0; i < n; i++ {
			m(msg{id: fmt.Sprint("id", i)})
			w("func f%d(l *gotext.Locale) string { return l.Get(\"id%d\") }\n", i, i)
		}
	case 20:
		w("var _ = []string{")
		for i := 0; i < n; i++ {
			m(msg{id: fmt.Sprint("id", i)})
			w("po.Get(\"id%d\"), ", i)
		}
		w("}\n")
	case 21, 22:
		ctx := []string{"", "ctx"}[dim-21]
		call := func(fn, args string) { w("var _ = gotext.%s%s(%s)\n", fn, rep("C", dim-21), args) }
		more := []string{"", ", \"ctx\""}[dim-21]
		for i := 0; i < n; i++ {
			m(msg{id: "id", ctx: ctx})
			call("Get", "\"id\""+more)
		}
		m(msg{id: "id", ctx: ctx, pl: "ids"})
		call("GetN", "\"id\", \"ids\", 2"+more)
		m(msg{id: "id", ctx: ctx})
		call("Get", "\"id\""+more)
	case 23:
		w("var _ = po.%sGetC", rep("\n", n))
		m(msg{id: "id", ctx: "ctx"})
		w("(%s\"id\", \"ctx\")\n", rep("\n", n))
	case 24:
		w("var %s = ", strings.TrimSuffix(rep("_, ", n), ", "))
		for i := 0; i < n; i++ {
			m(msg{id: fmt.Sprint("id", i)})
			w("po.Get(\"id%d\")", i)
			if i < n-1 {
				w(", ")
			}
		}
		w("\n")
	case 25:
		for i := 0; i < n; i++ {
			m(msg{id: fmt.Sprint("id", i), ctx: "ctx"})
			w("var _ = po.GetC(\"id%d\", \"ctx\")\n", i)
		}
	}
	m(msg{id: "after"})
	w("var _ = po.Get(\"after\")\n")
	files["/w/a.go"] = s.String()
	return files, ms
}

func countSuite() eng.Suite {
	r := []int{len(countDims), len(countNs)}
	return eng.Suite{Name: "counts", N: eng.Prod(r...), Bound: fmt.Sprintf("programs with 1..34 and more, up to 1000, of one of %d kinds of things (calls, files, contexts, domains, lines, nested calls, aliases, parentheses ...)", len(countDims)),
		Run: func(t *eng.T, i int64) {
			d := eng.Digits(i, r...)
			n := countNs[d[1]]
			if d[0] == 17 || d[0] == 18 {
				n = min(n, 257) // Go's parser limits the nesting of scopes
			}
			files, ms := countProgram(d[0], n)
			when := fmt.Sprintf("%d %s", n, countDims[d[0]])
			p := check("m/pkg", files)
			t.Nontriv()
			for mode, name := range modes {
				dm := &xp.DomainMap{}
				p.extract(mode, "/w", dm)
				t.Step(len(ms))
				out := save(t, when, dm)
				checkSaved(t, "extraction", when+" by "+name, out, expect(ms, ""))
				if again := save(t, when, dm); filesText(again) != filesText(out) {
					t.Failf("repeat", "%s: saved again, the output differs:\n%s", when, seq.Diff(filesText(again), filesText(out)))
				}
				if mode == 0 {
					t.State(when)
				}
			}
		}}
}

// deepTrees: many directories below, beside and excluded.
func deepTrees() eng.Suite {
	ns := append(rangeInts(20), 31, 32, 33, 64, 65, 100, 257)
	r := []int{5, len(ns)}
	return eng.Suite{Name: "many directories", N: eng.Prod(r...), Bound: "up to 257 directories within or beside one another, all, one or every other excluded, and as many excluded names",
		Run: func(t *eng.T, i int64) {
			d := eng.Digits(i, r...)
			n := ns[d[1]]
			var ds, list []string
			switch d[0] {
			case 0: // within one another
				for k, p := 0, ""; k < n; k++ {
					p = filepath.Join(p, "d")
					ds = append(ds, p)
				}
			case 1: // the same, excluded half way down
				for k, p := 0, ""; k < n; k++ {
					p = filepath.Join(p, "d")
					ds = append(ds, p)
					if k == n/2 {
						list = append(list, p)
					}
				}
			case 2: // beside one another
				for k := 0; k < n; k++ {
					ds = append(ds, fmt.Sprint("d", k))
				}
			case 3: // every other one excluded
				for k := 0; k < n; k++ {
					ds = append(ds, fmt.Sprint("d", k), fmt.Sprint("d", k, "/", k))
					if k%2 == 1 {
						list = append(list, fmt.Sprint("d", k))
					}
				}
			case 4: // excluded names of no directory, the last one of one
				for k := 0; k < n; k++ {
					list = append(list, fmt.Sprint("no", k))
				}
				list = append(list, "a")
				ds = []string{"a", "a/b", "b", "b/a"}
			}
			root := filepath.Join(seq.Scratch(), "tree")
			makeTree(root, ds)
			defer os.RemoveAll(root)
			t.Nontriv()
			oneWalk(t, root, inputs[0], ds, list, nil)
			if len(ds) > 0 {
				oneWalk(t, root, inputs[0], ds, nil, map[string]bool{ds[len(ds)-1]: true})
			}
		}}
}

// chains: packages that import one another in a row, or many at once.
func chains(ns []int) eng.Suite {
	r := []int{5, len(ns)}
	return eng.Suite{Name: "long imports", N: eng.Prod(r...), Bound: fmt.Sprintf("%v packages in a row, in a row with only the last one using the library, all imported by one, in two rows that meet, and in a row each of which also imports the last", ns),
		Run: func(t *eng.T, i int64) {
			needMaps()
			d := eng.Digits(i, r...)
			n := ns[d[1]]
			imps := make([][]int, n)
			uses := make([]bool, n)
			for k := 0; k < n; k++ {
				uses[k] = d[0] != 1 || k == n-1
				switch d[0] {
				case 0, 1:
					if k+1 < n {
						imps[k] = []int{k + 1}
					}
				case 2:
					if k > 0 {
						imps[0] = append(imps[0], k)
					}
				case 3: // 0 -> 1, 2; k -> k+2; both rows -> n-1
					if k == 0 {
						imps[0] = []int{1, 2}
					} else if k+2 < n {
						imps[k] = []int{k + 2}
					} else if k+1 < n {
						imps[k] = []int{n - 1}
					}
				case 4:
					if k+1 < n {
						imps[k] = []int{k + 1}
					}
					if k+2 < n {
						imps[k] = append(imps[k], n-1)
					}
				}
			}
			files := map[string]string{"m/go.mod": goMod("m", 1)}
			var ms []msg
			for k := 0; k < n; k++ {
				name := fmt.Sprintf("p%d", k)
				s := "package " + name + "\n\n"
				if k == 0 {
					s = "package main\n\n"
				}
				seen := map[int]bool{}
				for _, b := range imps[k] {
					if b < n && b != k && !seen[b] {
						s += fmt.Sprintf("import _ \"m/p%d\"\n", b)
						seen[b] = true
					}
				}
				if uses[k] {
					s += "import \"" + gotextPath + "\"\n\nvar _ = gotext.Get(\"" + name + "\")\n"
					ms = append(ms, msg{id: name, pos: fmt.Sprintf("%s/f.go:%d", name, strings.Count(s, "\n"))})
				}
				if k == 0 {
					s += "func main() {}\n"
				}
				files["m/"+name+"/f.go"] = s
			}
			root := filepath.Join(seq.Scratch(), "chain")
			modTree(root, files)
			defer os.RemoveAll(root)
			t.Nontriv()
			when := fmt.Sprintf("%d packages, shape %d", n, d[0])
			vmap.Limited(2, func() bool {
				dm := &xp.DomainMap{}
				if err := run(1, filepath.Join(root, "m/p0"), filepath.Join(root, "m"), nil, dm); err != nil {
					t.Failf("graph", "%s: %v", when, err)
				}
				t.Step(n)
				checkSaved(t, "graph", when, save(t, when, dm), expect(ms, ""))
				t.State(when)
				return true
			})
		}}
}

var knownNames = []string{".git", ".github", ".hg", ".svn", ".idea", ".vscode", ".cache", "..data", "...", "..a", "CVS", "RCS", "_build", "_obj", "_test", "_examples", "__pycache__", "testdata", "test", "tests", "vendor", "node_modules", "internal", "cmd", "pkg", "src", "bin", "build", "dist", "out", "tmp", "target", "third_party", "Godeps", "examples", "docs", "locales", "lost+found", "a.go", "x_test.go", "b_test", "go.mod", "f", "link", "doc.go", "windows", "linux", "amd64", "a.git", "x.po", "in", "root", "NUL", "con", "aux", "c:", "C:\\x"}

// oddNames: directories of every name are visited, unless they are excluded by it.
func oddNames() eng.Suite {
	var names []string
	for c := rune(1); c < 127; c++ {
		if c != '/' {
			for _, n := range []string{string(c), string(c) + "b", string(c) + "bcd", "b" + string(c), "b" + string(c) + "cd", "bcd" + string(c), string(c) + string(c) + string(c)} {
				if n != "." {
					names = append(names, n)
				}
			}
		}
	}
	names = append(names, knownNames...)
	for _, w := range []string{"\u00e9", "\u65e5\u672c", "\u00a0", "\xff", "\ufeff"} {
		names = append(names, w, "a"+w, w+"a")
	}
	names = append(names, strings.Repeat("x", 200), strings.Repeat("y", 255))
	return eng.Suite{Name: "odd names", N: int64(len(names)), Bound: fmt.Sprintf("%d names of directories (every character below 127 alone, first, last and within, and names some tools skip), at three places of a tree, excluded in turn", len(names)),
		Run: func(t *eng.T, i int64) {
			n := names[i]
			ds := []string{n, filepath.Join(n, "sub"), filepath.Join("a", n), filepath.Join("a", n, n), "z"}
			if n == "z" || n == "a" || n == "f" || n == "link" || n == "f.go" || n == ".." {
				return
			}
			slices.Sort(ds)
			ds = append([]string{"a"}, ds...)
			root := filepath.Join(seq.Scratch(), "tree")
			makeTree(root, ds)
			defer os.RemoveAll(root)
			t.Nontriv()
			for _, list := range [][]string{nil, {"z"}, {filepath.Join("a", n)}, {n}, {filepath.Join(n, "sub"), filepath.Join("a", n, n)}} {
				for _, in := range inputs[:3] {
					oneWalk(t, root, in, ds, list, nil)
				}
			}
		}}
}
