package xg

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	xp "github.com/leonelquinteros/gotext/cli/xgotext/parser"
	"github.com/leonelquinteros/gotext/cli/xgotext/parser/dir"

	"verif/eng"
	"verif/seq"
	"verif/vmap"
)

// visits records what registered parsers are given.
type visit struct{ dir, base string }

var visits []visit
var visitErr map[string]error

func init() {
	dir.AddParser(func(d, base string, data *xp.DomainMap) error {
		visits = append(visits, visit{d, base})
		return visitErr[d]
	})
}

var treeDirs = []string{"a", "ab", "a/b", "a/a", "ab/a", "b", "b/a", "a/a/b"}
var excludeWords = []string{"a", "ab", "a/", "./a", "a/b", "b", "", "c", "a/a", "b/../a", "ab/a", "a/a/b", "f", "a/b/"}

// trees are the sets of directories closed under parents.
func trees(cand []string) [][]string {
	var out [][]string
	for m := 0; m < 1<<len(cand); m++ {
		has := map[string]bool{".": true}
		var ds []string
		for k, d := range cand {
			if m&(1<<k) != 0 {
				has[d] = true
				ds = append(ds, d)
			}
		}
		ok := true
		for _, d := range ds {
			ok = ok && has[filepath.Dir(d)]
		}
		if ok {
			out = append(out, ds)
		}
	}
	return out
}

// excluded tells what the list of excluded directories means.
func excluded(d string, list []string) bool {
	for _, e := range list {
		if e == "" {
			continue
		}
		e = filepath.Clean(e)
		for x := d; x != "."; x = filepath.Dir(x) {
			if x == e {
				return true
			}
		}
	}
	return false
}

// specialDirs have names which tools treat in their own way.
var specialDirs = []string{"_a", ".b", "testdata", "vendor", "testdata/_a", "vendor/a", "internal", "a.go", "node_modules", "a.go/.b"}
var specialWords = []string{"_a", "testdata", ".b", "vendor/a", "a", "vendor", "*", "test", "a.go", "..", "internal/", "_*", "Testdata", " testdata"}

var inputs = []string{"{root}/in", "{root}/in/", "in", "./in", ".", "./", "in/../in/.", "{root}/x/../in", ".."}

func withoutGo(f func()) {
	old := os.Getenv("PATH")
	os.Setenv("PATH", "/nonexistent")
	defer os.Setenv("PATH", old)
	f()
}

// makeTree makes the directories below root/in, each with files and a link which are no directories.
func makeTree(root string, ds []string) {
	os.RemoveAll(root)
	os.MkdirAll(filepath.Join(root, "x"), 0o755)
	for _, d := range append([]string{"."}, ds...) {
		p := filepath.Join(root, "in", d)
		os.MkdirAll(p, 0o755)
		os.WriteFile(filepath.Join(p, "f"), nil, 0o644)
		os.WriteFile(filepath.Join(p, "f.go"), []byte("package f\n"), 0o644)
		os.Symlink("f", filepath.Join(p, "link"))
	}
	os.MkdirAll(filepath.Join(root, "beside/a"), 0o755)
}

func walkSuite(name string, cand []string, words []string, maxList int, ins []string) eng.Suite {
	ts := trees(cand)
	nl := eng.SeqCount(len(words), maxList) + 1 // the empty list too
	return eng.Suite{Name: name, N: int64(len(ts)), Bound: fmt.Sprintf("all %d directory trees out of %d names x all lists of up to %d out of %d excluded names x %d spellings of the input", len(ts), len(cand), maxList, len(words), len(ins)),
		Run: func(t *eng.T, i int64) {
			ds := ts[i]
			root := filepath.Join(seq.Scratch(), "tree")
			makeTree(root, ds)
			for l := int64(0); l < nl; l++ {
				var list []string
				if l > 0 {
					for _, k := range eng.SeqAt(l-1, len(words)) {
						list = append(list, words[k])
					}
				}
				for n, in := range ins {
					if n > 0 && len(list) > 1 {
						continue
					}
					oneWalk(t, root, in, ds, list, nil)
				}
			}
			t.Nontriv()
		}}
}

func oneWalk(t *eng.T, root, in string, ds, list []string, fails map[string]bool) {
	input := strings.ReplaceAll(in, "{root}", root)
	cwd := root
	switch in {
	case ".", "./":
		cwd = filepath.Join(root, "in")
	case "..":
		cwd = filepath.Join(root, "in/sub")
		os.MkdirAll(cwd, 0o755)
		ds = append(append([]string(nil), ds...), "sub")
		defer os.RemoveAll(cwd)
	}
	visits, visitErr = nil, map[string]error{}
	base := filepath.Join(root, "in")
	for d := range fails {
		visitErr[filepath.Join(base, d)] = fmt.Errorf("failing at %s", d)
	}
	dm := &xp.DomainMap{}
	var err error
	withoutGo(func() {
		within(cwd, func() error {
			err = dir.ParseDirRec(input, list, dm, false)
			return nil
		})
	})
	t.Execs++
	t.Step(1)
	var want, got []string
	wantErr := false
	for _, d := range append([]string{"."}, ds...) {
		if !excluded(d, list) {
			want = append(want, d)
			wantErr = wantErr || fails[d]
		}
	}
	when := fmt.Sprintf("directories %v, exclude %q, input %q", ds, list, in)
	for _, v := range visits {
		r, e := filepath.Rel(base, v.dir)
		if e != nil || !filepath.IsAbs(v.dir) || strings.HasPrefix(r+"/", "../") {
			t.Failf("walk", "%s: visited %q", when, v.dir)
		}
		if filepath.Clean(v.base) != base {
			t.Failf("walk", "%s: base path %q", when, v.base)
		}
		got = append(got, r)
	}
	t.State(strings.Join(ds, " ") + "|" + strings.Join(got, " "))
	if wantErr {
		if err == nil {
			t.Failf("walk-error", "%s: the error of a parser at %v was lost", when, fails)
		}
		return
	}
	if err != nil {
		t.Failf("walk", "%s: %v", when, err)
	}
	sort.Strings(got)
	sort.Strings(want)
	if strings.Join(got, " ") != strings.Join(want, " ") {
		t.Failf("walk", "%s: visited %q, want %q", when, got, want)
	}
}

// walkErrors: the error of a parser in any directory, and unusable inputs.
func walkErrors() eng.Suite {
	ts := trees(treeDirs[:6])
	return eng.Suite{Name: "errors", N: int64(len(ts)), Bound: "every tree of up to 6 names x a parser failing in any directory, excluded or not; missing inputs",
		Run: func(t *eng.T, i int64) {
			ds := ts[i]
			root := filepath.Join(seq.Scratch(), "tree")
			makeTree(root, ds)
			for _, d := range append([]string{"."}, ds...) {
				for _, list := range [][]string{nil, {"a"}, {"b", "a/b"}} {
					oneWalk(t, root, inputs[0], ds, list, map[string]bool{d: true})
				}
			}
			t.Nontriv()
			var err error
			withoutGo(func() { err = dir.ParseDirRec(filepath.Join(root, "none"), nil, &xp.DomainMap{}, false) })
			if err == nil {
				t.Failf("walk-error", "a missing input directory is no error")
			}
		}}
}

// graph is an import graph: package k imports those of edges[k]; uses tells which call the library.
type graph struct {
	n     int
	edge  [5][5]bool
	uses  [5]bool
	names [5]string
}

func graphAt(n int, i int64) graph {
	g := graph{n: n}
	for a := 0; a < n; a++ {
		for b := a + 1; b < n; b++ {
			g.edge[a][b] = i&1 == 1
			i >>= 1
		}
	}
	for a := 0; a < n; a++ {
		g.uses[a] = i&1 == 1
		i >>= 1
	}
	return g
}

func graphCount(n int) int64 { return 1 << (n*(n-1)/2 + n) }

// dirs of the packages of a graph; 0 is the starting point.
var graphDirs = []string{"cmd/app", "util", "x/util", "x/y/gotext", "last"}

// write writes the module of a graph; it returns the messages in reach.
func (g graph) files(tag string, variant int) (map[string]string, []msg) {
	files := map[string]string{"m/go.mod": goMod("m", 1)}
	var ms []msg
	reach := [5]bool{true}
	for a := 0; a < g.n; a++ {
		for b := 0; b < g.n; b++ {
			reach[b] = reach[b] || reach[a] && g.edge[a][b]
		}
	}
	for a := 0; a < g.n; a++ {
		name := filepath.Base(graphDirs[a])
		if a == 0 {
			name = "main"
		}
		s := "package " + name + "\n\n"
		var body []string
		lib := "gotext"
		if variant == 1 {
			lib = "tr"
		}
		imps := []string{}
		for b := 0; b < g.n; b++ {
			if g.edge[a][b] {
				alias := fmt.Sprintf("p%d", b)
				if variant == 1 {
					alias = "_"
				} else {
					body = append(body, fmt.Sprintf("var _ = %s.V", alias))
				}
				imps = append(imps, fmt.Sprintf("import %s \"m/%s\"", alias, graphDirs[b]))
			}
		}
		if g.uses[a] {
			im := "import " + lib + " \"" + gotextPath + "\""
			if variant == 1 {
				imps = append([]string{im}, imps...)
			} else {
				imps = append(imps, im)
			}
		}
		s += strings.Join(imps, "\n") + "\n\nconst V = 1\n" + strings.Join(body, "\n") + "\n"
		if a == 0 {
			s += "func main() {}\n"
		}
		file := "m/" + graphDirs[a] + "/f.go"
		if g.uses[a] {
			for c, fn := range []string{"Get", "GetNC"} {
				id := fmt.Sprintf("%s text %d.%d", tag, a, c)
				at := strings.Count(s, "\n") + 1
				s += "var _ = " + callText(lib, fn, "\""+id+"\"", "\"plural\"", "1", "\"ctx\"", "") + "\n"
				m := msg{id: id, pos: fmt.Sprintf("%s/f.go:%d", graphDirs[a], at)}
				if c == 1 {
					m.pl, m.ctx = "plural", "ctx"
				}
				if reach[a] {
					ms = append(ms, m)
				}
			}
			// one message all packages share
			at := strings.Count(s, "\n") + 1
			s += "var _ = " + lib + ".Get(\"shared\")\n"
			if reach[a] {
				ms = append(ms, msg{id: "shared", pos: fmt.Sprintf("%s/f.go:%d", graphDirs[a], at)})
			}
		}
		files[file] = s
	}
	return files, ms
}

func (g graph) String() string {
	var s []string
	for a := 0; a < g.n; a++ {
		for b := 0; b < g.n; b++ {
			if g.edge[a][b] {
				s = append(s, fmt.Sprintf("%d->%d", a, b))
			}
		}
		if g.uses[a] {
			s = append(s, fmt.Sprintf("%d uses", a))
		}
	}
	return strings.Join(s, " ")
}

// graphs: every import graph, under several orders of map iteration, twice in one process.
func graphs(n int, variants int, orders int64) eng.Suite {
	c := graphCount(n)
	return eng.Suite{Name: fmt.Sprintf("import graphs of %d", n), N: c * int64(variants), Bound: fmt.Sprintf("every acyclic import graph of %d packages x every subset using the library, each run repeated, under up to %d orders of visiting imports", n, orders),
		Run: func(t *eng.T, i int64) {
			needMaps()
			variant := int(i % int64(variants))
			g := graphAt(n, i/int64(variants))
			files, ms := g.files("t", variant)
			root := filepath.Join(seq.Scratch(), "graph")
			modTree(root, files)
			when := g.String()
			if len(ms) > 0 {
				t.Nontriv()
			}
			in, cwd := filepath.Join(root, "m", graphDirs[0]), filepath.Join(root, "m")
			w := expect(ms, "")
			var first string
			vmap.Limited(orders, func() bool {
				dm := &xp.DomainMap{}
				if err := run(1, in, cwd, nil, dm); err != nil {
					t.Failf("graph", "%s: %v", when, err)
				}
				t.Step(1)
				files := save(t, when, dm)
				checkSaved(t, "graph", when, files, w)
				text := filesText(files)
				t.State(text)
				if first == "" {
					first = text
				}
				if text != first {
					t.Failf("graph-order", "%s: the output depends on the order of visiting imports:\n%s", when, seq.Diff(text, first))
				}
				return true
			})
			// once more, with the order of the runtime, and from a relative path
			dm := &xp.DomainMap{}
			if err := run(1, "./"+graphDirs[0], cwd, nil, dm); err != nil {
				t.Failf("graph", "%s: %v", when, err)
			}
			if text := filesText(save(t, when, dm)); text != first {
				t.Failf("graph-again", "%s: run again in the same process the output differs:\n%s", when, seq.Diff(text, first))
			}
		}}
}

// runs: sequences of runs in one process over several modules, into one output or one per run.
func runs(depth int) eng.Suite {
	// module A and B overlap in package paths; different starting points of A; directory mode too
	type rn struct {
		name, in, cwd string
		mode          int
	}
	list := []rn{{"app of A", "A/m/cmd/app", "A/m", 1}, {"util of A", "A/m/util", "A/m", 1}, {"app of B", "B/m/cmd/app", "B/m", 1}, {"directories of A", "A/m", "A/m", 0}, {"directories below A's x", "A/m/x", "A/m", 0}}
	ga := graph{n: 4, uses: [5]bool{true, false, true, true}}
	ga.edge[0][1], ga.edge[0][2], ga.edge[1][2], ga.edge[2][3] = true, true, true, true
	gb := graph{n: 3, uses: [5]bool{false, true, true}}
	gb.edge[0][1], gb.edge[0][2] = true, true
	n := eng.SeqCount(len(list), depth)
	return eng.Suite{Name: "runs", N: n * 2, Bound: fmt.Sprintf("all sequences of 1..%d runs out of %d in one process, with one output for all or one for each", depth, len(list)),
		Run: func(t *eng.T, i int64) {
			root := filepath.Join(seq.Scratch(), "runs")
			os.RemoveAll(root)
			fa, ma := ga.files("A", 0)
			fb, mb := gb.files("B", 1)
			modTree(filepath.Join(root, "A"), fa)
			modTree(filepath.Join(root, "B"), fb)
			share := i%2 == 0
			dm := &xp.DomainMap{}
			var acc []msg
			var names []string
			for _, k := range eng.SeqAt(i/2, len(list)) {
				r := list[k]
				var ms []msg
				switch k {
				case 0:
					ms = ma
				case 2:
					ms = mb
				case 1: // util imports x/util imports x/y/gotext
					for _, m := range ma {
						if !strings.HasPrefix(m.pos, "cmd/") {
							ms = append(ms, m)
						}
					}
				case 3:
					ms = ma
				case 4:
					for _, m := range ma {
						if strings.HasPrefix(m.pos, "x/") {
							m.pos = strings.TrimPrefix(m.pos, "x/")
							ms = append(ms, m)
						}
					}
				}
				names = append(names, r.name)
				if !share {
					dm, acc = &xp.DomainMap{}, nil
				}
				acc = append(acc, ms...)
				when := strings.Join(names, ", then ")
				if err := run(r.mode, filepath.Join(root, r.in), filepath.Join(root, r.cwd), nil, dm); err != nil {
					t.Failf("runs", "%s: %v", when, err)
				}
				t.Step(1)
				checkSaved(t, "runs", when, save(t, when, dm), expect(acc, ""))
			}
			t.Nontriv()
			t.State(fmt.Sprint(names, share))
		}}
}

func init() {
	eng.Register(&eng.Prop{ID: "C27", Level: "model_checking", Rule: "enumeration of directory trees, import graphs and histories of runs",
		Assume: []string{"excluded names are relative to the input and do not name the input itself; no symbolic links to directories"},
		Suites: func(tier string) []eng.Suite {
			if tier == "thorough" {
				return []eng.Suite{
					walkSuite("trees", append(append([]string{}, treeDirs...), "a b", "ab/ab"), append(append([]string{}, excludeWords...), "a b", "./ab/../a/", "ab/ab"), 2, inputs),
					walkSuite("special names", specialDirs, specialWords, 2, inputs),
					walkErrors(),
					graphs(3, 2, 8),
					graphs(4, 2, 6),
					runs(4),
					deepTrees(),
					oddNames(),
					chains([]int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 32, 33, 65}),
				}
			}
			return []eng.Suite{
				walkSuite("trees", treeDirs, excludeWords, 2, inputs),
				walkSuite("special names", specialDirs, specialWords, 1, inputs),
				walkErrors(),
				graphs(3, 2, 4),
				runs(2),
				deepTrees(),
				oddNames(),
				chains([]int{3, 5, 8, 9, 17, 33}),
			}
		}})
}
