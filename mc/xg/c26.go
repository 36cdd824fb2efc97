package xg

import (
	"fmt"
	"go/ast"
	"log"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	xp "github.com/leonelquinteros/gotext/cli/xgotext/parser"

	"verif/eng"
	"verif/seq"
	"verif/vmap"
)

// quiet drops what is expected in the log.
type quiet struct{}

func (quiet) Write(b []byte) (int, error) {
	if s := string(b); strings.Contains(s, "Unsupported call") || strings.Contains(s, "failed to load") {
		return len(b), nil
	}
	return os.Stderr.Write(b)
}

func init() { log.SetOutput(quiet{}) }

// poolMsgs are the messages extracted in every order.
var poolMsgs = []msg{
	{id: "a"},
	{id: "a", pl: "as"},
	{id: "a", ctx: "c"},
	{id: "a", ctx: "c", pl: "as"},
	{dom: "d", id: "a"},
	{dom: "d", ctx: "c\"\\", id: "q\"uo\\te", pl: "pl\nural"},
	{id: "line 1\nline 2\n"},
	{id: "日本 ü €", pl: "日本\t\"s\""},
	{dom: "default", id: "a"},
	{id: "a", ctx: "日\n本"},
	{id: "\\n", pl: "\\\\n"},
	{dom: "d2.x", id: "b", pl: "bs"},
	{id: "b"},
	{id: "\"", ctx: "\""},
	{id: "\ttab\rcr\x01\u2028", ctx: "\ttab\r"},
	{id: "msgid \"x\"\nmsgstr \"y\"\n#: z.go:1"},
	{id: "\n\na\n\n"},
	{id: " a "},
	{dom: "d", id: "a", ctx: "c", pl: "a"},
	{id: "\\", pl: "\\"},
	{id: "b", ctx: "b"},
	{id: "a", ctx: "C"},
	{id: "B", ctx: "c"},
	{id: "A"},
	{id: "b", ctx: "c"},
	{id: "aa", ctx: "B"},
	{id: "a1"},
	{id: "a10"},
	{id: "a", ctx: "c "},
	{dom: "D", id: "a"},
	{dom: "d1", id: "b", ctx: "c"},
}

var poolFiles = []string{"/w/m/f.go", "/w/m/sub dir/g.go", "/w/m/sub/f10.go"}

// pool has the call of every message on two lines of two files.
type poolCall struct {
	m    msg
	g    *xp.GoFile
	call *ast.CallExpr
}

var pool []poolCall

const poolPlaces = 3

func fnOf(m msg) string {
	s := "Get"
	if m.pl != "" {
		s += "N"
	}
	if m.dom != "" {
		s += "D"
	}
	if m.ctx != "" {
		s += "C"
	}
	return s
}

func init() {
	// names of GetN + D
	_ = sigs["GetND"]
}

func thePool() []poolCall {
	if pool != nil {
		return pool
	}
	// place 0: f.go line 100+k; place 1: f.go line 5+k; place 2: sub/g.go
	line := func(place, k int) (string, int) {
		switch place {
		case 0:
			return "f.go", 100 + k
		case 1:
			return "f.go", 5 + k
		}
		return "sub/g.go", 5 + k
	}
	texts := map[string][]string{}
	for _, f := range []string{"f.go", "sub/g.go"} {
		ls := make([]string, 150)
		ls[0] = "package m"
		ls[1] = "import \"" + gotextPath + "\""
		ls[2] = "func " + map[string]string{"f.go": "f", "sub/g.go": "g"}[f] + "() {"
		ls[149] = "}"
		texts[f] = ls
	}
	for pl := 0; pl < poolPlaces; pl++ {
		for k, m := range poolMsgs {
			f, l := line(pl, k)
			texts[f][l-1] = callText("gotext", fnOf(m), strconv.Quote(m.id), strconv.Quote(m.pl), "2", strconv.Quote(m.ctx), strconv.Quote(m.dom))
		}
	}
	p := check("m", map[string]string{"/w/m/f.go": strings.Join(texts["f.go"], "\n"), "/w/m/sub/g.go": strings.Join(texts["sub/g.go"], "\n")})
	calls := map[string]poolCall{}
	for k, f := range p.files {
		g := p.goFile(k, "/w/m", nil)
		ast.Inspect(f, func(n ast.Node) bool {
			if c, ok := n.(*ast.CallExpr); ok {
				pos := p.fset.Position(c.Pos())
				calls[fmt.Sprintf("%s:%d", strings.TrimPrefix(pos.Filename, "/w/m/"), pos.Line)] = poolCall{g: g, call: c}
			}
			return true
		})
	}
	for pl := 0; pl < poolPlaces; pl++ {
		for k, m := range poolMsgs {
			f, l := line(pl, k)
			m.pos = fmt.Sprintf("%s:%d", f, l)
			c := calls[m.pos]
			if c.call == nil {
				panic("no call at " + m.pos)
			}
			c.m = m
			pool = append(pool, c)
		}
	}
	return pool
}

func add(dm *xp.DomainMap, c poolCall) {
	g := *c.g
	g.Data = dm
	g.InspectCallExpr(c.call)
}

func describe(ms []msg) string {
	var s []string
	for _, m := range ms {
		s = append(s, m.String())
	}
	return strings.Join(s, "; then ")
}

// sequences adds every sequence of messages.
func sequences(name string, pick []int, places int, depth int, def string) eng.Suite {
	a := len(pick) * places
	n := eng.SeqCount(a, depth)
	return eng.Suite{Name: name, N: n, Bound: fmt.Sprintf("all sequences of 1..%d calls out of %d messages x %d positions, default domain %q", depth, len(pick), places, def),
		Run: func(t *eng.T, i int64) {
			p := thePool()
			ks := eng.SeqAt(i, a)
			dm := &xp.DomainMap{Default: def}
			var ms []msg
			ord := make([]int, 0, len(ks))
			for _, k := range ks {
				c := pick[k%len(pick)] + (k/len(pick))*len(poolMsgs)
				ord = append(ord, c)
				add(dm, p[c])
				ms = append(ms, p[c].m)
				t.Step(1)
			}
			when := describe(ms)
			w := expect(ms, def)
			files := save(t, when, dm)
			checkSaved(t, "content", when, files, w)
			text := filesText(files)
			t.State(text)
			if len(ms) > 1 {
				t.Nontriv()
			}
			if t.WantSample() && i > n/2 {
				t.Sample("%s", when)
			}
			if sort.IntsAreSorted(ord) {
				// saving once more gives the same
				if again := filesText(save(t, when, dm)); again != text {
					t.Failf("repeat", "%s: saved again, the output differs:\n%s", when, seq.Diff(again, text))
				}
				return
			}
			sort.Ints(ord)
			dm2 := &xp.DomainMap{Default: def}
			for _, c := range ord {
				add(dm2, p[c])
			}
			if other := filesText(save(t, when, dm2)); other != text {
				t.Failf("order", "%s: the output depends on the order in which the messages were found:\n%s", when, seq.Diff(text, other))
			}
		}}
}

func rangeInts(n int) []int {
	var r []int
	for i := 0; i < n; i++ {
		r = append(r, i)
	}
	return r
}

// mapOrders saves every subset of the pool under all orders of map iteration.
func mapOrders(name string, pick []int, max int64) eng.Suite {
	return eng.Suite{Name: name, N: 1 << len(pick), Bound: fmt.Sprintf("every subset of %d messages, saved under every order of every map (at most %d combinations, then one map at a time)", len(pick), max),
		Run: func(t *eng.T, i int64) {
			needMaps()
			p := thePool()
			vmap.SetMode(vmap.Sorted)
			defer vmap.SetMode(vmap.Native)
			build := func() (*xp.DomainMap, []msg) {
				dm := &xp.DomainMap{Default: "default"}
				var ms []msg
				for k, c := range pick {
					if i&(1<<k) != 0 {
						add(dm, p[c])
						ms = append(ms, p[c].m)
					}
				}
				return dm, ms
			}
			dm, ms := build()
			when := describe(ms)
			files := save(t, when, dm)
			checkSaved(t, "content", when, files, expect(ms, ""))
			base := filesText(files)
			t.State(base)
			one := func() bool {
				dm, _ := build()
				if got := filesText(save(t, when, dm)); got != base {
					t.Failf("map-order", "%s: the output depends on the iteration order of a map:\n%s", when, seq.Diff(got, base))
				}
				return true
			}
			if runs, all := vmap.Each(max, one); !all {
				t.Note("outputs with more combinations of orders than are taken", 1)
				vmap.Limited(max, one)
			} else if runs > 1 {
				t.Nontriv()
			}
		}}
}

// saves runs histories of adding and saving, into directories which hold earlier output.
func saves(name string, pick []int, depth int) eng.Suite {
	// an operation: add one of the messages, save into one of two directories, start a new run
	a := len(pick) + 3
	n := eng.SeqCount(a, depth)
	doms := map[string]bool{"default": true}
	for _, k := range pick {
		if d := poolMsgs[k].dom; d != "" {
			doms[d] = true
		}
	}
	const junk = "#: old.go:1\nmsgid \"left over\"\nmsgstr \"\"\n\n"
	return eng.Suite{Name: name, N: n * 2, Bound: fmt.Sprintf("all histories of 1..%d operations out of: add one of %d messages, save into one of two directories, new run; with the directories new, and with longer files of every domain in them", depth, len(pick)),
		Run: func(t *eng.T, i int64) {
			p := thePool()
			root := filepath.Join(seq.Scratch(), "sv")
			os.RemoveAll(root)
			dm := &xp.DomainMap{}
			var ms []msg
			var h []string
			old := strings.Repeat(junk, 40)
			if i%2 == 1 {
				for d := 0; d < 2; d++ {
					for dom := range doms {
						seq.WriteFile(root, fmt.Sprintf("o%d/deep/%s.pot", d, dom), []byte(old))
					}
				}
				h = append(h, "directories with long files")
			}
			disk := map[string]map[string]map[entKey]*entVal{} // directory, file: what it holds
			for _, o := range eng.SeqAt(i/2, a) {
				t.Step(1)
				switch {
				case o < len(pick):
					c := p[pick[o]]
					add(dm, c)
					ms = append(ms, c.m)
					h = append(h, "add "+c.m.String())
				case o < len(pick)+2:
					d := fmt.Sprintf("o%d/deep", o-len(pick))
					if err := dm.Save(filepath.Join(root, d)); err != nil {
						t.Failf("save", "%s: Save: %v", strings.Join(h, "; "), err)
					}
					t.Execs++
					if disk[d] == nil {
						disk[d] = map[string]map[entKey]*entVal{}
					}
					w := expect(ms, "")
					byDom := map[string]map[entKey]*entVal{}
					for k, v := range w {
						if byDom[k.dom] == nil {
							byDom[k.dom] = map[entKey]*entVal{}
						}
						byDom[k.dom][k] = v
					}
					for dom, m := range byDom {
						disk[d][dom] = m
					}
					h = append(h, "save to "+d)
				default:
					dm, ms = &xp.DomainMap{}, nil
					h = append(h, "new run")
				}
			}
			when := strings.Join(h, "; ")
			for d, byDom := range disk {
				w := map[entKey]*entVal{}
				for _, m := range byDom {
					for k, v := range m {
						w[k] = v
					}
				}
				files := saved(filepath.Join(root, d))
				for dom := range doms {
					if i%2 == 1 && doms[dom] && disk[d][dom] == nil {
						if files[dom+".pot"] != old {
							t.Failf("history", "%s: %s: the file of domain %q, which has no messages, changed", when, d, dom)
						}
						delete(files, dom+".pot")
					}
				}
				checkSaved(t, "history", when+": "+d, files, w)
				t.Nontriv()
			}
			t.State(when)
		}}
}

// faults: output which cannot be written is reported.
func faults() eng.Suite {
	kinds := []string{"the directory is a file", "a parent is a file", "the file of a domain is a directory", "the file of a domain leads to a full device", "no fault"}
	doms := []string{"", "d", "default"}
	r := []int{len(kinds), 1 << len(doms), len(doms)}
	return eng.Suite{Name: "faults", N: eng.Prod(r...), Bound: "every kind of unwritable output x every set of domains x the domain hit",
		Run: func(t *eng.T, i int64) {
			p := thePool()
			d := eng.Digits(i, r...)
			root := filepath.Join(seq.Scratch(), "ft")
			os.RemoveAll(root)
			os.MkdirAll(root, 0o755)
			out := filepath.Join(root, "out")
			dm := &xp.DomainMap{}
			hit := doms[d[2]]
			if hit == "" {
				hit = "default"
			}
			present := false
			var ms []msg
			for k, want := range doms {
				if d[1]&(1<<k) == 0 {
					continue
				}
				for _, c := range p {
					if c.m.dom == want {
						add(dm, c)
						ms = append(ms, c.m)
						if want == "" {
							want = "default"
						}
						present = present || want == hit
						break
					}
				}
			}
			wantErr := false
			switch d[0] {
			case 0:
				os.WriteFile(out, []byte("x"), 0o644)
				wantErr = true
			case 1:
				os.WriteFile(out, []byte("x"), 0o644)
				out = filepath.Join(out, "deep")
				wantErr = true
			case 2:
				os.MkdirAll(filepath.Join(out, hit+".pot"), 0o755)
				wantErr = present
			case 3:
				os.MkdirAll(out, 0o755)
				os.Symlink("/dev/full", filepath.Join(out, hit+".pot"))
				wantErr = present
			}
			when := fmt.Sprintf("%s, domain %s; %s", kinds[d[0]], hit, describe(ms))
			err := dm.Save(out)
			t.Execs++
			t.State(fmt.Sprint(when, err))
			if wantErr {
				t.Nontriv()
			}
			if (err != nil) != wantErr {
				t.Failf("faults", "%s: Save returned %v", when, err)
			}
		}}
}

func init() {
	eng.Register(&eng.Prop{ID: "C26", Level: "model_checking", Rule: "enumeration of extraction histories; output read back",
		Assume: []string{"positions without spaces, non-empty ids and contexts, valid UTF-8, the same plural id at every call of a message", "domains usable as file names"},
		Suites: func(tier string) []eng.Suite {
			deep := tier == "thorough"
			ss := []eng.Suite{
				faults(),
				sequences("pairs", rangeInts(len(poolMsgs)), poolPlaces, 2, "default"),
				sequences("other default domain", rangeInts(9), 2, 3, "d"),
				sequences("no default domain", rangeInts(9), 1, 3, ""),
				sequences("triples", rangeInts(len(poolMsgs)), 1, tiered(tier, 3, 4), "default"),
				sequences("sorting", []int{0, 2, 12, 20, 21, 22, 23, 24, 25, 26, 27, 28}, 1, tiered(tier, 4, 5), "default"),
				sequences("merges", []int{0, 1, 2, 3, 4, 8}, 3, tiered(tier, 3, 4), "default"),
				saves("saves", []int{0, 1, 4, 5, 6}, tiered(tier, 4, 6)),
				mapOrders("map orders", []int{0, 1 + len(poolMsgs), 2, 4, 20, 21, 9, 11, 23, 24}, int64(tiered(tier, 60, 2000))),
			}
			ss = append(ss, countSuite())
			if deep {
				ss = append(ss, sequences("longer", []int{0, 1, 2, 3, 4, 5, 12}, 1, 6, "default"))
			}
			return ss
		}})
}
