package conc

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"github.com/leonelquinteros/gotext"

	"verif/eng"
	"verif/ref"
	"verif/seq"
	"verif/vsync"
)

// Pkg are the objects of a program on the package level.
type Pkg struct {
	Locs []*gotext.Locale // those SetLocales is called with
	One  []*gotext.Locale // another list
	Tr   *gotext.Po
}

type pop = Op[*Pkg]

var pkgFiles = map[string]map[string]*ref.Doc{
	"A": {
		"de/LC_MESSAGES/d1.po":      tagged("de", pfTwo, "A-de-d1", "own-a"),
		"de/LC_MESSAGES/d2.po":      tagged("de", pfTwo, "A-de-d2", "own-a"),
		"fr/LC_MESSAGES/d1.mo":      tagged("fr", pfTwo, "A-fr-d1", "own-fr"),
		"fr/d2.po":                  tagged("fr", pfTwo, "A-fr-d2", "own-fr"),
		"en_US/default.po":          tagged("en_US", pfTwo, "A-en-default", "own-a"),
		"en_US/LC_MESSAGES/d2.po":   tagged("en_US", pfTwo, "A-en-d2", "own-a"),
		"de/LC_MESSAGES/default.po": tagged("de", pfTwo, "A-de-default", "own-a"),
	},
	"B": {
		"de/LC_MESSAGES/d1.po":   tagged("de", pfThree, "B-de-d1", "own-b"),
		"de/LC_MESSAGES/d2.po":   tagged("de", pfThree, "B-de-d2", "own-b"),
		"fr/d1.po":               tagged("fr", pfThree, "B-fr-d1", "own-fr"),
		"fr/d2.po":               tagged("fr", pfThree, "B-fr-d2", "own-fr"),
		"en_US/default.po":       tagged("en_US", pfThree, "B-en-default", "own-b"),
		"de/LC_MESSAGES/only.po": tagged("de", pfThree, "B-de-only", "own-b"),
	},
}

var pkgRoots = map[string]string{}

func root(name string) string {
	if r := pkgRoots[name]; r != "" {
		return r
	}
	r := filepath.Join(seq.Scratch(), "conc-"+name)
	for f, d := range pkgFiles[name] {
		if strings.HasSuffix(f, ".mo") {
			seq.WriteFile(r, f, mo(d))
		} else {
			seq.WriteFile(r, f, po(d))
		}
	}
	pkgRoots[name] = r
	return r
}

func memLocales(lang string, tags ...string) []*gotext.Locale {
	l := gotext.NewLocale(root("A"), lang)
	for _, t := range tags {
		p := gotext.NewPo()
		p.Parse(memTexts[t])
		l.AddTranslator(t, p)
	}
	return []*gotext.Locale{l}
}

var memTexts = map[string][]byte{
	"d1":  po(tagged("de", pfThree, "M-d1", "own-m")),
	"mem": po(tagged("de", pfThree, "M-mem", "own-m")),
}

var pkgInits = []struct {
	name string
	do   func(x *Pkg)
}{
	{"configured A,de,d1", func(x *Pkg) { gotext.Configure(root("A"), "de", "d1") }},
	{"configured B,fr:de,d2", func(x *Pkg) { gotext.Configure(root("B"), "fr:de", "d2") }},
	{"never used", func(x *Pkg) {}},
	{"given a Locale", func(x *Pkg) { gotext.SetLocales(x.Locs) }},
}

func pkgNew(init int, threads ...[]*pop) func() *Pkg {
	mem := pkgInits[init].name == "given a Locale"
	for _, t := range threads {
		for _, o := range t {
			mem = mem || strings.HasPrefix(o.Name, "SetLocales") || strings.HasPrefix(o.Name, "SetStorage") || strings.HasSuffix(o.Name, "of the Locale")
		}
	}
	return func() *Pkg {
		if !vsync.ResetPackages() {
			panic("no package state")
		}
		x := &Pkg{}
		if mem {
			*x = Pkg{Locs: memLocales("de", "d1", "mem"), One: memLocales("fr", "mem"), Tr: newTr()}
		}
		pkgInits[init].do(x)
		return x
	}
}

func langsOf(ls []*gotext.Locale) string {
	var o []string
	for _, l := range ls {
		o = append(o, l.GetLanguage()+"/"+l.GetDomain())
	}
	return fmt.Sprint(o)
}

func where(s string) string {
	for n, r := range pkgRoots {
		s = strings.ReplaceAll(s, r, "root "+n)
	}
	return s
}

func pkgFinal(x *Pkg) string {
	var b strings.Builder
	fmt.Fprintf(&b, "domain %q language %q languages %q library %q", gotext.GetDomain(), gotext.GetLanguage(), gotext.GetLanguages(), where(gotext.GetLibrary()))
	for _, d := range []string{"d1", "d2"} {
		fmt.Fprintf(&b, "\n%s: %s %s %s %v", d, gotext.GetD(d, "a"), gotext.GetND(d, "p", "ps", 2), gotext.GetDC(d, "a", "c"), gotext.IsTranslatedD(d, "a"))
	}
	fmt.Fprintf(&b, "\nmem: %s", gotext.GetND("mem", "p", "ps", 2))
	fmt.Fprintf(&b, "\ndefault domain: %s %s %v\nlocales %s", gotext.Get("a"), gotext.GetNC("p", "ps", 5, "c"), gotext.IsTranslated("own-fr", "fr", "de"), langsOf(gotext.GetLocales()))
	if s := gotext.GetStorage(); s == nil || s != gotext.GetLocales()[0] {
		b.WriteString(" storage is not the first")
	}
	return b.String()
}

func pkgOps() []*pop {
	var out []*pop
	op := func(name string, write bool, f func(x *Pkg) Res) *pop {
		o := &pop{Name: name, Write: write, Do: f}
		out = append(out, o)
		return o
	}
	def := func(name string, f func() Res, g func(dom string) Res) {
		o := op(name, false, func(x *Pkg) Res { return f() })
		o.Ref = []func(x *Pkg, mem *string) Res{
			func(x *Pkg, mem *string) Res { *mem = gotext.GetDomain(); return nil },
			func(x *Pkg, mem *string) Res { return g(*mem) },
		}
	}
	look := func(name string, f func() Res) { op(name, false, func(x *Pkg) Res { return f() }) }
	def("Get(a)", func() Res { return str(gotext.Get("a")) }, func(d string) Res { return str(gotext.GetD(d, "a")) })
	def("GetN(p,2)", func() Res { return str(gotext.GetN("p", "ps", 2)) }, func(d string) Res { return str(gotext.GetND(d, "p", "ps", 2)) })
	def("GetC(a,c)", func() Res { return str(gotext.GetC("a", "c")) }, func(d string) Res { return str(gotext.GetDC(d, "a", "c")) })
	def("GetNC(p,5,c)", func() Res { return str(gotext.GetNC("p", "ps", 5, "c")) }, func(d string) Res { return str(gotext.GetNDC(d, "p", "ps", 5, "c")) })
	look("GetD(d1,a)", func() Res { return str(gotext.GetD("d1", "a")) })
	look("GetD(d2,a)", func() Res { return str(gotext.GetD("d2", "a")) })
	look("GetND(d1,p,2)", func() Res { return str(gotext.GetND("d1", "p", "ps", 2)) })
	look("GetDC(d2,a,c)", func() Res { return str(gotext.GetDC("d2", "a", "c")) })
	look("GetNDC(d1,p,5,c)", func() Res { return str(gotext.GetNDC("d1", "p", "ps", 5, "c")) })
	look("GetD(mem,a)", func() Res { return str(gotext.GetD("mem", "a")) })
	look("GetD(d1,own-fr)", func() Res { return str(gotext.GetD("d1", "own-fr")) })
	def("IsTranslated(a)", func() Res { return boolean(gotext.IsTranslated("a")) }, func(d string) Res { return boolean(gotext.IsTranslatedD(d, "a")) })
	def("IsTranslatedN(h,2)", func() Res { return boolean(gotext.IsTranslatedN("h", 2)) }, func(d string) Res { return boolean(gotext.IsTranslatedND(d, "h", 2)) })
	def("IsTranslatedC(a,c)", func() Res { return boolean(gotext.IsTranslatedC("a", "c")) }, func(d string) Res { return boolean(gotext.IsTranslatedDC(d, "a", "c")) })
	def("IsTranslatedNC(h,2,c)", func() Res { return boolean(gotext.IsTranslatedNC("h", 2, "c")) }, func(d string) Res { return boolean(gotext.IsTranslatedNDC(d, "h", 2, "c")) })
	look("IsTranslatedD(d1,a)", func() Res { return boolean(gotext.IsTranslatedD("d1", "a")) })
	look("IsTranslatedD(d1,own-fr,de)", func() Res { return boolean(gotext.IsTranslatedD("d1", "own-fr", "de")) })
	look("IsTranslatedND(d2,h,2)", func() Res { return boolean(gotext.IsTranslatedND("d2", "h", 2)) })
	look("IsTranslatedDC(d1,a,c,fr:de)", func() Res { return boolean(gotext.IsTranslatedDC("d1", "a", "c", "fr", "de")) })
	look("IsTranslatedNDC(d2,h,2,c)", func() Res { return boolean(gotext.IsTranslatedNDC("d2", "h", 2, "c")) })
	look("GetDomain", func() Res { return str(gotext.GetDomain()) })
	look("GetLanguage", func() Res { return str(gotext.GetLanguage()) })
	look("GetLanguages", func() Res { return str(fmt.Sprintf("%q", gotext.GetLanguages())) })
	look("GetLibrary", func() Res { return str(where(gotext.GetLibrary())) })
	look("GetLocales", func() Res {
		ls := gotext.GetLocales()
		var o []string
		for _, l := range ls {
			o = append(o, l.GetLanguage())
		}
		return str(fmt.Sprint(o))
	})
	look("GetStorage", func() Res {
		l := gotext.GetStorage()
		if l == nil {
			return str("nil")
		}
		return str(l.GetLanguage())
	})
	conf := func(name string, f func(x *Pkg)) { op(name, true, func(x *Pkg) Res { f(x); return str("") }) }
	conf("Configure(A,de,d1)", func(x *Pkg) { gotext.Configure(root("A"), "de", "d1") })
	conf("Configure(B,fr:de,d2)", func(x *Pkg) { gotext.Configure(root("B"), "fr:de", "d2") })
	conf("SetDomain(d2)", func(x *Pkg) { gotext.SetDomain("d2") })
	conf("SetDomain(mem)", func(x *Pkg) { gotext.SetDomain("mem") })
	conf("SetLanguage(fr)", func(x *Pkg) { gotext.SetLanguage("fr") })
	conf("SetLanguage(de:fr)", func(x *Pkg) { gotext.SetLanguage("de:fr") })
	conf("SetLibrary(A)", func(x *Pkg) { gotext.SetLibrary(root("A")) })
	conf("SetLibrary(B)", func(x *Pkg) { gotext.SetLibrary(root("B")) })
	conf("SetLocales(de)", func(x *Pkg) { gotext.SetLocales(x.Locs) })
	conf("SetStorage(fr)", func(x *Pkg) { gotext.SetStorage(x.One[0]) })
	return out
}

// pkgShared uses a Locale directly while the package has or gets it.
func pkgShared(name string) eng.Suite {
	ops := pkgOps()
	var direct []*pop
	for _, o := range locOps(func(x *Locs) *gotext.Locale { return x.L }, " of the Locale") {
		direct = append(direct, &pop{Name: o.Name, Do: func(x *Pkg) Res {
			return o.Do(&Locs{L: x.Locs[0], fs: &switchFS{filesNew}, Tr: x.Tr})
		}})
	}
	direct = direct[:len(direct)-3]
	inits := []int{0, 3}
	r := []int{len(inits), len(ops), len(direct)}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("all schedules of all pairs of one of %d package-level operations and one of %d operations on a Locale the package has or may get (races, panics, deadlocks only)", len(ops), len(direct)),
		Run: func(t *eng.T, i int64) {
			d := eng.Digits(i, r...)
			in := inits[d[0]]
			th := [][]*pop{{ops[d[1]]}, {direct[d[2]]}}
			p := &Prog[*Pkg]{Name: pkgInits[in].name, New: pkgNew(in, th...), Final: pkgFinal, Threads: th}
			Explore(t, p, maxExecs, Observe[*Pkg])
		}}
}

// Coherent judges the package level: every result by itself is one a sequential order respecting the real
// time order gives, and so is the final configuration.
func Coherent[X any](p *Prog[X]) Judge[X] {
	type key struct {
		op  int
		res string
	}
	refs := p.references()
	per := map[key][]refOrder{}
	fin := map[string][]refOrder{}
	split := func(s string) ([]string, string) {
		a, f, _ := strings.Cut(s, "\x00finally ")
		return strings.Split(a, "\x00"), f
	}
	for k, rs := range refs {
		ops, f := split(k)
		for i, o := range ops {
			per[key{i, o}] = append(per[key{i, o}], rs...)
		}
		fin[f] = append(fin[f], rs...)
	}
	fits := func(rs []refOrder, rt refOrder) bool {
		for _, r := range rs {
			ok := true
			for a := range rt.before {
				if rt.before[a]&^r.before[a] != 0 {
					ok = false
				}
			}
			if ok {
				return true
			}
		}
		return false
	}
	return func(t *eng.T, p *Prog[X], x X, res []Res, rt refOrder, sched string) {
		got := p.outcome(x, res)
		t.State(p.String() + got)
		t.Validated++
		ops, f := split(got)
		for i, o := range ops {
			if !fits(per[key{i, o}], rt) {
				var want []string
				for k := range per {
					if k.op == i {
						want = append(want, k.res)
					}
				}
				sort.Strings(want)
				t.Failf("coherence "+p.String(), "%s\nno sequential order gives\n%s\nbut\n%s\nschedule: %s", p, o, strings.Join(want, "\nor "), sched)
			}
		}
		if !fits(fin[f], rt) {
			var want []string
			for k := range fin {
				want = append(want, k)
			}
			sort.Strings(want)
			t.Failf("configuration "+p.String(), "%s\nno sequential order leaves\n%s\nbut\n%s\nschedule: %s", p, f, clip(strings.Join(want, "\nor "), 4000), sched)
		}
	}
}

func pkgPairs(name string, inits []int, names ...string) eng.Suite {
	ops := pkgOps()
	if len(names) > 0 {
		ops = pick(ops, names...)
	}
	ps := pairsOf(len(ops))
	r := []int{len(inits), len(ps)}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("all schedules of all pairs of %d package-level operations in %d initial states", len(ops), len(inits)),
		Run: func(t *eng.T, i int64) {
			d := eng.Digits(i, r...)
			pr, in := ps[d[1]], inits[d[0]]
			th := [][]*pop{{ops[pr[0]]}, {ops[pr[1]]}}
			p := &Prog[*Pkg]{Name: pkgInits[in].name, New: pkgNew(in, th...), Final: pkgFinal, Threads: th}
			sampleProg(t, p, i)
			Explore(t, p, maxExecs, Coherent(p))
		}}
}

func pkgTwoOne(name string, inits []int, a, b, c []string) eng.Suite {
	ops := pkgOps()
	x, y, z := pick(ops, a...), pick(ops, b...), pick(ops, c...)
	r := []int{len(inits), len(x), len(y), len(z)}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("all schedules of one goroutine doing one of %d then one of %d operations while another does one of %d, in %d initial states", len(x), len(y), len(z), len(inits)),
		Run: func(t *eng.T, i int64) {
			d := eng.Digits(i, r...)
			in := inits[d[0]]
			th := [][]*pop{{x[d[1]], y[d[2]]}, {z[d[3]]}}
			p := &Prog[*Pkg]{Name: pkgInits[in].name, New: pkgNew(in, th...), Final: pkgFinal, Threads: th}
			sampleProg(t, p, i)
			Explore(t, p, maxExecs, Coherent(p))
		}}
}

func pkgTriples(name string, inits []int, names []string) eng.Suite {
	ops := pick(pkgOps(), names...)
	ts := triplesOf(len(ops))
	r := []int{len(inits), len(ts)}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("all schedules of all triples of %d operations in %d initial states", len(ops), len(inits)),
		Run: func(t *eng.T, i int64) {
			d := eng.Digits(i, r...)
			in, tr := inits[d[0]], ts[d[1]]
			th := [][]*pop{{ops[tr[0]]}, {ops[tr[1]]}, {ops[tr[2]]}}
			p := &Prog[*Pkg]{Name: pkgInits[in].name, New: pkgNew(in, th...), Final: pkgFinal, Threads: th}
			sampleProg(t, p, i)
			Explore(t, p, maxExecs, Coherent(p))
		}}
}

var pkgConf = []string{"Configure(A,de,d1)", "Configure(B,fr:de,d2)", "SetDomain(d2)", "SetLanguage(fr)", "SetLibrary(B)", "SetLocales(de)", "SetStorage(fr)"}
var pkgRead = []string{"Get(a)", "GetNC(p,5,c)", "GetD(d1,a)", "GetDC(d2,a,c)", "IsTranslatedD(d1,a)", "IsTranslated(a)", "GetDomain", "GetLanguages", "GetLocales"}
var pkgFew = []string{"Get(a)", "GetD(d1,a)", "IsTranslatedD(d1,a)", "Configure(B,fr:de,d2)", "SetDomain(d2)", "SetLanguage(fr)", "SetLocales(de)"}

func init() {
	eng.Register(&eng.Prop{ID: "C22", Level: "model_checking", HangSec: 60,
		Rule:   "every schedule of concurrent programs of package-level calls, each from the state of a new process, built with the race detector; no race, panic or deadlock; each result must be one some sequential order of the calls gives which respects which ended before which began (calls in the default domain may ask for it and look there at two moments), and so must the configuration left behind",
		Assume: []string{"goroutines switch at lock, atomic and once operations only, which suffices for programs the race detector finds free of races", "the files in the library do not change meanwhile"},
		Suites: func(tier string) []eng.Suite {
			if tier == "thorough" {
				var n []string
				for _, o := range pkgOps() {
					n = append(n, o.Name)
				}
				return []eng.Suite{pkgPairs("pairs", []int{0, 1, 2, 3}), pkgArgs("arguments", []int{0, 1, 2, 3}, []string{"a", "p", "nope"}, pkgConf), pkgTwoOne("configure-any", []int{0, 2}, pkgConf, n, n), pkgTwoOne("read-read", []int{0, 2}, pkgRead, pkgRead, pkgConf), pkgTriples("triples", []int{0, 2}, append(append([]string{}, pkgFew...), "GetND(d1,p,2)", "GetLocales", "SetLibrary(B)", "GetD(d2,a)")), pkgShared("shared-locale"), pkgReentrant(false), funcSuite(3)}
			}
			return []eng.Suite{pkgPairs("pairs", []int{0, 2}), pkgArgs("arguments", []int{1}, []string{"p", "nope"}, []string{"Configure(A,de,d1)", "SetDomain(mem)", "SetLocales(de)"}), pkgArgs("arguments-unconfigured", []int{2}, []string{"a"}, []string{"Configure(A,de,d1)"}), pkgPairs("pairs-more", []int{1, 3}, append(append([]string{}, pkgRead...), pkgConf...)...), pkgTwoOne("configure-read", []int{0}, pkgConf, pkgRead, pkgConf), pkgTwoOne("read-read", []int{2}, pkgRead[:6], pkgRead, pkgConf[:3]), pkgTriples("triples", []int{2}, []string{"Get(a)", "GetD(d1,a)", "Configure(B,fr:de,d2)", "SetDomain(d2)"}), pkgShared("shared-locale"), pkgReentrant(true), funcSuite(2)}
		}})
}
