package seq

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"

	"github.com/leonelquinteros/gotext"

	"verif/eng"
	"verif/ref"
)

// PkgM models the package configuration.
type PkgM struct {
	libs  map[string]Lib // by root
	lib   string
	langs []string
	dom   string
	locs  []*LocM // set by SetLocales; nil: made from lib and langs
	// observable answers of GetLocales are not modelled beyond their number
}

func newPkgM() *PkgM {
	return &PkgM{libs: map[string]Lib{diskLib("A", libA): libA, diskLib("B", libB): libB}, lib: "/usr/local/share/locale", langs: []string{"en_US"}, dom: "default"}
}

func simplify(l string) string {
	for _, s := range []string{":", "@", "."} {
		l, _, _ = strings.Cut(l, s)
	}
	return strings.TrimSpace(l)
}

func (m *PkgM) setLangs(s string) {
	m.langs = nil
	for _, l := range strings.Split(s, ":") {
		m.langs = append(m.langs, simplify(l))
	}
}

// locales gives the models of the locales in force.
func (m *PkgM) locales() []*LocM {
	if m.locs != nil {
		return m.locs
	}
	var out []*LocM
	for _, l := range m.langs {
		out = append(out, newLocM(m.libs[m.lib], l))
	}
	return out
}

// cat gives the catalog of a domain in a locale, loading it on demand.
func (l *LocM) cat(dom string) *ref.Cat {
	if c := l.doms[dom]; c != nil {
		return c
	}
	if c, _ := l.lib.find(l.lang, dom); c != nil {
		l.doms[dom] = c
		return c
	}
	return nil
}

func (m *PkgM) get(dom, ctx, id string) (string, bool) {
	for _, l := range m.locales() {
		if c := l.cat(dom); c != nil {
			if s, ok := c.Get(ctx, id); ok {
				return s, true
			}
		}
	}
	return id, false
}

func (m *PkgM) getN(dom, ctx, id, pl string, n int) (string, string, bool) {
	var last *ref.Cat
	for _, l := range m.locales() {
		last = l.cat(dom)
		if last != nil {
			if s, _, ok := last.GetN(ctx, id, pl, n); ok {
				return s, s, true
			}
		}
	}
	if last != nil {
		return last.GetN(ctx, id, pl, n)
	}
	if n == 1 {
		return id, id, false
	}
	return pl, pl, false
}
func (m *PkgM) def0() string { return m.dom }

// isModel answers translated-queries for given languages.
type isModel struct {
	m     *PkgM
	langs []string
}

func (x *isModel) def0() string { return x.m.dom }
func (x *isModel) among(dom string, f func(c *ref.Cat) bool) bool {
	langs := x.langs
	if len(langs) == 0 {
		langs = x.m.langs
	}
	for _, lang := range langs {
		lang = simplify(lang)
		for _, l := range x.m.locales() {
			_, file := l.lib.find(l.lang, dom)
			actual := ""
			if file != "" {
				actual, _, _ = strings.Cut(file, "/")
			}
			if lang != l.lang && lang != actual {
				continue
			}
			if c := l.cat(dom); c != nil && f(c) {
				return true
			}
		}
	}
	return false
}
func (x *isModel) get(dom, ctx, id string) (string, bool) {
	return "", x.among(dom, func(c *ref.Cat) bool { _, ok := c.Get(ctx, id); return ok })
}
func (x *isModel) getN(dom, ctx, id, pl string, n int) (string, string, bool) {
	return "", "", x.among(dom, func(c *ref.Cat) bool { _, _, ok := c.GetN(ctx, id, pl, n); return ok })
}

// PkgOp is a package-level call, on the real package and the model.
type PkgOp struct {
	Name string
	Do   func(m *PkgM)
}

func popConf(libName string, lib Lib, langs, dom string) PkgOp {
	return PkgOp{fmt.Sprintf("Configure(%s,%q,%s)", libName, langs, dom), func(m *PkgM) {
		root := pkgRoot(libName, lib)
		gotext.Configure(root, langs, dom)
		m.lib, m.dom, m.locs = root, dom, nil
		m.setLangs(langs)
	}}
}
func pkgRoot(libName string, lib Lib) string {
	if lib == nil {
		return "/nonexistent-verif"
	}
	return diskLib(libName, lib)
}

func popDomain(d string) PkgOp {
	return PkgOp{"SetDomain(" + d + ")", func(m *PkgM) { gotext.SetDomain(d); m.dom, m.locs = d, nil }}
}
func popLang(l string) PkgOp {
	return PkgOp{"SetLanguage(" + l + ")", func(m *PkgM) { gotext.SetLanguage(l); m.setLangs(l); m.locs = nil }}
}
func popLib(name string, lib Lib) PkgOp {
	return PkgOp{"SetLibrary(" + name + ")", func(m *PkgM) {
		root := pkgRoot(name, lib)
		gotext.SetLibrary(root)
		m.lib, m.locs = root, nil
	}}
}

// memLocale builds a Locale with in-memory domains and its model.
func memLocale(libName string, lib Lib, lang string, files []string, mem map[string]*ref.Doc, order []string) (*gotext.Locale, *LocM) {
	l := gotext.NewLocale(pkgRoot(libName, lib), lang)
	m := newLocM(lib, simplify(lang))
	for _, d := range files {
		l.AddDomain(d)
		m.add(d)
	}
	for _, d := range order {
		p := gotext.NewPo()
		p.Parse(ref.WritePO(mem[d], ref.Layout{}))
		l.AddTranslator(d, p)
		c := ref.NewCat()
		c.Load(mem[d])
		m.put(d, c)
	}
	return l, m
}

func popLocales(name string, storage bool, mk ...func() (*gotext.Locale, *LocM)) PkgOp {
	fn := "SetLocales"
	if storage {
		fn = "SetStorage"
	}
	return PkgOp{fn + "(" + name + ")", func(m *PkgM) {
		var ls []*gotext.Locale
		m.locs, m.langs = nil, nil
		for _, f := range mk {
			l, lm := f()
			ls = append(ls, l)
			m.locs = append(m.locs, lm)
			m.langs = append(m.langs, lm.lang)
		}
		m.dom = m.locs[0].def
		m.lib = ""
		for r, l := range m.libs {
			if fmt.Sprint(reflect.ValueOf(l).Pointer()) == fmt.Sprint(reflect.ValueOf(m.locs[0].lib).Pointer()) {
				m.lib = r
			}
		}
		if m.lib == "" {
			m.lib = pkgRoot("none", nil)
		}
		if storage {
			gotext.SetStorage(ls[0])
		} else {
			gotext.SetLocales(ls)
		}
	}}
}

func popCall(name string, f func()) PkgOp { return PkgOp{name, func(m *PkgM) { f() }} }

func pkgOps() []PkgOp {
	memRu := func() (*gotext.Locale, *LocM) {
		return memLocale("A", libA, "ru_RU.UTF-8", []string{"d1"}, map[string]*ref.Doc{"mem": mark("ru", pfRu, "M-ru"), "d2": mark("ru", pfRu, "M-ru-d2")}, []string{"mem", "d2"}) // d2 has a file as well
	}
	memFr := func() (*gotext.Locale, *LocM) {
		return memLocale("B", libB, "fr", nil, map[string]*ref.Doc{"d1": without(mark("fr", pfFr, "M-fr-d1"), "", "a"), "mem": mark("fr", pfFr, "M-fr")}, []string{"mem", "d1"})
	}
	memNone := func() (*gotext.Locale, *LocM) { return memLocale("none", nil, "xx", nil, nil, nil) }
	return []PkgOp{
		popConf("A", libA, "en_US", "d1"), popConf("B", libB, "de:fr", "d2"), popConf("A", libA, "xx:de_AT.UTF-8:ru", "nope"), popConf("A", libA, "fr@euro:de", "d1"),
		popDomain("d2"), popDomain("mem"), popDomain("default"),
		popLang("de_AT"), popLang("ru:fr_FR.UTF-8@euro: en_US "), popLib("A", libA), popLib("B", libB), popLib("none", nil),
		popLocales("ru,fr", false, memRu, memFr), popLocales("fr,ru", false, memFr, memRu), popLocales("fr", true, memFr), popLocales("empty xx", true, memNone),
		popCall("Get", func() { gotext.Get("a") }), popCall("GetD(d2)", func() { gotext.GetD("d2", "a") }), popCall("GetNDC(d1)", func() { gotext.GetNDC("d1", "p", "ps", 2, "c") }),
		popCall("IsTranslatedD(d2,de)", func() { gotext.IsTranslatedD("d2", "a", "de") }), popCall("GetDC(mem)", func() { gotext.GetDC("mem", "a", "c") }),
		popCall("getters", func() {
			gotext.GetDomain()
			gotext.GetLanguage()
			gotext.GetLanguages()
			gotext.GetLibrary()
			gotext.GetLocales()
			gotext.GetStorage()
		}),
	}
}

var pkgDoms = []string{"d1", "d2", "mem", "nope", "d3", "default"}
var pkgIsLangs = [][]string{nil, {"de"}, {"xx"}, {"fr", "ru_RU"}, {"de_AT.UTF-8"}, {"en_US", "en_US"}, {"ru:de"}, {"nope", "de_AT", "fr"}, {"en"}}

func pkgGetters(t *eng.T, when string, m *PkgM) {
	if got := gotext.GetDomain(); got != m.dom {
		t.Failf("package-getters", "%s: GetDomain() = %q, want %q", when, got, m.dom)
	}
	if got := gotext.GetLibrary(); got != m.lib {
		t.Failf("package-getters", "%s: GetLibrary() = %q, want %q", when, got, m.lib)
	}
	if got := gotext.GetLanguages(); !reflect.DeepEqual(got, m.langs) {
		t.Failf("package-getters", "%s: GetLanguages() = %q, want %q", when, got, m.langs)
	}
	if got := gotext.GetLanguage(); got != m.langs[0] {
		t.Failf("package-getters", "%s: GetLanguage() = %q, want %q", when, got, m.langs[0])
	}
	t.Step(4)
}

func pkgLocales(t *eng.T, when string, m *PkgM) {
	ls := gotext.GetLocales()
	if len(ls) != len(m.langs) {
		t.Failf("package-locales", "%s: %d locales, want %d", when, len(ls), len(m.langs))
	}
	for i, l := range ls {
		if l.GetLanguage() != m.langs[i] {
			t.Failf("package-locales", "%s: locale %d has language %q, want %q", when, i, l.GetLanguage(), m.langs[i])
		}
	}
	if gotext.GetStorage() != ls[0] {
		t.Failf("package-locales", "%s: GetStorage() is not the first of GetLocales()", when)
	}
}

func checkPkg(t *eng.T, when string, m *PkgM, get, is bool) { checkPkgSome(t, when, m, get, is, -1) }

// checkPkgSome asks for three of the language lists only, when pick is not negative.
func checkPkgSome(t *eng.T, when string, m *PkgM, get, is bool, pick int) {
	pkgGetters(t, when, m)
	if get {
		ObserveLoc(t, when, pkgAPI(), m, pkgDoms, locKeys, []int{-1, 1, 2, 5}, true, false, true)
		pkgGetters(t, when+", lookups", m)
		pkgLocales(t, when+", lookups", m)
	}
	if is {
		for li, ls := range pkgIsLangs {
			if pick >= 0 && (li+pick)%3 != 0 {
				continue
			}
			ObserveLoc(t, fmt.Sprintf("%s, languages %q", when, ls), pkgAPI(ls...), &isModel{m, ls}, pkgDoms, locKeys, []int{1, 2, 5}, false, true, false)
		}
	}
}

func pkgHist(t *eng.T, m *PkgM, ops []PkgOp, seq []int) string {
	var n []string
	for _, o := range seq {
		t.Tracef("%s", ops[o].Name)
		ops[o].Do(m)
		t.Step(1)
		n = append(n, ops[o].Name)
	}
	return strings.Join(n, ".")
}

// pkgSuite runs histories which begin with a Configure (which replaces the whole configuration) in one process.
func pkgSuite(name string, depth int, get, is bool) eng.Suite {
	ops := pkgOps()
	return eng.Suite{Name: name, N: 4 * (1 + eng.SeqCount(len(ops), depth)), Bound: fmt.Sprintf("each of 4 initial configurations followed by all histories of 0..%d calls over an alphabet of %d", depth, len(ops)),
		Run: func(t *eng.T, i int64) {
			seq := []int{int(i % 4)}
			if i >= 4 {
				seq = append(seq, eng.SeqAt(i/4-1, len(ops))...)
			}
			m := newPkgM()
			when := "after " + pkgHist(t, m, ops, seq)
			t.Nontriv()
			t.State(when)
			if t.WantSample() && i > 3000 {
				t.Sample("%s", when)
			}
			pick := -1
			if len(seq) > 2 {
				pick = int(i/4) % 3
			}
			checkPkgSome(t, when, m, get, is, pick)
		}}
}

// freshSuite runs histories from the unconfigured package, each in a process of its own.
func freshSuite(id, name string, depth int, get, is bool) eng.Suite {
	ops := pkgOps()
	n := eng.SeqCount(len(ops), depth) + 1
	surf := len(pkgFirst())
	return eng.Suite{Name: name, N: n + int64(surf)*int64(1+len(ops)), Bound: fmt.Sprintf("all histories of 0..%d calls over an alphabet of %d from the unconfigured package, and every one of %d calls as the first lookup there and after each call", depth, len(ops), surf),
		Run: func(t *eng.T, i int64) {
			if t.Fresh {
				freshCase(t, ops, n, i, get, is)
				return
			}
			out, err := exec.Command("/proc/self/exe", "fresh", id, name, strconv.FormatInt(i, 10)).CombinedOutput()
			t.Step(1)
			t.Nontriv()
			t.StateHash(uint64(i))
			if err != nil {
				s := string(out)
				key := "fresh-process"
				if _, r, ok := strings.Cut(s, "KEY "); ok {
					key, _, _ = strings.Cut(r, "\n")
				}
				if len(s) > 1500 {
					s = s[:1500]
				}
				t.Failf(key, "in a fresh process: %v\n%s", err, s)
			}
		}}
}

func freshCase(t *eng.T, ops []PkgOp, n, i int64, get, is bool) {
	m := newPkgM()
	if i < n {
		when := "unconfigured"
		if i > 0 {
			when = "unconfigured, after " + pkgHist(t, m, ops, eng.SeqAt(i-1, len(ops)))
		}
		checkPkg(t, when, m, get, is)
		return
	}
	i -= n
	first := pkgFirst()
	f := first[i%int64(len(first))]
	k := i / int64(len(first))
	when := "unconfigured"
	if k > 0 {
		when = "unconfigured, after " + pkgHist(t, m, ops, []int{int(k - 1)})
	}
	f(t, when, m)
	checkPkg(t, when+" and a first lookup", m, get, is)
}

// pkgFirst are single calls judged alone.
func pkgFirst() []func(t *eng.T, when string, m *PkgM) {
	var out []func(t *eng.T, when string, m *PkgM)
	for _, dom := range []string{"", "d1", "d2", "mem"} {
		for _, k := range locKeys[:5] {
			for _, mode := range []int{0, 1, 2, 3} { // get, getN, is, isN
				dom, k, mode := dom, k, mode
				out = append(out, func(t *eng.T, when string, m *PkgM) {
					a := pkgAPI()
					d := dom
					if d == "" {
						d = m.dom
					}
					var got, want, alt string
					n := 2
					switch mode {
					case 0:
						want, _ = m.get(d, k.Ctx, k.ID)
						alt = want
						switch {
						case dom == "" && k.Ctx == "":
							got = a.Get(k.ID)
						case dom == "":
							got = a.GetC(k.ID, k.Ctx)
						case k.Ctx == "":
							got = a.GetD(d, k.ID)
						default:
							got = a.GetDC(d, k.ID, k.Ctx)
						}
					case 1:
						want, alt, _ = m.getN(d, k.Ctx, k.ID, k.Plural, n)
						switch {
						case dom == "" && k.Ctx == "":
							got = a.GetN(k.ID, k.Plural, n)
						case dom == "":
							got = a.GetNC(k.ID, k.Plural, n, k.Ctx)
						case k.Ctx == "":
							got = a.GetND(d, k.ID, k.Plural, n)
						default:
							got = a.GetNDC(d, k.ID, k.Plural, n, k.Ctx)
						}
					case 2, 3:
						im := &isModel{m, nil}
						var w, g bool
						if mode == 2 {
							_, w = im.get(d, k.Ctx, k.ID)
							switch {
							case dom == "" && k.Ctx == "":
								g = a.Is(k.ID)
							case dom == "":
								g = a.IsC(k.ID, k.Ctx)
							case k.Ctx == "":
								g = a.IsD(d, k.ID)
							default:
								g = a.IsDC(d, k.ID, k.Ctx)
							}
						} else {
							_, _, w = im.getN(d, k.Ctx, k.ID, k.Plural, n)
							switch {
							case dom == "" && k.Ctx == "":
								g = a.IsN(k.ID, n)
							case dom == "":
								g = a.IsNC(k.ID, n, k.Ctx)
							case k.Ctx == "":
								g = a.IsND(d, k.ID, n)
							default:
								g = a.IsNDC(d, k.ID, n, k.Ctx)
							}
						}
						got, want, alt = fmt.Sprint(g), fmt.Sprint(w), fmt.Sprint(w)
					}
					if got != want && got != alt {
						t.Failf("package-first", "%s: first call, mode %d, domain %q, key %v: %s, want %s", when, mode, dom, k, q(got), q(want))
					}
				})
			}
		}
	}
	return out
}

func init() {
	eng.Register(&eng.Prop{ID: "C18", Level: "model_checking",
		Rule:   "package-level call histories run on the real package and a model of its configuration; unconfigured histories run in a fresh process each; after each history getters and all lookups in all domains are compared",
		Assume: []string{"SetLocales gets at least one Locale", "the files of the library do not change between a setter and the lookups that follow it", "nothing is installed in /usr/local/share/locale/en_US"},
		Suites: func(tier string) []eng.Suite {
			return []eng.Suite{
				pkgSuite("configured", tierInt(tier, 2, 3), true, false),
				watchedPkg("watched", tierInt(tier, 1, 2), true, false),
				langSuite("languages", tierInt(tier, 1, 2)),
				levelSuite("levels", true, false),
				chainSuite("chains", tierInt(tier, 5, 6), true, false),
				reloadSuite("reloads", tierInt(tier, 2, 3)),
				freshSuite("C18", "unconfigured", tierInt(tier, 2, 3), true, false),
			}
		}})
}

// langLists are lists that are prefixes, extensions, permutations and other spellings of each other.
var langLists = []string{"en", "en_US", "en_US:fr", "en:fr", "fr:en_US", "en_USA:fr", "fr", "fr:de", "de:fr", "de:fr:ru", "de_AT:fr", "de_AT", "de_DE:de_AT", "de:de", "de.UTF-8:fr@euro", "de:xx:fr", "xx", "xx:yy", "xx:de", "", "ru:de:fr:en_US"}

// langSuite goes from one list of languages to another, by every way to change it, asking in between or not.
func langSuite(name string, depth int) eng.Suite {
	n := len(langLists)
	dom := []string{"d1", "d2"}
	r := []int{n, 2, 2}
	for i := 0; i < depth; i++ {
		r = append(r, n, 4)
	}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("all ways of %d steps between %d lists of languages (prefixes, permutations, other spellings of each other), by SetLanguage, Configure and SetLocales, with and without lookups before", depth, n), Run: func(t *eng.T, i int64) {
		d := eng.Digits(i, r...)
		m := newPkgM()
		o := popConf("A", libA, langLists[d[0]], dom[d[1]])
		o.Do(m)
		when := "after " + o.Name
		for k := 3; k < len(d); k += 2 {
			if d[2] == 1 {
				gotext.Get("a")
				gotext.GetD("d2", "a")
				gotext.GetLocales()
			}
			l := langLists[d[k]]
			switch d[k+1] {
			case 0:
				o = popLang(l)
			case 1:
				o = popConf("A", libA, l, dom[1-d[1]])
			case 2:
				o = popConf("B", libB, l, dom[d[1]])
			default:
				var mk []func() (*gotext.Locale, *LocM)
				for _, x := range strings.Split(l, ":") {
					x := x
					mk = append(mk, func() (*gotext.Locale, *LocM) { return memLocale("A", libA, x, []string{dom[d[1]]}, nil, nil) })
				}
				o = popLocales(l, false, mk...)
			}
			o.Do(m)
			when += "." + o.Name
			t.Step(1)
		}
		t.State(when)
		t.Nontriv()
		pkgGetters(t, when, m)
		ObserveLoc(t, when, pkgAPI(), m, []string{"d1", "d2", "d3"}, locKeys[:4], []int{1, 2, 5}, true, false, false)
		for _, ls := range [][]string{nil, {"de"}, {"en", "fr"}, {"de_AT.UTF-8@x"}, {" en_US ", "fr_FR@euro"}, {"ru.KOI8-R:de", "de_AT@a.b"}} {
			ObserveLoc(t, fmt.Sprintf("%s, languages %q", when, ls), pkgAPI(ls...), &isModel{m, ls}, []string{"d1", "d2"}, locKeys[:3], []int{1, 2}, false, true, false)
		}
		pkgGetters(t, when+", lookups", m)
		pkgLocales(t, when+", lookups", m)
	}}
}

// reloadSuite: the setters read the files of the default domain again.
func reloadSuite(name string, depth int) eng.Suite {
	files := []string{"de/LC_MESSAGES/d1.po", "de_AT/d1.po", "fr/LC_MESSAGES/d1.mo", "de/LC_MESSAGES/d2.po"}
	doc := func(f string, v int) *ref.Doc {
		lang, _, _ := strings.Cut(f, "/")
		d := mark(lang, pfEn, fmt.Sprintf("V%d-%s-%d", v, lang, len(f)))
		if lang == "de_AT" {
			d = without(d, "", "a")
		}
		return d
	}
	type op struct {
		name string
		do   func(m *PkgM, root string)
	}
	setters := []op{
		{"SetDomain(d1)", func(m *PkgM, root string) { gotext.SetDomain("d1"); m.dom = "d1" }},
		{"SetDomain(d2)", func(m *PkgM, root string) { gotext.SetDomain("d2"); m.dom = "d2" }},
		{"SetLanguage(de_AT:fr)", func(m *PkgM, root string) { gotext.SetLanguage("de_AT:fr"); m.setLangs("de_AT:fr") }},
		{"SetLanguage(fr:de)", func(m *PkgM, root string) { gotext.SetLanguage("fr:de"); m.setLangs("fr:de") }},
		{"SetLibrary(again)", func(m *PkgM, root string) { gotext.SetLibrary(root) }},
		{"Configure(de_AT:fr, d1)", func(m *PkgM, root string) {
			gotext.Configure(root, "de_AT:fr", "d1")
			m.setLangs("de_AT:fr")
			m.dom = "d1"
		}},
	}
	ops := append([]op(nil), setters...)
	for _, f := range files {
		for v := 1; v <= 2; v++ {
			ops = append(ops, op{fmt.Sprintf("write %s version %d", f, v), func(m *PkgM, root string) {
				m.libs[root][f] = doc(f, v)
				diskPut(root, f, fileBytes(f, doc(f, v)))
			}})
		}
		ops = append(ops, op{"remove " + f, func(m *PkgM, root string) {
			delete(m.libs[root], f)
			os.Remove(filepath.Join(root, f))
		}})
	}
	ops = append(ops, op{"lookups", func(m *PkgM, root string) {
		for _, d := range []string{"d1", "d2"} {
			gotext.GetD(d, "a")
			gotext.GetNDC(d, "p", "ps", 2, "c")
			gotext.IsTranslatedD(d, "a", "fr")
		}
	}})
	ns := int64(len(setters))
	return eng.Suite{Name: name, N: eng.SeqCount(len(ops), depth) * ns, Bound: fmt.Sprintf("all histories of 1..%d steps over an alphabet of %d (4 catalog files written in two versions of equal length and time, and removed; setters; lookups), then each of %d setters; lookups in the default domain", depth, len(ops), len(setters)), Run: func(t *eng.T, i int64) {
		root, err := os.MkdirTemp(Scratch(), "c18")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(root)
		lib := Lib{}
		m := &PkgM{libs: map[string]Lib{root: lib}, lib: root}
		for _, f := range files[:3] {
			lib[f] = doc(f, 1)
			diskPut(root, f, fileBytes(f, lib[f]))
		}
		setters[5].do(m, root)
		var names []string
		for _, o := range eng.SeqAt(i/ns, len(ops)) {
			ops[o].do(m, root)
			names = append(names, ops[o].name)
		}
		setters[i%ns].do(m, root)
		names = append(names, setters[i%ns].name)
		t.Tracef("%v", names)
		t.Nontriv()
		when := "after " + strings.Join(names, ".")
		t.State(when)
		ObserveLoc(t, when, pkgAPI(), m, []string{m.dom}, locKeys[:6], []int{1, 2}, true, false, false)
		ObserveLoc(t, when, pkgAPI(), &isModel{m, nil}, []string{m.dom}, locKeys[:6], []int{1, 2}, false, true, false)
	}}
}
