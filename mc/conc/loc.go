package conc

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"io/fs"
	"sort"
	"strconv"
	"strings"
	"testing/fstest"

	"github.com/leonelquinteros/gotext"

	"verif/eng"
	"verif/ref"
	"verif/seq"
)

const (
	pfTwo   = "nplurals=2; plural=(n != 1);"
	pfThree = "nplurals=3; plural=(n == 1 ? 0 : n == 2 ? 2 : 1);"
)

// tagged makes a small document whose texts name it; own is an id no other domain has.
func tagged(lang, pf, tag, own string) *ref.Doc {
	forms := func(s string) (o []string) {
		n := 2
		if pf == pfThree {
			n = 3
		}
		for i := 0; i < n; i++ {
			o = append(o, fmt.Sprintf("%s %s.%d", tag, s, i))
		}
		return
	}
	half := forms("h") // only the form of 2 is translated
	for i := range half[:len(half)-1] {
		half[i] = ""
	}
	return &ref.Doc{Header: []string{"Language: " + lang, "Plural-Forms: " + pf, "X-Tag: " + tag}, Ents: []ref.Ent{
		ref.Sing("", "a", tag+" a"), ref.Plur("", "p", "ps", forms("p")...), ref.Sing("c", "a", tag+" ca"), ref.Plur("c", "p", "ps", forms("cp")...), ref.Sing("", own, tag+" own"),
		ref.Plur("", "h", "hs", half...), ref.Plur("c", "h", "hs", half...)}}
}

func po(d *ref.Doc) []byte { return ref.WritePO(d, ref.Layout{}) }
func mo(d *ref.Doc) []byte { return ref.WriteMO(d, ref.MOLayout{Sorted: true}).Data }

// the files when the program begins are not those the initial domains were loaded from
var filesOld = fstest.MapFS{
	"de/LC_MESSAGES/d1.po": {Data: po(tagged("de", pfTwo, "D1old", "own-d1"))},
	"de/LC_MESSAGES/d2.mo": {Data: mo(tagged("de", pfTwo, "D2", "own-d2"))},
}
var filesNew = fstest.MapFS{
	"de/LC_MESSAGES/d1.po": {Data: po(tagged("de", pfThree, "D1new", "own-d1"))},
	"de/LC_MESSAGES/d2.mo": filesOld["de/LC_MESSAGES/d2.mo"],
	"de/d3.po":             {Data: po(tagged("de", pfThree, "D3", "own-d3"))},
}

type switchFS struct{ cur fstest.MapFS }

func (f *switchFS) Open(n string) (fs.File, error) { return f.cur.Open(n) }

// Locs are the objects of a Locale program.
type Locs struct {
	L, L2 *gotext.Locale
	fs    *switchFS
	Tr    *gotext.Po // the translator of domain "tr", shared by both
	found []*gotext.Locale
}

type lop = Op[*Locs]

func newTr() *gotext.Po {
	p := gotext.NewPo()
	p.Parse(trText)
	return p
}

var (
	trText  = po(tagged("de", pfTwo, "TR", "own-tr"))
	tr2Text = po(tagged("de", pfThree, "TR2", "own-tr"))
	trMo    = mo(tagged("de", pfThree, "MOTR", "own-d1"))
	tr4Text = po(tagged("de", pfTwo, "D4", "own-d4"))
)

var locInits = []struct {
	name string
	new  func() *Locs
}{
	{"locale", func() *Locs {
		x := &Locs{fs: &switchFS{filesOld}, Tr: newTr()}
		x.L = gotext.NewLocaleFS("de", x.fs)
		x.L.AddDomain("d1")
		x.L.AddDomain("d2")
		x.L.AddTranslator("tr", x.Tr)
		x.fs.cur = filesNew
		return x
	}},
	{"new locale", func() *Locs {
		x := &Locs{fs: &switchFS{filesNew}, Tr: newTr()}
		x.L = gotext.NewLocaleFS("de", x.fs)
		return x
	}},
	{"zero locale", func() *Locs {
		return &Locs{fs: &switchFS{filesNew}, Tr: newTr(), L: new(gotext.Locale)}
	}},
}

func newShared() *Locs {
	x := &Locs{fs: &switchFS{filesNew}, Tr: newTr()}
	for _, l := range []**gotext.Locale{&x.L, &x.L2} {
		*l = gotext.NewLocaleFS("de", x.fs)
		(*l).AddTranslator("tr", x.Tr)
	}
	return x
}

func locBlob() []byte {
	x := locInits[0].new()
	p := gotext.NewPo()
	p.Parse(po(tagged("de", pfThree, "BLOB1", "own-d1")))
	x.L.AddTranslator("d1", p)
	p = gotext.NewPo()
	p.Parse(po(tagged("de", pfThree, "BLOB5", "own-d5")))
	x.L.AddTranslator("d5", p)
	x.L.SetDomain("d5")
	b, err := x.L.MarshalBinary()
	if err != nil {
		panic(err)
	}
	return b
}

// ids of which only one domain has one
func own(id string) bool { return strings.HasPrefix(id, "own-") }

func snapLocale(m map[string]*gotext.Translation) string {
	n := map[string]*gotext.Translation{}
	var ids []string
	for id, t := range m {
		if id == "" {
			continue
		}
		ids = append(ids, id)
		if own(id) {
			n[id] = t
		}
	}
	sort.Strings(ids)
	return fmt.Sprint(ids) + canonTr(n)
}

func stateLocale(l *gotext.Locale) string {
	s := fmt.Sprintf("language %s, domain %q", l.GetLanguage(), l.GetDomain())
	var ds []string
	for d := range l.Domains {
		ds = append(ds, d)
	}
	sort.Strings(ds)
	for _, d := range ds {
		s += fmt.Sprintf("\n[%s] ", d)
		if tr := l.Domains[d]; tr != nil {
			s += canonTr(tr.GetDomain().GetTranslations()) + seq.CanonSnap(nil, tr.GetDomain().GetCtxTranslations(), true, true) + tr.GetN("p", "ps", 2) + tr.GetN("p", "ps", 21)
		}
	}
	return s
}

func locFinal(x *Locs) string {
	s := stateLocale(x.L)
	if x.L2 != nil {
		s += "\nother " + stateLocale(x.L2)
	}
	return s
}

func decodedLocale(b []byte, err error) Res {
	if err != nil {
		return str(err.Error())
	}
	return func() string {
		l := new(gotext.Locale)
		if err := l.UnmarshalBinary(b); err != nil {
			return err.Error()
		}
		// what the data holds
		var enc gotext.LocaleEncoding
		if err := gob.NewDecoder(bytes.NewReader(b)).Decode(&enc); err != nil {
			return err.Error()
		}
		return fmt.Sprint(len(enc.Domains)) + stateLocale(l)
	}
}

// locOps are the operations on the Locale which at picks.
func locOps(at func(x *Locs) *gotext.Locale, sfx string) []*lop {
	var out []*lop
	op := func(name string, write bool, f func(x *Locs, l *gotext.Locale) Res) *lop {
		o := &lop{Name: name + sfx, Write: write, Edits: strings.HasSuffix(name, " in tr") || strings.HasSuffix(name, " into tr"), Do: func(x *Locs) Res { return f(x, at(x)) }}
		out = append(out, o)
		return o
	}
	// what a lookup found at one moment and will look into at another
	find := func(x *Locs, mem *string, dom string) {
		l := gotext.NewLocale("", "de")
		if tr := at(x).Domains[dom]; tr != nil {
			l.AddTranslator("found", tr)
		}
		x.found = append(x.found, l)
		*mem = strconv.Itoa(len(x.found) - 1)
	}
	lookIn := func(x *Locs, mem *string, g func(l *gotext.Locale, dom string) Res) Res {
		i, err := strconv.Atoi(*mem)
		if err != nil {
			panic(err)
		}
		return g(x.found[i], "found")
	}
	// lookups in the default domain ask which that is, and then look there; a query does that at once, a lookup
	// finds the translator of the domain and asks it
	def := func(name string, f func(l *gotext.Locale) Res, g func(l *gotext.Locale, dom string) Res) {
		o := op(name, false, func(x *Locs, l *gotext.Locale) Res { return f(l) })
		o.Ref = []func(x *Locs, mem *string) Res{
			func(x *Locs, mem *string) Res { *mem = at(x).GetDomain(); return nil },
			func(x *Locs, mem *string) Res { return g(at(x), *mem) },
		}
		if strings.HasPrefix(name, "Get") {
			o.Split = []func(x *Locs, mem *string) Res{
				o.Ref[0],
				func(x *Locs, mem *string) Res { find(x, mem, *mem); return nil },
				func(x *Locs, mem *string) Res { return lookIn(x, mem, g) },
			}
		}
	}
	look := func(name, dom string, g func(l *gotext.Locale, dom string) Res) {
		o := op(name, false, func(x *Locs, l *gotext.Locale) Res { return g(l, dom) })
		o.Split = []func(x *Locs, mem *string) Res{
			func(x *Locs, mem *string) Res { find(x, mem, dom); return nil },
			func(x *Locs, mem *string) Res { return lookIn(x, mem, g) },
		}
	}
	def("Get(a)", func(l *gotext.Locale) Res { return str(l.Get("a")) }, func(l *gotext.Locale, d string) Res { return str(l.GetD(d, "a")) })
	def("GetN(p,2)", func(l *gotext.Locale) Res { return str(l.GetN("p", "ps", 2)) }, func(l *gotext.Locale, d string) Res { return str(l.GetND(d, "p", "ps", 2)) })
	def("GetC(a,c)", func(l *gotext.Locale) Res { return str(l.GetC("a", "c")) }, func(l *gotext.Locale, d string) Res { return str(l.GetDC(d, "a", "c")) })
	def("GetNC(p,21,c)", func(l *gotext.Locale) Res { return str(l.GetNC("p", "ps", 21, "c")) }, func(l *gotext.Locale, d string) Res { return str(l.GetNDC(d, "p", "ps", 21, "c")) })
	def("IsTranslated(own-d2)", func(l *gotext.Locale) Res { return boolean(l.IsTranslated("own-d2")) }, func(l *gotext.Locale, d string) Res { return boolean(l.IsTranslatedD(d, "own-d2")) })
	def("IsTranslatedN(h,2)", func(l *gotext.Locale) Res { return boolean(l.IsTranslatedN("h", 2)) }, func(l *gotext.Locale, d string) Res { return boolean(l.IsTranslatedND(d, "h", 2)) })
	def("IsTranslatedC(a,c)", func(l *gotext.Locale) Res { return boolean(l.IsTranslatedC("a", "c")) }, func(l *gotext.Locale, d string) Res { return boolean(l.IsTranslatedDC(d, "a", "c")) })
	def("IsTranslatedNC(h,2,c)", func(l *gotext.Locale) Res { return boolean(l.IsTranslatedNC("h", 2, "c")) }, func(l *gotext.Locale, d string) Res { return boolean(l.IsTranslatedNDC(d, "h", 2, "c")) })
	look("GetD(d1,a)", "d1", func(l *gotext.Locale, d string) Res { return str(l.GetD(d, "a")) })
	look("GetND(d1,p,2)", "d1", func(l *gotext.Locale, d string) Res { return str(l.GetND(d, "p", "ps", 2)) })
	look("GetDC(d3,a,c)", "d3", func(l *gotext.Locale, d string) Res { return str(l.GetDC(d, "a", "c")) })
	look("GetNDC(tr,p,2,c)", "tr", func(l *gotext.Locale, d string) Res { return str(l.GetNDC(d, "p", "ps", 2, "c")) })
	op("IsTranslatedD(d3,a)", false, func(x *Locs, l *gotext.Locale) Res { return boolean(l.IsTranslatedD("d3", "a")) })
	op("IsTranslatedND(d1,h,2)", false, func(x *Locs, l *gotext.Locale) Res { return boolean(l.IsTranslatedND("d1", "h", 2)) })
	op("IsTranslatedDC(tr,a,c)", false, func(x *Locs, l *gotext.Locale) Res { return boolean(l.IsTranslatedDC("tr", "a", "c")) })
	op("IsTranslatedNDC(d1,h,2,c)", false, func(x *Locs, l *gotext.Locale) Res { return boolean(l.IsTranslatedNDC("d1", "h", 2, "c")) })
	op("GetDomain", false, func(x *Locs, l *gotext.Locale) Res { return str(l.GetDomain()) })
	op("GetLanguage", false, func(x *Locs, l *gotext.Locale) Res { return str(l.GetLanguage()) })
	op("GetActualLanguage(d1)", false, func(x *Locs, l *gotext.Locale) Res { return str(l.GetActualLanguage("d1")) })
	op("GetTranslations", false, func(x *Locs, l *gotext.Locale) Res { m := l.GetTranslations(); return str(snapLocale(m)) })
	op("MarshalBinary", false, func(x *Locs, l *gotext.Locale) Res { return decodedLocale(l.MarshalBinary()) })
	op("AddDomain(d1)", true, func(x *Locs, l *gotext.Locale) Res { l.AddDomain("d1"); return str("") })
	op("AddDomain(d3)", true, func(x *Locs, l *gotext.Locale) Res { l.AddDomain("d3"); return str("") })
	op("AddDomain(none)", true, func(x *Locs, l *gotext.Locale) Res { l.AddDomain("none"); return str("") })
	op("AddTranslator(d1)", true, func(x *Locs, l *gotext.Locale) Res {
		m := gotext.NewMo()
		m.Parse(trMo)
		l.AddTranslator("d1", m)
		return str("")
	})
	op("AddTranslator(d4)", true, func(x *Locs, l *gotext.Locale) Res {
		p := gotext.NewPo()
		p.Parse(tr4Text)
		l.AddTranslator("d4", p)
		return str("")
	})
	op("AddTranslator(tr)", true, func(x *Locs, l *gotext.Locale) Res { l.AddTranslator("tr", x.Tr); return str("") })
	op("SetDomain(d2)", true, func(x *Locs, l *gotext.Locale) Res { l.SetDomain("d2"); return str("") })
	op("SetDomain(tr)", true, func(x *Locs, l *gotext.Locale) Res { l.SetDomain("tr"); return str("") })
	op("UnmarshalBinary", true, func(x *Locs, l *gotext.Locale) Res {
		if err := l.UnmarshalBinary(localeBlob); err != nil {
			return str(err.Error())
		}
		return str("")
	})
	op("Parse into tr", true, func(x *Locs, l *gotext.Locale) Res { x.Tr.Parse(tr2Text); return str("") })
	op("Set in tr", true, func(x *Locs, l *gotext.Locale) Res { x.Tr.GetDomain().Set("own-tr", "SET"); return str("") })
	op("Drop in tr", true, func(x *Locs, l *gotext.Locale) Res { x.Tr.DropStaleTranslations(); return str("") })
	return out
}

var localeBlob = locBlob()

func first(x *Locs) *gotext.Locale  { return x.L }
func second(x *Locs) *gotext.Locale { return x.L2 }

func locPairs(name string, inits int) eng.Suite {
	ops := locOps(first, "")
	ps := pairsOf(len(ops))
	r := []int{inits, len(ps)}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("all schedules of all pairs of %d operations on one Locale in %d initial states", len(ops), inits),
		Run: func(t *eng.T, i int64) {
			d := eng.Digits(i, r...)
			pr := ps[d[1]]
			p := &Prog[*Locs]{Name: locInits[d[0]].name, New: locInits[d[0]].new, Final: locFinal, Threads: [][]*lop{{ops[pr[0]]}, {ops[pr[1]]}}}
			sampleProg(t, p, i)
			Explore(t, p, maxExecs, Atomic(p))
		}}
}

func locShared(name string) eng.Suite {
	o0, o1 := locOps(first, ""), locOps(second, " of the other locale")
	r := []int{len(o0), len(o1)}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("all schedules of all pairs of %d operations, each on one of two Locales which share a translator", len(o0)),
		Run: func(t *eng.T, i int64) {
			d := eng.Digits(i, r...)
			if d[0] > d[1] {
				return
			}
			p := &Prog[*Locs]{Name: "two locales", New: newShared, Final: locFinal, Threads: [][]*lop{{o0[d[0]]}, {o1[d[1]]}}}
			sampleProg(t, p, i)
			Explore(t, p, maxExecs, Atomic(p))
		}}
}

func locTwoOne(name string, inits int, a, b, c []string) eng.Suite {
	ops := locOps(first, "")
	x, y, z := pick(ops, a...), pick(ops, b...), pick(ops, c...)
	r := []int{inits, len(x), len(y), len(z)}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("all schedules of one goroutine doing one of %d then one of %d operations while another does one of %d, in %d initial states", len(x), len(y), len(z), inits),
		Run: func(t *eng.T, i int64) {
			d := eng.Digits(i, r...)
			p := &Prog[*Locs]{Name: locInits[d[0]].name, New: locInits[d[0]].new, Final: locFinal, Threads: [][]*lop{{x[d[1]], y[d[2]]}, {z[d[3]]}}}
			sampleProg(t, p, i)
			Explore(t, p, maxExecs, Atomic(p))
		}}
}

func locTriples(name string, inits int, names []string) eng.Suite {
	ops := pick(locOps(first, ""), names...)
	ts := triplesOf(len(ops))
	r := []int{inits, len(ts)}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("all schedules of all triples of %d operations in %d initial states", len(ops), inits),
		Run: func(t *eng.T, i int64) {
			d := eng.Digits(i, r...)
			tr := ts[d[1]]
			p := &Prog[*Locs]{Name: locInits[d[0]].name, New: locInits[d[0]].new, Final: locFinal, Threads: [][]*lop{{ops[tr[0]]}, {ops[tr[1]]}, {ops[tr[2]]}}}
			sampleProg(t, p, i)
			Explore(t, p, maxExecs, Atomic(p))
		}}
}

func triplesOf(n int) (ts [][3]int) {
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			for k := j; k < n; k++ {
				ts = append(ts, [3]int{i, j, k})
			}
		}
	}
	return
}

var locMain = []string{"Get(a)", "GetN(p,2)", "GetDC(d3,a,c)", "IsTranslatedND(d1,h,2)", "AddDomain(d1)", "AddDomain(d3)", "AddTranslator(d1)", "SetDomain(d2)", "GetTranslations", "UnmarshalBinary", "Parse into tr"}
var locFew = []string{"Get(a)", "GetDC(d3,a,c)", "AddDomain(d1)", "AddDomain(d3)", "AddTranslator(d1)", "SetDomain(d2)", "UnmarshalBinary", "Parse into tr"}
var locWrites = []string{"AddDomain(d1)", "AddDomain(d3)", "AddTranslator(d1)", "AddTranslator(d4)", "SetDomain(d2)", "SetDomain(tr)", "UnmarshalBinary", "Parse into tr", "Set in tr"}
var locReads = []string{"Get(a)", "GetNC(p,21,c)", "IsTranslatedN(h,2)", "GetD(d1,a)", "GetND(d1,p,2)", "GetDC(d3,a,c)", "GetNDC(tr,p,2,c)", "IsTranslatedD(d3,a)", "GetDomain", "GetTranslations", "MarshalBinary"}

func locNames() (o []string) {
	for _, x := range locOps(first, "") {
		o = append(o, x.Name)
	}
	return
}

func init() {
	eng.Register(&eng.Prop{ID: "C21", Level: "model_checking", HangSec: 60,
		Rule:   "every schedule of concurrent programs on real Locale objects, built with the race detector; no race, panic or deadlock, and the results of all operations and the final state must be those of a sequential order which respects which ended before which began (lookups in the default domain may ask for it and look there at two moments)",
		Assume: []string{"goroutines switch at lock, atomic and once operations only, which suffices for programs the race detector finds free of races", "the exported Domains field is not part of the concurrent interface"},
		Suites: func(tier string) []eng.Suite {
			if tier == "thorough" {
				n := locNames()
				return []eng.Suite{locPairs("pairs", 3), locArgs("arguments", 2), locShared("shared"), locTwoOne("write-read", 3, locWrites, n, n), locTwoOne("read-read", 2, locReads, locReads, locWrites), locTriples("triples", 1, n), locReentrant()}
			}
			return []eng.Suite{locPairs("pairs", 3), locArgs("arguments", 2), locShared("shared"), locTwoOne("write-read", 1, locWrites, locMain, locWrites), locTwoOne("read-read", 1, locReads, locReads, locWrites), locTriples("triples", 1, locFew), locReentrant()}
		}})
}
