package seq

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"testing/fstest"
	"time"

	"github.com/leonelquinteros/gotext"

	"verif/eng"
	"verif/ref"
)

// Lib is a library of catalog files: relative path -> document (written as PO or MO by its extension).
type Lib map[string]*ref.Doc

func fileBytes(name string, d *ref.Doc) []byte {
	if strings.HasSuffix(name, ".mo") {
		return ref.WriteMO(d, ref.MOLayout{Sorted: true}).Data
	}
	return ref.WritePO(d, ref.Layout{})
}

// candidates are the documented places of a domain's file, first wins.
func candidates(lang, dom string) []string {
	var out []string
	for _, ext := range []string{"po", "mo"} {
		out = append(out, path.Join(lang, "LC_MESSAGES", dom+"."+ext))
		if len(lang) > 2 {
			out = append(out, path.Join(lang[:2], "LC_MESSAGES", dom+"."+ext))
		}
		out = append(out, path.Join(lang, dom+"."+ext))
		if len(lang) > 2 {
			out = append(out, path.Join(lang[:2], dom+"."+ext))
		}
	}
	return out
}

// find gives the catalog a domain loads from the library, nil when there is no file.
func (l Lib) find(lang, dom string) (*ref.Cat, string) {
	for _, f := range candidates(lang, dom) {
		if d, ok := l[f]; ok {
			c := ref.NewCat()
			if strings.HasSuffix(f, ".mo") {
				d = stripRefs(d)
			}
			c.Load(d)
			return c, f
		}
	}
	return nil, ""
}

// onDisk writes the library below root (removing what was there) and mapFS makes the in-memory twin.
func (l Lib) onDisk(root string) {
	for f, d := range l {
		WriteFile(root, f, fileBytes(f, d))
	}
}
func (l Lib) mapFS(root string) fstest.MapFS {
	m := fstest.MapFS{}
	for f, d := range l {
		m[path.Join(root, f)] = &fstest.MapFile{Data: fileBytes(f, d)}
	}
	return m
}

// mark makes a document whose texts tell where they come from.
func mark(lang, pf, tag string) *ref.Doc {
	forms := 2
	if pf == pfRu {
		forms = 3
	}
	if pf == pfJa {
		forms = 1
	}
	fs := func(s string) []string {
		var o []string
		for i := 0; i < forms; i++ {
			o = append(o, fmt.Sprintf("%s %s form %d", tag, s, i))
		}
		return o
	}
	return &ref.Doc{Header: hdr(lang, pf, "X-Tag: "+tag), Ents: []ref.Ent{
		ref.Sing("", "a", tag+" a %v"), ref.Sing("c", "a", tag+" a in c"), ref.Plur("", "p", "ps", fs("p")...), ref.Plur("c", "p", "ps", fs("p in c")...),
		ref.Sing("", "only "+tag, tag+" only"), ref.Sing("", "empty", ""),
	}}
}

// without drops an entry, so that languages differ in what they translate.
func without(d *ref.Doc, ctx, id string) *ref.Doc {
	e := *d
	e.Ents = nil
	for _, x := range d.Ents {
		if x.Ctx != ctx || x.ID != id {
			e.Ents = append(e.Ents, x)
		}
	}
	return &e
}

// partial keeps only some plural forms.
func partial(d *ref.Doc, ctx, id string, keep ...int) *ref.Doc {
	e := *d
	e.Ents = nil
	for _, x := range d.Ents {
		if x.Ctx == ctx && x.ID == id {
			var fs []ref.Form
			for _, f := range x.Forms {
				for _, k := range keep {
					if f.I == k {
						fs = append(fs, f)
					}
				}
			}
			x.Forms = fs
		}
		e.Ents = append(e.Ents, x)
	}
	return &e
}

var libA = Lib{
	"en_US/LC_MESSAGES/d1.po":   without(mark("en_US", pfEn, "A-en_US-d1"), "c", "a"),
	"de/LC_MESSAGES/d1.po":      mark("de", pfEn, "A-de-d1"),
	"de/LC_MESSAGES/d2.mo":      without(mark("de", pfEn, "A-de-d2"), "", "a"),
	"de_AT/d2.po":               mark("de_AT", pfEn, "A-de_AT-d2"),
	"fr/LC_MESSAGES/d1.mo":      partial(mark("fr", pfFr, "A-fr-d1"), "", "p", 1),
	"fr/d2.po":                  mark("fr", pfFr, "A-fr-d2"),
	"ru/LC_MESSAGES/d1.po":      without(partial(mark("ru", pfRu, "A-ru-d1"), "", "p", 0, 2), "", "a"),
	"ru/LC_MESSAGES/d2.po":      mark("ru", pfRu, "A-ru-d2"),
	"ja/LC_MESSAGES/d1.po":      mark("ja", pfJa, "A-ja-d1"),
	"de/LC_MESSAGES/default.po": mark("de", pfEn, "A-de-default"),
}
var libB = Lib{
	"de/LC_MESSAGES/d1.po":         without(mark("de", pfEn, "B-de-d1"), "", "p"),
	"en_US/d3.po":                  mark("en_US", pfEn, "B-en_US-d3"),
	"en_US/LC_MESSAGES/default.mo": mark("en_US", pfEn, "B-en_US-default"),
	"ru/d1.mo":                     mark("ru", pfRu, "B-ru-d1"),
}

var locKeys = []Key{{"", "a", "as"}, {"c", "a", "as"}, {"", "p", "ps"}, {"c", "p", "ps"}, {"", "nope %d", "nopes %d"}, {"x", "p", "ps %v"}, {"", "empty", "empties"}, {"", "only A-de-d1", "onlys"}}
var locNs = []int{0, 1, 2, 5, 21}

// oddNs are counts no plural rule is made for
var oddNs = []int{-1, -2, -21, 3, 101, 1<<32 + 1, -1 << 32, 1<<63 - 1, -1 << 63}

// LocM is the model of a Locale.
type LocM struct {
	lib  Lib
	lang string
	def  string
	doms map[string]*ref.Cat
}

func newLocM(lib Lib, lang string) *LocM {
	return &LocM{lib: lib, lang: lang, doms: map[string]*ref.Cat{}}
}
func (m *LocM) clone() *LocM {
	n := *m
	n.doms = map[string]*ref.Cat{}
	for k, c := range m.doms {
		n.doms[k] = c.Clone()
	}
	return &n
}
func (m *LocM) add(dom string) {
	c, _ := m.lib.find(m.lang, dom)
	if c == nil {
		return
	}
	m.put(dom, c)
}
func (m *LocM) put(dom string, c *ref.Cat) {
	if m.def == "" {
		m.def = dom
	}
	m.doms[dom] = c
}
func (m *LocM) get(dom, ctx, id string) (string, bool) {
	if c := m.doms[dom]; c != nil {
		return c.Get(ctx, id)
	}
	return id, false
}
func (m *LocM) getN(dom, ctx, id, pl string, n int) (string, string, bool) {
	if c := m.doms[dom]; c != nil {
		return c.GetN(ctx, id, pl, n)
	}
	if n == 1 {
		return id, id, false
	}
	return pl, pl, false
}
func (m *LocM) String() string {
	var ks []string
	for k := range m.doms {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := fmt.Sprintf("lang=%s def=%s", m.lang, m.def)
	for _, k := range ks {
		s += "\n[" + k + "] " + m.doms[k].Canon(false, false)
	}
	return s
}

// locAPI is what Locale and the package functions have in common, made from either.
type locAPI struct {
	name   string
	Get    func(string, ...interface{}) string
	GetN   func(string, string, int, ...interface{}) string
	GetD   func(string, string, ...interface{}) string
	GetND  func(string, string, string, int, ...interface{}) string
	GetC   func(string, string, ...interface{}) string
	GetNC  func(string, string, int, string, ...interface{}) string
	GetDC  func(string, string, string, ...interface{}) string
	GetNDC func(string, string, string, int, string, ...interface{}) string
	Is     func(string) bool
	IsN    func(string, int) bool
	IsD    func(string, string) bool
	IsND   func(string, string, int) bool
	IsC    func(string, string) bool
	IsNC   func(string, int, string) bool
	IsDC   func(string, string, string) bool
	IsNDC  func(string, string, int, string) bool
	Domain func() string
}

func apiOf(l *gotext.Locale) *locAPI {
	return &locAPI{"locale", l.Get, l.GetN, l.GetD, l.GetND, l.GetC, l.GetNC, l.GetDC, l.GetNDC,
		l.IsTranslated, l.IsTranslatedN, l.IsTranslatedD, l.IsTranslatedND, l.IsTranslatedC, l.IsTranslatedNC, l.IsTranslatedDC, l.IsTranslatedNDC, l.GetDomain}
}

// pkgAPI is the package level; the translated-queries name the given languages.
func pkgAPI(langs ...string) *locAPI {
	return &locAPI{"package", gotext.Get, gotext.GetN, gotext.GetD, gotext.GetND, gotext.GetC, gotext.GetNC, gotext.GetDC, gotext.GetNDC,
		func(s string) bool { return gotext.IsTranslated(s, langs...) }, func(s string, n int) bool { return gotext.IsTranslatedN(s, n, langs...) },
		func(d, s string) bool { return gotext.IsTranslatedD(d, s, langs...) }, func(d, s string, n int) bool { return gotext.IsTranslatedND(d, s, n, langs...) },
		func(s, c string) bool { return gotext.IsTranslatedC(s, c, langs...) }, func(s string, n int, c string) bool { return gotext.IsTranslatedNC(s, n, c, langs...) },
		func(d, s, c string) bool { return gotext.IsTranslatedDC(d, s, c, langs...) }, func(d, s string, n int, c string) bool { return gotext.IsTranslatedNDC(d, s, n, c, langs...) },
		gotext.GetDomain}
}

// model of a lookup surface
type locModel interface {
	get(dom, ctx, id string) (string, bool)
	getN(dom, ctx, id, pl string, n int) (string, string, bool)
	def0() string
}

func (m *LocM) def0() string { return m.def }

// ObserveLoc compares all lookups of a surface with its model.
func ObserveLoc(t *eng.T, when string, a *locAPI, m locModel, doms []string, keys []Key, ns []int, get, is, args bool) {
	al := argLists[:1]
	if args {
		al = argLists[:3]
	}
	// an index into doms of -1 is the surface's own default domain
	for di := -1; di < len(doms); di++ {
		d := m.def0()
		if di >= 0 {
			d = doms[di]
		}
		where := fmt.Sprintf("domain %q", d)
		if di < 0 {
			where = fmt.Sprintf("default domain (%q)", d)
		}
		for _, k := range keys {
			want, tr := m.get(d, k.Ctx, k.ID)
			for _, ar := range al {
				w := sprint(want, ar)
				if get {
					var got string
					switch {
					case di < 0 && k.Ctx == "":
						got = a.Get(k.ID, ar...)
					case di < 0:
						got = a.GetC(k.ID, k.Ctx, ar...)
					case k.Ctx == "":
						got = a.GetD(d, k.ID, ar...)
					default:
						got = a.GetDC(d, k.ID, k.Ctx, ar...)
					}
					t.Step(1)
					if got != w {
						t.Failf(a.name+"-lookup", "%s: %s %s: %s serves %s, want %s", when, a.name, where, call("GetC", k, 0, ar), q(got), q(w))
					}
				}
			}
			if is {
				var got bool
				switch {
				case di < 0 && k.Ctx == "":
					got = a.Is(k.ID)
				case di < 0:
					got = a.IsC(k.ID, k.Ctx)
				case k.Ctx == "":
					got = a.IsD(d, k.ID)
				default:
					got = a.IsDC(d, k.ID, k.Ctx)
				}
				t.Step(1)
				if got != tr {
					t.Failf(a.name+"-istranslated", "%s: %s %s: IsTranslated of %q in context %q is %v, want %v", when, a.name, where, k.ID, k.Ctx, got, tr)
				}
			}
			for _, n := range ns {
				want, alt, tr := m.getN(d, k.Ctx, k.ID, k.Plural, n)
				for _, ar := range al {
					w, w2 := sprint(want, ar), sprint(alt, ar)
					if get {
						var got string
						switch {
						case di < 0 && k.Ctx == "":
							got = a.GetN(k.ID, k.Plural, n, ar...)
						case di < 0:
							got = a.GetNC(k.ID, k.Plural, n, k.Ctx, ar...)
						case k.Ctx == "":
							got = a.GetND(d, k.ID, k.Plural, n, ar...)
						default:
							got = a.GetNDC(d, k.ID, k.Plural, n, k.Ctx, ar...)
						}
						t.Step(1)
						if got != w && got != w2 {
							t.Failf(a.name+"-lookup", "%s: %s %s: %s serves %s, want %s", when, a.name, where, call("GetNC", k, n, ar), q(got), q(w))
						}
					}
				}
				if is {
					var got bool
					switch {
					case di < 0 && k.Ctx == "":
						got = a.IsN(k.ID, n)
					case di < 0:
						got = a.IsNC(k.ID, n, k.Ctx)
					case k.Ctx == "":
						got = a.IsND(d, k.ID, n)
					default:
						got = a.IsNDC(d, k.ID, n, k.Ctx)
					}
					t.Step(1)
					if got != tr {
						t.Failf(a.name+"-istranslated", "%s: %s %s: IsTranslatedN of %q, %d in context %q is %v, want %v", when, a.name, where, k.ID, n, k.Ctx, got, tr)
					}
				}
			}
		}
	}
}

// LocOp is a step on a Locale and its model.
type LocOp struct {
	Name string
	Do   func(s *LocSys)
}

// LocSys is a Locale under test with its model, and the files behind it.
type LocSys struct {
	L  *gotext.Locale
	M  *LocM
	FS fstest.MapFS // nil: on disk
	// Root is where the files are on disk
	Root string
	// Tr are translators added by the history, by domain
	Tr map[string]*H
}

func newLocSys(lib Lib, lang string) *LocSys {
	fs := lib.mapFS("")
	l := Lib{}
	for k, v := range lib {
		l[k] = v
	}
	return &LocSys{L: gotext.NewLocaleFS(lang, fs), M: newLocM(l, lang), FS: fs, Tr: map[string]*H{}}
}

// sameTime is the time of every file, so that a replaced one differs in its content only
var sameTime = time.Unix(1700000000, 0)

func diskPut(root, f string, data []byte) {
	WriteFile(root, f, data)
	if err := os.Chtimes(filepath.Join(root, f), sameTime, sameTime); err != nil {
		panic(err)
	}
}

func (s *LocSys) setFile(f string, d *ref.Doc) {
	if s.FS == nil {
		if d == nil {
			os.Remove(filepath.Join(s.Root, f))
			delete(s.M.lib, f)
			return
		}
		diskPut(s.Root, f, fileBytes(f, d))
		s.M.lib[f] = d
		return
	}
	if d == nil {
		delete(s.FS, f)
		delete(s.M.lib, f)
		return
	}
	s.FS[f] = &fstest.MapFile{Data: fileBytes(f, d)}
	s.M.lib[f] = d
}

func lopAdd(dom string) LocOp {
	return LocOp{"AddDomain(" + dom + ")", func(s *LocSys) { s.L.AddDomain(dom); s.M.add(dom); delete2(s.Tr, dom, s.M) }}
}

// delete2 forgets the handle when the domain now is one from a file.
func delete2(tr map[string]*H, dom string, m *LocM) {
	if c, _ := m.lib.find(m.lang, dom); c != nil {
		delete(tr, dom)
	}
}

func lopTr(dom, kind string, d *ref.Doc) LocOp {
	return LocOp{fmt.Sprintf("AddTranslator(%s, %s %s)", dom, kind, d.Header[len(d.Header)-1]), func(s *LocSys) {
		kind, own := kind, kind == "own"
		if own {
			kind = "po"
		}
		h := New(kind)
		h.Load(d)
		c := ref.NewCat()
		c.Load(d)
		if own {
			s.L.AddTranslator(dom, &ownTr{h.P})
		} else if h.P != nil {
			s.L.AddTranslator(dom, h.P)
		} else {
			s.L.AddTranslator(dom, h.M)
		}
		s.M.put(dom, c)
		s.Tr[dom] = h
	}}
}

// ownTr is a Translator of the user's own with no more than the interface asks for.
type ownTr struct{ in *gotext.Po }

func (o *ownTr) ParseFile(f string)                       { o.in.ParseFile(f) }
func (o *ownTr) Parse(b []byte)                           { o.in.Parse(b) }
func (o *ownTr) Get(s string, v ...any) string            { return o.in.Get(s, v...) }
func (o *ownTr) GetC(s, c string, v ...any) string        { return o.in.GetC(s, c, v...) }
func (o *ownTr) GetN(s, p string, n int, v ...any) string { return o.in.GetN(s, p, n, v...) }
func (o *ownTr) GetNC(s, p string, n int, c string, v ...any) string {
	return o.in.GetNC(s, p, n, c, v...)
}
func (o *ownTr) MarshalBinary() ([]byte, error) { return o.in.MarshalBinary() }
func (o *ownTr) UnmarshalBinary(b []byte) error { return o.in.UnmarshalBinary(b) }
func (o *ownTr) GetDomain() *gotext.Domain      { return o.in.GetDomain() }

func lopDef(dom string) LocOp {
	return LocOp{"SetDomain(" + dom + ")", func(s *LocSys) { s.L.SetDomain(dom); s.M.def = dom }}
}
func lopFile(f string, d *ref.Doc) LocOp {
	n := "delete file " + f
	if d != nil {
		n = "write file " + f
	}
	return LocOp{n, func(s *LocSys) { s.setFile(f, d) }}
}
func lopEdit(dom, ctx, id, text string) LocOp {
	return LocOp{fmt.Sprintf("edit domain %s: %s/%s", dom, ctx, id), func(s *LocSys) {
		tr := s.L.Domains[dom]
		c := s.M.doms[dom]
		if tr == nil || c == nil {
			return
		}
		d := tr.GetDomain()
		if ctx == "" {
			d.Set(id, text)
			d.SetN("p", "ps", 2, text+" few")
			c.Set("", id, text)
			c.SetN("", "p", "ps", 2, text+" few")
		} else {
			d.SetC(id, ctx, text)
			d.SetNC("p", "ps", ctx, 2, text+" few")
			c.Set(ctx, id, text)
			c.SetN(ctx, "p", "ps", 2, text+" few")
		}
	}}
}

var lopRead = LocOp{"lookups in all domains", func(s *LocSys) {
	a := apiOf(s.L)
	for _, d := range []string{"d1", "d2", "mem", "nope"} {
		a.GetD(d, "a")
		a.GetND(d, "p", "ps", 2)
		a.GetDC(d, "a", "c")
		a.GetNDC(d, "p", "ps", 2, "c")
		a.IsNDC(d, "p", 2, "c")
	}
	a.Get("a")
	a.GetNC("p", "ps", 1, "c")
	s.L.GetActualLanguage("d1")
	s.L.GetTranslations()
}}

var locDoms = []string{"d1", "d2", "mem", "nope", ""}

func locOps() []LocOp {
	return []LocOp{
		lopAdd("d1"), lopAdd("d2"), lopAdd("nope"),
		lopTr("d1", "po", mark("ru", pfRu, "T-d1")), lopTr("mem", "mo", mark("fr", pfFr, "T-mem")), lopTr("mem", "own", without(mark("ja", pfJa, "T-mem2"), "", "a")),
		lopDef("d2"), lopDef("nope"), lopDef(""), lopDef("mem"),
		lopEdit("d1", "", "a", "edited a"), lopEdit("mem", "c", "a", "edited a in c"),
		lopFile("de/LC_MESSAGES/d1.po", mark("de", pfFr, "new-de-d1")), lopFile("de_AT/LC_MESSAGES/d1.po", mark("de_AT", pfEn, "new-de_AT-d1")), lopFile("de/LC_MESSAGES/d1.po", nil), lopFile("de/LC_MESSAGES/d1.po", mark("de", pfEn, "C-de-d1")), lopRead,
	}
}

func locHist(t *eng.T, s *LocSys, ops []LocOp, seq []int) string {
	var n []string
	for _, o := range seq {
		t.Tracef("%s", ops[o].Name)
		ops[o].Do(s)
		t.Step(1)
		n = append(n, ops[o].Name)
	}
	return strings.Join(n, ".")
}

func locSuite(name string, depth int, f func(t *eng.T, s *LocSys, when string)) eng.Suite {
	ops := locOps()
	langs := []string{"de_AT", "de"}
	return eng.Suite{Name: name, N: eng.SeqCount(len(ops), depth) * int64(len(langs)), Bound: fmt.Sprintf("all histories of 1..%d operations over an alphabet of %d on a Locale of languages %v", depth, len(ops), langs),
		Run: func(t *eng.T, i int64) {
			s := newLocSys(libA, langs[i%int64(len(langs))])
			when := "after " + locHist(t, s, ops, eng.SeqAt(i/int64(len(langs)), len(ops)))
			t.State(s.M.String())
			if len(s.M.doms) > 0 {
				t.Nontriv()
			}
			if t.WantSample() && i > 3000 {
				t.Sample("%s", when)
			}
			f(t, s, when)
		}}
}

// checkLoc compares a Locale with its model in every way but serialisation.
func checkLoc(t *eng.T, when string, s *LocSys, args bool) {
	ObserveLoc(t, when, apiOf(s.L), s.M, locDoms, locKeys, locNs, true, true, args)
	if s.L.GetDomain() != s.M.def {
		t.Failf("locale-default", "%s: GetDomain() = %q, want %q", when, s.L.GetDomain(), s.M.def)
	}
	if s.L.GetLanguage() != s.M.lang {
		t.Failf("locale-language", "%s: GetLanguage() = %q, want %q", when, s.L.GetLanguage(), s.M.lang)
	}
	if len(s.L.Domains) != len(s.M.doms) {
		t.Failf("locale-domains", "%s: %d domains, want %d", when, len(s.L.Domains), len(s.M.doms))
	}
	for k, c := range s.M.doms {
		tr := s.L.Domains[k]
		if tr == nil {
			t.Failf("locale-domains", "%s: domain %q is gone", when, k)
		}
		Same(t, "locale-entries", when+": domain "+k, Canon(tr.GetDomain(), false, false), c.Canon(false, false))
	}
}

func init() {
	eng.Register(&eng.Prop{ID: "C17", Level: "model_checking",
		Rule:   "histories of domain operations run on a real Locale (catalog files in an in-memory fs.FS) and on a model; after each history every lookup kind is compared in every domain",
		Assume: []string{"SetDomain(\"\") makes the next added domain the default one, like on a new Locale"},
		Suites: func(tier string) []eng.Suite {
			return []eng.Suite{
				locSuite("histories", tierInt(tier, 4, 5), func(t *eng.T, s *LocSys, when string) { checkLoc(t, when, s, true) }),
				watchedLoc("watched", tierInt(tier, 2, 3), func(t *eng.T, s *LocSys, when string) { checkLoc(t, when, s, true) }),
				diskHistSuite("disk-histories", 3),
				domainCountSuite("many-domains"),
				sharedTrSuite("shared-translators", tierInt(tier, 4, 5)),
				locSuite("odd-numbers", tierInt(tier, 2, 3), func(t *eng.T, s *LocSys, when string) {
					ObserveLoc(t, when, apiOf(s.L), s.M, locDoms, locKeys, oddNs, true, true, true)
				}),
				levelSuite("levels", true, false),
				locShapes("shapes", func(t *eng.T, s *LocSys, when string, d []int) {
					ObserveLoc(t, when, apiOf(s.L), s.M, []string{"d1", "mem", "none"}, shapeKeys, []int{0, 1, 2, 5}, true, true, false)
				}),
			}
		}})
}

// diskHistSuite: domains reloaded from files on disk that appear, change (with the same length and time) and vanish.
func diskHistSuite(name string, depth int) eng.Suite {
	// versions of one length
	ver := func(lang string, v int) *ref.Doc { return mark(lang, pfEn, fmt.Sprintf("V%d-%s", v, lang)) }
	ops := []LocOp{lopAdd("d1"), lopAdd("d2"), lopDef("d2"), lopTr("d1", "po", mark("ru", pfRu, "T-d1")), lopEdit("d1", "", "a", "edited a"), lopRead}
	for _, f := range []string{"de/LC_MESSAGES/d1.po", "de_AT/d1.mo", "de_AT/LC_MESSAGES/d2.po"} {
		lang, _, _ := strings.Cut(f, "/")
		for v := 1; v <= 2; v++ {
			o := lopFile(f, ver(lang, v))
			o.Name += fmt.Sprintf(" version %d", v)
			ops = append(ops, o)
		}
		ops = append(ops, lopFile(f, nil))
	}
	return eng.Suite{Name: name, N: eng.SeqCount(len(ops), depth) * 4, Bound: fmt.Sprintf("all histories of 1..%d operations over an alphabet of %d (three files on disk written in two versions of equal length and time, and removed), then each of 2 domains added again", depth, len(ops)), Run: func(t *eng.T, i int64) {
		root, err := os.MkdirTemp(Scratch(), "c17")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(root)
		s := &LocSys{L: gotext.NewLocale(root, "de_AT"), M: newLocM(Lib{}, "de_AT"), Root: root, Tr: map[string]*H{}}
		if i%4 >= 2 {
			// files and domains are there from the start
			for _, f := range []string{"de/LC_MESSAGES/d1.po", "de_AT/LC_MESSAGES/d2.po"} {
				lang, _, _ := strings.Cut(f, "/")
				s.setFile(f, ver(lang, 1))
			}
			lopAdd("d1").Do(s)
			lopAdd("d2").Do(s)
		}
		when := "after " + locHist(t, s, ops, eng.SeqAt(i/4, len(ops)))
		last := lopAdd([]string{"d1", "d2"}[i%2])
		last.Do(s)
		t.State(s.M.String())
		if len(s.M.doms) > 0 {
			t.Nontriv()
		}
		checkLoc(t, when+"."+last.Name, s, false)
	}}
}

// domainCountSuite: many domains in every (rotated) order, each routed to its own catalog.
func domainCountSuite(name string) eng.Suite {
	counts := []int{1, 2, 3, 7, 8, 9, 16, 17, 33, 64, 100}
	r := []int{len(counts), 4, 2}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("%v domains, added from files or as translators in 4 orders", counts), Run: func(t *eng.T, i int64) {
		d := eng.Digits(i, r...)
		n := counts[d[0]]
		lib := Lib{}
		for k := 0; k < n; k++ {
			ext := "po"
			if k%3 == 1 {
				ext = "mo"
			}
			lib[fmt.Sprintf("xx/LC_MESSAGES/dom%d.%s", k, ext)] = mark("xx", pfEn, fmt.Sprintf("D%d", k))
		}
		s := newLocSys(lib, "xx")
		var doms []string
		for j := 0; j < n; j++ {
			k := j
			switch d[1] {
			case 1:
				k = n - 1 - j
			case 2:
				k = (j + n/2) % n
			case 3:
				k = (j * 7) % n
			}
			dom := fmt.Sprintf("dom%d", k)
			if d[2] == 1 && j%2 == 0 {
				lopTr(dom, "po", mark("xx", pfRu, "T"+dom)).Do(s)
			} else {
				lopAdd(dom).Do(s)
			}
			doms = append(doms, dom)
		}
		t.Nontriv()
		t.State(fmt.Sprint(d))
		ObserveLoc(t, fmt.Sprintf("%d domains", n), apiOf(s.L), s.M, append(doms, "dom", "dom"+itoa(n)), locKeys[:5], []int{1, 2}, true, true, false)
	}}
}
