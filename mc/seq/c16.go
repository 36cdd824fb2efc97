package seq

import (
	"fmt"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"strings"
	"testing/fstest"

	"github.com/leonelquinteros/gotext"

	"verif/eng"
	"verif/ref"
)

// The spellings of a locale name and what they simplify to.
var spellings = []struct{ given, lang string }{
	{"de_AT", "de_AT"}, {"de", "de"}, {"de_AT.UTF-8", "de_AT"}, {"de_AT@euro", "de_AT"}, {"de_AT:fr:en", "de_AT"}, {"de_AT.UTF-8@euro", "de_AT"},
	{" de_AT ", "de_AT"}, {"de.ISO-8859-1", "de"}, {"de@latin", "de"}, {"de:en_US.UTF-8", "de"}, {"de_AT@x.y:z", "de_AT"},
}

// candDoc is the content of candidate k.
func candDoc(f string) *ref.Doc { return mark("de", []string{pfEn, pfRu, pfFr}[len(f)%3], "from "+f) }

// fileSet makes the library of one combination: digit 0 absent, 1 valid, 2 empty file.
func fileSet(dom string, digits []int) (Lib, map[string][]byte) {
	lib, raw := Lib{}, map[string][]byte{}
	for k, f := range candidates("de_AT", dom) {
		switch digits[k] {
		case 1:
			lib[f] = candDoc(f)
			raw[f] = fileBytes(f, lib[f])
		case 2:
			lib[f] = &ref.Doc{}
			raw[f] = []byte{}
		}
	}
	return lib, raw
}

// places where the files are
var places = []string{"MapFS", "MapFS below a path", "DirFS", "disk", "DirFS below a path", "MapFS sub-tree"}

// placeFiles puts the files and gives a constructor of Locales reading them, and a clean-up.
func placeFiles(place string, raw map[string][]byte) (func(lang string) *gotext.Locale, func()) {
	inFS := func(root string) fstest.MapFS {
		m := fstest.MapFS{}
		for f, b := range raw {
			m[path.Join(root, f)] = &fstest.MapFile{Data: b}
		}
		return m
	}
	onDisk := func(sub string) (string, func()) {
		r, err := os.MkdirTemp(Scratch(), "c16")
		if err != nil {
			panic(err)
		}
		for f, b := range raw {
			WriteFile(filepath.Join(r, sub), f, b)
		}
		return r, func() { os.RemoveAll(r) }
	}
	none := func() {}
	switch place {
	case "MapFS":
		m := inFS("")
		return func(l string) *gotext.Locale { return gotext.NewLocaleFS(l, m) }, none
	case "MapFS below a path":
		m := inFS("res/i18n")
		return func(l string) *gotext.Locale { return gotext.NewLocaleFSWithPath(l, m, "res/i18n") }, none
	case "MapFS sub-tree":
		m := inFS("res")
		s, err := fs.Sub(m, "res")
		if err != nil {
			panic(err)
		}
		return func(l string) *gotext.Locale { return gotext.NewLocaleFS(l, s) }, none
	case "DirFS":
		r, clean := onDisk("")
		return func(l string) *gotext.Locale { return gotext.NewLocaleFS(l, os.DirFS(r)) }, clean
	case "DirFS below a path":
		r, clean := onDisk("a/b")
		return func(l string) *gotext.Locale { return gotext.NewLocaleFSWithPath(l, os.DirFS(r), "a/b") }, clean
	}
	r, clean := onDisk("")
	return func(l string) *gotext.Locale { return gotext.NewLocale(r, l) }, clean
}

// checkFound judges a Locale to which dom was added once.
func checkFound(t *eng.T, when string, l *gotext.Locale, lib Lib, lang, dom string) {
	c, file := lib.find(lang, dom)
	actual := ""
	if file != "" {
		actual, _, _ = strings.Cut(file, "/")
	}
	if got := l.GetLanguage(); got != lang {
		t.Failf("language", "%s: GetLanguage() = %q, want %q", when, got, lang)
	}
	if got := l.GetActualLanguage(dom); got != actual {
		t.Failf("actual-language", "%s: GetActualLanguage(%s) = %q, want %q (file %q)", when, dom, got, actual, file)
	}
	l.AddDomain(dom)
	t.Step(2)
	m := newLocM(lib, lang)
	m.add(dom)
	tr, ok := l.Domains[dom]
	if ok != (c != nil) {
		t.Failf("added", "%s: domain added = %v, want %v (file %q)", when, ok, c != nil, file)
	}
	if got := l.GetDomain(); got != m.def {
		t.Failf("default", "%s: default domain %q, want %q", when, got, m.def)
	}
	if c != nil {
		d := tr.GetDomain()
		Same(t, "content", fmt.Sprintf("%s: content, want that of %s", when, file), Canon(d, false, false)+"\n"+ref.CanonHeaders(d.Headers), c.Canon(false, false)+"\n"+ref.CanonHeaders(c.Headers))
	}
	ObserveLoc(t, when, apiOf(l), m, []string{dom}, []Key{{"", "a", "as"}, {"c", "p", "ps"}, {"", "nope", "nopes"}}, []int{1, 2, 5}, true, true, false)
	if got := l.GetActualLanguage(dom); got != actual {
		t.Failf("actual-language", "%s, added: GetActualLanguage(%s) = %q, want %q (file %q)", when, dom, got, actual, file)
	}
}

func filesSuite(name string, places []string, dom string, spell int, values int) eng.Suite {
	r := []int{values, values, values, values, values, values, values, values}
	n := eng.Prod(r...)
	what := []string{"", "", "absent or valid", "absent, valid or empty"}[values]
	return eng.Suite{Name: name, N: n * int64(len(places)), Bound: fmt.Sprintf("each of the 8 candidate files of domain %q %s (%d sets), in %v, %d spellings of the locale name", dom, what, n, places, spell),
		Run: func(t *eng.T, i int64) {
			d := eng.Digits(i%n, r...)
			place := places[i/n]
			lib, raw := fileSet(dom, d)
			mk, clean := placeFiles(place, raw)
			defer clean()
			for _, sp := range spellings[:spell] {
				when := fmt.Sprintf("files %v in %s, locale %q", d, place, sp.given)
				t.Tracef("%s", when)
				checkFound(t, when, mk(sp.given), lib, sp.lang, dom)
			}
			t.StateHash(eng.Hash(fmt.Sprint(d)))
			if len(lib) > 0 {
				t.Nontriv()
			}
			if t.WantSample() && i > 500 {
				t.Sample("files %v in %s", d, place)
			}
		}}
}

// domain and locale names
var domNames = []string{"default", "my.app", "my-app", "Ünïcode", "with space", "po", "mo.po", "a", "sub/dom", "LC_MESSAGES"}
var langNames = []struct{ given, lang string }{
	{"pt_BR", "pt_BR"}, {"de_A", "de_A"}, {"de_CH_1901", "de_CH_1901"}, {"zh_Hans_CN", "zh_Hans_CN"}, {"sr_RS@latin", "sr_RS"}, {"en-GB", "en-GB"}, {"C", "C"}, {"en", "en"}, {"en_US.utf8", "en_US"}, {"fr_FR.ISO8859-15@euro", "fr_FR"}, {"es_419:es", "es_419"}, {"\tit_IT\n", "it_IT"}, {"uz_UZ@cyrillic.UTF-8", "uz_UZ"},
}

func namesSuite(name string) eng.Suite {
	r := []int{len(domNames), len(langNames), 256, len(places)}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("%d domain names, %d locale names, all subsets of the 8 candidates, %v", len(domNames), len(langNames), places),
		Run: func(t *eng.T, i int64) {
			d := eng.Digits(i, r...)
			dom, ln := domNames[d[0]], langNames[d[1]]
			lib, raw := Lib{}, map[string][]byte{}
			for k, f := range candidates(ln.lang, dom) {
				if d[2]>>k&1 == 1 {
					lib[f] = candDoc(f)
					raw[f] = fileBytes(f, lib[f])
				}
			}
			if len(candidates(ln.lang, dom)) < 8 && d[2] > 15 {
				return
			}
			mk, clean := placeFiles(places[d[3]], raw)
			defer clean()
			t.Nontriv()
			t.StateHash(uint64(i))
			checkFound(t, fmt.Sprintf("domain %q, locale %q, files %08b in %s", dom, ln.given, d[2], places[d[3]]), mk(ln.given), lib, ln.lang, dom)
		}}
}

// neighbours: files which are not candidates must not be loaded.
func neighbourSuite(name string) eng.Suite {
	others := []string{
		"de_DE/LC_MESSAGES/d1.po", "de_AT/LC_MESSAGES/d1.pot", "de_AT/LC_MESSAGES/d11.po", "de_AT/LC_MESSAGES/D1.PO", "d1.po", "LC_MESSAGES/d1.po", "de_AT.UTF-8/LC_MESSAGES/d1.po",
		"de_AT@euro/d1.po", "de_/LC_MESSAGES/d1.po", "d/LC_MESSAGES/d1.po", "de_A/LC_MESSAGES/d1.mo", "de_AT/lc_messages/d1.po", "de_AT/LC_MESSAGES/d1",
	}
	r := []int{1 << len(others), 2}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("all subsets of %d files which are no candidates, with and without the last candidate", len(others)),
		Run: func(t *eng.T, i int64) {
			d := eng.Digits(i, r...)
			lib, raw := Lib{}, map[string][]byte{}
			for k, f := range others {
				if d[0]>>k&1 == 1 {
					raw[f] = ref.WritePO(candDoc(f), ref.Layout{})
				}
			}
			if d[1] == 1 {
				c := candidates("de_AT", "d1")
				f := c[len(c)-1]
				lib[f] = candDoc(f)
				raw[f] = fileBytes(f, lib[f])
			}
			mk, clean := placeFiles("MapFS", raw)
			defer clean()
			t.Nontriv()
			t.StateHash(uint64(i))
			for _, sp := range spellings {
				checkFound(t, fmt.Sprintf("other files %016b, locale %q", d[0], sp.given), mk(sp.given), lib, sp.lang, "d1")
			}
		}}
}

// pkgFilesSuite: the same order through Configure.
func pkgFilesSuite(name string) eng.Suite {
	return eng.Suite{Name: name, N: 256, Solo: true, Bound: "all subsets of the 8 candidates on disk, through Configure with every spelling",
		Run: func(t *eng.T, i int64) {
			var d []int
			for k := 0; k < 8; k++ {
				d = append(d, int(i>>k&1))
			}
			lib, raw := fileSet("d1", d)
			r, err := os.MkdirTemp(Scratch(), "c16p")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(r)
			for f, b := range raw {
				WriteFile(r, f, b)
			}
			t.Nontriv()
			for _, sp := range spellings {
				if strings.Contains(sp.given, ":") {
					continue // a list of languages here
				}
				gotext.Configure(r, sp.given, "d1")
				c, file := lib.find(sp.lang, "d1")
				want := "a"
				if c != nil {
					want, _ = c.Get("", "a")
				}
				t.Step(1)
				if got := gotext.Get("a"); got != want {
					t.Failf("package", "files %v, Configure with %q: Get(a) = %q, want %q (file %q)", d, sp.given, got, want, file)
				}
			}
		}}
}

func init() {
	eng.Register(&eng.Prop{ID: "C16", Level: "model_checking",
		Rule:   "every combination of candidate files is laid out on disk, in an in-memory fs.FS, in os.DirFS and in sub-trees; a Locale of every spelling adds the domain and must load exactly the first candidate",
		Assume: []string{"the bare language is the first two letters of the locale name", "a candidate which exists but is empty is loaded like any other (an empty catalog)"},
		Suites: func(tier string) []eng.Suite {
			if tier == "thorough" {
				return []eng.Suite{filesSuite("files", places, "d1", len(spellings), 3), namesSuite("names"), spellingSuite("name-spellings", 7), neighbourSuite("neighbours"), linkSuite("links"), pkgFilesSuite("package")}
			}
			return []eng.Suite{
				filesSuite("files", []string{"MapFS", "disk"}, "d1", 3, 3),
				filesSuite("places", []string{"MapFS below a path", "DirFS", "DirFS below a path", "MapFS sub-tree"}, "d1", 2, 2),
				filesSuite("spellings", places[:1], "my.app", len(spellings), 2),
				namesSuite("names"), spellingSuite("name-spellings", 5), neighbourSuite("neighbours"), linkSuite("links"), pkgFilesSuite("package"),
			}
		}})
}

// spellingSuite: every tail over the separators of encoding, modifier and list, and ordinary characters.
func spellingSuite(name string, depth int) eng.Suite {
	parts := []string{".", "@", ":", "u", "8", " ", "_X"}
	bases := []string{"de_AT", "de", "pt-BR", "C"}
	n := 1 + eng.SeqCount(len(parts), depth)
	return eng.Suite{Name: name, N: n * int64(len(bases)), Bound: fmt.Sprintf("%v followed by every string of up to %d parts of %q", bases, depth, parts), Run: func(t *eng.T, i int64) {
		b, i := bases[i%int64(len(bases))], i/int64(len(bases))
		given := b
		if i > 0 {
			given += "." // a tail begins with a separator
			tail := ""
			for _, p := range eng.SeqAt(i-1, len(parts)) {
				tail += parts[p]
			}
			given = b + tail
			if !strings.ContainsAny(tail[:1], ".@: ") {
				return // part of the name
			}
		}
		want := given
		if k := strings.IndexAny(given, ".@:"); k >= 0 {
			want = given[:k]
		}
		want = strings.TrimSpace(want)
		t.State(given)
		t.Nontriv()
		t.Step(2)
		if got := gotext.SimplifiedLocale(given); got != want {
			t.Failf("simplified", "SimplifiedLocale(%q) = %q, want %q", given, got, want)
		}
		m := fstest.MapFS{want + "/d1.po": &fstest.MapFile{Data: ref.WritePO(candDoc("x"), ref.Layout{})}}
		l := gotext.NewLocaleFS(given, m)
		l.AddDomain("d1")
		if got := l.GetLanguage(); got != want || l.GetD("d1", "a") == "a" || l.GetActualLanguage("d1") != want {
			t.Failf("language", "locale %q: language %q, actual %q, Get(a) = %q; want %q and the translation", given, got, l.GetActualLanguage("d1"), l.GetD("d1", "a"), want)
		}
	}}
}
