package seq

import (
	"fmt"
	"os"
	"path/filepath"

	"github.com/leonelquinteros/gotext"

	"verif/eng"
	"verif/ref"
)

// entryEdits are edits of the entry e, with texts it may or may not already have.
func entryEdits(ctx string) []Op {
	texts := []string{"new", "", "first single", "first form 0", "first form 1", "first form 2"}
	var out []Op
	for _, s := range texts {
		if ctx == "" {
			out = append(out, opSet("e", s))
		} else {
			out = append(out, opSetC("e", ctx, s))
		}
		for _, n := range []int{1, 2, 5} {
			for _, pl := range []string{"ps", "other plural"} {
				if ctx == "" {
					out = append(out, opSetN("e", pl, n, s))
				} else {
					out = append(out, opSetNC("e", pl, ctx, n, s))
				}
			}
		}
	}
	return append(out, opSetRefs("e"), opSetRefs("e", "r1.go:1"), opSetRefs("e", "r2.go:2", "r3.go:3"), opSetRefs("e", "new.go:1"))
}

var editKeys = []Key{{"", "e", "caller"}, {"c", "e", "caller"}, {"c", "n", "ns"}}

// editSuite edits one entry, which a file gives in every way, in every way.
func editSuite(name string, f func(t *eng.T, h *H, c *ref.Cat, when string)) eng.Suite {
	ctxs := []string{"", "c"}
	nv, ne := len(entryVariants("", "e", "first", false)), len(entryEdits(""))
	r := []int{2, 2, nv, ne}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("one entry, which a PO or MO file gives in any of %d ways, with and without context, edited in any of %d ways (texts, plural ids and references which it may already have)", nv, ne), Run: func(t *eng.T, i int64) {
		d := eng.Digits(i, r...)
		ctx := ctxs[d[1]]
		e, o := entryVariants(ctx, "e", "first", false)[d[2]], entryEdits(ctx)[d[3]]
		doc := &ref.Doc{Header: hdr("ru", pfRu), Ents: []ref.Ent{e, ref.Sing("c", "n", "neighbour", "n.go:1")}}
		h, c := New(kinds[d[0]]), ref.NewCat()
		opLoad("entry", doc).Do(h, c)
		o.Do(h, c)
		t.Step(2)
		t.State(h.Kind + Full(h, true, true))
		t.Nontriv()
		f(t, h, c, fmt.Sprintf("%s with %+v after %s", h.Kind, e, o.Name))
	}}
}

// twinRules are rules of one language.
var twinRules = []string{"", pfEn, pfFr, pfJa, pfRu, "nplurals=2; plural=(n == 1);", "nplurals=3; plural=(n==0 ? 2 : n==1 ? 0 : 1);", "nplurals=2; plural=oops;"}

// twinSuite has two catalogs alike in some of language, rule and texts and different in the rest, both in use.
func twinSuite(name string) eng.Suite {
	how := []string{"Parse", "Parse of MO data", "ParseFile", "UnmarshalBinary"}
	r := []int{2, len(twinRules), 2, len(twinRules), 2, len(how), len(how)}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("two catalogs, one of 2 languages with one of %d rules each, with the same texts or not, each loaded in one of %d ways (files of one name)", len(twinRules), len(how)), Run: func(t *eng.T, i int64) {
		d := eng.Digits(i, r...)
		dir := filepath.Join(Scratch(), fmt.Sprintf("twins-%d", os.Getpid()))
		load := func(k int) (*H, *ref.Cat) {
			tag := []string{"", "2"}[k*d[4]]
			doc := &ref.Doc{Header: hdr("xx", twinRules[d[1]]), Ents: []ref.Ent{ref.Plur("", "p", "ps", "p0"+tag, "p1"+tag, "p2"+tag), ref.Plur("c", "p", "ps", "cp0"+tag, "", "cp2"+tag), ref.Sing("", "a", "A"+tag)}}
			if k == 1 {
				doc.Header = hdr([]string{"xx", "yy"}[d[0]], twinRules[d[3]])
				if d[2] == 1 {
					doc.Ents = doc.Ents[:2]
				}
			}
			w := d[5+k]
			h, c := New([]string{"po", "mo", "po", "po"}[w]), ref.NewCat()
			switch w {
			case 2:
				WriteFile(dir, "twin.po", ref.WritePO(doc, ref.Layout{}))
				h.P.ParseFile(filepath.Join(dir, "twin.po"))
			case 3:
				x := New("po")
				x.Load(doc)
				b, err := x.P.MarshalBinary()
				if err == nil {
					err = h.A.UnmarshalBinary(b)
				}
				if err != nil {
					t.Failf("twins", "binary: %v", err)
				}
			default:
				h.Load(doc)
			}
			c.Load(doc)
			t.Step(1)
			return h, c
		}
		h1, c1 := load(0)
		h2, c2 := load(1)
		when := fmt.Sprintf("catalog of xx with rule %q by %s, then one of %s with rule %q by %s", twinRules[d[1]], how[d[5]], c2.Lang, twinRules[d[3]], how[d[6]])
		t.State(fmt.Sprint(d))
		t.Nontriv()
		keys := []Key{{"", "p", "ps"}, {"c", "p", "ps"}, {"", "a", "as"}, {"", "none", "nones"}}
		ns := []int{0, 1, 2, 5, 21}
		Observe(t, when+": the first", h1.A, c1, keys, ns, Opt{Get: true, IsTr: true})
		Observe(t, when+": the second", h2.A, c2, keys, ns, Opt{Get: true, IsTr: true})
		Observe(t, when+": the first again", h1.A, c1, keys, ns, Opt{Get: true})
	}}
}

// chainSuite has the package fall back along a list of languages which have a text in any combination.
func chainSuite(name string, max int, get, is bool) eng.Suite {
	const states = 4 // no catalog, one without the texts, one with empty texts, one with the texts
	var first []int64
	total := int64(0)
	for n := 1; n <= max; n++ {
		first = append(first, total)
		c := int64(2)
		for k := 0; k < n; k++ {
			c *= states
		}
		total += c
	}
	langs := []string{"de", "fr", "ru", "ja", "en_US", "ar"}
	pfs := []string{pfEn, pfFr, pfRu, pfJa, pfEn, pfAr}
	return eng.Suite{Name: name, N: total, Bound: fmt.Sprintf("lists of 1..%d languages, each without a catalog, without the texts, with empty ones or with them, loaded from files or in memory", max), Run: func(t *eng.T, i int64) {
		n := 1
		for n < max && i >= first[n] {
			n++
		}
		i -= first[n-1]
		disk := i%2 == 1
		i /= 2
		m := &PkgM{dom: "d"}
		var ls []*gotext.Locale
		lib := Lib{}
		names := ""
		for k := 0; k < n; k++ {
			st := i % states
			i /= states
			tag := langs[k] + " "
			doc := &ref.Doc{Header: hdr(langs[k], pfs[k]), Ents: []ref.Ent{ref.Sing("", "other", tag+"other")}}
			add := func(ctx, id, s string) {
				doc.Ents = append(doc.Ents, ref.Sing(ctx, id, s))
			}
			switch st {
			case 2:
				add("", "a", "")
				add("c", "a", "")
				doc.Ents = append(doc.Ents, ref.Plur("", "p", "ps", "", ""), ref.Plur("c", "p", "ps", "", tag+"only one form"))
			case 3:
				add("", "a", tag+"a")
				add("c", "a", tag+"c a")
				doc.Ents = append(doc.Ents, ref.Plur("", "p", "ps", tag+"p0", tag+"p1"), ref.Plur("c", "p", "ps", tag+"cp0", tag+"cp1"))
			}
			names += fmt.Sprint(st)
			m.langs = append(m.langs, langs[k])
			if st > 0 {
				lib[langs[k]+"/LC_MESSAGES/d.po"] = doc
			}
		}
		for k := 0; k < n; k++ {
			lm := newLocM(lib, langs[k])
			var l *gotext.Locale
			if disk {
				l = gotext.NewLocaleFS(langs[k], lib.mapFS(""))
			} else {
				l = gotext.NewLocale("/nonexistent-verif", langs[k])
				if doc := lib[langs[k]+"/LC_MESSAGES/d.po"]; doc != nil {
					h := New("po")
					h.Load(doc)
					l.AddTranslator("d", h.P)
				}
			}
			if k == 0 {
				l.SetDomain("d")
			}
			lm.def = "d"
			lm.cat("d")
			m.locs, ls = append(m.locs, lm), append(ls, l)
		}
		gotext.SetLocales(ls)
		when := fmt.Sprintf("languages %v in states %s (0 no catalog, 1 without the texts, 2 with empty ones, 3 with them), in files: %v", m.langs, names, disk)
		t.State(fmt.Sprint(disk, names))
		t.Nontriv()
		keys := []Key{{"", "a", "as"}, {"c", "a", "as"}, {"", "p", "ps"}, {"c", "p", "ps"}, {"", "other", "others"}, {"", "none", "nones"}}
		ns := []int{0, 1, 2, 5}
		if get {
			ObserveLoc(t, when, pkgAPI(), m, []string{"d", "e"}, keys, ns, true, false, false)
		}
		if is {
			for _, q := range [][]string{nil, m.langs[n-1:], m.langs[n/2:], {"xx", m.langs[0]}} {
				ObserveLoc(t, when+fmt.Sprintf(", asking for %q", q), pkgAPI(q...), &isModel{m, q}, []string{"d", "e"}, keys, ns, false, true, false)
			}
		}
	}}
}
