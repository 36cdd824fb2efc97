package seq

import (
	"fmt"
	"strings"

	"verif/eng"
	"verif/ref"
)

// watchNs are few numbers that any rule tells apart.
var watchNs = []int{0, 1, 2, 5}

// watchH reads all there is to read from a catalog and forgets it: what an object remembers of having been
// read must never show.
func watchH(h *H) {
	var b []byte
	for _, k := range histKeys {
		h.A.Get(k.ID)
		h.A.Get(k.ID, 1)
		h.A.GetC(k.ID, k.Ctx)
		b = h.A.Append(b[:0], k.ID)
		b = h.A.AppendC(b, k.ID, k.Ctx)
		h.A.IsTranslated(k.ID)
		h.A.IsTranslatedC(k.ID, k.Ctx)
		h.D.GetRefs(k.ID)
		for _, n := range watchNs {
			h.A.GetN(k.ID, k.Plural, n)
			h.A.GetNC(k.ID, k.Plural, n, k.Ctx)
			b = h.A.AppendN(b, k.ID, k.Plural, n)
			b = h.A.AppendNC(b, k.ID, k.Plural, n, k.Ctx)
			h.A.IsTranslatedN(k.ID, n)
			h.A.IsTranslatedNC(k.ID, n, k.Ctx)
		}
	}
	h.Text()
	h.A.MarshalBinary()
	h.D.GetTranslations()
	h.D.GetCtxTranslations()
	h.D.Headers.Get("Language")
	h.D.Headers.Values("Plural-Forms")
}

type histCheck func(t *eng.T, h *H, c *ref.Cat, when string)

// watchedSuite enumerates histories in which the object is read in every way before the first and after every
// operation; each is called after every operation, last only at the end.
func watchedSuite(name string, depth int, ops []Op, kinds []string, each, last histCheck) eng.Suite {
	n := eng.SeqCount(len(ops), depth)
	return eng.Suite{Name: name, N: n * int64(len(kinds)), Bound: fmt.Sprintf("all histories of 1..%d operations over an alphabet of %d, for %v, with all lookups, queries, exports and snapshots between any two operations", depth, len(ops), kinds),
		Run: func(t *eng.T, i int64) {
			k := int(i % int64(len(kinds)))
			seq := eng.SeqAt(i/int64(len(kinds)), len(ops))
			h, c := New(kinds[k]), ref.NewCat()
			watchH(h)
			for j, o := range seq {
				t.Tracef("%s.%s", kinds[k], ops[o].Name)
				ops[o].Do(h, c)
				t.Step(1)
				when := "read all along, after " + histName(kinds[k], ops, seq[:j+1])
				if each != nil {
					each(t, h, c, when)
				}
				watchH(h)
				if j == len(seq)-1 && last != nil {
					last(t, h, c, when)
				}
			}
			t.State(kinds[k] + Full(h, true, true))
			if len(c.M) > 0 {
				t.Nontriv()
			}
		}}
}

// mergeOps mixes loads with edits.
func mergeOps() []Op {
	return []Op{opLoad("en", docEn), opLoad("ru", docRu), opLoad("nohead", docNoHead), opLoad("template", docTemplate), opLoad("one entry", &ref.Doc{Ents: []ref.Ent{ref.Sing("", "a", "alone")}}),
		opSet("a", "A set"), opSet("u", "U set"), opSetN("p", "ps", 5, "P many"), opSetC("a", "c", "A set in c"), opSetNC("p", "ps", "c", 2, "CP few"), opSetRefs("a", "z.go:9"), opDrop, opRoundtrip}
}

// docTemplate is untranslated.
var docTemplate = &ref.Doc{Ents: []ref.Ent{ref.Sing("", "u", ""), ref.Sing("", "a", ""), ref.Sing("c", "a", ""), ref.Plur("", "p", "ps", "", ""), ref.Plur("c", "p", "ps", "", "", ""), ref.Sing("", "r", "", "t.go:1")}}

var mergeKeys = append([]Key{{"", "u", "us"}, {"", "r", "rs"}}, histKeys...)

// watchedLoc is locSuite with a check in every state.
func watchedLoc(name string, depth int, f func(t *eng.T, s *LocSys, when string)) eng.Suite {
	ops := locOps()
	return eng.Suite{Name: name, N: eng.SeqCount(len(ops), depth), Bound: fmt.Sprintf("all histories of 1..%d operations over an alphabet of %d on a Locale, with all lookups, queries and exports between any two operations", depth, len(ops)),
		Run: func(t *eng.T, i int64) {
			s := newLocSys(libA, []string{"de_AT", "de"}[i%2])
			var names []string
			f(t, s, "new")
			for _, o := range eng.SeqAt(i, len(ops)) {
				t.Tracef("%s", ops[o].Name)
				ops[o].Do(s)
				t.Step(1)
				names = append(names, ops[o].Name)
				s.L.GetTranslations()
				s.L.GetActualLanguage("d1")
				s.L.MarshalBinary()
				f(t, s, "read all along, after "+strings.Join(names, "."))
			}
			t.State(s.M.String())
			if len(s.M.doms) > 0 {
				t.Nontriv()
			}
		}}
}

// watchedPkg is pkgSuite with a check in every state.
func watchedPkg(name string, depth int, get, is bool) eng.Suite {
	ops := pkgOps()
	return eng.Suite{Name: name, N: 4 * eng.SeqCount(len(ops), depth), Bound: fmt.Sprintf("each of 4 initial configurations followed by all histories of 1..%d calls over an alphabet of %d, with all lookups between any two calls", depth, len(ops)),
		Run: func(t *eng.T, i int64) {
			seq := append([]int{int(i % 4)}, eng.SeqAt(i/4, len(ops))...)
			m := newPkgM()
			var names []string
			for j, o := range seq {
				t.Tracef("%s", ops[o].Name)
				ops[o].Do(m)
				t.Step(1)
				names = append(names, ops[o].Name)
				checkPkgSome(t, "read all along, after "+strings.Join(names, "."), m, get, is, (int(i)+j)%3)
			}
			t.Nontriv()
			t.State(strings.Join(names, "."))
		}}
}
