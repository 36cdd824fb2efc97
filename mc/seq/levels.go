package seq

import (
	"fmt"

	"github.com/leonelquinteros/gotext"

	"verif/eng"
	"verif/ref"
)

// levelSuite asks a Locale and the package for catalogs with every kind of plural rule and every choice of forms.
func levelSuite(name string, get, is bool) eng.Suite {
	rules := []string{"", pfEn, pfFr, pfRu, pfJa, "nplurals=2; plural=(n == 1);", "nplurals=2; plural=(n != 0);", "nplurals=3; plural=(n == 1 ? 2 : n == 2 ? 0 : 1);", "nplurals=2; plural=n>2147483648?1:0;"}
	texts := []string{"", "x", "id", "ids"}
	keys := []Key{{"", "id", "ids"}, {"c", "id", "ids"}, {"", "sing", "sings"}, {"c", "sing", "sings"}, {"c", "ids", "x"}, {"ids", "id", "x"}, {"", "plain", "plains"}, {"c", "plain", "plains"}}
	r := []int{2, len(rules), len(texts), len(texts), len(texts), 3}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("%d rules x every choice of 3 forms among %d texts, in a Locale and in the package, alone, before and after a full second language", len(rules), len(texts)), Run: func(t *eng.T, i int64) {
		d := eng.Digits(i, r...)
		doc := &ref.Doc{Header: hdr("xx", rules[d[1]])}
		full := &ref.Doc{Header: hdr("yy", pfRu)}
		for _, ctx := range []string{"", "c"} {
			doc.Ents = append(doc.Ents, ref.Plur(ctx, "id", "ids", texts[d[2]], texts[d[3]], texts[d[4]]), ref.Sing(ctx, "sing", texts[d[2]]))
			full.Ents = append(full.Ents, ref.Plur(ctx, "id", "ids", "Y0"+ctx, "Y1"+ctx, "Y2"+ctx), ref.Sing(ctx, "sing", "Y sing"+ctx))
		}
		doc.Ents = append(doc.Ents, ref.Sing("", "plain", "P"))
		kind := []string{"po", "mo"}[d[0]]
		mk := func(lang string, doc *ref.Doc) (*gotext.Locale, *LocM) {
			h, c := New(kind), ref.NewCat()
			h.Load(doc)
			if kind == "mo" {
				doc = stripRefs(doc)
			}
			c.Load(doc)
			l, m := gotext.NewLocale(pkgRoot("none", nil), lang), newLocM(nil, lang)
			l.AddTranslator("d", h.A.(gotext.Translator))
			m.put("d", c)
			return l, m
		}
		ns := []int{0, 1, 2, 3, 5, 11, 21}
		if rules[d[1]] == rules[8] {
			ns = append(ns, 3000000000)
		}
		l1, m1 := mk("xx", doc)
		when := fmt.Sprintf("%s, rule %q, forms %q", kind, rules[d[1]], []string{texts[d[2]], texts[d[3]], texts[d[4]]})
		t.State(m1.String() + fmt.Sprint(d[5]))
		t.Nontriv()
		if d[5] == 0 {
			ObserveLoc(t, when, apiOf(l1), m1, []string{"d", "none"}, keys, ns, get, is, false)
		}
		ls, m := []*gotext.Locale{l1}, &PkgM{locs: []*LocM{m1}, langs: []string{"xx"}, dom: "d"}
		if d[5] > 0 {
			l2, m2 := mk("yy", full)
			ls, m.locs, m.langs = append(ls, l2), append(m.locs, m2), append(m.langs, "yy")
			if d[5] == 2 {
				ls[0], ls[1] = ls[1], ls[0]
				m.locs[0], m.locs[1] = m.locs[1], m.locs[0]
				m.langs[0], m.langs[1] = m.langs[1], m.langs[0]
			}
		}
		gotext.SetLocales(ls)
		when = fmt.Sprintf("languages %v, %s", m.langs, when)
		if get {
			ObserveLoc(t, when, pkgAPI(), m, []string{"d", "none"}, keys, ns, true, false, false)
		}
		if is {
			for _, langs := range [][]string{nil, {"xx"}, {"yy"}, {"zz", "xx"}} {
				ObserveLoc(t, when+fmt.Sprintf(", asking for %q", langs), pkgAPI(langs...), &isModel{m, langs}, []string{"d", "none"}, keys, ns, false, true, false)
			}
		}
	}}
}
