package seq

import (
	"fmt"

	"verif/eng"
	"verif/ref"
)

// servedAgree is the differential form: a query is true exactly when the lookup does not fall back, told
// apart by asking with two different source plurals (a fallback follows the caller, a translation does not).
func isSuite(name string) eng.Suite {
	rules := []string{"", pfEn, pfFr, pfRu, pfJa, pfAr, "nplurals=2; plural=(n == 1);", "nplurals=2; plural=(n != 0);", "nplurals=3; plural=(n == 1 ? 2 : n == 2 ? 0 : 1);"}
	texts := []string{"", "x", "id", "ids", " ", "\n", "%d"}
	r := []int{2, len(rules), len(texts), len(texts), len(texts)}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("%d rules (some with form 0 for other numbers than 1) x every choice of 3 forms among %d texts, including empty and source text", len(rules), len(texts)), Run: func(t *eng.T, i int64) {
		d := eng.Digits(i, r...)
		doc := &ref.Doc{Header: hdr("xx", rules[d[1]])}
		for _, ctx := range []string{"", "c"} {
			doc.Ents = append(doc.Ents, ref.Plur(ctx, "id", "ids", texts[d[2]], texts[d[3]], texts[d[4]]), ref.Sing(ctx, "sing", texts[d[2]]))
		}
		h, c := New([]string{"po", "mo"}[d[0]]), ref.NewCat()
		h.Load(doc)
		c.Load(doc)
		t.State(Full(h, false, false))
		t.Nontriv()
		Observe(t, fmt.Sprintf("%s, rule %q, forms %q", h.Kind, rules[d[1]], []string{texts[d[2]], texts[d[3]], texts[d[4]]}), h.A, c,
			[]Key{{"", "id", "ids"}, {"c", "id", "ids"}, {"", "sing", "sings"}, {"c", "sing", "sings"}, {"c", "ids", "x"}, {"ids", "id", "x"}}, []int{0, 1, 2, 3, 5, 11, 21, 100}, Opt{IsTr: true, Get: true})
	}}
}

func init() {
	eng.Register(&eng.Prop{ID: "C03", Level: "model_checking",
		Rule:   "in every reached state of a catalog, a Locale and the package every translated-query is compared with the model, which answers true exactly when the lookup is served from a non-empty stored text",
		Assume: []string{"the language lists name locales by the configured name or by the language directory their file is in"},
		Suites: func(tier string) []eng.Suite {
			o := Opt{IsTr: true, Get: true}
			return []eng.Suite{
				isSuite("rules-and-forms"),
				levelSuite("levels", false, true),
				chainSuite("chains", tierInt(tier, 5, 6), false, true),
				countSuite("counts", kinds, func(t *eng.T, h *H, c *ref.Cat, keys []Key, when string) {
					Observe(t, when, h.A, c, keys, []int{1, 2}, Opt{IsTr: true})
				}),
				editSuite("edits", func(t *eng.T, h *H, c *ref.Cat, when string) {
					Observe(t, when, h.A, c, editKeys, []int{0, 1, 2, 5}, Opt{IsTr: true})
				}),
				observeShapes(o),
				histSuite("catalog-histories", 3, histOps(), kinds, func(t *eng.T, h *H, c *ref.Cat, when string) {
					Observe(t, when, h.A, c, histKeys, histNs, o)
				}),
				watchedSuite("watched", tierInt(tier, 2, 3), histOps(), kinds, func(t *eng.T, h *H, c *ref.Cat, when string) {
					Observe(t, when, h.A, c, histKeys, histNs, o)
				}, nil),
				watchedPkg("package-watched", tierInt(tier, 1, 2), false, true),
				formSuite("form-subsets", func(t *eng.T, h *H, c *ref.Cat, keys []Key, ns []int, when string) {
					Observe(t, when, h.A, c, keys, ns, o)
				}),
				valueSuite("values", kinds, func(t *eng.T, h *H, c *ref.Cat, keys []Key, when string) {
					Observe(t, when, h.A, c, keys, []int{0, 1, 2}, o)
				}),
				scaleSuite("scale", kinds, func(t *eng.T, h *H, c *ref.Cat, keys []Key, when string) {
					Observe(t, when, h.A, c, keys, []int{1, 3, 5}, o)
				}),
				locSuite("locale-histories", tierInt(tier, 3, 4), func(t *eng.T, s *LocSys, when string) {
					ObserveLoc(t, when, apiOf(s.L), s.M, locDoms, locKeys, locNs, true, true, false)
				}),
				pkgSuite("package-configured", tierInt(tier, 2, 3), false, true),
				freshSuite("C03", "package-unconfigured", tierInt(tier, 1, 2), false, true),
			}
		}})
}
