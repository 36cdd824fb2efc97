package seq

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"sort"
	"strings"

	"github.com/leonelquinteros/gotext"

	"verif/eng"
	"verif/ref"
)

func checkRefs(t *eng.T, when string, h *H, c *ref.Cat) {
	for k, e := range c.M {
		if k.Ctx != "" {
			continue
		}
		t.Step(1)
		if got := h.GetRefs(k.ID); strings.Join(got, " ") != strings.Join(e.Refs, " ") {
			t.Failf("refs", "%s: GetRefs(%q) = %q, want %q", when, k.ID, got, e.Refs)
		}
	}
	for _, id := range []string{"never", "nope %d"} {
		if c.M[ref.K{ID: id}] == nil && len(h.GetRefs(id)) != 0 {
			t.Failf("refs", "%s: GetRefs of an absent id gives %q", when, h.GetRefs(id))
		}
	}
}

// checkDrop drops and compares with the model.
func checkDrop(t *eng.T, when string, h *H, c *ref.Cat) {
	Same(t, "stale-marks", when+": entries with stale marks", Canon(h.D, true, true), c.Canon(true, true))
	hd := ref.CanonHeaders(h.D.Headers) + h.D.Language + h.D.PluralForms + Probe(h.D)
	c = c.Clone()
	c.Drop()
	for i := 0; i < 2; i++ {
		h.Drop()
		t.Step(1)
		w := fmt.Sprintf("%s, dropped %d times", when, i+1)
		Same(t, "drop", w, Canon(h.D, true, true), c.Canon(true, true))
		if x := ref.CanonHeaders(h.D.Headers) + h.D.Language + h.D.PluralForms + Probe(h.D); x != hd {
			t.Failf("drop-headers", "%s: headers or rule changed: %s, were %s", w, x, hd)
		}
		checkRefs(t, w, h, c)
		// no empty contexts are left
		b := mustMarshal(t, w, h.A)
		var te gotext.TranslatorEncoding
		if err := gob.NewDecoder(bytes.NewReader(b)).Decode(&te); err == nil {
			for n, m := range te.Contexts {
				if len(m) == 0 {
					t.Failf("drop-contexts", "%s: the empty context %q is left", w, n)
				}
			}
		}
		for n, m := range h.D.GetCtxTranslations() {
			if len(m) == 0 {
				t.Failf("drop-contexts", "%s: the empty context %q is left", w, n)
			}
		}
	}
	Observe(t, when+", dropped", h.A, c, histKeys, []int{1, 2, 5}, Opt{Get: true, IsTr: true})
}

func dropOps() []Op {
	return append(histOps(), opSetRefs("p", "q.go:1", "q.go:2"), opSetRefs("new", "n.go:5"), opSetNC("b", "bs", "d", 2, ""), opLoad("ar", docAr),
		// edits which set what a text may already have set
		opSet("a", "A en"), opSet("b", ""), opSetN("p", "ps", 1, "P0 en %d"), opSetN("p", "ps", 5, "P2 ru"), opSetC("a", "c", "A en in c"), opSetNC("p", "ps", "c", 1, "CP0 ru"), opSetNC("p", "ps", "c", 2, ""), opSetRefs("a", "m.go:3", "m.go:10"), opSetRefs("p"))
}

// Snap makes a snapshot's canonical text.
func snapText(tr map[string]*gotext.Translation, cx map[string]map[string]*gotext.Translation) string {
	return CanonSnap(tr, cx, true, true)
}

// scribble changes a snapshot in every way its types allow.
func scribble(tr map[string]*gotext.Translation, cx map[string]map[string]*gotext.Translation) {
	mess := func(m map[string]*gotext.Translation) {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for i, k := range ks {
			e := m[k]
			for j := range e.Refs {
				e.Refs[j] = "scribbled:1"
			}
			e.Refs = append(e.Refs[:len(e.Refs):cap(e.Refs)], "more:2")
			for f := range e.Trs {
				e.Trs[f] = "scribbled"
			}
			e.Trs[0] = "scribbled 0"
			e.Trs[77] = "scribbled 77"
			e.Set("scribbled by Set")
			e.SetN(1, "scribbled by SetN")
			e.SetRefs([]string{"scribbled:2"})
			e.ID, e.PluralID = "scribbled id", "scribbled plural"
			if i%2 == 0 {
				delete(m, k)
			}
		}
		m["extra"] = gotext.NewTranslation()
	}
	mess(tr)
	for _, m := range cx {
		mess(m)
	}
	for k := range cx {
		delete(cx, k)
		break
	}
	cx["extra"] = map[string]*gotext.Translation{"x": gotext.NewTranslation()}
}

func checkSnap(t *eng.T, when string, h *H, c *ref.Cat, later []Op) {
	full := Full(h, true, true)
	tr1, cx1 := h.D.GetTranslations(), h.D.GetCtxTranslations()
	tr2, cx2 := h.D.GetTranslations(), h.D.GetCtxTranslations()
	want := c.Canon(true, true)
	s1 := snapText(tr1, cx1)
	t.Step(4)
	Same(t, "snapshot", when+": snapshot against the model", s1, want)
	Same(t, "snapshot", when+": second snapshot", snapText(tr2, cx2), want)
	for k, e := range tr1 {
		if e == tr2[k] {
			t.Failf("snapshot-shared", "%s: two snapshots share entry %q", when, k)
		}
	}
	scribble(tr1, cx1)
	Same(t, "snapshot-aliases", when+": changing a snapshot changed the catalog", Full(h, true, true), full)
	Same(t, "snapshot-aliases", when+": changing a snapshot changed another one", snapText(tr2, cx2), want)
	tr3, cx3 := h.D.GetTranslations(), h.D.GetCtxTranslations()
	Same(t, "snapshot-aliases", when+": snapshot taken after changing another one", snapText(tr3, cx3), want)
	for _, o := range later {
		d := c.Clone()
		o.Do(h, d)
		t.Step(1)
		Same(t, "snapshot-live", when+", then "+o.Name+": the snapshot taken before changed", snapText(tr2, cx2), want)
		Same(t, "snapshot-live", when+", then "+o.Name+": the snapshot taken before changed", snapText(tr3, cx3), want)
	}
}

func init() {
	eng.Register(&eng.Prop{ID: "C14", Level: "model_checking",
		Rule:   "after every bounded history of parses, edits, reference edits and drops the stale marks and references are compared with the model, the stale entries are dropped (twice) and entries, headers, rule, references and contexts compared again",
		Assume: []string{"an entry decoded from binary has no defined stale mark"},
		Suites: func(tier string) []eng.Suite {
			return []eng.Suite{
				histSuite("histories", 3, dropOps(), []string{"po", "mo"}, func(t *eng.T, h *H, c *ref.Cat, when string) {
					checkRefs(t, when, h, c)
					checkDrop(t, when, h, c)
				}),
				watchedSuite("watched", tierInt(tier, 2, 3), dropOps(), []string{"po", "mo"}, func(t *eng.T, h *H, c *ref.Cat, when string) { checkRefs(t, when, h, c) }, func(t *eng.T, h *H, c *ref.Cat, when string) { checkDrop(t, when, h, c) }),
				valueSuite("values", []string{"po", "mo", "dom"}, func(t *eng.T, h *H, c *ref.Cat, keys []Key, when string) {
					checkRefs(t, when, h, c)
					checkDrop(t, when, h, c)
				}),
				scaleSuite("scale", []string{"mo"}, func(t *eng.T, h *H, c *ref.Cat, keys []Key, when string) {
					for _, e := range c.M {
						e.Refs = nil
					}
					checkDrop(t, when, h, c)
				}),
				shapeSuite("shapes", []string{"po", "mo"}, func(t *eng.T, h *H, c *ref.Cat, keys []Key, when string) {
					checkRefs(t, when, h, c)
					checkDrop(t, when, h, c)
				}),
				countSuite("counts", kinds[:2], func(t *eng.T, h *H, c *ref.Cat, keys []Key, when string) {
					checkRefs(t, when, h, c)
					checkDrop(t, when, h, c)
				}),
				editSuite("edits", func(t *eng.T, h *H, c *ref.Cat, when string) { checkDrop(t, when, h, c) }),
				{Name: "histories-deep", N: int64(len(editOps14())) * int64(len(editOps14())) * int64(len(editOps14())) * int64(len(editOps14())), Bound: fmt.Sprintf("all histories of 4 operations over an alphabet of %d, Po", len(editOps14())), Run: func(t *eng.T, i int64) {
					ops := editOps14()
					seq := eng.SeqAt(eng.SeqCount(len(ops), 3)+i, len(ops))
					h, c := runHist(t, "po", ops, seq)
					t.StateHash(eng.Hash(c.Canon(true, true)))
					checkDrop(t, "after "+histName("po", ops, seq), h, c)
				}},
			}
		}})
	eng.Register(&eng.Prop{ID: "C15", Level: "model_checking",
		Rule: "in every reached state snapshots are compared with the model, changed in every way their types allow, and then the catalog is changed by every operation: neither side may see the other's changes",
		Suites: func(tier string) []eng.Suite {
			later := []Op{opLoad("ru", docRu), opSet("a", "later"), opSetN("p", "ps", 2, "later"), opSetC("a", "c", "later"), opSetNC("p", "ps", "c", 5, "later"), opSetRefs("a", "later:1"), opSetRefs("p", "x:1"), opDrop, opLoad("fr", docFr)}
			return []eng.Suite{
				histSuite("histories", 3, histOps(), kinds, func(t *eng.T, h *H, c *ref.Cat, when string) {
					checkSnap(t, when, h, c, later)
				}),
				watchedSuite("watched", tierInt(tier, 2, 3), histOps(), kinds, func(t *eng.T, h *H, c *ref.Cat, when string) {
					tr, cx := h.D.GetTranslations(), h.D.GetCtxTranslations()
					scribble(tr, cx)
				}, func(t *eng.T, h *H, c *ref.Cat, when string) { checkSnap(t, when, h, c, later) }),
				valueSuite("values", kinds, func(t *eng.T, h *H, c *ref.Cat, keys []Key, when string) {
					checkSnap(t, when, h, c, later[1:2])
				}),
				scaleSuite("scale", []string{"po"}, func(t *eng.T, h *H, c *ref.Cat, keys []Key, when string) {
					checkSnap(t, when, h, c, later[:3])
				}),
				formSuite("forms", func(t *eng.T, h *H, c *ref.Cat, keys []Key, ns []int, when string) {
					checkSnap(t, when, h, c, []Op{opSetN("item", "items", 3, "later"), opSetNC("item", "items", "menu", 1, "later"), opSetRefs("item", "l:1")})
				}),
				countSuite("counts", kinds, func(t *eng.T, h *H, c *ref.Cat, keys []Key, when string) {
					checkSnap(t, when, h, c, []Op{opSet("id", "later"), opSetRefs("id", "l.go:1"), opSetC("id", "ctx", "later")})
				}),
				editSuite("edits", func(t *eng.T, h *H, c *ref.Cat, when string) { checkSnap(t, when, h, c, later[:2]) }),
				locSuite("locale-histories", tierInt(tier, 3, 4), checkLocSnap),
				shapeSuite("shapes", kinds, func(t *eng.T, h *H, c *ref.Cat, keys []Key, when string) {
					checkSnap(t, when, h, c, []Op{opSetN("q", "qs", 1, "later"), opSetC("b", "c", "later"), opSetRefs("a", "later:1"), opDrop})
				}),
				locShapes("locale-shapes", func(t *eng.T, s *LocSys, when string, d []int) { checkLocSnap(t, s, when) }),
			}
		}})
}

func editOps14() []Op {
	return []Op{opLoad("en", docEn), opLoad("ru", docRu), opSet("a", "A"), opSetN("p", "ps", 5, "P"), opSetC("a", "c", "CA"), opSetNC("p", "ps", "c", 2, "CP"), opSetNC("new", "news", "d", 2, "N"), opSetRefs("a", "z.go:9"), opSetRefs("b"), opDrop, opSet("b", ""), opReadAll}
}

// checkLocSnap: the snapshot of a Locale holds the entries of all domains.
func checkLocSnap(t *eng.T, s *LocSys, when string) {
	// every id, with the canonical texts of the entries it may be (domains can hold the same id)
	may := map[string]map[string]bool{}
	for _, c := range s.M.doms {
		for k, e := range c.M {
			if k.Ctx == "" {
				if may[k.ID] == nil {
					may[k.ID] = map[string]bool{}
				}
				may[k.ID][ref.CanonEntry("", e.ID, e.Plural, e.Forms, nil, false, false, false)] = true
			}
		}
	}
	text := func(m map[string]*gotext.Translation) string {
		var ls []string
		for k, e := range m {
			if k != "" {
				ls = append(ls, fmt.Sprintf("%q %s refs %q stale %v", k, ref.CanonEntry("", e.ID, e.PluralID, e.Trs, nil, false, false, false), e.Refs, e.IsStale()))
			}
		}
		sort.Strings(ls)
		return strings.Join(ls, "\n")
	}
	state := LocState(s.L)
	snap, snap2 := s.L.GetTranslations(), s.L.GetTranslations()
	t.Step(2)
	for id, m := range may {
		e := snap[id]
		if e == nil {
			t.Failf("locale-snapshot", "%s: %q is missing from the snapshot", when, id)
			continue
		}
		if got := ref.CanonEntry("", e.ID, e.PluralID, e.Trs, nil, false, false, false); !m[got] {
			t.Failf("locale-snapshot", "%s: %q is in the snapshot as %s", when, id, got)
		}
	}
	for id := range snap {
		if id != "" && may[id] == nil {
			t.Failf("locale-snapshot", "%s: %q is in the snapshot but in no domain", when, id)
		}
	}
	keep := text(snap2)
	scribble(snap, map[string]map[string]*gotext.Translation{})
	Same(t, "locale-snapshot-aliases", when+": changing the snapshot changed the Locale", LocState(s.L), state)
	Same(t, "locale-snapshot-aliases", when+": changing the snapshot changed another", text(snap2), keep)
	lopEdit("d1", "", "a", "later").Do(s)
	lopEdit("mem", "c", "a", "later").Do(s)
	s.L.AddDomain("d2")
	s.L.AddDomain("d1")
	Same(t, "locale-snapshot-live", when+": changing the Locale changed the snapshot", text(snap2), keep)
}
