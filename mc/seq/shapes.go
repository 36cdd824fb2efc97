package seq

import (
	"fmt"
	"strings"

	"github.com/leonelquinteros/gotext"

	"verif/eng"
	"verif/ref"
)

// The shapes of a catalog: every subset of kinds of entries under every choice of header, so that nothing
// depends on some other kind of entry being there too.
var shapeHeads = [][]string{nil, {"Language: xx"}, {"Plural-Forms: " + pfRu}, {"X-Only: yes"}, hdr("xx", pfAr, "X-Note: n"), {"Language: ", "Plural-Forms: "}}

var shapeParts = []struct {
	name string
	ent  *ref.Ent
	op   *Op
}{
	{"plain", ptr(ref.Sing("", "a", "A", "f.go:3")), nil},
	{"untranslated", ptr(ref.Sing("", "b", "")), nil},
	{"plural", ptr(ref.Plur("", "p", "ps", "P0", "P1")), nil},
	{"plural with form 1 alone", &ref.Ent{ID: "q", Plural: "qs", Forms: []ref.Form{{I: 1, S: "Q1"}}}, nil},
	{"in context", ptr(ref.Sing("c", "a", "CA")), nil},
	{"untranslated in context", ptr(ref.Sing("c", "b", "")), nil},
	{"plural in context with form 2 alone", &ref.Ent{Ctx: "d", ID: "p", Plural: "ps", Forms: []ref.Form{{I: 2, S: "DP2"}}}, nil},
	{"without any msgstr", ptr(ref.Ent{ID: "u", Refs: []string{"u.go:1"}}), nil},
	{"without any msgstr in context", ptr(ref.Ent{Ctx: "c", ID: "u"}), nil},
	{"set", nil, ptr(opSet("s", "S"))},
	{"references alone", nil, ptr(opSetRefs("r", "r.go:1", "r.go:2"))},
	{"set in context", nil, ptr(opSetNC("sc", "scs", "e", 2, "SC"))},
}

func ptr[T any](v T) *T { return &v }

var shapeKeys = []Key{{"", "a", "as"}, {"", "b", "bs"}, {"", "p", "ps"}, {"", "q", "x"}, {"c", "a", "as"}, {"c", "b", "bs"}, {"d", "p", "x"}, {"", "s", "ss"}, {"", "r", "rs"}, {"e", "sc", "x"}, {"c", "p", "ps"}, {"d", "a", "as"}, {"", "u", "us"}, {"c", "u", "us"}, {"", "none", "nones"}}

var shapeRadix = []int{1 << len(shapeParts), len(shapeHeads)}

func shapeDoc(d []int) (*ref.Doc, []Op, string) {
	doc := &ref.Doc{Header: shapeHeads[d[1]]}
	var ops []Op
	var names []string
	for i, p := range shapeParts {
		if d[0]&(1<<i) == 0 {
			continue
		}
		names = append(names, p.name)
		if p.ent != nil {
			doc.Ents = append(doc.Ents, *p.ent)
		} else {
			ops = append(ops, *p.op)
		}
	}
	return doc, ops, fmt.Sprintf("header %q, entries {%s}", doc.Header, strings.Join(names, ", "))
}

func mkShape(kind string, d []int) (*H, *ref.Cat, string) {
	h, c := New(kind), ref.NewCat()
	doc, ops, when := shapeDoc(d)
	if kind != "dom" || len(doc.Ents) > 0 || doc.Header != nil {
		opLoad("", doc).Do(h, c)
	}
	for _, o := range ops {
		o.Do(h, c)
	}
	return h, c, kind + " of " + when
}

func shapeSuite(name string, kinds []string, f func(t *eng.T, h *H, c *ref.Cat, keys []Key, when string)) eng.Suite {
	r := append([]int{len(kinds)}, shapeRadix...)
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("every subset of %d kinds of entries under %d kinds of header, for %v", len(shapeParts), len(shapeHeads), kinds), Run: func(t *eng.T, i int64) {
		d := eng.Digits(i, r...)
		h, c, when := mkShape(kinds[d[0]], d[1:])
		t.State(Full(h, true, true))
		if d[1] != 0 {
			t.Nontriv()
		}
		f(t, h, c, shapeKeys, when)
	}}
}

func observeShapes(o Opt) eng.Suite {
	return shapeSuite("shapes", kinds, func(t *eng.T, h *H, c *ref.Cat, keys []Key, when string) {
		Observe(t, when, h.A, c, keys, []int{0, 1, 2, 5, 100}, o)
	})
}

// locShapes puts every shape into a Locale, alone, or as first or last domain beside an ordinary one.
func locShapes(name string, f func(t *eng.T, s *LocSys, when string, d []int)) eng.Suite {
	r := append([]int{2, 3}, shapeRadix...)
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("every subset of %d kinds of entries under %d kinds of header as a domain of a Locale, PO and MO, alone and beside another domain", len(shapeParts), len(shapeHeads)), Run: func(t *eng.T, i int64) {
		d := eng.Digits(i, r...)
		h, c, when := mkShape(kinds[d[0]], d[2:])
		s := diskSys("de")
		if d[1] == 1 {
			lopTr("mem", "po", mark("fr", pfFr, "T-mem")).Do(s)
		}
		s.L.AddTranslator("d1", h.A.(gotext.Translator))
		s.M.put("d1", c)
		s.Tr["d1"] = h
		if d[1] == 2 {
			lopTr("mem", "mo", mark("fr", pfFr, "T-mem")).Do(s)
		}
		t.State(s.M.String() + c.Canon(true, true) + fmt.Sprint(d[1]))
		if d[2] != 0 {
			t.Nontriv()
		}
		f(t, s, "a Locale with "+when+[]string{"", " after another", " before another"}[d[1]], d)
	}}
}

// locBinaryShapes: every shape as a domain goes through the encoding of its Locale.
func locBinaryShapes(name string) eng.Suite {
	rs := locReceivers()
	return locShapes(name, func(t *eng.T, s *LocSys, when string, d []int) {
		recv := rs[(d[0]+d[1]+d[2])%len(rs)]
		checkLocBinary(t, when, s, recv, false)
		l := recv()
		if err := l.UnmarshalBinary(mustMarshal(t, when, s.L)); err != nil {
			t.Failf("decode", "%s: UnmarshalBinary: %v", when, err)
		}
		for _, l := range []*gotext.Locale{s.L, l} {
			ObserveLoc(t, when+" (then decoded)", apiOf(l), s.M, []string{"d1", "mem"}, shapeKeys, []int{1, 2, 5}, true, true, false)
		}
	})
}

// mergeShapes: one shape is loaded over another.
func mergeShapes(name string, bits int) eng.Suite {
	alt := func(d *ref.Doc) *ref.Doc {
		e := *d
		e.Ents = append([]ref.Ent(nil), d.Ents...)
		for i := range e.Ents {
			x := &e.Ents[i]
			x.Refs = []string{"other.go:9"}
			x.Forms = append([]ref.Form(nil), x.Forms...)
			for j := range x.Forms {
				x.Forms[j].S = "other " + x.Forms[j].S
			}
			switch x.ID {
			case "b":
				x.Forms = []ref.Form{{I: 0, S: "B now"}}
			case "q":
				x.Plural, x.Forms = "other qs", []ref.Form{{I: 0, S: "Q0"}, {I: 2, S: "Q2"}}
			case "p":
				x.Plural, x.Forms = "", []ref.Form{{I: 0, S: ""}}
			}
		}
		return &e
	}
	n := 1 << bits
	r := []int{2, n, len(shapeHeads), n, len(shapeHeads)}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("every subset of %d kinds of entries under %d kinds of header, with other contents, loaded over every such subset", bits, len(shapeHeads)), Run: func(t *eng.T, i int64) {
		d := eng.Digits(i, r...)
		kind := kinds[d[0]]
		h, c := New(kind), ref.NewCat()
		one, _, w1 := shapeDoc([]int{d[1], d[2]})
		two, _, w2 := shapeDoc([]int{d[3], d[4]})
		two = alt(two)
		opLoad("", one).Do(h, c)
		opLoad("", two).Do(h, c)
		t.State(kind + c.Canon(true, false) + ref.CanonHeaders(c.Headers))
		if d[1] != 0 && d[3] != 0 {
			t.Nontriv()
		}
		when := kind + " of " + w1 + ", then " + w2
		checkStored(t, when, h, c, true)
		Observe(t, when, h.A, c, shapeKeys, []int{1, 2}, Opt{Get: true, IsTr: true})
	}}
}
