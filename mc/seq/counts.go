package seq

import (
	"fmt"
	"strings"

	"verif/eng"
	"verif/ref"
)

// counts of things of one kind, in an otherwise ordinary catalog
var countNs = func() []int {
	var o []int
	for i := 0; i <= 66; i++ {
		o = append(o, i)
	}
	return append(o, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024)
}()

var countDims = []string{"references", "references in a context", "forms", "forms in a context", "headers", "values of one header", "contexts", "entries of a context", "entries", "lines of a text", "lines of an id", "entries of one id in several contexts", "entries of one plural id"}

// countDoc has n of one kind of thing.
func countDoc(dim, n int) *ref.Doc {
	d := &ref.Doc{Header: hdr("en", pfEn), Ents: []ref.Ent{ref.Sing("", "before", "B", "b.go:1"), ref.Plur("cc", "mid", "mids", "M0", "M1")}}
	add := func(e ref.Ent) { d.Ents = append(d.Ents, e) }
	var refs []string
	for i := 0; i < n; i++ {
		refs = append(refs, fmt.Sprintf("dir%d/file%d.go:%d", i%3, i, 1000-i))
	}
	var lines []string
	for i := 0; i < n; i++ {
		lines = append(lines, fmt.Sprintf("line %d", i))
	}
	switch dim {
	case 0:
		add(ref.Sing("", "id", "text", refs...))
	case 1:
		add(ref.Plur("ctx", "id", "ids", "F0", "F1"))
		d.Ents[len(d.Ents)-1].Refs = refs
	case 2, 3:
		e := ref.Ent{ID: "id", Plural: "ids", Ctx: []string{"", "ctx"}[dim-2]}
		for i := 0; i < n; i++ {
			e.Forms = append(e.Forms, ref.Form{I: i, S: fmt.Sprintf("form %d", i)})
		}
		if n == 0 {
			e.Forms = []ref.Form{{I: 0, S: ""}}
		}
		add(e)
		if n > 1 {
			d.Header[1] = fmt.Sprintf("Plural-Forms: nplurals=%d; plural=(n==2 ? %d : n==1 ? 0 : 1);", n, n-1)
		}
	case 4:
		for i := 0; i < n; i++ {
			d.Header = append(d.Header, fmt.Sprintf("X-Head-%d: value %d", i*7%1031, i))
		}
	case 5:
		for i := 0; i < n; i++ {
			d.Header = append(d.Header, fmt.Sprintf("X-Again: value %d", i*7%1031))
		}
	case 6:
		for i := 0; i < n; i++ {
			add(ref.Plur(fmt.Sprintf("context %d", i), "id", "ids", fmt.Sprintf("C%d", i), fmt.Sprintf("CP%d", i)))
		}
	case 7:
		for i := 0; i < n; i++ {
			add(ref.Sing("ctx", fmt.Sprintf("id %d", i), fmt.Sprintf("C%d", i)))
		}
	case 8:
		for i := 0; i < n; i++ {
			add(ref.Plur("", fmt.Sprintf("id %d", i), fmt.Sprintf("ids %d", i), fmt.Sprintf("S%d", i), fmt.Sprintf("P%d", i)))
		}
	case 9:
		add(ref.Sing("", "id", strings.Join(lines, "\n")))
		add(ref.Sing("", "eol", strings.Join(append(lines, ""), "\n")))
	case 10:
		if n > 0 {
			add(ref.Sing("", strings.Join(lines, "\n"), "text"))
			add(ref.Plur("", strings.Join(append(lines, ""), "\n"), "ids\n", "F0\n", "F1"))
		}
	case 11:
		add(ref.Sing("", "id", "none", "x.go:1"))
		for i := 0; i < n; i++ {
			add(ref.Sing(fmt.Sprintf("c%d", i*7%1031), "id", fmt.Sprintf("C%d", i), "x.go:1"))
		}
	case 12:
		for i := 0; i < n; i++ {
			add(ref.Plur("", fmt.Sprintf("one %d", i), "many", fmt.Sprintf("S%d", i), fmt.Sprintf("P%d", i)))
		}
	}
	add(ref.Sing("", "after", "A", "z.go:9"))
	return d
}

func countKeys(d *ref.Doc) []Key {
	o := []Key{{"", "nope", "nopes"}, {"ctx", "after", "x"}}
	for i, e := range d.Ents {
		if len(d.Ents) > 40 && i%7 != 0 && i < len(d.Ents)-3 {
			continue
		}
		pl := e.Plural
		if pl == "" {
			pl = "caller"
		}
		o = append(o, Key{e.Ctx, e.ID, pl})
	}
	return o
}

const countBound = "0..66 and more, up to 1024, of one of 13 kinds of things (references, forms, headers, values of a header, contexts, entries, lines ...)"

// countSuite: any number of things of one kind, read from a file or (as far as edits go) edited again afterwards.
func countSuite(name string, kinds []string, f func(t *eng.T, h *H, c *ref.Cat, keys []Key, when string)) eng.Suite {
	r := []int{len(kinds), len(countDims), len(countNs), 2}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: countBound + fmt.Sprintf(", from a file and edited, for %v", kinds), Run: func(t *eng.T, i int64) {
		d := eng.Digits(i, r...)
		doc := countDoc(d[1], countNs[d[2]])
		h, c := New(kinds[d[0]]), ref.NewCat()
		opLoad("", doc).Do(h, c)
		if d[3] == 1 {
			for _, o := range []Op{opSet("id", "edited"), opSetRefs("before", "e.go:1", "e.go:2"), opSetC("id", "ctx", "edited in ctx"), opSetN("id 3", "ids 3", 1, "edited one"), opSetNC("id", "ids", "context 5", 2, "edited two")} {
				o.Do(h, c)
			}
			doc = &ref.Doc{Header: doc.Header, Ents: append(doc.Ents, ref.Plur("", "id", "ids"), ref.Plur("ctx", "id", "ids"), ref.Plur("", "id 3", "ids 3"), ref.Plur("context 5", "id", "ids"))}
		}
		t.State(fmt.Sprint(d))
		if countNs[d[2]] > 0 {
			t.Nontriv()
		}
		f(t, h, c, countKeys(doc), fmt.Sprintf("%s with %d %s, %s", kinds[d[0]], countNs[d[2]], countDims[d[1]], []string{"as read", "edited"}[d[3]]))
	}}
}

// countDocs: the documents themselves.
func countDocs(name string, ways int, f func(t *eng.T, d *ref.Doc, way int, when string)) eng.Suite {
	r := []int{len(countDims), len(countNs), ways}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: countBound, Run: func(t *eng.T, i int64) {
		d := eng.Digits(i, r...)
		t.State(fmt.Sprint(d))
		if countNs[d[1]] > 0 {
			t.Nontriv()
		}
		f(t, countDoc(d[0], countNs[d[1]]), d[2], fmt.Sprintf("%d %s", countNs[d[1]], countDims[d[0]]))
	}}
}

// countMerge: a text with n of something is loaded over one with m.
func countMerge(name string) eng.Suite {
	some := []int{0, 1, 2, 3, 5, 6, 7, 8, 9, 16, 17, 33}
	r := []int{2, len(countDims), len(some), len(some)}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("a text with one of %v of one of %d kinds of things over one with as many others", some, len(countDims)), Run: func(t *eng.T, i int64) {
		d := eng.Digits(i, r...)
		h, c := New(kinds[d[0]]), ref.NewCat()
		one, two := countDoc(d[1], some[d[2]]), countDoc(d[1], some[d[3]])
		opLoad("", one).Do(h, c)
		for k := range two.Ents {
			e := &two.Ents[k]
			e.Forms = append([]ref.Form(nil), e.Forms...)
			for j := range e.Forms {
				e.Forms[j].S += " again"
			}
		}
		opLoad("", two).Do(h, c)
		t.State(fmt.Sprint(d))
		t.Nontriv()
		when := fmt.Sprintf("%s with %d, then %d %s", h.Kind, some[d[2]], some[d[3]], countDims[d[1]])
		checkStored(t, when, h, c, true)
		Observe(t, when, h.A, c, countKeys(one), []int{1, 2}, Opt{Get: true, IsTr: true})
	}}
}
