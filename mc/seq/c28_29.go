package seq

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/leonelquinteros/gotext"

	"verif/eng"
	"verif/ref"
)

// mergeDocs overlap in many ways.
func mergeDocs() []*ref.Doc {
	return []*ref.Doc{docEn, docRu, docNoHead, docFr, docJa,
		{Header: []string{"X-Only: header"}},
		{Ents: []ref.Ent{ref.Plur("", "p", "new plural", "only one form"), ref.Sing("c", "p", "C p singular now"), ref.Sing("", "a", "", "r.go:5")}},
		{Header: hdr("ar", pfAr), Ents: []ref.Ent{{ID: "p", Plural: "ps", Forms: []ref.Form{{I: 5, S: "five"}, {I: 2, S: "two"}}}, {ID: "b", Plural: "bs", Forms: []ref.Form{{I: 0, S: "b0"}}}, ref.Sing("d", "a", "d a")}},
	}
}

// checkMerged compares content, headers and every lookup with the model.
func checkMerged(t *eng.T, when string, h *H, c *ref.Cat, refs bool) {
	checkStored(t, when, h, c, refs)
	Observe(t, when, h.A, c, histKeys, histNs[1:], Opt{Get: true, IsTr: true})
}

func checkStored(t *eng.T, when string, h *H, c *ref.Cat, refs bool) {
	Same(t, "merge-entries", when+": entries", Canon(h.D, refs, false), c.Canon(refs, false))
	Same(t, "merge-headers", when+": headers", ref.CanonHeaders(h.D.Headers), ref.CanonHeaders(c.Headers))
	if h.D.Language != c.Lang || h.D.PluralForms != c.PF {
		t.Failf("merge-headers", "%s: language %q, plural forms %q, want %q, %q", when, h.D.Language, h.D.PluralForms, c.Lang, c.PF)
	}
}

func mergeSuite(name string, depth int) eng.Suite {
	docs := mergeDocs()
	ls := []ref.Layout{{}, {Split: 1, Comments: 1, CRLF: true, NoFinalNL: true}, {Split: 2, Blank: 1, EntRev: true, Comments: 3}, {Indent: 1, PlurRev: true, RefLines: true, NoFinalNL: true, Comments: 2}}
	ms := []ref.MOLayout{{Sorted: true}, {Big: true, Order: 1, Hash: 3}, {Order: 2, Share: true, Minor: 1}, {Order: 3, Last: true, Big: true}}
	a := len(docs) * len(ls)
	n := eng.SeqCount(a, depth)
	return eng.Suite{Name: name, N: n * 2, Bound: fmt.Sprintf("all sequences of 1..%d texts, each one of %d catalogs in one of %d layouts, into a Po and a Mo", depth, len(docs), len(ls)),
		Run: func(t *eng.T, i int64) {
			kind := kinds[i%2]
			h, c := New(kind), ref.NewCat()
			var names []string
			for _, o := range eng.SeqAt(i/2, a) {
				d, l := docs[o%len(docs)], o/len(docs)
				if kind == "po" {
					h.P.Parse(ref.WritePO(d, ls[l]))
				} else {
					h.M.Parse(ref.WriteMO(d, ms[l]).Data)
					d = stripRefs(d)
				}
				c.Load(d)
				t.Step(1)
				names = append(names, fmt.Sprintf("catalog %d in layout %d", o%len(docs), l))
			}
			when := kind + " after " + strings.Join(names, ", ")
			t.State(kind + c.Canon(true, false) + ref.CanonHeaders(c.Headers))
			if len(names) > 1 {
				t.Nontriv()
			}
			if t.WantSample() && i > 3000 {
				t.Sample("%s", when)
			}
			checkMerged(t, when, h, c, true)
		}}
}

// then loads a good text after a first one and compares with the overlay of what the first alone gives.
func then(t *eng.T, when string, first []byte, second []byte, d2 *ref.Doc, mo bool, wantFirst *ref.Cat) {
	kind := "po"
	if mo {
		kind = "mo"
	}
	load := func(h *H, b []byte) {
		if mo {
			h.M.Parse(b)
		} else {
			h.P.Parse(b)
		}
	}
	alone := New(kind)
	load(alone, first)
	c := FromReal(alone.D)
	if wantFirst != nil {
		Same(t, "first", when+": the first alone", c.Canon(true, false), wantFirst.Canon(true, false))
	}
	h := New(kind)
	load(h, first)
	load(h, second)
	if mo {
		d2 = stripRefs(d2)
	}
	c.Load(d2)
	t.Step(3)
	t.State(c.Canon(true, false))
	t.Nontriv()
	checkStored(t, when, h, c, true)
	switch c.PF { // lookups only by rules of a known meaning
	case "", pfEn, pfRu, pfFr:
		Observe(t, when, h.A, c, histKeys, histNs[1:], Opt{Get: true, IsTr: true})
	}
}

type thenCase struct {
	when          string
	first, second []byte
	d2            *ref.Doc
	mo            bool
}

// openings precede the second text; alone they mean nothing.
var openings = []string{"", "\n", "\"continued\"\n", "\"\"\n\"x\\n\"\n", "# comment\n", "junk\n", "msgstr\n", "msgstr[1]\n", "\ufeff\n"}

func cutSuite(name string, cutStep int, edits bool) eng.Suite {
	var gen []func() thenCase
	firsts := []*ref.Doc{docEn, docRu, {Header: hdr("fr", pfFr), Ents: []ref.Ent{ref.Plur("c", "p", "ps", "q\"uote\\", "line\nline"), ref.Sing("", "a", "last")}}}
	seconds := []*ref.Doc{docRu, docNoHead, docFr}
	ls := []ref.Layout{{}, {Split: 1, RefLines: true}, {CRLF: true, Comments: 1, Blank: 1}, {Split: 2, Comments: 3, Indent: 2}}
	for fi, fd := range firsts {
		for li, l := range ls {
			text := ref.WritePO(fd, l)
			for cut := 0; cut <= len(text); cut += cutStep {
				for si, sd := range seconds {
					fi, li, cut, si, sd, text := fi, li, cut, si, sd, text
					op := openings[(cut+si)%len(openings)]
					l2 := ls[(cut/3+si+li)%len(ls)]
					gen = append(gen, func() thenCase {
						return thenCase{fmt.Sprintf("text %d in layout %d cut at %d, then %q and text %d", fi, li, cut, op, si), text[:cut], append([]byte(op), ref.WritePO(sd, l2)...), sd, false}
					})
				}
				if !edits {
					continue
				}
				for _, c := range []string{"", "\"", "\n", "\\", "#", "\x00"} {
					if cut == len(text) {
						continue
					}
					fi, li, cut, c, text := fi, li, cut, c, text
					gen = append(gen, func() thenCase {
						b := append(append(append([]byte(nil), text[:cut]...), c...), text[cut+1:]...)
						return thenCase{fmt.Sprintf("text %d in layout %d with byte %d replaced by %q, then text 1", fi, li, cut, c), b, ref.WritePO(docNoHead, ref.Layout{}), docNoHead, false}
					})
				}
			}
		}
		for li, l := range fewMO() {
			img := ref.WriteMO(fd, l)
			for cut := 0; cut <= len(img.Data); cut += cutStep {
				fi, li, cut, img := fi, li, cut, img
				gen = append(gen, func() thenCase {
					return thenCase{fmt.Sprintf("MO %d in layout %d cut at %d, then MO", fi, li, cut), img.Data[:cut], ref.WriteMO(docRu, ref.MOLayout{Big: cut%2 == 0}).Data, docRu, true}
				})
			}
			for _, f := range img.Fields {
				for _, v := range []uint32{0, 1, 0xffffffff, 0x7fffffff, uint32(len(img.Data))} {
					fi, li, f, v, img := fi, li, f, v, img
					if f == 20 || f == 24 {
						continue
					}
					gen = append(gen, func() thenCase {
						return thenCase{fmt.Sprintf("MO %d in layout %d with %d at %d, then MO", fi, li, v, f), withField(img.Data, f, v), ref.WriteMO(docFr, ref.MOLayout{Sorted: true}).Data, docFr, true}
					})
				}
			}
		}
	}
	return eng.Suite{Name: name, N: int64(len(gen)), Bound: fmt.Sprintf("%d first texts (PO in %d layouts, MO in %d) cut at every %d. byte%s, then a well-formed one with one of %d openings", len(firsts), len(ls), len(fewMO()), cutStep, map[bool]string{true: " and with every byte replaced by each of 6 strings", false: ""}[edits], len(openings)),
		Run: func(t *eng.T, i int64) {
			c := gen[i]()
			t.Tracef("%s", c.when)
			if t.WantSample() && i > 100 {
				t.Sample("%s", c.when)
			}
			then(t, c.when, c.first, c.second, c.d2, c.mo, nil)
		}}
}

// fileSuite: loading from files, existing or not, between parses.
func mergeFileSuite(name string, depth int) eng.Suite {
	docs := mergeDocs()[:4]
	type src struct {
		name string
		path string
		d    *ref.Doc
	}
	var once sync.Once
	var srcs map[string][]src
	prep := func() {
		srcs = map[string][]src{}
		dir := filepath.Join(Scratch(), fmt.Sprintf("c28-%d", os.Getpid()))
		for _, k := range kinds[:2] {
			var l []src
			for i, d := range docs {
				n := fmt.Sprintf("%d.%s", i, k)
				WriteFile(dir, n, fileBytes(n, d))
				l = append(l, src{"ParseFile " + n, filepath.Join(dir, n), d})
			}
			os.MkdirAll(filepath.Join(dir, "adir."+k), 0o755)
			WriteFile(dir, "empty."+k, nil)
			l = append(l, src{"ParseFile of a missing file", filepath.Join(dir, "missing."+k), nil}, src{"ParseFile of a directory", filepath.Join(dir, "adir."+k), nil}, src{"ParseFile of an empty file", filepath.Join(dir, "empty."+k), nil}, src{"ParseFile of an empty name", "", nil}, src{"Parse of nothing", "", &ref.Doc{}})
			srcs[k] = l
		}
	}
	a := len(docs) + 5
	n := eng.SeqCount(a, depth)
	return eng.Suite{Name: name, N: n * 2, Bound: fmt.Sprintf("all sequences of 1..%d loads of files: %d catalogs, a missing file, a directory, empty ones", depth, len(docs)),
		Run: func(t *eng.T, i int64) {
			once.Do(prep)
			kind := kinds[i%2]
			h, c := New(kind), ref.NewCat()
			var names []string
			for _, o := range eng.SeqAt(i/2, a) {
				s := srcs[kind][o]
				names = append(names, s.name)
				switch {
				case s.path == "" && s.d != nil:
					if h.P != nil {
						h.P.Parse(nil)
					} else {
						h.M.Parse(nil)
					}
				case h.P != nil:
					h.P.ParseFile(s.path)
				default:
					h.M.ParseFile(s.path)
				}
				if s.d != nil {
					d := s.d
					if kind == "mo" {
						d = stripRefs(d)
					}
					c.Load(d)
				}
				t.Step(1)
			}
			t.Nontriv()
			t.State(kind + c.Canon(true, false))
			checkMerged(t, kind+" after "+strings.Join(names, ", "), h, c, true)
		}}
}

// bigMergeSuite: catalogs of many entries over one another.
func bigMergeSuite(name string) eng.Suite {
	sizes := []int{1, 7, 8, 9, 64, 65, 257, 1025}
	r := []int{len(sizes), len(sizes), 4, 2}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("catalogs of %v entries over ones of %v with 4 overlaps", sizes, sizes), Run: func(t *eng.T, i int64) {
		d := eng.Digits(i, r...)
		mk := func(tag string, from, n int) *ref.Doc {
			x := &ref.Doc{Header: hdr("en", pfEn)}
			for k := from; k < from+n; k++ {
				ctx := []string{"", "c", "d"}[k%3]
				if k%4 == 0 {
					x.Ents = append(x.Ents, ref.Plur(ctx, fmt.Sprintf("m%d", k), "ms", fmt.Sprintf("%s one %d", tag, k), fmt.Sprintf("%s many %d", tag, k)))
				} else {
					x.Ents = append(x.Ents, ref.Sing(ctx, fmt.Sprintf("m%d", k), fmt.Sprintf("%s %d", tag, k), fmt.Sprintf("f.go:%d", k)))
				}
			}
			return x
		}
		n1, n2 := sizes[d[0]], sizes[d[1]]
		from := []int{0, n1 / 2, n1 - 1, n1}[d[2]]
		h, c := New(kinds[d[3]]), ref.NewCat()
		for _, x := range []*ref.Doc{mk("first", 0, n1), mk("second", from, n2)} {
			h.Load(x)
			if d[3] == 1 {
				x = stripRefs(x)
			}
			c.Load(x)
		}
		t.Nontriv()
		t.StateHash(uint64(i))
		CheckCat(t, fmt.Sprintf("%s: %d entries from 0, then %d from %d", kinds[d[3]], n1, n2, from), h, c, true, []int{1, 2})
	}}
}

// entryVariants are the ways one entry may be written.
func entryVariants(ctx, id, tag string, few bool) []ref.Ent {
	var out []ref.Ent
	for nr, refs := range [][]string{nil, {"r1.go:1"}, {"r2.go:2", "r3.go:3"}} {
		if few && nr == 1 {
			continue
		}
		for _, s := range []string{tag + " single", ""} {
			e := ref.Sing(ctx, id, s, refs...)
			out = append(out, e)
		}
		for np, pl := range []string{"ps", "other"} {
			for m := 1; m < 27; m++ { // every form absent, empty or a text
				if few && (np == 1 || m%3 == 1 || m/9 == 1) {
					continue
				}
				e := ref.Ent{Ctx: ctx, ID: id, Plural: pl, Refs: refs}
				for f, x := 0, m; f < 3; f, x = f+1, x/3 {
					switch x % 3 {
					case 1:
						e.Forms = append(e.Forms, ref.Form{I: f})
					case 2:
						e.Forms = append(e.Forms, ref.Form{I: f, S: fmt.Sprintf("%s form %d", tag, f)})
					}
				}
				out = append(out, e)
			}
		}
	}
	return out
}

// transitionSuite: one entry, written in every way, replaced by the same entry written in every other way.
func transitionSuite(name string, times int) eng.Suite {
	var vs [3][]ref.Ent
	nv := 0
	place := func(ctx, id string, k int) []ref.Ent {
		return entryVariants(ctx, id, []string{"first", "second", "third"}[k], times > 2)
	}
	for k := range vs {
		vs[k] = place("", "e", k)
		nv = len(vs[k])
	}
	n := int64(1)
	for k := 0; k < times; k++ {
		n *= int64(nv)
	}
	r := []int{2, 2, 2}
	return eng.Suite{Name: name, N: n * eng.Prod(r...), Bound: fmt.Sprintf("all sequences of %d texts which write one entry in any of %d ways (references, plural id, every form absent, empty or given), with and without context, alone and as a new header's neighbour, into a Po and a Mo", times, nv),
		Run: func(t *eng.T, i int64) {
			d := eng.Digits(i%eng.Prod(r...), r...)
			i /= eng.Prod(r...)
			kind := kinds[d[0]]
			ctx := []string{"", "c"}[d[1]]
			h, c := New(kind), ref.NewCat()
			var names []string
			for k := 0; k < times; k++ {
				e := vs[k][i%int64(nv)]
				i /= int64(nv)
				e.Ctx = ctx
				doc := &ref.Doc{Ents: []ref.Ent{e}}
				if d[2] == 1 {
					doc.Header = hdr("ru", pfRu)
					doc.Ents = append(doc.Ents, ref.Sing("c", "n", fmt.Sprint("neighbour ", k), fmt.Sprintf("n.go:%d", k)))
				}
				h.Load(doc)
				if kind == "mo" {
					doc = stripRefs(doc)
				}
				c.Load(doc)
				t.Step(1)
				names = append(names, fmt.Sprintf("%+v", e))
			}
			when := kind + " after " + strings.Join(names, ", then ")
			t.State(kind + c.Canon(true, false))
			t.Nontriv()
			checkStored(t, when, h, c, true)
			Observe(t, when, h.A, c, []Key{{ctx, "e", "caller"}}, []int{1, 2, 5}, Opt{Get: true, IsTr: true})
		}}
}

func init() {
	eng.Register(&eng.Prop{ID: "C28", Level: "model_checking",
		Rule:   "sequences of texts are loaded into one object; its entries, headers, plural rule and lookups must be those of the overlay of the texts (for a cut or damaged text: of what it gives alone)",
		Assume: []string{"headers a later text does not state keep their values"},
		Suites: func(tier string) []eng.Suite {
			return []eng.Suite{mergeSuite("sequences", tierInt(tier, 3, 4)),
				watchedSuite("edits between", tierInt(tier, 3, 4), mergeOps(), kinds[:2], nil, func(t *eng.T, h *H, c *ref.Cat, when string) {
					checkStored(t, when, h, c, true)
					Observe(t, when, h.A, c, mergeKeys, watchNs, Opt{Get: true, IsTr: true})
				}), cutSuite("cuts", 1, true), mergeFileSuite("files", tierInt(tier, 4, 5)), bigMergeSuite("big"), transitionSuite("transitions", 2), transitionSuite("longer transitions", 3), mergeShapes("shapes", tierInt(tier, 5, 7)), countMerge("counts")}
		}})
}

// ---- C29

// pairSys is two objects used in turn, with their models.
type pairSys struct {
	h   [2]*H
	c   [2]*ref.Cat
	buf []byte // shared by all parses, overwritten after each
}

type pairOp struct {
	name string
	do   func(s *pairSys, k int)
}

func loadVia(s *pairSys, k int, d *ref.Doc) {
	h := s.h[k]
	if h.Kind == "dom" {
		opLoad("", d).Do(h, s.c[k])
		return
	}
	b := fileBytes("x."+h.Kind, d)
	s.buf = append(s.buf[:0], b...)
	if h.P != nil {
		h.P.Parse(s.buf)
	} else {
		h.M.Parse(s.buf)
		d = stripRefs(d)
	}
	full := s.buf[:cap(s.buf)]
	for i := range full {
		full[i] = 'Z'
	}
	s.c[k].Load(d)
}

func pairOps() []pairOp {
	hop := func(o Op) pairOp {
		return pairOp{o.Name, func(s *pairSys, k int) { o.Do(s.h[k], s.c[k]) }}
	}
	load := func(n string, d *ref.Doc) pairOp {
		return pairOp{"Parse(shared buffer, " + n + ")", func(s *pairSys, k int) { loadVia(s, k, d) }}
	}
	return []pairOp{
		load("en", docEn), load("ru", docRu), load("nohead", docNoHead), load("template", docTemplate), hop(opSet("u", "U set")),
		hop(opSet("a", "A set")), hop(opSetNC("p", "ps", "c", 1, "CP one")), hop(opSetC("a", "c", "A set in c")), hop(opSetRefs("a", "z.go:9")), hop(opDrop), hop(opReadAll),
		{"UnmarshalBinary(export of the other)", func(s *pairSys, k int) {
			b, err := s.h[1-k].A.MarshalBinary()
			if err != nil {
				panic(err)
			}
			if err := s.h[k].A.UnmarshalBinary(b); err != nil {
				panic(err)
			}
			for i := range b {
				b[i] = 0x55
			}
			r := s.c[k].Resolver
			*s.c[k] = *s.c[1-k].Clone()
			s.c[k].Resolver = r
			for _, e := range s.c[k].M {
				e.Dirty = false
			}
		}},
		{"damage snapshots", func(s *pairSys, k int) {
			for _, tr := range s.h[k].D.GetTranslations() {
				tr.Trs[0] = "scribbled"
				tr.ID = "scribbled"
				for i := range tr.Refs {
					tr.Refs[i] = "scribbled"
				}
			}
			for _, m := range s.h[k].D.GetCtxTranslations() {
				for id, tr := range m {
					tr.Trs[1] = "scribbled"
					delete(m, id)
				}
			}
		}},
		{"damage exports", func(s *pairSys, k int) {
			b := s.h[k].Text()
			for i := range b {
				b[i] = 'X'
			}
			b = s.h[k].A.Append(make([]byte, 2, 64), "a")
			for i := range b {
				b[i] = 'X'
			}
		}},
	}
}

var pairKinds = [][2]string{{"po", "po"}, {"po", "mo"}, {"mo", "mo"}, {"dom", "po"}}

func twoObjects(name string, depth int) eng.Suite {
	ops := pairOps()
	a := len(ops) * 2
	n := eng.SeqCount(a, depth)
	return eng.Suite{Name: name, N: n * int64(len(pairKinds)), Bound: fmt.Sprintf("all interleaved histories of 1..%d operations over an alphabet of %d on two objects, for %v", depth, len(ops), pairKinds),
		Run: func(t *eng.T, i int64) {
			pk := pairKinds[i%int64(len(pairKinds))]
			s := &pairSys{}
			for k := range s.h {
				s.h[k], s.c[k] = New(pk[k]), ref.NewCat()
			}
			var names []string
			for _, o := range eng.SeqAt(i/int64(len(pairKinds)), a) {
				op := ops[o/2]
				names = append(names, fmt.Sprintf("%s%d.%s", pk[o%2], o%2, op.name))
				t.Tracef("%s", names[len(names)-1])
				op.do(s, o%2)
				t.Step(1)
			}
			when := "after " + strings.Join(names, " ")
			t.State(fmt.Sprint(pk) + s.c[0].Canon(true, true) + "\x00" + s.c[1].Canon(true, true))
			if len(s.c[0].M) > 0 && len(s.c[1].M) > 0 {
				t.Nontriv()
			}
			if t.WantSample() && i > 5000 {
				t.Sample("%s", when)
			}
			for k := range s.h {
				w := fmt.Sprintf("%s: object %d", when, k)
				Same(t, "independent-entries", w+": entries", Canon(s.h[k].D, true, false), s.c[k].Canon(true, false))
				Same(t, "independent-headers", w+": headers", ref.CanonHeaders(s.h[k].D.Headers), ref.CanonHeaders(s.c[k].Headers))
				Observe(t, w, s.h[k].A, s.c[k], mergeKeys[:9], []int{1, 2, 5}, Opt{Get: true})
			}
		}}
}

// manyObjects: a number of objects made in any interleaving behave as alone.
func manyObjects(name string, n int) eng.Suite {
	docs := []*ref.Doc{docEn, docRu, docFr, docJa, docAr, docNoHead}
	r := make([]int, 0, n)
	for i := 0; i < n; i++ {
		r = append(r, len(docs)*2)
	}
	return eng.Suite{Name: name, N: eng.Prod(r...) * 3, Bound: fmt.Sprintf("%d objects, each a Po or Mo with any of %d catalogs, created and loaded in 3 orders", n, len(docs)),
		Run: func(t *eng.T, i int64) {
			order := i % 3
			d := eng.Digits(i/3, r...)
			s := make([]*pairSys, n)
			var buf []byte
			mk := func(k int) {
				s[k] = &pairSys{buf: buf}
				s[k].h[0], s[k].c[0] = New(kinds[d[k]%2]), ref.NewCat()
			}
			ld := func(k int) { s[k].buf = buf; loadVia(s[k], 0, docs[d[k]/2]); buf = s[k].buf }
			switch order {
			case 0:
				for k := range s {
					mk(k)
					ld(k)
				}
			case 1:
				for k := range s {
					mk(k)
				}
				for k := range s {
					ld(n - 1 - k)
				}
			case 2:
				for k := range s {
					mk(k)
					if k > 0 {
						ld(k - 1)
					}
				}
				ld(n - 1)
			}
			t.Nontriv()
			t.State(fmt.Sprint(order, d))
			for k := range s {
				checkMerged(t, fmt.Sprintf("objects %v in order %d: object %d", d, order, k), s[k].h[0], s[k].c[0], true)
			}
		}}
}

// two Locales over the same files, and one given the export of the other
func twoLocales(name string, depth int) eng.Suite {
	var ops []LocOp
	for _, o := range locOps() {
		if !strings.Contains(o.Name, "file") {
			ops = append(ops, o)
		}
	}
	a := (len(ops) + 1) * 2
	return eng.Suite{Name: name, N: eng.SeqCount(a, depth), Bound: fmt.Sprintf("all interleaved histories of 1..%d operations over an alphabet of %d on two Locales", depth, len(ops)+1),
		Run: func(t *eng.T, i int64) {
			s := [2]*LocSys{newLocSys(libA, "de_AT"), newLocSys(libA, "de")}
			s[1].FS = s[0].FS
			s[1].L = gotext.NewLocaleFS("de", s[0].FS)
			var names []string
			for _, o := range eng.SeqAt(i, a) {
				k := o % 2
				if o/2 == len(ops) {
					b, err := s[1-k].L.MarshalBinary()
					if err != nil {
						t.Failf("export", "%v", err)
					}
					if err := s[k].L.UnmarshalBinary(b); err != nil {
						t.Failf("import", "%v", err)
					}
					for j := range b {
						b[j] = 0
					}
					lib := s[k].M.lib
					s[k].M = s[1-k].M.clone()
					s[k].M.lib = lib
					s[k].Tr = map[string]*H{}
					names = append(names, fmt.Sprintf("%d.UnmarshalBinary(export of %d)", k, 1-k))
					// the path is serialised as well, both are at the root of the same fs
				} else {
					ops[o/2].Do(s[k])
					names = append(names, fmt.Sprintf("%d.%s", k, ops[o/2].Name))
				}
				t.Step(1)
			}
			when := "after " + strings.Join(names, " ")
			t.State(s[0].M.String() + "\x00" + s[1].M.String())
			if len(s[0].M.doms) > 0 && len(s[1].M.doms) > 0 {
				t.Nontriv()
			}
			for k := range s {
				checkLoc(t, fmt.Sprintf("%s: Locale %d", when, k), s[k], false)
			}
		}}
}

// sameTranslator: one translator in two Locales and domains is one catalog; a Locale's own reload does not touch others.
func sharedFS(name string) eng.Suite {
	var files []string
	for f := range libA {
		files = append(files, f)
	}
	sort.Strings(files)
	langs := []string{"de", "de_AT", "fr", "ru", "en_US", "ja"}
	r := []int{len(langs), len(langs), len(langs), 8}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: "three Locales of any 3 of 6 languages on one library, domains added in 8 interleavings",
		Run: func(t *eng.T, i int64) {
			d := eng.Digits(i, r...)
			var s [3]*LocSys
			fs := libA.mapFS("")
			for k := range s {
				s[k] = newLocSys(libA, langs[d[k]])
				s[k].L = gotext.NewLocaleFS(langs[d[k]], fs)
			}
			for j := 0; j < 6; j++ {
				x := (j*[]int{1, 5}[d[3]&1] + d[3]>>1) % 6
				lopAdd([]string{"d1", "d2"}[x/3]).Do(s[x%3])
			}
			t.Nontriv()
			t.State(fmt.Sprint(d))
			for k := range s {
				checkLoc(t, fmt.Sprintf("case %v: Locale %d", d, k), s[k], false)
			}
		}}
}

func init() {
	eng.Register(&eng.Prop{ID: "C29", Level: "model_checking",
		Rule:   "histories on several objects are interleaved in every way, sharing input buffers which are overwritten after each call; every object must be as its own model says",
		Assume: []string{"one translator object added to several Locales is shared on purpose", "slices given to SetRefs belong to the object"},
		Suites: func(tier string) []eng.Suite {
			return []eng.Suite{twoObjects("pairs", tierInt(tier, 3, 4)), manyObjects("many", tierInt(tier, 4, 5)), twinSuite("twins"), commentObjects("comments"), twoLocales("locales", tierInt(tier, 3, 4)), sharedFS("shared-library")}
		}})
}
