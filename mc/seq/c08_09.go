package seq

import (
	"encoding/binary"
	"fmt"
	"runtime"
	"strings"

	"verif/eng"
	"verif/ref"
)

var moRadix = []int{2, 2, 2, 2, 4, 2, 4, 2}

func moLayout(i int64) ref.MOLayout {
	d := eng.Digits(i, moRadix...)
	return ref.MOLayout{Big: d[0] == 1, Minor: uint16(d[1]), Major: uint16(d[2]), Hash: d[3] * 7, Order: d[4], Sorted: d[5] == 0, Share: d[6] == 1, Pack: max(0, d[6]-1), Last: d[7] == 1}
}

func fewMO() []ref.MOLayout {
	return []ref.MOLayout{{Sorted: true}, {Big: true, Sorted: true, Hash: 5}, {Order: 1, Big: true}, {Order: 2, Share: true, Minor: 1}, {Order: 3, Last: true, Big: true, Sorted: true}, {Order: 1, Pack: 2, Minor: 1}}
}

// moDocs are representable in MO.
func moDocs() []*ref.Doc {
	ds := append(c06Docs(), docEn, docRu, docNoHead, docFr, docJa, docAr, docBadPF,
		&ref.Doc{Header: []string{"Language: aa", "X-One: 1", "X-Two: a:b:c", "X-One: 2", "x-lower: l"}, Ents: []ref.Ent{ref.Sing("", "x", "X"), ref.Sing("", "y", "X"), ref.Sing("X", "x", "X")}},
		&ref.Doc{Header: []string{}, Ents: []ref.Ent{ref.Sing("", "x", "X")}},
		&ref.Doc{Header: []string{"Plural-Forms: " + pfAr}},
	)
	return ds
}

// sameAsPO parses both forms and compares everything but references.
func sameAsPO(t *eng.T, when string, d *ref.Doc, data []byte, ns []int) {
	m, p := New("mo"), New("po")
	m.M.Parse(data)
	p.P.Parse(ref.WritePO(d, ref.Layout{}))
	t.Step(2)
	Same(t, "mo-po", when+": MO against PO", Full(m, false, false), Full(p, false, false))
	c := ref.NewCat()
	c.Load(d)
	CheckCat(t, when, m, c, false, ns)
	for _, e := range d.Ents {
		for _, n := range ns {
			pl := e.Plural
			if pl == "" {
				pl = "caller"
			}
			var a, b string
			if e.Ctx == "" {
				a, b = m.A.GetN(e.ID, pl, n), p.A.GetN(e.ID, pl, n)
			} else {
				a, b = m.A.GetNC(e.ID, pl, n, e.Ctx), p.A.GetNC(e.ID, pl, n, e.Ctx)
			}
			if a != b {
				t.Failf("mo-po-lookup", "%s: ctx=%q id=%q n=%d: MO serves %s, PO %s", when, e.Ctx, e.ID, n, q(a), q(b))
			}
			for _, k := range []string{"IsTranslated"} {
				_ = k
				if e.Ctx == "" && m.A.IsTranslatedN(e.ID, n) != p.A.IsTranslatedN(e.ID, n) || e.Ctx != "" && m.A.IsTranslatedNC(e.ID, n, e.Ctx) != p.A.IsTranslatedNC(e.ID, n, e.Ctx) {
					t.Failf("mo-po-istr", "%s: ctx=%q id=%q n=%d: IsTranslated differs", when, e.Ctx, e.ID, n)
				}
			}
		}
	}
	mh, ml, mp := m.Public()
	ph, pl, pp := p.Public()
	if ref.CanonHeaders(mh) != ref.CanonHeaders(ph) || ml != pl || mp != pp {
		t.Failf("mo-po-fields", "%s: public fields differ: %v %q %q against %v %q %q", when, mh, ml, mp, ph, pl, pp)
	}
}

func init() {
	eng.Register(&eng.Prop{ID: "C08", Level: "model_checking",
		Rule:   "documents are written as MO in every layout of the layout space and as PO by a reference writer; entries, headers, rule, lookups and public fields of both parsers are compared with each other and with the document",
		Assume: []string{"ids and contexts contain neither NUL nor EOT", "the strings of a file, which may share storage, are together not longer than 64 times the file"},
		Suites: func(tier string) []eng.Suite {
			docs := moDocs()
			nl := eng.Prod(moRadix...)
			fm := fewMO()
			return []eng.Suite{
				{Name: "layouts", N: nl * int64(len(docs)), Bound: fmt.Sprintf("%d documents x all %d layouts (byte order, revision, hash table, table placement, sorting, equal strings shared, strings stored within others, header position)", len(docs), nl),
					Run: func(t *eng.T, i int64) {
						d := docs[i%int64(len(docs))]
						l := moLayout(i / int64(len(docs)))
						img := ref.WriteMO(d, l)
						t.StateHash(eng.Hash(string(img.Data)))
						t.Nontriv()
						if t.WantSample() {
							t.Sample("document %d as %+v: %q", i%int64(len(docs)), l, img.Data)
						}
						sameAsPO(t, fmt.Sprintf("document %d as %+v", i%int64(len(docs)), l), d, img.Data, bigNs)
					}},
				{Name: "values", N: int64(len(Values) * len(Values) * 5 * len(fm)), Bound: fmt.Sprintf("%d^2 pairs of special values in 5 pairs of positions x %d layouts", len(Values), len(fm)),
					Run: func(t *eng.T, i int64) {
						g := eng.Digits(i, len(Values), len(Values), 5, len(fm))
						a := [5]string{"ctx", "id", "plural", "f0", "f1"}
						a[g[2]] = Values[g[0]]
						a[(g[2]+1)%5] = Values[g[1]]
						d := &ref.Doc{Header: hdr("en", pfEn), Ents: []ref.Ent{ref.Sing("", "before", "B"), ref.Plur(a[0], a[1], a[2], a[3], a[4]), ref.Sing(a[0], a[1]+".", a[3]), ref.Sing("", a[1]+"..", a[4]), ref.Plur("", a[1]+"!", a[2], a[4], a[3]), ref.Sing("", "zafter", "A")}}
						img := ref.WriteMO(d, fm[g[3]])
						t.StateHash(eng.Hash(string(img.Data)))
						t.Nontriv()
						sameAsPO(t, fmt.Sprintf("ctx=%q id=%q plural=%q f0=%q f1=%q as %+v", a[0], a[1], a[2], a[3], a[4], fm[g[3]]), d, img.Data, []int{1, 2})
					}},
				{Name: "sizes", N: int64(len(Sizes) * 5 * len(fm)), Bound: fmt.Sprintf("strings of %v bytes in 5 positions", Sizes),
					Run: func(t *eng.T, i int64) {
						g := eng.Digits(i, len(Sizes), 5, len(fm))
						a := [5]string{"ctx", "id", "plural", "f0", "f1"}
						a[g[1]] = validUTF8(rep("abcdefgh \"é\\\n", Sizes[g[0]]-1) + "x")
						d := &ref.Doc{Header: hdr("en", pfEn), Ents: []ref.Ent{ref.Sing("", "before", "B"), ref.Plur(a[0], a[1], a[2], a[3], a[4]), ref.Sing(a[0], a[1]+".", a[3]), ref.Sing("", "zafter", "A")}}
						t.State(fmt.Sprint(g))
						t.Nontriv()
						sameAsPO(t, fmt.Sprintf("%d bytes in position %d as %+v", Sizes[g[0]], g[1], fm[g[2]]), d, ref.WriteMO(d, fm[g[2]]).Data, []int{1, 2})
					}},
				{Name: "gaps", N: int64(7 * 7 * 7 * 4 * 3 * 2 * len(fm)), Bound: "0..6 unused bytes after the header, before the second table and before the third part, 0..3 between strings, 0, 1 or 64 at the end, 2 documents in every table order",
					Run: func(t *eng.T, i int64) {
						g := eng.Digits(i, 7, 7, 7, 4, 3, 2, len(fm))
						l := fm[g[6]]
						l.Gap = [5]int{g[0], g[1], g[2], g[3], []int{0, 1, 64}[g[4]]}
						d := []*ref.Doc{{Ents: []ref.Ent{ref.Sing("", "a", "b")}}, {Header: hdr("ru", pfRu), Ents: []ref.Ent{ref.Sing("", "before", "B"), ref.Plur("c", "i", "is", "F0", "F1", ""), ref.Sing("c", "x", ""), ref.Sing("", "zafter", "é")}}}[g[5]]
						img := ref.WriteMO(d, l)
						t.StateHash(eng.Hash(string(img.Data)))
						t.Nontriv()
						sameAsPO(t, fmt.Sprintf("document %d as %+v", g[5], l), d, img.Data, []int{1, 2})
					}},
				countDocs("counts", len(fm), func(t *eng.T, d *ref.Doc, way int, when string) {
					sameAsPO(t, when, d, ref.WriteMO(d, fm[way]).Data, []int{1, 2})
				}),
				{Name: "scale", N: int64(len(scaleNs) * len(fm)), Bound: fmt.Sprintf("documents of %v entries", scaleNs),
					Run: func(t *eng.T, i int64) {
						d := scaleDoc(scaleNs[i/int64(len(fm))])
						l := fm[i%int64(len(fm))]
						t.State(fmt.Sprint(i))
						t.Nontriv()
						sameAsPO(t, fmt.Sprintf("%d entries as %+v", len(d.Ents), l), stripRefs(d), ref.WriteMO(d, l).Data, []int{1, 3})
					}},
				{Name: "shapes", N: eng.Prod(append([]int{len(fm)}, shapeRadix...)...), Bound: fmt.Sprintf("every subset of %d kinds of entries under %d kinds of header x %d layouts", len(shapeParts), len(shapeHeads), len(fm)),
					Run: func(t *eng.T, i int64) {
						g := eng.Digits(i, append([]int{len(fm)}, shapeRadix...)...)
						d, _, when := shapeDoc(g[1:])
						if g[1]&0x80 != 0 { // kinds made by edits: with plural forms in the text instead
							d.Ents = append(d.Ents, ref.Plur("c", "x", "xs", "", "X1"))
						}
						if g[1]&0x100 != 0 {
							d.Ents = append(d.Ents, ref.Plur("", "y", "ys", "", ""))
						}
						if g[1]&0x200 != 0 {
							d.Ents = append(d.Ents, ref.Plur("a", "a", "as", "ACA"))
						}
						img := ref.WriteMO(stripRefs(d), fm[g[0]])
						t.StateHash(eng.Hash(string(img.Data)))
						t.Nontriv()
						sameAsPO(t, fmt.Sprintf("%s as %+v", when, fm[g[0]]), stripRefs(d), img.Data, []int{1, 2, 5})
					}},
				{Name: "rules", N: int64(len(ref.RealRules) * len(fm)), Bound: fmt.Sprintf("%d plural rules, forms at %d numbers", len(ref.RealRules), len(evalNs)),
					Run: func(t *eng.T, i int64) {
						rule := ref.RealRules[i/int64(len(fm))]
						d := &ref.Doc{Header: hdr("zz", "nplurals=6; plural="+rule+";"), Ents: []ref.Ent{sixForms("", "i"), sixForms("c", "i")}}
						var ns []int
						for _, n := range evalNs {
							ns = append(ns, int(n))
						}
						t.State(rule)
						t.Nontriv()
						sameAsPO(t, "rule "+rule, d, ref.WriteMO(d, fm[i%int64(len(fm))]).Data, ns)
					}},
			}
		}})
	eng.Register(&eng.Prop{ID: "C09", Level: "fault_enumeration", MemLimitMB: 6000, HangSec: 30,
		Rule:   "every truncation, every 32-bit field set to every boundary value (and pairs of fields), every byte changed: an independent reader of the format says whether the tables and strings lie inside the file; if not the object must stay as it was, if so it must hold the entries; allocation is measured",
		Assume: []string{"an empty string located exactly at the end of the file may count as inside or outside"},
		Suites: func(tier string) []eng.Suite {
			bases := moBases()
			var tr, fl, fl2, by int64
			for _, b := range bases {
				tr += int64(len(b.Data) + 1)
				fl += int64(len(b.Fields))
				by += int64(len(b.Data))
				fl2 += int64(len(b.Fields)) * int64(len(b.Fields))
			}
			locate := func(i int64, size func(b *ref.MOImage) int64) (*ref.MOImage, int64) {
				for _, b := range bases {
					if i < size(b) {
						return b, i
					}
					i -= size(b)
				}
				panic("index")
			}
			return []eng.Suite{
				{Name: "truncations", N: tr, Bound: fmt.Sprintf("every length of %d files", len(bases)), Run: func(t *eng.T, i int64) {
					b, k := locate(i, func(b *ref.MOImage) int64 { return int64(len(b.Data) + 1) })
					checkMO(t, fmt.Sprintf("file of %d bytes cut at %d", len(b.Data), k), b.Data[:k:k])
				}},
				{Name: "fields", N: fl, Bound: "every 32-bit field of header and tables set to every boundary value", Run: func(t *eng.T, i int64) {
					b, k := locate(i, func(b *ref.MOImage) int64 { return int64(len(b.Fields)) })
					for _, v := range fieldValues(b, b.Fields[k]) {
						checkMO(t, fmt.Sprintf("word at %d = %#x", b.Fields[k], v), withField(b.Data, b.Fields[k], v))
					}
				}},
				overlapSuite("overlaps"),
				{Name: "field-pairs", N: fl2, Bound: "every pair of fields set to every pair of 12 boundary values", Run: func(t *eng.T, i int64) {
					b, k := locate(i, func(b *ref.MOImage) int64 { return int64(len(b.Fields)) * int64(len(b.Fields)) })
					f, g := b.Fields[k/int64(len(b.Fields))], b.Fields[k%int64(len(b.Fields))]
					if f >= g || (tier == "quick" && len(b.Data) > 400) {
						return
					}
					n := uint32(len(b.Data))
					vs := []uint32{0, 1, n - 1, n, n + 1, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff8, 0x20000000, 0x10000000}
					for _, v := range vs {
						d := withField(b.Data, f, v)
						for _, w := range vs {
							checkMO(t, fmt.Sprintf("words at %d, %d = %#x, %#x", f, g, v, w), withField(d, g, w))
						}
					}
				}},
				{Name: "bytes", N: by, Bound: "every byte set to 0, 0xff, 0x80, xor 1, xor 0x10, +1, -1, EOT and NUL", Run: func(t *eng.T, i int64) {
					b, k := locate(i, func(b *ref.MOImage) int64 { return int64(len(b.Data)) })
					o := b.Data[k]
					for _, v := range []byte{0, 0xff, 0x80, o ^ 1, o ^ 0x10, o + 1, o - 1, 4, '\n'} {
						d := append([]byte(nil), b.Data...)
						d[k] = v
						checkMO(t, fmt.Sprintf("byte %d = %#x", k, v), d)
					}
				}},
				{Name: "extended", N: int64(len(bases) * 40), Bound: "files followed by 1..40 extra bytes", Run: func(t *eng.T, i int64) {
					b := bases[i/40]
					checkMO(t, "trailing bytes", append(append([]byte(nil), b.Data...), rep("\xee\x00", int(i%40)+1)...))
				}},
				{Name: "short-strings", N: 65536, Bound: "magic (both orders) followed by 7 words out of 16 values, all small headers", Run: func(t *eng.T, i int64) {
					var bo binary.ByteOrder = binary.LittleEndian
					if i&1 == 1 {
						bo = binary.BigEndian
					}
					d := make([]byte, 28+8+8*(i>>13&3))
					bo.PutUint32(d, 0x950412de)
					vals := []uint32{0, 1, 2, 28, 36, 0x7fffffff, 0x80000000, 0xffffffff}
					bo.PutUint32(d[8:], vals[i>>1&7])
					bo.PutUint32(d[12:], vals[i>>4&7])
					bo.PutUint32(d[16:], vals[i>>7&7])
					bo.PutUint32(d[28:], vals[i>>10&7])
					bo.PutUint32(d[32:], vals[(i>>10&7+i>>15)&7])
					checkMO(t, fmt.Sprintf("header %x", d), d)
				}},
				{Name: "tiny", N: 1 + 256 + 65536, Bound: "all files of up to 2 bytes", Run: func(t *eng.T, i int64) {
					switch {
					case i == 0:
						checkMO(t, "empty", nil)
					case i <= 256:
						checkMO(t, "1 byte", []byte{byte(i - 1)})
					default:
						checkMO(t, "2 bytes", []byte{byte((i - 257) >> 8), byte(i - 257)})
					}
				}},
			}
		}})
}

func moBases() []*ref.MOImage {
	docs := []*ref.Doc{
		{Header: hdr("ru", pfRu), Ents: []ref.Ent{ref.Sing("", "a", "A new"), ref.Plur("c", "p", "ps", "x0", "x1", "x2")}},
		{Header: hdr("fr", pfFr, "X-Note: n"), Ents: []ref.Ent{ref.Sing("", "keep", "changed"), ref.Sing("c", "keep", "changed in c"), ref.Plur("", "p", "ps", "y0", "y1"), ref.Sing("", "long", rep("text ", 300))}},
		{Ents: []ref.Ent{ref.Sing("", "only", "")}},
	}
	var out []*ref.MOImage
	for _, d := range docs {
		for _, l := range []ref.MOLayout{{Sorted: true}, {Big: true, Sorted: true}, {Order: 1, Hash: 3}, {Order: 2, Big: true}, {Order: 3, Last: true}} {
			out = append(out, ref.WriteMO(d, l))
		}
	}
	return out
}

func order(d []byte) binary.ByteOrder {
	if len(d) >= 4 && binary.BigEndian.Uint32(d) == 0x950412de {
		return binary.BigEndian
	}
	return binary.LittleEndian
}

func withField(d []byte, at int, v uint32) []byte {
	e := append([]byte(nil), d...)
	order(d).PutUint32(e[at:], v)
	return e
}

func fieldValues(b *ref.MOImage, at int) []uint32 {
	n := uint32(len(b.Data))
	o := order(b.Data).Uint32(b.Data[at:])
	return []uint32{0, 1, 2, 3, 4, o - 1, o + 1, o + 4, o * 2, o ^ 0x80000000, o << 8, o << 16, o << 24, n - 8, n - 4, n - 2, n - 1, n, n + 1, n * 2, 28, 100, 0xff, 0xffff, 0x10000, 0x00ffffff, 0x01000000, 0x0fffffff, 0x10000000, 0x1fffffff, 0x20000000, 0x20000001, 0x3fffffff, 0x40000000, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xc0000000, 0xdfffffff, 0xe0000000, 0xfffffff0, 0xfffffff7, 0xfffffff8, 0xfffffffc, 0xfffffffe, 0xffffffff, 0xffffffff - n, 0xffffffff - n + 1, 0xffffffff - n + 2}
}

// readMO is an independent reader: ok when all tables and strings lie inside the file; edge when an empty
// string sits exactly at the end.
func readMO(d []byte) (doc *ref.Doc, ok, edge bool) {
	if len(d) < 28 {
		return nil, false, false
	}
	bo := order(d)
	if bo.Uint32(d) != 0x950412de {
		return nil, false, false
	}
	if bo.Uint16(d[4:]) > 1 || bo.Uint16(d[6:]) > 1 {
		return nil, false, false
	}
	n, a, b := uint64(bo.Uint32(d[8:])), uint64(bo.Uint32(d[12:])), uint64(bo.Uint32(d[16:]))
	size := uint64(len(d))
	if a+8*n > size || b+8*n > size {
		return nil, false, false
	}
	doc = &ref.Doc{}
	str := func(tab, i uint64) (string, bool) {
		l, o := uint64(bo.Uint32(d[tab+8*i:])), uint64(bo.Uint32(d[tab+8*i+4:]))
		if o+l > size {
			return "", false
		}
		if o == size {
			edge = true
		}
		return string(d[o : o+l]), true
	}
	for i := uint64(0); i < n; i++ {
		id, k1 := str(a, i)
		s, k2 := str(b, i)
		if !k1 || !k2 {
			return nil, false, edge
		}
		e := ref.Ent{}
		if strings.Contains(id, "\x04") {
			p := strings.Split(id, "\x04")
			e.Ctx, id = p[0], p[1]
		}
		e.ID, e.Plural, _ = strings.Cut(id, "\x00")
		for j, f := range strings.Split(s, "\x00") {
			e.Forms = append(e.Forms, ref.Form{I: j, S: f})
		}
		if e.ID == "" && e.Ctx == "" {
			doc.Header = strings.Split(e.Forms[0].S, "\n")
			continue
		}
		doc.Ents = append(doc.Ents, e)
	}
	return doc, true, edge
}

var memA, memB runtime.MemStats

func checkMO(t *eng.T, when string, data []byte) {
	h := New("mo")
	before := &ref.Doc{Header: hdr("en", pfEn, "X-Old: old"), Ents: []ref.Ent{ref.Sing("", "keep", "KEPT"), ref.Sing("c", "keep", "KEPT in c"), ref.Plur("", "p", "ps", "K0", "K1")}}
	h.Load(before)
	was := Full(h, true, true)
	doc, ok, edge := readMO(data)
	keep := string(data)
	runtime.ReadMemStats(&memA)
	h.M.Parse(data)
	runtime.ReadMemStats(&memB)
	t.Step(1)
	t.Execs++
	t.StateHash(eng.Hash(keep))
	alloc := memB.TotalAlloc - memA.TotalAlloc
	now := Full(h, true, true)
	mh, ml, mp := h.Public()
	if ref.CanonHeaders(mh) != ref.CanonHeaders(h.D.Headers) || ml != h.D.Language || mp != h.D.PluralForms {
		t.Failf("fields", "%s: public fields no longer agree with the catalog", when)
	}
	if string(data) != keep {
		t.Failf("input", "%s: the caller's data was changed", when)
	}
	if ok {
		t.Note("inside", 1)
		t.Nontriv()
		// strings may overlap: allocation follows the declared lengths
		lim := uint64(400000) + 200*uint64(len(data))
		for _, e := range doc.Ents {
			lim += 12 * uint64(len(e.ID)+len(e.Ctx)+len(e.Plural)+400)
			for _, f := range e.Forms {
				lim += 12 * uint64(len(f.S)+100)
			}
		}
		lim += 60 * uint64(len(strings.Join(doc.Header, "\n")))
		if alloc > lim {
			t.Failf("alloc", "%s: %d bytes allocated for %d bytes of data (limit %d)", when, alloc, len(data), lim)
		}
		// entries and header as the format says
		if edge && now == was {
			return
		}
		c := ref.NewCat()
		c.Load(stripRefs(before))
		merged := *doc
		c.Load(&merged)
		empties := false
		for _, e := range doc.Ents {
			// what a plural or context separator inside means is not defined by the format
			if strings.Contains(e.Plural, "\x00") || e.ID == "" || strings.Contains(e.ID, "\x04") {
				empties = true
			}
		}
		if !empties && !strings.Contains(keep[28:], "\x04c\x04") {
			Same(t, "entries", when+": entries", Canon(h.D, false, false), c.Canon(false, false))
		}
		return
	}
	t.Note("outside", 1)
	if now != was {
		t.Failf("half-loaded", "%s: the data is not all inside the file, yet the object changed:\n%s", when, Diff(now, was))
	}
	if lim := uint64(64*1024) + 16*uint64(len(data)); alloc > lim {
		t.Failf("alloc", "%s: %d bytes allocated for %d bytes of data which is rejected", when, alloc, len(data))
	}
}

// overlapSuite: tables whose strings overlap, so that together they are much longer than the file.
func overlapSuite(name string) eng.Suite {
	sizes := []int{4 << 10, 64 << 10, 256 << 10}
	fills := []byte{'a', 0, 4}
	r := []int{len(sizes), len(fills), 3, 2}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: "files of 4, 64 and 256 KB, half of them tables, whose ids, texts or both are overlapping pieces of the other half, of letters, NULs or separators, the pieces as long as can be or all of 100 bytes", Run: func(t *eng.T, i int64) {
		d := eng.Digits(i, r...)
		size, fill := sizes[d[0]], fills[d[1]]
		k := size / 2 / 16
		b := make([]byte, size)
		le := binary.LittleEndian
		pool := 28 + 16*k
		for p := pool; p < size; p++ {
			b[p] = fill
			if fill != 'a' && p%3 == 0 {
				b[p] = 'b'
			}
		}
		b[pool], b[size-1] = 'x', 0
		le.PutUint32(b, 0x950412de)
		le.PutUint32(b[8:], uint32(k))
		le.PutUint32(b[12:], 28)
		le.PutUint32(b[16:], uint32(28+8*k))
		put := func(table, e, at, n int) {
			le.PutUint32(b[28+8*k*table+8*e:], uint32(n))
			le.PutUint32(b[28+8*k*table+8*e+4:], uint32(at))
		}
		for e := 0; e < k; e++ {
			at, n := pool+e, size-pool-e-1
			if d[3] == 1 {
				n = 100
			}
			for table := 0; table < 2; table++ {
				if d[2] != 2 && d[2] != table {
					put(table, e, pool+e, 1)
				} else {
					put(table, e, at, n)
				}
			}
		}
		h := New("mo")
		h.Load(&ref.Doc{Ents: []ref.Ent{ref.Sing("", "keep", "KEPT")}})
		runtime.ReadMemStats(&memA)
		h.M.Parse(b)
		runtime.ReadMemStats(&memB)
		t.Step(1)
		t.Nontriv()
		t.State(fmt.Sprint(d))
		if n, lim := memB.TotalAlloc-memA.TotalAlloc, uint64(400000)+20000*uint64(size); n > lim {
			t.Failf("alloc", "%d overlapping strings in a file of %d bytes (fill %q, case %v): %d bytes allocated (limit %d)", k, size, fill, d, n, lim)
		}
		if g := h.M.Get("keep"); g != "KEPT" {
			t.Failf("half-loaded", "an entry which the file does not contain changed: %q", g)
		}
	}}
}
