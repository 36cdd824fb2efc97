package seq

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/leonelquinteros/gotext"

	"verif/eng"
	"verif/ref"
)

// exportable says whether PO text can hold the catalog: a form beyond the first needs a plural id.
func exportable(c *ref.Cat) bool {
	for _, e := range c.M {
		if e.Plural == "" {
			for i, s := range e.Forms {
				if i != 0 && s != "" {
					return false
				}
			}
		}
	}
	return true
}

// checkExport exports, reads the text by the library and by the reference reader, and compares.
func checkExport(t *eng.T, when string, h *H, c *ref.Cat, comments []string, ns []int) string {
	text := string(h.Text())
	t.Step(1)
	p := New("po")
	buf := []byte(text)
	p.P.Parse(buf)
	for i := range buf {
		buf[i] = '~'
	}
	Same(t, "export-entries", when+": exported and parsed back, against the model", Canon(p.D, true, false), c.Canon(true, false))
	Same(t, "export-entries", when+": exported and parsed back, against the original", Canon(p.D, true, false), Canon(h.D, true, false))
	Same(t, "export-headers", when+": headers parsed back", ref.CanonHeaders(p.D.Headers), ref.CanonHeaders(h.D.Headers))
	if p.D.Language != h.D.Language || p.D.PluralForms != h.D.PluralForms {
		t.Failf("export-headers", "%s: language %q, plural forms %q are read back as %q, %q", when, h.D.Language, h.D.PluralForms, p.D.Language, p.D.PluralForms)
	}
	if c.Resolver == nil && Probe(p.D) != Probe(h.D) {
		t.Failf("export-rule", "%s: the plural rule of the exported text differs", when)
	}
	rd, bad := ref.ReadPO(text)
	if bad != "" {
		t.Failf("export-syntax", "%s: exported text is not PO: %s", when, bad)
	}
	rc := ref.NewCat()
	doc := &ref.Doc{}
	for _, e := range rd {
		if e.Header {
			if comments != nil && strings.Join(e.Comments, "\n") != strings.Join(comments, "\n") {
				t.Failf("export-comments", "%s: head comments %q, want %q", when, e.Comments, comments)
			}
			continue
		}
		if rc.M[ref.K{Ctx: e.Ctx, ID: e.ID}] != nil {
			t.Failf("export-twice", "%s: entry %q/%q is exported twice", when, e.Ctx, e.ID)
		}
		doc.Ents = append(doc.Ents, e.Ent)
		rc.Load(&ref.Doc{Ents: []ref.Ent{e.Ent}})
	}
	Same(t, "export-text", when+": exported text read by the reference reader", rc.Canon(true, false), c.Canon(true, false))
	if again := string(p.Text()); comments != nil && again != text {
		t.Failf("export-comments", "%s: exporting the parsed text gives another text:\n%s", when, Diff(again, text))
	}
	if ns != nil {
		for k, e := range c.M {
			pl := e.Plural
			if pl == "" {
				pl = "x"
			}
			for _, n := range ns {
				var a, b string
				if k.Ctx == "" {
					a, b = p.A.GetN(k.ID, pl, n), h.A.GetN(k.ID, pl, n)
				} else {
					a, b = p.A.GetNC(k.ID, pl, n, k.Ctx), h.A.GetNC(k.ID, pl, n, k.Ctx)
				}
				if a != b && c.Resolver == nil {
					t.Failf("export-lookup", "%s: ctx=%q id=%q n=%d: %s before, %s after", when, k.Ctx, k.ID, n, q(b), q(a))
				}
			}
		}
	}
	return text
}

// order oracle
func refKey(e *ref.Ent) (string, int) {
	if len(e.Refs) == 0 {
		return "", 0
	}
	p, l, ok := strings.Cut(e.Refs[0], ":")
	n, _ := strconv.Atoi(l)
	if !ok {
		n = 0
	}
	return p, n
}

func checkOrder(t *eng.T, when, text string) {
	rd, bad := ref.ReadPO(text)
	if bad != "" {
		t.Failf("export-syntax", "%s: exported text is not PO: %s", when, bad)
	}
	for i := range rd {
		if rd[i].Header && i != 0 {
			t.Failf("order", "%s: the header entry is not first", when)
		}
		for j := 1; j < len(rd[i].Forms); j++ {
			if rd[i].Forms[j-1].I >= rd[i].Forms[j].I {
				t.Failf("form-order", "%s: forms of %q not in index order", when, rd[i].ID)
			}
		}
		if i == 0 || rd[i-1].Header {
			continue
		}
		a, b := &rd[i-1].Ent, &rd[i].Ent
		ap, al := refKey(a)
		bp, bl := refKey(b)
		less := func() bool {
			switch {
			case ap != bp:
				return ap < bp
			case al != bl:
				return al < bl
			case a.Ctx != b.Ctx:
				return a.Ctx < b.Ctx
			}
			return a.ID < b.ID
		}()
		if !less {
			t.Failf("order", "%s: %q/%q (%v) stands before %q/%q (%v)", when, a.Ctx, a.ID, a.Refs, b.Ctx, b.ID, b.Refs)
		}
	}
}

// checkFix exports several times, checks order and the fixpoint.
func checkFix(t *eng.T, when string, h *H) string {
	text := string(h.Text())
	for i := 0; i < 3; i++ {
		if x := string(h.Text()); x != text {
			t.Failf("export-varies", "%s: exporting again gives other bytes:\n%s", when, Diff(x, text))
		}
	}
	p := New("po")
	p.P.Parse([]byte(text))
	if x := string(p.Text()); x != text {
		t.Failf("fixpoint", "%s: export, parse, export gives other bytes:\n%s", when, Diff(x, text))
	}
	t.Step(5)
	checkOrder(t, when, text)
	return text
}

func permEnts() [][]ref.Ent {
	return [][]ref.Ent{
		{ref.Sing("", "a", "A", "f.go:10"), ref.Sing("", "b", "B", "f.go:9"), ref.Sing("c", "b", "CB", "f.go:9"), ref.Sing("", "z", "Z"), ref.Plur("", "p", "ps", "0", "1"), ref.Sing("c", "a", "CA", "e.go:100", "a.go:1")},
		{ref.Sing("", "a", "A"), ref.Sing("c", "a", "A"), ref.Sing("d", "a", "A"), ref.Sing("", "b", "A"), ref.Sing("c", "b", "A"), ref.Sing("", "B", "A")},
		{ref.Sing("x", "a", "A", "f.go:2"), ref.Sing("", "a", "A", "f.go:2"), ref.Sing("", "b", "A", "f.go:2"), ref.Plur("w", "a", "as", "A", "B", "C"), ref.Sing("", "c", "A", "f.go:100"), ref.Sing("", "d", "A", "f.go:99")},
		{ref.Sing("", "a", "A", "f.go"), ref.Sing("", "b", "A", "f.go:1"), ref.Sing("", "c", "A", "d/f.go:1"), ref.Sing("", "d", "A", "d/f.go:12"), ref.Sing("", "e", "A", "d/f.go:3"), ref.Sing("", "é", "A", "é.go:3")},
	}
}

var factorial = []int64{1, 1, 2, 6, 24, 120, 720, 5040}

// build stores entries by edits in the given order.
func buildEdits(h *H, ents []ref.Ent, order []int) {
	for _, o := range order {
		e := &ents[o]
		if e.Plural != "" {
			// forms in an order which depends on the position
			for j := range e.Forms {
				f := e.Forms[(j+o)%len(e.Forms)]
				n := f.I
				if e.Ctx == "" {
					h.SetN(e.ID, e.Plural, n, f.S)
				} else {
					h.SetNC(e.ID, e.Plural, e.Ctx, n, f.S)
				}
			}
		} else if e.Ctx == "" {
			h.Set(e.ID, e.Forms[0].S)
		} else {
			h.SetC(e.ID, e.Ctx, e.Forms[0].S)
		}
		if e.Ctx == "" && len(e.Refs) > 0 {
			h.SetRefs(e.ID, e.Refs)
		}
	}
}

func init() {
	eng.Register(&eng.Prop{ID: "C10", Level: "model_checking",
		Rule:   "every reached catalog is exported; the text is parsed back by the library and by a strict reference reader and compared with the model and the original: entries, forms, references, headers, rule, head comments, lookups",
		Assume: []string{"strings are valid UTF-8, references contain no white space, ids and contexts are non-empty, entries with several forms have a plural id, header values carry no surrounding white space"},
		Suites: func(tier string) []eng.Suite {
			rt := func(t *eng.T, h *H, c *ref.Cat, keys []Key, when string) {
				if !exportable(c) {
					return
				}
				checkExport(t, when, h, c, nil, []int{0, 1, 2, 5})
			}
			return []eng.Suite{
				histSuite("histories", 3, histOps(), kinds, func(t *eng.T, h *H, c *ref.Cat, when string) {
					if !exportable(c) {
						t.Note("not representable in PO", 1)
						return
					}
					checkExport(t, when, h, c, nil, histNs)
				}),
				watchedSuite("watched", tierInt(tier, 2, 3), histOps(), kinds, func(t *eng.T, h *H, c *ref.Cat, when string) {
					if exportable(c) {
						checkExport(t, when, h, c, nil, watchNs)
					}
				}, nil),
				valueSuite("values", kinds, rt),
				sizeSuite("sizes", "small", kinds, rt),
				scaleSuite("scale", []string{"po", "dom"}, rt),
				countSuite("counts", kinds, func(t *eng.T, h *H, c *ref.Cat, keys []Key, when string) {
					if exportable(c) {
						checkExport(t, when, h, c, nil, []int{1, 2})
					}
				}),
				formExport("forms"),
				shapeSuite("shapes", kinds, func(t *eng.T, h *H, c *ref.Cat, keys []Key, when string) {
					if exportable(c) {
						checkExport(t, when, h, c, nil, []int{0, 1, 2, 5})
					}
				}),
				editSuite("edits", func(t *eng.T, h *H, c *ref.Cat, when string) {
					if exportable(c) {
						checkExport(t, when, h, c, nil, []int{1, 2, 5})
					}
				}),
				pairSuite("neighbours"),
				alignSuite("alignments"),
				wordSuite("syntax-words", tierInt(tier, 3, 4), func(t *eng.T, when string, d *ref.Doc) {
					h, c := New("po"), ref.NewCat()
					h.Load(d)
					c.Load(d)
					checkExport(t, when, h, c, nil, []int{1, 2})
				}),
				headSuite("headers-and-comments"),
				refSuite("references"),
			}
		}})
	eng.Register(&eng.Prop{ID: "C11", Level: "model_checking",
		Rule:   "the same content is built in every insertion order by edits and by parses and exported repeatedly: all texts must be the same bytes, a fixpoint of export-parse-export, and in the documented order by an independent oracle",
		Assume: []string{"references are written path:line or path"},
		Suites: func(tier string) []eng.Suite {
			sets := permEnts()
			n := factorial[6]
			return []eng.Suite{
				{Name: "insertion-orders", N: n * int64(len(sets)), Bound: fmt.Sprintf("%d sets of 6 entries, all 720 insertion orders each, by edits and by parsing, into 2 kinds of object", len(sets)), Run: func(t *eng.T, i int64) {
					ents := sets[i%int64(len(sets))]
					idx := permute([]int{0, 1, 2, 3, 4, 5}, i/int64(len(sets)))
					t.Nontriv()
					t.State(fmt.Sprint(i%int64(len(sets)), idx))
					base := map[string]string{}
					for _, way := range []string{"edits", "parse", "parse then edits"} {
						for _, order := range [][]int{{0, 1, 2, 3, 4, 5}, idx} {
							for _, kind := range []string{"po", "dom"} {
								if kind == "dom" && way != "edits" {
									continue
								}
								h := New(kind)
								doc := &ref.Doc{Header: hdr("xx", "nplurals=9; plural=(n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : 3);")}
								if kind == "dom" {
									doc.Header = nil
									h.SetResolver(func(n int) int { return n })
								}
								var pe []ref.Ent
								for _, o := range order {
									e := ents[o]
									if way == "edits" && e.Ctx != "" {
										e.Refs = nil // references in a context have no edit operation
									}
									pe = append(pe, e)
								}
								switch way {
								case "edits":
									h.Load(doc)
									buildEdits(h, pe, []int{0, 1, 2, 3, 4, 5})
								case "parse":
									doc.Ents = pe
									h.Load(doc)
								default:
									doc.Ents = pe[:3]
									h.Load(doc)
									for k := range pe {
										if pe[k].Ctx != "" {
											h.Load(&ref.Doc{Ents: pe[k : k+1]})
										} else {
											buildEdits(h, pe, []int{k})
										}
									}
								}
								when := fmt.Sprintf("%s, %s in order %v", kind, way, order)
								text := checkFix(t, when, h)
								key := kind + way
								if way != "edits" {
									key = "parsed"
								}
								if base[key] == "" {
									base[key] = text
								} else if base[key] != text {
									t.Failf("insertion-order", "%s: the text depends on the order of insertion:\n%s", when, Diff(text, base[key]))
								}
							}
						}
					}
				}},
				histSuite("histories", 3, histOps(), []string{"po"}, func(t *eng.T, h *H, c *ref.Cat, when string) {
					if exportable(c) {
						checkFix(t, when, h)
					}
				}),
				watchedSuite("watched", tierInt(tier, 2, 3), histOps(), kinds, func(t *eng.T, h *H, c *ref.Cat, when string) {
					if exportable(c) {
						checkFix(t, when, h)
					}
				}, nil),
				valueSuite("values", []string{"po"}, func(t *eng.T, h *H, c *ref.Cat, keys []Key, when string) {
					if exportable(c) {
						checkFix(t, when, h)
					}
				}),
				scaleFix("scale"),
				shapeSuite("shapes", kinds, func(t *eng.T, h *H, c *ref.Cat, keys []Key, when string) {
					if exportable(c) {
						checkFix(t, when, h)
					}
				}),
				countSuite("counts", kinds, func(t *eng.T, h *H, c *ref.Cat, keys []Key, when string) {
					if exportable(c) {
						checkFix(t, when, h)
					}
				}),
				formExport("forms"),
				headSuite("headers-and-comments"),
				lineSuite("line-numbers"),
				mapOrders("map-orders", int64(tiered(tier, 2000, 200000))),
			}
		}})
}

// lineSuite: references with all small line numbers, several paths.
func lineSuite(name string) eng.Suite {
	paths := []string{"a.go", "b.go", "a/b.go", "", "B.go"}
	lines := []int{0, 1, 2, 9, 10, 11, 19, 20, 99, 100, 101, 1000, 2147483647, 4294967296}
	r := []int{len(paths), len(lines), len(paths), len(lines), 4}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("pairs of entries with %d paths x %d line numbers each, contexts and ids in either order", len(paths), len(lines)), Run: func(t *eng.T, i int64) {
		d := eng.Digits(i, r...)
		mk := func(p, l int) []string {
			if paths[p] == "" {
				return nil
			}
			return []string{paths[p] + ":" + itoa(lines[l]), "0.go:1"}
		}
		ids := [][2]string{{"a", "b"}, {"b", "a"}, {"same", "same"}, {"same", "same"}}[d[4]]
		ctx := [][2]string{{"", ""}, {"c", ""}, {"", "c"}, {"d", "c"}}[d[4]]
		doc := &ref.Doc{Ents: []ref.Ent{ref.Sing(ctx[0], ids[0], "x", mk(d[0], d[1])...), ref.Sing(ctx[1], ids[1], "y", mk(d[2], d[3])...), ref.Sing("m", "middle", "z", "a.go:10")}}
		h := New("po")
		h.Load(doc)
		t.Nontriv()
		t.State(checkFix(t, fmt.Sprintf("%+v", doc.Ents), h))
	}}
}

func scaleFix(name string) eng.Suite {
	r := []int{len(scaleNs), 4}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("catalogs of %v entries in 4 insertion orders", scaleNs), Run: func(t *eng.T, i int64) {
		d := eng.Digits(i, r...)
		doc := scaleDoc(scaleNs[d[0]])
		h := New("po")
		h.Load(doc)
		base := checkFix(t, fmt.Sprintf("%d entries", scaleNs[d[0]]), h)
		e := append([]ref.Ent(nil), doc.Ents...)
		for k := range e {
			j := k
			switch d[1] {
			case 1:
				j = len(e) - 1 - k
			case 2:
				j = (k + len(e)/2) % len(e)
			case 3:
				j = (k*7919 + 13) % len(e)
				if len(e)%7919 == 0 {
					j = k
				}
			}
			e[k] = doc.Ents[j]
		}
		h2 := New("po")
		h2.Load(&ref.Doc{Header: doc.Header, Ents: e})
		t.Nontriv()
		t.State(itoa(i))
		if x := checkFix(t, "permuted", h2); x != base {
			t.Failf("insertion-order", "%d entries in order %d: the text depends on the order of insertion", scaleNs[d[0]], d[1])
		}
	}}
}

// formExport: all subsets of forms and high indexes.
func formExport(name string) eng.Suite {
	idx := []int{0, 1, 2, 3, 9, 10, 11, 100}
	return eng.Suite{Name: name, N: int64(1<<len(idx)) * 4, Bound: fmt.Sprintf("every subset of the form indexes %v, ascending or descending, in or out of a context", idx), Run: func(t *eng.T, i int64) {
		set, mode := i/4, i%4
		e := ref.Ent{ID: "id", Plural: "ids"}
		if mode&1 == 1 {
			e.Ctx = "ctx"
		}
		for k, x := range idx {
			if set&(1<<k) != 0 {
				e.Forms = append(e.Forms, ref.Form{I: x, S: fmt.Sprintf("form %d\nline", x)})
			}
		}
		d := &ref.Doc{Header: hdr("xx", pfAr), Ents: []ref.Ent{e, ref.Sing("", "other", "o")}}
		h, c := New("po"), ref.NewCat()
		h.P.Parse(ref.WritePO(d, ref.Layout{PlurRev: mode&2 == 2}))
		c.Load(d)
		t.Nontriv()
		when := fmt.Sprintf("forms %v", e.Forms)
		t.State(checkExport(t, when, h, c, []string{}, []int{0, 1, 2}))
		checkFix(t, when, h)
	}}
}

// alignSuite: what has to be escaped, at every distance from the start of a string without line breaks.
func alignSuite(name string) eng.Suite {
	marks := []string{"\\", "\"", "\\n", "\\\\", "\t", "\r", "é", "漢", "😀", " ", "  ", "%d", "-", "\n", "\n\n", "\n\\", "\\\"\n"}
	fill := []string{"x", "word ", "é", "a\\"}
	tails := []string{"", "y", strings.Repeat("tail ", 40)}
	const most = 300
	r := []int{5, len(marks), len(fill), len(tails), most}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("%d special strings after 0..%d bytes of 4 kinds of filling, with 3 tails, as context, id, plural id, text or header value", len(marks), most-1), Run: func(t *eng.T, i int64) {
		d := eng.Digits(i, r...)
		f := fill[d[2]]
		if d[4]%len(f) != 0 {
			return
		}
		v := strings.Repeat(f, d[4]/len(f)) + marks[d[1]] + tails[d[3]]
		a := [5]string{"ctx", "id", "plural", "text", "value"}
		a[d[0]] = v
		doc := &ref.Doc{Header: []string{"Language: xx", "X-Long: value"}}
		if d[0] == 4 {
			if strings.Contains(v, "\n") || strings.TrimSpace(v) != v {
				return
			}
			doc.Header[1] = "X-Long: " + v
		}
		h, c := New("po"), ref.NewCat()
		h.Load(doc)
		c.Load(doc)
		h.Set(a[1], a[3])
		c.Set("", a[1], a[3])
		h.SetNC(a[1], a[2], a[0], 2, a[3])
		c.SetN(a[0], a[1], a[2], 2, a[3])
		h.SetNC(a[1], a[2], a[0], 1, a[3]+"!")
		c.SetN(a[0], a[1], a[2], 1, a[3]+"!")
		t.StateHash(eng.Hash(v + itoa(d[0])))
		t.Nontriv()
		checkExport(t, fmt.Sprintf("%s as part %d", q(v), d[0]), h, c, nil, nil)
	}}
}

// pairSuite: special values in neighbouring entries with references, to see one entry disturb the next.
func pairSuite(name string) eng.Suite {
	nv := len(Values)
	r := []int{nv, nv, 3}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("%d^2 pairs of special values as text of one entry and id of the next", nv), Run: func(t *eng.T, i int64) {
		d := eng.Digits(i, r...)
		v, w := Values[d[0]], Values[d[1]]
		var es []ref.Ent
		switch d[2] {
		case 0:
			es = []ref.Ent{ref.Sing("", "0"+v, v, "a.go:1"), ref.Sing("", "1"+w, w, "a.go:2")}
		case 1:
			es = []ref.Ent{ref.Plur("", "0", v, v, w), ref.Sing(w, "1", v)}
		case 2:
			es = []ref.Ent{ref.Sing(v, w, ""), ref.Plur(w, v, v+w, "", w+v)}
		}
		doc := &ref.Doc{Comments: []string{"# head"}, Header: hdr("en", pfEn), Ents: append(es, ref.Sing("", "zz", "last", "z.go:1"))}
		h, c := New("po"), ref.NewCat()
		h.Load(doc)
		c.Load(doc)
		t.Nontriv()
		t.State(checkExport(t, fmt.Sprintf("values %q, %q in shape %d", v, w, d[2]), h, c, []string{"# head"}, nil))
	}}
}

// headSuite: header lines and head comments.
func headSuite(name string) eng.Suite {
	vals := []string{"v", "", `say "hi"`, `a\b`, "tab\tbed", "a:b: c", "héllo ☃", `\n`, "x; y=(n!=1);", "<a@b.c>", "#c", "'", "%s"}
	keys := []string{"X-One", "x-lower", "Project-Id-Version", "Zz_key", "Content-Type", "X É", "MIME-Version", "key with space"}
	comms := [][]string{{}, {"# one"}, {"# one", "#", "# two \"q\" \\"}, {"#, fuzzy", "#. ext"}, {"#~ msgid \"old\"", "# é ☃"}, {"#"}}
	r := []int{len(vals), len(vals), len(keys), len(keys), len(comms)}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("%d^2 header values x %d^2 keys (repeated when equal) x %d head comment blocks", len(vals), len(keys), len(comms)), Run: func(t *eng.T, i int64) {
		d := eng.Digits(i, r...)
		doc := &ref.Doc{Comments: comms[d[4]], Header: []string{keys[d[2]] + ": " + vals[d[0]], "Language: de", keys[d[3]] + ": " + vals[d[1]], "Plural-Forms: " + pfFr}, Ents: []ref.Ent{ref.Sing("", "a", "A", "f:1")}}
		h, c := New("po"), ref.NewCat()
		h.Load(doc)
		c.Load(doc)
		t.Nontriv()
		when := fmt.Sprintf("header %q, comments %q", doc.Header, doc.Comments)
		t.State(checkExport(t, when, h, c, doc.Comments, nil))
		Same(t, "export-headers", when, ref.CanonHeaders(h.D.Headers), ref.CanonHeaders(c.Headers))
		checkFix(t, when, h)
	}}
}

func refSuite(name string) eng.Suite {
	refs := []string{"a.go:1", "b.go", `q"uote.go:2`, `C:\dir\f.go:3`, "ü.go:4", "a.go:1:2", "x#y:5", "[z]:6", "'s':7", "%d:8", "f.go:", ":9", "msgid:10", "-", "http://h/p?q=1#f:11"}
	r := []int{len(refs), len(refs), len(refs), 2, 2}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("triples over %d references, set by edits or by parsing, two entries", len(refs)), Run: func(t *eng.T, i int64) {
		d := eng.Digits(i, r...)
		rs := []string{refs[d[0]], refs[d[1]], refs[d[2]]}
		h, c := New("po"), ref.NewCat()
		doc := &ref.Doc{Header: hdr("en", pfEn), Ents: []ref.Ent{ref.Sing("", "id", "text"), ref.Sing("", "next", "text", rs[0]), ref.Sing("c", "id", "ctext", rs[1:]...), ref.Plur("", "none", "nones", "a", "b")}}
		if d[3] == 0 {
			doc.Ents[0].Refs = rs
		}
		h.Load(doc)
		c.Load(doc)
		if d[3] == 1 {
			h.SetRefs("id", rs)
			c.SetRefs("id", rs)
			if d[4] == 1 {
				h.SetRefs("next", nil)
				c.SetRefs("next", nil)
			}
		}
		t.Nontriv()
		when := fmt.Sprintf("references %q", rs)
		t.State(checkExport(t, when, h, c, []string{}, nil))
		for k, e := range c.M {
			if k.Ctx == "" && strings.Join(h.GetRefs(k.ID), " ") != strings.Join(e.Refs, " ") {
				t.Failf("refs", "%s: GetRefs(%q) = %q, want %q", when, k.ID, h.GetRefs(k.ID), e.Refs)
			}
		}
	}}
}

var _ gotext.HeaderMap
