package seq

import (
	"fmt"
	"strings"

	"verif/eng"
	"verif/ref"
)

// c06Docs are the documents written in every layout.
func c06Docs() []*ref.Doc {
	return []*ref.Doc{
		{Header: hdr("ru", pfRu), Ents: []ref.Ent{
			ref.Sing("", "simple", "einfach", "a.go:1"),
			ref.Sing("ctx", "simple", "einfach in ctx", "a.go:2", "b/c.go:30"),
			{ID: "one file", Plural: "%d files", Forms: []ref.Form{{0, "f0"}, {1, "f1"}, {2, "f2"}}, Refs: []string{"z.go:9"}},
			{Ctx: "ctx", ID: "one file", Plural: "%d files", Forms: []ref.Form{{0, "cf0"}, {1, "cf1"}, {2, "cf2"}}},
		}},
		{Comments: []string{"# Head", "#. of the file"}, Header: hdr("en", pfEn), Ents: []ref.Ent{
			ref.Sing("", "multi\nline\nid\n", "multi\nline \"quoted\"\ntext\\\n", "x:1"),
			ref.Sing("c\nt\"x\\", "tab\tid", "\ttab text\t"),
			{ID: "plural\nid", Plural: "plural\nids\n", Forms: []ref.Form{{0, "zero\n"}, {1, "\none\n\n"}}, Refs: []string{"p.go:1", "p.go:2", "q.go:3"}},
		}},
		{Ents: []ref.Ent{ // no header
			ref.Sing("", "é", "日本語 ☃", "ü.go:7"), ref.Sing("ключ", "é", "😀"), ref.Sing("", "#", "# no comment"), ref.Sing("", "msgid", `msgstr "x"`),
		}},
		{Header: hdr("en", pfEn), Ents: []ref.Ent{ // untranslated and odd indexes
			ref.Sing("", "empty", ""), {ID: "gap", Plural: "gaps", Forms: []ref.Form{{2, "two"}, {0, "zero"}, {11, "eleven"}}}, ref.Plur("", "pe", "pes", "", ""), ref.Sing("c", "empty", "", "r.go:5"), ref.Sing("", "last", "LAST"),
		}},
		{Header: []string{"Language: xx"}, Ents: []ref.Ent{ref.Sing("", "only", "nur")}},
		{Ents: []ref.Ent{ref.Plur("menu", "p", "ps", "a", "b")}},
	}
}

var layRadix = []int{4, 4, 3, 3, 4, 2, 2, 2, 2, 3, 2}

func layout(i int64) ref.Layout {
	d := eng.Digits(i, layRadix...)
	return ref.Layout{Split: d[0], Comments: d[1], Blank: d[2], Indent: d[3], Sep: d[4], CRLF: d[5] == 1, NoFinalNL: d[6] == 1, RefLines: d[7] == 1, PlurRev: d[8] == 1, Escape: d[9], EntRev: d[10] == 1}
}

// fewLayouts are single-feature layouts plus one with everything.
func fewLayouts() []ref.Layout {
	return []ref.Layout{{}, {Split: 1}, {Split: 2}, {Split: 3}, {CRLF: true}, {Indent: 2, Sep: 2}, {Escape: 1}, {Escape: 2}, {NoFinalNL: true, Comments: 1}, {Blank: 1, EntRev: true}, {Split: 1, Comments: 3, Blank: 2, Indent: 1, CRLF: true, NoFinalNL: true, PlurRev: true, RefLines: true, Escape: 2, EntRev: true}}
}

func checkDoc(t *eng.T, when string, text []byte, d *ref.Doc, ns []int) {
	h := New("po")
	h.P.Parse(text)
	t.Step(1)
	c := ref.NewCat()
	c.Load(d)
	CheckCat(t, when, h, c, true, ns)
	Same(t, "headers", when+": headers", ref.CanonHeaders(h.Headers()), ref.CanonHeaders(c.Headers))
	// nothing but the document's entries and the header
	n := 0
	for id := range h.D.GetTranslations() {
		if id == "" && d.Header == nil {
			t.Failf("extra-header", "%s: an entry with empty id is stored", when)
		}
		n++
	}
	_ = n
}

func wordsDoc(k int) *ref.Doc {
	d := &ref.Doc{Header: hdr("en", pfEn)}
	for i := 0; i < k; i++ {
		d.Ents = append(d.Ents, ref.Sing("", fmt.Sprintf("w%d", i), fmt.Sprintf("W%d", i)))
	}
	return d
}

func init() {
	eng.Register(&eng.Prop{ID: "C06", Level: "model_checking",
		Rule:   "documents from a reference writer in every layout of the layout space are parsed and compared entry by entry (ids, plural ids, contexts, forms, references), headers and lookups",
		Assume: []string{"contexts and ids are non-empty, references contain no spaces, strings are valid UTF-8"},
		Suites: func(tier string) []eng.Suite {
			docs := c06Docs()
			nl := eng.Prod(layRadix...)
			fl := fewLayouts()
			return []eng.Suite{
				{Name: "layouts", N: nl * int64(len(docs)), Bound: fmt.Sprintf("%d documents x all %d layouts (string splitting, comments, blank lines, indentation, separators, line ends, final newline, reference lines, form order, escapes, entry order)", len(docs), nl),
					Run: func(t *eng.T, i int64) {
						d := docs[i%int64(len(docs))]
						l := layout(i / int64(len(docs)))
						text := ref.WritePO(d, l)
						t.StateHash(eng.Hash(string(text)))
						t.Nontriv()
						ns := []int(nil)
						if i%7 == 0 {
							ns = []int{0, 1, 2, 5}
						}
						if i%50000 == 7 && t.WantSample() {
							t.Sample("%s", text)
						}
						t.Tracef("%s", text)
						checkDoc(t, fmt.Sprintf("document %d in layout %+v", i%int64(len(docs)), l), text, d, ns)
					}},
				{Name: "values", N: int64(len(Values) * len(Values) * 5 * len(fl)), Bound: fmt.Sprintf("%d^2 pairs of special values in 5 pairs of positions x %d layouts", len(Values), len(fl)),
					Run: func(t *eng.T, i int64) {
						g := eng.Digits(i, len(Values), len(Values), 5, len(fl))
						v, w := Values[g[0]], Values[g[1]]
						a := [5]string{"ctx", "id", "plural", "f0", "f1"}
						a[g[2]] = v
						a[(g[2]+1)%5] = w
						d := &ref.Doc{Header: hdr("en", pfEn), Ents: []ref.Ent{ref.Sing("", "before", "B", "f.go:1"), ref.Plur(a[0], a[1], a[2], a[3], a[4]), ref.Sing(a[0], a[1]+".", a[3], "g.go:2"), ref.Sing("", a[1]+"..", a[4]), ref.Sing("", "after", "A")}}
						text := ref.WritePO(d, fl[g[3]])
						t.StateHash(eng.Hash(string(text)))
						t.Nontriv()
						t.Tracef("%s", text)
						checkDoc(t, fmt.Sprintf("ctx=%q id=%q plural=%q f0=%q f1=%q in layout %+v", a[0], a[1], a[2], a[3], a[4], fl[g[3]]), text, d, []int{1, 2})
					}},
				{Name: "sizes", N: int64(len(Sizes) * 5 * 4), Bound: fmt.Sprintf("strings of %v bytes in 5 positions, one line and split", Sizes),
					Run: func(t *eng.T, i int64) {
						g := eng.Digits(i, len(Sizes), 5, 4)
						if Sizes[g[0]] > 70000 && g[2]%2 == 1 {
							return
						}
						a := [5]string{"ctx", "id", "plural", "f0", "f1"}
						a[g[1]] = validUTF8(rep("abcdefgh \"é\\\n", Sizes[g[0]]-1) + "x")
						d := &ref.Doc{Header: hdr("en", pfEn), Ents: []ref.Ent{ref.Sing("", "before", "B", "f.go:1"), ref.Plur(a[0], a[1], a[2], a[3], a[4]), ref.Sing(a[0], a[1]+".", a[3], "g.go:2"), ref.Sing("", "after", "A")}}
						t.State(fmt.Sprint(g))
						t.Nontriv()
						checkDoc(t, fmt.Sprintf("%d bytes in position %d, split %d", Sizes[g[0]], g[1], g[2]), ref.WritePO(d, ref.Layout{Split: g[2]}), d, []int{1, 2})
					}},
				countDocs("counts", 6, func(t *eng.T, d *ref.Doc, way int, when string) {
					checkDoc(t, when, ref.WritePO(d, fl[[]int{0, 1, 4, 5, 9, 10}[way]]), d, []int{1, 2})
				}),
				{Name: "scale", N: int64(len(scaleNs) * 6), Bound: fmt.Sprintf("documents of %v entries in 6 layouts", scaleNs),
					Run: func(t *eng.T, i int64) {
						d := scaleDoc(scaleNs[i/6])
						t.State(fmt.Sprint(i))
						t.Nontriv()
						checkDoc(t, fmt.Sprintf("%d entries", scaleNs[i/6]), ref.WritePO(d, fl[[]int{0, 1, 4, 5, 9, 10}[i%6]]), d, []int{1, 3})
					}},
				{Name: "references", N: 40 * 4, Bound: "entries with 0..39 references on one or several lines, before, after and between comments, with entries without references around",
					Run: func(t *eng.T, i int64) {
						k := int(i / 4)
						var refs []string
						for j := 0; j < k; j++ {
							refs = append(refs, fmt.Sprintf("dir%d/file.go:%d", j%3, 100-j))
						}
						d := &ref.Doc{Header: hdr("en", pfEn), Ents: []ref.Ent{ref.Sing("", "none", "N"), ref.Sing("", "many", "M", refs...), ref.Sing("c", "none", "CN"), {Ctx: "c", ID: "pl", Plural: "pls", Forms: []ref.Form{{0, "x"}, {1, "y"}}, Refs: refs}, ref.Sing("", "tail", "T")}}
						l := []ref.Layout{{}, {RefLines: true}, {RefLines: true, Comments: 1, Split: 1}, {Comments: 2, Blank: 1, Indent: 1}}[i%4]
						t.State(fmt.Sprint(i))
						t.Nontriv()
						checkDoc(t, fmt.Sprintf("%d references in layout %+v", k, l), ref.WritePO(d, l), d, nil)
					}},
				{Name: "forms", N: 720 + 64, Bound: "6 plural forms in all 720 orders; every subset of them",
					Run: func(t *eng.T, i int64) {
						e := sixForms("c", "i")
						if i < 720 {
							e.Forms = permute(e.Forms, i)
						} else {
							var fs []ref.Form
							for j, f := range e.Forms {
								if (i-720)&(1<<j) != 0 {
									fs = append(fs, f)
								}
							}
							e.Forms = fs
						}
						f := e
						f.Ctx = ""
						d := &ref.Doc{Header: hdr("ar", pfAr), Ents: []ref.Ent{e, f, ref.Sing("", "x", "X")}}
						t.State(fmt.Sprint(i))
						t.Nontriv()
						for _, l := range []ref.Layout{{}, {Split: 1}, {Comments: 3, Split: 2}} {
							checkDoc(t, fmt.Sprintf("form lines %v in layout %+v", e.Forms, l), ref.WritePO(d, l), d, []int{0, 1, 2, 3, 11, 100})
						}
					}},
				entryOrderSuite("entry-order"),
				wordSuite("syntax-words", tierInt(tier, 3, 4), func(t *eng.T, when string, d *ref.Doc) {
					for _, l := range []ref.Layout{{}, {Split: 1}, {Split: 3, Comments: 1}, {Split: 2, Escape: 2, CRLF: true}} {
						checkDoc(t, fmt.Sprintf("%s in layout %+v", when, l), ref.WritePO(d, l), d, []int{1, 2})
					}
				}),
				commentSuite("comments-anywhere", tierInt(tier, 2, 3)),
			}
		}})
	eng.Register(&eng.Prop{ID: "C07", Level: "model_checking", HangSec: 30, MemLimitMB: 8000,
		Rule:   "well-formed entries with every sequence of junk lines between them, every truncation point of several texts, and all short strings are parsed: no panic, and the undamaged entries must be exactly there",
		Assume: []string{"a line that continues the preceding entry syntactically (a quoted string, msgstr or msgid_plural line) belongs to that entry and is not junk between entries; the damaged line keeps its keyword"},
		Suites: func(tier string) []eng.Suite {
			s := []eng.Suite{
				junkSuite("junk-2", 2), truncSuite("truncations"),
				rawSuite("lines", tierInt(tier, 4, 5)), rawBytes("bytes", tierInt(tier, 5, 6)),
				damageSuite("damage"), byteDamageSuite("byte-damage"), oddLineSuite("odd-lines"), indexSuite("form-numbers"),
			}
			s = append(s, junkSuite("junk-3", 3))
			return s
		}})
}

func permute[T any](in []T, i int64) []T {
	src := append([]T(nil), in...)
	var out []T
	for n := int64(len(src)); n > 0; n-- {
		k := i % n
		i /= n
		out = append(out, src[k])
		src = append(src[:k], src[k+1:]...)
	}
	return out
}

func entryOrderSuite(name string) eng.Suite {
	ents := []ref.Ent{ref.Sing("", "a", "A", "a.go:1"), ref.Sing("c", "a", "CA"), {ID: "p", Plural: "ps", Forms: []ref.Form{{0, "P0"}, {1, "P1"}}, Refs: []string{"p.go:1"}}, {Ctx: "c", ID: "p", Plural: "ps", Forms: []ref.Form{{0, "CP0"}, {1, "CP1"}}}, ref.Sing("d", "a", "", "e.go:2"), ref.Sing("", "b", "B\nB")}
	return eng.Suite{Name: name, N: 720 * 5, Bound: "6 entries of all kinds in all 720 orders x 5 layouts",
		Run: func(t *eng.T, i int64) {
			d := &ref.Doc{Header: hdr("en", pfEn), Ents: permute(ents, i/5)}
			l := []ref.Layout{{}, {Blank: 1}, {Split: 1, Comments: 1}, {Comments: 2, RefLines: true}, {Blank: 1, Comments: 3, CRLF: true, Split: 2}}[i%5]
			t.State(fmt.Sprint(i))
			t.Nontriv()
			checkDoc(t, fmt.Sprintf("order %d layout %+v", i/5, l), ref.WritePO(d, l), d, []int{1, 2})
		}}
}

// junkLines between entries: each must leave the entries around it alone.
var junkLines = []string{
	"garbage", "#", "# comment", "#~ msgid \"old\"", "#~ msgstr \"gone\"", "#| msgid \"prev\"", "#:", "#,", "   ", "\t", "\x00\x01", "\xff\xfe", "é☃", "domain \"x\"", "MSGID \"x\"", "msg \"x\"", "=======", "<<<<<<< HEAD", "'", "[0] \"x\"", "junk msgid \"a\"", "junk msgctxt \"c\"", "junk msgstr \"y\"", "junk msgstr[0] \"y\"", "junk msgid_plural \"as\"", "junk \"y\"", "fuzzy #: f.go:7", "[1] msgstr \"y\"", "\\", "//", "msgi", "ms", "#~", "#!", ";",
	// damaged entries
	"msgid", "msgid \"unterminated", "msgid unquoted", "msgid \"a\" trailing", "msgid \"bad \\q escape\"", "msgctxt", "msgctxt \"unterminated", "msgctxt nope", "msgctxt \"x\" y", "msgid\"", "msgid \"", "msgctxt \"", "msgid \"dmg\"\nmsgstr \"unterminated", "msgid \"dmg\"\nmsgstr", "msgid \"dmg\"\nmsgstr[0 \"x\"", "msgid \"dmg\"\nmsgid_plural \"x\nmsgstr[a] \"y\"", "msgid \"dmg\"\nmsgid_plural \"dmgs\"\nmsgstr[-1] \"x\"", "msgid \"dmg\"\nmsgstr[99999999999999999999] \"x\"", "msgid \"dmg\"\nmsgid_plural", "msgctxt \"lost\"", "msgid \"dmg\"", "msgctxt \"dmgctx\"\nmsgid \"dmg2", "msgid \"\xff\"\nmsgstr \"x\"", "msgctxt \"dmg\"\nmsgctxt \"dmg\"", "msgid \"dmg\"\nmsgid \"dmg3\"\nmsgstr \"x\"",
	"msgid \"dmg\"\nmsgstr \"ok\"\n\"unterminated", "msgid \"dmg\n\"cont\"\nmsgstr \"x\"", "msgid \"dmg\"\nmsgid_plural \"dmgs\"\nmsgstr[1 \"x\"\n\"more\"", "msgid \"dmg\"\nmsgid_plural \"dmgs\"\nmsgstr[] \"x\"\n\"more\"",
}

func junkEnts() [][]ref.Ent {
	return [][]ref.Ent{
		{ref.Sing("", "one", "EINS"), ref.Sing("", "two", "ZWEI")},
		{ref.Plur("", "one", "ones", "e0", "e1"), ref.Plur("ctx", "two", "twos", "z0", "z1")},
		{ref.Sing("c", "one", "C EINS"), ref.Sing("", "one", "EINS")},
		{ref.Sing("", "one", "multi\nline"), ref.Sing("d", "two", "multi\nzwei\n", "r.go:1")},
	}
}

func textOf(ents []ref.Ent, split int) string {
	return string(ref.WritePO(&ref.Doc{Ents: ents}, ref.Layout{Split: split}))
}

// lastJunk tells whether the junk ends inside an entry of its own (whose following blank line does not end it).
func junkSuite(name string, depth int) eng.Suite {
	nj := len(junkLines)
	pairs := junkEnts()
	n := int64(1)
	for i := 0; i < depth; i++ {
		n *= int64(nj)
	}
	hd := string(ref.WritePO(&ref.Doc{Header: hdr("en", pfEn)}, ref.Layout{Split: 1}))
	return eng.Suite{Name: name, N: n, Bound: fmt.Sprintf("all sequences of %d of %d junk lines / damaged entries, between, before and after %d pairs of entries", depth, nj, len(pairs)),
		Run: func(t *eng.T, i int64) {
			var junk []string
			x := i
			for k := 0; k < depth; k++ {
				junk = append(junk, junkLines[x%int64(nj)])
				x /= int64(nj)
			}
			j := strings.Join(junk, "\n") + "\n"
			ps := pairs
			if depth > 2 {
				ps = pairs[int(i)%len(pairs) : int(i)%len(pairs)+1]
			}
			for k, p := range ps {
				sp := int(i+int64(k)) % 2
				e1, e2 := textOf(p[:1], sp), textOf(p[1:], sp)
				for place, text := range []string{hd + "\n" + e1 + j + e2, hd + "\n" + e1 + "\n" + j + "\n" + e2, j + e1 + "\n" + e2, e1 + "\n" + e2 + j} {
					h := New("po")
					h.P.Parse([]byte(text))
					t.Step(1)
					t.StateHash(eng.Hash(text))
					t.Tracef("%s", text)
					c := ref.NewCat()
					if place < 2 {
						c.LoadHeader(hdr("en", pfEn))
					}
					hasCtx := place == 2 && strings.HasPrefix(lastSyntax(junk), "msgctxt")
					if hasCtx || (place < 2 && strings.HasPrefix(lastSyntax(junk), "msgctxt")) {
						// the junk's msgctxt line directly before an entry makes that entry's context: skip a context of unknown meaning
						if p[1].Ctx == "" && place < 2 || p[0].Ctx == "" && place == 2 {
							continue
						}
					}
					checkSurvive(t, fmt.Sprintf("junk %q at place %d", junk, place), h, p, place < 2, hasRefs(junk))
				}
			}
			t.Nontriv()
		}}
}

func hasRefs(junk []string) bool { return false }

func lastSyntax(junk []string) string {
	last := ""
	for _, l := range strings.Split(strings.Join(junk, "\n"), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "msg") && !strings.HasPrefix(l, "msgctxt") && (strings.HasPrefix(l, "msgid") || strings.HasPrefix(l, "msgstr")) || strings.HasPrefix(l, "msgctxt") {
			last = l
		}
	}
	return last
}

// checkSurvive compares the undamaged entries.
func checkSurvive(t *eng.T, when string, h *H, ents []ref.Ent, rule bool, _ bool) {
	for _, e := range ents {
		c := ref.NewCat()
		c.Load(&ref.Doc{Ents: []ref.Ent{e}})
		var tr = h.D.GetTranslations()
		if e.Ctx != "" {
			tr = h.D.GetCtxTranslations()[e.Ctx]
		}
		x := tr[e.ID]
		if x == nil {
			t.Failf("lost", "%s: entry ctx=%q id=%q is missing", when, e.Ctx, e.ID)
		}
		got := ref.CanonEntry(e.Ctx, x.ID, x.PluralID, x.Trs, x.Refs, false, true, false)
		want := c.Canon(true, false)
		if got != want {
			t.Failf("altered", "%s: entry ctx=%q id=%q reads\n  %s\nwant\n  %s", when, e.Ctx, e.ID, got, want)
		}
	}
	if rule {
		// the header block was undamaged too
		if got := h.D.Language; got != "en" {
			t.Failf("header", "%s: the Language header reads %q, want en", when, got)
		}
	}
}

type span struct {
	e   ref.Ent
	end int
}

func truncDocs() []*ref.Doc {
	return append(c06Docs(), &ref.Doc{Comments: []string{"# c"}, Header: hdr("en", pfEn), Ents: []ref.Ent{ref.Sing("", "aa", "AA"), ref.Sing("", "a", "A"), ref.Sing("a", "aa", "CAA"), ref.Plur("", "aaa", "aaas", "x", "y"), ref.Sing("", "tail", "T")}})
}

func truncSuite(name string) eng.Suite {
	type tc struct {
		text []byte
		sp   []span
		hEnd int
		name string
	}
	var all []tc
	var total int64
	var starts []int64
	for di, d := range truncDocs() {
		for li, l := range []ref.Layout{{}, {Split: 1}, {CRLF: true, Comments: 1}, {Blank: 1, Split: 2}, {Indent: 1, RefLines: true, Comments: 3}} {
			c := tc{text: ref.WritePO(d, l), name: fmt.Sprintf("document %d layout %d", di, li)}
			// the end of entry k is the length of the text of the first k entries, trimmed
			for k := range d.Ents {
				p := *d
				p.Ents = d.Ents[:k+1]
				c.sp = append(c.sp, span{d.Ents[k], len(strings.TrimRight(string(ref.WritePO(&p, l)), " \t\r\n"))})
			}
			p := *d
			p.Ents = nil
			c.hEnd = len(strings.TrimRight(string(ref.WritePO(&p, l)), " \t\r\n"))
			if d.Header == nil {
				c.hEnd = 1 << 30
			}
			starts = append(starts, total)
			all = append(all, c)
			total += int64(len(c.text) + 1)
		}
	}
	return eng.Suite{Name: name, N: total, Bound: fmt.Sprintf("every truncation point of %d texts", len(all)),
		Run: func(t *eng.T, i int64) {
			k := len(starts) - 1
			for starts[k] > i {
				k--
			}
			c := all[k]
			cut := int(i - starts[k])
			h := New("po")
			h.P.Parse(append([]byte(nil), c.text[:cut]...))
			t.Step(1)
			t.StateHash(eng.Hash(string(c.text[:cut])))
			var done []ref.Ent
			for _, s := range c.sp {
				if s.end <= cut {
					done = append(done, s.e)
				}
			}
			if len(done) > 0 {
				t.Nontriv()
			}
			when := fmt.Sprintf("%s cut at byte %d of %d", c.name, cut, len(c.text))
			checkSurvive(t, when, h, done, false, false)
			// and the truncation leaves no trace in what is parsed next into the same object
			d := &ref.Doc{Header: hdr("fr", pfFr), Ents: []ref.Ent{ref.Sing("", "next", "N"), ref.Plur("k", "next", "nexts", "N0", "N1")}}
			h.P.Parse(ref.WritePO(d, ref.Layout{}))
			checkSurvive(t, when+", then another text", h, d.Ents, false, false)
			if h.D.Language != "fr" {
				t.Failf("header", "%s, then another text: Language %q", when, h.D.Language)
			}
		}}
}

var rawLines = []string{
	"msgid \"a\"", "msgid \"b\"", "msgid \"\"", "msgid_plural \"as\"", "msgid_plural \"\"", "msgstr \"A\"", "msgstr \"\"", "msgstr[0] \"A0\"", "msgstr[1] \"A1\"", "msgstr[-1] \"N\"", "msgstr[x] \"y\"", "msgstr[", "msgstr[]", "msgctxt \"c\"", "msgctxt \"\"", "\"cont\"", "\"Language: x\\n\"", "\"Plural-Forms: nplurals=2; plural=n%0;\\n\"", "\"", "#: r.go:1", "#~ x", "msgid", "msgstr", "msgctxt", "msgid_plural", "junk", "", "msgid \"open", "msgstr]0[ \"x\"", "msgid\"a\"msgid\"b\"",
}

// rawSuite: all sequences of raw lines; no panic, and the object stays usable.
func rawSuite(name string, depth int) eng.Suite {
	n := eng.SeqCount(len(rawLines), depth-1)
	good := &ref.Doc{Header: hdr("en", pfEn), Ents: []ref.Ent{ref.Sing("", "g", "GG"), ref.Plur("gc", "g", "gs", "G0", "G1")}}
	gt := ref.WritePO(good, ref.Layout{})
	return eng.Suite{Name: name, N: n, Bound: fmt.Sprintf("all sequences of up to %d of %d raw PO lines, well-formed and not, followed by a good text in the same object", depth, len(rawLines)),
		Run: func(t *eng.T, i int64) {
			seq := eng.SeqAt(i, len(rawLines))
			var b strings.Builder
			for _, k := range seq {
				b.WriteString(rawLines[k] + "\n")
			}
			head := b.String()
			for j := range rawLines {
				h := New("po")
				text := head + rawLines[j]
				h.P.Parse([]byte(text))
				t.Step(1)
				t.Execs++
				h.P.Get("a")
				h.P.GetN("a", "as", 2)
				h.P.GetNC("a", "as", 0, "c")
				h.P.MarshalText()
				h.P.Parse(gt)
				checkSurvive(t, fmt.Sprintf("after the text %q", text), h, good.Ents, true, false)
			}
			t.StateHash(eng.Hash(head))
			t.Nontriv()
		}}
}

func rawBytes(name string, depth int) eng.Suite {
	alpha := []string{"msgid", "msgstr", "msgctxt", "_plural", "\"", "\\", "\n", " ", "[", "]", "0", "a", "#", ":", "\r", "\xff", "\x00", "é"}
	nv := len(alpha)
	n := int64(1)
	for i := 0; i < depth-1; i++ {
		n *= int64(nv)
	}
	return eng.Suite{Name: name, N: n, Bound: fmt.Sprintf("all strings of %d pieces out of %q", depth, alpha),
		Run: func(t *eng.T, i int64) {
			var h0 string
			x := i
			for k := 0; k < depth-1; k++ {
				h0 += alpha[x%int64(nv)]
				x /= int64(nv)
			}
			for _, a := range alpha {
				h := New("po")
				h.P.Parse([]byte(h0 + a))
				t.Step(1)
			}
			t.Execs += int64(nv)
			t.StateHash(eng.Hash(h0))
			t.Nontriv()
		}}
}

// damageSuite: a well-formed text of which one line is damaged in every way; all entries but the one hit survive.
func damageSuite(name string) eng.Suite {
	d := &ref.Doc{Header: hdr("en", pfEn), Ents: []ref.Ent{ref.Sing("", "a", "A"), ref.Sing("c", "b", "CB", "r.go:1"), ref.Plur("", "p", "ps", "P0", "P1"), ref.Plur("c", "q", "qs", "Q0", "Q1"), ref.Sing("", "z", "Z\nZ\n")}}
	type place struct{ ent, line int }
	blocks := [][]string{}
	var places []place
	for i := range d.Ents {
		ls := strings.Split(strings.TrimRight(textOf(d.Ents[i:i+1], i%2), "\n"), "\n")
		blocks = append(blocks, ls)
		for j, l := range ls {
			if strings.HasPrefix(l, "msg") || strings.HasPrefix(l, "\"") {
				places = append(places, place{i, j})
			}
		}
	}
	dmg := []func(l string) string{
		func(l string) string { return strings.TrimSuffix(l, "\"") },
		func(l string) string { return strings.Replace(l, "\"", "", 1) },
		func(l string) string { return l + " trailing" },
		func(l string) string { return l + "\"" },
		func(l string) string { return strings.TrimSuffix(l, "\"") + "\\\"" },
		func(l string) string { return strings.TrimSuffix(l, "\"") + "\\q\"" },
		func(l string) string { return strings.TrimSuffix(l, "\"") + "\\" },
		func(l string) string { return strings.Replace(l, "]", "", 1) },
		func(l string) string { return strings.Replace(l, "[0", "[zero", 1) },
		func(l string) string { return strings.Replace(l, "[", "[-", 1) },
		func(l string) string { return strings.Replace(l, "[1", "[99999999999999999999", 1) },
		func(l string) string { k, _, _ := strings.Cut(l, " "); return k },
		func(l string) string { k, _, _ := strings.Cut(l, " "); return k + " \xff\xfe" },
		func(l string) string { return l + "\n" + "garbage" },
		func(l string) string { return l + "\n#: \n#:" },
		func(l string) string { return "\x00" + l },
		func(l string) string { return l[:len(l)/2] },
		func(l string) string { return strings.ToUpper(l) },
	}
	hd := string(ref.WritePO(&ref.Doc{Header: hdr("en", pfEn)}, ref.Layout{Split: 1}))
	r := []int{len(places), len(dmg), 2}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("%d lines of 5 entries x %d kinds of damage, blank lines between entries or none", len(places), len(dmg)),
		Run: func(t *eng.T, i int64) {
			g := eng.Digits(i, r...)
			p := places[g[0]]
			l := blocks[p.ent][p.line]
			bad := dmg[g[1]](l)
			var b strings.Builder
			b.WriteString(hd)
			var rest []ref.Ent
			for k, ls := range blocks {
				if g[2] == 0 {
					b.WriteString("\n")
				}
				for j, x := range ls {
					if k == p.ent && j == p.line {
						x = bad
					}
					b.WriteString(x + "\n")
				}
				if k != p.ent {
					rest = append(rest, d.Ents[k])
				}
			}
			// without its keyword a line is no part of this entry's syntax, and what follows continues the entry before
			if w := firstWord(strings.TrimSpace(bad)); strings.HasPrefix(l, "msgid ") && !strings.HasPrefix(w, "msgid") || strings.HasPrefix(l, "msgctxt") && !strings.HasPrefix(w, "msgctxt") {
				return
			}
			h := New("po")
			h.P.Parse([]byte(b.String()))
			t.Step(1)
			t.State(b.String())
			t.Nontriv()
			t.Tracef("%s", b.String())
			checkSurvive(t, fmt.Sprintf("line %q damaged to %q", l, bad), h, rest, true, false)
		}}
}

func firstWord(s string) string {
	w, _, _ := strings.Cut(s, " ")
	return w
}

// byteDamageSuite: every byte of a text replaced by each of a few bytes; entries not touching that line survive.
func byteDamageSuite(name string) eng.Suite {
	d := &ref.Doc{Header: hdr("en", pfEn), Ents: []ref.Ent{ref.Sing("", "a", "A"), ref.Sing("c", "b", "CB", "r.go:1"), ref.Plur("", "p", "ps", "P0", "P1"), ref.Plur("c", "q", "qs", "Q0", "Q1"), ref.Sing("", "z", "Z\nZ\n")}}
	l := ref.Layout{}
	text := ref.WritePO(d, l)
	var ends []int
	for k := range d.Ents {
		p := *d
		p.Ents = d.Ents[:k+1]
		ends = append(ends, len(ref.WritePO(&p, l)))
	}
	p := *d
	p.Ents = nil
	hEnd := len(ref.WritePO(&p, l))
	by := []byte{0, '"', '\\', '\n', ' ', '#', '[', 'm', 0xff, 'x', ']'}
	return eng.Suite{Name: name, N: int64(len(text)), Bound: fmt.Sprintf("each of %d bytes of a text replaced by each of %q, deleted, or preceded by it", len(text), by),
		Run: func(t *eng.T, i int64) {
			pos := int(i)
			hit := -1
			start := hEnd
			for k, e := range ends {
				if pos < e && pos >= start {
					hit = k
				}
				start = e
			}
			if pos < hEnd {
				hit = -2
			}
			// damage in the first line of an entry can make it part of the one before
			var rest []ref.Ent
			for k, e := range d.Ents {
				if k != hit && !(hit >= 0 && k == hit-1) && !(hit == -2 && k < 0) {
					rest = append(rest, e)
				}
			}
			for _, x := range by {
				for mode := 0; mode < 3; mode++ {
					b := append([]byte(nil), text[:pos]...)
					switch mode {
					case 0:
						b = append(b, x)
						b = append(b, text[pos+1:]...)
					case 1:
						b = append(b, text[pos+1:]...)
					case 2:
						b = append(b, x)
						b = append(b, text[pos:]...)
					}
					h := New("po")
					h.P.Parse(b)
					t.Step(1)
					t.Execs++
					t.StateHash(eng.Hash(string(b)))
					checkSurvive(t, fmt.Sprintf("byte %d %q: mode %d with %q", pos, text[pos], mode, x), h, rest, hit > 0 && strings.Count(string(b), `msgid ""`) == 1, false)
				}
			}
			t.Nontriv()
		}}
}

var commentKinds = []string{"# plain", "#", "#. extracted", "#, fuzzy", "#, c-format, fuzzy", "#, no-wrap", "#| msgid \"previous\"", "#| msgctxt \"previous\"", "#~ msgid \"gone\"", "#~ msgstr \"gone\"",
	"#~ \"continued\"", "#~| msgid \"gone\"", "#=", "#@ note", "# msgid \"no\"", "#msgid \"no\"", "#\"text\"", "#,", "#.", "", "   ", "#\tt", "# :", "#é"}

// commentSuite puts comments of every kind before any line of a text, between the lines of one entry too.
func commentSuite(name string, max int) eng.Suite {
	d := &ref.Doc{Header: hdr("en", pfEn), Ents: []ref.Ent{ref.Sing("", "one", "ONE", "a.go:1"), {Ctx: "ctx", ID: "two\nlines", Plural: "twos", Forms: []ref.Form{{I: 0, S: "T0\nT"}, {I: 1, S: "T1"}}, Refs: []string{"b.go:2"}}, ref.Sing("c", "three", "THREE"), ref.Sing("", "four", "FOUR")}}
	lines := strings.Split(strings.TrimSuffix(string(ref.WritePO(d, ref.Layout{Split: 1})), "\n"), "\n")
	np, nk := len(lines)+1, len(commentKinds)
	r := []int{np, nk, np, nk}
	if max > 2 {
		r = append(r, np, nk)
	}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("every choice of %d places among the %d lines of a text and of %d kinds of comment for each", max, np, nk), Run: func(t *eng.T, i int64) {
		g := eng.Digits(i, r...)
		put := map[int][]string{}
		for k := 0; k < len(g); k += 2 {
			if k > 0 && g[k] < g[k-2] {
				return // the same as another case
			}
			// a blank line right below a reference comment ends the comment block
			if p := g[k]; strings.TrimSpace(commentKinds[g[k+1]]) == "" && p > 0 && strings.HasPrefix(lines[p-1], "#:") {
				return
			}
			put[g[k]] = append(put[g[k]], commentKinds[g[k+1]])
		}
		var out []string
		for p := 0; p <= len(lines); p++ {
			out = append(out, put[p]...)
			if p < len(lines) {
				out = append(out, lines[p])
			}
		}
		text := strings.Join(out, "\n") + "\n"
		t.StateHash(eng.Hash(text))
		t.Nontriv()
		checkDoc(t, fmt.Sprintf("with the comments %q before line %d", put[g[0]], g[0]), []byte(text), d, []int{1, 2})
	}}
}
