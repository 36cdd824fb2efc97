package seq

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/leonelquinteros/gotext"

	"verif/eng"
	"verif/ref"
)

// checkHeaders compares all that is exposed of headers, language and plural rule.
func checkHeaders(t *eng.T, when string, h *H, c *ref.Cat) {
	want := ref.CanonHeaders(c.Headers)
	Same(t, "headers", when+": Domain.Headers", ref.CanonHeaders(h.D.Headers), want)
	if h.D.Language != c.Lang || h.D.PluralForms != c.PF {
		t.Failf("header-fields", "%s: the catalog has language %q, plural forms %q, want %q, %q", when, h.D.Language, h.D.PluralForms, c.Lang, c.PF)
	}
	hd, la, pf := h.Public()
	Same(t, "public-headers", when+": public Headers", ref.CanonHeaders(hd), want)
	if la != c.Lang || pf != c.PF {
		t.Failf("public-fields", "%s: public Language %q, PluralForms %q, want %q, %q", when, la, pf, c.Lang, c.PF)
	}
	for k, v := range c.Headers {
		if got := h.D.Headers.Values(k); strings.Join(got, "\x00") != strings.Join(v, "\x00") {
			t.Failf("header-values", "%s: Values(%q) = %q, want %q", when, k, got, v)
		}
		if got := h.D.Headers.Get(k); got != v[0] {
			t.Failf("header-get", "%s: Get(%q) = %q, want %q", when, k, got, v[0])
		}
	}
	if h.D.Headers.Get("No-Such") != "" || len(h.D.Headers.Values("No-Such")) != 0 {
		t.Failf("header-get", "%s: a header which is not there has a value", when)
	}
	t.Step(3)
}

// headerLines to choose from.
var headerLines = []string{
	"Language: en", "Language: ru", "language: de", "LANGUAGE: fr", "Language:", "Language: pt_BR.UTF-8",
	"Plural-Forms: " + pfEn, "Plural-Forms: " + pfRu, "plural-forms: " + pfFr, "PLURAL-FORMS: " + pfJa, "Plural-Forms:", "Plural-Forms: nonsense", "Plural-forms: nplurals=6; plural=n*2;", "Plural-Forms: " + pfAr,
	"X-Repeat: one", "X-Repeat: two", "x-repeat: lower", "X-Colon: a: b:c", "X-Empty:", "X-Spaces:    padded   ", "X-NoSpace:tight", `X-Quote: "q" \ back\n`, "X-Üñí: ☃ 日本", "no colon here", ": no key", "Content-Type: text/plain; charset=UTF-8", "X-Tab:\tv\tw", "Language-Team: German <de@x>", "X-Language: other",
}

// oneSpelling tells whether Language and Plural-Forms occur in at most one spelling each, once; which of
// several would count is not specified.
func oneSpelling(ls []string) bool {
	n := map[string]int{}
	for _, l := range ls {
		k, _, ok := strings.Cut(l, ":")
		if ok {
			n[strings.ToLower(k)]++
		}
	}
	return n["language"] < 2 && n["plural-forms"] < 2
}

func headerDoc(ls []string) *ref.Doc {
	return &ref.Doc{Header: ls, Ents: []ref.Ent{ref.Plur("", "p", "ps", "f0", "f1", "f2", "f3", "f4", "f5"), ref.Sing("", "a", "A")}}
}

func headerSuite(name string, depth int) eng.Suite {
	n := eng.SeqCount(len(headerLines), depth)
	return eng.Suite{Name: name, N: n * 2, Bound: fmt.Sprintf("all header entries of 1..%d lines out of %d, in PO and MO", depth, len(headerLines)),
		Run: func(t *eng.T, i int64) {
			var ls []string
			for _, k := range eng.SeqAt(i/2, len(headerLines)) {
				ls = append(ls, headerLines[k])
			}
			if !oneSpelling(ls) {
				return
			}
			kind := kinds[i%2]
			d := headerDoc(ls)
			h, c := New(kind), ref.NewCat()
			h.Load(d)
			c.Load(d)
			t.Nontriv()
			t.State(ref.CanonHeaders(c.Headers))
			when := fmt.Sprintf("%s with header %q", kind, ls)
			checkHeaders(t, when, h, c)
			Observe(t, when, h.A, c, []Key{{"", "p", "ps"}}, []int{0, 1, 2, 5, 11, 21, 101}, Opt{Get: true})
		}}
}

// the catalogs of load sequences, by their headers
var headerDocs = [][]string{
	nil,
	{"Language: en", "Plural-Forms: " + pfEn, "X-A: 1"},
	{"Language: ru", "Plural-Forms: " + pfRu, "X-A: 2", "X-A: 3", "X-B: b"},
	{"X-B: only this"},
	{"language: de", "plural-forms: " + pfFr},
	{"Language: ja", "X-A: 4"},
	{"Plural-Forms: " + pfJa},
	{"LANGUAGE:", "PLURAL-FORMS:"},
	{"Plural-Forms: nplurals=2; plural=junk+;", "Language: xx", "x-a: lower"},
	{"Language: ar", "Plural-Forms: " + pfAr, "X-C: c", "X-A: 5"},
}

// ways to load a catalog into an object
var loadWays = []string{"Parse", "ParseFile", "UnmarshalBinary of a Po", "UnmarshalBinary of a Mo", "UnmarshalBinary of a Domain"}

func headerFile(k int, kind string) string {
	f := filepath.Join(Scratch(), fmt.Sprintf("hdr%d.%s", k, kind))
	if _, err := os.Stat(f); err != nil {
		tmp, err := os.CreateTemp(Scratch(), "h")
		if err != nil {
			panic(err)
		}
		tmp.Write(fileBytes(f, headerDoc(headerDocs[k])))
		tmp.Close()
		os.Rename(tmp.Name(), f)
	}
	return f
}

func headerSeqSuite(name string, depth int) eng.Suite {
	nd, nw := len(headerDocs), len(loadWays)
	n := eng.SeqCount(nd*nw, depth)
	return eng.Suite{Name: name, N: n * 2, Bound: fmt.Sprintf("all sequences of 1..%d loads of %d catalogs in %d ways, into a Po and a Mo", depth, nd, nw),
		Run: func(t *eng.T, i int64) {
			kind := kinds[i%2]
			h, c := New(kind), ref.NewCat()
			var names []string
			for _, o := range eng.SeqAt(i/2, nd*nw) {
				d := headerDoc(headerDocs[o%nd])
				way := loadWays[o/nd]
				names = append(names, fmt.Sprintf("%s %q", way, d.Header))
				switch o / nd {
				case 0:
					h.Load(d)
					c.Load(d)
				case 1:
					f := headerFile(o%nd, kind)
					if h.P != nil {
						h.P.ParseFile(f)
					} else {
						h.M.ParseFile(f)
					}
					c.Load(d)
				default:
					src := New(kinds[o/nd-2])
					if src.Kind == "dom" {
						opLoad("", d).Do(src, ref.NewCat())
					} else {
						src.Load(d)
					}
					b, err := src.A.MarshalBinary()
					if err != nil {
						panic(err)
					}
					if err = h.A.UnmarshalBinary(b); err != nil {
						t.Failf("import", "%v: %v", names, err)
					}
					*c = *ref.NewCat()
					c.Load(d)
				}
				t.Step(1)
			}
			when := fmt.Sprintf("%s after %s", kind, strings.Join(names, ", "))
			t.Nontriv()
			t.State(c.Canon(false, false) + ref.CanonHeaders(c.Headers) + c.PF)
			if t.WantSample() && i > 3000 {
				t.Sample("%s", when)
			}
			checkHeaders(t, when, h, c)
			Observe(t, when, h.A, c, []Key{{"", "p", "ps"}, {"", "a", "as"}}, []int{0, 1, 2, 5, 11, 21, 101}, Opt{Get: true})
		}}
}

// headerLineSuite: every short text as a line of the header.
func headerLineSuite(name string, maxLen int) eng.Suite {
	alpha := []string{"a", ":", " ", "\t", `"`, "é", `\`, "Language"}
	n := eng.SeqCount(len(alpha), maxLen)
	return eng.Suite{Name: name, N: n * 2 * 2, Bound: fmt.Sprintf("all header lines of 1..%d symbols over %q, alone and between other lines, in PO and MO", maxLen, alpha),
		Run: func(t *eng.T, i int64) {
			l := ""
			for _, k := range eng.SeqAt(i/4, len(alpha)) {
				l += alpha[k]
			}
			ls := []string{l}
			if i/2%2 == 1 {
				ls = []string{"Plural-Forms: " + pfRu, l, "X-Z: z"}
			}
			kind := kinds[i%2]
			d := headerDoc(ls)
			h, c := New(kind), ref.NewCat()
			h.Load(d)
			c.Load(d)
			t.Nontriv()
			t.State(ref.CanonHeaders(c.Headers))
			checkHeaders(t, fmt.Sprintf("%s with header %q", kind, ls), h, c)
		}}
}

// headerPlaceSuite: the header entry at every place among the entries, in every layout, after nothing and after
// an earlier load.
func headerPlaceSuite(name string) eng.Suite {
	lays := fewLayouts()
	var mos []ref.MOLayout
	for k := 0; k < 64; k++ {
		mos = append(mos, ref.MOLayout{Big: k&1 != 0, Order: k >> 1 & 3, Sorted: k&8 != 0, Last: k&16 != 0, Share: k&32 != 0})
	}
	ents := []ref.Ent{ref.Sing("", "a", "A"), ref.Plur("", "p", "ps", "f0", "f1", "f2", "f3", "f4", "f5"), ref.Sing("c", "a", "CA")}
	places := len(ents) + 1
	nd := len(headerDocs)
	per := int64(len(lays)*places + len(mos))
	return eng.Suite{Name: name, N: per * int64(nd*nd), Bound: fmt.Sprintf("%d header entries loaded after %d others, at every place among %d entries in %d PO layouts, and in %d MO layouts", nd, nd, len(ents), len(lays), len(mos)),
		Run: func(t *eng.T, i int64) {
			k := i % per
			d1 := headerDoc(headerDocs[i/per%int64(nd)])
			d := &ref.Doc{Header: headerDocs[i/per/int64(nd)], Ents: ents}
			kind := "po"
			var b []byte
			var lay string
			if k < int64(len(lays)*places) {
				l := lays[k%int64(len(lays))]
				l.HeadAt = int(k / int64(len(lays)))
				b = ref.WritePO(d, l)
				lay = fmt.Sprintf("%+v", l)
			} else {
				kind = "mo"
				l := mos[k-int64(len(lays)*places)]
				b = ref.WriteMO(d, l).Data
				lay = fmt.Sprintf("%+v", l)
			}
			h, c := New(kind), ref.NewCat()
			if d1.Header != nil {
				h.Load(d1)
				c.Load(d1)
			}
			if h.P != nil {
				h.P.Parse(b)
			} else {
				h.M.Parse(b)
			}
			c.Load(d)
			t.Step(1)
			t.Nontriv()
			t.State(c.Canon(false, false) + ref.CanonHeaders(c.Headers))
			when := fmt.Sprintf("%s with header %q after header %q, layout %s", kind, d.Header, d1.Header, lay)
			checkHeaders(t, when, h, c)
			Observe(t, when, h.A, c, []Key{{"", "p", "ps"}, {"", "a", "as"}, {"c", "a", "as"}}, []int{0, 1, 2, 5, 11, 21, 101}, Opt{Get: true})
		}}
}

// headerLocSuite: headers through a Locale's domains, and the map's own methods.
func headerMapSuite(name string) eng.Suite {
	keys := []string{"A", "a", "Language", "X-Long-Key", ""}
	ops := 3*len(keys)*2 + 0
	n := eng.SeqCount(ops, 3)
	return eng.Suite{Name: name, N: n, Bound: fmt.Sprintf("all histories of 1..3 Add, Set and Del calls over %d keys and 2 values on a HeaderMap", len(keys)),
		Run: func(t *eng.T, i int64) {
			m := gotext.HeaderMap{}
			w := map[string][]string{}
			var names []string
			for _, o := range eng.SeqAt(i, ops) {
				k := keys[o%len(keys)]
				v := []string{"v1", "v2"}[o/len(keys)%2]
				switch o / len(keys) / 2 {
				case 0:
					m.Add(k, v)
					w[k] = append(w[k], v)
					names = append(names, "Add "+k+"="+v)
				case 1:
					m.Set(k, v)
					w[k] = []string{v}
					names = append(names, "Set "+k+"="+v)
				case 2:
					m.Del(k)
					delete(w, k)
					names = append(names, "Del "+k)
				}
				t.Step(1)
			}
			var ks []string
			for k := range m {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range keys {
				if got := m.Values(k); strings.Join(got, ",") != strings.Join(w[k], ",") {
					t.Failf("header-map", "%v: Values(%q) = %q, want %q", names, k, got, w[k])
				}
				want := ""
				if len(w[k]) > 0 {
					want = w[k][0]
				}
				if m.Get(k) != want {
					t.Failf("header-map", "%v: Get(%q) = %q, want %q", names, k, m.Get(k), want)
				}
			}
			if len(m) != len(w) {
				t.Failf("header-map", "%v: keys %q, want %d", names, ks, len(w))
			}
			t.State(strings.Join(names, ","))
			t.Nontriv()
		}}
}

func init() {
	eng.Register(&eng.Prop{ID: "C24", Level: "model_checking",
		Rule:   "catalogs of all small header entries are loaded in PO and MO, alone and in sequences of loads through every way there is; headers, language, plural forms, public fields and the plural rule in force are compared with a model",
		Assume: []string{"a header entry states Language and Plural-Forms at most once each", "headers a later text does not state keep their values"},
		Suites: func(tier string) []eng.Suite {
			return []eng.Suite{headerSuite("headers", tierInt(tier, 4, 5)), headerSeqSuite("sequences", tierInt(tier, 3, 4)), headerMapSuite("header-map"), headerLineSuite("lines", tierInt(tier, 5, 6)), headerPlaceSuite("places"), countSuite("counts", kinds[:2], func(t *eng.T, h *H, c *ref.Cat, keys []Key, when string) { checkHeaders(t, when, h, c) })}
		}})
}
