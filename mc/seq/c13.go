package seq

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/leonelquinteros/gotext"

	"verif/eng"
	"verif/ref"
)

// LocState is everything observable about a Locale, as text.
func LocState(l *gotext.Locale) string {
	var ks []string
	for k := range l.Domains {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	fmt.Fprintf(&b, "lang=%q default=%q", l.GetLanguage(), l.GetDomain())
	for _, k := range ks {
		d := l.Domains[k].GetDomain()
		fmt.Fprintf(&b, "\n[%s] %s\nheaders %s lang %q pf %q rule %s", k, Canon(d, true, false), ref.CanonHeaders(d.Headers), d.Language, d.PluralForms, Probe(d))
		for _, n := range probeNs {
			b.WriteString("\n" + fmt.Sprint(n, d.GetN("p", "ps", n), d.GetNC("p", "ps", n, "c"), d.GetN("item", "items", n)))
		}
	}
	b.WriteString("\n" + locAnswers(l))
	return b.String()
}

func locAnswers(l *gotext.Locale) string {
	var b strings.Builder
	a := apiOf(l)
	for _, d := range append(locDoms, "dom1") {
		for _, k := range locKeys {
			fmt.Fprintf(&b, "%s|%s|%v|%v", a.GetD(d, k.ID, 7), a.GetDC(d, k.ID, k.Ctx), a.IsD(d, k.ID), a.IsDC(d, k.ID, k.Ctx))
			for _, n := range locNs {
				fmt.Fprintf(&b, "|%s|%s|%v|%v", a.GetND(d, k.ID, k.Plural, n, 7), a.GetNDC(d, k.ID, k.Plural, n, k.Ctx), a.IsND(d, k.ID, n), a.IsNDC(d, k.ID, n, k.Ctx))
			}
			fmt.Fprintf(&b, "|%s|%s|%v|%v\n", a.Get(k.ID), a.GetNC(k.ID, k.Plural, 5, k.Ctx), a.Is(k.ID), a.IsNC(k.ID, 2, k.Ctx))
		}
	}
	return b.String()
}

// diskSys is a LocSys on disk; the directory is written once per process.
var diskRoots = map[string]string{}

func diskLib(name string, lib Lib) string {
	if r := diskRoots[name]; r != "" {
		return r
	}
	r := os.Getenv("MC_LIB_" + name)
	if r == "" {
		r = filepath.Join(Scratch(), "lib-"+name)
		lib.onDisk(r)
		os.Setenv("MC_LIB_"+name, r) // for processes made for one case
	}
	diskRoots[name] = r
	return r
}

func diskSys(lang string) *LocSys {
	l := Lib{}
	for k, v := range libA {
		l[k] = v
	}
	return &LocSys{L: gotext.NewLocale(diskLib("A", libA), lang), M: newLocM(l, lang), Tr: map[string]*H{}}
}

// the operations which do not change files
func diskOps() []LocOp {
	var o []LocOp
	for _, op := range locOps() {
		if !strings.Contains(op.Name, "file") {
			o = append(o, op)
		}
	}
	return append(o, lopTr("d2", "mo", docTr(docAr, "T-ar")), lopTr("d1", "po", docTr(docBadPF, "T-bad")), lopTr("mem", "po", docTr(docNoHead, "T-nohead")))
}

// docTr gives a document a header line to be named by.
func docTr(d *ref.Doc, tag string) *ref.Doc {
	e := *d
	e.Header = append(append([]string(nil), d.Header...), "X-Tag: "+tag)
	return &e
}

// receivers for a Locale import
func locReceivers() []func() *gotext.Locale {
	return []func() *gotext.Locale{
		func() *gotext.Locale { return gotext.NewLocale("", "") },
		func() *gotext.Locale { return new(gotext.Locale) },
		func() *gotext.Locale {
			l := gotext.NewLocale(diskLib("A", libA), "ru")
			l.AddDomain("d1")
			l.AddDomain("d2")
			p := gotext.NewPo()
			p.Parse(ref.WritePO(docEn, ref.Layout{}))
			l.AddTranslator("mem", p)
			l.AddTranslator("more", p)
			return l
		},
		// of another library and language, with nothing loaded or with its own domains
		func() *gotext.Locale { return gotext.NewLocale(diskLib("B", libB), "en_US") },
		func() *gotext.Locale {
			l := gotext.NewLocale(diskLib("B", libB), "de")
			l.AddDomain("d1")
			l.SetDomain("elsewhere")
			return l
		},
	}
}

func mustMarshal(t *eng.T, when string, m interface{ MarshalBinary() ([]byte, error) }) []byte {
	b, err := m.MarshalBinary()
	if err != nil {
		t.Failf("marshal", "%s: MarshalBinary: %v", when, err)
	}
	return b
}

func checkLocBinary(t *eng.T, when string, s *LocSys, recv func() *gotext.Locale, follow bool) {
	before := LocState(s.L)
	blob := mustMarshal(t, when, s.L)
	if after := LocState(s.L); after != before {
		t.Failf("export-mutates", "%s: encoding changed the Locale: %s", when, Diff(after, before))
	}
	keep := string(blob)
	l := recv()
	if err := l.UnmarshalBinary(blob); err != nil {
		t.Failf("decode", "%s: UnmarshalBinary: %v", when, err)
	}
	t.Step(2)
	if string(blob) != keep {
		t.Failf("decode-input", "%s: decoding changed the data given", when)
	}
	for i := range blob {
		blob[i] = 0xAA
	}
	Same(t, "locale-roundtrip", when+": decoded against the original", LocState(l), before)
	ObserveLoc(t, when+", decoded", apiOf(l), s.M, locDoms, locKeys, []int{1, 2, 5}, true, true, false)
	if !follow {
		return
	}
	// the decoded Locale is extended, edited and encoded again like the original one
	d := &LocSys{L: l, M: s.M.clone(), Tr: map[string]*H{}}
	for _, o := range []LocOp{lopEdit("d1", "", "a", "after decode"), lopEdit("mem", "c", "a", "after decode c"), lopAdd("d1"), lopAdd("d2"), lopTr("extra", "po", mark("fr", pfFr, "T-extra")), lopDef("extra")} {
		o.Do(d)
		ObserveLoc(t, when+", decoded, then "+o.Name, apiOf(l), d.M, append([]string{"extra"}, locDoms...), locKeys, []int{1, 2}, true, true, false)
	}
	if now := LocState(s.L); now != before {
		t.Failf("shared", "%s: changing the decoded Locale changed the original: %s", when, Diff(now, before))
	}
	b2 := mustMarshal(t, when, l)
	l2 := gotext.NewLocale("", "")
	if err := l2.UnmarshalBinary(b2); err != nil {
		t.Failf("decode", "%s: second UnmarshalBinary: %v", when, err)
	}
	Same(t, "locale-roundtrip", when+": decoded twice", LocState(l2), LocState(l))
}

func init() {
	eng.Register(&eng.Prop{ID: "C13", Level: "model_checking",
		Rule:   "every Locale reached by a bounded history is encoded and decoded into fresh, zero and populated receivers; languages, default domain, entries, headers and all lookups are compared, the decoded one is extended, edited and encoded again; every truncation and byte change of the data leaves the receiver alone when it is refused",
		Assume: []string{"the fs.FS of a Locale is configuration which is not serialised: histories that load files after decoding use the disk"},
		Suites: func(tier string) []eng.Suite {
			ops := diskOps()
			depth := tierInt(tier, 3, 4)
			rs := locReceivers()
			return []eng.Suite{
				{Name: "histories", N: eng.SeqCount(len(ops), depth), Bound: fmt.Sprintf("all histories of 1..%d operations over an alphabet of %d, into %d receivers (the longest ones into one of them)", depth, len(ops), len(rs)),
					Run: func(t *eng.T, i int64) {
						seq := eng.SeqAt(i, len(ops))
						for ri, r := range rs {
							if len(seq) > 2 && ri != int(i)%len(rs) {
								continue
							}
							s := diskSys([]string{"de_AT", "de", "ru"}[i%3])
							when := "after " + locHist(t, s, ops, seq) + fmt.Sprintf(", receiver %d", ri)
							t.State(s.M.String())
							if len(s.M.doms) > 0 {
								t.Nontriv()
							}
							checkLocBinary(t, when, s, r, len(seq) <= 2)
						}
					}},
				{Name: "watched", N: eng.SeqCount(len(ops), tierInt(tier, 2, 3)), Bound: fmt.Sprintf("all histories of 1..%d operations over an alphabet of %d, encoded and decoded and read in every way between any two operations", tierInt(tier, 2, 3), len(ops)),
					Run: func(t *eng.T, i int64) {
						s := diskSys([]string{"de_AT", "de", "ru"}[i%3])
						var names []string
						for _, o := range eng.SeqAt(i, len(ops)) {
							ops[o].Do(s)
							names = append(names, ops[o].Name)
							checkLocBinary(t, "encoded all along, after "+strings.Join(names, "."), s, rs[(int(i)+len(names))%len(rs)], false)
						}
						t.State(s.M.String())
						t.Nontriv()
					}},
				locValueSuite("values"),
				locCorruptSuite("corruptions"),
				locInnerSuite("damaged-domains"),
				locPkgSuite("domain-counts"),
				locSettingsSuite("settings"),
				locBinaryShapes("shapes"),
				countDocs("counts", 2, func(t *eng.T, d *ref.Doc, way int, when string) {
					s := diskSys("de")
					lopTr("d1", kinds[way], d).Do(s)
					lopTr("mem", "po", mark("fr", pfFr, "T-mem")).Do(s)
					recv := locReceivers()[int(eng.Hash(when)%5)]
					checkLocBinary(t, "a domain with "+when, s, recv, false)
				}),
			}
		}})
}

func locPkgSuite(name string) eng.Suite {
	return eng.Suite{Name: name, N: 40, Bound: "0 to 39 domains", Run: func(t *eng.T, i int64) {
		s := diskSys("de")
		for k := int64(0); k < i; k++ {
			pf := []string{pfEn, pfRu, pfAr, pfJa, "", pfFr}[k%6]
			kind := []string{"po", "mo"}[k%2]
			lopTr(fmt.Sprintf("dom%d", k), kind, mark("xx", pf, fmt.Sprintf("T%d", k))).Do(s)
		}
		lopDef("dom3").Do(s)
		t.State(s.M.String())
		t.Nontriv()
		for _, r := range locReceivers() {
			checkLocBinary(t, fmt.Sprintf("%d domains", i), s, r, false)
		}
	}}
}

// locValueSuite: special values as domain names, languages, texts.
func locValueSuite(name string) eng.Suite {
	nv := len(Values)
	r := []int{nv, nv, 2}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("%d^2 special values as domain name, default domain, keys, headers and texts, PO- and MO-backed", nv), Run: func(t *eng.T, i int64) {
		d := eng.Digits(i, r...)
		v, w := Values[d[0]], Values[d[1]]
		h, c := valueCase([]string{"po", "mo"}[d[2]], 1, v, w, v+"s", w, v)
		l := gotext.NewLocale("no/such/"+"dir", "de")
		if h.P != nil {
			l.AddTranslator(v, h.P)
		} else {
			l.AddTranslator(v, h.M)
		}
		l.SetDomain(w)
		t.Nontriv()
		t.State(v + "\x00" + w + LocState(l))
		before := LocState(l)
		b := mustMarshal(t, "values", l)
		for ri, rc := range locReceivers() {
			x := rc()
			if err := x.UnmarshalBinary(b); err != nil {
				t.Failf("decode", "domain %q: UnmarshalBinary: %v", v, err)
			}
			Same(t, "locale-roundtrip", fmt.Sprintf("domain %q default %q receiver %d", v, w, ri), LocState(x), before)
			if x.GetDomain() != w || x.Domains[v] == nil {
				t.Failf("locale-roundtrip", "domain %q default %q are not back", v, w)
			}
			if x.Domains[v] != nil {
				Same(t, "locale-roundtrip", fmt.Sprintf("domain %q", v), Canon(x.Domains[v].GetDomain(), true, false), c.Canon(true, false))
			}
		}
	}}
}

func locBlob() ([]byte, string) {
	s := diskSys("de_AT")
	for _, o := range []LocOp{lopAdd("d1"), lopTr("mem", "mo", mark("fr", pfFr, "T-mem")), lopDef("mem")} {
		o.Do(s)
	}
	b, err := s.L.MarshalBinary()
	if err != nil {
		panic(err)
	}
	return b, LocState(s.L)
}

// locCorruptSuite: every truncation, and every byte set to every of a few values.
func locCorruptSuite(name string) eng.Suite {
	b, _ := locBlob()
	n := len(b)
	junk := [][]byte{nil, {}, {0}, {1}, []byte("not gob"), []byte(strings.Repeat("x", 1000)), ref.WritePO(docEn, ref.Layout{}), ref.WriteMO(docEn, ref.MOLayout{}).Data}
	for _, k := range kinds {
		h := New(k)
		h.Set("a", "b")
		x, _ := h.A.MarshalBinary()
		junk = append(junk, x)
	}
	const flips = 6
	// gob writes map entries in map order, so that the length of the blob is what is fixed
	total := int64(n + n*flips + len(junk))
	return eng.Suite{Name: name, N: total, Bound: fmt.Sprintf("every truncation of a %d byte blob, every byte changed in %d ways, and foreign data", n, flips), Run: func(t *eng.T, i int64) {
		blob, _ := locBlob()
		var in []byte
		what := ""
		strict := false
		switch {
		case i < int64(n):
			in, what, strict = blob[:i], fmt.Sprintf("truncated to %d of %d bytes", i, len(blob)), true
		case i < int64(n+n*flips):
			k := i - int64(n)
			in = append([]byte(nil), blob...)
			p := k / flips
			old := in[p]
			in[p] = [...]byte{old ^ 1, old ^ 0x80, 0, 0xff, old + 1, old - 1}[k%flips]
			what = fmt.Sprintf("byte %d changed from %#x to %#x", p, old, in[p])
		default:
			k := i - int64(n+n*flips)
			in, what, strict = junk[k], fmt.Sprintf("foreign data #%d", k), true
		}
		for ri, rc := range locReceivers() {
			l := rc()
			before := LocState(l)
			err := l.UnmarshalBinary(append([]byte(nil), in...))
			t.Step(1)
			if err == nil {
				if strict && !(len(in) == len(blob)) {
					t.Failf("bad-accepted", "%s, receiver %d: accepted", what, ri)
				}
				t.Outcome("accepted")
				continue
			}
			t.Outcome("refused")
			t.Nontriv()
			t.State(what)
			Same(t, "bad-changes", fmt.Sprintf("%s, receiver %d: refused with %q but the Locale changed", what, ri, err), LocState(l), before)
		}
	}}
}

// failTr is a Translator which cannot be encoded.
type failTr struct{ ownTr }

func (failTr) MarshalBinary() ([]byte, error) { return nil, fmt.Errorf("cannot be encoded") }

// locInnerSuite: a blob in which the data of one domain is damaged, and Locales with a domain which cannot be encoded.
func locInnerSuite(name string) eng.Suite {
	parts := func() (gotext.LocaleEncoding, []string) {
		b, _ := locBlob()
		var o gotext.LocaleEncoding
		if err := gob.NewDecoder(bytes.NewReader(b)).Decode(&o); err != nil {
			panic(err)
		}
		var ks []string
		for k := range o.Domains {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		return o, ks
	}
	o, ks := parts()
	type cut struct {
		dom string
		at  int
	}
	var cuts []cut
	for _, k := range ks {
		for at := 0; at < len(o.Domains[k]); at++ {
			cuts = append(cuts, cut{k, at})
		}
		cuts = append(cuts, cut{k, -1}, cut{k, -2})
	}
	const fails = 8
	return eng.Suite{Name: name, N: int64(len(cuts) + fails), Bound: fmt.Sprintf("the data of one of %d domains truncated at every byte or replaced; Locales of 1..4 domains with one of them not encodable", len(ks)), Run: func(t *eng.T, i int64) {
		t.Nontriv()
		if i >= int64(len(cuts)) {
			n := int(i-int64(len(cuts)))/2 + 1
			l := gotext.NewLocale("no/such", "de")
			for k := 0; k < n; k++ {
				h := New("po")
				h.Set("a", "A")
				if k == n-1 {
					l.AddTranslator(fmt.Sprintf("dom%d", k*int(1-i%2*2)+9), &failTr{ownTr{h.P}})
				} else {
					l.AddTranslator(fmt.Sprintf("dom%d", k*int(1-i%2*2)+9), h.P)
				}
			}
			if b, err := l.MarshalBinary(); err == nil {
				t.Failf("loss-unreported", "a Locale of %d domains, one of which cannot be encoded: MarshalBinary gives %d bytes and no error", n, len(b))
			}
			t.Step(1)
			t.State(fmt.Sprintf("fail %d", i))
			return
		}
		c := cuts[i]
		o, _ := parts()
		what := fmt.Sprintf("data of domain %q truncated to %d of %d bytes", c.dom, c.at, len(o.Domains[c.dom]))
		switch {
		case c.at == -1:
			o.Domains[c.dom], what = []byte("not gob"), "data of domain "+c.dom+" replaced by other text"
		case c.at == -2:
			b, _ := locBlob()
			o.Domains[c.dom], what = b[:len(b)/2], "data of domain "+c.dom+" replaced by half a Locale"
		default:
			if c.at >= len(o.Domains[c.dom]) {
				return
			}
			o.Domains[c.dom] = o.Domains[c.dom][:c.at]
		}
		var w bytes.Buffer
		if err := gob.NewEncoder(&w).Encode(o); err != nil {
			panic(err)
		}
		t.State(what)
		for ri, rc := range locReceivers() {
			l := rc()
			before := LocState(l)
			err := l.UnmarshalBinary(append([]byte(nil), w.Bytes()...))
			t.Step(1)
			if err == nil {
				t.Failf("bad-accepted", "%s, receiver %d: accepted", what, ri)
			}
			Same(t, "bad-changes", fmt.Sprintf("%s, receiver %d: refused with %q but the Locale changed", what, ri, err), LocState(l), before)
		}
	}}
}
