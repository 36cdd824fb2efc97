package seq

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"strings"

	"github.com/leonelquinteros/gotext"

	"verif/eng"
	"verif/ref"
)

// binState is what binary serialisation must keep, as text: entries, headers, language, rule, lookups.
func binState(h *H) string {
	var b strings.Builder
	b.WriteString(Full(h, true, false))
	hd, l, p := h.Public()
	if h.Kind != "dom" {
		fmt.Fprintf(&b, "\nfields %s %q %q", ref.CanonHeaders(hd), l, p)
	}
	for _, k := range histKeys {
		for _, n := range probeNs {
			fmt.Fprintf(&b, "\n%s/%s %d: %s %s %v %v", k.Ctx, k.ID, n, h.A.GetN(k.ID, k.Plural, n), h.A.GetNC(k.ID, k.Plural, n, k.Ctx), h.A.IsTranslatedN(k.ID, n), h.A.IsTranslatedNC(k.ID, n, k.Ctx))
		}
	}
	return b.String()
}

// receivers of a catalog import
var recvNames = []string{"fresh", "en", "ru with comments and edits", "decoded before"}

func receiver(kind string, i int) *H {
	h := New(kind)
	switch i {
	case 1:
		h.Load(docEn)
		if kind == "dom" {
			opLoad("en", docEn).Do(h, ref.NewCat())
		}
	case 2:
		d := *docRu
		d.Comments = []string{"# receiver's comment"}
		d.Header = append(append([]string(nil), d.Header...), "X-Receiver: yes", "Language-Team: r")
		if kind == "dom" {
			opLoad("ru", &d).Do(h, ref.NewCat())
		} else {
			h.Load(&d)
		}
		h.Set("receiver", "only")
		h.SetNC("receiver", "receivers", "rc", 5, "only")
		h.SetRefs("receiver", []string{"r.go:1"})
		h.Set("a", "A of receiver")
	case 3:
		x := New("po")
		x.Load(docAr)
		x.Set("earlier", "import")
		b, _ := x.A.MarshalBinary()
		if err := h.A.UnmarshalBinary(b); err != nil {
			panic(err)
		}
	}
	return h
}

// withFields carries the public field part over between kinds of object.
func cutFields(s string) string {
	i := strings.Index(s, "\nfields ")
	if i < 0 {
		return s
	}
	j := strings.Index(s[i+1:], "\n")
	return s[:i] + s[i+1+j:]
}

func checkBinary(t *eng.T, when string, src *H, recv *H, follow bool) {
	before := Full(src, true, true) + binState(src)
	blob := mustMarshal(t, when, src.A)
	if after := Full(src, true, true) + binState(src); after != before {
		t.Failf("export-mutates", "%s: encoding changed the source: %s", when, Diff(after, before))
	}
	if err := recv.A.UnmarshalBinary(blob); err != nil {
		t.Failf("decode", "%s: UnmarshalBinary: %v", when, err)
	}
	t.Step(2)
	for i := range blob {
		blob[i] = 0x55
	}
	want := cutFields(binState(src))
	Same(t, "binary-roundtrip", when+": decoded against the source", cutFields(binState(recv)), want)
	hd, l, p := recv.Public()
	if ref.CanonHeaders(hd) != ref.CanonHeaders(src.D.Headers) || l != src.D.Language || p != src.D.PluralForms {
		t.Failf("binary-fields", "%s: public fields %s %q %q, want %s %q %q", when, ref.CanonHeaders(hd), l, p, ref.CanonHeaders(src.D.Headers), src.D.Language, src.D.PluralForms)
	}
	// export to text agrees too, but for head comments which binary does not hold
	if a, b := stripComments(string(recv.Text())), stripComments(string(src.Text())); a != b {
		t.Failf("binary-text", "%s: exported text differs after decoding:\n%s", when, Diff(a, b))
	}
	if strings.HasPrefix(string(recv.Text()), "#") {
		t.Failf("binary-comments", "%s: a head comment of the receiver shows through", when)
	}
	if !follow {
		return
	}
	// both are used on, alike and without sharing anything
	keepSrc := Full(src, true, true)
	recv.Set("later", "edit")
	recv.SetC("a", "c", "later edit")
	recv.SetNC("p", "ps", "new", 2, "later edit")
	recv.SetN("p", "ps", 5, "later edit")
	recv.SetRefs("a", []string{"later.go:1"})
	recv.D.Headers.Add("X-Later", "v")
	recv.Drop()
	Same(t, "shared", when+": editing the decoded object changed the source", Full(src, true, true), keepSrc)
	if recv.A.Get("later") != "edit" || recv.A.GetC("a", "c") != "later edit" {
		t.Failf("binary-edit", "%s: edits after decoding are lost", when)
	}
}

func stripComments(s string) string {
	for strings.HasPrefix(s, "#") {
		i := strings.IndexByte(s, '\n')
		s = s[i+1:]
	}
	return s
}

func histOpsBinary() []Op {
	var o []Op
	for _, op := range histOps() {
		if op.Name != opResolver.Name {
			o = append(o, op)
		}
	}
	return append(o, opLoad("ar", docAr), opRoundtrip)
}

func badBlobs() []struct {
	name string
	data func() []byte
} {
	type bb = struct {
		name string
		data func() []byte
	}
	src := func() []byte {
		h := New("po")
		h.Load(docRu)
		h.SetNC("x", "xs", "ctx", 2, "X")
		b, _ := h.A.MarshalBinary()
		return b
	}
	var out []bb
	n := len(src())
	for i := 0; i < n; i++ {
		out = append(out, bb{fmt.Sprintf("truncated to %d bytes", i), func() []byte { b := src(); return b[:min(i, len(b)-1)] }})
	}
	for i := 0; i < n; i++ {
		for k, f := range []func(byte) byte{func(b byte) byte { return b ^ 1 }, func(b byte) byte { return b ^ 0x80 }, func(b byte) byte { return 0xff }, func(b byte) byte { return 0 }, func(b byte) byte { return b + 1 }, func(b byte) byte { return b - 1 }} {
			out = append(out, bb{fmt.Sprintf("byte %d change %d", i, k), func() []byte { b := src(); j := min(i, len(b)-1); b[j] = f(b[j]); return b }})
		}
	}
	for _, j := range [][]byte{nil, {}, {0}, {0xff}, []byte("text"), ref.WritePO(docEn, ref.Layout{}), ref.WriteMO(docEn, ref.MOLayout{}).Data, bytes.Repeat([]byte{0xf8}, 100)} {
		j := j
		out = append(out, bb{fmt.Sprintf("foreign %.10q", j), func() []byte { return append([]byte(nil), j...) }})
	}
	out = append(out, bb{"a Locale", func() []byte {
		l := gotext.NewLocale("p", "de")
		p := gotext.NewPo()
		p.Set("a", "b")
		l.AddTranslator("d", p)
		b, _ := l.MarshalBinary()
		return b
	}}, bb{"a gob of something else", func() []byte {
		var b bytes.Buffer
		gob.NewEncoder(&b).Encode(map[string]int{"a": 1})
		return b.Bytes()
	}}, bb{"a gob of another struct", func() []byte {
		var b bytes.Buffer
		gob.NewEncoder(&b).Encode(struct{ Foo, Bar string }{"a", "b"})
		return b.Bytes()
	}}, bb{"a gob with a wrong field type", func() []byte {
		var b bytes.Buffer
		gob.NewEncoder(&b).Encode(struct {
			Language     string
			Translations int
		}{"zz", 1})
		return b.Bytes()
	}})
	return out
}

func init() {
	eng.Register(&eng.Prop{ID: "C12", Level: "model_checking",
		Rule:   "every reached catalog object is encoded and decoded into every kind of object, fresh, populated, with head comments, decoded before; entries, references, headers, rule, lookups for all n, public fields and text export are compared; every truncation and byte change which is refused leaves the receiver as it was",
		Assume: []string{"a custom plural resolver is a function set by the program: it is not part of the encoding", "stale marks are not part of the encoding"},
		Suites: func(tier string) []eng.Suite {
			ops := histOpsBinary()
			bad := badBlobs()
			big := func(t *eng.T, h *H, c *ref.Cat, keys []Key, when string) {
				for _, k := range kinds {
					r := receiver(k, 2)
					checkBinary(t, when+" into "+k, h, r, false)
					Same(t, "binary-model", when+" into "+k, Canon(r.D, true, false), Canon(h.D, true, false))
				}
			}
			hs := func(name string, depth int, all bool) eng.Suite {
				s := histSuite(name, depth, ops, kinds, func(t *eng.T, h *H, c *ref.Cat, when string) {
					sum := int(eng.Hash(when) % 12)
					for ki, k := range kinds {
						for ri := range recvNames {
							if !all && ki*4+ri != sum {
								continue
							}
							checkBinary(t, when+" into "+k+" "+recvNames[ri], h, receiver(k, ri), true)
						}
					}
				})
				if !all {
					s.Bound += ", each into one of 12 receivers"
				} else {
					s.Bound += ", each into all 12 receivers"
				}
				return s
			}
			return []eng.Suite{
				hs("histories", 2, true), hs("histories-deep", 3, tier == "thorough"),
				watchedSuite("watched", tierInt(tier, 2, 3), ops, kinds, func(t *eng.T, h *H, c *ref.Cat, when string) {
					sum := int(eng.Hash(when) % 12)
					r := receiver(kinds[sum%3], sum/3)
					checkBinary(t, when+" into "+r.Kind+" "+recvNames[sum/3], h, r, false)
					Same(t, "binary-model", when+" into "+r.Kind, Canon(r.D, true, false), c.Canon(true, false))
				}, nil),
				valueSuite("values", []string{"po", "mo"}, big),
				sizeSuite("sizes", "small", kinds, big),
				scaleSuite("scale", kinds, func(t *eng.T, h *H, c *ref.Cat, keys []Key, when string) {
					checkBinary(t, when, h, receiver("po", 1), false)
				}),
				formSuite("forms", func(t *eng.T, h *H, c *ref.Cat, keys []Key, ns []int, when string) {
					if c.Resolver == nil {
						big(t, h, c, keys, when)
					}
				}),
				headerBinSuite("headers"),
				countSuite("counts", kinds, func(t *eng.T, h *H, c *ref.Cat, keys []Key, when string) {
					k, ri := kinds[eng.Hash(when)%3], int(eng.Hash(when)/3%uint64(len(recvNames)))
					r := receiver(k, ri)
					checkBinary(t, when+" into "+k+" "+recvNames[ri], h, r, false)
					Same(t, "binary-model", when+" into "+k, Canon(r.D, true, false), c.Canon(true, false))
				}),
				shapeSuite("shapes", kinds, func(t *eng.T, h *H, c *ref.Cat, keys []Key, when string) {
					for ki, k := range kinds {
						ri := int((eng.Hash(when) + uint64(ki)) % uint64(len(recvNames)))
						r := receiver(k, ri)
						checkBinary(t, when+" into "+k+" "+recvNames[ri], h, r, false)
						Same(t, "binary-model", when+" into "+k, Canon(r.D, true, false), c.Canon(true, false))
						Observe(t, when+" into "+k, r.A, c, keys, []int{1, 2, 5}, Opt{Get: true, IsTr: true})
					}
				}),
				{Name: "corruptions", N: int64(len(bad) * 3 * tierInt(tier, 1, len(recvNames))), Bound: fmt.Sprintf("%d truncations, byte changes and foreign data into the 3 kinds of object in %d of 4 states", len(bad), tierInt(tier, 1, len(recvNames))), Run: func(t *eng.T, i int64) {
					d := eng.Digits(i, len(bad), 3, len(recvNames))
					if tier != "thorough" {
						d[2] = (d[0] + d[1]) % len(recvNames)
					}
					b := bad[d[0]]
					h := receiver(kinds[d[1]], d[2])
					text := string(h.Text())
					before := Full(h, true, true) + binState(h) + text
					err := h.A.UnmarshalBinary(b.data())
					t.Step(1)
					if err == nil {
						t.Outcome("accepted")
						if !strings.HasPrefix(b.name, "byte") {
							t.Failf("bad-accepted", "%s: accepted by %s", b.name, h.Kind)
						}
						return
					}
					t.Outcome("refused")
					t.Nontriv()
					t.State(b.name + h.Kind + itoa(d[2]))
					Same(t, "bad-changes", fmt.Sprintf("%s is refused (%v) but %s %s changed", b.name, err, h.Kind, recvNames[d[2]]), Full(h, true, true)+binState(h)+string(h.Text()), before)
				}},
			}
		}})
}

func headerBinSuite(name string) eng.Suite {
	pfs := append([]string{"", "nplurals=2; plural=oops;", "garbage", "nplurals=1;plural=0", "plural=n>1", "nplurals=3;", ";"}, pfEn, pfFr, pfRu, pfJa, pfAr)
	earlier := []string{"", pfRu, "nplurals=2; plural=oops;", pfJa}
	r := []int{2, len(pfs), 3, 3, len(pfs), len(earlier)}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("all pairs of %d plural rules of source and receiver x %d rules the source was loaded with earlier x 3 kinds x letter case of header keys", len(pfs), len(earlier)), Run: func(t *eng.T, i int64) {
		d := eng.Digits(i, r...)
		load := func(h *H, pf, key string) {
			doc := &ref.Doc{Header: []string{"Language: l" + pf[:min(2, len(pf))], "X-A: 1", "X-A: 2"}, Ents: []ref.Ent{ref.Plur("", "p", "ps", "0", "1", "2", "3", "4", "5"), ref.Plur("c", "p", "ps", "c0", "c1", "c2", "c3", "c4", "c5")}}
			if pf != "" {
				doc.Header = append(doc.Header, key+": "+pf)
			}
			h.Load(doc)
		}
		mk := func(kind, pf, key string) *H {
			h := New(kind)
			load(h, pf, key)
			return h
		}
		key := []string{"Plural-Forms", "plural-forms", "PLURAL-FORMS"}[d[3]]
		src := mk(kinds[d[0]], earlier[d[5]], key)
		if d[5] == 0 {
			src = New(kinds[d[0]])
		}
		load(src, pfs[d[1]], key)
		var recv *H
		if kinds[d[2]] == "dom" {
			recv = New("dom")
			opLoad("x", &ref.Doc{Header: []string{"Plural-Forms: " + pfs[d[4]]}}).Do(recv, ref.NewCat())
		} else {
			recv = mk(kinds[d[2]], pfs[d[4]], "Plural-Forms")
		}
		t.Nontriv()
		t.State(fmt.Sprint(d))
		checkBinary(t, fmt.Sprintf("rule %q (%s) into %s with rule %q", pfs[d[1]], key, kinds[d[2]], pfs[d[4]]), src, recv, false)
	}}
}
