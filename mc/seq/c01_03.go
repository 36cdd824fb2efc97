package seq

import (
	"fmt"

	"verif/eng"
	"verif/ref"
)

func scaleDoc(n int) *ref.Doc {
	d := &ref.Doc{Header: hdr("ru", pfRu)}
	for i := 0; i < n; i++ {
		id := fmt.Sprintf("id %d", i)
		switch i % 4 {
		case 0:
			d.Ents = append(d.Ents, ref.Sing("", id, fmt.Sprintf("str %d", i)))
		case 1:
			d.Ents = append(d.Ents, ref.Sing(fmt.Sprintf("ctx %d", i%23), id, fmt.Sprintf("cstr %d", i), fmt.Sprintf("f%d.go:%d", i%7, i)))
		case 2:
			d.Ents = append(d.Ents, ref.Plur("", id, id+"s", fmt.Sprintf("f0 %d", i), fmt.Sprintf("f1 %d", i), fmt.Sprintf("f2 %d", i)))
		case 3:
			d.Ents = append(d.Ents, ref.Plur("ctx", id, id+"s", fmt.Sprintf("c0 %d", i), fmt.Sprintf("c1 %d", i), fmt.Sprintf("c2 %d", i)))
		}
	}
	return d
}

var scaleNs = []int{1, 2, 7, 17, 33, 64, 65, 100, 129, 256, 257, 500, 1000, 1025, 2048, 5000}

// bigFormNs are numbers at which integer widths matter.
var bigNs = []int{0, 1, 2, 3, 4, 5, 10, 11, 12, 19, 20, 21, 22, 99, 100, 101, 102, 111, 112, 121, 127, 128, 255, 256, 257, 1000, 1001, 32767, 32768, 65535, 65536, 65537, 1000000, 1000001, 2147483647, 2147483648, 4294967295, 4294967296, 4294967297, 1000000000001}

// valueCase builds a catalog where the values stand in every position, by the given way.
func valueCase(kind string, way int, ctx, id, pl, s0, s1 string) (*H, *ref.Cat) {
	h, c := New(kind), ref.NewCat()
	other := []ref.Ent{ref.Sing("", "other", "OTHER"), ref.Plur("octx", "other", "others", "O0", "O1")}
	d := &ref.Doc{Header: hdr("en", pfEn), Ents: append(other, ref.Sing("", id, s0), ref.Plur("", id+"!", pl, s0, s1), ref.Sing(ctx, id, s1), ref.Plur(ctx, id+"!", pl, s1, s0))}
	switch {
	case way == 0 && kind != "dom":
		h.Load(d)
		c.Load(d)
	default:
		h.Set("other", "OTHER")
		c.Set("", "other", "OTHER")
		h.Set(id, s0)
		c.Set("", id, s0)
		h.SetN(id+"!", pl, 1, s0)
		c.SetN("", id+"!", pl, 1, s0)
		h.SetN(id+"!", pl, 3, s1)
		c.SetN("", id+"!", pl, 3, s1)
		h.SetC(id, ctx, s1)
		c.Set(ctx, id, s1)
		h.SetNC(id+"!", pl, ctx, 1, s1)
		c.SetN(ctx, id+"!", pl, 1, s1)
		h.SetNC(id+"!", pl, ctx, 0, s0)
		c.SetN(ctx, id+"!", pl, 0, s0)
	}
	return h, c
}

func valueKeys(ctx, id, pl string) []Key {
	return []Key{{"", id, pl}, {"", id + "!", pl}, {ctx, id, pl}, {ctx, id + "!", pl}, {"", ctx, pl}, {id, ctx, pl}, {"", id + " ", pl}, {ctx + " ", id, pl}, {"", "other", "x"}, {"octx", "other", "x"}, {"", pl, id}, {"nope", id, pl}}
}

func valueSuite(name string, kinds []string, f func(t *eng.T, h *H, c *ref.Cat, keys []Key, when string)) eng.Suite {
	nv := len(Values)
	r := []int{len(kinds), 2, nv, nv, 4}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("%d^2 pairs of special values in the positions context/id/plural/translation, built by parse and by edits", nv),
		Run: func(t *eng.T, i int64) {
			d := eng.Digits(i, r...)
			v, w := Values[d[2]], Values[d[3]]
			a := [4]string{"ctx", "id", "plural", "text"}
			a[d[4]] = v
			a[(d[4]+1)%4] = w
			if d[1] == 0 && kinds[d[0]] == "dom" {
				return
			}
			h, c := valueCase(kinds[d[0]], d[1], a[0], a[1], a[2], a[3], a[3]+" #2")
			when := fmt.Sprintf("%s built by %s with ctx=%q id=%q plural=%q text=%q", kinds[d[0]], []string{"parse", "edits"}[d[1]], a[0], a[1], a[2], a[3])
			t.State(Canon(h.D, true, false))
			t.Nontriv()
			t.Tracef("%s", when)
			f(t, h, c, valueKeys(a[0], a[1], a[2]), when)
		}}
}

func sizeSuite(name string, tier string, kinds []string, f func(t *eng.T, h *H, c *ref.Cat, keys []Key, when string)) eng.Suite {
	Sizes := Sizes
	if tier == "small" {
		for i, n := range Sizes {
			if n > 70000 {
				Sizes = Sizes[:i]
				break
			}
		}
	}
	r := []int{len(kinds), 2, len(Sizes), 4}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("string lengths %v in the positions context/id/plural/translation", Sizes),
		Run: func(t *eng.T, i int64) {
			d := eng.Digits(i, r...)
			if d[1] == 0 && kinds[d[0]] == "dom" {
				return
			}
			a := [4]string{"ctx", "id", "plural", "text"}
			a[d[3]] = rep("abc é%d\\\"\n", Sizes[d[2]]-1) + "x"
			a[d[3]] = validUTF8(a[d[3]])
			h, c := valueCase(kinds[d[0]], d[1], a[0], a[1], a[2], a[3], a[3]+" #2")
			t.State(Canon(h.D, true, false))
			t.Nontriv()
			when := fmt.Sprintf("%s, %d bytes in position %d", kinds[d[0]], Sizes[d[2]], d[3])
			t.Tracef("%s", when)
			f(t, h, c, valueKeys(a[0], a[1], a[2]), when)
		}}
}

func scaleSuite(name string, kinds []string, f func(t *eng.T, h *H, c *ref.Cat, keys []Key, when string)) eng.Suite {
	r := []int{len(kinds), len(scaleNs)}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("catalogs of %v entries", scaleNs),
		Run: func(t *eng.T, i int64) {
			d := eng.Digits(i, r...)
			k := kinds[d[0]]
			doc := scaleDoc(scaleNs[d[1]])
			h, c := New(k), ref.NewCat()
			if k == "dom" {
				p := New("po")
				p.Load(doc)
				b, _ := p.P.MarshalBinary()
				if err := h.D.UnmarshalBinary(b); err != nil {
					panic(err)
				}
			} else {
				h.Load(doc)
			}
			c.Load(doc)
			// and a few edits on top
			for j := 0; j < scaleNs[d[1]]; j += 5 {
				id := fmt.Sprintf("id %d", j)
				h.Set(id, "edited "+id)
				c.Set("", id, "edited "+id)
				h.SetNC(id, id+"s", "ctx", 2, "edited few "+id)
				c.SetN("ctx", id, id+"s", 2, "edited few "+id)
			}
			var keys []Key
			for j := 0; j <= scaleNs[d[1]]; j++ {
				id := fmt.Sprintf("id %d", j)
				keys = append(keys, Key{"", id, id + "s"}, Key{"ctx", id, id + "s"}, Key{fmt.Sprintf("ctx %d", j%23), id, id + "s"})
			}
			t.State(Canon(h.D, true, false))
			t.Nontriv()
			f(t, h, c, keys, fmt.Sprintf("%s of %d entries", k, scaleNs[d[1]]))
		}}
}

func validUTF8(s string) string {
	out := []rune(s)
	for i, r := range out {
		if r == 0xFFFD {
			out[i] = '?'
		}
	}
	return string(out)
}

// formSuite: entries with up to 6 forms of which every subset is stored, for every rule.
func formSuite(name string, f func(t *eng.T, h *H, c *ref.Cat, keys []Key, ns []int, when string)) eng.Suite {
	rules := []string{"", pfEn, pfFr, pfRu, pfJa, pfAr}
	r := []int{2, len(rules), 64, 2}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: "every subset of 6 stored plural forms, under 6 plural rules, with and without the entry's plural id",
		Run: func(t *eng.T, i int64) {
			d := eng.Digits(i, r...)
			pl := []string{"items", ""}[d[3]]
			doc := &ref.Doc{Header: hdr("xx", rules[d[1]])}
			for _, ctx := range []string{"", "menu"} {
				e := ref.Ent{Ctx: ctx, ID: "item", Plural: pl}
				for j := 0; j < 6; j++ {
					if d[2]&(1<<j) != 0 {
						e.Forms = append(e.Forms, ref.Form{I: j, S: fmt.Sprintf("%sform %d", ctx, j)})
					}
				}
				if pl == "" { // singular entry in the text, forms by edits below
					e.Forms = nil
				}
				doc.Ents = append(doc.Ents, e)
			}
			kind := []string{"po", "mo"}[d[0]]
			if kind == "mo" && (d[2] == 0 || pl == "") {
				return
			}
			h, c := New(kind), ref.NewCat()
			if pl == "" {
				doc.Ents = nil
				h.Load(doc)
				c.Load(doc)
				res := func(n int) int { return n }
				h.SetResolver(res)
				c.Resolver = res
				for j := 0; j < 6; j++ {
					if d[2]&(1<<j) != 0 {
						h.SetN("item", "", j, fmt.Sprintf("form %d", j))
						c.SetN("", "item", "", j, fmt.Sprintf("form %d", j))
						h.SetNC("item", "", "menu", j, fmt.Sprintf("menuform %d", j))
						c.SetN("menu", "item", "", j, fmt.Sprintf("menuform %d", j))
					}
				}
			} else {
				h.Load(doc)
				c.Load(doc)
			}
			t.State(kind + Full(h, false, false))
			t.Nontriv()
			f(t, h, c, []Key{{"", "item", "caller items"}, {"menu", "item", "caller items"}, {"", "missing", "missings"}, {"menu", "missing", "missings"}}, bigNs,
				fmt.Sprintf("%s with rule %q, stored forms %06b, plural id %q", kind, rules[d[1]], d[2], pl))
		}}
}

func init() {
	eng.Register(&eng.Prop{ID: "C01", Level: "model_checking",
		Rule:   "each lookup of the universe is compared with a reference catalog after every operation history; lookups are repeated to see that they change nothing",
		Assume: []string{"message ids and contexts are non-empty; where the library has two conventions for an untranslated plural (by form, by n being 1) either is accepted"},
		Suites: func(tier string) []eng.Suite {
			o := Opt{Get: true, Args: true}
			full := func(t *eng.T, h *H, c *ref.Cat, when string) {
				before := Full(h, true, true)
				Observe(t, when, h.A, c, histKeys, histNs, o)
				if after := Full(h, true, true); after != before {
					t.Failf("lookup-mutates", "%s: lookups changed the catalog:\n%s", when, Diff(after, before))
				}
			}
			big := func(t *eng.T, h *H, c *ref.Cat, keys []Key, when string) {
				Observe(t, when, h.A, c, keys, []int{0, 1, 2, 5}, o)
			}
			return []eng.Suite{
				histSuite("histories", 3, histOps(), kinds, full),
				watchedSuite("watched", tierInt(tier, 2, 3), histOps(), kinds, full, nil),
				histSuite("edit-histories", tierInt(tier, 4, 5), editOps(), []string{"po"}, full),
				valueSuite("values", kinds, big),
				sizeSuite("sizes", tier, kinds, big),
				scaleSuite("scale", kinds, func(t *eng.T, h *H, c *ref.Cat, keys []Key, when string) {
					Observe(t, when, h.A, c, keys, []int{1, 3, 5}, Opt{Get: true})
				}),
				formSuite("forms", func(t *eng.T, h *H, c *ref.Cat, keys []Key, ns []int, when string) {
					Observe(t, when, h.A, c, keys, ns, o)
				}),
				argSuite("arguments"),
				countSuite("counts", kinds, func(t *eng.T, h *H, c *ref.Cat, keys []Key, when string) {
					Observe(t, when, h.A, c, keys, []int{1, 2}, Opt{Get: true})
				}),
				editSuite("edits", func(t *eng.T, h *H, c *ref.Cat, when string) {
					Observe(t, when, h.A, c, editKeys, []int{0, 1, 2, 5}, Opt{Get: true})
				}),
				twinSuite("twins"),
				observeShapes(Opt{Get: true}),
				{Name: "histories-deep", N: deepN(tier), Bound: "all histories of 4 operations, Po", Run: func(t *eng.T, i int64) {
					ops := histOps()
					seq := eng.SeqAt(eng.SeqCount(len(ops), 3)+i, len(ops))
					h, c := runHist(t, "po", ops, seq)
					t.StateHash(eng.Hash(c.Canon(true, true)))
					Observe(t, "after "+histName("po", ops, seq), h.A, c, histKeys, []int{1, 2, 5}, Opt{Get: true})
				}},
			}
		}})
	eng.Register(&eng.Prop{ID: "C02", Level: "model_checking",
		Rule: "for every catalog state, key, argument list and prefix slice (nil, empty, full, with spare capacity) the appended bytes are compared with prefix + Get; the result is then overwritten and the lookups repeated",
		Suites: func(tier string) []eng.Suite {
			o := Opt{Append: true, Args: true, Get: true}
			big := func(t *eng.T, h *H, c *ref.Cat, keys []Key, when string) {
				Observe(t, when, h.A, c, keys, []int{0, 1, 2, 5}, o)
			}
			return []eng.Suite{
				histSuite("histories", tierInt(tier, 2, 3), histOps(), kinds, func(t *eng.T, h *H, c *ref.Cat, when string) {
					before := Full(h, true, true)
					Observe(t, when, h.A, c, histKeys, histNs, o)
					Observe(t, when, h.A, c, histKeys, histNs, Opt{Get: true})
					if after := Full(h, true, true); after != before {
						t.Failf("append-mutates", "%s: Append lookups changed the catalog:\n%s", when, Diff(after, before))
					}
				}),
				watchedSuite("watched", tierInt(tier, 2, 3), histOps(), kinds, func(t *eng.T, h *H, c *ref.Cat, when string) {
					Observe(t, when, h.A, c, histKeys, watchNs, o)
				}, nil),
				valueSuite("values", []string{"po", "dom"}, big),
				sizeSuite("sizes", "small", kinds, big),
				formSuite("forms", func(t *eng.T, h *H, c *ref.Cat, keys []Key, ns []int, when string) {
					Observe(t, when, h.A, c, keys, ns, o)
				}),
				countSuite("counts", kinds, func(t *eng.T, h *H, c *ref.Cat, keys []Key, when string) {
					Observe(t, when, h.A, c, keys, []int{1, 2}, Opt{Append: true, Get: true})
				}),
				editSuite("edits", func(t *eng.T, h *H, c *ref.Cat, when string) {
					Observe(t, when, h.A, c, editKeys, []int{1, 2, 5}, Opt{Append: true, Get: true})
				}),
				appendSuite("prefixes"),
				tailSuite("prefix-bytes"),
				keptSuite("kept-results"),
				observeShapes(Opt{Get: true, Append: true}),
			}
		}})
}

// editOps is a smaller alphabet explored deeper.
func editOps() []Op {
	return []Op{
		opLoad("en", docEn), opLoad("ru", docRu), opSet("a", "A set"), opSet("a", ""), opSetN("p", "ps", 1, "P one"), opSetN("p", "ps", 5, "P many"), opSetN("a", "as", 1, ""),
		opSetC("a", "c", "A set in c"), opSetNC("p", "ps", "c", 2, "CP few"), opSetNC("a", "as", "c", 5, "CA many"), opDrop, opResolver, opRoundtrip2, opSetC("a", "a", "A in a"),
	}
}

// opRoundtrip2 keeps the stale marks out of play by editing nothing.
var opRoundtrip2 = Op{"export text, parse into itself", func(h *H, c *ref.Cat) {
	if h.P == nil {
		return
	}
	h.P.Parse(h.Text())
	for k, e := range c.M {
		e.Dirty = false
		if e.Plural == "" { // only form 0 of an entry without plural id is exported
			for i := range e.Forms {
				if i != 0 {
					delete(e.Forms, i)
				}
			}
		}
		_ = k
	}
	if c.PF != "" {
		c.Rule = ref.RuleOf(c.PF)
	}
}}

func deepN(tier string) int64 {
	n := int64(len(histOps()))
	return n * n * n * n
}

// argSuite: texts with every verb, argument lists of every kind.
func argSuite(name string) eng.Suite {
	texts := []string{"plain", "%d", "%s and %v", "100%", "%%", "%d%%", "%[2]s %[1]d", "%5.2f|%-8s|%+d", "%!", "%z", "%", "%d %d %d", "%s", "%T %p"[:2], "%x %X %o %b %e %g %t %q %c %U", "é%sé", "%*d", "a\n%s\n"}
	args := [][]interface{}{nil, {1}, {"x"}, {1, "x"}, {"x", 1}, {nil}, {1, 2, 3}, {1.5}, {true}, {[]int{1, 2}}, {map[string]int{"a": 1}}, {fmt.Errorf("err")}, {struct{ A int }{1}}, {"%d"}, {[]byte("b")}, {'r'}, {"a", "b", "c", "d", "e", "f"}, {[]interface{}{1, 2}}, {""}}
	r := []int{len(kinds), len(texts), len(args), 3}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("%d texts with printf verbs x %d argument lists x all lookup kinds; text stored, source, or plural source", len(texts), len(args)),
		Run: func(t *eng.T, i int64) {
			d := eng.Digits(i, r...)
			h := New(kinds[d[0]])
			c := ref.NewCat()
			id, pl := "id", "ids"
			switch d[3] {
			case 0:
				h.Set(id, texts[d[1]])
				c.Set("", id, texts[d[1]])
				h.SetN(id, pl, 2, texts[d[1]]+"2")
				c.SetN("", id, pl, 2, texts[d[1]]+"2")
				h.SetC(id, "c", texts[d[1]]+"c")
				c.Set("c", id, texts[d[1]]+"c")
				h.SetNC(id, pl, "c", 2, texts[d[1]]+"c2")
				c.SetN("c", id, pl, 2, texts[d[1]]+"c2")
			case 1:
				id = texts[d[1]]
			case 2:
				pl = texts[d[1]]
			}
			t.State(id + pl + Canon(h.D, false, false))
			t.Nontriv()
			a := args[d[2]]
			for _, k := range []Key{{"", id, pl}, {"c", id, pl}} {
				want, _ := c.Get(k.Ctx, k.ID)
				want = sprint(want, a)
				for _, n := range []int{1, 2} {
					wn, _, _ := c.GetN(k.Ctx, k.ID, k.Plural, n)
					wn = sprint(wn, a)
					var got, gotn string
					var ap, apn []byte
					if k.Ctx == "" {
						got, gotn = h.A.Get(id, a...), h.A.GetN(id, pl, n, a...)
						ap, apn = h.A.Append([]byte("<"), id, a...), h.A.AppendN([]byte("<"), id, pl, n, a...)
					} else {
						got, gotn = h.A.GetC(id, "c", a...), h.A.GetNC(id, pl, n, "c", a...)
						ap, apn = h.A.AppendC([]byte("<"), id, "c", a...), h.A.AppendNC([]byte("<"), id, pl, n, "c", a...)
					}
					t.Step(4)
					if got != want || gotn != wn {
						t.Failf("format", "%s: id=%q ctx=%q plural=%q n=%d args=%#v: got %q and %q, want %q and %q", h.Kind, id, k.Ctx, pl, n, a, got, gotn, want, wn)
					}
					if string(ap) != "<"+want || string(apn) != "<"+wn {
						t.Failf("append-format", "%s: Append: id=%q ctx=%q plural=%q n=%d args=%#v: got %q and %q, want < + %q and %q", h.Kind, id, k.Ctx, pl, n, a, ap, apn, want, wn)
					}
				}
			}
		}}
}

// appendSuite: prefixes of every length and spare capacity against texts of several lengths.
func appendSuite(name string) eng.Suite {
	plens := []int{0, 1, 2, 7, 8, 31, 32, 33, 63, 64, 100, 255, 256, 511, 512, 1000, 1023, 1024, 1025, 4096, 5000, 65536}
	spare := []int{0, 1, 2, 3, 4, 7, 8, 16, 63, 64, 127, 128, 256, 1024, 4096, 70000}
	lens := []int{1, 2, 5, 31, 32, 64, 300, 1024, 5000}
	r := []int{len(kinds), len(plens), len(spare), len(lens), 2}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("%d prefix lengths x %d spare capacities x %d text lengths, with and without arguments", len(plens), len(spare), len(lens)),
		Run: func(t *eng.T, i int64) {
			d := eng.Digits(i, r...)
			h := New(kinds[d[0]])
			txt := rep("0123456789abcdef%", lens[d[3]])
			var args []interface{}
			if d[4] == 1 {
				txt = rep("0123456789abcdef.", lens[d[3]]) + "%d!"
				args = []interface{}{12345}
			}
			h.Set("i", txt)
			h.SetN("j", "js", 2, txt)
			h.SetC("i", "c", txt)
			h.SetNC("j", "js", "c", 2, txt)
			want := sprint(txt, args)
			pre := make([]byte, plens[d[1]], plens[d[1]]+spare[d[2]])
			for k := range pre {
				pre[k] = byte(k*7 + 3)
			}
			keep := string(pre)
			calls := []func() []byte{
				func() []byte { return h.A.Append(pre, "i", args...) },
				func() []byte { return h.A.AppendN(pre, "j", "js", 2, args...) },
				func() []byte { return h.A.AppendC(pre, "i", "c", args...) },
				func() []byte { return h.A.AppendNC(pre, "j", "js", 2, "c", args...) },
				func() []byte { return h.A.Append(pre, txt+"", args...) }, // source text
				func() []byte { return h.A.AppendNC(pre, "one", txt, 2, "c", args...) },
			}
			t.State(fmt.Sprint(d))
			t.Nontriv()
			for k, f := range calls {
				res := f()
				checkAppend(t, fmt.Sprintf("%s, prefix %d bytes + %d spare", h.Kind, plens[d[1]], spare[d[2]]), "Append#"+itoa(k), Key{"c", "i", "js"}, 2, args, pre, keep, res, want)
				for j := range pre {
					pre[j] = keep[j]
				}
			}
			for k := range pre {
				pre[k] = 'Z'
			}
			if got := h.A.Get("i", args...); got != want {
				t.Failf("append-retains", "after overwriting the slices the stored text reads %s, want %s", q(got), q(want))
			}
		}}
}

// tailSuite: every last byte a prefix can have, with bytes behind its end that belong to someone else.
func tailSuite(name string) eng.Suite {
	spare := []int{0, 1, 8, 64, 1000}
	r := []int{len(kinds), 256, len(spare), 2}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("every last byte of the prefix x spare capacities %v x with and without arguments; the whole backing array is watched", spare), Run: func(t *eng.T, i int64) {
		d := eng.Digits(i, r...)
		h := New(kinds[d[0]])
		txt, args := "text %%", []interface{}(nil)
		if d[3] == 1 {
			txt, args = "%v of %s", []interface{}{5, "x"}
		}
		h.Set("i", txt)
		h.SetN("j", "js", 2, txt)
		h.SetC("i", "c", txt)
		h.SetNC("j", "js", "c", 2, txt)
		want := sprint(txt, args)
		t.State(fmt.Sprint(d))
		t.Nontriv()
		for _, plen := range []int{1, 2, 17} {
			back := make([]byte, plen+spare[d[2]])
			for k := range back {
				back[k] = byte(k*11 + 65)
			}
			back[plen-1] = byte(d[1])
			for k, f := range []func(b []byte) []byte{
				func(b []byte) []byte { return h.A.Append(b, "i", args...) },
				func(b []byte) []byte { return h.A.AppendN(b, "j", "js", 2, args...) },
				func(b []byte) []byte { return h.A.AppendC(b, "i", "c", args...) },
				func(b []byte) []byte { return h.A.AppendNC(b, "j", "js", 2, "c", args...) },
				func(b []byte) []byte { return h.A.Append(b, txt, args...) },
				func(b []byte) []byte { return h.A.AppendN(b, "one", txt, 2, args...) },
			} {
				own := append([]byte(nil), back...)[:plen:len(back)]
				keep := string(own)
				res := f(own)
				if string(own) != keep {
					t.Failf("append-input", "%s: Append#%d changed the caller's bytes %q to %q", h.Kind, k, keep, own)
				}
				if string(res) != keep+want {
					t.Failf("append", "%s: Append#%d(%q) with capacity %d = %q, want %q", h.Kind, k, keep, cap(own), res, keep+want)
				}
				t.Step(1)
			}
		}
	}}
}

// keptSuite: what a lookup returned stays as it is, whatever is looked up or written afterwards.
func keptSuite(name string) eng.Suite {
	lens := []int{0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 4095, 4096, 4097, 10000, 65536}
	pres := []int{-1, 0, 1, 16} // -1: nil
	r := []int{len(kinds), len(lens), len(pres), 2, 6, 6}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("%d text lengths x 4 prefixes (nil, empty, short, longer) x with and without arguments x all 36 pairs of Append lookups: the first result is kept, the second one and the prefix are overwritten", len(lens)), Run: func(t *eng.T, i int64) {
		d := eng.Digits(i, r...)
		h := New(kinds[d[0]])
		mk := func(c byte) (string, []interface{}) {
			b := make([]byte, lens[d[1]])
			for k := range b {
				b[k] = c + byte(k%7)
			}
			if d[3] == 1 {
				return string(b) + "%d", []interface{}{int(c)}
			}
			return string(b), nil
		}
		calls := func(c byte, pre []byte, which int) ([]byte, string) {
			txt, args := mk(c)
			id, src := "i"+string(c), "s"+string(c)
			if txt != "" {
				src = txt
				switch which {
				case 0:
					h.Set(id, txt)
				case 1:
					h.SetN(id, "p", 2, txt)
				case 2:
					h.SetC(id, "c", txt)
				case 3:
					h.SetNC(id, "p", "c", 2, txt)
				}
			} else {
				id = src
			}
			switch which {
			case 0:
				return h.A.Append(pre, id, args...), sprint(src, args)
			case 1:
				return h.A.AppendN(pre, id, src, 2, args...), sprint(src, args)
			case 2:
				return h.A.AppendC(pre, id, "c", args...), sprint(src, args)
			case 3:
				return h.A.AppendNC(pre, id, src, 2, "c", args...), sprint(src, args)
			case 4:
				return h.A.Append(pre, src, args...), sprint(src, args)
			}
			return h.A.AppendNC(pre, "one", src, 2, "c", args...), sprint(src, args)
		}
		prefix := func(c byte) ([]byte, string) {
			if pres[d[2]] < 0 {
				return nil, ""
			}
			b := make([]byte, pres[d[2]])
			for k := range b {
				b[k] = c
			}
			return b, string(b)
		}
		t.State(fmt.Sprint(d))
		t.Nontriv()
		p1, k1 := prefix('(')
		r1, w1 := calls('A', p1, d[4])
		p2, k2 := prefix('[')
		r2, w2 := calls('a', p2, d[5])
		t.Step(2)
		when := fmt.Sprintf("%s, texts of %d bytes, prefix of %d", h.Kind, lens[d[1]], pres[d[2]])
		if string(r1) != k1+w1 || string(r2) != k2+w2 {
			t.Failf("append-kept", "%s: after Append#%d and Append#%d the results read %s and %s, want %s and %s", when, d[4], d[5], q(string(r1)), q(string(r2)), q(k1+w1), q(k2+w2))
		}
		// appending to a result does not reach the other one either
		r2 = append(r2, "tail"...)
		for k := range r2 {
			r2[k] = '#'
		}
		for k := range p2 {
			p2[k] = '#'
		}
		r3, w3 := calls('q', p2[:0], d[4])
		if string(r1) != k1+w1 || string(r3) != w3 {
			t.Failf("append-kept", "%s: after Append#%d, writing over the result of Append#%d and Append#%d: results read %s and %s, want %s and %s", when, d[4], d[5], d[4], q(string(r1)), q(string(r3)), q(k1+w1), q(w3))
		}
	}}
}
