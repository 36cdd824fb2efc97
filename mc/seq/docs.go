package seq

import (
	"fmt"

	"verif/eng"
	"verif/ref"
)

func hdr(lang, pf string, more ...string) []string {
	h := []string{"Project-Id-Version: p 1.0", "Language: " + lang}
	if pf != "" {
		h = append(h, "Plural-Forms: "+pf)
	}
	return append(h, more...)
}

const (
	pfEn = "nplurals=2; plural=(n != 1);"
	pfFr = "nplurals=2; plural=(n > 1);"
	pfRu = "nplurals=3; plural=(n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<12 || n%100>14) ? 1 : 2);"
	pfJa = "nplurals=1; plural=0;"
	pfAr = "nplurals=6; plural=(n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 ? 4 : 5);"
)

// The documents histories load.
var (
	docEn = &ref.Doc{Header: hdr("en", pfEn), Ents: []ref.Ent{
		ref.Sing("", "a", "A en"), ref.Sing("c", "a", "A en in c", "x.go:1"), ref.Plur("", "p", "ps", "P0 en %d", "P1 en %d"), ref.Sing("", "b", ""),
	}}
	docRu = &ref.Doc{Header: hdr("ru", pfRu), Ents: []ref.Ent{
		ref.Sing("", "a", "A ru", "m.go:3", "m.go:10"), ref.Plur("", "p", "ps", "P0 ru", "P1 ru", "P2 ru"), ref.Plur("c", "p", "ps", "CP0 ru", "", "CP2 ru"),
	}}
	docNoHead = &ref.Doc{Ents: []ref.Ent{ref.Sing("d", "b", "B in d"), ref.Plur("", "a", "as", "a now plural 0", "a now plural 1")}}
	docFr     = &ref.Doc{Header: hdr("fr", pfFr, "X-Note: one", "X-Note: two"), Ents: []ref.Ent{ref.Sing("c", "b", "B fr in c"), ref.Plur("", "p", "ps", "", "P1 fr")}}
	docJa     = &ref.Doc{Header: hdr("ja", pfJa), Ents: []ref.Ent{ref.Plur("", "p", "ps", "P ja"), ref.Sing("", "b", "B ja")}}
	docAr     = &ref.Doc{Header: hdr("ar", pfAr), Ents: []ref.Ent{ref.Plur("", "p", "ps", "ar0", "ar1", "ar2", "ar3", "ar4", "ar5"), ref.Plur("c", "p", "qs", "car0", "car1", "car2", "car3", "car4", "car5")}}
	docBadPF  = &ref.Doc{Header: hdr("xx", "nplurals=2; plural=foo+;"), Ents: []ref.Ent{ref.Plur("", "p", "ps", "x0", "x1")}}
)

var histNs = []int{0, 1, 2, 5, 11, 21, 101}

var histKeys = []Key{
	{"", "a", "as"}, {"", "b", "bs %d"}, {"", "p", "ps"}, {"", "nope %d", "nopes %d %s"},
	{"c", "a", "as"}, {"c", "b", "bs"}, {"c", "p", "ps"}, {"d", "a", "as"}, {"d", "b", "bs"}, {"d", "p", "other ps"}, {"e", "a", "as"}, {"a", "a", "as"},
}

// Op is one step of a history, on the real object and on the model.
type Op struct {
	Name string
	Do   func(h *H, c *ref.Cat)
}

func opLoad(name string, d *ref.Doc) Op {
	return Op{"Parse(" + name + ")", func(h *H, c *ref.Cat) {
		if h.Kind == "dom" {
			// a bare Domain has no Parse: import the merge made elsewhere
			p := New("po")
			p.Load(d)
			b, _ := p.P.MarshalBinary()
			if err := h.D.UnmarshalBinary(b); err != nil {
				panic(err)
			}
			res := c.Resolver
			*c = *ref.NewCat()
			c.Resolver = res
			c.Load(d)
			return
		}
		h.Load(d)
		if h.Kind == "mo" {
			d = stripRefs(d)
		}
		c.Load(d)
	}}
}

func stripRefs(d *ref.Doc) *ref.Doc {
	e := *d
	e.Comments = nil
	e.Ents = append([]ref.Ent(nil), d.Ents...)
	for i := range e.Ents {
		e.Ents[i].Refs = nil
	}
	return &e
}

func opSet(id, s string) Op {
	return Op{fmt.Sprintf("Set(%s,%s)", q(id), q(s)), func(h *H, c *ref.Cat) { h.Set(id, s); c.Set("", id, s) }}
}
func opSetC(id, ctx, s string) Op {
	return Op{fmt.Sprintf("SetC(%s,%s,%s)", q(id), q(ctx), q(s)), func(h *H, c *ref.Cat) { h.SetC(id, ctx, s); c.Set(ctx, id, s) }}
}
func opSetN(id, pl string, n int, s string) Op {
	return Op{fmt.Sprintf("SetN(%s,%s,%d,%s)", q(id), q(pl), n, q(s)), func(h *H, c *ref.Cat) { h.SetN(id, pl, n, s); c.SetN("", id, pl, n, s) }}
}
func opSetNC(id, pl, ctx string, n int, s string) Op {
	return Op{fmt.Sprintf("SetNC(%s,%s,%s,%d,%s)", q(id), q(pl), q(ctx), n, q(s)), func(h *H, c *ref.Cat) { h.SetNC(id, pl, ctx, n, s); c.SetN(ctx, id, pl, n, s) }}
}
func opSetRefs(id string, r ...string) Op {
	return Op{fmt.Sprintf("SetRefs(%s,%q)", q(id), r), func(h *H, c *ref.Cat) { h.SetRefs(id, append([]string(nil), r...)); c.SetRefs(id, r) }}
}

var opDrop = Op{"DropStaleTranslations()", func(h *H, c *ref.Cat) { h.Drop(); c.Drop() }}
var opResolver = Op{"SetPluralResolver(n%4)", func(h *H, c *ref.Cat) {
	f := func(n int) int { return n % 4 }
	h.SetResolver(f)
	c.Resolver = f
}}
var opRoundtrip = Op{"UnmarshalBinary(MarshalBinary())", func(h *H, c *ref.Cat) {
	b, err := h.A.MarshalBinary()
	if err != nil {
		panic(err)
	}
	if err = h.A.UnmarshalBinary(b); err != nil {
		panic(err)
	}
	if c.PF != "" {
		c.Rule = ref.RuleOf(c.PF)
	}
	for _, e := range c.M {
		e.Dirty = false
	}
}}
var opReadAll = Op{"lookups", func(h *H, c *ref.Cat) {
	for _, k := range histKeys {
		h.A.Get(k.ID)
		h.A.GetC(k.ID, k.Ctx)
		h.A.GetN(k.ID, k.Plural, 2)
		h.A.GetNC(k.ID, k.Plural, 2, k.Ctx)
		h.A.IsTranslatedNC(k.ID, 2, k.Ctx)
		h.D.GetRefs(k.ID)
	}
}}

// histOps is the alphabet of catalog histories.
func histOps() []Op {
	return []Op{
		opLoad("en", docEn), opLoad("ru", docRu), opLoad("nohead", docNoHead), opLoad("fr", docFr),
		opSet("a", "A set"), opSet("a", ""), opSet("b", "B %d set"),
		opSetN("p", "ps", 1, "P one"), opSetN("p", "ps", 2, "P few"), opSetN("p", "ps", 5, "P many"), opSetN("a", "as", 5, "A many"),
		opSetC("a", "c", "A set in c"), opSetC("b", "d", "B set in d"), opSetC("a", "c", ""),
		opSetNC("p", "ps", "c", 1, "CP one"), opSetNC("p", "ps", "c", 2, "CP few"), opSetNC("p", "qs", "d", 0, "DP none"),
		opSetRefs("a", "z.go:9"), opSetRefs("b"),
		opDrop, opResolver, opLoad("ja", docJa), opLoad("badpf", docBadPF), opReadAll,
	}
}

// kindsOf a history suite.
var kinds = []string{"po", "mo", "dom"}

// runHist replays the history on a fresh object of the kind; check runs after each step when every is set,
// otherwise after the last.
func runHist(t *eng.T, kind string, ops []Op, seq []int) (*H, *ref.Cat) {
	h, c := New(kind), ref.NewCat()
	for _, o := range seq {
		t.Tracef("%s.%s", kind, ops[o].Name)
		ops[o].Do(h, c)
		t.Step(1)
	}
	return h, c
}

func histName(kind string, ops []Op, seq []int) string {
	s := kind
	for _, o := range seq {
		s += "." + ops[o].Name
	}
	return s
}

// histSuite enumerates all histories up to the depth for every kind.
func histSuite(name string, depth int, ops []Op, kinds []string, f func(t *eng.T, h *H, c *ref.Cat, when string)) eng.Suite {
	n := eng.SeqCount(len(ops), depth)
	return eng.Suite{Name: name, N: n * int64(len(kinds)), Bound: fmt.Sprintf("all histories of 1..%d operations over an alphabet of %d, for %v", depth, len(ops), kinds),
		Run: func(t *eng.T, i int64) {
			k := int(i % int64(len(kinds)))
			seq := eng.SeqAt(i/int64(len(kinds)), len(ops))
			h, c := runHist(t, kinds[k], ops, seq)
			if t.WantSample() && i > 5000 {
				t.Sample("%s", histName(kinds[k], ops, seq))
			}
			st := Full(h, true, true)
			t.State(kinds[k] + st)
			if len(c.M) > 0 {
				t.Nontriv()
			}
			f(t, h, c, "after "+histName(kinds[k], ops, seq))
		}}
}

func tierInt(tier string, quick, thorough int) int {
	if tier == "thorough" {
		return thorough
	}
	return quick
}
