package conc

import (
	"fmt"
	"sort"
	"strings"

	"github.com/leonelquinteros/gotext"

	"verif/eng"
	"verif/ref"
	"verif/seq"
)

// Objs are the catalog objects of a program.
type Objs struct{ H [2]*seq.H }

type cop = Op[*Objs]

func textOf(d *ref.Doc) map[string][]byte {
	return map[string][]byte{"po": ref.WritePO(d, ref.Layout{}), "mo": ref.WriteMO(d, ref.MOLayout{Sorted: true}).Data}
}

func blobOf(d *ref.Doc) []byte {
	p := gotext.NewPo()
	p.Parse(ref.WritePO(d, ref.Layout{}))
	b, err := p.MarshalBinary()
	if err != nil {
		panic(err)
	}
	return b
}

// withRefs gives an entry several references in no order.
func withRefs(e ref.Ent, refs ...string) ref.Ent {
	e.Refs = refs
	return e
}

var ca = &ref.Doc{Header: []string{"Language: en", "Plural-Forms: nplurals=2; plural=(n != 1);"}, Ents: []ref.Ent{
	withRefs(ref.Sing("", "a", "A1"), "z.go:9", "b.go:30", "b.go:4"), withRefs(ref.Plur("", "p", "ps", "P1.0", "P1.1"), "q.go:2", "p.go:1"), withRefs(ref.Sing("c", "a", "CA1"), "y.go:1", "x.go:1"), ref.Plur("c", "p", "ps", "CP1.0", "CP1.1"), ref.Sing("", "old", "OLD"),
	ref.Plur("", "h", "hs", "", "H1.1"), ref.Plur("c", "h", "hs", "", "CH1.1"),
}}
var cb = &ref.Doc{Header: []string{"Language: ru", "Plural-Forms: " + pfThree, "X-B: b"}, Ents: []ref.Ent{
	withRefs(ref.Sing("", "a", "A2"), "w.go:7", "v.go:7"), ref.Plur("", "p", "ps", "P2.0", "P2.1", "P2.2"), ref.Sing("c", "a", "CA2"), ref.Plur("c", "p", "ps", "CP2.0", "CP2.1", "CP2.2"), ref.Sing("d", "new", "NEW"),
	ref.Plur("", "h", "hs", "", "", "H2.2"), ref.Plur("c", "h", "hs", "", "", "CH2.2"), // every form but that of 2 untranslated
}}

func canonTr(m map[string]*gotext.Translation) string {
	return seq.CanonSnap(m, nil, true, true)
}

// object k of the program
func catOps(k int) []*cop {
	ta, tb := textOf(ca), textOf(cb)
	blob := blobOf(cb)
	sfx := ""
	if k > 0 {
		sfx = " on the other object"
	}
	var out []*cop
	add := func(name string, write bool, f func(h *seq.H) Res) {
		out = append(out, &cop{Name: name + sfx, Write: write, Do: func(x *Objs) Res { return f(x.H[k]) }})
	}
	add("Get(a)", false, func(h *seq.H) Res { return str(h.A.Get("a")) })
	add("GetN(p,5)", false, func(h *seq.H) Res { return str(h.A.GetN("p", "ps", 5)) })
	add("GetN(p,2)", false, func(h *seq.H) Res { return str(h.A.GetN("p", "ps", 2)) })
	add("GetC(a,c)", false, func(h *seq.H) Res { return str(h.A.GetC("a", "c")) })
	add("GetNC(p,5,c)", false, func(h *seq.H) Res { return str(h.A.GetNC("p", "ps", 5, "c")) })
	add("GetNC(new,2,d)", false, func(h *seq.H) Res { return str(h.A.GetNC("new", "news", 2, "d", 1)) })
	add("Append(a)", false, func(h *seq.H) Res { return str(string(h.A.Append([]byte("x"), "a"))) })
	add("AppendN(p,5)", false, func(h *seq.H) Res { return str(string(h.A.AppendN(nil, "p", "ps", 5))) })
	add("AppendC(a,c)", false, func(h *seq.H) Res { return str(string(h.A.AppendC(nil, "a", "c"))) })
	add("AppendNC(p,2,c)", false, func(h *seq.H) Res { return str(string(h.A.AppendNC(nil, "p", "ps", 2, "c"))) })
	add("IsTranslated(old)", false, func(h *seq.H) Res { return boolean(h.A.IsTranslated("old")) })
	add("IsTranslatedN(h,2)", false, func(h *seq.H) Res { return boolean(h.A.IsTranslatedN("h", 2)) })
	add("IsTranslatedC(new,d)", false, func(h *seq.H) Res { return boolean(h.A.IsTranslatedC("new", "d")) })
	add("IsTranslatedNC(h,2,c)", false, func(h *seq.H) Res { return boolean(h.A.IsTranslatedNC("h", 2, "c")) })
	add("GetRefs(a)", false, func(h *seq.H) Res { return str(fmt.Sprintf("%q", h.GetRefs("a"))) })
	add("Set(a)", true, func(h *seq.H) Res { h.Set("a", "SET"); return str("") })
	add("SetN(p,2)", true, func(h *seq.H) Res { h.SetN("p", "ps", 2, "SETN"); return str("") })
	add("SetC(a,c)", true, func(h *seq.H) Res { h.SetC("a", "c", "SETC"); return str("") })
	add("SetNC(p,5,c)", true, func(h *seq.H) Res { h.SetNC("p", "ps", "c", 5, "SETNC"); return str("") })
	add("SetC(new,e)", true, func(h *seq.H) Res { h.SetC("new", "e", "NEWCTX"); return str("") })
	add("SetRefs(a)", true, func(h *seq.H) Res { h.SetRefs("a", []string{"s.go:2", "r.go:1", "b.go:3"}); return str("") })
	add("Parse(1)", true, func(h *seq.H) Res { parse(h, ta); return str("") })
	add("Parse(2)", true, func(h *seq.H) Res { parse(h, tb); return str("") })
	add("Drop", true, func(h *seq.H) Res { h.Drop(); return str("") })
	add("SetPluralResolver", true, func(h *seq.H) Res { h.SetResolver(func(n int) int { return n % 2 }); return str("") })
	add("UnmarshalBinary(2)", true, func(h *seq.H) Res {
		if err := h.A.UnmarshalBinary(blob); err != nil {
			return str(err.Error())
		}
		return str("")
	})
	add("MarshalText", false, func(h *seq.H) Res { return str(string(h.Text())) })
	add("MarshalBinary", false, func(h *seq.H) Res {
		b, err := h.A.MarshalBinary()
		if err != nil {
			return str(err.Error())
		}
		return func() string {
			n := seq.New("po")
			if err := n.A.UnmarshalBinary(b); err != nil {
				return err.Error()
			}
			return seq.Full(n, true, false)
		}
	})
	add("GetTranslations", false, func(h *seq.H) Res { return str(canonTr(h.D.GetTranslations())) })
	add("GetCtxTranslations", false, func(h *seq.H) Res { return str(seq.CanonSnap(nil, h.D.GetCtxTranslations(), true, true)) })
	return out
}

func parse(h *seq.H, t map[string][]byte) {
	switch h.Kind {
	case "po":
		h.P.Parse(t["po"])
	case "mo":
		h.M.Parse(t["mo"])
	default:
		// a bare Domain has no parser
		h.Set("a", "A by hand")
	}
}

// the states programs start from
var catInits = []struct {
	name string
	do   func(h *seq.H)
}{
	{"loaded", func(h *seq.H) {
		if h.Kind == "dom" {
			if err := h.A.UnmarshalBinary(blobA); err != nil {
				panic(err)
			}
			return
		}
		parse(h, textA)
	}},
	{"empty", func(h *seq.H) {}},
	{"loaded and edited", func(h *seq.H) {
		if h.Kind == "dom" {
			if err := h.A.UnmarshalBinary(blobA); err != nil {
				panic(err)
			}
		} else {
			parse(h, textA)
		}
		h.Set("a", "E")
		h.SetNC("p", "ps", "c", 1, "ENC")
	}},
	{"loaded without a rule", func(h *seq.H) { loadN(h) }},
	{"loaded without a rule, with a resolver", func(h *seq.H) {
		loadN(h)
		h.SetResolver(func(n int) int { return (n + 1) % 2 })
	}},
}

func loadN(h *seq.H) {
	if h.Kind != "dom" {
		parse(h, textN)
	} else if err := h.A.UnmarshalBinary(blobN); err != nil {
		panic(err)
	}
}

var textA, blobA = textOf(ca), blobOf(ca)

// the same entries without a plural rule
var cn = &ref.Doc{Header: []string{"Language: en"}, Ents: ca.Ents}

var textN, blobN = textOf(cn), blobOf(cn)

func catNew(kind string, init int, both bool) func() *Objs {
	return func() *Objs {
		x := &Objs{}
		x.H[0] = seq.New(kind)
		catInits[init].do(x.H[0])
		if both {
			x.H[1] = seq.New(kind)
			catInits[init].do(x.H[1])
		}
		return x
	}
}

func catFinal(x *Objs) string {
	var o []string
	for _, h := range x.H {
		if h != nil {
			hd, la, pf := h.Public()
			o = append(o, seq.Full(h, true, true)+"\npublic "+ref.CanonHeaders(hd)+la+pf+"\n"+h.D.GetN("p", "ps", 2)+h.D.GetN("p", "ps", 5)+h.D.GetNC("p", "ps", 5, "c"))
		}
	}
	return strings.Join(o, "\n----\n")
}

var catKinds = []string{"po", "mo", "dom"}

// pairs of operations (unordered)
func pairsOf(n int) [][2]int {
	var o [][2]int
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			o = append(o, [2]int{i, j})
		}
	}
	return o
}

const maxExecs = 30000

func catPairs(name string, atomic bool, kinds []string, inits int) eng.Suite {
	ops := catOps(0)
	ps := pairsOf(len(ops))
	r := []int{len(kinds), inits, len(ps)}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("all schedules of all pairs of %d operations on one object, for %v in %d initial states", len(ops), kinds, inits),
		Run: func(t *eng.T, i int64) {
			d := eng.Digits(i, r...)
			pr := ps[d[2]]
			p := &Prog[*Objs]{Name: kinds[d[0]] + " " + catInits[d[1]].name, New: catNew(kinds[d[0]], d[1], false), Final: catFinal, Threads: [][]*cop{{ops[pr[0]]}, {ops[pr[1]]}}}
			j := Judge[*Objs](Observe[*Objs])
			if atomic {
				j = Atomic(p)
			}
			sampleProg(t, p, i)
			Explore(t, p, maxExecs, j)
		}}
}

func sampleProg[X any](t *eng.T, p *Prog[X], i int64) {
	if t.WantSample() && i%7 == 3 {
		t.Sample("%s", p)
	}
}

// distinct objects
func catDistinct(name string, atomic bool) eng.Suite {
	o0, o1 := catOps(0), catOps(1)
	r := []int{len(catKinds), 2, len(o0), len(o1)}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("all schedules of all pairs of %d operations on two objects of a kind, for %v in 2 initial states", len(o0), catKinds),
		Run: func(t *eng.T, i int64) {
			d := eng.Digits(i, r...)
			if d[2] > d[3] {
				return
			}
			p := &Prog[*Objs]{Name: catKinds[d[0]] + "s " + catInits[d[1]].name, New: catNew(catKinds[d[0]], d[1], true), Final: catFinal, Threads: [][]*cop{{o0[d[2]]}, {o1[d[3]]}}}
			j := Judge[*Objs](Observe[*Objs])
			if atomic {
				j = Atomic(p)
			}
			Explore(t, p, maxExecs, j)
		}}
}

// pick chooses operations by name.
func pick[X any](ops []*Op[X], names ...string) []*Op[X] {
	var o []*Op[X]
	for _, n := range names {
		found := false
		for _, x := range ops {
			if x.Name == n {
				o = append(o, x)
				found = true
			}
		}
		if !found {
			panic("no operation " + n)
		}
	}
	return o
}

// two operations against one
func catTwoOne(name string, kinds []string, first, second, against []string) eng.Suite {
	ops := catOps(0)
	a, b, c := pick(ops, first...), pick(ops, second...), pick(ops, against...)
	r := []int{len(kinds), len(a), len(b), len(c)}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("all schedules of one goroutine doing one of %d then one of %d operations while another does one of %d, for %v", len(a), len(b), len(c), kinds),
		Run: func(t *eng.T, i int64) {
			d := eng.Digits(i, r...)
			p := &Prog[*Objs]{Name: kinds[d[0]] + " loaded", New: catNew(kinds[d[0]], 0, false), Final: catFinal, Threads: [][]*cop{{a[d[1]], b[d[2]]}, {c[d[3]]}}}
			sampleProg(t, p, i)
			Explore(t, p, maxExecs, Atomic(p))
		}}
}

// three goroutines
func catTriples(name string, kinds []string, names []string, atomic bool) eng.Suite {
	ops := pick(catOps(0), names...)
	var ts [][3]int
	for i := range ops {
		for j := i; j < len(ops); j++ {
			for k := j; k < len(ops); k++ {
				ts = append(ts, [3]int{i, j, k})
			}
		}
	}
	r := []int{len(kinds), len(ts)}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("all schedules of all triples of %d operations, for %v", len(ops), kinds),
		Run: func(t *eng.T, i int64) {
			d := eng.Digits(i, r...)
			tr := ts[d[1]]
			p := &Prog[*Objs]{Name: kinds[d[0]] + " loaded", New: catNew(kinds[d[0]], 0, false), Final: catFinal, Threads: [][]*cop{{ops[tr[0]]}, {ops[tr[1]]}, {ops[tr[2]]}}}
			j := Judge[*Objs](Observe[*Objs])
			if atomic {
				j = Atomic(p)
			}
			sampleProg(t, p, i)
			Explore(t, p, maxExecs, j)
		}}
}

var mainOps = []string{"Get(a)", "GetNC(p,5,c)", "GetN(p,2)", "IsTranslatedN(h,2)", "Set(a)", "SetN(p,2)", "SetNC(p,5,c)", "Parse(2)", "Drop", "UnmarshalBinary(2)", "MarshalText", "GetTranslations"}
var writeOps = []string{"Set(a)", "SetN(p,2)", "SetNC(p,5,c)", "SetRefs(a)", "Parse(1)", "Parse(2)", "Drop", "SetPluralResolver", "UnmarshalBinary(2)"}
var readOps = []string{"Get(a)", "GetN(p,5)", "GetN(p,2)", "GetC(a,c)", "GetNC(p,5,c)", "AppendNC(p,2,c)", "IsTranslatedN(h,2)", "GetRefs(a)", "MarshalText", "MarshalBinary", "GetTranslations", "GetCtxTranslations"}

func allNames() []string {
	var o []string
	for _, x := range catOps(0) {
		o = append(o, x.Name)
	}
	sort.Strings(o)
	return o
}

func init() {
	eng.Register(&eng.Prop{ID: "C19", Level: "model_checking", HangSec: 60,
		Rule:   "concurrent programs on real Po, Mo and Domain objects run under every schedule of their lock operations (up to the order of independent ones), built with the race detector; a report of the detector, a panic or a schedule in which nobody can go on is a violation",
		Assume: []string{"the exported Headers, Language and PluralForms fields are not part of the concurrent interface", "goroutines switch at lock, atomic and once operations only, which suffices for programs the race detector finds free of races"},
		Suites: func(tier string) []eng.Suite {
			s := []eng.Suite{catPairs("pairs", false, catKinds, len(catInits)), catDistinct("distinct", false), catArgs("arguments", false), catReentrant(false)}
			if tier == "thorough" {
				s = append(s, catTriples("triples", catKinds, allNames(), false))
			} else {
				s = append(s, catTriples("triples", catKinds[:2], mainOps, false))
			}
			return s
		}})
	eng.Register(&eng.Prop{ID: "C20", Level: "model_checking", HangSec: 60,
		Rule:   "every schedule of concurrent programs on real catalog objects; the results of all operations and the final state must be those of a sequential order of the same operations which respects which ended before which began",
		Assume: []string{"goroutines switch at lock, atomic and once operations only, which suffices for programs the race detector finds free of races"},
		Suites: func(tier string) []eng.Suite {
			s := []eng.Suite{catPairs("pairs", true, catKinds, len(catInits)), catArgs("arguments", true), catReentrant(true)}
			if tier == "thorough" {
				s = append(s, catTwoOne("write-read", catKinds, writeOps, allNames(), allNames()), catTwoOne("read-read", catKinds, readOps, readOps, writeOps), catTriples("triples", catKinds, allNames(), true))
			} else {
				s = append(s, catTwoOne("write-read", catKinds[:1], writeOps, mainOps, writeOps), catTwoOne("read-read", catKinds[:1], readOps, readOps, writeOps), catTriples("triples", catKinds[:1], mainOps, true))
			}
			return s
		}})
}
