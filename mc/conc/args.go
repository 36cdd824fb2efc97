package conc

import (
	"fmt"

	"github.com/leonelquinteros/gotext"

	"verif/eng"
	"verif/seq"
)

// The other suites ask for a few ids in all interleavings; these ask for every kind of argument (present,
// untranslated and missing ids and contexts, singular and plural numbers) against a few changes.

type arg struct {
	ctx, id, pl string
	n           int // -1: without a number
}

func (a arg) String() string {
	s := a.id
	if a.ctx != "" {
		s += " in " + a.ctx
	}
	if a.n >= 0 {
		s += fmt.Sprintf(",%d", a.n)
	}
	return s
}

func argList(ids ...string) (out []arg) {
	for _, id := range ids {
		for _, ctx := range []string{"", "c", "nowhere"} {
			for _, n := range []int{-1, 1, 2} {
				out = append(out, arg{ctx, id, id + "s", n})
			}
		}
	}
	return
}

// argReads are all lookups of a catalog.
func argReads() (out []*cop) {
	add := func(name string, f func(h *seq.H) Res) {
		out = append(out, &cop{Name: name, Do: func(x *Objs) Res { return f(x.H[0]) }})
	}
	for _, g := range argList("a", "p", "nope", "e") {
		switch {
		case g.ctx == "" && g.n < 0:
			add("Get("+g.String()+")", func(h *seq.H) Res { return str(h.A.Get(g.id)) })
			add("Append("+g.String()+")", func(h *seq.H) Res { return str(string(h.A.Append(nil, g.id, 1))) })
			add("IsTranslated("+g.String()+")", func(h *seq.H) Res { return boolean(h.A.IsTranslated(g.id)) })
			add("GetRefs("+g.String()+")", func(h *seq.H) Res { return str(fmt.Sprint(h.GetRefs(g.id))) })
		case g.ctx == "":
			add("GetN("+g.String()+")", func(h *seq.H) Res { return str(h.A.GetN(g.id, g.pl, g.n)) })
			add("AppendN("+g.String()+")", func(h *seq.H) Res { return str(string(h.A.AppendN(nil, g.id, g.pl, g.n, 1))) })
			add("IsTranslatedN("+g.String()+")", func(h *seq.H) Res { return boolean(h.A.IsTranslatedN(g.id, g.n)) })
		case g.n < 0:
			add("GetC("+g.String()+")", func(h *seq.H) Res { return str(h.A.GetC(g.id, g.ctx)) })
			add("AppendC("+g.String()+")", func(h *seq.H) Res { return str(string(h.A.AppendC(nil, g.id, g.ctx, 1))) })
			add("IsTranslatedC("+g.String()+")", func(h *seq.H) Res { return boolean(h.A.IsTranslatedC(g.id, g.ctx)) })
		default:
			add("GetNC("+g.String()+")", func(h *seq.H) Res { return str(h.A.GetNC(g.id, g.pl, g.n, g.ctx)) })
			add("AppendNC("+g.String()+")", func(h *seq.H) Res { return str(string(h.A.AppendNC(nil, g.id, g.pl, g.n, g.ctx, 1))) })
			add("IsTranslatedNC("+g.String()+")", func(h *seq.H) Res { return boolean(h.A.IsTranslatedNC(g.id, g.n, g.ctx)) })
		}
	}
	return
}

// argWrites are edits with every kind of argument.
func argWrites() (out []*cop) {
	add := func(name string, f func(h *seq.H)) {
		out = append(out, &cop{Name: name, Write: true, Do: func(x *Objs) Res { f(x.H[0]); return str("") }})
	}
	for _, text := range []string{"T", ""} {
		for _, g := range argList("a", "p", "nope") {
			s := g.String() + "," + text
			switch {
			case g.ctx == "" && g.n < 0:
				add("Set("+s+")", func(h *seq.H) { h.Set(g.id, text) })
				if text != "" {
					add("SetRefs("+s+")", func(h *seq.H) { h.SetRefs(g.id, []string{"x:1"}) })
				}
			case g.ctx == "":
				add("SetN("+s+")", func(h *seq.H) { h.SetN(g.id, g.pl, g.n, text) })
			case g.n < 0:
				add("SetC("+s+")", func(h *seq.H) { h.SetC(g.id, g.ctx, text) })
			default:
				add("SetNC("+s+")", func(h *seq.H) { h.SetNC(g.id, g.pl, g.ctx, g.n, text) })
			}
		}
	}
	return
}

func catArgs(name string, atomic bool) eng.Suite {
	rd, wr := argReads(), argWrites()
	all := catOps(0)
	// lookups against changes, edits against lookups and changes
	type pair struct{ a, b *cop }
	var ps []pair
	for _, a := range rd {
		for _, b := range pick(all, "Set(a)", "Drop", "UnmarshalBinary(2)", "Parse(2)", "SetPluralResolver") {
			ps = append(ps, pair{a, b})
		}
	}
	for _, a := range wr {
		for _, b := range pick(all, "GetNC(p,5,c)", "IsTranslatedN(h,2)", "MarshalText", "GetTranslations", "Set(a)", "SetNC(p,5,c)", "Drop", "Parse(1)") {
			ps = append(ps, pair{a, b})
		}
	}
	r := []int{len(catKinds), len(ps)}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("all schedules of %d lookups and %d edits with every kind of argument against each of 5 changes or 8 other operations, for %v", len(rd), len(wr), catKinds),
		Run: func(t *eng.T, i int64) {
			d := eng.Digits(i, r...)
			k := catKinds[d[0]]
			p := &Prog[*Objs]{Name: k + " loaded and edited", New: catNew(k, 2, false), Final: catFinal, Threads: [][]*cop{{ps[d[1]].a}, {ps[d[1]].b}}}
			j := Judge[*Objs](Observe[*Objs])
			if atomic {
				j = Atomic(p)
			}
			sampleProg(t, p, i)
			Explore(t, p, maxExecs, j)
		}}
}

// surface is what a Locale and the package have in common.
type surface struct {
	get    func(string, ...interface{}) string
	getN   func(string, string, int, ...interface{}) string
	getD   func(string, string, ...interface{}) string
	getND  func(string, string, string, int, ...interface{}) string
	getC   func(string, string, ...interface{}) string
	getNC  func(string, string, int, string, ...interface{}) string
	getDC  func(string, string, string, ...interface{}) string
	getNDC func(string, string, string, int, string, ...interface{}) string
	is     func(string) bool
	isN    func(string, int) bool
	isD    func(string, string) bool
	isND   func(string, string, int) bool
	isC    func(string, string) bool
	isNC   func(string, int, string) bool
	isDC   func(string, string, string) bool
	isNDC  func(string, string, int, string) bool
	domain func() string
}

func locSurface(l *gotext.Locale) *surface {
	return &surface{l.Get, l.GetN, l.GetD, l.GetND, l.GetC, l.GetNC, l.GetDC, l.GetNDC, l.IsTranslated, l.IsTranslatedN, l.IsTranslatedD, l.IsTranslatedND, l.IsTranslatedC, l.IsTranslatedNC, l.IsTranslatedDC, l.IsTranslatedNDC, l.GetDomain}
}

func pkgSurface(langs ...string) *surface {
	return &surface{gotext.Get, gotext.GetN, gotext.GetD, gotext.GetND, gotext.GetC, gotext.GetNC, gotext.GetDC, gotext.GetNDC,
		func(s string) bool { return gotext.IsTranslated(s, langs...) }, func(s string, n int) bool { return gotext.IsTranslatedN(s, n, langs...) },
		func(d, s string) bool { return gotext.IsTranslatedD(d, s, langs...) }, func(d, s string, n int) bool { return gotext.IsTranslatedND(d, s, n, langs...) },
		func(s, c string) bool { return gotext.IsTranslatedC(s, c, langs...) }, func(s string, n int, c string) bool { return gotext.IsTranslatedNC(s, n, c, langs...) },
		func(d, s, c string) bool { return gotext.IsTranslatedDC(d, s, c, langs...) }, func(d, s string, n int, c string) bool { return gotext.IsTranslatedNDC(d, s, n, c, langs...) }, gotext.GetDomain}
}

// surfaceReads are all lookups of a surface; doms "" stands for the default domain.
func surfaceReads[X any](of func(x X) *surface, doms []string, ids []string, is bool) (out []*Op[X]) {
	for _, dom := range doms {
		for _, g := range argList(ids...) {
			for _, q := range []bool{false, true} {
				if q && !is {
					continue
				}
				in := func(s *surface, d string) Res {
					switch {
					case g.ctx == "" && g.n < 0 && !q:
						return str(s.getD(d, g.id))
					case g.ctx == "" && g.n < 0:
						return boolean(s.isD(d, g.id))
					case g.ctx == "" && !q:
						return str(s.getND(d, g.id, g.pl, g.n))
					case g.ctx == "":
						return boolean(s.isND(d, g.id, g.n))
					case g.n < 0 && !q:
						return str(s.getDC(d, g.id, g.ctx))
					case g.n < 0:
						return boolean(s.isDC(d, g.id, g.ctx))
					case !q:
						return str(s.getNDC(d, g.id, g.pl, g.n, g.ctx))
					}
					return boolean(s.isNDC(d, g.id, g.n, g.ctx))
				}
				what := "lookup"
				if q {
					what = "query"
				}
				o := &Op[X]{Name: fmt.Sprintf("%s of %s in domain %q", what, g, dom), Do: func(x X) Res { return in(of(x), dom) }}
				if dom == "" {
					o.Do = func(x X) Res {
						s := of(x)
						switch {
						case g.ctx == "" && g.n < 0 && !q:
							return str(s.get(g.id))
						case g.ctx == "" && g.n < 0:
							return boolean(s.is(g.id))
						case g.ctx == "" && !q:
							return str(s.getN(g.id, g.pl, g.n))
						case g.ctx == "":
							return boolean(s.isN(g.id, g.n))
						case g.n < 0 && !q:
							return str(s.getC(g.id, g.ctx))
						case g.n < 0:
							return boolean(s.isC(g.id, g.ctx))
						case !q:
							return str(s.getNC(g.id, g.pl, g.n, g.ctx))
						}
						return boolean(s.isNC(g.id, g.n, g.ctx))
					}
					o.Ref = []func(x X, mem *string) Res{
						func(x X, mem *string) Res { *mem = of(x).domain(); return nil },
						func(x X, mem *string) Res { return in(of(x), *mem) },
					}
				}
				out = append(out, o)
			}
		}
	}
	return
}

func locArgs(name string, inits int) eng.Suite {
	rd := surfaceReads(func(x *Locs) *surface { return locSurface(x.L) }, []string{"", "d1", "d3", "tr", "none"}, []string{"a", "p", "nope"}, true)
	wr := pick(locOps(first, ""), "AddDomain(d1)", "AddTranslator(d1)", "SetDomain(d2)", "UnmarshalBinary", "Parse into tr")
	r := []int{inits, len(rd), len(wr)}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("all schedules of %d lookups and queries with every kind of domain and argument against each of %d changes, in %d initial states", len(rd), len(wr), inits),
		Run: func(t *eng.T, i int64) {
			d := eng.Digits(i, r...)
			p := &Prog[*Locs]{Name: locInits[d[0]].name, New: locInits[d[0]].new, Final: locFinal, Threads: [][]*lop{{rd[d[1]]}, {wr[d[2]]}}}
			sampleProg(t, p, i)
			Explore(t, p, maxExecs, Atomic(p))
		}}
}

func pkgArgs(name string, inits []int, ids, changes []string) eng.Suite {
	rd := surfaceReads(func(x *Pkg) *surface { return pkgSurface() }, []string{"", "d1", "d2", "none"}, ids, true)
	rd = append(rd, surfaceReads(func(x *Pkg) *surface { return pkgSurface("fr", "de") }, []string{"d1"}, ids[:1], true)...)
	wr := pick(pkgOps(), changes...)
	r := []int{len(inits), len(rd), len(wr)}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("all schedules of %d lookups and queries with every kind of domain and argument against each of %d changes, in %d initial states", len(rd), len(wr), len(inits)),
		Run: func(t *eng.T, i int64) {
			d := eng.Digits(i, r...)
			in := inits[d[0]]
			th := [][]*pop{{rd[d[1]]}, {wr[d[2]]}}
			p := &Prog[*Pkg]{Name: pkgInits[in].name, New: pkgNew(in, th...), Final: pkgFinal, Threads: th}
			sampleProg(t, p, i)
			Explore(t, p, maxExecs, Coherent(p))
		}}
}
