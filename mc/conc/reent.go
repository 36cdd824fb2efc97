package conc

import (
	"fmt"

	"github.com/leonelquinteros/gotext"

	"verif/eng"
)

// Formatting arguments that are translated when they are printed: a value whose String method looks
// something up itself, in the object the outer lookup is under way in. No lock may be held by then, or the
// inner lookup is stuck behind a waiting writer, or behind the outer one.

type lazy func() string

func (l lazy) String() string { return l() }

type outer[X any] struct {
	name string
	do   func(x X, arg lazy) string
}

// reentrant makes the suite of all outer lookups with all inner ones, alone and against every other operation.
func reentrant[X any](inits []string, start func(init int, against *Op[X]) func() X, outers []outer[X], inners []outer[X], against []*Op[X], final func(X) string, atomic bool) eng.Suite {
	r := []int{len(inits), len(outers), len(inners), len(against) + 1}
	return eng.Suite{Name: "reentrant arguments", N: eng.Prod(r...),
		Bound: fmt.Sprintf("all schedules of each of %d lookups with an argument that does one of %d lookups when it is printed, alone and against each of %d operations, in %d initial states", len(outers), len(inners), len(against), len(inits)),
		Run: func(t *eng.T, i int64) {
			d := eng.Digits(i, r...)
			o, in := outers[d[1]], inners[d[2]]
			op := &Op[X]{Name: o.name + " of " + in.name, Do: func(x X) Res {
				return str(o.do(x, func() string { return in.do(x, nil) }))
			}}
			if atomic {
				// the text at one moment, what is put into it at another
				op.Ref = []func(x X, mem *string) Res{
					func(x X, mem *string) Res { *mem = o.do(x, nil); return nil },
					func(x X, mem *string) Res {
						v := in.do(x, nil)
						return str(fmt.Sprintf(*mem, lazy(func() string { return v })))
					},
				}
			}
			th := [][]*Op[X]{{op}}
			var other *Op[X]
			if d[3] > 0 {
				other = against[d[3]-1]
				th = append(th, []*Op[X]{other})
			}
			p := &Prog[X]{Name: inits[d[0]], New: start(d[0], other), Threads: th, Final: final}
			j := Judge[X](Observe[X])
			if atomic || other == nil {
				j = Atomic(p)
			}
			sampleProg(t, p, i)
			Explore(t, p, maxExecs, j)
		}}
}

func vars(arg lazy) []interface{} {
	if arg == nil {
		return nil
	}
	return []interface{}{arg}
}

func catReentrant(atomic bool) eng.Suite {
	outers := []outer[*Objs]{
		{"Get", func(x *Objs, a lazy) string { return x.H[0].A.Get("a", vars(a)...) }},
		{"GetN", func(x *Objs, a lazy) string { return x.H[0].A.GetN("p", "ps", 5, vars(a)...) }},
		{"GetC", func(x *Objs, a lazy) string { return x.H[0].A.GetC("a", "c", vars(a)...) }},
		{"GetNC", func(x *Objs, a lazy) string { return x.H[0].A.GetNC("p", "ps", 5, "c", vars(a)...) }},
		{"Append", func(x *Objs, a lazy) string { return string(x.H[0].A.Append(nil, "a", vars(a)...)) }},
		{"AppendN", func(x *Objs, a lazy) string { return string(x.H[0].A.AppendN(nil, "p", "ps", 5, vars(a)...)) }},
		{"AppendC", func(x *Objs, a lazy) string { return string(x.H[0].A.AppendC(nil, "a", "c", vars(a)...)) }},
		{"AppendNC", func(x *Objs, a lazy) string { return string(x.H[0].A.AppendNC(nil, "p", "ps", 5, "c", vars(a)...)) }},
	}
	inners := append(append([]outer[*Objs]{}, outers[:4]...),
		outer[*Objs]{"IsTranslatedN", func(x *Objs, _ lazy) string { return fmt.Sprint(x.H[0].A.IsTranslatedN("p", 2)) }},
		outer[*Objs]{"GetTranslations", func(x *Objs, _ lazy) string { return canonTr(x.H[0].D.GetTranslations()) }},
		outer[*Objs]{"MarshalText", func(x *Objs, _ lazy) string { return string(x.H[0].Text()) }},
		outer[*Objs]{"MarshalBinary", func(x *Objs, _ lazy) string {
			_, err := x.H[0].A.MarshalBinary()
			return fmt.Sprint(err)
		}})
	return reentrant(catKinds, func(init int, _ *cop) func() *Objs { return catNew(catKinds[init], 0, false) }, outers, inners, catOps(0), catFinal, atomic)
}

func locReentrant() eng.Suite {
	outers := []outer[*Locs]{
		{"Get", func(x *Locs, a lazy) string { return x.L.Get("a", vars(a)...) }},
		{"GetN", func(x *Locs, a lazy) string { return x.L.GetN("p", "ps", 5, vars(a)...) }},
		{"GetC", func(x *Locs, a lazy) string { return x.L.GetC("a", "c", vars(a)...) }},
		{"GetNC", func(x *Locs, a lazy) string { return x.L.GetNC("p", "ps", 5, "c", vars(a)...) }},
		{"GetD", func(x *Locs, a lazy) string { return x.L.GetD("d2", "a", vars(a)...) }},
		{"GetND", func(x *Locs, a lazy) string { return x.L.GetND("tr", "p", "ps", 5, vars(a)...) }},
		{"GetDC", func(x *Locs, a lazy) string { return x.L.GetDC("tr", "a", "c", vars(a)...) }},
		{"GetNDC", func(x *Locs, a lazy) string { return x.L.GetNDC("none", "p", "ps", 5, "c", vars(a)...) }},
	}
	inners := append(append([]outer[*Locs]{}, outers...),
		outer[*Locs]{"IsTranslatedD", func(x *Locs, _ lazy) string { return fmt.Sprint(x.L.IsTranslatedD("d1", "a")) }},
		outer[*Locs]{"GetTranslations", func(x *Locs, _ lazy) string { return snapLocale(x.L.GetTranslations()) }},
		outer[*Locs]{"MarshalBinary", func(x *Locs, _ lazy) string {
			_, err := x.L.MarshalBinary()
			return fmt.Sprint(err)
		}})
	return reentrant([]string{locInits[0].name}, func(int, *lop) func() *Locs { return locInits[0].new }, outers, inners, locOps(first, ""), locFinal, false)
}

func pkgReentrant(few bool) eng.Suite {
	outers := []outer[*Pkg]{
		{"Get", func(x *Pkg, a lazy) string { return gotext.Get("a", vars(a)...) }},
		{"GetN", func(x *Pkg, a lazy) string { return gotext.GetN("p", "ps", 5, vars(a)...) }},
		{"GetC", func(x *Pkg, a lazy) string { return gotext.GetC("a", "c", vars(a)...) }},
		{"GetNC", func(x *Pkg, a lazy) string { return gotext.GetNC("p", "ps", 5, "c", vars(a)...) }},
		{"GetD", func(x *Pkg, a lazy) string { return gotext.GetD("d1", "a", vars(a)...) }},
		{"GetND", func(x *Pkg, a lazy) string { return gotext.GetND("d1", "p", "ps", 5, vars(a)...) }},
		{"GetDC", func(x *Pkg, a lazy) string { return gotext.GetDC("d1", "a", "c", vars(a)...) }},
		{"GetNDC", func(x *Pkg, a lazy) string { return gotext.GetNDC("d1", "p", "ps", 5, "c", vars(a)...) }},
	}
	inners := append(append([]outer[*Pkg]{}, outers...),
		outer[*Pkg]{"GetD(d2)", func(*Pkg, lazy) string { return gotext.GetD("d2", "a") }},
		outer[*Pkg]{"IsTranslatedNDC(d2)", func(*Pkg, lazy) string { return fmt.Sprint(gotext.IsTranslatedNDC("d2", "h", 2, "c")) }},
		outer[*Pkg]{"GetLanguage", func(*Pkg, lazy) string { return gotext.GetLanguage() }},
		outer[*Pkg]{"GetDomain", func(*Pkg, lazy) string { return gotext.GetDomain() }},
		outer[*Pkg]{"GetLocales", func(*Pkg, lazy) string { return langsOf(gotext.GetLocales()) }})
	start := func(init int, against *pop) func() *Pkg {
		f := pkgNew(0)
		if against != nil {
			f = pkgNew(0, []*pop{against})
		}
		if init == 1 {
			return f
		}
		return func() *Pkg {
			x := f()
			gotext.GetD("d1", "a")
			gotext.GetD("d2", "a")
			return x
		}
	}
	against := pkgOps()
	if few {
		inners = append(inners[3:4:4], inners[8], inners[9], inners[10])
		against = pick(against, append(append([]string{}, pkgConf...), "GetD(d2,a)", "IsTranslated(a)")...)
	}
	return reentrant([]string{"configured A,de,d1, all loaded", "configured A,de,d1"}, start, outers, inners, against, pkgFinal, false)
}
