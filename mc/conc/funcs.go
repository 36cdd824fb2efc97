package conc

import (
	"fmt"
	"strings"

	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/plurals"

	"verif/eng"
)

// The functions without an object of their own, which several goroutines may call with the same arguments:
// named formatting, escaping, compiling rules and evaluating one compiled rule, starting catalogs.

type Funcs struct {
	rule, chain plurals.Expression
	params      map[string]interface{}
	args        []interface{}
	text        []byte
	headers     gotext.HeaderMap
}

func newFuncs() *Funcs {
	must := func(s string) plurals.Expression {
		e, err := plurals.Compile(s)
		if err != nil {
			panic(err)
		}
		return e
	}
	return &Funcs{
		rule:    must("(n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2)"),
		chain:   must("(n==1 || n==11) ? 0 : (n==2 || n==12) ? 1 : (n > 2 && n < 20) ? 2 : 3"),
		params:  map[string]interface{}{"a": "A", "b": 2, "f": 1.5},
		args:    []interface{}{"x", 3},
		text:    po(tagged("de", pfTwo, "T", "own")),
		headers: gotext.HeaderMap{"Language": {"de"}, "X-Two": {"1", "2"}},
	}
}

func funcOps() []*Op[*Funcs] {
	op := func(name string, f func(x *Funcs) interface{}) *Op[*Funcs] {
		return &Op[*Funcs]{Name: name, Do: func(x *Funcs) Res { return str(fmt.Sprintf("%#v", f(x))) }}
	}
	compiled := func(s string) interface{} {
		e, err := plurals.Compile(s)
		if err != nil {
			return err.Error()
		}
		return evals(e)
	}
	return []*Op[*Funcs]{
		op("Sprintf(one name)", func(x *Funcs) interface{} { return gotext.Sprintf("%(a)s", x.params) }),
		op("Sprintf(three names)", func(x *Funcs) interface{} { return gotext.Sprintf("%(b)d of %(a)q %% %(f).2f %(a)s", x.params) }),
		op("Sprintf(no such name)", func(x *Funcs) interface{} { return gotext.Sprintf("%(z)v|%(b)5d", x.params) }),
		op("Sprintf(no names)", func(x *Funcs) interface{} { return gotext.Sprintf("100%%", nil) }),
		op("FormatString(shared arguments)", func(x *Funcs) interface{} { return gotext.FormatString("%s-%d", x.args...) }),
		op("FormatStringWithArgs(shared arguments)", func(x *Funcs) interface{} { return gotext.FormatStringWithArgs("%[2]d%[1]s", x.args) }),
		op("Appendf(shared arguments)", func(x *Funcs) interface{} { return string(gotext.Appendf(nil, "%v %v", x.args...)) }),
		op("Appendf(no arguments)", func(x *Funcs) interface{} { return string(gotext.Appendf([]byte("p"), "q")) }),
		op("SimplifiedLocale", func(x *Funcs) interface{} { return gotext.SimplifiedLocale("de_DE.UTF-8@euro:fr") }),
		op("EscapeSpecialCharacters(lines)", func(x *Funcs) interface{} { return gotext.EscapeSpecialCharacters("a\"b\nc\\d\n") }),
		op("EscapeSpecialCharacters(line)", func(x *Funcs) interface{} { return gotext.EscapeSpecialCharacters("e\n") }),
		op("Eval of a shared rule", func(x *Funcs) interface{} { return evals(x.rule) }),
		op("Eval of another shared rule", func(x *Funcs) interface{} { return evals(x.chain) }),
		op("Compile and Eval", func(x *Funcs) interface{} { return compiled("n%10==1 && n%100!=11 ? 0 : n != 0 ? 1 : 2") }),
		op("Compile and Eval of parentheses", func(x *Funcs) interface{} { return compiled("((n == 1) || (n > 4 && n < 7)) ? 0 : 1") }),
		op("Compile of a broken rule", func(x *Funcs) interface{} { return compiled("n==1 ? 0 : n==") }),
		op("Headers of a shared map", func(x *Funcs) interface{} {
			return []string{x.headers.Get("language"), strings.Join(x.headers.Values("x-two"), "+"), x.headers.Get("nope")}
		}),
		op("NewTranslation", func(x *Funcs) interface{} {
			t := gotext.NewTranslationWithRefs([]string{"f.go:1"})
			t.ID, t.PluralID = "i", "is"
			t.SetN(1, "two")
			return []interface{}{t.Get(), t.GetN(1), t.GetN(5), t.IsTranslatedN(1)}
		}),
		op("NewPo, Parse and Get", func(x *Funcs) interface{} {
			p := gotext.NewPo()
			p.Parse(x.text)
			return []string{p.Get("a"), p.GetN("p", "ps", 5), p.GetC("a", "c"), p.Get("own")}
		}),
		op("NewPo, Parse and export", func(x *Funcs) interface{} {
			p := gotext.NewPo()
			p.Parse(x.text)
			b, err := p.MarshalText()
			return fmt.Sprint(string(b), err)
		}),
		op("NewMo, binary import", func(x *Funcs) interface{} {
			p := gotext.NewPo()
			p.Parse(x.text)
			b, err := p.MarshalBinary()
			m := gotext.NewMo()
			return fmt.Sprint(err, m.UnmarshalBinary(b), m.Get("a"), m.GetN("p", "ps", 5))
		}),
	}
}

func funcSuite(depth int) eng.Suite {
	ops := funcOps()
	r := []int{len(ops)}
	for k := 1; k < depth; k++ {
		r = append(r, len(ops))
	}
	return eng.Suite{Name: "functions", N: eng.Prod(r...),
		Bound: fmt.Sprintf("all schedules of %d goroutines which call one each of %d functions without an object of their own, with shared arguments (named formatting, escaping, rules, headers, own catalogs)", depth, len(ops)),
		Run: func(t *eng.T, i int64) {
			var th [][]*Op[*Funcs]
			last := 0
			for _, k := range eng.Digits(i, r...) {
				if k < last {
					return
				}
				last = k
				th = append(th, []*Op[*Funcs]{ops[k]})
			}
			p := &Prog[*Funcs]{Name: "functions", New: newFuncs, Threads: th, Final: func(x *Funcs) string {
				return fmt.Sprintf("%v %v %v", x.params, x.args, x.headers) + fmt.Sprint(evals(x.rule), evals(x.chain))
			}}
			sampleProg(t, p, i)
			Explore(t, p, maxExecs, Atomic(p))
		}}
}

func evals(e plurals.Expression) (o []int) {
	for n := uint32(0); n < 25; n++ {
		o = append(o, e.Eval(n))
	}
	return
}
