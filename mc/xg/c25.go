package xg

import (
	"fmt"
	"strings"

	xp "github.com/leonelquinteros/gotext/cli/xgotext/parser"

	"verif/eng"
	"verif/seq"
)

// In generated sources @ stands for the name under which the library is imported, ~ for the name under which
// package other is.

// otherSource is a package which has and hands out values of the library, and has look-alikes.
const otherPath = "example.com/gotext"

const otherSource = `package gotext

import "github.com/leonelquinteros/gotext"

var P *gotext.Po
var L gotext.Locale

type T struct{ M gotext.Mo }

func Mk() *gotext.Locale { return nil }
` + lookAlikes

// lookAlikes are functions and methods with the names of lookups.
const lookAlikes = `
type Own struct{ Po int }
type OwnI interface {
	Get(str string, vars ...interface{}) string
	GetN(str, plural string, n int, vars ...interface{}) string
	GetC(str, ctx string, vars ...interface{}) string
	GetNC(str, plural string, n int, ctx string, vars ...interface{}) string
}
type OwnF struct {
	Get, GetD, GetC, GetDC     func(a string, vars ...interface{}) string
	GetN, GetND, GetNC, GetNDC func(a string, vars ...interface{}) string
}

func (Own) Get(str string, vars ...interface{}) string                                    { return str }
func (Own) GetN(str, plural string, n int, vars ...interface{}) string                    { return str }
func (Own) GetD(dom, str string, vars ...interface{}) string                              { return str }
func (Own) GetND(dom, str, plural string, n int, vars ...interface{}) string              { return str }
func (Own) GetC(str, ctx string, vars ...interface{}) string                              { return str }
func (Own) GetNC(str, plural string, n int, ctx string, vars ...interface{}) string       { return str }
func (Own) GetDC(dom, str, ctx string, vars ...interface{}) string                        { return str }
func (Own) GetNDC(dom, str, plural string, n int, ctx string, vars ...interface{}) string { return str }

func Get(str string, vars ...interface{}) string                                    { return str }
func GetN(str, plural string, n int, vars ...interface{}) string                    { return str }
func GetD(dom, str string, vars ...interface{}) string                              { return str }
func GetND(dom, str, plural string, n int, vars ...interface{}) string              { return str }
func GetC(str, ctx string, vars ...interface{}) string                              { return str }
func GetNC(str, plural string, n int, ctx string, vars ...interface{}) string       { return str }
func GetDC(dom, str, ctx string, vars ...interface{}) string                        { return str }
func GetNDC(dom, str, plural string, n int, ctx string, vars ...interface{}) string { return str }
`

// declSource is the declarations of a generated package.
const declSource = `
type W struct {
	P   *@.Po
	L   @.Locale
	In  struct{ Q @.Mo; LP *@.Locale }
	T   @.Translator
	F   func() *@.Po
	M   map[string]*@.Mo
	A   []@.Po
	AA  [2]*@.Locale
	Ch  chan *@.Locale
	D   *@.Domain
	Own Own
	Next *W
}

type AliasPo = @.Po
type AliasPtr = *@.Locale
type AliasAlias = AliasPo
type AliasT = @.Translator
type AliasOther = ~.Own

type Box[X any] struct {
	V X
	P *@.Po
}

func (b Box[X]) Val() X { return b.V }

type Po struct{ Own }
type Locale struct{ x Own }

func mkPo() *@.Po                 { return nil }
func mkLoc() (l @.Locale)         { return }
func mkT() @.Translator           { return nil }
func mkF() func() *@.Mo           { return nil }
func two() (string, string)       { return "", "" }
func four() (string, string, int, string) { return "", "", 0, "" }
func use(a ...interface{}) string { return "" }
func ident[X any](x X) X          { return x }

func (w *W) Po() *@.Po         { return w.P }
func (w W) Self() *W           { return nil }
func (o Own) Loc() *@.Locale   { return nil }

var gPo *@.Po
var gMo @.Mo
var gLoc = @.NewLocale("", "")
var gLocV @.Locale
var gT @.Translator
var gDom *@.Domain
var gW W
var gWP = &gW
var gOwn Own
var gOwnP = &Own{}
var gOwnI OwnI = Own{}
var gOwnF OwnF
var gAliasPo *AliasPo
var gAliasPtr AliasPtr
var gAliasAlias AliasAlias
var gAliasT AliasT
var gAnon interface{ @.Translator }
var gIface interface{}
var gTr = @.Translation{}
var gFakePo Po
var gMap map[string]@.Translator
var gPP = &gPo
var gStr, gStr2 = "variable", "another"
var gInt = 3

const cStr = "constant"
`

// recv is one kind of receiver.
type recv struct {
	name, expr string
	fns        string // which functions: "8" all, "4" without domains, "1" only Get, or one function
	local      string // declarations in the function
	yes        bool
}

var recvs = []recv{
	{"package", "@", "8", "", true},
	{"pointer variable", "gPo", "4", "", true},
	{"value variable", "gMo", "4", "", true},
	{"constructed locale", "gLoc", "8", "", true},
	{"locale value", "gLocV", "8", "", true},
	{"interface variable", "gT", "4", "", true},
	{"domain object", "gDom", "4", "", true},
	{"pointer field", "gW.P", "4", "", true},
	{"value field", "gW.L", "8", "", true},
	{"nested field", "gWP.In.Q", "4", "", true},
	{"nested pointer field", "gWP.In.LP", "8", "", true},
	{"chained fields", "gWP.Next.Next.T", "4", "", true},
	{"function result", "mkPo()", "4", "", true},
	{"result of a function result", "mkF()()", "4", "", true},
	{"interface result", "mkT()", "4", "", true},
	{"method result", "gW.Po()", "4", "", true},
	{"chained method results", "gW.Self().Self().Po()", "4", "", true},
	{"result of a look-alike's method", "gOwn.Loc()", "8", "", true},
	{"function field result", "gW.F()", "4", "", true},
	{"constructor", "@.NewLocale(\"not\", \"this\")", "8", "", true},
	{"domain of a file", "gPo.GetDomain()", "4", "", true},
	{"function literal result", "func() *@.Po { return nil }()", "4", "", true},
	{"map element", "gW.M[\"not this\"]", "4", "", true},
	{"slice element", "gW.A[0]", "4", "", true},
	{"array element", "gW.AA[1]", "8", "", true},
	{"map of interfaces", "gMap[gStr]", "4", "", true},
	{"channel receive", "(<-gW.Ch)", "8", "", true},
	{"type assertion", "gIface.(*@.Locale)", "8", "", true},
	{"type assertion to the interface", "gIface.(@.Translator)", "4", "", true},
	{"parentheses", "((gPo))", "4", "", true},
	{"address", "(&gLocV)", "8", "", true},
	{"dereference", "(*gPP)", "4", "", true},
	{"dereferenced value", "(*gPo)", "4", "", true},
	{"composite literal", "(&@.Po{})", "4", "", true},
	{"new", "new(@.Mo)", "4", "", true},
	{"conversion", "(*@.Po)(nil)", "4", "", true},
	{"interface conversion", "@.Translator(gPo)", "4", "", true},
	{"alias", "gAliasPo", "4", "", true},
	{"alias of a pointer", "gAliasPtr", "8", "", true},
	{"alias of an alias", "gAliasAlias", "4", "", true},
	{"alias of the interface", "gAliasT", "4", "", true},
	{"anonymous interface", "gAnon", "4", "", true},
	{"generic field", "(Box[*@.Locale]{}).V", "8", "", true},
	{"generic method result", "(Box[@.Translator]{}).Val()", "4", "", true},
	{"fixed field of a generic", "(Box[int]{}).P", "4", "", true},
	{"generic function result", "ident(gLoc)", "8", "", true},
	{"variable of another package", "~.P", "4", "", true},
	{"locale of another package", "~.L", "8", "", true},
	{"field of another package's type", "(&~.T{}).M", "4", "", true},
	{"result of another package", "~.Mk()", "8", "", true},
	{"local variable", "l", "8", "l := @.NewLocale(\"\", \"\")", true},
	{"local value", "l", "4", "var l @.Po", true},
	{"local named like the package", "@", "4", "@ := gPo", true},
	{"local named like another package", "~", "4", "~ := gMo", true},
	{"local copy of a look-alike name", "gOwn", "8", "gOwn := gLoc", true},
	{"range variable", "x", "4", "for _, x := range gW.M {", true},
	{"type switch", "x", "8", "switch x := gIface.(type) { case *@.Locale:", true},
	{"if variable", "x", "4", "if x, ok := gIface.(@.Translator); ok {", true},
	{"parameter", "x", "8", "func(x *@.Locale) {", true},
	{"anonymous struct", "v.p", "4", "var v struct{ p *@.Po }", true},
	{"local alias", "v", "4", "type la = *@.Mo; var v la", true},
	{"package, function on the next line", "@\u21b5", "8", "", true},
	{"variable, function on the next line", "gPo\u21b5", "4", "", true},
	{"chain over lines", "gW.\n\t\t\tSelf().\n\t\t\tPo()\u21b5", "4", "", true},
	{"function literal over lines", "func() *@.Locale {\n\t\t\treturn gLoc\n\t\t}()", "8", "", true},
	{"constructor over lines", "@.NewLocale(\n\t\t\t\"not\",\n\n\t\t\t\"this\",\n\t\t)", "8", "", true},
	{"composite over lines", "[]*@.Po{\n\t\t\tgPo,\n\t\t}[0]\u21b5", "4", "", true},

	{"look-alike value", "gOwn", "8", "", false},
	{"look-alike pointer", "gOwnP", "8", "", false},
	{"look-alike interface", "gOwnI", "4", "", false},
	{"look-alike field", "gW.Own", "8", "", false},
	{"function fields", "gOwnF", "f", "", false},
	{"look-alike package", "~", "8", "", false},
	{"look-alike of another package", "(~.Own{})", "8", "", false},
	{"alias of a look-alike", "(AliasOther{})", "8", "", false},
	{"type with the name of a library type", "gFakePo", "8", "", false},
	{"field of such a type", "(Locale{}).x", "8", "", false},
	{"local look-alike named like the package", "@", "8", "@ := gOwn", false},
	{"local struct named like the package", "@.Own", "8", "var @ struct{ Own Own }", false},
	{"generic holding a look-alike", "(Box[Own]{}).V", "8", "", false},
	{"anonymous interface of its own", "x", "1", "var x interface{ Get(string, ...interface{}) string } = Own{}", false},
	{"headers of a file", "gPo.Headers", "1", "", false},
	{"headers of a domain", "gDom.Headers", "1", "", false},
}

func (r recv) functions() []string {
	switch r.fns {
	case "8":
		return fnNames
	case "4":
		return []string{"Get", "GetN", "GetC", "GetNC"}
	case "f":
		return []string{"Get"}
	}
	return []string{"Get"}
}

// lit is a kind of literal: source and value for a number.
type lit struct {
	name string
	src  func(n string) string
	val  func(n string) string
}

var lits = []lit{
	{"plain", func(n string) string { return `"t` + n + `"` }, func(n string) string { return "t" + n }},
	{"escapes", func(n string) string { return `"e\t\"\\\n\x41\101\u00e9\U0001F600%d'` + n + `"` }, func(n string) string { return "e\t\"\\\nAA\u00e9\U0001F600%d'" + n }},
	{"raw", func(n string) string { return "`r \"q\" \\n\\x41 " + n + "`" }, func(n string) string { return `r "q" \n\x41 ` + n }},
	{"raw lines", func(n string) string { return "`first\n\tsecond\n\n" + n + "\n`" }, func(n string) string { return "first\n\tsecond\n\n" + n + "\n" }},
	{"unicode", func(n string) string { return `"日本 – ` + n + `"` }, func(n string) string { return "日本 – " + n }},
}

// non-literal arguments, which make a call unsupported
var nonLits = []string{"gStr", "cStr", `"a" + "b"`, `use("z")`, `string(rune(gInt))`, `gW.Self().Own.Get("q")`, "[]string{`x`}[0]", `func() string { return "x" }()`}

// b builds a source file and what has to come out of it.
type builder struct {
	file string // path relative to the base, as positions have it
	g, o string // import names
	src  strings.Builder
	ms   []msg
	num  int
	tag  string
	n    string // the number argument, else one after the other
}

func (b *builder) sub(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, "@", b.g), "~", b.o)
}

func (b *builder) line() int { return strings.Count(b.src.String(), "\n") + 1 }

// arg is an argument of a call: a literal kind, or a non-literal source text.
type arg struct {
	l    int // literal kind; -1: text
	text string
}

func (a arg) lit() bool { return a.l >= 0 }

// emit writes pre, the call, post on lines of their own as far as pre and post have no line breaks; pre must
// leave the call on its line.
func (b *builder) emit(pre, recv, fn string, id, pl, ctx, dom arg, extra []string, post string, yes bool) {
	b.num++
	n := fmt.Sprintf("%s%d", b.tag, b.num)
	src := func(a arg, k string) string {
		if a.l < 0 {
			return a.text
		}
		return lits[a.l].src(k + n)
	}
	val := func(a arg, k string) string { return lits[a.l].val(k + n) }
	domName := "dom" // domains are shared
	domSrc := func() string {
		if dom.l < 0 {
			return dom.text
		}
		if dom.l >= 2 && dom.l <= 3 {
			return "`" + domName + fmt.Sprint(dom.l) + "`"
		}
		return `"` + domName + fmt.Sprint(dom.l) + `"`
	}
	s := sigs[fn]
	text := callText(b.sub(recv), fn, src(id, "i"), src(pl, "p"), b.number(), src(ctx, "c"), domSrc(), extra...)
	b.src.WriteString(b.sub(pre))
	// the position is that of the opening parenthesis
	at := b.line() + strings.Count(callHead(recv, fn), "\n")
	b.src.WriteString(text)
	b.src.WriteString(b.sub(post))
	ok := yes && id.lit() && (s.pl < 0 || pl.lit()) && (s.ctx < 0 || ctx.lit()) && (s.dom < 0 || dom.lit())
	if !ok {
		return
	}
	m := msg{id: val(id, "i"), pos: fmt.Sprintf("%s:%d", b.file, at)}
	if s.pl >= 0 {
		m.pl = val(pl, "p")
	}
	if s.ctx >= 0 {
		m.ctx = val(ctx, "c")
	}
	if s.dom >= 0 {
		m.dom = domName + fmt.Sprint(dom.l)
	}
	b.ms = append(b.ms, m)
}

func (b *builder) open(r recv) {
	b.num++
	fmt.Fprintf(&b.src, "func f%s%d() {\n", b.tag, b.num)
	if r.local != "" {
		b.src.WriteString("\t" + b.sub(r.local) + "\n")
	}
}

func (b *builder) close(r recv) {
	if strings.HasSuffix(r.local, "{") || strings.HasSuffix(r.local, ":") {
		b.src.WriteString("\t}")
		if strings.HasPrefix(r.local, "func") {
			b.src.WriteString("(nil)")
		}
		b.src.WriteString("\n")
	}
	b.src.WriteString("}\n")
}

// header writes package clause and imports. The other package is imported always.
func header(pkgName, g, o string, decls bool) string {
	s := "package " + pkgName + "\n\nimport (\n"
	if g == "gotext" {
		s += "\t\"" + gotextPath + "\"\n"
	} else {
		s += "\t" + g + " \"" + gotextPath + "\"\n"
	}
	if o == "gotext" {
		s += "\t\"" + otherPath + "\"\n"
	} else {
		s += "\t" + o + " \"" + otherPath + "\"\n"
	}
	s += ")\n\nvar _ = " + g + ".Get\nvar _ = " + o + ".Get\n"
	if decls {
		s += strings.ReplaceAll(strings.ReplaceAll(declSource+lookAlikes, "@", g), "~", o)
	}
	return s
}

// memory runs the inspection of the file in memory and compares.
func (b *builder) memory(t *eng.T, pkgName, when string) {
	p := check("m/pkg", map[string]string{"/w/" + b.file: b.src.String()}, [2]string{otherPath, otherSource})
	if len(b.ms) > 0 {
		t.Nontriv()
	}
	first := ""
	for mode, name := range modes {
		dm := &xp.DomainMap{}
		p.extract(mode, "/w", dm)
		t.Step(b.num)
		files := save(t, when, dm)
		text := filesText(files)
		if mode == 0 {
			t.State(when + text)
			checkSaved(t, "extraction", when+" by "+name, files, expect(b.ms, ""))
			first = text
		} else if text != first {
			checkSaved(t, "extraction", when+" by "+name, files, expect(b.ms, ""))
			t.Failf("modes", "%s: the modes of extraction differ:\n%s", when, seq.Diff(text, first))
		}
	}
}

// nums are texts of the number argument.
var nums = []string{"2", "gInt", "0x1F", "'1'", "1e3", "-1", `len("abc")`, "int(2.0)", "(2)", "1_000", "0", "2 - 1", "gInt + 1", "map[string]int{`x`: 1}[`x`]", "func() int { return 1 }()"}

func (b *builder) number() string {
	if b.n != "" {
		return b.n
	}
	return nums[b.num%len(nums)]
}

func all(l int) arg { return arg{l: l} }

// arguments: every receiver x function x all combinations of literal and non-literal arguments.
func arguments(nl int) eng.Suite {
	const chunk = 400
	type cs struct {
		r  recv
		fn string
		lo int
	}
	var cases []cs
	opts := len(lits) + nl
	for _, r := range recvs {
		for _, fn := range r.functions() {
			n := 1
			s := sigs[fn]
			for _, k := range []int{s.id, s.pl, s.ctx, s.dom} {
				if k >= 0 {
					n *= opts
				}
			}
			if r.fns == "f" || strings.Contains(r.expr, "Headers") {
				n = len(lits)
			}
			for lo := 0; lo < n; lo += chunk {
				cases = append(cases, cs{r, fn, lo})
			}
		}
	}
	return eng.Suite{Name: "arguments", N: int64(len(cases)), Bound: fmt.Sprintf("%d receivers x every lookup function x every combination of %d literal and %d non-literal kinds in every string argument", len(recvs), len(lits), nl),
		Run: func(t *eng.T, i int64) {
			c := cases[i]
			b := &builder{file: "pkg/a.go", g: "gotext", o: "other", tag: ""}
			b.src.WriteString(header("pkg", b.g, b.o, true))
			b.open(c.r)
			s := sigs[c.fn]
			n := 1
			for _, k := range []int{s.id, s.pl, s.ctx, s.dom} {
				if k >= 0 {
					n *= opts
				}
			}
			if c.r.fns == "f" || strings.Contains(c.r.expr, "Headers") {
				n = len(lits)
			}
			for k := c.lo; k < c.lo+chunk && k < n; k++ {
				x := k
				pick := func(at int) arg {
					if at < 0 {
						return arg{}
					}
					d := x % opts
					x /= opts
					if d < len(lits) {
						return all(d)
					}
					return arg{-1, nonLits[(d-len(lits)+int(i))%len(nonLits)]}
				}
				id, pl, ctx, dom := pick(s.id), pick(s.pl), pick(s.ctx), pick(s.dom)
				b.emit("\t\t_ = ", c.r.expr, c.fn, id, pl, ctx, dom, nil, "\n", c.r.yes)
			}
			b.close(c.r)
			when := fmt.Sprintf("%s, %s from combination %d", c.r.name, c.fn, c.lo)
			if t.WantSample() {
				t.Sample("%s: %s.%s", when, c.r.expr, c.fn)
			}
			b.memory(t, "pkg", when)
		}}
}

// places are the syntactic places of a call.
var places = [][2]string{
	{"_ = ", ""}, {"", ""}, {"_ = use(1, ", ")"}, {"_ = gPo.Get(", ")"}, {"_ = gOwn.Get(", ")"}, {"_ = gPo.GetC(\"not \"+gStr, ", ")"},
	{"go ", ""}, {"defer ", ""}, {"go func() { _ = ", " }()"}, {"defer func() { use(", ") }()"},
	{"if ", " != \"\" { use() }"}, {"if s := ", "; s != \"\" { use(s) }"}, {"if gInt == 1 {} else if ", " != \"\" { use() }"}, {"for ", " == \"x\" { break }"}, {"for s := ", "; s != s; { }"}, {"for ; ; use(", ") { break }"}, {"switch ", " { case \"x\": }"}, {"switch s := ", "; { case s == \"x\": }"},
	{"switch gStr { case \"x\", ", ": use() }"}, {"switch { default: use(", ") }"}, {"_ = func() string { return ", " }"}, {"_ = map[string]string{", ": \"x\"}"}, {"_ = map[string]string{\"x\": ", "}"},
	{"_ = []string{1: ", "}"}, {"_ = [...]interface{}{\"x\", ", "}"}, {"_ = struct{ s string }{s: ", "}"}, {"_ = &struct{ s []string }{[]string{", "}}"}, {"ch <- ", ""}, {"select { case ch <- ", ": default: }"}, {"select { default: use(", ") }"},
	{"loop: for { _ = ", "; break loop }"}, {"{ { _ = ", " } }"}, {"_ = (", ")"}, {"_ = \"x\" + ", " + \"y\""}, {"_ = []byte(", ")"}, {"_ = ", "[0]"}, {"_ = ", "[0:0]"}, {"_ = len(", ")"}, {"_ = interface{}(", ").(string)"}, {"for range ", " { }"},
	{"switch interface{}(", ").(type) { }"}, {"_ = [1]int{}[len(", ")%1]"}, {"x1, y1 := 1, ", "; use(x1, y1)"}, {"var s string = ", "; use(s)"}, {"gStr += ", ""}, {"gStr, gStr2 = \"x\", ", ""}, {"const k = 1; use(k, ", ")"}, {"func(a string) { use(a) }(", ")"}, {"_ = func() func() string { return func() string { return ", " } }"},
	{"_ = *ident(&[]string{", "}[0])"}, {"_ = ident[string](", ")"}, {"goto end; end: use(", ")"}, {"_ = !(", " == \"x\")"}, {"panic(", ")"}, {"_ = /* note */ ", " // remark"},
	{"_ = []string{\n\t\t\t\"x\",\n\t\t\t", ",\n\t\t}"}, {"use(\n\t\t\t", ",\n\t\t)"}, {"_ = \"x\" +\n\t\t\t", ""}, {"// @.Get(\"comment\")\n\t\t_ = ", ""}, {"_ = `@.Get(\"inside a string\")` + ", ""}, {"/* gPo.Get(\"comment\")\n\n */ _ = ", ""},
}

// top are places outside of functions.
var topPlaces = [][2]string{
	{"var _ = ", ""}, {"var _, _ = 1, ", ""}, {"var _ = func() string { return ", " }()"}, {"var _ = map[string][]string{\"x\": {", "}}"}, {"func init() { _ = ", " }"}, {"func (w *W) M%d() string { return ", " }"}, {"func (b Box[X]) M%d(x X) string { use(x); return ", " }"}, {"func g%d[X any](x X) string { use(x); return ", " }"},
	{"func (Own) M%d() (s string) { s = ", "; return }"}, {"var (\n\t_ = 1\n\t_ = ", "\n)"}, {"type t%d [1]int; func (t%d) String() string { return ", " }"}, {"var _ fmtStringer%d = nil; type fmtStringer%d interface{}; var _ = ", ""},
}

// placesSuite: every receiver x function x place.
func placesSuite() eng.Suite {
	type cs struct {
		r  recv
		fn string
	}
	var cases []cs
	for _, r := range recvs {
		if r.fns == "f" || strings.Contains(r.expr, "Headers") {
			continue
		}
		for _, fn := range r.functions() {
			cases = append(cases, cs{r, fn})
		}
	}
	return eng.Suite{Name: "places", N: int64(len(cases)), Bound: fmt.Sprintf("%d receivers x every lookup function x %d syntactic places, with and without further arguments", len(recvs), len(places)+len(topPlaces)),
		Run: func(t *eng.T, i int64) {
			c := cases[i]
			b := &builder{file: "pkg/a.go", g: "gotext", o: "other", tag: ""}
			b.src.WriteString(header("pkg", b.g, b.o, true))
			b.src.WriteString("var ch chan string\n")
			extras := [][]string{nil, {`"further"`, "1", `"arguments"`, "`x`"}, {"[]interface{}{`x`}..."}}
			for k, pl := range places {
				b.open(c.r)
				e := extras[k%3]
				if pl[0] == "defer " || pl[0] == "go " || pl[0] == "" {
					e = nil
				}
				b.emit("\t\t"+pl[0], c.r.expr, c.fn, all(k%len(lits)), all((k+1)%len(lits)), all((k+2)%len(lits)), all(0), e, pl[1]+"\n", c.r.yes)
				b.close(c.r)
			}
			if c.r.local == "" {
				for k, pl := range topPlaces {
					pre := strings.ReplaceAll(pl[0], "%d", fmt.Sprint(k))
					b.emit(pre, c.r.expr, c.fn, all(k%len(lits)), all((k+1)%len(lits)), all((k+2)%len(lits)), all(0), extras[k%3], pl[1]+"\n", c.r.yes)
				}
			}
			when := fmt.Sprintf("%s, %s in every place", c.r.name, c.fn)
			b.memory(t, "pkg", when)
		}}
}

// nested: calls within the arguments of calls, and results of several values as arguments.
func nested() eng.Suite {
	var yes []recv
	for _, r := range recvs {
		if r.yes && r.local == "" && r.fns != "1" {
			yes = append(yes, r)
		}
	}
	r := []int{len(yes), len(yes)}
	return eng.Suite{Name: "nested", N: eng.Prod(r...), Bound: "every pair of receivers: a call in every argument of a call, and calls with the results of a function for arguments",
		Run: func(t *eng.T, i int64) {
			d := eng.Digits(i, r...)
			out, in := yes[d[0]], yes[d[1]]
			b := &builder{file: "a b/x.go", g: "gotext", o: "other"}
			b.file = "sub/x.go"
			b.src.WriteString(header("pkg", b.g, b.o, true))
			b.open(out)
			outer := func(fn string, hole int) (pre, post string) {
				s := sigs[fn]
				args := make([]string, s.args()+2)
				for k := range args {
					args[k] = `"o"`
				}
				if s.n >= 0 {
					args[s.n] = "2"
				}
				if hole == s.n {
					args[hole] = "len(\x00)"
				} else {
					args[hole] = "\x00"
				}
				text := callHead(b.sub(out.expr), fn) + strings.Join(args, ", ") + ")"
				k := strings.IndexByte(text, 0)
				return "\t_ = " + text[:k], text[k+1:]
			}
			for _, fn := range out.functions() {
				s := sigs[fn]
				for hole := 0; hole < s.args()+2; hole++ {
					pre, post := outer(fn, hole)
					// what the outer call gives when the hole is not one of its texts
					if hole == s.n || hole >= s.args() {
						m := msg{id: "o", pos: fmt.Sprintf("%s:%d", b.file, b.line()+strings.Count(callHead(out.expr, fn), "\n"))}
						if s.pl >= 0 {
							m.pl = "o"
						}
						if s.ctx >= 0 {
							m.ctx = "o"
						}
						if s.dom >= 0 {
							m.dom = "o"
						}
						b.ms = append(b.ms, m)
					}
					infn := in.functions()[(hole+len(fn))%len(in.functions())]
					b.emit(pre, in.expr, infn, all(0), all(0), all(0), all(0), nil, post+"\n", true)
				}
			}
			b.close(out)
			b.open(in)
			fmt.Fprintf(&b.src, "\t_ = %suse(`several`))\n", callHead(b.sub(in.expr), "Get"))
			fmt.Fprintf(&b.src, "\t_ = %stwo())\n", callHead(b.sub(in.expr), "GetC"))
			fmt.Fprintf(&b.src, "\t_ = %sfour())\n", callHead(b.sub(in.expr), "GetNC"))
			if in.fns == "8" {
				fmt.Fprintf(&b.src, "\t_ = %stwo())\n", callHead(b.sub(in.expr), "GetD"))
			}
			// method values and expressions are no calls of a lookup with its arguments
			if d[0] == 0 && in.fns != "8" {
				fmt.Fprintf(&b.src, "\tmv := %s\n\t_ = mv\n\t_ = (*%s.Po).Get(gPo, gStr)\n", strings.TrimSuffix(callHead(b.sub(in.expr), "Get"), "("), b.g)
			}
			b.close(in)
			b.memory(t, "pkg", fmt.Sprintf("calls through %s within calls through %s", in.name, out.name))
		}}
}

// extraKinds are further arguments of a lookup.
var extraKinds = []string{"", "'x'", "1.5", "2i", "`raw`", `"further"`, "nil", "gInt", "struct{ a, b string }{`x`, `y`}", "[]interface{}{`x`}...", "'x', \"y\", 3", "gStr, 'x'", "func() string { return `z` }", "&gW, -1, \"%d\""}

// numbers: every kind of number argument and of further arguments.
func numbers() eng.Suite {
	type cs struct {
		r  recv
		fn string
	}
	var cases []cs
	for _, r := range recvs {
		if r.fns == "f" || r.fns == "1" {
			continue
		}
		for _, fn := range r.functions() {
			cases = append(cases, cs{r, fn})
		}
	}
	return eng.Suite{Name: "numbers", N: int64(len(cases)), Bound: fmt.Sprintf("%d receivers x every lookup function x %d kinds of number argument x %d kinds of further arguments", len(recvs), len(nums), len(extraKinds)),
		Run: func(t *eng.T, i int64) {
			c := cases[i]
			b := &builder{file: "pkg/a.go", g: "gotext", o: "other"}
			b.src.WriteString(header("pkg", b.g, b.o, true))
			b.open(c.r)
			for k, n := range nums {
				if k > 0 && sigs[c.fn].n < 0 {
					break
				}
				b.n = n
				for j, e := range extraKinds {
					var es []string
					if e != "" {
						es = []string{e}
					}
					b.emit("\t\t_ = ", c.r.expr, c.fn, all((k+j)%len(lits)), all(0), all(0), all(0), es, "\n", c.r.yes)
				}
			}
			b.close(c.r)
			b.memory(t, "pkg", fmt.Sprintf("%s, %s with every kind of number", c.r.name, c.fn))
		}}
}

// merged: the same message from several calls, files and functions.
func merged(few int) eng.Suite {
	var yes []recv
	for _, r := range recvs {
		if r.yes && r.local == "" {
			yes = append(yes, r)
		}
	}
	if few > 0 {
		var some []recv
		for k := 0; k < len(yes); k += len(yes)/few + 1 {
			some = append(some, yes[k])
		}
		yes = some
	}
	fns := []string{"Get", "GetN", "GetC", "GetNC"}
	r := []int{len(yes), len(yes), 4, 4, 2}
	return eng.Suite{Name: "same message", N: eng.Prod(r...), Bound: "every pair of receivers (quick: of a part of them) x pair of functions with the same id and context, on one line and on two",
		Run: func(t *eng.T, i int64) {
			d := eng.Digits(i, r...)
			b := &builder{file: "x.go", g: "gt", o: "gotext"}
			b.src.WriteString(header("pkg", b.g, b.o, true))
			b.open(recv{})
			sep := ";"
			if d[4] == 1 {
				sep = "\n\n"
			}
			for k := 0; k < 2; k++ {
				rc, fn := yes[d[k]], fns[d[2+k]]
				s := sigs[fn]
				m := msg{id: "same", pos: fmt.Sprintf("%s:%d", b.file, b.line()+strings.Count(callHead(rc.expr, fn), "\n"))}
				if s.pl >= 0 {
					m.pl = "plural"
				}
				if s.ctx >= 0 {
					m.ctx = "ctx"
				}
				b.ms = append(b.ms, m)
				b.src.WriteString("_ = " + callText(b.sub(rc.expr), fn, `"same"`, `"plural"`, "gInt", `"ctx"`, "") + sep)
				b.num++
			}
			b.src.WriteString("\n")
			b.close(recv{})
			b.memory(t, "pkg", fmt.Sprintf("the same message through %s by %s and %s by %s", yes[d[0]].name, fns[d[2]], yes[d[1]].name, fns[d[3]]))
		}}
}

func init() {
	eng.Register(&eng.Prop{ID: "C25", Level: "model_checking", Rule: "enumeration of programs; output read back and compared with the calls written",
		Assume: []string{"programs without type errors, dot imports and line directives; no promoted methods of embedded library types; non-empty texts"},
		Suites: func(tier string) []eng.Suite {
			return []eng.Suite{
				arguments(tiered(tier, 2, 4)),
				placesSuite(),
				nested(),
				numbers(),
				merged(tiered(tier, 14, 0)),
				e2e(),
				realModule(),
				command(),
				sourceFiles(),
				countSuite(),
			}
		}})
}
