package seq

import (
	"fmt"
	"io"
	"os"
	"reflect"
	"strings"

	"github.com/leonelquinteros/gotext"

	"verif/eng"
)

// ftok is a piece of a named format: literal text or a placeholder.
type ftok struct {
	text             string // as written
	lit              string // what literal text prints
	name, mods, verb string
}

func flit(s string) ftok { return ftok{text: s, lit: s} }
func fper() ftok         { return ftok{text: "%%", lit: "%"} }
func fph(name, mods, verb string) ftok {
	return ftok{text: "%(" + name + ")" + mods + verb, name: name, mods: mods, verb: verb}
}

// fexpect prints a token sequence by the definition of the property.
func fexpect(toks []ftok, params map[string]interface{}) (string, string) {
	var f, want strings.Builder
	for _, k := range toks {
		f.WriteString(k.text)
		if k.name == "" {
			want.WriteString(k.lit)
		} else {
			want.WriteString(fmt.Sprintf("%"+k.mods+k.verb, params[k.name]))
		}
	}
	return f.String(), want.String()
}

type fstr struct {
	A int
	B string
}

func (f fstr) String() string { return "stringer:" + f.B }

var fptr = &fstr{3, "ptr"}

var fvalues = []interface{}{
	nil, 0, 7, -13, int64(1) << 40, uint8(200), 3.14159, -2.5e10, float32(0.1), "str", "", "100%", "%s", "%(a)s", "日本語", true, false, 'x', '☃', []byte("bytes"), []int{1, 2}, map[string]int{"k": 1},
	fstr{1, "b"}, fptr, fmt.Errorf("an error"), complex(1, 2), [2]bool{true, false}, struct{}{},
}

const fverbs = "svTtbcdoqXxUeEfFgGp"

var fmods = []string{"", "5", "05", ".2", "8.3", "0", "12", ".0", "08.4", "3.", "."}

func fcheck(t *eng.T, toks []ftok, params map[string]interface{}) {
	f, want := fexpect(toks, params)
	keep := map[string]interface{}{}
	for k, v := range params {
		keep[k] = v
	}
	got := gotext.Sprintf(f, params)
	t.Step(1)
	if got != want {
		t.Failf("format", "Sprintf(%q, %v) = %q, want %q", f, params, got, want)
	}
	if len(keep) != len(params) || params != nil && !reflect.DeepEqual(keep, params) {
		t.Failf("params", "Sprintf(%q) changed its parameters to %v", f, params)
	}
}

func ftokens() []ftok {
	return []ftok{
		flit("x"), flit(" "), flit("("), flit(")"), flit("(a)s"), flit("é☃\n"), flit("d"), flit(".2"), flit("s"), fper(),
		fph("a", "", "s"), fph("b", "", "d"), fph("a", "", "v"), fph("b1_X", "5", "d"), fph("f", ".2", "f"), fph("missing", "", "s"), fph("missing", "", "v"), fph("0", "", "q"), fph("_", "", "T"), fph("aa", "", "v"), fph("s", "", "s"), fph("nil", "", "v"), fph("pct", "", "s"),
	}
}

var fparams = []map[string]interface{}{
	{"a": "A", "b": 42, "b1_X": 7, "f": 3.14159, "0": "zero", "_": fptr, "aa": []int{1}, "s": "ess", "nil": nil, "pct": "%d %(a)s 100%"},
	{"a": 1, "b": "not a number", "f": "nor this", "unused": 1, "s": nil, "pct": "%"},
	{},
	nil,
}

func pieceSuite(name string, depth int) eng.Suite {
	ts := ftokens()
	n := eng.SeqCount(len(ts), depth) + 1
	return eng.Suite{Name: name, N: n, Bound: fmt.Sprintf("all formats of 0..%d pieces out of %d (literal text, %%%%, placeholders), with %d parameter maps and one of just the names used", depth, len(ts), len(fparams)),
		Run: func(t *eng.T, i int64) {
			var toks []ftok
			if i > 0 {
				for _, k := range eng.SeqAt(i-1, len(ts)) {
					toks = append(toks, ts[k])
				}
			}
			f, _ := fexpect(toks, nil)
			t.State(f)
			if strings.Contains(f, "%(") {
				t.Nontriv()
			}
			if t.WantSample() && i > 5000 {
				t.Sample("%q", f)
			}
			used := map[string]interface{}{}
			for _, k := range toks {
				if v, ok := fparams[0][k.name]; ok && k.name != "" {
					used[k.name] = v
				}
			}
			for _, p := range append(fparams[:len(fparams):len(fparams)], used) {
				fcheck(t, toks, p)
			}
		}}
}

func verbSuite(name string) eng.Suite {
	r := []int{len(fverbs), len(fmods), len(fvalues), len(fvalues)}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("each of %d verbs with each of %d widths and precisions for each of %d values, beside another placeholder with each value", len(fverbs), len(fmods), len(fvalues)),
		Run: func(t *eng.T, i int64) {
			d := eng.Digits(i, r...)
			p := map[string]interface{}{"v": fvalues[d[2]], "w": fvalues[d[3]]}
			ph := fph("v", fmods[d[1]], string(fverbs[d[0]]))
			t.Nontriv()
			t.StateHash(uint64(i))
			fcheck(t, []ftok{fper(), ph, flit("|"), fph("w", "", "v"), fper(), ph, flit(".")}, p)
			if d[3] == 0 {
				delete(p, "w")
				fcheck(t, []ftok{ph}, p)
				fcheck(t, []ftok{flit("é"), ph, flit(" ")}, p)
				fcheck(t, []ftok{ph, ph}, p)
			}
		}}
}

// many placeholders in every rotation
func manySuite(name string) eng.Suite {
	counts := []int{1, 2, 5, 9, 10, 11, 33, 100, 257}
	r := []int{len(counts), 12, 3}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("%v distinct names in 12 orders, each once, twice or thrice", counts),
		Run: func(t *eng.T, i int64) {
			d := eng.Digits(i, r...)
			n := counts[d[0]]
			p := map[string]interface{}{}
			var toks []ftok
			for j := 0; j < n; j++ {
				p[fmt.Sprintf("n%d", j)] = fmt.Sprintf("<value %d>", j)
			}
			for m := 0; m <= d[2]; m++ {
				for j := 0; j < n; j++ {
					k := (j*(2*d[1]+1) + d[1]) % n
					toks = append(toks, fph(fmt.Sprintf("n%d", k), "", "s"), flit(" "), fper())
				}
			}
			t.Nontriv()
			t.StateHash(uint64(i))
			fcheck(t, toks, p)
		}}
}

// printSuite: NPrintf prints what Sprintf gives.
func printSuite(name string) eng.Suite {
	ts := ftokens()
	n := eng.SeqCount(len(ts), 2)
	return eng.Suite{Name: name, N: n, Solo: true, Bound: fmt.Sprintf("NPrintf to the standard output for all formats of 1..2 pieces out of %d", len(ts)),
		Run: func(t *eng.T, i int64) {
			var toks []ftok
			for _, k := range eng.SeqAt(i, len(ts)) {
				toks = append(toks, ts[k])
			}
			t.Nontriv()
			for _, p := range fparams {
				f, want := fexpect(toks, p)
				if got := captureStdout(func() { gotext.NPrintf(f, p) }); got != want {
					t.Failf("print", "NPrintf(%q, %v) prints %q, want %q", f, p, got, want)
				}
				t.Step(1)
			}
		}}
}

func captureStdout(f func()) string {
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	keep := os.Stdout
	os.Stdout = w
	func() {
		defer func() { os.Stdout = keep; w.Close() }()
		f()
	}()
	b, _ := io.ReadAll(r)
	r.Close()
	return string(b)
}

func init() {
	eng.Register(&eng.Prop{ID: "C23", Level: "model_checking",
		Rule:   "formats are put together from pieces whose meaning is known; the result must be the concatenation of what fmt.Sprintf gives for each placeholder alone",
		Assume: []string{"formats consist of literal text without a percent sign, %%, and %(name)verb placeholders"},
		Suites: func(tier string) []eng.Suite {
			return []eng.Suite{pieceSuite("pieces", tierInt(tier, 4, 5)), verbSuite("verbs"), manySuite("many"), nameSuite("names"), printSuite("print")}
		}})
}
