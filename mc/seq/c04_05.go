package seq

import (
	"fmt"
	"runtime"
	"strings"
	"time"

	"github.com/leonelquinteros/gotext/plurals"

	"verif/eng"
	"verif/ref"
)

var evalNs = ref.BoundaryN()

// hugeNs are counts beyond the 32 bits a compiled expression takes.
var hugeNs = func() (o []uint64) {
	for _, b := range []uint64{1 << 32, 2 << 32, 5_000_000_000, 1_000_000_000_000, 1 << 40, 1 << 62, 1<<63 - 200} {
		for k := uint64(0); k < 130; k++ {
			o = append(o, b+k)
		}
	}
	return append(o, 1<<32+1_000_000, 7_000_000, 7_000_000_000_001, 1<<63-1)
}()

// agree compiles the text, which must succeed, and compares all values with C.
func agree(t *eng.T, text string, e *ref.Ex, ns []uint32) {
	x, err := plurals.Compile(text)
	if err != nil || x == nil {
		t.Failf("rejects", "Compile(%q) = %v, %v; want an expression", text, x, err)
	}
	t.Step(len(ns))
	h := uint64(17)
	for _, n := range ns {
		g, w := x.Eval(n), int(e.Eval(uint64(n)))
		if g != w {
			t.Failf("value", "Compile(%q).Eval(%d) = %d, C gives %d", text, n, g, w)
		}
		h = h*31 + uint64(w)
	}
	t.StateHash(h ^ eng.Hash(text))
	t.Nontriv()
}

// layouts of one expression: rendering styles, then token spacings.
const nStyles = 64

func styled(e *ref.Ex, style int) string {
	s := e.Render(style)
	return s
}

func spaced(s string, k int) string {
	tk := ref.Tokens(s)
	switch k {
	case 1:
		return strings.Join(tk, " ")
	case 2:
		return "  " + strings.Join(tk, "   ") + "  "
	case 3:
		var b strings.Builder
		for i, x := range tk {
			if i%2 == 1 {
				b.WriteByte(' ')
			}
			b.WriteString(x)
		}
		return b.String()
	case 4: // redundant parentheses around everything
		if tk[0] == "0" && len(tk) == 1 {
			return s
		}
		return "(( " + s + " ))"
	}
	return s
}

func mustParse(s string) *ref.Ex {
	e := ref.ParseC(s)
	if e == nil {
		panic("not a C expression: " + s)
	}
	return e
}

var cmpOps = []string{"==", "!=", "<", "<=", ">", ">="}
var cmpLhs = []string{"n", "n%1", "n%2", "n%3", "n%7", "n%10", "n%100", "n%1000", "n%1000000", "n%4294967295"}
var cmpRhs = []uint64{0, 1, 2, 3, 4, 5, 6, 9, 10, 11, 12, 14, 19, 20, 21, 99, 100, 101, 127, 128, 255, 256, 999, 65535, 65536, 99999, 1000000, 2147483647, 2147483648, 4294967294, 4294967295}

// trees are all binary trees of && and || over k leaves.
func trees(k int) []func(leaf func() *ref.Ex) *ref.Ex {
	if k == 1 {
		return []func(func() *ref.Ex) *ref.Ex{func(l func() *ref.Ex) *ref.Ex { return l() }}
	}
	var out []func(func() *ref.Ex) *ref.Ex
	for i := 1; i < k; i++ {
		for _, a := range trees(i) {
			for _, b := range trees(k - i) {
				for _, op := range []string{"&&", "||"} {
					out = append(out, func(l func() *ref.Ex) *ref.Ex {
						x := a(l)
						return ref.Bin(op, x, b(l))
					})
				}
			}
		}
	}
	return out
}

func treeSuite(name string, leaves int, atoms []string) eng.Suite {
	ts := trees(leaves)
	r := []int{len(ts)}
	for i := 0; i < leaves; i++ {
		r = append(r, len(atoms))
	}
	var at []*ref.Ex
	for _, a := range atoms {
		at = append(at, mustParse(a))
	}
	ns := evalNs[:]
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("all && / || trees of %d comparisons out of %q, standing alone and as ternary condition, 8 parenthesis/space styles", leaves, atoms),
		Run: func(t *eng.T, i int64) {
			d := eng.Digits(i, r...)
			k := 0
			e := ts[d[0]](func() *ref.Ex { k++; return at[d[k]] })
			for st := 0; st < 8; st++ {
				agree(t, styled(e, st), e, ns)
			}
			tn := ref.Tern(e, ref.Num(2), ref.Num(1))
			for _, st := range []int{0, 1, 4, 15} {
				agree(t, styled(tn, st), tn, ns)
			}
			if t.WantSample() && i > 100 {
				t.Sample("%s", styled(tn, 3))
			}
		}}
}

// ternTrees: all ternary trees with k inner nodes.
func ternTrees(k int) []func(cond, leaf func() *ref.Ex) *ref.Ex {
	type F = func(cond, leaf func() *ref.Ex) *ref.Ex
	if k == 0 {
		return []F{func(c, l func() *ref.Ex) *ref.Ex { return l() }}
	}
	var out []F
	for i := 0; i < k; i++ {
		for _, a := range ternTrees(i) {
			for _, b := range ternTrees(k - 1 - i) {
				out = append(out, func(c, l func() *ref.Ex) *ref.Ex {
					x := c()
					y := a(c, l)
					return ref.Tern(x, y, b(c, l))
				})
			}
		}
	}
	return out
}

var ternConds = []string{"n==1", "n%10==1 && n%100!=11", "n>=2 && n<=4 || n==7", "5<n", "n%100>10", "(n==0 || n%10>=5) && n!=15"}

func ternSuite(name string, nodes int) eng.Suite {
	ts := ternTrees(nodes)
	r := []int{len(ts), 6}
	for i := 0; i < nodes; i++ {
		r = append(r, len(ternConds))
	}
	var cs []*ref.Ex
	for _, a := range ternConds {
		cs = append(cs, mustParse(a))
	}
	labels := [][]uint64{{0, 1, 2, 3, 4, 5}, {5, 4, 3, 2, 1, 0}, {1, 0, 1, 0, 1, 0}, {0, 0, 0, 1, 1, 2}, {10, 20, 100, 7, 9, 8}, {2, 0, 3, 1, 5, 4}}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("all nestings of %d ternaries (then-branch nestings parenthesised) x %d conditions each x 6 value labellings x 64 styles", nodes, len(ternConds)),
		Run: func(t *eng.T, i int64) {
			d := eng.Digits(i, r...)
			k, v := 1, 0
			e := ts[d[0]](func() *ref.Ex { k++; return cs[d[k]] }, func() *ref.Ex { v++; return ref.Num(labels[d[1]][v-1]) })
			step := 1
			if nodes > 2 {
				step = 7
			}
			for st := 0; st < nStyles; st += step {
				agree(t, styled(e, st), e, evalNs)
			}
		}}
}

var tokVocab = []string{"n", "0", "1", "2", "%", "==", "<", "&&", "||", "?", ":", "(", ")"}

// tokenSuite: all token strings; whatever compiles must mean what C says.
func tokenSuite(name string, depth int, sound bool) eng.Suite {
	const pack = 169 // last two tokens enumerated inside a case
	nv := len(tokVocab)
	n := int64(1)
	for i := 0; i < depth-2; i++ {
		n *= int64(nv)
	}
	ns := []uint32{0, 1, 2, 3, 4, 10, 11, 12, 4294967295}
	return eng.Suite{Name: name, N: n, Bound: fmt.Sprintf("all strings of %d tokens out of %q", depth, tokVocab),
		Run: func(t *eng.T, i int64) {
			var head strings.Builder
			x := i
			for k := 0; k < depth-2; k++ {
				head.WriteString(tokVocab[x%int64(nv)])
				x /= int64(nv)
			}
			for j := 0; j < pack; j++ {
				s := head.String() + tokVocab[j/nv] + tokVocab[j%nv]
				e, err := plurals.Compile(s)
				t.Step(1)
				t.Execs++
				if (e == nil) == (err == nil) {
					t.Failf("neither", "Compile(%q) = %v, %v", s, e, err)
				}
				if e == nil {
					continue
				}
				c := ref.ParseC(s)
				if c != nil && !(c.Plain() && c.Defined()) {
					c = nil
				}
				for _, n := range ns {
					v := e.Eval(n)
					if sound && c != nil && v != int(c.Eval(uint64(n))) {
						t.Failf("value", "Compile(%q).Eval(%d) = %d, C gives %d", s, n, v, c.Eval(uint64(n)))
					}
				}
				if c != nil {
					t.Nontriv()
					t.StateHash(eng.Hash(s))
					t.Note("accepted_C_expressions", 1)
				} else {
					t.Note("accepted_other", 1)
				}
			}
		}}
}

func pfVariants(expr string, np int) []string {
	return []string{
		fmt.Sprintf("nplurals=%d; plural=%s;", np, expr),
		fmt.Sprintf("nplurals=%d; plural=%s", np, expr),
		fmt.Sprintf("nplurals=%d;plural=%s;", np, expr),
		fmt.Sprintf("  nplurals=%d;   plural=  %s  ;  ", np, expr),
		fmt.Sprintf("plural=%s; nplurals=%d;", expr, np),
		fmt.Sprintf("nplurals=%d; plural=(%s);", np, expr),
	}
}

var pfKeys = []string{"Plural-Forms", "plural-forms", "PLURAL-FORMS", "Plural-forms"}

func sixForms(ctx, id string) ref.Ent {
	return ref.Plur(ctx, id, id+"s", ctx+id+" f0", ctx+id+" f1", ctx+id+" f2", ctx+id+" f3", ctx+id+" f4", ctx+id+" f5")
}

func ruleCatalogSuite(name string) eng.Suite {
	r := []int{len(ref.RealRules), 6, len(pfKeys), 2, 3}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("%d rules x 6 header formattings x 4 key spellings in PO and MO x header layouts; forms served at %d numbers", len(ref.RealRules), len(evalNs)+len(hugeNs)),
		Run: func(t *eng.T, i int64) {
			d := eng.Digits(i, r...)
			rule := ref.RealRules[d[0]]
			if rule == "0" && d[1] == 5 {
				return
			}
			pf := pfVariants(rule, 6)[d[1]]
			if rule == "0" {
				pf = strings.TrimSuffix(pf, "")
			}
			e := mustParse(rule)
			doc := &ref.Doc{Header: []string{"Project-Id-Version: x", pfKeys[d[2]] + ": " + pf, "Language: zz"}, Ents: []ref.Ent{sixForms("", "i"), sixForms("c", "i")}}
			h := New([]string{"po", "mo"}[d[3]])
			if h.Kind == "po" {
				h.P.Parse(ref.WritePO(doc, ref.Layout{Split: d[4]}))
			} else {
				h.M.Parse(ref.WriteMO(doc, ref.MOLayout{Sorted: true, Big: d[4] == 1, Last: d[4] == 2}).Data)
			}
			t.State(pf + pfKeys[d[2]])
			t.Nontriv()
			for _, n := range evalNs {
				f := e.Eval(uint64(n))
				a, b := h.A.GetN("i", "is", int(n)), h.A.GetNC("i", "is", int(n), "c")
				t.Step(2)
				if a != fmt.Sprintf("i f%d", f) || b != fmt.Sprintf("ci f%d", f) {
					t.Failf("catalog-form", "%s with header %q: n=%d gives %q and %q, C selects form %d", h.Kind, pfKeys[d[2]]+": "+pf, n, a, b, f)
				}
			}
			for _, n := range hugeNs {
				f := e.Eval(n)
				a, b := h.A.GetN("i", "is", int(n)), string(h.A.AppendNC(nil, "i", "is", int(n), "c"))
				t.Step(2)
				if a != fmt.Sprintf("i f%d", f) || b != fmt.Sprintf("ci f%d", f) {
					t.Failf("catalog-form", "%s with header %q: n=%d gives %q and %q, C selects form %d", h.Kind, pfKeys[d[2]]+": "+pf, n, a, b, f)
				}
			}
		}}
}

func init() {
	eng.Register(&eng.Prop{ID: "C04", Level: "model_checking",
		Rule:   "every expression text within the bounds is compiled by the library and evaluated at the boundary numbers, against an independent C expression evaluator; catalogs must serve the same form",
		Assume: []string{"a bare n or n%k as a condition, constants other than 0 standing alone, and (0) are outside the supported grammar"},
		Suites: func(tier string) []eng.Suite {
			atoms4 := []string{"n==1", "n%10==2", "n%100<20", "3<=n", "n!=11"}
			s := []eng.Suite{
				{Name: "language-rules", N: int64(len(ref.RealRules) * nStyles * 5), Bound: fmt.Sprintf("%d rules of real languages x 64 parenthesis/space styles x 5 spacings, %d numbers", len(ref.RealRules), len(evalNs)),
					Run: func(t *eng.T, i int64) {
						rule := ref.RealRules[i/(nStyles*5)]
						e := mustParse(rule)
						st, sp := int(i/5%nStyles), int(i%5)
						if rule == "0" && st&8 != 0 {
							return
						}
						agree(t, spaced(styled(e, st), sp), e, evalNs)
						if st == 0 {
							agree(t, spaced(rule, sp), e, evalNs)
						}
						if t.WantSample() {
							t.Sample("%s", spaced(styled(e, st), sp))
						}
					}},
				{Name: "all-n", N: int64(len(ref.RealRules) * 64), Bound: fmt.Sprintf("%d rules at every n below %d", len(ref.RealRules), tierInt(tier, 200000, 20000000)),
					Run: func(t *eng.T, i int64) {
						rule := ref.RealRules[i/64]
						e := mustParse(rule)
						x, err := plurals.Compile(rule)
						if err != nil {
							t.Failf("rejects", "Compile(%q): %v", rule, err)
						}
						per := uint32(tierInt(tier, 200000, 20000000) / 64)
						for n := uint32(i%64) * per; n < uint32(i%64+1)*per; n++ {
							if g, w := x.Eval(n), int(e.Eval(uint64(n))); g != w {
								t.Failf("value", "Compile(%q).Eval(%d) = %d, C gives %d", rule, n, g, w)
							}
						}
						t.Step(int(per))
						t.State(fmt.Sprint(i))
						t.Nontriv()
					}},
				{Name: "comparisons", N: int64(len(cmpLhs) * len(cmpOps) * len(cmpRhs) * 2), Bound: fmt.Sprintf("%d left sides x %d operators x %d constants, both orders, 16 styles, alone and in a ternary", len(cmpLhs), len(cmpOps), len(cmpRhs)),
					Run: func(t *eng.T, i int64) {
						d := eng.Digits(i, len(cmpLhs), len(cmpOps), len(cmpRhs), 2)
						l, r := mustParse(cmpLhs[d[0]]), ref.Num(cmpRhs[d[2]])
						e := ref.Bin(cmpOps[d[1]], l, r)
						if d[3] == 1 {
							e = ref.Bin(cmpOps[d[1]], r, l)
						}
						ns := append([]uint32{}, evalNs...)
						c := uint32(cmpRhs[d[2]])
						ns = append(ns, c-1, c, c+1, c*10, c+100)
						tn := ref.Tern(e, ref.Num(3), ref.Num(0))
						for _, st := range []int{0, 1, 8, 9, 16, 25} {
							agree(t, styled(e, st), e, ns)
						}
						for st := 0; st < 32; st += 3 {
							agree(t, styled(tn, st), tn, ns)
						}
					}},
				treeSuite("logic-2", 2, []string{"n==1", "n%10==2", "n%100<20", "3<=n", "n!=11", "n>=5", "2>n", "n%10<=4", "1==n%10"}),
				treeSuite("logic-3", 3, []string{"n==1", "n%10==2", "n%100<20", "3<=n", "n!=11", "n>=5", "2>n"}),
				treeSuite("logic-4", 4, atoms4[:tierInt(tier, 4, 5)]),
				ternSuite("ternary-1", 1), ternSuite("ternary-2", 2), ternSuite("ternary-3", 3),
				tokenSuite("tokens-4", 4, true), tokenSuite("tokens-5", 5, true), tokenSuite("tokens-6", 6, true),
				deepSuite("deep"),
				mutationSuite("mutations", true),
				ruleCatalogSuite("catalogs"), formsOnlyByRule("nplurals-and-resolvers"),
			}
			if tier == "thorough" {
				s = append(s, treeSuite("logic-5", 5, atoms4[:3]), ternSuite("ternary-4", 4), tokenSuite("tokens-7", 7, true))
			}
			return s
		}})
	eng.Register(&eng.Prop{ID: "C05", Level: "model_checking", MemLimitMB: 12000, HangSec: 30,
		Rule:   "every string within the bounds is compiled: it must give an expression or an error, evaluate without panic, and leave no goroutine; catalogs with a bad rule must load completely and use the default rule or the resolver",
		Assume: []string{"what a string outside the grammar that is accepted all the same evaluates to is not judged"},
		Suites: func(tier string) []eng.Suite {
			s := []eng.Suite{
				tokenSuite("tokens-3", 3, false), tokenSuite("tokens-4", 4, false), tokenSuite("tokens-5", 5, false), tokenSuite("tokens-6", 6, false),
				byteSuite("bytes", tierInt(tier, 4, 5)),
				mutationSuite("mutations", false),
				bigSuite("big"),
				badHeaderSuite("bad-headers"),
				leakSuite("goroutines"),
			}
			if tier == "thorough" {
				s = append(s, tokenSuite("tokens-7", 7, false))
			}
			return s
		}})
}

// deepSuite: long chains and deep parentheses.
func deepSuite(name string) eng.Suite {
	ks := []int{2, 3, 4, 5, 8, 9, 16, 17, 31, 32, 33, 50, 63, 64, 65, 100}
	return eng.Suite{Name: name, N: int64(len(ks) * 6), Bound: "chains and nestings of up to 100 terms: ||, &&, ternary, parentheses, spaces, mixed",
		Run: func(t *eng.T, i int64) {
			k := ks[i/6]
			var s string
			switch i % 6 {
			case 0, 1, 2:
				op := []string{"||", "&&", ""}[i%6]
				var p []string
				for j := 0; j < k; j++ {
					p = append(p, fmt.Sprintf("n%s%d", []string{"==", "!=", "=="}[i%6], j*3))
				}
				if op == "" {
					for j := range p {
						p[j] += []string{" || ", " && n%10<5 || "}[j%2]
					}
					s = strings.Join(p, "") + "n>90 && n<93"
				} else {
					s = strings.Join(p, op)
				}
			case 3:
				for j := 0; j < k; j++ {
					s += fmt.Sprintf("n==%d ? %d : ", j, j+1)
				}
				s += "0"
			case 4:
				s = strings.Repeat("(", k) + "n%10==1" + strings.Repeat(")", k) + " && " + strings.Repeat("( ", k) + "n!=11" + strings.Repeat(" )", k)
			case 5:
				s = "n==1"
				for j := 0; j < k; j++ {
					if j%2 == 0 {
						s = fmt.Sprintf("(%s || n%%10==%d)", s, j%10)
					} else {
						s = fmt.Sprintf("(%s && n!=%d)", s, j*2)
					}
				}
			}
			agree(t, s, mustParse(s), evalNs)
		}}
}

func compileAny(t *eng.T, s string) {
	e, err := plurals.Compile(s)
	t.Step(1)
	if (e == nil) == (err == nil) {
		t.Failf("neither", "Compile(%q) = %v, %v", s, e, err)
	}
	t.StateHash(eng.Hash(s))
	if e != nil {
		t.Nontriv()
		for _, n := range []uint32{0, 1, 2, 3, 10, 11, 4294967295} {
			e.Eval(n)
		}
	}
}

// soundOnly: a text that is accepted must mean what C says.
func soundOnly(t *eng.T, s string) {
	c := ref.ParseC(s)
	if c == nil || !c.Plain() || !c.Defined() {
		return
	}
	e, err := plurals.Compile(s)
	if err != nil || e == nil {
		return
	}
	t.Note("accepted_C_expressions", 1)
	for _, n := range evalNs {
		if v := e.Eval(n); v != int(c.Eval(uint64(n))) {
			t.Failf("value", "Compile(%q).Eval(%d) = %d, C gives %d", s, n, v, c.Eval(uint64(n)))
		}
	}
}

func byteSuite(name string, depth int) eng.Suite {
	alpha := []string{"n", "0", "1", "9", "%", "=", "!", "<", ">", "&", "|", "?", ":", "(", ")", " ", "-", "+", ";", "x", "\t", "\n", "é", "\xff", "\x00", ".", "*", "/", "^", "\""}
	nv := len(alpha)
	n := int64(1)
	for i := 0; i < depth-2; i++ {
		n *= int64(nv)
	}
	return eng.Suite{Name: name, N: n, Bound: fmt.Sprintf("all strings of length up to %d over %d characters", depth, nv),
		Run: func(t *eng.T, i int64) {
			var h string
			x := i
			for k := 0; k < depth-2; k++ {
				h += alpha[x%int64(nv)]
				x /= int64(nv)
			}
			compileAny(t, h)
			for _, a := range alpha {
				compileAny(t, h+a)
				for _, b := range alpha {
					compileAny(t, h+a+b)
				}
			}
			t.Execs += int64(nv*nv + nv + 1)
		}}
}

// mutationSuite: every rule with one token deleted, doubled, replaced or inserted, and every truncation.
func mutationSuite(name string, sound bool) eng.Suite {
	ins := append(append([]string{}, tokVocab...), "!=", ">", ">=", "<=", "=", "&", "|", "-", "!", "+", "00", "99999999999", "4294967296", "18446744073709551616", "x", " ", "%0", "n%0", "((", "))", "()", "\x00", "é", ";")
	return eng.Suite{Name: name, N: int64(len(ref.RealRules)), Bound: fmt.Sprintf("%d rules: every truncation, token deletion, duplication, swap, and replacement by / insertion of %d tokens at every place", len(ref.RealRules), len(ins)),
		Run: func(t *eng.T, i int64) {
			tk := ref.Tokens(ref.RealRules[i])
			before := settled()
			defer func() {
				if after := settledTo(before); after > before && recover() == nil {
					t.Failf("leak", "compiling the mutations of %q left %d goroutines behind", ref.RealRules[i], after-before)
				}
			}()
			try := func(p ...[]string) {
				var b strings.Builder
				for _, x := range p {
					for _, y := range x {
						b.WriteString(y)
					}
				}
				compileAny(t, b.String())
				t.Execs++
				if sound {
					soundOnly(t, b.String())
				}
			}
			for k := range tk {
				try(tk[:k])
				try(tk[k:])
				try(tk[:k], tk[k+1:])
				try(tk[:k+1], tk[k:])
				if k > 0 {
					try(tk[:k-1], tk[k:k+1], tk[k-1:k], tk[k+1:])
				}
				for _, x := range ins {
					try(tk[:k], []string{x}, tk[k+1:])
					try(tk[:k], []string{x}, tk[k:])
				}
				for k2 := k + 1; k2 < len(tk); k2++ {
					try(tk[:k], tk[k+1:k2], tk[k2+1:])
				}
			}
		}}
}

func bigSuite(name string) eng.Suite {
	gens := []func(k int) string{
		func(k int) string { return strings.Repeat("(", k) },
		func(k int) string { return strings.Repeat(")", k) },
		func(k int) string { return strings.Repeat("(", k) + "n==1" + strings.Repeat(")", k) },
		func(k int) string { return strings.Repeat("(", k) + "n==1" },
		func(k int) string { return "n==1" + strings.Repeat(")", k) },
		func(k int) string { return strings.Repeat("()", k) },
		func(k int) string { return strings.Repeat(")(", k) },
		func(k int) string { return strings.Repeat("?", k) },
		func(k int) string { return strings.Repeat("n==1?0:", k) },
		func(k int) string { return strings.Repeat("||", k) },
		func(k int) string { return strings.Repeat("n==1&&", k) },
		func(k int) string { return strings.Repeat("9", k) },
		func(k int) string { return "n%" + strings.Repeat("9", k) + "==1" },
		func(k int) string { return "n==" + strings.Repeat("0", k) + "1" },
		func(k int) string { return strings.Repeat(" ", k) },
		func(k int) string { return strings.Repeat("n", k) },
		func(k int) string { return strings.Repeat("é", k) },
		func(k int) string { return strings.Repeat("x(", k) },
		func(k int) string { return strings.Repeat("(n==1)x", k) },
		func(k int) string { return strings.Repeat("%", k) },
	}
	ks := []int{1, 2, 3, 10, 50, 64, 100, 255, 256, 257, 500, 1000}
	return eng.Suite{Name: name, N: int64(len(gens) * len(ks)), Bound: "repetitive strings of up to 1000 units, 20 kinds",
		Run: func(t *eng.T, i int64) {
			compileAny(t, gens[i/int64(len(ks))](ks[i%int64(len(ks))]))
		}}
}

// badRules must not select forms: the catalog uses the default rule.
var badRules = []string{
	"", "nplurals=2", "nplurals=2;", "nplurals=2; plural=", "nplurals=2; plural=;", "nplurals=2; plural=foo;", "garbage", "n != 1", "=", ";", ";;;", "==;==", "plural", "nplurals=x; plural=n!=;",
	"nplurals=2; plural=n+1;", "nplurals=2; plural=(n==1;", "nplurals=2; plural=n==1 ? 0;", "nplurals=2; plural=n==1 ? : 1;", "nplurals=3; plural=n==1 ? 0 : x;", "nplurals=2; plural=n%0==1;", "nplurals=2; plural=n%0==1 ? 0 : 1;",
	"nplurals=3; plural=n==1 ? 0 : n%0==2 ? 1 : 2;", "nplurals=3; plural=n==1 ? 0 : n==;", "nplurals=2; plural=n==99999999999 ? 0 : 1;", "nplurals=INTEGER; plural=EXPRESSION;", "nplurals=2; plural=-1;", "nplurals=2; plural=n=1;", "nplurals=2; plural=n<>1;", "nplurals=2; plural=n é 1;", "nplurals=2; plural=\x01;", "nplurals=99999999999999999999; plural=?;",
	"plural=n==1 ? 0 : n==2 ? 1;", "nplurals=2; plural=a(n==1);",
}

func badHeaderSuite(name string) eng.Suite {
	r := []int{len(badRules) + 1, 2, 3, len(pfKeys), 2}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("%d missing, malformed or unsupported Plural-Forms values x PO and MO x no resolver / resolver before / after the load x 4 key spellings x header first or last", len(badRules)+1),
		Run: func(t *eng.T, i int64) {
			d := eng.Digits(i, r...)
			doc := &ref.Doc{Header: []string{"Language: zz", "X-After: kept"}, Ents: []ref.Ent{ref.Sing("", "a", "A"), sixForms("", "i"), sixForms("c", "i"), ref.Sing("c", "a", "CA")}}
			if d[0] < len(badRules) {
				doc.Header = []string{"Language: zz", pfKeys[d[3]] + ": " + badRules[d[0]], "X-After: kept"}
			}
			h := New([]string{"po", "mo"}[d[1]])
			res := func(n int) int { return n % 6 }
			if d[2] == 1 {
				h.SetResolver(res)
			}
			if h.Kind == "po" {
				h.P.Parse(ref.WritePO(doc, ref.Layout{EntRev: d[4] == 1, Split: d[4]}))
			} else {
				h.M.Parse(ref.WriteMO(doc, ref.MOLayout{Sorted: true, Last: d[4] == 1}).Data)
			}
			if d[2] == 2 {
				h.SetResolver(res)
			}
			c := ref.NewCat()
			c.Load(doc)
			c.Rule = nil
			if d[2] > 0 {
				c.Resolver = res
			}
			when := fmt.Sprintf("%s with %q", h.Kind, doc.Header)
			t.State(when + itoa(d[2]))
			t.Nontriv()
			ns := bigNs
			if d[2] == 0 {
				// the default rule: everything but 1 is plural
				ns = append([]int{-1, -2, -11, -2147483647, -2147483648, -4294967295, 4294967296, 4294967297, 1 << 40, 1<<40 + 1, 1<<63 - 1, -1 << 63}, bigNs...)
			}
			CheckCat(t, when, h, c, false, ns)
			Same(t, "headers", when, ref.CanonHeaders(h.Headers()), ref.CanonHeaders(c.Headers))
		}}
}

// leakSuite: no goroutine is left behind, whatever the outcome.
func leakSuite(name string) eng.Suite {
	strs := []string{"x", "(n==1)x", "x(n==1)", "(n==1)(n==2)x(n==3)", "n==1", "(n==1) && (n==2)", "n==1 ? (0) : x", "((", "))", "a(b)c(d)e(f)", "(n==1)é(n==2)", "n==1 ? 0 : (n%0==1)", "(n==1)+(n==2)+(n==3)", "", "0", "n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<12 || n%100>14) ? 1 : 2"}
	return eng.Suite{Name: name, N: int64(len(strs)), Solo: true, Bound: "50 compilations each of 16 strings that make the compiler stop at different places; goroutines counted",
		Run: func(t *eng.T, i int64) {
			before := settled()
			for k := 0; k < 50; k++ {
				compileAny(t, strs[i])
			}
			after := settledTo(before)
			if after > before {
				t.Failf("leak", "50 x Compile(%q) left %d goroutines behind", strs[i], after-before)
			}
			t.State(strs[i])
			t.Nontriv()
		}}
}

func settled() int {
	n := runtime.NumGoroutine()
	for k := 0; k < 20; k++ {
		time.Sleep(time.Millisecond)
		m := runtime.NumGoroutine()
		if m == n && k > 3 {
			break
		}
		n = m
	}
	return n
}
func settledTo(want int) int {
	var n int
	for k := 0; k < 200; k++ {
		if n = runtime.NumGoroutine(); n <= want {
			return n
		}
		time.Sleep(2 * time.Millisecond)
	}
	return n
}
