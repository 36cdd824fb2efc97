package seq

import (
	"fmt"
	"runtime"
	"strings"
	"unicode"

	"verif/eng"
	"verif/ref"
)

var oddWords = []string{"\x1a", "\x1a\x1a", "\x04", "__END__", "__DATA__", "EOF", "EOT", "END", "end", "exit", "quit", ".", "..", "...", "---", "+++", "***", "%%", "%}", "*/", "/*", "--", "<!--", "-->", "<?xml version=\"1.0\"?>", "\ufeff", "\ufeffx", "\ufffd", "\u2028", "\u0085", "\u00a0", "{", "}", "[]", "()", "include \"x.po\"", "@set x", "$", "charset=UTF-8", "Language: xx", "Plural-Forms: nplurals=1; plural=0;", "Content-Type: text/plain", "#eof", "#end", "# END", "#. msgid \"one\"", "#endif", "#!eof", "domain \"other\"", "\\n", "0", "1", "-1", "true", "nil"}

// oddLineSuite: every byte and every pair of bytes as a line of its own.
func oddLineSuite(name string) eng.Suite {
	pairs := junkEnts()
	hd := string(ref.WritePO(&ref.Doc{Header: hdr("en", pfEn)}, ref.Layout{Split: 1}))
	n := 256 + 65536 + len(oddWords)
	return eng.Suite{Name: name, N: int64(n), Bound: fmt.Sprintf("every byte, every pair of bytes and %d words as a line before, between and after entries", len(oddWords)), Run: func(t *eng.T, i int64) {
		var l string
		switch {
		case i < 256:
			l = string([]byte{byte(i)})
		case i < 256+65536:
			l = string([]byte{byte((i - 256) / 256), byte(i - 256)})
		default:
			l = oddWords[i-256-65536]
		}
		for _, x := range strings.Split(l, "\n") {
			if strings.HasPrefix(strings.TrimFunc(x, unicode.IsSpace), "\"") {
				return // goes on with the string before it
			}
		}
		p := pairs[i%int64(len(pairs))]
		e1, e2 := textOf(p[:1], 0), textOf(p[1:], 1)
		for place, text := range []string{l + "\n" + hd + "\n" + e1 + "\n" + e2, hd + "\n" + l + "\n" + e1 + l + "\n" + e2, hd + e1 + "\n" + l + "\n\n" + e2 + "\n" + l, hd + l + "\n" + l + "\n" + e1 + "\n" + e2} {
			h := New("po")
			h.P.Parse([]byte(text))
			t.Step(1)
			checkSurvive(t, fmt.Sprintf("line %q at place %d", l, place), h, p, true, false)
		}
		t.StateHash(eng.Hash(l))
		t.Nontriv()
	}}
}

var formNumbers = []string{"2", "3", "5", "7", "10", "16", "31", "63", "64", "99", "100", "127", "128", "255", "256", "257", "999", "1000", "4096", "65535", "65536", "200000", "1000000", "16777216", "500000000", "2147483647", "2147483648", "4294967295", "4294967296", "1099511627776", "9223372036854775807", "9223372036854775808", "18446744073709551616", "99999999999999999999999999"}

// indexSuite: a text with one msgstr[N] costs what its length calls for and gives that form alone.
func indexSuite(name string) eng.Suite {
	r := []int{len(formNumbers), 4, 3}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("%d form numbers up to and beyond the integers, alone, before, after and between the usual ones, in 3 places; memory measured", len(formNumbers)), Run: func(t *eng.T, i int64) {
		d := eng.Digits(i, r...)
		k := formNumbers[d[0]]
		odd := "msgstr[" + k + "] \"odd\"\n"
		f0, f1 := "msgstr[0] \"F0\"\n", "msgstr[1] \"F1\"\n"
		body := []string{odd, odd + f0 + f1, f0 + f1 + odd, f0 + odd + f1}[d[1]]
		head := []string{"", "msgctxt \"c\"\n", ""}[d[2]]
		rest := []ref.Ent{ref.Plur("", "one", "ones", "e0", "e1"), ref.Plur("c", "two", "twos", "z0", "z1")}
		text := string(ref.WritePO(&ref.Doc{Header: hdr("en", pfEn), Ents: rest[:1]}, ref.Layout{})) + "\n" + head + "msgid \"dmg\"\nmsgid_plural \"dmgs\"\n" + body + "\n" + textOf(rest[1:], 0)
		t.State(text)
		t.Nontriv()
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		h := New("po")
		h.P.Parse([]byte(text))
		runtime.ReadMemStats(&b)
		t.Step(1)
		when := fmt.Sprintf("with msgstr[%s], case %v", k, d)
		if got := b.TotalAlloc - a.TotalAlloc; got > 2<<20 {
			t.Failf("memory", "%s: parsing %d bytes allocates %d", when, len(text), got)
		}
		checkSurvive(t, when, h, rest, true, false)
		tr := h.D.GetTranslations()
		if d[2] == 1 {
			tr = h.D.GetCtxTranslations()["c"]
		}
		x := tr["dmg"]
		if x == nil {
			return
		}
		for f, s := range x.Trs {
			switch {
			case f == 0 && (s == "F0" || d[1] == 0 && s == "odd"), f == 1 && s == "F1", fmt.Sprint(f) == k && s == "odd":
			case f == 0 && s == "": // an entry starts with an empty form
			default:
				if len(k) < 19 {
					t.Failf("forms", "%s: form %d is %q, which the text does not say", when, f, s)
				}
			}
		}
		if len(k) < 19 && x.Trs[atoi(k)] != "odd" {
			t.Failf("forms", "%s: form %s is %q", when, k, x.Trs[atoi(k)])
		}
		for n := range 4 {
			h.A.GetN("dmg", "dmgs", n)
			h.A.GetNC("dmg", "dmgs", n, "c")
		}
		if again := h.P.GetDomain().GetTranslations(); len(again) != len(h.D.GetTranslations()) {
			t.Failf("forms", "%s: two snapshots differ", when)
		}
	}}
}

func atoi(s string) (n int) { fmt.Sscan(s, &n); return }

// formsOnlyByRule: neither nplurals nor a resolver nor the forms at hand change what a rule selects.
func formsOnlyByRule(name string) eng.Suite {
	np := []string{"", "nplurals=0; ", "nplurals=1; ", "nplurals=2; ", "nplurals=3; ", "nplurals=4; ", "nplurals=5; ", "nplurals=6; ", "nplurals=7; ", "nplurals=100; ", "nplurals=-1; ", "nplurals=x; ", "nplurals=; ", "nplurals=99999999999999999999; "}
	r := []int{len(np), len(ref.RealRules), 2, 4, 3}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("%d statements of nplurals x %d rules x PO and MO x no resolver / set before the load / after it / taken away again x entries with all, 3 or 2 forms; %d numbers", len(np), len(ref.RealRules), len(bigNs)), Run: func(t *eng.T, i int64) {
		d := eng.Digits(i, r...)
		rule := ref.RealRules[d[1]]
		all := sixForms("", "i")
		all.Forms = all.Forms[:[]int{6, 3, 2}[d[4]]]
		in := all
		in.Ctx = "c"
		doc := &ref.Doc{Header: []string{"Language: zz", "Plural-Forms: " + np[d[0]] + "plural=" + rule + ";"}, Ents: []ref.Ent{ref.Sing("", "a", "A"), all, in}}
		h, c := New(kinds[d[2]]), ref.NewCat()
		h.SetResolver(nil)
		if d[3] == 1 || d[3] == 3 {
			h.SetResolver(func(n int) int { return (n + 1) % 6 })
		}
		if d[3] == 3 {
			h.SetResolver(nil)
		}
		h.Load(doc)
		if d[3] == 2 {
			h.SetResolver(func(n int) int { return (n + 1) % 6 })
		}
		c.Load(doc)
		when := fmt.Sprintf("%s with %q, resolver %d, %d forms", h.Kind, doc.Header, d[3], len(all.Forms))
		t.State(when)
		t.Nontriv()
		e := mustParse(rule)
		for _, n := range bigNs {
			f := int(e.Eval(uint64(n)))
			if f >= len(all.Forms) {
				if h.A.IsTranslatedN("i", n) || h.A.IsTranslatedNC("i", n, "c") {
					t.Failf("translated", "%s: n=%d selects the absent form %d and counts as translated", when, n, f)
				}
				continue
			}
			a, b := h.A.GetN("i", "is", n), h.A.GetNC("i", "is", n, "c")
			t.Step(2)
			if a != fmt.Sprintf("i f%d", f) || b != fmt.Sprintf("ci f%d", f) && b != fmt.Sprintf("i f%d", f) {
				t.Failf("catalog-form", "%s: n=%d gives %q and %q, C selects form %d", when, n, a, b, f)
			}
		}
		Observe(t, when, h.A, c, []Key{{"", "i", "is"}, {"c", "i", "is"}}, bigNs[:8], Opt{Get: true, IsTr: true})
	}}
}

// nearNames are names which something sloppy may take for each other.
var nearNames = []string{"name", "Name", "NAME", "nAme", "name1", "name_", "_name", "nam", "names", "n", "N", "na", "name0", "0name", "1", "01", "001", "10", "_", "__", "a", "A", "s", "d", "S", "D", "v", "name_1", "name1_"}

// nameSuite: a name stands for its own value alone.
func nameSuite(name string) eng.Suite {
	n := len(nearNames)
	r := []int{n, n, n}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("every two of %d similar names in a format, of which one or another similar one is given, or all but one", n), Run: func(t *eng.T, i int64) {
		d := eng.Digits(i, r...)
		toks := []ftok{flit("<"), fph(nearNames[d[0]], "", "v"), flit("|"), fph(nearNames[d[1]], "3", "v"), fper(), fph(nearNames[d[0]], "", "s"), flit(">")}
		t.StateHash(uint64(i))
		t.Nontriv()
		fcheck(t, toks, map[string]interface{}{nearNames[d[2]]: "given"})
		fcheck(t, toks, map[string]interface{}{nearNames[d[2]]: nil, "": "empty", " ": "space", "*": "star"})
		all := map[string]interface{}{}
		for k, x := range nearNames {
			all[x] = k
		}
		fcheck(t, toks, all)
		delete(all, nearNames[d[2]])
		fcheck(t, toks, all)
	}}
}

// commentObjects: the comments at the head of a text belong to the object that read it.
func commentObjects(name string) eng.Suite {
	const n = 5
	r := []int{n, n, n, 4, 2, 2}
	doc := func(k, c int) *ref.Doc {
		d := &ref.Doc{Header: hdr("en", pfEn), Ents: []ref.Ent{ref.Sing("", "a", fmt.Sprint("A", k))}}
		for j := 0; j < c; j++ {
			d.Comments = append(d.Comments, fmt.Sprintf("# comment %d of object %d", j, k))
		}
		return d
	}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: "three objects, each given a text with 0..4 comments at its head, made and loaded in 4 orders, loaded once or twice, or each the export of the one before", Run: func(t *eng.T, i int64) {
		d := eng.Digits(i, r...)
		var h [3]*H
		mk := func(k int) { h[k] = New("po") }
		ld := func(k int) { h[k].P.Parse(ref.WritePO(doc(k, d[k]), ref.Layout{})) }
		switch d[3] {
		case 0:
			for k := range h {
				mk(k)
				ld(k)
			}
		case 1:
			for k := range h {
				mk(k)
			}
			for k := range h {
				ld(2 - k)
			}
		case 2:
			mk(0)
			mk(1)
			ld(1)
			mk(2)
			ld(0)
			ld(2)
		case 3:
			for k := range h {
				mk(k)
			}
			for k := range h {
				ld(k)
			}
		}
		if d[4] == 1 {
			for k := range h {
				ld(k)
			}
		}
		when := fmt.Sprintf("case %v", d)
		t.State(when)
		t.Nontriv()
		read := func(k int) string {
			rd, bad := ref.ReadPO(string(h[k].Text()))
			if bad != "" {
				t.Failf("export", "%s: object %d exports %q: %s", when, k, h[k].Text(), bad)
			}
			t.Step(1)
			for _, e := range rd {
				if e.Header {
					return strings.Join(e.Comments, "\n")
				}
			}
			return ""
		}
		for turn := range 2 {
			for k := range h {
				want := strings.Join(doc(k, d[k]).Comments, "\n")
				got := read(k)
				// a second text may add its comments to those there
				if got != want && !(d[4] == 1 && got == strings.TrimPrefix(want+"\n"+want, "\n")) {
					t.Failf("comments", "%s: object %d exports the comments %q, was given %q", when, k, got, want)
				}
			}
			if d[5] == 0 || turn == 1 {
				break
			}
			// one more object reads an export; the others stay
			x := New("po")
			x.P.Parse(h[1].Text())
			x.P.Parse(ref.WritePO(doc(9, 3), ref.Layout{}))
		}
	}}
}
