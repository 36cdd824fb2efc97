package seq

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/leonelquinteros/gotext"

	"verif/eng"
	"verif/ref"
)

// sharedTrSuite: translators that the user keeps, adds under several names, edits and loads, among domains from files.
func sharedTrSuite(name string, depth int) eng.Suite {
	type sys struct {
		*LocSys
		h [2]*H
		c [2]*ref.Cat
	}
	type op struct {
		name string
		do   func(x *sys)
	}
	docs := [2]*ref.Doc{mark("ru", pfRu, "S-po"), mark("fr", pfFr, "S-mo")}
	other := without(mark("de", pfEn, "S-other"), "c", "a")
	var ops []op
	add := func(name string, do func(x *sys)) { ops = append(ops, op{name, do}) }
	for k := 0; k < 2; k++ {
		k := k
		for _, dom := range []string{"d1", "d2"} {
			dom := dom
			add(fmt.Sprintf("AddTranslator(%s, %s)", dom, kinds[k]), func(x *sys) {
				if k == 0 {
					x.L.AddTranslator(dom, x.h[k].P)
				} else {
					x.L.AddTranslator(dom, x.h[k].M)
				}
				x.M.put(dom, x.c[k])
			})
		}
		add("edit the "+kinds[k], func(x *sys) {
			x.h[k].Set("a", "kept "+kinds[k])
			x.c[k].Set("", "a", "kept "+kinds[k])
		})
		add("load into the "+kinds[k], func(x *sys) {
			x.h[k].Load(other)
			x.c[k].Load(other)
		})
	}
	for _, dom := range []string{"d1", "d2"} {
		dom := dom
		add("AddDomain("+dom+")", func(x *sys) { x.L.AddDomain(dom); x.M.add(dom) })
	}
	add("SetDomain(d2)", func(x *sys) { x.L.SetDomain("d2"); x.M.def = "d2" })
	langs := []string{"de", "fr"} // a PO and a MO file of d1, a MO and a PO file of d2
	return eng.Suite{Name: name, N: eng.SeqCount(len(ops), depth) * 4, Bound: fmt.Sprintf("all histories of 1..%d operations over an alphabet of %d: a Po and a Mo object of the user's added under two names, edited and loaded outside the Locale, and the domains added from their files, for languages %v, in an fs.FS and on disk", depth, len(ops), langs),
		Run: func(t *eng.T, i int64) {
			x := &sys{LocSys: newLocSys(libA, langs[i%2])}
			if i&2 != 0 {
				x.LocSys = diskSys(langs[i%2])
			}
			for k := range x.h {
				x.h[k] = New(kinds[k])
				x.h[k].Load(docs[k])
				x.c[k] = ref.NewCat()
				x.c[k].Load(docs[k])
			}
			var n []string
			for _, o := range eng.SeqAt(i/4, len(ops)) {
				t.Tracef("%s", ops[o].name)
				ops[o].do(x)
				t.Step(1)
				n = append(n, ops[o].name)
			}
			when := langs[i%2] + []string{" in memory", " on disk"}[i>>1&1] + ", after " + strings.Join(n, ".")
			t.State(x.M.String())
			t.Nontriv()
			if t.WantSample() && i > 3000 {
				t.Sample("%s", when)
			}
			checkLoc(t, when, x.LocSys, false)
			for k := range x.h {
				Same(t, "translator", when+": the "+kinds[k]+" object itself", Canon(x.h[k].D, false, false), x.c[k].Canon(false, false))
			}
		}}
}

// locSettingsSuite: languages, paths, default domains and domains of which any is empty, into every receiver.
func locSettingsSuite(name string) eng.Suite {
	langs := []string{"", "de", "de_AT", "x", "en_US"}
	libs := []string{"", "A", "B"}
	defs := []string{"", "d1", "d2", "elsewhere"}
	what := []string{"no domain", "d1 from its file", "d2 as a translator", "both"}
	rs := locReceivers()
	r := []int{len(langs), len(libs), len(defs), len(what), len(rs)}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("languages %q x libraries %q x default domains %q x %q x %d receivers", langs, libs, defs, what, len(rs)), Run: func(t *eng.T, i int64) {
		d := eng.Digits(i, r...)
		lib, root := Lib{}, "" // the working directory has no catalogs
		switch libs[d[1]] {
		case "A":
			root = diskLib("A", libA)
			for k, v := range libA {
				lib[k] = v
			}
		case "B":
			root = diskLib("B", libB)
			for k, v := range libB {
				lib[k] = v
			}
		}
		s := &LocSys{L: gotext.NewLocale(root, langs[d[0]]), M: newLocM(lib, langs[d[0]]), Tr: map[string]*H{}}
		if d[3]&1 != 0 {
			lopAdd("d1").Do(s)
		}
		if d[3]&2 != 0 {
			lopTr("d2", "mo", mark("fr", pfFr, "T-d2")).Do(s)
		}
		if defs[d[2]] != "" {
			lopDef(defs[d[2]]).Do(s)
		}
		when := fmt.Sprintf("language %q, library %q, default domain %q, %s, receiver %d", langs[d[0]], libs[d[1]], defs[d[2]], what[d[3]], d[4])
		t.State(when)
		t.Nontriv()
		checkLocBinary(t, when, s, rs[d[4]], true)
	}}
}

// linkSuite: catalog files, and directories on the way to them, which are symbolic links.
func linkSuite(name string) eng.Suite {
	how := []string{"files are links", "files are links to links", "language directories are links", "LC_MESSAGES and language directories are links", "the library is a link"}
	r := []int{256, len(how), 2, 2}
	return eng.Suite{Name: name, N: eng.Prod(r...), Bound: fmt.Sprintf("all subsets of the 8 candidates on disk, %q, by path and by os.DirFS, 2 locale names", how), Run: func(t *eng.T, i int64) {
		d := eng.Digits(i, r...)
		var dg []int
		for k := 0; k < 8; k++ {
			dg = append(dg, d[0]>>k&1)
		}
		lib, raw := fileSet("d1", dg)
		r, err := os.MkdirTemp(Scratch(), "c16l")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(r)
		must := func(err error) {
			if err != nil {
				panic(err)
			}
		}
		link := func(to, at string) {
			must(os.MkdirAll(filepath.Dir(at), 0o755))
			must(os.Symlink(to, at))
		}
		root := filepath.Join(r, "lib")
		must(os.MkdirAll(root, 0o755))
		n := 0
		for f, b := range raw {
			n++
			real := filepath.Join(r, "real", f)
			at := filepath.Join(root, f)
			switch d[1] {
			case 0, 1:
				real = filepath.Join(r, "real", fmt.Sprint(n))
				WriteFile(filepath.Join(r, "real"), fmt.Sprint(n), b)
				if d[1] == 1 {
					link(real, real+"x")
					real += "x"
				}
				link(real, at)
			default:
				WriteFile(filepath.Join(r, "real"), f, b)
			}
		}
		switch d[1] {
		case 2:
			for _, l := range []string{"de", "de_AT"} {
				if _, err := os.Stat(filepath.Join(r, "real", l)); err == nil {
					link(filepath.Join(r, "real", l), filepath.Join(root, l))
				}
			}
		case 3:
			for _, l := range []string{"de", "de_AT"} {
				from := filepath.Join(r, "real", l)
				if _, err := os.Stat(from); err != nil {
					continue
				}
				if _, err := os.Stat(filepath.Join(from, "LC_MESSAGES")); err == nil {
					must(os.Rename(filepath.Join(from, "LC_MESSAGES"), filepath.Join(r, "m-"+l)))
					link(filepath.Join(r, "m-"+l), filepath.Join(from, "LC_MESSAGES"))
				}
				link(from, filepath.Join(root, l))
			}
		case 4:
			must(os.Remove(root))
			must(os.MkdirAll(filepath.Join(r, "real"), 0o755))
			link(filepath.Join(r, "real"), root)
		}
		given := []string{"de_AT.UTF-8", "de"}[d[3]]
		var l *gotext.Locale
		if d[2] == 0 {
			l = gotext.NewLocale(root, given)
		} else {
			l = gotext.NewLocaleFS(given, os.DirFS(root))
		}
		t.StateHash(uint64(i))
		t.Nontriv()
		checkFound(t, fmt.Sprintf("files %v, %s, locale %q", dg, how[d[1]], given), l, lib, simplify(given), "d1")
	}}
}
