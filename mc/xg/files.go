package xg

import (
	"fmt"
	"path/filepath"
	"runtime"
	"strings"

	xp "github.com/leonelquinteros/gotext/cli/xgotext/parser"

	"verif/eng"
	"verif/seq"
)

// fileNames are names a Go file of a package can have.
var fileNames = []string{
	"a", "x_y", "a.b", "zz_generated", "zz_generated.deepcopy", "a.pb", "mock_a", "a_mock", "doc", "main", "bindata", "test", "testing", "xtest", "a_testing", "tests", "a_string", "gotext", "gotext_gen", "generated", "gen", "Ünï", "with-dash", "with+plus", "UPPER", "1", "a~", "tools",
	"a_" + runtime.GOOS, "b_" + runtime.GOARCH, "c_" + runtime.GOOS + "_" + runtime.GOARCH, "linux", "windows", "vendor", "testdata", "node_modules", "a_example", "example_a", "fixture", strings.Repeat("long", 40),
}

// leads are what can come before the package clause.
var leads = []string{
	"",
	"// Code generated by x. DO NOT EDIT.\n\n",
	"// Code generated by x. DO NOT EDIT.\n",
	"/*\nLicense\n*/\n\n// Code generated by protoc-gen-go. DO NOT EDIT.\n// source: a.proto\n\n",
	"// Package pkg has calls.\n",
	"/* Copyright */\n\n\n\n",
	"//go:build " + runtime.GOOS + "\n\n",
	"//go:build !ignore && (" + runtime.GOARCH + " || go1.1)\n\n// doc\n",
	"\n\n\n\n",
	"//go:generate xgotext -in . -out l10n\n//nolint:all\n\n",
	"// gotext:ignore\n// xgotext:skip\n// i18n-ignore\n\n",
	"// Deprecated: use something else.\n",
	"\uFEFF",
	"/**/ ",
}

// shapes of the rest of a file: % is the tag of the file.
var bodies = []struct {
	name, text string
	calls      []string // function, line within the text from 0
}{
	{"plain", "package pkg\n\nimport \"@\"\n\nvar _ = gotext.Get(\"%\")\n", []string{"% 4"}},
	{"no final line end", "package pkg\n\nimport \"@\"\n\nvar _ = gotext.Get(\"%\")", []string{"% 4"}},
	{"one line", "package pkg; import \"@\"; var _ = gotext.Get(\"%\"); func init() { gotext.Get(\"%b\") }", []string{"% 0", "%b 0"}},
	{"carriage returns", "package pkg\r\n\r\nimport \"@\"\r\n\r\nvar _ = gotext.Get(\r\n\t\"%\",\r\n)\r\n\r\nvar _ = gotext.Get(\"%b\")\r\n", []string{"% 4", "%b 8"}},
	{"two names of an import", "package pkg\n\nimport \"@\"\nimport t \"@\"\nimport (\n\tu \"@\"\n\t_ \"@\"\n)\n\nvar _, _, _ = gotext.Get(\"%\"), t.Get(\"%b\"), u.Get(\"%c\")\n", []string{"% 9", "%b 9", "%c 9"}},
	{"raw import path", "package pkg\n\nimport (\n\t// remark\n\tgotext `@` // remark\n)\n\nvar _ = gotext.Get(\"%\")\n", []string{"% 7"}},
	{"calls after much else", "package pkg\n\nimport \"@\"\n\ntype (\n\tT% struct{ *gotext.Po }\n)\n\nconst c% = `gotext.Get(\"no\")`\n\n// gotext.Get(\"no\")\nfunc (t T%) m() (s string) {\n\tdefer func() { s = gotext.Get(\"%\") }()\n\treturn t.Po.Get(\"%b\")\n}\n// Code generated by x. DO NOT EDIT.\n", []string{"% 12", "%b 13"}},
	{"marker within", "package pkg\n\nimport \"@\"\n\n// Code generated by x. DO NOT EDIT.\n\nvar _ = gotext.Get(\"%\")\n\n//go:noinline\nfunc f%() string { return gotext.Get(\"%b\") }\n", []string{"% 6", "%b 9"}},
	{"blank names", "package pkg\n\nimport _ \"embed\"\nimport \"@\"\n\nvar _, _ = 1, gotext.Get(\"%\")\n\nfunc _() { gotext.Get(\"%b\") }\n", []string{"% 5", "%b 7"}},
}

// sourceFiles: a package of files with every name, for every lead and rest of a file.
func sourceFiles() eng.Suite {
	r := []int{len(leads), len(bodies), len(modes)}
	return eng.Suite{Name: "source files", N: eng.Prod(r...), Bound: fmt.Sprintf("packages of files of %d names, all beginning in one of %d ways (licenses, build constraints, marks of generated files, ...), each with one of %d kinds of content, in both modes", len(fileNames), len(leads), len(bodies)),
		Run: func(t *eng.T, i int64) {
			d := eng.Digits(i, r...)
			root := filepath.Join(seq.Scratch(), "files")
			files := map[string]string{"m/go.mod": goMod("m", 1), "m/main.go": "package main\n\nimport _ \"m/p\"\n\nfunc main() {}\n"}
			var ms []msg
			b := bodies[d[1]]
			for k, n := range fileNames {
				if k%len(bodies) != d[1] && k%5 != d[0]%5 {
					continue // a part of the names for each
				}
				// the main function file is its own lead
				tag := fmt.Sprintf("x%d", k)
				text := leads[d[0]]
				at := strings.Count(text, "\n") + 1
				text += strings.ReplaceAll(strings.ReplaceAll(b.text, "@", gotextPath), "%", tag)
				files["m/p/"+n+".go"] = text
				for _, c := range b.calls {
					var id string
					var line int
					fmt.Sscanf(strings.ReplaceAll(c, "%", tag), "%s %d", &id, &line)
					ms = append(ms, msg{id: id, pos: fmt.Sprintf("p/%s.go:%d", n, at+line)})
				}
			}
			when := fmt.Sprintf("%s, files beginning %q, %s", modes[d[2]], leads[d[0]], b.name)
			modTree(root, files)
			dm := &xp.DomainMap{}
			if err := run(d[2], filepath.Join(root, "m"), filepath.Join(root, "m"), nil, dm); err != nil {
				t.Failf("run", "%s: %v", when, err)
			}
			t.Step(len(ms))
			t.Nontriv()
			t.State(when)
			checkSaved(t, "extraction", when, save(t, when, dm), expect(ms, ""))
		}}
}
