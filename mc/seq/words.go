package seq

import (
	"fmt"
	"strings"

	"verif/eng"
	"verif/ref"
)

// Texts that look like the syntax around them.
var synWords = []string{"msgctxt", "msgid", "msgid_plural", "msgstr", "msgstr[1]", "\"", " ", "#: f.go:3", "#~ ", "\n", "\\", "x", "[0]", "Language: yy", "\t"}

// wordSuite: every text of a few pieces of PO syntax in every position of a document.
func wordSuite(name string, depth int, f func(t *eng.T, when string, d *ref.Doc)) eng.Suite {
	n := eng.SeqCount(len(synWords), depth)
	return eng.Suite{Name: name, N: n * 6, Bound: fmt.Sprintf("every text of up to %d of the pieces %q as context, id, plural id, form 0, form 1 and header value", depth, synWords), Run: func(t *eng.T, i int64) {
		var b strings.Builder
		for _, k := range eng.SeqAt(i/6, len(synWords)) {
			b.WriteString(synWords[k])
		}
		v, p := b.String(), int(i%6)
		a := [6]string{"ctx", "id", "plural", "f0", "f1", "value"}
		a[p] = v
		if p == 5 && (strings.ContainsAny(v, "\n") || strings.TrimSpace(v) != v) {
			return
		}
		d := &ref.Doc{Header: hdr("en", pfEn, "X-Text: "+a[5]), Ents: []ref.Ent{ref.Sing("", "before", "B", "f.go:1"), ref.Plur(a[0], a[1], a[2], a[3], a[4]), ref.Sing("", a[1], a[3], "g.go:2"), ref.Sing("", "after", "A")}}
		t.StateHash(eng.Hash(v + itoa(p)))
		t.Nontriv()
		f(t, fmt.Sprintf("%q as part %d", v, p), d)
	}}
}
