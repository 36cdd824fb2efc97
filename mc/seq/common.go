// Package seq holds the suites which explore inputs and operation histories of the real library.
package seq

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/leonelquinteros/gotext"

	"verif/eng"
	"verif/ref"
)

// API is what Domain, Po and Mo have in common for lookups.
type API interface {
	Get(str string, vars ...interface{}) string
	GetN(str, plural string, n int, vars ...interface{}) string
	GetC(str, ctx string, vars ...interface{}) string
	GetNC(str, plural string, n int, ctx string, vars ...interface{}) string
	Append(b []byte, str string, vars ...interface{}) []byte
	AppendN(b []byte, str, plural string, n int, vars ...interface{}) []byte
	AppendC(b []byte, str, ctx string, vars ...interface{}) []byte
	AppendNC(b []byte, str, plural string, n int, ctx string, vars ...interface{}) []byte
	IsTranslated(str string) bool
	IsTranslatedN(str string, n int) bool
	IsTranslatedC(str, ctx string) bool
	IsTranslatedNC(str string, n int, ctx string) bool
	MarshalBinary() ([]byte, error)
	UnmarshalBinary([]byte) error
}

// H is a catalog object under test: a Po, a Mo or a bare Domain.
type H struct {
	Kind string // "po", "mo", "dom"
	A    API
	P    *gotext.Po
	M    *gotext.Mo
	D    *gotext.Domain
}

// New makes a fresh object.
func New(kind string) *H {
	switch kind {
	case "po":
		p := gotext.NewPo()
		return &H{kind, p, p, nil, p.GetDomain()}
	case "mo":
		m := gotext.NewMo()
		return &H{kind, m, nil, m, m.GetDomain()}
	}
	d := gotext.NewDomain()
	return &H{kind, d, nil, nil, d}
}

// Load parses the document in the object's format (a bare Domain takes it by binary import of a merged Po).
func (h *H) Load(d *ref.Doc) {
	switch h.Kind {
	case "po":
		h.P.Parse(ref.WritePO(d, ref.Layout{}))
	case "mo":
		h.M.Parse(ref.WriteMO(d, ref.MOLayout{Sorted: true}).Data)
	}
}

// Headers gives the header collection of the object.
func (h *H) Headers() map[string][]string {
	return h.D.Headers
}

// Public gives the compatibility fields of Po and Mo.
func (h *H) Public() (gotext.HeaderMap, string, string) {
	switch h.Kind {
	case "po":
		return h.P.Headers, h.P.Language, h.P.PluralForms
	case "mo":
		return h.M.Headers, h.M.Language, h.M.PluralForms
	}
	return h.D.Headers, h.D.Language, h.D.PluralForms
}

// Set etc. edit through the widest interface there is.
func (h *H) Set(id, s string) {
	if h.P != nil {
		h.P.Set(id, s)
	} else {
		h.D.Set(id, s)
	}
}
func (h *H) SetN(id, pl string, n int, s string) {
	if h.P != nil {
		h.P.SetN(id, pl, n, s)
	} else {
		h.D.SetN(id, pl, n, s)
	}
}
func (h *H) SetC(id, ctx, s string) {
	if h.P != nil {
		h.P.SetC(id, ctx, s)
	} else {
		h.D.SetC(id, ctx, s)
	}
}
func (h *H) SetNC(id, pl, ctx string, n int, s string) {
	if h.P != nil {
		h.P.SetNC(id, pl, ctx, n, s)
	} else {
		h.D.SetNC(id, pl, ctx, n, s)
	}
}
func (h *H) SetRefs(id string, r []string) {
	if h.P != nil {
		h.P.SetRefs(id, r)
	} else {
		h.D.SetRefs(id, r)
	}
}
func (h *H) GetRefs(id string) []string {
	if h.P != nil {
		return h.P.GetRefs(id)
	}
	return h.D.GetRefs(id)
}
func (h *H) Drop() {
	if h.P != nil {
		h.P.DropStaleTranslations()
	} else {
		h.D.DropStaleTranslations()
	}
}
func (h *H) SetResolver(f func(int) int) {
	if h.P != nil {
		h.P.SetPluralResolver(f)
	} else {
		h.D.SetPluralResolver(f)
	}
}
func (h *H) Text() []byte {
	var b []byte
	var err error
	if h.P != nil {
		b, err = h.P.MarshalText()
	} else {
		b, err = h.D.MarshalText()
	}
	if err != nil {
		panic("MarshalText: " + err.Error())
	}
	return b
}

// Key of the observed universe; Plural is the plural text the caller passes.
type Key struct{ Ctx, ID, Plural string }

// Opt selects what an observation compares.
type Opt struct {
	Get, Append, IsTr bool
	Args              bool
}

var argLists = [][]interface{}{nil, {7}, {"x", 3}, {nil}}

func sprint(text string, args []interface{}) string {
	if len(args) == 0 {
		return text
	}
	return fmt.Sprintf(text, args...)
}

// Call describes one lookup for messages.
func call(kind string, k Key, n int, args []interface{}) string {
	switch kind {
	case "Get":
		return fmt.Sprintf("Get(%s,%v)", q(k.ID), args)
	case "GetN":
		return fmt.Sprintf("GetN(%s,%s,%d,%v)", q(k.ID), q(k.Plural), n, args)
	case "GetC":
		return fmt.Sprintf("GetC(%s,%s,%v)", q(k.ID), q(k.Ctx), args)
	}
	return fmt.Sprintf("GetNC(%s,%s,%d,%s,%v)", q(k.ID), q(k.Plural), n, q(k.Ctx), args)
}

func q(s string) string {
	if len(s) > 120 {
		return fmt.Sprintf("%q...(%d bytes)", s[:60], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// Observe compares every lookup over the universe with the model.
func Observe(t *eng.T, when string, a API, c *ref.Cat, keys []Key, ns []int, o Opt) {
	al := argLists[:1]
	if o.Args {
		al = argLists
	}
	for _, k := range keys {
		for _, args := range al {
			want, tr := c.Get(k.Ctx, k.ID)
			want = sprint(want, args)
			t.Step(1)
			var got string
			if k.Ctx == "" {
				if o.Get {
					got = a.Get(k.ID, args...)
				}
			} else if o.Get {
				got = a.GetC(k.ID, k.Ctx, args...)
			}
			if o.Get && got != want {
				kind := "Get"
				if k.Ctx != "" {
					kind = "GetC"
				}
				t.Failf("lookup", "%s: %s = %s, want %s", when, call(kind, k, 0, args), q(got), q(want))
			}
			if o.Append {
				for _, pre := range prefixes {
					in := pre()
					keep := string(in)
					var res []byte
					if k.Ctx == "" {
						res = a.Append(in, k.ID, args...)
					} else {
						res = a.AppendC(in, k.ID, k.Ctx, args...)
					}
					checkAppend(t, when, "Append", k, 0, args, in, keep, res, want)
				}
			}
			if o.IsTr && len(args) == 0 {
				var is bool
				if k.Ctx == "" {
					is = a.IsTranslated(k.ID)
				} else {
					is = a.IsTranslatedC(k.ID, k.Ctx)
				}
				if is != tr {
					t.Failf("istranslated", "%s: IsTranslated(%s) in context %s = %v, want %v", when, q(k.ID), q(k.Ctx), is, tr)
				}
			}
			for _, n := range ns {
				want, alt, tr := c.GetN(k.Ctx, k.ID, k.Plural, n)
				want, alt = sprint(want, args), sprint(alt, args)
				t.Step(1)
				if o.Get || o.Append {
					if k.Ctx == "" {
						got = a.GetN(k.ID, k.Plural, n, args...)
					} else {
						got = a.GetNC(k.ID, k.Plural, n, k.Ctx, args...)
					}
				}
				if o.Get && got != want && got != alt {
					kind := "GetN"
					if k.Ctx != "" {
						kind = "GetNC"
					}
					t.Failf("lookup", "%s: %s = %s, want %s", when, call(kind, k, n, args), q(got), q(want))
				}
				if o.Append {
					for _, pre := range prefixes {
						in := pre()
						keep := string(in)
						var res []byte
						if k.Ctx == "" {
							res = a.AppendN(in, k.ID, k.Plural, n, args...)
						} else {
							res = a.AppendNC(in, k.ID, k.Plural, n, k.Ctx, args...)
						}
						checkAppend(t, when, "AppendN", k, n, args, in, keep, res, got)
					}
				}
				if o.IsTr && len(args) == 0 {
					var is bool
					if k.Ctx == "" {
						is = a.IsTranslatedN(k.ID, n)
					} else {
						is = a.IsTranslatedNC(k.ID, n, k.Ctx)
					}
					if is != tr {
						t.Failf("istranslated", "%s: IsTranslatedN(%s, %d) in context %s = %v, want %v", when, q(k.ID), n, q(k.Ctx), is, tr)
					}
				}
			}
		}
	}
}

var prefixes = []func() []byte{
	func() []byte { return nil },
	func() []byte { return []byte{} },
	func() []byte { return []byte("x%d %s\x00é\xff")[:8:8] },
	func() []byte { b := make([]byte, 3, 4); copy(b, "pre"); return b },
	func() []byte { b := make([]byte, 5, 512); copy(b, "roomy"); return b },
}

func checkAppend(t *eng.T, when, op string, k Key, n int, args []interface{}, in []byte, keep string, res []byte, want string) {
	t.Step(1)
	if string(res) != keep+want {
		t.Failf("append", "%s: %s(%s,...) id=%s ctx=%s n=%d args=%v = %s, want %s", when, op, q(keep), q(k.ID), q(k.Ctx), n, args, q(string(res)), q(keep+want))
	}
	if string(in) != keep {
		t.Failf("append-input", "%s: %s changed the caller's bytes %s to %s", when, op, q(keep), q(string(in)))
	}
	for i := range res {
		res[i] = '#'
	}
}

// ModelOf reads the real object into a canonical text.
func Canon(d *gotext.Domain, refs, dirty bool) string {
	return CanonSnap(d.GetTranslations(), d.GetCtxTranslations(), refs, dirty)
}

func CanonSnap(tr map[string]*gotext.Translation, cx map[string]map[string]*gotext.Translation, refs, dirty bool) string {
	var ls []string
	add := func(ctx, key string, e *gotext.Translation) {
		if key == "" {
			return
		}
		s := ref.CanonEntry(ctx, e.ID, e.PluralID, e.Trs, e.Refs, !e.IsStale(), refs, dirty)
		if e.ID != key {
			s += "|stored under " + q(key)
		}
		ls = append(ls, s)
	}
	for k, e := range tr {
		add("", k, e)
	}
	for c, m := range cx {
		for k, e := range m {
			add(c, k, e)
		}
	}
	sort.Strings(ls)
	return strings.Join(ls, "\n")
}

// FromReal makes a model of what the object stores.
func FromReal(d *gotext.Domain) *ref.Cat {
	c := ref.NewCat()
	add := func(ctx, key string, e *gotext.Translation) {
		m := &ref.E{ID: e.ID, Plural: e.PluralID, Forms: map[int]string{}, Refs: append([]string(nil), e.Refs...), Dirty: !e.IsStale()}
		for i, s := range e.Trs {
			m.Forms[i] = s
		}
		c.M[ref.K{Ctx: ctx, ID: key}] = m
	}
	for k, e := range d.GetTranslations() {
		add("", k, e)
	}
	for x, m := range d.GetCtxTranslations() {
		for k, e := range m {
			add(x, k, e)
		}
	}
	for k, v := range d.Headers {
		c.Headers[k] = append([]string(nil), v...)
	}
	c.Lang, c.PF = d.Language, d.PluralForms
	c.Rule = ref.RuleOf(c.PF)
	return c
}

// Full is the whole observable state of a catalog object: entries, headers, language, rule probed by n.
func Full(h *H, refs, dirty bool) string {
	d := h.D
	s := Canon(d, refs, dirty) + "\nheaders " + ref.CanonHeaders(d.Headers) + fmt.Sprintf("\nlang %q pf %q\nrule", d.Language, d.PluralForms)
	return s + Probe(d)
}

var probeNs = []int{0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 14, 15, 19, 20, 21, 22, 25, 99, 100, 101, 102, 103, 105, 111, 112, 1000, 1000000}

// Probe tells the plural rule in force apart by the answers for an id no catalog holds and, for forms
// beyond the first, through a scratch copy.
func Probe(d *gotext.Domain) string {
	var b strings.Builder
	for _, n := range probeNs {
		if d.GetN("\x01probe", "P", n) == "P" {
			b.WriteByte('P')
		} else {
			b.WriteByte('s')
		}
	}
	return b.String()
}

// Diff shows the first difference between two canonical texts.
func Diff(got, want string) string {
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	in := func(x string, l []string) bool {
		for _, y := range l {
			if x == y {
				return true
			}
		}
		return false
	}
	var b strings.Builder
	n := 0
	for _, x := range w {
		if !in(x, g) && n < 4 {
			fmt.Fprintf(&b, "missing: %s\n", x)
			n++
		}
	}
	for _, x := range g {
		if !in(x, w) && n < 8 {
			fmt.Fprintf(&b, "unexpected: %s\n", x)
			n++
		}
	}
	if n == 0 {
		return "order or multiplicity differs\n" + got + "\n-- want\n" + want
	}
	return b.String()
}

// Same fails the case when the states differ.
func Same(t *eng.T, key, when, got, want string) {
	if got != want {
		t.Failf(key, "%s:\n%s", when, Diff(got, want))
	}
}

// CheckCat compares the stored entries and lookups of an object with the model.
func CheckCat(t *eng.T, when string, h *H, c *ref.Cat, refs bool, ns []int) {
	Same(t, "entries", when+": stored entries", Canon(h.D, refs, false), c.Canon(refs, false))
	if ns == nil {
		return
	}
	var keys []Key
	for k, e := range c.M {
		if k.ID == "" {
			continue
		}
		pl := e.Plural
		if pl == "" {
			pl = "caller plural"
		}
		keys = append(keys, Key{k.Ctx, k.ID, pl})
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].Ctx+"\x00"+keys[i].ID < keys[j].Ctx+"\x00"+keys[j].ID })
	Observe(t, when, h.A, c, keys, ns, Opt{Get: true})
}

// Scratch gives the scratch directory of the run (or a new one which the caller's process leaves to the OS).
var scratchDir string

func Scratch() string {
	if scratchDir == "" {
		base := os.Getenv("MC_SCRATCH")
		d, err := os.MkdirTemp(base, "w")
		if err != nil {
			panic(err)
		}
		scratchDir = d
	}
	return scratchDir
}

// WriteFile writes below a root, making directories.
func WriteFile(root, name string, data []byte) {
	p := filepath.Join(root, name)
	os.MkdirAll(filepath.Dir(p), 0o755)
	if err := os.WriteFile(p, data, 0o644); err != nil {
		panic(err)
	}
}

func rep(s string, n int) string {
	return strings.Repeat(s, n/len(s)+1)[:n]
}

// Values are the string values used in every position.
var Values = []string{
	"a",
	"two words",
	`say "hi"`,
	`back\slash`,
	"tab\tbed",
	"line one\nline two\n",
	"line one\nline two",
	"ends with newline\n",
	"\nstarts with newline",
	"\n",
	"a\n\n\nb",
	"héllo ☃ 日本語 😀",
	" leading and trailing ",
	`literal \n and \t and \" here`,
	"%d of %s, 100%",
	"# not a comment",
	"#: not/a:1 ref",
	`msgid "x"`,
	"msgstr",
	`"`,
	`\`,
	`""`,
	`\\`,
	"cr\rlf\r\nend",
	"a: colon",
	"ctl \x01\x7f\u00a0\u2028\ufeff",
	"nested \\\"q\\\" \n\"x\"\n",
	"'single' `back`",
	"[0] idx",
}

// Sizes are length classes.
var Sizes = []int{10, 63, 64, 65, 80, 127, 128, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 16384, 32768, 65535, 65536, 65537, 131072, 1 << 20}

var itoa = fmt.Sprint
