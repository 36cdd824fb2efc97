package ref

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Form is one plural form line.
type Form struct {
	I int
	S string
}

// Ent is one entry of a document.
type Ent struct {
	Ctx    string
	ID     string
	Plural string // "": singular entry
	Forms  []Form
	Refs   []string
}

// Doc is a PO/MO document.
type Doc struct {
	Comments []string
	Header   []string // "Key: value" lines, nil: no header entry
	Ents     []Ent
}

// Sing and Plur make entries.
func Sing(ctx, id, str string, refs ...string) Ent {
	return Ent{Ctx: ctx, ID: id, Forms: []Form{{0, str}}, Refs: refs}
}
func Plur(ctx, id, pl string, forms ...string) Ent {
	e := Ent{Ctx: ctx, ID: id, Plural: pl}
	for i, f := range forms {
		e.Forms = append(e.Forms, Form{i, f})
	}
	return e
}

// K is a catalog key.
type K struct{ Ctx, ID string }

// E is an entry of the model.
type E struct {
	ID, Plural string
	Forms      map[int]string
	Refs       []string
	Dirty      bool
}

// Cat is the reference catalog.
type Cat struct {
	M        map[K]*E
	Headers  map[string][]string
	Lang, PF string
	Rule     *Ex // nil: default rule
	Resolver func(int) int
	HeadEnt  []string // the header entry in force
}

// NewCat makes an empty catalog.
func NewCat() *Cat { return &Cat{M: map[K]*E{}, Headers: map[string][]string{}} }

// Clone copies deeply.
func (c *Cat) Clone() *Cat {
	d := NewCat()
	for k, e := range c.M {
		f := *e
		f.Forms = map[int]string{}
		for i, s := range e.Forms {
			f.Forms[i] = s
		}
		f.Refs = append([]string(nil), e.Refs...)
		d.M[k] = &f
	}
	for k, v := range c.Headers {
		d.Headers[k] = append([]string(nil), v...)
	}
	d.Lang, d.PF, d.Rule, d.Resolver = c.Lang, c.PF, c.Rule, c.Resolver
	return d
}

// Form is the plural form of n.
func (c *Cat) Form(n int) int {
	if c.Rule == nil {
		if c.Resolver != nil {
			return c.Resolver(n)
		}
		if n == 1 {
			return 0
		}
		return 1
	}
	if n > 0 {
		return int(c.Rule.Eval(uint64(n)))
	}
	return int(c.Rule.Eval(uint64(uint32(n))))
}

// Get, GetN: the text to serve, and whether a stored translation serves it. alt is a second admissible
// text where two conventions for untranslated plurals exist (by form, by n being one).
func (c *Cat) Get(ctx, id string) (want string, tr bool) {
	if e := c.M[K{ctx, id}]; e != nil {
		if s := e.Forms[0]; s != "" {
			return s, true
		}
	}
	return id, false
}

func (c *Cat) GetN(ctx, id, pl string, n int) (want, alt string, tr bool) {
	f := c.Form(n)
	e := c.M[K{ctx, id}]
	if e != nil {
		if s := e.Forms[f]; s != "" {
			return s, s, true
		}
		if e.Plural != "" {
			pl = e.Plural
		}
	}
	byForm, byN := pl, pl
	if f == 0 {
		byForm = id
	}
	if n == 1 {
		byN = id
	}
	if e != nil {
		return byForm, byForm, false
	}
	return byForm, byN, false
}

// HeaderValue finds a header in any letter case (last spelling wins).
func headerVal(h map[string][]string, spelled string) string {
	if v := h[spelled]; len(v) > 0 {
		return v[0]
	}
	return ""
}

// RuleOf extracts the rule of a Plural-Forms value; nil when there is none in the supported grammar.
func RuleOf(pf string) *Ex {
	var r *Ex
	for _, part := range strings.Split(pf, ";") {
		k, v, ok := strings.Cut(part, "=")
		if ok && strings.TrimSpace(k) == "plural" {
			r = ParseC(v)
		}
	}
	return r
}

// LoadHeader applies header lines as a loaded catalog states them.
func (c *Cat) LoadHeader(lines []string) {
	lk, pk := "", ""
	found := map[string]bool{}
	for _, l := range lines {
		k, v, ok := strings.Cut(l, ":")
		if !ok {
			continue
		}
		low := strings.ToLower(k)
		switch low {
		case "language":
			lk = k
		case "plural-forms":
			pk = k
		}
		if !found[low] {
			found[low] = true
			for old := range c.Headers {
				if strings.ToLower(old) == low {
					delete(c.Headers, old)
				}
			}
		}
		c.Headers[k] = append(c.Headers[k], strings.TrimSpace(v))
	}
	// a header the text does not state keeps its value and its effect
	if lk != "" {
		c.Lang = headerVal(c.Headers, lk)
	}
	if pk != "" {
		c.PF = headerVal(c.Headers, pk)
		c.Rule = RuleOf(c.PF)
	}
}

// Load merges a document.
func (c *Cat) Load(d *Doc) {
	for i := range d.Ents {
		en := &d.Ents[i]
		e := &E{ID: en.ID, Plural: en.Plural, Forms: map[int]string{}, Refs: append([]string(nil), en.Refs...)}
		for _, f := range en.Forms {
			e.Forms[f.I] = f.S
		}
		c.M[K{en.Ctx, en.ID}] = e
	}
	if d.Header != nil {
		c.LoadHeader(d.Header)
	}
}

func (c *Cat) entry(k K) *E {
	e := c.M[k]
	if e == nil {
		e = &E{ID: k.ID, Forms: map[int]string{}}
		c.M[k] = e
	}
	return e
}

// Set, SetN, SetRefs, Drop are the edits.
func (c *Cat) Set(ctx, id, s string) {
	e := c.entry(K{ctx, id})
	e.Forms[0] = s
	e.Dirty = true
}
func (c *Cat) SetN(ctx, id, pl string, n int, s string) {
	e := c.entry(K{ctx, id})
	if e.Plural == "" {
		e.Plural = pl
	}
	e.Forms[c.Form(n)] = s
	e.Dirty = true
}
func (c *Cat) SetRefs(id string, refs []string) {
	e := c.entry(K{"", id})
	e.Refs = append([]string(nil), refs...)
	e.Dirty = true
}
func (c *Cat) Drop() {
	for k, e := range c.M {
		if !e.Dirty {
			delete(c.M, k)
		}
	}
}

// Canon is the canonical text of the stored entries (header entry left out). Empty forms are kept out:
// a form stored as empty text and one not stored serve alike.
func (c *Cat) Canon(refs, dirty bool) string {
	var ls []string
	for k, e := range c.M {
		if k.ID == "" {
			continue
		}
		ls = append(ls, CanonEntry(k.Ctx, e.ID, e.Plural, e.Forms, e.Refs, e.Dirty, refs, dirty))
	}
	sort.Strings(ls)
	return strings.Join(ls, "\n")
}

// CanonEntry writes one entry canonically.
func CanonEntry(ctx, id, pl string, forms map[int]string, rf []string, dirty, refs, dirties bool) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s|%s|%s|", short(ctx), short(id), short(pl))
	var is []int
	for i, s := range forms {
		if s != "" {
			is = append(is, i)
		}
	}
	sort.Ints(is)
	for _, i := range is {
		fmt.Fprintf(&b, "[%d]%s", i, short(forms[i]))
	}
	if refs {
		fmt.Fprintf(&b, "|refs=%q", strings.Join(rf, " "))
	}
	if dirties {
		fmt.Fprintf(&b, "|set=%v", dirty)
	}
	return b.String()
}

func short(s string) string {
	if len(s) > 200 {
		return strconv.Quote(s[:40]) + fmt.Sprintf("..%d:%x", len(s), fnv(s))
	}
	return strconv.Quote(s)
}
func fnv(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// CanonHeaders writes a header map canonically.
func CanonHeaders(h map[string][]string) string {
	var ks []string
	for k, v := range h {
		if len(v) > 0 {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%q=%q;", k, h[k])
	}
	return b.String()
}
