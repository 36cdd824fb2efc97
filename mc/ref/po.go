package ref

import (
	"fmt"
	"strings"
)

// Layout of a PO text.
type Layout struct {
	Split     int // 0 one line; 1 empty first segment, a segment per line; 2 two halves; 3 one segment per rune (short strings)
	Comments  int // 0 none; 1 all kinds before each entry; 2 obsolete entries and comments with quotes inside; 3 between the lines of an entry
	Blank     int // 0 one blank line between entries; 1 none; 2 blank lines with spaces and tabs
	Indent    int // 0 none; 1 leading and trailing spaces; 2 tabs
	Sep       int // 0 one space after the keyword; 1 several spaces; 2 tab; 3 none
	CRLF      bool
	NoFinalNL bool
	RefLines  bool // one reference per line
	PlurRev   bool // plural forms in descending order
	Escape    int  // 0 minimal escapes; 1 also escape tabs; 2 octal escapes for non-ASCII and tab
	EntRev    bool // entries in reverse order
	HeadAt    int  // entries before the header entry
}

func quotePO(s string, esc int) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"':
			b.WriteString(`\"`)
		case c == '\\':
			b.WriteString(`\\`)
		case c == '\n':
			b.WriteString(`\n`)
		case c == '\r':
			b.WriteString(`\r`)
		case c == '\t' && esc == 1:
			b.WriteString(`\t`)
		case esc == 2 && (c >= 0x80 || c < 0x20):
			fmt.Fprintf(&b, `\%03o`, c)
		default:
			b.WriteByte(c)
		}
	}
	return b.String()
}

func segments(s string, split int) []string {
	switch split {
	case 1:
		out := []string{""}
		for len(s) > 0 {
			i := strings.IndexByte(s, '\n')
			if i < 0 {
				break
			}
			out = append(out, s[:i+1])
			s = s[i+1:]
		}
		if s != "" {
			out = append(out, s)
		}
		return out
	case 2:
		r := []rune(s)
		h := len(r) / 2
		return []string{string(r[:h]), string(r[h:])}
	case 3:
		if len(s) > 300 {
			return []string{s[:0], s}
		}
		var out []string
		for _, r := range s {
			out = append(out, string(r))
		}
		if len(out) == 0 {
			out = []string{""}
		}
		return out
	}
	return []string{s}
}

// WritePO writes the document in the given layout.
func WritePO(d *Doc, l Layout) []byte {
	var ls []string
	ind, tr := "", ""
	switch l.Indent {
	case 1:
		ind, tr = "  ", "  "
	case 2:
		ind, tr = "\t", "\t "
	}
	sep := []string{" ", "   ", "\t", ""}[l.Sep]
	line := func(s string) { ls = append(ls, ind+s+tr) }
	str := func(kw, s string) {
		segs := segments(s, l.Split)
		line(kw + sep + `"` + quotePO(segs[0], l.Escape) + `"`)
		for _, x := range segs[1:] {
			if l.Comments == 3 {
				line("# comment inside an entry")
			}
			line(`"` + quotePO(x, l.Escape) + `"`)
		}
	}
	blank := func() {
		switch l.Blank {
		case 0:
			ls = append(ls, "")
		case 2:
			ls = append(ls, "", " \t ", "")
		}
	}
	for _, c := range d.Comments {
		line(c)
	}
	head := func() {
		if d.Header == nil {
			return
		}
		if len(ls) > 0 && l.HeadAt > 0 {
			blank()
		}
		if l.Split == 0 {
			str("msgid", "")
			var h strings.Builder
			for _, x := range d.Header {
				h.WriteString(x + "\n")
			}
			str("msgstr", h.String())
		} else {
			line(`msgid ""`)
			line(`msgstr ""`)
			for _, x := range d.Header {
				line(`"` + quotePO(x+"\n", l.Escape) + `"`)
			}
		}
	}
	ents := append([]Ent(nil), d.Ents...)
	if l.EntRev {
		for i, j := 0, len(ents)-1; i < j; i, j = i+1, j-1 {
			ents[i], ents[j] = ents[j], ents[i]
		}
	}
	at := l.HeadAt
	if at > len(ents) {
		at = len(ents)
	}
	for i := range ents {
		if i == at {
			head()
		}
		e := &ents[i]
		if len(ls) > 0 {
			blank()
		}
		if l.Comments == 1 || l.Comments == 2 {
			line("# translator comment")
			line("#. extracted comment")
		}
		if l.Comments == 2 {
			line(`#~ msgid "obsolete \"x\""`)
			line(`#~ msgstr "gone"`)
			line(`# msgid "not an entry"`)
			line("#")
		}
		if len(e.Refs) > 0 {
			if l.RefLines {
				for _, r := range e.Refs {
					line("#: " + r)
				}
			} else {
				line("#: " + strings.Join(e.Refs, " "))
			}
		}
		if l.Comments == 1 {
			line("#, fuzzy, c-format")
			line(`#| msgid "previous"`)
		}
		if e.Ctx != "" {
			str("msgctxt", e.Ctx)
		}
		if l.Comments == 3 {
			line("#. comment inside an entry")
		}
		str("msgid", e.ID)
		if e.Plural != "" {
			str("msgid_plural", e.Plural)
			fs := append([]Form(nil), e.Forms...)
			if l.PlurRev {
				for i, j := 0, len(fs)-1; i < j; i, j = i+1, j-1 {
					fs[i], fs[j] = fs[j], fs[i]
				}
			}
			for _, f := range fs {
				str(fmt.Sprintf("msgstr[%d]", f.I), f.S)
			}
		} else {
			for _, f := range e.Forms {
				str("msgstr", f.S)
			}
		}
	}
	if at == len(ents) {
		head()
	}
	nl := "\n"
	if l.CRLF {
		nl = "\r\n"
	}
	s := strings.Join(ls, nl)
	if !l.NoFinalNL {
		s += nl
	}
	return []byte(s)
}
