package ref

import (
	"strconv"
	"strings"
)

// Read is one entry of an exported text, in the order of the text.
type Read struct {
	Ent
	Header   bool
	Comments []string
}

// ReadPO reads exported PO text (strictly: anything which is not PO syntax is an error).
func ReadPO(text string) (out []Read, err string) {
	var cur *Read
	var comm, refs []string
	var app *string
	var pend string
	havePend := false
	form := func() *string { return &cur.Forms[len(cur.Forms)-1].S }
	for ln, l := range strings.Split(text, "\n") {
		l = strings.TrimSpace(l)
		bad := func(what string) string { return "line " + strconv.Itoa(ln+1) + ": " + what + ": " + l }
		switch {
		case l == "":
		case strings.HasPrefix(l, "#:"):
			refs = append(refs, strings.Fields(l[2:])...)
		case l[0] == '#':
			comm = append(comm, l)
		case l[0] == '"':
			s, e := strconv.Unquote(l)
			if e != nil || app == nil {
				return out, bad("string")
			}
			*app += s
		default:
			kw, rest := l, ""
			if i := strings.IndexAny(l, " \t\""); i >= 0 {
				kw, rest = l[:i], strings.TrimSpace(l[i:])
			}
			s, e := strconv.Unquote(rest)
			if e != nil {
				return out, bad("string")
			}
			switch {
			case kw == "msgctxt":
				pend, havePend = s, true
				app = &pend
			case kw == "msgid":
				out = append(out, Read{Ent: Ent{ID: s, Refs: refs}, Comments: comm})
				cur = &out[len(out)-1]
				if havePend {
					cur.Ctx = pend
				}
				havePend = false
				refs, comm = nil, nil
				app = &cur.ID
			case kw == "msgid_plural" && cur != nil:
				cur.Plural = s
				app = &cur.Plural
			case kw == "msgstr" && cur != nil:
				if len(cur.Forms) > 0 {
					return out, bad("second msgstr")
				}
				cur.Forms = append(cur.Forms, Form{0, s})
				app = form()
			case strings.HasPrefix(kw, "msgstr[") && strings.HasSuffix(kw, "]") && cur != nil:
				i, e := strconv.Atoi(kw[7 : len(kw)-1])
				if e != nil {
					return out, bad("index")
				}
				for _, f := range cur.Forms {
					if f.I == i {
						return out, bad("form given twice")
					}
				}
				cur.Forms = append(cur.Forms, Form{i, s})
				app = form()
			default:
				return out, bad("not PO syntax")
			}
		}
	}
	for i := range out {
		out[i].Header = out[i].ID == "" && out[i].Ctx == ""
	}
	return out, ""
}
