From 531124f97825026e5eb82f234e34048b685c6522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:00 +0000
Subject: [PATCH 01/46] fix: reject plural expressions with a zero modulus

Evaluating such an expression panicked with an integer divide by zero.
---
 plurals/compiler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index c28297a..af23113 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -134,6 +134,9 @@ func compileMod(tokens []string) (math math, err error) {
 	if err != nil {
 		return math, err
 	}
+	if i == 0 {
+		return math, errors.New("modulus operation requires a non-zero right operand")
+	}
 	return mod{value: uint32(i)}, nil
 }
 
-- 
2.43.0


From a7a1ba19ef967c8fdac03a2f99431527133d8043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 02/46] fix: report an error for an invalid false branch of a
 plural expression

The error was swallowed: Compile returned neither an expression nor an
error, or an expression evaluating to form -1.
---
 plurals/compiler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index af23113..de07d6d 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -54,7 +54,7 @@ func (ternaryStruct) compile(tokens []string) (expr Expression, err error) {
 	}
 	falseAction, err := compileExpression(strings.Join(actions.Right, ""))
 	if err != nil {
-		return expr, nil
+		return expr, err
 	}
 	return ternary{
 		test:      test,
-- 
2.43.0


From f80dbd2da67ad0a1938cf57ccf603c8f79d3bb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 03/46] fix: match parentheses properly when compiling plural
 expressions

Outer parentheses were stripped even when they did not belong together,
as in (n==1)||(n==2), redundant ones were not accepted at all, and a space
before the expression defeated both parentheses and the constant 0; valid
rules were silently replaced by the default one.
---
 plurals/compiler.go | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index de07d6d..b7328f2 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -353,19 +353,33 @@ func split(s string) <-chan string {
 	return ch
 }
 
+// enclosed reports whether the string starts with a ( and ends with a ) and
+// those two form a matching pair.
+//
+// Eg: (foo) -> true; (foo)(bar) -> false;
+func enclosed(s string) bool {
+	depth := 0
+	for index, char := range s {
+		switch char {
+		case '(':
+			depth++
+		case ')':
+			depth--
+		}
+		if depth == 0 {
+			return char == ')' && index == len(s)-1
+		}
+	}
+	return false
+}
+
 // Tokenizes a string into a list of strings, tokens grouped by parenthesis are
 // not split! If the string starts with ( and ends in ), those are stripped.
 func tokenize(s string) ([]string, error) {
-	/*
-		TODO: Properly detect if the string starts with a ( and ends with a )
-		and that those two form a matching pair.
-
-		Eg: (foo) -> true; (foo)(bar) -> false;
-	*/
 	if len(s) == 0 {
 		return []string{}, nil
 	}
-	if s[0] == '(' && s[len(s)-1] == ')' {
+	for enclosed(s) {
 		s = s[1 : len(s)-1]
 	}
 	ret := []string{}
@@ -394,6 +408,7 @@ func tokenize(s string) ([]string, error) {
 
 // Compile a string containing a plural form expression to a Expression object.
 func Compile(s string) (expr Expression, err error) {
+	s = strings.ReplaceAll(s, " ", "")
 	if s == "0" {
 		return constValue{value: 0}, nil
 	}
-- 
2.43.0


From 7dd8b22a43477882d6a352484dcf37471cbbc6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 04/46] fix: do not leak goroutines on invalid characters in
 plural expressions

---
 plurals/compiler.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index b7328f2..5d13afc 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -383,7 +383,8 @@ func tokenize(s string) ([]string, error) {
 		s = s[1 : len(s)-1]
 	}
 	ret := []string{}
-	for chunk := range split(s) {
+	chunks := split(s)
+	for chunk := range chunks {
 		if len(chunk) != 0 {
 			if chunk[0] == '(' && chunk[len(chunk)-1] == ')' {
 				ret = append(ret, chunk)
@@ -396,6 +397,9 @@ func tokenize(s string) ([]string, error) {
 					matchedLen += len(token[0])
 				}
 				if matchedLen != len(chunk) {
+					for range chunks {
+						// Let the splitting goroutines finish
+					}
 					return nil, fmt.Errorf("invalid character in expression chunk: %s", chunk)
 				}
 			}
-- 
2.43.0


From 844bb1d5947a66f446a6dd01d2a2a81ab906aab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 05/46] fix: return the plural source text when an entry has no
 plural form to serve

GetN/GetNC (and AppendN/AppendNC) returned an empty string for an entry
stored without a plural ID, e.g. a singular one, when the requested form
was missing.
---
 domain.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/domain.go b/domain.go
index 328b255..efc2cc3 100644
--- a/domain.go
+++ b/domain.go
@@ -125,6 +125,13 @@ func (do *Domain) pluralForm(n int) int {
 	return do.pluralforms.Eval(uint32(n))
 }
 
+// missingForm reports whether a stored translation has neither a text nor a plural ID
+// to serve for the plural form of n
+func (do *Domain) missingForm(trans *Translation, n int) bool {
+	form := do.pluralForm(n)
+	return form != 0 && trans.GetN(form) == ""
+}
+
 // parseHeaders retrieves data from previously parsed headers. it's called by both Mo and Po when parsing
 func (do *Domain) parseHeaders() {
 	raw := ""
@@ -330,6 +337,9 @@ func (do *Domain) GetN(str, plural string, n int, vars ...interface{}) string {
 
 	if do.translations != nil {
 		if _, ok := do.translations[str]; ok {
+			if do.missingForm(do.translations[str], n) {
+				return FormatString(plural, vars...)
+			}
 			return FormatString(do.translations[str].GetN(do.pluralForm(n)), vars...)
 		}
 	}
@@ -350,6 +360,9 @@ func (do *Domain) AppendN(b []byte, str, plural string, n int, vars ...interface
 
 	if do.translations != nil {
 		if _, ok := do.translations[str]; ok {
+			if do.missingForm(do.translations[str], n) {
+				return Appendf(b, plural, vars...)
+			}
 			return Appendf(b, do.translations[str].GetN(do.pluralForm(n)), vars...)
 		}
 	}
@@ -466,6 +479,9 @@ func (do *Domain) GetNC(str, plural string, n int, ctx string, vars ...interface
 		if _, ok := do.contextTranslations[ctx]; ok {
 			if do.contextTranslations[ctx] != nil {
 				if _, ok := do.contextTranslations[ctx][str]; ok {
+					if do.missingForm(do.contextTranslations[ctx][str], n) {
+						return FormatString(plural, vars...)
+					}
 					return FormatString(do.contextTranslations[ctx][str].GetN(do.pluralForm(n)), vars...)
 				}
 			}
@@ -488,6 +504,9 @@ func (do *Domain) AppendNC(b []byte, str, plural string, n int, ctx string, vars
 		if _, ok := do.contextTranslations[ctx]; ok {
 			if do.contextTranslations[ctx] != nil {
 				if _, ok := do.contextTranslations[ctx][str]; ok {
+					if do.missingForm(do.contextTranslations[ctx][str], n) {
+						return Appendf(b, plural, vars...)
+					}
 					return Appendf(b, do.contextTranslations[ctx][str].GetN(do.pluralForm(n)), vars...)
 				}
 			}
-- 
2.43.0


From 2e5d9e34f2dbd7ed1c0a52e00e3a6f518e4e760e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 06/46] fix: store the plural ID in SetNC, and in SetN for an
 existing entry

Without it the entry is exported as a singular one and loses all but its
first form.
---
 domain.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/domain.go b/domain.go
index efc2cc3..d75b2dd 100644
--- a/domain.go
+++ b/domain.go
@@ -318,6 +318,9 @@ func (do *Domain) SetN(id, plural string, n int, str string) {
 	defer do.pluralMutex.Unlock()
 
 	if trans, ok := do.translations[id]; ok {
+		if trans.PluralID == "" {
+			trans.PluralID = plural
+		}
 		trans.SetN(pluralForm, str)
 	} else {
 		trans = NewTranslation()
@@ -452,16 +455,21 @@ func (do *Domain) SetNC(id, plural, ctx string, n int, str string) {
 
 	if context, ok := do.contextTranslations[ctx]; ok {
 		if trans, hasTrans := context[id]; hasTrans {
+			if trans.PluralID == "" {
+				trans.PluralID = plural
+			}
 			trans.SetN(pluralForm, str)
 		} else {
 			trans = NewTranslation()
 			trans.ID = id
+			trans.PluralID = plural
 			trans.SetN(pluralForm, str)
 			context[id] = trans
 		}
 	} else {
 		trans := NewTranslation()
 		trans.ID = id
+		trans.PluralID = plural
 		trans.SetN(pluralForm, str)
 		do.contextTranslations[ctx] = map[string]*Translation{
 			id: trans,
-- 
2.43.0


From 3dc60dd17a6e09b2af430d536eb2f89d769d5ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 07/46] fix: make SetN and SetNC atomic with respect to a
 concurrent Parse

The plural form was computed before taking the lock, so the text could be
filed under the form of a rule no longer in force.
---
 domain.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/domain.go b/domain.go
index d75b2dd..baf1a08 100644
--- a/domain.go
+++ b/domain.go
@@ -110,6 +110,11 @@ func (do *Domain) pluralForm(n int) int {
 	do.pluralMutex.RLock()
 	defer do.pluralMutex.RUnlock()
 
+	return do.lockedPluralForm(n)
+}
+
+// lockedPluralForm is pluralForm for callers already holding pluralMutex
+func (do *Domain) lockedPluralForm(n int) int {
 	// Failure fallback
 	if do.pluralforms == nil {
 		if do.customPluralResolver != nil {
@@ -309,14 +314,14 @@ func (do *Domain) Append(b []byte, str string, vars ...interface{}) []byte {
 
 // SetN sets the (N)th plural form for the given string
 func (do *Domain) SetN(id, plural string, n int, str string) {
-	// Get plural form _before_ lock down
-	pluralForm := do.pluralForm(n)
-
 	do.trMutex.Lock()
 	do.pluralMutex.Lock()
 	defer do.trMutex.Unlock()
 	defer do.pluralMutex.Unlock()
 
+	// Get plural form under the same lock, as a concurrent Parse can change the rule
+	pluralForm := do.lockedPluralForm(n)
+
 	if trans, ok := do.translations[id]; ok {
 		if trans.PluralID == "" {
 			trans.PluralID = plural
@@ -445,14 +450,14 @@ func (do *Domain) AppendC(b []byte, str, ctx string, vars ...interface{}) []byte
 
 // SetNC sets the (N)th plural form for the given string in the given context
 func (do *Domain) SetNC(id, plural, ctx string, n int, str string) {
-	// Get plural form _before_ lock down
-	pluralForm := do.pluralForm(n)
-
 	do.trMutex.Lock()
 	do.pluralMutex.Lock()
 	defer do.trMutex.Unlock()
 	defer do.pluralMutex.Unlock()
 
+	// Get plural form under the same lock, as a concurrent Parse can change the rule
+	pluralForm := do.lockedPluralForm(n)
+
 	if context, ok := do.contextTranslations[ctx]; ok {
 		if trans, hasTrans := context[id]; hasTrans {
 			if trans.PluralID == "" {
-- 
2.43.0


From 4a0e5b4f3ada76b006e6ba50e2a97490c2cee1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 08/46] fix: write plural forms in index order in MarshalText

They came out in random map order, differently on each call.
---
 domain.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/domain.go b/domain.go
index baf1a08..02040bb 100644
--- a/domain.go
+++ b/domain.go
@@ -807,7 +807,13 @@ func (do *Domain) MarshalText() ([]byte, error) {
 			buf.WriteString("\nmsgstr \"" + EscapeSpecialCharacters(trans.Trs[0]) + "\"")
 		} else {
 			buf.WriteString("\nmsgid_plural \"" + trans.PluralID + "\"")
-			for i, tr := range trans.Trs {
+			forms := make([]int, 0, len(trans.Trs))
+			for i := range trans.Trs {
+				forms = append(forms, i)
+			}
+			sort.Ints(forms)
+			for _, i := range forms {
+				tr := trans.Trs[i]
 				buf.WriteString("\nmsgstr[" + EscapeSpecialCharacters(strconv.Itoa(i)) + "] \"" + tr + "\"")
 			}
 		}
-- 
2.43.0


From bfe57b18f6731f6bd148fbbc4ec45ff6fab4e837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 09/46] fix: escape every string written by MarshalText

Plural IDs, plural forms and headers were written unescaped, and backslashes,
leading and adjacent quotation marks were not escaped anywhere, so that the
exported text did not parse back to the same catalog.
---
 domain.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/domain.go b/domain.go
index 02040bb..a407954 100644
--- a/domain.go
+++ b/domain.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"encoding/gob"
 	"fmt"
-	"regexp"
 	"sort"
 	"strconv"
 	"strings"
@@ -713,7 +712,7 @@ func (do *Domain) MarshalText() ([]byte, error) {
 		v := do.Headers[k]
 
 		for _, value := range v {
-			buf.WriteString("\n\"" + k + ": " + value + "\\n\"")
+			buf.WriteString("\n\"" + EscapeSpecialCharacters(k+": "+value) + "\\n\"")
 		}
 	}
 
@@ -806,7 +805,7 @@ func (do *Domain) MarshalText() ([]byte, error) {
 		if trans.PluralID == "" {
 			buf.WriteString("\nmsgstr \"" + EscapeSpecialCharacters(trans.Trs[0]) + "\"")
 		} else {
-			buf.WriteString("\nmsgid_plural \"" + trans.PluralID + "\"")
+			buf.WriteString("\nmsgid_plural \"" + EscapeSpecialCharacters(trans.PluralID) + "\"")
 			forms := make([]int, 0, len(trans.Trs))
 			for i := range trans.Trs {
 				forms = append(forms, i)
@@ -814,7 +813,7 @@ func (do *Domain) MarshalText() ([]byte, error) {
 			sort.Ints(forms)
 			for _, i := range forms {
 				tr := trans.Trs[i]
-				buf.WriteString("\nmsgstr[" + EscapeSpecialCharacters(strconv.Itoa(i)) + "] \"" + tr + "\"")
+				buf.WriteString("\nmsgstr[" + EscapeSpecialCharacters(strconv.Itoa(i)) + "] \"" + EscapeSpecialCharacters(tr) + "\"")
 			}
 		}
 	}
@@ -824,7 +823,8 @@ func (do *Domain) MarshalText() ([]byte, error) {
 
 // EscapeSpecialCharacters escapes special characters in a string
 func EscapeSpecialCharacters(s string) string {
-	s = regexp.MustCompile(`([^\\])(")`).ReplaceAllString(s, "$1\\\"") // Escape non-escaped double quotation marks
+	s = strings.ReplaceAll(s, `\`, `\\`) // Escape backslashes
+	s = strings.ReplaceAll(s, `"`, `\"`) // Escape double quotation marks
 
 	if strings.Count(s, "\n") == 0 {
 		return s
-- 
2.43.0


From 0b7e9382c033dccb343be8dfbfd6395c5ad37cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 10/46] fix: attach source references to their own entry when
 parsing PO

References leaked to following entries without any, only the last of several
reference lines was kept, and those of an entry at the very start of the file
were taken for file comments.
---
 po.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/po.go b/po.go
index e70eb87..443f4d4 100644
--- a/po.go
+++ b/po.go
@@ -313,13 +313,13 @@ func (po *Po) saveBuffer() {
 // Or preserves source references for a given translation.
 func (po *Po) parseComment(l string, state parseState) {
 	if len(l) > 0 && l[0] == '#' {
-		if state == head {
+		if state == head && !strings.HasPrefix(l, "#:") {
 			po.domain.headerComments = append(po.domain.headerComments, l)
 		} else if len(l) > 1 {
 			switch l[1] {
 			case ':':
 				if len(l) > 2 {
-					po.domain.refBuffer = strings.TrimSpace(l[2:])
+					po.domain.refBuffer = strings.TrimSpace(po.domain.refBuffer + " " + strings.TrimSpace(l[2:]))
 				}
 			}
 		}
@@ -353,6 +353,9 @@ func (po *Po) parsePluralID(l string) {
 
 // parseMessage takes a line starting with "msgstr" and saves it into the current buffer.
 func (po *Po) parseMessage(l string) {
+	// The references seen so far belong to the current entry only
+	po.domain.refBuffer = ""
+
 	l = strings.TrimSpace(strings.TrimPrefix(l, "msgstr"))
 
 	// Check for indexed Translation forms
-- 
2.43.0


From a848c7220874ffa4752d40415c4020afcf214d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 11/46] fix: append PO continuation lines to the form they
 follow

They were appended to the form numbered after the count of forms seen so far,
which is another one when plural forms are not listed as 0, 1, 2...
---
 domain.go | 1 +
 po.go     | 9 ++++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/domain.go b/domain.go
index a407954..c1543bb 100644
--- a/domain.go
+++ b/domain.go
@@ -44,6 +44,7 @@ type Domain struct {
 	trBuffer  *Translation
 	ctxBuffer string
 	refBuffer string
+	idxBuffer int
 
 	customPluralResolver func(int) int
 }
diff --git a/po.go b/po.go
index 443f4d4..b88dc4a 100644
--- a/po.go
+++ b/po.go
@@ -358,6 +358,9 @@ func (po *Po) parseMessage(l string) {
 
 	l = strings.TrimSpace(strings.TrimPrefix(l, "msgstr"))
 
+	// Form which continuation lines belong to, none for a wrong index
+	po.domain.idxBuffer = -1
+
 	// Check for indexed Translation forms
 	if strings.HasPrefix(l, "[") {
 		idx := strings.Index(l, "]")
@@ -374,6 +377,7 @@ func (po *Po) parseMessage(l string) {
 		}
 
 		// Parse Translation string
+		po.domain.idxBuffer = i
 		po.domain.trBuffer.Trs[i], _ = strconv.Unquote(strings.TrimSpace(l[idx+1:]))
 
 		// Loop
@@ -381,6 +385,7 @@ func (po *Po) parseMessage(l string) {
 	}
 
 	// Save single Translation form under 0 index
+	po.domain.idxBuffer = 0
 	po.domain.trBuffer.Trs[0], _ = strconv.Unquote(l)
 }
 
@@ -392,7 +397,9 @@ func (po *Po) parseString(l string, state parseState) {
 	switch state {
 	case msgStr:
 		// Append to last Translation found
-		po.domain.trBuffer.Trs[len(po.domain.trBuffer.Trs)-1] += clean
+		if po.domain.idxBuffer >= 0 {
+			po.domain.trBuffer.Trs[po.domain.idxBuffer] += clean
+		}
 
 	case msgID:
 		// Multiline msgid - Append to current id
-- 
2.43.0


From 23654855fc39953b2962ce584aedd6e51fd42d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 12/46] fix: keep entries with references set when dropping
 stale translations

SetRefs did not mark an existing entry as set.
---
 domain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain.go b/domain.go
index c1543bb..f57d72d 100644
--- a/domain.go
+++ b/domain.go
@@ -239,7 +239,7 @@ func (do *Domain) SetRefs(str string, refs []string) {
 	defer do.pluralMutex.Unlock()
 
 	if trans, ok := do.translations[str]; ok {
-		trans.Refs = refs
+		trans.SetRefs(refs)
 	} else {
 		trans = NewTranslation()
 		trans.ID = str
-- 
2.43.0


From f555c14ff912cc70efbebdb5a320a8e9a2ef383a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 13/46] fix: ignore damaged PO entries instead of saving them
 under another key

An entry with a broken or missing msgid was saved under the empty ID, that is
over the header (losing the plural rule), one with a broken msgctxt over the
entry of the same ID without context, and the context of an entry with an
empty msgid was carried over to the next entry.
---
 domain.go |  1 +
 po.go     | 37 +++++++++++++++++++++++++++++--------
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/domain.go b/domain.go
index f57d72d..9e68eed 100644
--- a/domain.go
+++ b/domain.go
@@ -45,6 +45,7 @@ type Domain struct {
 	ctxBuffer string
 	refBuffer string
 	idxBuffer int
+	badBuffer bool
 
 	customPluralResolver func(int) int
 }
diff --git a/po.go b/po.go
index b88dc4a..2b302d3 100644
--- a/po.go
+++ b/po.go
@@ -221,6 +221,7 @@ func (po *Po) Parse(buf []byte) {
 	po.domain.trBuffer = NewTranslation()
 	po.domain.ctxBuffer = ""
 	po.domain.refBuffer = ""
+	po.domain.badBuffer = false
 
 	state := head
 	for _, l := range lines {
@@ -242,7 +243,7 @@ func (po *Po) Parse(buf []byte) {
 
 		// Buffer msgid and continue
 		if strings.HasPrefix(l, "msgid") && !strings.HasPrefix(l, "msgid_plural") {
-			po.parseID(l)
+			po.parseID(l, state)
 			state = msgID
 			continue
 		}
@@ -263,7 +264,7 @@ func (po *Po) Parse(buf []byte) {
 		}
 
 		// Multi line strings and headers
-		if strings.HasPrefix(l, "\"") && strings.HasSuffix(l, "\"") {
+		if strings.HasPrefix(l, "\"") {
 			po.parseString(l, state)
 			continue
 		}
@@ -285,8 +286,14 @@ func (po *Po) Parse(buf []byte) {
 // saveBuffer takes the context and Translation buffers
 // and saves it on the translations collection
 func (po *Po) saveBuffer() {
-	// With no context...
-	if po.domain.ctxBuffer == "" {
+	if po.domain.badBuffer {
+		// Drop an entry whose msgctxt or msgid is not known
+		po.domain.badBuffer = false
+		po.domain.ctxBuffer = ""
+	} else if po.domain.trBuffer.ID == "" && len(po.domain.trBuffer.Trs) == 0 {
+		// Nothing to save, and nothing to overwrite the header entry with
+	} else if po.domain.ctxBuffer == "" {
+		// With no context...
 		po.domain.translations[po.domain.trBuffer.ID] = po.domain.trBuffer
 	} else {
 		// With context...
@@ -333,17 +340,28 @@ func (po *Po) parseContext(l string) {
 	po.saveBuffer()
 
 	// Buffer context
-	po.domain.ctxBuffer, _ = strconv.Unquote(strings.TrimSpace(strings.TrimPrefix(l, "msgctxt")))
+	var err error
+	po.domain.ctxBuffer, err = strconv.Unquote(strings.TrimSpace(strings.TrimPrefix(l, "msgctxt")))
+	po.domain.badBuffer = err != nil
 }
 
 // parseID takes a line starting with "msgid",
 // saves the current Translation and creates a new msgid buffer.
-func (po *Po) parseID(l string) {
+func (po *Po) parseID(l string, state parseState) {
+	badContext := state == msgCtxt && po.domain.badBuffer
+
 	// Save current Translation buffer.
 	po.saveBuffer()
 
+	// A context only applies to the msgid next to it
+	if state != msgCtxt {
+		po.domain.ctxBuffer = ""
+	}
+
 	// Set id
-	po.domain.trBuffer.ID, _ = strconv.Unquote(strings.TrimSpace(strings.TrimPrefix(l, "msgid")))
+	var err error
+	po.domain.trBuffer.ID, err = strconv.Unquote(strings.TrimSpace(strings.TrimPrefix(l, "msgid")))
+	po.domain.badBuffer = badContext || err != nil
 }
 
 // parsePluralID saves the plural id buffer from a line starting with "msgid_plural"
@@ -392,7 +410,10 @@ func (po *Po) parseMessage(l string) {
 // parseString takes a well formatted string without prefix
 // and creates headers or attach multi-line strings when corresponding
 func (po *Po) parseString(l string, state parseState) {
-	clean, _ := strconv.Unquote(l)
+	clean, err := strconv.Unquote(l)
+	if err != nil && (state == msgID || state == msgCtxt) {
+		po.domain.badBuffer = true
+	}
 
 	switch state {
 	case msgStr:
-- 
2.43.0


From b9a801cb72ec705bdfa6b227d19960c08a7b30f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 14/46] fix: do not give singular MO entries their own msgid as
 plural ID

A missing plural form was served as the singular source text, other than for
the same catalog in PO format.
---
 mo.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mo.go b/mo.go
index 389deba..5105f6d 100644
--- a/mo.go
+++ b/mo.go
@@ -291,6 +291,9 @@ func (mo *Mo) addTranslation(msgid, msgstr []byte) {
 	if len(dd) > 1 {
 		msgid = dd[0]
 		dd = dd[1:]
+	} else {
+		// No plural
+		dd = nil
 	}
 
 	translation.ID = string(msgid)
-- 
2.43.0


From cc021e22f902f199d17a39531b299c0829109dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 15/46] fix: validate MO tables before loading anything from
 them

Corrupt counts and lengths made Parse panic or allocate gigabytes, and
truncated files were loaded in part, with cut or NUL-padded strings and
without the plural rule.
---
 mo.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/mo.go b/mo.go
index 5105f6d..1648e6e 100644
--- a/mo.go
+++ b/mo.go
@@ -203,6 +203,12 @@ func (mo *Mo) Parse(buf []byte) {
 		// return fmt.Errorf("gettext: %v", "invalid version number")
 	}
 
+	// Ignore truncated or corrupt data as a whole
+	if !validTable(buf, bo, header.MsgIDCount, header.MsgIDOffset) || !validTable(buf, bo, header.MsgIDCount, header.MsgStrOffset) {
+		return
+		// return fmt.Errorf("gettext: %v", "invalid string table")
+	}
+
 	msgIDStart := make([]uint32, header.MsgIDCount)
 	msgIDLen := make([]uint32, header.MsgIDCount)
 	if _, err := r.Seek(int64(header.MsgIDOffset), 0); err != nil {
@@ -275,6 +281,23 @@ func (mo *Mo) Parse(buf []byte) {
 	mo.Headers = mo.domain.Headers
 }
 
+// validTable reports whether a table of count string descriptors at the given offset,
+// and every string it describes, lie within buf
+func validTable(buf []byte, bo binary.ByteOrder, count, offset uint32) bool {
+	size := uint64(len(buf))
+	if uint64(offset)+8*uint64(count) > size {
+		return false
+	}
+	for i := uint64(0); i < uint64(count); i++ {
+		entry := buf[uint64(offset)+8*i:]
+		length, start := uint64(bo.Uint32(entry)), uint64(bo.Uint32(entry[4:]))
+		if start >= size || start+length > size {
+			return false
+		}
+	}
+	return true
+}
+
 func (mo *Mo) addTranslation(msgid, msgstr []byte) {
 	translation := NewTranslation()
 	var msgctxt []byte
-- 
2.43.0


From 0bec610b0e5bc837dfdb1d75424f10a53d1812d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 16/46] fix: let the headers of a later Parse replace those of
 an earlier one

Values piled up under each key, so that the first Language and Plural-Forms
stayed in force, and a rule that could not be compiled left the previous one.
---
 domain.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/domain.go b/domain.go
index 9e68eed..fa92560 100644
--- a/domain.go
+++ b/domain.go
@@ -149,6 +149,9 @@ func (do *Domain) parseHeaders() {
 	languageKey := "Language"
 	pluralFormsKey := "Plural-Forms"
 
+	// Header keys found, whose previous values (of an earlier Parse) are replaced
+	found := make(map[string]bool)
+
 	rawLines := strings.Split(raw, "\n")
 	for _, line := range rawLines {
 		if len(line) == 0 {
@@ -168,6 +171,11 @@ func (do *Domain) parseHeaders() {
 			pluralFormsKey = key
 		}
 
+		if !found[key] {
+			found[key] = true
+			do.Headers.Del(key)
+		}
+
 		value := strings.TrimSpace(line[colonIdx+1:])
 		do.Headers.Add(key, value)
 	}
@@ -181,6 +189,10 @@ func (do *Domain) parseHeaders() {
 		return
 	}
 
+	// Forget the rule of an earlier Parse
+	do.plural = ""
+	do.pluralforms = nil
+
 	// Split plural form header value
 	pfs := strings.Split(do.PluralForms, ";")
 
-- 
2.43.0


From e15e1261c453fe30eb40f3105c8c37dd0b1b5e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 17/46] fix: restore the plural rule and headers of decoded
 catalogs

A Locale decoded from its binary form lost the plural rule of every domain, a
catalog decoded into a used object kept the old rule when the new one has
none, and the public header fields were not set.
---
 domain.go     |  1 +
 mo.go         | 14 +++++++++++++-
 po.go         | 14 +++++++++++++-
 translator.go | 12 ++++++++++++
 4 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/domain.go b/domain.go
index fa92560..8fc5b59 100644
--- a/domain.go
+++ b/domain.go
@@ -910,6 +910,7 @@ func (do *Domain) UnmarshalBinary(data []byte) error {
 	do.translations = obj.Translations
 	do.contextTranslations = obj.Contexts
 
+	do.pluralforms = nil
 	if expr, err := plurals.Compile(do.plural); err == nil {
 		do.pluralforms = expr
 	}
diff --git a/mo.go b/mo.go
index 1648e6e..57b07a8 100644
--- a/mo.go
+++ b/mo.go
@@ -142,7 +142,19 @@ func (mo *Mo) MarshalBinary() ([]byte, error) {
 
 // UnmarshalBinary unmarshals the Mo object from a binary format
 func (mo *Mo) UnmarshalBinary(data []byte) error {
-	return mo.domain.UnmarshalBinary(data)
+	if err := mo.domain.UnmarshalBinary(data); err != nil {
+		return err
+	}
+
+	// set values on this struct
+	// this is for backwards compatibility
+	mo.domain.trMutex.Lock()
+	defer mo.domain.trMutex.Unlock()
+	mo.Language = mo.domain.Language
+	mo.PluralForms = mo.domain.PluralForms
+	mo.Headers = mo.domain.Headers
+
+	return nil
 }
 
 // ParseFile loads the translations specified in the provided file, in the GNU gettext .mo format
diff --git a/po.go b/po.go
index 2b302d3..97c3de7 100644
--- a/po.go
+++ b/po.go
@@ -189,7 +189,19 @@ func (po *Po) MarshalBinary() ([]byte, error) {
 
 // UnmarshalBinary unmarshals the Po object from binary
 func (po *Po) UnmarshalBinary(data []byte) error {
-	return po.domain.UnmarshalBinary(data)
+	if err := po.domain.UnmarshalBinary(data); err != nil {
+		return err
+	}
+
+	// set values on this struct
+	// this is for backwards compatibility
+	po.domain.trMutex.Lock()
+	defer po.domain.trMutex.Unlock()
+	po.Language = po.domain.Language
+	po.PluralForms = po.domain.PluralForms
+	po.Headers = po.domain.Headers
+
+	return nil
 }
 
 // ParseFile loads the translations from a file
diff --git a/translator.go b/translator.go
index e32e3ab..80427fa 100644
--- a/translator.go
+++ b/translator.go
@@ -9,6 +9,8 @@ import (
 	"errors"
 	"io/fs"
 	"os"
+
+	"github.com/leonelquinteros/gotext/plurals"
 )
 
 // Translator interface is used by Locale and Po objects.Translator
@@ -72,6 +74,16 @@ func (te *TranslatorEncoding) GetTranslator() Translator {
 	po.domain.translations = te.Translations
 	po.domain.contextTranslations = te.Contexts
 
+	if expr, err := plurals.Compile(te.Plural); err == nil {
+		po.domain.pluralforms = expr
+	}
+
+	// set values on this struct
+	// this is for backwards compatibility
+	po.Language = po.domain.Language
+	po.PluralForms = po.domain.PluralForms
+	po.Headers = po.domain.Headers
+
 	return po
 }
 
-- 
2.43.0


From f3e90c434ad626142171b726c1e7df26c4d48ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 18/46] fix: drop the file comments of the receiver when
 decoding a catalog

They belong to the content which is replaced, yet were exported along with the
new one.
---
 domain.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/domain.go b/domain.go
index 8fc5b59..0a0fd35 100644
--- a/domain.go
+++ b/domain.go
@@ -909,6 +909,7 @@ func (do *Domain) UnmarshalBinary(data []byte) error {
 	do.plural = obj.Plural
 	do.translations = obj.Translations
 	do.contextTranslations = obj.Contexts
+	do.headerComments = make([]string, 0)
 
 	do.pluralforms = nil
 	if expr, err := plurals.Compile(do.plural); err == nil {
-- 
2.43.0


From fc2581a1aff26ea9a3bbc9e7e1b2449c3023aa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 19/46] fix: synchronise export, import, snapshots and the
 resolver of a Domain

MarshalText, MarshalBinary, UnmarshalBinary and SetPluralResolver took no lock
and the snapshot methods read the size of the maps before taking it: data races
with any concurrent edit or Parse.
---
 domain.go | 26 ++++++++++++++++++++++----
 po.go     |  2 +-
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/domain.go b/domain.go
index 0a0fd35..f08f582 100644
--- a/domain.go
+++ b/domain.go
@@ -103,6 +103,9 @@ func NewDomain() *Domain {
 
 // SetPluralResolver sets a custom plural resolver function
 func (do *Domain) SetPluralResolver(f func(int) int) {
+	do.pluralMutex.Lock()
+	defer do.pluralMutex.Unlock()
+
 	do.customPluralResolver = f
 }
 
@@ -591,11 +594,11 @@ func (do *Domain) IsTranslatedNC(str string, n int, ctx string) bool {
 
 // GetTranslations returns a copy of every translation in the domain. It does not support contexts.
 func (do *Domain) GetTranslations() map[string]*Translation {
-	all := make(map[string]*Translation, len(do.translations))
-
 	do.trMutex.RLock()
 	defer do.trMutex.RUnlock()
 
+	all := make(map[string]*Translation, len(do.translations))
+
 	for msgID, trans := range do.translations {
 		newTrans := NewTranslation()
 		newTrans.ID = trans.ID
@@ -616,11 +619,11 @@ func (do *Domain) GetTranslations() map[string]*Translation {
 
 // GetCtxTranslations returns a copy of every translation in the domain with context
 func (do *Domain) GetCtxTranslations() map[string]map[string]*Translation {
-	all := make(map[string]map[string]*Translation, len(do.contextTranslations))
-
 	do.trMutex.RLock()
 	defer do.trMutex.RUnlock()
 
+	all := make(map[string]map[string]*Translation, len(do.contextTranslations))
+
 	for ctx, translations := range do.contextTranslations {
 		for msgID, trans := range translations {
 			newTrans := NewTranslation()
@@ -672,6 +675,10 @@ func extractPathAndLine(ref string) (string, int) {
 // MarshalText implements encoding.TextMarshaler interface
 // Assists round-trip of POT/PO content
 func (do *Domain) MarshalText() ([]byte, error) {
+	// Sync read
+	do.trMutex.RLock()
+	defer do.trMutex.RUnlock()
+
 	var buf bytes.Buffer
 	if len(do.headerComments) > 0 {
 		buf.WriteString(strings.Join(do.headerComments, "\n"))
@@ -875,6 +882,12 @@ func EscapeSpecialCharacters(s string) string {
 
 // MarshalBinary implements encoding.BinaryMarshaler interface
 func (do *Domain) MarshalBinary() ([]byte, error) {
+	// Sync read
+	do.trMutex.RLock()
+	defer do.trMutex.RUnlock()
+	do.pluralMutex.RLock()
+	defer do.pluralMutex.RUnlock()
+
 	obj := new(TranslatorEncoding)
 	obj.Headers = do.Headers
 	obj.Language = do.Language
@@ -902,6 +915,11 @@ func (do *Domain) UnmarshalBinary(data []byte) error {
 		return err
 	}
 
+	do.trMutex.Lock()
+	do.pluralMutex.Lock()
+	defer do.trMutex.Unlock()
+	defer do.pluralMutex.Unlock()
+
 	do.Headers = obj.Headers
 	do.Language = obj.Language
 	do.PluralForms = obj.PluralForms
diff --git a/po.go b/po.go
index 97c3de7..352b07f 100644
--- a/po.go
+++ b/po.go
@@ -94,7 +94,7 @@ func (po *Po) GetRefs(str string) []string {
 
 // SetPluralResolver sets the plural resolver function
 func (po *Po) SetPluralResolver(f func(int) int) {
-	po.domain.customPluralResolver = f
+	po.domain.SetPluralResolver(f)
 }
 
 // Set translation
-- 
2.43.0


From e28d484240e4982e3aba3637b4302a2587acc772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 20/46] fix: synchronise binary export and import of a Locale

Neither took the lock, and undecodable data left a half changed locale.
---
 locale.go | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/locale.go b/locale.go
index 381e560..4494a1b 100644
--- a/locale.go
+++ b/locale.go
@@ -90,7 +90,16 @@ func NewLocaleFSWithPath(l string, filesystem fs.FS, p string) *Locale {
 	return loc
 }
 
+// location returns a copy of where to find the files of the locale, which UnmarshalBinary can change
+func (l *Locale) location() *Locale {
+	l.RLock()
+	defer l.RUnlock()
+	return &Locale{path: l.path, lang: l.lang, fs: l.fs}
+}
+
 func (l *Locale) findExt(dom, ext string) string {
+	l = l.location()
+
 	filename := path.Join(l.path, l.lang, "LC_MESSAGES", dom+"."+ext)
 	if l.fileExists(filename) {
 		return filename
@@ -121,6 +130,8 @@ func (l *Locale) findExt(dom, ext string) string {
 // GetActualLanguage inspects the filesystem and decides whether to strip
 // a CC part of the ll_CC locale string.
 func (l *Locale) GetActualLanguage(dom string) string {
+	l = l.location()
+
 	extensions := []string{"mo", "po"}
 	var fp string
 	for _, ext := range extensions {
@@ -425,6 +436,10 @@ type LocaleEncoding struct {
 
 // MarshalBinary implements encoding BinaryMarshaler interface
 func (l *Locale) MarshalBinary() ([]byte, error) {
+	// Sync read
+	l.RLock()
+	defer l.RUnlock()
+
 	obj := new(LocaleEncoding)
 	obj.DefaultDomain = l.defaultDomain
 	obj.Domains = make(map[string][]byte)
@@ -456,12 +471,8 @@ func (l *Locale) UnmarshalBinary(data []byte) error {
 		return err
 	}
 
-	l.defaultDomain = obj.DefaultDomain
-	l.lang = obj.Lang
-	l.path = obj.Path
-
 	// Decode Domains
-	l.Domains = make(map[string]Translator)
+	domains := make(map[string]Translator)
 	for k, v := range obj.Domains {
 		var tr TranslatorEncoding
 		buff := bytes.NewBuffer(v)
@@ -471,8 +482,16 @@ func (l *Locale) UnmarshalBinary(data []byte) error {
 			return err
 		}
 
-		l.Domains[k] = tr.GetTranslator()
+		domains[k] = tr.GetTranslator()
 	}
 
+	l.Lock()
+	defer l.Unlock()
+
+	l.defaultDomain = obj.DefaultDomain
+	l.lang = obj.Lang
+	l.path = obj.Path
+	l.Domains = domains
+
 	return nil
 }
-- 
2.43.0


From 5bbf7819925dee7fec470d30d45d4bcf2953d3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 21/46] fix: read the domains of a locale under its lock in
 package functions

Concurrent lookups of domains not loaded yet crashed with a concurrent map
read and map write.
---
 gotext.go | 6 +++---
 locale.go | 8 ++++++++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/gotext.go b/gotext.go
index 059403c..fbf3992 100644
--- a/gotext.go
+++ b/gotext.go
@@ -77,7 +77,7 @@ func loadLocales(rebuildCache bool) {
 	}
 
 	for _, locale := range globalConfig.locales {
-		if _, ok := locale.Domains[globalConfig.domain]; !ok || rebuildCache {
+		if !locale.hasDomain(globalConfig.domain) || rebuildCache {
 			locale.AddDomain(globalConfig.domain)
 		}
 		locale.SetDomain(globalConfig.domain)
@@ -252,7 +252,7 @@ func GetD(dom, str string, vars ...interface{}) string {
 
 	var tr string
 	for i, locale := range globalConfig.locales {
-		if _, ok := locale.Domains[dom]; !ok {
+		if !locale.hasDomain(dom) {
 			locale.AddDomain(dom)
 		}
 		if !locale.IsTranslatedD(dom, str) && i < (len(globalConfig.locales)-1) {
@@ -275,7 +275,7 @@ func GetND(dom, str, plural string, n int, vars ...interface{}) string {
 
 	var tr string
 	for i, locale := range globalConfig.locales {
-		if _, ok := locale.Domains[dom]; !ok {
+		if !locale.hasDomain(dom) {
 			locale.AddDomain(dom)
 		}
 		if !locale.IsTranslatedND(dom, str, n) && i < (len(globalConfig.locales)-1) {
diff --git a/locale.go b/locale.go
index 4494a1b..2a984ac 100644
--- a/locale.go
+++ b/locale.go
@@ -224,6 +224,14 @@ func (l *Locale) AddTranslator(dom string, tr Translator) {
 	l.Unlock()
 }
 
+// hasDomain reports whether the domain has been added
+func (l *Locale) hasDomain(dom string) bool {
+	l.RLock()
+	defer l.RUnlock()
+	_, ok := l.Domains[dom]
+	return ok
+}
+
 // GetDomain is the domain getter for Locale configuration
 func (l *Locale) GetDomain() string {
 	l.RLock()
-- 
2.43.0


From 61c2da91a0b7d20e636fc4f40dff6e5ee3260e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 22/46] fix: make package functions usable without any
 configuration

Get panicked with an index out of range, leaving the configuration locked for
good, and GetD returned an empty string.
---
 gotext.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gotext.go b/gotext.go
index fbf3992..91d0eb2 100644
--- a/gotext.go
+++ b/gotext.go
@@ -68,7 +68,7 @@ func init() {
 func loadLocales(rebuildCache bool) {
 	globalConfig.Lock()
 
-	if globalConfig.locales == nil || rebuildCache {
+	if len(globalConfig.locales) == 0 || rebuildCache {
 		var locales []*Locale
 		for _, language := range globalConfig.languages {
 			locales = append(locales, NewLocale(globalConfig.library, language))
@@ -90,7 +90,7 @@ func loadLocales(rebuildCache bool) {
 func GetDomain() string {
 	var dom string
 	globalConfig.RLock()
-	if globalConfig.locales != nil {
+	if len(globalConfig.locales) > 0 {
 		// All locales have the same domain
 		dom = globalConfig.locales[0].GetDomain()
 	}
-- 
2.43.0


From 9b01af9efcf61949de1104946ad5add69a65b2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 23/46] fix: load the domain on demand in GetDC and GetNDC as
 in GetD and GetND

They returned source text for a domain unless another call had loaded it.
---
 gotext.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gotext.go b/gotext.go
index 91d0eb2..29336b9 100644
--- a/gotext.go
+++ b/gotext.go
@@ -310,6 +310,9 @@ func GetDC(dom, str, ctx string, vars ...interface{}) string {
 
 	var tr string
 	for i, locale := range globalConfig.locales {
+		if !locale.hasDomain(dom) {
+			locale.AddDomain(dom)
+		}
 		if !locale.IsTranslatedDC(dom, str, ctx) && i < (len(globalConfig.locales)-1) {
 			continue
 		}
@@ -331,6 +334,9 @@ func GetNDC(dom, str, plural string, n int, ctx string, vars ...interface{}) str
 
 	var tr string
 	for i, locale := range globalConfig.locales {
+		if !locale.hasDomain(dom) {
+			locale.AddDomain(dom)
+		}
 		if !locale.IsTranslatedNDC(dom, str, n, ctx) && i < (len(globalConfig.locales)-1) {
 			continue
 		}
-- 
2.43.0


From 59f989ac857b2e7e326f3fc8c3baa25d8bd8a65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 24/46] fix: make IsTranslated agree with what the lookups
 serve

The singular variants asked for the form of n=1 rather than the singular text,
so under rules such as the Arabic one they denied translations, and package
lookups skipped the language. The package variants only consulted one locale
per language, ignored locales which are served from the base language or kept
in memory, and depended on the domain having been loaded by another call. A nil
translator made them panic.
---
 domain.go | 12 ++++++++++--
 gotext.go | 52 ++++++++++++++++++++++++++--------------------------
 locale.go | 20 ++++++++++++++------
 3 files changed, 50 insertions(+), 34 deletions(-)

diff --git a/domain.go b/domain.go
index f08f582..9a9605f 100644
--- a/domain.go
+++ b/domain.go
@@ -550,7 +550,11 @@ func (do *Domain) AppendNC(b []byte, str, plural string, n int, ctx string, vars
 
 // IsTranslated reports whether a string is translated
 func (do *Domain) IsTranslated(str string) bool {
-	return do.IsTranslatedN(str, 1)
+	do.trMutex.RLock()
+	defer do.trMutex.RUnlock()
+
+	tr, ok := do.translations[str]
+	return ok && tr.IsTranslated()
 }
 
 // IsTranslatedN reports whether a plural string is translated
@@ -570,7 +574,11 @@ func (do *Domain) IsTranslatedN(str string, n int) bool {
 
 // IsTranslatedC reports whether a context string is translated
 func (do *Domain) IsTranslatedC(str, ctx string) bool {
-	return do.IsTranslatedNC(str, 1, ctx)
+	do.trMutex.RLock()
+	defer do.trMutex.RUnlock()
+
+	tr, ok := do.contextTranslations[ctx][str]
+	return ok && tr.IsTranslated()
 }
 
 // IsTranslatedNC reports whether a plural context string is translated
diff --git a/gotext.go b/gotext.go
index 29336b9..2b5b9d7 100644
--- a/gotext.go
+++ b/gotext.go
@@ -349,7 +349,7 @@ func GetNDC(dom, str, plural string, n int, ctx string, vars ...interface{}) str
 // IsTranslated reports whether a string is translated in given languages.
 // When the langs argument is omitted, the output of GetLanguages is used.
 func IsTranslated(str string, langs ...string) bool {
-	return IsTranslatedND(GetDomain(), str, 1, langs...)
+	return IsTranslatedD(GetDomain(), str, langs...)
 }
 
 // IsTranslatedN reports whether a plural string is translated in given languages.
@@ -361,12 +361,22 @@ func IsTranslatedN(str string, n int, langs ...string) bool {
 // IsTranslatedD reports whether a domain string is translated in given languages.
 // When the langs argument is omitted, the output of GetLanguages is used.
 func IsTranslatedD(dom, str string, langs ...string) bool {
-	return IsTranslatedND(dom, str, 1, langs...)
+	return isTranslatedAny(dom, langs, func(locale *Locale) bool {
+		return locale.IsTranslatedD(dom, str)
+	})
 }
 
 // IsTranslatedND reports whether a plural domain string is translated in any of given languages.
 // When the langs argument is omitted, the output of GetLanguages is used.
 func IsTranslatedND(dom, str string, n int, langs ...string) bool {
+	return isTranslatedAny(dom, langs, func(locale *Locale) bool {
+		return locale.IsTranslatedND(dom, str, n)
+	})
+}
+
+// isTranslatedAny reports whether the given check holds for the locale of any of given languages,
+// which can be named as configured or as found in the library.
+func isTranslatedAny(dom string, langs []string, isTranslated func(*Locale) bool) bool {
 	if len(langs) == 0 {
 		langs = GetLanguages()
 	}
@@ -380,10 +390,15 @@ func IsTranslatedND(dom, str string, n int, langs ...string) bool {
 		lang = SimplifiedLocale(lang)
 
 		for _, supportedLocale := range globalConfig.locales {
-			if lang != supportedLocale.GetActualLanguage(dom) {
+			if lang != supportedLocale.GetLanguage() && lang != supportedLocale.GetActualLanguage(dom) {
 				continue
 			}
-			return supportedLocale.IsTranslatedND(dom, str, n)
+			if !supportedLocale.hasDomain(dom) {
+				supportedLocale.AddDomain(dom)
+			}
+			if isTranslated(supportedLocale) {
+				return true
+			}
 		}
 	}
 	return false
@@ -392,7 +407,7 @@ func IsTranslatedND(dom, str string, n int, langs ...string) bool {
 // IsTranslatedC reports whether a context string is translated in given languages.
 // When the langs argument is omitted, the output of GetLanguages is used.
 func IsTranslatedC(str, ctx string, langs ...string) bool {
-	return IsTranslatedNDC(GetDomain(), str, 1, ctx, langs...)
+	return IsTranslatedDC(GetDomain(), str, ctx, langs...)
 }
 
 // IsTranslatedNC reports whether a plural context string is translated in given languages.
@@ -404,30 +419,15 @@ func IsTranslatedNC(str string, n int, ctx string, langs ...string) bool {
 // IsTranslatedDC reports whether a domain context string is translated in given languages.
 // When the langs argument is omitted, the output of GetLanguages is used.
 func IsTranslatedDC(dom, str, ctx string, langs ...string) bool {
-	return IsTranslatedNDC(dom, str, 0, ctx, langs...)
+	return isTranslatedAny(dom, langs, func(locale *Locale) bool {
+		return locale.IsTranslatedDC(dom, str, ctx)
+	})
 }
 
 // IsTranslatedNDC reports whether a plural domain context string is translated in any of given languages.
 // When the langs argument is omitted, the output of GetLanguages is used.
 func IsTranslatedNDC(dom, str string, n int, ctx string, langs ...string) bool {
-	if len(langs) == 0 {
-		langs = GetLanguages()
-	}
-
-	loadLocales(false)
-
-	globalConfig.RLock()
-	defer globalConfig.RUnlock()
-
-	for _, lang := range langs {
-		lang = SimplifiedLocale(lang)
-
-		for _, locale := range globalConfig.locales {
-			if lang != locale.GetActualLanguage(dom) {
-				continue
-			}
-			return locale.IsTranslatedNDC(dom, str, n, ctx)
-		}
-	}
-	return false
+	return isTranslatedAny(dom, langs, func(locale *Locale) bool {
+		return locale.IsTranslatedNDC(dom, str, n, ctx)
+	})
 }
diff --git a/locale.go b/locale.go
index 2a984ac..6860bb1 100644
--- a/locale.go
+++ b/locale.go
@@ -376,7 +376,7 @@ func (l *Locale) GetTranslations() map[string]*Translation {
 
 // IsTranslated reports whether a string is translated
 func (l *Locale) IsTranslated(str string) bool {
-	return l.IsTranslatedND(l.GetDomain(), str, 1)
+	return l.IsTranslatedD(l.GetDomain(), str)
 }
 
 // IsTranslatedN reports whether a plural string is translated
@@ -386,7 +386,11 @@ func (l *Locale) IsTranslatedN(str string, n int) bool {
 
 // IsTranslatedD reports whether a domain string is translated
 func (l *Locale) IsTranslatedD(dom, str string) bool {
-	return l.IsTranslatedND(dom, str, 1)
+	l.RLock()
+	defer l.RUnlock()
+
+	translator, ok := l.Domains[dom]
+	return ok && translator != nil && translator.GetDomain().IsTranslated(str)
 }
 
 // IsTranslatedND reports whether a plural domain string is translated
@@ -398,7 +402,7 @@ func (l *Locale) IsTranslatedND(dom, str string, n int) bool {
 		return false
 	}
 	translator, ok := l.Domains[dom]
-	if !ok {
+	if !ok || translator == nil {
 		return false
 	}
 	return translator.GetDomain().IsTranslatedN(str, n)
@@ -406,7 +410,7 @@ func (l *Locale) IsTranslatedND(dom, str string, n int) bool {
 
 // IsTranslatedC reports whether a context string is translated
 func (l *Locale) IsTranslatedC(str, ctx string) bool {
-	return l.IsTranslatedNDC(l.GetDomain(), str, 1, ctx)
+	return l.IsTranslatedDC(l.GetDomain(), str, ctx)
 }
 
 // IsTranslatedNC reports whether a plural context string is translated
@@ -416,7 +420,11 @@ func (l *Locale) IsTranslatedNC(str string, n int, ctx string) bool {
 
 // IsTranslatedDC reports whether a domain context string is translated
 func (l *Locale) IsTranslatedDC(dom, str, ctx string) bool {
-	return l.IsTranslatedNDC(dom, str, 1, ctx)
+	l.RLock()
+	defer l.RUnlock()
+
+	translator, ok := l.Domains[dom]
+	return ok && translator != nil && translator.GetDomain().IsTranslatedC(str, ctx)
 }
 
 // IsTranslatedNDC reports whether a plural domain context string is translated
@@ -428,7 +436,7 @@ func (l *Locale) IsTranslatedNDC(dom string, str string, n int, ctx string) bool
 		return false
 	}
 	translator, ok := l.Domains[dom]
-	if !ok {
+	if !ok || translator == nil {
 		return false
 	}
 	return translator.GetDomain().IsTranslatedNC(str, n, ctx)
-- 
2.43.0


From 85a83ed3f19b8774f3e4754d84537d362445c8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 25/46] fix: report the language of the file which is loaded in
 GetActualLanguage

It preferred MO files, while AddDomain prefers PO files.
---
 locale.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/locale.go b/locale.go
index 6860bb1..76692b4 100644
--- a/locale.go
+++ b/locale.go
@@ -132,7 +132,7 @@ func (l *Locale) findExt(dom, ext string) string {
 func (l *Locale) GetActualLanguage(dom string) string {
 	l = l.location()
 
-	extensions := []string{"mo", "po"}
+	extensions := []string{"po", "mo"} // in the order of AddDomain
 	var fp string
 	for _, ext := range extensions {
 		// 'll' (or 'll_CC') exists, and it was specified as-is
-- 
2.43.0


From 31ae1098a01513a855080ec942f895517f27122c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 26/46] fix: treat %% as a literal percent sign in named
 formats

%%(name)s was taken for a placeholder following a percent sign.
---
 helper.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/helper.go b/helper.go
index 1e6a610..cffafa9 100644
--- a/helper.go
+++ b/helper.go
@@ -11,7 +11,8 @@ import (
 	"strings"
 )
 
-var re = regexp.MustCompile(`%\(([a-zA-Z0-9_]+)\)[.0-9]*[svTtbcdoqXxUeEfFgGp]`)
+// Named placeholders, or an escaped percent sign which is left alone
+var re = regexp.MustCompile(`%%|%\(([a-zA-Z0-9_]+)\)[.0-9]*[svTtbcdoqXxUeEfFgGp]`)
 
 // SimplifiedLocale simplified locale like " en_US"/"de_DE "/en_US.UTF-8/zh_CN/zh_TW/el_GR@euro/... to en_US, de_DE, zh_CN, el_GR...
 func SimplifiedLocale(lang string) string {
@@ -81,11 +82,17 @@ func reformatSprintf(f string) (string, []string) {
 
 	ord := []string{}
 	for _, v := range m {
+		if v[0] == "%%" {
+			continue
+		}
 		ord = append(ord, v[1])
 	}
 
 	pair := []int{0}
 	for _, v := range i {
+		if v[2] < 0 {
+			continue
+		}
 		pair = append(pair, v[2]-1)
 		pair = append(pair, v[3]+1)
 	}
-- 
2.43.0


From 382c1fe376f939e0f57274280d1e927cbe4f9b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 27/46] fix: skip calls with a non-literal domain in xgotext

They crashed the extraction with a nil pointer dereference.
---
 cli/xgotext/parser/gofile.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cli/xgotext/parser/gofile.go b/cli/xgotext/parser/gofile.go
index 9e93dbc..0c42507 100644
--- a/cli/xgotext/parser/gofile.go
+++ b/cli/xgotext/parser/gofile.go
@@ -155,6 +155,11 @@ func (g *GoFile) ParseGetter(def GetterDef, args []*ast.BasicLit, pos string) {
 	// get domain
 	var domain string
 	if def.Domain != -1 {
+		// domain must be a string
+		if args[def.Domain] == nil || args[def.Domain].Kind != token.STRING {
+			log.Printf("ERR: Unsupported call at %s (Domain not a string)", pos)
+			return
+		}
 		domain, _ = strconv.Unquote(args[def.Domain].Value)
 	}
 
-- 
2.43.0


From dcfafa5afd070214b126ee21122889fac7acfcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 28/46] fix: write contexts as PO strings in xgotext

The Go literal was copied as is, which is no valid PO string when it is a raw
one, and made one context written in two ways two contexts.
---
 cli/xgotext/parser/gofile.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/xgotext/parser/gofile.go b/cli/xgotext/parser/gofile.go
index 0c42507..2e086cc 100644
--- a/cli/xgotext/parser/gofile.go
+++ b/cli/xgotext/parser/gofile.go
@@ -189,7 +189,8 @@ func (g *GoFile) ParseGetter(def GetterDef, args []*ast.BasicLit, pos string) {
 			log.Printf("ERR: Unsupported call at %s (Context not a string)", pos)
 			return
 		}
-		trans.Context = args[def.Context].Value
+		context, _ := strconv.Unquote(args[def.Context].Value)
+		trans.Context = formatMultiline(fixSpecialChars(context))
 	}
 
 	g.Data.AddTranslation(domain, &trans)
-- 
2.43.0


From 25cfbe8e9e46135136a8502b354fe5765bb7492c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 29/46] fix: keep the plural ID when merging messages in
 xgotext

It was lost when the singular call came first.
---
 cli/xgotext/parser/domain.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cli/xgotext/parser/domain.go b/cli/xgotext/parser/domain.go
index 35146ad..d40d584 100644
--- a/cli/xgotext/parser/domain.go
+++ b/cli/xgotext/parser/domain.go
@@ -131,6 +131,9 @@ func (d *Domain) AddTranslation(translation *Translation) {
 	if translation.Context == "" {
 		if t, ok := d.Translations[translation.MsgID]; ok {
 			t.AddLocations(translation.SourceLocations)
+			if t.MsgIDPlural == "" {
+				t.MsgIDPlural = translation.MsgIDPlural
+			}
 		} else {
 			d.Translations[translation.MsgID] = translation
 		}
@@ -141,6 +144,9 @@ func (d *Domain) AddTranslation(translation *Translation) {
 
 		if t, ok := d.ContextTranslations[translation.Context][translation.MsgID]; ok {
 			t.AddLocations(translation.SourceLocations)
+			if t.MsgIDPlural == "" {
+				t.MsgIDPlural = translation.MsgIDPlural
+			}
 		} else {
 			d.ContextTranslations[translation.Context][translation.MsgID] = translation
 		}
-- 
2.43.0


From 6f50f17d6f8eb14a8ddf5fc654b8bf7d5d81cc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 30/46] fix: exclude whole directory names only in xgotext

Directories whose name starts like an excluded one were skipped as well, and
an empty list excluded everything.
---
 cli/xgotext/parser/dir/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cli/xgotext/parser/dir/parser.go b/cli/xgotext/parser/dir/parser.go
index 9f92c27..2125c01 100644
--- a/cli/xgotext/parser/dir/parser.go
+++ b/cli/xgotext/parser/dir/parser.go
@@ -50,7 +50,11 @@ func ParseDirRec(dirPath string, exclude []string, data *parser.DomainMap, verbo
 			// skip directory if in exclude list
 			subDir, _ := filepath.Rel(dirPath, path)
 			for _, d := range exclude {
-				if strings.HasPrefix(subDir, d) {
+				if d == "" {
+					continue
+				}
+				d = filepath.Clean(d)
+				if subDir == d || strings.HasPrefix(subDir, d+string(filepath.Separator)) {
 					return nil
 				}
 			}
-- 
2.43.0


From 2a660bcfa1e3ed456b8f676c8db11565c065bd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 31/46] fix: let ParsePkgTree be called more than once

Packages visited by an earlier call were skipped.
---
 cli/xgotext/parser/pkg-tree/golang.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cli/xgotext/parser/pkg-tree/golang.go b/cli/xgotext/parser/pkg-tree/golang.go
index d66e351..aae8994 100644
--- a/cli/xgotext/parser/pkg-tree/golang.go
+++ b/cli/xgotext/parser/pkg-tree/golang.go
@@ -28,6 +28,9 @@ func pkgParser(dirPath, basePath string, data *parser.DomainMap, verbose bool) e
 		return err
 	}
 
+	// Packages seen in an earlier run have to be visited again
+	pkgCache = make(map[string]*packages.Package)
+
 	for _, pkg := range filterPkgs(mainPkg) {
 		if verbose {
 			fmt.Println(pkg.ID)
-- 
2.43.0


From 770afc746e2dd0dfe77a1f615e42650b7c90546c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:51 +0000
Subject: [PATCH 32/46] fix: keep a complete PO entry when a truncated one has
 the same msgid

---
 po.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/po.go b/po.go
index 352b07f..d1fe9a1 100644
--- a/po.go
+++ b/po.go
@@ -302,8 +302,8 @@ func (po *Po) saveBuffer() {
 		// Drop an entry whose msgctxt or msgid is not known
 		po.domain.badBuffer = false
 		po.domain.ctxBuffer = ""
-	} else if po.domain.trBuffer.ID == "" && len(po.domain.trBuffer.Trs) == 0 {
-		// Nothing to save, and nothing to overwrite the header entry with
+	} else if len(po.domain.trBuffer.Trs) == 0 && (po.domain.trBuffer.ID == "" || po.isBufferStored()) {
+		// Nothing to save, and nothing to overwrite the header or a complete entry with
 	} else if po.domain.ctxBuffer == "" {
 		// With no context...
 		po.domain.translations[po.domain.trBuffer.ID] = po.domain.trBuffer
@@ -328,6 +328,16 @@ func (po *Po) saveBuffer() {
 	}
 }
 
+// isBufferStored reports whether there is an entry for the msgid and context buffers
+func (po *Po) isBufferStored() bool {
+	stored := po.domain.translations
+	if po.domain.ctxBuffer != "" {
+		stored = po.domain.contextTranslations[po.domain.ctxBuffer]
+	}
+	_, ok := stored[po.domain.trBuffer.ID]
+	return ok
+}
+
 // Either preserves comments before the first "msgid", for later round-trip.
 // Or preserves source references for a given translation.
 func (po *Po) parseComment(l string, state parseState) {
-- 
2.43.0


From c258c2d082ed4110c8c4f34d4e7fca28c26ab120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:08 +0000
Subject: [PATCH 33/46] fix: do not attach references of a damaged PO entry to
 the next one

---
 po.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/po.go b/po.go
index d1fe9a1..1e16a28 100644
--- a/po.go
+++ b/po.go
@@ -375,6 +375,9 @@ func (po *Po) parseID(l string, state parseState) {
 	// Save current Translation buffer.
 	po.saveBuffer()
 
+	// The references seen so far are in the new buffer, and not for the next entry
+	po.domain.refBuffer = ""
+
 	// A context only applies to the msgid next to it
 	if state != msgCtxt {
 		po.domain.ctxBuffer = ""
-- 
2.43.0


From 92b73093b741205326721e0513df55cf0906dad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:03 +0000
Subject: [PATCH 34/46] fix: keep language and plural rule headers which a
 later text does not state

---
 domain.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/domain.go b/domain.go
index 9a9605f..5a9768c 100644
--- a/domain.go
+++ b/domain.go
@@ -183,16 +183,16 @@ func (do *Domain) parseHeaders() {
 		do.Headers.Add(key, value)
 	}
 
-	// Get/save needed headers
-	do.Language = do.Headers.Get(languageKey)
-	do.PluralForms = do.Headers.Get(pluralFormsKey)
-
-	// Parse Plural-Forms formula
-	if do.PluralForms == "" {
+	// Get/save needed headers, the ones not found keep the value of an earlier Parse
+	if found[languageKey] {
+		do.Language = do.Headers.Get(languageKey)
+	}
+	if !found[pluralFormsKey] {
 		return
 	}
+	do.PluralForms = do.Headers.Get(pluralFormsKey)
 
-	// Forget the rule of an earlier Parse
+	// Parse Plural-Forms formula, forgetting the rule of an earlier Parse
 	do.plural = ""
 	do.pluralforms = nil
 
-- 
2.43.0


From ae00314b1c4f1dfdc7d91b23f1e9f1408edfdf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:32 +0000
Subject: [PATCH 35/46] fix: replace headers of an earlier text in any letter
 case

---
 domain.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/domain.go b/domain.go
index 5a9768c..669b40e 100644
--- a/domain.go
+++ b/domain.go
@@ -152,7 +152,7 @@ func (do *Domain) parseHeaders() {
 	languageKey := "Language"
 	pluralFormsKey := "Plural-Forms"
 
-	// Header keys found, whose previous values (of an earlier Parse) are replaced
+	// Header keys found in any letter case, whose previous values (of an earlier Parse) are replaced
 	found := make(map[string]bool)
 
 	rawLines := strings.Split(raw, "\n")
@@ -174,9 +174,13 @@ func (do *Domain) parseHeaders() {
 			pluralFormsKey = key
 		}
 
-		if !found[key] {
-			found[key] = true
-			do.Headers.Del(key)
+		if !found[lowerKey] {
+			found[lowerKey] = true
+			for previous := range do.Headers {
+				if strings.ToLower(previous) == lowerKey {
+					do.Headers.Del(previous)
+				}
+			}
 		}
 
 		value := strings.TrimSpace(line[colonIdx+1:])
@@ -184,10 +188,10 @@ func (do *Domain) parseHeaders() {
 	}
 
 	// Get/save needed headers, the ones not found keep the value of an earlier Parse
-	if found[languageKey] {
+	if found[strings.ToLower(languageKey)] {
 		do.Language = do.Headers.Get(languageKey)
 	}
-	if !found[pluralFormsKey] {
+	if !found[strings.ToLower(pluralFormsKey)] {
 		return
 	}
 	do.PluralForms = do.Headers.Get(pluralFormsKey)
-- 
2.43.0


From 7aad55dec48cce15ca704e8364d6cfe86fb24399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:45 +0000
Subject: [PATCH 36/46] fix: take the languages of a translated-query from the
 configuration it looks in

---
 gotext.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gotext.go b/gotext.go
index 2b5b9d7..231e5a9 100644
--- a/gotext.go
+++ b/gotext.go
@@ -377,15 +377,15 @@ func IsTranslatedND(dom, str string, n int, langs ...string) bool {
 // isTranslatedAny reports whether the given check holds for the locale of any of given languages,
 // which can be named as configured or as found in the library.
 func isTranslatedAny(dom string, langs []string, isTranslated func(*Locale) bool) bool {
-	if len(langs) == 0 {
-		langs = GetLanguages()
-	}
-
 	loadLocales(false)
 
 	globalConfig.RLock()
 	defer globalConfig.RUnlock()
 
+	if len(langs) == 0 {
+		langs = globalConfig.languages
+	}
+
 	for _, lang := range langs {
 		lang = SimplifiedLocale(lang)
 
-- 
2.43.0


From e619f6e157af1d59ae5abfbfa86fe71c9c464b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:24 +0000
Subject: [PATCH 37/46] fix: apply a package configuration and load its locales
 under one lock

---
 gotext.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/gotext.go b/gotext.go
index 231e5a9..4911f90 100644
--- a/gotext.go
+++ b/gotext.go
@@ -67,7 +67,14 @@ func init() {
 // It is called when trying to use Get or GetD methods.
 func loadLocales(rebuildCache bool) {
 	globalConfig.Lock()
+	defer globalConfig.Unlock()
+
+	lockedLoadLocales(rebuildCache)
+}
 
+// lockedLoadLocales is loadLocales for callers holding the lock, so that nobody sees a changed
+// configuration without the locales loaded for it
+func lockedLoadLocales(rebuildCache bool) {
 	if len(globalConfig.locales) == 0 || rebuildCache {
 		var locales []*Locale
 		for _, language := range globalConfig.languages {
@@ -82,8 +89,6 @@ func loadLocales(rebuildCache bool) {
 		}
 		locale.SetDomain(globalConfig.domain)
 	}
-
-	globalConfig.Unlock()
 }
 
 // GetDomain is the domain getter for the package configuration
@@ -106,15 +111,16 @@ func GetDomain() string {
 // It reloads the corresponding Translation file.
 func SetDomain(dom string) {
 	globalConfig.Lock()
+	defer globalConfig.Unlock()
+
 	globalConfig.domain = dom
 	if globalConfig.locales != nil {
 		for _, locale := range globalConfig.locales {
 			locale.SetDomain(dom)
 		}
 	}
-	globalConfig.Unlock()
 
-	loadLocales(true)
+	lockedLoadLocales(true)
 }
 
 // GetLanguage returns the language gotext will translate into.
@@ -139,14 +145,15 @@ func GetLanguages() []string {
 // It reloads the corresponding Translation file.
 func SetLanguage(lang string) {
 	globalConfig.Lock()
+	defer globalConfig.Unlock()
+
 	var languages []string
 	for _, language := range strings.Split(lang, ":") {
 		languages = append(languages, SimplifiedLocale(language))
 	}
 	globalConfig.languages = languages
-	globalConfig.Unlock()
 
-	loadLocales(true)
+	lockedLoadLocales(true)
 }
 
 // GetLibrary is the library getter for the package configuration
@@ -162,10 +169,11 @@ func GetLibrary() string {
 // It reloads the corresponding Translation file.
 func SetLibrary(lib string) {
 	globalConfig.Lock()
+	defer globalConfig.Unlock()
+
 	globalConfig.library = lib
-	globalConfig.Unlock()
 
-	loadLocales(true)
+	lockedLoadLocales(true)
 }
 
 // GetLocales returns the locales that have been set for the package configuration.
@@ -217,6 +225,8 @@ func SetStorage(locale *Locale) {
 // as using each setter will introduce a I/O overhead because the Translation file will be loaded after each set.
 func Configure(lib, lang, dom string) {
 	globalConfig.Lock()
+	defer globalConfig.Unlock()
+
 	globalConfig.library = lib
 	var languages []string
 	for _, language := range strings.Split(lang, ":") {
@@ -224,9 +234,8 @@ func Configure(lib, lang, dom string) {
 	}
 	globalConfig.languages = languages
 	globalConfig.domain = dom
-	globalConfig.Unlock()
 
-	loadLocales(true)
+	lockedLoadLocales(true)
 }
 
 // Get uses the default domain globally set to return the corresponding Translation of a given string.
-- 
2.43.0


From 1c60a2ff7b43d4e4556600e5b4252e7b10deb898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:40 +0000
Subject: [PATCH 38/46] fix: read a Locale handed to SetLocales under its lock

---
 gotext.go | 11 +++++++----
 locale.go |  5 +++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/gotext.go b/gotext.go
index 4911f90..e154d80 100644
--- a/gotext.go
+++ b/gotext.go
@@ -202,12 +202,15 @@ func SetLocales(locales []*Locale) {
 	defer globalConfig.Unlock()
 
 	globalConfig.locales = locales
-	globalConfig.library = locales[0].path
-	globalConfig.domain = locales[0].defaultDomain
 
 	var languages []string
-	for _, locale := range locales {
-		languages = append(languages, locale.lang)
+	for i, locale := range locales {
+		loc := locale.location()
+		if i == 0 {
+			globalConfig.library = loc.path
+			globalConfig.domain = loc.defaultDomain
+		}
+		languages = append(languages, loc.lang)
 	}
 	globalConfig.languages = languages
 }
diff --git a/locale.go b/locale.go
index 76692b4..d93f493 100644
--- a/locale.go
+++ b/locale.go
@@ -90,11 +90,12 @@ func NewLocaleFSWithPath(l string, filesystem fs.FS, p string) *Locale {
 	return loc
 }
 
-// location returns a copy of where to find the files of the locale, which UnmarshalBinary can change
+// location returns a copy of where to find the files of the locale and of its default domain, which
+// UnmarshalBinary can change
 func (l *Locale) location() *Locale {
 	l.RLock()
 	defer l.RUnlock()
-	return &Locale{path: l.path, lang: l.lang, fs: l.fs}
+	return &Locale{path: l.path, lang: l.lang, defaultDomain: l.defaultDomain, fs: l.fs}
 }
 
 func (l *Locale) findExt(dom, ext string) string {
-- 
2.43.0


From b72dcaa45e43117c2d05a2e6856b0069daa4ab7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:18 +0000
Subject: [PATCH 39/46] fix: resolve receivers in packages named like one of
 their imports in xgotext

---
 cli/xgotext/parser/dir/golang.go      | 3 ++-
 cli/xgotext/parser/pkg-tree/golang.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cli/xgotext/parser/dir/golang.go b/cli/xgotext/parser/dir/golang.go
index ec924ee..cf2b76c 100644
--- a/cli/xgotext/parser/dir/golang.go
+++ b/cli/xgotext/parser/dir/golang.go
@@ -52,7 +52,8 @@ func goParser(dirPath, basePath string, data *parser.DomainMap) error {
 				FileSet:  fileSet,
 
 				ImportedPackages: map[string]*packages.Package{
-					pkgs[0].Name: pkgs[0],
+					// no import has the name of a keyword
+					"package": pkgs[0],
 				},
 			},
 		}
diff --git a/cli/xgotext/parser/pkg-tree/golang.go b/cli/xgotext/parser/pkg-tree/golang.go
index aae8994..65def9c 100644
--- a/cli/xgotext/parser/pkg-tree/golang.go
+++ b/cli/xgotext/parser/pkg-tree/golang.go
@@ -44,7 +44,8 @@ func pkgParser(dirPath, basePath string, data *parser.DomainMap, verbose bool) e
 					FileSet:  pkg.Fset,
 
 					ImportedPackages: map[string]*packages.Package{
-						pkg.Name: pkg,
+						// no import has the name of a keyword
+						"package": pkg,
 					},
 				},
 			}
-- 
2.43.0


From fa99aa9754a633c64670e25b4893c1871a00ed1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:28 +0000
Subject: [PATCH 40/46] fix: skip header lookups in xgotext

---
 cli/xgotext/parser/gofile.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/xgotext/parser/gofile.go b/cli/xgotext/parser/gofile.go
index 2e086cc..590221b 100644
--- a/cli/xgotext/parser/gofile.go
+++ b/cli/xgotext/parser/gofile.go
@@ -89,6 +89,10 @@ func (g *GoFile) CheckType(rawType types.Type) bool {
 		if t.Obj().Pkg() == nil || t.Obj().Pkg().Path() != "github.com/leonelquinteros/gotext" {
 			return false
 		}
+		// HeaderMap.Get looks up a header of a file
+		if t.Obj().Name() == "HeaderMap" {
+			return false
+		}
 
 	case *types.Alias:
 		return g.CheckType(t.Rhs())
-- 
2.43.0


From 8d1e7534a16852bf1c8167d194c852a99a3dbbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:01 +0000
Subject: [PATCH 41/46] fix: find package calls whose import cannot be loaded
 from the input directory in xgotext

---
 cli/xgotext/parser/gofile.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cli/xgotext/parser/gofile.go b/cli/xgotext/parser/gofile.go
index 590221b..8fb3ce1 100644
--- a/cli/xgotext/parser/gofile.go
+++ b/cli/xgotext/parser/gofile.go
@@ -120,7 +120,15 @@ func (g *GoFile) InspectCallExpr(n *ast.CallExpr) {
 	receiverType := g.getExprType(expr.X)
 	if receiverType == nil {
 		// Fallback for package calls if types didn't resolve it
-		if id, ok := expr.X.(*ast.Ident); ok && id.Obj == nil {
+		id, ok := expr.X.(*ast.Ident)
+		if !ok {
+			return
+		}
+		if pkgName, ok := g.GetType(id).(*types.PkgName); ok {
+			if pkgName.Imported().Path() != "github.com/leonelquinteros/gotext" {
+				return
+			}
+		} else if id.Obj == nil {
 			pkg, ok := g.ImportedPackages[id.Name]
 			if !ok || pkg.PkgPath != "github.com/leonelquinteros/gotext" {
 				return
-- 
2.43.0


From 8d57113c8d9d61bb40dbd918d658c0660b98a3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:50 +0000
Subject: [PATCH 42/46] fix: select the plural form of counts beyond 32 bits by
 their last digits

A count which does not fit 32 bits was cut off, so that 4294967297 got the form of 1.
---
 domain.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/domain.go b/domain.go
index 669b40e..298cdd6 100644
--- a/domain.go
+++ b/domain.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/gob"
 	"fmt"
+	"math"
 	"sort"
 	"strconv"
 	"strings"
@@ -131,6 +132,10 @@ func (do *Domain) lockedPluralForm(n int) int {
 		}
 		return 1
 	}
+	if n > 0 && uint64(n) > math.MaxUint32 {
+		// Keep the last digits, which rules look at, in a number which fits
+		n = n%1000000000 + 1000000000
+	}
 	return do.pluralforms.Eval(uint32(n))
 }
 
-- 
2.43.0


From 26d4cc5ffb9094cff257e8317f53f39ae2393a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:07 +0000
Subject: [PATCH 43/46] fix: bound the memory which overlapping MO strings take

---
 mo.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mo.go b/mo.go
index 57b07a8..2587088 100644
--- a/mo.go
+++ b/mo.go
@@ -293,6 +293,9 @@ func (mo *Mo) Parse(buf []byte) {
 	mo.Headers = mo.domain.Headers
 }
 
+// maxOverlap limits how much longer than the data all of its strings, which can overlap, may be together
+const maxOverlap = 64
+
 // validTable reports whether a table of count string descriptors at the given offset,
 // and every string it describes, lie within buf
 func validTable(buf []byte, bo binary.ByteOrder, count, offset uint32) bool {
@@ -300,14 +303,16 @@ func validTable(buf []byte, bo binary.ByteOrder, count, offset uint32) bool {
 	if uint64(offset)+8*uint64(count) > size {
 		return false
 	}
+	total := uint64(0)
 	for i := uint64(0); i < uint64(count); i++ {
 		entry := buf[uint64(offset)+8*i:]
 		length, start := uint64(bo.Uint32(entry)), uint64(bo.Uint32(entry[4:]))
 		if start >= size || start+length > size {
 			return false
 		}
+		total += length
 	}
-	return true
+	return total <= maxOverlap*size
 }
 
 func (mo *Mo) addTranslation(msgid, msgstr []byte) {
-- 
2.43.0


From d5a25760a06a1a3bf60aa1924d23643d39ed7ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:37:22 +0000
Subject: [PATCH 44/46] fix: format a catalog's texts without holding its lock,
 so that arguments can look something up themselves

---
 domain.go | 117 +++++++++++++++++++-----------------------------------
 1 file changed, 40 insertions(+), 77 deletions(-)

diff --git a/domain.go b/domain.go
index 298cdd6..72e243c 100644
--- a/domain.go
+++ b/domain.go
@@ -306,35 +306,30 @@ func (do *Domain) Set(id, str string) {
 
 // Get retrieves the Translation for the given string.
 func (do *Domain) Get(str string, vars ...interface{}) string {
+	return FormatString(do.text(str), vars...)
+}
+
+// text is the text to format for the given string. Formatting can call back into the domain
+// and is left to callers without a lock.
+func (do *Domain) text(str string) string {
 	// Sync read
 	do.trMutex.RLock()
 	defer do.trMutex.RUnlock()
 
 	if do.translations != nil {
 		if _, ok := do.translations[str]; ok {
-			return FormatString(do.translations[str].Get(), vars...)
+			return do.translations[str].Get()
 		}
 	}
 
 	// Return the same we received by default
-	return FormatString(str, vars...)
+	return str
 }
 
 // Append retrieves the Translation for the given string.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (do *Domain) Append(b []byte, str string, vars ...interface{}) []byte {
-	// Sync read
-	do.trMutex.RLock()
-	defer do.trMutex.RUnlock()
-
-	if do.translations != nil {
-		if _, ok := do.translations[str]; ok {
-			return Appendf(b, do.translations[str].Get(), vars...)
-		}
-	}
-
-	// Return the same we received by default
-	return Appendf(b, str, vars...)
+	return Appendf(b, do.text(str), vars...)
 }
 
 // SetN sets the (N)th plural form for the given string
@@ -364,6 +359,12 @@ func (do *Domain) SetN(id, plural string, n int, str string) {
 // GetN retrieves the (N)th plural form of Translation for the given string.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (do *Domain) GetN(str, plural string, n int, vars ...interface{}) string {
+	return FormatString(do.textN(str, plural, n), vars...)
+}
+
+// textN is the text to format for the given string and plural form. Formatting can call back into the domain
+// and is left to callers without a lock.
+func (do *Domain) textN(str, plural string, n int) string {
 	// Sync read
 	do.trMutex.RLock()
 	defer do.trMutex.RUnlock()
@@ -371,40 +372,23 @@ func (do *Domain) GetN(str, plural string, n int, vars ...interface{}) string {
 	if do.translations != nil {
 		if _, ok := do.translations[str]; ok {
 			if do.missingForm(do.translations[str], n) {
-				return FormatString(plural, vars...)
+				return plural
 			}
-			return FormatString(do.translations[str].GetN(do.pluralForm(n)), vars...)
+			return do.translations[str].GetN(do.pluralForm(n))
 		}
 	}
 
 	// Parse plural forms to distinguish between plural and singular
 	if do.pluralForm(n) == 0 {
-		return FormatString(str, vars...)
+		return str
 	}
-	return FormatString(plural, vars...)
+	return plural
 }
 
 // AppendN adds the (N)th plural form of Translation for the given string.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (do *Domain) AppendN(b []byte, str, plural string, n int, vars ...interface{}) []byte {
-	// Sync read
-	do.trMutex.RLock()
-	defer do.trMutex.RUnlock()
-
-	if do.translations != nil {
-		if _, ok := do.translations[str]; ok {
-			if do.missingForm(do.translations[str], n) {
-				return Appendf(b, plural, vars...)
-			}
-			return Appendf(b, do.translations[str].GetN(do.pluralForm(n)), vars...)
-		}
-	}
-
-	// Parse plural forms to distinguish between plural and singular
-	if do.pluralForm(n) == 0 {
-		return Appendf(b, str, vars...)
-	}
-	return Appendf(b, plural, vars...)
+	return Appendf(b, do.textN(str, plural, n), vars...)
 }
 
 // SetC sets the translation for the given string in the given context
@@ -436,6 +420,12 @@ func (do *Domain) SetC(id, ctx, str string) {
 // GetC retrieves the corresponding Translation for a given string in the given context.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (do *Domain) GetC(str, ctx string, vars ...interface{}) string {
+	return FormatString(do.textC(str, ctx), vars...)
+}
+
+// textC is the text to format for the given string and context. Formatting can call back into the domain
+// and is left to callers without a lock.
+func (do *Domain) textC(str, ctx string) string {
 	do.trMutex.RLock()
 	defer do.trMutex.RUnlock()
 
@@ -443,34 +433,20 @@ func (do *Domain) GetC(str, ctx string, vars ...interface{}) string {
 		if _, ok := do.contextTranslations[ctx]; ok {
 			if do.contextTranslations[ctx] != nil {
 				if _, ok := do.contextTranslations[ctx][str]; ok {
-					return FormatString(do.contextTranslations[ctx][str].Get(), vars...)
+					return do.contextTranslations[ctx][str].Get()
 				}
 			}
 		}
 	}
 
 	// Return the string we received by default
-	return FormatString(str, vars...)
+	return str
 }
 
 // AppendC retrieves the corresponding Translation for a given string in the given context.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (do *Domain) AppendC(b []byte, str, ctx string, vars ...interface{}) []byte {
-	do.trMutex.RLock()
-	defer do.trMutex.RUnlock()
-
-	if do.contextTranslations != nil {
-		if _, ok := do.contextTranslations[ctx]; ok {
-			if do.contextTranslations[ctx] != nil {
-				if _, ok := do.contextTranslations[ctx][str]; ok {
-					return Appendf(b, do.contextTranslations[ctx][str].Get(), vars...)
-				}
-			}
-		}
-	}
-
-	// Return the string we received by default
-	return Appendf(b, str, vars...)
+	return Appendf(b, do.textC(str, ctx), vars...)
 }
 
 // SetNC sets the (N)th plural form for the given string in the given context
@@ -510,6 +486,12 @@ func (do *Domain) SetNC(id, plural, ctx string, n int, str string) {
 // GetNC retrieves the (N)th plural form of Translation for the given string in the given context.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (do *Domain) GetNC(str, plural string, n int, ctx string, vars ...interface{}) string {
+	return FormatString(do.textNC(str, plural, n, ctx), vars...)
+}
+
+// textNC is the text to format for the given string, plural form and context. Formatting can call back into the domain
+// and is left to callers without a lock.
+func (do *Domain) textNC(str, plural string, n int, ctx string) string {
 	do.trMutex.RLock()
 	defer do.trMutex.RUnlock()
 
@@ -518,43 +500,24 @@ func (do *Domain) GetNC(str, plural string, n int, ctx string, vars ...interface
 			if do.contextTranslations[ctx] != nil {
 				if _, ok := do.contextTranslations[ctx][str]; ok {
 					if do.missingForm(do.contextTranslations[ctx][str], n) {
-						return FormatString(plural, vars...)
+						return plural
 					}
-					return FormatString(do.contextTranslations[ctx][str].GetN(do.pluralForm(n)), vars...)
+					return do.contextTranslations[ctx][str].GetN(do.pluralForm(n))
 				}
 			}
 		}
 	}
 
 	if n == 1 {
-		return FormatString(str, vars...)
+		return str
 	}
-	return FormatString(plural, vars...)
+	return plural
 }
 
 // AppendNC retrieves the (N)th plural form of Translation for the given string in the given context.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (do *Domain) AppendNC(b []byte, str, plural string, n int, ctx string, vars ...interface{}) []byte {
-	do.trMutex.RLock()
-	defer do.trMutex.RUnlock()
-
-	if do.contextTranslations != nil {
-		if _, ok := do.contextTranslations[ctx]; ok {
-			if do.contextTranslations[ctx] != nil {
-				if _, ok := do.contextTranslations[ctx][str]; ok {
-					if do.missingForm(do.contextTranslations[ctx][str], n) {
-						return Appendf(b, plural, vars...)
-					}
-					return Appendf(b, do.contextTranslations[ctx][str].GetN(do.pluralForm(n)), vars...)
-				}
-			}
-		}
-	}
-
-	if n == 1 {
-		return Appendf(b, str, vars...)
-	}
-	return Appendf(b, plural, vars...)
+	return Appendf(b, do.textNC(str, plural, n, ctx), vars...)
 }
 
 // IsTranslated reports whether a string is translated
-- 
2.43.0


From 0fd1b91c6cc3f44b4e02687c028a26a4c1453982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:37:22 +0000
Subject: [PATCH 45/46] fix: format a Locale's texts without holding its lock,
 so that arguments can look something up themselves

---
 locale.go | 56 ++++++++++++++++---------------------------------------
 1 file changed, 16 insertions(+), 40 deletions(-)

diff --git a/locale.go b/locale.go
index d93f493..9a25ea8 100644
--- a/locale.go
+++ b/locale.go
@@ -233,6 +233,14 @@ func (l *Locale) hasDomain(dom string) bool {
 	return ok
 }
 
+// translator returns the translator of the domain, nil if there is none. Lookups call it without the lock, as
+// formatting can call back into the Locale.
+func (l *Locale) translator(dom string) Translator {
+	l.RLock()
+	defer l.RUnlock()
+	return l.Domains[dom]
+}
+
 // GetDomain is the domain getter for Locale configuration
 func (l *Locale) GetDomain() string {
 	l.RLock()
@@ -271,16 +279,8 @@ func (l *Locale) GetN(str, plural string, n int, vars ...interface{}) string {
 // GetD returns the corresponding Translation in the given domain for the given string.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (l *Locale) GetD(dom, str string, vars ...interface{}) string {
-	// Sync read
-	l.RLock()
-	defer l.RUnlock()
-
-	if l.Domains != nil {
-		if _, ok := l.Domains[dom]; ok {
-			if l.Domains[dom] != nil {
-				return l.Domains[dom].Get(str, vars...)
-			}
-		}
+	if tr := l.translator(dom); tr != nil {
+		return tr.Get(str, vars...)
 	}
 
 	return FormatString(str, vars...)
@@ -289,16 +289,8 @@ func (l *Locale) GetD(dom, str string, vars ...interface{}) string {
 // GetND retrieves the (N)th plural form of Translation in the given domain for the given string.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (l *Locale) GetND(dom, str, plural string, n int, vars ...interface{}) string {
-	// Sync read
-	l.RLock()
-	defer l.RUnlock()
-
-	if l.Domains != nil {
-		if _, ok := l.Domains[dom]; ok {
-			if l.Domains[dom] != nil {
-				return l.Domains[dom].GetN(str, plural, n, vars...)
-			}
-		}
+	if tr := l.translator(dom); tr != nil {
+		return tr.GetN(str, plural, n, vars...)
 	}
 
 	// Use western default rule (plural > 1) to handle missing domain default result.
@@ -323,16 +315,8 @@ func (l *Locale) GetNC(str, plural string, n int, ctx string, vars ...interface{
 // GetDC returns the corresponding Translation in the given domain for the given string in the given context.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (l *Locale) GetDC(dom, str, ctx string, vars ...interface{}) string {
-	// Sync read
-	l.RLock()
-	defer l.RUnlock()
-
-	if l.Domains != nil {
-		if _, ok := l.Domains[dom]; ok {
-			if l.Domains[dom] != nil {
-				return l.Domains[dom].GetC(str, ctx, vars...)
-			}
-		}
+	if tr := l.translator(dom); tr != nil {
+		return tr.GetC(str, ctx, vars...)
 	}
 
 	return FormatString(str, vars...)
@@ -341,16 +325,8 @@ func (l *Locale) GetDC(dom, str, ctx string, vars ...interface{}) string {
 // GetNDC retrieves the (N)th plural form of Translation in the given domain for the given string in the given context.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (l *Locale) GetNDC(dom, str, plural string, n int, ctx string, vars ...interface{}) string {
-	// Sync read
-	l.RLock()
-	defer l.RUnlock()
-
-	if l.Domains != nil {
-		if _, ok := l.Domains[dom]; ok {
-			if l.Domains[dom] != nil {
-				return l.Domains[dom].GetNC(str, plural, n, ctx, vars...)
-			}
-		}
+	if tr := l.translator(dom); tr != nil {
+		return tr.GetNC(str, plural, n, ctx, vars...)
 	}
 
 	// Use western default rule (plural > 1) to handle missing domain default result.
-- 
2.43.0


From 97076ffb299b07ddc82a092dd093462636cb5f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:37:26 +0000
Subject: [PATCH 46/46] fix: format the package's texts without holding its
 locks, so that arguments can look something up themselves

---
 gotext.go | 96 +++++++++++++++++++++----------------------------------
 1 file changed, 36 insertions(+), 60 deletions(-)

diff --git a/gotext.go b/gotext.go
index e154d80..80a7585 100644
--- a/gotext.go
+++ b/gotext.go
@@ -253,50 +253,49 @@ func GetN(str, plural string, n int, vars ...interface{}) string {
 	return GetND(GetDomain(), str, plural, n, vars...)
 }
 
-// GetD returns the corresponding Translation in the given domain for a given string.
-// Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
-func GetD(dom, str string, vars ...interface{}) string {
+// translatingLocale returns the first locale for which isTranslated holds, or else the last one, with the
+// domain loaded. Lookups use it without the lock, as formatting can call back into the package.
+func translatingLocale(dom string, isTranslated func(*Locale) bool) *Locale {
 	// Try to load default package Locales
 	loadLocales(false)
 
 	globalConfig.RLock()
 	defer globalConfig.RUnlock()
 
-	var tr string
 	for i, locale := range globalConfig.locales {
 		if !locale.hasDomain(dom) {
 			locale.AddDomain(dom)
 		}
-		if !locale.IsTranslatedD(dom, str) && i < (len(globalConfig.locales)-1) {
+		if !isTranslated(locale) && i < (len(globalConfig.locales)-1) {
 			continue
 		}
-		tr = locale.GetD(dom, str, vars...)
-		break
+		return locale
+	}
+	return nil
+}
+
+// GetD returns the corresponding Translation in the given domain for a given string.
+// Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
+func GetD(dom, str string, vars ...interface{}) string {
+	locale := translatingLocale(dom, func(locale *Locale) bool {
+		return locale.IsTranslatedD(dom, str)
+	})
+	if locale == nil {
+		return ""
 	}
-	return tr
+	return locale.GetD(dom, str, vars...)
 }
 
 // GetND retrieves the (N)th plural form of Translation in the given domain for a given string.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func GetND(dom, str, plural string, n int, vars ...interface{}) string {
-	// Try to load default package Locales
-	loadLocales(false)
-
-	globalConfig.RLock()
-	defer globalConfig.RUnlock()
-
-	var tr string
-	for i, locale := range globalConfig.locales {
-		if !locale.hasDomain(dom) {
-			locale.AddDomain(dom)
-		}
-		if !locale.IsTranslatedND(dom, str, n) && i < (len(globalConfig.locales)-1) {
-			continue
-		}
-		tr = locale.GetND(dom, str, plural, n, vars...)
-		break
+	locale := translatingLocale(dom, func(locale *Locale) bool {
+		return locale.IsTranslatedND(dom, str, n)
+	})
+	if locale == nil {
+		return ""
 	}
-	return tr
+	return locale.GetND(dom, str, plural, n, vars...)
 }
 
 // GetC uses the default domain globally set to return the corresponding Translation of the given string in the given context.
@@ -314,48 +313,25 @@ func GetNC(str, plural string, n int, ctx string, vars ...interface{}) string {
 // GetDC returns the corresponding Translation in the given domain for the given string in the given context.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func GetDC(dom, str, ctx string, vars ...interface{}) string {
-	// Try to load default package Locales
-	loadLocales(false)
-
-	globalConfig.RLock()
-	defer globalConfig.RUnlock()
-
-	var tr string
-	for i, locale := range globalConfig.locales {
-		if !locale.hasDomain(dom) {
-			locale.AddDomain(dom)
-		}
-		if !locale.IsTranslatedDC(dom, str, ctx) && i < (len(globalConfig.locales)-1) {
-			continue
-		}
-		tr = locale.GetDC(dom, str, ctx, vars...)
-		break
+	locale := translatingLocale(dom, func(locale *Locale) bool {
+		return locale.IsTranslatedDC(dom, str, ctx)
+	})
+	if locale == nil {
+		return ""
 	}
-	return tr
+	return locale.GetDC(dom, str, ctx, vars...)
 }
 
 // GetNDC retrieves the (N)th plural form of Translation in the given domain for a given string.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func GetNDC(dom, str, plural string, n int, ctx string, vars ...interface{}) string {
-	// Try to load default package Locales
-	loadLocales(false)
-
-	// Return Translation
-	globalConfig.RLock()
-	defer globalConfig.RUnlock()
-
-	var tr string
-	for i, locale := range globalConfig.locales {
-		if !locale.hasDomain(dom) {
-			locale.AddDomain(dom)
-		}
-		if !locale.IsTranslatedNDC(dom, str, n, ctx) && i < (len(globalConfig.locales)-1) {
-			continue
-		}
-		tr = locale.GetNDC(dom, str, plural, n, ctx, vars...)
-		break
+	locale := translatingLocale(dom, func(locale *Locale) bool {
+		return locale.IsTranslatedNDC(dom, str, n, ctx)
+	})
+	if locale == nil {
+		return ""
 	}
-	return tr
+	return locale.GetNDC(dom, str, plural, n, ctx, vars...)
 }
 
 // IsTranslated reports whether a string is translated in given languages.
-- 
2.43.0

