#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here, one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [dict(name=n, where=w) for n, w in mechanism]}
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))

prop("C01", "A lookup serves exactly the stored translation, else the source text",
 "After any history of edits and parses, a singular, plural, context or plural+context lookup returns the non-empty translation most recently stored for exactly that (context, message id, plural form), with the optional arguments formatted in printf style and the text verbatim when no arguments are given. When no non-empty translation is stored for that key and form it returns the untranslated source text (the singular or the plural one, as the number calls for), never an empty string or another entry's text. Lookups never change the catalog.",
 ["histories", "inputs"], "every operation sequence up to a bounded depth over colliding ids, contexts, forms, empty strings and format verbs; all lookups observed after every step",
 "Tests look up a dozen fixed entries of fixed files; they do not chain edits with parses, do not mix singular/plural/context writes of the same id, and never compare the whole observable catalog with a model.",
 ["domain.go", "translation.go", "po.go", "mo.go", "helper.go"],
 [("map lookups under read lock with fallback to the caller's text", "domain.go Get/GetN/GetC/GetNC"), ("non-empty form or source text", "translation.go Get/GetN"), ("format only when arguments are given", "helper.go FormatString")],
 [("translations / contextTranslations", "stored entries by id and by context+id", "domain.go Domain")],
 ["Domain/Po/Mo Get, GetN, GetC, GetNC"])

prop("C02", "Append lookups return the given bytes followed by the Get result",
 "For every catalog state and all arguments, the appending form of each lookup returns the caller's byte slice unchanged followed by precisely the bytes that the corresponding Get lookup returns. It writes nothing into bytes the caller can already see and retains no reference to the caller's slice.",
 ["histories", "inputs"], "all catalog states reached by bounded histories x all lookups x prefixes with and without spare capacity x argument lists",
 "Tests compare one or two calls; the Append code is a hand-copied twin of every Get method, so any branch can drift on an input no test has.",
 ["domain.go", "po.go", "mo.go", "helper.go"],
 [("duplicated lookup paths ending in Appendf", "domain.go Append*"), ("Appendf", "helper.go Appendf")], None,
 ["Domain/Po/Mo Append, AppendN, AppendC, AppendNC"])

prop("C03", "IsTranslated agrees with what the lookup serves",
 "At every level (catalog object, locale, package) and in every reachable state, IsTranslated / IsTranslatedN / IsTranslatedC / IsTranslatedNC and their domain variants report true exactly when the matching Get lookup is served from a non-empty stored translation rather than falling back to the source text. At package level the answer is over the requested languages: true when any of them has the translation, whatever had or had not been looked up before.",
 ["histories", "configurations"], "all catalog states up to a bound x plural rules (including rules where n=1 is not form 0) x all query variants x language lists",
 "Tests query a fixed German/French/English fixture whose rules all map n=1 to form 0, and only after the domain was already loaded.",
 ["domain.go", "locale.go", "gotext.go", "translation.go", "introspector.go"],
 [("form lookup in stored entry", "translation.go IsTranslated/IsTranslatedN"), ("language match against the locales", "gotext.go IsTranslatedND/IsTranslatedNDC")], None,
 ["IsTranslated* of Domain, Po, Mo, Locale, package"])

prop("C04", "Plural rules select the form the C expression denotes, for every n",
 "For every Plural-Forms expression of the supported grammar (comparisons of n or n%k with integers in either order, joined by && and || with C precedence and parentheses, inside nested ternaries or standing alone, with any spacing and redundant parentheses), compiling succeeds and evaluating at any n gives the value the C language gives. A compiled expression never selects a different form than C semantics dictate, and plural lookups in PO and MO catalogs use precisely that form, for counts beyond 32 bits as well.",
 ["inputs", "programs"], "all expressions of the grammar up to a bounded size, the Plural-Forms of all real languages, with spacing/parenthesis variants, each evaluated at boundary values of n over the 32-bit range",
 "Tests evaluate a handful of formulas at a few n; precedence, parenthesis matching, operand order and boundary errors show only on particular shapes of formula.",
 ["plurals/compiler.go", "plurals/tests.go", "plurals/expression.go", "plurals/math.go", "domain.go"],
 [("recursive splitting at the lowest-precedence operator", "plurals/compiler.go compileTest/precedence"), ("parenthesis grouping", "plurals/compiler.go tokenize/split/scan"), ("header parsing", "domain.go parseHeaders")], None,
 ["plurals.Compile(...).Eval(n)", "GetN/GetNC of a parsed catalog"])

prop("C05", "Malformed plural rules are rejected or ignored, never crash or hang",
 "Compiling an arbitrary string as a plural expression terminates with either a usable expression or an error (never neither), without panicking and without leaving goroutines behind; evaluating any accepted expression at any n terminates without panicking. A catalog whose Plural-Forms header is missing, malformed or unsupported still loads all its entries and selects forms by the default rule (form 0 for n=1, else form 1), or by the custom resolver when one was set.",
 ["inputs"], "all token sequences up to a bounded length over the operator alphabet plus junk characters; every deletion, duplication or replacement of one token of real rules; every such header in a catalog",
 "Tests try a few broken formulas; crash conditions need specific shapes (zero modulus, unbalanced parentheses, broken nested branch).",
 ["plurals/compiler.go", "plurals/expression.go", "plurals/math.go", "domain.go"],
 [("error returns of the compiler", "plurals/compiler.go"), ("fallback rule", "domain.go pluralForm")], None,
 ["plurals.Compile/Eval", "Po.Parse, Mo.Parse, GetN"])

prop("C06", "A well-formed PO document loads to exactly the catalog it denotes",
 "Parsing any well-formed PO text yields exactly its entries: same ids, plural ids, contexts, plural forms by index and source references, with escapes decoded and adjacent string segments concatenated. Layout does not matter: line splitting of strings, blank lines, comments of every kind, indentation, CRLF line endings, order of entries, order of the plural lines and a missing final newline leave the result unchanged.",
 ["inputs"], "all catalogs up to a bounded number of entries over entry shapes and string alphabets (escapes, quotes, Unicode, long strings) x all layout variants",
 "Tests parse a few fixture files written in one layout each; parser state leaks between entries depend on which shapes follow each other.",
 ["po.go", "domain.go"],
 [("line-oriented state machine with buffers", "po.go Parse/saveBuffer/parse*")],
 [("trBuffer, ctxBuffer, refBuffer", "entry being assembled", "domain.go Domain")],
 ["Po.Parse, ParseFile; GetTranslations/GetCtxTranslations/lookups"])

prop("C07", "Junk in a PO text cannot crash the parser or damage other entries",
 "Parsing any byte sequence terminates without panic. Lines that are not PO syntax, stray or malformed lines between entries, and a damaged entry do not alter the other, well-formed entries of the same text, and text truncated at any point still yields all entries completed before that point.",
 ["inputs", "fault_sequences"], "all line sequences up to a bounded length over an alphabet of valid and broken lines; every truncation point; every single line dropped, duplicated or replaced by junk between entries",
 "Tests have one invalid file; which state the machine is in when junk arrives is what decides the outcome.",
 ["po.go", "domain.go"],
 [("line classification", "po.go isValidLine"), ("resynchronisation at msgctxt/msgid", "po.go parseContext/parseID")], None,
 ["Po.Parse and subsequent lookups"])

prop("C08", "A MO file loads to the same catalog as the PO file it was compiled from",
 "For every catalog, parsing its binary MO form (either byte order, any placement of tables and strings, with or without hash table, revision 0 or 1) gives the same headers, ids, contexts, plural ids, forms and lookup results as parsing its PO form, except for comments and references which MO does not store.",
 ["inputs", "configurations"], "all catalogs up to a bounded number of entries x byte orders x table layouts x revisions, compared with the PO parse lookup by lookup",
 "Tests load two little-endian fixtures produced by one tool.",
 ["mo.go", "domain.go"],
 [("header and table decoding in the file's byte order", "mo.go Parse"), ("splitting of context and plural parts", "mo.go addTranslation")], None,
 ["Mo.Parse vs Po.Parse"])

prop("C09", "Corrupt or truncated MO data is never half loaded nor exhausts the process",
 "Parsing any MO byte sequence, including every truncation and any corruption of counts, offsets and lengths, terminates without panic and allocates memory only in proportion to the data given. Data whose tables or strings do not lie inside the file changes nothing: the object keeps the catalog and headers it had.",
 ["fault_sequences", "inputs"], "every truncation length and every single-field corruption (boundary values of each 32-bit header/table field) of MO images in both byte orders, into empty and non-empty objects",
 "Tests feed a few garbage buffers; the interesting faults sit at particular fields and particular lengths.",
 ["mo.go"],
 [("bounds and short-read handling", "mo.go Parse")], None,
 ["Mo.Parse, then lookups and headers"])

prop("C10", "Exporting to PO text and parsing it back loses nothing",
 "For every catalog, the exported PO text parses back to the same catalog: headers, ids, plural ids, contexts, every plural form, source references and head comments, with quotes, backslashes, tabs, newlines and Unicode in any of the strings preserved. This holds for catalogs built by parsing, by edits, or by both.",
 ["histories", "inputs"], "all catalogs up to a bounded size over a string alphabet of escaping-relevant shapes at every position; all edit histories to a bounded depth",
 "Tests round-trip two fixture files with tame strings.",
 ["domain.go", "po.go"],
 [("text export", "domain.go MarshalText"), ("escaping", "domain.go EscapeSpecialCharacters"), ("parser", "po.go Parse")], None,
 ["MarshalText -> Parse -> lookups, GetTranslations, GetRefs, Headers"])

prop("C11", "Exported PO text is deterministic and a fixpoint",
 "The exported text is a function of the catalog content alone: the same content gives byte-identical output every time, whatever the order of insertion or of internal map iteration, and plural forms appear in index order. Entries are ordered by first reference (path, then numeric line), then context, then id; exporting, parsing and exporting again reproduces the same bytes.",
 ["configurations", "histories"], "all iteration orders of every internal map (explorer-chosen), all insertion orders of small catalogs, re-export after re-parse",
 "Go randomises map iteration, so a test sees one order per run; the nondeterminism shows only for some orders.",
 ["domain.go", "translation.go"],
 [("sorting of headers and entries before writing", "domain.go MarshalText")], None,
 ["MarshalText bytes"])

prop("C12", "Binary serialisation of catalogs is lossless, into any receiver",
 "For every catalog, encoding a Po, Mo or Domain to binary and decoding it into any other such object, fresh or already populated, yields an object with the same entries, references, headers, language and plural rule, so every lookup for every n gives the same result as on the original. Nothing the receiver held before shows through, undecodable data leaves the receiver unchanged, and encoding does not alter the source.",
 ["histories", "inputs"], "all catalogs up to a bound x plural rules (supported, unsupported, none) x receivers in initial and non-initial states x truncations of the encoding",
 "Tests round-trip one object into one fresh object and compare a couple of strings.",
 ["domain.go", "translator.go", "po.go", "mo.go"],
 [("gob of an intermediary struct", "domain.go MarshalBinary/UnmarshalBinary"), ("recompiling the rule", "domain.go UnmarshalBinary")], None,
 ["MarshalBinary/UnmarshalBinary, GetTranslator"])

prop("C13", "Binary serialisation of a Locale is lossless",
 "Encoding a Locale with any set of domains (PO- or MO-backed, loaded from files or added in memory) and decoding it into any Locale yields the same language, default domain and domains, with every lookup in every domain, context and plural form, translated-queries and headers giving the same results. The decoded Locale can be further extended, edited and encoded again; undecodable data leaves the receiver unchanged.",
 ["histories", "configurations"], "all small locales x plural rules x receivers in several states x continued histories after decoding x truncations",
 "Tests encode one locale with a Germanic rule, under which a lost plural rule is invisible.",
 ["locale.go", "translator.go", "domain.go"],
 [("nested gob encoding", "locale.go MarshalBinary/UnmarshalBinary"), ("rebuilding a translator", "translator.go GetTranslator")], None,
 ["Locale.MarshalBinary/UnmarshalBinary"])

prop("C14", "Dropping stale entries keeps exactly what was set since loading",
 "After any history of parses and edits, dropping stale translations removes every entry that no edit (setting a translation, a plural form, a context translation or references) has touched since it was last loaded by a parse, keeps every touched entry with all its data, keeps the headers, and leaves no empty contexts; doing it twice changes nothing more. References always read back as last set or parsed.",
 ["histories"], "all sequences of parse/set/set-plural/set-context/set-references/drop up to a bounded depth against a reference model",
 "Tests run one fixed sequence on one fixture.",
 ["domain.go", "translation.go", "po.go"],
 [("dirty mark", "translation.go Set/SetN/SetRefs/IsStale"), ("sweep", "domain.go DropStaleTranslations")],
 [("dirty", "entry was edited since parsing", "translation.go Translation")],
 ["DropStaleTranslations, SetRefs, GetRefs, IsStale"])

prop("C15", "Catalog snapshots are complete, detached copies",
 "The translations and context-translations snapshots of a catalog (and of a locale) contain exactly the entries stored at that moment, with their plural ids, forms, references and stale marks. Changing a snapshot in any way never affects the catalog or other snapshots, and later changes of the catalog never affect a snapshot already taken.",
 ["histories"], "all small catalogs x every mutation of every snapshot component x every later catalog edit or re-parse",
 "Tests check a snapshot's contents once and never mutate both sides.",
 ["domain.go", "locale.go", "translation.go"],
 [("field-wise copies", "domain.go GetTranslations/GetCtxTranslations"), ("merging of domains", "locale.go GetTranslations")], None,
 ["GetTranslations, GetCtxTranslations"])

prop("C16", "Catalog files are found by one documented order, on disk and in an fs.FS alike",
 "Adding a domain loads the first existing candidate in the fixed order: PO before MO; full locale before bare language; inside LC_MESSAGES before directly in the language directory; if none exists the domain is not added and lookups give source text. An fs.FS holding the same files gives the same result as the disk, the reported actual language is that of the file that is loaded, and encoding or modifier suffixes of the locale name (\".UTF-8\", \"@euro\", \":...\") are ignored.",
 ["configurations"], "all 256 subsets of the 8 candidate files x locale spellings x disk/FS/FS-with-path",
 "Tests use one fixed fixture tree where a few candidates exist.",
 ["locale.go", "helper.go", "translator.go"],
 [("candidate probing", "locale.go findExt/GetActualLanguage"), ("name simplification", "helper.go SimplifiedLocale")], None,
 ["Locale.AddDomain + Get, GetActualLanguage, SimplifiedLocale"])

prop("C17", "A Locale routes each lookup to the right domain",
 "After any history of adding domains or translators, reloading, replacing and changing the default domain, a lookup with an explicit domain is answered by that domain's current catalog alone, a lookup without one by the current default domain (the first added unless set), and a lookup in a missing domain gives the source text (plural unless n is 1), for singular, plural, context and plural+context forms with or without arguments. Re-adding a domain reloads it from its file.",
 ["histories", "configurations"], "all operation sequences to a bounded depth over two domains, file- and memory-backed, observed through all eight lookups after every step",
 "Tests exercise fixed sequences with one or two domains.",
 ["locale.go"],
 [("domain map with default name", "locale.go Add*/Get*")],
 [("Domains, defaultDomain", "registered catalogs and the default", "locale.go Locale")],
 ["Locale lookups, GetDomain, GetTranslations"])

prop("C18", "The package-level API serves the configured catalogs in any call order",
 "After any sequence of package-level configuration calls, including none at all, every lookup returns the translation of the first configured language that has one for that domain, id, context and form, else the source text; a domain never mentioned before is loaded on demand by every lookup kind. The setters and getters of language, library, domain and locales stay consistent with each other, and no call sequence panics, deadlocks or makes later calls fail.",
 ["histories", "configurations"], "all sequences of configuration and lookup calls up to a bounded depth over two libraries, three languages lists, three domains, each from a fresh process state",
 "Tests always configure first, share one process-wide state and check one language chain.",
 ["gotext.go", "locale.go"],
 [("lazy construction of locales", "gotext.go loadLocales"), ("language fallback loop", "gotext.go GetD/GetND/GetDC/GetNDC")],
 [("globalConfig", "package configuration and locales", "gotext.go")],
 ["package functions"])

prop("C19", "Catalog objects are race-free and deadlock-free under concurrent use",
 "For any concurrent use of the methods of one Po, Mo or Domain (lookups, translated-queries, edits, parsing, snapshots, text and binary export and import, stale dropping, plural resolver) by several goroutines, no schedule has a data race, panic or deadlock. The same holds for concurrent use of distinct objects. This includes formatting arguments which look something up themselves while they are printed (a Stringer translating its name).",
 ["schedules"], "all interleavings at lock granularity of every pair of operations, on one and on two objects, and of triples, each checked for unsynchronised accesses by happens-before",
 "Tests run goroutines free once; a race or lock-order problem needs a particular schedule and often an operation pair no test combines.",
 ["domain.go", "po.go", "mo.go", "translation.go"],
 [("two RW mutexes", "domain.go trMutex/pluralMutex")],
 [("trMutex, pluralMutex", "guards of the catalog maps and plural rule", "domain.go Domain")],
 ["all methods of Po/Mo/Domain"], "none in /repo: lock operations are intercepted by rewriting imports in a build overlay")

prop("C20", "Concurrent catalog operations are atomic",
 "Every concurrent execution of operations on one catalog is equivalent to some sequential order of the same operations consistent with real time: each lookup sees the catalog wholly before or wholly after a concurrent parse, edit, import or drop, never a mixture, and no completed edit is lost. In particular while a text is being re-parsed, a lookup of an entry present before and after is never answered with source text.",
 ["schedules"], "all interleavings of pairs, of two operations against one, and of triples; results and final state compared with all sequential orders",
 "Needs lookups at every point inside a running parse or edit; free-running tests practically never hit these windows and do not compare results.",
 ["domain.go", "po.go", "mo.go"],
 [("write locks held over whole parse/edit", "po.go Parse, mo.go Parse, domain.go Set*")], None,
 ["call results and final snapshot"], "as C19")

prop("C21", "A Locale is race-free, deadlock-free and coherent under concurrent use",
 "For any concurrent use of one Locale (lookups, translated-queries, adding and reloading domains, replacing translators, changing the default domain, snapshots, binary export and import) no schedule has a data race, panic or deadlock. The results and the final state are those of some sequential order of the operations consistent with real time, where a lookup in the default domain may ask for the domain and look there at two moments: in particular no added domain, replaced translator or default-domain change is lost, and a lookup of an entry that the old and the new translator of a domain both have is never answered with source text. This includes formatting arguments which look something up themselves while they are printed (a Stringer translating its name), and a lookup may likewise find the translator of its domain and ask it at two moments.",
 ["schedules"], "all interleavings of every pair of Locale operations, of two operations against one, and of triples; results and final state compared with all sequential orders",
 "Tests run two goroutines for a moment, with one operation mix.",
 ["locale.go", "domain.go"],
 [("RW mutex embedded in Locale", "locale.go")], None, ["Locale methods"], "as C19")

prop("C22", "The package-level API is race-free, deadlock-free and coherent under concurrency",
 "For any concurrent use of package-level lookups, translated-queries, getters and configuration calls, no schedule has a data race, panic or deadlock, including the first use of the package and first loads of a domain. Every result is one that some sequential order of the calls gives, where a call in the default domain may ask for the domain and look there at two moments: no call sees a half-replaced configuration, so a lookup or translated-query naming its domain is never answered as untranslated when both the old and the new configuration have the translation. After the calls finish the configuration is that of some sequential order. Locales in the package's configuration may be used directly meanwhile. The functions without an object (named formatting, escaping, compiling a plural rule, evaluating a shared one) can be called by several goroutines with the same arguments too. This includes formatting arguments which look something up themselves while they are printed (a Stringer translating its name), also in a single goroutine and before the package is configured.",
 ["schedules"], "all interleavings of every pair of package-level operations from several states including an unused package, of two operations against one, and of triples",
 "Global state makes this hard to test; the existing race test uses only Get-style calls after configuration.",
 ["gotext.go", "locale.go"],
 [("global RW mutex", "gotext.go globalConfig"), ("lazy AddDomain under read lock", "gotext.go GetD")], None, ["package functions"], "as C19")

prop("C23", "Named formatting substitutes every placeholder by its own value",
 "For every format string and parameter map, named formatting equals positional formatting in which each %(name)verb placeholder is replaced by the plain verb applied to that name's value, in any order and multiplicity, with precision and width digits honoured and a missing name formatted as nil; %% always means a literal percent sign and text outside placeholders is untouched.",
 ["inputs"], "all sequences up to a bounded length over placeholders, verbs, literals, %% and near-miss fragments x parameter maps",
 "Tests check a few fixed formats.",
 ["helper.go"],
 [("regular-expression rewrite to positional format", "helper.go reformatSprintf/parseSprintf")], None, ["Sprintf, NPrintf"])

prop("C24", "Headers are exposed exactly as the latest loaded catalog states them",
 "After loading a catalog from PO or MO, the header collection holds every header line of its header entry with original key spelling and value, repeated keys in order; language and plural-forms values are those headers (in any letter case), and the object's public fields agree with its catalog. Loading again, or importing a binary form, replaces the values of headers the new catalog states, including the plural rule in force.",
 ["inputs", "histories"], "all header blocks up to a bounded number of lines over key spellings, values and defects; sequences of one to three loads of differing headers by PO, MO and binary import",
 "Tests load each object once, with conventional headers.",
 ["domain.go", "po.go", "mo.go"],
 [("manual header parsing", "domain.go parseHeaders"), ("copying to public fields", "po.go Parse, mo.go Parse")], None, ["Headers, Language, PluralForms, GetN"])

prop("C25", "xgotext extracts exactly the translatable calls of a Go program",
 "For every Go package, extraction yields exactly one entry per (domain, context, id) used in a gotext lookup call with literal arguments, made through the package (under any import name), a Po/Mo/Locale value, pointer, field, function result, alias or the translator interface, with the singular, plural, context and domain arguments taken from the right positions and all literal forms decoded, and with the source position (file and line of the opening parenthesis) of every call. Calls with unsupported (non-literal) arguments and calls to other packages or types are skipped without affecting the others and never crash.",
 ["programs"], "all combinations of lookup function x receiver kind x literal kind x argument defect as call sites of generated packages, by both extraction modes",
 "Tests extract one fixture program and check ids only.",
 ["cli/xgotext/parser/gofile.go", "cli/xgotext/parser/dir/golang.go", "cli/xgotext/parser/pkg-tree/golang.go"],
 [("argument position table", "gofile.go gotextGetter"), ("receiver type resolution", "gofile.go InspectCallExpr/CheckType")], None, ["ParseDirRec, ParsePkgTree -> DomainMap"])

prop("C26", "xgotext output files are valid, complete and reproducible",
 "For every set of extracted messages added in any order, each written POT file parses back to exactly the messages of its domain: ids, contexts, plural ids and source positions, with quotes, backslashes, newlines and Unicode intact; messages seen several times are merged keeping every position and the plural id. The same messages give byte-identical files, and an output that cannot be written is reported.",
 ["inputs", "histories"], "all sequences of messages up to a bounded length over domains, contexts, ids with special characters, plural/no plural and positions, in every order; output parsed back",
 "Tests check substrings of one dumped entry.",
 ["cli/xgotext/parser/domain.go", "cli/xgotext/parser/gofile.go"],
 [("merging", "domain.go AddTranslation"), ("escaping and sorting", "domain.go Dump/toMsgIDString")], None, ["DomainMap.Save output re-read by gotext"])

prop("C27", "xgotext visits every package directory except the excluded ones",
 "Recursive extraction visits each directory below the input exactly once, except the directories named in the exclude list and everything below them; a directory whose name merely starts like an excluded one is still visited. Package-tree extraction covers every package reachable by imports that uses gotext, exactly once per run, and repeated runs in one process give the same result. An error of a parser or of reading a directory is reported.",
 ["configurations", "histories"], "all directory trees over a small set of (similar) names x all exclude lists; all small import graphs; repeated runs",
 "Tests use one directory tree with one dissimilar name.",
 ["cli/xgotext/parser/dir/parser.go", "cli/xgotext/parser/pkg-tree/golang.go"],
 [("walk with exclusion", "dir/parser.go ParseDirRec"), ("import graph walk", "pkg-tree/golang.go filterPkgsRec")], None, ["directories given to registered parsers; DomainMap"])

prop("C28", "Loading several catalogs into one object merges them entry by entry",
 "Parsing a further PO or MO text into an object that already has content replaces exactly the entries the new text contains (all of their forms, references and plural id) and leaves every other entry as it was; the outcome depends only on the sequence of texts, not on how they are laid out or where a previous text was cut off. No parser state carries over from one text to the next.",
 ["histories", "inputs"], "all sequences of up to three texts over small catalogs, including texts that end inside an entry, a context or a plural group",
 "Tests parse once per object.",
 ["po.go", "mo.go", "domain.go"],
 [("buffers reset at the start of a parse", "po.go Parse")],
 [("trBuffer, ctxBuffer, refBuffer", "parser buffers stored in the object", "domain.go Domain")], ["Po.Parse/Mo.Parse sequences"])

prop("C29", "Objects are independent of one another and of their inputs",
 "No operation on one catalog or locale object changes any result of another one, and an object does not depend on the byte buffers it was parsed from after the call returns: callers may reuse or overwrite them. Creating and loading objects in any number and order gives each the same behaviour as alone.",
 ["histories"], "all interleaved operation sequences up to a bounded depth on two objects of each kind, compared with the same sequences run alone; input buffers overwritten after every call",
 "Tests use one object at a time and never reuse buffers.",
 ["domain.go", "po.go", "mo.go", "locale.go", "translation.go", "helper.go"],
 [("all state in the objects, no package globals", "domain.go NewDomain, po.go NewPo, mo.go NewMo")], None, ["all lookups on both objects"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
