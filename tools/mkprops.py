#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,q,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})

p("C01","Concurrent use is free of data races",
  "Any number of goroutines may call any exported functions and methods of the gotext package (package-level functions, Locale, Domain, Po, Mo) on shared objects at the same time - lookups, setters, parsing, reloading, (un)marshalling, configuration - without two of them ever accessing the library's internal state unsynchronised, one of them writing.",
  ["schedules","histories"],"all interleavings of all pairs of exported operations on shared objects",
  "The race tests run four fixed goroutine mixes on two objects; a race needs the right pair of operations and the right timing, and most pairs are never run together.",
  ["domain.go","po.go","mo.go","locale.go","gotext.go"],
  [("trMutex/pluralMutex guard a Domain's storage and plural rule","domain.go"),("Locale.RWMutex guards Domains/defaultDomain/lang/path","locale.go"),("config.RWMutex guards the package configuration","gotext.go")],
  [("Domain.translations etc.","the catalogue","domain.go"),("globalConfig","package configuration","gotext.go")])
p("C02","No deadlock, no lock left held",
  "No exported operation of the gotext package acquires a lock that it already holds (shared or exclusive), different operations never acquire two locks in opposite orders, and every lock that an operation acquires is released when it returns, whichever path it takes.",
  ["schedules","inputs"],"all paths through all exported operations, all interleavings",
  "A missed unlock on a rare path or a nested read lock only hangs with a particular path or a writer queued at the right moment; tests take the common paths sequentially.",
  ["domain.go","po.go","mo.go","locale.go","gotext.go"],
  [("lock order config -> Locale -> trMutex -> pluralMutex","gotext.go, locale.go, domain.go"),("defer Unlock / paired Unlock","all lock sites")])
p("C03","Parsing any bytes as PO or MO never panics nor over-allocates",
  "Parsing an arbitrary byte string as a PO or MO file (header and Plural-Forms included) never panics, and never allocates tables or strings whose size is dictated by a length or count field of the input without first checking that the input is that long.",
  ["inputs"],"all byte strings handed to the PO and MO parsers",
  "The tests parse a dozen well-formed files and two truncated ones; the offending offsets, lengths, counts and line shapes are an unbounded space.",
  ["po.go","mo.go","domain.go","plurals/compiler.go","translation.go"],
  [("bounds checks before slicing and allocation","mo.go Parse"),("prefix/index checks before slicing lines","po.go parseMessage, domain.go parseHeaders"),("constructors make every map","domain.go NewDomain, translation.go NewTranslation")])
p("C04","Public API never panics, whatever state its objects are in",
  "Lookups, IsTranslated queries, setters, getters and (un)marshalling never panic (nil dereference, nil-map write, index out of range, division by zero) on objects made by the library's constructors or decoders: also when the package is unconfigured or configured with no locales, when a domain is missing or registered with a nil translator, after UnmarshalBinary of a valid encoding, and for every number and every plural rule that the compiler accepted.",
  ["inputs","histories","configurations"],"all call sequences on objects produced by constructors/decoders, all arguments",
  "Panics sit in states tests do not set up: empty locale list, nil translators, decoded objects, rules such as n%0.",
  ["gotext.go","locale.go","domain.go","translation.go","translator.go","plurals/compiler.go","plurals/expression.go","plurals/math.go"],
  [("length/nil guards","gotext.go GetDomain/SetLocales, locale.go"),("decoders restore non-nil maps","domain.go UnmarshalBinary, translator.go GetTranslator"),("compileMod rejects a zero divisor","plurals/compiler.go")])
p("C05","Lookup returns the stored translation, otherwise the source text",
  "For every catalogue and every key, Get/GetN/GetC/GetNC on a Domain, Po or Mo return the stored non-empty translation of exactly that id (and context) in exactly the plural form that the catalogue's rule selects for n. When no entry, no such form or only an empty translation is stored they return the source text: the singular when the rule selects form 0 (or the lookup has no plural), the plural otherwise - never an empty string or another entry's text. A Translation's own Get and GetN give the stored non-empty text of the form asked for, otherwise the id for form 0 and the plural id for every other form.",
  ["inputs","histories"],"all catalogues, ids, contexts, numbers",
  "Tests look up a few dozen fixed ids; fallbacks for entries lacking a form, a plural id or a translation are barely reached.",
  ["domain.go","translation.go","po.go","mo.go"],
  [("map lookup, then Translation.Get/GetN, then fallback","domain.go Get*, translation.go")])
p("C06","Formatting is applied exactly when arguments are given",
  "A lookup without variadic arguments returns its text verbatim (a '%' is never interpreted); a lookup with arguments returns fmt.Sprintf(text, args...) with all arguments in their order. This holds for translated texts and fallback texts, in every Get*/Append* function and method of every layer.",
  ["inputs"],"all texts, all argument lists, all lookup functions and layers",
  "There are some 40 lookup functions, each with several return paths; tests format on a handful.",
  ["helper.go","domain.go","locale.go","gotext.go"],[("FormatString/Appendf test len(vars)","helper.go")])
p("C07","Append variants equal append(b, Get...)",
  "Append, AppendN, AppendC and AppendNC return the given byte slice extended by exactly the text that the corresponding Get, GetN, GetC or GetNC returns for the same arguments, in every case including every fallback.",
  ["inputs","histories"],"all catalogues, arguments and prefixes b",
  "Append variants duplicate the lookup code; tests compare them with Get on a few keys only.",
  ["domain.go","helper.go","po.go","mo.go"],[("Append* mirror Get*","domain.go"),("Appendf mirrors FormatString","helper.go")])
p("C08","Every layer forwards a lookup faithfully",
  "Each Po, Mo and Locale lookup or IsTranslated query, and each package-level function that does not name a domain, gives the result of the operation it stands for with the same id, plural, number, context and arguments, in the named domain or - for variants that name none - in the current default domain. A Locale lookup in a domain that is not loaded (or has a nil translator) returns the source text: the plural text exactly when the function is a plural lookup and n is not 1.",
  ["inputs","configurations"],"all delegating functions, all arguments",
  "About 60 thin delegators with four to six same-typed string parameters each; a swapped or dropped argument compiles and most are tested with one call or none.",
  ["po.go","mo.go","locale.go","gotext.go"],[("one-line delegators","po.go, mo.go, locale.go, gotext.go")])
p("C09","IsTranslated agrees with the lookup",
  "IsTranslated, IsTranslatedN, IsTranslatedC and IsTranslatedNC on a Domain, Po, Mo or Locale report true exactly when a non-empty translation is stored for the form that the lookup of the same name would use: form 0 for lookups without a number, the form that the plural rule selects for n otherwise; false for missing entries, contexts and domains. A Translation's own IsTranslated and IsTranslatedN tell whether a non-empty text is stored for form 0, or for the form asked for.",
  ["inputs","histories"],"all catalogues, plural rules, ids, contexts, numbers",
  "The queries duplicate the lookup conditions; tests use two-form languages in which rule(1) happens to be form 0.",
  ["domain.go","translation.go","locale.go"],[("IsTranslated* mirror Get*","domain.go, locale.go")])
p("C10","Languages are consulted in configured order, first translated wins",
  "With several languages configured, package-level lookups return the lookup result of the first locale, in the configured order, that has a translation for the requested domain, id, context and number; when none has one, they return the last locale's result, and with no locale at all the (formatted) source text.",
  ["inputs","configurations"],"all locale lists, domains, ids, numbers, contexts; all eight package-level lookups",
  "Four loops over locales are duplicated by hand; tests use two languages, one domain and few lookups.",
  ["gotext.go"],[("loop over globalConfig.locales testing IsTranslated*","gotext.go GetD/GetND/GetDC/GetNDC")])
p("C11","Configuration takes effect and domains load on demand",
  "After Configure, SetLanguage, SetDomain or SetLibrary returns, the getters report the new values, exactly one locale exists per configured language in the given order, built from the configured library path, and every locale has reloaded the default domain and has it as its default. Every package-level lookup in a named domain first loads that domain in each locale that it consults and that does not have it, and never loads one anew that the locale has; SetLocales installs the given locales unchanged and takes the languages from them, and the library and the domain from the first. Before anything is configured, the domain is default, the language FallbackLocale (en_US) and the library /usr/local/share/locale.",
  ["inputs","histories","configurations"],"all sequences of configuration calls and lookups",
  "Tests reconfigure a few times with fixed fixtures; stale caches show only for particular sequences.",
  ["gotext.go","locale.go"],[("setters call loadLocales(true)","gotext.go"),("lazy AddDomain","gotext.go GetD..GetNDC")])
p("C12","Plural form: compiled rule, then custom resolver, then n==1",
  "The plural form used for a number is the compiled Plural-Forms rule of the catalogue when there is one; otherwise the custom resolver when one was set; otherwise form 0 exactly for n == 1 and form 1 for every other n. The same selection serves Get, Append, Set and IsTranslated, and the header's rule is stored whenever it compiles, whatever parts of Plural-Forms precede it.",
  ["inputs","configurations"],"all numbers, rules, resolvers",
  "Tests check the order of precedence with one resolver and a few numbers.",
  ["domain.go"],[("pluralForm","domain.go"),("parseHeaders compiles the rule","domain.go")])
p("C13","Plural operators mean what they mean in C",
  "In a compiled plural rule each of == != < <= > >= && || % ?: has its C meaning on non-negative numbers, with the operands in either order ('3 > n' as well as 'n > 3'); || binds looser than &&, && looser than the comparisons, and the ternary selects its true branch exactly when its test holds, for every n; parenthesised parts are taken apart at their matching parentheses, without losing any of the rule's text.",
  ["inputs"],"all n, all rules the compiler accepts",
  "Tests evaluate a fixed list of rules for small n; flipped operands are tested for == only.",
  ["plurals/compiler.go","plurals/tests.go","plurals/math.go","plurals/expression.go"],
  [("test types and their builders","plurals/tests.go, compiler.go"),("precedence table","plurals/compiler.go")])
p("C14","Malformed plural rules are rejected, and compiling has no side effects",
  "Compiling a plural rule returns an error whenever any of its sub-expressions does not compile (never a partial expression together with a nil error) and whenever it divides by zero, and returns a usable expression otherwise; it starts no goroutine that can outlive the call and prints nothing.",
  ["inputs"],"all rule strings",
  "The error paths are many and tests exercise four of them; a leaked goroutine or a swallowed nested error is invisible to them.",
  ["plurals/compiler.go"],[("error propagation in every compile function","plurals/compiler.go")])
p("C15","Binary encoding carries every persistent field",
  "Everything that determines lookups - headers, language, plural rule, translations, contexts; for a Locale also path, language, domains and default domain - is encoded by MarshalBinary and restored by the corresponding decoder from the same field, for Domain, Po, Mo and Locale alike; the compiled plural rule is rebuilt from the decoded one, and a decoding error is returned, leaving the object unchanged.",
  ["inputs","histories"],"all catalogues and locales",
  "Round-trip tests compare a few lookups on one small object; a field that is dropped or a rule that is not rebuilt only shows in particular languages.",
  ["domain.go","translator.go","locale.go"],[("TranslatorEncoding/LocaleEncoding field copies","domain.go, translator.go, locale.go")])
p("C16","Text export is complete and escapes everything it quotes",
  "MarshalText writes the comments that were read before the header, one to a line, every header, and for every entry (with or without context, except the header entry) its references, context, id and either its plural id with all its forms under their form index or, when it has no plural id, its form 0; every piece of catalogue text (references, which are comments, aside) is written inside quotes with backslashes, quotes and newlines escaped, so that no content can end a string early or inject lines.",
  ["inputs"],"all catalogues, including texts with quotes, backslashes and newlines",
  "Tests export fixtures whose special characters only occur in a few positions.",
  ["domain.go"],[("EscapeSpecialCharacters on every quoted piece","domain.go MarshalText")])
p("C17","Output and results never depend on map iteration order",
  "For equal inputs MarshalText, xgotext's .pot files and every query give the same result on every run: nothing that is written, returned or chosen depends on the order in which a map happens to be iterated, and sorted output is ordered by a key that distinguishes every two entries.",
  ["inputs","schedules"],"all catalogues/programs, all map iteration orders",
  "Map order is random per run and small maps often agree by luck; tests compare one export.",
  ["domain.go","locale.go","cli/xgotext/parser/domain.go","cli/xgotext/parser/gofile.go"],[("collect keys, sort, then emit","domain.go, cli/xgotext/parser/domain.go")])
p("C18","GetTranslations returns complete deep copies",
  "GetTranslations and GetCtxTranslations (Domain) and GetTranslations (Locale) return every stored entry under its own key (and context), with id, plural id, references, all forms and the stale mark equal to the stored ones, and share no mutable storage with the catalogue.",
  ["inputs","histories"],"all catalogues",
  "Tests compare one map for one fixture and never mutate the copy.",
  ["domain.go","locale.go"],[("field-wise copy loops","domain.go")])
p("C19","Only entries not set since loading are dropped as stale",
  "DropStaleTranslations removes exactly the entries - of both the plain and the context catalogues - that have not been touched by Set, SetN, SetC, SetNC or SetRefs since they were loaded, and a context once it is empty; parsing marks nothing as touched.",
  ["histories"],"all sequences of parse, set and drop operations",
  "One test with three entries; the mark must be set by five setters on new and existing entries.",
  ["domain.go","translation.go","po.go","mo.go"],[("Translation.dirty","translation.go"),("DropStaleTranslations","domain.go")])
p("C20","A setter stores under exactly the key and form that lookups read",
  "After Set/SetN/SetC/SetNC(id, ..., str), the entry stored under exactly that id (and context) has str in exactly the form that the matching lookup reads (form 0, or the form the plural rule selects for n), new entries carry id and plural id (and existing ones without a plural id get it), SetRefs/GetRefs agree, and no other entry, form or context is changed.",
  ["inputs","histories"],"all ids, contexts, numbers, texts, prior states",
  "Tests set and read back a few keys in two-form languages.",
  ["domain.go","translation.go","po.go"],[("Set* mirror Get*","domain.go")])
p("C21","Catalogue files are found in the documented order",
  "For a domain, a locale looks for the .po file in <path>/<lang>/LC_MESSAGES, <path>/<ll>/LC_MESSAGES, <path>/<lang>, <path>/<ll> in this order (ll: the first two letters, tried only for longer codes) and only then for the .mo file in the same order, parses the first that exists with the matching parser and registers it under the domain's name; no file, no change. GetActualLanguage names the directory of the very file that would be loaded, or is empty when there is none.",
  ["inputs","configurations"],"all directory layouts, languages, domains",
  "Eight candidate files give 256 layouts; fixtures contain three.",
  ["locale.go"],[("findExt, AddDomain, GetActualLanguage","locale.go")])
p("C22","A locale given an fs.FS reads only from it",
  "When a Locale, Po or Mo was created with a file system, every existence check and every read of a translation file goes to that file system and never to the operating system's; without one, a directory or unreadable file is not parsed.",
  ["inputs","configurations"],"all files and file systems",
  "Tests use an fs.FS holding what the disk also holds; a stray os call would go unnoticed.",
  ["locale.go","translator.go","po.go","mo.go"],[("fileExists/getFileData branch on the fs","locale.go, translator.go")])
p("C23","Reload publishes a fully parsed domain in one step",
  "AddDomain parses the file into a fresh translator before making it visible, and registers it in one step under the locale's lock, so that a concurrent or later lookup sees either the old or the complete new catalogue; the first domain added becomes the default and later ones do not change it.",
  ["schedules","histories"],"all interleavings of AddDomain/AddTranslator with lookups",
  "Observing a half-parsed domain needs a lookup in a window of microseconds.",
  ["locale.go"],[("parse, then Lock; Domains[dom] = obj","locale.go AddDomain")])
p("C24","xgotext knows every lookup function and its argument roles",
  "For every package-level function and every method of the library's types that translates an id given by its caller, xgotext extracts its calls - made through the imported package or through a value whose type is gotext's, directly, by pointer or by alias - with the id, plural, context and domain taken from the very argument positions the library uses for them, and it extracts no call of another package's function.",
  ["programs"],"all programs calling the library's lookups",
  "The table is maintained by hand and independent of the library's signatures; tests run one fixture program.",
  ["cli/xgotext/parser/gofile.go","gotext.go","locale.go","domain.go"],[("gotextGetter","cli/xgotext/parser/gofile.go")])
p("C25","xgotext never crashes on a program that it scans",
  "Extracting messages from any Go source tree never panics: calls with non-literal, missing or extra arguments in any position, unloadable or missing imports, and packages without type information are reported or skipped.",
  ["programs"],"all source trees",
  "Tests scan one small fixture with well-formed calls.",
  ["cli/xgotext/parser/gofile.go","cli/xgotext/parser/dir/golang.go","cli/xgotext/parser/dir/parser.go","cli/xgotext/parser/pkg-tree/golang.go","cli/xgotext/parser/domain.go"],
  [("nil/kind checks before using a literal","gofile.go ParseGetter")])
p("C26","xgotext loses and mixes up no extracted message",
  "Every extracted call contributes its id, plural, context and source location (the file's path relative to the base directory, and the line) to the .pot of its domain (the default one when it names none): equal ids in the same context are merged with all their locations and keep a plural if any of the calls has one, while different ids, contexts or domains never merge. Every domain is saved to its own .pot file with the entry of every one of its messages.",
  ["programs","histories"],"all sequences of extracted calls",
  "Tests add two or three messages in a fixed order.",
  ["cli/xgotext/parser/domain.go","cli/xgotext/parser/gofile.go","cli/xgotext/main.go"],[("AddTranslation merges","cli/xgotext/parser/domain.go")])
p("C27","xgotext writes well-formed PO text",
  "Every id, plural id and context that xgotext writes is enclosed in quotes with quotes, backslashes and newlines escaped, whatever kind of string literal (interpreted or raw) it came from, and every message has a msgid and msgstr, with msgid_plural and two numbered msgstr exactly when it has a plural.",
  ["programs"],"all string literals",
  "Tests use plain ASCII literals.",
  ["cli/xgotext/parser/domain.go","cli/xgotext/parser/gofile.go"],[("fixSpecialChars/formatMultiline","cli/xgotext/parser/domain.go")])
p("C28","PO keywords fill the right field of the right entry",
  "Parsing PO text, each msgctxt, msgid, msgid_plural, msgstr and msgstr[i] line, and every quoted continuation line after it, contributes exactly to that field (and form index) of the current entry; msgctxt and msgid start a new entry, which is stored under its id in its own context only, the last one included; contexts and references do not leak into the next entry; the comment lines before the first entry are kept, as they are and in their order.",
  ["inputs"],"all sequences of PO lines",
  "Tests parse fixed files; sequences such as continuation after a form list, several '#:' lines, or context after context are not among them.",
  ["po.go"],[("Parse state machine and saveBuffer","po.go")])
p("C29","MO tables are decoded with the file's byte order and layout",
  "For either byte order, an MO file's header and both string tables are read with the byte order announced by its magic number and with GNU's layout; the i-th original is paired with the i-th translation, split at EOT into context and id and at NUL into singular, plural and forms, and stored under its id and context with form k as k-th part. A file with a wrong magic number or version stores nothing.",
  ["inputs"],"all MO files",
  "Tests read two little-endian files; a swapped table, a wrong byte order on one read, or a context/plural mix-up needs other files.",
  ["mo.go"],[("Parse/addTranslation","mo.go")])
p("C30","Header fields are kept and Language/Plural-Forms recognised",
  "Every 'Key: value' line of the header entry is kept under its key, in order and trimmed; Language and Plural-Forms are recognised whatever their letter case and published on the Domain and the Po/Mo alike; HeaderMap's Add, Set, Get, Values and Del behave like MIME header maps with case-sensitive keys, and Get/Values work on a nil map.",
  ["inputs"],"all header texts",
  "Tests use three headers.",
  ["domain.go","po.go","mo.go"],[("parseHeaders, HeaderMap","domain.go")])
p("C31","Errors are not swallowed",
  "Every error of encoding, decoding, walking, creating and writing files, and of loading the packages of a package tree, in functions that return an error reaches their caller (and in xgotext makes the process exit non-zero); a file that cannot be read leaves the translator unchanged. (A directory that cannot be loaded as a Go package is skipped by the directory scan.)",
  ["inputs","fault_sequences"],"all failures of the underlying operations",
  "Tests provoke none of these failures.",
  ["domain.go","locale.go","translator.go","po.go","mo.go","cli/xgotext/main.go","cli/xgotext/parser/domain.go","cli/xgotext/parser/dir/parser.go","cli/xgotext/parser/pkg-tree/golang.go"],[("if err != nil { return err }","each site")])
p("C32","Lookups and queries do not modify anything",
  "Get*, Append*, IsTranslated*, GetTranslations, GetRefs, MarshalText and MarshalBinary on a Domain, Po, Mo or Locale never modify the catalogue, so that repeating them gives the same result and they never resurrect, create or mark entries.",
  ["histories"],"all catalogues, all sequences of read operations",
  "A read that writes is invisible unless the test looks for that very write.",
  ["domain.go","translation.go","locale.go"],[("read-only method bodies","domain.go, translation.go, locale.go")])
p("C33","Language codes are normalised consistently",
  "Wherever a language code enters the library (locale constructors, Configure, SetLanguage, IsTranslated's language list), everything from the first ':', '@' or '.' on and surrounding blanks are dropped, so that 'en_US.UTF-8', 'en_US@euro' and ' en_US ' all mean 'en_US'; Configure and SetLanguage keep the order of colon-separated lists.",
  ["inputs"],"all language strings, all entry points",
  "Tests normalise a list of codes through one function, not through each entry point.",
  ["helper.go","gotext.go","locale.go"],[("SimplifiedLocale","helper.go and its callers")])
p("C34","Package-level IsTranslated answers for the requested languages",
  "IsTranslatedD, IsTranslatedND, IsTranslatedDC and IsTranslatedNDC of the package go through the requested languages in order (the configured ones when none is given) and give the answer of the first configured locale whose actual language for the domain is the requested one, having loaded the configured locales first and the domain in that locale if it lacked it (and only then); they report false exactly when no configured locale has any of the requested languages.",
  ["inputs","histories"],"all language lists, all locale lists and domains",
  "A test asks for one or two languages of a small tree; skipping or mixing up a locale needs several languages, variants and domains.",
  ["gotext.go","locale.go"],[("IsTranslatedD/ND/DC/NDC","gotext.go")])
p("C35","xgotext looks at every call of every source file it is given",
  "In directory mode every registered parser gets every directory below the given one, except those that are named in the exclude list (relative to the given directory) and what lies below them; an excluded name never leaves out another directory that merely begins with it, and an empty name excludes nothing. The Go parser inspects every file of the directory's package. In package mode every package of the import tree that imports gotext is inspected with all its files, on every call in the same process. Packages are loaded with the names, syntax, type information and imports that the extraction reads. In both modes every call expression of an inspected file, however deeply nested, is handed to the extraction exactly once, with the data, file name and positions of that file; every import that can be loaded is known by the name the file uses for it, and no import takes the place of the file's own package. The command writes what it found into the directory of -out, with -default (when not given: default) as the default domain; no flag is used before the command line is parsed.",
  ["inputs","histories"],"all directory trees, exclude lists, import graphs and syntax trees, any number of calls",
  "The tests walk one small fixture; a skipped node kind, a shared visited set or an exclude prefix needs its own tree to show.",
  ["cli/xgotext"],[("ParseDirRec","cli/xgotext/parser/dir/parser.go"),("goParser","cli/xgotext/parser/dir/golang.go"),("filterPkgsRec","cli/xgotext/parser/pkg-tree/golang.go")])
# not claimed
p("C90","Text and binary round trips preserve values exactly",
  "Parsing the exported text, or decoding the binary encoding, yields a catalogue equal to the original in every value.",
  ["inputs"],"all catalogues","needs equality of runtime values through two string-processing programs",
  ["domain.go","po.go"],[("MarshalText/Parse","domain.go, po.go")])
p("C91","Plural rules select the linguistically right form",
  "For every language in the fixture list and every n the compiled rule yields the form that GNU gettext would select.",
  ["inputs"],"all n and all published rules","numerical result of interpreted rule strings",
  ["plurals/compiler.go"],[("Compile/Eval","plurals")])
p("C92","Named-format helpers substitute the right values",
  "Sprintf/NPrintf replace each %(name)verb by params[name] formatted with that verb.",
  ["inputs"],"all formats","depends on regular-expression matches at run time",
  ["helper.go"],[("reformatSprintf","helper.go")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
