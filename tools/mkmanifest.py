#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed checks."""
import json,os
T={
'C01':("lockset analysis with access paths over the SSA","Pairs of conflicting accesses reachable from the operations declared safe for concurrent use must share a lock of the owning object. Flow- and calling-context-sensitive; the memory model is the Go lockset discipline (no lock-free publication is recognised)."),
'C02':("lock typestate and lock-order analysis over the SSA","Every path of every operation releases what it acquires, never re-acquires, and the acquired-while-holding relation is acyclic. Panicking exits are covered by C03/C04."),
'C03':("abstract interpretation of the SSA: panic and allocation obligations from the parsers","Every operation that may panic on any abstract path from the parsers is discharged from guards, loop invariants and object invariants. Trusts documented standard-library behaviour; 64-bit int; stack and memory exhaustion not modelled."),
'C04':("abstract interpretation of the SSA: panic obligations from the whole exported API","As C03 for every exported function and method, with arbitrary arguments. Receivers and pointer arguments are non-nil and made by the constructors; the named-format helpers are excluded (C92)."),
'C05':("abstract interpretation of the SSA: lookup value-flow against a decision table","Each lookup is compared, on every abstract path and for arbitrary catalogues and arguments, with the declared lookup table (key, form, fallback). fmt.Sprintf and the plural rule are uninterpreted."),
'C06':("abstract interpretation of the SSA: formatting events on every lookup path","Every returned text is traced: fmt.Sprintf is applied on exactly the paths with len(vars) != 0, to the whole variadic slice."),
'C07':("relational abstract interpretation: Append* against Get* on the same abstract state","The bytes appended are compared with the value that the Get counterpart yields on every abstract path."),
'C08':("relational abstract interpretation: forwarding summaries of each layer","Each forwarding function is compared with the operation it stands for, on the same abstract state and arguments."),
'C09':("abstract interpretation of the SSA: IsTranslated value-flow against the lookup's decision table","As C05, for the boolean result."),
'C10':("abstract interpretation of the SSA: loop-structure recognition over the locale list","Package-level lookups are compared with the model 'first locale that has a translation, otherwise the last one', for any number of locales."),
'C11':("abstract interpretation of the SSA: configuration state transformers","The configuration left behind by each setter is compared with its declared value; the locale list is recognised as the map of the languages list. The contents of the loaded files are out of scope."),
'C12':("abstract interpretation of the SSA: form-selection value-flow","The form number that reaches every store and load of a translation form is compared with the selection rule."),
'C13':("abstract interpretation of the SSA: the compiler on token lists of fixed shape with arbitrary operands, and the compiled test on an arbitrary n","All binary operator combinations up to two operators per level; sub-texts are compiled by the same functions (induction over the text). How text is cut into tokens and parentheses are grouped is not covered; the stand-alone tests 'n' and 'n%k' are outside the statement."),
'C14':("abstract interpretation of the SSA: error value-flow, usability of results and token accounting in the compiler","Error flow and nil/zero parts for every path of every compile function (induction over sub-texts); token accounting for every list of up to six arbitrary tokens (seven in the thorough tier). Printing and goroutines: every call site reachable from Compile."),
'C25':("abstract interpretation of the SSA: panic obligations from xgotext's entry points","As C03 for xgotext. Trusts the invariants of go/ast, go/types and x/tools/packages documented there."),
'C31':("abstract interpretation of the SSA: error value-flow to the success returns","Every path of every function that returns an error, and of xgotext's main. Pure conversions (strconv, filepath.Abs/Rel) and closing files that were only read are not sources; a directory that does not load as a Go package is skipped by design."),
'C32':("effect analysis with access paths over the SSA","No write to state reachable from the receiver, the arguments or the package configuration occurs on any path of a query operation, the on-demand domain load excepted where the property says so."),
'C15':("abstract interpretation of the SSA: field-flow agreement between encoders and decoders over gob's wire types","Every path of the four MarshalBinary/UnmarshalBinary pairs; encoding/gob is trusted to carry the exported fields of the wire type by name. Header comments and the refresh state are not part of the statement."),
'C18':("abstract interpretation of the SSA: loop summaries and allocation-site freshness of every copied field","Every path of the three getters, every iteration of their copying loops. Which of two domains wins for an id they share is C17's."),
'C19':("abstract interpretation of the SSA: per-iteration case split of the dropping loops, effect analysis of parsing","Every path of the droppers, setters and loaders."),
'C20':("abstract interpretation of the SSA: final heap of every setter path against the lookup that reads it","Every path of Set/SetN/SetC/SetNC/SetRefs on Domain and Po; the selected form is the term C12 checks."),
'C21':("abstract interpretation of the SSA over an arbitrary unchanging file system: file choice against a decision table","Existence checks are uninterpreted functions of the path; the eight documented paths are compared element by element. Domain names with path separators are not interpreted."),
'C22':("effect analysis along abstract paths: file-system provenance of every file access","Every exported method of Locale, Po and Mo from which a file access is reachable; standard-library file functions are listed in the analyzer."),
'C23':("abstract interpretation of the SSA: publication typestate (parse before publish, one locked section)","Every path of AddDomain and AddTranslator. That lookups read the domains under the lock is C01."),
'C33':("abstract interpretation of the SSA: string-prefix domain (cut points and excluded characters) and value-flow to every entry point","SimplifiedLocale is recognised through Index*/Cut/Split/Contains, IndexFunc predicates and character loops; other algorithms are reported as undecided."),
'C34':("abstract interpretation of the SSA: nested-loop recognition over languages and locales","GetActualLanguage and the locale's own IsTranslated are uninterpreted here (C21, C08 and C09 decide them)."),
'C29':("abstract interpretation of the SSA: byte-offset and byte-order provenance of every value decoded from the file","Every path of Mo.Parse (addTranslation included) against GNU's layout. encoding/binary, bytes.Reader and Split/Cut/Index are trusted; an id with more than one EOT is out of scope."),
'C30':("abstract interpretation of the SSA: per-line case split of the header loop, decision tables for HeaderMap","Every path of parseHeaders, HeaderMap's methods and the end of Po.Parse and Mo.Parse. The key itself is not trimmed (documented oddity); range-over-func rewrites are not followed."),
'C28':("abstract interpretation of the SSA: per-line transition table of the PO reader composed with what it carries over from each keyword line","Every path of one iteration of Po.Parse's line loop after each kind of keyword line (helpers included), the last and the first entry. Lines whose quoting is malformed may contribute nothing; references before the first msgid are header comments (documented oddity). strconv.Unquote, strings.Fields and TrimSpace are trusted."),
'C16':("string-language analysis: the set of texts MarshalText can write (abstract interpretation with loop summaries) is read by a PO lexer, and the lists it walks are traced back to the maps","MarshalText, EscapeSpecialCharacters"),
'C26':("guarded value-flow analysis of ParseGetter, AddTranslation and Save against a case-by-case specification; loop summaries; string-language analysis of the written file","literals are handed over by a full scan of the call's arguments; a domain in the table is never nil"),
'C27':("string-language analysis: every text that Domain.Save can write is lexed as PO","strings with unpaired surrogates/invalid UTF-8 count as ordinary characters"),
'C24':("call-graph query for the library's lookups, matched with the guarded value-flow outcomes of xgotext's call inspection; case-by-case specification of the type test","promoted methods of types that embed a gotext type are outside the statement"),
'C35':("guarded value-flow analysis of the walkers: full-scan recognition of loops, outcome-by-outcome specification of the callbacks of ast.Inspect and filepath.Walk, effect query on the visited set","packages.Load, filepath.Walk and ast.Inspect are taken to do what they document; only the first package that is loaded from a directory is inspected"),
'C17':("order-dependence analysis of ranges over maps: abstract interpretation of each iteration with classification of its effects (commuting, accumulating, last-wins, ordered), flow of unsorted lists to observers, and totality of sort comparisons over the keys of the sorted elements","Assumes entries are stored under their id (C06/C20) and that equal keys give equal header values. The order in which x/tools lists packages and files is the tool's own."),
}
NA={
'C90':"Equality of values after a text or binary round trip depends on the bytes produced and re-read at run time (quoting, decoding, gob framing); no static argument in reach bounds that. The static parts of it are decided as C15 (field agreement), C16 (completeness and escaping) and C28/C29 (readers).",
'C91':"Whether a catalogue's plural rule is the linguistically right one depends on the catalogue's text and on facts about languages outside the source.",
'C92':"What a named format produces depends on fmt's verbs applied to run-time values and on regular-expression matches over the format text; no static argument in reach bounds the match positions.",
}
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
ids=[p['id'] for p in props]
m={"version":1,"setup_cmd":"bash setup.sh","checks":[],"not_applicable":[]}
for i in ids:
    if i in T:
        t,n=T[i]
        m["checks"].append({"property":i,"quick_cmd":"bash check.sh %s"%i,"thorough_cmd":"bash check.sh %s thorough"%i,"technique":"static analysis: "+t,"level":"other","level_note":n})
    else:
        m["not_applicable"].append({"property":i,"reason":NA.get(i,"No static check for it is finished yet.")})
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1); open(here+'/MANIFEST.json','a').write("\n")
