#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source for ids, titles and statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.count('. ') <= 2, (id, statement.count('. '))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "A singular lookup returns exactly the catalog's translation or the source text",
  "For every catalog, context and message id, a singular lookup returns the translation stored for exactly that (context, id) pair of the selected domain and language. When the pair, the domain or the language is absent, or its translation is empty, it returns the given message id itself, unchanged. Contexts, ids, languages and domains never leak into one another.",
  ["inputs", "configurations"], "every catalog (any entries, contexts, unicode/control bytes, sizes), every (context, id) queried, every domain/language selection",
  "The tests look up a dozen fixed messages in one zh_CN catalog; near-miss keys, shared ids across contexts, empty translations and missing layers are not enumerated.",
  ["translator/file.go", "translator/util.go", "translations.go", "translaton.go", "translator.go"],
  [("(context, id) key and empty-translation fallback", "translator/file.go File.X"), ("key()", "translator/util.go"), ("domain/language fallback", "translations.go Translations.X, GetOrNoop")],
  [("File.entries", "messages by context+EOT+id", "translator/file.go")], ["Translations.T/X", "translator.File.X"])

p("C02", "A plural lookup selects the form named by the catalog's plural rule",
  "For every catalog (however many forms it declares, with or without the final semicolon in its Plural-Forms) and count n (negative, zero, huge), a plural lookup returns the translated form whose index the catalog's plural rule yields for n. When there is no usable rule, the index is outside the declared number of forms or beyond the forms present, or the chosen form is empty, it falls back to the source text: the singular when n is 1 or no plural text is given, otherwise the plural. It never panics and never returns another form or another message's text.",
  ["inputs", "configurations"], "every catalog with any number of declared and stored forms, every rule, every layout of the header value GNU gettext accepts, every n of 64 bits",
  "Tests exercise nplurals=1 and one out-of-range rule with n in {1,2,200}; fewer stored forms than declared, empty forms and boundary indexes are never combined.",
  ["translator/file.go", "translator/plural.go", "f/format.go"],
  [("index range check and fallback", "translator/file.go File.XN64"), ("rule parsing", "translator/plural.go parsePlural"), ("source fallback", "f/format.go DefaultPlural")],
  [("plural.totalForms / plural.fn", "declared forms and compiled rule", "translator/plural.go")], ["Translations.N/N64/XN/XN64", "translator.File.XN64"])

p("C03", "Plural expressions evaluate as C integer expressions",
  "Every well-formed plural expression (of up to 1000 characters and 60 levels of parentheses) over n, non-negative decimal literals (with or without leading zeros) and the C arithmetic, shift, comparison, equality, bitwise, logical and conditional operators evaluates, for every n, to the value C assigns it on signed 64-bit integers (precedence, associativity, any nonzero value is true, comparisons yield 0 or 1). The result does not depend on insignificant blanks or redundant parentheses, nor on whether the expression is one of the well-known common ones.",
  ["inputs"], "every expression of the documented grammar and every n",
  "Tests evaluate about fifteen published formulas for n < 215 and a few operator samples; operator combinations, nonzero truth values, large n and layout variants are unbounded.",
  ["plurals/exp.go", "plurals/common.go", "plurals/plural.g4", "plurals/stack.go"],
  [("operator evaluation over a stack", "plurals/exp.go"), ("fast path for common formulas", "plurals/common.go"), ("grammar precedence", "plurals/plural.g4, plurals/parser")],
  None, ["plurals.Eval", "N/XN lookups through the Plural-Forms header"])

p("C04", "Malformed plural rules are reported and contained",
  "Text that is not a plural expression (unbalanced, incomplete, unknown characters, oversized literals, division by zero for the given n) makes evaluation return an error rather than crash or hang; no text makes it crash or hang, whatever its length or nesting. A catalog whose plural header is missing or malformed still loads, its singular lookups work, and its plural lookups fall back to the source texts. The library never prints to the program's output while doing so.",
  ["inputs"], "every byte string as an expression or as a plural header value, every n",
  "Tests feed a handful of invalid expressions; parser error recovery, panics inside evaluation and header variations are not sampled.",
  ["plurals/exp.go", "plurals/err.go", "translator/plural.go", "translator/file.go"],
  [("recover in Eval", "plurals/exp.go"), ("error listener", "plurals/err.go"), ("header pattern and -1 index on error", "translator/plural.go")],
  None, ["plurals.Eval", "File.XN64"])

p("C05", "Reading a PO file yields exactly its translated messages",
  "For every well-formed PO text the loaded catalog contains every translated message with exactly the context, id, plural id, translation(s) and header fields that gettext assigns it, and no others; each carries the comment lines written before it. This holds whatever the layout: wrapped or unwrapped strings, any C escape, comments of every kind, obsolete entries, blank lines, LF or CRLF ends, with or without final newline.",
  ["inputs"], "every message set and every legal layout of it",
  "The tests parse a few literal snippets; layouts, escapes, comment placements and unusual contents are combinatorial.",
  ["translator/po.go", "translator/reader.go", "translator/util.go", "translator/pot.go"],
  [("line state machine", "translator/po.go readEntry"), ("unquoting", "translator/util.go removePrefixAndUnquote"), ("line push-back", "translator/reader.go")],
  None, ["translator.ReadPo", "File.X/XN64/GetHeader/SortedEntry"])

p("C06", "Writing a catalog as PO and reading it back loses nothing",
  "For every catalog, saving it as PO and reading the result yields the same messages: same contexts, ids, plural ids, translations, header fields and comments, byte for byte in every text. Saving the re-read catalog again produces the identical bytes.",
  ["inputs"], "every catalog, including very long lines, embedded newlines, quotes, backslashes, control characters and non-ASCII text",
  "One round trip over the bundled zh_CN.po is tested; wrapping and escaping depend on content and length.",
  ["translator/po.go", "translator/pot.go", "translator/wrap.go", "translator/util.go"],
  [("SaveAsPo", "translator/po.go"), ("quoting", "translator/pot.go writeString"), ("wrapping", "translator/wrap.go split")],
  None, ["File.SaveAsPo", "translator.ReadPo"])

p("C07", "Reading an MO file yields exactly its messages in any valid layout",
  "For every message set, every valid MO encoding of it (little or big endian, revision 0.0, 0.1, 1.0 or 1.1 headers, any placement and order of tables and strings, shared or padded string storage, hash table present or absent) loads into a catalog with exactly those messages. Lookups then return the encoded contexts, ids, plural forms and headers unchanged.",
  ["inputs"], "every message set and every legal file layout",
  "Only the one file produced by msgfmt in testdata (little endian, canonical layout) is read by the tests.",
  ["translator/mo.go"],
  [("byte order detection", "translator/mo.go ReadMo"), ("offset tables", "translator/mo.go ReadMo"), ("EOT/NUL splitting", "translator/mo.go ReadMo")],
  None, ["translator.ReadMo", "File.X/XN64/GetHeader"])

p("C08", "A written MO file is a valid MO file with exactly the catalog's messages",
  "For every catalog, the saved MO follows the GNU MO layout: correct magic and revision, counts, tables and NUL-terminated strings inside the file, ids unique and sorted. An independent reader of the format finds exactly the catalog's messages in it, and reading it back with this library gives the same lookups.",
  ["inputs"], "every catalog (entry counts and string sizes across every width boundary, contexts, plurals)",
  "One file is written by the tests and not compared with anything; offsets and lengths depend on every string.",
  ["translator/mo.go"],
  [("offset arithmetic", "translator/mo.go SaveAsMo"), ("header", "translator/mo.go writeMoHeader"), ("moMsgID/moMsgStr", "translator/mo.go")],
  None, ["File.SaveAsMo", "translator.ReadMo"])

p("C09", "PO and MO forms of one catalog answer every lookup identically",
  "For every catalog, loading its PO form, its MO form as written by this library and its MO form as compiled by an independent implementation give translators that agree on every singular and plural lookup, formatted or not, on the language and on every header. This includes messages that are absent, untranslated or partly translated.",
  ["inputs"], "every catalog, every query and every n",
  "Tests load both bundled files separately and never compare the two readers.",
  ["translator/po.go", "translator/mo.go", "translator/file.go"],
  [("two readers, one lookup", "translator/po.go, translator/mo.go, translator/file.go")],
  None, ["ReadPo", "ReadMo", "SaveAsMo"])

p("C10", "Hostile catalog bytes are handled or rejected cleanly",
  "Any byte string given as a PO, POT or MO file is either loaded or rejected with an error: no panic, no endless loop. Sizes and counts declared inside the file never make the reader allocate memory that the file's real size does not justify. Whatever loads can be looked up, listed and saved in every format without a crash.",
  ["inputs"], "every byte string, including mutated valid files",
  "Tests contain no corrupted binary file and only a few malformed text lines.",
  ["translator/mo.go", "translator/po.go", "translator/reader.go", "translaton.go"],
  [("bounds checked reads", "translator/mo.go ReadMo"), ("error returns", "translator/po.go readPo/readEntry")],
  None, ["translator.ReadPo/ReadPot/ReadMo", "Translations.BindFS"])

p("C11", "A truncated or damaged MO file never loads as a partial catalog",
  "For every valid MO file cut short at any byte so that a table or string it refers to is incomplete, reading fails with an error and no catalog is produced. The same holds when a table entry is changed to point outside the file, or when the magic number or version is unknown.",
  ["crash_points", "inputs"], "every prefix of every valid MO file and every single out-of-range table entry",
  "No test truncates a file.",
  ["translator/mo.go", "translaton.go"],
  [("full reads at declared offsets", "translator/mo.go ReadMo"), ("error keeps catalog unloaded", "translaton.go LoadMo/LoadFS")],
  None, ["translator.ReadMo", "Translations.BindFS + HasDomain"])

p("C12", "Loading a tree binds every language with the documented precedence",
  "For every file tree (directory, nested directories, single file, any file system implementation), loading it makes each .po/.mo catalog in it available under its normalized language and ignores all other files. When several files carry the same language a .po wins over a .mo and, within one kind, the last in lexical path order wins. The language comes from the catalog's header, never from the file name.",
  ["inputs", "configurations"], "every tree shape, naming and set of catalogs",
  "Tests load one flat directory with a single language.",
  ["translaton.go", "fs.go", "init.go"],
  [("mo walk then po walk", "translaton.go LoadFS"), ("single file as FS", "fs.go pathFS"), ("AddOrReplace", "translaton.go")],
  [("Translation.langs", "translator per normalized language", "translaton.go")], ["Load/Bind/LoadFS/BindFS, Locales, T"])

p("C13", "A bad file never prevents the good ones from loading",
  "When opening, stat-ing, listing or reading any subset of files or directories fails, or their content is corrupt, every other catalog of the tree still loads with the same result as if the failing parts were absent. Every file that was opened is closed. When nothing could be loaded the previously bound catalog of that domain stays in place, fully usable.",
  ["fault_sequences", "inputs"], "every tree and every set of injected failures at every operation",
  "No test injects an I/O error or a corrupt file.",
  ["translaton.go", "translations.go"],
  [("errors skipped per file", "translaton.go LoadFS"), ("bind only when something loaded", "translations.go BindFS")],
  None, ["BindFS with a fault-injecting fs.FS"])

p("C14", "Domain and locale state behaves like a simple model under any history",
  "After any sequence of bind, remove, clear, set-domain, set-locale and set-source-locale operations, the reported domains, current domain, locale, source locale, used locale, supported locales and every lookup equal those of a plain map from domain to language to catalog. In particular a rebind replaces the domain's catalogs, removing the current domain falls back to the default one, clearing keeps the locales, and supported locales are sorted, unique and include the source locale.",
  ["histories"], "every finite sequence of state operations with any arguments",
  "Tests run two short fixed sequences (remove, clear).",
  ["translations.go", "translaton.go", "init.go"],
  [("BindFS/RemoveDomain/ClearDomains/SetDomain/SetLocale/UsedLocale/Locales", "translations.go")],
  [("Translations.domains/domain/locale/sourceCodeLocale", "the whole state", "translations.go")], ["all accessors of Translations and the package functions"])

p("C15", "Derived views never disturb the instance they come from",
  "Deriving a view for a language, a domain, a request context or from the global instance yields exactly the parent's state with only that selection changed. No operation on a view changes any answer of its parent, of the global instance or of a sibling view, and no later operation on the parent changes an existing view.",
  ["histories"], "every interleaving of derivations and operations on a tree of views",
  "Tests derive one view and read from it; nothing mutates afterwards.",
  ["translations.go", "context.go", "gettext.go", "init.go"],
  [("clone", "translations.go clone/L/D"), ("WithContext", "context.go"), ("Global returns a copy", "init.go")],
  None, ["L, D, Global, WithContext, and every accessor"])

p("C16", "All entry points of the lookup family agree",
  "For every state and arguments, each package-level function gives the same result as the method of that name on the global instance, and each short form gives the same result as the general one it abbreviates (no context = empty context, int and 64-bit counts, one-text plural = plural with an empty plural text). Marking functions return their arguments unchanged.",
  ["inputs", "configurations"], "every function of the family, every argument tuple, every state",
  "Tests call several of the functions once with fixed arguments.",
  ["gettext.go", "translations.go", "init.go", "mark.go", "translator.go"],
  [("delegation to X/XN64", "gettext.go, translations.go"), ("Mark", "mark.go")],
  None, ["T,N,N1,N1_64,N64,X,XN,XN1,XN64,XN1_64 as functions and methods; Mark"])

p("C17", "Language names normalize to one canonical ll_CC form",
  "For every language and region, all usual spellings (case, '-' or '_', script subtag, codeset or modifier suffix) normalize to the same canonical ll_CC name, and normalization is idempotent. An explicit region is always kept, the likely region is filled in when it is missing, and unrecognised input gives a fixed valid default instead of failing. Wherever a language enters (setting a locale, a catalog header, the source language) the same normalization applies, so any two spellings select the same catalog.",
  ["inputs"], "every language/region/script combination in every spelling, and arbitrary strings",
  "Tests cover a few Chinese and English spellings.",
  ["locale/detect.go", "translations.go", "translaton.go"],
  [("Normalize/NormalizeTag", "locale/detect.go"), ("AddOrReplace, SetLocale, SetSourceCodeLocale", "translaton.go, translations.go")],
  None, ["locale.Normalize", "SetLocale/Locale/UsedLocale/T"])

p("C18", "Language negotiation picks the best supported language deterministically",
  "For every supported list and preference list, the negotiated language is always one of the supported ones, an exactly supported preference is honoured in the user's order of preference (quality values for Accept-Language, whose header lines count as one list; elements of it that are malformed or name no known language do not affect the others), and the result depends only on the arguments. The language cookie, under the configured name, overrides the Accept-Language header. An instance's most-match language is computed from that instance's own locale and supported languages.",
  ["inputs", "configurations"], "every supported/accepted list, header, cookie configuration and instance state",
  "Tests check a dozen fixed pairs and one request with a single supported language.",
  ["matcher.go", "tag.go", "http.go", "translations.go"],
  [("Match/MatchTag", "matcher.go"), ("cached tags", "tag.go"), ("GetUserLang", "http.go"), ("MostMatchLocale", "translations.go")],
  [("cachedTag", "memoised parse of language names", "tag.go")], ["Match, MatchTag, Tag, Tags, GetUserLang, MostMatchLocale"])

p("C19", "Formatting equals Sprintf without surplus-argument noise",
  "For every text and argument list, formatting gives what fmt.Sprintf gives for the arguments the text uses; surplus arguments leave no trace. Without arguments the text is returned unchanged, even if it contains verbs. This applies identically to translated and to fallback texts.",
  ["inputs"], "every format text (flags, widths, precisions, explicit indexes, dangling percent, any unicode) and every argument list",
  "About ten fixed formats are tested.",
  ["f/format.go", "translator/file.go", "translator.go"],
  [("Format", "f/format.go")], None, ["f.Format, f.DefaultPlural, every lookup with arguments"])

p("C20", "Lookups, saves and accessors have no side effects",
  "No lookup, formatting, saving, listing or negotiation call changes anything observable: the caller's argument slices (including spare capacity), loaded catalogs, later answers to any query, entry lists or saved bytes. Repeating any such call gives the same result, and results handed out (lists of domains, locales, entries, tags) can be modified by the caller without affecting the library.",
  ["histories", "inputs"], "every sequence of read-only calls with any arguments",
  "Tests call each function once and look only at the return value.",
  ["f/format.go", "errors/errors.go", "translator/file.go", "translations.go", "tag.go", "matcher.go"],
  [("argument copying", "f/format.go"), ("fresh result slices", "translations.go Domains/Locales, translator/file.go SortedEntry, tag.go Tags")],
  None, ["every read-only API before/after snapshots"])

p("C21", "Concurrent lookups are safe and equal sequential ones",
  "Once catalogs are loaded, any number of goroutines may look up, format, derive views, negotiate languages and save catalogs at once, without data races or crashes. Every call returns what it would return alone.",
  ["schedules", "inputs"], "every mix of read operations on shared instances and every schedule",
  "No test starts a goroutine.",
  ["translator/file.go", "translations.go", "tag.go", "plurals/exp.go", "plurals/parser"],
  [("headers and plural rule parsed when the header entry is added", "translator/file.go AddEntry"), ("sync.Map tag cache", "tag.go"), ("clone per view", "translations.go")],
  [("File.headers, File.plural", "lazily cached metadata shared by readers", "translator/file.go")], ["race detector build; results compared with a sequential run"])

p("C22", "Catalog metadata always reflects the current header entry",
  "After any sequence of adding entries and asking for headers, language or plural forms, the answers are those of the header entry added last (the entry with neither context nor id), parsed as 'Key: value' lines with the first occurrence of a key winning and surrounding blanks trimmed. Values may contain colons. Adding any other entry replaces the one with the same context and id and touches nothing else.",
  ["histories", "inputs"], "every history of additions and queries, every header text",
  "Tests build each catalog once and never re-add or query in between.",
  ["translator/file.go", "translator/entry.go"],
  [("AddEntry refreshing cached headers and plural rule", "translator/file.go"), ("isHeader", "translator/entry.go"), ("reHeader", "translator/file.go")],
  [("File.headers, File.plural", "cached parse of the header", "translator/file.go")], ["File.AddEntry/GetHeader/Lang/X/XN64"])

p("C23", "Saved files and entry lists are complete, ordered and reproducible",
  "Listing a catalog gives each entry exactly once: the header first, then entries by their source references with line and column numbers compared as numbers, then by context and id. The list and the bytes of every saved format depend only on the catalog's content, never on insertion order or on the run.",
  ["inputs", "histories"], "every set of entries, comments and insertion orders",
  "Tests print the order without asserting it.",
  ["translator/entry.go", "translator/file.go", "translator/po.go", "translator/pot.go", "translator/mo.go"],
  [("sort key", "translator/entry.go getSortKey/getLineString"), ("SortedEntry", "translator/file.go")],
  None, ["File.SortedEntry, SaveAsPo, SaveAsPot, SaveAsMo"])

p("C24", "A saved POT is a translation-free template of the catalog",
  "For every catalog, the saved POT lists every message with its comments, context, id and plural id, an empty translation for each (two empty forms for plurals), and the header's text kept. Reading the POT back gives the same messages and header, including untranslated ones and whatever comments surround them, and saving that again produces identical bytes.",
  ["inputs"], "every catalog and every POT text with comments anywhere",
  "Six literal outputs are compared; reading back and stray comments are not tested.",
  ["translator/pot.go", "translator/po.go"],
  [("SaveAsPot", "translator/pot.go"), ("ReadPot keeps untranslated entries", "translator/po.go readPo")],
  None, ["File.SaveAsPot, translator.ReadPot"])

p("C25", "A failed write is always reported",
  "When the destination of a save fails or accepts only part of the data at any byte, the save returns an error carrying that failure. When it returns no error, the destination received exactly the complete file.",
  ["fault_sequences", "crash_points"], "every catalog, format and failing byte position, error or short write",
  "No test uses a failing writer.",
  ["translator/po.go", "translator/pot.go", "translator/mo.go"],
  [("final WriteTo error returned", "translator/po.go SaveAsPo, pot.go SaveAsPot, mo.go SaveAsMo")],
  None, ["SaveAsPo/SaveAsPot/SaveAsMo with a faulty io.Writer"])

p("C26", "Template extraction finds every marked literal message and nothing else",
  "For every parseable template, extraction yields exactly the messages passed as string literals to a configured keyword at its configured argument positions, wherever the call stands: plain action, if/else/range/with/template/block/define, pipelines, nested parentheses, field, method, variable or chained calls, any delimiters. Calls with missing or non-literal arguments and text outside actions or in comments contribute nothing. Each message carries a reference to its file and line.",
  ["programs", "configurations"], "every template program, keyword configuration and delimiter pair",
  "Two sample templates are tested for the presence of some entries; absence of false extractions and nesting are not.",
  ["cmd/xtemplate/internal/run.go", "cmd/xtemplate/internal/param.go"],
  [("AST walk", "run.go resolveNode/resolvePipe/resolveCmds"), ("keyword matching", "run.go filter/extract"), ("piped literal", "run.go pipedStringArg"), ("auto-registered function names", "run.go scanFuncNames")],
  None, ["xtemplate output POT"])

p("C27", "Keyword specifications parse exactly as documented or are rejected",
  "Every specification of the documented form (names, optional positions, an optional context position marked 'c', separated by ';', blanks ignored) parses to exactly those keywords and positions in order. Every other specification is rejected with an error, and no configuration is silently misread.",
  ["inputs"], "every string as a keyword specification",
  "A table of about ten specifications is tested.",
  ["cmd/xtemplate/internal/keyword.go"],
  [("ParseKeywords", "keyword.go")], None, ["ParseKeywords; xtemplate -k"])

p("C28", "The extracted POT is complete, merged and reproducible",
  "For every set of templates the output is a well-formed POT with one entry per (context, id), the references of all its uses, a go-format flag when a text contains a verb, and an intact header recording the run's parameters. A plural and a singular use of one id are reported and do not corrupt the entry. Apart from the creation date, two runs over the same files produce identical bytes.",
  ["programs", "inputs"], "every set of template files and every repetition",
  "Tests assert only that some keys exist; output bytes are never compared across runs.",
  ["cmd/xtemplate/internal/run.go", "cmd/xtemplate/internal/param.go", "translator/pot.go"],
  [("Context.Add merging", "param.go"), ("header", "param.go"), ("deterministic order", "run.go resolveOneFile, translator SortedEntry")],
  [("Context.entries", "extracted messages by context and id", "param.go")], ["xtemplate output POT"])

p("C29", "The extractor never reports success for incomplete output",
  "When any input file cannot be read or parsed, the keyword specification is invalid, or the output cannot be opened or completely written, the extraction returns an error and the command exits with a nonzero status. Conversely exit status zero means the complete POT of all matched files is in the requested output (file or standard output).",
  ["fault_sequences", "configurations"], "every combination of bad inputs, flags and failing outputs",
  "The only run tested succeeds and its output is not inspected.",
  ["cmd/xtemplate/main.go", "cmd/xtemplate/internal/run.go", "cmd/xtemplate/internal/param.go", "cmd/xtemplate/internal/keyword.go"],
  [("first error returned", "run.go Run"), ("close error returned", "run.go Run"), ("exit codes", "main.go")],
  None, ["the built xtemplate command and Run"])

p("C30", "Written PO and POT files are valid GNU gettext files",
  "For every catalog, the saved PO and POT conform to the GNU PO file grammar (only C escapes, every entry has its translation lines, plural forms numbered from zero without gaps). An independent strict reader, and GNU msgfmt where available, accept them and recover exactly the catalog's texts.",
  ["inputs"], "every catalog with unique messages, any characters and lengths",
  "Output is compared with six literals and never given to another tool.",
  ["translator/po.go", "translator/pot.go", "translator/wrap.go"],
  [("writeString/quoting", "translator/pot.go"), ("split", "translator/wrap.go"), ("SaveAsPo/SaveAsPot", "translator/po.go, pot.go")],
  None, ["File.SaveAsPo, File.SaveAsPot"])

p("C31", "Extracted, translated and loaded messages appear translated in the program",
  "For every program whose templates mark messages with T, N, N64, X, XN, XN64, N1 or XN1: when they are extracted with the matching keywords, the POT is translated (with this library or other tools, kept as PO or compiled to MO) and the result is loaded, then rendering in each of those languages shows every marked message as its translation, in the plural form of the language's rule for its count and formatted with its arguments. Untranslated messages and unsupported languages show the source text.",
  ["programs", "inputs", "configurations"], "every executable template program, message text, count, language, plural rule, catalog format and way of loading",
  "No test connects extraction, catalog writing, loading and lookup; each is tested alone with fixed files.",
  ["cmd/xtemplate/internal/run.go", "cmd/xtemplate/internal/param.go", "translator/pot.go", "translator/po.go", "translator/mo.go", "translator/file.go", "translations.go", "gettext.go"],
  [("extraction keys equal lookup keys", "run.go extract, entry.go Key"), ("header and plural forms survive the workflow", "param.go header, file.go initPlural"), ("lookups", "translations.go, gettext.go")],
  None, ["xtemplate; ReadPot, SaveAsPo, SaveAsMo; Load/BindFS; T, N, N64, X, XN, XN64, N1, XN1"])

p("C32", "A Translation is a map from languages to the translators added last",
  "After any sequence of adding translators (catalog files or the user's own implementations) and of loading bytes, files or trees, a Translation answers for each language with exactly the translator added or successfully loaded last for it, under any spelling the translator names its language in. Adding returns the translator it replaces; a translator without a language replaces nothing. Every load reports success exactly when its catalog was loaded, a failed load changes nothing, and a missing language answers with the source texts.",
  ["histories", "fault_sequences"], "every history of additions and loads, with stat, open, read and content faults",
  "Tests add two catalogs once and never combine replacement, own translators and failures.",
  ["translaton.go", "translator.go", "locale/detect.go"],
  [("AddOrReplace", "translaton.go"), ("LoadFS/LoadFile/LoadPo/LoadMo", "translaton.go"), ("no-op translator", "translator.go")],
  [("Translation.langs", "translator per language", "translaton.go")], ["NewTranslation, AddOrReplace, Get, GetOrNoop, LoadFS, LoadFile, LoadPo, LoadMo"])

p("C33", "Rejected input is reported with the place that is wrong",
  "Whatever is rejected is named so that the user can find it: the error of reading a PO or POT file with a wrong line, through every reading entry point, carries that line's number (counted from 1) and its text, and no catalog; the extractor names, on standard error, every template that cannot be read or parsed, with the line of a syntax error, even when several fail in one run; a rejected keyword specification and an output that cannot be opened are shown verbatim, whatever characters they contain.",
  ["inputs", "fault_sequences"], "every legal file layout, position and kind of a wrong line; every set of failing templates; every specification and name",
  "Tests only look at whether an error is returned, never at what it says.",
  ["translator/po.go", "translator/reader.go", "translaton.go", "cmd/xtemplate/internal/run.go", "cmd/xtemplate/internal/keyword.go"],
  [("line counting", "translator/reader.go, po.go readEntry/readQuoted"), ("per-file reports", "run.go Run, resolveOneFile"), ("specification errors", "keyword.go ParseKeywords, Writer")],
  None, ["errors of ReadPo, ReadPot, LoadPo, LoadFile; xtemplate's stderr"])

p("C34", "Errors keep every cause and compose their messages",
  "For every tree of errors built with package errors: Wrapf reads as the formatted text, a colon and the wrapped error's text, whatever verbs, argument positions or literals the format uses; WithSecondaryError reads as both texts; Is (and the standard Is and As) finds exactly the errors the tree was built from, at any depth and on both sides; the caller's arguments are left as they were.",
  ["inputs", "histories"], "every tree of wrapped, combined and formatted errors, every format that uses its arguments",
  "Package errors has no tests of its own.",
  ["errors/errors.go"],
  [("Wrapf", "errors/errors.go"), ("WithSecondaryError", "errors/errors.go"), ("Is", "errors/errors.go")],
  None, ["errors.Errorf, Wrapf, WithSecondaryError, Is"])

p("C35", "The extractor works the same in every environment",
  "The POT and the exit status of xtemplate depend on its arguments and input files only: not on the user's language, time zone or working directory, nor on what LANG_PATH points at - nothing, a missing or unusable place, or catalogs with good, wrong, damaged or garbage translations of its own messages. Messages appear in the user's language when LANG_PATH, or without it the built-in catalog, has it.",
  ["configurations", "fault_sequences"], "every environment, combined with every template set and failing or succeeding invocation",
  "No test runs the built command.",
  ["cmd/xtemplate/main.go", "cmd/xtemplate/lang/zh_CN.po", "translations.go", "init.go", "locale/detect.go"],
  [("initTranslation", "cmd/xtemplate/main.go"), ("buildParam", "cmd/xtemplate/main.go"), ("GetDefault", "locale/detect.go")],
  None, ["exit status, standard output and standard error of xtemplate"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
