# exec'd by props.py. built=True once the check exists.
MC = "exhaustive bounded enumeration of inputs on the real code against a reference model"
SCHED = "stateless model checking: exhaustive interleaving exploration of the real code under a controlled scheduler"
INP = ["inputs"]

prop("C01", "A text view maps every character and every node consistently",
 "For every document tree, starting node and parameter setting (other than stemming together with back mapping), building the text view succeeds and gives each traversed node one contiguous character range: siblings' ranges follow each other in document order without gap or overlap, and together exactly fill their parent's range unless the parent was replaced by a token or skipped. With back mapping on, every character of the text maps to the text node it came from and the index of the original character in that node's content (never decreasing within the node), or to the replaced element with offset -1. Character positions, byte offsets and the plain text agree for all Unicode text, and asking for the range of a node that was not traversed is an error.",
 INP, "every DOM tree, start node, parameter combination and Unicode text",
 "the tests build text views of a few sample articles and check only that a node's text is found somewhere; no test looks at the back map, the nesting of ranges or non-ASCII offsets.",
 ["src/dnm/mod.rs"], [("depth-first construction of text, node map and back map", "src/dnm/mod.rs DNM::new, recurse_node_create")],
 ["public fields and ranges of a text view"],
 state=[("node map", "node to character range", "src/dnm/mod.rs"), ("back map", "character to node and offset", "src/dnm/mod.rs")],
 built=BUILT("C01"), technique=MC,
 note="Every tree, text and parameter setting within the bounds is built by the real code and every invariant is checked on the result; trusts libxml2's DOM access.")

prop("C02", "The plain text is exactly the prescribed normalization of the document",
 "The plain text of a document is exactly what the parameters prescribe. For each element the rules of its classes, in the order of its class attribute, come before the rule of its element name; the first rule found decides whether the element is entered, skipped, or replaced by its fixed or computed token, which is padded by one space on each side when wrapping is on (a space that collapsing would merge with preceding whitespace being left out), and elements without a rule are entered. Text is, as switched on and in this order, transliterated to ASCII, stemmed, lowercased, and whitespace-collapsed across node boundaries (leading whitespace dropped, every run one space, tokens untouched); comments and processing instructions contribute nothing.",
 INP, "every DOM tree, rule table and flag combination",
 "the tests compare a handful of hand-written fragments under two or three parameter settings; rules on several classes, computed tokens, stemming and the interplay of the flags are never exercised together.",
 ["src/dnm/mod.rs", "src/dnm/parameters.rs"], [("rule lookup and text transformation chain", "src/dnm/mod.rs intermediate_node_create, text_node_create")],
 ["plain text of a text view"], built=BUILT("C02"), technique=MC,
 note="Real code against an independently written reference normalizer on every input within the bounds; transliteration and stemming tables are stand-ins shared by both sides.")

prop("C03", "Range arithmetic is exact on Unicode text",
 "For every text and every range of it: the range's text is the characters from its start up to its end; trimming yields the smallest subrange holding all its non-whitespace characters, or the empty range at its end if there are none; the truncated text only loses trailing whitespace; a subrange by character offsets, or by byte offsets lying on character boundaries (empty ones included), denotes exactly the corresponding substring; the first node is the one its first character maps to; and a range is empty exactly when its text is. No range within the text makes any of these fail, whatever the Unicode content.",
 INP, "every Unicode text, range and pair of relative offsets",
 "the tests only use ranges over ASCII text; the quantifier is over all Unicode texts and offsets.",
 ["src/dnm/range.rs"], [("offset arithmetic over the byte offset table", "src/dnm/range.rs")],
 ["ranges and their texts"], built=BUILT("C03"), technique=MC,
 note="Every string within the bounds, every range of it and every relative offset pair, on the real code, against character-vector arithmetic.")

prop("C04", "Serialized ranges deserialize to the same range",
 "For every document with back mapping (whose ids are unique XML names) and every range of its plain text, serializing yields an XPointer whose XPath expressions each select exactly one node of that document, and deserializing it again yields a range with the same start and end, provided both ends fall on characters of the text or on whole replaced elements (an end inside a replacement token extends to the end of that token, a start inside one to its beginning, and an empty range stays a single point). Deserializing it with another text view of the document that covers the nodes at both ends denotes the same original characters or elements there. Serializing never fails, including for ranges reaching the end of the text, and holds for elements with ids, namespaced elements, repeated names, comments between siblings, text views of a part of the document, and characters that transliteration expanded (then up to that original character).",
 INP, "every document tree and range",
 "two fixed ranges of one document are round-tripped; ends of documents, replaced nodes at either end, ids, namespaces and comments are never tried.",
 ["src/dnm/range.rs"], [("XPointer creation and evaluation", "src/dnm/range.rs serialize, deserialize")],
 ["serialized strings", "deserialized ranges"], built=BUILT("C04"), technique=MC,
 note="All ranges of all documents within the bounds are round-tripped through the real code.")

prop("C05", "Sentence segmentation partitions the text without losing words",
 "For every text, the sentences are non-empty, in order, disjoint, inside the text, trimmed of whitespace at both ends, and every character outside all sentences is whitespace or belongs to a trailing piece of the text without any letter. Segmentation never fails, whatever the Unicode content.",
 INP, "every Unicode text", "the tests compare sentence counts on sample paragraphs; lost tails, offsets in non-ASCII text and unusual endings are outside the sample.",
 ["src/tokenizer.rs"], [("character loop with left window", "src/tokenizer.rs sentences")],
 ["sentence ranges"], built=BUILT("C05"), technique=MC,
 note="Every text over the enumerated alphabets of characters and tokens is segmented by the real code and the partition invariant checked.")

prop("C06", "Sentence boundaries follow the documented rules",
 "A sentence ends after a period or colon when, past any whitespace and single quotes, a word containing an uppercase letter follows, unless that word is not a stopword and the text before the mark ends in a known abbreviation or a single letter other than I; it also ends there when an opening parenthesis, double quote or asterisk follows, and after a period whose preceding text does not end in an abbreviation or single letter when a word starting with the formula token mathformula follows. It ends after a question or exclamation mark unless the mark stands directly between matching brackets or quotes, at two consecutive line breaks followed by a word that neither starts in lower case nor with the formula token, and before an uppercase letter that directly follows a formula token (line breaks between them are ignored); it ends nowhere else.",
 INP, "every text", "the tests cover one example of each rule at most; combinations, window contents and Unicode are not sampled.",
 ["src/tokenizer.rs", "src/stopwords.rs"], [("boundary rules", "src/tokenizer.rs sentences, abbreviation_check")],
 ["sentence ranges"], built=BUILT("C06"), technique=MC,
 note="Real segmentation against an index-based reference segmenter on every text within the bounds.")

prop("C07", "Word tokenization loses and invents nothing",
 "For every text, the words of a range are exactly its maximal runs of letters and digits, in order, where an apostrophe (' or ’) directly followed by the letter s counts as part of the run it stands in. The words with punctuation are in order and disjoint and cover every non-whitespace character of the range: each maximal run of letters and digits is one item, an apostrophe is joined to the run after it exactly when that run is t, s, un, th, ll, d, ve, il, re or m, and every other punctuation character is an item of its own. Both hold for all Unicode text and ranges starting anywhere, and never fail.",
 INP, "every Unicode text and range", "the tests count words of sample documents and check one sentence; typographic apostrophes and non-ASCII words are not sampled.",
 ["src/tokenizer.rs"], [("word accumulation", "src/tokenizer.rs words, words_and_punct")],
 ["word ranges"], built=BUILT("C07"), technique=MC,
 note="Every string within the bounds, as a whole text and as an inner range, against a reference tokenizer.")

prop("C08", "The canonical form depends only on names, classes and text",
 "The canonical form of a node is its start tag with the element name and its classes sorted, the canonical forms of its children in order, and its end tag; text is that of the text view and is left out when blank, comments and all attributes other than class are left out, annotation elements are left out with their content, and semantics elements are replaced by their children. The hash of a node is the MD5 digest, in lowercase hexadecimal, of its canonical form, so documents differing only in class order, other attributes, comments, annotations or blank text hash alike, and the whole-document forms equal those of the root.",
 INP, "every DOM tree", "the tests canonicalize one sample fragment and compare two hashes.",
 ["src/dnm/c14n.rs"], [("recursive canonicalization", "src/dnm/c14n.rs canonical_internal")],
 ["canonical string", "hash string"], built=BUILT("C08"), technique=MC,
 note="All trees within the bounds against a reference serializer; MD5 is compared with an independent implementation of RFC 1321.")

prop("C09", "Concurrent hashing yields each document's own hash",
 "However many threads hash nodes at the same time and however they interleave, every hash equals the one computed alone, and no thread waits forever or fails.",
 ["schedules"], "every interleaving of the threads hashing documents", "no test hashes from two threads; which interleavings occur is up to the OS.",
 ["src/dnm/c14n.rs"], [("process-wide hasher behind a lock", "src/dnm/c14n.rs MD5_HASHER")],
 ["hash strings per thread"], state=[("hasher", "shared digest state", "src/dnm/c14n.rs")], built=BUILT("C09"), technique=SCHED,
 note="All schedules of 2 and 3 hashing threads up to the preemption bound, with scheduling points at every lock operation and every digest operation of the real code.")

prop("C10", "A parallel corpus walk sees every document once and sums reports exactly",
 "For every directory tree, directory listing order, number of workers and interleaving, the parallel walk calls the given function exactly once for every parseable file in the tree (links to directories are not followed) whose name has the selected suffix (by default .html or .xhtml) and is not hidden or inside a hidden directory, and returns, for each key, the sum of the reported counts over all documents; the variant with two reports does so for both. Files whose name ends in .xhtml are read as XML, all others as HTML; unreadable or unparseable files and directories are passed over without ending the walk, and the result does not depend on the schedule.",
 ["schedules", "inputs", "fault_sequences"], "every schedule, listing order, worker count, corpus layout and set of unreadable files", "one run over a fixed directory with whatever schedule occurs.",
 ["src/parallel_data/corpus.rs", "src/parallel_data/document.rs"], [("jwalk listing bridged into rayon, map and reduce", "src/parallel_data/corpus.rs")],
 ["returned catalogs", "documents handed to the closure"], built=BUILT("C10"), technique=SCHED,
 note="jwalk and rayon are replaced by shims whose listing order, work distribution, splitting and reduction order are scheduler choices, all enumerated up to the deviation bound.")

prop("C11", "Token model extraction writes every document whole, exactly once",
 "For every corpus, schedule and worker count, the token model file holds for every document exactly one contiguous block with one line per retained paragraph, starting with a line break, in which each word or punctuation token stands lowercased, as NUM for a number, citationelement for a citation and the formula's lexemes for a formula (nothing if math is discarded), each followed by one space; paragraphs with a token over 25 bytes are left out, and their tokens counted only up to the first such one. The returned counts are the exact totals of documents, paragraphs, words, numbers, citations, formulas and overflows. A failure to create or write the file is reported, by an error or a panic, rather than leaving a silently incomplete model.",
 ["schedules", "inputs", "fault_sequences"], "every schedule, corpus within the bounds and write failure point", "one extraction over a fixed corpus, checking totals only.",
 ["src/util/token_model.rs"], [("per-document buffer written under a lock", "src/util/token_model.rs extract")],
 ["model file", "returned counts"], built=BUILT("C11"), technique=SCHED,
 note="All schedules up to the deviation bound and all write failure positions, with the file's bytes parsed back into document blocks.")

prop("C12", "A sequential corpus walk yields every selected, parseable document",
 "For every directory tree, iterating over a corpus yields exactly one document for every parseable file below its root (links to directories are not followed) whose name ends in the configured suffix (by default .html or .xhtml), each with the path it was found at, and then ends; a file or directory that cannot be read or parsed is passed over and does not end or break the iteration. Files whose name ends in .xhtml are read as XML, all others as HTML.",
 ["inputs", "fault_sequences"], "every directory tree and set of unreadable files", "a fixed directory whose files all parse.",
 ["src/data.rs"], [("directory walk with suffix filter", "src/data.rs DocumentIterator")],
 ["documents yielded"], built=BUILT("C12"), technique=MC + " and fault placements",
 note="All directory trees within the bounds, with every placement of unparseable and unreadable entries.")

prop("C13", "Anchored n-grams count exactly the phrases near an anchor",
 "With an anchor word, a window size of at least 1 and n of at least 1, adding content counts every occurrence of n consecutive words all of which lie within the window distance of an occurrence of the anchor, where words are the whitespace-separated pieces starting with a letter or digit and distance is the difference of word positions. Counts accumulate over contents, which never form phrases together; lookups return the exact count or zero, the distinct count is the number of different phrases, and the report lists all of them by falling count.",
 ["inputs", "histories"], "every word sequence, window, n and history of contents", "n-grams have no test at all.",
 ["src/ngrams.rs"], [("context window and continuous buffer", "src/ngrams.rs add_anchored_content, record_words")],
 ["get, distinct_count, sorted, counts"], built=BUILT("C13"), technique=MC,
 note="Every word sequence within the bounds against a definition-level reference; no sampling.")

prop("C14", "A dictionary numbers distinct words in order of first appearance",
 "After any history of insertions, the dictionary holds exactly the distinct inserted words, numbered 1, 2, 3, ... by first insertion, unchanged by later insertions; its count is the number of distinct words, and its sorted listing holds every word with its number, in descending order of number.",
 ["histories"], "every insertion history", "the dictionary has no test.",
 ["src/ngrams.rs"], [("insert with running index", "src/ngrams.rs Dictionary")], ["map, count, sorted"],
 state=[("index", "number of distinct words", "src/ngrams.rs")], built=BUILT("C14"), technique=MC,
 note="Every insertion history within the bounds, observed after every step.")

prop("C15", "Math lexemes are extracted completely and normalized uniformly",
 "The lexemes of a math node are those of all annotation elements below it (in any namespace, in document order) whose encoding is application/x-llamapun, split at whitespace and so that every :start and :end marker ends its lexeme and the role of a glued :end marker starts a new one, and joined by single spaces. Lexemes beginning with NUM, ARRAY, ATOM or SUPERSCRIPTOP are reduced to that word and in all others colons and hyphens become underscores; if there is no lexeme at all, the result is mathformula.",
 INP, "every annotation content and tree", "no test covers lexeme extraction; the examples use it on sample articles.",
 ["src/dnm/node.rs"], [("annotation query and rewriting", "src/dnm/node.rs lexematize_math")], ["lexeme string"],
 built=BUILT("C15"), technique=MC, note="Every concatenation of the lexeme pieces within the bounds, in every annotation arrangement, against a character-level reference.")

prop("C16", "The pattern file loader accepts exactly well-formed pattern files",
 "Loading a pattern file never crashes: it returns an error for an unreadable file or one from which no XML tree can be read, an unknown or misplaced element, a missing required name, ref, tag, str or match type, an unknown tag or match type value, unexpected text, a missing or superfluous child, a rule defined twice or a reference without definition, and otherwise succeeds (attributes the format does not know and the root element's name are not looked at). A loaded file has exactly the rules defined in it, each reachable by its name and built from the elements as written, whatever the order of definitions and with references resolved to the rule of that name.",
 INP, "every pattern file", "no test loads a pattern file; one example loads one.",
 ["src/patterns/rules.rs", "src/patterns/utils.rs"], [("recursive loader with deferred references", "src/patterns/rules.rs PatternFile::load")],
 ["load result and rule tables"], built=BUILT("C16"), technique=MC,
 note="All pattern files generated from the grammar within the bounds and all single faults of each, against a reference parser working on the generator's own tree.")

prop("C17", "Pattern matching finds exactly the matches the pattern language defines",
 "For every loaded pattern file, sequence rule, parsed sentence and document range, matching tries the rule once from every word, left to right, and returns the marker trees of the successful attempts, exactly as the pattern elements define: alternatives in order, negation, part-of-speech restriction, references, phrases with their start and end conditions, longest or shortest match, and math patterns on names, texts, children and descendants at any depth. Every reported text range covers exactly the marked words, also in non-ASCII text (an empty range if no word is marked), and matching never fails, provided the text view has back mapping; an unknown rule name or a missing parse is an error.",
 INP, "every pattern file, sentence, phrase tree and formula", "matching is not tested at all.",
 ["src/patterns/matching.rs"], [("recursive matcher", "src/patterns/matching.rs match_seq, match_word, match_math")],
 ["match trees"], built=BUILT("C17"), technique=MC,
 note="All patterns up to the size bound on all sentences of the bounded alphabet, against a reference matcher.")

prop("C18", "Heading titles normalize to a stable canonical name",
 "Normalizing a heading title always terminates. In rounds, until nothing changes, it removes roman numerals of the letters x, i and v standing as words of their own, numbers (NUM), single letters a to p standing as words of their own, one listed lead phrase and one listed trailing word, and makes listed plurals singular (also at the end of longer words), in this order and never joining neighbouring words. What remains is mapped to its canonical name by the listed synonyms, then prefixes, then suffixes, and otherwise returned as it is; if nothing remains, the result is empty. Adding a number, a roman numeral, surrounding whitespace or a listed lead phrase to a title that no round changes does not change its normalization.",
 INP, "every heading string", "heading normalization has no test.",
 ["src/util/data_helpers.rs"], [("regular expression cascade and synonym table", "src/util/data_helpers.rs normalize_heading_title")],
 ["returned title"], built=BUILT("C18"), technique=MC,
 note="All headings of up to the bounded number of words from a vocabulary with every listed phrase, against a word-list reference.")

prop("C19", "AMS and structural environment names map consistently",
 "Every structural and theorem environment has a name of its own; naming an environment and reading the name back gives the same environment, except for the theorem catch-all. Headings are read as the structural environment their normalized title names, whatever their letter case, and as the catch-all if it names none; environment names are read exactly as listed, all others as the catch-all. A class attribute containing ltx_theorem maps to the environment named by the word characters following the first ltx_theorem_ in it that has any, or to theorem if there is none; any other maps to proof if it is exactly ltx_proof and to nothing otherwise. A document has theorem markup exactly when the class attribute of some div contains ltx_theorem.",
 INP, "every class attribute and environment name", "no test covers the tables.",
 ["src/ams.rs"], [("name tables", "src/ams.rs class_to_env, normalize_env, StructuralEnv")], ["returned environments"],
 built=BUILT("C19"), technique=MC, note="Every environment, every table entry and every class string within the bounds.")

prop("C20", "The foreign word tokenization entry point is total and faithful",
 "For every path, the foreign entry point returns a valid C string and never unwinds or aborts: the empty string if the path is not valid UTF-8 or names no readable document, and otherwise, for every paragraph of the document all of whose words are at most 25 bytes, one line per sentence with at least one word, holding its normalized words each followed by one space.",
 ["inputs", "fault_sequences"], "every document and path", "the entry point has no test.",
 ["src/extern_use.rs", "src/util/path_helpers.rs"], [("tokenization of a path's paragraphs", "src/util/path_helpers.rs path_to_words")], ["returned string"],
 built=BUILT("C20"), technique=MC, note="All documents within the bounds and all kinds of bad paths, each call in a child process so that an abort is seen.")

prop("C21", "Document selectors return exactly the nodes they describe",
 "For every document, each selector returns, in document order, exactly the nodes it describes: headings are h1 to h6 elements whose class attribute contains ltx_title but not ltx_title_document, without error markup (a class attribute containing ltx_ERROR) inside; paragraphs are div elements whose class attribute contains ltx_para, with no error markup inside and none among their preceding siblings; math selects all math elements, refs all span and a elements having the class ltx_ref; the extended iterator yields the first p containing ltx_p in an error-free ltx_abstract div, the first error-free ltx_keywords div, all paragraphs, the first error-free ltx_acknowledgement div and all error-free ltx_caption figcaptions, in this order. Element prefixes do not matter. Custom XPath and closure selectors return exactly the nodes satisfying them, an invalid XPath none.",
 INP, "every document", "sample documents are counted.",
 ["src/data.rs", "src/parallel_data/document.rs"], [("XPath selectors", "src/parallel_data/document.rs")], ["selected nodes"],
 built=BUILT("C21"), technique=MC, note="All trees within the bounds over the relevant element and class names against a tree-walking reference.")

prop("C22", "The sequential and parallel interfaces agree on every document",
 "For every document, the sequential and the parallel interface yield the same paragraphs, sentences and words with the same texts, the same math and reference nodes, and iterating again yields the same; sentences and words of a document or paragraph are those of the tokenizer on its text view, without empty ones, words asked of Senna are exactly those it finds in the sentence's text, each with its tag, and the text views of whole documents use the corpus's parameters.",
 ["inputs", "configurations"], "every document and corpus configuration", "counts are compared with constants on sample files.",
 ["src/data.rs", "src/parallel_data.rs", "src/parallel_data/document.rs"], [("iterators over documents, paragraphs, sentences and words", "src/data.rs, src/parallel_data.rs")], ["iterated ranges"],
 built=BUILT("C22"), technique=MC, note="All documents within the bounds through both interfaces.")

prop("C23", "Lexical word normalization follows its options",
 "Normalizing a word's range gives the word, in lower case when case is discarded and otherwise in the case it has, without its non-alphanumeric characters when punctuation is discarded, replaced by NUM if it is a number (an optional minus, an integer, optionally with one letter a to k, or a decimal fraction with optional exponent), by citationelement if it contains a citation token, and by the formula's lexemes (or nothing, if math is discarded) if it contains a formula token, both in any letter case. A word of more than 25 bytes after that cleaning is an error, and nothing else is.",
 INP, "every word, option combination and formula", "only used through two sample documents.",
 ["src/util/data_helpers.rs"], [("word rewriting", "src/util/data_helpers.rs ams_normalize_word_range")], ["returned word"],
 built=BUILT("C23"), technique=MC, note="Every word within the bounds under every option combination against a reference.")

prop("C24", "The stopword set is exactly the published list",
 "Loading the stopwords always yields the same set, which contains exactly the published English stopwords: every listed word is in it, in lower case and without surrounding whitespace, and nothing else is.",
 ["inputs", "histories"], "every word", "one word is looked up.",
 ["src/stopwords.rs"], [("stopword table", "src/stopwords.rs load")], ["returned set"],
 built=BUILT("C24"), technique="exhaustive comparison of the set with the published list and its single-character neighbourhood",
 note="The whole set is compared, so this is complete; the list is the one of the pinned commit.")

prop("C25", "Text views of plain strings preserve the string",
 "For every text without NUL characters, building a text view from a string gives a document whose only paragraph holds exactly that text, and a view of the whole document whose plain text is the normalization of that text under the given parameters (by default the default ones). Rebuilding from tokenized paragraph text, whose words are separated by single blanks, drops empty lines, replaces every run of math lexemes (NUM, or words with an inner underscore) on a line by the formula token followed by a blank, capitalizes an ASCII letter that starts a line and joins the lines by blank, period and blank. Text with NUL characters is reported as an error, never a crash.",
 INP, "every string", "a few ASCII strings.",
 ["src/dnm/mod.rs", "src/dnm/c14n.rs"], [("string to document conversion", "src/dnm/mod.rs from_str; src/dnm/c14n.rs rebuild_normalized_text")], ["plain text", "document"],
 built=BUILT("C25"), technique=MC, note="Every string within the bounds against a reference.")

prop("C26", "The language filter rejects exactly confident non-English or non-Latin text",
 "A text view is rejected exactly when language detection on its plain text, with formula, citation and reference tokens blanked out and the ends trimmed, reports a script other than Latin, or a language other than English with confidence above 0.93; text on which detection reports nothing is accepted.",
 INP, "every text and detector verdict", "not tested.",
 ["src/util/data_helpers.rs"], [("filter over the detector's verdict", "src/util/data_helpers.rs invalid_for_english_latin")], ["verdict"],
 built=BUILT("C26"), technique=MC, note="The detector is a stand-in whose every verdict (script, language, confidence around the threshold) is enumerated and whose argument is checked.")

prop("C27", "The test resource list names exactly the available documents",
 "The resource list holds, for every regular file with extension html or xhtml at any depth below tests/resources in the working directory, its name without the extension exactly once per file, and nothing else; directories whatever their names are searched, links to directories are not, a link to a document counts as one under its own name, and a missing directory gives an empty list.",
 ["inputs", "configurations"], "every directory tree", "used by tests over one fixed directory.",
 ["src/util/test.rs"], [("directory walk with extension filter", "src/util/test.rs RESOURCE_DOCUMENTS")], ["list"],
 built=BUILT("C27"), technique="exhaustive bounded enumeration of directory trees on the real code against a reference model",
 note="Every directory tree within the bounds, each listed by a fresh process.")

prop("C28", "A frequency plot hands the plotter every data point and label",
 "Plotting a list of keys and counts gives the plotter every pair exactly once and in order, as the key against the base-2 logarithm of the count, with the given axis labels and title, as a PNG written to the given path.",
 INP, "every table, label and path", "not tested.",
 ["src/util/plot.rs"], [("figure construction", "src/util/plot.rs plot_simple")], ["commands and data received by the plotter"],
 built=BUILT("C28"), technique=MC, note="A recording stand-in for gnuplot sees every byte of every table within the bounds.")

prop("C29", "The parameter presets are exactly as documented",
 "The default parameters have no rules for any element or class, collapse whitespace and support back mapping, and have every other switch off. The llamapun preset replaces math elements by mathformula, cite by CitationElement, ltx_equation and ltx_equationgroup classes by mathformula on a line of its own and ltx_ref by REF, skips img, table, head and footer elements and the classes ltx_authors, ltx_TOC, ltx_note_mark, ltx_note_outer, ltx_bibliography, ltx_tag_figure and ltx_tag_table, and has no other rule; it keeps whitespace, wraps tokens, transliterates, supports back mapping and neither stems nor lowercases. Checking any parameters never fails or changes them.",
 ["inputs", "configurations"], "every element and class name, every switch combination", "the presets are only used implicitly, on sample documents.",
 ["src/dnm/parameters.rs"], [("preset construction", "src/dnm/parameters.rs DNMParameters")], ["public parameter fields"],
 built=BUILT("C29"), technique="exhaustive enumeration of the preset tables and of all switch combinations",
 note="The whole tables and all switch combinations are compared, so this is complete for the presets.")

prop("C30", "The XML helpers of the pattern loader read child nodes strictly",
 "For every element: reading its simple content gives its only text child's content (trimmed on request), the empty string without children, and an error for anything else; listing its child elements skips comments and blank text, keeps order, and fails on other text, the unchecked listing skipping all text; the only-child and no-child helpers succeed exactly when that listing has one or no entry; a required property is returned exactly if present; a repeated property is an error exactly if one was already found; and error texts name the element concerned. Comment nodes, and only those, are recognized as comments.",
 INP, "every element and child list", "not tested.",
 ["src/patterns/utils.rs"], [("child list helpers", "src/patterns/utils.rs")], ["returned nodes and errors"],
 built=BUILT("C30"), technique=MC, note="Every child list within the bounds against a reference on the generator's own list.")

prop("C31", "A heading's text is its normalized words",
 "The text of a heading node is, in document order, every word of its text view under the llamapun preset in lexically normalized form (lower case, letters and digits only, formulas as their lexemes, citations as citationelement) followed by one space, numbers being left out; it does not depend on what surrounds the heading, and there is none exactly if some word exceeds 25 bytes after cleaning.",
 INP, "every heading element and its surroundings", "only used by examples.",
 ["src/util/data_helpers.rs"], [("word by word normalization of a heading", "src/util/data_helpers.rs heading_from_node_aux")], ["returned text"],
 built=BUILT("C31"), technique=MC, note="Every heading within the bounds, alone and inside a document, against a reference.")

prop("C32", "Corpus statistics are exact, whatever the schedule, and never silently partial",
 "Run over a corpus directory, each statistics program writes exactly what its documents hold: documents by number of formulas and of content annotations; names, attributes and attribute values of all nodes within formulas; the sequence and counts of elements with their sorted classes; normalized heading titles; lowercased words right before references; the token model; and, from text files, 4-grams within 15 words of a citation. Every count is the sum over all documents, every table is in order of falling frequency with each key once, and every document's text is whole; workers, interleavings and listing order change nothing but the order of documents and of equal frequencies. If a report cannot be created or written in full, the program does not report success.",
 ["inputs", "schedules", "fault_sequences"], "every corpus, number of workers, interleaving and write fault", "no test runs these programs; only the walk they share is run, once, on the sample articles.",
 ["src/parallel_data/corpus.rs", "src/parallel_data/document.rs", "src/util/data_helpers.rs", "src/util/token_model.rs", "src/ngrams.rs", "examples/"],
 [("parallel walk, reduction of per-document catalogs, selectors, normalization", "src/parallel_data/corpus.rs catalog_with_parallel_walk"), ("the programs", "examples/corpus_math_count.rs, corpus_mathml_stats.rs, corpus_node_model.rs, corpus_heading_stats.rs, pre_ref_words.rs, corpus_token_model.rs, citation_ngrams.rs")],
 ["report files, standard output and exit of the programs"],
 built=BUILT("C32"), technique=SCHED + "; exhaustive bounded enumeration of documents",
 note="The unmodified programs run in-process under the scheduler and fault injector; every report is compared with a reference. rayon, jwalk, csv and the language detector are stand-ins.")

prop("C33", "The statement archive holds every statement under its environment, once",
 "Run over a corpus directory, the statement program archives the text of exactly the qualifying paragraphs, each distinct one once, as <environment>/<SHA-256 of the text>.txt. A paragraph qualifies if it is English and has 4 to 1024 tokens, none over 25 bytes, and is an acknowledgement or a caption, or comes first in its parent or right after an element whose name starts with h and has, in a document with theorem markup, a parent with a listed theorem class or, otherwise, a heading that normalizes to a listed title. Its text is its lowercased normalized tokens, each with a blank, and a line break; formulas are lexemes or, on request, left out. Reported totals count every document, marked document, statement and discarded one once. No schedule changes archive or totals; a failed write is reported.",
 ["inputs", "schedules", "fault_sequences"], "every corpus, both modes, number of workers, interleaving and write fault", "no test runs the program.",
 ["src/parallel_data/corpus.rs", "src/parallel_data/document.rs", "src/ams.rs", "src/util/data_helpers.rs", "src/tokenizer.rs", "examples/corpus_statement_paragraphs_model.rs"],
 [("walk, extended paragraphs, environments, normalization", "src/parallel_data/document.rs extended_paragraph_iter, src/ams.rs, src/util/data_helpers.rs"), ("the program", "examples/corpus_statement_paragraphs_model.rs")],
 ["archive, standard output and exit of the program"],
 built=BUILT("C33"), technique=SCHED + "; exhaustive bounded enumeration of documents",
 note="The unmodified program runs in-process under the scheduler and fault injector; archive and report are compared with a reference. rayon, jwalk, SHA-256 and the language detector are stand-ins.")

prop("C34", "The word report and the tagger's listing account for every word",
 "The word report on an article visits every sentence of every paragraph that is not empty, and every word of it, once: its totals of paragraphs, sentences and words, its dictionary (lowercased words numbered from 1 in order of first appearance), its frequencies (falling) and its frequency distribution (rising) agree with the article's text, and the two plots show the frequencies and the distribution. The tagger's listing has, for every sentence of the whole article that is not empty, in order, every token Senna finds with its tag. Without the article both fail.",
 INP, "every article", "no test runs these programs.",
 ["src/data.rs", "src/ngrams.rs", "src/util/plot.rs", "src/tokenizer.rs", "examples/word_tokenization.rs", "examples/pos_tagging.rs"],
 [("paragraph, sentence and word iterators", "src/data.rs"), ("dictionary and counts", "src/ngrams.rs")],
 ["standard output, data received by the plotter"],
 built=BUILT("C34"), technique=MC, note="The unmodified programs run in-process on every article within the bounds; the reports are compared with a reference. gnuplot and Senna are stand-ins.")

prop("C35", "The pattern report shows every match in its sentence",
 "Run on an article with a pattern file, the pattern example reports, in document order, exactly the sentences of the whole article in which the rule named declaration has a match, and for each of them, in the order of the matches with every match before those inside it, every marker with its name and tags: a text marker with the marked words, a formula marker with the marked part of the formula. Sentences and marked words are shown as a second, readable view of the article has them, from the original character or element the range starts with to the one it ends with. Without the article, or without a well-formed pattern file holding that rule, the program fails; the pattern file that comes with it is loaded.",
 INP, "every article, sentence parse and pattern file", "no test runs this program, or carries a match over to another text view.",
 ["src/patterns/matching.rs", "src/patterns/rules.rs", "src/dnm/range.rs", "src/data.rs", "src/dnm/mod.rs", "examples/pattern_example.rs"],
 [("matches and marker lists", "src/patterns/matching.rs"), ("serialized ranges read in another view", "src/dnm/range.rs"), ("sentences and their parses", "src/data.rs")],
 ["standard output"],
 built=BUILT("C35"), technique=MC, note="The unmodified program runs in-process on every combination of article and pattern file within the bounds; its report is compared with one built from the reference text views, sentences and matcher. Senna is a stand-in that splits, tags and groups words by a fixed rule.")
