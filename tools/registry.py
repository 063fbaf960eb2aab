#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table, so that the two stay in step."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, note, technique=None, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
        mechanism=[dict(name=n, where=w) for n, w in mechanism],
        state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        observe=list(observe), note=note,
        technique=technique or "bounded exhaustive enumeration of documents on the real code, against a reference model",
    ))


DOCS = ("every UTF-8 source; explored: all words over the full alphabet (one word per token kind, run length, escape and "
        "line break), over construct alphabets, over whole lines and blocks, inside 74 contexts and nests of contexts, texts that mean something in other formats, plus all one-place edits "
        "of rich documents, all long runs, deep nestings and every Unicode scalar, to the depths in the evidence file")
BOUND = "Assurance: no case of the enumerated spaces breaks it (spaces, depths and counts in the evidence file). "
REF = ("Trusted: the reference lexer and parser in harness/src/{lexer_model,parse_model}.rs, written from the documented "
       "grammar as pure recognisers and compared with the implementation on every case (so each also validates the other). ")
FEW = "The unit tests fix single inputs per construct; the proptest suite samples. "

prop("C01", "Reading and printing any text ends, without panicking",
     "Tokenising, parsing, building the document and printing it terminate normally for every text: no panic, arithmetic "
     "overflow, abort or endless loop. The token count never exceeds the number of input bytes, printed text is at most a "
     "constant factor longer than the source, and sources of several megabytes, hundreds of nested or unclosed "
     "constructs and thousands of unmatched markers are handled within seconds.",
     ["inputs"], DOCS + "; 21 extreme sizes in processes of their own with an 8 MB stack and a memory limit",
     FEW + "Totality quantifies over all texts; unterminated constructs inside one another make the interesting ones.",
     ["src/lexer/mod.rs", "src/op/parser.rs", "src/op/document.rs", "src/op/to_yamd.rs", "src/nodes/yamd.rs"],
     [("rollback to a snapshot when a construct turns out unfinished", "src/op/parser.rs"), ("document loop always advances", "src/op/document.rs")],
     BOUND + "Debug assertions and overflow checks are on. 20 s without an answer counts as not terminating; a thread has a 32 MB stack (8 MB for the extremes). "
     "Known finding: 20000 nested collapsibles overflow the stack.",
     "bounded exhaustive enumeration of documents on the real code; crash and hang oracle")
prop("C02", "Tokens tile the source and have the right kind",
     "The token sequence of a text covers it completely and in order: token ranges are non-empty, on character boundaries, "
     "adjacent, and leave out nothing but the backslash of each escape and a lone backslash at the end. Runs of one marker "
     "character form one token of that character's kind (each bracket, parenthesis, underscore and bar one of its own), `{%` and `%}` and two consecutive line breaks (LF or CR LF) have kinds of their own, anything else is literal "
     "text (spaces within literal text included), an escaped character starts a literal marked as escaped; the iterator stays exhausted once it has ended, and skipping, counting and walking over tokens agree with stepping.",
     ["inputs"], DOCS + "; all ASCII strings of length 3; every Unicode scalar alone and after an escape",
     FEW + "Which bytes a token covers depends on any neighbouring characters (CR, backslash, multi-byte).",
     ["src/lexer/mod.rs", "src/lexer/token.rs"], [("one-character look-ahead token assembly", "src/lexer/mod.rs")],
     BOUND + REF + "The tiling part is checked without the model.",
     state=[("iterator over char indices", "next unread character", "src/lexer/mod.rs")])
prop("C03", "Token positions name byte, row and column exactly",
     "Every token reports the byte offset where it starts, which equals its range's start, the number of line breaks before it as "
     "its row, and the number of characters since the last line break as its column; the backslash of an escape is not counted, an escaped line break is text and starts no row, a CR LF pair counts as one line break, and columns count characters, not "
     "bytes.",
     ["inputs"], "as C02", FEW + "Positions accumulate over everything before the token; line starts decide which block markers count.",
     ["src/lexer/mod.rs", "src/lexer/token.rs"], [("position bookkeeping while consuming characters", "src/lexer/mod.rs")],
     BOUND + REF)
prop("C04", "An escaped character is always just text",
     "A character following a backslash never acts as markup, wherever it stands: text of which every character is escaped is read "
     "as exactly that text in every place that holds text. Replacing an escaped character, a line break included, by a "
     "character without any meaning gives the same document up to that character (and up to line breaks at the ends of code, items, highlight paragraphs and metadata, which reading trims).",
     ["inputs"], "every text, in 20 places (paragraph, every inline node, list item, nested item, heading, code block and its language, image, embed, highlight parts, collapsible parts, metadata); every escape in every enumerated document",
     FEW + "The promise is for every character in every context; tests escape a handful of markers in a few nodes.",
     ["src/lexer/mod.rs", "src/op/parser.rs", "src/op/mod.rs"], [("escaped characters become literals", "src/lexer/mod.rs"), ("contents without the backslash are materialised", "src/op/mod.rs")],
     BOUND + "Metamorphic oracle: needs no reference model. Places where trailing line breaks are trimmed by design are left out for texts ending in one.",
     "bounded exhaustive enumeration of documents on the real code; metamorphic oracle")
prop("C05", "Event streams are balanced and well formed",
     "The event stream of every text starts and ends with the document, every start event has its matching end event in last-in-first-out "
     "order, and nodes only stand where the grammar allows them: blocks in documents and collapsibles, items in lists, nested lists last in an item, inline nodes in text blocks, no bold inside bold, a title "
     "and a destination in every link and image. Every event's content is the "
     "marker text that belongs to that node (e.g. `**` for bold, the fence for code), and text values among other nodes are never empty and never stand next to each other.",
     ["inputs"], DOCS, FEW + "Backtracking out of unfinished constructs can leave events behind in combinations nobody tried.",
     ["src/op/mod.rs", "src/op/parser.rs", "src/op/document.rs"], [("snapshot and rollback of the event list", "src/op/parser.rs")],
     BOUND + "Trusted: the event grammar in harness/src/events.rs.",
     "bounded exhaustive enumeration of documents on the real code; every stream checked against the event grammar",
     state=[("event list", "events emitted so far; rolled back on failure", "src/op/parser.rs")])
prop("C06", "The event stream loses no text",
     "Joining the contents of all events in order gives back the source, without the backslashes that escape a character "
     "(and a lone one at the end) and without the line break directly before the end of a collapsible. Nothing is dropped, duplicated or reordered, whatever is unfinished "
     "or nested.",
     ["inputs"], DOCS, FEW + "No test joins the contents; loss shows only where recognisers give up half way.",
     ["src/op/mod.rs", "src/op/parser.rs"], [("every consumed token ends up in an event", "src/op/parser.rs")],
     BOUND + "Needs no reference parser.", "bounded exhaustive enumeration of documents on the real code; conservation oracle")
prop("C07", "Event contents borrow exactly the source text they stand for",
     "The content of an event is a span if and only if its text stands in one piece in the source, and then the span delimits exactly that "
     "text at its own place; otherwise it is an owned string with the text. Reading a content as borrowed text, as an owned string or as empty or "
     "not agrees with that text, and building a content from any run of a source's tokens together with that source follows the same rule.",
     ["inputs"], DOCS + "; all runs of consecutive tokens of sources with up to 8 tokens",
     FEW + "Whether text is contiguous depends on escapes at every place inside and around it.",
     ["src/op/mod.rs"], [("contents built from token slices", "src/op/mod.rs")], BOUND + "Needs no reference parser.",
     "bounded exhaustive enumeration of documents on the real code; span oracle")
prop("C08", "The tree and the event stream describe the same document",
     "Deserialising a text gives the same document as parsing it to events and folding the events, by either folding function, and "
     "equals the document obtained by reading the event stream according to its documented meaning (marker texts delimit, values and titles and destinations carry text, list and heading levels follow from nesting and marker). "
     "Both APIs agree on every text.",
     ["inputs"], DOCS, FEW + "The tests compare the two APIs on single documents.",
     ["src/lib.rs", "src/op/mod.rs", "src/op/to_yamd.rs"], [("stack machine over events", "src/op/to_yamd.rs")],
     BOUND + "Trusted: the harness's own fold in harness/src/events.rs.", "bounded exhaustive enumeration of documents on the real code; differential oracle (two APIs and an independent fold)",
     state=[("frame stack", "open nodes of the fold", "src/op/to_yamd.rs")])
prop("C09", "Folding events accepts exactly balanced streams and never panics",
     "The fallible folding of an event sequence, whatever its order and origin, returns an error if and only if the sequence is not balanced (an end without its matching start, a start never ended), and never panics. "
     "The infallible one panics exactly in those cases and otherwise returns the same document; a sequence in which every node stands where it may "
     "stand gives the document it describes, whatever its marker texts: each value in a paragraph, heading or bold is a text node of its own, values of other nodes are joined.",
     ["histories"], "every sequence of start, end and value events over all node kinds up to length 4, over 7 kinds up to 6 (7), inside a document; every sequence with each node in its place up to 5 (6) nodes and values; every single-event deletion, duplication, swap, insertion, replacement and truncation of 40 parsed streams",
     "Tests try a few hand-made broken streams; the claim is about every sequence.",
     ["src/op/to_yamd.rs"], [("error on unbalanced frames", "src/op/to_yamd.rs")],
     BOUND + "Balanced but ungrammatical sequences are only required to be accepted without a panic and alike by both functions.",
     "exhaustive enumeration of operation sequences to a depth, and of single faults, on the real code",
     state=[("frame stack", "open nodes", "src/op/to_yamd.rs")])
prop("C10", "Documents are in normal form",
     "In the document of any text no text node or paragraph is empty, no two text nodes are neighbours, headings have levels 1 to 6, lists "
     "have items and a nested list's level is one more than its parent's (0 at the top), galleries hold at least two images, bold holds only text, italic and strikethrough. Code, list items and highlight paragraphs do not end in a line break and metadata "
     "neither starts nor ends with one.",
     ["inputs"], DOCS, FEW + "The invariants are over all node combinations the parser can produce.",
     ["src/op/to_yamd.rs", "src/nodes/mod.rs"], [("merging of text, trimming, promotion of single images", "src/op/to_yamd.rs")],
     BOUND + "Needs no reference model.", "bounded exhaustive enumeration of documents on the real code; invariant on every tree")
prop("C11", "A document built by hand is read back from its printed text",
     "Printing any document whose tree is in normal form (see domain in DESIGN.md) and reading the text gives back an equal document: texts, titles, "
     "languages, destinations and metadata may hold any characters, markup included. The same holds for a block other than a paragraph and for an inline node printed alone; trees no text "
     "can stand for are printed without a panic.",
     ["inputs"], "documents built from constructors: one text of all words to a depth in 37 places; all inline sequences to length 3, all sequences of 40 blocks to length 3, all list trees to 6 items, in several containers",
     "The proptest suite samples trees over harmless texts; the claim is for every tree and every text.",
     ["src/nodes/yamd.rs", "src/nodes/paragraph.rs", "src/nodes/list.rs", "src/nodes/highlight.rs", "src/nodes/collapsible.rs", "src/nodes/code.rs", "src/nodes/escape.rs"],
     [("Display of every node escapes what would be markup", "src/nodes/escape.rs")],
     BOUND + "Domain: trees the parser can produce (normal form; no two neighbours that merge, such as code next to code; no trailing line break where reading trims it).",
     "bounded exhaustive enumeration of document trees on the real code; round-trip oracle")
prop("C12", "Printing a read document preserves it and is stable",
     "For every text, reading it, printing the document and reading that again gives an equal document, and printing that document "
     "gives the same text again. Printing into a writer that fails at some point fails without a panic, after a part of that text.",
     ["inputs"], DOCS, "The round-trip suites sample a few documents and random texts; the claim is for every text.",
     ["src/nodes/yamd.rs", "src/nodes/paragraph.rs", "src/nodes/list.rs", "src/nodes/highlight.rs", "src/nodes/collapsible.rs", "src/nodes/escape.rs", "src/op/to_yamd.rs"],
     [("Display of every node", "src/nodes"), ("trimming on reading", "src/op/to_yamd.rs")], BOUND + "Needs no reference model.",
     "bounded exhaustive enumeration of documents on the real code; round-trip oracle")
prop("C13", "Blocks are recognised and separated as documented",
     "Which blocks a document consists of, in which order and nesting, follows the documented grammar: blocks end at an empty line, at the end of what "
     "holds them or at their own closing marker, code, highlights, lists, images and collapsibles only count when "
     "finished, block markers count only where a block can start, and everything else is a paragraph.",
     ["inputs"], DOCS, FEW + "Block structure depends on arbitrary neighbours and on what is unfinished around it.",
     ["src/op/document.rs", "src/op/parser.rs", "src/op/paragraph.rs"], [("ordered choice of block recognisers with rollback", "src/op/document.rs")],
     BOUND + REF)
prop("C14", "Inline markup is recognised as documented",
     "In every text run of paragraphs, list items, highlights and headings, bold, italic, strikethrough, emphasis, code spans and links are recognised exactly "
     "where the documented grammar puts them, with exactly the text between their markers. A marker without its partner before the end of its block, or of "
     "another run length, is text.",
     ["inputs"], DOCS, FEW + "Markers interact pairwise and with block ends; tests cover few pairs.",
     ["src/op/paragraph.rs", "src/op/bold.rs", "src/op/italic.rs", "src/op/strikethrough.rs", "src/op/emphasis.rs", "src/op/code_span.rs", "src/op/anchor.rs"],
     [("recognisers that roll back without a closing marker", "src/op/parser.rs")], BOUND + REF)
prop("C15", "Lists keep kinds, levels and items",
     "Every list has the kind of its markers, one item per marker of its level, each with its own text, and a nested list exactly where a "
     "marker is indented one space deeper than the item before. Markers only count at the start of a line and followed by one space; a marker of the other kind at "
     "the same level, or of a shallower level, ends the list.",
     ["inputs"], "all sequences of 13 list lines to depth 5 (6), at the top and in a collapsible; list alphabet to depth 7 (8); shared spaces",
     FEW + "Tests nest a few lists; levels, kinds and interruptions combine.",
     ["src/op/list.rs", "src/op/parser.rs", "src/op/to_yamd.rs"], [("boundary test against the open item levels", "src/op/parser.rs")],
     BOUND + REF, state=[("list context stack", "level and kind of the items being read", "src/op/parser.rs")])
prop("C16", "Collapsibles nest and hold any blocks",
     "A collapsible extends from its start marker to the matching end marker at a line start, with the rest of its first line as title, "
     "and its body reads exactly as the same text would as a document of its own, at any nesting depth. Without a matching end marker it is no "
     "collapsible and its text is read as what else it is.",
     ["inputs"], "collapsible alphabet to depth 6 (8), collapsible lines to 6 (7), every enumerated document put inside one and two collapsibles, shared spaces",
     FEW + "The body may be any document, so the claim ranges over all of them.",
     ["src/op/collapsible.rs", "src/op/parser.rs"], [("end of text pushed while the body is read", "src/op/collapsible.rs")],
     BOUND + REF + "The body-equals-document part needs no model.")
prop("C17", "Code blocks keep their code verbatim",
     "Between a fence of three backticks at a line start, with the rest of its line as language, and the next such fence, every character is kept as "
     "it stands (escapes resolved, trailing line breaks trimmed), and no markup in it is recognised. A fence without a partner, or with a partner followed by other text on its line, does not make a code "
     "block.",
     ["inputs"], "code alphabet to depth 7 (8), code lines to 5 (7), full alphabet inside code to depth 3 (4), shared spaces",
     FEW + "Any text may stand in code.", ["src/op/code.rs", "src/op/to_yamd.rs"], [("scan to the closing fence", "src/op/code.rs")], BOUND + REF)
prop("C18", "CR LF and LF line breaks read the same",
     "Writing any of the unescaped line breaks of a text as CR LF instead of LF changes nothing in its document except those line breaks inside kept text. ",
     ["inputs"], "all texts of the spaces, with every subset of up to 5 line breaks changed (6 patterns beyond)",
     FEW + "Tests contain a few CR LF documents; every construct looks at line breaks.",
     ["src/lexer/mod.rs", "src/op/to_yamd.rs"], [("line break tokens", "src/lexer/mod.rs"), ("trimming", "src/op/to_yamd.rs")],
     BOUND + "Metamorphic oracle; needs no reference model.", "bounded exhaustive enumeration of documents and line-break patterns on the real code; metamorphic oracle")
prop("C19", "Serialised documents and events are read back equal",
     "With serde, every document and every event list is serialised to the documented shape (a type tag and a value per "
     "node, the fields under their names, nothing else), and deserialising it, from text or from a value, gives an equal document or event list. "
     "JSON of that shape with any other texts, numbers and elements is read as what it says; all else is refused or, missing nulls and unknown fields apart, read as what it says, never with a panic.",
     ["inputs"], "shared spaces at a smaller depth; built trees; JSON of 40 documents with each part replaced, removed, renamed, repeated or added; event lists of length 1 and 2 of all roles, with spans of any numbers and owned texts", "The tests serialise hardly anything; the claim is for every tree.",
     ["src/nodes/mod.rs", "src/nodes/yamd.rs", "src/op/mod.rs"], [("derived Serialize and Deserialize with tag and content", "src/nodes")],
     BOUND + "Through serde_json, with its own recursion limit lifted.", "bounded exhaustive enumeration of documents on the real code; round-trip and shape oracle")
prop("C20", "Results depend on nothing but the input",
     "Every call answers the same for the same input, whatever was tokenised, parsed, folded or printed before in the process, whatever was abandoned half way, and however two token iterators "
     "are advanced alternately. Concurrent calls from several threads answer the same as single calls.",
     ["histories", "schedules"], "all histories of up to 4 calls over 12 (8) documents and 5 (2) operations, each answer compared with a fresh process; all interleavings of two lexers over 4 documents; two threads under a controlled scheduler: every schedule with one preemption, at any basic block, load or store of yamd, for all pairs of 12 documents, every schedule with two preemptions within the first 200 (350) blocks, and the first calls of a process; a free-running 8-thread run",
     "Every test runs one call on one input and none looks at what another call left behind.",
     ["src/lexer/mod.rs", "src/op/mod.rs", "src/op/parser.rs"], [("no shared state: everything is owned by the call", "src/op/parser.rs")],
     BOUND + "Two threads, at most two preemptions, sequentially consistent memory.",
     "exhaustive enumeration of call histories, iterator interleavings and preemption-bounded thread schedules (controlled scheduler) on the real code, against fresh-process baselines")
prop("C21", "Metadata is recognised only at the very start, and exactly delimited",
     "A document has metadata if and only if its first line is exactly three dashes and a later line starts with exactly three; the metadata is the text between, without line breaks at its edges, "
     "escapes resolved and nothing else interpreted. Everything after the closing dashes is read as the body, and the same lines "
     "anywhere else are body text.",
     ["inputs"], "metadata alphabet to depth 7 (8), metadata lines to 6 (7), full alphabet inside, before and after metadata to depth 3 (4), shared spaces",
     FEW + "What is between and around the dashes is arbitrary.", ["src/op/metadata.rs", "src/op/to_yamd.rs", "src/op/mod.rs"],
     [("metadata recogniser before the first block", "src/op/metadata.rs")], BOUND + REF)
prop("C22", "Appending a document appends its blocks",
     "The printed text of a document (not ending in a line break), an empty line and another text (not starting with one, nor with "
     "dashes) read together as the blocks of the first followed by the blocks of the second. Nothing printed reaches over an empty line into what "
     "follows.",
     ["inputs"], "40 blocks and rich documents before and after all words of the full alphabet to depth 3 (4) and all line sequences to 3 (5)",
     "No test composes documents; the claim is for all pairs.",
     ["src/nodes/yamd.rs", "src/nodes/paragraph.rs", "src/op/document.rs"], [("printed blocks are closed or escaped", "src/nodes")],
     BOUND + "Needs no reference model.", "bounded exhaustive enumeration of document pairs on the real code; compositional oracle")
prop("C23", "Links and images keep text and destination",
     "A link or image is recognised where a bracketed text is directly followed by a parenthesised destination, with exactly these texts: the bracket part ends at the first closing bracket, the destination at the parenthesis "
     "balancing the opening one, or at the last closing parenthesis if they do not balance. Images stand alone on their lines; one makes an image, several on consecutive lines one gallery in their order.",
     ["inputs"], "link alphabet to depth 7 (8), link pieces to 5 (6), destinations to 6 (7), shared spaces",
     FEW + "Nesting and balance of brackets range over all strings.", ["src/op/anchor.rs", "src/op/title.rs", "src/op/destination.rs", "src/op/image.rs", "src/op/images.rs"],
     [("balanced scan of the destination", "src/op/destination.rs"), ("rollback of incomplete galleries", "src/op/images.rs")], BOUND + REF)
prop("C24", "Token statistics count every token of a file",
     "For every document file the statistics tool reports the number of all tokens and, for every kind of token that occurs, its number; the kinds' numbers add up to the total and come in "
     "falling order, and the tool ends successfully.",
     ["inputs"], "files with all words of the full alphabet to depth 2 (3), 40 documents, repeated documents",
     "The tool has no tests.", ["utils/src/commands/token_stat.rs", "utils/src/main.rs", "src/lexer/mod.rs"],
     [("hash map of counts, sorted", "utils/src/commands/token_stat.rs")],
     BOUND + REF + "The built tool runs as a process on files in a scratch directory.", "bounded exhaustive enumeration of files, run through the built tool, against a reference model")
prop("C25", "Highlights keep title, icon and paragraphs",
     "A highlight extends from two exclamation marks at a line start to the next two at a line start; the rest of its first line is the title if separated by one space, "
     "a following line starting with one exclamation mark and a space is the icon, and what remains are its paragraphs, separated by empty lines. Unfinished ones are "
     "no highlights.",
     ["inputs"], "highlight alphabet to depth 6 (7), highlight lines to 5 (6), full alphabet inside to depth 3 (4), shared spaces",
     FEW + "Each optional part interacts with every kind of body.", ["src/op/highlight.rs", "src/op/to_yamd.rs"], [("highlight recogniser", "src/op/highlight.rs")], BOUND + REF)
prop("C26", "Headings and thematic breaks follow their marker exactly",
     "One to six hashes at the start of a block followed by one space make a heading of that level whose text reaches to the end of the block and in which only links are recognised. "
     "Exactly five dashes at the start of a line where a block can start make a thematic break; other numbers of hashes or dashes are text.",
     ["inputs"], "heading and break alphabets to depth 6 (8), full alphabet inside a heading to depth 3 (4), shared spaces",
     FEW + "Tests fix the levels, not what surrounds them.", ["src/op/heading.rs", "src/op/thematic_break.rs", "src/op/to_yamd.rs"], [("marker length tests", "src/op/heading.rs")], BOUND + REF)
prop("C27", "Embeds keep kind and arguments",
     "Two opening braces at a line start, a kind, a bar, arguments and two closing braces at the end of a line make an embed with exactly these texts; the first bar separates, and the first run of exactly two closing braces after it ends "
     "it. It never reaches over an empty line, and anything incomplete is text.",
     ["inputs"], "embed alphabet to depth 7 (8), full alphabet inside an embed and its arguments to depth 3 (4), shared spaces",
     FEW + "Kind and arguments are arbitrary texts.", ["src/op/embed.rs", "src/op/to_yamd.rs"], [("embed recogniser", "src/op/embed.rs")], BOUND + REF)
prop("C28", "The random tool prints markers and literals up to the requested length",
     "For every requested length, every literal limit and every outcome of its random choices, the random document tool ends successfully and prints a sequence of markup markers and literals (followed by a line break) "
     "that is at least as long (in bytes) as requested and stops with the token that reaches that length. Literals have at least three characters and fewer than the limit (three if the limit is below four); "
     "literals of each such length and characters of every size can come up, and so can every marker.",
     ["configurations", "inputs"], "lengths 0 to 40 (100) and up to 200000, limits 0 to 20 (1000) and the default, all outcomes of the first 2 to 3 (4) draws; every length of literals for nine limits, the shortest and longest for six more", "The tool has no tests and its choices are random.",
     ["utils/src/commands/random.rs", "utils/src/main.rs"], [("token loop over random draws", "utils/src/commands/random.rs"), ("random characters by rejection", "utils/src/commands/random.rs")],
     "The random generator is replaced by one whose draws are the checker's choices (the tool's sources are built unchanged against a stand-in rand crate); draws from large domains are cut down to representatives, "
     "later draws take their first alternative. The built tool runs as a process.",
     "exhaustive enumeration of the outcomes of the tool's random draws (controlled choices, stateless exploration) on the real tool")

prop("C29", "Constructors and conversions keep what they are given",
     "Every node built with its constructor or a conversion, from borrowed or owned texts of any content, holds exactly the texts, levels, kinds and children it was given, in their order; only the line breaks at the end of code "
     "and at both ends of metadata are trimmed. Nodes, contents, events and tokens that differ in a part are unequal, a copy is equal. A content or event built from a run of tokens spans from the first token's start to the last one's end, "
     "or nothing for an empty run, and an event keeps its role and content.",
     ["inputs"], "every place that takes a text: full alphabet to depth 3 (4), line breaks and blanks to 6 (8), all ASCII pairs, all Unicode scalars; all heading levels, list levels to 1000",
     "Tests build nodes with a few plain texts.",
     ["src/nodes/code.rs", "src/nodes/yamd.rs", "src/nodes/paragraph.rs", "src/nodes/highlight.rs", "src/nodes/list.rs", "src/op/mod.rs", "src/lexer/token.rs"],
     [("trimming constructors", "src/nodes/code.rs"), ("trimming constructors", "src/nodes/yamd.rs")],
     BOUND + "Needs no reference model: the arguments are the oracle.", "bounded exhaustive enumeration of constructor arguments on the real code; field by field comparison")

prop("C30", "Optimised and checked builds answer the same",
     "A build with optimisations and without debug assertions, overflow checks and optional features gives the same tokens, events, documents and printed texts for every text as a checked build, and the same results of "
     "folding balanced and unbalanced event lists: nothing hangs on what an assertion does, on arithmetic that wraps, or on a feature.",
     ["inputs"], "the shared spaces at small depth, runs to 65536, megabyte extremes",
     "Tests run in one build only, with assertions and overflow checks on; users run the other one.",
     ["src/op/parser.rs", "src/op/highlight.rs", "src/lexer/mod.rs", "src/op/to_yamd.rs"],
     [("assertions and plain arithmetic", "src/op/highlight.rs")],
     BOUND + "Two builds: checked with the serde feature, and optimised without features.", "bounded exhaustive enumeration of inputs on two builds of the real code, compared answer by answer")

NOT = {}

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"].strip(),
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], state=p["state"], mechanism=p["mechanism"],
                         observe_at=p["observe"] or ["public API of the crate"], hook_needed=None),
        )) + "\n")

with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(dict(
        version=1,
        setup_cmd="bash build.sh",
        checks=[dict(
            property=p["id"],
            quick_cmd=f"bash check.sh {p['id']} quick",
            thorough_cmd=f"bash check.sh {p['id']} thorough",
            evidence_file=f"evidence/{p['id']}.json",
            technique=p["technique"],
            level="model_checking",
            level_note=p["note"].strip(),
        ) for p in P if p["id"] not in NOT],
        not_applicable=[dict(property=k, reason=v) for k, v in NOT.items()],
        notes="No hooks: everything is observed through the public API. See DESIGN.md.",
    ), f, indent=1)
    f.write("\n")
