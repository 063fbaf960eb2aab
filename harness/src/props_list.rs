// ---- the table ------------------------------------------------------------------------------------------------

const BOUNDS: &str = "inputs beyond the listed spaces are not explored";
const MODEL: &str = "the reference lexer and parser of the harness state the documented grammar";

fn prop(id: &'static str, rule: &'static str, assumptions: &'static [&'static str], spaces: fn(bool) -> Spaces, check: crate::run::Check) -> Prop {
    Prop {
        id,
        rule,
        assumptions,
        spaces,
        check,
        named: no_named,
        named_check: no_named_check,
    }
}

fn sub(depth: usize, alphabets: &[(&'static str, &'static [&'static str])]) -> Spaces {
    alphabets.iter().map(|(l, a)| words(l, a, depth)).collect()
}

fn with(mut v: Spaces, more: Spaces) -> Spaces {
    v.extend(more);
    v
}

pub fn all() -> Vec<Prop> {
    vec![
        Prop {
            named: |_| EXTREMES.iter().map(|e| e.0.to_owned()).collect(),
            named_check: extreme,
            ..prop(
                "C01",
                "every source of the spaces is lexed, parsed and printed within the time and memory limits, without a panic; extreme sizes each in a process of their own with an 8 MB stack",
                &[BOUNDS, "a case that takes 20 s counts as not terminating"],
                documents,
                totality,
            )
        },
        prop("C02", "tokens equal the reference lexer's, tile the source up to escaping backslashes, and the iterator stays ended", &[BOUNDS, MODEL], lexer_spaces, tokens),
        prop("C03", "the position of every token equals the reference lexer's", &[BOUNDS, MODEL], lexer_spaces, positions),
        prop("C04", "fully escaped text is read as exactly that text in 20 places; an escaped character is exchangeable with one without meaning", &[BOUNDS], escaping_spaces, escaping),
        prop("C05", "the stream is balanced and derivable from the event grammar, every marker text included", &[BOUNDS], documents, stream),
        prop("C06", "contents joined in order equal the source without escaping backslashes and the line break before an end of collapsible", &[BOUNDS], documents, lossless),
        prop("C07", "a content is a span exactly if its text stands contiguously in the source, and then spans exactly it; the accessors agree", &[BOUNDS], documents, contents),
        prop("C08", "deserialize, to_yamd of parse, try_to_yamd of parse and the harness's own folding of the stream agree", &[BOUNDS], documents, two_apis),
        prop("C09", "try_to_yamd fails exactly on unbalanced streams and never panics; to_yamd panics exactly then; grammatical streams give the specified tree", &[BOUNDS], stream_spaces, streams),
        prop("C10", "the tree of every source satisfies the invariants of the node types", &[BOUNDS], documents, normal_form),
        prop("C11", "every tree of the domain is read back from its print; every other tree is printed without a panic; blocks and inline nodes also print alone", &[BOUNDS, "domain: see in_domain"], tree_spaces, tree_round_trip),
        prop("C12", "reading the print of a read document gives the same document, printing it again the same text", &[BOUNDS], documents, round_trip),
        prop("C13", "kinds, order and nesting of blocks equal the reference parser's", &[BOUNDS, MODEL], documents, block_structure),
        prop("C14", "inline content of every block equals the reference parser's", &[BOUNDS, MODEL], |t| {
            with(
                sub(if t { 7 } else { 6 }, &[("inline", INL), ("link", LINK), ("escape", ESC)]),
                documents(t),
            )
        }, inline),
        prop("C15", "lists equal the reference parser's: kinds, levels, items, texts, nesting", &[BOUNDS, MODEL], |t| {
            with(
                vec![
                    words("list lines", LIST_LINES, if t { 7 } else { 6 }),
                    words_in("list lines in a collapsible", "{% t\n", "%}", LIST_LINES, if t { 6 } else { 5 }),
                    words("list", LIST, if t { 8 } else { 7 }),
                ],
                documents(t),
            )
        }, lists),
        prop("C16", "collapsibles equal the reference parser's, and a body equals the document it would be at the top", &[BOUNDS, MODEL], |t| {
            with(
                vec![
                    words("collapsible", COLL, if t { 8 } else { 7 }),
                    words("collapsible lines", COLL_LINES, if t { 8 } else { 7 }),
                ],
                documents(t),
            )
        }, collapsibles),
        prop("C17", "code blocks equal the reference parser's: languages and bodies byte for byte", &[BOUNDS, MODEL], |t| {
            with(
                vec![
                    words("code", CODE, if t { 8 } else { 7 }),
                    words("code lines", CODE_LINES, if t { 7 } else { 6 }),
                    words_in("in a code block", "```rs\n", "\n```\n\nx", FULL, if t { 5 } else { 4 }),
                    words_in("in a code block of a collapsible", "{% t\n```\n", "\n```\n%}", FULL, if t { 5 } else { 4 }),
                ],
                documents(t),
            )
        }, code_blocks),
        prop("C18", "with any of its line breaks written CR LF a document reads the same", &[BOUNDS], crlf_spaces, crlf),
        prop("C19", "JSON of documents and events is the documented form and is read back equal", &[BOUNDS], |t| with(with(with(bent_spaces(), more_trees(t, true)), event_spaces(t)), documents_small(t)), serde_forms),
        Prop {
            named: threads_named,
            named_check: threads_check,
            ..prop("C20", "every call of every history answers like in a fresh process; lexers advanced in every order do not disturb one another", &[BOUNDS, "schedules are enumerated with one preemption at every basic block, load and store of yamd and with two at block starts, for two threads and sequentially consistent memory; the free-running threads case is extra"], |t| {
                let mut v: Spaces = vec![];
                for n in if t { 1..=10 } else { 1..=8 } {
                    v.push(Box::new(Choices::new("histories of calls", pure_program, 100 + n)));
                }
                v.push(Box::new(Choices::new("two lexers", pure_program, 200)));
                v
            }, purity)
        },
        prop("C21", "metadata equals the reference parser's, and so does the structure of what follows", &[BOUNDS, MODEL], |t| {
            with(
                vec![
                    words("metadata", META, if t { 9 } else { 8 }),
                    words_in("in metadata", "---\n", "\n---\n\nx", FULL, if t { 5 } else { 4 }),
                    words_in("after metadata", "---\na\n---", "", FULL, if t { 5 } else { 4 }),
                    words_in("before metadata", "", "---\na\n---", FULL, if t { 5 } else { 4 }),
                    words("metadata lines", META_LINES, if t { 8 } else { 7 }),
                ],
                documents(t),
            )
        }, metadata),
        prop("C22", "the print of one document, an empty line and another document read as the blocks of both", &[BOUNDS], append_spaces, append),
        prop("C23", "links and images equal the reference parser's: texts, destinations, grouping", &[BOUNDS, MODEL], |t| {
            with(
                vec![
                    words("link", LINK, if t { 8 } else { 7 }),
                    words("link pieces", LINK_PIECES, if t { 7 } else { 6 }),
                    words_in("in a destination", "[a](", ")", LINK, if t { 7 } else { 6 }),
                ],
                documents(t),
            )
        }, links),
        Prop {
            named: stat_named,
            named_check: stat_name,
            ..prop("C24", "the counts the tool prints equal the reference lexer's, the most frequent kind first", &[BOUNDS, MODEL], stat_spaces, token_stat)
        },
        Prop {
            named: random_named,
            named_check: random_every,
            ..prop("C28", "every run of the tool ends well and prints markers and literals that reach the length and end with the token that does; all of them can be drawn", &[BOUNDS, "draws from large domains are cut down to a menu of representatives (harness/random/rand)"], random_spaces, random_tool)
        },
        prop("C25", "highlights equal the reference parser's: title, icon, paragraphs", &[BOUNDS, MODEL], |t| {
            with(
                vec![
                    words("highlight", HIGH, if t { 8 } else { 7 }),
                    words("highlight lines", HIGH_LINES, if t { 7 } else { 6 }),
                    words_in("in a highlight", "!! t\n! i\n", "\n!!\n\nx", FULL, if t { 5 } else { 4 }),
                    words_in("title", "!! ", "\n!!", FULL, if t { 5 } else { 4 }),
                ],
                documents(t),
            )
        }, highlights),
        prop("C26", "headings and thematic breaks equal the reference parser's: levels, texts, anchors", &[BOUNDS, MODEL], |t| {
            with(
                vec![
                    words("heading", HEAD, if t { 8 } else { 7 }),
                    words("break", BREAK, if t { 8 } else { 7 }),
                    words_in("in a heading", "## ", "", FULL, if t { 5 } else { 4 }),
                ],
                documents(t),
            )
        }, headings),
        prop("C27", "embeds equal the reference parser's: kind and arguments", &[BOUNDS, MODEL], |t| {
            with(
                vec![
                    words("embed", EMBED, if t { 8 } else { 7 }),
                    words_in("in an embed", "{{", "}}", FULL, if t { 5 } else { 4 }),
                    words_in("in embed arguments", "{{a|", "}}\n\nx", FULL, if t { 5 } else { 4 }),
                ],
                documents(t),
            )
        }, embeds),
        Prop {
            named: levels_named,
            named_check: levels_check,
            ..prop("C29", "every constructor and conversion, with the text in each of its places, stores exactly what it was given (line breaks at the edges of code and metadata trimmed)", &[BOUNDS], build_spaces, constructors)
        },
        Prop {
            named: |_| EXTREMES.iter().map(|e| e.0.to_owned()).collect(),
            named_check: builds_extreme,
            ..prop("C30", "an optimised build without debug assertions, overflow checks and features gives the answers of the checked build with features", &[BOUNDS], documents_small, builds)
        },
    ]
}

const LIST_LINES: &[&str] = &[
    "- a\n", "+ b\n", " - c\n", " + d\n", "  - e\n", "  + f\n", "   - g\n", "x\n", "\n", "- \n", " x\n", "\\- y\n", "- `z\n",
];
const COLL_LINES: &[&str] = &["x\n", "{% t\n", "%}\n", "\n", "{%\n", "```\n", "- a\n", "!! t\n", "!!\n", "{%t\n"];
const CODE_LINES: &[&str] = &[
    "x\n", "```\n", "```rs\n", "\n", "````\n", " ```\n", "\\```\n", "``` \n", "- a\n", "%}\n", "\r\n", "```a",
];
const META_LINES: &[&str] = &["x\n", "---\n", "\n", "----\n", "\\---\n", "--- a\n", " ---\n", "# h\n"];
const HIGH_LINES: &[&str] = &["x\n", "!! t\n", "!!\n", "! i\n", "\n", "!!t\n", "!!! t\n", "- a\n", "\\!!\n", " !!\n", "!! \n", "! \n"];
const LINK_PIECES: &[&str] = &["a", "[", "](", ")", "[b](c)", "![b](c)", "(d)", "\n", "!", "\\)", "\\]", "[e]", "\n\n"];

fn crlf_spaces(t: bool) -> Spaces {
    let mut v: Spaces = vec![
        words("lines", LINES, 5),
        words("line breaks", &["\n", "a", "- ", "`", "```"], if t { 8 } else { 7 }),
    ];
    let no_cr: Vec<&str> = FULL.iter().copied().filter(|w| !w.contains('\r')).collect();
    v.push(words("full alphabet", &no_cr, if t { 5 } else { 4 }));
    for (p, s) in CONTEXTS {
        v.push(words_in("in context", p, s, &no_cr, 3));
    }
    for (l, a) in [("list", LIST), ("highlight", HIGH), ("collapsible", COLL), ("code", CODE), ("metadata", META), ("embed", EMBED), ("link", LINK)] {
        let a: Vec<&str> = a.iter().copied().filter(|w| !w.contains('\r')).collect();
        v.push(words(l, &a, if t { 8 } else { 7 }));
    }
    v.extend(crate::inputs::blocks(if t { 3 } else { 2 }));
    v.extend(deep());
    v.extend(repeated());
    v.extend(edits(1));
    v.extend(edits_two(BLOCKS));
    v.extend(nested_contexts(2, if t { 2 } else { 1 }));
    v.extend(nested_contexts(3, t as usize));
    v.extend(padded(1 + t as usize));
    v.extend(runs());
    v.extend(run_pairs(if t { 12 } else { 7 }));
    v
}
