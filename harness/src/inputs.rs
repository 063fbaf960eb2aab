//! The input spaces the properties share. Every list goes from simple to complex, so that the first
//! counterexample of a run is also close to the shortest.

use crate::space::*;

pub type Spaces = Vec<Box<dyn Space>>;

/// One word per token kind, run length the grammar distinguishes, escape and kind of line break.
pub const FULL: &[&str] = &[
    "a", " ", "\n", "*", "**", "_", "~~", "`", "```", "#", "!", "!!", "[", "]", "(", ")", "{{", "}}",
    "|", "{%", "%}", "-", "+", "-----", "---", "\\", "é", "\r\n", "%", ">", "\r",
];

/// Alphabets that concentrate on one construct.
pub const LIST: &[&str] = &["a", "\n", "- ", "+ ", " ", "\\", "`", "-", "\r\n"];
pub const HIGH: &[&str] = &["a", "\n", "!!", " ", "! ", "!", "\\", "_", "\r\n"];
pub const COLL: &[&str] = &["a", "\n", "{% ", "%}", " ", "- ", "```", "\\", "\r\n"];
pub const CODE: &[&str] = &["a", "\n", "```", "`", " ", "\\", "\r\n", "\r"];
pub const META: &[&str] = &["a", "\n", "---", "\\", "-----", "- ", "\r\n"];
pub const INL: &[&str] = &["a", "*", "**", "_", "~~", "`", "\n", "\\", "~", "\r\n"];
pub const LINK: &[&str] = &["a", "[", "]", "(", ")", "!", "\n", "\\", "\r\n"];
pub const EMBED: &[&str] = &["a", "{{", "}}", "|", "\n", "\\", "{", "}", "\r\n"];
pub const HEAD: &[&str] = &["a", "#", " ", "##", "\n", "[x](y)", "\\", "#######", "\r\n"];
pub const ESC: &[&str] = &["a", "\\", "\n", "\r", " ", "-", "!", "#", "%}", "{", "`"];
pub const BREAK: &[&str] = &["a", "-----", "-", "\n", " ", "\\", "------", "\r\n", "# "];

/// Whole lines: block structure without the noise of inline markup.
pub const LINES: &[&str] = &[
    "x\n", "\n", "# h\n", "- a\n", "+ d\n", " - b\n", "  + c\n", "-----\n", "---\n", "```\n", "{% t\n", "%}\n",
    "!! t\n", "!!\n", "! i\n", "![a](b)\n", "{{a|b}}\n",
];
pub const LINES_CRLF: &[&str] = &[
    "x\r\n", "\r\n", "# h\r\n", "- a\r\n", " - b\r\n", "-----\r\n", "---\r\n", "```\r\n", "{% t\r\n",
    "%}\r\n", "!! t\r\n", "!!\r\n", "! i\r\n", "![a](b)\r\n", "{{a|b}}\r\n",
];

/// Inline markup that begins in one block and could end in a later one, if the blocks between turned out to be none.
pub const CROSS: &[&str] = &[
    "_a\n", "`a\n", "*a\n", "~~a\n", "**a\n", "[a\n", "[a](b\n", "# _`*~~**](c))\n", "{{_`*|~~**](c))}}\n", "x_`*~~**](c))\n",
    "{% t\n", "%}\n", "!! t\n", "!!\n", "x\n", "\n", "- a\n", " - b\n", "```\n",
];

/// Places of every construct for other input to stand in: what comes before and after it.
pub const CONTEXTS: &[(&str, &str)] = &[
    ("a", "a"),
    ("a ", ""),
    ("", "\n\nx"),
    ("x\n\n", ""),
    ("x\n", "\nx"),
    ("*", "*"),
    ("_", "_"),
    ("~~", "~~"),
    ("`", "`"),
    ("**", "**"),
    ("**", ""),
    ("**a _", "_ b**"),
    ("*a", ""),
    ("[", "](u)"),
    ("[t](", ")"),
    ("[t](", ""),
    ("![", "](u)"),
    ("![t](", ")"),
    ("![a](b)\n", ""),
    ("![a](b)\n![", "](d)\n"),
    ("# ", ""),
    ("###### [", "](u)"),
    ("# a\n", "\n\nb"),
    ("- ", ""),
    ("+ ", "\n+ b"),
    ("- a\n", ""),
    ("- a\n - ", "\n- c"),
    ("- a\n - b\n  + ", "\n - c"),
    ("- **", "**\n- b"),
    ("```", "\nx\n```"),
    ("```\n", "\n```"),
    ("```rs\n", "```\n"),
    ("```\n", ""),
    ("{{", "|b}}"),
    ("{{a|", "}}"),
    ("{{a|b}}", ""),
    ("!! ", "\nx\n!!"),
    ("!!\n! ", "\nx\n!!"),
    ("!! t\n", "\n!!"),
    ("!! t\n! i\na\n\n", "\n!!"),
    ("!! t\n", ""),
    ("!! t\nx\n!!", ""),
    ("{% ", "\nx\n%}"),
    ("{% t\n", "\n%}"),
    ("{% t\nx\n%}", ""),
    ("{% t\n", ""),
    ("{%\n{% u\n", "\n%}\nx\n%}"),
    ("{% t\n- a\n - ", "\n%}"),
    ("{% t\n!! u\n", "\n!!\n%}"),
    ("{% t\n```\n", "\n```\n%}"),
    ("{% t\n![a](b)\n", "%}\n"),
    ("!! t\n**", "**\n!!"),
    ("!! t\n- ", "\n!!"),
    ("---\n", "\n---"),
    ("---\na\n---", ""),
    ("---\na\n---\n\n", ""),
    ("---", ""),
    ("-----", ""),
    ("a\n\n-----", "\n\nb"),
    ("", "\n%}"),
    ("", "\n!!"),
    ("", "\n```"),
    ("", "\n- a"),
    ("", "\n---"),
    ("", "**"),
    ("\\", ""),
    ("\r\n", "\r\n"),
    ("**~~", "~~**"),
    ("# h [a](", ") c"),
    ("- [", "](u)\n- b"),
    ("!! t\nx [a](", ")\n!!"),
    ("{% t\n# ", "\n\nx\n%}"),
    ("{% t\n{{a|", "}}\n\n%}"),
    ("{% t\n![", "](u)\n![c](d)\n\n%}"),
];

/// Blocks of every kind, plain and awkward.
pub const BLOCKS: &[&str] = &[
    "a",
    "a **b _c_ ~~d~~** *e* `f` [g](h)",
    "a\nb",
    "# h",
    "###### h [a](b) c",
    "- a",
    "+ a\n+ b",
    "- a\n - b\n  - c\n- d",
    "- a\n + b\n+ c",
    " - a",
    "![a](b)",
    "![a](b)\n![c](d)",
    "```rs\nx\n\n- y\n```",
    "```\n```",
    "-----",
    "{{a|b}}",
    "!! t\n! i\na\n\nb\n!!",
    "!!\na\n!!",
    "{% t\na\n\n- b\n%}",
    "{%\n%}",
    "{% t\n{% u\nx\n%}\n%}",
    "{% t\n```\n%}\n```\n%}",
    // unfinished and misplaced
    "**a",
    "`a",
    "[a](b",
    "```\na",
    "{% t\na",
    "!! t\na",
    "{{a|b",
    "%}",
    "!!",
    "---",
    "\\# a\\\\",
    "é\\*",
];

/// Texts with a meaning elsewhere: none has one here.
pub const LOOKS: &[&str] = &[
    "a", " ", "\n", "\\", "A", "0", "1. ", "1) ", "* ", "**a** ", "__a__", "_a_b_", "~a~", "==a==", "^a^", "$a$", "\t", "\t- ",
    "    ", "- [ ] ", "- [x] ", "[x]", "[^1]", "[a][b]", "[a]: b", "![a]", "(a)", "<b>", "</b>", "<br/>", "<!-- a -->", "<a@b.c>",
    "&amp;", "&lt;", "&quot;", "&#39;", "&nbsp;", "&", "%20", "%0A", "%5C", "%7B", "%", "http://a.b/c?d=e&f=g#h", "https://a.b",
    "www.a.b", "mailto:a@b.c", "javascript:a", "file:///a", "../a", "./a", "/a/b", "a.b", "a@b", "#a", "@a", ":a:", ":-)", "...",
    "--", "\u{2014}", "(c)", "'a'", "\"a\"", "\\n", "\\t", "\\u{41}", "\\x41", "\\0", "\0", "{a}", "{{a}}", "{%a%}", "{#a#}", "${a}",
    "<%a%>", "||", "|a|b|", "|-|-|", "+++", "***", "___", "===", "~~~", "~~~a", "````", "``", "``a``", "> a", ">> a", "######", "#!",
    "!", "?", "!a", "title: a", "a: \"b\"", "---a", "...\n", "null", "None", "true", "TODO", "youtube", "rust", "Rust",
    "\u{301}", "e\u{301}", "\u{fe0f}", "👍🏽", "👨\u{200d}👩", "\u{202e}", "\u{feff}", "\u{a0}", "\u{3000}", "ß", "İ", "ﬁ", "Å", "½", "١",
    "\u{2028}", "\u{85}", "\u{b}", "\u{c}", "\r", "\u{7f}", "\u{1b}[0m",
];

/// Documents that use everything.
pub const RICH: &[&str] = &[
    "---\ntitle: a\n---\n\n# One [a](b) two\n\ntext **bold _it_ ~~s~~** *em* `code` [l](u(v)w) \\* end",
    "- a\n - b\n  + c\n  + d\n - e\n- f **g**\n\n+ x\n + y\nz",
    "!! title\n! icon\nfirst _a_\n\nsecond\nline\n!!\n\n![a](b)\n\n![a](b)\n![c](d)\n\n-----\n\n{{youtube|123}}",
    "{% outer\ntext\n\n{% inner\n- a\n - b\n%}\n\n```rs\nlet x;\n%}\n\n!!\n```\n\n!! t\nx\n!!\n%}\n\nafter",
    "```\na\n\nb `c` \\` d\n```\n\n`x` ~~y~~ _z_\n\n## h\n\n###### i",
    "para é ü 漢字 😉\r\nsecond\r\n\r\n- a\r\n - b\r\n\r\n```\r\ncode\r\n```\r\n\r\n{% t\r\nx\r\n%}\r\n",
];

fn w(words: &[&str]) -> Vec<String> {
    words.iter().map(|s| s.to_string()).collect()
}

pub fn words(label: &'static str, words: &[&str], depth: usize) -> Box<dyn Space> {
    words_in(label, "", "", words, depth)
}

pub fn words_in(label: &'static str, pre: &str, suf: &str, words: &[&str], depth: usize) -> Box<dyn Space> {
    Box::new(Words {
        label,
        pre: pre.into(),
        suf: suf.into(),
        words: w(words),
        depth,
    })
}

pub fn full(depth: usize) -> Spaces {
    vec![words("full alphabet", FULL, depth)]
}

pub fn contexts(depth: usize) -> Spaces {
    CONTEXTS
        .iter()
        .map(|(p, s)| words_in("in context", p, s, FULL, depth))
        .collect()
}

pub fn ascii(depth: usize) -> Spaces {
    vec![Box::new(Words {
        label: "ASCII",
        pre: String::new(),
        suf: String::new(),
        words: (0u8..128).map(|b| (b as char).to_string()).collect(),
        depth,
    })]
}

/// What has a meaning elsewhere, and every pair of characters, in every place.
pub fn looks(depth: usize) -> Spaces {
    let mut v = vec![words("looks", LOOKS, depth)];
    for (p, s) in CONTEXTS {
        v.push(words_in("looks in context", p, s, LOOKS, depth));
    }
    v
}

pub fn ascii_in_contexts(depth: usize) -> Spaces {
    CONTEXTS
        .iter()
        .map(|(p, s)| {
            Box::new(Words {
                label: "ASCII in context",
                pre: p.to_string(),
                suf: s.to_string(),
                words: (0u8..128).map(|b| (b as char).to_string()).collect(),
                depth,
            }) as Box<dyn Space>
        })
        .collect()
}

pub fn scalars() -> Spaces {
    vec![Box::new(Scalars {
        templates: vec![
            "\u{1}",
            "\u{1}*\u{1}",
            "\\\u{1}-\u{1}\n\u{1}",
            "- \u{1}_\u{1}_\\\u{1}",
        ],
    })]
}

/// Every scalar value in every kind of place that holds text.
pub fn scalars_everywhere() -> Spaces {
    vec![Box::new(Scalars {
        templates: vec![
            "\u{1}a",
            "\u{1}\\\u{1}",
            "# \u{1}\n\n**\u{1}**[\u{1}](\u{1})",
            "{% \u{1}\n- \u{1}\n- \u{1}b\u{1}\n - c\n%}\n\n!! \u{1}\n! \u{1}\n\u{1}\n\n\u{1}b\u{1}\n!!",
            "---\n\u{1}\n---\n\n```\u{1}\n\u{1}b\u{1}\n```\n\n{{\u{1}|\u{1}}}\n\n![\u{1}](\u{1})",
            "_\u{1}_ ~~\u{1}a~~ *a\u{1}* `\u{1}` \u{1}**_\u{1}_**\\\u{1}\u{1}",
            "![\u{1}a](b\u{1})\n![c](\u{1}(\u{1}))\n\n+ \u{1}\n + \u{1}\u{1}\nb",
        ],
    })]
}

pub fn subs(depth: usize) -> Spaces {
    vec![
        words("list", LIST, depth),
        words("highlight", HIGH, depth),
        words("collapsible", COLL, depth),
        words("code", CODE, depth),
        words("metadata", META, depth),
        words("inline", INL, depth),
        words("link", LINK, depth),
        words("embed", EMBED, depth),
        words("heading", HEAD, depth),
        words("escape", ESC, depth - 1),
        words("break", BREAK, depth),
    ]
}

pub fn lines(depth: usize) -> Spaces {
    vec![
        words("lines", LINES, depth),
        words("CRLF lines", LINES_CRLF, depth - 1),
        words("markup across lines", CROSS, depth),
    ]
}

pub fn blocks(depth: usize) -> Spaces {
    let join = |sep: &str| -> Vec<String> { BLOCKS.iter().map(|b| format!("{b}{sep}")).collect() };
    ["\n\n", "\n", "\r\n\r\n"]
        .iter()
        .map(|sep| {
            Box::new(Words {
                label: "blocks",
                pre: String::new(),
                suf: String::new(),
                words: join(sep),
                depth,
            }) as Box<dyn Space>
        })
        .collect()
}

fn small_lens() -> Vec<usize> {
    let mut v: Vec<usize> = (0..=70).collect();
    v.extend([99, 100, 101, 126, 127, 128, 129, 130]);
    v
}

fn mid_lens() -> Vec<usize> {
    let mut v = small_lens();
    v.extend([200, 254, 255, 256, 257, 258, 299, 300, 511, 512, 513, 1000, 1023, 1024, 1025]);
    v
}

const RUN_PLACES: &[&str] = &[
    "\u{1}",
    "a\u{1}",
    "\u{1}a",
    "\u{1} a",
    "a\n\n\u{1}\n\nb",
    "- \u{1}\n- b",
    "{% t\n\u{1}\n%}",
    "!! t\n\u{1}\n!!",
    "**\u{1}**",
    "`\u{1}`",
    "```\n\u{1}\n```",
    "[\u{1}](\u{1})",
    "# \u{1}",
    "---\n\u{1}\n---",
    "{{\u{1}|\u{1}}}",
];

/// Long runs, at the lengths where narrow counters and fixed limits show.
pub fn runs() -> Spaces {
    let mut cheap: Vec<&str> = FULL.to_vec();
    cheap.extend(["\n\n", "a ", "\\*", "\\\\", "a\n", "a\r\n", "漢", "😉", "[a](b)", "*a* ", "**a** ", "`a` ", "()"]);
    vec![
        Box::new(Runs {
            words: w(&cheap),
            lens: mid_lens(),
            templates: RUN_PLACES.to_vec(),
        }),
        // many blocks
        Box::new(Runs {
            words: w(&[
                "a\n\n", "- a\n", "+ a\n", "# a\n\n", "![a](b)\n", "{{a|b}}\n", "```\na\n```\n", "-----\n\n",
                "!! t\na\n!!\n", "{% t\na\n%}\n", "{{a|b}}\n\n", " - a\n", "\r\n\r\n", "a\r\n\r\n",
            ]),
            lens: mid_lens(),
            templates: vec!["\u{1}", "a\n\n\u{1}", "{% t\n\u{1}%}", "- a\n\u{1}", "!! t\n\u{1}!!"],
        }),
        // every kind of block over and over
        Box::new(Runs {
            words: BLOCKS
                .iter()
                .chain(&["a\\\n", "- a\\\n", "\\- a", "*a\\\n*", "x\\\r\n", "!!\na\\\n\n!!"])
                .filter(|b| !b.ends_with("{% t\na"))
                .map(|b| format!("{b}\n\n"))
                .collect(),
            lens: vec![2, 3, 5, 9, 17, 33, 50, 65, 130, 257],
            templates: vec!["\u{1}", "x\n\n\u{1}y", "{% t\n\u{1}%}"],
        }),
        // escaped markers on one line after another
        Box::new(Runs {
            words: w(&[
                "\\%}\n", "\\---\n", "\\!!\n", "\\! a\n", "\\```\n", "\\- a\n", " \\- a\n", "\\+ a\n", "\\{{a|b}}\n", "\\# a\n", "\\-----\n",
                "\\![a](b)\n", "\\{% a\n", "\\\n", "a\\\n\n", "\\ ", "\\ \n", "a\\)", "\\]\n", "\\}}\n", "\\**\n", "\\`\n", "\\\r\n",
            ]),
            lens: small_lens(),
            templates: RUN_PLACES.iter().copied().chain(["{% t\n`a\n\u{1}`\n%}", "- `a\n\u{1}`", "!!\n_a\n\u{1}_\n!!", "[a\n\u{1}](a\n\u{1})"]).collect(),
        }),
        // unfinished collapsibles cost the cube of their number
        Box::new(Runs {
            words: w(&["{% a\n", "%}\n"]),
            lens: small_lens(),
            templates: vec!["\u{1}", "{% t\n\u{1}%}"],
        }),
        long(),
        // long texts in every place, many of every block
        Box::new(Runs {
            words: w(&["a", "é", "a ", "\\*", "a\n", "(", "*a* "]),
            lens: BIG.to_vec(),
            templates: RUN_PLACES.to_vec(),
        }),
        Box::new(Runs {
            words: w(&[
                "a\n\n", "- a\n", "+ a\n", "# a\n\n", "![a](b)\n", "{{a|b}}\n\n", "```\na\n```\n\n", "-----\n\n",
                "!! t\na\n!!\n\n", "{% t\na\n%}\n\n", " - a\n",
            ]),
            lens: BIG.to_vec(),
            templates: vec!["\u{1}", "{% t\n\u{1}%}", "- a\n\u{1}"],
        }),
    ]
}

/// Beyond round numbers somebody might take for enough.
const BIG: &[usize] = &[2001, 2049, 4097, 5001, 8193, 10001, 20001];

fn long() -> Box<dyn Space> {
    Box::new(Runs {
        words: w(&["a", "é", " ", "\n", "\r\n", "\n\n", "\\a", "a\n", "a\n\n", "a ", "😉"]),
        lens: vec![4095, 4096, 4097, 21845, 32767, 32768, 65534, 65535, 65536, 65537],
        templates: vec!["\u{1}", "\u{1}- b", "\u{1}*b*", "\u{1}\n# b [c](d)"],
    })
}

/// All characters with a meaning, in runs of two lengths.
pub fn run_pairs(most: usize) -> Spaces {
    vec![Box::new(RunPairs {
        words: w(&[
            "a", "é", " ", "\n", "\r\n", "*", "_", "~", "`", "#", "!", "[", "]", "(", ")", "{", "}", "|", "%", "-", "+",
            ">", "\\", "\t", "- ", "\\a",
        ]),
        most,
        templates: vec!["\u{1}", "\u{1}a", "a\u{1}", "\u{1}a\u{1}", "\u{1}\n\u{1}", "- a\n\u{1}b", "{% t\n\u{1}a\n%}"],
    })]
}

pub fn pump(lens: Vec<usize>) -> Spaces {
    let mut words = w(FULL);
    words.extend(w(&["{% a\n", "%}\n", "- a\n", "!! t\n", "!!\n", "```\n", "[a](", "**a", "_a"]));
    vec![Box::new(Pump {
        words,
        lens,
        tails: vec!["", "\n\nb"],
    })]
}

/// Words where much has come before or is still to come.
pub fn padded(depth: usize) -> Spaces {
    vec![Box::new(Padded {
        contexts: CONTEXTS,
        pads: vec![format!("{}\n\n", RICH[..5].join("\n\n")), "x".repeat(70), "*a* `b` _c_ ".repeat(12), "x\n- y\n".repeat(20), "x\n\n".repeat(35)],
        words: w(FULL),
        depth,
    })]
}

/// Escapes, line breaks and closing markers in the midst of many others.
pub fn amid(lens: Vec<usize>) -> Spaces {
    let mut outer = w(FULL);
    outer.extend(w(&["{% a\n", "%}\n", "- ", "[a](", "a\n", "\n\n", "- a\n", "\\*"]));
    vec![Box::new(Amid {
        outer,
        inner: w(&["\\*", "\\)", "\\]", "\\`", "\\\n", "\\a", "\\-", "\\%}", "\\!!", "b", "\n", "\n\n", ")"]),
        lens,
        around: vec![("", ""), ("[a](", ")"), ("- ", ""), ("{% t\n", "\n%}")],
    })]
}

/// Deep nesting of everything that nests.
pub fn deep() -> Spaces {
    let mut v = vec![];
    let lens: Vec<usize> = (1..=40).chain([63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 258]).collect();
    let mut of_few = 0;
    for &n in &lens {
        if n == 13 {
            of_few = v.len();
        }
        for mark in [["- ", "- "], ["+ ", "- "]] {
            let down: String = (0..n)
                .map(|i| format!("{}{}{i}\n", " ".repeat(i), mark[i % 2]))
                .collect();
            v.push(down.clone());
            // back up step by step, at once, and half way
            let up: String = (0..n)
                .rev()
                .map(|i| format!("{}{}u\n", " ".repeat(i), mark[i % 2]))
                .collect();
            v.push(format!("{down}{up}"));
            v.push(format!("{down}{}end", mark[0]));
            v.push(format!("{down}{}{}end", " ".repeat(n / 2), mark[n / 2 % 2]));
            v.push(format!("{{% t\n{down}%}}"));
            v.push(format!("{down}\n{down}"));
            // items of other texts, at every level and at one only
            for text in ["", "*a* b", "[a](b)", "`c`\\", "x\ny", "\\- z"] {
                let line = |i: usize, t: &str| format!("{}{}{t}\n", " ".repeat(i), mark[i % 2]);
                v.push((0..n).map(|i| line(i, text)).collect());
                if n <= 14 {
                    for j in 0..n {
                        v.push((0..n).map(|i| line(i, if i == j { text } else { "a" })).collect());
                        v.push((0..n).map(|i| line(i, if i == j { "a" } else { text })).collect());
                    }
                }
            }
            // a level skipped
            v.push(format!("{down}{}{}end", " ".repeat(n + 1), mark[0]));
        }
        v.push(format!("{}x\n{}", "{% t\n".repeat(n), "%}\n".repeat(n)));
        v.push(format!("{}{}", "{% t\n".repeat(n), "%}\n".repeat(n)));
        v.push(format!("{}x\n{}", "{%\n".repeat(n), "%}\n".repeat(n - 1)));
        v.push(format!("{}x\n{}", "{%\n".repeat(n), "%}\n".repeat(n + 1)));
        v.push(format!("[a]({}b{})c", "(".repeat(n), ")".repeat(n)));
        v.push(format!("[a]({}b{})c", "(".repeat(n), ")".repeat(n + 1)));
        v.push(format!("[a]({}b{})c", "(".repeat(n + 1), ")".repeat(n)));
        v.push(format!("{}a{}", "[".repeat(n), "](b)".repeat(n)));
    }
    for n in [130, 200, 254, 255, 256, 257, 258, 511, 512, 513, 1000, 1025] {
        for (open, close) in [(n, n), (n, n + 1), (n + 1, n), (n, 1)] {
            v.push(format!("[a]({}b{})c", "(".repeat(open), ")".repeat(close)));
            v.push(format!("![a]({}b{})\n\nc", "(".repeat(open), ")".repeat(close)));
        }
    }
    // behind and before everything else
    let all = RICH.join("\n\n");
    for i in 0..of_few {
        let case = v[i].clone();
        v.push(format!("{all}\n\n{case}\n\n{all}"));
        v.push(format!("- a\n\n!! t\nx\n!!\n\n{case}"));
        v.push(format!("{{% t\n{all}\n\n{case}\n%}}"));
    }
    vec![Box::new(Fixed {
        label: "deep nesting".into(),
        cases: v,
    })]
}

/// All changes of one place of the rich documents.
pub fn edits(n: usize) -> Spaces {
    vec![Box::new(Edits {
        bases: w(if n == 1 { RICH } else { BLOCKS }),
        words: w(FULL),
        edits: n,
    })]
}

/// What a second place of a document is likely to be changed to.
const FEW: &[&str] = &["a", " ", "\n", "\\", "*", "`", "[", ")", "!!", "-", "%}", "|"];

/// All changes of two places of every block, followed by a paragraph.
pub fn edits_two(bases: &[&str]) -> Spaces {
    vec![Box::new(Edits {
        bases: bases.iter().map(|b| b.to_string()).collect(),
        words: w(FEW),
        edits: 2,
    })]
}

/// Constructs within constructs within constructs.
pub fn nested_contexts(levels: u32, depth: usize) -> Spaces {
    vec![Box::new(Nested {
        contexts: CONTEXTS,
        levels,
        words: w(FULL),
        depth,
    })]
}

/// The documents over and over: sizes beyond what a person would try.
pub fn repeated() -> Spaces {
    let mut v = vec![];
    let all = RICH.join("\n\n");
    for n in [1, 2, 3, 7, 20, 60] {
        v.push(vec![all.clone(); n].join("\n\n"));
        v.push(vec![all.clone(); n].join("\n"));
        for d in RICH {
            v.push(vec![*d; n].join("\n\n"));
        }
        v.push(vec![BLOCKS.join("\n\n"); n].join("\n\n"));
    }
    vec![Box::new(Fixed {
        label: "documents repeated".into(),
        cases: v,
    })]
}

/// What every property of whole documents explores.
pub fn documents(thorough: bool) -> Spaces {
    let mut v = full(if thorough { 5 } else { 4 });
    v.extend(contexts(if thorough { 4 } else { 3 }));
    v.extend(blocks(if thorough { 4 } else { 3 }));
    v.extend(lines(if thorough { 6 } else { 5 }));
    v.extend(subs(if thorough { 7 } else { 6 }));
    v.extend(deep());
    v.extend(repeated());
    v.extend(edits(1));
    v.extend(edits_two(BLOCKS));
    if thorough {
        v.extend(edits(2));
        v.extend(edits_two(RICH));
    }
    v.extend(nested_contexts(2, if thorough { 3 } else { 2 }));
    v.extend(nested_contexts(3, 1));
    v.extend(padded(2));
    v.extend(amid(if thorough { vec![1, 2, 3, 4, 5, 9, 17, 33] } else { vec![2, 4, 17] }));
    v.extend(runs());
    v.extend(run_pairs(if thorough { 20 } else { 9 }));
    v.extend(scalars_everywhere());
    v.extend(ascii(if thorough { 3 } else { 2 }));
    v.extend(ascii_in_contexts(2));
    v.extend(looks(2));
    v.extend(pump(if thorough { vec![2, 3, 5, 9, 17, 33, 40] } else { vec![3, 9, 33] }));
    v
}

/// The shared spaces at a smaller depth, for properties that add spaces of their own or cost more per case.
pub fn documents_small(thorough: bool) -> Spaces {
    let mut v = full(if thorough { 4 } else { 3 });
    v.extend(contexts(if thorough { 3 } else { 2 }));
    v.extend(blocks(if thorough { 3 } else { 2 }));
    v.extend(lines(if thorough { 5 } else { 4 }));
    v.extend(subs(if thorough { 6 } else { 5 }));
    v.extend(deep());
    v.extend(repeated());
    v.extend(edits(1));
    v.extend(nested_contexts(2, if thorough { 2 } else { 1 }));
    v.extend(nested_contexts(3, thorough as usize));
    v.extend(padded(1 + thorough as usize));
    v.extend(amid(if thorough { vec![2, 4, 17] } else { vec![4] }));
    v.extend(runs());
    v.extend(run_pairs(if thorough { 12 } else { 7 }));
    v.extend(looks(1 + thorough as usize));
    v.extend(ascii_in_contexts(1 + thorough as usize));
    if thorough {
        v.extend(edits_two(BLOCKS));
        v.extend(scalars_everywhere());
    }
    v.extend(pump(if thorough { vec![3, 9, 33] } else { vec![3, 9] }));
    v
}
