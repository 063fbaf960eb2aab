// ---- C11: trees to text and back -----------------------------------------------------------------------

/// Texts that look like markup.
const NASTY: &[&str] = &[
    "a", "*", "**", "_", "~~", "`", "\\", "\n", "\n\n", "\r\n", "\r", "- a", "+ a", " - a", "# a", "###### a", "!", "!!",
    "!! a", "! a", "[", "]", "(", ")", "[a](b)", "![a](b)", "{{a|b}}", "{{", "}}", "|", "{%", "{% a", "%}", "-----",
    "---", "```", " ", " a", "a ", "é", "a\n- b", "a\n!!", "a\n%}", "a\n\n\nb", "a\r\n\r\nb", "a\n```\nb", "\\n",
];

fn t(s: &str) -> Vec<Inl> {
    vec![Inl::Text(s.to_owned())]
}

fn item(text: Vec<Inl>, nested: Option<ListT>) -> Item {
    Item {
        text,
        nested: nested.map(Box::new),
    }
}

fn ul(level: usize, items: Vec<Item>) -> ListT {
    ListT {
        ordered: false,
        level,
        items,
    }
}

/// Documents with one place for a text.
fn hole(n: usize, s: &str) -> Option<Doc> {
    let x = || s.to_owned();
    let body = |b: Vec<Blk>| Some(Doc { meta: None, body: b });
    let para = |v: Vec<Inl>| Blk::Para(v);
    match n {
        0 => body(vec![para(t(s))]),
        1 => body(vec![para(vec![Inl::Bold(t(s))])]),
        2 => body(vec![para(vec![Inl::Italic(x())])]),
        3 => body(vec![para(vec![Inl::Strike(x())])]),
        4 => body(vec![para(vec![Inl::Code(x())])]),
        5 => body(vec![para(vec![Inl::Emph(x())])]),
        6 => body(vec![para(vec![Inl::Anchor(x(), "u".into())])]),
        7 => body(vec![para(vec![Inl::Anchor("t".into(), x())])]),
        8 => body(vec![para(vec![Inl::Bold(vec![
            Inl::Text("a".into()),
            Inl::Italic(x()),
            Inl::Text("b".into()),
            Inl::Strike(x()),
        ])])]),
        9 => body(vec![para(vec![Inl::Emph("e".into()), Inl::Text(x()), Inl::Code("c".into())])]),
        10 => body(vec![Blk::Head(1, t(s))]),
        11 => body(vec![Blk::Head(6, vec![Inl::Text(x()), Inl::Anchor(x(), x()), Inl::Text("b".into())])]),
        12 => body(vec![Blk::List(ul(0, vec![item(t(s), None), item(t("b"), None)]))]),
        13 => body(vec![Blk::List(ul(
            0,
            vec![item(t("a"), Some(ul(1, vec![item(t(s), None), item(t("c"), None)]))), item(t(s), None)],
        ))]),
        14 => body(vec![Blk::List(ul(
            0,
            vec![item(t(s), Some(ul(1, vec![item(t("b"), Some(ul(2, vec![item(t(s), None)])))])))],
        ))]),
        15 => body(vec![Blk::Image(x(), "u".into())]),
        16 => body(vec![Blk::Image("a".into(), x())]),
        17 => body(vec![Blk::Images(vec![(x(), "u".into()), ("a".into(), x())])]),
        18 => body(vec![Blk::Code(x(), "c".into())]),
        19 => body(vec![Blk::Code(String::new(), x())]),
        20 => body(vec![Blk::Code("rs".into(), x()), para(t("b"))]),
        21 => body(vec![Blk::Embed(x(), "a".into())]),
        22 => body(vec![Blk::Embed("k".into(), x())]),
        23 => body(vec![Blk::High(Some(x()), None, vec![t("b")])]),
        24 => body(vec![Blk::High(None, Some(x()), vec![t("b")])]),
        25 => body(vec![Blk::High(None, None, vec![t(s)])]),
        26 => body(vec![Blk::High(Some("t".into()), Some("i".into()), vec![t(s), t("b"), t(s)])]),
        27 => body(vec![Blk::Coll(x(), vec![para(t("b"))])]),
        28 => body(vec![Blk::Coll("t".into(), vec![para(t(s))])]),
        29 => body(vec![Blk::Coll("t".into(), vec![Blk::Coll(x(), vec![para(t(s)), para(t("b"))])])]),
        30 => body(vec![para(t("a")), para(t(s)), para(t("b"))]),
        31 => body(vec![
            Blk::Coll(
                "t".into(),
                vec![
                    Blk::List(ul(0, vec![item(t(s), None)])),
                    Blk::High(None, None, vec![t(s)]),
                    Blk::Code(String::new(), x()),
                ],
            ),
            para(t(s)),
        ]),
        32 => Some(Doc {
            meta: Some(x()),
            body: vec![],
        }),
        33 => Some(Doc {
            meta: Some(x()),
            body: vec![para(t(s))],
        }),
        34 => body(vec![Blk::High(None, None, vec![vec![Inl::Bold(t(s)), Inl::Text(x()), Inl::Anchor(x(), x())]])]),
        35 => body(vec![Blk::List(ul(0, vec![item(vec![Inl::Code(x()), Inl::Text(x()), Inl::Emph(x())], None)]))]),
        36 => body(vec![Blk::Break, para(t(s)), Blk::Break]),
        37 => body(vec![Blk::High(Some("t".into()), None, vec![t(s), t(s)])]),
        38 => body(vec![Blk::High(None, Some("i".into()), vec![t(s)]), Blk::High(Some(x()), Some(x()), vec![])]),
        39 => body(vec![Blk::List(ListT {
            ordered: true,
            level: 0,
            items: vec![
                item(t(s), Some(ul(1, vec![item(t(s), Some(ListT { ordered: true, level: 2, items: vec![item(t(s), None)] }))]))),
                item(vec![Inl::Bold(t(s)), Inl::Text(x()), Inl::Italic(x()), Inl::Anchor(x(), x())], None),
            ],
        })]),
        40 => body(vec![
            Blk::Coll(x(), vec![Blk::Head(2, t(s)), Blk::Embed(x(), x()), Blk::Image(x(), x())]),
            Blk::Coll(x(), vec![Blk::High(Some(x()), Some(x()), vec![t(s), t(s)]), Blk::Code(x(), x())]),
        ]),
        // closing markers behind
        41 => body(vec![para(vec![
            Inl::Anchor(x(), x()),
            close(),
            Inl::Emph(x()),
            close(),
            Inl::Code(x()),
            close(),
            Inl::Bold(t(s)),
            close(),
            Inl::Italic(x()),
            close(),
            Inl::Strike(x()),
            close(),
        ])]),
        42 => body(vec![Blk::Head(
            3,
            vec![Inl::Anchor(x(), x()), close(), Inl::Anchor("t".into(), x()), close()],
        )]),
        43 => body(vec![Blk::List(ul(
            0,
            vec![
                item(
                    vec![Inl::Anchor(x(), x()), close(), Inl::Strike(x()), close(), Inl::Bold(vec![Inl::Italic(x()), close()])],
                    Some(ul(1, vec![item(vec![Inl::Code(x()), close()], None)])),
                ),
                item(vec![close()], None),
            ],
        ))]),
        44 => body(vec![Blk::Image(x(), x()), para(vec![close()]), Blk::Image("a".into(), x()), para(vec![close()])]),
        45 => body(vec![Blk::Embed(x(), x()), para(vec![close()]), Blk::Embed("k".into(), x()), para(vec![close()])]),
        46 => body(vec![Blk::Code(x(), x()), para(vec![close()]), Blk::Code("k".into(), x()), Blk::Code(String::new(), CLOSE.into())]),
        47 => body(vec![
            Blk::High(Some(x()), Some(x()), vec![t(s), vec![close()], t(s)]),
            para(vec![close()]),
            Blk::High(None, None, vec![vec![close()], t(s)]),
        ]),
        48 => body(vec![
            Blk::Coll(x(), vec![para(vec![close()]), para(t(s)), Blk::Code(x(), CLOSE.into()), para(vec![close()])]),
            para(vec![close()]),
        ]),
        _ => None,
    }
}

const CLOSE: &str = "z) ](u) * ** _ ~~ ` ```\n``` b\n%}\n!!\n---\n}} | %} c";

/// Everything that could end what is open.
fn close() -> Inl {
    Inl::Text(CLOSE.into())
}

const HOLES: usize = 49;

/// A text in every place a tree has for one, alone and at both ends of another.
fn everywhere(s: &str) -> Doc {
    let x = || s.to_owned();
    let y = || format!("{s}b{s}");
    let inline = || {
        vec![
            Inl::Text(x()),
            Inl::Bold(vec![Inl::Text(x()), Inl::Italic(y()), Inl::Text(y()), Inl::Strike(x())]),
            Inl::Text(y()),
            Inl::Italic(x()),
            Inl::Code(x()),
            Inl::Strike(y()),
            Inl::Emph(y()),
            Inl::Code(y()),
            Inl::Anchor(x(), y()),
            Inl::Anchor(y(), x()),
            Inl::Emph(x()),
            Inl::Text(x()),
        ]
    };
    let head = || vec![Inl::Text(x()), Inl::Anchor(x(), x()), Inl::Text(y()), Inl::Anchor(y(), y()), Inl::Text(x())];
    let list = ListT {
        ordered: true,
        level: 0,
        items: vec![
            item(inline(), Some(ul(1, vec![item(t(s), None), item(vec![Inl::Text(y())], None)]))),
            item(t(s), None),
            item(vec![Inl::Text(y())], None),
        ],
    };
    let high = |a: String, b: String| Blk::High(Some(a), Some(b), vec![t(s), vec![Inl::Text(y())]]);
    let code = |a: String, b: String| Blk::Code(a, b);
    let mut body = vec![
            Blk::Head(1, head()),
            Blk::Para(inline()),
            Blk::Para(t(s)),
            Blk::List(list.clone()),
            high(x(), y()),
            high(y(), x()),
            code(x(), y()),
            code(y(), x()),
            Blk::Image(x(), y()),
            Blk::Images(vec![(y(), x()), (x(), x())]),
            Blk::Embed(x(), y()),
            Blk::Embed(y(), x()),
            Blk::Para(vec![Inl::Text(y())]),
    ];
    body.push(Blk::Coll(x(), vec![Blk::Para(t(s)), Blk::Coll(y(), vec![Blk::Head(2, t(s)), Blk::Para(t(s))])]));
    Doc { meta: Some(y()), body }
}

/// Trees with `n` of something.
fn many(what: usize, n: usize) -> Option<Doc> {
    let body = |b: Vec<Blk>| Some(Doc { meta: None, body: b });
    let each = |f: &dyn Fn(usize) -> Inl| (0..n).map(f).collect::<Vec<_>>();
    let b = each(&|i| if i % 2 == 0 { Inl::Italic("i".into()) } else { Inl::Text(format!("**{i}")) });
    match what {
        0 => body(vec![Blk::Images((0..n).map(|i| (i.to_string(), format!("({i}")) ).collect())]),
        1 => body(vec![Blk::List(ul(0, (0..n).map(|i| item(t(&format!("{i}\n- x")), None)).collect()))]),
        2 => body(vec![Blk::High(None, None, (0..n).map(|i| t(&format!("!! {i}"))).collect())]),
        3 => body(vec![Blk::Para(vec![Inl::Bold(b)])]),
        4 => body(vec![Blk::Para(b)]),
        5 => body(vec![Blk::List(ul(0, vec![item(b, None), item(t("x"), None)]))]),
        6 => body(vec![Blk::Head(
            2,
            each(&|i| if i % 2 == 0 { Inl::Anchor("i".into(), ")".into()) } else { Inl::Text(format!("# [{i}")) }),
        )]),
        7 | 8 => {
            let mut l: Option<ListT> = None;
            for level in (0..n).rev() {
                let text = format!("{level}\n{}- x\n{}+ y", " ".repeat(level), " ".repeat(level + 1));
                l = Some(ListT {
                    ordered: what == 8 && level % 2 == 0,
                    level,
                    items: vec![item(t(&text), l), item(t(&text), None)],
                });
            }
            body(vec![Blk::List(l?)])
        }
        9 => {
            let mut v = vec![Blk::Para(t("%}\n%}"))];
            for i in 0..n {
                v = vec![Blk::Coll(format!("{i}%}}"), v), Blk::Para(t("a\n"))];
            }
            body(v)
        }
        w => {
            let k = w - 10;
            let b = block_pool().get(k / 2)?.clone();
            let v = vec![b; n];
            body(if k % 2 == 0 { v } else { vec![Blk::Coll("t".into(), v), Blk::Break] })
        }
    }
}

fn inline_in(v: &[Inl], bold: bool) -> bool {
    use Inl::*;
    !v.is_empty()
        && v.iter().all(|i| match i {
            Text(t) | Italic(t) | Strike(t) | Code(t) | Emph(t) => !t.is_empty(),
            Bold(b) => !bold && inline_in(b, true),
            Anchor(..) => true,
        })
        && v.windows(2).all(|w| {
            !matches!(
                (&w[0], &w[1]),
                (Text(_), Text(_))
                    | (Strike(_), Strike(_))
                    | (Code(_), Code(_))
                    | (Emph(_) | Bold(_), Emph(_) | Bold(_))
            )
        })
}

/// A text whose last part ends in a line break loses it where a line break follows anyway.
fn trims(v: &[Inl]) -> bool {
    matches!(v.last(), Some(Inl::Text(t)) if t.ends_with(['\n', '\r']))
}

fn list_in(l: &ListT, level: usize) -> bool {
    l.level == level
        && !l.items.is_empty()
        && l.items.iter().all(|i| {
            (i.text.is_empty() || inline_in(&i.text, false) && !trims(&i.text))
                && i.nested.as_ref().is_none_or(|n| list_in(n, level + 1))
        })
}

fn blocks_in(v: &[Blk]) -> bool {
    v.iter().all(|b| match b {
        Blk::Para(p) => inline_in(p, false),
        Blk::Head(l, p) => (1..=6).contains(l) && (p.is_empty() || inline_in(p, false)),
        Blk::Image(..) | Blk::Break | Blk::Embed(..) => true,
        Blk::Images(v) => v.len() > 1,
        Blk::Code(_, c) => !c.ends_with(['\n', '\r']),
        Blk::List(l) => list_in(l, 0),
        Blk::High(_, _, b) => b.iter().all(|p| inline_in(p, false) && !trims(p)),
        Blk::Coll(_, b) => blocks_in(b),
    })
}

/// The trees text can stand for: what the properties of printing speak about.
fn in_domain(d: &Doc) -> bool {
    d.meta
        .as_deref()
        .is_none_or(|m| !m.starts_with(['\n', '\r']) && !m.ends_with(['\n', '\r']))
        && blocks_in(&d.body)
}

fn inline_pool(c: &mut Chooser) -> Inl {
    let all = NASTY.len();
    let texts = if c.size % 100 > 2 { 12.min(all) } else { all };
    match c.pick(9) {
        0 => Inl::Text(NASTY[c.pick(texts)].into()),
        1 => Inl::Emph("e".into()),
        2 => Inl::Italic("i".into()),
        3 => Inl::Strike("s".into()),
        4 => Inl::Code("c".into()),
        5 => Inl::Bold(t("b")),
        6 => Inl::Bold(vec![Inl::Italic("i".into()), Inl::Strike("s".into())]),
        7 => Inl::Anchor("t".into(), "u".into()),
        _ => Inl::Anchor(String::new(), "(".into()),
    }
}

/// Inline sequences of a given length in every container.
fn gen_inline(c: &mut Chooser) -> Doc {
    let place = c.pick(7);
    let n = c.size % 100;
    let v: Vec<Inl> = (0..n).map(|_| inline_pool(c)).collect();
    let one = |b: Blk| Doc {
        meta: None,
        body: vec![b],
    };
    match place {
        0 => one(Blk::Para(v)),
        1 => one(Blk::List(ul(0, vec![item(v, None), item(t("z"), None)]))),
        2 => one(Blk::List(ul(0, vec![item(v, Some(ul(1, vec![item(t("z"), None)])))]))),
        3 => one(Blk::High(None, None, vec![v, t("z")])),
        4 => one(Blk::High(Some("t".into()), None, vec![t("z"), v])),
        5 => one(Blk::Coll("t".into(), vec![Blk::Para(v)])),
        _ => Doc {
            meta: None,
            body: vec![
                Blk::Head(
                    2,
                    v.iter()
                        .filter(|i| matches!(i, Inl::Text(_) | Inl::Anchor(..)))
                        .cloned()
                        .collect(),
                ),
                Blk::Para(v),
            ],
        },
    }
}

fn block_pool() -> &'static Vec<Blk> {
    static POOL: std::sync::OnceLock<Vec<Blk>> = std::sync::OnceLock::new();
    POOL.get_or_init(|| {
        let mut v = vec![
            Blk::Para(t("a")),
            Blk::Para(t("a\n")),
            Blk::Para(t("\n")),
            Blk::Para(t("- a")),
            Blk::Para(t("%}")),
            Blk::Para(t("!!")),
            Blk::Para(t("---")),
            Blk::Para(t("```")),
            Blk::Para(t("\r\n")),
            Blk::Para(t("\\")),
            Blk::Para(vec![Inl::Bold(t("b\n"))]),
            Blk::Head(1, t("h")),
            Blk::Head(6, t("h\n")),
            Blk::Head(3, vec![]),
            Blk::Head(3, vec![Inl::Anchor("t".into(), "u".into())]),
            Blk::Image("a".into(), "s".into()),
            Blk::Image(String::new(), String::new()),
            Blk::Images(vec![("a".into(), "s".into()), ("b".into(), "t".into())]),
            Blk::Images(vec![("\n".into(), "\n\n".into()), ("]".into(), ")".into())]),
            Blk::Code("rs".into(), "c".into()),
            Blk::Code(String::new(), String::new()),
            Blk::Code(String::new(), "%}".into()),
            Blk::Code("x".into(), "\n\n- a\n!!".into()),
            Blk::List(ul(0, vec![item(t("a"), None)])),
            Blk::List(ListT {
                ordered: true,
                level: 0,
                items: vec![item(t("a"), Some(ul(1, vec![item(t("b"), None)]))), item(t("c"), None)],
            }),
            Blk::List(ul(0, vec![item(vec![], None)])),
            Blk::List(ul(0, vec![item(vec![], Some(ul(1, vec![item(vec![], None)])))])),
            Blk::List(ul(0, vec![item(vec![Inl::Emph("a\n".into())], None)])),
            Blk::High(None, None, vec![]),
            Blk::High(Some("t".into()), Some("i".into()), vec![t("a"), t("b")]),
            Blk::High(Some(String::new()), None, vec![]),
            Blk::High(None, Some(String::new()), vec![t("! a")]),
            Blk::High(None, None, vec![vec![Inl::Italic("x\n".into())]]),
            Blk::Break,
            Blk::Embed("k".into(), "a".into()),
            Blk::Embed(String::new(), "}}\n".into()),
            Blk::Coll("t".into(), vec![]),
            Blk::Coll(String::new(), vec![Blk::Break]),
            Blk::Coll("t".into(), vec![Blk::Para(t("a\n")), Blk::Coll("u".into(), vec![Blk::Para(t("x"))])]),
            Blk::Coll("\n".into(), vec![Blk::List(ul(0, vec![item(t("a"), None)]))]),
        ];
        v.shrink_to_fit();
        v
    })
}

/// Block sequences of a given length, at the top, in a collapsible and split between the two.
fn gen_blocks(c: &mut Chooser) -> Doc {
    let pool = block_pool();
    let n = c.size % 100;
    let place = c.pick(4);
    let v: Vec<Blk> = (0..n).map(|_| pool[c.pick(pool.len())].clone()).collect();
    match place {
        0 => Doc { meta: None, body: v },
        1 => Doc {
            meta: Some("k: v".into()),
            body: v,
        },
        2 => Doc {
            meta: None,
            body: vec![Blk::Coll("t".into(), v)],
        },
        _ => Doc {
            meta: None,
            body: vec![Blk::Coll(
                String::new(),
                vec![Blk::Coll("t".into(), v[..v.len() / 2].to_vec()), v[v.len() - 1].clone()],
            ), v[0].clone()],
        },
    }
}

/// List trees with a given number of items, all shapes and kinds.
fn gen_list(c: &mut Chooser) -> Doc {
    fn list(c: &mut Chooser, left: &mut usize, level: usize, texts: &[&str]) -> ListT {
        let ordered = c.chance();
        let mut items = vec![];
        loop {
            *left -= 1;
            let text = match c.pick(texts.len() + 1) {
                0 => vec![],
                i => t(texts[i - 1]),
            };
            let nested = if *left > 0 && c.chance() {
                Some(list(c, left, level + 1, texts))
            } else {
                None
            };
            items.push(item(text, nested));
            if *left == 0 || !c.chance() {
                break;
            }
        }
        ListT {
            ordered,
            level,
            items,
        }
    }
    let n = c.size % 100;
    let texts: &[&str] = if n <= 3 { &["a", "- a\n + b", " ", "\n"] } else { &["a"] };
    let mut left = n;
    let mut body = vec![];
    while left > 0 {
        body.push(Blk::List(list(c, &mut left, 0, texts)));
    }
    Doc { meta: None, body }
}

/// Trees no text stands for: printing them must still not fail.
fn gen_wild(c: &mut Chooser) -> Doc {
    let texts = ["", "\n", "a", "- ", "\\"];
    let text = |c: &mut Chooser| texts[c.pick(texts.len())].to_owned();
    let inl = |c: &mut Chooser| -> Vec<Inl> {
        match c.pick(8) {
            0 => vec![],
            1 => vec![Inl::Text(text(c))],
            2 => vec![Inl::Text(text(c)), Inl::Text(text(c))],
            3 => vec![Inl::Bold(vec![])],
            4 => vec![Inl::Bold(vec![Inl::Text(text(c))]), Inl::Emph(text(c))],
            5 => vec![Inl::Code(text(c)), Inl::Code(text(c))],
            6 => vec![Inl::Strike(text(c)), Inl::Strike(text(c))],
            _ => vec![Inl::Italic(text(c)), Inl::Anchor(text(c), text(c))],
        }
    };
    let n = c.size % 100;
    let mut body = vec![];
    for _ in 0..n {
        let b = match c.pick(9) {
            0 => Blk::Para(inl(c)),
            1 => Blk::Head([0, 7, 200, 255][c.pick(4)], t(&text(c))),
            2 => Blk::Images(match c.pick(2) {
                0 => vec![],
                _ => vec![(text(c), text(c))],
            }),
            3 => Blk::List(ul([0, 1, 9][c.pick(3)], vec![])),
            4 => Blk::List(ul(
                [0, 2][c.pick(2)],
                vec![item(inl(c), None), item(t("a"), Some(ul([0, 1, 7][c.pick(3)], vec![])))],
            )),
            5 => Blk::High(Some(text(c)), Some(text(c)), vec![inl(c), vec![]]),
            6 => Blk::Coll(text(c), vec![Blk::Para(inl(c)), Blk::Coll(text(c), vec![])]),
            7 => Blk::Code(text(c), text(c)),
            _ => Blk::Embed(text(c), text(c)),
        };
        body.push(b);
    }
    Doc {
        meta: Some(text(c)),
        body,
    }
}

fn gen_tree(c: &mut Chooser) -> Doc {
    match c.size / 100 {
        1 => gen_inline(c),
        2 => gen_blocks(c),
        3 => gen_list(c),
        4 => gen_wild(c),
        n => panic!("no tree program {n}"),
    }
}

fn back_from(d: &Doc, text: &str, what: &str) -> Res {
    let got = tree::doc(&imp::tree(text));
    differ(&format!("{what} printed as {text:?}"), d, &got)
}

/// Nodes other than paragraphs print themselves so that they are read back, too. What a paragraph has to escape at
/// its start is up to what holds it (see `escape_leading_block_marker`), so it is not read back alone.
fn nodes_alone(d: &Doc) -> Res {
    use yamd::nodes::{ParagraphNodes as P, YamdNodes as Y};
    if d.meta.is_some() {
        return Ok(());
    }
    for b in &d.body {
        let one = Doc {
            meta: None,
            body: vec![b.clone()],
        };
        let text = imp::enter(|| match tree::to_block(b) {
            Y::Paragraph(x) => x.to_string(),
            Y::Heading(x) => x.to_string(),
            Y::Image(x) => x.to_string(),
            Y::Images(x) => x.to_string(),
            Y::Code(x) => x.to_string(),
            Y::List(x) => x.to_string(),
            Y::Highlight(x) => x.to_string(),
            Y::ThematicBreak(x) => x.to_string(),
            Y::Embed(x) => x.to_string(),
            Y::Collapsible(x) => x.to_string(),
        });
        if !matches!(b, Blk::Para(_)) {
            back_from(&one, &text, "a block alone")?;
        }
        if let Blk::Para(p) = b {
            if let [i @ (Inl::Bold(_) | Inl::Italic(_) | Inl::Strike(_) | Inl::Code(_) | Inl::Emph(_) | Inl::Anchor(..))] =
                p.as_slice()
            {
                let text = imp::enter(|| {
                    tree::to_inline(std::slice::from_ref(i))
                        .into_iter()
                        .map(|n| match n {
                            P::Text(x) => x,
                            P::Anchor(x) => x.to_string(),
                            P::Bold(x) => x.to_string(),
                            P::Italic(x) => x.to_string(),
                            P::Strikethrough(x) => x.to_string(),
                            P::CodeSpan(x) => x.to_string(),
                            P::Emphasis(x) => x.to_string(),
                        })
                        .collect::<String>()
                });
                back_from(&one, &text, "an inline node alone")?;
            }
        }
    }
    Ok(())
}

/// The tree a case of the tree spaces stands for.
fn tree_of(case: &str) -> Doc {
    if let Some(text) = case.strip_prefix("all:") {
        return everywhere(text);
    }
    if let Some(text) = case.strip_prefix("few:") {
        return hole(11, text).expect("a hole");
    }
    match case.split_once('\u{1}') {
        Some(("many", what)) => {
            let (what, n) = what.split_once(' ').expect("two numbers");
            many(what.parse().expect("a number"), n.parse().expect("a number")).expect("a tree")
        }
        Some((n, text)) => hole(n.parse().expect("a hole"), text).expect("a hole"),
        None => replay(case, gen_tree),
    }
}

/// What marks a case as one of the tree spaces, where cases are documents otherwise.
const TREE: &str = "\u{1}tree\u{1}";

/// Trees for properties that look at other things, too.
fn more_trees(thorough: bool, wild: bool) -> Spaces {
    let mut v: Spaces = vec![];
    let mut size = |p: usize, n: usize| {
        v.push(Box::new(Choices::new(
            ["", "inline trees", "block trees", "list trees", "trees without a text"][p],
            choice_program,
            p * 100 + n,
        )))
    };
    for n in 1..=2 + thorough as usize {
        size(1, n);
        size(2, n);
    }
    for n in 1..=5 + thorough as usize {
        size(3, n);
    }
    if wild {
        size(4, 0);
        size(4, 1);
    }
    for h in 0..HOLES {
        let pre = format!("{h}\u{1}");
        v.push(words_in("one text in a tree", &pre, "", FULL, 2 + thorough as usize));
        v.push(words_in("one text of awkward pieces", &pre, "", NASTY, 1 + thorough as usize));
    }
    v.push(many_nodes());
    v.push(words_in("one text everywhere", "all:", "", FULL, 2 + thorough as usize));
    v.push(words_in("looks everywhere", "all:", "", LOOKS, 1 + thorough as usize));
    if wild {
        v.push(Box::new(Scalars {
            templates: vec!["few:\u{1}"],
        }));
    }
    v.into_iter().map(|s| Box::new(Prefixed(TREE, s)) as Box<dyn Space>).collect()
}

fn scalars_in_trees() -> Box<dyn Space> {
    Box::new(Scalars {
        templates: vec!["all:\u{1}"],
    })
}

fn many_nodes() -> Box<dyn Space> {
    Box::new(Fixed {
        label: "trees with many nodes".into(),
        cases: (0..10 + 2 * block_pool().len())
            .flat_map(|w| {
                [2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 40, 50, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]
                    .iter()
                    .filter(move |n| w != 9 || **n < 130)
                    .map(move |n| format!("many\u{1}{w} {n}"))
            })
            .collect(),
    })
}

fn tree_round_trip(case: &str, st: &mut Stats) -> Res {
    let d = tree_of(case);
    let y = tree::to_doc(&d);
    let text = imp::print(&y);
    let back = imp::tree(&text);
    if !in_domain(&d) {
        // no text stands for this tree: printing and reading are still defined
        let _ = imp::print(&back);
        st.skip();
        return Ok(());
    }
    if back != y || tree::doc(&back) != d {
        return Err(format!(
            "printed as {text:?}\n  tree:      {d:?}\n  read back: {:?}",
            tree::doc(&back)
        ));
    }
    nodes_alone(&d)?;
    saw(st, &d);
    Ok(())
}

fn choice_program(c: &mut Chooser) {
    gen_tree(c);
}

fn tree_spaces(thorough: bool) -> Spaces {
    let mut v: Spaces = vec![];
    let size = |p: usize, n: usize| Box::new(Choices::new(["", "inline trees", "block trees", "list trees", "trees without a text"][p], choice_program, p * 100 + n)) as Box<dyn Space>;
    for n in 1..=3 {
        v.push(size(1, n));
        v.push(size(2, n));
    }
    for n in 1..=if thorough { 7 } else { 6 } {
        v.push(size(3, n));
    }
    for n in 0..=if thorough { 2 } else { 1 } {
        v.push(size(4, n));
    }
    if thorough {
        v.push(size(1, 4));
    }
    for h in 0..HOLES {
        v.push(words_in("one text in a tree", &format!("{h}\u{1}"), "", FULL, if thorough { 4 } else { 3 }));
    }
    for h in 0..HOLES {
        v.push(words_in("one text of awkward pieces", &format!("{h}\u{1}"), "", NASTY, if thorough { 3 } else { 2 }));
    }
    for h in [0, 12, 13, 19, 25, 28, 31, 33] {
        v.push(words_in(
            "one text of few characters",
            &format!("{h}\u{1}"),
            "",
            &["\n", "-", " ", "!", "%}", "\\", "`", "\r"],
            if thorough { 6 } else { 5 },
        ));
    }
    // every character, and long texts
    for h in 0..HOLES {
        let pre = format!("{h}\u{1}");
        v.push(Box::new(Words {
            label: "ASCII in a tree",
            pre,
            suf: String::new(),
            words: (0u8..128).map(|b| (b as char).to_string()).collect(),
            depth: if thorough { 3 } else { 2 },
        }));
    }
    v.push(Box::new(Fixed {
        label: "long texts in a tree".into(),
        cases: (0..HOLES)
            .flat_map(|h| {
                FULL.iter()
                    .map(|w| w.to_string())
                    .chain(FULL.iter().flat_map(|w| [format!("{w}a"), format!("{w}\na"), format!("a{w}\n")]))
                    .chain(NASTY.iter().flat_map(|w| [w.to_string(), format!("{w}\n"), format!("a\n{w}")]))
                    .flat_map(move |w| {
                        [3, 4, 5, 6, 7, 8, 16, 31, 32, 33, 64, 127, 128, 129, 255, 256, 257, 1024]
                            .map(|n| format!("{h}\u{1}{}", w.repeat(n)))
                    })
            })
            .collect(),
    }));
    for h in 0..HOLES {
        v.push(words_in("looks in a tree", &format!("{h}\u{1}"), "", LOOKS, 2));
    }
    v.push(words_in("looks everywhere", "all:", "", LOOKS, 2));
    v.push(many_nodes());
    v.push(words_in("one text everywhere", "all:", "", FULL, if thorough { 4 } else { 3 }));
    v.push(scalars_in_trees());
    v
}
