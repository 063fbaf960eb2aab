// ---- C29: constructors and conversions ------------------------------------------------------------------------

fn keeps<T: PartialEq + std::fmt::Debug>(what: &str, want: T, got: T) -> Res {
    if want == got {
        return Ok(());
    }
    Err(format!("{what}: expected {want:?}, got {got:?}"))
}

fn ps_of(s: &str) -> Vec<yamd::nodes::Paragraph> {
    use yamd::nodes::*;
    vec![Paragraph { body: vec![ParagraphNodes::Text(s.to_string())] }]
}

/// Every constructor with a text in each place, and every conversion: the fields hold what was given.
fn constructors(s: &str, st: &mut Stats) -> Res {
    use yamd::nodes::*;
    let own = || s.to_string();
    let o = || "o".to_string();
    let breaks = ['\r', '\n'];

    imp::enter(|| -> Res {
        // leaves, from borrowed and owned text
        for (a, what) in [(CodeSpan::new(s), "&str"), (CodeSpan::new(own()), "String"), (CodeSpan::from(own()), "From")] {
            keeps(&format!("code span, {what}"), s, a.0.as_str())?;
        }
        for (a, what) in [(Emphasis::new(s), "&str"), (Emphasis::new(own()), "String"), (Emphasis::from(own()), "From")] {
            keeps(&format!("emphasis, {what}"), s, a.0.as_str())?;
        }
        for (a, what) in [(Italic::new(s), "&str"), (Italic::new(own()), "String"), (Italic::from(own()), "From")] {
            keeps(&format!("italic, {what}"), s, a.0.as_str())?;
        }
        for (a, what) in [
            (Strikethrough::new(s), "&str"),
            (Strikethrough::new(own()), "String"),
            (Strikethrough::from(own()), "From"),
        ] {
            keeps(&format!("strikethrough, {what}"), s, a.0.as_str())?;
        }
        // two texts
        for a in [Anchor::new(s, "o"), Anchor::new(own(), o())] {
            keeps("anchor", (s, "o"), (&a.text, &a.url))?;
        }
        let a = Anchor::new("o", s);
        keeps("anchor", ("o", s), (&a.text, &a.url))?;
        for i in [Image::new(s, "o"), Image::new(own(), o())] {
            keeps("image", (s, "o"), (&i.alt, &i.src))?;
        }
        let i = Image::new("o", s);
        keeps("image", ("o", s), (&i.alt, &i.src))?;
        let e = Embed::new(s, o());
        keeps("embed", (s, "o"), (&e.kind, &e.args))?;
        let e = Embed::new(o(), s);
        keeps("embed", ("o", s), (&e.kind, &e.args))?;
        // one of them empty, or both the same
        for (a, b) in [(s, ""), ("", s), (s, s)] {
            let n = Anchor::new(a, b);
            keeps("anchor", (a, b), (&n.text, &n.url))?;
            let n = Image::new(a, b);
            keeps("image", (a, b), (&n.alt, &n.src))?;
            let n = Embed::new(a, b);
            keeps("embed", (a, b), (&n.kind, &n.args))?;
            let n = Code::new(a, b);
            keeps("code", (a, b.trim_end_matches(breaks)), (&n.lang, &n.code))?;
            let n = Highlight::new(Some(a), Some(b), vec![]);
            keeps("highlight", (Some(a), Some(b)), (n.title.as_deref(), n.icon.as_deref()))?;
        }
        let n = Highlight::new(Some(s), None::<&str>, vec![]);
        keeps("highlight", (Some(s), None, 0), (n.title.as_deref(), n.icon.as_deref(), n.body.len()))?;
        let n = Highlight::new(None::<&str>, Some(s), ps_of(s));
        keeps("highlight", (None, Some(s), &ps_of(s)), (n.title.as_deref(), n.icon.as_deref(), &n.body))?;
        let n = Highlight::new(None::<&str>, None::<&str>, ps_of(s));
        keeps("highlight", (None, None, &ps_of(s)), (n.title.as_deref(), n.icon.as_deref(), &n.body))?;
        let n = Collapsible::new(s, vec![YamdNodes::Paragraph(ps_of(s).remove(0))]);
        keeps("collapsible", (s, 1), (&n.title, n.body.len()))?;
        let n = Yamd::new(Some(own()), vec![]);
        keeps("metadata alone", (Some(s.trim_matches(breaks)), 0), (n.metadata.as_deref(), n.body.len()))?;
        // code loses the line breaks at its end, nothing else
        let c = Code::new(s, "o");
        keeps("language", (s, "o"), (&c.lang, &c.code))?;
        for c in [Code::new("o", s), Code::new(o(), own())] {
            keeps("code", ("o", s.trim_end_matches(breaks)), (&c.lang, &c.code))?;
        }
        // containers keep their children in order
        let text = |t: &str| ParagraphNodes::from(t.to_string());
        let kids = vec![
            ParagraphNodes::from(Anchor::new(s, s)),
            ParagraphNodes::from(Bold::new(vec![BoldNodes::from(own())])),
            ParagraphNodes::from(Italic::new(s)),
            ParagraphNodes::from(Strikethrough::new(s)),
            text(s),
            ParagraphNodes::from(CodeSpan::new(s)),
            ParagraphNodes::from(Emphasis::new(s)),
        ];
        let want = vec![
            ParagraphNodes::Anchor(Anchor { text: own(), url: own() }),
            ParagraphNodes::Bold(Bold { body: vec![BoldNodes::Text(own())] }),
            ParagraphNodes::Italic(Italic(own())),
            ParagraphNodes::Strikethrough(Strikethrough(own())),
            ParagraphNodes::Text(own()),
            ParagraphNodes::CodeSpan(CodeSpan(own())),
            ParagraphNodes::Emphasis(Emphasis(own())),
        ];
        keeps("inline nodes", &want, &kids)?;
        for p in [Paragraph::new(kids.clone()), Paragraph::from(kids.clone())] {
            keeps("paragraph", &want, &p.body)?;
        }
        keeps("empty paragraph", vec![], Paragraph::default().body)?;
        let bold = vec![
            BoldNodes::from(Italic::new(s)),
            BoldNodes::from(Strikethrough::new(s)),
            BoldNodes::from(own()),
        ];
        let want_bold = vec![
            BoldNodes::Italic(Italic(own())),
            BoldNodes::Strikethrough(Strikethrough(own())),
            BoldNodes::Text(own()),
        ];
        keeps("bold nodes", &want_bold, &bold)?;
        for b in [Bold::new(bold.clone()), Bold::from(bold.clone())] {
            keeps("bold", &want_bold, &b.body)?;
        }
        keeps("empty bold", vec![], Bold::default().body)?;
        let head = vec![HeadingNodes::from(own()), HeadingNodes::from(Anchor::new(s, "o"))];
        let want_head = vec![
            HeadingNodes::Text(own()),
            HeadingNodes::Anchor(Anchor { text: own(), url: o() }),
        ];
        let level = (s.len() % 256) as u8;
        let h = Heading::new(level, head);
        keeps("heading", (level, &want_head), (h.level, &h.body))?;
        let images = vec![Image::new(s, "o"), Image::new("o", s)];
        keeps("gallery", &images, &Images::new(images.clone()).body)?;
        let ps = vec![Paragraph::new(kids.clone()), Paragraph::new(vec![text("o")])];
        let h = Highlight::new(Some(s), Some("o"), ps.clone());
        keeps("highlight", (Some(s), Some("o"), &ps), (h.title.as_deref(), h.icon.as_deref(), &h.body))?;
        let h = Highlight::new(None::<String>, Some(own()), vec![]);
        keeps("highlight", (None, Some(s), &vec![]), (h.title.as_deref(), h.icon.as_deref(), &h.body))?;
        let h = Highlight::new(Some(own()), None::<&str>, ps.clone());
        keeps("highlight", (Some(s), None, &ps), (h.title.as_deref(), h.icon.as_deref(), &h.body))?;
        let level = s.len();
        let inner = List::new(ListTypes::Ordered, level + 1, vec![ListItem::new(vec![text(s)], None)]);
        keeps("inner list", (ListTypes::Ordered, level + 1, 1), (inner.list_type.clone(), inner.level, inner.body.len()))?;
        let items = vec![ListItem::new(kids.clone(), Some(inner.clone())), ListItem::new(vec![], None)];
        keeps("item", (&want, Some(&inner)), (&items[0].text, items[0].nested_list.as_ref()))?;
        keeps("item", (&vec![], None), (&items[1].text, items[1].nested_list.as_ref()))?;
        // nested lists of no items, and the same child again and again
        for inner in [List::new(ListTypes::Unordered, 0, vec![]), List::new(ListTypes::Ordered, level, vec![items[1].clone(); 2])] {
            let i = ListItem::new(vec![text(s); 2], Some(inner.clone()));
            keeps("item", (&vec![text(s); 2], Some(&inner)), (&i.text, i.nested_list.as_ref()))?;
            let l = List::new(ListTypes::Ordered, 0, vec![i.clone(); 3]);
            keeps("list of equal items", vec![i; 3], l.body)?;
        }
        for n in [2, 3, 5] {
            let two = |a: ParagraphNodes| {
                let v = vec![a; n];
                keeps("paragraph of equal nodes", &v, &Paragraph::new(v.clone()).body)?;
                keeps("paragraph of equal nodes", &v, &Paragraph::from(v.clone()).body)
            };
            for k in &kids {
                two(k.clone())?;
            }
            let v = vec![BoldNodes::from(own()); n];
            keeps("bold of equal nodes", (&v, &v), (&Bold::new(v.clone()).body, &Bold::from(v.clone()).body))?;
            let v = vec![HeadingNodes::from(own()); n];
            keeps("heading of equal nodes", &v, &Heading::new(1, v.clone()).body)?;
            let v = vec![HeadingNodes::from(Anchor::new(s, s)); n];
            keeps("heading of equal nodes", &v, &Heading::new(6, v.clone()).body)?;
            let v = vec![Image::new(s, s); n];
            keeps("gallery of equal images", &v, &Images::new(v.clone()).body)?;
            let v = vec![Paragraph::new(vec![text(s)]); n];
            keeps("highlight of equal paragraphs", &v, &Highlight::new(None::<&str>, None::<&str>, v.clone()).body)?;
            let v = vec![Paragraph::default(); n];
            keeps("highlight of empty paragraphs", &v, &Highlight::new(Some(""), Some(""), v.clone()).body)?;
            let v = vec![YamdNodes::from(Paragraph::new(vec![text(s)])); n];
            keeps("collapsible of equal blocks", &v, &Collapsible::new(s, v.clone()).body)?;
            keeps("document of equal blocks", &v, &Yamd::new(None, v.clone()).body)?;
            let v = vec![YamdNodes::from(Paragraph::default()), YamdNodes::from(ThematicBreak::new()), YamdNodes::from(Images::new(vec![]))];
            keeps("collapsible of empty blocks", &v, &Collapsible::new("", v.clone()).body)?;
            keeps("document of empty blocks", &v, &Yamd::new(None, v.clone()).body)?;
        }
        let h = Highlight::new(Some(""), Some(""), vec![]);
        keeps("empty title and icon", (Some(""), Some("")), (h.title.as_deref(), h.icon.as_deref()))?;
        let l = List::new(ListTypes::Unordered, level, items.clone());
        keeps("list", (ListTypes::Unordered, level, &items), (l.list_type.clone(), l.level, &l.body))?;

        let code = Code { lang: own(), code: o() };
        let body_blocks = vec![
            YamdNodes::from(Paragraph::new(kids.clone())),
            YamdNodes::from(Heading::new(2, vec![HeadingNodes::from(own())])),
            YamdNodes::from(Image::new(s, s)),
            YamdNodes::from(Images::new(images.clone())),
            YamdNodes::from(code.clone()),
            YamdNodes::from(l.clone()),
            YamdNodes::from(h.clone()),
            YamdNodes::from(ThematicBreak::new()),
            YamdNodes::from(Embed::new(s, s)),
            YamdNodes::from(Collapsible::new(s, vec![])),
        ];
        let want_blocks = vec![
            YamdNodes::Paragraph(Paragraph { body: want.clone() }),
            YamdNodes::Heading(Heading { level: 2, body: vec![HeadingNodes::Text(own())] }),
            YamdNodes::Image(Image { alt: own(), src: own() }),
            YamdNodes::Images(Images { body: images }),
            YamdNodes::Code(code),
            YamdNodes::List(l),
            YamdNodes::Highlight(h),
            YamdNodes::ThematicBreak(ThematicBreak::default()),
            YamdNodes::Embed(Embed { kind: own(), args: own() }),
            YamdNodes::Collapsible(Collapsible { title: own(), body: vec![] }),
        ];
        keeps("blocks", &want_blocks, &body_blocks)?;
        let c = Collapsible::new(s, body_blocks.clone());
        keeps("collapsible", (s, &want_blocks), (&c.title, &c.body))?;
        let y = Yamd::new(None, body_blocks.clone());
        keeps("document", (&None, &want_blocks), (&y.metadata, &y.body))?;
        let y = Yamd::new(Some(own()), body_blocks);
        keeps(
            "document with metadata",
            (Some(s.trim_matches(breaks)), &want_blocks),
            (y.metadata.as_deref(), &y.body),
        )?;
        keeps("empty document", (&None, &vec![]), (&Yamd::default().metadata, &Yamd::default().body))?;
        // equality and copies
        keeps("a copy", &y, &y.clone())?;
        let mut z = y.clone();
        for i in 0..z.body.len() {
            z.body.remove(i);
            if y == z {
                return Err(format!("documents with and without block {i} are equal"));
            }
            z = y.clone();
        }
        if s != "o" {
            let same = [
                Anchor::new(s, "o") == Anchor::new("o", "o"),
                Anchor::new("o", s) == Anchor::new("o", "o"),
                Image::new(s, "o") == Image::new("o", "o"),
                Image::new("o", s) == Image::new("o", "o"),
                Embed::new(s, "o") == Embed::new("o", "o"),
                Embed::new("o", s) == Embed::new("o", "o"),
                Code::new(s, "") == Code::new("o", ""),
                CodeSpan::new(s) == CodeSpan::new("o"),
                Emphasis::new(s) == Emphasis::new("o"),
                Italic::new(s) == Italic::new("o"),
                Strikethrough::new(s) == Strikethrough::new("o"),
                text(s) == text("o"),
                Collapsible::new(s, vec![]) == Collapsible::new("o", vec![]),
                Highlight::new(Some(s), Some("o"), vec![]) == Highlight::new(Some("o"), Some("o"), vec![]),
                Highlight::new(Some("o"), Some(s), vec![]) == Highlight::new(Some("o"), Some("o"), vec![]),
            ];
            if let Some(i) = same.iter().position(|e| *e) {
                return Err(format!("nodes that differ are equal ({i})"));
            }
        }
        Ok(())
    })?;

    // contents and events from tokens
    use yamd::lexer::Token;
    let toks = imp::lex(s);
    imp::enter(|| -> Res {
        for i in 0..=toks.len() {
            for j in [i, i + 1, i + 2, toks.len()] {
                let Some(run) = toks.get(i..j) else { continue };
                let want = match run {
                    [] => Content::Span(0..0),
                    _ => Content::Span(run[0].range.start..run[run.len() - 1].range.end),
                };
                keeps("content of a slice", &want, &Content::from(run))?;
                keeps("content of a vector", &want, &Content::from(run.to_vec()))?;
                if let [a] = run {
                    keeps("content of an array", &want, &Content::from(&[a.clone()]))?;
                }
                let op = Op::new_value(run);
                keeps("value", (&OpKind::Value, &want), (&op.kind, &op.content))?;
                let op = Op::new_start(Node::Bold, run);
                keeps("start", (&OpKind::Start(Node::Bold), &want), (&op.kind, &op.content))?;
                let op = Op::new_end(Node::UnorderedList, run);
                keeps("end", (&OpKind::End(Node::UnorderedList), &want), (&op.kind, &op.content))?;
            }
        }
        for t in &toks {
            let n = Token::new(t.kind.clone(), t.range.clone(), t.position.clone());
            keeps("token", (&t.kind, &t.range, &t.position, false), (&n.kind, &n.range, &n.position, n.escaped))?;
            keeps("kind", format!("{:?}", t.kind), t.kind.to_string())?;
        }
        let (m, p) = (Content::Materialized(own()), Content::Span(0..s.len()));
        for c in [&m, &p] {
            keeps("text", s, c.as_str(s))?;
            keeps("owned text", s.to_string(), c.to_string(s))?;
            keeps("emptiness", s.is_empty(), c.is_empty())?;
        }
        for other in ["other", "", "a", s] {
            keeps("text of another source", s, m.as_str(other))?;
            keeps("owned text of another source", s, m.to_string(other).as_str())?;
        }
        let op = Op::new_value(Content::Materialized(own()));
        keeps("value", (&OpKind::Value, &m), (&op.kind, &op.content))
    })?;
    let edge = |c: Option<char>| c.map_or(0, |c| if c == '\n' { 1 } else if c == '\r' { 2 } else { 3 });
    let kinds: Vec<_> = toks.iter().map(|t| (t.kind.clone(), t.escaped)).collect();
    st.case(hash(&(kinds, edge(s.chars().next()), edge(s.chars().last()))), 60);
    Ok(())
}

fn levels_named(_: bool) -> Vec<String> {
    vec!["all heading levels and list levels".into(), "all sequences of children".into(), "equality".into()]
}

/// Every sequence of at most `depth` of the children, handed to the constructor.
fn sequences<T: Clone + PartialEq + std::fmt::Debug>(
    what: &str,
    kids: &[T],
    depth: u32,
    st: &mut Stats,
    make: impl Fn(Vec<T>) -> Vec<T>,
) -> Res {
    for n in 0..=depth {
        for mut i in 0..kids.len().pow(n) {
            let mut v = Vec::new();
            for _ in 0..n {
                v.push(kids[i % kids.len()].clone());
                i /= kids.len();
            }
            keeps(what, &v, &imp::enter(|| make(v.clone())))?;
            st.transitions += 1;
        }
    }
    Ok(())
}

fn sequences_check(st: &mut Stats) -> Res {
    use yamd::nodes::*;
    let text = |t: &str| ParagraphNodes::Text(t.into());
    let inline = vec![
        text("a"),
        text(""),
        text("\n"),
        ParagraphNodes::Bold(Bold { body: vec![BoldNodes::Text("a".into())] }),
        ParagraphNodes::Bold(Bold { body: vec![] }),
        ParagraphNodes::Anchor(Anchor { text: "a".into(), url: "b".into() }),
        ParagraphNodes::Italic(Italic("a".into())),
        ParagraphNodes::Strikethrough(Strikethrough("a".into())),
        ParagraphNodes::CodeSpan(CodeSpan("a".into())),
        ParagraphNodes::Emphasis(Emphasis("a".into())),
    ];
    sequences("paragraph", &inline, 4, st, |v| Paragraph::new(v).body)?;
    sequences("paragraph", &inline, 4, st, |v| Paragraph::from(v).body)?;
    sequences("item", &inline, 4, st, |v| ListItem::new(v, None).text)?;
    let bold = vec![
        BoldNodes::Text("a".into()),
        BoldNodes::Text("".into()),
        BoldNodes::Text("\n".into()),
        BoldNodes::Italic(Italic("a".into())),
        BoldNodes::Strikethrough(Strikethrough("a".into())),
    ];
    sequences("bold", &bold, 6, st, |v| Bold::new(v).body)?;
    sequences("bold", &bold, 6, st, |v| Bold::from(v).body)?;
    let head = vec![
        HeadingNodes::Text("a".into()),
        HeadingNodes::Text("".into()),
        HeadingNodes::Text(" ".into()),
        HeadingNodes::Anchor(Anchor { text: "a".into(), url: "b".into() }),
        HeadingNodes::Anchor(Anchor { text: "".into(), url: "".into() }),
    ];
    for level in [0, 1, 6, 7, 255] {
        sequences("heading", &head, 5, st, |v| Heading::new(level, v).body)?;
    }
    let image = |a: &str, s: &str| Image { alt: a.into(), src: s.into() };
    let images = vec![image("a", "b"), image("", ""), image("b", "a"), image("a", "")];
    sequences("gallery", &images, 6, st, |v| Images::new(v).body)?;
    let inner = List { list_type: ListTypes::Ordered, level: 1, body: vec![] };
    let items = vec![
        ListItem { text: vec![text("a")], nested_list: None },
        ListItem { text: vec![], nested_list: None },
        ListItem { text: vec![text("a")], nested_list: Some(inner.clone()) },
        ListItem { text: vec![], nested_list: Some(inner) },
    ];
    for level in [0, 1, 5] {
        for kind in [ListTypes::Ordered, ListTypes::Unordered] {
            sequences("list", &items, 6, st, |v| List::new(kind.clone(), level, v).body)?;
        }
    }
    let paragraphs: Vec<Paragraph> =
        inline.iter().take(4).map(|n| Paragraph { body: vec![n.clone()] }).chain([Paragraph { body: vec![] }]).collect();
    for (title, icon) in [(None, None), (Some("t"), None), (None, Some("i")), (Some(""), Some(""))] {
        sequences("highlight", &paragraphs, 5, st, |v| Highlight::new(title, icon, v).body)?;
    }
    let code = |c: &str| YamdNodes::Code(Code { lang: "".into(), code: c.into() });
    let of_all_kinds = vec![
        YamdNodes::Paragraph(paragraphs[0].clone()),
        YamdNodes::Paragraph(paragraphs[4].clone()),
        YamdNodes::Heading(Heading { level: 1, body: head[..1].to_vec() }),
        YamdNodes::Image(image("a", "b")),
        YamdNodes::Images(Images { body: images[..2].to_vec() }),
        YamdNodes::Images(Images { body: vec![] }),
        code("a"),
        code(""),
        YamdNodes::List(List { list_type: ListTypes::Unordered, level: 0, body: items[..1].to_vec() }),
        YamdNodes::List(List { list_type: ListTypes::Ordered, level: 0, body: vec![] }),
        YamdNodes::Highlight(Highlight { title: None, icon: None, body: paragraphs[..1].to_vec() }),
        YamdNodes::ThematicBreak(ThematicBreak::new()),
        YamdNodes::Embed(Embed { kind: "a".into(), args: "b".into() }),
        YamdNodes::Collapsible(Collapsible { title: "a".into(), body: vec![] }),
    ];
    sequences("collapsible", &of_all_kinds, 4, st, |v| Collapsible::new("t", v).body)?;
    for meta in [None, Some("m"), Some("")] {
        sequences("document", &of_all_kinds, 4, st, |v| Yamd::new(meta.map(str::to_owned), v).body)?;
    }
    Ok(())
}

/// All pairs of different things are unequal, and each is equal to itself made again.
fn apart<T: PartialEq + std::fmt::Debug>(make: impl Fn() -> Vec<T>, st: &mut Stats) -> Res {
    let (a, b) = (make(), make());
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            if imp::enter(|| x == y) != (i == j) || imp::enter(|| x != y) == (i == j) {
                return Err(format!("equality of {x:?} and {y:?} is wrong"));
            }
        }
    }
    st.transitions += (a.len() * b.len()) as u64;
    st.validated += a.len() as u64;
    Ok(())
}

fn equality(st: &mut Stats) -> Res {
    use yamd::lexer::{Position, Token};
    use yamd::op::{Node, Op, OpKind};
    let contents = || {
        let spans = (0..5).flat_map(|a| (a..5).map(move |b| Content::Span(a..b)));
        let texts = ["", "a", "b", "ab", " a", "a ", "A", "\n", "\r\n", "\\a", "é", "e\u{301}", "0..0"];
        spans.chain(texts.map(|t| Content::Materialized(t.into()))).collect::<Vec<_>>()
    };
    let nodes = || {
        use Node::*;
        vec![
            Anchor, Bold, Code, CodeSpan, Collapsible, Destination, Document, Embed, Emphasis, Heading, Highlight, Icon,
            Image, Images, Italic, ListItem, Modifier, Metadata, OrderedList, Paragraph, Strikethrough, ThematicBreak,
            Title, UnorderedList,
        ]
    };
    let kinds = || {
        let v = nodes().into_iter().map(OpKind::Start);
        v.chain(nodes().into_iter().map(OpKind::End)).chain([OpKind::Value]).collect::<Vec<_>>()
    };
    apart(contents, st)?;
    apart(nodes, st)?;
    apart(kinds, st)?;
    let ops = || {
        let of = |kind| contents().into_iter().map(move |content| (kind, content));
        (0..kinds().len())
            .flat_map(of)
            .map(|(k, content)| Op { kind: kinds().swap_remove(k), content })
            .collect::<Vec<_>>()
    };
    apart(ops, st)?;
    let token_kinds = || {
        use TokenKind::*;
        vec![
            Terminator, Eol, LeftCurlyBrace, RightCurlyBrace, CollapsibleStart, CollapsibleEnd, Tilde, Star, Space, Minus,
            Hash, GreaterThan, Bang, Backtick, Plus, LeftSquareBracket, RightSquareBracket, LeftParenthesis,
            RightParenthesis, Underscore, Pipe, Literal,
        ]
    };
    apart(token_kinds, st)?;
    let positions = || {
        let mut v = vec![];
        for byte_index in [0, 1, 2, usize::MAX] {
            for column in [0, 1, 2, usize::MAX] {
                for row in [0, 1, 2, usize::MAX] {
                    v.push(Position { byte_index, column, row });
                }
            }
        }
        v
    };
    apart(positions, st)?;
    let tokens = || {
        let mut v = vec![];
        for kind in token_kinds() {
            for range in [0..0, 0..1, 1..1, 1..2, 0..2] {
                for position in positions().into_iter().step_by(11) {
                    for escaped in [false, true] {
                        v.push(Token { kind: kind.clone(), range: range.clone(), position: position.clone(), escaped });
                    }
                }
            }
        }
        v
    };
    apart(tokens, st)?;
    // documents are equal exactly if all their parts are
    let mut texts: Vec<String> = FULL.iter().map(|a| a.to_string()).collect();
    texts.extend(FULL.iter().flat_map(|a| FULL.iter().map(move |b| format!("{a}{b}"))));
    texts.extend(BLOCKS.iter().chain(RICH).map(|b| b.to_string()));
    let docs: Vec<_> = texts.iter().map(|s| imp::tree(s)).collect();
    let parts: Vec<_> = docs.iter().map(tree::doc).collect();
    for (x, p) in docs.iter().zip(&parts) {
        for (y, q) in docs.iter().zip(&parts) {
            if imp::enter(|| x == y) != (p == q) {
                return Err(format!("equality of {x:?} and {y:?} is wrong"));
            }
        }
        st.state(hash(p));
    }
    st.transitions += (docs.len() * docs.len()) as u64;
    st.validated += docs.len() as u64;
    Ok(())
}

fn levels_check(case: &str, st: &mut Stats) -> Res {
    use yamd::nodes::*;
    if case.contains("sequences") {
        return sequences_check(st);
    }
    if case == "equality" {
        return equality(st);
    }
    for level in 0..=255u8 {
        let h = imp::enter(|| Heading::new(level, vec![]));
        keeps("heading level", (level, 0), (h.level, h.body.len()))?;
        for other in 0..level {
            if imp::enter(|| Heading::new(other, vec![]) == h) {
                return Err(format!("headings of levels {other} and {level} are equal"));
            }
        }
        st.state(level as u64);
    }
    for level in (0..1000).chain([usize::MAX]) {
        for kind in [ListTypes::Unordered, ListTypes::Ordered] {
            let l = imp::enter(|| List::new(kind.clone(), level, vec![]));
            keeps("list", (&kind, level, 0), (&l.list_type, l.level, l.body.len()))?;
        }
        st.state(1000u64.wrapping_add(level as u64));
        st.transitions += 2;
    }
    // many children
    for n in (0..140).chain([255, 256, 257, 1000, 1025, 5000]) {
        let num = |i: usize| ParagraphNodes::Text(i.to_string());
        let kids: Vec<_> = (0..n).map(num).collect();
        let p = imp::enter(|| Paragraph::new(kids.clone()));
        keeps("paragraph", &kids, &p.body)?;
        let b: Vec<_> = (0..n).map(|i| BoldNodes::Text(i.to_string())).collect();
        keeps("bold", &b, &imp::enter(|| Bold::new(b.clone())).body)?;
        let h: Vec<_> = (0..n).map(|i| HeadingNodes::Text(i.to_string())).collect();
        keeps("heading", &h, &imp::enter(|| Heading::new(1, h.clone())).body)?;
        let i: Vec<_> = (0..n).map(|i| Image { alt: i.to_string(), src: String::new() }).collect();
        keeps("gallery", &i, &imp::enter(|| Images::new(i.clone())).body)?;
        let l: Vec<_> = (0..n).map(|i| ListItem { text: vec![num(i)], nested_list: None }).collect();
        keeps("list", &l, &imp::enter(|| List::new(ListTypes::Ordered, 3, l.clone())).body)?;
        let i = imp::enter(|| ListItem::new(kids.clone(), None));
        keeps("item", &kids, &i.text)?;
        let ps: Vec<_> = (0..n).map(|i| Paragraph { body: vec![num(i)] }).collect();
        keeps("highlight", &ps, &imp::enter(|| Highlight::new(None::<&str>, None::<&str>, ps.clone())).body)?;
        let bs: Vec<_> = ps.into_iter().map(YamdNodes::Paragraph).collect();
        keeps("collapsible", &bs, &imp::enter(|| Collapsible::new("", bs.clone())).body)?;
        keeps("document", &bs, &imp::enter(|| Yamd::new(None, bs.clone())).body)?;
        st.transitions += 9 * n as u64;
    }
    let (u, o) = (ListTypes::Unordered, ListTypes::Ordered);
    if imp::enter(|| List::new(u, 0, vec![]) == List::new(o, 0, vec![])) {
        return Err("lists of different kinds are equal".into());
    }
    Ok(())
}

fn build_spaces(t: bool) -> Spaces {
    let mut v = full(if t { 4 } else { 3 });
    v.push(words("line breaks", &["\n", "\r", "a", " ", "\u{b}", "\u{85}", "\u{2028}"], if t { 8 } else { 6 }));
    v.extend(ascii(2));
    v.push(words("looks", LOOKS, 2));
    v.push(Box::new(Scalars {
        templates: vec!["\u{1}", "\u{1}a\u{1}"],
    }));
    v
}
