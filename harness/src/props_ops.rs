// ---- C09: hand-made streams ------------------------------------------------------------------------------

use yamd::op::{Node, Op, OpKind};

fn op_of(kind: OpKind) -> Op {
    let text = match &kind {
        OpKind::Start(Node::Heading) => "## ",
        OpKind::Value => "v",
        _ => "",
    };
    Op {
        kind,
        content: Content::Materialized(text.to_owned()),
    }
}

/// Nodes that hold one another in every way `to_yamd` tells apart.
const FEW: &[fn() -> Node] = &[
    || Node::Document,
    || Node::Paragraph,
    || Node::Collapsible,
    || Node::UnorderedList,
    || Node::ListItem,
    || Node::Heading,
    || Node::Bold,
];

/// Sequences of operations: all kinds up to a length, or few kinds up to a greater one.
fn gen_stream(c: &mut Chooser) -> Vec<Op> {
    let n = c.size % 100;
    let (nodes, wrap) = match c.size / 100 {
        4 => return gen_placed(c),
        1 => (events::NODES, false),
        2 => (FEW, false),
        3 => (events::NODES, true),
        x => panic!("no stream program {x}"),
    };
    let mut v = vec![];
    if wrap {
        v.push(op_of(OpKind::Start(Node::Document)));
    }
    for _ in 0..n {
        let i = c.pick(2 * nodes.len() + 1);
        v.push(op_of(if i == 0 {
            OpKind::Value
        } else if i <= nodes.len() {
            OpKind::Start(nodes[i - 1]())
        } else {
            OpKind::End(nodes[i - 1 - nodes.len()]())
        }));
    }
    if wrap {
        v.push(op_of(OpKind::End(Node::Document)));
    }
    v
}

fn stream_program(c: &mut Chooser) {
    gen_stream(c);
}

fn copy(o: &Op) -> Op {
    let node = |n: &Node| {
        events::NODES
            .iter()
            .map(|f| f())
            .find(|m| m == n)
            .expect("a listed node")
    };
    Op {
        kind: match &o.kind {
            OpKind::Start(n) => OpKind::Start(node(n)),
            OpKind::End(n) => OpKind::End(node(n)),
            OpKind::Value => OpKind::Value,
        },
        content: match &o.content {
            Content::Span(r) => Content::Span(r.clone()),
            Content::Materialized(s) => Content::Materialized(s.clone()),
        },
    }
}

/// A stream of the parser with one thing wrong: `what` at operation `at`.
fn mutate(ops: Vec<Op>, what: usize, at: usize) -> Option<Vec<Op>> {
    let mut v = ops;
    if at >= v.len() {
        return None;
    }
    let kinds = events::NODES.len();
    match what {
        0 => {
            v.remove(at);
        }
        1 => {
            let o = copy(&v[at]);
            v.insert(at, o);
        }
        2 => {
            if at + 1 >= v.len() {
                return None;
            }
            v.swap(at, at + 1);
        }
        3 => v.truncate(at),
        4 => {
            v.drain(..at);
        }
        5 => v.insert(at, op_of(OpKind::Value)),
        6 => {
            let (s, e) = (copy(&v[at]), copy(&v[v.len() - 1 - at]));
            let n = v.len();
            v[n - 1 - at] = s;
            v[at] = e;
        }
        w if w < 7 + kinds => v.insert(at, op_of(OpKind::Start(events::NODES[w - 7]()))),
        w if w < 7 + 2 * kinds => v.insert(at, op_of(OpKind::End(events::NODES[w - 7 - kinds]()))),
        w if w < 7 + 3 * kinds => {
            let n = events::NODES[w - 7 - 2 * kinds]();
            v[at].kind = match v[at].kind {
                OpKind::Start(_) => OpKind::Start(n),
                OpKind::End(_) => OpKind::End(n),
                OpKind::Value => return None,
            };
        }
        _ => return None,
    }
    Some(v)
}

/// Whether every node stands where it may and holds what it may, whatever the marker texts.
mod places {
    use super::*;
    use crate::events::{Ev, Kid};

    fn only_values(e: &Ev) -> bool {
        e.kids.iter().all(|k| matches!(k, Kid::Val(_)))
    }
    fn all(e: &Ev, f: &dyn Fn(&Ev) -> bool) -> bool {
        e.kids.iter().all(|k| match k {
            Kid::Val(_) => true,
            Kid::Node(n) => f(n),
        })
    }
    fn link(e: &Ev) -> bool {
        match e.kids.as_slice() {
            [Kid::Node(t), Kid::Node(d)] => {
                *t.node == Node::Title && *d.node == Node::Destination && only_values(t) && only_values(d)
            }
            _ => false,
        }
    }
    fn leaf(e: &Ev) -> bool {
        matches!(e.node, Node::Italic | Node::Strikethrough | Node::CodeSpan | Node::Emphasis) && only_values(e)
    }
    fn inline(e: &Ev) -> bool {
        match e.node {
            Node::Anchor => link(e),
            Node::Bold => all(e, &|k| matches!(k.node, Node::Italic | Node::Strikethrough) && only_values(k)),
            _ => leaf(e),
        }
    }
    fn paragraph(e: &Ev) -> bool {
        *e.node == Node::Paragraph && all(e, &inline)
    }
    fn list(e: &Ev) -> bool {
        matches!(e.node, Node::OrderedList | Node::UnorderedList)
            && e.kids.iter().all(|k| match k {
                Kid::Node(i) if *i.node == Node::ListItem => match i.kids.as_slice() {
                    [] => true,
                    [Kid::Node(a)] => paragraph(a) || list(a),
                    [Kid::Node(a), Kid::Node(b)] => paragraph(a) && list(b),
                    _ => false,
                },
                _ => false,
            })
    }
    fn block(r: &Reader, e: &Ev) -> bool {
        match e.node {
            Node::Paragraph => paragraph(e),
            Node::Heading => {
                let start = r.text(e.start);
                let hashes = start.strip_suffix(' ').unwrap_or("");
                (1..=6).contains(&hashes.len())
                    && hashes.chars().all(|c| c == '#')
                    && all(e, &|k| *k.node == Node::Anchor && link(k))
            }
            Node::Image => link(e),
            Node::Images => e.kids.iter().all(|k| matches!(k, Kid::Node(i) if *i.node == Node::Image && link(i))),
            Node::ThematicBreak => only_values(e),
            Node::Embed => e.kids.len() == 3 && only_values(e),
            Node::OrderedList | Node::UnorderedList => list(e),
            Node::Code | Node::Highlight | Node::Collapsible => {
                let mut kids = e.kids.as_slice();
                if let [Kid::Node(m), rest @ ..] = kids {
                    if *m.node == Node::Modifier {
                        if !only_values(m) {
                            return false;
                        }
                        kids = rest;
                    }
                }
                match e.node {
                    Node::Code => kids.iter().all(|k| matches!(k, Kid::Val(_))),
                    Node::Collapsible => matches!(kids, [Kid::Node(d)] if document(r, d)),
                    _ => {
                        if let [Kid::Node(i), rest @ ..] = kids {
                            if *i.node == Node::Icon {
                                if !only_values(i) {
                                    return false;
                                }
                                kids = rest;
                            }
                        }
                        kids.iter().all(|k| match k {
                            Kid::Val(_) => true,
                            Kid::Node(p) => paragraph(p),
                        })
                    }
                }
            }
            _ => false,
        }
    }
    fn document(r: &Reader, e: &Ev) -> bool {
        *e.node == Node::Document && all(e, &|k| block(r, k))
    }
    pub fn stream(r: &Reader, top: &[Kid]) -> bool {
        match top {
            [Kid::Node(m), Kid::Node(d)] => *m.node == Node::Metadata && only_values(m) && document(r, d),
            [Kid::Node(d)] => document(r, d),
            _ => false,
        }
    }
}

/// Streams with every node in its place: all with a number of nodes and values.
fn gen_placed(c: &mut Chooser) -> Vec<Op> {
    struct G<'a> {
        c: &'a mut Chooser,
        left: usize,
        v: Vec<Op>,
    }
    impl G<'_> {
        fn more(&mut self) -> bool {
            let m = self.left > 0 && self.c.chance();
            self.left -= m as usize;
            m
        }
        fn value(&mut self) {
            let t = ["v", "", "w\r\n", "\n"][self.c.pick(4)];
            self.v.push(Op { kind: OpKind::Value, content: Content::Materialized(t.into()) });
        }
        fn within(&mut self, n: fn() -> Node, f: impl FnOnce(&mut Self)) {
            self.v.push(op_of(OpKind::Start(n())));
            f(self);
            self.v.push(op_of(OpKind::End(n())));
        }
        fn values(&mut self) {
            while self.more() {
                self.value();
            }
        }
        fn link(&mut self) {
            self.within(|| Node::Title, Self::values);
            self.within(|| Node::Destination, Self::values);
        }
        fn inline(&mut self) {
            while self.more() {
                match self.c.pick(7) {
                    0 => self.value(),
                    1 => self.within(|| Node::Italic, Self::values),
                    2 => self.within(|| Node::Strikethrough, Self::values),
                    3 => self.within(|| Node::CodeSpan, Self::values),
                    4 => self.within(|| Node::Emphasis, Self::values),
                    5 => self.within(|| Node::Anchor, Self::link),
                    _ => self.within(|| Node::Bold, |g| {
                        while g.more() {
                            match g.c.pick(3) {
                                0 => g.value(),
                                1 => g.within(|| Node::Italic, Self::values),
                                _ => g.within(|| Node::Strikethrough, Self::values),
                            }
                        }
                    }),
                }
            }
        }
        fn list(&mut self) {
            let n: fn() -> Node = [|| Node::OrderedList, || Node::UnorderedList][self.c.pick(2)];
            self.within(n, |g| {
                while g.more() {
                    g.within(|| Node::ListItem, |g| {
                        if g.more() {
                            g.within(|| Node::Paragraph, Self::inline);
                        }
                        if g.more() {
                            g.list();
                        }
                    });
                }
            });
        }
        fn modifier(&mut self) {
            if self.more() {
                self.within(|| Node::Modifier, Self::values);
            }
        }
        fn blocks(&mut self) {
            while self.more() {
                match self.c.pick(11) {
                    0 => self.within(|| Node::Paragraph, Self::inline),
                    1 => self.value(),
                    2 => self.within(|| Node::Heading, |g| {
                        while g.more() {
                            match g.c.pick(2) {
                                0 => g.value(),
                                _ => g.within(|| Node::Anchor, Self::link),
                            }
                        }
                    }),
                    3 => self.within(|| Node::Image, Self::link),
                    4 => self.within(|| Node::Images, |g| {
                        while g.more() {
                            g.within(|| Node::Image, Self::link);
                        }
                    }),
                    5 => self.within(|| Node::ThematicBreak, Self::values),
                    6 => self.within(|| Node::Embed, |g| {
                        g.v.push(op_of(OpKind::Value));
                        g.v.push(Op { kind: OpKind::Value, content: Content::Materialized("|".into()) });
                        g.value();
                    }),
                    7 => self.list(),
                    8 => self.within(|| Node::Code, |g| {
                        g.modifier();
                        g.values();
                    }),
                    9 => self.within(|| Node::Collapsible, |g| {
                        g.modifier();
                        g.within(|| Node::Document, Self::blocks);
                    }),
                    _ => self.within(|| Node::Highlight, |g| {
                        g.modifier();
                        if g.more() {
                            g.within(|| Node::Icon, Self::values);
                        }
                        while g.more() {
                            match g.c.pick(2) {
                                0 => g.value(),
                                _ => g.within(|| Node::Paragraph, Self::inline),
                            }
                        }
                    }),
                }
            }
        }
    }
    let left = c.size % 100;
    let mut g = G { c, left, v: vec![] };
    if g.more() {
        g.within(|| Node::Metadata, G::values);
    }
    g.within(|| Node::Document, G::blocks);
    g.v
}

/// What can repeat in a stream: `n` times the first part, something, `n` times the second one.
const REPEATS: &[(&str, &[fn() -> OpKind], &[fn() -> OpKind])] = {
    use Node::*;
    use OpKind::*;
    &[
        ("documents", &[|| Start(Collapsible), || Start(Document)], &[|| End(Document), || End(Collapsible)]),
        ("lists", &[|| Start(OrderedList), || Start(ListItem)], &[|| End(ListItem), || End(OrderedList)]),
        (
            "items",
            &[|| Start(UnorderedList), || Start(ListItem), || Start(Paragraph), || Value, || End(Paragraph)],
            &[|| End(ListItem), || End(UnorderedList)],
        ),
        ("bold", &[|| Start(Bold)], &[|| End(Bold)]),
        ("titles", &[|| Start(Title)], &[|| End(Title)]),
        ("paragraphs", &[|| Start(Paragraph), || Value, || End(Paragraph)], &[]),
        ("headings", &[|| Start(Heading), || Value, || End(Heading)], &[]),
        ("values", &[|| Value], &[]),
        ("italics", &[|| Start(Italic), || Value, || End(Italic)], &[]),
        ("breaks", &[|| Start(ThematicBreak), || Value, || End(ThematicBreak)], &[]),
        ("emptydocuments", &[|| Start(Document), || End(Document)], &[]),
        ("starts", &[|| Start(Heading)], &[]),
        ("ends", &[], &[|| End(Image)]),
    ]
};

/// A long or deep stream; `wrong` leaves out an end, adds one, or exchanges two.
fn long_stream(kind: &str, n: usize, wrong: usize) -> Vec<Op> {
    let (_, open, close) = REPEATS.iter().find(|r| r.0 == kind).expect("a kind of stream");
    let mut v = vec![op_of(OpKind::Start(Node::Document))];
    for part in [open, close] {
        for _ in 0..n {
            v.extend(part.iter().map(|f| op_of(f())));
        }
    }
    v.push(op_of(OpKind::End(Node::Document)));
    let last = v.len() - 1;
    match wrong {
        0 => {}
        1 => {
            v.pop();
        }
        2 => v.push(op_of(OpKind::End(Node::Document))),
        3 => v.swap(last, last - 1),
        4 => {
            v.remove(last / 2);
        }
        5 => v.push(op_of(OpKind::Start(Node::Paragraph))),
        6 => {
            v.remove(0);
        }
        _ => v.insert(last / 2, op_of(OpKind::End(Node::Code))),
    }
    v
}

fn streams(case: &str, st: &mut Stats) -> Res {
    // "doc#what#at" or a choice case
    let parts: Vec<&str> = case.split('#').collect();
    let (ops, src) = if let [doc, what, at] = parts.as_slice() {
        let n: usize = doc.parse().expect("a document");
        let src = RICH.iter().chain(BLOCKS).nth(n).expect("a document");
        let ops = imp::ops(src);
        match mutate(ops, what.parse().expect("a mutation"), at.parse().expect("a place")) {
            Some(v) => (v, *src),
            None => {
                st.skip();
                return Ok(());
            }
        }
    } else if let [kind, n, end] = case.split(' ').collect::<Vec<_>>()[..] {
        (long_stream(kind, n.parse().expect("a number"), end.parse().expect("a number")), "")
    } else {
        (replay(case, gen_stream), "")
    };
    let nested = events::nest(&ops);
    let got = imp::try_fold(&ops, src);
    match (&nested, &got) {
        (Ok(_), Ok(_)) | (Err(_), Err(_)) => {}
        (Ok(_), Err(e)) => return Err(format!("a balanced stream is rejected ({e}): {ops:?}")),
        (Err(e), Ok(_)) => return Err(format!("accepted although {e}: {ops:?}")),
    }
    let total = imp::catch_impl(|| yamd::to_yamd(&ops, src));
    match (&got, &total) {
        (Ok(a), Some(b)) if a == b => {}
        (Err(_), None) => {}
        _ => return Err(format!("try_to_yamd gives {got:?}, to_yamd gives {total:?}: {ops:?}")),
    }
    if let (Ok(top), Ok(y)) = (&nested, &got) {
        let r = Reader { src };
        let want = r.doc(top);
        if places::stream(&r, top) {
            differ("tree of a stream with every node in its place", &want, &tree::doc(y))?;
            st.count("grammatical");
        }
        st.count("balanced");
    } else {
        st.count("unbalanced");
    }
    st.case(events::shape(&ops), ops.len());
    Ok(())
}

fn stream_spaces(thorough: bool) -> Spaces {
    let mut v: Spaces = vec![];
    for n in 0..=4 {
        v.push(Box::new(Choices::new("operations of all kinds", stream_program, 100 + n)));
    }
    for n in 4..=if thorough { 7 } else { 6 } {
        v.push(Box::new(Choices::new("operations of few kinds", stream_program, 200 + n)));
    }
    for n in 1..=4 {
        v.push(Box::new(Choices::new("operations inside a document", stream_program, 300 + n)));
    }
    let mut cases = vec![];
    for (i, d) in RICH.iter().chain(BLOCKS).enumerate() {
        let n = yamd::parse(d).len();
        for what in 0..7 + 3 * events::NODES.len() {
            for at in 0..n {
                cases.push(format!("{i}#{what}#{at}"));
            }
        }
    }
    v.push(Box::new(Fixed {
        label: "streams of the parser with one fault".into(),
        cases,
    }));
    v.push(Box::new(Fixed {
        label: "long and deep streams".into(),
        cases: REPEATS
            .iter()
            .flat_map(|r| {
                (1..=70).chain([99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 400, 511, 512, 513, 1000, 1025]).flat_map(
                    move |n| (0..8).map(move |w| format!("{} {n} {w}", r.0)),
                )
            })
            .collect(),
    }));
    let n = if thorough { 6 } else { 5 };
    v.push(Box::new(Choices::new("operations in their places", stream_program, 400 + n)));
    v
}

// ---- C20: purity -------------------------------------------------------------------------------------------

const PURE: &[&str] = &[
    "",
    "a",
    "**a _b_** [c](d)",
    "- a\n - b\n  - c",
    "```rs\nx\n```",
    "{% t\n!! u\nx\n!!\n%}",
    "**a _b `c ~~d [e](f",
    "{% t\n{% u\n```\nx",
    "---\nm\n---\n\n# h",
    "\\*a\\\\\r\n\r\né",
    "- a\n+ b\n- c",
    "!! t\na",
    " \u{feff}a \r\n\r\n",
    "\n\n- a \n \n\t\u{a0}\n",
    // as long as others, with the same beginnings and ends, and as many tokens
    "*b*",
    "~~*",
    "**a _b `c ~~d [e](f)",
    "**a _c `c ~~d [e](f",
    "- a\n+ b\n+ c",
    "\\*a\\\\\r\n\r\nü",
    "b",
];

/// Documents a little longer than anything a scratch buffer is likely to be made for.
fn pure_doc(i: usize) -> &'static str {
    static LONG: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    match PURE.get(i) {
        Some(s) => s,
        None => {
            let long = LONG.get_or_init(|| {
                vec![
                    RICH.join("\n\n"),
                    "a *b* \\* c\n".repeat(300),
                    format!("{}x\n{}", "{% t\n".repeat(30), "%}\n".repeat(30)),
                    (0..60).map(|i| format!("{}- {i}\n", " ".repeat(i))).collect(),
                    "[a](((b **c\n\n!! t\n".repeat(40),
                ]
            });
            &long[i - PURE.len()]
        }
    }
}

const PURE_DOCS: usize = PURE.len() + 5;
/// Calls with an answer; one more abandons a lexer half way.
const ACTIONS: usize = 7;

/// What a fresh process answers to its first call.
pub fn pure_baseline(i: usize) -> u64 {
    act(pure_doc(i / ACTIONS), i % ACTIONS)
}

/// Every call reads its document from the same memory, as a program would that reuses a buffer.
fn act(s: &str, action: usize) -> u64 {
    thread_local! {
        static BUFFER: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    }
    BUFFER.with(|b| {
        let mut b = b.borrow_mut();
        b.clear();
        b.reserve(64);
        b.push_str(s);
        act_on(&b, action)
    })
}

fn act_on(s: &str, action: usize) -> u64 {
    match action {
        0 => hash(&format!("{:?}", imp::lex(s))),
        1 => hash(&format!("{:?}", imp::ops(s))),
        2 => hash(&format!("{:?}", imp::tree(s))),
        3 => hash(&imp::print(&imp::tree(s))),
        4 => hash(&format!("{:?}", imp::try_fold(&imp::ops(s), s).ok())),
        5 => {
            let json = imp::enter(|| serde_json::to_string(&yamd::deserialize(s))).expect("documents have a JSON form");
            hash(&(imp::enter(|| serde_json::from_str::<yamd::Yamd>(&json)).is_ok(), json))
        }
        _ => {
            // a call that fails, and one that panics
            let mut ops = imp::ops(s);
            ops.truncate(ops.len() / 2 + 1);
            let failed = imp::try_fold(&ops, s).is_err();
            hash(&(failed, imp::catch_impl(|| yamd::to_yamd(&ops, s)).is_none()))
        }
    }
}

fn baselines() -> &'static Vec<[u64; ACTIONS]> {
    static B: std::sync::OnceLock<Vec<[u64; ACTIONS]>> = std::sync::OnceLock::new();
    B.get_or_init(|| {
        let one = |i: usize| -> u64 {
            let out = std::process::Command::new(std::env::current_exe().expect("own path"))
                .args(["baseline", &i.to_string()])
                .output()
                .expect("a child process");
            String::from_utf8_lossy(&out.stdout).trim().parse().unwrap_or(0)
        };
        (0..PURE_DOCS).map(|d| std::array::from_fn(|a| one(d * ACTIONS + a))).collect()
    })
}

/// A history of calls, each of which must answer like the first call of a process: (document, action) pairs.
fn gen_history(c: &mut Chooser) -> Vec<(usize, usize)> {
    let (docs, actions): (Vec<usize>, &[usize]) = match c.size % 100 {
        0..=2 => ((0..PURE_DOCS).collect(), &[0, 1, 2, 3, 4, 5, 6, 7]),
        3 => (vec![1, 2, 5, 6, 8, 9, 12, 14, 15, 16, 17, 20], &[1, 2, 3, 6, 7]),
        4 => ((PURE.len() - 7..PURE.len()).collect(), &[2, 3, 7]),
        5 => (vec![6, 16, 17, 8], &[2, 7]),
        _ => (vec![16, 17], &[2, 7]),
    };
    (0..c.size % 100).map(|_| (docs[c.pick(docs.len())], actions[c.pick(actions.len())])).collect()
}

/// Two lexers advanced in every order.
fn gen_interleaving(c: &mut Chooser) -> (usize, usize, Vec<bool>) {
    let small = [1, 2, 3, 9];
    let (a, b) = (small[c.pick(4)], small[c.pick(4)]);
    let (mut na, mut nb) = (lm::lex(PURE[a]).len().min(5) + 1, lm::lex(PURE[b]).len().min(5) + 1);
    let mut v = vec![];
    while na > 0 || nb > 0 {
        let first = if na == 0 {
            false
        } else if nb == 0 {
            true
        } else {
            c.pick(2) == 0
        };
        if first {
            na -= 1
        } else {
            nb -= 1
        }
        v.push(first);
    }
    (a, b, v)
}

fn pure_program(c: &mut Chooser) {
    match c.size / 100 {
        1 => {
            gen_history(c);
        }
        _ => {
            gen_interleaving(c);
        }
    }
}

fn purity(case: &str, st: &mut Stats) -> Res {
    let kind = case.split(':').next().and_then(|s| s.parse::<usize>().ok()).expect("a size") / 100;
    if kind == 1 {
        let h = replay(case, gen_history);
        let base = baselines();
        for (n, &(d, a)) in h.iter().enumerate() {
            if a == ACTIONS {
                // a lexer abandoned half way
                let mut l = Lexer::new(pure_doc(d));
                imp::enter(|| (l.next(), l.next()));
                continue;
            }
            if act(pure_doc(d), a) != base[d][a] {
                return Err(format!(
                    "call {n} of the history {h:?} on {:?} does not answer like in a fresh process",
                    pure_doc(d)
                ));
            }
        }
        st.case(hash(&h), h.len());
        return Ok(());
    }
    let (a, b, order) = replay(case, gen_interleaving);
    let (mut la, mut lb) = (Lexer::new(PURE[a]), Lexer::new(PURE[b]));
    let (ta, tb) = (imp::lex(PURE[a]), imp::lex(PURE[b]));
    let (mut ia, mut ib) = (0, 0);
    for &first in &order {
        let (l, t, i) = if first { (&mut la, &ta, &mut ia) } else { (&mut lb, &tb, &mut ib) };
        let got = imp::enter(|| l.next());
        if got.as_ref() != t.get(*i) {
            return Err(format!("token {i} of {:?} is {got:?} when interleaved", PURE[if first { a } else { b }]));
        }
        *i += 1;
    }
    st.case(hash(&(a, b, &order)), order.len());
    Ok(())
}

/// Documents and calls of the controlled scheduler (`sched/`).
const SCHED_DOCS: usize = 12;
const SCHED_ACTIONS: usize = 6;

fn threads_named(thorough: bool) -> Vec<String> {
    let mut v: Vec<String> = std::iter::once("threads".to_owned())
        .chain((0..PURE.len()).map(|d| format!("many {d}")))
        .collect();
    let mut sched = |mode: &str, a: (usize, usize), b: (usize, usize), rest: &str| {
        v.push(format!("sched {mode} {} {} {} {} {rest}", a.0, a.1, b.0, b.1));
    };
    for a in 0..SCHED_DOCS {
        for b in 0..SCHED_DOCS {
            // one preemption, at every block, load and store
            if thorough {
                for (x, y) in [(4, 5), (5, 4), (3, 3), (0, 1), (1, 0), (2, 2)] {
                    sched("one", (a, x), (b, y), "1 0");
                }
                sched("two", (a, 2), (b, 3), "150");
            } else {
                sched("one", (a, 4), (b, 5), "1 0");
            }
        }
        // two preemptions, at block starts
        for action in 0..if thorough { SCHED_ACTIONS } else { 3 } {
            let b = (a + 1 + action) % SCHED_DOCS;
            sched("two", (a, action), (b, action), if thorough { "350" } else { "200" });
        }
        // the first calls of a process
        let b = (a + 5) % SCHED_DOCS;
        for action in if thorough { 0..SCHED_ACTIONS } else { 3..4 } {
            sched("fresh", (a, action), (b, action), if thorough { "0 1" } else { "0 3" });
        }
    }
    v
}

/// All schedules of two calls in two threads with one or two preemptions, counted; see `sched/`.
fn schedules(args: &str, st: &mut Stats) -> Res {
    let bin = std::env::var("YAMD_SCHED_BIN").expect("YAMD_SCHED_BIN names the built scheduler");
    let out = std::process::Command::new(bin)
        .args(args.split(' '))
        .output()
        .expect("the scheduler runs");
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    if !out.status.success() {
        return Err(format!("{:?}: {text}{}", out.status, String::from_utf8_lossy(&out.stderr)));
    }
    let numbers: Vec<u64> = text.split(' ').filter_map(|w| w.trim().parse().ok()).collect();
    let [n, a, b, ..] = numbers[..] else { panic!("the scheduler says {text:?}") };
    st.validated += n;
    st.transitions += n * (a + b);
    if text.starts_with("cut") {
        *st.outcomes.entry("pairs of calls cut short because they wait for locks").or_default() += 1;
    }
    Ok(())
}

/// Threads: every schedule with few preemptions, and free-running ones.
fn threads_check(name: &str, st: &mut Stats) -> Res {
    if let Some(args) = name.strip_prefix("sched ") {
        return schedules(args, st);
    }
    let base = baselines();
    if let Some(d) = name.strip_prefix("many ") {
        // the same call so often that a narrow counter or a full table would show
        let d: usize = d.parse().expect("a number");
        for n in 0..70_000 {
            let a = if n % 64 == 0 { n / 64 % ACTIONS } else { 2 };
            if act(PURE[d], a) != base[d][a] {
                return Err(format!("after {n} calls {:?} does not read like in a fresh process", PURE[d]));
            }
        }
        st.validated += 70_000;
        st.transitions += 70_000;
        return Ok(());
    }
    let bad = std::sync::Mutex::new(None);
    std::thread::scope(|sc| {
        for t in 0..8 {
            let bad = &bad;
            sc.spawn(move || {
                for round in 0..300 {
                    let d = (t * 5 + round) % PURE_DOCS;
                    for (a, want) in base[d].iter().enumerate() {
                        if act(pure_doc(d), a) != *want {
                            bad.lock().unwrap().get_or_insert(format!(
                                "call {a} on {:?} answers differently while other threads run",
                                pure_doc(d)
                            ));
                        }
                    }
                }
            });
        }
    });
    st.validated += 8 * 300 * ACTIONS as u64;
    match bad.into_inner().unwrap() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

// ---- C24: the token statistics tool -------------------------------------------------------------------------

fn token_stat(s: &str, st: &mut Stats) -> Res {
    let dir = std::env::var("YAMD_MC_TMP").expect("YAMD_MC_TMP names a directory");
    thread_local! {
        static FILE: std::cell::RefCell<Option<std::path::PathBuf>> = const { std::cell::RefCell::new(None) };
    }
    let path = FILE.with(|f| {
        f.borrow_mut()
            .get_or_insert_with(|| {
                static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
                let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                std::path::Path::new(&dir).join(format!("doc{}-{n}.yamd", std::process::id()))
            })
            .clone()
    });
    stat_of(&path, s, st)
}

/// Names of files: with spaces, colons, dashes, of all lengths, from other scripts, not in Unicode.
fn stat_names() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = ["a", "a b.yamd", " a", "a ", "a:b", "-a", "--help", "ä", "日本語.yamd", "😀", "a\u{301}", "a\\n", "%s {}", "a.b.c", "*"]
        .iter()
        .map(|n| n.as_bytes().to_vec())
        .collect();
    v.extend([2, 10, 19, 20, 21, 22, 40, 100, 255].map(|n| vec![b'x'; n]));
    v.extend([&b"a\xff"[..], b"\xe9t\xe9.yamd", b"\xf0\x9f"].map(|n| n.to_vec()));
    v
}

fn stat_named(_: bool) -> Vec<String> {
    (0..stat_names().len()).map(|i| format!("file name {i}")).collect()
}

fn stat_name(name: &str, st: &mut Stats) -> Res {
    use std::os::unix::ffi::OsStrExt;
    let i: usize = name.rsplit(' ').next().and_then(|i| i.parse().ok()).expect("the number of a name");
    let dir = std::env::var("YAMD_MC_TMP").expect("YAMD_MC_TMP names a directory");
    let dir = std::path::Path::new(&dir).join(format!("names{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("a directory");
    let path = dir.join(std::ffi::OsStr::from_bytes(&stat_names()[i]));
    let done = RICH.iter().try_for_each(|s| stat_of(&path, s, st));
    st.validated += RICH.len() as u64;
    let _ = std::fs::remove_file(&path);
    done
}

fn stat_of(path: &std::path::Path, s: &str, st: &mut Stats) -> Res {
    let bin = std::env::var("YAMD_UTILS_BIN").expect("YAMD_UTILS_BIN names the built tool");
    std::fs::write(path, s).expect("a document file");
    let out = std::process::Command::new(bin)
        .arg("token-stat")
        .arg(path)
        .output()
        .expect("the tool runs");
    if !out.status.success() {
        return Err(format!("the tool ends with {:?}: {}", out.status, String::from_utf8_lossy(&out.stderr)));
    }
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    let mut total = None;
    let mut rows: Vec<(String, usize)> = vec![];
    for l in text.lines().filter(|l| !l.trim().is_empty()) {
        let (name, n) = l.split_once(':').ok_or_else(|| format!("an unexpected line {l:?}"))?;
        match name {
            "Token statistics for" => {
                let shown = path.to_string_lossy();
                if path.to_str().is_some() && n.trim_start() != shown.trim_start() {
                    return Err(format!("statistics for another file: {l:?}"));
                }
            }
            "Total token count" => total = n.trim().parse::<usize>().ok(),
            k => rows.push((k.to_owned(), n.trim().parse().map_err(|_| format!("no count in {l:?}"))?)),
        }
    }
    let toks = lm::lex(s);
    if total != Some(toks.len()) {
        return Err(format!("{total:?} tokens in all instead of {}: {text}", toks.len()));
    }
    if !rows.windows(2).all(|w| w[0].1 >= w[1].1) {
        return Err(format!("not sorted by count: {text}"));
    }
    let mut want = std::collections::BTreeMap::new();
    for t in &toks {
        *want.entry(kind_name(t.k).to_owned()).or_insert(0) += 1;
    }
    rows.sort();
    differ("counts", &want.into_iter().collect::<Vec<_>>(), &rows)?;
    saw_tokens(st, &toks);
    Ok(())
}

fn kind_name(k: K) -> &'static str {
    match k {
        K::Terminator => "Terminator",
        K::Eol => "Eol",
        K::LCurly => "LeftCurlyBrace",
        K::RCurly => "RightCurlyBrace",
        K::CStart => "CollapsibleStart",
        K::CEnd => "CollapsibleEnd",
        K::Tilde => "Tilde",
        K::Star => "Star",
        K::Space => "Space",
        K::Minus => "Minus",
        K::Hash => "Hash",
        K::Gt => "GreaterThan",
        K::Bang => "Bang",
        K::Tick => "Backtick",
        K::Plus => "Plus",
        K::LSq => "LeftSquareBracket",
        K::RSq => "RightSquareBracket",
        K::LPar => "LeftParenthesis",
        K::RPar => "RightParenthesis",
        K::Under => "Underscore",
        K::Pipe => "Pipe",
        K::Lit => "Literal",
    }
}

/// One word per kind of token.
const KINDS: &[&str] = &[
    "\n\n", "\n", "{", "}", "{%", "%}", "~", "*", " ", "-", "#", ">", "!", "`", "+", "[", "]", "(", ")", "_", "|", "a",
];

fn stat_spaces(thorough: bool) -> Spaces {
    let mut v = full(3);
    if thorough {
        v.push(words("line breaks and escapes", &["a", "\\", "\n", "\r\n", "\r", "é", "*", "{", "%"], 5));
    }
    v.push(Box::new(Fixed {
        label: "documents".into(),
        cases: RICH
            .iter()
            .chain(BLOCKS)
            .map(|s| s.to_string())
            .chain((0..40).map(|n| "- a *b* `c`\n\n".repeat(n * 7)))
            // k kinds of token at once, for every k and from every starting kind, with falling counts and with ties
            .chain((0..KINDS.len()).flat_map(|from| {
                (0..=KINDS.len()).flat_map(move |k| {
                    [1, 3].map(|step| {
                        (0..k).map(|i| format!("{}\\a", KINDS[(from + i) % KINDS.len()]).repeat(1 + i / step)).collect::<String>()
                    })
                })
            }))
            // all kinds at once, in counts of every size, in several orders
            .chain([1, 9, 90, 990, 1100, 9_900].iter().flat_map(|base| {
                [0, 1, 7, 90].map(|step| {
                    (0..KINDS.len())
                        .map(|i| format!("{}\\a", KINDS[i]).repeat(base + i * 7 % KINDS.len() * step))
                        .collect::<String>()
                })
            }))
            .chain(["a*", "a\n", "a "].iter().flat_map(|w| [32_768, 40_000, 70_000].map(|n| w.repeat(n))))
            .chain(FULL.iter().flat_map(|w| [3, 9, 10, 99, 100, 1000].map(|n| format!("{w}a").repeat(n))))
            .collect(),
    }));
    v
}

#[allow(dead_code)]
fn unused(k: TokenKind) -> K {
    lm::kind_of(&k)
}
