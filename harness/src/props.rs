//! The properties: for each the spaces it is explored on and how one case is judged.

use crate::events::{self, Grammar, Reader};
use crate::imp;
use crate::inputs::*;
use crate::lexer_model::{self as lm, Tok, K};
use crate::parse_model as pm;
use crate::run::{hash, no_named, no_named_check, Prop, Stats, H};
use crate::space::*;
use crate::tree::{self, *};
use std::hash::Hasher;
use yamd::lexer::{Lexer, TokenKind};
use yamd::op::Content;

type Res = Result<(), String>;

fn differ<T: std::fmt::Debug + PartialEq>(what: &str, spec: &T, code: &T) -> Res {
    if spec == code {
        return Ok(());
    }
    Err(format!("{what}\n  specified: {spec:?}\n  code:      {code:?}"))
}

// ---- states: what of an outcome tells it from another ------------------------------------------

fn shape_inl(v: &[Inl], h: &mut H) {
    for i in v {
        match i {
            Inl::Text(_) => h.write_u8(1),
            Inl::Bold(b) => {
                h.write_u8(2);
                shape_inl(b, h);
                h.write_u8(3)
            }
            Inl::Italic(_) => h.write_u8(4),
            Inl::Strike(_) => h.write_u8(5),
            Inl::Code(_) => h.write_u8(6),
            Inl::Emph(_) => h.write_u8(7),
            Inl::Anchor(..) => h.write_u8(8),
        }
    }
    h.write_u8(0);
}

fn shape_list(l: &ListT, h: &mut H) {
    h.write_u8(20 + l.ordered as u8);
    for i in &l.items {
        shape_inl(&i.text, h);
        if let Some(n) = &i.nested {
            shape_list(n, h);
        }
    }
    h.write_u8(22);
}

fn shape_blocks(v: &[Blk], h: &mut H) -> usize {
    let mut nodes = 0;
    for b in v {
        nodes += 1;
        match b {
            Blk::Para(p) => {
                h.write_u8(30);
                nodes += p.len();
                shape_inl(p, h)
            }
            Blk::Head(l, p) => {
                h.write_u16(3100 + *l as u16);
                nodes += p.len();
                shape_inl(p, h)
            }
            Blk::Image(..) => h.write_u8(40),
            Blk::Images(v) => {
                h.write_u8(41);
                h.write_usize(v.len())
            }
            Blk::Code(l, c) => {
                h.write_u8(42);
                h.write_u8(l.is_empty() as u8 + 2 * c.is_empty() as u8)
            }
            Blk::List(l) => {
                nodes += l.items.len();
                shape_list(l, h)
            }
            Blk::High(t, i, b) => {
                h.write_u8(43 + t.is_some() as u8 * 2 + i.is_some() as u8);
                for p in b {
                    nodes += 1;
                    shape_inl(p, h);
                }
                h.write_u8(47)
            }
            Blk::Break => h.write_u8(48),
            Blk::Embed(..) => h.write_u8(49),
            Blk::Coll(t, b) => {
                h.write_u8(50 + t.is_empty() as u8);
                nodes += shape_blocks(b, h);
                h.write_u8(52)
            }
        }
    }
    nodes
}

/// Records a document as the state reached; its nodes are the steps.
fn saw(st: &mut Stats, d: &Doc) {
    let mut h = H::default();
    h.write_u8(d.meta.is_some() as u8);
    let n = shape_blocks(&d.body, &mut h);
    st.case(h.finish(), n + 1);
}

fn saw_tokens(st: &mut Stats, t: &[Tok]) {
    let mut h = H::default();
    for t in t {
        h.write_u8(t.k as u8);
        h.write_usize(t.len().min(8));
    }
    st.case(h.finish(), t.len());
}

// ---- C01 ----------------------------------------------------------------------------------------

fn totality(s: &str, st: &mut Stats) -> Res {
    let n = imp::lex(s).len();
    if n > s.len() {
        return Err(format!("{n} tokens out of {} bytes", s.len()));
    }
    let y = imp::tree(s);
    let d = tree::doc(&y);
    let p = imp::print(&y);
    // printing adds escapes and separators, never more than a constant per byte of text and per node
    if p.len() > 8 * s.len() + 64 {
        return Err(format!("{} bytes printed from {}", p.len(), s.len()));
    }
    saw(st, &d);
    Ok(())
}

const EXTREMES: &[(&str, fn() -> String)] = &[
    ("nested-collapsibles-1000", || nested(1000)),
    ("nested-collapsibles-20000", || nested(20000)),
    ("nested-lists-200", || {
        (0..200).map(|i| format!("{}- x\n", " ".repeat(i))).collect()
    }),
    ("unclosed-collapsibles-250", || "{% a\n".repeat(250)),
    ("parentheses-100000", || {
        format!("[a]({}{})", "(".repeat(100_000), ")".repeat(100_000))
    }),
    ("text-8MB", || "lorem ipsum dolor ".repeat(450_000)),
    ("one-word-8MB", || "x".repeat(8 << 20)),
    ("paragraphs-300000", || "a\n\n".repeat(300_000)),
    ("items-100000", || "- a *b*\n".repeat(100_000)),
    ("line-breaks-2000000", || "\n".repeat(2_000_000)),
    ("emphasis-200000", || "*a* _b_ ~~c~~ `d` **e** [f](g)\n\n".repeat(40_000)),
    ("unclosed-emphasis-4000", || "*a ".repeat(4001)),
    ("unclosed-mixed-3000", || "*a _b ~~c `d **e [f]( ".repeat(500)),
    ("unclosed-brackets-4000", || "[".repeat(4000)),
    ("unclosed-links-2000", || "[a](".repeat(2000)),
    ("escapes-2000000", || "\\*".repeat(2_000_000)),
    ("backslashes-4000001", || "\\".repeat(4_000_001)),
    ("code-4MB", || format!("```\n{}\n```", "`` x\n".repeat(800_000))),
    ("metadata-4MB", || format!("---\n{}\n---", "k: v\n".repeat(800_000))),
    ("images-50000", || "![a](b)\n".repeat(50_000)),
    ("highlight-50000", || format!("!! t\n{}!!", "a\n\n".repeat(50_000))),
    // several megabytes of each construct: what takes a time quadratic in their number takes minutes
    ("many-paragraphs", || "a\n\n".repeat(1_500_000)),
    ("many-headings", || "# a\n\n".repeat(800_000)),
    ("many-linked-headings", || "# [a](b) c\n\n".repeat(400_000)),
    ("many-breaks", || "-----\n".repeat(800_000)),
    ("many-codes", || "```a\nb\n```\n".repeat(400_000)),
    ("many-embeds", || "{{a|b}}\n".repeat(600_000)),
    ("many-collapsibles", || "{% a\nb\n%}\n".repeat(400_000)),
    ("many-highlights", || "!! a\n! b\nc\n!!\n".repeat(400_000)),
    ("many-images", || "![a](b)\n\n".repeat(500_000)),
    ("many-galleries", || "![a](b)\n![c](d)\n\n".repeat(250_000)),
    ("many-lists", || "- a\n - b\n+ c\n\n".repeat(300_000)),
    ("large-gallery", || "![a](b)\n".repeat(600_000)),
    ("large-list", || "- a\n".repeat(1_000_000)),
    ("large-nested-list", || format!("- a\n{}- c", " + b\n".repeat(800_000))),
    ("large-items", || "- a\nb *c*\n - d\n\n".repeat(200_000)),
    ("large-highlight", || format!("!! t\n{}!!", "a\n\n".repeat(800_000))),
    ("large-collapsible", || format!("{{% t\n{}%}}", "a\n\n".repeat(800_000))),
    ("large-paragraph", || "*a* _b_ ~~c~~ `d` **e** [f](g) ".repeat(150_000)),
    ("large-lines", || "a *b*\n".repeat(800_000)),
    ("large-bold", || format!("**{}**", "a _b_ ~~c~~ ".repeat(300_000))),
    ("large-heading", || format!("# {}", "[a](b) ".repeat(500_000))),
    ("large-title", || format!("[{}](b)", "a * ".repeat(1_000_000))),
    ("large-address", || format!("[b]({})", "a * ".repeat(1_000_000))),
    ("large-emphasis", || format!("*{}*", "a _ ".repeat(1_000_000))),
    ("large-embed", || format!("{{{{a|{}}}}}", "a * ".repeat(1_000_000))),
    ("large-code-escapes", || format!("```\n{}\n```", "\\a\\`*".repeat(600_000))),
    ("large-language", || format!("```{}\nb\n```", "\\a*".repeat(600_000))),
];

fn nested(n: usize) -> String {
    format!("{}{}", "{% a\n".repeat(n), "%}\n".repeat(n))
}

fn extreme(name: &str, st: &mut Stats) -> Res {
    let f = EXTREMES.iter().find(|e| e.0 == name).expect("an extreme case").1;
    let s = f();
    let y = imp::tree(&s);
    let p = imp::print(&y);
    let again = imp::tree(&p);
    st.validated += 1;
    st.transitions += s.len() as u64;
    if again != y {
        return Err("the printed document reads back differently".into());
    }
    // dropping a deep tree is part of using it
    drop(y);
    drop(again);
    Ok(())
}

// ---- C02, C03 -----------------------------------------------------------------------------------

fn tokens(s: &str, st: &mut Stats) -> Res {
    let spec = lm::lex(s);
    let mut it = Lexer::new(s);
    let code: Vec<_> = imp::enter(|| it.by_ref().collect());
    let after = imp::enter(|| (it.next(), it.next()));
    if after != (None, None) {
        return Err(format!("tokens after the end: {after:?}"));
    }
    let spec_view: Vec<_> = spec.iter().map(|t| (t.k, t.s..t.e, t.esc)).collect();
    let code_view: Vec<_> = code
        .iter()
        .map(|t| (lm::kind_of(&t.kind), t.range.clone(), t.escaped))
        .collect();
    differ("tokens (kind, bytes, escaped)", &spec_view, &code_view)?;
    // independent of the model: what is between tokens is one escaping backslash each
    let mut at = 0;
    for t in &code {
        let gap = s.get(at..t.range.start).ok_or("a token range is no text")?;
        if gap != if t.escaped { "\\" } else { "" } {
            return Err(format!("{gap:?} is skipped before {t:?}"));
        }
        if t.range.is_empty() || s.get(t.range.clone()).is_none() {
            return Err(format!("{t:?} is no text"));
        }
        at = t.range.end;
    }
    if !matches!(&s[at..], "" | "\\") {
        return Err(format!("{:?} is left over", &s[at..]));
    }
    if s.len() <= 5 {
        other_steps(s, &code)?;
    }
    saw_tokens(st, &spec);
    Ok(())
}

/// Skipping, counting and asking for the last token see what stepping sees.
fn other_steps(s: &str, code: &[yamd::lexer::Token]) -> Res {
    for n in 0..=code.len() {
        let stepped = || {
            let mut it = Lexer::new(s);
            it.by_ref().take(n).for_each(drop);
            it
        };
        let left = code.len() - n;
        let (least, most) = imp::enter(|| stepped().size_hint());
        if least > left || most.is_some_and(|m| m < left) {
            return Err(format!("{left} tokens are left after {n}, not {least} to {most:?}"));
        }
        let counted = imp::enter(|| stepped().count());
        if counted != left {
            return Err(format!("{counted} tokens counted after {n}, stepping finds {left}"));
        }
        let last = imp::enter(|| stepped().last());
        if last.as_ref() != code[n..].last() {
            return Err(format!("the last token after {n} is said to be {last:?}"));
        }
        let mut folded = vec![];
        imp::enter(|| stepped().for_each(|t| folded.push(t)));
        if folded != code[n..] {
            return Err(format!("a walk over the tokens after {n} sees {folded:?}"));
        }
        for k in 0..=left {
            let mut it = stepped();
            let (got, next) = imp::enter(|| (it.nth(k), it.next()));
            if got.as_ref() != code.get(n + k) || next.as_ref() != code.get(n + k + 1) {
                return Err(format!("skipping {k} tokens after {n} gives {got:?}, then {next:?}"));
            }
        }
    }
    Ok(())
}

fn positions(s: &str, st: &mut Stats) -> Res {
    let spec = lm::lex(s);
    let code = imp::lex(s);
    if spec.len() != code.len() {
        return Err(format!("{} tokens instead of {}", code.len(), spec.len()));
    }
    for (a, b) in spec.iter().zip(&code) {
        let want = (a.s, a.row, a.col);
        let got = (b.position.byte_index, b.position.row, b.position.column);
        if want != got || b.position.byte_index != b.range.start {
            return Err(format!("(byte, row, column) {want:?} expected at {b:?}"));
        }
    }
    saw_tokens(st, &spec);
    Ok(())
}

fn lexer_spaces(thorough: bool) -> Spaces {
    let mut v = full(if thorough { 6 } else { 5 });
    v.extend(subs(if thorough { 8 } else { 7 }));
    v.extend(lines(if thorough { 6 } else { 5 }));
    v.extend(nested_contexts(2, if thorough { 3 } else { 2 }));
    v.push(words(
        "lexer",
        &["a", "\\", "\n", "\r", " ", "{", "}", "%", "é", "*"],
        if thorough { 8 } else { 7 },
    ));
    v.push(words("line breaks", &["\n", "\r\n", "\r", "a", "\\", " "], if thorough { 10 } else { 9 }));
    v.extend(ascii(if thorough { 4 } else { 3 }));
    v.extend(scalars());
    v.extend(runs());
    v.extend(run_pairs(if thorough { 20 } else { 9 }));
    v.extend(repeated());
    v.extend(deep());
    v.extend(looks(1 + thorough as usize));
    v.extend(ascii_in_contexts(1 + thorough as usize));
    v.extend(edits(1));
    v
}

// ---- C04 ----------------------------------------------------------------------------------------

fn escape_all(t: &str) -> String {
    t.chars().flat_map(|c| ['\\', c]).collect()
}

/// Escaped text in every place text can stand: the source, and the document it must give.
fn places(t: &str) -> Vec<(String, Option<Doc>)> {
    let e = escape_all(t);
    let text = || vec![Inl::Text(t.to_owned())];
    let s = || t.to_owned();
    let para = |v: Vec<Inl>| Blk::Para(v);
    let one = |b: Blk| {
        Some(Doc {
            meta: None,
            body: vec![b],
        })
    };
    let list = |nested: bool| {
        let inner = ListT {
            ordered: nested,
            level: nested as usize,
            items: vec![Item {
                text: text(),
                nested: None,
            }],
        };
        if nested {
            ListT {
                ordered: false,
                level: 0,
                items: vec![Item {
                    text: vec![Inl::Text("x".into())],
                    nested: Some(Box::new(inner)),
                }],
            }
        } else {
            inner
        }
    };
    // a text ending in a line break loses it where the following line break is trimmed
    let trims = t.ends_with(['\n', '\r']);
    let unless_trimmed = |d: Option<Doc>| if trims { None } else { d };
    vec![
        (e.clone(), one(para(text()))),
        (format!("**{e}**"), one(para(vec![Inl::Bold(text())]))),
        (format!("_{e}_"), one(para(vec![Inl::Italic(s())]))),
        (format!("~~{e}~~"), one(para(vec![Inl::Strike(s())]))),
        (format!("*{e}*"), one(para(vec![Inl::Emph(s())]))),
        (format!("`{e}`"), one(para(vec![Inl::Code(s())]))),
        (format!("[{e}]({e})"), one(para(vec![Inl::Anchor(s(), s())]))),
        (format!("# {e}"), one(Blk::Head(1, text()))),
        (format!("![{e}]({e})"), one(Blk::Image(s(), s()))),
        (format!("```{e}\nx\n```"), one(Blk::Code(s(), "x".into()))),
        (format!("```\n{e}\n```"), unless_trimmed(one(Blk::Code(String::new(), s())))),
        (format!("- {e}"), unless_trimmed(one(Blk::List(list(false))))),
        (format!("- x\n + {e}"), unless_trimmed(one(Blk::List(list(true))))),
        (format!("{{{{{e}|{e}}}}}"), one(Blk::Embed(s(), s()))),
        (format!("!! {e}\nx\n!!"), one(Blk::High(Some(s()), None, vec![vec![Inl::Text("x".into())]]))),
        (format!("!!\n! {e}\nx\n!!"), one(Blk::High(None, Some(s()), vec![vec![Inl::Text("x".into())]]))),
        (format!("!!\n{e}\n!!"), unless_trimmed(one(Blk::High(None, None, vec![text()])))),
        (format!("{{% {e}\nx\n%}}"), one(Blk::Coll(s(), vec![para(vec![Inl::Text("x".into())])]))),
        (format!("{{% x\n{e}\n%}}"), one(Blk::Coll("x".into(), vec![para(text())]))),
        (
            format!("---\n{e}\n---"),
            if trims || t.starts_with(['\n', '\r']) {
                None
            } else {
                Some(Doc {
                    meta: Some(s()),
                    body: vec![],
                })
            },
        ),
    ]
}

const STAND_IN: char = '\u{e000}';

fn escaping(s: &str, st: &mut Stats) -> Res {
    // every escaped text is exactly that text, wherever it stands
    if !s.is_empty() && s.len() <= 24 {
        for (src, want) in places(s) {
            if let Some(want) = want {
                let got = tree::doc(&imp::tree(&src));
                differ(&format!("escaped text in {src:?}"), &want, &got)?;
                saw(st, &want);
            }
        }
    }
    // an escaped character behaves like one that never means anything
    let mut chars = s.char_indices();
    let mut n = 0;
    while let Some((i, c)) = chars.next() {
        if c != '\\' {
            continue;
        }
        let Some((j, c)) = chars.next() else { break };
        n += 1;
        if n > 40 || s.contains(STAND_IN) {
            break;
        }
        let plain = format!("{}{STAND_IN}{}", &s[..i], &s[j + c.len_utf8()..]);
        let want = tree::doc(&imp::tree(&plain)).map(&|t| t.replace(STAND_IN, c.encode_utf8(&mut [0; 4]))).trimmed();
        let got = tree::doc(&imp::tree(s));
        differ(&format!("escaped {c:?} at byte {i}, against a character without meaning"), &want, &got)?;
        saw(st, &want);
    }
    Ok(())
}

fn escaping_spaces(thorough: bool) -> Spaces {
    let mut v = full(if thorough { 4 } else { 3 });
    v.push(words("escape", ESC, if thorough { 6 } else { 5 }));
    v.push(words(
        "escaped",
        &["a", "\\*", "*", "\\\\", "\\_", "_", "\\`", "`", "\\[", "[", "]", "(x)", "\\]", "\n", "\\-", "\\ ", "- ", "\\#", "# ", "\\!"],
        if thorough { 5 } else { 4 },
    ));
    v.push(Box::new(Words {
        label: "every ASCII character escaped",
        pre: String::new(),
        suf: String::new(),
        words: (0u8..128)
            .flat_map(|b| [(b as char).to_string(), format!("\\{}", b as char)])
            .collect(),
        depth: 2,
    }));
    for (p, s) in CONTEXTS {
        v.push(Box::new(Words {
            label: "escaped in context",
            pre: p.to_string(),
            suf: s.to_string(),
            words: FULL.iter().flat_map(|w| [w.to_string(), format!("\\{w}")]).collect(),
            depth: if thorough { 3 } else { 2 },
        }));
    }
    v.push(Box::new(Scalars {
        templates: vec!["\u{1}", "\\\u{1}", "*\\\u{1}*"],
    }));
    v.push(Box::new(Padded {
        contexts: CONTEXTS,
        pads: vec!["x".repeat(70), "*a* `b` ".repeat(12), "x\n- y\n".repeat(20)],
        words: FULL.iter().map(|w| format!("\\{w}")).chain(FULL.iter().map(|w| w.to_string())).collect(),
        depth: 2,
    }));
    v.extend(amid(if thorough { vec![1, 2, 3, 4, 5, 9, 17, 33] } else { vec![2, 4, 17] }));
    v.extend(edits(1));
    v.extend(nested_contexts(2, 1));
    v.extend(crate::inputs::blocks(2));
    v
}

// ---- C05..C08: the event stream ------------------------------------------------------------------

fn stream(s: &str, st: &mut Stats) -> Res {
    let ops = imp::ops(s);
    let top = events::nest(&ops)?;
    Grammar { r: Reader { src: s } }.check(&top)?;
    st.case(events::shape(&ops), ops.len());
    Ok(())
}

struct Cells<'a> {
    /// (bytes, text) of every character the lexer keeps
    v: Vec<(usize, usize)>,
    src: &'a str,
}

impl<'a> Cells<'a> {
    fn new(src: &'a str) -> Self {
        let mut v = Vec::with_capacity(src.len());
        let mut it = src.char_indices();
        while let Some((i, c)) = it.next() {
            if c != '\\' {
                v.push((i, i + c.len_utf8()));
            } else if let Some((j, c)) = it.next() {
                v.push((j, j + c.len_utf8()));
            }
        }
        Cells { v, src }
    }
    fn text(&self, a: usize, b: usize) -> String {
        self.v[a..b].iter().map(|c| &self.src[c.0..c.1]).collect()
    }
}

/// Walks the contents of a stream along the source. `each` gets an event's content and the kept characters
/// it stands for.
fn align(s: &str, ops: &[yamd::op::Op], mut each: impl FnMut(&Content, &Cells, usize, usize) -> Res) -> Res {
    use yamd::op::{Node, OpKind};
    let cells = Cells::new(s);
    let r = Reader { src: s };
    let mut at = 0;
    for (i, op) in ops.iter().enumerate() {
        let text = r.text(&op.content);
        let n = text.chars().count();
        if n == 0 {
            each(&op.content, &cells, at, at)?;
            continue;
        }
        // the line break before the end of a collapsible belongs to no event
        if op.kind == OpKind::End(Node::Collapsible) && text.starts_with('%') {
            let rest = cells.text(at, cells.v.len().min(at + 2));
            if rest.starts_with("\r\n") {
                at += 2;
            } else if rest.starts_with('\n') {
                at += 1;
            }
        }
        let end = at + n;
        if end > cells.v.len() || cells.text(at, end) != text {
            return Err(format!(
                "event {i} {:?} holds {text:?}, the source continues with {:?}",
                op.kind,
                cells.text(at.min(cells.v.len()), cells.v.len().min(end + 8))
            ));
        }
        each(&op.content, &cells, at, end)?;
        at = end;
    }
    if at != cells.v.len() {
        return Err(format!("{:?} is in no event", cells.text(at, cells.v.len())));
    }
    Ok(())
}

fn lossless(s: &str, st: &mut Stats) -> Res {
    let ops = imp::ops(s);
    align(s, &ops, |_, _, _, _| Ok(()))?;
    st.case(events::shape(&ops), ops.len());
    Ok(())
}

fn contents(s: &str, st: &mut Stats) -> Res {
    let ops = imp::ops(s);
    for op in &ops {
        if let Content::Span(r) = &op.content {
            if !r.is_empty() && s.get(r.clone()).is_none() {
                return Err(format!("{:?} is no text of the source", op));
            }
        }
        // the accessors agree with the value
        let text = Reader { src: s }.text(&op.content);
        let (a, b, c) = imp::enter(|| {
            (
                op.content.as_str(s).to_owned(),
                op.content.to_string(s),
                op.content.is_empty(),
            )
        });
        if a != text || b != text || c != text.is_empty() {
            return Err(format!("{:?} reads as {a:?}, {b:?}, empty: {c}", op.content));
        }
        // text of its own needs no source
        if let Content::Materialized(m) = &op.content {
            for other in ["", m.get(..1).unwrap_or("a")] {
                let (a, b) = imp::enter(|| (op.content.as_str(other).to_owned(), op.content.to_string(other)));
                if a != *m || b != *m {
                    return Err(format!("{:?} reads as {a:?}, {b:?} with another source", op.content));
                }
            }
        }
    }
    align(s, &ops, |content, cells, a, b| {
        let want = if a == b {
            None
        } else {
            let bytes: usize = cells.v[a..b].iter().map(|c| c.1 - c.0).sum();
            let (from, to) = (cells.v[a].0, cells.v[b - 1].1);
            (to - from == bytes).then_some(from..to)
        };
        match (content, want) {
            (Content::Span(r), Some(w)) if *r == w => Ok(()),
            (Content::Span(r), None) if a == b && r.is_empty() => Ok(()),
            (Content::Materialized(_), None) if a != b => Ok(()),
            (c, w) => Err(format!("{c:?} where the text stands at {w:?}")),
        }
    })?;
    st.case(events::shape(&ops), ops.len());
    // the same for any run of tokens
    let toks = imp::lex(s);
    if toks.len() <= 8 {
        for i in 0..=toks.len() {
            for j in i..=toks.len() {
                let c = imp::enter(|| Content::from_tokens(&toks[i..j], s));
                let text: String = toks[i..j].iter().map(|t| &s[t.range.clone()]).collect();
                let joined = toks[i..j].windows(2).all(|w| w[0].range.end == w[1].range.start);
                let ok = match &c {
                    Content::Span(r) if i == j => r.is_empty(),
                    Content::Span(r) => joined && s.get(r.clone()) == Some(&text),
                    Content::Materialized(m) => !joined && *m == text,
                };
                if !ok {
                    return Err(format!("tokens {i}..{j} ({text:?}) give {c:?}"));
                }
            }
        }
    }
    Ok(())
}

fn two_apis(s: &str, st: &mut Stats) -> Res {
    let ops = imp::ops(s);
    let a = imp::tree(s);
    let b = imp::fold(&ops, s);
    if a != b {
        return Err(format!("deserialize {a:?}\n  to_yamd of parse {b:?}"));
    }
    match imp::try_fold(&ops, s) {
        Ok(c) if c == a => {}
        c => return Err(format!("deserialize {a:?}\n  try_to_yamd of parse {c:?}")),
    }
    let top = events::nest(&ops)?;
    let want = Reader { src: s }.doc(&top);
    differ("tree of the stream", &want, &tree::doc(&a))?;
    st.case(events::shape(&ops), ops.len());
    Ok(())
}

// ---- C10 ------------------------------------------------------------------------------------------

fn text_ok(v: &[Inl], bold: bool) -> Res {
    let mut was_text = false;
    for i in v {
        let is_text = matches!(i, Inl::Text(_));
        match i {
            Inl::Text(t) if t.is_empty() => return Err("an empty text".into()),
            Inl::Text(_) if was_text => return Err("two texts in a row".into()),
            Inl::Bold(b) if !bold => text_ok(b, true)?,
            Inl::Text(_) | Inl::Italic(_) | Inl::Strike(_) => {}
            _ if !bold => {}
            x => return Err(format!("{x:?} inside bold")),
        }
        was_text = is_text;
    }
    Ok(())
}

fn list_ok(l: &ListT, level: usize) -> Res {
    if l.level != level {
        return Err(format!("a list {level} deep says level {}", l.level));
    }
    if l.items.is_empty() {
        return Err("an empty list".into());
    }
    for i in &l.items {
        text_ok(&i.text, false)?;
        if let Some(Inl::Text(t)) = i.text.last() {
            if t.ends_with(['\n', '\r']) {
                return Err("an item ends with a line break".into());
            }
        }
        if let Some(n) = &i.nested {
            list_ok(n, level + 1)?;
        }
    }
    Ok(())
}

fn blocks_ok(v: &[Blk]) -> Res {
    for b in v {
        match b {
            Blk::Para(p) if p.is_empty() => return Err("an empty paragraph".into()),
            Blk::Para(p) => text_ok(p, false)?,
            Blk::Head(l, p) => {
                if !(1..=6).contains(l) {
                    return Err(format!("a heading of level {l}"));
                }
                text_ok(p, false)?;
            }
            Blk::Images(v) if v.len() < 2 => return Err("a gallery of fewer than two images".into()),
            Blk::Code(l, c) => {
                if c.ends_with(['\n', '\r']) {
                    return Err("code ends with a line break".into());
                }
                let _ = l;
            }
            Blk::List(l) => list_ok(l, 0)?,
            Blk::High(_, _, b) => {
                for p in b {
                    if p.is_empty() {
                        return Err("an empty paragraph in a highlight".into());
                    }
                    text_ok(p, false)?;
                    if let Some(Inl::Text(t)) = p.last() {
                        if t.ends_with(['\n', '\r']) {
                            return Err("a highlight paragraph ends with a line break".into());
                        }
                    }
                }
            }
            Blk::Coll(_, b) => blocks_ok(b)?,
            Blk::Image(..) | Blk::Images(_) | Blk::Break | Blk::Embed(..) => {}
        }
    }
    Ok(())
}

fn normal_form(s: &str, st: &mut Stats) -> Res {
    let d = tree::doc(&imp::tree(s));
    blocks_ok(&d.body).map_err(|e| format!("{e} in {d:?}"))?;
    if let Some(m) = &d.meta {
        if m.starts_with(['\n', '\r']) || m.ends_with(['\n', '\r']) {
            return Err(format!("metadata {m:?} is not trimmed"));
        }
    }
    saw(st, &d);
    Ok(())
}

// ---- C12 ------------------------------------------------------------------------------------------

/// Takes so many bytes, then fails, for good.
struct Full {
    room: usize,
    text: String,
    failed: bool,
    after: bool,
}
impl std::fmt::Write for Full {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.after |= self.failed;
        if s.len() > self.room {
            self.failed = true;
            return Err(std::fmt::Error);
        }
        self.room -= s.len();
        self.text.push_str(s);
        Ok(())
    }
}

/// Printing into a writer that fails at any point fails too, after a part of the same text and without writing on.
fn full_writer(y: &dyn std::fmt::Display) -> Res {
    let p = &imp::enter(|| y.to_string());
    for room in 0..=p.len() {
        let mut w = Full { room, text: String::new(), failed: false, after: false };
        let r = imp::enter(|| std::fmt::Write::write_fmt(&mut w, format_args!("{y}")));
        if r.is_ok() != (room == p.len()) || w.after || !p.starts_with(&w.text) {
            return Err(format!("printing into {room} bytes ends with {r:?} after {:?} (goes on: {})", w.text, w.after));
        }
    }
    Ok(())
}

fn round_trip(s: &str, st: &mut Stats) -> Res {
    let y = imp::tree(s);
    let p = imp::print(&y);
    let y2 = imp::tree(&p);
    if y != y2 {
        return Err(format!(
            "printed as {p:?}\n  first read:  {:?}\n  second read: {:?}",
            tree::doc(&y),
            tree::doc(&y2)
        ));
    }
    let p2 = imp::print(&y2);
    if p != p2 {
        return Err(format!("printed as {p:?}, then as {p2:?}"));
    }
    if p.len() <= 6 || RICH.contains(&s) || BLOCKS.contains(&s) {
        full_writer(&y)?;
        y.body.iter().try_for_each(|b| full_writer(b))?;
    }
    saw(st, &tree::doc(&y));
    Ok(())
}

// ---- against the reference parser -------------------------------------------------------------------

/// The code's tree and the specified one, told apart by `view`.
fn against<T: std::fmt::Debug + PartialEq>(
    what: &str,
    s: &str,
    st: &mut Stats,
    view: impl Fn(&Doc) -> T,
) -> Res {
    let spec = pm::parse(s);
    let code = tree::doc(&imp::tree(s));
    differ(what, &view(&spec), &view(&code))?;
    saw(st, &spec);
    Ok(())
}

fn skeleton_of(d: &Doc) -> String {
    let mut s = String::new();
    tree::skeleton(&d.body, &mut s);
    s
}

fn block_structure(s: &str, st: &mut Stats) -> Res {
    against("block structure", s, st, skeleton_of)
}

fn inline(s: &str, st: &mut Stats) -> Res {
    against("inline content", s, st, |d| {
        let mut v = vec![];
        tree::inline_runs(&d.body, &mut v);
        v.into_iter().cloned().collect::<Vec<_>>()
    })
}

fn pick(d: &Doc, f: impl Fn(&Blk) -> bool) -> Vec<Blk> {
    let mut v = vec![];
    tree::all_blocks(&d.body, &mut v);
    v.into_iter().filter(|b| f(b)).cloned().collect()
}

/// Nothing after the closing marker of a block (and one line break) belongs to it.
fn nothing_beyond(s: &str, node: Node, marker: &str) -> Res {
    let r = Reader { src: s };
    for o in imp::ops(s) {
        if matches!(&o.kind, OpKind::End(n) if *n == node) {
            let end = r.text(&o.content);
            let rest = end.strip_prefix(marker).unwrap_or("");
            if !matches!(rest, "" | "\n" | "\r\n") {
                return Err(format!("the end of {node:?} takes {end:?}"));
            }
        }
    }
    Ok(())
}

fn lists(s: &str, st: &mut Stats) -> Res {
    against("lists", s, st, |d| pick(d, |b| matches!(b, Blk::List(_))))
}

fn code_blocks(s: &str, st: &mut Stats) -> Res {
    against("code blocks", s, st, |d| pick(d, |b| matches!(b, Blk::Code(..))))?;
    nothing_beyond(s, Node::Code, "```")
}

fn highlights(s: &str, st: &mut Stats) -> Res {
    against("highlights", s, st, |d| pick(d, |b| matches!(b, Blk::High(..))))?;
    nothing_beyond(s, Node::Highlight, "!!")
}

fn headings(s: &str, st: &mut Stats) -> Res {
    against("headings and breaks", s, st, |d| {
        pick(d, |b| matches!(b, Blk::Head(..) | Blk::Break))
    })
}

fn embeds(s: &str, st: &mut Stats) -> Res {
    against("embeds", s, st, |d| pick(d, |b| matches!(b, Blk::Embed(..))))?;
    nothing_beyond(s, Node::Embed, "}}")
}

fn metadata(s: &str, st: &mut Stats) -> Res {
    against("metadata and what follows it", s, st, |d| {
        (d.meta.clone(), skeleton_of(d))
    })?;
    nothing_beyond(s, Node::Metadata, "---")
}

fn anchors(v: &[Inl], out: &mut Vec<(char, String, String)>) {
    for i in v {
        if let Inl::Anchor(t, u) = i {
            out.push(('a', t.clone(), u.clone()));
        }
    }
}

fn links(s: &str, st: &mut Stats) -> Res {
    against("links and images", s, st, |d| {
        let mut runs = vec![];
        tree::inline_runs(&d.body, &mut runs);
        let mut v = vec![];
        for r in runs {
            anchors(r, &mut v);
        }
        (v, pick(d, |b| matches!(b, Blk::Image(..) | Blk::Images(_))))
    })?;
    nothing_beyond(s, Node::Image, "")
}

fn collapsibles(s: &str, st: &mut Stats) -> Res {
    against("collapsibles", s, st, |d| pick(d, |b| matches!(b, Blk::Coll(..))))?;
    nothing_beyond(s, Node::Collapsible, "%}")?;
    // a collapsible's body reads like a document of its own
    if s.contains("{%")
        || s.contains("%}")
        || s.starts_with("---")
        || s.starts_with(['\n', '\r'])
        || s.ends_with(['\n', '\r', '\\'])
    {
        return Ok(());
    }
    let inside = format!("{{% t\n{s}\n%}}");
    let body = tree::doc(&imp::tree(s)).body;
    for (src, want) in [
        (inside.clone(), vec![Blk::Coll("t".into(), body.clone())]),
        (
            format!("{{% u\n{inside}\n%}}"),
            vec![Blk::Coll("u".into(), vec![Blk::Coll("t".into(), body)])],
        ),
    ] {
        let got = tree::doc(&imp::tree(&src)).body;
        differ(&format!("body of {src:?}"), &want, &got)?;
    }
    st.validated += 1;
    Ok(())
}

// ---- C18 --------------------------------------------------------------------------------------------

fn crlf(s: &str, st: &mut Stats) -> Res {
    if s.contains('\r') {
        st.skip();
        return Ok(());
    }
    // an escaped line feed is one character, an escaped CR LF is not
    let breaks: Vec<usize> = {
        let mut v = vec![];
        let mut it = s.char_indices();
        while let Some((i, c)) = it.next() {
            match c {
                '\\' => {
                    it.next();
                }
                '\n' => v.push(i),
                _ => {}
            }
        }
        v
    };
    if breaks.is_empty() {
        st.skip();
        return Ok(());
    }
    let want = tree::doc(&imp::tree(s));
    let k = breaks.len();
    let masks: Vec<u64> = if k <= 5 {
        (1..1u64 << k).collect()
    } else {
        vec![u64::MAX, 0x5555_5555_5555_5555, 0xaaaa_aaaa_aaaa_aaaa, 1, 1 << (k - 1).min(63), 1 << (k / 2).min(63)]
    };
    for m in masks {
        let mut t = String::with_capacity(s.len() + k);
        let mut from = 0;
        for (n, &i) in breaks.iter().enumerate() {
            t.push_str(&s[from..i]);
            if m >> (n % 64) & 1 == 1 {
                t.push('\r');
            }
            from = i;
        }
        t.push_str(&s[from..]);
        let got = tree::doc(&imp::tree(&t)).map(&|x| x.replace("\r\n", "\n"));
        differ(&format!("with CR LF: {t:?}"), &want, &got)?;
        saw(st, &want);
    }
    Ok(())
}

// ---- C19 --------------------------------------------------------------------------------------------

mod json {
    use super::*;
    use serde_json::{json, Value};
    fn inl(i: &Inl) -> Value {
        let (t, v) = match i {
            Inl::Text(t) => ("Text", json!(t)),
            Inl::Bold(b) => ("Bold", json!({"body": b.iter().map(inl).collect::<Vec<_>>()})),
            Inl::Italic(t) => ("Italic", json!(t)),
            Inl::Strike(t) => ("Strikethrough", json!(t)),
            Inl::Code(t) => ("CodeSpan", json!(t)),
            Inl::Emph(t) => ("Emphasis", json!(t)),
            Inl::Anchor(t, u) => ("Anchor", json!({"text": t, "url": u})),
        };
        json!({"type": t, "value": v})
    }
    fn inls(v: &[Inl]) -> Value {
        v.iter().map(inl).collect()
    }
    fn list(l: &ListT) -> Value {
        json!({
            "list_type": if l.ordered { "Ordered" } else { "Unordered" },
            "level": l.level,
            "body": l.items.iter().map(|i| json!({
                "text": inls(&i.text),
                "nested_list": i.nested.as_ref().map(|l| list(l)),
            })).collect::<Vec<_>>(),
        })
    }
    fn blk(b: &Blk) -> Value {
        let img = |(a, s): &(String, String)| json!({"alt": a, "src": s});
        let (t, v) = match b {
            Blk::Para(p) => ("Paragraph", json!({"body": inls(p)})),
            Blk::Head(l, p) => ("Heading", json!({"level": l, "body": inls(p)})),
            Blk::Image(a, s) => ("Image", json!({"alt": a, "src": s})),
            Blk::Images(v) => ("Images", json!({"body": v.iter().map(img).collect::<Vec<_>>()})),
            Blk::Code(l, c) => ("Code", json!({"lang": l, "code": c})),
            Blk::List(l) => ("List", list(l)),
            Blk::High(t, i, b) => (
                "Highlight",
                json!({"title": t, "icon": i, "body": b.iter().map(|p| json!({"body": inls(p)})).collect::<Vec<_>>()}),
            ),
            Blk::Break => ("ThematicBreak", json!({})),
            Blk::Embed(k, a) => ("Embed", json!({"kind": k, "args": a})),
            Blk::Coll(t, b) => ("Collapsible", json!({"title": t, "body": b.iter().map(blk).collect::<Vec<_>>()})),
        };
        json!({"type": t, "value": v})
    }
    pub fn doc(d: &Doc) -> Value {
        json!({"metadata": d.meta, "body": d.body.iter().map(blk).collect::<Vec<_>>()})
    }
    pub fn content(c: &Content) -> Value {
        match c {
            Content::Span(r) => json!({"type": "Span", "value": {"start": r.start, "end": r.end}}),
            Content::Materialized(s) => json!({"type": "Materialized", "value": s}),
        }
    }
    pub fn op(o: &yamd::op::Op) -> Value {
        use yamd::op::OpKind;
        let kind = match &o.kind {
            OpKind::Start(n) => json!({"type": "Start", "value": format!("{n:?}")}),
            OpKind::End(n) => json!({"type": "End", "value": format!("{n:?}")}),
            OpKind::Value => json!({"type": "Value"}),
        };
        json!({"kind": kind, "content": content(&o.content)})
    }
}

/// Reads JSON without the reader's own limit of 128 levels, which is not this crate's.
fn from_json<T: serde::de::DeserializeOwned>(text: &str) -> Result<T, serde_json::Error> {
    let mut r = serde_json::Deserializer::from_str(text);
    r.disable_recursion_limit();
    let v = T::deserialize(&mut r)?;
    r.end()?;
    Ok(v)
}

/// Events built by hand: every role and node, spans of any numbers, owned texts.
const EVENTS: &str = "\u{1}events\u{1}";

const SPANS: &[(usize, usize)] = &[
    (0, 0), (0, 1), (1, 1), (5, 5), (3, 7), (7, 3), (255, 256), (65_535, 65_536), (1 << 32, (1 << 32) + 1),
    (usize::MAX, usize::MAX), (0, usize::MAX), ((1 << 53) + 1, 1 << 54), (i64::MAX as usize, i64::MAX as usize + 1),
];

fn gen_events(c: &mut Chooser) -> Vec<yamd::op::Op> {
    use yamd::op::{Op, OpKind};
    let texts: &[&str] = if c.size > 1 { &["", "a"] } else { LOOKS };
    let spans: &[(usize, usize)] = if c.size > 1 { &SPANS[..4] } else { SPANS };
    (0..c.size)
        .map(|_| {
            let n = events::NODES.len();
            let kind = match c.pick(2 * n + 1) {
                0 => OpKind::Value,
                k if k <= n => OpKind::Start(events::NODES[k - 1]()),
                k => OpKind::End(events::NODES[k - 1 - n]()),
            };
            let content = match c.pick(spans.len() + texts.len()) {
                k if k < spans.len() => Content::Span(spans[k].0..spans[k].1),
                k => Content::Materialized(texts[k - spans.len()].to_owned()),
            };
            Op { kind, content }
        })
        .collect()
}

fn gen_events_program(c: &mut Chooser) {
    gen_events(c);
}

fn event_spaces(thorough: bool) -> Spaces {
    let v: Spaces = vec![
        Box::new(Choices::new("events built by hand", gen_events_program, 1)),
        Box::new(Choices::new("events built by hand", gen_events_program, 2)),
        words_in("owned texts", "t", "", FULL, 2 + thorough as usize),
        words_in("owned texts", "t", "", LOOKS, 1 + thorough as usize),
        Box::new(Scalars { templates: vec!["t\u{1}"] }),
    ];
    v.into_iter().map(|s| Box::new(Prefixed(EVENTS, s)) as Box<dyn Space>).collect()
}

fn serde_events(case: &str, st: &mut Stats) -> Res {
    let ops = match case.strip_prefix('t') {
        Some(t) => vec![yamd::op::Op { kind: yamd::op::OpKind::Value, content: Content::Materialized(t.to_owned()) }],
        None => replay(case, gen_events),
    };
    let text = imp::enter(|| serde_json::to_string(&ops)).map_err(|e| format!("events not serialized: {e}"))?;
    let back: Vec<yamd::op::Op> = imp::enter(|| from_json(&text)).map_err(|e| format!("{text} is not read back: {e}"))?;
    if back != ops {
        return Err(format!("{text} is read back as {back:?}"));
    }
    let value: serde_json::Value = from_json(&text).map_err(|e| format!("no JSON: {e}"))?;
    differ("JSON of the events", &serde_json::Value::from(ops.iter().map(json::op).collect::<Vec<_>>()), &value)?;
    let back: Vec<yamd::op::Op> =
        imp::enter(|| serde_json::from_value(value)).map_err(|e| format!("{text} is not read back: {e}"))?;
    if back != ops {
        return Err(format!("{text} is read back as {back:?}"));
    }
    st.case(hash(&text.split('"').filter(|p| p.len() < 20).collect::<Vec<_>>()), ops.len());
    Ok(())
}

fn serde_forms(s: &str, st: &mut Stats) -> Res {
    if let Some(case) = s.strip_prefix(EVENTS) {
        return serde_events(case, st);
    }
    if let Some(case) = s.strip_prefix(BENT) {
        return bent(case, st);
    }
    let tree_case = s.strip_prefix(TREE);
    let (y, d) = match tree_case {
        Some(case) => {
            // what the constructors trim is not there to be written
            let y = tree::to_doc(&tree_of(case));
            let d = tree::doc(&y);
            (y, d)
        }
        None => {
            let y = imp::tree(s);
            let d = tree::doc(&y);
            (y, d)
        }
    };
    let text = imp::enter(|| serde_json::to_string(&y)).map_err(|e| format!("not serialized: {e}"))?;
    let back: yamd::Yamd =
        imp::enter(|| from_json(&text)).map_err(|e| format!("{text} is not read back: {e}"))?;
    if back != y {
        return Err(format!("{text} is read back as {back:?}"));
    }
    let value: serde_json::Value = from_json(&text).map_err(|e| format!("no JSON: {e}"))?;
    differ("JSON of the document", &json::doc(&d), &value)?;
    // through a value instead of text: nothing depends on the order or the borrowing of the input
    let back: yamd::Yamd =
        imp::enter(|| serde_json::from_value(value)).map_err(|e| format!("{text} is not read back: {e}"))?;
    if back != y {
        return Err(format!("{text} is read back as {back:?}"));
    }
    if tree_case.is_some() {
        saw(st, &d);
        return Ok(());
    }
    let ops = imp::ops(s);
    let v = imp::enter(|| serde_json::to_value(&ops)).map_err(|e| format!("events not serialized: {e}"))?;
    differ("JSON of the events", &serde_json::Value::from(ops.iter().map(json::op).collect::<Vec<_>>()), &v)?;
    let back: Vec<yamd::op::Op> =
        imp::enter(|| serde_json::from_value(v)).map_err(|e| format!("events not read back: {e}"))?;
    if back != ops {
        return Err(format!("events are read back as {back:?}"));
    }
    saw(st, &d);
    Ok(())
}

// ---- C22 --------------------------------------------------------------------------------------------

/// A document appended to another after an empty line reads like the two one after the other.
fn append(case: &str, st: &mut Stats) -> Res {
    if let Some(case) = case.strip_prefix(TREE) {
        return append_to_tree(&tree_of(case), st);
    }
    let (a, b) = case.split_once('\u{1}').expect("two parts");
    if b.starts_with("---") || a.contains('\u{1}') {
        st.skip();
        return Ok(());
    }
    let da = imp::tree(a);
    let first = imp::print(&da);
    if first.is_empty() || first.ends_with(['\n', '\r']) || b.starts_with(['\n', '\r']) {
        st.skip();
        return Ok(());
    }
    let da = tree::doc(&da);
    let db = tree::doc(&imp::tree(b));
    let joined = format!("{first}\n\n{b}");
    let got = tree::doc(&imp::tree(&joined));
    let mut want = da.clone();
    want.body.extend(db.body);
    differ(&format!("{joined:?}"), &want, &got)?;
    saw(st, &want);
    Ok(())
}

/// The same for a document built by hand and a few texts behind it.
fn append_to_tree(d: &Doc, st: &mut Stats) -> Res {
    let first = imp::print(&tree::to_doc(d));
    if !in_domain(d) || first.is_empty() || first.ends_with(['\n', '\r']) {
        st.skip();
        return Ok(());
    }
    for b in ["b", "- b\n - c", "!!\nb\n!!", "%}", "```\nb\n```", "b) ](u) * ** _ ~~ ` }} | %} c", "# b", "![a](b)", "-----"] {
        let joined = format!("{first}\n\n{b}");
        let mut want = d.clone();
        want.body.extend(tree::doc(&imp::tree(b)).body);
        differ(&format!("{joined:?}"), &want, &tree::doc(&imp::tree(&joined)))?;
    }
    saw(st, d);
    Ok(())
}

fn append_spaces(thorough: bool) -> Spaces {
    let mut v: Spaces = more_trees(thorough, false);
    let many = |b: &str, n: usize| vec![b; n].join("\n\n");
    v.push(Box::new(Fixed {
        label: "many blocks appended to many".into(),
        cases: BLOCKS
            .iter()
            .chain(RICH)
            .chain(&["a\\\n", "- a\\\n", "\\- a", "*a\\\n*", "x\\\r\n", "!!\na\\\n\n!!", "```\na\\\n```"])
            .flat_map(|b| {
                [3, 5, 9, 17, 33, 50, 65].iter().flat_map(move |&n| {
                    [
                        format!("{}\u{1}{}", many(b, n), "b"),
                        format!("{}\u{1}{}", many(b, n), many(b, n)),
                        format!("{}\n\nz\u{1}b", many(b, n)),
                        format!("a\u{1}{}", many(b, n)),
                        format!("{{% t\n{}\n%}}\u{1}{b}", many(b, n)),
                    ]
                })
            })
            .collect(),
    }));
    for b in BLOCKS.iter().chain(RICH) {
        v.push(words_in("appended to a block", &format!("{b}\u{1}"), "", FULL, if thorough { 4 } else { 3 }));
        v.push(words_in("put before a block", "", &format!("\u{1}{b}"), FULL, if thorough { 4 } else { 3 }));
        v.push(words_in("lines appended", &format!("{b}\u{1}"), "", LINES, if thorough { 5 } else { 4 }));
        v.push(words_in("lines put before", "", &format!("\u{1}{b}"), LINES, if thorough { 5 } else { 4 }));
    }
    v
}

include!("props_tree.rs");
include!("props_ops.rs");
include!("props_list.rs");
include!("props_random.rs");
include!("props_build.rs");
include!("props_plain.rs");
include!("props_json.rs");
