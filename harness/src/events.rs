//! The event stream as a tree, and the harness's own reading of it.

use crate::tree::*;
use yamd::op::{Content, Node, Op, OpKind};

pub struct Ev<'a> {
    pub node: &'a Node,
    pub start: &'a Content,
    pub end: &'a Content,
    pub kids: Vec<Kid<'a>>,
}

pub enum Kid<'a> {
    Val(&'a Content),
    Node(Ev<'a>),
}

/// Nests the stream; an error if it is not balanced.
pub fn nest(ops: &[Op]) -> Result<Vec<Kid<'_>>, String> {
    let mut stack: Vec<(&Node, &Content, Vec<Kid>)> = vec![];
    let mut top: Vec<Kid> = vec![];
    for (i, op) in ops.iter().enumerate() {
        match &op.kind {
            OpKind::Start(n) => stack.push((n, &op.content, vec![])),
            OpKind::Value => match stack.last_mut() {
                Some(s) => s.2.push(Kid::Val(&op.content)),
                None => top.push(Kid::Val(&op.content)),
            },
            OpKind::End(n) => {
                let (node, start, kids) = stack
                    .pop()
                    .ok_or_else(|| format!("event {i} ends {n:?}, nothing is open"))?;
                if node != n {
                    return Err(format!("event {i} ends {n:?}, {node:?} is open"));
                }
                let kid = Kid::Node(Ev {
                    node,
                    start,
                    end: &op.content,
                    kids,
                });
                match stack.last_mut() {
                    Some(s) => s.2.push(kid),
                    None => top.push(kid),
                }
            }
        }
    }
    match stack.last() {
        None => Ok(top),
        Some(s) => Err(format!("{:?} is never ended", s.0)),
    }
}

pub struct Reader<'a> {
    pub src: &'a str,
}

impl<'a> Reader<'a> {
    pub fn text(&self, c: &Content) -> String {
        match c {
            Content::Span(r) if r.is_empty() => String::new(),
            Content::Span(r) => self.src[r.clone()].to_owned(),
            Content::Materialized(s) => s.clone(),
        }
    }
    fn values(&self, e: &Ev) -> String {
        e.kids
            .iter()
            .map(|k| match k {
                Kid::Val(c) => self.text(c),
                Kid::Node(_) => String::new(),
            })
            .collect()
    }
    fn child(&self, e: &Ev, n: Node) -> Option<String> {
        e.kids.iter().find_map(|k| match k {
            Kid::Node(c) if *c.node == n => Some(self.values(c)),
            _ => None,
        })
    }
    fn inline(&self, e: &Ev) -> Vec<Inl> {
        e.kids
            .iter()
            .map(|k| match k {
                Kid::Val(c) => Inl::Text(self.text(c)),
                Kid::Node(c) => match c.node {
                    Node::Bold => Inl::Bold(self.inline(c)),
                    Node::Italic => Inl::Italic(self.values(c)),
                    Node::Strikethrough => Inl::Strike(self.values(c)),
                    Node::CodeSpan => Inl::Code(self.values(c)),
                    Node::Emphasis => Inl::Emph(self.values(c)),
                    Node::Anchor => {
                        let (t, u) = self.link(c);
                        Inl::Anchor(t, u)
                    }
                    n => Inl::Text(format!("<{n:?}>")),
                },
            })
            .collect()
    }
    fn link(&self, e: &Ev) -> (String, String) {
        (
            self.child(e, Node::Title).unwrap_or_default(),
            self.child(e, Node::Destination).unwrap_or_default(),
        )
    }
    fn trimmed(&self, e: &Ev) -> Vec<Inl> {
        let mut v = self.inline(e);
        if let Some(Inl::Text(t)) = v.last_mut() {
            let n = t.trim_end_matches(['\r', '\n']).len();
            t.truncate(n);
            if n == 0 {
                v.pop();
            }
        }
        v
    }
    fn list(&self, e: &Ev, level: usize) -> ListT {
        let mut items = vec![];
        for k in &e.kids {
            let Kid::Node(i) = k else { continue };
            let mut item = Item {
                text: vec![],
                nested: None,
            };
            for k in &i.kids {
                if let Kid::Node(c) = k {
                    match c.node {
                        Node::Paragraph => item.text = self.trimmed(c),
                        _ => item.nested = Some(Box::new(self.list(c, level + 1))),
                    }
                }
            }
            items.push(item);
        }
        ListT {
            ordered: *e.node == Node::OrderedList,
            level,
            items,
        }
    }
    fn block(&self, e: &Ev) -> Option<Blk> {
        Some(match e.node {
            Node::Paragraph => Blk::Para(self.inline(e)),
            Node::Heading => Blk::Head(
                self.text(e.start).chars().filter(|c| *c == '#').count() as u8,
                self.inline(e),
            ),
            Node::Image => {
                let (a, s) = self.link(e);
                Blk::Image(a, s)
            }
            Node::Images => Blk::Images(
                e.kids
                    .iter()
                    .filter_map(|k| match k {
                        Kid::Node(i) => Some(self.link(i)),
                        Kid::Val(_) => None,
                    })
                    .collect(),
            ),
            Node::Code => Blk::Code(
                self.child(e, Node::Modifier).unwrap_or_default(),
                self.values(e).trim_end_matches(['\r', '\n']).to_owned(),
            ),
            Node::OrderedList | Node::UnorderedList => Blk::List(self.list(e, 0)),
            Node::Highlight => Blk::High(
                self.child(e, Node::Modifier),
                self.child(e, Node::Icon),
                e.kids
                    .iter()
                    .filter_map(|k| match k {
                        Kid::Node(p) if *p.node == Node::Paragraph => Some(self.trimmed(p)),
                        _ => None,
                    })
                    .filter(|p| !p.is_empty())
                    .collect(),
            ),
            Node::ThematicBreak => Blk::Break,
            Node::Embed => {
                let v: Vec<String> = e
                    .kids
                    .iter()
                    .filter_map(|k| match k {
                        Kid::Val(c) => Some(self.text(c)),
                        Kid::Node(_) => None,
                    })
                    .collect();
                Blk::Embed(
                    v.first().cloned().unwrap_or_default(),
                    v.get(2).cloned().unwrap_or_default(),
                )
            }
            Node::Collapsible => Blk::Coll(
                self.child(e, Node::Modifier).unwrap_or_default(),
                e.kids
                    .iter()
                    .filter_map(|k| match k {
                        Kid::Node(d) if *d.node == Node::Document => Some(self.blocks(d)),
                        _ => None,
                    })
                    .flatten()
                    .collect(),
            ),
            _ => return None,
        })
    }
    fn blocks(&self, e: &Ev) -> Vec<Blk> {
        e.kids
            .iter()
            .filter_map(|k| match k {
                Kid::Node(b) => self.block(b),
                Kid::Val(_) => None,
            })
            .collect()
    }
    /// The document the stream stands for.
    pub fn doc(&self, top: &[Kid]) -> Doc {
        let mut d = Doc {
            meta: None,
            body: vec![],
        };
        for k in top {
            if let Kid::Node(e) = k {
                match e.node {
                    Node::Metadata => {
                        d.meta = Some(self.values(e).trim_matches(['\r', '\n']).to_owned())
                    }
                    Node::Document => d.body.extend(self.blocks(e)),
                    _ => {}
                }
            }
        }
        d
    }
}

/// What a stream says about its markers: every Start and End carries exactly the text that opens or closes the
/// node, every node contains what its kind may contain.
pub struct Grammar<'a> {
    pub r: Reader<'a>,
}

fn is_break(s: &str) -> bool {
    s == "\n" || s == "\r\n"
}
fn is_terminator(s: &str) -> bool {
    matches!(s, "\n\n" | "\r\n\n" | "\n\r\n" | "\r\n\r\n")
}
/// `m`, with or without a line break after it
fn opt_break(s: &str, m: &str) -> bool {
    s.strip_prefix(m).is_some_and(|r| r.is_empty() || is_break(r))
}

type Res = Result<(), String>;

impl Grammar<'_> {
    fn both(&self, e: &Ev, start: &str, end: &str) -> Res {
        let (s, n) = (self.r.text(e.start), self.r.text(e.end));
        if s == start && n == end {
            Ok(())
        } else {
            Err(format!("{:?} opened by {s:?} and closed by {n:?}", e.node))
        }
    }
    fn must(&self, e: &Ev, ok: bool, what: &str) -> Res {
        if ok {
            Ok(())
        } else {
            let kids: Vec<String> = e
                .kids
                .iter()
                .map(|k| match k {
                    Kid::Val(c) => format!("{:?}", self.r.text(c)),
                    Kid::Node(n) => format!("{:?}", n.node),
                })
                .collect();
            Err(format!(
                "{:?} {:?}..{:?} with {kids:?}: {what}",
                e.node,
                self.r.text(e.start),
                self.r.text(e.end)
            ))
        }
    }
    /// exactly one value and nothing else
    fn leaf(&self, e: &Ev) -> Res {
        self.must(
            e,
            matches!(e.kids.as_slice(), [Kid::Val(_)]),
            "one value is expected",
        )
    }
    fn node<'b>(&self, e: &Ev, k: Option<&'b Kid<'b>>, n: Node) -> Result<&'b Ev<'b>, String> {
        match k {
            Some(Kid::Node(c)) if *c.node == n => Ok(c),
            _ => {
                self.must(e, false, &format!("{n:?} is expected"))?;
                unreachable!()
            }
        }
    }
    /// Values never touch and are never empty between other nodes.
    fn mixed(&self, e: &Ev, f: &dyn Fn(&Ev) -> Res) -> Res {
        let mut after_value = false;
        for k in &e.kids {
            match k {
                Kid::Val(c) => {
                    self.must(e, !self.r.text(c).is_empty(), "an empty value")?;
                    self.must(e, !after_value, "two values in a row")?;
                    after_value = true;
                }
                Kid::Node(n) => {
                    after_value = false;
                    f(n)?;
                }
            }
        }
        Ok(())
    }
    fn simple(&self, e: &Ev, m: &str) -> Res {
        self.both(e, m, m)?;
        self.leaf(e)
    }
    fn link(&self, e: &Ev) -> Res {
        self.must(e, e.kids.len() == 2, "a title and a destination are expected")?;
        let t = self.node(e, e.kids.first(), Node::Title)?;
        self.both(t, "[", "]")?;
        self.leaf(t)?;
        let d = self.node(e, e.kids.get(1), Node::Destination)?;
        self.both(d, "(", ")")?;
        self.leaf(d)
    }
    fn anchor(&self, e: &Ev) -> Res {
        self.both(e, "", "")?;
        self.link(e)
    }
    fn inline(&self, e: &Ev) -> Res {
        match e.node {
            Node::Anchor => self.anchor(e),
            Node::Bold => {
                self.both(e, "**", "**")?;
                self.mixed(e, &|c| match c.node {
                    Node::Italic | Node::Strikethrough => self.inline(c),
                    _ => self.must(c, false, "inside bold"),
                })
            }
            Node::Italic => self.simple(e, "_"),
            Node::Strikethrough => self.simple(e, "~~"),
            Node::CodeSpan => self.simple(e, "`"),
            Node::Emphasis => self.simple(e, "*"),
            _ => self.must(e, false, "inside a paragraph"),
        }
    }
    fn paragraph(&self, e: &Ev) -> Res {
        self.both(e, "", "")?;
        self.mixed(e, &|c| self.inline(c))
    }
    fn modifier(&self, e: &Ev) -> Res {
        self.must(e, self.r.text(e.start).is_empty(), "a marker before it")?;
        let end = self.r.text(e.end);
        self.must(e, is_break(&end) || is_terminator(&end), "not ended by a line break")?;
        self.leaf(e)
    }
    fn list(&self, e: &Ev, level: usize) -> Res {
        self.both(e, "", "")?;
        self.must(e, !e.kids.is_empty(), "an empty list")?;
        let marker = if *e.node == Node::OrderedList { "+" } else { "-" };
        let marker = format!("{}{marker} ", " ".repeat(level));
        for k in &e.kids {
            let i = self.node(e, Some(k), Node::ListItem)?;
            self.both(i, &marker, "")?;
            self.must(i, (1..=2).contains(&i.kids.len()), "text and maybe a list are expected")?;
            self.paragraph(self.node(i, i.kids.first(), Node::Paragraph)?)?;
            if let Some(k) = i.kids.get(1) {
                match k {
                    Kid::Node(l) if matches!(l.node, Node::OrderedList | Node::UnorderedList) => {
                        self.list(l, level + 1)?
                    }
                    _ => self.must(i, false, "a list is expected")?,
                }
            }
        }
        Ok(())
    }
    fn block(&self, e: &Ev) -> Res {
        let (start, end) = (self.r.text(e.start), self.r.text(e.end));
        match e.node {
            Node::Paragraph => {
                self.paragraph(e)?;
                self.must(e, !e.kids.is_empty(), "an empty paragraph")
            }
            Node::Heading => {
                let hashes = start.strip_suffix(' ').unwrap_or("");
                self.must(
                    e,
                    (1..=6).contains(&hashes.len()) && hashes.chars().all(|c| c == '#') && end.is_empty(),
                    "not a heading",
                )?;
                self.mixed(e, &|c| match c.node {
                    Node::Anchor => self.anchor(c),
                    _ => self.must(c, false, "inside a heading"),
                })
            }
            Node::Image => {
                self.must(e, start == "!" && (end.is_empty() || is_break(&end)), "not an image")?;
                self.link(e)
            }
            Node::Images => {
                self.both(e, "", "")?;
                self.must(e, e.kids.len() >= 2, "fewer than two images")?;
                for k in &e.kids {
                    self.block(self.node(e, Some(k), Node::Image)?)?;
                }
                Ok(())
            }
            Node::Code => {
                self.must(e, opt_break(&start, "```") && opt_break(&end, "```"), "not a code block")?;
                let mut kids = e.kids.iter();
                // a fence followed by a line break has no language
                if let (Some(Kid::Node(m)), true) = (e.kids.first(), start == "```") {
                    self.must(m, *m.node == Node::Modifier, "a language is expected")?;
                    self.modifier(m)?;
                    kids.next();
                } else {
                    self.must(e, start != "```", "a language is expected")?;
                }
                self.must(e, matches!(kids.next(), Some(Kid::Val(_))), "code is expected")?;
                self.must(e, kids.next().is_none(), "more than the code")
            }
            Node::OrderedList | Node::UnorderedList => self.list(e, 0),
            Node::Highlight => {
                let titled = start == "!! ";
                self.must(
                    e,
                    (titled || opt_break(&start, "!!") && start != "!!") && opt_break(&end, "!!"),
                    "not a highlight",
                )?;
                let mut kids = e.kids.iter().peekable();
                if titled {
                    self.modifier(self.node(e, kids.next(), Node::Modifier)?)?;
                }
                if let Some(Kid::Node(i)) = kids.peek() {
                    if *i.node == Node::Icon {
                        let (s, n) = (self.r.text(i.start), self.r.text(i.end));
                        self.must(i, s == "! " && is_break(&n), "not an icon")?;
                        self.leaf(i)?;
                        kids.next();
                    }
                }
                for k in kids {
                    match k {
                        Kid::Val(v) => {
                            self.must(e, is_terminator(&self.r.text(v)), "text between paragraphs")?
                        }
                        Kid::Node(_) => self.paragraph(self.node(e, Some(k), Node::Paragraph)?)?,
                    }
                }
                Ok(())
            }
            Node::ThematicBreak => {
                self.both(e, "", "")?;
                self.leaf(e)?;
                self.must(e, self.r.values(e) == "-----", "not five dashes")
            }
            Node::Embed => {
                self.must(e, start == "{{" && opt_break(&end, "}}"), "not an embed")?;
                match e.kids.as_slice() {
                    [Kid::Val(_), Kid::Val(p), Kid::Val(_)] => {
                        self.must(e, self.r.text(p) == "|", "not separated by a pipe")
                    }
                    _ => self.must(e, false, "a kind and arguments are expected"),
                }
            }
            Node::Collapsible => {
                let rest = start.strip_prefix("{%").unwrap_or("");
                let titled = !rest.is_empty() && rest.chars().all(|c| c == ' ');
                self.must(e, (titled || is_break(rest)) && opt_break(&end, "%}"), "not a collapsible")?;
                let mut kids = e.kids.iter();
                if titled {
                    self.modifier(self.node(e, kids.next(), Node::Modifier)?)?;
                }
                self.document(self.node(e, kids.next(), Node::Document)?)?;
                self.must(e, kids.next().is_none(), "more than a document")
            }
            _ => self.must(e, false, "inside a document"),
        }
    }
    fn document(&self, e: &Ev) -> Res {
        self.both(e, "", "")?;
        for k in &e.kids {
            match k {
                Kid::Val(v) => {
                    self.must(e, is_terminator(&self.r.text(v)), "text outside a block")?
                }
                Kid::Node(b) => self.block(b)?,
            }
        }
        Ok(())
    }
    pub fn check(&self, top: &[Kid]) -> Res {
        let docs = match top {
            [Kid::Node(m), rest @ ..] if *m.node == Node::Metadata => {
                self.both(m, "---", "---")?;
                self.leaf(m)?;
                rest
            }
            _ => top,
        };
        match docs {
            [Kid::Node(d)] if *d.node == Node::Document => self.document(d),
            _ => Err("the stream is not one document after optional metadata".into()),
        }
    }
}

/// A fingerprint of the stream without its text.
pub fn shape(ops: &[Op]) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = crate::run::H::default();
    for o in ops {
        match &o.kind {
            OpKind::Start(n) => {
                h.write_u8(1);
                std::mem::discriminant(n).hash(&mut h)
            }
            OpKind::End(n) => {
                h.write_u8(2);
                std::mem::discriminant(n).hash(&mut h)
            }
            OpKind::Value => h.write_u8(3),
        }
    }
    h.finish()
}

pub const NODES: &[fn() -> Node] = &[
    || Node::Anchor,
    || Node::Bold,
    || Node::Code,
    || Node::CodeSpan,
    || Node::Collapsible,
    || Node::Destination,
    || Node::Document,
    || Node::Embed,
    || Node::Emphasis,
    || Node::Heading,
    || Node::Highlight,
    || Node::Icon,
    || Node::Image,
    || Node::Images,
    || Node::Italic,
    || Node::ListItem,
    || Node::Modifier,
    || Node::Metadata,
    || Node::OrderedList,
    || Node::Paragraph,
    || Node::Strikethrough,
    || Node::ThematicBreak,
    || Node::Title,
    || Node::UnorderedList,
];
