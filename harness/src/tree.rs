//! The harness's own document tree, independent of the traits derived on the code's node types.

use yamd::nodes as n;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Inl {
    Text(String),
    Bold(Vec<Inl>),
    Italic(String),
    Strike(String),
    Code(String),
    Emph(String),
    Anchor(String, String),
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Item {
    pub text: Vec<Inl>,
    pub nested: Option<Box<ListT>>,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct ListT {
    pub ordered: bool,
    pub level: usize,
    pub items: Vec<Item>,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Blk {
    Para(Vec<Inl>),
    Head(u8, Vec<Inl>),
    Image(String, String),
    Images(Vec<(String, String)>),
    Code(String, String),
    List(ListT),
    High(Option<String>, Option<String>, Vec<Vec<Inl>>),
    Break,
    Embed(String, String),
    Coll(String, Vec<Blk>),
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Doc {
    pub meta: Option<String>,
    pub body: Vec<Blk>,
}

// ---- from the code's types -------------------------------------------------------------------

fn bold_nodes(v: &[n::BoldNodes]) -> Vec<Inl> {
    v.iter()
        .map(|b| match b {
            n::BoldNodes::Text(t) => Inl::Text(t.clone()),
            n::BoldNodes::Italic(i) => Inl::Italic(i.0.clone()),
            n::BoldNodes::Strikethrough(i) => Inl::Strike(i.0.clone()),
        })
        .collect()
}

fn par_nodes(v: &[n::ParagraphNodes]) -> Vec<Inl> {
    use n::ParagraphNodes as P;
    v.iter()
        .map(|p| match p {
            P::Text(t) => Inl::Text(t.clone()),
            P::Anchor(a) => Inl::Anchor(a.text.clone(), a.url.clone()),
            P::Bold(b) => Inl::Bold(bold_nodes(&b.body)),
            P::Italic(i) => Inl::Italic(i.0.clone()),
            P::Strikethrough(i) => Inl::Strike(i.0.clone()),
            P::CodeSpan(i) => Inl::Code(i.0.clone()),
            P::Emphasis(i) => Inl::Emph(i.0.clone()),
        })
        .collect()
}

fn list(l: &n::List) -> ListT {
    ListT {
        ordered: matches!(l.list_type, n::ListTypes::Ordered),
        level: l.level,
        items: l
            .body
            .iter()
            .map(|i| Item {
                text: par_nodes(&i.text),
                nested: i.nested_list.as_ref().map(|l| Box::new(list(l))),
            })
            .collect(),
    }
}

pub fn blocks(v: &[n::YamdNodes]) -> Vec<Blk> {
    use n::YamdNodes as Y;
    v.iter()
        .map(|b| match b {
            Y::Paragraph(p) => Blk::Para(par_nodes(&p.body)),
            Y::Heading(h) => Blk::Head(
                h.level,
                h.body
                    .iter()
                    .map(|x| match x {
                        n::HeadingNodes::Text(t) => Inl::Text(t.clone()),
                        n::HeadingNodes::Anchor(a) => Inl::Anchor(a.text.clone(), a.url.clone()),
                    })
                    .collect(),
            ),
            Y::Image(i) => Blk::Image(i.alt.clone(), i.src.clone()),
            Y::Images(i) => Blk::Images(
                i.body
                    .iter()
                    .map(|i| (i.alt.clone(), i.src.clone()))
                    .collect(),
            ),
            Y::Code(c) => Blk::Code(c.lang.clone(), c.code.clone()),
            Y::List(l) => Blk::List(list(l)),
            Y::Highlight(h) => Blk::High(
                h.title.clone(),
                h.icon.clone(),
                h.body.iter().map(|p| par_nodes(&p.body)).collect(),
            ),
            Y::ThematicBreak(_) => Blk::Break,
            Y::Embed(e) => Blk::Embed(e.kind.clone(), e.args.clone()),
            Y::Collapsible(c) => Blk::Coll(c.title.clone(), blocks(&c.body)),
        })
        .collect()
}

pub fn doc(y: &yamd::Yamd) -> Doc {
    Doc {
        meta: y.metadata.clone(),
        body: blocks(&y.body),
    }
}

// ---- to the code's types ---------------------------------------------------------------------

fn to_bold(v: &[Inl]) -> Vec<n::BoldNodes> {
    v.iter()
        .map(|i| match i {
            Inl::Text(t) => n::BoldNodes::Text(t.clone()),
            Inl::Italic(t) => n::BoldNodes::Italic(n::Italic::new(t.clone())),
            Inl::Strike(t) => n::BoldNodes::Strikethrough(n::Strikethrough::new(t.clone())),
            x => unreachable!("{x:?} in bold"),
        })
        .collect()
}

pub fn to_inline(v: &[Inl]) -> Vec<n::ParagraphNodes> {
    use n::ParagraphNodes as P;
    v.iter()
        .map(|i| match i {
            Inl::Text(t) => P::Text(t.clone()),
            Inl::Bold(b) => P::Bold(n::Bold::new(to_bold(b))),
            Inl::Italic(t) => P::Italic(n::Italic::new(t.clone())),
            Inl::Strike(t) => P::Strikethrough(n::Strikethrough::new(t.clone())),
            Inl::Code(t) => P::CodeSpan(n::CodeSpan::new(t.clone())),
            Inl::Emph(t) => P::Emphasis(n::Emphasis::new(t.clone())),
            Inl::Anchor(t, u) => P::Anchor(n::Anchor::new(t.clone(), u.clone())),
        })
        .collect()
}

pub fn to_list(l: &ListT) -> n::List {
    n::List::new(
        if l.ordered {
            n::ListTypes::Ordered
        } else {
            n::ListTypes::Unordered
        },
        l.level,
        l.items
            .iter()
            .map(|i| n::ListItem::new(to_inline(&i.text), i.nested.as_ref().map(|l| to_list(l))))
            .collect(),
    )
}

pub fn to_block(b: &Blk) -> n::YamdNodes {
    match b {
        Blk::Para(p) => n::Paragraph::new(to_inline(p)).into(),
        Blk::Head(l, b) => n::Heading::new(
            *l,
            b.iter()
                .map(|i| match i {
                    Inl::Text(t) => n::HeadingNodes::Text(t.clone()),
                    Inl::Anchor(t, u) => {
                        n::HeadingNodes::Anchor(n::Anchor::new(t.clone(), u.clone()))
                    }
                    x => unreachable!("{x:?} in heading"),
                })
                .collect(),
        )
        .into(),
        Blk::Image(a, s) => n::Image::new(a.clone(), s.clone()).into(),
        Blk::Images(v) => n::Images::new(
            v.iter()
                .map(|(a, s)| n::Image::new(a.clone(), s.clone()))
                .collect(),
        )
        .into(),
        Blk::Code(l, c) => n::Code::new(l.clone(), c.clone()).into(),
        Blk::List(l) => to_list(l).into(),
        Blk::High(t, i, b) => n::Highlight::new(
            t.clone(),
            i.clone(),
            b.iter().map(|p| n::Paragraph::new(to_inline(p))).collect(),
        )
        .into(),
        Blk::Break => n::ThematicBreak::new().into(),
        Blk::Embed(k, a) => n::Embed::new(k.clone(), a.clone()).into(),
        Blk::Coll(t, b) => {
            n::Collapsible::new(t.clone(), b.iter().map(to_block).collect()).into()
        }
    }
}

pub fn to_doc(d: &Doc) -> yamd::Yamd {
    yamd::Yamd::new(d.meta.clone(), d.body.iter().map(to_block).collect())
}

// ---- traversal -------------------------------------------------------------------------------

impl Doc {
    /// Rewrites every string of the tree.
    pub fn map(&self, f: &dyn Fn(&str) -> String) -> Doc {
        Doc {
            meta: self.meta.as_deref().map(f),
            body: map_blocks(&self.body, f),
        }
    }
}

impl Doc {
    /// The document as reading keeps it: without line breaks at the edges reading trims.
    pub fn trimmed(self) -> Doc {
        Doc {
            meta: self.meta.map(|m| m.trim_matches(['\r', '\n']).to_owned()),
            body: trim_blocks(self.body),
        }
    }
}

fn trim_inl(mut v: Vec<Inl>) -> Vec<Inl> {
    if let Some(Inl::Text(t)) = v.last_mut() {
        t.truncate(t.trim_end_matches(['\r', '\n']).len());
        if t.is_empty() {
            v.pop();
        }
    }
    v
}

fn trim_list(l: ListT) -> ListT {
    let items = l.items.into_iter().map(|i| Item {
        text: trim_inl(i.text),
        nested: i.nested.map(|l| Box::new(trim_list(*l))),
    });
    ListT { items: items.collect(), ..l }
}

fn trim_blocks(v: Vec<Blk>) -> Vec<Blk> {
    v.into_iter()
        .map(|b| match b {
            Blk::Code(l, c) => Blk::Code(l, c.trim_end_matches(['\r', '\n']).to_owned()),
            Blk::List(l) => Blk::List(trim_list(l)),
            Blk::High(t, i, b) => Blk::High(t, i, b.into_iter().map(trim_inl).filter(|p| !p.is_empty()).collect()),
            Blk::Coll(t, b) => Blk::Coll(t, trim_blocks(b)),
            b => b,
        })
        .collect()
}

fn map_inl(v: &[Inl], f: &dyn Fn(&str) -> String) -> Vec<Inl> {
    v.iter()
        .map(|i| match i {
            Inl::Text(t) => Inl::Text(f(t)),
            Inl::Bold(b) => Inl::Bold(map_inl(b, f)),
            Inl::Italic(t) => Inl::Italic(f(t)),
            Inl::Strike(t) => Inl::Strike(f(t)),
            Inl::Code(t) => Inl::Code(f(t)),
            Inl::Emph(t) => Inl::Emph(f(t)),
            Inl::Anchor(t, u) => Inl::Anchor(f(t), f(u)),
        })
        .collect()
}

fn map_list(l: &ListT, f: &dyn Fn(&str) -> String) -> ListT {
    ListT {
        ordered: l.ordered,
        level: l.level,
        items: l
            .items
            .iter()
            .map(|i| Item {
                text: map_inl(&i.text, f),
                nested: i.nested.as_ref().map(|l| Box::new(map_list(l, f))),
            })
            .collect(),
    }
}

pub fn map_blocks(v: &[Blk], f: &dyn Fn(&str) -> String) -> Vec<Blk> {
    v.iter()
        .map(|b| match b {
            Blk::Para(p) => Blk::Para(map_inl(p, f)),
            Blk::Head(l, p) => Blk::Head(*l, map_inl(p, f)),
            Blk::Image(a, s) => Blk::Image(f(a), f(s)),
            Blk::Images(v) => Blk::Images(v.iter().map(|(a, s)| (f(a), f(s))).collect()),
            Blk::Code(l, c) => Blk::Code(f(l), f(c)),
            Blk::List(l) => Blk::List(map_list(l, f)),
            Blk::High(t, i, b) => Blk::High(
                t.as_deref().map(f),
                i.as_deref().map(f),
                b.iter().map(|p| map_inl(p, f)).collect(),
            ),
            Blk::Break => Blk::Break,
            Blk::Embed(k, a) => Blk::Embed(f(k), f(a)),
            Blk::Coll(t, b) => Blk::Coll(f(t), map_blocks(b, f)),
        })
        .collect()
}

fn walk_list<'a>(l: &'a ListT, out: &mut Vec<&'a Vec<Inl>>) {
    for i in &l.items {
        out.push(&i.text);
        if let Some(n) = &i.nested {
            walk_list(n, out);
        }
    }
}

/// Every inline sequence of the document, in document order.
pub fn inline_runs<'a>(v: &'a [Blk], out: &mut Vec<&'a Vec<Inl>>) {
    for b in v {
        match b {
            Blk::Para(p) | Blk::Head(_, p) => out.push(p),
            Blk::List(l) => walk_list(l, out),
            Blk::High(_, _, b) => out.extend(b.iter()),
            Blk::Coll(_, b) => inline_runs(b, out),
            _ => {}
        }
    }
}

/// Every block of the document, containers before their content.
pub fn all_blocks<'a>(v: &'a [Blk], out: &mut Vec<&'a Blk>) {
    for b in v {
        out.push(b);
        if let Blk::Coll(_, inner) = b {
            all_blocks(inner, out);
        }
    }
}

/// The block structure alone: kinds, nesting and what is decided at block level, without inline markup.
pub fn skeleton(v: &[Blk], out: &mut String) {
    use std::fmt::Write;
    fn sk_list(l: &ListT, out: &mut String) {
        let _ = write!(out, "l{}{}(", if l.ordered { '+' } else { '-' }, l.level);
        for i in &l.items {
            out.push('i');
            if let Some(n) = &i.nested {
                sk_list(n, out);
            }
        }
        out.push(')');
    }
    for b in v {
        match b {
            Blk::Para(_) => out.push('p'),
            Blk::Head(l, _) => {
                let _ = write!(out, "h{l}");
            }
            Blk::Image(..) => out.push('m'),
            Blk::Images(v) => {
                let _ = write!(out, "M{}", v.len());
            }
            Blk::Code(..) => out.push('c'),
            Blk::List(l) => sk_list(l, out),
            Blk::High(t, i, b) => {
                let _ = write!(out, "H{}{}{}", t.is_some() as u8, i.is_some() as u8, b.len());
            }
            Blk::Break => out.push('-'),
            Blk::Embed(..) => out.push('e'),
            Blk::Coll(_, b) => {
                out.push('(');
                skeleton(b, out);
                out.push(')');
            }
        }
        out.push(' ');
    }
}
