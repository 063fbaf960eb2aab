//! Reference parser: the documented grammar as pure functions from a token index to a result and the
//! next index. No mutation, no event stream, no backtracking state: a recogniser that fails returns None.

use std::cell::RefCell;
use std::collections::HashSet;

use crate::lexer_model::{lex, Tok, K};
use crate::tree::*;

/// What ends the text being read besides the end of the input.
#[derive(Clone, Default)]
struct Stop {
    terminator: bool,
    collapsible: bool,
    highlight: bool,
    /// (level, ordered) of every list item being read
    items: Vec<(usize, bool)>,
}

impl Stop {
    fn term(&self) -> Stop {
        Stop {
            terminator: true,
            ..self.clone()
        }
    }
}

struct P<'a> {
    src: &'a str,
    t: Vec<Tok>,
    /// Where no collapsible starts, by whether one is being read already: keeps unclosed ones from costing 2^n.
    /// Collapsibles are only read by `blocks`, whose `Stop` differs in nothing else.
    no_coll: RefCell<HashSet<(usize, bool)>>,
}

fn marker(t: &Tok) -> Option<bool> {
    match (t.k, t.len()) {
        (K::Minus, 1) => Some(false),
        (K::Plus, 1) => Some(true),
        _ => None,
    }
}

impl<'a> P<'a> {
    fn is(&self, i: usize, k: K) -> bool {
        self.t.get(i).is_some_and(|t| t.k == k)
    }
    /// A run of exactly `len` of kind `k`.
    fn run(&self, i: usize, k: K, len: usize) -> bool {
        self.t.get(i).is_some_and(|t| t.k == k && t.len() == len)
    }
    fn line_start(&self, i: usize) -> bool {
        self.t.get(i).is_some_and(|t| t.col == 0)
    }
    fn text(&self, i: usize, j: usize) -> String {
        self.t[i..j].iter().map(|t| &self.src[t.s..t.e]).collect()
    }
    /// The end of a collapsible: `%}` starting a line.
    fn coll_end(&self, i: usize) -> bool {
        self.is(i, K::CEnd) && self.line_start(i)
    }
    /// A list item marker of any type starting a line: (level, ordered, index after the marker).
    fn item_marker(&self, i: usize) -> Option<(usize, bool, usize)> {
        if !self.line_start(i) {
            return None;
        }
        let (level, m) = if self.is(i, K::Space) {
            (self.t[i].len(), i + 1)
        } else {
            (0, i)
        };
        let ordered = marker(self.t.get(m)?)?;
        self.run(m + 1, K::Space, 1).then_some((level, ordered, m + 2))
    }
    fn end(&self, i: usize, st: &Stop) -> bool {
        if i >= self.t.len() {
            return true;
        }
        if st.terminator && self.is(i, K::Terminator) {
            return true;
        }
        if st.collapsible && (self.coll_end(i) || self.is(i, K::Eol) && self.coll_end(i + 1)) {
            return true;
        }
        if st.highlight && self.run(i, K::Bang, 2) && self.line_start(i) {
            return true;
        }
        if !st.items.is_empty() {
            if let Some((level, ordered, _)) = self.item_marker(i) {
                // a sibling has the type of the item; an item of a lower or the next level any type
                return st
                    .items
                    .iter()
                    .any(|&(l, o)| level <= l + 1 && (level != l || ordered == o));
            }
        }
        false
    }
    /// First index from `i` on that satisfies `f`, unless the text ends before it.
    fn find(&self, mut i: usize, st: &Stop, f: impl Fn(&Tok) -> bool) -> Option<usize> {
        while !self.end(i, st) {
            if f(&self.t[i]) {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    fn eol_opt(&self, i: usize) -> usize {
        i + self.is(i, K::Eol) as usize
    }

    // ---- inline --------------------------------------------------------------------------------

    /// `open body close` where both delimiters are runs of `len` of kind `k`: (body, next).
    fn delimited(&self, i: usize, st: &Stop, k: K, len: usize) -> Option<(String, usize)> {
        if !self.run(i, k, len) {
            return None;
        }
        let j = self.find(i + 1, st, |t| t.k == k && t.len() == len)?;
        Some((self.text(i + 1, j), j + 1))
    }
    fn strike(&self, i: usize, st: &Stop) -> Option<(Inl, usize)> {
        let (s, j) = self.delimited(i, st, K::Tilde, 2)?;
        Some((Inl::Strike(s), j))
    }
    fn italic(&self, i: usize, st: &Stop) -> Option<(Inl, usize)> {
        let (s, j) = self.delimited(i, st, K::Under, 1)?;
        Some((Inl::Italic(s), j))
    }
    fn bold(&self, i: usize, st: &Stop) -> Option<(Inl, usize)> {
        if !self.run(i, K::Star, 2) {
            return None;
        }
        let (body, j) = self.inlines(
            i + 1,
            |p, j| p.end(j, st) || p.run(j, K::Star, 2),
            |p, j| p.strike(j, st).or_else(|| p.italic(j, st)),
        );
        (!self.end(j, st)).then_some((Inl::Bold(body), j + 1))
    }
    /// `[text](url)`
    fn link(&self, i: usize, st: &Stop) -> Option<((String, String), usize)> {
        if !self.is(i, K::LSq) {
            return None;
        }
        let close = self.find(i + 1, st, |t| t.k == K::RSq)?;
        let open = close + 1;
        if !self.is(open, K::LPar) {
            return None;
        }
        // up to the balancing parenthesis, or to the last closing one there is
        let (mut depth, mut last, mut j) = (1usize, None, open + 1);
        while depth > 0 && !self.end(j, st) {
            match self.t[j].k {
                K::LPar => depth += 1,
                K::RPar => {
                    depth -= 1;
                    last = Some(j);
                }
                _ => {}
            }
            j += 1;
        }
        let last = last?;
        Some(((self.text(i + 1, close), self.text(open + 1, last)), last + 1))
    }
    fn anchor(&self, i: usize, st: &Stop) -> Option<(Inl, usize)> {
        let ((t, u), j) = self.link(i, st)?;
        Some((Inl::Anchor(t, u), j))
    }
    /// Text interleaved with whatever `node` recognises, until `done`.
    fn inlines(
        &self,
        mut i: usize,
        done: impl Fn(&Self, usize) -> bool,
        node: impl Fn(&Self, usize) -> Option<(Inl, usize)>,
    ) -> (Vec<Inl>, usize) {
        let mut out = Vec::new();
        let mut text = String::new();
        while !done(self, i) {
            if let Some((n, j)) = node(self, i) {
                if !text.is_empty() {
                    out.push(Inl::Text(std::mem::take(&mut text)));
                }
                out.push(n);
                i = j;
            } else {
                text.push_str(&self.src[self.t[i].s..self.t[i].e]);
                i += 1;
            }
        }
        if !text.is_empty() {
            out.push(Inl::Text(text));
        }
        (out, i)
    }
    fn para(&self, i: usize, st: &Stop) -> (Vec<Inl>, usize) {
        self.inlines(
            i,
            |p, j| p.end(j, st),
            |p, j| {
                p.strike(j, st)
                    .or_else(|| p.italic(j, st))
                    .or_else(|| p.bold(j, st))
                    .or_else(|| p.anchor(j, st))
                    .or_else(|| {
                        let (s, j) = p.delimited(j, st, K::Tick, 1)?;
                        Some((Inl::Code(s), j))
                    })
                    .or_else(|| {
                        let (s, j) = p.delimited(j, st, K::Star, 1)?;
                        Some((Inl::Emph(s), j))
                    })
            },
        )
    }

    // ---- blocks --------------------------------------------------------------------------------

    /// The rest of the current line and its line break or terminator: (text, next).
    fn rest_of_line(&self, i: usize, st: &Stop) -> Option<(String, usize)> {
        let j = self.find(i, st, |t| matches!(t.k, K::Eol | K::Terminator))?;
        Some((self.text(i, j), j + 1))
    }
    fn code(&self, i: usize, st: &Stop) -> Option<(Blk, usize)> {
        let fence = |j: usize| self.run(j, K::Tick, 3) && self.line_start(j);
        if !fence(i) {
            return None;
        }
        let none = Stop::default();
        let (lang, body) = self.rest_of_line(i + 1, &none)?;
        let close = (body..self.t.len()).find(|&j| fence(j))?;
        let after = close + 1;
        if !self.is(after, K::Eol) && !self.end(after, &st.term()) {
            return None;
        }
        let code = trim_end(&self.text(body, close)).to_owned();
        Some((Blk::Code(lang, code), self.eol_opt(after)))
    }
    fn embed(&self, i: usize, st: &Stop) -> Option<(Blk, usize)> {
        let st = &st.term();
        if !(self.run(i, K::LCurly, 2) && self.line_start(i)) {
            return None;
        }
        let pipe = self.find(i + 1, st, |t| t.k == K::Pipe)?;
        let close = self.find(pipe + 1, st, |t| t.k == K::RCurly && t.len() == 2)?;
        let after = close + 1;
        if !self.is(after, K::Eol) && !self.end(after, st) {
            return None;
        }
        Some((
            Blk::Embed(self.text(i + 1, pipe), self.text(pipe + 1, close)),
            self.eol_opt(after),
        ))
    }
    fn collapsible(&self, i: usize, st: &Stop) -> Option<(Blk, usize)> {
        if !(self.is(i, K::CStart) && self.line_start(i)) {
            return None;
        }
        debug_assert!(!st.terminator && !st.highlight && st.items.is_empty());
        if self.no_coll.borrow().contains(&(i, st.collapsible)) {
            return None;
        }
        let (title, body) = if self.is(i + 1, K::Eol) {
            (String::new(), i + 2)
        } else if self.is(i + 1, K::Space) {
            self.rest_of_line(i + 2, &Stop::default())?
        } else {
            return None;
        };
        let inner = Stop {
            collapsible: true,
            ..st.clone()
        };
        let (blocks, j) = self.blocks(body, &inner);
        let end = self.eol_opt(j);
        if !self.coll_end(end) {
            self.no_coll.borrow_mut().insert((i, st.collapsible));
            return None;
        }
        Some((Blk::Coll(title, blocks), self.eol_opt(end + 1)))
    }
    fn highlight(&self, i: usize, st: &Stop) -> Option<(Blk, usize)> {
        let bangs = |j: usize| self.run(j, K::Bang, 2) && self.line_start(j);
        if !bangs(i) {
            return None;
        }
        let (title, mut j) = if self.is(i + 1, K::Eol) {
            (None, i + 2)
        } else if self.run(i + 1, K::Space, 1) {
            let (t, j) = self.rest_of_line(i + 2, st)?;
            (Some(t), j)
        } else {
            return None;
        };
        let mut icon = None;
        if self.run(j, K::Bang, 1) && self.line_start(j) && self.run(j + 1, K::Space, 1) {
            if let Some(e) = self.find(j + 2, &st.term(), |t| t.k == K::Eol) {
                icon = Some(self.text(j + 2, e));
                j = e + 1;
            }
        }
        let inner = Stop {
            terminator: true,
            highlight: true,
            ..st.clone()
        };
        let mut body = Vec::new();
        loop {
            if self.end(j, st) {
                return None;
            }
            if bangs(j) {
                return Some((Blk::High(title, icon, body), self.eol_opt(j + 1)));
            }
            if self.is(j, K::Terminator) {
                j += 1;
            }
            let (mut p, next) = self.para(j, &inner);
            trim_last_text(&mut p);
            if !p.is_empty() {
                body.push(p);
            }
            j = next;
        }
    }
    fn list(&self, mut i: usize, level: usize, st: &Stop) -> Option<(ListT, usize)> {
        let ordered = match self.item_marker(i) {
            Some((l, o, _)) if l == level => o,
            _ => return None,
        };
        let mut items = Vec::new();
        while let Some((l, o, body)) = self.item_marker(i) {
            if l != level || o != ordered {
                break;
            }
            let mut inner = st.clone();
            inner.items.push((level, ordered));
            let (mut text, next) = self.para(body, &inner);
            trim_last_text(&mut text);
            i = next;
            let mut nested = None;
            if !self.end(i, st) {
                if let Some((l, next)) = self.list(i, level + 1, st) {
                    nested = Some(Box::new(l));
                    i = next;
                }
            }
            items.push(Item { text, nested });
        }
        Some((
            ListT {
                ordered,
                level,
                items,
            },
            i,
        ))
    }
    fn images(&self, mut i: usize, st: &Stop) -> Option<(Blk, usize)> {
        let mut v = Vec::new();
        while self.run(i, K::Bang, 1) {
            let (img, j) = self.link(i + 1, st)?;
            if !self.is(j, K::Eol) && !self.end(j, st) {
                return None;
            }
            v.push(img);
            i = self.eol_opt(j);
        }
        if !self.end(i, st) {
            return None;
        }
        let (a, s) = v.first()?.clone();
        Some((
            if v.len() == 1 {
                Blk::Image(a, s)
            } else {
                Blk::Images(v)
            },
            i,
        ))
    }
    fn heading(&self, i: usize, st: &Stop) -> Option<(Blk, usize)> {
        if !(self.is(i, K::Hash) && self.line_start(i) && self.run(i + 1, K::Space, 1)) {
            return None;
        }
        let level = self.t[i].len();
        if level > 6 {
            return None;
        }
        let (body, j) = self.inlines(i + 2, |p, j| p.end(j, st), |p, j| p.anchor(j, st));
        Some((Blk::Head(level as u8, body), j))
    }
    fn blocks(&self, mut i: usize, st: &Stop) -> (Vec<Blk>, usize) {
        let mut out = Vec::new();
        let par = st.term();
        while !self.end(i, st) {
            if self.is(i, K::Terminator) {
                i += 1;
                continue;
            }
            let found = self
                .code(i, st)
                .or_else(|| self.collapsible(i, st))
                .or_else(|| self.embed(i, st))
                .or_else(|| self.highlight(i, st))
                .or_else(|| self.list(i, 0, &par).map(|(l, j)| (Blk::List(l), j)))
                .or_else(|| self.images(i, &par))
                .or_else(|| {
                    (self.run(i, K::Minus, 5) && self.line_start(i)).then_some((Blk::Break, i + 1))
                })
                .or_else(|| self.heading(i, &par));
            let (b, j) = found.unwrap_or_else(|| {
                let (p, j) = self.para(i, &par);
                (Blk::Para(p), j)
            });
            assert!(j > i, "the reference parser made no progress");
            out.push(b);
            i = j;
        }
        (out, i)
    }
    fn metadata(&self) -> Option<(String, usize)> {
        let dashes = |j: usize| self.run(j, K::Minus, 3) && self.line_start(j);
        if !dashes(0) || !(self.is(1, K::Eol) || self.is(1, K::Terminator)) {
            return None;
        }
        let close = (1..self.t.len()).find(|&j| dashes(j))?;
        let text = self.text(1, close);
        Some((text.trim_matches(['\n', '\r']).to_owned(), close + 1))
    }
}

pub fn trim_end(s: &str) -> &str {
    s.trim_end_matches(['\n', '\r'])
}

fn trim_last_text(v: &mut Vec<Inl>) {
    if let Some(Inl::Text(t)) = v.last_mut() {
        let n = trim_end(t).len();
        t.truncate(n);
        if n == 0 {
            v.pop();
        }
    }
}

/// The document the specification assigns to `src`.
pub fn parse(src: &str) -> Doc {
    parse_tokens(src, lex(src))
}

pub fn parse_tokens(src: &str, t: Vec<Tok>) -> Doc {
    let p = P { src, t, no_coll: Default::default() };
    let (meta, i) = match p.metadata() {
        Some((m, i)) => (Some(m), i),
        None => (None, 0),
    };
    let (body, end) = p.blocks(i, &Stop::default());
    assert_eq!(end, p.t.len(), "the reference parser stopped early");
    Doc { meta, body }
}
