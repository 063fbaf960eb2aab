//! What yamd makes of a text, as numbers that two builds of it can be compared by.

use std::fmt::Write;
use std::hash::{Hash, Hasher};
use std::mem::discriminant;
use yamd::lexer::{Lexer, Token};
use yamd::op::{Content, Op, OpKind};
use yamd::{try_to_yamd, Yamd};

#[allow(dead_code)]
pub const WHAT: [&str; 7] = [
    "the tokens",
    "the events",
    "the document",
    "the printed text",
    "the document folded from the events",
    "folding half of the events",
    "folding the events without one of them",
];

/// A fingerprint, 8 bytes at a time.
struct Print(u64);
impl Print {
    fn word(&mut self, n: u64) {
        self.0 = (self.0 ^ n).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        self.0 ^= self.0 >> 29;
    }
    fn text(&mut self, s: &str) {
        self.word(s.len() as u64);
        for c in s.as_bytes().chunks(8) {
            let mut b = [0; 8];
            b[..c.len()].copy_from_slice(c);
            self.word(u64::from_le_bytes(b));
        }
    }
}
impl Write for Print {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.text(s);
        Ok(())
    }
}
/// Only ever given discriminants.
impl Hasher for Print {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        bytes.iter().for_each(|b| self.word(*b as u64));
    }
    fn write_isize(&mut self, i: isize) {
        self.word(i as u64);
    }
}

fn of_tokens(tokens: &[Token]) -> u64 {
    let mut h = Print(1);
    for t in tokens {
        discriminant(&t.kind).hash(&mut h);
        let p = &t.position;
        for n in [t.range.start, t.range.end, p.byte_index, p.column, p.row, t.escaped as usize] {
            h.word(n as u64);
        }
    }
    h.0
}

fn of_ops(ops: &[Op]) -> u64 {
    let mut h = Print(2);
    for o in ops {
        discriminant(&o.kind).hash(&mut h);
        if let OpKind::Start(n) | OpKind::End(n) = &o.kind {
            discriminant(n).hash(&mut h);
        }
        match &o.content {
            Content::Span(r) => {
                h.word(r.start as u64);
                h.word(r.end as u64);
            }
            Content::Materialized(s) => h.text(s),
        }
    }
    h.0
}

fn of_tree<E>(y: Result<Yamd, E>) -> u64 {
    let Ok(y) = y else { return 4 };
    let mut h = Print(3);
    write!(h, "{y:?}").expect("no writer that fails");
    h.0
}

/// A call that may panic.
type Call<'a> = dyn Fn(&mut dyn FnMut()) -> Option<()> + 'a;

pub fn answers(s: &str, call: &Call) -> [u64; 7] {
    let one = |f: &dyn Fn() -> u64| {
        let mut got = 0;
        call(&mut || got = f());
        got
    };
    let mut ops = vec![];
    call(&mut || ops = yamd::parse(s));
    let mut rest = vec![];
    call(&mut || rest = yamd::parse(s));
    let half = ops.len() / 2;
    if !rest.is_empty() {
        rest.remove(half);
    }
    let mut tree = None;
    call(&mut || tree = Some(yamd::deserialize(s)));
    // most texts have one document, whoever folds it
    let folded = |ops: &[Op]| {
        let y = try_to_yamd(ops, s);
        if y.is_ok() && y.as_ref().ok() == tree.as_ref() { 5 } else { of_tree(y) }
    };
    [
        one(&|| of_tokens(&Lexer::new(s).collect::<Vec<_>>())),
        of_ops(&ops),
        one(&|| of_tree(tree.clone().ok_or(()))),
        one(&|| {
            let mut h = Print(6);
            h.text(&tree.as_ref().map(Yamd::to_string).unwrap_or_default());
            h.0
        }),
        one(&|| folded(&ops)),
        one(&|| folded(&ops[..half])),
        one(&|| folded(&rest)),
    ]
}
