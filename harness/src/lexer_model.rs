//! Reference lexer: the documented token table, written as three plain passes over the text.
//! Pass 1 pairs every backslash with the character it escapes and assigns rows and columns.
//! Pass 2 groups cells into tokens. Pass 3 pairs consecutive line breaks into terminators.

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum K {
    Terminator,
    Eol,
    LCurly,
    RCurly,
    CStart,
    CEnd,
    Tilde,
    Star,
    Space,
    Minus,
    Hash,
    Gt,
    Bang,
    Tick,
    Plus,
    LSq,
    RSq,
    LPar,
    RPar,
    Under,
    Pipe,
    Lit,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Tok {
    pub k: K,
    pub s: usize,
    pub e: usize,
    pub col: usize,
    pub row: usize,
    pub esc: bool,
}

impl Tok {
    pub fn len(&self) -> usize {
        self.e - self.s
    }
}

struct Cell {
    at: usize,
    c: char,
    esc: bool,
    col: usize,
    row: usize,
}

fn cells(src: &str) -> Vec<Cell> {
    let mut out: Vec<Cell> = Vec::with_capacity(src.len());
    let (mut col, mut row) = (0, 0);
    let mut pending_escape = false;
    for (at, c) in src.char_indices() {
        if !pending_escape && c == '\\' {
            pending_escape = true;
            continue;
        }
        let esc = pending_escape;
        pending_escape = false;
        out.push(Cell { at, c, esc, col, row });
        if c == '\n' && !esc {
            col = 0;
            row += 1;
        } else {
            col += 1;
        }
    }
    out
}

fn run_kind(c: char) -> Option<K> {
    Some(match c {
        '{' => K::LCurly,
        '}' => K::RCurly,
        '~' => K::Tilde,
        '*' => K::Star,
        ' ' => K::Space,
        '-' => K::Minus,
        '#' => K::Hash,
        '>' => K::Gt,
        '!' => K::Bang,
        '`' => K::Tick,
        '+' => K::Plus,
        _ => return None,
    })
}

fn single_kind(c: char) -> Option<K> {
    Some(match c {
        '[' => K::LSq,
        ']' => K::RSq,
        '(' => K::LPar,
        ')' => K::RPar,
        '_' => K::Under,
        '|' => K::Pipe,
        _ => return None,
    })
}

pub fn lex(src: &str) -> Vec<Tok> {
    let cells = cells(src);
    let plain = |i: usize, c: char| cells.get(i).is_some_and(|x| !x.esc && x.c == c);
    // what an unescaped cell starts when no literal is open: a kind and the number of cells
    let starts = |i: usize| -> Option<(K, usize)> {
        let x = &cells[i];
        if x.esc {
            return None;
        }
        match x.c {
            '\n' => Some((K::Eol, 1)),
            '\r' if plain(i + 1, '\n') => Some((K::Eol, 2)),
            '{' if plain(i + 1, '%') => Some((K::CStart, 2)),
            '%' if plain(i + 1, '}') => Some((K::CEnd, 2)),
            c => {
                if let Some(k) = run_kind(c) {
                    let mut n = 1;
                    while plain(i + n, c) {
                        n += 1;
                    }
                    Some((k, n))
                } else {
                    single_kind(c).map(|k| (k, 1))
                }
            }
        }
    };
    let mut toks: Vec<Tok> = Vec::new();
    let mut i = 0;
    while i < cells.len() {
        let (k, n) = match starts(i) {
            Some(x) => x,
            None => {
                let mut n = 1;
                while i + n < cells.len()
                    && !cells[i + n].esc
                    && (cells[i + n].c == ' ' || starts(i + n).is_none())
                {
                    n += 1;
                }
                (K::Lit, n)
            }
        };
        let last = &cells[i + n - 1];
        toks.push(Tok {
            k,
            s: cells[i].at,
            e: last.at + last.c.len_utf8(),
            col: cells[i].col,
            row: cells[i].row,
            esc: cells[i].esc,
        });
        i += n;
    }
    let mut out: Vec<Tok> = Vec::with_capacity(toks.len());
    for t in toks {
        match out.last_mut() {
            Some(p) if t.k == K::Eol && p.k == K::Eol => {
                p.k = K::Terminator;
                p.e = t.e;
            }
            _ => out.push(t),
        }
    }
    out
}

pub fn kind_of(k: &yamd::lexer::TokenKind) -> K {
    use yamd::lexer::TokenKind as T;
    match k {
        T::Terminator => K::Terminator,
        T::Eol => K::Eol,
        T::LeftCurlyBrace => K::LCurly,
        T::RightCurlyBrace => K::RCurly,
        T::CollapsibleStart => K::CStart,
        T::CollapsibleEnd => K::CEnd,
        T::Tilde => K::Tilde,
        T::Star => K::Star,
        T::Space => K::Space,
        T::Minus => K::Minus,
        T::Hash => K::Hash,
        T::GreaterThan => K::Gt,
        T::Bang => K::Bang,
        T::Backtick => K::Tick,
        T::Plus => K::Plus,
        T::LeftSquareBracket => K::LSq,
        T::RightSquareBracket => K::RSq,
        T::LeftParenthesis => K::LPar,
        T::RightParenthesis => K::RPar,
        T::Underscore => K::Under,
        T::Pipe => K::Pipe,
        T::Literal => K::Lit,
    }
}
