//! Finite input spaces, each enumerated completely. A space is cut into tasks so that workers can share it;
//! the union of its tasks is the whole space, whatever the number of workers.

pub type Emit<'a> = &'a mut dyn FnMut(&str) -> bool;

pub trait Space: Sync + Send {
    fn name(&self) -> String;
    fn tasks(&self) -> usize;
    /// Emits every case of one task; stops when `f` returns false.
    fn run(&self, task: usize, f: Emit) -> bool;
}

/// Every sequence of at most `depth` words, between a prefix and a suffix.
pub struct Words {
    pub label: &'static str,
    pub pre: String,
    pub suf: String,
    pub words: Vec<String>,
    pub depth: usize,
}

impl Words {
    fn rec(&self, s: &mut String, left: usize, f: Emit) -> bool {
        let n = s.len();
        s.push_str(&self.suf);
        let go = f(s);
        s.truncate(n);
        if !go {
            return false;
        }
        if left == 0 {
            return true;
        }
        for w in &self.words {
            s.push_str(w);
            let go = self.rec(s, left - 1, f);
            s.truncate(n);
            if !go {
                return false;
            }
        }
        true
    }
}

impl Space for Words {
    fn name(&self) -> String {
        format!(
            "{}: <= {} of {} words in {:?}..{:?}",
            self.label,
            self.depth,
            self.words.len(),
            self.pre,
            self.suf
        )
    }
    fn tasks(&self) -> usize {
        // task 0: the empty and all one-word sequences; the others: one per first two words
        if self.depth < 2 {
            1
        } else {
            1 + self.words.len() * self.words.len()
        }
    }
    fn run(&self, task: usize, f: Emit) -> bool {
        let mut s = self.pre.clone();
        if task == 0 {
            return self.rec(&mut s, self.depth.min(1), f);
        }
        let (a, b) = ((task - 1) / self.words.len(), (task - 1) % self.words.len());
        s.push_str(&self.words[a]);
        s.push_str(&self.words[b]);
        self.rec(&mut s, self.depth - 2, f)
    }
}

/// Every sequence of at most `depth` words within every nest of `levels` contexts.
pub struct Nested {
    pub contexts: &'static [(&'static str, &'static str)],
    pub levels: u32,
    pub words: Vec<String>,
    pub depth: usize,
}

impl Space for Nested {
    fn name(&self) -> String {
        format!(
            "context in context: <= {} of {} words in all {}-fold nests of {} contexts",
            self.depth,
            self.words.len(),
            self.levels,
            self.contexts.len()
        )
    }
    fn tasks(&self) -> usize {
        self.contexts.len().pow(self.levels)
    }
    fn run(&self, mut task: usize, f: Emit) -> bool {
        let (mut pre, mut suf) = (String::new(), String::new());
        for _ in 0..self.levels {
            let (p, s) = self.contexts[task % self.contexts.len()];
            task /= self.contexts.len();
            pre.push_str(p);
            suf.insert_str(0, s);
        }
        let w = Words {
            label: "",
            pre: String::new(),
            suf,
            words: self.words.clone(),
            depth: self.depth,
        };
        w.rec(&mut pre, self.depth, f)
    }
}

/// Words in every context, with something long before, around or behind them.
pub struct Padded {
    pub contexts: &'static [(&'static str, &'static str)],
    pub pads: Vec<String>,
    pub words: Vec<String>,
    pub depth: usize,
}

const PLACES: usize = 4;

impl Space for Padded {
    fn name(&self) -> String {
        format!(
            "padded: <= {} of {} words in {} contexts, with {} long texts before the context, before the words, behind them or behind the context",
            self.depth,
            self.words.len(),
            self.contexts.len(),
            self.pads.len()
        )
    }
    fn tasks(&self) -> usize {
        self.contexts.len() * self.pads.len() * PLACES
    }
    fn run(&self, task: usize, f: Emit) -> bool {
        let (p, s) = self.contexts[task % self.contexts.len()];
        let task = task / self.contexts.len();
        let pad = &self.pads[task % self.pads.len()];
        let (mut pre, suf) = match task / self.pads.len() {
            0 => (format!("{pad}\n\n{p}"), s.to_owned()),
            1 => (format!("{p}{pad}"), s.to_owned()),
            2 => (p.to_owned(), format!("{pad}{s}")),
            _ => (p.to_owned(), format!("{s}\n\n{pad}")),
        };
        let w = Words {
            label: "",
            pre: String::new(),
            suf,
            words: self.words.clone(),
            depth: self.depth,
        };
        w.rec(&mut pre, self.depth, f)
    }
}

/// `u^n w v^n` between prefix and suffix, for all words u and v and every w of another list: something in the midst of many.
pub struct Amid {
    pub outer: Vec<String>,
    pub inner: Vec<String>,
    pub lens: Vec<usize>,
    pub around: Vec<(&'static str, &'static str)>,
}

impl Space for Amid {
    fn name(&self) -> String {
        format!(
            "amid: u^n w v^n over {} words u, v and {} words w, n in {:?}, in {} contexts",
            self.outer.len(),
            self.inner.len(),
            self.lens,
            self.around.len()
        )
    }
    fn tasks(&self) -> usize {
        self.outer.len() * self.outer.len()
    }
    fn run(&self, task: usize, f: Emit) -> bool {
        let u = &self.outer[task / self.outer.len()];
        let v = &self.outer[task % self.outer.len()];
        for &n in &self.lens {
            let (u, v) = (u.repeat(n), v.repeat(n));
            for w in &self.inner {
                for (p, s) in &self.around {
                    if !f(&format!("{p}{u}{w}{v}{s}")) {
                        return false;
                    }
                }
            }
        }
        true
    }
}

/// Another space, its cases marked.
pub struct Prefixed(pub &'static str, pub Box<dyn Space>);

impl Space for Prefixed {
    fn name(&self) -> String {
        self.1.name()
    }
    fn tasks(&self) -> usize {
        self.1.tasks()
    }
    fn run(&self, task: usize, f: Emit) -> bool {
        self.1.run(task, &mut |c| f(&format!("{}{c}", self.0)))
    }
}

/// Every Unicode scalar value in each template (`\u{1}` marks the place).
pub struct Scalars {
    pub templates: Vec<&'static str>,
}

impl Space for Scalars {
    fn name(&self) -> String {
        format!("scalars: every char in {:?}", self.templates)
    }
    fn tasks(&self) -> usize {
        0x110
    }
    fn run(&self, task: usize, f: Emit) -> bool {
        let mut buf = [0u8; 4];
        for v in task * 0x1000..(task + 1) * 0x1000 {
            if let Some(c) = char::from_u32(v as u32) {
                let c = c.encode_utf8(&mut buf);
                for t in &self.templates {
                    if !f(&t.replace('\u{1}', c)) {
                        return false;
                    }
                }
            }
        }
        true
    }
}

/// Runs of one word of every listed length, in each template.
pub struct Runs {
    pub words: Vec<String>,
    pub lens: Vec<usize>,
    pub templates: Vec<&'static str>,
}

impl Space for Runs {
    fn name(&self) -> String {
        format!(
            "runs: {} words repeated up to {} times ({} lengths) in {} templates",
            self.words.len(),
            self.lens.last().unwrap_or(&0),
            self.lens.len(),
            self.templates.len()
        )
    }
    fn tasks(&self) -> usize {
        self.words.len() * self.templates.len()
    }
    fn run(&self, task: usize, f: Emit) -> bool {
        let w = &self.words[task % self.words.len()];
        let t = self.templates[task / self.words.len()];
        self.lens
            .iter()
            .all(|&n| f(&t.replace('\u{1}', &w.repeat(n))))
    }
}

/// `u^m v^n` for all words u, v and all lengths m, n up to a bound, in each template: what depends on two lengths.
pub struct RunPairs {
    pub words: Vec<String>,
    pub most: usize,
    pub templates: Vec<&'static str>,
}

impl Space for RunPairs {
    fn name(&self) -> String {
        format!(
            "pairs of runs: u^m v^n over {} words, m, n <= {}, in {} templates",
            self.words.len(),
            self.most,
            self.templates.len()
        )
    }
    fn tasks(&self) -> usize {
        self.words.len() * self.words.len()
    }
    fn run(&self, task: usize, f: Emit) -> bool {
        let u = &self.words[task / self.words.len()];
        let v = &self.words[task % self.words.len()];
        (1..=self.most).all(|m| {
            (1..=self.most).all(|n| {
                let w = u.repeat(m) + &v.repeat(n);
                self.templates.iter().all(|t| f(&t.replace('\u{1}', &w)))
            })
        })
    }
}

/// `u^n v^n tail` for all words u, v and every n up to a bound: nesting and unfinished constructs.
pub struct Pump {
    pub words: Vec<String>,
    pub lens: Vec<usize>,
    pub tails: Vec<&'static str>,
}

impl Space for Pump {
    fn name(&self) -> String {
        format!(
            "pump: u^n v^n over {} words, n in {:?}, {} tails",
            self.words.len(),
            self.lens,
            self.tails.len()
        )
    }
    fn tasks(&self) -> usize {
        self.words.len() * self.words.len()
    }
    fn run(&self, task: usize, f: Emit) -> bool {
        let u = &self.words[task / self.words.len()];
        let v = &self.words[task % self.words.len()];
        for &n in &self.lens {
            for t in &self.tails {
                if !f(&format!("{}{}{t}", u.repeat(n), v.repeat(n))) {
                    return false;
                }
                if !f(&format!("{}{t}", format!("{u}{v}").repeat(n))) {
                    return false;
                }
            }
        }
        true
    }
}

/// Every document at most `edits` edits away from one of the base documents. An edit deletes a character,
/// inserts a word, replaces a character by a word, deletes, doubles or swaps lines, or cuts an end off.
pub struct Edits {
    pub bases: Vec<String>,
    pub words: Vec<String>,
    pub edits: usize,
}

impl Edits {
    fn one(&self, s: &str, from: usize, to: usize, f: &mut dyn FnMut(&str) -> bool) -> bool {
        let mut at: Vec<usize> = s.char_indices().map(|(i, _)| i).collect();
        at.push(s.len());
        for w in from..to.min(at.len()) {
            let i = at[w];
            let (a, b) = s.split_at(i);
            if !f(a) || !f(b) {
                return false;
            }
            for w in &self.words {
                if !f(&format!("{a}{w}{b}")) {
                    return false;
                }
            }
            if let Some(c) = b.chars().next() {
                let rest = &b[c.len_utf8()..];
                if !f(&format!("{a}{rest}")) || !f(&format!("{a}{c}{c}{rest}")) {
                    return false;
                }
                for w in &self.words {
                    if !f(&format!("{a}{w}{rest}")) {
                        return false;
                    }
                }
            }
        }
        if from == 0 {
            let lines: Vec<&str> = s.split_inclusive('\n').collect();
            for i in 0..lines.len() {
                let mut v = lines.clone();
                v.remove(i);
                if !f(&v.concat()) {
                    return false;
                }
                for j in 0..lines.len() {
                    let mut v = lines.clone();
                    let l = v.remove(i);
                    v.insert(j, l);
                    if !f(&v.concat()) {
                        return false;
                    }
                    let mut v = lines.clone();
                    v.insert(j, lines[i]);
                    if !f(&v.concat()) {
                        return false;
                    }
                }
            }
        }
        true
    }
}

const EDIT_CHUNK: usize = 8;

impl Space for Edits {
    fn name(&self) -> String {
        format!(
            "edits: <= {} edits of {} documents ({} bytes) with {} words",
            self.edits,
            self.bases.len(),
            self.bases.iter().map(|b| b.len()).sum::<usize>(),
            self.words.len()
        )
    }
    fn tasks(&self) -> usize {
        self.bases
            .iter()
            .map(|b| b.chars().count() / EDIT_CHUNK + 1)
            .sum()
    }
    fn run(&self, mut task: usize, f: Emit) -> bool {
        for b in &self.bases {
            let n = b.chars().count() / EDIT_CHUNK + 1;
            if task >= n {
                task -= n;
                continue;
            }
            if task == 0 && !f(b) {
                return false;
            }
            let (from, to) = (task * EDIT_CHUNK, (task + 1) * EDIT_CHUNK);
            return self.one(b, from, to, &mut |s| {
                if !f(s) {
                    return false;
                }
                self.edits < 2 || self.one(s, 0, usize::MAX, f)
            });
        }
        true
    }
}

/// A list of cases, `chunk` per task.
pub struct Fixed {
    pub label: String,
    pub cases: Vec<String>,
}

impl Space for Fixed {
    fn name(&self) -> String {
        format!("{}: {} cases", self.label, self.cases.len())
    }
    fn tasks(&self) -> usize {
        self.cases.len().div_ceil(16)
    }
    fn run(&self, task: usize, f: Emit) -> bool {
        self.cases.iter().skip(task * 16).take(16).all(|c| f(c))
    }
}

/// All answers a program can get from `Chooser::pick`: the program is run once per answer sequence.
pub struct Choices {
    pub label: String,
    pub program: fn(&mut Chooser),
    /// given to the program, to bound it
    pub size: usize,
    /// answer prefixes, one per task
    prefixes: Vec<Vec<u16>>,
}

/// Answers the choices of one run from a fixed prefix, then with 0, recording how many answers there were.
pub struct Chooser {
    pub size: usize,
    given: Vec<u16>,
    pos: usize,
    arity: Vec<u16>,
    /// set when a run asks for more than is in the prefix and only the arity is wanted
    stop_after: Option<usize>,
    over: bool,
    pub reject: bool,
}

impl Chooser {
    pub fn new(given: Vec<u16>, size: usize) -> Self {
        Chooser {
            size,
            given,
            pos: 0,
            arity: vec![],
            stop_after: None,
            over: false,
            reject: false,
        }
    }
    pub fn pick(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        if self.stop_after.is_some_and(|s| self.pos >= s) {
            self.over = true;
        }
        if self.pos == self.given.len() {
            self.given.push(0);
        }
        if self.pos == self.arity.len() {
            self.arity.push(n as u16);
        }
        let c = self.given[self.pos] as usize;
        self.pos += 1;
        assert!(c < n, "a recorded choice does not fit the program");
        c
    }
    pub fn chance(&mut self) -> bool {
        self.pick(2) == 1
    }
}

impl Choices {
    pub fn new(label: impl Into<String>, program: fn(&mut Chooser), size: usize) -> Self {
        let mut me = Choices {
            label: label.into(),
            program,
            size,
            prefixes: vec![],
        };
        let cut = 3;
        let mut next = Some(vec![]);
        while let Some(given) = next {
            let mut c = Chooser::new(given, size);
            c.stop_after = Some(cut);
            (program)(&mut c);
            let n = c.given.len().min(cut);
            c.given.truncate(n);
            c.arity.truncate(n);
            me.prefixes.push(c.given.clone());
            next = bump(c.given, &c.arity, 0);
        }
        me
    }
}

/// The next answer sequence in depth-first order that keeps the first `keep` answers.
fn bump(mut given: Vec<u16>, arity: &[u16], keep: usize) -> Option<Vec<u16>> {
    while given.len() > keep {
        let i = given.len() - 1;
        if given[i] + 1 < arity[i] {
            given[i] += 1;
            return Some(given);
        }
        given.pop();
    }
    None
}

pub fn encode(v: &[u16]) -> String {
    let mut s = String::with_capacity(v.len() * 3);
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push('.');
        }
        s.push_str(&x.to_string());
    }
    s
}

pub fn decode(s: &str) -> Vec<u16> {
    s.split('.').filter_map(|x| x.parse().ok()).collect()
}

impl Space for Choices {
    fn name(&self) -> String {
        format!("{}: all choice sequences at size {}", self.label, self.size)
    }
    fn tasks(&self) -> usize {
        self.prefixes.len()
    }
    fn run(&self, task: usize, f: Emit) -> bool {
        let prefix = &self.prefixes[task];
        let keep = prefix.len();
        let mut next = Some(prefix.clone());
        while let Some(given) = next {
            let mut c = Chooser::new(given, self.size);
            (self.program)(&mut c);
            if !c.reject && !f(&format!("{}:{}", self.size, encode(&c.given))) {
                return false;
            }
            next = bump(c.given, &c.arity, keep);
        }
        true
    }
}

/// Runs a program on the choices a case of `Choices` records.
pub fn replay<T>(case: &str, program: impl FnOnce(&mut Chooser) -> T) -> T {
    let (size, rest) = case.split_once(':').expect("a choice case");
    let mut c = Chooser::new(decode(rest), size.parse().expect("a size"));
    program(&mut c)
}
