//! The code under test. Every call goes through here, so that a panic inside it can be told from a panic of the harness.

use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use yamd::lexer::{Lexer, Token};
use yamd::op::Op;
use yamd::Yamd;

thread_local! {
    static IN_IMPL: Cell<bool> = const { Cell::new(false) };
    static LAST: RefCell<Option<(bool, String)>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let at = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let inside = IN_IMPL.with(|f| f.get());
        LAST.with(|l| *l.borrow_mut() = Some((inside, format!("{msg} ({at})"))));
    }));
}

/// Runs code under test.
pub fn enter<T>(f: impl FnOnce() -> T) -> T {
    let old = IN_IMPL.with(|c| c.replace(true));
    let r = f();
    IN_IMPL.with(|c| c.set(old));
    r
}

pub enum Caught {
    /// the code under test panicked
    Impl(String),
    /// the harness panicked
    Harness(String),
}

/// Catches a panic and says whose it is.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, Caught> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        IN_IMPL.with(|c| c.set(false));
        match LAST.with(|l| l.borrow_mut().take()) {
            Some((true, m)) => Caught::Impl(m),
            Some((false, m)) => Caught::Harness(m),
            None => Caught::Harness("a panic without a message".into()),
        }
    })
}

/// Like `catch` for calls that are allowed to panic.
pub fn catch_impl<T>(f: impl FnOnce() -> T) -> Option<T> {
    match catch(|| enter(f)) {
        Ok(t) => Some(t),
        Err(Caught::Impl(_)) => None,
        Err(Caught::Harness(m)) => panic!("{m}"),
    }
}

pub fn lex(s: &str) -> Vec<Token> {
    enter(|| Lexer::new(s).collect())
}
pub fn ops(s: &str) -> Vec<Op> {
    enter(|| yamd::parse(s))
}
pub fn tree(s: &str) -> Yamd {
    enter(|| yamd::deserialize(s))
}
pub fn print(y: &Yamd) -> String {
    enter(|| y.to_string())
}
pub fn fold(ops: &[Op], s: &str) -> Yamd {
    enter(|| yamd::to_yamd(ops, s))
}
pub fn try_fold(ops: &[Op], s: &str) -> Result<Yamd, yamd::UnbalancedOpStream> {
    enter(|| yamd::try_to_yamd(ops, s))
}
