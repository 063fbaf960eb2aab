//! Two calls into yamd in two threads under a controlled scheduler.
//!
//! Only the thread whose turn it is runs; it can lose its turn at every point: before every basic block, load and store
//! of yamd (the compiler puts a call there, see wrap.sh). A schedule says at which of its points each thread hands over.
//!
//! sched one A B STRIDE OFFSET: for every point k = OFFSET, OFFSET + STRIDE, …: A up to k, all of B, the rest of A.
//! sched two A B LIMIT:         for all block starts k of A and j of B (up to LIMIT each): A up to k, B up to j, all of A, the rest of B.
//! sched fresh A B OFFSET STRIDE: like `one`, at block starts, each schedule in a process of its own.
//! A and B are "document action". Exit 0: all answers are those of a call alone; 1: a line `bad …` tells the schedule.

use std::cell::Cell;
use std::process::Command;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Mutex, OnceLock};
use std::thread::Thread;
use std::time::{Duration, Instant};

const DOCS: &[&str] = &[
    "a",
    "*a* b",
    "\\*a\\\nb",
    "- a\n - b\n+ c",
    "{% t\na\n%}",
    "!! t\n! i\na\n!!",
    "```x\n\\a\n```",
    "---\nm\n---\n# h [a](b)",
    "{{a|b}}\n![a](b)\n![c](d)",
    "**a _b_** ~~c~~ `d`",
    "{% t\n- a\r\n\r\n{{",
    "-----\n\n[a](b(c)) é",
];
const ACTIONS: usize = 6;

fn act(doc: usize, action: usize) -> String {
    let s = DOCS[doc];
    match action {
        0 => format!("{:?}", yamd::lexer::Lexer::new(s).collect::<Vec<_>>()),
        1 => format!("{:?}", yamd::parse(s)),
        2 => format!("{:?}", yamd::deserialize(s)),
        3 => yamd::deserialize(s).to_string(),
        4 => format!("{:?}", yamd::try_to_yamd(&yamd::parse(s), s)),
        _ => yamd::deserialize(&yamd::deserialize(s).to_string()).to_string(),
    }
}

// ---- the scheduler ----------------------------------------------------------------------------------------

const NOBODY: usize = 9;
/// No order any more: a thread waits for a lock the other one holds.
const FREE: usize = 8;

static TURN: AtomicUsize = AtomicUsize::new(NOBODY);
static ROUND: AtomicUsize = AtomicUsize::new(0);
static DONE: [AtomicUsize; 2] = [AtomicUsize::new(0), AtomicUsize::new(0)];
static STOP: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];
/// Whether only block starts count as points.
static BLOCKS: AtomicUsize = AtomicUsize::new(0);
static BLOCKED: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static ME: Cell<usize> = const { Cell::new(NOBODY) };
    static POINTS: Cell<u64> = const { Cell::new(0) };
}

fn point(block: bool) {
    let me = ME.get();
    if me == NOBODY || (!block && BLOCKS.load(SeqCst) == 1) {
        return;
    }
    let n = POINTS.get() + 1;
    POINTS.set(n);
    if n == STOP[me].load(SeqCst) {
        hand_over(me);
    }
}

/// The two callers and the one that hands out schedules, to be woken.
static WHO: OnceLock<[Thread; 3]> = OnceLock::new();

fn wake(i: usize) {
    if let Some(w) = WHO.get() {
        w[i].unpark();
    }
}

/// Waits until something holds, for at most `limit`.
fn wait_for(limit: Duration, cond: impl Fn() -> bool) -> bool {
    for _ in 0..300 {
        if cond() {
            return true;
        }
        std::hint::spin_loop();
    }
    let from = Instant::now();
    while !cond() {
        if from.elapsed() > limit {
            return false;
        }
        std::thread::park_timeout(Duration::from_millis(5));
    }
    true
}

const LONG: Duration = Duration::from_secs(3600);

fn hand_over(me: usize) {
    let round = ROUND.load(SeqCst);
    if DONE[1 - me].load(SeqCst) == round || TURN.load(SeqCst) == FREE {
        return;
    }
    TURN.store(1 - me, SeqCst);
    wake(1 - me);
    // if there are locks, the other thread may be waiting for one of this thread
    let limit = if BLOCKED.load(SeqCst) < 5 { 200 } else { 5 };
    if !wait_for(Duration::from_millis(limit), || TURN.load(SeqCst) != 1 - me)
        && TURN.compare_exchange(1 - me, FREE, SeqCst, SeqCst).is_ok()
    {
        BLOCKED.fetch_add(1, SeqCst);
        wake(1 - me);
    }
}

macro_rules! points {
    ($($name:ident)*) => {$(
        #[no_mangle]
        pub extern "C" fn $name(_: usize) {
            point(false)
        }
    )*};
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    point(true)
}

points! {
    __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16
}

/// One thread's share of a schedule: its call, as soon as it is its turn.
fn call(me: usize, (doc, action): (usize, usize)) -> String {
    wait_for(LONG, || matches!(TURN.load(SeqCst), t if t == me || t == FREE));
    POINTS.set(0);
    ME.set(me);
    let got = std::panic::catch_unwind(|| act(doc, action)).unwrap_or_else(|_| "a panic".to_owned());
    ME.set(NOBODY);
    got
}

fn finish(me: usize, round: usize) {
    DONE[me].store(round, SeqCst);
    if TURN.load(SeqCst) != FREE && DONE[1 - me].load(SeqCst) != round {
        TURN.store(1 - me, SeqCst);
        wake(1 - me);
    }
    wake(2);
}

type Schedules = Box<dyn Iterator<Item = (u64, u64)>>;

struct Pair {
    calls: [(usize, usize); 2],
    want: [String; 2],
}

impl Pair {
    fn bad(&self, what: &str, stops: (u64, u64), got: &str) -> ! {
        println!("bad {what}: {:?} and {:?}, handed over at points {stops:?}: {got}", self.calls[0], self.calls[1]);
        std::process::exit(1)
    }

    /// Runs schedules, each given by the points at which the two hand over: `first`, then those chosen knowing how many
    /// points each of the calls had. Gives the number of schedules and of points.
    fn run(&self, first: (u64, u64), rest: impl FnOnce([u64; 2]) -> Schedules) -> (u64, [u64; 2]) {
        let result: &'static [Mutex<(String, u64)>; 2] = Box::leak(Default::default());
        let calls = self.calls;
        let caller = |me: usize| {
            std::thread::spawn(move || {
                let mut round = 0;
                loop {
                    wait_for(LONG, || ROUND.load(SeqCst) != round);
                    round = ROUND.load(SeqCst);
                    let got = call(me, calls[me]);
                    *result[me].lock().unwrap() = (got, POINTS.get());
                    finish(me, round);
                }
            })
            .thread()
            .clone()
        };
        WHO.set([caller(0), caller(1), std::thread::current()]).expect("one run in a process");
        let mut schedules = 0;
        let mut one = |(k, j): (u64, u64)| {
            STOP[0].store(k, SeqCst);
            STOP[1].store(j, SeqCst);
            let round = ROUND.load(SeqCst) + 1;
            TURN.store(0, SeqCst);
            ROUND.store(round, SeqCst);
            wake(0);
            wake(1);
            let done = || DONE.iter().all(|d| d.load(SeqCst) == round);
            if !wait_for(Duration::from_secs(15), done) {
                self.bad("no answer", (k, j), "a deadlock or an endless loop");
            }
            schedules += 1;
            [0, 1].map(|me| {
                let r = result[me].lock().unwrap();
                if r.0 != self.want[me] {
                    self.bad("answer", (k, j), &format!("{:?} instead of {:?}", r.0, self.want[me]));
                }
                r.1
            })
        };
        let points = one(first);
        let from = Instant::now();
        for s in rest(points) {
            if BLOCKED.load(SeqCst) > 150 || from.elapsed() > Duration::from_secs(35) {
                print!("cut ");
                break;
            }
            one(s);
        }
        (schedules, points)
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let n = |i: usize| -> u64 { args.get(i).and_then(|a| a.parse().ok()).unwrap_or(0) };
    let a = |i: usize| ((n(i) as usize) % DOCS.len(), (n(i + 1) as usize) % ACTIONS);
    let calls = [a(1), a(3)];
    if args[0] == "once" {
        // nothing may be called before in this process
        BLOCKS.store(1, SeqCst);
        Pair { calls, want: [args[6].clone(), args[7].clone()] }.run((n(5), 0), |_| Box::new(std::iter::empty()));
        return;
    }
    let pair = Pair { calls, want: calls.map(|(d, a)| act(d, a)) };
    BLOCKS.store((args[0] != "one") as usize, SeqCst);
    let (x, y) = (n(5), n(6));
    let begun = Instant::now();
    let (mut schedules, points) = pair.run((0, 0), |points| match args[0].as_str() {
        "one" => Box::new((1 + y..=points[0]).step_by(x.max(1) as usize).map(|k| (k, 0))),
        "two" => {
            let (ka, kb) = (points[0].min(x), points[1].min(x));
            Box::new((1..=ka).flat_map(move |k| (1..=kb).map(move |j| (k, j))))
        }
        _ => Box::new(std::iter::empty()),
    });
    if args[0] == "fresh" {
        for k in (1 + x..=points[0]).step_by(y.max(1) as usize) {
            if begun.elapsed() > Duration::from_secs(35) {
                print!("cut ");
                break;
            }
            let out = Command::new(std::env::current_exe().expect("a path"))
                .arg("once")
                .args(&args[1..5])
                .arg(k.to_string())
                .args(&pair.want)
                .output()
                .expect("another process");
            schedules += 1;
            if !out.status.success() {
                println!("{}{}", String::from_utf8_lossy(&out.stdout), String::from_utf8_lossy(&out.stderr));
                std::process::exit(1);
            }
        }
    }
    println!("schedules {schedules} points {} {} blocked {}", points[0], points[1], BLOCKED.load(SeqCst));
    // the callers are still waiting
    std::process::exit(0);
}
