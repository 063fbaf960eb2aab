// ---- C28: the random document tool ---------------------------------------------------------------------------

/// Runs the tool, built against a generator whose draws are choices: what it did, and how many alternatives each draw had.
fn run_random(length: usize, limit: &str, fill: (usize, usize), choices: &[usize]) -> (std::process::Output, Vec<usize>) {
    let bin = std::env::var("YAMD_RANDOM_BIN").expect("YAMD_RANDOM_BIN names the built tool");
    let mut cmd = std::process::Command::new(bin);
    cmd.arg("random").arg(length.to_string());
    if limit != "default" {
        cmd.arg("-m").arg(limit);
    }
    let choices: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
    let out = cmd
        .env("MC_CHOICES", choices.join(","))
        .env("MC_FILL", format!("{} {}", fill.0, fill.1))
        .env("RUST_BACKTRACE", "0")
        .output()
        .expect("the tool runs");
    let draws = String::from_utf8_lossy(&out.stderr)
        .lines()
        .filter_map(|l| l.strip_prefix("mc-draw ")?.parse().ok())
        .collect();
    (out, draws)
}

/// The tool's runs at one setting: all resolutions of the first `depth` draws, later ones going round the alternatives
/// from the first number of `fill` in steps of the second.
pub struct Draws {
    pub length: usize,
    pub limit: String,
    pub fill: (usize, usize),
    pub depth: usize,
}

impl Draws {
    fn explore(&self, first: Option<usize>, f: &mut dyn FnMut(&[usize]) -> bool) -> bool {
        let fixed = first.is_some() as usize;
        let mut given: Vec<usize> = first.into_iter().collect();
        loop {
            let (_, draws) = run_random(self.length, &self.limit, self.fill, &given);
            if let Some(first) = first {
                if draws.first().is_none_or(|n| first >= *n) && !(first == 0 && draws.is_empty()) {
                    return true;
                }
            }
            if !f(&given) {
                return false;
            }
            given.resize(draws.len().min(self.depth), 0);
            while given.len() > fixed && given.last().is_some_and(|c| c + 1 >= draws[given.len() - 1]) {
                given.pop();
            }
            if given.len() <= fixed {
                return true;
            }
            *given.last_mut().expect("a choice") += 1;
        }
    }
}

impl crate::space::Space for Draws {
    fn name(&self) -> String {
        format!(
            "draws: {} bytes, literal limit {}, all outcomes of the first {} draws, then going round from {} by {}",
            self.length, self.limit, self.depth, self.fill.0, self.fill.1
        )
    }
    fn tasks(&self) -> usize {
        64
    }
    fn run(&self, task: usize, f: crate::space::Emit) -> bool {
        self.explore(Some(task), &mut |given| {
            let given: Vec<String> = given.iter().map(|c| c.to_string()).collect();
            f(&format!("{} {} {} {} {}", self.length, self.limit, self.fill.0, self.fill.1, given.join(",")))
        })
    }
}

const MARKERS: &[&str] = &[
    "\n\n", "\n", "{", "}", "{%", "%}", "~", "*", " ", "-", "#", ">", "!", "`", "+", "[", "]", "(", ")", "_", "|",
];

/// Literals have from 3 to below this many characters.
fn literal_end(limit: &str) -> usize {
    limit.parse().unwrap_or(10).max(4)
}

fn random_tool(case: &str, st: &mut Stats) -> Res {
    let mut it = case.split(' ');
    let length: usize = it.next().and_then(|v| v.parse().ok()).expect("a length");
    let limit = it.next().expect("a limit");
    let mut number = || it.next().and_then(|v| v.parse().ok()).expect("a filling");
    let fill = (number(), number());
    let choices: Vec<usize> = it.next().unwrap_or("").split(',').filter_map(|v| v.parse().ok()).collect();
    let (out, draws) = run_random(length, limit, fill, &choices);
    if !out.status.success() {
        return Err(format!("the tool ends with {:?}: {}", out.status, String::from_utf8_lossy(&out.stderr)));
    }
    let text = String::from_utf8(out.stdout).map_err(|e| format!("not UTF-8: {e}"))?;
    let body = text.strip_suffix('\n').ok_or_else(|| format!("no line break at the end of {text:?}"))?;
    if body.len() < length {
        return Err(format!("{} bytes instead of at least {length}: {body:?}", body.len()));
    }
    // where the tokens printed so far can end
    let at: Vec<usize> = body.char_indices().map(|c| c.0).chain([body.len()]).collect();
    let mut ends = vec![false; at.len()];
    ends[0] = true;
    let mut done = length == 0 && body.is_empty();
    for i in 0..at.len() {
        if !ends[i] || at[i] >= length {
            continue;
        }
        let rest = &body[at[i]..];
        let mut next: Vec<usize> = MARKERS.iter().filter(|m| rest.starts_with(**m)).map(|m| i + m.len()).collect();
        next.extend((3..literal_end(limit)).map(|n| i + n).filter(|j| *j < at.len()));
        for j in next {
            ends[j] = true;
            done |= at[j] == body.len();
        }
    }
    if !done {
        return Err(format!("{body:?} is not a sequence of markers and literals that ends with the token reaching {length} bytes"));
    }
    // what was printed is a document like any other
    imp::tree(body);
    st.case(hash(&(length, limit.len(), &draws, lm::lex(body).iter().map(|t| t.k).collect::<Vec<_>>())), draws.len() + 1);
    Ok(())
}

fn random_named(_: bool) -> Vec<String> {
    let limits = ["0", "3", "4", "5", "6", "default", "20", "40", "64", "65", "100", "257", "1000", "5000", "65536"].iter().map(|l| format!("literals below {l}"));
    let long = [255, 256, 257, 1023, 1024, 1025, 4096, 5000, 16_384, 65_535, 65_536, 70_000, 200_000]
        .iter()
        .flat_map(|n| (0..8).map(move |k| format!("run {n} default {} {} ", k * 3, 1 + k % 4 * 2)));
    std::iter::once("every token can be drawn".into()).chain(limits).chain(long).collect()
}

/// A literal of each length below the limit can be drawn (of the shortest and the longest, for many lengths).
fn random_literals(limit: &str, st: &mut Stats) -> Res {
    let mut lengths = std::collections::BTreeSet::new();
    Draws { length: 1, limit: limit.to_owned(), fill: (0, 0), depth: 2 }.explore(None, &mut |given| {
        let (out, _) = run_random(1, limit, (0, 0), given);
        st.validated += 1;
        st.transitions += 1;
        let n = String::from_utf8_lossy(&out.stdout).trim_end_matches('\n').chars().count();
        if n >= 3 {
            st.state(hash(&n));
            lengths.insert(n);
        }
        true
    });
    if literal_end(limit) > 64 {
        // only representatives are drawn from so many
        let edges = (lengths.first().copied(), lengths.last().copied());
        return differ("shortest and longest literal", &(Some(3), Some(literal_end(limit) - 1)), &edges);
    }
    let want: Vec<usize> = (3..literal_end(limit)).collect();
    differ("lengths of literals", &want, &lengths.into_iter().collect::<Vec<_>>())
}

fn random_every(name: &str, st: &mut Stats) -> Res {
    if let Some(limit) = name.strip_prefix("literals below ") {
        return random_literals(limit, st);
    }
    if let Some(case) = name.strip_prefix("run ") {
        return random_tool(case, st);
    }
    let mut seen = std::collections::BTreeSet::new();
    let mut literals = std::collections::BTreeSet::new();
    let mut chars = std::collections::BTreeSet::new();
    Draws { length: 1, limit: "6".into(), fill: (0, 0), depth: 3 }.explore(None, &mut |given| {
        let (out, _) = run_random(1, "6", (0, 0), given);
        st.validated += 1;
        let text = String::from_utf8_lossy(&out.stdout).into_owned();
        let body = text.strip_suffix('\n').unwrap_or(&text).to_owned();
        if body.chars().count() >= 3 {
            literals.insert(body.chars().count());
            chars.extend(body.chars().map(|c| c.len_utf8()));
        }
        seen.insert(body);
        true
    });
    st.transitions += st.validated;
    for s in &seen {
        st.state(hash(s));
    }
    for m in MARKERS {
        if !seen.contains(*m) {
            return Err(format!("the marker {m:?} is never drawn"));
        }
    }
    differ("lengths of literals", &vec![3, 4, 5], &literals.into_iter().collect::<Vec<_>>())?;
    differ("sizes of characters", &vec![1, 2, 3, 4], &chars.into_iter().collect::<Vec<_>>())
}

/// One run per length, literal limit and way of going round the alternatives.
struct Rounds(usize);

impl crate::space::Space for Rounds {
    fn name(&self) -> String {
        format!("rounds: 0 to {} bytes, literal limits, draws going round the alternatives in 88 ways", self.0)
    }
    fn tasks(&self) -> usize {
        self.0 + 1
    }
    fn run(&self, task: usize, f: crate::space::Emit) -> bool {
        ["default", "3", "4", "6", "1000"].iter().all(|limit| {
            (0..22).all(|start| [1, 3, 5, 7].iter().all(|step| f(&format!("{task} {limit} {start} {step} "))))
        })
    }
}

fn random_spaces(t: bool) -> Spaces {
    let mut v: Spaces = vec![Box::new(Rounds(if t { 300 } else { 20 }))];
    for length in if t { vec![0, 1, 2, 3, 4, 5, 8, 20, 100] } else { vec![0, 1, 3, 5] } {
        let limits: &[&str] = if t {
            &["default", "0", "1", "2", "3", "4", "5", "6", "20", "1000"]
        } else {
            &["default", "0", "3", "4", "5"]
        };
        for limit in limits {
            for fill in if t { vec![(0, 0), (1, 0), (2, 1), (3, 0)] } else { vec![(0, 0), (3, 0)] } {
                let depth = match (length, *limit) {
                    (3 | 5, "default") if t && fill == (0, 0) => 4,
                    (3, "4") if !t && fill == (3, 0) => 3,
                    _ if t => 3,
                    _ => 2,
                };
                v.push(Box::new(Draws { length, limit: limit.to_string(), fill, depth }));
            }
        }
    }
    v
}
