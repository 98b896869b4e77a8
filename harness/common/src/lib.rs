//! Shared by the replay harnesses: seeded choice, case bookkeeping, panic capture, watchdog, JSON.
use std::collections::HashSet;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
}

static CURRENT: Mutex<String> = Mutex::new(String::new());
static CASE_NR: AtomicU64 = AtomicU64::new(0);
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub struct Run {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub rng: Rng,
    start: Instant,
    budget: Duration,
    pub evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    violations: Vec<(String, String)>,
    kinds: HashSet<String>,
    trace: Option<String>,
    pub notes: Vec<String>,
    pub rule: String,
    /// Set when a finite space was enumerated completely.
    pub enumerated: Vec<String>,
    /// (index, count): an enumeration is split over several processes
    pub shard: (u64, u64),
    pub enumerating: bool,
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn print_result(r: &Run, hang: Option<&str>) {
    let mut v = r.violations.clone();
    if let Some(h) = hang {
        v.push((h.to_string(), "the call did not return within 30 s".into()));
    }
    v.sort_by_key(|x| x.0.len());
    let list = |xs: &[String]| xs.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",");
    let vs: Vec<String> = v
        .iter()
        .take(20)
        .map(|(i, w)| format!("{{\"input\":{},\"what\":{}}}", json_str(i), json_str(w)))
        .collect();
    println!(
        "RESULT {{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"violations\":[{}],\"violation_count\":{},\"notes\":[{}],\"enumerated\":[{}],\"wall_s\":{:.2}}}",
        r.evals,
        r.distinct.len(),
        json_str(&r.rule),
        list(&r.samples),
        vs.join(","),
        v.len(),
        list(&r.notes),
        list(&r.enumerated),
        r.start.elapsed().as_secs_f64()
    );
}

impl Run {
    /// argv: PROP SEED TIER BUDGET_SECONDS [TRACE_FILE]
    pub fn from_args() -> Run {
        let a: Vec<String> = std::env::args().collect();
        let seed: u64 = a[2].parse().unwrap();
        let shard = std::env::var("VERIF_SHARD").ok().and_then(|s| {
            let (i, n) = s.split_once('/')?;
            Some((i.parse().ok()?, n.parse().ok()?))
        });
        let shard: (u64, u64) = shard.unwrap_or((0, 1));
        std::panic::set_hook(Box::new(|i| {
            let msg = i
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| i.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            if CASE_NR.load(Ordering::Relaxed) & 1 == 0 { eprintln!("harness panic at {loc}: {msg}"); }
            if let Ok(mut p) = LAST_PANIC.lock() {
                *p = format!("panic at {loc}: {msg}");
            }
        }));
        std::thread::spawn(|| {
            let mut last = 0;
            let mut stuck = 0;
            loop {
                std::thread::sleep(Duration::from_secs(1));
                let n = CASE_NR.load(Ordering::Relaxed);
                if n == last && n & 1 == 1 {
                    stuck += 1;
                    if stuck > 30 {
                        let c = CURRENT.lock().map(|c| c.clone()).unwrap_or_default();
                        println!(
                            "RESULT {{\"evaluations\":{},\"distinct_nontrivial\":0,\"rule\":\"\",\"samples\":[],\"violations\":[{{\"input\":{},\"what\":\"the call did not return within 30 s\"}}],\"violation_count\":1,\"notes\":[],\"enumerated\":[],\"wall_s\":30}}",
                            n / 2,
                            json_str(&c)
                        );
                        std::process::exit(0);
                    }
                } else {
                    stuck = 0;
                    last = n;
                }
            }
        });
        Run {
            prop: a[1].clone(),
            thorough: a[3] == "thorough",
            seed,
            rng: Rng((seed * 64 + shard.0).wrapping_mul(0x2545F4914F6CDD1D) ^ 0xABCDEF),
            start: Instant::now(),
            budget: Duration::from_secs_f64(a[4].parse().unwrap()),
            evals: 0,
            distinct: HashSet::new(),
            samples: vec![],
            violations: vec![],
            kinds: HashSet::new(),
            trace: a.get(5).cloned(),
            notes: vec![],
            rule: String::new(),
            enumerated: vec![],
            shard,
            enumerating: false,
        }
    }
    pub fn time_left(&self) -> bool {
        self.start.elapsed() < self.budget && self.violations.len() < 200
    }
    pub fn frac(&self) -> f64 {
        self.start.elapsed().as_secs_f64() / self.budget.as_secs_f64()
    }
    /// Evaluate one case. `input` identifies it; `f` returns Err(what) when the contract is broken.
    pub fn case(&mut self, input: &str, nontrivial: bool, f: impl FnOnce() -> Result<(), String>) -> bool {
        let mut h = DefaultHasher::new();
        input.hash(&mut h);
        let h = h.finish();
        if self.enumerating && h % self.shard.1 != self.shard.0 {
            return true;
        }
        self.evals += 1;
        if nontrivial {
            if self.distinct.insert(h) && (self.samples.len() < 3 || (self.samples.len() < 8 && self.rng.chance(1, 500))) {
                self.samples.push(input.chars().take(300).collect());
            }
        }
        {
            let mut c = CURRENT.lock().unwrap();
            c.clear();
            c.push_str(input);
        }
        if let Some(t) = &self.trace {
            let _ = std::fs::write(t, input);
        }
        CASE_NR.fetch_add(1, Ordering::Relaxed);
        let r = catch_unwind(AssertUnwindSafe(f));
        CASE_NR.fetch_add(1, Ordering::Relaxed);
        let what = match r {
            Ok(Ok(())) => return true,
            Ok(Err(w)) => w,
            Err(_) => LAST_PANIC.lock().map(|p| p.clone()).unwrap_or("panic".into()),
        };
        let kind: String = what.chars().take(40).collect();
        if self.kinds.insert(kind) || self.violations.len() < 40 {
            self.violations.push((input.to_string(), what));
        } else {
            // keep the shortest
            if let Some(v) = self.violations.iter_mut().max_by_key(|v| v.0.len()) {
                if v.0.len() > input.len() {
                    *v = (input.to_string(), what);
                }
            }
        }
        false
    }
    pub fn finish(self) -> ! {
        print_result(&self, None);
        std::process::exit(0)
    }
}

/// All strings over `alphabet` (of string pieces) up to `n` pieces.
pub fn words<'a>(alphabet: &'a [&'a str], n: usize, f: &mut dyn FnMut(&str) -> bool) -> bool {
    fn go(al: &[&str], n: usize, cur: &mut String, f: &mut dyn FnMut(&str) -> bool) -> bool {
        if !f(cur) {
            return false;
        }
        if n == 0 {
            return true;
        }
        for a in al {
            let l = cur.len();
            cur.push_str(a);
            if !go(al, n - 1, cur, f) {
                return false;
            }
            cur.truncate(l);
        }
        true
    }
    go(alphabet, n, &mut String::new(), f)
}

pub fn random_word(rng: &mut Rng, alphabet: &[&str], max: usize) -> String {
    let n = rng.range(0, max);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(alphabet[rng.below(alphabet.len())]);
    }
    s
}
