//! Shared parts of the bounded harnesses: a seeded generator, the failure report and a watchdog.
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    pub fn pick_s(&mut self, xs: &[&str]) -> String {
        xs[self.below(xs.len() as u64) as usize].to_string()
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            xs.swap(i, self.below(i as u64 + 1) as usize);
        }
    }
    /// an integer that likes boundaries
    pub fn edgy(&mut self) -> u64 {
        const E: &[u64] = &[0, 1, 2, 3, 7, 8, 9, 10, 59, 60, 61, 89, 90, 91, 127, 128, 255, 256, 257, 1000, 1023, 1024,
            1800, 3600, 65534, 65535, 65536, 0x7fff_fffe, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff,
            0x1_0000_0000, 0x1_0000_0001, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, u64::MAX - 1, u64::MAX];
        match self.below(4) {
            0 | 1 => *self.pick(E),
            2 => self.below(20),
            _ => self.next() >> self.below(64),
        }
    }
}

pub struct Failure {
    pub key: String,
    pub what: String,
    pub input: String,
}

struct Watch {
    case: Option<(Instant, String)>,
    done: bool,
}

pub struct Report {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub evaluations: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    failures: Vec<Failure>,
    keys: HashSet<String>,
    t0: Instant,
    pub budget: Duration,
    watch: Arc<Mutex<Watch>>,
    rule: String,
    last: String,
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn emit(prop: &str, ev: u64, distinct: usize, rule: &str, samples: &[String], fails: &[Failure]) {
    let s: Vec<String> = samples.iter().map(|x| esc(x)).collect();
    let f: Vec<String> = fails
        .iter()
        .map(|f| format!("{{\"key\":{},\"what\":{},\"input\":{}}}", esc(&f.key), esc(&f.what), esc(&f.input)))
        .collect();
    println!(
        "RESULT {{\"property\":{},\"evaluations\":{},\"distinct\":{},\"rule\":{},\"samples\":[{}],\"failures\":[{}]}}",
        esc(prop), ev, distinct, esc(rule), s.join(","), f.join(",")
    );
}

impl Report {
    /// args: PROP SEED TIER SECONDS
    pub fn from_args() -> Report {
        let a: Vec<String> = std::env::args().collect();
        let prop = a.get(1).cloned().unwrap_or_default();
        let seed = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
        let tier = a.get(3).cloned().unwrap_or_else(|| "quick".into());
        let secs = a.get(4).and_then(|s| s.parse().ok()).unwrap_or(15u64);
        if std::env::var("HARNESS_PANICS").is_err() {
            std::panic::set_hook(Box::new(|_| {}));
        }
        let watch = Arc::new(Mutex::new(Watch { case: None, done: false }));
        let w = watch.clone();
        let p = prop.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let g = w.lock().unwrap();
            if g.done {
                return;
            }
            if let Some((t, c)) = &g.case {
                if t.elapsed() > Duration::from_secs(25) {
                    emit(&p, 1, 1, "watchdog", &[c.clone()],
                        &[Failure { key: "hang".into(), what: "no answer within 25 s".into(), input: c.clone() }]);
                    std::process::exit(0);
                }
            }
        });
        Report {
            prop, tier, seed, evaluations: 0, distinct: HashSet::new(), samples: vec![], failures: vec![],
            keys: HashSet::new(), t0: Instant::now(), budget: Duration::from_secs(secs), watch, rule: String::new(),
            last: String::new(),
        }
    }
    pub fn rule(&mut self, r: &str) {
        self.rule = r.to_string();
    }
    pub fn rng(&self, salt: u64) -> Rng {
        Rng::new(self.seed.wrapping_mul(1_000_003).wrapping_add(salt))
    }
    pub fn time_left(&self) -> bool {
        self.t0.elapsed() < self.budget && self.failures.len() < 12
    }
    /// share: fraction num/den of the whole budget
    pub fn until(&self, num: u32, den: u32) -> Instant {
        self.t0 + self.budget * num / den
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    /// counts a case and keeps its description for a failure or a hang
    pub fn case(&mut self, desc: &str) {
        self.evaluations += 1;
        let mut h = DefaultHasher::new();
        desc.hash(&mut h);
        if self.distinct.len() < 2_000_000 {
            self.distinct.insert(h.finish());
        }
        let n = self.evaluations;
        if self.samples.len() < 6 && (n == 1 || n == 10 || n == 100 || n == 1000 || n == 5000) {
            self.samples.push(desc.chars().take(400).collect());
        }
        self.last = desc.to_string();
        self.watch.lock().unwrap().case = Some((Instant::now(), desc.to_string()));
    }
    pub fn fail(&mut self, key: &str, what: &str) {
        let input = self.last.clone();
        if self.keys.insert(key.to_string()) {
            self.failures.push(Failure { key: key.into(), what: what.into(), input });
        }
    }
    pub fn fail_with(&mut self, key: &str, what: &str, input: &str) {
        if self.keys.insert(key.to_string()) {
            self.failures.push(Failure { key: key.into(), what: what.into(), input: input.into() });
        }
    }
    pub fn check(&mut self, ok: bool, key: &str, what: impl FnOnce() -> String) {
        if !ok {
            let w = what();
            self.fail(key, &w);
        }
    }
    /// runs f; a panic is a failure with key `panic-KEY`
    pub fn guard<T>(&mut self, key: &str, f: impl FnOnce() -> T) -> Option<T> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => Some(v),
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                self.fail(&format!("panic-{key}"), &format!("panicked: {m}"));
                None
            }
        }
    }
    pub fn finish(self) {
        self.watch.lock().unwrap().done = true;
        emit(&self.prop, self.evaluations, self.distinct.len(), &self.rule, &self.samples, &self.failures);
    }
}

/// the harness itself fell over (usually an indexing panic after the real code diverged): still report
impl Drop for Report {
    fn drop(&mut self) {
        if std::thread::panicking() && !self.watch.lock().map(|g| g.done).unwrap_or(true) {
            let input = self.last.clone();
            self.fail_with("panic", "the run panicked while the real code was being exercised", &input);
            self.watch.lock().unwrap().done = true;
            emit(&self.prop, self.evaluations, self.distinct.len(), &self.rule, &self.samples, &self.failures);
        }
    }
}
