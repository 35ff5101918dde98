use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.u64() % n as u64) as usize }
    }
    /// uniform in a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        // mostly uniform, sometimes all small or all large: their encodings
        // differ in size
        match self.below(4) {
            0 => (0..n).map(|_| (self.u64() % 24) as u8).collect(),
            1 => (0..n).map(|_| 200 + (self.u64() % 56) as u8).collect(),
            _ => (0..n).map(|_| self.u64() as u8).collect(),
        }
    }
    /// text that somebody could be tempted to tidy up
    pub fn text(&mut self) -> String {
        const PARTS: &[&str] = &[
            "a", "B", "/", ".", "..", " ", "  ", "\t", "\n", "\r\n", "\u{0}", "\u{1b}[1m", "\u{7f}", "\"", "'", "\\", "\\n", "$", "$.payload.id", "{}", "{", "}", "%s", "\u{e9}", "e\u{301}",
            "\u{672c}", "\u{1f600}", "\u{feff}", "\u{200b}", "\u{2028}", "\u{a0}", "\u{fffd}", "\u{202e}", "\u{10ffff}", "\u{df}", "\u{130}", "(os error 2)", "os error 2", "No such file or directory", "error: ", "null", "0", "-1",
        ];
        let n = self.below(6);
        (0..n).map(|_| *self.pick(PARTS)).collect()
    }
    pub fn shuffle<T>(&mut self, v: &mut Vec<T>) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

struct Shared {
    case: String,
    case_started: Instant,
    evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    done: bool,
}

pub struct Ctx {
    prop: String,
    pub seed: u64,
    pub thorough: bool,
    started: Instant,
    budget: Duration,
    out: String,
    pub rng: RefCell<Rng>,
    shared: Arc<Mutex<Shared>>,
    pub rule: RefCell<String>,
}

/// a single case that runs longer than this counts as a hang
const HANG: Duration = Duration::from_secs(120);

impl Ctx {
    pub fn new(prop: &str, seed: u64, tier: &str, secs: f64, out: &str) -> Self {
        Ctx {
            prop: prop.into(),
            seed,
            thorough: tier == "thorough",
            started: Instant::now(),
            budget: Duration::from_millis((secs * 1000.0) as u64),
            out: out.into(),
            rng: RefCell::new(Rng::new(seed)),
            shared: Arc::new(Mutex::new(Shared {
                case: String::new(),
                case_started: Instant::now(),
                evals: 0,
                distinct: HashSet::new(),
                samples: vec![],
                done: false,
            })),
            rule: RefCell::new(String::new()),
        }
    }
    pub fn time_left(&self) -> bool {
        // memory for counting distinct cases is bounded
        self.started.elapsed() < self.budget && self.shared.lock().unwrap().evals < 8_000_000
    }
    pub fn rule(&self, s: &str) {
        *self.rule.borrow_mut() = s.into();
    }
    /// announce a case; it is what a panic or a hang is blamed on
    pub fn case(&self, desc: String) {
        let mut s = self.shared.lock().unwrap();
        s.evals += 1;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        desc.hash(&mut h);
        if s.distinct.insert(h.finish()) && s.samples.len() < 5 {
            let n = s.evals;
            let mut d = format!("case {}: {}", n, desc);
            cut(&mut d, 400);
            s.samples.push(d);
        }
        s.case = desc;
        s.case_started = Instant::now();
    }
    fn report(prop: &str, seed: u64, out: &str, rule: &str, s: &Shared, fail: Option<&str>) {
        let j = serde_json::json!({
            "property": prop, "seed": seed, "ok": fail.is_none(),
            "evaluations": s.evals, "distinct_nontrivial": s.distinct.len(),
            "samples": s.samples, "rule": rule,
            "case": if fail.is_some() { s.case.as_str() } else { "" },
            "failure": fail.unwrap_or(""),
        });
        std::fs::write(out, serde_json::to_string_pretty(&j).unwrap()).unwrap();
    }
    pub fn run(self, f: fn(&Ctx) -> Result<(), String>) {
        let (sh, prop, seed, out) = (self.shared.clone(), self.prop.clone(), self.seed, self.out.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let s = sh.lock().unwrap();
            if s.done {
                return;
            }
            if s.evals > 0 && s.case_started.elapsed() > HANG {
                Ctx::report(&prop, seed, &out, "", &s, Some(&format!("did not finish within {:?}", HANG)));
                std::process::exit(1);
            }
        });
        let panic_msg: Arc<Mutex<String>> = Arc::new(Mutex::new(String::new()));
        let pm = panic_msg.clone();
        std::panic::set_hook(Box::new(move |i| {
            let mut g = pm.lock().unwrap();
            if g.is_empty() {
                *g = format!("{}", i);
            }
        }));
        let me = std::panic::AssertUnwindSafe(&self);
        let r = std::panic::catch_unwind(move || f(&me));
        let fail = match r {
            Ok(Ok(())) => None,
            Ok(Err(e)) => Some(e),
            Err(_) => Some(format!("panicked: {}", panic_msg.lock().unwrap())),
        };
        let mut s = self.shared.lock().unwrap();
        s.done = true;
        Ctx::report(&self.prop, self.seed, &self.out, &self.rule.borrow(), &s, fail.as_deref());
        drop(s);
        std::process::exit(if fail.is_some() { 1 } else { 0 });
    }
}

fn cut(s: &mut String, n: usize) {
    if s.len() > n {
        let mut n = n;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
        s.push_str("...");
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i == 200 {
            s.push_str(&format!("..({} bytes)", b.len()));
            break;
        }
        s.push_str(&format!("{:02x}", x));
    }
    s
}

/// a scratch directory, removed when dropped
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new() -> Self {
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let t = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos();
        let p = std::env::temp_dir().join(format!("vh-{}-{}-{}", std::process::id(), t, n));
        std::fs::create_dir(&p).unwrap();
        Scratch(p.canonicalize().unwrap())
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
