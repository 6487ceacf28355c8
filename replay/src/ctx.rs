use rand::rngs::SmallRng;
use rand::{Rng, RngCore, SeedableRng};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::time::{Duration, Instant};

static CASE: AtomicU64 = AtomicU64::new(0);
static CASE_START_MS: AtomicU64 = AtomicU64::new(0);
static IN_CASE: AtomicBool = AtomicBool::new(false);
static USED: AtomicUsize = AtomicUsize::new(0);
const MEM_LIMIT: usize = 6 << 30;

/// Counts allocated bytes; a case that allocates without bound ends the process with a code of its own.
pub struct Limit;
unsafe impl GlobalAlloc for Limit {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if USED.fetch_add(l.size(), Relaxed) + l.size() > MEM_LIMIT { stuck(b"memory limit exceeded\n") }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        USED.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
}
fn stuck(why: &'static [u8]) -> ! {
    // no allocation here: report "STUCK <case number>" by hand
    use std::io::Write;
    let mut n = CASE.load(SeqCst);
    let mut buf = [0u8; 24];
    let mut i = buf.len();
    loop { i -= 1; buf[i] = b'0' + (n % 10) as u8; n /= 10; if n == 0 { break } }
    let mut e = std::io::stderr();
    let _ = e.write_all(b"STUCK "); let _ = e.write_all(&buf[i..]); let _ = e.write_all(b" "); let _ = e.write_all(why);
    unsafe { extern "C" { fn _exit(c: i32) -> !; } _exit(3) }
}

pub struct Ctx {
    pub id: String,
    pub seed: u64,
    pub rng: SmallRng,
    pub dict: Vec<usize>,
    pub fdict: Vec<f64>,
    only: Option<u64>,
    deadline: Instant,
    started: Instant,
    n: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    out: Option<String>,
    quota: Option<Instant>,
}
thread_local!(static LAST_PANIC: std::cell::RefCell<String> = Default::default());

/// true when the call panics
pub fn panics<T>(f: impl FnOnce() -> T) -> bool { catch_unwind(AssertUnwindSafe(f)).is_err() }

impl Ctx {
    pub fn new(id: &str, seed: u64, secs: u64, only: Option<u64>, repo: String, out: Option<String>) -> Self {
        std::panic::set_hook(Box::new(|i| { LAST_PANIC.with(|l| *l.borrow_mut() = i.to_string().replace('\n', " ")); }));
        let t0 = Instant::now();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(250));
            let now = t0.elapsed().as_millis() as u64;
            if IN_CASE.load(SeqCst) && now.saturating_sub(CASE_START_MS.load(SeqCst)) > 20_000 { stuck(b"case still running after 20 s\n") }
        });
        let (dict, fdict) = literals(&repo);
        let h = id.bytes().fold(seed, |a, b| a.wrapping_mul(1099511628211).wrapping_add(b as u64));
        Ctx { id: id.into(), seed, rng: SmallRng::seed_from_u64(h), dict, fdict, only,
            deadline: t0 + Duration::from_secs(if only.is_some() { 100_000 } else { secs }), started: t0, n: 0,
            distinct: HashSet::new(), samples: vec![], out, quota: None }
    }
    /// Time left (for the whole run, or the share set with `share`)?
    pub fn more(&self) -> bool { let now = Instant::now(); now < self.deadline && self.quota.map_or(true, |q| now < q) }
    /// Let the following phase use at most `frac` of the remaining time.
    pub fn share(&mut self, frac: f64) { self.quota = if self.only.is_some() { None } else { let now = Instant::now(); Some(now + self.deadline.saturating_duration_since(now).mul_f64(frac)) }; }
    pub fn case(&mut self, desc: impl Fn() -> String, f: impl FnOnce() -> Result<(), String>) {
        self.n += 1;
        if let Some(o) = self.only {
            if self.n < o { return }
            eprintln!("case {}: {}", o, desc());
        }
        if self.samples.len() < 3 || (self.n.is_power_of_two() && self.samples.len() < 24) { self.samples.push(clip(desc(), 300)); }
        if self.distinct.len() < 400_000 && (self.n < 100_000 || self.n % 16 == 0) { let mut h = std::collections::hash_map::DefaultHasher::new(); desc().hash(&mut h); self.distinct.insert(h.finish()); }
        CASE.store(self.n, SeqCst);
        CASE_START_MS.store(self.started.elapsed().as_millis() as u64, SeqCst);
        IN_CASE.store(true, SeqCst);
        let r = catch_unwind(AssertUnwindSafe(f));
        IN_CASE.store(false, SeqCst);
        let bad = match r { Ok(Ok(())) => None, Ok(Err(e)) => Some(e), Err(_) => Some(format!("panicked: {}", LAST_PANIC.with(|l| l.borrow().clone()))) };
        if let Some(what) = bad { self.violation(&desc(), &what) }
        if self.only.is_some() { println!("case {} holds", self.n); std::process::exit(0) }
    }
    fn violation(&self, desc: &str, what: &str) -> ! {
        let j = format!("{{\n  \"property\": {},\n  \"seed\": {},\n  \"case\": {},\n  \"input\": {},\n  \"failure\": {},\n  \"replay\": {}\n}}\n",
            js(&self.id), self.seed, self.n, js(desc), js(what), js(&format!("/verif/bin/replay {} --seed {} --only {}", self.id, self.seed, self.n)));
        if let Some(o) = &self.out { let _ = std::fs::write(o, &j); }
        print!("FAILED {j}");
        std::process::exit(1)
    }
    pub fn finish(&self) {
        if let Some(o) = self.only { println!("there is no case {o}"); return }
        let s: Vec<String> = self.samples.iter().map(|s| js(s)).collect();
        println!("{{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"samples\": [{}]}}", self.n, self.distinct.len(), s.join(", "));
    }
    /// A size: mostly small, sometimes a number that occurs in the source (or a neighbour), sometimes large.
    pub fn size(&mut self, min: usize, max: usize) -> usize {
        let v = match self.rng.gen_range(0..10) {
            0..=4 => self.rng.gen_range(0..10),
            5 | 6 => self.rng.gen_range(0..40),
            7 | 8 if !self.dict.is_empty() => { let d = self.dict[self.rng.gen_range(0..self.dict.len())]; (d + self.rng.gen_range(0..3)).saturating_sub(1) }
            _ => self.rng.gen_range(0..=max),
        };
        v.clamp(min, max)
    }
    /// true once in `k` times: the tiers of unusually large inputs
    pub fn rarely(&mut self, k: u32) -> bool { self.rng.gen_range(0..k) == 0 }
    pub fn below(&mut self, n: usize) -> usize {
        match self.rng.gen_range(0..8) { 0 => 0, 1 => n - 1, 2 if !self.dict.is_empty() => self.dict[self.rng.gen_range(0..self.dict.len())] % n, _ => self.rng.gen_range(0..n) }
    }
    pub fn float(&mut self) -> f64 {
        match self.rng.gen_range(0..12) {
            0 => 0.0, 1 => -0.0, 2 => 1.0, 3 => f64::INFINITY, 4 => f64::NEG_INFINITY,
            5 => [f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -5e-324, f64::EPSILON, 1e300, -1e300, 1e-300, -1.0, 2.0, 0.5][self.rng.gen_range(0..12)],
            6 if !self.fdict.is_empty() => { let d = self.fdict[self.rng.gen_range(0..self.fdict.len())]; [d, -d, d + f64::EPSILON, d * 0.5, d + 1.0][self.rng.gen_range(0..5)] }
            7 => self.rng.gen_range(-4..5) as f64,
            8 => self.rng.gen_range(-1e6..1e6),
            _ => self.rng.gen_range(-1.0..1.0),
        }
    }
    pub fn finite(&mut self) -> f64 { loop { let f = self.float(); if f.is_finite() { return f } } }
    /// A ratio in [0,1]
    pub fn ratio(&mut self) -> f64 {
        match self.rng.gen_range(0..8) {
            0 => 0.0, 1 => 1.0, 2 => 1.0 - f64::EPSILON / 2.0, 3 => 0.5, 4 => f64::MIN_POSITIVE, 5 if !self.fdict.is_empty() => { let d = self.fdict[self.rng.gen_range(0..self.fdict.len())]; d.clamp(0.0, 1.0) }
            _ => self.rng.gen_range(0.0..1.0),
        }
    }
}
fn clip(s: String, n: usize) -> String { if s.len() <= n { s } else { let mut e = n; while !s.is_char_boundary(e) { e -= 1 } format!("{}...", &s[..e]) } }
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}
/// Numbers written in the sources: sizes and values worth trying.
fn literals(repo: &str) -> (Vec<usize>, Vec<f64>) {
    let (mut a, mut b) = (vec![2, 3, 4, 8, 16, 20, 21, 32, 64, 100, 128, 256], vec![]);
    let mut files = vec![];
    let mut dirs = vec![std::path::PathBuf::from(repo).join("src")];
    while let Some(d) = dirs.pop() {
        let Ok(rd) = std::fs::read_dir(d) else { continue };
        for e in rd.flatten() { let p = e.path(); if p.is_dir() { dirs.push(p) } else if p.extension().map_or(false, |x| x == "rs") { files.push(p) } }
    }
    files.sort();
    for p in files {
        for line in std::fs::read_to_string(p).unwrap_or_default().lines() {
            let line = line.split("//").next().unwrap_or("");
            let mut it = line.char_indices().peekable();
            let mut prev = ' ';
            while let Some((i, c)) = it.next() {
                if c.is_ascii_digit() && !prev.is_alphanumeric() && prev != '_' {
                    let rest = &line[i..];
                    let end = rest.char_indices().find(|&(k, ch)| !(ch.is_ascii_digit() || ch == '_' || ch == 'x' || ch.is_ascii_hexdigit() || (ch == '.' && rest[k + 1..].chars().next().map_or(false, |d| d.is_ascii_digit())))).map_or(rest.len(), |(k, _)| k);
                    let t = rest[..end].replace('_', "");
                    if t.contains('.') || (t.contains('e') && !t.starts_with("0x")) { if let Ok(v) = t.parse::<f64>() { b.push(v) } }
                    else if let Some(h) = t.strip_prefix("0x") { if let Ok(v) = usize::from_str_radix(h, 16) { a.push(v) } }
                    else { let d: String = t.chars().take_while(|c| c.is_ascii_digit()).collect(); if let Ok(v) = d.parse::<usize>() { a.push(v); b.push(v as f64) } }
                    while it.peek().map_or(false, |&(k, _)| k < i + end) { it.next(); }
                    prev = '0';
                    continue;
                }
                prev = c;
            }
        }
    }
    a.retain(|&v| v <= 2000); a.sort(); a.dedup();
    b.sort_by(|x, y| x.total_cmp(y)); b.dedup();
    (a, b)
}

/// A generator that mixes ordinary words with extreme ones (all zeros, just below the top, ...).
#[derive(Clone)]
pub struct EdgeRng { pub inner: SmallRng, pub edge: u32 }
impl EdgeRng { pub fn new(seed: u64, edge: u32) -> Self { EdgeRng { inner: SmallRng::seed_from_u64(seed), edge } } }
impl RngCore for EdgeRng {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 {
        let w = self.inner.next_u64();
        if self.edge != 0 && w as u32 % 8 < self.edge { match (w >> 32) % 4 { 0 => 0, 1 => u64::MAX - 1500, 2 => 1 << 63, _ => u64::MAX >> 1 } } else { w }
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) { for b in dest { *b = self.next_u64() as u8 } }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(dest); Ok(()) }
}
/// A generator whose every word is `w` (every f64 draw is the same known number), counting the words taken.
#[derive(Clone)]
pub struct ConstRng { pub w: u64, pub taken: u64 }
impl ConstRng {
    pub fn new(w: u64) -> Self { ConstRng { w, taken: 0 } }
    /// the number `gen::<f64>()` yields
    pub fn value(&self) -> f64 { self.clone().gen::<f64>() }
}
impl RngCore for ConstRng {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 { self.taken += 1; if self.taken > 1 << 20 { panic!("no end to the random draws") } self.w }
    fn fill_bytes(&mut self, dest: &mut [u8]) { for b in dest { *b = self.next_u64() as u8 } }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(dest); Ok(()) }
}
/// The word for which gen::<f64>() yields (about) r
pub fn word_for(r: f64) -> u64 { ((r * (1u64 << 53) as f64) as u64).min((1 << 53) - 1) << 11 }

pub fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 { return vec![vec![]] }
    let mut r = vec![];
    for p in perms(n - 1) { for i in 0..n { let mut q = p.clone(); q.insert(i, n - 1); r.push(q); } }
    r
}
#[macro_export]
macro_rules! ensure { ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } } }
