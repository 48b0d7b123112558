//! Generated-input engine: every random decision of a case is one recorded
//! number ("choice").  A case is a deterministic function of its choices, so a
//! failing case is replayed and shrunk by editing the list of choices.

use std::collections::BTreeMap;

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng {
            s: [
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
            ],
        }
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
}

pub fn hash64(parts: &[u64]) -> u64 {
    let mut h = 0x1234_5678_9ABC_DEF0u64;
    for p in parts {
        let mut x = h ^ p.wrapping_mul(0xD6E8_FEB8_6659_FD93);
        h = splitmix(&mut x);
    }
    h
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ (b.len() as u64);
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0x0000_0100_0000_01B3);
        h ^= h >> 29;
    }
    hash64(&[h])
}

enum Mode {
    Random(Rng),
    Replay,
    Forked(Rng),
}

/// Source of choices.
pub struct Src {
    mode: Mode,
    rec: Vec<u64>,
    pos: usize,
    journal: Option<std::fs::File>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src {
            mode: Mode::Random(Rng::new(seed)),
            rec: vec![],
            pos: 0,
            journal: None,
        }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Src {
            mode: Mode::Replay,
            rec: choices,
            pos: 0,
            journal: None,
        }
    }
    pub fn with_journal(mut self, f: std::fs::File) -> Self {
        self.journal = Some(f);
        self
    }
    pub fn choices(&self) -> &[u64] {
        &self.rec
    }
    pub fn used(&self) -> usize {
        self.pos
    }
    /// Uniform in `0..n` (n >= 1). 0 is the "simplest" choice.
    pub fn draw(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        match &mut self.mode {
            Mode::Forked(r) => {
                let x = r.next();
                if n == u64::MAX {
                    x
                } else {
                    x % n
                }
            }
            Mode::Random(r) => {
                let x = r.next();
                let v = if n == u64::MAX { x } else { x % n };
                self.rec.push(v);
                self.pos += 1;
                if let Some(j) = &mut self.journal {
                    use std::io::Write;
                    let _ = j.write_all(format!("{v}\n").as_bytes());
                }
                v
            }
            Mode::Replay => {
                let v = self.rec.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                if n == u64::MAX {
                    v
                } else {
                    v % n
                }
            }
        }
    }
    pub fn u64(&mut self) -> u64 {
        self.draw(u64::MAX)
    }
    /// inclusive range
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.draw(hi - lo + 1)
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    /// true with probability num/den (false is simplest)
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.draw(xs.len() as u64) as usize;
        &xs[i]
    }
    /// index with the given weights
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let mut x = self.draw(total);
        for (i, wi) in w.iter().enumerate() {
            if x < *wi as u64 {
                return i;
            }
            x -= *wi as u64;
        }
        w.len() - 1
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.draw(256) as u8).collect()
    }
    /// An independent generator seeded by one choice: used where one choice per
    /// generated value would be too many to record and shrink.
    pub fn fork(&mut self) -> Src {
        let s = self.u64();
        Src {
            mode: Mode::Forked(Rng::new(s)),
            rec: vec![],
            pos: 0,
            journal: None,
        }
    }
    pub fn forked(seed: u64) -> Src {
        Src {
            mode: Mode::Forked(Rng::new(seed)),
            rec: vec![],
            pos: 0,
            journal: None,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    /// stable identification of what failed (used for known findings and to
    /// keep shrinking on the same failure)
    pub sig: String,
    pub msg: String,
}

impl Fail {
    pub fn new(sig: impl Into<String>, msg: impl Into<String>) -> Self {
        Fail {
            sig: sig.into(),
            msg: msg.into(),
        }
    }
}

pub type CaseResult = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($sig:expr, $($arg:tt)*) => {
        return Err($crate::engine::Fail::new($sig, format!($($arg)*)))
    };
}

/// What a case reports about itself.
#[derive(Default)]
pub struct Info {
    pub labels: Vec<String>,
    pub nontrivial: bool,
    pub digest: u64,
    pub desc: String,
    /// elementary comparisons made against the oracle
    pub checks: u64,
}

impl Info {
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub evaluations: u64,
    pub checks: u64,
    pub nontrivial: u64,
    pub digests: std::collections::HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, u64>,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
}
static ANY_PANIC: std::sync::Mutex<Option<(String, String)>> = std::sync::Mutex::new(None);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc.clone(), msg.clone())));
        if let Ok(mut g) = ANY_PANIC.lock() {
            *g = Some((loc, msg));
        }
    }));
}

pub fn normalise(msg: &str) -> String {
    // digits carry run specific values: keep the shape only
    let mut out = String::new();
    let mut in_num = false;
    for c in msg.chars() {
        if c.is_ascii_digit() {
            if !in_num {
                out.push('#');
            }
            in_num = true;
        } else {
            in_num = false;
            out.push(c);
        }
    }
    out.truncate(200);
    out
}

/// Runs `f`, turning a panic into `Err((location, message))`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let own = LAST_PANIC.with(|p| p.borrow_mut().take());
            let p = own
                .or_else(|| ANY_PANIC.lock().ok().and_then(|mut g| g.take()))
                .unwrap_or_default();
            Err(p)
        }
    }
}

pub fn file_of(loc: &str) -> String {
    let f = loc.rsplit_once(':').map(|x| x.0).unwrap_or(loc);
    f.strip_prefix("/repo/").unwrap_or(f).to_string()
}

pub type PropFn = fn(&mut Src, &mut Info, tier: Tier) -> CaseResult;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub fn run_case(f: PropFn, src: &mut Src, tier: Tier) -> (CaseResult, Info) {
    let mut info = Info::default();
    let r = match catch(|| f(src, &mut info, tier)) {
        Ok(r) => r,
        Err((loc, msg)) => Err(Fail::new(
            format!("panic|{}|{}", file_of(&loc), normalise(&msg)),
            format!("panicked at {loc}: {msg}"),
        )),
    };
    (r, info)
}

/// Shrinks `choices` while the same signature keeps failing.
pub fn shrink(
    f: PropFn,
    tier: Tier,
    choices: Vec<u64>,
    fail: Fail,
    budget: std::time::Duration,
) -> (Vec<u64>, Fail, u64) {
    let start = std::time::Instant::now();
    let mut best = choices;
    let mut best_fail = fail;
    let mut execs = 0u64;
    let sig = best_fail.sig.clone();

    let attempt = |cand: &Vec<u64>, execs: &mut u64| -> Option<(Vec<u64>, Fail)> {
        if start.elapsed() > budget {
            return None;
        }
        *execs += 1;
        let mut s = Src::replay(cand.clone());
        let (r, _) = run_case(f, &mut s, tier);
        match r {
            Err(fl) if fl.sig == sig => {
                let mut c = cand.clone();
                c.truncate(s.used());
                Some((c, fl))
            }
            _ => None,
        }
    };

    if let Some((c, fl)) = attempt(&best.clone(), &mut execs) {
        best = c;
        best_fail = fl;
    }
    let mut improved = true;
    while improved && start.elapsed() < budget {
        improved = false;
        // delete blocks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i + size <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + size);
                if let Some((c, fl)) = attempt(&c, &mut execs) {
                    best = c;
                    best_fail = fl;
                    improved = true;
                } else {
                    i += size;
                }
                if start.elapsed() > budget {
                    break;
                }
            }
            if size == 1 || start.elapsed() > budget {
                break;
            }
            size /= 2;
        }
        // zero blocks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    for x in &mut c[i..e] {
                        *x = 0;
                    }
                    if let Some((c, fl)) = attempt(&c, &mut execs) {
                        best = c;
                        best_fail = fl;
                        improved = true;
                    }
                }
                i = e;
                if start.elapsed() > budget {
                    break;
                }
            }
            if size == 1 || start.elapsed() > budget {
                break;
            }
            size /= 2;
        }
        // minimise values
        let mut i = 0;
        while i < best.len() && start.elapsed() < budget {
            let mut lo = 0u64;
            let mut hi = best[i];
            while lo < hi && start.elapsed() < budget {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if let Some((c, fl)) = attempt(&c, &mut execs) {
                    best = c;
                    best_fail = fl;
                    improved = true;
                    hi = mid;
                    if i >= best.len() {
                        break;
                    }
                } else {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
    }
    (best, best_fail, execs)
}
