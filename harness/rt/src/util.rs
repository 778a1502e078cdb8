//! Random values, chunked displays, statistics and the report to the driver.
use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::{self, Write as _};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

#[derive(Clone)]
pub struct Rng(u64, u64, bool);

impl Rng {
    pub fn new(seed: u64, tag: &str) -> Rng {
        let mut h = DefaultHasher::new();
        (seed, tag).hash(&mut h);
        Rng(h.finish() | 1, 0x9e3779b97f4a7c15, false)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(self.1);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, percent: usize) -> bool {
        self.below(100) < percent
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

const SPECIAL: &[char] = &['<', '>', '&', '"', '\'', '<', '>', '&', '"', '\'', '/', '\\', '`', '=', ';', '#', '%', '{', '}'];
const SPACE: &[char] = &[' ', '\n', '\t', '\r', ' ', '\n', '\u{a0}', '\u{2003}', '\u{85}', '\u{200b}', '\u{b}', '\u{c}', '\u{3000}', '\u{2028}'];
const WIDE: &[char] = &[
    'é', 'ß', 'İ', 'ı', 'Σ', 'ς', 'ǆ', 'ǅ', '中', '好', '😀', '🤚', '\u{301}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{fe0f}', 'ŉ', 'ﬁ',
    '\u{bc}', '\u{322}', '\u{33c}', '\u{bbe}', '\u{2026}', '\u{223}', '\u{226}', '\u{13c}', '\u{13e}', '\u{fffd}', '\u{0}', '\u{1b}',
];

impl Rng {
    pub fn ch(&mut self) -> char {
        match self.below(100) {
            0..=34 => (b'a' + self.below(26) as u8) as char,
            35..=44 => (b' ' + self.below(95) as u8) as char,
            45..=59 => *self.pick(SPECIAL),
            60..=71 => *self.pick(SPACE),
            72..=76 => (b'A' + self.below(26) as u8) as char,
            77..=79 => char::from_u32(self.below(128) as u32).unwrap(),
            80..=94 => *self.pick(WIDE),
            _ => char::from_u32(self.below(0x110000) as u32).unwrap_or('\u{fffd}'),
        }
    }
    /// A few of all texts are longer than 64 KiB
    pub fn huge(&mut self, i: usize, n: usize) {
        self.2 = i % (n / 2 + 1) == n / 4;
        if self.2 {
            stat("huge_texts", 1);
        }
    }
    pub fn len(&mut self) -> usize {
        if self.2 {
            self.2 = false;
            return *self.pick(&[65_400, 65_536, 66_000, 70_001, 131_200]);
        }
        match self.below(20) {
            0 => 0,
            1..=9 => self.below(8),
            10..=16 => self.below(40),
            17 | 18 => self.below(200),
            _ => self.below(1500),
        }
    }
    pub fn text(&mut self) -> String {
        let n = self.len();
        match self.below(6) {
            // runs of few different characters
            0 => {
                let cs = [self.ch(), self.ch(), self.ch()];
                (0..n).map(|_| *self.pick(&cs)).collect()
            }
            1 => {
                let mut s = String::new();
                for _ in 0..n / 3 {
                    let w = self.below(6);
                    for _ in 0..w {
                        s.push(if self.chance(80) { (b'a' + self.below(26) as u8) as char } else { self.ch() });
                    }
                    s.push(*self.pick(SPACE));
                }
                s
            }
            _ => (0..n).map(|_| self.ch()).collect(),
        }
    }
    pub fn chunks(&mut self, s: &str) -> Chunks {
        let mut parts = Vec::new();
        let mut cur = String::new();
        let p = *self.pick(&[0, 3, 15, 50, 100]);
        for c in s.chars() {
            if self.chance(p) {
                parts.push((self.below(5) as u8, std::mem::take(&mut cur)));
                if self.chance(5) {
                    parts.push((self.below(5) as u8, String::new()));
                }
            }
            cur.push(c);
        }
        parts.push((self.below(5) as u8, cur));
        Chunks(parts)
    }
}

/// Displays its parts by different calls of the formatter.
#[derive(Clone, Debug)]
pub struct Chunks(pub Vec<(u8, String)>);

impl fmt::Display for Chunks {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for (how, s) in &self.0 {
            match how {
                0 => f.write_str(s)?,
                1 => s.chars().try_for_each(|c| f.write_char(c))?,
                2 => f.write_fmt(format_args!("{s}"))?,
                3 => {
                    let m = s.char_indices().nth(s.chars().count() / 2).map_or(0, |(i, _)| i);
                    let (a, b) = s.split_at(m);
                    write!(f, "{a}{}", Inner(b))?
                }
                _ => Inner(s).fmt(f)?,
            }
        }
        Ok(())
    }
}

struct Inner<'a>(&'a str);
impl fmt::Display for Inner<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut it = self.0.chars();
        if let Some(c) = it.next() {
            f.write_char(c)?;
        }
        f.write_str(it.as_str())
    }
}

/// Fails after its text.
#[derive(Clone, Debug)]
pub struct Failing(pub Chunks);
impl fmt::Display for Failing {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)?;
        Err(fmt::Error)
    }
}

thread_local! {
    static STATS: RefCell<BTreeMap<String, u64>> = const { RefCell::new(BTreeMap::new()) };
    static DISTINCT: RefCell<HashSet<u64>> = RefCell::new(HashSet::new());
    static SAMPLES: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static VIOLATIONS: Cell<u64> = const { Cell::new(0) };
    static TRACE: Cell<bool> = const { Cell::new(false) };
}

pub fn set_trace(on: bool) {
    TRACE.with(|t| t.set(on));
}

static CASES: AtomicU64 = AtomicU64::new(0);
static CASE: Mutex<String> = Mutex::new(String::new());

/// Ends the process if the main thread works on one case for too long (CPU time)
pub fn watch(seconds: u64) {
    let slower = std::env::var("RT_SLOWER").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let cpu = || std::fs::read_to_string("/proc/self/schedstat").ok().and_then(|s| s.split(' ').next().and_then(|n| n.parse::<u64>().ok())).unwrap_or(0) / 1_000_000_000;
    std::thread::spawn(move || {
        let (mut case, mut since) = (0, cpu());
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = CASES.load(Ordering::Relaxed);
            if now != case {
                (case, since) = (now, cpu());
            } else if case > 0 && cpu() > since + seconds * slower {
                let text = CASE.lock().map(|s| s.clone()).unwrap_or_default();
                violation("too slow", &format!("no end after {seconds} s of CPU time: {text}"));
                println!("STAT evaluations {case}\nEND");
                std::process::exit(0);
            }
        }
    });
}

/// Announces a case, for crashes.
pub fn at(what: &str, input: &str) {
    if let Ok(mut s) = CASE.lock() {
        s.clear();
        let _ = write!(s, "{what} {} bytes: {:?}", input.len(), input.chars().take(400).collect::<String>());
    }
    CASES.fetch_add(1, Ordering::Relaxed);
    if TRACE.with(|t| t.get()) {
        eprintln!("AT {what} {:?}", input);
    }
}

pub fn stat(key: &str, n: u64) {
    STATS.with(|s| *s.borrow_mut().entry(key.to_string()).or_default() += n);
}

pub fn seen(key: impl Hash) {
    let mut h = DefaultHasher::new();
    key.hash(&mut h);
    DISTINCT.with(|d| {
        d.borrow_mut().insert(h.finish());
    });
}

/// One evaluation of the oracle
pub fn eval(nontrivial: bool, key: impl Hash) {
    stat("evaluations", 1);
    if nontrivial {
        seen(key);
    }
}

pub fn sample(s: impl FnOnce() -> String) {
    SAMPLES.with(|v| {
        if v.borrow().len() < 6 {
            let s = s();
            v.borrow_mut().push(s);
        }
    });
}

fn hex(s: &str) -> String {
    s.bytes().fold(String::new(), |mut r, b| {
        let _ = write!(r, "{b:02x}");
        r
    })
}

pub fn violation(ident: &str, text: &str) {
    let n = VIOLATIONS.with(|v| {
        v.set(v.get() + 1);
        v.get()
    });
    if n <= 50 {
        println!("VIOL x{} x{}", hex(ident), hex(text));
    }
}

/// Reports `what` if the values differ.
pub fn same<T: PartialEq + fmt::Debug>(what: &str, got: T, want: T, input: impl fmt::Debug) {
    if got != want {
        violation(what, &format!("{what}\n got:      {got:?}\n expected: {want:?}\n input:    {input:?}"));
    }
}

pub fn no_panic<T>(what: &str, input: &dyn fmt::Debug, f: impl FnOnce() -> T) -> Option<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Some(v),
        Err(p) => {
            let msg = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            violation(what, &format!("{what}: panicked: {msg}\n input: {input:?}"));
            None
        }
    }
}

pub fn finish() {
    STATS.with(|s| {
        for (k, v) in s.borrow().iter() {
            println!("STAT {k} {v}");
        }
    });
    SAMPLES.with(|s| {
        for v in s.borrow().iter() {
            println!("SAMPLE x{}", hex(v));
        }
    });
    // (the driver unites what several processes saw)
    use std::io::Write;
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    DISTINCT.with(|d| {
        for h in d.borrow().iter().take(400_000) {
            let _ = writeln!(out, "D {h:x}");
        }
    });
    let _ = writeln!(out, "END");
}
