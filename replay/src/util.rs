use std::cell::RefCell;
use std::io;
use std::panic;

use redscript::bytecode::{Breakpoint, StartProfiling};
use redscript::decode::Decode;

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0xd1b5_4a32_d192_ed03);
        for _ in 0..8 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    /// values that like the edges of every width
    pub fn edgy(&mut self) -> u64 {
        match self.below(6) {
            0 => self.next(),
            1 => self.below(300),
            2 => 0u64.wrapping_sub(self.below(300)),
            3 => {
                let b = self.below(64);
                (1u64 << b).wrapping_add(self.below(3)).wrapping_sub(1)
            }
            4 => self.next() & 0xffff,
            _ => self.next() & 0xffff_ffff,
        }
    }
    pub fn text(&mut self, max: u64) -> String {
        const POOL: &[char] = &['a', 'b', 'Z', '0', '_', ' ', ';', ':', '\u{e9}', '\u{20ac}', '\u{1f600}', '\n', '/', '.', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}'];
        let n = self.below(max + 1);
        (0..n).map(|_| *self.pick(POOL)).collect()
    }
    pub fn word(&mut self, max: u64) -> String {
        const POOL: &[char] = &['a', 'b', 'c', 'd', 'x', 'y', 'Z', 'Q', '0', '7', '_'];
        let n = 1 + self.below(max);
        (0..n).map(|_| *self.pick(POOL)).collect()
    }
}

pub struct Ctx {
    pub rng: Rng,
    pub thorough: bool,
    pub cases: u64,
    pub fails: Vec<(String, String)>,
    pub notes: Vec<String>,
    pub seen: std::collections::HashSet<u64>,
    pub samples: Vec<(String, String)>,
}

thread_local! { pub static PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

impl Ctx {
    pub fn n(&self, quick: u64) -> u64 {
        if self.thorough { quick * 60 } else { quick * 3 }
    }
    pub fn fail(&mut self, key: impl Into<String>, what: impl Into<String>) {
        let key = key.into();
        if self.fails.len() < 40 && !self.fails.iter().any(|(k, _)| *k == key) {
            let mut w: String = what.into();
            if w.len() > 4000 {
                let mut i = 4000;
                while !w.is_char_boundary(i) { i -= 1; }
                w.truncate(i);
            }
            self.fails.push((key, w));
        }
    }
    pub fn sample(&mut self, key: &str, input: &str) {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (key, input).hash(&mut h);
        if !input.is_empty() && self.seen.insert(h.finish()) && self.samples.len() < 8 && self.samples.iter().filter(|(k, _)| k == key).count() < 1 {
            self.samples.push((key.to_string(), input.chars().take(300).collect()));
        }
    }
    pub fn check(&mut self, ok: bool, key: &str, what: impl FnOnce() -> String) {
        self.cases += 1;
        if !ok {
            self.fail(key, what());
        }
    }
    /// run one case; a panic is a failure with the panic message
    pub fn case<T>(&mut self, key: &str, input: &str, f: impl FnOnce() -> T) -> Option<T> {
        self.cases += 1;
        self.sample(key, input);
        match panic::catch_unwind(panic::AssertUnwindSafe(f)) {
            Ok(v) => Some(v),
            Err(_) => {
                let m = PANIC.with(|p| p.borrow().clone());
                self.fail(format!("{key}/panic"), format!("panicked ({m}) on {input}"));
                None
            }
        }
    }
}

/// a sink that accepts a few bytes at a time
pub struct Dribble(pub Vec<u8>, pub usize);
impl io::Write for Dribble {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(self.1);
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// a sink that fails after n bytes
pub struct Full(pub Vec<u8>, pub usize);
impl io::Write for Full {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(self.1.saturating_sub(self.0.len()));
        if n == 0 && !b.is_empty() {
            return Err(io::Error::new(io::ErrorKind::Other, "full"));
        }
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// a source that yields a few bytes at a time
pub struct Trickle<'a>(pub &'a [u8], pub usize);
impl io::Read for Trickle<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = b.len().min(self.1).min(self.0.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

pub fn breakpoint_bytes(seed: u64) -> Vec<u8> {
    let mut r = Rng::new(seed);
    let mut o = vec![];
    o.extend((r.next() as u16).to_le_bytes());
    o.extend((r.next() as u32).to_le_bytes());
    o.extend((r.next() as u16).to_le_bytes());
    o.extend((r.next() as u16).to_le_bytes());
    o.push((r.next() & 1) as u8);
    o.extend(r.next().to_le_bytes());
    o
}

pub fn breakpoint(seed: u64) -> Breakpoint {
    Breakpoint::decode(&mut &breakpoint_bytes(seed)[..]).expect("breakpoint record decodes")
}

pub fn profiling_len(seed: u64) -> usize {
    profiling_text(seed).len()
}

fn profiling_text(seed: u64) -> String {
    if seed % 7 == 3 && seed > 0x1_0000 {
        return "p".repeat((seed % 70_000) as usize);
    }
    Rng::new(seed).text(12)
}

pub fn profiling_bytes(seed: u64) -> Vec<u8> {
    let t = profiling_text(seed);
    let mut o = (t.len() as u32).to_le_bytes().to_vec();
    o.extend(t.as_bytes());
    o.push(seed as u8);
    o
}

pub fn profiling(seed: u64) -> StartProfiling {
    StartProfiling::decode(&mut &profiling_bytes(seed)[..]).expect("profiling record decodes")
}
