//! Search engine: seeded generation, parallel evaluation, shrinking, replay, evidence.
//! Every run is a pure function of (code under test, property, tier, seed).
use std::collections::{BTreeMap, HashSet};
use std::fmt::{Debug, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

// ---------------------------------------------------------------- PRNG
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.u64();
        r.u64();
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 56) as u8
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() as u128 * n.max(1) as u128) >> 64) as usize
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

// ---------------------------------------------------------------- case
/// One generated input: the three regions of a configuration space image handed to
/// the library, plus an operation script for history properties.
#[derive(Clone, Default, PartialEq, Eq, Hash, Debug)]
pub struct Image {
    pub hdr: Vec<u8>,
    pub ddr: Vec<u8>,
    pub ecs: Vec<u8>,
    pub ops: Vec<u8>,
}
fn hex(v: &[u8]) -> String {
    let mut s = String::with_capacity(v.len() * 2);
    for b in v {
        let _ = write!(s, "{b:02x}");
    }
    s
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok())
        .collect()
}
/// Hex with runs of zero bytes folded, for readable samples.
pub fn short_hex(v: &[u8]) -> String {
    let mut s = String::new();
    let mut i = 0;
    while i < v.len() {
        let z = v[i..].iter().take_while(|&&b| b == 0).count();
        if z >= 8 {
            let _ = write!(s, "<{z}x00>");
            i += z;
        } else {
            let _ = write!(s, "{:02x}", v[i]);
            i += 1;
        }
        if s.len() > 240 {
            let _ = write!(s, "...({} bytes)", v.len());
            break;
        }
    }
    s
}
impl Image {
    pub fn hash64(&self) -> u64 {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for part in [&self.hdr, &self.ddr, &self.ecs, &self.ops] {
            h = (h ^ part.len() as u64).wrapping_mul(0x100_0000_01b3);
            for c in part.chunks(8) {
                let mut w = [0u8; 8];
                w[..c.len()].copy_from_slice(c);
                h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
                h ^= h >> 29;
            }
        }
        h
    }
    pub fn parts(&mut self) -> [&mut Vec<u8>; 4] {
        [&mut self.hdr, &mut self.ddr, &mut self.ecs, &mut self.ops]
    }
    pub fn describe(&self) -> String {
        format!(
            "header[{}]={} ddr[{}]={} ecs[{}]={} ops={}",
            self.hdr.len(),
            short_hex(&self.hdr),
            self.ddr.len(),
            short_hex(&self.ddr),
            self.ecs.len(),
            short_hex(&self.ecs),
            short_hex(&self.ops)
        )
    }
    pub fn save(&self, prop: &str, msg: &str) -> String {
        let mut s = String::new();
        let _ = writeln!(s, "property {prop}");
        for l in msg.lines() {
            let _ = writeln!(s, "# {l}");
        }
        let _ = writeln!(s, "hdr {}", hex(&self.hdr));
        let _ = writeln!(s, "ddr {}", hex(&self.ddr));
        let _ = writeln!(s, "ecs {}", hex(&self.ecs));
        let _ = writeln!(s, "ops {}", hex(&self.ops));
        s
    }
    pub fn load(s: &str) -> (String, Image) {
        let mut im = Image::default();
        let mut prop = String::new();
        for l in s.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "property" => prop = v.trim().to_string(),
                "hdr" => im.hdr = unhex(v.trim()),
                "ddr" => im.ddr = unhex(v.trim()),
                "ecs" => im.ecs = unhex(v.trim()),
                "ops" => im.ops = unhex(v.trim()),
                _ => (),
            }
        }
        (prop, im)
    }
}

// ---------------------------------------------------------------- judging
pub const CONTENT: u8 = 1;
pub const DERIVED: u8 = 2;
pub const REENC: u8 = 4;
pub const CHAIN: u8 = 8;
pub const ERRTXT: u8 = 16;
pub const KIND: u8 = 32;
pub const SHAPE: u8 = 64;
pub const ALL: u8 = 255;

/// Collects verdict and class labels for one case.
pub struct Ck {
    pub mask: u8,
    pub fail: Option<String>,
    /// number of oracle comparisons made in this case
    pub cmps: u32,
    /// the case reached the behaviour the property talks about
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}
impl Ck {
    pub fn new(mask: u8) -> Self {
        Ck { mask, fail: None, cmps: 0, nontrivial: false, labels: Vec::new() }
    }
    pub fn want(&self, asp: u8) -> bool {
        self.mask & asp != 0 && self.fail.is_none()
    }
    pub fn eq<T: PartialEq + Debug + ?Sized>(&mut self, asp: u8, what: &str, got: &T, exp: &T) {
        if self.want(asp) {
            self.cmps += 1;
            if got != exp {
                self.fail = Some(format!("{what}: got {got:?}, expected {exp:?}"));
            }
        }
    }
    pub fn ok(&mut self, asp: u8, cond: bool, msg: impl FnOnce() -> String) {
        if self.want(asp) {
            self.cmps += 1;
            if !cond {
                self.fail = Some(msg());
            }
        }
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
}

pub type CheckFn = fn(&Image, &mut Ck);
pub type GenFn = fn(u64, &mut Rng, &crate::gen::Ctx) -> Image;

/// Runs one case; a panic of the code under test is a failure of the case.
pub fn judge(check: CheckFn, mask: u8, im: &Image) -> Ck {
    let mut ck = Ck::new(mask);
    JUDGING.with(|j| j.set(true));
    let r = catch_unwind(AssertUnwindSafe(|| check(im, &mut ck)));
    JUDGING.with(|j| j.set(false));
    if r.is_err() && ck.fail.is_none() {
        let m = LAST_PANIC.with(|p| p.borrow().clone());
        ck.fail = Some(format!("panicked: {m}"));
    }
    ck
}
thread_local! {
    static JUDGING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    pub static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string();
        if !JUDGING.with(|j| j.get()) {
            eprintln!("harness: {s}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = s);
    }));
}

// ---------------------------------------------------------------- shrinking
pub fn shrink(check: CheckFn, mask: u8, start: &Image) -> Image {
    let mut best = start.clone();
    let mut budget = 60_000u32;
    let t0 = Instant::now();
    let mut fails = |im: &Image| -> bool {
        if budget == 0 || t0.elapsed().as_secs() > 40 {
            return false;
        }
        budget -= 1;
        judge(check, mask, im).fail.is_some()
    };
    loop {
        let before = best.clone();
        for part in 0..4 {
            // drop the tail
            let mut step = best.clone().parts()[part].len();
            while step > 0 {
                let len = best.clone().parts()[part].len();
                if len >= step {
                    let mut c = best.clone();
                    c.parts()[part].truncate(len - step);
                    if fails(&c) {
                        best = c;
                        continue;
                    }
                }
                step /= 2;
            }
            // zero blocks
            for blk in [256usize, 64, 16, 4, 1] {
                let len = best.clone().parts()[part].len();
                let mut i = 0;
                while i < len {
                    let e = (i + blk).min(len);
                    let mut c = best.clone();
                    let p = &mut c.parts()[part];
                    if p[i..e].iter().any(|&b| b != 0) {
                        p[i..e].iter_mut().for_each(|b| *b = 0);
                        if fails(&c) {
                            best = c;
                        }
                    }
                    i += blk;
                }
            }
            // clear bits
            let len = best.clone().parts()[part].len();
            for i in 0..len {
                for b in 0..8 {
                    let mut c = best.clone();
                    let p = &mut c.parts()[part];
                    if p[i] >> b & 1 == 1 {
                        p[i] &= !(1 << b);
                        if fails(&c) {
                            best = c;
                        }
                    }
                }
            }
        }
        if best == before {
            return best;
        }
    }
}

// ---------------------------------------------------------------- running
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct_nontrivial: u64,
    pub comparisons: u64,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub failure: Option<(u64, Image, String)>,
}

/// Per worker: index of the case being judged plus one (0: none), and when it started.
pub static SLOTS: [(AtomicU64, AtomicU64); 16] = [const { (AtomicU64::new(0), AtomicU64::new(0)) }; 16];
pub fn now_ms() -> u64 {
    static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64
}
pub fn case_rng(seed: u64, i: u64) -> Rng {
    Rng::new(seed.wrapping_mul(0x2545_F491_4F6C_DD1D).wrapping_add(i.wrapping_mul(0xD134_2543_DE82_EF95)))
}
/// A case that has been running for longer than `limit_ms`.
pub fn stuck(limit_ms: u64) -> Option<u64> {
    SLOTS.iter().find_map(|(i, t)| {
        let i = i.load(Ordering::SeqCst);
        (i != 0 && now_ms().saturating_sub(t.load(Ordering::SeqCst)) > limit_ms).then(|| i - 1)
    })
}

pub fn run(check: CheckFn, mask: u8, gen: GenFn, cases: u64, seed: u64, ctx: &crate::gen::Ctx, limit_ms: u64) -> Stats {
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let best: Mutex<Option<(u64, Image, String)>> = Mutex::new(None);
    let agg = Mutex::new((0u64, 0u64, 0u64, BTreeMap::<&'static str, u64>::new(), HashSet::<u64>::new(), Vec::<(u64, String)>::new()));
    const BLK: u64 = 256;
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    std::thread::scope(|s| {
        for slot in 0..threads {
            let (next, stop, best, agg) = (&next, &stop, &best, &agg);
            s.spawn(move || {
                let (mut ev, mut nt, mut cm) = (0u64, 0u64, 0u64);
                let mut labels = BTreeMap::<&'static str, u64>::new();
                let mut seen = HashSet::<u64>::new();
                let mut samples = Vec::new();
                loop {
                    // on a slow machine a shorter search is better than no answer
                    if stop.load(Ordering::Relaxed) || now_ms() > limit_ms {
                        break;
                    }
                    let b = next.fetch_add(BLK, Ordering::Relaxed);
                    if b >= cases {
                        break;
                    }
                    for i in b..(b + BLK).min(cases) {
                        let mut rng = case_rng(seed, i);
                        let im = gen(i, &mut rng, ctx);
                        SLOTS[slot].1.store(now_ms(), Ordering::SeqCst);
                        SLOTS[slot].0.store(i + 1, Ordering::SeqCst);
                        let ck = judge(check, mask, &im);
                        SLOTS[slot].0.store(0, Ordering::SeqCst);
                        ev += 1;
                        cm += ck.cmps as u64;
                        for l in &ck.labels {
                            *labels.entry(l).or_insert(0) += 1;
                        }
                        if ck.nontrivial {
                            nt += 1;
                            if seen.len() < 1_500_000 {
                                seen.insert(im.hash64());
                            }
                            if i % (cases / 5 + 1) == 7 || (samples.is_empty() && i % 1013 == 5) {
                                samples.push((i, format!("case {i}: {}", im.describe())));
                            }
                        }
                        if let Some(m) = ck.fail {
                            let mut g = best.lock().unwrap();
                            if g.as_ref().map_or(true, |(j, _, _)| i < *j) {
                                *g = Some((i, im, m));
                            }
                            stop.store(true, Ordering::Relaxed);
                            break;
                        }
                    }
                }
                let mut g = agg.lock().unwrap();
                g.0 += ev;
                g.1 += nt;
                g.2 += cm;
                for (k, v) in labels {
                    *g.3.entry(k).or_insert(0) += v;
                }
                g.4.extend(seen);
                g.5.extend(samples);
            });
        }
    });
    let (ev, nt, cm, labels, seen, mut samples) = agg.into_inner().unwrap();
    samples.sort();
    Stats {
        evaluations: ev,
        nontrivial: nt,
        distinct_nontrivial: seen.len() as u64,
        comparisons: cm,
        labels,
        samples: samples.into_iter().take(6).map(|x| x.1).collect(),
        failure: best.into_inner().unwrap(),
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
