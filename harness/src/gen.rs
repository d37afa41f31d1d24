//! Structured generators. Every generator is a deterministic function of
//! (case index, seeded PRNG, context).
use crate::engine::{Image, Rng};
use std::collections::BTreeMap;
use std::path::Path;

/// What a property looks at: which capability ids are generated and judged.
#[derive(Clone, Copy, Default)]
pub struct Focus {
    pub ids: &'static [u8],
    pub eids: &'static [u16],
}
pub struct Ctx {
    pub focus: Focus,
    /// integer literals of the code under test: a fuzzing dictionary
    pub lits: Vec<u64>,
    /// literals that the code at the pinned commit did not contain
    pub hot: Vec<u64>,
    /// real device configuration spaces shipped with the repository
    pub devices: Vec<Vec<u8>>,
}

// ---------------------------------------------------------------- dictionary
fn literals(src: &str, out: &mut BTreeMap<u64, u32>) {
    let src = src.split("#[cfg(test)]").next().unwrap_or("");
    for line in src.lines() {
        let line = line.split("//").next().unwrap_or("");
        let by = line.as_bytes();
        let mut i = 0;
        while i < by.len() {
            let prev = if i == 0 { b' ' } else { by[i - 1] };
            if by[i].is_ascii_digit() && !(prev.is_ascii_alphanumeric() || prev == b'_') {
                let s = i;
                while i < by.len() && (by[i].is_ascii_alphanumeric() || by[i] == b'_') {
                    i += 1;
                }
                let t: String = line[s..i].chars().filter(|c| *c != '_').collect::<String>().to_lowercase();
                let (r, t) = match t.get(..2) {
                    Some("0x") => (16, &t[2..]),
                    Some("0b") => (2, &t[2..]),
                    Some("0o") => (8, &t[2..]),
                    _ => (10, &t[..]),
                };
                let t = if r == 16 {
                    t.split(['u', 'i']).next().unwrap_or("")
                } else {
                    t.split(['u', 'i', 'f', 'e']).next().unwrap_or("")
                };
                if let Ok(v) = u64::from_str_radix(t, r) {
                    *out.entry(v).or_insert(0) += 1;
                }
            } else {
                i += 1;
            }
        }
    }
}
fn scan(dir: &Path, out: &mut BTreeMap<(String, u64), u32>, root: &Path) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    for e in rd.flatten() {
        let p = e.path();
        if p.is_dir() {
            scan(&p, out, root);
        } else if p.extension().is_some_and(|x| x == "rs") {
            if let Ok(s) = std::fs::read_to_string(&p) {
                let mut m = BTreeMap::new();
                literals(&s, &mut m);
                let name = p.strip_prefix(root).unwrap_or(&p).display().to_string();
                for (v, n) in m {
                    out.insert((name.clone(), v), n);
                }
            }
        }
    }
}
const BASELINE: &str = include_str!("literals.txt");
/// Text form of the dictionary of a source tree (committed as `literals.txt`).
pub fn dump_literals(src: &Path) -> String {
    let mut m = BTreeMap::new();
    scan(src, &mut m, src);
    m.into_iter().map(|((f, v), n)| format!("{f} {v} {n}\n")).collect()
}
impl Ctx {
    pub fn new(focus: Focus, repo: &Path) -> Ctx {
        let mut now = BTreeMap::new();
        scan(&repo.join("src"), &mut now, &repo.join("src"));
        let mut base = BTreeMap::new();
        for l in BASELINE.lines() {
            let p: Vec<&str> = l.split(' ').collect();
            if let [f, v, n] = p[..] {
                base.insert((f.to_string(), v.parse::<u64>().unwrap_or(0)), n.parse::<u32>().unwrap_or(0));
            }
        }
        let mut lits: Vec<u64> = now.keys().map(|k| k.1).collect();
        let mut hot: Vec<u64> = now.iter().filter(|(k, n)| base.get(*k).map_or(true, |m| *n > m)).map(|(k, _)| k.1).collect();
        lits.sort();
        lits.dedup();
        hot.sort();
        hot.dedup();
        let mut devices = Vec::new();
        fn files(p: &Path, out: &mut Vec<Vec<u8>>) {
            if let Ok(rd) = std::fs::read_dir(p) {
                let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
                es.sort();
                for p in es {
                    if p.is_dir() {
                        files(&p, out);
                    } else if let Ok(b) = std::fs::read(&p) {
                        if b.len() >= 64 {
                            out.push(b);
                        }
                    }
                }
            }
        }
        files(&repo.join("tests/data"), &mut devices);
        Ctx { focus, lits, hot, devices }
    }
    fn lit(&self, rng: &mut Rng) -> u64 {
        let v = if !self.hot.is_empty() && rng.one_in(2) { *rng.pick(&self.hot) } else if self.lits.is_empty() { rng.u64() } else { *rng.pick(&self.lits) };
        match rng.below(12) {
            0 => v.wrapping_add(1),
            1 => v.wrapping_sub(1),
            _ => v,
        }
    }
}

// ---------------------------------------------------------------- bytes
fn put(v: &mut [u8], o: usize, by: &[u8]) {
    for (i, b) in by.iter().enumerate() {
        if let Some(x) = v.get_mut(o + i) {
            *x = *b;
        }
    }
}
fn set_bits(v: &mut [u8], bit: usize, width: usize, val: u64) {
    for k in 0..width {
        let (i, m) = ((bit + k) / 8, 1u8 << ((bit + k) % 8));
        if let Some(x) = v.get_mut(i) {
            if k < 64 && val >> k & 1 == 1 {
                *x |= m;
            } else {
                *x &= !m;
            }
        }
    }
}
fn random(rng: &mut Rng, v: &mut [u8]) {
    for c in v.chunks_mut(8) {
        let w = rng.u64().to_le_bytes();
        let n = c.len();
        c.copy_from_slice(&w[..n]);
    }
}
/// Fills a block; `hotspan` is the number of leading bytes that carry registers.
pub fn fill(rng: &mut Rng, ctx: &Ctx, v: &mut [u8], hotspan: usize) {
    let span = hotspan.clamp(1, v.len().max(1));
    match rng.below(16) {
        0 => (),
        1 => v.fill(0xff),
        2..=5 => random(rng, v),
        6 => {
            // one bit set on zeros
            let b = rng.below(span * 8);
            set_bits(v, b, 1, 1);
        }
        7 => {
            v.fill(0xff);
            let b = rng.below(span * 8);
            set_bits(v, b, 1, 0);
        }
        8 => {
            // one field-sized run of ones on zeros
            let (b, w) = (rng.below(span * 8), rng.range(1, 16));
            set_bits(v, b, w, u64::MAX);
        }
        9 => {
            // sparse bytes
            for _ in 0..rng.range(1, 4) {
                let i = rng.below(span);
                let b = rng.u8();
                put(v, i, &[b]);
            }
        }
        10 => {
            let (a, s) = (rng.u8(), *rng.pick(&[1u8, 3, 0x11, 0x1f]));
            for (i, b) in v.iter_mut().enumerate() {
                *b = a.wrapping_add((i as u8).wrapping_mul(s));
            }
        }
        11 => {
            // low-density random
            let n = v.len().min(span * 2);
            for b in v[..n].iter_mut() {
                *b = rng.u8() & rng.u8() & rng.u8();
            }
        }
        12 => {
            random(rng, v);
            let n = v.len().min(span * 2);
            for b in v[..n].iter_mut() {
                *b |= rng.u8() | rng.u8();
            }
        }
        _ => {
            match rng.below(3) {
                0 => (),
                1 => v.fill(0xff),
                _ => random(rng, v),
            }
            for _ in 0..rng.range(1, 4) {
                sprinkle(rng, ctx, v, span);
            }
        }
    }
    if rng.one_in(8) {
        correlate(rng, v, span);
    }
}
/// Makes two places hold the same, neighbouring or complementary values.
pub fn correlate(rng: &mut Rng, v: &mut [u8], span: usize) {
    let span = span.min(v.len());
    let w = *rng.pick(&[1usize, 2, 2, 4, 4, 8]);
    if span < 2 * w {
        return;
    }
    let a = if rng.one_in(4) { 1 } else { w.min(4) };
    let n = (span - w) / a + 1;
    for _ in 0..rng.range(1, 3) {
        let (i, j) = (a * rng.below(n), a * rng.below(n));
        let mut x = 0u64;
        for k in 0..w {
            x |= (v[i + k] as u64) << (8 * k);
        }
        let x = match rng.below(8) {
            0 => x.wrapping_add(1),
            1 => x.wrapping_sub(1),
            2 => !x,
            3 => x.rotate_left(4),
            _ => x,
        };
        v[j..j + w].copy_from_slice(&x.to_le_bytes()[..w]);
    }
}
/// Writes one dictionary literal somewhere in the first `span` bytes.
pub fn sprinkle(rng: &mut Rng, ctx: &Ctx, v: &mut [u8], span: usize) {
    let l = ctx.lit(rng);
    let w = *rng.pick(&[4usize, 8, 12, 16, 16, 32, 64]);
    let b = if rng.one_in(3) { rng.below(span * 8) } else { rng.below(span) * 8 };
    set_bits(v, b, w, l);
}

// ---------------------------------------------------------------- header
pub const VIRTIO: u16 = 0x1af4;
pub fn gen_header(rng: &mut Rng, ctx: &Ctx) -> Vec<u8> {
    let mut h = vec![0u8; 64];
    fill(rng, ctx, &mut h, 64);
    if !rng.one_in(6) {
        h[0x0e] = (h[0x0e] & 0x80) | *rng.pick(&[0u8, 0, 1, 1, 2, 2, 3, 4, 0x10, 0x40, 0x7f]);
    }
    // register-shaped BARs
    if rng.one_in(2) {
        for i in 0..6 {
            if rng.one_in(4) {
                continue;
            }
            let a = match rng.below(4) {
                0 => 0,
                1 => u32::MAX,
                _ => rng.u32(),
            };
            let v = match rng.below(9) {
                0 => 0,
                1 => a & !3 | 1,
                2 => a & !0xf,
                3 => a & !0xf | 2,
                4 | 5 => a & !0xf | 4 | (rng.u32() & 8),
                6 => a & !0xf | 6,
                7 => a & !0xf | (rng.u32() & 0xf),
                _ => rng.u32() & 0xf,
            };
            put(&mut h, 0x10 + 4 * i, &v.to_le_bytes());
        }
    }
    // register-shaped windows
    if rng.one_in(3) {
        if h[0x0e] & 0x7f == 1 {
            let t = if rng.one_in(4) { rng.u8() & 0xf } else { rng.u8() & 1 };
            h[0x1c] = h[0x1c] & 0xf0 | t;
            h[0x1d] = h[0x1d] & 0xf0 | if rng.one_in(4) { rng.u8() & 0xf } else { t };
            let t = if rng.one_in(4) { rng.u8() & 0xf } else { rng.u8() & 1 };
            h[0x24] = h[0x24] & 0xf0 | t;
            h[0x26] = h[0x26] & 0xf0 | if rng.one_in(4) { rng.u8() & 0xf } else { t };
        } else {
            for o in [0x2c, 0x30, 0x34, 0x38] {
                h[o] = h[o] & !3 | rng.u8() & rng.u8() & 3;
            }
        }
    }
    if rng.one_in(4) {
        h[0x3d] = rng.u8() & 7;
    }
    h
}
pub fn set_cap_ptr(h: &mut [u8], p: u8) {
    match h[0x0e] & 0x7f {
        2 => h[0x14] = p,
        _ => h[0x34] = p,
    }
}
/// Small header for capability-centred cases.
fn cap_header(rng: &mut Rng, ctx: &Ctx) -> Vec<u8> {
    let mut h = if rng.one_in(4) { gen_header(rng, ctx) } else { vec![0u8; 64] };
    h[0x0e] = (h[0x0e] & 0x80) | *rng.pick(&[0u8, 0, 1, 1, 2]);
    if rng.one_in(2) {
        let dev: u16 = match rng.below(5) {
            0 => 0x0fff,
            1 => 0x1080,
            2 => rng.u32() as u16,
            _ => 0x1000 + (rng.u32() as u16 & 0x7f),
        };
        put(&mut h, 0, &VIRTIO.to_le_bytes());
        put(&mut h, 2, &dev.to_le_bytes());
    } else if rng.one_in(3) {
        sprinkle(rng, ctx, &mut h, 4);
    }
    h
}

// ---------------------------------------------------------------- capability bodies
pub const ALL_IDS: &[u8] = &[
    0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09, 0x0a, 0x0b, 0x0c, 0x0d, 0x0e, 0x0f, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x40, 0xff,
];
pub const BODY_IDS: &[u8] = &[0x01, 0x02, 0x03, 0x04, 0x05, 0x07, 0x08, 0x09, 0x0a, 0x0d, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15];
pub const BODY_EIDS: &[u16] = &[
    0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09, 0x0a, 0x0b, 0x0c, 0x0d, 0x0e, 0x0f, 0x10, 0x12, 0x13, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x1b, 0x1c, 0x1d, 0x1e,
    0x1f, 0x20, 0x21, 0x22, 0x23, 0x24,
];
/// bytes of the capability (from the id byte) that carry registers, as a generator hint
pub fn span(id: u8) -> usize {
    match id {
        0x01 => 8,
        0x02 => 0x28,
        0x03 => 8,
        0x04 => 4,
        0x05 => 24,
        0x07 => 0x40,
        0x08 => 0x1c,
        0x09 => 0x18,
        0x0a => 4,
        0x0d => 8,
        0x10 => 0x3c,
        0x11 => 12,
        0x12 => 8,
        0x13 => 6,
        0x14 => 0x30,
        0x15 => 36,
        _ => 8,
    }
}
pub fn espan(id: u16) -> usize {
    match id {
        0x01 => 0x48,
        0x02 | 0x08 | 0x09 => 0x70,
        0x03 => 12,
        0x04 => 16,
        0x05 => 0x50,
        0x06 => 12,
        0x07 => 8,
        0x0a => 0x14,
        0x0b => 0x18,
        0x0c => 8,
        0x0d => 0x28,
        0x0e | 0x0f => 8,
        0x10 => 0x40,
        0x12 => 0x30,
        0x13 => 16,
        0x15 | 0x24 => 0x34,
        0x16 => 0x30,
        0x17 => 0x1c,
        0x18 => 8,
        0x19 => 0x4c,
        0x1a => 0x30,
        0x1b | 0x1c => 8,
        0x1d => 0x40,
        0x1e => 16,
        0x1f => 12,
        0x20 => 0x20,
        0x21 => 0x10,
        0x22 => 12,
        0x23 => 0x38,
        _ => 16,
    }
}
/// Makes the size, version, type and count fields of a conventional capability plausible.
fn tune(rng: &mut Rng, d: &mut [u8], id: u8, bridge: bool) {
    match id {
        0x02 => {
            let v = *rng.pick(&[0x10u8, 0x20, 0x30, 0x35, 0x40]);
            put(d, 2, &[v])
        }
        0x05 => {
            let v = rng.u8();
            set_bits(d, 16 + 7, 2, v as u64);
        }
        0x07 => {
            let v = rng.u8() as u64;
            set_bits(d, 16 + 12, 2, v)
        }
        0x08 => {
            let c = *rng.pick(&[0u64, 1, 8, 9, 10, 11, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28]);
            if c < 2 {
                set_bits(d, 16 + 13, 3, c);
            } else {
                set_bits(d, 16 + 11, 5, c);
            }
        }
        0x09 => {
            let room = d.len();
            let l = match rng.below(8) {
                0 => rng.below(5),
                1 => room,
                2 => room + 1,
                3 => rng.below(256),
                4 => 16,
                5 => 20,
                _ => rng.range(3, room.clamp(3, 255)),
            };
            put(d, 2, &[l as u8]);
            let t = rng.u8() & 7;
            put(d, 3, &[t]);
        }
        0x10 => {
            let v = *rng.pick(&[0u64, 1, 2, 2, 2, 3, 15]);
            set_bits(d, 16, 4, v);
            let t = *rng.pick(&[0u64, 1, 4, 5, 6, 7, 8, 9, 10, 2, 3, 15]);
            set_bits(d, 20, 4, t);
        }
        0x14 => {
            let n = match rng.below(6) {
                0 => 0,
                1 => rng.below(64),
                _ => rng.range(1, 8),
            };
            put(d, 2, &[n as u8 | (rng.u8() & 0xc0)]);
            let mut o = if bridge { 8 } else { 4 };
            for _ in 0..n {
                if o + 12 > d.len() {
                    break;
                }
                let (w1, w2) = (rng.one_in(2), rng.one_in(2));
                set_bits(d, (o + 4) * 8 + 1, 1, w1 as u64);
                set_bits(d, (o + 8) * 8 + 1, 1, w2 as u64);
                let real = 2 + w1 as usize + w2 as usize;
                let es = if rng.one_in(6) { rng.below(8) } else { real };
                set_bits(d, o * 8, 3, es as u64);
                if rng.one_in(2) {
                    let p = *rng.pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 8, 0xfc, 0xfd, 0xfe, 0xff]);
                    put(d, o + 1, &[p]);
                    let p = *rng.pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 8, 0xfc, 0xfd, 0xfe, 0xff]);
                    put(d, o + 2, &[p]);
                }
                o += if cfg!(feature = "ea_real") { 4 * (real + 1) } else { 4 * (es + 1) };
            }
        }
        _ => (),
    }
}
fn etune(rng: &mut Rng, d: &mut [u8], id: u16) {
    match id {
        0x02 | 0x08 | 0x09 => {
            let n = rng.below(8) as u64;
            set_bits(d, 32, 3, n);
            let off = match rng.below(8) {
                0 => 0,
                1 => 1,
                2 => rng.below(256),
                _ => rng.range(2, 16),
            };
            put(d, 11, &[off as u8]);
            let s = rng.below(5) as u64;
            set_bits(d, 12 * 8 + 1, 3, s);
            for i in 0..=n as usize {
                let o = 16 + 12 * i;
                let off = match rng.below(8) {
                    0 => 0,
                    1 => 1,
                    2 => rng.below(256),
                    _ => rng.range(2, 24),
                };
                put(d, o + 3, &[off as u8]);
                let s = if rng.one_in(6) { rng.below(8) } else { rng.range(1, 5) } as u64;
                set_bits(d, (o + 4) * 8 + 17, 3, s);
            }
        }
        0x05 => {
            let n = if rng.one_in(5) { rng.u8() } else { rng.u8() % 6 };
            put(d, 5, &[n]);
            for i in 0..n as usize {
                let o = 16 + 16 * i;
                let t = rng.one_in(2) as u64;
                set_bits(d, o * 8 + 1, 1, t);
            }
        }
        0x0b => {
            let room = d.len();
            let l = match rng.below(6) {
                0 => rng.below(12),
                1 => room,
                2 => room + 1,
                3 => rng.below(4096),
                _ => rng.range(8, room.clamp(8, 64)),
            } as u64;
            set_bits(d, 52, 12, l);
        }
        0x23 => {
            let room = d.len();
            let l = match rng.below(7) {
                0 => rng.below(14),
                1 => room,
                2 => room + 1,
                3 => rng.below(4096),
                4 | 5 => 0x38,
                _ => rng.range(10, room.clamp(10, 80)),
            } as u64;
            set_bits(d, 52, 12, l);
            if !rng.one_in(3) {
                set_bits(d, 32, 16, 0x1e98);
                let i = if rng.one_in(2) { 0 } else { rng.below(12) } as u64;
                set_bits(d, 64, 16, i);
            }
        }
        0x0d => {
            if rng.one_in(2) {
                let s = match rng.below(3) {
                    0 => 0,
                    1 => rng.range(1, 40),
                    _ => rng.below(256),
                } as u64;
                set_bits(d, 40, 8, s);
                let e = rng.u8() as u64;
                set_bits(d, 32 + 5, 1, e);
            }
        }
        0x15 | 0x24 => {
            let n = if rng.one_in(6) { rng.below(8) } else { rng.range(1, 6) } as u64;
            set_bits(d, 8 * 8 + 5, 3, n);
        }
        0x17 => {
            if rng.one_in(2) {
                set_bits(d, 32 + 9, 2, 1);
            }
            let n = match rng.below(4) {
                0 => rng.range(60, 66),
                1 => rng.below(2048),
                _ => rng.below(24),
            } as u64;
            set_bits(d, 48, 11, n);
        }
        0x1a => {
            let n = if rng.one_in(4) { rng.below(64) } else { rng.below(8) } as u64;
            set_bits(d, 32, 6, n);
        }
        _ => (),
    }
}

/// A capability with its registers, `n` bytes from the id byte.
fn cap_bytes(i: u64, rng: &mut Rng, ctx: &Ctx, id: u8, n: usize, bridge: bool) -> Vec<u8> {
    let mut d = vec![0u8; n];
    let sp = span(id).min(n);
    if i % 4 == 3 {
        // systematic walk over register bits: flip one bit of a plain base
        let k = (i / 4) as usize;
        match k % 3 {
            0 => (),
            1 => d.fill(0xff),
            _ => random(rng, &mut d),
        }
        if rng.one_in(2) {
            tune(rng, &mut d, id, bridge);
        }
        let bits = (sp.max(3) - 2) * 8;
        let b = 16 + rng.below(bits);
        if let Some(x) = d.get_mut(b / 8) {
            *x ^= 1 << (b % 8);
        }
    } else {
        fill(rng, ctx, &mut d, sp);
        if !rng.one_in(3) {
            tune(rng, &mut d, id, bridge);
        }
        if rng.one_in(8) {
            sprinkle(rng, ctx, &mut d, sp);
        }
    }
    put(&mut d, 0, &[id, 0]);
    d
}
fn ecap_bytes(i: u64, rng: &mut Rng, ctx: &Ctx, id: u16, n: usize) -> Vec<u8> {
    let mut d = vec![0u8; n];
    let sp = espan(id).min(n);
    if i % 4 == 3 {
        let k = (i / 4) as usize;
        match k % 3 {
            0 => (),
            1 => d.fill(0xff),
            _ => random(rng, &mut d),
        }
        if rng.one_in(2) {
            etune(rng, &mut d, id);
        }
        let bits = (sp.max(5) - 4) * 8;
        let b = 32 + rng.below(bits);
        if let Some(x) = d.get_mut(b / 8) {
            *x ^= 1 << (b % 8);
        }
    } else {
        fill(rng, ctx, &mut d, sp);
        if !rng.one_in(3) {
            etune(rng, &mut d, id);
        }
        if rng.one_in(8) {
            sprinkle(rng, ctx, &mut d, sp);
        }
    }
    let ver = if rng.one_in(2) { 1 } else { rng.below(16) } as u32;
    put(&mut d, 0, &(id as u32 | ver << 16).to_le_bytes());
    d
}
/// how many bytes of the capability are supplied
fn supply(rng: &mut Rng, max: usize, span: usize) -> usize {
    match rng.below(8) {
        0..=3 => max,
        4 | 5 => rng.range(0, span + 4),
        6 => span + rng.below(5),
        _ => rng.range(0, max),
    }
    .min(max)
}

/// One conventional capability of the focus at any aligned position, any truncation.
pub fn single_conv(i: u64, rng: &mut Rng, ctx: &Ctx) -> Image {
    let id = ctx.focus.ids[i as usize % ctx.focus.ids.len()];
    single_conv_id(i / ctx.focus.ids.len() as u64, rng, ctx, id)
}
pub fn single_conv_id(i: u64, rng: &mut Rng, ctx: &Ctx, id: u8) -> Image {
    let mut hdr = cap_header(rng, ctx);
    let bridge = hdr[0x0e] & 0x7f == 1;
    let sp = span(id);
    let ptr = match rng.below(8) {
        0 => 0x40 + 4 * rng.below(48),
        1 | 2 => 0x40,
        _ => 0x40 + 4 * rng.below((192 - sp) / 4 + 1),
    };
    let room = 256 - ptr;
    let n = supply(rng, room, sp);
    let mut ddr = vec![0u8; ptr - 0x40];
    if rng.one_in(3) {
        random(rng, &mut ddr);
    }
    set_cap_ptr(&mut hdr, ptr as u8);
    // an element in front of it
    if ptr > 0x40 + 4 && rng.one_in(3) {
        let q = 0x40 + 4 * rng.below((ptr - 0x40) / 4);
        let fid = *rng.pick(ALL_IDS);
        put(&mut ddr, q - 0x40, &[fid, ptr as u8]);
        set_cap_ptr(&mut hdr, q as u8);
    }
    ddr.extend(cap_bytes(i, rng, ctx, id, n, bridge));
    oversize(rng, &mut ddr, 192);
    if n >= 2 && rng.one_in(4) {
        let nx = rng.u8();
        ddr[ptr - 0x40 + 1] = nx;
    }
    Image { hdr, ddr, ..Image::default() }
}
/// Now and then the caller hands over more bytes than the region has.
fn oversize(rng: &mut Rng, v: &mut Vec<u8>, full: usize) {
    if rng.one_in(24) {
        let n = v.len();
        v.resize(n.max(full) + *rng.pick(&[1usize, 2, 4, 64, 256]), 0);
        if rng.one_in(2) {
            random(rng, &mut v[n..]);
        }
    }
}
pub fn single_ext(i: u64, rng: &mut Rng, ctx: &Ctx) -> Image {
    let id = ctx.focus.eids[i as usize % ctx.focus.eids.len()];
    single_ext_id(i / ctx.focus.eids.len() as u64, rng, ctx, id)
}
pub fn single_ext_id(i: u64, rng: &mut Rng, ctx: &Ctx, id: u16) -> Image {
    let sp = espan(id);
    let off = match rng.below(8) {
        0 => 0x100 + 4 * rng.below(960),
        1..=4 => 0x100,
        5 => 0x100 + 4 * rng.below(32),
        _ => 0x100 + 4 * rng.below((3840 - sp) / 4 + 1),
    };
    let room = (4096 - off).min(match rng.below(4) {
        0 => 4096,
        1 => 1024,
        _ => 4 * sp + 64,
    });
    let n = supply(rng, room, sp);
    let mut ecs = vec![0u8; off - 0x100];
    if off > 0x100 {
        if rng.one_in(3) {
            random(rng, &mut ecs);
        }
        let fid = if rng.one_in(2) { 0 } else { rng.below(0x40) as u32 };
        put(&mut ecs, 0, &(fid | 1 << 16 | (off as u32) << 20).to_le_bytes());
    }
    ecs.extend(ecap_bytes(i, rng, ctx, id, n));
    oversize(rng, &mut ecs, 3840);
    if n >= 4 && rng.one_in(4) {
        let nx = rng.u32() & 0xfff;
        let o = off - 0x100;
        ecs[o + 2] = ecs[o + 2] & 0xf | (nx << 4) as u8;
        ecs[o + 3] = (nx >> 4) as u8;
    }
    Image { hdr: vec![0u8; 64], ecs, ..Image::default() }
}
/// Focus capabilities, conventional and extended, one per case.
pub fn focus(i: u64, rng: &mut Rng, ctx: &Ctx) -> Image {
    let (a, b) = (ctx.focus.ids.len(), ctx.focus.eids.len());
    // chains now and then: the same bodies, reached through a list
    if i % 16 == 15 {
        return if a > 0 && (b == 0 || rng.one_in(2)) { chain_conv(i / 16, rng, ctx) } else { chain_ext(i / 16, rng, ctx) };
    }
    let k = i as usize % (a + b);
    let j = i / (a + b) as u64;
    if k < a {
        single_conv_id(j, rng, ctx, ctx.focus.ids[k])
    } else {
        single_ext_id(j, rng, ctx, ctx.focus.eids[k - a])
    }
}

// ---------------------------------------------------------------- chains
fn shuffle<T>(rng: &mut Rng, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        v.swap(i, rng.below(i + 1));
    }
}
fn pick_id(rng: &mut Rng, ctx: &Ctx) -> u8 {
    match rng.below(6) {
        0 => rng.u8(),
        1 => *rng.pick(ALL_IDS),
        _ if ctx.focus.ids.is_empty() => *rng.pick(BODY_IDS),
        _ => *rng.pick(ctx.focus.ids),
    }
}
fn pick_eid(rng: &mut Rng, ctx: &Ctx) -> u16 {
    match rng.below(8) {
        0 => rng.u32() as u16,
        1 => rng.below(0x40) as u16,
        2 => 0,
        3 => ctx.lit(rng) as u16,
        _ if ctx.focus.eids.is_empty() => *rng.pick(BODY_EIDS),
        _ => *rng.pick(ctx.focus.eids),
    }
}
/// Linked list of conventional capabilities, well formed or with a bad tail.
pub fn chain_conv(i: u64, rng: &mut Rng, ctx: &Ctx) -> Image {
    let mut hdr = cap_header(rng, ctx);
    let bridge = hdr[0x0e] & 0x7f == 1;
    let mut ddr = vec![0u8; 192];
    match rng.below(3) {
        0 => random(rng, &mut ddr),
        1 => fill(rng, ctx, &mut ddr, 192),
        _ => (),
    }
    let stride = *rng.pick(&[1usize, 1, 2, 4, 8]);
    let mut pos: Vec<usize> = (0..48).step_by(stride).map(|k| 4 * k).collect();
    if !rng.one_in(3) {
        shuffle(rng, &mut pos);
    }
    let n = match rng.below(4) {
        0 => rng.range(1, 3),
        1 => pos.len(),
        _ => rng.range(1, pos.len()),
    };
    pos.truncate(n);
    // bodies first, then the links, so that the list itself survives overlaps
    let ids: Vec<u8> = pos.iter().map(|_| pick_id(rng, ctx)).collect();
    if stride >= 4 {
        for (p, id) in pos.iter().zip(&ids) {
            let len = (192 - p).min(stride * 4);
            let by = cap_bytes(i, rng, ctx, *id, len, bridge);
            put(&mut ddr, *p, &by);
        }
    }
    for (k, p) in pos.iter().enumerate() {
        let next = match pos.get(k + 1) {
            Some(q) => (*q + 0x40) as u8 | if rng.one_in(3) { rng.u8() & 3 } else { 0 },
            None => match rng.below(8) {
                0 => rng.u8() % 0x40,
                1 => *rng.pick(&pos) as u8 + 0x40,
                2 => rng.u8(),
                3 => rng.u8() & 3,
                _ => 0,
            },
        };
        put(&mut ddr, *p, &[ids[k], next]);
    }
    let start = match rng.below(12) {
        0 => 0,
        1 => rng.u8() % 0x40,
        2 => rng.u8(),
        _ => pos[0] as u8 + 0x40,
    };
    set_cap_ptr(&mut hdr, start);
    if rng.one_in(4) {
        let l = rng.below(193);
        ddr.truncate(l);
    }
    oversize(rng, &mut ddr, 192);
    Image { hdr, ddr, ..Image::default() }
}
pub fn chain_ext(i: u64, rng: &mut Rng, ctx: &Ctx) -> Image {
    let total = *rng.pick(&[3840usize, 3840, 1024, 512, 256, 64]);
    let mut ecs = vec![0u8; total];
    match rng.below(3) {
        0 => random(rng, &mut ecs),
        1 => fill(rng, ctx, &mut ecs, 256),
        _ => (),
    }
    let stride = *rng.pick(&[1usize, 1, 2, 4, 16, 32]);
    let mut pos: Vec<usize> = (1..total / 4).step_by(stride).map(|k| 4 * k).collect();
    if !rng.one_in(3) {
        shuffle(rng, &mut pos);
    }
    let n = match rng.below(4) {
        0 => rng.range(0, 3),
        1 if rng.one_in(16) => pos.len(),
        _ => rng.range(1, 40),
    };
    pos.truncate(n);
    pos.insert(0, 0);
    let ids: Vec<u16> = pos.iter().map(|_| pick_eid(rng, ctx)).collect();
    if stride >= 4 {
        for (p, id) in pos.iter().zip(&ids) {
            let len = (total - p).min(stride * 4);
            let by = ecap_bytes(i, rng, ctx, *id, len);
            put(&mut ecs, *p, &by);
        }
    }
    for (k, p) in pos.iter().enumerate() {
        let next = match pos.get(k + 1) {
            Some(q) => (*q + 0x100) as u32 | if rng.one_in(3) { rng.u32() & 3 } else { 0 },
            None => match rng.below(8) {
                0 => rng.u32() % 0x100,
                1 => (*rng.pick(&pos) + 0x100) as u32,
                2 => rng.u32() & 0xfff,
                3 => rng.u32() & 3,
                _ => 0,
            },
        };
        let ver = if rng.one_in(3) { rng.below(16) as u32 } else { 1 };
        let mut dw = ids[k] as u32 | ver << 16 | next << 20;
        if rng.one_in(64) {
            dw = 0;
        }
        put(&mut ecs, *p, &dw.to_le_bytes());
    }
    if rng.one_in(4) {
        let l = rng.below(total + 1);
        ecs.truncate(l);
    }
    oversize(rng, &mut ecs, 3840);
    Image { hdr: vec![0u8; 64], ecs, ..Image::default() }
}

// ---------------------------------------------------------------- whole spaces
/// Real device configuration spaces, mutated.
pub fn device(rng: &mut Rng, ctx: &Ctx) -> Image {
    if ctx.devices.is_empty() {
        return Image { hdr: gen_header(rng, ctx), ..Image::default() };
    }
    let mut d = rng.pick(&ctx.devices).clone();
    let n = match rng.below(4) {
        0 => 0,
        1 => 1,
        2 => rng.range(2, 8),
        _ => rng.range(8, 64),
    };
    for _ in 0..n {
        let i = rng.below(d.len());
        match rng.below(4) {
            0 => d[i] = rng.u8(),
            1 => d[i] ^= 1 << rng.below(8),
            2 => {
                let l = d.len();
                sprinkle(rng, ctx, &mut d[i.min(l - 4)..], 1)
            }
            _ => {
                let j = rng.below(d.len());
                let k = rng.range(1, 16);
                for x in 0..k {
                    if i + x < d.len() && j + x < d.len() {
                        d[i + x] = d[j + x];
                    }
                }
            }
        }
    }
    if rng.one_in(5) {
        let l = rng.range(64, d.len());
        d.truncate(l);
    }
    let ecs = if d.len() > 256 { d.split_off(256) } else { Vec::new() };
    let ddr = d.split_off(64);
    Image { hdr: d, ddr, ecs, ..Image::default() }
}
/// Everything at once: header, conventional and extended part from any generator.
pub fn whole(i: u64, rng: &mut Rng, ctx: &Ctx) -> Image {
    if i % 8 == 7 {
        return device(rng, ctx);
    }
    if i % 64 == 6 {
        // unstructured bytes
        let mut v = vec![0u8; 4096];
        random(rng, &mut v);
        if rng.one_in(2) {
            v[0x0e] &= 3;
        }
        let ecs = v.split_off(256);
        let ddr = v.split_off(64);
        return Image { hdr: v, ddr, ecs, ..Image::default() };
    }
    let mut im = match rng.below(3) {
        0 => chain_conv(i, rng, ctx),
        1 if !ctx.focus.ids.is_empty() => single_conv(i, rng, ctx),
        _ => {
            let id = *rng.pick(BODY_IDS);
            single_conv_id(i, rng, ctx, id)
        }
    };
    let e = match rng.below(4) {
        0 => chain_ext(i, rng, ctx),
        1 if !ctx.focus.eids.is_empty() => single_ext(i, rng, ctx),
        _ => {
            let id = *rng.pick(BODY_EIDS);
            single_ext_id(i, rng, ctx, id)
        }
    };
    im.ecs = e.ecs;
    if rng.one_in(3) {
        let h = gen_header(rng, ctx);
        let (t, p) = (im.hdr[0x0e], if im.hdr[0x0e] & 0x7f == 2 { im.hdr[0x14] } else { im.hdr[0x34] });
        im.hdr = h;
        im.hdr[0x0e] = t;
        set_cap_ptr(&mut im.hdr, p);
    }
    im
}
pub fn headers(i: u64, rng: &mut Rng, ctx: &Ctx) -> Image {
    let mut hdr = if i % 4 == 3 {
        // systematic single-bit walk for each layout
        let k = (i / 4) as usize;
        let base = match k / 512 % 3 {
            0 => 0,
            1 => 0xff,
            _ => 0x5a,
        };
        let mut h = vec![base as u8; 64];
        h[0x0e] = (k / 1536 % 4) as u8;
        h[k % 512 / 8] ^= 1 << (k % 8);
        h
    } else {
        gen_header(rng, ctx)
    };
    hdr.truncate(64);
    // the registers behind the header (read by the CardBus layout only)
    let n = match rng.below(4) {
        0 => rng.below(0x40),
        1 => 0x3f + rng.below(3),
        2 => 0x40,
        _ => 0x40 + rng.below(0x90),
    };
    let mut ddr = vec![0u8; n];
    if rng.one_in(4) {
        random(rng, &mut ddr);
    } else {
        fill(rng, ctx, &mut ddr, 8);
    }
    Image { hdr, ddr, ..Image::default() }
}
/// Histories: a list plus a script of operations on it.
pub fn history(i: u64, rng: &mut Rng, ctx: &Ctx) -> Image {
    let mut im = match rng.below(6) {
        0 => chain_conv(i, rng, ctx),
        1 => chain_ext(i, rng, ctx),
        2 => headers(i, rng, ctx),
        _ => whole(i, rng, ctx),
    };
    let n = rng.range(1, 24);
    im.ops = (0..n).map(|_| rng.u8()).collect();
    im
}
