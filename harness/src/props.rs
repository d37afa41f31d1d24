//! One check per property: what is generated, what is judged, against which oracle.
use crate::engine::*;
use crate::gen::{self, Focus, BODY_EIDS, BODY_IDS};
use crate::model::{caps, ecaps, header as mh};
use crate::{alone, direct};
use crate::walk;
use pcics::capabilities::{Capabilities, Capability, CapabilityError};
use pcics::extended_capabilities::{ExtendedCapabilities, ExtendedCapability, ExtendedCapabilityError};
use pcics::header::{Header, HeaderType};
use std::fmt::Debug;
use std::sync::OnceLock;

pub static FOCUS: OnceLock<Focus> = OnceLock::new();
/// A property about every kind is also about the kinds that have no registers.
fn in_ids(id: u8) -> bool {
    FOCUS.get().map_or(true, |f| f.ids.len() == BODY_IDS.len() || f.ids.contains(&id))
}
fn in_eids(id: u16) -> bool {
    FOCUS.get().map_or(true, |f| f.eids.len() == BODY_EIDS.len() || f.eids.contains(&id))
}

pub struct Prop {
    pub id: &'static str,
    pub focus: Focus,
    pub check: CheckFn,
    pub mask: u8,
    pub gen: GenFn,
    /// cases: quick, thorough
    pub cases: [u64; 2],
    pub rule: &'static str,
    pub oracle: &'static str,
}

fn header_of(im: &Image) -> Option<Header> {
    let a: [u8; 64] = im.hdr.get(..64)?.try_into().ok()?;
    Some(Header::from(a))
}

// ---------------------------------------------------------------- list models
pub enum El {
    /// capability at a position (byte offset from the start of the space)
    Cap(usize),
    /// the list leaves the region: pointer below it
    Low,
    /// the header at this position is not in the supplied bytes
    NoHeader(usize),
}
pub const CONV_MAX: usize = 48;
pub const EXT_MAX: usize = 960;
/// Expected conventional list.
pub fn conv_list(start: u8, ddr: &[u8]) -> Vec<El> {
    let mut v = Vec::new();
    let mut seen = [false; 64];
    let mut p = (start & !3) as usize;
    loop {
        if p == 0 || seen[p / 4] {
            return v;
        }
        seen[p / 4] = true;
        if p < 0x40 {
            v.push(El::Low);
            return v;
        }
        let o = p - 0x40;
        if ddr.len() < o + 2 {
            v.push(El::NoHeader(p));
            return v;
        }
        v.push(El::Cap(p));
        p = (ddr[o + 1] & !3) as usize;
    }
}
/// Expected extended list.
pub fn ext_list(ecs: &[u8]) -> Vec<El> {
    let mut v = Vec::new();
    let mut seen = [false; 1024];
    let mut p = 0x100usize;
    loop {
        if p == 0 || seen[p / 4] {
            return v;
        }
        seen[p / 4] = true;
        if p < 0x100 {
            v.push(El::Low);
            return v;
        }
        let o = p - 0x100;
        if ecs.len() < o + 4 {
            v.push(El::NoHeader(p));
            return v;
        }
        let h = crate::model::r32(ecs, o);
        if h == 0 {
            return v;
        }
        v.push(El::Cap(p));
        p = (h >> 20 & 0xffc) as usize;
    }
}

// ---------------------------------------------------------------- common walks
/// Judges the listed conventional capabilities (those in focus) against the model.
fn conv(im: &Image, ck: &mut Ck) {
    let Some(h) = header_of(im) else { return };
    let exp = conv_list(h.capabilities_pointer, &im.ddr);
    let mut it = Capabilities::new(&im.ddr, &h);
    for e in &exp {
        let got = it.next();
        match (e, got) {
            (El::Cap(p), Some(got)) => {
                let d = &im.ddr[p - 0x40..];
                if let Ok(c) = &got {
                    ck.eq(CHAIN, "capability position", &(c.pointer as usize), p);
                    if c.pointer as usize != *p {
                        return;
                    }
                }
                if let Err(e @ (CapabilityError::Pointer | CapabilityError::Header { .. })) = &got {
                    ck.ok(CHAIN, false, || format!("a readable element at {p:#x} is reported as the list error {e:?}"));
                }
                if in_ids(d[0]) {
                    ck.nontrivial |= d.len() > 4 && d[2..].iter().any(|b| *b != 0) || ck.mask == KIND;
                    ck.label(if got.is_ok() { "conv decoded" } else { "conv error" });
                    caps::check_cap(ck, &got, *p as u8, d, &im.hdr);
                    if let Some(mut rng) = alone::pick(ck, d, got.is_ok()) {
                        alone::check_conv(ck, d, *p, walk::extent(d, im.hdr[0x0e] & 0x7f == 1), &h, &got, &mut rng);
                    }
                }
            }
            (El::Low, Some(got)) => {
                ck.label("pointer below 40h");
                list_err(ck, &got, CapabilityError::Pointer, "capabilities pointer should be greater than 0x40".into())
            }
            (El::NoHeader(p), Some(got)) => {
                ck.label("header not available");
                let ptr = *p as u8;
                list_err(ck, &got, CapabilityError::Header { ptr }, format!("[{ptr:02x}] capability header is not available"))
            }
            (_, None) => return ck.ok(CHAIN, false, || "the enumeration ends before the list does".to_string()),
        }
    }
    if ck.want(CHAIN) {
        let n = it.next().map(|r| walk::full(&r));
        ck.eq(CHAIN, "after the last element", &n, &None);
        let n = it.next().map(|r| walk::full(&r));
        ck.eq(CHAIN, "after the end", &n, &None);
    }
}
fn list_err(ck: &mut Ck, got: &Result<Capability, CapabilityError>, e: CapabilityError, t: String) {
    match got {
        Ok(c) => ck.ok(CHAIN | SHAPE | ERRTXT, false, || format!("expected {e:?}, got {c:?}")),
        Err(g) => {
            ck.eq(CHAIN | ERRTXT, "list error", g, &e);
            if ck.want(ERRTXT) {
                ck.eq(ERRTXT, "list error text", &g.to_string(), &t);
            }
        }
    }
}
fn elist_err(ck: &mut Ck, got: &Result<ExtendedCapability, ExtendedCapabilityError>, e: ExtendedCapabilityError, t: String) {
    match got {
        Ok(c) => ck.ok(CHAIN | SHAPE | ERRTXT, false, || format!("expected {e:?}, got {c:?}")),
        Err(g) => {
            ck.eq(CHAIN | ERRTXT, "list error", g, &e);
            if ck.want(ERRTXT) {
                ck.eq(ERRTXT, "list error text", &g.to_string(), &t);
            }
        }
    }
}
fn ext(im: &Image, ck: &mut Ck) {
    if im.ecs.is_empty() && ck.mask & CHAIN == 0 {
        return;
    }
    let exp = ext_list(&im.ecs);
    let mut it = ExtendedCapabilities::new(&im.ecs);
    for e in &exp {
        let got = it.next();
        match (e, got) {
            (El::Cap(p), Some(got)) => {
                let d = &im.ecs[p - 0x100..];
                let dw = crate::model::r32(d, 0);
                if let Ok(c) = &got {
                    ck.eq(CHAIN, "capability position", &(c.offset as usize), p);
                    ck.eq(CHAIN, "capability version", &(c.version as u32), &(dw >> 16 & 0xf));
                    if c.offset as usize != *p {
                        return;
                    }
                }
                use ExtendedCapabilityError as E;
                if let Err(e @ (E::Offset | E::Header { .. } | E::EmptyHeader { .. })) = &got {
                    ck.ok(CHAIN, false, || format!("a readable element at {p:#x} is reported as the list error {e:?}"));
                }
                if in_eids(dw as u16) {
                    ck.nontrivial |= d.len() > 4 && d[4..].iter().any(|b| *b != 0) || ck.mask == KIND;
                    ck.label(if got.is_ok() { "ext decoded" } else { "ext error" });
                    ecaps::check_ecap(ck, &got, *p as u16, d);
                    if let Some(mut rng) = alone::pick(ck, d, got.is_ok()) {
                        alone::check_ext(ck, d, *p, walk::eextent(d), &got, &mut rng);
                    }
                }
            }
            (El::Low, Some(got)) => {
                ck.label("offset below 100h");
                elist_err(ck, &got, ExtendedCapabilityError::Offset, "extended capability offset should be greater than 0xFF".into())
            }
            (El::NoHeader(p), Some(got)) => {
                ck.label("header not available");
                let offset = *p as u16;
                elist_err(
                    ck,
                    &got,
                    ExtendedCapabilityError::Header { offset },
                    format!("[{offset:03x}] extended capability header shorter than u32"),
                )
            }
            (_, None) => return ck.ok(CHAIN, false, || "the enumeration ends before the list does".to_string()),
        }
    }
    if ck.want(CHAIN) {
        let n = it.next().map(|r| walk::efull(&r));
        ck.eq(CHAIN, "after the last element", &n, &None);
        let n = it.next().map(|r| walk::efull(&r));
        ck.eq(CHAIN, "after the end", &n, &None);
    }
}
fn both(im: &Image, ck: &mut Ck) {
    conv(im, ck);
    ext(im, ck);
    direct::conv(ck, &im.ddr, in_ids);
    direct::ext(ck, &im.ecs, in_eids);
}
fn hdr_all(im: &Image, ck: &mut Ck) {
    if let Some(h) = header_of(im) {
        mh::check_header(ck, &h, &im.hdr, mh::F_COMMON | mh::F_BARS | mh::F_WIN);
        mh::check_cardbus_optional(ck, &h, &im.ddr);
    }
}

// ---------------------------------------------------------------- P01, P02
fn p01(im: &Image, ck: &mut Ck) {
    ck.nontrivial = im.ddr.len() + im.ecs.len() > 8;
    // anything that takes a slice takes every slice
    let _ = Header::try_from(&im.hdr[..]).map(|h| format!("{h:?}"));
    let _ = Header::try_from(&im.ddr[..]).map(|h| format!("{h:?}"));
    let Some(h) = header_of(im) else { return };
    let mut inner = Ck::new(ALL);
    // values are judged by the other properties; here only that they can be computed
    mh::check_header(&mut inner, &h, &im.hdr, 7);
    mh::check_cardbus_optional(&mut inner, &h, &im.ddr);
    let _ = format!("{h:?} {:?}", h.class_code.meaning());
    // regions collected into fewer registers than they came from
    if let HeaderType::Normal(n) = &h.header_type {
        let _: ([u32; 1], [u32; 2]) = (n.base_addresses.clone().collect(), n.base_addresses.clone().collect());
    }
    if let HeaderType::Cardbus(c) = &h.header_type {
        let mut c = c.clone();
        let _ = c.try_set_optional_registers(&im.ddr);
        let _ = format!("{c:?}");
    }
    for r in Capabilities::new(&im.ddr, &h).take(4 * CONV_MAX) {
        let _ = format!("{} {r:?}", walk::full(&r));
        ck.label(if r.is_ok() { "conv decoded" } else { "conv error" });
        if let Ok(c) = &r {
            if let Some(d) = (c.pointer as usize).checked_sub(0x40).and_then(|o| im.ddr.get(o..)) {
                if d.len() >= 2 {
                    inner.fail = None;
                    caps::check_cap(&mut inner, &r, c.pointer, d, &im.hdr);
                }
            }
        }
    }
    for r in ExtendedCapabilities::new(&im.ecs).take(4 * EXT_MAX) {
        let _ = format!("{} {r:?}", walk::efull(&r));
        ck.label(if r.is_ok() { "ext decoded" } else { "ext error" });
        if let Ok(c) = &r {
            let _ = c.id();
            if let Some(d) = (c.offset as usize).checked_sub(0x100).and_then(|o| im.ecs.get(o..)) {
                if d.len() >= 4 {
                    inner.fail = None;
                    ecaps::check_ecap(&mut inner, &r, c.offset, d);
                }
            }
        }
    }
    ck.cmps += 1;
}
/// position an item reports, where it reports one
fn pos(r: &Result<Capability, CapabilityError>) -> Option<usize> {
    match r {
        Ok(c) => Some(c.pointer as usize),
        Err(e) => walk_pos(&e.to_string()),
    }
}
fn walk_pos(t: &str) -> Option<usize> {
    let t = t.strip_prefix('[')?;
    usize::from_str_radix(t.split_once(']')?.0, 16).ok()
}
fn epos(r: &Result<ExtendedCapability, ExtendedCapabilityError>) -> Option<usize> {
    match r {
        Ok(c) => Some(c.offset as usize),
        Err(e) => walk_pos(&e.to_string()),
    }
}
fn p02(im: &Image, ck: &mut Ck) {
    let Some(h) = header_of(im) else { return };
    {
        let mut it = Capabilities::new(&im.ddr, &h);
        let mut seen = std::collections::HashSet::new();
        let mut n = 0;
        let mut list_errors = 0;
        while let Some(r) = it.next() {
            n += 1;
            if n > CONV_MAX + 1 {
                return ck.ok(ALL, false, || "more conventional capabilities than dword positions".into());
            }
            ck.ok(ALL, list_errors == 0, || format!("the list goes on after it left the region: {}", walk::full(&r)));
            if matches!(r, Err(CapabilityError::Pointer | CapabilityError::Header { .. })) {
                list_errors += 1;
                ck.label("left the region");
            }
            if let Some(p) = pos(&r) {
                ck.ok(ALL, seen.insert(p), || format!("position {p:#x} reported twice"));
            }
        }
        ck.ok(ALL, n <= CONV_MAX + list_errors, || format!("{n} items"));
        for _ in 0..3 {
            let again = it.next().map(|r| walk::full(&r));
            ck.eq(ALL, "after the end", &again, &None);
        }
        ck.nontrivial |= n > 1;
        if n > 16 {
            ck.label("long conventional list");
        }
    }
    {
        let mut it = ExtendedCapabilities::new(&im.ecs);
        let mut seen = std::collections::HashSet::new();
        let mut n = 0;
        let mut list_errors = 0;
        while let Some(r) = it.next() {
            n += 1;
            if n > EXT_MAX + 1 {
                return ck.ok(ALL, false, || "more extended capabilities than dword positions".into());
            }
            ck.ok(ALL, list_errors == 0, || format!("the list goes on after it left the region: {}", walk::efull(&r)));
            if matches!(r, Err(ExtendedCapabilityError::Offset | ExtendedCapabilityError::Header { .. })) {
                list_errors += 1;
                ck.label("left the region");
            }
            if let Some(p) = epos(&r) {
                ck.ok(ALL, seen.insert(p), || format!("offset {p:#x} reported twice"));
            }
        }
        ck.ok(ALL, n <= EXT_MAX + list_errors, || format!("{n} items"));
        for _ in 0..3 {
            let again = it.next().map(|r| walk::efull(&r));
            ck.eq(ALL, "after the end", &again, &None);
        }
        ck.nontrivial |= n > 1;
        if n > 64 {
            ck.label("long extended list");
        }
    }
}
fn p03(im: &Image, ck: &mut Ck) {
    ck.eq(CHAIN, "published device-dependent region", &(pcics::DDR_OFFSET, pcics::DDR_LENGTH), &(0x40, 0xc0));
    conv(im, ck);
    if let Some(h) = header_of(im) {
        let l = conv_list(h.capabilities_pointer, &im.ddr);
        ck.nontrivial = l.len() > 1 || matches!(l.first(), Some(El::Low | El::NoHeader(_)));
        if l.len() > 10 {
            ck.label("more than 10 elements");
        }
    }
}
fn p04(im: &Image, ck: &mut Ck) {
    ck.eq(CHAIN, "published extended space", &(pcics::ECS_OFFSET, pcics::ECS_LENGTH), &(0x100, 0xf00));
    ext(im, ck);
    let l = ext_list(&im.ecs);
    ck.nontrivial = l.len() > 1 || matches!(l.first(), Some(El::Low | El::NoHeader(_)));
    if l.len() > 10 {
        ck.label("more than 10 elements");
    }
}
fn gen_p02(i: u64, rng: &mut Rng, ctx: &gen::Ctx) -> Image {
    match i % 4 {
        0 => gen::chain_conv(i / 4, rng, ctx),
        1 | 2 => gen::chain_ext(i / 4, rng, ctx),
        _ => gen::whole(i / 4, rng, ctx),
    }
}
fn gen_p03(i: u64, rng: &mut Rng, ctx: &gen::Ctx) -> Image {
    match i % 8 {
        7 => gen::device(rng, ctx),
        6 => gen::single_conv(i / 8, rng, ctx),
        _ => gen::chain_conv(i / 8 * 7 + i % 8, rng, ctx),
    }
}
fn gen_p04(i: u64, rng: &mut Rng, ctx: &gen::Ctx) -> Image {
    match i % 8 {
        7 => gen::device(rng, ctx),
        6 => gen::single_ext(i / 8, rng, ctx),
        _ => gen::chain_ext(i / 8 * 7 + i % 8, rng, ctx),
    }
}

// ---------------------------------------------------------------- P05
fn p05(im: &Image, ck: &mut Ck) {
    ck.nontrivial = true;
    both(im, ck);
}
/// exhaustive over all conventional and all extended ids, then lists
fn gen_p05(i: u64, rng: &mut Rng, ctx: &gen::Ctx) -> Image {
    // every extended id twice: first in the list at 100h and behind another element
    if i < 2 * 65536 {
        let id = i as u16;
        let mut ecs = vec![0u8; 0x400];
        let mut body = gen::single_ext_id(i, rng, ctx, id).ecs;
        body.truncate(0x200);
        let at = if i < 65536 { 0 } else { 4 + 4 * rng.below(64) };
        for (k, b) in body.iter().enumerate().skip(4) {
            ecs[(at + k).min(0x3ff)] = *b;
        }
        let dw = id as u32 | (1 + rng.below(15) as u32) << 16;
        if at > 0 {
            ecs[..4].copy_from_slice(&(rng.below(0x40) as u32 | 1 << 16 | (at as u32 + 0x100) << 20).to_le_bytes());
        }
        ecs[at..at + 4].copy_from_slice(&dw.to_le_bytes());
        return Image { hdr: vec![0u8; 64], ecs, ..Image::default() };
    }
    let j = i - 2 * 65536;
    // every conventional id under every header layout
    if j < 256 * 256 {
        return gen::single_conv_id(j / 256, rng, ctx, j as u8);
    }
    gen::whole(i, rng, ctx)
}

// ---------------------------------------------------------------- header properties
fn p06(im: &Image, ck: &mut Ck) {
    if let Some(h) = header_of(im) {
        ck.nontrivial = im.hdr.iter().any(|b| *b != 0);
        mh::check_header(ck, &h, &im.hdr, mh::F_COMMON);
        let mut rng = mix(&im.hdr);
        if rng.one_in(8) {
            header_alone(im, &h, ck, &mut rng);
        }
        mh::check_cardbus_optional(ck, &h, &im.ddr);
        // construction from a slice is the same header, from fewer bytes an error
        let t = Header::try_from(&im.hdr[..]);
        ck.eq(CONTENT, "header from slice", &t.ok().as_ref(), &Some(&h));
    }
}
fn p07(im: &Image, ck: &mut Ck) {
    if let Some(h) = header_of(im) {
        ck.nontrivial = im.hdr[0x10..0x28].iter().any(|b| *b != 0) && im.hdr[0x0e] & 0x7f <= 2;
        mh::check_header(ck, &h, &im.hdr, mh::F_BARS);
    }
}
fn p08(im: &Image, ck: &mut Ck) {
    if let Some(h) = header_of(im) {
        ck.nontrivial = im.hdr[0x1c..0x3c].iter().any(|b| *b != 0) && im.hdr[0x0e] & 0x7f <= 2;
        mh::check_header(ck, &h, &im.hdr, mh::F_WIN);
        mh::check_cardbus_optional(ck, &h, &im.ddr);
    }
}
fn p09(im: &Image, ck: &mut Ck) {
    let (i, s, b) = (im.hdr[9], im.hdr[10], im.hdr[11]);
    ck.nontrivial = true;
    let cc = pcics::header::ClassCode::from([i, s, b]);
    ck.eq(CONTENT, "class bytes", &(cc.base, cc.sub, cc.interface), &(b, s, i));
    ck.eq(CONTENT, "class meaning", &cc.meaning(), &mh::class_meaning(b, s, i));
    if i % 8 == 0 {
        if let Some(h) = header_of(im) {
            ck.eq(CONTENT, "class code of the header", &h.class_code, &cc);
        }
    }
}
fn gen_p09(i: u64, _: &mut Rng, _: &gen::Ctx) -> Image {
    let mut hdr = vec![0u8; 64];
    hdr[9..12].copy_from_slice(&(i as u32).to_le_bytes()[..3]);
    Image { hdr, ..Image::default() }
}

// ---------------------------------------------------------------- P16 locality
fn mix(ops: &[u8]) -> Rng {
    let mut s = 0x1234_5678u64;
    for b in ops {
        s = s.wrapping_mul(0x100_0000_01b3) ^ *b as u64;
    }
    Rng::new(s)
}
fn noise(rng: &mut Rng, v: &mut [u8]) {
    let m = rng.below(4);
    for b in v {
        *b = match m {
            0 => 0,
            1 => 0xff,
            _ => rng.u8(),
        };
    }
}
fn p16(im: &Image, ck: &mut Ck) {
    let Some(h) = header_of(im) else { return };
    let mut rng = mix(&im.ops);
    let bridge = im.hdr[0x0e] & 0x7f == 1;
    let exp = conv_list(h.capabilities_pointer, &im.ddr);
    let got: Vec<_> = Capabilities::new(&im.ddr, &h).take(CONV_MAX + 1).collect();
    for (e, g) in exp.iter().zip(&got) {
        let El::Cap(p) = e else { continue };
        if matches!(g, Ok(c) if c.pointer as usize != *p) {
            break;
        }
        let d = &im.ddr[p - 0x40..];
        let ext = walk::extent(d, bridge);
        let want = walk::item(g);
        // elsewhere, with the same bytes supplied (or at least all of its own)
        let q = 0x40 + 4 * rng.below(48);
        let room = 256 - q;
        if room >= d.len() || (room >= ext && d.len() >= ext && !reports_supply(d[0])) {
            let n = room.min(d.len());
            let mut ddr = vec![0u8; q - 0x40];
            noise(&mut rng, &mut ddr);
            ddr.extend(&d[..n]);
            ddr[q - 0x40 + 1] = if rng.one_in(2) { 0 } else { rng.u8() };
            let mut hdr = im.hdr.clone();
            gen::set_cap_ptr(&mut hdr, q as u8);
            if let Some(h2) = header_of(&Image { hdr, ..Image::default() }) {
                let moved = Capabilities::new(&ddr, &h2).next();
                let s = moved.as_ref().map(walk::item);
                ck.nontrivial |= q != *p;
                ck.label("conv moved");
                ck.eq(ALL, &format!("capability {:#04x} moved from {p:#x} to {q:#x}", d[0]), &s, &Some(want.clone()));
                if let Some(m) = moved {
                    ck.eq(ALL, "reported position", &pos(&m), &Some(q));
                }
            }
        }
        // same place, other bytes around it
        let mut ddr = im.ddr.clone();
        noise(&mut rng, &mut ddr[..p - 0x40]);
        let end = (p - 0x40 + ext).min(ddr.len());
        noise(&mut rng, &mut ddr[end..]);
        let mut hdr = im.hdr.clone();
        gen::set_cap_ptr(&mut hdr, *p as u8);
        if let Some(h2) = header_of(&Image { hdr, ..Image::default() }) {
            let s = Capabilities::new(&ddr, &h2).next().as_ref().map(walk::item);
            ck.label("conv surroundings changed");
            ck.eq(ALL, &format!("capability {:#04x} at {p:#x} with other surroundings", d[0]), &s, &Some(want));
        }
    }
    let exp = ext_list(&im.ecs);
    let got: Vec<_> = ExtendedCapabilities::new(&im.ecs).take(EXT_MAX + 1).collect();
    for (e, g) in exp.iter().zip(&got).take(24) {
        let El::Cap(p) = e else { continue };
        if matches!(g, Ok(c) if c.offset as usize != *p) {
            break;
        }
        let d = &im.ecs[p - 0x100..];
        let id = crate::model::r16(d, 0) as u16;
        let ver = d[2] & 0xf;
        let ext = walk::eextent(d);
        let want = walk::eitem(g);
        let first = |q: usize, ecs: &mut Vec<u8>, rng: &mut Rng| {
            // a list that reaches q: directly, or over one element of another kind
            if q > 0x100 {
                let fid = if rng.one_in(2) { 0 } else { rng.below(0x40) as u32 };
                ecs[..4].copy_from_slice(&(fid | 1 << 16 | (q as u32) << 20).to_le_bytes());
            }
        };
        let q = 0x100
            + 4 * match rng.below(3) {
                0 => 0,
                1 => rng.below(64),
                _ => rng.below(960),
            };
        let room = 4096 - q;
        if room >= d.len() || (room >= ext && d.len() >= ext && !ereports_supply(id)) {
            let n = room.min(d.len());
            let mut ecs = vec![0u8; q - 0x100];
            noise(&mut rng, &mut ecs);
            ecs.extend(&d[..n]);
            let nx = if rng.one_in(2) { 0 } else { rng.u32() & 0xfff };
            let o = q - 0x100;
            // an all-zero header would be the end of the list
            if id != 0 || ver != 0 {
                ecs[o + 2] = ver | (nx << 4) as u8;
                ecs[o + 3] = (nx >> 4) as u8;
            }
            first(q, &mut ecs, &mut rng);
            let k = if q == 0x100 { 0 } else { 1 };
            let moved = ExtendedCapabilities::new(&ecs).nth(k);
            let s = moved.as_ref().map(walk::eitem);
            ck.nontrivial |= q != *p;
            ck.label("ext moved");
            ck.eq(ALL, &format!("extended capability {id:#06x} moved from {p:#x} to {q:#x}"), &s, &Some(want.clone()));
            if let Some(m) = moved {
                ck.eq(ALL, "reported offset", &epos(&m), &Some(q));
            }
        }
        let mut ecs = im.ecs.clone();
        noise(&mut rng, &mut ecs[..p - 0x100]);
        let end = (p - 0x100 + ext).min(ecs.len());
        noise(&mut rng, &mut ecs[end..]);
        first(*p, &mut ecs, &mut rng);
        let k = if *p == 0x100 { 0 } else { 1 };
        let s = ExtendedCapabilities::new(&ecs).nth(k).as_ref().map(walk::eitem);
        ck.label("ext surroundings changed");
        ck.eq(ALL, &format!("extended capability {id:#06x} at {p:#x} with other surroundings"), &s, &Some(want));
    }
}
/// kinds whose report mentions how many bytes were supplied behind them
fn reports_supply(_: u8) -> bool {
    false
}
fn ereports_supply(id: u16) -> bool {
    matches!(id, 0x05 | 0x23 | 0x08)
}
fn with_ops(mut im: Image, rng: &mut Rng) -> Image {
    im.ops = (0..8).map(|_| rng.u8()).collect();
    im
}
fn gen_meta(i: u64, rng: &mut Rng, ctx: &gen::Ctx) -> Image {
    let im = match i % 8 {
        0 => gen::whole(i / 8, rng, ctx),
        1 => gen::chain_conv(i / 8, rng, ctx),
        2 => gen::chain_ext(i / 8, rng, ctx),
        _ => gen::focus(i, rng, ctx),
    };
    with_ops(im, rng)
}

// ---------------------------------------------------------------- P17 truncation
fn p17(im: &Image, ck: &mut Ck) {
    let Some(h) = header_of(im) else { return };
    let mut rng = mix(&im.ops);
    let bridge = im.hdr[0x0e] & 0x7f == 1;
    let exp = conv_list(h.capabilities_pointer, &im.ddr);
    if !im.ddr.is_empty() {
        let p = exp.iter().filter_map(|e| if let El::Cap(p) = e { Some(*p) } else { None }).collect::<Vec<_>>();
        let cut = if !p.is_empty() && !rng.one_in(3) {
            let p = *rng.pick(&p) - 0x40;
            let e = walk::extent(&im.ddr[p..], bridge);
            p + rng.below(e + 3)
        } else {
            rng.below(im.ddr.len() + 1)
        }
        .min(im.ddr.len());
        let short = Image { hdr: im.hdr.clone(), ddr: im.ddr[..cut].to_vec(), ..Image::default() };
        ck.label("conv cut");
        conv(&short, ck);
        let a: Vec<String> = Capabilities::new(&im.ddr, &h).take(CONV_MAX + 1).map(|r| walk::full(&r)).collect();
        let b: Vec<String> = Capabilities::new(&short.ddr, &h).take(CONV_MAX + 1).map(|r| walk::full(&r)).collect();
        for (k, e) in exp.iter().enumerate() {
            let El::Cap(p) = e else { break };
            if p - 0x40 + 2 > cut {
                break;
            }
            if p - 0x40 + walk::extent(&im.ddr[p - 0x40..], bridge) <= cut {
                ck.nontrivial = true;
                ck.eq(ALL, &format!("capability at {p:#x}, region cut at {:#x}", cut + 0x40), &b.get(k), &a.get(k));
            }
        }
    }
    if !im.ecs.is_empty() {
        let exp = ext_list(&im.ecs);
        let p = exp.iter().filter_map(|e| if let El::Cap(p) = e { Some(*p) } else { None }).collect::<Vec<_>>();
        let cut = if !p.is_empty() && !rng.one_in(3) {
            let p = *rng.pick(&p) - 0x100;
            let e = walk::eextent(&im.ecs[p..]);
            p + rng.below(e + 5)
        } else {
            rng.below(im.ecs.len() + 1)
        }
        .min(im.ecs.len());
        let short = Image { hdr: im.hdr.clone(), ecs: im.ecs[..cut].to_vec(), ..Image::default() };
        ck.label("ext cut");
        ext(&short, ck);
        let a: Vec<String> = ExtendedCapabilities::new(&im.ecs).take(EXT_MAX + 1).map(|r| walk::efull(&r)).collect();
        let b: Vec<String> = ExtendedCapabilities::new(&short.ecs).take(EXT_MAX + 1).map(|r| walk::efull(&r)).collect();
        for (k, e) in exp.iter().enumerate() {
            let El::Cap(p) = e else { break };
            if p - 0x100 + 4 > cut {
                break;
            }
            let d = &im.ecs[p - 0x100..];
            if p - 0x100 + walk::eextent(d) <= cut && !(a[k..].first().is_some_and(|s| s.starts_with("error")) && ereports_supply(crate::model::r16(d, 0) as u16)) {
                ck.nontrivial = true;
                ck.eq(ALL, &format!("capability at {p:#x}, region cut at {:#x}", cut + 0x100), &b.get(k), &a.get(k));
            }
        }
    }
    // a header is 64 bytes or an error
    let n = rng.below(70);
    let mut b = im.hdr.clone();
    b.resize(n, 0x5a);
    let r = Header::try_from(&b[..]);
    ck.eq(ALL, "header from too few bytes is an error", &r.is_err(), &(n < 64));
}

// ---------------------------------------------------------------- P28 histories
/// Drives an iterator by a script and compares with the list it has when run once.
fn drive<I, T, F>(ck: &mut Ck, what: &str, fresh: &dyn Fn() -> I, show: F, ops: &[u8])
where
    I: Iterator<Item = T> + Clone,
    F: Fn(&T) -> String,
{
    let all: Vec<String> = fresh().take(walk::LIST_MAX).map(|x| show(&x)).collect();
    if ck.fail.is_some() {
        return;
    }
    ck.label("list driven");
    // repeated runs and internal iteration give the same list
    let mut folded = Vec::new();
    // adaptors hide an iterator's own count, last, fold: call those directly when the list ends
    let ends = all.len() < walk::LIST_MAX;
    if ends {
        fresh().for_each(|x| folded.push(show(&x)));
    } else {
        fresh().take(walk::LIST_MAX).for_each(|x| folded.push(show(&x)));
    }
    ck.eq(ALL, &format!("{what}: repeated enumeration"), &folded, &all);
    let mut cur: Vec<(I, usize)> = vec![(fresh(), 0)];
    for op in ops {
        if ck.fail.is_some() {
            return;
        }
        let k = *op as usize / 16;
        let i = k % cur.len();
        let (it, at) = &mut cur[i];
        let left = all.len().saturating_sub(*at);
        match op % 16 {
            0..=4 => {
                let g = it.next().map(|x| show(&x));
                ck.eq(ALL, &format!("{what}: element {at}"), &g.as_ref(), &all.get(*at));
                *at = (*at + 1).min(all.len());
            }
            5 | 6 => {
                let far = if ends { usize::MAX >> (k & 1) } else { 7 };
                let n = [0, 1, 2, 3, 4, 0, 1, 2, left, left.saturating_sub(1), left + 1, left / 2, 9, 30, 260, far][k];
                let g = it.nth(n).map(|x| show(&x));
                ck.eq(ALL, &format!("{what}: skip {n} at {at}"), &g.as_ref(), &at.checked_add(n).and_then(|i| all.get(i)));
                *at = at.saturating_add(n).saturating_add(1).min(all.len());
            }
            7 | 8 => {
                if cur.len() < 6 {
                    let c = (cur[i].0.clone(), cur[i].1);
                    cur.push(c);
                }
            }
            9 => ck.eq(ALL, &format!("{what}: count at {at}"), &if ends { it.clone().count() } else { it.clone().take(walk::LIST_MAX).count() }, &left),
            10 => {
                let (lo, hi) = it.size_hint();
                ck.ok(ALL, lo <= left && hi.map_or(true, |h| h >= left), || format!("{what}: size_hint ({lo}, {hi:?}) but {left} elements left"));
            }
            11 => {
                let c = it.clone();
                let g = if ends { c.last() } else { c.take(walk::LIST_MAX).last() }.map(|x| show(&x));
                ck.eq(ALL, &format!("{what}: last at {at}"), &g.as_ref(), &all.last().filter(|_| left > 0));
            }
            12 => {
                let c = it.clone();
                let rest: Vec<String> = match k % 3 {
                    _ if !ends => c.take(walk::LIST_MAX).map(|x| show(&x)).collect(),
                    0 => c.collect::<Vec<T>>().iter().map(&show).collect(),
                    1 => c.fold(Vec::new(), |mut v, x| {
                        v.push(show(&x));
                        v
                    }),
                    _ => {
                        let mut v = Vec::new();
                        for x in c {
                            v.push(show(&x));
                        }
                        v
                    }
                };
                ck.eq(ALL, &format!("{what}: rest at {at}"), &rest[..], &all[all.len() - left..]);
            }
            13 => {
                // drain by reference, then the end must stay the end
                let n = it.by_ref().take(walk::LIST_MAX).count();
                ck.eq(ALL, &format!("{what}: drained at {at}"), &n, &left);
                *at = all.len();
            }
            14 => {
                let g: Vec<String> = it.clone().skip(k % 3).step_by(2).take(walk::LIST_MAX).map(|x| show(&x)).collect();
                let e: Vec<String> = all[all.len() - left..].iter().skip(k % 3).step_by(2).cloned().collect();
                ck.eq(ALL, &format!("{what}: every second at {at}"), &g, &e);
            }
            _ => {
                let c = (fresh(), 0);
                cur[i] = c;
            }
        }
    }
    if all.len() > 1 {
        ck.nontrivial = true;
    }
}
/// Gives an iterator that is not `Clone` a copy operation: replay to the same point.
struct Re<'f, I> {
    fresh: &'f dyn Fn() -> I,
    it: I,
    at: usize,
}
impl<'f, I: Iterator> Iterator for Re<'f, I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.at += 1;
        self.it.next()
    }
    fn nth(&mut self, n: usize) -> Option<I::Item> {
        self.at = self.at.saturating_add(n).saturating_add(1).min(100);
        self.it.nth(n)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.it.size_hint()
    }
    fn count(self) -> usize {
        self.it.count()
    }
    fn last(self) -> Option<I::Item> {
        self.it.last()
    }
    fn fold<B, F: FnMut(B, I::Item) -> B>(self, b: B, f: F) -> B {
        self.it.fold(b, f)
    }
}
impl<'f, I: Iterator> Clone for Re<'f, I> {
    fn clone(&self) -> Self {
        let mut it = (self.fresh)();
        for _ in 0..self.at {
            it.next();
        }
        Re { fresh: self.fresh, it, at: self.at }
    }
}
fn dbg<T: Debug>(x: &T) -> String {
    format!("{x:?}")
}
fn p28(im: &Image, ck: &mut Ck) {
    let Some(h) = header_of(im) else { return };
    let ops = &im.ops[..];
    drive(ck, "capabilities", &|| Capabilities::new(&im.ddr, &h), walk::full, ops);
    drive(ck, "extended capabilities", &|| ExtendedCapabilities::new(&im.ecs), walk::efull, ops);
    // equal bytes elsewhere in memory give equal items
    // (at another alignment)
    let k = 1 + ops.first().map_or(0, |o| *o as usize % 7);
    let shifted = |v: &[u8]| [&vec![0xa5; k][..], v, &[0xa5; 3]].concat();
    let (ddr2, ecs2, h2) = (shifted(&im.ddr), shifted(&im.ecs), h.clone());
    let (ddr2, ecs2) = (&ddr2[k..k + im.ddr.len()], &ecs2[k..k + im.ecs.len()]);
    let a: Vec<_> = Capabilities::new(&im.ddr, &h).take(200).collect();
    let b: Vec<_> = Capabilities::new(ddr2, &h2).take(200).collect();
    ck.ok(ALL, a == b, || "equal bytes give unequal capabilities".into());
    let a: Vec<_> = ExtendedCapabilities::new(&im.ecs).take(2000).collect();
    let b: Vec<_> = ExtendedCapabilities::new(ecs2).take(2000).collect();
    ck.ok(ALL, a == b, || "equal bytes give unequal extended capabilities".into());
    // lists inside the header
    match &h.header_type {
        HeaderType::Normal(n) => drive(ck, "BARs", &|| n.base_addresses.clone(), dbg, ops),
        HeaderType::Bridge(n) => drive(ck, "BARs", &|| n.base_addresses.clone(), dbg, ops),
        HeaderType::Cardbus(n) => drive(ck, "BARs", &|| n.base_addresses.clone(), dbg, ops),
        _ => (),
    }
    // lists inside capabilities
    use pcics::capabilities::CapabilityKind as K;
    for c in Capabilities::new(&im.ddr, &h).take(CONV_MAX).flatten() {
        if let K::EnhancedAllocation(x) = &c.kind {
            drive(ck, "EA entries", &|| x.entries.clone(), dbg, ops);
        }
    }
    use pcics::extended_capabilities::ExtendedCapabilityKind as E;
    for c in ExtendedCapabilities::new(&im.ecs).take(64).flatten() {
        match &c.kind {
            E::VirtualChannel(x) | E::VirtualChannelMfvcPresent(x) => {
                drive(ck, "VC resources", &|| x.extended_virtual_channels(), dbg, ops);
                drive(ck, "VC arbitration table", &|| x.vc_arbitration_table(), dbg, ops);
                for e in x.extended_virtual_channels().take(16).flatten() {
                    drive(ck, "port arbitration table", &|| x.port_arbitration_table(&e), dbg, ops);
                }
            }
            E::MultifunctionVirtualChannel(x) => {
                drive(ck, "MFVC resources", &|| x.extended_virtual_channels.clone(), |e| format!("{:?} {:?} {:?}", e.vc_resource_capability, e.vc_resource_control, e.vc_resource_status), ops);
                if let Some(t) = &x.vc_arbitration_table {
                    drive(ck, "MFVC arbitration table", &|| t.clone(), dbg, ops);
                }
                for e in x.extended_virtual_channels.clone().take(16) {
                    if let Some(t) = &e.function_arbitration_table {
                        drive(ck, "function arbitration table", &|| t.clone(), dbg, ops);
                    }
                }
            }
            E::RootComplexLinkDeclaration(x) => drive(ck, "link entries", &|| x.link_entries.clone(), dbg, ops),
            E::SecondaryPciExpress(x) => {
                for w in walk::WIDTHS {
                    let fresh = || x.equalization_control_lanes(w.clone());
                    drive(ck, "lanes", &|| Re { fresh: &fresh, it: fresh(), at: 0 }, dbg, ops)
                }
            }
            E::ProtocolMultiplexing(x) => drive(ck, "PMUX protocols", &|| x.pmux_protocol_array.clone(), dbg, ops),
            E::AccessControlServices(x) => drive(ck, "egress vector", &|| x.egress_control_vectors(), dbg, ops),
            E::ResizableBar(x) => drive(ck, "resizable BARs", &|| x.clone(), dbg, ops),
            E::VfResizableBar(x) => drive(ck, "VF resizable BARs", &|| x.clone(), dbg, ops),
            E::SingleRootIoVirtualization(x) => drive(ck, "VF BARs", &|| x.base_addresses.clone(), dbg, ops),
            _ => (),
        }
    }
}

// ---------------------------------------------------------------- P30 structures on their own
fn header_alone(im: &Image, h: &Header, ck: &mut Ck, rng: &mut Rng) {
    // the header from any slice that holds it
    let mut v = im.hdr[..64].to_vec();
    let n = *rng.pick(&[0, 1, 3, 64, 192, 4032]);
    v.resize(64 + n, rng.u8());
    match Header::try_from(&v[..]) {
        Ok(g) => ck.ok(ALL, g == *h && header_text(&g) == header_text(h), || format!("header from a slice of {} bytes: {} / {}", 64 + n, header_text(&g), header_text(h))),
        Err(e) => ck.ok(ALL, false, || format!("no header from a slice of {} bytes: {e}", 64 + n)),
    }
}
fn p30(im: &Image, ck: &mut Ck) {
    let Some(h) = header_of(im) else { return };
    let mut rng = mix(&im.ops);
    let bridge = im.hdr[0x0e] & 0x7f == 1;
    header_alone(im, &h, ck, &mut rng);
    let exp = conv_list(h.capabilities_pointer, &im.ddr);
    let got: Vec<_> = Capabilities::new(&im.ddr, &h).take(CONV_MAX + 1).collect();
    for (e, g) in exp.iter().zip(&got) {
        let El::Cap(p) = e else { continue };
        if matches!(g, Ok(c) if c.pointer as usize != *p) {
            break;
        }
        let d = &im.ddr[p - 0x40..];
        alone::check_conv(ck, d, *p, walk::extent(d, bridge), &h, g, &mut rng);
        // the same with the region cut inside the structure
        if rng.one_in(2) {
            let cut = (p - 0x40 + 2 + rng.below(walk::extent(d, bridge))).min(im.ddr.len());
            let mut hdr = im.hdr.clone();
            gen::set_cap_ptr(&mut hdr, *p as u8);
            if let Some(h2) = header_of(&Image { hdr, ..Image::default() }) {
                if let Some(g) = Capabilities::new(&im.ddr[..cut], &h2).next() {
                    alone::check_conv(ck, &im.ddr[p - 0x40..cut], *p, usize::MAX, &h2, &g, &mut rng);
                }
            }
        }
    }
    let exp = ext_list(&im.ecs);
    let got: Vec<_> = ExtendedCapabilities::new(&im.ecs).take(EXT_MAX + 1).collect();
    for (e, g) in exp.iter().zip(&got).take(24) {
        let El::Cap(p) = e else { continue };
        if matches!(g, Ok(c) if c.offset as usize != *p) {
            break;
        }
        let d = &im.ecs[p - 0x100..];
        alone::check_ext(ck, d, *p, walk::eextent(d), g, &mut rng);
        if rng.one_in(2) {
            let cut = (p - 0x100 + 4 + rng.below(walk::eextent(d))).min(im.ecs.len());
            let mut ecs = im.ecs[..cut].to_vec();
            if *p > 0x100 {
                ecs[..4].copy_from_slice(&(0x0001_0000 | (*p as u32) << 20).to_le_bytes());
            }
            if let Some(g) = ExtendedCapabilities::new(&ecs).nth((*p > 0x100) as usize) {
                alone::check_ext(ck, &ecs[p - 0x100..], *p, usize::MAX, &g, &mut rng);
            }
        }
    }
}

// ---------------------------------------------------------------- P29 equality
/// Two list iterators at chosen stages: equal after equal steps on equal bytes, and equal
/// only if what is still to come is the same.
fn stages<I, T, F>(ck: &mut Ck, what: &str, a: I, a2: I, b: Option<I>, show: F, rng: &mut Rng)
where
    I: Iterator<Item = T> + Clone + PartialEq,
    T: PartialEq,
    F: Fn(&T) -> String,
{
    if let Some(b) = &b {
        // items at the same place, whatever the lists compare to
        for (x, y) in a.clone().zip(b.clone()).take(20) {
            if ck.fail.is_none() && x == y {
                ck.eq(ALL, &format!("{what}: equal items"), &show(&x), &show(&y));
            }
        }
    }
    let left = |i: &I| i.clone().take(walk::LIST_MAX).map(|x| show(&x)).collect::<Vec<_>>();
    let at = |i: &I, n: usize| {
        let mut i = i.clone();
        for _ in 0..n {
            if i.next().is_none() {
                break;
            }
        }
        i
    };
    let n = a.clone().take(300).count() + 1;
    for _ in 0..2 {
        let j = rng.below(n);
        let k = j + *rng.pick(&[0, 0, 0, 1, 2]);
        let x = at(&a, j);
        ck.ok(ALL, x == x.clone(), || format!("{what}: after {j} steps unequal to its clone"));
        ck.ok(ALL, x == at(&a2, j), || format!("{what}: equal bytes, unequal after {j} steps"));
        for y in [Some(at(&a, k)), b.as_ref().map(|b| at(b, j)), b.as_ref().map(|b| at(b, k))].into_iter().flatten() {
            ck.ok(ALL, (x == y) == (y == x) && (x != y) != (x == y), || format!("{what}: comparison is not symmetric or contradicts inequality"));
            if ck.fail.is_none() && x == y {
                ck.label("equal iterators");
                ck.eq(ALL, &format!("{what}: equal iterators, items to come"), &left(&x), &left(&y));
            } else {
                ck.label("unequal iterators");
            }
        }
    }
}
fn header_text(h: &Header) -> String {
    use pcics::header::BaseAddresses;
    let mut h = h.clone();
    let bars = match &mut h.header_type {
        HeaderType::Normal(n) => walk::list(std::mem::replace(&mut n.base_addresses, BaseAddresses::new([0; 6]))),
        HeaderType::Bridge(n) => walk::list(std::mem::replace(&mut n.base_addresses, BaseAddresses::new([0; 2]))),
        HeaderType::Cardbus(n) => walk::list(std::mem::replace(&mut n.base_addresses, BaseAddresses::new([0; 1]))),
        _ => String::new(),
    };
    format!("{h:?} {bars}")
}
/// Parts of a capability that are compared on their own, because the capability itself also
/// compares the bytes behind it.
fn parts(ck: &mut Ck, a: &ExtendedCapability, b: &ExtendedCapability) {
    use pcics::extended_capabilities::ExtendedCapabilityKind as E;
    macro_rules! same {
        ($x:expr, $y:expr, $($f:ident).+) => {
            if ck.fail.is_none() && $x.$($f).+ == $y.$($f).+ {
                ck.eq(ALL, concat!("equal parts: ", stringify!($($f).+)), &dbg(&$x.$($f).+), &dbg(&$y.$($f).+));
            }
        };
    }
    match (&a.kind, &b.kind) {
        (E::VirtualChannel(x) | E::VirtualChannelMfvcPresent(x), E::VirtualChannel(y) | E::VirtualChannelMfvcPresent(y)) => {
            same!(x, y, port_vc_capability_1);
            same!(x, y, port_vc_capability_2);
            same!(x, y, port_vc_control);
            same!(x, y, port_vc_status);
            for (e, f) in x.extended_virtual_channels().zip(y.extended_virtual_channels()).take(9) {
                if ck.fail.is_none() && e == f {
                    ck.eq(ALL, "equal VC resources", &dbg(&e), &dbg(&f));
                }
                if let (Ok(e), Ok(f)) = (e, f) {
                    same!(e, f, vc_resource_capability);
                    same!(e, f, vc_resource_control);
                    same!(e, f, vc_resource_status);
                }
            }
        }
        (E::MultifunctionVirtualChannel(x), E::MultifunctionVirtualChannel(y)) => {
            same!(x, y, port_vc_capability_1);
            same!(x, y, port_vc_capability_2);
            same!(x, y, port_vc_control);
            same!(x, y, port_vc_status);
            for (e, f) in x.extended_virtual_channels.clone().zip(y.extended_virtual_channels.clone()).take(9) {
                same!(e, f, vc_resource_capability);
                same!(e, f, vc_resource_control);
                same!(e, f, vc_resource_status);
            }
        }
        (E::SecondaryPciExpress(x), E::SecondaryPciExpress(y)) => {
            use pcics::capabilities::pci_express::LinkWidth;
            same!(x, y, link_control_3);
            same!(x, y, lane_error_status);
            for (e, f) in x.equalization_control_lanes(LinkWidth::X32).zip(y.equalization_control_lanes(LinkWidth::X32)) {
                if ck.fail.is_none() && e == f {
                    ck.eq(ALL, "equal lane controls", &dbg(&e), &dbg(&f));
                }
            }
        }
        (E::TphRequester(x), E::TphRequester(y)) => {
            same!(x, y, tph_requester_capability);
            same!(x, y, tph_requester_control);
        }
        (E::AccessControlServices(x), E::AccessControlServices(y)) => {
            same!(x, y, acs_capability);
            same!(x, y, acs_control);
        }
        _ => (),
    }
}
fn conv_parts(ck: &mut Ck, a: &Capability, b: &Capability) {
    use pcics::capabilities::CapabilityKind as K;
    match (&a.kind, &b.kind) {
        (K::EnhancedAllocation(x), K::EnhancedAllocation(y)) => {
            for (e, f) in x.entries.clone().zip(y.entries.clone()) {
                if ck.fail.is_none() && e == f {
                    ck.eq(ALL, "equal allocation entries", &dbg(&e), &dbg(&f));
                }
            }
            // lists behind which the other has the same bytes
            let mut k = x.entries.clone();
            for _ in 0..3 {
                if ck.fail.is_none() && k == y.entries {
                    ck.eq(ALL, "equal allocation lists", &walk::list(k.clone()), &walk::list(y.entries.clone()));
                }
                k.next();
            }
        }
        (K::PowerManagementInterface(x), K::PowerManagementInterface(y)) => {
            let (x, y) = (x.data(), y.data());
            if ck.fail.is_none() && x == y {
                ck.eq(ALL, "equal power data", &dbg(&x), &dbg(&y));
            }
        }
        _ => (),
    }
}
/// Many images that differ in a single bit from this one, inside the header or one capability.
fn neighbours(im: &Image, ck: &mut Ck, rng: &mut Rng) {
    let Some(h) = header_of(im) else { return };
    if rng.one_in(4) {
        let text = header_text(&h);
        let mut b = im.clone();
        for _ in 0..40 {
            let (at, bit) = (rng.below(64), 1 << rng.below(8));
            b.hdr[at] ^= bit;
            if let Some(g) = header_of(&b) {
                if ck.fail.is_none() && h == g {
                    ck.eq(ALL, "equal headers", &text, &header_text(&g));
                }
            }
            b.hdr[at] ^= bit;
        }
    }
    macro_rules! lists {
        ($buf:ident, $it:expr, $base:expr, $max:expr, $full:path, $pos:ident, $parts:expr) => {
            if !im.$buf.is_empty() {
                let mut b = im.$buf.clone();
                let a: Vec<_> = $it(&im.$buf[..]).take($max).collect();
                for _ in 0..2.min(a.len()) {
                    let n = rng.below(a.len());
                    let Ok(c) = &a[n] else { continue };
                    let o = (c.$pos as usize).saturating_sub($base);
                    let span = (*rng.pick(&[0x10usize, 0x20, 0x40, 0x80])).min(b.len().saturating_sub(o + 2));
                    if span == 0 {
                        continue;
                    }
                    for _ in 0..12 {
                        let (at, bit) = (o + 2 + rng.below(span), 1u8 << rng.below(8));
                        b[at] ^= bit;
                        if let Some(y) = $it(&b[..]).nth(n) {
                            if ck.fail.is_none() && a[n] == y {
                                ck.eq(ALL, "equal capabilities", &$full(&a[n]), &$full(&y));
                            }
                            if let Ok(y) = &y {
                                $parts(ck, c, y);
                            }
                        }
                        b[at] ^= bit;
                    }
                }
            }
        };
    }
    lists!(ddr, (|d| Capabilities::new(d, &h)), 0x40, CONV_MAX, walk::full, pointer, conv_parts);
    lists!(ecs, ExtendedCapabilities::new, 0x100, 64, walk::efull, offset, parts);
}
fn nested(ck: &mut Ck, a: &ExtendedCapability, a2: &ExtendedCapability, b: Option<&ExtendedCapability>, rng: &mut Rng) {
    use pcics::extended_capabilities::ExtendedCapabilityKind as E;
    // the same list of the copy and, when it is of the same kind, of the edited image
    macro_rules! lists {
        ($name:expr, $pat:ident, $v:ident => $get:expr) => {
            lists!($name, $pat, $v => $get, dbg)
        };
        ($name:expr, $pat:ident, $v:ident => $get:expr, $show:expr) => {
            if let (E::$pat(x), E::$pat(y)) = (&a.kind, &a2.kind) {
                let z = match b.map(|b| &b.kind) {
                    Some(E::$pat($v)) => $get,
                    _ => Vec::new(),
                };
                let p = {
                    let $v = x;
                    $get
                };
                let q = {
                    let $v = y;
                    $get
                };
                for (i, (p, q)) in p.into_iter().zip(q).enumerate() {
                    stages(ck, $name, p, q, z.get(i).cloned(), $show, rng);
                }
            }
        };
    }
    // the resources a port table is asked for outlive the tables
    let evcs: Vec<Vec<_>> = [Some(a), Some(a2), b]
        .iter()
        .map(|c| match c.map(|c| &c.kind) {
            Some(E::VirtualChannel(x) | E::VirtualChannelMfvcPresent(x)) => x.extended_virtual_channels().take(16).flatten().collect(),
            _ => Vec::new(),
        })
        .collect();
    if let (E::VirtualChannel(x) | E::VirtualChannelMfvcPresent(x), E::VirtualChannel(y) | E::VirtualChannelMfvcPresent(y)) = (&a.kind, &a2.kind) {
        for (i, (e, f)) in evcs[0].iter().zip(&evcs[1]).enumerate() {
            let z = match b.map(|b| &b.kind) {
                Some(E::VirtualChannel(z) | E::VirtualChannelMfvcPresent(z)) => evcs[2].get(i).map(|e| z.port_arbitration_table(e)),
                _ => None,
            };
            stages(ck, "port arbitration table", x.port_arbitration_table(e), y.port_arbitration_table(f), z, dbg, rng);
        }
    }
    lists!("VC arbitration table", VirtualChannel, x => vec![x.vc_arbitration_table()]);
    lists!("MFVC arbitration table", MultifunctionVirtualChannel, x => x.vc_arbitration_table.iter().cloned().collect::<Vec<_>>());
    lists!("function arbitration table", MultifunctionVirtualChannel, x => {
        x.extended_virtual_channels.clone().take(16).filter_map(|e| e.function_arbitration_table).collect::<Vec<_>>()
    });
    lists!("VC resources", VirtualChannel, x => vec![x.extended_virtual_channels()]);
    lists!("MFVC resources", MultifunctionVirtualChannel, x => vec![x.extended_virtual_channels.clone()], |e| {
        format!("{:?} {:?} {:?} {:?}", e.vc_resource_capability, e.vc_resource_control, e.vc_resource_status, e.function_arbitration_table.clone().map(walk::list))
    });
    lists!("link entries", RootComplexLinkDeclaration, x => vec![x.link_entries.clone()]);
    lists!("PMUX protocols", ProtocolMultiplexing, x => vec![x.pmux_protocol_array.clone()]);
    lists!("egress vector", AccessControlServices, x => vec![x.egress_control_vectors()]);
    lists!("resizable BARs", ResizableBar, x => vec![x.clone()]);
    lists!("VF resizable BARs", VfResizableBar, x => vec![x.clone()]);
    lists!("VF BARs", SingleRootIoVirtualization, x => vec![x.base_addresses.clone()]);
}
/// The list types built directly from a few bytes with few distinct values, where lists that
/// differ in one part of their state are common.
fn small_lists(ck: &mut Ck, rng: &mut Rng) {
    use pcics::extended_capabilities::{access_control_services as acs, multifunction_virtual_channel as mfvc, protocol_multiplexing as pmux, root_complex_link_declaration as rcld, virtual_channel as vc};
    let alpha: [u8; 4] = [0, rng.u8(), 0xff, *rng.pick(&[1, 2, 0x10, 0x11, 0x80])];
    let n = rng.below(5) * *rng.pick(&[1, 4]);
    let x: Vec<u8> = (0..n).map(|_| *rng.pick(&alpha)).collect();
    let mut y = x.clone();
    match rng.below(4) {
        0 if !y.is_empty() => {
            let i = rng.below(y.len());
            y[i] = *rng.pick(&alpha);
        }
        1 => y.push(*rng.pick(&alpha)),
        2 => {
            y.pop();
        }
        _ => (),
    }
    let x2 = x.clone();
    let bits = [1usize, 2, 4, 8];
    let (p, q) = (*rng.pick(&bits), *rng.pick(&bits));
    let t = |d, b| vc::PortArbitrationTable::new(d, b);
    stages(ck, "port arbitration table", t(&x, p), t(&x2, p), Some(t(&y, q)), dbg, rng);
    let t = |d, b| mfvc::FunctionArbitrationTable::new(d, b);
    stages(ck, "function arbitration table", t(&x, p), t(&x2, p), Some(t(&y, q)), dbg, rng);
    stages(ck, "VC arbitration table", vc::VcArbitrationTable::new(&x), vc::VcArbitrationTable::new(&x2), Some(vc::VcArbitrationTable::new(&y)), dbg, rng);
    let (p, q) = (rng.below(70), rng.below(70));
    let q = if rng.one_in(2) { p } else { q };
    let t = |d, b| acs::EgressControlVectors::new(d, b);
    stages(ck, "egress vector", t(&x, p), t(&x2, p), Some(t(&y, q)), dbg, rng);
    let t = |d| pmux::PmuxProtocolArray::new(d);
    stages(ck, "PMUX protocols", t(&x), t(&x2), Some(t(&y)), dbg, rng);
    let (v, w) = (rng.u64(), 1u64 << rng.below(64));
    let w = if rng.one_in(2) { v ^ w } else { v.rotate_left(32) };
    {
        use pcics::extended_capabilities::ExtendedCapabilityHeader as H;
        let (e, f) = (H::from(v as u32), H::from(w as u32));
        if e == f {
            ck.eq(ALL, "equal extended headers", &dbg(&e), &dbg(&f));
        }
        let (e, f) = (rcld::DeviceSerialNumber::try_from(&v.to_le_bytes()[..]), rcld::DeviceSerialNumber::try_from(&w.to_le_bytes()[..]));
        if e == f {
            ck.eq(ALL, "equal serial numbers", &dbg(&e), &dbg(&f));
        }
        // allocation lists over the same or shifted bytes
        let d: Vec<u8> = (0..40).map(|i| if i % 4 == 0 && i % 12 != 0 { 0 } else { *rng.pick(&alpha) }).collect();
        let mut d2 = d.clone();
        d2[rng.below(40)] ^= 1 << rng.below(8);
        let (p, q) = (rng.below(4) as u8, rng.below(4) as u8);
        let q = if rng.one_in(2) { p } else { q };
        use pcics::capabilities::enhanced_allocation::EnhancedAllocationEntries as L;
        stages(ck, "allocation entries", L::new(&d, p), L::new(&d.clone(), p), Some(L::new(if rng.one_in(2) { &d } else { &d2 }, q)), dbg, rng);
        use vc::ExtendedVirtualChannels as V;
        stages(ck, "VC resources", V::new(&d, p), V::new(&d.clone(), p), Some(V::new(if rng.one_in(2) { &d } else { &d2 }, q)), dbg, rng);
    }
    let long = |v: &[u8], cut: usize| (0..32 + cut).map(|i| v.get(i % v.len().max(1)).copied().unwrap_or(0)).collect::<Vec<u8>>();
    let (c, d) = (rng.below(4), rng.below(4));
    let (x, x2, y) = (long(&x, c), long(&x2, c), long(if rng.one_in(3) { &y } else { &x }, d));
    let (p, q) = (rng.below(4) as u8, rng.below(4) as u8);
    let t = |d, b| rcld::LinkEntries::new(d, b);
    let (a, b) = (t(&x, p), t(&y, q));
    if a == b {
        ck.eq(ALL, "equal link entries: state", &a.state, &b.state);
    }
    stages(ck, "link entries", a, t(&x2, p), Some(b), dbg, rng);
}
fn p29(im: &Image, ck: &mut Ck) {
    let Some(h) = header_of(im) else { return };
    let mut rng = mix(&im.ops);
    let copy = im.clone();
    let Some(h2) = header_of(&copy) else { return };
    // the other image: the same bytes with a small edit
    let mut other = im.clone();
    for _ in 0..*rng.pick(&[1, 1, 1, 2, 3]) {
        let whole = rng.below(4);
        let buf = match rng.below(4) {
            0 => &mut other.hdr,
            1 => &mut other.ddr,
            _ => &mut other.ecs,
        };
        if buf.is_empty() {
            continue;
        }
        let at = match whole {
            0 => rng.below(buf.len().min(20)),
            1 => rng.below(buf.len().min(64)),
            _ => rng.below(buf.len()),
        };
        match rng.below(6) {
            0 => buf[at] = rng.u8(),
            1 if rng.one_in(4) && buf.len() > 64 => buf.truncate(at.max(1)),
            1 if rng.one_in(2) => buf.truncate((buf.len() - rng.below(buf.len().min(20))).max(1)),
            2 if at + 1 < buf.len() => buf.swap(at, at + 1),
            _ => buf[at] ^= 1 << rng.below(8),
        }
    }
    other.hdr.resize(64, 0);
    let Some(h3) = header_of(&other) else { return };
    ck.nontrivial = true;
    ck.ok(ALL, h == h2 && h == h.clone(), || "equal bytes give unequal headers".into());
    small_lists(ck, &mut rng);
    neighbours(im, ck, &mut rng);
    if h == h3 {
        ck.eq(ALL, "equal headers", &header_text(&h), &header_text(&h3));
    }
    macro_rules! bars {
        ($v:ident) => {
            if let (HeaderType::$v(x), HeaderType::$v(y)) = (&h.header_type, &h2.header_type) {
                let z = if let HeaderType::$v(z) = &h3.header_type { Some(z.base_addresses.clone()) } else { None };
                stages(ck, "BARs", x.base_addresses.clone(), y.base_addresses.clone(), z, dbg, &mut rng);
            }
        };
    }
    if let HeaderType::Cardbus(c) = &h.header_type {
        let mut x = [0u8; 64];
        x.fill_with(|| rng.u8());
        let mut y = x;
        y[rng.below(64)] ^= 1 << rng.below(8);
        let (mut a, mut b, mut e) = (c.clone(), c.clone(), c.clone());
        let _ = (a.try_set_optional_registers(&x), b.try_set_optional_registers(&y), e.try_set_optional_registers(&x));
        ck.ok(ALL, a == e, || "equal optional CardBus registers compare unequal".into());
        ck.ok(ALL, a != b || dbg(&a) == dbg(&b), || "different optional CardBus registers compare equal".into());
        ck.ok(ALL, a != *c || dbg(&a) == dbg(c), || "CardBus header equals one without optional registers".into());
    }
    bars!(Normal);
    bars!(Bridge);
    bars!(Cardbus);
    stages(ck, "capabilities", Capabilities::new(&im.ddr, &h), Capabilities::new(&copy.ddr, &h2), Some(Capabilities::new(&other.ddr, &h3)), walk::full, &mut rng);
    stages(ck, "extended capabilities", ExtendedCapabilities::new(&im.ecs), ExtendedCapabilities::new(&copy.ecs), Some(ExtendedCapabilities::new(&other.ecs)), walk::efull, &mut rng);
    let a: Vec<_> = Capabilities::new(&im.ddr, &h).take(CONV_MAX).collect();
    let a2: Vec<_> = Capabilities::new(&copy.ddr, &h2).take(CONV_MAX).collect();
    let b: Vec<_> = Capabilities::new(&other.ddr, &h3).take(CONV_MAX).collect();
    ck.ok(ALL, a == a2, || "equal bytes give unequal capabilities".into());
    for (i, x) in a.iter().enumerate() {
        for y in b.get(i).into_iter().chain(a.get(i + 1)).chain(a.first()) {
            ck.ok(ALL, (x == y) == (y == x) && (x != y) != (x == y), || "capabilities: comparison is not symmetric or contradicts inequality".into());
            if x == y {
                ck.label("equal capabilities");
                ck.eq(ALL, "equal capabilities", &walk::full(x), &walk::full(y));
            } else {
                ck.label("unequal capabilities");
            }
        }
    }
    let a: Vec<_> = ExtendedCapabilities::new(&im.ecs).take(64).collect();
    let a2: Vec<_> = ExtendedCapabilities::new(&copy.ecs).take(64).collect();
    let b: Vec<_> = ExtendedCapabilities::new(&other.ecs).take(64).collect();
    ck.ok(ALL, a == a2, || "equal bytes give unequal extended capabilities".into());
    for (i, x) in a.iter().enumerate() {
        for y in b.get(i).into_iter().chain(a.get(i + 1)).chain(a.first()) {
            ck.ok(ALL, (x == y) == (y == x) && (x != y) != (x == y), || "extended capabilities: comparison is not symmetric or contradicts inequality".into());
            if x == y {
                ck.label("equal extended capabilities");
                ck.eq(ALL, "equal extended capabilities", &walk::efull(x), &walk::efull(y));
            } else {
                ck.label("unequal extended capabilities");
            }
        }
        if let (Ok(x), Some(Ok(y))) = (x, a2.get(i)) {
            nested(ck, x, y, b.get(i).and_then(|r| r.as_ref().ok()), &mut rng);
        }
    }
}
fn gen_p29(i: u64, rng: &mut Rng, ctx: &gen::Ctx) -> Image {
    let mut im = match i % 8 {
        0 => gen::whole(i / 8, rng, ctx),
        1 => gen::headers(i / 8, rng, ctx),
        _ => gen::focus(i, rng, ctx),
    };
    // repeated contents make unequal positions look alike
    if rng.one_in(3) && im.ecs.len() > 32 {
        let (p, from) = (rng.range(1, 4), rng.range(0x10, 0x20));
        for k in from + p..im.ecs.len() {
            im.ecs[k] = im.ecs[k - p];
        }
    }
    with_ops(im, rng)
}

// ---------------------------------------------------------------- P25, P26, P27
fn p25(im: &Image, ck: &mut Ck) {
    hdr_all(im, ck);
    both(im, ck);
    ck.nontrivial = ck.cmps > 0;
}
fn p26(im: &Image, ck: &mut Ck) {
    both(im, ck);
    if let Some(h) = header_of(im) {
        mh::check_header(ck, &h, &im.hdr, mh::F_BARS | mh::F_WIN);
        ck.nontrivial |= im.hdr[0x10..0x3c].iter().any(|b| *b != 0);
    }
}
fn p27(im: &Image, ck: &mut Ck) {
    both(im, ck);
    ck.nontrivial = ck.labels.iter().any(|l| *l == "err" || *l == "header not available" || l.contains("below"));
}
fn gen_p27(i: u64, rng: &mut Rng, ctx: &gen::Ctx) -> Image {
    if i % 8 == 7 {
        return gen::whole(i / 8, rng, ctx);
    }
    let mut im = gen::focus(i, rng, ctx);
    // mostly cut: every supplied length of every kind
    if !rng.one_in(4) {
        if !im.ecs.is_empty() {
            let l = rng.range(im.ecs.len().saturating_sub(0x60), im.ecs.len());
            im.ecs.truncate(l);
        } else if !im.ddr.is_empty() {
            let l = rng.range(im.ddr.len().saturating_sub(0x40), im.ddr.len());
            im.ddr.truncate(l);
        }
    }
    im
}
fn gen_p25(i: u64, rng: &mut Rng, ctx: &gen::Ctx) -> Image {
    let mut im = gen::focus(i, rng, ctx);
    if i % 3 == 0 {
        return gen::headers(i / 3, rng, ctx);
    }
    if im.ddr.is_empty() && rng.one_in(2) {
        im.hdr = gen::gen_header(rng, ctx);
    }
    im
}

const NONE: Focus = Focus { ids: &[], eids: &[] };
const EVERY: Focus = Focus { ids: BODY_IDS, eids: BODY_EIDS };
const DECODE: u8 = CONTENT | DERIVED | SHAPE | KIND;
const RULE_CAP: &str = "a capability of the property's kinds is listed, has at least one non-zero body byte and was compared with the reference decoder (distinct images counted)";

macro_rules! cap_prop {
    ($id:expr, $ids:expr, $eids:expr, $q:expr, $t:expr) => {
        Prop {
            id: $id,
            focus: Focus { ids: $ids, eids: $eids },
            check: both,
            mask: DECODE,
            gen: gen::focus,
            cases: [$q, $t],
            rule: RULE_CAP,
            oracle: "independent reference decoder (absolute bit positions and value tables from the specifications), compared field by field",
        }
    };
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P01", focus: EVERY, check: p01, mask: ALL, gen: gen::whole, cases: [2_000_000, 60_000_000],
            rule: "more than 8 bytes of capability space were supplied and everything reachable was walked",
            oracle: "no panic (overflow and bounds checks on), nested lists end" },
        Prop { id: "P02", focus: EVERY, check: p02, mask: ALL, gen: gen_p02, cases: [12_000_000, 300_000_000],
            rule: "at least one list with two or more items",
            oracle: "invariants over the item sequence: unique positions, bounded length, nothing after the end or after a list error" },
        Prop { id: "P03", focus: Focus { ids: BODY_IDS, eids: &[] }, check: p03, mask: CHAIN, gen: gen_p03, cases: [16_000_000, 400_000_000],
            rule: "the list has two or more elements, or leaves the region at its first pointer",
            oracle: "reference list walk over the same bytes" },
        Prop { id: "P04", focus: Focus { ids: &[], eids: BODY_EIDS }, check: p04, mask: CHAIN, gen: gen_p04, cases: [12_000_000, 300_000_000],
            rule: "the list has two or more elements, or leaves the region at its first offset",
            oracle: "reference list walk over the same bytes" },
        Prop { id: "P05", focus: EVERY, check: p05, mask: KIND, gen: gen_p05, cases: [8_000_000, 150_000_000],
            rule: "every case (all 65536 extended and all 256 conventional ids are enumerated)",
            oracle: "table of assigned ids" },
        Prop { id: "P06", focus: NONE, check: p06, mask: CONTENT, gen: gen::headers, cases: [25_000_000, 600_000_000],
            rule: "the header has a non-zero byte", oracle: "reference decoder with absolute offsets and bits" },
        Prop { id: "P07", focus: NONE, check: p07, mask: CONTENT, gen: gen::headers, cases: [25_000_000, 600_000_000],
            rule: "a header layout with BARs and at least one non-zero BAR byte", oracle: "reference BAR walk over the dwords" },
        Prop { id: "P08", focus: NONE, check: p08, mask: CONTENT, gen: gen::headers, cases: [25_000_000, 600_000_000],
            rule: "a known layout with a non-zero byte in the window registers", oracle: "reference window decoder" },
        Prop { id: "P09", focus: NONE, check: p09, mask: CONTENT, gen: gen_p09, cases: [1 << 24, 1 << 24],
            rule: "every case (all 2^24 class codes are enumerated)", oracle: "class code table of the PCI Code and ID Assignment" },
        cap_prop!("P10", &[0x01, 0x03, 0x04, 0x05, 0x0a, 0x0d, 0x11, 0x12, 0x13], &[], 20_000_000, 400_000_000),
        cap_prop!("P11", &[0x02, 0x07], &[], 20_000_000, 400_000_000),
        cap_prop!("P12", &[0x08], &[], 20_000_000, 400_000_000),
        cap_prop!("P13", &[0x10], &[], 20_000_000, 400_000_000),
        cap_prop!("P14", &[0x14], &[], 20_000_000, 400_000_000),
        cap_prop!("P15", &[0x09, 0x15], &[], 20_000_000, 400_000_000),
        Prop { id: "P16", focus: EVERY, check: p16, mask: ALL, gen: gen_meta, cases: [2_000_000, 60_000_000],
            rule: "a capability was moved to a different position and compared", oracle: "metamorphic: decode at two positions / in two surroundings, compare observable content" },
        Prop { id: "P17", focus: EVERY, check: p17, mask: CONTENT | SHAPE | CHAIN, gen: gen_meta, cases: [4_000_000, 100_000_000],
            rule: "a capability that ends before the cut was compared between the full and the cut region",
            oracle: "metamorphic full/cut comparison plus the reference decoder on the cut region" },
        cap_prop!("P18", &[], &[0x01, 0x1d], 20_000_000, 400_000_000),
        cap_prop!("P19", &[], &[0x02, 0x08, 0x09], 2_500_000, 60_000_000),
        cap_prop!("P20", &[], &[0x0d, 0x0e, 0x0f, 0x10, 0x13, 0x15, 0x1b, 0x24], 20_000_000, 400_000_000),
        cap_prop!("P21", &[], &[0x04, 0x16, 0x18, 0x1e, 0x1f, 0x21, 0x22], 20_000_000, 400_000_000),
        cap_prop!("P22", &[], &[0x05, 0x06, 0x07, 0x0a, 0x0c, 0x12], 20_000_000, 400_000_000),
        cap_prop!("P23", &[], &[0x0b, 0x23], 20_000_000, 400_000_000),
        cap_prop!("P24", &[], &[0x03, 0x17, 0x19, 0x1a, 0x1c, 0x20], 8_000_000, 150_000_000),
        Prop { id: "P25", focus: Focus { ids: &[0x01, 0x02, 0x05, 0x07, 0x08, 0x10, 0x11, 0x15], eids: &[0x01, 0x02, 0x05, 0x06, 0x08, 0x09, 0x10, 0x18, 0x19, 0x1a, 0x1d, 0x1e, 0x23] }, check: p25, mask: REENC, gen: gen_p25, cases: [18_000_000, 300_000_000],
            rule: "at least one decoded value was converted back and compared", oracle: "round trip against the original register restricted to its defined bits" },
        Prop { id: "P26", focus: Focus { ids: &[0x01, 0x02, 0x05, 0x07, 0x08, 0x10, 0x11, 0x12, 0x14, 0x15], eids: &[0x02, 0x04, 0x05, 0x06, 0x08, 0x0d, 0x12, 0x15, 0x16, 0x18, 0x19, 0x1d, 0x1e, 0x20, 0x22, 0x23, 0x24] }, check: p26, mask: DERIVED | CONTENT, gen: gen_p25, cases: [12_000_000, 250_000_000],
            rule: "a capability with an encoded quantity is listed with a non-zero body, or a header with a window or BAR register, and every derived value was compared", oracle: "closed formula or table for each quantity, computed from the raw register bits" },
        Prop { id: "P27", focus: EVERY, check: p27, mask: ERRTXT, gen: gen_p27, cases: [18_000_000, 300_000_000],
            rule: "at least one error was produced and compared", oracle: "expected error value and text per capability, position and supplied length" },
        Prop { id: "P28", focus: EVERY, check: p28, mask: ALL, gen: gen::history, cases: [1_200_000, 30_000_000],
            rule: "a list with two or more elements was driven by the operation script", oracle: "model list (one plain enumeration) with a cursor per iterator copy" },
        Prop { id: "P29", focus: EVERY, check: p29, mask: ALL, gen: gen_p29, cases: [2_000_000, 40_000_000],
            rule: "a header was decoded from the image, a copy and an edited copy, and their values and lists at several stages were compared", oracle: "metamorphic: a copy must be equal at every stage; values that compare equal must render the same fields and remaining items" },
        Prop { id: "P30", focus: EVERY, check: p30, mask: ALL, gen: gen_meta, cases: [4_000_000, 100_000_000],
            rule: "at least one structure of the image was decoded by its public constructor alone", oracle: "differential: the item of the enumeration; metamorphic: bytes of other structures behind it, any start alignment" },
    ]
}
