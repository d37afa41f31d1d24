use super::*;
use crate::engine::*;
use pcics::header::*;
use pcics::Header;

pub fn command(v: u32) -> Command {
    Command {
        io_space: b(v, 0),
        memory_space: b(v, 1),
        bus_master: b(v, 2),
        special_cycles: b(v, 3),
        memory_write_and_invalidate_enable: b(v, 4),
        vga_palette_snoop: b(v, 5),
        parity_error_response: b(v, 6),
        stepping: b(v, 7),
        serr_enable: b(v, 8),
        fast_back_to_back_enable: b(v, 9),
        interrupt_disable: b(v, 10),
        reserved: f8(v, 11, 5),
    }
}
pub fn status<const T: char>(v: u32) -> Status<T> {
    Status {
        reserved: f8(v, 0, 3),
        interrupt_status: b(v, 3),
        capabilities_list: b(v, 4),
        is_66mhz_capable: b(v, 5),
        user_definable_features: b(v, 6),
        fast_back_to_back_capable: b(v, 7),
        master_data_parity_error: b(v, 8),
        devsel_timing: [DevselTiming::Fast, DevselTiming::Medium, DevselTiming::Slow, DevselTiming::Undefined][f(v, 9, 2) as usize],
        signaled_target_abort: b(v, 11),
        received_target_abort: b(v, 12),
        received_master_abort: b(v, 13),
        system_error: b(v, 14),
        detected_parity_error: b(v, 15),
    }
}
pub fn bist(v: u32) -> BuiltInSelfTest {
    BuiltInSelfTest { is_capable: b(v, 7), is_running: b(v, 6), completion_code: f8(v, 0, 4) }
}
pub fn int_pin(v: u32) -> InterruptPin {
    match v {
        0 => InterruptPin::Unused,
        1 => InterruptPin::IntA,
        2 => InterruptPin::IntB,
        3 => InterruptPin::IntC,
        4 => InterruptPin::IntD,
        v => InterruptPin::Reserved(v as u8),
    }
}
pub fn rom(v: u32) -> ExpansionRom {
    ExpansionRom { address: v & 0xffff_f800, reserved: f16(v, 1, 10), is_enabled: b(v, 0) }
}
pub fn bridge_control(v: u32) -> BridgeControl {
    BridgeControl {
        parity_error_response_enable: b(v, 0),
        serr_enable: b(v, 1),
        isa_enable: b(v, 2),
        vga_enable: b(v, 3),
        vga_16_enable: b(v, 4),
        master_abort_mode: b(v, 5),
        secondary_bus_reset: b(v, 6),
        fast_back_to_back_enable: b(v, 7),
        primary_discard_timer: b(v, 8),
        secondary_discard_timer: b(v, 9),
        discard_timer_status: b(v, 10),
        discard_timer_serr_enable: b(v, 11),
    }
}
pub fn cardbus_bridge_control(v: u32) -> CardbusBridgeControl {
    CardbusBridgeControl {
        parity_error_response_enable: b(v, 0),
        serr_enable: b(v, 1),
        isa_enable: b(v, 2),
        vga_enable: b(v, 3),
        master_abort_mode: b(v, 5),
        cardbus_reset: b(v, 6),
        ireq_int_enable: b(v, 7),
        memory_0_prefetch_enable: b(v, 8),
        memory_1_prefetch_enable: b(v, 9),
        write_posting_enable: b(v, 10),
    }
}
/// (header offset) -> forwarding window of the I/O base/limit registers
pub fn bridge_io(h: &[u8]) -> BridgeIoAddressRange {
    let (base, limit) = (h[0x1c], h[0x1d]);
    let (bu, lu) = (r16(h, 0x30), r16(h, 0x32));
    let addr = |lo: u8, hi: u32| hi << 16 | ((lo >> 4) as u32) << 12;
    if base == 0 && limit == 0 {
        BridgeIoAddressRange::NotImplemented
    } else if base & 0xf != limit & 0xf {
        BridgeIoAddressRange::Malformed { base, limit }
    } else if base & 0xf == 0 {
        BridgeIoAddressRange::IoAddr16 { base: addr(base, 0) as u16, limit: addr(limit, 0) as u16 }
    } else if base & 0xf == 1 {
        BridgeIoAddressRange::IoAddr32 { base: addr(base, bu), limit: addr(limit, lu) }
    } else {
        BridgeIoAddressRange::Reserved { base, limit }
    }
}
pub fn bridge_pref(h: &[u8]) -> BridgePrefetchableMemory {
    let (base, limit) = (r16(h, 0x24), r16(h, 0x26));
    let (bu, lu) = (r32(h, 0x28), r32(h, 0x2c));
    let addr = |lo: u32, hi: u32| (hi as u64) << 32 | ((lo >> 4) as u64) << 20;
    if base == 0 && limit == 0 {
        BridgePrefetchableMemory::NotImplemented
    } else if base & 0xf != limit & 0xf {
        BridgePrefetchableMemory::Malformed { base: base as u16, limit: limit as u16 }
    } else if base & 0xf == 0 {
        BridgePrefetchableMemory::MemAddr32 { base: addr(base, 0) as u32, limit: addr(limit, 0) as u32 }
    } else if base & 0xf == 1 {
        BridgePrefetchableMemory::MemAddr64 { base: addr(base, bu), limit: addr(limit, lu) }
    } else {
        BridgePrefetchableMemory::Reserved { base: base as u16, limit: limit as u16 }
    }
}
pub fn cardbus_io(h: &[u8], o: usize) -> IoAccessAddressRange {
    let (base, limit) = (r32(h, o), r32(h, o + 4));
    match base & 3 {
        0 => IoAccessAddressRange::Addr16Bit { base: (base & 0xfffc) as u16, limit: (limit & 0xfffc) as u16 },
        1 => IoAccessAddressRange::Addr32Bit { base: base & !3, limit: limit & !3 },
        c => IoAccessAddressRange::Unknown {
            io_address_capability: c as u8,
            base_lower: (base & 0xfffc) as u16,
            base_upper: (base >> 16) as u16,
            limit_lower: (limit & 0xfffc) as u16,
            limit_upper: (limit >> 16) as u16,
        },
    }
}
/// Regions described by the BAR dwords.
pub fn bars(dw: &[u32]) -> Vec<BaseAddress> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < dw.len() {
        let v = dw[i];
        let region = i;
        i += 1;
        if v == 0 {
            continue;
        }
        let prefetchable = b(v, 3);
        let base_address = v >> 4 << 4;
        let base_address_type = if b(v, 0) {
            BaseAddressType::IoSpace { base_address: v >> 2 << 2 }
        } else {
            match f(v, 1, 2) {
                0 => BaseAddressType::MemorySpace32 { prefetchable, base_address },
                1 => BaseAddressType::MemorySpaceBelow1M { prefetchable, base_address },
                2 if i < dw.len() => {
                    let hi = dw[i];
                    i += 1;
                    BaseAddressType::MemorySpace64 { prefetchable, base_address: (hi as u64) << 32 | base_address as u64 }
                }
                2 => BaseAddressType::MemorySpace64Broken { prefetchable },
                _ => BaseAddressType::MemorySpaceReserved { prefetchable, base_address },
            }
        };
        out.push(BaseAddress { region, base_address_type });
    }
    out
}
/// The dwords a list of decoded regions stands for: what decoding preserves.
pub fn bars_encoded(dw: &[u32]) -> Vec<u32> {
    let mut out = vec![0; dw.len()];
    let mut i = 0;
    while i < dw.len() {
        let v = dw[i];
        if v == 0 {
            i += 1;
        } else if b(v, 0) {
            out[i] = v & !2;
            i += 1;
        } else if f(v, 1, 2) == 2 {
            if i + 1 < dw.len() {
                out[i] = v;
                out[i + 1] = dw[i + 1];
            } else {
                out[i] = v & 0xf;
            }
            i += 2;
        } else {
            out[i] = v;
            i += 1;
        }
    }
    out
}

fn check_bars<const N: usize>(ck: &mut Ck, asp: u8, ba: &BaseAddresses<N>, h: &[u8]) {
    let dw: Vec<u32> = (0..N).map(|i| r32(h, 0x10 + 4 * i)).collect();
    ck.eq(asp | REENC, "raw base address dwords", &ba.orig().to_vec(), &dw);
    let exp = bars(&dw);
    let got: Vec<BaseAddress> = ba.clone().take(N + 1).collect();
    ck.eq(asp, "base address regions", &got, &exp);
    if !exp.is_empty() {
        ck.label("bars");
    }
    if ck.want(asp) {
        // iterating does not disturb the original and the iterator stays finished
        let mut it = ba.clone();
        for _ in 0..=N {
            it.next();
        }
        ck.ok(asp, it.next().is_none(), || "base address iterator not fused".into());
        ck.eq(asp, "raw dwords after iteration", &it.orig().to_vec(), &dw);
        // equality compares what is described
        let mut arr = [0u32; N];
        arr.copy_from_slice(&dw);
        ck.ok(asp, BaseAddresses::new(arr) == *ba, || "base addresses differ from an equal copy".into());
        for i in 0..N {
            let mut a2 = arr;
            a2[i] ^= 0x8000_0000;
            let differs = bars(&a2) != exp;
            ck.ok(asp, (BaseAddresses::new(a2) == *ba) != differs, || format!("equality of base addresses wrong after changing dword {i} of {arr:x?}"));
        }
    }
    if ck.want(REENC) {
        let enc: [u32; N] = exp.iter().collect();
        ck.eq(REENC, "dwords collected from decoded regions", &enc.to_vec(), &bars_encoded(&dw));
        let enc2: [u32; N] = ba.clone().take(N).collect();
        ck.eq(REENC, "dwords collected from the decoding iterator", &enc2.to_vec(), &bars_encoded(&dw));
        let enc3: [u32; N] = exp.iter().rev().collect();
        ck.eq(REENC, "dwords collected in the opposite order", &enc3.to_vec(), &bars_encoded(&dw));
        let mut it = ba.clone();
        for i in 0..=exp.len() {
            ck.eq(REENC, "raw dwords during iteration", &it.orig().to_vec(), &dw);
            let rest: [u32; N] = it.clone().take(N).collect();
            let left: Vec<u32> = (0..N).map(|r| if exp.get(i).is_some_and(|b| b.region <= r) { bars_encoded(&dw)[r] } else { 0 }).collect();
            ck.eq(REENC, "dwords collected from the rest", &rest.to_vec(), &left);
            it.next();
        }
        let again: Vec<BaseAddress> = BaseAddresses::new(enc).take(N + 1).collect();
        // the low bits of an unusable 64-bit register at the last position carry no address
        ck.eq(REENC, "regions after re-encoding", &again, &exp);
    }
}

/// A list of registers of any number, not only those the header layouts have.
fn check_other_bars(ck: &mut Ck, h: &[u8]) {
    fn n<const N: usize>(ck: &mut Ck, h: &[u8]) {
        let mut arr = [0u32; N];
        for (i, a) in arr.iter_mut().enumerate() {
            *a = r32(h, 0x10 + 4 * i);
        }
        check_bars(ck, CONTENT, &BaseAddresses::new(arr), h);
    }
    match h[0x10..0x40].iter().fold(0u32, |s, b| s.wrapping_mul(31).wrapping_add(*b as u32)) % 24 {
        0 => n::<3>(ck, h),
        1 => n::<4>(ck, h),
        2 => n::<5>(ck, h),
        3 => n::<7>(ck, h),
        4 => n::<8>(ck, h),
        5 => n::<12>(ck, h),
        _ => (),
    }
}

pub const F_COMMON: u8 = 1;
pub const F_BARS: u8 = 2;
pub const F_WIN: u8 = 4;

/// Compares a decoded header with the image. `parts` selects which statements to judge.
pub fn check_header(ck: &mut Ck, got: &Header, h: &[u8], parts: u8) {
    let ht = h[0x0e] & 0x7f;
    if parts & F_COMMON != 0 {
        ck.eq(CONTENT, "vendor id", &got.vendor_id, &(r16(h, 0) as u16));
        ck.eq(CONTENT, "device id", &got.device_id, &(r16(h, 2) as u16));
        ck.eq(CONTENT, "command", &got.command, &command(r16(h, 4)));
        ck.eq(CONTENT, "status", &got.status, &status(r16(h, 6)));
        ck.eq(CONTENT, "revision", &got.revision_id, &h[8]);
        let cc = ClassCode { interface: h[9], sub: h[10], base: h[11] };
        ck.eq(CONTENT, "class code", &got.class_code, &cc);
        ck.eq(CONTENT, "cache line size", &got.cache_line_size, &h[0xc]);
        ck.eq(CONTENT, "latency timer", &got.latency_timer, &h[0xd]);
        ck.eq(CONTENT, "multi-function", &got.is_multi_function, &(h[0xe] >> 7 == 1));
        ck.eq(CONTENT, "bist", &got.bist, &bist(r8(h, 0xf)));
        let known = ht <= 2;
        let cp = match ht {
            0 | 1 => h[0x34] & 0xfc,
            2 => h[0x14] & 0xfc,
            _ => 0,
        };
        ck.eq(CONTENT, "capabilities pointer", &got.capabilities_pointer, &cp);
        ck.eq(CONTENT, "interrupt line", &got.interrupt_line, &if known { h[0x3c] } else { 0 });
        ck.eq(CONTENT, "interrupt pin", &got.interrupt_pin, &int_pin(if known { r8(h, 0x3d) } else { 0 }));
        ck.eq(REENC, "bist byte", &u8::from(got.bist.clone()), &(h[0xf] & 0xcf));
        ck.eq(REENC, "interrupt pin byte", &u8::from(got.interrupt_pin), &if known { h[0x3d] } else { 0 });
        ck.eq(REENC, "header type byte", &u8::from(&got.header_type), &ht);
        ck.eq(REENC, "header type byte", &u8::from(got.header_type.clone()), &ht);
    }
    match (&got.header_type, ht) {
        (HeaderType::Normal(n), 0) => {
            ck.label("normal");
            if parts & F_BARS != 0 {
                check_bars(ck, CONTENT, &n.base_addresses, h);
                check_other_bars(ck, h);
            }
            if parts & F_COMMON != 0 {
                ck.eq(CONTENT, "cardbus cis pointer", &n.cardbus_cis_pointer, &r32(h, 0x28));
                ck.eq(CONTENT, "subsystem vendor", &n.sub_vendor_id, &(r16(h, 0x2c) as u16));
                ck.eq(CONTENT, "subsystem device", &n.sub_device_id, &(r16(h, 0x2e) as u16));
                ck.eq(CONTENT, "min grant", &n.min_grant, &h[0x3e]);
                ck.eq(CONTENT, "max latency", &n.max_latency, &h[0x3f]);
            }
            if parts & F_WIN != 0 {
                check_rom(ck, &n.expansion_rom, r32(h, 0x30));
                ck.eq(CONTENT, "rom accessor", &got.header_type.expansion_rom(), &Some(rom(r32(h, 0x30))));
            }
        }
        (HeaderType::Bridge(n), 1) => {
            ck.label("bridge");
            if parts & F_BARS != 0 {
                check_bars(ck, CONTENT, &n.base_addresses, h);
            }
            if parts & F_COMMON != 0 {
                ck.eq(CONTENT, "primary bus", &n.primary_bus_number, &h[0x18]);
                ck.eq(CONTENT, "secondary bus", &n.secondary_bus_number, &h[0x19]);
                ck.eq(CONTENT, "subordinate bus", &n.subordinate_bus_number, &h[0x1a]);
                ck.eq(CONTENT, "secondary latency timer", &n.secondary_latency_timer, &h[0x1b]);
                ck.eq(CONTENT, "secondary status", &n.secondary_status, &status(r16(h, 0x1e)));
                ck.eq(CONTENT, "bridge control", &n.bridge_control, &bridge_control(r16(h, 0x3e)));
            }
            if parts & F_WIN != 0 {
                ck.eq(CONTENT, "bridge i/o window", &n.io_address_range, &bridge_io(h));
                ck.eq(CONTENT, "bridge memory base", &n.memory_base, &(r16(h, 0x20) as u16));
                ck.eq(CONTENT, "bridge memory limit", &n.memory_limit, &(r16(h, 0x22) as u16));
                ck.eq(CONTENT, "bridge prefetchable window", &n.prefetchable_memory, &bridge_pref(h));
                check_rom(ck, &n.expansion_rom, r32(h, 0x38));
                ck.eq(CONTENT, "rom accessor", &got.header_type.expansion_rom(), &Some(rom(r32(h, 0x38))));
                ck.eq(CONTENT, "bridge i/o window constructor", &BridgeIoAddressRange::new(h[0x1c], h[0x1d], r16(h, 0x30) as u16, r16(h, 0x32) as u16), &bridge_io(h));
                ck.eq(
                    CONTENT,
                    "bridge prefetchable constructor",
                    &BridgePrefetchableMemory::new(r16(h, 0x24) as u16, r16(h, 0x26) as u16, r32(h, 0x28), r32(h, 0x2c)),
                    &bridge_pref(h),
                );
            }
        }
        (HeaderType::Cardbus(n), 2) => {
            ck.label("cardbus");
            if parts & F_BARS != 0 {
                check_bars(ck, CONTENT, &n.base_addresses, h);
            }
            if parts & F_COMMON != 0 {
                ck.eq(CONTENT, "secondary status", &n.secondary_status, &status(r16(h, 0x16)));
                ck.eq(CONTENT, "pci bus", &n.pci_bus_number, &h[0x18]);
                ck.eq(CONTENT, "cardbus bus", &n.cardbus_bus_number, &h[0x19]);
                ck.eq(CONTENT, "subordinate bus", &n.subordinate_bus_number, &h[0x1a]);
                ck.eq(CONTENT, "cardbus latency", &n.cardbus_latency_timer, &h[0x1b]);
                ck.eq(CONTENT, "cardbus bridge control", &n.bridge_control, &cardbus_bridge_control(r16(h, 0x3e)));
                ck.eq(
                    CONTENT,
                    "optional cardbus registers before they are set",
                    &(n.subsystem_vendor_id, n.subsystem_device_id, n.legacy_mode_base_address, n.reserved.is_none()),
                    &(None, None, None, true),
                );
            }
            if parts & F_WIN != 0 {
                ck.eq(CONTENT, "memory base 0", &n.memory_base_address_0, &r32(h, 0x1c));
                ck.eq(CONTENT, "memory limit 0", &n.memory_limit_address_0, &r32(h, 0x20));
                ck.eq(CONTENT, "memory base 1", &n.memory_base_address_1, &r32(h, 0x24));
                ck.eq(CONTENT, "memory limit 1", &n.memory_limit_address_1, &r32(h, 0x28));
                ck.eq(CONTENT, "i/o window 0", &n.io_access_address_range_0, &cardbus_io(h, 0x2c));
                ck.eq(CONTENT, "i/o window 1", &n.io_access_address_range_1, &cardbus_io(h, 0x34));
                ck.eq(CONTENT, "rom accessor", &got.header_type.expansion_rom(), &None);
                for o in [0x2c, 0x34] {
                    if ck.want(REENC) {
                        let enc = <[[u16; 2]; 2]>::from(cardbus_io(h, o));
                        let (base, limit) = (r32(h, o), r32(h, o + 4));
                        let keep = if base & 3 == 0 { 0xffff } else { 0xffff_ffff };
                        let exp = [
                            [base as u16, ((base & keep) >> 16) as u16],
                            [(limit & !3) as u16, ((limit & keep) >> 16) as u16],
                        ];
                        ck.eq(REENC, "cardbus i/o window registers", &enc, &exp);
                    }
                }
            }
        }
        (HeaderType::Reserved(v), t) if t > 2 => {
            ck.label("reserved header type");
            if parts & F_COMMON != 0 {
                ck.eq(CONTENT, "reserved header type", v, &t);
            }
            if parts & F_WIN != 0 {
                ck.eq(CONTENT, "rom accessor", &got.header_type.expansion_rom(), &None);
            }
        }
        (k, t) => ck.ok(CONTENT, false, || format!("header layout {t:#x} decoded as {k:?}")),
    }
}
fn check_rom(ck: &mut Ck, got: &ExpansionRom, v: u32) {
    ck.eq(CONTENT, "expansion rom", got, &rom(v));
    ck.eq(REENC, "expansion rom register", &u32::from(got.clone()), &v);
    ck.eq(REENC, "expansion rom register (64-bit)", &u64::from(got.clone()), &(v as u64));
}
/// CardBus registers behind the header (bytes 40h..80h of the configuration space).
pub fn check_cardbus_optional(ck: &mut Ck, h: &Header, tail: &[u8]) {
    if let HeaderType::Cardbus(c) = &h.header_type {
        let mut c2 = c.clone();
        let r = c2.try_set_optional_registers(tail);
        ck.eq(CONTENT, "optional cardbus registers accepted", &r.is_ok(), &(tail.len() >= 0x40));
        let mut exp = c.clone();
        if tail.len() >= 0x40 {
            exp.subsystem_vendor_id = Some(r16(tail, 0) as u16);
            exp.subsystem_device_id = Some(r16(tail, 2) as u16);
            exp.legacy_mode_base_address = Some(r32(tail, 4));
            let mut rest = [0u8; 56];
            rest.copy_from_slice(&tail[8..0x40]);
            exp.reserved = Some(rest);
        }
        ck.eq(CONTENT, "optional cardbus registers", &c2, &exp);
        // a later attempt with too few bytes changes nothing
        let r = c2.try_set_optional_registers(&tail[..tail.len().min(tail.first().copied().unwrap_or(0) as usize % 0x40)]);
        ck.ok(CONTENT, r.is_err(), || "cardbus registers accepted from too few bytes".into());
        ck.eq(CONTENT, "optional cardbus registers after a failed attempt", &c2, &exp);
    }
}
pub fn class_meaning(base: u8, sub: u8, iface: u8) -> (&'static str, Option<&'static str>, Option<&'static str>) {
    for (bb, bn, subs) in classes::CLASSES {
        if *bb == base {
            for (s, sn, ifs) in subs.iter() {
                if *s == sub {
                    return (bn, Some(sn), ifs.iter().find(|(i, _)| *i == iface).map(|(_, n)| *n));
                }
            }
            return (bn, None, None);
        }
    }
    ("Reserved", None, None)
}
