//! Observable content of a capability as text: plain fields through Debug, nested lists
//! and tables by walking them. Bytes that are merely held (not reported) do not show.
use crate::model::{b, f, r16, r32};
use pcics::capabilities::pci_express::LinkWidth;
use pcics::capabilities::*;
use pcics::extended_capabilities::tph_requester::StTable;
use pcics::extended_capabilities::*;
use std::fmt::Debug;

/// No list of a 4 KB space has more elements than this.
pub const LIST_MAX: usize = 40_000;
pub const WIDTHS: [LinkWidth; 7] = [LinkWidth::X1, LinkWidth::X2, LinkWidth::X4, LinkWidth::X8, LinkWidth::X12, LinkWidth::X16, LinkWidth::X32];

pub fn list<T: Debug>(it: impl Iterator<Item = T>) -> String {
    let v: Vec<T> = it.take(LIST_MAX + 1).collect();
    if v.len() > LIST_MAX {
        panic!("a nested list does not end");
    }
    format!("{v:?}")
}
pub fn kind(k: &CapabilityKind) -> String {
    match k {
        CapabilityKind::EnhancedAllocation(x) => {
            format!("EnhancedAllocation {} {:?} {}", x.num_entries, x.type_1_second_dw, list(x.entries.clone()))
        }
        k => format!("{k:?}"),
    }
}
pub fn ekind(k: &ExtendedCapabilityKind) -> String {
    use ExtendedCapabilityKind as K;
    match k {
        K::VirtualChannel(x) | K::VirtualChannelMfvcPresent(x) => {
            let mut s = format!(
                "VC {:?} {:?} {:?} {:?} {}",
                x.port_vc_capability_1,
                x.port_vc_capability_2,
                x.port_vc_control,
                x.port_vc_status,
                list(x.vc_arbitration_table())
            );
            s += &list(x.extended_virtual_channels());
            for e in x.extended_virtual_channels().take(300).flatten() {
                s += &list(x.port_arbitration_table(&e));
            }
            s
        }
        K::MultifunctionVirtualChannel(x) => {
            let mut s = format!(
                "MFVC {:?} {:?} {:?} {:?} {:?}",
                x.port_vc_capability_1,
                x.port_vc_capability_2,
                x.port_vc_control,
                x.port_vc_status,
                x.vc_arbitration_table.clone().map(list)
            );
            for e in x.extended_virtual_channels.clone().take(300) {
                s += &format!(
                    "{:?} {:?} {:?} {:?}",
                    e.vc_resource_capability,
                    e.vc_resource_control,
                    e.vc_resource_status,
                    e.function_arbitration_table.clone().map(list)
                );
            }
            s
        }
        K::RootComplexLinkDeclaration(x) => {
            format!("RCLD {:?} {:?} {}", x.element_self_description, x.link_entries.state, list(x.link_entries.clone()))
        }
        K::SecondaryPciExpress(x) => {
            let mut s = format!("SecPCIe {:?} {:?}", x.link_control_3, x.lane_error_status);
            for w in WIDTHS {
                s += &list(x.equalization_control_lanes(w));
            }
            s
        }
        K::ProtocolMultiplexing(x) => {
            format!("PMUX {:?} {:?} {:?} {}", x.pmux_capability, x.pmux_control, x.pmux_status, list(x.pmux_protocol_array.clone()))
        }
        K::AccessControlServices(x) => format!("ACS {:?} {:?} {}", x.acs_capability, x.acs_control, list(x.egress_control_vectors())),
        K::ResizableBar(x) => format!("ResizableBar {}", list(x.clone())),
        K::VfResizableBar(x) => format!("VfResizableBar {}", list(x.clone())),
        K::SingleRootIoVirtualization(x) => {
            let mut y = x.clone();
            let bars = std::mem::replace(&mut y.base_addresses, pcics::header::BaseAddresses::new([0; 6]));
            format!("{y:?} {}", list(bars))
        }
        K::TphRequester(x) => {
            let mut x = x.clone();
            if let StTable::Invalid { size, .. } = x.tph_requester_capability.st_table {
                // what is held of a table that does not fit is not content
                x.tph_requester_capability.st_table = StTable::Invalid { size, data: &[] };
            }
            format!("{x:?}")
        }
        k => format!("{k:?}"),
    }
}
/// text of an error without the position in front
fn no_pos(t: String) -> String {
    match t.split_once("] ") {
        Some((_, r)) => r.to_string(),
        None => t,
    }
}
pub fn item(r: &Result<Capability, CapabilityError>) -> String {
    match r {
        Ok(c) => kind(&c.kind),
        Err(e) => format!("error {}", no_pos(e.to_string())),
    }
}
pub fn eitem(r: &Result<ExtendedCapability, ExtendedCapabilityError>) -> String {
    match r {
        Ok(c) => format!("v{} {}", c.version, ekind(&c.kind)),
        Err(e) => format!("error {}", no_pos(e.to_string())),
    }
}
/// item with its position
pub fn full(r: &Result<Capability, CapabilityError>) -> String {
    match r {
        Ok(c) => format!("{:#04x} {}", c.pointer, kind(&c.kind)),
        Err(e) => format!("error {e} {e:?}"),
    }
}
pub fn efull(r: &Result<ExtendedCapability, ExtendedCapabilityError>) -> String {
    match r {
        Ok(c) => format!("{:#05x} v{} {}", c.offset, c.version, ekind(&c.kind)),
        Err(e) => format!("error {e} {e:?}"),
    }
}

/// Bytes from the id byte that belong to the conventional capability.
pub fn extent(d: &[u8], bridge: bool) -> usize {
    match d[0] {
        0x01 | 0x03 | 0x0d | 0x12 => 8,
        0x02 => 0x22,
        0x04 | 0x0a => 4,
        0x05 if d.len() >= 4 => match (b(r16(d, 2), 7), b(r16(d, 2), 8)) {
            (false, false) => 12,
            (true, false) => 16,
            (false, true) => 20,
            (true, true) => 24,
        },
        0x07 if bridge => 32,
        0x07 => 24,
        0x08 => 28,
        0x09 if d.len() >= 3 => (d[2] as usize).max(4),
        0x10 => 0x3c,
        0x11 => 12,
        0x13 => 6,
        0x14 if d.len() >= 3 => (if bridge { 8 } else { 4 }) + 32 * (d[2] & 0x3f) as usize,
        0x15 => 36,
        0x05 | 0x09 | 0x14 => 4,
        _ => 2,
    }
}
/// Bytes from the capability header that belong to the extended capability.
pub fn eextent(d: &[u8]) -> usize {
    match r16(d, 0) {
        0x01 => 0x48,
        0x02 | 0x08 | 0x09 => {
            if d.len() < 16 {
                return 16;
            }
            let n = f(r32(d, 4), 0, 3) as usize;
            let bits = 1usize << f(r32(d, 4), 10, 2);
            let mut e = 16 + 12 * (n + 1);
            let off = f(r32(d, 8), 24, 8) as usize;
            e = e.max(off * 16 + 64);
            for i in 0..=n {
                let o = 16 + 12 * i;
                if d.len() >= o + 12 {
                    let off = f(r32(d, o), 24, 8) as usize;
                    e = e.max(off * 16 + [0, 32, 64, 128, 128, 256, 0, 0][f(r32(d, o + 4), 17, 3) as usize] * bits / 8);
                }
            }
            e
        }
        0x03 | 0x06 | 0x22 | 0x1f => 12,
        0x04 | 0x13 | 0x1e | 0x21 => 16,
        0x05 if d.len() >= 8 => 16 + 16 * (d[5] as usize).max(1),
        0x07 | 0x0c | 0x0e | 0x0f | 0x18 | 0x1b | 0x1c => 8,
        0x0a => 0x14,
        0x0b | 0x23 if d.len() >= 8 => (f(r32(d, 4), 20, 12) as usize).max(10),
        0x0d if d.len() >= 8 => {
            let n = match d[5] {
                0 if b(r16(d, 4), 5) => 256,
                n => n as usize,
            };
            8 + n.div_ceil(32) * 4
        }
        0x10 => 0x40,
        0x12 => 0x30,
        0x15 | 0x24 if d.len() >= 12 => 4 + 8 * (f(r32(d, 8), 5, 3) as usize).max(1),
        0x16 if d.len() >= 8 => 0x10 + f(r32(d, 4), 0, 5) as usize + 1,
        0x17 if d.len() >= 12 => {
            let c = r32(d, 4);
            if f(c, 9, 2) == 1 {
                12 + 2 * (f(c, 16, 11) as usize + 1)
            } else {
                12
            }
        }
        0x19 => 12 + 64,
        0x1a if d.len() >= 8 => 0x10 + 4 * f(r32(d, 4), 0, 6) as usize,
        0x1d => 0x44,
        0x20 => 0x1c,
        0x05 | 0x0b | 0x23 | 0x0d | 0x15 | 0x24 | 0x16 | 0x17 | 0x1a => d.len(),
        _ => 4,
    }
}
