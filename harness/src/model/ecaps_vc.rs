//! Virtual Channel and Multi-Function Virtual Channel.
use super::ecaps::*;
use super::*;
use crate::ekind;
use crate::engine::*;
use pcics::extended_capabilities::*;

/// `n` entries of `bits` width packed least significant first, or nothing when the
/// table is not inside the supplied bytes.
fn table(d: &[u8], dqword: u32, n: usize, bits: usize) -> Option<Vec<u8>> {
    let o = dqword as usize * 16;
    let t = d.get(o..o + n * bits / 8)?;
    Some((0..n).map(|i| (t[i * bits / 8] as u16 >> (i * bits % 8) & ((1 << bits) - 1)) as u8).collect())
}
fn arb_phases(sel: u32) -> usize {
    [0, 32, 64, 128, 128, 256, 0, 0][sel as usize]
}
fn vc_phases(sel: u32) -> usize {
    [0, 32, 64, 128, 0, 0, 0, 0][sel as usize]
}
fn vc_select(v: u32) -> virtual_channel::VcArbitrationSelect {
    use virtual_channel::VcArbitrationSelect::*;
    match v {
        0 => HardwareFixedArbitration,
        1 => Wrr32phases,
        2 => Wrr64phases,
        3 => Wrr128phases,
        v => Reserved(v as u8),
    }
}
fn cap2(v: u32) -> virtual_channel::PortVcCapability2 {
    virtual_channel::PortVcCapability2 {
        vc_arbitration_capability: virtual_channel::VcArbitrationCapability {
            hardware_fixed_arbitration: b(v, 0),
            wrr_32_phases: b(v, 1),
            wrr_64_phases: b(v, 2),
            wrr_128_phases: b(v, 3),
            reserved: f8(v, 4, 4),
        },
        vc_arbitration_table_offset: f8(v, 24, 8),
    }
}
fn control(v: u32) -> virtual_channel::PortVcControl {
    virtual_channel::PortVcControl { load_vc_arbitration_table: b(v, 0), vc_arbitration_select: vc_select(f(v, 1, 3)) }
}
fn refclk(v: u32) -> virtual_channel::ReferenceClock {
    match v {
        0 => virtual_channel::ReferenceClock::Rc100ns,
        v => virtual_channel::ReferenceClock::Reserved(v as u8),
    }
}
/// phase table of the port: 4-bit entries, 3 bits of VC id
fn vc_ids(d: &[u8], off: u32, sel: u32) -> Option<Vec<virtual_channel::VcArbitrationTableEntry>> {
    table(d, off, vc_phases(sel), 4).map(|v| v.into_iter().map(|e| virtual_channel::VcArbitrationTableEntry { vc_id: e & 7 }).collect())
}

pub fn vc(ck: &mut Ck, got: &EGot, offset: u16, d: &[u8]) {
    use virtual_channel::*;
    if d.len() < 16 {
        return data_err(ck, got, offset, "Virtual Channel", 12);
    }
    let x = if r16(d, 0) == 2 { ekind!(ck, got, VirtualChannel) } else { ekind!(ck, got, VirtualChannelMfvcPresent) };
    let (c1, c2, t, s) = (r32(d, 4), r32(d, 8), r16(d, 12), r16(d, 14));
    let bits = 1usize << f(c1, 10, 2);
    ck.eq(CONTENT, "extended VC count", &(x.port_vc_capability_1.extended_vc_count as u32), &f(c1, 0, 3));
    ck.eq(CONTENT, "low priority extended VC count", &(x.port_vc_capability_1.low_priority_extended_vc_count as u32), &f(c1, 4, 3));
    ck.eq(CONTENT, "reference clock", &x.port_vc_capability_1.reference_clock, &refclk(f(c1, 8, 2)));
    ck.eq(CONTENT | DERIVED, "port arbitration entry bits", &x.port_vc_capability_1.port_arbitration_table_entry_size.bits(), &bits);
    ck.eq(CONTENT, "port VC capability 2", &x.port_vc_capability_2, &cap2(c2));
    ck.eq(CONTENT, "port VC control", &x.port_vc_control, &control(t));
    ck.eq(CONTENT, "port VC status", &x.port_vc_status, &PortVcStatus { vc_arbitration_table_status: b(s, 0) });
    if ck.want(DERIVED) {
        ck.eq(DERIVED, "VC arbitration phases", &x.port_vc_control.vc_arbitration_select.vc_arbitration_table_length(), &vc_phases(f(t, 1, 3)));
    }
    if !ck.want(CONTENT | DERIVED | REENC) {
        return;
    }
    let ids: Vec<_> = x.vc_arbitration_table().take(300).collect();
    let exp = if f(c2, 24, 8) == 0 { Vec::new() } else { vc_ids(d, f(c2, 24, 8), f(t, 1, 3)).unwrap_or_default() };
    ck.eq(CONTENT, "VC arbitration table", &ids, &exp);
    if !exp.is_empty() {
        ck.label("vc-table");
    }
    let evcs: Vec<_> = x.extended_virtual_channels().take(20).collect();
    let mut exp = Vec::new();
    for i in 0..=f(c1, 0, 3) as usize {
        let o = 0x10 + 12 * i;
        if d.len() < o + 12 {
            break;
        }
        let (c, t, s) = (r32(d, o), r32(d, o + 4), r16(d, o + 10));
        exp.push(Ok::<_, ExtendedVirtualChannelError>(ExtendedVirtualChannel {
            vc_resource_capability: VcResourceCapability {
                port_arbitration_capability: PortArbitrationCapability {
                    hardware_fixed_arbitration: b(c, 0),
                    wrr_32_phases: b(c, 1),
                    wrr_64_phases: b(c, 2),
                    wrr_128_phases: b(c, 3),
                    time_based_wrr_128_phases: b(c, 4),
                    wrr_256_phases: b(c, 5),
                    reserved: f8(c, 6, 2),
                },
                advanced_packet_switching: b(c, 14),
                reject_snoop_transactions: b(c, 15),
                maximum_time_slots: f8(c, 16, 7),
                port_arbitration_table_offset: f8(c, 24, 8),
            },
            vc_resource_control: VcResourceControl {
                tc_or_vc_map: f8(t, 0, 8),
                load_port_arbitration_table: b(t, 16),
                port_arbitration_select: match f(t, 17, 3) {
                    0 => PortArbitrationSelect::HardwareFixedArbitration,
                    1 => PortArbitrationSelect::Wrr32phases,
                    2 => PortArbitrationSelect::Wrr64phases,
                    3 => PortArbitrationSelect::Wrr128phases,
                    4 => PortArbitrationSelect::TimeBasedWrr128phases,
                    5 => PortArbitrationSelect::Wrr256phases,
                    v => PortArbitrationSelect::Reserved(v as u8),
                },
                vc_id: f8(t, 24, 3),
                vc_enable: b(t, 31),
            },
            vc_resource_status: VcResourceStatus { port_arbitration_table_status: b(s, 0), vc_negotiation_pending: b(s, 1) },
        }));
    }
    ck.eq(CONTENT, "virtual channel resources", &evcs, &exp);
    for (i, e) in exp.iter().enumerate() {
        let e = e.as_ref().unwrap();
        let o = 0x10 + 12 * i;
        let (c, t) = (r32(d, o), r32(d, o + 4));
        let n = arb_phases(f(t, 17, 3));
        let sel = &e.vc_resource_control.port_arbitration_select;
        ck.eq(DERIVED, "port arbitration phases", &sel.port_arbitration_table_length(), &n);
        ck.eq(REENC, "port arbitration select", &(u8::from(sel.clone()) as u32), &f(t, 17, 3));
        if ck.want(CONTENT) {
            let got: Vec<u32> = x.port_arbitration_table(e).take(600).map(entry_value).collect();
            let exp = if f(c, 24, 8) == 0 { Vec::new() } else { table(d, f(c, 24, 8), n, bits).unwrap_or_default() };
            if !exp.is_empty() {
                ck.label("port-table");
            }
            let exp: Vec<u32> = exp.into_iter().map(|v| v as u32).collect();
            ck.eq(CONTENT, "port arbitration table", &got, &exp);
        }
    }
}

pub fn mfvc(ck: &mut Ck, got: &EGot, offset: u16, d: &[u8]) {
    use multifunction_virtual_channel::*;
    use MultifunctionVirtualChannelError as E;
    let err = |s, t: String| (ExtendedCapabilityError::MultifunctionVirtualChannel { offset, source: s }, format!("[{offset:03x}] Multi-Function Virtual Channel error: {t}"));
    let miss = 'm: {
        if d.len() < 16 {
            break 'm Some(err(E::PortVcData, "capability 1, capability 2, control and status of Port VC are unreadable".into()));
        }
        let off = f(r32(d, 8), 24, 8) as usize;
        match off {
            0 => None,
            1 => Some(err(E::VcArbitrationTableOffset, "VC Arbitration Table offset should be >= 2 * 10h".into())),
            _ if d.len() < off * 16 => Some(err(E::VcArbitrationTableData, "VC Arbitration Table data ureadable".into())),
            _ => {
                let expected = vc_phases(f(r16(d, 12), 1, 3)) / 2;
                let real = d.len() - off * 16;
                (real < expected)
                    .then(|| err(E::VcArbitrationTableLength { expected, real }, format!("VC Arbitration Table data too short: expected {expected}, real {real}")))
            }
        }
    };
    if let Some((e, t)) = miss {
        return exact_err(ck, got, e, t);
    }
    let x = ekind!(ck, got, MultifunctionVirtualChannel);
    let (c1, c2, t, s) = (r32(d, 4), r32(d, 8), r16(d, 12), r16(d, 14));
    let bits = 1usize << f(c1, 10, 2);
    let e = PortVcCapability1 {
        extended_vc_count: f8(c1, 0, 3),
        low_priority_extended_vc_count: f8(c1, 4, 3),
        reference_clock: refclk(f(c1, 8, 2)),
        function_arbitration_table_entry_size: FunctionArbitrationTableEntrySize(f8(c1, 10, 2)),
    };
    ck.eq(CONTENT, "MFVC port capability 1", &x.port_vc_capability_1, &e);
    ck.eq(CONTENT | DERIVED, "function arbitration entry bits", &x.port_vc_capability_1.function_arbitration_table_entry_size.bits(), &bits);
    ck.eq(CONTENT, "MFVC port capability 2", &x.port_vc_capability_2, &cap2(c2));
    ck.eq(CONTENT, "MFVC port control", &x.port_vc_control, &control(t));
    ck.eq(CONTENT, "MFVC port status", &x.port_vc_status, &PortVcStatus { vc_arbitration_table_status: b(s, 0) });
    if !ck.want(CONTENT | DERIVED | REENC) {
        return;
    }
    let off = f(c2, 24, 8);
    let ids = x.vc_arbitration_table.clone().map(|t| t.take(300).collect::<Vec<_>>());
    let exp = if off == 0 { None } else { vc_ids(d, off, f(t, 1, 3)) };
    if exp.as_ref().is_some_and(|v| !v.is_empty()) {
        ck.label("vc-table");
    }
    ck.eq(CONTENT, "MFVC VC arbitration table", &ids, &exp);
    let evcs: Vec<_> = x.extended_virtual_channels.clone().take(20).collect();
    let n = (0..=f(c1, 0, 3) as usize).take_while(|i| d.len() >= 0x1c + 12 * i).count();
    ck.eq(CONTENT, "number of MFVC channel resources", &evcs.len(), &n);
    for (i, g) in evcs.iter().enumerate().take(n) {
        let o = 0x10 + 12 * i;
        let (c, t, s) = (r32(d, o), r32(d, o + 4), r16(d, o + 10));
        let e = VcResourceCapability {
            function_arbitration_capability: FunctionArbitrationCapability {
                hardware_fixed_arbitration: b(c, 0),
                wrr_32_phases: b(c, 1),
                wrr_64_phases: b(c, 2),
                wrr_128_phases: b(c, 3),
                time_based_wrr_128_phases: b(c, 4),
                wrr_256_phases: b(c, 5),
                reserved: f8(c, 6, 2),
            },
            maximum_time_slots: f8(c, 16, 7),
            function_arbitration_table_offset: f8(c, 24, 8),
        };
        ck.eq(CONTENT, "MFVC resource capability", &g.vc_resource_capability, &e);
        let e = VcResourceControl {
            tc_to_vc_map: f8(t, 0, 8),
            load_function_arbitration_table: b(t, 16),
            function_arbitration_select: match f(t, 17, 3) {
                0 => FunctionArbitrationSelect::HardwareFixedArbitration,
                1 => FunctionArbitrationSelect::Wrr32phases,
                2 => FunctionArbitrationSelect::Wrr64phases,
                3 => FunctionArbitrationSelect::Wrr128phases,
                4 => FunctionArbitrationSelect::TimeBasedWrr128phases,
                5 => FunctionArbitrationSelect::Wrr256phases,
                v => FunctionArbitrationSelect::Reserved(v as u8),
            },
            vc_id: f8(t, 24, 3),
            vc_enable: b(t, 31),
        };
        ck.eq(CONTENT, "MFVC resource control", &g.vc_resource_control, &e);
        let e = VcResourceStatus { function_arbitration_table_status: b(s, 0), vc_negotiation_pending: b(s, 1) };
        ck.eq(CONTENT, "MFVC resource status", &g.vc_resource_status, &e);
        let phases = arb_phases(f(t, 17, 3));
        let off = f(c, 24, 8);
        if ck.want(CONTENT) {
            let got = g.function_arbitration_table.clone().map(|t| t.take(600).map(entry_value).collect::<Vec<_>>());
            let exp = if off < 2 { None } else { table(d, off, phases, bits) };
            if exp.as_ref().is_some_and(|v| !v.is_empty()) {
                ck.label("function-table");
            }
            let exp = exp.map(|v| v.into_iter().map(|v| v as u32).collect::<Vec<_>>());
            ck.eq(CONTENT, "function arbitration table", &got, &exp);
        }
        let sel = &g.vc_resource_control.function_arbitration_select;
        if ck.want(DERIVED) {
            ck.eq(DERIVED, "function arbitration phases", &sel.function_arbitration_table_length(), &phases);
        }
        if ck.want(REENC) {
            ck.eq(REENC, "function arbitration select", &(u8::from(sel.clone()) as u32), &f(t, 17, 3));
            ck.eq(REENC, "function arbitration capability", &(u8::from(g.vc_resource_capability.function_arbitration_capability.clone()) as u32), &f(c, 0, 8));
            ck.eq(REENC, "MFVC resource capability re-encoded", &u32::from(g.vc_resource_capability.clone()), &(c & 0xff7f_00ff));
            ck.eq(REENC, "MFVC resource control re-encoded", &u32::from(g.vc_resource_control.clone()), &(t & 0x870f_00ff));
            ck.eq(REENC, "MFVC resource status re-encoded", &(u16::from(g.vc_resource_status.clone()) as u32), &(s & 3));
            let by: [u8; 12] = g.clone().into();
            let mut ex = [0u8; 12];
            ex[..4].copy_from_slice(&(c & 0xff7f_00ff).to_le_bytes());
            ex[4..8].copy_from_slice(&(t & 0x870f_00ff).to_le_bytes());
            ex[10] = (s & 3) as u8;
            ck.eq(REENC, "MFVC resource re-encoded", &by, &ex);
        }
    }
}
