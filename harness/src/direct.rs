//! Public list and register constructors called directly, outside of any capability:
//! slices that start anywhere, end anywhere, and counts the enclosing capability would
//! not announce for them. Only what the supplied bytes determine is judged.
use crate::engine::*;
use crate::model::{caps, caps_express as px, cxl, *};
use pcics::capabilities::{enhanced_allocation as eal, pci_express as pe, vendor_specific as vs};
use pcics::extended_capabilities::designated_vendor_specific_extended_capability::ComputeExpressLink;
use pcics::extended_capabilities::{
    access_control_services as acs, device_serial_number as dsn, downstream_port_containment as dpc, multifunction_virtual_channel as mfvc, protocol_multiplexing as pmux,
    root_complex_link_declaration as rcld, secondary_pci_express as sec, virtual_channel as vc,
};

fn packed(t: &[u8], bits: usize) -> Vec<u8> {
    (0..t.len() * 8 / bits).map(|i| (t[i * bits / 8] as u16 >> (i * bits % 8) & ((1 << bits) - 1)) as u8).collect()
}
pub fn conv(ck: &mut Ck, ddr: &[u8], want: impl Fn(u8) -> bool) {
    let Some(mut rng) = pick(ddr) else { return };
    let d = slice(ddr, &mut rng, 200);
    if want(0x14) && ck.want(CONTENT) {
        let n = rng.below(6) + if rng.one_in(20) { 250 } else { 0 };
        let got: Vec<_> = eal::EnhancedAllocationEntries::new(d, n as u8).take(300).collect();
        ck.eq(CONTENT, "EA entries from bytes", &got, &caps::ea_entries(d, n));
    }
    if want(0x09) && ck.want(CONTENT) {
        let d = slice(ddr, &mut rng, 40);
        let got = vs::Virtio::try_from(d).ok();
        ck.eq(CONTENT, "virtio structure from bytes", &got, &(d.len() >= 13).then(|| caps::virtio_body(d)));
    }
    if want(0x10) && ck.want(CONTENT | DERIVED) {
        let v = rng.u64();
        let (value, scale) = (v as u8, (v >> 8) as u8 & 3);
        px::check_power_limit(ck, "power limit from parts", &pe::SlotPowerLimit::new(value, scale), value as u32, scale as u32);
    }
}
pub fn ext(ck: &mut Ck, ecs: &[u8], want: impl Fn(u16) -> bool) {
    if !ck.want(CONTENT) {
        return;
    }
    let Some(mut rng) = pick(ecs) else { return };
    let max = if rng.one_in(4) { 300 } else { 40 };
    let d = slice(ecs, &mut rng, max);
    if want(0x0d) {
        let n = if rng.one_in(3) { d.len() * 8 } else { rng.below(300) };
        let got: Vec<bool> = acs::EgressControlVectors::new(d, n).take(3000).collect();
        let sure = n.min(d.len() * 8);
        let exp: Vec<bool> = (0..sure).map(|i| d[i / 8] >> (i % 8) & 1 == 1).collect();
        ck.ok(CONTENT, got.len() <= n && got.len() >= sure, || format!("egress vector over {} bytes, {n} bits announced: {} items", d.len(), got.len()));
        ck.eq(CONTENT, "egress vector from bytes", &&got[..sure.min(got.len())], &&exp[..]);
    }
    if want(0x02) || want(0x08) || want(0x09) {
        let ids: Vec<u8> = vc::VcArbitrationTable::new(d).take(700).map(|e| e.vc_id).collect();
        ck.eq(CONTENT, "VC arbitration table from bytes", &ids, &packed(d, 4).into_iter().map(|v| v & 7).collect());
        let bits = *rng.pick(&[1usize, 2, 4, 8]);
        let exp: Vec<u32> = packed(d, bits).into_iter().map(|v| v as u32).collect();
        let got: Vec<u32> = vc::PortArbitrationTable::new(d, bits).take(3000).map(ecaps::entry_value).collect();
        ck.eq(CONTENT, "port arbitration table from bytes", &got, &exp);
        let got: Vec<u32> = mfvc::FunctionArbitrationTable::new(d, bits).take(3000).map(ecaps::entry_value).collect();
        ck.eq(CONTENT, "function arbitration table from bytes", &got, &exp);
        let n = rng.below(12);
        let got: Vec<_> = vc::ExtendedVirtualChannels::new(d, n as u8).take(300).collect();
        ck.eq(CONTENT, "number of VC resources from bytes", &got.len(), &(n + 1).min(d.len() / 12));
        for (i, g) in got.iter().enumerate() {
            let a: [u8; 12] = d[12 * i..12 * i + 12].try_into().unwrap();
            let (c, t) = (r32(&a, 0), r32(&a, 4));
            let k = g.as_ref().map(|g| {
                let (p, q) = (&g.vc_resource_capability, &g.vc_resource_control);
                (p.maximum_time_slots as u32, p.port_arbitration_table_offset as u32, q.tc_or_vc_map as u32, q.vc_id as u32, q.vc_enable)
            });
            ck.eq(CONTENT, "VC resource from bytes", &k.ok(), &Some((f(c, 16, 7), f(c, 24, 8), f(t, 0, 8), f(t, 24, 3), b(t, 31))));
        }
    }
    if want(0x05) {
        let n = rng.below(5);
        let l = rcld::LinkEntries::new(d, n as u8);
        let st = if d.len() >= 16 * n {
            rcld::LinkEntriesState::Valid
        } else if d.len() % 16 == 0 {
            rcld::LinkEntriesState::Incomplete
        } else {
            rcld::LinkEntriesState::Invalid
        };
        ck.eq(CONTENT, "link entries state from bytes", &l.state, &st);
        let got: Vec<_> = l.take(300).collect();
        ck.eq(CONTENT, "number of link entries from bytes", &got.len(), &n.min(d.len() / 16));
        for (i, g) in got.iter().enumerate() {
            let o = 16 * i;
            let l = r32(d, o);
            ck.eq(CONTENT, "link entry from bytes", &(g.link_description.link_type as u32, g.link_description.target_component_id as u32), &(f(l, 1, 1), f(l, 16, 8)));
            ck.eq(CONTENT, "link address from bytes", &g.link_address, &ecaps_rc::link_address(b(l, 1), r32(d, o + 8), r32(d, o + 12)));
        }
    }
    if want(0x03) || want(0x05) {
        let g = rcld::DeviceSerialNumber::try_from(d).map(|x| (x.lower_dword, x.upper_dword)).ok();
        ck.eq(CONTENT, "serial number from bytes", &g, &(d.len() >= 8).then(|| (r32(d, 0), r32(d, 4))));
        let g = dsn::DeviceSerialNumber::try_from(d).map(|x| (x.lower_dword, x.upper_dword)).ok();
        ck.eq(CONTENT, "serial number from bytes", &g, &(d.len() >= 8).then(|| (r32(d, 0), r32(d, 4))));
    }
    if want(0x1a) {
        let got: Vec<_> = pmux::PmuxProtocolArray::new(d).take(300).map(|e| (e.protocol_id as u32, e.authority_id as u32)).collect();
        let exp: Vec<_> = d.chunks_exact(4).map(|c| (r16(c, 0), r16(c, 2))).collect();
        ck.eq(CONTENT, "PMUX protocols from bytes", &got, &exp);
    }
    if want(0x19) {
        let got: Vec<String> = sec::EqualizationControlLanes::new(d).take(300).map(|l| ecaps::lane_got(&l)).collect();
        let exp: Vec<String> = d.chunks_exact(2).map(|c| ecaps::lane_text(r16(c, 0))).collect();
        ck.eq(CONTENT, "lanes from bytes", &got, &exp);
    }
    if want(0x23) {
        let d = slice(ecs, &mut rng, 120);
        let id = match rng.below(6) {
            0 => rng.u32() as u16,
            1 | 2 => rng.below(13) as u16,
            _ => 0,
        };
        match ComputeExpressLink::try_new(d, id) {
            Ok(c) => {
                ck.ok(CONTENT, id != 0 || d.len() >= 46, || format!("CXL device structure from {} bytes", d.len()));
                if id != 0 || d.len() >= 46 {
                    cxl::cxl_value(ck, &c, id as u32, d);
                }
            }
            Err(e) => ck.ok(CONTENT, id == 0 && d.len() < 46, || format!("no CXL structure {id:#x} from {} bytes: {e:?}", d.len())),
        }
    }
    if want(0x1d) {
        let v = rng.u64();
        let (r, x) = (v as u32 & 3, (v >> 8) as u32 & 3);
        ck.eq(CONTENT, "DPC trigger reason from parts", &dpc::DpcTriggerReason::new(r as u8, x as u8), &ecaps::dpc_reason(r, x));
    }
}
/// a generator on a quarter of the images, the same for equal images
fn pick(d: &[u8]) -> Option<Rng> {
    let mut s = d.len() as u64;
    for b in d.iter().take(48) {
        s = (s ^ *b as u64).wrapping_mul(0x100_0000_01b3);
    }
    (d.len() > 4 && s >> 24 & 3 == 0).then(|| Rng::new(s))
}
fn slice<'a>(d: &'a [u8], rng: &mut Rng, max: usize) -> &'a [u8] {
    let a = rng.below(12.min(d.len()));
    let n = rng.below(max.min(d.len() - a) + 1);
    &d[a..a + n]
}
