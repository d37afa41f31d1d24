//! Root complex capabilities, multicast and VSEC.
use super::caps_express::*;
use super::ecaps::*;
use super::*;
use crate::ekind;
use crate::engine::*;
use pcics::extended_capabilities::*;

pub fn link_address(config: bool, lo: u32, hi: u32) -> root_complex_link_declaration::LinkAddress {
    use root_complex_link_declaration::LinkAddress;
    let full = (hi as u64) << 32 | lo as u64;
    if !config {
        return LinkAddress::MemoryMappedSpace(full);
    }
    let n = match f(lo, 0, 3) {
        0 => 8,
        v => v,
    };
    LinkAddress::ConfigurationSpace {
        n: n as u8,
        reserved: f16(lo, 3, 9),
        function: f8(lo, 12, 3),
        device: f8(lo, 15, 5),
        bus: f8(lo, 20, n),
        address: full >> (20 + n) << (20 + n),
    }
}
pub fn rcld(ck: &mut Ck, got: &EGot, offset: u16, d: &[u8]) {
    use root_complex_link_declaration::*;
    use RootComplexLinkDeclarationError as E;
    let err = |s, t: &str| (ExtendedCapabilityError::RootComplexLinkDeclaration { offset, source: s }, format!("[{offset:03x}] Root Complex Link Declaration error: {t}"));
    if d.len() < 8 {
        let (e, t) = err(E::ElementSelfDescription, "can't read Element Self Description (4 bytes) from slice");
        return exact_err(ck, got, e, t);
    }
    let v = r32(d, 4);
    let n = f(v, 8, 8) as usize;
    let element_self_description = ElementSelfDescription {
        element_type: match f(v, 0, 4) {
            0 => ElementType::ConfigurationSpaceElement,
            1 => ElementType::SystemEgressPortOrInternalSink,
            2 => ElementType::InternalRootComplexLink,
            v => ElementType::Reserved(v as u8),
        },
        reserved: f8(v, 4, 4),
        number_of_link_entries: n as u8,
        component_id: f8(v, 16, 8),
        port_number: f8(v, 24, 8),
    };
    if n == 0 {
        let (e, t) = err(E::NumberOfLinkEntries { element_self_description }, "number of link entries must be > 1");
        return exact_err(ck, got, e, t);
    }
    if d.len() < 16 {
        let (e, t) = err(E::ReservedSpace { element_self_description }, "reserved space should be readable");
        return exact_err(ck, got, e, t);
    }
    if d.len() < 32 {
        let (e, t) = err(E::LinkEntry1 { element_self_description }, "there must be at least one LinkEntry");
        return exact_err(ck, got, e, t);
    }
    let x = ekind!(ck, got, RootComplexLinkDeclaration);
    ck.eq(CONTENT, "element self description", &x.element_self_description, &element_self_description);
    if ck.want(REENC) {
        ck.eq(REENC, "element type", &(u8::from(x.element_self_description.element_type.clone()) as u32), &f(v, 0, 4));
    }
    if !ck.want(CONTENT | REENC) {
        return;
    }
    let avail = d.len() - 16;
    let state = if avail >= n * 16 {
        LinkEntriesState::Valid
    } else if avail % 16 == 0 {
        LinkEntriesState::Incomplete
    } else {
        LinkEntriesState::Invalid
    };
    ck.eq(CONTENT, "link entries state", &x.link_entries.state, &state);
    let got: Vec<LinkEntry> = x.link_entries.clone().take(300).collect();
    let mut exp = Vec::new();
    for i in 0..n.min(avail / 16) {
        let o = 16 + 16 * i;
        let (l, lo, hi) = (r32(d, o), r32(d, o + 8), r32(d, o + 12));
        let link_address = link_address(b(l, 1), lo, hi);
        exp.push(LinkEntry {
            link_description: LinkDescription {
                link_valid: b(l, 0),
                link_type: f8(l, 1, 1),
                associate_rcrb_header: b(l, 2),
                target_component_id: f8(l, 16, 8),
                target_port_number: f8(l, 24, 8),
            },
            link_address,
        });
    }
    ck.eq(CONTENT, "link entries", &got, &exp);
    if ck.want(REENC) {
        for (i, g) in got.into_iter().enumerate().take(exp.len()) {
            let o = 16 + 16 * i;
            let dw: [u32; 2] = g.link_address.clone().into();
            ck.eq(REENC, "link address re-encoded", &dw, &[r32(d, o + 8), r32(d, o + 12)]);
            ck.eq(REENC, "link address again", &LinkAddress::new(g.link_description.link_type, dw[0], dw[1]), &g.link_address);
        }
    }
}

pub fn rcilc(ck: &mut Ck, x: &RootComplexInternalLinkControl, d: &[u8]) {
    use root_complex_internal_link_control::*;
    let (c, t, s) = (r32(d, 4), r16(d, 8), r16(d, 10));
    let e = RootComplexInternalLinkControl {
        root_complex_link_capabilities: RootComplexLinkCapabilities {
            max_link_speed: speed(f(c, 0, 4)),
            maximum_link_width: width(f(c, 4, 6)),
            active_state_power_management_support: aspm(f(c, 10, 2)),
            l0s_exit_latency: l0s_exit(f(c, 12, 3)),
            l1_exit_latency: l1_exit(f(c, 15, 3)),
            supported_link_speeds_vector: speeds_vector(f(c, 18, 7)),
        },
        root_complex_link_control: RootComplexLinkControl { active_state_power_management_control: aspm(f(t, 0, 2)), extended_synch: b(t, 7) },
        root_complex_link_status: RootComplexLinkStatus { current_link_speed: speed(f(s, 0, 4)), negotiated_link_width: width(f(s, 4, 6)) },
    };
    ck.eq(CONTENT, "RC internal link control", x, &e);
}

pub fn multicast(ck: &mut Ck, x: &Multicast, d: &[u8]) {
    use multicast::*;
    let (c, t) = (r16(d, 4), r16(d, 6));
    let e = Multicast {
        multicast_capability: MulticastCapability { mc_max_group: f8(c, 0, 6), mc_window_size_requested: f8(c, 8, 6), mc_ecrc_regeneration_supported: b(c, 15) },
        multicast_control: MulticastControl { mc_num_group: f8(t, 0, 6), mc_enable: b(t, 15) },
        mc_base_address: McBaseAddress { mc_index_position: d[8] & 0x3f, mc_base_address: r64(d, 8) & !0xfff },
        mc_receive: r64(d, 0x10),
        mc_block_all: r64(d, 0x18),
        mc_block_untranslated: r64(d, 0x20),
        mc_overlay_bar: (d.len() >= 0x30).then(|| McOverlayBar { mc_overlay_size: d[0x28] & 0x3f, mc_overlay_bar: r64(d, 0x28) & !0x3f }),
    };
    ck.eq(CONTENT, "multicast", x, &e);
}

pub fn vsec(ck: &mut Ck, x: &VendorSpecificExtendedCapability, d: &[u8]) {
    use vendor_specific_extended_capability::*;
    let h = r32(d, 4);
    let len = f(h, 20, 12) as usize;
    let e = VendorSpecificExtendedCapability {
        header: VsecHeader { vsec_id: f16(h, 0, 16), vsec_rev: f8(h, 16, 4), vsec_length: len as u16 },
        registers: if len < 8 {
            VsecRegisters::InvalidLength(len as u16)
        } else if len <= d.len() {
            VsecRegisters::Valid(&d[8..len])
        } else {
            VsecRegisters::Incomplete(&d[8..])
        },
    };
    ck.eq(CONTENT, "VSEC", x, &e);
}
