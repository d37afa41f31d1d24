use super::caps::Got;
use super::*;
use crate::engine::*;
use pcics::capabilities::hypertransport::*;
use pcics::capabilities::*;

fn link_control(v: u32) -> LinkControl {
    LinkControl {
        source_id_enable: b(v, 0),
        crc_flood_enable: b(v, 1),
        crc_start_test: b(v, 2),
        crc_force_error: b(v, 3),
        link_failure: b(v, 4),
        initialization_complete: b(v, 5),
        end_of_chain: b(v, 6),
        transmitter_off: b(v, 7),
        crc_error: f8(v, 8, 4),
        isochronous_flow_control_enable: b(v, 12),
        ldtstop_tristate_enable: b(v, 13),
        extended_ctl_time: b(v, 14),
        enable_64_bit_addressing: b(v, 15),
    }
}
fn width(v: u32) -> LinkWidth {
    match v {
        0 => LinkWidth::Width8bits,
        1 => LinkWidth::Width16bits,
        3 => LinkWidth::Width32bits,
        4 => LinkWidth::Width2bits,
        5 => LinkWidth::Width4bits,
        7 => LinkWidth::NotConnected,
        v => LinkWidth::Reserved(v as u8),
    }
}
fn link_config(v: u32) -> LinkConfiguration {
    LinkConfiguration {
        max_link_width_in: width(f(v, 0, 3)),
        doubleword_flow_control_in: b(v, 3),
        max_link_width_out: width(f(v, 4, 3)),
        doubleword_flow_control_out: b(v, 7),
        link_width_in: width(f(v, 8, 3)),
        doubleword_flow_control_in_enable: b(v, 11),
        link_width_out: width(f(v, 12, 3)),
        doubleword_flow_control_out_enable: b(v, 15),
    }
}
fn rev(v: u32) -> RevisionId {
    RevisionId { minor: f8(v, 0, 5), major: f8(v, 5, 3) }
}
fn link_error(v: u32) -> LinkError {
    LinkError { protocol_error: b(v, 4), overflow_error: b(v, 5), end_of_chain_error: b(v, 6), ctl_timeout: b(v, 7) }
}
fn freq_cap(v: u32) -> LinkFrequencyCapability {
    LinkFrequencyCapability {
        supports_200mhz: b(v, 0),
        supports_300mhz: b(v, 1),
        supports_400mhz: b(v, 2),
        supports_500mhz: b(v, 3),
        supports_600mhz: b(v, 4),
        supports_800mhz: b(v, 5),
        supports_1000mhz: b(v, 6),
        supports_1200mhz: b(v, 7),
        supports_1400mhz: b(v, 8),
        supports_1600mhz: b(v, 9),
        supports_1800mhz: b(v, 10),
        supports_2000mhz: b(v, 11),
        supports_2200mhz: b(v, 12),
        supports_2400mhz: b(v, 13),
        supports_2600mhz: b(v, 14),
        supports_vendor_specific: b(v, 15),
    }
}
fn feature(v: u32) -> FeatureCapability {
    FeatureCapability {
        isochronous_flow_control_mode: b(v, 0),
        ldtstop: b(v, 1),
        crc_test_mode: b(v, 2),
        extended_ctl_time_required: b(v, 3),
        qword_addressing: b(v, 4),
        unitid_reorder_disable: b(v, 5),
        source_identification_extension: b(v, 6),
        extended_register_set: b(v, 8),
        upstream_configuration_enable: b(v, 9),
    }
}
fn error_handling(v: u32) -> ErrorHandling {
    ErrorHandling {
        protocol_error_flood_enable: b(v, 0),
        overflow_error_flood_enable: b(v, 1),
        protocol_error_fatal_enable: b(v, 2),
        overflow_error_fatal_enable: b(v, 3),
        end_of_chain_error_fatal_enable: b(v, 4),
        response_error_fatal_enable: b(v, 5),
        crc_error_fatal_enable: b(v, 6),
        system_error_fatal_enable: b(v, 7),
        chain_fail: b(v, 8),
        response_error: b(v, 9),
        protocol_error_nonfatal_enable: b(v, 10),
        overflow_error_nonfatal_enable: b(v, 11),
        end_of_chain_error_nonfatal_enable: b(v, 12),
        response_error_nonfatal_enable: b(v, 13),
        crc_error_nonfatal_enable: b(v, 14),
        system_error_nonfatal_enable: b(v, 15),
    }
}
/// HyperTransport link frequency in MHz terms
fn freq(ext: bool, v: u32) -> LinkFrequency {
    use LinkFrequency as F;
    if ext {
        return match v {
            1 => F::Rate2800MHz,
            2 => F::Rate3000MHz,
            3 => F::Rate3200MHz,
            v => F::Reserved(0x10 | v as u8),
        };
    }
    match v {
        0 => F::Rate200MHz,
        1 => F::Rate300MHz,
        2 => F::Rate400MHz,
        3 => F::Rate500MHz,
        4 => F::Rate600MHz,
        5 => F::Rate800MHz,
        6 => F::Rate1000MHz,
        7 => F::Rate1200MHz,
        8 => F::Rate1400MHz,
        9 => F::Rate1600MHz,
        10 => F::Rate1800MHz,
        11 => F::Rate2000MHz,
        12 => F::Rate2200MHz,
        13 => F::Rate2400MHz,
        14 => F::Rate2600MHz,
        _ => F::VendorSpecific,
    }
}

pub fn check(ck: &mut Ck, got: &Got, ptr: u8, d: &[u8], exact_err: fn(&mut Ck, &Got, CapabilityError, String)) {
    let e = |s: HypertransportError| {
        let t = format!("[{ptr:02x}] HyperTransport: {s:?}");
        (CapabilityError::Hypertransport { ptr, source: s }, t)
    };
    let cmd = if d.len() >= 4 { r16(d, 2) } else { 0 };
    let ty = f(cmd, 11, 5);
    let miss = match ty {
        _ if d.len() < 4 => Some(HypertransportError::CapabilityType),
        0..=3 if d.len() < 28 => Some(HypertransportError::SlaveOrPrimaryInterface),
        4..=7 if d.len() < 24 => Some(HypertransportError::HostOrSecondaryInterface),
        0b10101 if d.len() < 12 => Some(HypertransportError::MsiMapping),
        _ => None,
    };
    if let Some(m) = miss {
        let (e, t) = e(m);
        return exact_err(ck, got, e, t);
    }
    let x = match got {
        Ok(Capability { kind: CapabilityKind::Hypertransport(x), .. }) => x,
        o => return ck.ok(CONTENT | SHAPE | KIND | ERRTXT, false, || format!("HyperTransport expected, got {o:?}")),
    };
    let ex = match ty {
        0..=3 => Hypertransport::SlaveOrPrimaryInterface(SlaveOrPrimaryInterface {
            command: SlaveOrPrimaryCommand {
                base_unitid: f8(cmd, 0, 5),
                unit_count: f8(cmd, 5, 5),
                master_host: b(cmd, 10),
                default_direction: b(cmd, 11),
                drop_on_uninitialized_link: b(cmd, 12),
            },
            link_control_0: link_control(r16(d, 0x04)),
            link_config_0: link_config(r16(d, 0x06)),
            link_control_1: link_control(r16(d, 0x08)),
            link_config_1: link_config(r16(d, 0x0a)),
            revision_id: rev(r8(d, 0x0c)),
            link_freq_0: f8(r8(d, 0x0d), 0, 4),
            link_error_0: link_error(r8(d, 0x0d)),
            link_freq_cap_0: freq_cap(r16(d, 0x0e)),
            feature: feature(r8(d, 0x10)),
            link_freq_1: f8(r8(d, 0x11), 0, 4),
            link_error_1: link_error(r8(d, 0x11)),
            link_freq_cap_1: freq_cap(r16(d, 0x12)),
            enumeration_scratchpad: r16(d, 0x14) as u16,
            error_handling: error_handling(r16(d, 0x16)),
            mem_base_upper: d[0x18],
            mem_limit_upper: d[0x19],
            bus_number: d[0x1a],
        }),
        4..=7 => Hypertransport::HostOrSecondaryInterface(HostOrSecondaryInterface {
            command: HostOrSecondaryCommand {
                warm_reset: b(cmd, 0),
                double_ended: b(cmd, 1),
                device_number: f8(cmd, 2, 5),
                chain_side: b(cmd, 7),
                host_hide: b(cmd, 8),
                act_as_slave: b(cmd, 10),
                host_inbound_end_of_chain_error: b(cmd, 11),
                drop_on_uninitialized_link: b(cmd, 12),
            },
            link_control: link_control(r16(d, 0x04)),
            link_config: link_config(r16(d, 0x06)),
            revision_id: rev(r8(d, 0x08)),
            link_freq: f8(r8(d, 0x09), 0, 4),
            link_error: link_error(r8(d, 0x09)),
            link_freq_cap: freq_cap(r16(d, 0x0a)),
            feature: feature(r16(d, 0x0c)),
            enumeration_scratchpad: r16(d, 0x10) as u16,
            error_handling: error_handling(r16(d, 0x12)),
            mem_base_upper: d[0x14],
            mem_limit_upper: d[0x15],
        }),
        0b01000 => Hypertransport::Switch(Switch {}),
        0b01001 => Hypertransport::ReservedHost(ReservedHost {}),
        0b10000 => Hypertransport::InterruptDiscoveryAndConfiguration(InterruptDiscoveryAndConfiguration {}),
        0b10001 => Hypertransport::RevisionId(rev(r8(d, 2))),
        0b10010 => Hypertransport::UnitIdClumping(UnitIdClumping {}),
        0b10011 => Hypertransport::ExtendedConfigurationSpaceAccess(ExtendedConfigurationSpaceAccess {}),
        0b10100 => Hypertransport::AddressMapping(AddressMapping {}),
        0b10101 => Hypertransport::MsiMapping(MsiMapping { enabled: b(cmd, 0), fixed: b(cmd, 1), base_address_lower: r32(d, 4), base_address_upper: r32(d, 8) }),
        0b10110 => Hypertransport::DirectRoute(DirectRoute {}),
        0b10111 => Hypertransport::VCSet(VCSet {}),
        0b11000 => Hypertransport::RetryMode(RetryMode {}),
        0b11001 => Hypertransport::X86Encoding(X86Encoding {}),
        0b11010 => Hypertransport::Gen3(Gen3 {}),
        0b11011 => Hypertransport::FunctionLevelExtension(FunctionLevelExtension {}),
        0b11100 => Hypertransport::PowerManagement(PowerManagement {}),
        0b11101 => Hypertransport::HighNodeCount(HighNodeCount {}),
        v => Hypertransport::Reserved(v as u8),
    };
    ck.eq(CONTENT, "HyperTransport", x, &ex);
    if ck.want(REENC) {
        let code = match ty {
            0..=3 => 0,
            4..=7 => 4,
            v => v as u8,
        };
        ck.eq(REENC, "HyperTransport type code", &u8::from(x), &code);
    }
    match x {
        Hypertransport::SlaveOrPrimaryInterface(i) => {
            if ck.want(REENC) {
                ck.eq(REENC, "HT revision", &u8::from(&i.revision_id), &d[0x0c]);
            }
            for ext in [false, true] {
                if ck.want(DERIVED) {
                    ck.eq(DERIVED, "HT link 0 frequency", &i.link_freq_0(ext), &freq(ext, f(r8(d, 0x0d), 0, 4)));
                    ck.eq(DERIVED, "HT link 1 frequency", &i.link_freq_1(ext), &freq(ext, f(r8(d, 0x11), 0, 4)));
                }
            }
        }
        Hypertransport::HostOrSecondaryInterface(i) => {
            if ck.want(REENC) {
                ck.eq(REENC, "HT revision", &u8::from(&i.revision_id), &d[0x08]);
            }
            for ext in [false, true] {
                if ck.want(DERIVED) {
                    ck.eq(DERIVED, "HT link frequency", &i.link_freq(ext), &freq(ext, f(r8(d, 0x09), 0, 4)));
                }
            }
        }
        Hypertransport::RevisionId(r) => {
            if ck.want(REENC) {
                ck.eq(REENC, "HT revision", &u8::from(r), &d[2]);
            }
        }
        Hypertransport::MsiMapping(m) => {
            if ck.want(DERIVED) {
                ck.eq(DERIVED, "HT MSI base", &m.base_address(), &(r64(d, 4) & !0xf_ffff));
            }
        }
        _ => (),
    }
}
