//! Conventional capabilities: reference decoder and comparison.
//! `d` always starts at the capability's id byte and runs to the end of the region.
use super::*;
use crate::engine::*;
use pcics::capabilities::*;

pub type Got<'a> = Result<Capability<'a>, CapabilityError>;

/// The library must report a "not enough data" error that names `name` and `size`.
fn data_err(ck: &mut Ck, got: &Got, ptr: u8, name: &str, size: usize) {
    ck.label("err");
    match got {
        Err(CapabilityError::Data { ptr: p, .. }) => {
            ck.eq(ERRTXT, "error position", p, &ptr);
            if ck.want(ERRTXT) {
                let t = got.as_ref().unwrap_err().to_string();
                ck.eq(ERRTXT, "error text", &t, &format!("[{ptr:02x}] {name} ({size} bytes) data read error"));
            }
        }
        o => ck.ok(if o.is_ok() { CONTENT | SHAPE | ERRTXT } else { ERRTXT }, false, || {
            format!("{name} at {ptr:#04x}: fewer than {size} body bytes must be a data error, got {o:?}")
        }),
    }
}
fn exact_err(ck: &mut Ck, got: &Got, exp: CapabilityError, text: String) {
    ck.label("err");
    match got {
        Ok(c) => ck.ok(CONTENT | SHAPE | ERRTXT, false, || format!("expected error {exp:?}, got Ok({c:?})")),
        Err(e) => {
            ck.eq(ERRTXT, "error", e, &exp);
            if ck.want(ERRTXT) {
                ck.eq(ERRTXT, "error text", &e.to_string(), &text);
            }
        }
    }
}
fn bad_kind(ck: &mut Ck, id: u8, k: &CapabilityKind) {
    ck.ok(KIND | CONTENT, false, || format!("capability id {id:#04x} reported as {k:?}"));
}

pub fn check_cap(ck: &mut Ck, got: &Got, ptr: u8, d: &[u8], hdr: &[u8]) {
    let id = d[0];
    let n = d.len() - 2;
    let is_bridge = hdr[0x0e] & 0x7f == 1;
    macro_rules! need {
        ($sz:expr, $name:expr) => {
            if n < $sz {
                return data_err(ck, got, ptr, $name, $sz);
            }
        };
    }
    macro_rules! body {
        ($var:ident) => {
            match got {
                Ok(c) => match &c.kind {
                    CapabilityKind::$var(x) => x,
                    k => return bad_kind(ck, id, k),
                },
                Err(e) => {
                    return ck.ok(CONTENT | SHAPE | KIND | ERRTXT, false, || {
                        format!("capability id {id:#04x} at {ptr:#04x} with {n} body bytes: unexpected error {e:?}")
                    })
                }
            }
        };
    }
    match id {
        0x01 => {
            need!(6, "Power Management Interface");
            let x = body!(PowerManagementInterface);
            pm(ck, x, d);
        }
        0x02 => {
            need!(10, "AGP");
            let x = body!(AcceleratedGraphicsPort);
            agp(ck, x, d);
        }
        0x03 => {
            need!(6, "Vital Product Data");
            let x = body!(VitalProductData);
            let e = VitalProductData { vpd_address: f16(r16(d, 2), 0, 15), transfer_completed: b(r16(d, 2), 15), vpd_data: r32(d, 4) };
            ck.eq(CONTENT, "VPD", x, &e);
        }
        0x04 => {
            need!(2, "Slot Identification");
            let x = body!(SlotIdentification);
            let v = r8(d, 2);
            let e = SlotIdentification {
                expansion_slot: slot_identification::ExpansionSlot { expansion_slots_provided: f8(v, 0, 5), first_in_chassis: b(v, 5) },
                chassis_number: d[3],
            };
            ck.eq(CONTENT, "slot identification", x, &e);
        }
        0x05 => {
            use message_signaled_interrups::*;
            let e = |s, t: &str| (CapabilityError::MessageSignaledInterrups { ptr, source: s }, format!("[{ptr:02x}] MSI error: {t}"));
            let miss = if n < 2 {
                Some(e(MessageSignaledInterrupsError::MessageControl, "MessageControl"))
            } else {
                let v = r16(d, 2);
                match (b(v, 7), b(v, 8)) {
                    (false, false) if n < 10 => Some(e(MessageSignaledInterrupsError::Size32bit, "Size32bit")),
                    (true, false) if n < 14 => Some(e(MessageSignaledInterrupsError::Size64bit, "Size64bit")),
                    (false, true) if n < 18 => Some(e(MessageSignaledInterrupsError::Size32bitPerVector, "Size32bitPerVector")),
                    (true, true) if n < 22 => Some(e(MessageSignaledInterrupsError::Size64bitPerVector, "Size64bitPerVector")),
                    _ => None,
                }
            };
            if let Some((e, t)) = miss {
                return exact_err(ck, got, e, t);
            }
            let x = body!(MessageSignaledInterrups);
            let v = r16(d, 2);
            let (wide, pvm) = (b(v, 7), b(v, 8));
            let o = if wide { 12 } else { 8 };
            let e = MessageSignaledInterrups {
                message_control: MessageControl {
                    msi_enable: b(v, 0),
                    multiple_message_capable: MultipleMessage(f8(v, 1, 3)),
                    multiple_message_enable: MultipleMessage(f8(v, 4, 3)),
                    a_64_bit_address_capable: wide,
                    per_vector_masking_capable: pvm,
                    extended_message_data_capable: b(v, 9),
                    extended_message_data_enable: b(v, 10),
                },
                message_address: if wide { MessageAddress::Qword(r64(d, 4)) } else { MessageAddress::Dword(r32(d, 4)) },
                message_data: r16(d, o) as u16,
                extended_message_data: r16(d, o + 2) as u16,
                mask_bits: pvm.then(|| r32(d, o + 4)),
                pending_bits: pvm.then(|| r32(d, o + 8)),
            };
            ck.eq(CONTENT, "MSI", x, &e);
            for (w, m, lo) in [("capable", &x.message_control.multiple_message_capable, 1), ("enable", &x.message_control.multiple_message_enable, 4)] {
                if ck.want(DERIVED) {
                    ck.eq(DERIVED, &format!("MSI vectors {w}"), &(m.number_of_vectors() as u32), &[1, 2, 4, 8, 16, 32, 64, 128][f(v, lo, 3) as usize]);
                }
            }
        }
        0x07 if is_bridge => pcix_bridge(ck, got, ptr, d),
        0x07 => pcix(ck, got, ptr, d),
        0x08 => caps_ht::check(ck, got, ptr, d, exact_err),
        0x09 => vendor(ck, got, ptr, d, hdr),
        0x0a => {
            need!(2, "Debug port");
            let x = body!(DebugPort);
            ck.eq(CONTENT, "debug port", x, &DebugPort { offset: f16(r16(d, 2), 0, 13), bar_number: f8(r16(d, 2), 13, 3) });
        }
        0x0d => {
            need!(6, "Bridge Subsystem Vendor ID");
            let x = body!(BridgeSubsystemVendorId);
            let e = BridgeSubsystemVendorId { reserved: r16(d, 2) as u16, subsystem_vendor_id: r16(d, 4) as u16, subsystem_id: r16(d, 6) as u16 };
            ck.eq(CONTENT, "bridge subsystem id", x, &e);
        }
        0x10 => caps_express::check(ck, got, ptr, d, exact_err),
        0x11 => {
            use msi_x::*;
            need!(10, "MSI-X");
            let x = body!(MsiX);
            let bir = |v: u32| match f(v, 0, 3) {
                0 => Bir::Bar10h,
                1 => Bir::Bar14h,
                2 => Bir::Bar18h,
                3 => Bir::Bar1Ch,
                4 => Bir::Bar20h,
                5 => Bir::Bar24h,
                v => Bir::Reserved(v as u8),
            };
            let (c, t, p) = (r16(d, 2), r32(d, 4), r32(d, 8));
            let e = MsiX {
                message_control: MessageControl { table_size: f16(c, 0, 11), function_mask: b(c, 14), msi_x_enable: b(c, 15) },
                table: Table { bir: bir(t), offset: t & !7 },
                pending_bit_array: PendingBitArray { bir: bir(p), offset: p & !7 },
            };
            ck.eq(CONTENT, "MSI-X", x, &e);
        }
        0x12 => {
            use sata::*;
            need!(6, "Serial ATA");
            let x = body!(Sata);
            let v = r32(d, 4);
            let e = Sata {
                revision: Revision { minor: f8(r8(d, 2), 0, 4), major: f8(r8(d, 2), 4, 4) },
                bar_offset: BarOffset(f(v, 4, 20)),
                bar_location: match f(v, 0, 4) {
                    4 => BarLocation::Bar0,
                    5 => BarLocation::Bar1,
                    6 => BarLocation::Bar2,
                    7 => BarLocation::Bar3,
                    8 => BarLocation::Bar4,
                    9 => BarLocation::Bar5,
                    15 => BarLocation::SataCapability1,
                    v => BarLocation::Reserved(v as u8),
                },
            };
            ck.eq(CONTENT, "SATA", x, &e);
            if ck.want(DERIVED) {
                ck.eq(DERIVED, "SATA BAR offset", &x.bar_offset.value(), &(f(v, 4, 20) << 2));
            }
        }
        0x13 => {
            use advanced_features::*;
            need!(4, "Advanced Features");
            let x = body!(AdvancedFeatures);
            let e = AdvancedFeatures {
                length: d[2],
                capabilities: Capabilities { transactions_pending: b(r8(d, 3), 0), function_level_reset: b(r8(d, 3), 1) },
                control: Control { initiate_flr: b(r8(d, 4), 0) },
                status: Status { transactions_pending: b(r8(d, 5), 0) },
            };
            ck.eq(CONTENT, "advanced features", x, &e);
        }
        0x14 => ea(ck, got, ptr, d, is_bridge),
        0x15 => {
            need!(34, "Flattening Portal Bridge");
            let x = body!(FlatteningPortalBridge);
            fpb(ck, x, d);
        }
        _ => {
            let k = match got {
                Ok(c) => &c.kind,
                Err(e) => return ck.ok(CONTENT | SHAPE | KIND | ERRTXT, false, || format!("id {id:#04x}: unexpected error {e:?}")),
            };
            use CapabilityKind as K;
            let e = match id {
                0x00 => K::NullCapability,
                0x06 => K::CompactPciHotSwap(CompactPciHotSwap),
                0x0b => K::CompactPciResourceControl(CompactPciResourceControl),
                0x0c => K::PciHotPlug(PciHotPlug),
                0x0e => K::Agp8x(Agp8x),
                0x0f => K::SecureDevice(SecureDevice),
                v => K::Reserved(v),
            };
            ck.eq(CONTENT | KIND, "capability kind", k, &e);
        }
    }
}

fn pm(ck: &mut Ck, x: &PowerManagementInterface, d: &[u8]) {
    use power_management_interface::*;
    let (c, s, br) = (r16(d, 2), r16(d, 4), r8(d, 6));
    let e = PowerManagementInterface {
        capabilities: Capabilities {
            version: f8(c, 0, 3),
            pme_clock: b(c, 3),
            immediate_readiness_on_return_to_d0: b(c, 4),
            device_specific_initialization: b(c, 5),
            aux_current: [
                AuxCurrent::SelfPowered,
                AuxCurrent::MaxCurrent55mA,
                AuxCurrent::MaxCurrent100mA,
                AuxCurrent::MaxCurrent160mA,
                AuxCurrent::MaxCurrent220mA,
                AuxCurrent::MaxCurrent270mA,
                AuxCurrent::MaxCurrent320mA,
                AuxCurrent::MaxCurrent375mA,
            ][f(c, 6, 3) as usize],
            d1_support: b(c, 9),
            d2_support: b(c, 10),
            pme_support: PmeSupport { d0: b(c, 11), d1: b(c, 12), d2: b(c, 13), d3_hot: b(c, 14), d3_cold: b(c, 15) },
        },
        control: Control {
            power_state: [PowerState::D0, PowerState::D1, PowerState::D2, PowerState::D3Hot][f(s, 0, 2) as usize],
            no_soft_reset: b(s, 3),
            pme_enabled: b(s, 8),
            data_select: match f(s, 9, 4) {
                0 => DataSelect::PowerConsumedD0,
                1 => DataSelect::PowerConsumedD1,
                2 => DataSelect::PowerConsumedD2,
                3 => DataSelect::PowerConsumedD3,
                4 => DataSelect::PowerDissipatedD0,
                5 => DataSelect::PowerDissipatedD1,
                6 => DataSelect::PowerDissipatedD2,
                7 => DataSelect::PowerDissipatedD3,
                8 => DataSelect::CommonLogic,
                v => DataSelect::Reserved(v as u8),
            },
            data_scale: [DataScale::Unknown, DataScale::Tenth, DataScale::Hundredth, DataScale::Thousandth][f(s, 13, 2) as usize],
            pme_status: b(s, 15),
        },
        bridge: Bridge { reserved: f8(br, 0, 6), b2_b3: b(br, 6), bpcc_enabled: b(br, 7) },
        data: d[7],
    };
    ck.eq(CONTENT, "power management", x, &e);
    if ck.want(DERIVED) {
        let ed = (d[7] != 0).then(|| Data { value: d[7], select: e.control.data_select, scale: e.control.data_scale });
        ck.eq(DERIVED, "power management data()", &x.data(), &ed);
    }
    if ck.want(REENC) {
        ck.eq(REENC, "data select", &(u8::from(x.control.data_select) as u32), &f(s, 9, 4));
        ck.eq(REENC, "data select again", &DataSelect::from(u8::from(x.control.data_select)), &x.control.data_select);
    }
}

fn agp(ck: &mut Ck, x: &AcceleratedGraphicsPort, d: &[u8]) {
    use accelerated_graphics_port::*;
    let (i, s, c) = (r16(d, 2), r32(d, 4), r32(d, 8));
    let has = |o: usize, n: usize| d.len() >= o + n;
    let cal = |v: u32| match v {
        0 => CalCycle::Period4ms,
        1 => CalCycle::Period16ms,
        2 => CalCycle::Period64ms,
        3 => CalCycle::Period256ms,
        7 => CalCycle::CalibrationCycleNotNeeded,
        v => CalCycle::Reserved(v as u8),
    };
    let isoch = b(s, 17);
    let e = AcceleratedGraphicsPort {
        identifier: Identifier { minor: f8(i, 0, 4), major: f8(i, 4, 4) },
        status: Status {
            rq: f8(s, 24, 8),
            isoch_support: isoch,
            reserved: b(s, 16),
            arqsz: f8(s, 13, 3),
            cal_cycle: cal(f(s, 10, 3)),
            sba: b(s, 9),
            ita_coh: b(s, 8),
            gart64b: b(s, 7),
            htrans: b(s, 6),
            over4g: b(s, 5),
            fw: b(s, 4),
            agp_3_0_mode: b(s, 3),
            rate: match f(s, 0, 3) {
                1 => DataRateSupport::Speed4x,
                2 => DataRateSupport::Speed8x,
                3 => DataRateSupport::Speed4xAnd8x,
                v => DataRateSupport::Reserved(v as u8),
            },
        },
        command: Command {
            prq: f8(c, 24, 8),
            parqsz: f8(c, 13, 3),
            pcal_cycle: cal(f(c, 10, 3)),
            sba_enable: b(c, 9),
            agp_enable: b(c, 8),
            gart64b: b(c, 7),
            over4g: b(c, 5),
            fw_enable: b(c, 4),
            drate: match f(c, 0, 3) {
                1 => DataRateEnabled::Speed4x,
                2 => DataRateEnabled::Speed8x,
                v => DataRateEnabled::Reserved(v as u8),
            },
        },
        isochronous_status: (isoch && has(0x0c, 4)).then(|| {
            let v = r32(d, 0x0c);
            IsochronousStatus { maxbw: f8(v, 16, 8), isoch_n: f8(v, 8, 8), isoch_y: IsochY(f8(v, 6, 2)), isoch_l: f8(v, 3, 3), isoch_error_code: IsochErrorCode(f8(v, 0, 2)) }
        }),
        control: has(0x10, 4).then(|| {
            let v = r32(d, 0x10);
            Control { cal_cycle_dis: b(v, 9), aperenb: b(v, 8), gtlben: b(v, 7) }
        }),
        aperture_size: has(0x14, 2).then(|| ApertureSize(r16(d, 0x14) as u16)),
        enabled_aperture_page_size: has(0x16, 2).then(|| EnabledAperturePageSize(r16(d, 0x16) as u16)),
        gart_pointer: has(0x18, 4).then(|| GartPointer { gartlo: r32(d, 0x18), garthi: if has(0x1c, 4) { r32(d, 0x1c) } else { 0 } }),
        isochronous_command: (isoch && has(0x20, 2)).then(|| {
            let v = r16(d, 0x20);
            IsochronousCommand { pisoch_n: f8(v, 8, 8), pisoch_y: f8(v, 6, 2) }
        }),
    };
    ck.eq(CONTENT, "AGP", x, &e);
    if ck.want(REENC) {
        ck.eq(REENC, "AGP status cal cycle", &(u8::from(x.status.cal_cycle) as u32), &f(s, 10, 3));
        ck.eq(REENC, "AGP command cal cycle", &(u8::from(x.command.pcal_cycle) as u32), &f(c, 10, 3));
        ck.eq(REENC, "AGP rate", &(u8::from(x.status.rate) as u32), &f(s, 0, 3));
        ck.eq(REENC, "AGP drate", &(u8::from(x.command.drate) as u32), &f(c, 0, 3));
    }
}

fn ecc(d: &[u8], o: usize, ver: u32) -> pci_x::Ecc {
    use pci_x::*;
    let cs = |v: u32| EccControlAndStatus {
        select_secondary_ecc_registers: b(v, 0),
        error_present_in_other_ecc_register_bank: b(v, 1),
        additional_correctable_ecc_error: b(v, 2),
        additional_uncorrectable_ecc_error: b(v, 3),
        ecc_error_phase: [
            EccErrorPhase::NoError,
            EccErrorPhase::First32bits,
            EccErrorPhase::Second32bits,
            EccErrorPhase::AttributePhase,
            EccErrorPhase::Phase32or16bit,
            EccErrorPhase::Phase64bit,
            EccErrorPhase::Reserved,
            EccErrorPhase::Reserved,
        ][f(v, 4, 3) as usize],
        ecc_error_corrected: b(v, 7),
        syndrome: Syndrome { e0: b(v, 8), e1: b(v, 9), e2: b(v, 10), e3: b(v, 11), e4: b(v, 12), e5: b(v, 13), e6: b(v, 14), e7: b(v, 15) },
        error_first_command: f8(v, 16, 4),
        error_second_command: f8(v, 20, 4),
        error_upper_attributes: f8(v, 24, 4),
        ecc_control_update_enable: b(v, 28),
        disable_single_bit_error_correction: b(v, 30),
        ecc_mode: b(v, 31),
    };
    match ver {
        0 => Ecc::None,
        1 => Ecc::Mode2Only { control_and_status: cs(r32(d, o)), first_address: r32(d, o + 4), second_address: r32(d, o + 8), attribute: r32(d, o + 12) },
        2 => Ecc::Mode1OrMode2 { control_and_status: cs(r32(d, o)), first_address: r32(d, o + 4), second_address: r32(d, o + 8), attribute: r32(d, o + 12) },
        _ => Ecc::Reserved,
    }
}
fn pcix(ck: &mut Ck, got: &Got, ptr: u8, d: &[u8]) {
    use pci_x::*;
    let e = |s, t: &str| (CapabilityError::PciX { ptr, source: s }, format!("[{ptr:02x}] PCI-X error: {t}"));
    let ver = if d.len() >= 8 { f(r16(d, 2), 12, 2) } else { 0 };
    let miss = match ver {
        _ if d.len() < 8 => Some(e(PciXError::CommandAndStatus, "command and status registers are unreadable")),
        1 if d.len() < 24 => Some(e(PciXError::EccMode2Only, "Mode 2 ECC registres unreadable")),
        2 if d.len() < 24 => Some(e(PciXError::EccMode1OrMode2, "Mode 1/2 ECC registres unreadable")),
        _ => None,
    };
    if let Some((e, t)) = miss {
        return exact_err(ck, got, e, t);
    }
    let x = match got {
        Ok(Capability { kind: CapabilityKind::PciX(x), .. }) => x,
        o => return ck.ok(CONTENT | SHAPE | KIND | ERRTXT, false, || format!("PCI-X expected, got {o:?}")),
    };
    let (c, s) = (r16(d, 2), r32(d, 4));
    let ex = PciX {
        command: Command {
            uncorrectable_data_error_recovery_enable: b(c, 0),
            enable_relaxed_ordering: b(c, 1),
            maximum_memory_read_byte_count: MaximumByteCount(f8(c, 2, 2)),
            maximum_outstanding_split_transactions: MaximumOutstandingSplitTransactions(f8(c, 4, 3)),
        },
        status: Status {
            function_number: f8(s, 0, 3),
            device_number: f8(s, 3, 5),
            bus_number: f8(s, 8, 8),
            device_64_bit: b(s, 16),
            pci_x_133_capable: b(s, 17),
            slit_completion_discarded: b(s, 18),
            unexpected_split_completion: b(s, 19),
            device_complexity: if b(s, 20) { DeviceComplexity::Bridge } else { DeviceComplexity::Simple },
            designed_maximum_memory_read_byte_count: MaximumByteCount(f8(s, 21, 2)),
            designed_maximum_outstanding_split_transactions: MaximumOutstandingSplitTransactions(f8(s, 23, 3)),
            designed_maximum_cumulative_read_size: MaximumCumulativeReadSize(f8(s, 26, 3)),
            received_split_completion_error_message: b(s, 29),
            pci_x_266_capable: b(s, 30),
            pci_x_533_capable: b(s, 31),
        },
        ecc: ecc(d, 8, ver),
    };
    ck.eq(CONTENT, "PCI-X", x, &ex);
    if ck.want(DERIVED) {
        let bytes = [512usize, 1024, 2048, 4096];
        let splits = [1u8, 2, 3, 4, 8, 12, 16, 32];
        let cum = [1024usize, 2048, 4096, 8192, 16384, 32768, 65536, 131072];
        ck.eq(DERIVED, "PCI-X max read", &x.command.maximum_memory_read_byte_count.value(), &bytes[f(c, 2, 2) as usize]);
        ck.eq(DERIVED, "PCI-X max splits", &x.command.maximum_outstanding_split_transactions.value(), &splits[f(c, 4, 3) as usize]);
        ck.eq(DERIVED, "PCI-X designed max read", &x.status.designed_maximum_memory_read_byte_count.value(), &bytes[f(s, 21, 2) as usize]);
        ck.eq(DERIVED, "PCI-X designed max splits", &x.status.designed_maximum_outstanding_split_transactions.value(), &splits[f(s, 23, 3) as usize]);
        let q = &x.status.designed_maximum_cumulative_read_size;
        ck.eq(DERIVED, "PCI-X cumulative bytes", &q.bytes(), &cum[f(s, 26, 3) as usize]);
        ck.eq(DERIVED, "PCI-X cumulative ADQs", &q.adqs(), &(cum[f(s, 26, 3) as usize] / 128));
    }
}
fn pcix_bridge(ck: &mut Ck, got: &Got, ptr: u8, d: &[u8]) {
    use pci_x::*;
    let e = |s, t: &str| (CapabilityError::PciXBridge { ptr, source: s }, format!("[{ptr:02x}] PCI-X Bridge error: {t}"));
    let ver = if d.len() >= 16 { f(r16(d, 2), 12, 2) } else { 0 };
    let miss = match ver {
        _ if d.len() < 16 => Some(e(PciXBridgeError::Mandatory, "statuses and split trx control registers are unreadable")),
        1 if d.len() < 32 => Some(e(PciXBridgeError::BridgeEccMode2Only, "Mode 2 ECC registres unreadable")),
        2 if d.len() < 32 => Some(e(PciXBridgeError::BridgeEccMode1OrMode2, "Mode 1/2 ECC registres unreadable")),
        _ => None,
    };
    if let Some((e, t)) = miss {
        return exact_err(ck, got, e, t);
    }
    let x = match got {
        Ok(Capability { kind: CapabilityKind::PciXBridge(x), .. }) => x,
        o => return ck.ok(CONTENT | SHAPE | KIND | ERRTXT, false, || format!("PCI-X bridge expected, got {o:?}")),
    };
    let (c, s) = (r16(d, 2), r32(d, 4));
    let m = f(c, 6, 4);
    let ex = PciXBridge {
        secondary_status: SecondaryStatus {
            device_64_bit: b(c, 0),
            pci_x_133_capable: b(c, 1),
            slit_completion_discarded: b(c, 2),
            unexpected_split_completion: b(c, 3),
            split_completion_overrun: b(c, 4),
            split_request_delayed: b(c, 5),
            secondary_bus_mode: match m {
                0 => SecondaryBusMode::Conventional,
                1..=7 => SecondaryBusMode::Mode1,
                8..=11 => SecondaryBusMode::PciX266,
                _ => SecondaryBusMode::PciX533,
            },
            error_protection: if m < 4 { ErrorProtection::Parity } else { ErrorProtection::Ecc },
            secondary_bus_frequency: match (m, m & 3) {
                (0, _) => SecondaryBusFrequency::NotAvailable,
                (_, 1) => SecondaryBusFrequency::Freq66MHz,
                (_, 2) => SecondaryBusFrequency::Freq100MHz,
                (_, 3) => SecondaryBusFrequency::Freq133MHz,
                _ => SecondaryBusFrequency::Reserved,
            },
            pci_x_266_capable: b(c, 14),
            pci_x_533_capable: b(c, 15),
        },
        bridge_status: BridgeStatus {
            function_number: f8(s, 0, 3),
            device_number: f8(s, 3, 5),
            bus_number: f8(s, 8, 8),
            device_64_bit: b(s, 16),
            pci_x_133_capable: b(s, 17),
            slit_completion_discarded: b(s, 18),
            unexpected_split_completion: b(s, 19),
            split_completion_overrun: b(s, 20),
            split_request_delayed: b(s, 21),
            device_id_messaging_capable: b(s, 29),
            pci_x_266_capable: b(s, 30),
            pci_x_533_capable: b(s, 31),
        },
        upstream_split_transaction_control: SplitTransactionControl {
            split_transaction_capacity: r16(d, 8) as u16,
            split_transaction_commitment_limit: r16(d, 10) as u16,
        },
        downstream_split_transaction_control: SplitTransactionControl {
            split_transaction_capacity: r16(d, 12) as u16,
            split_transaction_commitment_limit: r16(d, 14) as u16,
        },
        ecc: ecc(d, 16, ver),
    };
    ck.eq(CONTENT, "PCI-X bridge", x, &ex);
    if ck.want(DERIVED | REENC) {
        ck.eq(DERIVED | REENC, "PCI-X bus mode and frequency", &(x.secondary_status.secondary_bus_mode_and_frequency() as u32), &m);
    }
}

fn vendor(ck: &mut Ck, got: &Got, ptr: u8, d: &[u8], hdr: &[u8]) {
    use vendor_specific::*;
    let e = |s, t: String| (CapabilityError::VendorSpecific { ptr, source: s }, format!("[{ptr:02x}] Vendor Specific error: {t}"));
    let (vid, did) = (r16(hdr, 0), r16(hdr, 2));
    let virtio = vid == 0x1af4 && (0x1000..=0x107f).contains(&did);
    if d.len() < 3 {
        let (e, t) = e(VendorSpecificError::LengthUnreadable, "length byte is unreadable".into());
        return exact_err(ck, got, e, t);
    }
    let l = d[2] as usize;
    if l < 2 {
        let (e, t) = e(VendorSpecificError::Length { val: l as u8 }, format!("length should be > 2, not {l}"));
        return exact_err(ck, got, e, t);
    }
    if l == 2 {
        // a length that does not even cover the length byte: some vendor specific error
        ck.label("err");
        return ck.ok(CONTENT | SHAPE | ERRTXT, matches!(got, Err(CapabilityError::VendorSpecific { ptr: p, .. }) if *p == ptr), || format!("length 2: got {got:?}"));
    }
    if d.len() < l {
        let (e, t) = e(VendorSpecificError::Data { size: l - 2 }, format!("unable to get {} bytes data", l - 2));
        return exact_err(ck, got, e, t);
    }
    let p = &d[3..l];
    if virtio && p.len() < 13 {
        let (e, t) = e(VendorSpecificError::Virtio, "Virtio size shold be > 12".into());
        return exact_err(ck, got, e, t);
    }
    let x = match got {
        Ok(Capability { kind: CapabilityKind::VendorSpecific(x), .. }) => x,
        o => return ck.ok(CONTENT | SHAPE | KIND | ERRTXT, false, || format!("vendor specific expected, got {o:?}")),
    };
    let ex = if virtio {
        VendorSpecific::Virtio(virtio_body(p))
    } else {
        VendorSpecific::Unspecified(p)
    };
    ck.eq(CONTENT, "vendor specific", x, &ex);
}

/// A virtio structure of at least 13 bytes behind the length byte.
pub fn virtio_body(p: &[u8]) -> pcics::capabilities::vendor_specific::Virtio {
    use pcics::capabilities::vendor_specific::Virtio;
    let (bar, offset, size) = (p[1], r32(p, 5), r32(p, 9));
    match p[0] {
        1 => Virtio::CommonCfg { bar, offset, size },
        2 => Virtio::Notify { bar, offset, size, multiplier: (p.len() >= 17).then(|| r32(p, 13)) },
        3 => Virtio::Isr { bar, offset, size },
        4 => Virtio::DeviceCfg { bar, offset, size },
        _ => Virtio::Unknown { bar, offset, size },
    }
}

/// Reference walk over Enhanced Allocation entries.
pub fn ea_entries(mut s: &[u8], count: usize) -> Vec<enhanced_allocation::EnhancedAllocationEntry> {
    use enhanced_allocation::*;
    let mut v = Vec::new();
    let bei = |n: u32| match n {
        0x0 => BarEquivalentIndicator::Location10h,
        0x1 => BarEquivalentIndicator::Location14h,
        0x2 => BarEquivalentIndicator::Location18h,
        0x3 => BarEquivalentIndicator::Location1Ch,
        0x4 => BarEquivalentIndicator::Location20h,
        0x5 => BarEquivalentIndicator::Location24h,
        0x6 => BarEquivalentIndicator::BehindType1Function,
        0x7 => BarEquivalentIndicator::EquivalentNotIndicated,
        0x8 => BarEquivalentIndicator::ExpansionRomBaseAddress,
        0x9 => BarEquivalentIndicator::VfBar0,
        0xa => BarEquivalentIndicator::VfBar1,
        0xb => BarEquivalentIndicator::VfBar2,
        0xc => BarEquivalentIndicator::VfBar3,
        0xd => BarEquivalentIndicator::VfBar4,
        0xe => BarEquivalentIndicator::VfBar5,
        _ => BarEquivalentIndicator::Reserved,
    };
    let prop = |n: u32| match n {
        0 => ResourceDefinition::MemorySpaceNonPrefetchable,
        1 => ResourceDefinition::MemorySpacePrefetchable,
        2 => ResourceDefinition::IoSpace,
        3 => ResourceDefinition::PfForVfMemorySpacePrefetchable,
        4 => ResourceDefinition::PfForVfMemorySpaceNonPrefetchable,
        5 => ResourceDefinition::Type1ForAbbMemoryNonPrefetchable,
        6 => ResourceDefinition::Type1ForAbbMemoryPrefetchable,
        7 => ResourceDefinition::Type1ForAbbIoSpace,
        0xfd => ResourceDefinition::UnavailableMemorySpace,
        0xfe => ResourceDefinition::UnavailableIoSpace,
        0xff => ResourceDefinition::Unavailable,
        v => ResourceDefinition::Reserved(v as u8),
    };
    for _ in 0..count {
        if s.len() < 12 {
            break;
        }
        let (h, bl, ml) = (r32(s, 0), r32(s, 4), r32(s, 8));
        let mut used = 12;
        let base = if b(bl, 1) {
            if s.len() < used + 4 {
                break;
            }
            used += 4;
            ResourceRangeAddress::U64((r32(s, used - 4) as u64) << 32 | (bl & !3) as u64)
        } else {
            ResourceRangeAddress::U32(bl & !3)
        };
        let max_offset = if b(ml, 1) {
            if s.len() < used + 4 {
                break;
            }
            used += 4;
            ResourceRangeAddress::U64((r32(s, used - 4) as u64) << 32 | (ml | 3) as u64)
        } else {
            ResourceRangeAddress::U32(ml | 3)
        };
        let step = if cfg!(feature = "ea_real") { used } else { 4 * (f(h, 0, 3) as usize + 1) };
        if s.len() < step {
            // the announced entry size runs past the supplied bytes: the list ends
            break;
        }
        s = &s[step..];
        v.push(EnhancedAllocationEntry {
            entry_size: f8(h, 0, 3),
            bar_equivalent_indicator: bei(f(h, 4, 4)),
            primary_properties: prop(f(h, 8, 8)),
            secondary_properties: prop(f(h, 16, 8)),
            writable: b(h, 30),
            enable: b(h, 31),
            base,
            max_offset,
        });
    }
    v
}
fn ea(ck: &mut Ck, got: &Got, ptr: u8, d: &[u8], is_bridge: bool) {
    use enhanced_allocation::*;
    let e = |s, t: &str| (CapabilityError::EnhancedAllocation { ptr, source: s }, format!("[{ptr:02x}] Enhanced Allocation error: {t}"));
    if d.len() < 4 {
        let (e, t) = e(EnhancedAllocationError::NumEntries, "number of entries is unreadable");
        return exact_err(ck, got, e, t);
    }
    if is_bridge && d.len() < 8 {
        let (e, t) = e(EnhancedAllocationError::Type1SecondDw, "second DW for Type 1 is unreadable");
        return exact_err(ck, got, e, t);
    }
    let x = match got {
        Ok(Capability { kind: CapabilityKind::EnhancedAllocation(x), .. }) => x,
        o => return ck.ok(CONTENT | SHAPE | KIND | ERRTXT, false, || format!("Enhanced Allocation expected, got {o:?}")),
    };
    let n = f(r8(d, 2), 0, 6) as usize;
    ck.eq(CONTENT, "EA entry count", &(x.num_entries as usize), &n);
    let second = is_bridge.then(|| Type1SecondDw { fixed_secondary_bus_number: d[4], fixed_subordinate_bus_number: d[5] });
    ck.eq(CONTENT, "EA bus numbers", &x.type_1_second_dw, &second);
    if ck.want(CONTENT) {
        let es: Vec<_> = x.entries.clone().take(70).collect();
        ck.eq(CONTENT, "EA entries", &es, &ea_entries(&d[if is_bridge { 8 } else { 4 }..], n));
    }
}

fn fpb(ck: &mut Ck, x: &FlatteningPortalBridge, d: &[u8]) {
    use flattening_portal_bridge::*;
    let (c, r1, r2, ml, h1, h2, va) = (r32(d, 4), r32(d, 8), r32(d, 12), r32(d, 16), r32(d, 20), r32(d, 24), r32(d, 28));
    let keep = |v: u64, low: u32| if low >= 64 { 0 } else { v >> low << low };
    let rg = f(r1, 4, 4);
    let lg = f(ml, 4, 4);
    let hg = f(h1, 4, 4);
    let e = FlatteningPortalBridge {
        reserved: r16(d, 2) as u16,
        fpb_capabilities: FpbCapabilities {
            fpb_rid_decode_mechanism_supported: b(c, 0),
            fpb_mem_low_decode_mechanism_supported: b(c, 1),
            fpb_mem_high_decode_mechanism_supported: b(c, 2),
            fpb_num_sec_dev: f8(c, 3, 5),
            fpb_rid_vector_size_supported: match f(c, 8, 3) {
                0 => FpbRidVectorSizeSupported::Size256bits,
                2 => FpbRidVectorSizeSupported::Size1Kbits,
                5 => FpbRidVectorSizeSupported::Size8kbits,
                v => FpbRidVectorSizeSupported::Reserved(v as u8),
            },
            fpb_mem_low_vector_size_supported: match f(c, 16, 3) {
                0 => FpbMemLowVectorSizeSupported::Size256bits,
                1 => FpbMemLowVectorSizeSupported::Size512bits,
                2 => FpbMemLowVectorSizeSupported::Size1Kbits,
                3 => FpbMemLowVectorSizeSupported::Size2Kbits,
                4 => FpbMemLowVectorSizeSupported::Size4Kbits,
                v => FpbMemLowVectorSizeSupported::Reserved(v as u8),
            },
            fpb_mem_high_vector_size_supported: match f(c, 24, 3) {
                0 => FpbMemHighVectorSizeSupported::Size256bits,
                1 => FpbMemHighVectorSizeSupported::Size512bits,
                2 => FpbMemHighVectorSizeSupported::Size1Kbits,
                3 => FpbMemHighVectorSizeSupported::Size2Kbits,
                4 => FpbMemHighVectorSizeSupported::Size4Kbits,
                5 => FpbMemHighVectorSizeSupported::Size8Kbits,
                v => FpbMemHighVectorSizeSupported::Reserved(v as u8),
            },
        },
        fpb_rid_vector_control: FpbRidVectorControl {
            fpb_rid_decode_mechanism_enable: b(r1, 0),
            fpb_rid_vector_granularity: match rg {
                0 => FpbRidVectorGranularity::Granularity8RIDs,
                3 => FpbRidVectorGranularity::Granularity64RIDs,
                5 => FpbRidVectorGranularity::Granularity256RIDs,
                v => FpbRidVectorGranularity::Reserved(v as u8),
            },
            // reserved granularities extend the alignment rule (as the documentation example shows)
            // while the alignment fits the register; beyond that the start is not pinned
            fpb_rid_vector_start: if rg <= 12 { keep((f(r1, 19, 13) << 3) as u64, 3 + rg) as u16 } else { x.fpb_rid_vector_control.fpb_rid_vector_start },
            rid_secondary_start: f16(r2, 3, 13),
        },
        fpb_mem_low_vector_control: FpbMemLowVectorControl {
            fpb_mem_low_decode_mechanism_enable: b(ml, 0),
            fpb_mem_low_vector_granularity: match lg {
                0 => FpbMemLowVectorGranularity::Granularity1MB,
                1 => FpbMemLowVectorGranularity::Granularity2MB,
                2 => FpbMemLowVectorGranularity::Granularity4MB,
                3 => FpbMemLowVectorGranularity::Granularity8MB,
                4 => FpbMemLowVectorGranularity::Granularity16MB,
                v => FpbMemLowVectorGranularity::Reserved(v as u8),
            },
            fpb_mem_low_vector_start: if lg <= 11 { keep((ml & 0xfff0_0000) as u64, 20 + lg) as u32 } else { x.fpb_mem_low_vector_control.fpb_mem_low_vector_start },
        },
        fpb_mem_high_vector_control: FpbMemHighVectorControl {
            fpb_mem_high_decode_mechanism_enable: b(h1, 0),
            fpb_mem_high_vector_granularity: match hg {
                0 => FpbMemHighVectorGranularity::Granularity256MB,
                1 => FpbMemHighVectorGranularity::Granularity512MB,
                2 => FpbMemHighVectorGranularity::Granularity1GB,
                3 => FpbMemHighVectorGranularity::Granularity2GB,
                4 => FpbMemHighVectorGranularity::Granularity4GB,
                5 => FpbMemHighVectorGranularity::Granularity8GB,
                6 => FpbMemHighVectorGranularity::Granularity16GB,
                7 => FpbMemHighVectorGranularity::Granularity32GB,
                v => FpbMemHighVectorGranularity::Reserved(v as u8),
            },
            fpb_mem_high_vector_start: keep((h2 as u64) << 32 | (h1 & 0xf000_0000) as u64, 28 + hg),
        },
        fpb_vector_access_control: FpbVectorAccessControl {
            fpb_vector_access_offset: f8(va, 0, 8),
            fpb_vector_select: [FpbVectorSelect::Rid, FpbVectorSelect::MemLow, FpbVectorSelect::MemHigh, FpbVectorSelect::Reserved][f(va, 14, 2) as usize].clone(),
        },
        fpb_vector_access_data: r32(d, 32),
    };
    ck.eq(CONTENT, "flattening portal bridge", x, &e);
}
