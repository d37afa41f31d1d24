//! Extended capabilities: reference decoder and comparison.
//! `d` always starts at the capability's header dword and runs to the end of the region.
use super::*;
use crate::engine::*;
use pcics::extended_capabilities::*;

pub type EGot<'a> = Result<ExtendedCapability<'a>, ExtendedCapabilityError>;

/// The library must report a "not enough data" error that names `name` and `size`.
pub fn data_err(ck: &mut Ck, got: &EGot, offset: u16, name: &str, size: usize) {
    ck.label("err");
    match got {
        Err(ExtendedCapabilityError::Data { offset: p, .. }) => {
            ck.eq(ERRTXT, "error position", p, &offset);
            if ck.want(ERRTXT) {
                let t = got.as_ref().unwrap_err().to_string();
                ck.eq(ERRTXT, "error text", &t, &format!("[{offset:03x}] {name} ({size} bytes) data read error"));
            }
        }
        o => ck.ok(if o.is_ok() { CONTENT | SHAPE | ERRTXT } else { ERRTXT }, false, || {
            format!("{name} at {offset:#05x}: not enough bytes ({size} wanted) must be a data error, got {o:?}")
        }),
    }
}
pub fn exact_err(ck: &mut Ck, got: &EGot, exp: ExtendedCapabilityError, text: String) {
    ck.label("err");
    match got {
        Ok(c) => ck.ok(CONTENT | SHAPE | ERRTXT, false, || format!("expected error {exp:?}, got Ok({c:?})")),
        Err(e) => {
            ck.eq(ERRTXT, "error", e, &exp);
            if ck.want(ERRTXT) {
                ck.eq(ERRTXT, "error text", &e.to_string(), &text);
            }
        }
    }
}
fn bad(ck: &mut Ck, id: u16, got: &EGot) {
    ck.ok(CONTENT | SHAPE | KIND | ERRTXT, false, || format!("extended capability id {id:#06x}: unexpected {got:?}"))
}

/// Unwraps the expected kind or records a failure.
#[macro_export]
macro_rules! ekind {
    ($ck:expr, $got:expr, $var:ident) => {
        match $got {
            Ok(ExtendedCapability { kind: ExtendedCapabilityKind::$var(x), .. }) => x,
            o => {
                let what = stringify!($var);
                return $ck.ok(CONTENT | SHAPE | KIND | ERRTXT, false, || format!("{what} expected, got {o:?}"));
            }
        }
    };
}

pub fn check_ecap(ck: &mut Ck, got: &EGot, offset: u16, d: &[u8]) {
    let id = r16(d, 0) as u16;
    let n = d.len() - 4;
    if let Ok(c) = got {
        ck.eq(CHAIN | CONTENT, "version", &(c.version as u32), &f(r32(d, 0), 16, 4));
        ck.eq(KIND, "id()", &c.id(), &id);
        if ck.want(KIND) {
            let h = ExtendedCapabilityHeader::from(r32(d, 0));
            ck.eq(KIND, "header fields", &(h.extended_capability_id, h.capability_version, h.next_capability_offset), &(id, f8(r32(d, 0), 16, 4), f16(r32(d, 0), 20, 12)));
        }
    }
    macro_rules! need {
        ($body:expr, $name:expr, $sz:expr) => {
            if n < $body {
                return data_err(ck, got, offset, $name, $sz);
            }
        };
    }
    match id {
        0x01 => aer(ck, got, offset, d),
        0x02 | 0x09 => ecaps_vc::vc(ck, got, offset, d),
        0x03 => {
            need!(8, "Device Serial Number", 8);
            let x = ekind!(ck, got, DeviceSerialNumber);
            ck.eq(CONTENT, "serial number", x, &DeviceSerialNumber { lower_dword: r32(d, 4), upper_dword: r32(d, 8) });
        }
        0x04 => {
            need!(12, "Power Budgeting", 12);
            let x = ekind!(ck, got, PowerBudgeting);
            pb(ck, x, d);
        }
        0x05 => ecaps_rc::rcld(ck, got, offset, d),
        0x06 => {
            need!(8, "Root Complex Internal Link Control", 8);
            let x = ekind!(ck, got, RootComplexInternalLinkControl);
            ecaps_rc::rcilc(ck, x, d);
        }
        0x07 => {
            need!(4, "Root Complex Event Collector Endpoint Association", 4);
            let x = ekind!(ck, got, RootComplexEventCollectorEndpointAssociation);
            ck.eq(CONTENT, "RCEC association", x, &RootComplexEventCollectorEndpointAssociation { association_bitmap_for_rcieps: r32(d, 4) });
        }
        0x08 => ecaps_vc::mfvc(ck, got, offset, d),
        0x0a => {
            use root_complex_register_block_header::*;
            need!(0x10, "RCRB Header", 0x14);
            let x = ekind!(ck, got, RootComplexRegisterBlockHeader);
            let e = RootComplexRegisterBlockHeader {
                vendor_id: r16(d, 4) as u16,
                device_id: r16(d, 6) as u16,
                rcrb_capabilities: RcrbCapabilities { crs_software_visibility: b(r32(d, 8), 0) },
                rcrb_control: RcrbControl { crs_software_visibility_enable: b(r32(d, 12), 0) },
            };
            ck.eq(CONTENT, "RCRB header", x, &e);
        }
        0x0b => {
            need!(4, "Vendor-Specific Extended Capability", 4);
            let x = ekind!(ck, got, VendorSpecificExtendedCapability);
            ecaps_rc::vsec(ck, x, d);
        }
        0x0c => {
            need!(4, "Configuration Access Correlation", 8);
            let x = ekind!(ck, got, ConfigurationAccessCorrelation);
            ck.eq(CONTENT, "configuration access correlation", x, &ConfigurationAccessCorrelation { device_correlation: r32(d, 4) });
        }
        0x0d => {
            need!(4, "Access Control Services", 4);
            let x = ekind!(ck, got, AccessControlServices);
            acs(ck, x, d);
        }
        0x0e => {
            use alternative_routing_id_interpolation::*;
            need!(4, "Alternative Routing-ID Interpretation", 4);
            let x = ekind!(ck, got, AlternativeRoutingIdInterpretation);
            let (c, t) = (r16(d, 4), r16(d, 6));
            let e = AlternativeRoutingIdInterpretation {
                ari_capability: AriCapability { mfvc_function_groups_capability: b(c, 0), acs_function_groups_capability: b(c, 1), next_function_number: f8(c, 8, 8) },
                ari_control: AriControl { mfvc_function_groups_enable: b(t, 0), acs_function_groups_enable: b(t, 1), function_group: f8(t, 4, 3) },
            };
            ck.eq(CONTENT, "ARI", x, &e);
        }
        0x0f => {
            use address_translation_services::*;
            need!(4, "Address Translation Services", 4);
            let x = ekind!(ck, got, AddressTranslationServices);
            let (c, t) = (r16(d, 4), r16(d, 6));
            let e = AddressTranslationServices {
                ats_capability: AtsCapability { invalidate_queue_depth: f8(c, 0, 5), page_aligned_request: b(c, 5), global_invalidate_supported: b(c, 6) },
                ats_control: AtsControl { smallest_translation_unit: f8(t, 0, 5), enable: b(t, 15) },
            };
            ck.eq(CONTENT, "ATS", x, &e);
        }
        0x10 => {
            need!(0x3c, "Single Root I/O Virtualization", 0x3c);
            let x = ekind!(ck, got, SingleRootIoVirtualization);
            sriov(ck, x, d);
        }
        0x12 => {
            need!(0x24, "Multicast", 0x30);
            let x = ekind!(ck, got, Multicast);
            ecaps_rc::multicast(ck, x, d);
        }
        0x13 => {
            use page_request_interface::*;
            need!(12, "Page Request Interface", 12);
            let x = ekind!(ck, got, PageRequestInterface);
            let (c, s) = (r16(d, 4), r16(d, 6));
            let e = PageRequestInterface {
                page_request_control: PageRequestControl { enable: b(c, 0), reset: b(c, 1) },
                page_request_status: PageRequestStatus {
                    response_failure: b(s, 0),
                    unexpected_page_request_group_index: b(s, 1),
                    stopped: b(s, 8),
                    prg_response_pasid_required: b(s, 15),
                },
                outstanding_page_request_capacity: r32(d, 8),
                outstanding_page_request_allocation: r32(d, 12),
            };
            ck.eq(CONTENT, "page request interface", x, &e);
        }
        0x15 | 0x24 => rbar(ck, got, offset, d),
        0x16 => dpa(ck, got, offset, d),
        0x17 => {
            need!(8, "TPH Requester", 8);
            let x = ekind!(ck, got, TphRequester);
            tph(ck, x, d);
        }
        0x18 => {
            use latency_tolerance_reporting::*;
            need!(4, "Latency Tolerance Reporting", 8);
            let x = ekind!(ck, got, LatencyToleranceReporting);
            let m = |v: u32| MaxLatency { value: f16(v, 0, 10), scale: f8(v, 10, 3) };
            let (s, ns) = (r16(d, 4), r16(d, 6));
            let e = LatencyToleranceReporting { max_snoop_latency: m(s), max_no_snoop_latency: m(ns) };
            ck.eq(CONTENT, "LTR", x, &e);
            for (l, v) in [(&x.max_snoop_latency, s), (&x.max_no_snoop_latency, ns)] {
                max_latency(ck, l, f(v, 0, 10), f(v, 10, 3));
                if ck.want(REENC) {
                    let w: u16 = l.clone().into();
                    ck.eq(REENC, "LTR latency re-encoded", &(w as u32), &f(v, 0, 13));
                    ck.eq(REENC, "LTR latency decoded again", &MaxLatency::from(w), l);
                }
            }
        }
        0x19 => {
            need!(8, "Secondary PCI Express", 8);
            let x = ekind!(ck, got, SecondaryPciExpress);
            secpcie(ck, x, d);
        }
        0x1a => pmux(ck, got, offset, d),
        0x1b => {
            use process_address_space_id::*;
            need!(4, "Process Address Space ID", 4);
            let x = ekind!(ck, got, ProcessAddressSpaceId);
            let (c, t) = (r16(d, 4), r16(d, 6));
            let e = ProcessAddressSpaceId {
                pacid_capability: PacidCapability { execute_permission_supported: b(c, 1), privileged_mode_supported: b(c, 2), max_pasid_width: f8(c, 8, 5) },
                pacid_control: PacidControl { pasid_enable: b(t, 0), execute_permission_enable: b(t, 1), privileged_mode_enable: b(t, 2) },
            };
            ck.eq(CONTENT, "PASID", x, &e);
        }
        0x1c => {
            use ln_requester::*;
            need!(4, "LN Requester", 8);
            let x = ekind!(ck, got, LnRequester);
            let (c, t) = (r16(d, 4), r16(d, 6));
            let e = LnRequester {
                lnr_capability: LnrCapability { lnr_64_supported: b(c, 0), lnr_128_supported: b(c, 1), lnr_registration_max: f8(c, 8, 5) },
                lnr_control: LnrControl { lnr_enable: b(t, 0), lnr_cls: b(t, 1), lnr_registration_limit: f8(t, 8, 5) },
            };
            ck.eq(CONTENT, "LN requester", x, &e);
        }
        0x1d => dpc(ck, got, offset, d),
        0x1e => {
            need!(12, "L1 PM Substates", 12);
            let x = ekind!(ck, got, L1PmSubstates);
            l1pm(ck, x, d);
        }
        0x1f => {
            use precision_time_measurement::*;
            need!(8, "Precision Time Measurement", 8);
            let x = ekind!(ck, got, PrecisionTimeMeasurement);
            let (c, t) = (r32(d, 4), r32(d, 8));
            let e = PrecisionTimeMeasurement {
                ptm_capability: PtmCapability { ptm_requester_capable: b(c, 0), ptm_responder_capable: b(c, 1), ptm_root_capable: b(c, 2), local_clock_granularity: f8(c, 8, 8) },
                ptm_control: PtmControl { ptm_enable: b(t, 0), root_select: b(t, 1), effective_granularity: f8(t, 8, 8) },
            };
            ck.eq(CONTENT, "PTM", x, &e);
        }
        0x20 => {
            need!(0x18, "M-PCIe", 0x1c);
            let x = ekind!(ck, got, PciExpressOverMphy);
            mpcie(ck, x, d);
        }
        0x21 => {
            use frs_queuing::*;
            need!(12, "FRS Queuing", 16);
            let x = ekind!(ck, got, FrsQueuing);
            let (c, s, t, q) = (r32(d, 4), r16(d, 8), r16(d, 10), r32(d, 12));
            let e = FrsQueuing {
                frs_queuing_capability: FrsQueuingCapability { frs_queue_max_depth: f16(c, 0, 12), frs_interrupt_message_number: f8(c, 16, 5) },
                frs_queuing_status: FrsQueuingStatus { frs_message_received: b(s, 0), frs_message_overflow: b(s, 1) },
                frs_queuing_control: FrsQueuingControl { frs_interrupt_enable: b(t, 0) },
                frs_message_queue: FrsMessageQueue {
                    frs_message_queue_function_id: f16(q, 0, 16),
                    frs_message_queue_reason: f8(q, 16, 4),
                    frs_message_queue_depth: f16(q, 20, 12),
                },
            };
            ck.eq(CONTENT, "FRS queuing", x, &e);
        }
        0x22 => {
            use readiness_time_reporting::*;
            need!(8, "Readiness Time Reporting", 12);
            let x = ekind!(ck, got, ReadinessTimeReporting);
            let (p, q) = (r32(d, 4), r32(d, 8));
            let t = |v: u32, o: u32| ReadinessTime { value: f16(v, o, 9), scale: f8(v, o + 9, 3) };
            let e = ReadinessTimeReporting { reset_time: t(p, 0), dl_up_time: t(p, 12), valid: b(p, 31), flr_time: t(q, 0), d3hot_to_d0_time: t(q, 12) };
            ck.eq(CONTENT, "readiness times", x, &e);
            for (l, v) in [(&x.reset_time, f(p, 0, 12)), (&x.dl_up_time, f(p, 12, 12)), (&x.flr_time, f(q, 0, 12)), (&x.d3hot_to_d0_time, f(q, 12, 12))] {
                if ck.want(DERIVED) {
                    let exp = f(v, 0, 9) as u64 * 32u64.pow(f(v, 9, 3));
                    ck.eq(DERIVED, "readiness time in ns", &l.actual_time_value(), &exp);
                }
            }
        }
        0x23 => cxl::dvsec(ck, got, offset, d),
        _ => {
            use ExtendedCapabilityKind as K;
            let k = match got {
                Ok(c) => &c.kind,
                o => return bad(ck, id, o),
            };
            let e = match id {
                0x00 => K::Null,
                0x11 => K::MultiRootIoVirtualization(MultiRootIoVirtualization),
                0x14 => K::ReservedForAmd(ReservedForAmd),
                0x25 => K::DataLinkFeature(DataLinkFeature),
                0x26 => K::PhysicalLayer16GTps(PhysicalLayer16GTps),
                0x27 => K::LaneMarginingAtTheReceiver(LaneMarginingAtTheReceiver),
                0x28 => K::HierarchyId(HierarchyId),
                0x29 => K::NativePcieEnclosureManagement(NativePcieEnclosureManagement),
                0x2a => K::PhysicalLayer32GTps(PhysicalLayer32GTps),
                0x2b => K::AlternateProtocol(AlternateProtocol),
                0x2c => K::SystemFirmwareIntermediary(SystemFirmwareIntermediary),
                0x2d => K::ShadowFunctions(ShadowFunctions),
                0x2e => K::DataObjectExchange(DataObjectExchange),
                0x2f => K::Device3(Device3),
                0x30 => K::IntegrityAndDataEncryption(IntegrityAndDataEncryption),
                0x31 => K::PhysicalLayer64GTps(PhysicalLayer64GTps),
                0x32 => K::FlitLogging(FlitLogging),
                0x33 => K::FlitPerformanceMeasurement(FlitPerformanceMeasurement),
                0x34 => K::FlitErrorInjection(FlitErrorInjection),
                v => K::Reserved(v),
            };
            ck.eq(CONTENT | KIND, "extended capability kind", k, &e);
        }
    }
}

fn dws(d: &[u8], o: usize) -> [u32; 4] {
    [r32(d, o), r32(d, o + 4), r32(d, o + 8), r32(d, o + 12)]
}

fn aer(ck: &mut Ck, got: &EGot, offset: u16, d: &[u8]) {
    use advanced_error_reporting::*;
    let e = |s, t: &str| (ExtendedCapabilityError::AdvancedErrorReporting { offset, source: s }, format!("[{offset:03x}] Advanced Error Reporting error: {t}"));
    if d.len() < 0x2c {
        let (e, t) = e(AdvancedErrorReportingError::Common, "can't read common registres");
        return exact_err(ck, got, e, t);
    }
    let c = r32(d, 0x18);
    if b(c, 11) && d.len() < 0x48 {
        let (e, t) = e(AdvancedErrorReportingError::TlpPrefixLog, "can't read TLP Prefix Log");
        return exact_err(ck, got, e, t);
    }
    let x = ekind!(ck, got, AdvancedErrorReporting);
    let unc = |v: u32| UncorrectableError {
        link_training_error: b(v, 0),
        data_link_protocol_error_status: b(v, 4),
        surprise_down_error_status: b(v, 5),
        poisoned_tlp_received_status: b(v, 12),
        flow_control_protocol_error_status: b(v, 13),
        completion_timeout_status: b(v, 14),
        completer_abort_status: b(v, 15),
        unexpected_completion_status: b(v, 16),
        receiver_overflow_status: b(v, 17),
        malformed_tlp_status: b(v, 18),
        ecrc_error_status: b(v, 19),
        unsupported_request_error_status: b(v, 20),
        acs_violation_status: b(v, 21),
        uncorrectable_internal_error_status: b(v, 22),
        mc_blocked_tlp_status: b(v, 23),
        atomicop_egress_blocked_status: b(v, 24),
        tlp_prefix_blocked_error_status: b(v, 25),
        poisoned_tlp_egress_blocked_status: b(v, 26),
    };
    let cor = |v: u32| CorrectableError {
        receiver_error_status: b(v, 0),
        bad_tlp_status: b(v, 6),
        bad_dllp_status: b(v, 7),
        replay_num_rollover_status: b(v, 8),
        replay_timer_timeout_status: b(v, 12),
        advisory_non_fatal_error_status: b(v, 13),
        corrected_internal_error_status: b(v, 14),
        header_log_overflow_status: b(v, 15),
    };
    let root = d.len() >= 0x38;
    let ex = AdvancedErrorReporting {
        uncorrectable_error_status: unc(r32(d, 4)),
        uncorrectable_error_mask: unc(r32(d, 8)),
        uncorrectable_error_severity: unc(r32(d, 12)),
        correctable_error_status: cor(r32(d, 0x10)),
        correctable_error_mask: cor(r32(d, 0x14)),
        advanced_error_capabilities_and_control: AdvancedErrorCapabilitiesAndControl {
            first_error_pointer: f8(c, 0, 5),
            ecrc_generation_capable: b(c, 5),
            ecrc_generation_enable: b(c, 6),
            ecrc_check_capable: b(c, 7),
            ecrc_check_enable: b(c, 8),
            multiple_header_recording_capable: b(c, 9),
            multiple_header_recording_enable: b(c, 10),
            tlp_prefix_log_present: b(c, 11),
            completion_timeout_prefix_or_header_log_capable: b(c, 12),
        },
        header_log: HeaderLog(dws(d, 0x1c)),
        root_error_command: root.then(|| {
            let v = r32(d, 0x2c);
            RootErrorCommand { correctable_error_reporting_enable: b(v, 0), non_fatal_error_reporting_enable: b(v, 1), fatal_error_reporting_enable: b(v, 2) }
        }),
        root_error_status: root.then(|| {
            let v = r32(d, 0x30);
            RootErrorStatus {
                err_cor_received: b(v, 0),
                multiple_err_cor_received: b(v, 1),
                err_fatal_or_nonfatal_received: b(v, 2),
                multiple_err_fatal_or_nonfatal_received: b(v, 3),
                first_uncorrectable_fatal: b(v, 4),
                non_fatal_error_messages_received: b(v, 5),
                fatal_error_messages_received: b(v, 6),
                advanced_error_interrupt_message_number: f8(v, 27, 5),
            }
        }),
        error_source_identification: root.then(|| ErrorSourceIdentification {
            err_cor_source_identification: r16(d, 0x34) as u16,
            err_fatal_or_nonfatal_source_identification: r16(d, 0x36) as u16,
        }),
        tlp_prefix_log: b(c, 11).then(|| TlpPrefixLog(dws(d, 0x38))),
    };
    ck.eq(CONTENT, "advanced error reporting", x, &ex);
}

pub fn dpc_reason(reason: u32, ext: u32) -> downstream_port_containment::DpcTriggerReason {
    use downstream_port_containment::DpcTriggerReason::*;
    match (reason, ext) {
        (0, _) => UnmaskedUncorrectableError,
        (1, _) => ReceivingAnErrNonFatal,
        (2, _) => ReceivingAnErrFatal,
        (_, 0) => RpPioError,
        (_, 1) => DpcSoftwareTriggerBit,
        (_, v) => Reserved(v as u8),
    }
}
fn dpc(ck: &mut Ck, got: &EGot, offset: u16, d: &[u8]) {
    use downstream_port_containment::*;
    let err = |s, t: String| (ExtendedCapabilityError::DownstreamPortContainment { offset, source: s }, format!("[{offset:03x}] Downstream Port Containment error: {t}"));
    let miss = 'm: {
        if d.len() < 12 {
            break 'm Some(err(DownstreamPortContainmentError::Mandatory, "can't read manadatory registers (8 bytes)".into()));
        }
        let c = r16(d, 4);
        if !b(c, 5) {
            break 'm None;
        }
        if d.len() < 0x30 {
            break 'm Some(err(DownstreamPortContainmentError::RpExtensions, "can't read RP Extensions registers (36 bytes)".into()));
        }
        let size = f(c, 8, 4) as usize;
        if size >= 5 && d.len() < 0x34 {
            break 'm Some(err(DownstreamPortContainmentError::RpPioImpspecLog, "can't read RP PIO ImpSpec Log Register (4 bytes)".into()));
        }
        for number in 0..size.saturating_sub(5).min(4) {
            if d.len() < 0x34 + 4 * (number + 1) {
                break 'm Some(err(
                    DownstreamPortContainmentError::RpPioTlpPrefixLog { number },
                    format!("can't read RP PIO TLP Prefix Log Register word#: {number}"),
                ));
            }
        }
        None
    };
    if let Some((e, t)) = miss {
        return exact_err(ck, got, e, t);
    }
    let x = ekind!(ck, got, DownstreamPortContainment);
    let (c, t, s) = (r16(d, 4), r16(d, 6), r16(d, 8));
    let size = f(c, 8, 4) as usize;
    let pio = |o: usize| {
        let v = r32(d, o);
        RpPio {
            cfg_ur_cpl: b(v, 0),
            cfg_ca_cpl: b(v, 1),
            cfg_cto: b(v, 2),
            io_ur_cpl: b(v, 8),
            io_ca_cpl: b(v, 9),
            io_cto: b(v, 10),
            mem_ur_cpl: b(v, 16),
            mem_ca_cpl: b(v, 17),
            mem_cto: b(v, 18),
        }
    };
    let ex = DownstreamPortContainment {
        dpc_capability: DpcCapability {
            dpc_interrupt_message_number: f8(c, 0, 5),
            rp_extensions_for_dpc: b(c, 5),
            poisoned_tlp_egress_blocking_supported: b(c, 6),
            dpc_software_triggering_supported: b(c, 7),
            rp_pio_log_size: size as u8,
            dl_active_err_cor_signaling_supported: b(c, 12),
        },
        dpc_control: DpcControl {
            dpc_trigger_enable: [DpcTrigger::Disabled, DpcTrigger::ErrFatalMessage, DpcTrigger::ErrNonFatalMessage, DpcTrigger::Reserved][f(t, 0, 2) as usize],
            dpc_completion_control: b(t, 2),
            dpc_interrupt_enable: b(t, 3),
            dpc_err_cor_enable: b(t, 4),
            poisoned_tlp_egress_blocking_enable: b(t, 5),
            dpc_software_trigger: b(t, 6),
            dl_active_err_cor_enable: b(t, 7),
        },
        dpc_status: DpcStatus {
            dpc_trigger_status: b(s, 0),
            dpc_trigger_reason: dpc_reason(f(s, 1, 2), f(s, 5, 2)),
            dpc_interrupt_status: b(s, 3),
            dpc_rp_busy: b(s, 4),
            rp_pio_first_error_pointer: f8(s, 8, 5),
        },
        dpc_error_source_id: r16(d, 10) as u16,
        rp_extensions: b(c, 5).then(|| RpExtensions {
            rp_pio_status: pio(0x0c),
            rp_pio_mask: pio(0x10),
            rp_pio_severity: pio(0x14),
            rp_pio_syserr: pio(0x18),
            rp_pio_exception: pio(0x1c),
            rp_pio_header_log: HeaderLog(dws(d, 0x20)),
            rp_pio_impspec_log: (size >= 5).then(|| r32(d, 0x30)),
            rp_pio_tlp_prefix_log: (size > 5).then(|| {
                let mut a = [0; 4];
                for (i, a) in a.iter_mut().enumerate().take(size - 5) {
                    *a = r32(d, 0x34 + 4 * i);
                }
                TlpPrefixLog(a)
            }),
        }),
    };
    ck.eq(CONTENT, "downstream port containment", x, &ex);
    if ck.want(DERIVED | REENC) {
        let r = &x.dpc_status.dpc_trigger_reason;
        ck.eq(DERIVED | REENC, "trigger reason code", &(r.value() as u32), &f(s, 1, 2));
        let ext = if f(s, 1, 2) == 3 { f(s, 5, 2) } else { 0 };
        ck.eq(DERIVED | REENC, "trigger reason extension", &(r.extension_value() as u32), &ext);
        ck.eq(REENC, "trigger reason again", &DpcTriggerReason::new(r.value(), r.extension_value()), r);
    }
}

fn pb(ck: &mut Ck, x: &PowerBudgeting, d: &[u8]) {
    use power_budgeting::*;
    let v = r32(d, 8);
    let e = PowerBudgeting {
        data_select: d[4],
        data: Data {
            base_power: match f(v, 0, 8) {
                0xf0 => BasePower::Gt239Le250,
                0xf1 => BasePower::Gt250Le275,
                0xf2 => BasePower::Gt275Le300,
                p if p > 0xf2 => BasePower::Gt300,
                p => BasePower::Value(p as u8),
            },
            data_scale: match f(v, 8, 2) {
                0 => DataScale::One,
                1 => DataScale::Deci,
                2 => DataScale::Centi,
                _ => DataScale::Milli,
            },
            pm_sub_state: match f(v, 10, 3) {
                0 => PmSubState::Default,
                p => PmSubState::Specific(p as u8),
            },
            pm_state: match f(v, 13, 2) {
                0 => PmState::D0,
                1 => PmState::D1,
                2 => PmState::D2,
                _ => PmState::D3,
            },
            operation_condition_type: match f(v, 15, 3) {
                0 => OperationConditionType::PmeAux,
                1 => OperationConditionType::Auxiliary,
                2 => OperationConditionType::Idle,
                3 => OperationConditionType::Sustained,
                4 => OperationConditionType::SustainedEmergencyPowerReductionState,
                5 => OperationConditionType::MaximumEmergencyPowerReductionState,
                7 => OperationConditionType::Maximum,
                p => OperationConditionType::Reserved(p as u8),
            },
            power_rail: match f(v, 18, 3) {
                0 => PowerRail::Power12v,
                1 => PowerRail::Power3_3v,
                2 => PowerRail::Power1_5vOr1_8v,
                3 => PowerRail::Thermal,
                p => PowerRail::Reserved(p as u8),
            },
        },
        power_budget_capability: PowerBudgetCapability { system_allocated: b(r8(d, 12), 0) },
    };
    ck.eq(CONTENT, "power budgeting", x, &e);
    if ck.want(DERIVED) {
        ck.eq(DERIVED, "power budgeting scale", &x.data.data_scale.multiplier(), &[1.0, 0.1, 0.01, 0.001][f(v, 8, 2) as usize]);
    }
}

fn acs(ck: &mut Ck, x: &AccessControlServices, d: &[u8]) {
    use access_control_services::*;
    let (c, t) = (r16(d, 4), r16(d, 6));
    let e = AcsCapability {
        acs_source_validation: b(c, 0),
        acs_translation_blocking: b(c, 1),
        acs_p2p_request_redirect: b(c, 2),
        acs_p2p_completion_redirect: b(c, 3),
        acs_upstream_forwarding: b(c, 4),
        acs_p2p_egress_control: b(c, 5),
        acs_direct_translated_p2p: b(c, 6),
        egress_control_vector_size: f8(c, 8, 8),
    };
    ck.eq(CONTENT, "ACS capability", &x.acs_capability, &e);
    let e = AcsControl {
        acs_source_validation_enable: b(t, 0),
        acs_translation_blocking_enable: b(t, 1),
        acs_p2p_request_redirect_enable: b(t, 2),
        acs_p2p_completion_redirect_enable: b(t, 3),
        acs_upstream_forwarding_enable: b(t, 4),
        acs_p2p_egress_control_enable: b(t, 5),
        acs_direct_translated_p2p_enable: b(t, 6),
    };
    ck.eq(CONTENT, "ACS control", &x.acs_control, &e);
    if ck.want(CONTENT) {
        ck.eq(CONTENT, "egress control vector", &x.egress_control_vectors().take(300).collect::<Vec<_>>(), &egress(d));
    }
}
/// Bits of the egress control vector (empty unless completely supplied).
pub fn egress(d: &[u8]) -> Vec<bool> {
    let c = r16(d, 4);
    let n = match f(c, 8, 8) {
        0 if b(c, 5) => 256,
        v => v as usize,
    };
    if d.len() < 8 + n.div_ceil(32) * 4 {
        return Vec::new();
    }
    (0..n).map(|i| d[8 + i / 8] >> (i % 8) & 1 == 1).collect()
}

fn sriov(ck: &mut Ck, x: &SingleRootIoVirtualization, d: &[u8]) {
    use pcics::header::{BaseAddress, BaseAddresses};
    use single_root_io_virtualization::*;
    let (c, t, s) = (r32(d, 4), r16(d, 8), r16(d, 10));
    let dw: [u32; 6] = core::array::from_fn(|i| r32(d, 0x24 + 4 * i));
    let e = SingleRootIoVirtualization {
        sriov_capabilities: SriovCapabilities {
            vf_migration_capable: b(c, 0),
            ari_capable_hierarchy_preserved: b(c, 1),
            vf_10bit_tag_requester_supported: b(c, 2),
            vf_migration_interrupt_message_number: f16(c, 21, 11),
        },
        sriov_control: SriovControl {
            vf_enable: b(t, 0),
            vf_migration_enable: b(t, 1),
            vf_migration_interrupt_enable: b(t, 2),
            vf_mse: b(t, 3),
            ari_capable_hierarchy: b(t, 4),
            vf_10bit_tag_requester_enable: b(t, 5),
        },
        sriov_status: SriovStatus { vf_migration_status: b(s, 0) },
        initial_vfs: r16(d, 0x0c) as u16,
        total_vfs: r16(d, 0x0e) as u16,
        num_vfs: r16(d, 0x10) as u16,
        function_dependency_link: d[0x12],
        first_vf_offset: r16(d, 0x14) as u16,
        vf_stride: r16(d, 0x16) as u16,
        vf_device_id: r16(d, 0x1a) as u16,
        page_sizes: PageSizes { supported: r32(d, 0x1c), system: r32(d, 0x20) },
        base_addresses: BaseAddresses::new(dw),
        vf_migration_state_array_offset: r32(d, 0x3c),
    };
    ck.eq(CONTENT, "SR-IOV", x, &e);
    if ck.want(REENC) {
        ck.eq(REENC, "SR-IOV VF BAR dwords", &x.base_addresses.orig().to_vec(), &dw.to_vec());
        let enc: [u32; 6] = x.base_addresses.clone().take(6).collect();
        ck.eq(REENC, "SR-IOV VF BARs collected", &enc.to_vec(), &super::header::bars_encoded(&dw));
    }
    if ck.want(CONTENT) {
        let got: Vec<BaseAddress> = x.base_addresses.clone().take(7).collect();
        ck.eq(CONTENT, "SR-IOV VF BARs", &got, &super::header::bars(&dw));
        ck.eq(CONTENT, "SR-IOV VF BAR dwords", &x.base_addresses.orig().to_vec(), &dw.to_vec());
    }
}

fn rbar(ck: &mut Ck, got: &EGot, offset: u16, d: &[u8]) {
    use resizable_bar::*;
    let vf = r16(d, 0) == 0x24;
    let err = |s, t: &str| {
        if vf {
            (ExtendedCapabilityError::VfResizableBar { offset, source: s }, format!("[{offset:03x}] VF Resizable BAR error: {t}"))
        } else {
            (ExtendedCapabilityError::ResizableBar { offset, source: s }, format!("[{offset:03x}] Resizable BAR error: {t}"))
        }
    };
    if d.len() < 12 {
        let (e, t) = err(ResizableBarError::FirstEntry, "should have at least one entry");
        return exact_err(ck, got, e, t);
    }
    let n = f(r32(d, 8), 5, 3) as usize;
    if !(1..=6).contains(&n) {
        let (e, t) = err(ResizableBarError::NumberOfResizableBars { value: n }, "should have 1..=6 number of entries");
        return exact_err(ck, got, e, t);
    }
    if d.len() < 4 + 8 * n {
        let (e, t) = err(ResizableBarError::ShortData, "entries data too short");
        return exact_err(ck, got, e, t);
    }
    let x = if vf { ekind!(ck, got, VfResizableBar) } else { ekind!(ck, got, ResizableBar) };
    if !ck.want(CONTENT | DERIVED) {
        return;
    }
    let got: Vec<ResizableBarEntry> = x.clone().take(10).collect();
    let ex: Vec<ResizableBarEntry> = (0..n)
        .map(|i| {
            let t = r32(d, 8 + 8 * i);
            ResizableBarEntry {
                capability: ResizableBarCapability { support_map_from_1mb_to_128tb: r32(d, 4 + 8 * i) },
                control: ResizableBarControl {
                    bar_index: f8(t, 0, 3),
                    number_of_resizable_bars: f8(t, 5, 3),
                    bar_size: f8(t, 8, 6),
                    support_map_from_256tb_to_8eb: f16(t, 16, 16),
                },
            }
        })
        .collect();
    ck.eq(CONTENT, "resizable BAR entries", &got, &ex);
    for (i, g) in got.iter().enumerate().take(n) {
        let far = (r32(d, 4 + 8 * i) ^ r32(d, 8 + 8 * i).rotate_left(9)) as usize;
        for p in (0..70).chain([far % 0x140, far, 1 << (far % 64), far << 32 | far % 64, 64 * (far % 64) + far / 64 % 64, usize::MAX]) {
            let exp = match p {
                20..=47 => r32(d, 4 + 8 * i) >> (p - 16) & 1 == 1,
                48..=63 => r32(d, 8 + 8 * i) >> (p - 32) & 1 == 1,
                _ => false,
            };
            if ck.want(DERIVED) {
                ck.eq(DERIVED, "resizable BAR size supported", &(p, g.is_function_supports_power_of_two(p)), &(p, exp));
            }
        }
    }
    if ck.want(DERIVED) {
        for (i, s) in ResizableBarEntry::BAR_SIZES.iter().enumerate() {
            let e = format!("{}{}B", 1u64 << (i % 10), ["M", "G", "T", "P", "E"][i / 10]);
            ck.eq(DERIVED, "resizable BAR size name", &s.to_string(), &e);
        }
    }
}

fn dpa(ck: &mut Ck, got: &EGot, offset: u16, d: &[u8]) {
    use dynamic_power_allocation::*;
    let err = |s, t: String| (ExtendedCapabilityError::DynamicPowerAllocation { offset, source: s }, format!("[{offset:03x}] Dynamic Power Allocation error: {t}"));
    if d.len() < 0x10 {
        let (e, t) = err(DynamicPowerAllocationError::Mandatory, "capability, latency indicator, status and control fields are unreadable".into());
        return exact_err(ck, got, e, t);
    }
    let c = r32(d, 4);
    let n = f(c, 0, 5) as usize + 1;
    if d.len() < 0x10 + n {
        let found = d.len() - 0x10;
        let (e, t) = err(
            DynamicPowerAllocationError::DpaAllocationArray { expected: n, found },
            format!("number of entries must be equal to the Substate_Max plus one (expected: {n}, found: {found})"),
        );
        return exact_err(ck, got, e, t);
    }
    let x = ekind!(ck, got, DynamicPowerAllocation);
    let (s, t) = (r16(d, 0x0c), r16(d, 0x0e));
    let e = DynamicPowerAllocation {
        dpa_capability: DpaCapability {
            substate_max: f8(c, 0, 5),
            transition_latency_unit: match f(c, 8, 2) {
                0 => TransitionLatencyUnit::Unit1ms,
                1 => TransitionLatencyUnit::Unit10ms,
                2 => TransitionLatencyUnit::Unit100ms,
                _ => TransitionLatencyUnit::Reserved,
            },
            power_allocation_scale: match f(c, 12, 2) {
                0 => PowerAllocationScale::Mul10,
                1 => PowerAllocationScale::Mul1_0,
                2 => PowerAllocationScale::Mul0_1,
                _ => PowerAllocationScale::Mul0_01,
            },
            transition_latency_value_0: f8(c, 16, 8),
            transition_latency_value_1: f8(c, 24, 8),
        },
        dpa_latency_indicator: r32(d, 8),
        dpa_status: DpaStatus { substate_status: f8(s, 0, 5), substate_control_enabled: b(s, 8) },
        dpa_control: DpaControl { substate_control: f8(t, 0, 5) },
        dpa_power_allocation_array: DpaPowerAllocationArray(&d[0x10..0x10 + n]),
    };
    ck.eq(CONTENT, "dynamic power allocation", x, &e);
}

fn tph(ck: &mut Ck, x: &TphRequester, d: &[u8]) {
    use tph_requester::*;
    let (c, t) = (r32(d, 4), r32(d, 8));
    let size = f16(c, 16, 11);
    let tail = &d[12..];
    let len = 2 * (size as usize + 1);
    let e = TphRequester {
        tph_requester_capability: TphRequesterCapability {
            no_st_mode_supported: b(c, 0),
            interrupt_vector_mode_supported: b(c, 1),
            device_specific_mode_supported: b(c, 2),
            extended_tph_requester_supported: b(c, 8),
            st_table: match f(c, 9, 2) {
                0 => StTable::NotPresent,
                1 if size < 64 && tail.len() >= len => StTable::Valid { size, data: &tail[..len] },
                1 => StTable::Invalid { size, data: tail },
                2 => StTable::MsiXTable { size },
                _ => StTable::Reserved,
            },
        },
        tph_requester_control: TphRequesterControl {
            st_mode_select: match f(t, 0, 3) {
                0 => StModeSelect::NoStMode,
                1 => StModeSelect::InterruptVectorMode,
                2 => StModeSelect::DeviceSpecificMode,
                v => StModeSelect::Reserved(v as u8),
            },
            tph_requester_enable: match f(t, 8, 2) {
                0 => TphRequesterEnable::NotPermitted,
                1 => TphRequesterEnable::TphPermitted,
                2 => TphRequesterEnable::Reserved,
                _ => TphRequesterEnable::TphAndExtendedTphPermitted,
            },
        },
    };
    ck.eq(CONTENT, "TPH requester", x, &e);
}

fn max_latency(ck: &mut Ck, l: &latency_tolerance_reporting::MaxLatency, value: u32, scale: u32) {
    if ck.want(DERIVED) {
        let exp = if scale <= 5 { value as u64 * 32u64.pow(scale) } else { 0 };
        ck.eq(DERIVED, "latency in ns", &(l.value() as u64), &exp);
    }
}

/// The four values of a lane in register order. The library keeps them private: they are
/// read from the Debug form, whose names are ignored.
pub fn lane_text(v: u32) -> String {
    use caps_express::{rx_hint, tx_preset};
    format!("{:?} {:?} {:?} {:?}", tx_preset(f(v, 0, 4)), rx_hint(f(v, 4, 3)), tx_preset(f(v, 8, 4)), rx_hint(f(v, 12, 3)))
}
pub fn lane_got(l: &secondary_pci_express::LaneEqualizationControl) -> String {
    let t = format!("{l:?}");
    let t = t.split_once('{').map_or("", |(_, r)| r).trim_end_matches('}');
    t.split(", ").map(|f| f.split_once(": ").map_or(f, |(_, v)| v).trim()).collect::<Vec<_>>().join(" ")
}
/// the number in the Debug form of an opaque table entry
pub fn entry_value(e: impl std::fmt::Debug) -> u32 {
    let t = format!("{e:?}");
    let t = t.trim_end_matches(|c: char| !c.is_ascii_digit());
    let n = t.len() - t.trim_end_matches(|c: char| c.is_ascii_digit()).len();
    t[t.len() - n..].parse().unwrap_or(u32::MAX)
}
fn secpcie(ck: &mut Ck, x: &SecondaryPciExpress, d: &[u8]) {
    use caps_express::speeds_vector;
    use pcics::capabilities::pci_express::LinkWidth;
    use secondary_pci_express::*;
    let c = r32(d, 4);
    let e = LinkControl3 {
        perform_equalization: b(c, 0),
        link_equalization_request_interrupt_enable: b(c, 1),
        lower_skp_os_generation_vector: speeds_vector(f(c, 9, 7)),
    };
    ck.eq(CONTENT, "link control 3", &x.link_control_3, &e);
    ck.eq(CONTENT, "lane error status", &x.lane_error_status, &LaneErrorStatus(r32(d, 8)));
    if !ck.want(CONTENT) {
        return;
    }
    for (w, lanes) in [
        (LinkWidth::X1, 1),
        (LinkWidth::X2, 2),
        (LinkWidth::X4, 4),
        (LinkWidth::X8, 8),
        (LinkWidth::X12, 12),
        (LinkWidth::X16, 16),
        (LinkWidth::X32, 32),
    ] {
        let got: Vec<String> = x.equalization_control_lanes(w).take(40).map(|l| lane_got(&l)).collect();
        let ex: Vec<String> = (0..lanes)
            .take_while(|i| d.len() >= 12 + 2 * i + 2)
            .map(|i| lane_text(r16(d, 12 + 2 * i)))
            .collect();
        ck.eq(CONTENT, "lane equalization control", &got, &ex);
    }
}

fn pmux(ck: &mut Ck, got: &EGot, offset: u16, d: &[u8]) {
    use protocol_multiplexing::*;
    let err = |s, t: String| (ExtendedCapabilityError::ProtocolMultiplexing { offset, source: s }, format!("[{offset:03x}] Protocol Multiplexing error: {t}"));
    if d.len() < 0x10 {
        let (e, t) = err(ProtocolMultiplexingError::Mandatory, "capability, control and status fields are unreadable".into());
        return exact_err(ck, got, e, t);
    }
    let (c, t, s) = (r32(d, 4), r32(d, 8), r32(d, 12));
    let n = f(c, 0, 6) as usize;
    if d.len() < 0x10 + 4 * n {
        let (expected, found) = (4 * n, d.len() - 0x10);
        let (e, t) = err(
            ProtocolMultiplexingError::PmuxProtocolArray { expected, found },
            format!("ureadable bytes for PMUX Protocol Array (expected: {expected}, found: {found})"),
        );
        return exact_err(ck, got, e, t);
    }
    let x = ekind!(ck, got, ProtocolMultiplexing);
    let e = PmuxCapability {
        pmux_protocol_array_size: n as u8,
        pmux_supported_link_speeds: PmuxSupportedLinkSpeeds { speed_2_5_gtps: b(c, 8), speed_5_0_gtps: b(c, 9), speed_8_0_gtps: b(c, 10), speed_16_0_gtps: b(c, 11) },
    };
    ck.eq(CONTENT, "PMUX capability", &x.pmux_capability, &e);
    let e = PmuxControl {
        pmux_channel_0_assignment: f8(t, 0, 6),
        pmux_channel_1_assignment: f8(t, 8, 6),
        pmux_channel_2_assignment: f8(t, 16, 6),
        pmux_channel_3_assignment: f8(t, 24, 6),
    };
    ck.eq(CONTENT, "PMUX control", &x.pmux_control, &e);
    let e = PmuxStatus {
        pmux_channel_0_disabled_link_speed: b(s, 0),
        pmux_channel_0_disabled_link_width: b(s, 1),
        pmux_channel_0_disabled_link_protocol_specific: b(s, 2),
        pmux_channel_1_disabled_link_speed: b(s, 8),
        pmux_channel_1_disabled_link_width: b(s, 9),
        pmux_channel_1_disabled_link_protocol_specific: b(s, 10),
        pmux_channel_2_disabled_link_speed: b(s, 16),
        pmux_channel_2_disabled_link_width: b(s, 17),
        pmux_channel_2_disabled_link_protocol_specific: b(s, 18),
        pmux_channel_3_disabled_link_speed: b(s, 24),
        pmux_channel_3_disabled_link_width: b(s, 25),
        pmux_channel_3_disabled_link_protocol_specific: b(s, 26),
    };
    ck.eq(CONTENT, "PMUX status", &x.pmux_status, &e);
    if !ck.want(CONTENT | REENC) {
        return;
    }
    let got: Vec<PmuxProtocolArrayEntry> = x.pmux_protocol_array.clone().take(70).collect();
    let ex: Vec<PmuxProtocolArrayEntry> =
        (0..n).map(|i| PmuxProtocolArrayEntry { protocol_id: r16(d, 0x10 + 4 * i) as u16, authority_id: r16(d, 0x12 + 4 * i) as u16 }).collect();
    ck.eq(CONTENT, "PMUX protocol array", &got, &ex);
    for (i, g) in ex.into_iter().enumerate() {
        let by: [u8; 4] = g.into();
        ck.eq(REENC, "PMUX protocol entry re-encoded", &by[..], &d[0x10 + 4 * i..0x14 + 4 * i]);
    }
}

fn l1pm(ck: &mut Ck, x: &L1PmSubstates, d: &[u8]) {
    use l1_pm_substates::*;
    let (c, p, q) = (r32(d, 4), r32(d, 8), r32(d, 12));
    let scale = |v: u32| match v {
        0 => PortTPowerOnScale::Time2us,
        1 => PortTPowerOnScale::Time10us,
        2 => PortTPowerOnScale::Time100us,
        _ => PortTPowerOnScale::Reserved,
    };
    let on = |v: u32, o: u32| PortTPowerOn { value: f8(v, o + 3, 5), scale: scale(f(v, o, 2)) };
    let e = L1PmSubstates {
        l1_pm_substates_capabilities: L1PmSubstatesCapabilities {
            pci_pm_l1_2_supported: b(c, 0),
            pci_pm_l1_1_supported: b(c, 1),
            aspm_l1_2_supported: b(c, 2),
            aspm_l1_1_supported: b(c, 3),
            l1_pm_substates_supported: b(c, 4),
            port_common_mode_restore_time: f8(c, 8, 8),
            port_t_power_on: on(c, 16),
        },
        l1_pm_substates_control_1: L1PmSubstatesControl1 {
            pci_pm_l1_2_enable: b(p, 0),
            pci_pm_l1_1_enable: b(p, 1),
            aspm_l1_2_enable: b(p, 2),
            aspm_l1_1_enable: b(p, 3),
            common_mode_restore_time: f8(p, 8, 8),
            ltr_l1_2_threshold: MaxLatency { value: f16(p, 16, 10), scale: f8(p, 29, 3) },
        },
        l1_pm_substates_control_2: L1PmSubstatesControl2 { t_power_on: on(q, 0) },
    };
    ck.eq(CONTENT, "L1 PM substates", x, &e);
    max_latency(ck, &x.l1_pm_substates_control_1.ltr_l1_2_threshold, f(p, 16, 10), f(p, 29, 3));
    for (t, v) in [(&x.l1_pm_substates_capabilities.port_t_power_on, f(c, 16, 8)), (&x.l1_pm_substates_control_2.t_power_on, f(q, 0, 8))] {
        if ck.want(DERIVED) {
            let exp = [Some(2), Some(10), Some(100), None][f(v, 0, 2) as usize].map(|m: usize| m * f(v, 3, 5) as usize);
            ck.eq(DERIVED, "power on time in us", &t.value(), &exp);
        }
        if ck.want(REENC) {
            ck.eq(REENC, "power on time re-encoded", &(u8::from(t.clone()) as u32), &(v & 0xfb));
            ck.eq(REENC, "power on scale re-encoded", &(u8::from(t.scale.clone()) as u32), &(v & 3));
            ck.eq(REENC, "power on scale again", &PortTPowerOnScale::from(u8::from(t.scale.clone())), &t.scale);
        }
    }
    if ck.want(REENC) {
        ck.eq(REENC, "L1 PM capabilities re-encoded", &u32::from(x.l1_pm_substates_capabilities.clone()), &(c & 0x00fb_ff1f));
        ck.eq(REENC, "L1 PM control 1 re-encoded", &u32::from(x.l1_pm_substates_control_1.clone()), &(p & 0xe3ff_ff0f));
        ck.eq(REENC, "L1 PM control 2 re-encoded", &u32::from(x.l1_pm_substates_control_2.clone()), &(q & 0xfb));
    }
}

fn mpcie(ck: &mut Ck, x: &PciExpressOverMphy, d: &[u8]) {
    use pci_express_over_m_phy::*;
    let (c, t, s, a, p) = (r32(d, 4), r32(d, 8), r32(d, 12), r32(d, 0x14), r32(d, 0x18));
    let speed = |v: u32| MpcieLinkSpeed { hs_g1: b(v, 0), hs_g2: b(v, 1) };
    let sup = |v: u32| LaneWidthSupported { x1: b(v, 0), x2: b(v, 1), x4: b(v, 2), x8: b(v, 3), x12: b(v, 4), x16: b(v, 5), x32: b(v, 6) };
    let st = |v: u32| match v {
        1 => LaneWidthStatus::X1,
        2 => LaneWidthStatus::X2,
        4 => LaneWidthStatus::X4,
        8 => LaneWidthStatus::X8,
        12 => LaneWidthStatus::X12,
        16 => LaneWidthStatus::X16,
        32 => LaneWidthStatus::X32,
        v => LaneWidthStatus::Reserved(v as u8),
    };
    let e = PciExpressOverMphy {
        mpcie_capabilities: MpcieCapabilities {
            mpcie_link_speed_capability: speed(c),
            configuration_software_supported: b(c, 15),
            maximum_tx_lane_width_capability: sup(f(c, 16, 8)),
            maximum_rx_lane_width_capability: sup(f(c, 24, 8)),
        },
        mpcie_control: MpcieControl { mpcie_target_link_speed_control: speed(t) },
        mpcie_status: MpcieStatus {
            mpcie_current_link_speed_status: speed(s),
            mpcie_configuration_software_status: b(s, 15),
            tx_lane_width_status: st(f(s, 16, 8)),
            rx_lane_width_status: st(f(s, 24, 8)),
        },
        mpcie_lane_error_status: r32(d, 0x10),
        mpcie_phy_control_address: MpciePhyControlAddress {
            lower_addr: f8(a, 0, 8),
            upper_addr: f8(a, 16, 5) | f8(a, 24, 1) << 5,
            phy_location: match f(a, 25, 3) {
                0 => PhyLocation::LocalPhy,
                1 => PhyLocation::RemotePhy,
                v => PhyLocation::Reserved(v as u8),
            },
            read: b(a, 30),
            config: b(a, 31),
        },
        mpcie_phy_control_data: MpciePhyControlData {
            phy_register_data: f8(p, 0, 8),
            phy_control_error: b(p, 29),
            rrap_abort_a: b(p, 30),
            phy_control_pending: b(p, 31),
        },
    };
    ck.eq(CONTENT, "M-PCIe", x, &e);
}
