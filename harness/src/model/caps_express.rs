use super::caps::Got;
use super::*;
use crate::engine::*;
use pcics::capabilities::pci_express::*;
use pcics::capabilities::*;

fn max_size(v: u32) -> MaxSize {
    [MaxSize::B128, MaxSize::B256, MaxSize::B512, MaxSize::B1024, MaxSize::B2048, MaxSize::B4096, MaxSize::Reserved0, MaxSize::Reserved1][v as usize]
}
pub fn power_limit(value: u32, scale: u32) -> SlotPowerLimit {
    SlotPowerLimit { value: value as u8, scale: [1.0, 0.1, 0.01, 0.001][scale as usize] }
}
pub fn speed(v: u32) -> LinkSpeed {
    match v {
        1 => LinkSpeed::Rate2GTps,
        2 => LinkSpeed::Rate5GTps,
        3 => LinkSpeed::Rate8GTps,
        4 => LinkSpeed::Rate16GTps,
        5 => LinkSpeed::Rate32GTps,
        6 => LinkSpeed::Rate64GTps,
        7 => LinkSpeed::RateRsvdp,
        v => LinkSpeed::Reserved(v as u8),
    }
}
pub fn width(v: u32) -> LinkWidth {
    match v {
        1 => LinkWidth::X1,
        2 => LinkWidth::X2,
        4 => LinkWidth::X4,
        8 => LinkWidth::X8,
        12 => LinkWidth::X12,
        16 => LinkWidth::X16,
        32 => LinkWidth::X32,
        v => LinkWidth::Reserved(v as u8),
    }
}
pub fn aspm(v: u32) -> ActiveStatePowerManagement {
    use ActiveStatePowerManagement::*;
    match v {
        0 => NoAspm,
        1 => L0s,
        2 => L1,
        _ => L0sAndL1,
    }
}
pub fn l0s_exit(v: u32) -> L0sExitLatency {
    use L0sExitLatency::*;
    [Lt64ns, Ge64nsAndLt128ns, Ge128nsAndLt256ns, Ge256nsAndLt512ns, Ge512nsAndLt1us, Ge1usAndLt2us, Ge2usAndLt4us, Gt4ns][v as usize]
}
pub fn l1_exit(v: u32) -> L1ExitLatency {
    use L1ExitLatency::*;
    [Lt1us, Ge1usAndLt2us, Ge2usAndLt4us, Ge4usAndLt8us, Ge8usAndLt16us, Ge16usAndLt32us, Ge32usAndLt64us, Gt64ns][v as usize]
}
pub fn speeds_vector(v: u32) -> SupportedLinkSpeedsVector {
    SupportedLinkSpeedsVector {
        speed_2_5_gtps: b(v, 0),
        speed_5_0_gtps: b(v, 1),
        speed_8_0_gtps: b(v, 2),
        speed_16_0_gtps: b(v, 3),
        speed_32_0_gtps: b(v, 4),
        speed_64_0_gtps: b(v, 5),
        reserved: b(v, 6),
    }
}
pub fn tx_preset(v: u32) -> TransmitterPreset {
    use TransmitterPreset::*;
    match v {
        0 => P0,
        1 => P1,
        2 => P2,
        3 => P3,
        4 => P4,
        5 => P5,
        6 => P6,
        7 => P7,
        8 => P8,
        9 => P9,
        10 => P10,
        v => Reserved(v as u8),
    }
}
pub fn rx_hint(v: u32) -> ReceiverPresetHint {
    use ReceiverPresetHint::*;
    match v {
        0 => Minus6dB,
        1 => Minus7dB,
        2 => Minus8dB,
        3 => Minus9dB,
        4 => Minus10dB,
        5 => Minus11dB,
        6 => Minus12dB,
        _ => Reserved,
    }
}
fn device(d: &[u8]) -> Device {
    let (c, k, s) = (r32(d, 0x04), r16(d, 0x08), r16(d, 0x0a));
    use EndpointL0sAcceptableLatency as L0;
    use EndpointL1AcceptableLatency as L1;
    use PhantomFunctionsSupported as Ph;
    Device {
        capabilities: DeviceCapabilities {
            max_payload_size_supported: max_size(f(c, 0, 3)),
            phantom_functions_supported: [Ph::NoBits, Ph::MostSignificantBit, Ph::TwoMostSignificantBits, Ph::AllBits][f(c, 3, 2) as usize],
            extended_tag_field_supported: if b(c, 5) { ExtendedTagFieldSupported::Eight } else { ExtendedTagFieldSupported::Five },
            endpoint_l0s_acceptable_latency: [L0::Max64ns, L0::Max128ns, L0::Max256ns, L0::Max512ns, L0::Max1us, L0::Max2us, L0::Max4us, L0::NoLimit][f(c, 6, 3) as usize],
            endpoint_l1_acceptable_latency: [L1::Max1us, L1::Max2us, L1::Max4us, L1::Max8us, L1::Max16us, L1::Max32us, L1::Max64us, L1::NoLimit][f(c, 9, 3) as usize],
            attention_button_present: b(c, 12),
            attention_indicator_present: b(c, 13),
            power_indicator_present: b(c, 14),
            role_based_error_reporting: b(c, 15),
            captured_slot_power_limit: power_limit(f(c, 18, 8), f(c, 26, 2)),
            function_level_reset_capability: b(c, 28),
        },
        control: DeviceControl {
            correctable_error_reporting_enable: b(k, 0),
            non_fatal_error_reporting_enable: b(k, 1),
            fatal_error_reporting_enable: b(k, 2),
            unsupported_request_reporting_enable: b(k, 3),
            enable_relaxed_ordering: b(k, 4),
            max_payload_size: max_size(f(k, 5, 3)),
            extended_tag_field_enable: b(k, 8),
            phantom_functions_enable: b(k, 9),
            aux_power_pm_enable: b(k, 10),
            enable_no_snoop: b(k, 11),
            max_read_request_size: max_size(f(k, 12, 3)),
            bcre_or_flreset: b(k, 15),
        },
        status: DeviceStatus {
            correctable_error_detected: b(s, 0),
            non_fatal_error_detected: b(s, 1),
            fatal_error_detected: b(s, 2),
            unsupported_request_detected: b(s, 3),
            aux_power_detected: b(s, 4),
            transactions_pending: b(s, 5),
        },
    }
}
fn link(d: &[u8]) -> Link {
    let (c, k, s) = (r32(d, 0x0c), r16(d, 0x10), r16(d, 0x12));
    Link {
        capabilities: LinkCapabilities {
            max_link_speed: speed(f(c, 0, 4)),
            maximum_link_width: width(f(c, 4, 6)),
            active_state_power_management_support: aspm(f(c, 10, 2)),
            l0s_exit_latency: l0s_exit(f(c, 12, 3)),
            l1_exit_latency: l1_exit(f(c, 15, 3)),
            clock_power_management: b(c, 18),
            surprise_down_error_reporting_capable: b(c, 19),
            data_link_layer_link_active_reporting_capable: b(c, 20),
            link_bandwidth_notification_capability: b(c, 21),
            aspm_optionality_compliance: b(c, 22),
            port_number: f8(c, 24, 8),
        },
        control: LinkControl {
            active_state_power_management_control: aspm(f(k, 0, 2)),
            read_completion_boundary: if b(k, 3) { ReadCompletionBoundary::B128 } else { ReadCompletionBoundary::B64 },
            link_disable: b(k, 4),
            retrain_link: b(k, 5),
            common_clock_configuration: b(k, 6),
            extended_synch: b(k, 7),
            enable_clock_power_management: b(k, 8),
            hardware_autonomous_width_disable: b(k, 9),
            link_bandwidth_management_interrupt_enable: b(k, 10),
            link_autonomous_bandwidth_interrupt_enable: b(k, 11),
        },
        status: LinkStatus {
            current_link_speed: speed(f(s, 0, 4)),
            negotiated_link_width: width(f(s, 4, 6)),
            link_training_error: b(s, 10),
            link_training: b(s, 11),
            slot_clock_configuration: b(s, 12),
            data_link_layer_link_active: b(s, 13),
            link_bandwidth_management_status: b(s, 14),
            link_autonomous_bandwidth_status: b(s, 15),
        },
    }
}
fn slot(d: &[u8]) -> Slot {
    let (c, k, s) = (r32(d, 0x14), r16(d, 0x18), r16(d, 0x1a));
    let ind = |v: u32| [IndicatorControl::Reserved, IndicatorControl::On, IndicatorControl::Blink, IndicatorControl::Off][v as usize].clone();
    Slot {
        capabilities: SlotCapabilities {
            attention_button_present: b(c, 0),
            power_controller_present: b(c, 1),
            mrl_sensor_present: b(c, 2),
            attention_indicator_present: b(c, 3),
            power_indicator_present: b(c, 4),
            hot_plug_surprise: b(c, 5),
            hot_plug_capable: b(c, 6),
            slot_power_limit: power_limit(f(c, 7, 8), f(c, 15, 2)),
            electromechanical_interlock_present: b(c, 17),
            no_command_completed_support: b(c, 18),
            physical_slot_number: f16(c, 19, 13),
        },
        control: SlotControl {
            attention_button_pressed_enable: b(k, 0),
            power_fault_detected_enable: b(k, 1),
            mrl_sensor_changed_enable: b(k, 2),
            presence_detect_changed_enable: b(k, 3),
            command_completed_interrupt_enable: b(k, 4),
            hot_plug_interrupt_enable: b(k, 5),
            attention_indicator_control: ind(f(k, 6, 2)),
            power_indicator_control: ind(f(k, 8, 2)),
            power_controller_control: b(k, 10),
            electromechanical_interlock_control: b(k, 11),
            data_link_layer_state_changed_enable: b(k, 12),
        },
        status: SlotStatus {
            attention_button_pressed: b(s, 0),
            power_fault_detected: b(s, 1),
            mrl_sensor_changed: b(s, 2),
            presence_detect_changed: b(s, 3),
            command_completed: b(s, 4),
            mrl_sensor_state: b(s, 5),
            presence_detect_state: b(s, 6),
            electromechanical_interlock_status: b(s, 7),
            data_link_layer_state_changed: b(s, 8),
        },
    }
}
fn root(d: &[u8]) -> Option<Root> {
    (d.len() >= 0x24).then(|| {
        let (k, c, s) = (r16(d, 0x1c), r16(d, 0x1e), r32(d, 0x20));
        Root {
            control: RootControl {
                system_error_on_correctable_error_enable: b(k, 0),
                system_error_on_non_fatal_error_enable: b(k, 1),
                system_error_on_fatal_error_enable: b(k, 2),
                pme_interrupt_enable: b(k, 3),
                crs_software_visibility_enable: b(k, 4),
            },
            capabilities: RootCapabilities { crs_software_visibility: b(c, 0) },
            status: RootStatus { pme_requester_id: f16(s, 0, 16), pme_status: b(s, 16), pme_pending: b(s, 17) },
        }
    })
}
fn device2(d: &[u8]) -> Device2 {
    let (c, k) = (r32(d, 0x24), r16(d, 0x28));
    use CompletionTimeoutRanges as R;
    use CompletionTimeoutValue as V;
    Device2 {
        capabilities: DeviceCapabilities2 {
            completion_timeout_ranges_supported: match f(c, 0, 4) {
                0 => R::NotSupported,
                1 => R::RangeA,
                2 => R::RangeB,
                3 => R::RangesAB,
                6 => R::RangesBC,
                7 => R::RangesABC,
                14 => R::RangesBCD,
                15 => R::RangesABCD,
                v => R::Reserved(v as u8),
            },
            completion_timeout_disable_supported: b(c, 4),
            ari_forwarding_supported: b(c, 5),
            atomic_op_routing_supported: b(c, 6),
            u32_atomicop_completer_supported: b(c, 7),
            u64_atomicop_completer_supported: b(c, 8),
            u128_cas_completer_supported: b(c, 9),
            no_ro_enabled_pr_pr_passing: b(c, 10),
            ltr_mechanism_supported: b(c, 11),
            tph_completer_supported: match f(c, 12, 2) {
                0 => TphCompleter::NotSupported,
                1 => TphCompleter::Tph,
                2 => TphCompleter::Reserved,
                _ => TphCompleter::TphAndExtendedTph,
            },
            ln_system_cls: match f(c, 14, 2) {
                0 => LnSystemCls::NotSupported,
                1 => LnSystemCls::Cachelines64Byte,
                2 => LnSystemCls::Cachelines128Byte,
                _ => LnSystemCls::Reserved,
            },
            support_10bit_tag_completer: b(c, 16),
            support_10bit_tag_requester: b(c, 17),
            obff_supported: match f(c, 18, 2) {
                0 => Obff::NotSupported,
                1 => Obff::Message,
                2 => Obff::Wake,
                _ => Obff::WakeAndMessage,
            },
            extended_fmt_field_supported: b(c, 20),
            end_end_tlp_prefix_supported: b(c, 21),
            max_end_end_tlp_prefixes: match f(c, 22, 2) {
                0 => MaxEndEndTlpPrefixes::Max4,
                1 => MaxEndEndTlpPrefixes::Max1,
                2 => MaxEndEndTlpPrefixes::Max2,
                _ => MaxEndEndTlpPrefixes::Max3,
            },
            emergency_power_reduction_supported: match f(c, 24, 2) {
                0 => EmergencyPowerReduction::NotSupported,
                1 => EmergencyPowerReduction::DeviceSpecific,
                2 => EmergencyPowerReduction::FormFactorOrDeviceSpecific,
                _ => EmergencyPowerReduction::Reserved,
            },
            emergency_power_reduction_initialization_required: b(c, 26),
            frs_supported: b(c, 31),
        },
        control: DeviceControl2 {
            completion_timeout_value: match f(k, 0, 4) {
                0 => V::DefaultRange50usTo50ms,
                1 => V::RangeA50usTo100us,
                2 => V::RangeA1msTo10ms,
                5 => V::RangeB16msTo55mss,
                6 => V::RangeB65msTo210ms,
                9 => V::RangeC260msTo900ms,
                10 => V::RangeC1000msTo3500ms,
                13 => V::RangeD4sTo13s,
                14 => V::RangeD17sTo64s,
                v => V::Reserved(v as u8),
            },
            completion_timeout_disable: b(k, 4),
            ari_forwarding_enable: b(k, 5),
            atomic_op_requester_enable: b(k, 6),
            atomic_op_egress_blocking: b(k, 7),
            ido_request_enable: b(k, 8),
            ido_completion_enable: b(k, 9),
            ltr_mechanism_enable: b(k, 10),
            emergency_power_reduction_request: b(k, 11),
            enable_10bit_tag_requester: b(k, 12),
            obff_enable: match f(k, 13, 2) {
                0 => ObffEnable::Disabled,
                1 => ObffEnable::MessageSignalingA,
                2 => ObffEnable::MessageSignalingB,
                _ => ObffEnable::WakeSignaling,
            },
            end_end_tlp_prefix_blocking: if b(k, 15) { EndEndTlpPrefixBlocking::ForwardingBlocked } else { EndEndTlpPrefixBlocking::ForwardingEnabled },
        },
        status: DeviceStatus2 {},
    }
}
fn link2(d: &[u8]) -> Link2 {
    let (c, k, s) = (r32(d, 0x2c), r16(d, 0x30), r16(d, 0x32));
    let de = |x: bool| if x { DeEmphasis::Minus3_5dB } else { DeEmphasis::Minus6dB };
    Link2 {
        capabilities: LinkCapabilities2 {
            supported_link_speeds_vector: speeds_vector(f(c, 1, 7)),
            crosslink_supported: b(c, 8),
            lower_skp_os_generation_supported_speeds_vector: speeds_vector(f(c, 9, 7)),
            lower_skp_os_reception_supported_speeds_vector: speeds_vector(f(c, 16, 7)),
            retimer_presence_detect_supported: b(c, 23),
            two_retimers_presence_detect_supported: b(c, 24),
            drs_supported: b(c, 31),
        },
        control: LinkControl2 {
            target_link_speed: speed(f(k, 0, 4)),
            enter_compliance: b(k, 4),
            hardware_autonomous_speed_disable: b(k, 5),
            selectable_de_emphasis: de(b(k, 6)),
            transmit_margin: TransmitMargin(f8(k, 7, 3)),
            enter_modified_compliance: b(k, 10),
            compliance_sos: b(k, 11),
            compliance_preset_or_de_emphasis: CompliancePresetOrDeEmphasis(f8(k, 12, 4)),
        },
        status: LinkStatus2 {
            current_de_emphasis_level: de(b(s, 0)),
            equalization_complete: b(s, 1),
            equalization_phase_1_successful: b(s, 2),
            equalization_phase_2_successful: b(s, 3),
            equalization_phase_3_successful: b(s, 4),
            link_equalization_request: b(s, 5),
            retimer_presence_detected: b(s, 6),
            two_retimers_presence_detected: b(s, 7),
            crosslink_resolution: [CrosslinkResolution::NotSupported, CrosslinkResolution::UpstreamPort, CrosslinkResolution::DownstreamPort, CrosslinkResolution::NotCompleted]
                [f(s, 8, 2) as usize],
            downstream_component_presence: match f(s, 12, 3) {
                0 => DownstreamComponentPresence::DownNotDetermined,
                1 => DownstreamComponentPresence::DownNotPresent,
                2 => DownstreamComponentPresence::DownPresent,
                4 => DownstreamComponentPresence::UpPresent,
                5 => DownstreamComponentPresence::UpPresentAndDrsReceived,
                v => DownstreamComponentPresence::Reserved(v as u8),
            },
            drs_message_received: b(s, 15),
        },
    }
}

/// value * scale with the alternative encodings of scale 0 / value above EFh left open
pub fn check_power_limit(ck: &mut Ck, what: &str, x: &SlotPowerLimit, value: u32, scale: u32) {
    // F3h..FFh at scale 1.0x are "above 300 W": no number is defined
    if ck.want(DERIVED) && !(scale == 0 && value > 0xf2) {
        let want = match (scale, value) {
            (0, 0xf0) => 250.0,
            (0, 0xf1) => 275.0,
            (0, 0xf2) => 300.0,
            _ => value as f64 * [1.0, 0.1, 0.01, 0.001][scale as usize],
        };
        for got in [f32::from(x), f32::from(x.clone())] {
            ck.ok(DERIVED, (got as f64 - want).abs() <= want * 1e-5, || format!("{what}: got {got} W, expected {want} W"));
        }
    }
}
fn check_link(ck: &mut Ck, l: &Link, l2: &Option<Link2>, d: &[u8]) {
    if ck.want(DERIVED) {
        // assigned speeds order by rate, assigned widths by lanes
        let (c, s) = (r32(d, 0x0c), r16(d, 0x12));
        let (m, n) = (f(c, 0, 4), f(s, 0, 4));
        if (1..=6).contains(&m) && (1..=6).contains(&n) {
            let g = (l.capabilities.max_link_speed.cmp(&l.status.current_link_speed), l.capabilities.max_link_speed >= l.status.current_link_speed);
            ck.eq(DERIVED, "order of link speeds", &g, &(m.cmp(&n), m >= n));
        }
        let (m, n) = (f(c, 4, 6), f(s, 4, 6));
        let ok = |v| matches!(v, 1 | 2 | 4 | 8 | 12 | 16 | 32);
        if ok(m) && ok(n) {
            let g = (l.capabilities.maximum_link_width.cmp(&l.status.negotiated_link_width), l.capabilities.maximum_link_width >= l.status.negotiated_link_width);
            ck.eq(DERIVED, "order of link widths", &g, &(m.cmp(&n), m >= n));
        }
    }
    if ck.want(REENC) {
        let (c, s) = (r32(d, 0x0c), r16(d, 0x12));
        ck.eq(REENC, "max link speed", &(u8::from(l.capabilities.max_link_speed) as u32), &f(c, 0, 4));
        ck.eq(REENC, "max link width", &(u8::from(l.capabilities.maximum_link_width.clone()) as u32), &f(c, 4, 6));
        ck.eq(REENC, "current link speed", &(u8::from(l.status.current_link_speed) as u32), &f(s, 0, 4));
        ck.eq(REENC, "negotiated link width", &(u8::from(l.status.negotiated_link_width.clone()) as u32), &f(s, 4, 6));
        if let Some(l2) = l2 {
            ck.eq(REENC, "target link speed", &(u8::from(l2.control.target_link_speed) as u32), &f(r16(d, 0x30), 0, 4));
        }
    }
}

pub fn check(ck: &mut Ck, got: &Got, ptr: u8, d: &[u8], exact_err: fn(&mut Ck, &Got, CapabilityError, String)) {
    let e = |s, t: &str| (CapabilityError::PciExpress { ptr, source: s }, format!("[{ptr:02x}] PCI Express error: {t}"));
    if d.len() < 0x1c {
        let (e, t) = e(PciExpressError::RequiredBytesSlice, "can't read mandatory (0x1a) bytes from slice");
        return exact_err(ck, got, e, t);
    }
    let c = r16(d, 2);
    let (ver, ty) = (f(c, 0, 4), f(c, 4, 4));
    if matches!(ty, 4 | 10) && d.len() < 0x24 {
        let (e, t) = e(PciExpressError::RootBytesSlice, "can't read root bytes from slice");
        return exact_err(ck, got, e, t);
    }
    let x = match got {
        Ok(Capability { kind: CapabilityKind::PciExpress(x), .. }) => x,
        o => return ck.ok(CONTENT | SHAPE | KIND | ERRTXT, false, || format!("PCI Express expected, got {o:?}")),
    };
    let v2 = ver > 1;
    let (lk, sl, rt) = (link(d), slot(d), root(d));
    let l2 = (v2 && d.len() >= 0x34).then(|| link2(d));
    let s2 = (v2 && d.len() >= 0x3c).then(|| Slot2 { capabilities: SlotCapabilities2 {}, control: SlotControl2 {}, status: SlotStatus2 {} });
    use DeviceType as T;
    let dt = match ty {
        0 => T::Endpoint { link: lk, link_2: l2 },
        1 => T::LegacyEndpoint { link: lk, link_2: l2 },
        4 => T::RootPort { link: lk, link_2: l2, slot: sl, slot_2: s2, root: rt.unwrap() },
        5 => T::UpstreamPort { link: lk, link_2: l2 },
        6 => T::DownstreamPort { link: lk, link_2: l2, slot: sl, slot_2: s2 },
        7 => T::PcieToPciBridge { link: lk, link_2: l2 },
        8 => T::PciToPcieBridge { link: lk, link_2: l2, slot: sl, slot_2: s2 },
        9 => T::RootComplexIntegratedEndpoint,
        10 => T::RootComplexEventCollector { root: rt.unwrap() },
        id => T::Reserved { id: id as u8, link: lk, link_2: l2, slot: sl, slot_2: s2, root: rt },
    };
    let ex = PciExpress {
        version: ver as u8,
        device_type: dt,
        slot_implemented: b(c, 8),
        interrupt_message_number: f8(c, 9, 5),
        tcs_routing_support: b(c, 14),
        device: device(d),
        device_2: (v2 && d.len() >= 0x2c).then(|| device2(d)),
    };
    ck.eq(CONTENT, "PCI Express", x, &ex);
    let t = &x.device_type;
    ck.eq(DERIVED, "is_endpoint", &t.is_endpoint(), &matches!(ty, 0 | 1 | 9));
    ck.eq(DERIVED, "is_root", &t.is_root(), &matches!(ty, 4 | 10));
    ck.eq(DERIVED, "is_downstream_port", &t.is_downstream_port(), &matches!(ty, 4 | 6 | 8));
    let dc = r32(d, 4);
    check_power_limit(ck, "captured slot power limit", &x.device.capabilities.captured_slot_power_limit, f(dc, 18, 8), f(dc, 26, 2));
    match t {
        T::Endpoint { link, link_2 } | T::LegacyEndpoint { link, link_2 } | T::UpstreamPort { link, link_2 } | T::PcieToPciBridge { link, link_2 } => check_link(ck, link, link_2, d),
        T::RootPort { link, link_2, slot, .. } | T::DownstreamPort { link, link_2, slot, .. } | T::PciToPcieBridge { link, link_2, slot, .. } | T::Reserved { link, link_2, slot, .. } => {
            check_link(ck, link, link_2, d);
            let sc = r32(d, 0x14);
            check_power_limit(ck, "slot power limit", &slot.capabilities.slot_power_limit, f(sc, 7, 8), f(sc, 15, 2));
        }
        _ => (),
    }
    if ck.want(DERIVED) {
        use CompletionTimeoutRanges as R;
        for (n, r, e) in [("A", R::A, (50e-6, 10e-3)), ("B", R::B, (10e-3, 250e-3)), ("C", R::C, (250e-3, 4.0)), ("D", R::D, (4.0, 64.0))] {
            ck.eq(DERIVED, &format!("completion timeout range {n}"), &(r.start, r.end), &e);
        }
    }
    if let (true, Some(d2)) = (ck.want(REENC), &x.device_2) {
        let (c, k) = (r32(d, 0x24), r16(d, 0x28));
        let (a, z) = (&d2.capabilities, &d2.control);
        ck.eq(REENC, "timeout ranges", &(u8::from(a.completion_timeout_ranges_supported.clone()) as u32), &f(c, 0, 4));
        ck.eq(REENC, "TPH completer", &(u8::from(a.tph_completer_supported.clone()) as u32), &f(c, 12, 2));
        ck.eq(REENC, "LN CLS", &(u8::from(a.ln_system_cls.clone()) as u32), &f(c, 14, 2));
        ck.eq(REENC, "OBFF", &(u8::from(a.obff_supported.clone()) as u32), &f(c, 18, 2));
        ck.eq(REENC, "max prefixes", &(u8::from(a.max_end_end_tlp_prefixes) as u32), &f(c, 22, 2));
        ck.eq(REENC, "emergency power", &(u8::from(a.emergency_power_reduction_supported.clone()) as u32), &f(c, 24, 2));
        ck.eq(REENC, "timeout value", &(u8::from(z.completion_timeout_value.clone()) as u32), &f(k, 0, 4));
        ck.eq(REENC, "OBFF enable", &(u8::from(z.obff_enable.clone()) as u32), &f(k, 13, 2));
        ck.eq(REENC, "prefix blocking", &bool::from(z.end_end_tlp_prefix_blocking.clone()), &b(k, 15));
    }
}
