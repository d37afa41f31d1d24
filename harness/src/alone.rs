//! A structure decoded on its own, through its public constructor, against the same
//! structure as the enumeration reports it (P30).
use crate::engine::*;
use crate::model::r16;
use crate::walk;
use pcics::capabilities::*;
use pcics::extended_capabilities::*;
use pcics::header::{Header, HeaderType};
use std::fmt::{Debug, Display};
use std::sync::OnceLock;

type Alone<K> = Option<Result<K, String>>;
fn err<E: Debug + Display>(e: E) -> String {
    format!("{e:?} {e}")
}
/// `d` starts behind the id and next pointer.
pub fn conv<'a>(id: u8, d: &'a [u8], h: &'a Header) -> Alone<CapabilityKind<'a>> {
    use CapabilityKind as K;
    macro_rules! t {
        ($T:ident, $K:ident) => {
            <$T>::try_from(d).map(K::$K).map_err(err)
        };
        ($T:ident) => {
            t!($T, $T)
        };
    }
    Some(match id {
        0x01 => t!(PowerManagementInterface),
        0x02 => t!(AcceleratedGraphicsPort),
        0x03 => t!(VitalProductData),
        0x04 => t!(SlotIdentification),
        0x05 => t!(MessageSignaledInterrups),
        0x07 if matches!(h.header_type, HeaderType::Bridge(_)) => t!(PciXBridge),
        0x07 => t!(PciX),
        0x08 => t!(Hypertransport),
        0x09 => VendorSpecific::try_new(d, h).map(K::VendorSpecific).map_err(err),
        0x0a => t!(DebugPort),
        0x0d => t!(BridgeSubsystemVendorId),
        0x10 => t!(PciExpress),
        0x11 => t!(MsiX),
        0x12 => t!(Sata),
        0x13 => t!(AdvancedFeatures),
        0x14 => EnhancedAllocation::try_new(d, h).map(K::EnhancedAllocation).map_err(err),
        0x15 => t!(FlatteningPortalBridge),
        _ => return None,
    })
}
/// `full` starts with the capability header.
pub fn ext<'a>(id: u16, full: &'a [u8]) -> Alone<ExtendedCapabilityKind<'a>> {
    use ExtendedCapabilityKind as K;
    let body = &full[4..];
    macro_rules! t {
        ($d:ident, $T:ident, $K:ident) => {
            <$T>::try_from($d).map(K::$K).map_err(err)
        };
        ($d:ident, $T:ident) => {
            t!($d, $T, $T)
        };
    }
    Some(match id {
        0x01 => t!(body, AdvancedErrorReporting),
        0x02 => t!(body, VirtualChannel),
        0x03 => t!(body, DeviceSerialNumber),
        0x04 => t!(body, PowerBudgeting),
        0x05 => t!(body, RootComplexLinkDeclaration),
        0x06 => t!(body, RootComplexInternalLinkControl),
        0x07 => t!(body, RootComplexEventCollectorEndpointAssociation),
        0x08 => t!(full, MultifunctionVirtualChannel),
        0x09 => t!(body, VirtualChannel, VirtualChannelMfvcPresent),
        0x0a => t!(full, RootComplexRegisterBlockHeader),
        0x0b => t!(body, VendorSpecificExtendedCapability),
        0x0c => t!(full, ConfigurationAccessCorrelation),
        0x0d => t!(body, AccessControlServices),
        0x0e => t!(body, AlternativeRoutingIdInterpretation),
        0x0f => t!(body, AddressTranslationServices),
        0x10 => t!(body, SingleRootIoVirtualization),
        0x12 => t!(full, Multicast),
        0x13 => t!(body, PageRequestInterface),
        0x15 => t!(full, ResizableBar),
        0x16 => t!(full, DynamicPowerAllocation),
        0x17 => t!(body, TphRequester),
        0x18 => t!(body, LatencyToleranceReporting),
        0x19 => t!(body, SecondaryPciExpress),
        0x1a => t!(full, ProtocolMultiplexing),
        0x1b => t!(body, ProcessAddressSpaceId),
        0x1c => t!(full, LnRequester),
        0x1d => t!(body, DownstreamPortContainment),
        0x1e => t!(body, L1PmSubstates),
        0x1f => t!(body, PrecisionTimeMeasurement),
        0x20 => t!(full, PciExpressOverMphy),
        0x21 => t!(full, FrsQueuing),
        0x22 => t!(full, ReadinessTimeReporting),
        0x23 => t!(full, DesignatedVendorSpecificExtendedCapability),
        0x24 => t!(full, VfResizableBar),
        _ => return None,
    })
}
/// the error of the structure inside the error of the list
fn conv_source(e: &CapabilityError) -> Option<String> {
    use CapabilityError as E;
    Some(match e {
        E::Data { source, .. } => err(source),
        E::PciExpress { source, .. } => err(source),
        E::Hypertransport { source, .. } => err(source),
        E::VendorSpecific { source, .. } => err(source),
        E::MessageSignaledInterrups { source, .. } => err(source),
        E::PciX { source, .. } => err(source),
        E::PciXBridge { source, .. } => err(source),
        E::EnhancedAllocation { source, .. } => err(source),
        _ => return None,
    })
}
fn ext_source(e: &ExtendedCapabilityError) -> Option<String> {
    use ExtendedCapabilityError as E;
    Some(match e {
        E::Data { source, .. } => err(source),
        E::RootComplexLinkDeclaration { source, .. } => err(source),
        E::MultifunctionVirtualChannel { source, .. } => err(source),
        E::SingleRootIoVirtualization { source, .. } => err(source),
        E::AdvancedErrorReporting { source, .. } => err(source),
        E::DownstreamPortContainment { source, .. } => err(source),
        E::ResizableBar { source, .. } => err(source),
        E::DynamicPowerAllocation { source, .. } => err(source),
        E::ProtocolMultiplexing { source, .. } => err(source),
        E::DesignatedVendorSpecificExtendedCapability { source, .. } => err(source),
        E::VfResizableBar { source, .. } => err(source),
        _ => return None,
    })
}
/// An eighth of the structures a property about decoding or errors looks at: also alone.
pub fn pick(ck: &Ck, d: &[u8], decoded: bool) -> Option<Rng> {
    if !ck.want(if decoded { CONTENT } else { ERRTXT }) {
        return None;
    }
    let mut s = d.len() as u64 ^ 0x9e37_79b9;
    for b in d.iter().take(24) {
        s = (s ^ *b as u64).wrapping_mul(0x100_0000_01b3);
    }
    (s >> 23 & 7 == 0).then(|| Rng::new(s))
}
/// Bytes behind a structure of `own` bytes: some, more than any list could supply, or as
/// many as make the whole slightly longer than 65536.
fn tail(rng: &mut Rng, own: usize) -> Vec<u8> {
    static FAR: OnceLock<Vec<u8>> = OnceLock::new();
    let n = match rng.below(16) {
        0 => 0,
        1 | 2 => 1 + rng.below(16),
        3 => 65536 - own.min(65536) + rng.below(80),
        4 => 4096 + rng.below(3000),
        5..=10 => rng.below(64),
        _ => rng.below(600),
    };
    if rng.one_in(4) || n > 8000 {
        return vec![if rng.one_in(2) { 0 } else { 0xff }; n];
    }
    let far = FAR.get_or_init(|| {
        let mut r = Rng::new(77);
        (0..16384).map(|_| r.u8()).collect()
    });
    let o = rng.below(16384 - n);
    far[o..o + n].to_vec()
}

/// `ext`: bytes from the id byte that belong to the structure
pub fn check_conv(ck: &mut Ck, d: &[u8], p: usize, ext: usize, h: &Header, r: &Result<Capability, CapabilityError>, rng: &mut Rng) {
    let id = d[0];
    let Some(a) = conv(id, &d[2..], h) else { return };
    let what = || format!("capability {id:#04x} at {p:#x}");
    ck.nontrivial = true;
    match (r, &a) {
        (Ok(c), Ok(k)) => {
            ck.eq(ALL, &format!("{} decoded on its own", what()), &walk::kind(k), &walk::kind(&c.kind));
        }
        (Err(e), Err(s)) => ck.eq(ALL, &format!("error of {} decoded on its own", what()), s, &conv_source(e).unwrap_or_else(|| format!("list error {e:?}"))),
        (r, a) => ck.ok(ALL, false, || format!("{} is {} in the list and {} on its own", what(), walk::item(r), a.as_ref().map_or_else(|e| e.clone(), walk::kind))),
    }
    ck.label("conv alone");
    // nothing else of the space matters: only its own bytes, then with others behind them
    if let Ok(c) = r {
        if d.len() >= ext && !(id == 0x14 && ext < 4) {
            let mut v = d[2..ext.max(2)].to_vec();
            let x = conv(id, &v, h).map(|r| r.as_ref().map(walk::kind).map_err(|e| e.clone()));
            ck.eq(ALL, &format!("{}, only its own {ext} bytes", what()), &x, &Some(Ok(walk::kind(&c.kind))));
            v.extend(tail(rng, v.len()));
            let o = rng.below(3).min(v.len());
            let mut w = vec![0x5a; o];
            w.extend(&v);
            let x = conv(id, &w[o..], h).map(|r| r.as_ref().map(walk::kind).map_err(|e| e.clone()));
            ck.eq(ALL, &format!("{}, {} bytes behind it", what(), v.len() + 2 - ext), &x, &Some(Ok(walk::kind(&c.kind))));
            ck.label("conv alone, own bytes");
        }
    }
}
pub fn check_ext(ck: &mut Ck, d: &[u8], p: usize, ext_len: usize, r: &Result<ExtendedCapability, ExtendedCapabilityError>, rng: &mut Rng) {
    let id = r16(d, 0) as u16;
    let Some(a) = ext(id, d) else { return };
    let what = || format!("extended capability {id:#06x} at {p:#x}");
    ck.nontrivial = true;
    match (r, &a) {
        (Ok(c), Ok(k)) => {
            ck.eq(ALL, &format!("{} decoded on its own", what()), &walk::ekind(k), &walk::ekind(&c.kind));
        }
        (Err(e), Err(s)) => ck.eq(ALL, &format!("error of {} decoded on its own", what()), s, &ext_source(e).unwrap_or_else(|| format!("list error {e:?}"))),
        (r, a) => ck.ok(ALL, false, || format!("{} is {} in the list and {} on its own", what(), walk::eitem(r), a.as_ref().map_or_else(|e| e.clone(), walk::ekind))),
    }
    ck.label("ext alone");
    if let Ok(c) = r {
        if d.len() >= ext_len {
            let mut v = d[..ext_len.max(4)].to_vec();
            let x = ext(id, &v).map(|r| r.as_ref().map(walk::ekind).map_err(|e| e.clone()));
            ck.eq(ALL, &format!("{}, only its own {ext_len} bytes", what()), &x, &Some(Ok(walk::ekind(&c.kind))));
            // the state of an incomplete link list names what was supplied: nothing behind it
            if id != 0x05 || matches!(&c.kind, ExtendedCapabilityKind::RootComplexLinkDeclaration(x) if x.element_self_description.number_of_link_entries > 0) {
                v.extend(tail(rng, v.len()));
            }
            // the next pointer is no part of the structure
            v[3] ^= rng.u8();
            let o = rng.below(5).min(v.len());
            let mut w = vec![0x5a; o];
            w.extend(&v);
            let x = ext(id, &w[o..]).map(|r| r.as_ref().map(walk::ekind).map_err(|e| e.clone()));
            ck.eq(ALL, &format!("{}, {} bytes behind it", what(), v.len() - ext_len), &x, &Some(Ok(walk::ekind(&c.kind))));
            ck.label("ext alone, own bytes");
        }
    }
}
