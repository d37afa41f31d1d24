//! DVSEC and the CXL device structure.
use super::ecaps::*;
use super::*;
use crate::ekind;
use crate::engine::*;
use pcics::extended_capabilities::designated_vendor_specific_extended_capability::*;
use pcics::extended_capabilities::*;

pub fn dvsec(ck: &mut Ck, got: &EGot, offset: u16, d: &[u8]) {
    use compute_express_link::ComputeExpressLinkError;
    let err = |s, t: String| {
        (
            ExtendedCapabilityError::DesignatedVendorSpecificExtendedCapability { offset, source: s },
            format!("[{offset:03x}] Designated Vendor-Specific Extended Capabilities error: {t}"),
        )
    };
    if d.len() < 10 {
        let (e, t) = err(DvsecError::Mandatory, "mandatory fields are unreadable".into());
        return exact_err(ck, got, e, t);
    }
    let (h, id) = (r32(d, 4), r16(d, 8));
    let (vid, rev, len) = (f16(h, 0, 16), f8(h, 16, 4), f(h, 20, 12) as usize);
    if len < 10 || len > d.len() {
        let (e, t) = err(
            DvsecError::VendorSpecificRegisters { dvsec_vendor_id: vid, dvsec_revision: rev, dvsec_length: len as u16, dvsec_id: id as u16, real: d.len() },
            format!(
                "Vendor-specific registers (VID: {vid:04x}, rev: {rev:02x}, ID: {id:04x}) are unreadable. Length expected: {len}, real: {}",
                d.len()
            ),
        );
        return exact_err(ck, got, e, t);
    }
    let p = &d[10..len];
    let cxl = vid == 0x1e98;
    if cxl && id == 0 && p.len() < 46 {
        let (e, t) = err(
            DvsecError::ComputeExpressLink { source: ComputeExpressLinkError::PcieDvsecForCxlDevice },
            "Compute Express Link error: PCIe DVSEC for CXL Device".into(),
        );
        return exact_err(ck, got, e, t);
    }
    let x = ekind!(ck, got, DesignatedVendorSpecificExtendedCapability);
    ck.eq(
        CONTENT,
        "DVSEC header",
        &(x.dvsec_vendor_id, x.dvsec_revision, x.dvsec_length, x.dvsec_id),
        &(vid, rev, len as u16, id as u16),
    );
    match (&x.dvsec_type, cxl) {
        (DvsecType::Unspecified(b), false) => ck.eq(CONTENT, "DVSEC payload", b, &p),
        (DvsecType::ComputeExpressLink(c), true) => {
            cxl_value(ck, c, id, p);
        }
        (o, _) => ck.ok(CONTENT | KIND, false, || format!("DVSEC of vendor {vid:#06x} reported as {o:?}")),
    }
}

/// What the registers of a CXL structure stand for.
pub fn cxl_value(ck: &mut Ck, c: &ComputeExpressLink, id: u32, p: &[u8]) {
    use ComputeExpressLink as C;
    ck.label("cxl");
    let ok = match (id, c) {
        (0, C::PcieDvsecForCxlDevice(x)) => {
            device(ck, x, p);
            true
        }
        (2, C::NonCxlFunctionMapDvsec(_))
        | (3, C::Cxl20ExtensionsDvsecForPorts(_))
        | (4, C::GpfDvsecForCxlPorts(_))
        | (5, C::GpfDvsecForCxlDevices(_))
        | (7, C::PcieDvsecForFlexBusPort(_))
        | (8, C::RegisterLocatorDvsec(_))
        | (9, C::MldDvsec(_))
        | (10, C::PcieDvsecForTestCapability(_)) => true,
        (1 | 6 | 11.., C::Undefined(v)) => *v as u32 == id,
        _ => false,
    };
    ck.ok(CONTENT | KIND, ok, || format!("CXL DVSEC id {id:#x} reported as {c:?}"));
}

fn device(ck: &mut Ck, x: &compute_express_link::pcie_dvsec_for_cxl_device::PcieDvsecForCxlDevice, p: &[u8]) {
    use compute_express_link::pcie_dvsec_for_cxl_device::*;
    let w = |i: usize| r16(p, 2 * i);
    let (c, t, s, t2, s2, l, c2) = (w(0), w(1), w(2), w(3), w(4), w(5), w(6));
    // ranges: size high, size low, base high, base low
    let size = |o: usize| {
        let (hi, lo) = (r32(p, o), r32(p, o + 4));
        CxlRangeSize {
            memory_info_valid: b(lo, 0),
            memory_active: b(lo, 1),
            media_type: match f(lo, 2, 3) {
                0 => MediaType::Volatile,
                1 => MediaType::NonVolatile,
                2 => MediaType::Cdat,
                v => MediaType::Reserved(v as u8),
            },
            memory_class: match f(lo, 5, 3) {
                0 => MemoryClass::Memory,
                1 => MemoryClass::Storage,
                2 => MemoryClass::Cdat,
                v => MemoryClass::Reserved(v as u8),
            },
            desired_interleave: match f(lo, 8, 5) {
                0 => DesiredInterleave::NoInterleave,
                1 => DesiredInterleave::Granularity256B,
                2 => DesiredInterleave::Granularity4KB,
                3 => DesiredInterleave::Granularity512B,
                4 => DesiredInterleave::Granularity1KB,
                5 => DesiredInterleave::Granularity2KB,
                6 => DesiredInterleave::Granularity8KB,
                7 => DesiredInterleave::Granularity16KB,
                v => DesiredInterleave::Reserved(v as u8),
            },
            memory_active_timeout: match f(lo, 13, 3) {
                0 => MemoryActiveTimeout::MaxTime1s,
                1 => MemoryActiveTimeout::MaxTime4s,
                2 => MemoryActiveTimeout::MaxTime16s,
                3 => MemoryActiveTimeout::MaxTime64s,
                4 => MemoryActiveTimeout::MaxTime256s,
                v => MemoryActiveTimeout::Reserved(v as u8),
            },
            memory_size: (hi as u64) << 32 | (f(lo, 28, 4) as u64) << 28,
        }
    };
    let base = |o: usize| CxlRangeBase { memory_base: (r32(p, o) as u64) << 32 | (f(r32(p, o + 4), 28, 4) as u64) << 28 };
    let cov = f(t, 3, 5);
    let e = PcieDvsecForCxlDevice {
        cxl_capability: CxlCapability {
            cache_capable: b(c, 0),
            io_capable: b(c, 1),
            mem_capable: b(c, 2),
            mem_hwinit_mode: b(c, 3),
            hdm_count: [HdmCount::ZeroRanges, HdmCount::OneHdmRange, HdmCount::TwoHdmRanges, HdmCount::Reserved][f(c, 4, 2) as usize],
            cache_writeback_and_invalidate_capable: b(c, 6),
            cxl_reset_capable: b(c, 7),
            cxl_reset_timeout: match f(c, 8, 3) {
                0 => CxlResetTimeout::MaxTime10ms,
                1 => CxlResetTimeout::MaxTime100ms,
                2 => CxlResetTimeout::MaxTime1s,
                3 => CxlResetTimeout::MaxTime10s,
                4 => CxlResetTimeout::MaxTime100s,
                v => CxlResetTimeout::Reserved(v as u8),
            },
            cxl_reset_mem_clr_capable: b(c, 11),
            multiple_logical_device: b(c, 13),
            viral_capable: b(c, 14),
            pm_init_completion_reporting_capable: b(c, 15),
        },
        cxl_control: CxlControl {
            cache_enable: b(t, 0),
            io_enable: b(t, 1),
            mem_enable: b(t, 2),
            cache_sf_coverage: if cov == 0 { CacheSfCoverage::NoSnoopFilter } else { CacheSfCoverage::SnoopFilter(1u64 << (cov + 15)) },
            cache_sf_granularity: [
                CacheSfGranularity::Tracking64B,
                CacheSfGranularity::Tracking128B,
                CacheSfGranularity::Tracking256B,
                CacheSfGranularity::Tracking512B,
                CacheSfGranularity::Tracking1KB,
                CacheSfGranularity::Tracking2KB,
                CacheSfGranularity::Tracking4KB,
                CacheSfGranularity::Reserved,
            ][f(t, 8, 3) as usize],
            cache_clean_eviction: if b(t, 11) { CacheCleanEviction::NotNeeded } else { CacheCleanEviction::Needed },
            viral_enable: b(t, 14),
        },
        cxl_status: CxlStatus { viral_status: b(s, 14) },
        cxl_control2: CxlControl2 {
            disable_caching: b(t2, 0),
            initiate_cache_write_back_and_invalidation: b(t2, 1),
            initiate_cxl_reset: b(t2, 2),
            cxl_reset_mem_clr_enable: b(t2, 3),
        },
        cxl_status2: CxlStatus2 { cache_invalid: b(s2, 0), cxl_reset_complete: b(s2, 1), cxl_reset_error: b(s2, 2), power_management_initialization_complete: b(s2, 15) },
        cxl_lock: CxlLock { config_lock: b(l, 0) },
        cxl_capability2: CxlCapability2 {
            cache_size_unit: match f(c2, 0, 4) {
                0 => CacheSizeUnit::NotReported,
                1 => CacheSizeUnit::Unit64K,
                2 => CacheSizeUnit::Unit1MB,
                v => CacheSizeUnit::Reserved(v as u8),
            },
            cache_size: f8(c2, 8, 8),
        },
        cxl_range_1_size: size(14),
        cxl_range_1_base: base(22),
        cxl_range_2_size: size(30),
        cxl_range_2_base: base(38),
    };
    ck.eq(CONTENT, "CXL device DVSEC", x, &e);
    if ck.want(REENC) {
        let v = x.cxl_control.cache_sf_coverage;
        ck.eq(REENC, "snoop filter coverage re-encoded", &(u8::from(v) as u32), &cov);
        ck.eq(REENC, "snoop filter coverage again", &CacheSfCoverage::from(u8::from(v)), &v);
    }
}
