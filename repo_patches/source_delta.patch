From 7ef01df5f92c9cffe329c2fc8c66de50c47ac255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:35 +0000
Subject: [PATCH 01/22] fix: stop capability enumeration after an unreachable
 capability header

---
 src/capabilities.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/capabilities.rs b/src/capabilities.rs
index cb57c93..814cff9 100644
--- a/src/capabilities.rs
+++ b/src/capabilities.rs
@@ -369,6 +369,7 @@ fn parse_cap<'a>(bytes: &'a [u8], pointer: &mut u8, header: &'a Header) -> Capab
         *pointer = *next;
         (*id, rest)
     } else {
+        *pointer = 0;
         return Err(CapabilityError::Header { ptr });
     };
     use CapabilityKind as Kind;
-- 
2.43.0


From 30228e0d3eb3bb0151d6059da9919eb21ebebfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:42 +0000
Subject: [PATCH 02/22] fix: terminate enumeration of looped capability lists

---
 src/capabilities.rs          | 13 ++++++++++---
 src/extended_capabilities.rs | 11 ++++++++++-
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/capabilities.rs b/src/capabilities.rs
index 814cff9..b989928 100644
--- a/src/capabilities.rs
+++ b/src/capabilities.rs
@@ -342,18 +342,25 @@ pub struct Capabilities<'a> {
     data: &'a [u8],
     header: &'a Header,
     pointer: u8,
+    // One bit per already visited dword of the first 256 bytes
+    visited: u64,
 }
 impl<'a> Capabilities<'a> {
     pub fn new(data: &'a [u8], header: &'a Header) -> Self {
-        Self { data, header, pointer: header.capabilities_pointer }
+        Self { data, header, pointer: header.capabilities_pointer, visited: 0 }
     }
 }
 impl<'a> Iterator for Capabilities<'a> {
     type Item = CapabilityResult<'a>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        // Stop iterating if next pointer is null
-        (self.pointer != 0).then(|| parse_cap(self.data, &mut self.pointer, self.header))
+        // Stop iterating if next pointer is null or list is looped
+        let mask = 1 << (self.pointer >> 2);
+        if self.pointer == 0 || self.visited & mask != 0 {
+            return None;
+        }
+        self.visited |= mask;
+        Some(parse_cap(self.data, &mut self.pointer, self.header))
     }
 }
 
diff --git a/src/extended_capabilities.rs b/src/extended_capabilities.rs
index 2d2f0fe..031ea0f 100644
--- a/src/extended_capabilities.rs
+++ b/src/extended_capabilities.rs
@@ -186,10 +186,12 @@ pub struct ExtendedCapabilities<'a> {
     ecs: &'a [u8],
     /// PCI Configuration Space offset
     next_capability_offset: u16,
+    // One bit per already visited dword of the 4096 bytes
+    visited: [u64; 16],
 }
 impl<'a> ExtendedCapabilities<'a> {
     pub fn new(ecs: &'a [u8]) -> Self {
-        Self { ecs, next_capability_offset: ECS_OFFSET as u16 }
+        Self { ecs, next_capability_offset: ECS_OFFSET as u16, visited: [0; 16] }
     }
 }
 impl<'a> Iterator for ExtendedCapabilities<'a> {
@@ -199,6 +201,13 @@ impl<'a> Iterator for ExtendedCapabilities<'a> {
         if self.next_capability_offset == 0 {
             return None;
         }
+        // Stop iterating if list is looped
+        let dword = (self.next_capability_offset >> 2) as usize;
+        let (word, mask) = (&mut self.visited[dword / 64], 1 << (dword % 64));
+        if *word & mask != 0 {
+            return None;
+        }
+        *word |= mask;
         match parse_ecap(self.ecs, &mut self.next_capability_offset) {
             Err(ExtendedCapabilityError::EmptyHeader { .. }) => None,
             v => Some(v),
-- 
2.43.0


From 7dd9e6c2b2384bf5ce60a0c2b2b8b790b7518279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:45 +0000
Subject: [PATCH 03/22] fix: mask reserved low bits of next capability pointers

---
 src/capabilities.rs          | 3 ++-
 src/extended_capabilities.rs | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/capabilities.rs b/src/capabilities.rs
index b989928..de38daf 100644
--- a/src/capabilities.rs
+++ b/src/capabilities.rs
@@ -373,7 +373,8 @@ fn parse_cap<'a>(bytes: &'a [u8], pointer: &mut u8, header: &'a Header) -> Capab
         CapabilityError::Pointer
     })?;
     let (id, cap_data) = if let Some([id, next, rest @ ..]) = bytes.get(offset..) {
-        *pointer = *next;
+        // The bottom two bits are reserved and must be masked
+        *pointer = *next & !0b11;
         (*id, rest)
     } else {
         *pointer = 0;
diff --git a/src/extended_capabilities.rs b/src/extended_capabilities.rs
index 031ea0f..62f8fbd 100644
--- a/src/extended_capabilities.rs
+++ b/src/extended_capabilities.rs
@@ -289,7 +289,9 @@ fn parse_ecap<'a>(
         return Err(ExtendedCapabilityError::EmptyHeader { offset });
     }
     let (id, version, next_cap_offset) = P3::<_, 16, 4, 12>(*dword).lsb_into();
-    *next_capability_offset = next_cap_offset;
+    // The bottom two bits are reserved and must be masked
+    let next_cap_offset: u16 = next_cap_offset;
+    *next_capability_offset = next_cap_offset & !0b11;
 
     let ecap_data = &bytes[ecap_data_offset..];
 
-- 
2.43.0


From 774eca07724cfa9800ca0b88f29fbfeed5511e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:48 +0000
Subject: [PATCH 04/22] fix: decode extended capabilities from their own offset

---
 src/extended_capabilities.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/extended_capabilities.rs b/src/extended_capabilities.rs
index 62f8fbd..f74a767 100644
--- a/src/extended_capabilities.rs
+++ b/src/extended_capabilities.rs
@@ -294,6 +294,8 @@ fn parse_ecap<'a>(
     *next_capability_offset = next_cap_offset & !0b11;
 
     let ecap_data = &bytes[ecap_data_offset..];
+    // Capability data including header
+    let ecap_bytes = &bytes[ecs_offset..];
 
     use ExtendedCapabilityKind as Kind;
     let kind = match id {
@@ -327,7 +329,7 @@ fn parse_ecap<'a>(
             .map(Kind::RootComplexEventCollectorEndpointAssociation)
             .context(DataSnafu { offset })?,
         // MFVC use data with PCI Express Extended Capability Header for simpler calculations
-        0x0008 => bytes
+        0x0008 => ecap_bytes
             .try_into()
             .map(Kind::MultifunctionVirtualChannel)
             .context(MultifunctionVirtualChannelSnafu { offset })?,
@@ -335,7 +337,7 @@ fn parse_ecap<'a>(
             .try_into()
             .map(Kind::VirtualChannelMfvcPresent)
             .context(DataSnafu { offset })?,
-        0x000A => bytes
+        0x000A => ecap_bytes
             .try_into()
             .map(Kind::RootComplexRegisterBlockHeader)
             .context(DataSnafu { offset })?,
@@ -343,7 +345,7 @@ fn parse_ecap<'a>(
             .try_into()
             .map(Kind::VendorSpecificExtendedCapability)
             .context(DataSnafu { offset })?,
-        0x000C => bytes
+        0x000C => ecap_bytes
             .try_into()
             .map(Kind::ConfigurationAccessCorrelation)
             .context(DataSnafu { offset })?,
@@ -364,7 +366,7 @@ fn parse_ecap<'a>(
             .map(Kind::SingleRootIoVirtualization)
             .context(DataSnafu { offset })?,
         0x0011 => Kind::MultiRootIoVirtualization(MultiRootIoVirtualization),
-        0x0012 => bytes
+        0x0012 => ecap_bytes
             .try_into()
             .map(Kind::Multicast)
             .context(DataSnafu { offset })?,
@@ -373,11 +375,11 @@ fn parse_ecap<'a>(
             .map(Kind::PageRequestInterface)
             .context(DataSnafu { offset })?,
         0x0014 => Kind::ReservedForAmd(ReservedForAmd),
-        0x0015 => bytes
+        0x0015 => ecap_bytes
             .try_into()
             .map(Kind::ResizableBar)
             .context(ResizableBarSnafu { offset })?,
-        0x0016 => bytes
+        0x0016 => ecap_bytes
             .try_into()
             .map(Kind::DynamicPowerAllocation)
             .context(DynamicPowerAllocationSnafu { offset })?,
@@ -393,7 +395,7 @@ fn parse_ecap<'a>(
             .try_into()
             .map(Kind::SecondaryPciExpress)
             .context(DataSnafu { offset })?,
-        0x001A => bytes
+        0x001A => ecap_bytes
             .try_into()
             .map(Kind::ProtocolMultiplexing)
             .context(ProtocolMultiplexingSnafu { offset })?,
@@ -401,7 +403,7 @@ fn parse_ecap<'a>(
             .try_into()
             .map(Kind::ProcessAddressSpaceId)
             .context(DataSnafu { offset })?,
-        0x001C => bytes
+        0x001C => ecap_bytes
             .try_into()
             .map(Kind::LnRequester)
             .context(DataSnafu { offset })?,
@@ -417,23 +419,23 @@ fn parse_ecap<'a>(
             .try_into()
             .map(Kind::PrecisionTimeMeasurement)
             .context(DataSnafu { offset })?,
-        0x0020 => bytes
+        0x0020 => ecap_bytes
             .try_into()
             .map(Kind::PciExpressOverMphy)
             .context(DataSnafu { offset })?,
-        0x0021 => bytes
+        0x0021 => ecap_bytes
             .try_into()
             .map(Kind::FrsQueuing)
             .context(DataSnafu { offset })?,
-        0x0022 => bytes
+        0x0022 => ecap_bytes
             .try_into()
             .map(Kind::ReadinessTimeReporting)
             .context(DataSnafu { offset })?,
-        0x0023 => bytes
+        0x0023 => ecap_bytes
             .try_into()
             .map(Kind::DesignatedVendorSpecificExtendedCapability)
             .context(DesignatedVendorSpecificExtendedCapabilitySnafu { offset })?,
-        0x0024 => bytes
+        0x0024 => ecap_bytes
             .try_into()
             .map(Kind::VfResizableBar)
             .context(VfResizableBarSnafu { offset })?,
-- 
2.43.0


From 2476f713c385715a1f511edf4d488d643b95e1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:51 +0000
Subject: [PATCH 05/22] fix: report extended capability ids 2Dh to 34h as their
 named kinds

---
 src/extended_capabilities.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/extended_capabilities.rs b/src/extended_capabilities.rs
index f74a767..7e049cb 100644
--- a/src/extended_capabilities.rs
+++ b/src/extended_capabilities.rs
@@ -447,6 +447,14 @@ fn parse_ecap<'a>(
         0x002A => Kind::PhysicalLayer32GTps(PhysicalLayer32GTps),
         0x002B => Kind::AlternateProtocol(AlternateProtocol),
         0x002C => Kind::SystemFirmwareIntermediary(SystemFirmwareIntermediary),
+        0x002D => Kind::ShadowFunctions(ShadowFunctions),
+        0x002E => Kind::DataObjectExchange(DataObjectExchange),
+        0x002F => Kind::Device3(Device3),
+        0x0030 => Kind::IntegrityAndDataEncryption(IntegrityAndDataEncryption),
+        0x0031 => Kind::PhysicalLayer64GTps(PhysicalLayer64GTps),
+        0x0032 => Kind::FlitLogging(FlitLogging),
+        0x0033 => Kind::FlitPerformanceMeasurement(FlitPerformanceMeasurement),
+        0x0034 => Kind::FlitErrorInjection(FlitErrorInjection),
         v => Kind::Reserved(v),
     };
     Ok(ExtendedCapability {
-- 
2.43.0


From 2ce3e51df6d89184b51971501b2eff84b5d42145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:45 +0000
Subject: [PATCH 06/22] fix: read AER TLP Prefix Log from its own registers

---
 src/extended_capabilities/advanced_error_reporting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/advanced_error_reporting.rs b/src/extended_capabilities/advanced_error_reporting.rs
index 6322fe8..e09f010 100644
--- a/src/extended_capabilities/advanced_error_reporting.rs
+++ b/src/extended_capabilities/advanced_error_reporting.rs
@@ -267,7 +267,7 @@ impl TryFrom<&[u8]> for AdvancedErrorReporting {
             } = P2(slice)
                 .try_into()
                 .map_err(|_| AdvancedErrorReportingError::TlpPrefixLog)?;
-            let _: [u8; Self::RP_AND_RCEC_SIZE] = _rp_and_rcec;
+            let _: [u8; Self::RP_AND_RCEC_SIZE - Self::COMMON_SIZE] = _rp_and_rcec;
             let Le(tlp_prefix_log) = From::<[u8; Self::TLP_PREFIX_LOG_SIZE]>::from(tlp_prefix_log);
             Some(TlpPrefixLog(tlp_prefix_log))
         } else {
-- 
2.43.0


From 5e9d6dd2a1df1d53412e605fa698ead697660e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:13 +0000
Subject: [PATCH 07/22] fix: do not panic on absent or truncated virtual
 channel arbitration tables

---
 src/extended_capabilities/virtual_channel.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/extended_capabilities/virtual_channel.rs b/src/extended_capabilities/virtual_channel.rs
index abf4c87..f179f63 100644
--- a/src/extended_capabilities/virtual_channel.rs
+++ b/src/extended_capabilities/virtual_channel.rs
@@ -118,10 +118,8 @@ impl<'a> VirtualChannel<'a> {
             .port_vc_control
             .vc_arbitration_select
             .vc_arbitration_table_length();
-        let start = offset as usize * DQWORD - ECH_BYTES;
         // VC Arbitration Table entry length is 4 bits, so there are 2 entries in one byte
-        let end = start + entries_number / 2;
-        let data = &self.data[start..end];
+        let data = self.table_data(offset, entries_number / 2);
         VcArbitrationTable::new(data)
     }
     pub fn port_arbitration_table(
@@ -137,11 +135,17 @@ impl<'a> VirtualChannel<'a> {
             .vc_resource_control
             .port_arbitration_select
             .port_arbitration_table_length();
-        let start = offset as usize * DQWORD - ECH_BYTES;
-        let end = start + entry_size_bits * entries_number / 8;
-        let data = &self.data[start..end];
+        let data = self.table_data(offset, entry_size_bits * entries_number / 8);
         PortArbitrationTable::new(data, entry_size_bits)
     }
+
+    /// Data of the table, empty if table is not present or resides outside of available data
+    fn table_data(&self, offset: u8, size: usize) -> &'a [u8] {
+        (offset as usize * DQWORD)
+            .checked_sub(ECH_BYTES)
+            .and_then(|start| self.data.get(start..start + size))
+            .unwrap_or_default()
+    }
 }
 impl<'a> TryFrom<&'a [u8]> for VirtualChannel<'a> {
     type Error = ExtendedCapabilityDataError;
-- 
2.43.0


From 61192d3af53ce8a8e4fb8e49a64f29a4a7fb2969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:16 +0000
Subject: [PATCH 08/22] fix: do not panic on truncated lane equalization
 control data

---
 src/extended_capabilities/secondary_pci_express.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/secondary_pci_express.rs b/src/extended_capabilities/secondary_pci_express.rs
index 0e428b2..4f43d42 100644
--- a/src/extended_capabilities/secondary_pci_express.rs
+++ b/src/extended_capabilities/secondary_pci_express.rs
@@ -79,7 +79,7 @@ impl<'a> SecondaryPciExpress<'a> {
     ) -> EqualizationControlLanes<'a> {
         // One Lane Equalization Control 2 bytes width
         let end = (u8::from(link_width) as usize) * 2;
-        EqualizationControlLanes::new(&self.ecl_data[..end])
+        EqualizationControlLanes::new(self.ecl_data.get(..end).unwrap_or(self.ecl_data))
     }
 }
 impl<'a> TryFrom<&'a [u8]> for SecondaryPciExpress<'a> {
-- 
2.43.0


From d3d4e89017504aca612452dc3e1514c4f458715e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:56 +0000
Subject: [PATCH 09/22] fix: decode the whole ACS egress control vector size
 and iterate over all of its bits

---
 src/extended_capabilities/access_control_services.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extended_capabilities/access_control_services.rs b/src/extended_capabilities/access_control_services.rs
index d7bfed8..c1d16d2 100644
--- a/src/extended_capabilities/access_control_services.rs
+++ b/src/extended_capabilities/access_control_services.rs
@@ -65,7 +65,7 @@ pub struct AccessControlServices<'a> {
 impl<'a> AccessControlServices<'a> {
     pub fn egress_control_vectors(&self) -> EgressControlVectors<'a> {
         let size = self.acs_capability.egress_control_vector_size as usize;
-        let end = size / (u32::BITS as usize) * ECV_BYTES;
+        let end = (size + u32::BITS as usize - 1) / (u32::BITS as usize) * ECV_BYTES;
         EgressControlVectors::new(self.data.get(..end).unwrap_or_default(), size)
     }
 }
@@ -124,7 +124,7 @@ impl From<u16> for AcsCapability {
             acs_direct_translated_p2p,
             (),
             egress_control_vector_size,
-        )) = P9::<_, 1, 1, 1, 1, 1, 1, 1, 1, 7>(word).into();
+        )) = P9::<_, 1, 1, 1, 1, 1, 1, 1, 1, 8>(word).into();
         Self {
             acs_source_validation,
             acs_translation_blocking,
-- 
2.43.0


From 6c10cf5b2c73582e97fae1da0ccc1d73b9d371e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:29 +0000
Subject: [PATCH 10/22] fix: place latency scale right after value when
 encoding LTR max latency

---
 src/extended_capabilities/l1_pm_substates.rs             | 4 +++-
 src/extended_capabilities/latency_tolerance_reporting.rs | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/extended_capabilities/l1_pm_substates.rs b/src/extended_capabilities/l1_pm_substates.rs
index c724ba5..66642ce 100644
--- a/src/extended_capabilities/l1_pm_substates.rs
+++ b/src/extended_capabilities/l1_pm_substates.rs
@@ -255,7 +255,9 @@ impl From<L1PmSubstatesControl1> for u32 {
             | u8::from(data.pci_pm_l1_1_enable) << 1
             | u8::from(data.aspm_l1_2_enable) << 2
             | u8::from(data.aspm_l1_1_enable) << 3;
-        let [b2, b3] = u16::from(data.ltr_l1_2_threshold).to_le_bytes();
+        // Unlike LTR Max Latency Register the scale resides in the topmost bits
+        let MaxLatency { value, scale } = data.ltr_l1_2_threshold;
+        let [b2, b3] = ((scale as u16) << 13 | value).to_le_bytes();
         u32::from_le_bytes([b0, data.common_mode_restore_time, b2, b3])
     }
 }
diff --git a/src/extended_capabilities/latency_tolerance_reporting.rs b/src/extended_capabilities/latency_tolerance_reporting.rs
index 595ab9c..47277f0 100644
--- a/src/extended_capabilities/latency_tolerance_reporting.rs
+++ b/src/extended_capabilities/latency_tolerance_reporting.rs
@@ -86,6 +86,6 @@ impl From<u16> for MaxLatency {
 
 impl From<MaxLatency> for u16 {
     fn from(data: MaxLatency) -> Self {
-        (data.scale as u16) << 13 | data.value
+        (data.scale as u16) << 10 | data.value
     }
 }
-- 
2.43.0


From 11373e376decadaecf3ae10c6245d07af770da4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:54 +0000
Subject: [PATCH 11/22] fix: encode every kind of base address register and do
 not panic at the last region

---
 src/header/bar.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/header/bar.rs b/src/header/bar.rs
index 3bdc60f..9a85a3f 100644
--- a/src/header/bar.rs
+++ b/src/header/bar.rs
@@ -98,12 +98,19 @@ impl<const N: usize> FromIterator<BaseAddress> for [u32; N] {
                 },
                 BaseAddressType::MemorySpace64 { prefetchable, base_address, } => {
                     dwords[i] = (base_address as u32) & !0b1111 | 0b100 | ((prefetchable as u32) << 3);
-                    dwords[i + 1] = (base_address >> 32) as u32;
+                    if let Some(dword) = dwords.get_mut(i + 1) {
+                        *dword = (base_address >> 32) as u32;
+                    }
+                },
+                BaseAddressType::MemorySpaceReserved { prefetchable, base_address, } => {
+                    dwords[i] = base_address & !0b1111 | 0b110 | ((prefetchable as u32) << 3);
+                },
+                BaseAddressType::MemorySpace64Broken { prefetchable, } => {
+                    dwords[i] = 0b100 | ((prefetchable as u32) << 3);
                 },
                 BaseAddressType::IoSpace { base_address, } => {
                     dwords[i] = base_address & !0b11 | 0b01;
                 },
-                _ => (),
             }
 
         }
-- 
2.43.0


From 85097680374c6d5b05c09daf6859d5414759ef98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:24 +0000
Subject: [PATCH 12/22] fix: keep address capability when encoding CardBus I/O
 address ranges

---
 src/header.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index 86721a8..970b797 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -764,14 +764,22 @@ impl From<IoAccessAddressRange > for [[u16;2]; 2] {
             },
             IoAccessAddressRange::Addr32Bit { base, limit } => {
                 let base = base.to_le_bytes();
-                let base_upper = u16::from_le_bytes([base[0] & !0b11, base[1]]);
+                let base_upper = u16::from_le_bytes([base[0] & !0b11 | 0b01, base[1]]);
                 let base_lower = u16::from_le_bytes([base[2], base[3]]);
                 let limit = limit.to_le_bytes();
                 let limit_upper = u16::from_le_bytes([limit[0], limit[1]]);
                 let limit_lower = u16::from_le_bytes([limit[2], limit[3]]);
                 [[base_upper, base_lower], [limit_upper, limit_lower]]
             },
-            _ => unreachable!(),
+            IoAccessAddressRange::Unknown {
+                io_address_capability,
+                base_lower,
+                base_upper,
+                limit_lower,
+                limit_upper,
+            } => {
+                [[base_lower & !0b11 | io_address_capability as u16, base_upper], [limit_lower, limit_upper]]
+            },
         }
     }
 }
-- 
2.43.0


From b307de5f14c85b4f9afb2bdbcafcda58a5036b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:57 +0000
Subject: [PATCH 13/22] fix: report unreadable second DW of type 1 enhanced
 allocation as such

---
 src/capabilities/enhanced_allocation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/capabilities/enhanced_allocation.rs b/src/capabilities/enhanced_allocation.rs
index 92ed617..bbe42ea 100644
--- a/src/capabilities/enhanced_allocation.rs
+++ b/src/capabilities/enhanced_allocation.rs
@@ -88,7 +88,7 @@ impl<'a> EnhancedAllocation<'a> {
                         entries: EnhancedAllocationEntries::new(slice, num_entries),
                     })
                 } else {
-                    Err(EnhancedAllocationError::NumEntries)
+                    Err(EnhancedAllocationError::Type1SecondDw)
                 }
             } else {
                 Ok(Self {
-- 
2.43.0


From 586f4cb6147927f207ed2616ffbcb7a2b0aaac06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:32 +0000
Subject: [PATCH 14/22] fix: return PCI-X maximum cumulative read size in bytes

---
 src/capabilities/pci_x.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/capabilities/pci_x.rs b/src/capabilities/pci_x.rs
index c5cac1b..78d70b9 100644
--- a/src/capabilities/pci_x.rs
+++ b/src/capabilities/pci_x.rs
@@ -398,7 +398,7 @@ impl MaximumCumulativeReadSize {
         1 << (self.0 + 3)
     }
     pub fn bytes(&self) -> usize {
-        1 << self.0
+        1 << (self.0 + 10)
     }
 }
 
-- 
2.43.0


From 3a1c88a7ac6672921ec692a18f61c0ecb2514ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:35 +0000
Subject: [PATCH 15/22] fix: correct lower bound of completion timeout range C

---
 src/capabilities/pci_express.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/capabilities/pci_express.rs b/src/capabilities/pci_express.rs
index 0bab228..ccb9f9d 100644
--- a/src/capabilities/pci_express.rs
+++ b/src/capabilities/pci_express.rs
@@ -1637,7 +1637,7 @@ pub enum CompletionTimeoutRanges {
 impl CompletionTimeoutRanges {
     pub const A: Range<f64> = 50e-6..10e-3;
     pub const B: Range<f64> = 10e-3..250e-3;
-    pub const C: Range<f64> = 250e-6..4.0;
+    pub const C: Range<f64> = 250e-3..4.0;
     pub const D: Range<f64> = 4.0..64.0;
 }
 impl From<u8> for CompletionTimeoutRanges {
-- 
2.43.0


From cc96e255e813d245bed87c570fb754ed59c00a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:27 +0000
Subject: [PATCH 16/22] fix: ignore reserved bits of CXL range base low
 register

---
 .../compute_express_link/pcie_dvsec_for_cxl_device.rs           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/designated_vendor_specific_extended_capability/compute_express_link/pcie_dvsec_for_cxl_device.rs b/src/extended_capabilities/designated_vendor_specific_extended_capability/compute_express_link/pcie_dvsec_for_cxl_device.rs
index 6ce5f83..0a18ea2 100644
--- a/src/extended_capabilities/designated_vendor_specific_extended_capability/compute_express_link/pcie_dvsec_for_cxl_device.rs
+++ b/src/extended_capabilities/designated_vendor_specific_extended_capability/compute_express_link/pcie_dvsec_for_cxl_device.rs
@@ -735,7 +735,7 @@ impl CxlRangeBase {
 impl CxlRangeBase {
     pub fn new(low: u32, high: u32) -> Self {
         Self {
-            memory_base: (low as u64) | ((high as u64) << 32),
+            memory_base: (low as u64 & !0xfff_ffff) | ((high as u64) << 32),
         }
     }
 }
-- 
2.43.0


From 94ff65d917f4ecfd3f4c513b67fe771a94f64315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:16 +0000
Subject: [PATCH 17/22] fix: report the size of the Virtual Channel port
 registers in the data error

---
 src/extended_capabilities/virtual_channel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/virtual_channel.rs b/src/extended_capabilities/virtual_channel.rs
index f179f63..14b5311 100644
--- a/src/extended_capabilities/virtual_channel.rs
+++ b/src/extended_capabilities/virtual_channel.rs
@@ -158,7 +158,7 @@ impl<'a> TryFrom<&'a [u8]> for VirtualChannel<'a> {
             .try_into()
             .map_err(|_| ExtendedCapabilityDataError {
                 name: "Virtual Channel",
-                size: 8,
+                size: 12,
             })?;
         Ok(Self {
             data: slice,
-- 
2.43.0


From fe8e5e9641baa89535249135372177ceb3bbeef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:19 +0000
Subject: [PATCH 18/22] fix: expect Substate_Max plus one entries in the
 Dynamic Power Allocation error

---
 src/extended_capabilities/dynamic_power_allocation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/dynamic_power_allocation.rs b/src/extended_capabilities/dynamic_power_allocation.rs
index 50fc5b6..8274f95 100644
--- a/src/extended_capabilities/dynamic_power_allocation.rs
+++ b/src/extended_capabilities/dynamic_power_allocation.rs
@@ -98,7 +98,7 @@ impl<'a> TryFrom<&'a [u8]> for DynamicPowerAllocation<'a> {
         let substate_max = substate_max as usize;
         tail.get(..substate_max + 1)
             .ok_or(DynamicPowerAllocationError::DpaAllocationArray {
-                expected: substate_max,
+                expected: substate_max + 1,
                 found: tail.len(),
             })
             .map(|slice| Self {
-- 
2.43.0


From 1a3a7a73d702470ca948f497c1f49e1ec0a1e8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:44 +0000
Subject: [PATCH 19/22] fix: yield 256 bits for egress control vector size
 encoding 00h

---
 src/extended_capabilities/access_control_services.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/extended_capabilities/access_control_services.rs b/src/extended_capabilities/access_control_services.rs
index c1d16d2..8b71c25 100644
--- a/src/extended_capabilities/access_control_services.rs
+++ b/src/extended_capabilities/access_control_services.rs
@@ -64,7 +64,13 @@ pub struct AccessControlServices<'a> {
 
 impl<'a> AccessControlServices<'a> {
     pub fn egress_control_vectors(&self) -> EgressControlVectors<'a> {
-        let size = self.acs_capability.egress_control_vector_size as usize;
+        let AcsCapability { acs_p2p_egress_control, egress_control_vector_size, .. } =
+            self.acs_capability;
+        // Encoding 00h of an implemented vector indicates 256 bits
+        let size = match egress_control_vector_size {
+            0 if acs_p2p_egress_control => 256,
+            v => v as usize,
+        };
         let end = (size + u32::BITS as usize - 1) / (u32::BITS as usize) * ECV_BYTES;
         EgressControlVectors::new(self.data.get(..end).unwrap_or_default(), size)
     }
-- 
2.43.0


From 977a162eae33f40ac54dc6cee90f346f5d32eaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:16 +0000
Subject: [PATCH 20/22] fix: compare the byte being read in
 PortArbitrationTable equality

Two partially consumed tables whose current byte differs but whose remaining
bytes are the same compared equal while yielding different entries.
---
 src/extended_capabilities/virtual_channel.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/extended_capabilities/virtual_channel.rs b/src/extended_capabilities/virtual_channel.rs
index 14b5311..338c5b5 100644
--- a/src/extended_capabilities/virtual_channel.rs
+++ b/src/extended_capabilities/virtual_channel.rs
@@ -428,6 +428,7 @@ impl<'a> PartialEq for PortArbitrationTable<'a> {
         self.data.clone().eq(other.data.clone())
             && self.entry_size_bits == other.entry_size_bits
             && self.shift == other.shift
+            && self.byte == other.byte
     }
 }
 impl<'a> Eq for PortArbitrationTable<'a> {}
-- 
2.43.0


From dd1367811ef41175f884cbf94e1e8228d863d818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:16 +0000
Subject: [PATCH 21/22] fix: compare the state in LinkEntries equality

A declaration cut between two entries and one cut inside an entry compared
equal although their public state differs (Incomplete and Invalid).
---
 src/extended_capabilities/root_complex_link_declaration.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/root_complex_link_declaration.rs b/src/extended_capabilities/root_complex_link_declaration.rs
index 4583339..73a3c58 100644
--- a/src/extended_capabilities/root_complex_link_declaration.rs
+++ b/src/extended_capabilities/root_complex_link_declaration.rs
@@ -260,7 +260,7 @@ impl<'a> LinkEntries<'a> {
 
 impl<'a> PartialEq for LinkEntries<'a> {
     fn eq(&self, other: &Self) -> bool {
-        self.clone().eq(other.clone())
+        self.state == other.state && self.clone().eq(other.clone())
     }
 }
 impl<'a> Eq for LinkEntries<'a> {}
-- 
2.43.0


From 96bf158ddbc078c8299293429c2bdeaf61cb8920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:04 +0000
Subject: [PATCH 22/22] fix: slot power limit values F0h-F2h with scale 1.0x
 are 250, 275 and 300 W

---
 src/capabilities/pci_express.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/capabilities/pci_express.rs b/src/capabilities/pci_express.rs
index ccb9f9d..dab388d 100644
--- a/src/capabilities/pci_express.rs
+++ b/src/capabilities/pci_express.rs
@@ -723,12 +723,18 @@ impl SlotPowerLimit {
 impl Eq for SlotPowerLimit {}
 impl From<SlotPowerLimit> for f32 {
     fn from(cspl: SlotPowerLimit) -> Self {
-        cspl.scale * cspl.value as f32
+        From::from(&cspl)
     }
 }
 impl<'a> From<&'a SlotPowerLimit> for f32 {
     fn from(cspl: &SlotPowerLimit) -> Self {
-        cspl.scale * cspl.value as f32
+        match cspl.value {
+            // When the scale is 1.0x, values above EFh are alternative encodings
+            0xF0 if cspl.scale == 1.0 => 250.0,
+            0xF1 if cspl.scale == 1.0 => 275.0,
+            0xF2 if cspl.scale == 1.0 => 300.0,
+            value => cspl.scale * value as f32,
+        }
     }
 }
 
-- 
2.43.0

