#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here in a compact form)."""
import json
IN="inputs"; HI="histories"; CO="configurations"
C="src/capabilities/"; E="src/extended_capabilities/"; H="src/header/"
P=[]
def p(id,title,stmt,over,q,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
BYTES="every header image, every device-dependent region of 0..=192+ bytes and every extended configuration space of 0..=3840+ bytes, whatever the bytes are"
SAMPLE="The unit tests decode one or two hand-made register values per structure and a handful of captured devices; most field values, field combinations and lengths are never exercised."
p("P01","Decoding is total: no bytes make it panic or overflow",
 "Constructing a header from 64 bytes, enumerating conventional and extended capabilities, walking every nested list or table they expose, and calling every derived-value or re-encoding helper on the decoded result never panics, never reads outside the given slices and never overflows. Malformed or truncated contents show up only as error values, absent optional parts or shorter lists.",
 [IN],BYTES+", including inconsistent sizes, counts, types and pointers inside them",
 SAMPLE+" Panics hide in unreachable-looking arms, slice indexing by a size field and shifts by a field value.",
 ["src/header.rs","src/capabilities.rs","src/extended_capabilities.rs"],
 [("conventional capability parser","src/capabilities.rs: parse_cap"),("extended capability parser","src/extended_capabilities.rs: parse_ecap"),("nested iterators","src/*/ virtual_channel, multifunction_virtual_channel, access_control_services, enhanced_allocation, resizable_bar ...")])
p("P02","Capability enumeration always ends and visits each position once",
 "Enumerating the conventional or the extended capability list yields finitely many items for any bytes: no configuration-space position is reported twice, at most one item per dword-aligned position is yielded, and after the end the enumeration keeps returning nothing. An unreadable header or a pointer outside the region ends the list after a single error.",
 [IN,HI],BYTES+"; in particular chains that loop back, self-reference, or leave the region; and every number of further calls after the end",
 "Tests use well-formed acyclic lists; a looping chain makes enumeration run forever and is never sampled.",
 ["src/capabilities.rs","src/extended_capabilities.rs"],
 [("visited tracking / stop rule","src/capabilities.rs: Iterator for Capabilities; src/extended_capabilities.rs: Iterator for ExtendedCapabilities"),("nested lists","enhanced_allocation, resizable_bar, root_complex_link_declaration, virtual_channel, protocol_multiplexing iterators")])
p("P03","Conventional capability list follows the linked list exactly",
 "The conventional enumeration yields one item per element of the linked list that starts at the header's capabilities pointer, in list order, each carrying its own position, and continues past a capability whose body cannot be decoded. A start pointer of zero gives an empty list, a pointer below 40h or beyond the supplied bytes gives exactly one error, and the reserved low two bits of next pointers are ignored. The published offset and length constants delimit the device-dependent region (40h to FFh) the positions refer to.",
 [IN],"every list topology (forward, backward, overlapping, unaligned, dangling, looping) over the 48 dword positions and every region length",
 SAMPLE,["src/capabilities.rs"],[("next pointer handling","src/capabilities.rs: parse_cap"),("start pointer","src/header.rs: capabilities_pointer")])
p("P04","Extended capability list follows the linked list exactly",
 "The extended enumeration starts at offset 100h and yields one item per element of the linked list in order, each carrying its own offset and version, continuing past a capability whose body cannot be decoded. An all-zero header ends the list silently, an unreadable header or an offset below 100h gives exactly one error, and the reserved low two bits of next offsets are ignored. The published offset and length constants delimit the extended space (100h to FFFh) the offsets refer to.",
 [IN],"every list topology over the 960 dword positions of the extended space, every header value, every region length",
 SAMPLE,["src/extended_capabilities.rs"],[("next offset handling","src/extended_capabilities.rs: parse_ecap, Iterator::next")])
p("P05","Reported capability kind always matches the capability ID",
 "Every listed capability is reported as the kind its ID assigns (including the kinds without a decoded body), an unassigned ID is reported as reserved carrying that ID, and asking an extended capability for its ID returns the ID stored in the configuration space. Capability ID 07h is the bridge form exactly when the function is a PCI-to-PCI bridge.",
 [IN],"all 256 conventional and 65536 extended IDs, all versions, all header layouts, at any position",
 SAMPLE+" Most IDs never occur in the captures.",["src/capabilities.rs","src/extended_capabilities.rs"],[("id dispatch","parse_cap / parse_ecap match arms"),("reverse mapping","ExtendedCapability::id")])
p("P06","Header registers decode to the values stored at their spec offsets",
 "Decoding a 64-byte header yields, for all three header layouts, exactly the IDs, command and status flags, revision, cache line, latency timers, header layout and multi-function bit, BIST, subsystem IDs, bus numbers, bridge control, secondary status, interrupt routing and capabilities pointer stored at the offsets and bits the PCI specifications give. The layout is chosen by the low seven bits of the header type only, and each field depends on no other bits.",
 [IN],"every 64-byte header (normal, bridge, CardBus, reserved layouts)",SAMPLE,
 ["src/header.rs",H+"command.rs",H+"status.rs",H+"bridge_control.rs",H+"cardbus_bridge_control.rs"],[("header conversion","src/header.rs: From<[u8; 64]> / TryFrom"),("register structs",H)])
p("P07","Base address registers decode by type, width and pairing rules",
 "Each base address register is reported with its region number, kind (I/O, 32-bit, 1 MB, 64-bit, reserved, broken 64-bit), prefetchable flag and address with the flag bits removed; a 64-bit BAR consumes the following register as its upper half and an all-zero register is skipped. The walk covers exactly the number of registers of the header layout; a list of any other number of registers built directly follows the same rules.",
 [IN],"all values of all BAR registers and every combination of kinds over the six (normal) or two (bridge) registers",SAMPLE,
 [H+"bar.rs","src/header.rs"],[("BAR iterator",H+"bar.rs: Iterator for BaseAddresses"),("BAR accessors","src/header.rs: BaseAddresses per layout")])
p("P08","Bridge windows and expansion ROM addresses decode exactly",
 "I/O, memory and prefetchable windows of PCI-to-PCI bridges, CardBus memory and I/O windows and the expansion ROM address are decoded with the width their type bits select, combined with their upper halves, with flag bits removed and the CardBus legacy and subsystem registers read only when supplied. A window whose base and limit announce different widths, or a reserved width, is reported as such instead of as an address.",
 [IN],"all values of the window base/limit/upper registers and of the expansion ROM register, and every length of the CardBus tail",SAMPLE,
 ["src/header.rs"],[("bridge windows","src/header.rs: BridgeIoAddressRange, BridgePrefetchableMemory"),("CardBus windows","src/header.rs: CardbusBridge, IoAccessAddressRange"),("ROM","src/header.rs: ExpansionRom")])
p("P09","Class code triple maps to exactly the documented meaning",
 "For every combination of base class, sub-class and programming interface the decoded class code keeps the three bytes unchanged and its meaning is the one the PCI code and ID assignment lists, with unassigned combinations falling back to the documented reserved or unspecified meaning of the nearest level. Equal meanings are never produced for codes the assignment distinguishes.",
 [IN],"all 2^24 class codes",SAMPLE,[H+"class_code.rs"],[("class table",H+"class_code.rs")])
p("P10","Power management, MSI/MSI-X and small capabilities decode exactly",
 "The power management, vital product data, slot identification, MSI (all four layouts), MSI-X, debug port, subsystem ID, SATA and advanced features capabilities are decoded so that every reported field equals the bits the specification assigns to it and depends on nothing else. Layout-selecting bits (64-bit, per-vector masking) select exactly the matching layout.",
 [IN],"all register values, at any position, for any region length",SAMPLE,
 [C+x for x in ("power_management_interface.rs","message_signaled_interrups.rs","msi_x.rs","vital_product_data.rs","slot_identification.rs","sata.rs","advanced_features.rs","debug_port.rs","bridge_subsystem_vendor_id.rs")],[("per-capability conversions",C)])
p("P11","AGP and PCI-X capabilities decode exactly",
 "AGP registers (including the optional isochronous, control, aperture and GART registers) and PCI-X device and bridge registers (including the ECC block selected by the version) are decoded bit-exactly, optional parts being present exactly when announced and supplied.",
 [IN],"all register values and versions, all region lengths",SAMPLE,[C+"accelerated_graphics_port.rs",C+"pci_x.rs"],[("AGP",C+"accelerated_graphics_port.rs"),("PCI-X",C+"pci_x.rs")])
p("P12","HyperTransport capabilities are classified and decoded exactly",
 "A HyperTransport capability is classified by its command register (three-bit codes for slave and host interfaces, five-bit codes for the rest) and the slave, host, revision and MSI mapping blocks report every field, link width, link frequency and error flag at its specified bit. Unassigned encodings are reported as reserved.",
 [IN],"all register values and all capability types, all region lengths",SAMPLE,[C+"hypertransport.rs"],[("type dispatch and blocks",C+"hypertransport.rs")])
p("P13","PCI Express capability decodes exactly for every port type and version",
 "The PCI Express capability reports device, link, slot, root and second-generation registers bit-exactly, with the device/port type, encoded speeds, widths, sizes, latencies, power limits and timeouts mapped to the documented values, and with register groups present exactly as far as the device type and the supplied bytes provide them.",
 [IN],"all register values, all 16 device/port types, all 16 versions, all region lengths",SAMPLE,[C+"pci_express.rs"],[("conversion",C+"pci_express.rs")])
p("P14","Enhanced Allocation entries decode exactly, in order, by announced size",
 "Enhanced Allocation yields one item per announced entry in order, each with its BAR equivalent, primary and secondary properties, enable and writable flags, base and maximum offset in the widths the entry announces, in both build configurations of entry sizing. A bridge additionally reports its fixed secondary and subordinate bus numbers, and an entry that does not fit the supplied data ends the list.",
 [IN,CO],"all entry sizes, widths, counts and values, header layouts, region lengths, and both entry-size configurations of the crate",SAMPLE,[C+"enhanced_allocation.rs"],[("entries",C+"enhanced_allocation.rs: EnhancedAllocationEntries")])
p("P15","Flattening portal and vendor-specific capabilities decode exactly",
 "The flattening portal bridge registers and the ranges derived from them, and the vendor-specific capability with its length-delimited payload, are reported exactly; the payload never extends past the announced length. Virtio structures are recognised exactly for virtio device IDs and report type, BAR, offset, length and notify multiplier as stored.",
 [IN],"all register values, lengths, vendor/device IDs and region lengths",SAMPLE,[C+"flattening_portal_bridge.rs",C+"vendor_specific.rs"],[("FPB",C+"flattening_portal_bridge.rs"),("vendor specific / virtio",C+"vendor_specific.rs")])
p("P16","A capability's decoded content does not depend on where it is placed",
 "Moving a capability with its registers to another aligned position, placing other capabilities before or after it, or changing bytes outside the capability's own extent leaves its decoded content unchanged; only its reported position changes.",
 [IN],"every capability kind, every pair of positions, every content of surrounding bytes",
 "Tests decode each structure at one position, usually the first; reading at a fixed or shared offset is invisible there.",
 ["src/capabilities.rs","src/extended_capabilities.rs"],[("slice handed to each decoder","parse_cap / parse_ecap")])
p("P17","Truncated data never turns into invented values",
 "When the supplied region ends inside a capability's mandatory registers the capability is reported as an error (optional trailing parts as absent), and when it ends after them the result equals the one for the full region. Enumeration of a truncated region agrees with the full region on every capability that ends before the cut.",
 [IN],"every capability kind, every content, every cut position from the capability header to past its end",
 "Tests supply complete structures; the boundary length of each structure is not exercised.",
 ["src/capabilities.rs","src/extended_capabilities.rs"],[("length guards","per-capability TryFrom<&[u8]>")])
p("P18","Advanced error reporting and port containment decode exactly",
 "Advanced error reporting and downstream port containment report every status, mask, severity, control, header log, prefix log and root error field at its specified bits, with the optional register groups present exactly when the supplied data and announced capabilities provide them.",
 [IN],"all register values and region lengths",SAMPLE,[E+"advanced_error_reporting.rs",E+"downstream_port_containment.rs"],[("AER",E+"advanced_error_reporting.rs"),("DPC",E+"downstream_port_containment.rs")])
p("P19","Virtual channel capabilities decode ports, resources and tables exactly",
 "Virtual channel and multi-function virtual channel capabilities report port registers, one resource per announced channel, and port and function arbitration tables located at their announced offsets with the selected phase count and entry width, every phase in order. Tables that are not announced or not inside the supplied data are reported as empty, absent or as an error, never as data.",
 [IN],"all channel counts, table offsets, arbitration selections and entry sizes, table contents and region lengths",SAMPLE,[E+"virtual_channel.rs",E+"multifunction_virtual_channel.rs"],[("VC",E+"virtual_channel.rs"),("MFVC",E+"multifunction_virtual_channel.rs")])
p("P20","Virtualization, isolation and resizable-BAR capabilities decode exactly",
 "SR-IOV, address translation, page request, process address space, access control (including its egress vector), alternative routing and resizable BAR capabilities report each field at its specified bits, with list entries and vector bits yielded in order and exactly as many as announced.",
 [IN],"all register values, counts and region lengths",SAMPLE,
 [E+x for x in ("single_root_io_virtualization.rs","address_translation_services.rs","page_request_interface.rs","process_address_space_id.rs","access_control_services.rs","alternative_routing_id_interpolation.rs","resizable_bar.rs")],[("per-capability conversions",E)])
p("P21","Power, latency and timing capabilities decode exactly",
 "Power budgeting, latency tolerance, dynamic power allocation, L1 substates, readiness time, precision time measurement and function readiness queuing capabilities report each field at its specified bits, including scales, unit selections and per-substate lists of the announced length.",
 [IN],"all register values, counts and region lengths",SAMPLE,
 [E+x for x in ("power_budgeting.rs","latency_tolerance_reporting.rs","dynamic_power_allocation.rs","l1_pm_substates.rs","readiness_time_reporting.rs","precision_time_measurement.rs","frs_queuing.rs")],[("per-capability conversions",E)])
p("P22","Root complex and multicast capabilities decode exactly",
 "Root complex link declaration (with its link entries of both types), internal link control, event collector association, register block header, configuration access correlation and multicast capabilities report each field at its specified bits and one item per announced link entry in order.",
 [IN],"all register values, entry counts and types, and region lengths",SAMPLE,
 [E+x for x in ("root_complex_link_declaration.rs","root_complex_internal_link_control.rs","root_complex_event_collector_endpoint_association.rs","root_complex_register_block_header.rs","configuration_access_correlation.rs","multicast.rs")],[("per-capability conversions",E)])
p("P23","Vendor-defined extended capabilities and CXL decode exactly",
 "Vendor-specific and designated vendor-specific extended capabilities report vendor, revision, ID and exactly the payload their length announces. CXL device structures are recognised only for the CXL vendor ID and structure ID and report every capability, control, status and range field at its specified bits.",
 [IN],"all register values, vendor IDs, structure IDs, lengths and region lengths",SAMPLE,[E+"vendor_specific_extended_capability.rs",E+"designated_vendor_specific_extended_capability.rs",E+"designated_vendor_specific_extended_capability/"],[("VSEC / DVSEC / CXL",E)])
p("P24","Link-layer capabilities and device serial number decode exactly",
 "Secondary PCI Express (with per-lane equalization), protocol multiplexing, LN requester, PCI Express over M-PHY, TPH requester (with its steering tag table) and device serial number capabilities report each field at its specified bits and lists with exactly the announced and available elements, in order.",
 [IN],"all register values, counts and region lengths",SAMPLE,
 [E+x for x in ("secondary_pci_express.rs","protocol_multiplexing.rs","ln_requester.rs","pci_express_over_m_phy.rs","tph_requester.rs","device_serial_number.rs")],[("per-capability conversions",E)])
p("P25","Re-encoding a decoded register yields the original bits",
 "Wherever the library converts a decoded value back to its register or byte form, the result equals the original register restricted to the defined bits, and decoding that result again gives the same value.",
 [IN],"every register value of every type that offers a conversion back (command, status, BARs, CardBus ranges, bus numbers, power management, HyperTransport, latency, substates and others)",
 "Tests round-trip one or two values per type.",
 [H,C,E],[("reverse conversions","From<Type> for u8/u16/u32/[u8; N] implementations")])
p("P26","Derived quantities equal their definition for every register value",
 "Every helper that turns an encoded field into a quantity - sizes in bytes, latencies, power values, frequencies, addresses, vector counts, timeouts, window bounds, presence of supported rates - returns the documented value for every encoding, and signals reserved encodings the documented way. Comparing two assigned link speeds or link widths orders them by rate or by number of lanes.",
 [IN],"all encodings of all fields with a derived-value helper","Tests evaluate a few encodings; boundary and reserved encodings are not covered.",
 [C,E,H],[("value helpers","methods and From<...> for f32/usize/u64/ranges")])
p("P27","Errors name the failing capability's position, kind and required size",
 "An error produced while decoding a capability carries that capability's own position and the reason, and its text shows the position, the capability's name and the number of bytes needed, so a user can locate the defect. Distinct failures of one capability are reported as distinct errors.",
 [IN],"every capability kind, every failing length and every failing content, at every position","Tests almost never look at errors.",
 ["src/capabilities.rs","src/extended_capabilities.rs"],[("error types","CapabilityError, ExtendedCapabilityError and per-capability errors")])
p("P28","Enumeration is deterministic and independent of how it is driven",
 "Any interleaving of stepping, skipping, copying and counting on a capability enumeration (or a nested list) observes the same sequence: a copy continues exactly where the original stood, skipping n then stepping gives element n, hints bound the true remaining length, and repeating the enumeration over the same bytes gives equal items.",
 [HI,IN],"every sequence of iterator operations over every capability list and nested list","Tests only collect once from start to end.",
 ["src/capabilities.rs","src/extended_capabilities.rs"],[("iterators","Iterator implementations for lists and nested lists")])
p("P29","Decoded values compare equal only when they report the same",
 "Two decodings of the same bytes, and two iterators over the same list advanced equally far, compare equal. Conversely, whenever two decoded headers, capabilities, errors or list iterators (at any stage of consumption) compare equal, every field, every item still to come and every message they report is the same.",
 [IN,HI],"pairs of configuration spaces that differ anywhere, and pairs of stages of every list","Tests use equality as their own oracle and never check it.",
 [C,E,"src/header/bar.rs"],[("equality","derived and hand-written PartialEq implementations")])
p("P30","A structure decoded on its own equals the one the enumeration reports",
 "Every capability structure with a public constructor (TryFrom of a byte slice, try_new with the header), given the bytes of a capability that starts anywhere in a slice, yields the same value, or the same error, as the enumeration reports for a capability with those bytes at its position. A structure whose own bytes are all there decodes the same from exactly those bytes and with any number of any other bytes behind them, also more than a configuration space holds; a header decodes the same from every slice that holds its 64 bytes.",
 [IN],"every kind of capability, every content, every cut inside it, and slices of any length and alignment","Tests call a constructor on one slice or enumerate one device; that both agree, and how much may follow the structure, is never varied.",
 [C,E,"src/capabilities.rs","src/extended_capabilities.rs","src/header.rs"],
 [("per-capability constructors","impl TryFrom<&[u8]> and try_new in each capability module"),("dispatch of the enumeration","parse_cap, parse_ecap"),("header from a slice","src/header.rs: TryFrom<&[u8]> for Header")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
