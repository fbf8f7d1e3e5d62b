//! The reference: what SMBIOS bytes mean, written from the reference specification (and, where the
//! specification leaves room, from the library's documented behaviour). It indexes the formatted
//! area by specification offsets and shares no code with the library.
use std::borrow::Cow;

use crate::golden::{self, variant};
use crate::obs::{ErrObs, Obs, Val, Val::*};

pub type Version = (u8, u8);

/// One structure found by walking the table.
#[derive(Clone, Debug, PartialEq)]
pub struct Frame {
    pub at: usize,
    pub ty: u8,
    pub len: u8,
    pub handle: u16,
    /// end of the formatted area = start of the string set
    pub strings: usize,
    /// one past the terminating pair of NULs
    pub end: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    /// no further header fits, or the end-of-table marker was met
    Done,
    BadSize(u32, u8),
    Unterminated(u32),
}

/// Where the structures of a table are.
pub fn walk(ver: Version, declared: u32, buf: &[u8]) -> (Vec<Frame>, Stop) {
    let limit = (declared as usize).min(buf.len());
    let mut frames = Vec::new();
    let mut at = 0usize;
    loop {
        if at + 4 > limit {
            return (frames, Stop::Done);
        }
        let len = buf[at + 1];
        let strings = at + len as usize;
        if len < 4 || strings >= limit {
            return (frames, Stop::BadSize(at as u32, len));
        }
        let mut end = None;
        let mut i = strings;
        while i + 1 < buf.len() {
            if buf[i] == 0 && buf[i + 1] == 0 {
                end = Some(i + 2);
                break;
            }
            i += 1;
        }
        let Some(end) = end else {
            return (frames, Stop::Unterminated(at as u32));
        };
        let ty = buf[at];
        frames.push(Frame {
            at,
            ty,
            len,
            handle: u16::from(buf[at + 2]) | u16::from(buf[at + 3]) << 8,
            strings,
            end,
        });
        at = end;
        if ver.0 >= 3 && ty == 127 {
            return (frames, Stop::Done);
        }
    }
}

/// The strings of a set: byte ranges, in order, up to the first empty string.
pub fn string_ranges(set: &[u8]) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    let mut a = 0;
    while a < set.len() {
        let mut b = a;
        while b < set.len() && set[b] != 0 {
            b += 1;
        }
        if b == a || b == set.len() {
            break;
        }
        v.push((a, b));
        a = b + 1;
    }
    v
}

/// String number `n` of a set; None when there is no such string or it is not UTF-8.
pub fn string<'a>(set: &'a [u8], n: u8) -> Option<&'a str> {
    if n == 0 {
        return Some("");
    }
    let (a, b) = *string_ranges(set).get(n as usize - 1)?;
    std::str::from_utf8(&set[a..b]).ok()
}

/// The strings a user can iterate over: in order, up to the first that is not UTF-8.
pub fn strings<'a>(set: &'a [u8]) -> Vec<&'a str> {
    let mut v = Vec::new();
    for (a, b) in string_ranges(set) {
        match std::str::from_utf8(&set[a..b]) {
            Ok(s) => v.push(s),
            Err(_) => break,
        }
    }
    v
}

pub fn info_name(ty: u8) -> String {
    match ty {
        0 => "Bios",
        1 => "System",
        2 => "BaseBoard",
        3 => "Enclosure",
        4 => "Processor",
        7 => "Cache",
        8 => "PortConnector",
        9 => "SystemSlots",
        11 => "OemStrings",
        12 => "SystemConfigurationOptions",
        13 => "BiosLanguage",
        14 => "GroupAssociations",
        15 => "SystemEventLog",
        16 => "PhysicalMemoryArray",
        17 => "MemoryDevice",
        18 => "MemoryError32",
        19 => "MemoryArrayMappedAddress",
        20 => "MemoryDeviceMappedAddress",
        21 => "BuiltInPointingDevice",
        22 => "PortableBattery",
        32 => "SystemBoot",
        127 => "End",
        t => return format!("Oem({t})"),
    }
    .into()
}

/// Kind of structure reported for a type byte.
pub fn kind(ty: u8) -> &'static str {
    match ty {
        0 => "Bios",
        1 => "System",
        2 => "BaseBoard",
        3 => "Enclosure",
        4 => "Processor",
        7 => "Cache",
        8 => "PortConnector",
        9 => "SystemSlots",
        11 => "OemStrings",
        12 => "SystemConfigurationOptions",
        13 => "BiosLanguage",
        14 => "GroupAssociations",
        15 => "SystemEventLog",
        16 => "PhysicalMemoryArray",
        17 => "MemoryDevice",
        18 => "MemoryError32",
        19 => "MemoryArrayMappedAddress",
        20 => "MemoryDeviceMappedAddress",
        21 => "BuiltInPointingDevice",
        22 => "PortableBattery",
        _ => "Other",
    }
}

pub const TYPED: &[u8] = &[0, 1, 2, 3, 4, 7, 8, 9, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22];

/// What a structure must decode to: a value, or one of the applicable error reports.
#[derive(Clone, Debug)]
pub enum Exp<'a> {
    Ok(Obs<'a>),
    Err(Vec<ErrObs>),
}

struct Cx<'a> {
    ver: Version,
    /// formatted area, header included: indexed by specification offsets
    f: &'a [u8],
    set: &'a [u8],
    handle: u16,
    ty: u8,
    errs: Vec<ErrObs>,
}

impl<'a> Cx<'a> {
    fn len(&self) -> usize {
        self.f.len()
    }
    fn le(&self, off: usize, n: usize) -> Option<u128> {
        let b = self.f.get(off..off + n)?;
        let mut v = 0u128;
        for (i, x) in b.iter().enumerate() {
            v |= u128::from(*x) << (8 * i);
        }
        Some(v)
    }
    fn b(&self, off: usize) -> u8 {
        self.f[off]
    }
    /// n-byte number that must be there
    fn n(&self, off: usize, n: usize) -> Val<'a> {
        U(self.le(off, n).unwrap())
    }
    /// as `n`, reporting a value that does not fit
    fn need(&mut self, off: usize, n: usize) -> Val<'a> {
        match self.le(off, n) {
            Some(v) => U(v),
            None => {
                self.errs.push(ErrObs::Slice);
                Absent
            }
        }
    }
    /// n-byte number, if it fits the formatted area
    fn opt(&self, off: usize, n: usize) -> Val<'a> {
        self.le(off, n).map_or(Absent, U)
    }
    /// as `opt`, with one value standing for "not there"
    fn opt_not(&self, off: usize, n: usize, none: u128) -> Val<'a> {
        self.le(off, n).filter(|v| *v != none).map_or(Absent, U)
    }
    fn en(&self, name: &'static str, off: usize) -> Val<'a> {
        E(Cow::Owned(variant(name, self.b(off) as u32)))
    }
    fn need_en(&mut self, name: &'static str, off: usize) -> Val<'a> {
        match self.f.get(off) {
            Some(_) => self.en(name, off),
            None => {
                self.errs.push(ErrObs::Slice);
                Absent
            }
        }
    }
    fn opt_en(&self, name: &'static str, off: usize) -> Val<'a> {
        match self.f.get(off) {
            Some(_) => self.en(name, off),
            None => Absent,
        }
    }
    fn no(&mut self, idx: u8) -> Val<'a> {
        match string(self.set, idx) {
            Some(s) => S(s),
            None => {
                self.errs.push(ErrObs::Str(info_name(self.ty), self.handle, idx));
                Absent
            }
        }
    }
    /// string whose number is at `off`
    fn s(&mut self, off: usize) -> Val<'a> {
        let idx = self.b(off);
        self.no(idx)
    }
    fn need_s(&mut self, off: usize) -> Val<'a> {
        if off < self.len() {
            self.s(off)
        } else {
            self.errs.push(ErrObs::Slice);
            Absent
        }
    }
    fn lenerr(&self, spec: &'static str, n: usize) -> Exp<'a> {
        Exp::Err(vec![ErrObs::Len(info_name(self.ty), self.handle, spec, n as u8)])
    }
}

pub fn access_method<'a>(method: u8, a: u32) -> Val<'a> {
    let [b0, b1, b2, _] = a.to_le_bytes();
    let u = |v: u32| U(v as u128);
    // the last item is the address that can be got back
    match method {
        0 => T("Io8", vec![u(b0 as u32), u(b2 as u32), u(b0 as u32 | (b2 as u32) << 16)]),
        1 => T("Io2x8", vec![u(b0 as u32), u(b1 as u32), u(b2 as u32), u(a & 0xFF_FFFF)]),
        2 => T("Io16", vec![u(a & 0xFFFF), u(b2 as u32), u(a & 0xFF_FFFF)]),
        3 => T("Memory", vec![u(a), u(a)]),
        4 => T("Gpnv", vec![u(a & 0xFFFF), u(a & 0xFFFF)]),
        5..=0x7F => T("Available", vec![u(method as u32), u(a), u(a)]),
        _ => T("Oem", vec![u(method as u32), u(a), u(a)]),
    }
}

pub fn voltage<'a>(v: u8) -> Val<'a> {
    if v >= 0x80 {
        T("Current", vec![U((v - 0x80) as u128)])
    } else if v > 7 {
        T("Undefined", vec![U(v as u128)])
    } else {
        T("Legacy", vec![U(v as u128)])
    }
}

pub fn cache_configuration<'a>(w: u16) -> Val<'a> {
    let pair = |a: &str, b: String| (a.to_string(), b);
    Dbg(vec![
        pair("level", format!("L{}", (w % 8) + 1)),
        pair("socketed", (w / 8 % 2 == 1).to_string()),
        pair(
            "location",
            ["Internal", "External", "Reserved", "Unknown"][(w / 32 % 4) as usize].into(),
        ),
        pair("enabled_at_boot_time", (w / 128 % 2 == 1).to_string()),
        pair(
            "operational_mode",
            ["WriteThrough", "WriteBack", "ValuesWithMemoryAddress", "Unknown"][(w / 256 % 4) as usize].into(),
        ),
    ])
}

fn cache_size<'a>(v: u128, top: u128) -> Val<'a> {
    if v >= top {
        T("64K", vec![U(v - top)])
    } else {
        T("1K", vec![U(v)])
    }
}

pub fn slot_pitch(v: u16) -> String {
    if v == 0 {
        "Not given or is unknown".into()
    } else {
        format!("{}.{:02} mm", v / 100, v % 100)
    }
}

pub fn device<'a>(b: &[u8]) -> Val<'a> {
    let seg = b[0] as u128 + 256 * b[1] as u128;
    T(
        "Device",
        vec![
            U(seg),
            U(b[2] as u128),
            U(b[3] as u128),
            U(b[4] as u128),
            E(Cow::Owned(format!(
                "{:04x}:{:02x}:{:02x}.{:x} (Width {})",
                seg,
                b[2],
                b[3] / 8,
                b[3] % 8,
                b[4]
            ))),
        ],
    )
}

/// A contained element record (of any size: missing bytes are zero, further ones are ignored).
pub fn element_text(b: &[u8]) -> String {
    let at = |i: usize| b.get(i).copied().unwrap_or(0);
    let t = at(0);
    let ty = if t < 0x80 {
        format!("Baseboard type: {}", golden::table("BoardType")[&(t as u32)].display)
    } else {
        format!("Structure type: {}", golden::table("InfoType")[&((t & 0x7F) as u32)].display)
    };
    format!("{ty} ({}-{})", at(1), at(2))
}

fn list_strings<'a>(set: &'a [u8], most: usize) -> Val<'a> {
    L(strings(set).into_iter().take(most).map(S).collect())
}

/// What a structure must decode to.
pub fn decode<'a>(ver: Version, f: &'a [u8], set: &'a [u8]) -> Exp<'a> {
    let ty = f[0];
    let handle = f[2] as u16 | (f[3] as u16) << 8;
    let mut c = Cx { ver, f, set, handle, ty, errs: Vec::new() };
    let fields = match fields(&mut c) {
        Ok(fields) => fields,
        Err(e) => return e,
    };
    if !c.errs.is_empty() {
        return Exp::Err(c.errs);
    }
    Exp::Ok(Obs { kind: kind(ty), handle, fields })
}

type Fields<'a> = Vec<(&'static str, Val<'a>)>;

fn fields<'a>(c: &mut Cx<'a>) -> Result<Fields<'a>, Exp<'a>> {
    let len = c.len();
    let ver = c.ver;
    let min = |c: &Cx<'a>, n: usize| if c.len() < n { Err(c.lenerr("minimum of ", n)) } else { Ok(()) };
    Ok(match c.ty {
        0 => {
            min(c, 0x12)?;
            let v24 = ver >= (2, 4) && len >= 0x18;
            let v31 = ver >= (3, 1) && len >= 0x1A;
            let rev = |c: &Cx<'a>, off: usize| T("rev", vec![c.n(off, 1), c.n(off + 1, 1)]);
            vec![
                ("vendor", c.s(4)),
                ("bios_version", c.s(5)),
                ("bios_starting_address_segment", c.n(6, 2)),
                ("bios_release_date", c.s(8)),
                ("rom_size.basic", c.n(9, 1)),
                ("rom_size.extended", if v31 { c.n(0x18, 2) } else { Absent }),
                ("bios_characteristics", c.n(0x0A, 8)),
                (
                    "bios_characteristics_exttension_1",
                    if ver >= (2, 1) { c.opt(0x12, 1) } else { Absent },
                ),
                ("bios_characteristics_exttension_2", if v24 { c.n(0x13, 1) } else { Absent }),
                ("bios_revision", if v24 { rev(c, 0x14) } else { Absent }),
                ("firmware_revision", if v24 { rev(c, 0x16) } else { Absent }),
            ]
        }
        1 => {
            min(c, 8)?;
            let v21 = ver >= (2, 1) && len >= 0x19;
            let v24 = ver >= (2, 4) && len >= 0x1B;
            vec![
                ("manufacturer", c.s(4)),
                ("product", c.s(5)),
                ("version", c.s(6)),
                ("serial", c.s(7)),
                (
                    "uuid",
                    if v21 {
                        let b = &c.f[8..24];
                        // RFC 4122 byte order; from 2.6 on the first three fields are little-endian
                        let order: [usize; 16] = if ver >= (2, 6) {
                            [3, 2, 1, 0, 5, 4, 7, 6, 8, 9, 10, 11, 12, 13, 14, 15]
                        } else {
                            [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]
                        };
                        U(order.iter().fold(0u128, |a, i| a << 8 | b[*i] as u128))
                    } else {
                        Absent
                    },
                ),
                ("wakeup", if v21 { c.en("WakeupType", 0x18) } else { Absent }),
                ("sku", if v24 { c.s(0x19) } else { Absent }),
                ("family", if v24 { c.s(0x1A) } else { Absent }),
            ]
        }
        2 => {
            min(c, 8)?;
            vec![
                ("manufacturer", c.s(4)),
                ("product", c.s(5)),
                ("version", c.s(6)),
                ("serial", c.s(7)),
                ("asset", if len > 8 { c.s(8) } else { Absent }),
                (
                    "feature_flags",
                    if len > 9 { U((c.b(9) & 0x1F) as u128) } else { Absent },
                ),
                ("location_in_chassis", if len > 0x0A { c.s(0x0A) } else { Absent }),
                ("chassis_handle", c.opt(0x0B, 2)),
                ("board_type", c.opt_en("BoardType", 0x0D)),
            ]
        }
        3 => {
            if len < 9 {
                return Err(c.lenerr("minimum of ", 9));
            }
            let t = c.b(5);
            let (mut count, mut elements, mut sku) = (Absent, Absent, Absent);
            if len >= 0x15 {
                let (n, m) = (c.b(0x13) as usize, c.b(0x14) as usize);
                if let Some(data) = c.f.get(0x15..0x15 + n * m) {
                    count = U(n as u128);
                    let items = if m == 0 {
                        Vec::new()
                    } else {
                        data.chunks(m).map(|r| E(Cow::Owned(element_text(r)))).collect()
                    };
                    elements = L(items);
                    if len > 0x15 + n * m {
                        sku = c.s(0x15 + n * m);
                    }
                }
            }
            vec![
                ("manufacturer", c.s(4)),
                ("chassis_lock", B(t >= 0x80)),
                (
                    "enclosure_type",
                    E(Cow::Owned(variant("EnclosureType", (t % 128) as u32))),
                ),
                ("version", c.s(6)),
                ("serial_number", c.s(7)),
                ("asset_tag_number", c.s(8)),
                ("boot_up_state", c.opt_en("State", 9)),
                ("power_supply_state", c.opt_en("State", 0x0A)),
                ("thermal_state", c.opt_en("State", 0x0B)),
                ("security_status", c.opt_en("SecurityStatus", 0x0C)),
                ("oem_defined", c.opt(0x0D, 4)),
                ("height", c.opt(0x11, 1)),
                ("power_cords_number", c.opt(0x12, 1)),
                ("contained_elements.count", count),
                ("contained_elements", elements),
                ("sku_number", sku),
            ]
        }
        4 => {
            min(c, 0x1A)?;
            let level = [(0x20, (2, 1)), (0x23, (2, 3)), (0x28, (2, 5)), (0x2A, (2, 6)), (0x30, (3, 0))]
                .iter()
                .take_while(|(l, v)| ver >= *v && len >= *l)
                .count();
            let (v21, v23, v25, v26, v30) = (level >= 1, level >= 2, level >= 3, level >= 4, level >= 5);
            let fam = if v26 && c.b(6) == 0xFE {
                c.le(0x28, 2).unwrap() as u32
            } else {
                c.b(6) as u32
            };
            let cnt = |c: &Cx<'a>, off: usize, off2: usize| {
                if !v25 {
                    Absent
                } else if v30 && c.b(off) == 0xFF {
                    c.n(off2, 2)
                } else {
                    c.n(off, 1)
                }
            };
            vec![
                ("socket_designation", c.s(4)),
                ("processor_type", c.en("ProcessorType", 5)),
                ("processor_family", E(Cow::Owned(variant("ProcessorFamily", fam)))),
                ("processor_manufacturer", c.s(7)),
                ("processor_id", c.n(8, 8)),
                ("processor_version", c.s(0x10)),
                ("voltage", voltage(c.b(0x11))),
                ("external_clock", c.n(0x12, 2)),
                ("max_speed", c.n(0x14, 2)),
                ("current_speed", c.n(0x16, 2)),
                ("status", U((c.b(0x18) & 0x47) as u128)),
                ("processor_upgrade", c.en("ProcessorUpgrade", 0x19)),
                ("l1_cache_handle", if v21 { c.n(0x1A, 2) } else { Absent }),
                ("l2_cache_handle", if v21 { c.n(0x1C, 2) } else { Absent }),
                ("l3_cache_handle", if v21 { c.n(0x1E, 2) } else { Absent }),
                ("serial_number", if v23 { c.s(0x20) } else { Absent }),
                ("asset_tag", if v23 { c.s(0x21) } else { Absent }),
                ("part_number", if v23 { c.s(0x22) } else { Absent }),
                ("core_count", cnt(c, 0x23, 0x2A)),
                ("core_enabled", cnt(c, 0x24, 0x2C)),
                ("thread_count", cnt(c, 0x25, 0x2E)),
                (
                    "processor_characteristics",
                    if v25 { U(c.le(0x26, 2).unwrap() & 0x2FF) } else { Absent },
                ),
            ]
        }
        7 => {
            min(c, 0x0F)?;
            let v21 = ver >= (2, 1) && len >= 0x13;
            let v31 = ver >= (3, 1) && len >= 0x1B;
            let sz = |c: &Cx<'a>, off: usize| cache_size(c.le(off, 2).unwrap(), 1 << 15);
            let sz2 = |c: &Cx<'a>, off: usize| cache_size(c.le(off, 4).unwrap(), 1 << 31);
            vec![
                ("socket_designation", c.s(4)),
                ("cache_configuration", cache_configuration(c.le(5, 2).unwrap() as u16)),
                ("maximum_cache_size", sz(c, 7)),
                ("installed_size", sz(c, 9)),
                ("supported_sram_type", U(c.le(0x0B, 2).unwrap() & 0x7F)),
                ("current_sram_type", U(c.le(0x0D, 2).unwrap() & 0x7F)),
                ("cache_speed", if v21 { c.n(0x0F, 1) } else { Absent }),
                (
                    "error_correction_type",
                    if v21 { c.en("CacheErrorCorrectionType", 0x10) } else { Absent },
                ),
                ("system_cache_type", if v21 { c.en("SystemCacheType", 0x11) } else { Absent }),
                ("associativity", if v21 { c.en("CacheAssociativity", 0x12) } else { Absent }),
                ("maximum_cache_size_2", if v31 { sz2(c, 0x13) } else { Absent }),
                ("installed_size_2", if v31 { sz2(c, 0x17) } else { Absent }),
            ]
        }
        8 => {
            min(c, 9)?;
            vec![
                ("internal_reference_designator", c.s(4)),
                ("internal_connector_type", c.en("ConnectorType", 5)),
                ("external_reference_designator", c.s(6)),
                ("external_connector_type", c.en("ConnectorType", 7)),
                ("port_type", c.en("PortType", 8)),
            ]
        }
        9 => {
            let exact = if ver < (2, 1) {
                Some(0x0C)
            } else if ver < (2, 6) {
                Some(0x0D)
            } else if ver < (3, 2) {
                Some(0x11)
            } else {
                None
            };
            match exact {
                Some(n) if len != n => return Err(c.lenerr("", n)),
                None if len < 0x11 => return Err(c.lenerr("minimum of ", 0x11)),
                _ => {}
            }
            let n = c.f.get(0x12).copied().unwrap_or(0) as usize;
            vec![
                ("slot_designation", c.s(4)),
                ("slot_type", c.en("SlotType", 5)),
                ("slot_data_bus_width", c.en("SlotWidth", 6)),
                ("current_usage", c.en("CurrentUsage", 7)),
                ("slot_length", c.en("SlotLength", 8)),
                ("slot_id", c.n(9, 2)),
                ("slot_characteristics_1", c.n(0x0B, 1)),
                ("slot_characteristics_2", c.opt(0x0C, 1)),
                ("segment_group_number", c.opt_not(0x0D, 2, 0xFFFF)),
                ("bus_number", c.opt_not(0x0F, 1, 0xFF)),
                ("device_and_function_number", c.opt_not(0x10, 1, 0xFF)),
                ("data_bus_width", c.opt(0x11, 1)),
                (
                    "peer_devices",
                    match c.f.get(0x13..0x13 + 5 * n) {
                        Some(p) => L(p.chunks(5).map(device).collect()),
                        None => Absent,
                    },
                ),
                ("slot_information", c.opt(0x14 + 5 * n, 1)),
                ("slot_physical_width", c.opt_en("SlotWidth", 0x15 + 5 * n)),
                (
                    "slot_pitch",
                    match c.le(0x16 + 5 * n, 2) {
                        Some(v) => E(Cow::Owned(slot_pitch(v as u16))),
                        None => Absent,
                    },
                ),
            ]
        }
        11 => vec![("strings", list_strings(c.set, usize::MAX))],
        12 => {
            if len < 5 {
                return Err(Exp::Err(vec![ErrObs::Slice]));
            }
            let all = strings(c.set);
            if all.len() != c.b(4) as usize {
                return Err(Exp::Err(vec![ErrObs::Str(info_name(12), c.handle, c.b(4))]));
            }
            vec![("strings", list_strings(c.set, usize::MAX))]
        }
        13 => {
            let (n, flags, cur) = if ver >= (2, 1) {
                (0x16, Some(5), 0x15)
            } else {
                (0x15, None, 0x14)
            };
            min(c, n)?;
            vec![
                ("installable_languages", list_strings(c.set, 255)),
                ("flags", flags.map_or(Absent, |o| c.n(o, 1))),
                ("current_language", c.n(cur, 1)),
            ]
        }
        14 => {
            if len < 5 {
                return Err(c.lenerr("minimum of ", 5));
            }
            vec![
                ("group_name", c.s(4)),
                (
                    "items",
                    L(c.f[5..]
                        .chunks_exact(3)
                        .map(|i| T("item", vec![U(i[0] as u128), U(i[1] as u128 + 256 * i[2] as u128)]))
                        .collect()),
                ),
            ]
        }
        15 => {
            if ver < (2, 1) {
                if len != 0x14 {
                    return Err(c.lenerr("", 0x14));
                }
            } else {
                if len < 0x17 {
                    return Err(c.lenerr("minimum of ", 0x17));
                }
                let want = 0x17 + c.b(0x15) as usize * c.b(0x16) as usize;
                if len != want {
                    return Err(if want > 0xFF {
                        c.lenerr("17h+(x*y), more than ", 0xFF)
                    } else {
                        c.lenerr("17h+(x*y) = ", want)
                    });
                }
            }
            let desc = if len >= 0x17 {
                let m = c.b(0x16) as usize;
                let mut v = Vec::new();
                if m >= 2 {
                    for r in c.f[0x17..].chunks(m) {
                        v.push(T(
                            "desc",
                            vec![
                                E(Cow::Owned(variant("EventLogType", r[0] as u32))),
                                E(Cow::Owned(variant("VariableDataFormatType", r[1] as u32))),
                            ],
                        ));
                    }
                }
                L(v)
            } else {
                Absent
            };
            vec![
                ("log_area_length", c.n(4, 2)),
                ("log_header_start_offset", c.n(6, 2)),
                ("log_data_start_offset", c.n(8, 2)),
                ("access_method", access_method(c.b(0x0A), c.le(0x10, 4).unwrap() as u32)),
                ("log_status", c.n(0x0B, 1)),
                ("log_change_token", c.n(0x0C, 4)),
                ("log_header_format", c.opt_en("LogHeaderFormat", 0x14)),
                ("supported_event_log_type_descriptors", desc),
            ]
        }
        16 => {
            if ver < (2, 1) {
                vec![
                    ("location", E("Unknown".into())),
                    ("use", E("Unknown".into())),
                    ("memory_error_correction", E("Unknown".into())),
                    ("maximum_capacity", Absent),
                    ("memory_error_information_handle", Absent),
                    ("number_of_memory_devices", U(0)),
                    ("extended_maximum_capacity", Absent),
                ]
            } else {
                if len < 0x0F {
                    return Err(Exp::Err(vec![ErrObs::Slice]));
                }
                let cap = c.opt_not(7, 4, 0x8000_0000);
                let ext = if ver >= (2, 7) && cap.is_absent() { c.opt_not(0x0F, 8, 0) } else { Absent };
                vec![
                    ("location", c.en("MemoryArrayLocation", 4)),
                    ("use", c.en("MemoryArrayUse", 5)),
                    ("memory_error_correction", c.en("MemoryArrayErrorCorrectionTypes", 6)),
                    ("maximum_capacity", cap),
                    ("memory_error_information_handle", c.opt_not(0x0B, 2, 0xFFFE)),
                    ("number_of_memory_devices", c.n(0x0D, 2)),
                    ("extended_maximum_capacity", ext),
                ]
            }
        }
        17 => {
            if len < 0x15 {
                return Err(c.lenerr("at least ", 0x15));
            }
            let string_or_empty = |c: &mut Cx<'a>, off: usize| if off < c.len() { c.s(off) } else { S("") };
            vec![
                ("physical_memory_handle", c.n(4, 2)),
                ("memory_error_handle", c.opt_not(6, 2, 0xFFFE)),
                ("total_width", c.opt_not(8, 2, 0xFFFF)),
                ("data_width", c.opt_not(0x0A, 2, 0xFFFF)),
                ("size", c.opt_not(0x0C, 2, 0xFFFF)),
                ("form_factor", c.en("Md.FormFactor", 0x0E)),
                ("device_set", c.n(0x0F, 1)),
                ("device_locator", c.s(0x10)),
                ("bank_locator", c.s(0x11)),
                ("memory_type", c.en("Md.Type", 0x12)),
                ("type_detail", U(c.le(0x13, 2).unwrap() & 0xFFFE)),
                ("speed", c.opt_not(0x15, 2, 0)),
                ("manufacturer", string_or_empty(c, 0x17)),
                ("serial", string_or_empty(c, 0x18)),
                ("asset_tag", string_or_empty(c, 0x19)),
                ("part_number", string_or_empty(c, 0x1A)),
                ("attributes", U(c.le(0x1B, 1).unwrap_or(0))),
                ("extended_size", U(c.le(0x1C, 4).unwrap_or(0))),
                ("configured_memory_speed", c.opt_not(0x20, 2, 0)),
                ("minimum_voltage", c.opt_not(0x22, 2, 0)),
                ("maximum_voltage", c.opt_not(0x24, 2, 0)),
                ("configured_voltage", c.opt_not(0x26, 2, 0)),
                ("memory_technology", c.opt_en("Md.MemoryTechnology", 0x28)),
                (
                    "operating_mode_capability",
                    c.le(0x29, 2).map_or(Absent, |v| U(v & 0x3E)),
                ),
                (
                    "firmware_version",
                    // a number without a string means there is no version
                    c.f.get(0x2B).and_then(|i| string(c.set, *i)).map_or(Absent, S),
                ),
                ("module_manufacturer", c.opt(0x2C, 2)),
                ("module_product_id", c.opt(0x2E, 2)),
                ("memory_subsystem_controller_manufacturer_id", c.opt(0x30, 2)),
                ("memory_subsystem_controller_product_id", c.opt(0x32, 2)),
                ("non_volatile_size", c.opt(0x34, 8)),
                ("volatile_size", c.opt(0x3C, 8)),
                ("cache_size", c.opt(0x44, 8)),
                ("logical_size", c.opt(0x4C, 8)),
                ("extended_speed", c.opt(0x54, 4)),
                ("extended_configured_memory_speed", c.opt(0x58, 4)),
            ]
        }
        18 => {
            if ver >= (2, 1) && len != 0x17 {
                return Err(c.lenerr("", 0x17));
            }
            vec![
                ("error_type", c.need_en("Me.ErrorType", 4)),
                ("error_granularity", c.need_en("Me.ErrorGranularity", 5)),
                ("error_operation", c.need_en("Me.ErrorOperation", 6)),
                ("vendor_syndrome", c.need(7, 4)),
                ("memory_array_error_address", c.need(0x0B, 4)),
                ("device_error_address", c.need(0x0F, 4)),
                ("error_resolution", c.need(0x13, 4)),
            ]
        }
        19 | 20 => {
            let short = if c.ty == 19 { 0x0F } else { 0x13 };
            if ver >= (2, 7) && len != short + 16 {
                return Err(c.lenerr("", short + 16));
            }
            if ver >= (2, 1) && ver < (2, 7) && len != short {
                return Err(c.lenerr("", short));
            }
            let mut v = vec![("starting_address", c.need(4, 4)), ("ending_address", c.need(8, 4))];
            if c.ty == 19 {
                v.push(("memory_array_handle", c.need(0x0C, 2)));
                v.push(("partition_width", c.need(0x0E, 1)));
            } else {
                v.push(("memory_device_handle", c.need(0x0C, 2)));
                v.push(("memory_array_mapped_address_handle", c.need(0x0E, 2)));
                v.push(("partition_row_position", c.need(0x10, 1)));
                v.push(("interleave_position", c.need(0x11, 1)));
                v.push(("interleaved_data_depth", c.need(0x12, 1)));
            }
            v.push(("extended_starting_address", c.opt(short, 8)));
            v.push(("extended_ending_address", c.opt(short + 8, 8)));
            v
        }
        21 => {
            if ver >= (2, 1) && len != 7 {
                return Err(c.lenerr("", 7));
            }
            vec![
                ("type_", c.need_en("Pd.Type", 4)),
                ("interface", c.need_en("Pd.Interface", 5)),
                ("number_of_buttons", c.need(6, 1)),
            ]
        }
        22 => {
            if ver == (2, 1) && len != 0x10 {
                return Err(c.lenerr("", 0x10));
            }
            if ver >= (2, 2) && len != 0x1A {
                return Err(c.lenerr("", 0x1A));
            }
            let given = |c: &Cx<'a>, off: usize| {
                c.f.get(off).filter(|i| **i != 0).and_then(|i| string(c.set, *i))
            };
            vec![
                ("location", c.need_s(4)),
                ("manufacturer", c.need_s(5)),
                (
                    "manufacture_date",
                    match (given(c, 6), c.le(0x12, 2)) {
                        (Some(s), _) => S(s),
                        (None, Some(d)) => T("date", vec![U(1980 + (d >> 9)), U(d >> 5 & 15), U(d & 31)]),
                        (None, None) => Absent,
                    },
                ),
                (
                    "serial_number",
                    match (given(c, 7), c.le(0x10, 2)) {
                        (Some(s), _) => S(s),
                        (None, Some(d)) => U(d),
                        (None, None) => Absent,
                    },
                ),
                ("device_name", c.need_s(8)),
                (
                    "device_chemistry",
                    match c.f.get(9) {
                        None => {
                            c.errs.push(ErrObs::Slice);
                            Absent
                        }
                        Some(2) => match c.f.get(0x14).and_then(|i| string(c.set, *i)) {
                            Some(s) => S(s),
                            None => E("Unknown".into()),
                        },
                        Some(v) => E(Cow::Owned(golden::chemistry(*v).0)),
                    },
                ),
                (
                    "design_capacity",
                    match c.le(0x0A, 2) {
                        None => {
                            c.errs.push(ErrObs::Slice);
                            Absent
                        }
                        Some(0) => Absent,
                        Some(v) => T("capacity", vec![U(v), U(c.le(0x15, 1).unwrap_or(1))]),
                    },
                ),
                ("design_voltage", c.need(0x0C, 2)),
                ("sbds_version_number", c.need_s(0x0E)),
                ("maximum_error_in_battery_data", c.need(0x0F, 1)),
                ("oem_specific", c.opt(0x16, 4)),
            ]
        }
        t => vec![
            ("version", T("version", vec![U(ver.0 as u128), U(ver.1 as u128)])),
            ("info", E(Cow::Owned(info_name(t)))),
            ("length", U(len as u128)),
            ("data", Bytes(&c.f[4..])),
        ],
    })
}

/// Outcome of looking for an entry point.
#[derive(Clone, Debug, PartialEq)]
pub enum Search {
    NotFound,
    TooOld(u8),
    BadSize(u8),
    BadChecksum(u8),
    /// (64-bit?, offset)
    Found(bool, usize),
}

/// The anchor is looked for on 16-byte boundaries; the first one decides.
pub fn search(buf: &[u8]) -> Search {
    let mut at = 0;
    let v3 = loop {
        if at >= buf.len() {
            return Search::NotFound;
        }
        if buf[at..].len() >= 4 && &buf[at..at + 4] == b"_SM_" {
            break false;
        }
        if buf[at..].len() >= 5 && &buf[at..at + 5] == b"_SM3_" {
            break true;
        }
        at += 16;
    };
    let e = &buf[at..];
    let (least, len_at, major_at) = if v3 { (24, 6, 7) } else { (31, 5, 6) };
    if e.len() < least {
        return Search::BadSize(e.len() as u8);
    }
    let len = e[len_at] as usize;
    if len < least {
        return Search::BadSize(len as u8);
    }
    if e[major_at] < 2 {
        return Search::TooOld(e[major_at]);
    }
    if e.len() < len {
        return Search::BadSize(e.len() as u8);
    }
    let sum = e[..len].iter().map(|b| *b as usize).sum::<usize>() % 256;
    if sum != 0 {
        return Search::BadChecksum(sum as u8);
    }
    Search::Found(v3, at)
}
