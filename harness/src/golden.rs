//! The code <-> variant <-> text tables of every enumeration the library exposes.
//!
//! `golden/enums.tsv` was written by `mon dump-golden` from a tree whose tables had been reviewed
//! against the SMBIOS reference specification and is committed; it is never regenerated by a check.
use std::collections::HashMap;
use std::fmt::{Debug, Display};
use std::sync::OnceLock;

use dmidecode as d;

pub struct Row {
    pub debug: &'static str,
    pub display: &'static str,
    pub alt: &'static str,
}

pub const NO_TEXT: &str = "<none>";

static TSV: &str = include_str!("../golden/enums.tsv");

fn tables() -> &'static HashMap<&'static str, HashMap<u32, Row>> {
    static T: OnceLock<HashMap<&'static str, HashMap<u32, Row>>> = OnceLock::new();
    T.get_or_init(|| {
        let mut m: HashMap<&'static str, HashMap<u32, Row>> = HashMap::new();
        for line in TSV.lines() {
            let mut it = line.split('\t');
            let name = it.next().unwrap();
            let code = u32::from_str_radix(it.next().unwrap(), 16).unwrap();
            let row = Row { debug: it.next().unwrap(), display: it.next().unwrap(), alt: it.next().unwrap() };
            m.entry(name).or_default().insert(code, row);
        }
        m
    })
}

/// One table, resolved once and then indexed without hashing names.
pub fn table(name: &str) -> &'static HashMap<u32, Row> {
    tables().get(name).unwrap_or_else(|| panic!("no golden table {name}"))
}

/// Variant (as `Debug` prints it) the code stands for.
pub fn variant(name: &str, code: u32) -> String {
    if name == "ProcessorFamily" {
        return family(code as u16).0;
    }
    table(name)[&code].debug.to_string()
}

/// Processor families: the listed codes, the "available" ranges elsewhere.
pub fn family(code: u16) -> (String, String, String) {
    if let Some(r) = table("ProcessorFamily").get(&(code as u32)) {
        (r.debug.to_string(), r.display.to_string(), r.alt.to_string())
    } else {
        let t = format!("Available {code:#X}");
        (format!("Available({code})"), t.clone(), t)
    }
}

/// System management types of the event log: (variant, text).
pub fn management(code: u32) -> (String, String) {
    if code < 0x28 {
        let r = &table("SystemManagementType")[&code];
        return (r.debug.to_string(), r.display.to_string());
    }
    match code {
        0x30 => ("ChassisSecureSwitchActivated".into(), "Chassis secure switch activated".into()),
        0x1_0000..=0x1_FFFF => (
            format!("OutOfRangeSystemManagementProbe({})", code & 0xFFFF),
            format!(
                "A system-management probe or cooling device with handle 0x{:04X} is out of range",
                code & 0xFFFF
            ),
        ),
        0x8000_0000..=0xFFFF_FFFF => (format!("OemAssigned({code})"), format!("OEM assigned: {code}")),
        _ => (format!("Reserved({code})"), format!("Reserved: {code}")),
    }
}

pub fn esc(s: String) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}

fn no_text<T: Debug>(v: T) -> (String, String, String) {
    (esc(format!("{v:?}")), NO_TEXT.into(), NO_TEXT.into())
}
fn text<T: Debug + Display>(v: T) -> (String, String, String) {
    (esc(format!("{v:?}")), esc(format!("{v}")), esc(format!("{v:#}")))
}

pub type Conv = fn(u32) -> (String, String, String);
pub struct EnumSpec {
    pub name: &'static str,
    /// number of codes: 0..codes
    pub codes: u32,
    /// how the library sees a code: (debug, display, alternate display)
    pub conv: Conv,
}

macro_rules! e8 {
    ($name:literal, $t:ty, $f:ident) => {
        EnumSpec { name: $name, codes: 256, conv: |c| $f(<$t>::from(c as u8)) }
    };
}
macro_rules! e16 {
    ($name:literal, $t:ty, $n:expr) => {
        EnumSpec { name: $name, codes: $n, conv: |c| text(<$t>::from(c as u16)) }
    };
}

pub static ENUMS: &[EnumSpec] = &[
    e8!("InfoType", d::InfoType, text),
    e8!("WakeupType", d::system::WakeupType, no_text),
    e8!("BoardType", d::baseboard::BoardType, text),
    e8!("EnclosureType", d::enclosure::EnclosureType, text),
    e8!("State", d::enclosure::State, text),
    e8!("SecurityStatus", d::enclosure::SecurityStatus, text),
    e8!("ContainedElementType", d::enclosure::ContainedElementType, text),
    e8!("ProcessorType", d::processor::ProcessorType, no_text),
    e8!("ProcessorUpgrade", d::processor::ProcessorUpgrade, text),
    e16!("CacheLevel", d::cache::CacheLevel, 8),
    e16!("CacheLocation", d::cache::CacheLocation, 4),
    e16!("CacheOperationalMode", d::cache::CacheOperationalMode, 4),
    e8!("CacheErrorCorrectionType", d::cache::CacheErrorCorrectionType, text),
    e8!("SystemCacheType", d::cache::SystemCacheType, text),
    e8!("CacheAssociativity", d::cache::CacheAssociativity, text),
    e8!("ConnectorType", d::port_connector::ConnectorType, text),
    e8!("PortType", d::port_connector::PortType, text),
    e8!("SlotType", d::system_slots::SlotType, text),
    e8!("SlotWidth", d::system_slots::SlotWidth, text),
    e8!("CurrentUsage", d::system_slots::CurrentUsage, text),
    e8!("SlotLength", d::system_slots::SlotLength, text),
    e8!("EventLogType", d::system_event_log::EventLogType, text),
    e8!("VariableDataFormatType", d::system_event_log::VariableDataFormatType, text),
    e8!("LogHeaderFormat", d::system_event_log::LogHeaderFormat, text),
    e8!("MemoryArrayLocation", d::physical_memory_array::MemoryArrayLocation, text),
    e8!("MemoryArrayUse", d::physical_memory_array::MemoryArrayUse, text),
    e8!(
        "MemoryArrayErrorCorrectionTypes",
        d::physical_memory_array::MemoryArrayErrorCorrectionTypes,
        text
    ),
    e8!("Md.ErrorGranularity", d::memory_device::ErrorGranularity, no_text),
    e8!("Md.ErrorOperation", d::memory_device::ErrorOperation, no_text),
    e8!("Md.ErrorType", d::memory_device::ErrorType, no_text),
    e8!("Md.FormFactor", d::memory_device::FormFactor, no_text),
    e8!("Md.MemoryTechnology", d::memory_device::MemoryTechnology, no_text),
    e8!("Md.Type", d::memory_device::Type, no_text),
    e8!("Me.ErrorType", d::memory_error_32::ErrorType, text),
    e8!("Me.ErrorGranularity", d::memory_error_32::ErrorGranularity, text),
    e8!("Me.ErrorOperation", d::memory_error_32::ErrorOperation, text),
    e8!("Pd.Type", d::built_in_pointing_device::Type, text),
    e8!("Pd.Interface", d::built_in_pointing_device::Interface, text),
    e8!("ProcessorFamily8", d::processor::ProcessorFamily, text),
];

pub fn family_lib(c: u16) -> (String, String, String) {
    text(d::processor::ProcessorFamily::from(c))
}
pub fn management_lib(c: u32) -> (String, String, String) {
    text(d::system_event_log::log_record_format::SystemManagementType::from(c))
}

/// Battery chemistries come out of a decoded structure only; the table is written here.
pub fn chemistry(code: u8) -> (String, String) {
    let (v, t) = match code {
        1 => ("Other", "Other"),
        2 => ("Unknown", "Unknown"),
        3 => ("LeadAcid", "Lead Acid"),
        4 => ("NickelCadmium", "Nickel Cadmium"),
        5 => ("NickelMetalHydride", "Nickel metal hydride"),
        6 => ("LithiumIon", "Lithium-ion"),
        7 => ("ZincAir", "Zinc air"),
        8 => ("LithiumPolymer", "Lithium Polymer"),
        v => return (format!("Undefined({v})"), format!("Undefined: {v}")),
    };
    (v.into(), t.into())
}

pub fn dump() -> String {
    let mut out = String::new();
    let mut row = |name: &str, c: u32, (a, b, d): (String, String, String)| {
        out.push_str(&format!("{name}\t{c:x}\t{a}\t{b}\t{d}\n"));
    };
    for e in ENUMS {
        if e.name == "ProcessorFamily8" {
            continue;
        }
        for c in 0..e.codes {
            row(e.name, c, (e.conv)(c));
        }
    }
    for c in 0..=0xFFFFu16 {
        let v = family_lib(c);
        if v.0 != format!("Available({c})") {
            row("ProcessorFamily", c as u32, v);
        }
    }
    for c in 0..0x28u32 {
        row("SystemManagementType", c, management_lib(c));
    }
    out
}
