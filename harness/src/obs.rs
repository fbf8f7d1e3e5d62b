//! What a user can observe of a decoded structure, through public fields, conversions, iterators and
//! `Debug`/`Display` only.
use std::borrow::Cow;
use std::fmt::Debug;

use d::bitfield::BitField;
use d::{MalformedStructureError as E, Structure};
use dmidecode as d;

/// An observed (or expected) value.
#[derive(Clone, Debug)]
pub enum Val<'a> {
    /// an absent optional field
    Absent,
    U(u128),
    B(bool),
    S(&'a str),
    /// a variant, as `Debug` prints it
    E(Cow<'static, str>),
    Bytes(&'a [u8]),
    L(Vec<Val<'a>>),
    /// a named group
    T(&'static str, Vec<Val<'a>>),
    /// name/value pairs taken from a `Debug` rendering (private fields)
    Dbg(Vec<(String, String)>),
}

use Val::*;

impl<'a> Val<'a> {
    pub fn is_absent(&self) -> bool {
        matches!(self, Absent)
    }
}

impl<'a> PartialEq for Val<'a> {
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (Absent, Absent) => true,
            (U(a), U(b)) => a == b,
            (B(a), B(b)) => a == b,
            (S(a), S(b)) => a == b,
            (E(a), E(b)) => a == b,
            (Bytes(a), Bytes(b)) => a == b,
            (L(a), L(b)) => a == b,
            (T(n, a), T(m, b)) => n == m && a == b,
            (Dbg(a), Dbg(b)) => {
                let names = |v: &Vec<(String, String)>| {
                    let mut n: Vec<_> = v.iter().map(|p| p.0.clone()).collect();
                    n.sort();
                    n
                };
                let (mut a, mut b) = (a.clone(), b.clone());
                if names(&a) != names(&b) {
                    // private names differ: only the values are comparable
                    a.iter_mut().chain(b.iter_mut()).for_each(|p| p.0.clear());
                }
                a.sort();
                b.sort();
                a == b
            }
            _ => false,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Obs<'a> {
    pub kind: &'static str,
    pub handle: u16,
    pub fields: Vec<(&'static str, Val<'a>)>,
}

impl<'a> Obs<'a> {
    pub fn get(&self, name: &str) -> Option<&Val<'a>> {
        self.fields.iter().find(|f| f.0 == name).map(|f| &f.1)
    }
}

/// An error report, as a user can observe it.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum ErrObs {
    BadSize(u32, u8),
    Unterminated(u32),
    /// structure type (as `Debug` prints it), handle, string number
    Str(String, u16, u8),
    /// a value does not fit the formatted area
    Slice,
    /// structure type, handle, wording, length
    Len(String, u16, &'static str, u8),
}

pub fn err(e: &E) -> ErrObs {
    match e {
        E::BadSize(o, l) => ErrObs::BadSize(*o, *l),
        E::UnterminatedStrings(o) => ErrObs::Unterminated(*o),
        E::InvalidStringIndex(t, h, i) => ErrObs::Str(format!("{t:?}"), *h, *i),
        E::InvalidSlice(_) => ErrObs::Slice,
        E::InvalidFormattedSectionLength(t, h, s, l) => ErrObs::Len(format!("{t:?}"), *h, s, *l),
    }
}

/// What the report must read like.
pub fn err_text(e: &ErrObs) -> String {
    match e {
        ErrObs::BadSize(o, l) => format!("Structure at offset {o} with length {l} extends beyond SMBIOS"),
        ErrObs::Unterminated(o) => format!("Structure at offset {o} with unterminated strings"),
        ErrObs::Str(t, h, i) => format!("Structure {t} with handle {h} has invalid string index {i}"),
        ErrObs::Slice => "could not convert slice to array".into(),
        ErrObs::Len(t, h, s, l) => {
            format!("Formatted section length of structure {t} with handle {h} should be {s}{l} bytes")
        }
    }
}

fn u<'a, T: Into<u128>>(v: T) -> Val<'a> {
    U(v.into())
}
fn e<'a, T: Debug>(v: &T) -> Val<'a> {
    E(Cow::Owned(crate::golden::esc(format!("{v:?}"))))
}
fn o<'a, T>(v: Option<T>, f: impl FnOnce(T) -> Val<'a>) -> Val<'a> {
    v.map_or(Absent, f)
}
fn os<'a>(v: Option<&'a str>) -> Val<'a> {
    o(v, S)
}
fn ou<'a, T: Into<u128>>(v: Option<T>) -> Val<'a> {
    o(v, u)
}
fn oe<'a, T: Debug>(v: &Option<T>) -> Val<'a> {
    o(v.as_ref(), e)
}
fn bf<'a, 'b, T: BitField<'b>>(v: &T) -> Val<'a> {
    U(v.value().into())
}

/// More items than any iterator can have.
pub const MANY: usize = 300_000;
/// Whether what is seen is to be the same on every host.
pub const ANY_HOST: bool = false;
/// Offsets far outside.
pub const FAR: [usize; 4] = [usize::MAX - 20, usize::MAX - 4, usize::MAX - 1, usize::MAX];

/// A `str` that is not UTF-8 is undefined behaviour: reported like a crash.
pub fn bad_str(s: &str) -> ! {
    eprintln!("INVALID-STR: the library returned a str that is not UTF-8: {:02x?}", s.as_bytes());
    std::process::abort()
}

pub fn list<'a, I: Iterator>(it: I, f: impl FnMut(I::Item) -> Val<'a>) -> Val<'a> {
    L(it.take(MANY).map(f).collect())
}

/// `Name { a: x, b: y }` -> [(a, x), (b, y)]; values are kept whole.
fn debug_pairs(s: &str) -> Vec<(String, String)> {
    let inner = match (s.find('{'), s.rfind('}')) {
        (Some(a), Some(b)) if a < b => &s[a + 1..b],
        _ => return vec![(String::new(), s.to_string())],
    };
    inner
        .split(", ")
        .map(|p| match p.split_once(": ") {
            Some((n, v)) => (n.trim().to_string(), v.trim().to_string()),
            None => (String::new(), p.trim().to_string()),
        })
        .collect()
}

pub fn device<'a>(x: &d::system_slots::Device) -> Val<'a> {
    T(
        "Device",
        vec![
            u(x.segment_group_number),
            u(x.bus_number),
            u(u8::from(x.device_and_function_number)),
            u(x.data_bus_width),
            E(Cow::Owned(format!("{x}"))),
        ],
    )
}

pub fn element<'a>(x: &d::enclosure::ContainedElement) -> Val<'a> {
    E(Cow::Owned(format!("{x}")))
}

pub fn voltage<'a>(v: &d::processor::Voltage) -> Val<'a> {
    use d::processor::Voltage as V;
    match v {
        V::Legacy(l) => T("Legacy", vec![u(l.bits())]),
        V::Current(c) => T("Current", vec![u(*c)]),
        V::Undefined(c) => T("Undefined", vec![u(*c)]),
    }
}

pub fn access_method<'a>(m: &d::system_event_log::AccessMethod) -> Val<'a> {
    use d::system_event_log::AccessMethod as A;
    let a = u(m.address());
    match m {
        A::IndexedIoOne8bitIndexOne8bitData { index, data } => T("Io8", vec![u(*index), u(*data), a]),
        A::IndexedIoTwo8bitIndexOne8bitData { index, data } => T("Io2x8", vec![u(index[0]), u(index[1]), u(*data), a]),
        A::IndexedIoOne16bitIndexOne8bitData { index, data } => T("Io16", vec![u(*index), u(*data), a]),
        A::MemoryMappedPhysicaAddress { physical_address } => T("Memory", vec![u(*physical_address), a]),
        A::GeneralPurposeNonVolatileData { gpnv_handle } => T("Gpnv", vec![u(*gpnv_handle), a]),
        A::Available { method, address } => T("Available", vec![u(*method), u(*address), a]),
        A::OemSpecific { method, address } => T("Oem", vec![u(*method), u(*address), a]),
    }
}

pub fn cache_configuration<'a>(c: &d::cache::CacheConfiguration) -> Val<'a> {
    Dbg(debug_pairs(&format!("{c:?}")))
}

fn cache_size<'a>(c: &d::cache::CacheSize) -> Val<'a> {
    use d::cache::CacheSize as C;
    match c {
        C::Granularity1K(v) => T("1K", vec![u(*v)]),
        C::Granularity64K(v) => T("64K", vec![u(*v)]),
    }
}
fn cache_size_2<'a>(c: d::cache::CacheSize2) -> Val<'a> {
    use d::cache::CacheSize2 as C;
    match c {
        C::Granularity1K(v) => T("1K", vec![u(v)]),
        C::Granularity64K(v) => T("64K", vec![u(v)]),
    }
}

/// Everything public about a structure.
pub fn structure<'a>(s: &Structure<'a>) -> Obs<'a> {
    match s {
        Structure::Bios(x) => Obs {
            kind: "Bios",
            handle: x.handle,
            fields: vec![
                ("vendor", S(x.vendor)),
                ("bios_version", S(x.bios_version)),
                ("bios_starting_address_segment", u(x.bios_starting_address_segment)),
                ("bios_release_date", S(x.bios_release_date)),
                ("rom_size.basic", u(x.rom_size.basic)),
                ("rom_size.extended", ou(x.rom_size.extended)),
                ("bios_characteristics", bf(&x.bios_characteristics)),
                (
                    "bios_characteristics_exttension_1",
                    o(x.bios_characteristics_exttension_1, |v| bf(&v)),
                ),
                (
                    "bios_characteristics_exttension_2",
                    o(x.bios_characteristics_exttension_2, |v| bf(&v)),
                ),
                ("bios_revision", o(x.bios_revision, |v| T("rev", vec![u(v.major), u(v.minor)]))),
                (
                    "firmware_revision",
                    o(x.firmware_revision, |v| T("rev", vec![u(v.major), u(v.minor)])),
                ),
            ],
        },
        Structure::System(x) => Obs {
            kind: "System",
            handle: x.handle,
            fields: vec![
                ("manufacturer", S(x.manufacturer)),
                ("product", S(x.product)),
                ("version", S(x.version)),
                ("serial", S(x.serial)),
                ("uuid", o(x.uuid, |v| U(u128::from_be_bytes(*v.as_bytes())))),
                ("wakeup", oe(&x.wakeup)),
                ("sku", os(x.sku)),
                ("family", os(x.family)),
            ],
        },
        Structure::BaseBoard(x) => Obs {
            kind: "BaseBoard",
            handle: x.handle,
            fields: vec![
                ("manufacturer", S(x.manufacturer)),
                ("product", S(x.product)),
                ("version", S(x.version)),
                ("serial", S(x.serial)),
                ("asset", os(x.asset)),
                ("feature_flags", o(x.feature_flags.as_ref(), |v| u(v.bits()))),
                ("location_in_chassis", os(x.location_in_chassis)),
                ("chassis_handle", ou(x.chassis_handle)),
                ("board_type", oe(&x.board_type)),
            ],
        },
        Structure::Enclosure(x) => Obs {
            kind: "Enclosure",
            handle: x.handle,
            fields: vec![
                ("manufacturer", S(x.manufacturer)),
                ("chassis_lock", B(x.chassis_lock)),
                ("enclosure_type", e(&x.enclosure_type)),
                ("version", S(x.version)),
                ("serial_number", S(x.serial_number)),
                ("asset_tag_number", S(x.asset_tag_number)),
                ("boot_up_state", oe(&x.boot_up_state)),
                ("power_supply_state", oe(&x.power_supply_state)),
                ("thermal_state", oe(&x.thermal_state)),
                ("security_status", oe(&x.security_status)),
                ("oem_defined", ou(x.oem_defined)),
                ("height", ou(x.height)),
                ("power_cords_number", ou(x.power_cords_number)),
                (
                    "contained_elements.count",
                    o(x.contained_elements.as_ref(), |c| u(c.count())),
                ),
                (
                    "contained_elements",
                    o(x.contained_elements.clone(), |c| list(c, |i| element(&i))),
                ),
                ("sku_number", os(x.sku_number)),
            ],
        },
        Structure::Processor(x) => Obs {
            kind: "Processor",
            handle: x.handle,
            fields: vec![
                ("socket_designation", S(x.socket_designation)),
                ("processor_type", e(&x.processor_type)),
                ("processor_family", e(&x.processor_family)),
                ("processor_manufacturer", S(x.processor_manufacturer)),
                ("processor_id", u(x.processor_id)),
                ("processor_version", S(x.processor_version)),
                ("voltage", voltage(&x.voltage)),
                ("external_clock", u(x.external_clock)),
                ("max_speed", u(x.max_speed)),
                ("current_speed", u(x.current_speed)),
                ("status", u(x.status.bits())),
                ("processor_upgrade", e(&x.processor_upgrade)),
                ("l1_cache_handle", ou(x.l1_cache_handle)),
                ("l2_cache_handle", ou(x.l2_cache_handle)),
                ("l3_cache_handle", ou(x.l3_cache_handle)),
                ("serial_number", os(x.serial_number)),
                ("asset_tag", os(x.asset_tag)),
                ("part_number", os(x.part_number)),
                ("core_count", ou(x.core_count)),
                ("core_enabled", ou(x.core_enabled)),
                ("thread_count", ou(x.thread_count)),
                (
                    "processor_characteristics",
                    o(x.processor_characteristics.as_ref(), |v| u(v.bits())),
                ),
            ],
        },
        Structure::Cache(x) => Obs {
            kind: "Cache",
            handle: x.handle,
            fields: vec![
                ("socket_designation", S(x.socket_designation)),
                ("cache_configuration", cache_configuration(&x.cache_configuration)),
                ("maximum_cache_size", cache_size(&x.maximum_cache_size)),
                ("installed_size", cache_size(&x.installed_size)),
                ("supported_sram_type", u(x.supported_sram_type.bits())),
                ("current_sram_type", u(x.current_sram_type.bits())),
                ("cache_speed", ou(x.cache_speed)),
                ("error_correction_type", oe(&x.error_correction_type)),
                ("system_cache_type", oe(&x.system_cache_type)),
                ("associativity", oe(&x.associativity)),
                ("maximum_cache_size_2", o(x.maximum_cache_size_2, cache_size_2)),
                ("installed_size_2", o(x.installed_size_2, cache_size_2)),
            ],
        },
        Structure::PortConnector(x) => Obs {
            kind: "PortConnector",
            handle: x.handle,
            fields: vec![
                ("internal_reference_designator", S(x.internal_reference_designator)),
                ("internal_connector_type", e(&x.internal_connector_type)),
                ("external_reference_designator", S(x.external_reference_designator)),
                ("external_connector_type", e(&x.external_connector_type)),
                ("port_type", e(&x.port_type)),
            ],
        },
        Structure::SystemSlots(x) => Obs {
            kind: "SystemSlots",
            handle: x.handle,
            fields: vec![
                ("slot_designation", S(x.slot_designation)),
                ("slot_type", e(&x.slot_type)),
                ("slot_data_bus_width", e(&x.slot_data_bus_width)),
                ("current_usage", e(&x.current_usage)),
                ("slot_length", e(&x.slot_length)),
                ("slot_id", u(x.slot_id)),
                ("slot_characteristics_1", bf(&x.slot_characteristics_1)),
                ("slot_characteristics_2", o(x.slot_characteristics_2, |v| bf(&v))),
                ("segment_group_number", ou(x.segment_group_number)),
                ("bus_number", ou(x.bus_number)),
                (
                    "device_and_function_number",
                    o(x.device_and_function_number, |v| u(u8::from(v))),
                ),
                ("data_bus_width", ou(x.data_bus_width)),
                ("peer_devices", o(x.peer_devices.clone(), |p| list(p, |i| device(&i)))),
                ("slot_information", ou(x.slot_information)),
                ("slot_physical_width", oe(&x.slot_physical_width)),
                ("slot_pitch", o(x.slot_pitch, |v| E(Cow::Owned(format!("{v}"))))),
            ],
        },
        Structure::OemStrings(x) => Obs {
            kind: "OemStrings",
            handle: x.handle,
            fields: vec![("strings", list(x.strings, S))],
        },
        Structure::SystemConfigurationOptions(x) => Obs {
            kind: "SystemConfigurationOptions",
            handle: x.handle,
            fields: vec![("strings", list(x.strings, S))],
        },
        Structure::BiosLanguage(x) => Obs {
            kind: "BiosLanguage",
            handle: x.handle,
            fields: vec![
                ("installable_languages", list(x.installable_languages.clone(), S)),
                ("flags", o(x.flags, |v| bf(&v))),
                ("current_language", u(x.current_language)),
            ],
        },
        Structure::GroupAssociations(x) => Obs {
            kind: "GroupAssociations",
            handle: x.handle,
            fields: vec![
                ("group_name", S(x.group_name)),
                ("items", list(x.items, |i| T("item", vec![u(i.type_), u(i.handle)]))),
            ],
        },
        Structure::SystemEventLog(x) => Obs {
            kind: "SystemEventLog",
            handle: x.handle,
            fields: vec![
                ("log_area_length", u(x.log_area_length)),
                ("log_header_start_offset", u(x.log_header_start_offset)),
                ("log_data_start_offset", u(x.log_data_start_offset)),
                ("access_method", access_method(&x.access_method)),
                ("log_status", bf(&x.log_status)),
                ("log_change_token", u(x.log_change_token)),
                ("log_header_format", oe(&x.log_header_format)),
                (
                    "supported_event_log_type_descriptors",
                    o(x.supported_event_log_type_descriptors.clone(), |p| {
                        list(p, |i| T("desc", vec![e(&i.log_type), e(&i.variable_data_format_type)]))
                    }),
                ),
            ],
        },
        Structure::PhysicalMemoryArray(x) => Obs {
            kind: "PhysicalMemoryArray",
            handle: x.handle,
            fields: vec![
                ("location", e(&x.location)),
                ("use", e(&x.r#use)),
                ("memory_error_correction", e(&x.memory_error_correction)),
                ("maximum_capacity", ou(x.maximum_capacity)),
                ("memory_error_information_handle", ou(x.memory_error_information_handle)),
                ("number_of_memory_devices", u(x.number_of_memory_devices)),
                ("extended_maximum_capacity", ou(x.extended_maximum_capacity)),
            ],
        },
        Structure::MemoryDevice(x) => Obs {
            kind: "MemoryDevice",
            handle: x.handle,
            fields: vec![
                ("physical_memory_handle", u(x.physical_memory_handle)),
                ("memory_error_handle", ou(x.memory_error_handle)),
                ("total_width", ou(x.total_width)),
                ("data_width", ou(x.data_width)),
                ("size", ou(x.size)),
                ("form_factor", e(&x.form_factor)),
                ("device_set", ou(x.device_set)),
                ("device_locator", S(x.device_locator)),
                ("bank_locator", S(x.bank_locator)),
                ("memory_type", e(&x.memory_type)),
                ("type_detail", u(x.type_detail.bits())),
                ("speed", ou(x.speed)),
                ("manufacturer", S(x.manufacturer)),
                ("serial", S(x.serial)),
                ("asset_tag", S(x.asset_tag)),
                ("part_number", S(x.part_number)),
                ("attributes", u(x.attributes)),
                ("extended_size", u(x.extended_size)),
                ("configured_memory_speed", ou(x.configured_memory_speed)),
                ("minimum_voltage", ou(x.minimum_voltage)),
                ("maximum_voltage", ou(x.maximum_voltage)),
                ("configured_voltage", ou(x.configured_voltage)),
                ("memory_technology", oe(&x.memory_technology)),
                (
                    "operating_mode_capability",
                    o(x.operating_mode_capability.as_ref(), |v| u(v.bits())),
                ),
                ("firmware_version", os(x.firmware_version)),
                ("module_manufacturer", ou(x.module_manufacturer)),
                ("module_product_id", ou(x.module_product_id)),
                (
                    "memory_subsystem_controller_manufacturer_id",
                    ou(x.memory_subsystem_controller_manufacturer_id),
                ),
                (
                    "memory_subsystem_controller_product_id",
                    ou(x.memory_subsystem_controller_product_id),
                ),
                ("non_volatile_size", ou(x.non_volatile_size)),
                ("volatile_size", ou(x.volatile_size)),
                ("cache_size", ou(x.cache_size)),
                ("logical_size", ou(x.logical_size)),
                ("extended_speed", ou(x.extended_speed)),
                (
                    "extended_configured_memory_speed",
                    ou(x.extended_configured_memory_speed),
                ),
            ],
        },
        Structure::MemoryError32(x) => Obs {
            kind: "MemoryError32",
            handle: x.handle,
            fields: vec![
                ("error_type", e(&x.error_type)),
                ("error_granularity", e(&x.error_granularity)),
                ("error_operation", e(&x.error_operation)),
                ("vendor_syndrome", u(x.vendor_syndrome)),
                ("memory_array_error_address", u(x.memory_array_error_address)),
                ("device_error_address", u(x.device_error_address)),
                ("error_resolution", u(x.error_resolution)),
            ],
        },
        Structure::MemoryArrayMappedAddress(x) => Obs {
            kind: "MemoryArrayMappedAddress",
            handle: x.handle,
            fields: vec![
                ("starting_address", u(x.starting_address)),
                ("ending_address", u(x.ending_address)),
                ("memory_array_handle", u(x.memory_array_handle)),
                ("partition_width", u(x.partition_width)),
                ("extended_starting_address", ou(x.extended_starting_address)),
                ("extended_ending_address", ou(x.extended_ending_address)),
            ],
        },
        Structure::MemoryDeviceMappedAddress(x) => Obs {
            kind: "MemoryDeviceMappedAddress",
            handle: x.handle,
            fields: vec![
                ("starting_address", u(x.starting_address)),
                ("ending_address", u(x.ending_address)),
                ("memory_device_handle", u(x.memory_device_handle)),
                ("memory_array_mapped_address_handle", u(x.memory_array_mapped_address_handle)),
                ("partition_row_position", u(x.partition_row_position)),
                ("interleave_position", u(x.interleave_position)),
                ("interleaved_data_depth", u(x.interleaved_data_depth)),
                ("extended_starting_address", ou(x.extended_starting_address)),
                ("extended_ending_address", ou(x.extended_ending_address)),
            ],
        },
        Structure::BuiltInPointingDevice(x) => Obs {
            kind: "BuiltInPointingDevice",
            handle: x.handle,
            fields: vec![
                ("type_", e(&x.type_)),
                ("interface", e(&x.interface)),
                ("number_of_buttons", u(x.number_of_buttons)),
            ],
        },
        Structure::PortableBattery(x) => {
            use d::portable_battery::*;
            Obs {
                kind: "PortableBattery",
                handle: x.handle,
                fields: vec![
                    ("location", S(x.location)),
                    ("manufacturer", S(x.manufacturer)),
                    (
                        "manufacture_date",
                        match x.manufacture_date {
                            ManufactureDate::None => Absent,
                            ManufactureDate::Basic(s) => S(s),
                            ManufactureDate::SmartBatteryDataSpecification { year, month, date } => {
                                T("date", vec![u(year), u(month), u(date)])
                            }
                        },
                    ),
                    (
                        "serial_number",
                        match x.serial_number {
                            SerialNumber::None => Absent,
                            SerialNumber::Basic(s) => S(s),
                            SerialNumber::SmartBatteryDataSpecification(n) => u(n),
                        },
                    ),
                    ("device_name", S(x.device_name)),
                    (
                        "device_chemistry",
                        match x.device_chemistry {
                            DeviceChemistry::SmartBatteryDataSpecification(s) => S(s),
                            other => e(&other),
                        },
                    ),
                    (
                        "design_capacity",
                        match x.design_capacity {
                            DesignCapacity::Unknown => Absent,
                            DesignCapacity::Data { value, multiplier } => T("capacity", vec![u(value), u(multiplier)]),
                        },
                    ),
                    ("design_voltage", u(x.design_voltage)),
                    ("sbds_version_number", S(x.sbds_version_number)),
                    ("maximum_error_in_battery_data", u(x.maximum_error_in_battery_data)),
                    ("oem_specific", ou(x.oem_specific)),
                ],
            }
        }
        Structure::Other(x) => Obs {
            kind: "Other",
            handle: x.handle,
            fields: vec![
                ("version", T("version", vec![u(x.version.major), u(x.version.minor)])),
                ("info", e(&x.info)),
                ("length", u(x.length)),
                ("data", Bytes(x.data)),
            ],
        },
    }
}
