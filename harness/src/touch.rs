//! Does with a table everything a user can do with one, and digests what comes out. Nothing here
//! allocates: whatever allocates during `table` is the library.
use std::fmt::{self, Write};
use std::hash::{Hash, Hasher};

use d::bitfield::{BitField, FlagType};
use d::{EntryPoint, MalformedStructureError, RawStructure, Structure};
use dmidecode as d;

use crate::gen::Table;
use crate::obs;

/// Set for interpreters, where rendering is what takes the time: only what decodes is exercised.
pub static LEAN: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn lean() -> bool {
    LEAN.load(std::sync::atomic::Ordering::Relaxed)
}

/// FNV digest of everything rendered or hashed into it.
#[derive(Clone, Debug)]
pub struct Sink {
    pub h: u64,
    pub bytes: u64,
    pub calls: u64,
}

impl Sink {
    pub fn new() -> Sink {
        Sink { h: 0xcbf2_9ce4_8422_2325, bytes: 0, calls: 0 }
    }
    pub fn put(&mut self, b: &[u8]) {
        if lean() {
            // every byte is read, in fewer steps
            let mut copy = [0u8; 4096];
            for c in b.chunks(4096) {
                copy[..c.len()].copy_from_slice(c);
            }
            self.h = self.h.wrapping_mul(31) ^ copy[b.len().min(4096).saturating_sub(1)] as u64;
            return;
        }
        for x in b {
            self.h = (self.h ^ *x as u64).wrapping_mul(0x100_0000_01b3);
        }
        self.bytes += b.len() as u64;
    }
    pub fn n(&mut self, v: u64) {
        self.put(&v.to_le_bytes())
    }
    fn d<T: fmt::Display>(&mut self, v: &T) {
        self.calls += 1;
        self.n(0xD1);
        let _ = write!(self, "{v}");
        if lean() {
            return;
        }
        self.n(0xD2);
        let _ = write!(self, "{v:#}");
    }
    fn od<T: fmt::Display>(&mut self, v: &Option<T>) {
        match v {
            Some(v) => self.d(v),
            None => self.n(0xD0),
        }
    }
    /// Checks that a returned string is one.
    fn s(&mut self, s: &str) {
        if std::str::from_utf8(s.as_bytes()).is_err() {
            obs::bad_str(s);
        }
        self.put(s.as_bytes());
        self.n(0x55);
    }
}

impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if std::str::from_utf8(s.as_bytes()).is_err() {
            obs::bad_str(s);
        }
        self.put(s.as_bytes());
        Ok(())
    }
}
impl Hasher for Sink {
    fn finish(&self) -> u64 {
        self.h
    }
    fn write(&mut self, b: &[u8]) {
        self.put(b)
    }
}

fn bits<'b, T: BitField<'b>>(v: &T, k: &mut Sink) {
    if lean() {
        let n = v.significants().filter(|f| f.is_set).count() + v.reserved().count();
        k.n(n as u64);
        if let Some(f) = v.significants().last() {
            k.d(&f);
        }
        return;
    }
    for f in v.iter() {
        k.n(f.position.0 as u64 * 2 + f.is_set as u64);
        if let FlagType::Significant(a, b) = f.type_ {
            k.s(a);
            k.s(b);
        }
        k.d(&f);
        let _ = write!(k, "{f:?}");
    }
    for f in v.significants() {
        k.d(&f);
    }
    for f in v.reserved() {
        let _ = write!(k, "{f:?}");
        k.s(f.description);
    }
}

fn obits<'b, T: BitField<'b>>(v: &Option<T>, k: &mut Sink) {
    match v {
        Some(v) => bits(v, k),
        None => k.n(0xD3),
    }
}

fn list<I: Iterator>(it: I, k: &mut Sink, mut f: impl FnMut(I::Item, &mut Sink)) {
    let mut n = 0u64;
    for i in it.take(obs::MANY) {
        f(i, k);
        n += 1;
    }
    k.n(n);
}

pub fn raw(x: &RawStructure<'_>, k: &mut Sink) {
    if !lean() {
        let _ = write!(k, "{x:?}");
    }
    k.put(x.data);
    for i in (0..=255u8).filter(|i| !lean() || *i < 5 || *i == 255) {
        match x.find_string(i) {
            Ok(s) => k.s(s),
            Err(e) => error(&e, k),
        }
    }
    for off in (0..=x.length as usize + 4).filter(|o| !lean() || *o < 5 || *o + 4 > x.length as usize).chain(obs::FAR) {
        let mut num = |r: Result<u128, MalformedStructureError>| match r {
            Ok(v) => {
                k.n(v as u64);
                k.n((v >> 64) as u64)
            }
            Err(e) => error(&e, k),
        };
        num(x.get::<u8>(off).map(Into::into));
        num(x.get::<u16>(off).map(Into::into));
        num(x.get::<u32>(off).map(Into::into));
        num(x.get::<u64>(off).map(Into::into));
        num(x.get::<u128>(off));
        match x.get_string(off) {
            Ok(s) => k.s(s),
            Err(e) => error(&e, k),
        }
        for size in [0, 1, 3, 16, 252, obs::FAR[3]] {
            match x.get_slice(off, size) {
                Some(b) => k.put(b),
                None => k.n(1),
            }
        }
    }
}

pub fn error(e: &MalformedStructureError, k: &mut Sink) {
    if lean() {
        let _ = write!(k, "{e:?}");
        return;
    }
    k.d(e);
    let _ = write!(k, "{e:?}");
}

/// What a structure shows, without the insides of its iterators: those may hold machine words.
fn outside(s: &Structure<'_>, k: &mut Sink) {
    let _ = match s {
        Structure::Enclosure(x) => {
            let mut x = x.clone();
            x.contained_elements = None;
            write!(k, "{x:?}")
        }
        Structure::SystemSlots(x) => {
            let mut x = x.clone();
            x.peer_devices = None;
            write!(k, "{x:?}")
        }
        Structure::SystemEventLog(x) => {
            let mut x = x.clone();
            x.supported_event_log_type_descriptors = None;
            write!(k, "{x:?}")
        }
        Structure::OemStrings(x) => write!(k, "{:?}", x.handle),
        Structure::SystemConfigurationOptions(x) => write!(k, "{:?}", x.handle),
        Structure::BiosLanguage(x) => write!(k, "{:?} {:?} {:?}", x.handle, x.flags, x.current_language),
        Structure::GroupAssociations(x) => write!(k, "{:?}", x.handle),
        _ => write!(k, "{s:?}"),
    };
}

pub fn structure(s: &Structure<'_>, k: &mut Sink) {
    if obs::ANY_HOST {
        outside(s, k);
    } else if !lean() {
        let _ = write!(k, "{s:?}");
    }
    // the digest of `Hash` depends on how a value is represented: it is exercised, not recorded
    let mut h = Sink::new();
    s.hash(&mut h);
    std::hint::black_box(h.h);
    let c = s.clone();
    std::hint::black_box(c == *s);
    match s {
        Structure::Bios(x) => {
            k.s(x.vendor);
            k.s(x.bios_version);
            k.s(x.bios_release_date);
            k.n(u64::from(x.rom_size));
            bits(&x.bios_characteristics, k);
            obits(&x.bios_characteristics_exttension_1, k);
            obits(&x.bios_characteristics_exttension_2, k);
            k.od(&x.bios_revision);
            k.od(&x.firmware_revision);
        }
        Structure::System(x) => {
            for s in [x.manufacturer, x.product, x.version, x.serial, x.sku.unwrap_or(""), x.family.unwrap_or("")] {
                k.s(s);
            }
            k.od(&x.uuid);
        }
        Structure::BaseBoard(x) => {
            for s in [x.manufacturer, x.product, x.version, x.serial] {
                k.s(s);
            }
            k.s(x.asset.unwrap_or(""));
            k.s(x.location_in_chassis.unwrap_or(""));
            k.od(&x.board_type);
        }
        Structure::Enclosure(x) => {
            for s in [x.manufacturer, x.version, x.serial_number, x.asset_tag_number, x.sku_number.unwrap_or("")] {
                k.s(s);
            }
            k.d(&x.enclosure_type);
            k.od(&x.boot_up_state);
            k.od(&x.power_supply_state);
            k.od(&x.thermal_state);
            k.od(&x.security_status);
            if let Some(c) = &x.contained_elements {
                k.n(c.count() as u64);
                list(c.clone(), k, |e, k| {
                    k.d(&e);
                    let _ = write!(k, "{e:?}");
                });
            }
        }
        Structure::Processor(x) => {
            for s in [x.socket_designation, x.processor_manufacturer, x.processor_version] {
                k.s(s);
            }
            for s in [x.serial_number, x.asset_tag, x.part_number] {
                k.s(s.unwrap_or(""));
            }
            k.d(&x.processor_family);
            k.d(&x.voltage);
            k.d(&x.processor_upgrade);
        }
        Structure::Cache(x) => {
            k.s(x.socket_designation);
            k.n(x.maximum_cache_size.bytes());
            k.n(x.installed_size.bytes());
            k.od(&x.error_correction_type);
            k.od(&x.system_cache_type);
            k.od(&x.associativity);
            k.n(x.maximum_cache_size_2.map_or(1, |c| c.bytes()));
            k.n(x.installed_size_2.map_or(1, |c| c.bytes()));
        }
        Structure::PortConnector(x) => {
            k.s(x.internal_reference_designator);
            k.s(x.external_reference_designator);
            k.d(&x.internal_connector_type);
            k.d(&x.external_connector_type);
            k.d(&x.port_type);
        }
        Structure::SystemSlots(x) => {
            k.s(x.slot_designation);
            k.d(&x.slot_type);
            k.d(&x.slot_data_bus_width);
            k.d(&x.current_usage);
            k.d(&x.slot_length);
            bits(&x.slot_characteristics_1, k);
            obits(&x.slot_characteristics_2, k);
            if let Some(v) = x.device_and_function_number {
                k.n(u8::from(v) as u64);
            }
            if let Some(p) = &x.peer_devices {
                list(p.clone(), k, |e, k| {
                    k.d(&e);
                    k.put(&<[u8; 5]>::from(&e));
                });
            }
            k.od(&x.slot_physical_width);
            k.od(&x.slot_pitch);
        }
        Structure::OemStrings(x) => list(x.strings, k, |s, k| k.s(s)),
        Structure::SystemConfigurationOptions(x) => list(x.strings, k, |s, k| k.s(s)),
        Structure::BiosLanguage(x) => {
            list(x.installable_languages.clone(), k, |s, k| k.s(s));
            obits(&x.flags, k);
        }
        Structure::GroupAssociations(x) => {
            k.s(x.group_name);
            list(x.items, k, |i, k| {
                let _ = write!(k, "{i:?}");
            });
        }
        Structure::SystemEventLog(x) => {
            k.d(&x.access_method);
            k.n(x.access_method.address() as u64);
            bits(&x.log_status, k);
            k.od(&x.log_header_format);
            if let Some(p) = &x.supported_event_log_type_descriptors {
                list(p.clone(), k, |i, k| {
                    k.d(&i.log_type);
                    k.d(&i.variable_data_format_type);
                    k.put(&<[u8; 2]>::from(i));
                });
            }
        }
        Structure::PhysicalMemoryArray(x) => {
            k.d(&x.location);
            k.d(&x.r#use);
            k.d(&x.memory_error_correction);
        }
        Structure::MemoryDevice(x) => {
            for s in [x.device_locator, x.bank_locator, x.manufacturer, x.serial, x.asset_tag, x.part_number] {
                k.s(s);
            }
            k.s(x.firmware_version.unwrap_or(""));
        }
        Structure::MemoryError32(x) => {
            k.d(&x.error_type);
            k.d(&x.error_granularity);
            k.d(&x.error_operation);
        }
        Structure::MemoryArrayMappedAddress(_) | Structure::MemoryDeviceMappedAddress(_) => {}
        Structure::BuiltInPointingDevice(x) => {
            k.d(&x.type_);
            k.d(&x.interface);
        }
        Structure::PortableBattery(x) => {
            for s in [x.location, x.manufacturer, x.device_name, x.sbds_version_number] {
                k.s(s);
            }
            k.d(&x.manufacture_date);
            k.d(&x.serial_number);
            k.d(&x.device_chemistry);
            k.n(u64::from(x.design_capacity));
        }
        Structure::Other(x) => raw(x, k),
    }
}

pub struct Seen {
    pub items: u64,
    pub ok: u64,
    pub errors: u64,
    pub digest: u64,
}

/// Walk the table and use everything in it.
pub fn walk(entry: &EntryPoint, buf: &[u8], k: &mut Sink) -> Seen {
    let mut seen = Seen { items: 0, ok: 0, errors: 0, digest: 0 };
    for item in entry.structures(buf).take(obs::MANY) {
        seen.items += 1;
        match &item {
            Ok(s) => {
                seen.ok += 1;
                structure(s, k);
            }
            Err(e) => {
                seen.errors += 1;
                error(e, k);
            }
        }
    }
    seen.digest = k.h;
    seen
}

/// As `walk`, and the buffer is searched for an entry point too.
pub fn table(t: &Table, entry: &EntryPoint, k: &mut Sink) -> Seen {
    search(&t.buf, k);
    walk(entry, &t.buf, k)
}

pub fn search(buf: &[u8], k: &mut Sink) -> Option<EntryPoint> {
    match EntryPoint::search(buf) {
        Ok(e) => {
            let _ = write!(k, "{e:?}");
            k.n(e.len() as u64);
            k.n(e.major() as u64);
            k.n(e.minor() as u64);
            k.n(e.revision() as u64);
            k.n(e.smbios_address());
            k.n(e.smbios_len() as u64);
            let _ = write!(k, "{:?}", e.to_version());
            Some(e)
        }
        Err(e) => {
            k.d(&e);
            let _ = write!(k, "{e:?}");
            None
        }
    }
}
