//! Values: enumerations (C14), bit fields (C15), conversions (C16), equality and hashing (C22).
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

use d::bitfield::{BitField, FlagType, Position};
use dmidecode as d;

use crate::ctx::{fnv, Ctx, R};
use crate::gen::{self, Raw, Table};
use crate::golden;
use crate::model;
use crate::obs;
use crate::props::whole::Exact;
use crate::rng::Rng;

/// C14: each code stands for the value and the text the specification gives it.
pub fn enums(c: &mut Ctx) {
    for e in golden::ENUMS {
        c.unit(|c, _| {
            for code in 0..e.codes {
                c.case(|| format!("{} {code:#x}", e.name));
                let got = (e.conv)(code);
                let want = if e.name == "ProcessorFamily8" {
                    golden::family(code as u16)
                } else {
                    let r = &golden::table(e.name)[&code];
                    (r.debug.into(), r.display.into(), r.alt.into())
                };
                c.eval(fnv(e.name.as_bytes()) ^ fnv(&code.to_le_bytes()));
                if got != want {
                    return Err(c.fail(format!("{} {code:#x}: got {got:?}, expected {want:?}", e.name), format!("{} {code:#x}", e.name)));
                }
                c.count(e.name);
                c.sample(|| format!("{} {code:#x} {got:?}", e.name));
            }
            Ok(())
        });
    }
    for part in 0..16u32 {
        c.unit(|c, r| {
            for code in part * 4096..(part + 1) * 4096 {
                if c.small && r.chance(199, 200) {
                    continue;
                }
                let code = code as u16;
                c.case(|| format!("processor family {code:#x}"));
                let got = golden::family_lib(code);
                let want = golden::family(code);
                c.eval(0);
                if got != want {
                    return Err(c.fail(format!("processor family {code:#x}: got {got:?}, expected {want:?}"), format!("{code:#x}")));
                }
                c.count("processor families");
            }
            Ok(())
        });
    }
    for part in 0..c.pick3(1, 120, 600) as u32 {
        c.unit(|c, r| {
            for i in 0..c.pick3(100, 10_000, 40_000) as u32 {
                let code = match part {
                    0 => i,
                    1 => 0x1_0000 - 5000 + i,
                    2 => 0x2_0000 - 5000 + i,
                    3 => 0x7FFF_F000 + i,
                    4 => u32::MAX - i,
                    5..=12 => (r.next() as u32) >> r.below(32),
                    _ => r.next() as u32,
                };
                c.case(|| format!("system management type {code:#x}"));
                let got = golden::management_lib(code);
                let (v, t) = golden::management(code);
                c.eval(0);
                if got.0 != v || got.1 != t {
                    return Err(c.fail(format!("system management type {code:#x}: got {got:?}, expected {v} {t:?}"), format!("{code:#x}")));
                }
                c.count("system management types");
            }
            Ok(())
        });
    }
    // codes that can be turned back
    c.unit(|c, _| {
        use d::system_event_log::{EventLogType, VariableDataFormatType};
        for b in 0..=255u8 {
            c.eval(0);
            c.case(|| format!("event log codes {b:#x}"));
            let x = u8::from(EventLogType::from(b));
            let y = u8::from(VariableDataFormatType::from(b));
            if x != b || y != b {
                return Err(c.fail(format!("event log codes: {b:#x} comes back as {x:#x} and {y:#x}"), format!("{b:#x}")));
            }
        }
        Ok(())
    });
    // battery chemistries and the variants inside structures
    c.unit(|c, _| {
        for code in 0..=255u8 {
            let mut s = Raw { ty: 22, handle: 0, body: vec![0; 0x16], strings: vec![] };
            *s.at(9).unwrap() = code;
            *s.at(0x14).unwrap() = 1;
            let t = Table::exact((2, 2), s.bytes());
            c.case(|| t.hex());
            let e = t.entry();
            let Some(Ok(d::Structure::PortableBattery(x))) = e.structures(&t.buf).next() else {
                return Err(c.fail("battery was not decoded".into(), t.hex()));
            };
            let got = (format!("{:?}", x.device_chemistry), format!("{}", x.device_chemistry));
            let want = golden::chemistry(code);
            c.eval(fnv(&[22, code]));
            if got != want {
                return Err(c.fail(format!("battery chemistry {code:#x}: got {got:?}, expected {want:?}"), t.hex()));
            }
            c.count("battery chemistries");
        }
        Ok(())
    });
}

struct Layouts {
    name: &'static str,
    bits: usize,
    layout: Vec<(u8, String, String)>,
}

fn tag(f: &FlagType) -> (u8, String, String) {
    match f {
        FlagType::Unknown => (0, String::new(), String::new()),
        FlagType::Significant(a, b) => (1, a.to_string(), b.to_string()),
        FlagType::Reserved(a) => (2, a.to_string(), String::new()),
    }
}

static LAYOUTS: &str = include_str!("../../golden/layouts.tsv");

fn layouts() -> Vec<Layouts> {
    let mut v: Vec<Layouts> = Vec::new();
    let un = |s: &str| s.replace("\\n", "\n").replace("\\t", "\t").replace("\\\\", "\\");
    for l in LAYOUTS.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        let name: &'static str = f[0];
        if v.last().is_none_or(|x| x.name != name) {
            v.push(Layouts { name, bits: 0, layout: Vec::new() });
        }
        let e = v.last_mut().unwrap();
        e.bits += 1;
        e.layout.push((f[2].parse().unwrap(), un(f[3]), un(f[4])));
    }
    v
}

fn dump_one<'a, T: BitField<'a>>(name: &str, out: &mut String) {
    for (i, f) in T::LAYOUT.iter().enumerate() {
        let (t, a, b) = tag(f);
        out.push_str(&format!("{name}\t{i}\t{t}\t{}\t{}\n", golden::esc(a), golden::esc(b)));
    }
}

pub fn dump_layouts() -> String {
    let mut o = String::new();
    dump_one::<d::bios::Characteristics>("Characteristics", &mut o);
    dump_one::<d::bios::CharacteristicsExtension1>("CharacteristicsExtension1", &mut o);
    dump_one::<d::bios::CharacteristicsExtension2>("CharacteristicsExtension2", &mut o);
    dump_one::<d::system_slots::SlotCharacteristics1>("SlotCharacteristics1", &mut o);
    dump_one::<d::system_slots::SlotCharacteristics2>("SlotCharacteristics2", &mut o);
    dump_one::<d::bios_language::LanguageFlags>("LanguageFlags", &mut o);
    dump_one::<d::system_event_log::LogStatus>("LogStatus", &mut o);
    dump_one::<d::system_event_log::log_record_format::PostResults>("PostResults", &mut o);
    o
}

fn field<'b, T: BitField<'b>>(c: &mut Ctx, l: &Layouts, v: impl Into<u128>, x: &T) -> R
where
    T::Size: Into<u128>,
{
    let v: u128 = v.into();
    let case = || format!("{} {v:#x} {:?}", l.name, if l.name == "user" { &l.layout[..] } else { &[] });
    c.case(case);
    macro_rules! bad {
        ($($a:tt)*) => { return Err(c.fail(format!("{} {v:#x}: {}", l.name, format!($($a)*)), case())) };
    }
    if x.value().into() != v {
        bad!("value is {:#x}", x.value().into());
    }
    let mut n = 0;
    let mut sum = 0u128;
    for f in x.iter().take(300) {
        if n >= l.bits {
            bad!("more than {} flags", l.bits);
        }
        let bit = v >> n & 1 == 1;
        if f.position != Position(n) || *f.position != n || f.is_set != bit {
            bad!("flag {n}: position {:?}, set {}", f.position, f.is_set);
        }
        let (k, a, b) = &l.layout[n];
        if tag(&f.type_) != l.layout[n] {
            bad!("flag {n}: {:?}, expected {:?}", f.type_, l.layout[n]);
        }
        let alt = if *k == 1 { b } else { a };
        let plain = if *k == 0 { "Unknown" } else { a };
        let alt = if *k == 0 { "Unknown" } else { alt };
        if format!("{f}") != plain || format!("{f:#}") != alt {
            bad!("flag {n}: reads {f} / {f:#}");
        }
        let text = format!("{f:?}");
        if !text.contains(&format!("Position({n})")) || !text.contains(if bit { "true" } else { "false" }) {
            bad!("flag {n}, {}: reads {text}", if bit { "set" } else { "clear" });
        }
        if f.is_set {
            sum |= 1 << n;
        }
        n += 1;
    }
    if n != l.bits {
        bad!("{n} flags instead of {}", l.bits);
    }
    if sum != v {
        bad!("the set flags make {sum:#x}");
    }
    // back from positions
    let set = || x.iter().filter(|f| f.is_set).map(|f| f.position);
    let back = set().collect::<u128>();
    if back != v || l.bits <= 64 && (set().collect::<u64>() as u128 != v || set().collect::<usize>() as u128 != v) {
        bad!("positions collect to {back:x?}");
    }
    if l.bits <= 8 && set().collect::<u8>() as u128 != v {
        bad!("positions collect to {:#x}", set().collect::<u8>());
    }
    let pos: Vec<Position> = set().collect();
    if pos.iter().collect::<u128>() != v
        || l.bits <= 64 && (pos.iter().collect::<u64>() as u128 != v || pos.iter().collect::<usize>() as u128 != v)
    {
        bad!("borrowed positions collect to something else");
    }
    if l.bits <= 8
        && (pos.iter().collect::<u8>() as u128 != v
            || pos.iter().collect::<u16>() as u128 != v
            || pos.iter().collect::<u32>() as u128 != v
            || pos.iter().copied().collect::<u16>() as u128 != v
            || pos.iter().copied().collect::<u32>() as u128 != v)
    {
        bad!("positions collect to something else");
    }
    let sig: Vec<usize> = x.significants().take(300).map(|f| f.position.0).collect();
    let want: Vec<usize> = (0..l.bits).filter(|i| v >> i & 1 == 1 && l.layout[*i].0 != 2).collect();
    if sig != want {
        bad!("significant flags {sig:?}, expected {want:?}");
    }
    if let Some(f) = x.significants().find(|f| !f.is_set || tag(&f.type_) != l.layout[f.position.0]) {
        bad!("significant flag {:?} is not as set", f.position);
    }
    // maximal runs of reserved bits with one description
    let mut runs: Vec<(String, usize, usize)> = Vec::new();
    for (i, (k, a, _)) in l.layout.iter().enumerate() {
        if *k == 2 {
            match runs.last_mut() {
                Some(last) if last.2 + 1 == i && last.0 == *a => last.2 = i,
                _ => runs.push((a.clone(), i, i)),
            }
        }
    }
    let got: Vec<(String, usize, usize)> =
        x.reserved().take(300).map(|r| (r.description.to_string(), *r.range.start(), *r.range.end())).collect();
    if got != runs {
        bad!("reserved ranges {got:?}, expected {runs:?}");
    }
    // what ended stays ended
    let (mut a, mut b, mut e) = (x.iter(), x.significants(), x.reserved());
    while a.next().is_some() {}
    while b.next().is_some() {}
    while e.next().is_some() {}
    if a.next().is_some() || b.next().is_some() || e.next().is_some() {
        bad!("a flag after the end");
    }
    let mut r = Rng::new(v as u64 ^ (v >> 64) as u64 ^ fnv(l.name.as_bytes()), 78);
    let flag = |f: d::bitfield::Flag<'b>| (f.position.0, f.is_set, tag(&f.type_));
    let run = |w: Vec<bool>| -> Vec<(usize, bool, (u8, String, String))> {
        (0..l.bits).filter(|i| w[*i]).map(|i| (i, v >> i & 1 == 1, l.layout[i].clone())).collect()
    };
    let all = run(vec![true; l.bits]);
    let sig = run((0..l.bits).map(|i| v >> i & 1 == 1 && l.layout[i].0 != 2).collect());
    let res = |x: d::bitfield::ReservedRange<'b>| (x.description.to_string(), *x.range.start(), *x.range.end());
    let done = super::script::run(&mut r, x.iter(), &all, flag)
        .and_then(|_| super::script::run(&mut r, x.significants(), &sig, flag))
        .and_then(|_| super::script::run(&mut r, x.reserved(), &runs, res));
    if let Err(m) = done {
        bad!("{m}");
    }
    c.eval(fnv(l.name.as_bytes()) ^ fnv(&v.to_le_bytes()));
    c.count(l.name);
    c.add("flags", l.bits as u64);
    Ok(())
}

/// A bit field of the caller's own, with any layout.
#[derive(Debug)]
struct Own<'b, S> {
    value: S,
    layout: &'b [FlagType<'b>],
}

impl<'b, S: Default + Into<u128> + TryFrom<u128> + Copy + std::fmt::Debug> BitField<'b> for Own<'b, S> {
    type Size = S;
    fn value(&self) -> S {
        self.value
    }
    fn iter(&self) -> d::bitfield::Iter<'b, S> {
        d::bitfield::Iter { value: self.value, index: 0, layout: self.layout }
    }
}

/// A bit field that declares no layout.
struct Plain<S>(S);

impl<S: Default + Into<u128> + TryFrom<u128> + Copy + std::fmt::Debug> BitField<'static> for Plain<S> {
    type Size = S;
    fn value(&self) -> S {
        self.0
    }
}

fn own_fields(c: &mut Ctx, r: &mut Rng) -> R {
    const NAMES: [&str; 7] = ["Reserved", "A", "Reserved", "B", "Ab", "AB", ""];
    macro_rules! width {
        ($s:ty, $bits:expr, $v:expr) => {{
            // layouts shorter than the field leave its other bits unknown
            let n = if r.chance(1, 4) { r.below($bits) } else { $bits };
            let mut layout = Vec::new();
            while layout.len() < n {
                let f = match r.below(5) {
                    0 => FlagType::Unknown,
                    1 | 2 => FlagType::Significant(r.pick(&NAMES), r.pick(&NAMES)),
                    _ => FlagType::Reserved(r.pick(&NAMES)),
                };
                for _ in 0..1 + r.below(4) * r.below(3) {
                    layout.push(f);
                }
            }
            layout.truncate(n);
            let mut l = Layouts { name: "user", bits: $bits, layout: layout.iter().map(tag).collect() };
            l.layout.resize($bits, (0, String::new(), String::new()));
            field(c, &l, $v as $s, &Own { value: $v as $s, layout: &layout })?;
            if r.chance(1, 10) {
                let l = Layouts { name: "user", bits: $bits, layout: vec![(0, String::new(), String::new()); $bits] };
                field(c, &l, $v as $s, &Plain($v as $s))?;
            }
        }};
    }
    let v = (r.next() as u128) << 64 | r.next() as u128;
    let v = if r.chance(1, 2) { v & v.rotate_left(1 + r.below(100) as u32) } else { v };
    width!(u8, 8, v);
    width!(u16, 16, v);
    width!(u32, 32, v);
    width!(u64, 64, v);
    width!(u128, 128, v);
    Ok(())
}

/// C15: the flags of a bit field are its bits, each with its own meaning.
pub fn bits(c: &mut Ctx) {
    let ls = layouts();
    let get = |n: &str| ls.iter().find(|l| l.name == n).unwrap();
    // a structure with given bytes, to get at the fields that only come out of one
    fn decode<'a>(t: &'a Table) -> Option<d::Structure<'a>> {
        t.entry().structures(&t.buf).next().and_then(|s| s.ok())
    }
    fn wide(r: &mut Rng, i: usize) -> u64 {
        match i {
            0 => 0,
            1 => u64::MAX,
            2..=65 => 1 << (i - 2),
            66..=129 => !(1 << (i - 66)),
            _ => match r.below(3) {
                0 => r.next(),
                1 => r.next() & r.next(),
                _ => 1 << r.below(64) | 1 << r.below(64),
            },
        }
    }
    c.unit(|c, r| {
        for v in 0..=255u8 {
            use d::system_event_log::LogStatus;
            use d::system_slots::{SlotCharacteristics1 as S1, SlotCharacteristics2 as S2};
            if c.small && r.chance(19, 20) {
                continue;
            }
            field(c, get("SlotCharacteristics1"), v as u64, &S1::from(v))?;
            field(c, get("SlotCharacteristics2"), v as u64, &S2::from(v))?;
            field(c, get("LogStatus"), v as u64, &LogStatus::from(v))?;
            let mut s = Raw { ty: 13, handle: 0, body: vec![0; 0x12], strings: vec![] };
            *s.at(5).unwrap() = v;
            let t = Table::exact((2, 1), s.bytes());
            match decode(&t) {
                Some(d::Structure::BiosLanguage(x)) if x.flags.is_some() => {
                    field(c, get("LanguageFlags"), v as u64, &x.flags.unwrap())?
                }
                _ => return Err(c.fail("language flags are not decoded".into(), t.hex())),
            }
            c.sample(|| format!("all 8-bit fields with value {v:#x}"));
        }
        Ok(())
    });
    for _ in 0..c.pick3(1, 120, 600) {
        c.unit(|c, r| {
            for i in 0..c.pick3(3, 400, 600) {
                let v = wide(r, i);
                field(c, get("PostResults"), v, &d::system_event_log::log_record_format::PostResults::from(v))?;
                let mut s = Raw { ty: 0, handle: 0, body: vec![0; 0x16], strings: vec![] };
                for (k, b) in v.to_le_bytes().iter().enumerate() {
                    *s.at(0x0A + k).unwrap() = *b;
                }
                let (e1, e2) = (r.u8(), r.u8());
                *s.at(0x12).unwrap() = e1;
                *s.at(0x13).unwrap() = e2;
                let t = Table::exact((3, 1), s.bytes());
                let Some(d::Structure::Bios(x)) = decode(&t) else {
                    return Err(c.fail("BIOS structure was not decoded".into(), t.hex()));
                };
                field(c, get("Characteristics"), v, &x.bios_characteristics)?;
                match (x.bios_characteristics_exttension_1, x.bios_characteristics_exttension_2) {
                    (Some(a), Some(b)) => {
                        field(c, get("CharacteristicsExtension1"), e1 as u64, &a)?;
                        field(c, get("CharacteristicsExtension2"), e2 as u64, &b)?;
                    }
                    _ => return Err(c.fail("extension bytes are not decoded".into(), t.hex())),
                }
            }
            Ok(())
        });
    }
    for _ in 0..c.pick3(1, 160, 800) {
        c.unit(|c, r| {
            for _ in 0..c.pick3(1, 150, 400) {
                own_fields(c, r)?;
            }
            Ok(())
        });
    }
    // user-defined positions, every width
    c.unit(|c, r| {
        for _ in 0..c.pick3(20, 20_000, 100_000) {
            let v = (r.next() as u128) << 64 | r.next() as u128;
            let v = if r.chance(1, 2) { v & (r.next() as u128) << r.below(64) } else { v };
            // in any order, and the same one may come more than once
            let twice = r.chance(1, 2);
            let seed = r.next();
            let pos = |w: usize| {
                let mut r = Rng::new(seed, w as u64);
                let mut p = (0..w).filter(|i| v >> i & 1 == 1).map(Position).collect::<Vec<_>>();
                if twice && !p.is_empty() {
                    for _ in 0..1 + r.below(4) {
                        let again = *r.pick(&p);
                        p.push(again);
                    }
                }
                let n = p.len();
                for i in 0..n {
                    p.swap(i, r.below(n));
                }
                p
            };
            let shuffled = pos(128);
            c.case(|| format!("positions of {v:#x}"));
            let ok = pos(8).iter().collect::<u8>() == v as u8
                && pos(16).iter().collect::<u16>() == v as u16
                && pos(32).iter().collect::<u32>() == v as u32
                && pos(64).iter().collect::<u64>() == v as u64
                && pos(64).iter().collect::<usize>() == v as usize
                && shuffled.iter().collect::<u128>() == v
                && pos(8).into_iter().collect::<u8>() == v as u8
                && pos(16).into_iter().collect::<u16>() == v as u16
                && pos(32).into_iter().collect::<u32>() == v as u32
                && pos(64).into_iter().collect::<u64>() == v as u64
                && pos(64).into_iter().collect::<usize>() == v as usize
                && shuffled.into_iter().collect::<u128>() == v;
            c.eval(0);
            c.count("position sets");
            if !ok {
                return Err(c.fail(format!("positions of {v:#x} do not collect to it"), format!("{v:#x}")));
            }
        }
        Ok(())
    });
    // named flags
    c.unit(|c, _| {
        use d::baseboard::BaseBoardFlags as B;
        use d::cache::CacheSramType as S;
        use d::memory_device::{Detail as D, OperatingModes as O};
        use d::processor::{ProcessorCharacteristics as C, ProcessorStatus as P, VoltageLegacy as V};
        macro_rules! named {
            ($t:ident: $($n:ident = $v:expr),* $(,)?) => {
                $(
                    c.eval(fnv(concat!(stringify!($t), stringify!($n)).as_bytes()));
                    c.count("named flags");
                    if $t::$n.bits() as u32 != $v {
                        return Err(c.fail(
                            format!("{} is {:#x}, expected {:#x}", stringify!($n), $t::$n.bits(), $v),
                            stringify!($n).into(),
                        ));
                    }
                )*
            };
        }
        named!(B: HOSTING = 1, REQUIRES_DAUGHTER = 2, IS_REMOVABLE = 4, IS_REPLACEABLE = 8, IS_HOT_SWAPPABLE = 16);
        named!(P: CPU_SOCKET_POPULATED = 0x40, CPU_ENABLED = 1, CPU_DISABLED_BY_USER = 2, CPU_DISABLED_BY_BIOS = 3, CPU_IDLE = 4, CPU_OTHER = 7);
        named!(C: RESERVED = 1, UNKNOWN = 2, CAPABLE_64BIT = 4, MULTICORE = 8, HARDWARE_THREAD = 16, EXECUTE_PROTECTION = 32, ENHANCED_VIRTUALIZATION = 64, POWER_PERFORMANCE_CONTROL = 128, ARM64_SOC_ID = 512);
        named!(V: VOLTAGE_CAPABILITY_5V0 = 1, VOLTAGE_CAPABILITY_3V3 = 2, VOLTAGE_CAPABILITY_2V9 = 4);
        named!(S: OTHER = 1, UNKNOWN = 2, NONBURST = 4, BURST = 8, PIPELINE_BURST = 16, SYNCHRONOUS = 32, ASYNCHRONOUS = 64);
        named!(D: RESERVED = 0, OTHER = 2, UNKNOWN = 4, FAST_PAGED = 8, STATIC_COLUMN = 16, PSEUDO_STATIC = 32, RAMBUS = 64, SYNCHRONOUS = 128, CMOS = 256, EDO = 512, WINDOW_DRAM = 1024, CACHE_DRAM = 2048, NON_VOLATILE = 4096, REGISTERED = 8192, UNREGISTERED = 16384, LRDIMM = 32768);
        named!(O: RESERVED = 0, OTHER = 2, UNKNOWN = 4, VOLATILE = 8, BYTE_ACCESSIBLE_PERSISTENT = 16, BLOCK_ACCESSIBLE_PERSISTENT = 32);
        Ok(())
    });
}

/// Value and text the battery must show for these bytes.
fn battery(c: &mut Ctx, r: &mut Rng) -> R {
    use d::portable_battery::*;
    let ver = *r.pick(&[(2u8, 0u8), (2, 1), (2, 2), (3, 2)]);
    let len = if ver == (2, 1) { 0x10 } else if ver.1 == 0 { *r.pick(&[0x10, 0x12, 0x14, 0x15, 0x16, 0x1A]) } else { 0x1A };
    let mut s = Raw { ty: 22, handle: 0, body: gen::body(r, len - 4), strings: vec![b"07/17/2019".to_vec(), b"1234".to_vec()] };
    gen::reconcile(r, &mut s);
    let t = Table::exact(ver, s.bytes());
    c.case(|| t.hex());
    let e = t.entry();
    let f = s.formatted();
    let word = |o: usize| f.get(o..o + 2).map(|b| b[0] as u16 | (b[1] as u16) << 8);
    let Some(Ok(d::Structure::PortableBattery(x))) = e.structures(&t.buf).next() else { return Ok(()) };
    let sb = s.set();
    let given = |o: usize| if f[o] == 0 { None } else { model::string(&sb, f[o]) };
    let date = match (given(6), word(0x12)) {
        (Some(s), _) => s.to_string(),
        (None, Some(w)) => format!("{}-{:02}-{:02}", 1980 + w / 512, w / 32 % 16, w % 32),
        _ => String::new(),
    };
    let serial = match (given(7), word(0x10)) {
        (Some(s), _) => s.to_string(),
        (None, Some(w)) => format!("0x{:02X}", w),
        _ => String::new(),
    };
    let capacity = word(0x0A).unwrap() as u64 * f.get(0x15).copied().unwrap_or(1) as u64;
    c.eval(fnv(date.as_bytes()) & 0xFFFF | 0x1_0000);
    c.count("batteries");
    if format!("{}", x.manufacture_date) != date {
        return Err(c.fail(format!("manufacture date reads {}, expected {date}", x.manufacture_date), t.hex()));
    }
    if format!("{}", x.serial_number) != serial {
        return Err(c.fail(format!("serial number reads {}, expected {serial}", x.serial_number), t.hex()));
    }
    if u64::from(x.design_capacity) != capacity {
        return Err(c.fail(format!("capacity {} mWh, expected {capacity}", u64::from(x.design_capacity)), t.hex()));
    }
    let _: DesignCapacity = x.design_capacity;
    Ok(())
}

/// C16: quantities, units and texts derived from raw values.
pub fn units(c: &mut Ctx) {
    macro_rules! want {
        ($c:expr, $name:expr, $arg:expr, $got:expr, $want:expr) => {{
            let (g, w) = ($got, $want);
            $c.eval(0);
            if g != w {
                return Err($c.fail(format!("{} of {:#x?}: got {g:?}, expected {w:?}", $name, $arg), format!("{} {:x?}", $name, $arg)));
            }
        }};
    }
    c.unit(|c, _| {
        use d::processor::Voltage;
        use d::system_slots::DeviceAndFunctionNumber as Df;
        for v in 0..=255u8 {
            c.case(|| format!("byte {v:#x}"));
            let rom = |basic, extended| u64::from(d::bios::RomSize { basic, extended });
            if v != 255 {
                for e in [None, Some(0), Some(0x4001), Some(0xFFFF)] {
                    want!(c, "ROM size", v, rom(v, e), (v as u64 + 1) * 65_536);
                }
            }
            want!(c, "ROM size", 255, rom(255, None), 16 * 1024 * 1024);
            let text = match v {
                0x80.. => format!("Current voltage: {}.{} V", (v - 0x80) / 10, (v - 0x80) % 10),
                0 => "Voltage capability unknown".into(),
                1..=7 => format!(
                    "Processor socket accept: {}{}{}",
                    if v & 1 != 0 { "5.5V " } else { "" },
                    if v & 2 != 0 { "3.3V " } else { "" },
                    if v & 4 != 0 { "2.9V " } else { "" }
                ),
                _ => format!("Undefined 0b{v:b}"),
            };
            want!(c, "voltage", v, format!("{}", Voltage::from(v)), text);
            want!(c, "voltage", v, obs::voltage(&Voltage::from(v)), model::voltage(v));
            want!(c, "device and function", v, u8::from(Df::from(v)), v);
            for w in 0..=255u8 {
                let rev = if v == 255 && w == 255 { "N/A".to_string() } else { format!("{v}.{w}") };
                let (major, minor) = (v, w);
                want!(c, "BIOS revision", [v, w], format!("{}", d::bios::BiosRevision { major, minor }), rev.clone());
                want!(c, "firmware revision", [v, w], format!("{}", d::bios::FirmwareRevision { major, minor }), rev);
                use d::system_event_log::EventLogTypeDescriptor as Desc;
                want!(c, "event log descriptor", [v, w], <[u8; 2]>::from(Desc::from([v, w])), [v, w]);
                let ver = d::SmbiosVersion::from((v as usize, w as usize));
                want!(c, "version", [v, w], (ver.major, ver.minor), (v, w));
            }
            c.eval(fnv(&[1, v]));
        }
        c.sample(|| "every byte through ROM size, voltage, device/function, revisions, descriptors".into());
        Ok(())
    });
    for part in 0..16u32 {
        c.unit(|c, r| {
            use d::cache::{CacheConfiguration, CacheSize};
            for w in part * 4096..(part + 1) * 4096 {
                if c.small && r.chance(199, 200) {
                    continue;
                }
                let w = w as u16;
                c.case(|| format!("word {w:#x}"));
                let n = (w % 0x8000) as u64;
                let unit = if w < 0x8000 { 1024 } else { 65_536 };
                want!(c, "cache size", w, CacheSize::from(w).bytes(), n * unit);
                let rom = u64::from(d::bios::RomSize { basic: 255, extended: Some(w) });
                let size = (w % 0x4000) as u64;
                let want = match w / 0x4000 {
                    0 => size * 1024 * 1024,
                    1 => size * 1024 * 1024 * 1024,
                    // a unit nobody has defined: all that is known is "16 MB or more"
                    _ => 16 * 1024 * 1024,
                };
                want!(c, "extended ROM size", w, rom, want);
                want!(c, "slot pitch", w, format!("{}", d::system_slots::SlotPitch::from(w)), model::slot_pitch(w));
                want!(c, "cache configuration", w, obs::cache_configuration(&CacheConfiguration::from(w)), model::cache_configuration(w));
                // configurations are equal exactly when all they say is
                let o = r.next() as u16 & *r.pick(&[0x07, 0x08, 0x60, 0x80, 0x300, 0xFC10]);
                let same = (w ^ o) & 0x3EF == w & 0x3EF;
                want!(c, "cache configuration equality", [w, w ^ o], CacheConfiguration::from(w) == CacheConfiguration::from(w ^ o), same);
                let b = w.to_le_bytes();
                let bytes = [b[0], b[1], r.u8(), r.u8(), r.u8()];
                let dev = d::system_slots::Device::from(&bytes[..]);
                want!(c, "device", bytes, obs::device(&dev), model::device(&bytes));
                want!(c, "device", bytes, <[u8; 5]>::from(&dev), bytes);
                let k = r.below(6);
                let short = d::system_slots::Device::from(&bytes[..k.min(5)]);
                let mut padded = [0; 5];
                padded[..k.min(5)].copy_from_slice(&bytes[..k.min(5)]);
                want!(c, "short device", &bytes[..k.min(5)], <[u8; 5]>::from(&short), padded);
                let el = d::enclosure::ContainedElement::from(&bytes[..k.min(5)]);
                want!(c, "contained element", &bytes[..k.min(5)], format!("{el}"), model::element_text(&bytes[..k.min(5)]));
                c.eval(fnv(&[2, b[0], b[1]]));
                c.count("words");
            }
            Ok(())
        });
    }
    for part in 0..c.pick3(1, 200, 1000) {
        c.unit(|c, r| {
            use d::cache::CacheSize2;
            use d::system_event_log::AccessMethod;
            for i in 0..c.pick3(50, 10_000, 20_000) {
                let a = match (part, i) {
                    (0, 0..=31) => 1u32 << i,
                    (0, 32..=63) => (1u32 << (i - 32)).wrapping_sub(1),
                    (0, 64..=95) => !(1u32 << (i - 64)),
                    _ => {
                        let x = r.next() as u32;
                        match r.below(4) {
                            0 => x >> r.below(32),
                            1 => x | 0x8000_0000,
                            _ => x,
                        }
                    }
                };
                c.case(|| format!("dword {a:#x}"));
                let n = (a % 0x8000_0000) as u64;
                let unit = if a < 0x8000_0000 { 1024 } else { 65_536 };
                want!(c, "cache size 2", a, CacheSize2::from(a).bytes(), n * unit);
                let m = match i % 3 {
                    0 => r.below(6) as u8,
                    1 => *r.pick(&[5, 0x7F, 0x80, 0xFF]),
                    _ => r.u8(),
                };
                let x = AccessMethod::new(m, a);
                want!(c, "access method", [m as u32, a], obs::access_method(&x), model::access_method(m, a));
                let kept = match m {
                    0 => a & 0x00FF_00FF,
                    1 | 2 => a & 0x00FF_FFFF,
                    4 => a & 0xFFFF,
                    _ => a,
                };
                want!(c, "address of access method", [m as u32, a], x.address(), kept);
                let b = a.to_le_bytes();
                let lo = a & 0xFFFF;
                let (text, long) = match m {
                    0 => {
                        let t = "Indexed I/O, one 8-bit index port, one 8-bit data port";
                        (t.to_string(), format!("{t}: Index 0x{:02X}, Data 0x{:02X}", b[0], b[2]))
                    }
                    1 => {
                        let t = "Indexed I/O, two 8-bit index ports, one 8-bit data port";
                        (t.to_string(), format!("{t}: Index [{:X}, {:X}], Data 0x{:02X}", b[0], b[1], b[2]))
                    }
                    2 => {
                        let t = "Indexed I/O, one 16-bit index port, one 8-bit data port";
                        (t.to_string(), format!("{t}: Index 0x{lo:04X}, Data 0x{:02X}", b[2]))
                    }
                    3 => {
                        let t = "Memory-mapped physical 32-bit address";
                        (t.to_string(), format!("{t}: 0x{a:08X}"))
                    }
                    4 => (
                        "General-purpose non-volatile data functions".to_string(),
                        format!("General-Purpose NonVolatile Data functions, handle 0x{lo:04X}"),
                    ),
                    0x80.. => (
                        format!("OEM-specific: {m}"),
                        format!("BIOS Vendor/OEM-specific: Method {m}, Address 0x{a:08X}"),
                    ),
                    _ => (format!("Available: {m}"), format!("Available: Method {m}, Address 0x{a:08X}")),
                };
                want!(c, "text of access method", [m as u32, a], format!("{x}"), text);
                want!(c, "text of access method", [m as u32, a], format!("{x:#}"), long);
                c.eval(fnv(&[3, m, b[3], (a >> 16) as u8 & 0xF0]));
                c.count("dwords");
            }
            Ok(())
        });
    }
    // versions are ordered as they are numbered
    c.unit(|c, r| {
        for _ in 0..c.pick3(100, 100_000, 400_000) {
            let p = |r: &mut Rng| if r.chance(1, 2) { (r.below(4), r.below(4)) } else { (r.below(256), r.below(256)) };
            let (a, b) = (p(r), p(r));
            want!(c, "order of versions", [a, b], d::SmbiosVersion::from(a).cmp(&d::SmbiosVersion::from(b)), a.cmp(&b));
            want!(c, "order of versions", [a, b], d::SmbiosVersion::from(a) >= d::SmbiosVersion::from(b), a >= b);
            c.count("version pairs");
        }
        Ok(())
    });
    // batteries: dates, serial numbers, capacities
    for _ in 0..c.pick3(1, 200, 800) {
        c.unit(|c, r| {
            for _ in 0..c.pick3(5, 4000, 8000) {
                battery(c, r)?;
            }
            Ok(())
        });
    }
    c.unit(|c, r| {
        for w in 0..=0xFFFFu16 {
            if c.small && r.chance(199, 200) {
                continue;
            }
            let mut s = Raw { ty: 22, handle: 0, body: vec![0; 0x16], strings: vec![] };
            for o in [0x0Ausize, 0x10, 0x12] {
                *s.at(o).unwrap() = w as u8;
                *s.at(o + 1).unwrap() = (w >> 8) as u8;
            }
            let m = if w % 3 == 0 { 255 } else { r.u8() };
            *s.at(0x15).unwrap() = m;
            let t = Table::exact((2, 8), s.bytes());
            c.case(|| t.hex());
            let e = t.entry();
            let Some(Ok(d::Structure::PortableBattery(x))) = e.structures(&t.buf).next() else {
                return Err(c.fail("battery was not decoded".into(), t.hex()));
            };
            want!(c, "manufacture date", w, format!("{}", x.manufacture_date), format!("{}-{:02}-{:02}", 1980 + w / 512, w / 32 % 16, w % 32));
            want!(c, "serial number", w, format!("{}", x.serial_number), format!("0x{w:02X}"));
            want!(c, "capacity", [w, m as u16], u64::from(x.design_capacity), w as u64 * m as u64);
            c.count("battery words");
        }
        Ok(())
    });
}

pub fn hash_of<T: Hash>(v: &T) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

fn first_ok<'a>(t: &'a Table) -> Option<d::Structure<'a>> {
    t.entry().structures(&t.buf).next().and_then(|s| s.ok())
}

pub fn pair(c: &mut Ctx, a: &Table, b: &Table) -> R {
    let case = || format!("A {} B {}", a.hex(), b.hex());
    c.case(case);
    // in memory of any alignment
    let h = fnv(&b.buf) as usize;
    let (m, n) = (Exact::new(&a.buf, h / 8 % 4), Exact::new(&b.buf, h % 8));
    let (ea, eb) = (a.entry(), b.entry());
    let first = |i: Option<Result<_, _>>| i.and_then(|s| s.ok());
    let (Some(x), Some(y)) = (first(ea.structures(m.view()).next()), first(eb.structures(n.view()).next())) else {
        c.count("not decoded");
        return Ok(());
    };
    let (ox, oy) = (obs::structure(&x), obs::structure(&y));
    let same = ox == oy && format!("{x:?}") == format!("{y:?}");
    let eq = x == y;
    c.eval(fnv(&[a.buf[0], a.buf[1], eq as u8, same as u8, a.ver.0, a.ver.1]));
    c.count(if eq { "equal pairs" } else { "unequal pairs" });
    if eq != (y == x) || eq == (x != y) {
        return Err(c.fail("equality depends on the side".into(), case()));
    }
    if x != x.clone() || y != y.clone() || hash_of(&x) != hash_of(&x.clone()) {
        return Err(c.fail("a copy is not equal to its original or hashes differently".into(), case()));
    }
    if obs::structure(&x.clone()) != ox {
        return Err(c.fail("a copy shows something else".into(), case()));
    }
    if eq && ox != oy {
        return Err(c.fail(format!("equal, but differ: {}", super::decode::diff(&ox, &oy)), case()));
    }
    if eq && hash_of(&x) != hash_of(&y) {
        return Err(c.fail("equal, but hash differently".into(), case()));
    }
    if same && !eq {
        return Err(c.fail("show the same, but are unequal".into(), case()));
    }
    if a.buf == b.buf && a.ver == b.ver && !eq {
        return Err(c.fail("the same bytes decode to unequal values".into(), case()));
    }
    Ok(())
}

/// Two iterators, moved on: equal means that the same items follow.
fn places<I, V, F>(c: &mut Ctx, r: &mut Rng, a: &I, b: &I, f: F, t: &Table) -> R
where
    I: Iterator + Clone + PartialEq + Hash + Debug,
    V: PartialEq + Debug,
    F: Fn(I::Item) -> V + Copy,
{
    let (mut a, mut b) = (a.clone(), b.clone());
    for _ in 0..r.below(4) {
        a.next();
    }
    for _ in 0..r.below(4) {
        b.next();
    }
    let eq = a == b;
    let (x, y): (Vec<V>, Vec<V>) = (a.clone().take(5000).map(f).collect(), b.clone().take(5000).map(f).collect());
    c.eval(fnv(&[eq as u8, x.len() as u8, y.len() as u8]));
    c.count("iterator pairs");
    if eq && x != y {
        return Err(c.fail(format!("equal iterators {a:?} and {b:?} give different items"), t.hex()));
    }
    if eq && hash_of(&a) != hash_of(&b) {
        return Err(c.fail(format!("equal iterators {a:?} hash differently"), t.hex()));
    }
    if !eq && format!("{a:?}") == format!("{b:?}") {
        return Err(c.fail(format!("iterators show the same, {a:?}, but are unequal"), t.hex()));
    }
    if a != a.clone() {
        return Err(c.fail(format!("a copy of {a:?} is not equal to it"), t.hex()));
    }
    Ok(())
}

/// C22: equal means indistinguishable, and equal values hash alike.
pub fn equality(c: &mut Ctx) {
    for _ in 0..c.pick3(3, 200, 2000) {
        c.unit(|c, r| {
            for _ in 0..c.pick3(3, 500, 1000) {
                let ver = gen::version(r);
                let ty = gen::any_type(r);
                let s = if r.chance(3, 4) { gen::fitting(r, ty, ver) } else { gen::structure(r, ty) };
                let a = Table::exact(ver, s.bytes());
                pair(c, &a, &a.clone())?;
                c.sample(|| a.hex());
                for _ in 0..4 {
                    let mut o = s.clone();
                    let mut v = ver;
                    match r.below(6) {
                        0 => o.handle ^= 1 << r.below(16),
                        1 | 2 if !o.body.is_empty() => {
                            let i = r.below(o.body.len());
                            o.body[i] ^= 1 << r.below(8)
                        }
                        3 if !o.strings.is_empty() => {
                            let i = r.below(o.strings.len());
                            o.strings[i] = gen::utf8(r)
                        }
                        4 => v = gen::version(r),
                        _ => {
                            if r.chance(1, 2) {
                                o.strings.push(b"more".to_vec())
                            } else if o.len() < 255 {
                                o.body.push(0)
                            }
                        }
                    }
                    let b = Table::exact(v, o.bytes());
                    pair(c, &a, &b)?;
                }
            }
            Ok(())
        });
    }
    // groups that go on where the others end
    for ty in [3u8, 9, 11, 12, 13, 14, 15] {
        c.unit(|c, r| {
            let mk = |n: usize, m: usize, items: &[u8]| -> Raw {
                let mut s = Raw { ty, handle: 7, body: vec![], strings: vec![] };
                match ty {
                    3 => {
                        s.body = vec![0; 0x15 - 4];
                        (s.body[0x13 - 4], s.body[0x14 - 4]) = (n as u8, m as u8);
                        s.body.extend_from_slice(&items[..n * m]);
                    }
                    9 => {
                        s.body = vec![0; 0x13 - 4];
                        s.body[0x12 - 4] = n as u8;
                        s.body.extend_from_slice(&items[..n * 5]);
                    }
                    14 => {
                        s.body = vec![0];
                        s.body.extend_from_slice(&items[..n * 3]);
                    }
                    15 => {
                        s.body = vec![0; 0x17 - 4];
                        (s.body[0x15 - 4], s.body[0x16 - 4]) = (n as u8, m as u8);
                        s.body.extend_from_slice(&items[..n * m]);
                    }
                    _ => {
                        s.body = vec![0; 0x16 - 4];
                        if ty == 12 {
                            s.body[0] = n as u8;
                        }
                        s.strings = items[..n].iter().map(|b| format!("{b}").into_bytes()).collect();
                    }
                }
                s
            };
            let ver = if ty == 9 { (3, 2) } else { (2, 8) };
            for _ in 0..c.pick3(2, 300, 3000) {
                let m = r.range(1, 6);
                let most = 220 / m.max(5);
                // few distinct bytes, so that records repeat
                let few = r.range(1, 4);
                let items: Vec<u8> = (0..256).map(|_| r.below(few) as u8).collect();
                let n = r.below(most);
                let a = Table::exact(ver, mk(n, m, &items).bytes());
                let mut other = items.clone();
                other[r.below((n * m).max(1))] ^= 1;
                for b in [mk(n + 1, m, &items), mk(n, m, &other), mk(n, m % 6 + 1, &items), mk(n / 2, m * 2, &items), mk(0, m, &items)] {
                    pair(c, &a, &Table::exact(ver, b.bytes()))?;
                }
                c.count("groups of other sizes");
            }
            Ok(())
        });
    }
    // iterators that stand at different places
    for _ in 0..c.pick3(2, 40, 400) {
        c.unit(|c, r| {
            for _ in 0..c.pick3(3, 200, 300) {
                let ty = *r.pick(&[3u8, 9, 11, 12, 13, 14, 15]);
                let ver = gen::version(r);
                let s = gen::fitting(r, ty, ver);
                let mut o = s.clone();
                if r.chance(1, 2) && !o.body.is_empty() {
                    let i = r.below(o.body.len());
                    o.body[i] ^= 1 << r.below(8);
                }
                let (a, b) = (Table::exact(ver, s.bytes()), Table::exact(ver, o.bytes()));
                c.case(|| format!("A {} B {}", a.hex(), b.hex()));
                match (first_ok(&a), first_ok(&b)) {
                    (Some(d::Structure::Enclosure(x)), Some(d::Structure::Enclosure(y))) => {
                        if let (Some(x), Some(y)) = (&x.contained_elements, &y.contained_elements) {
                            places(c, r, x, y, |i| i, &a)?;
                        }
                    }
                    (Some(d::Structure::SystemSlots(x)), Some(d::Structure::SystemSlots(y))) => {
                        if let (Some(x), Some(y)) = (&x.peer_devices, &y.peer_devices) {
                            places(c, r, x, y, |i| i, &a)?;
                        }
                    }
                    (Some(d::Structure::OemStrings(x)), Some(d::Structure::OemStrings(y))) => {
                        places(c, r, &x.strings, &y.strings, str::to_string, &a)?;
                    }
                    (Some(d::Structure::SystemConfigurationOptions(x)), Some(d::Structure::SystemConfigurationOptions(y))) => {
                        places(c, r, &x.strings, &y.strings, str::to_string, &a)?;
                    }
                    (Some(d::Structure::BiosLanguage(x)), Some(d::Structure::BiosLanguage(y))) => {
                        places(c, r, &x.installable_languages, &y.installable_languages, str::to_string, &a)?;
                        if let (Some(x), Some(y)) = (&x.flags, &y.flags) {
                            places(c, r, &x.iter(), &y.iter(), |f| f, &a)?;
                            places(c, r, &x.significants(), &y.significants(), |f| f, &a)?;
                            places(c, r, &x.reserved(), &y.reserved(), |f| f, &a)?;
                        }
                    }
                    (Some(d::Structure::GroupAssociations(x)), Some(d::Structure::GroupAssociations(y))) => {
                        places(c, r, &x.items, &y.items, |i| i, &a)?;
                    }
                    (Some(d::Structure::SystemEventLog(x)), Some(d::Structure::SystemEventLog(y))) => {
                        if let (Some(x), Some(y)) = (&x.supported_event_log_type_descriptors, &y.supported_event_log_type_descriptors) {
                            places(c, r, x, y, |i| i, &a)?;
                        }
                    }
                    _ => {}
                }
                let (ta, tb) = (gen::table(r, 5), gen::table(r, 5));
                let mut tb = if r.chance(5, 6) { ta.clone() } else { tb };
                match r.below(5) {
                    // the same bytes under another version
                    0 => tb.ver.1 = r.below(9) as u8,
                    1 => tb.ver = gen::version(r),
                    2 if !tb.buf.is_empty() => {
                        let i = r.below(tb.buf.len());
                        tb.buf[i] ^= 1 << r.below(8)
                    }
                    _ => {}
                }
                c.case(|| format!("A {} B {}", ta.hex(), tb.hex()));
                let show = |i: Result<d::Structure<'_>, d::MalformedStructureError>| format!("{i:?}");
                let (ea, eb) = (ta.entry(), tb.entry());
                let (m, n) = (Exact::new(&ta.buf, r.below(8)), Exact::new(&tb.buf, r.below(8)));
                places(c, r, &ea.structures(m.view()), &eb.structures(n.view()), show, &ta)?;
            }
            Ok(())
        });
    }
    // one byte of difference, at every place
    for &ty in model::TYPED {
        c.unit(|c, r| {
            for &ver in &[(2u8, 1u8), (2, 5), (2, 8), (3, 7)] {
                let s = gen::fitting(r, ty, ver);
                let a = Table::exact(ver, s.bytes());
                for i in 0..s.body.len() {
                    for bit in 0..8 {
                        if c.small && r.chance(19, 20) {
                            continue;
                        }
                        let mut o = s.clone();
                        o.body[i] ^= 1 << bit;
                        pair(c, &a, &Table::exact(ver, o.bytes()))?;
                    }
                }
            }
            Ok(())
        });
    }
    // values on their own
    c.unit(|c, r| {
        fn both<T: PartialEq + Hash + Debug + Clone>(c: &mut Ctx, a: T, b: T, same: bool) -> R {
            c.eval(0);
            c.count("value pairs");
            if (a == b) != same || (same && hash_of(&a) != hash_of(&b)) || a.clone() != a {
                return Err(c.fail(format!("{a:?} and {b:?}: equal {}, should be {same}", a == b), format!("{a:?} {b:?}")));
            }
            Ok(())
        }
        for _ in 0..c.pick3(100, 30_000, 200_000) {
            use d::system_slots::{Device, DeviceAndFunctionNumber as Df, SlotPitch};
            let (x, y) = (r.next() as u16, r.next() as u16);
            let y = if r.chance(1, 3) { x } else if r.chance(1, 2) { x ^ 1 << r.below(16) } else { y };
            both(c, d::cache::CacheSize::from(x), d::cache::CacheSize::from(y), x == y)?;
            both(c, SlotPitch::from(x), SlotPitch::from(y), x == y)?;
            both(c, d::processor::ProcessorFamily::from(x), d::processor::ProcessorFamily::from(y), golden::family(x) == golden::family(y))?;
            both(c, Df::from(x as u8), Df::from(y as u8), x as u8 == y as u8)?;
            both(c, d::processor::Voltage::from(x as u8), d::processor::Voltage::from(y as u8), x as u8 == y as u8)?;
            both(c, d::InfoType::from(x as u8), d::InfoType::from(y as u8), x as u8 == y as u8)?;
            let (a, b) = (x.to_le_bytes(), y.to_le_bytes());
            let dev = |b: [u8; 2]| Device::from(&[b[0], 1, b[1], 2, 3][..]);
            both(c, dev(a), dev(b), a == b)?;
            let ver = |b: [u8; 2]| d::SmbiosVersion { major: b[0], minor: b[1] };
            both(c, ver(a), ver(b), a == b)?;
            let (p, q) = ((x as u32) << 16 | y as u32, (y as u32) << 16 | x as u32);
            both(c, d::cache::CacheSize2::from(p), d::cache::CacheSize2::from(q), p == q)?;
        }
        Ok(())
    });
    // entry points
    c.unit(|c, r| {
        for _ in 0..c.pick3(20, 4000, 20_000) {
            let v3 = r.chance(1, 2);
            let mk = |r: &mut Rng| {
                let ver = gen::version(r);
                let n = r.below(3) as u16;
                if v3 { gen::entry_v3(ver, n as u32, 0) } else { gen::entry_v2(ver, n, 0) }
            };
            let a = mk(r);
            let b = if r.chance(1, 2) { a.clone() } else { mk(r) };
            c.case(|| format!("{} {}", gen::hex(&a), gen::hex(&b)));
            if let (Ok(x), Ok(y)) = (d::EntryPoint::search(&a), d::EntryPoint::search(&b)) {
                c.eval(0);
                c.count("entry point pairs");
                if (x == y) != (a == b) || (x == y && hash_of(&x) != hash_of(&y)) {
                    return Err(c.fail(format!("{x:?} and {y:?}"), format!("{} {}", gen::hex(&a), gen::hex(&b))));
                }
            }
        }
        Ok(())
    });
    // flags and bit fields of the caller's own, with texts in memory of their own
    for _ in 0..c.pick3(1, 8, 80) {
        c.unit(|c, r| {
            const NAMES: [&str; 6] = ["Reserved", "Reserver", "A", "B", "AB", ""];
            let (p, q) = (NAMES.map(String::from), NAMES.map(String::from));
            for _ in 0..c.pick3(10, 2000, 2000) {
                let (k, m, n) = (r.below(4), r.below(6), r.below(6));
                fn kind<'b>(p: &'b [String; 6], k: usize, m: usize, n: usize) -> FlagType<'b> {
                    match k {
                        0 => FlagType::Unknown,
                        1 => FlagType::Reserved(&p[m]),
                        _ => FlagType::Significant(&p[m], &p[n]),
                    }
                }
                let (pos, set) = (r.below(3) * 64 + r.below(2), r.chance(1, 2));
                let a = d::bitfield::Flag { position: Position(pos), is_set: set, type_: kind(&p, k, m, n) };
                let mut b = d::bitfield::Flag { position: Position(pos), is_set: set, type_: kind(&q, k, m, n) };
                match r.below(5) {
                    0 => b.is_set = !b.is_set,
                    1 => b.position.0 = r.below(200),
                    2 => b.type_ = kind(&q, k, r.below(6), n),
                    3 => b.type_ = kind(&q, r.below(4), m, r.below(6)),
                    _ => {}
                }
                let same = a.position.0 == b.position.0 && a.is_set == b.is_set && tag(&a.type_) == tag(&b.type_);
                c.eval(fnv(&[k as u8, m as u8, n as u8, same as u8]));
                c.count("flag pairs");
                let case = || format!("{} {} {:?} / {} {} {:?}", a.position.0, a.is_set, a.type_, b.position.0, b.is_set, b.type_);
                c.case(case);
                if (a == b) != same || (a.type_ == b.type_) != (tag(&a.type_) == tag(&b.type_)) || (a.position == b.position) != (a.position.0 == b.position.0) {
                    return Err(c.fail(format!("flags that are {} compare otherwise", if same { "the same" } else { "different" }), case()));
                }
                if same && hash_of(&a) != hash_of(&b) {
                    return Err(c.fail("equal flags hash differently".into(), case()));
                }
                let range = |x: usize, t: &'static str| d::bitfield::ReservedRange { description: t, range: x..=x + 2 };
                let (x, y) = (range(pos, NAMES[m]), range(b.position.0, NAMES[n]));
                if (x == y) != (pos == b.position.0 && m == n) || (x == y && hash_of(&x) != hash_of(&y)) {
                    return Err(c.fail(format!("{x:?} and {y:?}"), case()));
                }
                // whole fields
                let shape: Vec<(usize, usize, usize)> = (0..r.below(17)).map(|_| (r.below(4), r.below(6), r.below(6))).collect();
                let mut other = shape.clone();
                if r.chance(1, 2) && !other.is_empty() {
                    let i = r.below(other.len());
                    other[i] = (r.below(4), r.below(6), r.below(6));
                }
                let la: Vec<FlagType> = shape.iter().map(|f| kind(&p, f.0, f.1, f.2)).collect();
                let lb: Vec<FlagType> = other.iter().map(|f| kind(&q, f.0, f.1, f.2)).collect();
                let v = r.next() as u16;
                let w = if r.chance(1, 2) { v } else { v ^ 1 << r.below(16) };
                let (x, y) = (Own { value: v, layout: &la }, Own { value: w, layout: &lb });
                let t = Table::exact((2, 0), vec![]);
                let flag = |f: d::bitfield::Flag<'_>| (f.position.0, f.is_set, tag(&f.type_));
                c.case(|| format!("{x:?} {y:?}"));
                places(c, r, &x.iter(), &y.iter(), flag, &t)?;
                places(c, r, &x.significants(), &y.significants(), flag, &t)?;
                places(c, r, &x.reserved(), &y.reserved(), |i| (i.description.to_string(), i.range), &t)?;
            }
            Ok(())
        });
    }
    // entry points that differ in two bytes whose sum is the same, so in no checksum
    for _ in 0..c.pick3(1, 8, 80) {
        c.unit(|c, r| {
            for _ in 0..c.pick3(20, 8000, 8000) {
                let v3 = r.chance(1, 2);
                let ver = gen::version(r);
                let mut a = if v3 { gen::entry_v3(ver, 0, 0) } else { gen::entry_v2(ver, 0, 0) };
                let free: Vec<usize> = if v3 { (7..24).collect() } else { (6..16).chain(0x16..31).collect() };
                for &i in &free {
                    if r.chance(1, 2) {
                        a[i] = r.byte();
                    }
                }
                gen::fix(&mut a, if v3 { 5 } else { 4 });
                let mut b = a.clone();
                let d = *r.pick(&[1u8, 2, 16, 128, 255, 77]);
                let i = *r.pick(&free);
                let j = *r.pick(&free);
                b[i] = b[i].wrapping_add(d);
                b[j] = b[j].wrapping_sub(d);
                let case = || format!("{} {}", gen::hex(&a), gen::hex(&b));
                c.case(case);
                let (m, n) = (Exact::new(&a, r.below(8)), Exact::new(&b, r.below(8)));
                if let (Ok(x), Ok(y)) = (d::EntryPoint::search(m.view()), d::EntryPoint::search(n.view())) {
                    c.eval(fnv(&[v3 as u8, i as u8, j as u8]));
                    c.count("entry points with the same checksum");
                    let (ox, oy) = (shown(&x), shown(&y));
                    if x == y && ox != oy {
                        return Err(c.fail(format!("equal, but {x:?} and {y:?}"), case()));
                    }
                    if x != y && a == b {
                        return Err(c.fail(format!("the same bytes, but unequal: {x:?}"), case()));
                    }
                    if x == y && hash_of(&x) != hash_of(&y) {
                        return Err(c.fail(format!("equal, but hash differently: {x:?}"), case()));
                    }
                }
            }
            Ok(())
        });
    }
}

/// Everything an entry point shows in public.
fn shown(e: &d::EntryPoint) -> Vec<u64> {
    let mut v = match *e {
        d::EntryPoint::V2(e) => {
            let (a, b, f, g, h) = ({ e.signature }, { e.struct_max }, { e.smbios_len }, { e.smbios_address }, { e.smbios_count });
            let mut v = vec![2, a as u64, b as u64, f as u64, g as u64, h as u64];
            v.extend([e.checksum, e.len, e.major, e.minor, e.revision, e.dmi_checksum, e.bcd_revision].map(u64::from));
            v.extend(e.formatted.map(u64::from));
            v.extend(e.dmi_signature.map(u64::from));
            v
        }
        d::EntryPoint::V3(e) => {
            let (f, g) = ({ e.smbios_len_max }, { e.smbios_address });
            let mut v = vec![3, f as u64, g];
            v.extend([e.checksum, e.len, e.major, e.minor, e.docrev, e.revision].map(u64::from));
            v.extend(e.signature.map(u64::from));
            v
        }
    };
    v.extend([e.major() as u64, e.minor() as u64, e.smbios_address(), e.smbios_len() as u64]);
    v
}
