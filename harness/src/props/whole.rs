//! Properties of every execution: memory safety (C01), no panics (C02), bounded work (C03),
//! determinism (C18), configurations and allocations (C19).
use std::panic::{catch_unwind, AssertUnwindSafe};

use dmidecode as d;

use crate::ctx::{fnv, last_panic, Ctx, R};
use crate::fresh;
use crate::gen::{self, Raw, Table};
use crate::model;
use crate::rng::Rng;
use crate::touch::{self, Sink};

/// The table's bytes in an allocation that ends where they end, at some alignment.
pub struct Exact {
    mem: Box<[u8]>,
    from: usize,
    len: usize,
}
impl Exact {
    pub fn new(buf: &[u8], align: usize) -> Exact {
        let mut v = Vec::with_capacity(align + buf.len());
        v.resize(align, 0xC5);
        v.extend_from_slice(buf);
        Exact { mem: v.into_boxed_slice(), from: align, len: buf.len() }
    }
    /// Where the address has the given remainder in a page of 64 KiB.
    pub fn within(buf: &[u8], rem: usize) -> Exact {
        const PAGE: usize = 1 << 16;
        let mut mem = vec![0xC5; buf.len() + PAGE].into_boxed_slice();
        let from = (rem % PAGE + PAGE - mem.as_ptr() as usize % PAGE) % PAGE;
        mem[from..from + buf.len()].copy_from_slice(buf);
        // the allocation stays longer than the bytes
        Exact { mem, from, len: buf.len() }
    }
    /// Anywhere, often at the borders of pages.
    pub fn anywhere(r: &mut Rng, buf: &[u8]) -> Exact {
        let n = buf.len();
        match r.below(6) {
            0 => Exact::within(buf, 0),
            1 => Exact::within(buf, 4096usize.wrapping_mul(r.below(16)) + r.below(3)),
            2 => Exact::within(buf, (1 << 20) - n % (1 << 16)),
            3 => Exact::within(buf, (1 << 20) - n % (1 << 16) - r.below(4096)),
            _ => Exact::new(buf, r.below(8)),
        }
    }
    pub fn view(&self) -> &[u8] {
        &self.mem[self.from..self.from + self.len]
    }
}

fn sig(t: &Table, s: &touch::Seen) -> u64 {
    let b = [t.buf.first().copied().unwrap_or(0), t.buf.get(1).copied().unwrap_or(0), t.ver.0, t.ver.1, s.ok.min(255) as u8, s.errors as u8];
    fnv(&b)
}

/// Everything one can do with one buffer.
pub fn use_all(c: &mut Ctx, r: &mut Rng, t: &Table) -> R {
    c.case(|| t.hex());
    let m = Exact::new(&t.buf, r.below(8));
    let e = t.entry();
    let mut k = Sink::new();
    let out = catch_unwind(AssertUnwindSafe(|| {
        touch::search(m.view(), &mut k);
        touch::walk(&e, m.view(), &mut k)
    }));
    match out {
        Ok(seen) => {
            c.eval(sig(t, &seen));
            c.add("structures used", seen.ok);
            c.add("structures refused", seen.errors);
            c.add("texts rendered", k.calls);
            c.max("bytes in a table", t.buf.len() as u64);
            c.sample(|| t.hex());
            Ok(())
        }
        Err(_) => {
            c.panics += 1;
            c.eval(0);
            if c.quiet_panics {
                Ok(())
            } else {
                Err(c.fail(format!("panic: {}", last_panic()), t.hex()))
            }
        }
    }
}

/// Conversions open to any input.
fn conversions(c: &mut Ctx, r: &mut Rng) -> R {
    use std::fmt::Write;
    let n = r.below(9);
    let bytes: Vec<u8> = (0..n).map(|_| r.byte()).collect();
    let m = Exact::new(&bytes, r.below(4));
    let b = m.view();
    c.case(|| format!("conversions from {}", gen::hex(b)));
    let (w, x, q) = (r.next() as u16, r.next() as u32, r.next());
    let lean = c.small;
    let out = catch_unwind(AssertUnwindSafe(|| {
        let mut k = Sink::new();
        let k = &mut k;
        let dev = d::system_slots::Device::from(b);
        let _ = write!(k, "{dev} {dev:?} {:?}", <[u8; 5]>::from(&dev));
        for p in d::system_slots::PeerDevices::from(b).take(100) {
            let _ = write!(k, "{p}");
        }
        let el = d::enclosure::ContainedElement::from(b);
        let _ = write!(k, "{el} {el:?}");
        let _ = write!(k, "{:?}", d::cache::CacheConfiguration::from(w));
        k.n(d::cache::CacheSize::from(w).bytes());
        k.n(d::cache::CacheSize2::from(x).bytes());
        let _ = write!(k, "{}", d::system_slots::SlotPitch::from(w));
        let _ = write!(k, "{}", d::processor::ProcessorFamily::from(w));
        let _ = write!(k, "{}", d::processor::Voltage::from(w as u8));
        let a = d::system_event_log::AccessMethod::new(w as u8, x);
        let _ = write!(k, "{a} {a:#} {}", a.address());
        let s = d::system_event_log::log_record_format::SystemManagementType::from(x);
        let _ = write!(k, "{s} {s:#} {s:?}");
        use d::bitfield::BitField;
        let p = d::system_event_log::log_record_format::PostResults::from(q);
        for f in p.significants() {
            let _ = write!(k, "{f}{f:#}");
        }
        let rom = d::bios::RomSize { basic: w as u8, extended: if q & 1 == 0 { None } else { Some((x >> 3) as u16) } };
        k.n(u64::from(rom));
        let cap = d::portable_battery::DesignCapacity::Data { value: w, multiplier: x as u8 };
        k.n(u64::from(cap));
        let skip = if lean { x as usize % 37 } else { 0 };
        for e in crate::golden::ENUMS.iter().skip(skip).take(if lean { 3 } else { 99 }) {
            std::hint::black_box((e.conv)(x % e.codes));
        }
        use d::TryFromBytes;
        std::hint::black_box((u8::try_from_bytes(b).ok(), u16::try_from_bytes(b).ok(), u32::try_from_bytes(b).ok(), u64::try_from_bytes(b).ok(), u128::try_from_bytes(b).ok()));
    }));
    c.eval(fnv(&[n as u8, w as u8]));
    c.count("conversions");
    if out.is_err() {
        c.panics += 1;
        if !c.quiet_panics {
            let case = format!("bytes {} word {w:#x} dword {x:#x} qword {q:#x}", gen::hex(b));
            return Err(c.fail(format!("panic in a conversion: {}", last_panic()), case));
        }
    }
    Ok(())
}

/// C01 and C02 share the workload: hostile, truncated, odd and sound tables.
/// Every value of words that the library computes with; of every word, at length.
fn sweep(c: &mut Ctx) {
    // type, length, byte that makes the word count, offset of the word
    const WORDS: &[(u8, usize, &[(usize, u8)], usize)] = &[
        (0, 0x1A, &[(0x09, 0xFF)], 0x18),
        (4, 0x30, &[(0x06, 0xFE)], 0x28),
        (4, 0x30, &[], 0x26),
        (4, 0x30, &[], 0x11),
        (7, 0x1B, &[], 0x05),
        (7, 0x1B, &[], 0x07),
        (7, 0x1B, &[], 0x09),
        (7, 0x1B, &[], 0x0B),
        (9, 0x18, &[], 0x16),
        (9, 0x18, &[], 0x0D),
        (9, 0x18, &[], 0x0B),
        (9, 0x18, &[], 0x10),
        (9, 0x18, &[], 0x12),
        (3, 0x18, &[], 0x13),
        (13, 0x16, &[], 0x04),
        (14, 0x0B, &[], 0x06),
        (15, 0x17, &[], 0x15),
        (15, 0x17, &[], 0x0A),
        (15, 0x1B, &[(0x15, 2), (0x16, 2)], 0x17),
        (16, 0x17, &[], 0x04),
        (17, 0x5C, &[], 0x0C),
        (17, 0x5C, &[], 0x0E),
        (17, 0x5C, &[], 0x12),
        (17, 0x5C, &[], 0x29),
        (18, 0x17, &[], 0x04),
        (22, 0x1A, &[], 0x09),
        (22, 0x1A, &[], 0x0A),
        (22, 0x1A, &[], 0x10),
        (22, 0x1A, &[], 0x12),
        (22, 0x1A, &[(0x0A, 0xFF), (0x0B, 0xFF)], 0x15),
    ];
    let all = |c: &mut Ctx, r: &mut Rng, ty: u8, len: usize, set: &[(usize, u8)], at: usize| -> R {
        let mut s = Raw { ty, handle: 1, body: vec![0; len - 4], strings: vec![b"text".to_vec(); 2] };
        for (o, b) in set {
            *s.at(*o).unwrap() = *b;
        }
        let mut t = Table::exact((3, 7), s.bytes());
        for v in 0..=0xFFFFu16 {
            t.buf[at..at + 2].copy_from_slice(&v.to_le_bytes());
            use_all(c, r, &t)?;
        }
        c.count("words with every value");
        Ok(())
    };
    for &(ty, len, set, at) in WORDS {
        c.unit(|c, r| all(c, r, ty, len, set, at));
    }
    if c.thorough {
        for &ty in model::TYPED {
            let len = *gen::lengths(ty).last().unwrap();
            for at in 4..len - 1 {
                c.unit(|c, r| all(c, r, ty, len, &[], at));
            }
        }
    }
}

pub fn hostile(c: &mut Ctx) {
    // every length of every type, at every version: zeros, ones, counting and random bytes
    let vers: &[model::Version] = if c.small { &[(2, 0), (3, 2)] } else { gen::VERSIONS };
    for &ty in model::TYPED.iter().chain(&[32u8, 127, 128, 5]) {
        for &ver in vers {
            c.unit(|c, r| {
                let lens: Vec<usize> = if c.small {
                    let mut v = gen::lengths(ty).to_vec();
                    v.extend(gen::lengths(ty).iter().map(|l| l - 1));
                    v.push(4);
                    v.retain(|l| *l >= 4);
                    v
                } else {
                    (4..=255).collect()
                };
                for len in lens {
                    let n = c.pick3(1, 2, 8);
                    for _ in 0..n {
                        let mut s = Raw { ty, handle: gen::handle(r), body: gen::body(r, len - 4), strings: if r.chance(1, 2) { vec![] } else { gen::strings(r) } };
                        if c.small {
                            s.strings.truncate(3);
                        }
                        if r.chance(1, 2) {
                            gen::reconcile(r, &mut s);
                        }
                        if s.len() > 255 {
                            continue;
                        }
                        let t = Table::exact(ver, s.bytes());
                        use_all(c, r, &t)?;
                        if c.small {
                            continue;
                        }
                        // ending anywhere
                        let mut u = t.clone();
                        u.buf.truncate(r.below(t.buf.len() + 1));
                        if r.chance(1, 2) {
                            u.declared = u.buf.len() as u32;
                        }
                        use_all(c, r, &u)?;
                    }
                }
                Ok(())
            });
        }
    }
    if c.thorough || c.prop == "C02" && !c.small {
        sweep(c);
    }
    for _ in 0..c.pick3(16, 96, 4000) {
        c.unit(|c, r| {
            for _ in 0..c.pick3(4, 600, 1500) {
                let t = if c.small { gen::table(r, 2) } else { gen::any(r) };
                if c.small && t.buf.len() > 700 {
                    continue;
                }
                use_all(c, r, &t)?;
            }
            for _ in 0..c.pick3(2, 150, 400) {
                conversions(c, r)?;
            }
            Ok(())
        });
    }
    if c.small {
        for _ in 0..3 {
            c.unit(|c, r| {
                for _ in 0..3 {
                    let mut t = gen::table(r, 2);
                    gen::damage(r, &mut t);
                    if t.buf.len() <= 700 {
                        use_all(c, r, &t)?;
                    }
                    let e = search_buffer(r);
                    search_only(c, &e)?;
                }
                Ok(())
            });
        }
        return;
    }
    // each prefix of each dump and of small tables
    for _ in 0..c.pick3(0, 16, 200) {
        c.unit(|c, r| {
            let t = gen::table(r, 3);
            for n in 0..=t.buf.len().min(600) {
                let mut u = t.clone();
                u.buf.truncate(n);
                use_all(c, r, &u)?;
                u.declared = n as u32;
                use_all(c, r, &u)?;
            }
            Ok(())
        });
    }
    // entry points in hostile buffers
    for _ in 0..c.pick3(0, 60, 600) {
        c.unit(|c, r| {
            for _ in 0..2000 {
                let e = search_buffer(r);
                search_only(c, &e)?;
            }
            Ok(())
        });
    }
    for v3 in [false, true] {
        c.unit(|c, _| {
            let mut e = if v3 { gen::entry_v3((3, 2), 7, 240 - 24) } else { gen::entry_v2((2, 8), 7, 240 - 31) };
            let at = if v3 { 6 } else { 5 };
            for len in 0..=255u8 {
                e[at] = len;
                for keep in 0..=240 {
                    search_only(c, &e[..keep])?;
                }
            }
            Ok(())
        });
    }
    // as many structures as there can be, on little stack
    if c.prop == "C02" {
        for ty in 0..=255u8 {
            c.unit(|c, r| deep(c, r, ty));
        }
    }
    // many structures, long strings
    for i in 0..c.pick3(0, 6, 24) {
        c.unit(|c, r| {
            let mut buf = Vec::new();
            if i % 2 == 0 {
                while buf.len() < 150_000 {
                    let ty = gen::any_type(r);
                    if ty != 127 && model::kind(ty) != "Other" {
                        gen::structure(r, ty).emit(&mut buf);
                    }
                }
            } else {
                Raw { ty: 11, handle: 0, body: vec![3], strings: vec![vec![b'k'; 66_000]; 3] }.emit(&mut buf);
                Raw { ty: 1, handle: 0, body: vec![1, 2, 3, 0], strings: vec![vec![b'k'; 70_000]; 3] }.emit(&mut buf);
            }
            let mut t = Table::exact((3, 2), buf);
            use_all(c, r, &t)?;
            t.declared = 0xFFFF_FFFF;
            use_all(c, r, &t)
        });
    }
}

/// Tables of 20 000 alike structures, and of one with as many strings, walked on 256 KiB of stack:
/// whatever calls itself for each of them has none left.
fn deep(c: &mut Ctx, r: &mut Rng, ty: u8) -> R {
    const MANY: usize = 20_000;
    let least = *gen::lengths(ty).iter().max().unwrap_or(&4);
    let kinds = [
        Raw { ty, handle: gen::handle(r), body: vec![], strings: vec![] },
        Raw { ty, handle: 0, body: vec![0; least.max(5) - 4], strings: vec![] },
        Raw { ty, handle: 0xFFFF, body: vec![0xFF; least.max(6) - 4], strings: vec![b"x".to_vec()] },
        Raw { ty, handle: 0xFFFE, body: vec![1; least.max(8) - 4], strings: vec![vec![0xFF], b" ".to_vec()] },
    ];
    let mut tables = Vec::new();
    for k in &kinds {
        let one = k.bytes();
        for ver in [(2, 0), (2, 8), (3, 6)] {
            tables.push(Table::exact(ver, one.repeat(MANY)));
        }
    }
    for text in [&b"a"[..], b"\xFF", b" "] {
        let mut s = kinds[1].clone();
        s.strings = vec![text.to_vec(); MANY];
        tables.push(Table::exact((3, 6), s.bytes()));
    }
    for t in tables {
        let what = format!("type {ty}, version {}.{}, {} bytes repeating {}", t.ver.0, t.ver.1, t.buf.len(), gen::hex(&t.buf[..t.buf.len().min(64)]));
        c.case(|| what.clone());
        let work = || {
            let e = t.entry();
            let mut it = e.structures(&t.buf);
            let (mut n, mut text) = (0u64, 0u64);
            while let Some(x) = it.next() {
                match &x {
                    Ok(d::Structure::OemStrings(o)) => text += o.strings.count() as u64,
                    Ok(d::Structure::SystemConfigurationOptions(o)) => text += o.strings.count() as u64,
                    Ok(d::Structure::BiosLanguage(o)) => text += o.installable_languages.clone().count() as u64,
                    Ok(d::Structure::Other(o)) => text += o.find_string(255).is_ok() as u64,
                    _ => {}
                }
                if n < 2 {
                    text += format!("{x:?}").len() as u64;
                }
                n += 1;
            }
            let rest = e.structures(&t.buf).skip(MANY / 2).count();
            (n, text, rest)
        };
        let out = std::thread::scope(|s| match std::thread::Builder::new().stack_size(256 << 10).spawn_scoped(s, work) {
            Ok(h) => Some(h.join()),
            Err(_) => None,
        });
        match out {
            None => {}
            Some(Err(_)) => return Err(c.fail(format!("panic: {}", last_panic()), what)),
            Some(Ok((n, _, _))) => {
                c.eval(fnv(&[9, ty, t.ver.1, (n % 251) as u8]));
                c.add("structures walked on 256 KiB of stack", n);
                c.max("most structures in a table", n);
            }
        }
    }
    Ok(())
}

fn search_buffer(r: &mut Rng) -> Vec<u8> {
    let ver = gen::version(r);
    let mut e = if r.chance(1, 2) { gen::entry_v3(ver, r.next() as u32, 0) } else { gen::entry_v2(ver, r.next() as u16, 0) };
    for _ in 0..r.below(3) {
        let i = r.below(e.len());
        e[i] = r.byte();
    }
    let mut b = vec![r.byte(); 16 * r.below(5)];
    b.extend(e);
    b.extend(vec![r.byte(); r.below(60)]);
    b.truncate(r.below(b.len() + 1).max(b.len().saturating_sub(40)));
    b
}

pub fn search_only(c: &mut Ctx, buf: &[u8]) -> R {
    c.case(|| gen::hex(buf));
    let m = Exact::new(buf, buf.len() % 5);
    let mut k = Sink::new();
    let out = catch_unwind(AssertUnwindSafe(|| {
        if let Some(e) = touch::search(m.view(), &mut k) {
            // the table it points to, in the same memory
            if let Some(rest) = m.view().get(e.smbios_address() as usize..) {
                touch::walk(&e, rest, &mut k);
            }
            touch::walk(&e, m.view(), &mut k);
        }
    }));
    c.eval(fnv(&[7, buf.len() as u8]));
    c.count("searches");
    if out.is_err() {
        c.panics += 1;
        if !c.quiet_panics {
            return Err(c.fail(format!("panic: {}", last_panic()), gen::hex(buf)));
        }
    }
    Ok(())
}

pub fn digest(t: &Table, buf: &[u8]) -> u64 {
    let mut k = Sink::new();
    touch::search(buf, &mut k);
    touch::walk(&t.entry(), buf, &mut k);
    k.h
}

/// An anchor far from the beginning, or many structures and long strings.
fn large(r: &mut Rng, search: bool) -> Table {
    let ver = gen::version(r);
    if search {
        let at = 16 * match r.below(5) {
            0 => r.below(3),
            1 => (1 << r.range(0, 17)) - 1,
            2 => 1 << r.range(0, 17),
            3 => (1 << r.range(0, 17)) + 1,
            _ => r.below(200_000),
        };
        let mut buf = vec![if r.chance(1, 2) { 0 } else { r.byte() }; at];
        let v3 = r.chance(1, 2);
        buf.extend(super::tables::rnd_entry(r, v3, 0));
        let more = if r.chance(1, 2) { 100 } else { 20_000 };
        buf.extend(vec![0; r.below(more)]);
        Table::exact(ver, buf)
    } else {
        let mut buf = Vec::new();
        let many = 1usize << r.range(12, 17);
        while buf.len() < many {
            let ty = gen::any_type(r);
            let mut s = gen::fitting(r, ty, ver);
            if s.ty == 127 {
                continue;
            }
            if r.chance(1, 40) {
                s.strings.push(vec![b'a' + r.below(26) as u8; 1 << r.range(4, 14)]);
            }
            s.emit(&mut buf);
        }
        let mut t = Table::exact(ver, buf);
        t.v3 = true;
        t
    }
}

/// Bytes changed in place between decodings, against the same bytes in memory of their own.
pub fn edited(c: &mut Ctx, r: &mut Rng, t: &Table) -> R {
    if t.buf.is_empty() || t.buf.len() > 4000 {
        return Ok(());
    }
    let mut t = Table { ver: t.ver, v3: t.v3, declared: t.declared, buf: t.buf.clone() };
    let mut place = t.buf.clone();
    let mut seen = Vec::new();
    for _ in 0..c.pick3(3, 8, 12) {
        // nothing else is decoded between two edits
        seen.push((digest(&t, &place), place.clone()));
        let n = place.len();
        let at = if r.chance(1, 2) { r.below(n) } else { n - 1 - r.below(n.min(24)) };
        match r.below(6) {
            // a string set that ends earlier, or later
            0 | 1 => place[at..(at + 2).min(n)].fill(0),
            2 => place[at] = b'x',
            3 => place[at] = r.byte(),
            4 => {
                let to = r.below(n);
                place.swap(at, to);
            }
            // a header there
            _ => {
                let h = [gen::any_type(r), 4 + r.u8() % 20, r.u8(), 0];
                let k = (n - at).min(4);
                place[at..at + k].copy_from_slice(&h[..k]);
            }
        }
    }
    for (here, bytes) in seen {
        let m = Exact::new(&bytes, r.below(8));
        t.buf = bytes;
        c.case(|| format!("edited in place: {}", t.hex()));
        c.eval(here);
        c.count("edited in place");
        if digest(&t, m.view()) != here {
            return Err(c.fail("bytes changed in place give another result than the same bytes elsewhere".into(), t.hex()));
        }
    }
    Ok(())
}

/// A copy of a half-finished iteration goes on as the original does, and neither disturbs the other.
fn copied<I: Iterator + Clone>(c: &mut Ctx, r: &mut Rng, name: &str, it: I, case: &str) -> R
where
    I::Item: std::fmt::Debug,
{
    let drain = |i: I| -> Vec<u64> { i.take(crate::obs::MANY).map(|x| fnv(format!("{x:?}").as_bytes())).collect() };
    let all = drain(it.clone());
    let mut a = it;
    let stop = if all.len() > 40 { r.below(all.len()) } else { usize::MAX };
    for n in 0..=all.len() {
        if n < 12 || n == stop || n + 2 > all.len() {
            let copy = a.clone();
            let b = copy.clone();
            c.eval(0);
            c.count("iterations copied on the way");
            if drain(copy) != all[n..] || drain(b) != all[n..] {
                return Err(c.fail(format!("{name}: a copy made after {n} items goes on differently"), case.into()));
            }
        }
        if a.next().map(|x| fnv(format!("{x:?}").as_bytes())) != all.get(n).copied() {
            return Err(c.fail(format!("{name}: item {n} differs after copies were used"), case.into()));
        }
    }
    Ok(())
}

fn copies(c: &mut Ctx, r: &mut Rng, s: &d::Structure<'_>, case: &str) -> R {
    use d::bitfield::BitField;
    use d::Structure as S;
    fn bits<'b, T: BitField<'b>>(c: &mut Ctx, v: &T, case: &str) -> R {
        let mut seen = [[0u64; 3]; 2];
        // one iteration after the other, and in step
        let go = |f: &mut dyn FnMut(usize, u64)| {
            v.iter().for_each(|x| f(0, fnv(format!("{x:?}").as_bytes())));
            v.significants().for_each(|x| f(1, fnv(format!("{x:?}").as_bytes())));
            v.reserved().for_each(|x| f(2, fnv(format!("{x:?}").as_bytes())));
        };
        go(&mut |n, h| seen[0][n] = seen[0][n].wrapping_mul(31) ^ h);
        let (mut i, mut g, mut e) = (v.iter(), v.significants(), v.reserved());
        for _ in 0..200 {
            if let Some(x) = i.next() {
                seen[1][0] = seen[1][0].wrapping_mul(31) ^ fnv(format!("{x:?}").as_bytes());
            }
            if let Some(x) = g.next() {
                seen[1][1] = seen[1][1].wrapping_mul(31) ^ fnv(format!("{x:?}").as_bytes());
            }
            if let Some(x) = e.next() {
                seen[1][2] = seen[1][2].wrapping_mul(31) ^ fnv(format!("{x:?}").as_bytes());
            }
        }
        c.eval(0);
        c.count("flags iterated in step");
        if seen[0] != seen[1] {
            return Err(c.fail("flags differ when iterated in step".into(), case.into()));
        }
        Ok(())
    }
    match s {
        S::Bios(x) => bits(c, &x.bios_characteristics, case),
        S::Enclosure(x) => match &x.contained_elements {
            Some(e) => copied(c, r, "contained elements", e.clone(), case),
            None => Ok(()),
        },
        S::SystemSlots(x) => {
            bits(c, &x.slot_characteristics_1, case)?;
            match &x.peer_devices {
                Some(e) => copied(c, r, "peer devices", e.clone(), case),
                None => Ok(()),
            }
        }
        S::OemStrings(x) => copied(c, r, "OEM strings", x.strings, case),
        S::SystemConfigurationOptions(x) => copied(c, r, "configuration options", x.strings, case),
        S::BiosLanguage(x) => copied(c, r, "languages", x.installable_languages.clone(), case),
        S::GroupAssociations(x) => copied(c, r, "group items", x.items, case),
        S::SystemEventLog(x) => {
            bits(c, &x.log_status, case)?;
            match &x.supported_event_log_type_descriptors {
                Some(e) => copied(c, r, "descriptors", e.clone(), case),
                None => Ok(()),
            }
        }
        _ => Ok(()),
    }
}

/// One memory searched over and over while what is in it changes.
fn searched(c: &mut Ctx, r: &mut Rng) -> R {
    let n = match r.below(4) {
        0 => 31 + r.below(2),
        1 => 16 * (2 + r.below(6)),
        _ => 24 + r.below(200),
    };
    let mut place = vec![0u8; n];
    let mut seen = Vec::new();
    let run = |b: &[u8]| {
        let mut k = Sink::new();
        touch::search(b, &mut k);
        k.h
    };
    for _ in 0..c.pick3(6, 60, 60) {
        seen.push((run(&place), place.clone()));
        if r.chance(1, 4) {
            // and once more
            seen.push((run(&place), place.clone()));
        }
        match r.below(10) {
            0 => place.fill(0),
            1 => {
                for b in place.iter_mut() {
                    *b = r.byte()
                }
            }
            2..=6 => {
                let e = search_buffer(r);
                let at = 16 * r.below(n / 16 + 1);
                let k = e.len().min(n - at);
                place[at..at + k].copy_from_slice(&e[..k]);
            }
            7 => {
                // a sound one
                let ver = gen::version(r);
                let e = if r.chance(1, 2) { gen::entry_v3(ver, r.next() as u32, 0) } else { gen::entry_v2(ver, r.next() as u16, 0) };
                let at = 16 * r.below(n / 16 + 1);
                let k = e.len().min(n - at);
                place[at..at + k].copy_from_slice(&e[..k]);
            }
            8 => place.rotate_left(16 * r.below(n / 16)),
            _ => {
                let i = r.below(n);
                place[i] = r.byte();
            }
        }
    }
    for (n, (here, bytes)) in seen.into_iter().enumerate() {
        let m = Exact::anywhere(r, &bytes);
        c.eval(here);
        c.count("searched in place");
        if run(m.view()) != here {
            return Err(c.fail("bytes changed in place are searched with another result than the same bytes elsewhere".into(), gen::hex(&bytes)));
        }
        if n % 8 == 0 {
            let t = Table::exact((2, 8), bytes);
            let d = digest(&t, &t.buf);
            fresh::same(c, &t, d)?;
        }
    }
    Ok(())
}

/// C18: the same bytes give the same results: again, later, elsewhere, and from many threads.
pub fn determinism(c: &mut Ctx) {
    if !c.threads_only {
        histories(c);
    }
    threads(c);
}

fn histories(c: &mut Ctx) {
    // histories: tables decoded over and over in any order, in fresh and reused memory
    for _ in 0..c.pick3(2, 100, 1200) {
        c.unit(|c, r| {
            let n = c.pick3(2, 12, 20);
            let tables: Vec<Table> = (0..n)
                .map(|_| {
                    let mut t = gen::any(r);
                    if c.small {
                        t.buf.truncate(300);
                    }
                    t
                })
                .collect();
            let most = tables.iter().map(|t| t.buf.len()).max().unwrap_or(0);
            // in one place, one after the other
            let mut place = vec![0u8; most + 16];
            let mut first: Vec<Option<u64>> = vec![None; n];
            for step in 0..c.pick3(5, 60, 120) {
                let i = r.below(n);
                let t = &tables[i];
                let how = r.below(5);
                if how == 4 {
                    edited(c, r, t)?;
                    continue;
                }
                c.case(|| format!("table {i}: {}", t.hex()));
                let got = match how {
                    0 => digest(t, &t.buf),
                    1 => {
                        let m = Exact::anywhere(r, &t.buf);
                        digest(t, m.view())
                    }
                    2 => {
                        let at = r.below(16);
                        place[at..at + t.buf.len()].copy_from_slice(&t.buf);
                        digest(t, &place[at..at + t.buf.len()])
                    }
                    _ => {
                        // while other iterations are under way
                        let j = r.below(n);
                        let (ea, eb) = (t.entry(), tables[j].entry());
                        let mut other = eb.structures(&tables[j].buf);
                        let (mut k, mut k2) = (Sink::new(), Sink::new());
                        touch::search(&t.buf, &mut k);
                        for item in ea.structures(&t.buf).take(crate::obs::MANY) {
                            if let Some(Ok(s)) = other.next() {
                                touch::structure(&s, &mut k2);
                            }
                            match &item {
                                Ok(s) => touch::structure(s, &mut k),
                                Err(e) => touch::error(e, &mut k),
                            }
                        }
                        k.h
                    }
                };
                c.eval(got);
                c.count(["as is", "in fresh memory", "in reused memory", "interleaved"][how]);
                match first[i] {
                    None => first[i] = Some(got),
                    Some(f) if f != got => {
                        return Err(c.fail(format!("step {step}: the same table gives another result ({how})"), t.hex()));
                    }
                    _ => {}
                }
                // reading leaves the bytes alone
                if how == 2 && !place.windows(t.buf.len().max(1)).any(|w| w == &t.buf[..]) && !t.buf.is_empty() {
                    return Err(c.fail("the buffer was changed".into(), t.hex()));
                }
            }
            c.sample(|| format!("{n} tables, first {}", tables[0].hex()));
            for (t, f) in tables.iter().zip(&first) {
                if let Some(f) = f {
                    fresh::same(c, t, *f)?;
                }
            }
            // for comparison with a process that has decoded nothing before this unit
            let all: Vec<u8> = tables
                .iter()
                .zip(&first)
                .flat_map(|(t, f)| f.unwrap_or_else(|| digest(t, &t.buf)).to_le_bytes())
                .collect();
            let u = c.unit_no();
            c.digests.push((u, fnv(&all)));
            Ok(())
        });
    }
    // iterations inside structures, copied on the way
    for _ in 0..c.pick3(1, 16, 300) {
        c.unit(|c, r| {
            for _ in 0..c.pick3(2, 300, 300) {
                let ver = gen::version(r);
                let s = {
                    let ty = *r.pick(&[0u8, 3, 9, 11, 12, 13, 14, 15]);
                    gen::fitting(r, ty, ver)
                };
                let t = Table::exact(ver, s.bytes());
                let text = t.hex();
                if let Some(Ok(s)) = t.entry().structures(&t.buf).next() {
                    copies(c, r, &s, &text)?;
                }
            }
            Ok(())
        });
    }
    // one memory searched while it changes
    for _ in 0..c.pick3(1, 40, 800) {
        c.unit(|c, r| {
            for _ in 0..c.pick3(1, 20, 20) {
                searched(c, r)?;
            }
            Ok(())
        });
    }
    // large inputs at the borders of pages
    for n in 0..c.pick3(0, 32, 400) {
        c.unit(|c, r| {
            let t = large(r, n % 2 == 0);
            let want = digest(&t, &t.buf);
            for rem in [0, 1, 4095, 4096, 65535, 65536 - t.buf.len() % 65536, r.below(65536), 16 * r.below(4096)] {
                let m = Exact::within(&t.buf, rem);
                c.eval(want);
                c.count("large inputs at the borders of pages");
                if digest(&t, m.view()) != want {
                    return Err(c.fail(format!("other results at address {rem:#x} of a page"), t.hex()));
                }
            }
            Ok(())
        });
    }
    // a table of every version after the others, in any order
    for _ in 0..c.pick3(0, 16, 200) {
        c.unit(|c, r| {
            let t = gen::any(r);
            let mut vers: Vec<(u8, u8)> = (2..4).flat_map(|a| (0..=255).map(move |b| (a, b))).collect();
            vers.extend((0..=255).map(|a| (a, r.byte())));
            for i in (1..vers.len()).rev() {
                vers.swap(i, r.below(i + 1));
            }
            for ver in vers {
                let t = Table { ver, v3: t.v3, declared: t.declared, buf: t.buf.clone() };
                if t.buf.len() > 3000 || ver.0 < 2 {
                    continue;
                }
                let d = digest(&t, &t.buf);
                c.eval(d);
                c.count("versions in any order");
                fresh::same(c, &t, d)?;
            }
            Ok(())
        });
    }
    // a structure does not depend on what was decoded before it
    for _ in 0..c.pick3(1, 40, 400) {
        c.unit(|c, r| {
            for _ in 0..c.pick3(2, 60, 120) {
                let t = gen::any(r);
                if t.buf.len() > 6000 || (c.small && t.buf.len() > 300) {
                    continue;
                }
                c.case(|| t.hex());
                let e = t.entry();
                let all: Vec<u64> = e
                    .structures(&t.buf)
                    .take(2000)
                    .map(|i| {
                        let mut k = Sink::new();
                        match &i {
                            Ok(s) => touch::structure(s, &mut k),
                            Err(e) => touch::error(e, &mut k),
                        }
                        k.h
                    })
                    .collect();
                // resumed from a copy, skipped to, collected first and used in reverse
                let kept: Vec<_> = e.structures(&t.buf).take(2000).collect();
                let text = t.hex();
                for s in kept.iter().flatten().take(20) {
                    copies(c, r, s, &text)?;
                }
                for (n, item) in kept.iter().enumerate().rev() {
                    let mut k = Sink::new();
                    match item {
                        Ok(s) => touch::structure(s, &mut k),
                        Err(e) => touch::error(e, &mut k),
                    }
                    if all.get(n) != Some(&k.h) {
                        return Err(c.fail(format!("structure {n} differs when used later"), t.hex()));
                    }
                    c.eval(0);
                    c.count("structures used later");
                }
                let mut it = e.structures(&t.buf);
                for n in 0..all.len() {
                    let mut copy = it.clone();
                    let (a, b) = (copy.next(), it.next());
                    let skip = if n % 7 == 0 { e.structures(&t.buf).nth(n) } else { None };
                    for x in [a, b].into_iter().chain(if n % 7 == 0 { Some(skip) } else { None }) {
                        let mut k = Sink::new();
                        match &x {
                            Some(Ok(s)) => touch::structure(s, &mut k),
                            Some(Err(e)) => touch::error(e, &mut k),
                            None => {}
                        }
                        if k.h != all[n] {
                            return Err(c.fail(format!("structure {n} differs when resumed or skipped to"), t.hex()));
                        }
                        c.eval(0);
                        c.count("structures resumed or skipped to");
                    }
                }
            }
            Ok(())
        });
    }
}

/// Many threads on the same memory.
fn threads(c: &mut Ctx) {
    for _ in 0..c.pick3(8, if c.threads_only { 64 } else { 24 }, 300) {
        c.unit(|c, r| {
            let n = c.pick3(1, 8, 12);
            let tables: Vec<Table> = (0..n)
                .map(|_| {
                    let mut t = gen::any(r);
                    if c.small {
                        t.buf.truncate(200);
                    }
                    t
                })
                .collect();
            c.case(|| format!("threads on {} tables, first {}", n, tables[0].hex()));
            let want: Vec<u64> = tables.iter().map(|t| digest(t, &t.buf)).collect();
            let threads = c.pick3(2, 4, 8);
            let rounds = c.pick3(1, 6, 12);
            let seeds: Vec<u64> = (0..threads).map(|_| r.next()).collect();
            let bad: Vec<Option<usize>> = std::thread::scope(|s| {
                let hs: Vec<_> = seeds
                    .iter()
                    .map(|seed| {
                        let (tables, want) = (&tables, &want);
                        s.spawn(move || {
                            let mut r = Rng::new(*seed, 1);
                            for _ in 0..rounds {
                                for _ in 0..tables.len() {
                                    let i = r.below(tables.len());
                                    let got = digest(&tables[i], &tables[i].buf);
                                    if got != want[i] {
                                        return Some(i);
                                    }
                                    if r.chance(1, 3) {
                                        std::thread::yield_now();
                                    }
                                }
                            }
                            None
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or(Some(usize::MAX))).collect()
            });
            c.evaluations += (threads * rounds * n) as u64;
            c.add("decodings in concurrent threads", (threads * rounds * n) as u64);
            if let Some(i) = bad.iter().flatten().next() {
                let t = tables.get(*i).map_or(String::new(), |t| t.hex());
                return Err(c.fail("another result in a concurrent thread".into(), t));
            }
            // decoded in one thread, used in another
            let t = &tables[0];
            let e = t.entry();
            let items: Vec<_> = e.structures(&t.buf).take(500).collect();
            let here: Vec<u64> = items.iter().map(item_digest).collect();
            let there: Vec<u64> = std::thread::scope(|s| s.spawn(|| items.iter().map(item_digest).collect()).join().unwrap_or_default());
            c.eval(0);
            c.count("tables handed to another thread");
            if here != there {
                return Err(c.fail("structures handed to another thread differ".into(), t.hex()));
            }
            Ok(())
        });
    }
}

fn item_digest(i: &Result<d::Structure<'_>, d::MalformedStructureError>) -> u64 {
    let mut k = Sink::new();
    match i {
        Ok(s) => touch::structure(s, &mut k),
        Err(e) => touch::error(e, &mut k),
    }
    k.h
}

/// C19: digests to compare between builds, and no allocation in the library.
pub fn configurations(c: &mut Ctx) {
    fn one(c: &mut Ctx, t: &Table, total: &mut Sink) -> R {
        c.case(|| t.hex());
        if let Some(f) = &mut c.record {
            if t.buf.len() <= 4 << 20 {
                let _ = std::io::Write::write_all(f, &t.record());
            }
        }
        let e = t.entry();
        let mut k = Sink::new();
        let before = crate::alloc::count();
        let out = catch_unwind(AssertUnwindSafe(|| touch::table(t, &e, &mut k)));
        let after = crate::alloc::count();
        match out {
            Ok(seen) => {
                if after != before {
                    return Err(c.fail(format!("{} heap allocations while decoding", after - before), t.hex()));
                }
                c.eval(sig(t, &seen));
                c.add("structures digested", seen.ok);
                c.add("errors digested", seen.errors);
                c.add("bytes digested", k.bytes);
                total.n(seen.digest);
                c.sample(|| t.hex());
                record(c, t, seen.digest);
            }
            // the panic itself is C02's business; that it happens everywhere is ours
            Err(_) => {
                total.n(0xDEAD);
                record(c, t, 0xDEAD);
            }
        }
        Ok(())
    }
    fn unit(c: &mut Ctx, f: impl FnOnce(&mut Ctx, &mut Rng, &mut Sink) -> R) {
        c.unit(|c, r| {
            let mut total = Sink::new();
            f(c, r, &mut total)?;
            let u = c.unit_no();
            c.digests.push((u, total.h));
            Ok(())
        });
    }
    c.quiet_panics = true;
    for _ in 0..c.pick3(2, 120, 1500) {
        unit(c, |c, r, total| {
            for _ in 0..c.pick3(2, 300, 500) {
                let t = gen::any(r);
                one(c, &t, total)?;
            }
            Ok(())
        });
    }
    // every type at every interesting length, version by version
    for &ty in model::TYPED {
        for &ver in gen::VERSIONS {
            unit(c, |c, r, total| {
                for &len in gen::lengths(ty) {
                    for _ in 0..c.pick3(1, 30, 200) {
                        let mut s = Raw { ty, handle: gen::handle(r), body: gen::body(r, len - 4), strings: gen::strings(r) };
                        gen::reconcile(r, &mut s);
                        one(c, &Table::exact(ver, s.bytes()), total)?;
                    }
                }
                Ok(())
            });
        }
    }
    // large ones
    for n in 0..c.pick3(0, 48, 300) {
        unit(c, |c, r, total| {
            let t = large(r, n % 3 < 2);
            c.count("large inputs");
            one(c, &t, total)
        });
    }
    // what steered campaigns kept
    let corpus = std::mem::take(&mut c.corpus);
    let mut rest = &corpus[..];
    while !rest.is_empty() {
        let mut some = Vec::new();
        while let Some((t, more)) = Table::recorded(rest) {
            some.push(t);
            rest = more;
            if some.len() == 250 {
                break;
            }
        }
        if some.is_empty() {
            break;
        }
        unit(c, |c, _, total| {
            for t in &some {
                c.count("inputs of steered campaigns");
                one(c, t, total)?;
            }
            Ok(())
        });
    }
}

/// When one unit is rerun: table by table, to find where two builds part.
fn record(c: &mut Ctx, t: &Table, digest: u64) {
    if c.only.is_some() {
        c.cases.push((digest, t.hex()));
    }
}
