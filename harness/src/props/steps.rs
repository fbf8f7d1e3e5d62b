//! C03: every operation ends, after work in proportion to the bytes it was given, and an iterator
//! that has ended stays ended.
//!
//! Work is counted in executed control-flow edges of the library and of the code generated for it
//! (sancov instrumentation, feature `steps`), not in seconds. An operation that runs out of fuel
//! ends the process with FUEL-EXHAUSTED, which the driver reports with the case under way.
use dmidecode as d;

use crate::ctx::{fnv, Ctx, R};
use crate::gen::{self, Raw, Table};
use crate::model;
use crate::rng::Rng;
use crate::touch::{self, Sink};

#[cfg(feature = "steps")]
mod counter {
    use std::sync::atomic::{AtomicU64, AtomicU8, Ordering::Relaxed};

    #[no_mangle]
    static MON_STEPS: AtomicU64 = AtomicU64::new(0);
    #[no_mangle]
    static MON_FUEL: AtomicU64 = AtomicU64::new(u64::MAX);
    #[no_mangle]
    static MON_NEXT: AtomicU64 = AtomicU64::new(1);
    pub const MAP: usize = 1 << 18;
    #[no_mangle]
    static MON_EDGES: [AtomicU8; MAP] = [const { AtomicU8::new(0) }; MAP];

    // in assembly, so that the counter does not count itself
    std::arch::global_asm!(
        ".globl __sanitizer_cov_trace_pc_guard_init",
        "__sanitizer_cov_trace_pc_guard_init:",
        "mov rax, qword ptr [rip + MON_NEXT]",
        "2: cmp rdi, rsi",
        "jae 3f",
        "cmp dword ptr [rdi], 0",
        "jne 3f",
        "mov dword ptr [rdi], eax",
        "inc rax",
        "add rdi, 4",
        "jmp 2b",
        "3: mov qword ptr [rip + MON_NEXT], rax",
        "ret",
        ".globl __sanitizer_cov_trace_pc_guard",
        "__sanitizer_cov_trace_pc_guard:",
        "mov rax, qword ptr [rip + MON_STEPS]",
        "inc rax",
        "mov qword ptr [rip + MON_STEPS], rax",
        "mov ecx, dword ptr [rdi]",
        "and ecx, 0x3ffff",
        "lea rdx, [rip + MON_EDGES]",
        "mov byte ptr [rdx + rcx], 1",
        "cmp rax, qword ptr [rip + MON_FUEL]",
        "jae 4f",
        "ret",
        "4: jmp {out}",
        out = sym out_of_fuel,
    );

    extern "C" fn out_of_fuel() -> ! {
        let n = MON_STEPS.load(Relaxed);
        MON_FUEL.store(u64::MAX, Relaxed);
        eprintln!("FUEL-EXHAUSTED: still running after {n} steps");
        std::process::abort()
    }

    pub fn start(fuel: u64) {
        MON_STEPS.store(0, Relaxed);
        MON_FUEL.store(fuel, Relaxed);
    }
    pub fn stop() -> u64 {
        MON_FUEL.store(u64::MAX, Relaxed);
        MON_STEPS.load(Relaxed)
    }
    pub fn edges() -> (u64, u64) {
        (MON_EDGES.iter().filter(|e| e.load(Relaxed) != 0).count() as u64, MON_NEXT.load(Relaxed) - 1)
    }
}

#[cfg(not(feature = "steps"))]
mod counter {
    pub fn start(_: u64) {}
    pub fn stop() -> u64 {
        0
    }
    pub fn edges() -> (u64, u64) {
        (0, 0)
    }
}

/// Steps allowed: some, and some for each byte. About ten times what the library needs.
struct Bound {
    name: &'static str,
    fixed: u64,
    per_byte: u64,
}
const SEARCH: Bound = Bound { name: "search", fixed: 2_000, per_byte: 12 };
const WALK: Bound = Bound { name: "walk", fixed: 8_000, per_byte: 100 };
const USE: Bound = Bound { name: "use", fixed: 2_000_000, per_byte: 100_000 };

/// Runs `f` under its bound; past ten times the bound the process ends.
fn metered<T>(c: &mut Ctx, b: &Bound, bytes: usize, case: &dyn Fn() -> String, f: impl FnOnce() -> T) -> Result<T, crate::ctx::Stop> {
    let limit = b.fixed + b.per_byte * bytes as u64;
    counter::start(limit * 10);
    let out = f();
    let n = counter::stop();
    c.add("steps metered", n);
    c.count(b.name);
    // how close to the bound, in thousandths
    c.max(b.name, n * 1000 / limit);
    if n > limit {
        return Err(c.fail(format!("{}: {n} steps for {bytes} bytes", b.name), case()));
    }
    Ok(out)
}

/// An iterator gives at most `most` items, says so in its size hint, and then stays ended.
fn ends<I: Iterator + Clone>(c: &mut Ctx, what: &str, it: I, most: usize, stays: bool, t: &Table) -> R {
    let (lo, hi) = it.size_hint();
    let mut it2 = it.clone();
    let mut n = 0;
    for _ in it {
        n += 1;
        if n > most {
            return Err(c.fail(format!("{what}: more than {most} items"), t.hex()));
        }
    }
    if lo > n || hi.map_or(false, |h| h < n) {
        return Err(c.fail(format!("{what}: {n} items, though the size hint is {lo}..{hi:?}"), t.hex()));
    }
    // past the end, many times over
    let mut seen = 0;
    let mut over = false;
    for _ in 0..most + 4 {
        match it2.next() {
            Some(_) if over && stays => return Err(c.fail(format!("{what}: goes on after its end"), t.hex())),
            Some(_) => seen += 1,
            None => over = true,
        }
    }
    if !over || seen > most || (stays && seen != n) {
        return Err(c.fail(format!("{what}: {seen} items one by one, {n} in a loop"), t.hex()));
    }
    c.eval(fnv(what.as_bytes()) ^ n as u64);
    c.count("iterators drained");
    c.add("items drained", n as u64);
    Ok(())
}

fn bits<'b, T: d::bitfield::BitField<'b>>(c: &mut Ctx, what: &str, v: &T, t: &Table) -> R {
    // 128 bits is the widest there is
    let mut n = 0;
    for _ in v.iter() {
        n += 1;
        if n > 128 {
            return Err(c.fail(format!("{what}: more bits than any field has"), t.hex()));
        }
    }
    let (mut s, mut r) = (v.significants(), v.reserved());
    for _ in 0..200 {
        s.next();
        r.next();
    }
    if s.next().is_some() || r.next().is_some() {
        return Err(c.fail(format!("{what}: flags go on and on"), t.hex()));
    }
    c.eval(fnv(what.as_bytes()) ^ n);
    c.count("bit fields drained");
    Ok(())
}

fn inside(c: &mut Ctx, s: &d::Structure<'_>, f: &model::Frame, t: &Table) -> R {
    use d::Structure as S;
    let data = &t.buf[f.at..f.end];
    let len = data[1] as usize;
    let set = &data[len..];
    let text = model::string_ranges(set).iter().all(|(a, b)| std::str::from_utf8(&set[*a..*b]).is_ok());
    match s {
        S::Enclosure(x) => {
            if let Some(e) = &x.contained_elements {
                ends(c, "contained elements", e.clone(), 256, true, t)?;
            }
        }
        S::SystemSlots(x) => {
            if let Some(p) = &x.peer_devices {
                ends(c, "peer devices", p.clone(), 256, true, t)?;
            }
            bits(c, "slot characteristics", &x.slot_characteristics_1, t)?;
        }
        S::OemStrings(x) => ends(c, "OEM strings", x.strings, set.len(), text, t)?,
        S::SystemConfigurationOptions(x) => ends(c, "configuration options", x.strings, set.len(), text, t)?,
        S::BiosLanguage(x) => ends(c, "languages", x.installable_languages.clone(), set.len(), text, t)?,
        S::GroupAssociations(x) => ends(c, "group items", x.items, len, true, t)?,
        S::SystemEventLog(x) => {
            if let Some(p) = &x.supported_event_log_type_descriptors {
                ends(c, "descriptors", p.clone(), 256, true, t)?;
            }
            bits(c, "log status", &x.log_status, t)?;
        }
        S::Bios(x) => bits(c, "BIOS characteristics", &x.bios_characteristics, t)?,
        _ => {}
    }
    Ok(())
}

fn one(c: &mut Ctx, t: &Table) -> R {
    c.case(|| t.hex());
    let n = t.buf.len();
    let case = || t.hex();
    metered(c, &SEARCH, n, &case, || std::hint::black_box(d::EntryPoint::search(&t.buf).is_ok()))?;
    let e = t.entry();
    // a structure is a header and a terminator at least; one error may end the walk
    let most = n / 6 + 2;
    let (items, over) = metered(c, &WALK, n, &case, || {
        let mut it = e.structures(&t.buf);
        let mut k = 0;
        for i in &mut it {
            std::hint::black_box(&i);
            k += 1;
            if k > most {
                return (k, false);
            }
        }
        (k, (0..5).all(|_| it.next().is_none()))
    })?;
    c.eval(fnv(&[n as u8, (n >> 8) as u8, items as u8]));
    c.add("items walked", items as u64);
    if items > most {
        return Err(c.fail(format!("more than {most} items in a table of {n} bytes"), t.hex()));
    }
    if !over {
        return Err(c.fail("the walk goes on after its end".into(), t.hex()));
    }
    ends(c, "structures", e.structures(&t.buf), most, true, t)?;
    if n < 40_000 || c.thorough {
        metered(c, &USE, n, &case, || {
            let mut k = Sink::new();
            touch::walk(&e, &t.buf, &mut k);
            std::hint::black_box(k.h)
        })?;
    }
    let (frames, _) = model::walk(t.ver, t.declared, &t.buf);
    for (item, f) in e.structures(&t.buf).zip(&frames) {
        if let Ok(s) = item {
            inside(c, &s, f, t)?;
        }
    }
    c.sample(|| t.hex());
    Ok(())
}

fn big(r: &mut Rng, how: usize, size: usize) -> Table {
    let mut buf = Vec::new();
    let mut declared = None;
    match how {
        0 => {
            // the smallest structures
            while buf.len() < size {
                Raw { ty: 126, handle: 0, body: vec![], strings: vec![] }.emit(&mut buf);
            }
        }
        1 => {
            while buf.len() < size {
                let ty = *r.pick(model::TYPED);
                gen::structure(r, ty).emit(&mut buf);
            }
        }
        2 => {
            // one endless string set
            Raw { ty: 1, handle: 0, body: gen::body(r, 23), strings: vec![] }.emit(&mut buf);
            buf.pop();
            buf.pop();
            buf.resize(size, b'x');
        }
        3 => {
            // a structure of many short strings, all of its string numbers past the end
            Raw { ty: 17, handle: 0, body: vec![0xFF; 0x58], strings: vec![vec![b'y']; size / 2] }.emit(&mut buf);
        }
        4 => {
            let ty = *r.pick(&[11u8, 12, 13]);
            Raw { ty, handle: 0, body: vec![0xFF; 18], strings: vec![vec![b'z']; size / 2] }.emit(&mut buf);
        }
        5 => {
            // anchors that lead nowhere
            while buf.len() < size {
                let e = if r.chance(1, 2) { gen::entry_v3((3, 0), 9, 0) } else { gen::entry_v2((2, 8), 9, 0) };
                let k = r.range(1, 31).min(e.len());
                buf.extend_from_slice(&e[..k]);
                while buf.len() % 16 != 0 {
                    buf.push(0);
                }
            }
        }
        10..=13 => {
            // next to anchors: prefixes, other letters, other places, nothing of the rest
            let near: &[&[u8]] = &[b"_SM", b"_SM3", b"_SM3-", b"_SN_", b"_DMI_", b"_sm_", b"_", b"_S", b"SM_", b"SM3_"];
            let k = r.below(near.len());
            while buf.len() < size {
                let at = buf.len();
                let n = near[match how {
                    10 => k,
                    11 => r.below(near.len()),
                    12 => r.below(2),
                    _ => 4,
                }];
                buf.extend_from_slice(n);
                while buf.len() < at + 16 {
                    buf.push(match how {
                        10 => 0,
                        11 => r.byte(),
                        _ => b'x',
                    });
                }
                if how == 11 && buf[at..at + 4] == *b"_SM_" {
                    buf[at + 3] = b'-';
                }
            }
            if how == 13 {
                // whole anchors, never where they count
                for i in (0..buf.len().saturating_sub(8)).step_by(16) {
                    buf[i + 3..i + 8].copy_from_slice(if r.chance(1, 2) { b"_SM3_" } else { b"_SM__" });
                }
            }
        }
        6 => {
            buf.resize(size, 0);
            declared = Some(0xFFFF_FFFF);
        }
        7 => {
            // structures that are too short to be any
            while buf.len() < size {
                buf.extend([r.byte(), r.below(5) as u8, 0, 0, 0, 0]);
            }
        }
        8 => {
            // headers only, never a terminator
            while buf.len() < size {
                buf.extend([1, 4, 1, 1]);
            }
        }
        _ => {
            // one long string, which every field names
            Raw { ty: 4, handle: 0, body: vec![1; 0x2C], strings: vec![vec![b'l'; size]] }.emit(&mut buf);
        }
    }
    let ver = *r.pick(&[(2, 8), (3, 2)]);
    let mut t = Table::exact(ver, buf);
    if let Some(d) = declared {
        t.declared = d;
        t.v3 = true;
    }
    t
}

pub fn bounded(c: &mut Ctx) {
    // every type, length and count there is room for
    for &ty in model::TYPED.iter().chain(&[32u8, 127, 200]) {
        for &ver in &[(2u8, 0u8), (2, 1), (2, 8), (3, 4)] {
            c.unit(|c, r| {
                for len in 0..=255usize {
                    for _ in 0..c.pick3(1, 2, 12) {
                        let mut s = Raw { ty, handle: gen::handle(r), body: gen::body(r, len.max(4) - 4), strings: gen::strings(r) };
                        if r.chance(1, 2) {
                            gen::reconcile(r, &mut s);
                        }
                        let mut b = s.bytes();
                        if len < 4 {
                            b[1] = len as u8;
                        }
                        gen::structure(r, ty).emit(&mut b);
                        one(c, &Table::exact(ver, b))?;
                    }
                }
                Ok(())
            });
        }
    }
    // zero sizes and counts, where a step can be none
    for i in 0..=255u8 {
        c.unit(|c, r| {
            for k in [0u8, 1, 2, 3, 5, 127, 128, 255] {
                for (ty, len, a, b) in [(3u8, 0x40usize, 0x13usize, 0x14usize), (15, 0x40, 0x15, 0x16), (9, 0x40, 0x12, 0x13), (14, 0x40, 5, 6), (13, 0x16, 4, 5), (2, 0x30, 0x0D, 0x0E)] {
                    for (x, y) in [(i, k), (k, i)] {
                        let mut s = Raw { ty, handle: 1, body: gen::body(r, len - 4), strings: gen::strings(r) };
                        s.body[a - 4] = x;
                        s.body[b - 4] = y;
                        let ver = *r.pick(&[(2, 1), (2, 8), (3, 4)]);
                        one(c, &Table::exact(ver, s.bytes()))?;
                    }
                }
            }
            Ok(())
        });
    }
    // damaged and odd tables
    for _ in 0..c.pick3(2, 160, 2400) {
        c.unit(|c, r| {
            for _ in 0..c.pick3(3, 250, 500) {
                let mut t = gen::any(r);
                if r.chance(1, 3) {
                    gen::damage(r, &mut t);
                }
                one(c, &t)?;
            }
            Ok(())
        });
    }
    // size by size, for the growth of the work
    for how in 0..14 {
        for size in [1usize << 8, 1 << 11, 1 << 14, 1 << 17] {
            for _ in 0..c.pick3(0, 1, 4) {
                c.unit(|c, r| {
                    let size = size + r.below(size / 4);
                    let t = big(r, how, size);
                    c.count("growth tables");
                    one(c, &t)
                });
            }
        }
    }
    let (hit, all) = counter::edges();
    c.max("edges executed", hit);
    c.max("edges instrumented", all);
}
