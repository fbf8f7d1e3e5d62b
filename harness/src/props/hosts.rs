//! C19, second part: on a host with 32-bit pointers the same bytes mean the same. Small enough for
//! an interpreter; the default build runs the same units against the reference.
use super::tables;
use crate::ctx::{fnv, Ctx, R};
use crate::gen::{self, hex, Raw, Table};
use crate::model::{self, Exp, Stop};
use crate::obs;
use crate::rng::Rng;
use std::fmt::{self, Write};
use dmidecode as d;

/// Digest of everything written to it.
struct Sink {
    h: u64,
}
impl Sink {
    fn new() -> Sink {
        Sink { h: 0xcbf2_9ce4_8422_2325 }
    }
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for b in s.bytes() {
            self.h = (self.h ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
        Ok(())
    }
}

/// Everything in a table against the reference: framing, fields, reports. An interpreter is too
/// slow for the reference: there, what is seen is only digested, for `check` to compare.
fn table(c: &mut Ctx, t: &Table, k: &mut Sink) -> R {
    c.case(|| t.hex());
    let e = t.entry();
    let declared = e.smbios_len();
    if declared != if matches!(e, d::EntryPoint::V2(_)) { t.declared.min(0xFFFF) } else { t.declared } {
        return Err(c.fail(format!("declared length {declared}"), t.hex()));
    }
    let mut seen = String::new();
    for i in e.structures(&t.buf) {
        let _ = match &i {
            Ok(s) => write!(seen, "{:?};", obs::structure(s)),
            Err(e) => write!(seen, "{:?};", obs::err(e)),
        };
        c.count("items digested");
    }
    let _ = k.write_str(&seen);
    c.eval(k.h);
    if c.only.is_some() {
        c.cases.push((fnv(seen.as_bytes()), format!("{} seen {seen}", t.hex())));
    }
    if cfg!(miri) {
        return Ok(());
    }
    let (frames, stop) = model::walk(t.ver, declared, &t.buf);
    let mut it = e.structures(&t.buf);
    for f in &frames {
        let at = format!("type {} at offset {}", f.ty, f.at);
        let Some(item) = it.next() else {
            return Err(c.fail(format!("{at} was not returned"), t.hex()));
        };
        let got = match &item {
            Ok(s) => Ok(obs::structure(s)),
            Err(e) => Err(obs::err(e)),
        };
        let (bytes, set) = (&t.buf[f.at..f.strings], &t.buf[f.strings..f.end]);
        match (model::decode(t.ver, bytes, set), &got) {
            (Exp::Ok(w), Ok(g)) => {
                if w != *g {
                    let m = super::decode::diff(g, &w);
                    return Err(c.fail(format!("{at}: {m}"), t.hex()));
                }
                c.count(g.kind);
                c.add("fields compared with the reference", g.fields.len() as u64);
            }
            (Exp::Err(_), Err(_)) => c.count("refused, as expected"),
            (Exp::Ok(w), Err(g)) => return Err(c.fail(format!("{at}: {} expected, refused with {g:?}", w.kind), t.hex())),
            (Exp::Err(w), Ok(g)) => return Err(c.fail(format!("{at}: {} decoded, should be refused with one of {w:?}", g.kind), t.hex())),
        }
        c.eval(super::decode::signature(t.ver, bytes, &got));
    }
    let more = it.next().is_some();
    if more != (stop != Stop::Done) {
        return Err(c.fail(format!("after {} structures: {more}, expected {stop:?}", frames.len()), t.hex()));
    }
    c.sample(|| t.hex());
    Ok(())
}

/// Where an entry point is, and what it holds.
fn search(c: &mut Ctx, buf: &[u8], k: &mut Sink) -> R {
    let seen = format!("{:?};", d::EntryPoint::search(buf));
    let _ = k.write_str(&seen);
    c.eval(k.h);
    c.count("searches digested");
    if c.only.is_some() {
        c.cases.push((fnv(seen.as_bytes()), format!("{} seen {seen}", hex(buf))));
    }
    if cfg!(miri) {
        return Ok(());
    }
    tables::search_one(c, buf)
}

/// Raw reads of every width at every offset of a structure.
fn raw(c: &mut Ctx, r: &mut Rng) -> R {
    let len = *r.pick(&[4usize, 5, 11, 20, 28]);
    let s = Raw { ty: *r.pick(&[5u8, 32, 43, 128, 200]), handle: gen::handle(r), body: (4..len).map(|_| r.u8()).collect(), strings: vec![] };
    let t = Table::exact(gen::version(r), s.bytes());
    c.case(|| t.hex());
    let Some(Ok(d::Structure::Other(x))) = t.entry().structures(&t.buf).next() else {
        return Err(c.fail("the structure is not returned as it is".into(), t.hex()));
    };
    if x.handle != s.handle || x.length as usize != len {
        return Err(c.fail(format!("raw structure: {x:?}"), t.hex()));
    }
    let f = &t.buf[..len];
    for off in (0..=len + 2).chain([usize::MAX, usize::MAX - 3, usize::MAX / 2, 1 << 31, (1 << 31) + 4]) {
        let part = |n: usize| if off < 4 { None } else { f.get(off..off.checked_add(n)?) };
        let num = |n: usize| part(n).map(|b| b.iter().rev().fold(0u128, |a, x| a << 8 | *x as u128));
        let got = [
            x.get::<u8>(off).ok().map(u128::from),
            x.get::<u16>(off).ok().map(u128::from),
            x.get::<u32>(off).ok().map(u128::from),
            x.get::<u64>(off).ok().map(u128::from),
            x.get::<u128>(off).ok(),
        ];
        let want = [1, 2, 4, 8, 16].map(num);
        if got != want {
            return Err(c.fail(format!("reads at {off:#x}: got {got:x?}, expected {want:x?}"), t.hex()));
        }
        for n in [0, 1, 3, len, usize::MAX, usize::MAX - 3] {
            if x.get_slice(off, n) != part(n) {
                return Err(c.fail(format!("slice {off:#x}+{n:#x}"), t.hex()));
            }
        }
        c.count("raw offsets read");
        c.eval(fnv(&[9, len as u8, off as u8]));
    }
    Ok(())
}

/// Quantities computed from raw values, where the width of a machine word could show.
fn quantities(c: &mut Ctx, r: &mut Rng, k: &mut Sink) {
    for _ in 0..6 {
        let (a, b) = (r.next(), r.next());
        let _ = write!(
            k,
            "{:?} {:?} {:?} {:?} {:?} {:?} {};",
            d::cache::CacheSize::from(a as u16),
            u64::from(d::bios::RomSize { basic: a as u8, extended: Some(b as u16) }),
            u64::from(d::bios::RomSize { basic: 0xFF, extended: Some(b as u16) }),
            d::processor::Voltage::from(a as u8),
            d::system_slots::SlotPitch::from(b as u16),
            d::SmbiosVersion::from((a as u32 as usize, b as u32 as usize)),
            d::system_slots::SlotPitch::from(a as u16),
        );
        c.count("quantities digested");
    }
}

pub fn hosts(c: &mut Ctx) {
    fn unit(c: &mut Ctx, f: impl FnOnce(&mut Ctx, &mut Rng, &mut Sink) -> R) {
        c.unit(|c, r| {
            let mut k = Sink::new();
            f(c, r, &mut k)?;
            let u = c.unit_no();
            c.digests.push((u, k.h));
            Ok(())
        });
    }
    // every type, in the layouts of old and new versions
    for &ty in model::TYPED {
        for n in 0..c.pick3(4, 60, 60) {
            unit(c, |c, r, k| {
                for _ in 0..c.pick3(8, 40, 400) {
                    let ver = if n == 0 { (3, 2) } else { gen::version(r) };
                    let mut buf = Vec::new();
                    let s = if r.chance(3, 4) { gen::fitting(r, ty, ver) } else { gen::structure(r, ty) };
                    if s.len() > 255 {
                        continue;
                    }
                    s.emit(&mut buf);
                    table(c, &Table::exact(ver, buf), k)?;
                }
                Ok(())
            });
        }
    }
    for v3 in [false, true] {
        for _ in 0..c.pick3(8, 60, 400) {
            unit(c, |c, r, k| {
                for _ in 0..c.pick3(12, 60, 200) {
                    let mut buf: Vec<u8> = (0..16 * r.below(4)).map(|_| r.u8()).collect();
                    let extra = *r.pick(&[0usize, 1, 9]);
                    buf.extend(tables::rnd_entry(r, v3, extra));
                    if r.chance(1, 4) {
                        let at = r.below(buf.len());
                        buf[at] = r.u8();
                    }
                    search(c, &buf, k)?;
                }
                quantities(c, r, k);
                Ok(())
            });
        }
    }
    for _ in 0..c.pick3(12, 60, 400) {
        unit(c, |c, r, k| {
            for _ in 0..c.pick3(4, 40, 100) {
                let mut t = gen::table(r, 3);
                if r.chance(1, 2) {
                    gen::damage(r, &mut t);
                }
                if c.small && t.buf.len() > 600 {
                    continue;
                }
                table(c, &t, k)?;
            }
            raw(c, r)
        });
    }
}
