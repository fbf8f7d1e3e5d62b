//! Tables as a whole: framing (C04), entry points (C05), strings (C06), locality (C07), repeated
//! groups (C17), error reports (C20), raw access (C21).
use crate::ctx::{fnv, Ctx, R};
use crate::gen::{self, hex, Raw, Table};
use crate::model::{self, Exp, Search, Stop, Version};
use crate::obs::{self, ErrObs, Obs, Val};
use crate::rng::Rng;
use dmidecode as d;

/// Declared length as the library's entry point has it.
pub fn declared(t: &Table, e: &d::EntryPoint) -> u32 {
    match e {
        d::EntryPoint::V2(_) => t.declared.min(0xFFFF),
        d::EntryPoint::V3(_) => t.declared,
    }
}

pub fn framing_one(c: &mut Ctx, t: &Table) -> R {
    c.case(|| t.hex());
    let e = t.entry();
    let (frames, stop) = model::walk(t.ver, declared(t, &e), &t.buf);
    let mut it = e.structures(&t.buf);
    let mut shape = vec![t.ver.0, (stop == Stop::Done) as u8];
    for (n, f) in frames.iter().enumerate() {
        let at = format!("structure {n} (type {} at offset {})", f.ty, f.at);
        let Some(item) = it.next() else {
            return Err(c.fail(format!("{at} was not returned"), t.hex()));
        };
        if n < 12 {
            shape.push(f.ty);
        }
        match item {
            Ok(s) => {
                let o = obs::structure(&s);
                if o.kind != model::kind(f.ty) || o.handle != f.handle {
                    let m = format!("{at}: got {} {:#06x}, expected {} {:#06x}", o.kind, o.handle, model::kind(f.ty), f.handle);
                    return Err(c.fail(m, t.hex()));
                }
                if let d::Structure::Other(raw) = &s {
                    if raw.length != f.len || raw.data != &t.buf[f.at + 4..f.strings] {
                        return Err(c.fail(format!("{at}: formatted area is not the structure's own"), t.hex()));
                    }
                    if raw.info != d::InfoType::from(f.ty) || (raw.version.major, raw.version.minor) != t.ver {
                        return Err(c.fail(format!("{at}: type or version is not the structure's own"), t.hex()));
                    }
                    for (i, (a, b)) in model::string_ranges(&t.buf[f.strings..f.end]).iter().enumerate() {
                        let own = &t.buf[f.strings + a..f.strings + b];
                        match raw.find_string((i + 1).min(255) as u8) {
                            Ok(x) if i < 255 && x.as_bytes() != own => {
                                return Err(c.fail(format!("{at}: string {} is not the structure's own", i + 1), t.hex()));
                            }
                            Err(_) if i < 255 && std::str::from_utf8(own).is_ok() => {
                                return Err(c.fail(format!("{at}: string {} is missing", i + 1), t.hex()));
                            }
                            _ => {}
                        }
                        if i > 3 {
                            break;
                        }
                    }
                    c.count("raw structures");
                }
                c.count("structures decoded");
            }
            Err(err) => {
                let o = obs::err(&err);
                let about = match &o {
                    ErrObs::BadSize(..) | ErrObs::Unterminated(_) => false,
                    ErrObs::Str(ty, h, _) | ErrObs::Len(ty, h, _, _) => *ty == model::info_name(f.ty) && *h == f.handle,
                    ErrObs::Slice => true,
                };
                if !about {
                    return Err(c.fail(format!("{at}: got {o:?}"), t.hex()));
                }
                c.count("structures refused");
            }
        }
    }
    let rest: Vec<ErrObs> = match it.next() {
        None => vec![],
        Some(Ok(s)) => {
            let m = format!("a further structure after {} of them: {:?}", frames.len(), obs::structure(&s));
            return Err(c.fail(m, t.hex()));
        }
        Some(Err(e)) => vec![obs::err(&e)],
    };
    let want = match stop {
        Stop::Done => vec![],
        Stop::BadSize(o, l) => vec![ErrObs::BadSize(o, l)],
        Stop::Unterminated(o) => vec![ErrObs::Unterminated(o)],
    };
    shape.push(want.len() as u8);
    c.eval(fnv(&shape));
    c.count(match stop {
        Stop::Done => "ended at the end",
        Stop::BadSize(..) => "ended by a structure that does not fit",
        Stop::Unterminated(_) => "ended by unterminated strings",
    });
    // which report it is, is C20's business
    if rest.len() != want.len() {
        return Err(c.fail(format!("after {} structures: got {rest:?}, expected {want:?}", frames.len()), t.hex()));
    }
    for _ in 0..3 {
        if let Some(x) = it.next() {
            let m = format!("an item after the end: {:?}", x.map(|s| obs::structure(&s).kind).map_err(|e| obs::err(&e)));
            return Err(c.fail(m, t.hex()));
        }
    }
    // stepping in other ways gives the same items
    let key = fnv(&t.buf) ^ t.declared as u64;
    if frames.len() < 60 && (key % 4 == 0 || c.small) {
        type Seen = Result<(&'static str, u16), ErrObs>;
        let see = |i: Result<d::Structure<'_>, d::MalformedStructureError>| -> Seen {
            i.map(|s| {
                let o = obs::structure(&s);
                (o.kind, o.handle)
            })
            .map_err(|e| obs::err(&e))
        };
        let all: Vec<Seen> = e.structures(&t.buf).map(see).collect();
        let mut r = Rng::new(key, 77);
        match super::script::run(&mut r, e.structures(&t.buf), &all, see) {
            Ok(n) => c.add("steps of scripts", n),
            Err(m) => return Err(c.fail(format!("the walk: {m}"), t.hex())),
        }
    }
    c.max("structures in a table", frames.len() as u64);
    c.max("bytes in a table", t.buf.len() as u64);
    c.sample(|| t.hex());
    Ok(())
}

/// C04: the structures are the ones in the buffer, all of them, in order, and then it ends.
pub fn framing(c: &mut Ctx) {

    // every table of up to 8 bytes over the values that steer the walk
    let abc: &[u8] = &[0, 1, 4, 5, 127];
    let most = c.pick3(4, 8, 9);
    for len in 0..=most {
        let total = abc.len().pow(len as u32);
        let step = 4096;
        let mut from = 0;
        while from < total {
            let to = (from + step).min(total);
            c.unit(|c, _| {
                for code in from..to {
                    let mut buf = Vec::with_capacity(len);
                    let mut x = code;
                    for _ in 0..len {
                        buf.push(abc[x % abc.len()]);
                        x /= abc.len();
                    }
                    for ver in [(2u8, 8u8), (3, 0)] {
                        for dec in [len as u32, 0xFFFF_FFFF, len.saturating_sub(1) as u32] {
                            framing_one(c, &Table { v3: ver.0 == 3, ver, declared: dec, buf: buf.clone() })?;
                        }
                    }
                }
                Ok(())
            });
            from = to;
        }
    }
    // every prefix and every declared length of small tables
    for _ in 0..c.pick3(2, 60, 600) {
        c.unit(|c, r| {
            let full = gen::table(r, 5);
            if full.buf.len() > 400 {
                return Ok(());
            }
            for n in 0..=full.buf.len() {
                let mut t = full.clone();
                t.buf.truncate(n);
                framing_one(c, &t)?;
                let mut t = full.clone();
                t.declared = n as u32;
                framing_one(c, &t)?;
                t.declared += 1;
                t.v3 = !t.v3;
                framing_one(c, &t)?;
            }
            Ok(())
        });
    }
    for _ in 0..c.pick3(2, 160, 2000) {
        c.unit(|c, r| {
            for _ in 0..c.pick3(5, 1500, 3000) {
                let t = gen::any(r);
                framing_one(c, &t)?;
            }
            Ok(())
        });
    }
    if c.small {
        return;
    }
    // every structure type with every header length, in a row with others
    for ty in 0..=255u8 {
        c.unit(|c, r| {
            for len in 0..=255u8 {
                let mut buf = Vec::new();
                gen::structure(r, 128).emit(&mut buf);
                let at = buf.len();
                let body = gen::body(r, (len as usize).max(4) - 4);
                let strings = if r.chance(1, 2) { vec![b"x".to_vec()] } else { vec![] };
                Raw { ty, handle: gen::handle(r), body, strings }.emit(&mut buf);
                buf[at + 1] = len;
                gen::structure(r, 129).emit(&mut buf);
                framing_one(c, &Table::exact(gen::version(r), buf))?;
            }
            Ok(())
        });
    }
    // large tables: many structures, long strings, more than 16 bits of everything
    for i in 0..c.pick3(0, 12, 60) {
        c.unit(|c, r| {
            let mut buf = Vec::new();
            match i % 4 {
                0 => {
                    while buf.len() < 420_000 {
                        Raw { ty: 128 + (buf.len() % 100) as u8, handle: gen::handle(r), body: vec![], strings: vec![] }.emit(&mut buf);
                    }
                }
                1 => {
                    let strings = vec![vec![b'z'; 70_000 + r.below(100)], b"after".to_vec()];
                    Raw { ty: 1, handle: 1, body: vec![2, 1, 2, 0], strings }.emit(&mut buf);
                    gen::structure(r, 17).emit(&mut buf);
                }
                2 => {
                    while buf.len() < 200_000 {
                        let ty = gen::any_type(r);
                        if ty != 127 {
                            gen::structure(r, ty).emit(&mut buf);
                        }
                    }
                }
                _ => {
                    // the last structure ends just around 65535 and 65536
                    while buf.len() < 65_200 {
                        gen::structure(r, 130).emit(&mut buf);
                        if buf.len() > 65_530 {
                            buf.clear();
                        }
                    }
                    let rest = 65_536 + r.below(5) - 2 - buf.len();
                    if rest > 8 {
                        let strings = vec![vec![b'q'; rest - 6]];
                        Raw { ty: 200, handle: 3, body: vec![], strings }.emit(&mut buf);
                    }
                    gen::structure(r, 131).emit(&mut buf);
                }
            }
            let mut t = Table::exact((3, 2), buf);
            framing_one(c, &t)?;
            t.ver = (2, 8);
            framing_one(c, &t)?;
            t.v3 = false;
            framing_one(c, &t)?;
            for dec in [65_535u32, 65_536, 65_537, 0x0100_0000, 0xFFFF_FFFF] {
                t.v3 = true;
                t.declared = dec;
                framing_one(c, &t)?;
            }
            Ok(())
        });
    }
}

fn le(b: &[u8]) -> u64 {
    b.iter().rev().fold(0, |a, x| a << 8 | *x as u64)
}

/// What a search gives for this buffer, against the reference.
pub fn search_one(c: &mut Ctx, buf: &[u8]) -> R {
    c.case(|| hex(buf));
    let want = model::search(buf);
    let got = d::EntryPoint::search(buf);
    use d::InvalidEntryPointError as E;
    let show = |g: &Result<d::EntryPoint, E>| format!("{g:?}");
    let big = buf.len().min(2048);
    let case = format!("buffer[{}] {}", buf.len(), hex(&buf[..big]));
    let same = match (&want, &got) {
        (Search::NotFound, Err(E::NotFound)) => true,
        // more than one thing may be wrong with it: which of them is reported is not fixed
        (Search::TooOld(_) | Search::BadSize(_) | Search::BadChecksum(_), Err(e)) => !matches!(e, E::NotFound),
        (Search::Found(..), Ok(_)) => true,
        _ => false,
    };
    if !same {
        return Err(c.fail(format!("search: got {}, expected {want:?}", show(&got)), case));
    }
    let tag = match &want {
        Search::NotFound => 0u8,
        Search::TooOld(_) => 1,
        Search::BadSize(_) => 2,
        Search::BadChecksum(_) => 3,
        Search::Found(false, _) => 4,
        Search::Found(true, _) => 5,
    };
    c.eval(fnv(&[tag, buf.len() as u8, (buf.len() >> 8) as u8]));
    c.count(["no anchor", "too old", "wrong size", "wrong sum", "32-bit found", "64-bit found"][tag as usize]);
    let (Search::Found(v3, at), Ok(p)) = (want, &got) else { return Ok(()) };
    let e = &buf[at..];
    let o = if v3 { 6 } else { 5 };
    let mut bad = Vec::new();
    let mut eq = |name: &str, got: u64, want: u64| {
        if got != want {
            bad.push(format!("{name}: got {got:#x}, expected {want:#x}"));
        }
    };
    eq("len", p.len() as u64, e[o] as u64);
    eq("major", p.major() as u64, e[o + 1] as u64);
    eq("minor", p.minor() as u64, e[o + 2] as u64);
    eq("version", p.to_version().major as u64 * 256 + p.to_version().minor as u64, e[o + 1] as u64 * 256 + e[o + 2] as u64);
    match p {
        d::EntryPoint::V2(x) => {
            eq("kind", 2, if v3 { 3 } else { 2 });
            eq("signature", { x.signature } as u64, le(&e[0..4]));
            eq("checksum", x.checksum as u64, e[4] as u64);
            eq("struct_max", { x.struct_max } as u64, le(&e[8..10]));
            eq("revision", x.revision as u64, e[0x0A] as u64);
            eq("formatted", le(&x.formatted), le(&e[0x0B..0x10]));
            eq("dmi_signature", le(&x.dmi_signature), le(&e[0x10..0x15]));
            eq("dmi_checksum", x.dmi_checksum as u64, e[0x15] as u64);
            eq("smbios_len", { x.smbios_len } as u64, le(&e[0x16..0x18]));
            eq("smbios_address", { x.smbios_address } as u64, le(&e[0x18..0x1C]));
            eq("smbios_count", { x.smbios_count } as u64, le(&e[0x1C..0x1E]));
            eq("bcd_revision", x.bcd_revision as u64, e[0x1E] as u64);
            eq("smbios_len()", p.smbios_len() as u64, le(&e[0x16..0x18]));
            eq("smbios_address()", p.smbios_address(), le(&e[0x18..0x1C]));
            eq("revision()", p.revision() as u64, e[0x0A] as u64);
        }
        d::EntryPoint::V3(x) => {
            eq("kind", 3, if v3 { 3 } else { 2 });
            eq("signature", le(&x.signature), le(&e[0..5]));
            eq("checksum", x.checksum as u64, e[5] as u64);
            eq("docrev", x.docrev as u64, e[9] as u64);
            eq("revision", x.revision as u64, e[0x0A] as u64);
            eq("smbios_len_max", { x.smbios_len_max } as u64, le(&e[0x0C..0x10]));
            eq("smbios_address", x.smbios_address, le(&e[0x10..0x18]));
            eq("smbios_len()", p.smbios_len() as u64, le(&e[0x0C..0x10]));
            eq("smbios_address()", p.smbios_address(), le(&e[0x10..0x18]));
            eq("revision()", p.revision() as u64, e[0x0A] as u64);
        }
    }
    if !bad.is_empty() {
        return Err(c.fail(bad.join("; "), case));
    }
    c.add("entry point fields compared", 14);
    c.sample(|| case);
    Ok(())
}

pub fn rnd_entry(r: &mut Rng, v3: bool, extra: usize) -> Vec<u8> {
    let ver = gen::version(r);
    let mut e = if v3 { gen::entry_v3(ver, 0, extra) } else { gen::entry_v2(ver, 0, extra) };
    let keep = if v3 { 9 } else { 8 };
    for (i, b) in e.iter_mut().enumerate() {
        if i >= keep && (v3 || !(0x10..0x15).contains(&i)) {
            *b = r.byte();
        }
    }
    gen::fix(&mut e, if v3 { 5 } else { 4 });
    e
}

/// C05: an entry point is found exactly where and when there is a sound one.
pub fn entry(c: &mut Ctx) {
    for v3 in [false, true] {
        let at = if v3 { 5 } else { 4 };
        let (base, len_at, major_at) = if v3 { (24usize, 6usize, 7usize) } else { (31, 5, 6) };
        // each byte of an entry point, each value, sum right and wrong
        for off in 0..base {
            c.unit(|c, r| {
                for extra in [0usize, 1, 9] {
                    let e = rnd_entry(r, v3, extra);
                    search_one(c, &e)?;
                    for v in 0..=255u8 {
                        if c.small && r.chance(19, 20) {
                            continue;
                        }
                        let mut x = e.clone();
                        x[off] = v;
                        search_one(c, &x)?;
                        gen::fix(&mut x, at);
                        search_one(c, &x)?;
                        x.extend_from_slice(&[r.u8(); 40]);
                        search_one(c, &x)?;
                    }
                }
                Ok(())
            });
        }
        // each length, each amount of bytes behind the anchor
        for len in 0..=255usize {
            c.unit(|c, r| {
                for major in [0u8, 1, 2, 3, 255] {
                    if c.small && r.chance(9, 10) {
                        continue;
                    }
                    let mut e = rnd_entry(r, v3, 300 - base);
                    e[len_at] = len as u8;
                    e[major_at] = major;
                    // sum over the stated length
                    let n = len.max(base);
                    gen::fix(&mut e[..n], at);
                    for keep in [0, 3, 4, 5, base - 1, base, base + 1, len.saturating_sub(1), len, len + 1, 255, 256, 257, 300] {
                        search_one(c, &e[..keep.min(300)])?;
                    }
                    // sum over the wrong length
                    let mut f = e.clone();
                    gen::fix(&mut f[..base], at);
                    search_one(c, &f)?;
                }
                Ok(())
            });
        }
    }
    // anchors in larger buffers
    for _ in 0..c.pick3(2, 400, 3000) {
        c.unit(|c, r| {
            for _ in 0..c.pick3(5, 600, 1500) {
                let n = match r.below(6) {
                    0 => r.below(40),
                    1 => r.below(70),
                    2 => r.range(3000, 4200),
                    _ => r.below(600),
                };
                let mut b: Vec<u8> = match r.below(3) {
                    0 => vec![0; n],
                    1 => (0..n).map(|_| r.u8()).collect(),
                    _ => (0..n).map(|_| *r.pick(b"_SM3_D\0\x05")).collect(),
                };
                for _ in 0..r.below(4) {
                    let v3 = r.chance(1, 2);
                    let extra = if r.chance(1, 2) { 0 } else { r.below(20) };
                    let mut e = rnd_entry(r, v3, extra);
                    match r.below(8) {
                        0 => {
                            let i = r.below(e.len());
                            e[i] = e[i].wrapping_add(1)
                        }
                        1 => {
                            let i = r.below(9);
                            e[i] = r.byte();
                        }
                        _ => {}
                    }
                    let mut at = r.below(b.len() + 1);
                    if r.chance(4, 5) {
                        at -= at % 16;
                    }
                    if r.chance(1, 3) {
                        // overwrite in place
                        for (i, x) in e.iter().enumerate() {
                            if let Some(y) = b.get_mut(at + i) {
                                *y = *x
                            }
                        }
                    } else {
                        b.splice(at..at, e);
                    }
                }
                if r.chance(1, 6) {
                    b.truncate(r.below(b.len() + 1));
                }
                search_one(c, &b)?;
            }
            Ok(())
        });
    }
    // an anchor at every offset of a large buffer
    for v3 in [false, true] {
        c.unit(|c, r| {
            let n = c.pick3(40, 2100, 9000);
            for at in 0..n {
                let mut b = vec![0xAA; at];
                b.extend(rnd_entry(r, v3, 0));
                b.extend(vec![0x55; r.below(3)]);
                search_one(c, &b)?;
            }
            if !c.small {
                for at in [65_520usize, 65_536, 65_552, 70_001, 1 << 20] {
                    let mut b = vec![0; at];
                    b.extend(rnd_entry(r, v3, 0));
                    search_one(c, &b)?;
                }
            }
            Ok(())
        });
    }
}

/// Where the string fields of a type are: (field name, offset).
fn string_fields(ty: u8) -> &'static [(&'static str, usize)] {
    match ty {
        0 => &[("vendor", 4), ("bios_version", 5), ("bios_release_date", 8)],
        1 => &[("manufacturer", 4), ("product", 5), ("version", 6), ("serial", 7), ("sku", 0x19), ("family", 0x1A)],
        2 => &[("manufacturer", 4), ("product", 5), ("version", 6), ("serial", 7), ("asset", 8), ("location_in_chassis", 0x0A)],
        3 => &[("manufacturer", 4), ("version", 6), ("serial_number", 7), ("asset_tag_number", 8), ("sku_number", 0x15)],
        4 => &[
            ("socket_designation", 4),
            ("processor_manufacturer", 7),
            ("processor_version", 0x10),
            ("serial_number", 0x20),
            ("asset_tag", 0x21),
            ("part_number", 0x22),
        ],
        7 => &[("socket_designation", 4)],
        8 => &[("internal_reference_designator", 4), ("external_reference_designator", 6)],
        9 => &[("slot_designation", 4)],
        14 => &[("group_name", 4)],
        17 => &[
            ("device_locator", 0x10),
            ("bank_locator", 0x11),
            ("manufacturer", 0x17),
            ("serial", 0x18),
            ("asset_tag", 0x19),
            ("part_number", 0x1A),
        ],
        22 => &[("location", 4), ("manufacturer", 5), ("device_name", 8), ("sbds_version_number", 0x0E)],
        _ => &[],
    }
}

/// The strings of every structure of a table: by number, or in the fields that hold them.
pub fn strings_one(c: &mut Ctx, t: &Table) -> R {
    c.case(|| t.hex());
    let e = t.entry();
    let (frames, _) = model::walk(t.ver, declared(t, &e), &t.buf);
    for (n, f) in frames.iter().enumerate().take(12) {
        let set = &t.buf[f.strings..f.end];
        let item = e.structures(&t.buf).nth(n);
        let count = model::string_ranges(set).len();
        c.eval(fnv(&[f.ty, count as u8]));
        if let Some(Ok(d::Structure::Other(x))) = &item {
            for i in (0..=255u8).filter(|i| (*i as usize) < count + 3 || *i > 253) {
                let (want, got) = (model::string(set, i), x.find_string(i));
                if got.as_ref().ok().copied() != want {
                    let m = format!("string {i} of {count}: got {:?}, expected {want:?}", got.map_err(|e| obs::err(&e)));
                    return Err(c.fail(m, t.hex()));
                }
                c.count("string by number");
            }
            continue;
        }
        // texts only: the rest is the business of other properties
        fn texts(v: &Val) -> Option<Val<'static>> {
            match v {
                Val::S(s) => Some(Val::E(s.to_string().into())),
                Val::L(l) if l.iter().any(|x| matches!(x, Val::S(_))) => Some(Val::L(l.iter().filter_map(texts).collect())),
                _ => None,
            }
        }
        let want = match model::decode(t.ver, &t.buf[f.at..f.strings], set) {
            Exp::Ok(o) => o,
            Exp::Err(v) => {
                if let (Some(Ok(g)), true) = (&item, v.iter().all(|e| matches!(e, ErrObs::Str(..)))) {
                    return Err(c.fail(format!("{} should be refused for a string: {v:?}", obs::structure(g).kind), t.hex()));
                }
                c.count("refused");
                continue;
            }
        };
        match item {
            Some(Ok(g)) => {
                let g = obs::structure(&g);
                for (x, y) in g.fields.iter().zip(&want.fields) {
                    if texts(&x.1) != texts(&y.1) {
                        return Err(c.fail(format!("{} {}: got {:?}, expected {:?}", g.kind, x.0, x.1, y.1), t.hex()));
                    }
                }
                c.count("strings of fields");
            }
            Some(Err(e)) if matches!(obs::err(&e), ErrObs::Str(..)) => {
                return Err(c.fail(format!("{} refused: {:?}", want.kind, obs::err(&e)), t.hex()));
            }
            _ => {}
        }
    }
    Ok(())
}

/// C06: string number n is the n-th string, 0 is no string, anything else is refused.
pub fn strings(c: &mut Ctx) {
    // raw structures: every number against every kind of set
    fn raw(c: &mut Ctx, r: &mut Rng, set: Vec<Vec<u8>>) -> R {
        let ty = *r.pick(&[5u8, 6, 10, 23, 32, 126, 128, 200, 255]);
        let n = r.below(40);
        let s = Raw { ty, handle: gen::handle(r), body: gen::body(r, n), strings: set };
        let mut buf = s.bytes();
        if r.chance(1, 2) {
            gen::structure(r, 128).emit(&mut buf);
        }
        let t = Table::exact(gen::version(r), buf);
        c.case(|| t.hex());
        let sb = s.set();
        let e = t.entry();
        let Some(Ok(d::Structure::Other(x))) = e.structures(&t.buf).next() else {
            return Err(c.fail("the structure is not returned as it is".into(), t.hex()));
        };
        let count = model::string_ranges(&sb).len();
        for i in 0..=255u8 {
            let want = model::string(&sb, i);
            let got = x.find_string(i);
            let same = match (&got, want) {
                (Ok(g), Some(w)) => *g == w,
                (Err(_), None) => true,
                _ => false,
            };
            if !same {
                let m = format!("string {i} of {count}: got {:?}, expected {want:?}", got.map_err(|e| obs::err(&e)));
                return Err(c.fail(m, t.hex()));
            }
            c.eval(fnv(&[(count.min(255)) as u8, i, want.is_some() as u8, (count > 255) as u8]));
            c.count(if i == 0 {
                "number 0"
            } else if want.is_some() {
                "string found"
            } else if (i as usize) <= count {
                "not UTF-8, refused"
            } else {
                "no such string, refused"
            });
        }
        for off in 0..=s.len() + 2 {
            let idx = off.checked_sub(4).and_then(|o| s.body.get(o)).copied();
            let want = idx.and_then(|i| model::string(&sb, i));
            let got = x.get_string(off);
            let same = match (&got, want) {
                (Ok(g), Some(w)) => *g == w,
                (Err(_), None) => true,
                _ => false,
            };
            if !same {
                let m = format!("string named at offset {off:#x}: got {:?}, expected {want:?}", got.map_err(|e| obs::err(&e)));
                return Err(c.fail(m, t.hex()));
            }
            c.eval(0);
            c.count("string by offset");
        }
        c.sample(|| t.hex());
        Ok(())
    }
    // typed structures: each string field, each number
    fn typed(c: &mut Ctx, ver: Version, s: &Raw, field: &str, idx: u8) -> R {
        let t = Table::exact(ver, s.bytes());
        c.case(|| t.hex());
        let sb = s.set();
        let want = model::string(&sb, idx);
        let e = t.entry();
        let got = e.structures(&t.buf).next();
        match (got, want) {
            (Some(Ok(g)), Some(w)) => {
                let o = obs::structure(&g);
                if o.get(field) != Some(&Val::S(w)) {
                    let m = format!("{} {field} is string {idx}: got {:?}, expected {w:?}", o.kind, o.get(field));
                    return Err(c.fail(m, t.hex()));
                }
                c.count("field string found");
            }
            (Some(Err(_)), None) => c.count("field string refused"),
            (got, want) => {
                let m = format!(
                    "{} {field} is string {idx}: got {:?}, expected {want:?}",
                    model::info_name(s.ty),
                    got.map(|x| x.map(|s| obs::structure(&s).get(field).map(|v| format!("{v:?}"))).map_err(|e| obs::err(&e)))
                );
                return Err(c.fail(m, t.hex()));
            }
        }
        c.eval(fnv(&[s.ty, idx, s.strings.len() as u8, want.is_some() as u8]) ^ fnv(field.as_bytes()));
        Ok(())
    }
    let nasty = |r: &mut Rng, n: usize| -> Vec<Vec<u8>> {
        (0..n)
            .map(|_| match r.below(12) {
                0 => gen::not_utf8(r),
                1 => vec![b'w'; r.range(1, 600)],
                _ => gen::utf8(r),
            })
            .collect()
    };
    for n in 0..=c.pick3(3, 260, 300) {
        c.unit(|c, r| {
            raw(c, r, (1..=n).map(|i| format!("{i}").into_bytes()).collect())?;
            raw(c, r, vec![vec![b'='; 1]; n])?;
            let nasty = nasty(r, n);
            raw(c, r, nasty)
        });
    }
    for _ in 0..c.pick3(2, 120, 1500) {
        c.unit(|c, r| {
            for _ in 0..c.pick3(1, 40, 100) {
                let set = gen::strings(r);
                raw(c, r, set)?;
            }
            Ok(())
        });
    }
    for &ty in model::TYPED {
        for &(field, off) in string_fields(ty) {
            for &ver in &[(2u8, 0u8), (2, 3), (2, 4), (2, 6), (2, 8), (3, 2), (3, 7)] {
                c.unit(|c, r| {
                    for &len in gen::lengths(ty).iter().rev() {
                        if off >= len {
                            continue;
                        }
                        let n = *r.pick(&[0usize, 1, 3, 9, 254, 255, 256]);
                        let strings: Vec<Vec<u8>> = if r.chance(1, 2) {
                            (1..=n).map(|i| format!("{field}{i}").into_bytes()).collect()
                        } else {
                            let bad = r.below(n.max(1));
                            (0..n).map(|i| if i == bad { gen::not_utf8(r) } else { gen::utf8(r) }).collect()
                        };
                        let mut s = Raw { ty, handle: gen::handle(r), body: vec![0; len - 4], strings };
                        if ty == 17 {
                            // absent unless asked for
                            *s.at(4).unwrap() = 1;
                        }
                        for idx in 0..=255u8 {
                            if c.small && r.chance(9, 10) {
                                continue;
                            }
                            *s.at(off).unwrap() = idx;
                            // only where the field is part of the structure
                            let f = s.formatted();
                            let mut probe = s.clone();
                            *probe.at(off).unwrap() = 0;
                            match model::decode(ver, &probe.formatted(), b"\0\0") {
                                Exp::Ok(o) if o.get(field) == Some(&Val::S("")) => {}
                                _ => break,
                            }
                            if let Exp::Ok(o) = model::decode(ver, &f, b"\0\0") {
                                if idx != 0 && o.get(field) == Some(&Val::S("")) {
                                    break;
                                }
                            }
                            typed(c, ver, &s, field, idx)?;
                        }
                    }
                    Ok(())
                });
            }
        }
    }
    // lists of strings
    for _ in 0..c.pick3(3, 100, 600) {
        c.unit(|c, r| {
            for _ in 0..c.pick3(1, 60, 150) {
                let ty = *r.pick(&[11u8, 12, 13]);
                let set = match r.below(3) {
                    0 => gen::strings(r),
                    1 => {
                        let n = *r.pick(&[0usize, 1, 2, 254, 255, 256]);
                        (1..=n).map(|i| format!("{i}").into_bytes()).collect()
                    }
                    _ => {
                        let n = r.below(6);
                        nasty(r, n)
                    }
                };
                let mut s = Raw { ty, handle: 5, body: vec![0; 0x16 - 4], strings: set };
                let sb = s.set();
                let all = model::strings(&sb);
                if ty == 12 {
                    if all.len() > 255 {
                        continue;
                    }
                    *s.at(4).unwrap() = all.len() as u8;
                }
                let t = Table::exact(*r.pick(&[(2, 1), (2, 8), (3, 2)]), s.bytes());
                c.case(|| t.hex());
                let want: Vec<&str> = all.iter().take(if ty == 13 { 255 } else { 100_000 }).copied().collect();
                let e = t.entry();
                let got: Option<Vec<&str>> = match e.structures(&t.buf).next() {
                    Some(Ok(d::Structure::OemStrings(x))) => Some(x.strings.take(obs::MANY).collect()),
                    Some(Ok(d::Structure::SystemConfigurationOptions(x))) => Some(x.strings.take(obs::MANY).collect()),
                    Some(Ok(d::Structure::BiosLanguage(x))) => Some(x.installable_languages.take(obs::MANY).collect()),
                    _ => None,
                };
                c.eval(fnv(&[ty, want.len() as u8, (want.len() == model::string_ranges(&sb).len()) as u8]));
                if got.as_ref() != Some(&want) {
                    return Err(c.fail(format!("strings of type {ty}: got {got:?}, expected {want:?}"), t.hex()));
                }
                c.add("strings listed", want.len() as u64);
            }
            Ok(())
        });
    }
}

/// All strings and byte slices of an observation.
fn slices<'a>(v: &Val<'a>, out: &mut Vec<&'a [u8]>) {
    match v {
        Val::S(s) => out.push(s.as_bytes()),
        Val::Bytes(b) => out.push(b),
        Val::L(l) | Val::T(_, l) => l.iter().for_each(|x| slices(x, out)),
        _ => {}
    }
}

fn nth_item<'a>(e: &d::EntryPoint, buf: &'a [u8], n: usize) -> Option<Result<Obs<'a>, ErrObs>> {
    e.structures(buf).nth(n).map(|i| i.map(|s| obs::structure(&s)).map_err(|e| obs::err(&e)))
}

/// Every structure of a table is what it is alone, and refers into itself only.
pub fn locality_one(c: &mut Ctx, r: &mut Rng, t: &Table) -> R {
    c.case(|| t.hex());
    let e = t.entry();
    let (frames, _) = model::walk(t.ver, declared(t, &e), &t.buf);
    let m = super::whole::Exact::new(&t.buf, r.below(24));
    let view = m.view();
    for (n, f) in frames.iter().enumerate().take(8) {
        let alone = Table::exact(t.ver, t.buf[f.at..f.end].to_vec());
        let ea = alone.entry();
        let (got, want) = (nth_item(&e, view, n), nth_item(&ea, &alone.buf, 0));
        c.eval(fnv(&[f.ty, f.len, n as u8, frames.len() as u8]));
        if got != want {
            let m = match (&got, &want) {
                (Some(Ok(g)), Some(Ok(w))) => super::decode::diff(g, w),
                _ => format!("got {got:?}, alone it is {want:?}"),
            };
            return Err(c.fail(format!("structure {n} among others: {m}"), t.hex()));
        }
        if let Some(Ok(o)) = got {
            let mut refs = Vec::new();
            o.fields.iter().for_each(|f| slices(&f.1, &mut refs));
            let own = view[f.at..f.end].as_ptr_range();
            for s in refs {
                let p = s.as_ptr_range();
                if !s.is_empty() && (p.start < own.start || p.end > own.end) {
                    let m = format!("{}: {:?} does not lie within the structure's own bytes", o.kind, String::from_utf8_lossy(s));
                    return Err(c.fail(m, t.hex()));
                }
            }
        }
    }
    Ok(())
}

/// C07: a structure is decoded from its own bytes and nothing else, and refers into them.
pub fn locality(c: &mut Ctx) {
    /// A structure beside `s`: any other, one much like it, an end of table that does not end it.
    fn neighbour(r: &mut Rng, s: &Raw, ver: Version) -> Raw {
        let mut n = match r.below(8) {
            0 | 1 => {
                let mut n = s.clone();
                for _ in 0..r.below(4) {
                    if let Some(b) = n.at(4 + r.below(s.len())) {
                        *b = r.byte();
                    }
                }
                if r.chance(1, 3) {
                    n.strings = gen::strings(r);
                }
                if r.chance(1, 3) {
                    n.handle = gen::handle(r);
                }
                n
            }
            2 if ver.0 < 3 => Raw { ty: 127, handle: gen::handle(r), body: vec![], strings: vec![] },
            _ => {
                let ty = gen::any_type(r);
                gen::structure(r, ty)
            }
        };
        if n.ty == 127 && ver.0 >= 3 {
            n.ty = 126;
        }
        n
    }
    for _ in 0..c.pick3(3, 2400, 12000) {
        c.unit(|c, r| {
            for _ in 0..c.pick3(3, 250, 600) {
                let ver = gen::version(r);
                let ty = gen::any_type(r);
                let s = if r.chance(2, 3) { gen::fitting(r, ty, ver) } else { gen::structure(r, ty) };
                let alone = Table::exact(ver, s.bytes());
                c.case(|| alone.hex());
                let ea = alone.entry();
                let Some(want) = nth_item(&ea, &alone.buf, 0) else {
                    return Err(c.fail("no structure was returned".into(), alone.hex()));
                };
                // the same structure among others, at another address, with other bytes around it
                for round in 0..3 {
                    let mut buf = Vec::new();
                    let before = match round {
                        0 => 0,
                        _ if r.chance(1, 40) => r.below(60),
                        _ => r.below(4),
                    };
                    for _ in 0..before {
                        neighbour(r, &s, ver).emit(&mut buf);
                    }
                    let at = buf.len();
                    s.emit(&mut buf);
                    let end = buf.len();
                    for _ in 0..r.below(3) {
                        neighbour(r, &s, ver).emit(&mut buf);
                    }
                    for _ in 0..r.below(20) {
                        buf.push(r.byte());
                    }
                    // an allocation that does not start at the table
                    let pad = r.below(25);
                    let mut mem = vec![0xEEu8; pad];
                    mem.extend_from_slice(&buf);
                    let t = Table::exact(ver, buf);
                    c.case(|| t.hex());
                    let view = &mem[pad..];
                    let et = t.entry();
                    let Some(got) = nth_item(&et, view, before) else {
                        return Err(c.fail(format!("structure {before} was not returned"), t.hex()));
                    };
                    let mut sig = vec![s.ty, before as u8, got.is_ok() as u8, pad as u8];
                    sig.push(s.len() as u8);
                    c.eval(fnv(&sig));
                    if got != want {
                        let m = match (&got, &want) {
                            (Ok(g), Ok(w)) => super::decode::diff(g, w),
                            _ => format!("got {got:?}, alone it is {want:?}"),
                        };
                        return Err(c.fail(format!("among others: {m}"), t.hex()));
                    }
                    let (x, y) = (ea.structures(&alone.buf).next(), et.structures(view).nth(before));
                    if let (Some(Ok(x)), Some(Ok(y))) = (&x, &y) {
                        if x != y || format!("{x:?}") != format!("{y:?}") {
                            return Err(c.fail(format!("among others: {y:?}, alone it is {x:?}"), t.hex()));
                        }
                        c.count("values compared");
                    }
                    let Ok(o) = got else { continue };
                    let mut refs = Vec::new();
                    o.fields.iter().for_each(|f| slices(&f.1, &mut refs));
                    let own = view[at..end].as_ptr_range();
                    for s in refs {
                        if s.is_empty() {
                            continue;
                        }
                        let p = s.as_ptr_range();
                        if p.start < own.start || p.end > own.end {
                            let m = format!("{}: {:?} does not lie within the structure's own bytes", o.kind, String::from_utf8_lossy(s));
                            return Err(c.fail(m, t.hex()));
                        }
                        c.count("references checked");
                    }
                    c.count(o.kind);
                    c.sample(|| t.hex());
                }
                // the handle names it and means nothing else
                if let Ok(w) = &want {
                    let mut other = s.clone();
                    other.handle ^= 1 << r.below(16);
                    let t = Table::exact(ver, other.bytes());
                    let et = t.entry();
                    match nth_item(&et, &t.buf, 0) {
                        Some(Ok(mut g)) => {
                            if g.handle != other.handle {
                                return Err(c.fail(format!("handle {:#x}, expected {:#x}", g.handle, other.handle), t.hex()));
                            }
                            g.handle = w.handle;
                            if g != *w {
                                return Err(c.fail(format!("another handle: {}", super::decode::diff(&g, w)), t.hex()));
                            }
                            c.eval(0);
                            c.count("handles");
                        }
                        g => return Err(c.fail(format!("another handle: {g:?}"), t.hex())),
                    }
                    // strings nobody refers to may be anything
                    if s.strings.len() > 1 && !matches!(s.ty, 11..=13) && model::kind(s.ty) != "Other" {
                        let mut other = s.clone();
                        let used: Vec<usize> = gen::string_offsets(s.ty, &s.body)
                            .iter()
                            .filter_map(|o| s.body.get(o - 4))
                            .map(|i| *i as usize)
                            .collect();
                        let mut changed = false;
                        for i in 0..other.strings.len() {
                            if !used.contains(&(i + 1)) {
                                other.strings[i] = if r.chance(1, 3) { gen::not_utf8(r) } else { gen::utf8(r) };
                                changed = true;
                            }
                        }
                        if changed {
                            let t = Table::exact(ver, other.bytes());
                            let et = t.entry();
                            let g = nth_item(&et, &t.buf, 0);
                            if g.as_ref() != Some(&want) {
                                return Err(c.fail(format!("other unused strings: {g:?}, was {want:?}"), t.hex()));
                            }
                            c.eval(0);
                            c.count("unused strings");
                        }
                    }
                }
            }
            Ok(())
        });
    }
}

/// Step through an iterator in several ways and compare with what it must yield.
fn stepping<'a, I, F>(c: &mut Ctx, r: &mut Rng, it: I, want: &[Val<'a>], f: F, case: &str, name: &str) -> R
where
    I: Iterator + Clone,
    F: Fn(I::Item) -> Val<'a> + Copy,
{
    let show = |v: &[Val<'a>]| format!("{} items {:?}", v.len(), &v[..v.len().min(6)]);
    let got: Vec<Val<'a>> = it.clone().take(obs::MANY).map(f).collect();
    if got != want {
        return Err(c.fail(format!("{name}: got {}, expected {}", show(&got), show(want)), case.into()));
    }
    c.eval(fnv(name.as_bytes()) ^ fnv(&(want.len() as u64).to_le_bytes()));
    c.count(name);
    c.add("items", want.len() as u64);
    c.max("items in a group", want.len() as u64);
    let (lo, hi) = it.size_hint();
    if lo > want.len() || hi.is_some_and(|h| h < want.len()) {
        return Err(c.fail(format!("{name}: size hint {lo}..{hi:?} for {} items", want.len()), case.into()));
    }
    if it.clone().take(obs::MANY).count() != want.len() {
        return Err(c.fail(format!("{name}: counted {}, has {}", it.clone().take(obs::MANY).count(), want.len()), case.into()));
    }
    if it.clone().take(obs::MANY).last().map(f) != want.last().cloned() {
        return Err(c.fail(format!("{name}: wrong last item"), case.into()));
    }
    // pause, resume, copy
    let k = r.below(want.len() + 1);
    let mut a = it.clone();
    for w in &want[..k] {
        if a.next().map(f).as_ref() != Some(w) {
            return Err(c.fail(format!("{name}: wrong item when stepping"), case.into()));
        }
    }
    let b = a.clone();
    let rest: Vec<Val<'a>> = a.by_ref().take(obs::MANY).map(f).collect();
    let again: Vec<Val<'a>> = b.take(obs::MANY).map(f).collect();
    if rest != want[k..] || again != want[k..] {
        return Err(c.fail(format!("{name}: after {k} items got {} and {}, expected {}", show(&rest), show(&again), show(&want[k..])), case.into()));
    }
    for _ in 0..3 {
        if a.next().is_some() {
            return Err(c.fail(format!("{name}: an item after the end"), case.into()));
        }
    }
    for _ in 0..3 {
        match super::script::run(r, it.clone(), want, f) {
            Ok(n) => c.add("steps of scripts", n),
            Err(m) => return Err(c.fail(format!("{name}: {m}"), case.into())),
        }
    }
    Ok(())
}

pub fn groups_one(c: &mut Ctx, r: &mut Rng, ver: Version, s: &Raw) -> R {
    let t = Table::exact(ver, s.bytes());
    c.case(|| t.hex());
    let f = s.formatted();
    let sb = s.set();
    let want = match model::decode(ver, &f, &sb) {
        Exp::Ok(o) => o,
        Exp::Err(_) => {
            c.count("refused");
            return Ok(());
        }
    };
    let list = |n: &str| match want.get(n) {
        Some(Val::L(l)) => Some(l.clone()),
        _ => None,
    };
    let e = t.entry();
    let case = t.hex();
    let got = match e.structures(&t.buf).next() {
        Some(Ok(g)) => g,
        _ => return Err(c.fail(format!("{} was not decoded", want.kind), case)),
    };
    let missing = |c: &mut Ctx, n: &str| c.fail(format!("{} {n}: the group is missing or should be", want.kind), t.hex());
    match &got {
        d::Structure::Enclosure(x) => match (&x.contained_elements, list("contained_elements")) {
            (Some(g), Some(w)) => {
                if g.count() as usize != f[0x13] as usize {
                    return Err(c.fail(format!("contained elements: count {} of {}", g.count(), f[0x13]), case));
                }
                stepping(c, r, g.clone(), &w, |i| obs::element(&i), &case, "contained elements")?;
            }
            (None, None) => {}
            _ => return Err(missing(c, "contained elements")),
        },
        d::Structure::SystemSlots(x) => match (&x.peer_devices, list("peer_devices")) {
            (Some(g), Some(w)) => stepping(c, r, g.clone(), &w, |i| obs::device(&i), &case, "peer devices")?,
            (None, None) => {}
            _ => return Err(missing(c, "peer devices")),
        },
        d::Structure::OemStrings(x) => stepping(c, r, x.strings, &list("strings").unwrap(), Val::S, &case, "OEM strings")?,
        d::Structure::SystemConfigurationOptions(x) => {
            stepping(c, r, x.strings, &list("strings").unwrap(), Val::S, &case, "configuration options")?
        }
        d::Structure::BiosLanguage(x) => {
            let w = list("installable_languages").unwrap();
            stepping(c, r, x.installable_languages.clone(), &w, Val::S, &case, "languages")?
        }
        d::Structure::GroupAssociations(x) => stepping(
            c,
            r,
            x.items,
            &list("items").unwrap(),
            |i| Val::T("item", vec![Val::U(i.type_ as u128), Val::U(i.handle as u128)]),
            &case,
            "group items",
        )?,
        d::Structure::SystemEventLog(x) => {
            let n = "supported_event_log_type_descriptors";
            match (&x.supported_event_log_type_descriptors, list(n)) {
                (Some(g), Some(w)) => stepping(
                    c,
                    r,
                    g.clone(),
                    &w,
                    |i| {
                        let e = |s: String| Val::E(std::borrow::Cow::Owned(s));
                        Val::T("desc", vec![e(format!("{:?}", i.log_type)), e(format!("{:?}", i.variable_data_format_type))])
                    },
                    &case,
                    "event log descriptors",
                )?,
                (None, None) => {}
                _ => return Err(missing(c, "descriptors")),
            }
        }
        _ => {}
    }
    c.sample(|| case);
    Ok(())
}

/// C17: repeated groups have exactly the items they say, in order.
pub fn groups(c: &mut Ctx) {
    // all counts and sizes that fit
    for n in 0..=255usize {
        c.unit(|c, r| {
            for m in 0..=255usize {
                if c.small && r.chance(199, 200) {
                    continue;
                }
                let total = 0x15 + n * m;
                for len in [total, total + 1, total + 9] {
                    if len <= 255 {
                        let mut s = Raw { ty: 3, handle: 9, body: gen::body(r, len - 4), strings: vec![b"sku".to_vec(), b"x".to_vec()] };
                        for o in [4, 6, 7, 8, total] {
                            if let Some(b) = s.at(o) {
                                *b = 1;
                            }
                        }
                        *s.at(0x13).unwrap() = n as u8;
                        *s.at(0x14).unwrap() = m as u8;
                        groups_one(c, r, (3, 1), &s)?;
                    }
                }
                let len = 0x17 + n * m;
                if len <= 255 {
                    let mut s = Raw { ty: 15, handle: 9, body: gen::body(r, len - 4), strings: vec![] };
                    *s.at(0x15).unwrap() = n as u8;
                    *s.at(0x16).unwrap() = m as u8;
                    let ver = *r.pick(&[(2, 1), (2, 8), (3, 4)]);
                    groups_one(c, r, ver, &s)?;
                }
            }
            // group associations and peer devices: lengths around n
            if n >= 5 {
                let mut s = Raw { ty: 14, handle: 9, body: gen::body(r, n - 4), strings: vec![b"g".to_vec()] };
                *s.at(4).unwrap() = 1;
                for _ in 0..8 {
                    let ver = gen::version(r);
                    groups_one(c, r, ver, &s)?;
                    s.body = gen::body(r, n - 4);
                    *s.at(4).unwrap() = 1;
                }
            }
            for len in 0x13..=255usize {
                if n * 5 > 260 || (c.small && r.chance(99, 100)) {
                    break;
                }
                let mut s = Raw { ty: 9, handle: 9, body: gen::body(r, len - 4), strings: vec![] };
                *s.at(4).unwrap() = 0;
                *s.at(0x12).unwrap() = n as u8;
                groups_one(c, r, (3, 4), &s)?;
            }
            for ty in [11u8, 12, 13] {
                let strings = (1..=n).map(|_| gen::utf8(r)).collect();
                let mut s = Raw { ty, handle: 9, body: gen::body(r, 0x16 - 4), strings };
                if ty == 12 {
                    *s.at(4).unwrap() = n as u8;
                }
                groups_one(c, r, (2, 7), &s)?;
            }
            Ok(())
        });
    }
    for _ in 0..c.pick3(2, 80, 1000) {
        c.unit(|c, r| {
            for _ in 0..c.pick3(3, 1500, 3000) {
                let ty = *r.pick(&[3u8, 9, 11, 12, 13, 14, 15]);
                let ver = gen::version(r);
                let s = if r.chance(2, 3) { gen::fitting(r, ty, ver) } else { gen::structure(r, ty) };
                // an iteration over strings ends at one that is not UTF-8; what is after that end is not fixed
                if s.strings.iter().any(|x| std::str::from_utf8(x).is_err()) {
                    continue;
                }
                groups_one(c, r, ver, &s)?;
            }
            Ok(())
        });
    }
}

pub fn errors_one(c: &mut Ctx, t: &Table) -> R {
    use std::error::Error;
    c.case(|| t.hex());
    let e = t.entry();
    let (frames, stop) = model::walk(t.ver, declared(t, &e), &t.buf);
    let mut expect: Vec<Option<Vec<ErrObs>>> = frames
        .iter()
        .map(|f| match model::decode(t.ver, &t.buf[f.at..f.strings], &t.buf[f.strings..f.end]) {
            Exp::Ok(_) => None,
            Exp::Err(v) => Some(v),
        })
        .collect();
    match stop {
        Stop::Done => {}
        Stop::BadSize(o, l) => expect.push(Some(vec![ErrObs::BadSize(o, l)])),
        Stop::Unterminated(o) => expect.push(Some(vec![ErrObs::Unterminated(o)])),
    }
    let got: Vec<_> = e.structures(&t.buf).take(obs::MANY).collect();
    for (n, (g, w)) in got.iter().zip(&expect).enumerate() {
        let (Err(err), Some(w)) = (g, w) else {
            if g.is_err() {
                let m = format!("item {n} is sound and was refused: {:?}", g.as_ref().err().map(obs::err));
                return Err(c.fail(m, t.hex()));
            }
            if w.is_some() {
                return Err(c.fail(format!("item {n} was not refused, should be {w:?}"), t.hex()));
            }
            c.count("not refused");
            continue;
        };
        let o = obs::err(err);
        if !w.contains(&o) {
            return Err(c.fail(format!("item {n}: reported {o:?}, should be one of {w:?}"), t.hex()));
        }
        let text = format!("{err}");
        if text != obs::err_text(&o) {
            return Err(c.fail(format!("item {n}: {o:?} reads {text:?}, expected {:?}", obs::err_text(&o)), t.hex()));
        }
        #[cfg(feature = "std")]
        if err.source().is_some() != (o == ErrObs::Slice) {
            return Err(c.fail(format!("item {n}: source of {o:?}"), t.hex()));
        }
        let key = match &o {
            ErrObs::BadSize(_, l) => vec![1, *l],
            ErrObs::Unterminated(_) => vec![2],
            ErrObs::Str(ty, _, i) => [&[3, *i], ty.as_bytes()].concat(),
            ErrObs::Slice => vec![4],
            ErrObs::Len(ty, _, s, l) => [&[5, *l], ty.as_bytes(), s.as_bytes()].concat(),
        };
        c.eval(fnv(&key));
        c.count(match o {
            ErrObs::BadSize(..) => "reported: extends beyond the table",
            ErrObs::Unterminated(_) => "reported: unterminated strings",
            ErrObs::Str(..) => "reported: string number",
            ErrObs::Slice => "reported: value does not fit",
            ErrObs::Len(..) => "reported: length",
        });
        c.sample(|| format!("{} -> {text}", t.hex()));
    }
    if got.len() != expect.len() {
        return Err(c.fail(format!("{} items, expected {}", got.len(), expect.len()), t.hex()));
    }
    Ok(())
}

/// What is reported for an entry point that is not one: something that is wrong with it.
pub fn search_report(c: &mut Ctx, buf: &[u8]) -> R {
    use d::InvalidEntryPointError as E;
    c.case(|| hex(buf));
    let anchor = (0..buf.len()).step_by(16).find(|i| buf[*i..].starts_with(b"_SM_") || buf[*i..].starts_with(b"_SM3_"));
    let Some(at) = anchor else {
        return match d::EntryPoint::search(buf) {
            Err(E::NotFound) => Ok(()),
            g => Err(c.fail(format!("no anchor, and got {g:?}"), hex(buf))),
        };
    };
    let e = &buf[at..];
    let v3 = e.starts_with(b"_SM3_");
    let (least, len_at, major_at) = if v3 { (24usize, 6usize, 7usize) } else { (31, 5, 6) };
    let byte = |i: usize| e.get(i).copied();
    let len = byte(len_at).map(usize::from);
    let sum = len.and_then(|l| e.get(..l)).map(|x| x.iter().fold(0u8, |a, b| a.wrapping_add(*b)));
    let err = match d::EntryPoint::search(buf) {
        Ok(_) => {
            c.count("entry point is sound");
            return Ok(());
        }
        Err(err) => err,
    };
    let true_ = match &err {
        E::NotFound => false,
        E::TooOldVersion(v) => byte(major_at) == Some(*v) && *v < 2,
        E::BadSize(n) => {
            (e.len() < least && *n == e.len() as u8)
                || len.is_some_and(|l| l < least && *n == l as u8)
                || len.is_some_and(|l| e.len() < l && *n == e.len() as u8)
        }
        E::BadChecksum(s) => sum == Some(*s) && *s != 0,
    };
    let text = format!("{err}");
    let want = match &err {
        E::NotFound => "Input did not contain a valid SMBIOS entry point".to_string(),
        E::TooOldVersion(v) => format!("Input version number was below 2.0: {v}"),
        E::BadSize(n) => format!("Input contained an invalid-sized SMBIOS entry: {n}"),
        E::BadChecksum(s) => format!("SMBIOS entry point has an invalid checksum: {s}"),
    };
    c.eval(fnv(format!("{err:?}").as_bytes()));
    c.count("entry point reports");
    if !true_ {
        return Err(c.fail(format!("entry point report is not true: {err:?}"), hex(buf)));
    }
    if text != want {
        return Err(c.fail(format!("entry point report reads {text:?}, expected {want:?}"), hex(buf)));
    }
    Ok(())
}

/// C20: a refusal says truthfully what is wrong and with which structure.
pub fn errors(c: &mut Ctx) {
    for &ty in model::TYPED {
        for &ver in gen::VERSIONS {
            c.unit(|c, r| {
                for len in 4..=c.pick3(8, 70, 255) {
                    for p in [0u8, 1, 9, 0xFF] {
                        let mut s = Raw { ty, handle: gen::handle(r), body: vec![p; len - 4], strings: vec![b"a".to_vec(), b"b".to_vec()] };
                        if r.chance(1, 2) {
                            gen::reconcile(r, &mut s);
                        }
                        errors_one(c, &Table::exact(ver, s.bytes()))?;
                    }
                    // one string number out of range
                    let mut s = Raw { ty, handle: gen::handle(r), body: vec![0; len - 4], strings: vec![b"a".to_vec()] };
                    let offs = gen::string_offsets(ty, &s.body);
                    if !offs.is_empty() {
                        let o = *r.pick(&offs);
                        if let Some(b) = s.at(o) {
                            *b = r.range(2, 255) as u8;
                            errors_one(c, &Table::exact(ver, s.bytes()))?;
                        }
                    }
                }
                Ok(())
            });
        }
    }
    for _ in 0..c.pick3(2, 160, 1500) {
        c.unit(|c, r| {
            for _ in 0..c.pick3(3, 900, 2000) {
                let t = gen::any(r);
                errors_one(c, &t)?;
            }
            Ok(())
        });
    }
    // far from the start of the table, where offsets take more than 16 and more than 24 bits
    for n in 0..c.pick3(2, 48, 400) {
        c.unit(|c, r| {
            let far = n % 12 == 0;
            for _ in 0..if far { 3 } else { c.pick3(2, 120, 300) } {
                let mut t = gen::any(r);
                t.v3 = true;
                let near = if far { 1 << 24 } else { *r.pick(&[0x8000usize, 0x1_0000, 0x1_0000, 0x1_8000, 0x2_0000]) };
                let ahead = (near + r.below(600)).saturating_sub(r.below(300));
                let mut buf = Raw { ty: 200, handle: 1, body: vec![7; r.below(250)], strings: vec![vec![b'x'; ahead]] }.bytes();
                let n = buf.len();
                buf.append(&mut t.buf);
                t.buf = buf;
                t.declared = t.declared.saturating_add(n as u32);
                errors_one(c, &t)?;
                c.count("far from the start");
            }
            Ok(())
        });
    }
    // entry points: the report names a thing that is wrong with the anchor found
    for _ in 0..c.pick3(2, 80, 800) {
        c.unit(|c, r| {
            for _ in 0..c.pick3(5, 1200, 2500) {
                let v3 = r.chance(1, 2);
                let at = 16 * r.below(4);
                let extra = r.below(10);
                let mut e = if v3 { gen::entry_v3((2 + r.below(2) as u8, 0), 9, extra) } else { gen::entry_v2((2, 8), 9, extra) };
                for _ in 0..r.range(1, 2) {
                    match r.below(5) {
                        0 => e.truncate(r.range(5, e.len())),
                        1 => {
                            let i = if v3 { 6 } else { 5 };
                            e[i] = r.u8()
                        }
                        2 => {
                            let i = if v3 { 7 } else { 6 };
                            e[i] = r.below(2) as u8
                        }
                        3 => {
                            let i = r.range(if v3 { 5 } else { 4 }, e.len() - 1);
                            e[i] ^= 1 << r.below(8)
                        }
                        _ => {}
                    }
                    if e.len() < 8 {
                        break;
                    }
                }
                let mut buf = vec![0u8; at];
                buf.extend_from_slice(&e);
                if r.chance(1, 3) {
                    buf.extend(vec![r.u8(); r.below(300)]);
                }
                search_report(c, &buf)?;
            }
            Ok(())
        });
    }
}

/// C21 on the `n`-th structure of a table, of a type that is not decoded.
pub fn raw_one(c: &mut Ctx, t: &Table, n: usize, f: &model::Frame, sizes: &[usize]) -> R {
    c.case(|| t.hex());
    let e = t.entry();
    let Some(Ok(d::Structure::Other(x))) = e.structures(&t.buf).nth(n) else {
        return Err(c.fail("the structure is not returned as it is".into(), t.hex()));
    };
    let (set, f) = (&t.buf[f.strings..f.end], &t.buf[f.at..f.strings]);
    let len = f.len();
    let handle = u16::from_le_bytes([f[2], f[3]]);
    if x.data != &f[4..] || x.length as usize != len || x.handle != handle || x.info != d::InfoType::from(f[0]) {
        return Err(c.fail(format!("raw structure: {x:?}"), t.hex()));
    }
    if (x.version.major, x.version.minor) != t.ver {
        return Err(c.fail(format!("raw structure: version {:?}", x.version), t.hex()));
    }
    let far = [
        usize::MAX,
        usize::MAX - 1,
        usize::MAX - 3,
        usize::MAX - 4,
        usize::MAX - 15,
        usize::MAX / 2,
        (1u64 << 32) as usize,
        ((1u64 << 32) + 4) as usize,
        ((1u64 << 33) + 5) as usize,
        65_536,
        65_540,
        256,
        260,
    ];
    for off in (0..=260).chain(far) {
        // what the formatted area has at this offset (the header is not part of it)
        let part = |size: usize| -> Option<&[u8]> {
            if off < 4 {
                return None;
            }
            f.get(off..off.checked_add(size)?)
        };
        let num = |b: &[u8]| b.iter().rev().fold(0u128, |a, x| a << 8 | *x as u128);
        macro_rules! get {
            ($t:ty, $n:expr) => {
                let want = part($n).map(num);
                let got = x.get::<$t>(off);
                let shown = match &got {
                    Ok(v) => Some(*v as u128),
                    Err(_) => None,
                };
                if shown != want {
                    let m = format!("{} at {off:#x} of {len:#x}: got {shown:x?}, expected {want:x?}", stringify!($t));
                    return Err(c.fail(m, t.hex()));
                }
                if let Err(e) = got {
                    if !matches!(e, d::MalformedStructureError::InvalidSlice(_)) {
                        let m = format!("{} at {off:#x}: refused with {:?}", stringify!($t), obs::err(&e));
                        return Err(c.fail(m, t.hex()));
                    }
                    c.count("number refused");
                } else {
                    c.count("number read");
                }
            };
        }
        get!(u8, 1);
        get!(u16, 2);
        get!(u32, 4);
        get!(u64, 8);
        get!(u128, 16);
        let got = x.get_string(off);
        let want = part(1).and_then(|b| model::string(set, b[0]));
        if got.as_ref().ok().copied() != want {
            let m = format!("string at {off:#x} of {len:#x}: got {:?}, expected {want:?}", got.map_err(|e| obs::err(&e)));
            return Err(c.fail(m, t.hex()));
        }
        c.count(if want.is_some() { "string read" } else { "string refused" });
        for size in [0usize, 1, 2, 3, 5, 16, 64, 200, 255, 256, (1u64 << 32) as usize, usize::MAX - 3, usize::MAX]
            .iter()
            .chain(sizes)
            .copied()
        {
            let got = x.get_slice(off, size);
            let want = part(size);
            if got != want {
                let m = format!("slice {off:#x}+{size:#x} of {len:#x}: got {got:x?}, expected {want:x?}");
                return Err(c.fail(m, t.hex()));
            }
            if let (Some(g), Some(w)) = (got, want) {
                if !w.is_empty() && g.as_ptr() != w.as_ptr() {
                    return Err(c.fail(format!("slice {off:#x}+{size:#x} is not the structure's own"), t.hex()));
                }
                c.count("slice returned");
            } else {
                c.count("slice refused");
            }
        }
        c.eval(fnv(&[len as u8, off as u8, (off > 255) as u8]));
    }
    c.sample(|| t.hex());
    Ok(())
}

/// C21: raw access returns exactly the bytes of the formatted area at an offset, or refuses.
pub fn raw(c: &mut Ctx) {
    for _ in 0..c.pick3(2, 8000, 80_000) {
        c.unit(|c, r| {
            for _ in 0..c.pick3(1, 6, 12) {
                let ty = loop {
                    let t = if r.chance(1, 4) { r.byte() } else { r.u8() };
                    if model::kind(t) == "Other" {
                        break t;
                    }
                };
                let len = match r.below(4) {
                    0 => r.range(4, 12),
                    1 => *r.pick(&[4, 5, 19, 20, 21, 254, 255]),
                    _ => r.range(4, 255),
                };
                let body = match r.below(4) {
                    0 => (0..len - 4).map(|_| r.byte()).collect(),
                    1 => (0..len - 4).map(|_| *r.pick(&[0, 1, 0x7F, 0x80, 0xFE, 0xFF])).collect(),
                    _ => (0..len - 4).map(|_| r.u8()).collect(),
                };
                let s = Raw { ty, handle: gen::handle(r), body, strings: gen::strings(r) };
                let before = r.below(3);
                let mut buf = Vec::new();
                for _ in 0..before {
                    gen::structure(r, 128).emit(&mut buf);
                }
                let at = buf.len();
                s.emit(&mut buf);
                let (strings, end) = (at + len, buf.len());
                for _ in 0..r.below(3) {
                    gen::structure(r, 17).emit(&mut buf);
                }
                let t = Table::exact(gen::version(r), buf);
                let sizes = [r.below(256), r.below(256), r.next() as usize];
                raw_one(c, &t, before, &model::Frame { at, ty, len: len as u8, handle: s.handle, strings, end }, &sizes)?;
            }
            Ok(())
        });
    }
}
