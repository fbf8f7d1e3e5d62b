//! Field decoding against the reference (C08..C12) and version/length gating (C13).
use crate::ctx::{fnv, Ctx, R};
use crate::gen::{self, Raw, Table};
use crate::model::{self, Exp, Version};
use crate::obs::{self, ErrObs, Obs};
use crate::rng::Rng;

/// First structure of a table that holds exactly these bytes.
pub fn one<'a>(t: &'a Table) -> Option<Result<Obs<'a>, ErrObs>> {
    t.entry().structures(&t.buf).next().map(|i| match i {
        Ok(s) => Ok(obs::structure(&s)),
        Err(e) => Err(obs::err(&e)),
    })
}

pub fn diff(a: &Obs, b: &Obs) -> String {
    if a.kind != b.kind || a.handle != b.handle {
        return format!("got {} {:#06x}, expected {} {:#06x}", a.kind, a.handle, b.kind, b.handle);
    }
    let mut v = Vec::new();
    for (x, y) in a.fields.iter().zip(&b.fields) {
        if x.0 != y.0 {
            panic!("harness: field order of {}: {} {}", a.kind, x.0, y.0);
        }
        if x.1 != y.1 {
            v.push(format!("{}: got {:?}, expected {:?}", x.0, x.1, y.1));
        }
    }
    assert_eq!(a.fields.len(), b.fields.len(), "harness: fields of {}", a.kind);
    format!("{} {}", a.kind, v.join("; "))
}

/// What was seen, coarsely: type, version, length, outcome, which fields are there.
pub fn signature(ver: Version, f: &[u8], got: &Result<Obs, ErrObs>) -> u64 {
    let mut b = vec![f[0], f[1], ver.0, ver.1];
    match got {
        Ok(o) => b.extend(o.fields.iter().map(|x| x.1.is_absent() as u8)),
        Err(e) => b.push(match e {
            ErrObs::BadSize(..) => 0x81,
            ErrObs::Unterminated(..) => 0x82,
            ErrObs::Str(..) => 0x83,
            ErrObs::Slice => 0x84,
            ErrObs::Len(..) => 0x85,
        }),
    }
    fnv(&b)
}

/// Decode one structure and compare everything with the reference.
pub fn check(c: &mut Ctx, ver: Version, bytes: &[u8], flen: usize) -> R {
    let t = Table::exact(ver, bytes.to_vec());
    c.case(|| t.hex());
    let want = model::decode(ver, &bytes[..flen], &bytes[flen..]);
    let got = match one(&t) {
        Some(g) => g,
        None => return Err(c.fail("no structure was returned".into(), t.hex())),
    };
    c.eval(signature(ver, bytes, &got));
    match (&want, &got) {
        (Exp::Ok(w), Ok(g)) => {
            if w != g {
                let d = diff(g, w);
                return Err(c.fail(d, t.hex()));
            }
            c.sample(|| format!("{} -> {:?}", t.hex(), g));
            c.count(g.kind);
            c.add("fields compared", g.fields.len() as u64);
        }
        (Exp::Err(_), Err(_)) => c.count("refused, as expected"),
        (Exp::Ok(w), Err(g)) => {
            let d = format!("{} expected, refused with {g:?}", w.kind);
            return Err(c.fail(d, t.hex()));
        }
        (Exp::Err(w), Ok(g)) => {
            let d = format!("{} decoded, should be refused with one of {w:?}", g.kind);
            return Err(c.fail(d, t.hex()));
        }
    }
    Ok(())
}

fn check_raw(c: &mut Ctx, ver: Version, s: &Raw) -> R {
    check(c, ver, &s.bytes(), s.len())
}

/// A string set in which every small number has its own text.
fn named_strings(n: usize) -> Vec<Vec<u8>> {
    (1..=n).map(|i| format!("s{i}").into_bytes()).collect()
}

fn words(width: usize) -> Vec<u128> {
    let bits = width * 8;
    let mut v = vec![0u128, 1, 2, 3];
    for b in 0..bits {
        let p = 1u128 << b;
        v.extend([p.wrapping_sub(1), p, p + 1]);
    }
    let max = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    v.extend(crate::dict::numbers());
    v.extend([max, max - 1, max - 2, max / 3, max / 5 * 3]);
    v.retain(|x| *x <= max);
    v.sort();
    v.dedup();
    v
}

fn put(bytes: &mut [u8], off: usize, v: u128, width: usize) {
    for i in 0..width {
        if let Some(b) = bytes.get_mut(off + i) {
            *b = (v >> (8 * i)) as u8;
        }
    }
}

fn base(r: &mut Rng, ty: u8, len: usize, strings: usize) -> Raw {
    let mut s = Raw { ty, handle: gen::handle(r), body: gen::body(r, len - 4), strings: named_strings(strings) };
    gen::reconcile(r, &mut s);
    // reconciling may have resized it
    s.body.resize(len - 4, 0);
    s
}

/// A (version, length) in which the structure has all the fields it can have.
fn fullest(r: &mut Rng, ty: u8, ver: Version) -> Option<(usize, Raw)> {
    for len in gen::lengths(ty).iter().rev() {
        for _ in 0..20 {
            let s = base(r, ty, *len, 5);
            if let Exp::Ok(_) = model::decode(ver, &s.formatted(), &s.set()) {
                return Some((*len, s));
            }
        }
    }
    None
}

pub fn fields(c: &mut Ctx, types: &[u8]) {
    let all: Vec<Version> = gen::VERSIONS.iter().chain(gen::ODD_VERSIONS).copied().collect();
    for &ty in types {
        // every version, every length of interest and its neighbours: a few values at every offset
        let mut lens: Vec<usize> = gen::lengths(ty).iter().flat_map(|l| [l - 1, *l, l + 1]).filter(|l| *l >= 4).collect();
        lens.extend([4, 5, 64, 255]);
        lens.sort();
        lens.dedup();
        for &ver in &all {
            for &len in &lens {
                c.unit(|c, r| {
                    for round in 0..c.pick3(1, 2, 6) {
                        let n = if round == 0 { 4 } else { r.range(0, 6) };
                        let mut s = base(r, ty, len, n);
                        if round == 1 {
                            s.body = vec![0; len - 4];
                            gen::reconcile(r, &mut s);
                            s.body.resize(len - 4, 0);
                        }
                        let bytes = s.bytes();
                        check(c, ver, &bytes, len)?;
                        for off in 4..len.min(0x70) {
                            let mut b = bytes.clone();
                            for v in [0, 1, 0x7F, 0x80, 0xFE, 0xFF, r.u8(), r.u8()] {
                                if c.small && r.chance(9, 10) {
                                    continue;
                                }
                                b[off] = v;
                                check(c, ver, &b, len)?;
                            }
                        }
                    }
                    Ok(())
                });
            }
        }
        if c.small {
            continue;
        }
        // every value of every byte and of every pair of neighbouring bytes
        let vers: &[Version] = if c.thorough { &all } else { &[(2, 0), (2, 3), (2, 6), (2, 8), (3, 1), (3, 7)] };
        for &ver in vers {
            for &len in gen::lengths(ty) {
                c.unit(|c, r| {
                    let s = base(r, ty, len, 9);
                    let bytes = s.bytes();
                    for off in 4..len {
                        let mut b = bytes.clone();
                        for v in 0..=255u8 {
                            b[off] = v;
                            check(c, ver, &b, len)?;
                        }
                    }
                    Ok(())
                });
            }
        }
        let pairs: &[Version] = if c.thorough { &[(2, 0), (2, 1), (2, 5), (2, 8), (3, 7)] } else { &[(3, 7)] };
        let longest = *gen::lengths(ty).last().unwrap();
        for &ver in pairs {
            for off in 4..longest {
                c.unit(|c, r| {
                    let Some((len, s)) = fullest(r, ty, ver) else { return Ok(()) };
                    if off + 1 >= len {
                        return Ok(());
                    }
                    let mut b = s.bytes();
                    for v in 0..=0xFFFFu16 {
                        put(&mut b[..len], off, v as u128, 2);
                        check(c, ver, &b, len)?;
                    }
                    Ok(())
                });
            }
        }
        // boundary values of wider numbers
        for &ver in &all {
            c.unit(|c, r| {
                let Some((len, s)) = fullest(r, ty, ver) else { return Ok(()) };
                let bytes = s.bytes();
                for off in 4..len {
                    for width in [2, 4, 8] {
                        let mut b = bytes.clone();
                        for v in words(width) {
                            put(&mut b[..len], off, v, width);
                            check(c, ver, &b, len)?;
                        }
                    }
                }
                Ok(())
            });
        }
        // fields taken together
        let n = c.pick3(0, 40, 400);
        for _ in 0..n {
            c.unit(|c, r| {
                for _ in 0..c.pick3(1, 4000, 10000) {
                    let ver = gen::version(r);
                    let s = if r.chance(2, 3) { gen::fitting(r, ty, ver) } else { gen::structure(r, ty) };
                    check_raw(c, ver, &s)?;
                }
                Ok(())
            });
        }
    }
}

/// Accepted or refused, and with the fields it has, as the reference says.
pub fn present(c: &mut Ctx, ver: Version, bytes: &[u8], flen: usize) -> R {
    let t = Table::exact(ver, bytes.to_vec());
    c.case(|| t.hex());
    let want = model::decode(ver, &t.buf[..flen], &t.buf[flen..]);
    let Some(got) = one(&t) else {
        return Err(c.fail("no structure was returned".into(), t.hex()));
    };
    c.eval(signature(ver, &t.buf, &got));
    match (&want, &got) {
        (Exp::Ok(w), Ok(g)) => {
            for (x, y) in g.fields.iter().zip(&w.fields) {
                let open = |v: &obs::Val| v.is_absent() as usize;
                if open(&x.1) != open(&y.1) {
                    let d = format!(
                        "{} field {} of version {}.{} and length {:#x} is {}",
                        g.kind,
                        x.0,
                        ver.0,
                        ver.1,
                        flen,
                        if x.1.is_absent() { "missing" } else { "there, but is not part of it" }
                    );
                    return Err(c.fail(d, t.hex()));
                }
            }
            c.count("accepted");
            c.add("presence decisions", g.fields.len() as u64);
            c.sample(|| t.hex());
        }
        (Exp::Err(_), Err(_)) => c.count("refused"),
        (Exp::Ok(w), Err(g)) => {
            let d = format!("{} of version {}.{} and length {:#x} refused: {g:?}", w.kind, ver.0, ver.1, flen);
            return Err(c.fail(d, t.hex()));
        }
        (Exp::Err(w), Ok(g)) => {
            let d = format!(
                "{} of version {}.{} and length {:#x} accepted, should be {w:?}",
                g.kind,
                ver.0,
                ver.1,
                flen
            );
            return Err(c.fail(d, t.hex()));
        }
    }
    Ok(())
}

/// Whether a structure of this version and length is accepted, and which fields it then has.
pub fn gating(c: &mut Ctx) {
    let mut vers: Vec<Version> = Vec::new();
    for major in [2u8, 3, 4, 255] {
        for minor in [0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 31, 127, 128, 255] {
            vers.push((major, minor));
        }
    }
    // neither absent by value nor a string without text
    let patterns: &[u8] = &[0x00, 0x01, 0x11, 0xFE, 0xFF];
    let check = |c: &mut Ctx, ver: Version, s: &Raw| -> R { present(c, ver, &s.bytes(), s.len()) };
    let types: Vec<u8> = if c.thorough { (0..=255).collect() } else { model::TYPED.iter().copied().chain([5, 32, 126, 127, 128, 255]).collect() };
    for ty in types {
        for &ver in &vers {
            c.unit(|c, r| {
                for len in 4..=255usize {
                    if c.small && r.chance(39, 40) {
                        continue;
                    }
                    for (i, &p) in patterns.iter().enumerate() {
                        let mut s = Raw { ty, handle: 0x1234, body: vec![p; len - 4], strings: named_strings(255) };
                        if i == 2 {
                            gen::reconcile(r, &mut s);
                        }
                        if ty == 12 && len > 4 {
                            *s.at(4).unwrap() = 255;
                        }
                        if s.len() > 255 {
                            continue;
                        }
                        check(c, ver, &s)?;
                    }
                    let s = Raw { ty, handle: 0x1234, body: gen::body(r, len - 4), strings: named_strings(255) };
                    check(c, ver, &s)?;
                    let mut s = gen::structure(r, ty);
                    s.strings = named_strings(255);
                    gen::reconcile(r, &mut s);
                    if s.len() <= 255 {
                        check(c, ver, &s)?;
                    }
                }
                Ok(())
            });
        }
        // all minor versions at the lengths that matter
        for major in [2u8, 3] {
            c.unit(|c, r| {
                for minor in 0..=255u8 {
                    if c.small && r.chance(9, 10) {
                        continue;
                    }
                    for &len in gen::lengths(ty) {
                        for l in [len - 1, len, len + 1] {
                            if l < 4 {
                                continue;
                            }
                            let mut s = Raw { ty, handle: 7, body: gen::body(r, l - 4), strings: named_strings(255) };
                            gen::reconcile(r, &mut s);
                            check(c, (major, minor), &s)?;
                        }
                    }
                }
                Ok(())
            });
        }
    }
}
