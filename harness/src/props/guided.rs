//! Inputs steered by what the library did with earlier ones.
//!
//! In this build the library (and only it) reports the edges it takes and the operands it compares
//! (sancov, see ../../sancov). Inputs that made it do something new are kept and changed further,
//! among other things by writing into the buffer the value that a number found there was compared
//! with. Every input goes to the same judge as those of the property's own workload. A campaign has
//! a fixed number of inputs, and depends on VERIF_SEED and the build alone.
use crate::ctx::{fnv, Ctx, R};
use crate::dict;
use crate::fresh;
use crate::gen::{self, Raw, Table};
use crate::model;
use crate::props::{decode, tables, values, whole};
use crate::rng::Rng;

#[cfg(feature = "guided")]
mod cov {
    //! One thread runs a campaign; the callbacks see no other.
    use std::cell::UnsafeCell;

    pub const FEATURES: usize = 1 << 20;
    pub const EDGES: usize = 1 << 16;

    pub struct State {
        on: bool,
        next: u32,
        last: u32,
        nth: u32,
        epoch: u32,
        counts: [u8; EDGES],
        touched: Vec<u32>,
        epochs: Vec<u32>,
        feats: Vec<u32>,
        cmps: Vec<(u64, u64, u8)>,
        calls: u32,
    }
    struct Cell(UnsafeCell<State>);
    unsafe impl Sync for Cell {}
    static STATE: Cell = Cell(UnsafeCell::new(State {
        on: false,
        next: 0,
        last: 0,
        nth: 0,
        epoch: 0,
        counts: [0; EDGES],
        touched: Vec::new(),
        epochs: Vec::new(),
        feats: Vec::new(),
        cmps: Vec::new(),
        calls: 0,
    }));
    #[allow(clippy::mut_from_ref)]
    fn st() -> &'static mut State {
        unsafe { &mut *STATE.0.get() }
    }

    #[no_mangle]
    unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut start: *mut u32, stop: *mut u32) {
        let s = st();
        while start < stop {
            if *start == 0 {
                s.next += 1;
                *start = s.next;
            }
            start = start.add(1);
        }
    }
    #[no_mangle]
    unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
        let s = st();
        if !s.on {
            return;
        }
        let n = *g & (EDGES as u32 - 1);
        s.last = n;
        s.nth = 0;
        let c = &mut s.counts[n as usize];
        if *c == 0 {
            s.touched.push(n);
        }
        *c = c.saturating_add(1);
    }
    fn compared(a: u64, b: u64, width: u8) {
        let s = st();
        if !s.on {
            return;
        }
        s.nth += 1;
        let at = (s.last.wrapping_mul(0x9E37_79B1)) ^ s.nth.min(40).wrapping_mul(0x85EB_CA6B);
        let near = (a ^ b).count_ones();
        let far = 64 - a.abs_diff(b).leading_zeros();
        for f in [at.wrapping_add(near.wrapping_mul(0xC2B2_AE35)), at.wrapping_add((far + 100).wrapping_mul(0x27D4_EB2F))] {
            let f = f ^ (f >> 15);
            let f = f & (FEATURES as u32 - 1);
            if s.epochs[f as usize] != s.epoch {
                s.epochs[f as usize] = s.epoch;
                s.feats.push(f);
            }
        }
        if a != b {
            // the last ones, and some of the others
            s.calls = s.calls.wrapping_add(1);
            if s.cmps.len() < 256 {
                s.cmps.push((a, b, width));
            } else {
                let i = (s.calls.wrapping_mul(0x9E37_79B1) >> 24) as usize;
                s.cmps[i] = (a, b, width);
            }
        }
    }
    macro_rules! cmp {
        ($($n:ident $c:ident $t:ty, $w:expr;)*) => { $(
            #[no_mangle]
            extern "C" fn $n(a: $t, b: $t) {
                compared(a as u64, b as u64, $w)
            }
            #[no_mangle]
            extern "C" fn $c(a: $t, b: $t) {
                compared(b as u64, a as u64, $w)
            }
        )* };
    }
    cmp! {
        __sanitizer_cov_trace_cmp1 __sanitizer_cov_trace_const_cmp1 u8, 1;
        __sanitizer_cov_trace_cmp2 __sanitizer_cov_trace_const_cmp2 u16, 2;
        __sanitizer_cov_trace_cmp4 __sanitizer_cov_trace_const_cmp4 u32, 4;
        __sanitizer_cov_trace_cmp8 __sanitizer_cov_trace_const_cmp8 u64, 8;
    }
    #[no_mangle]
    unsafe extern "C" fn __sanitizer_cov_trace_switch(v: u64, cases: *const u64) {
        let s = st();
        if !s.on {
            return;
        }
        let n = *cases as usize;
        let width = (*cases.add(1) / 8) as u8;
        s.nth += 1;
        if n > 0 && s.cmps.len() < 256 {
            s.calls = s.calls.wrapping_add(1);
            let i = s.calls.wrapping_mul(0x9E37_79B1) as usize >> 8;
            let b = *cases.add(2 + i % n);
            if b != v {
                s.cmps.push((v, b, width.max(1)));
            }
        }
    }

    pub fn begin() {
        let s = st();
        if s.epochs.is_empty() {
            s.epochs = vec![0; FEATURES];
        }
        s.epoch += 1;
        for t in s.touched.drain(..) {
            s.counts[t as usize] = 0;
        }
        s.feats.clear();
        s.cmps.clear();
        s.calls = 0;
        s.last = 0;
        s.nth = 0;
        s.on = true;
    }
    /// Marks what was seen; true if some of it is new. Gives what was compared.
    pub fn end(seen: &mut Seen) -> (bool, Vec<(u64, u64, u8)>) {
        let s = st();
        s.on = false;
        let mut new = false;
        for t in &s.touched {
            let c = s.counts[*t as usize];
            let bucket = match c {
                0..=3 => c,
                4..=7 => 4,
                8..=15 => 5,
                16..=127 => 6,
                _ => 7,
            };
            let bit = 1u8 << (bucket & 7);
            let e = &mut seen.edges[*t as usize];
            if *e & bit == 0 {
                if *e == 0 {
                    seen.reached += 1;
                }
                *e |= bit;
                new = true;
            }
        }
        for f in &s.feats {
            if !seen.feats[*f as usize] {
                seen.feats[*f as usize] = true;
                seen.values += 1;
                new = true;
            }
        }
        (new, if new { s.cmps.clone() } else { Vec::new() })
    }
    pub fn edges() -> u64 {
        st().next as u64
    }
    pub struct Seen {
        edges: Vec<u8>,
        feats: Vec<bool>,
        pub reached: u64,
        pub values: u64,
    }
    impl Seen {
        pub fn new() -> Seen {
            Seen { edges: vec![0; EDGES], feats: vec![false; FEATURES], reached: 0, values: 0 }
        }
    }
}

#[cfg(not(feature = "guided"))]
mod cov {
    pub struct Seen {
        pub reached: u64,
        pub values: u64,
    }
    impl Seen {
        pub fn new() -> Seen {
            Seen { reached: 0, values: 0 }
        }
    }
    pub fn begin() {}
    pub fn end(_: &mut Seen) -> (bool, Vec<(u64, u64, u8)>) {
        (false, Vec::new())
    }
    pub fn edges() -> u64 {
        0
    }
}

#[derive(Clone)]
struct Input {
    t: Table,
    cmps: Vec<(u64, u64, u8)>,
}

fn raw_of(t: &Table, f: &model::Frame) -> Raw {
    let set = &t.buf[f.strings..f.end];
    Raw {
        ty: f.ty,
        handle: f.handle,
        body: t.buf[f.at + 4..f.strings].to_vec(),
        strings: model::string_ranges(set).iter().map(|(a, b)| set[*a..*b].to_vec()).collect(),
    }
}

/// Write where a number was found what it was compared with.
fn answer(r: &mut Rng, x: &mut Input) {
    if x.cmps.is_empty() {
        return;
    }
    let (a, b, width) = x.cmps[r.below(x.cmps.len())];
    let b = match r.below(8) {
        0 => b.wrapping_add(1),
        1 => b.wrapping_sub(1),
        _ => b,
    };
    let least = |v: u64| if v < 0x100 { 1 } else if v < 0x1_0000 { 2 } else if v < 0x1_0000_0000 { 4 } else { 8usize };
    // it may have been widened before it was compared
    let mut w = if r.chance(1, 2) { least(a) } else { width as usize };
    if r.chance(1, 4) {
        w = w.max(least(b)).min(8);
    }
    let pat = a.to_le_bytes();
    let new = b.to_le_bytes();
    let buf = &mut x.t.buf;
    if buf.len() >= w {
        let hits: Vec<usize> = (0..=buf.len() - w).filter(|i| buf[*i..*i + w] == pat[..w]).take(400).collect();
        if !hits.is_empty() {
            let at = *r.pick(&hits);
            buf[at..at + w].copy_from_slice(&new[..w]);
            if r.chance(2, 3) {
                return;
            }
        }
    }
    if a == x.t.ver.0 as u64 && (2..=255).contains(&b) && r.chance(1, 2) {
        x.t.ver.0 = b as u8;
    }
    if a == x.t.ver.1 as u64 && b <= 255 && r.chance(1, 2) {
        x.t.ver.1 = b as u8;
    }
    if a == x.t.declared as u64 && r.chance(1, 2) {
        x.t.declared = b as u32;
    }
    if r.chance(1, 8) {
        // the length of something
        resize(r, &mut x.t, b);
    }
}

fn resize(r: &mut Rng, t: &mut Table, want: u64) {
    let (frames, _) = model::walk(t.ver, t.declared, &t.buf);
    if frames.is_empty() || want > 3000 {
        return;
    }
    let f = &frames[r.below(frames.len())];
    let mut s = raw_of(t, f);
    match r.below(3) {
        0 => s.body.resize((want as usize).clamp(4, 255) - 4, 1),
        1 => {
            if let Some(x) = s.strings.first_mut() {
                x.resize((want as usize).max(1), b'r')
            }
        }
        _ => s.strings.resize((want as usize).min(300), b"more".to_vec()),
    }
    splice(t, f.at, f.end, &s.bytes());
}

/// Replace bytes of the table; a length that fitted goes on fitting.
fn splice(t: &mut Table, from: usize, to: usize, with: &[u8]) {
    let fits = t.declared as usize == t.buf.len();
    t.buf.splice(from..to, with.iter().copied());
    if fits {
        t.declared = t.buf.len() as u32;
        if t.declared > 0xFFFF {
            t.v3 = true;
        }
    }
}

fn change(r: &mut Rng, x: &mut Input, ty: u8, corpus: &[Input]) {
    let t = &mut x.t;
    match r.below(20) {
        0..=6 => answer(r, x),
        7 | 8 => {
            if !t.buf.is_empty() {
                let i = r.below(t.buf.len());
                t.buf[i] = r.byte();
            }
        }
        9 => {
            if let Some(v) = dict::int(r) {
                let w = 1 << r.below(4);
                if t.buf.len() >= w {
                    let i = r.below(t.buf.len() - w + 1);
                    t.buf[i..i + w].copy_from_slice(&v.to_le_bytes()[..w]);
                }
            }
        }
        10 => gen::damage(r, t),
        11 => t.ver = gen::version(r),
        _ => {
            // structure by structure
            let (frames, _) = model::walk(t.ver, t.declared, &t.buf);
            if frames.is_empty() {
                let s = gen::fitting(r, ty, t.ver);
                splice(t, 0, 0, &s.bytes());
                return;
            }
            let f = frames[r.below(frames.len())].clone();
            let mut s = raw_of(t, &f);
            match r.below(12) {
                0 if frames.len() > 1 => return splice(t, f.at, f.end, &[]),
                1 => {
                    let s = if r.chance(1, 2) { s } else { gen::fitting(r, ty, t.ver) };
                    let at = if r.chance(1, 2) { f.at } else { f.end };
                    return splice(t, at, at, &s.bytes());
                }
                2 => {
                    let other = gen::any_type(r);
                    let s = gen::fitting(r, other, t.ver);
                    let at = if r.chance(1, 2) { f.at } else { f.end };
                    return splice(t, at, at, &s.bytes());
                }
                3 => {
                    let n = gen::length(r, s.ty) - 4;
                    let fill = r.byte();
                    s.body.resize(n, fill)
                }
                4 => {
                    let n = (s.body.len() as i64 + r.range(0, 6) as i64 - 3).clamp(0, 251) as usize;
                    let fill = r.byte();
                    s.body.resize(n, fill)
                }
                5 => s.handle = gen::handle(r),
                6 => s.strings = gen::strings(r),
                7 => {
                    if s.strings.is_empty() {
                        s.strings.push(gen::utf8(r))
                    } else {
                        let i = r.below(s.strings.len());
                        s.strings[i] = if r.chance(1, 5) { gen::not_utf8(r) } else { gen::utf8(r) }
                    }
                }
                8 => gen::reconcile(r, &mut s),
                9 => {
                    let n = s.body.len();
                    s.body = gen::body(r, n)
                }
                10 if !corpus.is_empty() => {
                    // one of another table, before or after
                    let o = r.pick(corpus);
                    let (fs, _) = model::walk(o.t.ver, o.t.declared, &o.t.buf);
                    if let Some(g) = fs.get(r.below(fs.len().max(1))) {
                        let b = o.t.buf[g.at..g.end].to_vec();
                        let at = if r.chance(1, 2) { f.at } else { f.end };
                        return splice(t, at, at, &b);
                    }
                }
                _ => {
                    let offs = gen::string_offsets(s.ty, &s.body);
                    if !offs.is_empty() {
                        let o = *r.pick(&offs);
                        let v = r.below(s.strings.len() + 2) as u8;
                        if let Some(b) = s.at(o) {
                            *b = v
                        }
                    }
                }
            }
            if s.body.len() <= 251 {
                splice(t, f.at, f.end, &s.bytes());
            }
        }
    }
}

/// Make the sums of the entry points in a buffer right.
fn sums(buf: &mut [u8]) {
    for at in (0..buf.len()).step_by(16) {
        let e = &mut buf[at..];
        let (len_at, sum_at) = if e.starts_with(b"_SM_") {
            (5, 4)
        } else if e.starts_with(b"_SM3_") {
            (6, 5)
        } else {
            continue;
        };
        let Some(n) = e.get(len_at).map(|n| *n as usize) else { continue };
        if n > sum_at && n <= e.len() {
            gen::fix(&mut e[..n], sum_at);
        }
    }
}

fn each_frame(t: &Table, mut f: impl FnMut(&[u8], usize) -> R) -> R {
    let e = t.entry();
    let (frames, _) = model::walk(t.ver, tables::declared(t, &e), &t.buf);
    for fr in frames.iter().take(12) {
        f(&t.buf[fr.at..fr.end], fr.strings - fr.at)?;
    }
    Ok(())
}

fn judge(c: &mut Ctx, r: &mut Rng, t: &Table, before: Option<&Table>, types: &[u8]) -> R {
    let prop = c.prop.clone();
    match prop.as_str() {
        "C01" | "C02" => whole::use_all(c, r, t),
        "C04" => tables::framing_one(c, t),
        "C06" => tables::strings_one(c, t),
        "C07" => tables::locality_one(c, r, t),
        "C08" | "C09" | "C10" | "C11" | "C12" => each_frame(t, |b, n| if types.contains(&b[0]) { decode::check(c, t.ver, b, n) } else { Ok(()) }),
        "C13" => each_frame(t, |b, n| decode::present(c, t.ver, b, n)),
        "C17" => each_frame(t, |b, n| {
            let whole = Table::exact(t.ver, b.to_vec());
            let f = model::Frame { ty: b[0], len: n as u8, handle: u16::from_le_bytes([b[2], b[3]]), at: 0, strings: n, end: b.len() };
            let s = raw_of(&whole, &f);
            // what follows a string that is not UTF-8 is not claimed
            if matches!(s.ty, 11..=13) && s.strings.iter().any(|s| std::str::from_utf8(s).is_err()) {
                return Ok(());
            }
            tables::groups_one(c, r, t.ver, &s)
        }),
        "C18" => whole::edited(c, r, t),
        // only what they did is looked at; they are judged in the other builds
        "C19" => {
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| whole::digest(t, &t.buf)));
            c.eval(0);
            Ok(())
        }
        "C20" => tables::errors_one(c, t),
        "C21" => {
            let e = t.entry();
            let (frames, _) = model::walk(t.ver, tables::declared(t, &e), &t.buf);
            for (n, f) in frames.iter().enumerate().filter(|(_, f)| model::kind(f.ty) == "Other").take(2) {
                tables::raw_one(c, t, n, f, &[r.below(256), r.next() as usize])?;
            }
            Ok(())
        }
        "C22" => values::pair(c, t, before.unwrap_or(t)),
        _ => Ok(()),
    }
}

fn judge_search(c: &mut Ctx, buf: &[u8]) -> R {
    match c.prop.as_str() {
        "C01" | "C02" => whole::search_only(c, buf),
        "C19" => {
            let _ = std::panic::catch_unwind(|| crate::touch::search(buf, &mut crate::touch::Sink::new()).is_some());
            c.eval(0);
            Ok(())
        }
        "C20" => tables::search_report(c, buf),
        _ => tables::search_one(c, buf),
    }
}

fn campaign(c: &mut Ctx, r: &mut Rng, ty: u8, search: bool, inputs: usize, types: &[u8]) -> R {
    let mut seen = cov::Seen::new();
    let mut corpus: Vec<Input> = Vec::new();
    let first = 40;
    for n in 0..inputs {
        let mut parent = None;
        let mut x = if n < first || corpus.is_empty() {
            let t = if search {
                let v3 = r.chance(1, 2);
                let extra = r.below(3);
                let mut buf = vec![0u8; 16 * r.below(3)];
                buf.extend(tables::rnd_entry(r, v3, extra));
                buf.extend(vec![0u8; r.below(20)]);
                Table::exact((2, 8), buf)
            } else if n % 4 == 3 {
                let mut t = gen::table(r, 4);
                let s = gen::fitting(r, ty, t.ver);
                splice(&mut t, 0, 0, &s.bytes());
                t
            } else {
                let ver = gen::version(r);
                let s = if n % 2 == 0 { gen::fitting(r, ty, ver) } else { gen::structure(r, ty) };
                Table::exact(ver, s.bytes())
            };
            Input { t, cmps: Vec::new() }
        } else {
            let k = if r.chance(1, 2) { corpus.len() - 1 - r.below(corpus.len().min(20)) } else { r.below(corpus.len()) };
            parent = Some(k);
            corpus[k].clone()
        };
        if parent.is_some() {
            for _ in 0..1 + r.below(3) {
                if search && r.chance(2, 3) {
                    if r.chance(2, 3) {
                        answer(r, &mut x)
                    } else {
                        gen::damage(r, &mut x.t)
                    }
                } else {
                    change(r, &mut x, ty, &corpus)
                }
            }
        }
        if x.t.buf.len() > 6000 {
            continue;
        }
        if !search && x.t.ver.0 < 2 {
            x.t.ver.0 = 2;
        }
        if x.t.declared > 0xFFFF {
            x.t.v3 = true;
        }
        if search && r.chance(5, 6) {
            sums(&mut x.t.buf);
        }
        cov::begin();
        let out = if search { judge_search(c, &x.t.buf) } else { judge(c, r, &x.t, parent.map(|k| &corpus[k].t), types) };
        let (new, cmps) = cov::end(&mut seen);
        out?;
        if new {
            x.cmps = cmps;
            c.count("inputs kept");
            c.eval(fnv(&x.t.buf));
            if let Some(f) = &mut c.record {
                let _ = std::io::Write::write_all(f, &x.t.record());
            }
            if c.prop == "C18" {
                let d = whole::digest(&x.t, &x.t.buf);
                fresh::same(c, &x.t, d)?;
            }
            if corpus.len() < 3000 {
                corpus.push(x);
            } else {
                let i = r.below(corpus.len());
                corpus[i] = x;
            }
        }
    }
    if c.prop == "C18" {
        // those kept, after all the others
        for x in &corpus {
            let d = whole::digest(&x.t, &x.t.buf);
            fresh::same(c, &x.t, d)?;
        }
    }
    c.add("inputs tried", inputs as u64);
    c.max("edges reached in a campaign", seen.reached);
    c.max("edges of the library", cov::edges());
    c.max("distinct comparison outcomes in a campaign", seen.values);
    Ok(())
}

pub fn run(c: &mut Ctx) {
    let own: &[u8] = match c.prop.as_str() {
        "C08" => &[0, 1, 2, 3],
        "C09" => &[4, 7],
        "C10" => &[8, 9],
        "C11" => &[11, 12, 13, 14, 15],
        "C12" => &[16, 17, 18, 19, 20, 21, 22],
        "C17" => &[3, 9, 11, 12, 13, 14, 15],
        "C05" => &[],
        "C21" => &[5, 10, 32, 126, 127, 128, 200, 255],
        _ => &[0, 1, 2, 3, 4, 7, 8, 9, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 127, 128],
    };
    // so many campaigns that every core has some, and none is too short to get anywhere
    let rounds = (c.pick3(1, 24, 240) / own.len().max(1)).max(1);
    let inputs = match c.prop.as_str() {
        "C01" => c.pick3(50, 4_500, 100_000),
        "C21" => c.pick3(50, 5_000, 100_000),
        "C18" => c.pick3(50, 1_600, 30_000),
        "C19" => c.pick3(50, 4_000, 40_000),
        "C02" | "C04" | "C07" | "C17" => c.pick3(50, 20_000, 300_000),
        _ => c.pick3(50, 60_000, 600_000),
    };
    for _ in 0..rounds {
        for &ty in own {
            c.unit(|c, r| {
                let out = campaign(c, r, ty, false, inputs, own);
                let _ = cov::end(&mut cov::Seen::new());
                out
            });
        }
    }
    if matches!(c.prop.as_str(), "C01" | "C02" | "C05" | "C19" | "C20") {
        for _ in 0..c.pick3(1, 8, 40) {
            c.unit(|c, r| campaign(c, r, 0, true, inputs, own));
        }
    }
}
