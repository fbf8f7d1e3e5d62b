//! Buffers around and beyond 4 GiB (one filler chunk mapped over and over): offsets and lengths that
//! do not fit 32 bits.
use crate::ctx::{Ctx, R};
use crate::gen;
use crate::obs::{self, ErrObs};
use dmidecode as d;

const GIB4: usize = 1 << 32;

#[cfg(all(not(miri), target_pointer_width = "64", target_os = "linux"))]
mod map {
    extern "C" {
        fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
        fn munmap(addr: *mut u8, len: usize) -> i32;
        fn memfd_create(name: *const std::ffi::c_char, flags: u32) -> i32;
        fn ftruncate(fd: i32, len: i64) -> i32;
        fn close(fd: i32) -> i32;
    }
    const RW: i32 = 3;
    const SHARED: i32 = 1;
    const PRIVATE: i32 = 2;
    const FIXED: i32 = 0x10;
    const RESERVE: i32 = PRIVATE | 0x20 | 0x4000;
    const CHUNK: usize = 1 << 21;

    pub struct Giant(*mut u8, usize);

    impl Giant {
        /// `len` bytes of `fill`, a whole number of pages; nothing but what is written takes memory.
        pub fn new(len: usize, fill: u8) -> Option<Giant> {
            let failed = |p: *mut u8| p as isize == -1;
            unsafe {
                let base = mmap(std::ptr::null_mut(), len, 0, RESERVE, -1, 0);
                if failed(base) {
                    return None;
                }
                let g = Giant(base, len);
                let fd = memfd_create(c"giant".as_ptr(), 0);
                if fd < 0 {
                    return None;
                }
                let mut ok = ftruncate(fd, CHUNK as i64) == 0;
                if ok {
                    let w = mmap(std::ptr::null_mut(), CHUNK, RW, SHARED, fd, 0);
                    ok = !failed(w);
                    if ok {
                        std::ptr::write_bytes(w, fill, CHUNK);
                        munmap(w, CHUNK);
                    }
                }
                let mut at = 0;
                while ok && at < len {
                    let n = CHUNK.min(len - at);
                    ok = !failed(mmap(base.add(at), n, RW, PRIVATE | FIXED, fd, 0));
                    at += n;
                }
                close(fd);
                ok.then_some(g)
            }
        }
        pub fn bytes(&mut self) -> &mut [u8] {
            unsafe { std::slice::from_raw_parts_mut(self.0, self.1) }
        }
    }
    impl Drop for Giant {
        fn drop(&mut self) {
            unsafe { munmap(self.0, self.1) };
        }
    }
}
#[cfg(not(all(not(miri), target_pointer_width = "64", target_os = "linux")))]
mod map {
    pub struct Giant;
    impl Giant {
        pub fn new(_: usize, _: u8) -> Option<Giant> {
            None
        }
        pub fn bytes(&mut self) -> &mut [u8] {
            &mut []
        }
    }
}
use map::Giant;

/// Writes `b` at `at`.
fn put(g: &mut Giant, at: usize, b: &[u8]) {
    g.bytes()[at..at + b.len()].copy_from_slice(b);
}

fn entry() -> d::EntryPoint {
    d::EntryPoint::search(&gen::entry_v3((3, 4), u32::MAX, 0)).expect("a sound entry point")
}

enum Want {
    /// at, string length
    Raw(usize, usize),
    BadSize(u32, u8),
    Unterminated(u32),
}

fn walked(c: &mut Ctx, g: &mut Giant, want: &[Want], case: &str) -> R {
    c.case(|| case.into());
    let b: &[u8] = g.bytes();
    let base = b.as_ptr() as usize;
    let e = entry();
    let mut it = e.structures(b);
    for (n, w) in want.iter().enumerate() {
        let got = it.next();
        let ok = match (w, &got) {
            (Want::Raw(at, len), Some(Ok(d::Structure::Other(raw)))) => {
                let text = raw.find_string(1);
                raw.data.as_ptr() as usize == base + at + 4
                    && raw.data.len() + 4 == raw.length as usize
                    && match text {
                        Ok(t) => t.len() == *len && (*len == 0 || t.as_ptr() as usize == base + at + raw.length as usize),
                        Err(_) => *len == 0,
                    }
            }
            (Want::BadSize(at, len), Some(Err(err))) => obs::err(err) == ErrObs::BadSize(*at, *len),
            (Want::Unterminated(at), Some(Err(err))) => obs::err(err) == ErrObs::Unterminated(*at),
            _ => false,
        };
        c.eval(0);
        if !ok {
            let got = match got {
                None => "nothing".to_string(),
                Some(Ok(_)) => "another structure, or with other bytes or strings".into(),
                Some(Err(e)) => format!("{e:?}"),
            };
            return Err(c.fail(format!("item {n} of a table beyond 4 GiB: {got}"), case.into()));
        }
    }
    for _ in 0..2 {
        if it.next().is_some() {
            return Err(c.fail("a table beyond 4 GiB does not end".into(), case.into()));
        }
    }
    c.count("tables around 4 GiB");
    Ok(())
}

/// Walks.
pub fn tables(c: &mut Ctx) {
    if c.small {
        return;
    }
    // ends of the first structure: beyond 32 bits, at the last header that fits, just not fitting
    let ends: &[usize] = match c.prop.as_str() {
        // each takes seconds, and looks like 4 GiB of memory
        _ if c.thorough => &[GIB4 + 62, GIB4 - 5, GIB4 - 3, GIB4 - 1, GIB4],
        "C02" => &[GIB4 - 3],
        "C20" => &[GIB4 - 5],
        _ => &[GIB4 + 62],
    };
    for &end in ends {
        c.unit(|c, _| {
            let Some(mut g) = Giant::new(GIB4 + 4096, b'A') else { return Ok(()) };
            put(&mut g, 0, &[200, 4, 1, 0]);
            put(&mut g, end - 2, &[0, 0, 201, 6, 2, 0, 9, 9, 0, 0]);
            let mut want = vec![Want::Raw(0, end - 6)];
            if end == GIB4 - 5 {
                want.push(Want::BadSize(end as u32, 6));
            }
            walked(c, &mut g, &want, &format!("one structure of {end} bytes, another after it, 4 GiB + 4 KiB in all"))
        });
    }
    if c.thorough {
        c.unit(|c, _| {
            let Some(mut g) = Giant::new(GIB4 + 4096, b'A') else { return Ok(()) };
            put(&mut g, 0, &[200, 5, 1, 0, 7]);
            walked(c, &mut g, &[Want::Unterminated(0)], "a string area of 4 GiB without its end")
        });
    }
    c.unit(|c, _| {
        // 4 GiB + 4: a length that is 4 in 32 bits
        let Some(mut g) = Giant::new(GIB4 + 4096, 0) else { return Ok(()) };
        put(&mut g, 0, &[200, 4, 1, 0, b'x', 0, 0, 127, 4, 2, 0, 0, 0]);
        walked(c, &mut g, &[Want::Raw(0, 1), Want::Raw(7, 0)], "two structures at the start of 4 GiB")
    });
}

/// Searches.
pub fn searches(c: &mut Ctx) {
    if c.small {
        return;
    }
    let all = [(GIB4 + 16, GIB4 + 4096), (16, GIB4 + 4096), (0, GIB4 + 4096), (GIB4 - 16, GIB4 + 4096)];
    for &(at, size) in &all[..if c.thorough { 4 } else { 2 }] {
        c.unit(|c, _| {
            let Some(mut g) = Giant::new(size, 0xA5) else { return Ok(()) };
            let e = gen::entry_v3((3, 4), 0x1234_5678, 0);
            put(&mut g, at, &e);
            let case = format!("an entry point at {at:#x} of {size:#x} bytes");
            c.case(|| case.clone());
            c.eval(0);
            match d::EntryPoint::search(g.bytes()) {
                Ok(d::EntryPoint::V3(p)) if p.smbios_len_max == 0x1234_5678 => {
                    c.count("searches around 4 GiB");
                    Ok(())
                }
                o => Err(c.fail(format!("{o:?}"), case)),
            }
        });
    }
}
