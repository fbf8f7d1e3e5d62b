//! A process that has decoded nothing, to ask what it makes of some bytes.
//!
//! It is split off before the first decoding. For each question it splits off another, which
//! decodes that one table and answers with the digest of everything seen.
#[cfg(all(unix, not(miri), target_pointer_width = "64"))]
mod imp {
    use crate::gen::Table;
    use crate::props::whole;
    use std::panic::{catch_unwind, AssertUnwindSafe};
    use std::sync::atomic::{AtomicI32, Ordering::Relaxed};

    extern "C" {
        fn fork() -> i32;
        fn pipe(fds: *mut i32) -> i32;
        fn read(fd: i32, buf: *mut core::ffi::c_void, n: usize) -> isize;
        fn write(fd: i32, buf: *const core::ffi::c_void, n: usize) -> isize;
        fn close(fd: i32) -> i32;
        fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
        fn _exit(code: i32) -> !;
    }

    static TO: AtomicI32 = AtomicI32::new(-1);
    static FROM: AtomicI32 = AtomicI32::new(-1);

    fn take(fd: i32, n: usize) -> Option<Vec<u8>> {
        let mut b = vec![0u8; n];
        let mut at = 0;
        while at < n {
            let k = unsafe { read(fd, b[at..].as_mut_ptr().cast(), n - at) };
            if k <= 0 {
                return None;
            }
            at += k as usize;
        }
        Some(b)
    }
    fn give(fd: i32, b: &[u8]) -> bool {
        let mut at = 0;
        while at < b.len() {
            let k = unsafe { write(fd, b[at..].as_ptr().cast(), b.len() - at) };
            if k <= 0 {
                return false;
            }
            at += k as usize;
        }
        true
    }

    /// Call before anything is decoded, with one thread.
    pub fn start() {
        let (mut ask, mut say) = ([0i32; 2], [0i32; 2]);
        unsafe {
            if pipe(ask.as_mut_ptr()) != 0 || pipe(say.as_mut_ptr()) != 0 {
                return;
            }
            match fork() {
                0 => {
                    close(ask[1]);
                    close(say[0]);
                    serve(ask[0], say[1]);
                    _exit(0)
                }
                p if p > 0 => {
                    close(ask[0]);
                    close(say[1]);
                    TO.store(ask[1], Relaxed);
                    FROM.store(say[0], Relaxed);
                }
                _ => {}
            }
        }
    }

    fn serve(from: i32, to: i32) {
        while let Some(h) = take(from, 11) {
            let n = u32::from_le_bytes([h[7], h[8], h[9], h[10]]) as usize;
            let Some(buf) = take(from, n) else { return };
            let t = Table { ver: (h[0], h[1]), v3: h[2] != 0, declared: u32::from_le_bytes([h[3], h[4], h[5], h[6]]), buf };
            unsafe {
                match fork() {
                    0 => {
                        let (mut ok, mut d) = (0u8, 0u64);
                        match catch_unwind(AssertUnwindSafe(|| whole::digest(&t, &t.buf))) {
                            Ok(v) => d = v,
                            Err(_) => ok = 1,
                        }
                        let mut out = vec![ok];
                        out.extend(d.to_le_bytes());
                        give(to, &out);
                        _exit(0)
                    }
                    p if p > 0 => {
                        let mut st = 0;
                        waitpid(p, &mut st, 0);
                        if st != 0 {
                            // it did not live to answer
                            give(to, &[2; 9]);
                        }
                    }
                    _ => {
                        give(to, &[2; 9]);
                    }
                }
            }
        }
    }

    pub fn ask(t: &Table) -> Option<Result<u64, ()>> {
        let (to, from) = (TO.load(Relaxed), FROM.load(Relaxed));
        if to < 0 {
            return None;
        }
        let mut q = vec![t.ver.0, t.ver.1, t.v3 as u8];
        q.extend(t.declared.to_le_bytes());
        q.extend((t.buf.len() as u32).to_le_bytes());
        q.extend(&t.buf);
        let a = if give(to, &q) { take(from, 9) } else { None };
        let Some(a) = a else {
            TO.store(-1, Relaxed);
            return None;
        };
        match a[0] {
            0 => Some(Ok(u64::from_le_bytes([a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]]))),
            1 => Some(Err(())),
            _ => None,
        }
    }
}

#[cfg(not(all(unix, not(miri), target_pointer_width = "64")))]
mod imp {
    use crate::gen::Table;
    pub fn start() {}
    pub fn ask(_: &Table) -> Option<Result<u64, ()>> {
        None
    }
}

pub use imp::start;

use crate::ctx::{Ctx, R};
use crate::gen::Table;

/// What was seen here is what a process sees that has decoded nothing else.
pub fn same(c: &mut Ctx, t: &Table, here: u64) -> R {
    let Some(there) = imp::ask(t) else { return Ok(()) };
    c.count("inputs compared with a fresh process");
    match there {
        Ok(d) if d == here => Ok(()),
        Ok(_) => Err(c.fail("after other decodings, another result than in a process that has decoded nothing".into(), t.hex())),
        Err(()) => Err(c.fail("a panic in a process that has decoded nothing, none after other decodings".into(), t.hex())),
    }
}
