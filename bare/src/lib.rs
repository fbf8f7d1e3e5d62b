//! A freestanding program using the library: no standard library, no allocator. It does not build
//! when the library brings in either.
#![no_std]

use core::fmt::{self, Write};

#[panic_handler]
fn panic(_: &core::panic::PanicInfo<'_>) -> ! {
    loop {}
}

struct Count(usize);
impl Write for Count {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}

/// # Safety
/// `p` points to `n` bytes.
#[no_mangle]
pub unsafe extern "C" fn bare_walk(p: *const u8, n: usize) -> usize {
    let buf = core::slice::from_raw_parts(p, n);
    let mut w = Count(0);
    match dmidecode::EntryPoint::search(buf) {
        Ok(e) => {
            for s in e.structures(buf) {
                let _ = match s {
                    Ok(s) => write!(w, "{s:?}"),
                    Err(e) => write!(w, "{e}"),
                };
            }
        }
        Err(e) => {
            let _ = write!(w, "{e}");
        }
    }
    w.0
}
