//! Decodes recorded tables and answers each with a digest of everything seen. It needs no library
//! of the host's, so that it can be built for a 32-bit host here and run; the same program built
//! for 64 bits must answer the same.
#![no_std]
#![no_main]
extern crate core as std;

use std::arch::{asm, global_asm};

#[path = "../../harness/src/touch.rs"]
#[allow(dead_code)]
mod touch;

pub mod obs {
    pub const ANY_HOST: bool = true;
    pub const MANY: usize = 300_000;
    /// offsets that mean the same on both hosts
    pub const FAR: [usize; 4] = [u32::MAX as usize - 20, u32::MAX as usize - 4, u32::MAX as usize - 1, u32::MAX as usize];
    pub fn bad_str(_: &str) -> ! {
        crate::end(4)
    }
}
pub mod gen {
    pub struct Table<'a> {
        pub buf: &'a [u8],
    }
}

#[cfg(target_arch = "x86")]
global_asm!(".globl _start", "_start:", "xor ebp, ebp", "and esp, -16", "call run");
#[cfg(target_arch = "x86_64")]
global_asm!(".globl _start", "_start:", "xor ebp, ebp", "and rsp, -16", "call run");

#[cfg(target_arch = "x86")]
fn sys(n: usize, a: usize, b: usize, c: usize) -> isize {
    let r: usize;
    unsafe {
        asm!("push ebx", "mov ebx, edi", "int 0x80", "pop ebx", inlateout("eax") n => r, in("edi") a, in("ecx") b, in("edx") c);
    }
    r as isize
}
#[cfg(target_arch = "x86_64")]
fn sys(n: usize, a: usize, b: usize, c: usize) -> isize {
    let r: usize;
    unsafe {
        asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, out("rcx") _, out("r11") _);
    }
    r as isize
}
#[cfg(target_arch = "x86")]
const CALLS: (usize, usize, usize) = (3, 4, 1);
#[cfg(target_arch = "x86_64")]
const CALLS: (usize, usize, usize) = (0, 1, 60);

static mut OUT: ([u8; 8192], usize) = ([0; 8192], 0);

fn flush() {
    unsafe {
        let (b, n) = &mut *(&raw mut OUT);
        let mut at = 0;
        while at < *n {
            let k = sys(CALLS.1, 1, b.as_ptr() as usize + at, *n - at);
            if k <= 0 {
                break;
            }
            at += k as usize;
        }
        *n = 0;
    }
}
fn answer(v: u64) {
    unsafe {
        let (b, n) = &mut *(&raw mut OUT);
        b[*n..*n + 8].copy_from_slice(&v.to_le_bytes());
        *n += 8;
        if *n == b.len() {
            flush();
        }
    }
}
pub fn end(code: usize) -> ! {
    flush();
    loop {
        sys(CALLS.2, code, 0, 0);
    }
}

#[panic_handler]
fn panic(_: &core::panic::PanicInfo<'_>) -> ! {
    end(101)
}

fn take(b: &mut [u8]) -> bool {
    let mut at = 0;
    while at < b.len() {
        let k = sys(CALLS.0, 0, b.as_mut_ptr() as usize + at, b.len() - at);
        if k <= 0 {
            return false;
        }
        at += k as usize;
    }
    true
}

const MOST: usize = 8 << 20;
static mut BUF: [u8; MOST] = [0; MOST];

fn entry(h: &[u8; 44]) -> dmidecode::EntryPoint {
    use dmidecode as d;
    let declared = u32::from_le_bytes([h[4], h[5], h[6], h[7]]);
    if h[2] != 0 {
        if let Ok(e) = d::EntryPoint::search(&h[12..12 + h[3] as usize]) {
            if e.smbios_len() == declared && (e.major(), e.minor()) == (h[0], h[1]) {
                return e;
            }
        }
    }
    d::EntryPoint::V2(d::EntryPointV2 {
        signature: u32::from_le_bytes(*b"_SM_"),
        checksum: 0,
        len: 31,
        major: h[0],
        minor: h[1],
        struct_max: 0,
        revision: 0,
        formatted: [0; 5],
        dmi_signature: *b"_DMI_",
        dmi_checksum: 0,
        smbios_len: declared.min(0xFFFF) as u16,
        smbios_address: 0,
        smbios_count: 0,
        bcd_revision: 0,
    })
}

/// Records: version, format, length of the entry point, declared length, length, entry point (32), bytes.
#[no_mangle]
extern "C" fn run() -> ! {
    let mut h = [0u8; 44];
    while take(&mut h) {
        let n = u32::from_le_bytes([h[8], h[9], h[10], h[11]]) as usize;
        let buf = unsafe { &mut *(&raw mut BUF) };
        if n > MOST || h[3] > 32 || !take(&mut buf[..n]) {
            end(3)
        }
        let mut k = touch::Sink::new();
        let t = gen::Table { buf: &buf[..n] };
        let e = entry(&h);
        touch::table(&t, &e, &mut k);
        answer(k.h);
    }
    end(0)
}
