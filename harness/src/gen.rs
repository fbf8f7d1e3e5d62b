//! Workloads: SMBIOS structures, tables and entry points, well-formed, odd and hostile.
use crate::dict;
use crate::model::{Version, TYPED};
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Raw {
    pub ty: u8,
    pub handle: u16,
    /// formatted area after the header
    pub body: Vec<u8>,
    pub strings: Vec<Vec<u8>>,
}

impl Raw {
    pub fn len(&self) -> usize {
        self.body.len() + 4
    }
    /// formatted area with header
    pub fn formatted(&self) -> Vec<u8> {
        let mut v = vec![self.ty, self.len() as u8, self.handle as u8, (self.handle >> 8) as u8];
        v.extend_from_slice(&self.body);
        v
    }
    pub fn set(&self) -> Vec<u8> {
        let mut v = Vec::new();
        for s in &self.strings {
            v.extend_from_slice(s);
            v.push(0);
        }
        v.push(0);
        if self.strings.is_empty() {
            v.push(0);
        }
        v
    }
    pub fn emit(&self, out: &mut Vec<u8>) {
        out.extend_from_slice(&self.formatted());
        out.extend_from_slice(&self.set());
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = Vec::new();
        self.emit(&mut v);
        v
    }
    /// byte at a specification offset
    pub fn at(&mut self, off: usize) -> Option<&mut u8> {
        self.body.get_mut(off.checked_sub(4)?)
    }
}

/// Lengths of the formatted area worth trying for a type: those of the specification's versions.
pub fn lengths(ty: u8) -> &'static [usize] {
    match ty {
        0 => &[0x12, 0x13, 0x14, 0x18, 0x1A, 0x1B],
        1 => &[8, 0x19, 0x1B],
        2 => &[8, 9, 0x0A, 0x0B, 0x0D, 0x0E, 0x0F, 0x13],
        3 => &[9, 0x0D, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x18, 0x19, 0x22],
        4 => &[0x1A, 0x20, 0x23, 0x28, 0x2A, 0x30, 0x32],
        7 => &[0x0F, 0x13, 0x1B, 0x1C],
        8 => &[9, 0x0A],
        9 => &[0x0C, 0x0D, 0x11, 0x12, 0x13, 0x18, 0x1C, 0x1D, 0x22],
        11 => &[5],
        12 => &[5],
        13 => &[0x15, 0x16],
        14 => &[5, 8, 0x0B, 0x0E, 0x0C],
        15 => &[0x14, 0x17, 0x19, 0x1B, 0x1D, 0x21],
        16 => &[0x0F, 0x17],
        17 => &[0x15, 0x1B, 0x1C, 0x20, 0x22, 0x28, 0x54, 0x5C, 0x64],
        18 => &[0x17],
        19 => &[0x0F, 0x1F],
        20 => &[0x13, 0x23],
        21 => &[7],
        22 => &[0x10, 0x1A],
        127 => &[4],
        _ => &[4, 5, 8, 0x10],
    }
}

/// Offsets that hold string numbers.
pub fn string_offsets(ty: u8, body: &[u8]) -> Vec<usize> {
    let b = |o: usize| body.get(o - 4).copied().unwrap_or(0) as usize;
    match ty {
        0 => vec![4, 5, 8],
        1 => vec![4, 5, 6, 7, 0x19, 0x1A],
        2 => vec![4, 5, 6, 7, 8, 0x0A],
        3 => vec![4, 6, 7, 8, 0x15 + b(0x13) * b(0x14)],
        4 => vec![4, 7, 0x10, 0x20, 0x21, 0x22],
        7 => vec![4],
        8 => vec![4, 6],
        9 | 14 => vec![4],
        17 => vec![0x10, 0x11, 0x17, 0x18, 0x19, 0x1A, 0x2B],
        22 => vec![4, 5, 6, 7, 8, 0x0E, 0x14],
        _ => vec![],
    }
}

/// Versions worth trying.
pub const VERSIONS: &[Version] = &[
    (2, 0),
    (2, 1),
    (2, 2),
    (2, 3),
    (2, 4),
    (2, 5),
    (2, 6),
    (2, 7),
    (2, 8),
    (3, 0),
    (3, 1),
    (3, 2),
    (3, 3),
    (3, 4),
    (3, 5),
    (3, 6),
    (3, 7),
];
pub const ODD_VERSIONS: &[Version] = &[(2, 9), (2, 31), (2, 255), (3, 8), (3, 31), (3, 255), (4, 0), (4, 1), (16, 2), (127, 127), (255, 0), (255, 255)];

pub fn version(r: &mut Rng) -> Version {
    if r.chance(1, 30) {
        if let Some(n) = dict::int_in(r, 0, 255) {
            return (r.range(2, 3) as u8, n as u8);
        }
    }
    if r.chance(1, 8) {
        *r.pick(ODD_VERSIONS)
    } else {
        *r.pick(VERSIONS)
    }
}

const WORDS: &[&str] = &[
    "LENOVO", "Dell Inc.", "ThinkPad X1", "1.0", "N/A", "To Be Filled By O.E.M.", "CPU0", "DIMM_A1", "BANK 0", "0x01",
    "Not Specified", "None", "Default string", "Unknown", "System Serial Number", "Not Available", "OEM", "0", "00000000",
    "\t", "\n", "\r\n", " x", "x ", "\u{FEFF}x", "\u{200B}", "\u{A0}", "\u{FFFD}", "a|b,c;d", "%s%n", "../", "\\", "\"q\"",
    " ", "é", "漢字", "😀", "a\u{301}", "\u{7f}", "\u{1}", "en|US|iso8859-1", "12/25/2024",
];

/// What a text may begin or end with that somebody may want to tidy away.
const EDGES: &[&str] = &[
    " ", "  ", "\t", "\n", "\r", "\r\n", "\u{FEFF}", "\u{200B}", "\u{A0}", "\u{2028}", "\u{3000}", "\u{1}", "\u{7f}", "\u{FFFD}", ".", "\"", "'", "_", "0", "\u{1b}",
    "\u{b}", "\u{c}", "\u{85}", "\u{301}", "#", "/", "\\", "-", "?", "*",
];

pub fn utf8(r: &mut Rng) -> Vec<u8> {
    let mut s = plain(r);
    if r.chance(1, 6) {
        for _ in 0..r.range(1, 3) {
            let e = r.pick(EDGES).as_bytes();
            if r.chance(1, 2) {
                s.extend_from_slice(e);
            } else {
                s.splice(..0, e.iter().copied());
            }
        }
    }
    if r.chance(1, 60) {
        s.make_ascii_uppercase();
    }
    s
}

fn plain(r: &mut Rng) -> Vec<u8> {
    if r.chance(1, 8) {
        if let Some(t) = dict::text(r) {
            return t;
        }
    }
    if r.chance(1, 40) {
        if let Some(n) = dict::int_in(r, 1, 5000) {
            return if r.chance(1, 3) { n.to_string().into_bytes() } else { vec![b'a' + (n % 26) as u8; n.min(if crate::touch::lean() { 64 } else { 5000 })] };
        }
    }
    match r.below(8) {
        0..=4 => r.pick(WORDS).as_bytes().to_vec(),
        5 => vec![b'x'; r.range(1, 70)],
        6 => (0..r.range(1, 12)).map(|_| r.range(1, 127) as u8).collect(),
        _ => {
            let mut s = String::new();
            for _ in 0..r.range(1, 6) {
                s.push(char::from_u32(r.range(1, 0x10FFFF) as u32).unwrap_or('\u{FFFD}'));
            }
            s.into_bytes()
        }
    }
}

pub fn not_utf8(r: &mut Rng) -> Vec<u8> {
    match r.below(6) {
        0 => vec![0xFF],
        1 => vec![b'a', 0xC3],
        2 => vec![0xC0, 0x80],
        3 => vec![0xED, 0xA0, 0x80],
        4 => vec![0xF4, 0x90, 0x80, 0x80],
        _ => {
            let mut v = utf8(r);
            let i = r.below(v.len() + 1);
            v.insert(i, r.range(0x80, 0xFF) as u8);
            v
        }
    }
}

pub fn strings(r: &mut Rng) -> Vec<Vec<u8>> {
    let n = match r.below(40) {
        0..=5 => 0,
        6..=33 => r.range(1, 9),
        34..=36 => r.range(10, 40),
        37 if r.chance(1, 2) => dict::int_in(r, 0, 300).unwrap_or(254),
        37 => *r.pick(&[254, 255, 256, 300]),
        _ => r.range(41, 253),
    };
    let lean = crate::touch::lean();
    let n = if lean { n.min(6) } else { n };
    let bad = r.chance(1, 8);
    (0..n)
        .map(|_| {
            if bad && r.chance(1, 4) {
                not_utf8(r)
            } else if !lean && r.chance(1, 200) {
                vec![b'L'; r.range(200, 3000)]
            } else {
                utf8(r)
            }
        })
        .collect()
}

/// A handle: any, or one of those that might be thought special.
pub fn handle(r: &mut Rng) -> u16 {
    match r.below(16) {
        0 => *r.pick(&[0, 1, 0xFFFE, 0xFFFF, 0xFFFD, 0xFEFF, 0x8000, 0x7FFF]),
        1 => r.below(64) as u16,
        2 | 3 => match dict::int(r) {
            Some(v) if r.chance(1, 2) => v as u16,
            Some(v) if r.chance(1, 2) => (v as u16) << 8 | r.u8() as u16,
            Some(v) => v as u8 as u16 | (r.u8() as u16) << 8,
            None => 0,
        },
        _ => r.next() as u16,
    }
}

pub fn body(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut b = filled(r, n);
    if n > 0 && r.chance(1, 4) {
        for _ in 0..r.range(1, 4) {
            let Some(v) = dict::int(r) else { break };
            let least = match v {
                0..=0xFF => 1,
                0x100..=0xFFFF => 2,
                0x1_0000..=0xFFFF_FFFF => 4,
                _ => 8,
            };
            let width = least << r.below(2);
            let at = r.below(n);
            let v = if r.chance(1, 8) { v.to_be_bytes() } else { v.to_le_bytes() };
            for (i, x) in v.iter().take(width).enumerate() {
                if let Some(y) = b.get_mut(at + i) {
                    *y = *x;
                }
            }
        }
    }
    b
}

fn filled(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(12) {
        0 => vec![0; n],
        1 => vec![0xFF; n],
        2 => (4..n + 4).map(|i| i as u8).collect(),
        3..=6 => (0..n).map(|_| r.u8()).collect(),
        _ => (0..n).map(|_| r.byte()).collect(),
    }
}

pub fn length(r: &mut Rng, ty: u8) -> usize {
    match r.below(20) {
        0..=13 => *r.pick(lengths(ty)),
        14..=16 => {
            let l = *r.pick(lengths(ty)) as isize + r.range(0, 8) as isize - 4;
            l.clamp(4, 255) as usize
        }
        17 => r.range(4, 64),
        18 => *r.pick(&[4, 254, 255]),
        _ if r.chance(1, 2) => dict::int_in(r, 4, 255).unwrap_or(4),
        _ => r.range(4, 255),
    }
}

/// Make counts and sizes agree with the length, string numbers with the strings.
pub fn reconcile(r: &mut Rng, s: &mut Raw) {
    let len = s.len();
    match s.ty {
        3 if len >= 0x15 => {
            let room = len - 0x15;
            let (n, m) = match r.below(6) {
                0 => (0, r.u8() as usize),
                1 => (r.u8() as usize, 0),
                2 => (r.below(6), 3),
                _ => {
                    let m = r.range(1, 6);
                    (r.below(room / m + 1), m)
                }
            };
            if n * m > room && r.chance(7, 8) && 0x15 + n * m < 255 {
                s.body.resize(0x11 + n * m + r.below(2), 0);
                let from = 0x11.min(s.body.len());
                for b in &mut s.body[from..] {
                    *b = r.u8();
                }
            }
            *s.at(0x13).unwrap() = n as u8;
            *s.at(0x14).unwrap() = m as u8;
        }
        9 if len >= 0x13 => {
            let room = (len - 0x13) / 5;
            let n = if r.chance(1, 10) { r.u8() as usize } else { r.below(room + 2) };
            *s.at(0x12).unwrap() = n as u8;
        }
        12 if len >= 5 => *s.at(4).unwrap() = s.strings.len() as u8,
        15 if len >= 0x17 => {
            let room = len - 0x17;
            let (mut x, mut y) = (0, 0);
            if room > 0 {
                let mut d: Vec<usize> = (1..=room).filter(|d| room % d == 0).collect();
                d.push(2);
                y = *r.pick(&d);
                x = room / y;
            } else if r.chance(1, 2) {
                if r.chance(1, 2) {
                    x = r.u8() as usize
                } else {
                    y = r.u8() as usize
                }
            }
            *s.at(0x15).unwrap() = x as u8;
            *s.at(0x16).unwrap() = y as u8;
        }
        _ => {}
    }
    let n = s.strings.len().min(255);
    for off in string_offsets(s.ty, &s.body) {
        if off >= s.len() || r.chance(1, 40) {
            continue;
        }
        let v = if r.chance(1, 6) { 0 } else { r.range(0, n) as u8 };
        *s.at(off).unwrap() = v;
    }
}

pub fn any_type(r: &mut Rng) -> u8 {
    match r.below(12) {
        0 if r.chance(1, 2) => dict::int_in(r, 0, 255).unwrap_or(130) as u8,
        0 => r.u8(),
        1 => *r.pick(&[5, 6, 10, 23, 32, 126, 127, 128, 221, 255]),
        _ => *r.pick(TYPED),
    }
}

pub fn structure(r: &mut Rng, ty: u8) -> Raw {
    let n = length(r, ty) - 4;
    let mut s = Raw { ty, handle: handle(r), body: body(r, n), strings: strings(r) };
    if r.chance(9, 10) {
        reconcile(r, &mut s);
    }
    s
}

/// As `structure`, with a length its version asks for where there is one.
pub fn fitting(r: &mut Rng, ty: u8, ver: Version) -> Raw {
    let mut s = structure(r, ty);
    let want = match ty {
        9 if ver < (2, 1) => 0x0C,
        9 if ver < (2, 6) => 0x0D,
        9 if ver < (3, 2) => 0x11,
        15 if ver < (2, 1) => 0x14,
        19 if ver >= (2, 7) => 0x1F,
        19 => 0x0F,
        20 if ver >= (2, 7) => 0x23,
        20 => 0x13,
        22 if ver >= (2, 2) => 0x1A,
        22 => 0x10,
        _ => return s,
    };
    let n = want - 4;
    s.body = body(r, n);
    reconcile(r, &mut s);
    s
}

/// An entry point and the table it describes.
#[derive(Clone, Debug)]
pub struct Table {
    /// 64-bit entry point
    pub v3: bool,
    pub ver: Version,
    pub declared: u32,
    pub buf: Vec<u8>,
}

pub fn entry_v2(ver: Version, declared: u16, extra: usize) -> Vec<u8> {
    let mut e = vec![0u8; 31 + extra];
    e[..4].copy_from_slice(b"_SM_");
    e[5] = e.len() as u8;
    e[6] = ver.0;
    e[7] = ver.1;
    e[0x10..0x15].copy_from_slice(b"_DMI_");
    e[0x16..0x18].copy_from_slice(&declared.to_le_bytes());
    fix(&mut e, 4);
    e
}

pub fn entry_v3(ver: Version, declared: u32, extra: usize) -> Vec<u8> {
    let mut e = vec![0u8; 24 + extra];
    e[..5].copy_from_slice(b"_SM3_");
    e[6] = e.len() as u8;
    e[7] = ver.0;
    e[8] = ver.1;
    e[0x0C..0x10].copy_from_slice(&declared.to_le_bytes());
    fix(&mut e, 5);
    e
}

/// Make the bytes of `e` sum to zero through its checksum byte.
pub fn fix(e: &mut [u8], at: usize) {
    e[at] = 0;
    let sum = e.iter().fold(0u8, |a, b| a.wrapping_add(*b));
    e[at] = sum.wrapping_neg();
}

impl Table {
    /// A table that holds exactly these bytes.
    pub fn exact(ver: Version, buf: Vec<u8>) -> Table {
        Table { v3: ver.0 >= 3 || buf.len() > 0xFFFF, ver, declared: buf.len() as u32, buf }
    }
    /// The library's entry point for it. A 64-bit one can only come from a search; if that does
    /// not work (another property's business), the 32-bit one stands in.
    /// As /verif/host reads it.
    pub fn record(&self) -> Vec<u8> {
        let mut e = entry_v3(self.ver, self.declared, 0);
        let n = e.len() as u8;
        e.resize(32, 0);
        let mut v = vec![self.ver.0, self.ver.1, self.v3 as u8, n];
        v.extend(self.declared.to_le_bytes());
        v.extend((self.buf.len() as u32).to_le_bytes());
        v.extend(e);
        v.extend(&self.buf);
        v
    }
    /// The first of some records, and the others.
    pub fn recorded(b: &[u8]) -> Option<(Table, &[u8])> {
        let word = |at: usize| Some(u32::from_le_bytes(b.get(at..at + 4)?.try_into().ok()?));
        let n = word(8)? as usize;
        let buf = b.get(44..44 + n)?.to_vec();
        Some((Table { ver: (b[0], b[1]), v3: b[2] != 0, declared: word(4)?, buf }, &b[44 + n..]))
    }
    pub fn entry(&self) -> dmidecode::EntryPoint {
        if self.v3 {
            let bytes = entry_v3(self.ver, self.declared, 0);
            if let Ok(Ok(e)) = std::panic::catch_unwind(|| dmidecode::EntryPoint::search(&bytes)) {
                if e.smbios_len() == self.declared && (e.major(), e.minor()) == self.ver {
                    return e;
                }
            }
        }
        dmidecode::EntryPoint::V2(dmidecode::EntryPointV2 {
            signature: u32::from_le_bytes(*b"_SM_"),
            checksum: 0,
            len: 31,
            major: self.ver.0,
            minor: self.ver.1,
            struct_max: 0,
            revision: 0,
            formatted: [0; 5],
            dmi_signature: *b"_DMI_",
            dmi_checksum: 0,
            smbios_len: self.declared.min(0xFFFF) as u16,
            smbios_address: 0,
            smbios_count: 0,
            bcd_revision: 0,
        })
    }
    /// What the entry point of `entry` says the length is.
    pub fn hex(&self) -> String {
        let n = self.buf.len().min(4096);
        format!(
            "version {}.{} {} declared {} buffer[{}] {}{}",
            self.ver.0,
            self.ver.1,
            if self.v3 { "64-bit" } else { "32-bit" },
            self.declared,
            self.buf.len(),
            hex(&self.buf[..n]),
            if n < self.buf.len() { "..." } else { "" }
        )
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// A table of well-formed structures (each decodes or is refused on its own account).
pub fn table(r: &mut Rng, most: usize) -> Table {
    let ver = version(r);
    let mut buf = Vec::new();
    let n = r.range(0, most);
    let one = if r.chance(1, 4) { Some(any_type(r)) } else { None };
    for _ in 0..n {
        let ty = one.unwrap_or_else(|| any_type(r));
        if r.chance(1, 2) {
            fitting(r, ty, ver).emit(&mut buf)
        } else {
            structure(r, ty).emit(&mut buf)
        }
    }
    if r.chance(1, 2) {
        Raw { ty: 127, handle: handle(r), body: vec![], strings: vec![] }.emit(&mut buf);
    }
    let exact = buf.len();
    if r.chance(1, 3) {
        for _ in 0..r.below(40) {
            buf.push(if r.chance(1, 2) { 0 } else { r.byte() });
        }
    }
    let declared = match r.below(10) {
        0..=5 => exact as u32,
        6 => buf.len() as u32,
        7 => r.below(buf.len() + 2) as u32,
        8 => buf.len() as u32 + r.range(1, 600) as u32,
        _ => *r.pick(&[0, 1, 3, 4, 5, 0xFFFF, 0x1_0000, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF]),
    };
    let v3 = declared > 0xFFFF || (ver.0 >= 3) != r.chance(1, 8);
    Table { v3, ver, declared, buf }
}

/// Any of the ways in which firmware or an attacker damages a table.
pub fn damage(r: &mut Rng, t: &mut Table) {
    for _ in 0..r.range(1, 4) {
        let n = t.buf.len();
        if n == 0 {
            return;
        }
        match r.below(9) {
            0 => t.buf.truncate(r.below(n + 1)),
            1 | 2 => {
                let i = r.below(n);
                t.buf[i] = r.byte()
            }
            3 => {
                let i = r.below(n);
                t.buf[i] ^= 1 << r.below(8)
            }
            4 => {
                let i = r.below(n);
                t.buf.remove(i);
            }
            5 => {
                let i = r.below(n + 1);
                let b = r.byte();
                t.buf.insert(i, b)
            }
            6 => {
                // no terminator anywhere after a point
                let i = r.below(n);
                for b in &mut t.buf[i..] {
                    if *b == 0 {
                        *b = 1
                    }
                }
            }
            7 => {
                let i = r.below(n);
                let m = r.below(30).min(n - i);
                for b in &mut t.buf[i..i + m] {
                    *b = 0
                }
            }
            _ => {
                t.declared = r.below(n + 20) as u32;
                t.v3 = r.chance(1, 2)
            }
        }
    }
}

/// Bytes with no table in mind.
pub fn noise(r: &mut Rng) -> Table {
    let n = match r.below(4) {
        0 => r.below(16),
        1 => r.below(80),
        _ => r.below(600),
    };
    let buf: Vec<u8> = match r.below(3) {
        0 => (0..n).map(|_| r.u8()).collect(),
        1 => (0..n).map(|_| r.byte()).collect(),
        _ => (0..n).map(|_| if r.chance(1, 3) { 0 } else { r.below(24) as u8 }).collect(),
    };
    let ver = version(r);
    let declared = match r.below(3) {
        0 => n as u32,
        1 => r.below(n + 10) as u32,
        _ => 0xFFFF_FFFF,
    };
    Table { v3: declared > 0xFFFF || r.chance(1, 2), ver, declared, buf }
}

static DUMPS: &[&[u8]] = &[
    include_bytes!("../corpus/dmi.0.bin"),
    include_bytes!("../corpus/dmi.bin"),
    include_bytes!("../corpus/dmi_v3.bin"),
    include_bytes!("../corpus/dmi_v3_short.bin"),
];

/// A table a machine really had.
pub fn dump(r: &mut Rng) -> Table {
    let buf = r.pick(DUMPS).to_vec();
    let ver = version(r);
    Table { v3: r.chance(1, 2), ver, declared: buf.len() as u32, buf }
}

/// The mix used where any table will do.
pub fn any(r: &mut Rng) -> Table {
    let mut t = match r.below(20) {
        0..=10 => table(r, 6),
        11..=13 => table(r, 2),
        14 => table(r, 25),
        15 => noise(r),
        _ => dump(r),
    };
    if r.chance(1, 3) {
        damage(r, &mut t);
    }
    t
}
