//! Numbers and texts the library's sources name (see literals.py), as hints for the workload.
use crate::rng::Rng;
use std::sync::OnceLock;

#[derive(Default)]
struct Dict {
    ints: Vec<u64>,
    texts: Vec<Vec<u8>>,
    new_ints: Vec<u64>,
    new_texts: Vec<Vec<u8>>,
}

static DICT: OnceLock<Dict> = OnceLock::new();

fn dict() -> &'static Dict {
    DICT.get_or_init(Dict::default)
}

pub fn load(path: &str) {
    let mut d = Dict::default();
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        let Some((k, v)) = l.split_once(' ') else { continue };
        match k {
            "i" => d.ints.extend(v.parse::<u64>()),
            "I" => d.new_ints.extend(v.parse::<u64>()),
            _ => {
                let b: Vec<u8> = (0..v.len() / 2).filter_map(|i| u8::from_str_radix(&v[2 * i..2 * i + 2], 16).ok()).collect();
                if b.is_empty() || b.contains(&0) {
                    continue;
                }
                if k == "S" {
                    d.new_texts.push(b)
                } else {
                    d.texts.push(b)
                }
            }
        }
    }
    let _ = DICT.set(d);
}

/// A number of the sources, now and then a neighbour of one.
pub fn int(r: &mut Rng) -> Option<u64> {
    let d = dict();
    let from = if !d.new_ints.is_empty() && r.chance(3, 4) { &d.new_ints } else { &d.ints };
    if from.is_empty() {
        return None;
    }
    let v = *r.pick(from);
    Some(match r.below(12) {
        0 => v.wrapping_add(1),
        1 => v.wrapping_sub(1),
        _ => v,
    })
}

pub fn int_in(r: &mut Rng, lo: usize, hi: usize) -> Option<usize> {
    for _ in 0..3 {
        let v = int(r)?;
        if (lo as u64..=hi as u64).contains(&v) {
            return Some(v as usize);
        }
    }
    None
}

pub fn text(r: &mut Rng) -> Option<Vec<u8>> {
    let d = dict();
    let from = if !d.new_texts.is_empty() && r.chance(3, 4) { &d.new_texts } else { &d.texts };
    if from.is_empty() {
        return None;
    }
    Some(r.pick(from).clone())
}

/// The numbers worth putting in every field: the unfamiliar ones, and those of more than 16 bits.
pub fn numbers() -> Vec<u128> {
    let d = dict();
    let mut v: Vec<u128> = d.new_ints.iter().flat_map(|x| [*x as u128, *x as u128 + 1, (*x as u128).saturating_sub(1)]).collect();
    v.extend(d.ints.iter().filter(|x| **x > 0xFFFF).map(|x| *x as u128));
    v
}
