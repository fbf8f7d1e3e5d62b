//! Stepping through an iterator in every way `Iterator` offers, against the list it must yield.
use crate::rng::Rng;
use std::fmt::Debug;

/// No iterator looked at here has more items than this.
const MANY: usize = 1 << 20;

fn short<V: Debug>(v: &[V]) -> String {
    let s = format!("{} items {:?}", v.len(), &v[..v.len().min(4)]);
    s.chars().take(600).collect()
}

/// Run a random sequence of steps. `f` turns an item into what is compared.
pub fn run<I, V, F>(r: &mut Rng, it: I, want: &[V], f: F) -> Result<u64, String>
where
    I: Iterator + Clone,
    V: PartialEq + Debug + Clone,
    F: Fn(I::Item) -> V + Copy,
{
    let mut it = it;
    let mut pos = 0usize;
    let mut steps = 0;
    for _ in 0..r.range(2, 9) {
        let rest = &want[pos..];
        let n = if r.chance(1, 2) { r.below(4) } else { r.below(rest.len() + 3) };
        steps += 1;
        let bad = |what: &str, got: String, exp: String| Err(format!("after {pos} of {} items, {what} gave {got}, expected {exp}", want.len()));
        match r.below(16) {
            0 | 1 => {
                let g = it.next().map(f);
                if g.as_ref() != rest.first() {
                    return bad("next", format!("{g:?}"), format!("{:?}", rest.first()));
                }
                pos += g.is_some() as usize;
            }
            2..=4 => {
                let g = it.nth(n).map(f);
                if g.as_ref() != rest.get(n) {
                    return bad(&format!("nth({n})"), format!("{g:?}"), format!("{:?}", rest.get(n)));
                }
                pos = (pos + n + 1).min(want.len());
            }
            5 => {
                let g: Vec<V> = it.by_ref().take(n).map(f).collect();
                let e = &rest[..n.min(rest.len())];
                if g != e {
                    return bad(&format!("take({n})"), short(&g), short(e));
                }
                pos += e.len();
            }
            6 => {
                let g = it.by_ref().skip(n).next().map(f);
                if g.as_ref() != rest.get(n) {
                    return bad(&format!("skip({n})"), format!("{g:?}"), format!("{:?}", rest.get(n)));
                }
                pos = (pos + n + 1).min(want.len());
            }
            7 => {
                let g: Vec<V> = it.clone().step_by(n + 1).take(MANY).map(f).collect();
                let e: Vec<V> = rest.iter().step_by(n + 1).cloned().collect();
                if g != e {
                    return bad(&format!("step_by({})", n + 1), short(&g), short(&e));
                }
            }
            8 => {
                let g = it.clone().count();
                if g != rest.len() {
                    return bad("count", g.to_string(), rest.len().to_string());
                }
            }
            9 => {
                let g = it.clone().last().map(f);
                if g.as_ref() != rest.last() {
                    return bad("last", format!("{g:?}"), format!("{:?}", rest.last()));
                }
            }
            10 => {
                let mut g = Vec::new();
                it.clone().for_each(|x| g.push(f(x)));
                if g != rest {
                    return bad("for_each", short(&g), short(rest));
                }
            }
            11 => {
                let mut left = n as isize;
                let g = it.by_ref().find(|_| {
                    left -= 1;
                    left < 0
                });
                let g = g.map(f);
                if g.as_ref() != rest.get(n) {
                    return bad(&format!("find of item {n}"), format!("{g:?}"), format!("{:?}", rest.get(n)));
                }
                pos = (pos + n + 1).min(want.len());
            }
            12 => {
                let g: Vec<V> = it.clone().fold(Vec::new(), |mut a, x| {
                    a.push(f(x));
                    a
                });
                if g != rest {
                    return bad("fold", short(&g), short(rest));
                }
            }
            13 => {
                let (lo, hi) = it.size_hint();
                if lo > rest.len() || hi.is_some_and(|h| h < rest.len()) {
                    return bad("size_hint", format!("{lo}..{hi:?}"), rest.len().to_string());
                }
            }
            14 => {
                let g: Vec<V> = it.clone().skip(n).take(MANY).map(f).collect();
                let e = &rest[n.min(rest.len())..];
                if g != e {
                    return bad(&format!("skip({n})"), short(&g), short(e));
                }
            }
            _ => it = it.clone(),
        }
    }
    let rest = &want[pos..];
    let g: Vec<V> = it.by_ref().take(MANY).map(f).collect();
    if g != rest {
        return Err(format!("after {pos} of {} items the rest is {}, expected {}", want.len(), short(&g), short(rest)));
    }
    for _ in 0..2 {
        if let Some(x) = it.next() {
            return Err(format!("after the end: {:?}", f(x)));
        }
    }
    Ok(steps)
}
