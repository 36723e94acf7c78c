//! Workload bias: constants the code under test compares with that the tree
//! this was built for does not (vlib.dictionary counts them; compiled in as
//! VMON_DICT).  They only steer which texts are tried; the oracles never see
//! them.  Empty on the original tree.
use crate::api::*;
use crate::core::*;
use crate::oracle;
use std::sync::OnceLock;

pub struct Dict {
    /// one list per literal, class of characters or pair of neighbouring literals
    chars: Vec<Vec<u32>>,
    pub nums: Vec<u64>,
}
/// The dictionary, if there is one.
pub fn dict() -> Option<&'static Dict> {
    static D: OnceLock<Option<Dict>> = OnceLock::new();
    D.get_or_init(|| parse(option_env!("VMON_DICT").unwrap_or(""))).as_ref()
}
fn parse(s: &str) -> Option<Dict> {
    let mut d = Dict { chars: vec![], nums: vec![] };
    let ok = |c: u32| char::from_u32(c).is_some();
    for part in s.split(';').filter(|p| p.len() > 2) {
        let (kind, list) = part.split_at(2);
        match kind {
            "c=" => {
                let mut v: Vec<u32> = list.split(',').filter_map(|x| u32::from_str_radix(x, 16).ok()).filter(|c| *c < 0x110000).collect();
                v.sort();
                for w in v.windows(2) {
                    if w[1] - w[0] > 1 && w[1] - w[0] <= 0x400 {
                        d.chars.push((w[0]..=w[1]).filter(|c| ok(*c)).collect());
                    }
                }
                for c in v {
                    d.chars.push(vec![c, c, c, c, c, c, c.saturating_sub(1), c + 1].into_iter().filter(|c| ok(*c)).collect());
                }
            }
            "n=" => d.nums = list.split(',').filter_map(|x| x.parse().ok()).collect(),
            _ => {
                for p in list.split(',') {
                    let table = |n: &str| oracle::prop(n);
                    let (prop, keep): (_, Box<dyn Fn(&str) -> bool>) = match p.split_once("::") {
                        Some((e, v)) => {
                            let Some(o) = ENUMS.iter().find(|o| o.name.eq_ignore_ascii_case(e)) else { continue };
                            let Some(k) = (0..(o.values)().len()).find(|k| (o.value_dbg)(*k) == v) else { continue };
                            let val = (o.values)()[k];
                            (table(o.name), Box::new(move |x| x == val))
                        }
                        None if BOOLS.iter().any(|b| b.name == p) => (table(p), Box::new(|x| x == "1")),
                        None => continue,
                    };
                    let all: Vec<u32> = (0..0x110000).filter(|c| ok(*c) && keep(prop.at(*c))).collect();
                    let step = 1 + all.len() / 400;
                    d.chars.push(all.iter().copied().step_by(step).collect());
                }
            }
        }
    }
    d.chars.retain(|v| !v.is_empty());
    (!d.chars.is_empty() || !d.nums.is_empty()).then_some(d)
}
impl Dict {
    pub fn one(&self, r: &mut Rng, other: &mut dyn FnMut(&mut Rng) -> u32) -> u32 {
        if self.chars.is_empty() {
            return other(r);
        }
        let k = r.below(self.chars.len());
        r.pick(&self.chars[k])
    }
    /// A number near one of the literals.
    pub fn near(&self, r: &mut Rng) -> Option<u64> {
        if self.nums.is_empty() {
            return None;
        }
        let n = r.pick(&self.nums);
        Some(match r.below(8) {
            0 => n,
            1 | 2 => n.wrapping_add(1),
            3 => n.wrapping_sub(1),
            4 => n.wrapping_add(2 + r.below(40) as u64),
            5 => n.wrapping_mul(2).wrapping_add(r.below(3) as u64),
            6 => n / 2 + r.below(2) as u64,
            _ => n.wrapping_add(r.below(3) as u64),
        })
    }
    /// A length: often about one of the literals.
    fn len(&self, r: &mut Rng) -> usize {
        let most = if r.chance(300) { 140_000 } else if r.chance(60) { 10_000 } else { 3_000 };
        match (r.below(5), self.near(r)) {
            (0 | 1, Some(n)) if n > 0 && n <= most => n as usize,
            (0..=2, _) => 1 + r.below(8),
            (3, _) => 6 + r.below(30),
            _ => 36 + r.below(120),
        }
    }
    /// A text of the characters of the dictionary and others.
    pub fn text(&self, r: &mut Rng, other: &mut dyn FnMut(&mut Rng) -> u32) -> Vec<u32> {
        let len = self.len(r);
        let mut v = Vec::with_capacity(len + 4);
        let filler = if r.chance(3) { self.one(r, other) } else if r.chance(2) { r.pick(&[0x61, 0x20, 0xE01, 0x4E00, 0xAC00, 0x301, 0x1F468, 0x915, 0xE9]) } else { other(r) };
        match r.below(7) {
            // nothing else
            0 => while v.len() < len { v.push(self.one(r, other)) },
            // one of them in a row
            1 => {
                let c = self.one(r, other);
                v.resize(len, c);
                if r.chance(2) { v.push(self.one(r, other)) }
                if r.chance(3) { v.insert(0, other(r)) }
            }
            // periodic
            2 => {
                let unit: Vec<u32> = (0..1 + r.below(4)).map(|_| if r.chance(4) { other(r) } else { self.one(r, other) }).collect();
                while v.len() < len { v.push(unit[v.len() % unit.len()]) }
            }
            // in other text
            3 => while v.len() < len { v.push(if r.chance(3) { self.one(r, other) } else { other(r) }) },
            // in a filler, at both ends and some places
            4 | 5 => {
                v.resize(len, filler);
                v[0] = self.one(r, other);
                v[len - 1] = self.one(r, other);
                for _ in 0..r.below(4) {
                    let k = r.below(len);
                    for i in k..len.min(k + 1 + r.below(3)) {
                        v[i] = self.one(r, other);
                    }
                }
            }
            // after a filler
            _ => {
                v.resize(len, filler);
                for _ in 0..1 + r.below(4) { v.push(if r.chance(4) { other(r) } else { self.one(r, other) }) }
            }
        }
        // one long run of marks is quadratic work
        if v.len() > 1500 {
            for i in (300..v.len()).step_by(300) {
                v[i] = 0x61;
            }
        }
        v.retain(|c| char::from_u32(*c).is_some());
        v
    }
}
