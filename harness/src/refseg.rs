//! Reference extended grapheme cluster segmenter: UAX #29 (15.1) rules GB1-GB999
//! stated over look-back attributes of every position; shares no code or data
//! with the repository under test.
use crate::oracle::{self, Prop};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Cls {
    pub g: G,
    pub ep: bool,
    pub ic: I,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum G { CN, CR, LF, EX, L, V, T, LV, LVT, PP, RI, SM, XX, ZWJ }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum I { None, Consonant, Extend, Linker }

pub struct RefSeg {
    pub cls: Vec<Cls>,
}
impl RefSeg {
    pub fn new() -> RefSeg {
        let (gcb, incb, ep): (Prop, Prop, Prop) = (oracle::prop("gcb"), oracle::prop("incb"), oracle::prop("ext_pict"));
        let cls = (0..oracle::N as u32)
            .map(|c| Cls {
                g: match gcb.at(c) {
                    "CN" => G::CN, "CR" => G::CR, "LF" => G::LF, "EX" => G::EX, "L" => G::L, "V" => G::V, "T" => G::T,
                    "LV" => G::LV, "LVT" => G::LVT, "PP" => G::PP, "RI" => G::RI, "SM" => G::SM, "XX" => G::XX, "ZWJ" => G::ZWJ,
                    x => panic!("gcb {}", x),
                },
                ep: ep.on(c),
                ic: match incb.at(c) {
                    "None" => I::None, "Consonant" => I::Consonant, "Extend" => I::Extend, "Linker" => I::Linker,
                    x => panic!("incb {}", x),
                },
            })
            .collect();
        RefSeg { cls }
    }
    /// One representative code point per occurring class, in class order.
    pub fn reps(&self) -> Vec<(Cls, Vec<u32>)> {
        let mut m: std::collections::BTreeMap<Cls, Vec<u32>> = Default::default();
        for c in 0..oracle::N as u32 {
            if !(0xD800..0xE000).contains(&c) {
                m.entry(self.cls[c as usize]).or_default().push(c);
            }
        }
        m.into_iter().collect()
    }
    /// Lengths (in code points) of the clusters of `s`.
    pub fn clusters(&self, s: &[u32]) -> Vec<usize> {
        let mut out = vec![];
        if s.is_empty() {
            return out;
        }
        let mut len = 1;
        let at = |i: usize| self.cls[s[i] as usize];
        let mut ri_run = (at(0).g == G::RI) as usize; // RI characters ending here
        let mut ep_ext = at(0).ep; // ... ExtPict Extend*  ends here
        let mut zwj_after = false; // ... ExtPict Extend* ZWJ ends here
        let mut conj = if at(0).ic == I::Consonant { 1 } else { 0 }; // GB9c prefix
        for i in 1..s.len() {
            let (p, n) = (at(i - 1), at(i));
            use G::*;
            let join = if p.g == CR && n.g == LF {
                true
            } else if matches!(p.g, CN | CR | LF) || matches!(n.g, CN | CR | LF) {
                false
            } else if p.g == L && matches!(n.g, L | V | LV | LVT) {
                true
            } else if matches!(p.g, LV | V) && matches!(n.g, V | T) {
                true
            } else if matches!(p.g, LVT | T) && n.g == T {
                true
            } else if matches!(n.g, EX | ZWJ | SM) {
                true
            } else if p.g == PP {
                true
            } else if conj == 2 && n.ic == I::Consonant {
                true
            } else if zwj_after && n.ep {
                true
            } else if p.g == RI && n.g == RI {
                ri_run % 2 == 1
            } else {
                false
            };
            if join {
                len += 1;
            } else {
                out.push(len);
                len = 1;
            }
            zwj_after = n.g == ZWJ && ep_ext;
            ep_ext = n.ep || (n.g == EX && ep_ext);
            ri_run = if n.g == RI { ri_run + 1 } else { 0 };
            conj = match n.ic {
                I::Consonant => 1,
                I::Linker if conj > 0 => 2,
                I::Extend => conj,
                _ => 0,
            };
        }
        out.push(len);
        out
    }
}
