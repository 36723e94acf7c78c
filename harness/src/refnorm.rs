//! Reference normaliser: UAX #15 / Unicode chapter 3.11 written over the
//! pinned tables (full recursive mappings, stable sort, one-pass composition);
//! shares no code or data with the repository under test.
use crate::oracle::{self, Prop};
use std::collections::HashMap;

pub struct RefNorm {
    pub ccc: Prop,
    pub cccv: Vec<u8>,
    pub dm: HashMap<u32, (bool, Vec<u32>)>,
    pub compose: HashMap<(u32, u32), u32>,
    pub full_c: HashMap<u32, Vec<u32>>,
    pub full_k: HashMap<u32, Vec<u32>>,
    pub comp_ex: Prop,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Form {
    Nfd,
    Nfkd,
    Nfc,
    Nfkc,
}
pub const FORMS: [Form; 4] = [Form::Nfd, Form::Nfkd, Form::Nfc, Form::Nfkc];
impl Form {
    pub fn name(self) -> &'static str {
        match self {
            Form::Nfd => "NFD",
            Form::Nfkd => "NFKD",
            Form::Nfc => "NFC",
            Form::Nfkc => "NFKC",
        }
    }
}

fn full(c: u32, k: bool, dm: &HashMap<u32, (bool, Vec<u32>)>, out: &mut Vec<u32>) {
    if let Some(h) = oracle::hangul_dm(c) {
        for x in h {
            full(x, k, dm, out);
        }
        return;
    }
    match dm.get(&c) {
        Some((compat, m)) if k || !*compat => {
            for x in m {
                full(*x, k, dm, out);
            }
        }
        _ => out.push(c),
    }
}

impl RefNorm {
    pub fn new() -> RefNorm {
        let ccc = oracle::prop("ccc");
        let cccv: Vec<u8> = (0..oracle::N as u32).map(|c| ccc.at(c).parse().unwrap()).collect();
        let dm = oracle::dm();
        let comp_ex = oracle::prop("comp_ex");
        let (mut full_c, mut full_k, mut compose) = (HashMap::new(), HashMap::new(), HashMap::new());
        for (c, (compat, m)) in &dm {
            let mut v = vec![];
            full(*c, false, &dm, &mut v);
            if v != [*c] {
                full_c.insert(*c, v);
            }
            let mut v = vec![];
            full(*c, true, &dm, &mut v);
            full_k.insert(*c, v);
            if !*compat && m.len() == 2 && !comp_ex.on(*c) {
                compose.insert((m[0], m[1]), *c);
            }
        }
        RefNorm { ccc, cccv, dm, compose, full_c, full_k, comp_ex }
    }
    pub fn decompose(&self, s: &[u32], k: bool) -> Vec<u32> {
        let mut out = Vec::with_capacity(s.len() * 2);
        let map = if k { &self.full_k } else { &self.full_c };
        for &c in s {
            if (oracle::S_BASE..oracle::S_BASE + oracle::S_COUNT).contains(&c) {
                let i = c - oracle::S_BASE;
                out.push(0x1100 + i / 588);
                out.push(0x1161 + i % 588 / 28);
                if i % 28 != 0 {
                    out.push(0x11A7 + i % 28);
                }
            } else if let Some(v) = map.get(&c) {
                out.extend_from_slice(v);
            } else {
                out.push(c);
            }
        }
        // canonical ordering: stable sort of every maximal run of ccc != 0
        let mut i = 0;
        while i < out.len() {
            if self.cccv[out[i] as usize] == 0 {
                i += 1;
                continue;
            }
            let mut j = i;
            while j < out.len() && self.cccv[out[j] as usize] != 0 {
                j += 1;
            }
            out[i..j].sort_by_key(|c| self.cccv[*c as usize]);
            i = j;
        }
        out
    }
    pub fn pair(&self, a: u32, b: u32) -> Option<u32> {
        if (0x1100..0x1113).contains(&a) && (0x1161..0x1176).contains(&b) {
            return Some(0xAC00 + (a - 0x1100) * 588 + (b - 0x1161) * 28);
        }
        if (0xAC00..0xAC00 + 11172).contains(&a) && (a - 0xAC00) % 28 == 0 && (0x11A8..0x11C3).contains(&b) {
            return Some(a + b - 0x11A7);
        }
        self.compose.get(&(a, b)).copied()
    }
    pub fn compose_seq(&self, d: &[u32]) -> Vec<u32> {
        let mut out: Vec<u32> = Vec::with_capacity(d.len());
        let mut starter: Option<usize> = None;
        for &c in d {
            let cc = self.cccv[c as usize];
            if let Some(si) = starter {
                // everything after out[si] in `out` is a kept character
                let blocked = match out.len() - 1 - si {
                    0 => false,
                    _ => {
                        let p = self.cccv[*out.last().unwrap() as usize];
                        p == 0 || p >= cc
                    }
                };
                if !blocked {
                    if let Some(p) = self.pair(out[si], c) {
                        out[si] = p;
                        continue;
                    }
                }
            }
            out.push(c);
            if cc == 0 {
                starter = Some(out.len() - 1);
            }
        }
        out
    }
    pub fn norm(&self, s: &[u32], f: Form) -> Vec<u32> {
        match f {
            Form::Nfd => self.decompose(s, false),
            Form::Nfkd => self.decompose(s, true),
            Form::Nfc => self.compose_seq(&self.decompose(s, false)),
            Form::Nfkc => self.compose_seq(&self.decompose(s, true)),
        }
    }
}
