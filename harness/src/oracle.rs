//! Pinned Unicode 15.1 tables (see ../../oracle).  Nothing here is read from
//! the repository under test.
use std::collections::HashMap;

pub const N: usize = 0x110000;
/// The pinned tables, or (for generator checks on synthetic data) the file
/// named by VMON_TABLES.
fn text() -> &'static str {
    static T: std::sync::OnceLock<&'static str> = std::sync::OnceLock::new();
    T.get_or_init(|| match std::env::var("VMON_TABLES") {
        Ok(p) => Box::leak(std::fs::read_to_string(p).expect("VMON_TABLES").into_boxed_str()),
        Err(_) => include_str!("../../oracle/tables.txt"),
    })
}

pub struct Prop {
    pub vals: Vec<&'static str>,
    pub tab: Vec<u16>,
    pub default: u16,
}
impl Prop {
    #[inline]
    pub fn at(&self, c: u32) -> &'static str {
        self.vals[self.tab[c as usize] as usize]
    }
    #[inline]
    pub fn on(&self, c: u32) -> bool {
        self.at(c) == "1"
    }
    pub fn id(&self, v: &str) -> Option<u16> {
        self.vals.iter().position(|x| *x == v).map(|x| x as u16)
    }
}

fn section(head: &str) -> impl Iterator<Item = &'static str> {
    let h = head.to_string();
    text().lines().skip_while(move |l| *l != h).skip(1).take_while(|l| !l.starts_with('@'))
}
fn hx(s: &str) -> u32 {
    u32::from_str_radix(s, 16).unwrap()
}
fn range(s: &str) -> (u32, u32) {
    match s.split_once('-') {
        Some((a, b)) => (hx(a), hx(b)),
        None => (hx(s), hx(s)),
    }
}

pub fn prop(name: &str) -> Prop {
    let mut vals = Vec::new();
    let mut tab = vec![0u16; N];
    for l in section(&format!("@prop {}", name)) {
        let mut w = l.split(' ');
        let v = w.next().unwrap();
        if v == "default" {
            vals.push(w.next().unwrap());
            continue;
        }
        vals.push(v);
        let id = (vals.len() - 1) as u16;
        for r in w {
            let (a, b) = range(r);
            for c in a..=b {
                tab[c as usize] = id;
            }
        }
    }
    assert!(!vals.is_empty(), "no oracle table for {}", name);
    Prop { vals, tab, default: 0 }
}

/// Decomposition mappings (without Hangul): cp -> (is_compat, mapping)
pub fn dm() -> HashMap<u32, (bool, Vec<u32>)> {
    let mut m = HashMap::new();
    for l in section("@dm") {
        let mut w: Vec<&str> = l.split(' ').collect();
        let c = hx(w.remove(0));
        let compat = w[0].starts_with('<');
        if compat {
            w.remove(0);
        }
        m.insert(c, (compat, w.into_iter().map(hx).collect()));
    }
    m
}

pub const S_BASE: u32 = 0xAC00;
pub const S_COUNT: u32 = 11172;
const JL: [&str; 19] = ["G","GG","N","D","DD","R","M","B","BB","S","SS","","J","JJ","C","K","T","P","H"];
const JV: [&str; 21] = ["A","AE","YA","YAE","EO","E","YEO","YE","O","WA","WAE","OE","YO","U","WEO","WE","WI","YU","EU","YI","I"];
const JT: [&str; 28] = ["","G","GG","GS","N","NJ","NH","D","L","LG","LM","LB","LS","LT","LP","LH","M","B","BS","S","SS","NG","J","C","K","T","P","H"];

pub struct Names {
    map: HashMap<u32, &'static str>,
    ranges: Vec<(u32, u32, &'static str)>,
}
impl Names {
    pub fn load() -> Names {
        let mut map = HashMap::new();
        for l in section("@na") {
            let (c, n) = l.split_once(' ').unwrap();
            map.insert(hx(c), n);
        }
        let mut ranges = Vec::new();
        for l in section("@na_ranges") {
            let (r, n) = l.split_once(' ').unwrap();
            let (a, b) = range(r);
            ranges.push((a, b, n));
        }
        Names { map, ranges }
    }
    pub fn get(&self, c: u32) -> String {
        if (S_BASE..S_BASE + S_COUNT).contains(&c) {
            let s = (c - S_BASE) as usize;
            return format!("HANGUL SYLLABLE {}{}{}", JL[s / 588], JV[s % 588 / 28], JT[s % 28]);
        }
        for (a, b, p) in &self.ranges {
            if *a <= c && c <= *b {
                return format!("{}{:04X}", p, c);
            }
        }
        self.map.get(&c).map(|s| s.to_string()).unwrap_or_default()
    }
}

/// (abbr, full) pairs from the pinned property value aliases.
pub fn hangul_dm(c: u32) -> Option<Vec<u32>> {
    if !(S_BASE..S_BASE + S_COUNT).contains(&c) {
        return None;
    }
    let s = c - S_BASE;
    Some(if s % 28 == 0 {
        vec![0x1100 + s / 588, 0x1161 + s % 588 / 28]
    } else {
        vec![c - s % 28, 0x11A7 + s % 28]
    })
}
