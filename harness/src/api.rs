//! The public per-code-point API of the crate, as tables of callable observers.
use crate::variants as v;
use seshat::unicode::props::UnicodeProperty;
use seshat::unicode::{CodePoint, Ucd};

pub fn cp(c: u32) -> CodePoint {
    match CodePoint::new(c) {
        Ok(x) => x,
        Err(e) => panic!("CodePoint::new({:X}) refused: {}", c, e),
    }
}

pub struct BoolObs {
    pub name: &'static str,
    pub cp: fn(u32) -> bool,
    pub ch: fn(char) -> bool,
}
macro_rules! bools { ($($m:ident)*) => { &[$(BoolObs { name: stringify!($m), cp: |c| cp(c).$m(), ch: |c| c.$m() }),*] } }
pub static BOOLS: &[BoolObs] = bools!(wspace bidi_c join_c dash hyphen qmark term omath hex ahex oalpha ideo dia ext
    olower oupper nchar ogr_ext idsb idst radical uideo odi dep sd loe oids oidc sterm vs pat_ws pat_syn pcm ri
    ce ci comp_ex math alpha lower upper cased di gr_ext ids idc xids xidc emoji epres emod ebase ecomp ext_pict);

/// Enumerated observers.  `*_is(c, k)` compares the crate's answer with the
/// k-th variant using the crate's own `==`; `*_id` is the discriminant.
pub struct EnumObs {
    pub name: &'static str,
    pub values: fn() -> Vec<&'static str>,
    pub names: fn() -> Vec<(&'static str, &'static str)>,
    pub ids: fn() -> Vec<u32>,
    pub cp_id: fn(u32) -> u32,
    pub ch_id: fn(char) -> u32,
    pub cp_is: fn(u32, usize) -> bool,
    pub ch_is: fn(char, usize) -> bool,
    pub cp_dbg: fn(u32) -> String,
    pub ch_dbg: fn(char) -> String,
    pub value_name: fn(usize) -> (String, String),
    pub value_dbg: fn(usize) -> String,
    /// equality of variants i and j through the public `PartialEq`
    pub eq: fn(usize, usize) -> bool,
    pub cp_name: fn(u32) -> (String, String),
}
macro_rules! enums { ($($m:ident $L:ident),*) => { &[$(EnumObs {
    name: stringify!($m),
    values: || v::$L.iter().map(|x| x.0).collect(),
    names: || v::$L.iter().map(|x| (x.2, x.3)).collect(),
    ids: || v::$L.iter().map(|x| x.1 as u32).collect(),
    cp_id: |c| cp(c).$m() as u32,
    ch_id: |c| c.$m() as u32,
    cp_is: |c, k| cp(c).$m() == v::$L[k].1,
    ch_is: |c, k| c.$m() == v::$L[k].1,
    cp_dbg: |c| format!("{:?}", cp(c).$m()),
    ch_dbg: |c| format!("{:?}", c.$m()),
    value_name: |k| { let n = v::$L[k].1.property_value_name(); (n.full.to_string(), n.abbr.to_string()) },
    value_dbg: |k| format!("{:?}", v::$L[k].1),
    eq: |i, j| v::$L[i].1 == v::$L[j].1,
    cp_name: |c| { let n = cp(c).$m().property_value_name(); (n.full.to_string(), n.abbr.to_string()) },
}),*] } }
pub static ENUMS: &[EnumObs] = enums!(gc GC, bc BC, ccc CCC, dt DT, blk BLK, sc SC, age AGE, gcb GCB, wb WB, hst HST, insc INSC, incb INCB);

pub fn enum_obs(name: &str) -> &'static EnumObs {
    ENUMS.iter().find(|e| e.name == name).unwrap()
}
pub fn bool_obs(name: &str) -> &'static BoolObs {
    BOOLS.iter().find(|e| e.name == name).unwrap()
}

/// Calls an arbitrary API entry, for its side effects only ("history noise").
pub fn noise(k: u64, c: u32) {
    use seshat::unicode::{Normalization, Segmentation, ToCodePoint, UnicodeVersion, UNICODE_VERSION};
    let ch = char::from_u32(c);
    let n = (BOOLS.len() + ENUMS.len() + 12) as u64;
    let i = (k % n) as usize;
    let viach = k / n % 2 == 1 && ch.is_some();
    // comp_ex panics are C01/C14's subject, noise only needs to have happened
    let _ = std::panic::catch_unwind(|| {
        if i < BOOLS.len() {
            if viach { (BOOLS[i].ch)(ch.unwrap()); } else { (BOOLS[i].cp)(c); }
        } else if i < BOOLS.len() + ENUMS.len() {
            let e = &ENUMS[i - BOOLS.len()];
            if viach { (e.ch_id)(ch.unwrap()); } else { (e.cp_id)(c); }
        } else {
            match i - BOOLS.len() - ENUMS.len() {
                0 => drop(cp(c).na()),
                1 => drop(cp(c).dm()),
                2 => if let Some(ch) = ch {
                    let s: String = [ch, '\u{301}', ch].iter().collect();
                    drop(s.to_nfc());
                },
                3 => if let Some(ch) = ch {
                    let s: String = ['a', ch, '\u{323}', ch].iter().collect();
                    drop(s.to_nfkd());
                },
                // the constructor says no
                4 => for x in [0x110000, c.wrapping_add(0x110000), u32::MAX - c, !0, 0x7FFF_FFFF, 0x8000_0000 | c] {
                    drop(CodePoint::new(x).map(|x| x.to_u32()));
                },
                5 => {
                    let o = UnicodeVersion { major: c as _, minor: (c >> 4) as _, update: (c >> 8) as _ };
                    drop((o < UNICODE_VERSION, o == UNICODE_VERSION, o.to_string(), UNICODE_VERSION.to_string()));
                },
                6 => {
                    drop((cp(c).to_string(), cp(c ^ 1).to_u32()));
                    if let Some(ch) = ch {
                        drop(ch.to_code_point().to_string());
                    }
                },
                7 => for e in ENUMS {
                    (e.value_name)(c as usize % (e.values)().len());
                },
                // a table asked beyond its end
                8 => {
                    let (a, b) = ([c, c ^ 1, 7], [3u32, 2, c]);
                    let (s1, s2) = ([0u8, 1, 0], [&a[..], &b[..]]);
                    let t = seshat::collections::TwoStageTable::new(&s1, &s2, 3);
                    t.at(c % 9);
                    t.at(9 + c);
                },
                // walks given up, empty texts
                9 => {
                    "".to_nfc();
                    "".break_graphemes().count();
                    let s = format!("e\u{301}{}\r\n\u{1F1E6}\u{1F1E7}\u{1F1E8}", ch.unwrap_or('k'));
                    let mut g = s.break_graphemes();
                    g.next();
                },
                10 => if let Some(ch) = ch {
                    let s: String = std::iter::repeat(ch).take(40).chain("\u{1100}\u{1161}\u{11A8}\u{915}\u{94D}\u{937}".chars()).collect();
                    drop((s.to_nfd(), s.to_nfkc(), s.break_graphemes().last().map(|g| g.len())));
                },
                _ => if let Some(ch) = ch {
                    let s: String = [ch, '\u{200D}', ch, 'x', ch].iter().collect();
                    s.break_graphemes().take(8).count();
                },
            }
        }
    });
}
