//! Properties decided over the whole code point space.
use crate::api::*;
use crate::core::*;
use crate::oracle::{self, Prop, N};
use crate::refnorm::RefNorm;
use seshat::unicode::Ucd;

pub struct Tables {
    pub enums: Vec<(&'static EnumObs, Prop, Vec<u32>, Vec<usize>)>, // + expected discriminant, variant index per oracle value
    pub bools: Vec<(&'static BoolObs, Prop)>,
}
impl Tables {
    pub fn new(enums: &[&str], bools: &[&str]) -> Tables {
        Tables {
            enums: enums
                .iter()
                .map(|n| {
                    let e = enum_obs(n);
                    let p = oracle::prop(n);
                    let (vals, ids) = ((e.values)(), (e.ids)());
                    let idx: Vec<usize> = p.vals.iter().map(|v| vals.iter().position(|x| x == v).unwrap_or_else(|| panic!("{} {}", n, v))).collect();
                    let exp = idx.iter().map(|i| ids[*i]).collect();
                    (e, p, exp, idx)
                })
                .collect(),
            bools: bools.iter().map(|n| (bool_obs(n), oracle::prop(n))).collect(),
        }
    }
    pub fn check(&self, c: u32, s: &mut Sink) {
        let ch = char::from_u32(c);
        for (e, p, exp, idx) in &self.enums {
            let k = p.tab[c as usize] as usize;
            if k != p.default as usize {
                s.nontrivial = true;
            }
            let (got, eq) = ((e.cp_id)(c), (e.cp_is)(c, idx[k]));
            s.obs(2);
            if got != exp[k] || !eq {
                s.fail(format!("CodePoint U+{:04X} {}: expected {}, got {} (discriminant {}, == says {})", c, e.name, p.vals[k], (e.cp_dbg)(c), got, eq));
            }
            if let Some(ch) = ch {
                let (got, eq) = ((e.ch_id)(ch), (e.ch_is)(ch, idx[k]));
                s.obs(2);
                if got != exp[k] || !eq {
                    s.fail(format!("char U+{:04X} {}: expected {}, got {} (discriminant {}, == says {})", c, e.name, p.vals[k], (e.ch_dbg)(ch), got, eq));
                }
            }
        }
        for (b, p) in &self.bools {
            let want = p.on(c);
            if want != p.vals[p.default as usize].eq("1") {
                s.nontrivial = true;
            }
            s.obs(1);
            if (b.cp)(c) != want {
                s.fail(format!("CodePoint U+{:04X} {}: expected {}, got {}", c, b.name, want, !want));
            }
            if let Some(ch) = ch {
                s.obs(1);
                if (b.ch)(ch) != want {
                    s.fail(format!("char U+{:04X} {}: expected {}, got {}", c, b.name, want, !want));
                }
            }
        }
    }
}

/// Every code point in several query orders: ascending, descending, scattered,
/// bit-flip neighbours and with unrelated API traffic in between, so that an
/// answer that depends on the query history has a history to depend on.
pub fn orders(run: &Run, check: &(dyn Fn(&Case, &mut Sink) + Sync), heavy: bool) {
    let n = N as u64;
    run.phase("ascending", n, 4096, true, check, |i, _, ex| ex(Case::Cp(i as u32)));
    run.phase("descending", n, 4096, false, check, |i, _, ex| ex(Case::Cp((n - 1 - i) as u32)));
    run.phase("scattered", n, 1024, false, check, |i, _, ex| ex(Case::Cp((i.wrapping_mul(736_357).wrapping_add(run.seed.wrapping_mul(7919)) % n) as u32)));
    let k = if heavy { run.scale(20_000, 400_000) } else { run.scale(60_000, 1_200_000) };
    run.phase("bit-flip pairs", k, 256, false, check, |_, r, ex| {
        let c = interesting(r);
        ex(Case::Cp(c));
        for b in 0..21 {
            let d = c ^ (1 << b);
            if d < N as u32 {
                ex(Case::Cp(d));
                if r.chance(4) {
                    ex(Case::Cp(c));
                }
            }
        }
    });
    run.phase("aliases modulo 2^k", k, 256, false, check, |_, r, ex| {
        let c = interesting(r);
        let m = 1u32 << r.below(17);
        ex(Case::Cp(c));
        ex(Case::Cp(c % m));
        ex(Case::Cp((c + m) % N as u32));
        ex(Case::Cp((c / m) * m));
        ex(Case::Cp(c));
    });
    run.phase("after unrelated API traffic", k * 2, 256, false, check, |_, r, ex| {
        let c = interesting(r);
        for _ in 0..1 + r.below(3) {
            let d = if r.chance(2) { c } else { interesting(r) };
            noise(r.next(), d);
        }
        ex(Case::Cp(c));
    });
}
/// Code points biased to assigned and boundary areas.
pub fn interesting(r: &mut Rng) -> u32 {
    const EDGE: [u32; 24] = [0, 0x7F, 0x80, 0xFF, 0x100, 0x2FF, 0x1100, 0x1161, 0x11A7, 0x11C3, 0xABFF, 0xAC00, 0xD7A3, 0xD7A4, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFDCF, 0xFDD0, 0xFFFF, 0x10000, 0xE0FFF, 0x10FFFF];
    match r.below(10) {
        0 => r.pick(&EDGE),
        1 => (r.pick(&EDGE) as i64 + r.below(17) as i64 - 8).clamp(0, 0x10FFFF) as u32,
        2 | 3 => r.below(0x3000) as u32,
        4 | 5 => r.below(0x10000) as u32,
        6 | 7 => 0x10000 + r.below(0x10000) as u32,
        8 => 0x20000 + r.below(0x12000) as u32,
        _ => r.below(N) as u32,
    }
}

pub fn run_tables(run: &Run, enums: &[&str], bools: &[&str]) {
    let t = Tables::new(enums, bools);
    orders(run, &|c, s| if let Case::Cp(c) = c { t.check(*c, s) }, bools.len() > 10);
}

// C04: ccc numeric value too
pub fn check_ccc(t: &Tables, c: u32, s: &mut Sink) {
    t.check(c, s);
    let want: u8 = t.enums[0].1.at(c).parse().unwrap();
    let got = cp(c).ccc() as u8;
    s.obs(1);
    if got != want {
        s.fail(format!("U+{:04X} ccc as u8: expected {}, got {}", c, want, got));
    }
    if let Some(ch) = char::from_u32(c) {
        if ch.ccc() as u8 != want {
            s.fail(format!("char U+{:04X} ccc as u8: expected {}, got {}", c, want, ch.ccc() as u8));
        }
    }
}

// C05: dt + dm
pub struct Decomp {
    pub t: Tables,
    pub n: RefNorm,
}
impl Decomp {
    pub fn new() -> Decomp {
        Decomp { t: Tables::new(&["dt"], &[]), n: RefNorm::new() }
    }
    pub fn check(&self, c: u32, s: &mut Sink) {
        self.t.check(c, s);
        let want: Vec<u32> = match oracle::hangul_dm(c) {
            Some(v) => v,
            None => self.n.dm.get(&c).map(|x| x.1.clone()).unwrap_or_default(),
        };
        let mut one = |who: &str, got: String| {
            s.obs(1);
            if std::str::from_utf8(got.as_bytes()).is_err() {
                s.fail(format!("{} U+{:04X} dm is not valid UTF-8: {:?}", who, c, got.as_bytes()));
                return;
            }
            let g = to_u32(&got);
            if g != want {
                s.fail(format!("{} U+{:04X} dm: expected {}, got {}", who, c, hex(&want), hex(&g)));
            }
        };
        one("CodePoint", cp(c).dm());
        if let Some(ch) = char::from_u32(c) {
            one("char", ch.dm());
        }
    }
}

// C15: na
pub fn check_na(names: &oracle::Names, c: u32, s: &mut Sink) {
    let want = names.get(c);
    if !want.is_empty() {
        s.nontrivial = true;
    }
    s.obs(1);
    let got = cp(c).na();
    if got != want {
        s.fail(format!("CodePoint U+{:04X} na: expected {:?}, got {:?}", c, want, got));
    }
    if let Some(ch) = char::from_u32(c) {
        s.obs(1);
        let got = ch.na();
        if got != want {
            s.fail(format!("char U+{:04X} na: expected {:?}, got {:?}", c, want, got));
        }
    }
}

// C18: char and CodePoint answer alike, for every property, and to_code_point agrees
pub fn check_agree(c: u32, s: &mut Sink) {
    use seshat::unicode::ToCodePoint;
    let Some(ch) = char::from_u32(c) else { return };
    s.nontrivial = true;
    let tc = ch.to_code_point();
    s.obs(1);
    if tc.to_u32() != c {
        s.fail(format!("'{}'.to_code_point() is U+{:04X}, not U+{:04X}", ch.escape_unicode(), tc.to_u32(), c));
    }
    for b in BOOLS {
        let (x, y) = ((b.ch)(ch), (b.cp)(c));
        if x != y {
            s.fail(format!("U+{:04X} {}: char says {}, CodePoint says {}", c, b.name, x, y));
        }
    }
    for e in ENUMS {
        let (x, y) = ((e.ch_id)(ch), (e.cp_id)(c));
        if x != y {
            s.fail(format!("U+{:04X} {}: char says {}, CodePoint says {}", c, e.name, (e.ch_dbg)(ch), (e.cp_dbg)(c)));
        }
    }
    s.obs((BOOLS.len() + ENUMS.len() + 2) as u64);
    if ch.na() != cp(c).na() {
        s.fail(format!("U+{:04X} na: char says {:?}, CodePoint says {:?}", c, ch.na(), cp(c).na()));
    }
    if ch.dm() != cp(c).dm() {
        s.fail(format!("U+{:04X} dm: char says {:?}, CodePoint says {:?}", c, ch.dm(), cp(c).dm()));
    }
}

// C36: relations the UCD guarantees between properties, judged from the
// crate's own answers only
pub fn check_relations(c: u32, s: &mut Sink) {
    use seshat::unicode::props::*;
    let x = cp(c);
    let (gc, ccc, gcb, hst, dt) = (x.gc(), x.ccc() as u8, x.gcb(), x.hst(), x.dt());
    let mut need = |name: &str, ok: bool| {
        s.observed += 1;
        if !ok {
            s.fails.push(format!("U+{:04X}: {}", c, name));
        }
    };
    let imp = |a: bool, b: bool| !a || b;
    need("ccc != 0 implies a mark", imp(ccc != 0, matches!(gc, Gc::Mn | Gc::Mc | Gc::Me)));
    need("Lowercase implies Cased", imp(x.lower(), x.cased()));
    need("Uppercase implies Cased", imp(x.upper(), x.cased()));
    need("Lowercase and Uppercase exclude each other", !(x.lower() && x.upper()));
    need("Cased implies Alphabetic", imp(x.cased(), x.alpha()));
    need("Lowercase = Ll or Other_Lowercase", x.lower() == (gc == Gc::Ll || x.olower()));
    need("Uppercase = Lu or Other_Uppercase", x.upper() == (gc == Gc::Lu || x.oupper()));
    need("Math = Sm or Other_Math", x.math() == (gc == Gc::Sm || x.omath()));
    need("XID_Start implies ID_Start", imp(x.xids(), x.ids()));
    need("XID_Continue implies ID_Continue", imp(x.xidc(), x.idc()));
    need("ID_Start implies ID_Continue", imp(x.ids(), x.idc()));
    need("XID_Start implies XID_Continue", imp(x.xids(), x.xidc()));
    need("ID_Continue excludes Pattern_Syntax and Pattern_White_Space", !(x.idc() && (x.pat_syn() || x.pat_ws())));
    need("Pattern_Syntax and Pattern_White_Space are disjoint", !(x.pat_syn() && x.pat_ws()));
    need("ASCII_Hex_Digit implies Hex_Digit", imp(x.ahex(), x.hex()));
    need("Emoji_Modifier implies Emoji", imp(x.emod(), x.emoji()));
    need("Emoji_Modifier_Base implies Emoji", imp(x.ebase(), x.emoji()));
    need("Emoji_Presentation implies Emoji", imp(x.epres(), x.emoji()));
    need("Emoji = Component or Extended_Pictographic at least", imp(x.emoji(), x.ecomp() || x.ext_pict()));
    need("Regional_Indicator implies Emoji, Emoji_Component and Emoji_Presentation", imp(x.ri(), x.emoji() && x.ecomp() && x.epres()));
    need("Regional_Indicator iff Grapheme_Cluster_Break=RI", x.ri() == (gcb == Gcb::RI));
    need("Regional_Indicator iff Word_Break=RI", x.ri() == (x.wb() == Wb::RI));
    need("Unified_Ideograph implies Ideographic", imp(x.uideo(), x.ideo()));
    need("Join_Control implies Default_Ignorable", imp(x.join_c(), x.di()));
    need("Variation_Selector implies Default_Ignorable", imp(x.vs(), x.di()));
    need("Bidi_Control implies Cf", imp(x.bidi_c(), gc == Gc::Cf));
    need("Prepended_Concatenation_Mark implies Cf", imp(x.pcm(), gc == Gc::Cf));
    need("Grapheme_Extend = Me + Mn + Other_Grapheme_Extend", x.gr_ext() == (matches!(gc, Gc::Me | Gc::Mn) || x.ogr_ext()));
    need("Grapheme_Extend or Emoji_Modifier iff GCB=EX", (x.gr_ext() || x.emod()) == (gcb == Gcb::EX));
    need("GCB=ZWJ only at U+200D", (gcb == Gcb::ZWJ) == (c == 0x200D));
    need("GCB=CR/LF only at U+000D/U+000A", (gcb == Gcb::CR) == (c == 0x0D) && (gcb == Gcb::LF) == (c == 0x0A));
    need("WB=CR/LF only at U+000D/U+000A", (x.wb() == Wb::CR) == (c == 0x0D) && (x.wb() == Wb::LF) == (c == 0x0A));
    let same = match hst {
        Hst::L => gcb == Gcb::L,
        Hst::V => gcb == Gcb::V,
        Hst::T => gcb == Gcb::T,
        Hst::LV => gcb == Gcb::LV,
        Hst::LVT => gcb == Gcb::LVT,
        Hst::NA => !matches!(gcb, Gcb::L | Gcb::V | Gcb::T | Gcb::LV | Gcb::LVT),
    };
    need("Hangul_Syllable_Type and Grapheme_Cluster_Break agree", same);
    need("LV/LVT exactly on AC00..D7A3", matches!(hst, Hst::LV | Hst::LVT) == (0xAC00..=0xD7A3).contains(&c));
    need("ExtPict is not GCB Extend/RI/Control", imp(x.ext_pict(), gcb == Gcb::XX));
    need("InCB=Linker implies InSC=Virama and GCB=EX", imp(x.incb() == Incb::Linker, x.insc() == Insc::Virama && gcb == Gcb::EX));
    need("InCB=Consonant implies InSC=Consonant", imp(x.incb() == Incb::Consonant, x.insc() == Insc::Consonant));
    need("InCB=Extend implies GCB EX or ZWJ", imp(x.incb() == Incb::Extend, matches!(gcb, Gcb::EX | Gcb::ZWJ)));
    // noncharacters and unassigned
    need("noncharacters: FDD0..FDEF and the last two of each plane", x.nchar() == ((0xFDD0..=0xFDEF).contains(&c) || c & 0xFFFE == 0xFFFE));
    need("noncharacters are Cn", imp(x.nchar(), gc == Gc::Cn));
    need("Age=NA iff unassigned and not a noncharacter", (x.age() == Age::NA) == (gc == Gc::Cn && !x.nchar()));
    need("surrogates are exactly D800..DFFF", (gc == Gc::Cs) == (0xD800..=0xDFFF).contains(&c));
    need("unassigned code points have script Unknown", imp(gc == Gc::Cn, x.sc() == Sc::Zzzz));
    need("script Unknown only on Cn, Co, Cs", imp(x.sc() == Sc::Zzzz, matches!(gc, Gc::Cn | Gc::Co | Gc::Cs)));
    need("No_Block code points are unassigned", imp(x.blk() == Blk::Nb, gc == Gc::Cn));
    need("only assigned graphic and format characters have names", imp(matches!(gc, Gc::Cn | Gc::Co | Gc::Cs | Gc::Cc), x.na().is_empty()) && imp(!matches!(gc, Gc::Cn | Gc::Co | Gc::Cs | Gc::Cc), !x.na().is_empty()));
    // decompositions
    let dm = x.dm();
    need("a decomposition mapping exists iff dt is not None", (dt != Dt::None) == !dm.is_empty());
    need("canonical mappings have one or two characters", imp(dt == Dt::Can, matches!(dm.chars().count(), 1 | 2)));
    if !(0xD800..=0xDFFF).contains(&c) {
        need("Composition_Exclusion implies Full_Composition_Exclusion", imp(x.ce(), x.comp_ex()));
        need("Full_Composition_Exclusion implies a canonical decomposition", imp(x.comp_ex(), dt == Dt::Can));
        need("singleton canonical decompositions are excluded from composition", imp(dt == Dt::Can && dm.chars().count() == 1, x.comp_ex()));
    }
    need("Case_Ignorable covers Mn, Me, Cf, Lm, Sk", imp(matches!(gc, Gc::Mn | Gc::Me | Gc::Cf | Gc::Lm | Gc::Sk), x.ci()));
    need("White_Space excludes Default_Ignorable", !(x.wspace() && x.di()));
    need("Zs/Zl/Zp are White_Space", imp(matches!(gc, Gc::Zs | Gc::Zl | Gc::Zp), x.wspace()));
    // what the values say of each other
    let (bc, wb, sc, insc, blk, dtc) = (x.bc(), x.wb(), x.sc(), x.insc(), x.blk(), dm.chars().count());
    let na = x.na();
    let range = |r: &[(u32, u32)]| r.iter().any(|&(a, b)| (a..=b).contains(&c));
    need("White_Space = Z plus the control characters 9..D and 85", x.wspace() == (matches!(gc, Gc::Zs | Gc::Zl | Gc::Zp) || range(&[(9, 13), (0x85, 0x85)])));
    need("Pattern_White_Space is the immutable set", x.pat_ws() == range(&[(9, 13), (0x20, 0x20), (0x85, 0x85), (0x200E, 0x200F), (0x2028, 0x2029)]));
    need("ASCII_Hex_Digit is the immutable set", x.ahex() == range(&[(0x30, 0x39), (0x41, 0x46), (0x61, 0x66)]));
    need("Hex_Digit is ASCII_Hex_Digit and its fullwidth forms", x.hex() == (x.ahex() || dt == Dt::Wide && dtc == 1 && dm.chars().all(|d| d.ahex())));
    need("Join_Control is 200C and 200D", x.join_c() == range(&[(0x200C, 0x200D)]));
    need("Regional_Indicator is 1F1E6..1F1FF", x.ri() == range(&[(0x1F1E6, 0x1F1FF)]));
    need("Variation_Selector are the named characters", x.vs() == (na.starts_with("VARIATION SELECTOR-") || na.starts_with("MONGOLIAN FREE VARIATION SELECTOR ")));
    need("gc Cc, Zl and Zp are fixed", (gc == Gc::Cc) == range(&[(0, 0x1F), (0x7F, 0x9F)]) && (gc == Gc::Zl) == (c == 0x2028) && (gc == Gc::Zp) == (c == 0x2029));
    need("private use is E000..F8FF and planes 15 and 16", (gc == Gc::Co) == (range(&[(0xE000, 0xF8FF)]) || c >= 0xF0000 && c & 0xFFFF < 0xFFFE));
    need("Unified_Ideograph by name", x.uideo() == (na.starts_with("CJK UNIFIED IDEOGRAPH-") || range(&[(0xFA0E, 0xFA0F), (0xFA11, 0xFA11), (0xFA13, 0xFA14), (0xFA1F, 0xFA1F), (0xFA21, 0xFA21), (0xFA23, 0xFA24), (0xFA27, 0xFA29)])));
    need("Ideographic by name", x.ideo() == (["CJK UNIFIED IDEOGRAPH-", "CJK COMPATIBILITY IDEOGRAPH-", "TANGUT IDEOGRAPH-", "TANGUT COMPONENT-", "KHITAN SMALL SCRIPT ", "NUSHU CHARACTER-", "HANGZHOU NUMERAL "].iter().any(|p| na.starts_with(p)) || matches!(na.as_str(), "IDEOGRAPHIC CLOSING MARK" | "IDEOGRAPHIC NUMBER ZERO")));
    need("Radical by name", x.radical() == (na.starts_with("CJK RADICAL ") || na.starts_with("KANGXI RADICAL ")));
    need("description operators by name", (x.idsb() || x.idst()) == na.starts_with("IDEOGRAPHIC DESCRIPTION CHARACTER ") || range(&[(0x2FFE, 0x2FFF)]));
    need("description operators exclude each other", !(x.idsb() && x.idst()));
    need("syllables are named so", na.starts_with("HANGUL SYLLABLE ") == matches!(hst, Hst::LV | Hst::LVT));
    need("jamo are named so", imp(hst == Hst::L, na.starts_with("HANGUL CHOSEONG ")) && imp(hst == Hst::V, na.starts_with("HANGUL JUNGSEONG ")) && imp(hst == Hst::T, na.starts_with("HANGUL JONGSEONG ")) && imp(na.starts_with("HANGUL CHOSEONG "), hst == Hst::L) && imp(na.starts_with("HANGUL JUNGSEONG "), hst == Hst::V) && imp(na.starts_with("HANGUL JONGSEONG "), hst == Hst::T));
    need("names are made of capitals, digits, space and hyphen", na.chars().all(|d| matches!(d, 'A'..='Z' | '0'..='9' | ' ' | '-')) && !na.starts_with(' ') && !na.ends_with(' ') && !na.contains("  "));
    need("ideograph names end in the code point", imp(["CJK UNIFIED IDEOGRAPH-", "CJK COMPATIBILITY IDEOGRAPH-", "TANGUT IDEOGRAPH-", "KHITAN SMALL SCRIPT CHARACTER-", "NUSHU CHARACTER-"].iter().any(|p| na.starts_with(p)), na.ends_with(&format!("-{:04X}", c))));
    // blocks come in columns of sixteen
    need("a column of sixteen is in one block", blk == cp(c & !15).blk());
    // bidirectional classes
    need("Bidi_Control = explicit formatting and the three marks", x.bidi_c() == (matches!(bc, Bc::LRE | Bc::LRO | Bc::RLE | Bc::RLO | Bc::PDF | Bc::LRI | Bc::RLI | Bc::FSI | Bc::PDI) || range(&[(0x61C, 0x61C), (0x200E, 0x200F)])));
    need("explicit formatting classes are one character each", [(Bc::LRE, 0x202A), (Bc::RLE, 0x202B), (Bc::PDF, 0x202C), (Bc::LRO, 0x202D), (Bc::RLO, 0x202E), (Bc::LRI, 0x2066), (Bc::RLI, 0x2067), (Bc::FSI, 0x2068), (Bc::PDI, 0x2069)].iter().all(|&(b, k)| (bc == b) == (c == k)));
    need("bc B and S are separators and controls", imp(matches!(bc, Bc::B | Bc::S), matches!(gc, Gc::Cc | Gc::Zp)));
    need("bc WS is white space", imp(bc == Bc::WS, x.wspace()));
    need("bc NSM are non-spacing marks", imp(bc == Bc::NSM, matches!(gc, Gc::Mn | Gc::Me)));
    need("noncharacters and unassigned default ignorables are BN", imp(x.nchar() || gc == Gc::Cn && x.di(), bc == Bc::BN));
    need("decimal digits have a number's class or a strong one", imp(gc == Gc::Nd, matches!(bc, Bc::EN | Bc::AN | Bc::L | Bc::R)));
    need("letters are strong", imp(matches!(gc, Gc::Lu | Gc::Ll | Gc::Lt | Gc::Lo), matches!(bc, Bc::L | Bc::R | Bc::AL)));
    need("private use and surrogates are L", imp(matches!(gc, Gc::Co | Gc::Cs), bc == Bc::L));
    // combining classes
    need("kana voicing marks", (ccc == 8) == range(&[(0x3099, 0x309A)]));
    need("iota subscript", (ccc == 240) == (c == 0x345));
    need("the fixed position classes go with their scripts", match ccc {
        10..=26 => sc == Sc::Hebr,
        27..=35 => matches!(sc, Sc::Arab | Sc::Zinh),
        36 => sc == Sc::Syrc,
        84 | 91 => sc == Sc::Telu,
        103 | 107 => sc == Sc::Thai,
        118 | 122 => sc == Sc::Laoo,
        129 | 130 | 132 => sc == Sc::Tibt,
        _ => true,
    });
    need("viramas have class 9", imp(matches!(insc, Insc::Virama | Insc::Invisible_Stacker), ccc == 9));
    need("class 9 is a virama, killer or joiner", imp(ccc == 9, !matches!(insc, Insc::Consonant | Insc::Vowel | Insc::Vowel_Independent | Insc::Nukta | Insc::Bindu | Insc::Visarga | Insc::Number)));
    // grapheme cluster break as UAX #29 derives it
    let sm_not = range(&[(0x102B, 0x102C), (0x1038, 0x1038), (0x1062, 0x1064), (0x1067, 0x106D), (0x1083, 0x1083), (0x1087, 0x108C), (0x108F, 0x108F), (0x109A, 0x109C), (0x1A61, 0x1A61), (0x1A63, 0x1A64), (0xAA7B, 0xAA7B), (0xAA7D, 0xAA7D), (0x11720, 0x11721)]);
    need("GCB=SpacingMark as UAX #29 derives it", (gcb == Gcb::SM) == (gcb != Gcb::EX && (gc == Gc::Mc || c == 0xE33 || c == 0xEB3) && !sm_not));
    need("GCB=Prepend as UAX #29 derives it", (gcb == Gcb::PP) == (matches!(insc, Insc::Consonant_Preceding_Repha | Insc::Consonant_Prefixed) || x.pcm()));
    need("GCB=Control as UAX #29 derives it", (gcb == Gcb::CN) == ((matches!(gc, Gc::Zl | Gc::Zp | Gc::Cc | Gc::Cf) || gc == Gc::Cn && x.di()) && !matches!(c, 0xD | 0xA | 0x200C | 0x200D) && !x.pcm() && gcb != Gcb::EX));
    need("the retired values are not used", !matches!(gcb, Gcb::EB | Gcb::EBG | Gcb::EM | Gcb::GAZ) && !matches!(wb, Wb::EB | Wb::EBG | Wb::EM | Wb::GAZ));
    // word break as UAX #29 derives it
    need("WB of quotes and joiner", (wb == Wb::SQ) == (c == 0x27) && (wb == Wb::DQ) == (c == 0x22) && (wb == Wb::ZWJ) == (c == 0x200D));
    need("WB=Newline", (wb == Wb::NL) == range(&[(0xB, 0xC), (0x85, 0x85), (0x2028, 0x2029)]));
    need("WB=Extend as UAX #29 derives it", (wb == Wb::Extend) == ((x.gr_ext() || gc == Gc::Mc || x.emod()) && c != 0x200D));
    need("WB=Hebrew_Letter as UAX #29 derives it", (wb == Wb::HL) == (sc == Sc::Hebr && gc == Gc::Lo));
    need("WB=WSegSpace are spaces", imp(wb == Wb::WSegSpace, gc == Gc::Zs));
    need("WB=Format are format characters", imp(wb == Wb::FO, gc == Gc::Cf) && imp(gc == Gc::Cf, matches!(wb, Wb::FO | Wb::ZWJ | Wb::NU | Wb::LE | Wb::Extend | Wb::XX)));
    need("connector punctuation is ExtendNumLet", imp(gc == Gc::Pc, wb == Wb::EX));
    need("unassigned, private use and surrogates have no word break class", imp(matches!(gc, Gc::Cn | Gc::Co | Gc::Cs), wb == Wb::XX));
    need("WB=Katakana is in the scripts of Japan", imp(wb == Wb::KA, matches!(sc, Sc::Kana | Sc::Zyyy)) && imp(sc == Sc::Kana && gc == Gc::Lo, wb == Wb::KA));
    // contributory properties add to what they complete, without repeating it
    need("Other_Lowercase adds to Ll, Other_Uppercase to Lu", !(x.olower() && gc == Gc::Ll) && !(x.oupper() && gc == Gc::Lu));
    need("Other_Math adds to Sm", !(x.omath() && gc == Gc::Sm));
    need("Other_Grapheme_Extend adds to Mn and Me", !(x.ogr_ext() && matches!(gc, Gc::Mn | Gc::Me)));
    need("Other_ID_Start adds to letters", !(x.oids() && matches!(gc, Gc::Lu | Gc::Ll | Gc::Lt | Gc::Lm | Gc::Lo | Gc::Nl)));
    need("Other_ID_Continue adds to ID_Start, marks, digits and connectors", !(x.oidc() && (x.ids() || matches!(gc, Gc::Mn | Gc::Mc | Gc::Nd | Gc::Pc))));
    need("Other_Default_Ignorable adds to Cf and variation selectors", !(x.odi() && (gc == Gc::Cf || x.vs())));
    need("Other_Alphabetic adds to letters and letter numbers", !(x.oalpha() && matches!(gc, Gc::Lu | Gc::Ll | Gc::Lt | Gc::Lm | Gc::Lo | Gc::Nl)));
    need("dash punctuation is Dash", imp(gc == Gc::Pd, x.dash()));
    need("Sentence_Terminal implies Terminal_Punctuation", imp(x.sterm(), x.term()));
    need("quotation marks are punctuation", imp(x.qmark(), matches!(gc, Gc::Pi | Gc::Pf | Gc::Po | Gc::Ps | Gc::Pe)));
    need("Logical_Order_Exception are vowels before their consonant", imp(x.loe(), gc == Gc::Lo && insc == Insc::Vowel_Dependent));
    need("Prepended_Concatenation_Mark are not ignorable", imp(x.pcm(), !x.di()));
    // emoji
    need("Emoji_Modifier is 1F3FB..1F3FF", x.emod() == range(&[(0x1F3FB, 0x1F3FF)]));
    need("Emoji_Modifier_Base and Emoji_Presentation", imp(x.ebase(), x.ext_pict()) && imp(x.epres(), x.ext_pict() || x.ri() || x.emod()));
    need("Emoji_Component is the fixed set", x.ecomp() == (x.ri() || x.emod() || range(&[(0x23, 0x23), (0x2A, 0x2A), (0x30, 0x39), (0x200D, 0x200D), (0x20E3, 0x20E3), (0xFE0F, 0xFE0F), (0x1F9B0, 0x1F9B3), (0xE0020, 0xE007F)])));
    need("Extended_Pictographic is a symbol, 2139 or reserved", imp(x.ext_pict(), matches!(gc, Gc::So | Gc::Cn | Gc::Sm | Gc::Po | Gc::Pd | Gc::Ll)));
    // decompositions
    need("what a character decomposes to is assigned", dm.chars().all(|d| d.gc() != Gc::Cn));
    need("no character decomposes to itself", dm.chars().all(|d| d as u32 != c));
    need("widths by name", imp(dt == Dt::Wide, na.starts_with("FULLWIDTH ") || c == 0x3000) && imp(dt == Dt::Nar, na.starts_with("HALFWIDTH ")) && imp(na.starts_with("FULLWIDTH "), dt == Dt::Wide) && imp(na.starts_with("HALFWIDTH "), dt == Dt::Nar));
    need("Arabic forms by name", [(Dt::Iso, " ISOLATED FORM"), (Dt::Init, " INITIAL FORM"), (Dt::Med, " MEDIAL FORM"), (Dt::Fin, " FINAL FORM")].iter().all(|(t, e)| imp(dt != Dt::None && na.ends_with(e), dt == *t)));
    need("fractions by name", imp(dt == Dt::Fra, na.contains("FRACTION")));
    need("compatibility ideographs decompose to one unified ideograph", imp(na.starts_with("CJK COMPATIBILITY IDEOGRAPH-"), x.uideo() && dt == Dt::None || dt == Dt::Can && dtc == 1 && dm.chars().all(|d| d.uideo())));
    // what never has case
    need("titlecase letters", imp(gc == Gc::Lt, !x.lower() && !x.upper() && x.cased()));
    need("Soft_Dotted characters are Lowercase", imp(x.sd(), x.lower() || gc == Gc::Ll || gc == Gc::Lm));
    need("Inherited are marks and joiners", imp(sc == Sc::Zinh, matches!(gc, Gc::Mn | Gc::Me | Gc::Mc | Gc::Cf)));
    need("Common and Inherited are assigned", imp(matches!(sc, Sc::Zyyy | Sc::Zinh), gc != Gc::Cn));
    need("unassigned code points have no other class", imp(gc == Gc::Cn, ccc == 0 && insc == Insc::Other && hst == Hst::NA && dt == Dt::None && x.incb() == Incb::None));
    s.nontrivial = gc != seshat::unicode::props::Gc::Cn;
}

// C31: the generated tables only, against whatever tables VMON_TABLES names
pub struct Generated {
    t: Tables,
    dm: std::collections::HashMap<u32, (bool, Vec<u32>)>,
    na: oracle::Names,
}
impl Generated {
    pub fn new(bools: &[&str]) -> Generated {
        Generated { t: Tables::new(&["gc", "blk", "sc", "age", "hst", "gcb", "bc", "ccc", "dt", "wb", "insc"], bools), dm: oracle::dm(), na: oracle::Names::load() }
    }
    pub fn check(&self, c: u32, s: &mut Sink) {
        self.t.check(c, s);
        if !(0xAC00..=0xD7AF).contains(&c) {
            let want = self.dm.get(&c).map(|x| x.1.clone()).unwrap_or_default();
            s.obs(1);
            let got = to_u32(&cp(c).dm());
            if got != want {
                s.fail(format!("U+{:04X} dm: expected {}, got {}", c, hex(&want), hex(&got)));
            }
        }
        check_na(&self.na, c, s);
    }
}
pub fn run_generated(run: &Run, bools: &[&str]) {
    let g = Generated::new(bools);
    run.phase("every code point", N as u64, 1024, true, &|c, s| if let Case::Cp(c) = c { g.check(*c, s) }, |i, _, ex| ex(Case::Cp(i as u32)));
}
