//! C40: what the crate says about a numbered question, as a digest or as text,
//! from one source compiled for several targets (x86-64, wasm32 in node, s390x
//! in Miri).  Questions are made with 64-bit arithmetic only, so that the same
//! number is the same question everywhere.
#[allow(dead_code)]
#[path = "../../harness/src/api.rs"]
mod api;
#[allow(dead_code)]
#[path = "../../harness/src/p_work.rs"]
mod p_work;
#[allow(dead_code, unused_imports)]
#[path = "../../harness/src/variants.rs"]
mod variants;
/// the generator of `vmon`, without its usize
mod core {
    pub struct Rng(pub u64);
    impl Rng {
        pub fn new(seed: u64, stream: u64) -> Rng {
            let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ stream.wrapping_mul(0xD1B54A32D192ED03) ^ 0x1234567);
            for _ in 0..4 {
                r.next();
            }
            r
        }
        pub fn next(&mut self) -> u64 {
            self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = self.0;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        }
        pub fn below(&mut self, n: u64) -> u64 {
            self.next() % n
        }
    }
}
use self::core::Rng;
use seshat::collections::TwoStageTable;
use seshat::unicode::{CodePoint, Normalization, Segmentation, Ucd, UnicodeVersion};

/// Takes answers; hashes them, and spells them out on demand.
pub struct Said {
    pub hash: u64,
    pub n: u64,
    pub text: Option<String>,
}
impl Said {
    pub fn new(text: bool) -> Said {
        Said { hash: 0xcbf29ce484222325, n: 0, text: if text { Some(String::new()) } else { None } }
    }
    fn byte(&mut self, b: u8) {
        self.hash = (self.hash ^ b as u64).wrapping_mul(0x100000001b3);
    }
    fn num(&mut self, what: &str, v: u64) {
        self.n += 1;
        for i in 0..8 {
            self.byte((v >> (8 * i)) as u8);
        }
        if let Some(t) = &mut self.text {
            t.push_str(&format!("{}={}\n", what, v));
        }
    }
    fn str(&mut self, what: &str, v: &str) {
        self.n += 1;
        v.bytes().for_each(|b| self.byte(b));
        self.byte(0xFF);
        if let Some(t) = &mut self.text {
            let v: Vec<String> = v.chars().map(|c| if (' '..='~').contains(&c) { c.to_string() } else { format!("<{:04X}>", c as u32) }).collect();
            t.push_str(&format!("{}=\"{}\"\n", what, v.concat()));
        }
    }
}

fn code_point(c: u32, s: &mut Said) {
    let x = api::cp(c);
    for b in api::BOOLS {
        s.num(b.name, (b.cp)(c) as u64);
    }
    for e in api::ENUMS {
        s.num(e.name, (e.cp_id)(c) as u64);
    }
    s.num("to_u32", x.to_u32() as u64);
    s.str("na", &x.na());
    s.str("dm", &x.dm());
    s.str("display", &x.to_string());
    if let Some(ch) = char::from_u32(c) {
        for b in api::BOOLS {
            s.num(b.name, (b.ch)(ch) as u64);
        }
        for e in api::ENUMS {
            s.num(e.name, (e.ch_id)(ch) as u64);
        }
        s.str("na of the char", &ch.na());
        s.str("dm of the char", &ch.dm());
        about_text(&ch.to_string(), true, s);
        about_text(&format!("a{}\u{301}\u{323}", ch), true, s);
    }
}
fn about_text(t: &str, norm: bool, s: &mut Said) {
    for g in t.break_graphemes() {
        s.num("cluster at", (g.as_ptr() as usize - t.as_ptr() as usize) as u64);
        s.num("cluster of", g.len() as u64);
    }
    if norm {
        s.str("nfd", &t.to_nfd());
        s.str("nfkd", &t.to_nfkd());
        s.str("nfc", &t.to_nfc());
        s.str("nfkc", &t.to_nfkc());
    }
}
fn any_char(r: &mut Rng) -> char {
    const AREAS: &[(u32, u32)] = &[
        (0x20, 0x7E), (0xA0, 0x24F), (0x300, 0x36F), (0x370, 0x3FF), (0x590, 0x6FF), (0x900, 0xDFF), (0xF00, 0xFFF), (0x1100, 0x11FF), (0x1E00, 0x1FFF), (0x2000, 0x206F), (0x20D0, 0x20F0),
        (0x2100, 0x24FF), (0x3040, 0x30FF), (0x3200, 0x33FF), (0xAC00, 0xD7A3), (0xF900, 0xFDFF), (0xFE00, 0xFE2F), (0xFF00, 0xFFEF), (0x11000, 0x119FF), (0x1D100, 0x1D7FF), (0x1F1E6, 0x1F1FF),
        (0x1F300, 0x1FAFF), (0x2F800, 0x2FA1D), (0x0A, 0x0D), (0x200C, 0x200D), (0xE0020, 0xE007F), (0, 0xD7FF), (0xE000, 0x10FFFF), (0x1E000, 0x1E95F), (0x300, 0x345),
    ];
    loop {
        let (a, b) = AREAS[r.below(AREAS.len() as u64) as usize];
        if let Some(c) = char::from_u32(a + r.below((b - a + 1) as u64) as u32) {
            return c;
        }
    }
}
fn a_text(seed: u64, i: u64) -> (String, bool) {
    let mut r = Rng::new(seed, i);
    let mut t = String::new();
    // long ones now and then
    let n = if i % 256 == 255 { 20_000 } else if i % 16 == 15 { 300 } else { r.below(24) };
    match i % 4 {
        0 => {
            let k = p_work::KINDS[r.below(p_work::KINDS.len() as u64) as usize];
            let norm = n < 100 || !(k.starts_with("giant") || k == "pict-extends");
            return (p_work::text(k, n as usize, r.next()), norm);
        }
        1 => (0..n).for_each(|_| t.push(any_char(&mut r))),
        _ => {
            while (t.len() as u64) < n {
                if r.below(3) == 0 {
                    t.push(any_char(&mut r));
                } else {
                    let k = p_work::KINDS[r.below(33) as usize];
                    t.push_str(&p_work::text(k, 1 + r.below(3) as usize, r.next()));
                }
            }
        }
    }
    (t, true)
}
/// short, mostly ASCII: where a word at a time is treated, every lane is met
fn short_text(seed: u64, i: u64) -> String {
    const ACTIVE: &[&str] = &["\u{E9}", "\u{301}", "\u{323}", "\u{AC01}", "\u{1100}\u{1161}", "\u{FB01}", "\u{1F468}\u{200D}\u{1F469}", "\u{1F1E6}\u{1F1E7}", "\u{2126}", "\u{1D15E}", "\u{212A}", "\u{915}\u{94D}\u{937}", "\r\n", "\u{B5}"];
    let mut r = Rng::new(seed, 0x5407 + i);
    let mut t: Vec<String> = (0..4 + i % 16).map(|_| ((b'a' + r.below(26) as u8) as char).to_string()).collect();
    for _ in 0..1 + r.below(3) {
        let (at, x) = (r.below(t.len() as u64) as usize, ACTIVE[r.below(ACTIVE.len() as u64) as usize]);
        t.insert(at, x.to_string());
    }
    t.concat()
}
/// texts whose offsets and clusters pass 65,536 bytes (and scalars), for what
/// packs them where a usize has 32 bits; made of one kind, of a few units over
/// and over, or with something short before or after something endless
fn long_text(seed: u64, i: u64) -> (String, bool) {
    let mut r = Rng::new(seed, 0x10A6 + i);
    let kinds = p_work::KINDS.len() as u64;
    let (k, n) = (p_work::KINDS[(i % kinds) as usize], 22_000 + r.below(50_000));
    let norm = !(k.starts_with("giant") || k == "pict-extends");
    let mut t: String = (0..r.below(4)).map(|_| any_char(&mut r)).collect();
    match i / kinds % 3 {
        0 => t.push_str(&p_work::text(k, n as usize, r.next())),
        // quiet, then the kind at a far place
        1 => {
            (0..65_500 + r.below(80)).for_each(|_| t.push('a'));
            t.push_str(&p_work::text(k, 60, r.next()));
        }
        _ => {
            let u = p_work::text(k, 2 + r.below(3) as usize, r.next());
            while t.len() < 66_000 {
                t.push_str(&u);
            }
        }
    }
    (0..r.below(6)).for_each(|_| t.push(any_char(&mut r)));
    (t, norm)
}
/// a table of one shape, read at every code point
fn table(seed: u64, i: u64, s: &mut Said) {
    let mut r = Rng::new(seed, 0x7AB1E + i);
    let bs = [16u64, 64, 128, 256, 512, 1, 34, 4096, 0x10000, 0x20000][(i % 10) as usize];
    let cells = 1 + r.below(if bs == 1 { 70_000 } else { (0x110000 / bs).min(2000) });
    let most = if i / 10 % 5 == 0 { 256 } else { 65536 };
    let blocks: Vec<Vec<u32>> = (0..(1 + r.below(cells.min(most).min(1 + (1 << 20) / bs)))).map(|_| (0..bs).map(|_| r.next() as u32).collect()).collect();
    let s1: Vec<u64> = (0..cells).map(|_| r.below(blocks.len() as u64)).collect();
    let s2: Vec<&[u32]> = blocks.iter().map(|b| &b[..]).collect();
    let step = 1 + cells * bs / 5000;
    macro_rules! read { ($t:ty) => {{
        let s1: Vec<$t> = s1.iter().map(|x| *x as $t).collect();
        let t = TwoStageTable::new(&s1, &s2, bs as usize);
        let mut c = 0;
        while c < cells * bs {
            let v = t.at(c as u32);
            s.num("entry", v as u64);
            c += step;
        }
        s.num("last", t.at((cells * bs - 1) as u32) as u64);
    }} }
    match i / 10 % 5 {
        0 => read!(u8),
        1 => read!(u16),
        2 => read!(u32),
        3 => read!(u64),
        _ => read!(usize),
    }
}
fn constructor(seed: u64, i: u64, s: &mut Said) {
    let mut r = Rng::new(seed, 0xC0 + i);
    let x = r.next() as u32;
    for v in [x, x >> r.below(32), (1u32 << r.below(32)).wrapping_add(r.below(5) as u32).wrapping_sub(2), 0x110000u32.wrapping_add(r.below(9) as u32).wrapping_sub(4), 0xD800 + r.below(0x800) as u32] {
        match CodePoint::new(v) {
            Ok(c) => {
                s.num("accepted", c.to_u32() as u64);
                s.str("display", &c.to_string());
            }
            Err(e) => s.str("refused", &e.to_string()),
        }
    }
    let v: Vec<u64> = (0..6).map(|_| r.below(4)).collect();
    let (a, b) = (UnicodeVersion { major: v[0] as _, minor: v[1] as _, update: v[2] as _ }, UnicodeVersion { major: v[3] as _, minor: v[4] as _, update: v[5] as _ });
    s.str("version", &a.to_string());
    s.num("order", order(&a, &b));
    // numbers whose bytes, read in the other order, compare the other way
    let mut part = || match r.below(4) {
        0 => r.next() as u32,
        1 => (1u32 << (8 * r.below(4))).wrapping_add(r.below(3) as u32).wrapping_sub(1),
        2 => (r.below(4) << (8 * r.below(4))) as u32,
        _ => r.below(300) as u32,
    };
    for k in 0..6 {
        let (a, b, c, q) = (part(), part(), part(), part());
        let p = UnicodeVersion { major: a as _, minor: b as _, update: c as _ };
        let mut o = UnicodeVersion { major: a as _, minor: b as _, update: c as _ };
        match k % 3 {
            0 => o.major = q as _,
            1 => o.minor = q as _,
            _ => o.update = q as _,
        }
        s.str("version", &p.to_string());
        s.num("order", order(&p, &o));
        s.num("order", order(&o, &p));
    }
}
fn order(a: &UnicodeVersion, b: &UnicodeVersion) -> u64 {
    let o = match a.partial_cmp(b) {
        None => 0,
        Some(std::cmp::Ordering::Less) => 1,
        Some(std::cmp::Ordering::Equal) => 2,
        Some(std::cmp::Ordering::Greater) => 3,
    };
    o * 16 + (a < b) as u64 + 2 * (a == b) as u64 + 4 * (a > b) as u64
}
fn names(i: u64, s: &mut Said) {
    let e = &api::ENUMS[(i as usize) % api::ENUMS.len()];
    let n = (e.values)().len();
    for k in 0..n {
        let (f, a) = (e.value_name)(k);
        s.str("full", &f);
        s.str("abbr", &a);
        s.num("id", (e.ids)()[k] as u64);
        s.str("debug", &(e.value_dbg)(k));
    }
}
pub fn sampled(seed: u64, i: u64) -> u32 {
    let mut r = Rng::new(seed, 0x5A + i);
    match i % 4 {
        0 => r.below(0x110000) as u32,
        1 => (r.below(0x11) * 0x10000 + r.below(64) * 1024 + r.below(8)) as u32,
        _ => any_char(&mut r) as u32,
    }
}
/// What the crate says about question `i` of a kind.
pub fn say(kind: u32, seed: u64, i: u64, s: &mut Said) {
    match kind {
        0 => code_point(i as u32, s),
        1 => code_point(sampled(seed, i), s),
        2 => {
            let (t, norm) = a_text(seed, i);
            s.num("length", t.len() as u64);
            about_text(&t, norm, s);
        }
        6 => about_text(&short_text(seed, i), true, s),
        7 => {
            let (t, norm) = long_text(seed, i);
            s.num("length", t.len() as u64);
            about_text(&t, norm, s);
        }
        3 => table(seed, i, s),
        4 => constructor(seed, i, s),
        _ => names(i, s),
    }
}
pub fn question(kind: u32, seed: u64, i: u64) -> String {
    match kind {
        0 => format!("cp {:04X}", i),
        1 => format!("cp {:04X}", sampled(seed, i)),
        2 => {
            let t = a_text(seed, i).0;
            format!("str {}{}", t.chars().take(40).map(|c| format!("{:04X}", c as u32)).collect::<Vec<_>>().join(" "), if t.chars().count() > 40 { " ..." } else { "" })
        }
        6 => format!("str {}", short_text(seed, i).chars().map(|c| format!("{:04X}", c as u32)).collect::<Vec<_>>().join(" ")),
        7 => format!("text long text {} of seed {}", i, seed),
        3 => format!("text table {} of seed {}", i, seed),
        4 => format!("text constructor {} of seed {}", i, seed),
        _ => format!("text names of {}", api::ENUMS[(i as usize) % api::ENUMS.len()].name),
    }
}

// ------------------------------------------------------------- for node
static mut BUF: Vec<u8> = Vec::new();
/// digest of questions from..to, xor of their number of answers in `asked`
#[no_mangle]
pub extern "C" fn digest(kind: u32, seed: u32, from: u32, to: u32) -> u64 {
    let mut s = Said::new(false);
    for i in from..to {
        say(kind, seed as u64, i as u64, &mut s);
    }
    s.hash
}
#[no_mangle]
pub extern "C" fn describe(kind: u32, seed: u32, i: u32) -> u32 {
    let mut s = Said::new(true);
    say(kind, seed as u64, i as u64, &mut s);
    let t = s.text.unwrap_or_default().into_bytes();
    let n = t.len() as u32;
    // one thread, read at once by the host
    unsafe { *(&raw mut BUF) = t };
    n
}
#[no_mangle]
pub extern "C" fn described() -> usize {
    unsafe { (*(&raw const BUF)).as_ptr() as usize }
}
#[no_mangle]
pub extern "C" fn pointer_bits() -> u32 {
    usize::BITS
}
