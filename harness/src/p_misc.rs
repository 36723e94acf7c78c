//! CodePoint / UnicodeVersion basics, value names, the two-stage table.
use crate::api::*;
use crate::core::*;
use crate::oracle::N;
use seshat::collections::TwoStageTable;
use seshat::unicode::props::*;
use seshat::unicode::{CodePoint, ToCodePoint, UnicodeVersion, UNICODE_VERSION};

// ------------------------------------------------------------------- C19
pub fn check_codepoint(c: u32, s: &mut Sink) {
    s.nontrivial = true;
    s.obs(4);
    match CodePoint::new(c) {
        Err(_) if c > 0x10FFFF => return,
        Err(e) => return s.fail(format!("CodePoint::new(0x{:X}) is refused: {}", c, e)),
        Ok(p) if c > 0x10FFFF => return s.fail(format!("CodePoint::new(0x{:X}) is accepted as {}", c, p.to_u32())),
        Ok(p) => {
            let q = p;
            let r = p.clone();
            if p.to_u32() != c || q.to_u32() != c || r.to_u32() != c {
                s.fail(format!("CodePoint::new(0x{:X}).to_u32() is 0x{:X}", c, p.to_u32()));
            }
            // U+ followed by at least four upper-case hex digits
            let d: &[u8] = b"0123456789ABCDEF";
            let mut w = vec![];
            let mut x = c;
            while x > 0 || w.len() < 4 {
                w.push(d[(x & 15) as usize]);
                x >>= 4;
            }
            w.extend(b"+U");
            w.reverse();
            let want = String::from_utf8(w).unwrap();
            let (a, b) = (p.to_string(), format!("<{}>", p));
            if a != want || b != format!("<{}>", want) {
                s.fail(format!("0x{:X} is displayed as {:?}, not {:?}", c, a, want));
            }
        }
    }
    if let Some(ch) = char::from_u32(c) {
        if ch.to_code_point().to_u32() != c {
            s.fail(format!("char U+{:04X} converts to code point 0x{:X}", c, ch.to_code_point().to_u32()));
        }
    }
}
fn check_version(a: [u32; 3], b: [u32; 3], s: &mut Sink) {
    let mk = |v: [u32; 3]| UnicodeVersion { major: v[0], minor: v[1], update: v[2] };
    let (x, y) = (mk(a), mk(b));
    s.obs(8);
    s.nontrivial = a != b;
    if x.to_string() != format!("{}.{}.{}", a[0], a[1], a[2]) {
        s.fail(format!("version {:?} prints as {:?}", a, x.to_string()));
    }
    if (x == y) != (a == b) || (x != y) == (a == b) {
        s.fail(format!("versions {:?} == {:?}: {}", a, b, x == y));
    }
    if x.partial_cmp(&y) != a.partial_cmp(&b) || (x < y) != (a < b) || (x <= y) != (a <= b) || (x > y) != (a > b) || (x >= y) != (a >= b) {
        s.fail(format!("versions {:?} and {:?} compare as {:?}", a, b, x.partial_cmp(&y)));
    }
    let z = x.clone();
    if z.major != a[0] || z.minor != a[1] || z.update != a[2] {
        s.fail(format!("a copy of version {:?} differs", a));
    }
}
fn triple(t: &str) -> Option<[u32; 3]> {
    let v: Vec<u32> = t.split('.').filter_map(|x| x.parse().ok()).collect();
    Some([*v.first()?, *v.get(1)?, *v.get(2)?])
}
pub fn check_basics(c: &Case, s: &mut Sink) {
    match c {
        Case::Cp(c) => check_codepoint(*c, s),
        Case::Text(t) => {
            let mut w = t.split(' ').filter_map(triple);
            if let (Some(a), Some(b)) = (w.next(), w.next()) {
                check_version(a, b, s)
            }
        }
        _ => {}
    }
}
pub fn run_basics(run: &Run) {
    run.phase("every code point value and the first invalid ones", N as u64 + 70_000, 2048, true, &check_basics, |i, _, ex| ex(Case::Cp(i as u32)));
    run.phase("invalid values", 33 * 64, 64, false, &check_basics, |i, _, ex| {
        let (b, k) = (i / 64, i % 64);
        ex(Case::Cp(((1u64 << b).wrapping_add(k).wrapping_sub(32)) as u32));
        ex(Case::Cp((u32::MAX).wrapping_sub((i * 2017) as u32)));
    });
    // all 2^32 values of the constructor (acceptance only)
    let step = 1u64 << 20;
    run.phase("constructor over all of u32", (1u64 << 32) / step, 8, true, &|c, s| {
        let Case::Text(t) = c else { return };
        let a: u64 = t.trim_start_matches("u32 block ").parse().unwrap();
        s.nontrivial = true;
        s.obs(step);
        for x in a..a + step {
            let ok = CodePoint::new(x as u32).is_ok();
            if ok != (x <= 0x10FFFF) {
                s.fail(format!("CodePoint::new(0x{:X}) is_ok = {}", x, ok));
                return;
            }
        }
    }, |i, _, ex| ex(Case::Text(format!("u32 block {}", i * step))));
    run.phase("versions", run.scale(200_000, 2_000_000), 512, false, &check_basics, |_, r, ex| {
        const V: [u32; 9] = [0, 1, 2, 9, 10, 15, 255, 256, u32::MAX];
        let mut v = || [r.pick(&V), r.pick(&V), r.pick(&V)];
        let (mut a, b) = (v(), v());
        if let Some(n) = crate::dict::dict().and_then(|d| d.near(r)) {
            a[r.below(3)] = n as u32;
        }
        let b = if r.chance(4) { a } else if r.chance(3) { [a[0], b[1], b[2]] } else if r.chance(3) { [a[0], a[1], b[2]] } else { b };
        ex(Case::Text(format!("{}.{}.{} {}.{}.{}", a[0], a[1], a[2], b[0], b[1], b[2])));
    });
    if [UNICODE_VERSION.major, UNICODE_VERSION.minor, UNICODE_VERSION.update] != [15, 1, 0] || UNICODE_VERSION.to_string() != "15.1.0" {
        run.add_viol(Viol { case: Case::Text("UNICODE_VERSION".into()), what: format!("reported Unicode version is {}", UNICODE_VERSION.to_string()), history: vec![] });
    }
    run.note(1, 0, 1);
}

// ------------------------------------------------------------------- C17
pub fn check_name(c: &Case, s: &mut Sink) {
    match c {
        Case::Text(t) => {
            let (p, k) = t.split_once('#').unwrap();
            let k: usize = k.parse().unwrap();
            if p == "bool" {
                let n = BinaryProperty::from(k == 1).property_value_name();
                let w = if k == 1 { ("Yes", "Y") } else { ("No", "N") };
                s.obs(2);
                if (n.full, n.abbr) != w {
                    s.fail(format!("binary value {} is named {}/{}", k, n.full, n.abbr));
                }
                let m = (if k == 1 { BinaryProperty::Y } else { BinaryProperty::N }).property_value_name();
                if (m.full, m.abbr) != w || (BinaryProperty::from(k == 1) == BinaryProperty::Y) != (k == 1) {
                    s.fail(format!("binary value {} is named {}/{}", k, m.full, m.abbr));
                }
                return;
            }
            let e = enum_obs(p);
            let (abbr, full) = (e.names)()[k];
            let (gf, ga) = (e.value_name)(k);
            s.nontrivial = true;
            s.obs(2);
            if gf != full || ga != abbr {
                s.fail(format!("{} value {}: expected names {}/{}, got {}/{}", p, (e.value_dbg)(k), full, abbr, gf, ga));
            }
            // the value is equal to itself and to no other
            let n = (e.ids)().len();
            for j in 0..n {
                s.observed += 1;
                if (e.eq)(k, j) != (k == j) {
                    s.fail(format!("{} values {} and {}: == says {}", p, (e.value_dbg)(k), (e.value_dbg)(j), (e.eq)(k, j)));
                }
            }
        }
        Case::Cp(c) => {
            // names as reached from a character
            thread_local!(static T: Vec<crate::oracle::Prop> = ENUMS.iter().map(|e| crate::oracle::prop(e.name)).collect());
            T.with(|t| {
                for (e, p) in ENUMS.iter().zip(t) {
                    let v = p.at(*c);
                    let k = (e.values)().iter().position(|x| *x == v).unwrap();
                    let (abbr, full) = (e.names)()[k];
                    let (gf, ga) = (e.cp_name)(*c);
                    s.observed += 1;
                    s.nontrivial = true;
                    if gf != full || ga != abbr {
                        s.fail(format!("U+{:04X} {}: expected value names {}/{}, got {}/{}", c, e.name, full, abbr, gf, ga));
                    }
                }
            });
        }
        _ => {}
    }
}
pub fn run_names(run: &Run) {
    let mut all = vec!["bool#0".to_string(), "bool#1".to_string()];
    for e in ENUMS {
        for k in 0..(e.ids)().len() {
            all.push(format!("{}#{}", e.name, k));
        }
    }
    run.phase("every value of every enumerated property", all.len() as u64, 8, true, &check_name, |i, _, ex| ex(Case::Text(all[i as usize].clone())));
    run.phase("value names, again in random order", 20_000, 64, false, &check_name, |_, r, ex| ex(Case::Text(all[r.below(all.len())].clone())));
    run.phase("value names reached from code points", run.scale(20_000, 200_000), 256, false, &check_name, |_, r, ex| ex(Case::Cp(crate::p_cp::interesting(r))));
}

// ------------------------------------------------------------------- C20
fn mk<'a, I: Copy + TryFrom<usize>>(idx: &[usize]) -> Vec<I> {
    idx.iter().map(|i| I::try_from(*i).ok().unwrap()).collect()
}
fn probe<T: Copy + PartialEq + std::fmt::Debug, I: Copy + TryFrom<usize> + num::Num + num::cast::AsPrimitive<usize>>(idx: &[usize], blocks: &[Vec<T>], bs: usize, order: &[u32], ty: &str, desc: &str, s: &mut Sink) {
    let st1: Vec<I> = mk(idx);
    let st2: Vec<&[T]> = blocks.iter().map(|b| &b[..]).collect();
    let t = TwoStageTable::new(&st1, &st2, bs);
    for &c in order {
        // reference: flat lookup
        let want = blocks[idx[c as usize / bs]][c as usize % bs];
        let got = t.at(c);
        s.observed += 1;
        if got != want {
            s.fail(format!("{} ({} index): at({}) is {:?}, expected {:?}", desc, ty, c, got, want));
            return;
        }
    }
}
/// A table that does not cover what is asked (short blocks, block numbers past
/// the second stage, a short first stage): the lookup may panic or answer, but
/// it stays inside its data. Judged by whatever watches memory (C30).
fn check_ragged(t: &str, s: &mut Sink) {
    let w: Vec<u64> = t.split(' ').map(|x| x.parse().unwrap()).collect();
    let (bs, nb, n1, mut r) = (w[0] as usize, w[1] as usize, w[2] as usize, Rng::new(w[3], 78));
    let blocks: Vec<Box<[u32]>> = (0..nb).map(|_| (0..if r.chance(2) { bs } else { r.below(bs + 1) }).map(|i| i as u32).collect::<Vec<_>>().into_boxed_slice()).collect();
    let st2: Box<[&[u32]]> = blocks.iter().map(|b| &b[..]).collect::<Vec<_>>().into_boxed_slice();
    let wild = r.below(3);
    let st1: Box<[u16]> = (0..n1).map(|_| if wild > 0 && r.chance(4) { nb + r.below(if wild == 1 { 2 } else { 60_000 }) } else { r.below(nb) } as u16).collect::<Vec<_>>().into_boxed_slice();
    let st1u: Box<[u64]> = st1.iter().map(|x| if r.chance(20) { (1u64 << 32) + *x as u64 } else { *x as u64 }).collect::<Vec<_>>().into_boxed_slice();
    let (a, b) = (TwoStageTable::new(&st1, &st2, bs), TwoStageTable::new(&st1u, &st2, bs));
    s.nontrivial = true;
    let total = (bs * n1) as u32;
    for _ in 0..60 {
        let i = match r.below(4) { 0 => r.below(total as usize + 1) as u32, 1 => total + r.below(300) as u32, 2 => r.below(0x110000) as u32, _ => r.pick(&[total - 1, total, u32::MAX, 0x10FFFF, 1 << 31]) };
        for k in 0..2 {
            s.observed += 1;
            if let Ok(x) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if k == 0 { a.at(i) } else { b.at(i) })) {
                std::hint::black_box(x);
                s.tags.push("ragged lookups that answered");
            } else {
                s.tags.push("ragged lookups that panicked");
            }
        }
    }
}
pub fn check_table(c: &Case, s: &mut Sink) {
    let Case::Text(t) = c else { return };
    if let Some(t) = t.strip_prefix("ragged ") {
        return check_ragged(t, s);
    }
    // "bs nblocks nstage1 seed kind"
    let w: Vec<u64> = t.split(' ').map(|x| x.parse().unwrap()).collect();
    let (bs, nb, n1, seed, kind) = (w[0] as usize, w[1] as usize, w[2] as usize, w[3], w[4]);
    let mut r = Rng::new(seed, 77);
    let blocks: Vec<Vec<u32>> = (0..nb).map(|b| (0..bs).map(|i| (b * 1_000_003 + i * 17) as u32 ^ (r.next() as u32 & 0xFF00_0000)).collect()).collect();
    let idx: Vec<usize> = (0..n1).map(|i| match kind % 3 { 0 => r.below(nb), 1 => i % nb, _ => nb - 1 - i % nb }).collect();
    let total = bs * n1;
    let mut order: Vec<u32> = vec![0, (total - 1) as u32];
    if total <= 4000 {
        order.extend(0..total as u32);
        order.extend((0..total as u32).rev());
    } else {
        for _ in 0..2000 {
            order.push(r.below(total) as u32);
        }
        for k in 0..n1.min(300) {
            let k = r.below(n1).max(k % n1);
            order.push((k * bs) as u32);
            order.push((k * bs + bs - 1) as u32);
        }
    }
    s.nontrivial = nb > 1;
    let d = format!("table with block size {}, {} blocks, {} stage-1 entries (seed {})", bs, nb, n1, seed);
    if nb <= 256 { probe::<u32, u8>(&idx, &blocks, bs, &order, "u8", &d, s); }
    if nb <= 65536 { probe::<u32, u16>(&idx, &blocks, bs, &order, "u16", &d, s); }
    probe::<u32, u32>(&idx, &blocks, bs, &order, "u32", &d, s);
    probe::<u32, u64>(&idx, &blocks, bs, &order, "u64", &d, s);
    probe::<u32, usize>(&idx, &blocks, bs, &order, "usize", &d, s);
    // other element types
    let b2: Vec<Vec<bool>> = blocks.iter().map(|b| b.iter().map(|x| x % 3 == 0).collect()).collect();
    if nb <= 256 { probe::<bool, u8>(&idx, &b2, bs, &order, "u8", &d, s); }
    if nb <= 65536 { probe::<bool, u16>(&idx, &b2, bs, &order, "u16", &d, s); }
    let b3: Vec<Vec<(u64, char)>> = blocks.iter().map(|b| b.iter().map(|x| ((*x as u64) << 20, 'x')).collect()).collect();
    probe::<(u64, char), u32>(&idx, &b3, bs, &order, "u32", &d, s);
    // two tables alive at once over the same data, interleaved
    let (i16, st2): (Vec<u32>, Vec<&[u32]>) = (mk(&idx), blocks.iter().map(|b| &b[..]).collect());
    let rev: Vec<&[u32]> = blocks.iter().rev().map(|b| &b[..]).collect();
    let (a, b) = (TwoStageTable::new(&i16, &st2, bs), TwoStageTable::new(&i16, &rev, bs));
    for &c in order.iter().take(600) {
        let k = idx[c as usize / bs];
        s.observed += 2;
        if a.at(c) != blocks[k][c as usize % bs] || b.at(c) != blocks[nb - 1 - k][c as usize % bs] {
            s.fail(format!("{}: two interleaved tables disturb each other at {}", d, c));
            return;
        }
    }
}
pub fn run_table(run: &Run) {
    run.phase("small tables, every shape", 40 * 8 * 8, 8, true, &check_table, |i, _, ex| {
        let (bs, nb, n1) = (1 + i % 40, 1 + i / 40 % 8, 1 + i / 320 % 8);
        ex(Case::Text(format!("{} {} {} {} {}", bs, nb, n1, i, i)));
    });
    run.phase("random tables", run.scale(3_000, 60_000), 8, false, &check_table, |_, r, ex| {
        const BS: [usize; 24] = [1, 2, 3, 7, 16, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 4096, 0x4000, 0x10000];
        const NB: [usize; 14] = [1, 2, 3, 5, 17, 100, 127, 128, 129, 254, 255, 256, 257, 600];
        let bs = if r.chance(4) { 1 + r.below(700) } else { r.pick(&BS) };
        let mut nb = r.pick(&NB);
        while bs * nb > 400_000 { nb = (nb / 2).max(1); if nb == 1 { break } }
        let n1 = (0x110000 / bs).min(1 + r.below(3000)).max(1);
        ex(Case::Text(format!("{} {} {} {} {}", bs, nb, n1, r.next() >> 1, r.below(3))));
    });
    // every block size, every number of blocks, every length of the index
    let most = run.scale(2_300, 8_000);
    run.phase("every length", 3 * most, 16, false, &check_table, |i, r, ex| {
        let k = (1 + i / 3) as usize;
        let (bs, nb, n1) = match i % 3 { 0 => (k, 1 + r.below(4), 1 + r.below(7)), 1 => (1 + r.below(5), k, k + r.below(3)), _ => (1 + r.below(5), 1 + r.below(9), k) };
        ex(Case::Text(format!("{} {} {} {} {}", bs, nb, n1, r.next() >> 1, r.below(3))));
    });
    if let Some(d) = crate::dict::dict() {
        run.phase("lengths of the dictionary", 200, 4, false, &check_table, |_, r, ex| {
            let Some(n) = d.near(r).filter(|n| (1..=300_000).contains(n)) else { return };
            let k = n as usize;
            let (bs, nb, n1) = match r.below(3) { 0 => (k, 1 + r.below(4), 1 + r.below(9)), 1 => (1 + r.below(3), k, k + r.below(3)), _ => (1 + r.below(3), 1 + r.below(9), k) };
            ex(Case::Text(format!("{} {} {} {} {}", bs, nb, n1, r.next() >> 1, r.below(3))));
        });
    }
    run.phase("tables covering the whole code space", run.scale(24, 200), 1, false, &check_table, |i, r, ex| {
        const BS: [usize; 12] = [1, 17, 64, 128, 256, 512, 1088, 4352, 0x10000, 0x11000, 0x110000, 34];
        let bs = BS[i as usize % 12];
        let n1 = (0x110000 + bs - 1) / bs;
        let nb = n1.min((1 << 20) / bs + 1).min(300);
        ex(Case::Text(format!("{} {} {} {} 0", bs, nb, n1, r.next() >> 1)));
    });
    run.phase("more than 65536 blocks", 2, 1, false, &check_table, |i, r, ex| ex(Case::Text(format!("{} 65537 65900 {} 1", 1 + i, r.next() >> 1))));
}

// ------------------------------------------------------------------- C01
pub fn check_total(c: &Case, s: &mut Sink) {
    use seshat::unicode::{Normalization, Segmentation, Ucd};
    let guard = |s: &mut Sink, what: &dyn Fn() -> String, f: &dyn Fn()| {
        s.observed += 1;
        if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f())) {
            s.fail(format!("{} panics: {}", what(), panic_msg(&e)));
        }
    };
    match c {
        Case::Cp(c) => {
            s.nontrivial = true;
            let c = *c;
            let ch = char::from_u32(c);
            for b in BOOLS {
                guard(s, &|| format!("CodePoint U+{:04X} {}()", c, b.name), &|| { (b.cp)(c); });
                if let Some(ch) = ch { guard(s, &|| format!("char U+{:04X} {}()", c, b.name), &|| { (b.ch)(ch); }); }
            }
            for b in ENUMS {
                guard(s, &|| format!("CodePoint U+{:04X} {}()", c, b.name), &|| { (b.cp_id)(c); });
                if let Some(ch) = ch { guard(s, &|| format!("char U+{:04X} {}()", c, b.name), &|| { (b.ch_id)(ch); }); }
            }
            guard(s, &|| format!("CodePoint U+{:04X} na()", c), &|| { cp(c).na(); });
            guard(s, &|| format!("CodePoint U+{:04X} dm()", c), &|| { cp(c).dm(); });
            guard(s, &|| format!("CodePoint U+{:04X} display", c), &|| { cp(c).to_string(); });
            if let Some(ch) = ch {
                guard(s, &|| format!("char U+{:04X} na()", c), &|| { ch.na(); });
                guard(s, &|| format!("char U+{:04X} dm()", c), &|| { ch.dm(); });
                guard(s, &|| format!("char U+{:04X} to_code_point()", c), &|| { ch.to_code_point(); });
                for ctx in [vec![c], vec![0x61, c, 0x301], vec![0x1F600, c, 0x1F600]] {
                    check_total(&Case::Str(ctx), s);
                }
            }
        }
        Case::Str(v) => {
            s.nontrivial = true;
            let t = to_string(v);
            if crate::p_norm::affordable(v) {
                guard(s, &|| format!("to_nfd() of {}", hex(v)), &|| { t.to_nfd(); });
                guard(s, &|| format!("to_nfkd() of {}", hex(v)), &|| { t.to_nfkd(); });
                guard(s, &|| format!("to_nfc() of {}", hex(v)), &|| { t.to_nfc(); });
                guard(s, &|| format!("to_nfkc() of {}", hex(v)), &|| { t.to_nfkc(); });
            }
            let n = std::cell::Cell::new(0);
            let lim = v.len() + 1;
            guard(s, &|| format!("break_graphemes() of {}", hex(v)), &|| n.set(t.break_graphemes().take(lim).count()));
            if n.get() >= lim {
                s.fail(format!("break_graphemes() of {} does not end: more clusters than code points", hex(v)));
            }
        }
        _ => {}
    }
}
pub fn run_total(run: &Run) {
    run.phase("every API entry on every code point", N as u64, 512, true, &check_total, |i, _, ex| ex(Case::Cp(i as u32)));
    run.phase("constructor refuses without panicking", 4096, 64, false, &|c, s| {
        if let Case::Cp(c) = c { s.nontrivial = true; s.obs(1); let _ = CodePoint::new(*c).is_ok(); }
    }, |i, r, ex| ex(Case::Cp(if i % 2 == 0 { 0x110000 + i as u32 } else { r.next() as u32 })));
    let n = crate::refnorm::RefNorm::new();
    crate::p_norm::strings(run, &n, &check_total, 8);
    let r = crate::refseg::RefSeg::new();
    crate::p_seg::strings(run, &r, 3, 8, &check_total);
}
