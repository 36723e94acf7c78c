//! Memory safety of the safe API (C30): what comes back is well formed, judged
//! by monitors that need no Unicode data, so that the same workload can run
//! under the UB-checking build, AddressSanitizer and Miri.
use crate::api::*;
use crate::core::*;
use seshat::unicode::{Normalization, Segmentation, Ucd};

/// A returned text must be valid UTF-8 all the way through its capacity-owned
/// bytes; walked byte by byte so that a sanitizer sees every one of them.
fn well_formed(who: &dyn Fn() -> String, b: &[u8], s: &mut Sink) {
    s.observed += 1;
    let mut sum = 0u64;
    for x in b {
        sum = sum.wrapping_mul(31).wrapping_add(*x as u64);
    }
    std::hint::black_box(sum);
    if std::str::from_utf8(b).is_err() {
        s.fail(format!("{} returned bytes that are not UTF-8: {:02X?}", who(), &b[..b.len().min(40)]));
    }
}
fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    // a panic is C01's subject; here it is a safe stop
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}
pub fn check_safe(c: &Case, s: &mut Sink) {
    s.nontrivial = true;
    match c {
        Case::Cp(c) => {
            let c = *c;
            let Some(x) = guard(|| cp(c)) else { return };
            let ch = char::from_u32(c);
            for b in BOOLS {
                // a bool whose byte is neither 0 nor 1 is undefined behaviour
                let mut one = |r: Option<bool>| {
                    if let Some(r) = r {
                        s.observed += 1;
                        let raw = unsafe { std::ptr::read_volatile(&r as *const bool as *const u8) };
                        if raw > 1 {
                            s.fail(format!("U+{:04X} {}(): a bool with value {}", c, b.name, raw));
                        }
                    }
                };
                one(guard(|| (b.cp)(c)));
                if let Some(ch) = ch {
                    one(guard(|| (b.ch)(ch)));
                }
            }
            for (e, ids) in ENUMS.iter().zip(ids()) {
                let mut one = |r: Option<u32>| {
                    if let Some(r) = r {
                        s.observed += 1;
                        if ids.binary_search(&r).is_err() {
                            s.fail(format!("U+{:04X} {}(): {} is no value of the property's type", c, e.name, r));
                        }
                    }
                };
                one(guard(|| (e.cp_id)(c)));
                if let Some(ch) = ch {
                    one(guard(|| (e.ch_id)(ch)));
                }
            }
            let mut txt = |n: &str, r: Option<String>| {
                if let Some(r) = r {
                    well_formed(&|| format!("U+{:04X} {}()", c, n), r.as_bytes(), s)
                }
            };
            txt("na", guard(|| x.na()));
            txt("dm", guard(|| x.dm()));
            txt("display", guard(|| x.to_string()));
            if let Some(ch) = ch {
                txt("na", guard(|| ch.na()));
                txt("dm", guard(|| ch.dm()));
            }
        }
        Case::Str(v) => {
            // exact-size heap buffer: reading one byte too far leaves it
            let t: Box<str> = to_string(v).into_boxed_str();
            if crate::p_norm::affordable(v) {
                for (n, r) in [("to_nfd", guard(|| t.to_nfd())), ("to_nfkd", guard(|| t.to_nfkd())), ("to_nfc", guard(|| t.to_nfc())), ("to_nfkc", guard(|| t.to_nfkc()))] {
                    if let Some(r) = r {
                        well_formed(&|| format!("{} of {}", n, hex(v)), r.as_bytes(), s);
                    }
                }
            }
            let (lo, hi) = (t.as_ptr() as usize, t.as_ptr() as usize + t.len());
            guard(|| {
                for g in t.break_graphemes().take(v.len() + 1) {
                    let (a, b) = (g.as_ptr() as usize, g.as_ptr() as usize + g.len());
                    if a < lo || b > hi || a > b {
                        s.fail(format!("a cluster of {} lies outside the text", hex(v)));
                        return;
                    }
                    well_formed(&|| format!("a cluster of {}", hex(v)), g.as_bytes(), s);
                }
            });
        }
        Case::Text(t) => crate::p_misc::check_table(&Case::Text(t.clone()), s),
    }
}
fn ids() -> &'static [Vec<u32>] {
    static I: std::sync::OnceLock<Vec<Vec<u32>>> = std::sync::OnceLock::new();
    I.get_or_init(|| {
        ENUMS
            .iter()
            .map(|e| {
                let mut v = (e.ids)();
                v.sort();
                v
            })
            .collect()
    })
}
pub fn run_safe(run: &Run) {
    let _ = ids();
    let n = crate::oracle::N as u64;
    run.phase("every code point", n, 1024, true, &check_safe, |i, _, ex| ex(Case::Cp(i as u32)));
    run.phase("constructor edges", 4096, 64, false, &|c, s| {
        if let Case::Cp(c) = c {
            s.nontrivial = true;
            s.obs(1);
            if let Ok(x) = seshat::unicode::CodePoint::new(*c) {
                if x.to_u32() > 0x10FFFF {
                    s.fail(format!("CodePoint::new accepted 0x{:X}", c));
                }
            }
        }
    }, |i, r, ex| ex(Case::Cp(if i % 2 == 0 { 0x10FF00 + i as u32 } else { r.next() as u32 })));
    let nn = crate::refnorm::RefNorm::new();
    crate::p_norm::strings(run, &nn, &check_safe, 8);
    let r = crate::refseg::RefSeg::new();
    crate::p_seg::strings(run, &r, 3, 8, &check_safe);
    run.phase("tables", run.scale(300, 3000), 4, false, &check_safe, |_, r, ex| {
        let bs = 1 + r.below(300);
        ex(Case::Text(format!("{} {} {} {} {}", bs, 1 + r.below(300), 1 + r.below(300), r.next() >> 1, r.below(3))));
    });
    run.phase("tables that do not cover what is asked", run.scale(2000, 20000), 16, false, &check_safe, |_, r, ex| {
        let m = if r.chance(3) { 300 } else { 9 };
        ex(Case::Text(format!("ragged {} {} {} {}", 1 + r.below(m), 1 + r.below(9), 1 + r.below(40), r.next() >> 1)));
    });
}
/// `vmon safe N EVERY`: the first N probes and every EVERY-th code point, one
/// thread, no tables: the workload of the Miri run.
pub fn safe_main(seed: u64, a: &[String]) {
    let (n, every): (u64, usize) = (a[0].parse().unwrap(), a[1].parse().unwrap());
    let mut s = Sink::new();
    let mut k = 0;
    let mut go = |c: Case| {
        let mut t = Sink::new();
        check_safe(&c, &mut t);
        for f in &t.fails {
            println!("FAIL {} :: {}", c.text(), f);
            s.fails.push(f.clone());
        }
        s.observed += t.observed;
        k += 1;
    };
    for i in 0..n {
        go(crate::p_det::probe_case(seed, i));
    }
    let off = seed as usize % every;
    for c in (off..crate::oracle::N).step_by(every) {
        go(Case::Cp(c as u32));
    }
    for t in ["1 1 1 1 0", "3 2 5 7 1", "16 4 9 5 2", "ragged 4 3 5 1", "ragged 1 1 2 2", "ragged 7 2 3 3"] {
        go(Case::Text(t.into()));
    }
    println!("SAFE cases={} observed={} failures={}", k, s.observed, s.fails.len());
    std::process::exit(if s.fails.is_empty() { 0 } else { 1 });
}
