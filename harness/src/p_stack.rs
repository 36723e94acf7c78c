//! Stack (C41): the stack below a call is painted before it and read after it,
//! so the depth the call reached is seen.  Oracle-free: no query needs more
//! than LIMIT, and a longer text needs no more than a short one.
use crate::core::*;
use crate::p_mem::{cp_ops, text_ops};
use std::sync::atomic::{AtomicU64, Ordering::*};

/// What may be used.  Half of the smallest stack threads get by default (128 KB, musl).
pub const LIMIT: usize = 64 << 10;
/// What a text of any length may use beyond one of 30 units.
pub const GROWTH: usize = 16 << 10;
const WINDOW: usize = 72 << 10;
const OWN: usize = 2 << 10;
const PAINT: u64 = 0x5AFE_57AC_4BA5_E000;
static DEEPEST: AtomicU64 = AtomicU64::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);

/// How deep `f` went, None if it panicked (a panic is C01's subject).
#[inline(never)]
fn depth(f: &mut dyn FnMut()) -> Option<usize> {
    let here = 0u64;
    let base = std::hint::black_box(&here) as *const u64 as usize & !63;
    let low = base - WINDOW;
    unsafe {
        let mut p = low;
        while p < base - OWN {
            std::ptr::write_volatile(p as *mut u64, PAINT);
            p += 8;
        }
    }
    let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f())).is_ok();
    let mut p = low;
    unsafe {
        while p < base - OWN && std::ptr::read_volatile(p as *const u64) == PAINT {
            p += 8;
        }
    }
    CALLS.fetch_add(1, Relaxed);
    let d = base - p;
    if ok {
        DEEPEST.fetch_max(d as u64, Relaxed);
    }
    ok.then_some(d)
}
fn said(d: usize) -> String {
    format!("{}{} bytes of stack", if d >= WINDOW { "at least " } else { "" }, d)
}
fn judge(what: &str, f: &mut dyn FnMut(), s: &mut Sink) {
    s.observed += 1;
    if let Some(d) = depth(f) {
        if d > LIMIT {
            s.fail(format!("{} takes {}", what, said(d)));
        }
    }
}
pub fn check_stack(c: &Case, s: &mut Sink) {
    s.nontrivial = true;
    match c {
        Case::Cp(c) => {
            let mut ops = cp_ops(*c);
            s.observed += ops.len() as u64 - 1;
            let all = depth(&mut || ops.iter_mut().for_each(|(_, f)| f()));
            if all.map_or(true, |d| d > LIMIT) {
                // which
                ops.iter_mut().for_each(|(w, f)| judge(&format!("{} of U+{:04X}", w, c), f, s));
            }
        }
        Case::Str(v) => {
            let t = to_string(v);
            let mut ops = text_ops(&t, crate::p_norm::affordable(v));
            ops.iter_mut().for_each(|(w, f)| judge(&format!("{} of {}", w, hex(v)), f, s));
        }
        Case::Text(t) => {
            let a: Vec<&str> = t.split(' ').collect();
            let (kind, most): (&str, usize) = (a[1], a[2].parse().unwrap());
            let giant = kind.starts_with("giant") || kind == "pict-extends" || kind == "ordered" || kind == "falling";
            let make = |n: usize| match kind {
                "ordered" => format!("a{}", "\u{323}".repeat(n / 2) + &"\u{301}".repeat(n - n / 2)),
                "falling" => (0..n).map(|i| ['\u{301}', '\u{323}', '\u{31B}', '\u{334}'][(i * 4 / n).min(3)]).collect(),
                "singletons" => "\u{1F71}\u{212B}\u{F900}".repeat(n),
                "fdfa" => "\u{FDFA}".repeat(n),
                _ => crate::p_work::text(kind, n, 1),
            };
            let short = make(30);
            let least: Vec<(&str, Option<usize>)> = text_ops(&short, true).iter_mut().map(|(w, f)| (*w, depth(f))).collect();
            for n in [300, 3000, most] {
                let x = make(n);
                // one long run of marks is quadratic work
                let norm = !giant || n <= 3000;
                for (w, f) in text_ops(&x, norm).iter_mut() {
                    s.observed += 1;
                    let Some(d) = depth(f) else { continue };
                    let few = least.iter().find(|l| l.0 == *w).and_then(|l| l.1).unwrap_or(0);
                    if d > LIMIT {
                        s.fail(format!("{} of {} units of {} takes {}", w, n, kind, said(d)));
                    } else if few > 0 && d > few + GROWTH {
                        s.fail(format!("{} of {} units of {} takes {}, of 30 units {}", w, n, kind, said(d), few));
                    }
                }
            }
        }
    }
}
pub fn run_stack(run: &Run) {
    run.phase("every code point", crate::oracle::N as u64, 1024, true, &check_stack, |i, _, ex| ex(Case::Cp(i as u32)));
    let mut kinds: Vec<&str> = crate::p_work::KINDS.to_vec();
    kinds.extend(["ordered", "falling", "singletons", "fdfa"]);
    let most = run.scale(30_000, 300_000);
    run.phase("texts of growing length", kinds.len() as u64, 1, true, &check_stack, |i, _, ex| ex(Case::Text(format!("grow {} {}", kinds[i as usize], most))));
    let nn = crate::refnorm::RefNorm::new();
    let pools = crate::p_norm::Pools::new(&nn);
    let gen = crate::p_seg::Gen { reps: crate::refseg::RefSeg::new().reps() };
    run.phase("random texts", run.scale(60_000, 1_000_000), 64, false, &check_stack, |i, r, ex| ex(Case::Str(if i % 2 == 0 { pools.string(r) } else { gen.string(r) })));
    run.tags.lock().unwrap().insert("calls measured".into(), CALLS.load(Relaxed));
    run.tags.lock().unwrap().insert("deepest call, bytes".into(), DEEPEST.load(Relaxed));
}
