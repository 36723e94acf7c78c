//! Memory (C37): an instrumented global allocator counts, per thread, what is
//! live and the peak, around every call into the crate.  Oracle-free: what a
//! call takes it gives back, and it takes no more than in proportion to its text.
use crate::api::*;
use crate::core::*;
use seshat::collections::TwoStageTable;
use seshat::unicode::props::{BinaryProperty, UnicodeProperty};
use seshat::unicode::{CodePoint, Normalization, Segmentation, ToCodePoint, Ucd, UnicodeVersion, UNICODE_VERSION};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::*};

pub struct Counting;
static ON: AtomicBool = AtomicBool::new(false);
thread_local! {
    static NET: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static EVENTS: Cell<u64> = const { Cell::new(0) };
}
fn moved(by: i64) {
    let _ = NET.try_with(|n| {
        n.set(n.get() + by);
        let _ = PEAK.try_with(|p| {
            if n.get() > p.get() {
                p.set(n.get())
            }
        });
    });
    let _ = EVENTS.try_with(|e| e.set(e.get() + 1));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ON.load(Relaxed) {
            moved(l.size() as i64);
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if ON.load(Relaxed) {
            moved(l.size() as i64);
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.load(Relaxed) {
            moved(-(l.size() as i64));
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if ON.load(Relaxed) {
            moved(n as i64 - l.size() as i64);
        }
        System.realloc(p, l, n)
    }
}
/// What one call of `f` left behind and how far live memory rose meanwhile.
fn measure(f: &mut dyn FnMut()) -> (i64, i64) {
    let n = NET.with(|n| n.get());
    PEAK.with(|p| p.set(n));
    f();
    (NET.with(|n| n.get()) - n, PEAK.with(|p| p.get()) - n)
}
static CALLS: AtomicU64 = AtomicU64::new(0);
static TOP: AtomicI64 = AtomicI64::new(0);
/// The most a call may have live at once: per byte of its text, and besides.
pub const PER_BYTE: i64 = 512;
pub const BESIDES: i64 = 64 << 10;

fn judge(what: &str, len: usize, f: &mut dyn FnMut(), s: &mut Sink) {
    // a panic is C01's subject
    let mut quiet = || {
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(&mut *f));
    };
    quiet(); // what is made once and kept is no leak
    let mut left = [0i64; 3];
    let mut peak = 0;
    for l in left.iter_mut() {
        let (n, p) = measure(&mut quiet);
        *l = n;
        peak = peak.max(p);
    }
    s.observed += 4;
    CALLS.fetch_add(3, Relaxed);
    if len >= 64 {
        TOP.fetch_max(peak / len as i64, Relaxed);
    }
    if left.iter().all(|l| *l > 0) {
        s.fail(format!("each call of {} leaves memory behind: {:?} bytes after three calls with one argument", what, left));
    }
    if peak > PER_BYTE * len as i64 + BESIDES {
        s.fail(format!("{} of a text of {} bytes has {} bytes live at once", what, len, peak));
    }
}
pub fn cp_ops(c: u32) -> Vec<(&'static str, Box<dyn FnMut()>)> {
    let mut v: Vec<(&'static str, Box<dyn FnMut()>)> = vec![
        ("the binary properties", Box::new(move || BOOLS.iter().for_each(|b| { std::hint::black_box((b.cp)(c)); }))),
        ("the enumerated properties", Box::new(move || ENUMS.iter().for_each(|e| { std::hint::black_box((e.cp_id)(c)); }))),
        ("na() of a CodePoint", Box::new(move || drop(std::hint::black_box(cp(c).na())))),
        ("dm() of a CodePoint", Box::new(move || drop(std::hint::black_box(cp(c).dm())))),
        ("the display", Box::new(move || drop(std::hint::black_box(cp(c).to_string())))),
        ("the names of the values", Box::new(move || {
            let x = cp(c);
            macro_rules! each { ($($m:ident)*) => { $({ let n = x.$m().property_value_name(); std::hint::black_box((n.full, n.abbr)); })* } }
            each!(gc bc ccc dt blk sc age gcb wb hst insc incb);
            std::hint::black_box((BinaryProperty::from(x.dash()).property_value_name().full, x.gc() == x.gc(), x.blk() == x.blk(), x.to_u32()));
        })),
        ("the constructor, refusing", Box::new(move || {
            for k in [0x110000, 0x8000_0000, 0x7FFF_0000] {
                std::hint::black_box(CodePoint::new(c + k).err());
            }
        })),
        ("versions", Box::new(move || {
            let (x, y) = (UnicodeVersion { major: c, minor: 1, update: c % 7 }, UNICODE_VERSION);
            std::hint::black_box((x < y, x == y, x.to_string()));
        })),
        ("a two-stage table", Box::new(move || {
            let (one, two) = ([0u8, 1, 0, 1], [&[1u16, 2, 3, 4][..], &[5, 6, 7, 8][..]]);
            std::hint::black_box(TwoStageTable::new(&one, &two, 4).at(c % 16));
        })),
    ];
    if let Some(ch) = char::from_u32(c) {
        v.push(("the properties of a char", Box::new(move || {
            BOOLS.iter().for_each(|b| { std::hint::black_box((b.ch)(ch)); });
            ENUMS.iter().for_each(|e| { std::hint::black_box((e.ch_id)(ch)); });
        })));
        v.push(("a char as a CodePoint", Box::new(move || { std::hint::black_box(ch.to_code_point().to_u32()); })));
        v.push(("na() of a char", Box::new(move || drop(std::hint::black_box(ch.na())))));
        v.push(("dm() of a char", Box::new(move || drop(std::hint::black_box(ch.dm())))));
    }
    v
}
pub fn text_ops(t: &str, norm: bool) -> Vec<(&'static str, Box<dyn FnMut() + '_>)> {
    let mut v: Vec<(&'static str, Box<dyn FnMut() + '_>)> = vec![];
    if norm {
        v.push(("to_nfd()", Box::new(move || drop(std::hint::black_box(t.to_nfd())))));
        v.push(("to_nfkd()", Box::new(move || drop(std::hint::black_box(t.to_nfkd())))));
        v.push(("to_nfc()", Box::new(move || drop(std::hint::black_box(t.to_nfc())))));
        v.push(("to_nfkc()", Box::new(move || drop(std::hint::black_box(t.to_nfkc())))));
    }
    v.push(("break_graphemes(), all of it", Box::new(move || { std::hint::black_box(t.break_graphemes().take(t.len() + 1).map(|g| g.len()).sum::<usize>()); })));
    v.push(("break_graphemes(), left early", Box::new(move || { let mut i = t.break_graphemes(); std::hint::black_box((i.next(), i.next())); })));
    // a third of the texts, of every length class
    if t.len() % 3 == 0 {
        v.push(("break_graphemes(), through adapters", Box::new(move || {
            let m = t.len() + 1;
            drop(std::hint::black_box(t.break_graphemes()));
            std::hint::black_box((t.break_graphemes().size_hint(), t.break_graphemes().nth(3), t.break_graphemes().last(), t.break_graphemes().count()));
            drop(std::hint::black_box(t.break_graphemes().take(m).collect::<Vec<_>>()));
            let mut i = t.break_graphemes().peekable();
            std::hint::black_box((i.peek().is_some(), i.by_ref().skip(2).step_by(2).fold(0, |a, g| a + g.len()), i.next(), i.next()));
        })));
    }
    v
}
pub fn check_mem(c: &Case, s: &mut Sink) {
    ON.store(true, Relaxed);
    s.nontrivial = true;
    match c {
        Case::Cp(c) => cp_ops(*c).iter_mut().for_each(|(w, f)| judge(&format!("{} of U+{:04X}", w, c), 4, f, s)),
        Case::Str(v) => {
            let t = to_string(v);
            let mut ops = text_ops(&t, crate::p_norm::affordable(v));
            ops.iter_mut().for_each(|(w, f)| judge(&format!("{} of {}", w, hex(v)), t.len(), f, s));
        }
        Case::Text(t) => {
            let a: Vec<&str> = t.split(' ').collect();
            if a[0] == "life" {
                return life(a[1].parse().unwrap(), a[2].parse().unwrap(), a[3].parse().unwrap(), s);
            }
            let (kind, n) = (a[1], a[2].parse().unwrap());
            let x = crate::p_work::text(kind, n, 1);
            let giant = kind.starts_with("giant") || kind == "pict-extends";
            let mut ops = text_ops(&x, !giant);
            ops.iter_mut().for_each(|(w, f)| judge(&format!("{} of {} units of {}", w, n, kind), x.len(), f, s));
        }
    }
}
const ALLOWED: i64 = 256 << 10;
/// One thread lives through `laps` laps of ever new texts and all the code
/// points of its share; after the first two laps nothing may grow any more.
fn life(share: u32, laps: u64, seed: u64, s: &mut Sink) {
    let nn = crate::refnorm::RefNorm::new();
    let pools = crate::p_norm::Pools::new(&nn);
    let sg = crate::refseg::RefSeg::new();
    let gen = crate::p_seg::Gen { reps: sg.reps() };
    let mut r = Rng::new(seed, 0x11FE + share as u64);
    let mut kept = 0i64;
    let mut n = 0u64;
    for lap in 0..laps {
        let mut grown = 0i64;
        for c in (share..0x110000).step_by(64) {
            for (_, f) in cp_ops(c).iter_mut() {
                grown += measure(&mut || { let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(&mut *f)); }).0;
                n += 1;
            }
        }
        for k in 0..3600u64 {
            let t = if k < 2 {
                crate::p_work::text(crate::p_work::KINDS[r.below(33)], 4000, r.next())
            } else if k >= 600 {
                // words nobody used before, as a server sees them
                let w = pools.string(&mut r);
                format!("{}{}{}", to_string(&w[..w.len().min(3)]), "x".repeat(r.below(12)), lap * 3600 + k)
            } else {
                let v = if k % 2 == 0 { pools.string(&mut r) } else { gen.string(&mut r) };
                to_string(&v)
            };
            for (_, f) in text_ops(&t, true).iter_mut() {
                grown += measure(&mut || { let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(&mut *f)); }).0;
                n += 1;
            }
        }
        if lap >= 2 {
            kept += grown;
        }
    }
    s.observed += n;
    s.nontrivial = true;
    CALLS.fetch_add(n, Relaxed);
    if kept > ALLOWED {
        s.fail(format!("{} bytes more are live after {} laps over the same code points and ever new texts than after two", kept, laps));
    }
}
pub fn run_mem(run: &Run) {
    ON.store(true, Relaxed);
    run.phase("every code point", crate::oracle::N as u64, 1024, true, &check_mem, |i, _, ex| ex(Case::Cp(i as u32)));
    let nn = crate::refnorm::RefNorm::new();
    crate::p_norm::strings(run, &nn, &check_mem, 24);
    let r = crate::refseg::RefSeg::new();
    crate::p_seg::strings(run, &r, 3, 24, &check_mem);
    let kinds = crate::p_work::KINDS.len() as u64;
    for n in [30u64, 1000, run.scale(20_000, 200_000)] {
        run.phase(&format!("texts of {} units", n), kinds, 1, true, &check_mem, |i, _, ex| ex(Case::Text(format!("kind {} {}", crate::p_work::KINDS[i as usize], n))));
    }
    let laps = run.scale(12, 60);
    run.phase("long lives of ever new texts", 16, 1, true, &check_mem, |i, r, ex| ex(Case::Text(format!("life {} {} {}", i * 4 + r.below(4) as u64, laps, r.next() >> 1))));
    run.tags.lock().unwrap().insert("calls measured".into(), CALLS.load(Relaxed));
    run.tags.lock().unwrap().insert("allocator events seen by the main thread".into(), EVENTS.with(|e| e.get()));
    run.tags.lock().unwrap().insert("most bytes live per byte of a text of 64 bytes and more".into(), TOP.load(Relaxed) as u64);
}
