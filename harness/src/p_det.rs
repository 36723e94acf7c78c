//! Determinism: an answer depends on the question only - not on what was asked
//! before, not on what other threads ask at the same time, not on who was
//! first, not on the build profile.  Oracle-free: every observation of a probe
//! is compared with the observation a fresh, quiet, single-threaded process
//! made of the same probe.
use crate::api::*;
use crate::core::*;
use seshat::unicode::{Normalization, Segmentation};
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Barrier;

const POOL: &[u32] = &[
    0x61, 0x65, 0x6F, 0x20, 0x0D, 0x0A, 0x300, 0x301, 0x302, 0x308, 0x30A, 0x323, 0x327, 0x328, 0x31B, 0x345, 0x34F, 0x1D165, 0x1D16D, 0xE0, 0xE9, 0xF4, 0x1ED9, 0x1E69, 0x1FA7, 0x212B,
    0x2126, 0xFB01, 0xFDFA, 0x3385, 0xAC00, 0xAC01, 0xD7A3, 0x1100, 0x1112, 0x1161, 0x1175, 0x11A8, 0x11C2, 0x915, 0x94D, 0x937, 0x93C, 0x958, 0x9C7, 0x9BE, 0xDD9, 0xDCF, 0xDCA, 0x1F468,
    0x1F469, 0x200D, 0x2764, 0xFE0F, 0x1F3FD, 0x1F1E6, 0x1F1FF, 0x600, 0x110BD, 0xE33, 0xF71, 0xF73, 0xF75, 0xF81, 0x2F801, 0xF900, 0x4E00, 0x20000, 0x10FFFF, 0xE0001, 0x11131, 0x11127, 0x1109A, 0x1109B, 0x110BA,
    0x5B0, 0x5BC, 0xFB1D, 0xFB4E, 0x64B, 0x651, 0x653, 0x622, 0x3099, 0x304B, 0x304C, 0xFF76, 0xFF9E,
];

pub fn probe_case(seed: u64, i: u64) -> Case {
    let mut r = Rng::new(seed, 0xDE7 ^ i.wrapping_mul(0x9E3779B97F4A7C15));
    if i % 2 == 0 {
        Case::Cp(if r.chance(3) { r.pick(POOL) } else { crate::p_cp::interesting(&mut r) })
    } else {
        let n = if r.chance(40) { 40 + r.below(200) } else { 1 + r.below(9) };
        Case::Str(
            (0..n)
                .map(|_| loop {
                    let c = if r.chance(5) { crate::p_cp::interesting(&mut r) } else { r.pick(POOL) };
                    if char::from_u32(c).is_some() {
                        break c;
                    }
                })
                .collect(),
        )
    }
}
struct H(u64);
impl H {
    fn put(&mut self, x: u64) {
        self.0 = (self.0 ^ x).wrapping_mul(0x9E3779B97F4A7C15);
        self.0 ^= self.0 >> 29;
    }
    fn str(&mut self, s: &str) {
        self.put(s.len() as u64 + 7);
        for b in s.bytes() {
            self.put(b as u64 + 1);
        }
    }
}
fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}
/// Everything the crate says about one probe, as a digest (a panic is an
/// answer too: it is another property's business).
pub fn answer(c: &Case) -> u64 {
    let mut h = H(0xcbf29ce484222325);
    match c {
        Case::Cp(c) => {
            let ch = char::from_u32(*c);
            for b in BOOLS {
                h.put(guard(|| (b.cp)(*c)).map_or(9, |x| x as u64));
                if let Some(ch) = ch {
                    h.put(guard(|| (b.ch)(ch)).map_or(9, |x| x as u64));
                }
            }
            for e in ENUMS {
                h.put(guard(|| (e.cp_id)(*c)).map_or(99999, |x| x as u64));
                if let Some(ch) = ch {
                    h.put(guard(|| (e.ch_id)(ch)).map_or(99999, |x| x as u64));
                }
            }
            use seshat::unicode::Ucd;
            h.str(&guard(|| cp(*c).na()).unwrap_or("!".into()));
            h.str(&guard(|| cp(*c).dm()).unwrap_or("!".into()));
            if let Some(ch) = ch {
                h.str(&guard(|| ch.na()).unwrap_or("!".into()));
                h.str(&guard(|| ch.dm()).unwrap_or("!".into()));
            }
        }
        Case::Str(v) => h.put(answer_text(&to_string(v), 0)),
        _ => {}
    }
    h.0
}
/// What the crate says about one text: five answers, asked for in the order
/// `order` picks, digested in one fixed order.
pub fn answer_text(t: &str, order: u64) -> u64 {
    let mut part = [0u64; 5];
    let mut todo = [0usize, 1, 2, 3, 4];
    let mut o = order;
    for i in (1..5).rev() {
        todo.swap(i, i - o as usize % (i + 1)); // order 0: as they stand
        o /= i as u64 + 1;
    }
    for k in todo {
        let mut h = H(0xcbf29ce484222325);
        match k {
            0 => h.str(&guard(|| t.to_nfd()).unwrap_or("!".into())),
            1 => h.str(&guard(|| t.to_nfkd()).unwrap_or("!".into())),
            2 => h.str(&guard(|| t.to_nfc()).unwrap_or("!".into())),
            3 => h.str(&guard(|| t.to_nfkc()).unwrap_or("!".into())),
            _ => {
                guard(|| {
                    for g in t.break_graphemes().take(t.len() + 1) {
                        h.put(g.len() as u64 + 3);
                    }
                });
            }
        }
        part[k] = h.0;
    }
    let mut h = H(1);
    part.iter().for_each(|p| h.put(*p));
    h.0
}
/// Texts that are easily taken for one another: all have the byte length of
/// twin 0, most its ends, some its characters in another order, some its
/// 31-hash, some its low bits.
pub const TWINS: u64 = 10;
pub fn twin(seed: u64, i: u64, k: u64) -> String {
    let mut r = Rng::new(seed, 0x71A1 ^ i.wrapping_mul(0x9E3779B97F4A7C15));
    let n = match r.below(30) {
        0 => 300 + r.below(3000),
        1..=3 => 30 + r.below(100),
        _ => 3 + r.below(9),
    };
    let mut v: Vec<char> = (0..n).map(|_| loop {
        let c = if r.chance(4) { crate::p_cp::interesting(&mut r) } else { r.pick(POOL) };
        if let Some(c) = char::from_u32(c) {
            break c;
        }
    }).collect();
    let mut r = Rng::new(seed ^ k, 0x71A2 ^ i.wrapping_mul(0x9E3779B97F4A7C15));
    let pool = |r: &mut Rng, like: char| loop {
        let c = if r.chance(3) { crate::p_cp::interesting(r) } else { r.pick(POOL) };
        if let Some(c) = char::from_u32(c) {
            if c.len_utf8() == like.len_utf8() {
                break c;
            }
        }
    };
    match k {
        0 => {}
        1 => { let j = r.below(n); let h = 1 + r.below(n - 1); v.swap(j, (j + h) % n) }
        2 => { let j = r.below(n); v[j] = pool(&mut r, v[j]) }
        3 => { let j = n / 2; v[j] = pool(&mut r, v[j]) }
        4 => v[1..n - 1].reverse(),
        5 => { let (a, b) = (1 + r.below(n - 1), v[0]); v[a..].iter_mut().for_each(|c| if r.chance(2) { *c = pool(&mut Rng::new(i, *c as u64), *c) }); v[0] = b }
        6 | 7 => {
            // equal multiplicative hashes of characters (and of bytes in ASCII)
            let m = if k == 6 { 31 } else { 33 };
            let j = r.below(n - 1);
            for j in (j..n - 1).chain(0..j) {
                let (a, b) = (char::from_u32(v[j] as u32 + 1), (v[j + 1] as u32).checked_sub(m).and_then(char::from_u32));
                if let (Some(a), Some(b)) = (a, b) {
                    if a.len_utf8() == v[j].len_utf8() && b.len_utf8() == v[j + 1].len_utf8() {
                        v[j] = a;
                        v[j + 1] = b;
                        break;
                    }
                }
            }
        }
        8 => {
            // equal low bits
            for _ in 0..n {
                let j = r.below(n);
                let c = char::from_u32(v[j] as u32 ^ (1 << (8 + r.below(13)))).unwrap_or(v[j]);
                if c != v[j] && c.len_utf8() == v[j].len_utf8() {
                    v[j] = c;
                    break;
                }
            }
        }
        _ => { let j = n - 1; v[j] = pool(&mut r, v[j]) }
    }
    v.into_iter().collect()
}
/// `vmon twins N`: digests of all twins, the alike ones far apart.
pub fn twins_main(seed: u64, a: &[String]) {
    use std::io::Write;
    let n: u64 = a[0].parse().unwrap();
    let o = std::io::stdout();
    let mut o = std::io::BufWriter::new(o.lock());
    for k in 0..TWINS {
        for i in 0..n {
            writeln!(o, "{:016x}", answer_text(&twin(seed, i, k), 0)).unwrap();
        }
    }
}
/// `vmon ref N`: digests of the first N probes, in order, one thread, nothing else.
pub fn reference(seed: u64, a: &[String]) {
    use std::io::Write;
    let n: u64 = a[0].parse().unwrap();
    let o = std::io::stdout();
    let mut o = std::io::BufWriter::new(o.lock());
    for i in 0..n {
        writeln!(o, "{:016x}", answer(&probe_case(seed, i))).unwrap();
    }
}
fn child_reference(what: &str, seed: u64, n: u64) -> Vec<u64> {
    let o = std::process::Command::new(std::env::current_exe().unwrap()).args([what, &n.to_string(), "--seed", &seed.to_string()]).output().unwrap();
    if !o.status.success() {
        eprintln!("reference process ended: {:?}", o.status);
        std::process::abort();
    }
    String::from_utf8(o.stdout).unwrap().lines().map(|l| u64::from_str_radix(l, 16).unwrap()).collect()
}
fn shuffled(n: u64, r: &mut Rng) -> Vec<u64> {
    let mut v: Vec<u64> = (0..n).collect();
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i + 1));
    }
    v
}
/// All threads start at once on a process that has asked nothing yet; thread t
/// walks the probes in its own order.  Returns (mismatches, windows seen).
pub fn cold_start(threads: usize, n: u64, seed: u64, want: Option<&[u64]>) -> (Vec<(u64, u64, u64)>, usize, Vec<u64>) {
    let cases: Vec<Case> = (0..n).map(|i| probe_case(seed, i)).collect();
    let bar = Barrier::new(threads);
    let hist = AtomicU64::new(0);
    let first: Vec<AtomicU64> = (0..n).map(|i| AtomicU64::new(want.map_or(0, |w| w[i as usize]))).collect();
    let mut bad = vec![];
    let mut windows: HashSet<u64> = HashSet::new();
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (cases, bar, hist, first) = (&cases, &bar, &hist, &first);
                sc.spawn(move || {
                    let mut r = Rng::new(seed, 1000 + t as u64);
                    // half of the threads collide on one order, the others differ
                    let order = if t % 2 == 0 { (0..n).collect() } else { shuffled(n, &mut r) };
                    let (mut bad, mut win) = (vec![], HashSet::new());
                    bar.wait();
                    for i in order {
                        let h = hist.fetch_update(SeqCst, SeqCst, |h| Some(h << 4 | (t as u64 & 15))).unwrap();
                        win.insert(h & 0xFF_FFFF);
                        let a = answer(&cases[i as usize]);
                        let a = if a == 0 { 1 } else { a };
                        let w = match first[i as usize].compare_exchange(0, a, SeqCst, SeqCst) {
                            Ok(_) => a,
                            Err(w) => w,
                        };
                        if w != a {
                            bad.push((i, w, a));
                        }
                    }
                    (bad, win)
                })
            })
            .collect();
        for h in hs {
            let (b, w) = h.join().unwrap();
            bad.extend(b);
            windows.extend(w);
        }
    });
    (bad, windows.len(), first.into_iter().map(|x| x.into_inner()).collect())
}
/// `vmon probe THREADS N ROUNDS`: self-contained concurrent workload for the
/// sanitizer builds; exit 1 on a mismatch between threads or with a later
/// quiet pass.
pub fn probe_main(seed: u64, a: &[String]) {
    let (t, n, rounds): (usize, u64, u64) = (a[0].parse().unwrap(), a[1].parse().unwrap(), a[2].parse().unwrap());
    let mut total = 0;
    let mut wins = 0;
    let mut bad = 0;
    for k in 0..rounds {
        let (b, w, first) = cold_start(t, n, seed + k, None);
        wins = wins.max(w);
        for (i, w, a) in b.iter().take(5) {
            println!("MISMATCH {} :: {:016x} {:016x}", probe_case(seed + k, *i).text(), w, a);
        }
        bad += b.len();
        if !cfg!(miri) {
            for i in 0..n {
                let a = answer(&probe_case(seed + k, i));
                if first[i as usize] != if a == 0 { 1 } else { a } {
                    println!("MISMATCH {} :: differs from the quiet pass", probe_case(seed + k, i).text());
                    bad += 1;
                }
            }
        }
        total += n * t as u64;
    }
    println!("PROBED answers={} interleaving_windows={} mismatches={}", total, wins, bad);
    std::process::exit(if bad > 0 { 1 } else { 0 });
}

pub fn check_det(c: &Case, s: &mut Sink) {
    if let Case::Text(t) = c {
        let p: Vec<u64> = t.split(' ').skip(1).map(|x| x.parse().unwrap()).collect();
        let mut buf = String::new();
        s.nontrivial = true;
        // each answer in a process of its own kind: a fresh thread and buffer
        let quiet: Vec<u64> = (0..TWINS).map(|k| { let t = twin(p[1], p[0], k); std::thread::spawn(move || answer_text(&t, 0)).join().unwrap() }).collect();
        for step in 0..200 {
            let k = (step * 7 + step / 10) % TWINS;
            buf.clear();
            buf.push_str(&twin(p[1], p[0], k));
            s.obs(1);
            if answer_text(&buf, step) != quiet[k as usize] {
                s.fail("the answers for alike texts in one buffer are mixed up".into());
                return;
            }
        }
        return;
    }
    // replay: quiet answer, then the answer after noise and beside other threads
    s.nontrivial = true;
    let a = answer(c);
    let mut r = Rng::new(a, 3);
    for round in 0..20 {
        for _ in 0..round {
            noise(r.next(), crate::p_cp::interesting(&mut r));
        }
        s.obs(9);
        let b = answer(c);
        if a != b {
            s.fail(format!("answer changes with history ({:016x}, then {:016x})", a, b));
            return;
        }
        let bs: Vec<u64> = std::thread::scope(|sc| (0..8).map(|_| sc.spawn(|| answer(c))).collect::<Vec<_>>().into_iter().map(|h| h.join().unwrap()).collect());
        if bs.iter().any(|b| *b != a) {
            s.fail("answer differs between threads".into());
            return;
        }
    }
}
pub fn run_det(run: &Run) {
    let n = run.scale(60_000, 600_000);
    let want = child_reference("ref", run.seed, n);
    // cold start, before this process has asked the crate anything
    let (bad, windows, _) = cold_start(run.threads, n, run.seed, Some(&want));
    run.note(n * run.threads as u64, windows as u64, n * run.threads as u64);
    run.tags.lock().unwrap().insert("distinct 6-step interleaving windows (cold start)".into(), windows as u64);
    run.phases.lock().unwrap().push(("cold concurrent start".into(), n * run.threads as u64, run.start.elapsed().as_secs_f64()));
    for (i, w, a) in bad.into_iter().take(4) {
        run.add_viol(Viol { case: probe_case(run.seed, i), what: format!("answer {:016x} during a concurrent cold start, {:016x} when asked quietly", a, w), history: vec![] });
    }
    let want = &want;
    let judge = |i: u64, c: &Case, s: &mut Sink, how: &str| {
        s.nontrivial = true;
        s.obs(1);
        let a = answer(c);
        if a != want[i as usize] {
            s.fail(format!("answer {:016x} {}, {:016x} when asked quietly", a, how, want[i as usize]));
        }
    };
    // the same probes after unrelated traffic, in other orders, by all threads
    let idx = |r: &mut Rng| r.below(n as usize) as u64;
    let cur = std::cell::Cell::new(0u64);
    drop(cur);
    for (name, k, mode) in [("random order", n, 0), ("after unrelated traffic", n / 2, 1), ("immediately repeated and alternated", n / 2, 2)] {
        run.phase(name, k, 64, false, &|c, s| {
            // the probe number travels with the case as text
            if let Case::Text(t) = c {
                let i: u64 = t.parse().unwrap();
                judge(i, &probe_case(run.seed, i), s, name);
            }
        }, |_, r, ex| {
            let i = idx(r);
            match mode {
                0 => ex(Case::Text(i.to_string())),
                1 => {
                    for _ in 0..1 + r.below(4) {
                        noise(r.next(), crate::p_cp::interesting(r));
                    }
                    ex(Case::Text(i.to_string()));
                }
                _ => {
                    let j = idx(r);
                    for x in [i, i, j, i, j] {
                        ex(Case::Text(x.to_string()));
                    }
                }
            }
        });
    }
    // texts that are easily taken for one another, one right after the other
    // in one buffer, the five answers in any order
    let tn = run.scale(4_000, 40_000);
    let wt = &child_reference("twins", run.seed, tn);
    run.phase("alike texts in one buffer", tn, 16, false, &|c, s| {
        let Case::Text(t) = c else { return };
        let i: u64 = t[5..].parse().unwrap();
        let texts: Vec<String> = (0..TWINS).map(|k| twin(run.seed, i, k)).collect();
        let mut buf = String::with_capacity(texts[0].len() + 8);
        let mut r = Rng::new(run.seed, i ^ 0xBEEF);
        s.nontrivial = true;
        for step in 0..3 * TWINS {
            let k = if step < TWINS { step } else { r.below(TWINS as usize) as u64 };
            buf.clear();
            buf.push_str(&texts[k as usize]);
            let a = answer_text(&buf, if step % 2 == 0 { 0 } else { r.next() });
            s.obs(1);
            if a != wt[(k * tn + i) as usize] {
                s.fail(format!("the answers for {:?} after other texts of {} bytes in the same buffer differ from those a quiet process gives", texts[k as usize].chars().take(60).collect::<String>(), buf.len()));
                return;
            }
        }
    }, |i, _, ex| ex(Case::Text(format!("twin {}", i))));
    // a long life: every property asked of everything many times over
    let first: Vec<AtomicU64> = (0..0x110000).map(|_| AtomicU64::new(0)).collect();
    run.phase("a long life", run.scale(1 << 12, 1 << 15), 16, true, &|c, s| {
        let Case::Cp(b) = c else { return };
        s.observed += 1;
        for k in 0..0x110000 / 1024u32 {
            let c = (b.wrapping_mul(977) + k * 1024 + b / 7) % 0x110000;
            let mut h = H(5);
            for x in BOOLS {
                h.put(guard(|| (x.cp)(c)).map_or(9, |x| x as u64));
            }
            for x in ENUMS {
                h.put(guard(|| (x.cp_id)(c)).map_or(9999, |x| x as u64));
            }
            if let Some(c) = char::from_u32(c) {
                let mut e = [0; 4];
                let t = c.encode_utf8(&mut e);
                let r = guard(|| (t.to_nfc(), t.break_graphemes().take(9).count(), t.to_nfkd(), seshat::unicode::Ucd::na(&c)));
                if let Some(r) = r {
                    h.str(&r.0);
                    h.put(r.1 as u64);
                    h.str(&r.2);
                    h.str(&r.3);
                }
            }
            if let Err(w) = first[c as usize].compare_exchange(0, h.0, Relaxed, Relaxed) {
                s.observed += 1;
                if w != h.0 {
                    s.fail(format!("the answers for U+{:04X} change in the course of millions of calls", c));
                    return;
                }
            }
        }
    }, |i, _, ex| ex(Case::Cp(i as u32)));
    run.phase("after the long life", n / 2, 64, false, &|c, s| {
        if let Case::Text(t) = c {
            let i: u64 = t.parse().unwrap();
            judge(i, &probe_case(run.seed, i), s, "after millions of other calls");
        }
    }, |_, r, ex| ex(Case::Text(idx(r).to_string())));
    // one-sided lives: one text asked of one operation more often than 16 bits
    // count, then others (one worker, so that nothing comes between)
    const LIVES: [&str; 9] = ["a", "", "abc", "\u{e9}", "\u{d55c}", "\u{6f22}\u{5b57}", "\u{1f468}\u{200d}\u{1f469}", "\r\n", "\u{301}"];
    const AFTER: [&str; 24] = ["\u{1100}\u{1161}\u{11a8}", "e\u{301}", "\u{915}\u{94d}\u{915}", "\u{1f1e6}\u{1f1e7}\u{1f1e8}", "\r\n", "\u{ac01}", "a\u{315}\u{300}\u{5ae}b", "\u{fdfa}",
        "\u{1f468}\u{200d}\u{1f469}", "\u{9c7}\u{9be}", "\u{212b}", "\u{2f9df}\u{f9df}", "\u{958}", "\u{fb01}", "\u{1e69}", "\u{344}", "a", "\u{600}a", "\u{ac00}\u{11a8}", "\u{1d15e}", "\u{a0}", "\u{f73}\u{f71}", "\u{10fffd}", "\u{3b1}\u{313}\u{345}"];
    let quiet: Vec<u64> = AFTER.iter().map(|t| answer_text(t, 0)).collect();
    let lives = LIVES.len() as u64 * 6 * run.scale(3, 12);
    run.phase("one-sided lives", lives, lives, false, &|c, s| {
        let Case::Text(t) = c else { return };
        let i: usize = t[5..].parse().unwrap();
        let (x, op) = (LIVES[i % LIVES.len()], i / LIVES.len() % 6);
        let mut r = Rng::new(run.seed, i as u64 ^ 0x11FE);
        let reps = match crate::dict::dict().and_then(|d| d.near(&mut r)) { Some(n) if n <= 2_000_000 => n.max(66_000), _ => 66_000 };
        let once = || match op {
            0 => { guard(|| x.to_nfd()); }
            1 => { guard(|| x.to_nfc()); }
            2 => { guard(|| x.to_nfkd()); }
            3 => { guard(|| x.to_nfkc()); }
            4 => { guard(|| x.break_graphemes().count()); }
            _ => { guard(|| x.chars().map(|c| { use seshat::unicode::Ucd; (c.gcb() as u32, c.ext_pict(), c.gc() as u32, c.ccc() as u32) }).last()); }
        };
        s.nontrivial = true;
        for _ in 0..reps {
            once();
        }
        for k in 0..AFTER.len() {
            let j = (k + i * 5 + i / AFTER.len()) % AFTER.len();
            s.obs(1);
            if answer_text(AFTER[j], if k == 0 { [0, 1 + op as u64][i % 2] } else { r.next() }) != quiet[j] {
                s.fail(format!("the answers for {:?} change after {} times operation {} of {:?}", AFTER[j], reps, op, x));
                return;
            }
            for _ in 0..400 {
                once();
            }
        }
    }, |i, _, ex| ex(Case::Text(format!("life {}", i))));
    // all threads hammer the same probe at the same moment
    let rounds = run.scale(3_000, 30_000);
    let bar = Barrier::new(run.threads);
    let t0 = std::time::Instant::now();
    let bads = std::sync::Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for t in 0..run.threads {
            let (bar, bads) = (&bar, &bads);
            sc.spawn(move || {
                let mut r = Rng::new(run.seed, 99);
                for k in 0..rounds {
                    let i = r.below(n as usize) as u64;
                    let c = probe_case(run.seed, i);
                    bar.wait();
                    for _ in 0..3 {
                        let a = answer(&c);
                        if a != want[i as usize] {
                            bads.lock().unwrap().push((i, a));
                        }
                    }
                    if t % 4 == k as usize % 4 {
                        noise(r.clone().next(), i as u32 % 0x110000);
                    }
                }
            });
        }
    });
    run.note(rounds * run.threads as u64 * 3, 0, rounds * run.threads as u64 * 3);
    run.phases.lock().unwrap().push(("same probe in lockstep".into(), rounds * run.threads as u64 * 3, t0.elapsed().as_secs_f64()));
    for (i, a) in bads.into_inner().unwrap().into_iter().take(4) {
        run.add_viol(Viol { case: probe_case(run.seed, i), what: format!("answer {:016x} while all threads ask at once, {:016x} when asked quietly", a, want[i as usize]), history: vec![] });
    }
    // iterators of several texts interleaved, and one iterator per thread on one text
    run.phase("interleaved iterators", run.scale(20_000, 200_000), 64, false, &|c, s| {
        let Case::Text(t) = c else { return };
        let i: u64 = t.parse().unwrap();
        let mut strs = vec![];
        let mut k = i;
        while strs.len() < 3 {
            if let Case::Str(v) = probe_case(run.seed, k % n) {
                strs.push((to_string(&v), k % n));
            }
            k += 1;
        }
        let alone: Vec<Vec<&str>> = strs.iter().map(|x| x.0.break_graphemes().collect()).collect();
        let mut its: Vec<_> = strs.iter().map(|x| x.0.break_graphemes()).collect();
        let mut got: Vec<Vec<&str>> = vec![vec![]; 3];
        let mut live = 3;
        let mut step = 0usize;
        while live > 0 {
            let j = (step * 7 + step / 3) % 3;
            step += 1;
            match its[j].next() {
                Some(g) if got[j].len() <= alone[j].len() => got[j].push(g),
                _ => live = (0..3).filter(|j| got[*j].len() < alone[*j].len()).count(),
            }
            if step > 100_000 {
                break;
            }
        }
        s.obs(3);
        s.nontrivial = true;
        if got != alone {
            s.fail(format!("interleaved iterators over probes {:?} disturb each other", strs.iter().map(|x| x.1).collect::<Vec<_>>()));
        }
    }, |i, r, ex| { let _ = i; ex(Case::Text(r.below(n as usize).to_string())) });
    for v in run.viols.lock().unwrap().iter_mut() {
        if let Case::Text(t) = &v.case {
            if let Ok(i) = t.parse::<u64>() {
                v.case = probe_case(run.seed, i);
            } else if t.starts_with("twin ") {
                v.case = Case::Text(format!("{} {}", t, run.seed));
            }
        }
    }
}
