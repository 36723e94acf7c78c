//! Normalisation properties.
use crate::core::*;
use crate::oracle::{self, N};
use crate::refnorm::*;
use seshat::unicode::props::Dt;
use seshat::unicode::{Normalization, Ucd};

pub fn call(s: &str, f: Form) -> String {
    match f {
        Form::Nfd => s.to_nfd(),
        Form::Nfkd => s.to_nfkd(),
        Form::Nfc => s.to_nfc(),
        Form::Nfkc => s.to_nfkc(),
    }
}

/// Character pools the string generators draw from.
pub struct Pools {
    pub decomposable: Vec<u32>,
    pub compat: Vec<u32>,
    pub marks: Vec<u32>,
    pub mark_reps: Vec<u32>, // one or two marks of every combining class
    pub firsts: Vec<u32>,
    pub seconds: Vec<u32>,
    pub starter_seconds: Vec<u32>,
    pub excluded: Vec<u32>,
    pub hangul: Vec<u32>,
    pub plain: Vec<u32>,
    pub composites: Vec<u32>,
}
impl Pools {
    pub fn new(n: &RefNorm) -> Pools {
        let mut p = Pools {
            decomposable: vec![], compat: vec![], marks: vec![], mark_reps: vec![], firsts: vec![], seconds: vec![], starter_seconds: vec![],
            excluded: vec![], hangul: vec![], plain: vec![], composites: vec![],
        };
        let mut seen = std::collections::HashMap::new();
        for c in 0..N as u32 {
            if let Some((k, _)) = n.dm.get(&c) {
                if *k { p.compat.push(c) } else { p.decomposable.push(c) }
            }
            if n.cccv[c as usize] != 0 {
                p.marks.push(c);
                let e = seen.entry(n.cccv[c as usize]).or_insert(0);
                if *e < 2 {
                    *e += 1;
                    p.mark_reps.push(c);
                }
            }
            if n.comp_ex.on(c) {
                p.excluded.push(c);
            }
        }
        let (mut f, mut s, mut comp) = (std::collections::BTreeSet::new(), std::collections::BTreeSet::new(), std::collections::BTreeSet::new());
        for (c, (k, m)) in &n.dm {
            if !*k && m.len() == 2 {
                f.insert(m[0]);
                s.insert(m[1]);
                comp.insert(*c);
            }
        }
        p.firsts = f.into_iter().collect();
        p.composites = comp.into_iter().collect();
        p.starter_seconds = s.iter().copied().filter(|c| n.cccv[*c as usize] == 0).collect();
        p.seconds = s.into_iter().collect();
        for c in [0x10FF, 0x1100, 0x1101, 0x1109, 0x1112, 0x1113, 0x115F, 0x1160, 0x1161, 0x1162, 0x1170, 0x1175, 0x1176, 0x11A2, 0x11A6, 0x11A7, 0x11A8, 0x11A9, 0x11B0, 0x11C2, 0x11C3, 0x11FF,
            0xA960, 0xA97C, 0xAC00, 0xAC01, 0xAC1B, 0xAC1C, 0xAC1D, 0xABFF, 0xC758, 0xD55C, 0xD788, 0xD7A3, 0xD7A4, 0xD7AF, 0xD7B0, 0xD7CB, 0xD7FB] {
            p.hangul.push(c);
        }
        p.plain = vec![0, 0x20, 0x41, 0x61, 0x6F, 0x7A, 0x7F, 0x80, 0xE000, 0xFFFE, 0xFFFF, 0x4E00, 0x1F600, 0x10FFFF, 0x200C, 0x200D, 0x34F, 0xFE0F, 0xFEFF, 0x2028];
        p
    }
    fn one(&self, r: &mut Rng, mode: usize) -> u32 {
        let m = if r.chance(8) { r.below(12) } else { mode };
        match m {
            0 => r.pick(&self.decomposable),
            1 => r.pick(&self.compat),
            2 => r.pick(&self.marks),
            3 => r.pick(&self.mark_reps),
            4 => r.pick(&self.firsts),
            5 => r.pick(&self.seconds),
            6 => r.pick(&self.starter_seconds),
            7 => r.pick(&self.hangul),
            8 => r.pick(&self.excluded),
            9 => r.pick(&self.plain),
            10 => r.pick(&self.composites),
            _ => scalar(r),
        }
    }
    /// A random string; several shapes, mostly short, sometimes long.
    pub fn string(&self, r: &mut Rng) -> Vec<u32> {
        if let Some(d) = crate::dict::dict() {
            if r.chance(3) {
                return d.text(r, &mut |r| { let m = r.below(12); loop { let c = self.one(r, m); if char::from_u32(c).is_some() { return c } } });
            }
        }
        let len = match r.below(40) {
            0 => 0,
            1..=24 => 1 + r.below(6),
            25..=36 => 3 + r.below(14),
            37 | 38 => 20 + r.below(60),
            _ => 90 + r.below(200),
        };
        let mut v = Vec::with_capacity(len);
        match r.below(8) {
            // text of one script: neighbours of one character
            7 => {
                let m = r.pick(&[0, 1, 1, 2, 5, 8, 9, 10, 11, 11]);
                let b = self.one(r, m) & !0xF;
                let w = r.pick(&[0x10, 0x20, 0x40, 0x80]);
                for _ in 0..len {
                    v.push((b.saturating_sub(r.pick(&[0, 0, 0x10, 0x20])) + r.below(w) as u32).min(0x10FFFF));
                }
            }
            // starter followed by marks, repeatedly
            0 | 1 => {
                while v.len() < len {
                    let m = r.pick(&[0, 4, 4, 8, 10, 9, 7, 1]);
                    v.push(self.one(r, m));
                    for _ in 0..r.below(6) {
                        let m = r.pick(&[2, 3, 3, 5, 5, 8]);
                        v.push(self.one(r, m));
                    }
                }
            }
            // marks first (leading non-starters)
            2 => {
                for _ in 0..len {
                    let m = r.pick(&[2, 3, 5, 5, 6]);
                    v.push(self.one(r, m));
                }
            }
            // Hangul soup
            3 => {
                for _ in 0..len {
                    let c = if r.chance(3) { r.pick(&self.hangul) } else {
                        match r.below(4) {
                            0 => 0x1100 + r.below(0x14) as u32,
                            1 => 0x1161 + r.below(0x16) as u32,
                            2 => 0x11A7 + r.below(0x1D) as u32,
                            _ => 0xAC00 + r.below(11172) as u32,
                        }
                    };
                    v.push(c);
                    if r.chance(10) {
                        v.push(self.one(r, 3));
                    }
                }
            }
            // decompositions of composites, torn apart
            4 => {
                while v.len() < len {
                    let c = r.pick(&self.composites);
                    v.push(c);
                    if r.chance(2) {
                        v.push(self.one(r, 3));
                    }
                    if r.chance(3) {
                        v.push(r.pick(&self.seconds));
                    }
                }
            }
            // one mark class against another, small alphabet (ordering ties)
            5 => {
                let a: Vec<u32> = (0..3).map(|_| r.pick(&self.mark_reps)).collect();
                let b = self.one(r, 4);
                for _ in 0..len {
                    v.push(if r.chance(9) { b } else { r.pick(&a) });
                }
            }
            _ => {
                let m = r.below(12);
                for _ in 0..len {
                    v.push(self.one(r, m));
                }
            }
        }
        for c in v.iter_mut() {
            if (0xD800..0xE000).contains(c) {
                *c = 0x61;
            }
        }
        v
    }
}
pub fn scalar(r: &mut Rng) -> u32 {
    loop {
        let c = crate::p_cp::interesting(r);
        if !(0xD800..0xE000).contains(&c) {
            return c;
        }
    }
}

pub fn check_forms(n: &RefNorm, forms: &[Form], v: &[u32], s: &mut Sink) {
    let text = to_string(v);
    for f in forms {
        let want = n.norm(v, *f);
        let got = call(&text, *f);
        s.obs(1);
        if want != v {
            s.nontrivial = true;
        }
        if std::str::from_utf8(got.as_bytes()).is_err() {
            s.fail(format!("{} of {} is not valid UTF-8", f.name(), hex(v)));
            continue;
        }
        let g = to_u32(&got);
        if g != want {
            s.fail(format!("{} of {}: expected {}, got {}", f.name(), hex(v), hex(&want), hex(&g)));
        }
    }
}

/// Structured + random string workload shared by the normalisation checks.
pub fn strings(run: &Run, n: &RefNorm, check: &(dyn Fn(&Case, &mut Sink) + Sync), weight: u64) {
    let p = Pools::new(n);
    let sc = |f: &mut dyn FnMut(Case), v: Vec<u32>| f(Case::Str(v));
    let total = N as u64;
    let is_s = |c: u32| (0xD800..0xE000).contains(&c);
    run.phase("every scalar alone", total, 2048, true, check, |i, _, ex| {
        if !is_s(i as u32) { sc(ex, vec![i as u32]) }
    });
    // every character that means anything to normalisation, in contexts
    let mut act: Vec<u32> = p.decomposable.iter().chain(&p.compat).chain(&p.marks).chain(&p.firsts).chain(&p.seconds).chain(&p.hangul).chain(&p.plain).copied().collect();
    act.sort();
    act.dedup();
    let ctx: &[&[u32]] = &[
        &[0x61, 0x301, 0, 0x327, 0x301], &[0, 0x338, 0x300], &[0, 0x323, 0x307], &[0x1100, 0, 0x11A8], &[0xAC00, 0], &[0x61, 0],
        &[0, 0x1161, 0x11A8], &[0, 0x345, 0x342, 0x300], &[0x315, 0, 0x300], &[0, 0], &[0, 0x3099], &[0x9C7, 0], &[0, 0x64B, 0x655], &[0x5E9, 0x5BC, 0, 0x5C1],
        &[0, 0x34F, 0x301], &[0x1100, 0x1161, 0, 0x11A8], &[0xF40, 0xF71, 0, 0xF72], &[0xFB2C, 0], &[0x30A, 0x41, 0, 0x30A], &[0, 0x200D, 0x338],
    ];
    run.phase("every active character in contexts", act.len() as u64, 64, true, check, |i, _, ex| {
        for t in ctx {
            sc(ex, t.iter().map(|x| if *x == 0 { act[i as usize] } else { *x }).collect());
        }
    });
    run.phase("every scalar among marks (scattered)", total, 2048, false, check, |i, r, ex| {
        let c = (i.wrapping_mul(736_357) % total) as u32;
        if is_s(c) || (weight > 1 && i % 4 != 0) { return }
        let m = r.pick(&p.seconds);
        sc(ex, vec![0x75, r.pick(&p.mark_reps), c, m, r.pick(&p.mark_reps)]);
    });
    let mut fl: Vec<u32> = p.firsts.iter().chain(&p.composites).copied().collect();
    fl.sort();
    fl.dedup();
    let sl: Vec<u32> = p.seconds.iter().chain(&p.mark_reps).copied().collect();
    run.phase("first x second pairs", fl.len() as u64, 8, true, check, |i, _, ex| {
        for s2 in &sl {
            sc(ex, vec![fl[i as usize], *s2]);
        }
    });
    let k = run.scale(5, 40);
    run.phase("first x mark x second triples", k * 150_000 / weight, 256, false, check, |_, r, ex| {
        sc(ex, vec![r.pick(&fl), r.pick(&p.mark_reps), r.pick(&p.seconds)]);
    });
    run.phase("Hangul L x V x T with edges", 23 * 24, 2, true, check, |i, _, ex| {
        let (l, v) = (0x10FF + (i / 24) as u32, 0x1160 + (i % 24) as u32);
        sc(ex, vec![l, v]);
        for t in 0x11A6..=0x11C4 {
            sc(ex, vec![l, v, t]);
        }
    });
    run.phase("Hangul syllable x T with edges", 11174 / weight, 16, true, check, |i, _, ex| {
        let s = 0xABFF + (i * weight) as u32;
        for t in 0x11A6..=0x11C4 {
            sc(ex, vec![s, t]);
        }
        sc(ex, vec![s, 0x1161]);
        sc(ex, vec![0x1100, s]);
    });
    // permutations of marks after a base
    run.phase("permuted marks", k * 30_000 / weight, 64, false, check, |_, r, ex| {
        let n = 2 + r.below(5);
        let mut m: Vec<u32> = (0..n).map(|_| if r.chance(2) { r.pick(&p.mark_reps) } else { r.pick(&p.seconds) }).collect();
        let b = r.pick(&fl);
        for _ in 0..4 {
            for a in (1..m.len()).rev() {
                let c = r.below(a + 1);
                m.swap(a, c);
            }
            let mut v = vec![b];
            v.extend(&m);
            sc(ex, v);
        }
    });
    run.phase("random strings", k * 500_000 / weight, 256, false, check, |_, r, ex| sc(ex, p.string(r)));
    // long combining sequences and long strings around internal size limits
    let lens: Vec<usize> = [15, 16, 17, 18, 19, 20, 21, 30, 31, 32, 33, 62, 63, 64, 65, 100, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258, 300, 511, 512, 513, 600, 1000, 1023, 1024, 1025, 1026].to_vec();
    run.phase("long combining runs", (lens.len() * 6) as u64 * if weight > 1 { 1 } else { 2 }, 2, false, check, |i, r, ex| {
        let n = lens[(i / 6) as usize % lens.len()];
        let mut v = vec![];
        match i % 6 {
            0 => { v.push(0x61); for _ in 0..n { v.push(r.pick(&p.mark_reps)) } }
            1 => { v.push(r.pick(&fl)); for _ in 0..n { v.push(r.pick(&p.seconds)) } }
            2 => { for _ in 0..n { v.push(r.pick(&p.marks)) } v.push(0xE9) }
            3 => { v.push(0x61); for j in 0..n { v.push(if j + 1 == n { 0x323 } else { 0x301 }) } }
            4 => { v.push(0x61); for j in 0..n { v.push(p.mark_reps[(n - j) % p.mark_reps.len()]) } }
            _ => { for j in 0..n { v.push(match j % 3 { 0 => 0x1100 + (j as u32 / 3) % 19, 1 => 0x1161 + (j as u32 / 5) % 21, _ => 0x11A8 + (j as u32 / 7) % 27 }) } }
        }
        sc(ex, v)
    });
    // runs of text that normalisation leaves alone, of every length (a block-
    // wise or quick-check path ends somewhere), with something active inside
    let mut quiet: Vec<usize> = (0..=if weight == 1 { 530 } else { 140 }).collect();
    quiet.extend([1022, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192]);
    const FILL: [&[u32]; 9] = [&[0x78], &[0x61, 0x65, 0x6F, 0x20, 0x41, 0x75, 0x2E, 0x30], &[0x3B1, 0x3B7, 0x3C9], &[0x4E00, 0x6F22], &[0xE9, 0xF1], &[0xAC00, 0xB098], &[0x1F600], &[0x61, 0x3042, 0x1F600, 0xDF], &[0xFF21, 0x41]];
    run.phase("runs of quiet text with something active inside", (quiet.len() * FILL.len()) as u64, 8, false, check, |i, r, ex| {
        let (n, f) = (quiet[i as usize / FILL.len()], FILL[i as usize % FILL.len()]);
        for k in 0..if n > 530 { 2 } else { 4 } {
            let mut v: Vec<u32> = (0..n).map(|j| f[j % f.len()]).collect();
            match k {
                0 => { let c = r.pick(&[0x301, 0x327, 0x338, 0x308]); if f[0] < 0x4E00 { v.push(r.pick(&[0x65, 0x61, 0x6F, 0x3B1])) } v.push(c); v.push(r.pick(&[0x323, 0x315, 0x61])) }
                1 => { v.push(r.pick(&p.seconds)); v.push(r.pick(&p.mark_reps)) }
                2 => { v.push(r.pick(&fl)); v.push(r.pick(&p.seconds)) }
                _ => { v.push(r.pick(&[0x1100, 0x1112])); v.push(0x1161 + r.below(21) as u32); v.push(0x11A8 + r.below(27) as u32) }
            }
            if r.chance(2) {
                let m = r.below(n + 2);
                v.extend((0..m).map(|j| f[j % f.len()]));
                v.push(r.pick(&fl));
                v.push(r.pick(&p.seconds));
            }
            sc(ex, v);
        }
    });
    let big: &[usize] = if run.tier_thorough { &[2048, 4096, 4097, 8191, 8192, 16385, 32769] } else { &[2049, 4097] };
    run.phase("very long strings", (big.len() * 3) as u64, 1, false, check, |i, r, ex| {
        let n = big[i as usize / 3];
        let mut v = vec![];
        match i % 3 {
            0 => { v.push(0x61); for j in 0..n { v.push(if j % 17 == 16 { 0x327 } else { 0x301 }) } v.push(0x6F); v.push(0x308) }
            1 => { while v.len() < n { v.extend([0x65, 0x301, 0xE9, 0x1100, 0x1161, 0x11A8]) } v.extend([0x41, 0x30A]) }
            _ => { while v.len() < n { let s = p.string(r); v.extend(s) } }
        }
        sc(ex, v)
    });
    // texts far beyond any buffer or piece size, dense in places where a cut
    // would show; stray characters shift the alignment
    let units: &[&[u32]] = &[&[0x61, 0x301, 0x323], &[0x1100, 0x1161, 0x11A8], &[0x65, 0x323, 0x302], &[0xE9, 0x323], &[0x9C7, 0x9BE], &[0xFB01, 0x3392, 0xFDFA, 0x301], &[0x11131, 0x11127, 0x1D15E], &[0xF71, 0xF72, 0xF74, 0xF40], &[0x3B1, 0x345, 0x342, 0x301], &[0xAC00, 0x11A8, 0x1112, 0x1175]];
    let texts = (units.len() as u64 + 4) * if run.tier_thorough { 4 } else if weight == 1 { 2 } else { 1 };
    run.phase("texts of up to 1,100,000 code points", texts, 1, false, check, |i, r, ex| {
        let k = i as usize % (units.len() + 4);
        let n = if i < 3 && (run.tier_thorough || weight == 1) { 1_100_000 } else if r.chance(2) { 66_000 + r.below(3000) } else { 132_000 + r.below(8000) };
        let mut v: Vec<u32> = (0..r.below(50)).map(|_| r.pick(&p.plain)).collect();
        while v.len() < n {
            match k.checked_sub(units.len()) {
                None => v.extend(units[k]),
                Some(0) => { let s = p.string(r); if s.len() < 60 { v.extend(s); v.push(0x2E) } }
                Some(1) => v.push(if r.chance(90) { r.pick(&act) } else { 0x20 + r.below(0x5F) as u32 }),
                Some(2) => { v.push(r.pick(&fl)); v.push(r.pick(&p.seconds)) }
                _ => { v.push(r.pick(&act)); if r.chance(3) { v.push(0x41) } }
            }
            if r.chance(400) {
                v.push(r.pick(&[0x2D, 0xE9, 0x4E00, 0x1F600]));
            }
        }
        for c in v.iter_mut() { if is_s(*c) { *c = 0x61 } }
        sc(ex, v)
    });
    // as many expanding characters, or characters they expand to, as a counter
    // of 8 or 16 bits forgets about; what they expand to expands again
    const NEST: [(u32, usize); 10] = [(0x1C4, 2), (0x1EA4, 2), (0x1E69, 2), (0x212B, 1), (0x390, 2), (0x1FC1, 2), (0x1F71, 1), (0x1D160, 2), (0xFB2C, 2), (0x1FEE, 2)];
    let rounds: &[usize] = if run.tier_thorough { &[65536, 131072, 196608, 32768] } else if weight == 1 { &[65536] } else { &[] };
    let smalls = [256usize, 512, 768, 1024, 4096, 128];
    run.phase("round numbers of expanding characters", NEST.len() as u64 * (rounds.len() * 2 + smalls.len()) as u64, 1, false, check, |i, r, ex| {
        let (c, d) = NEST[i as usize % NEST.len()];
        let k = i as usize / NEST.len();
        // of what they expand to, or of the characters
        let n = match k.checked_sub(smalls.len()) {
            None => smalls[k] / if r.chance(2) { d } else { 1 },
            Some(j) => rounds[j / 2] / if j % 2 == 0 { d } else { 1 },
        };
        let mut v = vec![];
        for _ in 0..n {
            v.push(c);
            if r.chance(50) || d == 1 && r.chance(3) {
                v.push(r.pick(&[0x2E, 0x4E00, 0x31]));
            }
        }
        sc(ex, v)
    });
}
/// Ordering and composing one run of n marks takes time quadratic in n (see
/// DESIGN.md): long texts are normalised only when their runs are short.
pub fn affordable(v: &[u32]) -> bool {
    if v.len() <= 9_000 {
        return true;
    }
    let (mut run, mut max) = (0, 0);
    for c in v {
        run = if char::from_u32(*c).map_or(false, |c| c.ccc() != seshat::unicode::props::Ccc::NR) { run + 1 } else { 0 };
        max = run.max(max);
    }
    max <= 400
}

pub fn run_forms(run: &Run, forms: &[Form]) {
    let n = RefNorm::new();
    strings(run, &n, &|c, s| if let Case::Str(v) = c { check_forms(&n, forms, v, s) }, 1);
}

// ------------------------------------------------------------- algebra (C23)
pub struct Equiv {
    n: RefNorm,
    /// first character of a canonical mapping -> (mapping, composite)
    back: std::collections::HashMap<u32, Vec<(Vec<u32>, u32)>>,
}
impl Equiv {
    pub fn new() -> Equiv {
        let n = RefNorm::new();
        let mut back: std::collections::HashMap<u32, Vec<(Vec<u32>, u32)>> = Default::default();
        let mut all: Vec<_> = n.dm.iter().filter(|x| !x.1 .0).map(|(c, m)| (*c, m.1.clone())).collect();
        all.sort();
        for (c, m) in all {
            back.entry(m[0]).or_default().push((m, c));
        }
        Equiv { n, back }
    }
    fn hash(v: &[u32]) -> u64 {
        v.iter().fold(99u64, |h, c| (h ^ *c as u64).wrapping_mul(0x100000001B3).rotate_left(13))
    }
    /// A canonically equivalent spelling of `v` (D70), by random local rewrites.
    fn respell(&self, v: &[u32], r: &mut Rng) -> Vec<u32> {
        let mut x = v.to_vec();
        let steps = if x.len() > 600 { 40 } else { 3 * x.len().max(1) };
        for _ in 0..steps {
            if x.is_empty() {
                break;
            }
            let i = r.below(x.len());
            match r.below(4) {
                0 => {
                    let m = oracle::hangul_dm(x[i]).or_else(|| self.n.dm.get(&x[i]).filter(|m| !m.0).map(|m| m.1.clone()));
                    if let Some(m) = m {
                        x.splice(i..i + 1, m);
                    }
                }
                1 => {
                    if i + 1 < x.len() {
                        let (a, b) = (x[i], x[i + 1]);
                        if (0x1100..0x1113).contains(&a) && (0x1161..0x1176).contains(&b) || (0xAC00..0xD7A4).contains(&a) && (a - 0xAC00) % 28 == 0 && (0x11A8..0x11C3).contains(&b) {
                            let p = self.n.pair(a, b).unwrap();
                            x.splice(i..i + 2, [p]);
                            continue;
                        }
                    }
                    if let Some(c) = self.back.get(&x[i]) {
                        let (m, p) = &c[r.below(c.len())];
                        if x.len() >= i + m.len() && x[i..i + m.len()] == m[..] {
                            x.splice(i..i + m.len(), [*p]);
                        }
                    }
                }
                _ => {
                    if i + 1 < x.len() {
                        let (a, b) = (self.n.cccv[x[i] as usize], self.n.cccv[x[i + 1] as usize]);
                        if a != 0 && b != 0 && a != b {
                            x.swap(i, i + 1);
                        }
                    }
                }
            }
        }
        x
    }
    pub fn check(&self, v: &[u32], s: &mut Sink) {
        let t = to_string(v);
        let f: Vec<String> = FORMS.iter().map(|f| call(&t, *f)).collect();
        let (d, kd, c, kc) = (&f[0], &f[1], &f[2], &f[3]);
        s.nontrivial = f.iter().any(|x| *x != t);
        let mut eq = |name: &str, got: String, want: &str| {
            s.observed += 1;
            if got != want {
                s.fails.push(format!("{} for x = {}: {} is not {}", name, hex(v), hex(&to_u32(&got)), hex(&to_u32(want))));
            }
        };
        eq("NFD(NFD x) = NFD x", d.to_nfd(), d);
        eq("NFKD(NFKD x) = NFKD x", kd.to_nfkd(), kd);
        eq("NFC(NFC x) = NFC x", c.to_nfc(), c);
        eq("NFKC(NFKC x) = NFKC x", kc.to_nfkc(), kc);
        eq("NFD(NFC x) = NFD x", c.to_nfd(), d);
        eq("NFC(NFD x) = NFC x", d.to_nfc(), c);
        eq("NFKD(NFC x) = NFKD x", c.to_nfkd(), kd);
        eq("NFKD(NFD x) = NFKD x", d.to_nfkd(), kd);
        eq("NFKD(NFKC x) = NFKD x", kc.to_nfkd(), kd);
        eq("NFKC(NFC x) = NFKC x", c.to_nfkc(), kc);
        eq("NFKC(NFD x) = NFKC x", d.to_nfkc(), kc);
        eq("NFKC(NFKD x) = NFKC x", kd.to_nfkc(), kc);
        eq("NFC(NFKC x) = NFKC x", kc.to_nfc(), kc);
        eq("NFC(NFKD x) = NFKC x", kd.to_nfc(), kc);
        eq("NFD(NFKD x) = NFKD x", kd.to_nfd(), kd);
        eq("NFD(NFKC x) = NFKD x", kc.to_nfd(), kd);
        // the decomposed forms are in canonical order and fully decomposed
        for (name, x) in [("NFD", d), ("NFKD", kd)] {
            let cc: Vec<u8> = x.chars().map(|c| self.n.cccv[c as usize]).collect();
            if cc.windows(2).any(|w| w[0] > w[1] && w[1] != 0) {
                s.fail(format!("{} of {} is not in canonical order: {}", name, hex(v), hex(&to_u32(x))));
            }
        }
        // ... and every form holds only characters its own properties allow
        s.obs(4);
        for (name, x, bad) in [("NFD", d, (|c| c.dt() == Dt::Can) as fn(char) -> bool), ("NFKD", kd, |c| c.dt() != Dt::None), ("NFC", c, |c| c.comp_ex()), ("NFKC", kc, |c| c.comp_ex() || c.dt() != Dt::None && c.dt() != Dt::Can)] {
            if let Some(b) = x.chars().find(|c| bad(*c)) {
                s.fail(format!("{} of {} still has U+{:04X}, which the library's own properties keep out of it", name, hex(v), b as u32));
            }
        }
        // equivalent spellings
        let mut r = Rng::new(Self::hash(v), 5);
        for _ in 0..if v.len() > 40 { 1 } else { 2 } {
            let y = self.respell(v, &mut r);
            if y == v {
                continue;
            }
            s.tags.push("canonically equivalent respellings compared");
            let ty = to_string(&y);
            for (i, fm) in FORMS.iter().enumerate() {
                s.obs(1);
                let g = call(&ty, *fm);
                if g != f[i] {
                    s.fail(format!("canonically equivalent {} and {} have different {}: {} and {}", hex(v), hex(&y), fm.name(), hex(&to_u32(&f[i])), hex(&to_u32(&g))));
                }
            }
        }
        // compatibility mapping of any one character leaves NFKC/NFKD alone
        if !v.is_empty() {
            let i = r.below(v.len());
            if let Some(m) = self.n.dm.get(&v[i]) {
                let mut y = v.to_vec();
                y.splice(i..i + 1, m.1.iter().copied());
                let ty = to_string(&y);
                s.tags.push("compatibility respellings compared");
                s.obs(2);
                if ty.to_nfkd() != *kd || ty.to_nfkc() != *kc {
                    s.fail(format!("replacing U+{:04X} in {} by its mapping changes NFKD or NFKC", v[i], hex(v)));
                }
            }
        }
    }
}
pub fn run_algebra(run: &Run) {
    let e = Equiv::new();
    strings(run, &e.n, &|c, s| if let Case::Str(v) = c { e.check(v, s) }, 4);
}

// ------------------------------------------------------------ locality (C24)
pub struct Local {
    n: RefNorm,
    stable_d: Vec<bool>,
    stable_c: Vec<bool>,
}
impl Local {
    pub fn new() -> Local {
        let n = RefNorm::new();
        let mut second: std::collections::HashSet<u32> = n.compose.keys().map(|k| k.1).collect();
        second.extend(0x1161..0x1176);
        second.extend(0x11A8..0x11C3);
        let (mut sd, mut sc) = (vec![false; N], vec![false; N]);
        for c in 0..N as u32 {
            if (0xD800..0xE000).contains(&c) {
                continue;
            }
            let k = n.full_k.get(&c).map(|v| v[0]).unwrap_or(c);
            let d = n.full_c.get(&c).map(|v| v[0]).unwrap_or(c);
            let ok = n.cccv[c as usize] == 0 && n.cccv[d as usize] == 0 && n.cccv[k as usize] == 0;
            sd[c as usize] = ok;
            sc[c as usize] = ok && !second.contains(&c) && !second.contains(&d) && !second.contains(&k);
        }
        Local { n, stable_d: sd, stable_c: sc }
    }
    pub fn check(&self, v: &[u32], s: &mut Sink) {
        let t = to_string(v);
        let whole: Vec<String> = FORMS.iter().map(|f| call(&t, *f)).collect();
        // concatenation at stable boundaries
        let cuts: Vec<usize> = (1..v.len()).filter(|i| self.stable_d[v[*i] as usize]).collect();
        let step = (cuts.len() / 6).max(1);
        for i in cuts.iter().step_by(step) {
            let (a, b) = (to_string(&v[..*i]), to_string(&v[*i..]));
            for (k, f) in FORMS.iter().enumerate() {
                if k >= 2 && !self.stable_c[v[*i] as usize] {
                    continue;
                }
                s.nontrivial = true;
                s.obs(1);
                let j = call(&a, *f) + &call(&b, *f);
                if j != whole[k] {
                    s.fail(format!("{} of {} differs from the concatenation of its parts cut at {} (before U+{:04X}): {} / {}", f.name(), hex(v), i, v[*i], hex(&to_u32(&whole[k])), hex(&to_u32(&j))));
                }
            }
        }
        // the same text as a slice of a larger buffer, with hostile neighbours
        let big = format!("e\u{301}\u{1100}{}\u{1161}\u{301}\u{327}", t);
        let o = "e\u{301}\u{1100}".len();
        let sl = &big[o..o + t.len()];
        for (k, f) in FORMS.iter().enumerate() {
            s.obs(1);
            if call(sl, *f) != whole[k] {
                s.fail(format!("{} of {} depends on the text around the slice", f.name(), hex(v)));
            }
        }
        // ASCII surroundings pass through untouched
        if v.len() < 40 {
            s.nontrivial = true;
            let e = format!("{}#q~", t);
            for (k, f) in FORMS.iter().enumerate() {
                s.obs(1);
                let g = call(&e, *f);
                if g != format!("{}#q~", whole[k]) {
                    s.fail(format!("{} of {} changes when ASCII text is appended: {}", f.name(), hex(v), hex(&to_u32(&g))));
                }
            }
        }
    }
}
pub fn run_local(run: &Run) {
    let l = Local::new();
    let check = |c: &Case, s: &mut Sink| if let Case::Str(v) = c { l.check(v, s) };
    strings(run, &l.n, &check, 4);
    // plain ASCII is a fixed point of every form
    run.phase("ASCII and Latin-1 fixed points", 20_000, 256, false, &|c, s| {
        if let Case::Str(v) = c {
            let t = to_string(v);
            s.nontrivial = v.len() > 1;
            let forms: &[Form] = if v.iter().all(|c| *c < 0x80) { &FORMS } else { &[Form::Nfc] };
            for f in forms {
                s.obs(1);
                if call(&t, *f) != t {
                    s.fail(format!("{} changes {}", f.name(), hex(v)));
                }
            }
        }
    }, |_, r, ex| {
        let m = if r.chance(2) { 0x80 } else { 0x100 };
        let n = if r.chance(50) { r.below(3000) } else { r.below(40) };
        ex(Case::Str((0..n).map(|_| r.below(m) as u32).collect()))
    });
}

// ------------------------------------------------------------- Hangul (C16)
fn hangul_ref_nfc(v: &[u32]) -> Vec<u32> {
    let mut o: Vec<u32> = vec![];
    for &c in v {
        if let Some(l) = o.last().copied() {
            if (0x1100..=0x1112).contains(&l) && (0x1161..=0x1175).contains(&c) {
                *o.last_mut().unwrap() = 0xAC00 + ((l - 0x1100) * 21 + (c - 0x1161)) * 28;
                continue;
            }
            if (0xAC00..=0xD7A3).contains(&l) && (l - 0xAC00) % 28 == 0 && (0x11A8..=0x11C2).contains(&c) {
                *o.last_mut().unwrap() = l + (c - 0x11A7);
                continue;
            }
        }
        o.push(c);
    }
    o
}
fn hangul_ref_nfd(v: &[u32]) -> Vec<u32> {
    let mut o = vec![];
    for &c in v {
        if (0xAC00..=0xD7A3).contains(&c) {
            let s = c - 0xAC00;
            o.push(0x1100 + s / 588);
            o.push(0x1161 + s % 588 / 28);
            if s % 28 > 0 {
                o.push(0x11A7 + s % 28);
            }
        } else {
            o.push(c);
        }
    }
    o
}
pub fn check_hangul(names: &oracle::Names, c: &Case, s: &mut Sink) {
    match c {
        Case::Cp(c) => {
            let x = crate::api::cp(*c);
            let ch = char::from_u32(*c).unwrap();
            let is = (0xAC00..=0xD7A3).contains(c);
            s.nontrivial = true;
            s.obs(3);
            if is {
                let want = names.get(*c);
                if x.na() != want || ch.na() != want {
                    s.fail(format!("U+{:04X} name: expected {:?}, got {:?} / {:?}", c, want, x.na(), ch.na()));
                }
            } else if x.na().starts_with("HANGUL SYLLABLE") {
                s.fail(format!("U+{:04X} is named {:?}", c, x.na()));
            }
            let want = oracle::hangul_dm(*c).unwrap_or_default();
            if (is || (0xD7A4..=0xD7FF).contains(c) || (0x1100..0x1200).contains(c)) && (to_u32(&x.dm()) != want || to_u32(&ch.dm()) != want) {
                s.fail(format!("U+{:04X} decomposition mapping: expected {}, got {}", c, hex(&want), hex(&to_u32(&x.dm()))));
            }
            use seshat::unicode::props::Hst;
            let want = if !is { x.hst() } else if (c - 0xAC00) % 28 == 0 { Hst::LV } else { Hst::LVT };
            if x.hst() != want || ch.hst() != want || (!is && matches!(want, Hst::LV | Hst::LVT)) {
                s.fail(format!("U+{:04X} hst: got {:?}", c, x.hst()));
            }
            if is {
                let v = [*c];
                check_hangul(names, &Case::Str(v.to_vec()), s);
            }
        }
        Case::Str(v) => {
            let t = to_string(v);
            let (d, k) = (hangul_ref_nfd(v), hangul_ref_nfc(&hangul_ref_nfd(v)));
            s.nontrivial |= d != *v || k != *v;
            s.obs(4);
            for (f, want) in [(Form::Nfd, &d), (Form::Nfkd, &d), (Form::Nfc, &k), (Form::Nfkc, &k)] {
                let g = to_u32(&call(&t, f));
                if g != *want {
                    s.fail(format!("{} of {}: expected {}, got {}", f.name(), hex(v), hex(want), hex(&g)));
                }
            }
        }
        _ => {}
    }
}
pub fn run_hangul(run: &Run) {
    let names = oracle::Names::load();
    let check = |c: &Case, s: &mut Sink| check_hangul(&names, c, s);
    run.phase("U+1100..U+D7FF", 0xD800 - 0x1100, 256, true, &check, |i, _, ex| ex(Case::Cp(0x1100 + i as u32)));
    run.phase("U+1100..U+D7FF scattered", 0xD800 - 0x1100, 256, false, &check, |i, _, ex| ex(Case::Cp(0x1100 + (i * 7919 % (0xD800 - 0x1100)) as u32)));
    run.phase("L x V x T with edges", 23 * 24, 2, true, &check, |i, _, ex| {
        let (l, v) = (0x10FF + (i / 24) as u32, 0x1160 + (i % 24) as u32);
        ex(Case::Str(vec![l, v]));
        for t in 0x11A6..=0x11C4 {
            ex(Case::Str(vec![l, v, t]));
            ex(Case::Str(vec![l, v, t, t]));
        }
    });
    run.phase("S x T with edges", 11174, 16, true, &check, |i, _, ex| {
        let s = 0xABFF + i as u32;
        for t in 0x11A6..=0x11C4 {
            ex(Case::Str(vec![s, t]));
        }
        for v in [0x1160, 0x1161, 0x1175, 0x1176] {
            ex(Case::Str(vec![s, v]));
        }
        for l in [0x1100, 0x1112, 0x1113] {
            ex(Case::Str(vec![l, s]));
            ex(Case::Str(vec![s, l]));
        }
    });
    let ext: Vec<u32> = (0x1100..0x1200).chain(0xA960..=0xA97C).chain(0xD7B0..=0xD7C6).chain(0xD7CB..=0xD7FB).collect();
    run.phase("jamo x jamo", (ext.len() * ext.len()) as u64, 512, true, &check, |i, _, ex| ex(Case::Str(vec![ext[i as usize / ext.len()], ext[i as usize % ext.len()]])));
    run.phase("random syllable and jamo strings", run.scale(300_000, 5_000_000), 256, false, &check, |_, r, ex| {
        let n = if r.chance(100) { r.below(600) } else { 1 + r.below(14) };
        ex(Case::Str((0..n).map(|_| match r.below(8) {
            0 | 1 => 0xAC00 + r.below(11172) as u32,
            2 => 0xAC00 + 28 * r.below(399) as u32,
            3 | 4 => 0x1100 + r.below(20) as u32,
            5 => 0x1161 + r.below(22) as u32,
            6 => 0x11A7 + r.below(29) as u32,
            _ => r.pick(&ext),
        }).collect()))
    });
    run.phase("long syllable and jamo texts", run.scale(16, 64), 1, false, &check, |i, r, ex| {
        let n = 66_000 + r.below(80_000);
        let mut v: Vec<u32> = vec![0x1100; r.below(40)];
        while v.len() < n {
            match i % 4 {
                0 => v.extend([0x1100 + r.below(19) as u32, 0x1161 + r.below(21) as u32, 0x11A8 + r.below(27) as u32]),
                1 => v.extend([0xAC00 + 28 * r.below(399) as u32, 0x11A8 + r.below(27) as u32]),
                2 => v.push(0xAC00 + r.below(11172) as u32),
                _ => v.extend([0x1100 + r.below(20) as u32, 0x1161 + r.below(22) as u32]),
            }
            if r.chance(300) { v.push(r.pick(&ext)) }
        }
        ex(Case::Str(v))
    });
}

// --------------------------------------------------------- identifiers (C28)
pub fn check_xid(v: &[u32], s: &mut Sink) {
    let t = to_string(v);
    let is_id = |x: &str| {
        let mut it = x.chars();
        it.next().map_or(false, |c| c.xids()) && it.all(|c| c.xidc())
    };
    s.obs(1);
    if !is_id(&t) {
        return;
    }
    for c in t.chars() {
        if c.xids() && !(c.ids() && c.xidc()) || c.xidc() && !c.idc() {
            s.fail(format!("U+{:04X} is in an XID set but not in the wider one", c as u32));
        }
    }
    for f in FORMS {
        let g = call(&t, f);
        s.obs(1);
        if g != t {
            s.nontrivial = true;
        }
        if !is_id(&g) {
            s.fail(format!("identifier {} has {} {}, which is not an identifier", hex(v), f.name(), hex(&to_u32(&g))));
        }
    }
}
pub fn run_xid(run: &Run) {
    let (st, co) = (oracle::prop("xids"), oracle::prop("xidc"));
    let n = RefNorm::new();
    let starts: Vec<u32> = (0..N as u32).filter(|c| st.on(*c)).collect();
    let conts: Vec<u32> = (0..N as u32).filter(|c| co.on(*c)).collect();
    let act = |v: &[u32]| -> Vec<u32> { v.iter().copied().filter(|c| n.dm.contains_key(c) || n.cccv[*c as usize] != 0).collect() };
    let (sa, ca) = (act(&starts), act(&conts));
    let check = |c: &Case, s: &mut Sink| if let Case::Str(v) = c { check_xid(v, s) };
    run.phase("every code point as a one-character identifier", N as u64, 2048, true, &check, |i, _, ex| {
        if !(0xD800..0xE000).contains(&i) { ex(Case::Str(vec![i as u32])) }
    });
    run.phase("every code point continuing an identifier", N as u64, 2048, true, &check, |i, _, ex| {
        if !(0xD800..0xE000).contains(&i) { ex(Case::Str(vec![0x61, i as u32])); ex(Case::Str(vec![0x61, i as u32, 0x301])); }
    });
    run.phase("random identifiers", run.scale(400_000, 6_000_000), 256, false, &check, |_, r, ex| {
        let mut v = vec![if r.chance(2) { r.pick(&starts) } else { r.pick(&sa) }];
        for _ in 0..r.below(8) {
            v.push(if r.chance(3) { r.pick(&conts) } else { r.pick(&ca) });
        }
        ex(Case::Str(v))
    });
    run.phase("long identifiers", run.scale(12, 60), 1, false, &check, |_, r, ex| {
        let n = if r.chance(2) { 300 + r.below(4000) } else { 66_000 + r.below(70_000) };
        let mut v = vec![r.pick(&starts)];
        while v.len() < n {
            v.push(if r.chance(3) { r.pick(&conts) } else { r.pick(&ca) });
            if r.chance(2) { v.push(r.pick(&starts)) }
        }
        ex(Case::Str(v))
    });
}
