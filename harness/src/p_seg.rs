//! Grapheme segmentation properties.
use crate::core::*;
use crate::oracle::N;
use crate::refseg::*;
use seshat::unicode::Segmentation;

fn observe<'a>(t: &'a str, max: usize) -> Vec<&'a str> {
    let mut out = vec![];
    for g in t.break_graphemes() {
        out.push(g);
        if out.len() > max {
            break;
        }
    }
    out
}
fn show(cl: &[usize], v: &[u32]) -> String {
    let mut o = String::new();
    let mut i = 0;
    for (k, n) in cl.iter().enumerate() {
        if k == 24 {
            o.push_str(&format!(" ... ({} clusters)", cl.len()));
            break;
        }
        o.push_str(&hex(&v[i.min(v.len())..(i + n).min(v.len())]));
        i += n;
    }
    o
}
// C26
pub fn check_uax29(r: &RefSeg, v: &[u32], s: &mut Sink) {
    let t = to_string(v);
    let want = r.clusters(v);
    let got: Vec<usize> = observe(&t, v.len() + 2).iter().map(|g| g.chars().count()).collect();
    s.obs(want.len() as u64);
    s.nontrivial = want.len() != v.len();
    if got != want {
        s.fail(format!("clusters of {}: expected {}, got {}", hex(v), show(&want, v), show(&got, v)));
    }
}
// C25
pub fn check_partition(v: &[u32], s: &mut Sink) {
    let t = to_string(v);
    s.nontrivial = !v.is_empty();
    let mut it = t.break_graphemes();
    let mut pos = 0usize;
    let mut n = 0usize;
    let base = t.as_ptr() as usize;
    while let Some(g) = it.next() {
        n += 1;
        s.observed += 1;
        if g.is_empty() {
            s.fail(format!("empty cluster number {} in {}", n, hex(v)));
            return;
        }
        if n > v.len() {
            s.fail(format!("more clusters than code points in {}", hex(v)));
            return;
        }
        let p = g.as_ptr() as usize;
        if p != base + pos {
            s.fail(format!("cluster {} of {} does not start where the previous one ended: offset {} instead of {}", n, hex(v), p.wrapping_sub(base) as isize, pos));
            return;
        }
        if pos + g.len() > t.len() || !t.is_char_boundary(pos + g.len()) || std::str::from_utf8(g.as_bytes()).is_err() {
            s.fail(format!("cluster {} of {} ends inside a character or past the text ({}..{} of {})", n, hex(v), pos, pos + g.len(), t.len()));
            return;
        }
        pos += g.len();
    }
    if pos != t.len() {
        s.fail(format!("clusters of {} cover {} of {} bytes", hex(v), pos, t.len()));
    }
    for _ in 0..3 {
        if let Some(g) = it.next() {
            s.fail(format!("iterator over {} yields {:?} after the end", hex(v), g));
        }
    }
}
// C27
pub fn check_iter(v: &[u32], s: &mut Sink) {
    let t = to_string(v);
    let all = observe(&t, v.len() + 2);
    s.nontrivial = all.len() > 1;
    let m = v.len() + 2;
    // another pass, an interleaved pass, and a pass over a second copy elsewhere
    let copy = t.clone();
    let pad = format!("\u{1F1E6}{}\u{301}\u{200D}", t);
    let off = '\u{1F1E6}'.len_utf8();
    let sub = &pad[off..off + t.len()];
    let (mut a, mut b, mut c) = (t.break_graphemes(), copy.break_graphemes(), sub.break_graphemes());
    for (i, g) in all.iter().enumerate() {
        s.observed += 3;
        let (x, y, z) = (a.next(), b.next(), c.next());
        if x != Some(g) || y != Some(g) || z != Some(g) {
            s.fail(format!("interleaved iterators over {} disagree at cluster {}: {:?} / {:?} / {:?} instead of {:?}", hex(v), i, x, y, z, g));
            return;
        }
        if i % 7 == 3 {
            // an unrelated, abandoned iterator in between
            let _ = "\u{1F469}\u{200D}\u{1F469}\u{915}\u{94D}".break_graphemes().next();
        }
        if i > 400 {
            break;
        }
    }
    if all.len() <= 400 {
        if a.next().is_some() || b.next().is_some() || c.next().is_some() {
            s.fail(format!("interleaved iterators over {} yield more clusters than a single pass", hex(v)));
        }
    }
    // restarting at any boundary gives the remaining clusters
    let mut pos = 0;
    let step = (all.len() / 5).max(1);
    for (i, g) in all.iter().enumerate() {
        if i % step == 0 {
            s.observed += 1;
            let rest = observe(&t[pos..], m);
            if rest[..] != all[i..] {
                s.fail(format!("segmentation of {} restarted at cluster boundary {} (byte {}) differs", hex(v), i, pos));
                return;
            }
        }
        pos += g.len();
    }
    if all.len() < m {
        let mut it = t.break_graphemes();
        while it.next().is_some() {}
        for _ in 0..3 {
            s.observed += 1;
            if let Some(g) = it.next() {
                s.fail(format!("the iterator over {} yields {:?} after it has ended", hex(v), g));
            }
        }
    }
    // the iterator protocol agrees with stepping
    let n = all.len();
    let mut it = t.break_graphemes();
    let mut left = n;
    loop {
        let (lo, hi) = it.size_hint();
        if lo > left || hi.map_or(false, |h| h < left) {
            s.fail(format!("size_hint ({}, {:?}) of {} with {} clusters left", lo, hi, hex(v), left));
            break;
        }
        if it.next().is_none() || left == 0 || n - left > 30 {
            break;
        }
        left -= 1;
    }
    s.observed += 4;
    let cnt = t.break_graphemes().take(m).count();
    if cnt != n || (n < m && t.break_graphemes().count() != n) {
        s.fail(format!("count() of {} is not {}", hex(v), n));
    }
    if n < m && t.break_graphemes().last() != all.last().copied() {
        s.fail(format!("last() of {} is not the last cluster", hex(v)));
    }
    for k in [0, 1, 2, n / 2, n.saturating_sub(1), n, n + 1] {
        let mut it = t.break_graphemes();
        let x = it.nth(k);
        if x != all.get(k).copied() {
            s.fail(format!("nth({}) of {} is {:?}", k, hex(v), x));
        }
        if k < n && it.next() != all.get(k + 1).copied() {
            s.fail(format!("next() after nth({}) of {} is wrong", k, hex(v)));
        }
    }
    if n < m {
        let f: Vec<&str> = t.break_graphemes().fold(vec![], |mut a, g| { a.push(g); a });
        let mut h = vec![];
        t.break_graphemes().for_each(|g| h.push(g));
        if f != all || h != all {
            s.fail(format!("internal iteration over {} differs from next()", hex(v)));
        }
        protocol(&t, &all, v, s);
        let k = n / 2;
        let mut it = t.break_graphemes();
        let first: Vec<&str> = it.by_ref().take(k).collect();
        let rest: Vec<&str> = it.collect();
        if first[..] != all[..k] || rest[..] != all[k..] {
            s.fail(format!("resuming the iterator over {} after {} clusters differs", hex(v), k));
        }
    }
}

/// Every way of driving the iterator against the same way of driving a plain
/// list of the clusters.
fn protocol(t: &str, all: &[&str], v: &[u32], s: &mut Sink) {
    let n = all.len();
    let w = |g: &&str| g.len();
    macro_rules! same {
        ($name:expr, $i:ident => $e:expr) => {{
            s.observed += 1;
            let mut $i = Drive::Real(t.break_graphemes());
            let a = $e;
            let mut $i = Drive::List(all.iter());
            let b = $e;
            if a != b {
                s.fail(format!("{} over {} differs from the list of its clusters: {:?} instead of {:?}", $name, hex(v), a, b));
            }
        }};
    }
    // how long a prefix is taken by next() before the method is called
    for k in if n > 200 { [n / 3, n - 1] } else { [0, (v.iter().fold(0u32, |a, b| a.wrapping_add(*b)) as usize + n) % (n + 2)] } {
        macro_rules! after {
            ($name:expr, $m:expr) => {{
                s.observed += 1;
                let (mut x, mut y) = (t.break_graphemes(), all.iter().copied());
                for _ in 0..k { x.next(); y.next(); }
                let a = { let it = x; $m(it) };
                let b = { let it = y; $m(it) };
                if a != b {
                    s.fail(format!("{} over {} after {} steps differs from the list of its clusters: {:?} instead of {:?}", $name, hex(v), k, a, b));
                }
            }};
        }
        fn count<'a>(i: impl Iterator<Item = &'a str>) -> usize { i.count() }
        fn last<'a>(i: impl Iterator<Item = &'a str>) -> Option<&'a str> { i.last() }
        fn fold<'a>(i: impl Iterator<Item = &'a str>) -> usize { i.fold(7, |a, g| (a * 31 + g.len()) % 1_000_003) }
        fn cat<'a>(i: impl Iterator<Item = &'a str>) -> String { i.collect() }
        fn step<'a>(i: impl Iterator<Item = &'a str>) -> Vec<&'a str> { i.step_by(3).collect() }
        fn skip<'a>(i: impl Iterator<Item = &'a str>) -> Vec<&'a str> { i.skip(2).collect() }
        fn part<'a>(i: impl Iterator<Item = &'a str>) -> (Vec<&'a str>, Vec<&'a str>) { i.partition(|g| g.len() % 2 == 0) }
        fn max<'a>(i: impl Iterator<Item = &'a str>) -> (Option<&'a str>, usize) { let mut n = 0; (i.inspect(|_| n += 1).max(), n) }
        fn min<'a>(i: impl Iterator<Item = &'a str>) -> Option<&'a str> { i.min_by_key(|g| g.len()) }
        fn red<'a>(i: impl Iterator<Item = &'a str>) -> Option<usize> { i.map(|g| g.len()).reduce(|a, b| (a * 3 + b) % 65_537) }
        fn chain<'a>(i: impl Iterator<Item = &'a str>) -> Vec<&'a str> { i.chain(std::iter::once("#")).collect() }
        fn zip<'a>(i: impl Iterator<Item = &'a str>) -> Vec<(usize, &'a str)> { i.enumerate().collect() }
        fn fuse<'a>(i: impl Iterator<Item = &'a str>) -> usize { let mut f = i.fuse(); let mut n = 0; while f.next().is_some() { n += 1 } n * 10 + f.next().is_some() as usize }
        fn peek<'a>(i: impl Iterator<Item = &'a str>) -> Vec<&'a str> { let mut p = i.peekable(); let mut o = vec![]; while p.peek().is_some() { o.push(p.next().unwrap()) } o }
        after!("count()", count);
        after!("last()", last);
        after!("fold()", fold);
        after!("collect::<String>()", cat);
        after!("step_by(3)", step);
        after!("skip(2)", skip);
        after!("partition()", part);
        after!("max()", max);
        after!("min_by_key()", min);
        after!("reduce()", red);
        after!("chain()", chain);
        after!("enumerate()", zip);
        after!("fuse()", fuse);
        after!("peekable()", peek);
    }
    let odd = |g: &str| g.len() % 2 == 1;
    // these stop early: what is left must be the rest
    same!("find() then collect()", i => (i.find(|g| odd(g)).map(|g| w(&g)), i.collect::<Vec<_>>()));
    same!("position() then collect()", i => (i.position(|g| g.len() > 1), i.collect::<Vec<_>>()));
    same!("all() then next()", i => (i.all(|g| !odd(g)), i.next(), i.next()));
    same!("any() then next()", i => (i.any(|g| g.len() > 2), i.next(), i.next()));
    same!("try_fold() then next()", i => (i.try_fold(0usize, |a, g| if a > 5 { None } else { Some(a + g.len()) }), i.next()));
    same!("nth(1), nth(2), collect()", i => (i.nth(1), i.nth(2), i.collect::<Vec<_>>()));
    same!("take_while() then next()", i => (i.by_ref().take_while(|g| odd(g)).count(), i.next()));
    s.observed += 2;
    if !t.break_graphemes().eq(all.iter().copied()) || t.break_graphemes().cmp(all.iter().copied()) != std::cmp::Ordering::Equal {
        s.fail(format!("the iterator over {} is not equal to the list of its clusters", hex(v)));
    }
}
/// Forwards exactly the methods under test to the real iterator or to the list.
enum Drive<'a, 'b> {
    Real(seshat::unicode::BreakGraphemes<'a>),
    List(std::slice::Iter<'b, &'a str>),
}
impl<'a, 'b> Iterator for Drive<'a, 'b> {
    type Item = &'a str;
    fn next(&mut self) -> Option<&'a str> {
        match self { Drive::Real(i) => i.next(), Drive::List(i) => i.next().copied() }
    }
    fn nth(&mut self, n: usize) -> Option<&'a str> {
        match self { Drive::Real(i) => i.nth(n), Drive::List(i) => i.nth(n).copied() }
    }
    fn all<F: FnMut(&'a str) -> bool>(&mut self, mut f: F) -> bool {
        match self { Drive::Real(i) => i.all(f), Drive::List(i) => i.all(|g| f(*g)) }
    }
    fn any<F: FnMut(&'a str) -> bool>(&mut self, mut f: F) -> bool {
        match self { Drive::Real(i) => i.any(f), Drive::List(i) => i.any(|g| f(*g)) }
    }
    fn find<P: FnMut(&&'a str) -> bool>(&mut self, mut f: P) -> Option<&'a str> {
        match self { Drive::Real(i) => i.find(f), Drive::List(i) => i.find(|g| f(*g)).copied() }
    }
    fn position<P: FnMut(&'a str) -> bool>(&mut self, mut f: P) -> Option<usize> {
        match self { Drive::Real(i) => i.position(f), Drive::List(i) => i.position(|g| f(*g)) }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self { Drive::Real(i) => i.size_hint(), Drive::List(_) => (0, None) }
    }
}

pub struct Gen {
    pub reps: Vec<(Cls, Vec<u32>)>,
}
impl Gen {
    fn rep(&self, k: usize, r: &mut Rng) -> u32 {
        let v = &self.reps[k].1;
        if r.chance(3) { v[0] } else { r.pick(v) }
    }
    pub fn string(&self, r: &mut Rng) -> Vec<u32> {
        if let Some(d) = crate::dict::dict() {
            if r.chance(3) {
                return d.text(r, &mut |r| self.rep(r.below(self.reps.len()), r));
            }
        }
        let len = match r.below(50) {
            0 => 0,
            1..=30 => 1 + r.below(8),
            31..=46 => 6 + r.below(20),
            47 | 48 => 30 + r.below(100),
            _ => 200 + r.below(400),
        };
        let n = self.reps.len();
        // a random sub-alphabet makes long structured runs likely
        let a: Vec<usize> = (0..1 + r.below(5)).map(|_| r.below(n)).collect();
        let mut v = vec![];
        const EMO: [u32; 14] = [0x1F468, 0x200D, 0xFE0F, 0x1F3FB, 0x1F1E6, 0x1F1FA, 0x2764, 0x1F3F4, 0xE0067, 0xE007F, 0x20E3, 0x23, 0xA9, 0x301];
        const IND: [u32; 15] = [0x915, 0x94D, 0x93C, 0x200D, 0x200C, 0x924, 0x9CD, 0x995, 0xD4D, 0xD15, 0x94B, 0x308, 0x1CD0, 0xACD, 0xA95];
        match r.below(7) {
            // text of one script
            6 => {
                let b = crate::p_norm::scalar(r) & !0xF;
                let w = r.pick(&[0x10, 0x20, 0x40, 0x80]);
                for _ in 0..len {
                    let c = (b + r.below(w) as u32).min(0x10FFFF);
                    v.push(if (0xD800..0xE000).contains(&c) { 0x61 } else { c });
                }
            }
            0 => for _ in 0..len { v.push(r.pick(&EMO)) },
            1 => for _ in 0..len { v.push(r.pick(&IND)) },
            2 => for _ in 0..len { v.push(self.rep(r.below(n), r)) },
            3 => for _ in 0..len { v.push(crate::p_norm::scalar(r)) },
            4 => while v.len() < len {
                let c = self.rep(r.pick(&a), r);
                for _ in 0..1 + r.below(5) { v.push(c) }
            },
            _ => for _ in 0..len { v.push(if r.chance(8) { self.rep(r.below(n), r) } else { self.rep(r.pick(&a), r) }) },
        }
        v
    }
}

pub fn strings(run: &Run, r: &RefSeg, depth_full: u32, cost: u64, check: &(dyn Fn(&Case, &mut Sink) + Sync)) {
    let g = Gen { reps: r.reps() };
    let first: Vec<u32> = g.reps.iter().map(|x| x.1[0]).collect();
    let n = first.len() as u64;
    // all class sequences up to the given length
    for l in 0..=depth_full {
        let total = n.pow(l);
        run.phase(&format!("all class sequences of length {}", l), total, 1 + total.min(512) / 2, true, check, |mut i, _, ex| {
            let mut v = vec![];
            for _ in 0..l {
                v.push(first[(i % n) as usize]);
                i /= n;
            }
            ex(Case::Str(v))
        });
    }
    run.phase("sampled longer class sequences", run.scale(3_000_000, 20_000_000) / cost, 512, false, check, |_, rg, ex| {
        let l = depth_full as usize + 1 + rg.below(4);
        ex(Case::Str((0..l).map(|_| g.rep(rg.below(n as usize), rg)).collect()))
    });
    // every scalar value next to every class, and inside look-behind contexts
    let total = N as u64;
    let is_s = |c: u32| (0xD800..0xE000).contains(&c);
    let act: Vec<u32> = (0..N as u32).filter(|c| !is_s(*c) && {
        let k = r.cls[*c as usize];
        k.g != G::XX || k.ep || k.ic != I::None
    }).collect();
    if cost == 1 {
        run.phase("every scalar beside every class", total, 512, true, check, |i, _, ex| {
            let c = i as u32;
            if is_s(c) { return }
            ex(Case::Str(vec![c]));
            for f in &first {
                ex(Case::Str(vec![*f, c]));
                ex(Case::Str(vec![c, *f]));
            }
        });
    } else {
        run.phase("every scalar", total, 2048, true, check, |i, _, ex| {
            if !is_s(i as u32) { ex(Case::Str(vec![i as u32, 0x61])) }
        });
    }
    let ctx: &[&[u32]] = &[
        &[0x915, 0x94D, 0, 0x915], &[0x915, 0, 0x915], &[0x915, 0, 0x94D, 0x915], &[0, 0x94D, 0x915], &[0x915, 0x94D, 0], &[0x1F600, 0, 0x200D, 0x1F600], &[0x1F600, 0x200D, 0],
        &[0, 0x200D, 0x1F600], &[0x1F600, 0x200D, 0, 0x1F600], &[0x1F1E6, 0, 0x1F1E6, 0x1F1E6], &[0x1F1E6, 0x1F1E6, 0], &[0, 0x1F1E6, 0x1F1E6, 0x1F1E6], &[0x1100, 0, 0x11A8], &[0xAC00, 0, 0x11A8], &[0xAC01, 0, 0x1161],
        &[0xD, 0, 0xA], &[0x600, 0, 0x301], &[0x61, 0, 0x301], &[0, 0, 0], &[0x301, 0, 0x903], &[0x1F3FB, 0, 0x200D, 0x1F3FB],
    ];
    run.phase("active characters inside look-behind contexts", act.len() as u64, 64, true, check, |i, _, ex| {
        for t in ctx {
            ex(Case::Str(t.iter().map(|x| if *x == 0 { act[i as usize] } else { *x }).collect()));
        }
    });
    run.phase("any scalar inside look-behind contexts", run.scale(200_000, 1_100_000) / cost, 256, false, check, |_, rg, ex| {
        let c = crate::p_norm::scalar(rg);
        for t in ctx {
            ex(Case::Str(t.iter().map(|x| if *x == 0 { c } else { *x }).collect()));
        }
    });
    run.phase("random strings", run.scale(2_000_000, 20_000_000) / cost, 256, false, check, |_, rg, ex| ex(Case::Str(g.string(rg))));
    // long runs of one class around counter widths, with each possible tail
    let mut lens: Vec<usize> = (1..=40).collect();
    lens.extend([63, 64, 65, 126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 259, 300, 511, 512, 513, 1023, 1024, 1025]);
    let tails: &[&[u32]] = &[&[], &[0x61], &[0x200D, 0x1F600], &[0x94D, 0x915], &[0x915], &[0x1F1E6], &[0x11A8], &[0xA]];
    let heads: &[&[u32]] = &[&[], &[0x1F600], &[0x915], &[0x915, 0x94D], &[0x1F1E6], &[0x600], &[0x1100], &[0xD]];
    run.phase("long runs", (lens.len() * first.len()) as u64, 4, false, check, |i, rg, ex| {
        let l = lens[i as usize / first.len()];
        let k = i as usize % first.len();
        for h in heads {
            if cost > 1 && rg.chance(2) { continue }
            let c = if rg.chance(2) { first[k] } else { g.rep(k, rg) };
            let mut v = h.to_vec();
            v.extend(std::iter::repeat(c).take(l));
            v.extend(rg.pick(tails));
            ex(Case::Str(v));
        }
    });
    // runs of plain text of every length (a block-wise path ends somewhere)
    const FILL: [&[u32]; 6] = [&[0x78], &[0x61, 0x20, 0x2E, 0x30], &[0x3B1, 0xE9], &[0x4E00, 0x6F22], &[0x1F600], &[0xD, 0xA, 0x61]];
    const NEXT: [&[u32]; 14] = [&[0x301], &[0x200D], &[0x903, 0x61], &[0xA], &[0xD, 0xA, 0x61], &[0x301, 0x301, 0x62], &[0x1F3FB], &[0x200D, 0x1F600, 0x61], &[0x1F1E6, 0x1F1E7, 0x1F1E8], &[0x600, 0x61], &[0x915, 0x94D, 0x915], &[0x1100, 0x1161], &[0xFE0F, 0x20E3], &[0x85, 0x301]];
    let quiet: u64 = if cost > 2 { 140 } else { 530 };
    run.phase("runs of plain text with something active inside", quiet * FILL.len() as u64, 8, false, check, |i, rg, ex| {
        let (n, f) = (i as usize / FILL.len(), FILL[i as usize % FILL.len()]);
        for t in NEXT {
            if cost > 1 && rg.chance(2) { continue }
            let mut v: Vec<u32> = (0..n).map(|j| f[j % f.len()]).collect();
            v.extend(t);
            if rg.chance(3) {
                v.extend((0..rg.below(n + 2)).map(|j| f[j % f.len()]));
                v.extend(rg.pick(&NEXT));
            }
            ex(Case::Str(v));
        }
    });
    let big: &[usize] = if run.tier_thorough { &[4095, 4096, 4097, 32767, 32769, 65535, 65536, 65537, 131073, 300000] } else { &[4097, 65535, 65536, 65537] };
    run.phase("very long runs", (big.len() * first.len()) as u64, 1, false, check, |i, rg, ex| {
        let k = i as usize % first.len();
        let l = big[i as usize / first.len()];
        for (c, t) in [(first[k], tails[0]), (g.rep(k, rg), rg.pick(tails))] {
            let mut v = rg.pick(heads).to_vec();
            v.extend(std::iter::repeat(c).take(l));
            v.extend(t);
            ex(Case::Str(v));
        }
    });
    // one cluster without end
    const ENDLESS: [&[u32]; 8] = [&[0x301], &[0x903], &[0x200D], &[0x915, 0x94D], &[0x1F468, 0x200D], &[0x1161], &[0x11A8], &[0x600]];
    const FIRST: [&[u32]; 8] = [&[0x61], &[0x61], &[0x1F600], &[], &[], &[0x1100], &[0xAC00], &[]];
    let ends: &[usize] = if run.tier_thorough { &[180_000, 400_000, 1_100_000, 2_300_000] } else { &[400_000, 1_100_000] };
    run.phase("endless clusters", (8 * ends.len()) as u64, 1, false, check, |i, rg, ex| {
        let k = i as usize % 8;
        let mut v = FIRST[k].to_vec();
        while v.len() < ends[i as usize / 8] { v.extend(ENDLESS[k]) }
        v.extend(rg.pick(tails));
        ex(Case::Str(v));
    });
    const PAD: [u32; 6] = [0, 0x20, 0xA, 0xAD, 0x200B, 0x301];
    run.phase("padded texts", 6 * 24, 2, false, check, |i, rg, ex| {
        let l = match i / 6 { k @ 0..=15 => (1usize << k) + rg.below(3), _ => 1000 + rg.below(9000) };
        let mut v = if rg.chance(3) { vec![] } else { g.string(rg) };
        v.extend(std::iter::repeat(PAD[i as usize % 6]).take(l));
        ex(Case::Str(v.clone()));
        let n = v.len() - l;
        v.rotate_left(n);
        ex(Case::Str(v));
    });
    if let Some(d) = crate::dict::dict() {
        // lengths changed code compares with
        let ns: Vec<usize> = d.nums.iter().filter(|n| **n <= 500_000).map(|n| *n as usize).collect();
        run.phase("runs of lengths of the dictionary", ns.len().min(60) as u64 * first.len() as u64, 1, false, check, |i, rg, ex| {
            let n = if ns.len() <= 60 { ns[i as usize / first.len()] } else { rg.pick(&ns) };
            for c in [first[i as usize % first.len()], d.one(rg, &mut |r| crate::p_norm::scalar(r))] {
                let mut v = rg.pick(heads).to_vec();
                v.extend(std::iter::repeat(c).take(n + rg.below(4)));
                if rg.chance(2) { v.extend(rg.pick(tails)) }
                v.retain(|c| char::from_u32(*c).is_some());
                ex(Case::Str(v));
            }
        });
    }
    run.phase("long mixed texts", run.scale(24, 200), 1, false, check, |i, rg, ex| {
        let mut v = vec![];
        let n = match i { 0 => 600_000, 1..=5 => 66_000 + rg.below(80_000), _ => 9000 };
        while v.len() < n { let s = g.string(rg); v.extend(s) }
        ex(Case::Str(v));
    });
    // a short sequence of classes over and over: one endless conjunct, emoji
    // sequence, row of flags, syllable, or many equal clusters
    run.phase("periodic texts", run.scale(3_000, 30_000) / cost, 4, false, check, |i, rg, ex| {
        let n = match i % 200 { 0 => 66_000 + rg.below(70_000), 1..=9 => 1000 + rg.below(4000), _ => 20 + rg.below(300) };
        const P: [&[u32]; 10] = [&[0x1F468, 0x200D], &[0x1F468, 0xFE0F, 0x200D], &[0x915, 0x94D], &[0x915, 0x94D, 0x200D], &[0x1F1E6], &[0x1100, 0x1161, 0x11A8], &[0xD, 0xA], &[0x600, 0x1F1E6, 0x1F1E7], &[0x1F469, 0x1F3FB, 0x200D, 0x2764, 0xFE0F, 0x200D], &[0x915, 0x93C, 0x94D]];
        let unit: Vec<u32> = if rg.chance(3) { rg.pick(&P).to_vec() } else { (0..1 + rg.below(5)).map(|_| g.rep(rg.below(first.len()), rg)).collect() };
        let mut v = rg.pick(heads).to_vec();
        while v.len() < n { v.extend(&unit) }
        v.extend(rg.pick(tails));
        ex(Case::Str(v));
    });
}
pub fn run_uax29(run: &Run) {
    let r = RefSeg::new();
    strings(run, &r, if run.tier_thorough { 6 } else { 5 }, 1, &|c, s| if let Case::Str(v) = c { check_uax29(&r, v, s) });
}
pub fn run_partition(run: &Run) {
    let r = RefSeg::new();
    strings(run, &r, if run.tier_thorough { 6 } else { 5 }, 2, &|c, s| if let Case::Str(v) = c { check_partition(v, s) });
}
pub fn run_iter(run: &Run) {
    let r = RefSeg::new();
    strings(run, &r, if run.tier_thorough { 5 } else { 4 }, 4, &|c, s| if let Case::Str(v) = c { check_iter(v, s) });
}
