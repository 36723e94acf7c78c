//! Monitoring core: workers run cases against the real crate, every case is
//! first published in a crash slot (a shared memory-mapped file that survives
//! abort, stack overflow and kill), an oracle judges the observation, and a
//! watchdog ends the process when one case burns more CPU than its budget.
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, PartialEq)]
pub enum Case {
    Cp(u32),
    Str(Vec<u32>),
    Text(String),
}
impl Case {
    pub fn text(&self) -> String {
        match self {
            Case::Cp(c) => format!("cp {:04X}", c),
            Case::Str(s) => {
                let mut t = String::from("str");
                let mut i = 0;
                while i < s.len() {
                    let mut j = i;
                    while j < s.len() && s[j] == s[i] {
                        j += 1;
                    }
                    if j - i >= 4 {
                        t.push_str(&format!(" {:04X}*{}", s[i], j - i));
                    } else {
                        for _ in i..j {
                            t.push_str(&format!(" {:04X}", s[i]));
                        }
                    }
                    i = j;
                }
                t
            }
            Case::Text(t) => format!("text {}", t),
        }
    }
    pub fn parse(l: &str) -> Option<Case> {
        let (k, r) = l.trim_end_matches('\n').split_once(' ').unwrap_or((l.trim_end(), ""));
        match k {
            "cp" => Some(Case::Cp(u32::from_str_radix(r.trim(), 16).ok()?)),
            "str" => {
                let mut v = vec![];
                for w in r.split_whitespace() {
                    let (c, n) = w.split_once('*').unwrap_or((w, "1"));
                    let c = u32::from_str_radix(c, 16).ok()?;
                    for _ in 0..n.parse::<usize>().ok()? {
                        v.push(c);
                    }
                }
                Some(Case::Str(v))
            }
            "text" => Some(Case::Text(r.to_string())),
            _ => None,
        }
    }
    fn hash(&self) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        let mut put = |x: u64| {
            h = (h ^ x).wrapping_mul(0x9E3779B97F4A7C15);
            h ^= h >> 29;
        };
        match self {
            Case::Cp(c) => put(*c as u64),
            Case::Str(s) => {
                put(1 << 40);
                for c in s {
                    put(*c as u64 + 1)
                }
            }
            Case::Text(t) => {
                put(2 << 40);
                for b in t.bytes() {
                    put(b as u64 + 1)
                }
            }
        }
        h
    }
}
pub fn to_string(s: &[u32]) -> String {
    s.iter().map(|c| char::from_u32(*c).expect("scalar")).collect()
}
pub fn to_u32(s: &str) -> Vec<u32> {
    s.chars().map(|c| c as u32).collect()
}
pub fn hex(s: &[u32]) -> String {
    let v: Vec<String> = s.iter().take(40).map(|c| format!("{:04X}", c)).collect();
    format!("<{}{}>", v.join(" "), if s.len() > 40 { format!(" ... {} code points", s.len()) } else { String::new() })
}

// ------------------------------------------------------------------ random
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, stream: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ stream.wrapping_mul(0xD1B54A32D192ED03) ^ 0x1234567);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())]
    }
    pub fn chance(&mut self, one_in: usize) -> bool {
        self.below(one_in) == 0
    }
}

// ------------------------------------------------------------------ slots
const SLOT_WORDS: usize = 1 << 20; // 4 MB (sparse) per worker
pub const SLOTS: usize = 64;
static SLOT_BASE: AtomicUsize = AtomicUsize::new(0);
#[cfg(not(miri))]
mod sys {
    extern "C" {
        pub fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
        pub fn pthread_self() -> usize;
        pub fn pthread_getcpuclockid(t: usize, c: *mut i32) -> i32;
        pub fn clock_gettime(c: i32, t: *mut [i64; 2]) -> i32;
        pub fn _exit(c: i32) -> !;
    }
    pub fn cpu(clock: i32) -> f64 {
        let mut t = [0i64; 2];
        if unsafe { clock_gettime(clock, &mut t) } != 0 {
            return 0.0;
        }
        t[0] as f64 + t[1] as f64 * 1e-9
    }
}
#[cfg(not(miri))]
pub fn open_slots(path: &str) {
    use std::os::unix::io::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).unwrap();
    let len = SLOTS * SLOT_WORDS * 4;
    f.set_len(len as u64).unwrap();
    let p = unsafe { sys::mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1);
    SLOT_BASE.store(p as usize, SeqCst);
}
/// Slot layout: [kind, len, data...]; kind 0 idle, 1 cp, 2 str, 3 text
pub fn read_slots(path: &str) -> Vec<(usize, Case)> {
    let mut out = vec![];
    let Ok(mut f) = std::fs::File::open(path) else { return out };
    use std::io::{Read, Seek, SeekFrom};
    for s in 0..SLOTS {
        let mut h = [0u8; 8];
        if f.seek(SeekFrom::Start((s * SLOT_WORDS * 4) as u64)).is_err() || f.read_exact(&mut h).is_err() {
            break;
        }
        let (k, n) = (u32::from_le_bytes([h[0], h[1], h[2], h[3]]), u32::from_le_bytes([h[4], h[5], h[6], h[7]]) as usize);
        if k == 0 || n > SLOT_WORDS - 2 {
            continue;
        }
        let mut b = vec![0u8; n * 4];
        if f.read_exact(&mut b).is_err() {
            continue;
        }
        let w: Vec<u32> = b.chunks(4).map(|x| u32::from_le_bytes([x[0], x[1], x[2], x[3]])).collect();
        out.push((
            s,
            match k {
                1 => Case::Cp(w[0]),
                2 => Case::Str(w),
                _ => Case::Text(w.iter().map(|c| char::from_u32(*c).unwrap_or('?')).collect()),
            },
        ));
    }
    out
}
fn slot_write(slot: usize, c: Option<&Case>) {
    let base = SLOT_BASE.load(Relaxed);
    if base == 0 {
        return;
    }
    let p = (base + slot * SLOT_WORDS * 4) as *mut u32;
    let put = |i: usize, v: u32| unsafe { std::ptr::write_volatile(p.add(i), v) };
    put(0, 0);
    match c {
        None => {}
        Some(Case::Cp(c)) => {
            put(1, 1);
            put(2, *c);
            put(0, 1);
        }
        Some(Case::Str(s)) => {
            let n = s.len().min(SLOT_WORDS - 2);
            put(1, n as u32);
            unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), p.add(2), n) };
            put(0, 2);
        }
        Some(Case::Text(t)) => {
            let mut n = 0;
            for ch in t.chars().take(SLOT_WORDS - 2) {
                put(2 + n, ch as u32);
                n += 1;
            }
            put(1, n as u32);
            put(0, 3);
        }
    }
}

// ------------------------------------------------------------------ sink
#[derive(Clone)]
pub struct Viol {
    pub case: Case,
    pub what: String,
    pub history: Vec<String>,
}
pub struct Sink {
    pub fails: Vec<String>,
    pub nontrivial: bool,
    pub tags: Vec<&'static str>,
    pub observed: u64,
}
impl Sink {
    pub fn new() -> Sink {
        Sink { fails: vec![], nontrivial: false, tags: vec![], observed: 0 }
    }
    #[inline]
    pub fn obs(&mut self, n: u64) {
        self.observed += n;
    }
    pub fn fail(&mut self, s: String) {
        if self.fails.len() < 4 {
            self.fails.push(s);
        }
    }
}

pub struct Run {
    pub tier_thorough: bool,
    pub seed: u64,
    pub threads: usize,
    pub deadline: Instant,
    pub start: Instant,
    pub truncated: AtomicBool,
    pub viols: Mutex<Vec<Viol>>,
    pub stop: AtomicBool,
    pub evals: AtomicU64,
    pub observations: AtomicU64,
    pub distinct: Mutex<HashSet<u64>>,
    pub extra_distinct: AtomicU64,
    pub tags: Mutex<BTreeMap<String, u64>>,
    pub samples: Mutex<Vec<(String, String)>>,
    pub phases: Mutex<Vec<(String, u64, f64)>>,
    pub max_viols: usize,
    /// seconds one phase may take; what it runs is then spread over its units
    pub slice: Option<f64>,
    beats: Vec<AtomicU64>,
    clocks: Vec<AtomicU64>,
    budget: Vec<AtomicU64>,
}
impl Run {
    pub fn new(thorough: bool, seed: u64, threads: usize, secs: u64) -> Run {
        let now = Instant::now();
        Run {
            tier_thorough: thorough,
            seed,
            threads,
            deadline: now + std::time::Duration::from_secs(secs),
            start: now,
            truncated: AtomicBool::new(false),
            viols: Mutex::new(vec![]),
            stop: AtomicBool::new(false),
            evals: AtomicU64::new(0),
            observations: AtomicU64::new(0),
            distinct: Mutex::new(HashSet::new()),
            extra_distinct: AtomicU64::new(0),
            tags: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(vec![]),
            phases: Mutex::new(vec![]),
            max_viols: 12,
            slice: None,
            beats: (0..SLOTS).map(|_| AtomicU64::new(0)).collect(),
            clocks: (0..SLOTS).map(|_| AtomicU64::new(u64::MAX)).collect(),
            budget: (0..SLOTS).map(|_| AtomicU64::new(0)).collect(),
        }
    }
    pub fn scale(&self, quick: u64, thorough: u64) -> u64 {
        if self.tier_thorough { thorough } else { quick }
    }
    /// Ends the process (code 70) when a single case has used more CPU time
    /// than its budget; the case is then in its slot.
    #[cfg(not(miri))]
    pub fn watchdog(run: &'static Run) {
        std::thread::spawn(move || {
            let mut seen = vec![(0u64, 0f64); SLOTS];
            loop {
                std::thread::sleep(std::time::Duration::from_millis(500));
                for i in 0..SLOTS {
                    let ck = run.clocks[i].load(SeqCst);
                    if ck == u64::MAX {
                        continue;
                    }
                    let b = run.beats[i].load(SeqCst);
                    let t = sys::cpu(ck as i32);
                    if run.clocks[i].load(SeqCst) == u64::MAX || b == 0 {
                        continue;
                    }
                    if seen[i].0 != b {
                        seen[i] = (b, t);
                    } else if t - seen[i].1 > run.budget[i].load(SeqCst) as f64 {
                        eprintln!("vmon: watchdog: worker {} used {:.0} CPU s on one case", i, t - seen[i].1);
                        unsafe { sys::_exit(70) }
                    }
                }
            }
        });
    }
    #[cfg(miri)]
    pub fn watchdog(_: &'static Run) {}

    pub fn done(&self) -> bool {
        if self.stop.load(Relaxed) {
            return true;
        }
        if Instant::now() > self.deadline {
            self.truncated.store(true, SeqCst);
            return true;
        }
        false
    }

    /// Runs `n` work units over the workers; `gen(unit, rng, exec)` makes the
    /// unit's cases and hands each to `exec`.
    pub fn phase<G>(&self, name: &str, n: u64, chunk: u64, distinct_by_construction: bool, check: &(dyn Fn(&Case, &mut Sink) + Sync), gen: G)
    where
        G: Fn(u64, &mut Rng, &mut dyn FnMut(Case)) + Sync,
    {
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let before = self.evals.load(SeqCst);
        let chunks = (n + chunk - 1) / chunk;
        let step = if self.slice.is_some() { [2_654_435_761u64, 2_246_822_519, 1].into_iter().find(|p| *p == 1 || gcd(*p, chunks.max(1)) == 1).unwrap() } else { 1 };
        let pid = name.bytes().fold(7u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64));
        std::thread::scope(|sc| {
            for t in 0..self.threads {
                let (next, gen) = (&next, &gen);
                std::thread::Builder::new()
                    .stack_size(2 << 20) // what a Rust thread has by default
                    .spawn_scoped(sc, move || {
                        let mut w = Worker::new(self, t, distinct_by_construction, name);
                        loop {
                            let k = next.fetch_add(1, SeqCst);
                            if k >= chunks || self.done() {
                                break;
                            }
                            if self.slice.map_or(false, |s| t0.elapsed().as_secs_f64() > s) {
                                self.truncated.store(true, SeqCst);
                                break;
                            }
                            let a = (k as u128 * step as u128 % chunks as u128) as u64 * chunk;
                            let mut rng = Rng::new(self.seed, pid ^ a.wrapping_mul(0x5851F42D4C957F2D));
                            for i in a..(a + chunk).min(n) {
                                gen(i, &mut rng, &mut |c| w.exec(check, c));
                                if self.stop.load(Relaxed) {
                                    break;
                                }
                            }
                        }
                        w.finish();
                    })
                    .unwrap();
            }
        });
        let n = self.evals.load(SeqCst) - before;
        self.phases.lock().unwrap().push((name.to_string(), n, t0.elapsed().as_secs_f64()));
    }
    /// Records an observation made outside `phase`.
    pub fn note(&self, evals: u64, distinct: u64, observations: u64) {
        self.evals.fetch_add(evals, SeqCst);
        self.extra_distinct.fetch_add(distinct, SeqCst);
        self.observations.fetch_add(observations, SeqCst);
    }
    pub fn sample(&self, phase: &str, s: String) {
        self.samples.lock().unwrap().push((phase.to_string(), s));
    }
    pub fn add_viol(&self, v: Viol) {
        let mut g = self.viols.lock().unwrap();
        g.push(v);
        if g.len() >= self.max_viols {
            self.stop.store(true, SeqCst);
        }
    }
}

fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 { a } else { gcd(b, a % b) }
}

pub struct Worker<'a> {
    run: &'a Run,
    id: usize,
    by_construction: bool,
    evals: u64,
    nontrivial: u64,
    obs: u64,
    set: HashSet<u64>,
    tags: BTreeMap<&'static str, u64>,
    recent: VecDeque<Case>,
    samples: Vec<String>,
    phase: String,
    local_viols: usize,
}
impl<'a> Worker<'a> {
    pub fn new(run: &'a Run, id: usize, by_construction: bool, phase: &str) -> Worker<'a> {
        #[cfg(not(miri))]
        unsafe {
            let mut c = 0i32;
            if sys::pthread_getcpuclockid(sys::pthread_self(), &mut c) == 0 {
                run.beats[id].store(0, SeqCst);
                run.clocks[id].store(c as u32 as u64, SeqCst);
            }
        }
        Worker {
            run,
            id,
            by_construction,
            evals: 0,
            nontrivial: 0,
            obs: 0,
            set: HashSet::new(),
            tags: BTreeMap::new(),
            recent: VecDeque::new(),
            samples: vec![],
            phase: phase.to_string(),
            local_viols: 0,
        }
    }
    pub fn exec(&mut self, check: &(dyn Fn(&Case, &mut Sink) + Sync), c: Case) {
        if self.run.stop.load(Relaxed) {
            return;
        }
        let long = matches!(&c, Case::Str(s) if s.len() > 3000);
        self.run.budget[self.id].store(if long { 240 } else { 40 }, Relaxed);
        slot_write(self.id, Some(&c));
        self.run.beats[self.id].fetch_add(1, SeqCst);
        let mut s = Sink::new();
        let r = catch_unwind(AssertUnwindSafe(|| check(&c, &mut s)));
        self.run.beats[self.id].fetch_add(1, SeqCst);
        slot_write(self.id, None);
        self.evals += 1;
        self.obs += s.observed;
        for t in &s.tags {
            *self.tags.entry(t).or_insert(0) += 1;
        }
        if let Err(e) = r {
            s.fails.push(format!("panicked: {}", panic_msg(&e)));
        }
        if s.nontrivial {
            self.nontrivial += 1;
            if !self.by_construction {
                self.set.insert(c.hash());
            }
            if self.samples.len() < 2 && (self.nontrivial == 1 || self.nontrivial == 977) {
                self.samples.push(c.text());
            }
        }
        for f in s.fails {
            self.local_viols += 1;
            if self.local_viols <= 4 {
                let h = self.recent.iter().map(|c| c.text()).collect();
                self.run.add_viol(Viol { case: c.clone(), what: f, history: h });
            } else {
                self.run.stop.store(true, SeqCst);
            }
        }
        if !long {
            if self.recent.len() >= 6 {
                self.recent.pop_front();
            }
            self.recent.push_back(c);
        }
    }
    pub fn finish(self) {
        let r = self.run;
        r.clocks[self.id].store(u64::MAX, SeqCst);
        r.evals.fetch_add(self.evals, SeqCst);
        r.observations.fetch_add(self.obs, SeqCst);
        if self.by_construction {
            r.extra_distinct.fetch_add(self.nontrivial, SeqCst);
        } else {
            r.distinct.lock().unwrap().extend(self.set);
        }
        let mut t = r.tags.lock().unwrap();
        for (k, v) in self.tags {
            *t.entry(k.to_string()).or_insert(0) += v;
        }
        let mut s = r.samples.lock().unwrap();
        for x in self.samples {
            if s.len() < 24 && s.iter().filter(|(p, _)| *p == self.phase).count() < 2 {
                s.push((self.phase.clone(), x));
            }
        }
    }
}

pub fn panic_msg(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "non-string panic".into()
    }
}

// ------------------------------------------------------------------ report
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || c as u32 > 126 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn report(run: &Run, prop: &str, rule: &str, exhaustive: &str) -> String {
    let v = run.viols.lock().unwrap();
    let mut o = String::from("{");
    o.push_str(&format!("\"property\":{},\"seed\":{},", js(prop), run.seed));
    o.push_str(&format!("\"evaluations\":{},\"observations\":{},", run.evals.load(SeqCst), run.observations.load(SeqCst)));
    o.push_str(&format!("\"distinct_nontrivial\":{},", run.extra_distinct.load(SeqCst) + run.distinct.lock().unwrap().len() as u64));
    o.push_str(&format!("\"truncated\":{},\"rule\":{},\"exhaustive_over\":{},", run.truncated.load(SeqCst), js(rule), js(exhaustive)));
    let t: Vec<String> = run.tags.lock().unwrap().iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    o.push_str(&format!("\"tags\":{{{}}},", t.join(",")));
    let p: Vec<String> = run.phases.lock().unwrap().iter().map(|(n, e, s)| format!("{{\"phase\":{},\"evaluations\":{},\"seconds\":{:.2}}}", js(n), e, s)).collect();
    o.push_str(&format!("\"phases\":[{}],", p.join(",")));
    let s: Vec<String> = run.samples.lock().unwrap().iter().map(|(p, c)| {
        let c: String = if c.len() > 300 { format!("{} ... ({} bytes)", &c[..280], c.len()) } else { c.clone() };
        format!("{{\"phase\":{},\"case\":{}}}", js(p), js(&c))
    }).collect();
    o.push_str(&format!("\"samples\":[{}],", s.join(",")));
    let w: Vec<String> = v.iter().map(|v| {
        let h: Vec<String> = v.history.iter().map(|x| js(x)).collect();
        format!("{{\"case\":{},\"what\":{},\"history\":[{}]}}", js(&v.case.text()), js(&v.what), h.join(","))
    }).collect();
    o.push_str(&format!("\"violations\":[{}]}}\n", w.join(",\n")));
    o
}
