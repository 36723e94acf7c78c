mod api;
mod core;
mod oracle;
mod dict;
mod p_cp;
mod p_det;
mod p_mem;
mod p_misc;
mod p_norm;
mod p_safe;
mod p_seg;
mod p_stack;
mod p_work;
mod refnorm;
mod refseg;
mod variants;
use crate::core::*;

pub struct Spec {
    pub id: &'static str,
    pub rule: &'static str,
    pub exhaustive: &'static str,
    pub run: fn(&Run),
    pub replay: fn() -> Box<dyn Fn(&Case, &mut Sink) + Sync>,
}
const CPS: &str = "all 1,114,112 code points, through CodePoint and (for scalar values) char";
fn tables(e: &'static [&'static str], b: &'static [&'static str]) -> Box<dyn Fn(&Case, &mut Sink) + Sync> {
    let t = p_cp::Tables::new(e, b);
    Box::new(move |c, s| if let Case::Cp(c) = c { t.check(*c, s) })
}
const R_CP: &str = "one case = one code point queried through both public views; every code point in ascending, descending and scattered order, then bit-flip neighbours, aliases modulo 2^k and queries after unrelated API calls; non-trivial = the pinned value is not the property's most common value";
const R_NORM: &str = "one case = one string: every scalar alone and in contexts, first x second pairs, triples, all L x V x T, permuted marks, long runs, random strings; non-trivial = some form differs from the input (or an equivalent spelling exists)";
const R_SEG: &str = "one case = one string: all sequences over one representative of each (GCB, InCB, ExtPict) class up to a length, every scalar beside every class, look-behind contexts, random and very long strings; non-trivial = at least one cluster of two or more code points (C25, C27: non-empty / more than one cluster)";
macro_rules! cp_spec {
    ($id:expr, $e:expr, $b:expr) => {
        Spec { id: $id, rule: R_CP, exhaustive: CPS, run: |r| p_cp::run_tables(r, $e, $b), replay: || tables($e, $b) }
    };
}
const PROPLIST: &[&str] = &["wspace","bidi_c","join_c","dash","hyphen","qmark","term","omath","hex","ahex","oalpha","ideo","dia","ext","olower","oupper","nchar","ogr_ext","idsb","idst","radical","uideo","odi","dep","sd","loe","oids","oidc","sterm","vs","pat_ws","pat_syn","pcm","ri"];
const DERIVED: &[&str] = &["math","alpha","lower","upper","cased","ci","di","gr_ext","ids","idc","xids","xidc"];
const EMOJI: &[&str] = &["emoji","epres","emod","ebase","ecomp","ext_pict"];
const COMP: &[&str] = &["ce", "comp_ex"];
const GENERATED: &[&str] = &["wspace","bidi_c","join_c","dash","hyphen","qmark","term","omath","hex","ahex","oalpha","ideo","dia","ext","olower","oupper","nchar","ogr_ext","idsb","idst","radical","uideo","odi","dep","sd","loe","oids","oidc","sterm","vs","pat_ws","pat_syn","pcm","ri","emoji","epres","emod","ebase","ecomp","ext_pict","ce"];
fn specs() -> Vec<Spec> {
    use refnorm::Form::*;
    vec![
        Spec { id: "C01", rule: "one case = one code point (all API entries of both views, and three strings around it) or one string (four normal forms and segmentation); non-trivial = all", exhaustive: CPS, run: p_misc::run_total, replay: || Box::new(p_misc::check_total) },
        cp_spec!("C02", &["gc"], &[]),
        cp_spec!("C03", &["bc"], &[]),
        Spec { id: "C04", rule: R_CP, exhaustive: CPS,
            run: |r| { let t = p_cp::Tables::new(&["ccc"], &[]); p_cp::orders(r, &|c, s| if let Case::Cp(c) = c { p_cp::check_ccc(&t, *c, s) }, false) },
            replay: || { let t = p_cp::Tables::new(&["ccc"], &[]); Box::new(move |c, s| if let Case::Cp(c) = c { p_cp::check_ccc(&t, *c, s) }) } },
        Spec { id: "C05", rule: R_CP, exhaustive: CPS,
            run: |r| { let t = p_cp::Decomp::new(); p_cp::orders(r, &|c, s| if let Case::Cp(c) = c { t.check(*c, s) }, false) },
            replay: || { let t = p_cp::Decomp::new(); Box::new(move |c, s| if let Case::Cp(c) = c { t.check(*c, s) }) } },
        cp_spec!("C06", &["sc"], &[]),
        cp_spec!("C07", &["blk"], &[]),
        cp_spec!("C08", &["age"], &[]),
        cp_spec!("C09", &["gcb", "wb", "hst"], &[]),
        cp_spec!("C10", &["insc", "incb"], &[]),
        cp_spec!("C11", &[], PROPLIST),
        cp_spec!("C12", &[], DERIVED),
        cp_spec!("C13", &[], EMOJI),
        cp_spec!("C14", &[], COMP),
        Spec { id: "C15", rule: R_CP, exhaustive: CPS,
            run: |r| { let t = oracle::Names::load(); p_cp::orders(r, &|c, s| if let Case::Cp(c) = c { p_cp::check_na(&t, *c, s) }, false) },
            replay: || { let t = oracle::Names::load(); Box::new(move |c, s| if let Case::Cp(c) = c { p_cp::check_na(&t, *c, s) }) } },
        Spec { id: "C16", rule: "one case = one code point of U+1100..U+D7FF or one jamo/syllable string, against the arithmetic of Unicode chapter 3.12; non-trivial = the string changes under some form, or any code point case", exhaustive: "all 11,172 syllables, all L x V x T with out-of-range neighbours, all jamo pairs", run: p_norm::run_hangul,
            replay: || { let t = oracle::Names::load(); Box::new(move |c, s| p_norm::check_hangul(&t, c, s)) } },
        Spec { id: "C17", rule: "one case = one value of one enumerated or binary property (names and equality against every other value), or the twelve value names reached from one code point; non-trivial = all but the two binary values", exhaustive: "every value of every property enum", run: p_misc::run_names, replay: || Box::new(p_misc::check_name) },
        Spec { id: "C18", rule: "one case = one code point, all 67 properties asked of char and of CodePoint; non-trivial = scalar values", exhaustive: "all scalar values", run: |r| p_cp::orders(r, &|c, s| if let Case::Cp(c) = c { p_cp::check_agree(*c, s) }, true),
            replay: || Box::new(|c, s| if let Case::Cp(c) = c { p_cp::check_agree(*c, s) }) },
        Spec { id: "C19", rule: "one case = one u32 (or block of 2^20) given to the constructor, or one pair of versions; non-trivial = versions that differ, all constructor cases", exhaustive: "all 2^32 constructor arguments (acceptance), all code points (value, display)", run: p_misc::run_basics, replay: || Box::new(p_misc::check_basics) },
        Spec { id: "C20", rule: "one case = one table (block size, blocks, stage-1 entries, seed), probed with u8..usize indices and three element types against flat lookup; non-trivial = more than one block", exhaustive: "", run: p_misc::run_table, replay: || Box::new(p_misc::check_table) },
        Spec { id: "C21", rule: R_NORM, exhaustive: "all scalar values alone; all L x V x T", run: |r| p_norm::run_forms(r, &[Nfd, Nfkd]), replay: || { let n = refnorm::RefNorm::new(); Box::new(move |c, s| if let Case::Str(v) = c { p_norm::check_forms(&n, &[Nfd, Nfkd], v, s) }) } },
        Spec { id: "C22", rule: R_NORM, exhaustive: "all scalar values alone; all first x second pairs; all L x V x T", run: |r| p_norm::run_forms(r, &[Nfc, Nfkc]), replay: || { let n = refnorm::RefNorm::new(); Box::new(move |c, s| if let Case::Str(v) = c { p_norm::check_forms(&n, &[Nfc, Nfkc], v, s) }) } },
        Spec { id: "C23", rule: R_NORM, exhaustive: "", run: p_norm::run_algebra, replay: || { let n = p_norm::Equiv::new(); Box::new(move |c, s| if let Case::Str(v) = c { n.check(v, s) }) } },
        Spec { id: "C24", rule: R_NORM, exhaustive: "", run: p_norm::run_local, replay: || { let n = p_norm::Local::new(); Box::new(move |c, s| if let Case::Str(v) = c { n.check(v, s) }) } },
        Spec { id: "C25", rule: R_SEG, exhaustive: "all class sequences up to the tier's length", run: p_seg::run_partition, replay: || Box::new(|c, s| if let Case::Str(v) = c { p_seg::check_partition(v, s) }) },
        Spec { id: "C26", rule: R_SEG, exhaustive: "all class sequences up to the tier's length; every scalar beside every class", run: p_seg::run_uax29, replay: || { let r = refseg::RefSeg::new(); Box::new(move |c, s| if let Case::Str(v) = c { p_seg::check_uax29(&r, v, s) }) } },
        Spec { id: "C27", rule: R_SEG, exhaustive: "all class sequences up to the tier's length", run: p_seg::run_iter, replay: || Box::new(|c, s| if let Case::Str(v) = c { p_seg::check_iter(v, s) }) },
        Spec { id: "C28", rule: "one case = one string; non-trivial = it is an identifier (XID_Start XID_Continue*, by the crate's answers) that some normal form changes", exhaustive: "all one-character identifiers, all continuations of 'a'", run: p_norm::run_xid, replay: || Box::new(|c, s| if let Case::Str(v) = c { p_norm::check_xid(v, s) }) },
        Spec { id: "C29", rule: "one case = one probe (property, normalisation or segmentation query) whose answer is compared with the answer the same probe had in a quiet single-threaded run; non-trivial = all distinct probes", exhaustive: "", run: p_det::run_det, replay: || Box::new(p_det::check_det) },
        Spec { id: "C30", rule: "one case = one code point (every API entry of both views) or one string (four forms and segmentation) or one table; every returned text, slice, bool and enum value is checked for being well formed and inside its buffer; non-trivial = all", exhaustive: CPS, run: p_safe::run_safe, replay: || Box::new(p_safe::check_safe) },
        Spec { id: "C31", rule: "one case = one code point queried in a crate whose tables were regenerated from a data set (the committed Unicode data, or a synthetic one), against the data set; non-trivial = some property differs from its most common value", exhaustive: "all 1,114,112 code points of every data set", run: |r| p_cp::run_generated(r, GENERATED), replay: || { let g = p_cp::Generated::new(GENERATED); Box::new(move |c, s| if let Case::Cp(c) = c { g.check(*c, s) }) } },
        Spec { id: "C37", rule: "one case = one code point (nine kinds of query) or one text (four forms, whole and abandoned segmentation), each called four times with live memory counted by the instrumented allocator, or one long life of ever new texts; non-trivial = all", exhaustive: CPS, run: p_mem::run_mem, replay: || Box::new(p_mem::check_mem) },
        Spec { id: "C41", rule: "one case = one code point (all kinds of query), one text (four forms, segmentation) or one kind of text at lengths 30 to 30,000 (300,000) units, called on a painted stack; non-trivial = all", exhaustive: CPS, run: p_stack::run_stack, replay: || Box::new(p_stack::check_stack) },
        Spec { id: "C36", rule: "one case = one code point judged by 127 relations that hold between its properties in Unicode 15.1.0, using the crate's answers only; non-trivial = assigned code points", exhaustive: CPS, run: |r| p_cp::orders(r, &|c, s| if let Case::Cp(c) = c { p_cp::check_relations(*c, s) }, true), replay: || Box::new(|c, s| if let Case::Cp(c) = c { p_cp::check_relations(*c, s) }) },
    ]
}

#[global_allocator]
static ALLOC: p_mem::Counting = p_mem::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str, d: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or_else(|| d.to_string());
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    if std::env::var("VMON_LOUD").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let seed: u64 = opt("--seed", "1").parse().unwrap();
    let thorough = opt("--tier", "quick") == "thorough";
    let threads: usize = opt("--threads", "8").parse().unwrap();
    let secs: u64 = opt("--secs", if thorough { "2400" } else { "400" }).parse().unwrap();
    match cmd {
        "run" => {
            let id = &a[2];
            let sp = specs().into_iter().find(|s| s.id == id).expect("unknown property");
            let mut run = Run::new(thorough, seed, threads, secs);
            run.slice = Some(opt("--slice", "0").parse().unwrap()).filter(|s| *s > 0.0);
            let run: &'static Run = Box::leak(Box::new(run));
            #[cfg(not(miri))]
            open_slots(&opt("--slots", "/dev/null.slots"));
            Run::watchdog(run);
            (sp.run)(run);
            let out = report(run, sp.id, sp.rule, sp.exhaustive);
            std::fs::write(opt("--out", "/dev/stdout"), &out).unwrap();
            let n = run.viols.lock().unwrap().len();
            std::process::exit(if n > 0 { 1 } else { 0 });
        }
        // judge the cases listed in a file (one per line); exit 1 if any fails
        "replay" => {
            let id = &a[2];
            let sp = specs().into_iter().find(|s| s.id == id).expect("unknown property");
            let check = (sp.replay)();
            let mut bad = 0;
            for l in std::fs::read_to_string(&a[3]).unwrap().lines() {
                let Some(c) = Case::parse(l) else { continue };
                let mut s = Sink::new();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check(&c, &mut s)));
                if let Err(e) = r {
                    s.fails.push(format!("panicked: {}", panic_msg(&e)));
                }
                for f in &s.fails {
                    println!("FAIL {} :: {}", c.text(), f);
                    bad += 1;
                }
            }
            std::process::exit(if bad > 0 { 1 } else { 0 });
        }
        "slots" => {
            for (i, c) in read_slots(&a[2]) {
                println!("{}\t{}", i, c.text());
            }
        }
        "list" => {
            for s in specs() {
                println!("{}", s.id);
            }
        }
        // development aid: random strings with the reference's answers, for
        // comparison with an independent implementation (oracle/icu_check.cpp)
        "refdump" => {
            let (n, sg) = (refnorm::RefNorm::new(), refseg::RefSeg::new());
            let g = p_seg::Gen { reps: sg.reps() };
            let p = p_norm::Pools::new(&n);
            let mut r = Rng::new(seed, 4242);
            let hx = |v: &[u32]| v.iter().map(|c| format!("{:X}", c)).collect::<Vec<_>>().join(" ");
            for _ in 0..a[2].parse::<u64>().unwrap() {
                let v = if r.chance(2) { g.string(&mut r) } else { p.string(&mut r) };
                let cl: Vec<String> = sg.clusters(&v).iter().map(|x| x.to_string()).collect();
                println!("{}|{}|{}|{}|{}|{}", hx(&v), hx(&n.norm(&v, refnorm::Form::Nfd)), hx(&n.norm(&v, refnorm::Form::Nfkd)), hx(&n.norm(&v, refnorm::Form::Nfc)), hx(&n.norm(&v, refnorm::Form::Nfkc)), cl.join(" "));
            }
        }
        "safe" => p_safe::safe_main(seed, &a[2..]),
        "work" => p_work::work_main(&a[2..]),
        "ref" => p_det::reference(seed, &a[2..]),
        "twins" => p_det::twins_main(seed, &a[2..]),
        "probe" => p_det::probe_main(seed, &a[2..]),
        _ => {
            eprintln!("usage: vmon run ID|replay ID FILE|slots FILE|list");
            std::process::exit(2);
        }
    }
}
