//! port digest KIND SEED FROM TO STEP | port describe KIND SEED I | port target
use port::*;
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let n = |k: usize| a[k].parse::<u64>().unwrap();
    match a[0].as_str() {
        "target" => println!("TARGET {} bits, {} endian", usize::BITS, if cfg!(target_endian = "big") { "big" } else { "little" }),
        "digest" => {
            std::panic::set_hook(Box::new(|_| {}));
            let (mut i, to, step) = (n(3), n(4), n(5));
            let mut answers = 0;
            while i < to {
                let end = to.min(i + step);
                let mut s = Said::new(false);
                let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (i..end).for_each(|k| say(n(1) as u32, n(2), k, &mut s)))).is_ok();
                answers += s.n;
                println!("{} {}", i, if ok { format!("{:016x}", s.hash) } else { "died".to_string() });
                i = end;
            }
            println!("ANSWERS {}", answers);
        }
        "describe" => {
            println!("{}", question(n(1) as u32, n(2), n(3)));
            let mut s = Said::new(true);
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| say(n(1) as u32, n(2), n(3), &mut s)));
            print!("{}", s.text.unwrap());
        }
        _ => panic!("what?"),
    }
}
