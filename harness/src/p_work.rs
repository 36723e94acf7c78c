//! C34: one operation on a text of N units of one kind, so that an
//! instruction counter outside can see how the work grows with N.
use seshat::unicode::{Normalization, Segmentation};

pub const KINDS: &[&str] = &[
    "ascii", "latin", "greek", "mark1", "mark2", "mark3", "swapped2", "swapped3", "unordered4", "hangul", "hangul-lvt", "jamo", "jamo-lvt", "cjk", "cjk-compat", "kana-half", "fraction",
    "emoji", "emoji-zwj", "emoji-tone", "keycap", "flags", "flag-pairs", "deva", "deva-conjunct", "tamil", "tibetan", "arabic-lig", "math", "crlf", "control", "unassigned", "mixed",
    // one giant cluster: segmentation only
    "giant-marks", "giant-zwj", "giant-extend-zwj", "giant-conjunct", "giant-prepend", "giant-jamo-l", "giant-jamo-v", "giant-jamo-t", "giant-spacing", "pict-extends",
];
pub fn text(kind: &str, n: usize, seed: u64) -> String {
    let mut r = crate::core::Rng::new(seed, 99);
    let mut o = String::new();
    // units given by the caller: "units:61+301,4E00"
    if let Some(list) = kind.strip_prefix("units:") {
        let units: Vec<String> = list.split(',').map(|u| u.split('+').map(|c| char::from_u32(u32::from_str_radix(c, 16).unwrap()).unwrap()).collect()).collect();
        (0..n).for_each(|_| o.push_str(&units[r.below(units.len() as _) as usize]));
        return o;
    }
    let put = |o: &mut String, v: &[u32]| v.iter().for_each(|c| o.push(char::from_u32(*c).unwrap()));
    match kind {
        "giant-marks" => o.push('a'),
        "giant-conjunct" => o.push('\u{915}'),
        "giant-zwj" | "giant-extend-zwj" | "pict-extends" => o.push('\u{1F468}'),
        _ => {}
    }
    for i in 0..n {
        let k = r.next() as u32;
        match kind {
            "ascii" => put(&mut o, &[0x20 + k % 95]),
            "latin" => put(&mut o, &[0xC0 + k % 0x17F]),
            "greek" => put(&mut o, &[[0x1F82, 0x1FA7, 0x390, 0x3B1, 0x1FC7][k as usize % 5]]),
            "mark1" => put(&mut o, &[0x61 + k % 26, [0x301, 0x323, 0x308, 0x327][(k >> 8) as usize % 4]]),
            "mark2" => put(&mut o, &[0x61 + k % 26, 0x323, 0x301]),
            "mark3" => put(&mut o, &[0x61 + k % 26, 0x327, 0x323, 0x302]),
            "swapped2" => put(&mut o, &[0x61 + k % 26, 0x301, 0x323]),
            "swapped3" => put(&mut o, &[0x61 + k % 26, 0x301, 0x323, 0x327]),
            "unordered4" => put(&mut o, &[0x61 + k % 26, 0x345, 0x301, 0x323, 0x327]),
            "hangul" => put(&mut o, &[0xAC00 + 28 * (k % 399)]),
            "hangul-lvt" => put(&mut o, &[0xAC00 + k % 11172]),
            "jamo" => put(&mut o, &[0x1100 + k % 19, 0x1161 + (k >> 8) % 21]),
            "jamo-lvt" => put(&mut o, &[0x1100 + k % 19, 0x1161 + (k >> 8) % 21, 0x11A8 + (k >> 16) % 27]),
            "cjk" => put(&mut o, &[0x4E00 + k % 0x5000]),
            "cjk-compat" => put(&mut o, &[0xF900 + k % 0x100]),
            "kana-half" => put(&mut o, &[0xFF76 + k % 15, 0xFF9E]),
            "fraction" => put(&mut o, &[[0xBD, 0x2473, 0x3392, 0xFB03, 0xFDFA, 0x2047][k as usize % 6]]),
            "emoji" => put(&mut o, &[0x1F600 + k % 0x40]),
            "emoji-zwj" => put(&mut o, &[0x1F468, 0x200D, 0x1F469, 0x200D, 0x1F467]),
            "emoji-tone" => put(&mut o, &[0x1F44B, 0x1F3FB + k % 5]),
            "keycap" => put(&mut o, &[0x30 + k % 10, 0xFE0F, 0x20E3]),
            "flags" => put(&mut o, &[0x1F1E6 + k % 26]),
            "flag-pairs" => put(&mut o, &[0x1F1E6 + k % 26, 0x1F1E6 + (k >> 8) % 26, 0x20]),
            "deva" => put(&mut o, &[0x915 + k % 37, 0x93E + (k >> 8) % 13]),
            "deva-conjunct" => put(&mut o, &[0x915 + k % 37, 0x94D, 0x915 + (k >> 8) % 37, 0x93F]),
            "tamil" => put(&mut o, &[0xB95, 0xBC6, 0xBBE]),
            "tibetan" => put(&mut o, &[0xF40, 0xF71, 0xF72]),
            "arabic-lig" => put(&mut o, &[0xFC00 + k % 0x100]),
            "math" => put(&mut o, &[0x1D400 + k % 0x50]),
            "crlf" => put(&mut o, &[0xD, 0xA]),
            "control" => put(&mut o, &[k % 0x20]),
            "unassigned" => put(&mut o, &[0xE1000 + k % 0x1000]),
            "mixed" => put(&mut o, &[[0x61, 0xE9, 0xAC01, 0x4E2D, 0x1F600, 0x915, 0x20, 0x627, 0x1F1FA, 0xFDFA][(k + i as u32) as usize % 10]]),
            "giant-marks" => put(&mut o, &[0x300 + k % 0x40]),
            "giant-zwj" => put(&mut o, &[0x200D, 0x1F469]),
            "giant-extend-zwj" => put(&mut o, &[0xFE0F, 0x1F3FB, 0x200D, 0x1F469]),
            "giant-conjunct" => put(&mut o, &[0x94D, 0x93C, 0x915]),
            "giant-prepend" => put(&mut o, &[0x600]),
            "giant-jamo-l" => put(&mut o, &[0x1100]),
            "giant-jamo-v" => put(&mut o, &[0x1161]),
            "giant-jamo-t" => put(&mut o, &[0x11A8]),
            "giant-spacing" => put(&mut o, &[0x903]),
            "pict-extends" => put(&mut o, &[0xFE0F]),
            _ => panic!("unknown kind"),
        }
    }
    o
}
/// vmon work OP KIND N SEED
pub fn work_main(a: &[String]) {
    if a[0] == "kinds" {
        println!("{}", KINDS.join(" "));
        return;
    }
    let t = text(&a[1], a[2].parse().unwrap(), a[3].parse().unwrap());
    let out = match a[0].as_str() {
        "nfd" => t.to_nfd().len(),
        "nfkd" => t.to_nfkd().len(),
        "nfc" => t.to_nfc().len(),
        "nfkc" => t.to_nfkc().len(),
        "seg" => t.break_graphemes().count(),
        "all" => t.to_nfd().len() + t.to_nfkc().len() + t.break_graphemes().count(),
        "text" => t.len(),
        _ => panic!("unknown op"),
    };
    println!("WORK chars={} out={}", t.chars().count(), out);
}
