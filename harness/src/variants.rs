// Generated by gen_variants.py from oracle/tables.txt; do not edit.
use seshat::unicode::props::*;

/// (oracle value, variant, abbreviated name, full name)
pub const GC: &[(&str, Gc, &str, &str)] = &[
    ("Cc", Gc::Cc, "Cc", "Control"),
    ("Cf", Gc::Cf, "Cf", "Format"),
    ("Cn", Gc::Cn, "Cn", "Unassigned"),
    ("Co", Gc::Co, "Co", "Private_Use"),
    ("Cs", Gc::Cs, "Cs", "Surrogate"),
    ("Ll", Gc::Ll, "Ll", "Lowercase_Letter"),
    ("Lm", Gc::Lm, "Lm", "Modifier_Letter"),
    ("Lo", Gc::Lo, "Lo", "Other_Letter"),
    ("Lt", Gc::Lt, "Lt", "Titlecase_Letter"),
    ("Lu", Gc::Lu, "Lu", "Uppercase_Letter"),
    ("Mc", Gc::Mc, "Mc", "Spacing_Mark"),
    ("Me", Gc::Me, "Me", "Enclosing_Mark"),
    ("Mn", Gc::Mn, "Mn", "Nonspacing_Mark"),
    ("Nd", Gc::Nd, "Nd", "Decimal_Number"),
    ("Nl", Gc::Nl, "Nl", "Letter_Number"),
    ("No", Gc::No, "No", "Other_Number"),
    ("Pc", Gc::Pc, "Pc", "Connector_Punctuation"),
    ("Pd", Gc::Pd, "Pd", "Dash_Punctuation"),
    ("Pe", Gc::Pe, "Pe", "Close_Punctuation"),
    ("Pf", Gc::Pf, "Pf", "Final_Punctuation"),
    ("Pi", Gc::Pi, "Pi", "Initial_Punctuation"),
    ("Po", Gc::Po, "Po", "Other_Punctuation"),
    ("Ps", Gc::Ps, "Ps", "Open_Punctuation"),
    ("Sc", Gc::Sc, "Sc", "Currency_Symbol"),
    ("Sk", Gc::Sk, "Sk", "Modifier_Symbol"),
    ("Sm", Gc::Sm, "Sm", "Math_Symbol"),
    ("So", Gc::So, "So", "Other_Symbol"),
    ("Zl", Gc::Zl, "Zl", "Line_Separator"),
    ("Zp", Gc::Zp, "Zp", "Paragraph_Separator"),
    ("Zs", Gc::Zs, "Zs", "Space_Separator"),
];

/// (oracle value, variant, abbreviated name, full name)
pub const HST: &[(&str, Hst, &str, &str)] = &[
    ("L", Hst::L, "L", "Leading_Jamo"),
    ("LV", Hst::LV, "LV", "LV_Syllable"),
    ("LVT", Hst::LVT, "LVT", "LVT_Syllable"),
    ("NA", Hst::NA, "NA", "Not_Applicable"),
    ("T", Hst::T, "T", "Trailing_Jamo"),
    ("V", Hst::V, "V", "Vowel_Jamo"),
];

/// (oracle value, variant, abbreviated name, full name)
pub const GCB: &[(&str, Gcb, &str, &str)] = &[
    ("CN", Gcb::CN, "CN", "Control"),
    ("CR", Gcb::CR, "CR", "CR"),
    ("EB", Gcb::EB, "EB", "E_Base"),
    ("EBG", Gcb::EBG, "EBG", "E_Base_GAZ"),
    ("EM", Gcb::EM, "EM", "E_Modifier"),
    ("EX", Gcb::EX, "EX", "Extend"),
    ("GAZ", Gcb::GAZ, "GAZ", "Glue_After_Zwj"),
    ("L", Gcb::L, "L", "L"),
    ("LF", Gcb::LF, "LF", "LF"),
    ("LV", Gcb::LV, "LV", "LV"),
    ("LVT", Gcb::LVT, "LVT", "LVT"),
    ("PP", Gcb::PP, "PP", "Prepend"),
    ("RI", Gcb::RI, "RI", "Regional_Indicator"),
    ("SM", Gcb::SM, "SM", "SpacingMark"),
    ("T", Gcb::T, "T", "T"),
    ("V", Gcb::V, "V", "V"),
    ("XX", Gcb::XX, "XX", "Other"),
    ("ZWJ", Gcb::ZWJ, "ZWJ", "ZWJ"),
];

/// (oracle value, variant, abbreviated name, full name)
pub const BC: &[(&str, Bc, &str, &str)] = &[
    ("AL", Bc::AL, "AL", "Arabic_Letter"),
    ("AN", Bc::AN, "AN", "Arabic_Number"),
    ("B", Bc::B, "B", "Paragraph_Separator"),
    ("BN", Bc::BN, "BN", "Boundary_Neutral"),
    ("CS", Bc::CS, "CS", "Common_Separator"),
    ("EN", Bc::EN, "EN", "European_Number"),
    ("ES", Bc::ES, "ES", "European_Separator"),
    ("ET", Bc::ET, "ET", "European_Terminator"),
    ("FSI", Bc::FSI, "FSI", "First_Strong_Isolate"),
    ("L", Bc::L, "L", "Left_To_Right"),
    ("LRE", Bc::LRE, "LRE", "Left_To_Right_Embedding"),
    ("LRI", Bc::LRI, "LRI", "Left_To_Right_Isolate"),
    ("LRO", Bc::LRO, "LRO", "Left_To_Right_Override"),
    ("NSM", Bc::NSM, "NSM", "Nonspacing_Mark"),
    ("ON", Bc::ON, "ON", "Other_Neutral"),
    ("PDF", Bc::PDF, "PDF", "Pop_Directional_Format"),
    ("PDI", Bc::PDI, "PDI", "Pop_Directional_Isolate"),
    ("R", Bc::R, "R", "Right_To_Left"),
    ("RLE", Bc::RLE, "RLE", "Right_To_Left_Embedding"),
    ("RLI", Bc::RLI, "RLI", "Right_To_Left_Isolate"),
    ("RLO", Bc::RLO, "RLO", "Right_To_Left_Override"),
    ("S", Bc::S, "S", "Segment_Separator"),
    ("WS", Bc::WS, "WS", "White_Space"),
];

/// (oracle value, variant, abbreviated name, full name)
pub const DT: &[(&str, Dt, &str, &str)] = &[
    ("Can", Dt::Can, "Can", "Canonical"),
    ("Com", Dt::Com, "Com", "Compat"),
    ("Enc", Dt::Enc, "Enc", "Circle"),
    ("Fin", Dt::Fin, "Fin", "Final"),
    ("Font", Dt::Font, "Font", "Font"),
    ("Fra", Dt::Fra, "Fra", "Fraction"),
    ("Init", Dt::Init, "Init", "Initial"),
    ("Iso", Dt::Iso, "Iso", "Isolated"),
    ("Med", Dt::Med, "Med", "Medial"),
    ("Nar", Dt::Nar, "Nar", "Narrow"),
    ("Nb", Dt::Nb, "Nb", "Nobreak"),
    ("None", Dt::None, "None", "None"),
    ("Sml", Dt::Sml, "Sml", "Small"),
    ("Sqr", Dt::Sqr, "Sqr", "Square"),
    ("Sub", Dt::Sub, "Sub", "Sub"),
    ("Sup", Dt::Sup, "Sup", "Super"),
    ("Vert", Dt::Vert, "Vert", "Vertical"),
    ("Wide", Dt::Wide, "Wide", "Wide"),
];

/// (oracle value, variant, abbreviated name, full name)
pub const WB: &[(&str, Wb, &str, &str)] = &[
    ("CR", Wb::CR, "CR", "CR"),
    ("DQ", Wb::DQ, "DQ", "Double_Quote"),
    ("EB", Wb::EB, "EB", "E_Base"),
    ("EBG", Wb::EBG, "EBG", "E_Base_GAZ"),
    ("EM", Wb::EM, "EM", "E_Modifier"),
    ("EX", Wb::EX, "EX", "ExtendNumLet"),
    ("Extend", Wb::Extend, "Extend", "Extend"),
    ("FO", Wb::FO, "FO", "Format"),
    ("GAZ", Wb::GAZ, "GAZ", "Glue_After_Zwj"),
    ("HL", Wb::HL, "HL", "Hebrew_Letter"),
    ("KA", Wb::KA, "KA", "Katakana"),
    ("LE", Wb::LE, "LE", "ALetter"),
    ("LF", Wb::LF, "LF", "LF"),
    ("MB", Wb::MB, "MB", "MidNumLet"),
    ("ML", Wb::ML, "ML", "MidLetter"),
    ("MN", Wb::MN, "MN", "MidNum"),
    ("NL", Wb::NL, "NL", "Newline"),
    ("NU", Wb::NU, "NU", "Numeric"),
    ("RI", Wb::RI, "RI", "Regional_Indicator"),
    ("SQ", Wb::SQ, "SQ", "Single_Quote"),
    ("WSegSpace", Wb::WSegSpace, "WSegSpace", "WSegSpace"),
    ("XX", Wb::XX, "XX", "Other"),
    ("ZWJ", Wb::ZWJ, "ZWJ", "ZWJ"),
];

/// (oracle value, variant, abbreviated name, full name)
pub const INCB: &[(&str, Incb, &str, &str)] = &[
    ("Consonant", Incb::Consonant, "Consonant", "Consonant"),
    ("Extend", Incb::Extend, "Extend", "Extend"),
    ("Linker", Incb::Linker, "Linker", "Linker"),
    ("None", Incb::None, "None", "None"),
];

/// (oracle value, variant, abbreviated name, full name)
pub const INSC: &[(&str, Insc, &str, &str)] = &[
    ("Avagraha", Insc::Avagraha, "Avagraha", "Avagraha"),
    ("Bindu", Insc::Bindu, "Bindu", "Bindu"),
    ("Brahmi_Joining_Number", Insc::Brahmi_Joining_Number, "Brahmi_Joining_Number", "Brahmi_Joining_Number"),
    ("Cantillation_Mark", Insc::Cantillation_Mark, "Cantillation_Mark", "Cantillation_Mark"),
    ("Consonant", Insc::Consonant, "Consonant", "Consonant"),
    ("Consonant_Dead", Insc::Consonant_Dead, "Consonant_Dead", "Consonant_Dead"),
    ("Consonant_Final", Insc::Consonant_Final, "Consonant_Final", "Consonant_Final"),
    ("Consonant_Head_Letter", Insc::Consonant_Head_Letter, "Consonant_Head_Letter", "Consonant_Head_Letter"),
    ("Consonant_Initial_Postfixed", Insc::Consonant_Initial_Postfixed, "Consonant_Initial_Postfixed", "Consonant_Initial_Postfixed"),
    ("Consonant_Killer", Insc::Consonant_Killer, "Consonant_Killer", "Consonant_Killer"),
    ("Consonant_Medial", Insc::Consonant_Medial, "Consonant_Medial", "Consonant_Medial"),
    ("Consonant_Placeholder", Insc::Consonant_Placeholder, "Consonant_Placeholder", "Consonant_Placeholder"),
    ("Consonant_Preceding_Repha", Insc::Consonant_Preceding_Repha, "Consonant_Preceding_Repha", "Consonant_Preceding_Repha"),
    ("Consonant_Prefixed", Insc::Consonant_Prefixed, "Consonant_Prefixed", "Consonant_Prefixed"),
    ("Consonant_Subjoined", Insc::Consonant_Subjoined, "Consonant_Subjoined", "Consonant_Subjoined"),
    ("Consonant_Succeeding_Repha", Insc::Consonant_Succeeding_Repha, "Consonant_Succeeding_Repha", "Consonant_Succeeding_Repha"),
    ("Consonant_With_Stacker", Insc::Consonant_With_Stacker, "Consonant_With_Stacker", "Consonant_With_Stacker"),
    ("Gemination_Mark", Insc::Gemination_Mark, "Gemination_Mark", "Gemination_Mark"),
    ("Invisible_Stacker", Insc::Invisible_Stacker, "Invisible_Stacker", "Invisible_Stacker"),
    ("Joiner", Insc::Joiner, "Joiner", "Joiner"),
    ("Modifying_Letter", Insc::Modifying_Letter, "Modifying_Letter", "Modifying_Letter"),
    ("Non_Joiner", Insc::Non_Joiner, "Non_Joiner", "Non_Joiner"),
    ("Nukta", Insc::Nukta, "Nukta", "Nukta"),
    ("Number", Insc::Number, "Number", "Number"),
    ("Number_Joiner", Insc::Number_Joiner, "Number_Joiner", "Number_Joiner"),
    ("Other", Insc::Other, "Other", "Other"),
    ("Pure_Killer", Insc::Pure_Killer, "Pure_Killer", "Pure_Killer"),
    ("Register_Shifter", Insc::Register_Shifter, "Register_Shifter", "Register_Shifter"),
    ("Syllable_Modifier", Insc::Syllable_Modifier, "Syllable_Modifier", "Syllable_Modifier"),
    ("Tone_Letter", Insc::Tone_Letter, "Tone_Letter", "Tone_Letter"),
    ("Tone_Mark", Insc::Tone_Mark, "Tone_Mark", "Tone_Mark"),
    ("Virama", Insc::Virama, "Virama", "Virama"),
    ("Visarga", Insc::Visarga, "Visarga", "Visarga"),
    ("Vowel", Insc::Vowel, "Vowel", "Vowel"),
    ("Vowel_Dependent", Insc::Vowel_Dependent, "Vowel_Dependent", "Vowel_Dependent"),
    ("Vowel_Independent", Insc::Vowel_Independent, "Vowel_Independent", "Vowel_Independent"),
];

/// (oracle value, variant, abbreviated name, full name)
pub const AGE: &[(&str, Age, &str, &str)] = &[
    ("1.1", Age::V1_1, "1.1", "V1_1"),
    ("2.0", Age::V2_0, "2.0", "V2_0"),
    ("2.1", Age::V2_1, "2.1", "V2_1"),
    ("3.0", Age::V3_0, "3.0", "V3_0"),
    ("3.1", Age::V3_1, "3.1", "V3_1"),
    ("3.2", Age::V3_2, "3.2", "V3_2"),
    ("4.0", Age::V4_0, "4.0", "V4_0"),
    ("4.1", Age::V4_1, "4.1", "V4_1"),
    ("5.0", Age::V5_0, "5.0", "V5_0"),
    ("5.1", Age::V5_1, "5.1", "V5_1"),
    ("5.2", Age::V5_2, "5.2", "V5_2"),
    ("6.0", Age::V6_0, "6.0", "V6_0"),
    ("6.1", Age::V6_1, "6.1", "V6_1"),
    ("6.2", Age::V6_2, "6.2", "V6_2"),
    ("6.3", Age::V6_3, "6.3", "V6_3"),
    ("7.0", Age::V7_0, "7.0", "V7_0"),
    ("8.0", Age::V8_0, "8.0", "V8_0"),
    ("9.0", Age::V9_0, "9.0", "V9_0"),
    ("10.0", Age::V10_0, "10.0", "V10_0"),
    ("11.0", Age::V11_0, "11.0", "V11_0"),
    ("12.0", Age::V12_0, "12.0", "V12_0"),
    ("12.1", Age::V12_1, "12.1", "V12_1"),
    ("13.0", Age::V13_0, "13.0", "V13_0"),
    ("14.0", Age::V14_0, "14.0", "V14_0"),
    ("15.0", Age::V15_0, "15.0", "V15_0"),
    ("15.1", Age::V15_1, "15.1", "V15_1"),
    ("NA", Age::NA, "NA", "Unassigned"),
];

/// (oracle value, variant, abbreviated name, full name)
pub const SC: &[(&str, Sc, &str, &str)] = &[
    ("Adlm", Sc::Adlm, "Adlm", "Adlam"),
    ("Aghb", Sc::Aghb, "Aghb", "Caucasian_Albanian"),
    ("Ahom", Sc::Ahom, "Ahom", "Ahom"),
    ("Arab", Sc::Arab, "Arab", "Arabic"),
    ("Armi", Sc::Armi, "Armi", "Imperial_Aramaic"),
    ("Armn", Sc::Armn, "Armn", "Armenian"),
    ("Avst", Sc::Avst, "Avst", "Avestan"),
    ("Bali", Sc::Bali, "Bali", "Balinese"),
    ("Bamu", Sc::Bamu, "Bamu", "Bamum"),
    ("Bass", Sc::Bass, "Bass", "Bassa_Vah"),
    ("Batk", Sc::Batk, "Batk", "Batak"),
    ("Beng", Sc::Beng, "Beng", "Bengali"),
    ("Bhks", Sc::Bhks, "Bhks", "Bhaiksuki"),
    ("Bopo", Sc::Bopo, "Bopo", "Bopomofo"),
    ("Brah", Sc::Brah, "Brah", "Brahmi"),
    ("Brai", Sc::Brai, "Brai", "Braille"),
    ("Bugi", Sc::Bugi, "Bugi", "Buginese"),
    ("Buhd", Sc::Buhd, "Buhd", "Buhid"),
    ("Cakm", Sc::Cakm, "Cakm", "Chakma"),
    ("Cans", Sc::Cans, "Cans", "Canadian_Aboriginal"),
    ("Cari", Sc::Cari, "Cari", "Carian"),
    ("Cham", Sc::Cham, "Cham", "Cham"),
    ("Cher", Sc::Cher, "Cher", "Cherokee"),
    ("Chrs", Sc::Chrs, "Chrs", "Chorasmian"),
    ("Copt", Sc::Copt, "Copt", "Coptic"),
    ("Cpmn", Sc::Cpmn, "Cpmn", "Cypro_Minoan"),
    ("Cprt", Sc::Cprt, "Cprt", "Cypriot"),
    ("Cyrl", Sc::Cyrl, "Cyrl", "Cyrillic"),
    ("Deva", Sc::Deva, "Deva", "Devanagari"),
    ("Diak", Sc::Diak, "Diak", "Dives_Akuru"),
    ("Dogr", Sc::Dogr, "Dogr", "Dogra"),
    ("Dsrt", Sc::Dsrt, "Dsrt", "Deseret"),
    ("Dupl", Sc::Dupl, "Dupl", "Duployan"),
    ("Egyp", Sc::Egyp, "Egyp", "Egyptian_Hieroglyphs"),
    ("Elba", Sc::Elba, "Elba", "Elbasan"),
    ("Elym", Sc::Elym, "Elym", "Elymaic"),
    ("Ethi", Sc::Ethi, "Ethi", "Ethiopic"),
    ("Geor", Sc::Geor, "Geor", "Georgian"),
    ("Glag", Sc::Glag, "Glag", "Glagolitic"),
    ("Gong", Sc::Gong, "Gong", "Gunjala_Gondi"),
    ("Gonm", Sc::Gonm, "Gonm", "Masaram_Gondi"),
    ("Goth", Sc::Goth, "Goth", "Gothic"),
    ("Gran", Sc::Gran, "Gran", "Grantha"),
    ("Grek", Sc::Grek, "Grek", "Greek"),
    ("Gujr", Sc::Gujr, "Gujr", "Gujarati"),
    ("Guru", Sc::Guru, "Guru", "Gurmukhi"),
    ("Hang", Sc::Hang, "Hang", "Hangul"),
    ("Hani", Sc::Hani, "Hani", "Han"),
    ("Hano", Sc::Hano, "Hano", "Hanunoo"),
    ("Hatr", Sc::Hatr, "Hatr", "Hatran"),
    ("Hebr", Sc::Hebr, "Hebr", "Hebrew"),
    ("Hira", Sc::Hira, "Hira", "Hiragana"),
    ("Hluw", Sc::Hluw, "Hluw", "Anatolian_Hieroglyphs"),
    ("Hmng", Sc::Hmng, "Hmng", "Pahawh_Hmong"),
    ("Hmnp", Sc::Hmnp, "Hmnp", "Nyiakeng_Puachue_Hmong"),
    ("Hrkt", Sc::Hrkt, "Hrkt", "Katakana_Or_Hiragana"),
    ("Hung", Sc::Hung, "Hung", "Old_Hungarian"),
    ("Ital", Sc::Ital, "Ital", "Old_Italic"),
    ("Java", Sc::Java, "Java", "Javanese"),
    ("Kali", Sc::Kali, "Kali", "Kayah_Li"),
    ("Kana", Sc::Kana, "Kana", "Katakana"),
    ("Kawi", Sc::Kawi, "Kawi", "Kawi"),
    ("Khar", Sc::Khar, "Khar", "Kharoshthi"),
    ("Khmr", Sc::Khmr, "Khmr", "Khmer"),
    ("Khoj", Sc::Khoj, "Khoj", "Khojki"),
    ("Kits", Sc::Kits, "Kits", "Khitan_Small_Script"),
    ("Knda", Sc::Knda, "Knda", "Kannada"),
    ("Kthi", Sc::Kthi, "Kthi", "Kaithi"),
    ("Lana", Sc::Lana, "Lana", "Tai_Tham"),
    ("Laoo", Sc::Laoo, "Laoo", "Lao"),
    ("Latn", Sc::Latn, "Latn", "Latin"),
    ("Lepc", Sc::Lepc, "Lepc", "Lepcha"),
    ("Limb", Sc::Limb, "Limb", "Limbu"),
    ("Lina", Sc::Lina, "Lina", "Linear_A"),
    ("Linb", Sc::Linb, "Linb", "Linear_B"),
    ("Lisu", Sc::Lisu, "Lisu", "Lisu"),
    ("Lyci", Sc::Lyci, "Lyci", "Lycian"),
    ("Lydi", Sc::Lydi, "Lydi", "Lydian"),
    ("Mahj", Sc::Mahj, "Mahj", "Mahajani"),
    ("Maka", Sc::Maka, "Maka", "Makasar"),
    ("Mand", Sc::Mand, "Mand", "Mandaic"),
    ("Mani", Sc::Mani, "Mani", "Manichaean"),
    ("Marc", Sc::Marc, "Marc", "Marchen"),
    ("Medf", Sc::Medf, "Medf", "Medefaidrin"),
    ("Mend", Sc::Mend, "Mend", "Mende_Kikakui"),
    ("Merc", Sc::Merc, "Merc", "Meroitic_Cursive"),
    ("Mero", Sc::Mero, "Mero", "Meroitic_Hieroglyphs"),
    ("Mlym", Sc::Mlym, "Mlym", "Malayalam"),
    ("Modi", Sc::Modi, "Modi", "Modi"),
    ("Mong", Sc::Mong, "Mong", "Mongolian"),
    ("Mroo", Sc::Mroo, "Mroo", "Mro"),
    ("Mtei", Sc::Mtei, "Mtei", "Meetei_Mayek"),
    ("Mult", Sc::Mult, "Mult", "Multani"),
    ("Mymr", Sc::Mymr, "Mymr", "Myanmar"),
    ("Nagm", Sc::Nagm, "Nagm", "Nag_Mundari"),
    ("Nand", Sc::Nand, "Nand", "Nandinagari"),
    ("Narb", Sc::Narb, "Narb", "Old_North_Arabian"),
    ("Nbat", Sc::Nbat, "Nbat", "Nabataean"),
    ("Newa", Sc::Newa, "Newa", "Newa"),
    ("Nkoo", Sc::Nkoo, "Nkoo", "Nko"),
    ("Nshu", Sc::Nshu, "Nshu", "Nushu"),
    ("Ogam", Sc::Ogam, "Ogam", "Ogham"),
    ("Olck", Sc::Olck, "Olck", "Ol_Chiki"),
    ("Orkh", Sc::Orkh, "Orkh", "Old_Turkic"),
    ("Orya", Sc::Orya, "Orya", "Oriya"),
    ("Osge", Sc::Osge, "Osge", "Osage"),
    ("Osma", Sc::Osma, "Osma", "Osmanya"),
    ("Ougr", Sc::Ougr, "Ougr", "Old_Uyghur"),
    ("Palm", Sc::Palm, "Palm", "Palmyrene"),
    ("Pauc", Sc::Pauc, "Pauc", "Pau_Cin_Hau"),
    ("Perm", Sc::Perm, "Perm", "Old_Permic"),
    ("Phag", Sc::Phag, "Phag", "Phags_Pa"),
    ("Phli", Sc::Phli, "Phli", "Inscriptional_Pahlavi"),
    ("Phlp", Sc::Phlp, "Phlp", "Psalter_Pahlavi"),
    ("Phnx", Sc::Phnx, "Phnx", "Phoenician"),
    ("Plrd", Sc::Plrd, "Plrd", "Miao"),
    ("Prti", Sc::Prti, "Prti", "Inscriptional_Parthian"),
    ("Rjng", Sc::Rjng, "Rjng", "Rejang"),
    ("Rohg", Sc::Rohg, "Rohg", "Hanifi_Rohingya"),
    ("Runr", Sc::Runr, "Runr", "Runic"),
    ("Samr", Sc::Samr, "Samr", "Samaritan"),
    ("Sarb", Sc::Sarb, "Sarb", "Old_South_Arabian"),
    ("Saur", Sc::Saur, "Saur", "Saurashtra"),
    ("Sgnw", Sc::Sgnw, "Sgnw", "SignWriting"),
    ("Shaw", Sc::Shaw, "Shaw", "Shavian"),
    ("Shrd", Sc::Shrd, "Shrd", "Sharada"),
    ("Sidd", Sc::Sidd, "Sidd", "Siddham"),
    ("Sind", Sc::Sind, "Sind", "Khudawadi"),
    ("Sinh", Sc::Sinh, "Sinh", "Sinhala"),
    ("Sogd", Sc::Sogd, "Sogd", "Sogdian"),
    ("Sogo", Sc::Sogo, "Sogo", "Old_Sogdian"),
    ("Sora", Sc::Sora, "Sora", "Sora_Sompeng"),
    ("Soyo", Sc::Soyo, "Soyo", "Soyombo"),
    ("Sund", Sc::Sund, "Sund", "Sundanese"),
    ("Sylo", Sc::Sylo, "Sylo", "Syloti_Nagri"),
    ("Syrc", Sc::Syrc, "Syrc", "Syriac"),
    ("Tagb", Sc::Tagb, "Tagb", "Tagbanwa"),
    ("Takr", Sc::Takr, "Takr", "Takri"),
    ("Tale", Sc::Tale, "Tale", "Tai_Le"),
    ("Talu", Sc::Talu, "Talu", "New_Tai_Lue"),
    ("Taml", Sc::Taml, "Taml", "Tamil"),
    ("Tang", Sc::Tang, "Tang", "Tangut"),
    ("Tavt", Sc::Tavt, "Tavt", "Tai_Viet"),
    ("Telu", Sc::Telu, "Telu", "Telugu"),
    ("Tfng", Sc::Tfng, "Tfng", "Tifinagh"),
    ("Tglg", Sc::Tglg, "Tglg", "Tagalog"),
    ("Thaa", Sc::Thaa, "Thaa", "Thaana"),
    ("Thai", Sc::Thai, "Thai", "Thai"),
    ("Tibt", Sc::Tibt, "Tibt", "Tibetan"),
    ("Tirh", Sc::Tirh, "Tirh", "Tirhuta"),
    ("Tnsa", Sc::Tnsa, "Tnsa", "Tangsa"),
    ("Toto", Sc::Toto, "Toto", "Toto"),
    ("Ugar", Sc::Ugar, "Ugar", "Ugaritic"),
    ("Vaii", Sc::Vaii, "Vaii", "Vai"),
    ("Vith", Sc::Vith, "Vith", "Vithkuqi"),
    ("Wara", Sc::Wara, "Wara", "Warang_Citi"),
    ("Wcho", Sc::Wcho, "Wcho", "Wancho"),
    ("Xpeo", Sc::Xpeo, "Xpeo", "Old_Persian"),
    ("Xsux", Sc::Xsux, "Xsux", "Cuneiform"),
    ("Yezi", Sc::Yezi, "Yezi", "Yezidi"),
    ("Yiii", Sc::Yiii, "Yiii", "Yi"),
    ("Zanb", Sc::Zanb, "Zanb", "Zanabazar_Square"),
    ("Zinh", Sc::Zinh, "Zinh", "Inherited"),
    ("Zyyy", Sc::Zyyy, "Zyyy", "Common"),
    ("Zzzz", Sc::Zzzz, "Zzzz", "Unknown"),
];

/// (oracle value, variant, abbreviated name, full name)
pub const BLK: &[(&str, Blk, &str, &str)] = &[
    ("Adlam", Blk::Adlam, "Adlam", "Adlam"),
    ("Aegean_Numbers", Blk::AegeanNumbers, "Aegean_Numbers", "Aegean_Numbers"),
    ("Ahom", Blk::Ahom, "Ahom", "Ahom"),
    ("Alchemical", Blk::Alchemical, "Alchemical", "Alchemical_Symbols"),
    ("Alphabetic_PF", Blk::AlphabeticPf, "Alphabetic_PF", "Alphabetic_Presentation_Forms"),
    ("Anatolian_Hieroglyphs", Blk::AnatolianHieroglyphs, "Anatolian_Hieroglyphs", "Anatolian_Hieroglyphs"),
    ("Ancient_Greek_Music", Blk::AncientGreekMusic, "Ancient_Greek_Music", "Ancient_Greek_Musical_Notation"),
    ("Ancient_Greek_Numbers", Blk::AncientGreekNumbers, "Ancient_Greek_Numbers", "Ancient_Greek_Numbers"),
    ("Ancient_Symbols", Blk::AncientSymbols, "Ancient_Symbols", "Ancient_Symbols"),
    ("Arabic", Blk::Arabic, "Arabic", "Arabic"),
    ("Arabic_Ext_A", Blk::ArabicExtA, "Arabic_Ext_A", "Arabic_Extended_A"),
    ("Arabic_Ext_B", Blk::ArabicExtB, "Arabic_Ext_B", "Arabic_Extended_B"),
    ("Arabic_Ext_C", Blk::ArabicExtC, "Arabic_Ext_C", "Arabic_Extended_C"),
    ("Arabic_Math", Blk::ArabicMath, "Arabic_Math", "Arabic_Mathematical_Alphabetic_Symbols"),
    ("Arabic_PF_A", Blk::ArabicPfA, "Arabic_PF_A", "Arabic_Presentation_Forms_A"),
    ("Arabic_PF_B", Blk::ArabicPfB, "Arabic_PF_B", "Arabic_Presentation_Forms_B"),
    ("Arabic_Sup", Blk::ArabicSup, "Arabic_Sup", "Arabic_Supplement"),
    ("Armenian", Blk::Armenian, "Armenian", "Armenian"),
    ("Arrows", Blk::Arrows, "Arrows", "Arrows"),
    ("ASCII", Blk::Ascii, "ASCII", "Basic_Latin"),
    ("Avestan", Blk::Avestan, "Avestan", "Avestan"),
    ("Balinese", Blk::Balinese, "Balinese", "Balinese"),
    ("Bamum", Blk::Bamum, "Bamum", "Bamum"),
    ("Bamum_Sup", Blk::BamumSup, "Bamum_Sup", "Bamum_Supplement"),
    ("Bassa_Vah", Blk::BassaVah, "Bassa_Vah", "Bassa_Vah"),
    ("Batak", Blk::Batak, "Batak", "Batak"),
    ("Bengali", Blk::Bengali, "Bengali", "Bengali"),
    ("Bhaiksuki", Blk::Bhaiksuki, "Bhaiksuki", "Bhaiksuki"),
    ("Block_Elements", Blk::BlockElements, "Block_Elements", "Block_Elements"),
    ("Bopomofo", Blk::Bopomofo, "Bopomofo", "Bopomofo"),
    ("Bopomofo_Ext", Blk::BopomofoExt, "Bopomofo_Ext", "Bopomofo_Extended"),
    ("Box_Drawing", Blk::BoxDrawing, "Box_Drawing", "Box_Drawing"),
    ("Brahmi", Blk::Brahmi, "Brahmi", "Brahmi"),
    ("Braille", Blk::Braille, "Braille", "Braille_Patterns"),
    ("Buginese", Blk::Buginese, "Buginese", "Buginese"),
    ("Buhid", Blk::Buhid, "Buhid", "Buhid"),
    ("Byzantine_Music", Blk::ByzantineMusic, "Byzantine_Music", "Byzantine_Musical_Symbols"),
    ("Carian", Blk::Carian, "Carian", "Carian"),
    ("Caucasian_Albanian", Blk::CaucasianAlbanian, "Caucasian_Albanian", "Caucasian_Albanian"),
    ("Chakma", Blk::Chakma, "Chakma", "Chakma"),
    ("Cham", Blk::Cham, "Cham", "Cham"),
    ("Cherokee", Blk::Cherokee, "Cherokee", "Cherokee"),
    ("Cherokee_Sup", Blk::CherokeeSup, "Cherokee_Sup", "Cherokee_Supplement"),
    ("Chess_Symbols", Blk::ChessSymbols, "Chess_Symbols", "Chess_Symbols"),
    ("Chorasmian", Blk::Chorasmian, "Chorasmian", "Chorasmian"),
    ("CJK", Blk::Cjk, "CJK", "CJK_Unified_Ideographs"),
    ("CJK_Compat", Blk::CjkCompat, "CJK_Compat", "CJK_Compatibility"),
    ("CJK_Compat_Forms", Blk::CjkCompatForms, "CJK_Compat_Forms", "CJK_Compatibility_Forms"),
    ("CJK_Compat_Ideographs", Blk::CjkCompatIdeographs, "CJK_Compat_Ideographs", "CJK_Compatibility_Ideographs"),
    ("CJK_Compat_Ideographs_Sup", Blk::CjkCompatIdeographsSup, "CJK_Compat_Ideographs_Sup", "CJK_Compatibility_Ideographs_Supplement"),
    ("CJK_Ext_A", Blk::CjkExtA, "CJK_Ext_A", "CJK_Unified_Ideographs_Extension_A"),
    ("CJK_Ext_B", Blk::CjkExtB, "CJK_Ext_B", "CJK_Unified_Ideographs_Extension_B"),
    ("CJK_Ext_C", Blk::CjkExtC, "CJK_Ext_C", "CJK_Unified_Ideographs_Extension_C"),
    ("CJK_Ext_D", Blk::CjkExtD, "CJK_Ext_D", "CJK_Unified_Ideographs_Extension_D"),
    ("CJK_Ext_E", Blk::CjkExtE, "CJK_Ext_E", "CJK_Unified_Ideographs_Extension_E"),
    ("CJK_Ext_F", Blk::CjkExtF, "CJK_Ext_F", "CJK_Unified_Ideographs_Extension_F"),
    ("CJK_Ext_G", Blk::CjkExtG, "CJK_Ext_G", "CJK_Unified_Ideographs_Extension_G"),
    ("CJK_Ext_H", Blk::CjkExtH, "CJK_Ext_H", "CJK_Unified_Ideographs_Extension_H"),
    ("CJK_Ext_I", Blk::CjkExtI, "CJK_Ext_I", "CJK_Unified_Ideographs_Extension_I"),
    ("CJK_Radicals_Sup", Blk::CjkRadicalsSup, "CJK_Radicals_Sup", "CJK_Radicals_Supplement"),
    ("CJK_Strokes", Blk::CjkStrokes, "CJK_Strokes", "CJK_Strokes"),
    ("CJK_Symbols", Blk::CjkSymbols, "CJK_Symbols", "CJK_Symbols_And_Punctuation"),
    ("Compat_Jamo", Blk::CompatJamo, "Compat_Jamo", "Hangul_Compatibility_Jamo"),
    ("Control_Pictures", Blk::ControlPictures, "Control_Pictures", "Control_Pictures"),
    ("Coptic", Blk::Coptic, "Coptic", "Coptic"),
    ("Coptic_Epact_Numbers", Blk::CopticEpactNumbers, "Coptic_Epact_Numbers", "Coptic_Epact_Numbers"),
    ("Counting_Rod", Blk::CountingRod, "Counting_Rod", "Counting_Rod_Numerals"),
    ("Cuneiform", Blk::Cuneiform, "Cuneiform", "Cuneiform"),
    ("Cuneiform_Numbers", Blk::CuneiformNumbers, "Cuneiform_Numbers", "Cuneiform_Numbers_And_Punctuation"),
    ("Currency_Symbols", Blk::CurrencySymbols, "Currency_Symbols", "Currency_Symbols"),
    ("Cypriot_Syllabary", Blk::CypriotSyllabary, "Cypriot_Syllabary", "Cypriot_Syllabary"),
    ("Cypro_Minoan", Blk::CyproMinoan, "Cypro_Minoan", "Cypro_Minoan"),
    ("Cyrillic", Blk::Cyrillic, "Cyrillic", "Cyrillic"),
    ("Cyrillic_Ext_A", Blk::CyrillicExtA, "Cyrillic_Ext_A", "Cyrillic_Extended_A"),
    ("Cyrillic_Ext_B", Blk::CyrillicExtB, "Cyrillic_Ext_B", "Cyrillic_Extended_B"),
    ("Cyrillic_Ext_C", Blk::CyrillicExtC, "Cyrillic_Ext_C", "Cyrillic_Extended_C"),
    ("Cyrillic_Ext_D", Blk::CyrillicExtD, "Cyrillic_Ext_D", "Cyrillic_Extended_D"),
    ("Cyrillic_Sup", Blk::CyrillicSup, "Cyrillic_Sup", "Cyrillic_Supplement"),
    ("Deseret", Blk::Deseret, "Deseret", "Deseret"),
    ("Devanagari", Blk::Devanagari, "Devanagari", "Devanagari"),
    ("Devanagari_Ext", Blk::DevanagariExt, "Devanagari_Ext", "Devanagari_Extended"),
    ("Devanagari_Ext_A", Blk::DevanagariExtA, "Devanagari_Ext_A", "Devanagari_Extended_A"),
    ("Diacriticals", Blk::Diacriticals, "Diacriticals", "Combining_Diacritical_Marks"),
    ("Diacriticals_Ext", Blk::DiacriticalsExt, "Diacriticals_Ext", "Combining_Diacritical_Marks_Extended"),
    ("Diacriticals_For_Symbols", Blk::DiacriticalsForSymbols, "Diacriticals_For_Symbols", "Combining_Diacritical_Marks_For_Symbols"),
    ("Diacriticals_Sup", Blk::DiacriticalsSup, "Diacriticals_Sup", "Combining_Diacritical_Marks_Supplement"),
    ("Dingbats", Blk::Dingbats, "Dingbats", "Dingbats"),
    ("Dives_Akuru", Blk::DivesAkuru, "Dives_Akuru", "Dives_Akuru"),
    ("Dogra", Blk::Dogra, "Dogra", "Dogra"),
    ("Domino", Blk::Domino, "Domino", "Domino_Tiles"),
    ("Duployan", Blk::Duployan, "Duployan", "Duployan"),
    ("Early_Dynastic_Cuneiform", Blk::EarlyDynasticCuneiform, "Early_Dynastic_Cuneiform", "Early_Dynastic_Cuneiform"),
    ("Egyptian_Hieroglyph_Format_Controls", Blk::EgyptianHieroglyphFormatControls, "Egyptian_Hieroglyph_Format_Controls", "Egyptian_Hieroglyph_Format_Controls"),
    ("Egyptian_Hieroglyphs", Blk::EgyptianHieroglyphs, "Egyptian_Hieroglyphs", "Egyptian_Hieroglyphs"),
    ("Elbasan", Blk::Elbasan, "Elbasan", "Elbasan"),
    ("Elymaic", Blk::Elymaic, "Elymaic", "Elymaic"),
    ("Emoticons", Blk::Emoticons, "Emoticons", "Emoticons"),
    ("Enclosed_Alphanum", Blk::EnclosedAlphanum, "Enclosed_Alphanum", "Enclosed_Alphanumerics"),
    ("Enclosed_Alphanum_Sup", Blk::EnclosedAlphanumSup, "Enclosed_Alphanum_Sup", "Enclosed_Alphanumeric_Supplement"),
    ("Enclosed_CJK", Blk::EnclosedCjk, "Enclosed_CJK", "Enclosed_CJK_Letters_And_Months"),
    ("Enclosed_Ideographic_Sup", Blk::EnclosedIdeographicSup, "Enclosed_Ideographic_Sup", "Enclosed_Ideographic_Supplement"),
    ("Ethiopic", Blk::Ethiopic, "Ethiopic", "Ethiopic"),
    ("Ethiopic_Ext", Blk::EthiopicExt, "Ethiopic_Ext", "Ethiopic_Extended"),
    ("Ethiopic_Ext_A", Blk::EthiopicExtA, "Ethiopic_Ext_A", "Ethiopic_Extended_A"),
    ("Ethiopic_Ext_B", Blk::EthiopicExtB, "Ethiopic_Ext_B", "Ethiopic_Extended_B"),
    ("Ethiopic_Sup", Blk::EthiopicSup, "Ethiopic_Sup", "Ethiopic_Supplement"),
    ("Geometric_Shapes", Blk::GeometricShapes, "Geometric_Shapes", "Geometric_Shapes"),
    ("Geometric_Shapes_Ext", Blk::GeometricShapesExt, "Geometric_Shapes_Ext", "Geometric_Shapes_Extended"),
    ("Georgian", Blk::Georgian, "Georgian", "Georgian"),
    ("Georgian_Ext", Blk::GeorgianExt, "Georgian_Ext", "Georgian_Extended"),
    ("Georgian_Sup", Blk::GeorgianSup, "Georgian_Sup", "Georgian_Supplement"),
    ("Glagolitic", Blk::Glagolitic, "Glagolitic", "Glagolitic"),
    ("Glagolitic_Sup", Blk::GlagoliticSup, "Glagolitic_Sup", "Glagolitic_Supplement"),
    ("Gothic", Blk::Gothic, "Gothic", "Gothic"),
    ("Grantha", Blk::Grantha, "Grantha", "Grantha"),
    ("Greek", Blk::Greek, "Greek", "Greek_And_Coptic"),
    ("Greek_Ext", Blk::GreekExt, "Greek_Ext", "Greek_Extended"),
    ("Gujarati", Blk::Gujarati, "Gujarati", "Gujarati"),
    ("Gunjala_Gondi", Blk::GunjalaGondi, "Gunjala_Gondi", "Gunjala_Gondi"),
    ("Gurmukhi", Blk::Gurmukhi, "Gurmukhi", "Gurmukhi"),
    ("Half_And_Full_Forms", Blk::HalfAndFullForms, "Half_And_Full_Forms", "Halfwidth_And_Fullwidth_Forms"),
    ("Half_Marks", Blk::HalfMarks, "Half_Marks", "Combining_Half_Marks"),
    ("Hangul", Blk::Hangul, "Hangul", "Hangul_Syllables"),
    ("Hanifi_Rohingya", Blk::HanifiRohingya, "Hanifi_Rohingya", "Hanifi_Rohingya"),
    ("Hanunoo", Blk::Hanunoo, "Hanunoo", "Hanunoo"),
    ("Hatran", Blk::Hatran, "Hatran", "Hatran"),
    ("Hebrew", Blk::Hebrew, "Hebrew", "Hebrew"),
    ("High_PU_Surrogates", Blk::HighPuSurrogates, "High_PU_Surrogates", "High_Private_Use_Surrogates"),
    ("High_Surrogates", Blk::HighSurrogates, "High_Surrogates", "High_Surrogates"),
    ("Hiragana", Blk::Hiragana, "Hiragana", "Hiragana"),
    ("IDC", Blk::Idc, "IDC", "Ideographic_Description_Characters"),
    ("Ideographic_Symbols", Blk::IdeographicSymbols, "Ideographic_Symbols", "Ideographic_Symbols_And_Punctuation"),
    ("Imperial_Aramaic", Blk::ImperialAramaic, "Imperial_Aramaic", "Imperial_Aramaic"),
    ("Indic_Number_Forms", Blk::IndicNumberForms, "Indic_Number_Forms", "Common_Indic_Number_Forms"),
    ("Indic_Siyaq_Numbers", Blk::IndicSiyaqNumbers, "Indic_Siyaq_Numbers", "Indic_Siyaq_Numbers"),
    ("Inscriptional_Pahlavi", Blk::InscriptionalPahlavi, "Inscriptional_Pahlavi", "Inscriptional_Pahlavi"),
    ("Inscriptional_Parthian", Blk::InscriptionalParthian, "Inscriptional_Parthian", "Inscriptional_Parthian"),
    ("IPA_Ext", Blk::IpaExt, "IPA_Ext", "IPA_Extensions"),
    ("Jamo", Blk::Jamo, "Jamo", "Hangul_Jamo"),
    ("Jamo_Ext_A", Blk::JamoExtA, "Jamo_Ext_A", "Hangul_Jamo_Extended_A"),
    ("Jamo_Ext_B", Blk::JamoExtB, "Jamo_Ext_B", "Hangul_Jamo_Extended_B"),
    ("Javanese", Blk::Javanese, "Javanese", "Javanese"),
    ("Kaithi", Blk::Kaithi, "Kaithi", "Kaithi"),
    ("Kaktovik_Numerals", Blk::KaktovikNumerals, "Kaktovik_Numerals", "Kaktovik_Numerals"),
    ("Kana_Ext_A", Blk::KanaExtA, "Kana_Ext_A", "Kana_Extended_A"),
    ("Kana_Ext_B", Blk::KanaExtB, "Kana_Ext_B", "Kana_Extended_B"),
    ("Kana_Sup", Blk::KanaSup, "Kana_Sup", "Kana_Supplement"),
    ("Kanbun", Blk::Kanbun, "Kanbun", "Kanbun"),
    ("Kangxi", Blk::Kangxi, "Kangxi", "Kangxi_Radicals"),
    ("Kannada", Blk::Kannada, "Kannada", "Kannada"),
    ("Katakana", Blk::Katakana, "Katakana", "Katakana"),
    ("Katakana_Ext", Blk::KatakanaExt, "Katakana_Ext", "Katakana_Phonetic_Extensions"),
    ("Kawi", Blk::Kawi, "Kawi", "Kawi"),
    ("Kayah_Li", Blk::KayahLi, "Kayah_Li", "Kayah_Li"),
    ("Kharoshthi", Blk::Kharoshthi, "Kharoshthi", "Kharoshthi"),
    ("Khitan_Small_Script", Blk::KhitanSmallScript, "Khitan_Small_Script", "Khitan_Small_Script"),
    ("Khmer", Blk::Khmer, "Khmer", "Khmer"),
    ("Khmer_Symbols", Blk::KhmerSymbols, "Khmer_Symbols", "Khmer_Symbols"),
    ("Khojki", Blk::Khojki, "Khojki", "Khojki"),
    ("Khudawadi", Blk::Khudawadi, "Khudawadi", "Khudawadi"),
    ("Lao", Blk::Lao, "Lao", "Lao"),
    ("Latin_1_Sup", Blk::Latin1Sup, "Latin_1_Sup", "Latin_1_Supplement"),
    ("Latin_Ext_A", Blk::LatinExtA, "Latin_Ext_A", "Latin_Extended_A"),
    ("Latin_Ext_Additional", Blk::LatinExtAdditional, "Latin_Ext_Additional", "Latin_Extended_Additional"),
    ("Latin_Ext_B", Blk::LatinExtB, "Latin_Ext_B", "Latin_Extended_B"),
    ("Latin_Ext_C", Blk::LatinExtC, "Latin_Ext_C", "Latin_Extended_C"),
    ("Latin_Ext_D", Blk::LatinExtD, "Latin_Ext_D", "Latin_Extended_D"),
    ("Latin_Ext_E", Blk::LatinExtE, "Latin_Ext_E", "Latin_Extended_E"),
    ("Latin_Ext_F", Blk::LatinExtF, "Latin_Ext_F", "Latin_Extended_F"),
    ("Latin_Ext_G", Blk::LatinExtG, "Latin_Ext_G", "Latin_Extended_G"),
    ("Lepcha", Blk::Lepcha, "Lepcha", "Lepcha"),
    ("Letterlike_Symbols", Blk::LetterlikeSymbols, "Letterlike_Symbols", "Letterlike_Symbols"),
    ("Limbu", Blk::Limbu, "Limbu", "Limbu"),
    ("Linear_A", Blk::LinearA, "Linear_A", "Linear_A"),
    ("Linear_B_Ideograms", Blk::LinearBIdeograms, "Linear_B_Ideograms", "Linear_B_Ideograms"),
    ("Linear_B_Syllabary", Blk::LinearBSyllabary, "Linear_B_Syllabary", "Linear_B_Syllabary"),
    ("Lisu", Blk::Lisu, "Lisu", "Lisu"),
    ("Lisu_Sup", Blk::LisuSup, "Lisu_Sup", "Lisu_Supplement"),
    ("Low_Surrogates", Blk::LowSurrogates, "Low_Surrogates", "Low_Surrogates"),
    ("Lycian", Blk::Lycian, "Lycian", "Lycian"),
    ("Lydian", Blk::Lydian, "Lydian", "Lydian"),
    ("Mahajani", Blk::Mahajani, "Mahajani", "Mahajani"),
    ("Mahjong", Blk::Mahjong, "Mahjong", "Mahjong_Tiles"),
    ("Makasar", Blk::Makasar, "Makasar", "Makasar"),
    ("Malayalam", Blk::Malayalam, "Malayalam", "Malayalam"),
    ("Mandaic", Blk::Mandaic, "Mandaic", "Mandaic"),
    ("Manichaean", Blk::Manichaean, "Manichaean", "Manichaean"),
    ("Marchen", Blk::Marchen, "Marchen", "Marchen"),
    ("Masaram_Gondi", Blk::MasaramGondi, "Masaram_Gondi", "Masaram_Gondi"),
    ("Math_Alphanum", Blk::MathAlphanum, "Math_Alphanum", "Mathematical_Alphanumeric_Symbols"),
    ("Math_Operators", Blk::MathOperators, "Math_Operators", "Mathematical_Operators"),
    ("Mayan_Numerals", Blk::MayanNumerals, "Mayan_Numerals", "Mayan_Numerals"),
    ("Medefaidrin", Blk::Medefaidrin, "Medefaidrin", "Medefaidrin"),
    ("Meetei_Mayek", Blk::MeeteiMayek, "Meetei_Mayek", "Meetei_Mayek"),
    ("Meetei_Mayek_Ext", Blk::MeeteiMayekExt, "Meetei_Mayek_Ext", "Meetei_Mayek_Extensions"),
    ("Mende_Kikakui", Blk::MendeKikakui, "Mende_Kikakui", "Mende_Kikakui"),
    ("Meroitic_Cursive", Blk::MeroiticCursive, "Meroitic_Cursive", "Meroitic_Cursive"),
    ("Meroitic_Hieroglyphs", Blk::MeroiticHieroglyphs, "Meroitic_Hieroglyphs", "Meroitic_Hieroglyphs"),
    ("Miao", Blk::Miao, "Miao", "Miao"),
    ("Misc_Arrows", Blk::MiscArrows, "Misc_Arrows", "Miscellaneous_Symbols_And_Arrows"),
    ("Misc_Math_Symbols_A", Blk::MiscMathSymbolsA, "Misc_Math_Symbols_A", "Miscellaneous_Mathematical_Symbols_A"),
    ("Misc_Math_Symbols_B", Blk::MiscMathSymbolsB, "Misc_Math_Symbols_B", "Miscellaneous_Mathematical_Symbols_B"),
    ("Misc_Pictographs", Blk::MiscPictographs, "Misc_Pictographs", "Miscellaneous_Symbols_And_Pictographs"),
    ("Misc_Symbols", Blk::MiscSymbols, "Misc_Symbols", "Miscellaneous_Symbols"),
    ("Misc_Technical", Blk::MiscTechnical, "Misc_Technical", "Miscellaneous_Technical"),
    ("Modi", Blk::Modi, "Modi", "Modi"),
    ("Modifier_Letters", Blk::ModifierLetters, "Modifier_Letters", "Spacing_Modifier_Letters"),
    ("Modifier_Tone_Letters", Blk::ModifierToneLetters, "Modifier_Tone_Letters", "Modifier_Tone_Letters"),
    ("Mongolian", Blk::Mongolian, "Mongolian", "Mongolian"),
    ("Mongolian_Sup", Blk::MongolianSup, "Mongolian_Sup", "Mongolian_Supplement"),
    ("Mro", Blk::Mro, "Mro", "Mro"),
    ("Multani", Blk::Multani, "Multani", "Multani"),
    ("Music", Blk::Music, "Music", "Musical_Symbols"),
    ("Myanmar", Blk::Myanmar, "Myanmar", "Myanmar"),
    ("Myanmar_Ext_A", Blk::MyanmarExtA, "Myanmar_Ext_A", "Myanmar_Extended_A"),
    ("Myanmar_Ext_B", Blk::MyanmarExtB, "Myanmar_Ext_B", "Myanmar_Extended_B"),
    ("Nabataean", Blk::Nabataean, "Nabataean", "Nabataean"),
    ("Nag_Mundari", Blk::NagMundari, "Nag_Mundari", "Nag_Mundari"),
    ("Nandinagari", Blk::Nandinagari, "Nandinagari", "Nandinagari"),
    ("NB", Blk::Nb, "NB", "No_Block"),
    ("New_Tai_Lue", Blk::NewTaiLue, "New_Tai_Lue", "New_Tai_Lue"),
    ("Newa", Blk::Newa, "Newa", "Newa"),
    ("NKo", Blk::Nko, "NKo", "NKo"),
    ("Number_Forms", Blk::NumberForms, "Number_Forms", "Number_Forms"),
    ("Nushu", Blk::Nushu, "Nushu", "Nushu"),
    ("Nyiakeng_Puachue_Hmong", Blk::NyiakengPuachueHmong, "Nyiakeng_Puachue_Hmong", "Nyiakeng_Puachue_Hmong"),
    ("OCR", Blk::Ocr, "OCR", "Optical_Character_Recognition"),
    ("Ogham", Blk::Ogham, "Ogham", "Ogham"),
    ("Ol_Chiki", Blk::OlChiki, "Ol_Chiki", "Ol_Chiki"),
    ("Old_Hungarian", Blk::OldHungarian, "Old_Hungarian", "Old_Hungarian"),
    ("Old_Italic", Blk::OldItalic, "Old_Italic", "Old_Italic"),
    ("Old_North_Arabian", Blk::OldNorthArabian, "Old_North_Arabian", "Old_North_Arabian"),
    ("Old_Permic", Blk::OldPermic, "Old_Permic", "Old_Permic"),
    ("Old_Persian", Blk::OldPersian, "Old_Persian", "Old_Persian"),
    ("Old_Sogdian", Blk::OldSogdian, "Old_Sogdian", "Old_Sogdian"),
    ("Old_South_Arabian", Blk::OldSouthArabian, "Old_South_Arabian", "Old_South_Arabian"),
    ("Old_Turkic", Blk::OldTurkic, "Old_Turkic", "Old_Turkic"),
    ("Old_Uyghur", Blk::OldUyghur, "Old_Uyghur", "Old_Uyghur"),
    ("Oriya", Blk::Oriya, "Oriya", "Oriya"),
    ("Ornamental_Dingbats", Blk::OrnamentalDingbats, "Ornamental_Dingbats", "Ornamental_Dingbats"),
    ("Osage", Blk::Osage, "Osage", "Osage"),
    ("Osmanya", Blk::Osmanya, "Osmanya", "Osmanya"),
    ("Ottoman_Siyaq_Numbers", Blk::OttomanSiyaqNumbers, "Ottoman_Siyaq_Numbers", "Ottoman_Siyaq_Numbers"),
    ("Pahawh_Hmong", Blk::PahawhHmong, "Pahawh_Hmong", "Pahawh_Hmong"),
    ("Palmyrene", Blk::Palmyrene, "Palmyrene", "Palmyrene"),
    ("Pau_Cin_Hau", Blk::PauCinHau, "Pau_Cin_Hau", "Pau_Cin_Hau"),
    ("Phags_Pa", Blk::PhagsPa, "Phags_Pa", "Phags_Pa"),
    ("Phaistos", Blk::Phaistos, "Phaistos", "Phaistos_Disc"),
    ("Phoenician", Blk::Phoenician, "Phoenician", "Phoenician"),
    ("Phonetic_Ext", Blk::PhoneticExt, "Phonetic_Ext", "Phonetic_Extensions"),
    ("Phonetic_Ext_Sup", Blk::PhoneticExtSup, "Phonetic_Ext_Sup", "Phonetic_Extensions_Supplement"),
    ("Playing_Cards", Blk::PlayingCards, "Playing_Cards", "Playing_Cards"),
    ("Psalter_Pahlavi", Blk::PsalterPahlavi, "Psalter_Pahlavi", "Psalter_Pahlavi"),
    ("PUA", Blk::Pua, "PUA", "Private_Use_Area"),
    ("Punctuation", Blk::Punctuation, "Punctuation", "General_Punctuation"),
    ("Rejang", Blk::Rejang, "Rejang", "Rejang"),
    ("Rumi", Blk::Rumi, "Rumi", "Rumi_Numeral_Symbols"),
    ("Runic", Blk::Runic, "Runic", "Runic"),
    ("Samaritan", Blk::Samaritan, "Samaritan", "Samaritan"),
    ("Saurashtra", Blk::Saurashtra, "Saurashtra", "Saurashtra"),
    ("Sharada", Blk::Sharada, "Sharada", "Sharada"),
    ("Shavian", Blk::Shavian, "Shavian", "Shavian"),
    ("Shorthand_Format_Controls", Blk::ShorthandFormatControls, "Shorthand_Format_Controls", "Shorthand_Format_Controls"),
    ("Siddham", Blk::Siddham, "Siddham", "Siddham"),
    ("Sinhala", Blk::Sinhala, "Sinhala", "Sinhala"),
    ("Sinhala_Archaic_Numbers", Blk::SinhalaArchaicNumbers, "Sinhala_Archaic_Numbers", "Sinhala_Archaic_Numbers"),
    ("Small_Forms", Blk::SmallForms, "Small_Forms", "Small_Form_Variants"),
    ("Small_Kana_Ext", Blk::SmallKanaExt, "Small_Kana_Ext", "Small_Kana_Extension"),
    ("Sogdian", Blk::Sogdian, "Sogdian", "Sogdian"),
    ("Sora_Sompeng", Blk::SoraSompeng, "Sora_Sompeng", "Sora_Sompeng"),
    ("Soyombo", Blk::Soyombo, "Soyombo", "Soyombo"),
    ("Specials", Blk::Specials, "Specials", "Specials"),
    ("Sundanese", Blk::Sundanese, "Sundanese", "Sundanese"),
    ("Sundanese_Sup", Blk::SundaneseSup, "Sundanese_Sup", "Sundanese_Supplement"),
    ("Sup_Arrows_A", Blk::SupArrowsA, "Sup_Arrows_A", "Supplemental_Arrows_A"),
    ("Sup_Arrows_B", Blk::SupArrowsB, "Sup_Arrows_B", "Supplemental_Arrows_B"),
    ("Sup_Arrows_C", Blk::SupArrowsC, "Sup_Arrows_C", "Supplemental_Arrows_C"),
    ("Sup_Math_Operators", Blk::SupMathOperators, "Sup_Math_Operators", "Supplemental_Mathematical_Operators"),
    ("Sup_PUA_A", Blk::SupPuaA, "Sup_PUA_A", "Supplementary_Private_Use_Area_A"),
    ("Sup_PUA_B", Blk::SupPuaB, "Sup_PUA_B", "Supplementary_Private_Use_Area_B"),
    ("Sup_Punctuation", Blk::SupPunctuation, "Sup_Punctuation", "Supplemental_Punctuation"),
    ("Sup_Symbols_And_Pictographs", Blk::SupSymbolsAndPictographs, "Sup_Symbols_And_Pictographs", "Supplemental_Symbols_And_Pictographs"),
    ("Super_And_Sub", Blk::SuperAndSub, "Super_And_Sub", "Superscripts_And_Subscripts"),
    ("Sutton_SignWriting", Blk::SuttonSignwriting, "Sutton_SignWriting", "Sutton_SignWriting"),
    ("Syloti_Nagri", Blk::SylotiNagri, "Syloti_Nagri", "Syloti_Nagri"),
    ("Symbols_And_Pictographs_Ext_A", Blk::SymbolsAndPictographsExtA, "Symbols_And_Pictographs_Ext_A", "Symbols_And_Pictographs_Extended_A"),
    ("Symbols_For_Legacy_Computing", Blk::SymbolsForLegacyComputing, "Symbols_For_Legacy_Computing", "Symbols_For_Legacy_Computing"),
    ("Syriac", Blk::Syriac, "Syriac", "Syriac"),
    ("Syriac_Sup", Blk::SyriacSup, "Syriac_Sup", "Syriac_Supplement"),
    ("Tagalog", Blk::Tagalog, "Tagalog", "Tagalog"),
    ("Tagbanwa", Blk::Tagbanwa, "Tagbanwa", "Tagbanwa"),
    ("Tags", Blk::Tags, "Tags", "Tags"),
    ("Tai_Le", Blk::TaiLe, "Tai_Le", "Tai_Le"),
    ("Tai_Tham", Blk::TaiTham, "Tai_Tham", "Tai_Tham"),
    ("Tai_Viet", Blk::TaiViet, "Tai_Viet", "Tai_Viet"),
    ("Tai_Xuan_Jing", Blk::TaiXuanJing, "Tai_Xuan_Jing", "Tai_Xuan_Jing_Symbols"),
    ("Takri", Blk::Takri, "Takri", "Takri"),
    ("Tamil", Blk::Tamil, "Tamil", "Tamil"),
    ("Tamil_Sup", Blk::TamilSup, "Tamil_Sup", "Tamil_Supplement"),
    ("Tangsa", Blk::Tangsa, "Tangsa", "Tangsa"),
    ("Tangut", Blk::Tangut, "Tangut", "Tangut"),
    ("Tangut_Components", Blk::TangutComponents, "Tangut_Components", "Tangut_Components"),
    ("Tangut_Sup", Blk::TangutSup, "Tangut_Sup", "Tangut_Supplement"),
    ("Telugu", Blk::Telugu, "Telugu", "Telugu"),
    ("Thaana", Blk::Thaana, "Thaana", "Thaana"),
    ("Thai", Blk::Thai, "Thai", "Thai"),
    ("Tibetan", Blk::Tibetan, "Tibetan", "Tibetan"),
    ("Tifinagh", Blk::Tifinagh, "Tifinagh", "Tifinagh"),
    ("Tirhuta", Blk::Tirhuta, "Tirhuta", "Tirhuta"),
    ("Toto", Blk::Toto, "Toto", "Toto"),
    ("Transport_And_Map", Blk::TransportAndMap, "Transport_And_Map", "Transport_And_Map_Symbols"),
    ("UCAS", Blk::Ucas, "UCAS", "Unified_Canadian_Aboriginal_Syllabics"),
    ("UCAS_Ext", Blk::UcasExt, "UCAS_Ext", "Unified_Canadian_Aboriginal_Syllabics_Extended"),
    ("UCAS_Ext_A", Blk::UcasExtA, "UCAS_Ext_A", "Unified_Canadian_Aboriginal_Syllabics_Extended_A"),
    ("Ugaritic", Blk::Ugaritic, "Ugaritic", "Ugaritic"),
    ("Vai", Blk::Vai, "Vai", "Vai"),
    ("Vedic_Ext", Blk::VedicExt, "Vedic_Ext", "Vedic_Extensions"),
    ("Vertical_Forms", Blk::VerticalForms, "Vertical_Forms", "Vertical_Forms"),
    ("Vithkuqi", Blk::Vithkuqi, "Vithkuqi", "Vithkuqi"),
    ("VS", Blk::Vs, "VS", "Variation_Selectors"),
    ("VS_Sup", Blk::VsSup, "VS_Sup", "Variation_Selectors_Supplement"),
    ("Wancho", Blk::Wancho, "Wancho", "Wancho"),
    ("Warang_Citi", Blk::WarangCiti, "Warang_Citi", "Warang_Citi"),
    ("Yezidi", Blk::Yezidi, "Yezidi", "Yezidi"),
    ("Yi_Radicals", Blk::YiRadicals, "Yi_Radicals", "Yi_Radicals"),
    ("Yi_Syllables", Blk::YiSyllables, "Yi_Syllables", "Yi_Syllables"),
    ("Yijing", Blk::Yijing, "Yijing", "Yijing_Hexagram_Symbols"),
    ("Zanabazar_Square", Blk::ZanabazarSquare, "Zanabazar_Square", "Zanabazar_Square"),
    ("Znamenny_Music", Blk::ZnamennyMusic, "Znamenny_Music", "Znamenny_Musical_Notation"),
];

/// (oracle value, variant, abbreviated name, full name)
pub const CCC: &[(&str, Ccc, &str, &str)] = &[
    ("0", Ccc::NR, "NR", "Not_Reordered"),
    ("1", Ccc::OV, "OV", "Overlay"),
    ("6", Ccc::HANR, "HANR", "Han_Reading"),
    ("7", Ccc::NK, "NK", "Nukta"),
    ("8", Ccc::KV, "KV", "Kana_Voicing"),
    ("9", Ccc::VR, "VR", "Virama"),
    ("10", Ccc::CCC10, "CCC10", "CCC10"),
    ("11", Ccc::CCC11, "CCC11", "CCC11"),
    ("12", Ccc::CCC12, "CCC12", "CCC12"),
    ("13", Ccc::CCC13, "CCC13", "CCC13"),
    ("14", Ccc::CCC14, "CCC14", "CCC14"),
    ("15", Ccc::CCC15, "CCC15", "CCC15"),
    ("16", Ccc::CCC16, "CCC16", "CCC16"),
    ("17", Ccc::CCC17, "CCC17", "CCC17"),
    ("18", Ccc::CCC18, "CCC18", "CCC18"),
    ("19", Ccc::CCC19, "CCC19", "CCC19"),
    ("20", Ccc::CCC20, "CCC20", "CCC20"),
    ("21", Ccc::CCC21, "CCC21", "CCC21"),
    ("22", Ccc::CCC22, "CCC22", "CCC22"),
    ("23", Ccc::CCC23, "CCC23", "CCC23"),
    ("24", Ccc::CCC24, "CCC24", "CCC24"),
    ("25", Ccc::CCC25, "CCC25", "CCC25"),
    ("26", Ccc::CCC26, "CCC26", "CCC26"),
    ("27", Ccc::CCC27, "CCC27", "CCC27"),
    ("28", Ccc::CCC28, "CCC28", "CCC28"),
    ("29", Ccc::CCC29, "CCC29", "CCC29"),
    ("30", Ccc::CCC30, "CCC30", "CCC30"),
    ("31", Ccc::CCC31, "CCC31", "CCC31"),
    ("32", Ccc::CCC32, "CCC32", "CCC32"),
    ("33", Ccc::CCC33, "CCC33", "CCC33"),
    ("34", Ccc::CCC34, "CCC34", "CCC34"),
    ("35", Ccc::CCC35, "CCC35", "CCC35"),
    ("36", Ccc::CCC36, "CCC36", "CCC36"),
    ("84", Ccc::CCC84, "CCC84", "CCC84"),
    ("91", Ccc::CCC91, "CCC91", "CCC91"),
    ("103", Ccc::CCC103, "CCC103", "CCC103"),
    ("107", Ccc::CCC107, "CCC107", "CCC107"),
    ("118", Ccc::CCC118, "CCC118", "CCC118"),
    ("122", Ccc::CCC122, "CCC122", "CCC122"),
    ("129", Ccc::CCC129, "CCC129", "CCC129"),
    ("130", Ccc::CCC130, "CCC130", "CCC130"),
    ("132", Ccc::CCC132, "CCC132", "CCC132"),
    ("133", Ccc::CCC133, "CCC133", "CCC133"),
    ("200", Ccc::ATBL, "ATBL", "Attached_Below_Left"),
    ("202", Ccc::ATB, "ATB", "Attached_Below"),
    ("214", Ccc::ATA, "ATA", "Attached_Above"),
    ("216", Ccc::ATAR, "ATAR", "Attached_Above_Right"),
    ("218", Ccc::BL, "BL", "Below_Left"),
    ("220", Ccc::B, "B", "Below"),
    ("222", Ccc::BR, "BR", "Below_Right"),
    ("224", Ccc::L, "L", "Left"),
    ("226", Ccc::R, "R", "Right"),
    ("228", Ccc::AL, "AL", "Above_Left"),
    ("230", Ccc::A, "A", "Above"),
    ("232", Ccc::AR, "AR", "Above_Right"),
    ("233", Ccc::DB, "DB", "Double_Below"),
    ("234", Ccc::DA, "DA", "Double_Above"),
    ("240", Ccc::IS, "IS", "Iota_Subscript"),
];
