use crate::explore::*;
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c22;
pub mod real;
pub mod scale;

pub const IDS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22"];

pub struct Info {
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

/// Spaces of other checks that decide a clause of this property as well.
const BORROWED: [(&str, &str, &[&str]); 7] = [
    ("C07", "C05", &["cells", "shared-revisions", "section-histories", "attachment-histories"]),
    ("C09", "C10", &["linked-entries", "subfolder-names"]),
    ("C10", "C05", &["toc-histories"]),
    ("C10", "C09", &["plain-names"]),
    ("C11", "C05", &["section-histories"]),
    ("C15", "C05", &["attachment-histories", "crossed-identifiers"]),
    ("C19", "C10", &["linked-entries", "subfolder-names"]),
];

pub fn spaces(id: &str, t: Tier) -> Vec<Space> {
    let mut v = own(id, t);
    for (_, from, names) in BORROWED.iter().filter(|x| x.0 == id) {
        let n = v.len();
        v.extend(own(from, t).into_iter().filter(|s| names.contains(&&s.name[..])));
        assert_eq!(v.len(), n + names.len(), "{id} from {from}");
    }
    v
}
fn own(id: &str, t: Tier) -> Vec<Space> {
    match id {
        "C01" => c01::spaces(t),
        "C02" => c02::spaces(t),
        "C03" => c03::spaces(t),
        "C04" => c04::spaces(t),
        "C05" => c05::spaces(t),
        "C06" => c06::spaces(t),
        "C07" => c07::spaces(t),
        "C08" => c08::spaces(t),
        "C09" => c09::spaces(t),
        "C10" => c10::spaces(t),
        "C11" => c11::spaces(t),
        "C12" => c12::spaces(t),
        "C13" => c13::spaces(t),
        "C14" => c14::spaces(t),
        "C15" => c15::spaces(t),
        "C16" => c16::spaces(t),
        "C17" => c17::spaces(t),
        "C18" => c18::spaces(t),
        "C19" => c19::spaces(t),
        "C20" => c20::spaces(t),
        "C21" => c21::spaces(t),
        "C22" => c22::spaces(t),
        _ => vec![],
    }
}
pub fn info(_id: &str) -> Info {
    Info {
        rule: "every sequence of the listed nondeterministic choices is executed once; a state is the distinct encoded input (or directory tree and schedule) it produces, a transition one resolved choice",
        assumptions: &[
            "the encoder and reference interpreter in /verif/harness transcribe [MS-FSSHTTPB], [MS-ONESTORE], [MS-ONE] and [MS-ISF] correctly",
            "results are observed through the crate's public accessors",
        ],
    }
}
/// number of worker threads a property may use
pub fn threads(id: &str, n: usize) -> usize {
    // the working directory belongs to the whole process
    if id == "C19" { 1 } else { n }
}
