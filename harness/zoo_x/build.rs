//! The types of `ZOO_FRESH`, a file written by `zoo.py --fresh`, or none at all.
fn main() {
    println!("cargo:rerun-if-env-changed=ZOO_FRESH");
    let to = std::env::var("OUT_DIR").unwrap() + "/gen.rs";
    let text = match std::env::var("ZOO_FRESH") {
        Ok(from) if !from.is_empty() => {
            println!("cargo:rerun-if-changed={from}");
            std::fs::read_to_string(from).unwrap()
        }
        _ => "pub fn entries() -> Vec<vcore::ops::Entry> { Vec::new() }".into(),
    };
    // an included file cannot have inner attributes
    let text: String = text.lines().filter(|l| !l.starts_with("#![")).map(|l| format!("{l}\n")).collect();
    std::fs::write(to, text).unwrap();
}
