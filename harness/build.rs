// Collects the names of all harness entry points (`pub extern "C" fn h_*`).
use std::fmt::Write;
fn main() {
    let src = concat!(env!("CARGO_MANIFEST_DIR"), "/../harness/src");
    let mut names = vec![];
    for e in std::fs::read_dir(src).unwrap() {
        let p = e.unwrap().path();
        if p.extension().map_or(false, |x| x == "rs") && (std::env::var("CARGO_FEATURE_RPC").is_ok() || !p.ends_with("rpc.rs")) {
            println!("cargo:rerun-if-changed={}", p.display());
            for l in std::fs::read_to_string(&p).unwrap().lines() {
                if let Some(r) = l.trim().strip_prefix("pub extern \"C\" fn h_") {
                    let n = format!("h_{}", r.split('(').next().unwrap());
                    names.push((p.file_stem().unwrap().to_str().unwrap().to_string(), n));
                }
            }
        }
    }
    println!("cargo:rerun-if-changed={src}");
    names.sort();
    let mut o = String::from("pub fn find(n: &str) -> Option<extern \"C\" fn()> {\n    match n {\n");
    for (m, n) in names {
        writeln!(o, "        \"{n}\" => Some(crate::{m}::{n}),").unwrap();
    }
    o += "        _ => None,\n    }\n}\n";
    std::fs::write(std::env::var("OUT_DIR").unwrap() + "/registry.rs", o).unwrap();
}
