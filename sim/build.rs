//! Takes the command line tools from the repository so that they can be modules: main made public, inner
//! attributes and documentation dropped.
use std::{env, fs, path::Path};

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    if env::var_os("CARGO_FEATURE_TOOLS").is_none() {
        return;
    }
    let manifest = fs::read_to_string("Cargo.toml").unwrap();
    let repo = manifest.lines().find(|l| l.starts_with("libopenraw")).and_then(|l| l.split('"').nth(1)).unwrap();
    for t in ["ordiag", "ordump", "metadata", "identify", "rawdata", "probe"] {
        let p = Path::new(repo).join(format!("src/bin/{t}.rs"));
        println!("cargo:rerun-if-changed={}", p.display());
        let mut out = String::new();
        for l in fs::read_to_string(&p).unwrap().lines() {
            if !l.starts_with("//!") && !l.starts_with("#![") {
                out += if l.starts_with("fn main(") { "pub " } else { "" };
                out += l;
                out.push('\n');
            }
        }
        fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join(format!("{t}.rs")), out).unwrap();
    }
}
