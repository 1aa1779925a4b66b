//! The program's own main.rs, as a module of the harness.
fn main() {
    let src = "/repo/smd/src/main.rs";
    println!("cargo:rerun-if-changed={src}");
    let text = std::fs::read_to_string(src).unwrap();
    let mut o = String::new();
    for l in text.lines() {
        let t = l.trim_start();
        // attributes and comments of the crate are not allowed in a module that is included
        if t.starts_with("#![") || t.starts_with("//!") {
            continue;
        }
        if let Some(m) = t.strip_prefix("mod ").and_then(|m| m.strip_suffix(';')) {
            o += &format!("#[path = \"/repo/smd/src/{m}.rs\"]\n");
        }
        o += l;
        o.push('\n');
    }
    o += "pub fn harness_entry() -> i32 { crate::code(main()) }\n";
    std::fs::write(std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("smd_main.rs"), o).unwrap();
}
