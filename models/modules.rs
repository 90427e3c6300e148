// Lists the modules that the example's main.rs declares, by absolute path.
fn modules(dir: &str) {
    let main = std::fs::read_to_string(format!("{dir}/main.rs")).expect("main.rs of the example");
    let mut out = String::new();
    for line in main.lines() {
        let l = line.trim().trim_start_matches("pub ").trim_start_matches("pub(crate) ");
        if let Some(m) = l.strip_prefix("mod ").and_then(|r| r.strip_suffix(';')) {
            let m = m.trim();
            let mut p = format!("{dir}/{m}.rs");
            if !std::path::Path::new(&p).exists() {
                p = format!("{dir}/{m}/mod.rs");
            }
            out += &format!("#[path = {p:?}] pub mod {m};\n");
        }
    }
    println!("cargo:rerun-if-changed={dir}");
    let o = std::env::var("OUT_DIR").unwrap();
    std::fs::write(format!("{o}/root.rs"), out).unwrap();
}
