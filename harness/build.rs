//! Collects the harnesses by name, for the native replay.
fn main() {
    let mut s = String::from("const LIST: &[(&str, extern \"C\" fn())] = &[\n");
    for e in std::fs::read_dir("src").unwrap() {
        let p = e.unwrap().path();
        if p.extension().map(|x| x == "rs").unwrap_or(false) {
            let m = p.file_stem().unwrap().to_str().unwrap().to_string();
            for l in std::fs::read_to_string(&p).unwrap().lines() {
                if let Some(r) = l.strip_prefix("harness! { fn ") {
                    let n = r.split('(').next().unwrap();
                    s += &format!("(\"{}\", {}::{}),\n", n, m, n);
                }
            }
        }
    }
    s += "];\n";
    std::fs::write(std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("list.rs"), s).unwrap();
    println!("cargo:rerun-if-changed=src");
}
