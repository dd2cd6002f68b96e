fn main() {
    println!("cargo:rustc-link-lib=z3");
    println!("cargo:rerun-if-changed=build.rs");
}
