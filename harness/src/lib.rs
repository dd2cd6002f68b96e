//! Harnesses executed symbolically (as LLVM IR) and natively (for replay).
macro_rules! harness {
    (fn $n:ident() $b:block) => {
        #[no_mangle]
        pub extern "C" fn $n() {
            $crate::spec::warm();
            $b
        }
    };
}
pub mod core;
pub mod forms;
pub mod gen;
pub mod model;
pub mod own;
pub mod scale;
pub mod script;
pub mod spec;
pub mod sx;

#[cfg(feature = "native")]
pub fn run(name: &str) {
    extern "C" { }
    for (n, f) in LIST { if *n == name { return f(); } }
    panic!("no harness {}", name)
}
#[cfg(feature = "native")]
include!(concat!(env!("OUT_DIR"), "/list.rs"));
