//! Symbolic inputs and verdicts. Under the engine these are interpreted; natively they read the
//! bytes of a counterexample (or of a sampled path) and report on stdout.

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        pub fn __sx_byte() -> u8;
        pub fn __sx_assume(c: bool);
        pub fn __sx_fail(p: *const u8, n: usize) -> !;
        pub fn __sx_concretize(x: u64) -> u64;
        pub fn __sx_cover(i: u64);
        pub fn __sx_tier() -> u64;
        pub fn __sx_emit(p: *const u8, n: usize);
        pub fn __sx_prune() -> !;
        pub fn __sx_file(p: *const u8, n: usize, q: *const u8, m: usize);
    }
}

#[cfg(feature = "native")]
pub mod native {
    use std::cell::RefCell;
    thread_local! {
        pub static INPUT: RefCell<(Vec<u8>, usize)> = RefCell::new((vec![], 0));
        pub static TIER: RefCell<u64> = RefCell::new(0);
        pub static EMIT: RefCell<Vec<u8>> = RefCell::new(vec![]);
    }
    pub fn finish(kind: &str, msg: &str, code: i32) -> ! {
        let e = EMIT.with(|e| e.borrow().iter().map(|b| format!("{:02x}", b)).collect::<String>());
        println!("SX-EMIT {}", e);
        println!("SX-END {} {}", kind, msg);
        std::process::exit(code)
    }
}

/// A fresh symbolic byte.
#[inline(never)]
pub fn byte() -> u8 {
    #[cfg(not(feature = "native"))]
    unsafe {
        imp::__sx_byte()
    }
    #[cfg(feature = "native")]
    native::INPUT.with(|i| {
        let mut i = i.borrow_mut();
        let k = i.1;
        i.1 += 1;
        i.0.get(k).copied().unwrap_or(0)
    })
}
/// Restrict the inputs.
#[inline(never)]
pub fn assume(c: bool) {
    #[cfg(not(feature = "native"))]
    unsafe {
        imp::__sx_assume(c)
    }
    #[cfg(feature = "native")]
    if !c {
        native::finish("pruned", "", 0)
    }
}
#[inline(never)]
pub fn fail(msg: &str) -> ! {
    #[cfg(not(feature = "native"))]
    unsafe {
        imp::__sx_fail(msg.as_ptr(), msg.len())
    }
    #[cfg(feature = "native")]
    native::finish("assert", msg, 1)
}
/// Fork until the value is concrete.
#[inline(never)]
pub fn concrete(x: u64) -> u64 {
    #[cfg(not(feature = "native"))]
    unsafe {
        imp::__sx_concretize(x)
    }
    #[cfg(feature = "native")]
    x
}
/// 0 in the quick tier, 1 in the thorough tier: the bounds depend on it.
#[inline(never)]
pub fn tier() -> usize {
    #[cfg(not(feature = "native"))]
    unsafe {
        imp::__sx_tier() as usize
    }
    #[cfg(feature = "native")]
    native::TIER.with(|t| *t.borrow() as usize)
}
/// Reachability witness.
#[inline(never)]
pub fn cover(_i: u64) {
    #[cfg(not(feature = "native"))]
    unsafe {
        imp::__sx_cover(_i)
    }
}
/// Observation compared between the engine and the native build.
#[inline(never)]
pub fn emit(b: &[u8]) {
    #[cfg(not(feature = "native"))]
    unsafe {
        imp::__sx_emit(b.as_ptr(), b.len())
    }
    #[cfg(feature = "native")]
    native::EMIT.with(|e| e.borrow_mut().extend_from_slice(b))
}
#[inline(never)]
pub fn prune() -> ! {
    #[cfg(not(feature = "native"))]
    unsafe {
        imp::__sx_prune()
    }
    #[cfg(feature = "native")]
    native::finish("pruned", "", 0)
}

/// A file in the current directory (a scratch directory of check.py's when run natively).
#[inline(never)]
pub fn file(name: &str, body: &[u8]) {
    #[cfg(not(feature = "native"))]
    unsafe {
        imp::__sx_file(name.as_ptr(), name.len(), body.as_ptr(), body.len())
    }
    #[cfg(feature = "native")]
    {
        let p = std::path::Path::new(name);
        assert!(p.is_relative());
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, body).unwrap();
    }
}

/// Symbolic choice 0..n, concrete afterwards.
pub fn choose(n: u8) -> u8 {
    let b = byte();
    assume(b < n);
    concrete(b as u64) as u8
}
pub fn flag() -> bool {
    choose(2) == 1
}
pub fn check(c: bool, msg: &str) {
    if !c {
        fail(msg)
    }
}
