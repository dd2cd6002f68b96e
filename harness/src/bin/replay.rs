//! replay HARNESS TIER HEX: run a harness natively on concrete bytes.
use harness::sx::native;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let h = a.get(3).map(|s| s.as_str()).unwrap_or("");
    let bytes: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
    native::INPUT.with(|i| *i.borrow_mut() = (bytes, 0));
    native::TIER.with(|t| *t.borrow_mut() = a[2].parse().unwrap());
    harness::run(&a[1]);
    native::finish("done", "", 0)
}
