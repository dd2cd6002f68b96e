//! Hash-consed bit-vector expressions over symbolic input bytes.
//!
//! One arena per process. Expressions never die; identical expressions share an id.

use crate::fx::FxMap;
use std::rc::Rc;

pub type E = u32;
pub const NOE: E = u32::MAX;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Var,
    Const,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    ZExt,
    SExt,
    /// Extract w bits of `a` starting at bit `k`.
    Ext,
    /// a = high part, b = low part.
    Concat,
    /// table `k` (index in `Arena::tabs`) looked up with an 8 bit index `a`.
    Tab,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Key {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

#[derive(Clone, Copy)]
pub struct Node {
    pub key: Key,
    pub vars: u128,
}

pub type Bits = [u64; 4];

pub struct Arena {
    pub nodes: Vec<Node>,
    map: FxMap<Key, E>,
    pub tabs: Vec<Rc<[u64; 256]>>,
    tabmap: FxMap<Vec<u64>, u32>,
    single: FxMap<E, Option<Rc<[u64; 256]>>>,
    canon: FxMap<(u8, Bits), E>,
    pub nvars: u32,
    // evaluation memo
    ev_gen: Vec<u32>,
    ev_val: Vec<u128>,
    gen: u32,
}

static mut ARENA: *mut Arena = std::ptr::null_mut();

#[inline(always)]
pub fn ar() -> &'static mut Arena {
    unsafe { &mut *ARENA }
}

pub fn init() {
    let a = Box::new(Arena {
        nodes: Vec::new(),
        map: Default::default(),
        tabs: Vec::new(),
        tabmap: Default::default(),
        single: Default::default(),
        canon: Default::default(),
        nvars: 0,
        ev_gen: Vec::new(),
        ev_val: Vec::new(),
        gen: 0,
    });
    unsafe { ARENA = Box::into_raw(a) };
}

#[inline(always)]
pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

#[inline(always)]
pub fn sext(v: u128, w: u16) -> i128 {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

pub fn n(e: E) -> &'static Node {
    unsafe { &*(ar().nodes.as_ptr().add(e as usize)) }
}
pub fn k(e: E) -> Key {
    n(e).key
}
pub fn width(e: E) -> u16 {
    n(e).key.w
}
pub fn cst(e: E) -> Option<u128> {
    let x = n(e);
    if x.key.op == Op::Const {
        Some(x.key.k)
    } else {
        None
    }
}

fn intern(key: Key) -> E {
    let a = ar();
    if let Some(&e) = a.map.get(&key) {
        return e;
    }
    let vars = match key.op {
        Op::Var => 1u128 << key.k,
        Op::Const => 0,
        _ => {
            let mut v = 0;
            if key.a != NOE {
                v |= n(key.a).vars;
            }
            if key.b != NOE {
                v |= n(key.b).vars;
            }
            if key.c != NOE {
                v |= n(key.c).vars;
            }
            v
        }
    };
    let id = a.nodes.len() as E;
    a.nodes.push(Node { key, vars });
    a.map.insert(key, id);
    id
}

pub fn var(i: u32) -> E {
    assert!(i < 128, "too many symbolic bytes");
    let a = ar();
    if i >= a.nvars {
        a.nvars = i + 1;
    }
    intern(Key { op: Op::Var, w: 8, a: NOE, b: NOE, c: NOE, k: i as u128 })
}
pub fn con(w: u16, v: u128) -> E {
    intern(Key { op: Op::Const, w, a: NOE, b: NOE, c: NOE, k: v & mask(w) })
}
fn raw(op: Op, w: u16, a: E, b: E) -> E {
    let e = intern(Key { op, w, a, b, c: NOE, k: 0 });
    if w == 1 {
        canon_bool(e)
    } else {
        e
    }
}

/// Boolean over one byte: fold to a constant / canonical representative by its truth set.
fn canon_bool(e: E) -> E {
    let v = n(e).vars;
    if v.count_ones() != 1 {
        return e;
    }
    if let Some(bits) = bool_bits(e) {
        if bits == [0; 4] {
            return con(1, 0);
        }
        if bits == [u64::MAX; 4] {
            return con(1, 1);
        }
        let var = v.trailing_zeros() as u8;
        return *ar().canon.entry((var, bits)).or_insert(e);
    }
    e
}

/// truth set of a single-variable boolean
pub fn bool_bits(e: E) -> Option<Bits> {
    let t = table(e)?;
    let mut b = [0u64; 4];
    for i in 0..256 {
        if t[i] & 1 != 0 {
            b[i >> 6] |= 1 << (i & 63);
        }
    }
    Some(b)
}

/// value table of a single-variable expression (width <= 64 all the way down)
pub fn table(e: E) -> Option<Rc<[u64; 256]>> {
    let nd = *n(e);
    if nd.key.w > 64 {
        return None;
    }
    if nd.vars.count_ones() > 1 {
        return None;
    }
    if let Some(t) = ar().single.get(&e) {
        return t.clone();
    }
    let r = table_compute(&nd);
    ar().single.insert(e, r.clone());
    r
}

fn table_compute(nd: &Node) -> Option<Rc<[u64; 256]>> {
    let key = nd.key;
    let mut out = [0u64; 256];
    match key.op {
        Op::Const => out = [key.k as u64; 256],
        Op::Var => {
            for i in 0..256 {
                out[i] = i as u64;
            }
        }
        _ => {
            // wide children: evaluate directly
            let kids = [key.a, key.b, key.c];
            let mut ts: [Option<Rc<[u64; 256]>>; 3] = [None, None, None];
            let mut wide = false;
            for (i, &c) in kids.iter().enumerate() {
                if c != NOE {
                    match table(c) {
                        Some(t) => ts[i] = Some(t),
                        None => wide = true,
                    }
                }
            }
            if wide {
                let v = nd.vars.trailing_zeros() as usize;
                let e = intern(key);
                let mut model = vec![0u8; 128];
                for i in 0..256 {
                    model[v] = i as u8;
                    out[i] = eval(e, &model) as u64;
                }
            } else {
                for i in 0..256 {
                    let a = ts[0].as_ref().map(|t| t[i]).unwrap_or(0) as u128;
                    let b = ts[1].as_ref().map(|t| t[i]).unwrap_or(0) as u128;
                    let c = ts[2].as_ref().map(|t| t[i]).unwrap_or(0) as u128;
                    out[i] = apply(&key, a, b, c) as u64;
                }
            }
        }
    }
    Some(Rc::new(out))
}

pub fn apply(key: &Key, a: u128, b: u128, c: u128) -> u128 {
    let w = key.w;
    let m = mask(w);
    match key.op {
        Op::Var | Op::Const => unreachable!(),
        Op::Ite => {
            if a & 1 != 0 {
                b
            } else {
                c
            }
        }
        Op::ZExt => a,
        Op::SExt => (sext(a, width(key.a)) as u128) & m,
        Op::Ext => (a >> key.k) & m,
        Op::Concat => ((a << width(key.b)) | b) & m,
        Op::Tab => ar().tabs[key.k as usize][(a & 255) as usize] as u128,
        Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => cmp_c(key.op, width(key.a), a, b) as u128,
        _ => bin_c(key.op, w, a, b),
    }
}

pub fn cmp_c(op: Op, w: u16, a: u128, b: u128) -> bool {
    match op {
        Op::Eq => a == b,
        Op::Ult => a < b,
        Op::Ule => a <= b,
        Op::Slt => sext(a, w) < sext(b, w),
        Op::Sle => sext(a, w) <= sext(b, w),
        _ => unreachable!(),
    }
}

/// Concrete semantics, identical to SMT-LIB bit-vectors.
pub fn bin_c(op: Op, w: u16, a: u128, b: u128) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                x as u128
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
            (sext(a, w) >> s) as u128
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        _ => unreachable!(),
    };
    r & m
}

pub fn not(e: E) -> E {
    let key = k(e);
    debug_assert_eq!(key.w, 1);
    match key.op {
        Op::Const => con(1, key.k ^ 1),
        Op::Xor if cst(key.b) == Some(1) => key.a,
        Op::Ult => cmp(Op::Ule, key.b, key.a),
        Op::Ule => cmp(Op::Ult, key.b, key.a),
        Op::Slt => cmp(Op::Sle, key.b, key.a),
        Op::Sle => cmp(Op::Slt, key.b, key.a),
        _ => raw(Op::Xor, 1, e, con(1, 1)),
    }
}

fn umax(e: E, depth: u32) -> u128 {
    let key = k(e);
    if depth == 0 {
        return mask(key.w);
    }
    match key.op {
        Op::Const => key.k,
        Op::ZExt => umax(key.a, depth - 1),
        Op::And => umax(key.a, depth - 1).min(umax(key.b, depth - 1)),
        Op::Tab => *ar().tabs[key.k as usize].iter().max().unwrap() as u128,
        Op::Ite => umax(key.b, depth - 1).max(umax(key.c, depth - 1)),
        Op::Concat => (umax(key.a, depth - 1) << width(key.b)) | mask(width(key.b)),
        Op::URem => {
            if let Some(c) = cst(key.b) {
                if c > 0 {
                    return c - 1;
                }
            }
            mask(key.w)
        }
        _ => mask(key.w),
    }
}

pub fn bin(op: Op, a: E, b: E) -> E {
    let w = width(a);
    debug_assert_eq!(w, width(b));
    let (ca, cb) = (cst(a), cst(b));
    if let (Some(x), Some(y)) = (ca, cb) {
        return con(w, bin_c(op, w, x, y));
    }
    let m = mask(w);
    // commutative: constant on the right, then by id
    let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor);
    if comm {
        if ca.is_some() {
            return bin(op, b, a);
        }
        if cb.is_none() && a > b {
            return bin(op, b, a);
        }
    }
    let ka = k(a);
    let kb = k(b);
    if w == 1 {
        match op {
            Op::Add | Op::Sub => return bin(Op::Xor, a, b),
            Op::Mul => return bin(Op::And, a, b),
            _ => {}
        }
    }
    match op {
        Op::Add => {
            if cb == Some(0) {
                return a;
            }
            if let Some(y) = cb {
                if ka.op == Op::Add {
                    if let Some(x) = cst(ka.b) {
                        return bin(Op::Add, ka.a, con(w, x.wrapping_add(y)));
                    }
                }
                if ka.op == Op::Ite {
                    if let (Some(p), Some(q)) = (cst(ka.b), cst(ka.c)) {
                        return ite(ka.a, con(w, p.wrapping_add(y)), con(w, q.wrapping_add(y)));
                    }
                }
            }
        }
        Op::Sub => {
            if a == b {
                return con(w, 0);
            }
            if let Some(y) = cb {
                return bin(Op::Add, a, con(w, y.wrapping_neg()));
            }
            // (x + c) - x
            if ka.op == Op::Add && ka.a == b {
                return ka.b;
            }
        }
        Op::Mul => {
            if cb == Some(0) {
                return b;
            }
            if cb == Some(1) {
                return a;
            }
            if let Some(y) = cb {
                if y.is_power_of_two() {
                    return bin(Op::Shl, a, con(w, y.trailing_zeros() as u128));
                }
            }
        }
        Op::UDiv => {
            if let Some(y) = cb {
                if y == 1 {
                    return a;
                }
                if y.is_power_of_two() {
                    return bin(Op::LShr, a, con(w, y.trailing_zeros() as u128));
                }
            }
        }
        Op::URem => {
            if let Some(y) = cb {
                if y.is_power_of_two() {
                    return bin(Op::And, a, con(w, y - 1));
                }
            }
        }
        Op::And => {
            if a == b {
                return a;
            }
            if let Some(y) = cb {
                if y == 0 {
                    return b;
                }
                if y == m {
                    return a;
                }
                if ka.op == Op::ZExt {
                    let iw = width(ka.a);
                    return zext(w, bin(Op::And, ka.a, con(iw, y)));
                }
                // low mask = extract + zext
                if (y + 1).is_power_of_two() {
                    let t = (y + 1).trailing_zeros() as u16;
                    if ka.op == Op::Concat || ka.op == Op::Or || ka.op == Op::Add {
                        return zext(w, ext(a, 0, t));
                    }
                }
                if ka.op == Op::And {
                    if let Some(x) = cst(ka.b) {
                        return bin(Op::And, ka.a, con(w, x & y));
                    }
                }
                if ka.op == Op::Ite {
                    if let (Some(p), Some(q)) = (cst(ka.b), cst(ka.c)) {
                        return ite(ka.a, con(w, p & y), con(w, q & y));
                    }
                }
            }
            if w == 1 && (not(a) == b) {
                return con(1, 0);
            }
        }
        Op::Or => {
            if a == b {
                return a;
            }
            if let Some(y) = cb {
                if y == 0 {
                    return a;
                }
                if y == m {
                    return b;
                }
                if ka.op == Op::Ite {
                    if let (Some(p), Some(q)) = (cst(ka.b), cst(ka.c)) {
                        return ite(ka.a, con(w, p | y), con(w, q | y));
                    }
                }
            }
            if w == 1 && (not(a) == b) {
                return con(1, 1);
            }
            if w > 1 {
                if let Some(r) = or_concat(a, b, w).or_else(|| or_concat(b, a, w)) {
                    return r;
                }
            }
        }
        Op::Xor => {
            if a == b {
                return con(w, 0);
            }
            if let Some(y) = cb {
                if y == 0 {
                    return a;
                }
                if w == 1 {
                    return not(a);
                }
                if ka.op == Op::Xor {
                    if let Some(x) = cst(ka.b) {
                        return bin(Op::Xor, ka.a, con(w, x ^ y));
                    }
                }
            }
        }
        Op::Shl => {
            if let Some(y) = cb {
                if y == 0 {
                    return a;
                }
                if y >= w as u128 {
                    return con(w, 0);
                }
                let y = y as u16;
                return concat(ext(a, 0, w - y), con(y, 0));
            }
        }
        Op::LShr => {
            if let Some(y) = cb {
                if y == 0 {
                    return a;
                }
                if y >= w as u128 {
                    return con(w, 0);
                }
                let y = y as u16;
                return zext(w, ext(a, y, w - y));
            }
        }
        Op::AShr => {
            if let Some(y) = cb {
                if y == 0 {
                    return a;
                }
                let y = y.min(w as u128 - 1) as u16;
                return sext_e(w, ext(a, y, w - y));
            }
        }
        _ => {}
    }
    let _ = kb;
    raw(op, w, a, b)
}

/// Or(Concat(x, 0_k), ZExt(y)) with y fitting k bits => Concat(x, zext(y))
fn or_concat(a: E, b: E, w: u16) -> Option<E> {
    let ka = k(a);
    if ka.op != Op::Concat || cst(ka.b) != Some(0) {
        // ZExt(Concat(x,0))
        if ka.op == Op::ZExt {
            let ki = k(ka.a);
            if ki.op == Op::Concat && cst(ki.b) == Some(0) {
                let lo = width(ki.b);
                if umax(b, 6) <= mask(lo) {
                    let low = ext(b, 0, lo);
                    return Some(zext(w, concat(ki.a, low)));
                }
            }
        }
        return None;
    }
    let lo = width(ka.b);
    if umax(b, 6) <= mask(lo) {
        return Some(concat(ka.a, ext(b, 0, lo)));
    }
    None
}

pub fn cmp(op: Op, a: E, b: E) -> E {
    let w = width(a);
    debug_assert_eq!(w, width(b));
    let (ca, cb) = (cst(a), cst(b));
    if let (Some(x), Some(y)) = (ca, cb) {
        return con(1, cmp_c(op, w, x, y) as u128);
    }
    if a == b {
        return con(1, matches!(op, Op::Eq | Op::Ule | Op::Sle) as u128);
    }
    let ka = k(a);
    let kb = k(b);
    match op {
        Op::Eq => {
            if ca.is_some() || (cb.is_none() && a > b) {
                return cmp(op, b, a);
            }
            if let Some(y) = cb {
                if w == 1 {
                    return if y == 1 { a } else { not(a) };
                }
                match ka.op {
                    Op::ZExt => {
                        let iw = width(ka.a);
                        return if y > mask(iw) { con(1, 0) } else { cmp(Op::Eq, ka.a, con(iw, y)) };
                    }
                    Op::SExt => {
                        let iw = width(ka.a);
                        let t = y & mask(iw);
                        return if (sext(t, iw) as u128) & mask(w) != y { con(1, 0) } else { cmp(Op::Eq, ka.a, con(iw, t)) };
                    }
                    Op::Add => {
                        if let Some(x) = cst(ka.b) {
                            return cmp(Op::Eq, ka.a, con(w, y.wrapping_sub(x)));
                        }
                    }
                    Op::Xor => {
                        if let Some(x) = cst(ka.b) {
                            return cmp(Op::Eq, ka.a, con(w, y ^ x));
                        }
                    }
                    Op::Sub => {
                        if y == 0 {
                            return cmp(Op::Eq, ka.a, ka.b);
                        }
                    }
                    Op::Concat => {
                        let lw = width(ka.b);
                        let hw = width(ka.a);
                        let h = cmp(Op::Eq, ka.a, con(hw, y >> lw));
                        let l = cmp(Op::Eq, ka.b, con(lw, y));
                        return bin(Op::And, h, l);
                    }
                    Op::Ite => {
                        let (p, q) = (cst(ka.b), cst(ka.c));
                        if let (Some(p), Some(q)) = (p, q) {
                            return match (p == y, q == y) {
                                (true, true) => con(1, 1),
                                (true, false) => ka.a,
                                (false, true) => not(ka.a),
                                (false, false) => con(1, 0),
                            };
                        }
                        if p.is_some() || q.is_some() {
                            let t = cmp(Op::Eq, ka.b, b);
                            let f = cmp(Op::Eq, ka.c, b);
                            return ite(ka.a, t, f);
                        }
                    }
                    _ => {}
                }
            }
            if ka.op == Op::ZExt && kb.op == Op::ZExt && width(ka.a) == width(kb.a) {
                return cmp(Op::Eq, ka.a, kb.a);
            }
            if ka.op == Op::Concat && kb.op == Op::Concat && width(ka.a) == width(kb.a) {
                let h = cmp(Op::Eq, ka.a, kb.a);
                let l = cmp(Op::Eq, ka.b, kb.b);
                return bin(Op::And, h, l);
            }
        }
        Op::Ult | Op::Ule => {
            if ka.op == Op::ZExt && kb.op == Op::ZExt && width(ka.a) == width(kb.a) {
                return cmp(op, ka.a, kb.a);
            }
            if let Some(y) = cb {
                let um = umax(a, 6);
                if (op == Op::Ult && um < y) || (op == Op::Ule && um <= y) {
                    return con(1, 1);
                }
                if op == Op::Ult && y == 0 {
                    return con(1, 0);
                }
                if (op == Op::Ult && y == 1) || (op == Op::Ule && y == 0) {
                    return cmp(Op::Eq, a, con(w, 0));
                }
                if ka.op == Op::ZExt {
                    let iw = width(ka.a);
                    return cmp(op, ka.a, con(iw, y));
                }
                if ka.op == Op::Ite {
                    if let (Some(p), Some(q)) = (cst(ka.b), cst(ka.c)) {
                        return ite(ka.a, con(1, cmp_c(op, w, p, y) as u128), con(1, cmp_c(op, w, q, y) as u128));
                    }
                }
            }
            if let Some(x) = ca {
                let um = umax(b, 6);
                if (op == Op::Ult && x >= um) || (op == Op::Ule && x > um) {
                    return con(1, 0);
                }
                if op == Op::Ule && x == 0 {
                    return con(1, 1);
                }
                if op == Op::Ult && x == 0 {
                    let z = cmp(Op::Eq, b, con(w, 0));
                    return if cst(z).is_some() { not(z) } else { raw(Op::Xor, 1, z, con(1, 1)) };
                }
                if kb.op == Op::ZExt {
                    let iw = width(kb.a);
                    return cmp(op, con(iw, x), kb.a);
                }
                if kb.op == Op::Ite {
                    if let (Some(p), Some(q)) = (cst(kb.b), cst(kb.c)) {
                        return ite(kb.a, con(1, cmp_c(op, w, x, p) as u128), con(1, cmp_c(op, w, x, q) as u128));
                    }
                }
            }
        }
        Op::Slt | Op::Sle => {
            let half = 1u128 << (w - 1);
            // both known non-negative => unsigned
            if umax(a, 6) < half && umax(b, 6) < half {
                return cmp(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
            }
            if ka.op == Op::SExt && kb.op == Op::SExt && width(ka.a) == width(kb.a) {
                return cmp(op, ka.a, kb.a);
            }
        }
        _ => unreachable!(),
    }
    raw(op, 1, a, b)
}

pub fn ite(c: E, t: E, f: E) -> E {
    if t == f {
        return t;
    }
    match cst(c) {
        Some(1) => return t,
        Some(_) => return f,
        None => {}
    }
    let w = width(t);
    debug_assert_eq!(w, width(f));
    if w == 1 {
        match (cst(t), cst(f)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return bin(Op::Or, c, f),
            (Some(0), None) => return bin(Op::And, not(c), f),
            (None, Some(0)) => return bin(Op::And, c, t),
            (None, Some(1)) => return bin(Op::Or, not(c), t),
            _ => {}
        }
    }
    let kc = k(c);
    if kc.op == Op::Xor && cst(kc.b) == Some(1) {
        return ite(kc.a, f, t);
    }
    // ite(c, ite(c,x,_), y)
    let kt = k(t);
    if kt.op == Op::Ite && kt.a == c {
        return ite(c, kt.b, f);
    }
    let kf = k(f);
    if kf.op == Op::Ite && kf.a == c {
        return ite(c, t, kf.c);
    }
    let e = intern(Key { op: Op::Ite, w, a: c, b: t, c: f, k: 0 });
    if w == 1 {
        canon_bool(e)
    } else {
        e
    }
}

pub fn zext(w: u16, e: E) -> E {
    let key = k(e);
    if key.w == w {
        return e;
    }
    match key.op {
        Op::Const => return con(w, key.k),
        Op::ZExt => return zext(w, key.a),
        Op::Ite => {
            if let (Some(p), Some(q)) = (cst(key.b), cst(key.c)) {
                return ite(key.a, con(w, p), con(w, q));
            }
        }
        _ => {}
    }
    intern(Key { op: Op::ZExt, w, a: e, b: NOE, c: NOE, k: 0 })
}

pub fn sext_e(w: u16, e: E) -> E {
    let key = k(e);
    if key.w == w {
        return e;
    }
    match key.op {
        Op::Const => return con(w, sext(key.k, key.w) as u128),
        Op::SExt => return sext_e(w, key.a),
        Op::ZExt => return zext(w, key.a),
        Op::Ite => {
            if let (Some(p), Some(q)) = (cst(key.b), cst(key.c)) {
                return ite(key.a, con(w, sext(p, key.w) as u128), con(w, sext(q, key.w) as u128));
            }
        }
        _ => {}
    }
    intern(Key { op: Op::SExt, w, a: e, b: NOE, c: NOE, k: 0 })
}

/// extract `w` bits from bit `lo`
pub fn ext(e: E, lo: u16, w: u16) -> E {
    let key = k(e);
    if lo == 0 && w == key.w {
        return e;
    }
    debug_assert!(lo + w <= key.w);
    match key.op {
        Op::Const => return con(w, key.k >> lo),
        Op::Ext => return ext(key.a, lo + key.k as u16, w),
        Op::ZExt => {
            let iw = width(key.a);
            if lo >= iw {
                return con(w, 0);
            }
            if lo + w <= iw {
                return ext(key.a, lo, w);
            }
            return zext(w, ext(key.a, lo, iw - lo));
        }
        Op::SExt => {
            let iw = width(key.a);
            if lo + w <= iw {
                return ext(key.a, lo, w);
            }
            if lo == 0 {
                return sext_e(w, key.a);
            }
        }
        Op::Concat => {
            let lw = width(key.b);
            if lo + w <= lw {
                return ext(key.b, lo, w);
            }
            if lo >= lw {
                return ext(key.a, lo - lw, w);
            }
            let low = ext(key.b, lo, lw - lo);
            let high = ext(key.a, 0, w - (lw - lo));
            return concat(high, low);
        }
        Op::And | Op::Or | Op::Xor => {
            return bin(key.op, ext(key.a, lo, w), ext(key.b, lo, w));
        }
        Op::Add | Op::Sub | Op::Mul if lo == 0 => {
            return bin(key.op, ext(key.a, 0, w), ext(key.b, 0, w));
        }
        Op::Ite => {
            let (t, f) = (cst(key.b), cst(key.c));
            if t.is_some() || f.is_some() || n(e).vars.count_ones() == 1 {
                return ite(key.a, ext(key.b, lo, w), ext(key.c, lo, w));
            }
        }
        _ => {}
    }
    let r = intern(Key { op: Op::Ext, w, a: e, b: NOE, c: NOE, k: lo as u128 });
    if w == 1 {
        canon_bool(r)
    } else {
        r
    }
}

pub fn concat(hi: E, lo: E) -> E {
    let (kh, kl) = (k(hi), k(lo));
    let w = kh.w + kl.w;
    if let (Some(x), Some(y)) = (cst(hi), cst(lo)) {
        return con(w, (x << kl.w) | y);
    }
    if cst(hi) == Some(0) {
        return zext(w, lo);
    }
    if kh.op == Op::Ext && kl.op == Op::Ext && kh.a == kl.a && kh.k == kl.k + kl.w as u128 {
        return ext(kh.a, kl.k as u16, w);
    }
    // hi = Ext(x, lw..), lo = narrower whole? (Ext(x,0,8) simplified to x when x is a zext of a byte)
    if kh.op == Op::Concat {
        // Concat(Concat(a,b),c): try merging b,c
        let kb = k(kh.b);
        if kb.op == Op::Ext && kl.op == Op::Ext && kb.a == kl.a && kb.k == kl.k + kl.w as u128 {
            return concat(kh.a, ext(kb.a, kl.k as u16, kb.w + kl.w));
        }
        if cst(kh.b).is_some() && cst(lo).is_some() {
            return concat(kh.a, con(kb.w + kl.w, (kb.k << kl.w) | kl.k));
        }
    }
    if kh.op == Op::ZExt {
        return zext(w, concat(kh.a, lo));
    }
    // bytes of an ite with constant arms
    if kh.op == Op::Ite && kl.op == Op::Ite && kh.a == kl.a {
        return ite(kh.a, concat(kh.b, kl.b), concat(kh.c, kl.c));
    }
    if kh.op == Op::Ite && cst(lo).is_some() && cst(kh.b).is_some() && cst(kh.c).is_some() {
        return ite(kh.a, concat(kh.b, lo), concat(kh.c, lo));
    }
    if kl.op == Op::Ite && cst(hi).is_some() && cst(kl.b).is_some() && cst(kl.c).is_some() {
        return ite(kl.a, concat(hi, kl.b), concat(hi, kl.c));
    }
    intern(Key { op: Op::Concat, w, a: hi, b: lo, c: NOE, k: 0 })
}

pub fn tab(w: u16, t: &[u64; 256], idx: E) -> E {
    debug_assert_eq!(width(idx), 8);
    if let Some(c) = cst(idx) {
        return con(w, t[c as usize] as u128);
    }
    if t.iter().all(|&x| x == t[0]) {
        return con(w, t[0] as u128);
    }
    if w == 8 && (0..256).all(|i| t[i] == i as u64) {
        return idx;
    }
    let a = ar();
    let key: Vec<u64> = t.to_vec();
    let id = match a.tabmap.get(&key) {
        Some(&i) => i,
        None => {
            let i = a.tabs.len() as u32;
            a.tabs.push(Rc::new(*t));
            a.tabmap.insert(key, i);
            i
        }
    };
    let e = intern(Key { op: Op::Tab, w, a: idx, b: NOE, c: NOE, k: id as u128 });
    if w == 1 {
        canon_bool(e)
    } else {
        e
    }
}

/// Evaluate under a model (bytes per variable).
pub fn eval(e: E, model: &[u8]) -> u128 {
    let a = ar();
    if a.ev_gen.len() < a.nodes.len() {
        let l = a.nodes.len() + 1024;
        a.ev_gen.resize(l, 0);
        a.ev_val.resize(l, 0);
    }
    a.gen = a.gen.wrapping_add(1);
    if a.gen == 0 {
        a.ev_gen.iter_mut().for_each(|x| *x = 0);
        a.gen = 1;
    }
    let g = a.gen;
    ev(e, model, g)
}
fn ev(e: E, model: &[u8], g: u32) -> u128 {
    let a = ar();
    if a.ev_gen[e as usize] == g {
        return a.ev_val[e as usize];
    }
    let key = a.nodes[e as usize].key;
    let r = match key.op {
        Op::Const => return key.k,
        Op::Var => return model[key.k as usize] as u128,
        Op::Ite => {
            if ev(key.a, model, g) & 1 != 0 {
                ev(key.b, model, g)
            } else {
                ev(key.c, model, g)
            }
        }
        _ => {
            let x = ev(key.a, model, g);
            let y = if key.b != NOE { ev(key.b, model, g) } else { 0 };
            apply(&key, x, y, 0)
        }
    };
    let a = ar();
    a.ev_gen[e as usize] = g;
    a.ev_val[e as usize] = r;
    r
}

pub fn show(e: E) -> String {
    show_d(e, 12)
}
fn show_d(e: E, d: u32) -> String {
    let key = k(e);
    match key.op {
        Op::Const => format!("{}", key.k),
        Op::Var => format!("b{}", key.k),
        _ if d == 0 => "..".into(),
        Op::Ext => format!("ext({},{}+{})", show_d(key.a, d - 1), key.k, key.w),
        Op::ZExt => format!("z{}({})", key.w, show_d(key.a, d - 1)),
        _ => {
            let mut s = format!("{:?}{}(", key.op, key.w);
            for x in [key.a, key.b, key.c] {
                if x != NOE {
                    s += &show_d(x, d - 1);
                    s += ",";
                }
            }
            s + ")"
        }
    }
}
