//! Byte-addressed copy-on-write memory with symbolic bytes.
use crate::expr::{self, E, NOE};
use crate::ll::*;
use std::rc::Rc;

pub const PB: u64 = 10;
pub const PS: usize = 1 << PB;
const DN: usize = 256;

#[derive(Clone)]
pub struct Page {
    pub data: [u8; PS],
    pub sym: Option<Box<[E; PS]>>,
}
#[derive(Clone)]
pub struct Dir {
    pages: Vec<Option<Rc<Page>>>,
}
#[derive(Clone, Default)]
pub struct Mem {
    root: Vec<Option<Rc<Dir>>>,
    pub limit: u64,
}

/// A memory byte: concrete or symbolic.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum B {
    C(u8),
    S(E),
}

impl B {
    pub fn e(self) -> E {
        match self {
            B::C(c) => expr::con(8, c as u128),
            B::S(e) => e,
        }
    }
}

impl Mem {
    #[inline(always)]
    fn page(&self, off: u64) -> Option<&Page> {
        let pi = off >> PB;
        let d = self.root.get((pi >> 8) as usize)?.as_ref()?;
        d.pages[(pi & 255) as usize].as_deref()
    }
    #[inline(always)]
    fn page_mut(&mut self, off: u64) -> &mut Page {
        let pi = off >> PB;
        let r = (pi >> 8) as usize;
        if r >= self.root.len() {
            self.root.resize(r + 1, None);
        }
        let d = self.root[r].get_or_insert_with(|| Rc::new(Dir { pages: vec![None; DN] }));
        let d = Rc::make_mut(d);
        let p = d.pages[(pi & 255) as usize].get_or_insert_with(|| Rc::new(Page { data: [0; PS], sym: None }));
        Rc::make_mut(p)
    }
    /// Valid data address?
    #[inline(always)]
    pub fn ok(&self, addr: u64, n: u64) -> bool {
        (addr >= MUT_BASE && addr.wrapping_add(n) <= self.limit) || (addr >= CONST_BASE && addr + n <= CONST_BASE + 4096 + pg().consts.len() as u64)
    }
    pub fn writable(&self, addr: u64, n: u64) -> bool {
        addr >= MUT_BASE && addr.wrapping_add(n) <= self.limit
    }

    #[inline(always)]
    pub fn get(&self, addr: u64) -> B {
        if addr < MUT_BASE {
            let o = (addr - CONST_BASE) as usize;
            return B::C(if o >= 4096 { pg().consts[o - 4096] } else { 0 });
        }
        let off = addr - MUT_BASE;
        match self.page(off) {
            None => B::C(0),
            Some(p) => {
                let i = (off as usize) & (PS - 1);
                if let Some(s) = &p.sym {
                    if s[i] != NOE {
                        return B::S(s[i]);
                    }
                }
                B::C(p.data[i])
            }
        }
    }
    #[inline(always)]
    pub fn set(&mut self, addr: u64, b: B) {
        let off = addr - MUT_BASE;
        let i = (off as usize) & (PS - 1);
        let p = self.page_mut(off);
        match b {
            B::C(c) => {
                p.data[i] = c;
                if let Some(s) = &mut p.sym {
                    s[i] = NOE;
                }
            }
            B::S(e) => {
                let s = p.sym.get_or_insert_with(|| Box::new([NOE; PS]));
                s[i] = e;
            }
        }
    }

    /// Concrete fast path read of up to 8 bytes; None when a byte is symbolic.
    #[inline(always)]
    pub fn read_c(&self, addr: u64, n: usize) -> Option<u64> {
        let mut buf = [0u8; 8];
        if addr < MUT_BASE {
            let o = (addr - CONST_BASE) as usize;
            if o < 4096 {
                return Some(0);
            }
            buf[..n].copy_from_slice(&pg().consts[o - 4096..o - 4096 + n]);
            return Some(u64::from_le_bytes(buf));
        }
        let off = addr - MUT_BASE;
        let i = (off as usize) & (PS - 1);
        if i + n <= PS {
            match self.page(off) {
                None => Some(0),
                Some(p) => {
                    if let Some(s) = &p.sym {
                        if s[i..i + n].iter().any(|&e| e != NOE) {
                            return None;
                        }
                    }
                    if n == 8 {
                        buf.copy_from_slice(&p.data[i..i + 8]);
                    } else {
                        buf[..n].copy_from_slice(&p.data[i..i + n]);
                    }
                    Some(u64::from_le_bytes(buf))
                }
            }
        } else {
            for j in 0..n {
                match self.get(addr + j as u64) {
                    B::C(c) => buf[j] = c,
                    B::S(_) => return None,
                }
            }
            Some(u64::from_le_bytes(buf))
        }
    }

    #[inline(always)]
    pub fn write_c(&mut self, addr: u64, n: usize, v: u64) {
        let off = addr - MUT_BASE;
        let i = (off as usize) & (PS - 1);
        let b = v.to_le_bytes();
        if i + n <= PS {
            let p = self.page_mut(off);
            p.data[i..i + n].copy_from_slice(&b[..n]);
            if let Some(s) = &mut p.sym {
                for x in s[i..i + n].iter_mut() {
                    *x = NOE;
                }
            }
        } else {
            for j in 0..n {
                self.set(addr + j as u64, B::C(b[j]));
            }
        }
    }

    pub fn read(&self, addr: u64, n: usize, w: u16) -> V {
        if n <= 8 {
            if let Some(v) = self.read_c(addr, n) {
                return V::I(if w < 64 { v & ((1u64 << w) - 1) } else { v });
            }
        }
        let mut any = false;
        let mut c: u128 = 0;
        let bs: Vec<B> = (0..n).map(|j| self.get(addr + j as u64)).collect();
        for (j, b) in bs.iter().enumerate() {
            match b {
                B::C(x) => c |= (*x as u128) << (8 * j),
                B::S(_) => any = true,
            }
        }
        if !any {
            return mkv(w, c & expr::mask(w));
        }
        let mut e = bs[0].e();
        for b in &bs[1..] {
            e = expr::concat(b.e(), e);
        }
        let full = n as u16 * 8;
        if w < full {
            e = expr::ext(e, 0, w);
        }
        from_e(e)
    }

    pub fn write(&mut self, addr: u64, n: usize, w: u16, v: &V) {
        match v {
            V::I(x) => {
                if n <= 8 {
                    self.write_c(addr, n, *x)
                } else {
                    self.write_c(addr, 8, *x);
                    for j in 8..n {
                        self.set(addr + j as u64, B::C(0));
                    }
                }
            }
            V::W(x) => {
                for j in 0..n {
                    self.set(addr + j as u64, B::C((**x >> (8 * j)) as u8));
                }
            }
            V::S(e) => {
                let full = n as u16 * 8;
                let e = if w < full { expr::zext(full, *e) } else { *e };
                for j in 0..n {
                    let b = expr::ext(e, j as u16 * 8, 8);
                    match expr::cst(b) {
                        Some(c) => self.set(addr + j as u64, B::C(c as u8)),
                        None => self.set(addr + j as u64, B::S(b)),
                    }
                }
            }
            V::A(_) => panic!("aggregate in scalar store"),
        }
    }

    pub fn copy(&mut self, dst: u64, src: u64, n: u64) {
        if n == 0 || dst == src {
            return;
        }
        // page chunks when everything is concrete and non overlapping
        let overlap = dst < src + n && src < dst + n;
        if !overlap {
            let mut k = 0;
            while k < n {
                let s = src + k;
                let d = dst + k;
                let srem = PS as u64 - ((s - if s < MUT_BASE { CONST_BASE } else { MUT_BASE }) & (PS as u64 - 1));
                let drem = PS as u64 - ((d - MUT_BASE) & (PS as u64 - 1));
                let m = (n - k).min(srem).min(drem) as usize;
                let mut buf = [0u8; PS];
                let mut symb: Option<[E; PS]> = None;
                if s < MUT_BASE {
                    let o = (s - CONST_BASE) as usize - 4096;
                    buf[..m].copy_from_slice(&pg().consts[o..o + m]);
                } else {
                    let off = s - MUT_BASE;
                    let i = (off as usize) & (PS - 1);
                    if let Some(p) = self.page(off) {
                        buf[..m].copy_from_slice(&p.data[i..i + m]);
                        if let Some(sy) = &p.sym {
                            let mut t = [NOE; PS];
                            t[..m].copy_from_slice(&sy[i..i + m]);
                            symb = Some(t);
                        }
                    }
                }
                let off = d - MUT_BASE;
                let i = (off as usize) & (PS - 1);
                let p = self.page_mut(off);
                p.data[i..i + m].copy_from_slice(&buf[..m]);
                match symb {
                    Some(t) if t[..m].iter().any(|&e| e != NOE) => {
                        let sy = p.sym.get_or_insert_with(|| Box::new([NOE; PS]));
                        sy[i..i + m].copy_from_slice(&t[..m]);
                    }
                    _ => {
                        if let Some(sy) = &mut p.sym {
                            for x in sy[i..i + m].iter_mut() {
                                *x = NOE;
                            }
                        }
                    }
                }
                k += m as u64;
            }
            return;
        }
        let bs: Vec<B> = (0..n).map(|j| self.get(src + j)).collect();
        for (j, b) in bs.into_iter().enumerate() {
            self.set(dst + j as u64, b);
        }
    }

    pub fn fill(&mut self, dst: u64, n: u64, b: B) {
        let mut k = 0;
        while k < n {
            let d = dst + k;
            let off = d - MUT_BASE;
            let i = (off as usize) & (PS - 1);
            let m = ((PS - i) as u64).min(n - k) as usize;
            let p = self.page_mut(off);
            match b {
                B::C(c) => {
                    p.data[i..i + m].fill(c);
                    if let Some(sy) = &mut p.sym {
                        sy[i..i + m].fill(NOE);
                    }
                }
                B::S(e) => {
                    let sy = p.sym.get_or_insert_with(|| Box::new([NOE; PS]));
                    sy[i..i + m].fill(e);
                }
            }
            k += m as u64;
        }
    }
}

#[inline]
pub fn from_e(e: E) -> V {
    match expr::cst(e) {
        Some(c) => mkv(expr::width(e), c),
        None => V::S(e),
    }
}
#[inline]
pub fn to_e(v: &V, w: u16) -> E {
    match v {
        V::I(x) => expr::con(w, *x as u128),
        V::W(x) => expr::con(w, **x),
        V::S(e) => {
            debug_assert_eq!(expr::width(*e), w);
            *e
        }
        V::A(_) => panic!("aggregate used as a scalar"),
    }
}
