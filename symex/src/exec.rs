//! The symbolic interpreter.
use crate::expr::{self, Bits, E, Op, NOE};
use crate::fx::FxMap;
use crate::ll::*;
use crate::mem::*;
use crate::z3::Z3;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Builtin {
    Alloc,
    AllocZeroed,
    Dealloc,
    Realloc,
    Malloc,
    Calloc,
    Free,
    CRealloc,
    Nop,
    Ret0,
    RetArg0,
    Memcpy,
    Memset,
    Memcmp,
    Bcmp,
    Strlen,
    PanicFmt,
    PanicNounwindFmt,
    Abort,
    Write,
    Writev,
    RandKeys,
    Errno,
    Exit,
    CtlzTrap,
    SxByte,
    SxAssume,
    SxFail,
    SxConc,
    SxCover,
    SxTier,
    SxEmit,
    SxPrune,
    SxIsSym,
    Clock,
    Sysconf,
    Open,
    Read,
    Close,
    Statx,
    Lseek,
    Realpath,
    Getcwd,
    Strerror,
    SxFile,
}

/// Functions whose body is replaced by a model. Everything else runs from its IR.
pub fn builtin(nm: &[u8]) -> Option<Builtin> {
    use Builtin::*;
    let s = std::str::from_utf8(nm).ok()?;
    if s.starts_with("_RNvC") && s.contains("7___rustc") {
        if s.ends_with("12___rust_alloc") {
            return Some(Alloc);
        }
        if s.ends_with("14___rust_dealloc") {
            return Some(Dealloc);
        }
        if s.ends_with("14___rust_realloc") {
            return Some(Realloc);
        }
        if s.ends_with("19___rust_alloc_zeroed") {
            return Some(AllocZeroed);
        }
        if s.contains("no_alloc_shim_is_unstable") {
            return Some(Nop);
        }
    }
    if s.ends_with("9panicking9panic_fmt") && s.contains("4core") {
        return Some(PanicFmt);
    }
    if s.ends_with("9panicking18panic_nounwind_fmt") && s.contains("4core") {
        return Some(PanicNounwindFmt);
    }
    // Hashes do not depend on what is hashed: maps stay correct under any hash function, and no
    // formula has to invert SipHash. (What is written is left out, which also holds where the rest
    // of the hasher was inlined.)
    if s.contains("4core4hash3sip") && s.contains("Sip13Rounds") && s.contains("6Hasher5write") {
        return Some(Nop);
    }
    if s.ends_with("hashmap_random_keys") {
        return Some(RandKeys);
    }
    if s.ends_with("miri_promise_symbolic_alignment") || s.ends_with("miri_spin_loop") {
        return Some(Nop);
    }
    Some(match s {
        "malloc" => Malloc,
        "calloc" => Calloc,
        "free" => Free,
        "realloc" => CRealloc,
        "memcpy" | "memmove" => Memcpy,
        "memset" => Memset,
        "memcmp" => Memcmp,
        "bcmp" => Bcmp,
        "strlen" => Strlen,
        "abort" | "_exit" | "exit" => Abort,
        "write" => Write,
        "writev" => Writev,
        "__cxa_thread_atexit_impl" | "sched_yield" | "pthread_key_delete" | "pthread_setspecific" | "syscall" | "pthread_key_create" => Ret0,
        "getenv" => Ret0,
        "pthread_self" => Ret0,
        "__errno_location" => Errno,
        "clock_gettime" => Clock,
        "sysconf" => Sysconf,
        "open64" | "open" => Open,
        "read" => Read,
        "close" | "fcntl" => Close,
        "statx" => Statx,
        "lseek64" => Lseek,
        "realpath" => Realpath,
        "getcwd" => Getcwd,
        "__xpg_strerror_r" => Strerror,
        "__sx_file" => SxFile,
        "__sx_byte" => SxByte,
        "__sx_assume" => SxAssume,
        "__sx_fail" => SxFail,
        "__sx_concretize" => SxConc,
        "__sx_cover" => SxCover,
        "__sx_tier" => SxTier,
        "__sx_emit" => SxEmit,
        "__sx_prune" => SxPrune,
        "__sx_is_symbolic" => SxIsSym,
        _ => return None,
    })
}

pub fn weak_null(nm: &[u8]) -> bool {
    matches!(nm, b"gnu_get_libc_version" | b"__pthread_get_minstack" | b"getrandom" | b"copy_file_range")
}

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub regs: Vec<V>,
    pub bb: u32,
    pub ip: u32,
    pub dst: u32,
    pub sp: u64,
}

const NCLASS: usize = 96;

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub top: Frame,
    pub mem: Mem,
    pub brk: u64,
    pub sp: u64,
    pub heads: [u64; NCLASS],
    pub cs: Vec<E>,
    pub dom: Rc<Vec<Bits>>,
    pub model: Rc<Vec<u8>>,
    pub nvars: u32,
    pub steps: u64,
    pub forks: u32,
    pub covers: u128,
    pub emits: Rc<Vec<B>>,
    /// files the harness has made, and what is open of them: (file, position)
    pub files: Rc<Vec<(String, Vec<B>)>>,
    pub fds: Rc<Vec<(usize, usize)>>,
}

#[derive(Debug, Clone)]
pub enum End {
    Done,
    Pruned,
    /// property-relevant failure: kind ("assert" | "panic" | "hang" | "overflow"), text
    Fail(String, String),
    /// the engine cannot continue; never reported as a pass
    Error(String),
}

pub struct Limits {
    pub path_steps: u64,
    pub depth: usize,
    pub tier: u64,
}

pub struct Ex {
    pub z3: Z3,
    pub pending: Vec<State>,
    pub steps: u64,
    pub forks: u64,
    dq: FxMap<(Bits, Bits), bool>,
    qc: FxMap<Vec<E>, Option<Vec<(u8, u8)>>>,
    pub qhits: u64,
    slowq: bool,
    pub limits: Limits,
    pub fork_sites: FxMap<(u32, u32, u32), u64>,
    pub trace: bool,
    pub prof: Option<FxMap<u32, u64>>,
}

enum Flow {
    Next,
    End(End),
}

macro_rules! err {
    ($($t:tt)*) => { return Flow::End(End::Error(format!($($t)*))) };
}

const FULL: Bits = [u64::MAX; 4];

impl State {
    pub fn new(f: &'static Func) -> State {
        let mut st = State {
            frames: vec![],
            top: Frame { f, regs: vec![V::I(0); f.nregs as usize], bb: 0, ip: 0, dst: u32::MAX, sp: MUT_BASE + STACK_OFF },
            mem: Mem::default(),
            brk: MUT_BASE + HEAP_OFF,
            sp: MUT_BASE + STACK_OFF,
            heads: [0; NCLASS],
            cs: vec![],
            dom: Rc::new(vec![FULL; 128]),
            model: Rc::new(vec![0; 128]),
            nvars: 0,
            steps: 0,
            forks: 0,
            covers: 0,
            emits: Rc::new(vec![]),
            files: Default::default(),
            fds: Default::default(),
        };
        st.mem.limit = st.brk;
        for (a, b) in pg().mut_init.iter() {
            for (i, x) in b.iter().enumerate() {
                st.mem.set(a + i as u64, B::C(*x));
            }
        }
        st
    }

    fn class(size: u64) -> (usize, u64) {
        let s = size.max(16);
        if s <= 1024 {
            let c = ((s + 15) / 16) as usize;
            (c, c as u64 * 16)
        } else {
            let p = s.next_power_of_two();
            (64 + (p.trailing_zeros() as usize - 10), p)
        }
    }
    fn alloc(&mut self, size: u64, align: u64) -> u64 {
        let (c, cs) = Self::class(size.max(align));
        if self.heads[c] != 0 {
            let a = self.heads[c];
            if a % align == 0 {
                self.heads[c] = self.mem.read_c(a, 8).unwrap_or(0);
                return a;
            }
        }
        let al = align.max(16);
        let a = (self.brk + al - 1) / al * al;
        self.brk = a + cs;
        self.mem.limit = self.brk;
        a
    }
    fn dealloc(&mut self, p: u64, size: u64) {
        let (c, _) = Self::class(size);
        self.mem.write_c(p, 8, self.heads[c]);
        self.heads[c] = p;
    }
    pub fn backtrace(&self) -> String {
        let mut s = String::new();
        let mut show = |f: &Frame| {
            s += &format!("  {} bb{} ip{}\n", f.f.name, f.bb, f.ip);
        };
        show(&self.top);
        for f in self.frames.iter().rev().take(25) {
            show(f);
        }
        s
    }
    pub fn model_bytes(&self) -> Vec<u8> {
        self.model[..self.nvars as usize].to_vec()
    }
    pub fn emit_bytes(&self) -> Vec<u8> {
        self.emits
            .iter()
            .map(|b| match b {
                B::C(c) => *c,
                B::S(e) => expr::eval(*e, &self.model) as u8,
            })
            .collect()
    }
}

fn set_model(st: &mut State, m: &[(u8, u8)]) {
    let mm = Rc::make_mut(&mut st.model);
    for &(v, x) in m {
        mm[v as usize] = x;
    }
}

/// membership of a byte variable in a set, as an expression
fn member(v: u8, b: &Bits) -> E {
    let mut t = [0u64; 256];
    for i in 0..256 {
        t[i] = b[i >> 6] >> (i & 63) & 1;
    }
    expr::tab(1, &t, expr::var(v as u32))
}

fn first_bit(b: &Bits) -> Option<u8> {
    for i in 0..4 {
        if b[i] != 0 {
            return Some((i * 64) as u8 + b[i].trailing_zeros() as u8);
        }
    }
    None
}

impl Ex {
    pub fn new(limits: Limits) -> Ex {
        Ex {
            z3: Z3::new(),
            pending: vec![],
            steps: 0,
            forks: 0,
            dq: Default::default(),
            qc: Default::default(),
            qhits: 0,
            slowq: std::env::var("SX_SLOWQ").is_ok(),
            limits,
            fork_sites: Default::default(),
            trace: false,
            prof: None,
        }
    }

    /// Can `c` hold together with the path condition? The verdict is Z3's; a byte-domain
    /// computation cross-checks it where the query concerns a single byte.
    pub fn feasible(&mut self, st: &State, c: E) -> Option<Vec<(u8, u8)>> {
        if let Some(x) = expr::cst(c) {
            return if x == 1 { Some(vec![]) } else { None };
        }
        let mut vars = expr::n(c).vars;
        let mut used: Vec<E> = vec![];
        if !st.cs.is_empty() {
            let mut taken = vec![false; st.cs.len()];
            loop {
                let mut grew = false;
                for (i, &e) in st.cs.iter().enumerate() {
                    if !taken[i] && expr::n(e).vars & vars != 0 {
                        taken[i] = true;
                        vars |= expr::n(e).vars;
                        used.push(e);
                        grew = true;
                    }
                }
                if !grew {
                    break;
                }
            }
        }
        if used.is_empty() && vars.count_ones() == 1 {
            let v = vars.trailing_zeros() as u8;
            let dom = st.dom[v as usize];
            let bits = expr::bool_bits(c).unwrap();
            let mut inter = [0u64; 4];
            for i in 0..4 {
                inter[i] = dom[i] & bits[i];
            }
            let pick = first_bit(&inter);
            match self.dq.get(&(dom, bits)) {
                Some(&r) => {
                    self.qhits += 1;
                    debug_assert_eq!(r, pick.is_some());
                }
                None => {
                    let mut q = vec![c];
                    if dom != FULL {
                        q.push(member(v, &dom));
                    }
                    let r = self.z3.check(&q, vars);
                    let r = match r {
                        Some(x) => x.is_some(),
                        None => panic!("solver gave up on a one-byte query"),
                    };
                    if r != pick.is_some() {
                        eprintln!("solver and byte domain disagree on {}", expr::show(c));
                        std::process::exit(3);
                    }
                    self.dq.insert((dom, bits), r);
                }
            }
            return pick.map(|p| vec![(v, p)]);
        }
        used.sort();
        let mut m = vars;
        while m != 0 {
            let v = m.trailing_zeros() as u8;
            m &= m - 1;
            let dom = st.dom[v as usize];
            if dom != FULL {
                used.push(member(v, &dom));
            }
        }
        used.push(c);
        if let Some(r) = self.qc.get(&used) {
            self.qhits += 1;
            return r.clone();
        }
        let tq = std::time::Instant::now();
        let zr = self.z3.check(&used, vars);
        if self.slowq && tq.elapsed().as_secs_f64() > 0.001 {
            let mut t = expr::show(c);
            t.truncate(1500);
            eprintln!("slow query {:.2}s, {} constraints: {}\n{}", tq.elapsed().as_secs_f64(), used.len(), t, st.backtrace());
        }
        let r = match zr {
            Some(r) => r,
            None => {
                eprintln!("solver gave up");
                std::process::exit(3);
            }
        };
        self.qc.insert(used, r.clone());
        r
    }

    /// Record `c` on the path. The caller knows it is feasible and has set the model.
    pub fn add(&mut self, st: &mut State, c: E) {
        let key = expr::k(c);
        if key.op == Op::Const {
            return;
        }
        if key.op == Op::And && key.w == 1 {
            self.add(st, key.a);
            self.add(st, key.b);
            return;
        }
        // not(a | b)
        if key.op == Op::Xor {
            let ka = expr::k(key.a);
            if ka.op == Op::Or && ka.w == 1 {
                let (x, y) = (expr::not(ka.a), expr::not(ka.b));
                self.add(st, x);
                self.add(st, y);
                return;
            }
        }
        let vars = expr::n(c).vars;
        if vars.count_ones() == 1 {
            let v = vars.trailing_zeros() as usize;
            let bits = expr::bool_bits(c).unwrap();
            let d = Rc::make_mut(&mut st.dom);
            for i in 0..4 {
                d[v][i] &= bits[i];
            }
        } else if !st.cs.contains(&c) {
            st.cs.push(c);
        }
    }

    /// Decide a condition, forking when both sides are possible.
    /// Returns the side taken by `st` and, when the other side is possible too, its state.
    fn branch(&mut self, st: &mut State, c: E) -> (bool, Option<State>) {
        if let Some(x) = expr::cst(c) {
            return (x == 1, None);
        }
        let cur = expr::eval(c, &st.model) & 1 == 1;
        let nc = expr::not(c);
        let (this, other) = if cur { (c, nc) } else { (nc, c) };
        match self.feasible(st, other) {
            None => (cur, None),
            Some(m) => {
                st.forks += 1;
                self.forks += 1;
                *self.fork_sites.entry((st.top.f.id, st.top.bb, st.top.ip)).or_insert(0) += 1;
                let mut o = st.clone();
                set_model(&mut o, &m);
                self.add(&mut o, other);
                self.add(st, this);
                (cur, Some(o))
            }
        }
    }

    /// All feasible values of an expression (with models); the first is the current model's.
    fn values(&mut self, st: &State, e: E, cap: usize) -> Option<Vec<(u128, Vec<(u8, u8)>)>> {
        let w = expr::width(e);
        let v0 = expr::eval(e, &st.model);
        let mut out = vec![(v0, vec![])];
        let mut cond = expr::not(expr::cmp(Op::Eq, e, expr::con(w, v0)));
        loop {
            let m = match self.feasible(st, cond) {
                None => return Some(out),
                Some(m) => m,
            };
            if self.slowq && true { eprintln!("{} values, cond {}", out.len(), expr::show(cond)); }
            if out.len() >= cap {
                return None;
            }
            let mut mm = (*st.model).clone();
            for &(v, x) in &m {
                mm[v as usize] = x;
            }
            let v = expr::eval(e, &mm);
            out.push((v, m));
            let ne = expr::not(expr::cmp(Op::Eq, e, expr::con(w, v)));
            cond = expr::bin(Op::And, cond, ne);
        }
    }

    /// A value computed from one byte that has at most four outcomes.
    /// Two flags of different bytes meet: decide one of them first, so that conditions stay about
    /// one byte each where the code only combines flags.
    fn decouple(&mut self, st: &mut State, p: E, a: &Opd, q: E, b: &Opd) -> Result<bool, String> {
        let (vp, vq) = (expr::n(p).vars, expr::n(q).vars);
        if vp == vq {
            return Ok(false);
        }
        for (e, o) in [(p, a), (q, b)] {
            if matches!(o, Opd::R(_)) && self.outcomes(st, e, 2) {
                self.concretize(st, o)?;
                return Ok(true);
            }
        }
        Ok(false)
    }
    fn small(&self, st: &State, e: E) -> bool {
        self.outcomes(st, e, 4)
    }
    fn outcomes(&self, st: &State, e: E, max: usize) -> bool {
        let nd = expr::n(e);
        if nd.key.op == Op::Var || nd.vars.count_ones() != 1 {
            return false;
        }
        let v = nd.vars.trailing_zeros() as usize;
        let dom = &st.dom[v];
        match expr::table(e) {
            None => false,
            Some(t) => {
                let mut seen: [u64; 4] = [0; 4];
                let mut k = 0;
                for i in 0..256 {
                    if dom[i >> 6] >> (i & 63) & 1 == 1 && !seen[..k].contains(&t[i]) {
                        if k == max {
                            return false;
                        }
                        seen[k] = t[i];
                        k += 1;
                    }
                }
                true
            }
        }
    }

    /// Make a symbolic operand concrete: one state per feasible value, each re-executing the
    /// current instruction with the register replaced by its value.
    fn concretize(&mut self, st: &mut State, o: &Opd) -> Result<(), String> {
        let r = match o {
            Opd::R(r) => *r,
            _ => return Err("concretize constant".into()),
        };
        let e = match &st.top.regs[r as usize] {
            V::S(e) => *e,
            _ => return Ok(()),
        };
        let w = expr::width(e);
        if self.slowq { eprintln!("concretize {} at {}", expr::show(e), st.backtrace()); }
        let vals = match self.values(st, e, 512) {
            Some(v) => v,
            None => return Err(format!("more than 512 values for {}\n{}", expr::show(e), st.backtrace())),
        };
        if vals.len() > 1 {
            st.forks += 1;
            self.forks += vals.len() as u64 - 1;
            *self.fork_sites.entry((st.top.f.id, st.top.bb, st.top.ip)).or_insert(0) += vals.len() as u64 - 1;
        }
        for (v, m) in vals.iter().skip(1) {
            let mut o = st.clone();
            set_model(&mut o, m);
            let c = expr::cmp(Op::Eq, e, expr::con(w, *v));
            self.add(&mut o, c);
            o.top.regs[r as usize] = mkv(w, *v);
            self.pending.push(o);
        }
        let (v, _) = vals[0];
        if vals.len() > 1 {
            let c = expr::cmp(Op::Eq, e, expr::con(w, v));
            self.add(st, c);
        }
        st.top.regs[r as usize] = mkv(w, v);
        Ok(())
    }

    /// Run one state to its end; alternatives met on the way go to `pending`.
    pub fn run(&mut self, st: &mut State) -> End {
        loop {
            let f = st.top.f;
            let blk = &f.blocks[st.top.bb as usize];
            let ins = &blk.ins[st.top.ip as usize];
            st.steps += 1;
            self.steps += 1;
            if st.steps > self.limits.path_steps {
                return End::Fail("hang".into(), format!("no end within {} steps", self.limits.path_steps));
            }
            if let Some(p) = &mut self.prof {
                *p.entry(f.id).or_insert(0) += 1;
            }
            match self.step(st, ins) {
                Flow::Next => {}
                Flow::End(End::Error(e)) => return End::Error(format!("{}\n{}", e, st.backtrace())),
                Flow::End(e) => return e,
            }
        }
    }

    fn jump(&mut self, st: &mut State, to: u32) {
        let from = st.top.bb;
        let blk = &st.top.f.blocks[to as usize];
        st.top.bb = to;
        st.top.ip = 0;
        if blk.edges.is_empty() {
            return;
        }
        for (p, copies) in blk.edges.iter() {
            if *p == from {
                if copies.len() == 1 {
                    let v = val(&st.top, &copies[0].1);
                    st.top.regs[copies[0].0 as usize] = v;
                } else {
                    let mut tmp: [V; 8] = [V::I(0), V::I(0), V::I(0), V::I(0), V::I(0), V::I(0), V::I(0), V::I(0)];
                    if copies.len() <= 8 {
                        for (i, c) in copies.iter().enumerate() {
                            tmp[i] = val(&st.top, &c.1);
                        }
                        for (i, c) in copies.iter().enumerate() {
                            st.top.regs[c.0 as usize] = std::mem::replace(&mut tmp[i], V::I(0));
                        }
                    } else {
                        let vs: Vec<V> = copies.iter().map(|c| val(&st.top, &c.1)).collect();
                        for (c, v) in copies.iter().zip(vs) {
                            st.top.regs[c.0 as usize] = v;
                        }
                    }
                }
                return;
            }
        }
    }

    #[inline(always)]
    fn step(&mut self, st: &mut State, ins: &'static Ins) -> Flow {
        match ins {
            Ins::Bin { op, w, n, d, a, b } => {
                let r = if *n == 0 {
                    match (rf(&st.top, a), rf(&st.top, b)) {
                        (Rf::C(x), Rf::C(y)) => {
                            if let Some(r) = fast_bin(*op, *w, x, y) {
                                st.top.regs[*d as usize] = V::I(r);
                                st.top.ip += 1;
                                return Flow::Next;
                            }
                            V::I(expr::bin_c(*op, *w, x as u128, y as u128) as u64)
                        }
                        _ => {
                            let (x, y) = (val(&st.top, a), val(&st.top, b));
                            if let (V::S(p), V::S(q)) = (&x, &y) {
                                match self.decouple(st, *p, a, *q, b) {
                                    Ok(false) => {}
                                    Ok(true) => return Flow::Next,
                                    Err(e) => err!("{}", e),
                                }
                            }
                            bin_v(*op, *w, &x, &y)
                        }
                    }
                } else {
                    let (x, y) = (lanes(&val(&st.top, a), *n), lanes(&val(&st.top, b), *n));
                    V::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| bin_v(*op, *w, p, q)).collect()))
                };
                st.top.regs[*d as usize] = r;
                st.top.ip += 1;
            }
            Ins::Cmp { pred, w, n, d, a, b } => {
                let r = if *n == 0 {
                    match (rf(&st.top, a), rf(&st.top, b)) {
                        (Rf::C(x), Rf::C(y)) => V::I(cmp_u(*pred, *w, x, y) as u64),
                        _ => cmp_v(*pred, *w, &val(&st.top, a), &val(&st.top, b)),
                    }
                } else {
                    let (x, y) = (lanes(&val(&st.top, a), *n), lanes(&val(&st.top, b), *n));
                    V::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| cmp_v(*pred, *w, p, q)).collect()))
                };
                st.top.regs[*d as usize] = r;
                st.top.ip += 1;
            }
            Ins::Cast { kind, from, to, n, d, a } => {
                let v = val(&st.top, a);
                let r = if *n == 0 {
                    cast_v(*kind, *from, *to, &v)
                } else {
                    let x = lanes(&v, *n);
                    V::A(Rc::new(x.iter().map(|p| cast_v(*kind, *from, *to, p)).collect()))
                };
                st.top.regs[*d as usize] = r;
                st.top.ip += 1;
            }
            Ins::Load { d, w, bytes, p } => {
                let pv = val(&st.top, p);
                match pv {
                    V::I(addr) => {
                        if !st.mem.ok(addr, *bytes as u64) {
                            err!("load of {} bytes at {:#x}", bytes, addr);
                        }
                        let v = st.mem.read(addr, *bytes as usize, *w);
                        st.top.regs[*d as usize] = v;
                        st.top.ip += 1;
                    }
                    V::S(e) => return self.sym_load(st, *d, *w, *bytes as u64, e, p),
                    _ => err!("load through aggregate"),
                }
            }
            Ins::Store { w, bytes, v, p } => {
                let pv = val(&st.top, p);
                match pv {
                    V::I(addr) => {
                        if !st.mem.writable(addr, *bytes as u64) {
                            err!("store of {} bytes at {:#x}", bytes, addr);
                        }
                        let v0 = v;
                        let v = val(&st.top, v);
                        // A flag derived from a byte: decide it before it spreads through memory
                        // (a computed value of few outcomes; the byte itself stays symbolic).
                        if *bytes == 1 {
                            if let (V::S(e), Opd::R(_)) = (&v, v0) {
                                if self.small(st, *e) {
                                    if let Err(e) = self.concretize(st, v0) {
                                        err!("{}", e);
                                    }
                                    return Flow::Next;
                                }
                            }
                        }
                        st.mem.write(addr, *bytes as usize, *w, &v);
                        st.top.ip += 1;
                    }
                    V::S(_) => {
                        if let Err(e) = self.concretize(st, p) {
                            err!("{}", e);
                        }
                    }
                    _ => err!("store through aggregate"),
                }
            }
            Ins::Gep { d, base, off, idx } => {
                let b = val(&st.top, base);
                let mut acc = match b {
                    V::I(x) => V::I((x as i64).wrapping_add(*off) as u64),
                    v => bin_v(Op::Add, 64, &v, &V::I(*off as u64)),
                };
                for (o, scale, w) in idx.iter() {
                    let i = val(&st.top, o);
                    match (&acc, &i) {
                        (V::I(x), V::I(y)) => {
                            let y = if *w < 64 { expr::sext(*y as u128, *w) as i64 } else { *y as i64 };
                            acc = V::I((*x as i64).wrapping_add(y.wrapping_mul(*scale)) as u64);
                        }
                        _ => {
                            let i = if *w < 64 { cast_v(Cast::SExt, *w, 64, &i) } else { i };
                            let m = bin_v(Op::Mul, 64, &i, &V::I(*scale as u64));
                            acc = bin_v(Op::Add, 64, &acc, &m);
                        }
                    }
                }
                st.top.regs[*d as usize] = acc;
                st.top.ip += 1;
            }
            Ins::Br { t } => self.jump(st, *t),
            Ins::CondBr { c, t, f } => {
                let cv = val(&st.top, c);
                match cv {
                    V::I(x) => self.jump(st, if x & 1 == 1 { *t } else { *f }),
                    V::S(e) => {
                        let (side, other) = self.branch(st, e);
                        if let Some(mut o) = other {
                            self.jump(&mut o, if side { *f } else { *t });
                            self.pending.push(o);
                        }
                        self.jump(st, if side { *t } else { *f });
                    }
                    _ => err!("branch on aggregate"),
                }
            }
            Ins::Switch { w, v, def, cases, map } => {
                let x = val(&st.top, v);
                match x {
                    V::I(x) => {
                        let t = match map {
                            Some(m) => m.get(&x).copied().unwrap_or(*def),
                            None => cases.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*def),
                        };
                        self.jump(st, t);
                    }
                    V::S(e) => return self.sym_switch(st, e, *w, *def, cases),
                    V::W(_) | V::A(_) => err!("switch on wide value"),
                }
            }
            Ins::Select { d, w, n, ptr, c, a, b } => {
                if *n > 0 {
                    let cs = lanes(&val(&st.top, c), *n);
                    let (x, y) = (lanes(&val(&st.top, a), *n), lanes(&val(&st.top, b), *n));
                    let mut out = vec![];
                    for i in 0..*n as usize {
                        out.push(match &cs[i] {
                            V::I(k) => {
                                if k & 1 == 1 {
                                    x[i].clone()
                                } else {
                                    y[i].clone()
                                }
                            }
                            V::S(e) => from_e(expr::ite(*e, to_e(&x[i], *w), to_e(&y[i], *w))),
                            _ => err!("select"),
                        });
                    }
                    st.top.regs[*d as usize] = V::A(Rc::new(out));
                    st.top.ip += 1;
                    return Flow::Next;
                }
                let cv = val(&st.top, c);
                match cv {
                    V::I(k) => {
                        let r = if k & 1 == 1 { val(&st.top, a) } else { val(&st.top, b) };
                        st.top.regs[*d as usize] = r;
                        st.top.ip += 1;
                    }
                    V::S(e) => {
                        let x = val(&st.top, a);
                        let y = val(&st.top, b);
                        let same = matches!((&x, &y), (V::I(p), V::I(q)) if p == q);
                        if same {
                            st.top.regs[*d as usize] = x;
                            st.top.ip += 1;
                        } else if *ptr || matches!(x, V::A(_)) {
                            // keep pointers concrete
                            let (side, other) = self.branch(st, e);
                            if let Some(mut o) = other {
                                o.top.regs[*d as usize] = if side { y.clone() } else { x.clone() };
                                o.top.ip += 1;
                                self.pending.push(o);
                            }
                            st.top.regs[*d as usize] = if side { x } else { y };
                            st.top.ip += 1;
                        } else {
                            st.top.regs[*d as usize] = from_e(expr::ite(e, to_e(&x, *w), to_e(&y, *w)));
                            st.top.ip += 1;
                        }
                    }
                    _ => err!("select on aggregate"),
                }
            }
            Ins::Call { d, f, args } => {
                let id = match f {
                    Callee::Fn(id) => *id,
                    Callee::Ind(o) => match val(&st.top, o) {
                        V::I(a) => {
                            if a < FN_BASE || (a - FN_BASE) / 16 >= pg().fns.len() as u64 {
                                err!("indirect call to {:#x}", a);
                            }
                            ((a - FN_BASE) / 16) as u32
                        }
                        V::S(_) => {
                            if let Err(e) = self.concretize(st, o) {
                                err!("{}", e);
                            }
                            return Flow::Next;
                        }
                        _ => err!("indirect call through aggregate"),
                    },
                };
                let fe = &mut pg().fns[id as usize];
                fe.calls += 1;
                if let Some(b) = fe.builtin {
                    return self.builtin_call(st, b, *d, args);
                }
                let fun = match fe.func {
                    Some(f) => f,
                    None => match func(id) {
                        Some(f) => f,
                        None => {
                            let nm = String::from_utf8_lossy(pg().fns[id as usize].name).into_owned();
                            err!("call of undefined function {}", nm)
                        }
                    },
                };
                if st.frames.len() >= self.limits.depth {
                    return Flow::End(End::Fail("overflow".into(), format!("call depth exceeds {}", self.limits.depth)));
                }
                let mut regs: Vec<V> = Vec::with_capacity(fun.nregs as usize);
                regs.resize(fun.nregs as usize, V::I(0));
                for (p, a) in fun.params.iter().zip(args.iter()) {
                    regs[*p as usize] = val(&st.top, a);
                }
                st.top.ip += 1;
                let fr = Frame { f: fun, regs, bb: 0, ip: 0, dst: *d, sp: st.sp };
                let old = std::mem::replace(&mut st.top, fr);
                st.frames.push(Rc::new(old));
            }
            Ins::Ret { v } => {
                let r = v.as_ref().map(|v| val(&st.top, v));
                match st.frames.pop() {
                    None => return Flow::End(End::Done),
                    Some(fr) => {
                        let dst = st.top.dst;
                        st.sp = st.top.sp;
                        st.top = Rc::try_unwrap(fr).unwrap_or_else(|rc| (*rc).clone());
                        if dst != u32::MAX {
                            st.top.regs[dst as usize] = r.unwrap_or(V::I(0));
                        }
                    }
                }
            }
            Ins::Alloca { d, size, align } => {
                let a = (st.sp + align - 1) / align * align;
                st.sp = a + size;
                if st.sp > MUT_BASE + STACK_OFF + STACK_SIZE {
                    return Flow::End(End::Fail("overflow".into(), "stack exhausted".into()));
                }
                st.top.regs[*d as usize] = V::I(a);
                st.top.ip += 1;
            }
            Ins::Unreachable => err!("reached unreachable"),
            Ins::Intr { k, w, n, d, args, name } => return self.intrinsic(st, *k, *w, *n, *d, args, name),
            Ins::ExtractV { d, a, path } => {
                let mut v = val(&st.top, a);
                for p in path {
                    v = match &v {
                        V::A(x) => x[*p as usize].clone(),
                        _ => V::I(0), // poison / undef aggregate
                    };
                }
                st.top.regs[*d as usize] = v;
                st.top.ip += 1;
            }
            Ins::InsertV { d, a, v, path, ty } => {
                let mut agg = val(&st.top, a);
                if !matches!(agg, V::A(_)) {
                    agg = zero(ty);
                }
                let x = val(&st.top, v);
                insert(&mut agg, path, x);
                st.top.regs[*d as usize] = agg;
                st.top.ip += 1;
            }
            _ => return self.step_rare(st, ins),
        }
        Flow::Next
    }

    fn sym_switch(&mut self, st: &mut State, e: E, w: u16, def: u32, cases: &[(u64, u32)]) -> Flow {
        // one condition per distinct target
        let mut targets: Vec<(u32, E)> = vec![];
        let mut none = expr::con(1, 1);
        for (c, t) in cases {
            let eq = expr::cmp(Op::Eq, e, expr::con(w, *c as u128));
            none = expr::bin(Op::And, none, expr::not(eq));
            match targets.iter_mut().find(|x| x.0 == *t) {
                Some(x) => x.1 = expr::bin(Op::Or, x.1, eq),
                None => targets.push((*t, eq)),
            }
        }
        match targets.iter_mut().find(|x| x.0 == def) {
            Some(x) => x.1 = expr::bin(Op::Or, x.1, none),
            None => targets.push((def, none)),
        }
        let mut cur = None;
        let mut n = 0;
        for (t, c) in targets.iter() {
            if expr::eval(*c, &st.model) & 1 == 1 {
                cur = Some((*t, *c));
                continue;
            }
            if let Some(m) = self.feasible(st, *c) {
                let mut o = st.clone();
                set_model(&mut o, &m);
                self.add(&mut o, *c);
                self.jump(&mut o, *t);
                self.pending.push(o);
                n += 1;
            }
        }
        let (t, c) = match cur {
            Some(x) => x,
            None => err!("switch: model satisfies no case"),
        };
        if n > 0 {
            self.forks += n;
            st.forks += 1;
            *self.fork_sites.entry((st.top.f.id, st.top.bb, st.top.ip)).or_insert(0) += n;
            self.add(st, c);
        }
        self.jump(st, t);
        Flow::Next
    }

    /// Load through a symbolic address.
    fn sym_load(&mut self, st: &mut State, d: u32, w: u16, bytes: u64, e: E, p: &Opd) -> Flow {
        let vars = expr::n(e).vars;
        if vars.count_ones() == 1 {
            if let Some(t) = expr::table(e) {
                let v = vars.trailing_zeros() as usize;
                let coupled = st.cs.iter().any(|&c| expr::n(c).vars & vars != 0);
                let dom = st.dom[v];
                let mut vals: Vec<Option<u64>> = vec![None; 256];
                let mut ok = w <= 64;
                let mut some = 0;
                for i in 0..256 {
                    if dom[i >> 6] >> (i & 63) & 1 == 0 {
                        continue;
                    }
                    if !st.mem.ok(t[i], bytes) {
                        if coupled {
                            ok = false;
                            break;
                        }
                        err!("symbolic load at {:#x} for byte {}", t[i], i);
                    }
                    match st.mem.read(t[i], bytes as usize, w) {
                        V::I(x) => {
                            vals[i] = Some(x);
                            some = x;
                        }
                        _ => {
                            ok = false;
                            break;
                        }
                    }
                }
                if ok {
                    let mut tb = [some; 256];
                    for i in 0..256 {
                        if let Some(x) = vals[i] {
                            tb[i] = x;
                        }
                    }
                    let te = expr::tab(w, &tb, expr::var(v as u32));
                    if let Some(c) = expr::cst(te) {
                        st.top.regs[d as usize] = mkv(w, c);
                        st.top.ip += 1;
                        return Flow::Next;
                    }
                    if bytes == 1 {
                        st.top.regs[d as usize] = V::S(te);
                        st.top.ip += 1;
                        return Flow::Next;
                    }
                    // wide entries (states, pointers): one state per distinct value
                    let vals = match self.values(st, te, 256) {
                        Some(v) => v,
                        None => err!("too many table values"),
                    };
                    if vals.len() > 1 {
                        st.forks += 1;
                        self.forks += vals.len() as u64 - 1;
                        *self.fork_sites.entry((st.top.f.id, st.top.bb, st.top.ip)).or_insert(0) += vals.len() as u64 - 1;
                    }
                    for (x, m) in vals.iter().skip(1) {
                        let mut o = st.clone();
                        set_model(&mut o, m);
                        let c = expr::cmp(Op::Eq, te, expr::con(w, *x));
                        self.add(&mut o, c);
                        o.top.regs[d as usize] = mkv(w, *x);
                        o.top.ip += 1;
                        self.pending.push(o);
                    }
                    if vals.len() > 1 {
                        let c = expr::cmp(Op::Eq, te, expr::con(w, vals[0].0));
                        self.add(st, c);
                    }
                    st.top.regs[d as usize] = mkv(w, vals[0].0);
                    st.top.ip += 1;
                    return Flow::Next;
                }
            }
        }
        if let Err(e) = self.concretize(st, p) {
            err!("{}", e);
        }
        Flow::Next
    }

    fn step_rare(&mut self, st: &mut State, ins: &'static Ins) -> Flow {
        match ins {
            Ins::LoadAgg { d, ty, p } => match val(&st.top, p) {
                V::I(a) => {
                    if !st.mem.ok(a, ty.size()) {
                        err!("aggregate load at {:#x}", a);
                    }
                    let v = load_agg(st, ty, a);
                    st.top.regs[*d as usize] = v;
                }
                V::S(_) => {
                    if let Err(e) = self.concretize(st, p) {
                        err!("{}", e);
                    }
                    return Flow::Next;
                }
                _ => err!("load"),
            },
            Ins::StoreAgg { ty, v, p } => match val(&st.top, p) {
                V::I(a) => {
                    if !st.mem.writable(a, ty.size()) {
                        err!("aggregate store at {:#x}", a);
                    }
                    let v = val(&st.top, v);
                    store_agg(st, ty, a, &v);
                }
                V::S(_) => {
                    if let Err(e) = self.concretize(st, p) {
                        err!("{}", e);
                    }
                    return Flow::Next;
                }
                _ => err!("store"),
            },
            Ins::ExtractE { d, a, i } => {
                let v = val(&st.top, a);
                let i = match val(&st.top, i) {
                    V::I(i) => i as usize,
                    _ => err!("symbolic lane"),
                };
                let r = match &v {
                    V::A(x) => x[i].clone(),
                    _ => V::I(0),
                };
                st.top.regs[*d as usize] = r;
            }
            Ins::InsertE { d, a, v, i, n } => {
                let mut x = lanes(&val(&st.top, a), *n);
                let i = match val(&st.top, i) {
                    V::I(i) => i as usize,
                    _ => err!("symbolic lane"),
                };
                x[i] = val(&st.top, v);
                st.top.regs[*d as usize] = V::A(Rc::new(x));
            }
            Ins::Shuffle { d, a, b, n, mask } => {
                let x = lanes(&val(&st.top, a), *n);
                let y = lanes(&val(&st.top, b), *n);
                let out = mask
                    .iter()
                    .map(|&m| {
                        let m = m.max(0) as usize;
                        if m < x.len() {
                            x[m].clone()
                        } else {
                            y[m - x.len()].clone()
                        }
                    })
                    .collect();
                st.top.regs[*d as usize] = V::A(Rc::new(out));
            }
            Ins::VCast { from, to, d, a } => {
                let v = val(&st.top, a);
                let e = flat(&v, from);
                let r = unflat(e, to);
                st.top.regs[*d as usize] = r;
            }
            Ins::Rmw { d, op, w, bytes, p, v } => match val(&st.top, p) {
                V::I(a) => {
                    if !st.mem.writable(a, *bytes as u64) {
                        err!("rmw at {:#x}", a);
                    }
                    let old = st.mem.read(a, *bytes as usize, *w);
                    let x = val(&st.top, v);
                    let new = match op.as_str() {
                        "add" => bin_v(Op::Add, *w, &old, &x),
                        "sub" => bin_v(Op::Sub, *w, &old, &x),
                        "and" => bin_v(Op::And, *w, &old, &x),
                        "or" => bin_v(Op::Or, *w, &old, &x),
                        "xor" => bin_v(Op::Xor, *w, &old, &x),
                        "xchg" => x,
                        "umax" => match (&old, &x) {
                            (V::I(p), V::I(q)) => V::I(*p.max(q)),
                            _ => err!("rmw umax"),
                        },
                        _ => err!("atomicrmw {}", op),
                    };
                    st.mem.write(a, *bytes as usize, *w, &new);
                    st.top.regs[*d as usize] = old;
                }
                _ => err!("rmw on symbolic address"),
            },
            Ins::CmpXchg { d, w, bytes, p, c, n } => match val(&st.top, p) {
                V::I(a) => {
                    if !st.mem.writable(a, *bytes as u64) {
                        err!("cmpxchg at {:#x}", a);
                    }
                    let old = st.mem.read(a, *bytes as usize, *w);
                    let c = val(&st.top, c);
                    let n = val(&st.top, n);
                    let eq = cmp_v(Pred::Eq, *w, &old, &c);
                    match eq {
                        V::I(x) => {
                            if x == 1 {
                                st.mem.write(a, *bytes as usize, *w, &n);
                            }
                            st.top.regs[*d as usize] = V::A(Rc::new(vec![old, V::I(x)]));
                        }
                        _ => err!("symbolic cmpxchg"),
                    }
                }
                _ => err!("cmpxchg on symbolic address"),
            },
            Ins::FBin { op, w, n, d, a, b } => {
                let r = if *n == 0 {
                    match fbin(*op, *w, &val(&st.top, a), &val(&st.top, b)) {
                        Some(r) => r,
                        None => err!("symbolic float"),
                    }
                } else {
                    err!("float vector")
                };
                st.top.regs[*d as usize] = r;
            }
            Ins::FCmp { pred, w, d, a, b } => {
                let (x, y) = match (val(&st.top, a), val(&st.top, b)) {
                    (V::I(x), V::I(y)) => (fl(*w, x), fl(*w, y)),
                    _ => err!("symbolic fcmp"),
                };
                let un = x.is_nan() || y.is_nan();
                let r = match pred.as_str() {
                    "oeq" => x == y,
                    "one" => !un && x != y,
                    "olt" => x < y,
                    "ole" => x <= y,
                    "ogt" => x > y,
                    "oge" => x >= y,
                    "ueq" => un || x == y,
                    "une" => x != y,
                    "ult" => un || x < y,
                    "ule" => un || x <= y,
                    "ugt" => un || x > y,
                    "uge" => un || x >= y,
                    "uno" => un,
                    "ord" => !un,
                    _ => err!("fcmp {}", pred),
                };
                st.top.regs[*d as usize] = V::I(r as u64);
            }
            Ins::FConv { kind, from, to, d, a } => {
                let x = match val(&st.top, a) {
                    V::I(x) => x,
                    _ => err!("symbolic float conversion"),
                };
                let r = match kind.as_str() {
                    "fptoui" => fl(from.bits(), x) as u64 & expr::mask(to.bits()) as u64,
                    "fptosi" => fl(from.bits(), x) as i64 as u64 & expr::mask(to.bits()) as u64,
                    "uitofp" => {
                        if to.bits() == 32 {
                            (x as f32).to_bits() as u64
                        } else {
                            (x as f64).to_bits()
                        }
                    }
                    "sitofp" => {
                        let s = expr::sext(x as u128, from.bits()) as i64;
                        if to.bits() == 32 {
                            (s as f32).to_bits() as u64
                        } else {
                            (s as f64).to_bits()
                        }
                    }
                    "fpext" => (f32::from_bits(x as u32) as f64).to_bits(),
                    "fptrunc" => (f64::from_bits(x) as f32).to_bits() as u64,
                    _ => err!("{}", kind),
                };
                st.top.regs[*d as usize] = V::I(r);
            }
            Ins::Bad(s) => err!("unsupported instruction: {}", s),
            _ => err!("unhandled instruction {:?}", ins),
        }
        st.top.ip += 1;
        Flow::Next
    }

    fn set(&mut self, st: &mut State, d: u32, v: V) -> Flow {
        if d != u32::MAX {
            st.top.regs[d as usize] = v;
        }
        st.top.ip += 1;
        Flow::Next
    }

    /// Concrete operand, or None after forking to make it so (re-executes).
    fn need(&mut self, st: &mut State, o: &Opd) -> Result<Option<u64>, String> {
        match val(&st.top, o) {
            V::I(x) => Ok(Some(x)),
            V::W(x) => Ok(Some(*x as u64)),
            V::S(_) => self.concretize(st, o).map(|_| None),
            V::A(_) => Err("aggregate operand".into()),
        }
    }

    fn intrinsic(&mut self, st: &mut State, k: Intr, w: u16, n: u16, d: u32, args: &'static [Opd], name: &str) -> Flow {
        macro_rules! need {
            ($o:expr) => {
                match self.need(st, $o) {
                    Ok(Some(x)) => x,
                    Ok(None) => return Flow::Next,
                    Err(e) => err!("{}", e),
                }
            };
        }
        match k {
            Intr::Nop => return self.set(st, d, V::I(0)),
            Intr::First => {
                let v = val(&st.top, &args[0]);
                return self.set(st, d, v);
            }
            Intr::Memcpy => {
                let dst = need!(&args[0]);
                let src = need!(&args[1]);
                let len = need!(&args[2]);
                if len > 0 {
                    if !st.mem.writable(dst, len) || !st.mem.ok(src, len) {
                        err!("memcpy({:#x}, {:#x}, {})", dst, src, len);
                    }
                    st.mem.copy(dst, src, len);
                }
                return self.set(st, d, V::I(dst));
            }
            Intr::Memset => {
                let dst = need!(&args[0]);
                let b = val(&st.top, &args[1]);
                let len = need!(&args[2]);
                if len > 0 {
                    if !st.mem.writable(dst, len) {
                        err!("memset({:#x}, {})", dst, len);
                    }
                    let b = match b {
                        V::I(x) => B::C(x as u8),
                        V::S(e) => B::S(e),
                        _ => err!("memset value"),
                    };
                    st.mem.fill(dst, len, b);
                }
                return self.set(st, d, V::I(dst));
            }
            Intr::Trap => return Flow::End(End::Fail("panic".into(), "trap".into())),
            Intr::LoadRel => {
                let base = need!(&args[0]);
                let off = need!(&args[1]);
                let a = base.wrapping_add(off);
                if !st.mem.ok(a, 4) {
                    err!("load.relative at {:#x}", a);
                }
                let rel = st.mem.read_c(a, 4).unwrap() as u32 as i32;
                return self.set(st, d, V::I(base.wrapping_add(rel as i64 as u64)));
            }
            Intr::Unsupported => err!("unsupported intrinsic {}", name),
            Intr::ReduceOr | Intr::ReduceAnd | Intr::ReduceAdd => {
                let x = lanes(&val(&st.top, &args[0]), n);
                let op = match k {
                    Intr::ReduceOr => Op::Or,
                    Intr::ReduceAnd => Op::And,
                    _ => Op::Add,
                };
                let mut acc = x[0].clone();
                for y in &x[1..] {
                    acc = bin_v(op, w, &acc, y);
                }
                return self.set(st, d, acc);
            }
            _ => {}
        }
        let a = val(&st.top, &args[0]);
        let b = if args.len() > 1 { val(&st.top, &args[1]) } else { V::I(0) };
        let c = if args.len() > 2 { val(&st.top, &args[2]) } else { V::I(0) };
        if n > 0 {
            let la = lanes(&a, n);
            let lb = if args.len() > 1 { lanes_or_splat(&b, n) } else { vec![V::I(0); n as usize] };
            let lc = if args.len() > 2 { lanes_or_splat(&c, n) } else { vec![V::I(0); n as usize] };
            let mut out = vec![];
            for i in 0..n as usize {
                match self.scalar_intr(k, w, &la[i], &lb[i], &lc[i]) {
                    Ok(v) => out.push(v),
                    Err(e) => err!("{} ({})", e, name),
                }
            }
            return self.set(st, d, V::A(Rc::new(out)));
        }
        match self.scalar_intr(k, w, &a, &b, &c) {
            Ok(v) => self.set(st, d, v),
            Err(e) => err!("{} ({})", e, name),
        }
    }

    fn scalar_intr(&mut self, k: Intr, w: u16, a: &V, b: &V, c: &V) -> Result<V, String> {
        let pair = |v: V, o: V| Ok(V::A(Rc::new(vec![v, o])));
        let m = expr::mask(w);
        Ok(match k {
            Intr::UMax | Intr::UMin | Intr::SMax | Intr::SMin => {
                let p = match k {
                    Intr::UMax => Pred::Ugt,
                    Intr::UMin => Pred::Ult,
                    Intr::SMax => Pred::Sgt,
                    _ => Pred::Slt,
                };
                ite_v(&cmp_v(p, w, a, b), w, a, b)
            }
            Intr::Abs => {
                let neg = cmp_v(Pred::Slt, w, a, &mkv(w, 0));
                let na = bin_v(Op::Sub, w, &mkv(w, 0), a);
                ite_v(&neg, w, &na, a)
            }
            Intr::UAddO => {
                let s = bin_v(Op::Add, w, a, b);
                let o = cmp_v(Pred::Ult, w, &s, a);
                return pair(s, o);
            }
            Intr::USubO => {
                let s = bin_v(Op::Sub, w, a, b);
                let o = cmp_v(Pred::Ult, w, a, b);
                return pair(s, o);
            }
            Intr::SAddO | Intr::SSubO => {
                if let (Some(x), Some(y)) = (cu(a), cu(b)) {
                    let (x, y) = (expr::sext(x, w), expr::sext(y, w));
                    let (r, o1) = if k == Intr::SAddO { x.overflowing_add(y) } else { x.overflowing_sub(y) };
                    let t = expr::sext(r as u128 & m, w);
                    return pair(mkv(w, r as u128 & m), V::I((o1 || t != r) as u64));
                }
                let op = if k == Intr::SAddO { Op::Add } else { Op::Sub };
                let (ea, eb) = (expr::sext_e(w + 1, to_e(a, w)), expr::sext_e(w + 1, to_e(b, w)));
                let r = expr::bin(op, ea, eb);
                let t = expr::ext(r, 0, w);
                let o = expr::not(expr::cmp(Op::Eq, expr::sext_e(w + 1, t), r));
                return pair(from_e(t), from_e(o));
            }
            Intr::UMulO => {
                if let (Some(x), Some(y)) = (cu(a), cu(b)) {
                    let (r, o) = x.overflowing_mul(y);
                    return pair(mkv(w, r & m), V::I((o || r > m) as u64));
                }
                if w > 64 {
                    return Err("wide umul.o".into());
                }
                let (ea, eb) = (expr::zext(w * 2, to_e(a, w)), expr::zext(w * 2, to_e(b, w)));
                let r = expr::bin(Op::Mul, ea, eb);
                let hi = expr::ext(r, w, w);
                let o = expr::not(expr::cmp(Op::Eq, hi, expr::con(w, 0)));
                return pair(from_e(expr::ext(r, 0, w)), from_e(o));
            }
            Intr::SMulO => {
                if let (Some(x), Some(y)) = (cu(a), cu(b)) {
                    let (x, y) = (expr::sext(x, w), expr::sext(y, w));
                    let (r, o1) = x.overflowing_mul(y);
                    let t = expr::sext(r as u128 & m, w);
                    return pair(mkv(w, r as u128 & m), V::I((o1 || t != r) as u64));
                }
                if w > 64 {
                    return Err("wide smul.o".into());
                }
                let (ea, eb) = (expr::sext_e(w * 2, to_e(a, w)), expr::sext_e(w * 2, to_e(b, w)));
                let r = expr::bin(Op::Mul, ea, eb);
                let t = expr::ext(r, 0, w);
                let o = expr::not(expr::cmp(Op::Eq, expr::sext_e(w * 2, t), r));
                return pair(from_e(t), from_e(o));
            }
            Intr::USubSat => {
                let lt = cmp_v(Pred::Ult, w, a, b);
                let s = bin_v(Op::Sub, w, a, b);
                ite_v(&lt, w, &mkv(w, 0), &s)
            }
            Intr::UAddSat => {
                let s = bin_v(Op::Add, w, a, b);
                let o = cmp_v(Pred::Ult, w, &s, a);
                ite_v(&o, w, &mkv(w, m), &s)
            }
            Intr::SAddSat | Intr::SSubSat => {
                let (x, y) = match (cu(a), cu(b)) {
                    (Some(x), Some(y)) if w <= 64 => (expr::sext(x, w), expr::sext(y, w)),
                    _ => return Err("symbolic signed saturation".into()),
                };
                let r = if k == Intr::SAddSat { x + y } else { x - y };
                let hi = (m >> 1) as i128;
                let lo = -hi - 1;
                mkv(w, (r.clamp(lo, hi) as u128) & m)
            }
            Intr::Scmp | Intr::Ucmp => {
                let (lt, gt) = if k == Intr::Scmp { (Pred::Slt, Pred::Sgt) } else { (Pred::Ult, Pred::Ugt) };
                let l = cmp_v(lt, w, a, b);
                let g = cmp_v(gt, w, a, b);
                let inner = ite_v(&g, 8, &V::I(1), &V::I(0));
                ite_v(&l, 8, &V::I(255), &inner)
            }
            Intr::Fshl | Intr::Fshr => {
                let s = match cu(c) {
                    Some(s) => (s % w as u128) as u32,
                    None => return Err("symbolic funnel shift".into()),
                };
                match (cu(a), cu(b)) {
                    (Some(x), Some(y)) if w <= 64 => {
                        let cat = (x << w) | y;
                        let r = if k == Intr::Fshl { (cat << s) >> w } else { cat >> s };
                        mkv(w, r & m)
                    }
                    _ => {
                        let (x, y) = (to_e(a, w), to_e(b, w));
                        if s == 0 {
                            from_e(if k == Intr::Fshl { x } else { y })
                        } else {
                            let sh = if k == Intr::Fshl { s as u16 } else { w - s as u16 };
                            let hi = expr::ext(x, 0, w - sh);
                            let lo = expr::ext(y, w - sh, sh);
                            from_e(expr::concat(hi, lo))
                        }
                    }
                }
            }
            Intr::Ctlz | Intr::Cttz | Intr::Ctpop => {
                if let Some(x) = cu(a) {
                    let r = match k {
                        Intr::Ctlz => {
                            if x == 0 {
                                w as u32
                            } else {
                                x.leading_zeros() - (128 - w as u32)
                            }
                        }
                        Intr::Cttz => {
                            if x == 0 {
                                w as u32
                            } else {
                                x.trailing_zeros()
                            }
                        }
                        _ => x.count_ones(),
                    };
                    return Ok(mkv(w, r as u128));
                }
                let e = to_e(a, w);
                if k == Intr::Ctpop {
                    let mut acc = expr::con(w, 0);
                    for i in 0..w {
                        acc = expr::bin(Op::Add, acc, expr::zext(w, expr::ext(e, i, 1)));
                    }
                    return Ok(from_e(acc));
                }
                let mut acc = expr::con(w, w as u128);
                for i in 0..w {
                    // the last one assigned wins
                    let bit = if k == Intr::Ctlz { i } else { w - 1 - i };
                    let cnt = if k == Intr::Ctlz { w - 1 - i } else { w - 1 - i };
                    let bsel = expr::ext(e, bit, 1);
                    acc = expr::ite(bsel, expr::con(w, cnt as u128), acc);
                }
                from_e(acc)
            }
            Intr::Bswap => {
                if let Some(x) = cu(a) {
                    let n = w as usize / 8;
                    let b = x.to_le_bytes();
                    let mut r = 0u128;
                    for i in 0..n {
                        r = (r << 8) | b[i] as u128;
                    }
                    return Ok(mkv(w, r));
                }
                let e = to_e(a, w);
                let n = w / 8;
                let mut acc = expr::ext(e, 0, 8);
                for i in 1..n {
                    acc = expr::concat(acc, expr::ext(e, i * 8, 8));
                }
                from_e(acc)
            }
            Intr::Bitreverse => {
                let x = cu(a).ok_or("symbolic bitreverse")?;
                mkv(w, x.reverse_bits() >> (128 - w as u32))
            }
            Intr::PtrMask => bin_v(Op::And, 64, a, b),
            Intr::FAbs => {
                let x = cu(a).ok_or("symbolic fabs")?;
                mkv(w, x & (m >> 1))
            }
            Intr::CopySign => {
                let (x, y) = (cu(a).ok_or("copysign")?, cu(b).ok_or("copysign")?);
                mkv(w, (x & (m >> 1)) | (y & (1 << (w - 1))))
            }
            _ => return Err("intrinsic".into()),
        })
    }

    fn builtin_call(&mut self, st: &mut State, b: Builtin, d: u32, args: &'static [Opd]) -> Flow {
        macro_rules! need {
            ($i:expr) => {
                match self.need(st, &args[$i]) {
                    Ok(Some(x)) => x,
                    Ok(None) => return Flow::Next,
                    Err(e) => err!("{}", e),
                }
            };
        }
        match b {
            Builtin::Nop => self.set(st, d, V::I(0)),
            Builtin::Ret0 => self.set(st, d, V::I(0)),
            Builtin::RetArg0 => {
                let v = val(&st.top, &args[0]);
                self.set(st, d, v)
            }
            Builtin::Alloc | Builtin::AllocZeroed => {
                let size = need!(0);
                let align = need!(1);
                if size > 1 << 28 {
                    err!("allocation of {} bytes", size);
                }
                let p = st.alloc(size, align);
                if b == Builtin::AllocZeroed && size > 0 {
                    st.mem.fill(p, size, B::C(0));
                }
                self.set(st, d, V::I(p))
            }
            Builtin::Dealloc => {
                let p = need!(0);
                let size = need!(1);
                let align = need!(2);
                st.dealloc(p, size.max(align));
                self.set(st, d, V::I(0))
            }
            Builtin::Realloc => {
                let p = need!(0);
                let old = need!(1);
                let align = need!(2);
                let new = need!(3);
                if new > 1 << 28 {
                    err!("allocation of {} bytes", new);
                }
                if State::class(old.max(align)).0 == State::class(new.max(align)).0 {
                    return self.set(st, d, V::I(p));
                }
                let q = st.alloc(new, align);
                st.mem.copy(q, p, old.min(new));
                st.dealloc(p, old.max(align));
                self.set(st, d, V::I(q))
            }
            Builtin::Malloc => {
                let size = need!(0);
                let p = st.alloc(size, 16);
                self.set(st, d, V::I(p))
            }
            Builtin::Calloc => {
                let n = need!(0);
                let s = need!(1);
                let p = st.alloc(n * s, 16);
                st.mem.fill(p, n * s, B::C(0));
                self.set(st, d, V::I(p))
            }
            Builtin::Free => self.set(st, d, V::I(0)),
            Builtin::CRealloc => err!("realloc"),
            Builtin::Memcpy => {
                let dst = need!(0);
                let src = need!(1);
                let n = need!(2);
                if n > 0 {
                    if !st.mem.writable(dst, n) || !st.mem.ok(src, n) {
                        err!("memcpy({:#x}, {:#x}, {})", dst, src, n);
                    }
                    st.mem.copy(dst, src, n);
                }
                self.set(st, d, V::I(dst))
            }
            Builtin::Memset => {
                let dst = need!(0);
                let v = need!(1);
                let n = need!(2);
                if n > 0 {
                    if !st.mem.writable(dst, n) {
                        err!("memset");
                    }
                    st.mem.fill(dst, n, B::C(v as u8));
                }
                self.set(st, d, V::I(dst))
            }
            Builtin::Memcmp | Builtin::Bcmp => {
                let x = need!(0);
                let y = need!(1);
                let n = need!(2);
                if n > 0 && (!st.mem.ok(x, n) || !st.mem.ok(y, n)) {
                    err!("memcmp({:#x}, {:#x}, {})", x, y, n);
                }
                let r = if b == Builtin::Bcmp { self.bcmp(st, x, y, n) } else { self.memcmp(st, x, y, n) };
                self.set(st, d, r)
            }
            Builtin::Strlen => {
                let x = need!(0);
                let mut n = 0;
                loop {
                    match st.mem.get(x + n) {
                        B::C(0) => break,
                        B::C(_) => n += 1,
                        B::S(_) => err!("strlen of symbolic bytes"),
                    }
                }
                self.set(st, d, V::I(n))
            }
            Builtin::PanicFmt => {
                let t = val(&st.top, &args[0]);
                let a = val(&st.top, &args[1]);
                let l = val(&st.top, &args[2]);
                let msg = panic_text(st, &t, &a, &l);
                Flow::End(End::Fail("panic".into(), msg))
            }
            Builtin::PanicNounwindFmt => {
                let t = val(&st.top, &args[0]);
                let a = val(&st.top, &args[1]);
                let l = val(&st.top, &args[3]);
                let msg = panic_text(st, &t, &a, &l);
                Flow::End(End::Fail("panic".into(), msg))
            }
            Builtin::Abort => Flow::End(End::Fail("panic".into(), "abort".into())),
            Builtin::Write => {
                let n = need!(2);
                self.set(st, d, V::I(n))
            }
            Builtin::Writev => {
                let iov = need!(1);
                let cnt = need!(2);
                let mut t = 0;
                for i in 0..cnt {
                    t += match st.mem.read_c(iov + i * 16 + 8, 8) {
                        Some(x) => x,
                        None => err!("writev"),
                    };
                }
                self.set(st, d, V::I(t))
            }
            Builtin::RandKeys => self.set(st, d, V::A(Rc::new(vec![V::I(0x0123_4567_89ab_cdef), V::I(0xfedc_ba98_7654_3210)]))),
            Builtin::Errno => self.set(st, d, V::I(MUT_BASE + 16)),
            Builtin::Clock => {
                let p = need!(1);
                st.mem.write_c(p, 8, 1);
                st.mem.write_c(p + 8, 8, 1);
                self.set(st, d, V::I(0))
            }
            Builtin::Sysconf => self.set(st, d, V::I(4096)),
            Builtin::Exit | Builtin::CtlzTrap => err!("exit"),
            Builtin::SxByte => {
                if st.nvars >= 120 {
                    err!("too many symbolic bytes");
                }
                let e = expr::var(st.nvars);
                st.nvars += 1;
                self.set(st, d, V::S(e))
            }
            Builtin::SxAssume => match val(&st.top, &args[0]) {
                V::I(x) => {
                    if x & 1 == 1 {
                        self.set(st, d, V::I(0))
                    } else {
                        Flow::End(End::Pruned)
                    }
                }
                V::S(e) => {
                    let c = if expr::width(e) == 1 { e } else { expr::not(expr::cmp(Op::Eq, e, expr::con(expr::width(e), 0))) };
                    if expr::eval(c, &st.model) & 1 == 1 {
                        self.add(st, c);
                        return self.set(st, d, V::I(0));
                    }
                    match self.feasible(st, c) {
                        Some(m) => {
                            set_model(st, &m);
                            self.add(st, c);
                            self.set(st, d, V::I(0))
                        }
                        None => Flow::End(End::Pruned),
                    }
                }
                _ => err!("assume"),
            },
            Builtin::SxFail => {
                let p = need!(0);
                let n = need!(1);
                let mut s = vec![];
                for i in 0..n {
                    s.push(match st.mem.get(p + i) {
                        B::C(c) => c,
                        B::S(e) => expr::eval(e, &st.model) as u8,
                    });
                }
                Flow::End(End::Fail("assert".into(), String::from_utf8_lossy(&s).into_owned()))
            }
            Builtin::SxConc => {
                let x = need!(0);
                self.set(st, d, V::I(x))
            }
            Builtin::SxTier => self.set(st, d, V::I(self.limits.tier)),
            Builtin::SxCover => {
                let x = need!(0);
                st.covers |= 1u128 << (x & 127);
                self.set(st, d, V::I(0))
            }
            Builtin::SxEmit => {
                let p = need!(0);
                let n = need!(1);
                let em = Rc::make_mut(&mut st.emits);
                for i in 0..n {
                    em.push(st.mem.get(p + i));
                }
                self.set(st, d, V::I(0))
            }
            Builtin::SxPrune => Flow::End(End::Pruned),
            Builtin::SxIsSym => {
                let r = matches!(val(&st.top, &args[0]), V::S(_));
                self.set(st, d, V::I(r as u64))
            }
            Builtin::Open | Builtin::Read | Builtin::Close | Builtin::Statx | Builtin::Lseek | Builtin::Realpath | Builtin::Getcwd | Builtin::Strerror | Builtin::SxFile => self.file_call(st, b, d, args),
        }
    }

    /// A file system that holds what the harness put there, with /w as the current directory.
    fn file_call(&mut self, st: &mut State, b: Builtin, d: u32, args: &'static [Opd]) -> Flow {
        macro_rules! need {
            ($i:expr) => {
                match self.need(st, &args[$i]) {
                    Ok(Some(x)) => x,
                    Ok(None) => return Flow::Next,
                    Err(e) => err!("{}", e),
                }
            };
        }
        macro_rules! fail {
            ($e:expr, $r:expr) => {{
                st.mem.write_c(MUT_BASE + 16, 4, $e);
                return self.set(st, d, V::I($r));
            }};
        }
        fn cstr(st: &State, mut p: u64) -> Option<String> {
            let mut v = vec![];
            loop {
                match st.mem.get(p) {
                    B::C(0) => return String::from_utf8(v).ok(),
                    B::C(c) => v.push(c),
                    B::S(_) => return None,
                }
                p += 1;
            }
        }
        const M1: u64 = u32::MAX as u64;
        match b {
            Builtin::SxFile => {
                let (p, n, q, m) = (need!(0), need!(1), need!(2), need!(3));
                let mut name = String::from("/w/");
                for i in 0..n {
                    match st.mem.get(p + i) {
                        B::C(c) => name.push(c as char),
                        B::S(_) => err!("symbolic file name"),
                    }
                }
                let body: Vec<B> = (0..m).map(|i| st.mem.get(q + i)).collect();
                let files = Rc::make_mut(&mut st.files);
                match files.iter_mut().find(|f| f.0 == name) {
                    Some(f) => f.1 = body,
                    None => files.push((name, body)),
                }
                self.set(st, d, V::I(0))
            }
            Builtin::Realpath => {
                let p = need!(0);
                let path = match cstr(st, p) {
                    Some(s) => s,
                    None => err!("symbolic path"),
                };
                match real_path(&st.files, &path) {
                    Ok(s) => {
                        let q = st.alloc(s.len() as u64 + 1, 16);
                        for (i, c) in s.bytes().chain(std::iter::once(0)).enumerate() {
                            st.mem.set(q + i as u64, B::C(c));
                        }
                        self.set(st, d, V::I(q))
                    }
                    Err(e) => fail!(e, 0),
                }
            }
            Builtin::Open => {
                let p = need!(0);
                let path = match cstr(st, p) {
                    Some(s) => s,
                    None => err!("symbolic path"),
                };
                match real_path(&st.files, &path) {
                    Ok(s) => match st.files.iter().position(|f| f.0 == s) {
                        Some(i) => {
                            let fds = Rc::make_mut(&mut st.fds);
                            fds.push((i, 0));
                            let n = fds.len() as u64 + 9;
                            self.set(st, d, V::I(n))
                        }
                        // a directory, which cannot be read
                        None => {
                            let fds = Rc::make_mut(&mut st.fds);
                            fds.push((usize::MAX, 0));
                            let n = fds.len() as u64 + 9;
                            self.set(st, d, V::I(n))
                        }
                    },
                    Err(e) => fail!(e, M1),
                }
            }
            Builtin::Read => {
                let (fd, p, n) = (need!(0) & 0xffff_ffff, need!(1), need!(2));
                if fd < 10 || fd - 10 >= st.fds.len() as u64 {
                    fail!(9, u64::MAX);
                }
                let (f, pos) = st.fds[fd as usize - 10];
                if f == usize::MAX {
                    fail!(21, u64::MAX);
                }
                let k = (st.files[f].1.len() - pos).min(n as usize);
                if k > 0 && !st.mem.writable(p, k as u64) {
                    err!("read({:#x}, {})", p, k);
                }
                let files = st.files.clone();
                for i in 0..k {
                    st.mem.set(p + i as u64, files[f].1[pos + i].clone());
                }
                Rc::make_mut(&mut st.fds)[fd as usize - 10].1 += k;
                self.set(st, d, V::I(k as u64))
            }
            Builtin::Close => self.set(st, d, V::I(0)),
            Builtin::Getcwd => {
                let (p, n) = (need!(0), need!(1));
                if n < 3 {
                    fail!(34, 0);
                }
                for (i, c) in b"/w\0".iter().enumerate() {
                    st.mem.set(p + i as u64, B::C(*c));
                }
                self.set(st, d, V::I(p))
            }
            Builtin::Lseek => {
                let (fd, o, w) = (need!(0) & 0xffff_ffff, need!(1) as i64, need!(2) & 0xffff_ffff);
                if fd < 10 || fd - 10 >= st.fds.len() as u64 {
                    fail!(9, u64::MAX);
                }
                let (f, pos) = st.fds[fd as usize - 10];
                let len = if f == usize::MAX { 0 } else { st.files[f].1.len() };
                let n = o + [0, pos as i64, len as i64][(w as usize).min(2)];
                if n < 0 || n > len as i64 {
                    err!("lseek to {}", n);
                }
                Rc::make_mut(&mut st.fds)[fd as usize - 10].1 = n as usize;
                self.set(st, d, V::I(n as u64))
            }
            Builtin::Statx => {
                let (fd, p, flags, buf) = (need!(0) & 0xffff_ffff, need!(1), need!(2), need!(4));
                if p == 0 || buf == 0 {
                    fail!(14, M1);
                }
                let path = match cstr(st, p) {
                    Some(s) => s,
                    None => err!("symbolic path"),
                };
                let f = if path.is_empty() && flags & 0x1000 != 0 {
                    if fd < 10 || fd - 10 >= st.fds.len() as u64 {
                        fail!(9, M1);
                    }
                    st.fds[fd as usize - 10].0
                } else {
                    match real_path(&st.files, &path) {
                        Ok(s) => st.files.iter().position(|f| f.0 == s).unwrap_or(usize::MAX),
                        Err(e) => fail!(e, M1),
                    }
                };
                if !st.mem.writable(buf, 256) {
                    err!("statx({:#x})", buf);
                }
                let (mode, size) = if f == usize::MAX { (0o40755u16, 4096) } else { (0o100644, st.files[f].1.len() as u64) };
                let mut x = [0u8; 256];
                x[..4].copy_from_slice(&0xfffu32.to_le_bytes());
                x[4..8].copy_from_slice(&4096u32.to_le_bytes());
                x[16] = 1;
                x[28..30].copy_from_slice(&mode.to_le_bytes());
                x[32..40].copy_from_slice(&(f as u64).wrapping_add(100).to_le_bytes());
                x[40..48].copy_from_slice(&size.to_le_bytes());
                for (i, c) in x.iter().enumerate() {
                    st.mem.set(buf + i as u64, B::C(*c));
                }
                self.set(st, d, V::I(0))
            }
            Builtin::Strerror => {
                let p = need!(1);
                for (i, c) in b"file error\0".iter().enumerate() {
                    st.mem.set(p + i as u64, B::C(*c));
                }
                self.set(st, d, V::I(0))
            }
            _ => err!("file system call {:?}", b),
        }
    }

    fn bcmp(&mut self, st: &State, x: u64, y: u64, n: u64) -> V {
        let mut acc = expr::con(1, 1);
        for i in 0..n {
            match (st.mem.get(x + i), st.mem.get(y + i)) {
                (B::C(p), B::C(q)) => {
                    if p != q {
                        return V::I(1);
                    }
                }
                (p, q) => {
                    let eq = expr::cmp(Op::Eq, p.e(), q.e());
                    if expr::cst(eq) == Some(0) {
                        return V::I(1);
                    }
                    acc = expr::bin(Op::And, acc, eq);
                }
            }
        }
        from_e(expr::ite(acc, expr::con(32, 0), expr::con(32, 1)))
    }
    fn memcmp(&mut self, st: &State, x: u64, y: u64, n: u64) -> V {
        let mut acc = expr::con(32, 0);
        for i in (0..n).rev() {
            match (st.mem.get(x + i), st.mem.get(y + i)) {
                (B::C(p), B::C(q)) => {
                    if p != q {
                        acc = expr::con(32, (p as i32 - q as i32) as u32 as u128);
                    }
                }
                (p, q) => {
                    let (p, q) = (p.e(), q.e());
                    let eq = expr::cmp(Op::Eq, p, q);
                    let lt = expr::cmp(Op::Ult, p, q);
                    let ne = expr::ite(lt, expr::con(32, u32::MAX as u128), expr::con(32, 1));
                    acc = expr::ite(eq, acc, ne);
                }
            }
        }
        from_e(acc)
    }
}

fn panic_text(st: &State, t: &V, a: &V, l: &V) -> String {
    let mut loc = String::from("?");
    if let V::I(l) = l {
        if st.mem.ok(*l, 24) {
            if let (Some(p), Some(n), Some(line)) = (st.mem.read_c(*l, 8), st.mem.read_c(*l + 8, 8), st.mem.read_c(*l + 16, 4)) {
                if n < 4096 && st.mem.ok(p, n) {
                    let s: Vec<u8> = (0..n).filter_map(|i| if let B::C(c) = st.mem.get(p + i) { Some(c) } else { None }).collect();
                    loc = format!("{}:{}", String::from_utf8_lossy(&s).trim_end_matches('\0'), line);
                }
            }
        }
    }
    let mut msg = String::new();
    if let (V::I(t), V::I(a)) = (t, a) {
        if a & 1 == 1 && a >> 1 < 4096 && st.mem.ok(*t, a >> 1) {
            let s: Vec<u8> = (0..a >> 1).filter_map(|i| if let B::C(c) = st.mem.get(t + i) { Some(c) } else { None }).collect();
            msg = String::from_utf8_lossy(&s).into_owned();
        }
    }
    format!("panic at {} {}", loc, msg)
}

enum Rf {
    C(u64),
    N,
}
#[inline(always)]
fn rf(f: &Frame, o: &Opd) -> Rf {
    match o {
        Opd::R(r) => match unsafe { f.regs.get_unchecked(*r as usize) } {
            V::I(x) => Rf::C(*x),
            _ => Rf::N,
        },
        Opd::C(c) => Rf::C(*c),
        Opd::K(_) => Rf::N,
    }
}

#[inline(always)]
pub fn val(f: &Frame, o: &Opd) -> V {
    match o {
        Opd::R(r) => unsafe { f.regs.get_unchecked(*r as usize).clone() },
        Opd::C(c) => V::I(*c),
        Opd::K(v) => v.clone(),
    }
}

fn cu(v: &V) -> Option<u128> {
    match v {
        V::I(x) => Some(*x as u128),
        V::W(x) => Some(**x),
        _ => None,
    }
}

#[inline(always)]
fn fast_bin(op: Op, w: u16, a: u64, b: u64) -> Option<u64> {
    let m = if w >= 64 { u64::MAX } else { (1u64 << w) - 1 };
    Some(match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::Shl if b < w as u64 => (a << b) & m,
        Op::LShr if b < w as u64 => a >> b,
        _ => return None,
    })
}

#[inline(always)]
fn cmp_u(p: Pred, w: u16, a: u64, b: u64) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        _ => {
            let s = 64 - w as u32;
            let (x, y) = (((a << s) as i64) >> s, ((b << s) as i64) >> s);
            match p {
                Pred::Slt => x < y,
                Pred::Sle => x <= y,
                Pred::Sgt => x > y,
                _ => x >= y,
            }
        }
    }
}

pub fn bin_v(op: Op, w: u16, a: &V, b: &V) -> V {
    if let (Some(x), Some(y)) = (cu(a), cu(b)) {
        return mkv(w, expr::bin_c(op, w, x, y));
    }
    from_e(expr::bin(op, to_e(a, w), to_e(b, w)))
}
pub fn cmp_v(p: Pred, w: u16, a: &V, b: &V) -> V {
    let (op, swap, neg) = match p {
        Pred::Eq => (Op::Eq, false, false),
        Pred::Ne => (Op::Eq, false, true),
        Pred::Ult => (Op::Ult, false, false),
        Pred::Ule => (Op::Ule, false, false),
        Pred::Ugt => (Op::Ult, true, false),
        Pred::Uge => (Op::Ule, true, false),
        Pred::Slt => (Op::Slt, false, false),
        Pred::Sle => (Op::Sle, false, false),
        Pred::Sgt => (Op::Slt, true, false),
        Pred::Sge => (Op::Sle, true, false),
    };
    let (x, y) = if swap { (b, a) } else { (a, b) };
    if let (Some(x), Some(y)) = (cu(x), cu(y)) {
        return V::I((expr::cmp_c(op, w, x, y) != neg) as u64);
    }
    let e = expr::cmp(op, to_e(x, w), to_e(y, w));
    from_e(if neg { expr::not(e) } else { e })
}
pub fn cast_v(k: Cast, from: u16, to: u16, v: &V) -> V {
    match v {
        V::I(x) => match k {
            Cast::Copy => V::I(*x),
            Cast::ZExt => {
                if to > 64 {
                    mkv(to, *x as u128)
                } else {
                    V::I(*x)
                }
            }
            Cast::Trunc => V::I(if to >= 64 { *x } else { x & ((1u64 << to) - 1) }),
            Cast::SExt => mkv(to, (expr::sext(*x as u128, from) as u128) & expr::mask(to)),
        },
        V::W(x) => match k {
            Cast::Copy | Cast::ZExt => v.clone(),
            Cast::Trunc => mkv(to, **x & expr::mask(to)),
            Cast::SExt => mkv(to, (expr::sext(**x, from) as u128) & expr::mask(to)),
        },
        V::S(e) => match k {
            Cast::Copy => v.clone(),
            Cast::ZExt => from_e(expr::zext(to, *e)),
            Cast::SExt => from_e(expr::sext_e(to, *e)),
            Cast::Trunc => from_e(expr::ext(*e, 0, to)),
        },
        V::A(_) => v.clone(),
    }
}
fn ite_v(c: &V, w: u16, a: &V, b: &V) -> V {
    match c {
        V::I(x) => {
            if x & 1 == 1 {
                a.clone()
            } else {
                b.clone()
            }
        }
        V::S(e) => from_e(expr::ite(*e, to_e(a, w), to_e(b, w))),
        _ => panic!("ite"),
    }
}
fn lanes(v: &V, n: u16) -> Vec<V> {
    match v {
        V::A(x) => (**x).clone(),
        _ => vec![V::I(0); n as usize],
    }
}
fn lanes_or_splat(v: &V, n: u16) -> Vec<V> {
    match v {
        V::A(x) => (**x).clone(),
        v => vec![v.clone(); n as usize],
    }
}
fn insert(agg: &mut V, path: &[u32], x: V) {
    if let V::A(rc) = agg {
        let v = Rc::make_mut(rc);
        if path.len() == 1 {
            v[path[0] as usize] = x;
        } else {
            insert(&mut v[path[0] as usize], &path[1..], x);
        }
    }
}
fn load_agg(st: &State, ty: &Ty, a: u64) -> V {
    if ty.is_agg() {
        if let Ty::Vec(n, t) = ty {
            if t.bits() < 8 {
                // packed bits
                let v = st.mem.read(a, ((n * t.bits() as u64 + 7) / 8) as usize, (n * t.bits() as u64) as u16);
                return unflat(to_e(&v, (n * t.bits() as u64) as u16), ty);
            }
        }
        let n = ty.nfields();
        V::A(Rc::new((0..n).map(|i| load_agg(st, &ty.field(i), a + ty.field_off(i))).collect()))
    } else {
        st.mem.read(a, ((ty.bits() + 7) / 8) as usize, ty.bits())
    }
}
fn store_agg(st: &mut State, ty: &Ty, a: u64, v: &V) {
    if ty.is_agg() {
        if let V::A(x) = v {
            for i in 0..ty.nfields() {
                store_agg(st, &ty.field(i), a + ty.field_off(i), &x[i]);
            }
        }
    } else {
        st.mem.write(a, ((ty.bits() + 7) / 8) as usize, ty.bits(), v);
    }
}
fn flat(v: &V, ty: &Ty) -> E {
    match ty {
        Ty::Vec(_, t) => {
            let w = t.bits();
            let x = lanes(v, ty.lanes());
            let mut e = NOE;
            for l in x.iter() {
                let le = to_e(l, w);
                e = if e == NOE { le } else { expr::concat(le, e) };
            }
            e
        }
        t => to_e(v, t.bits()),
    }
}
fn unflat(e: E, ty: &Ty) -> V {
    match ty {
        Ty::Vec(n, t) => {
            let w = t.bits();
            V::A(Rc::new((0..*n).map(|i| from_e(expr::ext(e, i as u16 * w, w))).collect()))
        }
        _ => from_e(e),
    }
}
fn fl(w: u16, x: u64) -> f64 {
    if w == 32 {
        f32::from_bits(x as u32) as f64
    } else {
        f64::from_bits(x)
    }
}
fn fbin(op: u8, w: u16, a: &V, b: &V) -> Option<V> {
    let (x, y) = match (a, b) {
        (V::I(x), V::I(y)) => (*x, *y),
        _ => return None,
    };
    Some(V::I(if w == 32 {
        let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
        match op {
            b'a' => x + y,
            b's' => x - y,
            b'm' => x * y,
            b'd' => x / y,
            _ => x % y,
        }
        .to_bits() as u64
    } else {
        let (x, y) = (f64::from_bits(x), f64::from_bits(y));
        match op {
            b'a' => x + y,
            b's' => x - y,
            b'm' => x * y,
            b'd' => x / y,
            _ => x % y,
        }
        .to_bits()
    }))
}

/// The path without links, "." and "..", or the error number.
fn real_path(files: &[(String, Vec<B>)], path: &str) -> Result<String, u64> {
    if path.is_empty() {
        return Err(2);
    }
    let mut at: Vec<&str> = if path.starts_with('/') { vec![] } else { vec!["w"] };
    let join = |v: &Vec<&str>| v.iter().map(|c| format!("/{}", c)).collect::<String>();
    let kind = |s: &str| {
        if files.iter().any(|f| f.0 == s) {
            1
        } else if s.is_empty() || s == "/w" || files.iter().any(|f| f.0.starts_with(&format!("{}/", s))) {
            2
        } else {
            0
        }
    };
    let parts: Vec<&str> = path.split('/').collect();
    for c in parts.iter() {
        // every step leads through a directory
        if kind(&join(&at)) == 1 {
            return Err(20);
        }
        match *c {
            "" | "." => {}
            ".." => {
                at.pop();
            }
            c => {
                at.push(c);
                if kind(&join(&at)) == 0 {
                    return Err(2);
                }
            }
        }
    }
    let s = join(&at);
    Ok(if s.is_empty() { "/".into() } else { s })
}
