//! Reader for the textual LLVM IR that rustc emits: modules are indexed up front, function
//! bodies and constants are decoded on first use.
use crate::expr::Op;
use crate::fx::FxMap;
use std::rc::Rc;

pub const CONST_BASE: u64 = 0x1000_0000_0000;
pub const MUT_BASE: u64 = 0x2000_0000_0000;
pub const FN_BASE: u64 = 0x7000_0000_0000;
/// offset of the stack and the heap inside the mutable region
pub const STACK_OFF: u64 = 1 << 20;
pub const STACK_SIZE: u64 = 31 << 20;
pub const HEAP_OFF: u64 = 32 << 20;

/// A run-time value.
#[derive(Clone, Debug)]
pub enum V {
    I(u64),
    W(Rc<u128>),
    S(u32),
    A(Rc<Vec<V>>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(u64),
    K(V),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    F32,
    F64,
    FOther(u16),
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Label,
    Meta,
}

impl Ty {
    pub fn bits(&self) -> u16 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::F32 => 32,
            Ty::F64 => 64,
            Ty::FOther(w) => *w,
            _ => 0,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match *w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::FOther(w) => *w as u64 / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::FOther(w) => *w as u64 / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => (n * t.bits() as u64 + 7) / 8,
            Ty::Struct(f, _) => {
                let mut o = 0;
                for i in 0..f.len() {
                    o = self.field_off(i) + f[i].size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off {:?}", self),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn field(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..))
    }
    pub fn lanes(&self) -> u16 {
        match self {
            Ty::Vec(n, _) => *n as u16,
            _ => 0,
        }
    }
    pub fn scalar_bits(&self) -> u16 {
        match self {
            Ty::Vec(_, t) => t.bits(),
            t => t.bits(),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cast {
    ZExt,
    SExt,
    Trunc,
    /// same-width reinterpretation (bitcast of scalars, ptrtoint/inttoptr, freeze)
    Copy,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Intr {
    Nop,
    /// copy the first argument
    First,
    Memcpy,
    Memset,
    UMax,
    UMin,
    SMax,
    SMin,
    Fshl,
    Fshr,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitreverse,
    Abs,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    USubSat,
    UAddSat,
    SAddSat,
    SSubSat,
    Scmp,
    Ucmp,
    LoadRel,
    Trap,
    PtrMask,
    FAbs,
    CopySign,
    ReduceOr,
    ReduceAnd,
    ReduceAdd,
    Unsupported,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Opd),
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin { op: Op, w: u16, n: u16, d: u32, a: Opd, b: Opd },
    Cmp { pred: Pred, w: u16, n: u16, d: u32, a: Opd, b: Opd },
    Cast { kind: Cast, from: u16, to: u16, n: u16, d: u32, a: Opd },
    /// vector <-> scalar bitcast
    VCast { from: Ty, to: Ty, d: u32, a: Opd },
    FBin { op: u8, w: u16, n: u16, d: u32, a: Opd, b: Opd },
    FCmp { pred: String, w: u16, d: u32, a: Opd, b: Opd },
    FConv { kind: String, from: Ty, to: Ty, d: u32, a: Opd },
    Load { d: u32, w: u16, bytes: u8, p: Opd },
    LoadAgg { d: u32, ty: Ty, p: Opd },
    Store { w: u16, bytes: u8, v: Opd, p: Opd },
    StoreAgg { ty: Ty, v: Opd, p: Opd },
    Gep { d: u32, base: Opd, off: i64, idx: Vec<(Opd, i64, u16)> },
    Select { d: u32, w: u16, n: u16, ptr: bool, c: Opd, a: Opd, b: Opd },
    Br { t: u32 },
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { w: u16, v: Opd, def: u32, cases: Vec<(u64, u32)>, map: Option<Rc<FxMap<u64, u32>>> },
    Ret { v: Option<Opd> },
    Unreachable,
    Call { d: u32, f: Callee, args: Vec<Opd> },
    Intr { k: Intr, w: u16, n: u16, d: u32, args: Vec<Opd>, name: String },
    ExtractV { d: u32, a: Opd, path: Vec<u32> },
    InsertV { d: u32, a: Opd, v: Opd, path: Vec<u32>, ty: Ty },
    ExtractE { d: u32, a: Opd, i: Opd },
    InsertE { d: u32, a: Opd, v: Opd, i: Opd, n: u16 },
    Shuffle { d: u32, a: Opd, b: Opd, n: u16, mask: Vec<i32> },
    Alloca { d: u32, size: u64, align: u64 },
    Rmw { d: u32, op: String, w: u16, bytes: u8, p: Opd, v: Opd },
    CmpXchg { d: u32, w: u16, bytes: u8, p: Opd, c: Opd, n: Opd },
    Bad(String),
}

pub struct Block {
    pub ins: Vec<Ins>,
    /// phi copies per predecessor
    pub edges: Vec<(u32, Vec<(u32, Opd)>)>,
}

pub struct Func {
    pub name: String,
    pub id: u32,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
}

pub type Text = &'static [u8];

pub struct FnEntry {
    pub name: Text,
    pub m: u32,
    pub text: Option<Text>,
    pub func: Option<&'static Func>,
    pub builtin: Option<crate::exec::Builtin>,
    pub calls: u64,
}

pub struct GEntry {
    pub name: Text,
    pub m: u32,
    pub text: Option<Text>,
    pub constant: bool,
    pub addr: u64,
}

#[derive(Clone, Copy)]
pub enum Sym {
    F(u32),
    G(u32),
    A(u32),
}

#[derive(Default)]
pub struct Module {
    pub name: String,
    local: FxMap<Text, Sym>,
    types: FxMap<Text, Text>,
}

#[derive(Default)]
pub struct Program {
    pub mods: Vec<Module>,
    global: FxMap<Text, Sym>,
    pub fns: Vec<FnEntry>,
    pub globs: Vec<GEntry>,
    aliases: Vec<(u32, Text)>,
    pub consts: Vec<u8>,
    pub mut_init: Vec<(u64, Vec<u8>)>,
    pub mut_next: u64,
}

static mut PROG: *mut Program = std::ptr::null_mut();
#[inline(always)]
pub fn pg() -> &'static mut Program {
    unsafe { &mut *PROG }
}
pub fn init() {
    let p = Program { mut_next: 64, ..Default::default() };
    unsafe { PROG = Box::into_raw(Box::new(p)) };
}

fn line_end(s: &[u8], i: usize) -> usize {
    match s[i..].iter().position(|&c| c == b'\n') {
        Some(p) => i + p,
        None => s.len(),
    }
}

fn read_name(s: &'static [u8], i: &mut usize) -> Text {
    // at the character after @ or %
    if s[*i] == b'"' {
        let st = *i + 1;
        let mut j = st;
        while s[j] != b'"' {
            j += 1;
        }
        *i = j + 1;
        &s[st..j]
    } else {
        let st = *i;
        let mut j = st;
        while j < s.len() && (s[j].is_ascii_alphanumeric() || matches!(s[j], b'$' | b'.' | b'_' | b'-')) {
            j += 1;
        }
        *i = j;
        &s[st..j]
    }
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}

pub fn load_module(path: &str) {
    let data = std::fs::read(path).unwrap_or_else(|e| panic!("{}: {}", path, e));
    let s: &'static [u8] = Box::leak(data.into_boxed_slice());
    let p = pg();
    let mid = p.mods.len() as u32;
    p.mods.push(Module { name: path.to_string(), ..Default::default() });
    let mut i = 0;
    while i < s.len() {
        let e = line_end(s, i);
        let line = &s[i..e];
        match line.first() {
            Some(b'%') => {
                let mut j = i + 1;
                let nm = read_name(s, &mut j);
                if let Some(q) = find(&s[j..e], b"= type ") {
                    p.mods[mid as usize].types.insert(nm, &s[j + q + 7..e]);
                }
            }
            Some(b'@') => {
                let mut j = i + 1;
                let nm = read_name(s, &mut j);
                let rest = &s[j..e];
                let rest = rest.strip_prefix(b" = ").unwrap();
                add_global(mid, nm, rest);
            }
            Some(b'd') if line.starts_with(b"define ") => {
                // body ends at "\n}\n"
                let mut j = e;
                loop {
                    let le = line_end(s, j + 1);
                    if &s[j + 1..le] == b"}" {
                        j = le;
                        break;
                    }
                    j = le;
                    if j >= s.len() {
                        break;
                    }
                }
                let text = &s[i..j];
                let at = line.iter().position(|&c| c == b'@').unwrap();
                let mut q = i + at + 1;
                let nm = read_name(s, &mut q);
                let head = &line[..at];
                let local = find(head, b"internal ").is_some() || find(head, b"private ").is_some();
                let avail = find(head, b"available_externally ").is_some();
                if !avail {
                    add_fn(mid, nm, text, local);
                }
                i = j + 1;
                continue;
            }
            _ => {}
        }
        i = e + 1;
    }
}

fn add_fn(m: u32, nm: Text, text: Text, local: bool) {
    let p = pg();
    let sym = if local { p.mods[m as usize].local.get(nm).copied() } else { p.global.get(nm).copied() };
    if let Some(Sym::F(f)) = sym {
        if p.fns[f as usize].text.is_none() {
            p.fns[f as usize].text = Some(text);
            p.fns[f as usize].m = m;
        }
        return;
    }
    let id = p.fns.len() as u32;
    let builtin = crate::exec::builtin(nm);
    p.fns.push(FnEntry { name: nm, m, text: Some(text), func: None, builtin, calls: 0 });
    if local {
        p.mods[m as usize].local.insert(nm, Sym::F(id));
    } else {
        p.global.insert(nm, Sym::F(id));
    }
}

fn add_global(m: u32, nm: Text, rest: Text) {
    let p = pg();
    // first line words up to the type
    let head_end = rest.len().min(160);
    let head = &rest[..head_end];
    let words: Vec<&[u8]> = head.split(|&c| c == b' ').collect();
    let local = words.iter().take(3).any(|w| *w == b"private" || *w == b"internal");
    let pos = words.iter().position(|w| matches!(*w, b"global" | b"constant" | b"alias"));
    let kind = match pos {
        Some(x) => words[x],
        None => return,
    };
    let mut off = 0;
    for w in &words[..=pos.unwrap()] {
        off += w.len() + 1;
    }
    let after: Text = &rest[off.min(rest.len())..];
    let sym = if kind == b"alias" {
        let id = p.aliases.len() as u32;
        // "<ty>, ptr @target"
        p.aliases.push((m, after));
        Sym::A(id)
    } else {
        let external = words[..pos.unwrap()].iter().any(|w| *w == b"external" || *w == b"extern_weak");
        let id = p.globs.len() as u32;
        if external {
            return; // resolved through the defining module
        }
        p.globs.push(GEntry { name: nm, m, text: Some(after), constant: kind == b"constant", addr: 0 });
        Sym::G(id)
    };
    if local {
        p.mods[m as usize].local.insert(nm, sym);
    } else {
        p.global.entry(nm).or_insert(sym);
    }
}

/// Lay out all mutable globals; constants are laid out on demand.
pub fn layout_globals() {
    let n = pg().globs.len();
    for g in 0..n {
        if !pg().globs[g].constant {
            glob_addr(g as u32);
        }
    }
}

pub fn glob_addr(g: u32) -> u64 {
    let p = pg();
    let ge = &p.globs[g as usize];
    if ge.addr != 0 {
        return ge.addr;
    }
    let (m, text, constant) = (ge.m, ge.text.unwrap(), ge.constant);
    let mut ps = Parser::new(m, text);
    let ty = ps.ty();
    let size = ty.size();
    let align = ty.align().max(16);
    if constant {
        let off = (p.consts.len() as u64 + align - 1) / align * align;
        // a gap between objects keeps stray accesses from silently landing in a neighbour
        p.consts.resize((off + size + 16) as usize, 0);
        p.globs[g as usize].addr = CONST_BASE + 4096 + off;
        let mut buf = vec![0u8; size as usize];
        ps.const_into(&ty, &mut buf);
        let p = pg();
        p.consts[off as usize..(off + size) as usize].copy_from_slice(&buf);
        CONST_BASE + 4096 + off
    } else {
        let off = (p.mut_next + align - 1) / align * align;
        p.mut_next = off + size.max(1) + 16;
        assert!(p.mut_next < STACK_OFF);
        p.globs[g as usize].addr = MUT_BASE + off;
        let mut buf = vec![0u8; size as usize];
        ps.const_into(&ty, &mut buf);
        pg().mut_init.push((MUT_BASE + off, buf));
        MUT_BASE + off
    }
}

pub fn lookup(m: u32, nm: &[u8]) -> Option<Sym> {
    let p = pg();
    if let Some(s) = p.mods[m as usize].local.get(nm) {
        return Some(*s);
    }
    p.global.get(nm).copied()
}

/// Function id for a symbol, creating an undefined entry when nothing defines it.
pub fn fn_id(m: u32, nm: Text) -> u32 {
    match lookup(m, nm) {
        Some(Sym::F(f)) => f,
        Some(Sym::A(a)) => {
            let (am, t) = pg().aliases[a as usize];
            let at = t.iter().position(|&c| c == b'@').unwrap();
            // skip the aliasee type: the target is the last @name of the line
            let last = t.iter().rposition(|&c| c == b'@').unwrap_or(at);
            let mut i = last + 1;
            let nm = read_name(t, &mut i);
            fn_id(am, nm)
        }
        _ => {
            let p = pg();
            let id = p.fns.len() as u32;
            p.fns.push(FnEntry { name: nm, m, text: None, func: None, builtin: crate::exec::builtin(nm), calls: 0 });
            p.global.insert(nm, Sym::F(id));
            id
        }
    }
}

fn sym_addr(m: u32, nm: Text) -> u64 {
    match lookup(m, nm) {
        Some(Sym::G(g)) => glob_addr(g),
        Some(Sym::A(a)) => {
            let (am, t) = pg().aliases[a as usize];
            let last = t.iter().rposition(|&c| c == b'@').unwrap();
            let mut i = last + 1;
            let nm = read_name(t, &mut i);
            sym_addr(am, nm)
        }
        Some(Sym::F(f)) => FN_BASE + f as u64 * 16,
        None => {
            // undefined external: weak libc functions and data
            let f = fn_id(m, nm);
            if crate::exec::weak_null(nm) {
                return 0;
            }
            FN_BASE + f as u64 * 16
        }
    }
}

pub fn func(id: u32) -> Option<&'static Func> {
    let fe = &mut pg().fns[id as usize];
    if let Some(f) = fe.func {
        return Some(f);
    }
    let text = fe.text?;
    let m = fe.m;
    let f = Parser::new(m, text).function(id);
    let f: &'static Func = Box::leak(Box::new(f));
    pg().fns[id as usize].func = Some(f);
    Some(f)
}

struct Parser {
    m: u32,
    s: Text,
    i: usize,
    regs: FxMap<Text, u32>,
    labels: FxMap<Text, u32>,
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'-' | b'$')
}

impl Parser {
    fn new(m: u32, s: Text) -> Parser {
        Parser { m, s, i: 0, regs: Default::default(), labels: Default::default() }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            let a = self.i.saturating_sub(80);
            let b = (self.i + 80).min(self.s.len());
            panic!("expected {:?} at ...{}<HERE>{}", c as char, String::from_utf8_lossy(&self.s[a..self.i]), String::from_utf8_lossy(&self.s[self.i..b]));
        }
    }
    fn word(&mut self) -> Text {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && is_word(self.s[self.i]) {
            self.i += 1;
        }
        &self.s[st..self.i]
    }
    fn peek_word(&mut self) -> Text {
        self.ws();
        let save = self.i;
        let w = self.word();
        self.i = save;
        w
    }
    fn eat_word(&mut self, w: &[u8]) -> bool {
        let save = self.i;
        if self.word() == w {
            true
        } else {
            self.i = save;
            false
        }
    }
    fn eol(&mut self) {
        self.i = line_end(self.s, self.i);
    }
    fn num(&mut self) -> i128 {
        let w = self.word();
        std::str::from_utf8(w).unwrap().parse().unwrap_or_else(|_| panic!("number {:?}", String::from_utf8_lossy(w)))
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            let c = self.s[self.i];
            self.i += 1;
            match c {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                b'"' => {
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                    self.i += 1;
                }
                _ => {}
            }
        }
    }

    pub fn ty(&mut self) -> Ty {
        let c = self.peek();
        match c {
            b'{' => {
                self.i += 1;
                let f = self.ty_list(b'}');
                Ty::Struct(Rc::new(f), false)
            }
            b'<' => {
                self.i += 1;
                if self.eat(b'{') {
                    let f = self.ty_list(b'}');
                    self.expect(b'>');
                    return Ty::Struct(Rc::new(f), true);
                }
                let n = self.num() as u64;
                assert!(self.eat_word(b"x"));
                let t = self.ty();
                self.expect(b'>');
                Ty::Vec(n, Rc::new(t))
            }
            b'[' => {
                self.i += 1;
                let n = self.num() as u64;
                assert!(self.eat_word(b"x"));
                let t = self.ty();
                self.expect(b']');
                Ty::Arr(n, Rc::new(t))
            }
            b'%' => {
                self.i += 1;
                let nm = read_name(self.s, &mut self.i);
                let t = pg().mods[self.m as usize].types.get(nm).copied().unwrap_or_else(|| panic!("type {}", String::from_utf8_lossy(nm)));
                if t == b"opaque" {
                    return Ty::Struct(Rc::new(vec![]), false);
                }
                Parser::new(self.m, t).ty()
            }
            _ => {
                let w = self.word();
                let t = match w {
                    b"ptr" => Ty::Ptr,
                    b"void" => Ty::Void,
                    b"float" => Ty::F32,
                    b"double" => Ty::F64,
                    b"half" => Ty::FOther(16),
                    b"fp128" => Ty::FOther(128),
                    b"label" => Ty::Label,
                    b"metadata" => Ty::Meta,
                    _ if w.first() == Some(&b'i') => {
                        let n: u16 = std::str::from_utf8(&w[1..]).unwrap().parse().unwrap_or_else(|_| panic!("type {:?}", String::from_utf8_lossy(w)));
                        Ty::Int(n)
                    }
                    _ => panic!("type {:?} in {}", String::from_utf8_lossy(w), String::from_utf8_lossy(&self.s[self.i.saturating_sub(60)..(self.i + 60).min(self.s.len())])),
                };
                t
            }
        }
    }
    fn ty_list(&mut self, close: u8) -> Vec<Ty> {
        let mut f = vec![];
        if self.eat(close) {
            return f;
        }
        loop {
            f.push(self.ty());
            if self.eat(b',') {
                continue;
            }
            self.expect(close);
            return f;
        }
    }

    /// Skip parameter / return attributes up to the next value.
    fn attrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'"' {
                self.i += 1;
                while self.s[self.i] != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                if self.eat(b'=') {
                    continue;
                }
                continue;
            }
            if !c.is_ascii_lowercase() {
                return;
            }
            let w = self.peek_word();
            if matches!(
                w,
                b"null" | b"undef" | b"poison" | b"true" | b"false" | b"zeroinitializer" | b"none" | b"getelementptr" | b"ptrtoint" | b"inttoptr" | b"splat" | b"bitcast" | b"asm" | b"c" | b"add" | b"sub" | b"trunc" | b"xor"
            ) {
                return;
            }
            // a type?
            if matches!(w, b"ptr" | b"void" | b"float" | b"double" | b"half" | b"fp128" | b"metadata" | b"label")
                || (w[0] == b'i' && w.len() > 1 && w[1..].iter().all(|c| c.is_ascii_digit()))
            {
                return;
            }
            self.word();
            if w == b"align" {
                if self.peek().is_ascii_digit() {
                    self.word();
                    continue;
                }
            }
            if self.peek() == b'(' {
                self.skip_parens();
            }
        }
    }

    fn cstring(&mut self) -> Vec<u8> {
        // after c, at "
        self.expect(b'"');
        let mut out = vec![];
        loop {
            let c = self.s[self.i];
            self.i += 1;
            match c {
                b'"' => return out,
                b'\\' if self.s[self.i] == b'\\' => {
                    out.push(b'\\');
                    self.i += 1;
                }
                b'\\' => {
                    let h = std::str::from_utf8(&self.s[self.i..self.i + 2]).unwrap();
                    out.push(u8::from_str_radix(h, 16).unwrap());
                    self.i += 2;
                }
                _ => out.push(c),
            }
        }
    }

    fn const_into(&mut self, ty: &Ty, out: &mut [u8]) {
        match ty {
            Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => {
                let c = self.peek();
                if c == b'c' && self.s[self.i + 1] == b'"' {
                    self.i += 1;
                    let b = self.cstring();
                    out[..b.len()].copy_from_slice(&b);
                    return;
                }
                if c.is_ascii_alphabetic() {
                    let w = self.word();
                    match w {
                        b"zeroinitializer" | b"undef" | b"poison" => return,
                        b"splat" => {
                            self.expect(b'(');
                            let t = self.ty();
                            let v = self.constant(&t);
                            self.expect(b')');
                            let n = ty.nfields();
                            for i in 0..n {
                                let o = ty.field_off(i) as usize;
                                let b = v.to_le_bytes();
                                let sz = t.size() as usize;
                                out[o..o + sz].copy_from_slice(&b[..sz]);
                            }
                            return;
                        }
                        _ => panic!("const {:?}", String::from_utf8_lossy(w)),
                    }
                }
                let packed = matches!(ty, Ty::Struct(_, true));
                self.i += 1;
                if packed {
                    self.expect(b'{');
                }
                let n = ty.nfields();
                for i in 0..n {
                    let t = self.ty();
                    let o = ty.field_off(i) as usize;
                    let sz = t.size() as usize;
                    self.const_into(&t, &mut out[o..o + sz]);
                    if i + 1 < n {
                        self.expect(b',');
                    }
                }
                self.ws();
                self.i += 1;
                if packed {
                    self.expect(b'>');
                }
            }
            _ => {
                let v = self.constant(ty);
                let sz = ty.size() as usize;
                out[..sz].copy_from_slice(&v.to_le_bytes()[..sz]);
            }
        }
    }

    /// scalar constant
    fn constant(&mut self, ty: &Ty) -> u128 {
        let c = self.peek();
        if c == b'@' {
            self.i += 1;
            let nm = read_name(self.s, &mut self.i);
            return sym_addr(self.m, nm) as u128;
        }
        if c == b'-' || c.is_ascii_digit() {
            if matches!(ty, Ty::F32 | Ty::F64 | Ty::FOther(_)) {
                return self.float(ty);
            }
            let w = self.word();
            let st = std::str::from_utf8(w).unwrap();
            let m = crate::expr::mask(ty.bits());
            return if st.starts_with('-') {
                (st.parse::<i128>().unwrap() as u128) & m
            } else {
                st.parse::<u128>().unwrap() & m
            };
        }
        let w = self.word();
        match w {
            b"null" | b"undef" | b"poison" | b"zeroinitializer" | b"false" | b"none" => 0,
            b"true" => 1,
            b"getelementptr" => {
                while self.peek() != b'(' {
                    self.word();
                }
                self.expect(b'(');
                let et = self.ty();
                self.expect(b',');
                self.ty();
                let base = self.constant(&Ty::Ptr);
                let mut off: i128 = 0;
                let mut cur = et;
                let mut first = true;
                while self.eat(b',') {
                    let it = self.ty();
                    let v = self.constant(&it);
                    let v = crate::expr::sext(v, it.bits());
                    if first {
                        off += v * cur.size() as i128;
                        first = false;
                    } else {
                        off += cur.field_off(v as usize) as i128;
                        cur = cur.field(v as usize);
                    }
                }
                self.expect(b')');
                (base as i128 + off) as u128 & crate::expr::mask(64)
            }
            b"ptrtoint" | b"inttoptr" | b"bitcast" | b"trunc" | b"ptrtoaddr" => {
                self.expect(b'(');
                let t = self.ty();
                let v = self.constant(&t);
                assert!(self.eat_word(b"to"));
                let t2 = self.ty();
                self.expect(b')');
                v & crate::expr::mask(t2.bits())
            }
            b"sub" | b"add" | b"xor" => {
                while self.peek() != b'(' {
                    self.word();
                }
                self.expect(b'(');
                let t = self.ty();
                let a = self.constant(&t);
                self.expect(b',');
                let t2 = self.ty();
                let b = self.constant(&t2);
                self.expect(b')');
                let r = match w {
                    b"sub" => a.wrapping_sub(b),
                    b"add" => a.wrapping_add(b),
                    _ => a ^ b,
                };
                r & crate::expr::mask(t.bits())
            }
            b"dso_local_equivalent" => self.constant(ty),
            _ => panic!("constant {:?} of type {:?}", String::from_utf8_lossy(w), ty),
        }
    }

    fn float(&mut self, ty: &Ty) -> u128 {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && (is_word(self.s[self.i]) || self.s[self.i] == b'+') {
            self.i += 1;
        }
        let t = std::str::from_utf8(&self.s[st..self.i]).unwrap();
        if let Some(h) = t.strip_prefix("0x") {
            if let Some(l) = h.strip_prefix('L') {
                return u128::from_str_radix(l, 16).unwrap_or(0);
            }
            if let Some(l) = h.strip_prefix('H') {
                return u128::from_str_radix(l, 16).unwrap_or(0);
            }
            let bits = u64::from_str_radix(h, 16).unwrap();
            return match ty {
                Ty::F32 => (f64::from_bits(bits) as f32).to_bits() as u128,
                _ => bits as u128,
            };
        }
        let f: f64 = t.parse().unwrap();
        match ty {
            Ty::F32 => (f as f32).to_bits() as u128,
            _ => f.to_bits() as u128,
        }
    }

    fn reg(&mut self, nm: Text) -> u32 {
        let n = self.regs.len() as u32;
        *self.regs.entry(nm).or_insert(n)
    }

    fn value(&mut self, ty: &Ty) -> Opd {
        let c = self.peek();
        if c == b'%' {
            self.i += 1;
            let nm = read_name(self.s, &mut self.i);
            return Opd::R(self.reg(nm));
        }
        match ty {
            Ty::Vec(..) | Ty::Struct(..) | Ty::Arr(..) => Opd::K(self.agg_const(ty)),
            Ty::Meta => {
                self.eol();
                Opd::C(0)
            }
            _ => {
                let v = self.constant(ty);
                if ty.bits() > 64 {
                    Opd::K(V::W(Rc::new(v)))
                } else {
                    Opd::C(v as u64)
                }
            }
        }
    }
    fn agg_const(&mut self, ty: &Ty) -> V {
        let n = ty.nfields();
        let c = self.peek();
        if c.is_ascii_alphabetic() && !(c == b'c' && self.s[self.i + 1] == b'"') {
            let w = self.peek_word();
            match w {
                b"zeroinitializer" | b"undef" | b"poison" => {
                    self.word();
                    return zero(ty);
                }
                b"splat" => {
                    self.word();
                    self.expect(b'(');
                    let t = self.ty();
                    let v = self.constant(&t);
                    self.expect(b')');
                    return V::A(Rc::new(vec![mkv(t.bits(), v); n]));
                }
                _ => panic!("agg const {:?}", String::from_utf8_lossy(w)),
            }
        }
        if c == b'c' {
            self.i += 1;
            let b = self.cstring();
            return V::A(Rc::new(b.iter().map(|&x| V::I(x as u64)).collect()));
        }
        let packed = matches!(ty, Ty::Struct(_, true));
        self.i += 1;
        if packed {
            self.expect(b'{');
        }
        let mut out = vec![];
        for i in 0..n {
            let t = self.ty();
            if t.is_agg() {
                out.push(self.agg_const(&t));
            } else {
                let v = self.constant(&t);
                out.push(mkv(t.bits(), v));
            }
            if i + 1 < n {
                self.expect(b',');
            }
        }
        self.ws();
        self.i += 1;
        if packed {
            self.expect(b'>');
        }
        V::A(Rc::new(out))
    }
    fn tval(&mut self) -> (Ty, Opd) {
        let t = self.ty();
        self.attrs();
        let v = self.value(&t);
        (t, v)
    }
    fn label(&mut self) -> u32 {
        assert!(self.eat_word(b"label"));
        self.label_name()
    }
    fn label_name(&mut self) -> u32 {
        self.expect(b'%');
        let nm = read_name(self.s, &mut self.i);
        let n = self.labels.len() as u32;
        *self.labels.entry(nm).or_insert(n)
    }

    fn function(mut self, id: u32) -> Func {
        let at = self.s.iter().position(|&c| c == b'@').unwrap();
        self.i = at + 1;
        let nm = read_name(self.s, &mut self.i);
        let name = String::from_utf8_lossy(nm).into_owned();
        self.expect(b'(');
        let mut params = vec![];
        if !self.eat(b')') {
            loop {
                if self.peek() == b'.' {
                    self.i += 3;
                    self.expect(b')');
                    break;
                }
                let _t = self.ty();
                self.attrs();
                self.expect(b'%');
                let nm = read_name(self.s, &mut self.i);
                let r = self.reg(nm);
                params.push(r);
                if self.eat(b',') {
                    continue;
                }
                self.expect(b')');
                break;
            }
        }
        // to the end of the header line
        self.eol();
        self.i += 1;
        let mut blocks: Vec<(u32, Vec<Ins>, Vec<(u32, Vec<(Opd, u32)>)>)> = vec![];
        let mut first = true;
        loop {
            if self.i >= self.s.len() {
                break;
            }
            let c = self.s[self.i];
            if c == b'\n' {
                self.i += 1;
                continue;
            }
            if c == b'}' {
                break;
            }
            if c == b';' {
                self.eol();
                continue;
            }
            if c != b' ' {
                // label
                let nm = read_name(self.s, &mut self.i);
                let n = self.labels.len() as u32;
                let l = *self.labels.entry(nm).or_insert(n);
                blocks.push((l, vec![], vec![]));
                self.eol();
                first = false;
                continue;
            }
            if first {
                // unnamed entry
                let n = self.labels.len() as u32;
                let key: Text = b"<entry>";
                self.labels.insert(key, n);
                blocks.push((n, vec![], vec![]));
                first = false;
            }
            self.ws();
            if self.s[self.i] == b'#' || self.s[self.i] == b';' {
                self.eol();
                continue;
            }
            let save = self.i;
            let b = blocks.last_mut().unwrap() as *mut (u32, Vec<Ins>, Vec<(u32, Vec<(Opd, u32)>)>);
            self.instr(unsafe { &mut *b });
            let _ = save;
            self.eol();
        }
        let nl = self.labels.len();
        let mut out: Vec<Block> = (0..nl).map(|_| Block { ins: vec![], edges: vec![] }).collect();
        // order: entry must be block 0 => remap
        let mut remap = vec![u32::MAX; nl];
        for (i, b) in blocks.iter().enumerate() {
            remap[b.0 as usize] = i as u32;
        }
        for (i, (_, ins, phis)) in blocks.into_iter().enumerate() {
            let mut edges: Vec<(u32, Vec<(u32, Opd)>)> = vec![];
            for (d, inc) in phis {
                for (v, p) in inc {
                    let p = remap[p as usize];
                    match edges.iter_mut().find(|e| e.0 == p) {
                        Some(e) => {
                            if !e.1.iter().any(|x| x.0 == d) {
                                e.1.push((d, v))
                            }
                        }
                        None => edges.push((p, vec![(d, v)])),
                    }
                }
            }
            let mut ins = ins;
            for x in ins.iter_mut() {
                match x {
                    Ins::Br { t } => *t = remap[*t as usize],
                    Ins::CondBr { t, f, .. } => {
                        *t = remap[*t as usize];
                        *f = remap[*f as usize];
                    }
                    Ins::Switch { def, cases, map, .. } => {
                        *def = remap[*def as usize];
                        for c in cases.iter_mut() {
                            c.1 = remap[c.1 as usize];
                        }
                        if cases.len() > 6 {
                            let mut m: FxMap<u64, u32> = Default::default();
                            for c in cases.iter() {
                                m.insert(c.0, c.1);
                            }
                            *map = Some(Rc::new(m));
                        }
                    }
                    _ => {}
                }
            }
            out[i] = Block { ins, edges };
        }
        if std::env::var("SX_DUMP").map_or(false, |d| name.contains(&d)) {
            eprintln!("{} params {:?} regs {:?}", name, params, self.regs.iter().map(|(k, v)| (String::from_utf8_lossy(k).into_owned(), *v)).collect::<Vec<_>>());
            for (i, b) in out.iter().enumerate() {
                eprintln!("bb{} edges {:?}", i, b.edges);
                for x in b.ins.iter() {
                    eprintln!("   {:?}", x);
                }
            }
        }
        Func { name, id, nregs: self.regs.len() as u32, params, blocks: out }
    }

    fn instr(&mut self, b: &mut (u32, Vec<Ins>, Vec<(u32, Vec<(Opd, u32)>)>)) {
        let mut d = u32::MAX;
        if self.peek() == b'%' {
            self.i += 1;
            let nm = read_name(self.s, &mut self.i);
            d = self.reg(nm);
            self.expect(b'=');
        }
        let op = self.word();
        let ins = match op {
            b"add" | b"sub" | b"mul" | b"udiv" | b"urem" | b"sdiv" | b"srem" | b"shl" | b"lshr" | b"ashr" | b"and" | b"or" | b"xor" => {
                self.flags();
                let t = self.ty();
                let a = self.value(&t);
                self.expect(b',');
                let bb = self.value(&t);
                let o = match op {
                    b"add" => Op::Add,
                    b"sub" => Op::Sub,
                    b"mul" => Op::Mul,
                    b"udiv" => Op::UDiv,
                    b"urem" => Op::URem,
                    b"sdiv" => Op::SDiv,
                    b"srem" => Op::SRem,
                    b"shl" => Op::Shl,
                    b"lshr" => Op::LShr,
                    b"ashr" => Op::AShr,
                    b"and" => Op::And,
                    b"or" => Op::Or,
                    _ => Op::Xor,
                };
                Ins::Bin { op: o, w: t.scalar_bits(), n: t.lanes(), d, a, b: bb }
            }
            b"fadd" | b"fsub" | b"fmul" | b"fdiv" | b"frem" => {
                self.flags();
                let t = self.ty();
                let a = self.value(&t);
                self.expect(b',');
                let bb = self.value(&t);
                Ins::FBin { op: op[1], w: t.scalar_bits(), n: t.lanes(), d, a, b: bb }
            }
            b"fneg" => {
                self.flags();
                let t = self.ty();
                let a = self.value(&t);
                let w = t.scalar_bits();
                if t.lanes() > 0 || w > 64 {
                    Ins::Bad("fneg".into())
                } else {
                    Ins::Bin { op: Op::Xor, w, n: 0, d, a, b: Opd::C(1 << (w - 1)) }
                }
            }
            b"icmp" => {
                if self.peek_word() == b"samesign" {
                    self.word();
                }
                let p = self.word();
                let t = self.ty();
                let a = self.value(&t);
                self.expect(b',');
                let bb = self.value(&t);
                let pred = match p {
                    b"eq" => Pred::Eq,
                    b"ne" => Pred::Ne,
                    b"ult" => Pred::Ult,
                    b"ule" => Pred::Ule,
                    b"ugt" => Pred::Ugt,
                    b"uge" => Pred::Uge,
                    b"slt" => Pred::Slt,
                    b"sle" => Pred::Sle,
                    b"sgt" => Pred::Sgt,
                    b"sge" => Pred::Sge,
                    _ => panic!("pred"),
                };
                Ins::Cmp { pred, w: t.scalar_bits(), n: t.lanes(), d, a, b: bb }
            }
            b"fcmp" => {
                let mut p = self.word();
                while matches!(p, b"fast" | b"nnan" | b"ninf" | b"nsz") {
                    p = self.word();
                }
                let t = self.ty();
                let a = self.value(&t);
                self.expect(b',');
                let bb = self.value(&t);
                Ins::FCmp { pred: String::from_utf8_lossy(p).into_owned(), w: t.bits(), d, a, b: bb }
            }
            b"zext" | b"sext" | b"trunc" | b"ptrtoint" | b"inttoptr" | b"bitcast" | b"ptrtoaddr" => {
                self.flags();
                let t = self.ty();
                let a = self.value(&t);
                assert!(self.eat_word(b"to"));
                let t2 = self.ty();
                let (fw, tw) = (t.scalar_bits(), t2.scalar_bits());
                if op == b"bitcast" && (t.lanes() != t2.lanes()) {
                    Ins::VCast { from: t, to: t2, d, a }
                } else {
                    let kind = match op {
                        b"zext" => Cast::ZExt,
                        b"sext" => Cast::SExt,
                        b"trunc" => Cast::Trunc,
                        _ if fw == tw => Cast::Copy,
                        _ if fw < tw => Cast::ZExt,
                        _ => Cast::Trunc,
                    };
                    Ins::Cast { kind, from: fw, to: tw, n: t.lanes(), d, a }
                }
            }
            b"fptoui" | b"fptosi" | b"uitofp" | b"sitofp" | b"fpext" | b"fptrunc" => {
                self.flags();
                let t = self.ty();
                let a = self.value(&t);
                assert!(self.eat_word(b"to"));
                let t2 = self.ty();
                Ins::FConv { kind: String::from_utf8_lossy(op).into_owned(), from: t, to: t2, d, a }
            }
            b"freeze" => {
                let t = self.ty();
                let a = self.value(&t);
                Ins::Cast { kind: Cast::Copy, from: t.bits(), to: t.bits(), n: 0, d, a }
            }
            b"load" => {
                self.eat_word(b"atomic");
                self.eat_word(b"volatile");
                let t = self.ty();
                self.expect(b',');
                self.ty();
                let p = self.value(&Ty::Ptr);
                if t.is_agg() {
                    Ins::LoadAgg { d, ty: t, p }
                } else {
                    let w = t.bits();
                    Ins::Load { d, w, bytes: ((w + 7) / 8) as u8, p }
                }
            }
            b"store" => {
                self.eat_word(b"atomic");
                self.eat_word(b"volatile");
                let t = self.ty();
                let v = self.value(&t);
                self.expect(b',');
                self.ty();
                let p = self.value(&Ty::Ptr);
                if t.is_agg() {
                    Ins::StoreAgg { ty: t, v, p }
                } else {
                    let w = t.bits();
                    Ins::Store { w, bytes: ((w + 7) / 8) as u8, v, p }
                }
            }
            b"getelementptr" => {
                self.flags();
                let et = self.ty();
                self.expect(b',');
                let bt = self.ty();
                if bt.lanes() > 0 {
                    Ins::Bad("vector gep".into())
                } else {
                    let base = self.value(&Ty::Ptr);
                    let mut off: i64 = 0;
                    let mut idx = vec![];
                    let mut cur = et;
                    let mut first = true;
                    while self.eat(b',') {
                        if self.peek() == b'!' {
                            break;
                        }
                        let it = self.ty();
                        let v = self.value(&it);
                        let scale = if first { cur.size() as i64 } else if let Ty::Struct(..) = cur { 0 } else { cur.field(0).size() as i64 };
                        match v {
                            Opd::C(c) => {
                                let c = crate::expr::sext(c as u128, it.bits()) as i64;
                                if !first && matches!(cur, Ty::Struct(..)) {
                                    off += cur.field_off(c as usize) as i64;
                                    cur = cur.field(c as usize);
                                    first = false;
                                    continue;
                                }
                                off = off.wrapping_add(c.wrapping_mul(scale));
                            }
                            v => idx.push((v, scale, it.bits())),
                        }
                        if !first {
                            cur = cur.field(0);
                        }
                        first = false;
                    }
                    Ins::Gep { d, base, off, idx }
                }
            }
            b"select" => {
                self.flags();
                let ct = self.ty();
                let c = self.value(&ct);
                self.expect(b',');
                let (t, a) = self.tval();
                self.expect(b',');
                let (_, bb) = self.tval();
                Ins::Select { d, w: t.scalar_bits(), n: if ct.lanes() > 0 { ct.lanes() } else { 0 }, ptr: t == Ty::Ptr || t.is_agg(), c, a, b: bb }
            }
            b"br" => {
                if self.peek_word() == b"label" {
                    let t = self.label();
                    Ins::Br { t }
                } else {
                    self.ty();
                    let c = self.value(&Ty::Int(1));
                    self.expect(b',');
                    let t = self.label();
                    self.expect(b',');
                    let f = self.label();
                    Ins::CondBr { c, t, f }
                }
            }
            b"switch" => {
                let t = self.ty();
                let v = self.value(&t);
                self.expect(b',');
                let def = self.label();
                self.expect(b'[');
                let mut cases = vec![];
                while !self.eat(b']') {
                    if self.eat(b'\n') {
                        continue;
                    }
                    let ct = self.ty();
                    let c = self.constant(&ct) as u64;
                    self.expect(b',');
                    let l = self.label();
                    cases.push((c, l));
                }
                Ins::Switch { w: t.bits(), v, def, cases, map: None }
            }
            b"ret" => {
                let t = self.ty();
                if t == Ty::Void {
                    Ins::Ret { v: None }
                } else {
                    let v = self.value(&t);
                    Ins::Ret { v: Some(v) }
                }
            }
            b"unreachable" => Ins::Unreachable,
            b"phi" => {
                self.flags();
                let t = self.ty();
                let mut inc = vec![];
                loop {
                    self.expect(b'[');
                    let v = self.value(&t);
                    self.expect(b',');
                    let l = self.label_name();
                    self.expect(b']');
                    inc.push((v, l));
                    if !self.eat(b',') {
                        break;
                    }
                    if self.peek() != b'[' {
                        break;
                    }
                }
                b.2.push((d, inc));
                return;
            }
            b"tail" | b"musttail" | b"notail" => {
                assert!(self.eat_word(b"call"));
                self.call(d)
            }
            b"call" => self.call(d),
            b"extractvalue" => {
                let t = self.ty();
                let a = self.value(&t);
                let mut path = vec![];
                while self.eat(b',') {
                    if self.peek() == b'!' {
                        break;
                    }
                    path.push(self.num() as u32);
                }
                Ins::ExtractV { d, a, path }
            }
            b"insertvalue" => {
                let t = self.ty();
                let a = self.value(&t);
                self.expect(b',');
                let (_, v) = self.tval();
                let mut path = vec![];
                while self.eat(b',') {
                    if self.peek() == b'!' {
                        break;
                    }
                    path.push(self.num() as u32);
                }
                Ins::InsertV { d, a, v, path, ty: t }
            }
            b"extractelement" => {
                let t = self.ty();
                let a = self.value(&t);
                self.expect(b',');
                let (_, i) = self.tval();
                Ins::ExtractE { d, a, i }
            }
            b"insertelement" => {
                let t = self.ty();
                let a = self.value(&t);
                self.expect(b',');
                let (_, v) = self.tval();
                self.expect(b',');
                let (_, i) = self.tval();
                Ins::InsertE { d, a, v, i, n: t.lanes() }
            }
            b"shufflevector" => {
                let t = self.ty();
                let a = self.value(&t);
                self.expect(b',');
                let (_, bb) = self.tval();
                self.expect(b',');
                let mt = self.ty();
                let mut mask = vec![];
                let n = mt.nfields();
                let c = self.peek();
                if c.is_ascii_alphabetic() {
                    mask = vec![0; n];
                    let w = self.word();
                    if w == b"splat" {
                        self.expect(b'(');
                        let t = self.ty();
                        let v = self.constant(&t);
                        mask = vec![v as i32; n];
                    }
                } else {
                    self.expect(b'<');
                    for i in 0..n {
                        let et = self.ty();
                        mask.push(self.constant(&et) as i32);
                        if i + 1 < n {
                            self.expect(b',');
                        }
                    }
                }
                Ins::Shuffle { d, a, b: bb, n: t.lanes(), mask }
            }
            b"alloca" => {
                let t = self.ty();
                let mut size = t.size();
                let mut align = t.align();
                while self.eat(b',') {
                    if self.peek() == b'!' {
                        break;
                    }
                    if self.eat_word(b"align") {
                        align = self.num() as u64;
                    } else {
                        let (_, c) = self.tval();
                        match c {
                            Opd::C(c) => size *= c,
                            _ => {
                                b.1.push(Ins::Bad("dynamic alloca".into()));
                                return;
                            }
                        }
                    }
                }
                Ins::Alloca { d, size, align }
            }
            b"atomicrmw" => {
                self.eat_word(b"volatile");
                let o = self.word();
                self.ty();
                let p = self.value(&Ty::Ptr);
                self.expect(b',');
                let (t, v) = self.tval();
                let w = t.bits();
                Ins::Rmw { d, op: String::from_utf8_lossy(o).into_owned(), w, bytes: ((w + 7) / 8) as u8, p, v }
            }
            b"cmpxchg" => {
                self.eat_word(b"weak");
                self.eat_word(b"volatile");
                self.ty();
                let p = self.value(&Ty::Ptr);
                self.expect(b',');
                let (t, c) = self.tval();
                self.expect(b',');
                let (_, nv) = self.tval();
                let w = t.bits();
                Ins::CmpXchg { d, w, bytes: ((w + 7) / 8) as u8, p, c, n: nv }
            }
            b"fence" => return,
            _ => Ins::Bad(String::from_utf8_lossy(op).into_owned()),
        };
        b.1.push(ins);
    }

    fn flags(&mut self) {
        loop {
            let w = self.peek_word();
            if matches!(
                w,
                b"nuw" | b"nsw" | b"exact" | b"disjoint" | b"nneg" | b"inbounds" | b"nusw" | b"fast" | b"nnan" | b"ninf" | b"nsz" | b"arcp" | b"contract" | b"afn" | b"reassoc" | b"samesign"
            ) {
                self.word();
                continue;
            }
            if w == b"inrange" {
                self.word();
                if self.peek() == b'(' {
                    self.skip_parens();
                }
                continue;
            }
            return;
        }
    }

    fn call(&mut self, d: u32) -> Ins {
        self.flags();
        // calling convention and return attributes
        loop {
            let w = self.peek_word();
            if w == b"cc" {
                self.word();
                self.word();
                continue;
            }
            break;
        }
        self.attrs();
        let rt = self.ty();
        if self.peek() == b'(' {
            self.skip_parens();
        }
        self.attrs();
        if self.peek_word() == b"asm" {
            // inline assembly: an empty template is a compiler barrier
            self.word();
            while self.peek() != b'"' {
                self.word();
            }
            let tmpl = self.cstring();
            if tmpl.is_empty() {
                return Ins::Intr { k: Intr::Nop, w: 0, n: 0, d, args: vec![], name: "asm".into() };
            }
            return Ins::Bad(format!("asm {:?}", String::from_utf8_lossy(&tmpl)));
        }
        let c = self.peek();
        let mut direct: Option<Text> = None;
        let mut ind = Opd::C(0);
        if c == b'@' {
            self.i += 1;
            direct = Some(read_name(self.s, &mut self.i));
        } else {
            ind = self.value(&Ty::Ptr);
        }
        self.expect(b'(');
        let is_intr = direct.map(|n| n.starts_with(b"llvm.")).unwrap_or(false);
        let mut args = vec![];
        let mut at: Vec<Ty> = vec![];
        if !self.eat(b')') {
            loop {
                let t = self.ty();
                if t == Ty::Meta {
                    // skip metadata operand
                    let mut depth = 0;
                    loop {
                        let c = self.s[self.i];
                        if c == b'(' {
                            depth += 1
                        }
                        if c == b')' {
                            if depth == 0 {
                                break;
                            }
                            depth -= 1;
                        }
                        if c == b',' && depth == 0 {
                            break;
                        }
                        self.i += 1;
                    }
                } else {
                    self.attrs();
                    let v = self.value(&t);
                    args.push(v);
                    at.push(t);
                }
                if self.eat(b',') {
                    continue;
                }
                self.expect(b')');
                break;
            }
        }
        if is_intr {
            let nm = std::str::from_utf8(direct.unwrap()).unwrap();
            return self.intrinsic(nm, d, rt, args, at);
        }
        match direct {
            Some(nm) => {
                let f = fn_id(self.m, nm);
                Ins::Call { d, f: Callee::Fn(f), args }
            }
            None => Ins::Call { d, f: Callee::Ind(ind), args },
        }
    }

    fn intrinsic(&mut self, nm: &str, d: u32, rt: Ty, args: Vec<Opd>, at: Vec<Ty>) -> Ins {
        let b = &nm[5..];
        let starts = |p: &str| b.starts_with(p);
        let k = if starts("experimental.noalias") || starts("lifetime") || starts("assume") || starts("dbg") || starts("prefetch") || starts("donothing") || starts("va_") || starts("invariant") {
            Intr::Nop
        } else if starts("expect") || starts("threadlocal.address") || starts("ssa.copy") || starts("launder") || starts("strip") {
            Intr::First
        } else if starts("memcpy") || starts("memmove") {
            Intr::Memcpy
        } else if starts("memset") {
            Intr::Memset
        } else if starts("umax") {
            Intr::UMax
        } else if starts("umin") {
            Intr::UMin
        } else if starts("smax") {
            Intr::SMax
        } else if starts("smin") {
            Intr::SMin
        } else if starts("fshl") {
            Intr::Fshl
        } else if starts("fshr") {
            Intr::Fshr
        } else if starts("ctlz") {
            Intr::Ctlz
        } else if starts("cttz") {
            Intr::Cttz
        } else if starts("ctpop") {
            Intr::Ctpop
        } else if starts("bswap") {
            Intr::Bswap
        } else if starts("bitreverse") {
            Intr::Bitreverse
        } else if starts("abs.") {
            Intr::Abs
        } else if starts("uadd.with") {
            Intr::UAddO
        } else if starts("usub.with") {
            Intr::USubO
        } else if starts("umul.with") {
            Intr::UMulO
        } else if starts("sadd.with") {
            Intr::SAddO
        } else if starts("ssub.with") {
            Intr::SSubO
        } else if starts("smul.with") {
            Intr::SMulO
        } else if starts("usub.sat") {
            Intr::USubSat
        } else if starts("uadd.sat") {
            Intr::UAddSat
        } else if starts("sadd.sat") {
            Intr::SAddSat
        } else if starts("ssub.sat") {
            Intr::SSubSat
        } else if starts("scmp") {
            Intr::Scmp
        } else if starts("ucmp") {
            Intr::Ucmp
        } else if starts("load.relative") {
            Intr::LoadRel
        } else if starts("trap") || starts("ubsantrap") || starts("debugtrap") {
            Intr::Trap
        } else if starts("ptrmask") {
            Intr::PtrMask
        } else if starts("fabs") {
            Intr::FAbs
        } else if starts("copysign") {
            Intr::CopySign
        } else if starts("vector.reduce.or") {
            Intr::ReduceOr
        } else if starts("vector.reduce.and") {
            Intr::ReduceAnd
        } else if starts("vector.reduce.add") {
            Intr::ReduceAdd
        } else {
            Intr::Unsupported
        };
        let t0 = at.first().cloned().unwrap_or(rt.clone());
        let w = match k {
            Intr::Memcpy | Intr::Memset => 64,
            _ => t0.scalar_bits(),
        };
        let n = match k {
            Intr::ReduceOr | Intr::ReduceAnd | Intr::ReduceAdd => t0.lanes(),
            _ => rt.lanes(),
        };
        Ins::Intr { k, w, n, d, args, name: nm.to_string() }
    }
}

pub fn mkv(bits: u16, v: u128) -> V {
    if bits > 64 {
        V::W(Rc::new(v))
    } else {
        V::I(v as u64)
    }
}
pub fn zero(ty: &Ty) -> V {
    match ty {
        Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => V::A(Rc::new((0..ty.nfields()).map(|i| zero(&ty.field(i))).collect())),
        t => mkv(t.bits(), 0),
    }
}
