//! Reference semantics of the matchers, written independently of the implementation: a matcher
//! tree `M` is evaluated over a window of the text and yields what the implementation must yield.
//! `build` turns the same tree into the real matchers.

use adextopa_core::matcher::{MatcherFailure, MatcherRef, MatcherSuccess};
use adextopa_core::matchers::program::{MatchAction, ProgramPattern};
use adextopa_core::token::{StandardToken, TokenRef, IS_ERROR};
use adextopa_core::*;
use std::cell::RefCell;
use std::rc::Rc;

use crate::sx;

pub const MAX: usize = usize::MAX;
pub const FILE: &str = "f";

pub type Name = &'static str;
/// Where a literal comes from: fixed text, or a variable read when the matcher runs.
#[derive(Clone)]
pub enum L {
    T(String),
    V(Name),
}
pub type Nd = Rc<M>;
/// An empty name means "not named".
pub enum M {
    Lit(L, Name),
    Re(usize, Name),
    Seq(L, L, L, Name),
    Prog(Vec<Nd>, Name),
    Switch(Vec<Nd>, Name),
    Loop(Vec<Nd>, usize, usize, Name),
    Opt(Nd),
    Not(Nd),
    Discard(Nd),
    Proxy(Nd, Name),
    Expand(Nd),
    Pin(Option<Nd>, L, Name),
    Break(Name),
    Continue(Name),
    Null,
    Err(Name),
    Panic(Name),
    AssertIf(Nd, Name),
    AssertIfNot(Nd, Name),
    FatalIf(Nd, Name),
    FatalIfNot(Nd, Name),
    StoreS(Name, Name),
    StoreM(Name, Nd),
    Ref(L, Name),
    RefM(Nd),
    Register(Vec<Nd>),
    SetScope(Nd),
    SetScopeIn(Sc, adextopa_core::scope_context::ScopeContextRef, Nd),
    /// 0 rename the token to "Mapped", 1 set attribute k=v, 2 fail on success, 3 skip on success,
    /// 4 turn a failure into a skip, 5 turn a failure into an error, 6 drop the match (skip by 0)
    Map(Nd, u8),
    /// 0 skip, 1 fail, 2 error token, 3 rethrow, 4 other error
    Catch(Nd, u8),
    Debug(Option<Nd>, usize),
    /// what scripts are made of: a plain text as a regular expression, a token given a name,
    /// attributes set where they are not set yet
    ReText(String, Name),
    Rename(Nd, Name),
    Attrs(Nd, Vec<(String, String)>),
    /// a matcher of the user's own: what it does, and where it was run (specified, really)
    User(u8, Logs),
}
pub type Logs = Rc<(RefCell<Vec<(usize, usize)>>, RefCell<Vec<(usize, usize)>>)>;

#[derive(Clone)]
pub struct T {
    pub name: String,
    pub cap: (usize, usize),
    pub mat: (usize, usize),
    pub val: Option<Vec<u8>>,
    pub kids: Vec<T>,
    pub err: bool,
    pub msg: Option<String>,
    pub attrs: Vec<(String, String)>,
    pub discard: bool,
    /// the children of this token belong to it
    pub owns: bool,
}
#[derive(Clone)]
pub enum S {
    Tok(T),
    Proxy(T),
    Skip(isize),
    Break(Name, Box<S>),
    Cont(Name, Box<S>),
    None,
    Stop,
}
pub enum F {
    Fail,
    /// message (exact, or only its ending) and range end
    Error(String, bool, Option<(Option<usize>, usize)>),
    /// outside the specified domain
    Undef,
}
pub type R = Result<S, F>;
#[derive(Clone)]
pub enum Var {
    S(Name),
    T(T),
    M(Nd),
}
pub type Sc = Rc<RefCell<Vec<Vec<(String, Var)>>>>;
pub fn new_scope() -> Sc {
    Rc::new(RefCell::new(vec![]))
}
pub fn set_var(sc: &Sc, k: &str, m: Nd) {
    sc_set(sc, k, Var::M(m))
}
fn sc_set(sc: &Sc, k: &str, v: Var) {
    let mut s = sc.borrow_mut();
    if s.is_empty() {
        s.push(vec![]);
    }
    let n = s.len() - 1;
    let top = &mut s[n];
    for e in top.iter_mut() {
        if e.0 == k {
            e.1 = v;
            return;
        }
    }
    top.push((k.to_string(), v));
}
pub fn sc_get(sc: &Sc, k: &str) -> Option<Var> {
    let s = sc.borrow();
    for f in s.iter().rev() {
        for e in f.iter() {
            if e.0 == k {
                return Some(e.1.clone());
            }
        }
    }
    None
}

pub struct Cx<'a> {
    pub src: &'a [u8],
    /// how deep in programs (whether a program token is on the stack)
    pub depth: usize,
    /// how deep in references
    pub refs: usize,
}

/// The regular expressions used, with an independent oracle: the length of the match at the start
/// of the window, if the leftmost match starts there.
pub const RES: &[(&str, fn(&[u8]) -> Option<usize>)] = &[
    (r"[0-9]+", |w| run(w, |c| c.is_ascii_digit(), 1)),
    (r"a*", |w| run(w, |c| c == b'a', 0)),
    (r"\s+", spaces),
    (r"b?", |w| Some((w.len() > 0 && w[0] == b'b') as usize)),
    (r"ab|a", |w| alt(w, b"ab", b"a")),
    (r"a|ab", |w| alt(w, b"a", b"ab")),
    (r"^a", |w| alt(w, b"a", b"a")),
    (r"a$", |w| if w == b"a" { Some(1) } else { None }),
    (r"\ba", |w| alt(w, b"a", b"a")),
    (r"(?i)k", |w| alt(w, b"k", b"K").or(if w.starts_with("\u{212a}".as_bytes()) { Some(3) } else { None })),
    (r"[^a]", |w| if w.len() > 0 && w[0] != b'a' { Some(clen(w[0])) } else { None }),
    (r"[\s\S]", |w| if w.len() > 0 && w[0] < 0x80 { Some(1) } else if w.len() > 0 { Some(clen(w[0])) } else { None }),
    (r"a.b", |w| {
        if w.len() < 3 || w[0] != b'a' || w[1] == b'\n' {
            return None;
        }
        let k = 1 + clen(w[1]);
        if w.len() > k && w[k] == b'b' { Some(k + 1) } else { None }
    }),
    (r"(?U)a+", |w| alt(w, b"a", b"a")),
    (r"(?s)a.b", |w| {
        if w.len() < 3 || w[0] != b'a' {
            return None;
        }
        let k = 1 + clen(w[1]);
        if w.len() > k && w[k] == b'b' { Some(k + 1) } else { None }
    }),
    (r"(?m)a$", |w| if w.len() > 0 && w[0] == b'a' && (w.len() == 1 || w[1] == b'\n') { Some(1) } else { None }),
    (r"a+?b?", |w| alt(w, b"ab", b"a")),
];
/// White space of one or two bytes (the texts used hold no longer characters where this matters).
fn spaces(w: &[u8]) -> Option<usize> {
    let mut n = 0;
    while n < w.len() {
        let c = w[n];
        if c == b' ' || (c >= 9 && c <= 13) {
            n += 1;
        } else if c == 0xc2 && (w[n + 1] == 0x85 || w[n + 1] == 0xa0) {
            n += 2;
        } else {
            break;
        }
    }
    if n > 0 {
        Some(n)
    } else {
        None
    }
}
fn run(w: &[u8], p: fn(u8) -> bool, min: usize) -> Option<usize> {
    let mut n = 0;
    while n < w.len() && p(w[n]) {
        n += 1;
    }
    if n >= min {
        Some(n)
    } else {
        None
    }
}
fn alt(w: &[u8], a: &[u8], b: &[u8]) -> Option<usize> {
    if w.starts_with(a) {
        Some(a.len())
    } else if w.starts_with(b) {
        Some(b.len())
    } else {
        None
    }
}

/// (lines, columns) of a range, straight from the definition: a line break is \r\n, \n or \r.
pub fn line_of(s: &[u8], at: usize) -> (usize, usize) {
    let mut line = 1;
    let mut start = 0;
    let mut i = 0;
    while i < at {
        if s[i] == b'\r' {
            if i + 1 < at && s[i + 1] == b'\n' {
                i += 1;
            }
            line += 1;
            start = i + 1;
        } else if s[i] == b'\n' {
            line += 1;
            start = i + 1;
        }
        i += 1;
    }
    (line, at - start + 1)
}
pub fn err_str(s: &[u8], msg: &str, r: (usize, usize)) -> String {
    let a = line_of(s, r.0);
    let b = line_of(s, r.1);
    let c2 = if b.1 < a.1 { a.1 } else { b.1 };
    let l = if a.0 == b.0 { format!("{}", a.0) } else { format!("{}-{}", a.0, b.0) };
    let c = if a.1 == c2 { format!("{}", a.1) } else { format!("{}-{}", a.1, c2) };
    format!("Error: {}@[{}:{}]: {}", FILE, l, c, msg)
}

fn tok(name: &str, r: (usize, usize)) -> T {
    T { name: name.to_string(), cap: r, mat: r, val: None, kids: vec![], err: false, msg: None, attrs: vec![], discard: false, owns: false }
}
fn err_tok(cx: &Cx, msg: &str, r: (usize, usize)) -> T {
    let mut t = tok("Error", r);
    t.err = true;
    t.msg = Some(err_str(cx.src, msg, r));
    t
}
fn nm<'a>(n: &'a str, d: &'a str) -> &'a str {
    if n == "" {
        d
    } else {
        n
    }
}
pub fn m_name(m: &M) -> &str {
    match m {
        M::Lit(_, n) | M::Re(_, n) | M::Seq(_, _, _, n) | M::Prog(_, n) | M::Switch(_, n) | M::Loop(_, _, _, n) | M::Proxy(_, n) | M::Pin(_, _, n) | M::Ref(_, n) | M::ReText(_, n) => n,
        M::StoreS(n, _) | M::StoreM(n, _) => n,
        _ => "",
    }
}
/// Whether a program continues behind what this part matched.
fn consuming(m: &M) -> bool {
    match m {
        M::Pin(..) | M::Null | M::Register(..) | M::StoreS(..) | M::Debug(None, _) | M::User(6, _) => false,
        M::Debug(Some(m), _) => consuming(m),
        _ => true,
    }
}
enum Fv {
    S(Vec<u8>),
    M(Nd),
}
fn fetch(cx: &Cx, sc: &Sc, l: &L) -> Result<Fv, F> {
    let path = match l {
        L::T(s) => return Ok(Fv::S(s.as_bytes().to_vec())),
        L::V(p) => *p,
    };
    let (n, f) = match path.find('.') {
        Some(i) => (&path[..i], &path[i + 1..]),
        None => (path, ""),
    };
    match sc_get(sc, n) {
        Some(Var::S(s)) if f == "" => Ok(Fv::S(s.as_bytes().to_vec())),
        Some(Var::M(m)) => Ok(Fv::M(m)),
        Some(Var::T(t)) => {
            let v = match f {
                "captured_value" => t.val.clone().unwrap_or(cx.src[t.cap.0..t.cap.1].to_vec()),
                "matched_value" => cx.src[t.mat.0..t.mat.1].to_vec(),
                "start" => format!("{}", t.mat.0).into_bytes(),
                "end" => format!("{}", t.mat.1).into_bytes(),
                "captured_start" => format!("{}", t.cap.0).into_bytes(),
                "captured_end" => format!("{}", t.cap.1).into_bytes(),
                "range" => format!("{}..{}", t.mat.0, t.mat.1).into_bytes(),
                "captured_range" => format!("{}..{}", t.cap.0, t.cap.1).into_bytes(),
                _ => return Err(F::Undef),
            };
            Ok(Fv::S(v))
        }
        _ => Err(F::Undef),
    }
}
fn text(cx: &Cx, sc: &Sc, l: &L) -> Result<Vec<u8>, F> {
    match fetch(cx, sc, l)? {
        Fv::S(s) => Ok(s),
        Fv::M(_) => Err(F::Error(String::new(), false, None)),
    }
}
fn offset(start: usize, dflt: usize, s: &[u8]) -> Result<usize, F> {
    if s == b"" || s == b"+" || s == b"-" || s == b"+0" || s == b"-0" {
        return Ok(dflt);
    }
    let (sign, d) = match s[0] {
        b'+' => (1, &s[1..]),
        b'-' => (-1, &s[1..]),
        _ => (0, s),
    };
    let mut v = 0usize;
    for c in d {
        if !c.is_ascii_digit() {
            return Err(F::Undef);
        }
        v = v * 10 + (*c - b'0') as usize;
    }
    match sign {
        0 => Ok(v),
        1 => Ok(start + v),
        _ if v > start => Err(F::Undef),
        _ => Ok(start - v),
    }
}
fn boundary(s: &[u8], i: usize) -> bool {
    i == s.len() || (i < s.len() && s[i] & 0xc0 != 0x80)
}
fn clen(b: u8) -> usize {
    if b < 0x80 {
        1
    } else if b < 0xe0 {
        2
    } else if b < 0xf0 {
        3
    } else {
        4
    }
}

pub fn eval(cx: &mut Cx, m: &Nd, w: (usize, usize), sc: &Sc) -> R {
    let name = m_name(m);
    if name != "" {
        sc_set(sc, name, Var::M(m.clone()));
    }
    let win = &cx.src[w.0..w.1];
    match &**m {
        M::Lit(l, n) => {
            let p = text(cx, sc, l)?;
            if p.len() > 0 && win.starts_with(&p) {
                Ok(S::Tok(tok(nm(n, "Equals"), (w.0, w.0 + p.len()))))
            } else {
                Err(F::Fail)
            }
        }
        M::Re(i, n) => match (RES[*i].1)(win) {
            Some(0) => Ok(S::Skip(0)),
            Some(k) => Ok(S::Tok(tok(nm(n, "Matches"), (w.0, w.0 + k)))),
            None => Err(F::Fail),
        },
        M::Seq(a, b, e, n) => {
            let a = text(cx, sc, a)?;
            let b = text(cx, sc, b)?;
            let e = text(cx, sc, e)?;
            if a.is_empty() || b.is_empty() {
                return Err(F::Undef);
            }
            if !win.starts_with(&a) {
                return Err(F::Fail);
            }
            let mut i = a.len();
            let mut v = vec![];
            while i < win.len() {
                if win[i..].starts_with(&b) {
                    let mut t = tok(nm(n, "Sequence"), (w.0, w.0 + i + b.len()));
                    t.cap = (w.0 + a.len(), w.0 + i);
                    t.val = Some(v);
                    return Ok(S::Tok(t));
                }
                if e.len() > 0 && win[i..].starts_with(&e) {
                    i += e.len();
                    if i >= win.len() {
                        break;
                    }
                }
                let k = clen(win[i]);
                v.extend_from_slice(&win[i..i + k]);
                i += k;
            }
            Err(F::Fail)
        }
        M::Prog(k, n) => prog(cx, k, w, sc, nm(n, "Program"), false, None),
        M::Switch(k, n) => prog(cx, k, w, sc, nm(n, "Switch"), true, None),
        M::Loop(k, a, b, n) => prog(cx, k, w, sc, nm(n, "Loop"), false, Some((*a, *b))),
        M::Opt(c) => match eval(cx, c, w, sc) {
            Err(F::Fail) => Ok(S::Skip(0)),
            r => r,
        },
        M::Not(c) => match eval(cx, c, w, sc) {
            Err(F::Fail) => Ok(S::Skip(0)),
            Ok(S::Tok(_)) | Ok(S::Proxy(_)) => Err(F::Fail),
            Ok(S::Skip(n)) if n != 0 => Err(F::Fail),
            r => r,
        },
        M::Discard(c) => match eval(cx, c, w, sc)? {
            S::Tok(t) | S::Proxy(t) => Ok(drop_tok(w.0, t)),
            S::Break(l, p) => Ok(S::Break(l, Box::new(drop_payload(w.0, *p)))),
            S::Cont(l, p) => Ok(S::Cont(l, Box::new(drop_payload(w.0, *p)))),
            s => Ok(s),
        },
        M::Proxy(c, _) => match eval(cx, c, w, sc)? {
            S::Tok(t) => Ok(S::Proxy(t)),
            S::Break(l, p) => Ok(S::Break(l, Box::new(proxy_payload(*p)))),
            S::Cont(l, p) => Ok(S::Cont(l, Box::new(proxy_payload(*p)))),
            s => Ok(s),
        },
        M::Expand(c) => match eval(cx, c, w, sc)? {
            S::Tok(t) => {
                let mut o = tok("ExpandRange", t.mat);
                o.kids.push(t);
                Ok(S::Proxy(o))
            }
            S::Proxy(mut t) => {
                t.cap = t.mat;
                Ok(S::Proxy(t))
            }
            s => Ok(s),
        },
        M::Pin(c, o, n) => {
            let o = text(cx, sc, o)?;
            let mut a = &o[..];
            let mut b: Option<&[u8]> = None;
            for i in 0..o.len() {
                if o[i..].starts_with(b"..") {
                    a = &o[..i];
                    b = Some(&o[i + 2..]);
                    break;
                }
            }
            let s = offset(w.0, w.0, a)?;
            let e = match b {
                Some(b) => offset(s, w.1, b)?,
                None => w.1,
            };
            if s > e || e > cx.src.len() || !boundary(cx.src, s) || !boundary(cx.src, e) {
                return Err(F::Undef);
            }
            match c {
                Some(c) => eval(cx, c, (s, e), sc),
                None => {
                    let mut t = tok(nm(n, "Pin"), (s, e));
                    t.discard = true;
                    Ok(S::Tok(t))
                }
            }
        }
        M::Break(l) => Ok(S::Break(l, Box::new(S::None))),
        M::Continue(l) => Ok(S::Cont(l, Box::new(S::None))),
        M::Null => Ok(S::Skip(0)),
        M::Err(msg) => Ok(S::Tok(err_tok(cx, msg, (w.0, w.0)))),
        M::Panic(msg) => {
            if cx.depth == 0 {
                Err(F::Error(err_str(cx.src, msg, (w.0, w.0)), true, Some((Some(w.0), w.0))))
            } else {
                Err(F::Error(format!(": {}", msg), false, Some((None, w.0))))
            }
        }
        M::AssertIf(c, msg) => match eval(cx, c, w, sc) {
            Ok(S::Tok(t)) | Ok(S::Proxy(t)) => Ok(S::Tok(err_tok(cx, msg, t.mat))),
            Err(F::Fail) => Ok(S::Skip(0)),
            r => r,
        },
        M::AssertIfNot(c, msg) => match eval(cx, c, w, sc) {
            Ok(S::Tok(_)) | Ok(S::Proxy(_)) => Ok(S::Skip(0)),
            Err(F::Fail) => Ok(S::Tok(err_tok(cx, msg, (w.0, w.0)))),
            r => r,
        },
        M::FatalIf(c, msg) => match eval(cx, c, w, sc) {
            Ok(S::Tok(t)) | Ok(S::Proxy(t)) => Err(F::Error(err_str(cx.src, msg, t.mat), true, Some((Some(t.mat.0), t.mat.1)))),
            Err(F::Fail) => Ok(S::Skip(0)),
            r => r,
        },
        M::FatalIfNot(c, msg) => match eval(cx, c, w, sc) {
            Ok(S::Tok(_)) | Ok(S::Proxy(_)) => Ok(S::Skip(0)),
            Err(F::Fail) => Err(F::Error(err_str(cx.src, msg, w), true, Some((Some(w.0), w.1)))),
            r => r,
        },
        M::StoreS(n, v) => {
            sc_set(sc, n, Var::S(v));
            Ok(S::Skip(0))
        }
        M::StoreM(n, c) => {
            let r = eval(cx, c, w, sc)?;
            if let S::Tok(t) = &r {
                sc_set(sc, n, Var::T(t.clone()));
            }
            Ok(r)
        }
        M::Ref(l, _) if { cx.refs += 1; cx.refs > 12 } => {
            // (a pattern that reaches itself without consuming anything never ends)
            let _ = l;
            Err(F::Undef)
        }
        M::Ref(l, _) => { let r = match fetch(cx, sc, l)? {
            Fv::S(s) => {
                // (names are texts of the harness)
                let k = unsafe { std::str::from_utf8_unchecked(&s) };
                match sc_get(sc, k) {
                    Some(Var::M(m)) => eval(cx, &m, w, sc),
                    _ => Err(F::Error(String::new(), false, None)),
                }
            }
            Fv::M(m) => eval(cx, &m, w, sc),
        }; cx.refs -= 1; r },
        M::RefM(m) => eval(cx, m, w, sc),
        M::Register(k) => {
            for c in k {
                sc_set(sc, m_name(c), Var::M(c.clone()));
            }
            Ok(S::Skip(0))
        }
        M::SetScope(c) => {
            sc.borrow_mut().push(vec![]);
            let r = eval(cx, c, w, sc);
            sc.borrow_mut().pop();
            r
        }
        M::SetScopeIn(s, _, c) => eval(cx, c, w, s),
        M::Map(c, k) => match eval(cx, c, w, sc) {
            Ok(S::Tok(mut t)) | Ok(S::Proxy(mut t)) => match k {
                0 => {
                    t.name = "Mapped".to_string();
                    Ok(S::Tok(t))
                }
                1 => {
                    t.attrs.retain(|e| e.0 != "k");
                    t.attrs.push(("k".to_string(), "v".to_string()));
                    Ok(S::Tok(t))
                }
                2 => Err(F::Fail),
                3 => Ok(S::Skip(t.mat.1 as isize - w.0 as isize)),
                6 => Ok(S::Skip(0)),
                _ => Ok(S::Tok(t)),
            },
            Err(F::Undef) => Err(F::Undef),
            Err(_) if *k == 4 => Ok(S::Skip(0)),
            Err(_) if *k == 5 => Err(F::Error("mapped".to_string(), true, None)),
            r => r,
        },
        M::Catch(c, k) => match eval(cx, c, w, sc) {
            Err(F::Undef) => Err(F::Undef),
            Err(f) => match k {
                0 => Ok(S::Skip(0)),
                1 => Err(F::Fail),
                2 => Ok(S::Tok(err_tok(cx, "caught", (w.0, w.0)))),
                3 => Err(f),
                _ => Err(F::Error("other".to_string(), true, None)),
            },
            r => r,
        },
        M::Debug(c, _) => match c {
            Some(c) => eval(cx, c, w, sc),
            None => Ok(S::Skip(0)),
        },
        M::ReText(p, n) => {
            if win.starts_with(p.as_bytes()) {
                Ok(S::Tok(tok(nm(n, "Matches"), (w.0, w.0 + p.len()))))
            } else {
                Err(F::Fail)
            }
        }
        M::Rename(c, n) => match eval(cx, c, w, sc) {
            Ok(S::Tok(mut t)) | Ok(S::Proxy(mut t)) => {
                t.name = n.to_string();
                Ok(S::Tok(t))
            }
            r => r,
        },
        M::Attrs(c, a) => match eval(cx, c, w, sc) {
            Ok(S::Tok(mut t)) | Ok(S::Proxy(mut t)) => {
                for (k, v) in a {
                    if !t.attrs.iter().any(|e| e.0 == *k) {
                        t.attrs.push((k.clone(), v.clone()));
                    }
                }
                Ok(S::Tok(t))
            }
            r => r,
        },
        M::User(k, log) => {
            log.0.borrow_mut().push(w);
            let one = |n: &str, a: usize| tok(n, (a, a + 1));
            match k {
                0 if win.len() > 0 => Ok(S::Skip(1)),
                1 | 6 if win.len() > 0 => Ok(S::Tok(one("U", w.0))),
                2 if win.len() > 1 => {
                    let mut p = tok("P", (w.0, w.0 + 2));
                    p.kids = vec![one("K", w.0), one("K", w.0 + 1)];
                    Ok(S::Proxy(p))
                }
                3 => Ok(S::Stop),
                5 => Err(F::Error("own".to_string(), true, Some((Some(w.0), w.1)))),
                7 if w.0 > 0 => Ok(S::Skip(-1)),
                8 => match sc_get(sc, "v") {
                    Some(Var::S(v)) if win.starts_with(v.as_bytes()) => Ok(S::Tok(tok("V", (w.0, w.0 + v.len())))),
                    _ => Err(F::Fail),
                },
                9 if win.len() > 0 => {
                    // a break with something matched
                    Ok(S::Break("", Box::new(S::Tok(one("U", w.0)))))
                }
                10 if win.len() > 0 => Ok(S::Cont("", Box::new(S::Skip(1)))),
                11 => Ok(S::Tok(err_tok(cx, "own", (w.0, w.0)))),
                _ => Err(F::Fail),
            }
        }
    }
}
fn drop_payload(start: usize, p: S) -> S {
    match p {
        S::Tok(t) | S::Proxy(t) => drop_tok(start, t),
        s => s,
    }
}
fn proxy_payload(p: S) -> S {
    match p {
        S::Tok(t) => S::Proxy(t),
        s => s,
    }
}
fn gather(t: &T, o: &mut T) {
    if t.err {
        let mut e = t.clone();
        e.owns = false;
        o.mat = (o.mat.0.min(e.mat.0), o.mat.1.max(e.mat.1));
        o.kids.push(e);
    }
    for k in &t.kids {
        gather(k, o);
    }
}
fn drop_tok(start: usize, t: T) -> S {
    let mut o = tok("Error", (start, t.mat.1));
    gather(&t, &mut o);
    if o.kids.is_empty() {
        S::Skip(t.mat.1 as isize - start as isize)
    } else {
        S::Tok(o)
    }
}

struct P {
    cur: usize,
    start: usize,
    cap: (usize, usize),
    mat: (usize, usize),
    kids: Vec<T>,
}
impl P {
    fn grow(&mut self, t: &T) {
        self.cap = (self.cap.0.min(t.cap.0), self.cap.1.max(t.cap.1));
        self.mat = (self.mat.0.min(t.mat.0), self.mat.1.max(t.mat.1));
    }
    fn add(&mut self, mut t: T, moves: bool) {
        if t.err && t.mat.0 == t.mat.1 {
            let r = (self.mat.0.min(t.mat.0), t.mat.1);
            t.cap = r;
            t.mat = r;
        }
        if moves {
            self.grow(&t);
            self.cur = t.mat.1;
        }
        self.kids.push(t);
    }
    fn flat(&mut self, t: T, moves: bool) {
        let moves = moves && !t.discard;
        if moves {
            self.grow(&t);
            self.cur = t.mat.1;
        }
        let end = t.mat.1;
        for k in t.kids {
            if !k.discard {
                self.add(k, moves);
            }
        }
        if moves {
            self.cur = end;
        }
    }
    fn skip(&mut self, n: isize) {
        self.cur = (self.cur as isize + n) as usize;
        self.mat = (self.mat.0.min(self.start), self.mat.1.max(self.cur));
    }
    fn payload(&mut self, p: S) {
        match p {
            S::Tok(t) => {
                let mv = !t.discard;
                self.add(t, mv)
            }
            S::Proxy(t) => self.flat(t, true),
            S::Skip(n) => self.skip(n),
            _ => {}
        }
    }
    fn finish(self, name: &str) -> R {
        if self.kids.is_empty() || self.cap.0 == MAX || self.mat.0 == MAX {
            return Err(F::Fail);
        }
        let mut t = tok(name, (0, 0));
        t.cap = self.cap;
        t.mat = self.mat;
        t.kids = self.kids;
        t.owns = true;
        Ok(S::Tok(t))
    }
    fn end_loop(self, name: &str, n: usize, min: usize) -> R {
        if min == 0 && n == 0 && self.kids.is_empty() {
            return Ok(S::Skip(0));
        }
        if n < min {
            return Err(F::Fail);
        }
        self.finish(name)
    }
}

fn prog(cx: &mut Cx, ms: &[Nd], w: (usize, usize), sc: &Sc, name: &str, first: bool, lp: Option<(usize, usize)>) -> R {
    cx.depth += 1;
    let r = prog_(cx, ms, w, sc, name, first, lp);
    cx.depth -= 1;
    r
}
fn prog_(cx: &mut Cx, ms: &[Nd], w: (usize, usize), sc: &Sc, name: &str, first: bool, lp: Option<(usize, usize)>) -> R {
    let mut p = P { cur: w.0, start: w.0, cap: (MAX, 0), mat: (MAX, 0), kids: vec![] };
    let max = lp.map(|l| l.1).unwrap_or(1);
    let mut n = 0;
    while n < max {
        let at = p.cur;
        for m in ms {
            if p.cur > w.1 {
                return Err(F::Undef);
            }
            let c = consuming(m);
            match eval(cx, m, (p.cur, w.1), sc) {
                Ok(S::Tok(t)) => {
                    if t.discard {
                        continue;
                    }
                    if first {
                        return Ok(S::Tok(t));
                    }
                    if c && !t.err && t.mat.1 == p.cur {
                        return Err(F::Undef);
                    }
                    p.add(t, c);
                }
                Ok(S::Proxy(t)) => {
                    if t.discard {
                        continue;
                    }
                    if first {
                        return Ok(S::Proxy(t));
                    }
                    p.flat(t, c);
                }
                Ok(S::Skip(k)) => {
                    if k > 0 && first {
                        return Ok(S::Skip(k));
                    }
                    if c {
                        p.skip(k);
                    }
                }
                Ok(S::Break(l, d)) => {
                    if first {
                        return Ok(S::Break(l, d));
                    }
                    p.payload(*d);
                    let r = p.finish(name)?;
                    if lp.is_some() && (l == "" || l == name) {
                        return Ok(r);
                    }
                    return Ok(S::Break(l, Box::new(r)));
                }
                Ok(S::Cont(l, d)) => {
                    if first {
                        return Ok(S::Cont(l, d));
                    }
                    p.payload(*d);
                    if lp.is_some() && (l == "" || l == name) {
                        break;
                    }
                    let r = p.finish(name)?;
                    return Ok(S::Cont(l, Box::new(r)));
                }
                Ok(S::None) => return Err(F::Undef),
                Ok(S::Stop) => {
                    return match lp {
                        Some((min, _)) => p.end_loop(name, n, min),
                        None => p.finish(name),
                    }
                }
                Err(F::Fail) => {
                    if first {
                        continue;
                    }
                    return match lp {
                        Some((min, _)) => p.end_loop(name, n, min),
                        None => Err(F::Fail),
                    };
                }
                Err(f) => return Err(f),
            }
        }
        n += 1;
        if let Some((min, _)) = lp {
            if p.cur <= at {
                n = n.max(min);
                break;
            }
        }
    }
    match lp {
        Some((min, _)) => p.end_loop(name, n, min),
        None => p.finish(name),
    }
}

fn lift_errors(t: &mut T, root: &mut Vec<T>) {
    for k in t.kids.iter_mut() {
        lift_errors(k, root);
    }
    let mut keep = vec![];
    for k in t.kids.drain(..) {
        if k.err {
            root.push(k)
        } else {
            keep.push(k)
        }
    }
    t.kids = keep;
}
/// What parsing the window with the matcher must produce.
pub fn tokenize(src: &[u8], m: &Nd, w: (usize, usize), sc: &Sc) -> Result<T, F> {
    let mut cx = Cx { src, depth: 0, refs: 0 };
    let mut t = match eval(&mut cx, m, w, sc)? {
        S::Tok(t) | S::Proxy(t) => t,
        S::Break(_, p) | S::Cont(_, p) => match *p {
            S::Tok(t) => t,
            _ => return Err(F::Fail),
        },
        _ => return Err(F::Fail),
    };
    let mut errs = vec![];
    for k in t.kids.iter_mut() {
        lift_errors(k, &mut errs);
    }
    t.kids.extend(errs);
    Ok(t)
}

// ---------------------------------------------------------------- the real matchers

fn dotted(l: &L) -> Option<Name> {
    match l {
        L::T(_) => None,
        L::V(n) => Some(n),
    }
}
fn s_of(l: &L) -> String {
    match l {
        L::T(s) => s.clone(),
        L::V(_) => String::new(),
    }
}
fn fp(n: &str) -> adextopa_core::matchers::fetch::FetchPattern {
    adextopa_core::matchers::fetch::FetchPattern::new(n)
}
fn named(m: MatcherRef, n: &str) -> MatcherRef {
    if n != "" {
        m.borrow_mut().set_name(n);
    }
    m
}
static mut WARM: Vec<(usize, MatcherRef)> = vec![];
/// Compile the regular expressions before anything symbolic happens, so that all paths share them.
pub fn warm() {
    let p = adextopa_core::parser::Parser::new("x");
    let c = adextopa_core::parser_context::ParserContext::new(&p, "W");
    c.borrow().get_lines_and_columns(&adextopa_core::source_range::SourceRange::new(0, 1));
    let m = adextopa_core::matchers::pin::PinPattern::new(None, "+0".to_string());
    let _ = m.borrow().exec(m.clone(), c.clone(), c.borrow().get_scope());
    for i in [0, 1, 10, 11] {
        let m = Matches!(RES[i].0);
        let _ = m.borrow().exec(m.clone(), c.clone(), c.borrow().get_scope());
        unsafe { (*::core::ptr::addr_of_mut!(WARM)).push((i, m)) };
    }
}
pub fn build(m: &Nd) -> MatcherRef {
    match &**m {
        M::Lit(l, n) => match dotted(l) {
            Some(v) => named(adextopa_core::matchers::equals::EqualsPattern::new(fp(v)), n),
            None if *n == "" => Equals!(s_of(l)),
            None => Equals!(*n; s_of(l)),
        },
        M::Re(i, n) => {
            if *n == "" {
                // shared: compiled before any symbolic choice
                match unsafe { &*::core::ptr::addr_of!(WARM) }.iter().find(|w| w.0 == *i) {
                    Some(m) => m.1.clone(),
                    None => Matches!(RES[*i].0),
                }
            } else {
                Matches!(*n; RES[*i].0)
            }
        }
        M::Seq(a, b, e, n) => match dotted(a) {
            Some(_) => {
                let f = |l: &L| fp(dotted(l).unwrap());
                named(Sequence!(f(a), f(b), f(e)), n)
            }
            None if *n == "" => Sequence!(s_of(a), s_of(b), s_of(e)),
            None => Sequence!(*n; s_of(a), s_of(b), s_of(e)),
        },
        M::Prog(k, n) => {
            let k: Vec<MatcherRef> = k.iter().map(build).collect();
            if *n != "" {
                return ProgramPattern::new_program_with_name(k, n.to_string(), MatchAction::Continue);
            }
            match k.len() {
                2 => Program!(k[0].clone(), k[1].clone()),
                3 => Program!(k[0].clone(), k[1].clone(), k[2].clone()),
                _ => ProgramPattern::new_program(k, MatchAction::Continue),
            }
        }
        M::Switch(k, n) => {
            let k: Vec<MatcherRef> = k.iter().map(build).collect();
            if *n != "" {
                return ProgramPattern::new_program_with_name(k, n.to_string(), MatchAction::Stop);
            }
            match k.len() {
                2 => Switch!(k[0].clone(), k[1].clone()),
                3 => Switch!(k[0].clone(), k[1].clone(), k[2].clone()),
                _ => ProgramPattern::new_program(k, MatchAction::Stop),
            }
        }
        M::Loop(k, a, b, n) => {
            let k: Vec<MatcherRef> = k.iter().map(build).collect();
            if *n != "" {
                return ProgramPattern::new_loop_with_name_and_range(k, n.to_string(), *a..*b);
            }
            match k.len() {
                1 if *b == MAX => Loop!(*a..; k[0].clone()),
                1 => Loop!(*a..*b; k[0].clone()),
                2 if *a == 0 && *b == MAX => Loop!(k[0].clone(), k[1].clone()),
                2 => ProgramPattern::new_loop(k, *a..*b),
                _ if *b == MAX => ProgramPattern::new_loop(k, *a..),
                _ => ProgramPattern::new_loop(k, *a..=*b),
            }
        }
        M::Opt(c) => Optional!(build(c)),
        M::Not(c) => Not!(build(c)),
        M::Discard(c) => Discard!(build(c)),
        M::Proxy(c, n) => {
            if *n == "" {
                ProxyChildren!(build(c))
            } else {
                adextopa_core::matchers::proxy_children::ProxyChildrenPattern::new_with_name(build(c), n)
            }
        }
        M::Expand(c) => ExpandRange!(build(c)),
        M::Pin(c, o, n) => {
            use adextopa_core::matchers::pin::PinPattern;
            let c = c.as_ref().map(build);
            match (dotted(o), *n) {
                (Some(v), "") => PinPattern::new(c, fp(v)),
                (Some(v), n) => PinPattern::new_with_name(c, n, fp(v)),
                (None, "") => PinPattern::new(c, s_of(o)),
                (None, n) => PinPattern::new_with_name(c, n, s_of(o)),
            }
        }
        M::Break(l) => Break!(l),
        M::Continue(l) => adextopa_core_continue(l),
        M::Null => Null!(),
        M::Err(msg) => Error!(msg),
        M::Panic(msg) => Panic!(msg),
        M::AssertIf(c, msg) => {
            let msg = *msg;
            assert_if(build(c), msg)
        }
        M::AssertIfNot(c, msg) => assert_if_not(build(c), msg),
        M::FatalIf(c, msg) => fatal_if(build(c), msg),
        M::FatalIfNot(c, msg) => fatal_if_not(build(c), msg),
        M::StoreS(n, v) => adextopa_core::matchers::store::StorePattern::new_as_string_type(n, v),
        M::StoreM(n, c) => Store!(n; build(c)),
        M::Ref(l, n) => {
            let r = match dotted(l) {
                Some(v) => adextopa_core::matchers::r#ref::RefPattern::new(fp(v)),
                None => Ref!(s_of(l)),
            };
            named(r, n)
        }
        M::RefM(c) => Ref!(build(c)),
        M::Register(k) => {
            let r = adextopa_core::matchers::register::RegisterPattern::new_blank();
            for c in k {
                r.borrow_mut().add_pattern(build(c));
            }
            r
        }
        M::SetScope(c) => SetScope!(build(c)),
        M::SetScopeIn(_, s, c) => SetScope!(s.clone(), build(c)),
        M::Map(c, k) => map(build(c), *k),
        M::Catch(c, k) => catch(build(c), *k),
        M::ReText(p, n) => named(Matches!(p), n),
        M::Rename(c, n) => {
            let n = n.to_string();
            Map!(build(c), move |t, _, _| {
                t.borrow_mut().set_name(&n);
                TokenResult!(t.clone())
            })
        }
        M::Attrs(c, a) => {
            let a = a.clone();
            Map!(build(c), move |t, _, _| {
                for (k, v) in &a {
                    if !t.borrow().has_attribute(k) {
                        t.borrow_mut().set_attribute(k, v);
                    }
                }
                TokenResult!(t.clone())
            })
        }
        M::Debug(c, l) => adextopa_core::matchers::debug::DebugPattern::new_with_debug_mode(c.as_ref().map(build), *l),
        M::User(k, log) => Rc::new(RefCell::new(Box::new(Own(*k, log.clone())))),
    }
}
/// A matcher of the user's own, written against the trait alone.
struct Own(u8, Logs);
impl adextopa_core::matcher::Matcher for Own {
    fn exec(&self, _: MatcherRef, c: adextopa_core::parser_context::ParserContextRef, sc: adextopa_core::scope_context::ScopeContextRef) -> Result<MatcherSuccess, MatcherFailure> {
        use adextopa_core::source_range::SourceRange;
        let w = c.borrow().offset;
        let parser = c.borrow().parser.clone();
        self.1 .1.borrow_mut().push((w.start, w.end));
        let n = w.end - w.start;
        let one = |s: &str, a: usize| StandardToken::new(&parser, s.to_string(), SourceRange::new(a, a + 1));
        match self.0 {
            0 if n > 0 => Ok(MatcherSuccess::Skip(1)),
            1 | 6 if n > 0 => Ok(MatcherSuccess::Token(one("U", w.start))),
            2 if n > 1 => {
                let p = StandardToken::new(&parser, "P".to_string(), SourceRange::new(w.start, w.start + 2));
                p.borrow_mut().set_children(vec![one("K", w.start), one("K", w.start + 1)]);
                Ok(MatcherSuccess::ProxyChildren(p))
            }
            3 => Ok(MatcherSuccess::Stop),
            5 => Err(MatcherFailure::Error(adextopa_core::parse_error::ParseError::new_with_range("own", w))),
            7 if w.start > 0 => Ok(MatcherSuccess::Skip(-1)),
            8 => match sc.borrow().get("v") {
                Some(adextopa_core::scope::VariableType::String(v)) => match c.borrow().matches_str(&v) {
                    Some(r) => Ok(MatcherSuccess::Token(StandardToken::new(&parser, "V".to_string(), r))),
                    None => Err(MatcherFailure::Fail),
                },
                _ => Err(MatcherFailure::Fail),
            },
            9 if n > 0 => Ok(MatcherSuccess::Break((String::new(), Box::new(MatcherSuccess::Token(one("U", w.start)))))),
            10 if n > 0 => Ok(MatcherSuccess::Continue((String::new(), Box::new(MatcherSuccess::Skip(1))))),
            11 => ErrorTokenResult!(c, "own"),
            _ => Err(MatcherFailure::Fail),
        }
    }
    fn is_consuming(&self) -> bool {
        self.0 != 6
    }
    fn get_name(&self) -> &str {
        "Own"
    }
    fn set_name(&mut self, _: &str) {}
    fn add_pattern(&mut self, _: MatcherRef) {}
    fn get_children(&self) -> Option<Vec<MatcherRef>> {
        None
    }
    fn to_string(&self) -> String {
        "Own".to_string()
    }
}
fn adextopa_core_continue(l: &str) -> MatcherRef {
    Rc::new(RefCell::new(Box::new(Cont(l.to_string()))))
}
/// The crate has no matcher that produces `Continue`; a user's own matcher can.
struct Cont(String);
impl adextopa_core::matcher::Matcher for Cont {
    fn exec(&self, _: MatcherRef, _: adextopa_core::parser_context::ParserContextRef, _: adextopa_core::scope_context::ScopeContextRef) -> Result<MatcherSuccess, MatcherFailure> {
        Ok(MatcherSuccess::Continue((self.0.clone(), Box::new(MatcherSuccess::None))))
    }
    fn get_name(&self) -> &str {
        "Continue"
    }
    fn set_name(&mut self, _: &str) {}
    fn add_pattern(&mut self, _: MatcherRef) {}
    fn get_children(&self) -> Option<Vec<MatcherRef>> {
        None
    }
    fn to_string(&self) -> String {
        "Continue".to_string()
    }
}
fn assert_if(m: MatcherRef, msg: Name) -> MatcherRef {
    AssertIf!(m, msg)
}
fn assert_if_not(m: MatcherRef, msg: Name) -> MatcherRef {
    #[allow(unused)]
    use adextopa_core::source_range::SourceRange;
    AssertIfNot!(m, msg)
}
fn fatal_if(m: MatcherRef, msg: Name) -> MatcherRef {
    FatalIf!(m, msg)
}
fn fatal_if_not(m: MatcherRef, msg: Name) -> MatcherRef {
    FatalIfNot!(m, msg)
}
fn err(msg: &str) -> MatcherFailure {
    MatcherFailure::Error(adextopa_core::parse_error::ParseError::new(msg))
}
fn map(m: MatcherRef, k: u8) -> MatcherRef {
    use adextopa_core::parser_context::ParserContextRef;
    use adextopa_core::scope_context::ScopeContextRef;
    let f = move |t: TokenRef, c: ParserContextRef, _: ScopeContextRef| -> Result<MatcherSuccess, MatcherFailure> {
        match k {
            0 => t.borrow_mut().set_name("Mapped"),
            1 => {
                t.borrow_mut().set_attribute("k", "v");
            }
            2 => return Err(MatcherFailure::Fail),
            3 => return Ok(MatcherSuccess::Skip(t.borrow().get_matched_range().end as isize - c.borrow().offset.start as isize)),
            6 => return Ok(MatcherSuccess::Skip(0)),
            _ => {}
        }
        TokenResult!(t)
    };
    if k < 4 || k == 6 {
        Map!(m, f)
    } else {
        Map!(m, f, move |f, _, _| if k == 4 { Ok(MatcherSuccess::Skip(0)) } else { let _: MatcherFailure = f; Err(err("mapped")) })
    }
}
fn catch(m: MatcherRef, k: u8) -> MatcherRef {
    Catch!(m, move |c, f| match k {
        0 => Ok(MatcherSuccess::Skip(0)),
        1 => Err(MatcherFailure::Fail),
        2 => ErrorTokenResult!(c, "caught"),
        3 => Err(f),
        _ => Err(err("other")),
    })
}

// ---------------------------------------------------------------- comparison

fn is(c: bool, what: &str) {
    if !c {
        sx::fail(what)
    }
}
/// The real token must be the specified one.
pub fn same(src: &[u8], r: &TokenRef, t: &T) {
    let x = r.borrow();
    is(x.get_name().as_str() == t.name.as_str(), "a token has the wrong name (another matcher than specified matched here)");
    let c = x.get_captured_range();
    let m = x.get_matched_range();
    is(c.start == t.cap.0 && c.end == t.cap.1, "a token has the wrong captured range");
    is(m.start == t.mat.0 && m.end == t.mat.1, "a token has the wrong matched range");
    is(x.get_matched_value().as_bytes() == &src[t.mat.0..t.mat.1], "a token's matched value is not the text it matched");
    match &t.val {
        Some(v) => is(x.get_value().as_bytes() == &v[..], "a token has the wrong value"),
        None => is(x.get_value().as_bytes() == &src[t.cap.0..t.cap.1], "a token's value is not the text it captured"),
    }
    is(x.get_captured_value().as_bytes() == &src[t.cap.0..t.cap.1], "a token's captured value is not the text it captured");
    is(x.flags_enabled(IS_ERROR) == t.err, "a token is wrongly (not) marked as an error");
    match &t.msg {
        Some(s) => is(x.get_attribute("__message").map(|v| v == s).unwrap_or(false), "an error has the wrong message or position"),
        None => is(!x.has_attribute("__message"), "a token that is no error carries an error message"),
    }
    for (k, v) in &t.attrs {
        is(x.attribute_equals(k, v), "an attribute is missing or has another value");
    }
    // (an error token may carry more than its message)
    if !t.err {
        is(x.get_attributes().len() == t.attrs.len() + t.val.is_some() as usize, "a token has an attribute it must not have");
    }
    let kids = x.get_children();
    is(kids.len() == t.kids.len(), "a token has the wrong number of children");
    for (a, b) in kids.iter().zip(t.kids.iter()) {
        same(src, a, b);
        if t.owns && !b.err {
            match a.borrow().get_parent() {
                Some(p) => is(Rc::ptr_eq(&p, r), "a child's parent is another token"),
                None => is(false, "a child has no parent"),
            }
        }
    }
}
pub fn compare(src: &[u8], real: &Result<TokenRef, MatcherFailure>, spec: &Result<T, F>) {
    match (real, spec) {
        (Ok(r), Ok(t)) => same(src, r, t),
        (Ok(_), Err(_)) => sx::fail("the text matched although it must not"),
        (Err(_), Ok(_)) => sx::fail("the text did not match although it must"),
        (Err(MatcherFailure::Fail), Err(F::Fail)) => {}
        (Err(MatcherFailure::Error(e)), Err(F::Error(m, exact, range))) => {
            if *exact {
                is(e.message == *m, "a fatal error has the wrong message or position")
            } else {
                is(e.message.ends_with(m.as_str()), "a fatal error has the wrong message")
            }
            if let Some((a, b)) = range {
                match &e.range {
                    Some(r) => is(r.end == *b && a.map(|a| a == r.start).unwrap_or(true), "a fatal error has the wrong range"),
                    None => is(false, "a fatal error has no range"),
                }
            }
        }
        (Err(MatcherFailure::Error(_)), Err(_)) => sx::fail("a plain mismatch was reported as a fatal error"),
        (Err(MatcherFailure::Fail), Err(_)) => sx::fail("a fatal error was reported as a plain mismatch"),
    }
}
/// Compact trace of a result, for the comparison of the engine with the native build.
pub fn observe(real: &Result<TokenRef, MatcherFailure>) {
    fn go(r: &TokenRef) {
        let x = r.borrow();
        let c = x.get_captured_range();
        let m = x.get_matched_range();
        sx::emit(&[1, c.start as u8, c.end as u8, m.start as u8, m.end as u8, x.get_children().len() as u8]);
        sx::emit(x.get_name().as_bytes());
        sx::emit(x.get_value().as_bytes());
        for k in x.get_children() {
            go(k);
        }
    }
    match real {
        Ok(t) => go(t),
        Err(MatcherFailure::Fail) => sx::emit(&[2]),
        Err(MatcherFailure::Error(e)) => {
            sx::emit(&[3]);
            sx::emit(e.message.as_bytes());
        }
    }
}
#[allow(unused)]
fn unused(p: &adextopa_core::parser::ParserRef) {
    let _ = StandardToken::new(p, String::new(), adextopa_core::source_range::SourceRange::new(0, 0));
}
