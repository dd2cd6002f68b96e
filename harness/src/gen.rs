//! Symbolic texts and matcher trees.
use crate::spec::*;
use crate::sx::*;
use adextopa_core::matcher::MatcherFailure;
use adextopa_core::parser::Parser;
use adextopa_core::parser_context::ParserContext;
use adextopa_core::source_range::SourceRange;
use adextopa_core::token::TokenRef;
use std::rc::Rc;

/// A text of exactly n symbolic ASCII characters.
pub fn ascii(n: usize) -> String {
    let mut v = Vec::with_capacity(n + 1);
    for _ in 0..n {
        let b = byte();
        assume(b < 128);
        v.push(b);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// A text of at most n symbolic ASCII characters.
pub fn ascii_upto(n: usize) -> String {
    ascii(choose(n as u8 + 1) as usize)
}
/// Append one symbolic character of 1..=w bytes.
pub fn push_char(v: &mut Vec<u8>, w: u8) {
    let k = choose(w);
    let cont = |v: &mut Vec<u8>| {
        let b = byte();
        assume(b >= 0x80);
        assume(b < 0xc0);
        v.push(b);
    };
    match k {
        0 => {
            let b = byte();
            assume(b < 0x80);
            v.push(b);
        }
        1 => {
            let b = byte();
            assume(b >= 0xc2);
            assume(b < 0xe0);
            v.push(b);
            cont(v);
        }
        2 => {
            // U+1000..U+CFFF
            let b = byte();
            assume(b >= 0xe1);
            assume(b < 0xed);
            v.push(b);
            cont(v);
            cont(v);
        }
        _ => {
            // U+40000..U+FFFFF
            let b = byte();
            assume(b >= 0xf1);
            assume(b < 0xf4);
            v.push(b);
            cont(v);
            cont(v);
            cont(v);
        }
    }
}
/// A text of n symbolic characters of up to w bytes each.
pub fn utf8(n: usize, w: u8) -> String {
    let mut v = vec![];
    for _ in 0..n {
        push_char(&mut v, w);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
pub fn is_boundary(s: &str, i: usize) -> bool {
    let b = s.as_bytes();
    i == b.len() || (i < b.len() && b[i] & 0xc0 != 0x80)
}

pub fn t(s: &str) -> L {
    L::T(s.to_string())
}
pub fn lit(s: &str) -> Nd {
    Rc::new(M::Lit(t(s), ""))
}
pub fn nd(m: M) -> Nd {
    Rc::new(m)
}
pub fn re(i: usize) -> Nd {
    nd(M::Re(i, ""))
}
pub fn seq() -> Nd {
    nd(M::Seq(t("<"), t(">"), t("\\"), ""))
}
pub fn prog(k: Vec<Nd>) -> Nd {
    nd(M::Prog(k, ""))
}
pub fn switch(k: Vec<Nd>) -> Nd {
    nd(M::Switch(k, ""))
}

/// Leaves and small wrapped leaves: everything a child of a composite can yield.
pub const NLEAF: u8 = 18;
pub fn leaf_n(k: u8) -> Nd {
    match k {
        0 => lit("a"),
        1 => lit("b"),
        2 => lit("ab"),
        3 => re(0),
        4 => re(1),
        5 => seq(),
        6 => nd(M::Opt(lit("a"))),
        7 => nd(M::Not(lit("a"))),
        8 => nd(M::Discard(lit("a"))),
        9 => nd(M::Err("e1")),
        10 => nd(M::AssertIf(lit("a"), "e2")),
        11 => nd(M::Pin(Some(lit("a")), t(""), "")),
        12 => nd(M::Null),
        13 => nd(M::Proxy(prog(vec![lit("a"), nd(M::Discard(lit("b")))]), "")),
        14 => nd(M::Expand(seq())),
        15 => prog(vec![lit("a"), nd(M::Err("e3"))]),
        16 => nd(M::Lit(t("a"), "A")),
        _ => nd(M::AssertIfNot(lit("a"), "e4")),
    }
}
pub fn leaf() -> Nd {
    leaf_n(choose(NLEAF))
}
pub const NSIMPLE: u8 = 6;
pub fn simple_n(k: u8) -> Nd {
    match k {
        0 => lit("a"),
        1 => lit("b"),
        2 => nd(M::Opt(lit("b"))),
        3 => nd(M::Discard(lit("a"))),
        4 => nd(M::AssertIf(lit("b"), "es")),
        _ => nd(M::Proxy(prog(vec![lit("a"), lit("b")]), "")),
    }
}
pub fn simple() -> Nd {
    simple_n(choose(NSIMPLE))
}

pub fn window(s: &str, w: (usize, usize)) -> adextopa_core::parser_context::ParserContextRef {
    let p = Parser::new_with_file_name(s, FILE);
    if w == (0, s.len()) {
        ParserContext::new(&p, "T")
    } else {
        ParserContext::new_with_offset(&p, SourceRange::new(w.0, w.1), "T")
    }
}
/// Run the real matcher over the window and hold the result against the specification.
pub fn against_spec_in(m: &Nd, s: &str, w: (usize, usize)) -> Result<TokenRef, MatcherFailure> {
    let real = build(m);
    against(m, real, s, w)
}
pub fn against(m: &Nd, real: adextopa_core::matcher::MatcherRef, s: &str, w: (usize, usize)) -> Result<TokenRef, MatcherFailure> {
    let spec = tokenize(s.as_bytes(), m, w, &new_scope());
    if let Err(F::Undef) = spec {
        prune();
    }
    let r = ParserContext::tokenize(window(s, w), real);
    observe(&r);
    compare(s.as_bytes(), &r, &spec);
    match &spec {
        Ok(_) => cover(1),
        Err(F::Fail) => cover(2),
        _ => cover(3),
    }
    r
}
pub fn against_spec(m: &Nd, s: &str) {
    against_spec_in(m, s, (0, s.len()));
}

/// Everything a wrapped matcher can do: leaves, composites, loop control and fatal errors.
pub const NWILD: u8 = NLEAF + 14;
pub fn wild_n(k: u8) -> Nd {
    if k < NLEAF {
        return leaf_n(k);
    }
    match k - NLEAF {
        0 => prog(vec![lit("a"), lit("b")]),
        1 => switch(vec![lit("a"), prog(vec![lit("b"), lit("a")])]),
        2 => nd(M::Loop(vec![switch(vec![lit("a"), lit("b")])], 0, MAX, "")),
        3 => nd(M::Break("")),
        4 => nd(M::Continue("")),
        5 => prog(vec![lit("a"), nd(M::Break(""))]),
        6 => prog(vec![lit("a"), nd(M::Continue(""))]),
        7 => nd(M::Panic("p1")),
        8 => nd(M::FatalIf(lit("a"), "p2")),
        9 => nd(M::FatalIfNot(lit("a"), "p3")),
        10 => prog(vec![lit("a"), prog(vec![lit("b"), nd(M::Err("e5"))]), nd(M::Err("e6"))]),
        11 => nd(M::Loop(vec![lit("a"), nd(M::Discard(lit("b")))], 0, MAX, "L")),
        12 => prog(vec![nd(M::Discard(lit("a"))), lit("b"), nd(M::Discard(lit("a")))]),
        _ => nd(M::Proxy(switch(vec![lit("ab"), nd(M::Loop(vec![lit("a")], 0, MAX, ""))]), "")),
    }
}
pub fn wild() -> Nd {
    wild_n(choose(NWILD))
}
/// Put a matcher where its result matters: alone, before, after, between others, in a loop, in a
/// switch, flattened, discarded.
pub fn in_context(m: Nd, n: u8) -> Nd {
    match choose(n) {
        0 => m,
        1 => prog(vec![m, lit("b")]),
        2 => prog(vec![lit("b"), m, re(10)]),
        3 => nd(M::Loop(vec![m, lit("b")], 0, MAX, "")),
        4 => switch(vec![m, lit("b")]),
        5 => prog(vec![lit("a"), nd(M::Loop(vec![m], 1, MAX, ""))]),
        6 => prog(vec![lit("b"), nd(M::Proxy(prog(vec![lit("a"), m.clone()]), "")), lit("b")]),
        7 => prog(vec![nd(M::Discard(prog(vec![lit("a"), m.clone()]))), lit("b")]),
        _ => nd(M::Opt(m)),
    }
}

/// A wrapped matcher inside whatever is looked at: every wrapper around every kind of result.
pub const NWRAP: u8 = 12;
pub fn wrap(m: Nd) -> Nd {
    match choose(NWRAP) {
        0 => nd(M::Opt(m)),
        1 => nd(M::Not(m)),
        2 => nd(M::Discard(m)),
        3 => nd(M::Proxy(m, "")),
        4 => nd(M::Expand(m)),
        5 => nd(M::Pin(Some(m), t(""), "")),
        6 => nd(M::StoreM("v", m)),
        7 => nd(M::Map(m, 0)),
        8 => nd(M::Catch(m, 1)),
        9 => nd(M::AssertIf(m, "ew")),
        10 => nd(M::RefM(m)),
        _ => nd(M::Debug(Some(m), 0)),
    }
}
pub fn deep() -> Nd {
    let m = match choose(12) {
        0 => lit("a"),
        1 => prog(vec![lit("a"), lit("b")]),
        2 => prog(vec![lit("a"), nd(M::Break(""))]),
        3 => prog(vec![lit("a"), nd(M::Continue(""))]),
        4 => nd(M::Break("")),
        5 => nd(M::Continue("")),
        6 => nd(M::Err("e1")),
        7 => nd(M::Panic("p1")),
        8 => prog(vec![lit("a"), nd(M::Err("e2")), nd(M::Discard(lit("b")))]),
        9 => nd(M::Null),
        10 => seq(),
        _ => re(1),
    };
    wrap(m)
}
/// A matcher where its result matters, fewer places than `in_context`.
pub fn in_few(m: Nd) -> Nd {
    match choose(4) {
        0 => m,
        1 => prog(vec![m, lit("b")]),
        2 => nd(M::Loop(vec![switch(vec![lit("b"), m])], 0, MAX, "")),
        _ => prog(vec![lit("b"), nd(M::Loop(vec![m], 0, MAX, "")), re(10)]),
    }
}
