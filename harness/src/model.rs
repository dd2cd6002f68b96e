//! Harnesses for whole-parse guarantees, scopes, positions, visitors, tokens and editing.
use crate::core::any_window;
use crate::gen::*;
use crate::spec::*;
use crate::sx::*;
use adextopa_core::matcher::{MatcherFailure, MatcherRef};
use adextopa_core::parse_error::ParseError;
use adextopa_core::parser::Parser;
use adextopa_core::parser_context::ParserContext;
use adextopa_core::scope::{Scope, VariableType};
use adextopa_core::scope_context::ScopeContext;
use adextopa_core::source_range::SourceRange;
use adextopa_core::token::*;
use adextopa_core::token_visitor::TokenVisitor;
use adextopa_core::*;
use std::cell::RefCell;
use std::rc::Rc;

// ------------------------------------------------------------------ C01 coherent token trees
fn coherent(s: &str, w: (usize, usize), r: &TokenRef, root: bool) {
    let x = r.borrow();
    let c = *x.get_captured_range();
    let m = *x.get_matched_range();
    check(m.start <= m.end && c.start <= c.end, "a range is inverted");
    check(m.start >= w.0 && m.end <= w.1, "a matched range leaves the window");
    check(c.start >= m.start && c.end <= m.end, "a captured range leaves the matched range");
    check(is_boundary(s, m.start) && is_boundary(s, m.end) && is_boundary(s, c.start) && is_boundary(s, c.end), "a range cuts a character");
    check(x.get_matched_value().as_bytes() == &s.as_bytes()[m.start..m.end], "a matched value is not the text of its range");
    check(x.get_captured_value().as_bytes() == &s.as_bytes()[c.start..c.end], "a captured value is not the text of its range");
    let kids = x.get_children();
    let mut at = m.start;
    for k in kids {
        let y = k.borrow();
        let ym = *y.get_matched_range();
        let e = y.flags_enabled(IS_ERROR);
        if !e {
            check(ym.start >= m.start && ym.end <= m.end, "a child lies outside its parent");
            let yc = *y.get_captured_range();
            check(yc.start >= c.start && yc.end <= c.end, "a child captured more than its parent");
            check(ym.start >= at, "children overlap or are out of order");
            at = ym.end;
            match y.get_parent() {
                Some(p) => check(Rc::ptr_eq(&p, r), "a child's parent is another token"),
                None => check(x.get_name() == "ExpandRange", "a child has no parent"),
            }
        } else {
            check(root, "an error is not at the root");
        }
        drop(y);
        if !e {
            coherent(s, w, k, false);
        }
    }
}
/// Trees of programs, switches, loops and wrappers (without pins, errors and loop control).
fn tree(d: usize) -> Nd {
    if d == 0 {
        return match choose(5) {
            0 => lit("a"),
            1 => re(10),
            2 => seq(),
            3 => nd(M::Discard(re(10))),
            _ => nd(M::Opt(lit("b"))),
        };
    }
    match choose(8) {
        0 => prog(vec![tree(d - 1), tree(0)]),
        1 => prog(vec![tree(0), tree(d - 1)]),
        2 => switch(vec![tree(d - 1), re(11)]),
        3 => nd(M::Loop(vec![tree(d - 1)], 0, MAX, "")),
        4 => nd(M::Proxy(tree(d - 1), "")),
        5 => nd(M::Expand(tree(d - 1))),
        6 => nd(M::Discard(tree(d - 1))),
        _ => prog(vec![tree(d - 1), nd(M::Err("e")), tree(0)]),
    }
}
/// Nothing inside matches or extracts from another place than the current one.
pub fn parse_coherent(m: Nd, s: &str, w: (usize, usize)) {
    if let Err(F::Undef) = tokenize(s.as_bytes(), &m, w, &new_scope()) {
        prune();
    }
    let r = ParserContext::tokenize(window(s, w), build(&m));
    observe(&r);
    if let Ok(t) = r {
        cover(1);
        coherent(s, w, &t, true);
    } else {
        cover(2);
    }
}
harness! { fn c01_tree() {
    let m = tree(2);
    let s = if tier() > 0 { utf8(3, 2) } else { ascii(2) };
    parse_coherent(m, &s, (0, s.len()));
} }
harness! { fn c01_window() {
    let m = tree(1);
    let s = utf8(3 + tier(), 2);
    let w = any_window(&s);
    if w.0 > 2 || w.1 + 2 < s.len() { prune() }
    parse_coherent(m, &s, w);
} }
harness! { fn c01_wild() {
    let m = in_context(wild(), 9);
    let s = ascii(3 + tier());
    parse_coherent(m, &s, (0, s.len()));
} }

harness! { fn c01_long() {
    // larger trees and texts, wide characters anywhere
    let item = || match choose(5) {
        0 => prog(vec![re(10), nd(M::Discard(re(11))), re(11)]),
        1 => nd(M::Proxy(prog(vec![nd(M::Discard(re(11))), re(10), nd(M::Opt(seq()))]), "")),
        2 => nd(M::Expand(prog(vec![nd(M::Discard(re(11))), prog(vec![re(11), nd(M::Discard(re(11)))])]))),
        3 => nd(M::Loop(vec![switch(vec![seq(), prog(vec![lit("a"), nd(M::Err("e"))])])], 0, MAX, "")),
        _ => nd(M::Discard(nd(M::Loop(vec![re(11), nd(M::AssertIf(lit("a"), "e"))], 1, 3, "")))),
    };
    let m = match choose(3) {
        0 => prog(vec![item(), item(), nd(M::Opt(re(11)))]),
        1 => nd(M::Loop(vec![item(), nd(M::Opt(re(10)))], 0, MAX, "")),
        _ => prog(vec![re(10), switch(vec![prog(vec![item(), lit("b")]), item()]), nd(M::Opt(re(10)))]),
    };
    let s = ["b<\u{e4}>a\u{20ac}ab", "\u{e4}\u{e4}<a\\>b>bb", "<\u{1f600}><a>aaab"][choose(3) as usize];
    let b = byte();
    assume(b < 128);
    let i = choose(4) as usize * 2;
    if !is_boundary(s, i) { prune() }
    let s = format!("{}{}{}", &s[..i], b as char, &s[i..]);
    parse_coherent(m, &s, (0, s.len()));
} }

// ------------------------------------------------------------------ C20 only the window matters
fn shifted(a: &TokenRef, b: &TokenRef, d: usize) {
    let x = a.borrow();
    let y = b.borrow();
    check(x.get_name() == y.get_name(), "another token than for the text alone");
    let p = |r: &SourceRange| (r.start, r.end);
    let q = |r: &SourceRange| (r.start - d, r.end - d);
    check(p(x.get_captured_range()) == q(y.get_captured_range()), "another captured range than for the text alone");
    check(p(x.get_matched_range()) == q(y.get_matched_range()), "another matched range than for the text alone");
    check(x.get_value() == y.get_value(), "another value than for the text alone");
    check(x.get_matched_value() == y.get_matched_value(), "another matched value than for the text alone");
    check(x.flags_enabled(IS_ERROR) == y.flags_enabled(IS_ERROR), "another error mark than for the text alone");
    let k = x.get_children();
    let l = y.get_children();
    check(k.len() == l.len(), "other children than for the text alone");
    for (a, b) in k.iter().zip(l.iter()) {
        shifted(a, b, d);
    }
}
pub fn defined(m: &Nd, s: &str) {
    if let Err(F::Undef) = tokenize(s.as_bytes(), m, (0, s.len()), &new_scope()) {
        prune();
    }
}
pub fn both(m: Nd, pre: &str, mid: &str, post: &str) {
    let s = format!("{}{}{}", pre, mid, post);
    defined(&m, mid);
    let a = ParserContext::tokenize(window(mid, (0, mid.len())), build(&m));
    let b = ParserContext::tokenize(window(&s, (pre.len(), pre.len() + mid.len())), build(&m));
    observe(&b);
    match (&a, &b) {
        (Ok(x), Ok(y)) => {
            cover(1);
            shifted(x, y, pre.len())
        }
        (Err(MatcherFailure::Fail), Err(MatcherFailure::Fail)) => cover(2),
        (Err(MatcherFailure::Error(_)), Err(MatcherFailure::Error(_))) => cover(3),
        _ => fail("the surrounding text decides whether the window matches"),
    }
}
harness! { fn c20_wild() {
    let m = in_context(wild(), 5);
    both(m, &ascii(1), &ascii(2), &ascii(1));
} }
harness! { fn c20_tree() {
    let m = tree(1 + tier());
    both(m, &ascii(1), &ascii(2), &ascii(1));
} }
harness! { fn c20_regex() {
    let m = re(choose(RES.len() as u8) as usize);
    both(m, &ascii(1 + tier()), &ascii(choose(4) as usize), &ascii(1 + tier()));
} }
harness! { fn c20_utf8() {
    let m = match choose(4) {
        0 => prog(vec![re(10), re(11)]),
        1 => nd(M::Seq(t("<"), t(">"), t("\\"), "")),
        2 => nd(M::Loop(vec![re(11)], 0, MAX, "")),
        _ => prog(vec![re(10), nd(M::Pin(Some(re(11)), t("+0"), "")), re(11)]),
    };
    both(m, &utf8(1, 2), &utf8(3, 2), &utf8(1, 2));
} }

harness! { fn c20_far() {
    // far into a text of many lines, with variables, pins and errors
    let pre = ["0123456789", "\n\r\n\r\n\u{e4}\u{20ac}bcde"][choose(2) as usize];
    let m = match choose(5) {
        0 => prog(vec![nd(M::StoreM("x", re(10))), re(11), nd(M::Lit(L::V("x.captured_value"), ""))]),
        1 => prog(vec![re(10), nd(M::Pin(Some(nd(M::Loop(vec![re(11)], 0, MAX, ""))), t("+0"), "")), nd(M::Pin(Some(re(11)), t("-1"), "")), re(11)]),
        2 => prog(vec![nd(M::Loop(vec![re(11)], 0, 2, "")), nd(M::Err("m1")), nd(M::Opt(re(11)))]),
        3 => prog(vec![nd(M::Discard(re(11))), nd(M::AssertIf(re(11), "m2")), nd(M::Discard(prog(vec![re(11), nd(M::Err("m3"))])))]),
        _ => prog(vec![re(10), nd(M::StoreM("p", nd(M::Opt(re(10))))), nd(M::Pin(Some(re(10)), t("..+1"), "")), nd(M::Not(re(0)))]),
    };
    both(m, pre, &ascii(3), &ascii(1));
} }
harness! { fn c20_cut() {
    // what would match goes on behind the window, or starts before it
    let m = match choose(7) {
        0 => nd(M::Seq(t("(*"), t("*)"), t("\\"), "")),
        1 => nd(M::Seq(t("<"), t(">"), t("%%"), "")),
        2 => nd(M::Seq(t("'"), t("''"), t(""), "")),
        3 => nd(M::Opt(lit("abc"))),
        4 => prog(vec![re(0), nd(M::Opt(lit("ab")))]),
        5 => prog(vec![nd(M::Discard(re(2))), nd(M::Loop(vec![nd(M::Lit(t("aa"), ""))], 0, MAX, "")), nd(M::Opt(re(4)))]),
        _ => prog(vec![re(11), nd(M::Pin(Some(nd(M::Loop(vec![re(11)], 0, MAX, ""))), t("+0"), "")), nd(M::Not(lit("ab")))]),
    };
    both(m, &ascii(1), &ascii(3 + tier()), &ascii(2));
} }

// ------------------------------------------------------------------ C21 parsing is repeatable
pub fn equal(a: &Result<TokenRef, MatcherFailure>, b: &Result<TokenRef, MatcherFailure>) {
    match (a, b) {
        (Ok(x), Ok(y)) => shifted(x, y, 0),
        (Err(MatcherFailure::Fail), Err(MatcherFailure::Fail)) => {}
        (Err(MatcherFailure::Error(x)), Err(MatcherFailure::Error(y))) => check(x.message == y.message, "another fatal error the second time"),
        _ => fail("the second parse ends differently"),
    }
}
pub fn run(m: &MatcherRef, s: &str) -> Result<TokenRef, MatcherFailure> {
    ParserContext::tokenize(window(s, (0, s.len())), m.clone())
}
fn repeatable(m: Nd, s: &str, u: &str) {
    defined(&m, s);
    defined(&m, u);
    let x = build(&m);
    // what was parsed before does not matter
    let _ = run(&x, u);
    let a = run(&x, s);
    let b = run(&build(&m), s);
    observe(&a);
    equal(&b, &a);
    // a result is not changed by later parses; the same context gives the same again
    let c = window(s, (0, s.len()));
    let d = ParserContext::tokenize(c.clone(), x.clone());
    equal(&b, &d);
    let o = c.borrow().offset;
    check(o.start == 0 && o.end == s.len(), "parsing moves the caller's window");
    let e = ParserContext::tokenize(c, x.clone());
    equal(&b, &e);
    equal(&b, &a);
    cover(1);
}
harness! { fn c21_wild() {
    repeatable(in_context(wild(), 5), &ascii(2), ["", "ab", "aab", "<a>"][choose(4) as usize]);
} }
harness! { fn c21_tree() {
    repeatable(tree(1 + tier()), &ascii(2), &["a<b>", "bab"][choose(2) as usize]);
} }
harness! { fn c21_named() {
    // named matchers and variables of an earlier parse do not leak into the next one
    let m = match choose(7) {
        4 => prog(vec![nd(M::StoreS("x", "a")), nd(M::SetScope(prog(vec![nd(M::Lit(L::V("x"), "")), nd(M::StoreS("x", "b"))]))), re(10)]),
        5 => prog(vec![nd(M::StoreM("x", re(10))), nd(M::SetScope(prog(vec![nd(M::Lit(L::V("x.captured_value"), "")), nd(M::StoreM("x", nd(M::Opt(lit("b")))))])))]),
        6 => prog(vec![nd(M::Lit(t("a"), "N")), nd(M::SetScope(prog(vec![nd(M::Ref(t("N"), "")), nd(M::Opt(nd(M::Lit(t("b"), "N"))))])))]),
        0 => prog(vec![nd(M::StoreM("x", re(10))), nd(M::Lit(L::V("x.captured_value"), ""))]),
        1 => prog(vec![nd(M::Lit(t("a"), "N")), nd(M::Opt(nd(M::Ref(t("N"), ""))))]),
        2 => switch(vec![prog(vec![nd(M::Lit(t("a"), "N")), lit("b")]), nd(M::Catch(nd(M::Ref(t("N"), "")), 2))]),
        _ => prog(vec![nd(M::SetScope(prog(vec![nd(M::Opt(nd(M::StoreM("x", lit("b"))))), re(10)]))), nd(M::Lit(t("a"), "N"))]),
    };
    let u = ["ab", "ba", "aa"][choose(3) as usize];
    let s = ascii(3);
    defined(&m, &s);
    defined(&m, u);
    let x = build(&m);
    let _ = run(&x, u);
    let a = run(&x, &s);
    observe(&a);
    equal(&run(&build(&m), &s), &a);
} }

harness! { fn c21_long() {
    // the same matcher object in several places, parsing several texts in turn
    let a = switch(vec![nd(M::StoreM("x", lit("a"))), nd(M::Lit(t("b"), "N"))]);
    let m = match choose(5) {
        0 => prog(vec![a.clone(), a.clone(), nd(M::Opt(nd(M::Catch(nd(M::Ref(t("N"), "")), 2))))]),
        1 => nd(M::Loop(vec![a.clone(), nd(M::Opt(nd(M::Discard(a))))], 0, MAX, "")),
        2 => prog(vec![nd(M::Register(vec![nd(M::Prog(vec![re(10), nd(M::Opt(nd(M::Ref(t("R"), ""))))], "R"))])), nd(M::Ref(t("R"), ""))]),
        3 => prog(vec![nd(M::Map(re(10), 1)), nd(M::Opt(nd(M::Map(re(10), 0)))), nd(M::Err("m"))]),
        _ => nd(M::Catch(prog(vec![re(10), nd(M::FatalIf(lit("b"), "f")), nd(M::Discard(prog(vec![re(10), nd(M::Err("m"))])))]), 2)),
    };
    let x = build(&m);
    let texts = ["ab", "bb", "", "aaa", "ba"];
    for _ in 0..2 {
        let u = texts[choose(5) as usize];
        defined(&m, u);
        let _ = run(&x, u);
    }
    let s = ascii(2 + tier());
    defined(&m, &s);
    let r = run(&x, &s);
    observe(&r);
    equal(&run(&build(&m), &s), &r);
} }

// ------------------------------------------------------------------ C13 scopes
fn scoped_op(sub: &(Sc, adextopa_core::scope_context::ScopeContextRef), d: usize) -> Nd {
    let v = || ["x", "y"][choose(2) as usize];
    match choose(if d > 0 { 10 } else { 6 }) {
        0 => nd(M::StoreS(v(), ["a", "b"][choose(2) as usize])),
        1 => nd(M::StoreM(v(), re(10))),
        2 => nd(M::Opt(nd(M::StoreM(v(), lit("b"))))),
        3 => nd(M::Lit(L::V(v()), "")),
        4 => nd(M::Lit(L::V(["x.captured_value", "y.captured_value"][choose(2) as usize]), "")),
        5 => nd(M::StoreM(v(), nd(M::Discard(re(10))))),
        6 => nd(M::SetScope(prog(vec![scoped_op(sub, 0), re(10)]))),
        7 => nd(M::SetScope(prog(vec![nd(M::StoreS("x", "b")), nd(M::Lit(L::V("x"), "")), scoped_op(sub, 0)]))),
        8 => nd(M::SetScopeIn(sub.0.clone(), sub.1.clone(), prog(vec![scoped_op(sub, 0), re(10)]))),
        _ => nd(M::Opt(nd(M::SetScope(prog(vec![nd(M::StoreS("y", "a")), lit("a"), lit("b")]))))),
    }
}
harness! { fn c13_ops() {
    let sub = (new_scope(), ScopeContext::new());
    let m = prog(vec![nd(M::StoreS("x", "a")), nd(M::StoreS("y", "b")), scoped_op(&sub, 1), scoped_op(&sub, tier()), nd(M::Lit(L::V(["x", "x.captured_value", "y"][choose(2 + tier() as u8) as usize]), ""))]);
    against_spec(&m, &ascii(3 + tier()));
} }
harness! { fn c13_named() {
    // named matchers can be referred to once they have run
    let a = nd(M::Lit(t("a"), "N"));
    let first = match choose(7) {
        0 => a,
        1 => nd(M::Opt(a)),
        2 => nd(M::Register(vec![nd(M::Lit(t("ab"), "N")), a])),
        3 => nd(M::Seq(t("<"), t(">"), t(""), "N")),
        4 => nd(M::Loop(vec![lit("a")], 1, 2, "N")),
        5 => nd(M::SetScope(a)),
        _ => nd(M::Switch(vec![lit("b"), lit("a")], "N")),
    };
    let r = match choose(4) {
        0 => nd(M::Ref(t("N"), "")),
        1 => nd(M::Catch(nd(M::Ref(t("N"), "")), 2)),
        2 => nd(M::Opt(nd(M::Ref(t("N"), "R")))),
        _ => nd(M::RefM(nd(M::Lit(t("b"), "N")))),
    };
    let m = prog(vec![first, nd(M::Opt(lit("b"))), r, nd(M::Ref(t("N"), ""))]);
    against_spec(&m, &ascii(4));
} }
harness! { fn c13_given() {
    // inside a given scope only that scope counts, outside of it only the current one
    let sub = (new_scope(), ScopeContext::new());
    let n = || ["N", "O"][choose(2) as usize];
    let r = || nd(if flag() { M::Ref(t(n()), "") } else { M::Lit(L::V("v"), "") });
    let here = |m: Nd| nd(M::SetScopeIn(sub.0.clone(), sub.1.clone(), m));
    let m = prog(vec![
        nd(M::Register(vec![nd(M::Lit(t("a"), "N")), nd(M::Lit(t("c"), "P"))])),
        nd(M::StoreS("v", "c")),
        here(prog(vec![nd(M::Register(vec![nd(M::Lit(t("b"), n()))])), if flag() { nd(M::Opt(nd(M::Lit(t("c"), "N")))) } else { nd(M::StoreS("v", "a")) }, re(10)])),
        nd(M::Catch(if flag() { here(r()) } else { r() }, 2)),
        if flag() { here(nd(M::Opt(r()))) } else { nd(M::Ref(t("N"), "")) },
    ]);
    against_spec(&m, &ascii(4));
} }
harness! { fn c13_inner() {
    // a new scope inside a given one: it sees the given scope's names, and what it stores is gone with it
    let sub = (new_scope(), ScopeContext::new());
    let r = || nd(if flag() { M::Ref(t("N"), "") } else { M::Lit(L::V("v"), "") });
    let set = |x: &'static str| if flag() { nd(M::StoreS("v", x)) } else { nd(M::Register(vec![nd(M::Lit(t(x), "N"))])) };
    let mut inner = nd(M::SetScope(prog(vec![if flag() { set("b") } else { nd(M::Null) }, nd(M::Opt(r())), if flag() { lit("!") } else { re(11) }])));
    if flag() {
        inner = nd(M::Opt(inner));
    }
    let m = prog(vec![
        nd(M::Register(vec![nd(M::Lit(t("c"), "N"))])),
        nd(M::StoreS("v", "d")),
        nd(M::SetScopeIn(sub.0.clone(), sub.1.clone(), prog(vec![nd(M::Register(vec![nd(M::Lit(t("a"), "N"))])), nd(M::StoreS("v", "a")), inner, nd(M::Opt(r()))]))),
        nd(M::Opt(r())),
        nd(M::Opt(nd(M::SetScopeIn(sub.0.clone(), sub.1.clone(), r())))),
    ]);
    against_spec(&m, &ascii(4));
} }
harness! { fn c13_deep() {
    // scopes in scopes, failing ones too
    let r = || nd(M::Lit(L::V(["x", "y"][choose(2) as usize]), ""));
    let m = nd(M::SetScope(prog(vec![
        nd(M::StoreS("y", "c")),
        nd(M::Opt(nd(M::SetScope(prog(vec![nd(M::StoreS("x", "b")), nd(M::Opt(nd(M::SetScope(prog(vec![nd(M::StoreS("y", "b")), r(), lit("!")]))))), r(), nd(M::Opt(lit("?")))]))))),
        r(),
    ])));
    let m = prog(vec![nd(M::StoreS("x", "a")), nd(M::StoreS("y", "d")), if flag() { m } else { nd(M::Opt(m)) }, r(), nd(M::Opt(re(11)))]);
    against_spec(&m, &ascii(4 + tier()));
} }
harness! { fn c13_by_name() {
    // the name is taken from the text
    let m = prog(vec![
        nd(M::Register(vec![nd(M::Lit(t("b"), "a")), nd(M::Lit(t("a"), "b")), nd(M::Lit(t("c"), "x"))])),
        nd(M::StoreM("v", re(10))),
        nd(M::Ref(L::V("v.captured_value"), "")),
    ]);
    against_spec(&m, &ascii(3));
} }
harness! { fn c13_recursive() {
    // a registered matcher refers to itself
    let p = nd(M::Prog(vec![lit("<"), nd(M::Opt(nd(M::Ref(t("P"), "")))), lit(">")], "P"));
    let l = nd(M::Loop(vec![switch(vec![re(10), prog(vec![lit("("), nd(M::Ref(t("P"), "")), lit(")")])])], 0, MAX, "P"));
    let m = prog(vec![nd(M::Register(vec![if flag() { p } else { l }])), nd(M::Ref(t("P"), ""))]);
    against_spec(&m, &ascii(5 + tier()));
} }
fn var_is(v: &Option<VariableType>, w: &Option<String>) {
    match (v, w) {
        (None, None) => {}
        (Some(VariableType::String(a)), Some(b)) => check(a == b, "a variable has the wrong value"),
        (None, Some(_)) => fail("a variable is lost"),
        _ => fail("a variable that was never set (or is gone) has a value"),
    }
}
harness! { fn c13_api() {
    // any sequence of operations on a scope stack behaves like a stack of maps
    let c = ScopeContext::new();
    let mut m: Vec<Vec<(usize, String)>> = vec![];
    let names = ["a", "b"];
    let n = 5 + tier();
    for i in 0..n {
        match choose(4) {
            0 => {
                c.borrow_mut().push(Scope::new());
                m.push(vec![]);
            }
            1 => {
                let r = c.borrow_mut().pop();
                check(r.is_some() == m.pop().is_some(), "popping a scope");
            }
            2 => {
                let k = choose(2) as usize;
                let v = format!("{}", i);
                if m.is_empty() {
                    m.push(vec![]);
                }
                let top = m.len() - 1;
                let mut old = None;
                for e in m[top].iter_mut() {
                    if e.0 == k {
                        old = Some(e.1.clone());
                        e.1 = v.clone();
                    }
                }
                if old.is_none() {
                    m[top].push((k, v.clone()));
                }
                let r = c.borrow_mut().set(names[k], VariableType::String(v));
                var_is(&r, &old);
            }
            _ => {}
        }
        for k in 0..2 {
            let mut w = None;
            for f in m.iter() {
                for e in f {
                    if e.0 == k {
                        w = Some(e.1.clone());
                    }
                }
            }
            var_is(&c.borrow().get(names[k]), &w);
        }
    }
} }
harness! { fn c13_context() {
    // matchers and variables registered with a context are seen by the parse
    let s = ascii(3);
    let c = window(&s, (0, s.len()));
    let a = build(&nd(M::Lit(t("a"), "N")));
    let b = build(&nd(M::Lit(t("b"), "O")));
    match choose(4) {
        0 => {
            c.borrow().register_matcher(a);
            c.borrow().register_matcher(b);
        }
        1 => c.borrow().register_matchers(vec![b, a]),
        2 => {
            c.borrow().register_matcher_with_name("O", a.clone());
            c.borrow().register_matcher_with_name("N", a);
            c.borrow().register_matcher_with_name("O", b);
        }
        _ => {
            let mut h = std::collections::HashMap::new();
            h.insert("N", a);
            h.insert("O", b);
            c.borrow().register_matchers_with_names(h);
        }
    }
    c.borrow_mut().set_scope_variable("v", VariableType::String("a".to_string()));
    check(c.borrow().get_registered_matcher("N").is_some() && c.borrow().get_registered_matcher("X").is_none() && c.borrow().get_registered_matcher("v").is_none(), "looking up a registered matcher");
    var_is(&c.borrow().get_scope_variable("v"), &Some("a".to_string()));
    let m = prog(vec![nd(M::Ref(t("N"), "")), nd(M::Ref(t("O"), "")), nd(M::Lit(L::V("v"), ""))]);
    let sc = new_scope();
    {
        let mut x = sc.borrow_mut();
        x.push(vec![
            ("N".to_string(), Var::M(nd(M::Lit(t("a"), "N")))),
            ("O".to_string(), Var::M(nd(M::Lit(t("b"), "O")))),
            ("v".to_string(), Var::S("a")),
        ]);
    }
    let spec = tokenize(s.as_bytes(), &m, (0, s.len()), &sc);
    let r = ParserContext::tokenize(c, build(&m));
    observe(&r);
    compare(s.as_bytes(), &r, &spec);
} }

// ------------------------------------------------------------------ C17 lines, columns and messages
pub fn positions(s: &str, a: usize, b: usize) {
    let c = window(s, (0, s.len()));
    let c = c.borrow();
    let r = SourceRange::new(a, b);
    let x = line_of(s.as_bytes(), a);
    let y = line_of(s.as_bytes(), b);
    let col = (x.1, if y.1 < x.1 { x.1 } else { y.1 });
    check(c.get_lines(&r) == (x.0, y.0), "the wrong line");
    check(c.get_columns(&r) == col, "the wrong column");
    check(c.get_lines_and_columns(&r) == ((x.0, y.0), col), "lines and columns disagree with each other");
    let m = c.get_error_as_string("oops", &r);
    emit(m.as_bytes());
    check(m == err_str(s.as_bytes(), "oops", (a, b)), "the wrong error text");
}
harness! { fn c17_ascii() {
    let s = ascii(5 + tier());
    let (a, b) = any_window(&s);
    positions(&s, a, b);
} }
harness! { fn c17_utf8() {
    let s = utf8(3 + tier(), 3);
    let (a, b) = any_window(&s);
    positions(&s, a, b);
} }
harness! { fn c17_lines() {
    // longer texts of line breaks and letters
    let mut s = String::new();
    for _ in 0..7 + tier() {
        s.push(['\n', '\r', 'x'][choose(3) as usize]);
    }
    let a = choose(4) as usize;
    let b = s.len() - choose(3) as usize;
    positions(&s, a, b);
} }

harness! { fn c17_far() {
    // line and column numbers of more than one digit
    let pre = ["\n\n\n\n\n\n\n\n\n", "\r\n\r\n\r\n\r\n\r\n\r\n\r\n\r\n\r\n", "abcdefghi", "\u{e4}\u{20ac}\u{1f600}"][choose(4) as usize];
    let s = pre.to_string() + &ascii(3) + ["", "\nx"][choose(2) as usize] + &ascii(1 + tier());
    let a = pre.len() - choose(2) as usize + choose(4) as usize;
    let b = s.len() - choose(3) as usize;
    if a > b || !is_boundary(&s, a) { prune() }
    positions(&s, a, b);
} }

// ------------------------------------------------------------------ C18 visitors
const NM: [&str; 3] = ["A", "B", "C"];
pub fn plain(n: &str, k: Vec<TokenRef>) -> TokenRef {
    let p = Parser::new("x");
    let t = StandardToken::new(&p, n.to_string(), SourceRange::new(0, 1));
    for x in k.iter() {
        x.borrow_mut().set_parent(Some(t.clone()));
    }
    t.borrow_mut().set_children(k);
    t
}
/// A tree of symbolic shape and names; `o` gets the names in pre-order.
fn shape(d: usize, w: u8, o: &mut Vec<&'static str>) -> TokenRef {
    let n = NM[choose(3) as usize];
    o.push(n);
    let k = if d == 0 { 0 } else { choose(w) };
    let k = (0..k).map(|_| shape(d - 1, w, o)).collect();
    plain(n, k)
}
harness! { fn c18_visit() {
    let mut names = vec![];
    let t = shape(2, 3, &mut names);
    if names.len() > 4 + tier() { prune() }
    // hooks: up to three, in any order, the same name possibly twice, "*" for all others
    let n = choose(4) as usize;
    let hooks: Vec<&'static str> = (0..n).map(|_| ["A", "B", "*"][choose(3) as usize]).collect();
    let stop = choose(4) as usize;
    let log: RefCell<Vec<(usize, String)>> = RefCell::new(vec![]);
    let r = {
        let mut v = TokenVisitor::new();
        for (i, h) in hooks.iter().enumerate() {
            let log = &log;
            v.add_visitor(h, Box::new(move |t: TokenRef| {
                log.borrow_mut().push((i, t.borrow().get_name().clone()));
                if log.borrow().len() == stop { Err(ParseError::new("stop")) } else { Ok(()) }
            }));
        }
        v.visit(t)
    };
    let mut want: Vec<(usize, &str)> = vec![];
    let mut stopped = false;
    for n in names.iter() {
        let h = hooks.iter().position(|h| h == n).or(hooks.iter().position(|h| *h == "*"));
        if let Some(i) = h {
            want.push((i, n));
            if want.len() == stop { stopped = true; break; }
        }
    }
    let log = log.borrow();
    for e in log.iter() { emit(&[e.0 as u8]); emit(e.1.as_bytes()); }
    check(log.len() == want.len(), "a visitor is called too often or not often enough");
    for (a, b) in log.iter().zip(want.iter()) {
        check(a.1 == b.1, "tokens are visited in the wrong order");
        check(a.0 == b.0, "the wrong visitor is called");
    }
    match r {
        Ok(()) => check(!stopped, "an error of a visitor is lost"),
        Err(e) => check(stopped && e.message == "stop", "a visit fails although no visitor does"),
    }
} }
harness! { fn c18_deep() {
    // a deep tree, and more hooks
    let mut names: Vec<&'static str> = vec![];
    let mut n = || { let n = ["A", "B", "C", "D"][choose(4) as usize]; names.push(n); n };
    // A(B(C(D, E), F), G)
    let (a, b, c, d, e, f, g) = (n(), n(), n(), ["A", "*"][choose(2) as usize], "B", "C", "A");
    drop(n);
    let t = plain(a, vec![plain(b, vec![plain(c, vec![plain(d, vec![]), plain(e, vec![])]), plain(f, vec![])]), plain(g, vec![])]);
    let order = [a, b, c, d, e, f, g];
    let hooks: Vec<&'static str> = (0..4).map(|i| ["A", "B", "*", "C"][if i < 2 { choose(4) as usize } else { i }]).collect();
    let stop = 1 + choose(8) as usize;
    let log: RefCell<Vec<usize>> = RefCell::new(vec![]);
    let r = {
        let mut v = TokenVisitor::new();
        for (i, h) in hooks.iter().enumerate() {
            let log = &log;
            v.add_visitor(h, Box::new(move |_: TokenRef| {
                log.borrow_mut().push(i);
                if log.borrow().len() == stop { Err(ParseError::new("stop")) } else { Ok(()) }
            }));
        }
        v.visit(t)
    };
    let mut want = vec![];
    for n in order {
        let h = hooks.iter().position(|h| *h == n).or(hooks.iter().position(|h| *h == "*"));
        if let Some(i) = h {
            want.push(i);
            if want.len() == stop { break; }
        }
    }
    for x in log.borrow().iter() { emit(&[*x as u8]); }
    check(*log.borrow() == want, "the wrong visitors are called, or in the wrong order");
    check(r.is_err() == (want.len() == stop), "a visit ends differently than its visitors say");
} }
harness! { fn c18_change() {
    // hooks that change the token they are given: what they leave is what is visited next
    let mut names = vec![];
    let t = shape(2, 3, &mut names);
    if names.len() > 4 + tier() { prune() }
    let (x, y) = (choose(5), choose(5));
    let star = flag();
    fn change(t: &TokenRef, k: u8) {
        let mut b = t.borrow_mut();
        match k {
            0 => b.set_name("Z"),
            1 => { let c = b.get_children_mut(); if c.len() > 0 { c.remove(0); } }
            2 => b.add_child(plain("D", vec![])),
            3 => b.get_children_mut().reverse(),
            _ => { b.set_value("v"); b.set_parent(None); b.enable_flags(4) }
        }
    }
    // the same on a copy, one token after the other
    fn copy(t: &TokenRef) -> TokenRef {
        let n = t.borrow().get_name().clone();
        let k = t.borrow().get_children().iter().map(copy).collect();
        plain(&n, k)
    }
    fn model(t: &TokenRef, x: u8, y: u8, star: bool, o: &mut Vec<String>) {
        let n = t.borrow().get_name().clone();
        match n.as_str() {
            "A" => { o.push("A".to_string()); change(t, x) }
            "B" => { o.push("B".to_string()); change(t, y) }
            _ => if star { o.push(n) }
        }
        let k = t.borrow().get_children().clone();
        for c in k { model(&c, x, y, star, o) }
    }
    let c = copy(&t);
    let mut want = vec![];
    model(&c, x, y, star, &mut want);
    let log = RefCell::new(Vec::<String>::new());
    let r = {
        let mut v = TokenVisitor::new();
        let log = &log;
        v.add_visitor("A", Box::new(move |t: TokenRef| { log.borrow_mut().push("A".to_string()); change(&t, x); Ok(()) }));
        v.add_visitor("B", Box::new(move |t: TokenRef| { log.borrow_mut().push("B".to_string()); change(&t, y); Ok(()) }));
        if star {
            v.add_visitor("*", Box::new(move |t: TokenRef| { log.borrow_mut().push(t.borrow().get_name().clone()); Ok(()) }));
        }
        v.visit(t.clone())
    };
    check(r.is_ok(), "a visit fails although no visitor does");
    for n in log.borrow().iter() { emit(n.as_bytes()); }
    check(*log.borrow() == want, "another order of visits than the changed tree has");
    fn same(a: &TokenRef, b: &TokenRef) -> bool {
        let (a, b) = (a.borrow(), b.borrow());
        let (j, k) = (a.get_children(), b.get_children());
        a.get_name() == b.get_name() && a.get_value() == b.get_value() && j.len() == k.len() && j.iter().zip(k.iter()).all(|(x, y)| same(x, y))
    }
    check(same(&t, &c), "the tree is another one than the visitors made of it");
} }
harness! { fn c18_parsed() {
    // every token of a parsed tree exactly once, parents first
    let m = in_context(wild(), 4);
    let s = ascii(3);
    defined(&m, &s);
    let t = match run(&build(&m), &s) { Ok(t) => t, Err(_) => prune() };
    // hooks for all tokens, for the tokens of one name, or both
    let one = ["", "Program", "N", "Equals"][choose(4) as usize];
    let all = one == "" || flag();
    let log = RefCell::new(Vec::<(TokenRef, bool)>::new());
    let r = match (one, all) {
        ("", _) => Visit!(t, log, "*" => |t: TokenRef| { log.borrow_mut().push((t, false)); Ok(()) }),
        (_, true) => Visit!(t, log, "*" => |t: TokenRef| { log.borrow_mut().push((t, false)); Ok(()) }, one => |t: TokenRef| { log.borrow_mut().push((t, true)); Ok(()) }),
        _ => Visit!(t, log, one => |t: TokenRef| { log.borrow_mut().push((t, true)); Ok(()) }),
    };
    check(r.is_ok(), "a visit fails although no visitor does");
    fn pre(t: &TokenRef, one: &str, all: bool, o: &mut Vec<(TokenRef, bool)>) {
        let is = t.borrow().get_name() == one;
        if is || all { o.push((t.clone(), is)); }
        for k in t.borrow().get_children() { pre(k, one, all, o) }
    }
    let mut want = vec![];
    pre(&t, one, all, &mut want);
    let log = log.borrow();
    emit(&[log.len() as u8]);
    check(log.len() == want.len(), "a token is missed or visited twice");
    for (a, b) in log.iter().zip(want.iter()) {
        check(Rc::ptr_eq(&a.0, &b.0), "tokens are visited in the wrong order");
        check(a.1 == b.1, "the wrong visitor is called");
    }
} }

// ------------------------------------------------------------------ C19 tokens
harness! { fn c19_values() {
    // any sequence of changes to a token, against a plain record
    let s = utf8(3, 2);
    let p = Parser::new(&s);
    let at = |s: &str| {
        let (a, b) = any_window(s);
        if a > 1 { prune() }
        (a, b)
    };
    let (a, b) = at(&s);
    use adextopa_core::matchers::pin::PinToken;
    let (r, w) = (SourceRange::new(a, b), SourceRange::new(0, s.len()));
    let kind = choose(4);
    let t = match kind {
        0 => StandardToken::new(&p, "N".to_string(), r),
        1 => StandardToken::new_with_matched_range(&p, "N".to_string(), r, w),
        2 => PinToken::new(&p, "N".to_string(), r),
        _ => PinToken::new_with_matched_range(&p, "N".to_string(), r, w),
    };
    let mut rs = (r, if kind % 2 == 0 { r } else { w });
    let mut name = "N";
    let mut cap = s[a..b].to_string();
    let mut mat = t.borrow().get_matched_value().clone();
    check(mat == s || mat == s[a..b], "a new token has the wrong matched text");
    let mut val: Option<&str> = None;
    let mut ovr: Option<&str> = None;
    for _ in 0..2 + tier() {
        let mut t = t.borrow_mut();
        match choose(10) {
            0 => { let (a, b) = at(&s); rs.0 = SourceRange::new(a, b); t.set_captured_range(rs.0); cap = s[a..b].to_string() }
            1 => { let (a, b) = at(&s); rs.1 = SourceRange::new(a, b); t.set_matched_range(rs.1); mat = s[a..b].to_string() }
            8 => { t.get_captured_range_mut().start = 7; rs.0.start = 7 }
            9 => { t.get_matched_range_mut().end = 9; rs.1.end = 9 }
            2 => { t.set_value("v"); val = Some("v") }
            3 => { t.set_value(""); val = None }
            4 => { t.set_attribute("__value", "w"); ovr = Some("w") }
            5 => { t.set_captured_value("c"); cap = "c".to_string() }
            6 => { t.set_matched_value("m"); mat = "m".to_string() }
            _ => { t.set_name("O"); name = "O" }
        }
    }
    let t = t.borrow();
    emit(t.get_value().as_bytes());
    check(t.get_name() == name, "the name is wrong");
    check(*t.get_captured_range() == rs.0 && *t.get_matched_range() == rs.1, "the ranges are wrong");
    // a pin's token shows the value attribute as what it captured, too
    check(t.get_captured_value() == if kind > 1 { ovr.unwrap_or(&cap) } else { &cap }, "the captured value is wrong");
    check(*t.get_matched_value() == mat, "the matched value is wrong");
    let want = match (ovr, val) { (Some(v), _) | (None, Some(v)) => v, _ => &cap };
    check(t.get_value() == want, "the value is wrong");
} }
harness! { fn c19_flags() {
    // flags and attributes are independent of each other
    let p = Parser::new("x");
    let t = StandardToken::new(&p, "N".to_string(), SourceRange::new(0, 1));
    let mut f = 0u8;
    let mut at: Vec<(&str, &str)> = vec![];
    for _ in 0..3 {
        let mut t = t.borrow_mut();
        match choose(4) {
            0 => { let b = byte(); t.set_flags(b); f = b }
            1 => { let b = byte(); t.enable_flags(b); f |= b }
            2 => { let b = byte(); t.disable_flags(b); f &= !b }
            _ => {
                let k = ["j", "k"][choose(2) as usize];
                let v = ["1", ""][choose(2) as usize];
                let old = at.iter().position(|e| e.0 == k).map(|i| at.remove(i).1);
                let r = t.set_attribute(k, v);
                check(r.as_deref() == old, "setting an attribute returns the wrong former value");
                at.push((k, v));
            }
        }
    }
    let mut t = t.borrow_mut();
    check(t.get_flags() == f, "the flags are wrong");
    let q = byte();
    check(t.flags_enabled(q) == (f & q != 0), "asking for flags is wrong");
    check(t.get_attributes().len() == at.len(), "the number of attributes is wrong");
    for k in ["j", "k", "l"] {
        let w = at.iter().find(|e| e.0 == k).map(|e| e.1);
        check(t.has_attribute(k) == w.is_some(), "has_attribute is wrong");
        check(t.get_attribute(k).map(|s| s.as_str()) == w, "get_attribute is wrong");
        for v in ["1", "", "2"] {
            check(t.attribute_equals(k, v) == (w == Some(v)), "attribute_equals is wrong");
        }
    }
} }
harness! { fn c19_find() {
    let mut names = vec![];
    let t = shape(2, 3 + tier() as u8, &mut names);
    if names.len() > 5 { prune() }
    let t = t.borrow();
    let kids: Vec<TokenRef> = t.get_children().clone();
    for n in ["A", "C", "D", ""] {
        let w = kids.iter().position(|k| k.borrow().get_name() == n);
        check(t.has_child(n) == w.is_some(), "has_child is wrong");
        match (t.find_child(n), w) {
            (None, None) => {}
            (Some(a), Some(i)) => check(Rc::ptr_eq(&a, &kids[i]), "find_child finds another child than the first of that name"),
            _ => fail("find_child is wrong"),
        }
    }
    let x = regex::Regex::new("B|C").unwrap();
    let w = kids.iter().position(|k| k.borrow().get_name() == "B" || k.borrow().get_name() == "C");
    match (t.find_child_fuzzy(&x), w) {
        (None, None) => {}
        (Some(a), Some(i)) => check(Rc::ptr_eq(&a, &kids[i]), "find_child_fuzzy finds another child than the first"),
        _ => fail("find_child_fuzzy is wrong"),
    }
} }
harness! { fn c19_equal() {
    let p = Parser::new("xyz");
    let mk = || {
        let n = ["A", "B"][choose(2) as usize];
        let r = |k: u8| [(0, 1), (0, 2), (1, 2)][k as usize];
        let c = r(choose(3));
        let m = r(choose(3));
        ((n, c, m), StandardToken::new_with_matched_range(&p, n.to_string(), SourceRange::new(c.0, c.1), SourceRange::new(m.0, m.1)))
    };
    let a = mk();
    let b = mk();
    b.1.borrow_mut().set_attribute("k", "v");
    let x = a.1.borrow();
    let y = b.1.borrow();
    check((**x == **y) == (a.0 == b.0), "two tokens compare wrongly");
} }
harness! { fn c19_tree() {
    // children: set, added, exchanged; parents follow what they are told
    let kids: Vec<TokenRef> = ["A", "B", "C"].iter().map(|n| plain(n, vec![])).collect();
    let t = if flag() { plain("R", vec![]) } else {
        let p = Parser::new("x");
        adextopa_core::matchers::pin::PinToken::new(&p, "R".to_string(), SourceRange::new(0, 1))
    };
    let mut want: Vec<usize> = vec![];
    for _ in 0..3 + tier() {
        let i = choose(3) as usize;
        match choose(4) {
            0 => { t.borrow_mut().add_child(kids[i].clone()); want.push(i) }
            1 => { t.borrow_mut().set_children(vec![kids[i].clone(), kids[2 - i].clone()]); want = vec![i, 2 - i] }
            2 => { t.borrow_mut().get_children_mut().retain(|k| !Rc::ptr_eq(k, &kids[i])); want.retain(|k| *k != i) }
            _ => {
                let p = if flag() { Some(kids[i].clone()) } else { None };
                t.borrow_mut().set_parent(p.clone());
                check(match (t.borrow().get_parent(), p) { (None, None) => true, (Some(a), Some(b)) => Rc::ptr_eq(&a, &b), _ => false }, "the parent is wrong");
            }
        }
    }
    let x = t.borrow();
    let k = x.get_children();
    check(k.len() == want.len() && k.iter().zip(want.iter()).all(|(a, b)| Rc::ptr_eq(a, &kids[*b])), "the children are wrong");
    for (i, n) in ["A", "B", "C"].iter().enumerate() {
        check(x.has_child(n) == want.contains(&i), "has_child is wrong");
        check(x.find_child(n).map(|c| Rc::ptr_eq(&c, &kids[i])).unwrap_or(false) == want.contains(&i), "find_child is wrong");
    }
    let re = regex::Regex::new("^(B|C)$").unwrap();
    let w = want.iter().find(|i| **i > 0);
    check(match (x.find_child_fuzzy(&re), w) { (None, None) => true, (Some(a), Some(i)) => Rc::ptr_eq(&a, &kids[*i]), _ => false }, "find_child_fuzzy is wrong");
} }
harness! { fn c19_pin() {
    // the position token of an empty pin is a token like any other
    let s = utf8(3, 2);
    let p = Parser::new(&s);
    let (a, b) = any_window(&s);
    let t = adextopa_core::matchers::pin::PinToken::new(&p, "P".to_string(), SourceRange::new(a, b));
    let mut t = t.borrow_mut();
    check(t.get_captured_value() == &s[a..b] && t.get_matched_value() == &s[a..b] && t.get_value() == &s[a..b], "the value is not the text of the range");
    check(t.get_matched_range().start == a && t.get_captured_range().end == b, "the range is wrong");
    check(t.should_discard(), "an empty pin leaves a token");
    let f = byte();
    t.set_flags(f);
    let q = byte();
    check(t.flags_enabled(q) == (f & q != 0), "asking for flags is wrong");
    t.enable_flags(q);
    check(t.get_flags() == f | q, "the flags are wrong");
    t.disable_flags(f);
    check(t.get_flags() == (f | q) & !f, "the flags are wrong");
    t.set_value("v");
    check(t.get_value() == "v", "the value is wrong");
    t.set_value("");
    check(t.get_value() == &s[a..b], "the value is wrong");
    t.set_attribute("__value", "w");
    check(t.get_value() == "w" && t.has_attribute("__value") && t.attribute_equals("__value", "w") && !t.attribute_equals("k", "w"), "the attributes are wrong");
} }

// ------------------------------------------------------------------ C26 editing matchers
harness! { fn c26_child() {
    // replacing the inner matcher of a wrapper gives the wrapper around the new one
    let old = build(&leaf_n([0, 5, 9, 13][choose(4) as usize]));
    let new = wild();
    let m = build(&new);
    let (w, spec): (MatcherRef, Nd) = match choose(9) {
        0 => (Optional!(old), nd(M::Opt(new))),
        1 => (Not!(old), nd(M::Not(new))),
        2 => (Discard!(old), nd(M::Discard(new))),
        3 => (ProxyChildren!(old), nd(M::Proxy(new, ""))),
        4 => (ExpandRange!(old), nd(M::Expand(new))),
        5 => (SetScope!(old), nd(M::SetScope(new))),
        6 => (adextopa_core::matchers::debug::DebugPattern::new_with_debug_mode(Some(old), 0), nd(M::Debug(Some(new), 0))),
        7 => (build(&nd(M::Map(nd(M::Null), 1))), nd(M::Map(new, 1))),
        _ => (build(&nd(M::Catch(nd(M::Null), 2))), nd(M::Catch(new, 2))),
    };
    w.borrow_mut().set_child(0, m.clone());
    let k = w.borrow().get_children();
    check(match &k { Some(v) => v.len() == 1 && Rc::ptr_eq(&v[0], &m), None => false }, "the children are not the ones that were set");
    let s = ascii(3);
    against(&spec, w, &s, (0, s.len()));
} }
harness! { fn c26_blank() {
    // a matcher without an inner one gets one, and may get another
    use adextopa_core::matchers::debug::DebugPattern;
    let x = DebugPattern::new_with_debug_mode(None, choose(3) as usize);
    if flag() { x.borrow_mut().set_child(0, build(&simple())); }
    let new = leaf();
    x.borrow_mut().set_child(0, build(&new));
    let named = flag();
    if named { x.borrow_mut().set_name("N"); }
    let s = ascii(2);
    let spec = match (&*new, named) {
        (_, false) => new,
        (M::Lit(a, _), true) => nd(M::Lit(a.clone(), "N")),
        (M::Re(i, _), true) => nd(M::Re(*i, "N")),
        (M::Seq(a, b, c, _), true) => nd(M::Seq(a.clone(), b.clone(), c.clone(), "N")),
        (M::Prog(k, _), true) => nd(M::Prog(k.clone(), "N")),
        _ => prune(),
    };
    against(&prog(vec![nd(M::Debug(Some(spec), 0)), nd(M::Opt(lit("b")))]), Program!(x, Optional!(Equals!("b"))), &s, (0, s.len()));
} }
harness! { fn c26_many() {
    // several edits of the same program, switch or loop
    let kind = choose(3);
    let mk = |k: Vec<Nd>| match kind {
        0 => prog(k),
        1 => switch(k),
        _ => nd(M::Loop(k, 0, MAX, "")),
    };
    let mut k = vec![lit("a"), nd(M::Opt(lit("b"))), nd(M::Discard(lit("a")))];
    let x = build(&mk(k.clone()));
    for _ in 0..2 + tier() {
        let l = match choose(3) { 0 => lit("b"), 1 => nd(M::Opt(re(10))), _ => nd(M::Proxy(prog(vec![lit("a"), lit("b")]), "")) };
        let i = choose(4) as usize;
        if i == 3 {
            x.borrow_mut().add_pattern(build(&l));
            k.push(l);
        } else {
            x.borrow_mut().set_child(i, build(&l));
            k[i] = l;
        }
    }
    let c = x.borrow().get_children().unwrap();
    check(c.len() == k.len(), "the number of parts is wrong");
    let s = ascii(3);
    against(&mk(k), x, &s, (0, s.len()));
} }
harness! { fn c26_program() {
    // patterns can be added to and exchanged in a program, switch or loop at any time
    let kind = choose(3);
    let mk = |k: Vec<Nd>| match kind {
        0 => prog(k),
        1 => switch(k),
        _ => nd(M::Loop(k, 0, MAX, "")),
    };
    let w = match kind {
        0 => adextopa_core::matchers::program::ProgramPattern::new_blank_program(adextopa_core::matchers::program::MatchAction::Continue),
        1 => adextopa_core::matchers::program::ProgramPattern::new_blank_program(adextopa_core::matchers::program::MatchAction::Stop),
        _ => adextopa_core::matchers::program::ProgramPattern::new_blank_loop(0..),
    };
    let mut k: Vec<Nd> = vec![];
    let n = 1 + choose(2);
    for _ in 0..n {
        let l = leaf();
        w.borrow_mut().add_pattern(build(&l));
        k.push(l);
    }
    if flag() {
        let i = choose(n) as usize;
        let l = simple();
        w.borrow_mut().set_child(i, build(&l));
        k[i] = l;
    }
    check(w.borrow().get_children().map(|c| c.len()) == Some(k.len()), "the number of parts is wrong");
    let s = ascii(3);
    against(&mk(k), w, &s, (0, s.len()));
} }
harness! { fn c26_name() {
    // a name given later is the name of the token, also through wrappers
    let (m, n): (Nd, Nd) = match choose(11) {
        6 => (nd(M::Pin(Some(re(10)), t("1"), "")), nd(M::Pin(Some(re(10)), t("1"), "N"))),
        7 => (nd(M::Proxy(prog(vec![lit("a"), lit("b")]), "")), nd(M::Proxy(prog(vec![lit("a"), lit("b")]), "N"))),
        8 => (nd(M::Ref(t("L"), "")), nd(M::Ref(t("L"), "N"))),
        9 => (nd(M::StoreM("M", lit("a"))), nd(M::StoreM("N", lit("a")))),
        10 => (nd(M::Pin(None, t("0..1"), "")), nd(M::Pin(None, t("0..1"), "N"))),
        0 => (lit("a"), nd(M::Lit(t("a"), "N"))),
        1 => (re(2), nd(M::Re(2, "N"))),
        2 => (seq(), nd(M::Seq(t("<"), t(">"), t("\\"), "N"))),
        3 => (prog(vec![lit("a"), lit("b")]), nd(M::Prog(vec![lit("a"), lit("b")], "N"))),
        4 => (switch(vec![lit("a"), lit("b")]), nd(M::Switch(vec![lit("a"), lit("b")], "N"))),
        _ => (nd(M::Loop(vec![lit("a")], 0, MAX, "")), nd(M::Loop(vec![lit("a")], 0, MAX, "N"))),
    };
    let wrap = choose(9);
    let w = |m: Nd| match wrap {
        0 => m,
        8 => nd(M::Debug(Some(m), 0)),
        1 => nd(M::Opt(m)),
        2 => nd(M::Not(m)),
        3 => nd(M::Discard(m)),
        4 => nd(M::Expand(m)),
        5 => nd(M::SetScope(m)),
        6 => nd(M::Map(m, 1)),
        _ => nd(M::Catch(m, 1)),
    };
    let x = build(&w(m));
    x.borrow_mut().set_name(if flag() { "N" } else { "M" });
    x.borrow_mut().set_name("N");
    let l = nd(M::Register(vec![nd(M::Lit(t("a"), "L"))]));
    let spec = prog(vec![l.clone(), w(n), nd(M::Opt(lit("b"))), nd(M::Opt(nd(M::Catch(nd(M::Ref(t("N"), "")), 0))))]);
    let real = Program!(build(&l), x, Optional!(Equals!("b")), Optional!(build(&nd(M::Catch(nd(M::Ref(t("N"), "")), 0)))));
    let s = ascii(3);
    against(&spec, real, &s, (0, s.len()));
} }
