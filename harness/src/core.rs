//! Harnesses for the matchers.
use crate::gen::*;
use crate::spec::*;
use crate::sx::*;

// ------------------------------------------------------------------ C02 literals
harness! { fn c02_plain() {
    // a symbolic pattern of up to 2 characters against a symbolic text and window
    let n = choose(3) as usize;
    let p = utf8(n, 3);
    let s = utf8(choose(3 + tier() as u8) as usize, 3);
    let m = nd(M::Lit(t(&p), ""));
    let w = any_window(&s);
    against_spec_in(&m, &s, w);
} }
harness! { fn c02_ctx() {
    let p = ascii_upto(2);
    let l = nd(M::Lit(t(&p), if flag() { "" } else { "Word" }));
    let m = match choose(5) {
        0 => prog(vec![l, lit("b")]),
        1 => prog(vec![lit("b"), l, re(10)]),
        2 => switch(vec![l, lit("b")]),
        3 => nd(M::Loop(vec![l], 0, MAX, "")),
        _ => prog(vec![l.clone(), l]),
    };
    against_spec(&m, &ascii(3 + tier()));
} }
harness! { fn c02_var() {
    // the text is the value of a variable, or a part of an earlier token
    let l = nd(M::Lit(L::V(["x.captured_value", "x.matched_value", "y", "x.start", "x.range"][choose(5) as usize]), "Same"));
    let m = prog(vec![
        nd(M::StoreS("y", "ab")),
        nd(M::StoreM("x", if flag() { seq() } else { re(10) })),
        l,
    ]);
    against_spec(&m, &ascii(5 + tier()));
} }

// ------------------------------------------------------------------ C03 regular expressions
harness! { fn c03_plain() {
    let i = choose(RES.len() as u8) as usize;
    let s = ascii(choose(4 + tier() as u8) as usize);
    let m = nd(M::Re(i, if flag() { "" } else { "Rx" }));
    against_spec(&m, &s);
} }
harness! { fn c03_window() {
    // what lies outside the window never matters, whatever the pattern looks at
    let i = choose(RES.len() as u8) as usize;
    // (a Unicode word boundary is costly to decide: shorter texts)
    let s = if i == 8 { utf8(2, 1 + tier() as u8) } else { utf8(3 + tier(), 2) };
    let w = any_window(&s);
    against_spec_in(&re(i), &s, w);
} }
harness! { fn c03_ctx() {
    let i = choose(RES.len() as u8) as usize;
    let m = re(i);
    let m = match choose(4) {
        0 => prog(vec![lit("b"), m]),
        1 => prog(vec![m, lit("b")]),
        2 => nd(M::Loop(vec![m], 0, MAX, "")),
        _ => switch(vec![m, lit("b")]),
    };
    against_spec(&m, &ascii(3 + tier()));
} }
/// A window of the text, on character boundaries.
pub fn any_window(s: &str) -> (usize, usize) {
    let a = choose(s.len() as u8 + 1) as usize;
    let b = choose(s.len() as u8 + 1) as usize;
    if a > b || !is_boundary(s, a) || !is_boundary(s, b) {
        prune()
    }
    (a, b)
}

// ------------------------------------------------------------------ C04 delimited sequences
harness! { fn c04_plain() {
    // fixed delimiters of one and two characters, symbolic text
    let (a, b, e) = [("<", ">", "\\"), ("\"", "\"", "\\"), ("(*", "*)", "\\"), ("<", ">", ""), ("'", "'", "''"), ("<", ">", "%%"), ("\u{ab}", "\u{bb}", "\u{a7}")][choose(7) as usize];
    let m = nd(M::Seq(t(a), t(b), t(e), if flag() { "" } else { "Str" }));
    let s = utf8(5 + tier(), 2);
    if s.len() > 7 + tier() { prune() }
    against_spec(&m, &s);
} }
harness! { fn c04_sym() {
    // symbolic delimiters
    let a = ascii(1);
    let b = ascii(1 + choose(2) as usize);
    let e = ascii_upto(1 + tier());
    let m = nd(M::Seq(t(&a), t(&b), t(&e), ""));
    against_spec(&m, &ascii(4 + tier()));
} }
harness! { fn c04_ctx() {
    let q = nd(M::Seq(t("<"), t(">"), t("\\"), ""));
    let m = match choose(5) {
        0 => prog(vec![q, lit("b")]),
        1 => prog(vec![lit("b"), q]),
        2 => nd(M::Loop(vec![q], 0, MAX, "")),
        3 => prog(vec![nd(M::Expand(q)), lit("b")]),
        _ => prog(vec![nd(M::Discard(q)), lit("b")]),
    };
    let s = utf8(4 + tier(), 2);
    let w = any_window(&s);
    if w.0 > 1 || w.1 + 1 < s.len() { prune() }
    against_spec_in(&m, &s, w);
} }
harness! { fn c04_var() {
    let m = prog(vec![
        nd(M::StoreM("q", re(10))),
        nd(M::StoreS("e", "\\")),
        nd(M::Seq(L::V("q.captured_value"), L::V("q.captured_value"), L::V("e"), "")),
    ]);
    against_spec(&m, &ascii(5 + tier()));
} }

// ------------------------------------------------------------------ C05 programs
harness! { fn c05_flat() {
    let n = 1 + choose(3);
    let k: Vec<Nd> = if n < 3 || tier() > 0 { (0..n).map(|_| leaf()).collect() } else { vec![simple(), leaf(), simple()] };
    against_spec(&prog(k), &ascii(4));
} }
harness! { fn c05_nested() {
    let m = match choose(3) {
        0 => prog(vec![prog(vec![simple(), simple()]), simple()]),
        1 => prog(vec![simple(), prog(vec![simple(), simple()])]),
        _ => nd(M::Prog(vec![nd(M::Prog(vec![simple()], "In")), simple(), leaf()], "Out")),
    };
    against_spec(&m, &ascii(4));
} }
harness! { fn c05_long() {
    let n = 4 + choose(2 + tier() as u8);
    let k: Vec<Nd> = (0..n).map(|_| simple_n(choose(3))).collect();
    against_spec(&prog(k), &ascii(5 + tier()));
} }

// ------------------------------------------------------------------ C06 switches
harness! { fn c06_flat() {
    let n = 1 + choose(3);
    let k: Vec<Nd> = if n < 3 || tier() > 0 { (0..n).map(|_| leaf()).collect() } else { vec![simple(), leaf(), simple()] };
    let m = if n < 3 || tier() > 0 { in_context(switch(k), 3) } else { prog(vec![switch(k), lit("b")]) };
    against_spec(&m, &ascii(4));
} }
harness! { fn c06_nested() {
    let m = match choose(2) {
        0 => switch(vec![prog(vec![simple(), simple()]), prog(vec![simple(), simple()])]),
        _ => nd(M::Switch(vec![switch(vec![simple(), simple()]), leaf()], "S")),
    };
    against_spec(&prog(vec![m, lit("b")]), &ascii(4));
} }
harness! { fn c06_wild() {
    let m = switch(vec![wild(), wild()]);
    against_spec(&in_context(m, 2), &ascii(3));
} }

// ------------------------------------------------------------------ C07 loops
fn range() -> (usize, usize) {
    match choose(9) {
        0 => (0, MAX),
        1 => (1, MAX),
        2 => (3, MAX),
        3 => (0, 0),
        4 => (0, 1),
        5 => (0, 2),
        6 => (1, 2),
        7 => (2, 2),
        _ => (2, 3),
    }
}
harness! { fn c07_one() {
    let (a, b) = range();
    let m = nd(M::Loop(vec![leaf()], a, b, ""));
    against_spec(&in_context(m, 3), &ascii(5));
} }
harness! { fn c07_two() {
    let (a, b) = range();
    let m = nd(M::Loop(vec![simple(), leaf()], a, b, if flag() { "" } else { "Rep" }));
    against_spec(&in_context(m, 2), &ascii(4 + tier()));
} }
harness! { fn c07_nested() {
    let (a, b) = range();
    let i = nd(M::Loop(vec![simple()], a, b, "In"));
    let (a, b) = range();
    let m = nd(M::Loop(vec![i, simple()], a, b, "Out"));
    against_spec(&m, &ascii(4 + tier()));
} }
harness! { fn c07_ends() {
    // whatever the body does, a loop ends
    let m = nd(M::Loop(vec![nd(M::Opt(wild())), nd(M::Opt(wild()))], 0, MAX, ""));
    against_spec(&m, &ascii(2 + tier()));
} }

// ------------------------------------------------------------------ C08 break and continue
fn control() -> Nd {
    let l = ["", "A", "B", "X"][choose(4) as usize];
    if flag() { nd(M::Break(l)) } else { nd(M::Continue(l)) }
}
fn through(m: Nd) -> Nd {
    match choose(9) {
        0 => m,
        1 => prog(vec![lit("b"), m]),
        2 => switch(vec![lit("b"), m]),
        3 => nd(M::Opt(m)),
        4 => nd(M::Discard(prog(vec![lit("b"), m]))),
        5 => nd(M::Proxy(prog(vec![lit("b"), m]), "")),
        6 => nd(M::Map(m, 0)),
        7 => nd(M::Catch(m, 1)),
        _ => nd(M::Not(m)),
    }
}
harness! { fn c08_one() {
    let c = through(control());
    let body = match choose(3) {
        0 => vec![lit("a"), c],
        1 => vec![switch(vec![lit("a"), c])],
        _ => vec![lit("a"), switch(vec![lit("a"), c]), lit("b")],
    };
    let m = nd(M::Loop(body, 0, MAX, "A"));
    against_spec(&in_context(m, 3), &ascii(4 + tier()));
} }
harness! { fn c08_nested() {
    let c = control();
    let i = nd(M::Loop(vec![switch(vec![lit("a"), prog(vec![lit("b"), c.clone()]), c])], choose(2) as usize, MAX, "B"));
    let i = match choose(4) {
        0 => i,
        1 => prog(vec![i, lit("a")]),
        2 => nd(M::Proxy(i, "")),
        _ => nd(M::Discard(i)),
    };
    let m = nd(M::Loop(vec![re(10), i, re(10)], 0, MAX, "A"));
    against_spec(&in_context(m, 3), &ascii(4 + tier()));
} }
harness! { fn c08_root() {
    // nobody stops the break: what had matched so far is the result
    let m = through(prog(vec![lit("a"), through(control()), lit("b")]));
    against_spec(&m, &ascii(3 + tier()));
} }
harness! { fn c08_count() {
    let (a, b) = range();
    let c = prog(vec![lit("b"), control()]);
    let m = nd(M::Loop(vec![switch(vec![lit("a"), c])], a, b, "A"));
    against_spec(&in_context(m, 3), &ascii(4 + tier()));
} }

// ------------------------------------------------------------------ C09 optional and negation
harness! { fn c09_one() {
    let m = wild();
    let m = match choose(5) {
        0 => nd(M::Opt(m)),
        1 => nd(M::Not(m)),
        2 => nd(M::Opt(nd(M::Not(m)))),
        3 => nd(M::Not(nd(M::Opt(m)))),
        _ => nd(M::Not(nd(M::Not(m)))),
    };
    against_spec(&in_context(m, 9), &ascii(3));
} }
harness! { fn c09_two() {
    let w = |m: Nd| if flag() { nd(M::Opt(m)) } else { nd(M::Not(m)) };
    let m = prog(vec![w(leaf()), w(simple()), re(10)]);
    against_spec(&m, &ascii(3 + tier()));
} }

// ------------------------------------------------------------------ C10 discarding
harness! { fn c10_one() {
    against_spec(&in_context(nd(M::Discard(wild())), 9), &ascii(3 + tier()));
} }
harness! { fn c10_two() {
    let m = match choose(4) {
        0 => prog(vec![nd(M::Discard(leaf())), leaf(), nd(M::Discard(simple()))]),
        1 => nd(M::Discard(prog(vec![leaf(), nd(M::Discard(leaf()))]))),
        2 => prog(vec![lit("a"), nd(M::Discard(prog(vec![leaf(), leaf()])))]),
        _ => nd(M::Loop(vec![nd(M::Discard(leaf())), leaf()], 0, MAX, "")),
    };
    against_spec(&m, &ascii(3 + tier()));
} }

// ------------------------------------------------------------------ C11 flattening
harness! { fn c11_one() {
    let m = wild();
    let m = match choose(4) {
        0 => nd(M::Proxy(m, "")),
        1 => nd(M::Expand(m)),
        2 => nd(M::Proxy(nd(M::Expand(m)), "")),
        _ => nd(M::Expand(nd(M::Proxy(m, "")))),
    };
    against_spec(&in_context(m, 9), &ascii(3 + tier()));
} }
harness! { fn c11_two() {
    let m = match choose(3) {
        0 => prog(vec![nd(M::Proxy(prog(vec![leaf(), simple()]), "")), leaf()]),
        1 => prog(vec![leaf(), nd(M::Expand(prog(vec![leaf(), simple()]))), lit("b")]),
        _ => nd(M::Proxy(prog(vec![leaf(), nd(M::Proxy(prog(vec![leaf(), simple()]), ""))]), "")),
    };
    against_spec(&m, &ascii(3 + tier()));
} }

// ------------------------------------------------------------------ C12 pinning
fn offset() -> String {
    let n = |v: &mut String| {
        let k = choose(3 + tier() as u8);
        v.push((b'0' + k) as char);
    };
    let one = |v: &mut String| match choose(4) {
        0 => {}
        1 => n(v),
        2 => {
            v.push('+');
            n(v)
        }
        _ => {
            v.push('-');
            n(v)
        }
    };
    let mut v = String::new();
    one(&mut v);
    if flag() {
        v.push_str("..");
        one(&mut v);
    }
    v
}
harness! { fn c12_offset() {
    let c = match choose(4) {
        0 => None,
        1 => Some(re(10)),
        2 => Some(nd(M::Loop(vec![re(10)], 0, MAX, ""))),
        _ => Some(lit("a")),
    };
    let named = if c.is_none() && flag() { "Here" } else { "" };
    let m = nd(M::Pin(c, t(&offset()), named));
    let m = match choose(3) {
        0 => m,
        1 => prog(vec![lit("a"), m, re(11)]),
        _ => prog(vec![re(11), re(10), m, re(10)]),
    };
    against_spec(&m, &ascii(3 + tier()));
} }
harness! { fn c12_wild() {
    let m = nd(M::Pin(Some(wild()), t(["", "+1", "1", "-1", "..-0", "0..2", "+0..+1"][choose(7) as usize]), ""));
    let m = match choose(3) {
        0 => m,
        1 => prog(vec![lit("a"), m, re(10)]),
        _ => nd(M::Loop(vec![lit("a"), m], 0, MAX, "")),
    };
    against_spec(&m, &ascii(3 + tier()));
} }
harness! { fn c12_var() {
    let m = prog(vec![
        nd(M::StoreM("x", prog(vec![re(10), seq()]))),
        nd(M::Pin(Some(nd(M::Loop(vec![re(10)], 1, MAX, ""))), L::V(["x.start", "x.end", "x.range", "x.captured_range", "x.captured_start", "x.captured_end"][choose(6) as usize]), "")),
    ]);
    against_spec(&m, &ascii(4 + tier()));
} }

// ------------------------------------------------------------------ C14 recoverable errors
fn erring() -> Nd {
    match choose(6) {
        0 => nd(M::Err("m1")),
        1 => nd(M::AssertIf(wild(), "m2")),
        2 => nd(M::AssertIfNot(wild(), "m3")),
        3 => nd(M::Discard(prog(vec![lit("a"), nd(M::Err("m4"))]))),
        4 => nd(M::Catch(lit("a"), 2)),
        _ => prog(vec![lit("a"), nd(M::Err("m5")), lit("b")]),
    }
}
harness! { fn c14_one() {
    against_spec(&in_context(erring(), 9), &ascii(3 + tier()));
} }
harness! { fn c14_deep() {
    // errors anywhere in the tree end up below the root, in order
    let e = |m: &'static str| if flag() { nd(M::Err(m)) } else { nd(M::AssertIf(lit("a"), m)) };
    let m = match choose(4) {
        0 => prog(vec![prog(vec![lit("a"), e("m1"), lit("b")]), e("m2"), prog(vec![re(10), e("m3")])]),
        1 => prog(vec![lit("a"), prog(vec![re(10), prog(vec![re(10), e("m1")]), e("m2")])]),
        2 => nd(M::Loop(vec![prog(vec![lit("a"), e("m1")]), prog(vec![lit("b"), e("m2")])], 0, MAX, "")),
        _ => prog(vec![nd(M::Discard(prog(vec![lit("a"), e("m1"), prog(vec![lit("b"), e("m2")])]))), re(10), e("m3")]),
    };
    against_spec(&m, &ascii(4 + tier()));
} }
harness! { fn c14_lines() {
    // the message names the line and column, whatever the text
    let m = prog(vec![re(11), nd(M::Err("m1"))]);
    let m = if flag() { m } else { nd(M::AssertIf(m, "m2")) };
    let m = if flag() { m } else { prog(vec![nd(M::Loop(vec![re(10)], 0, 3, "")), m]) };
    against_spec(&m, &ascii(5 + tier()));
} }

// ------------------------------------------------------------------ C15 fatal errors
fn fatal() -> Nd {
    match choose(3) {
        0 => nd(M::Panic("f1")),
        1 => nd(M::FatalIf(wild(), "f2")),
        _ => nd(M::FatalIfNot(wild(), "f3")),
    }
}
harness! { fn c15_one() {
    against_spec(&in_context(fatal(), 9), &ascii(3 + tier()));
} }
harness! { fn c15_through() {
    // nothing but a catch stops a fatal error
    let f = nd(if flag() { M::Panic("f1") } else { M::FatalIf(lit("b"), "f2") });
    let m = match choose(12) {
        0 => nd(M::Opt(f)),
        1 => nd(M::Not(f)),
        2 => switch(vec![f, lit("a")]),
        3 => nd(M::Loop(vec![f], 0, MAX, "")),
        4 => nd(M::Discard(f)),
        5 => nd(M::Proxy(f, "")),
        6 => nd(M::Expand(f)),
        7 => nd(M::AssertIf(f, "x")),
        8 => nd(M::AssertIfNot(f, "x")),
        9 => nd(M::Pin(Some(f), t(""), "")),
        10 => nd(M::StoreM("v", f)),
        _ => nd(M::Map(f, 0)),
    };
    against_spec(&in_context(m, 9), &ascii(3 + tier()));
} }
harness! { fn c15_lines() {
    let m = prog(vec![nd(M::Loop(vec![re(10)], 0, 3, "")), nd(M::FatalIf(re(11), "f1"))]);
    against_spec(&m, &ascii(5 + tier()));
} }

// ------------------------------------------------------------------ C16 mapping and catching
harness! { fn c16_map() {
    against_spec(&in_context(nd(M::Map(wild(), choose(7))), 9), &ascii(3));
} }
harness! { fn c16_catch() {
    against_spec(&in_context(nd(M::Catch(wild(), choose(5))), 9), &ascii(3));
} }
harness! { fn c16_both() {
    let m = nd(M::Catch(nd(M::Map(wild(), choose(7))), choose(5)));
    against_spec(&m, &ascii(2 + tier()));
} }

// ------------------------------------------------------------------ C25 debugging
harness! { fn c25_one() {
    let m = match choose(6) {
        0 => nd(M::Debug(Some(wild()), choose(5) as usize)),
        1 => prog(vec![re(10), nd(M::Debug(Some(wild()), 3))]),
        2 => nd(M::Debug(Some(nd(M::Loop(vec![wild()], 0, MAX, ""))), 3)),
        3 => prog(vec![re(10), nd(M::Debug(None, choose(5) as usize)), re(10)]),
        4 => nd(M::Debug(Some(prog(vec![leaf(), leaf()])), 4)),
        _ => nd(M::Debug(Some(switch(vec![leaf(), leaf()])), 4)),
    };
    against_spec(&m, &utf8(2 + tier(), 2));
} }

// ------------------------------------------------------------------ wrappers around wrappers
harness! { fn c09_deep() {
    let m = deep();
    let m = nd(if flag() { M::Opt(m) } else { M::Not(m) });
    against_spec(&in_few(m), &ascii(3));
} }
harness! { fn c10_errors() {
    // several errors in several parts of what is discarded
    let e = |n: &'static str| nd(M::Err(n));
    let one = |n: &'static str| match choose(5) {
        0 => prog(vec![re(10), e(n)]),
        1 => prog(vec![re(10), prog(vec![lit("a"), e(n)])]),
        2 => nd(M::Opt(prog(vec![lit("a"), e(n)]))),
        3 => nd(M::Proxy(prog(vec![re(10), e(n)]), "")),
        _ => e(n),
    };
    let m = prog(vec![one("e1"), one("e2"), one("e3"), nd(M::Opt(lit("b")))]);
    let m = match choose(4) {
        0 => m,
        1 => prog(vec![nd(M::Discard(m)), e("e4")]),
        2 => nd(M::Proxy(m, "")),
        _ => nd(M::Loop(vec![m], 0, 2, "")),
    };
    against_spec(&prog(vec![nd(M::Opt(lit("b"))), nd(M::Discard(m)), nd(M::Opt(re(11)))]), &one_off(["aaab", "baaaa", "aaaaab"][choose(2 + tier() as u8) as usize]));
} }
harness! { fn c10_deep() {
    against_spec(&in_few(nd(M::Discard(deep()))), &ascii(3));
} }
harness! { fn c11_deep() {
    let m = deep();
    let m = nd(if flag() { M::Proxy(m, "") } else { M::Expand(m) });
    against_spec(&in_few(m), &ascii(3));
} }
harness! { fn c12_deep() {
    let o = ["", "+1", "0..1"][choose(3) as usize];
    against_spec(&in_few(nd(M::Pin(Some(deep()), t(o), ""))), &ascii(3));
} }
harness! { fn c14_deep2() {
    let m = deep();
    let m = nd(if flag() { M::AssertIf(m, "m1") } else { M::AssertIfNot(m, "m2") });
    against_spec(&in_few(m), &ascii(3));
} }
harness! { fn c15_deep() {
    let m = deep();
    let m = nd(if flag() { M::FatalIf(m, "f1") } else { M::FatalIfNot(m, "f2") });
    against_spec(&in_few(m), &ascii(3));
} }
harness! { fn c16_deep() {
    let k = choose(12);
    let m = deep();
    let m = nd(if k < 7 { M::Map(m, k) } else { M::Catch(m, k - 7) });
    against_spec(&in_few(m), &ascii(2 + tier()));
} }
harness! { fn c08_deep() {
    // loop control through two wrappers
    let c = match choose(2 + tier() as u8) {
        0 => nd(M::Break("A")),
        1 => nd(M::Continue("")),
        _ => nd(M::Break("X")),
    };
    let c = if tier() > 0 && flag() { c } else { prog(vec![lit("b"), c]) };
    let m = wrap(wrap(c));
    let m = nd(M::Loop(vec![switch(vec![lit("a"), m])], 0, MAX, "A"));
    against_spec(&prog(vec![m, re(10)]), &ascii(3));
} }
harness! { fn c07_back() {
    // a part that moves the loop backwards ends it too
    let p = nd(M::Pin(Some(deep()), t(["0", "0..1", "1"][choose(3) as usize]), ""));
    let m = if flag() { switch(vec![lit("b"), p]) } else { nd(M::Opt(p)) };
    let m = if flag() { vec![m] } else { vec![m, lit("a")] };
    against_spec(&nd(M::Loop(m, choose(2) as usize, MAX, "")), &ascii(3));
} }

// ------------------------------------------------------------------ longer texts, larger numbers
/// A fixed text in which one character, anywhere, is replaced by any other.
pub fn one_off(base: &str) -> String {
    let i = choose(base.len() as u8) as usize;
    let b = byte();
    assume(b < 128);
    let mut v = base.as_bytes().to_vec();
    v[i] = b;
    unsafe { String::from_utf8_unchecked(v) }
}
harness! { fn c02_long() {
    let w = ["hello, world", "aaaaaaaaaaaa", "\u{e4}\u{20ac}\u{1f600}xy"][choose(3) as usize];
    let m = prog(vec![nd(M::Loop(vec![lit("-")], 0, MAX, "")), nd(M::Lit(t(w), "")), nd(M::Opt(lit("a")))]);
    let s = "-".to_string() + w + ["", "a"][choose(2) as usize];
    let s = if w.is_ascii() { one_off(&s) } else { s[..s.len() - choose(2) as usize].to_string() };
    against_spec(&m, &s);
} }
harness! { fn c03_long() {
    let m = match choose(4) {
        0 => prog(vec![re(0), lit("b"), re(0)]),
        1 => prog(vec![re(2), nd(M::Opt(re(0))), re(2)]),
        2 => nd(M::Loop(vec![switch(vec![re(0), re(2), re(4)])], 0, MAX, "")),
        _ => prog(vec![nd(M::Discard(re(0))), nd(M::Loop(vec![re(10)], 0, MAX, ""))]),
    };
    against_spec(&m, &one_off(["0123456789b0123", "  \t\n12  \r\n  ", "ab12 aba 34  ab"][choose(3) as usize]));
} }
harness! { fn c04_long() {
    let (a, b, e, s) = [
        ("\"", "\"", "\\", "\"one\\\"two\\\\three\"x\""),
        ("(*", "*)", "\\", "(*a*b(*c\\*)d\\e*)*)"),
        ("'", "'", "''", "'it''s '''"),
        ("<<", ">>>", "%%", "<<a>>b%%>>>c%%%%>>>>"),
    ][choose(4) as usize];
    let q = nd(M::Seq(t(a), t(b), t(e), ""));
    against_spec(&if flag() { q } else { prog(vec![q, nd(M::Loop(vec![re(11)], 0, MAX, ""))]) }, &one_off(s));
} }
/// Parts that leave no token, or one, over one or more characters.
fn part() -> Nd {
    match choose(6) {
        0 => nd(M::Discard(lit("ab"))),
        1 => nd(M::Discard(nd(M::Loop(vec![lit("a")], 1, MAX, "")))),
        2 => nd(M::Opt(nd(M::Discard(lit("ba"))))),
        3 => nd(M::Loop(vec![nd(M::Discard(lit("b")))], 0, MAX, "")),
        4 => nd(M::Map(lit("ab"), 3)),
        _ => lit("a"),
    }
}
harness! { fn c05_skip() {
    let k = match choose(3) {
        0 => vec![part(), part(), lit("a")],
        1 => vec![part(), prog(vec![part(), lit("a"), part()])],
        _ => vec![lit("b"), part(), part(), lit("a"), nd(M::Discard(lit("bb")))],
    };
    against_spec(&prog(k), &ascii(5 + tier()));
} }
harness! { fn c05_many() {
    let n = 6 + choose(3) as usize;
    let k: Vec<Nd> = (0..n).map(|i| match i % 4 { 0 => lit("a"), 1 => nd(M::Opt(lit("b"))), 2 => nd(M::Discard(lit("a"))), _ => re(10) }).collect();
    let m = if flag() { prog(k) } else { nd(M::Prog(vec![prog(k[..4].to_vec()), nd(M::Prog(k[4..].to_vec(), "In"))], "Out")) };
    against_spec(&m, &one_off(["abababab", "aaaaaaaa", "abacabacaba"][choose(3) as usize]));
} }
harness! { fn c06_many() {
    let mut k = vec![nd(M::Not(lit("a"))), lit("bb"), nd(M::Discard(lit("cc"))), prog(vec![lit("a"), lit("b")]), nd(M::Switch(vec![re(0), nd(M::Opt(lit("x"))), nd(M::AssertIf(lit("<"), "m"))], "In")), nd(M::Loop(vec![lit("a")], 2, 3, "")), re(2), seq()];
    let n = choose(8) as usize;
    k.rotate_left(n);
    let m = nd(M::Switch(k, ""));
    against_spec(&prog(vec![m.clone(), m, nd(M::Opt(re(11)))]), &ascii(3 + tier()));
} }
harness! { fn c07_many() {
    let (a, b) = [(0, 10), (4, 12), (10, MAX), (11, 11), (5, 6), (0, 4)][choose(6) as usize];
    let body = match choose(4) {
        0 => vec![lit("a")],
        1 => vec![nd(M::Discard(lit("a"))), nd(M::Opt(lit("b")))],
        2 => vec![switch(vec![lit("a"), nd(M::AssertIf(lit("b"), "m"))])],
        _ => vec![nd(M::Proxy(prog(vec![lit("a"), nd(M::Opt(lit("a")))]), ""))],
    };
    let m = nd(M::Loop(body, a, b, ""));
    let n = [4, 6, 10, 11, 12, 13][choose(6) as usize];
    against_spec(&prog(vec![nd(M::Opt(m)), nd(M::Loop(vec![re(10)], 0, MAX, "")), nd(M::Opt(lit("a")))]), &one_off(&"aaaaaaaaaaaaa"[..n]));
} }
harness! { fn c08_three() {
    // three loops, control for any of them from the innermost one
    let c = nd(if flag() { M::Break(["", "A", "B", "C"][choose(4) as usize]) } else { M::Continue(["", "A", "B", "C"][choose(4) as usize]) });
    let i = nd(M::Loop(vec![switch(vec![lit("c"), prog(vec![lit("x"), c])])], 0, MAX, "C"));
    let i = if flag() { i } else { prog(vec![nd(M::Opt(lit("d"))), nd(M::Proxy(i, ""))]) };
    let j = nd(M::Loop(vec![lit("b"), i, nd(M::Opt(lit("y")))], 0, MAX, "B"));
    let m = nd(M::Loop(vec![lit("a"), j, nd(M::Opt(lit("z")))], 0, MAX, "A"));
    against_spec(&prog(vec![m, nd(M::Loop(vec![re(10)], 0, MAX, ""))]), &one_off(["abccxczbcxz", "abcxyzabcz"][choose(2) as usize]));
} }
harness! { fn c10_long() {
    let e = |m: &'static str| nd(M::AssertIf(lit("x"), m));
    let m = match choose(4) {
        0 => prog(vec![nd(M::Discard(nd(M::Loop(vec![re(10), e("m1")], 0, 6, "")))), nd(M::Loop(vec![re(11)], 0, MAX, ""))]),
        1 => prog(vec![lit("a"), nd(M::Discard(prog(vec![nd(M::Discard(nd(M::Loop(vec![lit("a")], 1, MAX, "")))), lit("b"), lit("b")]))), nd(M::Loop(vec![re(11)], 0, MAX, ""))]),
        2 => nd(M::Loop(vec![nd(M::Discard(prog(vec![lit("a"), nd(M::Opt(lit("b")))]))), nd(M::Opt(lit("a")))], 0, MAX, "")),
        _ => prog(vec![nd(M::Discard(seq())), nd(M::Expand(prog(vec![nd(M::Discard(lit("a"))), re(10), nd(M::Discard(lit("b")))])))]),
    };
    against_spec(&m, &one_off(["aaaabbab", "xaxaxaxa", "<bb>a<b"][choose(3) as usize]));
} }
harness! { fn c11_long() {
    let p = |k: Vec<Nd>| nd(M::Proxy(prog(k), ""));
    let m = match choose(5) {
        0 => prog(vec![p(vec![lit("a"), p(vec![lit("b"), p(vec![lit("a"), lit("b")]), lit("a")]), nd(M::Opt(lit("b")))]), nd(M::Opt(lit("a")))]),
        1 => nd(M::Loop(vec![p(vec![lit("a"), nd(M::Discard(lit("b")))]), nd(M::Opt(p(vec![re(10), lit("b")])))], 0, MAX, "")),
        2 => prog(vec![nd(M::Expand(prog(vec![seq(), nd(M::Expand(seq()))]))), nd(M::Opt(lit("b")))]),
        3 => prog(vec![lit("a"), nd(M::Proxy(switch(vec![prog(vec![lit("b"), lit("b")]), prog(vec![lit("b"), lit("a"), lit("b")])]), "")), nd(M::Opt(lit("a")))]),
        _ => nd(M::Proxy(nd(M::Loop(vec![prog(vec![lit("a"), lit("b")])], 0, MAX, "")), "")),
    };
    against_spec(&if flag() { m } else { prog(vec![m, nd(M::Loop(vec![re(10)], 1, MAX, ""))]) }, &one_off(["abababab", "abbabbab", "<a><b>b"][choose(3) as usize]));
} }
harness! { fn c12_nested() {
    // a pin inside a pin: positions stay those of the whole text, bounds are its own
    let o = || ["", "+1", "1", "..3", "0..1", "+0..+1", "-1", "2..3"][choose(6 + 2 * tier() as u8) as usize];
    let i = nd(M::Pin(Some(if flag() { re(10) } else { nd(M::Loop(vec![re(10)], 0, MAX, "")) }), t(o()), ""));
    let b = match choose(3) {
        0 => prog(vec![i, nd(M::Opt(lit("a")))]),
        1 => prog(vec![re(10), i]),
        _ => i,
    };
    let m = nd(M::Pin(Some(b), t(o()), ""));
    against_spec(&prog(vec![lit("a"), m, re(11)]), &ascii(3 + tier()));
} }
harness! { fn c12_far() {
    let o = ["10", "+10", "9..11", "11..", "..12", "+2..+10", "-1..13", "010", "00..002", "+03"][choose(10) as usize];
    let at = nd(M::Loop(vec![re(10)], 1, if flag() { 2 } else { 3 }, ""));
    let m = prog(vec![at, nd(M::Pin(Some(nd(M::Loop(vec![re(10)], 0, MAX, ""))), t(o), "")), nd(M::Loop(vec![re(11)], 0, MAX, ""))]);
    against_spec(&m, &one_off("bcdefghijklmn"));
} }
harness! { fn c14_stop() {
    // whatever ends the parse, the errors recorded so far are reported at the root
    let e = |m: &'static str| if flag() { nd(M::Err(m)) } else { nd(M::AssertIfNot(lit("b"), m)) };
    let c = control();
    let m = match choose(6) {
        0 => prog(vec![prog(vec![lit("a"), e("m1")]), e("m2"), nd(M::Opt(lit("b"))), c]),
        1 => prog(vec![nd(M::Discard(prog(vec![lit("a"), e("m1")]))), prog(vec![lit("b"), e("m2"), c])]),
        2 => nd(M::Loop(vec![prog(vec![lit("a"), e("m1")]), nd(M::Opt(prog(vec![lit("b"), c])))], 0, MAX, "A")),
        3 => nd(M::Proxy(prog(vec![lit("a"), prog(vec![lit("a"), e("m1")]), e("m2")]), "")),
        4 => nd(M::Expand(prog(vec![prog(vec![lit("a"), e("m1")]), e("m2")]))),
        _ => switch(vec![prog(vec![lit("b"), prog(vec![lit("b"), e("m1")]), c]), prog(vec![lit("a"), e("m2")])]),
    };
    against_spec(&m, &ascii(3 + tier()));
} }
harness! { fn c14_many() {
    let e = |m: &'static str| nd(M::AssertIf(lit("x"), m));
    let deep = prog(vec![lit("a"), e("m1"), prog(vec![re(10), e("m2"), prog(vec![re(10), e("m3"), re(11)]), e("m4")]), e("m5")]);
    let m = prog(vec![nd(M::Loop(vec![lit("\n")], 0, MAX, "")), e("m0"), deep, nd(M::Discard(nd(M::Loop(vec![switch(vec![prog(vec![e("m6"), re(11)]), re(11)])], 0, MAX, "")))), e("m7")]);
    against_spec(&m, &one_off(["\n\n\n\n\n\n\n\n\naxxx", "axxxxxxxxxxx", "axxx\nx\r\nx"][choose(3) as usize]));
} }
harness! { fn c15_far() {
    let f = nd([M::Panic("f1"), M::FatalIf(lit("x"), "f2"), M::FatalIfNot(lit("y"), "f3")].into_iter().nth(choose(3) as usize).unwrap());
    let f = match choose(4) {
        0 => f,
        1 => nd(M::Opt(nd(M::Not(nd(M::Discard(nd(M::Proxy(f, "")))))))),
        2 => nd(M::Loop(vec![switch(vec![prog(vec![re(0), f]), re(11)])], 0, MAX, "")),
        _ => prog(vec![nd(M::Opt(prog(vec![re(11), nd(M::StoreM("v", nd(M::Expand(f))))]))), re(11)]),
    };
    let m = prog(vec![nd(M::Loop(vec![re(11)], 0, 11, "")), f, nd(M::Opt(lit("x")))]);
    against_spec(&m, &one_off(["\n\n\n\n\n\n\n\n\n\naxx", "aaaaaaaaaaaxx", "a\n\r\n\raaaaax1xx"][choose(3) as usize]));
} }
harness! { fn c16_long() {
    let m = match choose(5) {
        0 => nd(M::Map(nd(M::Map(wild(), choose(7))), 0)),
        1 => nd(M::Catch(nd(M::Catch(wild(), choose(5))), 2)),
        2 => nd(M::Loop(vec![nd(M::Map(switch(vec![lit("a"), lit("b")]), choose(4)))], 0, MAX, "")),
        3 => prog(vec![nd(M::Map(re(10), 1)), nd(M::Map(nd(M::Proxy(prog(vec![re(10), re(10)]), "")), 0)), nd(M::Opt(re(10)))]),
        _ => nd(M::Catch(prog(vec![lit("a"), nd(M::Catch(nd(M::FatalIf(lit("b"), "f")), choose(5))), re(10)]), choose(5))),
    };
    against_spec(&m, &ascii(3 + tier()));
} }
harness! { fn c25_long() {
    // longer than what is printed, with wide characters anywhere near its end
    let k = if tier() > 0 { 7 + choose(3) } else { [7, 9][choose(2) as usize] } as usize;
    let s = "aaaaaaaaaa"[..k].to_string() + &utf8(1, 3 + tier() as u8) + &utf8(1, 2);
    let m = match choose(7) {
        0 => re(0),
        1 => lit("ab"),
        2 => seq(),
        3 => nd(M::Loop(vec![re(11)], 0, MAX, "")),
        4 => nd(M::Pin(Some(re(0)), t("1"), "")),
        5 => prog(vec![re(1), nd(M::Opt(re(10)))]),
        _ => switch(vec![re(0), nd(M::Not(re(5)))]),
    };
    let l = if tier() > 0 { choose(5) } else { [0, 4][choose(2) as usize] } as usize;
    let m = match choose(4) {
        0 => nd(M::Debug(Some(m), l)),
        1 => prog(vec![lit("a"), nd(M::Debug(Some(m), l)), nd(M::Opt(re(11)))]),
        2 => prog(vec![nd(M::Loop(vec![lit("a")], 0, MAX, "")), nd(M::Debug(None, l)), nd(M::Opt(m))]),
        _ => nd(M::Debug(Some(nd(M::Loop(vec![switch(vec![nd(M::Debug(Some(m), l)), re(11)])], 0, MAX, ""))), l)),
    };
    against_spec(&m, &s);
} }
harness! { fn c09_long() {
    let w = |m: Nd| if flag() { nd(M::Opt(m)) } else { nd(M::Not(m)) };
    let m = match choose(4) {
        0 => nd(M::Loop(vec![w(prog(vec![lit("a"), lit("b")])), re(10), w(lit("c"))], 0, MAX, "")),
        1 => prog(vec![lit("a"), w(w(w(prog(vec![re(10), nd(M::Discard(re(10))), lit("a")])))), nd(M::Loop(vec![re(10)], 0, MAX, ""))]),
        2 => nd(M::Loop(vec![nd(M::Not(prog(vec![lit("a"), nd(M::Not(lit("b")))]))), w(nd(M::Loop(vec![lit("a")], 3, MAX, ""))), re(11)], 0, MAX, "")),
        _ => prog(vec![w(nd(M::Loop(vec![switch(vec![lit("a"), prog(vec![lit("b"), nd(M::Break(""))])])], 0, MAX, ""))), nd(M::Loop(vec![re(11)], 0, MAX, ""))]),
    };
    against_spec(&m, &one_off(["abcbabac", "aaabaaab", "bababcab"][choose(3) as usize]));
} }
