//! C33: a matcher is the same matcher whichever way it is written.
use crate::gen::*;
use crate::spec::*;
use crate::sx::*;
use adextopa_core::matcher::MatcherRef;
use adextopa_core::matchers::debug::DebugPattern;
use adextopa_core::matchers::equals::EqualsPattern;
use adextopa_core::matchers::matches::MatchesPattern;
use adextopa_core::matchers::pin::PinPattern;
use adextopa_core::matchers::program::{MatchAction, ProgramPattern};
use adextopa_core::matchers::proxy_children::ProxyChildrenPattern;
use adextopa_core::matchers::r#break::BreakPattern;
use adextopa_core::matchers::r#ref::RefPattern;
use adextopa_core::matchers::sequence::SequencePattern;
use adextopa_core::matchers::store::StorePattern;
use adextopa_core::source_range::SourceRange;
use adextopa_core::*;
use std::rc::Rc;

/// m, then whatever can be referred to as "N" or by the matcher's usual name, then anything.
fn held(real: MatcherRef, spec: Nd, d: &'static str, s: &str) {
    let n = m_name(&spec);
    check(real.borrow().get_name() == if n == "" { d } else { n }, "a matcher has another name than it was given");
    let r = |n: &'static str| nd(M::Opt(nd(M::Catch(nd(M::Ref(t(n), "")), 0))));
    let tail = vec![r("N"), r(d), nd(M::Opt(re(10)))];
    let whole = {
        let mut k = vec![spec];
        k.extend(tail.iter().cloned());
        prog(k)
    };
    let p = ProgramPattern::new_blank_program(MatchAction::Continue);
    p.borrow_mut().add_pattern(real);
    for x in tail.iter() {
        p.borrow_mut().add_pattern(build(x));
    }
    against(&whole, p, s, (0, s.len()));
}
fn named(m: MatcherRef, n: &str) -> MatcherRef {
    m.borrow_mut().set_name(n);
    m
}
fn a() -> MatcherRef {
    Equals!("a")
}
fn b() -> MatcherRef {
    Optional!(Equals!("b"))
}
fn parts() -> Vec<Nd> {
    vec![lit("a"), nd(M::Opt(lit("b")))]
}
/// The parts of a matcher are the ones it was made of, in order.
fn made_of(m: &MatcherRef, k: &[MatcherRef]) {
    match m.borrow().get_children() {
        Some(c) => {
            check(c.len() == k.len(), "a matcher has another number of parts than it was made of");
            for (x, y) in c.iter().zip(k.iter()) {
                check(Rc::ptr_eq(x, y), "a matcher's parts are not those it was made of");
            }
        }
        None => check(k.len() == 0, "a matcher has lost its parts"),
    }
}
harness! { fn c33_program() {
    let n = flag();
    let real = match (choose(4), n) {
        (0, false) => Program!(a(), b()),
        (1, false) => Program!(a(), b(),),
        (2, false) => ProgramPattern::new_program(vec![a(), b()], MatchAction::Continue),
        (_, false) => {
            let p = Program!();
            p.borrow_mut().add_pattern(a());
            p.borrow_mut().add_pattern(b());
            p
        }
        (0, true) => Program!("N"; a(), b()),
        (1, true) => ProgramPattern::new_program_with_name(vec![a(), b()], "N".to_string(), MatchAction::Continue),
        (2, true) => named(Program!(a(), b()), "N"),
        (_, true) => named(Program!("M"; a(), b()), "N"),
    };
    held(real, nd(M::Prog(parts(), if n { "N" } else { "" })), "Program", &ascii(3));
} }
harness! { fn c33_switch() {
    let n = flag();
    let c = || Program!(Equals!("b"), Equals!("a"));
    let real = match (choose(4), n) {
        (0, false) => Switch!(a(), c()),
        (1, false) => Switch!(a(), c(),),
        (2, false) => ProgramPattern::new_program(vec![a(), c()], MatchAction::Stop),
        (_, false) => {
            let p = Switch!();
            p.borrow_mut().add_pattern(a());
            p.borrow_mut().add_pattern(c());
            p
        }
        (0, true) => Switch!("N"; a(), c()),
        (1, true) => ProgramPattern::new_program_with_name(vec![a(), c()], "N".to_string(), MatchAction::Stop),
        (2, true) => named(Switch!(a(), c()), "N"),
        (_, true) => named(Switch!("M"; a(), c()), "N"),
    };
    held(real, nd(M::Switch(vec![lit("a"), prog(vec![lit("b"), lit("a")])], if n { "N" } else { "" })), "Switch", &ascii(3));
} }
harness! { fn c33_loop() {
    // every form of a range: the end, however it is written, is the largest number of repetitions
    let n = flag();
    let (real, x, y) = match (choose(18), n) {
        (0, false) => (Loop!(a(), b()), 0, MAX),
        (1, false) => (Loop!(1..2; a(), b()), 1, 2),
        (2, false) => (Loop!(1..; a(), b()), 1, MAX),
        (3, false) => (Loop!(..2; a(), b()), 0, 2),
        (4, false) => (Loop!(1..=2; a(), b(),), 1, 2),
        (5, false) => (Loop!(..=1; a(), b()), 0, 1),
        (6, false) => (Loop!(..; a(), b()), 0, MAX),
        (7, false) => (ProgramPattern::new_loop(vec![a(), b()], 2..3), 2, 3),
        (8, false) => (ProgramPattern::new_loop(vec![a(), b()], 2..=2), 2, 2),
        (9, false) => (ProgramPattern::new_loop(vec![a(), b()], ..2), 0, 2),
        (10, false) => {
            let p = Loop!();
            p.borrow_mut().add_pattern(a());
            p.borrow_mut().add_pattern(b());
            (p, 0, MAX)
        }
        (11, false) => {
            let p = ProgramPattern::new_blank_loop(2..=3);
            p.borrow_mut().add_pattern(a());
            p.borrow_mut().add_pattern(b());
            (p, 2, 3)
        }
        (12, false) => (ProgramPattern::new_loop(vec![a(), b()], 3..), 3, MAX),
        (13, false) => (ProgramPattern::new_loop(vec![a(), b()], ..), 0, MAX),
        (k, false) => {
            let (x, y) = (choose(4) as usize, choose(4) as usize);
            let p = vec![a(), b()];
            match k {
                14 => (ProgramPattern::new_loop(p, x..y), x, y),
                15 => (ProgramPattern::new_loop(p, x..=y), x, y),
                16 => (Loop!(x..y; a(), b()), x, y),
                _ => {
                    let l = ProgramPattern::new_blank_loop(x..y);
                    l.borrow_mut().add_pattern(a());
                    l.borrow_mut().add_pattern(b());
                    (l, x, y)
                }
            }
        }
        (0, true) => (Loop!("N"; a(), b()), 0, MAX),
        (1, true) => (Loop!(1..2; "N"; a(), b()), 1, 2),
        (2, true) => (Loop!(1..; "N"; a(), b()), 1, MAX),
        (3, true) => (Loop!(..2; "N"; a(), b()), 0, 2),
        (4, true) => (Loop!(1..=2; "N"; a(), b(),), 1, 2),
        (5, true) => (ProgramPattern::new_loop_with_name_and_range(vec![a(), b()], "N".to_string(), 2..3), 2, 3),
        (6, true) => (ProgramPattern::new_loop_with_name_and_range(vec![a(), b()], "N".to_string(), ..=2), 0, 2),
        (7, true) => (ProgramPattern::new_loop_with_name_and_range(vec![a(), b()], "N".to_string(), 2..), 2, MAX),
        (8, true) => (named(Loop!(a(), b()), "N"), 0, MAX),
        (9, true) => (named(ProgramPattern::new_loop(vec![a(), b()], 1..=1), "N"), 1, 1),
        (10, true) => (named(Loop!(..=2; "M"; a(), b()), "N"), 0, 2),
        (k, true) => {
            // any small numbers
            let (x, y) = (choose(4) as usize, choose(4) as usize);
            let (p, m) = (vec![a(), b()], "N".to_string());
            match k {
                11 => (ProgramPattern::new_loop_with_name_and_range(p, m, x..y), x, y),
                12 => (ProgramPattern::new_loop_with_name_and_range(p, m, x..=y), x, y),
                13 => (ProgramPattern::new_loop_with_name_and_range(p, m, ..y), 0, y),
                14 => (ProgramPattern::new_loop_with_name_and_range(p, m, x..), x, MAX),
                15 => (Loop!(x..y; "N"; a(), b()), x, y),
                16 => (Loop!(x..=y; "N"; a(), b()), x, y),
                _ => (named(Loop!(x..y; a(), b()), "N"), x, y),
            }
        }
    };
    held(real, nd(M::Loop(parts(), x, y, if n { "N" } else { "" })), "Loop", &ascii(4));
} }
harness! { fn c33_text() {
    let n = flag();
    let nm = if n { "N" } else { "" };
    let fx = adextopa_core::matchers::fetch::FetchPattern::new("v");
    let (real, spec, d) = match (choose(8), n) {
        (0, false) => (Equals!("ab"), nd(M::Lit(t("ab"), nm)), "Equals"),
        (0, true) => (Equals!("N"; "ab"), nd(M::Lit(t("ab"), nm)), "Equals"),
        (1, false) => (EqualsPattern::new("ab".to_string()), nd(M::Lit(t("ab"), nm)), "Equals"),
        (1, true) => (EqualsPattern::new_with_name("N", "ab".to_string()), nd(M::Lit(t("ab"), nm)), "Equals"),
        (2, false) => (Matches!("[0-9]+"), nd(M::Re(0, nm)), "Matches"),
        (2, true) => (Matches!("N"; "[0-9]+"), nd(M::Re(0, nm)), "Matches"),
        (3, false) => (MatchesPattern::new(regex::Regex::new("ab|a").unwrap()), nd(M::Re(4, nm)), "Matches"),
        (3, true) => (MatchesPattern::new_with_name("N", regex::Regex::new("ab|a").unwrap()), nd(M::Re(4, nm)), "Matches"),
        (4, false) => (Sequence!("<", ">", "\\"), nd(M::Seq(t("<"), t(">"), t("\\"), nm)), "Sequence"),
        (4, true) => (Sequence!("N"; "<", ">", "\\"), nd(M::Seq(t("<"), t(">"), t("\\"), nm)), "Sequence"),
        (5, false) => (SequencePattern::new("<".to_string(), ">".to_string(), String::new()), nd(M::Seq(t("<"), t(">"), t(""), nm)), "Sequence"),
        (5, true) => (SequencePattern::new_with_name("N", "<".to_string(), ">".to_string(), String::new()), nd(M::Seq(t("<"), t(">"), t(""), nm)), "Sequence"),
        (6, false) => (Program!(Store!("v"; "ab"), Equals!(Fetch!("v"))), prog(vec![nd(M::StoreS("v", "ab")), nd(M::Lit(L::V("v"), ""))]), "Program"),
        (6, true) => (Program!("N"; StorePattern::new_as_string_type("v", "ab"), EqualsPattern::new(fx)), nd(M::Prog(vec![nd(M::StoreS("v", "ab")), nd(M::Lit(L::V("v"), ""))], nm)), "Program"),
        (_, false) => (named(Matches!("N"; "[0-9]+"), "Matches"), nd(M::Re(0, nm)), "Matches"),
        (_, true) => (named(Equals!("M"; "ab"), "N"), nd(M::Lit(t("ab"), nm)), "Equals"),
    };
    if !n {
        made_of(&named(Equals!("x"), "N"), &[]);
    }
    held(real, spec, d, &ascii(4));
} }
harness! { fn c33_pin() {
    let o = ["", "1", "+0", "..2", "0..1", "+1..+1"][choose(6) as usize];
    let n = flag();
    let nm = if n { "N" } else { "" };
    let (real, o, c) = match (choose(5), n) {
        (0, false) => (Pin!(a()), "", true),
        (1, false) => (PinPattern::new(Some(a()), o), o, true),
        (2, false) => (Pin!(), "", false),
        (3, false) => (PinPattern::new(None, o), o, false),
        (_, false) => (named(Pin!("M", o; a()), "Pin"), o, true),
        (0, true) => (Pin!("N", o; a()), o, true),
        (1, true) => (Pin!("N"; a()), "", true),
        (2, true) => (Pin!("N", o;), o, false),
        (3, true) => (Pin!("N";), "", false),
        _ => (named(PinPattern::new(Some(a()), o), "N"), o, true),
    };
    let spec = nd(M::Pin(if c { Some(lit("a")) } else { None }, t(o), nm));
    // its token is stored, and where it was is gone to
    let k = flag();
    let at = || adextopa_core::matchers::fetch::FetchPattern::new("v.range");
    let (real, spec) = if k {
        (Program!(Store!("v"; real), Optional!(Pin!("G", at(); Matches!(r"[\s\S]")))), prog(vec![nd(M::StoreM("v", spec)), nd(M::Opt(nd(M::Pin(Some(re(11)), L::V("v.range"), "G"))))]))
    } else {
        (real, spec)
    };
    let p = Program!(real, Optional!(Ref!("N")), Optional!(Catch!(Ref!("Pin"), |_, _| Ok(adextopa_core::matcher::MatcherSuccess::Skip(0)))), Matches!(r"[\s\S]"));
    let spec = prog(vec![spec, nd(M::Opt(nd(M::Ref(t("N"), "")))), nd(M::Opt(nd(M::Catch(nd(M::Ref(t("Pin"), "")), 0)))), re(11)]);
    let s = ascii(3);
    against(&spec, p, &s, (0, s.len()));
} }
harness! { fn c33_names() {
    // what is registered, referred to, flattened, stored and broken out of
    let x = || Equals!("N"; "a");
    let xs = || nd(M::Lit(t("a"), "N"));
    let (real, spec) = match choose(14) {
        0 => (Program!(Register!(x(), Equals!("O"; "b")), Ref!("N"), Ref!("O")), prog(vec![nd(M::Register(vec![xs(), nd(M::Lit(t("b"), "O"))])), nd(M::Ref(t("N"), "")), nd(M::Ref(t("O"), ""))])),
        1 => (Program!(Ref!(x()), Ref!("N")), prog(vec![nd(M::RefM(xs())), nd(M::Ref(t("N"), ""))])),
        2 => (Program!(Register!(x()), RefPattern::new_with_name("N", "R".to_string()), Ref!("R")), prog(vec![nd(M::Register(vec![xs()])), nd(M::Ref(t("N"), "R")), nd(M::Ref(t("R"), ""))])),
        3 => (Program!(Register!(x()), named(Ref!("N"), "R")), prog(vec![nd(M::Register(vec![xs()])), nd(M::Ref(t("N"), "R"))])),
        4 => (Program!(ProxyChildren!("P"; Program!(a(), b())), b()), prog(vec![nd(M::Proxy(prog(parts()), "P")), nd(M::Opt(lit("b")))])),
        5 => (Program!(ProxyChildrenPattern::new(Program!(a(), b())), b()), prog(vec![nd(M::Proxy(prog(parts()), "")), nd(M::Opt(lit("b")))])),
        6 => (Program!(ProxyChildrenPattern::new_with_name(Program!(a(), b()), "P"), b()), prog(vec![nd(M::Proxy(prog(parts()), "P")), nd(M::Opt(lit("b")))])),
        7 => (Program!(Store!("v"; Matches!("[^a]")), Equals!(Fetch!("v.captured_value"))), prog(vec![nd(M::StoreM("v", re(10))), nd(M::Lit(L::V("v.captured_value"), ""))])),
        8 => (Program!(StorePattern::new_as_matcher_type("v", Matches!("[^a]")), Equals!(Fetch!("v.matched_value"))), prog(vec![nd(M::StoreM("v", re(10))), nd(M::Lit(L::V("v.matched_value"), ""))])),
        9 => (Program!(Loop!(a(), Break!()), b()), prog(vec![nd(M::Loop(vec![lit("a"), nd(M::Break(""))], 0, MAX, "")), nd(M::Opt(lit("b")))])),
        10 => (Program!(Loop!("L"; a(), Loop!(b(), BreakPattern::new("L"))), b()), prog(vec![nd(M::Loop(vec![lit("a"), nd(M::Loop(vec![nd(M::Opt(lit("b"))), nd(M::Break("L"))], 0, MAX, ""))], 0, MAX, "L")), nd(M::Opt(lit("b")))])),
        11 => (Program!(Loop!("L"; a(), Loop!("K"; Equals!("b"), Break!("L"))), b()), prog(vec![nd(M::Loop(vec![lit("a"), nd(M::Loop(vec![lit("b"), nd(M::Break("L"))], 0, MAX, "K"))], 0, MAX, "L")), nd(M::Opt(lit("b")))])),
        12 => {
            let c = adextopa_core::scope_context::ScopeContext::new();
            (Program!(SetScope!(c.clone(), x()), Optional!(Ref!(x()))), prog(vec![nd(M::SetScopeIn(new_scope(), c, xs())), nd(M::Opt(nd(M::RefM(xs()))))]))
        }
        _ => (Program!(SetScope!(Program!(x(), Ref!("N"))), Null!(), b()), prog(vec![nd(M::SetScope(prog(vec![xs(), nd(M::Ref(t("N"), ""))]))), nd(M::Null), nd(M::Opt(lit("b")))])),
    };
    let s = ascii(3 + tier());
    against(&spec, real, &s, (0, s.len()));
} }
harness! { fn c33_tests() {
    // the macros made of other matchers, and those with handlers
    let m = wild();
    let x = || build(&m);
    let (real, spec) = match choose(9) {
        0 => (AssertIf!(x(), "m"), nd(M::AssertIf(m.clone(), "m"))),
        1 => (AssertIfNot!(x(), "m"), nd(M::AssertIfNot(m.clone(), "m"))),
        2 => (FatalIf!(x(), "m"), nd(M::FatalIf(m.clone(), "m"))),
        3 => (FatalIfNot!(x(), "m"), nd(M::FatalIfNot(m.clone(), "m"))),
        4 => (Debug!(x()), nd(M::Debug(Some(m.clone()), 1))),
        5 => (Debug!(2; x()), nd(M::Debug(Some(m.clone()), 2))),
        6 => (Program!(Debug!(), x()), prog(vec![nd(M::Debug(None, 1)), m.clone()])),
        7 => (Program!(Debug!(0;), DebugPattern::new(Some(x()))), prog(vec![nd(M::Debug(None, 0)), nd(M::Debug(Some(m.clone()), 1))])),
        _ => (
            Map!(x(), |t, _, _| {
                t.borrow_mut().set_name("Mapped");
                TokenResult!(t.clone())
            }),
            nd(M::Map(m.clone(), 0)),
        ),
    };
    let _ = SourceRange::new(0, 0);
    let s = ascii(2 + tier());
    against(&prog(vec![nd(M::Opt(lit("b"))), spec, nd(M::Opt(re(11)))]), Program!(b(), real, Optional!(Matches!(r"[\s\S]"))), &s, (0, s.len()));
} }
harness! { fn c33_parts() {
    // what a matcher is made of can be asked for
    let k: Vec<MatcherRef> = (0..3).map(|_| build(&simple())).collect();
    let n = choose(4) as usize;
    let (m, k): (MatcherRef, Vec<MatcherRef>) = match choose(14) {
        0 => (ProgramPattern::new_program(k[..n].to_vec(), MatchAction::Continue), k[..n].to_vec()),
        1 => (ProgramPattern::new_program(k[..n].to_vec(), MatchAction::Stop), k[..n].to_vec()),
        2 => (ProgramPattern::new_loop(k[..n].to_vec(), 0..n), k[..n].to_vec()),
        3 => (Program!("N"; k[0].clone(), k[1].clone(), k[0].clone()), vec![k[0].clone(), k[1].clone(), k[0].clone()]),
        4 => (Register!(k[2].clone(), k[1].clone()), vec![k[2].clone(), k[1].clone()]),
        5 => (Optional!(k[0].clone()), k[..1].to_vec()),
        6 => (Not!(k[1].clone()), k[1..2].to_vec()),
        7 => (Discard!(k[2].clone()), k[2..].to_vec()),
        8 => (ProxyChildren!("N"; k[0].clone()), k[..1].to_vec()),
        9 => (ExpandRange!(k[0].clone()), k[..1].to_vec()),
        10 => (SetScope!(k[0].clone()), k[..1].to_vec()),
        11 => (Pin!("N", "1"; k[1].clone()), k[1..2].to_vec()),
        12 => (Store!("v"; k[0].clone()), k[..1].to_vec()),
        _ => match n {
            0 => (Debug!(k[0].clone()), k[..1].to_vec()),
            1 => (Map!(k[0].clone(), |t, _, _| TokenResult!(t.clone())), k[..1].to_vec()),
            2 => (Catch!(k[0].clone(), |_, _| Err(adextopa_core::matcher::MatcherFailure::Fail)), k[..1].to_vec()),
            _ => ([Pin!(), Debug!(), Null!(), Break!(), Ref!("x"), Equals!("x"), Error!("m"), Panic!("m"), Store!("v"; "x")][choose(9) as usize].clone(), vec![]),
        },
    };
    made_of(&m, &k);
} }
harness! { fn c33_blank() {
    // nothing in it at all
    let (real, spec) = match choose(6) {
        0 => (Program!(), prog(vec![])),
        1 => (Switch!(), switch(vec![])),
        2 => (Loop!(), nd(M::Loop(vec![], 0, MAX, ""))),
        3 => (ProgramPattern::new_blank_loop(1..), nd(M::Loop(vec![], 1, MAX, ""))),
        4 => (ProgramPattern::new_loop(vec![], ..3), nd(M::Loop(vec![], 0, 3, ""))),
        _ => (ProgramPattern::new_program_with_name(vec![], "N".to_string(), MatchAction::Continue), nd(M::Prog(vec![], "N"))),
    };
    let (real, spec) = match choose(4) {
        0 => (real, spec),
        1 => (Program!(a(), real, b()), prog(vec![lit("a"), spec, nd(M::Opt(lit("b")))])),
        2 => (Program!(a(), Optional!(real), b()), prog(vec![lit("a"), nd(M::Opt(spec)), nd(M::Opt(lit("b")))])),
        _ => (Loop!(Switch!(real, a())), nd(M::Loop(vec![switch(vec![spec, lit("a")])], 0, MAX, ""))),
    };
    let s = ascii(2);
    against(&spec, real, &s, (0, s.len()));
} }
