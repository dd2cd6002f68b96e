//! Harnesses for what a user of the crate builds upon: printing, contexts, compiling again and
//! again, and matchers of one's own.
use crate::core::any_window;
use crate::gen::*;
use crate::script::*;
use crate::spec::*;
use crate::sx::*;
use adextopa_core::matcher::MatcherSuccess;
use adextopa_core::parser::Parser;
use adextopa_core::parser_context::ParserContext;
use adextopa_core::scope::VariableType;
use adextopa_core::scope_context::ScopeContext;
use adextopa_core::script::v1::parser::{compile_script_from_file, compile_script_from_str};
use adextopa_core::source_range::SourceRange;
use adextopa_core::token::*;
use std::rc::Rc;

// ------------------------------------------------------------------ C29 printing
/// What a printed token must say, line by line, without its layout.
fn printed(t: &TokenRef, out: &mut Vec<Option<String>>) {
    let x = t.borrow();
    let (c, m) = (*x.get_captured_range(), *x.get_matched_range());
    out.push(Some(format!("{}(", x.get_name())));
    out.push(Some(format!("ValueRange({}, {}),", c.start, c.end)));
    out.push(Some(format!("RawRange({}, {}),", m.start, m.end)));
    out.push(Some(format!("Value({}),", x.get_value())));
    out.push(Some(format!("RawValue({}),", x.get_matched_value())));
    out.push(Some(match x.get_parent() {
        Some(p) => format!("Parent({}),", p.borrow().get_name()),
        None => "Parent(None),".to_string(),
    }));
    // (several attributes may be listed in any order)
    out.push(if x.get_attributes().len() > 1 { None } else { Some(format!("Attributes {:?}", x.get_attributes())) });
    if x.get_children().is_empty() {
        out.push(Some("Children [],".to_string()));
        return;
    }
    out.push(Some("Children [".to_string()));
    for k in x.get_children() {
        printed(k, out);
        out.push(Some("),".to_string()));
    }
    out.push(Some("],".to_string()));
}
/// The lines of a text, without what only lays them out.
fn lines(s: &str) -> Vec<&[u8]> {
    let mut o = vec![];
    for l in s.as_bytes().split(|b| *b == b'\n') {
        let mut a = 0;
        while a < l.len() && l[a] == b' ' {
            a += 1;
        }
        if a < l.len() {
            o.push(&l[a..]);
        }
    }
    o
}
pub fn prints(t: &TokenRef) {
    let a = format!("{}", t.borrow());
    let b = format!("{:?}", t.borrow());
    check(a == b, "a token prints differently the second time");
    let mut want = vec![];
    printed(t, &mut want);
    let got = lines(&a);
    check(got.len() == want.len(), "a printed token has the wrong number of lines");
    for (g, w) in got.iter().zip(want.iter()) {
        if let Some(w) = w {
            check(*g == w.as_bytes(), "a printed token says something else than the token");
            emit(w.as_bytes());
        }
    }
}
fn no_breaks(s: &str) {
    for b in s.bytes() {
        assume((b != b'\n') & (b != b' '));
    }
}
harness! { fn c29_token() {
    let m = in_context(wild(), 9);
    let s = ascii(2 + tier());
    no_breaks(&s);
    if let Err(F::Undef) = tokenize(s.as_bytes(), &m, (0, s.len()), &new_scope()) {
        prune();
    }
    if let Ok(t) = ParserContext::tokenize(window(&s, (0, s.len())), build(&m)) {
        prints(&t);
    }
} }
harness! { fn c29_wide() {
    // any characters, levels and attributes
    let m = match choose(4) {
        0 => prog(vec![re(11), nd(M::Loop(vec![prog(vec![re(11), nd(M::Opt(lit("a")))])], 0, MAX, "L"))]),
        1 => prog(vec![seq(), nd(M::Map(re(11), 1))]),
        2 => prog(vec![nd(M::Prog(vec![nd(M::Prog(vec![nd(M::Prog(vec![re(11)], "W"))], "V")), re(11)], "U")), nd(M::Err("e1"))]),
        _ => nd(M::Expand(seq())),
    };
    let s = ["a", "<", ""][choose(3) as usize].to_string() + &utf8(1, 2 + tier() as u8) + ["", ">", "a>a"][choose(3) as usize];
    no_breaks(&s);
    if let Err(F::Undef) = tokenize(s.as_bytes(), &m, (0, s.len()), &new_scope()) {
        prune();
    }
    if let Ok(t) = ParserContext::tokenize(window(&s, (0, s.len())), build(&m)) {
        prints(&t);
    }
} }
/// A matcher prints the same before and after it was used.
fn matcher_prints(m: &adextopa_core::matcher::MatcherRef, s: &str) {
    let a = format!("{:?}", m);
    check(a != "" && m.borrow().to_string() != "", "a matcher prints as nothing");
    let r = ParserContext::tokenize(window(s, (0, s.len())), m.clone());
    check(format!("{:?}", r) != "", "a result prints as nothing");
    check(format!("{:?}", m) == a, "a matcher prints differently after it was used");
    observe(&r);
}
harness! { fn c29_matcher() {
    let m = match choose(4) {
        0 => wild(),
        1 => wrap(simple()),
        2 => nd(match choose(8) {
            0 => M::Pin(None, t("0"), "N"),
            1 => M::Ref(t("X"), "N"),
            2 => M::Register(vec![nd(M::Lit(t("a"), "N"))]),
            3 => M::SetScope(lit("a")),
            4 => M::StoreS("v", "w"),
            5 => M::Lit(L::V("v"), "N"),
            6 => M::Seq(L::V("v"), L::V("v"), L::V("v"), ""),
            _ => M::Re(0, "N"),
        }),
        _ => nd(M::Switch(vec![nd(M::Prog(vec![leaf()], "P")), nd(M::Loop(vec![simple()], 1, 3, "L"))], "S")),
    };
    let s = ascii(1);
    if let Err(F::Undef) = tokenize(s.as_bytes(), &m, (0, s.len()), &new_scope()) {
        prune();
    }
    matcher_prints(&build(&m), &s);
} }
harness! { fn c29_script() {
    let h = "<!--[adextopa version='1']";
    let x = [
        ("(!</[0-9]/i>)(?'N'<='a' x='1'>)", "a"),
        ("A=<{(<='a'>)(?<B>)}>B=<[(<A>)|(<='b'>)]>-->(<A>)", "aab"),
        ("import{A,_ as R}from'lib'-->(<A>)(<R>)", "xy"),
        ("import{A,B}from'lib'-->(<B>)(<A>)", "yxx"),
    ][choose(4) as usize];
    let s = if x.0.contains("-->") { h.to_string() + x.0 } else { x.0.to_string() };
    file("main", s.as_bytes());
    file("lib", b"<!--[adextopa version='1']A=<='x'>B=<{(<='y'>)(<A>)}>-->(?<A>)(<='y'>)");
    match compile_script_from_file("main", 0) {
        Ok(m) => {
            // (what the names of a script mean is known once it runs, and printed with it)
            check(format!("{:?}", m) != "", "a compiled script prints as nothing");
            let t = match choose(2) { 0 => x.1.to_string(), _ => ascii(1) };
            for _ in 0..2 {
                let r = ParserContext::tokenize(window(&t, (0, t.len())), m.clone());
                check(format!("{:?}", m) != "" && format!("{:?}", r) != "", "a used script prints as nothing");
                observe(&r);
            }
        }
        Err(e) => {
            emit(e[0].message.as_bytes());
            fail("a valid script was rejected")
        }
    }
} }
harness! { fn c29_range() {
    let (a, b) = (choose(30) as usize * 7, choose(12) as usize * 23);
    let r = SourceRange::new(a, b);
    check(format!("{}", r) == format!("[{}-{}]", a, b), "a range prints as another one");
    let c = r.clone_with_len(3);
    check((c.start, c.end) == (a, a + 3) && (r.start, r.end) == (a, b), "a range with another length");
} }

// ------------------------------------------------------------------ C30 contexts
fn sym(n: usize) -> String {
    utf8(n, 2 + tier() as u8)
}
harness! { fn c30_text() {
    let s = sym(3);
    let w = any_window(&s);
    let p = sym(choose(3) as usize);
    let c = window(&s, w);
    let c = c.borrow();
    let at = |a: usize| p.len() > 0 && s.as_bytes()[a..w.1].starts_with(p.as_bytes());
    check(match c.matches_str(&p) { Some(r) => at(w.0) && r.start == w.0 && r.end == w.0 + p.len(), None => !at(w.0) }, "a text is wrongly (not) found at the current position");
    let o = choose(s.len() as u8 + 1) as usize;
    if is_boundary(&s, o) && o <= w.1 {
        check(match c.matches_str_at_offset(&p, o) { Some(r) => at(o) && r.start == o && r.end == o + p.len(), None => !at(o) }, "a text is wrongly (not) found at an offset");
    }
} }
harness! { fn c30_regexp() {
    let (i, s) = (choose(RES.len() as u8) as usize, ascii(3));
    let w = any_window(&s);
    let c = window(&s, w);
    let want = (RES[i].1)(&s.as_bytes()[w.0..w.1]);
    let re = regex::Regex::new(RES[i].0).unwrap();
    match c.borrow().matches_regexp(&re) {
        Some(r) => {
            emit(&[r.start as u8, r.end as u8]);
            check(want.is_some() && r.start == w.0 && r.end == w.0 + want.unwrap_or(0), "an expression is wrongly found at the current position")
        }
        None => check(want.is_none(), "an expression is not found at the current position"),
    };
} }
harness! { fn c30_range() {
    // the text of any range, also one that leaves the text or cuts a character
    let s = sym(3);
    let p = Parser::new(&s);
    check(p.borrow().get_source().as_str() == s.as_str(), "a parser has another text");
    let (a, b) = (choose(s.len() as u8 + 2) as usize, choose(s.len() as u8 + 3) as usize);
    let v = SourceRange::new(a, b).to_string(&p);
    let e = if b < s.len() { b } else { s.len() };
    let want = if a <= e && is_boundary(&s, a) && is_boundary(&s, e) { &s.as_bytes()[a..e] } else { &[] };
    check(v.as_bytes() == want, "a range has another text");
} }
harness! { fn c30_excerpt() {
    // an excerpt begins where the window does and is as long as asked for, up to a whole character
    let s = sym(3);
    let w = any_window(&s);
    let n = choose(s.len() as u8 + 2) as usize;
    let d = window(&s, w).borrow().debug_range(n);
    let mut e = w.0 + n;
    if e > w.1 { e = w.1 }
    while !is_boundary(&s, e) { e += 1 }
    check(d.as_bytes() == &s.as_bytes()[w.0..e], "an excerpt is not the beginning of the window");
} }
fn same_var(v: &Option<VariableType>, w: Option<&str>) -> bool {
    match (v, w) {
        (None, None) => true,
        (Some(VariableType::String(a)), Some(b)) => a == b,
        _ => false,
    }
}
harness! { fn c30_context() {
    // a copy of a context has a window of its own, and the text, scopes and names in common
    let s = "abc";
    let p = Parser::new_with_file_name(s, "file");
    let a = if flag() { ParserContext::new(&p, "A") } else { ParserContext::new_with_offset(&p, SourceRange::new(0, 3), "A") };
    let mut cs = vec![a.clone()];
    let mut win = vec![(0usize, 3usize)];
    let mut dbg = vec![0usize];
    let mut stack: Vec<Vec<usize>> = vec![vec![]];
    let mut var: Option<&str> = None;
    let toks: Vec<TokenRef> = (0..2).map(|i| StandardToken::new(&p, "T".to_string(), SourceRange::new(i, i + 1))).collect();
    for _ in 0..3 + tier() {
        let i = choose(cs.len() as u8) as usize;
        let c = &cs[i].clone();
        let n = choose(2) as usize;
        match choose(10) {
            // (a copy has everything the context it is made of has at that time)
            9 => {
                if cs.len() > 1 { prune() }
                let b = c.borrow().clone_with_name("B");
                cs.push(b);
                win.push(win[i]);
                dbg.push(dbg[i]);
                stack.push(stack[i].clone());
            }
            0 => { c.borrow_mut().set_start(n); win[i].0 = n }
            1 => { c.borrow_mut().set_end(2 + n); win[i].1 = 2 + n }
            2 => { c.borrow_mut().set_offset(SourceRange::new(n, 2)); win[i] = (n, 2) }
            3 => { c.borrow_mut().set_debug_mode(2 * n); dbg[i] = 2 * n }
            4 => { c.borrow_mut().push_token_to_stack(toks[n].clone()); stack[i].push(n) }
            5 => { c.borrow_mut().pop_token_from_stack(); stack[i].pop(); }
            6 => {
                let v = ["x", "y"][n];
                let old = c.borrow_mut().set_scope_variable("v", VariableType::String(v.to_string()));
                check(same_var(&old, var), "setting a variable yields another than the one before");
                var = Some(v);
            }
            7 => {
                let m = build(&lit("a"));
                c.borrow().register_matcher_with_name("m", m.clone());
                for c in &cs {
                    check(c.borrow().get_registered_matcher("m").map(|x| Rc::ptr_eq(&x, &m)).unwrap_or(false), "a registered matcher is not found");
                }
            }
            _ => check(Rc::ptr_eq(&c.borrow().get_parser(), &p) && Rc::ptr_eq(&c.borrow().get_scope(), &a.borrow().get_scope()), "a context has another parser or scope"),
        }
        for (i, c) in cs.iter().enumerate() {
            let c = c.borrow();
            check((c.offset.start, c.offset.end) == win[i], "a context has another window");
            check(c.debug_mode_level() == dbg[i] && c.is_debug_mode() == (dbg[i] > 0), "a context is in another mode");
            check(same_var(&c.get_scope_variable("v"), var), "a context has another variable");
            check(c.name == ["A", "B"][i], "a context has another name");
            check(match (c.get_top_token_from_stack(), stack[i].last()) { (None, None) => true, (Some(t), Some(n)) => Rc::ptr_eq(&t, &toks[*n]), _ => false }, "another token is on top of the stack");
        }
    }
} }

// ------------------------------------------------------------------ C31 compiling is repeatable
harness! { fn c31_after() {
    // what was compiled before, and used, does not matter
    let h = "<!--[adextopa version='1']";
    let firsts = ["(<='b'>)", "x", "(<='a'>", "<!--[adextopa version='1']A=<='b'>B=A-->(<A>)", "<!--[adextopa version='1' name='Other']A=<='", "(<=''>)", ""];
    let f = firsts[choose(firsts.len() as u8) as usize];
    if let Ok(m) = compile_script_from_str(f, "First".to_string(), 0) {
        let _ = ParserContext::tokenize(window("b", (0, 1)), m);
    }
    let s = match choose(4) {
        0 => holes("(<='~'>)"),
        1 => h.to_string() + "-->(<A>)",
        2 => h.to_string() + &holes("A=<='~'>-->(<A>)(?<B>)"),
        _ => holes("(<='a@>)"),
    };
    script(&s, &ascii(2));
} }
harness! { fn c31_twice() {
    // compiled twice, from a text, the results are alike and do not know of each other
    let h = "<!--[adextopa version='1']";
    let s = match choose(5) {
        0 => holes("(<='~'>)(?'N'</[a-b]/>)"),
        1 => h.to_string() + &holes("A=<{(<='a'>)(?<B>)}>B=<{(<='~'>)(?<A>)}>-->(<A>)"),
        2 => holes("(<='a'>@)"),
        3 => holes("(<=~a'>)"),
        _ => h.to_string() + "A=<='a'>-->(<A>)(?<C>)",
    };
    let (a, b) = (compile(&s), compile(&s));
    let t = ascii(2);
    match (a, b) {
        (Ok(a), Ok(b)) => {
            let spec = match read(&s, "S") { Ok(m) => m, Err(Bad::Undef) => prune(), Err(_) => fail("a text that is no script was accepted") };
            if let Err(F::Undef) = tokenize(t.as_bytes(), &spec, (0, 2), &new_scope()) {
                prune();
            }
            let go = |m: &adextopa_core::matcher::MatcherRef, t: &str| ParserContext::tokenize(window(t, (0, t.len())), m.clone());
            let _ = go(&a, "ab");
            against(&spec, b.clone(), &t, (0, 2));
            against(&spec, a, &t, (0, 2));
            against(&spec, b, &t, (0, 2));
        }
        (Err(a), Err(b)) => {
            rejected(&a, &s);
            check(a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| x.message == y.message && x.range == y.range), "the same script is rejected with other errors");
        }
        _ => fail("the same script is not always accepted"),
    }
} }
harness! { fn c31_files() {
    // a file is read when the script is compiled, not when another one was
    let h = "<!--[adextopa version='1']";
    let main = h.to_string() + "import{A}from'lib'-->(<A>)";
    let lib = |v: &str| h.to_string() + "A=<='" + v + "'>-->(<A>)";
    let first = [lib("a"), lib("b"), "(<='a'>".to_string(), h.to_string() + "-->(<='a'>)"][choose(4) as usize].clone();
    let mut old = None;
    if flag() {
        let files = [("main".to_string(), main.clone()), ("lib".to_string(), first.clone())];
        for (n, b) in &files {
            file(n, b.as_bytes());
        }
        old = compile_script_from_file("main", 0).ok();
        check(old.is_some() == first.contains("A="), "an import is wrongly (not) satisfied");
    }
    let second = lib(["a", "c"][choose(2) as usize]);
    let t = ascii(1);
    script_files(&[("main".to_string(), main), ("lib".to_string(), second)], &t);
    if let Some(m) = old {
        let r = ParserContext::tokenize(window(&t, (0, 1)), m);
        observe(&r);
        check(r.is_ok() == (t.as_bytes()[0] == if first.contains("'a'") { b'a' } else { b'b' }), "a compiled script changed with its file");
    }
} }

// ------------------------------------------------------------------ C32 matchers of one's own
fn logs() -> Logs {
    Rc::new((std::cell::RefCell::new(vec![]), std::cell::RefCell::new(vec![])))
}
const NUSER: u8 = 12;
/// The result is the specified one, and each matcher of one's own ran where and when it must.
fn ran(m: &Nd, s: &str, w: (usize, usize), l: &[Logs]) {
    let spec = tokenize(s.as_bytes(), m, w, &new_scope());
    if let Err(F::Undef) = spec {
        prune();
    }
    let r = ParserContext::tokenize(window(s, w), build(m));
    observe(&r);
    compare(s.as_bytes(), &r, &spec);
    for l in l {
        let (a, b) = (l.0.borrow(), l.1.borrow());
        check(a.len() == b.len(), "a matcher of one's own is not run as often as it must be");
        check(*a == *b, "a matcher of one's own is run in another place than it must be");
        emit(&[a.len() as u8]);
    }
}
harness! { fn c32_alone() {
    let l = logs();
    let m = in_context(wrap(nd(M::User(choose(NUSER), l.clone()))), 9);
    let s = ascii(2 + tier());
    ran(&m, &s, (0, s.len()), &[l]);
} }
harness! { fn c32_pairs() {
    let (l, k) = (logs(), logs());
    let a = nd(M::User(choose(NUSER), l.clone()));
    let b = nd(M::User(choose(NUSER), k.clone()));
    let m = match choose(6) {
        0 => prog(vec![a, b]),
        1 => prog(vec![lit("a"), a, nd(M::Opt(b)), re(11)]),
        2 => nd(M::Loop(vec![switch(vec![a, b])], 0, 3, "")),
        3 => nd(M::Loop(vec![nd(M::Opt(a)), re(11), b], 1, MAX, "")),
        4 => prog(vec![nd(M::Discard(prog(vec![re(11), a]))), nd(M::Proxy(prog(vec![re(11), b]), "")), re(11)]),
        _ => switch(vec![nd(M::Not(a)), prog(vec![re(11), nd(M::Expand(b))]), re(11)]),
    };
    let s = ascii(3 + tier());
    ran(&m, &s, (0, s.len()), &[l, k]);
} }
harness! { fn c32_place() {
    // windows, pins, scopes, references: what a matcher of one's own is shown
    let l = logs();
    let u = nd(M::User([1, 8, 0, 6][choose(4) as usize], l.clone()));
    let m = match choose(8) {
        0 => u,
        1 => prog(vec![re(11), nd(M::Pin(Some(u), t(["0", "+1", "-1", "0..1", "+0..+1"][choose(5) as usize]), "")), re(11)]),
        2 => prog(vec![nd(M::StoreS("v", "b")), re(11), u]),
        3 => prog(vec![nd(M::StoreS("v", "b")), nd(M::SetScope(prog(vec![nd(M::StoreS("v", "a")), u.clone()]))), nd(M::Opt(u))]),
        4 => prog(vec![re(11), nd(M::RefM(u)), nd(M::Opt(re(11)))]),
        5 => prog(vec![re(11), nd(M::StoreS("v", "a")), nd(M::Debug(Some(u), 0)), nd(M::Opt(re(11)))]),
        6 => prog(vec![nd(M::Discard(re(11))), nd(M::StoreS("v", "a")), nd(M::Map(u, 1)), nd(M::Opt(re(11)))]),
        _ => nd(M::Catch(prog(vec![nd(M::StoreM("v", re(11))), u]), 1)),
    };
    let s = ascii(4);
    let w = any_window(&s);
    if w.0 > 1 || w.1 < 3 { prune() }
    ran(&m, &s, w, &[l]);
} }
#[allow(unused)]
fn unused(_: MatcherSuccess, _: Rc<ScopeContext>) {}
