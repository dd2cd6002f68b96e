//! The same guarantees at size: long texts, many parts, many repetitions, deep nesting. Nearly all
//! of it is fixed; one character at a chosen place is any.
use crate::gen::*;
use crate::model::*;
use crate::script::{holes, leak, pick, script, script_files};
use crate::spec::*;
use crate::sx::*;
use adextopa_core::token::TokenRef;

/// `base` with the character at one of these places replaced by any other.
fn off_at(base: &str, at: &[usize]) -> String {
    let i = at[choose(at.len() as u8) as usize];
    let b = byte();
    assume(b < 128);
    let mut v = base.as_bytes().to_vec();
    v[i] = b;
    unsafe { String::from_utf8_unchecked(v) }
}
fn one_of<A: Copy>(l: &[A]) -> A {
    l[choose(l.len() as u8) as usize]
}
/// A text without repetitions: no character is where it would be if positions were off by some.
fn varied(n: usize) -> String {
    let mut s = String::new();
    let mut x = 7usize;
    for i in 0..n {
        x = (x * 31 + i) % 251;
        s.push((b'c' + (x % 20) as u8) as char);
    }
    s
}
harness! { fn c02_scale() {
    let n = one_of(&[64, 128, 255, 256, 257, 300]);
    let w = varied(n);
    let s = format!("-{}a", off_at(&w, &[0, n / 2, n - 2, n - 1]));
    let l = nd(M::Lit(t(&w), ""));
    let m = match choose(3) {
        0 => prog(vec![lit("-"), l, nd(M::Opt(re(10)))]),
        1 => prog(vec![re(10), nd(M::Opt(l)), nd(M::Loop(vec![nd(M::Lit(t(&w[..3]), ""))], 0, MAX, ""))]),
        // too short by one
        _ => nd(M::Switch(vec![nd(M::Lit(t(&format!("-{}aa", w)), "")), nd(M::Lit(t(&s[..n / 2]), ""))], "")),
    };
    let w = (choose(2) as usize, s.len() - choose(2) as usize);
    against_spec_in(&m, &s, w);
} }
harness! { fn c03_scale() {
    let n = one_of(&[64, 255, 256, 300]);
    let (i, c) = one_of(&[(0, "7"), (1, "a"), (2, " "), (17, "x")]);
    let s = c.repeat(n);
    let s = off_at(&s, &[0, 1, n / 2, n - 1]) + "b";
    let m = if i == 17 { prog(vec![nd(M::Loop(vec![re(10)], 0, MAX, "")), nd(M::Opt(lit("a")))]) } else { prog(vec![nd(M::Opt(re(i))), re(11), nd(M::Opt(re(i)))]) };
    against_spec(&m, &s);
} }
harness! { fn c04_scale() {
    let n = one_of(&[60, 128, 256]);
    let (a, b, e, u) = one_of(&[("<", ">", "\\", "xy\\>"), ("(*", "*)", "\\", "*\\*)"), ("'", "'", "''", "z''"), ("<", ">", "%%", "%%>q")]);
    let s = format!("{}{}{}>b", a, u.repeat(n / u.len()), b);
    let k = s.len();
    let s = off_at(&s, &[0, k / 2, k - 4, k - 3]);
    against_spec(&prog(vec![nd(M::Opt(nd(M::Seq(t(a), t(b), t(e), "")))), nd(M::Opt(re(11)))]), &s);
} }
harness! { fn c05_scale() {
    // a program of many parts
    let n = one_of(&[17, 33, 65, 257]);
    let k: Vec<Nd> = (0..n).map(|i| match i % 5 { 0 => lit("ab"), 1 => nd(M::Opt(lit("x"))), 2 => nd(M::Discard(lit("c"))), 3 => nd(M::Lit(t("d"), "D")), _ => re(10) }).collect();
    let mut s = String::new();
    for i in 0..n { s += ["ab", "", "c", "d", "e"][i % 5]; }
    let z = s.len();
    let s = off_at(&s, &[0, z / 2, z / 2 + 1, z - 2, z - 1]) + "f";
    against_spec(&prog(vec![nd(M::Opt(prog(k))), nd(M::Opt(re(10)))]), &s);
} }
harness! { fn c06_scale() {
    // many alternatives: the first that matches, wherever it stands
    let n = one_of(&[17, 52, 270]);
    let at = one_of(&[1, 16, 31, 50, 260]);
    if at >= n { prune() }
    let k: Vec<Nd> = (0..n).map(|i| {
        let c = leak(&format!("{}{}", (b'a' + (i % 26) as u8) as char, i / 26));
        if i == at { nd(M::Proxy(prog(vec![lit(c), re(10)]), "")) } else if i % 7 == 3 { prog(vec![lit(c), nd(M::Not(lit("x")))]) } else { lit(c) }
    }).collect();
    against_spec(&prog(vec![nd(M::Switch(k, "")), nd(M::Opt(re(11)))]), &(ascii(1) + one_of(&["0", "1", "2"]) + "x"));
} }
harness! { fn c07_scale() {
    // hundreds of repetitions, bounds around them
    let n = one_of(&[255, 256, 257]);
    let (a, b) = one_of(&[(0, MAX), (0, 255), (0, 256), (255, 257), (256, 256), (257, MAX), (0, 65536), (258, MAX), (3, 4294967296)]);
    let body = match choose(3) {
        0 => vec![lit("a")],
        1 => vec![nd(M::Discard(lit("a")))],
        _ => vec![switch(vec![lit("b"), lit("a")])],
    };
    let s = "a".repeat(n);
    let s = off_at(&s, &[0, n - 1]) + "xc";
    against_spec(&prog(vec![nd(M::Opt(nd(M::Loop(body, a, b, "")))), nd(M::Loop(vec![re(10)], 0, MAX, ""))]), &s);
} }
/// m inside n wrappers that leave its meaning to the specification.
fn nest(m: Nd, n: usize, w: u8) -> Nd {
    let mut m = m;
    for i in 0..n {
        m = match w {
            0 => prog(vec![m]),
            1 => prog(vec![nd(M::Opt(lit("-"))), m, nd(M::Opt(lit("+")))]),
            2 => switch(vec![lit("#"), m]),
            3 => nd(M::Opt(m)),
            4 => nd(M::Proxy(prog(vec![m, nd(M::Opt(lit("+")))]), "")),
            5 => nd(M::Loop(vec![m], 0, MAX, "")),
            6 => nd(M::Not(m)),
            7 => prog(vec![lit("("), m, nd(M::Discard(lit(")")))]),
            8 => nd(M::SetScope(m)),
            9 => nd(M::Expand(m)),
            _ => if i % 2 == 0 { nd(M::Discard(prog(vec![m, nd(M::Opt(lit("+")))]))) } else { prog(vec![m, nd(M::Err("e"))]) },
        };
    }
    m
}
harness! { fn c05_depth() {
    let n = one_of(&[15, 16, 33, 130]);
    let m = nest(prog(vec![lit("a"), re(10)]), n, one_of(&[0, 1, 7]));
    let s = "(".repeat(n) + "ab" + &")".repeat(n);
    let s = match choose(3) {
        0 => "ab++".to_string(),
        1 => off_at(&s, &[n, n + 1, n + 2, 2 * n + 1]),
        _ => off_at("-ab+", &[0, 1, 2, 3]),
    };
    against_spec(&m, &s);
} }
harness! { fn c09_depth() {
    let n = one_of(&[15, 16, 17, 130]);
    let m = nest(prog(vec![lit("a"), nd(M::Opt(lit("b")))]), n, one_of(&[3, 6]));
    against_spec(&prog(vec![m, nd(M::Opt(re(10)))]), &ascii(2));
} }
harness! { fn c11_depth() {
    let n = one_of(&[9, 33, 129]);
    let m = nest(prog(vec![lit("a"), re(10)]), n, one_of(&[4, 9]));
    against_spec(&prog(vec![m, nd(M::Opt(re(10)))]), &off_at("ab++c", &[0, 1, 2, 3]));
} }
harness! { fn c08_depth() {
    // out of many loops at once
    let n = one_of(&[5, 9, 17]);
    let at = one_of(&["", "L0", "L2", "L4", "X"]);
    let c = if flag() { nd(M::Break(at)) } else { nd(M::Continue(at)) };
    let mut m = switch(vec![lit("a"), prog(vec![lit("b"), c])]);
    for i in 0..n {
        m = nd(M::Loop(vec![m, nd(M::Opt(lit("y")))], 0, MAX, leak(&format!("L{}", i))));
    }
    against_spec(&prog(vec![m, nd(M::Loop(vec![re(10)], 0, MAX, ""))]), &off_at("abaybc", &[0, 1, 2, 3, 4, 5]));
} }
harness! { fn c10_scale() {
    // what is discarded is long, its errors are many
    let n = one_of(&[40, 140]);
    let s = off_at(&"ab".repeat(n), &[0, 1, n, 2 * n - 1]) + "c";
    let e = nd(M::AssertIf(lit("x"), "m1"));
    let m = match choose(3) {
        0 => prog(vec![nd(M::Discard(nd(M::Loop(vec![lit("a"), re(10)], 0, MAX, "")))), nd(M::Opt(re(11)))]),
        1 => nd(M::Loop(vec![nd(M::Discard(lit("a"))), re(10)], 0, MAX, "")),
        _ => prog(vec![nd(M::Discard(nd(M::Loop(vec![lit("a"), e, re(10)], 0, MAX, "")))), nd(M::Opt(re(11)))]),
    };
    against_spec(&m, &s);
} }
harness! { fn c12_scale() {
    // places hundreds of characters away
    let n = one_of(&[130, 260]);
    let s = varied(n);
    let s = off_at(&s, &[0, 1, n / 2, n - 1]);
    let o = leak(&match choose(7) {
        0 => format!("{}", n - 1),
        1 => format!("+{}", n / 2 - 1),
        2 => format!("{}..{}", n / 2, n / 2 + 1),
        3 => format!("..{}", n - 1),
        4 => format!("+{}..+{}", n / 2 - 1, n - 1),
        5 => format!("{}", n),
        _ => format!("0..{}", n + 1),
    });
    let m = prog(vec![re(10), nd(M::Pin(Some(prog(vec![re(10), nd(M::Opt(re(10)))])), t(o), "")), nd(M::Opt(lit("d")))]);
    against_spec(&m, &s);
} }
harness! { fn c13_scale() {
    // many names, many scopes
    let n = one_of(&[12, 33, 150]);
    let k = one_of(&[0, 11, 32, 149]);
    if k >= n { prune() }
    let name = |i: usize| leak(&format!("n{}", i));
    let mut p: Vec<Nd> = (0..n).map(|i| nd(M::StoreS(name(i), leak(&format!("{}v{}", (b'a' + (i % 26) as u8) as char, i))))).collect();
    let m = match choose(3) {
        0 => { p.push(nd(M::Lit(L::V(name(k)), ""))); prog(p) }
        1 => {
            let r: Vec<Nd> = (0..n).map(|i| nd(M::Lit(t(leak(&format!("{}v{}", (b'a' + (i % 26) as u8) as char, i))), name(i)))).collect();
            prog(vec![nd(M::Register(r)), nd(M::Ref(t(name(k)), "")), nd(M::Opt(re(10)))])
        }
        _ => { p.push(nest(nd(M::Lit(L::V(name(k)), "")), n / 2, 8)); prog(p) }
    };
    let mut v = format!("{}v{}", (b'a' + (k % 26) as u8) as char, k);
    v.push('-');
    let z = v.len();
    against_spec(&m, &off_at(&v, &[0, z - 2, z - 1]));
} }
harness! { fn c14_scale() {
    // many errors, from many levels
    let n = one_of(&[12, 130]);
    let e = |i: usize| nd(M::AssertIf(lit("x"), leak(&format!("m{}", i))));
    let m = match choose(3) {
        0 => {
            let mut k = vec![];
            for i in 0..n { k.push(e(i)); k.push(re(11)); }
            prog(k)
        }
        1 => {
            let mut m = prog(vec![re(11), e(0)]);
            for i in 0..n { m = prog(vec![m, e(i + 1), nd(M::Opt(re(11)))]); }
            m
        }
        _ => prog(vec![nd(M::Discard(nd(M::Loop(vec![re(11), e(7)], 0, MAX, "")))), e(8)]),
    };
    let s = off_at(&("x".repeat(n - 2) + "\n\nx"), &[0, n / 2, n - 2, n]);
    against_spec(&m, &s);
} }
harness! { fn c15_scale() {
    let n = one_of(&[9, 70]);
    let f = nd(M::FatalIf(lit("b"), "f1"));
    let m = nest(prog(vec![lit("a"), f, re(10)]), n, one_of(&[0, 1, 2, 3, 4, 5, 6, 8, 9, 10]));
    against_spec(&prog(vec![nd(M::Loop(vec![lit("\n")], 0, MAX, "")), m, nd(M::Opt(re(10)))]), &("\n".repeat(n) + &off_at("ab+", &[0, 1, 2])));
} }
harness! { fn c17_scale() {
    // hundreds of lines, hundreds of columns
    let n = one_of(&[99, 128, 255, 256, 300]);
    let s = match choose(3) {
        0 => "\n".repeat(n),
        1 => varied(n),
        _ => "x\r\n".repeat(n / 3),
    };
    let s = s + &ascii(2) + &varied(3);
    let z = s.len();
    let b = one_of(&[z - 4, z - 2, z]);
    let a = one_of(&[0, n / 2, n - 1, z - 4, z - 3, z]);
    if a > b { prune() }
    positions(&s, a, b);
} }
harness! { fn c18_scale() {
    // wide and deep trees
    fn flat(t: &TokenRef, o: &mut Vec<String>) {
        o.push(t.borrow().get_name().clone());
        for k in t.borrow().get_children() { flat(k, o) }
    }
    let n = one_of(&[40usize, 130, 300]);
    let k = choose(4) as usize;
    let nm = |i: usize| one_name(i + k);
    let t = match choose(3) {
        0 => plain("A", (0..n).map(|i| plain(nm(i), vec![])).collect()),
        1 => {
            let mut t = plain("A", vec![]);
            for i in 0..n { t = plain(nm(i), vec![t, plain(nm(i + 1), vec![])]); }
            t
        }
        _ => plain("A", (0..n / 10).map(|i| plain(nm(i), (0..9).map(|j| plain(nm(i + j), vec![])).collect())).collect()),
    };
    let mut want = vec![];
    flat(&t, &mut want);
    let hooks = one_of(&[&["B", "*", "A"][..], &["A", "C"][..], &["*"][..]]);
    let mut order: Vec<(usize, &str)> = vec![];
    let stop = one_of(&[1usize, 17, 100, 1000]);
    let mut end = false;
    for w in want.iter() {
        if let Some(i) = hooks.iter().position(|h| h == w).or(hooks.iter().position(|h| *h == "*")) {
            order.push((i, w));
            if order.len() == stop { end = true; break; }
        }
    }
    let log = std::cell::RefCell::new(Vec::<(usize, String)>::new());
    let r = {
        let mut v = adextopa_core::token_visitor::TokenVisitor::new();
        for (i, h) in hooks.iter().enumerate() {
            let log = &log;
            v.add_visitor(h, Box::new(move |t: TokenRef| {
                log.borrow_mut().push((i, t.borrow().get_name().clone()));
                if log.borrow().len() == stop { Err(adextopa_core::parse_error::ParseError::new("stop")) } else { Ok(()) }
            }));
        }
        v.visit(t)
    };
    let log = log.borrow();
    emit(&[log.len() as u8]);
    check(log.len() == order.len(), "a token of a large tree is missed or visited twice");
    for (a, b) in log.iter().zip(order.iter()) {
        check(a.0 == b.0 && a.1 == b.1, "the tokens of a large tree are visited in the wrong order");
    }
    check(r.is_err() == end, "a visit of a large tree ends differently than its visitors say");
} }
fn one_name(i: usize) -> &'static str {
    ["A", "B", "C", "D"][i % 4]
}
harness! { fn c20_scale() {
    // hundreds of characters, or lines, before and behind the window
    let pre = match choose(3) { 0 => "a".repeat(300), 1 => "\r\n".repeat(150), _ => "\u{e4}\u{20ac}".repeat(60) };
    let post = one_of(&["", "ab", "a<b>7"]).repeat(60);
    let m = match choose(4) {
        0 => nd(M::Loop(vec![switch(vec![seq(), re(0), re(10)])], 0, MAX, "")),
        1 => prog(vec![nd(M::StoreM("x", re(10))), re(11), nd(M::Lit(L::V("x.captured_value"), "")), nd(M::Opt(re(4)))]),
        2 => prog(vec![re(11), nd(M::Pin(Some(nd(M::Loop(vec![re(11)], 0, MAX, ""))), t("+0"), "")), nd(M::AssertIf(re(11), "m"))]),
        _ => prog(vec![nd(M::Discard(prog(vec![re(11), nd(M::Err("m3"))]))), nd(M::Opt(re(2))), nd(M::Loop(vec![re(1), re(10)], 0, 3, ""))]),
    };
    both(m, &pre, &ascii(2), &post);
} }
harness! { fn c21_scale() {
    // many parses with the same matcher
    let m = match choose(4) {
        0 => nd(M::Loop(vec![switch(vec![prog(vec![lit("a"), nd(M::Opt(lit("b")))]), re(10)])], 0, MAX, "")),
        1 => prog(vec![nd(M::StoreM("x", re(10))), nd(M::Opt(nd(M::Lit(L::V("x.captured_value"), "")))), nd(M::AssertIf(re(10), "m"))]),
        2 => prog(vec![nd(M::Register(vec![nd(M::Prog(vec![re(10), nd(M::Opt(nd(M::Ref(t("R"), ""))))], "R"))])), nd(M::Ref(t("R"), ""))]),
        _ => prog(vec![nd(M::Discard(prog(vec![lit("a"), nd(M::Err("m"))]))), nd(M::Map(nd(M::Lit(t("b"), "B")), one_of(&[0, 1])))]),
    };
    let s = ascii(2);
    defined(&m, &s);
    let x = build(&m);
    let a = run(&build(&m), &s);
    observe(&a);
    for i in 0..one_of(&[9, 20]) {
        let _ = run(&x, ["ab", "", "aabb", "ba"][i % 4]);
    }
    equal(&a, &run(&x, &s));
    equal(&a, &run(&x, &s));
} }

// ------------------------------------------------------------------ beyond 16 bits
const BIG: usize = 65534;
harness! { fn c02_huge() {
    let n = BIG + choose(4) as usize;
    let w = varied(n);
    let s = format!("-{}a", off_at(&w, &[0, n - 1]));
    against_spec(&prog(vec![lit("-"), nd(M::Opt(nd(M::Lit(t(&w), "")))), nd(M::Opt(lit("a")))]), &s);
} }
harness! { fn c03_huge() {
    let s = off_at(&"7".repeat(BIG + choose(4) as usize), &[0, BIG - 1]) + "b";
    against_spec(&prog(vec![re(0), re(11)]), &s);
} }
harness! { fn c04_huge() {
    let s = "<".to_string() + &off_at(&"\\>x".repeat(BIG / 3), &[0, 1, BIG - 3]) + ">a";
    against_spec(&prog(vec![seq(), nd(M::Opt(re(11)))]), &s);
} }
harness! { fn c07_huge() {
    let n = BIG + one_of(&[1, 3]);
    let (a, b) = one_of(&[(0, MAX), (BIG + 1, BIG + 2), (BIG + 2, MAX)]);
    let x = byte();
    assume((x == b'a') | (x == b'b'));
    let s = format!("{}{}c", "a".repeat(n), x as char);
    against_spec(&prog(vec![nd(M::Opt(nd(M::Discard(nd(M::Loop(vec![lit("a")], a, b, "")))))), nd(M::Opt(lit("a"))), nd(M::Opt(re(10)))]), &s);
} }
harness! { fn c12_huge() {
    let n = BIG + 4;
    let s = off_at(&varied(n), &[0, 1, n - 3, n - 1]);
    let o = leak(&format!("{}{}", one_of(&["", "+", "..", "2..+"]), n - 4 + choose(4) as usize));
    against_spec(&prog(vec![re(10), nd(M::Opt(nd(M::Pin(Some(nd(M::Opt(re(10)))), t(o), "")))), re(10)]), &s);
} }
harness! { fn c17_huge() {
    // (line numbers, or columns, or both)
    let k = choose(2 + tier() as u8);
    let (n, m) = [(BIG + 1, 2), (1, BIG + 2), (BIG + 2, BIG + 2)][k as usize];
    let x = byte();
    assume((x == b'\r') | (x == b'x'));
    let s = format!("{}{}{}", "\n".repeat(n), x as char, varied(m));
    let (a, b) = (n, s.len());
    positions(&s, a, b);
} }
harness! { fn c20_huge() {
    let pre = match choose(2) { 0 => "a".repeat(BIG), _ => "\u{e4}".repeat(BIG / 2) };
    let m = match choose(3) {
        0 => nd(M::Loop(vec![switch(vec![seq(), re(0), re(10)])], 0, MAX, "")),
        1 => prog(vec![nd(M::StoreM("x", re(10))), nd(M::Lit(L::V("x.captured_value"), ""))]),
        _ => prog(vec![nd(M::Opt(re(2))), nd(M::Pin(Some(re(11)), t("+0"), "")), nd(M::AssertIf(re(11), "m"))]),
    };
    both(m, &pre, &ascii(2), &"<".repeat(BIG));
} }

harness! { fn c01_scale() {
    let n = one_of(&[20, 140]);
    let item = match choose(4) {
        0 => prog(vec![re(10), nd(M::Discard(re(11)))]),
        1 => nd(M::Proxy(prog(vec![nd(M::Discard(re(10))), re(11)]), "")),
        2 => switch(vec![seq(), nd(M::Expand(prog(vec![nd(M::Discard(lit("a"))), re(11)]))), re(10)]),
        _ => prog(vec![lit("a"), nest(re(10), 12, 4)]),
    };
    let s = off_at(&"ab".repeat(n), &[0, 1, n, 2 * n - 1]);
    let m = nd(M::Loop(vec![item], 0, MAX, ""));
    parse_coherent(m, &s, (0, s.len()));
} }

// ------------------------------------------------------------------ scripts at size
harness! { fn c22_scale() {
    let s = match choose(5) {
        // many parts
        0 => "(<='a'>)".repeat(70) + &holes("(<='~'>)"),
        // many alternatives
        1 => { let mut s = "[".to_string(); for i in 0..60 { s += &format!("(<='q{}'>)", i); } s + &holes("(<='~'>)]") }
        // many attributes
        2 => { let mut s = "(?'N'<='a' ".to_string(); for i in 0..35 { s += &format!("k{}='v{}' ", i, i); } s + &holes("k~='x'>)") }
        // deep nesting
        3 => "[(<='b'>)".repeat(30) + &holes("(<='~'>)") + &"]".repeat(30),
        // long text
        _ => format!("(<='{}{}'>)", varied(300), holes("~")),
    };
    let t = match choose(2) { 0 => "a".repeat(71), _ => varied(300) + "b" };
    script(&s, &t);
} }
harness! { fn c24_scale() {
    let mut s = "<!--[adextopa version='1']".to_string();
    let n = one_of(&[12, 40]);
    for i in 0..n { s += &format!(" N{}=<='{}{}'>", i, (b'a' + (i % 26) as u8) as char, i); }
    s += " -->";
    s += &pick(&["(<N1@>)", "(<N@>)(<N0>)", "(<N@>*)"]);
    script(&s, one_of(&["l11", "a0", "b1a0", "k10k10", "v21"]));
} }

// ------------------------------------------------------------------ further properties at size
harness! { fn c16_scale() {
    // handlers around handlers, and many handled results
    let n = one_of(&[10, 40]);
    let m = match choose(4) {
        0 => { let mut m = re(10); for i in 0..6 { m = nd(if i % 2 == 0 { M::Map(m, 0) } else { M::Catch(m, 0) }); } m }
        1 => { let mut m = lit("b"); for i in 0..n { m = nd(if i % 3 == 0 { M::Map(m, 1) } else { M::Catch(m, 1) }); } nd(M::Opt(m)) }
        2 => nd(M::Map(nd(M::Loop(vec![nd(M::Map(switch(vec![re(10), lit("a")]), 0))], 0, MAX, "")), 1)),
        _ => nd(M::Loop(vec![nd(M::Catch(nd(M::Map(re(10), one_of(&[2, 3]))), one_of(&[0, 1]))), re(11)], 0, MAX, "")),
    };
    against_spec(&prog(vec![nd(M::Opt(m)), nd(M::Opt(re(11)))]), &off_at(&"b".repeat(n), &[0, 1, n - 1]));
} }
harness! { fn c19_scale() {
    // large values, many attributes, many children
    let n = one_of(&[100usize, 256, 300]);
    let t = plain("A", vec![]);
    let v = off_at(&varied(n), &[0, n - 1]);
    t.borrow_mut().set_value(&v);
    check(*t.borrow().get_value() == v, "a long value is not kept");
    t.borrow_mut().set_name(&v);
    check(*t.borrow().get_name() == v, "a long name is not kept");
    let d = one_of(&[0usize, 1, n / 2, n - 1]);
    for i in 0..n {
        let k = plain(if i == d { "B" } else { "A" }, vec![]);
        t.borrow_mut().add_child(k);
    }
    let b = t.borrow().find_child("B");
    check(t.borrow().get_children().len() == n, "the number of children is wrong");
    check(b.map(|b| std::rc::Rc::ptr_eq(&b, &t.borrow().get_children()[d])).unwrap_or(false), "find_child finds another child than the first of that name");
    for i in 0..40 {
        t.borrow_mut().set_attribute(&format!("k{}", i), &format!("v{}", i));
    }
    t.borrow_mut().set_attribute("k7", &v);
    for i in 0..40 {
        let w = if i == 7 { v.clone() } else { format!("v{}", i) };
        check(t.borrow().get_attribute(&format!("k{}", i)) == Some(&w), "get_attribute is wrong");
    }
    emit(v.as_bytes());
} }
harness! { fn c26_scale() {
    // a matcher of many parts, made part by part, one of them exchanged
    let n = one_of(&[40usize, 130]);
    let kind = choose(3);
    let mk = |k: Vec<Nd>| match kind { 0 => prog(k), 1 => switch(k), _ => nd(M::Loop(k, 0, MAX, "")) };
    let mut k: Vec<Nd> = (0..n).map(|i| if kind == 1 { nd(M::Lit(t(leak(&format!("b{}", i))), "")) } else { nd(M::Opt(lit("a"))) }).collect();
    let x = build(&mk(vec![]));
    for m in k.iter() { x.borrow_mut().add_pattern(build(m)); }
    let i = one_of(&[0, 1, n / 2, n - 1]);
    k[i] = one_of(&[0u8, 1]).eq(&0).then(|| re(11)).unwrap_or(lit("b"));
    x.borrow_mut().set_child(i, build(&k[i]));
    check(x.borrow().get_children().map(|c| c.len()) == Some(n), "the number of parts is wrong");
    let s = if kind == 1 { off_at(&format!("b{}", n - 2), &[0, 1]) } else { off_at(&"a".repeat(n), &[0, i.min(n - 1), n - 1]) };
    against(&mk(k), x, &s, (0, s.len()));
} }
harness! { fn c28_scale() {
    // many names from one file, and files that import files
    let h = "<!--[adextopa version='1']";
    let t = one_of(&["j9i8", "i8h7"]);
    if flag() {
        let n = 10;
        let mut lib = h.to_string();
        let mut main = h.to_string() + "import{";
        for i in 0..n {
            lib += &format!(" N{}=<='{}{}'>", i, (b'a' + i as u8) as char, i);
            main += &if i % 3 == 2 && i != 8 { format!("N{} as M{}", i, i) } else { format!("N{}", i) };
            main += if i + 1 < n { "," } else { "}from'lib'-->" };
        }
        lib += "-->";
        main += &pick(&["(<N@>)(?<M8>)", "(?<N9>)(<M@>)"]);
        script_files(&[("main".to_string(), main), ("lib".to_string(), lib)], t);
    } else {
        let n = 4;
        let mut f = vec![("main".to_string(), format!("{}import{{X}}from'd/f0'-->(<X>)(?<='~'>)", h))];
        f[0].1 = holes(&f[0].1);
        for i in 0..n {
            f.push((format!("d/f{}", i), format!("{}import{{X as Y}}from'../d/f{}'X=<{{(<='{}'>)(?<Y>)}}>-->(<X>)", h, i + 1, ["k", "h"][i % 2])));
        }
        f.push((format!("d/f{}", n), format!("{}X=</[0-9]+/>-->(<X>)", h)));
        script_files(&f, one_of(&["k7", "khkh10b"]));
    }
} }
harness! { fn c29_scale() {
    // wide and deep trees, long values
    let n = one_of(&[20usize, 60]);
    let m = match choose(3) {
        0 => nd(M::Loop(vec![re(10)], 0, MAX, "L")),
        1 => nest(nd(M::Loop(vec![re(10)], 0, MAX, "")), 20, 3),
        _ => prog(vec![nd(M::Lit(t(leak(&varied(n))), "")), nd(M::Opt(re(11)))]),
    };
    let s = off_at(&varied(n), &[0, n / 2, n - 1]) + "b";
    for b in s.bytes() { assume((b != b'\n') & (b != b' ')); }
    defined(&m, &s);
    if let Ok(t) = run(&build(&m), &s) { crate::own::prints(&t); }
} }
harness! { fn c30_scale() {
    // a long text, a deep stack of tokens, many names
    use adextopa_core::parser_context::ParserContext;
    let n = one_of(&[128usize, 255, 300]);
    let v = varied(n);
    let s = off_at(&format!("{}{}", v, v), &[n, n + 1, 2 * n - 1]);
    let p = adextopa_core::parser::Parser::new(&s);
    let c = ParserContext::new_with_offset(&p, adextopa_core::source_range::SourceRange::new(n, 2 * n), "A");
    let same = v == s[n..];
    check(c.borrow().matches_str(&v).is_some() == same, "a long text is wrongly (not) found at the current position");
    check(c.borrow().matches_str(&s[n..]).map(|r| (r.start, r.end)) == Some((n, 2 * n)), "a long text is not found at the current position");
    check(c.borrow().matches_str_at_offset(&v, n).map(|r| (r.start, r.end)) == if same { Some((n, 2 * n)) } else { None }, "a long text is wrongly (not) found at an offset");
    check(c.borrow().matches_str(&(s[n..].to_string() + "x")).is_none(), "a text longer than the window is found");
    let k = one_of(&[0usize, 1, 10, 200, 400]);
    check(c.borrow().debug_range(k).as_bytes() == &s.as_bytes()[n..n + if k < n { k } else { n }], "an excerpt is not the beginning of the window");
    let toks: Vec<TokenRef> = (0..50).map(|_| plain("T", vec![])).collect();
    for t in &toks { c.borrow_mut().push_token_to_stack(t.clone()); }
    for t in toks.iter().rev() {
        check(c.borrow().get_top_token_from_stack().map(|x| std::rc::Rc::ptr_eq(&x, t)).unwrap_or(false), "another token is on top of the stack");
        c.borrow_mut().pop_token_from_stack();
    }
    check(c.borrow().get_top_token_from_stack().is_none(), "a token is left on the stack");
    let ms: Vec<_> = (0..40).map(|_| build(&lit("a"))).collect();
    for (i, m) in ms.iter().enumerate() { c.borrow().register_matcher_with_name(&format!("m{}", i), m.clone()); }
    for (i, m) in ms.iter().enumerate() {
        check(c.borrow().get_registered_matcher(&format!("m{}", i)).map(|x| std::rc::Rc::ptr_eq(&x, m)).unwrap_or(false), "a registered matcher is not found");
    }
} }
harness! { fn c23_scale() {
    // long scripts, right or wrong at one place
    let s = match choose(4) {
        0 => "(<='a'>)".repeat(40),
        1 => format!("(<='{}'>)", varied(200)),
        2 => format!("<!--[adextopa version='1']{}-->(<A>)", "A=<='a'> ".repeat(20)),
        _ => "[(<='b'>)".repeat(0) + "(<{" + &"(<='a'>)".repeat(30) + "}>)",
    };
    let n = s.len();
    script(&off_at(&s, &[n / 2, n / 2 + 1, n - 2, n - 1]), "aaaa");
} }
harness! { fn c25_scale() {
    let n = one_of(&[12usize, 60]);
    let mut m = nd(M::Loop(vec![switch(vec![seq(), re(10)])], 0, MAX, ""));
    for i in 0..one_of(&[1, 8]) { m = nd(M::Debug(Some(if i % 3 == 1 { prog(vec![m]) } else { m }), [3, 0, 4, 1][i % 4])); }
    against_spec(&prog(vec![nd(M::Opt(m)), nd(M::Opt(re(11)))]), &off_at(&varied(n), &[0, n / 2, n - 1]));
} }
