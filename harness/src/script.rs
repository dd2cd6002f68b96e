//! The script language: an independent reading of a script as a tree of matchers, and harnesses
//! that compile scripts with symbolic characters and run what comes out.
use crate::core::one_off;
use crate::gen::*;
use crate::spec::*;
use crate::sx::*;
use adextopa_core::matcher::MatcherRef;
use adextopa_core::parse_error::ParseError;
use adextopa_core::scope_context::ScopeContext;
use adextopa_core::script::v1::parser::{compile_script_from_file, compile_script_from_str};
use std::rc::Rc;

pub enum Bad {
    /// not a script
    No,
    /// not specified here
    Undef,
}
type X<A> = Result<A, Bad>;
fn no<A>() -> X<A> {
    Err(Bad::No)
}
pub fn leak(s: &str) -> Name {
    Box::leak(s.to_string().into_boxed_str())
}
fn text(b: &[u8]) -> String {
    unsafe { String::from_utf8_unchecked(b.to_vec()) }
}
/// Reader of a script of ASCII characters.
pub struct Reader<'a> {
    s: &'a [u8],
    i: usize,
    scope: Sc,
    name: String,
    /// the files imports can read, the one being read, and those whose imports led here
    files: &'a [(String, String)],
    from: &'a [String],
}
fn alpha(c: u8) -> bool {
    (c >= b'a' && c <= b'z') || (c >= b'A' && c <= b'Z') || c == b'$' || c == b'_'
}
fn digit(c: u8) -> bool {
    c >= b'0' && c <= b'9'
}
fn space(c: u8) -> bool {
    c == b' ' || (c >= 9 && c <= 13)
}
impl<'a> Reader<'a> {
    fn at(&self, c: u8) -> bool {
        self.i < self.s.len() && self.s[self.i] == c
    }
    fn eat(&mut self, c: u8) -> bool {
        let r = self.at(c);
        if r {
            self.i += 1;
        }
        r
    }
    fn need(&mut self, c: u8) -> X<()> {
        if self.eat(c) {
            Ok(())
        } else {
            no()
        }
    }
    fn eat_str(&mut self, t: &str) -> bool {
        let r = self.s[self.i..].starts_with(t.as_bytes());
        if r {
            self.i += t.len();
        }
        r
    }
    fn run(&mut self, p: fn(u8) -> bool) -> &'a [u8] {
        let a = self.i;
        while self.i < self.s.len() && p(self.s[self.i]) {
            self.i += 1;
        }
        &self.s[a..self.i]
    }
    /// white space, with or without line breaks
    fn wsn(&mut self) {
        self.run(space);
    }
    fn ws(&mut self) {
        self.run(|c| space(c) && c != b'\n' && c != b'\r');
    }
    fn comment(&mut self) -> bool {
        let r = self.eat(b'#');
        if r {
            self.run(|c| c != b'\r' && c != b'\n');
        }
        r
    }
    fn ident(&mut self) -> X<String> {
        if self.i < self.s.len() && alpha(self.s[self.i]) {
            Ok(text(self.run(|c| alpha(c) || digit(c))))
        } else {
            no()
        }
    }
    /// 'text', where \ takes the next character literally
    fn string(&mut self) -> X<String> {
        self.need(b'\'')?;
        let mut v = vec![];
        while self.i < self.s.len() {
            if self.eat(b'\'') {
                return Ok(text(&v));
            }
            if self.eat(b'\\') && self.i >= self.s.len() {
                break;
            }
            v.push(self.s[self.i]);
            self.i += 1;
        }
        no()
    }
    fn number(&mut self) -> X<usize> {
        let d = self.run(digit);
        let mut v: usize = 0;
        for c in d {
            v = match v.checked_mul(10).and_then(|v| v.checked_add((*c - b'0') as usize)) {
                Some(v) => v,
                None => return no(),
            };
        }
        Ok(v)
    }
    fn repeat(&mut self) -> X<Option<(usize, usize)>> {
        if self.eat(b'*') {
            return Ok(Some((0, MAX)));
        }
        if self.eat(b'+') {
            return Ok(Some((1, MAX)));
        }
        let back = self.i;
        if !self.eat(b'{') {
            return Ok(None);
        }
        self.ws();
        let a = self.i;
        self.run(digit);
        let a_end = self.i;
        self.ws();
        let sep = self.eat(b',');
        self.ws();
        let b = self.i;
        self.run(digit);
        let b_end = self.i;
        self.ws();
        if a == a_end || !self.eat(b'}') {
            self.i = back;
            return Ok(None);
        }
        let end = self.i;
        self.i = a;
        let min = self.number()?;
        self.i = b;
        let max = if b < b_end { Some(self.number()?) } else { None };
        self.i = end;
        match (sep, max) {
            (true, Some(max)) if max < min => no(),
            (true, Some(max)) => Ok(Some((min, max))),
            (true, None) => Ok(Some((min, MAX))),
            // (`{n}` is up to n)
            (false, None) => Ok(Some((0, min))),
            (false, Some(_)) => Err(Bad::Undef),
        }
    }
    fn attributes(&mut self) -> X<Vec<(String, String)>> {
        let mut v: Vec<(String, String)> = vec![];
        loop {
            let back = self.i;
            let n = text(self.run(|c| alpha(c) && c != b'$' || digit(c) || c == b'+'));
            self.ws();
            if n.is_empty() || !self.eat(b'=') {
                self.i = back;
                return Ok(v);
            }
            self.ws();
            let x = self.string()?;
            if n.as_bytes()[0] == b'_' {
                return if n.len() == 1 { Err(Bad::Undef) } else { no() };
            }
            v.retain(|e| e.0 != n);
            v.push((n, x));
            self.wsn();
        }
    }
    fn regex(&mut self) -> X<(String, String)> {
        self.need(b'/')?;
        let a = self.i;
        loop {
            if self.i >= self.s.len() {
                return no();
            }
            let c = self.s[self.i];
            self.i += 1;
            match c {
                b'/' => break,
                b'\\' => {
                    if self.i >= self.s.len() || self.s[self.i] == b'\n' {
                        return no();
                    }
                    self.i += 1;
                }
                b'[' => loop {
                    if self.i >= self.s.len() {
                        return no();
                    }
                    let c = self.s[self.i];
                    self.i += 1;
                    if c == b']' {
                        break;
                    }
                    if c == b'\\' {
                        if self.i >= self.s.len() {
                            return no();
                        }
                        self.i += 1;
                    }
                },
                _ => {}
            }
        }
        let r = text(&self.s[a..self.i - 1]);
        let f = text(self.run(|c| c == b'i' || c == b'm' || c == b's' || c == b'U'));
        Ok((r, f))
    }
    /// One pattern definition; `name` is what it is named, by an assignment or in place.
    fn definition(&mut self, name: &str, assigned: bool) -> X<Nd> {
        let outer = if self.eat(b'?') { 1 } else if self.eat(b'!') { 2 } else { 0 };
        self.need(b'<')?;
        let inner = if self.eat(b'?') { 1 } else if self.eat(b'!') { 2 } else { 0 };
        self.wsn();
        let core = self.i;
        // first read what is around the matcher, which decides how the name applies
        self.matcher("")?;
        self.wsn();
        let attrs = self.attributes()?;
        self.need(b'>')?;
        let repeat = self.repeat()?;
        let end = self.i;
        let around = outer != 0 || inner != 0 || !attrs.is_empty() || repeat.is_some();
        self.i = core;
        let mut m = if name != "" && !(assigned && around) { self.matcher(name)? } else { self.matcher("")? };
        if assigned && around {
            // the token is named; what the name stands for is everything
            match &*m {
                M::Switch(..) | M::Ref(..) => {}
                _ => m = nd(M::Rename(m, leak(name))),
            }
        }
        self.i = end;
        if !attrs.is_empty() {
            m = nd(M::Attrs(m, attrs));
        }
        let wrap = |k, m| match k {
            1 => nd(M::Opt(m)),
            2 => nd(M::Not(m)),
            _ => m,
        };
        m = wrap(inner, m);
        if let Some((a, b)) = repeat {
            m = nd(M::Loop(vec![m], a, b, ""));
        }
        Ok(wrap(outer, m))
    }
    fn matcher(&mut self, name: &str) -> X<Nd> {
        let name = if name == "" { "" } else { leak(name) };
        if self.i >= self.s.len() {
            return no();
        }
        match self.s[self.i] {
            b'/' => {
                let (r, f) = self.regex()?;
                if r.is_empty() {
                    return no();
                }
                let known = [("[0-9]+", "", 0), ("a*", "", 1), (r"\s+", "", 2), ("ab|a", "", 4), ("a|ab", "", 5), ("k", "i", 9), ("[^a]", "", 10), ("[\\s\\S]", "", 11), ("a.b", "", 12), ("a+", "U", 13), ("a.b", "s", 14), ("a$", "m", 15), ("a$", "", 7), ("^a", "m", 6), ("a*", "m", 1), ("ab|a", "s", 4)];
                for (t, g, i) in known {
                    if t == r && g == f {
                        return Ok(nd(M::Re(i, name)));
                    }
                }
                if f == "" && r.as_bytes().iter().all(|c| digit(*c) || alpha(*c) && *c != b'$') {
                    return Ok(nd(M::ReText(r, name)));
                }
                Err(Bad::Undef)
            }
            b'=' => {
                self.i += 1;
                let t = self.string()?;
                if t.is_empty() {
                    return no();
                }
                Ok(nd(M::Lit(L::T(t), name)))
            }
            b'%' => {
                self.i += 1;
                self.wsn();
                let a = self.string()?;
                self.wsn();
                self.need(b',')?;
                self.wsn();
                let b = self.string()?;
                self.wsn();
                self.need(b',')?;
                self.wsn();
                let e = self.string()?;
                if a.is_empty() || b.is_empty() {
                    return no();
                }
                Ok(nd(M::Seq(L::T(a), L::T(b), L::T(e), name)))
            }
            b'[' => {
                self.i += 1;
                let mut k = vec![];
                loop {
                    self.wsn();
                    if self.eat(b']') {
                        break;
                    }
                    k.push(self.pattern()?);
                    self.wsn();
                    if self.eat(b'|') {
                        continue;
                    }
                    self.need(b']')?;
                    break;
                }
                if k.is_empty() { Err(Bad::Undef) } else { Ok(nd(M::Switch(k, name))) }
            }
            b'{' => {
                self.i += 1;
                let mut k = vec![];
                loop {
                    self.wsn();
                    if self.eat(b'}') {
                        break;
                    }
                    k.push(self.pattern()?);
                }
                if k.is_empty() { Err(Bad::Undef) } else { Ok(nd(M::Prog(k, name))) }
            }
            _ => {
                let t = self.ident()?;
                Ok(nd(M::Ref(L::T(t), name)))
            }
        }
    }
    /// A definition, captured or not.
    fn pattern(&mut self) -> X<Nd> {
        if !self.eat(b'(') {
            return Ok(nd(M::Discard(self.definition("", false)?)));
        }
        self.wsn();
        // (whatever the name given here, the token is named "Name")
        let mut name = "";
        if self.at(b'?') && self.i + 1 < self.s.len() && self.s[self.i + 1] == b'\'' {
            self.i += 1;
            self.string()?;
            name = "Name";
        }
        self.wsn();
        let m = self.definition(name, false)?;
        self.wsn();
        self.need(b')')?;
        Ok(m)
    }
    /// The rest of an import, behind its '{'.
    fn import(&mut self) -> X<()> {
        let mut names: Vec<(String, String)> = vec![];
        loop {
            self.wsn();
            if self.eat(b'}') {
                break;
            }
            let a = self.ident()?;
            let back = self.i;
            let mut b = None;
            if self.i < self.s.len() && space(self.s[self.i]) {
                self.wsn();
                if self.eat_str("as") && self.i < self.s.len() && space(self.s[self.i]) {
                    self.wsn();
                    b = self.ident().ok();
                }
            }
            if b.is_none() {
                self.i = back;
            }
            let back = self.i;
            self.wsn();
            if !self.eat(b',') {
                self.i = back;
            }
            names.push((a.clone(), b.unwrap_or(a)));
        }
        self.ws();
        if !self.eat_str("from") {
            return no();
        }
        self.ws();
        let path = self.string()?;
        if names.is_empty() || self.from.is_empty() {
            return no();
        }
        // the path is relative to the importing file
        let me = &self.from[self.from.len() - 1];
        let mut at: Vec<&str> = me.split('/').collect();
        at.pop();
        for c in path.split('/') {
            match c {
                "" | "." => {}
                ".." => {
                    if at.pop().is_none() {
                        return Err(Bad::Undef);
                    }
                }
                c => at.push(c),
            }
        }
        let file = at.join("/");
        // a file that (indirectly) imports itself cannot be compiled
        if self.from.iter().any(|f| *f == file) {
            return no();
        }
        let body = match self.files.iter().find(|f| f.0 == file) {
            Some(f) => &f.1,
            None => return no(),
        };
        let mut from = self.from.to_vec();
        from.push(file);
        let scope = new_scope();
        let root = Reader { s: body.as_bytes(), i: 0, scope: scope.clone(), name: "import".to_string(), files: self.files, from: &from }.script()?;
        for (a, b) in names {
            let m = if a == "_" {
                if b == "_" {
                    return no();
                }
                match &*root {
                    M::Prog(k, _) => nd(M::Prog(k.clone(), leak(&b))),
                    _ => return Err(Bad::Undef),
                }
            } else {
                match sc_get(&scope, &a) {
                    Some(Var::M(m)) => nd(M::SetScopeIn(scope.clone(), ScopeContext::new(), nd(M::Rename(m, leak(&b))))),
                    _ => return no(),
                }
            };
            set_var(&self.scope, &b, m);
        }
        Ok(())
    }
    fn header(&mut self) -> X<bool> {
        if !self.eat_str("<!--[adextopa") {
            return Ok(false);
        }
        self.ws();
        let attrs = self.attributes()?;
        self.need(b']')?;
        loop {
            self.wsn();
            if self.eat_str("-->") {
                break;
            }
            if self.comment() {
                continue;
            }
            let back = self.i;
            if self.eat_str("import") {
                self.ws();
                if self.eat(b'{') {
                    self.import()?;
                    continue;
                }
                self.i = back;
            }
            let n = self.ident()?;
            self.wsn();
            self.need(b'=')?;
            self.wsn();
            let m = match self.ident() {
                Ok(t) => nd(M::Ref(L::T(t), "")),
                Err(_) => self.definition(&n, true)?,
            };
            set_var(&self.scope, &n, m);
        }
        let mut version = false;
        for (k, v) in attrs {
            if k == "version" {
                let d = v.as_bytes();
                let d = if d.len() > 0 && d[0] == b'+' { &d[1..] } else { d };
                version = d.len() > 0 && d.len() < 19 && d.iter().all(|c| digit(*c));
            } else if k == "name" {
                if v.is_empty() {
                    return Err(Bad::Undef);
                }
                self.name = v;
            }
        }
        if version { Ok(true) } else { no() }
    }
    fn script(mut self) -> X<Nd> {
        loop {
            self.wsn();
            if !self.comment() {
                break;
            }
        }
        let mut any = self.header()?;
        let mut k = vec![];
        loop {
            self.wsn();
            if self.i >= self.s.len() {
                break;
            }
            any = true;
            if !self.comment() {
                k.push(self.pattern()?);
            }
        }
        if !any {
            return no();
        }
        let body = nd(M::Proxy(prog(k), ""));
        Ok(nd(M::Prog(vec![nd(M::SetScopeIn(self.scope, ScopeContext::new(), body))], leak(&self.name))))
    }
}
pub fn read(s: &str, name: &str) -> X<Nd> {
    Reader { s: s.as_bytes(), i: 0, scope: new_scope(), name: name.to_string(), files: &[], from: &[] }.script()
}
pub fn compile(s: &str) -> Result<MatcherRef, Vec<ParseError>> {
    compile_script_from_str(s, "S".to_string(), 0)
}
pub fn rejected(e: &[ParseError], s: &str) {
    check(e.len() > 0, "a script was rejected without any error");
    for x in e {
        check(x.message != "", "a script was rejected with an empty message");
        if let Some(r) = &x.range {
            check(r.start <= r.end && r.end <= s.len(), "a script error lies outside the script");
        }
        emit(x.message.as_bytes());
    }
}
/// Compile the script, and hold the verdict and the meaning against the reading above.
pub fn script(s: &str, t: &str) {
    let real = compile(s);
    let spec = read(s, "S");
    verdict(real, spec, s, t)
}
/// The same for the first of the files.
pub fn script_files(files: &[(String, String)], t: &str) {
    for (n, b) in files {
        file(n, b.as_bytes());
    }
    let name = &files[0].0;
    let real = compile_script_from_file(name, 0);
    let from = [name.clone()];
    let spec = Reader { s: files[0].1.as_bytes(), i: 0, scope: new_scope(), name: name.clone(), files, from: &from }.script();
    match (real, spec) {
        (Err(e), Err(Bad::No)) => {
            // errors can come from any of the files, with paths that depend on where they are
            cover(5);
            check(e.len() > 0, "a script was rejected without any error");
            for x in e {
                check(x.message != "", "a script was rejected with an empty message");
            }
        }
        (r, s) => verdict(r, s, &files[0].1, t),
    }
}
pub fn verdict(real: Result<MatcherRef, Vec<ParseError>>, spec: X<Nd>, s: &str, t: &str) {
    match (real, spec) {
        (_, Err(Bad::Undef)) => prune(),
        (Ok(_), Err(_)) => fail("a text that is no script was accepted"),
        (Err(e), Ok(_)) => {
            emit(e[0].message.as_bytes());
            fail("a valid script was rejected")
        }
        (Err(e), Err(_)) => {
            cover(5);
            rejected(&e, s)
        }
        (Ok(real), Ok(m)) => {
            cover(4);
            against(&m, real, t, (0, t.len()));
        }
    }
}
/// The script with '@' replaced by any ASCII character, '~' by a, b or c, '^' by white space,
/// '`' by white space that is no line break.
pub fn holes(s: &str) -> String {
    let mut v = Vec::with_capacity(s.len());
    for c in s.bytes() {
        v.push(match c {
            b'@' => {
                let b = byte();
                assume(b < 128);
                b
            }
            b'~' => {
                let b = byte();
                assume(b >= b'a');
                assume(b <= b'c');
                b
            }
            b'^' => {
                let b = byte();
                assume((b == b' ') | (b >= 9) & (b <= 13));
                b
            }
            b'`' => {
                let b = byte();
                assume((b == b' ') | (b == 9) | (b == 11) | (b == 12));
                b
            }
            c => c,
        });
    }
    text(&v)
}
pub fn pick(l: &[&str]) -> String {
    holes(l[choose(l.len() as u8) as usize])
}

// ------------------------------------------------------------------ C22 what a script means
harness! { fn c22_literal() {
    script(&pick(&["(<='@@'>)", "(<='a@'>)(<='~'>)", "(?'@'<='@'>)"]), &ascii(2 + tier()));
} }
harness! { fn c22_sequence() {
    script(&pick(&["(<%'(','@','@'>)", "(<% '@@' , ')','\\\\'>)", "(<%'@',@'b',''>)"]), &ascii(4 + tier()));
} }
harness! { fn c22_regex() {
    script(&pick(&["(</~~/>)", "(</[0-9]+/>)(</~/>)", "(</k/@>)", "(</[^a]/>)(</a.b/>)", "(</ab|a/>)(<='b'>)", "(</a*/>)(</\\s+/>)", "(</[\\s\\S]/>*)(</a|ab/ >)"]), &ascii(3 + tier()));
} }
harness! { fn c22_flags() {
    // flags change what an expression matches, and nothing else follows an expression
    script(&pick(&["(</a+/@>)", "(</a.b/@>)", "(</a$/@>)</\\s+/>", "(</^a/@>)(</k/@>)", "(</ab|a/s@>)"]), &ascii(3 + tier()));
} }
harness! { fn c22_modifiers() {
    let full = ["(@<@='a'>@)(<='b'>)", "@<@='a'>@(<='b'>)", "(<='b'>)(@<@{(<='a'>)(<='b'>)}>@)", "(<='b'>)(@<@[(<='a'>)|(<='b'>)]>@)"];
    let quick = ["(@<@='a'>)(<='b'>)", "(@<='a'>@)(<='b'>)", "(<@='a'>@)(<='b'>)", "@<@='a'>(<='b'>)", "(<='b'>)(@<{(<='a'>)(<='b'>)}>@)", "(<='b'>)(<@[(<='a'>)|(<='b'>)]>@)"];
    script(&pick(if tier() > 0 { &full } else { &quick }), &ascii(3));
} }
harness! { fn c22_repeat() {
    script(&pick(&["(<='a'>{@@})", "(<='a'>{@,@})", "(<='a'>{1@2})", "(?<!='b'>{1,@})(<='b'>)", "(<{(<='a'>)(<='b'>)}>{@,})"]), &if tier() > 0 { ascii(4) } else { "aa".to_string() + &ascii(2) });
} }
harness! { fn c22_numbers() {
    // numbers of many digits: any bound a machine word can hold
    fn d(n: usize, first: u8) -> String {
        // (two of the digits are symbolic)
        let mut v = vec![];
        for i in 0..n {
            v.push(if i == 0 || i + 1 == n {
                let b = byte();
                assume(b >= if i == 0 { first } else { b'0' });
                assume(b <= b'9');
                b
            } else {
                b"37915"[i % 5]
            });
        }
        text(&v)
    }
    let n = [3, 5, 6, 10, 11, 18, 19][choose(7) as usize];
    let s = match choose(6) {
        // (a repetition without bound in the text is cut short by its maximum only)
        0 => "(<='a'>{0,".to_string() + &d(n, b'1') + "})",
        1 => "(<='a'>{2,".to_string() + &d(n, b'1') + "})",
        2 => "(<='a'>{".to_string() + &d(n, b'1') + ",})",
        3 => "(?<='a'>{".to_string() + &d(n, b'1') + "," + &d(n, b'9') + "})",
        4 => "(<='a'>{000000000000000000000".to_string() + &d(1, b'0') + "," + &"0".repeat(n) + "3})",
        _ => "(<='a'>{1,1844674407370955161".to_string() + &d(1, b'0') + "})",
    };
    script(&s, &("aa".to_string() + &ascii(1)));
} }
harness! { fn c22_nested() {
    script(&pick(&[
        "(<[(<='~'>)|(<='~~'>)]>)",
        "(<[(?'x'<='~'>)|<='~'>|(<{(<='a'>)<='~'>}>)]>)(<='a'>)",
        "(<{(<='~'>)(<[(<='~'>)|(<='b'>)]>)}>)",
        "(<{<='a'>(<='~'>)}>+)",
        "<{(<='a'>)(<='~'>)}>(<[<='a'>|(<='b'>)]>)",
        "(<[(<{(<='a'>)(<='~'>)}>)|(<{(<='a'>)(!<='a'>)}>)]>*)",
        "(<{(?<='~'>)(<='a'>*)(<='b'>)}>)",
        "(?<{(<='a'>)(<?='~'>)}>)(</[\\s\\S]/>)",
        "(<![(<='a'>)|(<='~'>)]>)(</[\\s\\S]/>*)",
        "(<{(?'y'<{(<='a'>)(<='~'>)}>)}>)",
    ]), &ascii(3 + tier()));
} }
harness! { fn c22_attributes() {
    script(&pick(&[
        "(<='a' @='@'>)",
        "(<='a' x@@x'>)",
        "(<='a' x='@@' y='1'>)",
        "(<{(<='a' x='~'>)(<='b'>)}y='@'>)",
        "(<[(<='a' x='1'>)|(<='b'>)] x='2'>)",
        "(<%'(',')','' x='@'>)",
        "(<='a' x='1'@y='2'>+)",
        "(?<='a' x='~'\ny='2'\n>)(<='b' x='z'>)",
    ]), &ascii(3 + tier()));
} }
harness! { fn c22_header() {
    let two = ["<!--[adextopa version='@']-->(<='a'>)", "<!--[adextopa version='1' name='@@']-->(<='a'>)", "<!--[adextopa name='x' version='@@' name='y']-->(<='a'>)", "<!--[adextopa@version='1'@]-->(<='a'>)"];
    let one = ["<!--[adextopa version='@']-->(<='a'>)", "<!--[adextopa version='1' name='@b']-->(<='a'>)", "<!--[adextopa name='x' version='@' name='y']-->(<='a'>)", "<!--[adextopa@version='1']-->(<='a'>)", "<!--[adextopa version='1'@]-->(<='a'>)"];
    script(&pick(if tier() > 0 { &two[..] } else { &one[..] }), &ascii(1));
} }

harness! { fn c22_long() {
    // larger scripts and numbers, and texts that differ in one character
    let l = [
        ("(<='ab'>{10,12})(</[0-9]+/>?)", "abababababababababababab1"),
        ("(<='a'>{3,10})(<='b'>{0,3})(</[\\s\\S]/>*)", "aaaaaaaaaaabbbb"),
        ("(<='a'>{10})(<='b'>+)", "aaaaaaaaaabb"),
        ("(<{(?<='-'>)(<[(<{(<='('>)(</[0-9]+/>)(<=')'>)}>)|(</[0-9]+/ x='n'>)]y='s'>)(<?='+'>*)}>+)", "-(12)+34++(5)"),
        ("(<%'\\'','\\'','\\\\' k='v'>)</\\s+/>(<='it\\'s'>)", "'a\\'b' it's"),
        ("(<{(<='a'>)(!<='b'>)(</[\\s\\S]/>)}>{2,4})(?<{(<='b'>)}>+)", "axacabaaxbb"),
        ("<='<'>(</[0-9]+/ x='1' y='2' z='3'>)<?=','>(<[<{(<='c'>)(<='d'>)}>|(<='cx'>)|(<='c'>)]>)<='>'>", "<12,cd>"),
    ];
    let (s, t) = l[choose(if tier() > 0 { l.len() } else { 5 } as u8) as usize];
    script(s, &one_off(t));
} }

// ------------------------------------------------------------------ C23 every text is compiled or rejected
harness! { fn c23_short() {
    script(&ascii(choose(4) as usize), "a");
} }
fn mutate(l: &[&str]) -> String {
    // one character replaced, inserted or left out, anywhere
    let s = l[choose(l.len() as u8) as usize];
    let i = choose(s.len() as u8) as usize;
    // quick: left out only in the thorough tier (a space in its place does most of what leaving it out does)
    match choose(2 + tier() as u8) {
        0 => holes(&(s[..i].to_string() + "@" + &s[i + 1..])),
        1 => holes(&(s[..i].to_string() + "@" + &s[i..])),
        _ => s[..i].to_string() + &s[i + 1..],
    }
}
harness! { fn c23_mutate_pattern() {
    script(&mutate(&["(?'x'?<%'(',')',''>+)", "!</a/i x='1'>", "(<='a'>)"][..1 + 2 * tier()]), "(a)");
} }
harness! { fn c23_mutate_nest() {
    script(&mutate(&["(<[(<='a'>)|<{<b>}>]>{1,2})", "(<[(<='a'>)|<b>]>)", "(<{<a>(<='b'>)}>{1,2})"][..1 + 2 * tier()]), "ab");
} }
harness! { fn c23_mutate_header() {
    script(&mutate(&["<!--[adextopa version='1']#c\nA=<='a'>-->(<A>)", "<!--[adextopa version='1']#c\nA=<='a'>B=A-->(<B>)"][..1 + tier()]), "a");
} }
harness! { fn c23_errors() {
    // what cannot be compiled is reported, not run
    script(&pick(&["(<=''>)", "(<%'','b','c'>)", "(<%'a','','c'>)", "(<//>)", "(<//i>)", "(<='a'>{2,1})", "(<='a'>{99999999999999999999})", "(<='a' _x='1'>)", "(<='a' x=1>)", "(<{(<='a'>)(<=''>)}>)", "(<[(<='a'>)|(<//>)]>)",
        "<!--[adextopa]-->(<='a'>)", "<!--[adextopa version='x']-->(<='a'>)", "<!--[adextopa version='1']A=<=''>-->(<='a'>)", "# c\n", "<!--[adextopa version='1']--> x", "(<='a'>) x", "<!--[adextopa version='1' _a='']-->(<='a'>)", "(<='a'>)\n\n(<='b'"]), "a");
} }
harness! { fn c23_flags() {
    // asking for errors to be printed does not change the verdict
    let s = pick(&["(<='a@>)", "(<='a' _x='1'>)", "(<=''>)", "<!--[adextopa version='@']-->(<='a'>)", "(<='a'>) x", "(<='a' x=1>)"]);
    match (compile(&s), compile_script_from_str(&s, "S".to_string(), 1)) {
        (Ok(_), Ok(m)) => { verdict(Ok(m), read(&s, "S"), &s, "a"); }
        (Err(a), Err(b)) => {
            rejected(&b, &s);
            check(a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| x.message == y.message && x.range == y.range), "other errors when they are also printed");
        }
        _ => fail("printing errors changes the verdict"),
    }
} }
harness! { fn c23_regex() {
    // any regular expression is compiled or reported
    let s = holes(["(</a@/>)", "(</[@]/>)", "(</@/>)", "(</(@/>)", "(</@@/>)"][choose(2 + 3 * tier() as u8) as usize]);
    match compile(&s) {
        Ok(_) => cover(4),
        Err(e) => rejected(&e, &s),
    }
} }

// ------------------------------------------------------------------ C24 names
harness! { fn c24_refs() {
    let h = "<!--[adextopa version='1']";
    let b = pick(&[
        "A=<='a'>B=<='b'>-->(<~>)(<A>)(<@>)",
        "A=<='a'>\nB=@\n-->(<B>)(<A>)",
        "@=<='a'>B=<='b'>A=<='c'>-->(<A>)(<B>)(<A>)",
        "B=A A=<='~'>-->(<A>)(<B>)",
        "A=<B>B=<='~'>-->(<A>)(<B>)(<A>)",
        "A=<B>@B=<='a'>-->(<A>)(<A>)(<B>)",
    ]);
    script(&(h.to_string() + &b), &ascii(3 + tier()));
} }
harness! { fn c24_stable() {
    // a name stands for its whole definition at every use
    let h = "<!--[adextopa version='1']";
    let b = pick(&[
        "A=<='a'>@-->(<A>)(<='b'>)(<A>)",
        "A=@<='a'>-->(<A>)(<='b'>)(<A>)",
        "A=<@='a'>+-->(<A>)(<='b'>)(<A>)",
        "A=<='a' x='~'>-->(<A>)(<A>)(<='b'>)",
        "A=<{(<='a'>)(<='~'>)}>@-->(<A>)(<A>)",
        "A=<[(<='a'>)|(<='~'>)]>{2}-->(<A>)(<A>)",
        "A=</a/>+-->(<A>)<='b'>(<A>)",
        "A=<%'(',')',''>@-->(<A>)(<A>)",
        "A=<B>+B=<[(<='a'>)|(<='~'>)]x='1'>-->(<A>)(<B>)",
    ]);
    script(&(h.to_string() + &b), &ascii(4 + tier()));
} }
harness! { fn c24_recursive() {
    let h = "<!--[adextopa version='1']";
    let b = pick(&[
        "A=<[(<{(<='('>)(<A>)(<=')'>)}>)|(<='a'>)]>-->(<A>)",
        "A=<{(<='a'>)(?<A>)}>-->(<A>)",
        "A=<{(<='a'>)(<?A>)}x='1'>-->(<A>)",
        "A=<[(<{(<='a'>)(<B>)}>)|(<='~'>)]>B=<[(<{(<='b'>)(<A>)}>)|(<='c'>)]>-->(<A>)",
        "A=<[(<='a'>)|(<{(<='('>)(<A>)(<=')'>)}>)]>+-->(<A>)",
    ]);
    script(&(h.to_string() + &b), &ascii(4 + tier()));
} }
harness! { fn c24_unknown() {
    // a name that stands for nothing is an error when it is used, and only then
    script(&pick(&["(<='a'>)(<@>)", "<!--[adextopa version='1']A=B-->(<='a'>)(?<A>)", "(<[(<='a'>)|(<~>)]>)"]), &ascii(2));
} }

harness! { fn c24_many() {
    // longer chains of names, names that begin alike, and names assigned twice
    let h = "<!--[adextopa version='1']";
    let b = pick(&[
        "A=B B=C C=D D=<{(<E>)(?<F>)}x='1'>E=<='a'>F=<='~'>-->(<A>)(<C>)",
        "A=<='a'>AB=<='b'>ABC=<='c'>A1=<{(<ABC>)(<A>)}>$=<='$'>_=<='_'>-->(<AB>)(<A1>)(<A>)(?<$>)(?<_>)",
        "Aa=<='a'>aA=<='b'>-->(<Aa>)(<aA>)(<@a>)",
        "A=<='a'>A=<='b'>-->(<A>)(<A>)",
        "A=<='a'>B=A A=<='~'>-->(<A>)(<B>)",
        "Expr=<{(<Term>)(<{<='+'>(<Term>)}>*)}>Term=<[(</[0-9]+/>)|(<{<='('>(<Expr>)<=')'>}>)]>-->(<Expr>)",
    ]);
    let t = ["aaabb", "bcaa$_", "abab", "bba", "aab", "1+(2+3)"][choose(6) as usize];
    script(&(h.to_string() + &b), &one_off(t));
} }
harness! { fn c24_names() {
    // any characters a name can have, in every place of it, where it is given and where it is used
    let h = "<!--[adextopa version='1']";
    let b = pick(&[
        "a@b=<='a'>a$b=<='b'>-->(<a$b>)",
        "a$b=<='a'>a_1=<='b'>-->(<a@b>)",
        "A@=<='a'>A=<='b'>-->(<A>)(<A1>)",
        "A1=<='a'>A=<='b'>-->(<A@>)(?<A>)",
        "A12z_$Z9=<='a'>-->(<A12z_$Z9>)(<A12z_$Z@>)",
        "$@=<='a'>_1=<='b'>-->(?<$1>)(?<_@>)",
        "A=B@ B1=<='a'>B=<='b'>-->(<A>)",
    ]);
    script(&(h.to_string() + &b), &ascii(2));
} }

// ------------------------------------------------------------------ C27 layout
/// The script `s` must mean what `plain` means.
fn layout(s: &str, plain: &str, t: &str) {
    match (compile(s), read(plain, "S")) {
        (Ok(real), Ok(m)) => {
            against(&m, real, t, (0, t.len()));
        }
        (Err(e), _) => {
            emit(e[0].message.as_bytes());
            fail("a script is rejected because of its white space or comments")
        }
        _ => fail("the harness is wrong"),
    }
}
const LAYOUT: &[(&str, &str)] = &[
    ("^(^<='a'>^)^(<='b'>)^", "(<='a'>)(<='b'>)"),
    ("(<^='a'^>)^<^/b/^>^", "(<='a'>)</b/>"),
    ("(^?'x'^<='a'>^)", "(?'x'<='a'>)"),
    ("(<%^'('^,^')'^,^''^>)", "(<%'(',')',''>)"),
    ("(<='a'^x='1'^y='2'^>)", "(<='a' x='1' y='2'>)"),
    ("(<[^(<='a'>)^|^(<='b'>)^]>)", "(<[(<='a'>)|(<='b'>)]>)"),
    ("(<{^(<='a'>)^(<='b'>)^}>)", "(<{(<='a'>)(<='b'>)}>)"),
    ("(<='a'>{`1`,`2`})", "(<='a'>{1,2})"),
    ("(<='b'>{`2`,`})", "(<='b'>{2,})"),
    ("(<='a' x`=`'1' y`=`'2'^>)", "(<='a' x='1' y='2'>)"),
    ("^<!--[adextopa`version`=`'1'^]^A^=^<='a'>^B^=^A^-->^(<B>)^", "<!--[adextopa version='1']A=<='a'>B=A-->(<B>)"),
];
harness! { fn c27_space() {
    let (s, p) = LAYOUT[choose(LAYOUT.len() as u8) as usize];
    // quick: two characters of white space in one place, all others empty or filled alike
    let s = if tier() > 0 {
        s.to_string()
    } else {
        let n = s.bytes().filter(|c| *c == b'^' || *c == b'`').count();
        let (k, f) = (choose(n as u8) as usize, choose(2) as usize);
        let mut i = 0;
        let mut o = String::new();
        for c in s.chars() {
            if c == '^' {
                o += if i == k { "^^" } else { ["", " \n"][f] };
                i += 1;
            } else if c == '`' {
                o += if i == k { "``" } else { [" ", "\t "][f] };
                i += 1;
            } else {
                o.push(c);
            }
        }
        o
    };
    layout(&holes(&s), p, &ascii(2));
} }
harness! { fn c27_import() {
    let t = ["<!--[adextopa version='1']import`{^A^,^B as C^}`from`'lib'^-->(<A>)(<C>)", "<!--[adextopa version='1']^import`{^B`as`A^}`from`'lib'^B=A-->(<A>)(<B>)"][choose(2) as usize];
    let n = t.bytes().filter(|c| *c == b'^' || *c == b'`').count();
    let k = choose(n as u8) as usize;
    let f = choose(1 + tier() as u8) as usize;
    let mut s = String::new();
    let mut plain = String::new();
    let mut i = 0;
    for c in t.chars() {
        if c == '^' || c == '`' {
            s += if i != k { [" ", "\t "][f] } else if c == '^' { "^^" } else { "``" };
            plain += " ";
            i += 1;
        } else {
            s.push(c);
            plain.push(c);
        }
    }
    let lib = "<!--[adextopa version='1']A=<='a'>B=<='b'>-->(<A>)";
    let s = holes(&s);
    let files = [("main".to_string(), plain), ("lib".to_string(), lib.to_string())];
    let from = ["main".to_string()];
    let m = match (Reader { s: files[0].1.as_bytes(), i: 0, scope: new_scope(), name: from[0].clone(), files: &files, from: &from }).script() { Ok(m) => m, Err(_) => fail("the harness is wrong") };
    file("main", s.as_bytes());
    file("lib", lib.as_bytes());
    match compile_script_from_file("main", 0) {
        Ok(real) => {
            let x = ascii(2);
            against(&m, real, &x, (0, 2));
        }
        Err(e) => {
            emit(e[0].message.as_bytes());
            fail("a script is rejected because of its white space")
        }
    }
} }
harness! { fn c27_comments() {
    // a comment holds any text up to the end of its line
    let c = ascii(1 + tier());
    for b in c.bytes() {
        assume((b != b'\n') & (b != b'\r'));
    }
    let p = "<!--[adextopa version='1']A=<='a'>-->(<A>)(<='b'>)";
    let e = if flag() { "\n" } else { "\r" };
    let s = match choose(6) {
        0 => format!("#{}{}{}", c, e, p),
        1 => format!("{}#{}", p, c),
        2 => format!("{}#{}{}", p, c, e),
        3 => format!("<!--[adextopa version='1']#{}{}A=<='a'>-->(<A>)(<='b'>)", c, e),
        4 => format!("<!--[adextopa version='1']A=<='a'>#{}{}#{}{}-->(<A>)(<='b'>)", c, e, c, e),
        _ => format!("<!--[adextopa version='1']A=<='a'>-->#{}{}(<A>)#x{}(<='b'>)", c, e, e),
    };
    layout(&s, p, &ascii(2));
} }

// ------------------------------------------------------------------ C28 imports
pub fn fs(l: &[(&str, &str)]) -> Vec<(String, String)> {
    l.iter().map(|(a, b)| (a.to_string(), holes(b))).collect()
}
harness! { fn c28_named() {
    let lib = "<!--[adextopa version='1']A=<='a'>+B=<[<A>|(<='~'>)]x='1'>-->(<B>)(<A>)";
    let main = pick(&[
        "<!--[adextopa version='1']import{A}from'lib'-->(<A>)(<='b'>)",
        "<!--[adextopa version='1']import { A as C, B } from 'lib'\n-->(<B>)(<C>)",
        "<!--[adextopa version='1']import{@ as C}from'lib'-->(<C>)(<='b'>)",
        "<!--[adextopa version='1']import{@}from'lib'A=<='b'>-->(<A>)(<='b'>)",
        "<!--[adextopa version='1']import{_ as C,A}from'lib'-->(<A>)(<C>)",
        "<!--[adextopa version='1']import{_ as C,_ as D}from'lib'-->(<[(<{(<C>)(<='b'>)}>)|(<D>)]>)",
        "<!--[adextopa version='1']A=<='b'>import{B}from'lib'-->(<B>)(<A>)",
        "<!--[adextopa version='1']import{B as A}from'lib'B=A-->(<B>)(<@>)",
        "<!--[adextopa version='1']import{A as _}from'lib'-->(<_>)(?<A>)",
        "<!--[adextopa version='1']import{B as _,_ as B1$}from'lib'-->(<[(<B1$>)|(<_>)|(<@>)]>)",
    ]);
    script_files(&[("main".to_string(), main), ("lib".to_string(), holes(lib))], &ascii(3 + tier()));
} }
harness! { fn c28_paths() {
    // paths are relative to the file they stand in
    let h = "<!--[adextopa version='1']";
    let p = ["b", "./b", "../b", "d/b", "./d/../d/b", "../d/b", "d", "b/../b", "x/../b"][choose(9) as usize];
    let f = [
        ("d/main", format!("{}import{{X}}from'{}'-->(<X>)", h, p)),
        ("d/b", format!("{}import{{X as Y}}from'../b'X=<{{(<='~'>)(?<Y>)}}>-->(<X>)", h)),
        ("d/d/b", format!("{}import{{_ as X}}from'../b'-->(<X>)", h)),
        ("b", format!("{}X=<='~'>-->(<X>)", h)),
    ];
    let f: Vec<(String, String)> = f.iter().map(|(a, b)| (a.to_string(), holes(b))).collect();
    if p == "b/../b" || p == "d" {
        // a file is no directory and a directory no file
        for (n, b) in f.iter() {
            file(n, b.as_bytes());
        }
        check(p == "d" || compile_script_from_file(&f[0].0, 0).is_err(), "a path through a file was accepted");
        return;
    }
    if p == "x/../b" {
        for (n, b) in f.iter() {
            file(n, b.as_bytes());
        }
        check(compile_script_from_file(&f[0].0, 0).is_err(), "a path through a missing directory was accepted");
        return;
    }
    script_files(&f, &ascii(2 + tier()));
} }
harness! { fn c28_scopes() {
    // what is imported uses the names of the file it comes from, and leaves those of the importing one alone
    let h = "<!--[adextopa version='1']";
    let lib = h.to_string() + &pick(&["A=<='a'>B=<{(<A>)(<='~'>)}>-->(<B>)", "B=<{(?<='~'>)(<A>)}>-->(<B>)", "B=A A=<='~'>+-->(<B>)", "import{A,B as C}from'low'B=<{(<A>)(?<C>)}>-->(<B>)"]);
    let main = h.to_string() + &pick(&["import{B}from'lib'A=<='b'>-->(<B>)(<A>)", "A=<='b'>import{B}from'lib'-->(<A>)(<B>)(<A>)", "import{_ as B}from'lib'A=<='b'>-->(<B>)(<A>)", "import{B as A}from'lib'-->(<A>)(?<B>)"]);
    let low = h.to_string() + "A=<='a'>B=<[(<='b'>)|(<A>)]>-->";
    script_files(&[("main".to_string(), main), ("lib".to_string(), lib), ("low".to_string(), low)], &ascii(3 + tier()));
} }
harness! { fn c28_rejected() {
    // an import that cannot be satisfied is an error, in any file, used or not
    let h = "<!--[adextopa version='1']";
    let main = pick(&[
        "import{A}from'none'-->(<='a'>)",
        "import{C}from'lib'-->(<='a'>)",
        "import{A,@}from'lib'-->(<='a'>)",
        "import{_}from'lib'-->(<='a'>)",
        "import{_ as _}from'lib'-->(<='a'>)",
        "import{}from'lib'-->(<='a'>)",
        "import{A}from'bad'-->(<='a'>)",
        "import{A}from'far'-->(<='a'>)",
        "import{A}from'main'A=<='a'>-->(<='a'>)",
        "import{A}from'loop'A=<='a'>-->(<='a'>)",
        "import{A as}from'lib'-->(<='a'>)",
        "import{A,,B}from'lib'-->(<='a'>)",
        "import{A B}from'lib'-->(<A>)",
        "import A from'lib'-->(<='a'>)",
        "import{A}from lib-->(<='a'>)",
        "import{A from'lib'-->(<='a'>)",
        "import{A}'lib'-->(<='a'>)",
        "import{A@}from'lib'-->(<A>)",
        "import{A}@from@'lib'-->(<A>)",
    ]);
    script_files(
        &[
            ("main".to_string(), h.to_string() + &main),
            ("lib".to_string(), h.to_string() + "A=<='a'>B=A-->(<A>)"),
            ("bad".to_string(), h.to_string() + "A=<='a'>B=<=''>-->(<A>)"),
            ("far".to_string(), h.to_string() + "import{A}from'bad'-->(<A>)"),
            ("loop".to_string(), h.to_string() + "import{A}from'main'-->(<A>)"),
        ],
        &ascii(1),
    );
} }
harness! { fn c28_files() {
    // the script itself: read from a file, or refused; imports need a file
    let b: Vec<u8> = vec![byte(), byte()];
    match choose(4) {
        0 => {
            check(compile_script_from_file("none", 0).is_err(), "a missing file was compiled");
        }
        1 => {
            let mut v = b"(<='".to_vec();
            v.extend(&b);
            v.extend(b"'>)");
            file("main", &v);
            let r = compile_script_from_file("main", 0);
            if std::str::from_utf8(&v).is_err() {
                check(r.is_err(), "a file that is no text was compiled");
            } else if b[0] < 128 && b[1] < 128 {
                verdict(r, read(&text(&v), "main"), &text(&v), &ascii(2));
            }
        }
        2 => {
            file("x", b"<!--[adextopa version='1']A=<='a'>-->(<A>)");
            check(compile("<!--[adextopa version='1']import{A}from'x'-->(<A>)").is_err(), "an import without a file was accepted");
        }
        _ => {
            file("d/x", b"(<='a'>)");
            script_files(&[("d/x".to_string(), "(<='a'>)".to_string())], &ascii(1));
        }
    }
} }
