mod exec;
mod expr;
mod fx;
mod ll;
mod mem;
mod z3;

use exec::*;
use std::collections::{BTreeMap, VecDeque};
use std::fmt::Write as _;
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(code: i32) -> !;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

#[derive(Default, Clone)]
struct Res {
    done: u64,
    pruned: u64,
    fails: BTreeMap<(String, String), (u64, Vec<Vec<u8>>)>,
    errors: Vec<String>,
    nerrors: u64,
    samples: Vec<(Vec<u8>, Vec<u8>)>,
    covers: u128,
    steps: u64,
    forks: u64,
    queries: u64,
    sat: u64,
    unsat: u64,
    qhits: u64,
    z3_us: u64,
    max_path: u64,
    max_vars: u64,
    timeout: bool,
    left: u64,
    fns: BTreeMap<String, u64>,
    sites: BTreeMap<String, u64>,
}

fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    s
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

impl Res {
    fn path(&mut self, st: &State, end: &End, cap: usize, rng: &mut u64) {
        self.max_path = self.max_path.max(st.steps);
        self.max_vars = self.max_vars.max(st.nvars as u64);
        match end {
            End::Done => {
                self.done += 1;
                self.covers |= st.covers;
                // reservoir of completed paths for native re-execution
                *rng = rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                if self.samples.len() < cap {
                    self.samples.push((st.model_bytes(), st.emit_bytes()));
                } else if cap > 0 {
                    let i = ((*rng >> 33) % self.done) as usize;
                    if i < cap {
                        self.samples[i] = (st.model_bytes(), st.emit_bytes());
                    }
                }
            }
            End::Pruned => self.pruned += 1,
            End::Fail(k, m) => {
                let e = self.fails.entry((k.clone(), m.clone())).or_insert((0, vec![]));
                e.0 += 1;
                if e.1.len() < 4 {
                    e.1.push(st.model_bytes());
                }
            }
            End::Error(m) => {
                self.nerrors += 1;
                if self.errors.len() < 5 {
                    self.errors.push(format!("{} [input {}]", m, hex(&st.model_bytes())));
                }
            }
        }
    }
    fn finish(&mut self, ex: &Ex) {
        self.steps = ex.steps;
        self.forks = ex.forks;
        self.queries = ex.z3.queries;
        self.sat = ex.z3.sat;
        self.unsat = ex.z3.unsat;
        self.qhits = ex.qhits;
        self.z3_us = ex.z3.time.as_micros() as u64;
        for f in ll::pg().fns.iter() {
            if f.calls > 0 {
                *self.fns.entry(String::from_utf8_lossy(f.name).into_owned()).or_insert(0) += f.calls;
            }
        }
        for ((f, b, i), n) in ex.fork_sites.iter() {
            let nm = String::from_utf8_lossy(ll::pg().fns[*f as usize].name).into_owned();
            *self.sites.entry(format!("{}:{}:{}", nm, b, i)).or_insert(0) += n;
        }
    }
    fn ser(&self) -> String {
        let mut s = String::new();
        let _ = writeln!(
            s,
            "N {} {} {} {} {} {} {} {} {} {} {} {} {} {} {}",
            self.done, self.pruned, self.nerrors, self.steps, self.forks, self.queries, self.sat, self.unsat, self.qhits, self.z3_us, self.max_path, self.max_vars, self.timeout as u8, self.left, self.covers
        );
        for ((k, m), (n, v)) in &self.fails {
            let v: Vec<String> = v.iter().map(|x| format!("x{}", hex(x))).collect();
            let _ = writeln!(s, "F {} {} {} {}", hex(k.as_bytes()), hex(m.as_bytes()), n, v.join(" "));
        }
        for e in &self.errors {
            let _ = writeln!(s, "E {}", hex(e.as_bytes()));
        }
        for (a, b) in &self.samples {
            let _ = writeln!(s, "S x{} x{}", hex(a), hex(b));
        }
        for (a, b) in &self.fns {
            let _ = writeln!(s, "C {} {}", a, b);
        }
        for (a, b) in &self.sites {
            let _ = writeln!(s, "K {} {}", a, b);
        }
        s
    }
    fn merge(&mut self, t: &str) {
        for l in t.lines() {
            let w: Vec<&str> = l.split(' ').collect();
            match w[0] {
                "N" => {
                    let n = |i: usize| w[i].parse::<u64>().unwrap();
                    self.done += n(1);
                    self.pruned += n(2);
                    self.nerrors += n(3);
                    self.steps += n(4);
                    self.forks += n(5);
                    self.queries += n(6);
                    self.sat += n(7);
                    self.unsat += n(8);
                    self.qhits += n(9);
                    self.z3_us += n(10);
                    self.max_path = self.max_path.max(n(11));
                    self.max_vars = self.max_vars.max(n(12));
                    self.timeout |= n(13) == 1;
                    self.left += n(14);
                    self.covers |= w[15].parse::<u128>().unwrap();
                }
                "F" => {
                    let k = String::from_utf8_lossy(&unhex(w[1])).into_owned();
                    let m = String::from_utf8_lossy(&unhex(w[2])).into_owned();
                    let e = self.fails.entry((k, m)).or_insert((0, vec![]));
                    e.0 += w[3].parse::<u64>().unwrap();
                    for x in &w[4..] {
                        if e.1.len() < 6 && !x.is_empty() {
                            e.1.push(unhex(&x[1..]));
                        }
                    }
                }
                "E" => {
                    if self.errors.len() < 8 {
                        self.errors.push(String::from_utf8_lossy(&unhex(w[1])).into_owned());
                    }
                }
                "S" if self.samples.len() < 64 => self.samples.push((unhex(&w[1][1..]), unhex(&w[2][1..]))),
                "C" => *self.fns.entry(w[1].to_string()).or_insert(0) += w[2].parse::<u64>().unwrap(),
                "K" => *self.sites.entry(w[1].to_string()).or_insert(0) += w[2].parse::<u64>().unwrap(),
                _ => {}
            }
        }
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o + "\""
}

fn main() {
    // deep recursion in expression walks: run on a large stack
    std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap().join().unwrap();
}

fn real_main() {
    let args: Vec<String> = std::env::args().collect();
    let mut mods: Vec<String> = vec![];
    let mut harness = String::new();
    let mut workers = 8usize;
    let mut out = String::from("/dev/stdout");
    let mut time_limit = 600.0f64;
    let mut path_steps = 40_000_000u64;
    let mut depth = 3000usize;
    let mut samples = 8usize;
    let mut tier = 0u64;
    let mut prof = false;
    let mut max_fail_paths = 400u64;
    let mut i = 1;
    while i < args.len() {
        let v = || args[i + 1].clone();
        match args[i].as_str() {
            "--mod" => mods.push(v()),
            "--mods" => mods.extend(std::fs::read_to_string(v()).unwrap().lines().filter(|l| !l.is_empty()).map(|s| s.to_string())),
            "--harness" => harness = v(),
            "--workers" => workers = v().parse().unwrap(),
            "--out" => out = v(),
            "--time" => time_limit = v().parse().unwrap(),
            "--path-steps" => path_steps = v().parse().unwrap(),
            "--depth" => depth = v().parse().unwrap(),
            "--tier" => tier = v().parse().unwrap(),
            "--samples" => samples = v().parse().unwrap(),
            "--max-fail-paths" => max_fail_paths = v().parse().unwrap(),
            "--prof" => {
                prof = true;
                i += 1;
                continue;
            }
            a => panic!("unknown argument {}", a),
        }
        i += 2;
    }
    let t0 = Instant::now();
    expr::init();
    ll::init();
    for m in &mods {
        ll::load_module(m);
    }
    ll::layout_globals();
    let sym = match ll::lookup(0, harness.as_bytes()) {
        Some(ll::Sym::F(f)) => f,
        _ => {
            eprintln!("no harness {}", harness);
            std::process::exit(3);
        }
    };
    let load_s = t0.elapsed().as_secs_f64();
    let f = ll::func(sym).unwrap();
    let lim = || Limits { path_steps, depth, tier };
    let mut ex = Ex::new(lim());
    if prof {
        ex.prof = Some(Default::default());
    }
    let mut res = Res::default();
    let mut rng = 0x9e3779b97f4a7c15u64;
    let mut queue: VecDeque<State> = VecDeque::new();
    queue.push_back(State::new(f));
    let mut nfail = 0u64;
    let mut stop = false;
    // until there is something to share out, one process
    while let Some(mut st) = if workers > 1 { queue.pop_front() } else { queue.pop_back() } {
        let end = ex.run(&mut st);
        if let End::Fail(..) | End::Error(..) = end {
            nfail += 1;
        }
        res.path(&st, &end, samples, &mut rng);
        queue.extend(ex.pending.drain(..));
        if workers > 1 && queue.len() >= 2 {
            break;
        }
        if nfail >= max_fail_paths {
            stop = true;
            break;
        }
        if t0.elapsed().as_secs_f64() > time_limit {
            res.timeout = true;
            break;
        }
    }
    if stop || res.timeout {
        res.left += queue.len() as u64;
        queue.clear();
    }
    res.finish(&ex);
    if !queue.is_empty() {
        // Worker processes. One that runs dry ends, and a busy one then splits off a new one.
        use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
        let shared = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) };
        let idle = unsafe { &*(shared as *const AtomicI64) };
        let fails = unsafe { &*(shared as *const AtomicU64).add(8) };
        let halt = unsafe { &*(shared as *const AtomicU64).add(16) };
        let dir = std::env::temp_dir().join(format!("symex-{}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        unsafe { prctl(36, 1, 0, 0, 0) }; // orphaned workers become children of this process
        let fresh = |ex: &mut Ex| {
            for f in ll::pg().fns.iter_mut() {
                f.calls = 0;
            }
            ex.steps = 0;
            ex.forks = 0;
            ex.qhits = 0;
            ex.z3.queries = 0;
            ex.z3.sat = 0;
            ex.z3.unsat = 0;
            ex.z3.time = Default::default();
            ex.fork_sites.clear();
            ex.pending.clear();
        };
        idle.store(workers as i64 - 1, SeqCst);
        let mut bad = 0;
        let first = unsafe { fork() };
        if first == 0 {
            let mut res = Res::default();
            fresh(&mut ex);
            let mut stack: Vec<State> = queue.drain(..).collect();
            let mut rng = std::process::id() as u64;
            let mut last = Instant::now();
            loop {
                while stack.len() >= 2 && idle.load(SeqCst) > 0 && last.elapsed().as_micros() > 5000 {
                    if idle.fetch_sub(1, SeqCst) <= 0 {
                        idle.fetch_add(1, SeqCst);
                        break;
                    }
                    let odd: Vec<State> = {
                        let mut a = vec![];
                        let mut b = vec![];
                        for (i, s) in stack.drain(..).enumerate() {
                            if i % 2 == 1 { b.push(s) } else { a.push(s) }
                        }
                        stack = a;
                        b
                    };
                    let pid = unsafe { fork() };
                    if pid == 0 {
                        stack = odd;
                        res = Res::default();
                        fresh(&mut ex);
                        rng = std::process::id() as u64;
                        last = Instant::now();
                        break;
                    }
                    if pid < 0 {
                        stack.extend(odd);
                        idle.fetch_add(1, SeqCst);
                        break;
                    }
                }
                let mut st = match stack.pop() {
                    Some(s) => s,
                    None => break,
                };
                let end = ex.run(&mut st);
                let bad = matches!(end, End::Fail(..) | End::Error(..));
                res.path(&st, &end, samples, &mut rng);
                stack.append(&mut ex.pending);
                if bad && fails.fetch_add(1, SeqCst) + 1 + nfail >= max_fail_paths {
                    halt.store(1, SeqCst);
                }
                if t0.elapsed().as_secs_f64() > time_limit {
                    res.timeout = true;
                    halt.store(1, SeqCst);
                }
                if halt.load(SeqCst) != 0 {
                    res.left += stack.len() as u64;
                    stack.clear();
                }
            }
            res.finish(&ex);
            let ok = std::fs::write(dir.join(format!("w{}", std::process::id())), res.ser()).is_ok();
            idle.fetch_add(1, SeqCst);
            unsafe { _exit(if ok { 0 } else { 1 }) };
        }
        loop {
            let mut s = 0;
            if unsafe { waitpid(-1, &mut s, 0) } <= 0 {
                break;
            }
            if s != 0 {
                // its share of the capacity comes back, its work is lost: no answer
                idle.fetch_add(1, SeqCst);
                bad += 1;
            }
        }
        if let Ok(d) = std::fs::read_dir(&dir) {
            let mut v: Vec<_> = d.filter_map(|e| e.ok()).map(|e| e.path()).collect();
            v.sort();
            for p in v {
                res.merge(&std::fs::read_to_string(p).unwrap_or_default());
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
        if bad > 0 {
            res.nerrors += bad;
            res.errors.push(format!("{} workers died", bad));
        }
        if fails.load(SeqCst) + nfail >= max_fail_paths {
            stop = true;
        }
    }
    if let Some(p) = &ex.prof {
        let mut v: Vec<(u64, String)> = p.iter().map(|(f, n)| (*n, String::from_utf8_lossy(ll::pg().fns[*f as usize].name).into_owned())).collect();
        v.sort();
        for (n, f) in v.iter().rev().take(40) {
            eprintln!("{:>12} {}", n, f);
        }
    }
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"harness\":{},\"paths\":{},\"pruned\":{},\"nerrors\":{},\"steps\":{},\"forks\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"query_cache_hits\":{},\"solver_s\":{:.3},\"max_path_steps\":{},\"symbolic_bytes\":{},\"timeout\":{},\"stopped\":{},\"left\":{},\"covers\":\"{}\",\"wall_s\":{:.3},\"load_s\":{:.3},\"z3\":{},",
        js(&harness), res.done, res.pruned, res.nerrors, res.steps, res.forks, res.queries, res.sat, res.unsat, res.qhits, res.z3_us as f64 / 1e6, res.max_path, res.max_vars, res.timeout, stop, res.left, res.covers, t0.elapsed().as_secs_f64(), load_s, js(&z3::version())
    );
    let fails: Vec<String> = res
        .fails
        .iter()
        .map(|((k, m), (n, v))| {
            let v: Vec<String> = v.iter().map(|x| js(&hex(x))).collect();
            format!("{{\"kind\":{},\"msg\":{},\"count\":{},\"inputs\":[{}]}}", js(k), js(m), n, v.join(","))
        })
        .collect();
    let _ = write!(o, "\"fails\":[{}],", fails.join(","));
    let _ = write!(o, "\"errors\":[{}],", res.errors.iter().map(|e| js(e)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"samples\":[{}],", res.samples.iter().map(|(a, b)| format!("[{},{}]", js(&hex(a)), js(&hex(b)))).collect::<Vec<_>>().join(","));
    let mut sites: Vec<(&String, &u64)> = res.sites.iter().collect();
    sites.sort_by(|a, b| b.1.cmp(a.1));
    let _ = write!(o, "\"fork_sites\":{{{}}},", sites.iter().take(25).map(|(a, b)| format!("{}:{}", js(a), b)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"functions\":{{{}}}}}\n", res.fns.iter().map(|(a, b)| format!("{}:{}", js(a), b)).collect::<Vec<_>>().join(","));
    if out == "/dev/stdout" {
        print!("{}", o);
    } else {
        std::fs::write(&out, o).unwrap();
    }
}
