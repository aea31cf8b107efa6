//! C24: generated programs that use the macros, compiled against /repo and run.
use crate::ctx::*;
use crate::model::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::text::terminal_ok;
use serde_json::json;
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::process::Command;
use std::time::Instant;

const IDENTS: &[&str] = &[
    "s", "a", "b", "c", "dna", "base", "A", "Base", "X1", "_x", "__anon0", "snake_case", "number", "größe", "fn", "type", "self", "crate", "prods", "exprs", "last_exprs", "expressions", "productions", "vec", "term", "grammar", "r", "b1", "Term", "Vec", "str", "x_",
    "a_very_long_name_that_goes_on_and_on_and_on_and_on", "match", "lhs", "rhs", "nt", "t", "collected", "rest", "curr_terms",
];
const LITS: &[&str] = &[
    "a", "b", "ab", "", " ", "A", "+", "(", ")", "|", ";", "::=", "<x>", "é", "日本", "😀", "e\u{301}", "\n", "\t", "\0", "\\", "#", "{}", "{x}", "$", "'", "\"", "it's", "say \"x\"", "a b", "//", "/*", "r", "\u{10ffff}", "@collect", "long terminal text with many words in it",
    "\u{feff}", "\u{feff}x", "x\u{feff}", " x", "x ", "  x  ", "\u{a0}x\u{a0}", "\u{200b}x", "\r", "\r\n", "\n\n", "\\n", "\\u{41}", "\"\"", "''", "\"x\"", "'x'", "\"", "%", "%x41", "<", ">", "<>", "::", "=", "/", "[x]", "(x)", "; c", "x;", "||", "a|b", "ﬁ", "I", "ı", "İ", "ß", "0", "1", "true", "x\0y", "\u{1}", "\u{7f}", "\u{85}", "\u{2028}", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
];

fn ident(r: &mut Rng) -> String {
    if r.chance(60) { (*r.pick(&IDENTS[..6])).to_string() } else { (*r.pick(IDENTS)).to_string() }
}
fn lit(r: &mut Rng) -> String {
    if r.chance(50) { (*r.pick(&LITS[..6])).to_string() } else { (*r.pick(LITS)).to_string() }
}
fn rand_alt(r: &mut Rng, max: usize) -> Alt {
    let k = r.range(1, max);
    (0..k).map(|_| if r.chance(50) { T::N(ident(r)) } else { T::T(lit(r)) }).collect()
}
fn rand_prod(r: &mut Rng) -> P {
    let (na, nt) = match r.below(10) {
        0 => (r.range(6, 24), 2),
        1 => (2, r.range(6, 30)),
        2 => (1, 1),
        _ => (r.range(1, 5), 4),
    };
    P { lhs: T::N(ident(r)), alts: (0..na).map(|_| rand_alt(r, nt)).collect() }
}
fn rand_grammar(r: &mut Rng) -> G {
    let k = match r.below(8) {
        0 => r.range(7, 16),
        1 => 1,
        _ => r.range(2, 5),
    };
    G { prods: (0..k).map(|_| rand_prod(r)).collect() }
}

/// Rust tokens of a right-hand side, with varying layout
struct W<'r> {
    r: &'r mut Rng,
    out: String,
}
impl W<'_> {
    fn sp(&mut self) {
        let s = *self.r.pick(&[" ", " ", " ", "", "", "\n        ", " /* | ; <x> */ ", " // ::= \"q\"\n"]);
        self.out.push_str(s);
    }
    fn lit(&mut self, s: &str) {
        let k = s.chars().count();
        match self.r.below(5) {
            0 if k == 1 => {
                let c = s.chars().next().unwrap();
                self.out.push_str(&format!("{c:?}"));
            }
            1 if !s.contains("\"#") && !s.contains('\r') && !s.contains('\0') => {
                // not glued to the previous token as a suffix
                self.out.push_str(&format!(" r#\"{s}\"#"));
            }
            2 => {
                let e: String = s.chars().map(|c| format!("\\u{{{:x}}}", c as u32)).collect();
                self.out.push_str(&format!("\"{e}\""));
            }
            _ => self.out.push_str(&format!("{s:?}")),
        }
    }
    fn term(&mut self, t: &T) {
        match t {
            T::T(s) => self.lit(s),
            T::N(s) => self.out.push_str(&format!("<{s}>")),
        }
    }
    fn alt(&mut self, a: &[T]) {
        for (i, t) in a.iter().enumerate() {
            if i > 0 {
                self.sp();
            }
            self.term(t);
        }
    }
    fn prod(&mut self, p: &P) {
        self.term(&p.lhs);
        self.sp();
        self.out.push_str("::=");
        self.sp();
        for (i, a) in p.alts.iter().enumerate() {
            if i > 0 {
                self.sp();
                self.out.push('|');
                self.sp();
            }
            self.alt(a);
        }
    }
}

fn rt(t: &T) -> String {
    match t {
        T::T(s) => format!("bnf::Term::Terminal({s:?}.to_string())"),
        T::N(s) => format!("bnf::Term::Nonterminal({s:?}.to_string())"),
    }
}
fn ra(a: &[T]) -> String {
    format!("bnf::Expression::from_parts(vec![{}])", a.iter().map(rt).collect::<Vec<_>>().join(", "))
}
fn rp(p: &P) -> String {
    format!("bnf::Production::from_parts({}, vec![{}])", rt(&p.lhs), p.alts.iter().map(|a| ra(a)).collect::<Vec<_>>().join(", "))
}
fn rg(g: &G) -> String {
    format!("bnf::Grammar::from_parts(vec![{}])", g.prods.iter().map(rp).collect::<Vec<_>>().join(", "))
}

fn tt(t: &T) -> Option<String> {
    match t {
        T::T(s) if !terminal_ok(s) => None,
        T::T(s) => Some(if s.contains('"') { format!("'{s}'") } else { format!("\"{s}\"") }),
        T::N(s) => Some(format!("<{s}>")),
    }
}
fn ta(a: &[T]) -> Option<String> {
    Some(a.iter().map(tt).collect::<Option<Vec<_>>>()?.join(" "))
}
fn tp(p: &P) -> Option<String> {
    Some(format!("{} ::= {}", tt(&p.lhs)?, p.alts.iter().map(|a| ta(a)).collect::<Option<Vec<_>>>()?.join(" | ")))
}
fn tg(g: &G) -> Option<String> {
    Some(g.prods.iter().map(tp).collect::<Option<Vec<_>>>()?.join("\n"))
}

pub struct Prog {
    pub src: String,
    pub cases: u64,
    pub hashes: HashSet<u64>,
    pub sample: String,
    pub ev: BTreeMap<&'static str, u64>,
}

pub fn program(seed: u64, k: u64, count: usize) -> Prog {
    let mut r = Rng::for_case("C24", seed, k);
    let r = &mut r;
    let mut fns = String::new();
    let mut calls = String::new();
    let mut p = Prog { src: String::new(), cases: 0, hashes: HashSet::new(), sample: String::new(), ev: BTreeMap::new() };
    for id in 0..count {
        let (mac, toks, parts, text, ty, key);
        let what = r.below(10);
        let mut w = W { r, out: String::new() };
        match what {
            0 => {
                let x = if w.r.chance(50) { T::N(ident(w.r)) } else { T::T(lit(w.r)) };
                w.term(&x);
                (mac, parts, text, ty, key) = ("term", rt(&x), tt(&x), "Term", h(&x));
                *p.ev.entry("terms").or_default() += 1;
            }
            1 => {
                let m = if w.r.chance(20) { 40 } else { 6 };
                let x = rand_alt(w.r, m);
                w.alt(&x);
                (mac, parts, text, ty, key) = ("expression", ra(&x), ta(&x), "Expression", h(&x));
                *p.ev.entry("expressions").or_default() += 1;
            }
            2..=4 => {
                let x = rand_prod(w.r);
                w.prod(&x);
                (mac, parts, text, ty, key) = ("production", rp(&x), tp(&x), "Production", h(&x));
                *p.ev.entry("productions").or_default() += 1;
                if x.alts.len() >= 3 {
                    *p.ev.entry("three_or_more_alternatives").or_default() += 1;
                }
            }
            _ => {
                let g = rand_grammar(w.r);
                for (i, x) in g.prods.iter().enumerate() {
                    if i > 0 {
                        w.sp();
                        w.out.push(';');
                        w.sp();
                    }
                    w.prod(x);
                }
                if w.r.chance(60) {
                    w.sp();
                    w.out.push(';');
                }
                (mac, parts, text, ty, key) = ("grammar", rg(&g), tg(&g), "Grammar", h(&g));
                *p.ev.entry("grammars").or_default() += 1;
                if g.prods.len() >= 3 {
                    *p.ev.entry("three_or_more_productions").or_default() += 1;
                }
                if g.prods.iter().any(|x| x.alts.len() >= 3) {
                    *p.ev.entry("three_or_more_alternatives").or_default() += 1;
                }
            }
        }
        toks = w.out;
        let (o, c) = *r.pick(&[("{", "}"), ("(", ")"), ("[", "]")]);
        // sometimes the program has its own things with the names the macros use
        let shadow = r.chance(25);
        let pre = if shadow {
            "#[allow(unused)] struct Term; #[allow(unused)] struct Expression; #[allow(unused)] struct Production; #[allow(unused)] struct Grammar;\n    #[allow(unused)] let (prods, exprs, last_exprs, expressions, productions) = (1, 2, 3, 4, 5);\n    #[allow(unused)] macro_rules! term { ($($x:tt)*) => { compile_error!(\"wrong macro\") } }\n    #[allow(unused)] macro_rules! expression { ($($x:tt)*) => { compile_error!(\"wrong macro\") } }\n"
        } else {
            ""
        };
        let path = if shadow || r.chance(50) { format!("bnf::{mac}") } else { format!("in_scope::{mac}") };
        let textarg = match &text {
            Some(s) => {
                *p.ev.entry("compared_with_text").or_default() += 1;
                format!("Some({s:?})")
            }
            None => "None".to_string(),
        };
        fns.push_str(&format!(
            "fn c{id}() {{\n    {pre}    let got: bnf::{ty} = {path}!{o}{toks}\n{c};\n    let want: bnf::{ty} = {parts};\n    check({id}, got, want, {textarg});\n}}\n"
        ));
        calls.push_str(&format!("    c{id}();\n"));
        p.cases += 1;
        p.hashes.insert(key);
        if p.sample.is_empty() && what > 4 {
            p.sample = clip(&format!("{mac}!{{{toks}}}"), 600);
        }
    }
    p.src = format!(
        r##"#![recursion_limit = "4096"]
#![allow(warnings)]
use std::fmt::{{Debug, Display}};
use std::str::FromStr;
mod in_scope {{ pub use bnf::{{grammar, production, expression, term}}; }}
fn check<X: PartialEq + Debug + Display + FromStr>(id: usize, got: X, want: X, text: Option<&str>) where X::Err: Display {{
    if got != want {{
        println!("BAD {{id}} the macro built\n{{got}}\ninstead of\n{{want}}");
        return;
    }}
    if let Some(t) = text {{
        match X::from_str(t) {{
            Ok(x) if x == got => {{}}
            Ok(x) => {{ println!("BAD {{id}} the macro built\n{{got}}\nbut the text gives\n{{x}}"); return; }}
            Err(e) => {{ println!("BAD {{id}} the macro takes what the text reader refuses: {{e}}\n{{t:?}}"); return; }}
        }}
    }}
    println!("OK {{id}}");
}}
{fns}
fn main() {{
    let empty: bnf::Grammar = bnf::grammar!{{}};
    check({count}, empty, bnf::Grammar::new(), None);
{calls}}}
"##
    );
    p
}

pub const REPO: &str = "/repo";

/// forget what cargo remembers of earlier builds of /repo, so that it is built again
pub fn forget(target: &Path) {
    fn go(d: &Path, depth: usize) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let p = e.path();
            let name = e.file_name().to_string_lossy().to_string();
            if name == ".fingerprint" {
                if let Ok(fs) = std::fs::read_dir(&p) {
                    for f in fs.flatten() {
                        if f.file_name().to_string_lossy().starts_with("bnf-") {
                            let _ = std::fs::remove_dir_all(f.path());
                        }
                    }
                }
            } else if depth < 3 && p.is_dir() && name != "deps" && name != "build" && name != "incremental" {
                go(&p, depth + 1);
            }
        }
    }
    go(target, 0);
}

pub fn new_report() -> Report {
    Report { violations: vec![], inconclusive: vec![], known: vec![], events: BTreeMap::new(), evals: 0, distinct: 0, samples: vec![] }
}

/// the Cargo.toml of a generated crate, and the lock file of the harness next to it
pub fn crate_dir(dir: &Path, name: &str, deps: &str) -> PathBuf {
    let d = dir.join(name);
    std::fs::create_dir_all(d.join("src")).expect("crate dir");
    std::fs::write(
        d.join("Cargo.toml"),
        format!("[package]\nname = \"{name}\"\nversion = \"0.1.0\"\nedition = \"2024\"\npublish = false\n[workspace]\n[dependencies]\n{deps}\n[profile.dev]\ndebug = 0\nopt-level = 0\nincremental = false\n[profile.release]\ndebug = 0\nopt-level = 2\n"),
    )
    .expect("Cargo.toml");
    std::fs::copy(verif().join("harness/Cargo.lock"), d.join("Cargo.lock")).expect("Cargo.lock");
    d
}

pub fn run_cmd(c: &mut Command, limit: u64) -> (Option<i32>, String, String) {
    use std::io::Read;
    use std::process::Stdio;
    let mut ch = match c.stdout(Stdio::piped()).stderr(Stdio::piped()).spawn() {
        Ok(c) => c,
        Err(e) => return (None, String::new(), e.to_string()),
    };
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let a = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = so.read_to_end(&mut v);
        String::from_utf8_lossy(&v).to_string()
    });
    let b = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = se.read_to_end(&mut v);
        String::from_utf8_lossy(&v).to_string()
    });
    let t0 = Instant::now();
    let code = loop {
        match ch.try_wait() {
            Ok(Some(s)) => {
                use std::os::unix::process::ExitStatusExt;
                break s.code().or_else(|| s.signal().map(|x| 128 + x));
            }
            Ok(None) => {}
            Err(_) => break None,
        }
        if t0.elapsed().as_secs() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            // grandchildren may hold the pipes
            return (None, String::new(), "wall-clock watchdog".into());
        }
        std::thread::sleep(std::time::Duration::from_millis(20));
    };
    (code, a.join().unwrap_or_default(), b.join().unwrap_or_default())
}

pub fn c24(tier: &str) -> i32 {
    let t0 = Instant::now();
    let seed = seed();
    let thorough = tier == "thorough";
    let mut rep = new_report();
    let dir = scratch();
    let target = verif().join("target");
    let (programs, count) = if thorough { (40, 150) } else { (4, 90) };
    let mut hashes = HashSet::new();
    // one crate with one binary per program, so that they compile side by side
    let d = crate_dir(&dir, "macroprog", &format!("bnf = {{ path = \"{REPO}\" }}"));
    std::fs::create_dir_all(d.join("src/bin")).expect("bin");
    let mut progs = vec![];
    for k in 0..programs {
        let p = program(seed, k, count);
        std::fs::write(d.join(format!("src/bin/p{k}.rs")), &p.src).expect("program");
        for (e, n) in &p.ev {
            *rep.events.entry((*e).to_string()).or_default() += n;
        }
        hashes.extend(p.hashes.iter().copied());
        if rep.samples.len() < 4 {
            rep.samples.push(p.sample.clone());
        }
        progs.push(p);
    }
    forget(&target);
    let keep = |k: u64, src: &str| -> PathBuf {
        let f = verif().join("replays").join(format!("C24-seed{seed}-p{k}.rs"));
        let _ = std::fs::create_dir_all(f.parent().unwrap());
        let _ = std::fs::write(&f, src);
        f
    };
    let (code, _, err) = run_cmd(Command::new("cargo").args(["build", "--offline", "--keep-going", "-q"]).current_dir(&d).env("CARGO_TARGET_DIR", &target), 700);
    if code.is_none() {
        rep.inconclusive.push(format!("cargo: {err}"));
    }
    if code != Some(0) && code.is_some() {
        // the harness itself was built against the same tree, so the crate compiles; what does
        // not is a use of the macros
        let lib_ok = run_cmd(Command::new("cargo").args(["build", "--offline", "-q", "-p", "bnf"]).current_dir(&d).env("CARGO_TARGET_DIR", &target), 300).0 == Some(0);
        if !lib_ok {
            rep.inconclusive.push(format!("the crate does not compile: {}", clip(&err, 800)));
        }
    }
    for (k, p) in progs.iter().enumerate() {
        if !rep.inconclusive.is_empty() {
            break;
        }
        let k = k as u64;
        let bin = target.join(format!("debug/p{k}"));
        if code != Some(0) {
            // a stale binary says nothing: build this one alone
            let (c, _, e) = run_cmd(Command::new("cargo").args(["build", "--offline", "-q", "--bin", &format!("p{k}")]).current_dir(&d).env("CARGO_TARGET_DIR", &target), 300);
            if c != Some(0) {
                let f = keep(k, &p.src);
                let m = format!("a program using the macros does not compile: {}", clip(&e, 1500));
                rep.violations.push((m.clone(), json!({"property": "C24", "program": f, "what": m})));
                continue;
            }
        }
        let (c, out, e) = run_cmd(&mut Command::new(&bin), 120);
        let oks = out.lines().filter(|l| l.starts_with("OK ")).count() as u64;
        rep.evals += oks;
        if let Some(at) = out.lines().position(|l| l.starts_with("BAD ")) {
            let f = keep(k, &p.src);
            let m = format!("program p{k}: {}", clip(&out.lines().skip(at).take(12).collect::<Vec<_>>().join("\n"), 1500));
            rep.violations.push((m.clone(), json!({"property": "C24", "program": f, "what": m})));
        } else if c != Some(0) {
            let f = keep(k, &p.src);
            let m = format!("program p{k} ended with {c:?}: {}", clip(&e, 800));
            rep.violations.push((m.clone(), json!({"property": "C24", "program": f, "what": m})));
        } else if oks != p.cases + 1 {
            rep.inconclusive.push(format!("program p{k} reported {oks} of {} cases", p.cases + 1));
        }
        let _ = std::fs::remove_file(&bin);
    }
    rep.distinct = hashes.len() as u64;
    let _ = std::fs::remove_dir_all(&dir);
    finish(
        "C24",
        "generated programs using grammar!, production!, expression! and term! with every delimiter, many layouts, literal forms, keyword names and shadowing names are compiled and run; the built values are compared with values built from parts and with the same notation parsed as text; non-trivial: distinct notations",
        tier,
        seed,
        rep,
        t0,
        &[("grammars", 50), ("three_or_more_productions", 30), ("three_or_more_alternatives", 50), ("compared_with_text", 150)],
    )
}
