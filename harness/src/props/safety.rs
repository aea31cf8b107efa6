//! C25: random histories of safe API calls, run plainly under an allocation ledger, and under
//! Miri and AddressSanitizer.
use super::Prop;
use super::generation::{Finish, Fuse, Strat, gen_grammar, subcritical};
use super::parse::{Size, budget};
use super::programs::{REPO, forget, run_cmd};
use crate::ctx::*;
use crate::r#gen::*;
use crate::model::*;
use crate::oracle::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::text::*;
use bnf::rand::{SeedableRng, rngs::StdRng};
use bnf::{Expression, Grammar, GrammarParser, ParseTree, ParseTreeNode, Production, Term};
use serde_json::json;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::process::Command;
use std::sync::Mutex;

pub static PROPS: &[Prop] = &[Prop {
    id: "C25",
    run: c25,
    quick: 6000,
    thorough: 300_000,
    cpu: 60.0,
    rule: "random histories over the whole public API (texts, edits, parsers, half-consumed iterators, trees that outlive their iterator, panicking callbacks, JSON), repeated under a live-byte ledger with every output string re-validated, and run under Miri, AddressSanitizer/LeakSanitizer and the standard library's unsafe-precondition checks; non-trivial: distinct histories that parsed and generated something",
    need: &[("histories", 2000), ("ledger_rounds", 6000), ("strings_validated", 20_000), ("trees_outliving_iterators", 1000), ("panicking_callbacks", 100), ("miri_histories", 20), ("asan_histories", 500), ("asan_property_cases", 500)],
    extra: Some(extra),
}];

#[derive(Default)]
pub struct Tally(pub BTreeMap<&'static str, u64>, pub Option<String>);
impl Tally {
    fn e(&mut self, k: &'static str) {
        *self.0.entry(k).or_default() += 1;
    }
    /// a string that came out of the crate must be UTF-8
    fn s(&mut self, what: &str, s: &str) {
        self.e("strings_validated");
        let b: Vec<u8> = std::hint::black_box(s.as_bytes()).to_vec();
        if std::str::from_utf8(std::hint::black_box(&b)).is_err() && self.1.is_none() {
            self.1 = Some(format!("{what} is not valid UTF-8: {b:?}"));
        }
    }
    fn term(&mut self, t: &Term) {
        match t {
            Term::Terminal(s) | Term::Nonterminal(s) => self.s("a term", s),
        }
    }
    fn grammar(&mut self, g: &Grammar) {
        for p in g.productions_iter() {
            self.term(&p.lhs);
            for e in p.rhs_iter() {
                for t in e.terms_iter() {
                    self.term(t);
                }
            }
        }
    }
    fn tree(&mut self, t: &ParseTree<'_>) {
        self.term(t.lhs);
        for c in t.rhs_iter() {
            match c {
                ParseTreeNode::Terminal(s) => self.s("a leaf", s),
                ParseTreeNode::Nonterminal(t) => self.tree(t),
            }
        }
    }
}

fn small_grammar(r: &mut Rng, small: bool) -> G {
    if small {
        let mut o = Opt::random(r);
        o.nts = (1, 3);
        o.alts = (1, 3);
        o.len = (0, 3);
        if r.chance(40) {
            o.undef_pct = 10;
        }
        return grammar(r, &o);
    }
    match r.below(4) {
        0 => parse_grammar(r),
        1 => classic(r),
        2 => gen_grammar(r),
        _ => {
            let mut o = Opt::random(r);
            o.undef_pct = *r.pick(&[0, 0, 15]);
            grammar(r, &o)
        }
    }
}

/// swap, replace and drop parts of a tree through its mutable iterator
fn mess<'g>(r: &mut Rng, t: &mut ParseTree<'g>) {
    let k = t.rhs_iter().count();
    if k == 0 {
        return;
    }
    let mut taken: Option<ParseTreeNode<'g>> = None;
    for c in t.rhs_iter_mut() {
        match r.below(4) {
            0 => {
                if let Some(x) = taken.take() {
                    taken = Some(std::mem::replace(c, x));
                } else {
                    taken = Some(c.clone());
                }
            }
            1 => {
                if let ParseTreeNode::Nonterminal(n) = c {
                    mess(r, n);
                }
            }
            _ => {}
        }
    }
}

struct Boom(usize);
impl bnf::GenerationStrategy for Boom {
    fn choose<'p>(&mut self, p: &'p Production, _d: usize) -> Option<&'p Expression> {
        if self.0 == 0 {
            panic!("strategy gives up");
        }
        self.0 -= 1;
        p.rhs_iter().last()
    }
}

/// Everything a history needs that an oracle has to work out; made natively, also for the
/// histories that an interpreter executes.
#[derive(Clone, serde::Serialize, serde::Deserialize)]
pub struct Plan {
    pub seed: u64,
    pub small: bool,
    pub g: G,
    pub texts: Vec<String>,
    pub start: String,
    pub ins: Vec<(String, usize)>,
    pub heights: Vec<(String, usize)>,
    pub sub: bool,
}

pub fn plan(r: &mut Rng, small: bool) -> Plan {
    let mut g = small_grammar(r, small);
    if !matches!(g.prods[0].lhs, T::N(_)) {
        g.prods[0].lhs = n("s");
    }
    let mut texts = vec![];
    for _ in 0..if small { 1 } else { 2 } {
        let fmt = if r.chance(50) { Fmt::Bnf } else { Fmt::Abnf };
        if let Some(text) = text_of(r, &g, fmt) {
            texts.push(if r.chance(40) { mutate(r, &text, &['<', '>', '(', '[', '\'', ';', 'é', '\n', '=']) } else { text });
        }
    }
    let cg = CG::new(&g, Undef::Nothing);
    let sm = Sampler::new(&cg);
    let nts = g.nts();
    let start = nts[r.below(nts.len())].clone();
    let a = cg.idx[&start];
    let (count, len, items) = if small { (3, 8, 60.0) } else { (5, 40, 8000.0) };
    let ins: Vec<(String, usize)> = inputs(r, &g, &sm, a, count, len)
        .into_iter()
        .filter_map(|i| {
            let s = Spans::new(&cg, i.as_bytes());
            let k = match budget(&s, a, items) {
                Size::Finite(_) => 30,
                Size::Infinite(k) => k.min(6),
                Size::AcceptOnly(k) => k,
                _ => return None,
            };
            Some((i, k))
        })
        .take(if small { 2 } else { 9 })
        .collect();
    let heights = Finish::new(&g).heights();
    let sub = subcritical(&g);
    Plan { seed: r.next(), small, g, texts, start, ins, heights, sub }
}

/// one random history of API calls
pub fn history(p: &Plan, y: &mut Tally) {
    y.e("histories");
    let r = &mut Rng::new(p.seed);
    let small = p.small;
    let g = &p.g;
    // text in and out
    let mut b = g.to_bnf();
    let shown = b.to_string();
    y.s("Display of a grammar", &shown);
    if !small || r.chance(30) {
        if let Ok(x) = shown.parse::<Grammar>() {
            y.grammar(&x);
            y.e("texts_read");
        }
    }
    for m in &p.texts {
        let which = r.below(3);
        for k in 0..3 {
            if small && k != which {
                continue;
            }
            let x = match k {
                0 => m.parse::<Grammar>(),
                1 => Grammar::parse_from::<bnf::BNF>(m),
                _ => Grammar::parse_from::<bnf::ABNF>(m),
            };
            match x {
                Ok(x) => {
                    y.grammar(&x);
                    y.e("texts_read");
                }
                Err(e) => {
                    let s = e.to_string();
                    y.s("an error message", &s);
                    let d = format!("{e:?}");
                    y.s("an error", &d);
                }
            }
        }
        // pieces cut at any character boundary
        let mut k = r.below(m.len() + 1);
        while !m.is_char_boundary(k) {
            k -= 1;
        }
        let _ = m[k..].parse::<Production>().map(|p| y.term(&p.lhs));
        let _ = m[k..].parse::<Expression>().map(|e| e.terms_iter().for_each(|t| y.term(t)));
        let _ = m[k..].parse::<Term>().map(|t| y.term(&t));
        if !small {
            let _ = m[..k].parse::<Grammar>().map(|g| y.grammar(&g));
        }
    }
    // edits on a copy, dropped half-way through
    let mut c = b.clone();
    for _ in 0..r.below(4) {
        let prods: Vec<Production> = c.productions_iter().cloned().collect();
        if prods.is_empty() {
            break;
        }
        match r.below(6) {
            0 => c.add_production(prods[r.below(prods.len())].clone()),
            1 => {
                let x = c.remove_production(&prods[r.below(prods.len())]);
                drop(x);
            }
            2 => {
                for p in c.productions_iter_mut().take(2) {
                    for e in p.rhs_iter_mut() {
                        if r.chance(30) {
                            e.add_term(Term::Terminal("é".into()));
                        }
                        for t in e.terms_iter_mut() {
                            if r.chance(10) {
                                *t = Term::Terminal("q".into());
                            }
                        }
                        let t = e.terms_iter().next().cloned();
                        if let Some(t) = t
                            && r.chance(30)
                        {
                            e.remove_term(&t);
                        }
                    }
                }
            }
            3 => {
                if let Some(p) = c.productions_iter_mut().next() {
                    let e = p.rhs_iter().next().cloned();
                    if let Some(e) = e {
                        let e2 = &e + Term::Terminal("z".into());
                        p.add_to_rhs(e2 + e.clone());
                        if p.len() > 2 {
                            p.remove_from_rhs(&e);
                        }
                    }
                }
            }
            4 => {
                let d = c.clone();
                c = d;
            }
            _ => {
                let j = serde_json::to_string(&c).expect("grammar to JSON");
                y.s("JSON", &j);
                c = serde_json::from_str(&j).expect("grammar from JSON");
                y.e("json");
            }
        }
    }
    y.grammar(&c);
    if let Err(e) = c.validate() {
        let s = e.to_string();
        y.s("a validation message", &s);
    }
    if r.chance(50) {
        drop(c);
    }
    // the grammar again, put together another way
    match r.below(3) {
        0 => {
            let mut d = Grammar::new();
            for p in &g.prods {
                d.add_production(prod_to(p));
            }
            b = d;
        }
        1 => {
            let j = serde_json::to_vec(&b).expect("grammar to JSON");
            b = serde_json::from_slice(&j).expect("grammar from JSON");
            y.e("json");
        }
        _ => {}
    }
    parse_part(r, y, p, &b);
    generate_part(r, y, p, &b);
}

fn text_of(r: &mut Rng, g: &G, fmt: Fmt) -> Option<String> {
    if !writable(g, fmt) {
        return None;
    }
    let mut e = EG::from_g(g);
    // wrap some terms in groups
    for p in &mut e.prods {
        for a in &mut p.rhs {
            for x in a.iter_mut() {
                if r.chance(15) {
                    let y = x.clone();
                    *x = if r.chance(50) { ET::Group(vec![vec![y]]) } else { ET::Opt(vec![vec![y]]) };
                }
            }
        }
    }
    let l = *r.pick(&[Layout::Plain, Layout::Wild, Layout::Tight]);
    Some(Printer::new(r, fmt, l).grammar(&e).0)
}

/// At most `k` trees; when the iterator ends before that, it is asked again.
fn drain<'a>(r: &mut Rng, y: &mut Tally, it: &mut impl Iterator<Item = ParseTree<'a>>, k: usize) -> Vec<ParseTree<'a>> {
    let mut out = vec![];
    let mut left = k;
    let mut over = r.range(1, 3);
    while left > 0 && over > 0 {
        left -= 1;
        match it.next() {
            Some(t) => {
                y.tree(&t);
                if r.chance(50) {
                    out.push(t);
                }
            }
            None => {
                y.e("polled_past_the_end");
                over -= 1;
                left += 1;
            }
        }
    }
    out
}

fn parse_part(r: &mut Rng, y: &mut Tally, p: &Plan, b: &Grammar) {
    let small = p.small;
    let st = Term::Nonterminal(p.start.clone());
    let ins = &p.ins;
    if ins.is_empty() {
        return;
    }
    #[allow(deprecated)]
    if b.validate().is_err() {
        for (i, k) in ins {
            let mut it = b.parse_input_starting_with(i, &st);
            drain(r, y, &mut it, *k);
        }
        return;
    }
    // the older methods, whose iterators carry their parser with them: polled past the end,
    // several alive at once, dropped half-way, trees kept
    #[allow(deprecated)]
    {
        let mut kept: Vec<ParseTree<'_>> = vec![];
        let mut its: Vec<_> = vec![];
        for (i, k) in ins.iter().take(if small { 2 } else { 8 }) {
            its.push((b.parse_input_starting_with(i, &st), *k));
            // (the plan's budget is for its own start)
            if p.g.prods[0].lhs == T::N(p.start.clone()) && r.chance(50) {
                let mut it = b.parse_input(i);
                kept.extend(drain(r, y, &mut it, *k));
            }
        }
        while !its.is_empty() {
            let j = r.below(its.len());
            let (mut it, k) = its.swap_remove(j);
            if r.chance(15) {
                kept.extend(it.next());
            } else {
                kept.extend(drain(r, y, &mut it, k));
            }
        }
        for t in &kept {
            y.tree(t);
        }
    }
    let mut trees: Vec<ParseTree<'_>> = vec![];
    let boxed: Box<GrammarParser<'_>> = match b.build_parser() {
        Ok(p) => Box::new(p),
        Err(_) => return,
    };
    {
        // several live iterators, consumed unevenly and dropped in another order
        let mut its: Vec<_> = ins.iter().map(|(i, k)| (boxed.parse_input_starting_with(i, &st).take(*k), 0usize)).collect();
        for _ in 0..if small { 8 } else { 40 } {
            if its.is_empty() {
                break;
            }
            let k = r.below(its.len());
            // (polled again after the end, too: `take` still asks while its count lasts)
            if let Some(t) = its[k].0.next() {
                trees.push(t);
            }
            if r.chance(10) {
                let x = its.swap_remove(k);
                drop(x);
            }
        }
    }
    // trees outlive the iterators they came from
    for t in &trees {
        y.e("trees_outliving_iterators");
        y.tree(t);
        let s = t.to_string();
        y.s("Display of a tree", &s);
        let m = t.mermaid().to_string();
        y.s("Mermaid", &m);
        let e = bnf::escape_mermaid_label(&s);
        y.s("an escaped label", &e);
    }
    let copy = trees.clone();
    for t in &mut trees {
        mess(r, t);
        y.tree(t);
        let _ = t.to_string();
        let _ = t.mermaid().to_string();
    }
    if !trees.is_empty() {
        let k = r.below(trees.len());
        trees.swap_remove(k);
    }
    drop(trees);
    for t in &copy {
        y.tree(t);
    }
    drop(copy);
    drop(boxed);
}

fn generate_part(r: &mut Rng, y: &mut Tally, p: &Plan, b: &Grammar) {
    let small = p.small;
    let fin = Finish::from_heights(&p.heights);
    for k in 0..if small { 2 } else { 5 } {
        let trace = RefCell::new(vec![]);
        let which = if small { r.below(5) } else { k };
        let mut st = Strat::make(which, r);
        for _ in 0..2 {
            let mut f = Fuse { inner: &mut st, left: if small { 6 } else { 20 }, fin: &fin, trace: &trace };
            match b.generate_seeded_with_strategy(&mut f) {
                Ok(s) => {
                    y.e("generated");
                    y.s("a generated sentence", &s);
                }
                Err(e) => {
                    let s = e.to_string();
                    y.s("an error message", &s);
                }
            }
        }
    }
    if p.sub {
        let mut rng = StdRng::from_seed(r.seed32());
        if let Ok(s) = b.generate_seeded(&mut rng) {
            y.s("a generated sentence", &s);
        }
        if let Ok(s) = b.generate() {
            y.s("a generated sentence", &s);
        }
    }
    // callbacks and strategies that panic half-way; the grammar is used again afterwards
    if r.chance(if small { 20 } else { 30 }) {
        let left = RefCell::new(r.below(4));
        let trace = RefCell::new(vec![]);
        let mut st = Strat::make(4, r);
        let x = catch_unwind(AssertUnwindSafe(|| {
            let mut f = Fuse { inner: &mut st, left: 6, fin: &fin, trace: &trace };
            b.generate_seeded_callback_with_strategy(
                |_, _| {
                    let mut l = left.borrow_mut();
                    if *l == 0 {
                        panic!("callback gives up");
                    }
                    *l -= 1;
                    true
                },
                &mut f,
            )
        }));
        if x.is_err() {
            y.e("panicking_callbacks");
        }
        let mut boom = Boom(r.below(3));
        if catch_unwind(AssertUnwindSafe(|| b.generate_seeded_with_strategy(&mut boom))).is_err() {
            y.e("panicking_callbacks");
        }
        y.grammar(b);
    }
}

fn case_rng(seed: u64, idx: u64) -> Rng {
    Rng::for_case("C25", seed, idx)
}

fn c25(ctx: &mut Ctx, r: &mut Rng) -> Res {
    // the same history again and again: once everything lazily built is built, the number of
    // live bytes has to come back to what it was
    let mut y = Tally::default();
    let p = plan(r, false);
    let mut grew = 0;
    let mut deltas = vec![];
    let mut panics = 0u64;
    let mut n = 0u64;
    while n < 5 {
        n += 1;
        let before = live();
        let mut y1 = Tally::default();
        if catch_unwind(AssertUnwindSafe(|| history(&p, &mut y1))).is_err() {
            // not this property's business
            panics += 1;
        }
        let bad = y1.1.take();
        let ev = y1.0;
        let counts: Vec<(&'static str, u64)> = ev.iter().map(|(k, v)| (*k, *v)).collect();
        drop(ev);
        if let Some(b) = bad {
            return Err(b);
        }
        // `counts` is still live here
        let after = live() - (counts.capacity() * std::mem::size_of::<(&str, u64)>()) as u64;
        let d = after as i64 - before as i64;
        deltas.push(d);
        if n == 1 {
            for (k, v) in counts {
                y.0.insert(k, v);
            }
        } else if d > 0 {
            grew += 1;
        } else {
            break;
        }
    }
    for (k, v) in &y.0 {
        ctx.add(k, *v);
    }
    ctx.add("ledger_rounds", n);
    ctx.add("panics_elsewhere", panics);
    ctx.eval((y.0.get("generated").is_some() && y.0.get("trees_outliving_iterators").is_some()).then_some(p.seed));
    ctx.sample(|| format!("grammar:\n{}inputs {:?}; seen {:?}", clip(&p.g.show(), 600), p.ins, y.0));
    if grew >= 4 {
        return Err(format!("live bytes grow by the same history each time it is repeated: {deltas:?}"));
    }
    Ok(())
}

/// plan <seed> <from> <to>: print the plans of small histories
pub fn print_plans(seed: u64, from: u64, to: u64) -> i32 {
    for idx in from..to {
        println!("{}", serde_json::to_string(&plan(&mut case_rng(seed, idx), true)).unwrap());
    }
    0
}

/// safety <plan file>: execute printed plans (for Miri)
pub fn plan_loop(file: &str) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let mut y = Tally::default();
    let mut panics = 0;
    for (k, l) in std::fs::read_to_string(file).expect("plan file").lines().enumerate() {
        let p: Plan = serde_json::from_str(l).expect("plan");
        if catch_unwind(AssertUnwindSafe(|| history(&p, &mut y))).is_err() {
            panics += 1;
        }
        if let Some(b) = &y.1 {
            println!("BAD history {k}: {b}");
            return 3;
        }
        println!("at {k}");
    }
    println!("DONE {} panics={panics}", serde_json::to_string(&y.0).unwrap());
    0
}

/// safety <seed> <from> <to>: plain loop (for AddressSanitizer)
pub fn main_loop(seed: u64, from: u64, to: u64) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let run = move || {
        let mut y = Tally::default();
        let mut panics = 0;
        for idx in from..to {
            let p = plan(&mut case_rng(seed, idx), false);
            if catch_unwind(AssertUnwindSafe(|| history(&p, &mut y))).is_err() {
                panics += 1;
            }
            if let Some(b) = &y.1 {
                println!("BAD history {idx}: {b}");
                return 3;
            }
        }
        println!("DONE {} panics={panics}", serde_json::to_string(&y.0).unwrap());
        0
    };
    std::thread::Builder::new().stack_size(1 << 30).spawn(run).expect("thread").join().unwrap_or(4)
}

/// growth <seed> <n>: live bytes after a half and after all of n different histories
pub fn growth(seed: u64, n: u64) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let run = move || {
        let mut y = Tally::default();
        let mut half = 0;
        for idx in 0..n {
            let p = plan(&mut case_rng(seed, idx), false);
            let _ = catch_unwind(AssertUnwindSafe(|| history(&p, &mut y)));
            if idx + 1 == n / 2 {
                half = live();
            }
        }
        println!("{} {}", half, live());
        0
    };
    std::thread::Builder::new().stack_size(1 << 30).spawn(run).expect("thread").join().unwrap_or(4)
}

fn add_done(rep: &Mutex<&mut Report>, out: &str, key: &str) -> u64 {
    let Some(l) = out.lines().find(|l| l.starts_with("DONE ")) else { return 0 };
    let v: serde_json::Value = serde_json::from_str(l[5..].rsplit_once(" panics=").map_or("{}", |x| x.0)).unwrap_or_default();
    let k = v["histories"].as_u64().unwrap_or(0);
    *rep.lock().unwrap().events.entry(key.into()).or_default() += k;
    k
}

fn extra(rep: &mut Report, seed: u64, thorough: bool) {
    let scale: f64 = std::env::var("BNFMON_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    // growth over different histories
    let n = if thorough { 40_000u64 } else { 6000 };
    let (out, how, ok) = child(&["growth", &seed.to_string(), &n.to_string()], 1200);
    let v: Vec<u64> = out.split_whitespace().filter_map(|x| x.parse().ok()).collect();
    if !ok || v.len() != 2 {
        rep.inconclusive.push(format!("growth run ended with {how}"));
    } else {
        rep.events.insert("live_bytes_at_half".into(), v[0]);
        rep.events.insert("live_bytes_at_end".into(), v[1]);
        if v[1] > v[0] + 400_000 {
            let m = format!("memory is kept after every value was dropped: {} live bytes after {} histories, {} after {n}", v[0], n / 2, v[1]);
            rep.violations.push((m.clone(), json!({"property": "C25", "what": m, "run": format!("bnfmon growth {seed} {n}")})));
        }
    }
    let rep = Mutex::new(rep);
    std::thread::scope(|s| {
        s.spawn(|| miri(&rep, seed, if thorough { 400 } else { 40 }, thorough));
        s.spawn(|| asan(&rep, seed, ((if thorough { 40_000.0 } else { 1600.0 }) * scale) as u64, thorough));
    });
}

fn miri(rep: &Mutex<&mut Report>, seed: u64, n: u64, thorough: bool) {
    let td = verif().join("target/miri-run");
    forget(&td);
    let cmd = |flags: &str, args: &[&str]| {
        let mut c = Command::new("cargo");
        c.args(["+nightly", "miri", "run", "--offline", "-q", "--manifest-path"])
            .arg(verif().join("harness/Cargo.toml"))
            .arg("--")
            .args(args)
            .env("CARGO_TARGET_DIR", &td)
            .env("MIRIFLAGS", format!("-Zmiri-disable-isolation {flags}"));
        c
    };
    let sd = seed.to_string();
    let dir = verif().join("scratch").join(format!("m{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let plans = |from: u64, to: u64| -> String {
        let f = dir.join(format!("plans-{from}"));
        let s: String = (from..to).map(|i| serde_json::to_string(&plan(&mut case_rng(seed, i), true)).unwrap() + "\n").collect();
        std::fs::write(&f, s).expect("plans");
        f.display().to_string()
    };
    // build once
    let (c, out, err) = run_cmd(&mut cmd("", &["safety", &plans(0, 1)]), 600);
    if c != Some(0) && !is_ub(&err) {
        rep.lock().unwrap().inconclusive.push(format!("Miri did not run ({c:?}): {}", clip(&err, 600)));
        return;
    }
    add_done(rep, &out, "miri_histories");
    if report_ub(rep, "Miri", c, &out, &err, 0, 1, &sd) {
        return;
    }
    let procs = 6u64;
    let per = n / procs;
    std::thread::scope(|s| {
        for p in 0..procs {
            let sd = &sd;
            let cmd = &cmd;
            let (from, to) = (1 + p * per, 1 + (p + 1) * per);
            let file = plans(from, to);
            s.spawn(move || {
                let flags = match p % 3 {
                    0 => "",
                    1 => "-Zmiri-tree-borrows",
                    _ => "-Zmiri-symbolic-alignment-check",
                };
                let (c, out, err) = run_cmd(&mut cmd(flags, &["safety", &file]), if thorough { 3000 } else { 500 });
                if c.is_none() {
                    // slow machine: what was reached still counts
                    let k = out.lines().filter(|l| l.starts_with("at ")).count() as u64;
                    *rep.lock().unwrap().events.entry("miri_histories".into()).or_default() += k;
                    rep.lock().unwrap().events.entry("miri_runs_cut_short".into()).and_modify(|x| *x += 1).or_insert(1);
                    return;
                }
                add_done(rep, &out, "miri_histories");
                if !report_ub(rep, "Miri", c, &out, &err, from, to, sd) && c != Some(0) {
                    rep.lock().unwrap().inconclusive.push(format!("Miri run ended with {c:?}: {}", clip(&err, 600)));
                }
            });
        }
    });
    let _ = std::fs::remove_dir_all(&dir);
}

fn is_ub(err: &str) -> bool {
    ["Undefined Behavior", "memory leaked", "AddressSanitizer:", "LeakSanitizer: detected", "unsafe precondition(s) violated", "Data race detected"].iter().any(|x| err.contains(x))
}

/// memory-safety reports only; other failures belong to other properties
fn report_ub(rep: &Mutex<&mut Report>, tool: &str, code: Option<i32>, out: &str, err: &str, from: u64, to: u64, seed: &str) -> bool {
    let bad = out.lines().find(|l| l.starts_with("BAD "));
    if bad.is_none() && (code == Some(0) || !is_ub(err)) {
        return false;
    }
    if err.contains("AddressSanitizer: stack-overflow") {
        return false;
    }
    let lines: Vec<&str> = err.lines().collect();
    let at = lines.iter().position(|l| is_ub(l)).unwrap_or(0);
    let text = bad.map_or_else(|| lines[at..].iter().take(30).copied().collect::<Vec<_>>().join("\n"), str::to_string);
    let m = format!("{tool}: {}", clip(&text, 2500));
    let last = out.lines().rev().find(|l| l.starts_with("at ")).unwrap_or("").to_string();
    rep.lock().unwrap().violations.push((m.clone(), json!({"property": "C25", "tool": tool, "what": m, "histories": format!("bnfmon safety {seed} {from} {to}"), "last_completed": last})));
    true
}

fn asan(rep: &Mutex<&mut Report>, seed: u64, n: u64, thorough: bool) {
    let td = verif().join("target/asan");
    forget(&td);
    let (c, _, err) = run_cmd(
        Command::new("cargo")
            .args(["+nightly", "build", "--release", "--offline", "-q", "--target", "x86_64-unknown-linux-gnu", "--manifest-path"])
            .arg(verif().join("harness/Cargo.toml"))
            .env("CARGO_TARGET_DIR", &td)
            .env("RUSTFLAGS", "-Zsanitizer=address"),
        600,
    );
    if c != Some(0) {
        rep.lock().unwrap().inconclusive.push(format!("the AddressSanitizer build failed: {}", clip(&err, 600)));
        return;
    }
    let bin = td.join("x86_64-unknown-linux-gnu/release/bnfmon");
    let dir = verif().join("scratch").join(format!("a{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    // is the leak checker usable here?
    let probe = run_cmd(Command::new(&bin).arg("list").env("ASAN_OPTIONS", "detect_leaks=1"), 60);
    let leaks = if probe.0 == Some(0) { "1" } else { "0" };
    rep.lock().unwrap().events.insert("leak_sanitizer_usable".into(), u64::from(leaks == "1"));
    let opts = format!("detect_leaks={leaks}:detect_stack_use_after_return=1:allocator_may_return_null=1:max_allocation_size_mb=8192");
    let sd = seed.to_string();
    let ids: Vec<&'static str> = super::all().iter().map(|p| p.id).filter(|i| *i != "C25").collect();
    std::thread::scope(|s| {
        for p in 0..4u64 {
            let (bin, opts, sd) = (&bin, &opts, &sd);
            s.spawn(move || {
                let (from, to) = (p * n / 4, (p + 1) * n / 4);
                let (c, out, err) = run_cmd(Command::new(bin).args(["safety", sd, &from.to_string(), &to.to_string()]).env("ASAN_OPTIONS", opts), if thorough { 3000 } else { 400 });
                add_done(rep, &out, "asan_histories");
                if !report_ub(rep, "AddressSanitizer", c, &out, &err, from, to, sd) && c != Some(0) {
                    rep.lock().unwrap().inconclusive.push(format!("AddressSanitizer run ended with {c:?}: {}", clip(&err, 400)));
                }
            });
        }
        // the workloads of the other properties
        let next = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
        for _ in 0..3 {
            let (bin, opts, sd, ids, next, dir) = (&bin, &opts, &sd, &ids, next.clone(), &dir);
            s.spawn(move || {
                loop {
                    let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    let Some(id) = ids.get(k) else { return };
                    let cases: u64 = match *id {
                        "C20" => 6,
                        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C09" => 100,
                        _ => 300,
                    } * if thorough { 20 } else { 1 };
                    let outf = dir.join(id);
                    let (c, out, err) = run_cmd(
                        Command::new(bin).args(["worker", id, sd, "0", "0", &cases.to_string(), "1", if thorough { "200" } else { "25" }]).arg(&outf).env("ASAN_OPTIONS", opts).env("BNFMON_STACK", "2048"),
                        if thorough { 900 } else { 300 },
                    );
                    let done = std::fs::read_to_string(&outf).ok().and_then(|s| serde_json::from_str::<serde_json::Value>(&s).ok()).and_then(|v| v["events"]["cases"].as_u64()).unwrap_or(0);
                    *rep.lock().unwrap().events.entry("asan_property_cases".into()).or_default() += done;
                    let _ = report_ub(rep, &format!("AddressSanitizer (workload of {id})"), c, &out, &err, 0, cases, sd);
                }
            });
        }
    });
    let _ = std::fs::remove_dir_all(&dir);
    let _ = REPO;
}
