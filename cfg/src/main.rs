//! C27: one build of the crate among many. Executes the plans of a file and prints a hash for
//! every section of every plan; with `show K`, prints the sections of plan K in full.
//!   cfgworker PLANS [listen] [show K]
#[path = "../../harness/src/model.rs"]
#[allow(dead_code)]
mod model;
#[path = "../../harness/src/rng.rs"]
#[allow(dead_code)]
mod rng;

use bnf::rand::{SeedableRng, rngs::StdRng};
use bnf::{CoverageGuided, DepthBounded, Expression, GenerationStrategy, Grammar, Production, RandomWalk, Term, Weighted};
use model::*;
use rng::Rng;
use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{AssertUnwindSafe, catch_unwind};

#[derive(serde::Deserialize)]
struct Plan {
    seed: u64,
    g: G,
    /// text, and whether it is BNF by the rule for detecting the format
    texts: Vec<(String, bool)>,
    start: String,
    ins: Vec<(String, usize)>,
    heights: Vec<(String, usize)>,
    sub: bool,
    undefined: usize,
}

#[cfg(feature = "tracing")]
mod listen {
    //! a subscriber that is interested in everything and formats every field
    use std::fmt::Write;
    use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
    use tracing::field::{Field, Visit};
    use tracing::span;
    pub static SPANS: AtomicU64 = AtomicU64::new(0);
    pub static EVENTS: AtomicU64 = AtomicU64::new(0);
    struct V(String);
    impl Visit for V {
        fn record_debug(&mut self, f: &Field, v: &dyn std::fmt::Debug) {
            let _ = write!(self.0, "{}={v:?}", f.name());
        }
    }
    pub struct Sink;
    impl tracing::Subscriber for Sink {
        fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
            true
        }
        fn new_span(&self, a: &span::Attributes<'_>) -> span::Id {
            a.record(&mut V(String::new()));
            span::Id::from_u64(SPANS.fetch_add(1, SeqCst) + 1)
        }
        fn record(&self, _: &span::Id, v: &span::Record<'_>) {
            v.record(&mut V(String::new()));
        }
        fn record_follows_from(&self, _: &span::Id, _: &span::Id) {}
        fn event(&self, e: &tracing::Event<'_>) {
            EVENTS.fetch_add(1, SeqCst);
            e.record(&mut V(String::new()));
        }
        fn enter(&self, _: &span::Id) {}
        fn exit(&self, _: &span::Id) {}
    }
    pub fn start() {
        tracing::subscriber::set_global_default(Sink).expect("subscriber");
    }
}

enum Strat {
    Rw(RandomWalk),
    Db(DepthBounded),
    Cg(CoverageGuided),
    Wt(Weighted),
}
impl Strat {
    fn make(k: usize, r: &mut Rng) -> Strat {
        let seed = r.seed32();
        let w = [0, 1, 2, 5, 100, u32::MAX, u32::MAX - 1, 1 << 31];
        match k % 4 {
            0 => Strat::Rw(RandomWalk::from_seed(seed)),
            1 => Strat::Db(DepthBounded::from_seed(*r.pick(&[0, 1, 2, 3, 6, usize::MAX]), seed)),
            2 => Strat::Cg(CoverageGuided::from_seed(seed)),
            _ => Strat::Wt(Weighted::from_seed(*r.pick(&w), *r.pick(&w), seed)),
        }
    }
}
/// a strategy for some choices, then the shortest way out
struct Fuse<'a> {
    inner: Strat,
    left: usize,
    h: &'a HashMap<String, usize>,
    trace: &'a RefCell<String>,
}
impl GenerationStrategy for Fuse<'_> {
    fn choose<'p>(&mut self, p: &'p Production, depth: usize) -> Option<&'p Expression> {
        let c = if self.left > 0 {
            self.left -= 1;
            match &mut self.inner {
                Strat::Rw(s) => s.choose(p, depth),
                Strat::Db(s) => s.choose(p, depth),
                Strat::Cg(s) => s.choose(p, depth),
                Strat::Wt(s) => s.choose(p, depth),
            }
        } else {
            p.rhs_iter().min_by_key(|e| e.terms_iter().map(|t| if let Term::Nonterminal(x) = t { self.h.get(x).copied().unwrap_or(0) } else { 0 }).max().unwrap_or(0))
        };
        self.trace.borrow_mut().push_str(&format!("{depth}:{:?}->{:?};", p.lhs, c));
        c
    }
}

fn caught(f: impl FnOnce() -> String) -> String {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(s) => s,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| (*s).to_string())).unwrap_or_default();
            format!("PANIC {m}")
        }
    }
}

fn result<X: std::fmt::Display + std::fmt::Debug>(r: Result<X, bnf::Error>) -> String {
    match r {
        Ok(g) => format!("ok {g} {g:?}"),
        Err(e) => format!("refused {e} {e:?}"),
    }
}

fn in_tree(t: &bnf::ParseTree<'_>, out: &mut String, left: &mut usize) {
    for c in t.rhs_iter() {
        if *left == 0 {
            return;
        }
        *left -= 1;
        match c {
            bnf::ParseTreeNode::Terminal(s) => out.push_str(&format!("{s:?} ")),
            bnf::ParseTreeNode::Nonterminal(t) => {
                out.push_str(&format!("{:?}( ", t.lhs));
                in_tree(t, out, left);
                out.push_str(") ");
            }
        }
    }
}

#[allow(deprecated)]
fn sections(p: &Plan) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![];
    let mut sec = |n: String, f: &mut dyn FnMut() -> String| v.push((n, caught(f)));
    // text
    for (k, (t, is_bnf)) in p.texts.iter().enumerate() {
        sec(format!("text {k} read as BNF"), &mut || result(Grammar::parse_from::<bnf::BNF>(t)));
        sec(format!("text {k} read as a production"), &mut || result(t.parse::<Production>()));
        sec(format!("text {k} read as an expression"), &mut || result(t.parse::<Expression>()));
        sec(format!("text {k} read as a term"), &mut || result(t.parse::<Term>()));
        if *is_bnf {
            sec(format!("BNF text {k} read with detection"), &mut || result(t.parse::<Grammar>()));
        }
        #[cfg(feature = "abnf")]
        {
            sec(format!("text {k} read as ABNF"), &mut || result(Grammar::parse_from::<bnf::ABNF>(t)));
            if !*is_bnf {
                sec(format!("ABNF text {k} read with detection"), &mut || result(t.parse::<Grammar>()));
            }
        }
        #[cfg(not(feature = "abnf"))]
        sec("always".into(), &mut || {
            let (a, b) = (t.parse::<Grammar>(), Grammar::parse_from::<bnf::BNF>(t));
            match (&a, &b) {
                (Ok(x), Ok(y)) if x == y => String::new(),
                (Err(_), Err(_)) => String::new(),
                _ => format!("without ABNF, text {k} is not read as BNF: {a:?} against {b:?}"),
            }
        });
    }
    let b = p.g.to_bnf();
    let st = Term::Nonterminal(p.start.clone());
    sec("formatting".into(), &mut || format!("{b} {b:?}"));
    #[cfg(feature = "serde")]
    sec("serialisation".into(), &mut || {
        let j = serde_json::to_string(&b).expect("json");
        let back: Grammar = serde_json::from_str(&j).expect("grammar");
        format!("{j} {}", back == b)
    });
    sec("validation".into(), &mut || match b.validate() {
        Err(e) if p.undefined <= 1 => format!("{e}"),
        x => format!("{}", x.is_ok()),
    });
    sec("building a parser".into(), &mut || b.build_parser().is_ok().to_string());
    for (k, (i, n)) in p.ins.iter().enumerate() {
        sec(format!("parsing input {k}"), &mut || {
            let Ok(parser) = b.build_parser() else { return "no parser".into() };
            let mut s = String::new();
            let mut left = 20_000;
            for (j, t) in parser.parse_input_starting_with(i, &st).take(*n).enumerate() {
                s.push_str(&format!("{:?} ", t.lhs));
                in_tree(&t, &mut s, &mut left);
                if j < 3 {
                    s.push_str(&t.to_string());
                    s.push_str(&t.mermaid().to_string());
                }
            }
            s
        });
        sec(format!("parsing input {k} the older way"), &mut || {
            let mut s = String::new();
            let mut left = 5_000;
            for t in b.parse_input_starting_with(i, &st).take(*n) {
                s.push_str(&format!("{:?} ", t.lhs));
                in_tree(&t, &mut s, &mut left);
            }
            s
        });
    }
    if !p.ins.is_empty() && matches!(&p.g.prods[0].lhs, T::N(x) if *x == p.start) {
        sec("parsing from the first rule".into(), &mut || {
            let (i, n) = &p.ins[0];
            let a = b.build_parser().map(|q| q.parse_input(i).take(*n).count()).unwrap_or(999);
            format!("{a} {}", b.parse_input(i).take(*n).count())
        });
    }
    let h: HashMap<String, usize> = p.heights.iter().cloned().collect();
    for k in 0..8usize {
        sec(format!("generation {k}"), &mut || {
            let trace = RefCell::new(String::new());
            let mut r = Rng::new(p.seed ^ k as u64);
            let mut f = Fuse { inner: Strat::make(k, &mut r), left: 12, h: &h, trace: &trace };
            let x = if k < 4 {
                b.generate_seeded_with_strategy(&mut f)
            } else {
                let calls = RefCell::new(0);
                b.generate_seeded_callback_with_strategy(
                    |n, s| {
                        trace.borrow_mut().push_str(&format!("{n}?{s};"));
                        *calls.borrow_mut() += 1;
                        *calls.borrow() > 2
                    },
                    &mut f,
                )
            };
            let t = trace.borrow().clone();
            format!("{x:?} {t}")
        });
    }
    if p.sub {
        sec("seeded generation".into(), &mut || {
            let mut rng = StdRng::seed_from_u64(p.seed);
            let a: Vec<_> = (0..3).map(|_| b.generate_seeded(&mut rng)).collect();
            let c = b.generate_seeded_callback(&mut rng, |_, s| s.len() < 400);
            format!("{a:?} {c:?}")
        });
    }
    sec("editing".into(), &mut || {
        let mut r = Rng::new(p.seed);
        let mut c = b.clone();
        let mut s = String::new();
        for _ in 0..6 {
            match r.below(4) {
                0 => c.add_production(b.productions_iter().nth(r.below(p.g.prods.len())).unwrap().clone()),
                1 => {
                    let q = b.productions_iter().nth(r.below(p.g.prods.len())).unwrap();
                    s.push_str(&format!("{:?}", c.remove_production(q)));
                }
                2 => {
                    if let Some(q) = c.productions_iter_mut().next() {
                        q.add_to_rhs(Expression::from_parts(vec![Term::Terminal("z".into()), st.clone()]));
                        if let Some(e) = b.productions_iter().next().and_then(|q| q.rhs_iter().next()) {
                            s.push_str(&format!("{:?}", q.remove_from_rhs(e)));
                        }
                    }
                }
                _ => {
                    for q in c.productions_iter_mut() {
                        for e in q.rhs_iter_mut() {
                            e.add_term(Term::Terminal("y".into()));
                            s.push_str(&format!("{:?}", e.remove_term(&st)));
                        }
                    }
                }
            }
        }
        format!("{s} {c} {}", c == b)
    });
    v
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    #[cfg(feature = "tracing")]
    if a.iter().any(|x| x == "listen") {
        listen::start();
    }
    let show: Option<usize> = a.iter().position(|x| x == "show").map(|k| a[k + 1].parse().expect("plan"));
    std::panic::set_hook(Box::new(|_| {}));
    let text = std::fs::read_to_string(&a[1]).expect("plans");
    let all = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            for (k, l) in text.lines().enumerate() {
                if show.is_some_and(|s| s != k) {
                    continue;
                }
                let p: Plan = serde_json::from_str(l).expect("plan");
                for (n, s) in sections(&p) {
                    if show.is_some() {
                        println!("{n}\u{1}{}", s.escape_debug());
                    } else if n == "always" {
                        if !s.is_empty() {
                            println!("BAD {k} {}", s.escape_debug());
                        }
                        println!("ALWAYS");
                    } else {
                        let hash = rng::hash_str(&s);
                        let tag = if s.starts_with("PANIC") { "PANIC" } else { "" };
                        println!("{k}\u{1}{n}\u{1}{hash:016x}{tag}");
                    }
                }
            }
        })
        .expect("thread");
    all.join().expect("plans");
    #[cfg(feature = "tracing")]
    println!("LISTENED {} {}", listen::SPANS.load(std::sync::atomic::Ordering::SeqCst), listen::EVENTS.load(std::sync::atomic::Ordering::SeqCst));
    println!("DONE");
}
