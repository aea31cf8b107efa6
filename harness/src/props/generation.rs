//! C14 membership of sentences, C15 success and failure, C16 reproducibility, C17 callback trace,
//! C18 depth bound, C19 coverage, C20 odds.
use super::Prop;
use crate::ctx::*;
use crate::r#gen::*;
use crate::model::*;
use crate::oracle::*;
use crate::rng::Rng;
use bnf::rand::{SeedableRng, rngs::StdRng};
use bnf::{CoverageGuided, DepthBounded, Error, Expression, GenerationStrategy, Grammar, Production, RandomWalk, Weighted};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C14",
        run: c14,
        quick: 120000,
        thorough: 4800000,
        cpu: 0.0,
        rule: "sentences from every generation method, strategy and several callbacks, each decided by the span recogniser (undefined nonterminals standing for their bracketed name); non-trivial: distinct (grammar, sentence)",
        need: &[("sentences", 10_000), ("with_undefined", 300), ("random_walk", 1000), ("depth_bounded", 1000), ("coverage_guided", 1000), ("weighted", 1000), ("with_callback", 1000), ("several_productions", 300), ("deeper_than_128", 100)],
        extra: None,
    },
    Prop {
        id: "C15",
        run: c15,
        quick: 250000,
        thorough: 10000000,
        cpu: 0.0,
        rule: "grammars with endless, undefined, empty and terminal-headed productions through every generation method; verdict compared with reachability and productivity computed independently and with the choices recorded at the strategy; non-trivial: distinct grammars",
        need: &[("must_fail", 2000), ("must_succeed", 3000), ("reached_endless", 300), ("avoided_endless", 300), ("spread_over_productions", 1000), ("empty_grammar", 20), ("terminal_first", 100)],
        extra: None,
    },
    Prop {
        id: "C16",
        run: c16,
        quick: 60000,
        thorough: 2400000,
        cpu: 0.0,
        rule: "sequences of generations with equal seeds on the same grammar, clones, rebuilt copies, with other work in between, with an all-accepting callback, and in a second process; non-trivial: distinct (grammar, seed) with at least two different sentences",
        need: &[("sequences_compared", 10_000), ("clones", 2000), ("interleaved", 2000), ("accepting_callback", 2000), ("digest_lines_compared_between_processes", 200)],
        extra: Some(|rep, seed, th| super::digest_extra("C16", rep, seed, if th { 6 } else { 1 })),
    },
    Prop {
        id: "C17",
        run: c17,
        quick: 250000,
        thorough: 10000000,
        cpu: 0.0,
        rule: "traces of strategy and callback events of one generation checked online against the stack discipline of expansions, with callbacks that reject by count, text or name; callback-only traces of the other methods checked against all readings; non-trivial: distinct traces with at least one rejection or three expansions",
        need: &[("callback_events", 30_000), ("rejections", 5000), ("choice_events", 30_000), ("callback_only_traces", 1000), ("deeper_than_128", 100)],
        extra: None,
    },
    Prop {
        id: "C18",
        run: c18,
        quick: 150000,
        thorough: 6000000,
        cpu: 0.0,
        rule: "direct choices of the depth-bounded strategy at depths around its bound, and whole generations whose recorded depths are compared with the nesting of expansions and with the bound; non-trivial: distinct (grammar, bound)",
        need: &[("choices_at_or_beyond", 20_000), ("choices_below", 20_000), ("generations", 3000), ("no_terminal_alternative", 500), ("bound_reached", 1000), ("deeper_than_128", 100), ("deep_bound_reached", 50)],
        extra: Some(|rep, _, _| super::c06::known(rep, "C18", "depth-bounded")),
    },
    Prop {
        id: "C19",
        run: c19,
        quick: 70000,
        thorough: 2800000,
        cpu: 0.0,
        rule: "choices of one coverage-guided strategy over many calls recorded per nonterminal: the first n must be the n alternatives; non-trivial: distinct (grammar, seed) with a nonterminal fully covered",
        need: &[("first_rounds_complete", 3000), ("direct_rounds", 2000), ("several_productions", 300), ("many_alternatives", 50), ("calls", 5000)],
        extra: None,
    },
    Prop {
        id: "C20",
        run: c20,
        quick: 2500,
        thorough: 100000,
        cpu: 0.0,
        rule: "frequencies of thousands of choices per case (7 standard deviations), zero weights, extreme weights, consecutive repeats, and the strategies behind generate, generate_seeded and their callback forms; non-trivial: distinct (production, weights, seed)",
        need: &[("draws", 1_000_000), ("weighted_cases", 300), ("zero_weight_cases", 100), ("all_zero_cases", 30), ("extreme_weight_cases", 50), ("method_draws", 50_000)],
        extra: None,
    },
];

// ---------- strategies ----------

/// one of the crate's strategies, or a plain random one of our own
pub enum Strat {
    Rw(RandomWalk),
    Db(DepthBounded),
    Cg(CoverageGuided),
    Wt(Weighted),
    Own(Rng),
}
impl Strat {
    pub fn make(k: usize, r: &mut Rng) -> Strat {
        let seed = r.seed32();
        match k % 5 {
            0 => Strat::Rw(RandomWalk::from_seed(seed)),
            1 => Strat::Db(DepthBounded::from_seed(r.range(0, 6), seed)),
            2 => Strat::Cg(CoverageGuided::from_seed(seed)),
            3 => {
                let w = [0, 1, 2, 5, 100, u32::MAX];
                Strat::Wt(Weighted::from_seed(*r.pick(&w), *r.pick(&w), seed))
            }
            _ => Strat::Own(r.clone()),
        }
    }
    fn event(&self) -> &'static str {
        match self {
            Strat::Rw(_) => "random_walk",
            Strat::Db(_) => "depth_bounded",
            Strat::Cg(_) => "coverage_guided",
            Strat::Wt(_) => "weighted",
            Strat::Own(_) => "own_strategy",
        }
    }
}
impl GenerationStrategy for Strat {
    fn choose<'p>(&mut self, p: &'p Production, depth: usize) -> Option<&'p Expression> {
        match self {
            Strat::Rw(s) => s.choose(p, depth),
            Strat::Db(s) => s.choose(p, depth),
            Strat::Cg(s) => s.choose(p, depth),
            Strat::Wt(s) => s.choose(p, depth),
            Strat::Own(r) => {
                let k = r.below(p.len());
                p.rhs_iter().nth(k)
            }
        }
    }
}

/// least expansion heights; undefined nonterminals end at once
pub struct Finish {
    h: HashMap<String, usize>,
}
impl Finish {
    pub fn new(g: &G) -> Finish {
        let cg = CG::new(g, Undef::Printed);
        let h = cg.heights();
        Finish { h: cg.names.iter().cloned().zip(h).collect() }
    }
    pub fn heights(&self) -> Vec<(String, usize)> {
        self.h.iter().map(|(k, v)| (k.clone(), *v)).collect()
    }
    pub fn from_heights(h: &[(String, usize)]) -> Finish {
        Finish { h: h.iter().cloned().collect() }
    }
    fn pick<'p>(&self, p: &'p Production) -> Option<&'p Expression> {
        p.rhs_iter().min_by_key(|e| e.terms_iter().map(|t| if let bnf::Term::Nonterminal(x) = t { self.h.get(x).copied().unwrap_or(0) } else { 0 }).max().unwrap_or(0))
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    Choose { nt: T, alts: usize, depth: usize, chosen: Alt },
    Offer { nt: String, text: String, ok: bool },
}

/// runs a strategy for a number of choices, then heads for the end; records every choice
pub struct Fuse<'a> {
    pub inner: &'a mut Strat,
    pub left: usize,
    pub fin: &'a Finish,
    pub trace: &'a RefCell<Vec<Ev>>,
}
impl GenerationStrategy for Fuse<'_> {
    fn choose<'p>(&mut self, p: &'p Production, depth: usize) -> Option<&'p Expression> {
        let c = if self.left > 0 {
            self.left -= 1;
            self.inner.choose(p, depth)
        } else {
            self.fin.pick(p)
        };
        self.trace.borrow_mut().push(Ev::Choose { nt: term_from(&p.lhs), alts: p.len(), depth, chosen: c.map(alt_from).unwrap_or_default() });
        c
    }
}

/// Would a uniform random walk from the first production end soon? (spectral radius of the mean
/// offspring matrix well below one)
pub fn subcritical(g: &G) -> bool {
    if g.prods.is_empty() {
        return true;
    }
    let cg = CG::new(g, Undef::Printed);
    let T::N(s) = &g.prods[0].lhs else { return true };
    let a = cg.idx[s];
    // expected number of expansions within 60 levels
    let n = cg.names.len();
    let mut cur = vec![0.0f64; n];
    cur[a] = 1.0;
    let mut total = 1.0;
    for lvl in 0..80 {
        let mut nx = vec![0.0f64; n];
        for x in 0..n {
            if cur[x] == 0.0 {
                continue;
            }
            let k = cg.by[x].len() as f64;
            for &ri in &cg.by[x] {
                for s in &cg.rules[ri].rhs {
                    if let Sym::N(y) = s {
                        nx[*y] += cur[x] / k;
                    }
                }
            }
        }
        let sum: f64 = nx.iter().sum();
        total += sum;
        if total > 60.0 {
            return false;
        }
        if sum < 1e-6 {
            return true;
        }
        let _ = lvl;
        cur = nx;
    }
    false
}

// ---------- grammars for generation ----------

/// merged alternatives of a nonterminal are a single one without terms: generation refuses it
fn no_choice(g: &G, nt: &str) -> bool {
    let a = g.alts_of(nt);
    a.is_empty() || (a.len() == 1 && a[0].is_empty())
}

pub fn gen_grammar(r: &mut Rng) -> G {
    let mut g = match r.below(10) {
        0 => large(r),
        1..=3 => {
            let mut g = classic(r);
            if r.chance(40) {
                tweak(r, &mut g);
            }
            g
        }
        _ => {
            let mut o = Opt::random(r);
            o.undef_pct = *r.pick(&[0, 0, 0, 15]);
            o.len.0 = 1;
            grammar(r, &o)
        }
    };
    // most nonterminals should be able to end
    if r.chance(70) {
        for k in 0..g.prods.len() {
            if r.chance(60) {
                let x = t(r.pick(&["x", "é", "", "yy"]));
                let at = r.below(g.prods[k].alts.len() + 1);
                g.prods[k].alts.insert(at, vec![x]);
            }
        }
    }
    g
}

fn member(cg: &CG, start: usize, s: &str) -> Option<bool> {
    if s.len() > 160 || s.len() * s.len() * cg.rules.len() > 8_000_000 {
        return None;
    }
    Some(Spans::new(cg, s.as_bytes()).accepts(start))
}

/// a callback that turns down some texts but not for ever
struct Vetoes {
    left: RefCell<usize>,
    kind: usize,
    salt: u64,
}
impl Vetoes {
    fn new(r: &mut Rng) -> Vetoes {
        Vetoes { left: RefCell::new(r.range(0, 12)), kind: r.below(5), salt: r.next() }
    }
    fn ok(&self, nt: &str, text: &str) -> bool {
        let veto = match self.kind {
            0 => true,
            1 => h(&(nt, text, self.salt)) % 2 == 0,
            2 => text.len() % 2 == 1,
            3 => h(&(nt, self.salt)) % 3 == 0,
            _ => false,
        };
        let mut l = self.left.borrow_mut();
        if veto && *l > 0 {
            *l -= 1;
            false
        } else {
            true
        }
    }
}

fn c14(ctx: &mut Ctx, r: &mut Rng) -> Res {
    if ctx.idx % 200 == 14 {
        return super::deep::run("C14", ctx, r);
    }
    let g = gen_grammar(r);
    let b = g.to_bnf();
    let cg = CG::new(&g, Undef::Printed);
    let T::N(s0) = &g.prods[0].lhs else { return Ok(()) };
    let start = cg.idx[s0];
    let fin = Finish::new(&g);
    let undef = g.undefined();
    let several = g.nts().len() != g.prods.len();
    let sub = subcritical(&g);
    let mut out: Vec<(String, String)> = vec![];
    for k in 0..6 {
        let trace = RefCell::new(vec![]);
        let mut st = Strat::make(k, r);
        let name = st.event();
        for _ in 0..2 {
            let v = Vetoes::new(r);
            let with_cb = r.chance(50);
            let left = r.range(0, 25);
            let mut f = Fuse { inner: &mut st, left, fin: &fin, trace: &trace };
            let res = if with_cb {
                ctx.event("with_callback");
                b.generate_seeded_callback_with_strategy(|n, t| v.ok(n, t), &mut f)
            } else {
                b.generate_seeded_with_strategy(&mut f)
            };
            trace.borrow_mut().clear();
            match res {
                Ok(s) => {
                    ctx.event(name);
                    out.push((name.to_string(), s));
                }
                Err(_) => ctx.event("generation_errors"),
            }
        }
    }
    if sub {
        let mut rng = StdRng::from_seed(r.seed32());
        let (v1, v2) = (Vetoes::new(r), Vetoes::new(r));
        for (what, res) in [("generate", b.generate()), ("generate_callback", b.generate_callback(|n, t| v1.ok(n, t))), ("generate_seeded", b.generate_seeded(&mut rng))] {
            if let Ok(s) = res {
                out.push((what.to_string(), s));
            }
        }
        if let Ok(s) = b.generate_seeded_callback(&mut rng, |n, t| v2.ok(n, t)) {
            out.push(("generate_seeded_callback".into(), s));
        }
        ctx.event("all_methods");
    }
    for (what, s) in out {
        let Some(m) = member(&cg, start, &s) else {
            ctx.event("too_long");
            continue;
        };
        ctx.event("sentences");
        if undef.iter().any(|u| s.contains(&format!("<{u}>"))) {
            ctx.event("with_undefined");
        }
        if several {
            ctx.event("several_productions");
        }
        ctx.eval(Some(h(&(&g, &s))));
        ctx.sample(|| format!("{what}: {s:?} from\n{}", g.show()));
        if !m {
            return Err(format!("{what} produced {s:?}, which the grammar does not derive\n{}", clip(&g.show(), 4000)));
        }
    }
    Ok(())
}

// ---------- C15 ----------

fn spread(r: &mut Rng, g: &G) -> G {
    // alternatives of each nonterminal over several productions, productions in another order, start first
    let mut prods: Vec<P> = vec![];
    for p in &g.prods {
        let mut rest = p.alts.clone();
        if r.chance(50) {
            r.shuffle(&mut rest);
        }
        while rest.len() > 1 && r.chance(60) {
            let k = r.range(1, rest.len() - 1);
            let tail = rest.split_off(k);
            prods.push(P { lhs: p.lhs.clone(), alts: rest });
            rest = tail;
        }
        prods.push(P { lhs: p.lhs.clone(), alts: rest });
    }
    let first = g.prods[0].lhs.clone();
    r.shuffle(&mut prods);
    let k = prods.iter().position(|p| p.lhs == first).expect("start");
    let p = prods.remove(k);
    prods.insert(0, p);
    G { prods }
}

fn c15(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let mut g = gen_grammar(r);
    // trouble
    for _ in 0..r.below(3) {
        let k = r.below(g.prods.len());
        match r.below(8) {
            0 => {
                g.prods.push(P { lhs: n("loop"), alts: vec![vec![n("loop"), t("l")], vec![t("m"), n("loop")]] });
                g.prods[k].alts.push(vec![n("loop")]);
            }
            1 => {
                g.prods.push(P { lhs: n("ping"), alts: vec![vec![n("pong")]] });
                g.prods.push(P { lhs: n("pong"), alts: vec![vec![t("p"), n("ping")]] });
                g.prods[k].alts.push(vec![t("k"), n("ping")]);
            }
            2 => {
                g.prods[k].alts = vec![vec![n("nowhere")]];
            }
            3 => {
                let l = g.prods[k].lhs.clone();
                g.prods[k].alts = vec![vec![l.clone(), l]];
            }
            4 => {
                g.prods.push(P { lhs: n("void"), alts: vec![] });
                g.prods[k].alts.push(vec![n("void")]);
            }
            5 => {
                g.prods.push(P { lhs: n("hole"), alts: vec![vec![]] });
                g.prods[k].alts.push(vec![t("h"), n("hole")]);
            }
            6 => {
                // endless only through a long way round
                let d = if r.below(90) == 0 { r.range(21, 500) } else { r.range(2, 20) };
                for i in 0..d {
                    g.prods.push(P { lhs: T::N(format!("z{i}")), alts: vec![vec![T::N(format!("z{}", (i + 1) % d)), t("z")]] });
                }
                g.prods[k].alts.push(vec![n("z0")]);
            }
            _ => {
                // ends only through a long way round, listed in an awkward order
                let d = if r.below(90) == 0 { r.range(31, 500) } else { r.range(2, 30) };
                let forward = r.chance(30);
                ctx.max("max_chain", d as u64);
                for i in 0..d {
                    let a = if i + 1 == d { vec![vec![t("w")]] } else { vec![vec![T::N(format!("w{}", i + 1))]] };
                    let at = if forward || r.chance(50) { g.prods.len() } else { r.range(1, g.prods.len()) };
                    g.prods.insert(at, P { lhs: T::N(format!("w{i}")), alts: a });
                }
                let at = if d > 30 || r.chance(50) { 0 } else { r.below(g.prods.len()) };
                g.prods[at].alts.push(vec![n("w0")]);
            }
        }
    }
    // productions of terminals, which define nothing: above all of ones that read like a nonterminal
    if r.chance(20) {
        let mut names: Vec<String> = g.prods.iter().map(|p| p.name().to_string()).collect();
        names.extend(g.prods.iter().flat_map(|p| p.alts.iter().flatten()).map(|x| match x {
            T::T(s) | T::N(s) => s.clone(),
        }));
        let missing: Vec<String> = names.iter().filter(|x| !g.defines(x)).cloned().collect();
        for _ in 0..r.range(1, 3) {
            let name = if !missing.is_empty() && r.chance(50) { r.pick(&missing).clone() } else { r.pick(&names).clone() };
            let name = if r.chance(10) { format!("<{name}>") } else { name };
            let at = r.range(1, g.prods.len());
            g.prods.insert(at, P { lhs: T::T(name), alts: r.pick(&[vec![vec![t("x")]], vec![vec![t("x"), t("y")], vec![t("z")]], vec![vec![n("s")]]]).clone() });
            ctx.event("terminal_sides");
        }
    }
    if r.chance(1) {
        g.prods.clear();
    } else if r.chance(3) {
        let s = r.pick(&["s", "t", ""]).to_string();
        g.prods.insert(0, P { lhs: T::T(s), alts: vec![vec![t("x")], vec![n("s")]] });
    }
    let spreaded = !g.prods.is_empty() && matches!(g.prods[0].lhs, T::N(_)) && r.chance(50);
    if spreaded {
        g = spread(r, &g);
        ctx.event("spread_over_productions");
    }
    let b = g.to_bnf();
    ctx.eval(Some(h(&g)));
    ctx.sample(|| g.show());
    let fin = Finish::new(&g);
    let sub = subcritical(&g);
    let fail = |what: &str, m: String| Err(format!("{what}: {m}\n{}", clip(&g.show(), 4000)));
    let empty = g.prods.is_empty();
    let first_terminal = !empty && matches!(g.prods[0].lhs, T::T(_));
    if empty {
        ctx.event("empty_grammar");
    }
    if first_terminal {
        ctx.event("terminal_first");
    }
    // by the grammar alone
    let strict = CG::new(&g, Undef::Nothing);
    let prod = strict.productive();
    let printed = CG::new(&g, Undef::Printed);
    let ends = printed.productive();
    let bad = |x: &str| printed.idx.get(x).is_some_and(|&i| !ends[i]) || (g.defines(x) && no_choice(&g, x));
    let must_fail = empty || first_terminal || !prod[strict.idx[g.prods[0].name()]];
    let must_succeed = !must_fail && {
        let a = strict.idx[g.prods[0].name()];
        let re = strict.reachable(a);
        (0..strict.names.len()).all(|i| !re[i] || (g.defines(&strict.names[i]) && prod[i] && !no_choice(&g, &strict.names[i])))
    };
    ctx.event(if must_fail {
        "must_fail"
    } else if must_succeed {
        "must_succeed"
    } else {
        "depends_on_choices"
    });
    let verdict = |what: &str, res: &Result<String, Error>| -> Res {
        match res {
            Ok(s) if must_fail => fail(what, format!("returned {s:?} although the starting rule leads to no terminals")),
            Err(Error::GenerateError(m)) => {
                if must_succeed {
                    fail(what, format!("failed with {m:?} although everything reachable can end"))
                } else {
                    Ok(())
                }
            }
            Err(e) => fail(what, format!("failed with {e:?}, not a generation error")),
            Ok(_) => Ok(()),
        }
    };
    for k in 0..5 {
        let mut st = Strat::make(k, r);
        let name = st.event();
        let trace = RefCell::new(vec![]);
        let left = r.range(0, 20);
        let mut f = Fuse { inner: &mut st, left, fin: &fin, trace: &trace };
        let res = if r.chance(30) { b.generate_seeded_callback_with_strategy(|_, _| true, &mut f) } else { b.generate_seeded_with_strategy(&mut f) };
        ctx.event("verdicts");
        verdict(name, &res)?;
        if must_fail || must_succeed {
            continue;
        }
        let start_bad = bad(g.prods[0].name());
        let reached = start_bad
            || trace.borrow().iter().any(|e| match e {
                Ev::Choose { chosen, .. } => chosen.iter().any(|x| matches!(x, T::N(x) if bad(x))),
                _ => false,
            });
        ctx.event(if reached { "reached_endless" } else { "avoided_endless" });
        match (&res, reached) {
            (Err(m), false) => return fail(name, format!("failed with {m:?} although every expansion it reached can end")),
            (Ok(s), true) => return fail(name, format!("returned {s:?} although it reached a nonterminal that cannot end")),
            _ => {}
        }
    }
    // the methods that bring their own strategy
    if sub || must_fail {
        let mut rng = StdRng::from_seed(r.seed32());
        for (what, res) in [
            ("generate", b.generate()),
            ("generate_callback", b.generate_callback(|_, _| true)),
            ("generate_seeded", b.generate_seeded(&mut rng)),
            ("generate_seeded_callback", b.generate_seeded_callback(&mut rng, |_, _| true)),
        ] {
            ctx.event("own_strategy_methods");
            verdict(what, &res)?;
        }
        let mut s = Strat::make(r.below(5), r);
        verdict("unfused", &match &mut s {
            Strat::Rw(s) => b.generate_seeded_with_strategy(s),
            _ => Ok(String::new()).and_then(|_: String| b.generate_seeded_with_strategy(&mut RandomWalk::from_seed(r.seed32()))),
        })?;
    }
    // a strategy that makes no choice
    if !must_fail && r.chance(10) {
        struct Never;
        impl GenerationStrategy for Never {
            fn choose<'p>(&mut self, _: &'p Production, _: usize) -> Option<&'p Expression> {
                None
            }
        }
        match b.generate_seeded_with_strategy(&mut Never) {
            Err(Error::GenerateError(_)) => ctx.event("no_choice_made"),
            o => return fail("a strategy that chooses nothing", format!("{o:?}")),
        }
    }
    Ok(())
}

// ---------- C16 ----------

/// the sentences (or errors) of a fixed sequence of calls
fn sequence(b: &Grammar, fin: &Finish, kind: usize, seed: [u8; 32], r0: &Rng, calls: usize, mode: usize, noise: &mut dyn FnMut()) -> Vec<String> {
    let mut r = r0.clone();
    let mut out = vec![];
    let mut st = Strat::make(kind, &mut r);
    let mut rng = StdRng::from_seed(seed);
    let trace = RefCell::new(vec![]);
    for c in 0..calls {
        let left = 12 + c % 5;
        let mut f = Fuse { inner: &mut st, left, fin, trace: &trace };
        let res = if mode % 2 == 1 { b.generate_seeded_callback_with_strategy(|_, _| true, &mut f) } else { b.generate_seeded_with_strategy(&mut f) };
        out.push(format!("{res:?}"));
        noise();
        if mode >= 2 {
            let res = if mode == 3 { b.generate_seeded_callback(&mut rng, |_, _| true) } else { b.generate_seeded(&mut rng) };
            out.push(format!("{res:?}"));
            noise();
        }
    }
    out
}

fn c16(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let g = gen_grammar(r);
    let b = g.to_bnf();
    let fin = Finish::new(&g);
    let sub = subcritical(&g);
    let kind = r.below(4);
    let seed = r.seed32();
    let base = if sub { 2 } else { 0 };
    let r0 = r.clone();
    r.next();
    let calls = if g.size() > 300 { 3 } else { 8 };
    let want = sequence(&b, &fin, kind, seed, &r0, calls, base, &mut || {});
    let distinct: HashSet<&String> = want.iter().collect();
    ctx.eval((distinct.len() > 1).then(|| h(&(&g, seed))));
    ctx.sample(|| format!("{want:?} from\n{}", g.show()));
    let cmp = |what: &str, got: Vec<String>| {
        if got == want { Ok(()) } else { Err(format!("{what}: same seed and calls gave\n{want:?}\nthen\n{got:?}\nstrategy kind {kind}\n{}", clip(&g.show(), 3000))) }
    };
    ctx.add("sequences_compared", 4);
    cmp("again", sequence(&b, &fin, kind, seed, &r0, calls, base, &mut || {}))?;
    cmp("with an all-accepting callback", sequence(&b, &fin, kind, seed, &r0, calls, base + 1, &mut || {}))?;
    ctx.event("accepting_callback");
    // copies: clone, rebuilt part by part, moved
    let hold: Vec<Grammar> = (0..r.below(4)).map(|_| b.clone()).collect();
    let copy = match r.below(3) {
        0 => b.clone(),
        1 => g.to_bnf(),
        _ => {
            let mut c = Grammar::new();
            for p in &g.prods {
                c.add_production(prod_to(p));
            }
            c
        }
    };
    ctx.event("clones");
    let boxed = Box::new(copy);
    cmp("on an equal copy", sequence(&boxed, &fin, kind, seed, &r0, calls, base, &mut || {}))?;
    drop(hold);
    // other work in between
    let other = gen_grammar(r).to_bnf();
    let me = b.clone();
    let first = me.productions_iter().next().map(|p| p.lhs.clone());
    let small = g.size() < 60;
    let fin2 = Finish::new(&G::from_bnf(&other));
    let nr = RefCell::new(r.clone());
    let mut noise = || {
        let mut q = nr.borrow_mut();
        match q.below(4) {
            0 => {
                let mut s = Strat::make(q.below(5), &mut q);
                let tr = RefCell::new(vec![]);
                let mut f = Fuse { inner: &mut s, left: 5, fin: &fin2, trace: &tr };
                let _ = other.generate_seeded_with_strategy(&mut f);
            }
            1 => {
                let mut s = Strat::make(q.below(5), &mut q);
                let tr = RefCell::new(vec![]);
                let mut f = Fuse { inner: &mut s, left: 5, fin: &fin, trace: &tr };
                let _ = me.generate_seeded_with_strategy(&mut f);
            }
            2 if small => {
                if let Ok(p) = me.build_parser()
                    && let Some(f) = &first
                {
                    let _ = p.parse_input_starting_with("", f).take(0).count();
                }
            }
            _ => {
                let _ = me.to_string();
            }
        }
    };
    cmp("with other work in between", sequence(&b, &fin, kind, seed, &r0, calls, base, &mut noise))?;
    ctx.event("interleaved");
    Ok(())
}

pub fn digest(seed: u64) {
    for k in 0..400u64 {
        let mut r = Rng::for_case("C16d", seed, k);
        let g = gen_grammar(&mut r);
        let b = g.to_bnf();
        let fin = Finish::new(&g);
        let sub = subcritical(&g);
        // move allocations around differently in each process
        let pad: Vec<String> = (0..std::process::id() % 17).map(|i| "x".repeat(i as usize * 3)).collect();
        for kind in 0..4 {
            let s = sequence(&b, &fin, kind, r.seed32(), &r, 5, if sub { 2 } else { 0 }, &mut || {});
            println!("{k} {kind} {}", h(&s));
        }
        // the constructors with a fixed default seed
        let tr = RefCell::new(vec![]);
        for mut st in [Strat::Cg(CoverageGuided::new()), Strat::Cg(CoverageGuided::default()), Strat::Wt(Weighted::default()), Strat::Wt(Weighted::new(3, 2))] {
            let mut f = Fuse { inner: &mut st, left: 15, fin: &fin, trace: &tr };
            println!("{k} default {:?}", b.generate_seeded_with_strategy(&mut f).map(|s| h(&s)).map_err(|e| e.to_string()));
        }
        drop(pad);
    }
}

// ---------- C17 ----------

/// checks a full trace of choices and offers against the discipline of expansions
struct Spec<'a> {
    g: &'a G,
    ev: &'a [Ev],
    p: usize,
    /// the generation ended with an error: the trace may stop anywhere
    cut: bool,
}
enum Stop {
    Cut,
    Bad(String),
}
impl Spec<'_> {
    fn next(&mut self) -> Result<&Ev, Stop> {
        if self.p < self.ev.len() {
            self.p += 1;
            Ok(&self.ev[self.p - 1])
        } else if self.cut {
            Err(Stop::Cut)
        } else {
            Err(Stop::Bad("the events end in the middle of an expansion".into()))
        }
    }
    fn expand(&mut self, nt: &str, depth: usize) -> Result<String, Stop> {
        loop {
            let at = self.p;
            let (chosen, d) = match self.next()? {
                Ev::Choose { nt: T::N(x), chosen, depth: d, .. } if x == nt => (chosen.clone(), *d),
                e => {
                    let m = format!("event {at}: expected the choice for <{nt}>, saw {e:?}");
                    return Err(Stop::Bad(m));
                }
            };
            if d != depth {
                return Err(Stop::Bad(format!("event {at}: <{nt}> is expanded at nesting {depth}, the strategy was told {d}")));
            }
            if !self.g.alts_of(nt).contains(&&chosen) {
                return Err(Stop::Bad(format!("event {at}: {chosen:?} is no alternative of <{nt}>")));
            }
            let mut text = String::new();
            for x in &chosen {
                match x {
                    T::T(s) => text.push_str(s),
                    T::N(y) if self.g.defines(y) => text.push_str(&self.expand(y, depth + 1)?),
                    T::N(y) => text.push_str(&format!("<{y}>")),
                }
            }
            let at = self.p;
            match self.next()? {
                Ev::Offer { nt: x, text: s, ok } if x == nt && *s == text => {
                    if *ok {
                        return Ok(text);
                    }
                }
                e => {
                    let m = format!("event {at}: expected <{nt}> to be offered with {text:?}, saw {e:?}");
                    return Err(Stop::Bad(m));
                }
            }
        }
    }
}

pub fn check_trace(g: &G, ev: &[Ev], res: &Result<String, Error>) -> Res {
    let mut s = Spec { g, ev, p: 0, cut: res.is_err() };
    match s.expand(g.prods[0].name(), 0) {
        Ok(text) => {
            if s.p != ev.len() {
                return Err(format!("{} events after the starting rule was accepted", ev.len() - s.p));
            }
            match res {
                Ok(r) if *r == text => Ok(()),
                Ok(r) => Err(format!("returned {r:?}, the last accepted text of the starting rule is {text:?}")),
                Err(e) => Err(format!("failed with {e:?} after the starting rule was accepted")),
            }
        }
        Err(Stop::Cut) => Ok(()),
        Err(Stop::Bad(m)) => Err(m),
    }
}

/// offers alone: keeps every reading of the offers as a stack of accepted pieces
fn check_offers(g: &G, ev: &[Ev], res: &Result<String, Error>) -> Option<Res> {
    let mut states: HashSet<Vec<(String, String)>> = HashSet::new();
    states.insert(vec![]);
    for (i, e) in ev.iter().enumerate() {
        let Ev::Offer { nt, text, ok } = e else { continue };
        let mut nx = HashSet::new();
        for st in &states {
            for a in g.alts_of(nt) {
                let k = a.iter().filter(|x| matches!(x, T::N(y) if g.defines(y))).count();
                if k > st.len() {
                    continue;
                }
                let mut at = st.len() - k;
                let mut s = String::new();
                let mut good = true;
                for x in a {
                    match x {
                        T::T(t) => s.push_str(t),
                        T::N(y) if g.defines(y) => {
                            good &= st[at].0 == *y;
                            s.push_str(&st[at].1);
                            at += 1;
                        }
                        T::N(y) => s.push_str(&format!("<{y}>")),
                    }
                }
                if good && s == *text {
                    let mut w = st[..st.len() - k].to_vec();
                    if *ok {
                        w.push((nt.clone(), text.clone()));
                    }
                    nx.insert(w);
                }
            }
        }
        if nx.is_empty() {
            return Some(Err(format!("offer {i}: <{nt}> with {text:?} is not made of the pieces accepted so far")));
        }
        if nx.len() > 200 {
            return None;
        }
        states = nx;
    }
    if let Ok(r) = res {
        let want = vec![(g.prods[0].name().to_string(), r.clone())];
        if !states.contains(&want) {
            return Some(Err(format!("returned {r:?}, which is not the last accepted text of the starting rule made of accepted pieces only")));
        }
    }
    Some(Ok(()))
}

fn show_trace(ev: &[Ev]) -> String {
    clip(&ev.iter().map(|e| format!("{e:?}")).collect::<Vec<_>>().join("\n"), 4000)
}

/// thousands of rejections of one nonterminal in a row
fn stubborn(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let g = G {
        prods: vec![
            P { lhs: n("s"), alts: vec![vec![t("x"), n("a"), t("y")], vec![t("z"), n("a"), t("y")]] },
            P { lhs: n("a"), alts: vec![vec![t("p")], vec![t("q")], vec![n("b")]] },
            P { lhs: n("b"), alts: vec![vec![t("r")], vec![t("")]] },
        ],
    };
    let b = g.to_bnf();
    let target = *r.pick(&["s", "a", "b"]);
    let times = *r.pick(&[20usize, 70, 130, 260, 520, 1030, 2500, 5000, 10_100, 66_000]);
    let seen = RefCell::new((0usize, vec![String::new(); 3], None::<String>));
    let cb = |nt: &str, text: &str| {
        let mut s = seen.borrow_mut();
        let k = ["s", "a", "b"].iter().position(|x| *x == nt);
        let Some(k) = k else {
            s.2 = Some(format!("offered {nt:?}"));
            return true;
        };
        // what it must be made of
        let ok = match k {
            2 => text == "r" || text.is_empty(),
            1 => text == "p" || text == "q" || text == s.1[2],
            _ => text == format!("x{}y", s.1[1]) || text == format!("z{}y", s.1[1]),
        };
        if !ok && s.2.is_none() {
            s.2 = Some(format!("{nt} was offered with {text:?}; accepted so far {:?}", s.1));
        }
        let yes = if nt == target {
            s.0 += 1;
            s.0 > times
        } else {
            true
        };
        if yes {
            s.1[k] = text.to_string();
        }
        yes
    };
    let mut rng = StdRng::from_seed(r.seed32());
    let res = match r.below(3) {
        0 => b.generate_callback(cb),
        1 => b.generate_seeded_callback(&mut rng, cb),
        _ => b.generate_seeded_callback_with_strategy(cb, &mut Strat::make(0, r)),
    };
    let (asked, acc, wrong) = seen.into_inner();
    ctx.event("stubborn_callbacks");
    ctx.max("max_rejections_in_a_row", asked as u64);
    let what = format!("<{target}> rejected {times} times in a row, offered {asked} times, result {res:?}\n{}", g.show());
    if let Some(w) = wrong {
        return Err(format!("{w}\n{what}"));
    }
    let s = res.map_err(|e| format!("generation fails with {e}\n{what}"))?;
    if s != acc[0] {
        return Err(format!("the result is not the last accepted text {:?} of the starting rule\n{what}", acc[0]));
    }
    // <a> and <b> need not be asked for in the end, <s> and <a> must
    if target != "b" && asked <= times {
        return Err(format!("finished without the callback accepting it\n{what}"));
    }
    Ok(())
}

fn c17(ctx: &mut Ctx, r: &mut Rng) -> Res {
    if ctx.idx % 150 == 17 {
        return stubborn(ctx, r);
    }
    if ctx.idx % 400 == 18 {
        return super::deep::run("C17", ctx, r);
    }
    let g = gen_grammar(r);
    let b = g.to_bnf();
    let fin = Finish::new(&g);
    for _ in 0..3 {
        let trace = RefCell::new(vec![]);
        let v = Vetoes::new(r);
        let mut st = Strat::make(r.below(5), r);
        let left = r.range(0, 30);
        let mut f = Fuse { inner: &mut st, left, fin: &fin, trace: &trace };
        let res = b.generate_seeded_callback_with_strategy(
            |nt, text| {
                let ok = v.ok(nt, text);
                trace.borrow_mut().push(Ev::Offer { nt: nt.to_string(), text: text.to_string(), ok });
                ok
            },
            &mut f,
        );
        let ev = trace.into_inner();
        let offers = ev.iter().filter(|e| matches!(e, Ev::Offer { .. })).count();
        let rej = ev.iter().filter(|e| matches!(e, Ev::Offer { ok: false, .. })).count();
        ctx.add("callback_events", offers as u64);
        ctx.add("choice_events", (ev.len() - offers) as u64);
        ctx.add("rejections", rej as u64);
        ctx.event(if res.is_ok() { "completed" } else { "ended_in_error" });
        if ev.is_empty() && res.is_err() {
            continue;
        }
        ctx.eval((rej > 0 || offers >= 3).then(|| h(&ev)));
        ctx.sample(|| format!("{}{}\n-> {res:?}", g.show(), show_trace(&ev)));
        if res.is_err() {
            // an error is for what cannot end, never for a rejection (judged by C15); the prefix must fit
            ctx.event("prefix_only");
        }
        check_trace(&g, &ev, &res).map_err(|m| format!("{m}\n{}trace:\n{}\nresult {res:?}", clip(&g.show(), 3000), show_trace(&ev)))?;
    }
    if subcritical(&g) && g.size() < 120 {
        let mut rng = StdRng::from_seed(r.seed32());
        for k in 0..2 {
            let log = RefCell::new(vec![]);
            let v = Vetoes::new(r);
            let cb = |nt: &str, text: &str| {
                let ok = v.ok(nt, text);
                log.borrow_mut().push(Ev::Offer { nt: nt.to_string(), text: text.to_string(), ok });
                ok
            };
            let res = if k == 0 { b.generate_callback(cb) } else { b.generate_seeded_callback(&mut rng, cb) };
            let ev = log.into_inner();
            if ev.len() > 200 {
                continue;
            }
            ctx.add("callback_events", ev.len() as u64);
            ctx.add("rejections", ev.iter().filter(|e| matches!(e, Ev::Offer { ok: false, .. })).count() as u64);
            match check_offers(&g, &ev, &res) {
                None => ctx.event("too_many_readings"),
                Some(Ok(())) => ctx.event("callback_only_traces"),
                Some(Err(m)) => return Err(format!("{}: {m}\n{}offers:\n{}\nresult {res:?}", if k == 0 { "generate_callback" } else { "generate_seeded_callback" }, clip(&g.show(), 3000), show_trace(&ev))),
            }
        }
    }
    Ok(())
}

// ---------- C18 ----------

fn only_terminals(a: &[T]) -> bool {
    a.iter().all(|x| matches!(x, T::T(_)))
}

fn position(p: &Production, e: &Expression) -> Option<usize> {
    p.rhs_iter().position(|x| std::ptr::eq(x, e))
}

fn c18(ctx: &mut Ctx, r: &mut Rng) -> Res {
    if ctx.idx % 200 == 18 {
        return super::deep::run("C18", ctx, r);
    }
    // direct choices
    {
        let mut o = Opt::random(r);
        o.nts = (1, 3);
        o.alts = *r.pick(&[(1, 3), (2, 8), (5, 40)]);
        let g = grammar(r, &o);
        let m = r.pick(&g.prods).clone();
        let p = prod_to(&m);
        let bound = *r.pick(&[0, 1, 2, 3, 5, 10, 1000, usize::MAX]);
        let mut db = DepthBounded::from_seed(bound, r.seed32());
        if db.max_depth != bound {
            return Err(format!("asked for bound {bound}, max_depth says {}", db.max_depth));
        }
        let term: Vec<bool> = m.alts.iter().map(|a| only_terminals(a)).collect();
        let has = term.iter().any(|x| *x);
        let nalts = m.alts.len();
        for _ in 0..3 {
            if r.chance(20) {
                db.max_depth = r.below(6);
            }
            let depth = match r.below(6) {
                0 => db.max_depth,
                1 => db.max_depth.saturating_sub(1),
                2 => db.max_depth.saturating_add(1),
                3 => usize::MAX,
                4 => 0,
                _ => r.below(12),
            };
            let beyond = depth >= db.max_depth;
            let draws = 45 * nalts.max(1);
            let mut seen = vec![0usize; nalts];
            for _ in 0..draws {
                let Some(e) = db.choose(&p, depth) else { return Err(format!("depth {depth}, bound {}: nothing chosen from {}", db.max_depth, p)) };
                let Some(i) = position(&p, e) else { return Err("an expression that is not of the production was chosen".into()) };
                seen[i] += 1;
                if beyond && has && !term[i] {
                    return Err(format!("depth {depth}, bound {}: chose {} of {p}", db.max_depth, e));
                }
            }
            if beyond {
                ctx.add("choices_at_or_beyond", draws as u64);
                if !has {
                    ctx.event("no_terminal_alternative");
                }
            } else {
                ctx.add("choices_below", draws as u64);
                if let Some(i) = seen.iter().position(|c| *c == 0) {
                    return Err(format!("depth {depth} is below the bound {} but alternative {i} of {p} never came up in {draws} choices", db.max_depth));
                }
            }
        }
        ctx.eval(Some(h(&(&m, bound))));
        // several productions in turn, the bound changed on the way
        let ps: Vec<(P, Production)> = g.prods.iter().map(|m| (m.clone(), prod_to(m))).collect();
        let mut below: HashMap<usize, Vec<u32>> = HashMap::new();
        for _ in 0..200 {
            let j = r.below(ps.len());
            if r.chance(10) {
                db.max_depth = r.below(6);
            }
            let depth = r.below(7);
            let (m, p) = &ps[j];
            if p.is_empty() {
                continue;
            }
            let Some(i) = db.choose(p, depth).and_then(|e| position(p, e)) else { return Err(format!("nothing (or a foreign expression) chosen from {p}")) };
            if depth >= db.max_depth {
                if !only_terminals(&m.alts[i]) && m.alts.iter().any(|a| only_terminals(a)) {
                    return Err(format!("depth {depth}, bound {}, after other productions: chose alternative {i} of {p}", db.max_depth));
                }
            } else {
                below.entry(j).or_insert_with(|| vec![0; p.len()])[i] += 1;
            }
        }
        for (j, c) in below {
            let n: u32 = c.iter().sum();
            if n as usize >= 45 * c.len()
                && let Some(i) = c.iter().position(|x| *x == 0)
            {
                return Err(format!("below the bound, among other productions, alternative {i} of {} never came up in {n} choices", ps[j].1));
            }
        }
        ctx.event("mixed_productions");
    }
    // whole generations
    let mut o = Opt::random(r);
    o.alts = (1, 3);
    o.len = (1, 3);
    o.nts = (1, 5);
    o.undef_pct = *r.pick(&[0, 0, 20]);
    let mut g = grammar(r, &o);
    for k in 0..g.prods.len() {
        // every nonterminal gets a terminal-only alternative
        let name = g.prods[k].name().to_string();
        if !g.alts_of(&name).iter().any(|a| only_terminals(a) && !a.is_empty()) {
            let at = r.below(g.prods[k].alts.len() + 1);
            g.prods[k].alts.insert(at, vec![t("end")]);
        }
    }
    let b = g.to_bnf();
    let bound = if subcritical(&g) { *r.pick(&[0, 1, 2, 4, 8, 50]) } else { r.range(0, 5) };
    let mut db = Strat::Db(DepthBounded::from_seed(bound, r.seed32()));
    let fin = Finish::new(&g);
    for _ in 0..3 {
        let trace = RefCell::new(vec![]);
        let mut f = Fuse { inner: &mut db, left: usize::MAX, fin: &fin, trace: &trace };
        // expanding afresh after a rejection is at the same depth
        let v = r.chance(40).then(|| Vetoes::new(r));
        if v.is_some() {
            ctx.event("with_rejections");
        }
        let res = b.generate_seeded_callback_with_strategy(
            |nt, text| {
                let ok = v.as_ref().is_none_or(|v| v.ok(nt, text));
                trace.borrow_mut().push(Ev::Offer { nt: nt.to_string(), text: text.to_string(), ok });
                ok
            },
            &mut f,
        );
        let ev = trace.into_inner();
        ctx.event("generations");
        let max = ev.iter().map(|e| if let Ev::Choose { depth, .. } = e { *depth } else { 0 }).max().unwrap_or(0);
        if max == bound {
            ctx.event("bound_reached");
        }
        ctx.max("max_depth_seen", max as u64);
        ctx.eval(Some(h(&(&g, bound))));
        ctx.sample(|| format!("bound {bound}, deepest {max}\n{}-> {res:?}", g.show()));
        if res.is_err() {
            ctx.event("errors");
            continue;
        }
        // real nesting, from the trace itself (also compares it with the depth the strategy was told)
        check_trace(&g, &ev, &res).map_err(|m| format!("{m}\n{}trace:\n{}", clip(&g.show(), 3000), show_trace(&ev)))?;
        if max > bound {
            return Err(format!("bound {bound}, but expanded at depth {max}\n{}trace:\n{}", clip(&g.show(), 3000), show_trace(&ev)));
        }
    }
    // also without a wrapper: ends by itself, and the sentence is one of bounded height
    let mut plain = DepthBounded::from_seed(bound, r.seed32());
    let _ = b.generate_seeded_with_strategy(&mut plain);
    if r.chance(10) {
        let _ = b.generate_seeded_with_strategy(&mut DepthBounded::new(bound.min(5)));
    }
    Ok(())
}

pub fn probe_depth_bounded() -> i32 {
    let r = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(|| {
            let g: Grammar = "<s> ::= <s> <s> <s> | <a>\n<a> ::= 'x'".parse().expect("grammar");
            let mut s = DepthBounded::from_seed(3, [7; 32]);
            i32::from(g.generate_seeded_with_strategy(&mut s).is_err())
        })
        .expect("thread");
    r.join().unwrap_or(1)
}

// ---------- C19 ----------

fn distinct_alts(g: &mut G) {
    // equal alternatives cannot be told apart from outside: make all of a nonterminal's distinct
    let mut seen: HashSet<(T, Alt)> = HashSet::new();
    for p in &mut g.prods {
        let l = p.lhs.clone();
        p.alts.retain(|a| seen.insert((l.clone(), a.clone())));
    }
    g.prods.retain(|p| !p.alts.is_empty());
}

fn c19(ctx: &mut Ctx, r: &mut Rng) -> Res {
    // direct
    {
        let k = *r.pick(&[1usize, 2, 3, 5, 8, 17, 40, 63, 64, 65, 100, 130, 257]);
        let k = if r.below(300) == 0 { r.range(258, 1100) } else { k };
        let np = if r.below(100) == 0 { r.range(4, 6000 / k.max(4)) } else { r.range(1, 3) };
        let np = if np > 3 && k > 3 { np.min(40) } else { np };
        ctx.max("max_nonterminals_at_once", np as u64);
        let prods: Vec<Production> = (0..np)
            .map(|j| Production::from_parts(bnf::Term::Nonterminal(format!("p{j}")), (0..k + j % 3).map(|i| alt_to(&[T::T(format!("{}", if r.chance(10) { 0 } else { i }))])).collect()))
            .collect();
        let mut s = match r.below(3) {
            0 => CoverageGuided::new(),
            1 => CoverageGuided::default(),
            _ => CoverageGuided::from_seed(r.seed32()),
        };
        let mut seen: Vec<HashSet<usize>> = vec![HashSet::new(); prods.len()];
        let steps = (k + 3) * prods.len() * 2;
        for step in 0..steps {
            // alternate at random, then finish each
            let j = if step < steps / 2 { r.below(prods.len()) } else { step % prods.len() };
            let Some(e) = s.choose(&prods[j], r.below(5)) else { return Err("nothing chosen".into()) };
            let Some(i) = position(&prods[j], e) else { return Err("an expression that is not of the production was chosen".into()) };
            if seen[j].len() < prods[j].len() && !seen[j].insert(i) {
                return Err(format!("alternative {i} of {} chosen again while {} of {} were untried", prods[j].lhs, prods[j].len() - seen[j].len(), prods[j].len()));
            }
        }
        ctx.event("direct_rounds");
        if k > 64 {
            ctx.event("many_alternatives");
        }
    }
    let mut g = gen_grammar(r);
    if r.chance(8) {
        // one nonterminal with many alternatives, over several productions
        let k = r.range(66, 200);
        g = G { prods: vec![P { lhs: n("s"), alts: vec![vec![n("w"), n("w"), n("w")], vec![n("w"), t("."), n("w")]] }] };
        let mut i = 0;
        while i < k {
            let m = r.range(1, k - i);
            g.prods.push(P { lhs: n("w"), alts: (i..i + m).map(|x| vec![T::T(format!("a{x}"))]).collect() });
            i += m;
        }
        ctx.event("many_alternatives");
    }
    distinct_alts(&mut g);
    if g.prods.is_empty() {
        return Ok(());
    }
    let several = g.nts().len() != g.prods.len();
    if several {
        ctx.event("several_productions");
    }
    let b = g.to_bnf();
    let copy = b.clone();
    let fin = Finish::new(&g);
    let seed = r.seed32();
    let mut st = Strat::Cg(CoverageGuided::from_seed(seed));
    let mut hist: HashMap<String, Vec<Alt>> = HashMap::new();
    let mut complete = 0;
    let calls = r.range(5, 60);
    for _ in 0..calls {
        let trace = RefCell::new(vec![]);
        let left = r.range(1, 40);
        let v = Vetoes::new(r);
        let mut f = Fuse { inner: &mut st, left, fin: &fin, trace: &trace };
        let on = if r.chance(20) { &copy } else { &b };
        let _ = if r.chance(30) { on.generate_seeded_callback_with_strategy(|n, t| v.ok(n, t), &mut f) } else { on.generate_seeded_with_strategy(&mut f) };
        ctx.event("calls");
        // only the strategy's own choices count, the finishing ones were ours
        for (i, e) in trace.into_inner().into_iter().filter(|e| matches!(e, Ev::Choose { .. })).enumerate() {
            if i >= left {
                break;
            }
            let Ev::Choose { nt: T::N(x), chosen, .. } = e else { continue };
            ctx.event("choices");
            let all = g.alts_of(&x).len();
            let hs = hist.entry(x.clone()).or_default();
            if hs.len() < all {
                if hs.contains(&chosen) {
                    return Err(format!("<{x}>: {:?} chosen again after {} of {all} alternatives\n{}", chosen.iter().map(show_t).collect::<Vec<_>>(), hs.len(), clip(&g.show(), 4000)));
                }
                hs.push(chosen);
                if hs.len() == all {
                    complete += 1;
                }
            }
        }
    }
    ctx.add("first_rounds_complete", complete);
    ctx.eval((complete > 0).then(|| h(&(&g, seed))));
    ctx.sample(|| format!("{calls} calls, {complete} nonterminals fully covered\n{}", g.show()));
    Ok(())
}

// ---------- C20 ----------

fn frequencies(what: &str, counts: &[u64], want: &[f64], detail: &dyn Fn() -> String) -> Res {
    let n: u64 = counts.iter().sum();
    let tot: f64 = want.iter().sum();
    // all alternatives together: the tail bound of Laurent and Massart for chance e^-45, where
    // every expected count is large enough for Pearson's statistic to be near chi-square
    let pos: Vec<(f64, f64)> = counts.iter().zip(want).filter(|(_, w)| **w > 0.0).map(|(c, w)| (*c as f64, n as f64 * w / tot)).collect();
    if pos.len() > 1 && pos.iter().all(|(_, e)| *e >= 15.0) {
        let x2: f64 = pos.iter().map(|(c, e)| (c - e) * (c - e) / e).sum();
        let d = (pos.len() - 1) as f64;
        let limit = d + 2.0 * (45.0 * d).sqrt() + 90.0;
        if x2 > limit {
            return Err(format!("{what}: {n} choices among {} alternatives, chi-square {x2:.0} (expected {d:.0}, limit {limit:.0}): {counts:?}\n{}", pos.len(), detail()));
        }
    }
    for (i, (c, w)) in counts.iter().zip(want).enumerate() {
        let p = w / tot;
        let mean = n as f64 * p;
        let sd = (n as f64 * p * (1.0 - p)).sqrt();
        let slack = 7.0 * sd + if p < 1.0 && mean < 50.0 && mean > 0.0 { 10.0 } else { 0.5 };
        if p == 0.0 && *c > 0 {
            return Err(format!("{what}: alternative {i} has weight zero but came up {c} times\n{}", detail()));
        }
        if (*c as f64 - mean).abs() > slack {
            return Err(format!("{what}: alternative {i} came up {c} times in {n}, expected {mean:.1} (standard deviation {sd:.1})\n{}", detail()));
        }
    }
    Ok(())
}

/// the run-time behaviour of a sequence of picks, too: no dependence of one on the one before
fn repeats(what: &str, picks: &[usize], p_same: f64, detail: &dyn Fn() -> String) -> Res {
    if picks.len() < 1000 || p_same > 0.99 {
        return Ok(());
    }
    let same = picks.windows(2).filter(|w| w[0] == w[1]).count() as f64;
    let n = (picks.len() - 1) as f64;
    let mean = n * p_same;
    // neighbouring pairs overlap: a generous bound
    let sd = (n * p_same * (1.0 - p_same)).sqrt() * 1.8;
    if (same - mean).abs() > 7.0 * sd + 10.0 {
        return Err(format!("{what}: the same alternative came up twice in a row {same} times in {n}, expected {mean:.1}\n{}", detail()));
    }
    Ok(())
}

fn c20(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let big = if r.chance(20) { 600 } else { 200 };
    let k = *r.pick(&[1usize, 2, 2, 3, 3, 4, 5, 7, 10, 20, 33, 64, 70, 150, big]);
    let lhs = r.pick(&["s", "x y", "é", ""]).to_string();
    let mut alts: Vec<Alt> = vec![];
    let rec_pct = *r.pick(&[0, 30, 50, 100]);
    for i in 0..k {
        let mut a: Alt = (0..r.range(0, 3)).map(|j| if r.chance(30) { n("other") } else { T::T(format!("{j}")) }).collect();
        // things that look like recursion but are not
        match r.below(6) {
            0 => a.push(T::T(lhs.clone())),
            1 => a.push(T::T(format!("<{lhs}>"))),
            2 => a.push(T::N(format!("{lhs} "))),
            _ => {}
        }
        a.push(T::T(format!("#{i}")));
        if r.chance(rec_pct) {
            for _ in 0..r.range(1, 2) {
                let at = r.below(a.len() + 1);
                a.insert(at, T::N(lhs.clone()));
            }
        }
        alts.push(a);
    }
    // an alternative listed more than once counts each time
    if k > 1 && r.chance(25) {
        for _ in 0..r.range(1, k / 2) {
            let (i, j) = (r.below(k), r.below(k));
            alts[i] = alts[j].clone();
        }
        ctx.event("repeated_alternatives");
    }
    let m = P { lhs: T::N(lhs.clone()), alts };
    let p = prod_to(&m);
    // which of the equal ones is returned cannot be told from outside: count by value
    let class: Vec<usize> = m.alts.iter().map(|a| m.alts.iter().position(|b| a == b).expect("itself")).collect();
    let by_value = |w: &[f64]| -> Vec<f64> {
        let mut v = vec![0.0; w.len()];
        for (i, x) in w.iter().enumerate() {
            v[class[i]] += x;
        }
        v
    };
    let rec: Vec<bool> = m.alts.iter().map(|a| a.contains(&m.lhs)).collect();
    let draws = if k > 30 { 9_000.max(20 * k) } else { 5000 };
    let seed = r.seed32();
    let depth_of = |r: &mut Rng| *r.pick(&[0usize, 1, 5, 1000, usize::MAX]);
    let run = |s: &mut dyn FnMut(usize) -> Option<usize>, r: &mut Rng| -> Result<(Vec<u64>, Vec<usize>), String> {
        let mut c = vec![0u64; k];
        let mut seq = vec![];
        for _ in 0..draws {
            let d = depth_of(r);
            let Some(i) = s(d).map(|i| class[i]) else { return Err(format!("nothing (or a foreign expression) chosen from {p}")) };
            c[i] += 1;
            seq.push(i);
        }
        Ok((c, seq))
    };
    let show = || P::show(&m);
    // random walk
    let mut rw = if r.chance(50) { RandomWalk::from_seed(seed) } else { RandomWalk::default() };
    let (c, seq) = run(&mut |d| rw.choose(&p, d).and_then(|e| position(&p, e)), r)?;
    let want = by_value(&vec![1.0; k]);
    frequencies("random walk", &c, &want, &show)?;
    repeats("random walk", &seq, want.iter().map(|x| (x / k as f64) * (x / k as f64)).sum(), &show)?;
    ctx.add("draws", draws as u64);
    // weighted
    let ws: &[u32] = &[0, 1, 1, 2, 3, 10, 100, 1000, 1 << 31, u32::MAX, u32::MAX - 1, u32::MAX / 2];
    for _ in 0..3 {
        let (a, b) = (*r.pick(ws), *r.pick(ws));
        let mut w = match r.below(4) {
            0 => Weighted::new(a, b),
            1 => {
                let mut w = Weighted::default();
                if (w.recursive_weight, w.non_recursive_weight) != (100, 1) {
                    ctx.event("other_default_weights");
                }
                w.recursive_weight = a;
                w.non_recursive_weight = b;
                w
            }
            _ => Weighted::from_seed(a, b, seed),
        };
        if (w.recursive_weight, w.non_recursive_weight) != (a, b) {
            return Err(format!("weights ({a}, {b}) are stored as ({}, {})", w.recursive_weight, w.non_recursive_weight));
        }
        let (c, seq) = run(&mut |d| w.choose(&p, d).and_then(|e| position(&p, e)), r)?;
        ctx.add("draws", draws as u64);
        ctx.event("weighted_cases");
        let mut want: Vec<f64> = rec.iter().map(|x| f64::from(if *x { a } else { b })).collect();
        if want.contains(&0.0) {
            ctx.event("zero_weight_cases");
        }
        if want.iter().all(|x| *x == 0.0) {
            want = vec![1.0; k];
            ctx.event("all_zero_cases");
        }
        if a.max(b) > 1 << 30 {
            ctx.event("extreme_weight_cases");
        }
        let want = by_value(&want);
        let what = format!("weights ({a}, {b})");
        frequencies(&what, &c, &want, &show)?;
        let tot: f64 = want.iter().sum();
        repeats(&what, &seq, want.iter().map(|x| (x / tot) * (x / tot)).sum(), &show)?;
        ctx.eval((k > 1).then(|| h(&(&m, a, b, seed))));
    }
    ctx.sample(|| P::show(&m));
    mixed(ctx, r)?;
    // through the methods: the alternatives are single terminals, spread over productions
    let mut g = G { prods: vec![P { lhs: n("s"), alts: (0..k).map(|i| vec![T::T(format!("{i},"))]).collect() }] };
    if r.chance(40) {
        g = spread(r, &g);
    }
    let b = g.to_bnf();
    let mut c = vec![0u64; k];
    let mut rng = StdRng::from_seed(r.seed32());
    let which = r.below(5);
    let total = 1500.max(30 * k);
    let mut st = RandomWalk::from_seed(r.seed32());
    for _ in 0..total {
        let s = match which {
            0 => b.generate(),
            1 => b.generate_callback(|_, _| true),
            2 => b.generate_seeded(&mut rng),
            3 => b.generate_seeded_callback(&mut rng, |_, _| true),
            _ => b.generate_seeded_with_strategy(&mut st),
        }
        .map_err(|e| format!("{e}\n{}", g.show()))?;
        let i: usize = s.trim_end_matches(',').parse().map_err(|_| format!("{s:?} from\n{}", g.show()))?;
        c[i] += 1;
    }
    ctx.add("method_draws", total as u64);
    frequencies(["generate", "generate_callback", "generate_seeded", "generate_seeded_callback", "with RandomWalk"][which], &c, &vec![1.0; k], &|| clip(&g.show(), 2000))
}

/// one strategy for several productions in turn, its public settings changed on the way: each
/// choice follows the production and the settings of the moment
fn mixed(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let np = r.range(2, 4);
    let same = r.chance(50);
    let ms: Vec<P> = (0..np)
        .map(|j| {
            let lhs = if same { "s".to_string() } else { format!("s{j}") };
            // equal lengths hide what is left over from the production before
            let k = if r.chance(60) { 3 } else { r.range(1, 8) };
            let alts = (0..k)
                .map(|i| {
                    let mut a = vec![T::T(format!("#{i}"))];
                    match r.below(4) {
                        0 | 1 => a.insert(r.below(2), T::N(lhs.clone())),
                        2 => a.push(T::N(format!("s{}", (j + 1) % np))),
                        _ => {}
                    }
                    a
                })
                .collect();
            P { lhs: T::N(lhs), alts }
        })
        .collect();
    let ps: Vec<Production> = ms.iter().map(prod_to).collect();
    let settings: Vec<(u32, u32)> = (0..r.range(1, 3)).map(|_| (*r.pick(&[0, 1, 1, 2, 7, 100, u32::MAX]), *r.pick(&[0, 1, 1, 2, 7, 100, u32::MAX]))).collect();
    let mut w = Weighted::from_seed(1, 1, r.seed32());
    let mut rw = RandomWalk::from_seed(r.seed32());
    let mut count: HashMap<(usize, usize), Vec<u64>> = HashMap::new();
    let mut flat: HashMap<usize, Vec<u64>> = HashMap::new();
    for _ in 0..1500 * np * settings.len() {
        let (j, k) = (r.below(np), r.below(settings.len()));
        w.recursive_weight = settings[k].0;
        w.non_recursive_weight = settings[k].1;
        let d = r.below(4);
        let pick = |e: Option<&Expression>| e.and_then(|e| position(&ps[j], e)).ok_or_else(|| format!("nothing (or a foreign expression) chosen from {}", ps[j]));
        let i = pick(w.choose(&ps[j], d))?;
        count.entry((j, k)).or_insert_with(|| vec![0; ps[j].len()])[i] += 1;
        let i = pick(rw.choose(&ps[j], d))?;
        flat.entry(j).or_insert_with(|| vec![0; ps[j].len()])[i] += 1;
    }
    ctx.event("mixed_productions");
    let show = || ms.iter().map(P::show).collect::<String>();
    for ((j, k), c) in &count {
        let (a, b) = settings[*k];
        let mut want: Vec<f64> = ms[*j].alts.iter().map(|x| f64::from(if x.contains(&ms[*j].lhs) { a } else { b })).collect();
        if want.iter().all(|x| *x == 0.0) {
            want.fill(1.0);
        }
        frequencies(&format!("production {j} among {np}, weights ({a}, {b}) among {settings:?}"), c, &want, &show)?;
    }
    for (j, c) in &flat {
        frequencies(&format!("random walk over {np} productions in turn, production {j}"), c, &vec![1.0; c.len()], &show)?;
    }
    Ok(())
}

impl P {
    fn show(&self) -> String {
        clip(&G { prods: vec![self.clone()] }.show(), 3000)
    }
}
