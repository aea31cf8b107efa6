//! C01 membership, C02 tree validity, C03 enumeration, C04 independence, C05 entry points.
use super::Prop;
use crate::ctx::*;
use crate::r#gen::*;
use crate::model::*;
use crate::oracle::*;
use crate::rng::Rng;
use bnf::{Grammar, GrammarParser, ParseTree, Term};
use std::collections::HashMap;

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        run: c01,
        quick: 16000,
        thorough: 640000,
        cpu: 0.0,
        rule: "random, classic, large and long-input (grammar, start, input) triples through every parse entry point; non-trivial: distinct triple whose verdict was decided against the span recogniser and whose input is non-empty or whose grammar is recursive",
        need: &[("stretched", 50), ("stretched_rejected", 5), ("accepted", 500), ("rejected", 500), ("nullable", 100), ("left_recursive", 100), ("multibyte", 50), ("long_input", 20)],
        extra: None,
    },
    Prop {
        id: "C02",
        run: c02,
        quick: 20000,
        thorough: 800000,
        cpu: 0.0,
        rule: "every tree yielded for accepted (grammar, start, input) triples is walked through lhs/rhs_iter/rhs_iter_mut; non-trivial: distinct trees with at least two nodes",
        need: &[("stretched", 50), ("stretched_rejected", 5), ("trees", 2000), ("ambiguous_inputs", 100), ("multibyte", 50)],
        extra: None,
    },
    Prop {
        id: "C03",
        run: c03,
        quick: 9000,
        thorough: 360000,
        cpu: 0.0,
        rule: "streams exhausted and compared with an independent enumeration of all derivations; long prefixes of infinite streams checked for repeats and for the small derivations; non-trivial: distinct inputs with at least one derivation",
        need: &[("stretched", 50), ("stretched_rejected", 5), ("finite_streams", 1000), ("ambiguous", 200), ("infinite_streams", 100), ("small_trees_required", 100)],
        extra: None,
    },
    Prop {
        id: "C04",
        run: c04,
        quick: 10000,
        thorough: 400000,
        cpu: 0.0,
        rule: "streams of one (grammar, start, input) recorded fresh, repeated, interleaved, after abandoned iterators, from rebuilt parsers and cloned grammars, with permuted productions/alternatives, and in a second process; non-trivial: distinct triples with at least one tree",
        need: &[("stretched", 50), ("stretched_rejected", 5), ("interleavings", 1000), ("several_starts", 500), ("reused_buffers", 500), ("abandoned_iterators", 500), ("permutations", 500), ("digest_lines_compared_between_processes", 200)],
        extra: Some(|rep, seed, th| super::digest_extra("C04", rep, seed, if th { 6 } else { 1 })),
    },
    Prop {
        id: "C05",
        run: c05,
        quick: 20000,
        thorough: 800000,
        cpu: 0.0,
        rule: "the same (grammar, start, input) through build_parser, GrammarParser::new, parse_input, parse_input_starting_with and the deprecated grammar methods, grammars rotated so the start comes first, undefined nonterminals and starts without productions; non-trivial: distinct triples with at least one tree",
        need: &[("stretched", 50), ("stretched_rejected", 5), ("entry_points_compared", 5000), ("undefined_grammars", 200), ("starts_without_production", 200), ("rotated", 500)],
        extra: None,
    },
];

pub struct Inst {
    pub g: G,
    pub cg: CG,
    pub bnf: Grammar,
}

pub fn instance(r: &mut Rng) -> Inst {
    let g = parse_grammar(r);
    let cg = CG::new(&g, Undef::Nothing);
    let bnf = g.to_bnf();
    Inst { g, cg, bnf }
}

/// the start nonterminal to use: mostly the first one
pub fn pick_start(r: &mut Rng, g: &G) -> String {
    if r.chance(60) {
        g.prods[0].name().to_string()
    } else {
        let k = g.nts();
        k[r.below(k.len())].clone()
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Size {
    /// stream is finite with this many partial derivations
    Finite(f64),
    /// infinitely many trees; this many can be fetched within the item budget
    Infinite(usize),
    /// accepted with a useless cycle: only the first tree(s) can be asked for
    AcceptOnly(usize),
    /// too expensive, or the traversal space is infinite without a tree (known finding of C06)
    Skip,
    UselessCycle,
}

/// how far the stream of this input may be consumed, from the oracle alone
pub fn budget(s: &Spans, start: usize, max_items: f64) -> Size {
    let len = s.input.len();
    if len > 60 {
        return Size::Skip;
    }
    let c = s.classify(start);
    let lv = levels(s, start, 400, max_items);
    if lv.converged {
        return Size::Finite(*lv.items.last().unwrap());
    }
    if !c.predicted_cycle {
        return Size::Skip;
    }
    // cyclic: trees obtainable while the number of items stays within the budget
    let mut got = 0.0;
    for k in 0..lv.items.len() {
        if lv.items[k] <= max_items && k + 2 < lv.items.len() {
            got = lv.accepted[k];
        }
    }
    if !c.accept {
        return Size::UselessCycle;
    }
    if got < 1.0 {
        return Size::Skip;
    }
    if c.infinite { Size::Infinite(got.min(1e6) as usize) } else { Size::AcceptOnly(1) }
}

pub fn features(ctx: &mut Ctx, i: &Inst, input: &str) {
    if !input.is_ascii() {
        ctx.event("multibyte");
    }
    if i.g.prods.iter().any(|p| p.alts.iter().any(|a| a.first() == Some(&p.lhs))) {
        ctx.event("left_recursive");
    }
    if i.g.prods.iter().any(|p| p.alts.iter().any(|a| a.iter().all(|x| *x == t("")))) {
        ctx.event("nullable");
    }
}

pub fn describe(g: &G, start: &str, input: &str) -> String {
    format!("grammar:\n{}start: <{}>\ninput: {:?}", clip(&g.show(), 4000), start.escape_debug(), clip(input, 400))
}

/// families with their own recognisers, for long inputs
fn long_family(r: &mut Rng) -> (G, String, bool) {
    let k = r.range(40, 400);
    let p = |l: &str, alts: Vec<Vec<T>>| P { lhs: n(l), alts };
    let fam = r.below(8);
    let (g, good): (G, String) = match fam {
        0 => (
            G { prods: vec![p("s", vec![vec![t("a"), n("s"), t("b")], vec![t("")]])] },
            format!("{}{}", "a".repeat(k / 2), "b".repeat(k / 2)),
        ),
        1 => (
            G { prods: vec![p("dna", vec![vec![n("base")], vec![n("base"), n("dna")]]), p("base", vec![vec![t("A")], vec![t("C")], vec![t("G")], vec![t("T")]])] },
            (0..k).map(|_| *r.pick(&['A', 'C', 'G', 'T'])).collect(),
        ),
        2 => {
            // balanced, unambiguous
            let mut s = String::new();
            let mut d = 0;
            for _ in 0..k {
                if d > 0 && r.chance(50) {
                    s.push(')');
                    d -= 1;
                } else {
                    s.push('(');
                    d += 1;
                }
            }
            s.push_str(&")".repeat(d));
            (G { prods: vec![p("s", vec![vec![t("("), n("s"), t(")"), n("s")], vec![]])] }, s)
        }
        3 => (
            G { prods: vec![p("l", vec![vec![n("l"), t(","), n("x")], vec![n("x")]]), p("x", vec![vec![t("é")], vec![t("ée")], vec![t("日本")]])] },
            (0..k).map(|_| *r.pick(&["é", "ée", "日本"])).collect::<Vec<_>>().join(","),
        ),
        4 => (
            G { prods: vec![p("e", vec![vec![n("e"), t("+"), n("f")], vec![n("f")]]), p("f", vec![vec![n("f"), t("*"), n("g")], vec![n("g")]]), p("g", vec![vec![t("("), n("e"), t(")")], vec![t("1")]])] },
            (0..k).map(|_| *r.pick(&["1", "(1+1)", "((1)*1)"])).collect::<Vec<_>>().join(if r.chance(50) { "+" } else { "*" }),
        ),
        5 => (
            G { prods: vec![p("s", vec![vec![n("w")], vec![n("w"), t(" "), n("s")]]), p("w", vec![vec![n("c"), n("w")], vec![n("c")]]), p("c", vec![vec![t("x")], vec![t("y")], vec![t("😀")]])] },
            (0..k / 3).map(|_| *r.pick(&["x", "xy", "y😀", "xyx"])).collect::<Vec<_>>().join(" "),
        ),
        6 => (
            // one huge terminal
            G { prods: vec![p("s", vec![vec![T::T("q".repeat(k * 5)), n("o")]]), p("o", vec![vec![t("")], vec![t("z")]])] },
            format!("{}z", "q".repeat(k * 5)),
        ),
        _ => (
            // deep unit chain at every step
            G { prods: vec![p("a", vec![vec![n("b"), n("a")], vec![n("b")]]), p("b", vec![vec![n("c")]]), p("c", vec![vec![n("d")]]), p("d", vec![vec![t("0")], vec![t("1")], vec![t("02")]])] },
            (0..k / 4).map(|_| *r.pick(&["0", "1"])).collect::<String>(),
        ),
    };
    if r.chance(50) {
        return (g, good, true);
    }
    // break it in a way the family certainly rejects: a foreign character, anywhere, or cut to nonsense
    let mut c: Vec<char> = good.chars().collect();
    let at = if r.chance(40) { c.len() } else { r.below(c.len() + 1) };
    c.insert(at, '?');
    (g, c.into_iter().collect(), false)
}

fn c01(ctx: &mut Ctx, r: &mut Rng) -> Res {
    if r.chance(4) {
        return super::scale::run("C01", ctx, r);
    }
    if r.chance(3) {
        let (g, input, good) = long_family(r);
        note(|| describe(&g, g.prods[0].name(), &input));
        let b = g.to_bnf();
        let p = b.build_parser().map_err(|e| format!("valid grammar refused: {e}\n{}", g.show()))?;
        let got = p.parse_input(&input).next().is_some();
        ctx.event("long_input");
        ctx.eval(Some(h(&(&g, &input))));
        if got != good {
            return Err(format!("parser says {got}, language says {good}\n{}", describe(&g, g.prods[0].name(), &input)));
        }
        return Ok(());
    }
    let i = instance(r);
    let parser = i.bnf.build_parser().map_err(|e| format!("valid grammar refused: {e}\n{}", i.g.show()))?;
    let sm = Sampler::new(&i.cg);
    for _ in 0..2 {
        let start = pick_start(r, &i.g);
        let a = i.cg.idx[&start];
        let st = Term::Nonterminal(start.clone());
        let count = if i.g.size() > 200 { 4 } else { 9 };
        for input in inputs(r, &i.g, &sm, a, count, 60) {
            let s = Spans::new(&i.cg, input.as_bytes());
            note(|| describe(&i.g, &start, &input));
            let accept = s.accepts(a);
            match budget(&s, a, 60_000.0) {
                Size::Skip => {
                    ctx.event("skipped_too_costly");
                    continue;
                }
                Size::UselessCycle => {
                    ctx.event("skipped_useless_cycle");
                    continue;
                }
                _ => {}
            }
            let which = r.below(3);
            let got = first_exists(&i, &parser, which, &start, &st, &input);
            ctx.event(if accept { "accepted" } else { "rejected" });
            features(ctx, &i, &input);
            ctx.eval((!input.is_empty() || accept).then(|| h(&(&i.g, &start, &input))));
            ctx.sample(|| format!("{} -> {}", describe(&i.g, &start, &input), if accept { "accepted" } else { "rejected" }));
            if got != accept {
                return Err(format!("entry point {which}: parser yields a tree: {got}; the string is derivable: {accept}\n{}", describe(&i.g, &start, &input)));
            }
        }
    }
    Ok(())
}

#[allow(deprecated)]
fn first_exists(i: &Inst, parser: &GrammarParser<'_>, which: usize, start: &str, st: &Term, input: &str) -> bool {
    let default = i.g.prods[0].name() == start;
    match which {
        0 if default => parser.parse_input(input).next().is_some(),
        1 => {
            if default {
                i.bnf.parse_input(input).next().is_some()
            } else {
                i.bnf.parse_input_starting_with(input, st).next().is_some()
            }
        }
        _ => parser.parse_input_starting_with(input, st).next().is_some(),
    }
}

/// walk a tree through every public accessor; they must tell the same story
fn observe(tree: &mut ParseTree<'_>) -> Result<Tree, String> {
    let a = tree_from(tree);
    // rhs_iter_mut must show the same children
    fn via_mut(p: &mut ParseTree<'_>) -> Tree {
        let name = match p.lhs {
            Term::Nonterminal(s) => s.clone(),
            Term::Terminal(s) => format!("(terminal){s}"),
        };
        let mut v = vec![];
        for c in p.rhs_iter_mut() {
            match c {
                bnf::ParseTreeNode::Terminal(s) => v.push(Tree::Leaf(s.to_string())),
                bnf::ParseTreeNode::Nonterminal(t) => v.push(via_mut(t)),
            }
        }
        Tree::Node(name, v)
    }
    let b = via_mut(tree);
    if a != b {
        return Err("rhs_iter and rhs_iter_mut show different trees".into());
    }
    if tree.clone() != *tree {
        return Err("a clone of the tree differs from it".into());
    }
    Ok(a)
}

fn c02(ctx: &mut Ctx, r: &mut Rng) -> Res {
    if r.chance(4) {
        return super::scale::run("C02", ctx, r);
    }
    if r.chance(3) {
        let (g, input, good) = long_family(r);
        note(|| describe(&g, g.prods[0].name(), &input));
        if !good {
            return Ok(());
        }
        let b = g.to_bnf();
        let p = b.build_parser().map_err(|e| format!("valid grammar refused: {e}\n{}", g.show()))?;
        if let Some(mut t) = p.parse_input(&input).next() {
            let o = observe(&mut t)?;
            ctx.event("long_trees");
            ctx.eval(Some(h(&o)));
            check_tree(&g, g.prods[0].name(), &o, &input).map_err(|e| format!("{e}\n{}", describe(&g, g.prods[0].name(), &input)))?;
        }
        return Ok(());
    }
    let i = instance(r);
    let parser = i.bnf.build_parser().map_err(|e| format!("valid grammar refused: {e}\n{}", i.g.show()))?;
    let sm = Sampler::new(&i.cg);
    let start = pick_start(r, &i.g);
    let a = i.cg.idx[&start];
    let st = Term::Nonterminal(start.clone());
    for input in inputs(r, &i.g, &sm, a, 10, 60) {
        let s = Spans::new(&i.cg, input.as_bytes());
        note(|| describe(&i.g, &start, &input));
        let take = match budget(&s, a, 60_000.0) {
            Size::Skip | Size::UselessCycle => continue,
            Size::Finite(_) => 300,
            Size::Infinite(k) => k.min(60),
            Size::AcceptOnly(k) => k,
        };
        let mut cnt = 0;
        for mut tree in parser.parse_input_starting_with(&input, &st).take(take) {
            let o = observe(&mut tree).map_err(|e| format!("{e}\n{}", describe(&i.g, &start, &input)))?;
            cnt += 1;
            ctx.event("trees");
            ctx.max("max_tree_depth", o.depth() as u64);
            ctx.eval((o.size() > 2).then(|| h(&(&i.g, &o))));
            check_tree(&i.g, &start, &o, &input).map_err(|e| format!("{e}\ntree: {o:?}\n{}", describe(&i.g, &start, &input)))?;
            // the terms the tree points to are the grammar's own
            if term_from(tree.lhs) != n(&start) {
                return Err(format!("root term is {:?}\n{}", tree.lhs, describe(&i.g, &start, &input)));
            }
        }
        if cnt > 1 {
            ctx.event("ambiguous_inputs");
        }
        if cnt > 0 {
            features(ctx, &i, &input);
            ctx.sample(|| describe(&i.g, &start, &input));
        }
    }
    Ok(())
}

fn multiset(v: Vec<Tree>) -> HashMap<Tree, usize> {
    let mut m = HashMap::new();
    for t in v {
        *m.entry(t).or_insert(0) += 1;
    }
    m
}

/// an intentionally cyclic grammar with few items per generation
fn cyclic_grammar(r: &mut Rng) -> G {
    let p = |l: &str, alts: Vec<Vec<T>>| P { lhs: n(l), alts };
    match r.below(7) {
        0 => G { prods: vec![p("s", vec![vec![n("s")], vec![t("a")]])] },
        1 => G { prods: vec![p("s", vec![vec![n("a")], vec![t("x")]]), p("a", vec![vec![n("s")], vec![t("y")]])] },
        2 => G { prods: vec![p("s", vec![vec![n("s"), n("e")], vec![t("a")]]), p("e", vec![vec![]])] },
        3 => G { prods: vec![p("s", vec![vec![n("e"), n("s")], vec![t("a")], vec![t("a"), n("s")]]), p("e", vec![vec![t("")]])] },
        4 => G { prods: vec![p("s", vec![vec![n("s"), n("s")], vec![t("a")], vec![t("")]])] },
        5 => G { prods: vec![p("s", vec![vec![t("("), n("s"), t(")")], vec![n("b")], vec![t("x")]]), p("b", vec![vec![n("c")]]), p("c", vec![vec![n("s")]])] },
        _ => {
            let mut g = G { prods: vec![p("s", vec![vec![n("s")], vec![t("a"), n("k")]]), p("k", vec![vec![t("b")], vec![n("s")], vec![n("k")]])] };
            if r.chance(50) {
                tweak(r, &mut g);
            }
            g
        }
    }
}

fn c03(ctx: &mut Ctx, r: &mut Rng) -> Res {
    if r.chance(4) {
        return super::scale::run("C03", ctx, r);
    }
    let mut i = instance(r);
    let cyc = r.chance(12);
    if cyc {
        i.g = cyclic_grammar(r);
        i.cg = CG::new(&i.g, Undef::Nothing);
        i.bnf = i.g.to_bnf();
    }
    let parser = i.bnf.build_parser().map_err(|e| format!("valid grammar refused: {e}\n{}", i.g.show()))?;
    let sm = Sampler::new(&i.cg);
    let start = pick_start(r, &i.g);
    let a = i.cg.idx[&start];
    let st = Term::Nonterminal(start.clone());
    let dup = i.g.has_dup_alts();
    for input in inputs(r, &i.g, &sm, a, 10, 60) {
        let s = Spans::new(&i.cg, input.as_bytes());
        note(|| describe(&i.g, &start, &input));
        match budget(&s, a, 50_000.0) {
            Size::Finite(_) => {
                let mut c = Counter::new(&s);
                let k = c.trees(a, 0, input.len());
                if k > 1500.0 {
                    ctx.event("skipped_too_many_trees");
                    continue;
                }
                let got: Vec<Tree> = {
                    let mut it = parser.parse_input_starting_with(&input, &st);
                    let mut v = vec![];
                    for x in it.by_ref().take(k as usize + 2) {
                        v.push(tree_from(&x));
                    }
                    if v.len() < k as usize + 2 {
                        // the end is final
                        if it.next().is_some() {
                            return Err(format!("the stream yields again after its end\n{}", describe(&i.g, &start, &input)));
                        }
                    }
                    v
                };
                let want = enumerate(&s, a, 0, input.len(), &mut HashMap::new());
                ctx.event("finite_streams");
                ctx.add("trees_compared", got.len() as u64);
                ctx.max("max_trees_of_one_input", got.len() as u64);
                if want.len() > 1 {
                    ctx.event("ambiguous");
                }
                ctx.eval((!want.is_empty()).then(|| h(&(&i.g, &start, &input))));
                if !want.is_empty() {
                    ctx.sample(|| format!("{} -> {} derivations", describe(&i.g, &start, &input), want.len()));
                }
                let (ng, nw) = (got.len(), want.len());
                let (mut mg, mut mw) = (multiset(got), multiset(want));
                if dup {
                    mg.values_mut().for_each(|v| *v = 1);
                    mw.values_mut().for_each(|v| *v = 1);
                }
                if mg != mw {
                    let missing: Vec<_> = mw.keys().filter(|t| mg.get(*t) < mw.get(*t)).take(2).collect();
                    let extra: Vec<_> = mg.keys().filter(|t| mw.get(*t) < mg.get(*t)).take(2).collect();
                    return Err(format!("{ng} trees yielded, {nw} derivations exist; missing {missing:?}; repeated or wrong {extra:?}\n{}", describe(&i.g, &start, &input)));
                }
            }
            Size::Infinite(k) => {
                if dup {
                    continue;
                }
                let take = k.min(300);
                let got: Vec<Tree> = parser.parse_input_starting_with(&input, &st).take(take).map(|x| tree_from(&x)).collect();
                ctx.event("infinite_streams");
                ctx.add("trees_compared", got.len() as u64);
                ctx.eval(Some(h(&(&i.g, &start, &input))));
                if got.len() < take {
                    return Err(format!("infinitely many derivations, but the stream ended after {}\n{}", got.len(), describe(&i.g, &start, &input)));
                }
                let mut seen = std::collections::HashSet::new();
                for x in &got {
                    if !seen.insert(x.clone()) {
                        return Err(format!("a tree is repeated in an infinite stream: {x:?}\n{}", describe(&i.g, &start, &input)));
                    }
                    check_tree(&i.g, &start, x, &input).map_err(|e| format!("{e}\n{}", describe(&i.g, &start, &input)))?;
                }
                // the smallest derivations have to turn up
                if take >= 40 {
                    let lv = levels(&s, a, 60, 50_000.0);
                    // generation of the first tree, and how many trees exist up to three times that (+6)
                    let k1 = lv.accepted.iter().position(|x| *x >= 1.0).unwrap_or(0);
                    let far = (k1 * 3 + 6).min(lv.accepted.len().saturating_sub(1));
                    let by_then = lv.accepted[far];
                    if by_then <= take as f64 {
                        let min = (1..40).find(|m| !enumerate_bounded(&s, a, 0, input.len(), *m, 2000).is_empty());
                        if let Some(m) = min {
                            let small = enumerate_bounded(&s, a, 0, input.len(), m, 2000);
                            if small.len() < 500 {
                                for x in small {
                                    ctx.event("small_trees_required");
                                    if !seen.contains(&x) {
                                        return Err(format!("a smallest derivation is not among the first {take} trees: {x:?}\n{}", describe(&i.g, &start, &input)));
                                    }
                                }
                            }
                        }
                    }
                }
            }
            Size::AcceptOnly(_) => {
                ctx.event("skipped_useless_cycle");
            }
            Size::UselessCycle => ctx.event("skipped_useless_cycle"),
            Size::Skip => ctx.event("skipped_too_costly"),
        }
    }
    Ok(())
}

fn stream(parser: &GrammarParser<'_>, st: &Term, input: &str, take: usize) -> Vec<Tree> {
    parser.parse_input_starting_with(input, st).take(take).map(|x| tree_from(&x)).collect()
}

fn permute(r: &mut Rng, g: &G) -> G {
    let mut p = g.clone();
    for q in &mut p.prods {
        r.shuffle(&mut q.alts);
    }
    r.shuffle(&mut p.prods);
    p
}

fn c04(ctx: &mut Ctx, r: &mut Rng) -> Res {
    if r.chance(4) {
        return super::scale::run("C04", ctx, r);
    }
    let mut i = instance(r);
    if r.chance(6) {
        i.g = cyclic_grammar(r);
        i.cg = CG::new(&i.g, Undef::Nothing);
        i.bnf = i.g.to_bnf();
    }
    let parser = i.bnf.build_parser().map_err(|e| format!("valid grammar refused: {e}\n{}", i.g.show()))?;
    let sm = Sampler::new(&i.cg);
    // starts: the same inputs are asked about from several of them
    let mut starts = vec![pick_start(r, &i.g)];
    for _ in 0..2 {
        let x = pick_start(r, &i.g);
        if !starts.contains(&x) {
            starts.push(x);
        }
    }
    let terms: Vec<Term> = starts.iter().map(|s| Term::Nonterminal(s.clone())).collect();
    // usable (input, take limit, finite, start)
    let mut usable: Vec<(String, usize, bool, usize)> = vec![];
    for k in 0..starts.len() {
        for input in inputs(r, &i.g, &sm, i.cg.idx[&starts[k]], if k == 0 { 9 } else { 3 }, 60) {
            let s = Spans::new(&i.cg, input.as_bytes());
            for (j, st) in starts.iter().enumerate() {
                if j != k && r.chance(50) || usable.iter().any(|u| u.0 == input && u.3 == j) {
                    continue;
                }
                note(|| describe(&i.g, st, &input));
                match budget(&s, i.cg.idx[st], 20_000.0) {
                    Size::Finite(_) => usable.push((input.clone(), 400, true, j)),
                    Size::Infinite(k) => usable.push((input.clone(), k.min(40), false, j)),
                    Size::AcceptOnly(k) => usable.push((input.clone(), k, false, j)),
                    _ => {}
                }
            }
        }
    }
    if usable.is_empty() {
        return Ok(());
    }
    r.shuffle(&mut usable);
    usable.truncate(16);
    if starts.len() > 1 {
        ctx.event("several_starts");
    }
    let fail = |what: &str, u: &(String, usize, bool, usize)| Err(format!("{what}\n{}", describe(&i.g, &starts[u.3], &u.0)));
    // the reference streams: each from its own fresh parser on its own fresh copy of the grammar
    let mut reference: Vec<Vec<Tree>> = vec![];
    for (input, take, _, j) in &usable {
        let b = i.g.to_bnf();
        let p = b.build_parser().map_err(|e| format!("valid grammar refused: {e}"))?;
        reference.push(stream(&p, &terms[*j], input, *take));
    }
    for (k, u) in usable.iter().enumerate() {
        // leave an iterator half consumed and drop it, then parse
        {
            let other = &usable[r.below(usable.len())];
            let mut it = parser.parse_input_starting_with(&other.0, &terms[other.3]);
            for _ in 0..r.below(3).min(other.1) {
                it.next();
            }
            ctx.event("abandoned_iterators");
        }
        let again = stream(&parser, &terms[u.3], &u.0, u.1);
        ctx.eval((!again.is_empty()).then(|| h(&(&i.g, &starts[u.3], &u.0))));
        if again != reference[k] {
            return fail("a reused parser gives a different stream than a fresh one", u);
        }
        ctx.event("repeats");
    }
    ctx.sample(|| format!("{} and {} more inputs and starts, interleaved", describe(&i.g, &starts[usable[0].3], &usable[0].0), usable.len() - 1));
    // different inputs out of one buffer, that is, at one address
    {
        let cap = usable.iter().map(|u| u.0.len()).max().unwrap_or(0);
        let mut buf = String::with_capacity(cap);
        let b = i.g.to_bnf();
        let p = b.build_parser().map_err(|e| format!("valid grammar refused: {e}"))?;
        for (k, u) in usable.iter().enumerate() {
            buf.clear();
            buf.push_str(&u.0);
            let got = stream(&p, &terms[u.3], &buf, u.1);
            ctx.event("reused_buffers");
            if got != reference[k] {
                return fail("an input in a buffer that held others before is parsed differently", u);
            }
        }
    }
    // interleave several iterators of one parser, a second parser over the same grammar, and a clone
    let parser2 = i.bnf.build_parser().map_err(|e| format!("valid grammar refused: {e}"))?;
    let cl = i.bnf.clone();
    let parser3 = cl.build_parser().map_err(|e| format!("valid grammar refused: {e}"))?;
    let parsers = [&parser, &parser2, &parser3];
    type Live<'x> = (usize, Box<dyn Iterator<Item = ParseTree<'x>> + 'x>, Vec<Tree>, usize, bool);
    let mut its: Vec<Live<'_>> = vec![];
    for _ in 0..r.range(2, 5) {
        let k = r.below(usable.len());
        let p = *r.pick(&parsers);
        its.push((k, Box::new(p.parse_input_starting_with(&usable[k].0, &terms[usable[k].3])), vec![], usable[k].1, false));
    }
    let mut steps = 0;
    while its.iter().any(|x| !x.4) && steps < 3000 {
        steps += 1;
        let live: Vec<usize> = (0..its.len()).filter(|&x| !its[x].4).collect();
        let x = *r.pick(&live);
        let e = &mut its[x];
        if e.2.len() >= e.3 {
            e.4 = true;
            continue;
        }
        match e.1.next() {
            Some(t) => e.2.push(tree_from(&t)),
            None => e.4 = true,
        }
    }
    ctx.add("interleavings", its.len() as u64);
    ctx.add("interleaved_steps", steps);
    for (k, _, got, _, done) in &its {
        let w = &reference[*k];
        if got.len() > w.len() || got[..] != w[..got.len()] || (*done && got.len() != w.len()) {
            return fail("an interleaved iterator gives a different stream than a fresh parser", &usable[*k]);
        }
    }
    drop(its);
    // order of productions and alternatives does not matter for which trees are found
    let pg = permute(r, &i.g);
    let pb = pg.to_bnf();
    let pp = pb.build_parser().map_err(|e| format!("valid grammar refused: {e}"))?;
    for (k, u) in usable.iter().enumerate() {
        let (input, take, finite, j) = u;
        if !finite || reference[k].len() >= *take {
            continue;
        }
        let got = stream(&pp, &terms[*j], input, *take + 1);
        ctx.event("permutations");
        if multiset(got) != multiset(reference[k].clone()) {
            return fail(&format!("reordering productions/alternatives changes the trees found; reordered:\n{}", pg.show()), u);
        }
    }
    Ok(())
}

/// deterministic workload whose printed result must not depend on the process
pub fn digest(seed: u64) {
    for k in 0..400u64 {
        let mut r = Rng::for_case("C04digest", seed, k);
        let i = instance(&mut r);
        let Ok(parser) = i.bnf.build_parser() else {
            println!("{k} invalid");
            continue;
        };
        let sm = Sampler::new(&i.cg);
        let start = pick_start(&mut r, &i.g);
        let a = i.cg.idx[&start];
        let st = Term::Nonterminal(start.clone());
        let mut d = String::new();
        for input in inputs(&mut r, &i.g, &sm, a, 6, 40) {
            let s = Spans::new(&i.cg, input.as_bytes());
            note(|| describe(&i.g, &start, &input));
            let take = match budget(&s, a, 20_000.0) {
                Size::Finite(_) => 200,
                Size::Infinite(k) => k.min(30),
                Size::AcceptOnly(k) => k,
                _ => continue,
            };
            let v = stream(&parser, &st, &input, take);
            d.push_str(&format!(" {}:{:016x}", v.len(), h(&v)));
        }
        println!("{k}{d}");
    }
}

#[allow(deprecated)]
fn c05(ctx: &mut Ctx, r: &mut Rng) -> Res {
    if r.chance(4) {
        return super::scale::run("C05", ctx, r);
    }
    let undef = r.chance(25);
    let g = if undef {
        let mut o = Opt::random(r);
        o.undef_pct = 25;
        grammar(r, &o)
    } else {
        parse_grammar(r)
    };
    let cg = CG::new(&g, Undef::Nothing);
    let b = g.to_bnf();
    let is_undef = !g.undefined().is_empty();
    let sm = Sampler::new(&cg);
    let start = pick_start(r, &g);
    let a = cg.idx[&start];
    let st = Term::Nonterminal(start.clone());
    let first = g.prods[0].name().to_string();
    let fst = Term::Nonterminal(first.clone());
    let fa = cg.idx[&first];
    let fail = |what: &str, st: &str, input: &str| Err(format!("{what}\n{}", describe(&g, st, input)));
    if is_undef {
        ctx.event("undefined_grammars");
    }
    let mut used: Option<String> = None;
    for input in inputs(r, &g, &sm, a, 6, 50) {
        let s = Spans::new(&cg, input.as_bytes());
        note(|| describe(&g, &start, &input));
        let size = budget(&s, a, 20_000.0);
        let take = match size {
            Size::Finite(_) => 300,
            Size::Infinite(k) => k.min(20),
            Size::AcceptOnly(k) => k,
            _ => continue,
        };
        used = Some(input.clone());
        let dep: Vec<Tree> = b.parse_input_starting_with(&input, &st).take(take).map(|x| tree_from(&x)).collect();
        ctx.eval((!dep.is_empty()).then(|| h(&(&g, &start, &input))));
        if is_undef {
            // undefined nonterminals match nothing: the oracle has no rules for them
            let acc = s.accepts(a);
            if dep.is_empty() == acc {
                return fail(&format!("older method yields trees: {}, derivable with undefined = nothing: {acc}", !dep.is_empty()), &start, &input);
            }
            for x in &dep {
                check_tree(&g, &start, x, &input).map_err(|e| format!("{e}\n{}", describe(&g, &start, &input)))?;
            }
            if matches!(size, Size::Finite(_)) {
                let mut c = Counter::new(&s);
                let k = c.trees(a, 0, input.len());
                if k < 200.0 && dep.len() != k as usize {
                    return fail(&format!("older method yields {} trees, {k} derivations exist", dep.len()), &start, &input);
                }
            }
            ctx.event("older_methods_on_undefined");
            continue;
        }
        let parser = b.build_parser().map_err(|e| format!("valid grammar refused: {e}"))?;
        let parser_new = GrammarParser::new(&b).map_err(|e| format!("valid grammar refused: {e}"))?;
        let v = stream(&parser, &st, &input, take);
        let v2 = stream(&parser_new, &st, &input, take);
        ctx.add("entry_points_compared", 3);
        ctx.sample(|| describe(&g, &start, &input));
        if v != v2 {
            return fail("GrammarParser::new and build_parser disagree", &start, &input);
        }
        // (cut-off streams may be cut at different trees)
        let cmp = |x: &[Tree], y: &[Tree]| if matches!(size, Size::Finite(_)) && x.len() < take { multiset(x.to_vec()) == multiset(y.to_vec()) } else { x.len() == y.len() };
        if !cmp(&v, &dep) {
            return fail(&format!("Grammar::parse_input_starting_with gives {} trees, the parser {}", dep.len(), v.len()), &start, &input);
        }
        // a grammar in which the start comes first
        if matches!(size, Size::Finite(_)) && v.len() < take {
            let mut rot = g.clone();
            let k = rot.prods.iter().position(|p| p.name() == start).unwrap();
            let p0 = rot.prods.remove(k);
            rot.prods.insert(0, p0);
            let rb = rot.to_bnf();
            let rp = rb.build_parser().map_err(|e| format!("valid grammar refused: {e}"))?;
            let w: Vec<Tree> = rp.parse_input(&input).take(take + 1).map(|x| tree_from(&x)).collect();
            let w2: Vec<Tree> = rb.parse_input(&input).take(take + 1).map(|x| tree_from(&x)).collect();
            ctx.event("rotated");
            if multiset(w) != multiset(v.clone()) || multiset(w2) != multiset(v.clone()) {
                return fail("parsing from this start differs from a grammar in which it comes first", &start, &input);
            }
        }
        // a first production whose left-hand side is a terminal (possible through the API)
        if matches!(size, Size::Finite(_)) && v.len() < take && r.chance(20) {
            let top = T::T(r.pick(&["top", "", &start, &input]).to_string());
            let mut g2 = g.clone();
            g2.prods.insert(0, P { lhs: top.clone(), alts: vec![vec![n(&start)]] });
            let b2 = g2.to_bnf();
            let p2 = b2.build_parser().map_err(|e| format!("valid grammar refused: {e}"))?;
            let tt = term_to(&top);
            let tname = if let T::T(x) = &top { Some(format!("(terminal){x}")) } else { None };
            let want: Vec<Tree> = v.clone();
            let inner = |x: Vec<Tree>| -> Option<Vec<Tree>> {
                x.into_iter()
                    .map(|t| match t {
                        Tree::Node(l, c) if Some(l.as_str()) == tname.as_deref() && c.len() == 1 => c.into_iter().next(),
                        _ => None,
                    })
                    .collect()
            };
            let w = [
                p2.parse_input(&input).take(take + 1).map(|x| tree_from(&x)).collect::<Vec<_>>(),
                stream(&p2, &tt, &input, take + 1),
                b2.parse_input(&input).take(take + 1).map(|x| tree_from(&x)).collect(),
                b2.parse_input_starting_with(&input, &tt).take(take + 1).map(|x| tree_from(&x)).collect(),
            ];
            ctx.event("terminal_left_hand_side_first");
            for x in w {
                if inner(x).map(multiset) != Some(multiset(want.clone())) {
                    return fail(&format!("with a first production {} ::= <{start}>, parsing from it does not give the trees of <{start}>", show_t(&top)), &start, &input);
                }
            }
        }
        // default start = first production's nonterminal, same order
        let fs = budget(&s, fa, 20_000.0);
        let take = match fs {
            Size::Finite(_) => 300,
            Size::Infinite(k) => k.min(20),
            Size::AcceptOnly(k) => k,
            _ => continue,
        };
        let d1: Vec<Tree> = parser.parse_input(&input).take(take).map(|x| tree_from(&x)).collect();
        let d2 = stream(&parser, &fst, &input, take);
        let d3: Vec<Tree> = b.parse_input(&input).take(take).map(|x| tree_from(&x)).collect();
        let d4: Vec<Tree> = b.parse_input_starting_with(&input, &fst).take(take).map(|x| tree_from(&x)).collect();
        ctx.add("entry_points_compared", 4);
        if d1 != d2 {
            return fail("parse_input and parse_input_starting_with(first nonterminal) differ", &first, &input);
        }
        let fin = matches!(fs, Size::Finite(_));
        for d in [&d3, &d4] {
            let ok = if fin && d1.len() < take { multiset(d.clone()) == multiset(d1.clone()) } else { d.len() == d1.len() };
            if !ok {
                return fail("the older grammar method differs from parse_input", &first, &input);
            }
        }
    }
    // a start without a production yields nothing: unknown nonterminal, or a terminal
    if let Some(input) = used {
        let starts = [
            Term::Nonterminal("no such nonterminal".into()),
            Term::Terminal(start.clone()),
            Term::Terminal(input.clone()),
            Term::Terminal(String::new()),
            Term::Nonterminal("undef0".into()),
        ];
        let s = &starts[r.below(starts.len())];
        ctx.event("starts_without_production");
        if b.parse_input_starting_with(&input, s).next().is_some() {
            return fail(&format!("the start {s:?} has no production but the older method yields a tree"), &start, &input);
        }
        if !is_undef {
            let p = b.build_parser().map_err(|e| format!("valid grammar refused: {e}"))?;
            if p.parse_input_starting_with(&input, s).next().is_some() {
                return fail(&format!("the start {s:?} has no production but the parser yields a tree"), &start, &input);
            }
        }
    }
    Ok(())
}
