//! C06: parsing ends, at a cost bounded by the partial derivations explored.
use super::Prop;
use super::parse::*;
use crate::ctx::*;
use crate::r#gen::*;
use crate::model::*;
use crate::oracle::*;
use crate::rng::Rng;
use crate::runner::Report;
use bnf::Term;
use std::sync::atomic::Ordering::Relaxed;

pub static PROPS: &[Prop] = &[Prop {
    id: "C06",
    run: c06,
    quick: 8000,
    thorough: 320000,
    cpu: 0.0,
    rule: "streams of inputs with finitely many trees are exhausted under an allocation ledger and compared with the oracle's count of partial derivations; input families are scaled under callgrind and instructions per partial derivation compared between sizes; non-trivial: distinct (grammar, input) with at least 10 partial derivations",
    need: &[("streams_exhausted", 3000), ("rejected_exhausted", 500), ("callgrind_runs", 12)],
    extra: Some(extra),
}];

const BYTES_PER_ITEM: f64 = 4000.0;
const BYTES_BASE: f64 = 200_000.0;
const ALLOCS_PER_ITEM: f64 = 15.0;
const ALLOCS_BASE: f64 = 1000.0;

fn c06(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let i = instance(r);
    let parser = i.bnf.build_parser().map_err(|e| format!("valid grammar refused: {e}\n{}", i.g.show()))?;
    let sm = Sampler::new(&i.cg);
    let start = pick_start(r, &i.g);
    let a = i.cg.idx[&start];
    let st = Term::Nonterminal(start.clone());
    for input in inputs(r, &i.g, &sm, a, 10, 60) {
        let s = Spans::new(&i.cg, input.as_bytes());
        note(|| describe(&i.g, &start, &input));
        let items = match budget(&s, a, 40_000.0) {
            Size::Finite(x) => x,
            Size::UselessCycle | Size::AcceptOnly(_) => {
                ctx.event("skipped_useless_cycle");
                continue;
            }
            Size::Infinite(_) => {
                ctx.event("skipped_infinite");
                continue;
            }
            Size::Skip => {
                ctx.event("skipped_too_costly");
                continue;
            }
        };
        let (a0, b0) = (ALLOCS.load(Relaxed), BYTES.load(Relaxed));
        let mut trees = 0u64;
        let mut nodes = 0usize;
        for t in parser.parse_input_starting_with(&input, &st) {
            trees += 1;
            nodes += count(&t);
            // far more trees than partial derivations: it will not end by itself
            if trees as f64 > items * 2.0 + 10.0 {
                return Err(format!("{trees} trees yielded from {items} partial derivations: the stream does not end where it should\n{}", describe(&i.g, &start, &input)));
            }
        }
        let (al, by) = ((ALLOCS.load(Relaxed) - a0) as f64, (BYTES.load(Relaxed) - b0) as f64);
        ctx.event("streams_exhausted");
        if trees == 0 {
            ctx.event("rejected_exhausted");
        }
        ctx.add("partial_derivations", items as u64);
        ctx.max("max_partial_derivations", items as u64);
        let work = items + nodes as f64;
        ctx.max("max_bytes_per_item", ((by - BYTES_BASE).max(0.0) / work) as u64);
        ctx.max("max_allocs_per_item_x100", ((al - ALLOCS_BASE).max(0.0) * 100.0 / work) as u64);
        ctx.eval((items >= 10.0).then(|| h(&(&i.g, &start, &input))));
        ctx.sample(|| format!("{} -> {trees} trees, {items} partial derivations, {al} allocations", describe(&i.g, &start, &input)));
        if by > BYTES_BASE + BYTES_PER_ITEM * work || al > ALLOCS_BASE + ALLOCS_PER_ITEM * work {
            return Err(format!("{al} allocations, {by} bytes for {items} partial derivations and {nodes} tree nodes\n{}", describe(&i.g, &start, &input)));
        }
    }
    Ok(())
}

fn count(t: &bnf::ParseTree<'_>) -> usize {
    1 + t
        .rhs_iter()
        .map(|c| match c {
            bnf::ParseTreeNode::Terminal(_) => 1,
            bnf::ParseTreeNode::Nonterminal(t) => count(t),
        })
        .sum::<usize>()
}

/// (family, sizes)
const FAMS: &[(&str, [usize; 3])] = &[
    ("right", [60, 120, 240]),
    ("left", [100, 200, 3000]),
    ("anbn", [60, 120, 240]),
    ("arith", [20, 40, 80]),
    ("reject", [60, 120, 240]),
    ("balanced", [40, 80, 160]),
    ("palin", [16, 32, 64]),
    ("ambig", [5, 6, 7]),
    ("nullable", [20, 40, 80]),
    ("multibyte", [100, 200, 3000]),
];

/// families whose number of partial derivations is exactly linear in the size
const LINEAR: &[&str] = &["left", "multibyte"];

fn family(f: &str, k: usize) -> (G, String) {
    let p = |l: &str, alts: Vec<Vec<T>>| P { lhs: n(l), alts };
    match f {
        "right" => (G { prods: vec![p("s", vec![vec![n("b")], vec![n("b"), n("s")]]), p("b", vec![vec![t("A")], vec![t("C")]])] }, "AC".repeat(k / 2)),
        "left" => (G { prods: vec![p("l", vec![vec![n("l"), t(","), n("x")], vec![n("x")]]), p("x", vec![vec![t("a")], vec![t("b")]])] }, vec!["a"; k].join(",")),
        "anbn" => (G { prods: vec![p("s", vec![vec![t("a"), n("s"), t("b")], vec![t("")]])] }, format!("{}{}", "a".repeat(k), "b".repeat(k))),
        "arith" => (
            G { prods: vec![p("e", vec![vec![n("e"), t("+"), n("f")], vec![n("f")]]), p("f", vec![vec![n("f"), t("*"), n("g")], vec![n("g")]]), p("g", vec![vec![t("("), n("e"), t(")")], vec![t("1")]])] },
            vec!["(1*1)"; k].join("+"),
        ),
        "reject" => (G { prods: vec![p("s", vec![vec![n("b")], vec![n("b"), n("s")]]), p("b", vec![vec![t("A")], vec![t("C")]])] }, "AC".repeat(k / 2) + "?"),
        "balanced" => (G { prods: vec![p("s", vec![vec![t("("), n("s"), t(")"), n("s")], vec![]])] }, "(())()".repeat(k / 6 + 1)),
        "palin" => (G { prods: vec![p("s", vec![vec![t("a"), n("s"), t("a")], vec![t("a")], vec![]])] }, "a".repeat(k)),
        "ambig" => (G { prods: vec![p("e", vec![vec![n("e"), t("+"), n("e")], vec![t("1")]])] }, vec!["1"; k].join("+")),
        "nullable" => (
            G { prods: vec![p("s", vec![vec![n("o"), n("o"), t("x"), n("s")], vec![t("x")]]), p("o", vec![vec![], vec![t("-")]])] },
            "x".repeat(k),
        ),
        _ => (G { prods: vec![p("l", vec![vec![n("l"), n("x")], vec![n("x")]]), p("x", vec![vec![t("é")], vec![t("日")]])] }, "é日".repeat(k / 2)),
    }
}

/// the process run under callgrind
pub fn cost_main(f: &str, k: usize) -> i32 {
    let (g, input) = family(f, k);
    let b = g.to_bnf();
    let p = b.build_parser().expect("parser");
    let c = p.parse_input(&input).count();
    println!("{c}");
    0
}

fn instructions(f: &str, k: usize) -> Result<f64, String> {
    let out = std::process::Command::new("valgrind")
        .args(["--tool=callgrind", "--callgrind-out-file=/dev/null", "--main-stacksize=67108864"])
        .arg(std::env::current_exe().map_err(|e| e.to_string())?)
        .args(["cost", f, &k.to_string()])
        .output()
        .map_err(|e| format!("valgrind: {e}"))?;
    let err = String::from_utf8_lossy(&out.stderr).to_string();
    for l in err.lines() {
        if let Some(x) = l.split("Collected :").nth(1) {
            return x.trim().parse::<f64>().map_err(|e| e.to_string());
        }
    }
    Err(format!("no instruction count from callgrind: {}", err.lines().last().unwrap_or("")))
}

fn extra(rep: &mut Report, _seed: u64, thorough: bool) {
    // scaled families, in parallel
    let jobs: Vec<(&str, [usize; 3])> = FAMS.iter().map(|(f, s)| (*f, if thorough { [s[0], s[1], s[1] + (s[2] - s[1]) * if *f == "ambig" { 2 } else { 2 }] } else { *s })).collect();
    let results: Vec<(String, [usize; 3], Result<[(f64, f64); 3], String>)> = std::thread::scope(|sc| {
        let hs: Vec<_> = jobs
            .iter()
            .map(|(f, sizes)| {
                sc.spawn(move || {
                    let mut v = [(0.0, 0.0); 3];
                    for (j, k) in sizes.iter().enumerate() {
                        // where every partial derivation count is linear in the size, the large
                        // size is counted by extrapolation
                        let part = if j == 2 && LINEAR.contains(f) {
                            v[1].1 + (v[1].1 - v[0].1) / (sizes[1] - sizes[0]) as f64 * (sizes[2] - sizes[1]) as f64
                        } else {
                            let (g, input) = family(f, *k);
                            let cg = CG::new(&g, Undef::Nothing);
                            let s = Spans::new(&cg, input.as_bytes());
                            let start = cg.idx[g.prods[0].name()];
                            *levels(&s, start, 4000, 1e9).items.last().unwrap()
                        };
                        match instructions(f, *k) {
                            Ok(i) => v[j] = (i, part),
                            Err(e) => return (f.to_string(), *sizes, Err(e)),
                        }
                    }
                    (f.to_string(), *sizes, Ok(v))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("cost thread")).collect()
    });
    for (f, sizes, res) in results {
        match res {
            Err(e) => rep.inconclusive.push(format!("family {f}: {e}")),
            Ok(v) => {
                *rep.events.entry("callgrind_runs".into()).or_default() += 3;
                let lo = (v[1].0 - v[0].0) / (v[1].1 - v[0].1);
                let hi = (v[2].0 - v[1].0) / (v[2].1 - v[1].1);
                rep.events.insert(format!("instr_per_partial_{f}"), hi as u64);
                rep.samples.push(format!("family {f} sizes {sizes:?}: (instructions, partial derivations) {v:?}; marginal {lo:.0} then {hi:.0}"));
                if hi > 3.0 * lo.max(1000.0) || hi > 30_000.0 {
                    let m = format!("cost per partial derivation grows with the input: family {f}, sizes {sizes:?}, (instructions, partial derivations) {v:?}, marginal cost {lo:.0} -> {hi:.0} instructions");
                    rep.violations.push((m.clone(), serde_json::json!({"property": "C06", "family": f, "sizes": sizes, "what": m})));
                }
            }
        }
    }
    known(rep, "C06", "useless-cycle");
}

/// run the input of a listed known finding and report it
pub fn known(rep: &mut Report, id: &str, probe: &str) {
    let file = crate::runner::verif().join("known_findings.json");
    let v: serde_json::Value = std::fs::read_to_string(file).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or_default();
    let Some(f) = v["known"].as_array().into_iter().flatten().find(|f| f["property"] == id && f["probe"] == probe) else {
        return;
    };
    let (_, how, ok) = crate::runner::child(&["probe", probe], 240);
    *rep.events.entry("known_finding_probes".into()).or_default() += 1;
    if !ok {
        rep.known.push(format!("{} ({how})", f["what"].as_str().unwrap_or("")));
    }
}

pub fn probe_useless_cycle() -> i32 {
    let g: bnf::Grammar = "<s> ::= <c> 'a'\n<c> ::= <c> | ''".parse().expect("grammar");
    let p = g.build_parser().expect("parser");
    if p.parse_input("b").count() == 0 { 0 } else { 1 }
}
