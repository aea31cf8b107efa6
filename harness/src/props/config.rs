//! C27: the same plans executed by differently built workers (crate /verif/cfg).
use super::programs::*;
use super::generation::Finish;
use super::safety::{Plan, plan};
use crate::model::*;
use crate::ctx::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::text::{Fmt, detect};
use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::process::Command;
use std::time::Instant;

const SETS: &[&str] = &["abnf,serde", "", "abnf", "serde", "tracing", "abnf,tracing", "serde,tracing", "abnf,serde,tracing", "unstable", "abnf,serde,tracing,unstable"];

/// grammars and inputs that are large in one direction
fn large_plan(r: &mut Rng, k: u64) -> Plan {
    let g = |v: Vec<(&str, Vec<Alt>)>| G { prods: v.into_iter().map(|(l, alts)| P { lhs: n(l), alts }).collect() };
    let m = r.range(4500, 6000);
    let (g, ins) = match k {
        // many alternatives
        0 => (g(vec![("s", (0..m).map(|i| vec![T::T(format!("w{i}."))]).collect())]), vec!["w77.".to_string(), format!("w{}.", m - 1), "w.".into()]),
        // many productions, all predicted at once
        1 => {
            let mut v = vec![P { lhs: n("s"), alts: (0..m / 3).map(|i| vec![T::N(format!("p{i}"))]).collect() }];
            v.extend((0..m / 3).map(|i| P { lhs: T::N(format!("p{i}")), alts: vec![vec![T::T(format!("{i};"))], vec![T::N("s".into()), T::T(format!("{i}:"))]] }));
            (G { prods: v }, vec!["12;".to_string(), "12;13:".into()])
        }
        // a long alternative
        2 => (g(vec![("s", vec![(0..m).map(|i| T::T(format!("{}", i % 10))).collect()])]), vec![(0..m).map(|i| format!("{}", i % 10)).collect::<String>()]),
        // a long input, left and right recursive
        3 => (g(vec![("s", vec![vec![n("s"), t("a")], vec![t("b")]])]), vec![format!("b{}", "a".repeat(400)), format!("b{}?", "a".repeat(400))]),
        4 => (g(vec![("s", vec![vec![t("é"), n("s")], vec![t("")]])]), vec!["é".repeat(300), format!("{}b", "é".repeat(300))]),
        // much ambiguity
        _ => (g(vec![("s", vec![vec![n("s"), n("s")], vec![t("a")]])]), vec!["a".repeat(8)]),
    };
    let heights = Finish::new(&g).heights();
    Plan { seed: r.next(), small: false, start: g.prods[0].name().to_string(), g, texts: vec!["<s> ::= 'x'".into()], ins: ins.into_iter().map(|i| (i, 3)).collect(), heights, sub: !matches!(k, 1 | 2 | 5) }
}

fn plans(seed: u64, n: u64) -> Vec<String> {
    (0..n)
        .map(|i| {
            let r = &mut Rng::for_case("C27", seed, i);
            let mut p = if i % 500 < 6 { large_plan(r, i % 500) } else { plan(r, false) };
            if p.g.prods.len() > 1 && r.chance(15) {
                let k = r.range(1, p.g.prods.len() - 1);
                p.g.prods.remove(k);
                p.ins.clear();
                p.sub = false;
            }
            let mut texts: Vec<(String, bool)> = p.texts.iter().map(|t| (t.clone(), detect(t) == Fmt::Bnf)).collect();
            let shown = p.g.to_bnf().to_string();
            let is = detect(&shown) == Fmt::Bnf;
            texts.push((shown, is));
            // pieces: a production, an alternative, a term
            if let Some(q) = p.g.to_bnf().productions_iter().next() {
                let s = q.to_string();
                let is = detect(&s) == Fmt::Bnf;
                texts.push((s, is));
                if let Some(e) = q.rhs_iter().next() {
                    let s = e.to_string();
                    let is = detect(&s) == Fmt::Bnf;
                    texts.push((s, is));
                    if let Some(t) = e.terms_iter().next() {
                        let s = t.to_string();
                        let is = detect(&s) == Fmt::Bnf;
                        texts.push((s, is));
                    }
                }
            }
            // malformed and odd texts, with something strange at either end
            for k in 0..2 {
                let mut s = super::textual::soup(r);
                let odd = *r.pick(&["\0", "\u{feff}", "\u{1a}", "\u{a0}", "\u{c}", ";", "\r", ",", ".", "\\", "\u{200b}", "\u{85}", " ", "\n\n"]);
                if k == 0 && r.chance(60) {
                    // a whole text and one character more
                    s = texts[r.below(texts.len())].0.clone();
                }
                if s.len() > 3000 {
                    continue;
                }
                match r.below(4) {
                    0 => s.insert_str(0, odd),
                    1 | 2 => s.push_str(odd),
                    _ => {}
                }
                let is = detect(&s) == Fmt::Bnf;
                texts.push((s, is));
            }
            json!({"seed": p.seed, "g": p.g, "texts": texts, "start": p.start, "ins": p.ins, "heights": p.heights, "sub": p.sub, "undefined": p.g.undefined().len()}).to_string()
        })
        .collect()
}

/// the part of an error message that says what is wrong
fn errors_of(err: &str) -> String {
    let k = err.find("error").unwrap_or(0);
    clip(&err[k..], 1500)
}

struct Run {
    name: String,
    bin: PathBuf,
    listen: bool,
}

fn shown(bin: &Path, listen: bool, file: &Path, k: u64, section: &str) -> String {
    let mut c = Command::new(bin);
    c.arg(file);
    if listen {
        c.arg("listen");
    }
    let (_, out, _) = run_cmd(c.args(["show", &k.to_string()]), 120);
    out.lines().find_map(|l| l.split_once('\u{1}').filter(|(n, _)| *n == section).map(|x| x.1.to_string())).unwrap_or_default()
}

pub fn c27(tier: &str) -> i32 {
    let t0 = Instant::now();
    let seed = seed();
    let thorough = tier == "thorough";
    let mut rep = new_report();
    let dir = scratch();
    let target = verif().join("target/cfg");
    forget(&target);
    std::fs::create_dir_all(&dir).expect("scratch");
    // every set of features, in both profiles; the profiles build side by side
    let built: Vec<(String, Result<PathBuf, String>)> = std::thread::scope(|s| {
        let hs: Vec<_> = ["debug", "release"]
            .iter()
            .map(|prof| {
                let (dir, target) = (&dir, &target);
                s.spawn(move || {
                    let mut v = vec![];
                    for set in SETS {
                        let mut c = Command::new("cargo");
                        c.args(["build", "--offline", "-q", "--manifest-path"]).arg(verif().join("cfg/Cargo.toml")).args(["--features", set]).env("CARGO_TARGET_DIR", target.join(prof));
                        if *prof == "release" {
                            c.arg("--release");
                        }
                        let name = format!("{prof} [{set}]");
                        let (code, _, err) = run_cmd(&mut c, 400);
                        let b = dir.join(name.replace([' ', '[', ']', ','], "_"));
                        v.push((
                            name,
                            if code == Some(0) {
                                std::fs::copy(target.join(prof).join(prof).join("cfgworker"), &b).map(|_| b).map_err(|e| e.to_string())
                            } else {
                                Err(format!("{code:?} {}", errors_of(&err)))
                            },
                        ));
                    }
                    v
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().expect("builder")).collect()
    });
    let any = built.iter().any(|b| b.1.is_ok());
    let mut runs = vec![];
    for (name, b) in built {
        match b {
            Ok(bin) => {
                rep.events.entry("builds".into()).and_modify(|x| *x += 1).or_insert(1);
                if name.contains("tracing") {
                    runs.push(Run { name: format!("{name} with a subscriber"), bin: bin.clone(), listen: true });
                }
                runs.push(Run { name, bin, listen: false });
            }
            Err(e) if any && !e.starts_with("None") => {
                let m = format!("the crate does not compile in the configuration {name} though it does in others: {e}");
                rep.violations.push((m.clone(), json!({"property": "C27", "what": m})));
            }
            Err(e) => rep.inconclusive.push(format!("build of {name}: {e}")),
        }
    }
    let base_n = if thorough { 20_000 } else { 500 };
    let per = 500;
    let mut distinct = std::collections::HashSet::new();
    let mut batch = 0;
    while batch * per < base_n && rep.violations.is_empty() && rep.inconclusive.is_empty() && t0.elapsed().as_secs() < 1500 {
        let list = plans(mix_seed(seed, batch), per);
        let file = dir.join("plans");
        std::fs::write(&file, list.join("\n")).expect("plans");
        let next = std::sync::atomic::AtomicUsize::new(0);
        let outs: Vec<(usize, (Option<i32>, String, String))> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..8)
                .map(|_| {
                    let (next, runs, file) = (&next, &runs, &file);
                    s.spawn(move || {
                        let mut v = vec![];
                        loop {
                            let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                            let Some(r) = runs.get(k) else { return v };
                            let mut c = Command::new(&r.bin);
                            c.arg(file);
                            if r.listen {
                                c.arg("listen");
                            }
                            v.push((k, run_cmd(&mut c, 400)));
                        }
                    })
                })
                .collect();
            hs.into_iter().flat_map(|h| h.join().expect("runner")).collect()
        });
        let mut first: HashMap<(u64, String), (String, usize)> = HashMap::new();
        let mut sorted: BTreeMap<usize, _> = outs.into_iter().collect();
        // the default features first, so that reports name the odd one out
        let keys: Vec<usize> = sorted.keys().copied().collect();
        for k in keys {
            let (code, out, err) = sorted.remove(&k).unwrap();
            let name = &runs[k].name;
            if code.is_none() {
                rep.inconclusive.push(format!("worker {name}: {err}"));
                continue;
            }
            if !out.ends_with("DONE\n") {
                let last = out.lines().last().unwrap_or("").replace('\u{1}', " ");
                let m = format!("the worker of the configuration {name} died ({code:?}) after \"{last}\" while others did not: {}", clip(&err, 600));
                rep.violations.push((m.clone(), json!({"property": "C27", "what": m, "batch": batch})));
                continue;
            }
            for l in out.lines() {
                if let Some(x) = l.strip_prefix("BAD ") {
                    let m = format!("configuration {name}: {}", clip(x, 1200));
                    rep.violations.push((m.clone(), json!({"property": "C27", "what": m, "batch": batch})));
                    continue;
                }
                if l == "ALWAYS" {
                    *rep.events.entry("texts_read_without_abnf".into()).or_default() += 1;
                    rep.evals += 1;
                    continue;
                }
                if let Some(x) = l.strip_prefix("LISTENED ") {
                    let v: Vec<u64> = x.split(' ').filter_map(|y| y.parse().ok()).collect();
                    if runs[k].listen && v.len() == 2 {
                        *rep.events.entry("spans_listened_to".into()).or_default() += v[0];
                        *rep.events.entry("trace_events_listened_to".into()).or_default() += v[1];
                    }
                    continue;
                }
                let mut f = l.split('\u{1}');
                let (Some(p), Some(sec), Some(hash)) = (f.next(), f.next(), f.next()) else { continue };
                let Ok(p) = p.parse::<u64>() else { continue };
                let kind: String = sec.chars().filter(|c| !c.is_ascii_digit()).collect::<String>().replace("  ", " ").trim().replace(' ', "_");
                if k == 0 {
                    *rep.events.entry(format!("sections_{kind}")).or_default() += 1;
                }
                if hash.ends_with("PANIC") {
                    *rep.events.entry("panics_seen".into()).or_default() += 1;
                }
                match first.get(&(p, sec.to_string())) {
                    None => {
                        distinct.insert((batch, h(&(sec, hash))));
                        first.insert((p, sec.to_string()), (hash.to_string(), k));
                    }
                    Some((x, k0)) => {
                        rep.evals += 1;
                        if x != hash && rep.violations.len() < 3 {
                            let (a, b) = (&runs[*k0], &runs[k]);
                            let (sa, sb) = (shown(&a.bin, a.listen, &file, p, sec), shown(&b.bin, b.listen, &file, p, sec));
                            let at = sa.bytes().zip(sb.bytes()).take_while(|(x, y)| x == y).count().saturating_sub(60);
                            let cut = |s: &str| {
                                let mut k = at.min(s.len());
                                while !s.is_char_boundary(k) {
                                    k -= 1;
                                }
                                clip(&s[k..], 500)
                            };
                            let m = format!("{sec} of plan {p} differs between {} and {}:\n  ...{}\n  ...{}\n  plan: {}", a.name, b.name, cut(&sa), cut(&sb), clip(&list[p as usize], 1500));
                            rep.violations.push((m.clone(), json!({"property": "C27", "what": m, "plan": list[p as usize], "section": sec, "configurations": [a.name, b.name]})));
                        }
                    }
                }
            }
        }
        rep.events.entry("plans".into()).and_modify(|x| *x += per).or_insert(per);
        batch += 1;
    }
    rep.events.insert("configurations_compared".into(), runs.len() as u64);
    rep.distinct = distinct.len() as u64;
    rep.samples.push(format!("configurations: {}", runs.iter().map(|r| r.name.as_str()).collect::<Vec<_>>().join("; ")));
    let _ = std::fs::remove_dir_all(&dir);
    finish(
        "C27",
        "the same random plans (texts, grammars, inputs, seeds) executed by workers built with every combination of the features ABNF, serde and tracing, with and without a subscriber that formats every field, in debug and optimised profiles; hashes of every section of results compared; non-trivial: distinct results compared",
        tier,
        seed,
        rep,
        t0,
        &[("configurations_compared", 30), ("plans", 400), ("spans_listened_to", 1000), ("texts_read_without_abnf", 1000), ("sections_parsing_input", 500), ("sections_generation", 1000)],
    )
}

fn mix_seed(seed: u64, batch: u64) -> u64 {
    seed.wrapping_add(batch.wrapping_mul(7_919))
}
