//! Generation that nests hundreds or thousands of expansions, over long chains of nonterminals and
//! productions with a thousand alternatives: the traces are judged like those of small cases.
use super::generation::*;
use crate::ctx::*;
use crate::model::*;

use crate::rng::Rng;
use bnf::{DepthBounded, Expression, GenerationStrategy, Grammar, Production, Weighted};
use std::cell::RefCell;

pub struct Deep {
    pub g: G,
    /// nonterminals on the recursive cycle
    cycle: Vec<String>,
}

/// a cycle of nonterminals, each with recursive alternatives and ending ones; children at the side
pub fn linear(r: &mut Rng, many: bool) -> Deep {
    let k = r.range(1, 5);
    let bits = ["", "a", "é", "(", "-", "日本", "ab"];
    let mut prods = vec![];
    let cycle: Vec<String> = (0..k).map(|i| format!("c{i}")).collect();
    let side = r.chance(50);
    for i in 0..k {
        let next = cycle[(i + 1) % k].clone();
        let rec = if many { r.range(200, 1000) } else { r.range(1, 4) };
        let mut alts: Vec<Alt> = vec![];
        for j in 0..rec {
            let mut a = vec![];
            if many {
                a.push(T::T(format!("{j:x}")));
            } else if r.chance(60) {
                a.push(t(r.pick(&bits)));
            }
            if side && r.chance(30) {
                a.push(n("side"));
            }
            a.push(T::N(next.clone()));
            if r.chance(50) {
                a.push(t(r.pick(&bits)));
            }
            if side && r.chance(30) {
                a.push(n("side"));
            }
            alts.push(a);
        }
        for j in 0..r.range(1, 2) {
            let at = r.below(alts.len() + 1);
            alts.insert(at, vec![T::T(format!("!{j}"))]);
        }
        if r.chance(20) && alts.len() > 2 {
            let tail = alts.split_off(alts.len() / 2);
            prods.push(P { lhs: T::N(cycle[i].clone()), alts: tail });
        }
        let at = if r.chance(50) { prods.len() } else { r.below(prods.len() + 1) };
        prods.insert(at, P { lhs: T::N(cycle[i].clone()), alts });
    }
    prods.push(P { lhs: n("side"), alts: vec![vec![t(",")], vec![t("."), n("leaf")]] });
    prods.push(P { lhs: n("leaf"), alts: vec![vec![t("l")], vec![t("")]] });
    // c0 first
    let at = prods.iter().position(|p| p.name() == "c0").expect("c0");
    let p = prods.remove(at);
    prods.insert(0, p);
    Deep { g: G { prods }, cycle }
}

/// recurses to a depth, then ends
struct Dive<'a> {
    r: Rng,
    to: usize,
    /// nesting by our own count of open expansions is in the trace; this is what we are told
    trace: &'a RefCell<Vec<Ev>>,
    levels: usize,
    cycle: &'a [String],
}
impl GenerationStrategy for Dive<'_> {
    fn choose<'p>(&mut self, p: &'p Production, depth: usize) -> Option<&'p Expression> {
        let on = matches!(&p.lhs, bnf::Term::Nonterminal(x) if self.cycle.contains(x));
        let ends = |e: &Expression| e.terms_iter().all(|t| matches!(t, bnf::Term::Terminal(_)));
        let c = if on {
            self.levels += 1;
            let dive = self.levels <= self.to;
            let v: Vec<&Expression> = p.rhs_iter().filter(|e| ends(e) != dive).collect();
            if v.is_empty() { p.rhs_iter().next() } else { Some(v[self.r.below(v.len())]) }
        } else {
            let k = self.r.below(p.len());
            p.rhs_iter().nth(k)
        };
        self.trace.borrow_mut().push(Ev::Choose { nt: term_from(&p.lhs), alts: p.len(), depth, chosen: c.map(alt_from).unwrap_or_default() });
        c
    }
}

/// one of the crate's strategies, watched
struct Watch<'a, S> {
    inner: S,
    trace: &'a RefCell<Vec<Ev>>,
}
impl<S: GenerationStrategy> GenerationStrategy for Watch<'_, S> {
    fn choose<'p>(&mut self, p: &'p Production, depth: usize) -> Option<&'p Expression> {
        let c = self.inner.choose(p, depth);
        self.trace.borrow_mut().push(Ev::Choose { nt: term_from(&p.lhs), alts: p.len(), depth, chosen: c.map(alt_from).unwrap_or_default() });
        c
    }
}

/// the sentence the recorded choices spell out
pub fn spell(g: &G, ev: &[Ev]) -> Result<String, String> {
    // terms still to write, last first
    let mut todo: Vec<T> = vec![T::N(g.prods[0].name().to_string())];
    let mut it = ev.iter().filter_map(|e| if let Ev::Choose { nt: T::N(x), chosen, .. } = e { Some((x, chosen)) } else { None });
    let mut out = String::new();
    while let Some(x) = todo.pop() {
        match x {
            T::T(s) => out.push_str(&s),
            T::N(y) if g.defines(&y) => match it.next() {
                Some((x, c)) if *x == y => {
                    if !g.alts_of(&y).contains(&c) {
                        return Err(format!("{c:?} is no alternative of <{y}>"));
                    }
                    todo.extend(c.iter().rev().cloned());
                }
                o => return Err(format!("<{y}> is to be expanded next, the choice asked for was {o:?}")),
            },
            T::N(y) => out.push_str(&format!("<{y}>")),
        }
    }
    match it.next() {
        Some(x) => Err(format!("a choice after the sentence was complete: {x:?}")),
        None => Ok(out),
    }
}

const DEPTHS: &[usize] = &[60, 65, 100, 128, 130, 200, 255, 257, 300, 500, 513, 1000, 1026, 1500, 2050];

pub fn run(id: &str, ctx: &mut Ctx, r: &mut Rng) -> Res {
    let kind = r.below(if id == "C18" { 2 } else { 3 });
    let many = kind == 1;
    let d = linear(r, many);
    let b: Grammar = d.g.to_bnf();
    let trace = RefCell::new(vec![]);
    let offers = id != "C14" || r.chance(50);
    let veto_at = (id == "C17").then(|| r.below(200));
    let count = RefCell::new(0usize);
    let cb = |nt: &str, text: &str| {
        let mut c = count.borrow_mut();
        *c += 1;
        let ok = veto_at != Some(*c);
        trace.borrow_mut().push(Ev::Offer { nt: nt.to_string(), text: text.to_string(), ok });
        ok
    };
    let to = DEPTHS[r.below(DEPTHS.len())];
    let bound = *r.pick(&[40usize, 64, 100, 127, 129, 200, 256, 257, 300]);
    let seed = r.seed32();
    let (what, res) = match kind {
        0 => {
            let mut s = Dive { r: r.clone(), to, trace: &trace, levels: 0, cycle: &d.cycle };
            (format!("a strategy that recurses {to} times"), if offers { b.generate_seeded_callback_with_strategy(cb, &mut s) } else { b.generate_seeded_with_strategy(&mut s) })
        }
        1 => {
            let mut s = Watch { inner: DepthBounded::from_seed(bound, seed), trace: &trace };
            (format!("DepthBounded({bound})"), if offers { b.generate_seeded_callback_with_strategy(cb, &mut s) } else { b.generate_seeded_with_strategy(&mut s) })
        }
        _ => {
            // deep only where a nonterminal refers to itself
            let mut s = Watch { inner: Weighted::from_seed(200, 1, seed), trace: &trace };
            ("Weighted(200, 1)".to_string(), if offers { b.generate_seeded_callback_with_strategy(cb, &mut s) } else { b.generate_seeded_with_strategy(&mut s) })
        }
    };
    let ev = trace.into_inner();
    let max = ev.iter().map(|e| if let Ev::Choose { depth, .. } = e { *depth } else { 0 }).max().unwrap_or(0);
    ctx.event("deep_generations");
    if max >= 128 {
        ctx.event("deeper_than_128");
    }
    ctx.max("max_nesting", max as u64);
    ctx.add("deep_events", ev.len() as u64);
    ctx.eval(Some(h(&(&d.g, to, bound, seed))));
    let tell = |m: String| -> String { format!("{what}: {}\n{}result: {}", clip(&m, 1500), clip(&d.g.show(), 2500), clip(&format!("{res:?}"), 600)) };
    let Ok(text) = &res else {
        return Err(tell("generation fails although everything ends".into()));
    };
    let want = if offers { String::new() } else { spell(&d.g, &ev).map_err(&tell)? };
    if offers {
        check_trace(&d.g, &ev, &res).map_err(&tell)?;
    } else if *text != want {
        return Err(tell(format!("the choices spell {}", clip(&want, 500))));
    }
    if kind == 1 && id == "C18" {
        if max > bound {
            // children at the side of the deepest expansion are below it: they cannot be avoided only
            // when the alternative chosen at the bound has them, and it must be a terminal-only one
            return Err(tell(format!("expanded at depth {max}")));
        }
        if max == bound {
            ctx.event("deep_bound_reached");
        }
    }
    Ok(())
}
