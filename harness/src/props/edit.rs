//! C23: grammars, productions and expressions as ordered lists under editing.
use super::Prop;
use crate::ctx::*;
use crate::r#gen::*;
use crate::model::*;
use crate::oracle::*;
use crate::rng::Rng;
use bnf::rand::{SeedableRng, rngs::StdRng};
use bnf::{Expression, Grammar, Production, Term};

pub static PROPS: &[Prop] = &[Prop {
    id: "C23",
    run: c23,
    quick: 90000,
    thorough: 3600000,
    cpu: 0.0,
    rule: "random sequences of additions, removals, in-place edits, copies and combinations applied to the crate's values and to plain lists, compared after every operation, with parsing and generation after edits compared with a freshly built grammar; non-trivial: distinct operation histories of at least five operations",
    need: &[("operations", 100_000), ("removed_present", 5000), ("removed_absent", 3000), ("removed_duplicate", 1000), ("combinations", 10_000), ("parses_after_edit", 1000), ("generations_after_edit", 1000), ("large", 30)],
    extra: None,
}];

fn small_term(r: &mut Rng) -> T {
    let s = r.pick(&["a", "b", "c", "", "é", "ab", "s", "'"]).to_string();
    if r.chance(50) { T::T(s) } else { T::N(s) }
}
fn small_alt(r: &mut Rng) -> Alt {
    (0..r.range(0, 3)).map(|_| small_term(r)).collect()
}
fn small_prod(r: &mut Rng) -> P {
    let lhs = if r.chance(90) { T::N(r.pick(&["s", "a", "b", "c"]).to_string()) } else { small_term(r) };
    P { lhs, alts: (0..r.range(0, 3)).map(|_| small_alt(r)).collect() }
}

fn same_grammar(g: &Grammar, m: &G, what: &str) -> Res {
    let now = G::from_bnf(g);
    if now != *m {
        return Err(format!("after {what} the grammar is\n{}should be\n{}", now.show(), m.show()));
    }
    let fresh = m.to_bnf();
    if *g != fresh || h(g) != h(&fresh) || g.to_string() != fresh.to_string() {
        return Err(format!("after {what} the grammar differs from an equal one built from its parts\n{}", m.show()));
    }
    let parts: usize = g.productions_iter().map(|p| p.len()).sum();
    if parts != m.prods.iter().map(|p| p.alts.len()).sum::<usize>() || g.productions_iter().any(|p| p.is_empty() != (p.len() == 0)) || g.productions_iter().count() != m.prods.len() {
        return Err(format!("after {what} the counts are wrong\n{}", m.show()));
    }
    Ok(())
}

fn c23(ctx: &mut Ctx, r: &mut Rng) -> Res {
    expressions(ctx, r)?;
    productions(ctx, r)?;
    // grammars
    let mut m = match r.below(4) {
        0 => G::new(),
        1 => G { prods: (0..r.range(0, 4)).map(|_| small_prod(r)).collect() },
        _ => parse_grammar(r),
    };
    let big = m.size() > 100;
    if big {
        ctx.event("large");
    }
    let mut g = if m.prods.is_empty() && r.chance(50) {
        if r.chance(50) { Grammar::new() } else { Grammar::default() }
    } else {
        m.to_bnf()
    };
    let steps = if big { 6 } else { r.range(3, 16) };
    let mut hist = vec![h(&m)];
    for _ in 0..steps {
        ctx.event("operations");
        let op = r.below(12);
        let what: String;
        match op {
            0 | 1 => {
                let p = if r.chance(40) && !m.prods.is_empty() { r.pick(&m.prods).clone() } else { small_prod(r) };
                what = format!("add_production({p:?})");
                g.add_production(prod_to(&p));
                m.prods.push(p);
            }
            2 | 3 => {
                let p = if r.chance(65) && !m.prods.is_empty() {
                    let mut p = r.pick(&m.prods).clone();
                    if r.chance(20) {
                        // nearly equal
                        if p.alts.is_empty() || r.chance(50) { p.alts.push(vec![]) } else { p.alts.reverse() }
                    }
                    p
                } else {
                    small_prod(r)
                };
                what = format!("remove_production({p:?})");
                let at = m.prods.iter().position(|x| *x == p);
                if m.prods.iter().filter(|x| **x == p).count() > 1 {
                    ctx.event("removed_duplicate");
                }
                ctx.event(if at.is_some() { "removed_present" } else { "removed_absent" });
                let want = at.map(|i| m.prods.remove(i));
                let got = g.remove_production(&prod_to(&p)).map(|p| prod_from(&p));
                if got != want {
                    return Err(format!("{what} returned {got:?}, should be {want:?}"));
                }
            }
            4 if !m.prods.is_empty() => {
                let k = r.below(m.prods.len());
                let a = small_alt(r);
                what = format!("add_to_rhs of production {k}: {a:?}");
                g.productions_iter_mut().nth(k).ok_or("too few")?.add_to_rhs(alt_to(&a));
                m.prods[k].alts.push(a);
            }
            5 if !m.prods.is_empty() => {
                let k = r.below(m.prods.len());
                let a = if r.chance(70) && !m.prods[k].alts.is_empty() { r.pick(&m.prods[k].alts).clone() } else { small_alt(r) };
                what = format!("remove_from_rhs of production {k}: {a:?}");
                let at = m.prods[k].alts.iter().position(|x| *x == a);
                ctx.event(if at.is_some() { "removed_present" } else { "removed_absent" });
                let want = at.map(|i| m.prods[k].alts.remove(i));
                let got = g.productions_iter_mut().nth(k).ok_or("too few")?.remove_from_rhs(&alt_to(&a)).map(|e| alt_from(&e));
                if got != want {
                    return Err(format!("{what} returned {got:?}, should be {want:?}"));
                }
            }
            6 if !m.prods.is_empty() => {
                let k = r.below(m.prods.len());
                let l = small_term(r);
                what = format!("production {k} gets left-hand side {l:?}");
                g.productions_iter_mut().nth(k).ok_or("too few")?.lhs = term_to(&l);
                m.prods[k].lhs = l;
            }
            7 => {
                // edit every term in place
                let (from, to) = (small_term(r), small_term(r));
                what = format!("replace {from:?} by {to:?} everywhere");
                for p in g.productions_iter_mut() {
                    for e in p.rhs_iter_mut() {
                        for t in e.terms_iter_mut() {
                            if *t == term_to(&from) {
                                *t = term_to(&to);
                            }
                        }
                    }
                }
                for x in m.prods.iter_mut().flat_map(|p| p.alts.iter_mut()).flatten() {
                    if *x == from {
                        *x = to.clone();
                    }
                }
            }
            8 => {
                // add or remove a term of one alternative
                let pos: Vec<(usize, usize)> = m.prods.iter().enumerate().flat_map(|(i, p)| (0..p.alts.len()).map(move |j| (i, j))).collect();
                if pos.is_empty() {
                    continue;
                }
                let (i, j) = *r.pick(&pos);
                let e = g.productions_iter_mut().nth(i).and_then(|p| p.rhs_iter_mut().nth(j)).ok_or("too few")?;
                let a = &mut m.prods[i].alts[j];
                if r.chance(50) {
                    let x = small_term(r);
                    what = format!("add_term {x:?} to ({i}, {j})");
                    e.add_term(term_to(&x));
                    a.push(x);
                } else {
                    let x = if r.chance(70) && !a.is_empty() { r.pick(a).clone() } else { small_term(r) };
                    what = format!("remove_term {x:?} from ({i}, {j})");
                    let at = a.iter().position(|y| *y == x);
                    ctx.event(if at.is_some() { "removed_present" } else { "removed_absent" });
                    let want = at.map(|k| a.remove(k));
                    let got = e.remove_term(&term_to(&x)).map(|t| term_from(&t));
                    if got != want {
                        return Err(format!("{what} returned {got:?}, should be {want:?}"));
                    }
                }
            }
            9 => {
                // go on with a copy; the original must not notice
                what = "clone".into();
                let mut c = g.clone();
                if c != g || h(&c) != h(&g) {
                    return Err(format!("a clone differs\n{}", m.show()));
                }
                let p = small_prod(r);
                c.add_production(prod_to(&p));
                if c == g {
                    return Err(format!("equal to a copy with one more production\n{}", m.show()));
                }
                same_grammar(&g, &m, "editing a copy")?;
                if c.remove_production(&prod_to(&p)).is_none() {
                    return Err("what was just added cannot be removed".into());
                }
                if r.chance(50) {
                    // the first equal one was removed: same list unless it occurred before
                    if !m.prods.contains(&p) {
                        g = c;
                    }
                }
            }
            10 => {
                // reorder in place through the mutable iterator
                what = "swap two productions".into();
                if m.prods.len() < 2 {
                    continue;
                }
                let (i, j) = (r.below(m.prods.len()), r.below(m.prods.len()));
                m.prods.swap(i, j);
                if i != j {
                    let mut v: Vec<&mut Production> = g.productions_iter_mut().collect();
                    let (a, b) = (i.min(j), i.max(j));
                    let (x, y) = v.split_at_mut(b);
                    std::mem::swap(&mut *x[a], &mut *y[0]);
                }
            }
            _ => {
                what = "use".into();
                use_it(ctx, r, &g, &m)?;
            }
        }
        hist.push(h(&what));
        same_grammar(&g, &m, &what)?;
    }
    use_it(ctx, r, &g, &m)?;
    ctx.eval((hist.len() > 5).then(|| h(&hist)));
    ctx.sample(|| format!("{} operations ending in\n{}", hist.len() - 1, m.show()));
    Ok(())
}

/// parsing, validation and generation see the current parts
fn use_it(ctx: &mut Ctx, r: &mut Rng, g: &Grammar, m: &G) -> Res {
    let fresh = m.to_bnf();
    let (a, b) = (g.validate(), fresh.validate());
    if a.is_ok() != b.is_ok() {
        return Err(format!("validate: {a:?}, on a fresh copy {b:?}\n{}", m.show()));
    }
    let seed = r.seed32();
    if super::generation::subcritical(m) {
        let (x, y) = (g.generate_seeded(&mut StdRng::from_seed(seed)), fresh.generate_seeded(&mut StdRng::from_seed(seed)));
        ctx.event("generations_after_edit");
        if x != y {
            return Err(format!("generates {x:?}, a fresh copy {y:?}\n{}", m.show()));
        }
        // and the sentence belongs to the grammar as it is now
        if let Ok(s) = x
            && let Some(T::N(st)) = m.prods.first().map(|p| &p.lhs)
            && s.len() < 100
        {
            let cg = CG::new(m, Undef::Printed);
            if !Spans::new(&cg, s.as_bytes()).accepts(cg.idx[st]) {
                return Err(format!("generates {s:?}, which the current grammar does not derive\n{}", m.show()));
            }
        }
    }
    if a.is_ok()
        && let Some(T::N(st)) = m.prods.first().map(|p| &p.lhs)
        && m.prods.iter().all(|p| matches!(p.lhs, T::N(_)))
    {
        let p = g.build_parser().map_err(|e| format!("validates but: {e}\n{}", m.show()))?;
        let cg = CG::new(m, Undef::Nothing);
        let i = cg.idx[st];
        let sm = Sampler::new(&cg);
        for s in inputs(r, m, &sm, i, 4, 30) {
            let sp = Spans::new(&cg, s.as_bytes());
            use super::parse::Size;
            match super::parse::budget(&sp, i, 5000.0) {
                Size::Finite(_) | Size::Infinite(_) | Size::AcceptOnly(_) => {}
                _ => continue,
            }
            ctx.event("parses_after_edit");
            let got = p.parse_input(&s).next().is_some();
            if got != sp.accepts(i) {
                return Err(format!("parses {s:?}: {got}, the current grammar derives it: {}\n{}", !got, m.show()));
            }
        }
    }
    Ok(())
}

fn expressions(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let mut m: Alt = small_alt(r);
    if r.chance(2) {
        m = (0..r.range(50, 300)).map(|_| small_term(r)).collect();
    }
    let mut e = if m.is_empty() && r.chance(50) {
        if r.chance(50) { Expression::new() } else { Expression::default() }
    } else {
        alt_to(&m)
    };
    for _ in 0..r.range(1, 10) {
        ctx.event("operations");
        let what: String;
        match r.below(11) {
            0 => {
                let x = small_term(r);
                what = format!("add_term {x:?}");
                e.add_term(term_to(&x));
                m.push(x);
            }
            1 | 2 => {
                let x = if r.chance(65) && !m.is_empty() { r.pick(&m).clone() } else { small_term(r) };
                what = format!("remove_term {x:?}");
                if m.iter().filter(|y| **y == x).count() > 1 {
                    ctx.event("removed_duplicate");
                }
                let at = m.iter().position(|y| *y == x);
                ctx.event(if at.is_some() { "removed_present" } else { "removed_absent" });
                let want = at.map(|k| m.remove(k));
                let got = e.remove_term(&term_to(&x)).map(|t| term_from(&t));
                if got != want {
                    return Err(format!("{what} returned {got:?}, should be {want:?}"));
                }
            }
            3 => {
                let o = small_alt(r);
                what = format!("expression + {o:?}");
                ctx.event("combinations");
                e = if r.chance(50) {
                    let before = e.clone();
                    let s = &e + alt_to(&o);
                    if e != before {
                        return Err("adding to a reference changed it".into());
                    }
                    s
                } else {
                    e + alt_to(&o)
                };
                m.extend(o);
            }
            4 => {
                let x = small_term(r);
                what = format!("expression + {x:?}");
                ctx.event("combinations");
                e = if r.chance(50) { &e + term_to(&x) } else { e + term_to(&x) };
                m.push(x);
            }
            5 => {
                // a term added to an expression goes last, whichever side of + it stands on
                let x = small_term(r);
                what = format!("{x:?} + expression");
                ctx.event("combinations");
                e = if r.chance(50) {
                    let before = e.clone();
                    let s = term_to(&x) + &e;
                    if e != before {
                        return Err("adding to a reference changed it".into());
                    }
                    s
                } else {
                    term_to(&x) + e
                };
                m.push(x);
            }
            6 => {
                let (x, y) = (small_term(r), small_term(r));
                what = format!("{x:?} + {y:?}");
                ctx.event("combinations");
                e = term_to(&x) + term_to(&y);
                m = vec![x, y];
            }
            7 => {
                what = "in-place edit".into();
                if let Some(k) = (!m.is_empty()).then(|| r.below(m.len())) {
                    let x = small_term(r);
                    if let Some(t) = e.terms_iter_mut().nth(k) {
                        *t = term_to(&x);
                    }
                    m[k] = x;
                }
            }
            8 => {
                what = "clone".into();
                let mut c = e.clone();
                c.add_term(Term::Terminal("z".into()));
                if c == e {
                    return Err("equal to a copy with one more term".into());
                }
            }
            9 => {
                what = "empty combinations".into();
                let c = &e + Expression::new();
                if c != e {
                    return Err(format!("adding nothing changed {e:?} to {c:?}"));
                }
                let d = Expression::new() + e.clone();
                if d != e {
                    return Err(format!("adding {e:?} to nothing gives {d:?}"));
                }
            }
            _ => {
                what = "comparison".into();
                let o = if r.chance(40) {
                    let mut o = m.clone();
                    if r.chance(50) {
                        r.shuffle(&mut o);
                    } else if !o.is_empty() && r.chance(50) {
                        o.pop();
                    }
                    o
                } else {
                    small_alt(r)
                };
                let f = alt_to(&o);
                if (e == f) != (m == o) || (m == o && h(&e) != h(&f)) {
                    return Err(format!("{e:?} == {f:?} is {}", e == f));
                }
                if e.cmp(&f) != f.cmp(&e).reverse() || (e.cmp(&f) == std::cmp::Ordering::Equal) != (m == o) {
                    return Err(format!("{e:?} and {f:?} are ordered inconsistently"));
                }
            }
        }
        let now = alt_from(&e);
        if now != m {
            return Err(format!("after {what} the expression is {now:?}, should be {m:?}"));
        }
        let fresh = alt_to(&m);
        if e != fresh || h(&e) != h(&fresh) || e.to_string() != fresh.to_string() || e.terms_iter().count() != m.len() {
            return Err(format!("after {what} the expression differs from one built from its parts {m:?}"));
        }
    }
    Ok(())
}

fn productions(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let mut m = small_prod(r);
    if r.chance(2) {
        m.alts = (0..r.range(50, 300)).map(|_| small_alt(r)).collect();
    }
    let mut p = if r.chance(20) {
        m = P { lhs: n(""), alts: vec![] };
        if r.chance(50) { Production::new() } else { Production::default() }
    } else {
        prod_to(&m)
    };
    for _ in 0..r.range(1, 10) {
        ctx.event("operations");
        let what: String;
        match r.below(6) {
            0 | 1 => {
                let a = if r.chance(40) && !m.alts.is_empty() { r.pick(&m.alts).clone() } else { small_alt(r) };
                what = format!("add_to_rhs {a:?}");
                p.add_to_rhs(alt_to(&a));
                m.alts.push(a);
            }
            2 | 3 => {
                let a = if r.chance(65) && !m.alts.is_empty() { r.pick(&m.alts).clone() } else { small_alt(r) };
                what = format!("remove_from_rhs {a:?}");
                if m.alts.iter().filter(|y| **y == a).count() > 1 {
                    ctx.event("removed_duplicate");
                }
                let at = m.alts.iter().position(|y| *y == a);
                ctx.event(if at.is_some() { "removed_present" } else { "removed_absent" });
                let want = at.map(|k| m.alts.remove(k));
                let got = p.remove_from_rhs(&alt_to(&a)).map(|e| alt_from(&e));
                if got != want {
                    return Err(format!("{what} returned {got:?}, should be {want:?}"));
                }
            }
            4 => {
                what = "in-place edit".into();
                let a = small_alt(r);
                if let Some(k) = (!m.alts.is_empty()).then(|| r.below(m.alts.len())) {
                    if let Some(e) = p.rhs_iter_mut().nth(k) {
                        *e = alt_to(&a);
                    }
                    m.alts[k] = a;
                } else {
                    p.lhs = Term::Nonterminal("q".into());
                    m.lhs = n("q");
                }
            }
            _ => {
                what = "comparison".into();
                let mut o = m.clone();
                match r.below(4) {
                    0 => o.alts.push(vec![]),
                    1 => o.lhs = small_term(r),
                    2 => o.alts.reverse(),
                    _ => {}
                }
                let q = prod_to(&o);
                if (p == q) != (m == o) || (m == o && h(&p) != h(&q)) {
                    return Err(format!("{p:?} == {q:?} is {}", p == q));
                }
            }
        }
        let now = prod_from(&p);
        if now != m {
            return Err(format!("after {what} the production is {now:?}, should be {m:?}"));
        }
        let fresh = prod_to(&m);
        if p != fresh || h(&p) != h(&fresh) || p.to_string() != fresh.to_string() || p.len() != m.alts.len() || p.is_empty() != m.alts.is_empty() || p.rhs_iter().count() != m.alts.len() || p.clone() != fresh {
            return Err(format!("after {what} the production differs from one built from its parts {m:?}"));
        }
    }
    Ok(())
}
