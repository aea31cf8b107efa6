//! C11 Display/FromStr round trip, C12 serde round trip, C13 validation.
use super::Prop;
use crate::ctx::*;
use crate::r#gen::*;
use crate::model::*;
use crate::rng::Rng;
use crate::text::*;
use bnf::rand::{SeedableRng, rngs::StdRng};
use bnf::{BNF, Error, Expression, Grammar, GrammarParser, Production, Term};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C11",
        run: c11,
        quick: 120000,
        thorough: 4800000,
        cpu: 0.0,
        rule: "terms, expressions, productions and grammars built through the API or read from (extended) text, restricted to what BNF can write, formatted and read back; non-trivial: distinct grammars with at least two terms",
        need: &[("grammars", 10_000), ("from_text", 2000), ("multibyte", 2000), ("quotes", 500), ("large", 30), ("line_breaks", 300)],
        extra: None,
    },
    Prop {
        id: "C12",
        run: c12,
        quick: 100000,
        thorough: 4000000,
        cpu: 0.0,
        rule: "arbitrary terms, expressions, productions and grammars (empty parts, terminal left-hand sides, any characters) through JSON text, bytes and values, through bincode and through RON; equality, iteration, generation and parsing compared; non-trivial: distinct grammars with at least two terms",
        need: &[("grammars", 8000), ("no_alternatives", 200), ("no_terms", 500), ("multibyte", 1000), ("generated_compared", 2000), ("parsed_compared", 1000), ("large", 30)],
        extra: None,
    },
    Prop {
        id: "C13",
        run: c13,
        quick: 500000,
        thorough: 20000000,
        cpu: 0.0,
        rule: "grammars with and without undefined nonterminals, terminal left-hand sides, empty productions, near-equal names and hundreds of productions through validate, build_parser and GrammarParser::new; non-trivial: distinct grammars",
        need: &[("valid", 3000), ("invalid", 3000), ("empty_grammar", 10), ("terminal_lhs", 500), ("no_alternatives", 500), ("large", 50)],
        extra: None,
    },
];

const QUOTES: &[&str] = &["'", "\"", "''", "it's", "\"quoted\"", "a'b'c", "\"", "`", "'\n", "\" ;", "('", "[\"", ";'", "|'", "::='", "<x>'", "\\'", "\\\""];

fn any_term(r: &mut Rng) -> T {
    if r.chance(50) {
        let mut s = (*r.pick(EXOTIC)).to_string();
        if r.chance(30) {
            s.push_str(r.pick(EXOTIC));
        }
        T::N(s)
    } else {
        let mut s = String::new();
        for _ in 0..r.range(0, 3) {
            if r.chance(25) {
                s.push_str(r.pick(QUOTES));
            } else if r.chance(10) {
                if let Some(c) = char::from_u32(r.below(0x11_0000) as u32) {
                    s.push(c);
                }
            } else {
                let p = r.below(POOLS.len());
                s.push_str(&terminal(r, p));
            }
        }
        if r.chance(1) {
            s = s.repeat(500);
        }
        T::T(s)
    }
}

fn writable_term(r: &mut Rng) -> T {
    loop {
        let x = any_term(r);
        let ok = match &x {
            T::T(s) => terminal_ok(s),
            T::N(s) => name_ok(s, Fmt::Bnf),
        };
        if ok {
            return x;
        }
    }
}

fn check_str<X>(what: &str, v: &X) -> Res
where
    X: std::fmt::Display + std::fmt::Debug + PartialEq + std::str::FromStr<Err = Error>,
{
    let s = v.to_string();
    match s.parse::<X>() {
        Ok(w) if w == *v => {
            let s2 = w.to_string();
            if s2 != s { Err(format!("{what} formats as {s:?} and after reading back as {s2:?}")) } else { Ok(()) }
        }
        Ok(w) => Err(format!("{what} {} formats as {:?}, which reads back as {}", clip(&format!("{v:?}"), 2000), clip(&s, 2000), clip(&format!("{w:?}"), 2000))),
        Err(e) => Err(format!("{what} {} formats as {:?}, which is refused: {}", clip(&format!("{v:?}"), 2000), clip(&s, 2000), clip(&e.to_string(), 300))),
    }
}

fn c11(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let g: Grammar = match r.below(10) {
        0..=2 => {
            // from text, extended or not
            let grp = r.chance(70);
            let fmt = if r.chance(60) { Fmt::Bnf } else { Fmt::Abnf };
            let e = super::textual::extended(r, fmt, grp);
            let (text, _, _) = Printer::new(r, fmt, Layout::Wild).grammar(&e);
            ctx.event("from_text");
            let g = match fmt {
                Fmt::Bnf => Grammar::parse_from::<BNF>(&text),
                _ => Grammar::parse_from::<bnf::ABNF>(&text),
            };
            let Ok(g) = g else {
                ctx.event("text_refused");
                return Ok(());
            };
            // ABNF names may hold a '>', which BNF cannot write
            if !writable(&G::from_bnf(&g), Fmt::Bnf) {
                ctx.event("not_writable");
                return Ok(());
            }
            g
        }
        3..=4 => {
            let g = parse_grammar(r);
            if !writable(&g, Fmt::Bnf) {
                ctx.event("not_writable");
                return Ok(());
            }
            g.to_bnf()
        }
        _ => {
            let np = if r.chance(1) { r.range(50, 200) } else { r.range(1, 4) };
            let mut g = G::new();
            for _ in 0..np {
                let lhs = loop {
                    if let T::N(x) = writable_term(r) {
                        break T::N(x);
                    }
                };
                let na = if r.chance(1) { r.range(30, 200) } else { r.range(1, 4) };
                let alts = (0..na)
                    .map(|_| {
                        let k = if r.chance(1) { r.range(30, 100) } else { r.range(1, 4) };
                        (0..k).map(|_| writable_term(r)).collect()
                    })
                    .collect();
                g.prods.push(P { lhs, alts });
            }
            g.to_bnf()
        }
    };
    let m = G::from_bnf(&g);
    ctx.event("grammars");
    let s = g.to_string();
    if !s.is_ascii() {
        ctx.event("multibyte");
    }
    if s.len() > 2000 {
        ctx.event("large");
    }
    for x in m.prods.iter().flat_map(|p| p.alts.iter()).flatten() {
        match x {
            T::T(s) if s.contains(['\'', '"']) => ctx.event("quotes"),
            T::T(s) | T::N(s) if s.contains(['\n', '\r']) => ctx.event("line_breaks"),
            _ => {}
        }
    }
    ctx.eval((m.size() > 4).then(|| h(&m)));
    ctx.sample(|| s.clone());
    check_str("grammar", &g)?;
    match Grammar::parse_from::<BNF>(&s) {
        Ok(x) if x == g => {}
        o => return Err(format!("grammar formats as {:?}, which parse_from::<BNF> reads as {}", clip(&s, 2000), clip(&format!("{o:?}"), 2000))),
    }
    if g.to_string() != g.clone().to_string() || format!("{g}") != s {
        return Err("formatting twice differs".into());
    }
    for p in g.productions_iter() {
        check_str("production", p)?;
        for e in p.rhs_iter() {
            check_str("expression", e)?;
            for t in e.terms_iter() {
                check_str("term", t)?;
            }
        }
        check_str("term", &p.lhs)?;
    }
    Ok(())
}

/// any value at all, also what no text can say
pub fn any_grammar(r: &mut Rng) -> G {
    let np = if r.chance(1) { r.range(30, 200) } else { r.range(0, 4) };
    let mut g = G::new();
    for _ in 0..np {
        let na = if r.chance(1) { r.range(30, 200) } else { r.range(0, 4) };
        let lhs = any_term(r);
        let alts = (0..na)
            .map(|_| {
                let k = if r.chance(1) { r.range(30, 100) } else { r.range(0, 4) };
                (0..k).map(|_| any_term(r)).collect()
            })
            .collect();
        g.prods.push(P { lhs, alts });
    }
    g
}

fn serde_trip<X>(what: &str, v: &X, r: &mut Rng) -> Result<X, String>
where
    X: serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug,
{
    let bad = |how: &str, e: String| format!("{what} {} through {how}: {e}", clip(&format!("{v:?}"), 2000));
    let kind = r.below(8);
    let w: X = match kind {
        // positional: nothing but the values in their order
        4 | 5 => {
            let s = bincode::serialize(v).map_err(|e| bad("bincode", e.to_string()))?;
            bincode::deserialize(&s).map_err(|e| bad("bincode", e.to_string()))?
        }
        6 => {
            let s = ron::to_string(v).map_err(|e| bad("ron", e.to_string()))?;
            ron::from_str(&s).map_err(|e| bad(&s, e.to_string()))?
        }
        7 => {
            let s = ron::ser::to_string_pretty(v, ron::ser::PrettyConfig::default()).map_err(|e| bad("ron", e.to_string()))?;
            ron::from_str(&s).map_err(|e| bad(&s, e.to_string()))?
        }
        0 => {
            let s = serde_json::to_string(v).map_err(|e| bad("to_string", e.to_string()))?;
            serde_json::from_str(&s).map_err(|e| bad(&s, e.to_string()))?
        }
        1 => {
            let s = serde_json::to_vec(v).map_err(|e| bad("to_vec", e.to_string()))?;
            serde_json::from_slice(&s).map_err(|e| bad("from_slice", e.to_string()))?
        }
        2 => {
            let s = serde_json::to_value(v).map_err(|e| bad("to_value", e.to_string()))?;
            serde_json::from_value(s).map_err(|e| bad("from_value", e.to_string()))?
        }
        _ => {
            let s = serde_json::to_string_pretty(v).map_err(|e| bad("to_string_pretty", e.to_string()))?;
            serde_json::from_reader(s.as_bytes()).map_err(|e| bad(&s, e.to_string()))?
        }
    };
    if w != *v {
        return Err(bad(["serde_json", "bincode", "ron"][if kind < 4 { 0 } else { 1 + (kind - 4) / 2 }], format!("comes back as {}", clip(&format!("{w:?}"), 2000))));
    }
    Ok(w)
}

fn c12(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let valid = r.chance(40);
    let m = if valid { parse_grammar(r) } else { any_grammar(r) };
    let g = m.to_bnf();
    ctx.event("grammars");
    if m.prods.iter().any(|p| p.alts.is_empty()) {
        ctx.event("no_alternatives");
    }
    if m.prods.iter().any(|p| p.alts.iter().any(Vec::is_empty)) {
        ctx.event("no_terms");
    }
    if m.size() > 150 {
        ctx.event("large");
    }
    if !m.show().is_ascii() || m.prods.iter().flat_map(|p| p.alts.iter()).flatten().any(|x| matches!(x, T::T(s) | T::N(s) if !s.is_ascii())) {
        ctx.event("multibyte");
    }
    ctx.eval((m.size() > 4).then(|| h(&m)));
    ctx.sample(|| m.show());
    let w = serde_trip("grammar", &g, r)?;
    // not only by the crate's own notion of equality
    if G::from_bnf(&w) != m {
        return Err(format!("grammar\n{}comes back as\n{}", m.show(), G::from_bnf(&w).show()));
    }
    if h(&w) != h(&g) || w.to_string() != g.to_string() {
        return Err(format!("the deserialised grammar hashes or formats differently\n{}", m.show()));
    }
    for p in g.productions_iter().take(5) {
        let q: Production = serde_trip("production", p, r)?;
        if prod_from(&q) != prod_from(p) {
            return Err(format!("production {p:?} comes back as {q:?}"));
        }
        for e in p.rhs_iter().take(5) {
            let f: Expression = serde_trip("expression", e, r)?;
            if alt_from(&f) != alt_from(e) {
                return Err(format!("expression {e:?} comes back as {f:?}"));
            }
            for t in e.terms_iter().take(5) {
                let u: Term = serde_trip("term", t, r)?;
                if term_from(&u) != term_from(t) {
                    return Err(format!("term {t:?} comes back as {u:?}"));
                }
            }
        }
    }
    if valid {
        // same sentences and same parses
        let sub = super::generation::subcritical(&m);
        for _ in 0..2 {
            let seed = r.seed32();
            if sub {
                let a = g.generate_seeded(&mut StdRng::from_seed(seed));
                let b = w.generate_seeded(&mut StdRng::from_seed(seed));
                ctx.event("generated_compared");
                if a != b {
                    return Err(format!("generates {a:?} before and {b:?} after serialisation\n{}", m.show()));
                }
            }
        }
        let cg = crate::oracle::CG::new(&m, crate::oracle::Undef::Nothing);
        let a = cg.idx[m.prods[0].name()];
        let sm = Sampler::new(&cg);
        let (p, q) = match (g.build_parser(), w.build_parser()) {
            (Ok(p), Ok(q)) => (p, q),
            (Err(_), Err(_)) => return Ok(()),
            _ => return Err(format!("only one of the two grammars validates\n{}", m.show())),
        };
        for s in inputs(r, &m, &sm, a, 3, 30) {
            let sp = crate::oracle::Spans::new(&cg, s.as_bytes());
            use super::parse::Size;
            let k = match super::parse::budget(&sp, a, 5000.0) {
                Size::Finite(_) => 50,
                Size::Infinite(k) => k.min(20),
                Size::AcceptOnly(k) => k,
                _ => continue,
            };
            let x: Vec<String> = p.parse_input(&s).take(k).map(|t| t.to_string()).collect();
            let y: Vec<String> = q.parse_input(&s).take(k).map(|t| t.to_string()).collect();
            ctx.event("parsed_compared");
            if x != y {
                return Err(format!("parses of {s:?} differ after serialisation\n{}", m.show()));
            }
        }
    }
    Ok(())
}

fn c13(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let mut m = match r.below(10) {
        0..=3 => {
            let mut o = Opt::random(r);
            o.undef_pct = *r.pick(&[0, 0, 5, 30]);
            grammar(r, &o)
        }
        4 => any_grammar(r),
        5 => {
            let mut g = large(r);
            if r.chance(50) {
                // one undefined somewhere, once
                let k = r.below(g.prods.len());
                let j = r.below(g.prods[k].alts.len());
                g.prods[k].alts[j].push(n("nowhere defined"));
            }
            g
        }
        _ => parse_grammar(r),
    };
    // near-equal names, terminals named like nonterminals, empty and terminal-headed productions
    for _ in 0..r.below(3) {
        if m.prods.is_empty() {
            break;
        }
        let k = r.below(m.prods.len());
        match r.below(8) {
            0 => {
                let nm = m.prods[k].name().to_string();
                let near = match r.below(5) {
                    0 => format!("{nm} "),
                    1 => nm.to_uppercase(),
                    2 => format!("<{nm}>"),
                    3 => String::new(),
                    _ => format!("{nm}\u{301}"),
                };
                let x = vec![T::N(near)];
                m.prods[k].alts.push(x);
            }
            1 => {
                // the only definition is headed by a terminal of that name
                m.prods.push(P { lhs: t("tl"), alts: vec![vec![t("x")]] });
                m.prods[k].alts.push(vec![n("tl")]);
            }
            2 => {
                m.prods.push(P { lhs: n("empty"), alts: vec![] });
                m.prods[k].alts.push(vec![n("empty")]);
            }
            3 => {
                m.prods.insert(0, P { lhs: n("first"), alts: vec![] });
            }
            4 => {
                m.prods.remove(k);
            }
            5 => {
                m.prods[k].alts.clear();
            }
            6 => {
                // a terminal spelled like an undefined nonterminal is fine
                m.prods[k].alts.push(vec![t("undef0"), t("<undef1>")]);
            }
            _ => {
                let x = m.prods[k].lhs.clone();
                m.prods.insert(0, P { lhs: t("head"), alts: vec![vec![x]] });
            }
        }
    }
    if r.chance(1) {
        m.prods.clear();
    }
    if m.prods.is_empty() {
        ctx.event("empty_grammar");
    }
    if m.size() > 150 {
        ctx.event("large");
    }
    if m.prods.iter().any(|p| matches!(p.lhs, T::T(_))) {
        ctx.event("terminal_lhs");
    }
    if m.prods.iter().any(|p| p.alts.is_empty()) {
        ctx.event("no_alternatives");
    }
    let undef = m.undefined();
    let want = !m.prods.is_empty() && undef.is_empty();
    ctx.event(if want { "valid" } else { "invalid" });
    ctx.eval(Some(h(&m)));
    ctx.sample(|| format!("{}undefined: {undef:?}", m.show()));
    let g = m.to_bnf();
    let results = [("validate", g.validate()), ("build_parser", g.build_parser().map(|_| ())), ("GrammarParser::new", GrammarParser::new(&g).map(|_| ()))];
    for (what, res) in results {
        ctx.event("verdicts");
        match res {
            Ok(()) if want => {}
            Ok(()) => return Err(format!("{what} accepts a grammar with undefined {undef:?}\n{}", m.show())),
            Err(Error::ValidationError(msg)) if !want => {
                if !undef.is_empty() && !undef.iter().any(|u| msg.contains(&format!("<{u}>"))) {
                    return Err(format!("{what} says {msg:?}, undefined are {undef:?}\n{}", clip(&m.show(), 3000)));
                }
            }
            Err(e) => return Err(format!("{what} returns {e:?} for a grammar with undefined {undef:?}\n{}", clip(&m.show(), 3000))),
        }
    }
    // editing to a valid state and back is seen (no stale verdict)
    if !undef.is_empty() && r.chance(30) {
        let mut g = g;
        for u in &undef {
            g.add_production(Production::from_parts(Term::Nonterminal(u.clone()), vec![]));
        }
        if let Err(e) = g.validate().and_then(|()| g.build_parser().map(|_| ())) {
            return Err(format!("after defining {undef:?} it is still refused: {e}\n{}", m.show()));
        }
        ctx.event("repaired");
    }
    Ok(())
}
