//! C28 notations defined by the user through the `Format` trait.
use super::Prop;
use super::textual::{damage, extended, layout, note, read, same_language};
use crate::ctx::*;
use crate::model::*;
use crate::rng::Rng;
use crate::text::*;
use bnf::{BNF, Error};

pub static PROPS: &[Prop] = &[Prop {
    id: "C28",
    run: c28,
    quick: 120000,
    thorough: 5000000,
    cpu: 0.0,
    rule: "abstract grammars, groups and optionals included, printed in notations of the harness's own (delimited and bare names, multi-byte symbols, word separators) with random layout, and damaged texts of them; each is read with the production start character named and not named, and compared with what was printed, with a strict reference reader and with the BNF spelling; non-trivial: distinct texts",
    need: &[("texts_as_written", 10_000), ("refused", 10_000), ("accepted_damaged", 3000), ("bare_names", 3000), ("multibyte", 3000), ("groups", 3000), ("start_char_compared", 10_000), ("spellings_compared", 5000)],
    extra: None,
}];

macro_rules! notations {
    ($($i:literal $plain:ident $start:ident),* $(,)?) => {
        $(
            struct $plain;
            impl bnf::Format for $plain {
                fn nonterminal_delimiter() -> Option<(char, char)> {
                    SPECS[$i].0
                }
                fn production_separator() -> &'static str {
                    SPECS[$i].1
                }
                fn alternative_separator() -> char {
                    SPECS[$i].2
                }
            }
            struct $start;
            impl bnf::Format for $start {
                fn nonterminal_delimiter() -> Option<(char, char)> {
                    SPECS[$i].0
                }
                fn production_separator() -> &'static str {
                    SPECS[$i].1
                }
                fn alternative_separator() -> char {
                    SPECS[$i].2
                }
                fn production_start_char() -> Option<char> {
                    SPECS[$i].0.map(|(a, _)| a)
                }
            }
        )*
        pub fn read_own(s: &str, i: usize, start: bool) -> Result<G, Error> {
            match (i, start) {
                $(
                    ($i, false) => read::<$plain>(s),
                    ($i, true) => read::<$start>(s),
                )*
                _ => unreachable!("notation {i}"),
            }
        }
    };
}
notations!(0 P0 S0, 1 P1 S1, 2 P2 S2, 3 P3 S3, 4 P4 S4, 5 P5 S5, 6 P6 S6, 7 P7 S7, 8 P8 S8, 9 P9 S9, 10 P10 S10, 11 P11 S11, 12 P12 S12);

/// harm the text with the notation's own symbols or with those of others
fn harm(r: &mut Rng, s: &str, f: Fmt) -> String {
    if r.chance(40) {
        return damage(r, s);
    }
    let (d, sep, alt) = f.spec();
    let mut toks: Vec<String> = vec![sep.into(), alt.to_string(), format!("{sep}{alt}"), format!("{alt}{alt}"), "(".into(), ")".into(), "[".into(), "]".into(), "'".into(), "\"".into(), "''".into(), "()".into(), "[]".into(), ";".into(), " ".into(), "|".into(), "/".into(), "::=".into(), "<x>".into(), "x".into()];
    if let Some((a, b)) = d {
        toks.extend([a.to_string(), b.to_string(), format!("{a}x{b}"), format!("{a}{b}"), format!("{a}x{b} {sep}")]);
    } else {
        toks.push(format!("x {sep} "));
    }
    let mut c: Vec<char> = s.chars().collect();
    let own: Vec<usize> = c.iter().enumerate().filter(|(_, x)| sep.contains(**x) || **x == alt || d.is_some_and(|(a, b)| a == **x || b == **x)).map(|(i, _)| i).collect();
    match r.below(4) {
        0 if !own.is_empty() => {
            c.remove(*r.pick(&own));
        }
        1 if !own.is_empty() => {
            let i = *r.pick(&own);
            let x = c[i];
            c.insert(i, x);
        }
        2 if !own.is_empty() => {
            let at = *r.pick(&own) + usize::from(r.chance(50));
            let t: Vec<char> = r.pick(&toks).chars().collect();
            c.splice(at..at, t);
        }
        _ => {
            let at = r.below(c.len() + 1);
            let t: Vec<char> = r.pick(&toks).chars().collect();
            c.splice(at..at, t);
        }
    }
    c.into_iter().collect()
}

fn c28(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let i = r.below(SPECS.len());
    let f = Fmt::Own(i);
    let groups = r.chance(40);
    let e = extended(r, f, groups);
    let l = layout(r);
    let (text, _, _) = Printer::new(r, f, l).grammar(&e);
    note(ctx, &text);
    ctx.event("texts_as_written");
    ctx.event(["n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8", "n9", "n10", "n11", "n12"][i]);
    if f.bare() {
        ctx.event("bare_names");
    }
    if e.groups() > 0 {
        ctx.event("groups");
    }
    ctx.eval(Some(h(&text)));
    ctx.sample(|| text.clone());
    let g = agree(ctx, r, &text, i, Some(&e))?;
    if e.names().iter().all(|x| name_ok(x, Fmt::Bnf)) {
        let l = layout(r);
        let (bt, _, _) = Printer::new(r, Fmt::Bnf, l).grammar(&e);
        ctx.event("spellings_compared");
        match read::<BNF>(&bt) {
            Ok(b) if Some(&b) == g.as_ref() => {}
            // invented names are free
            Ok(b) if e.groups() > 0 && isomorphic(&e, &b).is_ok() => {}
            Ok(b) if e.groups() > 0 && same_language(ctx, r, &e, &b).is_ok() => {}
            o => return Err(format!("{:?} in {:?} and its BNF spelling {:?} differ: {:?}", clip(&text, 2000), f.spec(), clip(&bt, 2000), o.map(|g| g.show()))),
        }
    }
    // damaged
    let mut t = text;
    for _ in 0..r.range(1, 2) {
        t = harm(r, &t, f);
    }
    ctx.eval(Some(h(&t)));
    let want = Reader::new(&t, f).read_grammar();
    ctx.event(if want.is_some() { "accepted_damaged" } else { "refused" });
    agree(ctx, r, &t, i, want.as_ref())?;
    Ok(())
}

/// the text, with and without the production start character, must be read as `want`
fn agree(ctx: &mut Ctx, r: &mut Rng, text: &str, i: usize, want: Option<&EG>) -> Result<Option<G>, String> {
    let f = Fmt::Own(i);
    let mut out = None;
    for start in [false, true] {
        if start && f.bare() {
            continue;
        }
        if start {
            ctx.event("start_char_compared");
        }
        let got = read_own(text, i, start);
        let what = || format!("notation {:?} (start character named: {start}) on {:?}", f.spec(), clip(text, 3000));
        match (&got, want) {
            (Ok(g), Some(e)) => {
                let ok = match e.plain() {
                    Some(p) => p == *g,
                    None => {
                        let first = e.prods.iter().zip(&g.prods).all(|(p, q)| q.lhs == T::N(p.lhs.clone()));
                        first && (isomorphic(e, g).is_ok() || same_language(ctx, r, e, g).is_ok())
                    }
                };
                if !ok {
                    return Err(format!("{}\nreturns {}\nbut the text says {}", what(), clip(&g.show(), 3000), clip(&format!("{e:?}"), 3000)));
                }
            }
            (Err(Error::ParseError(_)), None) => {}
            (Err(x), None) => return Err(format!("{}\nreturns {x:?}, not a parse error", what())),
            (Ok(g), None) => return Err(format!("{}\nreturns {}\nbut it is malformed", what(), clip(&g.show(), 3000))),
            (Err(x), Some(e)) => return Err(format!("{}\nis refused: {}\nbut says {}", what(), clip(&x.to_string(), 400), clip(&format!("{e:?}"), 3000))),
        }
        out = got.ok();
    }
    Ok(out)
}
