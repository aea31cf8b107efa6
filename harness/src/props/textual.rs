//! C07 BNF text, C08 ABNF text and detection, C09 groups and optionals, C10 malformed text.
use super::Prop;
use crate::ctx::*;
use crate::r#gen::*;
use crate::model::*;
use crate::oracle::*;
use crate::rng::Rng;
use crate::runner::Report;
use crate::text::*;
use bnf::{ABNF, BNF, Error, Expression, Grammar, Production, Term};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C07",
        run: c07,
        quick: 300000,
        thorough: 12000000,
        cpu: 0.0,
        rule: "abstract grammars printed in BNF with random layout, comments, quotes and names, read back through str::parse, parse_from::<BNF> and the FromStr of each part, and compared part by part with what was printed; non-trivial: distinct texts with at least two productions or alternatives",
        need: &[("wild_texts", 3000), ("comments_written", 5000), ("multibyte", 1000), ("one_production", 300), ("large_texts", 30)],
        extra: None,
    },
    Prop {
        id: "C08",
        run: c08,
        quick: 80000,
        thorough: 3200000,
        cpu: 0.0,
        rule: "abstract grammars printed in ABNF and in BNF and read through every entry point, and arbitrary texts read without a format and with the format the detection rule names; non-trivial: distinct texts accepted in at least one format",
        need: &[("abnf_texts", 3000), ("incremental_alternatives", 500), ("detections_bnf", 1000), ("detections_abnf", 1000), ("large_texts", 30)],
        extra: None,
    },
    Prop {
        id: "C09",
        run: c09,
        quick: 9000,
        thorough: 360000,
        cpu: 0.0,
        rule: "texts with nested groups and optionals in both formats; the resulting grammar is matched against the written structure (or, if its shape differs, compared as a language), names checked for clashes; non-trivial: distinct texts with at least one group",
        need: &[("groups", 5000), ("optionals", 3000), ("nested", 2000), ("clashing_names", 500), ("sentences_compared", 2000)],
        extra: None,
    },
    Prop {
        id: "C10",
        run: c10,
        quick: 250000,
        thorough: 10000000,
        cpu: 0.0,
        rule: "token soup, character soup, mutated and truncated grammar texts through every text entry point, compared with a strict reference reader: same verdict and same value; non-trivial: distinct texts, rejected ones included",
        need: &[("refused", 10_000), ("accepted", 2000), ("entry_points", 100_000), ("large_texts", 30)],
        extra: Some(c10_extra),
    },
];

const ABNF_NAMES: &[&str] = &["s", "a", "b", "c", "rule-1", "Name", "é", "日本", "x=y", "p/q", "q'", "d\"", "z;z", "f(", "g[", "ß2", "n::=", "e\u{301}", "A", "__anon0x", "a<b", "a>", "ﬁ", "long-name-0123456789-0123456789-0123456789-0123456789"];

fn name_pool(r: &mut Rng, fmt: Fmt, k: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let exotic = r.chance(45);
    while v.len() < k {
        let x = if !exotic {
            if v.len() < NAMES.len() { NAMES[v.len()].to_string() } else { format!("n{}", v.len()) }
        } else if fmt.bare() {
            let mut x = (*r.pick(ABNF_NAMES)).to_string();
            if r.chance(30) {
                x.push_str(&v.len().to_string());
            }
            x
        } else {
            let mut x = (*r.pick(EXOTIC)).to_string();
            if r.chance(30) {
                x.push_str(r.pick(EXOTIC));
            }
            x
        };
        if !v.contains(&x) && name_ok(&x, fmt) {
            v.push(x);
        } else if r.chance(20) {
            let x = format!("m{}", v.len());
            if !v.contains(&x) {
                v.push(x);
            }
        }
    }
    v
}

fn terminal_text(r: &mut Rng, pool: usize) -> String {
    let mut s = terminal(r, pool);
    if r.chance(15) {
        s.push_str(&terminal(r, pool));
    }
    if r.chance(3) {
        s = s.repeat(r.range(2, 60));
    }
    if !terminal_ok(&s) {
        s = s.replace('\'', "");
    }
    s
}

/// a random grammar with (or without) groups and optionals; `size` scales it
pub fn extended(r: &mut Rng, fmt: Fmt, groups: bool) -> EG {
    let big = r.chance(1);
    let nts = if big && r.chance(50) { r.range(40, 200) } else { r.range(1, 5) };
    let nm = name_pool(r, fmt, nts);
    let pool = r.below(POOLS.len());
    let gp = if groups { *r.pick(&[10, 25, 40]) } else { 0 };
    let ntp = *r.pick(&[20, 40, 60]);
    let many = if big && nts <= 5 { r.range(50, 400) } else { 0 };
    let mut prods = vec![];
    for (i, x) in nm.iter().enumerate() {
        let na = if many > 0 && i == 0 { many } else { r.range(1, 4) };
        let rhs = (0..na).map(|_| seq(r, &nm, pool, gp, ntp, 0)).collect();
        prods.push(EP { lhs: x.clone(), rhs });
    }
    if r.chance(15) {
        let k = r.below(prods.len());
        let rhs = (0..r.range(1, 3)).map(|_| seq(r, &nm, pool, gp, ntp, 0)).collect();
        let p = EP { lhs: prods[k].lhs.clone(), rhs };
        let at = r.range(0, prods.len());
        prods.insert(at, p);
    }
    EG { prods }
}

fn seq(r: &mut Rng, nm: &[String], pool: usize, gp: usize, ntp: usize, depth: usize) -> Vec<ET> {
    let l = if r.chance(2) { r.range(5, 40) } else { r.range(1, 3) };
    (0..l)
        .map(|_| {
            if gp > 0 && depth < 5 && r.chance(gp) {
                let alts: Vec<Vec<ET>> = (0..r.range(1, 3)).map(|_| seq(r, nm, pool, if depth > 2 { gp / 2 } else { gp }, ntp, depth + 1)).collect();
                if r.chance(50) { ET::Group(alts) } else { ET::Opt(alts) }
            } else if r.chance(ntp) {
                ET::S(T::N(if r.chance(5) { "undefined".to_string() } else { nm[r.below(nm.len())].clone() }))
            } else {
                ET::S(T::T(terminal_text(r, pool)))
            }
        })
        .collect()
}

pub fn layout(r: &mut Rng) -> Layout {
    match r.below(10) {
        0..=1 => Layout::Plain,
        2..=3 => Layout::Tight,
        _ => Layout::Wild,
    }
}

pub fn read<F: bnf::Format>(s: &str) -> Result<G, Error> {
    Grammar::parse_from::<F>(s).map(|g| G::from_bnf(&g))
}
fn read_as(s: &str, f: Fmt) -> Result<G, Error> {
    match f {
        Fmt::Bnf => read::<BNF>(s),
        Fmt::Abnf => read::<ABNF>(s),
        Fmt::Own(i) => super::formats::read_own(s, i, false),
    }
}
fn read_auto(s: &str) -> Result<G, Error> {
    s.parse::<Grammar>().map(|g| G::from_bnf(&g))
}

pub fn note(ctx: &mut Ctx, text: &str) {
    if !text.is_ascii() {
        ctx.event("multibyte");
    }
    if text.len() > 2000 {
        ctx.event("large_texts");
    }
    ctx.max("max_text_bytes", text.len() as u64);
}

fn expect(what: &str, text: &str, got: Result<G, Error>, want: &G) -> Res {
    match got {
        Ok(g) if g == *want => Ok(()),
        Ok(g) => Err(format!("{what} read\n{:?}\nas\n{}but it says\n{}", clip(text, 3000), clip(&g.show(), 3000), clip(&want.show(), 3000))),
        Err(e) => Err(format!("{what} refused {:?}: {}", clip(text, 3000), clip(&e.to_string(), 400))),
    }
}

fn c07(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let e = extended(r, Fmt::Bnf, false);
    let want = e.plain().expect("plain");
    for _ in 0..2 {
        let l = layout(r);
        let (text, comments, breaks) = Printer::new(r, Fmt::Bnf, l).grammar(&e);
        note(ctx, &text);
        if l == Layout::Wild {
            ctx.event("wild_texts");
        }
        if e.prods.len() == 1 {
            ctx.event("one_production");
        }
        ctx.add("comments_written", comments as u64);
        ctx.add("line_breaks_written", breaks as u64);
        ctx.eval((want.size() > 3).then(|| h(&text)));
        ctx.sample(|| text.clone());
        expect("parse_from::<BNF>", &text, read::<BNF>(&text), &want)?;
        expect("str::parse", &text, read_auto(&text), &want)?;
    }
    // the parts on their own
    let p = r.pick(&e.prods).clone();
    let wp = EG { prods: vec![p.clone()] }.plain().expect("plain").prods.remove(0);
    let l = layout(r);
    let mut pr = Printer::new(r, Fmt::Bnf, l);
    pr.production(&p);
    let text = pr.out;
    match text.parse::<Production>() {
        Ok(x) if prod_from(&x) == wp => {}
        o => return Err(format!("production text {text:?} read as {o:?}, says {wp:?}")),
    }
    let k = r.below(p.rhs.len());
    let l = layout(r);
    let mut pr = Printer::new(r, Fmt::Bnf, l);
    for x in &wp.alts[k] {
        match x {
            T::T(s) => pr.terminal(s),
            T::N(s) => pr.name(s),
        }
        pr.gap(false);
    }
    let text = pr.out;
    match text.parse::<Expression>() {
        Ok(x) if alt_from(&x) == wp.alts[k] => {}
        o => return Err(format!("expression text {text:?} read as {o:?}, says {:?}", wp.alts[k])),
    }
    let x = r.pick(&wp.alts[k]).clone();
    let mut pr = Printer::new(r, Fmt::Bnf, l);
    match &x {
        T::T(s) => pr.terminal(s),
        T::N(s) => pr.name(s),
    }
    pr.gap(false);
    let text = pr.out;
    match text.parse::<Term>() {
        Ok(y) if term_from(&y) == x => {}
        o => return Err(format!("term text {text:?} read as {o:?}, says {x:?}")),
    }
    ctx.add("parts_read", 3);
    Ok(())
}

fn c08(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let grp = r.chance(25);
    let e = extended(r, Fmt::Abnf, grp);
    let l = layout(r);
    let (at, _, _) = Printer::new(r, Fmt::Abnf, l).grammar(&e);
    let bnf_ok = e.names().iter().all(|x| name_ok(x, Fmt::Bnf));
    note(ctx, &at);
    ctx.event("abnf_texts");
    if at.contains("=/") {
        ctx.event("incremental_alternatives");
    }
    ctx.eval(Some(h(&at)));
    ctx.sample(|| at.clone());
    let a = read::<ABNF>(&at).map_err(|x| format!("parse_from::<ABNF> refused {:?}: {}", clip(&at, 3000), clip(&x.to_string(), 400)))?;
    if let Some(want) = e.plain() {
        expect("parse_from::<ABNF>", &at, Ok(a.clone()), &want)?;
    }
    // an ABNF text starts with a letter, so no format need be named
    expect("str::parse", &at, read_auto(&at), &a)?;
    if bnf_ok {
        let l = layout(r);
        let (bt, _, _) = Printer::new(r, Fmt::Bnf, l).grammar(&e);
        let b = read::<BNF>(&bt).map_err(|x| format!("parse_from::<BNF> refused {:?}: {}", clip(&bt, 3000), clip(&x.to_string(), 400)))?;
        ctx.event("spellings_compared");
        if a != b {
            return Err(format!("ABNF text {:?} gives\n{}the BNF spelling {:?} gives\n{}", clip(&at, 2000), clip(&a.show(), 2000), clip(&bt, 2000), clip(&b.show(), 2000)));
        }
    }
    // detection on arbitrary texts
    for _ in 0..3 {
        let text = soup(r);
        let f = detect(&text);
        ctx.event(if f == Fmt::Bnf { "detections_bnf" } else { "detections_abnf" });
        let (x, y) = (read_auto(&text), read_as(&text, f));
        ctx.eval(x.is_ok().then(|| h(&text)));
        let same = match (&x, &y) {
            (Ok(x), Ok(y)) => x == y,
            (Err(_), Err(_)) => true,
            _ => false,
        };
        if !same {
            return Err(format!("{:?} should be read as {f:?}: without a format {:?}, as {f:?} {:?}", clip(&text, 2000), x.map(|g| g.show()), y.map(|g| g.show())));
        }
    }
    Ok(())
}

fn c09(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let fmt = if r.chance(60) { Fmt::Bnf } else { Fmt::Abnf };
    let mut e = extended(r, fmt, true);
    // user names that look like invented ones, defined or only referred to
    if fmt == Fmt::Bnf && r.chance(35) {
        let from = r.pick(&e.prods).lhs.clone();
        let to = format!("__anon{}", r.below(6));
        if !e.names().contains(&to) {
            let only_ref = r.chance(50);
            rename(&mut e, &from, &to, only_ref);
            ctx.event("clashing_names");
        }
    } else if fmt == Fmt::Bnf && r.chance(30) {
        // refer to names the implementation may have invented: try it out first
        let (t0, _, _) = Printer::new(r, fmt, Layout::Plain).grammar(&e);
        if let Ok(g) = read_as(&t0, fmt)
            && g.prods.len() > e.prods.len()
        {
            let inv = g.prods[e.prods.len() + r.below(g.prods.len() - e.prods.len())].name().to_string();
            let k = r.below(e.prods.len());
            match r.below(3) {
                0 => e.prods[k].rhs.push(vec![ET::S(T::N(inv))]),
                1 => e.prods.push(EP { lhs: inv, rhs: vec![vec![ET::S(t("clash"))]] }),
                _ => e.prods[k].rhs.push(vec![ET::Group(vec![vec![ET::S(T::N(inv)), ET::S(t("c"))]])]),
            }
            ctx.event("clashing_names");
        }
    }
    let l = layout(r);
    let (text, _, _) = Printer::new(r, fmt, l).grammar(&e);
    note(ctx, &text);
    let mut gr = 0;
    let mut op = 0;
    count(&e, &mut gr, &mut op);
    ctx.add("groups", gr);
    ctx.add("optionals", op);
    if e.depth() > 1 {
        ctx.event("nested");
    }
    ctx.max("max_nesting", e.depth() as u64);
    ctx.eval((gr + op > 0).then(|| h(&text)));
    ctx.sample(|| text.clone());
    let g = read_as(&text, fmt).map_err(|x| format!("refused {:?}: {}", clip(&text, 3000), clip(&x.to_string(), 400)))?;
    let fail = |m: &str| Err(format!("{m}\ntext: {:?}\nresult:\n{}", clip(&text, 3000), clip(&g.show(), 3000)));
    // the user's productions first, in order; invented names distinct and new
    let user = e.names();
    let mut invented = std::collections::HashSet::new();
    for (i, p) in g.prods.iter().enumerate() {
        if i < e.prods.len() {
            if p.lhs != T::N(e.prods[i].lhs.clone()) || p.alts.len() != e.prods[i].rhs.len() {
                return fail(&format!("production {i} is not the one written"));
            }
        } else if !matches!(&p.lhs, T::N(x) if !user.contains(x) && invented.insert(x.clone())) {
            return fail(&format!("the invented name of production {i} clashes"));
        }
    }
    for p in &g.prods {
        for x in p.alts.iter().flatten() {
            if let T::N(x) = x
                && !user.contains(x)
                && !invented.contains(x)
            {
                return fail(&format!("<{x}> is neither written nor defined"));
            }
        }
    }
    match isomorphic(&e, &g) {
        Ok(()) => {
            ctx.event("isomorphic");
            if r.chance(10) { same_language(ctx, r, &e, &g).or_else(|m| fail(&m)) } else { Ok(()) }
        }
        Err(m) => {
            ctx.event("other_shape");
            same_language(ctx, r, &e, &g).or_else(|n| fail(&format!("{m}; {n}")))
        }
    }
}

fn rename(e: &mut EG, from: &str, to: &str, only_refs: bool) {
    fn go(e: &mut [Vec<ET>], from: &str, to: &str) {
        for x in e.iter_mut().flatten() {
            match x {
                ET::S(T::N(s)) if s == from => *s = to.to_string(),
                ET::S(_) => {}
                ET::Group(e) | ET::Opt(e) => go(e, from, to),
            }
        }
    }
    for p in &mut e.prods {
        if !only_refs && p.lhs == from {
            p.lhs = to.to_string();
        }
        go(&mut p.rhs, from, to);
    }
}

fn count(e: &EG, gr: &mut u64, op: &mut u64) {
    fn go(e: &[Vec<ET>], gr: &mut u64, op: &mut u64) {
        for x in e.iter().flatten() {
            match x {
                ET::S(_) => {}
                ET::Group(e) => {
                    *gr += 1;
                    go(e, gr, op);
                }
                ET::Opt(e) => {
                    *op += 1;
                    go(e, gr, op);
                }
            }
        }
    }
    for p in &e.prods {
        go(&p.rhs, gr, op);
    }
}

/// sentences of each written nonterminal, from both sides, must be sentences of the other
pub fn same_language(ctx: &mut Ctx, r: &mut Rng, e: &EG, g: &G) -> Res {
    let w = e.lower();
    let (cw, cg) = (CG::new(&w, Undef::Printed), CG::new(g, Undef::Printed));
    let (sw, sg) = (Sampler::new(&cw), Sampler::new(&cg));
    let nts: Vec<String> = e.prods.iter().map(|p| p.lhs.clone()).collect();
    for k in 0..nts.len().min(4) {
        let nt = &nts[if k == 0 { 0 } else { r.below(nts.len()) }];
        let (a, b) = (cw.idx[nt], cg.idx[nt]);
        for i in 0..16 {
            let bud = *r.pick(&[1, 2, 4, 8, 12]);
            let s = if i % 2 == 0 { sw.sample(r, a, bud) } else { sg.sample(r, b, bud) };
            let Some(s) = s else { continue };
            if s.len() > 120 {
                continue;
            }
            let (x, y) = (Spans::new(&cw, s.as_bytes()).accepts(a), Spans::new(&cg, s.as_bytes()).accepts(b));
            ctx.event("sentences_compared");
            if x != y {
                return Err(format!("{s:?} from <{nt}>: the text describes it: {x}, the grammar derives it: {y}"));
            }
        }
        let (x, y) = (sw.h[a] == usize::MAX, sg.h[b] == usize::MAX);
        if x != y {
            return Err(format!("<{nt}> has no sentences: by the text {x}, by the grammar {y}"));
        }
    }
    Ok(())
}

const TOKENS: &[&str] = &[
    "<a>", "<b>", "<", ">", "<>", "::=", "::", ":=", "=", "=/", "|", "||", "/", "//", "'x'", "\"y\"", "''", "'", "\"", "(", ")", "[", "]", "()", "[]", ";", "; c\n", ";'\n", "\n", "\r", " ", "\t", "a", "b", "name", "é", "日本", "1", "-", "\u{a0}", "\u{2028}", "<a> ::= 'x'", "a = 'x'", "<b> ::= <a> | 'q'", "b = a / 'q'", "('x' | <a>)", "['x']", "(\"x\" / a)", "\\", "\u{0}", "::=|", "\u{feff}", "'a\nb'", "<a\nb>", "<a ::= b>", "')'", "'::='", "\"<\"", "😀", "<s> ::= ", "s = ", "\u{301}", "<a><b>", "'a''b'",
];

/// strings that are grammar texts, nearly so, or not at all
pub fn soup(r: &mut Rng) -> String {
    match r.below(12) {
        0..=2 => {
            let k = if r.chance(3) { r.range(100, 800) } else { r.range(0, 14) };
            (0..k).map(|_| *r.pick(TOKENS)).collect()
        }
        3 => {
            // separated by blanks: more often a text
            let k = r.range(1, 12);
            (0..k).map(|_| *r.pick(TOKENS)).collect::<Vec<_>>().join(" ")
        }
        4 => {
            let k = r.range(0, 30);
            (0..k).map(|_| *r.pick(&['<', '>', ':', '=', '|', '/', '\'', '"', '(', ')', '[', ']', ';', ' ', '\n', 'a', 'b', 'é'])).collect()
        }
        5 => {
            let k = r.range(0, 30);
            (0..k).filter_map(|_| char::from_u32(r.below(0x11_0000) as u32)).collect()
        }
        _ => {
            let fmt = if r.chance(60) { Fmt::Bnf } else { Fmt::Abnf };
            let grp = r.chance(50);
            let e = extended(r, fmt, grp);
            let l = layout(r);
            let (mut s, _, _) = Printer::new(r, fmt, l).grammar(&e);
            let edits = r.below(3);
            for _ in 0..edits {
                s = damage(r, &s);
            }
            s
        }
    }
}

const FOREIGN: &[&str] = &[
    ",", ".", "*", "+", "?", "->", ":=", ":", "{", "}", "//", "/* c */", "--", "# c", "%x41", "%d13.10", "1*", "3*5", "~", "!", "ε", "\\", "`x`", "“x”", "‘x’", "<>", "&", "^", "..", "\u{feff}", "\u{200b}", "→", "::==", ":::=", "=>", "||", "$", "@", "_", "-", "'a'..'z'", "/x/",
];

pub fn damage(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let at = r.below(c.len() + 1);
    match r.below(10) {
        8 | 9 => {
            // something of another notation, next to the structure
            let pos: Vec<usize> = c.iter().enumerate().filter(|(_, x)| "<>=|/'\"()[]\n".contains(**x)).flat_map(|(i, _)| [i, i + 1]).chain([0, c.len()]).collect();
            let at = *r.pick(&pos);
            let one = char::from(r.range(33, 126) as u8).to_string();
            let tok = if r.chance(60) { one.as_str() } else { *r.pick(FOREIGN) };
            let tok = if r.chance(50) { format!(" {tok} ") } else { tok.to_string() };
            c.splice(at..at, tok.chars());
        }
        0 => c.truncate(at),
        1 => {
            c.drain(..at);
        }
        2 => {
            if at < c.len() {
                c.remove(at);
            }
        }
        3 | 4 => {
            let tok: Vec<char> = r.pick(TOKENS).chars().collect();
            c.splice(at..at, tok);
        }
        5 => {
            // remove one of the structural characters
            let pos: Vec<usize> = c.iter().enumerate().filter(|(_, x)| "<>:=|/'\"()[]".contains(**x)).map(|(i, _)| i).collect();
            if !pos.is_empty() {
                c.remove(*r.pick(&pos));
            }
        }
        6 => {
            // double one of them
            let pos: Vec<usize> = c.iter().enumerate().filter(|(_, x)| "<>:=|/'\"()[];".contains(**x)).map(|(i, _)| i).collect();
            if !pos.is_empty() {
                let i = *r.pick(&pos);
                let x = c[i];
                c.insert(i, x);
            }
        }
        _ => {
            if c.len() > 1 {
                let b = r.below(c.len());
                let a = r.below(c.len());
                c.swap(a, b);
            }
        }
    }
    c.into_iter().collect()
}

fn c10(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let text = if ctx.idx % 400 == 7 {
        // large: long flat texts, moderately deep nesting
        match r.below(4) {
            0 => {
                let d = r.range(20, 120);
                let s = format!("<s> ::= {}'x'{}", "(".repeat(d), ")".repeat(d));
                if r.chance(50) { s } else { damage(r, &s) }
            }
            1 => format!("<s> ::= {}", "'x' | ".repeat(r.range(500, 3000))),
            2 => format!("{}<s> ::= 'x'", "; comment\n".repeat(r.range(500, 3000))),
            _ => {
                let d = r.range(20, 120);
                let s = format!("<s> ::= {}'x'{}", "['a' | ".repeat(d), "]".repeat(d));
                if r.chance(50) { s } else { damage(r, &s) }
            }
        }
    } else {
        soup(r)
    };
    note(ctx, &text);
    ctx.eval(Some(h(&text)));
    ctx.sample(|| text.clone());
    let mut any = false;
    let verdict = |what: &str, got: String, want: String| Err(format!("{what} on {:?}\nreturns {}\nbut the text says {}", clip(&text, 3000), clip(&got, 3000), clip(&want, 3000)));
    for f in [Fmt::Bnf, Fmt::Abnf] {
        let want = Reader::new(&text, f).read_grammar();
        let got = read_as(&text, f);
        ctx.event("entry_points");
        let what = format!("parse_from {f:?}");
        match (&got, &want) {
            (Ok(g), Some(e)) => {
                any = true;
                let ok = match e.plain() {
                    Some(p) => p == *g,
                    None => {
                        let user_first = e.prods.iter().zip(&g.prods).all(|(p, q)| q.lhs == T::N(p.lhs.clone()));
                        user_first && (isomorphic(e, g).is_ok() || same_language(ctx, r, e, g).is_ok())
                    }
                };
                if !ok {
                    return verdict(&what, g.show(), format!("{e:?}"));
                }
            }
            (Err(Error::ParseError(m)), None) => {
                if m.is_empty() {
                    return verdict(&what, "an error without a message".into(), "an error".into());
                }
            }
            (Err(e), None) => return verdict(&what, format!("{e:?}"), "a parse error".into()),
            (Ok(g), None) => return verdict(&what, g.show(), "nothing well-formed".into()),
            (Err(x), Some(e)) => return verdict(&what, x.to_string(), format!("{e:?}")),
        }
        if f == detect(&text) {
            let auto = read_auto(&text);
            ctx.event("entry_points");
            if auto.is_ok() != got.is_ok() {
                return verdict("str::parse", format!("{auto:?}"), format!("{got:?}"));
            }
        }
    }
    // the parts; pieces of the text are more likely to be one
    let cut = if r.chance(60) { piece(r, &text) } else { text.clone() };
    let bad = |what: &str, got: String, want: String| Err(format!("{what} on {:?}\nreturns {}\nbut the text says {}", clip(&cut, 3000), clip(&got, 3000), clip(&want, 3000)));
    let pe = |e: &Error| matches!(e, Error::ParseError(_));
    ctx.add("entry_points", 3);
    let want = Reader::new(&cut, Fmt::Bnf).read_production();
    match cut.parse::<Production>() {
        Ok(p) if Some(prod_from(&p)) == want => any = true,
        Err(e) if want.is_none() && pe(&e) => {}
        o => return bad("Production", format!("{o:?}"), format!("{want:?}")),
    }
    let want = Reader::new(&cut, Fmt::Bnf).read_expression();
    match cut.parse::<Expression>() {
        Ok(p) if Some(alt_from(&p)) == want => any = true,
        Err(e) if want.is_none() && pe(&e) => {}
        o => return bad("Expression", format!("{o:?}"), format!("{want:?}")),
    }
    let want = Reader::new(&cut, Fmt::Bnf).read_term();
    match cut.parse::<Term>() {
        Ok(p) if Some(term_from(&p)) == want => any = true,
        Err(e) if want.is_none() && pe(&e) => {}
        o => return bad("Term", format!("{o:?}"), format!("{want:?}")),
    }
    ctx.event(if any { "accepted" } else { "refused" });
    Ok(())
}

fn piece(r: &mut Rng, s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    // from a structural character or the start to another
    let pos: Vec<usize> = c.iter().enumerate().filter(|(_, x)| "<'\"".contains(**x)).map(|(i, _)| i).collect();
    let a = if pos.is_empty() || r.chance(10) { 0 } else { *r.pick(&pos) };
    let ends: Vec<usize> = c.iter().enumerate().skip(a).filter(|(_, x)| ">'\"|\n".contains(**x)).map(|(i, _)| i).collect();
    let b = if ends.is_empty() || r.chance(10) { c.len() } else { *r.pick(&ends) + usize::from(r.chance(70)) };
    c[a..b.max(a)].iter().collect()
}

fn c10_extra(rep: &mut Report, _seed: u64, th: bool) {
    super::c06::known(rep, "C10", "deep-nesting");
    super::big::extra(rep, "C10", if th { 60_000 } else { 40_000 });
}

pub fn probe_deep_nesting() -> i32 {
    let d = 50_000;
    let s = format!("<s> ::= {}'x'{}", "(".repeat(d), ")".repeat(d));
    // the default stack of a spawned thread
    let r = std::thread::spawn(move || match s.parse::<Grammar>() {
        Ok(g) => {
            std::mem::forget(g);
            0
        }
        Err(_) => 0,
    });
    r.join().unwrap_or(1)
}
