//! C21 printed parse tree, C22 Mermaid rendering.
use super::Prop;
use super::parse::{Size, budget, instance, pick_start};
use crate::ctx::*;
use crate::r#gen::*;
use crate::model::*;
use crate::oracle::*;
use crate::rng::Rng;
use bnf::{ParseTree, ParseTreeNode, Term};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C21",
        run: c21,
        quick: 50000,
        thorough: 2000000,
        cpu: 0.0,
        rule: "parse trees of random grammars, of grammars made for arbitrary tree shapes (deep, wide, empty nodes), and trees rearranged through rhs_iter_mut, printed and compared line by line with an independent renderer; non-trivial: distinct printed trees with at least three nodes",
        need: &[("trees", 8000), ("designed_shapes", 2000), ("rearranged", 1000), ("deep", 50), ("wide", 50), ("empty_nodes", 500), ("terminal_lhs", 50), ("long_labels", 300), ("more_than_65536_nodes", 3)],
        extra: None,
    },
    Prop {
        id: "C22",
        run: c22,
        quick: 45000,
        thorough: 1800000,
        cpu: 0.0,
        rule: "Mermaid renderings of the same kinds of trees with labels full of special characters, read back edge by edge and label by label; the escape function over every Unicode scalar value and random strings; non-trivial: distinct renderings with at least two edges",
        need: &[("trees", 8000), ("edges", 50_000), ("escaped_characters", 20_000), ("scalars_checked", 1_112_064), ("deep", 50), ("wide", 50), ("terminal_lhs", 50), ("long_labels", 300), ("more_than_65536_nodes", 3)],
        extra: None,
    },
];

fn kids<'a, 'g>(t: &'a ParseTree<'g>) -> Vec<&'a ParseTreeNode<'g>> {
    t.rhs_iter().collect()
}

const LABELS: &[&str] = &[
    "a", "b", "x", "\"", "'", "&", "#", "<", ">", "[", "]", "\\", ";", "\n", "\r", "#34;", "#", "&amp;", "\"]", "--> 1[\"x\"]", "é", "日本", "😀", "\u{0}", "\t", "{}", "()", "├── ", "│   ", "└── ", "::=", " ", "", "a b", "35;", "#35", "\u{feff}", "end", "%%",
];

/// a grammar that derives exactly one tree of a chosen shape
fn designed(r: &mut Rng, ctx: &mut Ctx) -> (G, String) {
    let style = r.below(20);
    let target = match style {
        0 if r.chance(8) => r.range(251, 1100),
        0 => r.range(60, 250),
        1 if r.chance(8) => r.range(201, 3000),
        1 => r.range(50, 200),
        _ => r.range(1, 25),
    };
    let mut prods: Vec<P> = vec![];
    let mut text: Vec<Vec<usize>> = vec![];
    let _ = &mut text;
    // build breadth-first: node i gets kids; names unique by index
    let mut next = 1usize;
    let mut made = 0usize;
    // now and then labels of hundreds or thousands of characters
    let long = if style > 1 && r.chance(6) { *r.pick(&[50usize, 64, 100, 130, 257, 1000, 4100, 20_000]) } else { 0 };
    if long > 0 {
        ctx.event("long_labels");
    }
    let stretch = |r: &mut Rng| -> String {
        if long == 0 || r.chance(40) {
            return String::new();
        }
        let unit = r.pick(LABELS);
        let unit = if unit.is_empty() { "-" } else { unit };
        unit.repeat(long / unit.len() + 1)
    };
    let label = |r: &mut Rng, i: usize| -> String { format!("{}{}{}{}", r.pick(LABELS), i, if r.chance(30) { r.pick(LABELS) } else { "" }, stretch(r)) };
    let mut names: Vec<String> = vec![label(r, 0)];
    while made < names.len() {
        let i = made;
        made += 1;
        let mut alt: Alt = vec![];
        let room = target.saturating_sub(next);
        let k = match style {
            0 => usize::from(room > 0) + usize::from(r.chance(20)),
            1 if i == 0 => target,
            _ => r.range(0, 4),
        };
        for j in 0..k {
            let inner = match style {
                0 => j == 0 && room > 0,
                1 => i == 0 && r.chance(50),
                _ => next < target && r.chance(55),
            };
            if inner {
                names.push(label(r, next));
                alt.push(T::N(names[next].clone()));
                next += 1;
            } else {
                alt.push(T::T(format!("{}{}", r.pick(LABELS), stretch(r))));
            }
        }
        if style == 0 && r.chance(30) {
            alt.reverse();
        }
        prods.push(P { lhs: T::N(names[i].clone()), alts: vec![alt] });
    }
    if style == 0 {
        ctx.event("deep");
    }
    if style == 1 {
        ctx.event("wide");
    }
    let g = G { prods };
    // the only sentence: nonterminals are numbered in the order of the productions
    let at: std::collections::HashMap<&str, usize> = g.prods.iter().enumerate().map(|(i, p)| (p.name(), i)).collect();
    let mut s = String::new();
    let mut todo = vec![&g.prods[0].lhs];
    while let Some(x) = todo.pop() {
        match x {
            T::T(x) => s.push_str(x),
            T::N(x) => todo.extend(g.prods[at[x.as_str()]].alts[0].iter().rev()),
        }
    }
    drop(at);
    (g, s)
}

/// drive `f` over trees of all kinds
fn trees(ctx: &mut Ctx, r: &mut Rng, f: &mut dyn FnMut(&mut Ctx, &mut Rng, &ParseTree<'_>) -> Res) -> Res {
    if ctx.idx % 4500 == 700 {
        // more than 65,536 nodes
        let leaves = r.range(24_000, 40_000);
        let c = super::scale::grid(r, leaves);
        let b = c.g.to_bnf();
        let p = b.build_parser().map_err(|e| format!("valid grammar refused: {e}\n{}", clip(&c.g.show(), 2000)))?;
        for t in p.parse_input(&c.input).take(1) {
            ctx.event("more_than_65536_nodes");
            f(ctx, r, &t)?;
        }
        return Ok(());
    }
    match r.below(10) {
        0..=3 => {
            let (mut g, input) = designed(r, ctx);
            let term_head = r.chance(6);
            if term_head {
                // a terminal as the left-hand side of the starting production
                let nm = g.prods[0].name().to_string();
                g.prods[0].lhs = T::T(nm);
            }
            let b = g.to_bnf();
            let p = b.build_parser().map_err(|e| format!("valid grammar refused: {e}\n{}", g.show()))?;
            let got: Vec<ParseTree<'_>> = p.parse_input(&input).take(2).collect();
            if got.is_empty() {
                if !term_head {
                    return Err(format!("no tree for {input:?}\n{}", clip(&g.show(), 2000)));
                }
                return Ok(());
            }
            if term_head {
                ctx.event("terminal_lhs");
            }
            ctx.event("designed_shapes");
            for t in &got {
                f(ctx, r, t)?;
            }
            // rearranged through the public mutable iterator
            let mut t = got[0].clone();
            let stock: Vec<ParseTreeNode<'_>> = {
                let mut v = vec![];
                fn gather<'g>(t: &ParseTree<'g>, v: &mut Vec<ParseTreeNode<'g>>) {
                    for k in t.rhs_iter() {
                        v.push(k.clone());
                        if let ParseTreeNode::Nonterminal(t) = k {
                            gather(t, v);
                        }
                    }
                }
                if got[0].rhs_iter().count() < 40 {
                    gather(&got[0], &mut v);
                }
                v
            };
            if !stock.is_empty() && stock.len() < 60 {
                fn swap<'g>(t: &mut ParseTree<'g>, stock: &[ParseTreeNode<'g>], r: &mut Rng, d: usize) {
                    for k in t.rhs_iter_mut() {
                        if r.chance(25) {
                            *k = r.pick(stock).clone();
                        } else if r.chance(10) {
                            *k = ParseTreeNode::Terminal("new");
                        } else if let ParseTreeNode::Nonterminal(t) = k
                            && d < 30
                        {
                            swap(t, stock, r, d + 1);
                        }
                    }
                }
                swap(&mut t, &stock, r, 0);
                ctx.event("rearranged");
                f(ctx, r, &t)?;
            }
            Ok(())
        }
        _ => {
            let i = instance(r);
            let p = i.bnf.build_parser().map_err(|e| format!("valid grammar refused: {e}\n{}", i.g.show()))?;
            let sm = Sampler::new(&i.cg);
            let start = pick_start(r, &i.g);
            let a = i.cg.idx[&start];
            let st = Term::Nonterminal(start);
            for input in inputs(r, &i.g, &sm, a, 6, 50) {
                let s = Spans::new(&i.cg, input.as_bytes());
                let k = match budget(&s, a, 20_000.0) {
                    Size::Finite(_) => 20,
                    Size::Infinite(k) => k.min(10),
                    Size::AcceptOnly(k) => k,
                    _ => continue,
                };
                for t in p.parse_input_starting_with(&input, &st).take(k) {
                    f(ctx, r, &t)?;
                }
            }
            Ok(())
        }
    }
}

fn term_text(t: &Term) -> String {
    match t {
        Term::Nonterminal(s) => format!("<{s}>"),
        Term::Terminal(s) => {
            let q = if s.contains('\'') { '"' } else { '\'' };
            format!("{q}{s}{q}")
        }
    }
}

fn line(t: &ParseTree<'_>) -> String {
    let mut s = format!("{} ::=", term_text(t.lhs));
    for k in t.rhs_iter() {
        s.push(' ');
        match k {
            ParseTreeNode::Terminal(x) => {
                s.push('"');
                s.push_str(x);
                s.push('"');
            }
            ParseTreeNode::Nonterminal(t) => s.push_str(&term_text(t.lhs)),
        }
    }
    s
}

fn reference(t: &ParseTree<'_>) -> (Vec<String>, usize) {
    let mut out = vec![line(t)];
    let mut empty = 0;
    fn go(t: &ParseTree<'_>, prefix: &str, out: &mut Vec<String>, empty: &mut usize) {
        let v = kids(t);
        if v.is_empty() {
            *empty += 1;
        }
        for (i, k) in v.iter().enumerate() {
            let last = i + 1 == v.len();
            let arm = if last { "└── " } else { "├── " };
            match k {
                ParseTreeNode::Terminal(x) => out.push(format!("{prefix}{arm}\"{x}\"")),
                ParseTreeNode::Nonterminal(t) => {
                    out.push(format!("{prefix}{arm}{}", line(t)));
                    go(t, &format!("{prefix}{}", if last { "    " } else { "│   " }), out, empty);
                }
            }
        }
    }
    go(t, "", &mut out, &mut empty);
    (out, empty)
}

fn c21(ctx: &mut Ctx, r: &mut Rng) -> Res {
    trees(ctx, r, &mut |ctx, _r, t| {
        let (lines, empty) = reference(t);
        let want: String = lines.iter().map(|l| format!("{l}\n")).collect();
        let got = t.to_string();
        ctx.event("trees");
        ctx.add("lines", lines.len() as u64);
        if empty > 0 {
            ctx.event("empty_nodes");
        }
        ctx.eval((lines.len() >= 3).then(|| h(&want)));
        ctx.sample(|| got.clone());
        if got != want || t.clone().to_string() != want || format!("{t}") != want {
            let at = got.lines().zip(want.lines()).position(|(a, b)| a != b);
            return Err(format!("the tree prints as\n{}\nbut is\n{}\nfirst difference at line {at:?}", clip(&got, 3000), clip(&want, 3000)));
        }
        Ok(())
    })
}

fn special(c: char) -> bool {
    matches!(c, '"' | '&' | '#' | '<' | '>' | '[' | '\\' | ']' | ';' | '\n' | '\r')
}
fn escaped(s: &str) -> String {
    s.chars().map(|c| if special(c) { format!("#{};", c as u32) } else { c.to_string() }).collect()
}
/// inverse of the escaping: every # starts an entity
fn decode(s: &str) -> Option<String> {
    let mut out = String::new();
    let mut rest = s;
    while let Some(k) = rest.find('#') {
        out.push_str(&rest[..k]);
        let e = rest[k..].find(';')? + k;
        out.push(char::from_u32(rest[k + 1..e].parse().ok()?)?);
        rest = &rest[e + 1..];
    }
    out.push_str(rest);
    Some(out)
}

fn node_text<'a>(t: &'a Term) -> &'a str {
    match t {
        Term::Nonterminal(s) | Term::Terminal(s) => s,
    }
}

/// one side of an edge: number and label
fn side(s: &str) -> Option<(usize, &str)> {
    let k = s.find("[\"")?;
    let l = s[k + 2..].strip_suffix("\"]")?;
    Some((s[..k].parse().ok()?, l))
}

fn c22(ctx: &mut Ctx, r: &mut Rng) -> Res {
    // the escape function, over all of Unicode in slices
    if ctx.idx < 544 {
        let lo = (ctx.idx * 2048) as u32;
        for c in (lo..lo + 2048).filter_map(char::from_u32) {
            let s = c.to_string();
            let e = bnf::escape_mermaid_label(&s);
            ctx.event("scalars_checked");
            if e != escaped(&s) {
                return Err(format!("U+{:04X} is escaped as {e:?}", c as u32));
            }
        }
    }
    for _ in 0..3 {
        let s: String = (0..r.range(0, 12)).map(|_| *r.pick(LABELS)).collect();
        let s = if r.chance(2) { s.repeat(200) } else { s };
        let e = bnf::escape_mermaid_label(&s);
        ctx.add("escaped_characters", s.chars().filter(|c| special(*c)).count() as u64);
        if e != escaped(&s) || decode(&e).as_deref() != Some(&s) {
            return Err(format!("{:?} is escaped as {:?}", clip(&s, 500), clip(&e, 500)));
        }
    }
    trees(ctx, r, &mut |ctx, _r, t| {
        let got = t.mermaid().to_string();
        ctx.event("trees");
        ctx.sample(|| got.clone());
        let bad = |m: String| Err(format!("{m}\nrendering:\n{}\nof tree:\n{}", clip(&got, 3000), clip(&t.to_string(), 3000)));
        // labels hold no raw line breaks, so lines are edges
        let mut lines = got.split('\n');
        if got.is_empty() || lines.next() != Some("flowchart TD") {
            return bad("no header".into());
        }
        let mut edges: Vec<&str> = lines.collect();
        if edges.pop() != Some("") {
            return bad("the last line is not ended".into());
        }
        ctx.add("edges", edges.len() as u64);
        ctx.eval((edges.len() >= 2).then(|| h(&got)));
        let mut next = 0usize;
        let mut taken = std::collections::HashSet::new();
        fn go<'a>(t: &ParseTree<'_>, id: Option<usize>, edges: &[&'a str], next: &mut usize, taken: &mut std::collections::HashSet<usize>) -> Result<(), String> {
            let mut id = id;
            for k in t.rhs_iter() {
                let Some(e) = edges.get(*next) else { return Err(format!("edge {next} is missing")) };
                let me = *next;
                *next += 1;
                // the arrow between the two nodes: labels have no raw quote
                let Some((a, b)) = e.split_once("\"] --> ") else { return Err(format!("line {me} is no edge: {e:?}")) };
                let a = format!("{a}\"]");
                let (Some((x, l)), Some((y, m))) = (side(&a), side(b)) else { return Err(format!("line {me} is no edge: {e:?}")) };
                match id {
                    None => {
                        id = Some(x);
                        taken.insert(x);
                    }
                    Some(i) if i == x => {}
                    Some(i) => return Err(format!("edge {me} starts at node {x}, its parent is {i}")),
                }
                if !taken.insert(y) {
                    return Err(format!("edge {me} gives number {y} to a second node"));
                }
                let want = escaped(node_text(t.lhs));
                if l != want {
                    return Err(format!("edge {me}: parent labelled {l:?}, should be {want:?}"));
                }
                let text = match k {
                    ParseTreeNode::Terminal(s) => s,
                    ParseTreeNode::Nonterminal(t) => node_text(t.lhs),
                };
                if m != escaped(text) || decode(m).as_deref() != Some(text) {
                    return Err(format!("edge {me}: child labelled {m:?}, its text is {text:?}"));
                }
                if let ParseTreeNode::Nonterminal(t) = k {
                    go(t, Some(y), edges, next, taken)?;
                }
            }
            Ok(())
        }
        if let Err(m) = go(t, None, &edges, &mut next, &mut taken) {
            return bad(m);
        }
        if next != edges.len() {
            return bad(format!("{} edges for {next} parent-child pairs", edges.len()));
        }
        Ok(())
    })
}
