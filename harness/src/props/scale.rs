//! Small cases with known trees, stretched: long terminals and names, inputs beyond 64 KiB, long
//! alternatives, tens of thousands of productions, charts of more than 65,536 steps. Every
//! transformation maps the derivations of the small case one to one to those of the large one,
//! so the enumeration of the small case is the oracle for the large one.
use super::parse::*;
use crate::ctx::*;
use crate::r#gen::*;
use crate::model::*;
use crate::oracle::*;
use crate::rng::{Rng, hash_str};
use bnf::{Grammar, GrammarParser, Term};
use std::collections::{BTreeSet, HashMap};

pub struct Scaled {
    pub g: G,
    pub start: String,
    pub input: String,
    pub want: Vec<Tree>,
    pub how: String,
}

/// a small case with all its trees
#[allow(clippy::type_complexity)]
fn base(r: &mut Rng, max_len: usize, max_trees: usize) -> Option<(G, String, Vec<(String, Vec<Tree>)>, f64)> {
    let i = instance(r);
    if i.g.has_dup_alts() || i.g.size() > 150 {
        return None;
    }
    let sm = Sampler::new(&i.cg);
    let start = pick_start(r, &i.g);
    let a = i.cg.idx[&start];
    let mut v = vec![];
    let mut work = 1.0f64;
    for input in inputs(r, &i.g, &sm, a, 6, max_len) {
        let s = Spans::new(&i.cg, input.as_bytes());
        let Size::Finite(items) = budget(&s, a, 1500.0) else { continue };
        let k = Counter::new(&s).trees(a, 0, input.len());
        if k > max_trees as f64 {
            continue;
        }
        work = work.max(items);
        v.push((input.clone(), enumerate(&s, a, 0, input.len(), &mut HashMap::new())));
    }
    (!v.is_empty()).then_some((i.g, start, v, work))
}

fn map_tree(t: &Tree, leaf: &dyn Fn(&str) -> Vec<String>, name: &dyn Fn(&str) -> String, tail: &dyn Fn(&str, &[Tree]) -> usize) -> Tree {
    match t {
        Tree::Leaf(s) => Tree::Leaf(leaf(s).concat()),
        Tree::Node(l, kids) => {
            let mut v = vec![];
            for k in kids {
                match k {
                    Tree::Leaf(s) => v.extend(leaf(s).into_iter().map(Tree::Leaf)),
                    k => v.push(map_tree(k, leaf, name, tail)),
                }
            }
            for _ in 0..tail(l, kids) {
                v.push(Tree::Leaf(String::new()));
            }
            Tree::Node(name(l), v)
        }
    }
}

fn shape(kids: &[Tree]) -> Alt {
    kids.iter()
        .map(|k| match k {
            Tree::Leaf(s) => T::T(s.clone()),
            Tree::Node(nm, _) => T::N(nm.clone()),
        })
        .collect()
}

const LENGTHS: &[usize] = &[33, 64, 65, 97, 128, 129, 200, 256, 257, 300, 511, 513, 1000, 1025, 2048, 4097, 5000, 16384, 32768, 65535, 65536, 65537, 100_000];

/// every character becomes a block of the same number of bytes; blocks differ in one place only
fn blow(r: &mut Rng, c: &mut Scaled) {
    let mut alpha: BTreeSet<char> = c.input.chars().collect();
    for p in &c.g.prods {
        for x in p.alts.iter().flatten() {
            if let T::T(s) = x {
                alpha.extend(s.chars());
            }
        }
    }
    let total: usize = c.input.chars().count() + c.g.prods.iter().flat_map(|p| p.alts.iter().flatten()).map(|x| if let T::T(s) = x { s.chars().count() } else { 0 }).sum::<usize>();
    let mut len = LENGTHS[r.below(LENGTHS.len())];
    if r.chance(60) {
        len = LENGTHS[r.below(13)];
    }
    while len > 40 && len * total > 3_000_000 {
        len = len * 2 / 3;
    }
    let some = r.below(len - 4);
    let pos = *r.pick(&[0, len / 2, len - 4, len - 5, some]);
    let fill: Vec<u8> = if r.chance(50) { vec![b'q'; len] } else { (0..len).map(|_| *r.pick(b"ab\"xyz ;<>|qq'")).collect() };
    let block = |ch: char| -> String {
        let mut b = fill.clone();
        let k = ch.len_utf8();
        ch.encode_utf8(&mut b[pos..pos + k]);
        String::from_utf8(b).expect("ASCII around one character")
    };
    let codes: HashMap<char, String> = alpha.iter().map(|&ch| (ch, block(ch))).collect();
    let code = |s: &str| -> String { s.chars().map(|ch| codes[&ch].as_str()).collect() };
    for p in &mut c.g.prods {
        for x in p.alts.iter_mut().flatten() {
            if let T::T(s) = x {
                *s = code(s);
            }
        }
    }
    let damaged = !c.input.is_empty() && r.chance(35);
    c.input = code(&c.input);
    c.want = c.want.iter().map(|t| map_tree(t, &|s| vec![code(s)], &|n| n.to_string(), &|_, _| 0)).collect();
    c.how.push_str(&format!(" blocks of {len} bytes differing at {pos};"));
    if damaged {
        // a byte of the common part, anywhere: no block is like that
        let k = c.input.len() / len;
        let blk = if r.chance(40) { k - 1 } else { r.below(k) };
        let mut at = if r.chance(40) { len - 1 } else { r.below(len) };
        if (pos..pos + 4).contains(&at) {
            at = (pos + 4) % len;
        }
        if !(pos..pos + 4).contains(&at) {
            let mut b = c.input.clone().into_bytes();
            let at = blk * len + at;
            // (the byte may belong to a longer block character's tail only inside pos..pos+4)
            b[at] = if b[at] == b'#' { b'%' } else { b'#' };
            c.input = String::from_utf8(b).expect("ASCII for ASCII");
            c.want.clear();
            c.how.push_str(&format!(" one byte of the input replaced at {at};"));
        }
    }
}

/// longer names
fn rename(r: &mut Rng, c: &mut Scaled) {
    let len = LENGTHS[r.below(16)];
    let pre = r.chance(50);
    let pad = "n".repeat(len);
    let name = |s: &str| if pre { format!("{pad}{s}") } else { format!("{s}|{pad}") };
    for p in &mut c.g.prods {
        if let T::N(s) = &mut p.lhs {
            *s = name(s);
        }
        for x in p.alts.iter_mut().flatten() {
            if let T::N(s) = x {
                *s = name(s);
            }
        }
    }
    c.start = name(&c.start);
    c.want = c.want.iter().map(|t| map_tree(t, &|s| vec![s.to_string()], &name, &|_, _| 0)).collect();
    c.how.push_str(&format!(" names of {len} more bytes;"));
}

/// terminals taken apart and empty terminals added: long alternatives
fn widen(r: &mut Rng, c: &mut Scaled, work: f64) {
    let salt = r.next();
    let mut most = *r.pick(&[10usize, 40, 70, 140, 270, 300, 600]);
    // a parse walks back over an alternative for every step in it
    while most > 4 && work * (most * most) as f64 > 4e7 {
        most = most * 3 / 4;
    }
    let split = r.chance(50);
    let leaf = |s: &str| -> Vec<String> { if split && s.chars().count() > 1 { s.chars().map(String::from).collect() } else { vec![s.to_string()] } };
    let extra = |l: &str, a: &Alt| -> usize { (h(&(l, a, salt)) % (most as u64 + 1)) as usize };
    let mut g = c.g.clone();
    for p in &mut g.prods {
        let l = p.name().to_string();
        for a in &mut p.alts {
            let e = extra(&l, a);
            let mut v = vec![];
            for x in a.iter() {
                match x {
                    T::T(s) => v.extend(leaf(s).into_iter().map(T::T)),
                    x => v.push(x.clone()),
                }
            }
            v.extend((0..e).map(|_| t("")));
            *a = v;
        }
    }
    if g.has_dup_alts() {
        return;
    }
    c.want = c.want.iter().map(|t| map_tree(t, &leaf, &|n| n.to_string(), &|l, kids| extra(l, &shape(kids)))).collect();
    c.g = g;
    c.how.push_str(&format!(" up to {most} empty terminals per alternative;"));
}

/// a character that occurs nowhere
fn foreign(c: &Scaled) -> char {
    *['\u{1}', '≡', '\u{2}', '¶', '§', '\u{3}'].iter().find(|x| !c.input.contains(**x) && !c.g.prods.iter().any(|p| p.alts.iter().flatten().any(|t| matches!(t, T::T(s) if s.contains(**x))))).expect("an unused character")
}

/// productions and alternatives that never match
fn dilute(r: &mut Rng, c: &mut Scaled, work: f64) {
    let f = foreign(c);
    // alternatives of the nonterminals in use
    let mut k = *r.pick(&[0usize, 5, 70, 150, 300, 700]);
    while k > 5 && work * k as f64 > 150_000.0 {
        k = k * 3 / 4;
    }
    for i in 0..k {
        let p = r.below(c.g.prods.len());
        let a = vec![T::T(format!("{f}{i}"))];
        let at = if r.chance(50) { 0 } else { r.below(c.g.prods[p].alts.len() + 1) };
        c.g.prods[p].alts.insert(at, a);
    }
    // productions nobody asks for
    let m = *r.pick(&[0usize, 20, 200, 300, 1500, 5000]);
    let m = if r.below(40) == 0 { 66_000 } else { m };
    let first = r.chance(50);
    let extra: Vec<P> = (0..m).map(|i| P { lhs: T::N(format!("{f}{i}")), alts: vec![vec![T::T(format!("{}", i % 7))], vec![T::N(format!("{f}{}", (i * 7 + 1) % m))]] }).collect();
    if first {
        let mut v = extra;
        v.append(&mut c.g.prods);
        c.g.prods = v;
    } else {
        c.g.prods.extend(extra);
    }
    c.how.push_str(&format!(" {k} alternatives and {m} productions that play no part;"));
}

/// several inputs of the small grammar in one, apart by long terminals or in a list
fn chain(r: &mut Rng, c: &mut Scaled, others: &[(String, Vec<Tree>)], work: f64) {
    let f = foreign(c);
    let mut pool: Vec<&(String, Vec<Tree>)> = others.iter().filter(|x| x.1.len() == 1).collect();
    if pool.is_empty() {
        pool = others.iter().collect();
    }
    let bad = r.chance(25);
    if !bad {
        pool.retain(|x| !x.1.is_empty());
    }
    if pool.is_empty() {
        return;
    }
    let top = T::N(format!("top{f}"));
    let s = T::N(c.start.clone());
    if r.chance(50) {
        // positions apart by round numbers
        let m = r.range(2, 4);
        let step = *r.pick(&[256usize, 1024, 4096, 32768, 65536, 65536, 65536, 131_072, 65535]);
        let mut alt = vec![];
        let mut input = String::new();
        let mut kids: Vec<Vec<Tree>> = vec![];
        let mut trees: Vec<Vec<Tree>> = vec![vec![]];
        let same = r.chance(60).then(|| r.below(pool.len()));
        for j in 0..m {
            let w = pool[same.unwrap_or_else(|| r.below(pool.len()))];
            alt.push(s.clone());
            input.push_str(&w.0);
            if trees.len() * w.1.len() * step > 20_000_000 {
                return;
            }
            trees = trees.iter().flat_map(|t| w.1.iter().map(|x| t.iter().cloned().chain([x.clone()]).collect())).collect();
            if j + 1 < m {
                let fl = f.len_utf8();
                let len = step.saturating_sub(w.0.len()).max(2 * fl);
                // the small grammar stops at the first character of it
                let pad = format!("{f}{}{f}", "-".repeat(len - 2 * fl));
                alt.push(T::T(pad.clone()));
                input.push_str(&pad);
                trees.iter_mut().for_each(|t| t.push(Tree::Leaf(pad.clone())));
            }
        }
        kids.append(&mut trees);
        let T::N(tn) = &top else { return };
        c.want = kids.into_iter().map(|k| Tree::Node(tn.clone(), k)).collect();
        c.input = input;
        c.g.prods.insert(if r.chance(50) { 0 } else { c.g.prods.len() }, P { lhs: top.clone(), alts: vec![alt] });
        c.how.push_str(&format!(" {m} in a row, {step} bytes apart;"));
        c.start = tn.clone();
    } else {
        // a list, recursive on the left or on the right
        let left = r.chance(50);
        let m = if left { r.range(50, 900) } else { r.range(30, 160) };
        let mut m = if !left && r.below(12) == 0 { 420 } else { m };
        while m > 20 && work * m as f64 + if left { 0.0 } else { (m * m) as f64 } > 120_000.0 {
            m = m * 3 / 4;
        }
        let sep = f.to_string();
        let T::N(tn) = &top else { return };
        let mut input = String::new();
        let mut picks: Vec<&Tree> = vec![];
        let mut none = false;
        let uniq: Vec<&&(String, Vec<Tree>)> = pool.iter().filter(|x| x.1.len() <= 1).collect();
        if uniq.is_empty() {
            return;
        }
        let spoil = bad.then(|| r.below(m));
        for j in 0..m {
            let cand: Vec<_> = uniq.iter().filter(|x| x.1.is_empty() == (spoil == Some(j))).collect();
            if cand.is_empty() {
                return;
            }
            let w = r.pick(&cand);
            if j > 0 {
                input.push_str(&sep);
            }
            input.push_str(&w.0);
            match w.1.first() {
                Some(t) => picks.push(t),
                None => none = true,
            }
        }
        if input.len() > 4000 && !left {
            return;
        }
        let leaf = Tree::Leaf(sep.clone());
        c.want = if none {
            vec![]
        } else if left {
            let mut acc = Tree::Node(tn.clone(), vec![picks[0].clone()]);
            for p in &picks[1..] {
                acc = Tree::Node(tn.clone(), vec![acc, leaf.clone(), (*p).clone()]);
            }
            vec![acc]
        } else {
            let mut acc = Tree::Node(tn.clone(), vec![picks[m - 1].clone()]);
            for p in picks[..m - 1].iter().rev() {
                acc = Tree::Node(tn.clone(), vec![(*p).clone(), leaf.clone(), acc]);
            }
            vec![acc]
        };
        let rec = if left { vec![top.clone(), T::T(sep.clone()), s.clone()] } else { vec![s.clone(), T::T(sep.clone()), top.clone()] };
        let mut alts = vec![rec, vec![s.clone()]];
        if r.chance(50) {
            alts.reverse();
        }
        c.g.prods.insert(if r.chance(50) { 0 } else { c.g.prods.len() }, P { lhs: top.clone(), alts });
        c.input = input;
        c.start = tn.clone();
        c.how.push_str(&format!(" a {}-recursive list of {m};", if left { "left" } else { "right" }));
    }
}

/// more than 65,536 steps, one tree
fn big_chart(r: &mut Rng) -> Scaled {
    let p = |l: &str, alts: Vec<Vec<T>>| P { lhs: n(l), alts };
    let k = r.range(370, 480);
    let (a, b) = if r.chance(50) { ("a", "b") } else { ("é", "日本") };
    let g = G { prods: vec![p("l", vec![vec![n("x")], vec![n("x"), n("l")]]), p("x", vec![vec![t(a)], vec![t(b)]])] };
    let picks: Vec<&str> = (0..k).map(|_| if r.chance(50) { a } else { b }).collect();
    let one = |s: &str| Tree::Node("x".into(), vec![Tree::Leaf(s.into())]);
    let mut acc = Tree::Node("l".into(), vec![one(picks[k - 1])]);
    for s in picks[..k - 1].iter().rev() {
        acc = Tree::Node("l".into(), vec![one(s), acc]);
    }
    let mut input: String = picks.concat();
    let mut want = vec![acc];
    if r.chance(30) {
        input.push('?');
        want.clear();
    }
    Scaled { g, start: "l".into(), input, want, how: format!("{k} pieces, right-recursive") }
}

/// a balanced tree of many leaves: hundreds of thousands of steps at a constant cost each
pub fn grid(r: &mut Rng, leaves: usize) -> Scaled {
    let levels = r.range(3, 4);
    let mut fan = vec![];
    let mut total = 1usize;
    while fan.len() + 1 < levels {
        let f = r.range(20, 40).min(leaves / total).max(2);
        fan.push(f);
        total *= f;
    }
    fan.push((leaves / total + 1).max(2));
    total *= fan[levels - 1];
    let (a, b) = *r.pick(&[("x", "y"), ("x", "xx"), ("é", "日本"), ("0", "")]);
    let b = if b.is_empty() { "1" } else { b };
    let mut prods: Vec<P> = (0..levels).map(|i| P { lhs: T::N(format!("g{i}")), alts: vec![(0..fan[i]).map(|_| T::N(format!("g{}", i + 1))).collect()] }).collect();
    prods.push(P { lhs: T::N(format!("g{levels}")), alts: vec![vec![t(a), t(".")], vec![t(b), t(".")]] });
    let mut picks: Vec<bool> = (0..total).map(|_| r.chance(50)).collect();
    let mut layer: Vec<Tree> = picks.iter().map(|&x| Tree::Node(format!("g{levels}"), vec![Tree::Leaf(if x { a } else { b }.into()), Tree::Leaf(".".into())])).collect();
    for i in (0..levels).rev() {
        layer = layer.chunks(fan[i]).map(|c| Tree::Node(format!("g{i}"), c.to_vec())).collect();
    }
    let spoil = r.chance(20);
    if spoil {
        picks.pop();
    }
    let input: String = picks.iter().map(|&x| if x { a } else { b }).flat_map(|x| [x, "."]).collect();
    let want = if spoil { vec![] } else { layer };
    Scaled { g: G { prods }, start: "g0".into(), input, want, how: format!(" {total} leaves at depth {levels}") }
}

pub fn scaled(r: &mut Rng) -> Option<Scaled> {
    if r.below(50) == 0 {
        let leaves = *r.pick(&[23_000usize, 34_000, 67_000, 67_000]);
        return Some(grid(r, leaves));
    }
    if r.below(25) == 0 {
        return Some(big_chart(r));
    }
    let (g, start, v, work) = base(r, 12, 40)?;
    let (input, want) = v[r.below(v.len())].clone();
    let mut c = Scaled { g, start, input, want, how: String::new() };
    // one stretch, at times a second that multiplies nothing
    match r.below(6) {
        0 => chain(r, &mut c, &v, work),
        1 => {
            widen(r, &mut c, work);
            if r.chance(30) {
                blow(r, &mut c);
            }
        }
        2 => {
            dilute(r, &mut c, work);
            if r.chance(40) {
                blow(r, &mut c);
            }
        }
        3 => rename(r, &mut c),
        _ => blow(r, &mut c),
    }
    if r.chance(10) {
        rename(r, &mut c);
    }
    if c.how.is_empty() {
        return None;
    }
    Some(c)
}

fn multiset(v: &[Tree]) -> HashMap<&Tree, usize> {
    let mut m = HashMap::new();
    for t in v {
        *m.entry(t).or_insert(0) += 1;
    }
    m
}

/// the same judgement as the property's ordinary cases, on a stretched one
#[allow(deprecated)]
pub fn run(id: &str, ctx: &mut Ctx, r: &mut Rng) -> Res {
    let Some(c) = scaled(r) else { return Ok(()) };
    let b: Grammar = c.g.to_bnf();
    let st = Term::Nonterminal(c.start.clone());
    let tell = || format!("(stretched:{}; {} productions, input of {} bytes, hash {:x})\n{}", c.how, c.g.prods.len(), c.input.len(), hash_str(&c.input), describe(&c.g, &clip(&c.start, 300), &c.input));
    note(|| tell());
    let p = b.build_parser().map_err(|e| format!("valid grammar refused: {}\n{}", clip(&e.to_string(), 300), tell()))?;
    let limit = c.want.len() + 2;
    let get = |p: &GrammarParser<'_>| -> Vec<Tree> { p.parse_input_starting_with(&c.input, &st).take(limit).map(|x| tree_from(&x)).collect() };
    ctx.event("stretched");
    ctx.max("max_stretched_input_bytes", c.input.len() as u64);
    ctx.max("max_stretched_productions", c.g.prods.len() as u64);
    ctx.max("max_stretched_terms", c.g.prods.iter().flat_map(|p| p.alts.iter().map(|a| a.len())).max().unwrap_or(0) as u64);
    ctx.event(if c.want.is_empty() { "stretched_rejected" } else { "stretched_accepted" });
    ctx.eval(Some(h(&(&c.g.prods.len(), &c.input, &c.start))));
    match id {
        "C01" => {
            let got = if r.chance(50) { p.parse_input_starting_with(&c.input, &st).next().is_some() } else { b.parse_input_starting_with(&c.input, &st).next().is_some() };
            if got == c.want.is_empty() {
                return Err(format!("the parser yields a tree: {got}; {} derivations exist\n{}", c.want.len(), tell()));
            }
        }
        "C02" => {
            for t in get(&p) {
                check_tree(&c.g, &c.start, &t, &c.input).map_err(|e| format!("{}\n{}", clip(&e, 1500), tell()))?;
            }
        }
        "C03" => {
            let got = get(&p);
            if multiset(&got) != multiset(&c.want) {
                return Err(format!("{} trees yielded (asked for {limit}), {} derivations exist, or they differ\n{}", got.len(), c.want.len(), tell()));
            }
        }
        "C04" => {
            let one = get(&p);
            let two = get(&p);
            let q = b.clone();
            let p2 = q.build_parser().map_err(|e| format!("valid grammar refused: {e}"))?;
            let three = get(&p2);
            if one != two || one != three {
                return Err(format!("parsing again gives another stream\n{}", tell()));
            }
            let mut pg = c.g.clone();
            for q in &mut pg.prods {
                r.shuffle(&mut q.alts);
            }
            r.shuffle(&mut pg.prods);
            let pb = pg.to_bnf();
            let pp = pb.build_parser().map_err(|e| format!("valid grammar refused: {e}"))?;
            let four = get(&pp);
            if multiset(&one) != multiset(&four) {
                return Err(format!("reordering productions and alternatives changes the trees found: {} and {}\n{}", one.len(), four.len(), tell()));
            }
        }
        _ => {
            let one = get(&p);
            let old: Vec<Tree> = b.parse_input_starting_with(&c.input, &st).take(limit).map(|x| tree_from(&x)).collect();
            let mut rot = c.g.clone();
            let k = rot.prods.iter().position(|p| p.name() == c.start).expect("start");
            let p0 = rot.prods.remove(k);
            rot.prods.insert(0, p0);
            let rb = rot.to_bnf();
            let rp = rb.build_parser().map_err(|e| format!("valid grammar refused: {e}"))?;
            let first: Vec<Tree> = rp.parse_input(&c.input).take(limit).map(|x| tree_from(&x)).collect();
            let oldest: Vec<Tree> = rb.parse_input(&c.input).take(limit).map(|x| tree_from(&x)).collect();
            for (what, v) in [("the older method", &old), ("parse_input with the start first", &first), ("the older parse_input with the start first", &oldest)] {
                if multiset(v) != multiset(&one) {
                    return Err(format!("{what} gives {} trees, parse_input_starting_with {}, or they differ\n{}", v.len(), one.len(), tell()));
                }
            }
        }
    }
    Ok(())
}
