//! Workload generators: grammars and inputs.
use crate::model::*;
use crate::oracle::*;
use crate::rng::Rng;

pub const POOLS: &[&[&str]] = &[
    &["a", "b"],
    &["a", "b", "ab", "aa", "ba", "aab"],
    &["é", "e", "\u{301}", "日", "日本", "本", "😀", "ß", "ss", "e\u{301}"],
    &["'", " ", "\n", "<", ">", "|", ";", "::=", "(", ")", "[", "]", "\\", "#", "&", "\t", "\r", "\0", "/", "=", "\"", "#34;", "-->", "{", "}"],
    &["a", "b", "", "c", "ab", ""],
    &["if", "then", "else", "x", "i", "e", "t", " "],
    &["0", "1", "+", "*", "(", ")", "-"],
    &["a"],
    &["a", "A", "\u{0}", "\u{7f}", "\u{80}", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{10000}", "\u{10ffff}"],
    &["when", "When", "null", "NULL", "select", "from", "0x1F", "0x1f", " ", "k", "\u{212a}", "ı", "I", "ﬁ", "fi"],
    &["\r\n", "\n", "\r", " ", "x", "\u{2028}", "\u{feff}", "\u{200b}", "\u{a0}", "line", "\u{85}"],
];

pub const NAMES: &[&str] = &["s", "a", "b", "c", "d", "e", "f", "g", "h", "k"];

pub const EXOTIC: &[&str] = &[
    "", " ", "a b", "__anon0", "__anon1", "__anon2", "日", "x|y", "::=", "'q", "\"", "a;b", "(", "]", "A", "a", "a\nb",
    "<", "e\u{301}", "é", "-", "0", "s ", " s", "S", "a'", "x::=", "[x]", "(x)", "\\", "#", "&", ";", "a/b", "a=b",
    "very-long-nonterminal-name-with-many-characters-in-it-so-that-it-does-not-fit-anywhere-inline-0123456789-0123456789-0123456789",
    "\u{0}", "\t", "🙂", "ﬁ", "name", "name2", "nam", "n", "=", "::", "|", "/", "''", "\"\"", "\r\n", "\u{feff}x", "\u{a0}",
];

#[derive(Clone)]
pub struct Opt {
    pub nts: (usize, usize),
    pub alts: (usize, usize),
    pub len: (usize, usize),
    pub pool: usize,
    pub exotic: bool,
    pub nt_pct: usize,
    pub empty_pct: usize,
    /// alternatives may have no terms at all (API-built grammars)
    pub termless: bool,
    pub dup_lhs_pct: usize,
    pub dup_alt_pct: usize,
    pub undef_pct: usize,
}

impl Opt {
    pub fn random(r: &mut Rng) -> Opt {
        let big = r.chance(6);
        Opt {
            nts: if big { (6, 12) } else { (1, 5) },
            alts: if r.chance(10) { (1, 6) } else { (1, 3) },
            len: if r.chance(10) { (0, 6) } else { (0, 3) },
            pool: if r.chance(50) { r.below(2) } else { r.below(POOLS.len()) },
            exotic: r.chance(25),
            nt_pct: *r.pick(&[20, 40, 50, 60, 75]),
            empty_pct: *r.pick(&[0, 0, 5, 15, 30]),
            termless: r.chance(40),
            dup_lhs_pct: *r.pick(&[0, 0, 20, 50]),
            dup_alt_pct: *r.pick(&[0, 0, 0, 10]),
            undef_pct: 0,
        }
    }
}

pub fn names(r: &mut Rng, k: usize, exotic: bool) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    while v.len() < k {
        let nm = if exotic && r.chance(70) {
            let mut x = (*r.pick(EXOTIC)).to_string();
            if r.chance(20) {
                x.push_str(r.pick(EXOTIC));
            }
            x
        } else if v.len() < NAMES.len() {
            NAMES[v.len()].to_string()
        } else {
            format!("n{}", v.len())
        };
        if !v.contains(&nm) {
            v.push(nm);
        } else if !exotic {
            v.push(format!("m{}", v.len()));
        }
    }
    v
}

pub fn terminal(r: &mut Rng, pool: usize) -> String {
    (*r.pick(POOLS[pool])).to_string()
}

pub fn grammar(r: &mut Rng, o: &Opt) -> G {
    let k = r.range(o.nts.0, o.nts.1);
    let nm = names(r, k, o.exotic);
    let undef: Vec<String> = (0..2).map(|i| format!("undef{i}")).collect();
    let mut g = G::new();
    for x in &nm {
        let na = r.range(o.alts.0, o.alts.1).max(1);
        let alts = (0..na).map(|_| alt(r, o, &nm, &undef)).collect();
        g.prods.push(P { lhs: T::N(x.clone()), alts });
    }
    // repeat alternatives
    for i in 0..g.prods.len() {
        if r.chance(o.dup_alt_pct) {
            let a = g.prods[i].alts[r.below(g.prods[i].alts.len())].clone();
            g.prods[i].alts.push(a);
        }
    }
    // several productions for one nonterminal
    if r.chance(o.dup_lhs_pct) {
        for _ in 0..r.range(1, 2) {
            let x = nm[r.below(nm.len())].clone();
            let na = r.range(1, o.alts.1.max(1));
            let alts = (0..na).map(|_| alt(r, o, &nm, &undef)).collect();
            let at = r.range(1, g.prods.len());
            g.prods.insert(at, P { lhs: T::N(x), alts });
        }
    }
    g
}

fn alt(r: &mut Rng, o: &Opt, nm: &[String], undef: &[String]) -> Alt {
    if r.chance(o.empty_pct) {
        return if o.termless && r.chance(50) { vec![] } else { vec![t("")] };
    }
    let l = r.range(o.len.0, o.len.1);
    let l = if l == 0 && !o.termless { 1 } else { l };
    (0..l)
        .map(|_| {
            if r.chance(o.nt_pct) {
                if o.undef_pct > 0 && r.chance(o.undef_pct) {
                    T::N(undef[r.below(undef.len())].clone())
                } else {
                    T::N(nm[r.below(nm.len())].clone())
                }
            } else {
                T::T(terminal(r, o.pool))
            }
        })
        .collect()
}

/// well-known shapes, with their own alphabets
pub fn classic(r: &mut Rng) -> G {
    let texts: &[&[(&str, &[&[T]])]] = &[];
    let _ = texts;
    let k = r.below(26);
    let g = |v: Vec<(&str, Vec<Vec<T>>)>| G {
        prods: v.into_iter().map(|(l, a)| P { lhs: n(l), alts: a }).collect(),
    };
    match k {
        0 => g(vec![("s", vec![vec![t("a"), n("s"), t("b")], vec![t("")]])]),
        1 => g(vec![("s", vec![vec![t("a"), n("s"), t("a")], vec![t("b"), n("s"), t("b")], vec![t("a")], vec![t("b")], vec![]])]),
        2 => g(vec![("s", vec![vec![n("s"), n("s")], vec![t("("), n("s"), t(")")], vec![t("("), t(")")]])]),
        3 => g(vec![
            ("e", vec![vec![n("e"), t("+"), n("f")], vec![n("f")]]),
            ("f", vec![vec![n("f"), t("*"), n("g")], vec![n("g")]]),
            ("g", vec![vec![t("("), n("e"), t(")")], vec![t("1")], vec![t("0")]]),
        ]),
        4 => g(vec![("e", vec![vec![n("e"), t("+"), n("e")], vec![n("e"), t("*"), n("e")], vec![t("1")]])]),
        5 => g(vec![
            ("s", vec![vec![t("if"), n("s")], vec![t("if"), n("s"), t("else"), n("s")], vec![t("x")]]),
        ]),
        6 => g(vec![("s", vec![vec![n("x"), n("s"), t("a")], vec![t("b")]]), ("x", vec![vec![]])]),
        7 => g(vec![("s", vec![vec![n("x"), n("s"), t("a")], vec![t("b")]]), ("x", vec![vec![t("")], vec![t("a")]])]),
        8 => g(vec![("s", vec![vec![n("a"), t("x")], vec![t("y")]]), ("a", vec![vec![n("s"), t("z")], vec![n("s")]])]),
        9 => g(vec![("s", vec![vec![n("s")], vec![t("a")]])]),
        10 => g(vec![("s", vec![vec![n("a"), n("a"), n("a")]]), ("a", vec![vec![t("a")], vec![t("")], vec![t("aa")]])]),
        11 => g(vec![("s", vec![vec![n("s"), n("s")], vec![t("a")], vec![]])]),
        12 => g(vec![
            ("s", vec![vec![n("a"), n("b"), n("c")]]),
            ("a", vec![vec![t("x")], vec![]]),
            ("b", vec![vec![n("a"), n("a")], vec![t("y")]]),
            ("c", vec![vec![n("b")], vec![t("z")]]),
        ]),
        13 => g(vec![("dna", vec![vec![n("base")], vec![n("base"), n("dna")]]), ("base", vec![vec![t("A")], vec![t("C")], vec![t("G")], vec![t("T")]])]),
        14 => g(vec![("s", vec![vec![t("a"), n("s")], vec![t("a"), n("s"), t("b"), n("s")], vec![t("c")]])]),
        15 => g(vec![("s", vec![vec![n("a")]]), ("a", vec![vec![n("b")]]), ("b", vec![vec![n("c")], vec![t("q"), n("a")]]), ("c", vec![vec![t("x")], vec![n("s"), t("y")]])]),
        16 => g(vec![("s", vec![vec![n("e"), n("e"), n("e"), n("e"), t("a")]]), ("e", vec![vec![t("")], vec![t("a")]])]),
        17 => g(vec![("s", vec![vec![n("s"), t("é")], vec![t("e"), n("s")], vec![t("日本")], vec![t("日")], vec![t("本")]])]),
        18 => g(vec![("s", vec![vec![n("a"), n("s"), n("b")], vec![t("x")]]), ("a", vec![vec![]]), ("b", vec![vec![t("y")]])]),
        19 => g(vec![("s", vec![vec![n("l"), t("="), n("r")], vec![n("r")]]), ("l", vec![vec![t("*"), n("r")], vec![t("i")]]), ("r", vec![vec![n("l")]])]),
        20 => g(vec![("s", vec![vec![t("a"), n("b")]]), ("s", vec![vec![t("a"), n("c")]]), ("b", vec![vec![t("b")]]), ("c", vec![vec![t("b")], vec![t("c")]])]),
        21 => g(vec![("s", vec![vec![n("x"), n("y")]]), ("x", vec![vec![t("a")], vec![n("x"), t("a")]]), ("y", vec![vec![t("a")], vec![n("y"), t("a")]])]),
        22 => g(vec![("s", vec![vec![n("s"), n("s"), n("s")], vec![n("s"), n("s")], vec![t("a")]])]),
        23 => g(vec![("s", vec![vec![n("e")]]), ("e", vec![vec![n("e"), n("o"), n("e")], vec![t("1")], vec![t("11")]]), ("o", vec![vec![t("+")], vec![t("")]])]),
        24 => g(vec![("s", vec![vec![n("o"), t("x"), n("o")]]), ("o", vec![vec![n("p")], vec![]]), ("p", vec![vec![t("-"), n("o")], vec![t("-")]])]),
        _ => {
            // deep unit chain
            let depth = r.range(2, 30);
            let mut v = vec![];
            for i in 0..depth {
                v.push(P { lhs: T::N(format!("c{i}")), alts: vec![vec![T::N(format!("c{}", i + 1))], vec![t("z"), T::N(format!("c{}", i + 1))]] });
            }
            v.push(P { lhs: T::N(format!("c{depth}")), alts: vec![vec![t("x")], vec![t("y")]] });
            G { prods: v }
        }
    }
}

/// a grammar large in one dimension (many productions, alternatives, terms, or long names)
pub fn large(r: &mut Rng) -> G {
    match r.below(5) {
        0 => {
            // many alternatives, distinct terminals
            let k = r.range(30, 300);
            let alts = (0..k).map(|i| vec![T::T(format!("w{i};"))]).collect();
            G { prods: vec![P { lhs: n("s"), alts: vec![vec![n("w")], vec![n("w"), n("s")]] }, P { lhs: n("w"), alts }] }
        }
        1 => {
            // many productions
            let k = r.range(30, 150);
            let mut prods = vec![];
            for i in 0..k {
                let nx = (i + 1 + r.below(3)).min(k - 1);
                let mut alts = vec![vec![T::T(format!("t{i}.")), T::N(format!("p{nx}"))], vec![T::T(format!("u{i}."))]];
                if r.chance(30) {
                    alts.push(vec![T::N(format!("p{}", (i + 1).min(k)))]);
                }
                prods.push(P { lhs: T::N(format!("p{i}")), alts });
            }
            prods.push(P { lhs: T::N(format!("p{k}")), alts: vec![vec![t("end")]] });
            G { prods }
        }
        2 => {
            // long alternative
            let k = r.range(30, 120);
            let a = (0..k).map(|i| if i % 3 == 0 { n("x") } else { T::T(format!("{}", i % 7)) }).collect();
            G { prods: vec![P { lhs: n("s"), alts: vec![a] }, P { lhs: n("x"), alts: vec![vec![t("a")], vec![t("b")], vec![t("")]] }] }
        }
        3 => {
            // long names and terminals
            let long = "n".repeat(r.range(100, 2000));
            let lt = "t".repeat(r.range(100, 1500));
            G { prods: vec![P { lhs: T::N(long.clone()), alts: vec![vec![T::T(lt.clone()), T::N(long.clone())], vec![T::T(lt)], vec![T::N(format!("{long}x"))]] }, P { lhs: T::N(format!("{long}x")), alts: vec![vec![t("x")]] }] }
        }
        _ => {
            // many productions of one nonterminal
            let k = r.range(10, 80);
            let mut prods = vec![];
            for i in 0..k {
                prods.push(P { lhs: n("s"), alts: vec![vec![T::T(format!("k{i},")), n("s")], vec![T::T(format!("e{i}"))]] });
            }
            G { prods }
        }
    }
}

pub struct Sampler<'a> {
    pub cg: &'a CG,
    pub h: Vec<usize>,
}
impl<'a> Sampler<'a> {
    pub fn new(cg: &'a CG) -> Self {
        Sampler { h: cg.heights(), cg }
    }
    /// a random sentence of a; None if a derives nothing
    pub fn sample(&self, r: &mut Rng, a: usize, budget: usize) -> Option<String> {
        if self.h[a] == usize::MAX {
            return None;
        }
        let mut out: Vec<u8> = vec![];
        let mut steps = 0usize;
        let mut st: Vec<&Sym> = vec![];
        let root = Sym::N(a);
        st.push(&root);
        while let Some(s) = st.pop() {
            match s {
                Sym::T(t) => out.extend_from_slice(t),
                Sym::N(x) => {
                    steps += 1;
                    let c: Vec<usize> = self.cg.by[*x].iter().copied().filter(|&ri| self.cg.rule_height(&self.cg.rules[ri], &self.h) != usize::MAX).collect();
                    let ri = if steps < budget {
                        c[r.below(c.len())]
                    } else {
                        let m = c.iter().map(|&ri| self.cg.rule_height(&self.cg.rules[ri], &self.h)).min().unwrap();
                        let b: Vec<usize> = c.into_iter().filter(|&ri| self.cg.rule_height(&self.cg.rules[ri], &self.h) == m).collect();
                        b[r.below(b.len())]
                    };
                    st.extend(self.cg.rules[ri].rhs.iter().rev());
                    if steps > budget * 4 + 2000 || out.len() > 20000 {
                        return None;
                    }
                }
            }
        }
        Some(String::from_utf8(out).unwrap())
    }
}

pub fn alphabet(g: &G) -> Vec<char> {
    let mut v: Vec<char> = vec![];
    for p in &g.prods {
        for a in &p.alts {
            for s in a {
                if let T::T(x) = s {
                    for c in x.chars() {
                        if !v.contains(&c) {
                            v.push(c);
                        }
                    }
                }
            }
        }
    }
    if v.is_empty() {
        v.push('a');
    }
    v
}

pub fn mutate(r: &mut Rng, s: &str, alpha: &[char]) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 2) {
        match r.below(8) {
            0 if !c.is_empty() => {
                let i = r.below(c.len());
                c.remove(i);
            }
            5 if !c.is_empty() => {
                // the other case, of one letter or of all
                let one = r.chance(50).then(|| r.below(c.len()));
                for (i, x) in c.iter_mut().enumerate() {
                    if one.is_none_or(|k| k == i) {
                        let up = x.is_lowercase();
                        let y: Vec<char> = if up { x.to_uppercase().collect() } else { x.to_lowercase().collect() };
                        if y.len() == 1 {
                            *x = y[0];
                        }
                    }
                }
            }
            6 => {
                // what readers of files and lines add or take away
                let extra = *r.pick(&["\n", "\r\n", "\r", " ", "\t", "\0", "\u{feff}", "\u{a0}", "\u{2028}", "\u{200b}"]);
                let at = if r.chance(70) { c.len() } else { 0 };
                c.splice(at..at, extra.chars());
            }
            7 => {
                while c.last().is_some_and(|x| x.is_whitespace()) {
                    c.pop();
                }
                if r.chance(30) {
                    while c.first().is_some_and(|x| x.is_whitespace()) {
                        c.remove(0);
                    }
                }
            }
            1 => {
                let i = r.below(c.len() + 1);
                c.insert(i, *r.pick(alpha));
            }
            2 if !c.is_empty() => {
                let i = r.below(c.len());
                c[i] = *r.pick(alpha);
            }
            3 if c.len() > 1 => {
                let i = r.below(c.len() - 1);
                c.swap(i, i + 1);
            }
            _ => {
                let i = r.below(c.len() + 1);
                c.insert(i, *r.pick(&['a', 'b', 'x', '日', 'é', '\u{301}', ' ']));
            }
        }
    }
    c.into_iter().collect()
}

pub fn random_string(r: &mut Rng, alpha: &[char], max: usize) -> String {
    let l = r.below(max + 1);
    (0..l).map(|_| *r.pick(alpha)).collect()
}

/// inputs for a grammar and start: sentences, near-sentences, random strings, the empty string
pub fn inputs(r: &mut Rng, g: &G, sm: &Sampler, a: usize, count: usize, max_len: usize) -> Vec<String> {
    let alpha = alphabet(g);
    let mut v: Vec<String> = vec![];
    for i in 0..count {
        let s = match i % 5 {
            0 | 1 => {
                let b = *r.pick(&[1usize, 3, 6, 10]);
                sm.sample(r, a, b).unwrap_or_default()
            }
            2 => {
                let x = sm.sample(r, a, 6).unwrap_or_default();
                mutate(r, &x, &alpha)
            }
            3 => random_string(r, &alpha, 5),
            _ => {
                if r.chance(30) {
                    String::new()
                } else {
                    let x = sm.sample(r, a, 4).unwrap_or_default();
                    let y = sm.sample(r, a, 4).unwrap_or_default();
                    format!("{x}{y}")
                }
            }
        };
        if s.len() <= max_len && !v.contains(&s) {
            v.push(s);
        }
    }
    v
}

/// grammar for parse workloads (always validates)
pub fn parse_grammar(r: &mut Rng) -> G {
    let mut g = plain_parse_grammar(r);
    if r.chance(12) {
        for _ in 0..r.range(1, 3) {
            look_alike(r, &mut g);
        }
    }
    g
}

/// adds an alternative that some way of writing, joining or comparing terms would take for one
/// that is already there, and productions for the names it needs
pub fn look_alike(r: &mut Rng, g: &mut G) {
    let pi = r.below(g.prods.len());
    if g.prods[pi].alts.is_empty() {
        return;
    }
    let ai = r.below(g.prods[pi].alts.len());
    let mut a = g.prods[pi].alts[ai].clone();
    let text = |x: &T| match x {
        T::T(s) | T::N(s) => s.clone(),
    };
    match r.below(5) {
        0 | 1 if a.len() > 1 => {
            // two neighbours in one term
            let i = r.below(a.len() - 1);
            let (x, y) = (a[i].clone(), a[i + 1].clone());
            let gap = *r.pick(&["", " ", "", " ", ", ", "|", "\0"]);
            let (l, m) = match (&x, &y) {
                (T::N(_), T::N(_)) => (*r.pick(&[("><", true), ("> <", true), ("", true), (gap, true)])).clone(),
                (T::T(_), T::T(_)) => (*r.pick(&[("''", false), ("' '", false), ("\"\"", false), ("\" \"", false), ("", false), (gap, false)])).clone(),
                (T::N(_), T::T(_)) => (*r.pick(&[("> '", true), (">'", true), (gap, true), (gap, false)])).clone(),
                (T::T(_), T::N(_)) => (*r.pick(&[("' <", false), ("'<", false), (gap, true), (gap, false)])).clone(),
            };
            let s = format!("{}{l}{}", text(&x), text(&y));
            a[i] = if m { T::N(s) } else { T::T(s) };
            a.remove(i + 1);
        }
        2 if !a.is_empty() => {
            // a terminal for a nonterminal, or the other way round
            let i = r.below(a.len());
            a[i] = match &a[i] {
                T::T(s) => T::N(s.clone()),
                T::N(s) => T::T((*r.pick(&[s.clone(), format!("<{s}>")])).clone()),
            };
        }
        3 if !a.is_empty() => {
            // nearly the same term
            let i = r.below(a.len());
            let s = text(&a[i]);
            let k = match r.below(6) {
                0 => s.to_uppercase(),
                1 => s.to_lowercase(),
                2 => format!("{s} "),
                3 => format!(" {s}"),
                4 => s.trim().to_string(),
                _ => s.chars().rev().collect(),
            };
            a[i] = if matches!(a[i], T::T(_)) { T::T(k) } else { T::N(k) };
        }
        _ => {
            // the same terms in another order
            r.shuffle(&mut a);
        }
    }
    let lhs: Vec<String> = g.nts();
    let mut new = vec![];
    for x in &a {
        if let T::N(s) = x {
            if !lhs.contains(s) && !new.contains(s) {
                new.push(s.clone());
            }
        }
    }
    let at = if r.chance(70) { ai + 1 } else { r.below(g.prods[pi].alts.len() + 1) };
    let alts = &mut g.prods[pi].alts;
    if !alts.contains(&a) {
        alts.insert(at, a);
    }
    for s in new {
        let v = (*r.pick(&["q", "z", "a", "é"])).to_string();
        g.prods.push(P { lhs: T::N(s), alts: vec![vec![T::T(v)]] });
    }
}

fn plain_parse_grammar(r: &mut Rng) -> G {
    match r.below(100) {
        0..=24 => {
            let mut g = classic(r);
            if r.chance(40) {
                tweak(r, &mut g);
            }
            g
        }
        25..=27 => large(r),
        _ => {
            let o = Opt::random(r);
            grammar(r, &o)
        }
    }
}

/// small random edit that keeps the grammar valid
pub fn tweak(r: &mut Rng, g: &mut G) {
    let nts = g.nts();
    let pi = r.below(g.prods.len());
    match r.below(5) {
        0 => {
            let a = vec![T::N(nts[r.below(nts.len())].clone()), t("a")];
            g.prods[pi].alts.push(a);
        }
        1 => {
            g.prods[pi].alts.push(vec![t("")]);
        }
        2 => {
            let p = g.prods[pi].clone();
            if p.alts.len() > 1 {
                let k = r.range(1, p.alts.len() - 1);
                let tail = g.prods[pi].alts.split_off(k);
                let at = r.range(pi + 1, g.prods.len());
                g.prods.insert(at, P { lhs: p.lhs, alts: tail });
            }
        }
        3 => {
            let k = g.prods[pi].alts.len();
            let a = &mut g.prods[pi].alts[r.below(k)];
            let at = r.below(a.len() + 1);
            a.insert(at, T::N(nts[r.below(nts.len())].clone()));
        }
        _ => {
            r.shuffle(&mut g.prods);
        }
    }
}
