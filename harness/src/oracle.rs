//! Reference semantics of a grammar: membership, prediction, cycles, derivation counts
//! and enumeration. Works on byte positions and shares nothing with the crate.
use crate::model::*;
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub enum Sym {
    T(Vec<u8>),
    N(usize),
}

#[derive(Clone, Debug)]
pub struct Rule {
    pub lhs: usize,
    pub rhs: Vec<Sym>,
    /// (production index, alternative index) in the model grammar
    pub origin: (usize, usize),
}

/// What a nonterminal without productions means.
#[derive(Clone, Copy, PartialEq)]
pub enum Undef {
    Nothing,
    /// stands for its name in angle brackets (generation)
    Printed,
}

#[derive(Clone, Debug)]
pub struct CG {
    pub names: Vec<String>,
    pub idx: HashMap<String, usize>,
    pub rules: Vec<Rule>,
    pub by: Vec<Vec<usize>>,
}

impl CG {
    pub fn new(g: &G, undef: Undef) -> CG {
        let mut names = vec![];
        let mut idx = HashMap::new();
        let mut defined = vec![];
        let get = |s: &str, names: &mut Vec<String>, idx: &mut HashMap<String, usize>, defined: &mut Vec<bool>| -> usize {
            if let Some(&i) = idx.get(s) {
                return i;
            }
            let i = names.len();
            names.push(s.to_string());
            idx.insert(s.to_string(), i);
            defined.push(false);
            i
        };
        let mut rules = vec![];
        for (pi, p) in g.prods.iter().enumerate() {
            let T::N(l) = &p.lhs else { continue };
            let l = get(l, &mut names, &mut idx, &mut defined);
            defined[l] = true;
            for (ai, a) in p.alts.iter().enumerate() {
                let rhs = a
                    .iter()
                    .map(|x| match x {
                        T::T(s) => Sym::T(s.as_bytes().to_vec()),
                        T::N(s) => Sym::N(get(s, &mut names, &mut idx, &mut defined)),
                    })
                    .collect();
                rules.push(Rule { lhs: l, rhs, origin: (pi, ai) });
            }
        }
        if undef == Undef::Printed {
            for i in 0..names.len() {
                if !defined[i] {
                    rules.push(Rule {
                        lhs: i,
                        rhs: vec![Sym::T(format!("<{}>", names[i]).into_bytes())],
                        origin: (usize::MAX, 0),
                    });
                }
            }
        }
        let mut by = vec![vec![]; names.len()];
        for (i, r) in rules.iter().enumerate() {
            by[r.lhs].push(i);
        }
        CG { names, idx, rules, by }
    }

    /// nonterminals that derive some terminal string
    pub fn productive(&self) -> Vec<bool> {
        let mut p = vec![false; self.names.len()];
        loop {
            let mut ch = false;
            for r in &self.rules {
                if !p[r.lhs] && r.rhs.iter().all(|s| match s { Sym::T(_) => true, Sym::N(x) => p[*x] }) {
                    p[r.lhs] = true;
                    ch = true;
                }
            }
            if !ch {
                return p;
            }
        }
    }

    /// least derivation height per nonterminal (usize::MAX if unproductive)
    pub fn heights(&self) -> Vec<usize> {
        let mut h = vec![usize::MAX; self.names.len()];
        loop {
            let mut ch = false;
            for r in &self.rules {
                let m = self.rule_height(r, &h);
                if m < h[r.lhs] {
                    h[r.lhs] = m;
                    ch = true;
                }
            }
            if !ch {
                return h;
            }
        }
    }
    pub fn rule_height(&self, r: &Rule, h: &[usize]) -> usize {
        let mut m = 0usize;
        for s in &r.rhs {
            if let Sym::N(x) = s {
                m = m.max(h[*x]);
            }
        }
        m.saturating_add(1)
    }

    /// nonterminals reachable from a
    pub fn reachable(&self, a: usize) -> Vec<bool> {
        let mut seen = vec![false; self.names.len()];
        let mut st = vec![a];
        seen[a] = true;
        while let Some(x) = st.pop() {
            for &r in &self.by[x] {
                for s in &self.rules[r].rhs {
                    if let Sym::N(y) = s
                        && !seen[*y]
                    {
                        seen[*y] = true;
                        st.push(*y);
                    }
                }
            }
        }
        seen
    }
}

#[derive(Clone)]
pub struct Bits(Vec<u64>);
impl Bits {
    pub fn new(n: usize) -> Bits {
        Bits(vec![0; n / 64 + 1])
    }
    pub fn get(&self, i: usize) -> bool {
        self.0[i >> 6] >> (i & 63) & 1 == 1
    }
    pub fn set(&mut self, i: usize) {
        self.0[i >> 6] |= 1 << (i & 63);
    }
    pub fn or(&mut self, o: &Bits) -> bool {
        let mut ch = false;
        for (a, b) in self.0.iter_mut().zip(&o.0) {
            let x = *a | *b;
            ch |= x != *a;
            *a = x;
        }
        ch
    }
    pub fn clear(&mut self) {
        self.0.iter_mut().for_each(|x| *x = 0);
    }
    pub fn any(&self) -> bool {
        self.0.iter().any(|x| *x != 0)
    }
    pub fn iter(&self) -> impl Iterator<Item = usize> + '_ {
        self.0.iter().enumerate().flat_map(|(w, &x)| {
            let mut x = x;
            std::iter::from_fn(move || {
                if x == 0 {
                    None
                } else {
                    let b = x.trailing_zeros() as usize;
                    x &= x - 1;
                    Some(w * 64 + b)
                }
            })
        })
    }
}

/// ends[i][a]: all j such that nonterminal a derives input[i..j]
pub struct Spans<'a> {
    pub cg: &'a CG,
    pub input: &'a [u8],
    pub ends: Vec<Vec<Bits>>,
}

impl<'a> Spans<'a> {
    pub fn new(cg: &'a CG, input: &'a [u8]) -> Spans<'a> {
        let len = input.len();
        let k = cg.names.len();
        let mut ends: Vec<Vec<Bits>> = (0..=len).map(|_| vec![Bits::new(len); k]).collect();
        let mut cur = Bits::new(len);
        let mut nxt = Bits::new(len);
        for i in (0..=len).rev() {
            loop {
                let mut ch = false;
                for r in &cg.rules {
                    cur.clear();
                    cur.set(i);
                    for s in &r.rhs {
                        nxt.clear();
                        match s {
                            Sym::T(t) => {
                                for p in cur.iter() {
                                    if input[p..].starts_with(t) {
                                        nxt.set(p + t.len());
                                    }
                                }
                            }
                            Sym::N(x) => {
                                for p in cur.iter() {
                                    nxt.or(&ends[p][*x]);
                                }
                            }
                        }
                        std::mem::swap(&mut cur, &mut nxt);
                        if !cur.any() {
                            break;
                        }
                    }
                    if cur.any() {
                        ch |= ends[i][r.lhs].or(&cur);
                    }
                }
                if !ch {
                    break;
                }
            }
        }
        Spans { cg, input, ends }
    }

    pub fn derives(&self, a: usize, i: usize, j: usize) -> bool {
        self.ends[i][a].get(j)
    }
    pub fn accepts(&self, a: usize) -> bool {
        self.derives(a, 0, self.input.len())
    }

    /// predicted[i][a]: an Earley parser started at `start` would try a at i
    pub fn predicted(&self, start: usize) -> Vec<Vec<bool>> {
        let len = self.input.len();
        let mut pr = vec![vec![false; self.cg.names.len()]; len + 1];
        let mut st = vec![(0usize, start)];
        pr[0][start] = true;
        while let Some((i, a)) = st.pop() {
            for &ri in &self.cg.by[a] {
                let mut cur = Bits::new(len);
                cur.set(i);
                for s in &self.cg.rules[ri].rhs {
                    let mut nxt = Bits::new(len);
                    match s {
                        Sym::T(t) => {
                            for p in cur.iter() {
                                if self.input[p..].starts_with(t) {
                                    nxt.set(p + t.len());
                                }
                            }
                        }
                        Sym::N(x) => {
                            for p in cur.iter() {
                                if !pr[p][*x] {
                                    pr[p][*x] = true;
                                    st.push((p, *x));
                                }
                                nxt.or(&self.ends[p][*x]);
                            }
                        }
                    }
                    cur = nxt;
                    if !cur.any() {
                        break;
                    }
                }
            }
        }
        pr
    }

    /// symbols a rule matches from i to j: positions before each symbol, for completed rules
    fn nullable(&self) -> Vec<bool> {
        // derives the empty string at the end of the input: position independent
        let e = self.input.len();
        (0..self.cg.names.len()).map(|a| self.ends[e][a].get(e)).collect()
    }

    /// For every span (i,j): which nonterminals (among those allowed) lie on or lead into a
    /// same-span cycle. Returns the set of (a,i,j) from which infinitely many trees exist through
    /// same-span cycles only ("directly cyclic").
    fn unit_edges(&self, i: usize, j: usize, nullable: &[bool]) -> Vec<(usize, usize)> {
        let mut e = vec![];
        for r in &self.cg.rules {
            if !self.derives(r.lhs, i, j) {
                continue;
            }
            // B at position k over (i,j) with all others empty
            let empty = |s: &Sym| match s {
                Sym::T(t) => t.is_empty(),
                Sym::N(x) => nullable[*x],
            };
            for (k, s) in r.rhs.iter().enumerate() {
                if let Sym::N(b) = s
                    && self.derives(*b, i, j)
                    && r.rhs.iter().enumerate().all(|(l, s)| l == k || empty(s))
                {
                    e.push((r.lhs, *b));
                }
            }
        }
        e
    }

    /// set of cyclic nodes per span: nodes lying on a cycle of the same-span graph
    pub fn cyclic_nodes(&self) -> Vec<(usize, usize, usize)> {
        let len = self.input.len();
        let nullable = self.nullable();
        let mut out = vec![];
        let k = self.cg.names.len();
        for i in 0..=len {
            for j in i..=len {
                let e = self.unit_edges(i, j, &nullable);
                if e.is_empty() {
                    continue;
                }
                // transitive closure on small graph
                let mut reach = vec![vec![false; k]; k];
                for &(a, b) in &e {
                    reach[a][b] = true;
                }
                for m in 0..k {
                    for a in 0..k {
                        if reach[a][m] {
                            for b in 0..k {
                                if reach[m][b] {
                                    reach[a][b] = true;
                                }
                            }
                        }
                    }
                }
                for a in 0..k {
                    if reach[a][a] {
                        out.push((a, i, j));
                    }
                }
            }
        }
        out
    }

    /// Parse-relevant classification for a start symbol.
    pub fn classify(&self, start: usize) -> Class {
        let cyc = self.cyclic_nodes();
        let pr = self.predicted(start);
        let predicted_cycle = cyc.iter().any(|&(a, i, _)| pr[i][a]);
        // infinitely many trees for the whole input iff a cyclic node is used in some derivation of it
        let infinite = if predicted_cycle && self.accepts(start) {
            let used = self.used_nodes(start);
            cyc.iter().any(|c| used.contains(c))
        } else {
            false
        };
        Class { accept: self.accepts(start), predicted_cycle, infinite }
    }

    /// nodes (a,i,j) used by some derivation of the whole input
    pub fn used_nodes(&self, start: usize) -> std::collections::HashSet<(usize, usize, usize)> {
        let mut seen = std::collections::HashSet::new();
        let len = self.input.len();
        if !self.accepts(start) {
            return seen;
        }
        let mut st = vec![(start, 0usize, len)];
        seen.insert(st[0]);
        while let Some((a, i, j)) = st.pop() {
            for &ri in &self.cg.by[a] {
                let rhs = &self.cg.rules[ri].rhs;
                // forward sets
                let mut fw = vec![Bits::new(len); rhs.len() + 1];
                fw[0].set(i);
                for (k, s) in rhs.iter().enumerate() {
                    let mut nx = Bits::new(len);
                    for p in fw[k].iter() {
                        match s {
                            Sym::T(t) => {
                                if self.input[p..].starts_with(t) {
                                    nx.set(p + t.len());
                                }
                            }
                            Sym::N(x) => {
                                nx.or(&self.ends[p][*x]);
                            }
                        }
                    }
                    fw[k + 1] = nx;
                }
                if !fw[rhs.len()].get(j) {
                    continue;
                }
                // backward
                let mut bw = Bits::new(len);
                bw.set(j);
                for k in (0..rhs.len()).rev() {
                    let mut nb = Bits::new(len);
                    for p in fw[k].iter() {
                        match &rhs[k] {
                            Sym::T(t) => {
                                if self.input[p..].starts_with(t) && bw.get(p + t.len()) {
                                    nb.set(p);
                                }
                            }
                            Sym::N(x) => {
                                for q in self.ends[p][*x].iter() {
                                    if bw.get(q) {
                                        nb.set(p);
                                        if seen.insert((*x, p, q)) {
                                            st.push((*x, p, q));
                                        }
                                    }
                                }
                            }
                        }
                    }
                    bw = nb;
                }
            }
        }
        seen
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Class {
    pub accept: bool,
    /// some completed, predicted node is cyclic: the traversal space is infinite
    pub predicted_cycle: bool,
    /// infinitely many trees of the whole input
    pub infinite: bool,
}

/// Derivation counting (only when the number of derivations is finite).
pub struct Counter<'a, 's> {
    pub s: &'s Spans<'a>,
    memo: HashMap<(usize, usize, usize), f64>,
}

impl<'a, 's> Counter<'a, 's> {
    pub fn new(s: &'s Spans<'a>) -> Self {
        Counter { s, memo: HashMap::new() }
    }
    pub fn trees(&mut self, a: usize, i: usize, j: usize) -> f64 {
        if !self.s.derives(a, i, j) {
            return 0.0;
        }
        if let Some(&v) = self.memo.get(&(a, i, j)) {
            return v;
        }
        let mut tot = 0.0;
        for ri in self.s.cg.by[a].clone() {
            tot += self.rule_ways(ri, i, j);
        }
        self.memo.insert((a, i, j), tot);
        tot
    }
    /// derivations by one rule of exactly (i,j); only splits that can be finished are followed
    fn rule_ways(&mut self, ri: usize, i: usize, j: usize) -> f64 {
        let rhs = self.s.cg.rules[ri].rhs.clone();
        let mut ways: std::collections::BTreeMap<usize, f64> = Default::default();
        ways.insert(i, 1.0);
        for (k, sym) in rhs.iter().enumerate() {
            let mut nx: std::collections::BTreeMap<usize, f64> = Default::default();
            for (&p, &c) in &ways {
                match sym {
                    Sym::T(t) => {
                        if self.s.input[p..].starts_with(t) {
                            *nx.entry(p + t.len()).or_default() += c;
                        }
                    }
                    Sym::N(x) => {
                        let ends: Vec<usize> = self.s.ends[p][*x].iter().collect();
                        for q in ends {
                            if q > j || !suffix_ok(self.s, &rhs[k + 1..], q, j) {
                                continue;
                            }
                            *nx.entry(q).or_default() += c * self.trees(*x, p, q);
                        }
                    }
                }
            }
            ways = nx;
        }
        ways.get(&j).copied().unwrap_or(0.0)
    }
}

/// A derivation tree in canonical form.
#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Tree {
    Leaf(String),
    Node(String, Vec<Tree>),
}

impl Tree {
    pub fn size(&self) -> usize {
        match self {
            Tree::Leaf(_) => 1,
            Tree::Node(_, c) => 1 + c.iter().map(Tree::size).sum::<usize>(),
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            Tree::Leaf(_) => 0,
            Tree::Node(_, c) => 1 + c.iter().map(Tree::depth).max().unwrap_or(0),
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        fn go(t: &Tree, s: &mut String) {
            match t {
                Tree::Leaf(x) => s.push_str(x),
                Tree::Node(_, c) => c.iter().for_each(|c| go(c, s)),
            }
        }
        go(self, &mut s);
        s
    }
}

pub fn tree_from(p: &bnf::ParseTree<'_>) -> Tree {
    let name = match p.lhs {
        bnf::Term::Nonterminal(s) => s.clone(),
        bnf::Term::Terminal(s) => format!("(terminal){s}"),
    };
    Tree::Node(
        name,
        p.rhs_iter()
            .map(|c| match c {
                bnf::ParseTreeNode::Terminal(s) => Tree::Leaf(s.to_string()),
                bnf::ParseTreeNode::Nonterminal(t) => tree_from(t),
            })
            .collect(),
    )
}

/// all trees of a over (i,j); caller guarantees finiteness and a small count
pub fn enumerate(s: &Spans, a: usize, i: usize, j: usize, memo: &mut HashMap<(usize, usize, usize), Vec<Tree>>) -> Vec<Tree> {
    if !s.derives(a, i, j) {
        return vec![];
    }
    if let Some(v) = memo.get(&(a, i, j)) {
        return v.clone();
    }
    let mut out = vec![];
    for &ri in &s.cg.by[a] {
        let rhs = &s.cg.rules[ri].rhs;
        let mut part: Vec<(usize, Vec<Tree>)> = vec![(i, vec![])];
        for (k, sym) in rhs.iter().enumerate() {
            let mut nx = vec![];
            for (p, kids) in part {
                match sym {
                    Sym::T(t) => {
                        if s.input[p..].starts_with(t) {
                            let mut kk = kids;
                            kk.push(Tree::Leaf(String::from_utf8(t.clone()).unwrap()));
                            nx.push((p + t.len(), kk));
                        }
                    }
                    Sym::N(x) => {
                        for q in s.ends[p][*x].iter() {
                            if q > j || !suffix_ok(s, &rhs[k + 1..], q, j) {
                                continue;
                            }
                            for tr in enumerate(s, *x, p, q, memo) {
                                let mut kk = kids.clone();
                                kk.push(tr);
                                nx.push((q, kk));
                            }
                        }
                    }
                }
            }
            part = nx;
        }
        for (p, kids) in part {
            if p == j {
                out.push(Tree::Node(s.cg.names[a].clone(), kids));
            }
        }
    }
    memo.insert((a, i, j), out.clone());
    out
}

fn suffix_ok(s: &Spans, rest: &[Sym], q: usize, j: usize) -> bool {
    let mut cur = Bits::new(s.input.len());
    cur.set(q);
    for sym in rest {
        let mut nx = Bits::new(s.input.len());
        for p in cur.iter() {
            match sym {
                Sym::T(t) => {
                    if s.input[p..].starts_with(t) {
                        nx.set(p + t.len());
                    }
                }
                Sym::N(x) => {
                    nx.or(&s.ends[p][*x]);
                }
            }
        }
        cur = nx;
    }
    cur.get(j)
}

/// all trees of a over (i,j) with at most `max` nodes (works for cyclic grammars), capped
pub fn enumerate_bounded(s: &Spans, a: usize, i: usize, j: usize, max: usize, cap: usize) -> Vec<Tree> {
    if max == 0 || !s.derives(a, i, j) {
        return vec![];
    }
    let mut out = vec![];
    for &ri in &s.cg.by[a] {
        let rhs = &s.cg.rules[ri].rhs;
        // (pos, kids, used)
        let mut part: Vec<(usize, Vec<Tree>, usize)> = vec![(i, vec![], 1)];
        for (k, sym) in rhs.iter().enumerate() {
            let remaining = rhs.len() - k - 1;
            let mut nx = vec![];
            for (p, kids, used) in part {
                match sym {
                    Sym::T(t) => {
                        if s.input[p..].starts_with(t) && used + 1 + remaining <= max {
                            let mut kk = kids;
                            kk.push(Tree::Leaf(String::from_utf8(t.clone()).unwrap()));
                            nx.push((p + t.len(), kk, used + 1));
                        }
                    }
                    Sym::N(x) => {
                        let budget = max.saturating_sub(used + remaining);
                        if budget == 0 {
                            continue;
                        }
                        for q in s.ends[p][*x].iter() {
                            if q > j || !suffix_ok(s, &rhs[k + 1..], q, j) {
                                continue;
                            }
                            for tr in enumerate_bounded(s, *x, p, q, budget, cap) {
                                let mut kk = kids.clone();
                                let sz = tr.size();
                                kk.push(tr);
                                nx.push((q, kk, used + sz));
                                if nx.len() > cap {
                                    return out;
                                }
                            }
                        }
                    }
                }
            }
            part = nx;
        }
        for (p, kids, _) in part {
            if p == j {
                out.push(Tree::Node(s.cg.names[a].clone(), kids));
                if out.len() > cap {
                    return out;
                }
            }
        }
    }
    out
}

/// Is `tree` a derivation by the grammar rooted at `start`? Err explains.
pub fn check_tree(g: &G, start: &str, tree: &Tree, input: &str) -> Result<(), String> {
    let Tree::Node(root, _) = tree else { return Err("root is a leaf".into()) };
    if root != start {
        return Err(format!("root is <{root}>, requested <{start}>"));
    }
    let text = tree.text();
    if text != input {
        return Err(format!("leaves spell {text:?}, input is {input:?}"));
    }
    // iterative to allow deep trees
    let mut st = vec![tree];
    while let Some(t) = st.pop() {
        if let Tree::Node(name, kids) = t {
            let shape: Vec<T> = kids
                .iter()
                .map(|k| match k {
                    Tree::Leaf(s) => T::T(s.clone()),
                    Tree::Node(nm, _) => T::N(nm.clone()),
                })
                .collect();
            if !g.prods.iter().any(|p| matches!(&p.lhs, T::N(x) if x == name) && p.alts.iter().any(|a| *a == shape)) {
                return Err(format!("node <{name}> expands to {:?}, which is no alternative of it", shape.iter().map(show_t).collect::<Vec<_>>()));
            }
            st.extend(kids.iter());
        }
    }
    Ok(())
}

/// Generation-wise count of the partial derivations ("items") a breadth-first tree-building
/// chart parser creates: an item of generation k+1 extends one of generation <= k by a terminal
/// or by a completed item of generation <= k. Works for cyclic grammars too.
pub struct Levels {
    /// cumulative number of items per generation
    pub items: Vec<f64>,
    /// cumulative number of complete derivations of the whole input per generation
    pub accepted: Vec<f64>,
    pub converged: bool,
}

pub fn levels(s: &Spans, start: usize, max_levels: usize, max_items: f64) -> Levels {
    let len = s.input.len();
    let cg = s.cg;
    // cnt[(rule,i)] -> per dot, per position cumulative counts
    let mut cnt: HashMap<(usize, usize), Vec<Vec<f64>>> = HashMap::new();
    let mut pred: std::collections::HashSet<(usize, usize)> = Default::default();
    let mut out = Levels { items: vec![], accepted: vec![], converged: false };
    let add_pred = |cnt: &mut HashMap<(usize, usize), Vec<Vec<f64>>>, a: usize, i: usize| {
        for &ri in &cg.by[a] {
            let mut v = vec![vec![0.0; len + 1]; cg.rules[ri].rhs.len() + 1];
            v[0][i] = 1.0;
            cnt.insert((ri, i), v);
        }
    };
    pred.insert((start, 0));
    add_pred(&mut cnt, start, 0);
    // completed[(a,i)] -> per end cumulative counts
    let complete = |cnt: &HashMap<(usize, usize), Vec<Vec<f64>>>| -> HashMap<(usize, usize), Vec<f64>> {
        let mut m: HashMap<(usize, usize), Vec<f64>> = HashMap::new();
        for ((ri, i), v) in cnt {
            let last = &v[v.len() - 1];
            let e = m.entry((cg.rules[*ri].lhs, *i)).or_insert_with(|| vec![0.0; len + 1]);
            for (x, y) in e.iter_mut().zip(last) {
                *x += *y;
            }
        }
        m
    };
    let mut prev_total = -1.0;
    for _ in 0..max_levels {
        let comp = complete(&cnt);
        let total: f64 = cnt.values().flat_map(|v| v.iter().flat_map(|d| d.iter())).sum();
        let acc = comp.get(&(start, 0)).map_or(0.0, |v| v[len]);
        out.items.push(total);
        out.accepted.push(acc);
        if total == prev_total {
            out.converged = true;
            return out;
        }
        prev_total = total;
        if total > max_items {
            return out;
        }
        let mut new_pred = vec![];
        let mut next: HashMap<(usize, usize), Vec<Vec<f64>>> = HashMap::with_capacity(cnt.len());
        for ((ri, i), v) in &cnt {
            let rhs = &cg.rules[*ri].rhs;
            let mut w = vec![vec![0.0; len + 1]; rhs.len() + 1];
            w[0] = v[0].clone();
            for (k, sym) in rhs.iter().enumerate() {
                for p in *i..=len {
                    let c = v[k][p];
                    if c == 0.0 {
                        continue;
                    }
                    match sym {
                        Sym::T(t) => {
                            if s.input[p..].starts_with(t) {
                                w[k + 1][p + t.len()] += c;
                            }
                        }
                        Sym::N(x) => {
                            if pred.insert((*x, p)) {
                                new_pred.push((*x, p));
                            }
                            if let Some(e) = comp.get(&(*x, p)) {
                                for q in p..=len {
                                    if e[q] > 0.0 {
                                        w[k + 1][q] += c * e[q];
                                    }
                                }
                            }
                        }
                    }
                }
            }
            next.insert((*ri, *i), w);
        }
        for (a, i) in new_pred {
            add_pred(&mut next, a, i);
        }
        cnt = next;
    }
    out
}
