//! Grammar text: an AST with groups and optionals, printers with random layout, and a strict
//! reference reader for both formats. Shares nothing with the crate's own reader.
use crate::model::*;
use crate::rng::Rng;
use std::collections::{HashMap, HashSet};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum ET {
    S(T),
    Group(Vec<Vec<ET>>),
    Opt(Vec<Vec<ET>>),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct EP {
    pub lhs: String,
    pub rhs: Vec<Vec<ET>>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct EG {
    pub prods: Vec<EP>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fmt {
    Bnf,
    Abnf,
    /// a notation of the user's own, see `SPECS`
    Own(usize),
}
/// name delimiters, production separator, alternative separator
pub type Spec = (Option<(char, char)>, &'static str, char);
pub const SPECS: &[Spec] = &[
    (Some(('«', '»')), "→", '¦'),
    (Some(('{', '}')), ":", ','),
    (Some(('%', '%')), ":=", '+'),
    (Some(('<', '>')), "is", 'o'),
    (Some(('<', '>')), "::=", '|'),
    (Some(('#', '.')), "=>", '/'),
    (Some(('😀', 'é')), "::=", '\\'),
    (Some(('<', '>')), "=", '/'),
    (Some(('|', '|')), "==", '*'),
    (None, "->", '|'),
    (None, ":", '\\'),
    (None, "::=", '|'),
    (None, "→", '／'),
];
impl Fmt {
    pub fn spec(self) -> Spec {
        match self {
            Fmt::Bnf => (Some(('<', '>')), "::=", '|'),
            Fmt::Abnf => (None, "=", '/'),
            Fmt::Own(i) => SPECS[i],
        }
    }
    pub fn delim(self) -> Option<(char, char)> {
        self.spec().0
    }
    pub fn sep(self) -> &'static str {
        self.spec().1
    }
    pub fn alt(self) -> char {
        self.spec().2
    }
    /// names without delimiters
    pub fn bare(self) -> bool {
        self.delim().is_none()
    }
}

impl EG {
    pub fn from_g(g: &G) -> EG {
        EG {
            prods: g
                .prods
                .iter()
                .map(|p| EP { lhs: p.name().to_string(), rhs: p.alts.iter().map(|a| a.iter().cloned().map(ET::S).collect()).collect() })
                .collect(),
        }
    }
    /// the plain grammar, if there are no groups and optionals
    pub fn plain(&self) -> Option<G> {
        let mut g = G::new();
        for p in &self.prods {
            let mut alts = vec![];
            for a in &p.rhs {
                let mut v = vec![];
                for x in a {
                    match x {
                        ET::S(t) => v.push(t.clone()),
                        _ => return None,
                    }
                }
                alts.push(v);
            }
            g.prods.push(P { lhs: T::N(p.lhs.clone()), alts });
        }
        Some(g)
    }
    /// every nonterminal name the text uses
    pub fn names(&self) -> HashSet<String> {
        fn go(e: &[Vec<ET>], s: &mut HashSet<String>) {
            for a in e {
                for x in a {
                    match x {
                        ET::S(T::N(n)) => {
                            s.insert(n.clone());
                        }
                        ET::S(_) => {}
                        ET::Group(e) | ET::Opt(e) => go(e, s),
                    }
                }
            }
        }
        let mut s = HashSet::new();
        for p in &self.prods {
            s.insert(p.lhs.clone());
            go(&p.rhs, &mut s);
        }
        s
    }
    /// number of groups and optionals
    pub fn groups(&self) -> usize {
        fn go(e: &[Vec<ET>]) -> usize {
            e.iter()
                .flatten()
                .map(|x| match x {
                    ET::S(_) => 0,
                    ET::Group(e) | ET::Opt(e) => 1 + go(e),
                })
                .sum()
        }
        self.prods.iter().map(|p| go(&p.rhs)).sum()
    }
    pub fn depth(&self) -> usize {
        fn go(e: &[Vec<ET>]) -> usize {
            e.iter()
                .flatten()
                .map(|x| match x {
                    ET::S(_) => 0,
                    ET::Group(e) | ET::Opt(e) => 1 + go(e),
                })
                .max()
                .unwrap_or(0)
        }
        self.prods.iter().map(|p| go(&p.rhs)).max().unwrap_or(0)
    }
    /// reference meaning: groups become nonterminals whose names no text can contain
    pub fn lower(&self) -> G {
        fn low(e: &[Vec<ET>], k: &mut usize, extra: &mut Vec<P>) -> Vec<Alt> {
            e.iter()
                .map(|a| {
                    a.iter()
                        .map(|x| match x {
                            ET::S(t) => t.clone(),
                            ET::Group(e) | ET::Opt(e) => {
                                *k += 1;
                                let nm = format!(">ref{k}");
                                let mut alts = low(e, k, extra);
                                if matches!(x, ET::Opt(_)) {
                                    alts.push(vec![]);
                                }
                                extra.push(P { lhs: T::N(nm.clone()), alts });
                                T::N(nm)
                            }
                        })
                        .collect()
                })
                .collect()
        }
        let mut k = 0;
        let mut extra = vec![];
        let mut g = G::new();
        for p in &self.prods {
            let alts = low(&p.rhs, &mut k, &mut extra);
            g.prods.push(P { lhs: T::N(p.lhs.clone()), alts });
        }
        g.prods.extend(extra);
        g
    }
}

/// can this name be written in the format?
pub fn name_ok(s: &str, f: Fmt) -> bool {
    match f.delim() {
        Some((_, end)) => !s.contains(end),
        None => s.chars().next().is_some_and(char::is_alphabetic) && !s.contains(|c: char| c.is_whitespace() || c == ')' || c == ']'),
    }
}
pub fn terminal_ok(s: &str) -> bool {
    !(s.contains('\'') && s.contains('"'))
}
pub fn writable(g: &G, f: Fmt) -> bool {
    !g.prods.is_empty()
        && g.prods.iter().all(|p| {
            matches!(&p.lhs, T::N(x) if name_ok(x, f))
                && !p.alts.is_empty()
                && p.alts.iter().all(|a| {
                    !a.is_empty()
                        && a.iter().all(|x| match x {
                            T::N(x) => name_ok(x, f),
                            T::T(x) => terminal_ok(x),
                        })
                })
        })
}

/// How a text is laid out.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Layout {
    Plain,
    Tight,
    Wild,
}

const WS: &[&str] = &[" ", "  ", "\t", "\n", "\r\n", "\r", "\n\n", "\n  ", " \t ", "\u{a0}", "\u{2003}", "\u{3000}", "\u{85}", "\u{2028}", "\u{b}", "\u{c}"];
const COMMENTS: &[&str] = &[
    "", " comment", " <x> ::= 'y' | 'z'", "'", "\"", " it's", "(", ")", "[", "] unbalanced", " ::=", "|", ";", " \u{1F600} é 日本", " x = y / z", "<", ">", " '(' \"[\"", "\\", " \u{85} \u{2028}", "<a> ::= (",
];

pub struct Printer<'r> {
    pub r: &'r mut Rng,
    pub layout: Layout,
    pub fmt: Fmt,
    pub out: String,
    pub comments: usize,
    pub breaks: usize,
}

impl<'r> Printer<'r> {
    pub fn new(r: &'r mut Rng, fmt: Fmt, layout: Layout) -> Self {
        Printer { r, layout, fmt, out: String::new(), comments: 0, breaks: 0 }
    }
    /// white space and comments between two tokens; `need`: at least one white space character first
    pub fn gap(&mut self, need: bool) {
        match self.layout {
            Layout::Plain => self.out.push(' '),
            Layout::Tight => {
                if need {
                    self.out.push(' ');
                }
            }
            Layout::Wild => {
                if need {
                    let w = *self.r.pick(WS);
                    self.out.push_str(w);
                }
                let k = if self.r.chance(55) { 0 } else { self.r.range(1, 3) };
                for _ in 0..k {
                    if self.r.chance(40) {
                        self.comment(false);
                    } else {
                        let w = *self.r.pick(WS);
                        if w.contains('\n') {
                            self.breaks += 1;
                        }
                        self.out.push_str(w);
                    }
                }
            }
        }
    }
    /// a ;-comment; with `last` it may run to the end of the text
    pub fn comment(&mut self, last: bool) {
        self.comments += 1;
        self.out.push(';');
        let c = *self.r.pick(COMMENTS);
        self.out.push_str(c);
        if !last {
            let e = *self.r.pick(&["\n", "\r\n", "\r", "\n\n"]);
            self.out.push_str(e);
        }
    }
    pub fn terminal(&mut self, s: &str) {
        let q = if s.contains('\'') {
            '"'
        } else if s.contains('"') || self.r.chance(50) {
            '\''
        } else {
            '"'
        };
        self.out.push(q);
        self.out.push_str(s);
        self.out.push(q);
    }
    pub fn name(&mut self, s: &str) {
        match self.fmt.delim() {
            Some((a, b)) => {
                self.out.push(a);
                self.out.push_str(s);
                self.out.push(b);
            }
            None => self.out.push_str(s),
        }
    }
    fn rhs(&mut self, alts: &[Vec<ET>], closing: Option<char>) {
        for (i, a) in alts.iter().enumerate() {
            if i > 0 {
                self.out.push(self.fmt.alt());
                self.gap(false);
            }
            for (k, x) in a.iter().enumerate() {
                let last = k + 1 == a.len();
                match x {
                    ET::S(T::T(s)) => {
                        self.terminal(s);
                        self.gap(false);
                    }
                    ET::S(T::N(s)) => {
                        self.name(s);
                        // a bare name is ended by white space or a closing bracket
                        let closed = last && i + 1 == alts.len() && closing.is_some();
                        if self.fmt.bare() && closed && self.r.chance(50) {
                            // the bracket follows directly
                        } else {
                            self.gap(self.fmt.bare());
                        }
                    }
                    ET::Group(e) | ET::Opt(e) => {
                        let (o, c) = if matches!(x, ET::Group(_)) { ('(', ')') } else { ('[', ']') };
                        self.out.push(o);
                        self.gap(false);
                        self.rhs(e, Some(c));
                        self.out.push(c);
                        self.gap(false);
                    }
                }
            }
        }
    }
    pub fn production(&mut self, p: &EP) {
        self.name(&p.lhs);
        self.gap(self.fmt.bare());
        self.out.push_str(self.fmt.sep());
        if self.layout == Layout::Wild && self.r.chance(8) {
            let a = self.fmt.alt();
            self.out.push(a);
        }
        self.gap(false);
        self.rhs(&p.rhs, None);
    }
    pub fn grammar(mut self, g: &EG) -> (String, usize, usize) {
        if self.layout == Layout::Wild {
            self.gap(false);
        }
        for (i, p) in g.prods.iter().enumerate() {
            if i > 0 {
                match self.layout {
                    Layout::Plain => self.out.push('\n'),
                    Layout::Tight => {}
                    Layout::Wild => self.gap(false),
                }
            }
            self.production(p);
        }
        if self.layout == Layout::Wild && self.r.chance(25) {
            let l = self.r.chance(60);
            self.comment(l);
        }
        (self.out, self.comments, self.breaks)
    }
}

// ===== reference reader =====

pub struct Reader<'a> {
    s: &'a str,
    p: usize,
    f: Fmt,
}
type R<X> = Result<X, ()>;

impl<'a> Reader<'a> {
    pub fn new(s: &'a str, f: Fmt) -> Self {
        Reader { s, p: 0, f }
    }
    fn rest(&self) -> &'a str {
        &self.s[self.p..]
    }
    fn peek(&self) -> Option<char> {
        self.rest().chars().next()
    }
    fn eat(&mut self, c: char) -> bool {
        if self.peek() == Some(c) {
            self.p += c.len_utf8();
            true
        } else {
            false
        }
    }
    fn eat_str(&mut self, t: &str) -> bool {
        if self.rest().starts_with(t) {
            self.p += t.len();
            true
        } else {
            false
        }
    }
    fn skip(&mut self) {
        while let Some(c) = self.peek() {
            if c.is_whitespace() {
                self.p += c.len_utf8();
            } else if c == ';' {
                while let Some(c) = self.peek() {
                    if c == '\n' || c == '\r' {
                        break;
                    }
                    self.p += c.len_utf8();
                }
            } else {
                break;
            }
        }
    }
    fn quoted(&mut self) -> R<Option<String>> {
        for q in ['"', '\''] {
            if self.peek() == Some(q) {
                let r = &self.rest()[1..];
                let e = r.find(q).ok_or(())?;
                let t = r[..e].to_string();
                self.p += e + 2;
                return Ok(Some(t));
            }
        }
        Ok(None)
    }
    fn name(&mut self) -> R<Option<String>> {
        match self.f.delim() {
            Some((a, b)) => {
                if self.peek() != Some(a) {
                    return Ok(None);
                }
                let r = &self.rest()[a.len_utf8()..];
                let e = r.find(b).ok_or(())?;
                let t = r[..e].to_string();
                self.p += a.len_utf8() + e + b.len_utf8();
                Ok(Some(t))
            }
            None => {
                if !self.peek().is_some_and(char::is_alphabetic) {
                    return Ok(None);
                }
                let r = self.rest();
                let e = r.find(|c: char| c.is_whitespace() || c == ')' || c == ']').unwrap_or(r.len());
                self.p += e;
                Ok(Some(r[..e].to_string()))
            }
        }
    }
    /// one term and the gap after it; None: no term starts here
    fn term(&mut self, groups: bool) -> R<Option<ET>> {
        let x = if let Some(s) = self.quoted()? {
            ET::S(T::T(s))
        } else if let Some(s) = self.name()? {
            ET::S(T::N(s))
        } else if groups && self.eat('(') {
            ET::Group(self.group(')')?)
        } else if groups && self.eat('[') {
            ET::Opt(self.group(']')?)
        } else {
            return Ok(None);
        };
        self.skip();
        Ok(Some(x))
    }
    fn group(&mut self, close: char) -> R<Vec<Vec<ET>>> {
        self.skip();
        let e = self.alternatives(true)?;
        if self.eat(close) { Ok(e) } else { Err(()) }
    }
    fn sequence(&mut self, groups: bool) -> R<Vec<ET>> {
        let mut v = vec![];
        loop {
            let at = self.p;
            // a name that starts the next production ends the sequence; malformed terms are errors
            // wherever they stand, since nothing else can start with them
            match self.term(groups)? {
                None => break,
                Some(x) => {
                    if self.rest().starts_with(self.f.sep()) {
                        self.p = at;
                        break;
                    }
                    v.push(x);
                }
            }
        }
        if v.is_empty() { Err(()) } else { Ok(v) }
    }
    fn alternatives(&mut self, groups: bool) -> R<Vec<Vec<ET>>> {
        let mut v = vec![self.sequence(groups)?];
        while self.eat(self.f.alt()) {
            self.skip();
            v.push(self.sequence(groups)?);
        }
        Ok(v)
    }
    fn production(&mut self, groups: bool) -> R<EP> {
        let lhs = self.name()?.ok_or(())?;
        self.skip();
        if !self.eat_str(self.f.sep()) {
            return Err(());
        }
        self.eat(self.f.alt());
        self.skip();
        let rhs = self.alternatives(groups)?;
        Ok(EP { lhs, rhs })
    }
    pub fn read_grammar(mut self) -> Option<EG> {
        self.skip();
        let mut g = EG::default();
        loop {
            g.prods.push(self.production(true).ok()?);
            self.skip();
            if self.p == self.s.len() {
                return Some(g);
            }
        }
    }
    pub fn read_production(mut self) -> Option<P> {
        let p = self.production(false).ok()?;
        if self.p != self.s.len() {
            return None;
        }
        EG { prods: vec![p] }.plain().map(|mut g| g.prods.remove(0))
    }
    pub fn read_expression(mut self) -> Option<Alt> {
        let v = self.sequence(false).ok()?;
        if self.p != self.s.len() {
            return None;
        }
        v.into_iter().map(|x| if let ET::S(t) = x { Some(t) } else { None }).collect()
    }
    pub fn read_term(mut self) -> Option<T> {
        let x = self.term(false).ok()??;
        if self.p != self.s.len() {
            return None;
        }
        if let ET::S(t) = x { Some(t) } else { None }
    }
}

/// what text without a named format is read as
pub fn detect(s: &str) -> Fmt {
    let mut r = Reader::new(s, Fmt::Bnf);
    r.skip();
    if r.peek() == Some('<') { Fmt::Bnf } else { Fmt::Abnf }
}

/// Is `g` the grammar `e` with each group and optional replaced by its own invented
/// nonterminal? Err says where it is not (which need not mean the languages differ).
pub fn isomorphic(e: &EG, g: &G) -> Result<(), String> {
    let user = e.names();
    let k = e.prods.len();
    if g.prods.len() != k + e.groups() {
        return Err(format!("{} productions for {k} written ones and {} groups", g.prods.len(), e.groups()));
    }
    let mut def: HashMap<&str, &P> = HashMap::new();
    for p in &g.prods[k..] {
        let nm = p.name();
        if user.contains(nm) || !matches!(p.lhs, T::N(_)) || def.insert(nm, p).is_some() {
            return Err(format!("invented production {nm:?} clashes"));
        }
    }
    let mut used: HashSet<String> = HashSet::new();
    fn go(e: &[Vec<ET>], a: &[Alt], def: &HashMap<&str, &P>, used: &mut HashSet<String>) -> Result<(), String> {
        if e.len() != a.len() {
            return Err(format!("{} alternatives written, {} found", e.len(), a.len()));
        }
        for (x, y) in e.iter().zip(a) {
            if x.len() != y.len() {
                return Err(format!("{} terms written, {} found", x.len(), y.len()));
            }
            for (s, t) in x.iter().zip(y) {
                match s {
                    ET::S(s) => {
                        if s != t {
                            return Err(format!("{} written, {} found", show_t(s), show_t(t)));
                        }
                    }
                    ET::Group(e) | ET::Opt(e) => {
                        let T::N(nm) = t else { return Err(format!("{} found for a group", show_t(t))) };
                        let Some(p) = def.get(nm.as_str()) else { return Err(format!("<{nm}> found for a group")) };
                        if !used.insert(nm.clone()) {
                            return Err(format!("<{nm}> used for two groups"));
                        }
                        let opt = matches!(s, ET::Opt(_));
                        let mut alts = p.alts.clone();
                        if opt {
                            match alts.iter().rposition(|a| a.iter().all(|x| *x == T::T(String::new()))) {
                                Some(i) => {
                                    alts.remove(i);
                                }
                                None => return Err("optional without an empty alternative".into()),
                            }
                        }
                        go(e, &alts, def, used)?;
                    }
                }
            }
        }
        Ok(())
    }
    for (p, q) in e.prods.iter().zip(&g.prods) {
        if q.lhs != T::N(p.lhs.clone()) {
            return Err(format!("production <{}> written, {} found", p.lhs, show_t(&q.lhs)));
        }
        go(&p.rhs, &q.alts, &def, &mut used)?;
    }
    Ok(())
}
