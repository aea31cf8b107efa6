//! The abstract grammar the oracles work on, independent of the crate's own types.
use bnf::{Expression, Grammar, Production, Term};
use std::fmt::Write;

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
pub enum T {
    T(String),
    N(String),
}
pub type Alt = Vec<T>;

#[derive(Clone, PartialEq, Eq, Hash, Debug, serde::Serialize, serde::Deserialize)]
pub struct P {
    pub lhs: T,
    pub alts: Vec<Alt>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default, serde::Serialize, serde::Deserialize)]
pub struct G {
    pub prods: Vec<P>,
}

pub fn t(s: &str) -> T {
    T::T(s.to_string())
}
pub fn n(s: &str) -> T {
    T::N(s.to_string())
}

pub fn term_to(t: &T) -> Term {
    match t {
        T::T(s) => Term::Terminal(s.clone()),
        T::N(s) => Term::Nonterminal(s.clone()),
    }
}
pub fn term_from(t: &Term) -> T {
    match t {
        Term::Terminal(s) => T::T(s.clone()),
        Term::Nonterminal(s) => T::N(s.clone()),
    }
}
pub fn alt_to(a: &[T]) -> Expression {
    Expression::from_parts(a.iter().map(term_to).collect())
}
pub fn alt_from(e: &Expression) -> Alt {
    e.terms_iter().map(term_from).collect()
}
pub fn prod_to(p: &P) -> Production {
    Production::from_parts(term_to(&p.lhs), p.alts.iter().map(|a| alt_to(a)).collect())
}
pub fn prod_from(p: &Production) -> P {
    P {
        lhs: term_from(&p.lhs),
        alts: p.rhs_iter().map(alt_from).collect(),
    }
}

impl P {
    pub fn name(&self) -> &str {
        match &self.lhs {
            T::T(s) | T::N(s) => s,
        }
    }
}

impl G {
    pub fn new() -> G {
        G { prods: vec![] }
    }
    pub fn to_bnf(&self) -> Grammar {
        Grammar::from_parts(self.prods.iter().map(prod_to).collect())
    }
    pub fn from_bnf(g: &Grammar) -> G {
        G {
            prods: g.productions_iter().map(prod_from).collect(),
        }
    }
    /// names of all nonterminals used on a right-hand side without a production
    pub fn undefined(&self) -> Vec<String> {
        let mut out = vec![];
        for p in &self.prods {
            for a in &p.alts {
                for s in a {
                    if let T::N(x) = s {
                        let def = self.prods.iter().any(|q| matches!(&q.lhs, T::N(y) if y == x));
                        if !def && !out.contains(x) {
                            out.push(x.clone());
                        }
                    }
                }
            }
        }
        out
    }
    pub fn has_dup_alts(&self) -> bool {
        for (i, p) in self.prods.iter().enumerate() {
            for (k, a) in p.alts.iter().enumerate() {
                for (j, q) in self.prods.iter().enumerate() {
                    if p.lhs != q.lhs {
                        continue;
                    }
                    for (l, b) in q.alts.iter().enumerate() {
                        if (i, k) < (j, l) && a == b {
                            return true;
                        }
                    }
                }
            }
        }
        false
    }
    /// readable, unambiguous dump for reports
    pub fn show(&self) -> String {
        let mut s = String::new();
        for p in &self.prods {
            let _ = write!(s, "{} ::=", show_t(&p.lhs));
            for (i, a) in p.alts.iter().enumerate() {
                if i > 0 {
                    s.push_str(" |");
                }
                for t in a {
                    let _ = write!(s, " {}", show_t(t));
                }
                if a.is_empty() {
                    s.push_str(" (no terms)");
                }
            }
            s.push('\n');
        }
        s
    }
    /// all alternatives of a nonterminal, over all its productions, in order
    pub fn alts_of(&self, name: &str) -> Vec<&Alt> {
        self.prods
            .iter()
            .filter(|p| matches!(&p.lhs, T::N(x) if x == name))
            .flat_map(|p| p.alts.iter())
            .collect()
    }
    pub fn defines(&self, name: &str) -> bool {
        self.prods.iter().any(|p| matches!(&p.lhs, T::N(x) if x == name))
    }
    pub fn nts(&self) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        for p in &self.prods {
            if let T::N(x) = &p.lhs
                && !v.contains(x)
            {
                v.push(x.clone());
            }
        }
        v
    }
    pub fn size(&self) -> usize {
        self.prods.iter().map(|p| p.alts.iter().map(|a| a.len() + 1).sum::<usize>() + 1).sum()
    }
}

pub fn show_t(x: &T) -> String {
    match x {
        T::T(s) => format!("{s:?}"),
        T::N(s) => format!("<{}>", s.escape_debug()),
    }
}
