From 4406f835ff532afaefa31952c0089b98071f9094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:17 +0000
Subject: [PATCH 01/11] fix: keep written order of productions and alternatives
 in grammar!/production! macros

With three or more productions (or alternatives) the macros accumulated
them front to back and emitted them reversed, so the starting rule of a
grammar! with three productions was not the first one written.
---
 src/grammar.rs    | 6 +++---
 src/production.rs | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index dc06482..0dc7f4b 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -838,7 +838,7 @@ macro_rules! grammar {
     (@collect_prods [[$($curr_terms:expr),*] [$($curr_exprs:tt)*] [$curr_lhs:ident] $($prev_prods:tt)*] ; <$next_lhs:ident> ::= $($rest:tt)*) => {
         {
             // Save current production and start next one
-            $crate::grammar!(@collect_prods [[] [] [$next_lhs] [[$($curr_terms),*] $($curr_exprs)*] [$curr_lhs] $($prev_prods)*] $($rest)*)
+            $crate::grammar!(@collect_prods [[] [] [$next_lhs] $($prev_prods)* [$($curr_exprs)* [$($curr_terms),*]] [$curr_lhs]] $($rest)*)
         }
     };
 
@@ -849,7 +849,7 @@ macro_rules! grammar {
 
     // Hit | within a production - finish current expression, start new one
     (@collect_prods [[$($curr_terms:expr),*] [$($curr_exprs:tt)*] [$lhs:ident] $($prev_prods:tt)*] | $($rest:tt)*) => {
-        $crate::grammar!(@collect_prods [[] [[$($curr_terms),*] $($curr_exprs)*] [$lhs] $($prev_prods)*] $($rest)*)
+        $crate::grammar!(@collect_prods [[] [$($curr_exprs)* [$($curr_terms),*]] [$lhs] $($prev_prods)*] $($rest)*)
     };
 
     // Collect a literal term
@@ -869,7 +869,7 @@ macro_rules! grammar {
             {
                 let mut prods = vec![];
 
-                // Build previous productions (in reverse order since we accumulated backwards)
+                // Build previous productions (accumulated in the order they were written)
                 $(
                     let mut exprs = vec![];
                     $crate::grammar!(@build_exprs exprs $($prod_exprs)*);
diff --git a/src/production.rs b/src/production.rs
index 3f8b832..2f7f812 100644
--- a/src/production.rs
+++ b/src/production.rs
@@ -144,7 +144,7 @@ macro_rules! production {
 
     // Hit | separator - finish current expression group, start new one
     (@collect_exprs [[$($current:expr),*] $($prev_exprs:tt)*] | $($rest:tt)*) => {
-        $crate::production!(@collect_exprs [[] [$($current),*] $($prev_exprs)*] $($rest)*)
+        $crate::production!(@collect_exprs [[] $($prev_exprs)* [$($current),*]] $($rest)*)
     };
 
     // Collect a literal term into current expression
@@ -163,7 +163,7 @@ macro_rules! production {
             #[allow(clippy::vec_init_then_push)]
             {
                 let mut exprs = vec![];
-                // Add previous expressions in reverse order (they were accumulated backwards)
+                // Add previous expressions (accumulated in the order they were written)
                 $(exprs.push($crate::Expression::from_parts(vec![$($prev),*]));)*
                 // Add the last expression
                 exprs.push($crate::Expression::from_parts(vec![$($last),*]));
-- 
2.43.0


From 22567d74491c04315be93e7464fdf46975061232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:23 +0000
Subject: [PATCH 02/11] fix: invented group names avoid names the text only
 refers to

<s> ::= (<a>) <__anon0> bound the undefined <__anon0> to the group's
invented production, silently changing the grammar's meaning.
---
 src/parsers/mod.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 367c507..ce86a39 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -396,19 +396,37 @@ fn parsed_grammar_complete<F: Format>(input: &str) -> IResult<&str, ParsedGramma
 
 /// Normalize a parsed grammar (with `Group` and `Optional`) into a `Grammar` that uses only
 /// `Term::Terminal` and `Term::Nonterminal`. Anonymous names (`__anon0`, `__anon1`, …) are chosen
-/// so they do not clash with any existing LHS nonterminal (e.g. user-defined `<__anon0>`).
+/// so they do not clash with any nonterminal the text defines or refers to (e.g. a user's `<__anon0>`).
 /// Optionals `[A / B]` are lowered to a fresh nonterminal with alternatives `A | B | ''`.
 fn normalize_parsed_grammar(parsed: ParsedGrammar) -> Grammar {
+    /// Record every nonterminal name referenced by the expressions, however deeply nested.
+    fn collect_names(exprs: &[ParsedExpression], used: &mut crate::HashSet<String>) {
+        for ParsedExpression::Terms(terms) in exprs {
+            for term in terms {
+                match term {
+                    ParsedTerm::Simple(Term::Nonterminal(name)) => {
+                        used.insert(name.clone());
+                    }
+                    ParsedTerm::Simple(Term::Terminal(_)) => {}
+                    ParsedTerm::Group(exprs) | ParsedTerm::Optional(exprs) => {
+                        collect_names(exprs, used);
+                    }
+                }
+            }
+        }
+    }
+
     let mut used_names = crate::HashSet::new();
     for prod in &parsed.productions {
-        let ParsedProduction::Complex { lhs, .. } = prod;
+        let ParsedProduction::Complex { lhs, rhs } = prod;
         used_names.insert(lhs.clone());
+        collect_names(rhs, &mut used_names);
     }
 
     let mut out_prods = Vec::new();
     let mut anon_prods = Vec::new();
 
-    /// Pick a fresh name that does not collide with user-defined LHS or other generated names.
+    /// Pick a fresh name that does not collide with the user's or other generated names.
     fn fresh_anon_name(used: &mut crate::HashSet<String>, counter: &mut usize) -> String {
         loop {
             let candidate = format!("__anon{}", counter);
-- 
2.43.0


From 7a9c65d8e0fd5310555086bacefcaa95d4326dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:13 +0000
Subject: [PATCH 03/11] fix: print an undefined nonterminal as <name> when
 generating

The README documents that generate prints the identifier as a
nonterminal, i.e. <identifier>; the brackets were missing.
---
 src/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 0dc7f4b..948ac4f 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -515,7 +515,7 @@ impl Grammar {
                 .find(|p| matches!(&p.lhs, Term::Nonterminal(s) if s.as_str() == ident))
             {
                 Some(p) => p,
-                None => return Ok(ident.to_string()),
+                None => return Ok(format!("<{ident}>")),
             };
 
             /// True if the production has no choosable alternative (no RHS or only an empty/epsilon alternative).
-- 
2.43.0


From 2ac8dda27acb960f2934c9dda9a1f728a5996bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:34 +0000
Subject: [PATCH 04/11] fix: sum generation weights without overflow

Weights near u32::MAX overflowed the u32 total and panicked (or, in
release builds, skewed the odds).
---
 src/generation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generation.rs b/src/generation.rs
index eeaec6c..b064d72 100644
--- a/src/generation.rs
+++ b/src/generation.rs
@@ -275,12 +275,12 @@ impl Weighted {
 
     /// Weighted random index; if total weight is 0, returns uniform random in `0..fallback_len`.
     fn weighted_random_index(rng: &mut StdRng, weights: &[u32], fallback_len: usize) -> usize {
-        let total: u32 = weights.iter().sum();
+        let total: u64 = weights.iter().copied().map(u64::from).sum();
         if total == 0 {
             return random_index(rng, fallback_len);
         }
         let mut r = rng.random_range(0..total);
-        for (i, &w) in weights.iter().enumerate() {
+        for (i, w) in weights.iter().copied().map(u64::from).enumerate() {
             if r < w {
                 return i;
             }
-- 
2.43.0


From d5b1cbdf290115a740367d980456fb3e2e32c9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:41 +0000
Subject: [PATCH 05/11] fix: building a parser accepts what validate() accepts

A nonterminal whose production has no alternatives counted as defined
for Grammar::validate but as undefined for Grammar::build_parser.
---
 src/parser/grammar.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/parser/grammar.rs b/src/parser/grammar.rs
index 087d4dd..2e777d1 100644
--- a/src/parser/grammar.rs
+++ b/src/parser/grammar.rs
@@ -40,14 +40,18 @@ impl<'gram, 'a> ParseGrammar<'gram> {
         let n = grammar.production_count();
         sets.reserve(n, n.saturating_mul(2));
 
+        // a production without alternatives still defines its nonterminal
+        for prod in grammar.productions_iter() {
+            if let crate::Term::Nonterminal(nt) = &prod.lhs {
+                sets.record_lhs(nt.as_str());
+            }
+        }
+
         let flat_prod_iter = grammar
             .productions_iter()
             .flat_map(|prod| prod.rhs_iter().map(|rhs| (&prod.lhs, rhs)));
 
         for (lhs, rhs) in flat_prod_iter {
-            if let crate::Term::Nonterminal(nt) = lhs {
-                sets.record_lhs(nt.as_str());
-            }
             for term in rhs.terms_iter() {
                 if let crate::Term::Nonterminal(nt) = term {
                     sets.record_rhs(nt.as_str());
-- 
2.43.0


From 9078c3615cf2f0e1966dc4743f46685312b435e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:49 +0000
Subject: [PATCH 06/11] fix: removing a production keeps the others in order

swap_remove moved the last production into the gap, so removing the
first production made the last one the starting rule.
---
 src/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 948ac4f..b6dc2b1 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -348,7 +348,7 @@ impl Grammar {
         self.productions
             .iter()
             .position(|x| *x == *prod)
-            .map(|pos| self.productions.swap_remove(pos))
+            .map(|pos| self.productions.remove(pos))
     }
 
     /// Get iterator of the `Grammar`'s `Production`s
-- 
2.43.0


From 06e45852a0696601461b0576d73dab7ce2a4505d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:16 +0000
Subject: [PATCH 07/11] fix: render Mermaid for parse trees whose production
 has a terminal as left-hand side

Grammars built through the API may have such productions, and the
parser yields trees for them; formatting one hit unreachable!().
---
 src/grammar.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index b6dc2b1..b35d9af 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -223,10 +223,9 @@ impl MermaidParseTree<'_> {
             writeln!(f, "flowchart TD")?;
         }
 
-        // Parser-built trees have LHS as Nonterminal; Terminal/AnonymousNonterminal are unreachable.
+        // Grammars built through the API may use a Terminal as LHS, so both kinds are labels.
         let lhs = match self.parse_tree.lhs {
-            Term::Nonterminal(str) => str,
-            Term::Terminal(_) => unreachable!(),
+            Term::Nonterminal(str) | Term::Terminal(str) => str,
         };
         let lhs_escaped = escape_mermaid_label(lhs);
         let lhs_count = *count;
@@ -244,8 +243,7 @@ impl MermaidParseTree<'_> {
                 }
                 ParseTreeNode::Nonterminal(parse_tree) => {
                     let rhs = match parse_tree.lhs {
-                        Term::Nonterminal(str) => str,
-                        Term::Terminal(_) => unreachable!(),
+                        Term::Nonterminal(str) | Term::Terminal(str) => str,
                     };
                     let rhs_escaped = escape_mermaid_label(rhs);
                     writeln!(
-- 
2.43.0


From 4db8cc9a2c90af41dcf10c33fe219d7d181c10b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:35 +0000
Subject: [PATCH 08/11] fix: track coverage-guided choices by nonterminal, not
 by address

The bookkeeping was keyed by the address of the production's left-hand
side: it was lost when the grammar's productions moved and could be
mistaken for another grammar's when memory was reused, which also made
the sentences depend on the allocator.
---
 src/generation.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/generation.rs b/src/generation.rs
index b064d72..5beb74c 100644
--- a/src/generation.rs
+++ b/src/generation.rs
@@ -142,8 +142,8 @@ impl GenerationStrategy for DepthBounded {
 /// Suited for generating data that fully explores all options of the grammar.
 #[derive(Debug)]
 pub struct CoverageGuided {
-    /// (nonterminal, `expression_index`) pairs that have been chosen.
-    seen: crate::HashSet<(*const Term, usize)>,
+    /// Expression indices that have been chosen, by nonterminal.
+    seen: crate::HashMap<Term, crate::HashSet<usize>>,
     rng: StdRng,
     /// Reused buffer for uncovered indices; avoids per-call allocation.
     candidates_buf: Vec<usize>,
@@ -153,7 +153,7 @@ impl Default for CoverageGuided {
     fn default() -> Self {
         let seed = [0u8; 32];
         Self {
-            seen: crate::HashSet::new(),
+            seen: crate::HashMap::new(),
             rng: StdRng::from_seed(seed),
             candidates_buf: Vec::new(),
         }
@@ -171,7 +171,7 @@ impl CoverageGuided {
     #[must_use]
     pub fn from_seed(seed: [u8; 32]) -> Self {
         Self {
-            seen: crate::HashSet::new(),
+            seen: crate::HashMap::new(),
             rng: StdRng::from_seed(seed),
             candidates_buf: Vec::new(),
         }
@@ -180,10 +180,10 @@ impl CoverageGuided {
     /// Fill `candidates_buf` with indices not yet in `seen` for this production's LHS, then pick one
     /// uniformly, or fallback to any index if all are seen. Reuses `candidates_buf` to avoid alloc.
     fn fill_uncovered_and_choose_index(&mut self, production: &Production) -> usize {
-        let lhs = &production.lhs as *const Term;
+        let seen = self.seen.get(&production.lhs);
         self.candidates_buf.clear();
         for i in 0..production.len() {
-            if !self.seen.contains(&(lhs, i)) {
+            if !seen.is_some_and(|seen| seen.contains(&i)) {
                 self.candidates_buf.push(i);
             }
         }
@@ -202,7 +202,10 @@ impl GenerationStrategy for CoverageGuided {
     fn choose<'p>(&mut self, production: &'p Production, _depth: usize) -> Option<&'p Expression> {
         debug_assert!(!production.is_empty(), "production must not be empty");
         let idx = self.fill_uncovered_and_choose_index(production);
-        self.seen.insert((&production.lhs as *const Term, idx));
+        self.seen
+            .entry(production.lhs.clone())
+            .or_default()
+            .insert(idx);
         production.get_expression(idx)
     }
 }
-- 
2.43.0


From 2e75bec431133b5abca2aa2f98c8e0ff00a33e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:43 +0000
Subject: [PATCH 09/11] fix: generate from all productions of a nonterminal

Only the first production of a nonterminal was ever expanded, so
'<s> ::= <s> 'a'' followed by '<s> ::= 'b'' overflowed the stack although
the start rule leads to terminals, and the alternatives of further
productions were never generated.
---
 src/grammar.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index b35d9af..958bb9b 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -44,6 +44,7 @@ use rand::{Rng, SeedableRng, rng, rngs::StdRng};
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+use std::borrow::Cow;
 use std::fmt::{self, Write};
 use std::rc::Rc;
 use std::str;
@@ -666,7 +667,27 @@ impl Grammar {
                 )));
             }
         };
-        self.traverse_with_strategy(&start_rule, &f, strategy, 0)
+        self.merged_by_lhs()
+            .traverse_with_strategy(&start_rule, &f, strategy, 0)
+    }
+
+    /// The grammar with all productions of a term merged into the first of them, so that
+    /// generation chooses among all alternatives of a nonterminal.
+    fn merged_by_lhs(&self) -> Cow<'_, Grammar> {
+        let mut lhs_seen = crate::HashSet::new();
+        if self.productions_iter().all(|p| lhs_seen.insert(&p.lhs)) {
+            return Cow::Borrowed(self);
+        }
+        let mut merged: Vec<Production> = vec![];
+        for prod in self.productions_iter() {
+            match merged.iter_mut().find(|p| p.lhs == prod.lhs) {
+                Some(first) => prod
+                    .rhs_iter()
+                    .for_each(|expr| first.add_to_rhs(expr.clone())),
+                None => merged.push(prod.clone()),
+            }
+        }
+        Cow::Owned(Grammar::from_parts(merged))
     }
 
     /// Generate a random sentence from self.
-- 
2.43.0


From 4c13538c483634652c84f231fbec57987c2a9782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:14 +0000
Subject: [PATCH 10/11] fix: generation reports an endless expansion instead of
 overflowing the stack

The termination check only looked at the starting rule; with
'<s> ::= 'a' | <b>' and '<b> ::= <b> 'x'' choosing <b> recursed until the
stack overflowed, where the README promises an error.
---
 src/grammar.rs | 43 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 958bb9b..741a057 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -493,10 +493,13 @@ impl Grammar {
         term: &Term,
         f: &impl Fn(&str, &str) -> bool,
         strategy: &mut S,
+        endless: &crate::HashSet<&Term>,
         depth: usize,
     ) -> Result<String, Error> {
         match term {
-            Term::Nonterminal(nt) => self.traverse_with_strategy(nt, f, strategy, depth + 1),
+            Term::Nonterminal(nt) => {
+                self.traverse_with_strategy(nt, f, strategy, endless, depth + 1)
+            }
             Term::Terminal(t) => Ok(t.clone()),
         }
     }
@@ -506,6 +509,7 @@ impl Grammar {
         ident: &str,
         f: &impl Fn(&str, &str) -> bool,
         strategy: &mut S,
+        endless: &crate::HashSet<&Term>,
         depth: usize,
     ) -> Result<String, Error> {
         loop {
@@ -535,6 +539,13 @@ impl Grammar {
                 )));
             }
 
+            if endless.contains(&production.lhs) {
+                return Err(Error::GenerateError(format!(
+                    "Can't generate, {} doesn't lead to a terminal state",
+                    production.lhs
+                )));
+            }
+
             let Some(expression) = strategy.choose(production, depth) else {
                 return Err(Error::GenerateError(String::from(
                     "Couldn't select random Expression!",
@@ -546,7 +557,7 @@ impl Grammar {
             );
             let mut result = String::new();
             for term in expression.terms_iter() {
-                match self.eval_terminal_with_strategy(term, f, strategy, depth) {
+                match self.eval_terminal_with_strategy(term, f, strategy, endless, depth) {
                     Ok(s) => result.push_str(&s),
                     Err(e) => return Err(e),
                 }
@@ -667,8 +678,32 @@ impl Grammar {
                 )));
             }
         };
-        self.merged_by_lhs()
-            .traverse_with_strategy(&start_rule, &f, strategy, 0)
+        let merged = self.merged_by_lhs();
+        let endless = merged.endless_nonterminals();
+        merged.traverse_with_strategy(&start_rule, &f, strategy, &endless, 0)
+    }
+
+    /// The defined nonterminals whose expansion can never come to an end.
+    fn endless_nonterminals(&self) -> crate::HashSet<&Term> {
+        let mut endless: crate::HashSet<&Term> = self
+            .productions_iter()
+            .map(|prod| &prod.lhs)
+            .filter(|lhs| matches!(lhs, Term::Nonterminal(_)))
+            .collect();
+        loop {
+            let count = endless.len();
+            for prod in self.productions_iter() {
+                if prod
+                    .rhs_iter()
+                    .any(|expr| expr.terms_iter().all(|term| !endless.contains(term)))
+                {
+                    endless.remove(&prod.lhs);
+                }
+            }
+            if endless.len() == count {
+                return endless;
+            }
+        }
     }
 
     /// The grammar with all productions of a term merged into the first of them, so that
-- 
2.43.0


From 4c2d0750695029861dd2781c77cc65a51df177b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:59 +0000
Subject: [PATCH 11/11] fix: allow white space and comments after an opening (
 or [

---
 src/parsers/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index ce86a39..5a4979b 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -303,7 +303,7 @@ fn parsed_expression_next<F: Format>(input: &str) -> IResult<&str, &str> {
 
 fn parsed_anonymous_group<F: Format>(input: &str) -> IResult<&str, ParsedTerm> {
     let (input, rhs) = delimited(
-        complete::char('('),
+        terminated(complete::char('('), whitespace_plus_comments),
         xt_list_with_separator(parsed_expression::<F>, parsed_expression_next::<F>),
         complete::char(')'),
     )
@@ -316,7 +316,7 @@ fn parsed_anonymous_group<F: Format>(input: &str) -> IResult<&str, ParsedTerm> {
 
 fn parsed_optional_group<F: Format>(input: &str) -> IResult<&str, ParsedTerm> {
     let (input, rhs) = delimited(
-        complete::char('['),
+        terminated(complete::char('['), whitespace_plus_comments),
         xt_list_with_separator(parsed_expression::<F>, parsed_expression_next::<F>),
         complete::char(']'),
     )
-- 
2.43.0

