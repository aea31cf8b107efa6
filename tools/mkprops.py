import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))
EAR=["src/earley/mod.rs","src/earley/traversal.rs","src/earley/input_range.rs","src/parser/mod.rs","src/parser/grammar.rs","src/append_vec.rs"]
p("C01","The parser accepts exactly the strings the grammar derives",
 "For every grammar that validates, every nonterminal chosen as the start and every input string, the parser yields at least one parse tree if and only if the whole string can be derived from that start by the grammar's productions. This holds for empty alternatives, left, right and mutual recursion, ambiguity, terminals that are prefixes of one another, several productions for one nonterminal, and multi-byte text alike.",
 ["inputs"],"all validated grammars, start nonterminals and input strings",
 "The suite parses a few dozen hand-written grammars on one input each; the pairs (grammar, input) are unbounded and wrong answers appear only for particular combinations of nullable, recursive and overlapping rules.",
 EAR,[("earley predict/scan/complete loop","src/earley/mod.rs"),("completion lookup by term and position","src/earley/mod.rs"),("input window arithmetic","src/earley/input_range.rs")],
 ["GrammarParser::parse_input(_starting_with)"])
p("C02","Every parse tree is a genuine derivation of exactly the input",
 "Every parse tree the parser yields is rooted at the requested start nonterminal, each of its nodes applies one alternative of a production of the grammar with its children in the alternative's order, and its terminal leaves, read left to right, spell the whole input exactly. Reading the tree through its public fields and iterators shows all of this.",
 ["inputs"],"all validated grammars, starts, inputs, and every tree yielded for them",
 "Snapshot tests pin a handful of trees, and the property tests only compare the leaf text for three fixed grammars.",
 EAR+["src/grammar.rs"],[("tree building from matched traversals","src/earley/mod.rs"),("ordered walk of matched terms","src/earley/traversal.rs")],["ParseTree::lhs, rhs_iter"])
p("C03","Every parse tree is enumerated exactly once",
 "If an input has finitely many derivations, the parser yields each of them exactly once and then ends; two yielded trees are equal only if the grammar lists the same alternative twice. If it has infinitely many, the stream keeps going without ever repeating a tree, and every particular derivation turns up after finitely many others.",
 ["inputs"],"all validated grammars, starts and inputs, ambiguous and infinitely ambiguous ones included",
 "Tests check tree counts for a few grammars; losing or duplicating one derivation in a particular combination of ambiguity and empty rules is invisible to them.",
 EAR,[("hash-consed traversal tree","src/earley/traversal.rs"),("queue that ignores repetitions","src/earley/mod.rs"),("completion of earlier and later predictions","src/earley/mod.rs")],["parse tree iterator"])
p("C04","Parse results depend only on grammar, start and input",
 "The sequence of parse trees for a grammar, start and input is always the same: it does not depend on what the parser parsed before, on iterators that are half consumed or interleaved with others, on the parser being rebuilt or the grammar cloned, or on the process run. Reordering the productions or alternatives of the grammar changes neither which trees are found nor how many.",
 ["histories","inputs"],"all histories of parses, partial consumptions and interleavings of iterators on shared parsers, for all grammars",
 "Tests reuse a parser twice and compare only lengths; histories and interleavings are unbounded, and hash-order effects differ between processes.",
 EAR,[("per-iterator parse state over a shared immutable grammar","src/earley/mod.rs"),("sorted completion lists","src/earley/mod.rs")],["parse tree iterators"])
p("C05","All ways of asking for a parse agree",
 "Parsing from the default start gives the same trees, in the same order, as naming the first production's nonterminal as the start, and the older grammar-level methods give the same trees as a built parser; parsing from another start is the same as parsing with a grammar in which that nonterminal comes first. On a grammar with undefined nonterminals the older methods treat these as matching nothing, and a start term with no production yields no trees.",
 ["inputs"],"all grammars, starts and inputs, including undefined nonterminals for the unvalidated methods",
 "The parity test covers three fixed grammars and the default start only.",
 ["src/grammar.rs","src/parser/mod.rs","src/parser/grammar.rs","src/earley/mod.rs"],[("two parser constructors and two iterator holders","src/parser/mod.rs")],["Grammar::parse_input*, GrammarParser::parse_input*"])
p("C06","Parsing ends, at a cost bounded by the derivations explored",
 "Whenever an input has only finitely many parse trees, in particular none, exhausting the iterator ends. The time and memory used stay within a constant factor of the number of partial derivations of the input's substrings, so for an unambiguous grammar they grow only polynomially with the length of the input.",
 ["inputs"],"all validated grammars and inputs with finitely many trees",
 "Tests finish by luck of their examples; a missed de-duplication or a loop shows only on particular recursive, nullable grammars or on longer inputs.",
 EAR,[("each traversal is created and processed once","src/earley/mod.rs")],["parse tree iterator; allocation and CPU accounting around it"])
TXT=["src/parsers/mod.rs","src/parsers/bnf.rs","src/parsers/augmented.rs","src/parsers/nom_xt.rs"]
p("C07","BNF text is read exactly as written, whatever its layout",
 "A grammar written in BNF parses to exactly the productions, alternatives and terms that were written, in the written order, and its first production is the starting rule. White space, line breaks and ;-comments between tokens, the choice of quote characters and any Unicode or punctuation inside names and terminals make no difference to the result.",
 ["inputs"],"all BNF grammars and all layouts of them",
 "Tests parse a few layouts; combinations of comment, quote, bracket and newline positions are unbounded, and two separate parsing paths must agree.",
 TXT+["src/grammar.rs","src/production.rs","src/expression.rs","src/term.rs"],[("token parsers and comment skipping","src/parsers/mod.rs"),("fast path for plain grammars","src/parsers/mod.rs")],["str::parse::<Grammar>, Grammar::parse_from::<BNF>, and FromStr of Production, Expression and Term"])
p("C08","ABNF text means the same grammar, and the format is detected",
 "A grammar written in ABNF form (bare names, =, /, and =/ for further alternatives) parses to the same grammar as its BNF spelling. Parsing without naming a format reads the text as BNF exactly when its first character after white space and comments is <, and as ABNF otherwise, with the same result as naming that format.",
 ["inputs"],"all grammars expressible in both notations, all layouts",
 "Tests compare one fixture in the two formats and a few small texts.",
 TXT+["src/grammar.rs"],[("Format implementations","src/parsers/augmented.rs"),("format detection","src/parsers/mod.rs")],["Grammar::parse_from::<ABNF>, str::parse::<Grammar>"])
p("C09","Groups and optionals keep the meaning of the text",
 "A grammar text using ( ) groups and [ ] optionals, nested in any way, yields a plain grammar that derives exactly the strings the text describes: a group stands for any one of its alternatives as a unit, an optional for one of them or nothing. The names invented for them are distinct from one another and from every name the text uses, defined or not, and the productions written by the user stay in their order before the invented ones.",
 ["inputs"],"all texts with nested groups and optionals in BNF and ABNF, and all strings",
 "Tests cover a few small groups and one name clash; meaning must be preserved for arbitrary nesting.",
 TXT,[("lowering of groups and optionals to fresh nonterminals","src/parsers/mod.rs")],["str::parse::<Grammar> followed by parsing strings"])
p("C10","Malformed text is refused; no text makes the text parsers crash",
 "Given any string at all, parsing it as a grammar (in either format), production, expression or term returns either a value or a parse error and never panics or loops. A value is returned only if everything in the text outside white space and comments is reflected in it; unterminated quotes or names, missing or doubled separators, empty or unbalanced groups, dangling alternatives and trailing text are errors.",
 ["inputs"],"all strings",
 "Tests try about ten malformed texts.",
 TXT+["src/error.rs","src/grammar.rs","src/production.rs","src/expression.rs","src/term.rs"],[("all_consuming parsers and error conversion","src/parsers/mod.rs, src/error.rs")],["FromStr implementations, Grammar::parse_from"])
p("C11","Formatting and re-parsing gives the same value back",
 "Any term, expression, production or grammar that can be written in BNF, whether it came from text or was built through the API, formats to text that parses back to an equal value. This includes grammars that came from extended syntax and any Unicode, quote, bracket, semicolon or line break inside names and terminals.",
 ["inputs"],"all grammars, productions, expressions and terms writable in BNF (names without >, terminals not mixing both quotes, nothing empty where the notation requires a token)",
 "The quickcheck tests draw short random strings that rarely contain the characters that matter.",
 ["src/term.rs","src/expression.rs","src/production.rs","src/grammar.rs","src/parsers/mod.rs"],[("Display implementations","src/term.rs, src/expression.rs, src/production.rs, src/grammar.rs")],["Display then FromStr"])
p("C12","Serialised grammars deserialise to equal grammars",
 "Serialising any term, expression, production or grammar and deserialising the result gives an equal value that parses and generates the same strings, whatever the names and terminals contain and even where a production has no alternatives or an expression no terms.",
 ["inputs"],"all grammar values",
 "No test serialises anything.",
 ["src/grammar.rs","src/production.rs","src/expression.rs","src/term.rs"],[("serde derives","src/grammar.rs and others")],["serde_json round trip"])
p("C13","Validation passes exactly when every used nonterminal is defined",
 "Validating a grammar and building a parser from it both succeed if the grammar has at least one production and every nonterminal used on a right-hand side is the left-hand side of some production, and otherwise both fail with a validation error. When undefined nonterminals are the reason, the message names one that really is undefined.",
 ["inputs"],"all grammars, however built",
 "Tests use generators that never produce, for example, a production without alternatives or a terminal left-hand side.",
 ["src/validation.rs","src/grammar.rs","src/parser/grammar.rs","src/parser/mod.rs"],[("defined and referenced sets","src/validation.rs")],["Grammar::validate, Grammar::build_parser"])
GEN=["src/grammar.rs","src/generation.rs"]
p("C14","Generated sentences belong to the grammar",
 "Every sentence that any generation method returns, under any strategy and any callback, can be derived from the starting rule of the grammar. A nonterminal without a production contributes its name in angle brackets, as documented.",
 ["inputs","histories"],"all grammars, seeds, strategies and callbacks",
 "Tests generate from a few grammars and check little about the result.",
 GEN,[("recursive expansion","src/grammar.rs"),("strategies","src/generation.rs")],["Grammar::generate*"])
p("C15","Generation fails cleanly when it cannot end and succeeds when it can",
 "If the starting rule cannot lead to a string of terminals, the grammar is empty or its first left-hand side is a terminal, every generation method returns a generation error. If an expansion reaches a nonterminal that can never lead to terminals, a generation error is returned instead of recursing without end; and if every nonterminal reachable from the start is defined and can lead to terminals, generation succeeds, whatever the order of the productions and however a nonterminal's alternatives are spread over several productions (a nonterminal whose only alternative has no terms at all, which no text can express, counts as leading nowhere).",
 ["inputs"],"all grammars, seeds and strategies that do not themselves recurse without bound",
 "Tests check three looping grammars; unbounded recursion aborts the process only for particular grammars and seeds.",
 GEN+["src/production.rs","src/expression.rs"],[("termination analysis","src/grammar.rs"),("expansion","src/grammar.rs")],["Grammar::generate* result"])
p("C16","Seeded generation is reproducible",
 "Generating from the same grammar with the same seed, strategy settings and sequence of calls always gives the same sentences, in the same or another process, from an equal copy of the grammar, and regardless of other generation or parsing going on in between. Adding a callback that accepts everything changes nothing.",
 ["inputs","histories"],"all grammars, seeds, strategies and interleaved histories",
 "No test compares two seeded runs across processes or copies; only hash seeds and addresses that vary between runs would expose a difference.",
 GEN,[("seeded RNG in each strategy","src/generation.rs")],["generate_seeded*, strategies' from_seed"])
p("C17","The generation callback vets every piece of the sentence",
 "During generation with a callback, every expansion of a defined nonterminal is offered to the callback exactly once, with the nonterminal's name and exactly the text just produced for it, inner expansions before outer ones. Text the callback rejects is discarded and that nonterminal is expanded afresh; the returned sentence is the last accepted text of the starting rule and is made only of accepted pieces.",
 ["histories","inputs"],"all grammars, callbacks and sequences of accept and reject answers",
 "No existing test records the sequence of callback events.",
 ["src/grammar.rs"],[("retry loop around each expansion","src/grammar.rs")],["callback arguments and order; strategy choose calls"])
p("C18","Depth-bounded generation respects its bound",
 "At or beyond its maximum depth the depth-bounded strategy chooses an alternative made only of terminals whenever the nonterminal has one, so a grammar in which each nonterminal has such an alternative is never expanded deeper than the bound; below the bound every alternative can be chosen. Depth counts nested nonterminal expansions from 0 at the starting rule, and generation with this strategy always terminates.",
 ["inputs","histories"],"all grammars, bounds and seeds",
 "Tests check one grammar and only that generation returns.",
 GEN,[("eligible alternatives at depth","src/generation.rs"),("depth passed to the strategy","src/grammar.rs")],["GenerationStrategy::choose, wrapped in a recorder"])
p("C19","Coverage-guided generation tries untried alternatives first",
 "While a nonterminal still has alternatives that a coverage-guided strategy has not chosen, it chooses one of those, so the first n expansions of a nonterminal with n alternatives use each of them once. This bookkeeping spans all generation calls made with the same strategy on the same grammar and all productions of the nonterminal.",
 ["histories","inputs"],"all grammars, seeds and sequences of generation calls with one strategy",
 "The test checks one grammar with one seed.",
 GEN,[("set of alternatives seen","src/generation.rs")],["GenerationStrategy::choose, wrapped in a recorder"])
p("C20","Random and weighted choices follow their stated odds",
 "The random-walk strategy chooses each alternative of a production with equal probability. The weighted strategy chooses in proportion to the recursive weight for alternatives that mention the production's own nonterminal and the non-recursive weight for the others, never an alternative of weight zero while another has a positive weight, and uniformly if all weights are zero, for all weights without overflow.",
 ["inputs"],"all productions, weights and seeds (frequencies within statistical error)",
 "Tests compare two averages on one grammar.",
 ["src/generation.rs"],[("weighted index","src/generation.rs"),("uniform index","src/generation.rs")],["GenerationStrategy::choose"])
p("C21","The printed parse tree shows the tree exactly",
 "Printing a parse tree gives one line per node in depth-first order, each nonterminal with the symbols it was expanded to, drawn with the branch glyphs that place each line under its true parent. From the text alone the shape of the tree, its labels and the order of children can be recovered, for trees of any shape and depth.",
 ["inputs"],"all parse trees",
 "Snapshots pin a few small trees; column tracking fails only for particular nestings of last and non-last children.",
 ["src/grammar.rs"],[("recursive formatter with active columns","src/grammar.rs")],["Display of ParseTree"])
p("C22","The Mermaid rendering is a faithful, well-formed flowchart",
 "The Mermaid rendering of a parse tree is one flowchart header followed by one edge per parent-child pair in depth-first order, with distinct numbers for distinct nodes and each node always labelled with its own text. Every character that is special in a label is written as its decimal entity code and all others unchanged, so decoding a label always gives back the original text.",
 ["inputs"],"all parse trees and label strings",
 "The property tests render single-node trees and count edges and quotes; they do not rebuild the tree.",
 ["src/grammar.rs"],[("numbered recursive writer","src/grammar.rs"),("label escaping","src/grammar.rs")],["ParseTree::mermaid, escape_mermaid_label"])
p("C23","Building and editing grammars behaves like editing ordered lists",
 "Grammars, productions and expressions behave as ordered lists of their parts under every sequence of additions, removals, in-place edits, copies and combinations with +: additions go last, a removal takes out the first equal part, returns it and leaves the rest in order, and removing an absent part changes nothing and returns nothing. Equality, hashing, counts and iteration always reflect the current parts, and parsing and generation use the current state.",
 ["histories"],"all histories of editing operations on grammars, productions, expressions and terms",
 "Tests make one or two edits each.",
 ["src/grammar.rs","src/production.rs","src/expression.rs","src/term.rs"],[("add/remove/iter methods and operators","src/grammar.rs, src/production.rs, src/expression.rs, src/term.rs")],["public API results"])
p("C24","The construction macros build what their text says",
 "The grammar!, production!, expression! and term! macros build values equal to those obtained by parsing the same notation as text: the same productions, alternatives and terms, in the written order, for any number of each.",
 ["programs"],"all programs that invoke the macros",
 "The macro tests compare a macro with itself, or with at most two alternatives.",
 ["src/grammar.rs","src/production.rs","src/expression.rs","src/term.rs"],[("macro_rules accumulators","src/grammar.rs, src/production.rs, src/expression.rs, src/term.rs")],["values built by generated programs"])
p("C25","Safe use never causes undefined behaviour",
 "No sequence of calls to the public API from safe code, whatever grammars, texts, inputs, seeds and iterator lifetimes are involved, causes undefined behaviour: no invalid or out-of-bounds access, use after free, invalid string or reference, leak of unbounded memory or unbalanced allocation.",
 ["inputs","histories"],"all safe uses of the API",
 "The suite runs without sanitizers.",
 ["src/earley/mod.rs","src/earley/traversal.rs","src/earley/input_range.rs","src/append_vec.rs","src/generation.rs","src/grammar.rs","src/parsers/mod.rs"],[("absence of unsafe code; indices into append-only arenas","src/append_vec.rs")],["Miri and AddressSanitizer reports; allocation balance"])
p("C26","One grammar can be used from many threads at once",
 "Grammars, productions, expressions, terms and errors can be shared between and sent to other threads, and any number of threads that build parsers, parse, generate, format and validate over one shared grammar at the same time each get exactly the results they would get alone, without data races.",
 ["schedules"],"all schedules of threads working on shared grammars",
 "No test uses threads.",
 ["src/grammar.rs","src/parser/mod.rs","src/earley/mod.rs","src/generation.rs"],[("no shared mutable state","src/")],["per-thread results against sequential ones; ThreadSanitizer and Miri reports"])
p("C27","Build features and profiles do not change results",
 "With the same inputs and seeds, parsing grammar text, validating, parsing strings, generating and formatting give identical results whether or not the optional ABNF, serde and tracing features are enabled, whether or not a tracing subscriber listens, and in debug as well as optimised builds; without ABNF, text is always read as BNF.",
 ["configurations","inputs"],"all feature sets and build profiles, over all inputs",
 "The suite is run with all features in one profile only.",
 ["src/tracing.rs","src/lib.rs","src/grammar.rs","Cargo.toml"],[("feature-gated tracing macros","src/tracing.rs"),("feature-gated format detection","src/grammar.rs")],["digests of results of differently built workers"])
p("C28","Notations defined through the Format trait are read by their own symbols",
 "A notation that a user defines by implementing Format, with symbols that do not clash with one another or with quotes, brackets, comments and white space, reads a text written with its own name delimiters (or bare names), production separator and alternative separator to the same grammar as the BNF spelling of that text, groups and optionals included, and refuses text that is malformed by its own rules. Naming the character that starts each production, which is optional, changes nothing.",
 ["configurations","inputs"],"all user-defined formats with unambiguous symbols and all texts in them",
 "Only the two built-in formats are ever tested, so code that assumes their symbols passes.",
 TXT+["src/grammar.rs"],[("grammar readers generic over Format","src/parsers/mod.rs"),("fast path that looks for the start character","src/parsers/mod.rs")],["Grammar::parse_from::<F>"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    n=x['statement'].replace('e.g.','').count('. ')+1
    if n>3: print(x['id'],n)
