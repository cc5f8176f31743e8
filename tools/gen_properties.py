#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list, kept as data here)."""
import json, os
R = "carcara/src/checker/rules/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

p("C01", "Accepted resolution-family steps are propositional consequences",
  "Whenever the checker accepts a step justified by a resolution rule (resolution, th_resolution and their strict and pivot-annotated forms), contraction, reordering, shuffle, weakening, tautology, DRUP or DRAT, the clause it concludes follows from the clauses of its premises by propositional reasoning over the atoms. No choice of premises, pivots, polarities, duplicate literals or nested negations makes it accept a clause that does not follow.",
  ["inputs"], "all premise clauses, conclusions, argument lists, literal orders, duplicate literals and numbers of leading negations",
  "The rule tests hold a few dozen fixed steps; an unsound acceptance needs one particular combination of clauses, e.g. a pivot that comes back after it was eliminated, which no fixed list covers.",
  [R+"resolution.rs", R+"drup.rs", R+"tautology.rs", R+"extras.rs", "carcara/src/resolution.rs", "carcara/src/drup.rs"],
  [("greedy resolution with RUP fallback", "carcara/src/resolution.rs"), ("pivot-directed resolution", R+"resolution.rs"), ("unit propagation over hashed clauses", "carcara/src/drup.rs")],
  ["carcara::check verdict for a one-step proof"])

p("C02", "Accepted clausification and Boolean simplification steps are valid",
  "Whenever the checker accepts a step justified by one of the connective rules (the introduction and elimination rules for and, or, xor, implies, equivalence, ite, not_not, true, false), by and/or/xor/implies elimination of a premise, or by a Boolean simplification rule (and, or, not, implies, equivalence, ite, boolean, connective definition, n-ary elimination, associative/commutative/idempotent normalisation, Boolean function elimination, distinct elimination), the concluded clause is true in every model of its premises.",
  ["inputs"], "all terms, arities, argument indices and polarities that can appear in a step of these rules",
  "Tests contain a handful of accepted and rejected instances per rule with two or three operands; the guarantee is over every shape, including wrong indices, swapped operands, duplicated or missing operands, and extra literals.",
  [R+"tautology.rs", R+"clausification.rs", R+"simplification.rs", R+"extras.rs"],
  [("tautology and clausification rule functions", R+"tautology.rs, "+R+"clausification.rs"), ("rewrite engine for *_simplify", R+"simplification.rs")],
  ["carcara::check verdict for a one-step proof"])

p("C03", "Accepted equality and congruence steps hold in every model",
  "Whenever the checker accepts a step justified by reflexivity, symmetry, transitivity or congruence (the premise-based, clausal, predicate and higher-order variants, strict or not) or by elimination of distinct, the concluded clause is true in every first-order model of its premises, for every signature, equality chain and argument position. Orientation of equations may be ignored only where equality is symmetric.",
  ["inputs"], "all equality chains, orders and orientations of premises, function applications and argument positions",
  "Fixed tests use chains of length up to five and functions of arity up to four in the given order; acceptance of a broken link or a mismatched argument depends on specific orders, repeated terms and orientations.",
  [R+"reflexivity.rs", R+"transitivity.rs", R+"congruence.rs", R+"extras.rs", R+"simplification.rs"],
  [("chain search", R+"transitivity.rs"), ("argument matching against premises", R+"congruence.rs")],
  ["carcara::check verdict for a one-step proof"])

p("C04", "Accepted arithmetic steps are valid over the integers and reals",
  "Whenever the checker accepts a step justified by an arithmetic rule (la_generic, la_tautology, la_disequality, la_totality, la_rw_eq, la_mult_pos, la_mult_neg, polynomial normalisation, and the sum, product, minus, division, modulo, comparison and equality simplifications), the concluded clause is true under every assignment of integers and reals to its symbols. This includes strict and non-strict bounds, integer tightening only where it is justified, negative or zero coefficients, and division whose result for a zero divisor is unspecified.",
  ["inputs"], "all linear and polynomial terms, coefficient lists, literal orders, sorts and numeric constants",
  "Tests use a few hand-picked inequalities; soundness bugs hide at strictness changes, gcd tightening, sign flips, zero coefficients, mixed Int/Real sorts and division corner cases.",
  [R+"linear_arithmetic.rs", R+"polynomial.rs", R+"simplification.rs"],
  [("linear combination and strengthening", R+"linear_arithmetic.rs"), ("polynomial normal form", R+"polynomial.rs"), ("numeric simplification", R+"simplification.rs")],
  ["carcara::check verdict for a one-step proof"])

p("C05", "Accepted quantifier, binder and subproof steps are valid",
  "Whenever the checker accepts a proof fragment using instantiation, quantifier join, unused-variable removal, quantified clausal normal form, miniscoping, quantifier simplification, binding, let, one-point, skolemisation or a discharging subproof, the concluded clause is true in every model of the premises available outside it. In particular variables are never captured, a quantified variable is only removed or replaced when the result is equivalent, and a subproof's conclusion carries the negation of every local assumption it uses.",
  ["inputs", "programs"], "all nestings of binders, variable names and sorts, substitution contexts, and subproofs with local assumptions",
  "The tests use fixed variable names in flat formulas; capture, shadowing and reuse of a variable name in nested scopes only appear with generated binder structures.",
  [R+"quantifier.rs", R+"subproof.rs", "carcara/src/ast/context.rs", "carcara/src/ast/substitution.rs"],
  [("context substitution", "carcara/src/ast/context.rs"), ("binder side conditions", R+"subproof.rs"), ("prenexing and clausal form", R+"quantifier.rs")],
  ["carcara::check verdict for a small proof"])

p("C06", "Accepted bit-vector blasting steps state true bit-level equivalences",
  "Whenever the checker accepts a bit-blasting step (constants, variables, bitwise operators, comparison, addition, multiplication, negation, equality, extraction, concatenation, sign extension), the bit-vector term on the left and the bit-level term on the right have the same value for every valuation of the bits and every width.",
  ["inputs"], "all widths, operand counts, constants and bit-level right-hand sides",
  "Tests fix one or two widths per rule; a wrong carry, index or width check shows only for other widths and operand counts.",
  [R+"bitvectors.rs"], [("bit-blasting functions", R+"bitvectors.rs")],
  ["carcara::check verdict for a one-step proof"])

p("C07", "Accepted pseudo-Boolean and cutting-plane steps are valid",
  "Whenever the checker accepts a cutting-planes step (addition, multiplication, division, saturation, literal, normalisation) the concluded inequality is implied by the premise inequalities for every 0/1 assignment, and whenever it accepts a pseudo-Boolean bit-blasting step the bit-vector predicate or term and its pseudo-Boolean encoding agree for every value of the bits.",
  ["inputs"], "all coefficients (including zero, negative and large), literals and their negations, widths and right-hand sides",
  "Tests sample a few coefficients and widths of at most a few bits; rounding, coefficient signs, missing or extra summands and literal negation can only be settled over generated inequalities.",
  [R+"cutting_planes.rs", R+"pb_blasting.rs"], [("inequality parsing and comparison", R+"cutting_planes.rs"), ("weighted bit sums", R+"pb_blasting.rs")],
  ["carcara::check verdict for a one-step proof"])

p("C08", "Accepted string and regular-expression steps are valid",
  "Whenever the checker accepts a string or regular-expression step (concatenation equality, unification, conflict, splitting and propagation, decomposition, length reasoning, regular-expression intersection and unfolding), the concluded formula is true for every assignment of strings that satisfies the premises, including empty strings, repeated components and multi-character or non-ASCII constants.",
  ["inputs"], "all concatenation shapes, string constants, directions (prefix and suffix), positions and regular expressions",
  "Tests list fixed concatenations, mostly of variables and one-character constants; wrong acceptances depend on empty or overlapping components and on the direction of the comparison.",
  [R+"strings.rs"], [("concatenation flattening and skolem construction", R+"strings.rs")],
  ["carcara::check verdict for a small proof"])

p("C09", "A rewrite step is accepted exactly when it instantiates its declared rule",
  "With a file of declared rewrite rules, a rewrite step naming a rule is accepted if and only if its conclusion is the declared conclusion with the declared arguments replaced by the given ones (simultaneously and without capture, list arguments spliced into the surrounding application, `or` and `and` applications left without arguments replaced by `false` and `true`, and `(or true)` and `(and false)` by their argument) and its premises are the declared premises under the same replacement; lists are only accepted for parameters declared as lists, and terms only for parameters of their sort.",
  ["inputs", "programs"], "all rule declarations over the supported parameter attributes, argument lists including empty and long lists, and conclusions",
  "The tests check a small set of fixed rules; splicing of empty, singleton and nested lists and mismatched premises need generated rules and arguments compared with an independent instantiation.",
  [R+"rare.rs", "carcara/src/rare/mod.rs", "carcara/src/parser/rare/mod.rs", "carcara/src/ast/rare_rules.rs"],
  [("rule instantiation", R+"rare.rs"), ("rule parser", "carcara/src/parser/rare/mod.rs"), ("list flattening and neutral elements", "carcara/src/rare/mod.rs")],
  ["carcara::check verdict"])

p("C10", "Correctly formed instances of every supported rule are accepted",
  "Every step that is a correct instance of a supported rule, as the rule is documented, is accepted: for any operand count, argument order the rule permits, index, numeric coefficient, width, equality orientation and nesting depth. A proof consisting only of such steps, ending in the empty clause, is declared valid.",
  ["inputs", "programs"], "all correct instances, generated by construction from each rule's schema",
  "Each rule has a handful of positive tests; over-rejection at other arities, indices, widths or orders goes unnoticed and makes correct proofs fail.",
  [R+"mod.rs", "carcara/src/checker/shared.rs", R+"tautology.rs", R+"clausification.rs", R+"simplification.rs", R+"resolution.rs", R+"linear_arithmetic.rs", R+"subproof.rs"],
  [("rule table", "carcara/src/checker/shared.rs"), ("rule functions", R)],
  ["carcara::check verdict"])

p("C11", "Assumptions are accepted only when they state an asserted formula",
  "A top-level assumption is accepted exactly when it is one of the problem's asserted formulas, up to the documented implicit reordering of equalities and expansion of n-ary operators; any other assumption is rejected. In the elaborated (strict) mode only a syntactically identical assertion is accepted.",
  ["inputs", "configurations"], "all assertion sets and assumed formulas, with near-miss variants, in normal and elaborated mode",
  "Tests assume literally asserted formulas; the looser matching path is only exercised by variants and near misses generated from the assertions.",
  ["carcara/src/checker/mod.rs", "carcara/src/checker/shared.rs", "carcara/src/checker/parallel/mod.rs", "carcara/src/ast/polyeq.rs"],
  [("assume checking against premises", "carcara/src/checker/shared.rs")],
  ["carcara::check verdict"])

p("C12", "A proof is declared valid only if it is a closed derivation of falsity",
  "The checker declares a proof valid only when every step refers to earlier steps in its own or an enclosing scope, every discharged assumption belongs to the subproof that ends there, names are unambiguous, and the empty clause is concluded at top level; in that case the problem's assertions are unsatisfiable. Corrupting a valid proof in any of these respects, or in the clause of any step so that it no longer follows, makes it be rejected.",
  ["programs", "inputs"], "all proofs with nested subproofs built by construction, and all single corruptions of references, scopes, discharges, clauses, order and final step",
  "Example proofs are all well-formed; the space of malformed structures (references into closed subproofs, forward references, missing or extra discharge, empty clause inside a subproof) is combinatorial.",
  ["carcara/src/parser/mod.rs", "carcara/src/checker/mod.rs", "carcara/src/ast/iter.rs", "carcara/src/checker/shared.rs"],
  [("scoped step-identifier table", "carcara/src/parser/mod.rs"), ("proof traversal and end condition", "carcara/src/checker/mod.rs")],
  ["carcara::check verdict"])

p("C13", "Unchecked steps always make the verdict 'holey', never 'valid'",
  "If any step of a proof was not actually checked, because it is a hole, because its rule is unknown and unknown rules are to be ignored, or because its rule is in the user's list of allowed rules, then the verdict is 'holey'; without such steps it is never 'holey'. An unknown rule without those options is an error, and allowing or ignoring rules never changes the treatment of any other step.",
  ["programs", "configurations"], "all proofs with any mix of checked, hole, unknown and allowed rules at any nesting depth, under every combination of options, sequentially and in parallel",
  "No test looks at the holey flag for nested or mixed proofs or under parallel checking; a dropped flag silently upgrades an unchecked proof to a valid one.",
  ["carcara/src/checker/mod.rs", "carcara/src/checker/shared.rs", "carcara/src/checker/parallel/mod.rs", R+"extras.rs"],
  [("holey flag", "carcara/src/checker/shared.rs, carcara/src/checker/parallel/mod.rs")],
  ["carcara::check and carcara::check_parallel results"])

p("C14", "Parallel checking gives the sequential verdict for every thread count",
  "For every proof, problem and configuration, checking with any number of threads gives the same verdict (valid, holey or rejected) as sequential checking, on every run and whatever the timing. Every step is checked exactly once by some thread, and a step's substitution context and premises are the ones of its own scope.",
  ["programs", "schedules", "configurations"], "all proofs (valid and corrupted, with nested contexts and subproofs), thread counts and thread timings",
  "The example tests run only whole valid proofs with few thread counts; wrong scheduling of subproofs and contexts shows up only for particular proof shapes and thread counts.",
  ["carcara/src/checker/parallel/mod.rs", "carcara/src/checker/parallel/scheduler.rs", "carcara/src/ast/pool/advanced.rs", "carcara/src/ast/context.rs"],
  [("work distribution", "carcara/src/checker/parallel/scheduler.rs"), ("shared and per-thread term pools", "carcara/src/ast/pool/advanced.rs"), ("shared context stack", "carcara/src/ast/context.rs")],
  ["carcara::check_parallel vs carcara::check"])

p("C15", "A printed problem or proof parses back to the same terms and steps",
  "Printing any parsed proof, with or without term sharing, and parsing the output in the same problem gives a proof with the same steps, rules, premises, arguments, discharged assumptions, substitution contexts and terms; the same holds for the printed term of every sort, literal and quoted symbol. Sharing never changes what a term denotes, however often subterms repeat or whichever binders surround them.",
  ["inputs", "programs"], "all terms (every operator, indexed operator, literal, quoted symbol, binder, let) and all proof structures",
  "Printer tests cover a few terms; quoting, escapes, negative and decimal literals, indexed operators and sharing beneath binders are an open-ended space.",
  ["carcara/src/ast/printer.rs", "carcara/src/parser/mod.rs", "carcara/src/parser/lexer.rs"],
  [("term and proof printer with sharing", "carcara/src/ast/printer.rs")],
  ["carcara::ast printing functions, carcara::parser"])

p("C16", "Elaboration preserves validity, conclusions and assumptions",
  "Elaborating a proof that checks, with any selection and order of elaboration passes, gives a proof of the same problem that still checks (also after being printed and parsed), uses only assumptions the original used or could use, still concludes the empty clause, and is holey only if the original was. After the full pipeline the result also passes the strict elaborated-mode check for the constructs it claims to elaborate.",
  ["programs", "configurations"], "all accepted proofs over the supported rules with nested subproofs, and all pass pipelines",
  "The example tests elaborate a fixed set of solver proofs with the default pipeline; passes interact, and each rewrites steps according to shapes (orientation, repeated premises, crowding literals) that need generation.",
  ["carcara/src/elaborator/mod.rs", "carcara/src/elaborator/polyeq.rs", "carcara/src/elaborator/transitivity.rs", "carcara/src/elaborator/congruence.rs", "carcara/src/elaborator/resolution.rs", "carcara/src/elaborator/uncrowding.rs", "carcara/src/elaborator/reordering.rs", "carcara/src/elaborator/reflexivity.rs", "carcara/src/elaborator/subproof.rs", "carcara/src/ast/node.rs"],
  [("elaboration passes", "carcara/src/elaborator/"), ("proof DAG conversion", "carcara/src/ast/node.rs")],
  ["carcara::check_and_elaborate followed by carcara::check"])

p("C17", "Slicing keeps exactly a checkable derivation of the chosen step",
  "Slicing a proof at any step and distance bound gives a problem and proof that print, parse and (when the original checks) check as holey, ending in the dummy step slice_end that concludes the empty clause from the sliced step or its outermost enclosing subproof. Steps within the bound of the sliced step (through premises, discharged assumptions and the implicit last step of a subproof) keep their rule, clause, premises, arguments and discharges; the next layer becomes holes with the same id and clause; enclosing anchors, their assumptions, closing steps and the steps these refer to are kept; everything else is left out. The sliced problem asserts exactly the top-level assumptions kept. Only ids of steps can be sliced.",
  ["programs", "inputs"], "all proofs with nested subproofs, all step identifiers and distance bounds",
  "Slice tests use a couple of fixed proofs; dependency tracking through subproofs, discharges and contexts must hold for every structure and step.",
  ["carcara/src/slice.rs", "cli/src/main.rs"], [("dependency slice", "carcara/src/slice.rs")],
  ["carcara::slice::slice output, carcara slice command"])

p("C18", "Any input is handled or rejected with an error, never a crash",
  "For arbitrary problem, proof and rewrite-rule text, whether malformed, ill-sorted, truncated or well-formed but nonsensical, parsing, checking (sequential or parallel), elaborating, slicing and printing return a result or an error; they never panic, abort or loop forever, as long as the nesting fits the stack and the sizes named in the input (widths, powers, repetitions) fit the memory. A step with missing or surplus premises, arguments or literals is an ordinary checking error.",
  ["inputs", "programs"], "all byte strings, and all structurally mutated problems, proofs and rule files",
  "Tests exercise error paths one by one; panics come from combinations of operators, arities, literals and indices nobody listed.",
  ["carcara/src/parser/mod.rs", "carcara/src/parser/lexer.rs", "carcara/src/checker/mod.rs", R+"mod.rs", "carcara/src/ast/macros.rs"],
  [("error types instead of panics", "carcara/src/parser/error.rs, carcara/src/checker/error.rs"), ("arity assertions", R+"mod.rs")],
  ["process and library result"])

p("C19", "Parsing gives every token, literal and term its SMT-LIB meaning",
  "Numerals, decimals, fractions, hexadecimal and binary bit-vectors, strings with escapes, quoted symbols, comments, indexed identifiers, attributes and named terms are read with exactly the value SMT-LIB (or the Alethe format) gives them, independent of whitespace, comments and symbol quoting. Two texts that denote the same term parse to the same term and texts that denote different terms do not.",
  ["inputs"], "all lexical spellings of literals and symbols, whitespace and comment placements, and term shapes",
  "Lexer tests list some literals; value errors in leading zeros, case, escapes, long digits or negative numbers need generated spellings with an independent reading.",
  ["carcara/src/parser/lexer.rs", "carcara/src/parser/mod.rs", "carcara/src/ast/term.rs"],
  [("tokenizer", "carcara/src/parser/lexer.rs"), ("term parser", "carcara/src/parser/mod.rs")],
  ["parsed terms via carcara::parser"])

p("C20", "Ill-sorted terms are rejected and every accepted term has its SMT-LIB sort",
  "The parser accepts a term exactly when it is well-sorted for the declarations in scope under SMT-LIB's signatures (with the documented extensions: Int/Real subtyping when enabled and chained or n-ary uses of operators), and the sort it assigns to an accepted term is the sort SMT-LIB gives it. Ill-sorted or wrong-arity applications, undeclared symbols and malformed indices are rejected with an error. Not specified: uses of n-ary str.< and str.<=, bare function symbols as arguments, and Int where a subtyping parser could promote to Real outside arithmetic operators.",
  ["inputs", "configurations"], "all operators, argument sorts and arities, indices, declarations and parser options",
  "Sort tests touch a subset of operators with one or two bad calls each; the signature table has over a hundred operators with arity, sort and index conditions.",
  ["carcara/src/parser/mod.rs", "carcara/src/ast/pool/mod.rs", "carcara/src/parser/error.rs"],
  [("sort checking of operator applications", "carcara/src/parser/mod.rs"), ("sort computation", "carcara/src/ast/pool/mod.rs")],
  ["carcara::parser result, sort reported by the term pool"])

p("C21", "Substitution is simultaneous and capture-avoiding",
  "Applying a substitution to a term replaces all and only the free occurrences of its variables, simultaneously, without capturing any variable of the substituted terms: the result is the term's value under the correspondingly changed assignment, for every model. The reported set of free variables of a term is exactly the set of variables its value can depend on syntactically.",
  ["inputs", "histories"], "all terms with nested binders, lets, choice and lambda; all substitutions including variables-to-variables, cyclic and capturing ones; repeated use of one substitution or pool",
  "Substitution tests have about a dozen cases with at most two nested binders; capture depends on name clashes between binders, images and cached results.",
  ["carcara/src/ast/substitution.rs", "carcara/src/ast/pool/mod.rs"],
  [("capture avoidance and caching", "carcara/src/ast/substitution.rs"), ("free-variable cache", "carcara/src/ast/pool/mod.rs")],
  ["carcara::ast::Substitution, TermPool::free_vars"])

p("C22", "Definitions, lets, macros and named terms denote their bodies",
  "A function definition, constant definition, let binding, named term or shared proof term stands for exactly its body with the actual arguments put in for the parameters, simultaneously and without capture, wherever it is used. Expanding lets or definitions through the parser options never changes what any formula denotes, nor turns an accepted proof into one whose assertions are satisfiable.",
  ["inputs", "configurations"], "all nested and shadowing definitions, lets and named terms, and all combinations of expansion options",
  "Tests expand single, simple definitions; shadowed parameters, definitions using one another, and lets that rebind a variable of an outer scope need generated programs.",
  ["carcara/src/parser/mod.rs", "carcara/src/ast/substitution.rs"],
  [("definition expansion", "carcara/src/parser/mod.rs"), ("let expansion", "carcara/src/parser/mod.rs")],
  ["parsed problem and proof terms"])

p("C23", "Terms treated as equal modulo reordering or renaming are equivalent",
  "Two terms that the polyequality test (modulo reordering of equalities, operator expansion, and optionally alpha-renaming) or the alpha-equivalence test declares equal have the same value in every model, and the test is reflexive and symmetric. Conversely variants made only by the documented transformations (flipping equalities, consistently renaming bound variables, expanding n-ary operators) are declared equal.",
  ["inputs"], "all term pairs: variants by the documented transformations, near misses by one local change, and unrelated terms",
  "The tests enumerate a few pairs; an error in one operator's expansion or in tracking of bound variables makes distinct formulas equal and is used in almost every rule.",
  ["carcara/src/ast/polyeq.rs"], [("polyequal comparator with alpha-equivalence", "carcara/src/ast/polyeq.rs")],
  ["carcara::ast::polyeq, Polyeq, alpha_equiv"])

p("C24", "Constant evaluation agrees with SMT-LIB semantics",
  "Evaluating a ground term over Booleans, integers, reals, bit-vectors and strings gives exactly the value SMT-LIB assigns to it, for every supported operator, width, sign and size, or reports that it cannot be evaluated; it never yields a different constant. Consequently an accepted evaluation step equates a term only with its true value.",
  ["inputs"], "all ground terms over the supported operators, with zero divisors, negative operands, extreme indices and shift amounts",
  "There are a few evaluation tests on small positive constants; signedness, rounding direction, zero divisors and index boundaries need enumeration against a reference semantics.",
  ["carcara/src/ast/evaluate.rs", R+"extras.rs"], [("ground evaluator", "carcara/src/ast/evaluate.rs")],
  ["evaluate rule verdict"])

p("C25", "The command-line verdict is faithful and deterministic",
  "For every problem and proof the check command prints 'valid', 'holey' or 'invalid' according to the library's result with the same options, exits successfully exactly when the proof is not rejected, and gives the same output on every run and for every input route (files, inferred problem file, standard input, thread count, statistics output). Other commands' printed proofs parse and check again, and errors name the failing step and rule.",
  ["inputs", "configurations", "programs"], "all proofs and problems and combinations of command-line options",
  "There are no tests of the command-line program at all.",
  ["cli/src/main.rs", "cli/src/error.rs", "cli/src/path_args.rs", "cli/src/logger.rs"],
  [("command dispatch and verdict printing", "cli/src/main.rs")],
  ["stdout, stderr and exit status of the carcara executable"])

p("C26", "Benchmark statistics are exact and independent of merge order",
  "Collecting statistics never changes a verdict; combining partial statistics from several runs or threads gives the same counts, totals, means, deviations, minima and maxima as collecting all samples into one, whatever the grouping and order of the merges. Every checked step contributes exactly one sample under its own rule.",
  ["histories", "inputs", "configurations"], "all sample sequences and all ways to split and merge them; all proofs with statistics on",
  "Tests merge one random partition per run for one metric type; empty partitions, single samples, equal values and every accessor are not covered.",
  ["carcara/src/benchmarking/metrics.rs", "carcara/src/benchmarking/mod.rs", "carcara/src/lib.rs", "cli/src/benchmarking.rs"],
  [("online mean/variance and merge", "carcara/src/benchmarking/metrics.rs")],
  ["carcara::benchmarking types, statistics in carcara::check"])

p("C27", "Steps delegated to an external solver are replaced only by checked proofs",
  "When elaboration asks an external solver about a linear-integer-arithmetic or hole step, the problem sent states exactly that step's clause to be refuted, and whatever the solver answers (a wrong, truncated, ill-sorted or unrelated proof, no output, garbage, an error status) the step is replaced only by a proof that itself checks and proves that clause; otherwise it stays an unchecked hole. A faulty solver therefore never makes an invalid step pass and never crashes the elaborator.",
  ["fault_sequences", "inputs", "programs"], "all delegated steps and all solver outputs, correct or faulty",
  "No test runs an external solver; only injected outputs can show what happens when it misbehaves.",
  ["carcara/src/elaborator/hole.rs", "carcara/src/elaborator/lia_generic.rs", "carcara/src/checker/lia_generic.rs", "carcara/src/lib.rs"],
  [("solver call and validation of its proof", "carcara/src/elaborator/hole.rs, carcara/src/elaborator/lia_generic.rs")],
  ["check_and_elaborate with a scripted solver; generated LIA problems"])

p("C28", "The term pool gives one representation and right data per term",
  "Within a pool, building the same term twice yields the same shared object and different terms yield different objects, whatever the order of construction and whichever thread or pool layer builds them; the sort and free variables reported for a term do not depend on the history of the pool.",
  ["histories", "schedules", "inputs"], "all sequences of term constructions and queries, over the primitive pool and layered per-thread pools",
  "Pool behaviour is only tested incidentally; caching errors depend on the order in which terms and their subterms are built and queried.",
  ["carcara/src/ast/pool/mod.rs", "carcara/src/ast/pool/advanced.rs", "carcara/src/ast/pool/storage.rs", "carcara/src/ast/rc.rs"],
  [("hash consing storage", "carcara/src/ast/pool/storage.rs"), ("layered pools", "carcara/src/ast/pool/advanced.rs")],
  ["pointer equality, TermPool::sort, TermPool::free_vars"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
