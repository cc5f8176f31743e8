NA = {}
STEP = "Random exploration of generated proof steps against an independent SMT-LIB evaluator (finite and random models); it shows the absence of violations only on the cases of the run, with the finite models and term sizes of the generator."
MUT = "property-based testing: generated and mutated proof steps, countermodel search with an independent evaluator"
CLAIMS = {
 "C01": (MUT, STEP),
 "C03": (MUT, STEP),
 "C04": (MUT, STEP),
 "C02": (MUT, STEP),
 "C05": (MUT, STEP),
 "C09": ("property-based testing: generated rule declarations, instances and mutants against an independent instantiation; sound rules with hostile arguments against the evaluator", "Random exploration of rule declarations; the exact names given to renamed bound variables and plain terms given for list parameters are not judged."),
 "C10": ("property-based testing: correct-by-construction rule instances must be accepted", "Random exploration of correct instances per rule family; trusts the constructors' reading of the Alethe specification and of the checker's documented behaviour."),
 "C11": ("property-based testing: generated assertions and assumptions; oracle: variants by construction, semantic comparison", STEP),
 "C12": ("property-based testing: structural corruption of generated closed proofs; oracle: independent structure checker and countermodel search", STEP),
 "C13": ("property-based testing: generated proofs with unknown/allowed rules against a reference verdict", "Random exploration against a small reference model of which steps count as unchecked."),
 "C14": ("property-based testing: differential test of sequential and parallel checking over thread counts", "Random exploration; thread timing is whatever the scheduler gives, so a race is found only if it happens during the run."),
 "C21": ("property-based testing: substitution against an independent implementation and evaluator (alpha-equality and value)", STEP),
 "C23": ("property-based testing: documented variants and mutants of generated terms, evaluator as oracle", STEP),
 "C28": ("property-based testing: model-based construction histories over layered pools", "Random construction orders and pool layers, including two threads; absence of violations only on the histories of the run."),
 "C24": ("property-based testing: generated ground terms, library evaluator and `evaluate` rule against an independent SMT-LIB evaluator", STEP),
 "C06": (MUT, STEP),
 "C08": (MUT, STEP + " String models use short strings over a small alphabet and regular-expression membership is decided by derivative on those."),
 "C07": (MUT, STEP + " Pseudo-Boolean literals are 0-1 variables, as the rules assume."),
 "C15": ("property-based testing: print/parse round trips of generated proofs and problems; oracle: the parsed structure and an independent reader of the text", "Random exploration of generated proofs and problems over every syntactic form, with and without sharing."),
 "C16": ("property-based testing: generated accepted proofs elaborated with random pass sequences; oracle: the checker (itself tested by C01-C10) on the printed result, the assumptions, and idempotence", "Random exploration of accepted proofs; known incompletenesses of the elaborator are listed as known findings."),
 "C17": ("property-based testing: generated proofs sliced at random steps and distances; oracle: a reference slicer written from the documentation, and the checker on the printed slice", "Random exploration of proofs with nested subproofs, repeated local ids, late assumptions and all distances."),
 "C18": ("property-based testing / fuzzing: mutated instances of every rule, well-sorted terms over every operator in steps of every rule, garbled token texts; oracle: no panic, no crash of the process, no endless case", "Random exploration, not coverage-guided; two known panics of the elaborator are listed as known findings and their inputs (let terms, n-ary assumptions) are not elaborated by this check. Sizes above 2000 bits or repetitions and deep nesting are not generated."),
 "C20": ("property-based testing: generated well- and ill-sorted terms in every position; oracle: an independent sort checker over the SMT-LIB signatures and documented extensions", "Random exploration over every operator, sort declaration and parser option."),
 "C19": ("property-based testing: token sequences and terms of known value in generated spellings, a reference tokenizer on arbitrary text, respelled whole problems and proofs; oracle: the known tokens, the term's own tree and value, equality of the parsed terms", "Random exploration; readings that the standard leaves open (`1.`, `#b012`, surrogate escapes) are not judged."),
 "C22": ("property-based testing: generated definitions (functions, constants, recursive, sorts, named terms, lets, macros in proofs) with shadowing; oracle: an independent capture-avoiding expansion, itself tested against the evaluator, and alpha-equality of expanded and unexpanded proofs", "Random exploration; uses where a free constant of a definition's body is bound are a known finding and not judged."),
 "C25": ("property-based testing: differential test of the command line tool against the library on generated instances and flags; the rejected step is confirmed by trusting it", "Random exploration of option combinations and file layouts; process exit status, standard output, error output and written files are compared with what the library gives for the same input. The blamed step is confirmed by a metamorphic relation (trusting only this step moves or removes the error)."),
 "C26": ("property-based testing: model-based histories of measurements (add, combine) against exact arithmetic; checker runs and the bench command against the parsed proof", "Random exploration; the statistics are compared with exact integer arithmetic on the recorded samples, durations of real runs are only checked for consistency with each other."),
}
