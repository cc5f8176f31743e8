use crate::carc::Opts;
use crate::g::G;
use crate::runner::{Case, Prop};
use crate::step::*;
use crate::*;

const SOUND_RULE: &str = "one proof step per case: a correct instance of a rule built by construction, then 0-3 structural mutations of its terms, literals, premises or arguments; non-trivial = the step parsed and was decided (accepted or rejected) by its own rule, and if accepted the oracle could evaluate it in at least one model; distinct by hash of the proof text";

const CTX_RULE: &str = "one proof per case: nested bind/let/bind_let/onepoint/sko/subproof proofs of an equality between formulas with binders, or single quantifier steps, then 0-3 mutations (consistent renaming of bound names, anchor arguments, literals, premises, order); non-trivial = decided by its own rule and, if accepted, at least one model satisfies all hypotheses and evaluates a judged step; distinct by hash of the proof text";

fn c02_sound(g: &mut G) -> Case {
    sound_case(g, &fam_prop::fams(), 250, &Opts::default())
}
fn c10_prop(g: &mut G) -> Case {
    complete_case(g, &fam_prop::fams(), &Opts::default())
}

fn c01_sound(g: &mut G) -> Case {
    let o = Opts { elaborated: g.chance(1, 8), ..Opts::default() };
    sound_case(g, &fam_res::sound_fams(), 130, &o)
}
fn c10_res(g: &mut G) -> Case {
    complete_case(g, &fam_res::fams(), &Opts::default())
}
fn c03_sound(g: &mut G) -> Case {
    sound_case(g, &fam_eq::fams(), 250, &Opts::default())
}
fn c10_eq(g: &mut G) -> Case {
    complete_case(g, &fam_eq::fams(), &Opts::default())
}
fn c04_sound(g: &mut G) -> Case {
    sound_case(g, &fam_arith::fams(), 450, &Opts::default())
}
fn c10_arith(g: &mut G) -> Case {
    complete_case(g, &fam_arith::fams(), &Opts::default())
}

fn c05_quant(g: &mut G) -> Case {
    sound_case(g, &fam_quant::fams(), 150, &Opts::default())
}
fn c10_quant(g: &mut G) -> Case {
    complete_case(g, &fam_quant::fams(), &Opts::default())
}

fn c06_sound(g: &mut G) -> Case {
    sound_case(g, &fam_bits::fams(), 80, &Opts::default())
}
fn c10_bits(g: &mut G) -> Case {
    complete_case(g, &fam_bits::fams(), &Opts::default())
}
fn c07_sound(g: &mut G) -> Case {
    sound_case_if(g, &fam_bits::pb_fams(), 150, &Opts::default(), fam_bits::pb_judged)
}
fn c10_pb(g: &mut G) -> Case {
    complete_case(g, &fam_bits::pb_fams(), &Opts::default())
}

fn c10_str(g: &mut G) -> Case {
    complete_case(g, &fam_str::complete_fams(), &Opts::default())
}

pub fn all() -> Vec<Prop> {
    vec![
        Prop::new("C01", SOUND_RULE).stream("steps", 800_000, 30_000_000, c01_sound),
        Prop::new("C02", SOUND_RULE).stream("steps", 600_000, 20_000_000, c02_sound),
        Prop::new("C03", SOUND_RULE).stream("steps", 800_000, 20_000_000, c03_sound),
        Prop::new("C04", SOUND_RULE).stream("steps", 500_000, 20_000_000, c04_sound),
        Prop::new("C05", CTX_RULE).stream("ctx", 500_000, 12_000_000, fam_ctx::sound).stream("quant", 600_000, 8_000_000, c05_quant),
        Prop::new("C06", SOUND_RULE).stream("steps", 400_000, 10_000_000, c06_sound),
        Prop::new("C07", SOUND_RULE).stream("steps", 600_000, 15_000_000, c07_sound),
        Prop::new("C08", SOUND_RULE).stream("steps", 500_000, 12_000_000, fam_str::sound).stream("unfold", 100_000, 3_000_000, fam_str::unfold).pin(fam_str::DECOMPOSE, fam_str::pin_decompose).pin(fam_str::UNFOLD, fam_str::pin_unfold),
        Prop::new("C09", "1-3 random rule declarations (plain, list and type parameters, 0-2 premises, binders and lets in bodies) and a step built as an instance of one of them by an independent instantiation, with 0-2 mutations of conclusion, premises, arguments or rule name; and sound rules with hostile arguments whose accepted steps are compared with the evaluator; non-trivial = parsed and the verdict is specified; distinct by hash of rule file and proof").stream("instance", 200_000, 8_000_000, fam_rare::instance).stream("sound", 200_000, 8_000_000, fam_rare::sound),
        Prop::new("C11", "a problem with 1-4 random assertions and an assumption that is one of them, a documented variant, a mutant or an unrelated term, in normal or strict mode, at top level or in a subproof; non-trivial = parsed; distinct by hash").stream("assume", 400_000, 15_000_000, fam_whole::assumes),
        Prop::new("C12", "a whole closed proof, structurally corrupted 0-2 times (premises, ids, scopes, discharge lists, anchors, assertions, clauses); non-trivial = parsed, or rejected by the parser although the harness's own reader accepts the text; distinct by hash").stream("structure", 250_000, 8_000_000, fam_whole::structure),
        Prop::new("C13", "an accepted whole proof, random allowed/ignored rules, 0-2 steps renamed to unknown rules, sometimes one damaged clause; non-trivial = the base proof is accepted; distinct by hash of options and proof").stream("holey", 200_000, 8_000_000, fam_whole::holey),
        Prop::new("C14", "a whole proof (random resolution refutations with nested subproofs, binder proofs, single-rule proofs, all closed against real assertions), 0-2 mutations, random checker options; checked sequentially and with 2-5 thread counts; non-trivial = parsed; distinct by hash").stream("par", 60_000, 3_000_000, fam_whole::parallel),
        Prop::new("C21", "a random term (quantifiers, lets, choice, shadowing) and a simultaneous map of 1-3 of its free constants to random terms of the same sorts, names clashing with binders on purpose; non-trivial = parsed and at least one constant in the domain; distinct by hash of all texts").stream("subst", 400_000, 20_000_000, fam_term::subst),
        Prop::new("C23", "a random term, a variant made by the documented transformations and a mutant, compared under random modes; non-trivial = parsed and compared; distinct by hash").stream("poly", 400_000, 20_000_000, fam_term::poly),
        Prop::new("C24", "a random ground term (1 case in 4 with free constants) over every Boolean, integer, real, bit-vector (widths 1-70) operator of the evaluator, evaluated by the library and used in an `evaluate` step, plus mutated `evaluate` steps; non-trivial = parsed and has at least one operator; distinct by hash of the term").stream("eval", 800_000, 30_000_000, fam_const::evaluate).pin("evaluate mod with negative dividend truncates", fam_const::pin_mod),
        Prop::new("C28", "2-8 random terms (with repetitions and one-place mutants) built in several pools, orders and layers; non-trivial = all parsed; distinct by hash").stream("pool", 150_000, 6_000_000, fam_term::pool),
        Prop::new("C15", "a meaningless but well-formed proof using every syntactic form (or a whole proof), with unusual quoted names, proof-level definitions and named terms, under random parser options and with or without sharing; non-trivial = parsed; distinct by hash of texts and options").stream("roundtrip", 150_000, 6_000_000, fam_print::roundtrip).stream("problem", 100_000, 3_000_000, fam_print::problem),
        Prop::new("C16", "an accepted whole proof (refutation with subproofs, binder proof or single-rule proof), elaborated with the full pipeline or a random sequence of passes; non-trivial = the original is accepted; distinct by hash of texts, options and passes").stream("elab", 180_000, 3_000_000, fam_elab::elab).stream("loose", 240_000, 4_000_000, fam_elab::elab_loose).pin(fam_elab::RES, fam_elab::pin_res).pin(fam_elab::REFL, fam_elab::pin_refl).pin(fam_elab::DISCHARGE, fam_elab::pin_discharge).pin(fam_elab::LET, fam_elab::pin_let).pin(fam_elab::NARY, fam_elab::pin_nary),
        Prop::new("C17", "an accepted whole proof (assumptions partly moved down, local ids partly repeated) or a meaningless well-formed proof, sliced at three random steps and distances (0 to the largest machine integer) and compared with a reference slicer; non-trivial = the proof is parsed (first stream: accepted); distinct by hash of texts and slice options").stream("accepted", 60_000, 2_500_000, fam_slice::accepted).stream("structure", 100_000, 4_000_000, fam_slice::structure),
        Prop::new("C18", "a valid instance of any rule, a whole or a meaningless proof with 1-6 changes of rule names, premises, arguments, literals, anchors and terms; or the token texts of problem, proof or rule file garbled 1-8 times; run through checking (sequential and parallel), elaboration, printing, slicing and problem generation under random options; every case counts; distinct by hash of texts and options").stream("steps", 300_000, 15_000_000, fam_panic::steps).stream("anything", 300_000, 15_000_000, fam_panic::anything).stream("texts", 150_000, 8_000_000, fam_panic::texts).stream("rules", 60_000, 3_000_000, fam_panic::rules).pin(fam_panic::LET, fam_elab::pin_let).pin(fam_panic::NARY, fam_elab::pin_nary),
        Prop::new("C19", "sequences of 1-6 tokens of known value in random spellings; lexical fragments and changed spellings read by a reference tokenizer; terms with unusual literals, annotations, quoting, white space and comments next to their plain text and next to a different term; whole problems and proofs next to respelled ones with neutral commands and attributes; integer literals under 21 logics; non-trivial = the reference settles the reading, the texts parse; distinct by hash of the texts").stream("tokens", 400_000, 20_000_000, fam_parse::tokens).stream("garbage", 400_000, 20_000_000, fam_parse::garbage).stream("terms", 150_000, 7_000_000, fam_parse::terms).stream("texts", 60_000, 2_500_000, fam_parse::texts).stream("logics", 20_000, 500_000, fam_parse::logics),
        Prop::new("C20", "a random term over every operator of the signature table (declared sorts with arities, defined sorts, functions, binders, lets), damaged at 0-2 places (arguments replaced, dropped, added or swapped, indices, sorts), as an assertion, literal, assumption, step argument, definition body, anchor value or function argument; non-trivial = the reference checker decides it; distinct by hash of texts and options").stream("terms", 500_000, 20_000_000, fam_sort::terms),
        Prop::new("C22", "1-4 function and constant definitions using one another with shadowing parameters and bound variables, named terms and lets, under all expansion options; recursive definitions; sort definitions; whole proofs with definitions, named terms and lets put in for occurrences of terms; non-trivial = parsed, without a use of the known capture, and (proofs) at least one replacement; distinct by hash of the texts and options").stream("programs", 250_000, 12_000_000, fam_defs::programs).stream("recursive", 60_000, 2_500_000, fam_defs::recursive).stream("sorts", 150_000, 5_000_000, fam_defs::sorts).stream("proofs", 80_000, 4_000_000, fam_defs::proofs).pin(fam_defs::CAPTURE, fam_defs::pin_capture),
        Prop::new("C26", "histories of samples added to and merged between several collectors (single metrics of durations, floats and integers; whole result collections in both forms), and whole proofs checked with statistics, sequentially or in parallel; non-trivial = at least one merge, or the proof is parsed; distinct by hash of the history").stream("metrics", 200_000, 10_000_000, fam_stats::metrics).stream("results", 100_000, 5_000_000, fam_stats::results).stream("checker", 60_000, 3_000_000, fam_stats::checker).stream("bench", 3_000, 150_000, fam_cli::bench),
        Prop::new("C25", "a whole, mutated, truncated, meaningless or rule-file instance given to the built program: `check` over 2-3 random routes (files, inferred problem, standard input, buffered, statistics, threads, quiet), the other commands with random options, random file names for inference, and rejected proofs whose blamed step is replaced; non-trivial = the library does not panic on it; distinct by hash of texts and options").stream("verdicts", 6_000, 250_000, fam_cli::verdicts).stream("commands", 8_000, 350_000, fam_cli::commands).stream("paths", 2_000, 20_000, fam_cli::paths).stream("blame", 60_000, 4_000_000, fam_cli::blame),
        Prop::new("C10", "correct rule instances by construction; every case counts").stream("prop", 200_000, 5_000_000, c10_prop).stream("res", 150_000, 5_000_000, c10_res).stream("eq", 150_000, 5_000_000, c10_eq).stream("arith", 150_000, 5_000_000, c10_arith).stream("ctx", 100_000, 3_000_000, fam_ctx::comp).stream("quant", 150_000, 5_000_000, c10_quant).stream("bits", 100_000, 3_000_000, c10_bits).stream("pb", 150_000, 5_000_000, c10_pb).stream("str", 100_000, 4_000_000, c10_str),
    ]
}
