B = []
def bug(id, property, file, rep, inputs, runs, needs, breaks, **k):
    B.append(dict(id=id, property=property, file=file, rep=rep, inputs=inputs, runs=runs, needs=needs, breaks=breaks, **k))
R = "carcara/src/checker/rules/"
# a proof that is only holey (or valid) if all of its steps are accepted
def pf(*steps): return "\n".join(steps) + "\n(step zz (cl) :rule hole)\n"

PROP = """
(set-logic QF_UF)
(declare-const p Bool) (declare-const q Bool) (declare-const e Bool) (declare-const f Bool)
(assert p)
"""
UF = """
(set-logic QF_UF)
(declare-sort U 0)
(declare-const a U) (declare-const b U) (declare-const c U) (declare-const d U)
(assert true)
"""
def one(prob, good, bad): return ({"p.smt2": prob, "good.alethe": pf(*good), "bad.alethe": pf(*bad)},
   [("holey", "check", "good.alethe", "p.smt2"), ("invalid", "check", "bad.alethe", "p.smt2")])

bug("c01-unit-conclusion-parity", "C01", "carcara/src/resolution.rs",
  [("if conclusion == *pivot && (i % 2) == (j % 2) {", "if conclusion == *pivot && (i - j) % 2 <= 0 {")],
  *one(PROP, ["(step t1 (cl (not e)) :rule hole)", "(step t2 (cl e f) :rule hole)", "(step t3 (cl (not (not f))) :rule resolution :premises (t1 t2))"],
             ["(step t1 (cl (not e)) :rule hole)", "(step t2 (cl e f) :rule hole)", "(step t3 (cl (not f)) :rule resolution :premises (t1 t2))"]),
  "a resolution step with a single literal in the conclusion, whose only remaining pivot is the same atom with fewer negations, an odd number apart",
  "(cl (not f)) is accepted as the resolvent of (cl (not e)) and (cl e f)")

bug("c02-and-simplify-polarity", "C02", R+"simplification.rs",
  [("""    let seen: IndexSet<(bool, &Rc<Term>)> = phis
        .iter()
        .map(Rc::remove_all_negations_with_polarity)
        .collect();""", """    let seen: IndexSet<(bool, &Rc<Term>)> = phis
        .iter()
        .map(Rc::remove_all_negations)
        .map(|(n, t)| (n == 0, t))
        .collect();"""),
   ("""        let (polarity, inner) = term.remove_all_negations_with_polarity();
        if seen.contains(&(!polarity, inner)) || term""", """        let (n, inner) = term.remove_all_negations();
        if (n <= 1 && seen.contains(&(n != 0, inner))) || term""")],
  *one(PROP, ["(step t1 (cl (= (and p q (not p)) false)) :rule and_simplify)"],
             ["(step t1 (cl (= (and p q (not (not p))) false)) :rule and_simplify)"]),
  "an and/or whose arguments contain a term and its double negation",
  "(and p (not (not p))) is simplified to false")

bug("c02-ite-nested-negated", "C02", R+"simplification.rs",
  [("(ite phi t_1 (ite phi t_2 t_3)): (phi_1, t_1, (phi_2, _, t_3)) if phi_1 == phi_2 => {",
    "(ite phi t_1 (ite phi t_2 t_3)): (phi_1, t_1, (phi_2, _, t_3))\n                if phi_1 == phi_2 || phi_2.remove_negation() == Some(phi_1) => {")],
  *one(PROP, ["(step t1 (cl (= (ite p q (ite p e f)) (ite p q f))) :rule ite_simplify)"],
             ["(step t1 (cl (= (ite p q (ite (not p) e f)) (ite p q f))) :rule ite_simplify)"]),
  "a nested ite in the else branch whose condition is the negation of the outer one",
  "the wrong branch of the inner ite is kept")

bug("c03-cong-surplus-premise", "C03", R+"congruence.rs",
  [("""    // At the end, all premises must have been consumed
    if premises.next().is_none() {""", """    // At the end, all premises must have been consumed. A trailing reflexive premise is harmless
    if premises.next().is_none_or(|(t, u)| t == u) {""")],
  {}, [], "", "")
B.pop()

bug("c03-cong-indexed-args", "C03", R+"congruence.rs",
  [("if f_op != g_op || f_op_args != g_op_args {", "if f_op != g_op || f_op_args.len() != g_op_args.len() {")],
  *one("(set-logic QF_BV)\n(declare-const x (_ BitVec 8)) (declare-const y (_ BitVec 8))\n(assert true)",
       ["(step t1 (cl (= x y)) :rule hole)", "(step t2 (cl (= ((_ extract 3 0) x) ((_ extract 3 0) y))) :rule cong :premises (t1))"],
       ["(step t1 (cl (= x y)) :rule hole)", "(step t2 (cl (= ((_ extract 3 0) x) ((_ extract 7 4) y))) :rule cong :premises (t1))"]),
  "cong over indexed operators with different indices but results of the same sort",
  "different slices of equal bit-vectors are taken as equal")

bug("c03-eq-transitive-loop", "C03", R+"transitivity.rs",
  [("    // When the conclusion is of the form (= a a), it is trivially valid\n    if conclusion.0 == conclusion.1 {",
    "    // When the conclusion is of the form (= a a), it is trivially valid\n    if conclusion.0 == conclusion.1 || premises.len() == 1 && premises[0].0 == premises[0].1 {")],
  *one(UF, ["(step t1 (cl (not (= a b)) (not (= b c)) (= a c)) :rule eq_transitive)"],
           ["(step t1 (cl (not (= a b)) (not (= d d)) (= a c)) :rule eq_transitive)"]),
  "a transitivity step whose last unused premise is a reflexive equality", "an unrelated equality is derived")

bug("c04-strengthen-ignores-constant", "C04", R+"linear_arithmetic.rs",
  [("        let mut result = self.1.numer().clone();\n", "        let mut result = Integer::new();\n")],
  *one("(set-logic QF_LIA)\n(declare-const x Int) (declare-const y Int)\n(assert true)",
       ["(step t1 (cl (not (<= (+ x y) 1)) (not (>= (+ x y) 2))) :rule la_generic :args (1 1))"],
       ["(step t1 (cl (not (<= (* 2 x) 1)) (not (>= (* 2 x) 0))) :rule la_generic :args (1 1))"]),
  "an integer constraint whose coefficients have a common divisor that does not divide the constant", "")
B.pop()

bug("c05-qnt-join-alternation", "C05", R+"quantifier.rs",
  [("    assert_eq(&q_1, &q_2)?;\n    assert_eq(&q_2, &q_3)?;\n    assert_eq(left, right)?;", "    assert_eq(&q_2, &q_3)?;\n    assert_eq(left, right)?;\n    if left.is_bool_constant(q_1 == Binder::Forall) || bindings_1.len() != bindings_2.len() {\n        assert_eq(&q_1, &q_2)?;\n    }")],
  *one("(set-logic UFLIA)\n(declare-fun r (Int Int) Bool)\n(assert true)",
       ["(step t1 (cl (= (forall ((x Int)) (forall ((y Int)) (r x y))) (forall ((x Int) (y Int)) (r x y)))) :rule qnt_join)"],
       ["(step t1 (cl (= (exists ((x Int)) (forall ((y Int)) (r x y))) (forall ((x Int) (y Int)) (r x y)))) :rule qnt_join)"]),
  "qnt_join over different quantifiers that bind the same number of variables", "alternating quantifiers are joined")

bug("c05-subproof-missing-discharge", "C05", R+"subproof.rs",
  [("    assert_clause_len(conclusion, discharge.len() + 1)?;\n\n    for (assumption", "    assert_clause_len(conclusion, 1..discharge.len() + 2)?;\n\n    for (assumption")],
  *one(PROP,
       ["(anchor :step t1)", "(assume t1.h1 p)", "(assume t1.h2 q)", "(step t1.t1 (cl (not p)) :rule hole)", "(step t1 (cl (not p) (not q) (not p)) :rule subproof :discharge (t1.h1 t1.h2))"],
       ["(anchor :step t1)", "(assume t1.h1 p)", "(assume t1.h2 q)", "(step t1.t1 (cl (not p)) :rule hole)", "(step t1 (cl (not p)) :rule subproof :discharge (t1.h1 t1.h2))"]),
  "a subproof with at least two assumptions whose conclusion is shorter than it should be and ends with the negation of one of the first ones",
  "an assumption is discharged without appearing in the conclusion")

bug("c06-slt-width-two", "C06", R+"bitvectors.rs",
  [("    if size == 1 {\n        return assert_eq(\n            &build_term!(pool, (and {x[0].clone()} (not {y[0].clone()}))),",
    "    if size <= 2 {\n        let i = size - 1;\n        return assert_eq(\n            &build_term!(pool, (and {x[i].clone()} (not {y[i].clone()}))),")],
  *one("(set-logic QF_BV)\n(declare-const x (_ BitVec 2)) (declare-const y (_ BitVec 2))\n(assert true)",
       ["(step t1 (cl (= (bvslt x y) (or (and (= ((_ @bit_of 1) x) ((_ @bit_of 1) y)) (and (not ((_ @bit_of 0) x)) ((_ @bit_of 0) y))) (and ((_ @bit_of 1) x) (not ((_ @bit_of 1) y)))))) :rule bitblast_slt)"],
       ["(step t1 (cl (= (bvslt x y) (and ((_ @bit_of 1) x) (not ((_ @bit_of 1) y))))) :rule bitblast_slt)"]),
  "a signed comparison of bit-vectors of width two", "the lower bit is ignored")

PB = "(set-logic QF_LIA)\n(declare-const x Int) (declare-const y Int)\n(assert true)"
bug("c07-multiplication-extra-literal", "C07", R+"cutting_planes.rs",
  [("""    // Verify constants match
    rassert!(
        scalar.clone() * constant_p.clone() == constant_c,
        CheckerError::ExpectedInteger(scalar.clone() * constant_p, conclusion.clone())
    );

    // Verify premise and conclusion share same keys
    assert_pbsum_same_keys(&pbsum_p, &pbsum_c)?;
""", """    // Verify constants match
    rassert!(
        scalar.clone() * constant_p.clone() == constant_c,
        CheckerError::ExpectedInteger(scalar.clone() * constant_p, conclusion.clone())
    );

    // Verify that every literal of the premise is still in the conclusion
    assert_pbsum_subset_keys(&pbsum_p, &pbsum_c)?;
""")],
  *one(PB, ["(step t1 (cl (>= (+ (* 1 x) (* 1 y)) 1)) :rule hole)", "(step t2 (cl (>= (+ (* 2 x) (* 2 y)) 2)) :rule cp_multiplication :premises (t1) :args (2))"],
           ["(step t1 (cl (>= (* 1 x) 1)) :rule hole)", "(step t2 (cl (>= (+ (* 2 x) (* -3 y)) 2)) :rule cp_multiplication :premises (t1) :args (2))"]),
  "a multiplication whose conclusion has a literal that is not in the premise, with a negative coefficient", "an unrelated term appears in the conclusion")

bug("c24-to-int-truncates", "C24", "carcara/src/ast/evaluate.rs",
  [("args[0].as_real()?.floor().into_numer_denom().0", "args[0].as_real()?.trunc().into_numer_denom().0")],
  *one("(set-logic QF_LIRA)\n(assert true)",
       ["(step t1 (cl (= (to_int 2.5) 2)) :rule evaluate)", "(step t2 (cl (= (to_int (- 2.5)) -3)) :rule evaluate)"],
       ["(step t1 (cl (= (to_int (- 2.5)) -2)) :rule evaluate)"]),
  "to_int of a negative number that is not an integer", "the number is rounded towards zero")

bug("c21-skip-whole-binder", "C21", "carcara/src/ast/substitution.rs",
  [("        if self.map.len() != 1 {\n            return false;", "        if self.map.is_empty() {\n            return false;")],
  *one("(set-logic UFLIA)\n(declare-fun r (Int Int) Bool) (declare-const a Int) (declare-const b Int)\n(assert true)",
       ["(step t1 (cl (or (not (forall ((x Int) (y Int)) (and (r x y) (forall ((z Int)) (r z y))))) (and (r a b) (forall ((z Int)) (r z b))))) :rule forall_inst :args (a b))"],
       ["(step t1 (cl (or (not (forall ((x Int) (y Int)) (and (r x y) (forall ((x Int)) (r x y))))) (and (r a b) (forall ((x Int)) (r x y))))) :rule forall_inst :args (a b))"]),
  "a substitution of at least two variables applied to a binder that binds the first of them again", "the other variables are not substituted in the binder")
