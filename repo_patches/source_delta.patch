From abd922f89c434c62090a29312c58f179bc818fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 01/94] fix: only remove duplicates in aci_simp for idempotent
 operators

For the other operators (e.g. bvxor, bvadd, +) removing a duplicate
changes the value of the term. Also return the identity when all the
arguments were removed, instead of an application with no arguments.
---
 carcara/src/checker/rules/simplification.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/carcara/src/checker/rules/simplification.rs b/carcara/src/checker/rules/simplification.rs
index 230667f..70f1955 100644
--- a/carcara/src/checker/rules/simplification.rs
+++ b/carcara/src/checker/rules/simplification.rs
@@ -858,10 +858,15 @@ fn apply_aci_simp(
     if let Some(t) = cache.get(term) {
         return t.clone();
     }
+    // Duplicates can only be removed if the operator is idempotent
+    let is_idempotent = matches!(
+        op,
+        Operator::And | Operator::Or | Operator::BvAnd | Operator::BvOr
+    );
     let result = match term.as_ref() {
         // flatten and remove duplicate on the result
         Term::Op(opp, args) if *opp == op => {
-            let args: Vec<_> = args
+            let args = args
                 .iter()
                 .flat_map(|term| {
                     let term = apply_aci_simp(pool, cache, term, op, identity);
@@ -870,11 +875,17 @@ fn apply_aci_simp(
                         _ => vec![term.clone()],
                     }
                 })
-                .dedup()
-                .filter(|t| identity.is_none() || *t.as_ref() != identity.clone().unwrap())
-                .collect();
+                .filter(|t| identity.is_none() || *t.as_ref() != identity.clone().unwrap());
+            let args: Vec<_> = if is_idempotent {
+                args.dedup().collect()
+            } else {
+                args.collect()
+            };
             if args.len() == 1 {
                 args[0].clone()
+            } else if let (true, Some(identity)) = (args.is_empty(), identity) {
+                // All the arguments were the identity of the operator
+                pool.add(identity.clone())
             } else {
                 pool.add(Term::Op(op, args))
             }
-- 
2.43.0


From 484f536afa3fd5b442137f3eeae58851347dc6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 02/94] fix: track reintroduced pivots in greedy resolution

A pivot that was already eliminated stayed so when a later premise
reintroduced it, and two literals of the same premise could eliminate
each other. Either way, a clause that does not follow from the premises
was accepted, e.g. the empty clause from '(cl p (not p))' twice.
---
 carcara/src/resolution.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/carcara/src/resolution.rs b/carcara/src/resolution.rs
index e8dc80c..b4ee834 100644
--- a/carcara/src/resolution.rs
+++ b/carcara/src/resolution.rs
@@ -115,6 +115,11 @@ pub fn greedy_resolution(
         //     (step t2 (cl (= false true) false true) :rule equiv_neg2)
         //     (step t3 (cl (= false true)) :rule resolution :premises (t1 t2))
         let mut eliminated_clause_pivot = false;
+
+        // The pivots that are introduced by this premise. They are only added to the pivots set
+        // after the whole premise is processed, as a clause's literals cannot be used to eliminate
+        // each other
+        let mut new_pivots = Vec::new();
         for term in premise {
             let (n, inner) = term.remove_all_negations();
             let n = n as i32;
@@ -166,12 +171,17 @@ pub fn greedy_resolution(
             } else if conclusion.contains(&(n, inner)) {
                 working_clause.insert((n, inner));
             } else {
-                // If the term is not in the conclusion clause, it must be a pivot. If it was
-                // not already in the pivots set, we insert `false`, to indicate that it was
-                // not yet eliminated
-                pivots.entry((n, inner)).or_insert(false);
+                // If the term is not in the conclusion clause, it must be a pivot
+                new_pivots.push((n, inner));
             }
         }
+
+        // For each new pivot we insert `false`, to indicate that it was not yet eliminated. This
+        // is done even if it was already in the pivots set: if it had already been eliminated, this
+        // premise reintroduces it, so it must be eliminated again
+        for pivot in new_pivots {
+            pivots.insert(pivot, false);
+        }
     }
 
     // There are some special cases in the resolution rules that are valid, but leave a pivot
-- 
2.43.0


From 179c7068d87870ff7a7a4054468f51c5f97e3fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 03/94] fix: do not panic on malformed drup arguments

An argument that is not a clause, or the deletion of the empty clause,
made the checker panic.
---
 carcara/src/drup.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/carcara/src/drup.rs b/carcara/src/drup.rs
index 052267f..6c0720a 100644
--- a/carcara/src/drup.rs
+++ b/carcara/src/drup.rs
@@ -236,17 +236,13 @@ pub fn check_drup(
     let mut drup_history: DRupStory = vec![];
     for t in args {
         if let Some(terms) = match_term!((delete (cl ...)) = &t) {
-            let clause_term = if terms.is_empty() {
-                terms[0].clone()
-            } else {
-                build_term!(pool, (cl[terms.to_vec()]))
-            };
+            let clause_term = build_term!(pool, (cl[terms.to_vec()]));
             premises.remove(&hash_term(pool, &clause_term));
             drup_history.push(DRupProofAction::Delete(clause_term));
             continue;
         }
 
-        let terms = match_term!((cl ...) = &t).unwrap();
+        let terms = match_term!((cl ...) = &t).ok_or(DrupFormatError::PotentialNoDrupFormat)?;
         let mut unit_history = rup(pool, premises.borrow(), terms);
         if unit_history.is_none() && !terms.is_empty() && check_rat {
             unit_history = check_drat(pool, premises.borrow(), terms);
-- 
2.43.0


From 4e0ed60e5dc4d7373e9bf6e3d4b9579eedca4df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 04/94] fix: only allow RAT clauses in drat steps that derive
 the empty clause

A RAT clause is not implied by the premises, so a drat step could
conclude any clause at all, e.g. '(cl p)' with no premises.
---
 carcara/src/checker/rules/drup.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/carcara/src/checker/rules/drup.rs b/carcara/src/checker/rules/drup.rs
index 34e75c0..1fb3494 100644
--- a/carcara/src/checker/rules/drup.rs
+++ b/carcara/src/checker/rules/drup.rs
@@ -14,6 +14,10 @@ pub fn drup(
         .map(|p| build_term!(pool, (cl[p.to_vec()])))
         .collect();
 
+    // Adding a RAT clause preserves satisfiability, but the clause is not necessarily implied by the
+    // premises. Because of that, RAT clauses can only be used when deriving the empty clause
+    let check_drat = check_drat && conclusion.is_empty();
+
     let conclusion = build_term!(pool, (cl[conclusion.to_vec()]));
 
     match check_drup(pool, conclusion, premises.as_slice(), args, check_drat) {
-- 
2.43.0


From 17e6cf41d2ecf4d2c04f912d3cbaac6cb87f47b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 05/94] fix: drop monomials that vanish modulo 2^n in bitvector
 polynomials

---
 carcara/src/checker/rules/polynomial.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/carcara/src/checker/rules/polynomial.rs b/carcara/src/checker/rules/polynomial.rs
index 44fb8d3..b0748f0 100644
--- a/carcara/src/checker/rules/polynomial.rs
+++ b/carcara/src/checker/rules/polynomial.rs
@@ -156,6 +156,9 @@ impl Polynomial {
             }
             *coeff = coeff.numer().clone().modulo(n).into();
         }
+        // Some of the coefficients might have become zero
+        self.0.retain(|_, coeff| !coeff.is_zero());
+
         if self.1.is_integer() {
             self.1 = self.1.numer().clone().modulo(n).into();
             Some(self)
-- 
2.43.0


From f27917ea1f0165545965570d5eb24333a5e91495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 06/94] fix: only strengthen integer disequalities and respect
 the value of div and / in arithmetic rules

---
 carcara/src/ast/term.rs                       | 12 +++-
 .../src/checker/rules/linear_arithmetic.rs    | 61 ++++++++++++++-----
 2 files changed, 54 insertions(+), 19 deletions(-)

diff --git a/carcara/src/ast/term.rs b/carcara/src/ast/term.rs
index d1ee88d..c88d8cc 100644
--- a/carcara/src/ast/term.rs
+++ b/carcara/src/ast/term.rs
@@ -888,13 +888,19 @@ impl Term {
     /// `Some` if the term is:
     ///
     /// - A real or integer constant
-    /// - An application of the `/` or `div` operators on two real or integer constants
+    /// - An application of the `/` or `div` operators on two real or integer constants, where the
+    ///   denominator is not zero. In the case of `div`, the result is the integer quotient
     /// - An application of the unary `-` operator on one of the two previous cases
     pub fn as_fraction(&self) -> Option<Rational> {
         fn as_unsigned_fraction(term: &Term) -> Option<Rational> {
             match term {
-                Term::Op(Operator::IntDiv | Operator::RealDiv, args) if args.len() == 2 => {
-                    Some(args[0].as_signed_number()? / args[1].as_signed_number()?)
+                Term::Op(Operator::RealDiv, args) if args.len() == 2 => {
+                    let (n, d) = (args[0].as_signed_number()?, args[1].as_signed_number()?);
+                    (!d.is_zero()).then(|| n / d)
+                }
+                Term::Op(Operator::IntDiv, args) if args.len() == 2 => {
+                    let (n, d) = (args[0].as_signed_integer()?, args[1].as_signed_integer()?);
+                    (!d.is_zero()).then(|| n.div_rem_euc(d).0.into())
                 }
                 _ => term.as_number(),
             }
diff --git a/carcara/src/checker/rules/linear_arithmetic.rs b/carcara/src/checker/rules/linear_arithmetic.rs
index 6b6718f..7dd2e50 100644
--- a/carcara/src/checker/rules/linear_arithmetic.rs
+++ b/carcara/src/checker/rules/linear_arithmetic.rs
@@ -203,15 +203,24 @@ impl LinearComb {
     }
 }
 
-fn strengthen(op: Operator, disequality: &mut LinearComb, a: &Rational) -> Operator {
-    // Multiplications are expensive, so we avoid them if we can
-    let is_integer = if *a == 0 {
-        true
-    } else if *a == 1 {
-        disequality.1.is_integer()
-    } else {
-        (disequality.1.clone() * a).is_integer()
-    };
+/// Returns `true` if the value of the term is always an integer.
+fn is_integer_atom(pool: &mut dyn TermPool, term: &Rc<Term>) -> bool {
+    matches!(term.as_ref(), Term::Op(Operator::ToReal, _))
+        || matches!(pool.sort(term).as_sort(), Some(Sort::Int))
+}
+
+fn strengthen(pool: &mut dyn TermPool, op: Operator, disequality: &mut LinearComb) -> Operator {
+    // The strengthening rules are only valid if the left-hand side of the disequality is
+    // guaranteed to be an integer
+    let is_over_integers = disequality
+        .0
+        .iter()
+        .all(|(atom, coeff)| coeff.is_integer() && is_integer_atom(pool, atom));
+    if !is_over_integers {
+        return op;
+    }
+
+    let is_integer = disequality.1.is_integer();
 
     match op {
         Operator::GreaterEq if is_integer => op,
@@ -243,14 +252,14 @@ fn strengthen(op: Operator, disequality: &mut LinearComb, a: &Rational) -> Opera
         // all coefficients will continue being integers after the division. This strengthening is
         // still valid because, since the variables are integers, the result of their linear
         // combination will always be a multiple of their GCD.
-        Operator::GreaterThan if is_integer => {
+        Operator::GreaterThan => {
             // Instead of dividing and then multiplying back, we just multiply the "+ 1"
             // that is added by the strengthening rule
             disequality.1.floor_mut();
             disequality.1 += disequality.coefficients_gcd();
             Operator::GreaterEq
         }
-        Operator::GreaterThan | Operator::GreaterEq => {
+        Operator::GreaterEq => {
             disequality.1.floor_mut();
             disequality.1 += 1;
             Operator::GreaterEq
@@ -260,13 +269,28 @@ fn strengthen(op: Operator, disequality: &mut LinearComb, a: &Rational) -> Opera
     }
 }
 
-pub fn la_generic(RuleArgs { conclusion, args, .. }: RuleArgs) -> RuleResult {
+/// Extracts the value of a coefficient given as an argument to `la_generic`. Here, solvers may use
+/// the `div` operator to represent a fraction.
+fn as_coefficient(term: &Rc<Term>) -> Option<Rational> {
+    if let Some(t) = match_term!((-t) = term) {
+        return as_coefficient(t).map(|r| -r);
+    }
+    match match_term!((div n d) = term) {
+        Some((n, d)) => {
+            let (n, d) = (n.as_signed_number()?, d.as_signed_number()?);
+            (!d.is_zero()).then(|| n / d)
+        }
+        None => term.as_fraction(),
+    }
+}
+
+pub fn la_generic(RuleArgs { conclusion, args, pool, .. }: RuleArgs) -> RuleResult {
     assert_num_args(args, conclusion.len())?;
 
     let args: Vec<_> = args
         .iter()
         .map(|a| {
-            a.as_fraction()
+            as_coefficient(a)
                 .ok_or_else(|| CheckerError::ExpectedAnyNumber(a.clone()))
         })
         .collect::<Result<_, _>>()?;
@@ -293,7 +317,7 @@ pub fn la_generic(RuleArgs { conclusion, args, .. }: RuleArgs) -> RuleResult {
             }
 
             // Step 4: Apply strengthening rules
-            let op = strengthen(op, &mut disequality, &a);
+            let op = strengthen(pool, op, &mut disequality);
 
             // Step 5: Multiply disequality by a
             let a = match op {
@@ -302,6 +326,9 @@ pub fn la_generic(RuleArgs { conclusion, args, .. }: RuleArgs) -> RuleResult {
             };
             disequality.mul(&a);
 
+            // If the coefficient is zero, the disequality is discarded
+            let op = if a.is_zero() { Operator::Equals } else { op };
+
             Ok((op, disequality))
         })
         .try_fold(
@@ -310,8 +337,10 @@ pub fn la_generic(RuleArgs { conclusion, args, .. }: RuleArgs) -> RuleResult {
                 let (op, diseq) = item?;
                 let new_acc = acc.add(diseq);
                 let new_op = match (acc_op, op) {
-                    (_, Operator::GreaterEq) => Operator::GreaterEq,
-                    (Operator::Equals, Operator::GreaterThan) => Operator::GreaterThan,
+                    (Operator::GreaterThan, _) | (_, Operator::GreaterThan) => {
+                        Operator::GreaterThan
+                    }
+                    (Operator::GreaterEq, _) | (_, Operator::GreaterEq) => Operator::GreaterEq,
                     _ => acc_op,
                 };
                 Ok((new_op, new_acc))
-- 
2.43.0


From 42282cc528d4325b6f37bb29b1c6b05a54b3b3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:00 +0000
Subject: [PATCH 07/94] fix: consider the values of let bindings when computing
 free variables

---
 carcara/src/ast/pool/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/carcara/src/ast/pool/mod.rs b/carcara/src/ast/pool/mod.rs
index cdeed27..a44fbc1 100644
--- a/carcara/src/ast/pool/mod.rs
+++ b/carcara/src/ast/pool/mod.rs
@@ -428,6 +428,10 @@ impl PrimitivePool {
                     let term = self.add_with_priorities((var.clone(), sort).into(), prior_pools);
                     vars.swap_remove(&term);
                 }
+                // The values of the bindings are not in the scope of the bound variables
+                for (_, value) in bindings {
+                    vars.extend(self.free_vars_with_priorities(value, prior_pools).into_iter());
+                }
                 vars
             }
             Term::Var(..) => {
-- 
2.43.0


From 58ea545e2130afafcc115f7020f12f0a108e17e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:00 +0000
Subject: [PATCH 08/94] fix: substitute in let values and avoid captures when
 renaming bound variables

---
 carcara/src/ast/substitution.rs | 68 ++++++++++++++++++++++++++-------
 1 file changed, 55 insertions(+), 13 deletions(-)

diff --git a/carcara/src/ast/substitution.rs b/carcara/src/ast/substitution.rs
index 8360ea0..9b88d3a 100644
--- a/carcara/src/ast/substitution.rs
+++ b/carcara/src/ast/substitution.rs
@@ -213,8 +213,16 @@ impl Substitution {
                 self.apply_to_binder(pool, term, *binder, binding_list.as_ref(), inner)
             }
             Term::Let(binding_list, inner) => {
+                self.compute_should_be_renamed(pool);
+
+                // The values of the bindings are outside of the scope of the bound variables, so
+                // we apply the substitution to them before any renaming takes place
+                let binding_list: Vec<_> = binding_list
+                    .iter()
+                    .map(|(var, value)| (var.clone(), self.apply(pool, value)))
+                    .collect();
                 let (new_bindings, mut renaming) =
-                    self.rename_binding_list(pool, binding_list, true);
+                    self.rename_binding_list(pool, &binding_list, inner, true);
                 let new_term = if renaming.is_empty() {
                     self.apply(pool, inner)
                 } else {
@@ -318,7 +326,7 @@ impl Substitution {
             return original_term.clone();
         }
 
-        let (new_bindings, mut renaming) = self.rename_binding_list(pool, binding_list, false);
+        let (new_bindings, mut renaming) = self.rename_binding_list(pool, binding_list, inner, false);
         let new_term = if renaming.is_empty() {
             self.apply(pool, inner)
         } else {
@@ -335,15 +343,24 @@ impl Substitution {
     /// new binding list, with the bindings renamed. If no variable needs to be renamed, this just
     /// returns a clone of the binding list and an empty substitution. The name chosen when renaming
     /// a variable is the old name with `'` appended. If the binding list is a "value" list, like in
-    /// a `let` or `lambda` term, `is_value_list` should be true.
+    /// a `let` or `lambda` term, `is_value_list` should be true. `inner` is the term in the scope
+    /// of the binding list.
     fn rename_binding_list(
         &mut self,
         pool: &mut dyn TermPool,
         binding_list: &[SortedVar],
+        inner: &Rc<Term>,
         is_value_list: bool,
     ) -> (BindingList, Self) {
         let mut new_substitution = Self::empty();
         let mut new_vars = IndexSet::new();
+
+        // When choosing a new name for a variable, we can't choose the name of another variable of
+        // the binding list, or of a free variable of the binder term, since that would be a capture
+        // as well. Later variables of the binding list are not a problem, as they will be renamed
+        // if they clash. As this is only needed if some variable is renamed, we compute it lazily.
+        let mut reserved: Option<IndexSet<String>> = None;
+        let mut kept_vars = IndexSet::new();
         let new_binding_list = binding_list
             .iter()
             .map(|(var, value)| {
@@ -360,7 +377,15 @@ impl Substitution {
 
                 // We keep adding `'`s to the variable name as long as it is necessary
                 loop {
-                    if !new_vars.contains(&new_var)
+                    let is_reserved = changed
+                        && (kept_vars.contains(&new_var)
+                            || reserved
+                                .get_or_insert_with(|| {
+                                    Self::outer_names(pool, binding_list, inner, is_value_list)
+                                })
+                                .contains(&new_var));
+                    if !is_reserved
+                        && !new_vars.contains(&new_var)
                         && !self.should_be_renamed.as_ref().unwrap().contains(&new_var)
                     {
                         break;
@@ -379,20 +404,37 @@ impl Substitution {
                     // same sort
                     new_substitution.insert(pool, old, new).unwrap();
                     new_vars.insert(new_var.clone());
-                }
-
-                // If the binding list is a "value" list, we need to apply the current substitution
-                // to each variable's value
-                let new_value = if is_value_list {
-                    new_substitution.apply(pool, value)
                 } else {
-                    value.clone()
-                };
-                (new_var, new_value)
+                    kept_vars.insert(new_var.clone());
+                }
+                (new_var, value.clone())
             })
             .collect();
         (BindingList(new_binding_list), new_substitution)
     }
+
+    /// Returns the names of the variables that are free in `inner` and not bound by `binding_list`.
+    fn outer_names(
+        pool: &mut dyn TermPool,
+        binding_list: &[SortedVar],
+        inner: &Rc<Term>,
+        is_value_list: bool,
+    ) -> IndexSet<String> {
+        let mut free_vars = pool.free_vars(inner);
+        for (var, value) in binding_list {
+            let sort = if is_value_list {
+                pool.sort(value)
+            } else {
+                value.clone()
+            };
+            let var = pool.add((var.clone(), sort).into());
+            free_vars.swap_remove(&var);
+        }
+        free_vars
+            .into_iter()
+            .filter_map(|v| v.as_var().map(str::to_owned))
+            .collect()
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From ec6b9fbeb63efab9faa009d0593842db6f57443d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:51 +0000
Subject: [PATCH 09/94] fix: handle variables shadowed by nested anchors in
 contexts

---
 carcara/src/ast/context.rs      |  2 +-
 carcara/src/ast/substitution.rs | 36 +++++++++++++++++++++++++++++----
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/carcara/src/ast/context.rs b/carcara/src/ast/context.rs
index 5c38f74..d4f4c98 100644
--- a/carcara/src/ast/context.rs
+++ b/carcara/src/ast/context.rs
@@ -179,7 +179,7 @@ impl ContextStack {
                 match a {
                     AnchorArg::Variable((name, sort)) => {
                         let var_term = pool.add(Term::new_var(name, sort.clone()));
-                        substitution.remove(&var_term);
+                        substitution.shadow(pool, &var_term);
                     }
                     AnchorArg::Assign(var, value) => {
                         let var_term = pool.add(var.clone().into());
diff --git a/carcara/src/ast/substitution.rs b/carcara/src/ast/substitution.rs
index 9b88d3a..82ef734 100644
--- a/carcara/src/ast/substitution.rs
+++ b/carcara/src/ast/substitution.rs
@@ -130,15 +130,43 @@ impl Substitution {
         Ok(())
     }
 
-    /// Removes a mapping from the substitution.
+    /// Updates the substitution to reflect that `x` was re-declared, and shadows any previous
+    /// meaning it had.
+    ///
+    /// This removes any mapping for `x`. If `x` is a free variable in the terms that other variables
+    /// map to, those occurrences refer to the shadowed variable, and not to the new one, so they are
+    /// renamed.
     ///
     /// This will clear `self.should_be_renamed`, such that it might need to be recomputed later.
     /// Therefore, you should avoid using this method if possible.
-    pub(super) fn remove(&mut self, x: &Rc<Term>) {
+    pub(super) fn shadow(&mut self, pool: &mut dyn TermPool, x: &Rc<Term>) {
         let was_present = self.map.swap_remove(x).is_some();
-        if was_present {
-            self.should_be_renamed = None;
+        let is_captured = self.map.values().any(|t| pool.free_vars(t).contains(x));
+        if !was_present && !is_captured {
+            return;
+        }
+        if is_captured {
+            // The character `|` can't appear in symbols, so this name can't clash with any variable
+            // in the proof
+            let mut new_name = format!("{}|", x.as_var().unwrap());
+            let mut new_var = pool.add((new_name.clone(), pool.sort(x)).into());
+            while self
+                .map
+                .values()
+                .any(|t| pool.free_vars(t).contains(&new_var))
+            {
+                new_name.push('|');
+                new_var = pool.add((new_name.clone(), pool.sort(x)).into());
+            }
+            let mut renaming = Self::empty();
+            // It is safe to unwrap here because both terms are variables, with the same sort
+            renaming.insert(pool, x.clone(), new_var).unwrap();
+            for t in self.map.values_mut() {
+                *t = renaming.apply(pool, t);
+            }
         }
+        self.should_be_renamed = None;
+        self.cache.clear();
     }
 
     /// Computes which binder variables will need to be renamed, and stores the result in
-- 
2.43.0


From e532ab291b27e7e7b05ec8804252884ead1c96a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:51 +0000
Subject: [PATCH 10/94] fix: refl must not use the context to change only one
 side

---
 carcara/src/checker/rules/reflexivity.rs | 34 +++++++++++++++---------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/carcara/src/checker/rules/reflexivity.rs b/carcara/src/checker/rules/reflexivity.rs
index 152c71a..06340a7 100644
--- a/carcara/src/checker/rules/reflexivity.rs
+++ b/carcara/src/checker/rules/reflexivity.rs
@@ -31,24 +31,27 @@ pub fn refl(
         return Err(CheckerError::ReflexivityFailed(left.clone(), right.clone()));
     }
 
-    // In some cases, the substitution is only applied to the left or the right term, and in some
-    // cases it is applied to both. To cover all cases, we must check all three possibilities. We
-    // don't compute the new left and right terms until they are needed, to avoid doing unnecessary
-    // work
+    // In some cases, the substitution is only needed in the left or in the right term, and in some
+    // cases it is needed in both. The terms are equal in this context if they are the same after the
+    // substitution is applied to both of them.
     let new_left = context.apply(pool, left);
-    let result = alpha_equiv(&new_left, right, polyeq_time) || {
-        let new_right = context.apply(pool, right);
-        alpha_equiv(left, &new_right, polyeq_time)
-            || alpha_equiv(&new_left, &new_right, polyeq_time)
-    };
+    let new_right = context.apply(pool, right);
     rassert!(
-        result,
+        alpha_equiv(&new_left, &new_right, polyeq_time),
         CheckerError::ReflexivityFailed(left.clone(), right.clone()),
     );
     Ok(())
 }
 
-pub fn strict_refl(RuleArgs { conclusion, pool, context, .. }: RuleArgs) -> RuleResult {
+pub fn strict_refl(
+    RuleArgs {
+        conclusion,
+        pool,
+        context,
+        polyeq_time,
+        ..
+    }: RuleArgs,
+) -> RuleResult {
     assert_clause_len(conclusion, 1)?;
 
     let (left, right) = match_term_err!((= l r) = &conclusion[0])?;
@@ -61,10 +64,15 @@ pub fn strict_refl(RuleArgs { conclusion, pool, context, .. }: RuleArgs) -> Rule
     }
 
     // Unlike the traditional `refl` function, we do not use alpha equivalence, and we only try to
-    // apply the context on the left-hand side.
+    // apply the context on the left-hand side. We must still make sure that the context doesn't
+    // change the meaning of the right-hand side.
     let new_left = context.apply(pool, left);
+    let is_valid = new_left == *right && {
+        let new_right = context.apply(pool, right);
+        alpha_equiv(&new_right, right, polyeq_time)
+    };
     rassert!(
-        new_left == *right,
+        is_valid,
         CheckerError::ReflexivityFailed(left.clone(), right.clone()),
     );
     Ok(())
-- 
2.43.0


From 13131cac9a5d59c659a79b4be9394ea084d02c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:24 +0000
Subject: [PATCH 11/94] fix: check how bind and let use the variables of the
 anchor

---
 carcara/src/checker/error.rs          |   3 +
 carcara/src/checker/rules/subproof.rs | 113 +++++++++++++++++++++-----
 2 files changed, 96 insertions(+), 20 deletions(-)

diff --git a/carcara/src/checker/error.rs b/carcara/src/checker/error.rs
index 98a25af..5493a0f 100644
--- a/carcara/src/checker/error.rs
+++ b/carcara/src/checker/error.rs
@@ -419,6 +419,9 @@ pub enum SubproofError {
 
     #[error("expected binding list in right-hand side to be '{0}'")]
     OnepointWrongRightBindings(BindingList),
+
+    #[error("variable '{0}', assigned by the anchor, appears as free variable in '{1}'")]
+    AssignedVarIsFree(String, Rc<Term>),
 }
 
 /// A wrapper struct that implements `fmt::Display` for linear combinations.
diff --git a/carcara/src/checker/rules/subproof.rs b/carcara/src/checker/rules/subproof.rs
index 2544335..6bafa01 100644
--- a/carcara/src/checker/rules/subproof.rs
+++ b/carcara/src/checker/rules/subproof.rs
@@ -47,6 +47,43 @@ pub fn subproof(
     assert_polyeq(conclusion.last().unwrap(), &phi, polyeq_time)
 }
 
+/// Computes the value that each variable assigned by the arguments of an anchor has inside of the
+/// subproof. Trivial assignments, where the variable stands for itself, are ignored.
+fn assigned_values(
+    pool: &mut dyn TermPool,
+    args: &[AnchorArg],
+) -> Result<IndexMap<Rc<Term>, Rc<Term>>, CheckerError> {
+    let mut substitution = Substitution::empty();
+    let mut result = IndexMap::new();
+    for (var, value) in args.iter().filter_map(|a| match a {
+        AnchorArg::Assign(var, value) => Some((var, value)),
+        AnchorArg::Variable(_) => None,
+    }) {
+        let var = pool.add(var.clone().into());
+        let value = substitution.apply(pool, value);
+        substitution.insert(pool, var.clone(), value.clone())?;
+        result.insert(var, value);
+    }
+    result.retain(|var, value| var != value);
+    Ok(result)
+}
+
+/// Checks that none of the given variables appears as a free variable in `term`. When a subproof is
+/// closed, the variables assigned by its anchor stop having the values they had inside of it, so
+/// they can't appear in the terms of the conclusion that are outside of the scope of the binder.
+fn assert_not_free<'a>(
+    pool: &mut dyn TermPool,
+    vars: impl IntoIterator<Item = &'a Rc<Term>>,
+    term: &Rc<Term>,
+) -> RuleResult {
+    let free_vars = pool.free_vars(term);
+    if let Some(x) = vars.into_iter().find(|&x| free_vars.contains(x)) {
+        let x = x.as_var().unwrap().to_owned();
+        return Err(SubproofError::AssignedVarIsFree(x, term.clone()).into());
+    }
+    Ok(())
+}
+
 pub fn bind(
     RuleArgs {
         conclusion,
@@ -68,11 +105,13 @@ pub fn bind(
     let (r_binder, r_bindings, right) = right.as_binder_err()?;
     assert_eq(&l_binder, &r_binder)?;
 
-    let [l_bindings, r_bindings] = [l_bindings, r_bindings].map(|b| {
+    let [l_list, r_list] = [l_bindings, r_bindings].map(|b| {
         b.iter()
             .map(|var| pool.add(var.clone().into()))
-            .collect::<IndexSet<_>>()
+            .collect::<Vec<_>>()
     });
+    let [l_bindings, r_bindings] =
+        [&l_list, &r_list].map(|b| b.iter().cloned().collect::<IndexSet<_>>());
 
     // The terms in the quantifiers must be phi and phi'
     assert_eq(left, phi)?;
@@ -93,44 +132,63 @@ pub fn bind(
     let context = context.last().unwrap();
     let context = context.as_ref().unwrap();
 
-    let (xs, ys): (IndexSet<_>, IndexSet<_>) = {
-        let (mut xs, mut ys) = (IndexSet::new(), IndexSet::new());
+    let ys: IndexSet<_> = {
+        let (mut seen_assign, mut ys) = (false, IndexSet::new());
         for arg in &context.args {
             match arg {
-                AnchorArg::Variable((name, _)) if !xs.is_empty() => {
+                AnchorArg::Variable((name, _)) if seen_assign => {
                     return Err(SubproofError::BindUnexpectedVarArgument(name.clone()).into());
                 }
                 AnchorArg::Variable(var) => {
                     ys.insert(pool.add(var.clone().into()));
                 }
-                AnchorArg::Assign(var, _) => {
-                    xs.insert(pool.add(var.clone().into()));
-                }
+                AnchorArg::Assign(..) => seen_assign = true,
             }
         }
-        (xs, ys)
+        ys
     };
+    let values = assigned_values(pool, &context.args)?;
 
     rassert!(
         l_bindings.len() == r_bindings.len(),
         SubproofError::BindDifferentNumberOfBindings(l_bindings.len(), r_bindings.len())
     );
 
-    let (l_bindings, r_bindings): (IndexSet<_>, IndexSet<_>) = (
-        l_bindings.difference(&r_bindings).cloned().collect(),
-        r_bindings.difference(&r_bindings).cloned().collect(),
-    );
-
-    // `l_bindings` should be a subset of `xs` and `r_bindigns` should be a subset of `ys`
-    if let Some(x) = l_bindings.iter().find(|&x| !xs.contains(x)) {
-        let x = x.as_var().unwrap().to_owned();
-        return Err(SubproofError::BindingIsNotInContext(x).into());
-    }
+    // All variables of the right-hand side must be introduced as variables by the anchor
     if let Some(y) = r_bindings.iter().find(|&y| !ys.contains(y)) {
         let y = y.as_var().unwrap().to_owned();
         return Err(SubproofError::BindingIsNotInContext(y).into());
     }
-    Ok(())
+
+    // Each variable of the left-hand side must stand for a distinct variable of the right-hand side
+    let mut images = IndexSet::new();
+    for x in &l_bindings {
+        let image = values.get(x).unwrap_or(x);
+        if !r_bindings.contains(image) || !images.insert(image) {
+            let x = x.as_var().unwrap().to_owned();
+            return Err(SubproofError::BindingIsNotInContext(x).into());
+        }
+    }
+
+    // The order of the variables does not matter in a quantifier, but it does in a `lambda` term
+    if l_binder == Binder::Lambda {
+        let images: Vec<_> = l_list.iter().map(|x| values.get(x).unwrap_or(x)).collect();
+        rassert!(
+            l_list.len() == l_bindings.len() && images.into_iter().eq(&r_list),
+            EqualityError::ExpectedToBe {
+                expected: phi_prime.clone(),
+                got: conclusion[0].clone()
+            }
+        );
+    }
+
+    // Any other assigned variable may not appear in the conclusion
+    assert_not_free(
+        pool,
+        values.keys().filter(|&x| !l_bindings.contains(x)),
+        phi,
+    )?;
+    assert_not_free(pool, values.keys(), phi_prime)
 }
 
 pub fn r#let(
@@ -150,6 +208,7 @@ pub fn r#let(
     // Since we are closing a subproof, we only care about the mappings that were introduced in it
     let context = context.last().unwrap();
     let args = &context.as_ref().unwrap().args;
+    let assigned = assigned_values(pool, args)?;
     let mappings: IndexMap<Rc<Term>, Rc<Term>> = args
         .iter()
         .filter_map(|arg| {
@@ -172,6 +231,13 @@ pub fn r#let(
     assert_eq(u, previous_u)?;
     assert_eq(u_prime, previous_u_prime)?;
 
+    // The variables of the `let` term are not bound in u', and their values are evaluated outside of
+    // the subproof
+    assert_not_free(pool, assigned.keys(), u_prime)?;
+    for value in mappings.values() {
+        assert_not_free(pool, assigned.keys(), value)?;
+    }
+
     rassert!(
         let_bindings.len() == mappings.len(),
         SubproofError::WrongNumberOfLetBindings(mappings.len(), let_bindings.len())
@@ -188,6 +254,13 @@ pub fn r#let(
             Ok((s, t))
         })
         .collect::<Result<_, CheckerError>>()?;
+    assert_not_free(
+        pool,
+        assigned
+            .keys()
+            .filter(|&x| !let_bindings.iter().any(|(y, _)| x.as_var() == Some(y))),
+        u,
+    )?;
     pairs.retain(|(s, t)| s != t); // The pairs where s == t don't need a premise to justify them
 
     assert_num_premises(premises, pairs.len())?;
-- 
2.43.0


From b81b33274ac26fef75676cce2921ba6f5be7b225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:15 +0000
Subject: [PATCH 12/94] fix: check how onepoint and sko use the variables of
 the anchor

---
 carcara/src/checker/rules/subproof.rs | 225 +++++++++++++++++---------
 1 file changed, 153 insertions(+), 72 deletions(-)

diff --git a/carcara/src/checker/rules/subproof.rs b/carcara/src/checker/rules/subproof.rs
index 6bafa01..4069d7c 100644
--- a/carcara/src/checker/rules/subproof.rs
+++ b/carcara/src/checker/rules/subproof.rs
@@ -4,7 +4,26 @@ use super::{
 };
 use crate::{ast::*, checker::error::SubproofError};
 use indexmap::{IndexMap, IndexSet};
-use std::collections::{HashMap, HashSet};
+use std::collections::HashSet;
+
+/// Checks that no variable assigned by the innermost anchor is free in the given clause.
+pub fn assert_closes_context(
+    pool: &mut dyn TermPool,
+    context: &ContextStack,
+    clause: &[Rc<Term>],
+) -> RuleResult {
+    let Some(context) = context.last() else {
+        return Ok(());
+    };
+    let assigned = assigned_values(pool, &context.as_ref().unwrap().args)?;
+    if assigned.is_empty() {
+        return Ok(());
+    }
+    for t in clause {
+        assert_not_free(pool, assigned.keys(), t)?;
+    }
+    Ok(())
+}
 
 pub fn subproof(
     RuleArgs {
@@ -71,7 +90,7 @@ fn assigned_values(
 /// Checks that none of the given variables appears as a free variable in `term`. When a subproof is
 /// closed, the variables assigned by its anchor stop having the values they had inside of it, so
 /// they can't appear in the terms of the conclusion that are outside of the scope of the binder.
-fn assert_not_free<'a>(
+pub fn assert_not_free<'a>(
     pool: &mut dyn TermPool,
     vars: impl IntoIterator<Item = &'a Rc<Term>>,
     term: &Rc<Term>,
@@ -278,57 +297,78 @@ pub fn r#let(
     Ok(())
 }
 
-fn extract_points(quant: Binder, term: &Rc<Term>) -> HashSet<(String, Rc<Term>)> {
-    fn find_points(
-        acc: &mut HashSet<(String, Rc<Term>)>,
-        seen: &mut HashSet<(Rc<Term>, bool)>,
-        polarity: bool,
-        term: &Rc<Term>,
-    ) {
-        let key = (term.clone(), polarity);
-        if seen.contains(&key) {
-            return;
-        }
-        seen.insert(key);
+/// A point is a pair `(x, t)`, where the equality `(= x t)` must hold for the body of a quantifier to
+/// be relevant.
+type Point = (String, Rc<Term>);
 
-        if let Some(inner) = term.remove_negation() {
-            return find_points(acc, seen, !polarity, inner);
-        }
-        if let Some((_, _, inner)) = term.as_quant() {
-            return find_points(acc, seen, polarity, inner);
+fn extract_points(pool: &mut dyn TermPool, quant: Binder, term: &Rc<Term>) -> HashSet<Point> {
+    struct Finder<'a> {
+        pool: &'a mut dyn TermPool,
+        acc: HashSet<Point>,
+        seen: HashSet<(Rc<Term>, bool, Vec<SortedVar>)>,
+    }
+
+    impl Finder<'_> {
+        fn add_point(&mut self, x: &Rc<Term>, t: &Rc<Term>, bound: &[SortedVar]) {
+            let Some(name) = x.as_var() else { return };
+
+            // If the equality is under other quantifiers, it can't refer to their variables
+            for var in bound {
+                let var = self.pool.add(var.clone().into());
+                if *x == var || self.pool.free_vars(t).contains(&var) {
+                    return;
+                }
+            }
+            self.acc.insert((name.to_owned(), t.clone()));
         }
-        match polarity {
-            true => {
-                if let Some((a, b)) = match_term!((= a b) = term) {
-                    if let Some(a) = a.as_var() {
-                        acc.insert((a.to_owned(), b.clone()));
-                    }
-                    if let Some(b) = b.as_var() {
-                        acc.insert((b.to_owned(), a.clone()));
-                    }
-                } else if let Some(args) = match_term!((and ...) = term) {
-                    for a in args {
-                        find_points(acc, seen, true, a);
+
+        fn find_points(&mut self, polarity: bool, term: &Rc<Term>, bound: &mut Vec<SortedVar>) {
+            if !self.seen.insert((term.clone(), polarity, bound.clone())) {
+                return;
+            }
+
+            if let Some(inner) = term.remove_negation() {
+                return self.find_points(!polarity, inner, bound);
+            }
+            if let Some((_, bindings, inner)) = term.as_quant() {
+                let len = bound.len();
+                bound.extend(bindings.iter().cloned());
+                self.find_points(polarity, inner, bound);
+                bound.truncate(len);
+                return;
+            }
+            match polarity {
+                true => {
+                    if let Some((a, b)) = match_term!((= a b) = term) {
+                        self.add_point(a, b, bound);
+                        self.add_point(b, a, bound);
+                    } else if let Some(args) = match_term!((and ...) = term) {
+                        for a in args {
+                            self.find_points(true, a, bound);
+                        }
                     }
                 }
-            }
-            false => {
-                if let Some((p, q)) = match_term!((=> p q) = term) {
-                    find_points(acc, seen, true, p);
-                    find_points(acc, seen, false, q);
-                } else if let Some(args) = match_term!((or ...) = term) {
-                    for a in args {
-                        find_points(acc, seen, false, a);
+                false => {
+                    if let Some((p, q)) = match_term!((=> p q) = term) {
+                        self.find_points(true, p, bound);
+                        self.find_points(false, q, bound);
+                    } else if let Some(args) = match_term!((or ...) = term) {
+                        for a in args {
+                            self.find_points(false, a, bound);
+                        }
                     }
                 }
             }
         }
     }
 
-    let mut result = HashSet::new();
-    let mut seen = HashSet::new();
-    find_points(&mut result, &mut seen, quant == Binder::Exists, term);
-    result
+    let mut finder = Finder {
+        pool,
+        acc: HashSet::new(),
+        seen: HashSet::new(),
+    };
+    finder.find_points(quant == Binder::Exists, term, &mut Vec::new());
+    finder.acc
 }
 
 pub fn onepoint(
@@ -366,24 +406,57 @@ pub fn onepoint(
         }
     );
 
-    let points = extract_points(quant, left);
-
-    // Since a substitution may use a variable introduced in a previous substitution, we apply the
-    // substitution to the points in order to replace these variables by their value.
-    let points: HashSet<_> = points
+    let mut points: Vec<_> = extract_points(pool, quant, left)
         .into_iter()
-        .map(|(x, t)| (x, context.apply(pool, &t)))
+        .map(|(x, t)| {
+            let free_vars = pool.free_vars(&t);
+            // Since a substitution may use a variable introduced in a previous substitution, we
+            // apply the substitution to the points in order to replace these variables by their
+            // value.
+            (x, context.apply(pool, &t), free_vars)
+        })
         .collect();
 
-    let context = context.last().unwrap();
-    let context = context.as_ref().unwrap();
-    let mut mappings = context.args.iter().filter_map(AnchorArg::as_assign);
+    let mut mappings: Vec<(Rc<Term>, Rc<Term>)> = {
+        let context = context.last().unwrap();
+        let args = context.as_ref().unwrap().args.iter();
+        args.filter_map(|a| match a {
+            AnchorArg::Assign(var, value) => Some((pool.add(var.clone().into()), value.clone())),
+            AnchorArg::Variable(_) => None,
+        })
+        .collect()
+    };
+    let values: Vec<_> = mappings
+        .iter()
+        .map(|(x, _)| context.apply(pool, x))
+        .collect();
+    points.retain(|(x, t, _)| {
+        let mut mappings = mappings.iter().zip(&values);
+        mappings.any(|((y, _), v)| y.as_var() == Some(x) && v == t)
+    });
 
-    // For each substitution (:= x t) in the context, the equality (= x t) must appear in phi
-    if let Some((k, v)) = mappings.find(|&(k, v)| !points.contains(&(k.clone(), v.clone()))) {
-        return Err(SubproofError::NoPointForSubstitution(k.clone(), v.clone()).into());
+    // For each substitution (:= x t) in the context, the equality (= x t) must appear in phi. As the
+    // equality may use the other variables that are being substituted, we must make sure that there
+    // are no cycles, so we only remove a variable when the variables its value depends on were
+    // already removed.
+    while !mappings.is_empty() {
+        let Some(i) = mappings.iter().position(|(x, _)| {
+            points.iter().any(|(y, _, free_vars)| {
+                x.as_var() == Some(y) && !mappings.iter().any(|(z, _)| free_vars.contains(z))
+            })
+        }) else {
+            let (k, v) = &mappings[0];
+            let k = k.as_var().unwrap().to_owned();
+            return Err(SubproofError::NoPointForSubstitution(k, v.clone()).into());
+        };
+        mappings.remove(i);
     }
 
+    let context = context.last().unwrap();
+    let context = context.as_ref().unwrap();
+    let assigned = assigned_values(pool, &context.args)?;
+    assert_not_free(pool, assigned.keys(), right)?;
+
     // Here we check that the right variables were eliminated. Using the notation in the
     // specification, we have that:
     //
@@ -454,27 +527,34 @@ fn generic_skolemization_rule(
     assert_eq(previous_equality.0, phi)?;
     assert_eq(previous_equality.1, psi)?;
 
-    let mut current_phi = phi.clone();
-    if context.len() >= 2 {
-        current_phi = context.apply_previous(pool, &current_phi);
-    }
+    // The bound variables are not affected by the substitutions of the previous contexts, so we have
+    // to apply them to the whole quantifier term. This may rename the bound variables.
+    let new_left = if context.len() >= 2 {
+        context.apply_previous(pool, left)
+    } else {
+        left.clone()
+    };
+    let (_, new_bindings, current_phi) = new_left.as_quant_err()?;
+    let mut current_phi = current_phi.clone();
 
     let context = context.last().unwrap();
-    let args = context.as_ref().unwrap().args.iter();
+    let substitution = assigned_values(pool, &context.as_ref().unwrap().args)?;
 
-    let substitution: HashMap<Rc<Term>, Rc<Term>> = args
-        .filter_map(AnchorArg::as_assign)
-        .map(|(k, v)| {
-            let var = Term::new_var(k, pool.sort(v));
-            (pool.add(var), v.clone())
-        })
+    let bound_vars: Vec<_> = bindings
+        .iter()
+        .map(|x| pool.add(Term::from(x.clone())))
         .collect();
+    assert_not_free(
+        pool,
+        substitution.keys().filter(|&x| !bound_vars.contains(x)),
+        phi,
+    )?;
+    assert_not_free(pool, substitution.keys(), psi)?;
 
-    for (i, x) in bindings.iter().enumerate() {
-        let x_term = pool.add(Term::from(x.clone()));
+    for (i, x) in new_bindings.iter().enumerate() {
         let t = substitution
-            .get(&x_term)
-            .ok_or_else(|| SubproofError::BindingIsNotInContext(x.0.clone()))?;
+            .get(&bound_vars[i])
+            .ok_or_else(|| SubproofError::BindingIsNotInContext(bindings.0[i].0.clone()))?;
 
         // To check that `t` is of the correct form, we construct the expected term and compare
         // them
@@ -483,10 +563,10 @@ fn generic_skolemization_rule(
 
             // If this is the last binding, all bindings were skolemized, so we don't need to wrap
             // the term in a quantifier
-            if i < bindings.len() - 1 {
+            if i < new_bindings.len() - 1 {
                 inner = pool.add(Term::Binder(
                     rule_type,
-                    BindingList(bindings.0[i + 1..].to_vec()),
+                    BindingList(new_bindings.0[i + 1..].to_vec()),
                     inner,
                 ));
             }
@@ -503,6 +583,7 @@ fn generic_skolemization_rule(
         }
 
         // For every binding we skolemize, we must apply another substitution to phi
+        let x_term = pool.add(Term::from(x.clone()));
         let mut s = Substitution::single(pool, x_term, t.clone())?;
         current_phi = s.apply(pool, &current_phi);
     }
-- 
2.43.0


From a45344f6d59abd64a8b268143cc326e036617af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:15 +0000
Subject: [PATCH 13/94] fix: bind_let must only generalize variables of the
 anchor

---
 carcara/src/checker/rules/extras.rs | 33 +++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/carcara/src/checker/rules/extras.rs b/carcara/src/checker/rules/extras.rs
index 3fa759e..a54f1dc 100644
--- a/carcara/src/checker/rules/extras.rs
+++ b/carcara/src/checker/rules/extras.rs
@@ -6,7 +6,10 @@ use super::{
 };
 use crate::{
     ast::*,
-    checker::{error::CongruenceError, rules::assert_operation_len},
+    checker::{
+        error::{CongruenceError, SubproofError},
+        rules::{assert_operation_len, subproof::assert_closes_context},
+    },
     utils::{MultiSet, MultiSetDifference},
 };
 
@@ -114,6 +117,8 @@ pub fn bind_let(
     RuleArgs {
         conclusion,
         premises,
+        pool,
+        context,
         previous_command,
         ..
     }: RuleArgs,
@@ -153,7 +158,31 @@ pub fn bind_let(
     }
 
     assert_eq(left, phi)?;
-    assert_eq(right, phi_prime)
+    assert_eq(right, phi_prime)?;
+
+    // The equality between phi and phi' must hold for any value of the bound variables, so they must
+    // be introduced as variables by the anchor
+    let bound_vars: Vec<_> = l_bindings
+        .iter()
+        .map(|(x, t)| pool.add(Term::new_var(x, pool.sort(t))))
+        .collect();
+    let mut free_vars = pool.free_vars(phi);
+    free_vars.extend(pool.free_vars(phi_prime));
+    let anchor_vars: Vec<_> = {
+        let context = context.last().unwrap();
+        let args = context.as_ref().unwrap().args.iter();
+        args.filter_map(AnchorArg::as_variable)
+            .map(|x| pool.add(x.clone().into()))
+            .collect()
+    };
+    if let Some(x) = bound_vars
+        .iter()
+        .find(|&x| free_vars.contains(x) && !anchor_vars.contains(x))
+    {
+        let x = x.as_var().unwrap().to_owned();
+        return Err(SubproofError::BindingIsNotInContext(x).into());
+    }
+    assert_closes_context(pool, context, &[phi.clone(), phi_prime.clone()])
 }
 
 pub fn la_mult_pos(args: RuleArgs) -> RuleResult {
-- 
2.43.0


From 45ed7a580a497e36bb3d63304dbfa66239e9ffff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:15 +0000
Subject: [PATCH 14/94] fix: reject premises and conclusions that use variables
 out of their scope

---
 carcara/src/ast/context.rs    | 23 ++++++++++++++++-
 carcara/src/checker/shared.rs | 47 ++++++++++++++++++++++++++++++++++-
 2 files changed, 68 insertions(+), 2 deletions(-)

diff --git a/carcara/src/ast/context.rs b/carcara/src/ast/context.rs
index d4f4c98..171b1cf 100644
--- a/carcara/src/ast/context.rs
+++ b/carcara/src/ast/context.rs
@@ -1,5 +1,8 @@
 use crate::ast::*;
-use std::sync::{atomic::AtomicUsize, Arc, RwLock, RwLockReadGuard, RwLockWriteGuard};
+use std::{
+    ops::Range,
+    sync::{atomic::AtomicUsize, Arc, RwLock, RwLockReadGuard, RwLockWriteGuard},
+};
 
 #[derive(Debug)]
 pub struct Context {
@@ -146,6 +149,24 @@ impl ContextStack {
             std::cmp::min(self.num_cumulative_calculated, self.stack.len());
     }
 
+    /// Returns the variables introduced by the contexts in the given range. Variables that are
+    /// trivially assigned to themselves are ignored.
+    pub fn introduced_vars(&self, pool: &mut dyn TermPool, range: Range<usize>) -> Vec<Rc<Term>> {
+        let mut result = Vec::new();
+        for &id in &self.stack[range] {
+            let context = self.context_vec[id].1.read().unwrap();
+            for a in &context.as_ref().unwrap().args {
+                let (AnchorArg::Variable(var) | AnchorArg::Assign(var, _)) = a;
+                let var_term = pool.add(var.clone().into());
+                match a {
+                    AnchorArg::Assign(_, value) if *value == var_term => (),
+                    _ => result.push(var_term),
+                }
+            }
+        }
+        result
+    }
+
     fn catch_up_cumulative(&mut self, pool: &mut dyn TermPool, up_to: usize) {
         for i in self.num_cumulative_calculated..std::cmp::max(up_to + 1, self.len()) {
             // Requires read guard. Since the i-th context will be mutated far
diff --git a/carcara/src/checker/shared.rs b/carcara/src/checker/shared.rs
index 0cfc64d..0ecc82e 100644
--- a/carcara/src/checker/shared.rs
+++ b/carcara/src/checker/shared.rs
@@ -94,7 +94,7 @@ pub struct StepCheckContext<'a> {
 /// and execution logic that's identical between single-threaded and parallel implementations.
 pub fn check_step_core<CR: CollectResults + Send + Default>(
     step: &ProofStep,
-    rule_args: RuleArgs,
+    mut rule_args: RuleArgs,
     context: StepCheckContext,
     stats: &mut Option<&mut CheckerStatistics<CR>>,
 ) -> RuleResult {
@@ -126,6 +126,8 @@ pub fn check_step_core<CR: CollectResults + Send + Default>(
         *context.is_holey = true;
     }
 
+    check_variable_scopes(&step.rule, &mut rule_args, context.is_end_step)?;
+
     // Execute the rule with the provided arguments
     rule(rule_args)?;
 
@@ -144,6 +146,49 @@ pub fn check_step_core<CR: CollectResults + Send + Default>(
     Ok(())
 }
 
+/// Checks that a step doesn't mix terms where the same variable has different meanings. A variable
+/// introduced by an anchor can't appear in a premise from outside of the subproof. Similarly, the
+/// variables that are given a value by an anchor can't be used in the conclusion of the subproof,
+/// unless the rule closes the anchor by binding these variables again.
+fn check_variable_scopes(rule: &str, rule_args: &mut RuleArgs, is_end_step: bool) -> RuleResult {
+    use crate::checker::rules::subproof::{assert_closes_context, assert_not_free};
+
+    if rule_args.context.is_empty() {
+        return Ok(());
+    }
+
+    let inner_depth = rule_args.context.len();
+    let depth = if is_end_step {
+        inner_depth - 1
+    } else {
+        inner_depth
+    };
+
+    for premise in rule_args.premises {
+        if premise.index.0 < depth {
+            let vars = rule_args
+                .context
+                .introduced_vars(rule_args.pool, premise.index.0..depth);
+            if !vars.is_empty() {
+                for t in premise.clause {
+                    assert_not_free(rule_args.pool, &vars, t)?;
+                }
+            }
+        } else if premise.index.0 > depth {
+            assert_closes_context(rule_args.pool, rule_args.context, premise.clause)?;
+        }
+    }
+
+    let binds_vars = matches!(
+        rule,
+        "bind" | "let" | "onepoint" | "sko_ex" | "sko_forall" | "bind_let"
+    );
+    if is_end_step && !binds_vars {
+        assert_closes_context(rule_args.pool, rule_args.context, rule_args.conclusion)?;
+    }
+    Ok(())
+}
+
 /// Shared discharge checking logic
 pub fn check_discharge_shared(
     subproof: &[ProofCommand],
-- 
2.43.0


From da9f6fd9f2900430540d8b9f814cac1c1658dde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:44 +0000
Subject: [PATCH 15/94] fix: do not capture free variables in qnt_cnf

---
 carcara/src/checker/rules/quantifier.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/carcara/src/checker/rules/quantifier.rs b/carcara/src/checker/rules/quantifier.rs
index a7a925e..9f53038 100644
--- a/carcara/src/checker/rules/quantifier.rs
+++ b/carcara/src/checker/rules/quantifier.rs
@@ -259,7 +259,7 @@ fn conjunctive_normal_form(term: &Rc<Term>) -> CnfFormula {
 pub fn qnt_cnf(RuleArgs { conclusion, pool, .. }: RuleArgs) -> RuleResult {
     assert_clause_len(conclusion, 1)?;
 
-    let (l_bindings, phi, r_bindings, phi_prime) = {
+    let (left, l_bindings, phi, r_bindings, phi_prime) = {
         let (l, r) = match_term_err!((or (not l) r) = &conclusion[0])?;
         let (l_q, l_b, phi) = l.as_quant_err()?;
         let (r_q, r_b, phi_prime) = r.as_quant_err()?;
@@ -268,7 +268,7 @@ pub fn qnt_cnf(RuleArgs { conclusion, pool, .. }: RuleArgs) -> RuleResult {
         assert_is_expected(&l_q, Binder::Forall)?;
         assert_is_expected(&r_q, Binder::Forall)?;
 
-        (l_b, phi, r_b, phi_prime)
+        (l, l_b, phi, r_b, phi_prime)
     };
 
     let r_bindings = r_bindings.iter().cloned().collect::<IndexSet<_>>();
@@ -294,6 +294,14 @@ pub fn qnt_cnf(RuleArgs { conclusion, pool, .. }: RuleArgs) -> RuleResult {
         )));
     }
 
+    // A variable that is free in the left side can't be bound by the right side
+    let left_free_vars = pool.free_vars(left);
+    for var in &r_bindings {
+        if left_free_vars.contains(&pool.add(var.clone().into())) {
+            return Err(QuantifierError::NewBindingIntroduced(var.0.clone()).into());
+        }
+    }
+
     let selected_clause = clauses
         .iter()
         .find(|&clause| clause == phi_prime)
-- 
2.43.0


From b4285e20c581837fbac8ac2c3718397c116ed597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:17 +0000
Subject: [PATCH 16/94] fix: respect scopes when comparing terms modulo alpha
 equivalence

---
 carcara/src/ast/polyeq.rs | 50 +++++++++++++++++++++++++++++++++++++--
 carcara/src/utils.rs      |  8 +++++++
 2 files changed, 56 insertions(+), 2 deletions(-)

diff --git a/carcara/src/ast/polyeq.rs b/carcara/src/ast/polyeq.rs
index 72bbc24..b5863b6 100644
--- a/carcara/src/ast/polyeq.rs
+++ b/carcara/src/ast/polyeq.rs
@@ -201,6 +201,9 @@ impl Polyeq {
         a_inner: &Rc<Term>,
         b_inner: &Rc<Term>,
     ) -> bool {
+        if a_binds.len() != b_binds.len() {
+            return false;
+        }
         if let Some(de_bruijn_map) = self.de_bruijn_map.as_mut() {
             // First, we push new scopes into the De Bruijn map and the cache stack
             de_bruijn_map.push();
@@ -233,6 +236,43 @@ impl Polyeq {
         }
     }
 
+    fn compare_let(
+        &mut self,
+        a_binds: &BindingList,
+        b_binds: &BindingList,
+        a_inner: &Rc<Term>,
+        b_inner: &Rc<Term>,
+    ) -> bool {
+        if self.de_bruijn_map.is_none() {
+            return self.eq(a_binds, b_binds) && self.eq(a_inner, b_inner);
+        }
+
+        // The values in a `let` binding list are outside of the scope of the variables being bound,
+        // so we must compare all of them before inserting the variables in the De Bruijn map
+        if a_binds.len() != b_binds.len() {
+            return false;
+        }
+        for (a_var, b_var) in a_binds.iter().zip(b_binds.iter()) {
+            if !self.eq(&a_var.1, &b_var.1) {
+                return false;
+            }
+        }
+
+        let de_bruijn_map = self.de_bruijn_map.as_mut().unwrap();
+        de_bruijn_map.push();
+        for (a_var, b_var) in a_binds.iter().zip(b_binds.iter()) {
+            de_bruijn_map.insert(a_var.0.clone(), b_var.0.clone());
+        }
+        self.cache.push_scope();
+
+        let result = self.eq(a_inner, b_inner);
+
+        self.de_bruijn_map.as_mut().unwrap().pop();
+        self.cache.pop_scope();
+
+        result
+    }
+
     fn compare_op(
         &mut self,
         op_a: Operator,
@@ -480,7 +520,13 @@ impl PolyeqComparable for Rc<Term> {
         }
 
         // We first check the cache to see if these terms were already determined to be equal
-        if comp.cache.get(&(a.clone(), b.clone())).is_some() {
+        // in the current scope. Since the variables in the terms may have been bound again, we can't
+        // use the equalities that were found outside of the innermost binder
+        if comp
+            .cache
+            .get_in_last_scope(&(a.clone(), b.clone()))
+            .is_some()
+        {
             return true;
         }
 
@@ -551,7 +597,7 @@ impl PolyeqComparable for Term {
                 q_a == q_b && comp.compare_binder(binds_a, binds_b, a, b)
             }
             (Term::Let(binds_a, a), Term::Let(binds_b, b)) => {
-                comp.compare_binder(binds_a, binds_b, a, b)
+                comp.compare_let(binds_a, binds_b, a, b)
             }
             (Term::Const(Constant::Real(r)), Term::Op(Operator::RealDiv, args)) => {
                 // if a is a rational and b a division literal, check
diff --git a/carcara/src/utils.rs b/carcara/src/utils.rs
index 3ad9401..2dd0534 100644
--- a/carcara/src/utils.rs
+++ b/carcara/src/utils.rs
@@ -150,6 +150,14 @@ impl<K: Eq + Hash, V> HashMapStack<K, V> {
         self.scopes.iter().rev().find_map(|scope| scope.get(key))
     }
 
+    pub fn get_in_last_scope<Q>(&self, key: &Q) -> Option<&V>
+    where
+        K: Borrow<Q>,
+        Q: Eq + Hash + ?Sized,
+    {
+        self.scopes.last().unwrap().get(key)
+    }
+
     pub fn get_with_depth<Q>(&self, key: &Q) -> Option<(usize, &V)>
     where
         K: Borrow<Q>,
-- 
2.43.0


From edfa505b607d96d789281eb75a032b54e606f948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:50 +0000
Subject: [PATCH 17/94] fix: compare division and negation literals by value in
 polyeq

---
 carcara/src/ast/polyeq.rs | 71 +++++++++++++++++----------------------
 1 file changed, 31 insertions(+), 40 deletions(-)

diff --git a/carcara/src/ast/polyeq.rs b/carcara/src/ast/polyeq.rs
index b5863b6..e186af7 100644
--- a/carcara/src/ast/polyeq.rs
+++ b/carcara/src/ast/polyeq.rs
@@ -37,6 +37,30 @@ fn to_concat(args: &[Rc<Term>]) -> Vec<Concat> {
         .collect()
 }
 
+/// If the given arguments of a `/` operation form a division literal, computes its value. A division
+/// literal is the division of two integer literals, which may be negated.
+fn division_literal(args: &[Rc<Term>]) -> Option<Rational> {
+    fn literal(term: &Rc<Term>) -> Option<Rational> {
+        match term.as_ref() {
+            Term::Const(Constant::Real(r)) if r.is_integer() => Some(r.clone()),
+            Term::Const(Constant::Integer(i)) => Some(i.clone().into()),
+            Term::Op(Operator::Sub, args) if args.len() == 1 => match args[0].as_ref() {
+                Term::Const(_) => literal(&args[0]).map(|r| -r),
+                _ => None,
+            },
+            _ => None,
+        }
+    }
+
+    match args {
+        [n, d] => {
+            let (n, d) = (literal(n)?, literal(d)?);
+            (!d.is_zero()).then(|| n / d)
+        }
+        _ => None,
+    }
+}
+
 /// A trait that represents objects that can be compared for equality modulo reordering of
 /// equalities or alpha equivalence.
 pub trait PolyeqComparable {
@@ -602,47 +626,21 @@ impl PolyeqComparable for Term {
             (Term::Const(Constant::Real(r)), Term::Op(Operator::RealDiv, args)) => {
                 // if a is a rational and b a division literal, check
                 // if they are the same
-                match (args[0].as_ref(), args[1].as_ref()) {
-                    (Term::Const(Constant::Real(r1)), Term::Const(Constant::Real(r2)))
-                        if r1.is_integer() && r2.is_integer() =>
-                    {
-                        Rational::from((r1.numer(), r2.numer())) == r.clone()
-                    }
-                    _ => false,
-                }
+                division_literal(args).is_some_and(|d| d == *r)
             }
             (Term::Op(Operator::RealDiv, args), Term::Const(Constant::Real(r))) => {
                 // if a is a rational and b a division literal, check
                 // if they are the same
-                match (args[0].as_ref(), args[1].as_ref()) {
-                    (Term::Const(Constant::Real(r1)), Term::Const(Constant::Real(r2)))
-                        if r.is_positive() && r1.is_integer() && r2.is_integer() =>
-                    {
-                        Rational::from((r1.numer(), r2.numer())) == r.clone()
-                    }
-                    (Term::Op(Operator::Sub, args), Term::Const(Constant::Integer(r2)))
-                    | (Term::Const(Constant::Integer(r2)), Term::Op(Operator::Sub, args))
-                        if r.is_negative() && args.len() == 1 =>
-                    {
-                        if let Term::Const(Constant::Integer(r1)) = args[0].as_ref() {
-                            Rational::from((r1, r2)) == r.clone().abs()
-                        } else {
-                            false
-                        }
-                    }
-                    _ => false,
-                }
+                division_literal(args).is_some_and(|d| d == *r)
             }
             (Term::Const(Constant::Integer(i1)), Term::Op(Operator::Sub, args))
             | (Term::Op(Operator::Sub, args), Term::Const(Constant::Integer(i1)))
                 if i1.is_negative() && args.len() == 1 =>
             {
-                if let Term::Const(Constant::Integer(i2)) = args[0].as_ref() {
-                    i1.clone().abs() == i2.clone()
-                } else if let Term::Const(Constant::Real(r2)) = args[0].as_ref() {
-                    i1.clone().abs() == r2.numer().clone()
-                } else {
-                    false
+                match args[0].as_ref() {
+                    Term::Const(Constant::Integer(i2)) => i1.clone().abs() == *i2,
+                    Term::Const(Constant::Real(r2)) => i1.clone().abs() == *r2,
+                    _ => false,
                 }
             }
             (Term::Op(Operator::Sub, args), Term::Const(Constant::Real(r)))
@@ -651,14 +649,7 @@ impl PolyeqComparable for Term {
             {
                 match args[0].as_ref() {
                     Term::Op(Operator::RealDiv, sub_args) => {
-                        match (sub_args[0].as_ref(), sub_args[1].as_ref()) {
-                            (Term::Const(Constant::Real(r1)), Term::Const(Constant::Real(r2)))
-                                if r1.is_integer() && r2.is_integer() =>
-                            {
-                                Rational::from((r1.numer(), r2.numer())) == r.clone().abs()
-                            }
-                            _ => false,
-                        }
+                        division_literal(sub_args).is_some_and(|d| d == r.clone().abs())
                     }
                     Term::Const(Constant::Real(r1)) => r1.clone() == r.clone().abs(),
                     _ => false,
-- 
2.43.0


From 21f91dfbb6b8a4a2c25f675d6f879158bd15b683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:35 +0000
Subject: [PATCH 18/94] fix: compare string literals by characters and only
 flatten concatenations in polyeq

---
 carcara/src/ast/polyeq.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/carcara/src/ast/polyeq.rs b/carcara/src/ast/polyeq.rs
index e186af7..949a543 100644
--- a/carcara/src/ast/polyeq.rs
+++ b/carcara/src/ast/polyeq.rs
@@ -305,7 +305,10 @@ impl Polyeq {
         args_b: &[Rc<Term>],
     ) -> bool {
         // Modulo string concatenation
-        if self.is_mod_string_concat {
+        if self.is_mod_string_concat
+            && op_a == Operator::StrConcat
+            && op_b == Operator::StrConcat
+        {
             let concat_args_a: Vec<Concat> = to_concat(args_a);
             let concat_args_b: Vec<Concat> = to_concat(args_b);
             return self.compare_strings(concat_args_a, concat_args_b);
@@ -408,15 +411,14 @@ impl Polyeq {
             (None | Some(_), None) | (None, Some(_)) => (a, b),
             (Some(a_head), Some(b_head)) => match (a_head, b_head) {
                 (Concat::Constant(a_constant), Concat::Constant(b_constant)) => {
-                    let prefix_length = std::cmp::min(a_constant.len(), b_constant.len());
-                    for i in 0..prefix_length {
-                        if a_constant.chars().nth(i).unwrap() != b_constant.chars().nth(i).unwrap()
-                        {
+                    let (a_const_rem, b_const_rem) =
+                        if let Some(rem) = a_constant.strip_prefix(b_constant.as_str()) {
+                            (rem, "")
+                        } else if let Some(rem) = b_constant.strip_prefix(a_constant.as_str()) {
+                            ("", rem)
+                        } else {
                             return (a, b);
-                        }
-                    }
-                    let a_const_rem = &a_constant[prefix_length..];
-                    let b_const_rem = &b_constant[prefix_length..];
+                        };
                     let mut new_a = a[1..].to_vec();
                     let mut new_b = b[1..].to_vec();
                     if !a_const_rem.is_empty() {
-- 
2.43.0


From 0a74d7aa6efc1ce298c834b57fa9b0d776590e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:43 +0000
Subject: [PATCH 19/94] fix: compare negations and expansions of chainable
 operators correctly in polyeq

---
 carcara/src/ast/polyeq.rs | 70 +++++++++++++++++++++++++++++++--------
 1 file changed, 56 insertions(+), 14 deletions(-)

diff --git a/carcara/src/ast/polyeq.rs b/carcara/src/ast/polyeq.rs
index 949a543..e0bcbb5 100644
--- a/carcara/src/ast/polyeq.rs
+++ b/carcara/src/ast/polyeq.rs
@@ -218,6 +218,22 @@ impl Polyeq {
         self.max_depth
     }
 
+    /// Returns `true` if, modulo n-ary expansion, `(op args[0])` is the same as `args[0]`.
+    fn is_singleton(&self, op: Operator, args: &[Rc<Term>]) -> bool {
+        // `(- a)` is the negation of `a`, and not an application of the left-associative `-`
+        self.is_mod_nary
+            && args.len() == 1
+            && op.nary_case() == Some(NaryCase::LeftAssoc)
+            && op != Operator::Sub
+    }
+
+    /// Compares two `&Term`s, checking first if they are identical. As opposed to comparing
+    /// `Rc<Term>`s, comparing `&Term`s directly doesn't do this check.
+    fn eq_terms(&mut self, a: &Term, b: &Term) -> bool {
+        let possibly_renamed = self.de_bruijn_map.as_ref().is_some_and(|m| !m.is_empty());
+        (!possibly_renamed && a == b) || self.eq(a, b)
+    }
+
     fn compare_binder(
         &mut self,
         a_binds: &BindingList,
@@ -330,9 +346,9 @@ impl Polyeq {
             if op_a != op_b {
                 // TODO: check pairwise case
                 return if op_a.nary_case() == Some(NaryCase::Chainable) {
-                    op_b == Operator::And && self.compare_chainable(op_a, args_a, args_b)
+                    op_b == Operator::And && self.compare_chainable(op_a, args_a, args_b, false)
                 } else if op_b.nary_case() == Some(NaryCase::Chainable) {
-                    op_a == Operator::And && self.compare_chainable(op_b, args_b, args_a)
+                    op_a == Operator::And && self.compare_chainable(op_b, args_b, args_a, true)
                 } else {
                     false
                 };
@@ -347,7 +363,15 @@ impl Polyeq {
         op_a == op_b && self.eq(args_a, args_b)
     }
 
-    fn compare_chainable(&mut self, op: Operator, args: &[Rc<Term>], chain: &[Rc<Term>]) -> bool {
+    /// Compares the application of a chainable operator with its expansion. If `flipped` is `true`,
+    /// the expansion is the left-hand side of the comparison.
+    fn compare_chainable(
+        &mut self,
+        op: Operator,
+        args: &[Rc<Term>],
+        chain: &[Rc<Term>],
+        flipped: bool,
+    ) -> bool {
         if args.len() != chain.len() + 1 {
             return false;
         }
@@ -357,7 +381,11 @@ impl Polyeq {
                 let (a, b) = (&window[0], &window[1]);
                 match chain_term.as_ref() {
                     Term::Op(chain_op, args) if *chain_op == op && args.len() == 2 => {
-                        self.eq(a, &args[0]) && self.eq(b, &args[1])
+                        if flipped {
+                            self.eq(&args[0], a) && self.eq(&args[1], b)
+                        } else {
+                            self.eq(a, &args[0]) && self.eq(b, &args[1])
+                        }
                     }
                     _ => false,
                 }
@@ -378,7 +406,9 @@ impl Polyeq {
                 return None;
             };
             let (term_op, args) = term.as_op()?;
-            if term_op == op {
+            // `(- a)` is the negation of `a`, and not an application of the left-associative `-`
+            let is_negation = op == Operator::Sub && args.len() == 1;
+            if term_op == op && !is_negation {
                 Some(args)
             } else {
                 None
@@ -400,8 +430,20 @@ impl Polyeq {
             return false;
         }
 
-        left_tail = flatten_if_singleton(left_tail, op).unwrap_or(left_tail);
-        right_tail = flatten_if_singleton(right_tail, op).unwrap_or(right_tail);
+        let new_left_tail = flatten_if_singleton(left_tail, op);
+        let new_right_tail = flatten_if_singleton(right_tail, op);
+
+        // If both tails are a single term, but not both of them are applications of `op`, they may be
+        // equal in other ways (e.g. one of them can be the application of a chainable operator, and
+        // the other can be its expansion)
+        if let ([left], [right]) = (left_tail, right_tail) {
+            if (new_left_tail.is_none() || new_right_tail.is_none()) && self.eq(left, right) {
+                return true;
+            }
+        }
+
+        left_tail = new_left_tail.unwrap_or(left_tail);
+        right_tail = new_right_tail.unwrap_or(right_tail);
 
         self.compare_assoc(op, left_tail, right_tail)
     }
@@ -605,13 +647,13 @@ impl PolyeqComparable for Term {
             ) => op_a == op_b && op_args_a == op_args_b && comp.eq(args_a, args_b),
 
             // Check the singleton case (op a) = a, where op is left-associative
-            (Term::Op(op, args), other) | (other, Term::Op(op, args))
-                if comp.is_mod_nary
-                    && args.len() == 1
-                    && op.nary_case() == Some(NaryCase::LeftAssoc)
-                    // We have to check with `==` first because we are calling into `comp.eq` with
-                    // `&Term`s directly (instead of `Rc<Term>`s), so the `==` check is skipped
-                    && (args[0].as_ref() == other || comp.eq(args[0].as_ref(), other)) =>
+            (Term::Op(op, args), other)
+                if comp.is_singleton(*op, args) && comp.eq_terms(args[0].as_ref(), other) =>
+            {
+                true
+            }
+            (other, Term::Op(op, args))
+                if comp.is_singleton(*op, args) && comp.eq_terms(other, args[0].as_ref()) =>
             {
                 true
             }
-- 
2.43.0


From dcf65d30cb4fd18b378fb9e3c5b0454515288563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:16 +0000
Subject: [PATCH 20/94] fix: compute sorts in layered term pools using the
 terms of the prior pools

---
 carcara/src/ast/pool/advanced.rs |  20 ++--
 carcara/src/ast/pool/mod.rs      | 164 +++++++++++++++++++++----------
 2 files changed, 126 insertions(+), 58 deletions(-)

diff --git a/carcara/src/ast/pool/advanced.rs b/carcara/src/ast/pool/advanced.rs
index 086b12b..a600990 100644
--- a/carcara/src/ast/pool/advanced.rs
+++ b/carcara/src/ast/pool/advanced.rs
@@ -43,10 +43,10 @@ impl TermPool for ContextPool {
         if let Some(entry) = self.global_pool.storage.get(&term) {
             return entry.clone();
         }
-        let mut ctx_guard = self.inner.write().unwrap();
-        let term = ctx_guard.storage.add(term);
-        ctx_guard.compute_sort(&term);
-        term
+        self.inner
+            .write()
+            .unwrap()
+            .add_with_priorities(term, [&self.global_pool])
     }
 
     fn sort(&self, term: &Rc<Term>) -> Rc<Term> {
@@ -108,7 +108,13 @@ impl TermPool for LocalPool {
         else if let Some(entry) = self.ctx_pool.inner.read().unwrap().storage.get(&term) {
             entry.clone()
         } else {
-            self.inner.add(term)
+            self.inner.add_with_priorities(
+                term,
+                [
+                    &self.ctx_pool.global_pool,
+                    &self.ctx_pool.inner.read().unwrap(),
+                ],
+            )
         }
     }
 
@@ -117,8 +123,8 @@ impl TermPool for LocalPool {
             sort.clone()
         }
         // A sort inserted by context
-        else if let Some(entry) = self.ctx_pool.inner.read().unwrap().storage.get(term) {
-            entry.clone()
+        else if let Some(sort) = self.ctx_pool.inner.read().unwrap().sorts_cache.get(term) {
+            sort.clone()
         } else {
             self.inner.sorts_cache[term].clone()
         }
diff --git a/carcara/src/ast/pool/mod.rs b/carcara/src/ast/pool/mod.rs
index a44fbc1..55d12af 100644
--- a/carcara/src/ast/pool/mod.rs
+++ b/carcara/src/ast/pool/mod.rs
@@ -69,8 +69,18 @@ impl PrimitivePool {
         Self::default()
     }
 
-    /// Computes the sort of a term and adds it to the sort cache.
-    fn compute_sort(&mut self, term: &Rc<Term>) -> Rc<Term> {
+    /// Computes the sort of a term and adds it to the sort cache. If this pool is layered on top of
+    /// other pools, the terms that are already in those pools are reused.
+    fn compute_sort<const N: usize>(
+        &mut self,
+        term: &Rc<Term>,
+        prior_pools: [&PrimitivePool; N],
+    ) -> Rc<Term> {
+        for p in prior_pools {
+            if let Some(sort) = p.sorts_cache.get(term) {
+                return sort.clone();
+            }
+        }
         if let Some(sort) = self.sorts_cache.get(term) {
             return sort.clone();
         }
@@ -137,7 +147,12 @@ impl PrimitivePool {
                 | Operator::BvSRem
                 | Operator::BvSMod
                 | Operator::BvAShr => {
-                    match self.compute_sort(&args[0]).as_sort().unwrap().clone() {
+                    match self
+                        .compute_sort(&args[0], prior_pools)
+                        .as_sort()
+                        .unwrap()
+                        .clone()
+                    {
                         Sort::BitVec(width) => Sort::BitVec(width),
                         Sort::ParamSort(v, head) => {
                             if let Some(Sort::Var(_)) = head.as_sort() {
@@ -157,7 +172,10 @@ impl PrimitivePool {
                     }
                     _ => Sort::ParamSort(
                         vec![args[1].clone()],
-                        self.add(Term::Sort(Sort::Var("BitVec".to_owned()))),
+                        self.add_with_priorities(
+                            Term::Sort(Sort::Var("BitVec".to_owned())),
+                            prior_pools,
+                        ),
                     ),
                 },
                 Operator::BvConcat => {
@@ -167,7 +185,12 @@ impl PrimitivePool {
                     }
                     let mut total_width: Vec<TotalWidth> = vec![];
                     for arg in args {
-                        match self.compute_sort(arg).as_sort().unwrap().clone() {
+                        match self
+                            .compute_sort(arg, prior_pools)
+                            .as_sort()
+                            .unwrap()
+                            .clone()
+                        {
                             Sort::BitVec(arg_width) => {
                                 total_width.push(TotalWidth::Width(arg_width));
                             }
@@ -186,17 +209,21 @@ impl PrimitivePool {
                             total_width
                                 .iter()
                                 .map(|x| match x {
-                                    TotalWidth::Width(w) => {
-                                        self.add(Term::Const(Constant::Integer((*w).into())))
-                                    }
+                                    TotalWidth::Width(w) => self.add_with_priorities(
+                                        Term::Const(Constant::Integer((*w).into())),
+                                        prior_pools,
+                                    ),
                                     TotalWidth::ParamSort(p) => p.clone(),
                                 })
                                 .collect(),
                         );
 
                         Sort::ParamSort(
-                            vec![self.add(add)],
-                            self.add(Term::Sort(Sort::Var("BitVec".to_owned()))),
+                            vec![self.add_with_priorities(add, prior_pools)],
+                            self.add_with_priorities(
+                                Term::Sort(Sort::Var("BitVec".to_owned())),
+                                prior_pools,
+                            ),
                         )
                     } else {
                         Sort::BitVec(total_width.iter().fold(0, |acc, x| match x {
@@ -205,12 +232,15 @@ impl PrimitivePool {
                         }))
                     }
                 }
-                Operator::Ite => self.compute_sort(&args[1]).as_sort().unwrap().clone(),
+                Operator::Ite => self
+                    .compute_sort(&args[1], prior_pools)
+                    .as_sort()
+                    .unwrap()
+                    .clone(),
                 Operator::Add | Operator::Sub | Operator::Mult | Operator::Abs => {
-                    if args
-                        .iter()
-                        .any(|a| self.compute_sort(a).as_sort().unwrap() == &Sort::Real)
-                    {
+                    if args.iter().any(|a| {
+                        self.compute_sort(a, prior_pools).as_sort().unwrap() == &Sort::Real
+                    }) {
                         Sort::Real
                     } else {
                         Sort::Int
@@ -218,18 +248,24 @@ impl PrimitivePool {
                 }
                 Operator::RealDiv | Operator::ToReal => Sort::Real,
                 Operator::IntDiv | Operator::Mod | Operator::ToInt => Sort::Int,
-                Operator::Select => match self.compute_sort(&args[0]).as_sort().unwrap() {
-                    Sort::Array(_, y) => y.as_sort().unwrap().clone(),
-                    Sort::ParamSort(v, head) => {
-                        if let Some(Sort::Var(_)) = head.as_sort() {
-                            v[1].as_sort().unwrap().clone()
-                        } else {
-                            unreachable!()
+                Operator::Select => {
+                    match self.compute_sort(&args[0], prior_pools).as_sort().unwrap() {
+                        Sort::Array(_, y) => y.as_sort().unwrap().clone(),
+                        Sort::ParamSort(v, head) => {
+                            if let Some(Sort::Var(_)) = head.as_sort() {
+                                v[1].as_sort().unwrap().clone()
+                            } else {
+                                unreachable!()
+                            }
                         }
+                        _ => unreachable!(),
                     }
-                    _ => unreachable!(),
-                },
-                Operator::Store => self.compute_sort(&args[0]).as_sort().unwrap().clone(),
+                }
+                Operator::Store => self
+                    .compute_sort(&args[0], prior_pools)
+                    .as_sort()
+                    .unwrap()
+                    .clone(),
                 Operator::StrLen | Operator::IndexOf | Operator::StrToCode | Operator::StrToInt => {
                     Sort::Int
                 }
@@ -260,7 +296,7 @@ impl PrimitivePool {
                 Operator::RareList => Sort::RareList,
             },
             Term::App(f, args) => {
-                match self.compute_sort(f).as_sort().unwrap() {
+                match self.compute_sort(f, prior_pools).as_sort().unwrap() {
                     Sort::Function(sorts) => sorts.last().unwrap().as_sort().unwrap().clone(),
                     Sort::ParamSort(_, p_sort) => {
                         let p_function_sort = p_sort.as_sort().unwrap();
@@ -269,8 +305,11 @@ impl PrimitivePool {
                             let mut map = IndexMap::new();
                             for i in 0..args.len() {
                                 let sort_i = sorts[i].as_sort().unwrap();
-                                let arg_sort_i =
-                                    self.compute_sort(&args[i]).as_sort().unwrap().clone();
+                                let arg_sort_i = self
+                                    .compute_sort(&args[i], prior_pools)
+                                    .as_sort()
+                                    .unwrap()
+                                    .clone();
                                 if !sort_i.match_with(&arg_sort_i, &mut map) {
                                     unreachable!();
                                 }
@@ -280,7 +319,10 @@ impl PrimitivePool {
                                 .map(|(var_name, sort)| {
                                     let var = Term::Sort(Sort::Var(var_name));
                                     let sort_t = Term::Sort(sort);
-                                    (self.add(var), self.add(sort_t))
+                                    (
+                                        self.add_with_priorities(var, prior_pools),
+                                        self.add_with_priorities(sort_t, prior_pools),
+                                    )
                                 })
                                 .collect();
                             Substitution::new(self, substitution)
@@ -302,10 +344,14 @@ impl PrimitivePool {
             Term::Binder(Binder::Lambda, bindings, body) => {
                 let mut result: Vec<_> =
                     bindings.iter().map(|(_name, sort)| sort.clone()).collect();
-                result.push(self.compute_sort(body));
+                result.push(self.compute_sort(body, prior_pools));
                 Sort::Function(result)
             }
-            Term::Let(_, inner) => self.compute_sort(inner).as_sort().unwrap().clone(),
+            Term::Let(_, inner) => self
+                .compute_sort(inner, prior_pools)
+                .as_sort()
+                .unwrap()
+                .clone(),
             Term::ParamOp { op, op_args, args } => {
                 let sort = match op {
                     ParamOperator::BvExtract => {
@@ -315,20 +361,28 @@ impl PrimitivePool {
                     }
                     ParamOperator::ZeroExtend | ParamOperator::SignExtend => {
                         let extension_width = op_args[0].as_integer().unwrap().to_usize().unwrap();
-                        let Sort::BitVec(bv_width) =
-                            self.compute_sort(&args[0]).as_sort().unwrap().clone()
+                        let Sort::BitVec(bv_width) = self
+                            .compute_sort(&args[0], prior_pools)
+                            .as_sort()
+                            .unwrap()
+                            .clone()
                         else {
                             unreachable!()
                         };
                         Sort::BitVec(extension_width + bv_width)
                     }
-                    ParamOperator::RotateLeft | ParamOperator::RotateRight => {
-                        self.compute_sort(&args[0]).as_sort().unwrap().clone()
-                    }
+                    ParamOperator::RotateLeft | ParamOperator::RotateRight => self
+                        .compute_sort(&args[0], prior_pools)
+                        .as_sort()
+                        .unwrap()
+                        .clone(),
                     ParamOperator::Repeat => {
                         let repetitions = op_args[0].as_integer().unwrap();
-                        let Sort::BitVec(bv_width) =
-                            self.compute_sort(&args[0]).as_sort().unwrap().clone()
+                        let Sort::BitVec(bv_width) = self
+                            .compute_sort(&args[0], prior_pools)
+                            .as_sort()
+                            .unwrap()
+                            .clone()
                         else {
                             unreachable!()
                         };
@@ -350,23 +404,30 @@ impl PrimitivePool {
                 sort
             }
         };
-        let sort = self.storage.add(Term::Sort(result));
-        self.sorts_cache.insert(term.clone(), sort);
-        self.sorts_cache[term].clone()
+        let sort = self.store(Term::Sort(result), prior_pools);
+        self.sorts_cache.insert(term.clone(), sort.clone());
+        sort
     }
 
-    fn add_with_priorities<const N: usize>(
-        &mut self,
-        term: Term,
-        prior_pools: [&PrimitivePool; N],
-    ) -> Rc<Term> {
+    /// Adds a term to the storage, unless one of the prior pools already has it.
+    fn store<const N: usize>(&mut self, term: Term, prior_pools: [&PrimitivePool; N]) -> Rc<Term> {
         for p in prior_pools {
             // If this prior pool has the term
             if let Some(entry) = p.storage.get(&term) {
                 return entry.clone();
             }
         }
-        self.add(term)
+        self.storage.add(term)
+    }
+
+    fn add_with_priorities<const N: usize>(
+        &mut self,
+        term: Term,
+        prior_pools: [&PrimitivePool; N],
+    ) -> Rc<Term> {
+        let term = self.store(term, prior_pools);
+        self.compute_sort(&term, prior_pools);
+        term
     }
 
     fn sort_with_priorities<const N: usize>(
@@ -430,7 +491,10 @@ impl PrimitivePool {
                 }
                 // The values of the bindings are not in the scope of the bound variables
                 for (_, value) in bindings {
-                    vars.extend(self.free_vars_with_priorities(value, prior_pools).into_iter());
+                    vars.extend(
+                        self.free_vars_with_priorities(value, prior_pools)
+                            .into_iter(),
+                    );
                 }
                 vars
             }
@@ -455,9 +519,7 @@ impl PrimitivePool {
 
 impl TermPool for PrimitivePool {
     fn add(&mut self, term: Term) -> Rc<Term> {
-        let term = self.storage.add(term);
-        self.compute_sort(&term);
-        term
+        self.add_with_priorities(term, [])
     }
 
     fn sort(&self, term: &Rc<Term>) -> Rc<Term> {
-- 
2.43.0


From 7a70c48ed40fec89c8bb262435e81b07b0fe8120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:07 +0000
Subject: [PATCH 21/94] fix: do not share cumulative substitutions between
 threads

---
 carcara/src/ast/context.rs | 91 +++++++++++---------------------------
 1 file changed, 26 insertions(+), 65 deletions(-)

diff --git a/carcara/src/ast/context.rs b/carcara/src/ast/context.rs
index 171b1cf..013d895 100644
--- a/carcara/src/ast/context.rs
+++ b/carcara/src/ast/context.rs
@@ -7,14 +7,12 @@ use std::{
 #[derive(Debug)]
 pub struct Context {
     pub args: Vec<AnchorArg>,
-    pub cumulative_substitution: Option<Substitution>,
 }
 
 impl Context {
-    /// Builds a new context form the arguments to an `anchor`. This does not initalize the
-    /// `cumulative_substitution` field.
+    /// Builds a new context form the arguments to an `anchor`.
     fn new(args: Vec<AnchorArg>) -> Self {
-        Self { args, cumulative_substitution: None }
+        Self { args }
     }
 }
 
@@ -37,7 +35,10 @@ pub struct ContextStack {
     context_vec: Arc<Vec<ContextInfo>>,
     /// The stack of contexts id (works just like a map to `context_vec`).
     stack: Vec<usize>,
-    num_cumulative_calculated: usize,
+    /// The cumulative substitutions of the contexts in the stack, computed lazily. These are not
+    /// shared between threads, since they contain terms allocated in the term pool that was used to
+    /// compute them.
+    cumulative_substitutions: Vec<Substitution>,
 }
 
 impl ContextStack {
@@ -58,7 +59,7 @@ impl ContextStack {
         Self {
             context_vec,
             stack: vec![],
-            num_cumulative_calculated: 0,
+            cumulative_substitutions: vec![],
         }
     }
 
@@ -68,7 +69,7 @@ impl ContextStack {
         Self {
             context_vec: self.context_vec.clone(),
             stack: vec![],
-            num_cumulative_calculated: 0,
+            cumulative_substitutions: vec![],
         }
     }
 
@@ -133,20 +134,18 @@ impl ContextStack {
         if let Some(id) = self.stack.pop() {
             let this_context = &self.context_vec[id];
 
-            let mut remaining_threads = this_context.0.load(Ordering::Acquire);
-            remaining_threads = remaining_threads
-                .checked_sub(1)
+            let previous = this_context
+                .0
+                .fetch_update(Ordering::AcqRel, Ordering::Acquire, |n| n.checked_sub(1))
                 .expect("A thread tried to access a context not allocated for it.");
 
-            if remaining_threads == 0 {
+            if previous == 1 {
                 // Drop this context since the last thread stopped using it
                 *this_context.1.write().unwrap() = None;
             }
-            this_context.0.store(remaining_threads, Ordering::Release);
         }
 
-        self.num_cumulative_calculated =
-            std::cmp::min(self.num_cumulative_calculated, self.stack.len());
+        self.cumulative_substitutions.truncate(self.stack.len());
     }
 
     /// Returns the variables introduced by the contexts in the given range. Variables that are
@@ -167,34 +166,17 @@ impl ContextStack {
         result
     }
 
-    fn catch_up_cumulative(&mut self, pool: &mut dyn TermPool, up_to: usize) {
-        for i in self.num_cumulative_calculated..std::cmp::max(up_to + 1, self.len()) {
-            // Requires read guard. Since the i-th context will be mutated far
-            // below this line, we first take the read guard here and then, when
-            // necessary, we require the write guard. This tries to avoid bigger
-            // overheads
+    fn catch_up_cumulative(&mut self, pool: &mut dyn TermPool) {
+        for i in self.cumulative_substitutions.len()..self.len() {
+            // If another thread is still building this context, this waits until it finishes
             let context_guard = self.context_vec[self.stack[i]].1.read().unwrap();
             let current_context = context_guard.as_ref().unwrap();
 
-            let mut substitution = if i > 0 {
-                // Waits until OS allows to read this previous context. The code structure
-                // makes sure that this context, when released for reading, will be already
-                // instantiated since there are only 2 cases:
-                //  - This thread was responsible for building this previous context. Then
-                //      this context has already been built.
-                //  - Another thread was assigned to build this context. Then, it doesn't
-                //      matter if this other thread has already finished the process, the
-                //      current thread will have to wait until the guard is released.
-                let guard = self.context_vec[self.stack[i - 1]].1.read().unwrap();
-                guard
-                    .as_ref()
-                    .unwrap()
-                    .cumulative_substitution
-                    .clone()
-                    .unwrap()
-            } else {
-                Substitution::empty()
-            };
+            let mut substitution = self
+                .cumulative_substitutions
+                .last()
+                .cloned()
+                .unwrap_or_else(Substitution::empty);
 
             for a in &current_context.args {
                 match a {
@@ -214,11 +196,8 @@ impl ContextStack {
                 }
             }
 
-            // Drop the read guard, and acquire a write guard
             drop(context_guard);
-            let mut context_guard = self.context_vec[self.stack[i]].1.write().unwrap();
-            context_guard.as_mut().unwrap().cumulative_substitution = Some(substitution);
-            self.num_cumulative_calculated = i + 1;
+            self.cumulative_substitutions.push(substitution);
         }
     }
 
@@ -227,17 +206,8 @@ impl ContextStack {
             term.clone()
         } else {
             let index = self.len() - 2;
-            self.catch_up_cumulative(pool, index);
-            self.context_vec[self.stack[index]]
-                .1
-                .write()
-                .unwrap()
-                .as_mut()
-                .unwrap()
-                .cumulative_substitution
-                .as_mut()
-                .unwrap()
-                .apply(pool, term)
+            self.catch_up_cumulative(pool);
+            self.cumulative_substitutions[index].apply(pool, term)
         }
     }
 
@@ -246,17 +216,8 @@ impl ContextStack {
             term.clone()
         } else {
             let index = self.len() - 1;
-            self.catch_up_cumulative(pool, index);
-            self.context_vec[self.stack[index]]
-                .1
-                .write()
-                .unwrap()
-                .as_mut()
-                .unwrap()
-                .cumulative_substitution
-                .as_mut()
-                .unwrap()
-                .apply(pool, term)
+            self.catch_up_cumulative(pool);
+            self.cumulative_substitutions[index].apply(pool, term)
         }
     }
 }
-- 
2.43.0


From efe1d108eb4b8d05440a4d3fb3fb70f19adb9540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:25 +0000
Subject: [PATCH 22/94] fix: agree with the sequential checker on subproofs in
 the parallel checker

---
 carcara/src/checker/parallel/mod.rs       | 9 ++++++++-
 carcara/src/checker/parallel/scheduler.rs | 6 +++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/carcara/src/checker/parallel/mod.rs b/carcara/src/checker/parallel/mod.rs
index 1a8325d..0faec39 100644
--- a/carcara/src/checker/parallel/mod.rs
+++ b/carcara/src/checker/parallel/mod.rs
@@ -290,7 +290,14 @@ impl<'c> ParallelProofChecker<'c> {
                             }
                         })?;
 
-                    if step.clause.is_empty() && self.context.is_empty() {
+                    // The context of a subproof is only popped lazily, but the conclusion of the
+                    // step that ends a subproof is already outside of it
+                    let depth = if iter.is_end_step() {
+                        self.context.len().saturating_sub(1)
+                    } else {
+                        self.context.len()
+                    };
+                    if step.clause.is_empty() && depth == 0 {
                         self.reached_empty_clause = true;
                     }
                 }
diff --git a/carcara/src/checker/parallel/scheduler.rs b/carcara/src/checker/parallel/scheduler.rs
index 16a0cd5..1800262 100644
--- a/carcara/src/checker/parallel/scheduler.rs
+++ b/carcara/src/checker/parallel/scheduler.rs
@@ -121,7 +121,11 @@ impl Scheduler {
                 top.id == top.cmds.len()
             } {
                 for schedule_id in &stack.last().unwrap().used_by {
-                    let last = loads[*schedule_id].last().unwrap();
+                    // If all that was inserted in this schedule were useless contexts, which were
+                    // then removed, there is nothing to close
+                    let Some(last) = loads[*schedule_id].last() else {
+                        continue;
+                    };
                     // If it's an useless context insertion
                     if last.0 < stack.len()
                         && matches!(stack[last.0].cmds[last.1], ProofCommand::Subproof(_))
-- 
2.43.0


From 112a27d96a18c1abb9003e1326f4cd7b131bc257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:25 +0000
Subject: [PATCH 23/94] fix: only discharge assumptions of the subproof that
 ends

---
 carcara/src/checker/error.rs  | 3 +++
 carcara/src/checker/shared.rs | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/carcara/src/checker/error.rs b/carcara/src/checker/error.rs
index 5493a0f..5852c44 100644
--- a/carcara/src/checker/error.rs
+++ b/carcara/src/checker/error.rs
@@ -384,6 +384,9 @@ pub enum SubproofError {
     #[error("local assumption '{0}' was not discharged")]
     LocalAssumeNotDischarged(String),
 
+    #[error("discharged command is not in the subproof that ends at this step")]
+    DischargeNotLocal,
+
     #[error("only the `subproof` rule may discharge local assumptions")]
     DischargeInWrongRule,
 
diff --git a/carcara/src/checker/shared.rs b/carcara/src/checker/shared.rs
index 0ecc82e..3172dec 100644
--- a/carcara/src/checker/shared.rs
+++ b/carcara/src/checker/shared.rs
@@ -197,6 +197,10 @@ pub fn check_discharge_shared(
 ) -> RuleResult {
     use crate::checker::error::{CheckerError, SubproofError};
 
+    if discharge.iter().any(|&(d, _)| d != depth) {
+        return Err(CheckerError::Subproof(SubproofError::DischargeNotLocal));
+    }
+
     let discharge: IndexSet<_> = discharge.iter().collect();
     if let Some((_, not_discharged)) = subproof
         .iter()
-- 
2.43.0


From 5110b41df6c3d16adddba859064d8997a8d1025c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:25 +0000
Subject: [PATCH 24/94] fix: do not treat a top-level command with an empty
 name as the end of a subproof

---
 carcara/src/parser/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index 6c01a0a..e07c865 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -927,9 +927,10 @@ impl<'a, R: BufRead> Parser<'a, R> {
                 ));
             }
 
+            let is_in_subproof = stack.len() > 1;
             let (top_subproof, top_end_step, _) = stack.last_mut().unwrap();
             top_subproof.commands.push(command);
-            if top_end_step == id.as_ref() {
+            if is_in_subproof && top_end_step == id.as_ref() {
                 // If this is the last step in a subproof, we need to pop all the subproof data off
                 // of the stacks and build the subproof command with it
                 self.state.symbol_table.pop_scope();
-- 
2.43.0


From 7249f6ad2e7cac15dbb626f1922e9b534add6536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:48 +0000
Subject: [PATCH 25/94] fix: evaluate constants with the semantics of SMT-LIB

---
 carcara/src/ast/evaluate.rs | 156 ++++++++++++++++++++++++------------
 1 file changed, 104 insertions(+), 52 deletions(-)

diff --git a/carcara/src/ast/evaluate.rs b/carcara/src/ast/evaluate.rs
index 8dc3c25..b82df5f 100644
--- a/carcara/src/ast/evaluate.rs
+++ b/carcara/src/ast/evaluate.rs
@@ -1,6 +1,9 @@
 use super::{Constant, Operator, ParamOperator, Rc, Term, TermPool};
-use rug::{Integer, Rational};
-use std::collections::{HashMap, HashSet};
+use rug::{
+    ops::{DivRounding, RemRounding},
+    Integer, Rational,
+};
+use std::collections::HashMap;
 
 /// A representation of the value of an SMT-LIB/Alethe term. This is constructed by evaluating a
 /// term (see [`Rc::<Term>::evaluate`]).
@@ -75,15 +78,23 @@ impl Value {
     /// Tries to extract a bitvector from the value, interpreting the bits as a signed integer.
     pub fn as_signed_bitvec(&self) -> Option<(Integer, usize)> {
         let (val, w) = self.as_bitvec()?;
-        let val = if val.get_bit((w - 1) as u32) {
-            let m = Integer::from(1) << w;
-            m.clone() - val
+        let val = if w > 0 && val.get_bit((w - 1) as u32) {
+            val.clone() - (Integer::from(1) << w)
         } else {
             val.clone()
         };
         Some((val, w))
     }
 
+    /// Returns `true` if both values are equal. If one value is an integer and the other is a real,
+    /// they are equal if they represent the same number.
+    fn is_equal_to(&self, other: &Self) -> bool {
+        match (self, other) {
+            (Value::Integer(i), Value::Real(r)) | (Value::Real(r), Value::Integer(i)) => i == r,
+            (a, b) => a == b,
+        }
+    }
+
     /// Constructs a constant term that corresponds to this value.
     pub fn into_term(self) -> Term {
         match self {
@@ -156,6 +167,16 @@ impl Rc<Term> {
     }
 }
 
+/// The maximum number of bits in the result of an operation whose size is given by one of its
+/// arguments. Terms whose result would be larger than this are not evaluated.
+const MAX_BITS: usize = 1 << 24;
+
+/// Converts an integer representing a number of bits to an `usize`, if it is not negative and not
+/// too large.
+fn as_num_bits(value: &Integer) -> Option<usize> {
+    value.to_usize().filter(|&n| n <= MAX_BITS)
+}
+
 macro_rules! mixed_type_arith {
     ($op:tt, $a:expr, $b:expr, $is_real:expr) => {
         match ($a, $b) {
@@ -258,11 +279,12 @@ fn eval_op(op: Operator, args: &[Rc<Term>]) -> Option<Value> {
             args.iter()
                 .try_fold(false, |acc, arg| Some(acc != arg.as_bool()?))?,
         ),
-        Operator::Equals => Value::Bool(args.windows(2).all(|w| w[0] == w[1])),
-        Operator::Distinct => {
-            let set: HashSet<&Value> = args.iter().collect();
-            Value::Bool(set.len() == args.len())
-        }
+        Operator::Equals => Value::Bool(args.windows(2).all(|w| w[0].is_equal_to(&w[1]))),
+        Operator::Distinct => Value::Bool(
+            args.iter()
+                .enumerate()
+                .all(|(i, a)| args[..i].iter().all(|b| !a.is_equal_to(b))),
+        ),
         Operator::Ite => {
             if args[0].as_bool()? {
                 args[1].clone()
@@ -278,9 +300,29 @@ fn eval_op(op: Operator, args: &[Rc<Term>]) -> Option<Value> {
         },
         Operator::Sub => arith_op!(-, args),
         Operator::Mult => arith_op!(*, args),
-        Operator::IntDiv => arith_op!(/, args),
-        Operator::RealDiv => arith_op!(/, args, "real"),
-        Operator::Mod => Value::Integer(args[0].as_int()? % args[1].as_int()?),
+        Operator::IntDiv => {
+            let first = args[0].as_int()?;
+            let res = args[1..].iter().try_fold(first, |acc, arg| {
+                let arg = arg.as_int()?;
+                (!arg.is_zero()).then(|| acc.div_euc(arg))
+            })?;
+            Value::Integer(res)
+        }
+        Operator::RealDiv => {
+            // The value of a division by zero is not specified
+            let is_zero = |v: &Value| v.is_equal_to(&Value::Integer(Integer::new()));
+            if args[1..].iter().any(is_zero) {
+                return None;
+            }
+            arith_op!(/, args, "real")
+        }
+        Operator::Mod => {
+            let (a, b) = (args[0].as_int()?, args[1].as_int()?);
+            if b.is_zero() {
+                return None;
+            }
+            Value::Integer(a % b)
+        }
         Operator::Abs => match &args[0] {
             Value::Integer(i) => Value::Integer(i.clone().abs()),
             Value::Real(r) => Value::Real(r.clone().abs()),
@@ -291,7 +333,7 @@ fn eval_op(op: Operator, args: &[Rc<Term>]) -> Option<Value> {
             if v < 0 {
                 return Some(Value::Integer(Integer::from(0)));
             }
-            let v = v.to_usize()?;
+            let v = as_num_bits(&v)?;
             Value::Integer(Integer::from(1) << v)
         }
         Operator::Log2 => {
@@ -401,34 +443,32 @@ fn eval_op(op: Operator, args: &[Rc<Term>]) -> Option<Value> {
             if b.is_zero() {
                 return None;
             }
-            let signum: Integer = if op == Operator::BvSRem { &a } else { &b }
-                .signum_ref()
-                .into();
-            let value = a.abs() % b.abs();
-            Value::new_bitvec(value * signum, w)
+            // The result of `bvsrem` has the sign of the dividend, and the result of `bvsmod` has
+            // the sign of the divisor
+            let value = if op == Operator::BvSRem {
+                a % b
+            } else {
+                a.rem_floor(b)
+            };
+            Value::new_bitvec(value, w)
         }
+        // Shifting by more than the width of the bitvector is the same as shifting by its width
         Operator::BvShl => {
             let ((a, w), (b, _)) = (args[0].as_bitvec()?, args[1].as_bitvec()?);
-            Value::new_bitvec(a.clone() << b.to_usize()?, w)
+            let b = b.to_usize().map_or(w, |b| std::cmp::min(b, w));
+            Value::new_bitvec(a.clone() << b, w)
         }
         Operator::BvLShr => {
             let ((a, w), (b, _)) = (args[0].as_bitvec()?, args[1].as_bitvec()?);
-            Value::new_bitvec(a.clone() >> b.to_usize()?, w)
+            let b = b.to_usize().map_or(w, |b| std::cmp::min(b, w));
+            Value::new_bitvec(a.clone() >> b, w)
         }
         Operator::BvAShr => {
-            let ((a, w), (b, _)) = (args[0].as_bitvec()?, args[1].as_bitvec()?);
-            let b = b.to_usize().unwrap();
-            let mut result = a.clone() >> b;
-            if a.get_bit((w - 1) as u32) {
-                // If the leading bit is 1, we have to fill the new bits with 1s. The mask is b 1s
-                // followed by w - b 0s:
-                // |----w----|
-                // |-b-|
-                // 11111000000
-                let mask = ((Integer::from(1) << b) - 1) << (w - b);
-                result |= mask;
-            }
-            Value::new_bitvec(result, w)
+            let ((a, w), (b, _)) = (args[0].as_signed_bitvec()?, args[1].as_bitvec()?);
+            let b = b.to_usize().map_or(w, |b| std::cmp::min(b, w));
+            // The right shift of an `Integer` rounds towards negative infinity, so it preserves the
+            // sign bit
+            Value::new_bitvec(a >> b, w)
         }
         Operator::BvULt => bitvec_comparison_op!(<, args),
         Operator::BvULe => bitvec_comparison_op!(<=, args),
@@ -467,7 +507,7 @@ fn eval_op(op: Operator, args: &[Rc<Term>]) -> Option<Value> {
         Operator::BvSize => Value::Integer(args[0].as_bitvec()?.1.into()),
         Operator::BvConst => {
             let value = args[0].as_int()?;
-            let width = args[1].as_int()?.to_usize().unwrap();
+            let width = as_num_bits(&args[1].as_int()?)?;
             Value::new_bitvec(value, width)
         }
         Operator::BvBbTerm => {
@@ -502,36 +542,42 @@ fn eval_param_op(op: ParamOperator, op_args: &[Rc<Term>], args: &[Rc<Term>]) ->
 
     Some(match op {
         ParamOperator::BvExtract => {
-            let i = op_args[0].as_int()?.to_usize().unwrap();
-            let j = op_args[1].as_int()?.to_usize().unwrap();
-            let (bits, _) = args[0].as_bitvec()?;
-            let bits = bits.clone().keep_bits(i as u32) >> j;
-            Value::new_bitvec(bits, i - j + 1)
+            let i = op_args[0].as_int()?.to_usize()?;
+            let j = op_args[1].as_int()?.to_usize()?;
+            let (bits, w) = args[0].as_bitvec()?;
+            if j > i || i >= w {
+                return None;
+            }
+            Value::new_bitvec(bits.clone() >> j, i - j + 1)
         }
         ParamOperator::ZeroExtend => {
-            let i = op_args[0].as_int()?.to_usize().unwrap();
+            let i = as_num_bits(&op_args[0].as_int()?)?;
             let (value, w) = args[0].as_bitvec()?;
             Value::new_bitvec(value.clone(), w + i)
         }
         ParamOperator::SignExtend => {
-            let i = op_args[0].as_int()?.to_usize().unwrap();
+            let i = as_num_bits(&op_args[0].as_int()?)?;
             let (value, w) = args[0].as_signed_bitvec()?;
             Value::new_bitvec(value, w + i)
         }
         ParamOperator::RotateLeft => {
-            let i = op_args[0].as_int()?.to_usize().unwrap();
+            let i = as_num_bits(&op_args[0].as_int()?)?;
             let (value, w) = args[0].as_bitvec()?;
             // A left rotation by i bits is just a right rotation by w - i bits
+            let i = i.checked_rem(w).unwrap_or(0);
             Value::new_bitvec(rotate_right(value, w, w - i), w)
         }
         ParamOperator::RotateRight => {
-            let i = op_args[0].as_int()?.to_usize().unwrap();
+            let i = as_num_bits(&op_args[0].as_int()?)?;
             let (value, w) = args[0].as_bitvec()?;
             Value::new_bitvec(rotate_right(value, w, i), w)
         }
         ParamOperator::Repeat => {
-            let i = op_args[0].as_int()?.to_usize().unwrap();
+            let i = as_num_bits(&op_args[0].as_int()?)?;
             let (value, w) = args[0].as_bitvec()?;
+            if w.checked_mul(i)? > MAX_BITS {
+                return None;
+            }
             let mut result = Integer::ZERO;
             for _ in 0..i {
                 result <<= w;
@@ -540,23 +586,29 @@ fn eval_param_op(op: ParamOperator, op_args: &[Rc<Term>], args: &[Rc<Term>]) ->
             Value::new_bitvec(result, w * i)
         }
         ParamOperator::IntToBv => {
-            let w = op_args[0].as_int()?.to_usize().unwrap();
+            let w = as_num_bits(&op_args[0].as_int()?)?;
             let value = args[0].as_int()?;
             Value::new_bitvec(value, w)
         }
         ParamOperator::BvConst => {
             let value = op_args[0].as_int()?;
-            let w = op_args[1].as_int()?.to_usize().unwrap();
+            let w = as_num_bits(&op_args[1].as_int()?)?;
             Value::new_bitvec(value, w)
         }
         ParamOperator::BvBitOf => {
-            let i = op_args[0].as_int()?.to_usize().unwrap();
-            let (value, _) = args[0].as_bitvec()?;
+            let i = op_args[0].as_int()?.to_usize()?;
+            let (value, w) = args[0].as_bitvec()?;
+            if i >= w {
+                return None;
+            }
             Value::Bool(value.get_bit(i as u32))
         }
         ParamOperator::BvIntOf => {
-            let i = op_args[0].as_int()?.to_usize().unwrap();
-            let (value, _) = args[0].as_bitvec()?;
+            let i = op_args[0].as_int()?.to_usize()?;
+            let (value, w) = args[0].as_bitvec()?;
+            if i >= w {
+                return None;
+            }
             let bit = Integer::from(value.get_bit(i as u32) as usize);
             Value::Integer(bit)
         }
@@ -568,7 +620,7 @@ fn eval_param_op(op: ParamOperator, op_args: &[Rc<Term>], args: &[Rc<Term>]) ->
 
 /// Rotates a `w`-sized bitvector `r` bits to the right
 fn rotate_right(value: &Integer, w: usize, r: usize) -> Integer {
-    let r = r % w;
+    let r = r.checked_rem(w).unwrap_or(0);
     // The least significant bits, that got rotated around
     let rotated = value.clone().keep_bits(r as u32) << (w - r);
     // The most significant bits, that only got shifted right
-- 
2.43.0


From bcba4fe7ca810f927458b6f59d18e0385bc2b83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:39 +0000
Subject: [PATCH 26/94] fix: reject out-of-range operator indices and
 bit-vector widths instead of panicking

---
 carcara/src/parser/error.rs | 15 +++++++++-
 carcara/src/parser/mod.rs   | 59 +++++++++++++++++++++++++++----------
 2 files changed, 58 insertions(+), 16 deletions(-)

diff --git a/carcara/src/parser/error.rs b/carcara/src/parser/error.rs
index 1fd03ac..8181388 100644
--- a/carcara/src/parser/error.rs
+++ b/carcara/src/parser/error.rs
@@ -98,7 +98,12 @@ pub enum ParserError {
     WrongValueOfArgs(Range<Integer>, Integer),
 
     #[error("extract arguments do not follow restrictions. Expected: {2} > {0} and {0} >= {1} and {1} >= 0")]
-    InvalidExtractArgs(usize, usize, usize),
+    InvalidExtractArgs(Integer, Integer, usize),
+
+    /// The width of a bitvector is too large. This only happens if the width does not fit in 32
+    /// bits.
+    #[error("bitvector width is too large: {0}")]
+    BvWidthTooLarge(Integer),
 
     /// A step id was used in more than one step.
     #[error("step id '{0}' was repeated")]
@@ -183,6 +188,14 @@ where
     Ok(())
 }
 
+/// Converts a bitvector width to `usize`, or returns an error if it is too large to be supported.
+pub fn checked_bv_width(width: Integer) -> Result<usize, ParserError> {
+    match width.to_u32().and_then(|w| usize::try_from(w).ok()) {
+        Some(w) => Ok(w),
+        None => Err(ParserError::BvWidthTooLarge(width)),
+    }
+}
+
 /// An error in sort checking.
 #[derive(Debug, Error)]
 pub struct SortError {
diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index e07c865..e51e1f9 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -23,7 +23,7 @@ use indexmap::{IndexMap, IndexSet};
 use rug::{Integer, Rational};
 use std::{io::BufRead, str::FromStr};
 
-use self::error::assert_indexed_op_args_value;
+use self::error::{assert_indexed_op_args_value, checked_bv_width};
 
 #[derive(Debug, Clone, Copy, Default)]
 pub struct Config {
@@ -463,19 +463,27 @@ impl<'a, R: BufRead> Parser<'a, R> {
                 assert_num_args(&args, 2)?;
                 SortError::assert_eq(&Sort::Int, sorts[0])?;
                 SortError::assert_eq(&Sort::Int, sorts[1])?;
+                if let Some(width) = args[1].as_integer() {
+                    assert_indexed_op_args_value(&args[1..], 1..)?;
+                    checked_bv_width(width)?;
+                }
             }
             Operator::BvConcat => {
                 assert_num_args(&args, 2..)?;
+                let mut width = Integer::new();
                 for s in sorts {
-                    if !matches!(s, Sort::BitVec(_)) && !s.is_polymorphic() {
-                        return Err(ParserError::ExpectedBvSort(s.clone()));
+                    match s {
+                        Sort::BitVec(w) => width += *w,
+                        s if s.is_polymorphic() => (),
+                        s => return Err(ParserError::ExpectedBvSort(s.clone())),
                     }
                 }
+                checked_bv_width(width)?;
             }
             Operator::Cl => {}
             Operator::Delete => {
-                SortError::assert_eq(&Sort::Bool, sorts[0])?;
                 assert_num_args(&args, 1)?;
+                SortError::assert_eq(&Sort::Bool, sorts[0])?;
             }
             Operator::BvAdd
             | Operator::BvMul
@@ -1505,7 +1513,15 @@ impl<'a, R: BufRead> Parser<'a, R> {
         let op_symbol = self.expect_symbol()?;
 
         if let Some(value) = op_symbol.strip_prefix("bv") {
-            let parsed_value = value.parse::<Integer>().unwrap();
+            let parsed_value = match value.parse::<Integer>() {
+                Ok(v) if value.chars().all(|c| c.is_ascii_digit()) => v,
+                _ => {
+                    return Err(Error::Parser(
+                        ParserError::InvalidIndexedOp(op_symbol),
+                        self.current_position,
+                    ))
+                }
+            };
             let args = self.parse_sequence(Self::parse_term, true)?;
             let mut constant_args = Vec::new();
             for arg in args {
@@ -1571,10 +1587,10 @@ impl<'a, R: BufRead> Parser<'a, R> {
             ParamOperator::BvConst => {
                 assert_num_args(&op_args, 2)?;
                 assert_num_args(&args, 0)?;
-                let value = op_args[0].as_integer().unwrap();
-                let width = op_args[1].as_integer().unwrap().to_usize().unwrap();
                 assert_indexed_op_args_value(&[op_args[0].clone()], 0..)?;
                 assert_indexed_op_args_value(&[op_args[1].clone()], 1..)?;
+                let value = op_args[0].as_integer().unwrap();
+                let width = checked_bv_width(op_args[1].as_integer().unwrap())?;
                 return Ok(self.pool.add(Term::Const(Constant::BitVec(value, width))));
             }
             ParamOperator::BvExtract => {
@@ -1599,13 +1615,13 @@ impl<'a, R: BufRead> Parser<'a, R> {
                     }
                 }
                 assert_indexed_op_args_value(&op_args, 0..)?;
-                let i = op_args[0].as_integer().unwrap().to_usize().unwrap();
-                let j = op_args[1].as_integer().unwrap().to_usize().unwrap();
+                let i = op_args[0].as_integer().unwrap();
+                let j = op_args[1].as_integer().unwrap();
                 let Sort::BitVec(m) = sorts[0].clone() else {
                     unreachable!()
                 };
                 // j >= 0 is ensured by the parser
-                if !(m > i && i >= j) {
+                if !(i < m && i >= j) {
                     return Err(ParserError::InvalidExtractArgs(i, j, m));
                 }
             }
@@ -1618,6 +1634,8 @@ impl<'a, R: BufRead> Parser<'a, R> {
                     return Err(ParserError::ExpectedIntegerConstant(op_args[0].clone()));
                 }
                 SortError::assert_eq(&Sort::Int, sorts[0])?;
+                assert_indexed_op_args_value(&op_args, 1..)?;
+                checked_bv_width(op_args[0].as_integer().unwrap())?;
             }
             ParamOperator::BvBitOf
             | ParamOperator::BvIntOf
@@ -1633,10 +1651,21 @@ impl<'a, R: BufRead> Parser<'a, R> {
                 } else {
                     return Err(ParserError::ExpectedIntegerConstant(op_args[0].clone()));
                 }
-                if !matches!(sorts[0], Sort::BitVec(_)) {
+                let Sort::BitVec(width) = *sorts[0] else {
                     return Err(ParserError::ExpectedBvSort(sorts[0].clone()));
+                };
+                let index = op_args[0].as_integer().unwrap();
+                match op {
+                    ParamOperator::ZeroExtend | ParamOperator::SignExtend => {
+                        assert_indexed_op_args_value(&op_args, 0..)?;
+                        checked_bv_width(index + width)?;
+                    }
+                    ParamOperator::Repeat => {
+                        assert_indexed_op_args_value(&op_args, 1..)?;
+                        checked_bv_width(index * width)?;
+                    }
+                    _ => assert_indexed_op_args_value(&op_args, 0..)?,
                 }
-                assert_indexed_op_args_value(&op_args, 0..)?;
             }
             ParamOperator::RePower => {
                 assert_num_args(&op_args, 1)?;
@@ -1900,9 +1929,9 @@ impl<'a, R: BufRead> Parser<'a, R> {
                     return Err(ParserError::WrongNumberOfArgs(1.into(), args.len()));
                 }
                 if let Some(width) = args[0].as_integer() {
-                    Ok(self
-                        .pool
-                        .add(Term::Sort(Sort::BitVec(width.to_usize().unwrap()))))
+                    assert_indexed_op_args_value(&args, 1..)?;
+                    let width = checked_bv_width(width)?;
+                    Ok(self.pool.add(Term::Sort(Sort::BitVec(width))))
                 } else {
                     Err(ParserError::ExpectedIntegerConstant(args[0].clone()))
                 }
-- 
2.43.0


From 0820a755e8b1d1137e5f9d98d942e8210513dba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:39 +0000
Subject: [PATCH 27/94] fix: do not drop arguments of divisions between integer
 constants

---
 carcara/src/parser/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index e51e1f9..54fb43a 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -312,8 +312,10 @@ impl<'a, R: BufRead> Parser<'a, R> {
                     SortError::assert_all_eq(&sorts)?;
                 }
 
-                if let Some(r) = self.interpret_div_as_real_lit(&args[0], &args[1]) {
-                    return Ok(r);
+                if let [a, b] = args.as_slice() {
+                    if let Some(r) = self.interpret_div_as_real_lit(a, b) {
+                        return Ok(r);
+                    }
                 }
             }
             Operator::Mod => {
-- 
2.43.0


From 53af9b94ce12ebc882041347e7f0fa1af39d0634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:04 +0000
Subject: [PATCH 28/94] fix: reject assertions that are not Boolean terms

---
 carcara/src/parser/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index 54fb43a..f218ec6 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -797,13 +797,14 @@ impl<'a, R: BufRead> Parser<'a, R> {
                     self.state.sort_defs.insert(name, def);
                 }
                 Token::ReservedWord(Reserved::Assert) => {
-                    let term = self.parse_term()?;
+                    let term = self.parse_term_expecting_sort(&Sort::Bool)?;
                     self.expect_token(Token::CloseParen)?;
                     self.premises().insert(term);
                 }
                 Token::ReservedWord(Reserved::CheckSatAssuming) => {
                     self.expect_token(Token::OpenParen)?;
-                    let terms = self.parse_sequence(Self::parse_term, true)?;
+                    let terms =
+                        self.parse_sequence(|p| p.parse_term_expecting_sort(&Sort::Bool), true)?;
                     self.expect_token(Token::CloseParen)?;
                     self.premises().extend(terms);
                 }
-- 
2.43.0


From 522f204705f6abf1493669d036ee91a908a4a9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:48 +0000
Subject: [PATCH 29/94] fix: let bound variables shadow function definitions

---
 carcara/src/parser/mod.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index f218ec6..3870896 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -240,6 +240,18 @@ impl<'a, R: BufRead> Parser<'a, R> {
         self.is_real_only_logic && self.problem.is_some()
     }
 
+    /// Returns `true` if the given name refers to a defined function. This is not the case if the
+    /// name is currently bound to a variable (by a binder, a `let` term, an anchor, or as a function
+    /// parameter), since the variable shadows the definition.
+    fn is_defined_function(&self, name: &str) -> bool {
+        if !self.state.function_defs.contains_key(name) {
+            return false;
+        }
+        let key = HashCache::new(name.to_owned());
+        let binding = self.state.symbol_table.get_with_depth(&key);
+        !binding.is_some_and(|(depth, _)| depth > 0)
+    }
+
     /// Constructs and sort checks an operation term.
     fn make_op(&mut self, op: Operator, args: Vec<Rc<Term>>) -> Result<Rc<Term>, ParserError> {
         let sorts: Vec<_> = args.iter().map(|t| self.pool.sort(t)).collect();
@@ -1346,8 +1358,9 @@ impl<'a, R: BufRead> Parser<'a, R> {
             (Token::String(s), _) => Term::new_string(s),
             (Token::Symbol(s), pos) => {
                 // Check to see if there is a nullary function defined with this name
-                return if let Some(func) = self.state.function_defs.get(&s) {
-                    func.apply(self.pool, Vec::new())
+                return if self.is_defined_function(&s) {
+                    self.state.function_defs[&s]
+                        .apply(self.pool, Vec::new())
                         .map_err(|err| Error::Parser(err, pos))
                 } else if let Ok(op) = Operator::from_str(&s) {
                     let args = Vec::new();
@@ -1813,7 +1826,7 @@ impl<'a, R: BufRead> Parser<'a, R> {
 
                 Ok(result)
             }
-            Token::Symbol(s) if self.state.function_defs.get(s).is_some() => {
+            Token::Symbol(s) if self.is_defined_function(s) => {
                 let head_pos = self.current_position;
                 let func_name = self.expect_symbol()?;
                 let args = self.parse_sequence(Self::parse_term, true)?;
-- 
2.43.0


From 96c41c2ce0eb34f63828b4ced86e1d1563e0f88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:27 +0000
Subject: [PATCH 30/94] fix: let the parameters of a sort definition shadow
 other sorts

---
 carcara/src/parser/mod.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index 3870896..e0b56e9 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -1318,14 +1318,29 @@ impl<'a, R: BufRead> Parser<'a, R> {
         self.expect_token(Token::OpenParen)?;
         let params = self.parse_sequence(Self::expect_symbol, false)?;
 
-        // In order to correctly parse the sort definition, we push a new scope to the sort
-        // declarations table and add the sort parameters to it.
-        self.state.sort_declarations.push_scope();
-        for s in &params {
-            self.state.sort_declarations.insert(s.clone(), 0);
-        }
+        // While parsing the sort definition, each parameter stands for a new sort, that shadows any
+        // sort that was previously declared or defined with that name. Since the `|` character can't
+        // appear in symbols, the names of these new sorts can't clash with any other sort.
+        let (params, shadowed): (Vec<_>, Vec<_>) = params
+            .into_iter()
+            .map(|param| {
+                let fresh = format!("|{}|", param);
+                let sort = Sort::Atom(fresh.clone().into_boxed_str(), Box::new([]));
+                let def = SortDef {
+                    params: Vec::new(),
+                    body: self.pool.add(Term::Sort(sort)),
+                };
+                let shadowed = self.state.sort_defs.insert(param.clone(), def);
+                (fresh, (param, shadowed))
+            })
+            .unzip();
         let body = self.parse_sort(false)?;
-        self.state.sort_declarations.pop_scope();
+        for (param, shadowed) in shadowed.into_iter().rev() {
+            match shadowed {
+                Some(def) => self.state.sort_defs.insert(param, def),
+                None => self.state.sort_defs.swap_remove(&param),
+            };
+        }
 
         self.expect_token(Token::CloseParen)?;
 
-- 
2.43.0


From 04d68d3bfeef83ba091fcc52149a505ac1a71d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:53 +0000
Subject: [PATCH 31/94] fix: reduce bit-vector constants to their width

---
 carcara/src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index e0b56e9..5638c60 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -1620,8 +1620,8 @@ impl<'a, R: BufRead> Parser<'a, R> {
                 assert_num_args(&args, 0)?;
                 assert_indexed_op_args_value(&[op_args[0].clone()], 0..)?;
                 assert_indexed_op_args_value(&[op_args[1].clone()], 1..)?;
-                let value = op_args[0].as_integer().unwrap();
                 let width = checked_bv_width(op_args[1].as_integer().unwrap())?;
+                let value = op_args[0].as_integer().unwrap().keep_bits(width as u32);
                 return Ok(self.pool.add(Term::Const(Constant::BitVec(value, width))));
             }
             ParamOperator::BvExtract => {
-- 
2.43.0


From e1e3a86054f961003ee8862c5c53662465d84b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:53 +0000
Subject: [PATCH 32/94] fix: do not panic on bit-vector terms with an invalid
 constant width

---
 carcara/src/ast/pool/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carcara/src/ast/pool/mod.rs b/carcara/src/ast/pool/mod.rs
index 55d12af..1c1b58b 100644
--- a/carcara/src/ast/pool/mod.rs
+++ b/carcara/src/ast/pool/mod.rs
@@ -167,7 +167,7 @@ impl PrimitivePool {
                 Operator::BvComp => Sort::BitVec(1),
                 Operator::BvBbTerm | Operator::BvPBbTerm => Sort::BitVec(args.len()),
                 Operator::BvConst => match &*args[1] {
-                    Term::Const(Constant::Integer(bvsize)) => {
+                    Term::Const(Constant::Integer(bvsize)) if bvsize.to_usize().is_some() => {
                         Sort::BitVec(bvsize.to_usize().unwrap())
                     }
                     _ => Sort::ParamSort(
-- 
2.43.0


From b32692a9fd040d1061106f738edfb6dcf0afd4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:48 +0000
Subject: [PATCH 33/94] fix: report an error instead of panicking when
 bit-blasting a term of unknown width

---
 carcara/src/checker/rules/bitvectors.rs  | 101 ++++++-----------------
 carcara/src/checker/rules/pb_blasting.rs |   2 +-
 2 files changed, 24 insertions(+), 79 deletions(-)

diff --git a/carcara/src/checker/rules/bitvectors.rs b/carcara/src/checker/rules/bitvectors.rs
index 1f36650..b1a67ba 100644
--- a/carcara/src/checker/rules/bitvectors.rs
+++ b/carcara/src/checker/rules/bitvectors.rs
@@ -1,7 +1,7 @@
 use super::{assert_eq, CheckerError, RuleArgs, RuleResult};
 use crate::{
-    ast::{pool::TermPool, Operator, ParamOperator, Rc, Sort, Term},
-    checker::rules::assert_clause_len,
+    ast::{pool::TermPool, Operator, ParamOperator, Rc, Term},
+    checker::rules::{assert_clause_len, pb_blasting::get_bit_width},
 };
 use rug::Integer;
 
@@ -167,12 +167,7 @@ pub fn var(RuleArgs { conclusion, pool, .. }: RuleArgs) -> RuleResult {
     assert_clause_len(conclusion, 1)?;
     let (x, res) = match_term_err!((= x res) = &conclusion[0])?;
 
-    let Sort::BitVec(size) = pool.sort(x).as_sort().cloned().unwrap() else {
-        return Err(CheckerError::Explanation(format!(
-            "Could not get BV sort out of (expected-to-be variable) term {}",
-            x
-        )));
-    };
+    let size = get_bit_width(x, pool)?;
     let x = build_term_vec(x, size, pool);
 
     assert_eq(&pool.add(Term::Op(Operator::BvBbTerm, x)), res)
@@ -182,14 +177,10 @@ pub fn and(RuleArgs { conclusion, pool, .. }: RuleArgs) -> RuleResult {
     assert_clause_len(conclusion, 1)?;
     let (bvand_args, res) = match_term_err!((= (bvand ...) res) = &conclusion[0])?;
 
-    let Sort::BitVec(size) = pool.sort(&bvand_args[0]).as_sort().cloned().unwrap() else {
-        unreachable!();
-    };
+    let size = get_bit_width(&bvand_args[0], pool)?;
     // check all arguments have the same size
     for arg in bvand_args {
-        let Sort::BitVec(size1) = pool.sort(arg).as_sort().cloned().unwrap() else {
-            unreachable!();
-        };
+        let size1 = get_bit_width(arg, pool)?;
         if size1 != size {
             return Err(CheckerError::Explanation(format!(
                 "bvand arguments {} and {} have different sizes",
@@ -225,15 +216,11 @@ pub fn or(RuleArgs { conclusion, pool, .. }: RuleArgs) -> RuleResult {
     assert_clause_len(conclusion, 1)?;
     let (bvor_args, res) = match_term_err!((= (bvor ...) res) = &conclusion[0])?;
 
-    let Sort::BitVec(size) = pool.sort(&bvor_args[0]).as_sort().cloned().unwrap() else {
-        unreachable!();
-    };
+    let size = get_bit_width(&bvor_args[0], pool)?;
 
     // check all arguments have the same size
     for arg in bvor_args {
-        let Sort::BitVec(size1) = pool.sort(arg).as_sort().cloned().unwrap() else {
-            unreachable!();
-        };
+        let size1 = get_bit_width(arg, pool)?;
         if size1 != size {
             return Err(CheckerError::Explanation(format!(
                 "bvor arguments {} and {} have different sizes",
@@ -269,15 +256,11 @@ pub fn xor(RuleArgs { conclusion, pool, .. }: RuleArgs) -> RuleResult {
     assert_clause_len(conclusion, 1)?;
     let (bvxor_args, res) = match_term_err!((= (bvxor ...) res) = &conclusion[0])?;
 
-    let Sort::BitVec(size) = pool.sort(&bvxor_args[0]).as_sort().cloned().unwrap() else {
-        unreachable!();
-    };
+    let size = get_bit_width(&bvxor_args[0], pool)?;
 
     // check all arguments have the same size
     for arg in bvxor_args {
-        let Sort::BitVec(size1) = pool.sort(arg).as_sort().cloned().unwrap() else {
-            unreachable!();
-        };
+        let size1 = get_bit_width(arg, pool)?;
         if size1 != size {
             return Err(CheckerError::Explanation(format!(
                 "bvxor arguments {} and {} have different sizes",
@@ -313,9 +296,7 @@ pub fn xnor(RuleArgs { conclusion, pool, .. }: RuleArgs) -> RuleResult {
     assert_clause_len(conclusion, 1)?;
     let ((x, y), res) = match_term_err!((= (bvxnor x y) res) = &conclusion[0])?;
 
-    let Sort::BitVec(size) = pool.sort(x).as_sort().cloned().unwrap() else {
-        unreachable!();
-    };
+    let size = get_bit_width(x, pool)?;
 
     let x = build_term_vec(x, size, pool);
     let y = build_term_vec(y, size, pool);
@@ -338,9 +319,7 @@ pub fn not(RuleArgs { conclusion, pool, .. }: RuleArgs) -> RuleResult {
     assert_clause_len(conclusion, 1)?;
     let (x, res) = match_term_err!((= (bvnot x) res) = &conclusion[0])?;
 
-    let Sort::BitVec(size) = pool.sort(x).as_sort().cloned().unwrap() else {
-        unreachable!();
-    };
+    let size = get_bit_width(x, pool)?;
 
     let x = build_term_vec(x, size, pool);
 
@@ -362,9 +341,7 @@ pub fn ult(RuleArgs { conclusion, pool, .. }: RuleArgs) -> RuleResult {
     assert_clause_len(conclusion, 1)?;
     let ((x, y), res) = match_term_err!((= (bvult x y) res) = &conclusion[0])?;
 
-    let Sort::BitVec(size) = pool.sort(x).as_sort().cloned().unwrap() else {
-        unreachable!();
-    };
+    let size = get_bit_width(x, pool)?;
 
     let x = build_term_vec(x, size, pool);
     let y = build_term_vec(y, size, pool);
@@ -387,9 +364,7 @@ pub fn slt(RuleArgs { conclusion, pool, .. }: RuleArgs) -> RuleResult {
     assert_clause_len(conclusion, 1)?;
     let ((x, y), res) = match_term_err!((= (bvslt x y) res) = &conclusion[0])?;
 
-    let Sort::BitVec(size) = pool.sort(x).as_sort().cloned().unwrap() else {
-        unreachable!();
-    };
+    let size = get_bit_width(x, pool)?;
 
     let x = build_term_vec(x, size, pool);
     let y = build_term_vec(y, size, pool);
@@ -431,15 +406,11 @@ pub fn add(RuleArgs { conclusion, pool, .. }: RuleArgs) -> RuleResult {
     assert_clause_len(conclusion, 1)?;
     let (add_args, res) = match_term_err!((= (bvadd ...) res) = &conclusion[0])?;
 
-    let Sort::BitVec(size) = pool.sort(&add_args[0]).as_sort().cloned().unwrap() else {
-        unreachable!();
-    };
+    let size = get_bit_width(&add_args[0], pool)?;
 
     // check all arguments have the same size
     for arg in add_args {
-        let Sort::BitVec(size1) = pool.sort(arg).as_sort().cloned().unwrap() else {
-            unreachable!();
-        };
+        let size1 = get_bit_width(arg, pool)?;
         if size1 != size {
             return Err(CheckerError::Explanation(format!(
                 "Addition arguments {} and {} have different sizes",
@@ -461,15 +432,11 @@ pub fn mult(RuleArgs { conclusion, pool, .. }: RuleArgs) -> RuleResult {
     assert_clause_len(conclusion, 1)?;
     let (mult_args, res) = match_term_err!((= (bvmul ...) res) = &conclusion[0])?;
 
-    let Sort::BitVec(size) = pool.sort(&mult_args[0]).as_sort().cloned().unwrap() else {
-        unreachable!();
-    };
+    let size = get_bit_width(&mult_args[0], pool)?;
 
     // check all arguments have the same size
     for arg in mult_args {
-        let Sort::BitVec(size1) = pool.sort(arg).as_sort().cloned().unwrap() else {
-            unreachable!();
-        };
+        let size1 = get_bit_width(arg, pool)?;
         if size1 != size {
             return Err(CheckerError::Explanation(format!(
                 "Multiplication arguments {} and {} have different sizes",
@@ -491,9 +458,7 @@ pub fn neg(RuleArgs { conclusion, pool, .. }: RuleArgs) -> RuleResult {
     assert_clause_len(conclusion, 1)?;
     let (x, res) = match_term_err!((= (bvneg x) res) = &conclusion[0])?;
 
-    let Sort::BitVec(size) = pool.sort(x).as_sort().cloned().unwrap() else {
-        unreachable!();
-    };
+    let size = get_bit_width(x, pool)?;
 
     let x = build_term_vec(x, size, pool);
 
@@ -525,9 +490,7 @@ pub fn equality(RuleArgs { conclusion, pool, .. }: RuleArgs) -> RuleResult {
     assert_clause_len(conclusion, 1)?;
     let ((x, y), res) = match_term_err!((= (= x y) res) = &conclusion[0])?;
 
-    let Sort::BitVec(size) = pool.sort(x).as_sort().cloned().unwrap() else {
-        unreachable!();
-    };
+    let size = get_bit_width(x, pool)?;
     let x = build_term_vec(x, size, pool);
     let y = build_term_vec(y, size, pool);
 
@@ -552,9 +515,7 @@ pub fn comp(RuleArgs { conclusion, pool, .. }: RuleArgs) -> RuleResult {
     assert_clause_len(conclusion, 1)?;
     let ((x, y), res) = match_term_err!((= (bvcomp x y) res) = &conclusion[0])?;
 
-    let Sort::BitVec(size) = pool.sort(x).as_sort().cloned().unwrap() else {
-        unreachable!();
-    };
+    let size = get_bit_width(x, pool)?;
     let x = build_term_vec(x, size, pool);
     let y = build_term_vec(y, size, pool);
 
@@ -611,26 +572,12 @@ pub fn concat(RuleArgs { conclusion, pool, .. }: RuleArgs) -> RuleResult {
     assert_clause_len(conclusion, 1)?;
     let (concat_args, res_args) = match_term_err!((= (concat ...) (bbterm ...)) = &conclusion[0])?;
 
-    let Sort::BitVec(mut size) = pool
-        .sort(&concat_args[concat_args.len() - 1])
-        .as_sort()
-        .cloned()
-        .unwrap()
-    else {
-        unreachable!();
-    };
+    let mut size = get_bit_width(&concat_args[concat_args.len() - 1], pool)?;
     let mut expected_res = build_term_vec(&concat_args[concat_args.len() - 1], size, pool);
 
     let mut i = 1;
     while i < concat_args.len() {
-        let Sort::BitVec(size_i) = pool
-            .sort(&concat_args[concat_args.len() - 1 - i])
-            .as_sort()
-            .cloned()
-            .unwrap()
-        else {
-            unreachable!();
-        };
+        let size_i = get_bit_width(&concat_args[concat_args.len() - 1 - i], pool)?;
         expected_res.extend(build_term_vec(
             &concat_args[concat_args.len() - 1 - i],
             size_i,
@@ -663,9 +610,7 @@ pub fn sign_extend(RuleArgs { conclusion, pool, .. }: RuleArgs) -> RuleResult {
         return assert_eq(x, res);
     }
 
-    let Sort::BitVec(size) = pool.sort(x).as_sort().cloned().unwrap() else {
-        unreachable!();
-    };
+    let size = get_bit_width(x, pool)?;
     let mut x = build_term_vec(x, size, pool);
 
     for _j in 0..i {
diff --git a/carcara/src/checker/rules/pb_blasting.rs b/carcara/src/checker/rules/pb_blasting.rs
index fecddb2..8765c90 100644
--- a/carcara/src/checker/rules/pb_blasting.rs
+++ b/carcara/src/checker/rules/pb_blasting.rs
@@ -6,7 +6,7 @@ use crate::{
 use rug::Integer;
 
 /// Helper to get the bit width of a bitvector looking into the pool
-fn get_bit_width(x: &Rc<Term>, pool: &mut dyn TermPool) -> Result<usize, CheckerError> {
+pub(super) fn get_bit_width(x: &Rc<Term>, pool: &mut dyn TermPool) -> Result<usize, CheckerError> {
     // Get bit width of `x`
     let Sort::BitVec(n) = pool.sort(x).as_sort().cloned().unwrap() else {
         return Err(CheckerError::Explanation(
-- 
2.43.0


From 5a1a6ad67dd223e7730f41491d1424c49a3db94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:58 +0000
Subject: [PATCH 34/94] fix: require pseudo-Boolean sums to range over all the
 bits of their bit-vectors

---
 carcara/src/checker/rules/pb_blasting.rs | 60 ++++++++++++------------
 1 file changed, 29 insertions(+), 31 deletions(-)

diff --git a/carcara/src/checker/rules/pb_blasting.rs b/carcara/src/checker/rules/pb_blasting.rs
index 8765c90..81b34eb 100644
--- a/carcara/src/checker/rules/pb_blasting.rs
+++ b/carcara/src/checker/rules/pb_blasting.rs
@@ -17,21 +17,14 @@ pub(super) fn get_bit_width(x: &Rc<Term>, pool: &mut dyn TermPool) -> Result<usi
 }
 
 // Helper to check that a summation has the expected shape
-fn check_pbblast_sum(
-    pool: &mut dyn TermPool,
-    bitvector: &Rc<Term>,
-    sum: &[Rc<Term>],
-) -> RuleResult {
-    // Obtain the bitvector width from the pool.
-    let width = get_bit_width(bitvector, pool)?;
-
-    // The summation must have at most as many summands as the bitvector has bits.
+fn check_pbblast_sum(bitvector: &Rc<Term>, sum: &[Rc<Term>], num_bits: usize) -> RuleResult {
+    // The summation must have one summand for each of the summed bits.
     rassert!(
-        width >= sum.len(),
+        num_bits == sum.len(),
         CheckerError::Explanation(format!(
             "Mismatched number of summands {} and bits {}",
-            width,
-            sum.len()
+            sum.len(),
+            num_bits
         ))
     );
 
@@ -81,14 +74,18 @@ fn check_pbblast_sum(
 
 // Helper to check that a summation has the expected shape
 // when the bitvector is a @pbbterm application "short-circuiting"
-fn check_pbblast_sum_short_circuit(pbbterm: &[Rc<Term>], sum: &[Rc<Term>]) -> RuleResult {
-    // The summation must have at most as many summands as the bitvector has bits.
+fn check_pbblast_sum_short_circuit(
+    pbbterm: &[Rc<Term>],
+    sum: &[Rc<Term>],
+    num_bits: usize,
+) -> RuleResult {
+    // The summation must have one summand for each of the summed bits.
     rassert!(
-        pbbterm.len() >= sum.len(),
+        num_bits == sum.len(),
         CheckerError::Explanation(format!(
             "Mismatched number of summands {} and bits {}",
-            pbbterm.len(),
-            sum.len()
+            sum.len(),
+            num_bits
         ))
     );
 
@@ -121,21 +118,22 @@ fn check_pbblast_sum_short_circuit(pbbterm: &[Rc<Term>], sum: &[Rc<Term>]) -> Ru
 /// A helper that checks the two summations that occur in a pseudo–Boolean constraint.
 /// Here, `left_sum` and `right_sum` come from two bitvectors `left_bv` and `right_bv` respectively.
 /// (The overall constraint is something like `(>= (- (+ left_sum) (+ right_sum)) constant)`.)
+/// Each summation must range over exactly the `num_bits` lowest bits of its bitvector.
 fn check_pbblast_constraint(
-    pool: &mut dyn TermPool,
     left_bv: &Rc<Term>,
     right_bv: &Rc<Term>,
     left_sum: &[Rc<Term>],
     right_sum: &[Rc<Term>],
+    num_bits: usize,
 ) -> RuleResult {
     if let Some(pbb_l) = match_term!((pbbterm ...) = left_bv) {
         // Case when x is application of `@pbbterm` so we must short-circuit the indexing
         let pbb_r = match_term_err!((pbbterm ...) = right_bv)?;
-        check_pbblast_sum_short_circuit(pbb_l, left_sum)?;
-        check_pbblast_sum_short_circuit(pbb_r, right_sum)
+        check_pbblast_sum_short_circuit(pbb_l, left_sum, num_bits)?;
+        check_pbblast_sum_short_circuit(pbb_r, right_sum, num_bits)
     } else {
-        check_pbblast_sum(pool, left_bv, left_sum)?;
-        check_pbblast_sum(pool, right_bv, right_sum)
+        check_pbblast_sum(left_bv, left_sum, num_bits)?;
+        check_pbblast_sum(right_bv, right_sum, num_bits)
     }
 }
 
@@ -152,7 +150,7 @@ pub fn pbblast_bveq(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
 
     // Check that the summations have the correct structure.
     // (For equality the order is: sum_x for x and sum_y for y.)
-    check_pbblast_constraint(pool, x, y, sum_x, sum_y)
+    check_pbblast_constraint(x, y, sum_x, sum_y, get_bit_width(x, pool)?)
 }
 
 /// Implements the unsigned-less-than rule.
@@ -167,7 +165,7 @@ pub fn pbblast_bvult(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     let sum_y = split_summation(sum_y);
 
     // For bvult the summations occur in reverse: the "left" sum comes from y and the "right" from x.
-    check_pbblast_constraint(pool, y, x, sum_y, sum_x)
+    check_pbblast_constraint(y, x, sum_y, sum_x, get_bit_width(x, pool)?)
 }
 
 /// Implements the unsigned-greater-than rule.
@@ -183,7 +181,7 @@ pub fn pbblast_bvugt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     let sum_y = split_summation(sum_y);
 
     // For bvugt the summations appear in the same order as in equality.
-    check_pbblast_constraint(pool, x, y, sum_x, sum_y)
+    check_pbblast_constraint(x, y, sum_x, sum_y, get_bit_width(x, pool)?)
 }
 
 /// Implements the unsigned-greater-or-equal rule.
@@ -198,7 +196,7 @@ pub fn pbblast_bvuge(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     let sum_x = split_summation(sum_x);
     let sum_y = split_summation(sum_y);
 
-    check_pbblast_constraint(pool, x, y, sum_x, sum_y)
+    check_pbblast_constraint(x, y, sum_x, sum_y, get_bit_width(x, pool)?)
 }
 
 /// Implements the unsigned-less-or-equal rule.
@@ -213,7 +211,7 @@ pub fn pbblast_bvule(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     let sum_x = split_summation(sum_x);
     let sum_y = split_summation(sum_y);
 
-    check_pbblast_constraint(pool, x, y, sum_x, sum_y)
+    check_pbblast_constraint(x, y, sum_x, sum_y, get_bit_width(x, pool)?)
 }
 
 /// Helper that checks the the `sign` term has the format -(2<sup>n-1</sup>) x<sub>n-1</sub>
@@ -278,7 +276,7 @@ pub fn pbblast_bvslt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     check_pbblast_signed_relation(n, sign_x, x)?;
 
     // For bvult the summations occur in reverse: the "left" sum comes from y and the "right" from x.
-    check_pbblast_constraint(pool, y, x, sum_y, sum_x)
+    check_pbblast_constraint(y, x, sum_y, sum_x, n - 1)
 }
 
 /// Implements the signed-greater-than rule.
@@ -299,7 +297,7 @@ pub fn pbblast_bvsgt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     check_pbblast_signed_relation(n, sign_x, x)?;
     check_pbblast_signed_relation(n, sign_y, y)?;
 
-    check_pbblast_constraint(pool, x, y, sum_x, sum_y)
+    check_pbblast_constraint(x, y, sum_x, sum_y, n - 1)
 }
 
 /// Implements the signed-greater-equal rule.
@@ -320,7 +318,7 @@ pub fn pbblast_bvsge(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     check_pbblast_signed_relation(n, sign_x, x)?;
     check_pbblast_signed_relation(n, sign_y, y)?;
 
-    check_pbblast_constraint(pool, x, y, sum_x, sum_y)
+    check_pbblast_constraint(x, y, sum_x, sum_y, n - 1)
 }
 
 /// Implements the signed-less-equal rule.
@@ -342,7 +340,7 @@ pub fn pbblast_bvsle(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
     check_pbblast_signed_relation(n, sign_x, x)?;
 
     // For bvsle the summations occur in reverse: the "left" sum comes from y and the "right" from x.
-    check_pbblast_constraint(pool, y, x, sum_y, sum_x)
+    check_pbblast_constraint(y, x, sum_y, sum_x, n - 1)
 }
 
 /// Implements the blasting of a bitvector variable
-- 
2.43.0


From 81f18b3bfc4d5760a2b8a4549766412a1abd41c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:50 +0000
Subject: [PATCH 35/94] fix: do not panic or capture variables in
 pseudo-Boolean blasting rules

---
 carcara/src/checker/rules/pb_blasting.rs | 80 +++++++++++++++++-------
 1 file changed, 58 insertions(+), 22 deletions(-)

diff --git a/carcara/src/checker/rules/pb_blasting.rs b/carcara/src/checker/rules/pb_blasting.rs
index 81b34eb..3ee2832 100644
--- a/carcara/src/checker/rules/pb_blasting.rs
+++ b/carcara/src/checker/rules/pb_blasting.rs
@@ -1,4 +1,4 @@
-use super::{assert_eq, assert_num_args, RuleArgs, RuleResult};
+use super::{assert_clause_len, assert_eq, assert_num_args, RuleArgs, RuleResult};
 use crate::{
     ast::{Binder, Rc, Sort, Term, TermPool},
     checker::{error::CheckerError, rules::cutting_planes::split_summation},
@@ -141,6 +141,7 @@ fn check_pbblast_constraint(
 /// The expected shape is:
 ///    `(= (= x y) (= (- (+ sum_x) (+ sum_y)) 0))`
 pub fn pbblast_bveq(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), ((sum_x, sum_y), _)) =
         match_term_err!((= (= x y) (= (- sum_x sum_y) 0)) = &conclusion[0])?;
 
@@ -157,6 +158,7 @@ pub fn pbblast_bveq(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
 /// The expected shape is:
 ///    `(= (bvult x y) (>= (- (+ sum_y) (+ sum_x)) 1))`
 pub fn pbblast_bvult(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), ((sum_y, sum_x), _)) =
         match_term_err!((= (bvult x y) (>= (- sum_y sum_x) 1)) = &conclusion[0])?;
 
@@ -173,6 +175,7 @@ pub fn pbblast_bvult(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 /// The expected shape is:
 ///    `(= (bvugt x y) (>= (- (+ sum_x) (+ sum_y)) 1))`
 pub fn pbblast_bvugt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), ((sum_x, sum_y), _)) =
         match_term_err!((= (bvugt x y) (>= (- sum_x sum_y) 1)) = &conclusion[0])?;
 
@@ -189,6 +192,7 @@ pub fn pbblast_bvugt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 /// The expected shape is:
 ///    `(= (bvuge x y) (>= (- (+ sum_x) (+ sum_y)) 0))`
 pub fn pbblast_bvuge(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), ((sum_x, sum_y), ())) =
         match_term_err!((= (bvuge x y) (>= (- sum_x sum_y) 0)) = &conclusion[0])?;
 
@@ -204,6 +208,7 @@ pub fn pbblast_bvuge(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 /// The expected shape is:
 ///    `(= (bvule x y) (>= (- (+ sum_y) (+ sum_x)) 0))`
 pub fn pbblast_bvule(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), ((sum_y, sum_x), ())) =
         match_term_err!((= (bvule x y) (>= (- sum_y sum_x) 0)) = &conclusion[0])?;
 
@@ -263,6 +268,7 @@ fn check_pbblast_signed_relation(n: usize, sign: &Rc<Term>, bitvector: &Rc<Term>
 /// The expected shape is:
 ///    `(= (bvslt x y) (>= (+ (- y_sum (* 2^(n-1) y_n-1))) (- (* 2^(n-1) x_n-1) x_sum)) 1))`
 pub fn pbblast_bvslt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), (((sum_y, sign_y), (sign_x, sum_x)), _)) = match_term_err!((= (bvslt x y) (>= (+ (- sum_y sign_y) (- sign_x sum_x)) 1)) = &conclusion[0])?;
 
     // Get the summation lists
@@ -284,6 +290,7 @@ pub fn pbblast_bvslt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 /// The expected shape is:
 ///    `(= (bvsgt x y) (>= (+ (- x_sum (* 2^(n-1) x_n-1))) (- (* 2^(n-1) y_n-1) y_sum)) 1))`
 pub fn pbblast_bvsgt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), (((sum_x, sign_x), (sign_y, sum_y)), _)) = match_term_err!((= (bvsgt x y) (>= (+ (- sum_x sign_x) (- sign_y sum_y)) 1)) = &conclusion[0])?;
 
     // Get the summation lists
@@ -305,6 +312,7 @@ pub fn pbblast_bvsgt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 /// The expected shape is:
 ///    `(= (bvsge x y) (>= (+ (- x_sum (* 2^(n-1) x_n-1))) (- (* 2^(n-1) y_n-1) y_sum)) 0))`
 pub fn pbblast_bvsge(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), (((sum_x, sign_x), (sign_y, sum_y)), _)) = match_term_err!((= (bvsge x y) (>= (+ (- sum_x sign_x) (- sign_y sum_y)) 0)) = &conclusion[0])?;
 
     // Get the summation lists
@@ -326,6 +334,7 @@ pub fn pbblast_bvsge(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 /// The expected shape is:
 ///    `(= (bvsle x y) (>= (+ (- y_sum (* 2^(n-1) y_n-1))) (- (* 2^(n-1) x_n-1) x_sum)) 0))`
 pub fn pbblast_bvsle(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), (((sum_y, sign_y), (sign_x, sum_x)), _)) = match_term_err!((= (bvsle x y) (>= (+ (- sum_y sign_y) (- sign_x sum_x)) 0)) = &conclusion[0])?;
 
     // Get the summation lists
@@ -345,6 +354,7 @@ pub fn pbblast_bvsle(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 
 /// Implements the blasting of a bitvector variable
 pub fn pbblast_pbbvar(RuleArgs { conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let (x, pbs) = match_term_err!((= x (pbbterm ...)) = &conclusion[0])?;
 
     for (i, pb) in pbs.iter().enumerate() {
@@ -369,6 +379,7 @@ pub fn pbblast_pbbvar(RuleArgs { conclusion, .. }: RuleArgs) -> RuleResult {
 
 /// Implements the blasting of a constant
 pub fn pbblast_pbbconst(RuleArgs { conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let (bv, pbs) = match_term_err!((= bv (pbbterm ...)) = &conclusion[0])
         .map_err(|_| CheckerError::Explanation("Malformed @pbbterm equality".into()))?;
 
@@ -393,20 +404,19 @@ pub fn pbblast_pbbconst(RuleArgs { conclusion, .. }: RuleArgs) -> RuleResult {
                 .ok_or(CheckerError::Explanation(format!(
                     "Non-integer term at position {}",
                     i
-                )))?
-                .to_i32_wrapping();
-
-            match pb {
-                0 => Ok(acc),
-                1 => {
-                    let exponent = i.try_into().unwrap();
-                    let increment = Integer::i_pow_u(2, exponent);
-                    Ok(&acc + Integer::from(increment))
-                }
-                _ => Err(CheckerError::Explanation(format!(
+                )))?;
+
+            if pb == 0 {
+                Ok(acc)
+            } else if pb == 1 {
+                let exponent = i.try_into().unwrap();
+                let increment = Integer::i_pow_u(2, exponent);
+                Ok(&acc + Integer::from(increment))
+            } else {
+                Err(CheckerError::Explanation(format!(
                     "Invalid value {} at position {}",
                     pb, i
-                ))),
+                )))
             }
         })?;
 
@@ -426,30 +436,45 @@ pub fn pbblast_pbbconst(RuleArgs { conclusion, .. }: RuleArgs) -> RuleResult {
 ///
 /// Ex: `get_bitvector_terms((pbbterm @x0 @x1), 2)`
 /// >>> `[@x0, @x1]`
-fn get_bitvector_terms(bv: &Rc<Term>, pool: &mut dyn TermPool) -> Vec<Rc<Term>> {
+fn get_bitvector_terms(
+    bv: &Rc<Term>,
+    pool: &mut dyn TermPool,
+) -> Result<Vec<Rc<Term>>, CheckerError> {
     if let Some(xs) = match_term!((pbbterm ...) = bv) {
-        xs.to_vec()
+        Ok(xs.to_vec())
     } else {
         // Get bit width of `x`
-        let n = get_bit_width(bv, pool).unwrap();
-        (0..n)
+        let n = get_bit_width(bv, pool)?;
+        Ok((0..n)
             .map(|i| {
                 build_term!(
                     pool,
                     ((_ int_of { pool.add(Term::new_int(i)) }) { bv.clone() })
                 )
             })
-            .collect()
+            .collect())
     }
 }
 
+/// Checks that a bit doesn't contain the variable `z`, that is bound by the `choice` terms that
+/// represent the bits of a bitwise operation
+fn assert_not_captured(pool: &mut dyn TermPool, bit: &Rc<Term>) -> RuleResult {
+    let z = build_term!(pool, (let z Int));
+    rassert!(
+        !pool.free_vars(bit).contains(&z),
+        CheckerError::Explanation(format!("Bit {bit} contains the bound variable {z}"))
+    );
+    Ok(())
+}
+
 /// Implements the bitwise exclusive or operation.
 pub fn pbblast_bvxor(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), bit_constraints) =
         match_term_err!((= (bvxor x y) (pbbterm ...)) = &conclusion[0])?;
 
-    let xs = get_bitvector_terms(x, pool);
-    let ys = get_bitvector_terms(y, pool);
+    let xs = get_bitvector_terms(x, pool)?;
+    let ys = get_bitvector_terms(y, pool)?;
 
     // Zip three lists into tuples
     for ((bc, xi), yi) in bit_constraints.iter().zip(xs.iter()).zip(ys.iter()) {
@@ -465,6 +490,8 @@ pub fn pbblast_bvxor(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
             *z_type.as_sort().unwrap() == Sort::Int,
             CheckerError::Explanation(format!("Expected {z_type} to be Sort::Int"))
         );
+        assert_not_captured(pool, xi)?;
+        assert_not_captured(pool, yi)?;
 
         // c1 : (>= (+ xi yi) z)
         let ((xic, yic), zc) = match_term_err!((>= (+ xi yi) z) = c1)?;
@@ -508,11 +535,12 @@ pub fn pbblast_bvxor(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 
 /// Implements the bitwise and operation.
 pub fn pbblast_bvand(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), bit_constraints) =
         match_term_err!((= (bvand x y) (pbbterm ...)) = &conclusion[0])?;
 
-    let xs = get_bitvector_terms(x, pool);
-    let ys = get_bitvector_terms(y, pool);
+    let xs = get_bitvector_terms(x, pool)?;
+    let ys = get_bitvector_terms(y, pool)?;
 
     // Zip three lists into tuples
     for ((bc, xi), yi) in bit_constraints.iter().zip(xs.iter()).zip(ys.iter()) {
@@ -528,6 +556,8 @@ pub fn pbblast_bvand(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
             *z_type.as_sort().unwrap() == Sort::Int,
             CheckerError::Explanation(format!("Expected {z_type} to be Sort::Int"))
         );
+        assert_not_captured(pool, xi)?;
+        assert_not_captured(pool, yi)?;
 
         // c1 : (>= @x0 z)
         let (xic, zc) = match_term_err!((>= xi z) = c1)?;
@@ -564,9 +594,12 @@ pub fn pbblast_bvand(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 /// In which ri is the choice element from the pseudo boolean bit blasting
 /// of the bvxor rule
 pub fn pbblast_bvxor_ith_bit(RuleArgs { args, pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     assert_num_args(args, 2)?;
     let x = &args[0];
     let y = &args[1];
+    assert_not_captured(pool, x)?;
+    assert_not_captured(pool, y)?;
     let (c1, c2, c3, c4) = match_term_err!((and c1 c2 c3 c4) = &conclusion[0])?;
 
     // Build the expected choice term
@@ -610,9 +643,12 @@ pub fn pbblast_bvxor_ith_bit(RuleArgs { args, pool, conclusion, .. }: RuleArgs)
 /// In which ri is the choice element from the pseudo boolean bit blasting
 /// of the bvand rule
 pub fn pbblast_bvand_ith_bit(RuleArgs { args, pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     assert_num_args(args, 2)?;
     let x = &args[0];
     let y = &args[1];
+    assert_not_captured(pool, x)?;
+    assert_not_captured(pool, y)?;
     let (c1, c2, c3) = match_term_err!((and c1 c2 c3) = &conclusion[0])?;
 
     // Build the expected choice term
-- 
2.43.0


From 0490bfc1490ff3bd303216dac5061facdbcde508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:23 +0000
Subject: [PATCH 36/94] fix: identify pseudo-Boolean literals by their term and
 add up repeated ones

---
 carcara/src/checker/rules/cutting_planes.rs | 45 +++++++++------------
 1 file changed, 18 insertions(+), 27 deletions(-)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index 7d61d65..9d0a249 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -7,7 +7,10 @@ use crate::checker::Rc;
 use rug::Integer;
 use std::collections::HashMap;
 
-type PbHash = HashMap<String, Integer>;
+/// A pseudo-Boolean literal: a term, and whether it is negated
+type PbLiteral = (Rc<Term>, bool);
+
+type PbHash = HashMap<PbLiteral, Integer>;
 
 // Helper to unwrap a summation list
 pub fn split_summation(sum_term: &Rc<Term>) -> &[Rc<Term>] {
@@ -39,16 +42,16 @@ fn get_pb_hashmap(pbsum: &Rc<Term>) -> Result<PbHash, CheckerError> {
         let (coeff, literal) =
             // Negated literal  (* c (- 1 x1))
             if let Some((coeff, (_, literal))) = match_term!((* coeff (- 1 literal)) = term) {
-                (coeff, format!("~{}",literal))
+                (coeff, (literal.clone(), true))
             // Plain literal    (* c x1)
             } else if let Some((coeff, literal)) = match_term!((* coeff literal) = term) {
-                (coeff, format!("{}",literal))
+                (coeff, (literal.clone(), false))
             } else {
                 return Err(CheckerError::Explanation(format!("Term is neither plain nor negated: {}",term)));
             };
 
         let coeff = coeff.as_integer_err()?;
-        hm.insert(literal, coeff);
+        *hm.entry(literal).or_default() += coeff;
     }
     Ok(hm)
 }
@@ -70,36 +73,24 @@ fn add_pbsums(pbsum_a: &PbHash, pbsum_b: &PbHash) -> PbHash {
     res
 }
 
-fn is_negated_literal(lit: &str) -> bool {
-    lit.starts_with('~')
-}
-
-trait NegatedLiterals {
-    fn get_opposite(&self, lit: &str) -> Option<&Integer>;
-}
-
-impl NegatedLiterals for PbHash {
-    fn get_opposite(&self, lit: &str) -> Option<&Integer> {
-        if let Some(plain_lit) = lit.strip_prefix('~') {
-            self.get(plain_lit)
-        } else {
-            self.get(&format!("~{}", lit))
-        }
-    }
+fn negate_literal((lit, negated): &PbLiteral) -> PbLiteral {
+    (lit.clone(), !negated)
 }
 
 /// Cancel out opposite coefficients
 fn reduce_pbsum(pbsum: &PbHash) -> (PbHash, Integer) {
     let mut slack = Integer::from(0);
     let mut res = pbsum.clone();
-    let mut changes: Vec<(String, Integer)> = Vec::new();
+    let mut changes: Vec<(PbLiteral, Integer)> = Vec::new();
 
     for lit in res.keys() {
-        if is_negated_literal(lit) {
+        let (_, negated) = lit;
+        if *negated {
             continue;
         }
+        let opposite = negate_literal(lit);
         let pos = res.get(lit);
-        let neg = res.get_opposite(lit);
+        let neg = res.get(&opposite);
         if neg.is_none() {
             continue;
         }
@@ -112,11 +103,11 @@ fn reduce_pbsum(pbsum: &PbHash) -> (PbHash, Integer) {
         if pos > neg {
             let diff = pos.clone() - neg;
             changes.push((lit.clone(), diff)); // Update lit to diff
-            changes.push((format!("~{lit}"), Integer::from(0))); // Set ~lit to 0
+            changes.push((opposite, Integer::from(0))); // Set ~lit to 0
         } else {
             let diff = neg.clone() - pos;
             changes.push((lit.clone(), Integer::from(0))); // Set lit to 0
-            changes.push((format!("~{lit}"), diff)); // Update ~lit to neg - pos
+            changes.push((opposite, diff)); // Update ~lit to neg - pos
         }
     }
 
@@ -141,7 +132,7 @@ fn assert_pbsum_subset_keys(pbsum_a: &PbHash, pbsum_b: &PbHash) -> Result<(), Ch
 
         if pbsum_b.get(key).is_none() {
             return Err(CheckerError::Explanation(format!(
-                "Key {} of {:?} not found in {:?}",
+                "Key {:?} of {:?} not found in {:?}",
                 key, pbsum_b, pbsum_a
             )));
         }
@@ -219,7 +210,7 @@ pub fn cp_addition(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> Rul
             // ¬∃ x, (x ∈ C) ∧ ¬(x ∈ L) ∧ ¬(x ∈ R)
             _ => {
                 return Err(CheckerError::Explanation(format!(
-                    "Literal of the conclusion not present in either premises: {}",
+                    "Literal of the conclusion not present in either premises: {:?}",
                     literal
                 )));
             }
-- 
2.43.0


From c5e19911b360e46fbadf6e039e0a25a093b0186b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:44 +0000
Subject: [PATCH 37/94] fix: reject unsound multiplications, saturations and
 unary minus in cutting planes rules

---
 carcara/src/checker/rules/cutting_planes.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index 9d0a249..a06a6f4 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -230,6 +230,11 @@ pub fn cp_multiplication(RuleArgs { premises, args, conclusion, .. }: RuleArgs)
     assert_num_args(args, 1)?;
     let scalar: Integer = args[0].as_integer_err()?;
 
+    // Multiplying by a negative scalar would reverse the inequality
+    if scalar < 0 {
+        return Err(CheckerError::ExpectedNonnegInteger(args[0].clone()));
+    }
+
     // Check there is exactly one conclusion
     assert_clause_len(conclusion, 1)?;
     let conclusion = &conclusion[0];
@@ -264,6 +269,7 @@ pub fn cp_multiplication(RuleArgs { premises, args, conclusion, .. }: RuleArgs)
 
 pub fn cp_division(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> RuleResult {
     assert_num_premises(premises, 1)?;
+    assert_clause_len(premises[0].clause, 1)?;
     let clause = &premises[0].clause[0];
 
     // Check there is exactly one arg
@@ -315,6 +321,7 @@ pub fn cp_division(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> Rul
 pub fn cp_saturation(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> RuleResult {
     assert_num_premises(premises, 1)?;
     assert_num_args(args, 0)?;
+    assert_clause_len(premises[0].clause, 1)?;
     let clause = &premises[0].clause[0];
 
     // Check there is exactly one conclusion
@@ -336,6 +343,11 @@ pub fn cp_saturation(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> R
     // Verify premise and conclusion share same keys
     assert_pbsum_same_keys(&pbsum_p, &pbsum_c)?;
 
+    // Saturation is only sound if the constant and the coefficients are not negative
+    if constant_p < 0 || pbsum_p.values().any(|coeff| *coeff < 0) {
+        return Err(CheckerError::ExpectedNonnegInteger(clause.clone()));
+    }
+
     // Verify saturation of variables match
     for (literal, coeff_p) in pbsum_p {
         if let Some(coeff_c) = pbsum_c.get(&literal) {
@@ -352,6 +364,7 @@ pub fn cp_saturation(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> R
 
 pub fn cp_literal(RuleArgs { pool, args, conclusion, .. }: RuleArgs) -> RuleResult {
     assert_num_args(args, 1)?;
+    assert_clause_len(conclusion, 1)?;
     // TODO: Set args type to FF 2
 
     if let Some(((c, (_, l)), _)) = match_term!((>= (* c (- 1 l)) 0) = &conclusion[0]) {
@@ -552,7 +565,7 @@ fn flatten_addition_tree(
 ) -> Result<(Vec<CoeffTimesVar<'_>>, Integer), CheckerError> {
     match term.as_ref() {
         Term::Op(Operator::Add, args) => accumulate_sum(args),
-        Term::Op(Operator::Sub, args) => {
+        Term::Op(Operator::Sub, args) if args.len() > 1 => {
             let (mut va, ca) = flatten_addition_tree(&args[0])?;
             let (mut vb, cb) = accumulate_sum(&args[1..])?;
             negate_sum(&mut vb);
-- 
2.43.0


From edc7407a93ba4520e64f2034b8078d7db419a8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:57 +0000
Subject: [PATCH 38/94] fix: do not identify differently negated literals in
 cp_normalize

---
 carcara/src/checker/rules/cutting_planes.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index a06a6f4..a26d63b 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -468,6 +468,9 @@ impl PartialEq for CoeffTimesVar<'_> {
 
         // Different vars can only be equal if the `!negated` var
         // has shape `(- 1 l)`  and the negated has shape `l`
+        if self.negated == other.negated {
+            return false;
+        }
 
         // * 1. self is `negated l`, other is `!negated (- 1 l)`
         if self.negated {
-- 
2.43.0


From 889341ef68598ae3f203c482ab9add033eded679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 39/94] fix: do not let a zero coefficient hide a literal in
 cp_addition

---
 carcara/src/checker/rules/cutting_planes.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index a26d63b..275aeb5 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -197,9 +197,6 @@ pub fn cp_addition(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> Rul
 
     // Verify pseudo-boolean sums match
     for (literal, coeff_c) in &pbsum_c {
-        if *coeff_c == 0 {
-            continue;
-        }
         match pbsum_lr_reduced.get(literal) {
             Some(coeff_lr_reduced) => {
                 rassert!(
@@ -207,6 +204,7 @@ pub fn cp_addition(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> Rul
                     CheckerError::ExpectedInteger(coeff_lr_reduced.clone(), conclusion.clone())
                 );
             }
+            None if *coeff_c == 0 => (),
             // ¬∃ x, (x ∈ C) ∧ ¬(x ∈ L) ∧ ¬(x ∈ R)
             _ => {
                 return Err(CheckerError::Explanation(format!(
-- 
2.43.0


From 8dddbdc81dc7f5e73ddbe7af66812ac8682974c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 40/94] fix: do not print debugging output when checking
 re_concat_unfold_pos

---
 carcara/src/checker/rules/strings.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/carcara/src/checker/rules/strings.rs b/carcara/src/checker/rules/strings.rs
index 1bc6fbb..edba243 100644
--- a/carcara/src/checker/rules/strings.rs
+++ b/carcara/src/checker/rules/strings.rs
@@ -1323,9 +1323,6 @@ pub fn re_concat_unfold_pos(RuleArgs { premises, conclusion, pool, .. }: RuleArg
         _ => Err(CheckerError::TermOfWrongForm("(re.++ ...)", r.clone())),
     }?;
 
-    println!("concluded: {}", &conclusion[0]);
-    println!("epxanded: {}", &expanded);
-
     assert_eq(&conclusion[0], &expanded)
 }
 
-- 
2.43.0


From 75ef2fee4bfc65cb2a56d2a12b04225f63bdc7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 41/94] fix: count characters instead of bytes in string rules

---
 carcara/src/checker/rules/strings.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carcara/src/checker/rules/strings.rs b/carcara/src/checker/rules/strings.rs
index edba243..7e04583 100644
--- a/carcara/src/checker/rules/strings.rs
+++ b/carcara/src/checker/rules/strings.rs
@@ -285,7 +285,7 @@ fn strip_prefix_or_suffix(
 /// constant of size one.
 fn string_check_length_one(term: Rc<Term>) -> Result<(), CheckerError> {
     if let Term::Const(Constant::String(s)) = term.as_ref() {
-        if s.len() == 1 {
+        if s.chars().count() == 1 {
             return Ok(());
         }
     }
@@ -552,7 +552,7 @@ fn str_fixed_len_re(pool: &mut dyn TermPool, r: Rc<Term>) -> Result<usize, Check
         Term::Op(Operator::StrToRe, args) => {
             let s_1 = args.first().unwrap();
             match s_1.as_ref() {
-                Term::Const(Constant::String(s)) => Ok(s.len()),
+                Term::Const(Constant::String(s)) => Ok(s.chars().count()),
                 _ => Err(CheckerError::LengthCannotBeEvaluated(r.clone())),
             }
         }
-- 
2.43.0


From d4d9a8d0b3d0c7ecf0bf8b8c1fa3a71afa352278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 42/94] fix: expand string constants on both sides when
 comparing string rule conclusions

---
 carcara/src/checker/rules/strings.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/carcara/src/checker/rules/strings.rs b/carcara/src/checker/rules/strings.rs
index 7e04583..81445e5 100644
--- a/carcara/src/checker/rules/strings.rs
+++ b/carcara/src/checker/rules/strings.rs
@@ -111,9 +111,11 @@ fn expand_string_constants(pool: &mut dyn TermPool, term: &Rc<Term>) -> Rc<Term>
                 let mut new_args = Vec::new();
                 // (str.++ "a" (str.++ "b" "c")) => (str.++ "a" "b" "c")
                 for arg in args {
-                    new_args.extend(string_concat_flatten(pool, arg.clone()));
+                    for flat in string_concat_flatten(pool, arg.clone()) {
+                        new_args.push(expand_string_constants(pool, &flat));
+                    }
                 }
-                pool.add(Term::Op(*op, new_args))
+                concat(pool, new_args)
             }
             _ => {
                 let new_args = args
@@ -594,6 +596,7 @@ pub fn concat_eq(
         (= {ss_concat.clone()} {ts_concat.clone()})
     );
 
+    let expected = expand_string_constants(pool, &expected);
     let expanded = expand_string_constants(pool, &conclusion[0]);
 
     assert_eq(&expected, &expanded)
@@ -630,6 +633,7 @@ pub fn concat_unify(
         (= {s_concat.clone()} {t_concat.clone()})
     );
 
+    let expected = expand_string_constants(pool, &expected);
     let expanded = expand_string_constants(pool, &conclusion[0]);
 
     assert_eq(&expected, &expanded)
@@ -725,6 +729,7 @@ pub fn concat_csplit_prefix(
         (= {t_1.clone()} {right_eq_concat.clone()})
     );
 
+    let expected = expand_string_constants(pool, &expected);
     let expanded = expand_string_constants(pool, &conclusion[0]);
 
     assert_eq(&expected, &expanded)
@@ -773,6 +778,7 @@ pub fn concat_csplit_suffix(
         (= {t_2.clone()} {right_eq_concat.clone()})
     );
 
+    let expected = expand_string_constants(pool, &expected);
     let expanded = expand_string_constants(pool, &conclusion[0]);
 
     assert_eq(&expected, &expanded)
-- 
2.43.0


From bcdc5ec4ab519595711223ad0224e9a526c12f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 43/94] fix: require string constants in concat_cprop rules

---
 carcara/src/checker/rules/strings.rs | 37 +++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/carcara/src/checker/rules/strings.rs b/carcara/src/checker/rules/strings.rs
index 81445e5..de11403 100644
--- a/carcara/src/checker/rules/strings.rs
+++ b/carcara/src/checker/rules/strings.rs
@@ -350,6 +350,19 @@ fn extract_arguments(t: &Rc<Term>) -> Result<Vec<Rc<Term>>, CheckerError> {
     Ok(args_t.clone())
 }
 
+/// Helper function for the `concat_cprop` rule: the characters of a term that must be a string
+/// constant, or a concatenation of string constants.
+fn extract_characters(
+    pool: &mut dyn TermPool,
+    term: &Rc<Term>,
+) -> Result<Vec<Rc<Term>>, CheckerError> {
+    let flat = string_concat_flatten(pool, term.clone());
+    for el in &flat {
+        string_check_length_one(el.clone())?;
+    }
+    Ok(flat)
+}
+
 /// A function that takes a list of regular expressions and returns the term corresponding to the
 /// application of the concatenation operator to them.
 ///
@@ -1057,14 +1070,17 @@ pub fn concat_cprop_prefix(RuleArgs { premises, conclusion, pool, .. }: RuleArgs
         _ => return Err(CheckerError::TermOfWrongForm("(str.++ s1 s2)", s.clone())),
     };
 
-    let sc = string_concat_flatten(pool, ss[0].clone());
-    let sc_tail = sc[1..].to_vec();
+    let s_1 = ss.first().unwrap_or(s);
+    let sc = extract_characters(pool, s_1)?;
+    let Some((_, sc_tail)) = sc.split_first() else {
+        return Err(CheckerError::ExpectedToNotBeEmpty(s_1.clone()));
+    };
 
-    let t_2_flat = string_concat_flatten(pool, args_t[1].clone());
+    let t_2_flat = extract_characters(pool, &args_t[1])?;
 
-    let v = 1 + overlap(sc_tail.clone(), t_2_flat.clone());
+    let v = 1 + overlap(sc_tail.to_vec(), t_2_flat.clone());
     let v = pool.add(Term::new_int(v));
-    let oc = build_skolem_prefix(pool, ss[0].clone(), v);
+    let oc = build_skolem_prefix(pool, s_1.clone(), v);
     let oc_len = build_term!(pool, (strlen {oc.clone()}));
 
     let r = build_skolem_suffix_rem(pool, t_1.clone(), oc_len);
@@ -1103,16 +1119,19 @@ pub fn concat_cprop_suffix(RuleArgs { premises, conclusion, pool, .. }: RuleArgs
         _ => return Err(CheckerError::TermOfWrongForm("(str.++ s1 s2)", s.clone())),
     };
 
-    let mut sc = string_concat_flatten(pool, ss[1].clone());
+    let s_2 = ss.last().unwrap_or(s);
+    let mut sc = extract_characters(pool, s_2)?;
     sc.reverse();
-    let sc_tail = &sc[1..];
+    let Some((_, sc_tail)) = sc.split_first() else {
+        return Err(CheckerError::ExpectedToNotBeEmpty(s_2.clone()));
+    };
 
-    let mut t_2_flat = string_concat_flatten(pool, args_t[1].clone());
+    let mut t_2_flat = extract_characters(pool, &args_t[1])?;
     t_2_flat.reverse();
 
     let v = 1 + overlap(sc_tail.to_vec(), t_2_flat.clone());
     let v = pool.add(Term::new_int(v));
-    let oc = build_str_suffix_len(pool, ss[1].clone(), v);
+    let oc = build_str_suffix_len(pool, s_2.clone(), v);
 
     let rhs = build_term!(pool, (- (strlen {t_2.clone()}) (strlen {oc.clone()})));
     let r = build_skolem_prefix(pool, t_2.clone(), rhs.clone());
-- 
2.43.0


From b67f94fc67b20f386f409b4d217b47a09637e6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:01 +0000
Subject: [PATCH 44/94] fix: require a non-negative length in string_decompose

---
 carcara/src/checker/rules/strings.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/carcara/src/checker/rules/strings.rs b/carcara/src/checker/rules/strings.rs
index de11403..a30c973 100644
--- a/carcara/src/checker/rules/strings.rs
+++ b/carcara/src/checker/rules/strings.rs
@@ -1160,6 +1160,9 @@ pub fn string_decompose(
     let term = get_premise_term(&premises[0])?;
     let rev = args[0].as_bool_err()?;
     let (t, n) = match_term_err!((>= (strlen t) n) = term)?;
+    if n.as_integer_err()? < 0 {
+        return Err(CheckerError::ExpectedNonnegInteger(n.clone()));
+    }
 
     match_term_err!(
         (and
-- 
2.43.0


From 03099d106772a8b26d2ab28f931146b47ff78305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:14 +0000
Subject: [PATCH 45/94] fix: do not panic on rule arguments that do not fit in
 a machine word

---
 carcara/src/ast/term.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/carcara/src/ast/term.rs b/carcara/src/ast/term.rs
index c88d8cc..e76ba03 100644
--- a/carcara/src/ast/term.rs
+++ b/carcara/src/ast/term.rs
@@ -1058,10 +1058,8 @@ impl Rc<Term> {
 
     /// Similar to `Term::as_integer_err`, but also checks if non-negative.
     pub fn as_usize_err(&self) -> Result<usize, CheckerError> {
-        if let Some(i) = self.as_integer() {
-            if i >= 0 {
-                return Ok(i.to_usize().unwrap());
-            }
+        if let Some(i) = self.as_integer().and_then(|i| i.to_usize()) {
+            return Ok(i);
         }
         Err(CheckerError::ExpectedNonnegInteger(self.clone()))
     }
-- 
2.43.0


From 32caf2694806e39806e8abb1448bbaa292090aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 46/94] fix: do not capture variables in re_unfold_neg

---
 carcara/src/checker/rules/strings.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/carcara/src/checker/rules/strings.rs b/carcara/src/checker/rules/strings.rs
index a30c973..05f9e7f 100644
--- a/carcara/src/checker/rules/strings.rs
+++ b/carcara/src/checker/rules/strings.rs
@@ -1363,6 +1363,13 @@ pub fn re_unfold_neg(RuleArgs { premises, conclusion, pool, .. }: RuleArgs) -> R
 
     let int_sort = pool.add(Term::Sort(Sort::Int));
     let l = pool.add(Term::new_var("L", int_sort.clone()));
+    // The quantifier introduced by this rule must not capture variables of the premise
+    if pool.free_vars(term).contains(&l) {
+        return Err(CheckerError::TermOfWrongForm(
+            "a term where 'L' is not free",
+            term.clone(),
+        ));
+    }
     let pref = build_skolem_prefix(pool, t.clone(), l.clone());
     let suff = build_skolem_suffix_rem(pool, t.clone(), l.clone());
 
-- 
2.43.0


From 306ff1f95d28374f6923203cff9f314ab6573bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:30 +0000
Subject: [PATCH 47/94] fix: check the arguments of RARE rules against the
 parameters

---
 carcara/src/ast/substitution.rs   | 10 +++++++
 carcara/src/checker/rules/rare.rs | 48 +++++++++++++++++++++++++++----
 2 files changed, 53 insertions(+), 5 deletions(-)

diff --git a/carcara/src/ast/substitution.rs b/carcara/src/ast/substitution.rs
index 82ef734..0786c90 100644
--- a/carcara/src/ast/substitution.rs
+++ b/carcara/src/ast/substitution.rs
@@ -88,6 +88,16 @@ impl Substitution {
         })
     }
 
+    /// Constructs a new substitution from a mapping of variables to terms, without checking that the
+    /// sorts of the terms match. This allows the parameters of RARE rules to be mapped to lists.
+    pub(crate) fn new_unchecked(map: IndexMap<Rc<Term>, Rc<Term>>) -> Self {
+        Self {
+            map,
+            should_be_renamed: None,
+            cache: IndexMap::new(),
+        }
+    }
+
     /// Returns `true` if the substitution is empty.
     pub fn is_empty(&self) -> bool {
         self.map.is_empty()
diff --git a/carcara/src/checker/rules/rare.rs b/carcara/src/checker/rules/rare.rs
index 0a48c6e..4184b22 100644
--- a/carcara/src/checker/rules/rare.rs
+++ b/carcara/src/checker/rules/rare.rs
@@ -1,13 +1,46 @@
 use indexmap::IndexMap;
 
 use crate::{
-    ast::{Constant, Substitution, Term},
+    ast::{
+        rare_rules::{AttributeParameters, TypeParameter},
+        Constant, Operator, Rc, Sort, Substitution, Term, TermPool,
+    },
     checker::{error::CheckerError, rules::get_premise_term},
     rare::{get_rules, rewrite_meta_terms},
 };
 
 use super::{RuleArgs, RuleResult};
 
+/// Checks that a term can be given as the value of a parameter of a RARE rule. The terms given for a
+/// parameter must have the sort the parameter was declared with, and a list can only be given for
+/// parameters that were declared with the `:list` attribute. The `sort_map` argument stores the
+/// instances of the sort variables of the rule.
+fn check_rare_argument(
+    pool: &mut dyn TermPool,
+    name: &str,
+    parameter: &TypeParameter,
+    value: &Rc<Term>,
+    sort_map: &mut IndexMap<String, Sort>,
+) -> RuleResult {
+    let elements = match (value.as_ref(), parameter.attribute) {
+        (Term::Op(Operator::RareList, elements), AttributeParameters::List) => elements.as_slice(),
+        _ => std::slice::from_ref(value),
+    };
+    let expected = parameter.term.as_sort().unwrap();
+    for element in elements {
+        let sort = pool.sort(element);
+        let got = sort.as_sort().unwrap();
+        if *got == Sort::RareList || !(got.is_polymorphic() || expected.match_with(got, sort_map)) {
+            return Err(CheckerError::RareMisMatchTypes(
+                name.to_owned(),
+                parameter.term.clone(),
+                sort.clone(),
+            ));
+        }
+    }
+    Ok(())
+}
+
 pub fn check_rare(
     RuleArgs {
         premises,
@@ -38,12 +71,17 @@ pub fn check_rare(
 
         let mut arguments = args.iter().rev();
         let mut map = IndexMap::new();
+        let mut sort_map = IndexMap::new();
 
         for arg in rare_term.arguments.iter().rev() {
-            let arg_sort = rare_term.parameters.get(arg).unwrap();
+            let Some(parameter) = rare_term.parameters.get(arg) else {
+                return Err(CheckerError::RareArgumentNotFound(arg.clone()));
+            };
+            let value = arguments.next().unwrap();
+            check_rare_argument(pool, arg, parameter, value, &mut sort_map)?;
             map.insert(
-                pool.add(Term::Var(arg.clone(), arg_sort.term.clone())),
-                arguments.next().unwrap().clone(),
+                pool.add(Term::Var(arg.clone(), parameter.term.clone())),
+                value.clone(),
             );
         }
 
@@ -54,7 +92,7 @@ pub fn check_rare(
         }
 
         let mut rare_premises = rare_term.premises.iter();
-        let mut subst = Substitution::new(pool, map.clone())?;
+        let mut subst = Substitution::new_unchecked(map);
 
         for premise in premises {
             let premise = get_premise_term(premise)?;
-- 
2.43.0


From 93d987a13b1a611d8bd06dd3ebd4c78ea974de32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:30 +0000
Subject: [PATCH 48/94] fix: neutral elements of empty applications in RARE
 rules

---
 carcara/src/rare/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carcara/src/rare/mod.rs b/carcara/src/rare/mod.rs
index cc8fc2a..b9793ce 100644
--- a/carcara/src/rare/mod.rs
+++ b/carcara/src/rare/mod.rs
@@ -9,8 +9,8 @@ pub fn get_rules() -> Vec<(RewriteTerm, RewriteTerm)> {
     vec![
         build_equation!((RareList ..x..) ~> x),
         build_equation!((Or true) ~> true),
-        build_equation!((Or) ~> true),
-        build_equation!((And) ~> false),
+        build_equation!((Or) ~> false),
+        build_equation!((And) ~> true),
         build_equation!((And false) ~> false),
     ]
 }
-- 
2.43.0


From 98b93d6efef7e60257bf62fd13968d88b0894c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:13 +0000
Subject: [PATCH 49/94] fix: splice lists in the values of let terms of RARE
 rules

---
 carcara/src/rare/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/carcara/src/rare/mod.rs b/carcara/src/rare/mod.rs
index b9793ce..0b21756 100644
--- a/carcara/src/rare/mod.rs
+++ b/carcara/src/rare/mod.rs
@@ -1,7 +1,7 @@
 use indexmap::IndexMap;
 
 use crate::{
-    ast::{rare_rules::RewriteTerm, Rc, Term, TermPool},
+    ast::{rare_rules::RewriteTerm, BindingList, Rc, Term, TermPool},
     build_equation, pseudo_term,
 };
 
@@ -201,8 +201,15 @@ pub fn rewrite_meta_terms(
         }
 
         Term::Let(bindings, body) => {
+            let new_bindings = bindings
+                .iter()
+                .map(|(name, value)| {
+                    let new_value = rewrite_meta_terms(pool, value.clone(), rules);
+                    (name.clone(), new_value)
+                })
+                .collect();
             let new_body = rewrite_meta_terms(pool, body.clone(), rules);
-            pool.add(Term::Let(bindings.clone(), new_body))
+            pool.add(Term::Let(BindingList(new_bindings), new_body))
         }
 
         Term::ParamOp { op, op_args, args } => {
-- 
2.43.0


From a48511ca915a78d4b01624636c2c3ed39c618ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:08 +0000
Subject: [PATCH 50/94] fix: parameters of a RARE rule are only visible inside
 of it

---
 carcara/src/parser/mod.rs      |  2 +-
 carcara/src/parser/rare/mod.rs | 22 +++++++++++++++-------
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index 5638c60..0c42c7f 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -136,7 +136,7 @@ impl FunctionDef {
 }
 
 /// A sort definition, from a `define-sort` command.
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 struct SortDef {
     params: Vec<String>,
     body: Rc<Term>,
diff --git a/carcara/src/parser/rare/mod.rs b/carcara/src/parser/rare/mod.rs
index e3c2473..a27edb5 100644
--- a/carcara/src/parser/rare/mod.rs
+++ b/carcara/src/parser/rare/mod.rs
@@ -24,13 +24,15 @@ impl<'a, R: BufRead> Parser<'a, R> {
         let term = self.parse_sort(true)?;
 
         self.insert_sorted_var((name.clone(), term.clone()));
-        self.state.sort_defs.insert(
-            name.clone(),
-            SortDef {
-                body: term.clone(),
-                params: Vec::default(),
-            },
-        );
+        if term.as_sort() == Some(&Sort::Type) {
+            self.state.sort_defs.insert(
+                name.clone(),
+                SortDef {
+                    body: term.clone(),
+                    params: Vec::default(),
+                },
+            );
+        }
 
         match self.current_token.clone() {
             Token::CloseParen => {
@@ -106,6 +108,10 @@ impl<'a, R: BufRead> Parser<'a, R> {
         self.expect_token(Token::ReservedWord(Reserved::DeclareRareRule))?;
         let name = self.expect_symbol()?;
         self.expect_token(Token::OpenParen)?;
+
+        // The parameters of a rule are only visible inside of it
+        self.state.symbol_table.push_scope();
+        let sort_defs = self.state.sort_defs.clone();
         let parameters = self.parse_sequence(Self::parse_parameters, false)?;
 
         let body_definitions = BodyDefinition {
@@ -115,6 +121,8 @@ impl<'a, R: BufRead> Parser<'a, R> {
         };
 
         let body = self.parse_sequence(Self::parse_body, false)?;
+        self.state.sort_defs = sort_defs;
+        self.state.symbol_table.pop_scope();
         let body = body.iter().fold(body_definitions, |mut body, x| {
             match x {
                 Body::Conclusion(term) => body.conclusion = Some((*term).clone()),
-- 
2.43.0


From bb2f9a55a2d014517fe87ce0e9470051d78f3f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 51/94] fix: panics when instantiating RARE rules with lists of
 bit-vectors

---
 carcara/src/ast/pool/mod.rs | 131 ++++++++++++++++++++----------------
 1 file changed, 72 insertions(+), 59 deletions(-)

diff --git a/carcara/src/ast/pool/mod.rs b/carcara/src/ast/pool/mod.rs
index 1c1b58b..9ea7ecf 100644
--- a/carcara/src/ast/pool/mod.rs
+++ b/carcara/src/ast/pool/mod.rs
@@ -71,6 +71,9 @@ impl PrimitivePool {
 
     /// Computes the sort of a term and adds it to the sort cache. If this pool is layered on top of
     /// other pools, the terms that are already in those pools are reused.
+    ///
+    /// While a RARE rule is being instantiated, some terms may not be well-sorted (for example, if a
+    /// list was not yet flattened into its parent term). The sort of such terms is arbitrary.
     fn compute_sort<const N: usize>(
         &mut self,
         term: &Rc<Term>,
@@ -147,36 +150,31 @@ impl PrimitivePool {
                 | Operator::BvSRem
                 | Operator::BvSMod
                 | Operator::BvAShr => {
-                    match self
-                        .compute_sort(&args[0], prior_pools)
-                        .as_sort()
-                        .unwrap()
-                        .clone()
-                    {
-                        Sort::BitVec(width) => Sort::BitVec(width),
-                        Sort::ParamSort(v, head) => {
-                            if let Some(Sort::Var(_)) = head.as_sort() {
-                                Sort::ParamSort(v, head)
-                            } else {
-                                unreachable!()
-                            }
-                        }
-                        _ => unreachable!(),
+                    match args.first() {
+                        Some(arg) => self
+                            .compute_sort(arg, prior_pools)
+                            .as_sort()
+                            .unwrap()
+                            .clone(),
+                        None => Sort::RareList,
                     }
                 }
                 Operator::BvComp => Sort::BitVec(1),
                 Operator::BvBbTerm | Operator::BvPBbTerm => Sort::BitVec(args.len()),
-                Operator::BvConst => match &*args[1] {
-                    Term::Const(Constant::Integer(bvsize)) if bvsize.to_usize().is_some() => {
+                Operator::BvConst => match args.get(1).map(|size| (size, &**size)) {
+                    Some((_, Term::Const(Constant::Integer(bvsize))))
+                        if bvsize.to_usize().is_some() =>
+                    {
                         Sort::BitVec(bvsize.to_usize().unwrap())
                     }
-                    _ => Sort::ParamSort(
-                        vec![args[1].clone()],
+                    Some((size, _)) => Sort::ParamSort(
+                        vec![size.clone()],
                         self.add_with_priorities(
                             Term::Sort(Sort::Var("BitVec".to_owned())),
                             prior_pools,
                         ),
                     ),
+                    None => Sort::RareList,
                 },
                 Operator::BvConcat => {
                     enum TotalWidth {
@@ -184,6 +182,7 @@ impl PrimitivePool {
                         ParamSort(Rc<Term>),
                     }
                     let mut total_width: Vec<TotalWidth> = vec![];
+                    let mut ill_sorted = false;
                     for arg in args {
                         match self
                             .compute_sort(arg, prior_pools)
@@ -197,10 +196,12 @@ impl PrimitivePool {
                             Sort::ParamSort(v, _) => {
                                 total_width.push(TotalWidth::ParamSort(v[0].clone()));
                             }
-                            _ => unreachable!(),
+                            _ => ill_sorted = true,
                         }
                     }
-                    if total_width
+                    if ill_sorted {
+                        Sort::RareList
+                    } else if total_width
                         .iter()
                         .any(|x| matches!(x, TotalWidth::ParamSort(_)))
                     {
@@ -232,11 +233,14 @@ impl PrimitivePool {
                         }))
                     }
                 }
-                Operator::Ite => self
-                    .compute_sort(&args[1], prior_pools)
-                    .as_sort()
-                    .unwrap()
-                    .clone(),
+                Operator::Ite => match args.get(1) {
+                    Some(arg) => self
+                        .compute_sort(arg, prior_pools)
+                        .as_sort()
+                        .unwrap()
+                        .clone(),
+                    None => Sort::RareList,
+                },
                 Operator::Add | Operator::Sub | Operator::Mult | Operator::Abs => {
                     if args.iter().any(|a| {
                         self.compute_sort(a, prior_pools).as_sort().unwrap() == &Sort::Real
@@ -249,23 +253,25 @@ impl PrimitivePool {
                 Operator::RealDiv | Operator::ToReal => Sort::Real,
                 Operator::IntDiv | Operator::Mod | Operator::ToInt => Sort::Int,
                 Operator::Select => {
-                    match self.compute_sort(&args[0], prior_pools).as_sort().unwrap() {
-                        Sort::Array(_, y) => y.as_sort().unwrap().clone(),
-                        Sort::ParamSort(v, head) => {
-                            if let Some(Sort::Var(_)) = head.as_sort() {
-                                v[1].as_sort().unwrap().clone()
-                            } else {
-                                unreachable!()
-                            }
+                    let array_sort = args.first().map(|a| self.compute_sort(a, prior_pools));
+                    match array_sort.as_ref().and_then(|s| s.as_sort()) {
+                        Some(Sort::Array(_, y)) => y.as_sort().unwrap().clone(),
+                        Some(Sort::ParamSort(v, head))
+                            if v.len() == 2 && matches!(head.as_sort(), Some(Sort::Var(_))) =>
+                        {
+                            v[1].as_sort().unwrap().clone()
                         }
-                        _ => unreachable!(),
+                        _ => Sort::RareList,
                     }
                 }
-                Operator::Store => self
-                    .compute_sort(&args[0], prior_pools)
-                    .as_sort()
-                    .unwrap()
-                    .clone(),
+                Operator::Store => match args.first() {
+                    Some(arg) => self
+                        .compute_sort(arg, prior_pools)
+                        .as_sort()
+                        .unwrap()
+                        .clone(),
+                    None => Sort::RareList,
+                },
                 Operator::StrLen | Operator::IndexOf | Operator::StrToCode | Operator::StrToInt => {
                     Sort::Int
                 }
@@ -361,15 +367,17 @@ impl PrimitivePool {
                     }
                     ParamOperator::ZeroExtend | ParamOperator::SignExtend => {
                         let extension_width = op_args[0].as_integer().unwrap().to_usize().unwrap();
-                        let Sort::BitVec(bv_width) = self
-                            .compute_sort(&args[0], prior_pools)
-                            .as_sort()
-                            .unwrap()
-                            .clone()
-                        else {
-                            unreachable!()
-                        };
-                        Sort::BitVec(extension_width + bv_width)
+                        let arg_sort = self.compute_sort(&args[0], prior_pools);
+                        match arg_sort.as_sort().unwrap() {
+                            Sort::BitVec(width) => Sort::BitVec(extension_width + width),
+                            Sort::ParamSort(v, head) => {
+                                let new_width =
+                                    Term::Op(Operator::Add, vec![op_args[0].clone(), v[0].clone()]);
+                                let new_width = self.add_with_priorities(new_width, prior_pools);
+                                Sort::ParamSort(vec![new_width], head.clone())
+                            }
+                            other => other.clone(),
+                        }
                     }
                     ParamOperator::RotateLeft | ParamOperator::RotateRight => self
                         .compute_sort(&args[0], prior_pools)
@@ -378,17 +386,22 @@ impl PrimitivePool {
                         .clone(),
                     ParamOperator::Repeat => {
                         let repetitions = op_args[0].as_integer().unwrap();
-                        let Sort::BitVec(bv_width) = self
-                            .compute_sort(&args[0], prior_pools)
-                            .as_sort()
-                            .unwrap()
-                            .clone()
-                        else {
-                            unreachable!()
-                        };
-                        Sort::BitVec((repetitions * bv_width).to_usize().unwrap())
+                        let arg_sort = self.compute_sort(&args[0], prior_pools);
+                        match arg_sort.as_sort().unwrap() {
+                            Sort::BitVec(width) => {
+                                Sort::BitVec((repetitions * *width).to_usize().unwrap())
+                            }
+                            Sort::ParamSort(v, head) => {
+                                let new_width = Term::Op(
+                                    Operator::Mult,
+                                    vec![op_args[0].clone(), v[0].clone()],
+                                );
+                                let new_width = self.add_with_priorities(new_width, prior_pools);
+                                Sort::ParamSort(vec![new_width], head.clone())
+                            }
+                            other => other.clone(),
+                        }
                     }
-
                     ParamOperator::BvConst => unreachable!(
                         "bv const should be handled by the parser and transformed into a constant"
                     ),
-- 
2.43.0


From 854012d3910c5186de76f75f4f4041b1f3693804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:26 +0000
Subject: [PATCH 52/94] fix: print constant arrays with the syntax that the
 parser reads

---
 carcara/src/ast/printer.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index ba79f0d..4e6bca1 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -354,6 +354,16 @@ impl<'a> AlethePrinter<'a> {
                 term.print_with_sharing(self)?;
                 write!(self.inner, ")")
             }
+            // Constant arrays use the qualified operator syntax, `((as const <sort>) <term>)`
+            Term::ParamOp {
+                op: op @ ParamOperator::ArrayConst,
+                op_args,
+                args,
+            } => {
+                write!(self.inner, "((as {}", op)?;
+                self.write_s_expr_tail(op_args)?;
+                self.write_s_expr_tail(args)
+            }
             Term::ParamOp { op, op_args, args } => {
                 if !args.is_empty() {
                     write!(self.inner, "(")?;
-- 
2.43.0


From cb37cd608d2fdceeea289fa8d66c940c90fc1b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:03 +0000
Subject: [PATCH 53/94] fix: quote all symbols that need it when printing

---
 carcara/src/ast/printer.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index 4e6bca1..ca02f3f 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -387,7 +387,7 @@ impl<'a> AlethePrinter<'a> {
         }
         write!(self.inner, ")")?;
 
-        write!(self.inner, " :rule {}", step.rule)?;
+        write!(self.inner, " :rule {}", quote_symbol(&step.rule))?;
 
         if let [head, tail @ ..] = step.premises.as_slice() {
             let id = iter.get_premise(*head).id();
@@ -411,7 +411,7 @@ impl<'a> AlethePrinter<'a> {
 
         if let [head, tail @ ..] = step.discharge.as_slice() {
             let id = iter.get_premise(*head).id();
-            write!(self.inner, " :discharge ({}", id)?;
+            write!(self.inner, " :discharge ({}", quote_symbol(id))?;
             for discharge in tail {
                 let id = iter.get_premise(*discharge).id();
                 write!(self.inner, " {}", quote_symbol(id))?;
@@ -453,12 +453,13 @@ fn quote_symbol(symbol: &str) -> Cow<'_, str> {
 
     // Any symbol that:
     // - is an empty string,
-    // - starts with a digit,
+    // - starts with a digit, or with a `-` followed by a digit (which would be a number),
     // - is a reserved word, or
     // - contains non-symbol characters
     // must be quoted
+    let unsigned = symbol.strip_prefix('-').unwrap_or(symbol);
     if symbol.is_empty()
-        || symbol.chars().next().unwrap().is_ascii_digit()
+        || unsigned.starts_with(|c: char| c.is_ascii_digit())
         || Reserved::from_str(symbol).is_ok()
         || symbol.chars().any(|c| !is_symbol_character(c))
     {
@@ -565,7 +566,7 @@ impl fmt::Display for Sort {
             Sort::Real => write!(f, "Real"),
             Sort::String => write!(f, "String"),
             Sort::RegLan => write!(f, "RegLan"),
-            Sort::Var(name) => write!(f, "{}", name),
+            Sort::Var(name) => write!(f, "{}", quote_symbol(name)),
             Sort::ParamSort(args, s) => write!(f, "(par {:?} {})", args, s),
             Sort::Array(x, y) => write_s_expr(f, "Array", &[x, y]),
             Sort::BitVec(w) => write!(f, "(_ BitVec {})", w),
@@ -596,7 +597,8 @@ impl fmt::Display for Token {
 
 impl fmt::Display for ProblemPrelude {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        writeln!(f, "(set-logic {})", self.logic.as_deref().unwrap_or("ALL"))?;
+        let logic = self.logic.as_deref().unwrap_or("ALL");
+        writeln!(f, "(set-logic {})", quote_symbol(logic))?;
 
         for (name, arity) in &self.sort_declarations {
             writeln!(f, "(declare-sort {} {})", quote_symbol(name), arity)?;
-- 
2.43.0


From f448041c19b7b09e33ecbb2afd0e20c945423991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:14 +0000
Subject: [PATCH 54/94] fix: applying the name of a term of function sort to
 arguments

---
 carcara/src/parser/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index 0c42c7f..d424ea3 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -1847,6 +1847,13 @@ impl<'a, R: BufRead> Parser<'a, R> {
                 let args = self.parse_sequence(Self::parse_term, true)?;
                 let func = self.state.function_defs.get(&func_name).unwrap();
 
+                // The name may stand for a term of a function sort, e.g. a `lambda` term
+                if func.params.is_empty() {
+                    let body = func.body.clone();
+                    return self
+                        .make_app(body, args)
+                        .map_err(|err| Error::Parser(err, head_pos));
+                }
                 func.apply(self.pool, args)
                     .map_err(|err| Error::Parser(err, head_pos))
             }
-- 
2.43.0


From 7bf79318eb325351eed0fe5b8fd2d5360ef6076f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 55/94] fix: names of shared terms and definitions clashing
 with bound or declared names when printing

---
 carcara/src/ast/printer.rs | 131 +++++++++++++++++++++++++++++++++++--
 1 file changed, 126 insertions(+), 5 deletions(-)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index ca02f3f..6ee2bc2 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -77,6 +77,10 @@ pub fn write_asserts(
     // cannot use the GMP notation
     printer.smt_lib_strict = true;
 
+    let mut seen = HashSet::new();
+    for assertion in asserts {
+        printer.reserve_names(assertion, &mut seen);
+    }
     for assertion in asserts {
         write!(printer.inner, "(assert ")?;
         assertion.print_with_sharing(&mut printer)?;
@@ -102,8 +106,14 @@ impl<T: PrintWithSharing> PrintWithSharing for &T {
 impl PrintWithSharing for Rc<Term> {
     fn print_with_sharing(&self, p: &mut AlethePrinter) -> io::Result<()> {
         if let Some(name) = p.defined_constants.get(self) {
-            return write!(p.inner, "{}", quote_symbol(name));
+            let name = name.clone();
+            if !p.bound_names.contains(&name) && !p.uses_bound_names(self) {
+                return write!(p.inner, "{}", quote_symbol(&name));
+            }
         }
+        // Terms that mention names which are bound here cannot make use of sharing either, as they
+        // mean something else outside of this scope
+        let uses_bound_names = p.term_indices.is_some() && p.uses_bound_names(self);
         if let Some(indices) = &mut p.term_indices {
             // There are a few cases where we don't use sharing when printing a term:
             let cannot_use_sharing =
@@ -122,13 +132,20 @@ impl PrintWithSharing for Rc<Term> {
                 || Rc::strong_count(self) <= 3
                 // - Terms which are not closed, that is, terms which have free variables besides
                 // the global variables, cannot be shared
-                || !self.is_closed(p.pool, &p.global_vars);
+                || !self.is_closed(p.pool, &p.global_vars)
+                || uses_bound_names;
 
             if !cannot_use_sharing {
                 return if let Some(i) = indices.get(self) {
                     write!(p.inner, "{}{}", p.term_sharing_variable_prefix, i)
                 } else {
-                    let i = indices.len();
+                    let mut i = indices.last().map_or(0, |(_, i)| i + 1);
+                    while p
+                        .reserved_names
+                        .contains(&format!("{}{}", p.term_sharing_variable_prefix, i))
+                    {
+                        i += 1;
+                    }
                     indices.insert(self.clone(), i);
                     write!(p.inner, "(! ")?;
                     p.write_raw_term(self)?;
@@ -182,12 +199,21 @@ struct AlethePrinter<'a> {
     term_indices: Option<IndexMap<Rc<Term>, usize>>,
     term_sharing_variable_prefix: &'static str,
     global_vars: HashSet<Rc<Term>>,
+
+    /// Names that already have a meaning in what is being printed, and so cannot be given to shared
+    /// terms.
+    reserved_names: HashSet<String>,
+
+    /// The names bound by the binders, `let` terms and anchors we are currently inside of.
+    bound_names: Vec<String>,
+
     defined_constants: HashMap<Rc<Term>, String>,
     smt_lib_strict: bool,
 }
 
 impl PrintProof for AlethePrinter<'_> {
     fn write_proof(&mut self, proof: &Proof) -> io::Result<()> {
+        self.reserve_names_in_proof(proof);
         for (name, value) in &proof.constant_definitions {
             write!(self.inner, "(define-fun {} () ", quote_symbol(name))?;
             self.pool.sort(value).print_with_sharing(self)?;
@@ -202,6 +228,8 @@ impl PrintProof for AlethePrinter<'_> {
             .map(|(name, term)| (term, name))
             .collect();
         let mut iter = proof.iter();
+        // For each subproof we are in, how many names were bound outside of it
+        let mut scopes = Vec::new();
         while let Some(command) = iter.next() {
             match command {
                 ProofCommand::Assume { id, term } => {
@@ -211,6 +239,7 @@ impl PrintProof for AlethePrinter<'_> {
                 }
                 ProofCommand::Step(s) => self.write_step(&mut iter, s)?,
                 ProofCommand::Subproof(s) => {
+                    scopes.push(self.bound_names.len());
                     write!(self.inner, "(anchor :step {}", quote_symbol(command.id()))?;
 
                     if !s.args.is_empty() {
@@ -227,6 +256,7 @@ impl PrintProof for AlethePrinter<'_> {
                                     write!(self.inner, "({} ", quote_symbol(name))?;
                                     sort.print_with_sharing(self)?;
                                     write!(self.inner, ")")?;
+                                    self.bound_names.push(name.clone());
                                 }
                                 AnchorArg::Assign(var, value) => {
                                     write!(self.inner, "(:= ")?;
@@ -234,6 +264,7 @@ impl PrintProof for AlethePrinter<'_> {
                                     write!(self.inner, " ")?;
                                     value.print_with_sharing(self)?;
                                     write!(self.inner, ")")?;
+                                    self.bound_names.push(var.0.clone());
                                 }
                             }
                         }
@@ -244,6 +275,9 @@ impl PrintProof for AlethePrinter<'_> {
                 }
             }
             writeln!(self.inner)?;
+            if iter.is_end_step() && !command.is_subproof() {
+                self.bound_names.truncate(scopes.pop().unwrap());
+            }
         }
         self.defined_constants.clear();
         Ok(())
@@ -266,17 +300,98 @@ impl<'a> AlethePrinter<'a> {
         } else {
             HashSet::new()
         };
+        let declared_names = prelude.function_declarations.iter().map(|(n, _)| n.clone());
         Self {
             pool,
             inner: dest,
             term_indices: use_sharing.then(IndexMap::new),
             term_sharing_variable_prefix: "@p_",
             global_vars: global_variables,
+            reserved_names: declared_names.collect(),
+            bound_names: Vec::new(),
             defined_constants: HashMap::new(),
             smt_lib_strict: false,
         }
     }
 
+    /// Prints a term that is in the scope of a list of bindings.
+    fn print_in_scope(&mut self, bindings: &BindingList, term: &Rc<Term>) -> io::Result<()> {
+        let outer = self.bound_names.len();
+        self.bound_names
+            .extend(bindings.iter().map(|(name, _)| name.clone()));
+        term.print_with_sharing(self)?;
+        self.bound_names.truncate(outer);
+        Ok(())
+    }
+
+    /// Returns `true` if any of the free variables of the term is bound in the current scope.
+    fn uses_bound_names(&mut self, term: &Rc<Term>) -> bool {
+        !self.bound_names.is_empty()
+            && self.pool.free_vars(term).iter().any(|v| {
+                v.as_var()
+                    .is_some_and(|name| self.bound_names.iter().any(|n| n == name))
+            })
+    }
+
+    /// Marks all the names used in a proof as reserved, so that they are not given to shared terms.
+    fn reserve_names_in_proof(&mut self, proof: &Proof) {
+        if self.term_indices.is_none() {
+            return;
+        }
+        let mut seen = HashSet::new();
+        for (name, value) in &proof.constant_definitions {
+            self.reserved_names.insert(name.clone());
+            self.reserve_names(value, &mut seen);
+        }
+        for command in proof.iter() {
+            match command {
+                ProofCommand::Assume { term, .. } => self.reserve_names(term, &mut seen),
+                ProofCommand::Step(s) => {
+                    for term in s.clause.iter().chain(&s.args) {
+                        self.reserve_names(term, &mut seen);
+                    }
+                }
+                ProofCommand::Subproof(s) => {
+                    for arg in &s.args {
+                        let (AnchorArg::Variable((name, _)) | AnchorArg::Assign((name, _), _)) =
+                            arg;
+                        self.reserved_names.insert(name.clone());
+                        if let AnchorArg::Assign(_, value) = arg {
+                            self.reserve_names(value, &mut seen);
+                        }
+                    }
+                }
+            }
+        }
+    }
+
+    /// Marks all the names used in a term as reserved. This does nothing if sharing is disabled.
+    fn reserve_names<'t>(&mut self, term: &'t Rc<Term>, seen: &mut HashSet<&'t Rc<Term>>) {
+        if self.term_indices.is_none() || !seen.insert(term) {
+            return;
+        }
+        match term.as_ref() {
+            Term::Const(_) | Term::Sort(_) => (),
+            Term::Var(name, _) => {
+                self.reserved_names.insert(name.clone());
+            }
+            Term::App(func, args) => {
+                self.reserve_names(func, seen);
+                args.iter().for_each(|t| self.reserve_names(t, seen));
+            }
+            Term::Op(_, args) | Term::ParamOp { args, .. } => {
+                args.iter().for_each(|t| self.reserve_names(t, seen));
+            }
+            Term::Binder(_, bindings, inner) | Term::Let(bindings, inner) => {
+                for (name, value) in bindings {
+                    self.reserved_names.insert(name.clone());
+                    self.reserve_names(value, seen);
+                }
+                self.reserve_names(inner, seen);
+            }
+        }
+    }
+
     fn write_s_expr<H, T>(&mut self, head: &H, tail: &[T]) -> io::Result<()>
     where
         H: PrintWithSharing + ?Sized,
@@ -344,14 +459,14 @@ impl<'a> AlethePrinter<'a> {
                 write!(self.inner, "({} ", binder)?;
                 bindings.print_with_sharing(self)?;
                 write!(self.inner, " ")?;
-                term.print_with_sharing(self)?;
+                self.print_in_scope(bindings, term)?;
                 write!(self.inner, ")")
             }
             Term::Let(bindings, term) => {
                 write!(self.inner, "(let ")?;
                 bindings.print_with_sharing(self)?;
                 write!(self.inner, " ")?;
-                term.print_with_sharing(self)?;
+                self.print_in_scope(bindings, term)?;
                 write!(self.inner, ")")
             }
             // Constant arrays use the qualified operator syntax, `((as const <sort>) <term>)`
@@ -424,6 +539,10 @@ impl<'a> AlethePrinter<'a> {
     }
 
     fn write_lia_smt_instance(&mut self, clause: &[Rc<Term>]) -> io::Result<()> {
+        let mut seen = HashSet::new();
+        for term in clause {
+            self.reserve_names(term, &mut seen);
+        }
         for term in clause.iter().dedup() {
             write!(self.inner, "(assert (not ")?;
             term.print_with_sharing(self)?;
@@ -491,6 +610,8 @@ impl fmt::Display for Term {
             term_indices: use_sharing.then(IndexMap::new),
             term_sharing_variable_prefix: "@p_",
             global_vars: HashSet::new(),
+            reserved_names: HashSet::new(),
+            bound_names: Vec::new(),
             defined_constants: HashMap::new(),
             smt_lib_strict: false,
         };
-- 
2.43.0


From d223e89fc1c3297a9db831bbe0fdcaf73ad1bc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:13 +0000
Subject: [PATCH 56/94] fix: indices are integers even in logics that only have
 reals

---
 carcara/src/parser/mod.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index d424ea3..8980819 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -1540,6 +1540,17 @@ impl<'a, R: BufRead> Parser<'a, R> {
         Ok(inner)
     }
 
+    /// Parses an index of an indexed operator or sort. Unlike in other terms, numerals in indices
+    /// are always integers, even if the problem's logic only has real numbers.
+    fn parse_index(&mut self) -> CarcaraResult<Rc<Term>> {
+        if let Token::Numeral(n) = &self.current_token {
+            let index = Term::new_int(n.clone());
+            self.next_token()?;
+            return Ok(self.pool.add(index));
+        }
+        self.parse_term()
+    }
+
     fn parse_indexed_operator(&mut self) -> CarcaraResult<(ParamOperator, Vec<Rc<Term>>)> {
         let op_symbol = self.expect_symbol()?;
 
@@ -1553,7 +1564,7 @@ impl<'a, R: BufRead> Parser<'a, R> {
                     ))
                 }
             };
-            let args = self.parse_sequence(Self::parse_term, true)?;
+            let args = self.parse_sequence(Self::parse_index, true)?;
             let mut constant_args = Vec::new();
             for arg in args {
                 if let Some(i) = arg.as_signed_integer() {
@@ -1577,7 +1588,7 @@ impl<'a, R: BufRead> Parser<'a, R> {
                 self.current_position,
             )
         })?;
-        let args = self.parse_sequence(Self::parse_term, true)?;
+        let args = self.parse_sequence(Self::parse_index, true)?;
         let mut constant_args = Vec::new();
         for arg in args {
             if let Some(i) = arg.as_signed_integer() {
@@ -1986,7 +1997,7 @@ impl<'a, R: BufRead> Parser<'a, R> {
             Token::OpenParen if self.current_token == Token::ReservedWord(Reserved::Underscore) => {
                 self.next_token()?;
                 let name = self.expect_symbol()?;
-                let args = self.parse_sequence(Self::parse_term, true)?;
+                let args = self.parse_sequence(Self::parse_index, true)?;
                 return self
                     .make_indexed_sort(name, args)
                     .map_err(|e| Error::Parser(e, pos));
-- 
2.43.0


From d0272f9be93ac787b9bcab3a4cba3b420be11a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 57/94] fix: escape strings that would be read as escape
 sequences when printing

---
 carcara/src/ast/printer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index 6ee2bc2..5592b29 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -589,8 +589,10 @@ fn quote_symbol(symbol: &str) -> Cow<'_, str> {
 }
 
 fn escape_string(string: &str) -> Cow<'_, str> {
-    if string.contains('"') {
-        Cow::Owned(string.replace('"', "\"\""))
+    // A `\` that is followed by a `u` must also be escaped, because otherwise it could be read as
+    // the start of an escape sequence
+    if string.contains('"') || string.contains("\\u") {
+        Cow::Owned(string.replace('"', "\"\"").replace("\\u", "\\u{5c}u"))
     } else {
         Cow::Borrowed(string)
     }
-- 
2.43.0


From 158577f02a8e76226dde0ff2add2afd16ef036fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:33 +0000
Subject: [PATCH 58/94] fix: print the empty clause in arguments as (cl)

---
 carcara/src/ast/printer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index 5592b29..ec9740c 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -448,7 +448,7 @@ impl<'a> AlethePrinter<'a> {
             Term::Var(name, _) => write!(self.inner, "{}", quote_symbol(name)),
             Term::App(func, args) => self.write_s_expr(func, args),
             Term::Op(op, args) => {
-                if args.is_empty() {
+                if args.is_empty() && *op != Operator::Cl {
                     write!(self.inner, "{}", op)
                 } else {
                     self.write_s_expr(op, args)
-- 
2.43.0


From 5054e157341e6c2d74726cfdbc3c55532f56dc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:04 +0000
Subject: [PATCH 59/94] fix: panic when elaborating a subproof whose last step
 is preceded by an assumption or a subproof

---
 carcara/src/elaborator/subproof.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/carcara/src/elaborator/subproof.rs b/carcara/src/elaborator/subproof.rs
index 6610d20..0fdcaae 100644
--- a/carcara/src/elaborator/subproof.rs
+++ b/carcara/src/elaborator/subproof.rs
@@ -8,9 +8,7 @@ pub fn subproof(
 ) -> Result<Rc<ProofNode>, CheckerError> {
     let unchanged = || Ok(Rc::new(ProofNode::Step(step.clone())));
 
-    let previous_step = &step.previous_step.as_ref().unwrap().as_step().unwrap();
-
-    let [previous] = previous_step.clause.as_slice() else {
+    let [previous] = step.previous_step.as_ref().unwrap().clause() else {
         return unchanged();
     };
     let last_term = step.clause.last().unwrap();
-- 
2.43.0


From 5e6e4fb53dec96a0b3fbbc215854e6d1b4f89f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:22 +0000
Subject: [PATCH 60/94] fix: removal of reordering steps that are implicitly
 referenced, and panics when recomputing resolution conclusions

---
 carcara/src/elaborator/reordering.rs | 89 +++++++++++++++++++++-------
 1 file changed, 69 insertions(+), 20 deletions(-)

diff --git a/carcara/src/elaborator/reordering.rs b/carcara/src/elaborator/reordering.rs
index 6267e7f..5065890 100644
--- a/carcara/src/elaborator/reordering.rs
+++ b/carcara/src/elaborator/reordering.rs
@@ -1,25 +1,32 @@
 use super::*;
-use crate::utils::DedupIterator;
+use crate::utils::{DedupIterator, MultiSet, MultiSetDifference};
 
 pub fn remove_reorderings(proof: ProofNodeForest) -> ProofNodeForest {
+    // The last step of a subproof refers implicitly to the step before it, so a `reordering` step
+    // in that position must be kept
+    let mut implicitly_referenced = HashSet::new();
+    for root in &proof.0 {
+        find_implicitly_referenced(root, &mut implicitly_referenced);
+    }
+
     proof.mutate(|_, node, premises_changed| {
         let Some(step) = node.as_step() else {
             return node.clone();
         };
 
         // For reordering steps, we remove the step and return its only premise
-        if step.rule == "reordering" {
+        if step.rule == "reordering"
+            && !implicitly_referenced.contains(&(step.depth, step.id.clone()))
+        {
             return step.premises[0].clone();
         }
 
         // If the rule is order-sensitive, and any premise was modified, we recompute the conclusion
         if let Some(recompute) = get_recomputation_func(&step.rule) {
             if premises_changed {
-                let new = Rc::new(ProofNode::Step(StepNode {
-                    clause: recompute(step),
-                    ..step.clone()
-                }));
-                return new;
+                if let Some(clause) = recompute(step) {
+                    return Rc::new(ProofNode::Step(StepNode { clause, ..step.clone() }));
+                }
             }
         }
 
@@ -28,7 +35,33 @@ pub fn remove_reorderings(proof: ProofNodeForest) -> ProofNodeForest {
     })
 }
 
-type RecomputationFunc = fn(&StepNode) -> Vec<Rc<Term>>;
+fn find_implicitly_referenced(root: &Rc<ProofNode>, result: &mut HashSet<(usize, String)>) {
+    let mut seen: HashSet<&Rc<ProofNode>> = HashSet::new();
+    let mut todo = vec![root];
+    while let Some(node) = todo.pop() {
+        if !seen.insert(node) {
+            continue;
+        }
+        match node.as_ref() {
+            ProofNode::Assume { .. } => (),
+            ProofNode::Step(s) => {
+                if let Some(previous) = &s.previous_step {
+                    result.insert((previous.depth(), previous.id().to_owned()));
+                    todo.push(previous);
+                }
+                todo.extend(s.premises.iter().chain(&s.discharge));
+            }
+            ProofNode::Subproof(s) => {
+                todo.push(&s.last_step);
+                todo.extend(s.outbound_premises.iter().chain(&s.extra_steps));
+            }
+        }
+    }
+}
+
+/// Computes the new conclusion of a step whose premises changed, or `None` if the conclusion should
+/// stay as it is.
+type RecomputationFunc = fn(&StepNode) -> Option<Vec<Rc<Term>>>;
 
 fn get_recomputation_func(rule: &str) -> Option<RecomputationFunc> {
     Some(match rule {
@@ -39,20 +72,20 @@ fn get_recomputation_func(rule: &str) -> Option<RecomputationFunc> {
     })
 }
 
-fn recompute_weakening(step: &StepNode) -> Vec<Rc<Term>> {
+fn recompute_weakening(step: &StepNode) -> Option<Vec<Rc<Term>>> {
     let mut new = step.clause.clone();
     let premise = step.premises[0].clause();
     new[..premise.len()].clone_from_slice(premise);
-    new
+    Some(new)
 }
 
-fn recompute_contraction(step: &StepNode) -> Vec<Rc<Term>> {
+fn recompute_contraction(step: &StepNode) -> Option<Vec<Rc<Term>>> {
     let new: Vec<_> = step.premises[0].clause().iter().dedup().cloned().collect();
     assert_eq!(step.clause.len(), new.len());
-    new
+    Some(new)
 }
 
-fn recompute_resolution(step: &StepNode) -> Vec<Rc<Term>> {
+fn recompute_resolution(step: &StepNode) -> Option<Vec<Rc<Term>>> {
     let premise_clauses: Vec<_> = step.premises.iter().map(|p| p.clause()).collect();
     let pivots: Vec<_> = step
         .args
@@ -63,12 +96,26 @@ fn recompute_resolution(step: &StepNode) -> Vec<Rc<Term>> {
             (pivot, polarity)
         })
         .collect();
-    apply_naive_resolution(&premise_clauses, &pivots)
+    let new = apply_naive_resolution(&premise_clauses, &pivots)?;
+
+    // If the step was not uncrowded, its conclusion may have been contracted, or may not list the
+    // literals in the order they are derived. In that case, the order of the literals in the
+    // premises is not important
+    let literals: MultiSet<_> = new.iter().collect();
+    let old_literals: MultiSet<_> = step.clause.iter().collect();
+    match literals.symmetric_difference(&old_literals) {
+        MultiSetDifference::None => Some(new),
+        _ => None,
+    }
 }
 
-fn apply_naive_resolution(premises: &[&[Rc<Term>]], pivots: &[(&Rc<Term>, bool)]) -> Vec<Rc<Term>> {
-    assert!(premises.len() >= 2);
-    assert_eq!(pivots.len(), premises.len() - 1);
+fn apply_naive_resolution(
+    premises: &[&[Rc<Term>]],
+    pivots: &[(&Rc<Term>, bool)],
+) -> Option<Vec<Rc<Term>>> {
+    if premises.len() < 2 || pivots.len() != premises.len() - 1 {
+        return None;
+    }
 
     let mut current = premises[0].to_vec();
 
@@ -81,7 +128,7 @@ fn apply_naive_resolution(premises: &[&[Rc<Term>]], pivots: &[(&Rc<Term>, bool)]
             }
         };
 
-        let pos = current.iter().position(|x| is_pivot(x, true)).unwrap();
+        let pos = current.iter().position(|x| is_pivot(x, true))?;
         current.remove(pos);
 
         let mut found = false;
@@ -92,8 +139,10 @@ fn apply_naive_resolution(premises: &[&[Rc<Term>]], pivots: &[(&Rc<Term>, bool)]
                 current.push(t.clone());
             }
         }
-        assert!(found);
+        if !found {
+            return None;
+        }
     }
 
-    current
+    Some(current)
 }
-- 
2.43.0


From d1088d240ade212acac3a14cf1489b2a733ff7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:39 +0000
Subject: [PATCH 61/94] fix: panics when uncrowding resolution steps that can't
 be uncrowded

---
 carcara/src/elaborator/uncrowding.rs | 63 ++++++++++++++++++----------
 1 file changed, 41 insertions(+), 22 deletions(-)

diff --git a/carcara/src/elaborator/uncrowding.rs b/carcara/src/elaborator/uncrowding.rs
index 4bf64f5..c4dbf1c 100644
--- a/carcara/src/elaborator/uncrowding.rs
+++ b/carcara/src/elaborator/uncrowding.rs
@@ -34,13 +34,17 @@ impl<'a> ResolutionPremise<'a> {
     }
 }
 
-fn apply_naive_resolution<'a>(premises: &[ResolutionPremise<'a>]) -> Vec<Literal<'a>> {
-    assert!(premises.len() >= 2);
+/// Applies the resolution steps in order, without merging equal literals. Returns `None` if some
+/// pivot is not present when it should be eliminated.
+fn apply_naive_resolution<'a>(premises: &[ResolutionPremise<'a>]) -> Option<Vec<Literal<'a>>> {
+    if premises.len() < 2 {
+        return None;
+    }
 
     let mut current = premises[0].clause.clone();
 
     for ResolutionPremise { clause, pivot, .. } in &premises[1..] {
-        let (pivot, polarity) = pivot.unwrap();
+        let (pivot, polarity) = (*pivot)?;
 
         let negated_pivot = (pivot.0 + 1, pivot.1);
         let (pivot_in_current, pivot_in_next) = if polarity {
@@ -49,7 +53,7 @@ fn apply_naive_resolution<'a>(premises: &[ResolutionPremise<'a>]) -> Vec<Literal
             (negated_pivot, pivot)
         };
 
-        let pos = current.iter().position(|x| x == &pivot_in_current).unwrap();
+        let pos = current.iter().position(|x| x == &pivot_in_current)?;
         current.remove(pos);
 
         let mut found = false;
@@ -60,22 +64,36 @@ fn apply_naive_resolution<'a>(premises: &[ResolutionPremise<'a>]) -> Vec<Literal
                 current.push(t);
             }
         }
-        assert!(found);
+        if !found {
+            return None;
+        }
     }
 
-    current
+    Some(current)
 }
 
+/// Uncrowds a resolution step. If the conclusion of the step cannot be derived by a chain of
+/// resolution, contraction, weakening and reordering steps from its premises, in order, the step is
+/// left unchanged.
 pub fn uncrowd_resolution(
     pool: &mut PrimitivePool,
     step: &StepNode,
     rotate_premises: bool,
 ) -> Rc<ProofNode> {
+    try_uncrowd_resolution(pool, step, rotate_premises)
+        .unwrap_or_else(|| Rc::new(ProofNode::Step(step.clone())))
+}
+
+fn try_uncrowd_resolution(
+    pool: &mut PrimitivePool,
+    step: &StepNode,
+    rotate_premises: bool,
+) -> Option<Rc<ProofNode>> {
     let target_conclusion: HashSet<_> = step.clause.iter().map(Rc::remove_all_negations).collect();
 
     let mut premises = ResolutionPremise::from_step(step);
 
-    let naive_conclusion = apply_naive_resolution(&premises);
+    let naive_conclusion = apply_naive_resolution(&premises)?;
 
     let mut literals_info =
         find_crowding_literals(&naive_conclusion, &target_conclusion, &premises);
@@ -102,7 +120,7 @@ pub fn uncrowd_resolution(
             step.depth,
             &premises[previous_cut..cut],
             &step.clause,
-        );
+        )?;
         premises[cut - 1] = ResolutionPremise { node, clause, pivot: None };
         previous_cut = cut - 1;
     }
@@ -110,7 +128,7 @@ pub fn uncrowd_resolution(
     let mut final_step = premises[previous_cut].node.as_step().unwrap().clone();
 
     if final_step.clause.len() != step.clause.len() {
-        let clause = get_weakening_clause(&final_step.clause, &step.clause);
+        let clause = get_weakening_clause(&final_step.clause, &step.clause)?;
         final_step = StepNode {
             id: ids.next_id(),
             depth: step.depth,
@@ -123,7 +141,9 @@ pub fn uncrowd_resolution(
 
     // We might need to add a reordering step
     if final_step.clause != step.clause {
-        assert!(final_step.clause.iter().collect::<HashSet<_>>() == step.clause.iter().collect());
+        if final_step.clause.iter().collect::<HashSet<_>>() != step.clause.iter().collect() {
+            return None;
+        }
         final_step = StepNode {
             id: ids.next_id(),
             depth: step.depth,
@@ -137,7 +157,7 @@ pub fn uncrowd_resolution(
     // To make sure elaboration is idempotent, we need to change the last id to match the original
     // step's id
     final_step.id = step.id.clone();
-    Rc::new(ProofNode::Step(final_step))
+    Some(Rc::new(ProofNode::Step(final_step)))
 }
 
 fn add_partial_resolution_step<'a>(
@@ -146,8 +166,8 @@ fn add_partial_resolution_step<'a>(
     depth: usize,
     premises: &[ResolutionPremise<'a>],
     final_target: &[Rc<Term>],
-) -> (Rc<ProofNode>, Vec<Literal<'a>>) {
-    let conclusion = apply_naive_resolution(premises);
+) -> Option<(Rc<ProofNode>, Vec<Literal<'a>>)> {
+    let conclusion = apply_naive_resolution(premises)?;
     let contracted_conclusion: Vec<_> = conclusion.iter().dedup().copied().collect();
 
     let needs_contraction = contracted_conclusion.len() != conclusion.len();
@@ -172,7 +192,7 @@ fn add_partial_resolution_step<'a>(
     }));
 
     if resolution_step.clause() == final_target {
-        return (resolution_step, conclusion);
+        return Some((resolution_step, conclusion));
     }
 
     if needs_contraction {
@@ -187,25 +207,24 @@ fn add_partial_resolution_step<'a>(
             discharge: Vec::new(),
             previous_step: None,
         }));
-        (contraction_step, contracted_conclusion)
+        Some((contraction_step, contracted_conclusion))
     } else {
-        (resolution_step, conclusion)
+        Some((resolution_step, conclusion))
     }
 }
 
-fn get_weakening_clause(current: &[Rc<Term>], target: &[Rc<Term>]) -> Vec<Rc<Term>> {
+fn get_weakening_clause(current: &[Rc<Term>], target: &[Rc<Term>]) -> Option<Vec<Rc<Term>>> {
     let mut missing: MultiSet<_> = target.iter().collect();
     for term in current {
-        assert!(
-            missing.get(&term) != 0,
-            "current clause is not a subset of target clause!"
-        );
+        if missing.get(&term) == 0 {
+            return None;
+        }
         missing.remove(term);
     }
 
     let mut result = current.to_vec();
     result.extend(missing.into_iter().cloned());
-    result
+    Some(result)
 }
 
 #[derive(Debug, Default, Clone, Copy, PartialEq, Eq)]
-- 
2.43.0


From 500e6b8be718a006a2fa89764e29453dcbe5b469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:55 +0000
Subject: [PATCH 62/94] fix: panic when elaborating resolution steps for which
 no pivots are found

---
 carcara/src/elaborator/resolution.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/carcara/src/elaborator/resolution.rs b/carcara/src/elaborator/resolution.rs
index bccf76f..8e47314 100644
--- a/carcara/src/elaborator/resolution.rs
+++ b/carcara/src/elaborator/resolution.rs
@@ -54,12 +54,22 @@ pub fn resolution(
     let mut premises: Vec<_> = step.premises.iter().dedup().cloned().collect();
     let premise_clauses: Vec<_> = premises.iter().map(|p| p.clause()).collect();
 
-    let ResolutionTrace { not_not_added, pivot_trace } =
-        greedy_resolution(&step.clause, &premise_clauses, pool, true).or_else(|_| {
-            premises.reverse();
-            let premise_clauses: Vec<_> = premises.iter().map(|p| p.clause()).collect();
-            greedy_resolution(&step.clause, &premise_clauses, pool, true)
-        })?;
+    let trace = greedy_resolution(&step.clause, &premise_clauses, pool, true).or_else(|_| {
+        premises.reverse();
+        let premise_clauses: Vec<_> = premises.iter().map(|p| p.clause()).collect();
+        greedy_resolution(&step.clause, &premise_clauses, pool, true)
+    });
+
+    // Some steps are only accepted by the checker because their conclusion follows from their
+    // premises by reverse unit propagation. For these, we don't know which pivots to use, so we
+    // can't elaborate them. The same is true if the pivots that were found do not result in a
+    // resolution step between all of the premises
+    let Ok(ResolutionTrace { not_not_added, pivot_trace }) = trace else {
+        return Ok(Rc::new(ProofNode::Step(step.clone())));
+    };
+    if premises.len() < 2 || pivot_trace.len() != premises.len() - 1 {
+        return Ok(Rc::new(ProofNode::Step(step.clone())));
+    }
 
     let pivots = pivot_trace
         .into_iter()
-- 
2.43.0


From 68478f28af55d853d8b7e1c7b9e2aa6c6205283b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:11 +0000
Subject: [PATCH 63/94] fix: panic when elaborating polyequalities between
 choice or lambda terms

---
 carcara/src/elaborator/polyeq.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/carcara/src/elaborator/polyeq.rs b/carcara/src/elaborator/polyeq.rs
index f4885d9..646642d 100644
--- a/carcara/src/elaborator/polyeq.rs
+++ b/carcara/src/elaborator/polyeq.rs
@@ -90,14 +90,6 @@ impl<'a> PolyeqElaborator<'a> {
                 }
             }
 
-            // Since `choice` and `lambda` terms are not in the SMT-LIB standard, they cannot appear
-            // in the premises of a proof, so we would never need to elaborate polyequalities that
-            // use these terms.
-            (Term::Binder(b @ (Binder::Choice | Binder::Lambda), _, _), _)
-            | (_, Term::Binder(b @ (Binder::Choice | Binder::Lambda), _, _)) => {
-                log::error!("Trying to elaborate polyequality between `{b}` terms");
-                panic!()
-            }
             (Term::Binder(a_q, a_bindings, a_inner), Term::Binder(b_q, b_bindings, b_inner)) => {
                 assert_eq!(a_q, b_q);
 
-- 
2.43.0


From 4b7d86038e924e2bf67e67ddf6d5690cc718dec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:25 +0000
Subject: [PATCH 64/94] fix: order of the premises when elaborating
 left-associative n-ary terms

---
 carcara/src/elaborator/polyeq.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/carcara/src/elaborator/polyeq.rs b/carcara/src/elaborator/polyeq.rs
index 646642d..628c342 100644
--- a/carcara/src/elaborator/polyeq.rs
+++ b/carcara/src/elaborator/polyeq.rs
@@ -402,6 +402,9 @@ impl<'a> PolyeqElaborator<'a> {
 
         if op.nary_case() == Some(NaryCase::RightAssoc) {
             normalized_args.reverse();
+        } else {
+            // The premises were collected starting from the last argument
+            premises.reverse();
         }
 
         let nary = pool.add(Term::Op(op, nary.to_vec()));
-- 
2.43.0


From a641a1d2c7f02dc6bafeed8d20c8f770841ad4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:39 +0000
Subject: [PATCH 65/94] fix: panic when elaborating resolution steps with an
 implicit double negation in a repeated literal

---
 carcara/src/elaborator/resolution.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/carcara/src/elaborator/resolution.rs b/carcara/src/elaborator/resolution.rs
index 8e47314..ff34e10 100644
--- a/carcara/src/elaborator/resolution.rs
+++ b/carcara/src/elaborator/resolution.rs
@@ -70,6 +70,9 @@ pub fn resolution(
     if premises.len() < 2 || pivot_trace.len() != premises.len() - 1 {
         return Ok(Rc::new(ProofNode::Step(step.clone())));
     }
+    if not_not_added && step.clause.len() != 1 {
+        return Ok(Rc::new(ProofNode::Step(step.clone())));
+    }
 
     let pivots = pivot_trace
         .into_iter()
-- 
2.43.0


From 9782925fd051a2f2dabc710127184b8f75b44876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:33 +0000
Subject: [PATCH 66/94] fix: uncrowding resolution steps when a pivot appears
 more than once, or when the first premise would be moved

---
 carcara/src/elaborator/uncrowding.rs | 42 ++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/carcara/src/elaborator/uncrowding.rs b/carcara/src/elaborator/uncrowding.rs
index c4dbf1c..7d30e29 100644
--- a/carcara/src/elaborator/uncrowding.rs
+++ b/carcara/src/elaborator/uncrowding.rs
@@ -67,11 +67,42 @@ fn apply_naive_resolution<'a>(premises: &[ResolutionPremise<'a>]) -> Option<Vec<
         if !found {
             return None;
         }
+
+        // When checking the step, equal literals are merged, so they are all eliminated at once
     }
 
     Some(current)
 }
 
+/// Returns `true` if applying the resolution steps in order, merging equal literals, results in the
+/// same literals as `conclusion`.
+fn is_valid_with_merging(premises: &[ResolutionPremise], conclusion: &[Literal]) -> bool {
+    let mut current: HashSet<Literal> = premises[0].clause.iter().copied().collect();
+    for ResolutionPremise { clause, pivot, .. } in &premises[1..] {
+        let Some((pivot, polarity)) = *pivot else {
+            return false;
+        };
+        let negated_pivot = (pivot.0 + 1, pivot.1);
+        let (pivot_in_current, pivot_in_next) = if polarity {
+            (pivot, negated_pivot)
+        } else {
+            (negated_pivot, pivot)
+        };
+        if !current.remove(&pivot_in_current) {
+            return false;
+        }
+        let mut found = false;
+        for &t in clause {
+            if !found && t == pivot_in_next {
+                found = true;
+            } else {
+                current.insert(t);
+            }
+        }
+    }
+    current == conclusion.iter().copied().collect()
+}
+
 /// Uncrowds a resolution step. If the conclusion of the step cannot be derived by a chain of
 /// resolution, contraction, weakening and reordering steps from its premises, in order, the step is
 /// left unchanged.
@@ -100,6 +131,10 @@ fn try_uncrowd_resolution(
 
     if rotate_premises {
         premises = reorder_premises(&literals_info, premises);
+        // The first premise is the only one with no pivot, so it must not be moved
+        if premises[1..].iter().any(|p| p.pivot.is_none()) {
+            return None;
+        }
         // Since the premises changed, we recompute the literals info. In theory it might be more
         // efficient to do this as we reorder the premises, but it's very tricky and bug-prone.
         literals_info = find_crowding_literals(&naive_conclusion, &target_conclusion, &premises);
@@ -168,6 +203,13 @@ fn add_partial_resolution_step<'a>(
     final_target: &[Rc<Term>],
 ) -> Option<(Rc<ProofNode>, Vec<Literal<'a>>)> {
     let conclusion = apply_naive_resolution(premises)?;
+
+    // When the step is checked, equal literals are merged, and therefore they are all eliminated at
+    // once. If this would result in a different clause, the step would not be accepted
+    if !is_valid_with_merging(premises, &conclusion) {
+        return None;
+    }
+
     let contracted_conclusion: Vec<_> = conclusion.iter().dedup().copied().collect();
 
     let needs_contraction = contracted_conclusion.len() != conclusion.len();
-- 
2.43.0


From 62e2e199b0349bedcb78ed3ed1b5c0519c31fc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:50 +0000
Subject: [PATCH 67/94] fix: elaborating assumptions where an equality is
 reordered and its sides differ in n-ary terms

---
 carcara/src/elaborator/polyeq.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/carcara/src/elaborator/polyeq.rs b/carcara/src/elaborator/polyeq.rs
index 628c342..429ee29 100644
--- a/carcara/src/elaborator/polyeq.rs
+++ b/carcara/src/elaborator/polyeq.rs
@@ -20,6 +20,7 @@ impl<'a> PolyeqElaborator<'a> {
             cache: HashMapStack::new(),
             checker: Polyeq::new()
                 .mod_reordering(true)
+                .mod_nary(true)
                 .alpha_equiv(is_alpha_equivalence),
             context: is_alpha_equivalence.then(ContextStack::new),
         }
-- 
2.43.0


From f9f7bed3498aa6f0b02ff2dd2894d24470237f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:09 +0000
Subject: [PATCH 68/94] fix: elaborating resolution steps into steps with
 invalid pivots or repeated ids

---
 carcara/src/elaborator/resolution.rs | 55 ++++++++++++++++++++++++++--
 1 file changed, 51 insertions(+), 4 deletions(-)

diff --git a/carcara/src/elaborator/resolution.rs b/carcara/src/elaborator/resolution.rs
index ff34e10..9612cb2 100644
--- a/carcara/src/elaborator/resolution.rs
+++ b/carcara/src/elaborator/resolution.rs
@@ -70,7 +70,19 @@ pub fn resolution(
     if premises.len() < 2 || pivot_trace.len() != premises.len() - 1 {
         return Ok(Rc::new(ProofNode::Step(step.clone())));
     }
-    if not_not_added && step.clause.len() != 1 {
+    let conclusion = if not_not_added {
+        // In this case, we only support the conclusion being the resulting term with two negations
+        // added
+        match step.clause.as_slice() {
+            [t] => t.remove_negation().and_then(Rc::remove_negation),
+            _ => None,
+        }
+        .map(std::slice::from_ref)
+    } else {
+        Some(step.clause.as_slice())
+    };
+    let premise_clauses: Vec<_> = premises.iter().map(|p| p.clause()).collect();
+    if !conclusion.is_some_and(|c| is_valid_trace(&premise_clauses, &pivot_trace, c)) {
         return Ok(Rc::new(ProofNode::Step(step.clone())));
     }
 
@@ -102,10 +114,10 @@ pub fn resolution(
         // which will become:
         //
         // ```
-        // (step t1 (cl c) :rule resolution :premises ...)
+        // (step t1.t1 (cl c) :rule resolution :premises ...)
         // (step t1.t2 (cl (not (not (not (not c)))) (not c)) :rule not_not)
         // (step t1.t3 (cl (not (not (not (not (not c))))) (not (not c))) :rule not_not)
-        // (step t1.t4 (cl (not (not c))) :rule resolution :premises (t1 t1.t2 t1.t3)
+        // (step t1 (cl (not (not c))) :rule resolution :premises (t1.t1 t1.t2 t1.t3)
         //     :args (c true (not (not (not (not c)))) true))
         // ```
 
@@ -118,6 +130,7 @@ pub fn resolution(
         let quintuple_not_c = build_term!(pool, (not {quadruple_not_c.clone()}));
 
         // First, we change the conclusion of the resolution step
+        resolution_step.id = ids.next_id();
         resolution_step.clause = vec![c.clone()];
         let resolution_step = Rc::new(ProofNode::Step(resolution_step));
 
@@ -145,7 +158,7 @@ pub fn resolution(
             .collect();
 
         Ok(Rc::new(ProofNode::Step(StepNode {
-            id: ids.next_id(),
+            id: step.id.clone(),
             depth: step.depth,
             clause: vec![double_not_c],
             rule: "resolution".to_owned(),
@@ -157,3 +170,37 @@ pub fn resolution(
         Ok(Rc::new(ProofNode::Step(resolution_step)))
     }
 }
+
+/// Returns `true` if resolving the premises in order with the given pivots, merging equal literals,
+/// results in exactly the literals in `conclusion`.
+fn is_valid_trace(
+    premises: &[&[Rc<Term>]],
+    pivots: &[(Rc<Term>, bool)],
+    conclusion: &[Rc<Term>],
+) -> bool {
+    let mut current: HashSet<Literal> = premises[0].iter().map(Rc::remove_all_negations).collect();
+    for (premise, (pivot, polarity)) in premises[1..].iter().zip(pivots) {
+        let pivot = pivot.remove_all_negations();
+        let negated_pivot = (pivot.0 + 1, pivot.1);
+        let (pivot_in_current, pivot_in_next) = if *polarity {
+            (pivot, negated_pivot)
+        } else {
+            (negated_pivot, pivot)
+        };
+        if !current.remove(&pivot_in_current) {
+            return false;
+        }
+        let mut found = false;
+        for literal in premise.iter().map(Rc::remove_all_negations) {
+            if !found && literal == pivot_in_next {
+                found = true;
+            } else {
+                current.insert(literal);
+            }
+        }
+        if !found {
+            return false;
+        }
+    }
+    current == conclusion.iter().map(Rc::remove_all_negations).collect()
+}
-- 
2.43.0


From a90363b00c69190668b68c98fbc0b76f19c2b3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:23 +0000
Subject: [PATCH 69/94] fix: elaboration panics on contraction steps that keep
 repeated literals

---
 carcara/src/elaborator/reordering.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/carcara/src/elaborator/reordering.rs b/carcara/src/elaborator/reordering.rs
index 5065890..eb12ef8 100644
--- a/carcara/src/elaborator/reordering.rs
+++ b/carcara/src/elaborator/reordering.rs
@@ -81,8 +81,10 @@ fn recompute_weakening(step: &StepNode) -> Option<Vec<Rc<Term>>> {
 
 fn recompute_contraction(step: &StepNode) -> Option<Vec<Rc<Term>>> {
     let new: Vec<_> = step.premises[0].clause().iter().dedup().cloned().collect();
-    assert_eq!(step.clause.len(), new.len());
-    Some(new)
+
+    // The conclusion may keep some of the repeated literals. In that case, we can't tell which ones
+    // were removed, but the rule is valid no matter the order of the literals
+    (step.clause.len() == new.len()).then_some(new)
 }
 
 fn recompute_resolution(step: &StepNode) -> Option<Vec<Rc<Term>>> {
-- 
2.43.0


From 21c799c8fec1bdcaafd4f17a11463ca1e8223e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:36 +0000
Subject: [PATCH 70/94] fix: equalities between identical terms elaborated into
 cong steps with no premises

---
 carcara/src/elaborator/polyeq.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/carcara/src/elaborator/polyeq.rs b/carcara/src/elaborator/polyeq.rs
index 429ee29..9721c54 100644
--- a/carcara/src/elaborator/polyeq.rs
+++ b/carcara/src/elaborator/polyeq.rs
@@ -228,7 +228,7 @@ impl<'a> PolyeqElaborator<'a> {
         (a_args, b_args): (&[Rc<Term>], &[Rc<Term>]),
     ) -> Rc<ProofNode> {
         let clause = vec![build_term!(pool, (= {a.clone()} {b.clone()}))];
-        let premises = a_args
+        let premises: Vec<_> = a_args
             .iter()
             .zip(b_args)
             .filter_map(|(a, b)| {
@@ -240,6 +240,18 @@ impl<'a> PolyeqElaborator<'a> {
             })
             .collect();
 
+        // The terms may be identical, but not directly equal, if applying the context renames one
+        // of their bound variables. As a `cong` step can't have no premises, we use `eq_reflexive`
+        if premises.is_empty() {
+            return Rc::new(ProofNode::Step(StepNode {
+                id: self.ids.next_id(),
+                depth: self.depth(),
+                clause,
+                rule: "eq_reflexive".to_owned(),
+                ..Default::default()
+            }));
+        }
+
         Rc::new(ProofNode::Step(StepNode {
             id: self.ids.next_id(),
             depth: self.depth(),
-- 
2.43.0


From 24f2f20a40efaf642595e9d9e15b9cf88f876265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:30 +0000
Subject: [PATCH 71/94] fix: eq_congruent elaboration fails if a flipped
 premise is also given in the other direction

---
 carcara/src/elaborator/congruence.rs | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/carcara/src/elaborator/congruence.rs b/carcara/src/elaborator/congruence.rs
index c32e1e7..2e2fa92 100644
--- a/carcara/src/elaborator/congruence.rs
+++ b/carcara/src/elaborator/congruence.rs
@@ -318,22 +318,15 @@ pub fn eq_congruent(
         resolution_args.extend([t_eq_u, pool.bool_false()]);
     }
 
-    // (3) Next, we create the resolution step.
-    let resolution_clause: Vec<_> = {
-        flipped.push(false); // Add an extra `false` for the conclusion term
-
-        // The conclusion of the resolution step will be, first, all terms which are not flipped
-        // premises
-        step.clause
-            .iter()
-            .enumerate()
-            .filter(|(i, _)| !flipped[*i])
-            // ...followed by the flipped premises, which are added by resolution
-            .chain(step.clause.iter().enumerate().filter(|(i, _)| flipped[*i]))
-            .map(|(_, t)| t.clone())
-            .dedup() // ...with duplicates removed
-            .collect()
-    };
+    // (3) Next, we create the resolution step. Each `equiv1` step eliminates a literal of the fixed
+    // `eq_congruent` step, and introduces the original flipped premise. Note that the eliminated
+    // literal may also be one of the other premises.
+    let mut resolution_clause = resolution_premises[0].clause().to_vec();
+    for equiv_1 in &resolution_premises[1..] {
+        let (introduced, eliminated) = (&equiv_1.clause()[0], &equiv_1.clause()[1]);
+        resolution_clause.retain(|t| t.remove_negation() != Some(eliminated) && t != introduced);
+        resolution_clause.push(introduced.clone());
+    }
 
     // If there are any duplicate premises, they were omitted in the resolution clause. We will add
     // them back with a `weakening` step.
-- 
2.43.0


From cbf7bf3b6132c92be2c1538a07dd5cd64d9be254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:43 +0000
Subject: [PATCH 72/94] fix: elaboration panics on polyequal applications of
 indexed operators

---
 carcara/src/elaborator/polyeq.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/carcara/src/elaborator/polyeq.rs b/carcara/src/elaborator/polyeq.rs
index 9721c54..c3472ea 100644
--- a/carcara/src/elaborator/polyeq.rs
+++ b/carcara/src/elaborator/polyeq.rs
@@ -91,6 +91,23 @@ impl<'a> PolyeqElaborator<'a> {
                 }
             }
 
+            (
+                Term::ParamOp {
+                    op: a_op,
+                    op_args: a_op_args,
+                    args: a_args,
+                },
+                Term::ParamOp {
+                    op: b_op,
+                    op_args: b_op_args,
+                    args: b_args,
+                },
+            ) => {
+                assert_eq!((a_op, a_op_args), (b_op, b_op_args));
+                assert_eq!(a_args.len(), b_args.len());
+                self.build_cong(pool, (&a, &b), (a_args, b_args))
+            }
+
             (Term::Binder(a_q, a_bindings, a_inner), Term::Binder(b_q, b_bindings, b_inner)) => {
                 assert_eq!(a_q, b_q);
 
-- 
2.43.0


From 715f43d94b243ef4e9f1e6c8bb079ff0a87795d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 73/94] fix: elaboration reuses equalities derived outside of a
 binder that binds their variables again

---
 carcara/src/elaborator/polyeq.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/carcara/src/elaborator/polyeq.rs b/carcara/src/elaborator/polyeq.rs
index c3472ea..0103a89 100644
--- a/carcara/src/elaborator/polyeq.rs
+++ b/carcara/src/elaborator/polyeq.rs
@@ -8,6 +8,8 @@ pub(super) struct PolyeqElaborator<'a> {
     ids: &'a mut IdHelper,
     root_depth: usize,
     cache: HashMapStack<(Rc<Term>, Rc<Term>), Rc<ProofNode>>,
+    /// For each open subproof, the variables that are introduced by it.
+    scopes: Vec<HashSet<Rc<Term>>>,
     checker: Polyeq,
     context: Option<ContextStack>,
 }
@@ -18,6 +20,7 @@ impl<'a> PolyeqElaborator<'a> {
             ids: id_helper,
             root_depth,
             cache: HashMapStack::new(),
+            scopes: Vec::new(),
             checker: Polyeq::new()
                 .mod_reordering(true)
                 .mod_nary(true)
@@ -35,8 +38,19 @@ impl<'a> PolyeqElaborator<'a> {
         b: Rc<Term>,
     ) -> Rc<ProofNode> {
         let key = (a, b);
-        if let Some(p) = self.cache.get(&key) {
-            return p.clone();
+        if let Some((cache_depth, p)) = self.cache.get_with_depth(&key) {
+            let p = p.clone();
+
+            // If the variables in these terms were bound again since the equality was derived, the
+            // old step can't be used here
+            let is_rebound = self.scopes[cache_depth..].iter().any(|vars| {
+                [&key.0, &key.1]
+                    .into_iter()
+                    .any(|t| pool.free_vars(t).iter().any(|v| vars.contains(v)))
+            });
+            if !is_rebound {
+                return p;
+            }
         }
         // We have to do this to avoid moving `a` and `b` when calling `self.cache.get`
         let (a, b) = key.clone();
@@ -149,7 +163,7 @@ impl<'a> PolyeqElaborator<'a> {
                     }
                 };
 
-                self.open_subproof();
+                self.open_subproof(pool, &args);
                 let previous = self.create_bind_subproof(pool, (a_inner.clone(), b_inner.clone()));
 
                 if let Some(c) = &mut self.context {
@@ -190,7 +204,7 @@ impl<'a> PolyeqElaborator<'a> {
                     })
                     .collect();
 
-                self.open_subproof();
+                self.open_subproof(pool, &args);
                 let previous = self.create_bind_subproof(pool, (a_inner.clone(), b_inner.clone()));
                 let last_step = StepNode {
                     id: String::new(), // this will be overwritten later
@@ -351,8 +365,12 @@ impl<'a> PolyeqElaborator<'a> {
         add_trans_step(pool, [cong_step, equiv_step], self.ids.next_id())
     }
 
-    fn open_subproof(&mut self) {
+    fn open_subproof(&mut self, pool: &mut PrimitivePool, args: &[AnchorArg]) {
         self.cache.push_scope();
+        let variables = args.iter().map(|arg| match arg {
+            AnchorArg::Variable(var) | AnchorArg::Assign(var, _) => pool.add(var.clone().into()),
+        });
+        self.scopes.push(variables.collect());
         self.ids.push();
     }
 
@@ -363,6 +381,7 @@ impl<'a> PolyeqElaborator<'a> {
         outbound_premises: Vec<Rc<ProofNode>>,
     ) -> Rc<ProofNode> {
         self.cache.pop_scope();
+        self.scopes.pop();
         self.ids.pop();
 
         // We overwrite the last step id to be correct in relation to the outer subproof
-- 
2.43.0


From 7528fd8b2d6cea795c0cee3037b72ed335f25cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:45 +0000
Subject: [PATCH 74/94] fix: drup and drat depend on the order of the literals
 in a clause

---
 carcara/src/drup.rs | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/carcara/src/drup.rs b/carcara/src/drup.rs
index 6c0720a..f56306c 100644
--- a/carcara/src/drup.rs
+++ b/carcara/src/drup.rs
@@ -54,7 +54,15 @@ pub fn hash_term<T: Borrow<Rc<Term>>>(pool: &mut dyn TermPool, term: T) -> u64 {
     };
 
     let mut s = DefaultHasher::new();
-    term.hash(&mut s);
+    if let Some(literals) = match_term!((cl ...) = term) {
+        // Clauses are sets of literals, so the order of the literals and repetitions don't matter
+        let mut hashes: Vec<_> = literals.iter().map(|l| hash_term(pool, l)).collect();
+        hashes.sort_unstable();
+        hashes.dedup();
+        hashes.hash(&mut s);
+    } else {
+        term.hash(&mut s);
+    }
     s.finish()
 }
 
@@ -216,6 +224,8 @@ pub fn check_drup(
     args: &[Rc<Term>],
     check_rat: bool,
 ) -> Result<DRupStory, DrupFormatError> {
+    // A clause may be present more than once, in which case deleting it only removes one copy
+    let mut num_copies: HashMap<u64, usize> = HashMap::new();
     let mut premises: HashMap<u64, _> = premises
         .iter()
         .map(|p| {
@@ -229,7 +239,9 @@ pub fn check_drup(
                 let (polarity, new_term) = term.remove_all_negations_with_polarity();
                 indexset.insert((polarity, (*new_term).clone()));
             }
-            (hash_term(pool, p), indexset)
+            let key = hash_term(pool, p);
+            *num_copies.entry(key).or_default() += 1;
+            (key, indexset)
         })
         .collect();
 
@@ -237,7 +249,14 @@ pub fn check_drup(
     for t in args {
         if let Some(terms) = match_term!((delete (cl ...)) = &t) {
             let clause_term = build_term!(pool, (cl[terms.to_vec()]));
-            premises.remove(&hash_term(pool, &clause_term));
+            let key = hash_term(pool, &clause_term);
+            if let Some(n) = num_copies.get_mut(&key) {
+                *n -= 1;
+                if *n == 0 {
+                    num_copies.remove(&key);
+                    premises.remove(&key);
+                }
+            }
             drup_history.push(DRupProofAction::Delete(clause_term));
             continue;
         }
@@ -269,7 +288,9 @@ pub fn check_drup(
             unit_history.unwrap(),
         ));
 
-        premises.insert(hash_term(pool, t), terms_indexed_set);
+        let key = hash_term(pool, t);
+        *num_copies.entry(key).or_default() += 1;
+        premises.insert(key, terms_indexed_set);
     }
 
     if !premises.contains_key(&hash_term(pool, conclusion)) {
-- 
2.43.0


From d2675dab375dca044eb8f2d25eea8df6149eb3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:41 +0000
Subject: [PATCH 75/94] fix: slice forgets assumptions that come after the
 first step

---
 carcara/src/slice.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/carcara/src/slice.rs b/carcara/src/slice.rs
index 31f46bf..366d2f3 100644
--- a/carcara/src/slice.rs
+++ b/carcara/src/slice.rs
@@ -344,9 +344,8 @@ pub fn slice(
     let mut asserts = Vec::new();
 
     for command in &new_proof.commands {
-        match command {
-            ProofCommand::Assume { term, .. } => asserts.push(term.clone()),
-            _ => break,
+        if let ProofCommand::Assume { term, .. } = command {
+            asserts.push(term.clone());
         }
     }
 
-- 
2.43.0


From f1b24ee07a95cff5fb1a9645dc407333b0bb2c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:41 +0000
Subject: [PATCH 76/94] fix: slice takes exponential time, or overflows, for
 large distances

---
 carcara/src/slice.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/carcara/src/slice.rs b/carcara/src/slice.rs
index 366d2f3..41349bd 100644
--- a/carcara/src/slice.rs
+++ b/carcara/src/slice.rs
@@ -71,12 +71,15 @@ fn get_transitive_premises(
     // Output
     let mut id_to_keep_premises: HashMap<String, bool> = HashMap::new();
 
-    queue.push_back((step_id, max_distance + 1)); // Different use of distance than in interface. Here it is the number of steps to include after this one
+    queue.push_back((step_id, max_distance.saturating_add(1))); // Different use of distance than in interface. Here it is the number of steps to include after this one
     while let Some((step_id, d)) = queue.pop_front() {
+        // Since this is a breadth-first search, the first time we reach a step is always through one of the shortest paths
+        // to it, so there is no need to process it again.
+        if id_to_keep_premises.contains_key(&step_id) {
+            continue;
+        }
         let last = d == 0;
-        // We should always default to needing premises if there's a conflict between what's already in the map and what would be added.
-        let keep_premises = !last || *id_to_keep_premises.get(&step_id).unwrap_or(&false);
-        id_to_keep_premises.insert(step_id.clone(), keep_premises);
+        id_to_keep_premises.insert(step_id.clone(), !last);
         if !last {
             for (premise, _) in step_to_premises.get(&step_id).unwrap_or(&Vec::new()) {
                 queue.push_back((premise.to_owned(), d - 1));
-- 
2.43.0


From d5564899073f3c428ee3411ae6aabdebc3166d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:47 +0000
Subject: [PATCH 77/94] fix: slice confuses steps of different subproofs with
 the same id

---
 carcara/src/slice.rs | 102 ++++++++++++++++++++++++-------------------
 1 file changed, 56 insertions(+), 46 deletions(-)

diff --git a/carcara/src/slice.rs b/carcara/src/slice.rs
index 41349bd..303d198 100644
--- a/carcara/src/slice.rs
+++ b/carcara/src/slice.rs
@@ -8,12 +8,25 @@ enum PremiseType {
     Premise,
     SubproofEnd,
 }
-/// Creates a map whose keys are step IDs in the proof until the conclusion of the outermost subproof of the target step
-/// whose values are vectors containing the IDs of those steps' premises.
+
+/// Identifies a command in a proof. The ID of a command is not enough for this, because different subproofs may use the
+/// same IDs.
+type CommandKey = *const ProofCommand;
+
+/// The key of a command. A subproof and the step that closes it have the same key, like they have the same ID.
+fn get_key(command: &ProofCommand) -> CommandKey {
+    match command {
+        ProofCommand::Subproof(subproof) => subproof.commands.last().map_or(command, get_key),
+        _ => command,
+    }
+}
+
+/// Creates a map whose keys are the steps in the proof until the conclusion of the outermost subproof of the target step
+/// whose values are vectors containing those steps' premises.
 fn get_step_to_premises(
     proof: &Proof,
-    target_step: &str,
-) -> HashMap<String, Vec<(String, PremiseType)>> {
+    target_step: CommandKey,
+) -> HashMap<CommandKey, Vec<(CommandKey, PremiseType)>> {
     let mut map = HashMap::new();
     let mut iter = proof.iter();
     let mut num_open_subproofs: usize = 0;
@@ -26,30 +39,30 @@ fn get_step_to_premises(
             continue;
         };
 
-        if command.id() == target_step {
+        if get_key(command) == target_step {
             found_target = true;
         }
 
-        let mut premises: Vec<(String, PremiseType)> = step
+        let mut premises: Vec<(CommandKey, PremiseType)> = step
             .premises
             .iter()
-            .map(|p| (iter.get_premise(*p).id().to_owned(), PremiseType::Premise))
+            .map(|p| (get_key(iter.get_premise(*p)), PremiseType::Premise))
             .collect();
 
-        let mut discharge: Vec<(String, PremiseType)> = step
+        let mut discharge: Vec<(CommandKey, PremiseType)> = step
             .discharge
             .iter()
-            .map(|p| (iter.get_premise(*p).id().to_owned(), PremiseType::Discharge))
+            .map(|p| (get_key(iter.get_premise(*p)), PremiseType::Discharge))
             .collect();
 
         premises.append(&mut discharge);
 
         if iter.is_end_step() {
             let previous = iter.current_subproof().unwrap().iter().nth_back(1).unwrap();
-            premises.push((previous.id().to_owned(), PremiseType::SubproofEnd));
+            premises.push((get_key(previous), PremiseType::SubproofEnd));
             num_open_subproofs -= 1;
         }
-        map.insert(step.id.clone(), premises);
+        map.insert(get_key(command), premises);
 
         if found_target && num_open_subproofs == 0 {
             break;
@@ -58,36 +71,36 @@ fn get_step_to_premises(
     map
 }
 
-/// Produces a map containing all the ids of the transitive premises of the input step and
+/// Produces a map containing all the transitive premises of the input step and
 /// bools denoting whether we need the premises of those premises.
 fn get_transitive_premises(
-    step_id: String,
-    step_to_premises: &HashMap<String, Vec<(String, PremiseType)>>,
+    step: CommandKey,
+    step_to_premises: &HashMap<CommandKey, Vec<(CommandKey, PremiseType)>>,
     max_distance: usize,
-) -> HashMap<String, bool> {
+) -> HashMap<CommandKey, bool> {
     // Items to process in BFS
-    let mut queue: VecDeque<(String, usize)> = VecDeque::new();
+    let mut queue: VecDeque<(CommandKey, usize)> = VecDeque::new();
 
     // Output
-    let mut id_to_keep_premises: HashMap<String, bool> = HashMap::new();
+    let mut keep_premises: HashMap<CommandKey, bool> = HashMap::new();
 
-    queue.push_back((step_id, max_distance.saturating_add(1))); // Different use of distance than in interface. Here it is the number of steps to include after this one
-    while let Some((step_id, d)) = queue.pop_front() {
+    queue.push_back((step, max_distance.saturating_add(1))); // Different use of distance than in interface. Here it is the number of steps to include after this one
+    while let Some((step, d)) = queue.pop_front() {
         // Since this is a breadth-first search, the first time we reach a step is always through one of the shortest paths
         // to it, so there is no need to process it again.
-        if id_to_keep_premises.contains_key(&step_id) {
+        if keep_premises.contains_key(&step) {
             continue;
         }
         let last = d == 0;
-        id_to_keep_premises.insert(step_id.clone(), !last);
+        keep_premises.insert(step, !last);
         if !last {
-            for (premise, _) in step_to_premises.get(&step_id).unwrap_or(&Vec::new()) {
-                queue.push_back((premise.to_owned(), d - 1));
+            for (premise, _) in step_to_premises.get(&step).unwrap_or(&Vec::new()) {
+                queue.push_back((*premise, d - 1));
             }
         }
     }
 
-    id_to_keep_premises
+    keep_premises
 }
 
 #[derive(Debug)]
@@ -135,14 +148,14 @@ fn get_slice_body(
     }
 
     let from_step = from_step?;
+    let from_key = get_key(from_step);
 
-    let id_to_premise_ids = get_step_to_premises(proof, id);
+    let step_to_premises = get_step_to_premises(proof, from_key);
 
-    let mut to_keep =
-        get_transitive_premises(from_step.id().to_owned(), &id_to_premise_ids, max_distance);
+    let mut to_keep = get_transitive_premises(from_key, &step_to_premises, max_distance);
 
-    // A map of IDs to their positions in the new proof.
-    let mut id_to_index: HashMap<String, (usize, usize)> = HashMap::new();
+    // A map of commands to their positions in the new proof.
+    let mut key_to_index: HashMap<CommandKey, (usize, usize)> = HashMap::new();
 
     match from_step {
         ProofCommand::Assume { .. } => return None, // We can't slice an assume
@@ -152,20 +165,18 @@ fn get_slice_body(
                 // Get assumes
                 for command in &sp.commands {
                     if command.is_assume() {
-                        to_keep.insert(command.id().to_owned(), false);
+                        to_keep.insert(get_key(command), false);
                     } else {
                         break;
                     }
                 }
                 // Get second to last step
                 let penult = &sp.commands[sp.commands.len() - 2];
-                if !to_keep.contains_key(penult.id()) {
-                    to_keep.insert(penult.id().to_owned(), false);
-                }
+                to_keep.entry(get_key(penult)).or_insert(false);
 
                 // Get last step
                 let ult = &sp.commands[sp.commands.len() - 1];
-                to_keep.insert(ult.id().to_owned(), true); // We always need the "premises" of the last step of a subproof
+                to_keep.insert(get_key(ult), true); // We always need the "premises" of the last step of a subproof
             }
         }
     };
@@ -185,7 +196,8 @@ fn get_slice_body(
     let mut child: Option<(usize, usize)> = None;
     while let Some(command) = copy_iter.next() {
         // Check if we want to copy this command
-        if let Some(&need_premises) = to_keep.get(command.id()) {
+        let key = get_key(command);
+        if let Some(&need_premises) = to_keep.get(&key) {
             let stack_len = stack.len();
             match command {
                 // If the command is an assume, just copy it without change.
@@ -195,13 +207,13 @@ fn get_slice_body(
                     stack[stack_len - 1].current_position += 1;
 
                     // Associate the ID of this assume with its new location in the proof.
-                    id_to_index.insert(command.id().to_owned(), last_placed);
+                    key_to_index.insert(key, last_placed);
                 }
                 // If the command is a step and we need its premises, copy it with its original rule and
                 // the new locations of its premises. Otherwise, use a trust hole.
                 ProofCommand::Step(proof_step) => {
                     // Make a note once we have encountered the target step so that we know we're no longer on premises
-                    if proof_step.id == id {
+                    if key == from_key {
                         have_seen_target = true;
                     }
 
@@ -210,17 +222,17 @@ fn get_slice_body(
                             .current_subproof()
                             .expect("is_in_subproof is true, but current_subproof() is None");
                         let penult = &current_subproof[current_subproof.len() - 2];
-                        proof_step.id == penult.id()
+                        key == get_key(penult)
                     };
 
                     let step = if need_premises {
                         let (premises, discharge) =
-                            if let Some(premise_ids) = id_to_premise_ids.get(command.id()) {
+                            if let Some(premises) = step_to_premises.get(&key) {
                                 (
-                                    premise_ids
+                                    premises
                                         .iter()
                                         .filter(|(_, t)| matches!(t, PremiseType::Premise))
-                                        .map(|(s, _)| id_to_index[s])
+                                        .map(|(s, _)| key_to_index[s])
                                         .collect(),
                                     proof_step.discharge.clone(),
                                 )
@@ -253,13 +265,11 @@ fn get_slice_body(
 
                     // Associate the ID of this step with its new location in the proof.
                     let last_placed = (stack.len() - 1, stack[stack.len() - 1].current_position);
-                    if !id_to_index.contains_key(command.id()) {
-                        id_to_index.insert(command.id().to_owned(), last_placed);
-                    }
+                    key_to_index.entry(key).or_insert(last_placed);
 
                     // We need to artificially make the step we're slicing a transitive premise of any steps that occur after it,
                     // i.e., any steps we keep from its enclosing subproofs
-                    if proof_step.id == id {
+                    if key == from_key {
                         child = Some(last_placed);
                     }
 
@@ -298,7 +308,7 @@ fn get_slice_body(
                         // Associate ID with location in new proof.
                         let last_placed =
                             (stack.len() - 1, stack[stack.len() - 1].current_position);
-                        id_to_index.insert(command.id().to_owned(), last_placed);
+                        key_to_index.insert(key, last_placed);
 
                         // Push fresh frame to stack to keep track of subproof commands.
                         stack[stack_len - 1].current_position += 1;
-- 
2.43.0


From 43d1c6426aef8483284fc321f7ac0323a6b0b13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:47 +0000
Subject: [PATCH 78/94] fix: slice panics when the closing step of an enclosing
 subproof has premises

---
 carcara/src/slice.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/carcara/src/slice.rs b/carcara/src/slice.rs
index 303d198..64d717f 100644
--- a/carcara/src/slice.rs
+++ b/carcara/src/slice.rs
@@ -177,6 +177,9 @@ fn get_slice_body(
                 // Get last step
                 let ult = &sp.commands[sp.commands.len() - 1];
                 to_keep.insert(get_key(ult), true); // We always need the "premises" of the last step of a subproof
+                for (premise, _) in step_to_premises.get(&get_key(ult)).unwrap_or(&Vec::new()) {
+                    to_keep.entry(*premise).or_insert(false);
+                }
             }
         }
     };
-- 
2.43.0


From 9e5b1abf13af76a97faac8b3c275f656eb368fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:47 +0000
Subject: [PATCH 79/94] fix: slice breaks discharge lists when it drops
 assumptions of a subproof

---
 carcara/src/slice.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/carcara/src/slice.rs b/carcara/src/slice.rs
index 64d717f..493b26a 100644
--- a/carcara/src/slice.rs
+++ b/carcara/src/slice.rs
@@ -237,7 +237,11 @@ fn get_slice_body(
                                         .filter(|(_, t)| matches!(t, PremiseType::Premise))
                                         .map(|(s, _)| key_to_index[s])
                                         .collect(),
-                                    proof_step.discharge.clone(),
+                                    premises
+                                        .iter()
+                                        .filter(|(_, t)| matches!(t, PremiseType::Discharge))
+                                        .map(|(s, _)| key_to_index[s])
+                                        .collect(),
                                 )
                             } else {
                                 (Vec::new(), Vec::new())
-- 
2.43.0


From 4fcba51084b61b139287afb05ea37c108cb52c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:54 +0000
Subject: [PATCH 80/94] fix: slice does not link the sliced step when its
 subproof ends in another subproof

---
 carcara/src/slice.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/carcara/src/slice.rs b/carcara/src/slice.rs
index 493b26a..bcbfbdc 100644
--- a/carcara/src/slice.rs
+++ b/carcara/src/slice.rs
@@ -1,5 +1,5 @@
 //! Backend of the slice command.
-use std::collections::{HashMap, VecDeque};
+use std::collections::{HashMap, HashSet, VecDeque};
 
 use crate::ast::{PrimitivePool, Proof, ProofCommand, ProofStep, Rc, Subproof, Term, TermPool};
 
@@ -157,6 +157,9 @@ fn get_slice_body(
     // A map of commands to their positions in the new proof.
     let mut key_to_index: HashMap<CommandKey, (usize, usize)> = HashMap::new();
 
+    // The second to last steps of the subproofs the step we're slicing is in.
+    let mut penult_steps: HashSet<CommandKey> = HashSet::new();
+
     match from_step {
         ProofCommand::Assume { .. } => return None, // We can't slice an assume
         // Make a note to keep context of the step we're slicing.
@@ -173,6 +176,7 @@ fn get_slice_body(
                 // Get second to last step
                 let penult = &sp.commands[sp.commands.len() - 2];
                 to_keep.entry(get_key(penult)).or_insert(false);
+                penult_steps.insert(get_key(penult));
 
                 // Get last step
                 let ult = &sp.commands[sp.commands.len() - 1];
@@ -220,13 +224,7 @@ fn get_slice_body(
                         have_seen_target = true;
                     }
 
-                    let is_penult: bool = copy_iter.is_in_subproof() && {
-                        let current_subproof = copy_iter
-                            .current_subproof()
-                            .expect("is_in_subproof is true, but current_subproof() is None");
-                        let penult = &current_subproof[current_subproof.len() - 2];
-                        key == get_key(penult)
-                    };
+                    let is_penult = penult_steps.contains(&key);
 
                     let step = if need_premises {
                         let (premises, discharge) =
-- 
2.43.0


From e4f247264008cc025717b48850e54c6d18f92669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:45 +0000
Subject: [PATCH 81/94] fix: overflow when rotating premises with crowding
 literals that are never eliminated

---
 carcara/src/elaborator/uncrowding.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carcara/src/elaborator/uncrowding.rs b/carcara/src/elaborator/uncrowding.rs
index 7d30e29..3842c62 100644
--- a/carcara/src/elaborator/uncrowding.rs
+++ b/carcara/src/elaborator/uncrowding.rs
@@ -375,7 +375,8 @@ fn reorder_premises<'a>(
         v
     };
     for (lit, info) in ordered {
-        if !info.is_crowding {
+        // If a crowding literal is not eliminated after its last inclusion, there is no eliminator to move
+        if !info.is_crowding || info.eliminator == 0 {
             continue;
         }
 
-- 
2.43.0


From 01830045bd63c1a74ad094d381bb4033f7aa026c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:58 +0000
Subject: [PATCH 82/94] fix: elaborator panics on steps of rules that the
 checker was told to allow

---
 carcara/src/elaborator/mod.rs        | 40 ++++++++++++++++++++++------
 carcara/src/elaborator/reordering.rs |  9 ++++++-
 carcara/src/lib.rs                   |  2 ++
 cli/src/benchmarking.rs              |  2 ++
 4 files changed, 44 insertions(+), 9 deletions(-)

diff --git a/carcara/src/elaborator/mod.rs b/carcara/src/elaborator/mod.rs
index e2e8eed..7b87987 100644
--- a/carcara/src/elaborator/mod.rs
+++ b/carcara/src/elaborator/mod.rs
@@ -71,11 +71,25 @@ pub struct Elaborator<'e> {
     pool: &'e mut PrimitivePool,
     problem: &'e Problem,
     config: Config,
+
+    /// Rules whose steps were not checked. As they may not be valid, they are not elaborated.
+    unchecked_rules: HashSet<String>,
 }
 
 impl<'e> Elaborator<'e> {
     pub fn new(pool: &'e mut PrimitivePool, problem: &'e Problem, config: Config) -> Self {
-        Self { pool, problem, config }
+        Self {
+            pool,
+            problem,
+            config,
+            unchecked_rules: HashSet::new(),
+        }
+    }
+
+    /// Sets the rules that the checker was told to allow. Their steps were not checked, so they are
+    /// left unchanged by the elaborator.
+    pub fn with_unchecked_rules(self, unchecked_rules: HashSet<String>) -> Self {
+        Self { unchecked_rules, ..self }
     }
 
     pub fn elaborate_with_default_pipeline(&mut self, proof: ProofNodeForest) -> ProofNodeForest {
@@ -105,7 +119,9 @@ impl<'e> Elaborator<'e> {
                 ElaborationStep::Polyeq => self.elaborate_polyeq(current),
                 ElaborationStep::LiaGeneric if self.config.lia_options.is_some() => {
                     current.mutate(|_, node, _| match node.as_ref() {
-                        ProofNode::Step(s) if s.rule == "lia_generic" => {
+                        ProofNode::Step(s)
+                            if s.rule == "lia_generic" && !self.is_unchecked(s) =>
+                        {
                             lia_generic::lia_generic(self, s).unwrap_or_else(|| node.clone())
                         }
                         _ => node.clone(),
@@ -116,20 +132,24 @@ impl<'e> Elaborator<'e> {
                 ElaborationStep::Uncrowd => current.mutate(|_, node, _| match node.as_ref() {
                     ProofNode::Step(s)
                         if (s.rule == "resolution" || s.rule == "th_resolution")
-                            && !s.args.is_empty() =>
+                            && !s.args.is_empty()
+                            && !self.is_unchecked(s) =>
                     {
                         uncrowding::uncrowd_resolution(self.pool, s, self.config.uncrowd_rotation)
                     }
                     _ => node.clone(),
                 }),
-                ElaborationStep::Reordering => reordering::remove_reorderings(current),
+                ElaborationStep::Reordering => {
+                    reordering::remove_reorderings(current, &self.unchecked_rules)
+                }
                 ElaborationStep::Hole => {
                     if self.config.hole_options.is_none() {
                         current
                     } else {
                         current.mutate(|_, node, _| match node.as_ref() {
                             ProofNode::Step(s)
-                                if (s.rule == "all_simplify" || s.rule == "rare_rewrite") =>
+                                if (s.rule == "all_simplify" || s.rule == "rare_rewrite")
+                                    && !self.is_unchecked(s) =>
                             {
                                 hole::hole(self, s).unwrap_or_else(|| node.clone())
                             }
@@ -143,6 +163,10 @@ impl<'e> Elaborator<'e> {
         (current, durations)
     }
 
+    fn is_unchecked(&self, step: &StepNode) -> bool {
+        self.unchecked_rules.contains(&step.rule)
+    }
+
     fn elaborate_polyeq(&mut self, proof: ProofNodeForest) -> ProofNodeForest {
         fn get_elaboration_function(rule: &str) -> Option<ElaborationFunc> {
             Some(match rule {
@@ -162,7 +186,7 @@ impl<'e> Elaborator<'e> {
                 {
                     self.elaborate_assume(id, *depth, term)
                 }
-                ProofNode::Step(s) => {
+                ProofNode::Step(s) if !self.is_unchecked(s) => {
                     if let Some(func) = get_elaboration_function(&s.rule) {
                         func(self.pool, context, s).unwrap() // TODO: add proper error handling
                     } else {
@@ -188,13 +212,13 @@ impl<'e> Elaborator<'e> {
 
         proof.mutate(|context, node, _| {
             match node.as_ref() {
-                ProofNode::Step(s) => {
+                ProofNode::Step(s) if !self.is_unchecked(s) => {
                     if let Some(func) = get_elaboration_function(&s.rule) {
                         return func(self.pool, context, s).unwrap(); // TODO: add proper error handling
                     }
                 }
                 ProofNode::Subproof(_) => unreachable!(),
-                ProofNode::Assume { .. } => (),
+                ProofNode::Step(_) | ProofNode::Assume { .. } => (),
             }
             node.clone()
         })
diff --git a/carcara/src/elaborator/reordering.rs b/carcara/src/elaborator/reordering.rs
index eb12ef8..943374e 100644
--- a/carcara/src/elaborator/reordering.rs
+++ b/carcara/src/elaborator/reordering.rs
@@ -1,7 +1,10 @@
 use super::*;
 use crate::utils::{DedupIterator, MultiSet, MultiSetDifference};
 
-pub fn remove_reorderings(proof: ProofNodeForest) -> ProofNodeForest {
+pub fn remove_reorderings(
+    proof: ProofNodeForest,
+    unchecked_rules: &HashSet<String>,
+) -> ProofNodeForest {
     // The last step of a subproof refers implicitly to the step before it, so a `reordering` step
     // in that position must be kept
     let mut implicitly_referenced = HashSet::new();
@@ -14,6 +17,10 @@ pub fn remove_reorderings(proof: ProofNodeForest) -> ProofNodeForest {
             return node.clone();
         };
 
+        if unchecked_rules.contains(&step.rule) {
+            return node.clone();
+        }
+
         // For reordering steps, we remove the step and return its only premise
         if step.rule == "reordering"
             && !implicitly_referenced.contains(&(step.depth, step.id.clone()))
diff --git a/carcara/src/lib.rs b/carcara/src/lib.rs
index 0ba29bd..3cc5641 100644
--- a/carcara/src/lib.rs
+++ b/carcara/src/lib.rs
@@ -231,6 +231,7 @@ pub fn check_and_elaborate<T: io::BufRead>(
 
     // Checking
     let checking = Instant::now();
+    let unchecked_rules = checker_config.allowed_rules.clone();
     let mut checker = checker::ProofChecker::new(&mut pool, &rules, checker_config);
     let checking_result = if collect_stats {
         let mut checker_stats = CheckerStatistics {
@@ -259,6 +260,7 @@ pub fn check_and_elaborate<T: io::BufRead>(
     let node = ast::ProofNodeForest::from_commands(proof.commands);
     let (elaborated, pipeline_durations) =
         elaborator::Elaborator::new(&mut pool, &problem, elaborator_config)
+            .with_unchecked_rules(unchecked_rules)
             .elaborate_with_stats(node, pipeline);
     let elaborated = ast::Proof {
         commands: elaborated.into_commands(),
diff --git a/cli/src/benchmarking.rs b/cli/src/benchmarking.rs
index 231b2f4..9addb85 100644
--- a/cli/src/benchmarking.rs
+++ b/cli/src/benchmarking.rs
@@ -46,6 +46,7 @@ fn run_job<T: CollectResults + Default + Send>(
     )?;
     let parsing = parsing.elapsed();
 
+    let unchecked_rules = checker_config.allowed_rules.clone();
     let mut checker = checker::ProofChecker::new(&mut pool, &rules, checker_config);
 
     let checking = Instant::now();
@@ -58,6 +59,7 @@ fn run_job<T: CollectResults + Default + Send>(
         let node = ast::ProofNodeForest::from_commands(proof.commands);
         let (elaborated, pipeline_durations) =
             elaborator::Elaborator::new(&mut pool, &problem, config)
+                .with_unchecked_rules(unchecked_rules)
                 .elaborate_with_stats(node, pipeline);
         elaborated.into_commands();
         (elaboration.elapsed(), pipeline_durations)
-- 
2.43.0


From 587347dbcb9ea888a10b145a64349396556bd585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:18 +0000
Subject: [PATCH 83/94] fix: la_mult_pos and la_mult_neg panic if the original
 term is not a comparison

---
 carcara/src/checker/rules/extras.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carcara/src/checker/rules/extras.rs b/carcara/src/checker/rules/extras.rs
index a54f1dc..9886c06 100644
--- a/carcara/src/checker/rules/extras.rs
+++ b/carcara/src/checker/rules/extras.rs
@@ -206,7 +206,7 @@ fn la_mult_generic(conclusion: &[Rc<Term>], is_pos: bool) -> RuleResult {
             Operator::GreaterThan => match_term_err!((> a b) = term),
             Operator::LessEq => match_term_err!((<= a b) = term),
             Operator::GreaterEq => match_term_err!((>= a b) = term),
-            _ => unreachable!(),
+            _ => Err(CheckerError::Unspecified),
         }
     }
 
@@ -236,7 +236,7 @@ fn la_mult_generic(conclusion: &[Rc<Term>], is_pos: bool) -> RuleResult {
             Operator::GreaterThan => Operator::LessThan,
             Operator::LessEq => Operator::GreaterEq,
             Operator::GreaterEq => Operator::LessEq,
-            _ => unreachable!(),
+            _ => return Err(CheckerError::Unspecified),
         }
     };
 
-- 
2.43.0


From fceddfed77ff1d169c0997879a33dc2075793475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:34 +0000
Subject: [PATCH 84/94] fix: lexer panics on rational literals without a
 denominator

---
 carcara/src/parser/lexer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/carcara/src/parser/lexer.rs b/carcara/src/parser/lexer.rs
index 0323dc9..e343a00 100644
--- a/carcara/src/parser/lexer.rs
+++ b/carcara/src/parser/lexer.rs
@@ -384,6 +384,10 @@ impl<R: BufRead> Lexer<R> {
                 return Err(Error::Parser(e, self.position));
             }
             let r = match delimiter {
+                '/' if second_part.is_empty() => {
+                    let e = ParserError::UnexpectedChar(delimiter);
+                    return Err(Error::Parser(e, self.position));
+                }
                 '/' => {
                     let [numer, denom] =
                         [first_part, second_part].map(|s| s.parse::<Integer>().unwrap());
-- 
2.43.0


From ce47b41ecfa8daa59accc623e780ac609e5969d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:29 +0000
Subject: [PATCH 85/94] fix: reordering elaboration removes the closing step of
 a subproof

---
 carcara/src/elaborator/reordering.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/carcara/src/elaborator/reordering.rs b/carcara/src/elaborator/reordering.rs
index 943374e..495707b 100644
--- a/carcara/src/elaborator/reordering.rs
+++ b/carcara/src/elaborator/reordering.rs
@@ -6,7 +6,8 @@ pub fn remove_reorderings(
     unchecked_rules: &HashSet<String>,
 ) -> ProofNodeForest {
     // The last step of a subproof refers implicitly to the step before it, so a `reordering` step
-    // in that position must be kept
+    // in that position must be kept. The last step itself must also be kept, as it is the one that
+    // closes the subproof
     let mut implicitly_referenced = HashSet::new();
     for root in &proof.0 {
         find_implicitly_referenced(root, &mut implicitly_referenced);
@@ -59,6 +60,7 @@ fn find_implicitly_referenced(root: &Rc<ProofNode>, result: &mut HashSet<(usize,
                 todo.extend(s.premises.iter().chain(&s.discharge));
             }
             ProofNode::Subproof(s) => {
+                result.insert((node.depth() + 1, s.last_step.id().to_owned()));
                 todo.push(&s.last_step);
                 todo.extend(s.outbound_premises.iter().chain(&s.extra_steps));
             }
-- 
2.43.0


From f71ad6ea2cdf707eac1744348872ae019e4cabc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:12 +0000
Subject: [PATCH 86/94] fix: combine the variances of two metrics without
 integer division

---
 carcara/src/benchmarking/metrics.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/carcara/src/benchmarking/metrics.rs b/carcara/src/benchmarking/metrics.rs
index 39fd230..ad11045 100644
--- a/carcara/src/benchmarking/metrics.rs
+++ b/carcara/src/benchmarking/metrics.rs
@@ -215,11 +215,8 @@ impl<K: Clone, T: MetricsUnit> Metrics<K, T> for OnlineMetrics<K, T> {
         }
     }
 
-    /// Combines two metrics into one. If one the metrics has only one data point, this is
-    /// equivalent to `Metrics::add_sample`. This is generally numerically stable if the metrics
-    /// have many data points, or exactly one. If one of the metrics is small, the error in the
-    /// variance introduced by using this method (as opposed to using `Metrics::add_sample` on each
-    /// data point) can be as high as 30%.
+    /// Combines two metrics into one. If one of the metrics has only one data point, this is
+    /// equivalent to `Metrics::add_sample`.
     fn combine(self, other: Self) -> Self {
         match (self.count, other.count) {
             (0, _) => return other,
@@ -242,7 +239,7 @@ impl<K: Clone, T: MetricsUnit> Metrics<K, T> for OnlineMetrics<K, T> {
         let delta = other.mean.absolute_diff(self.mean).as_f64();
         let sum_of_squared_distances = self.sum_of_squared_distances
             + other.sum_of_squared_distances
-            + delta * delta * (self.count * other.count / count) as f64;
+            + delta * delta * (self.count as f64 * other.count as f64 / count as f64);
 
         let max_min = match (self.max_min, other.max_min) {
             (a, None) => a,
-- 
2.43.0


From 1f9485b6bf0abd80999514b8752625d46c19289b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:12 +0000
Subject: [PATCH 87/94] fix: keep that a proof is holey when combining CSV
 results

---
 carcara/src/benchmarking/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/carcara/src/benchmarking/mod.rs b/carcara/src/benchmarking/mod.rs
index 9f5da1b..fdc45c8 100644
--- a/carcara/src/benchmarking/mod.rs
+++ b/carcara/src/benchmarking/mod.rs
@@ -518,6 +518,7 @@ impl CollectResults for CsvBenchmarkResults {
         // in benchmarks anyway
         a.runs.extend(b.runs);
         a.steps.extend(b.steps);
+        a.is_holey |= b.is_holey;
         a.num_errors += b.num_errors;
         a
     }
-- 
2.43.0


From d77513a253d6ec5658be1d2eb1f23fdbff9a8cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:31 +0000
Subject: [PATCH 88/94] fix: parallel checking records samples under the given
 file name

---
 carcara/src/checker/parallel/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carcara/src/checker/parallel/mod.rs b/carcara/src/checker/parallel/mod.rs
index 0faec39..38069f2 100644
--- a/carcara/src/checker/parallel/mod.rs
+++ b/carcara/src/checker/parallel/mod.rs
@@ -158,7 +158,7 @@ impl<'c> ParallelProofChecker<'c> {
                 .enumerate()
                 .map(|(i, schedule)| {
                     let mut local_stats = CheckerStatistics {
-                        file_name: "",
+                        file_name: stats.file_name,
                         polyeq_time: Duration::ZERO,
                         assume_time: Duration::ZERO,
                         assume_core_time: Duration::ZERO,
-- 
2.43.0


From 2a6a3da216226999d3484a659130baba366e00f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:52 +0000
Subject: [PATCH 89/94] fix: error messages do not depend on the iteration
 order of hash tables

---
 carcara/src/checker/rules/cutting_planes.rs | 6 +++---
 carcara/src/checker/rules/subproof.rs       | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index 275aeb5..cd613f7 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -4,13 +4,13 @@ use super::{
 use crate::ast::{Constant, Operator};
 use crate::checker::error::{CheckerError, EqualityError};
 use crate::checker::Rc;
+use indexmap::IndexMap;
 use rug::Integer;
-use std::collections::HashMap;
 
 /// A pseudo-Boolean literal: a term, and whether it is negated
 type PbLiteral = (Rc<Term>, bool);
 
-type PbHash = HashMap<PbLiteral, Integer>;
+type PbHash = IndexMap<PbLiteral, Integer>;
 
 // Helper to unwrap a summation list
 pub fn split_summation(sum_term: &Rc<Term>) -> &[Rc<Term>] {
@@ -22,7 +22,7 @@ pub fn split_summation(sum_term: &Rc<Term>) -> &[Rc<Term>] {
 }
 
 fn get_pb_hashmap(pbsum: &Rc<Term>) -> Result<PbHash, CheckerError> {
-    let mut hm = HashMap::new();
+    let mut hm = IndexMap::new();
     let pbsum = split_summation(pbsum);
 
     //  Special case: single 0
diff --git a/carcara/src/checker/rules/subproof.rs b/carcara/src/checker/rules/subproof.rs
index 4069d7c..a229473 100644
--- a/carcara/src/checker/rules/subproof.rs
+++ b/carcara/src/checker/rules/subproof.rs
@@ -482,16 +482,16 @@ pub fn onepoint(
     let point_vars: Vec<_> = mappings
         .map(|(name, value)| (name.clone(), pool.sort(value)))
         .collect();
-    let point_vars: HashSet<_> = point_vars.iter().collect();
+    let point_vars: IndexSet<_> = point_vars.iter().collect();
 
     if var_args != r_bindings.as_ref() {
         return Err(SubproofError::OnepointWrongRightBindings(BindingList(var_args)).into());
     }
 
-    let l_bindings: HashSet<_> = l_bindings.iter().collect();
+    let l_bindings: IndexSet<_> = l_bindings.iter().collect();
 
     // Convert `var_args` into a set so we can do union operation
-    let var_args: HashSet<_> = var_args.iter().collect();
+    let var_args: IndexSet<_> = var_args.iter().collect();
 
     let expected = &var_args | &point_vars;
     if l_bindings != expected {
-- 
2.43.0


From 32506771a06f489d9d731d6fdb984d7d6a714723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:22 +0000
Subject: [PATCH 90/94] fix: worker threads get a minimal stack by default

---
 carcara/src/checker/parallel/mod.rs | 18 ++++++++++++------
 cli/src/main.rs                     |  2 +-
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/carcara/src/checker/parallel/mod.rs b/carcara/src/checker/parallel/mod.rs
index 38069f2..d1c133f 100644
--- a/carcara/src/checker/parallel/mod.rs
+++ b/carcara/src/checker/parallel/mod.rs
@@ -67,6 +67,16 @@ impl<'c> ParallelProofChecker<'c> {
         }
     }
 
+    /// Creates the builder of a worker thread. A stack size of zero stands for the default size.
+    fn thread_builder(&self, index: usize) -> thread::Builder {
+        let builder = thread::Builder::new().name(format!("worker-{index}"));
+        if self.stack_size == 0 {
+            builder
+        } else {
+            builder.stack_size(self.stack_size)
+        }
+    }
+
     pub fn check(
         &mut self,
         problem: &Problem,
@@ -89,9 +99,7 @@ impl<'c> ParallelProofChecker<'c> {
                     let local_pool = LocalPool::from_previous(&context_pool);
                     let should_abort = premature_abort.clone();
 
-                    thread::Builder::new()
-                        .name(format!("worker-{i}"))
-                        .stack_size(self.stack_size)
+                    self.thread_builder(i)
                         .spawn_scoped(s, move || -> CarcaraResult<(bool, bool)> {
                             local_self.worker_thread_check(
                                 problem,
@@ -169,9 +177,7 @@ impl<'c> ParallelProofChecker<'c> {
                     let local_pool = LocalPool::from_previous(&context_pool);
                     let should_abort = premature_abort.clone();
 
-                    thread::Builder::new()
-                        .name(format!("worker-{i}"))
-                        .stack_size(self.stack_size)
+                    self.thread_builder(i)
                         .spawn_scoped(
                             s,
                             move || -> CarcaraResult<(bool, bool, CheckerStatistics<CR>)> {
diff --git a/cli/src/main.rs b/cli/src/main.rs
index b878e5a..aacb96a 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -106,7 +106,7 @@ struct StatsOptions {
 
 #[derive(Args)]
 struct StackOptions {
-    /// Defines the thread stack size for each check worker (does not include the main thread stack size, which should be set manually).
+    /// Defines the thread stack size for each check worker (does not include the main thread stack size, which should be set manually). Zero stands for the default size.
     #[clap(long, default_value = "0")]
     stack_size: usize,
 }
-- 
2.43.0


From f1b77c6c8cce63146425a7b421f65a7b899e1d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:36 +0000
Subject: [PATCH 91/94] fix: printing an error message panics if a term has a
 let

---
 carcara/src/ast/pool/mod.rs | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/carcara/src/ast/pool/mod.rs b/carcara/src/ast/pool/mod.rs
index 9ea7ecf..79196a3 100644
--- a/carcara/src/ast/pool/mod.rs
+++ b/carcara/src/ast/pool/mod.rs
@@ -443,19 +443,6 @@ impl PrimitivePool {
         term
     }
 
-    fn sort_with_priorities<const N: usize>(
-        &mut self,
-        term: &Rc<Term>,
-        prior_pools: [&PrimitivePool; N],
-    ) -> Rc<Term> {
-        for p in prior_pools {
-            if let Some(sort) = p.sorts_cache.get(term) {
-                return sort.clone();
-            }
-        }
-        self.sorts_cache[term].clone()
-    }
-
     // TODO: Try to workaround the lifetime specifiers and return a ref
     pub fn free_vars_with_priorities<const N: usize>(
         &mut self,
@@ -498,7 +485,7 @@ impl PrimitivePool {
             Term::Let(bindings, inner) => {
                 let mut vars = self.free_vars_with_priorities(inner, prior_pools);
                 for (var, value) in bindings {
-                    let sort = self.sort_with_priorities(value, prior_pools);
+                    let sort = self.compute_sort(value, prior_pools);
                     let term = self.add_with_priorities((var.clone(), sort).into(), prior_pools);
                     vars.swap_remove(&term);
                 }
-- 
2.43.0


From 1a1d3c46a50783409aab6db268161ef45baa0455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:36 +0000
Subject: [PATCH 92/94] fix: slice swaps the given paths of the sliced problem
 and proof

---
 cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index aacb96a..b92cb3a 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -693,7 +693,7 @@ fn slice_command(
 
         // Write sliced problem and proof to provided paths or default locations.
         let (sliced_proof_file_name, sliced_problem_file_name) = match options.sliced_output {
-            Some(proof_prob) => (proof_prob[0].clone(), proof_prob[1].clone()),
+            Some(prob_proof) => (prob_proof[1].clone(), prob_proof[0].clone()),
             None => {
                 let path = Path::new(&options.input.proof_file);
                 let path_without_extension = path.with_extension("");
-- 
2.43.0


From 566086ed24c17ff509c3d0faf7d5f03b72d5fdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:59 +0000
Subject: [PATCH 93/94] fix: benchmark loses the previous results if an
 instance cannot be parsed

---
 cli/src/benchmarking.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/cli/src/benchmarking.rs b/cli/src/benchmarking.rs
index 9addb85..d512404 100644
--- a/cli/src/benchmarking.rs
+++ b/cli/src/benchmarking.rs
@@ -27,13 +27,6 @@ fn run_job<T: CollectResults + Default + Send>(
     elaborator_config: Option<(elaborator::Config, Vec<elaborator::ElaborationStep>)>,
 ) -> Result<bool, carcara::Error> {
     let proof_file_name = job.proof_file.to_str().unwrap();
-    let mut checker_stats = checker::CheckerStatistics {
-        file_name: proof_file_name,
-        polyeq_time: Duration::ZERO,
-        assume_time: Duration::ZERO,
-        assume_core_time: Duration::ZERO,
-        results: std::mem::take(results),
-    };
 
     let total = Instant::now();
 
@@ -46,6 +39,16 @@ fn run_job<T: CollectResults + Default + Send>(
     )?;
     let parsing = parsing.elapsed();
 
+    // The results of the previous jobs must not be lost if this instance can't be read, so we only
+    // take them after parsing
+    let mut checker_stats = checker::CheckerStatistics {
+        file_name: proof_file_name,
+        polyeq_time: Duration::ZERO,
+        assume_time: Duration::ZERO,
+        assume_core_time: Duration::ZERO,
+        results: std::mem::take(results),
+    };
+
     let unchecked_rules = checker_config.allowed_rules.clone();
     let mut checker = checker::ProofChecker::new(&mut pool, &rules, checker_config);
 
-- 
2.43.0


From 3a5ac9be779e11fef5b5f68df5f004336da57849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:28 +0000
Subject: [PATCH 94/94] fix: benchmark elaborates proofs that were rejected by
 the checker

---
 cli/src/benchmarking.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/cli/src/benchmarking.rs b/cli/src/benchmarking.rs
index d512404..1b812f8 100644
--- a/cli/src/benchmarking.rs
+++ b/cli/src/benchmarking.rs
@@ -57,17 +57,20 @@ fn run_job<T: CollectResults + Default + Send>(
     let checking_result = checker.check_with_stats(&problem, &proof, &mut checker_stats);
     let checking = checking.elapsed();
 
-    let (elaboration, pipeline_durations) = if let Some((config, pipeline)) = elaborator_config {
-        let elaboration = Instant::now();
-        let node = ast::ProofNodeForest::from_commands(proof.commands);
-        let (elaborated, pipeline_durations) =
-            elaborator::Elaborator::new(&mut pool, &problem, config)
-                .with_unchecked_rules(unchecked_rules)
-                .elaborate_with_stats(node, pipeline);
-        elaborated.into_commands();
-        (elaboration.elapsed(), pipeline_durations)
-    } else {
-        (Duration::ZERO, Vec::new())
+    let (elaboration, pipeline_durations) = match elaborator_config {
+        Some((config, pipeline)) if checking_result.is_ok() => {
+            let elaboration = Instant::now();
+            let node = ast::ProofNodeForest::from_commands(proof.commands);
+            let (elaborated, pipeline_durations) =
+                elaborator::Elaborator::new(&mut pool, &problem, config)
+                    .with_unchecked_rules(unchecked_rules)
+                    .elaborate_with_stats(node, pipeline);
+            elaborated.into_commands();
+            (elaboration.elapsed(), pipeline_durations)
+        }
+        // Only proofs that were accepted by the checker can be elaborated
+        Some((_, pipeline)) => (Duration::ZERO, vec![Duration::ZERO; pipeline.len()]),
+        None => (Duration::ZERO, Vec::new()),
     };
 
     let total = total.elapsed();
-- 
2.43.0

