//! C18: whatever the input is, there is a result or an error, and no panic.
use crate::carc::{guard, Opts, PanicInfo};
use crate::g::{hash_str, G};
use crate::prf::{self, Cmd, Prf};
use crate::runner::{Case, Viol};
use crate::sexp::*;
use crate::step::mutate_clause;
use crate::eval::{Sig, S};
use crate::terms::{mutate, sort_of, term_paths};
use crate::{fam_ctx, fam_elab, fam_rare, fam_sort, fam_str, fam_whole, whole, wild};
use carcara::ast::{self, PrimitivePool};
use carcara::{parser, Error};

pub const RULES: &[&str] = &[
    "true", "false", "not_not", "and_pos", "and_neg", "or_pos", "or_neg", "xor_pos1", "xor_pos2", "xor_neg1", "xor_neg2", "implies_pos", "implies_neg1", "implies_neg2", "equiv_pos1", "equiv_pos2",
    "equiv_neg1", "equiv_neg2", "ite_pos1", "ite_pos2", "ite_neg1", "ite_neg2", "eq_reflexive", "eq_transitive", "eq_congruent", "eq_congruent_pred", "distinct_elim", "la_rw_eq", "la_generic",
    "la_disequality", "la_totality", "la_tautology", "poly_simp", "poly_simp_rel", "bv_poly_simp", "bv_poly_simp_eq", "forall_inst", "qnt_join", "qnt_rm_unused", "resolution", "th_resolution", "refl",
    "trans", "cong", "ho_cong", "and_intro", "and", "tautology", "not_or", "or", "not_and", "xor1", "xor2", "not_xor1", "not_xor2", "implies", "not_implies1", "not_implies2", "equiv1", "equiv2",
    "not_equiv1", "not_equiv2", "ite1", "ite2", "not_ite1", "not_ite2", "ite_intro", "contraction", "connective_def", "ite_simplify", "eq_simplify", "and_simplify", "or_simplify", "not_simplify",
    "implies_simplify", "equiv_simplify", "bool_simplify", "qnt_simplify", "div_simplify", "prod_simplify", "unary_minus_simplify", "minus_simplify", "sum_simplify", "comp_simplify", "nary_elim",
    "ac_simp", "aci_simp", "bfun_elim", "bind", "qnt_cnf", "miniscope_distribute", "miniscope_split", "miniscope_ite", "subproof", "let", "onepoint", "sko_ex", "sko_forall", "reordering", "shuffle",
    "symm", "not_symm", "eq_symmetric", "weakening", "bind_let", "la_mult_pos", "la_mult_neg", "mod_simplify", "evaluate", "bitblast_extract", "bitblast_bvadd", "bitblast_ult", "bitblast_slt",
    "bitblast_comp", "bitblast_neg", "bitblast_not", "bitblast_equal", "bitblast_const", "bitblast_sign_extend", "bitblast_concat", "bitblast_and", "bitblast_or", "bitblast_xor", "bitblast_xnor",
    "bitblast_mult", "bitblast_var", "bitblast_bvult", "bitblast_bvslt", "bitblast_bvand", "bitblast_bvor", "bitblast_bvxor", "bitblast_bvxnor", "bitblast_bvnot", "bitblast_bvmul", "bitblast_bvneg",
    "bitblast_bvcomp", "concat_eq", "concat_unify", "concat_conflict", "concat_csplit_prefix", "concat_csplit_suffix", "concat_split_prefix", "concat_split_suffix", "concat_lprop_prefix",
    "concat_lprop_suffix", "concat_cprop_prefix", "concat_cprop_suffix", "pbblast_bveq", "pbblast_bvult", "pbblast_bvugt", "pbblast_bvuge", "pbblast_bvule", "pbblast_bvslt", "pbblast_bvsgt",
    "pbblast_bvsge", "pbblast_bvsle", "pbblast_pbbvar", "pbblast_pbbconst", "pbblast_bvxor", "pbblast_bvand", "pbblast_bvand_ith_bit", "cp_addition", "cp_multiplication", "cp_division",
    "cp_saturation", "cp_literal", "cp_normalize", "string_decompose", "string_length_pos", "string_length_non_empty", "re_inter", "re_kleene_star_unfold_pos", "re_concat_unfold_pos",
    "re_unfold_neg", "re_unfold_neg_concat_fixed_prefix", "re_unfold_neg_concat_fixed_suffix", "drup", "drat", "hole", "lia_generic", "strict_resolution", "rare_rewrite", "nonsense",
];
/// the rules whose names `get_rule` matches, read from the text so that the list above cannot get stale
fn rule_names() -> &'static [String] {
    static R: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    R.get_or_init(|| {
        let mut v: Vec<String> = RULES.iter().map(|s| s.to_string()).collect();
        v.extend(whole_rules());
        v.sort();
        v.dedup();
        v
    })
}
/// names of rules the generators know
fn whole_rules() -> Vec<String> {
    let mut o = vec![];
    for i in 0..4000u64 {
        let p = whole::one_rule(&mut G::new(i));
        prf::for_each(&p.cmds, &mut |c, _| {
            if let Cmd::Step { rule, .. } = c {
                o.push(rule.clone());
            }
        });
    }
    o
}

const ODD: &[&str] = &[
    "0", "1", "2", "(- 1)", "-1", "-3", "1/2", "-1/2", "0.0", "1.5", "0/1", "99999999999999999999999", "18446744073709551616", "4294967296", "\"\"", "\"a\"", "\"\\u{7f}\"", "\"bc\"", "#b0", "#b1", "#b01", "#xff", "true", "false",
    "(not true)", "(not (not true))", "(= 0 0)", "(= true true)", "(forall ((x Int)) true)", "(exists ((x Bool)) x)", "(forall ((x Int) (x Bool)) x)", "(choice ((x Int)) true)", "(choice ((x Bool)) x)",
    "(lambda ((x Int)) x)", "((lambda ((x Bool)) x) true)", "(let ((x true)) x)", "(or true)", "(and false)", "(xor true false)", "(=> true true false)", "(distinct 0 1)", "(distinct true false true)", "(ite true 0 1)", "(ite true false true)",
    "(+ 1 1)", "(- 0 1)", "(- 1)", "(* 0 1)", "(div 1 0)", "(mod 1 0)", "(/ 1.0 0.0)", "(< 0 1)", "(<= 0 1)", "(> 0.0 1.5)", "(>= 1 1)", "(abs (- 1))", "(to_real 1)", "(to_int 1.5)", "(is_int 1.5)", "rare-list",
    "(rare-list true)", "(_ bv0 1)", "(_ bv5 2)", "(@bbterm true)", "(@bbterm true false)", "(@pbbterm 0)", "(@pbbterm 0 1)", "((_ @bit_of 0) #b1)", "((_ @bit_of 7) #b1)", "((_ @int_of 0) #b1)", "((_ extract 0 0) #b1)", "((_ extract 1 0) #b01)",
    "((_ zero_extend 0) #b1)", "((_ sign_extend 1) #b1)", "(concat #b1 #b0)", "(bvadd #b1 #b0)", "(bvult #b1 #b0)", "(bvneg #b1)", "(@bv 1 2)", "(@bvsize #b1)", "re.none", "re.all", "re.allchar", "(str.to_re \"\")",
    "(str.to_re \"ab\")", "(re.* re.none)", "(re.++ re.all re.none)", "(re.inter re.all re.none)", "(re.range \"a\" \"\")", "((_ re.loop 2 1) re.all)", "((_ re.^ 3) re.all)", "(str.in_re \"\" re.all)", "(not (str.in_re \"a\" re.none))", "(str.++ \"a\" \"b\")", "(str.++ \"a\" \"\" \"\")",
    "(str.len \"a\")", "(str.at \"a\" 0)", "(str.substr \"abc\" 1 1)", "(str.prefixof \"a\" \"\")", "(str.from_code 99999999)", "(str.to_code \"\")", "(str.replace \"a\" \"\" \"b\")", "(str.indexof \"a\" \"\" (- 1))", "(int.pow2 (- 1))", "(int.log2 0)", "(int.ispow2 0)",
    "(ubv_to_int #b1)", "(sbv_to_int #b1)", "((_ int_to_bv 1) 5)", "(:= x true)", "(:= (x Int) 0)", "(x Int)", "Int", "Bool", "(_ BitVec 1)", "String", "(cl)", "(cl true)", "(! true :named odd)", "(@d true)", "@d", "(= (forall ((x Int)) true) true)",
    "(and)", "(f)", "f", "x", "(_ divisible 2)", "((_ divisible 2) 4)", "(select a 0)", "((as const (Array Int Int)) 0)", "(store ((as const (Array Int Int)) 0) 0 1)", "(select ((as const (Array Int Int)) 0) 0)",
];
fn odd(g: &mut G) -> E {
    let s = g.pick_s(ODD);
    parse_all(s).unwrap()[0].clone()
}
fn subterms(e: &E, out: &mut Vec<E>) {
    out.push(e.clone());
    if let L(v) = e {
        for x in v.iter().skip(1) {
            subterms(x, out);
        }
    }
}
fn all_subterms(p: &Prf) -> Vec<E> {
    let mut o = vec![];
    prf::for_each(&p.cmds, &mut |c, _| match c {
        Cmd::Assume { t, .. } => subterms(t, &mut o),
        Cmd::Step { cl, args, .. } => cl.iter().chain(args).for_each(|t| subterms(t, &mut o)),
        _ => {}
    });
    o.truncate(400);
    o
}
/// every position of the expression
fn positions(e: &E, at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    out.push(at.clone());
    if let L(v) = e {
        for (i, x) in v.iter().enumerate() {
            at.push(i);
            positions(x, at, out);
            at.pop();
        }
    }
}
/// a change of the shape that does not look at sorts
fn rough(g: &mut G, e: &E, pool: &[E]) -> E {
    let mut ps = vec![];
    positions(e, &mut vec![], &mut ps);
    let p = ps[g.u(ps.len())].clone();
    let mut e = e.clone();
    let sub = e.get(&p).clone();
    let new = match g.u(8) {
        0 => odd(g),
        1 | 2 if !pool.is_empty() => pool[g.u(pool.len())].clone(),
        3 => match sub {
            L(mut v) if v.len() > 1 => {
                let i = g.ur(1, v.len() - 1);
                v.remove(i);
                L(v)
            }
            x => not(x),
        },
        4 => match sub {
            L(mut v) if v.len() > 1 => {
                let i = g.ur(1, v.len() - 1);
                let x = v[i].clone();
                v.insert(i, x);
                L(v)
            }
            x => not(x),
        },
        5 => match sub {
            L(mut v) if v.len() > 2 => {
                let (i, j) = (g.ur(1, v.len() - 1), g.ur(1, v.len() - 1));
                v.swap(i, j);
                L(v)
            }
            L(mut v) if v.len() == 2 => v.pop().unwrap(),
            x => x,
        },
        6 => match sub {
            L(mut v) if !v.is_empty() => {
                v[0] = a(g.pick_s(&["and", "or", "not", "=", "=>", "xor", "ite", "distinct", "+", "-", "*", "<", "<=", ">", ">=", "forall", "exists", "choice", "let", "/", "div", "mod", "str.++", "concat", "bvadd", "@bbterm", "re.++", "re.inter"]));
                L(v)
            }
            x => ap1(g.pick_s(&["not", "-", "or", "and", "@bbterm", "str.to_re", "re.*", "to_real"]), x),
        },
        _ => match sub {
            L(v) if !v.is_empty() => v[g.u(v.len())].clone(),
            x => x,
        },
    };
    if p.is_empty() {
        new
    } else {
        e.set(&p, new);
        e
    }
}
/// the odd terms by sort
fn odds() -> &'static [(E, Option<S>)] {
    // atoms are shared by reference counting, so every thread has its own
    thread_local! { static T: &'static [(E, Option<S>)] = Box::leak(ODD.iter().map(|s| parse_all(s).unwrap()[0].clone()).map(|e| { let s = sort_of(&e, &Sig::default(), &[]); (e, s) }).collect::<Vec<_>>().into_boxed_slice()); }
    T.with(|t| *t)
}
/// a subterm becomes an unusual term of the same sort, or is given more or fewer operands
fn odd_at(g: &mut G, e: &E, sig: &Sig) -> E {
    let ps = term_paths(e, sig);
    let (p, s, _) = ps[g.u(ps.len())].clone();
    let sub = e.get(&p).clone();
    let same: Vec<&E> = odds().iter().filter(|o| s.is_some() && o.1 == s).map(|o| &o.0).collect();
    let new = match sub {
        L(mut v) if v.len() > 1 && g.chance(2, 5) => {
            let i = g.ur(1, v.len() - 1);
            if g.bool() {
                let x = v[i].clone();
                v.insert(i, x);
            } else {
                v.remove(i);
            }
            L(v)
        }
        _ if !same.is_empty() => same[g.u(same.len())].clone(),
        x => x,
    };
    let mut e = e.clone();
    if p.is_empty() {
        return new;
    }
    e.set(&p, new);
    e
}
fn term(g: &mut G, e: &E, p: &Prf, pool: &[E]) -> E {
    match g.u(10) {
        0 => odd(g),
        1 => rough(g, e, pool),
        2..=4 => odd_at(g, e, &p.sig),
        _ => mutate(g, e, &p.sig, pool),
    }
}
/// an unusual literal
fn odd_lit(g: &mut G) -> E {
    let v: Vec<&E> = odds().iter().filter(|o| o.1 == Some(S::Bool)).map(|o| &o.0).collect();
    v[g.u(v.len())].clone()
}
/// one change of one command
fn damage(g: &mut G, p: &mut Prf, pool: &[E]) {
    let mut ids = vec![];
    prf::for_each(&p.cmds, &mut |c, _| ids.push(c.id().to_string()));
    if ids.is_empty() {
        return;
    }
    let mut n = if g.bool() { ids.len() - 1 } else { g.u(ids.len()) };
    let q = p.clone();
    let Some(c) = prf::nth_mut(&mut p.cmds, &mut n) else { return };
    match c {
        Cmd::Assume { t, .. } => *t = term(g, t, &q, pool),
        Cmd::Step { cl, rule, prems, args, discharge, .. } => match g.weighted(&[3, 3, 2, 5, 6, 1]) {
            0 => *rule = rule_names()[g.u(rule_names().len())].clone(),
            1 => match g.u(6) {
                0 => prems.clear(),
                1 | 2 if !prems.is_empty() => {
                    let i = g.u(prems.len());
                    prems.remove(i);
                }
                3 if !prems.is_empty() => {
                    let i = g.u(prems.len());
                    let x = prems[i].clone();
                    prems.push(x);
                }
                4 if prems.len() > 1 => {
                    let (i, j) = (g.u(prems.len()), g.u(prems.len()));
                    prems.swap(i, j);
                }
                _ => {
                    let i = g.u(prems.len() + 1);
                    prems.insert(i, ids[g.u(ids.len())].clone());
                }
            },
            2 => match g.u(4) {
                0 => cl.clear(),
                1 => cl.truncate(1),
                2 => {
                    let t = odd_lit(g);
                    cl.push(t);
                }
                _ => {
                    let lits: Vec<E> = pool.to_vec();
                    mutate_clause(g, cl, &lits);
                }
            },
            3 => match g.u(7) {
                0 => args.clear(),
                1 if !args.is_empty() => {
                    let i = g.u(args.len());
                    args.remove(i);
                }
                2 if !args.is_empty() => {
                    let i = g.u(args.len());
                    let x = args[i].clone();
                    args.insert(i, x);
                }
                3 if args.len() > 1 => {
                    let (i, j) = (g.u(args.len()), g.u(args.len()));
                    args.swap(i, j);
                }
                4 | 5 if !args.is_empty() => {
                    let i = g.u(args.len());
                    args[i] = term(g, &args[i].clone(), &q, pool);
                }
                _ => {
                    let t = if !pool.is_empty() && g.bool() { pool[g.u(pool.len())].clone() } else { odd(g) };
                    let i = g.u(args.len() + 1);
                    args.insert(i, t);
                }
            },
            4 => {
                if cl.is_empty() {
                    let t = odd_lit(g);
                    cl.push(t);
                } else {
                    let i = g.u(cl.len());
                    cl[i] = term(g, &cl[i].clone(), &q, pool);
                }
            }
            _ => {
                if discharge.is_empty() || g.chance(1, 3) {
                    discharge.push(ids[g.u(ids.len())].clone());
                } else {
                    let i = g.u(discharge.len());
                    discharge.remove(i);
                }
            }
        },
        Cmd::Sub { args, body, .. } => match g.u(6) {
            0 if !args.is_empty() => {
                let i = g.u(args.len());
                args.remove(i);
            }
            1 if !args.is_empty() => {
                let i = g.u(args.len());
                let x = args[i].clone();
                args.push(x);
            }
            2 | 3 if !args.is_empty() => {
                let i = g.u(args.len());
                args[i] = rough(g, &args[i].clone(), pool);
            }
            4 if body.len() > 1 => {
                let i = g.u(body.len() - 1);
                body.remove(i);
            }
            _ => {
                let t = parse_all(g.pick_s(&["(x Int)", "(:= (x Int) 0)", "(:= x true)", "(vx Bool)", "(:= (vx Bool) true)"])).unwrap()[0].clone();
                args.push(t);
            }
        },
    }
}

fn base(g: &mut G) -> Prf {
    match g.weighted(&[8, 2, 1, 1, 1, 1]) {
        5 => {
            let w = g.chance(1, 3);
            whole::of_step(&fam_str::unfold_step(g, w))
        }
        0 => whole::one_rule(g),
        1 => fam_ctx::gen(g),
        2 => whole::any(g),
        3 => fam_elab::loose(g),
        _ => wild::wild(g),
    }
}
fn options(g: &mut G) -> Opts {
    let mut o = fam_whole::opts(g);
    o.apply_defs = g.chance(1, 3);
    o.expand_lets = g.chance(1, 3);
    o.subtyping = g.chance(1, 4);
    o.strict = g.chance(1, 6);
    o.hole_args = g.bool();
    o
}

/// What happened to one input.
#[derive(Default)]
pub struct Seen {
    pub labels: Vec<String>,
    pub parsed: bool,
}
fn name(r: &Result<bool, Error>) -> &'static str {
    match r {
        Ok(true) => "holey",
        Ok(false) => "valid",
        Err(Error::Parser(..)) => "parse error",
        Err(Error::Checker { .. }) => "step rejected",
        Err(Error::DoesNotReachEmptyClause) => "no empty clause",
        Err(Error::Io(_)) => "io error",
        #[allow(unreachable_patterns)]
        Err(_) => "other error",
    }
}
/// The two known findings of C16 that end in a panic: let terms compared modulo bound names, and
/// assumptions that equal a premise modulo n-ary forms only.
fn known_crash(problem: &[u8], proof: &[u8], rules: Option<&[u8]>, o: &Opts) -> bool {
    if lossy(proof).contains("let") || lossy(problem).contains("let") {
        return true;
    }
    guard(|| {
        let Ok((pb, pf, _, _)) = parser::parse_instance(problem, proof, rules, o.parser()) else { return false };
        pf.commands.iter().any(|c| match c {
            ast::ProofCommand::Assume { term, .. } if !pb.premises.contains(term) => pb
                .premises
                .iter()
                .any(|p| ast::Polyeq::new().mod_reordering(true).mod_nary(true).eq(term, p) && !ast::Polyeq::new().mod_reordering(true).eq(term, p)),
            _ => false,
        })
    })
    .unwrap_or(false)
}
pub const LET: &str = "elaborating let terms compared modulo bound names";
pub const NARY: &str = "elaborating assumptions with n-ary operators";

/// Everything a user can do with the input.
pub fn exercise(g: &mut G, problem: &[u8], proof: &[u8], rules: Option<&[u8]>, o: &Opts) -> Result<Seen, (String, PanicInfo)> {
    let mut s = Seen::default();
    let say = |what: &str| {
        let w = what.to_string();
        move |p: PanicInfo| (w, p)
    };
    let r = guard(|| {
        let r = carcara::check(problem, proof, rules, o.parser(), o.checker(), false);
        if let Err(e) = &r {
            let _ = e.to_string();
        }
        r
    })
    .map_err(say("check"))?;
    s.labels.push(format!("check: {}", name(&r)));
    s.parsed = !matches!(r, Err(Error::Parser(..) | Error::Io(_)));
    if !s.parsed {
        return Ok(s);
    }
    if r.is_ok() && known_crash(problem, proof, rules, o) {
        s.labels.push("elaborate: skipped, known finding".into());
    } else if r.is_ok() || g.chance(1, 20) {
        let (pipe, rotate) = fam_elab::pipeline(g);
        let r = guard(|| {
            let cfg = carcara::elaborator::Config { lia_options: None, uncrowd_rotation: rotate, hole_options: None };
            let r = carcara::check_and_elaborate(problem, proof, rules, o.parser(), o.checker(), cfg, pipe, false);
            match r {
                Ok((_, pb, pf, mut pool)) => {
                    let mut b = vec![];
                    ast::write_proof_to_dest(&mut pool, &pb.prelude, &pf, &mut b, true).is_ok()
                }
                Err(e) => {
                    let _ = e.to_string();
                    false
                }
            }
        })
        .map_err(say("elaborate"))?;
        s.labels.push(format!("elaborate: {}", if r { "done" } else { "error" }));
    }
    if g.chance(1, 40) {
        let n = g.pick(&[1usize, 2, 3, 16]).to_owned();
        let r = guard(|| {
            let r = carcara::check_parallel(problem, proof, rules, o.parser(), o.checker(), false, n, 1 << 21);
            if let Err(e) = &r {
                let _ = e.to_string();
            }
            r
        });
        match r {
            Ok(r) => s.labels.push(format!("parallel: {}", name(&r))),
            // the operating system has no more threads
            Err(p) if p.msg.contains("os error") || p.msg.contains("Os {") => {}
            Err(p) => return Err(("check in parallel".into(), p)),
        }
    }
    if g.chance(1, 3) {
        let sharing = g.bool();
        let k = g.u(40);
        let dist = *g.pick(&[usize::MAX, 0, 1, 2]);
        guard(|| {
            let Ok((pb, pf, _, mut pool)) = parser::parse_instance(problem, proof, rules, o.parser()) else { return };
            let mut b = vec![];
            let _ = ast::write_proof_to_dest(&mut pool, &pb.prelude, &pf, &mut b, sharing);
            let asserts: Vec<_> = pb.premises.iter().cloned().collect();
            let _ = ast::write_asserts(&mut pool, &pb.prelude, &mut b, &asserts, sharing);
            let mut ids = vec![];
            for c in &pf.commands {
                ids.push(c.id().to_string());
                if let ast::ProofCommand::Subproof(q) = c {
                    ids.extend(q.commands.iter().map(|c| c.id().to_string()));
                }
            }
            if !ids.is_empty() {
                let _ = carcara::slice::slice(&pf, &ids[k % ids.len()], &mut pool, dist);
            }
            let _ = ast::ProofNodeForest::from_commands(pf.commands.clone()).into_commands();
        })
        .map_err(say("print and slice"))?;
        s.labels.push("print and slice".into());
    }
    if g.chance(1, 10) {
        guard(|| {
            let _ = carcara::generate_lia_smt_instances(problem, proof, rules, o.parser(), true);
        })
        .map_err(say("generate lia problems"))?;
    }
    Ok(s)
}
fn finish(c: &mut Case, r: Result<Seen, (String, PanicInfo)>, files: Vec<(String, String)>) {
    match r {
        Ok(s) => {
            c.labels.extend(s.labels);
            c.nontrivial = true;
        }
        Err((what, p)) => {
            c.nontrivial = true;
            c.viol = Some(Viol { sig: p.sig(), msg: format!("{what} panics at {}:{}: {}", p.file, p.line, p.msg), files });
        }
    }
}
/// nonsense steps
pub fn steps(g: &mut G) -> Case {
    let mut p = base(g);
    let mut pool = all_subterms(&p);
    if g.chance(1, 6) {
        // literals of another rule
        let q = whole::one_rule(g);
        whole::merge_sig(&mut p.sig, &q.sig);
        pool = all_subterms(&q);
    }
    for _ in 0..[1, 1, 2, 2, 3, 3, 4, 6][g.u(8)] {
        damage(g, &mut p, &pool);
    }
    let mut problem = p.sig.prelude();
    for x in &p.asserts {
        problem.push_str(&format!("(assert {x})\n"));
    }
    let proof = prf::print(&p.cmds);
    let o = options(g);
    let mut c = Case { key: hash_str(&format!("{problem}{proof}{o:?}")), sample: proof.chars().take(400).collect(), ..Case::default() };
    let r = exercise(g, problem.as_bytes(), proof.as_bytes(), None, &o);
    finish(&mut c, r, vec![("problem.smt2".into(), problem), ("proof.alethe".into(), proof), ("options".into(), format!("{o:?}"))]);
    c
}

const TOKENS: &[&str] = &[
    "(", ")", "(", ")", "()", "(cl)", "|", "||", "|a b|", "\"", "\"\"", "\"a\"\"b\"", "\"\\u{41}\"", "\"\\u0041\"", "\"\\u{ffffff}\"", "\"\\u\"", "#", "#b", "#x", "#b2", "#xg", "#b01", "#xA", "0", "00", "01", "-", "-0", "-1", "1/", "1/0", "1/2", "/2", "0.", ".5", "0.0", "1.", "1.5.2", "1e3", "4294967295",
    "4294967296", "18446744073709551616", "99999999999999999999999999999999999999999", ":", "::", ":=", ":rule", ":premises", ":args", ":discharge", ":step", ":named", ":pattern", "!", "_", "as", "const", "let", "forall", "exists", "choice", "lambda", "match", "par", "assume", "step", "anchor", "define-fun", "define-fun-rec", "declare-fun", "declare-const", "declare-sort", "define-sort",
    "assert", "check-sat", "check-sat-assuming", "get-proof", "set-logic", "set-option", "set-info", "exit", "push", "pop", "reset", "declare-datatypes", "declare-datatype", "declare-rare-rule", "define-const", "Bool", "Int", "Real", "String", "RegLan", "BitVec", "Array", "?BitVec", "@", "@t1", ".x", "true", "false", "not", "and", "=", "ite", "cl", "unsat", "sat", "x", "f", "t1", "h0", ";", "; comment",
    "\\", "'", ",", "{", "}", "[", "é", "λ", "𝒳", "\u{0}", "\u{7f}", "\t", "\r", "\n", "rare-list", ":list", "@T0", "Type", "(_ bv3 2)", "(_ bv0 0)", "bv1", "bv", "(_ BitVec 0)", "(_ BitVec 3)", "(_ char #x41)", "extract", "(_ extract 0 1)", "(_ extract 5 2)", "(_ repeat 0)", "(_ zero_extend 4294967295)", "(_ rotate_left 3)", "re.loop", "re.^", "str.++", "re.range", "@bbterm", "@bit_of", "@int_of", "int_to_bv", "divisible", "pow2",
];
fn tokens(s: &str) -> Vec<String> {
    let cs: Vec<char> = s.chars().collect();
    let mut o = vec![];
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        let mut j = i + 1;
        if c.is_whitespace() {
            i += 1;
            continue;
        } else if c == '|' || c == '"' {
            while j < cs.len() && cs[j] != c {
                j += 1;
            }
            j = (j + 1).min(cs.len());
        } else if c != '(' && c != ')' {
            while j < cs.len() && !cs[j].is_whitespace() && !"()|\"".contains(cs[j]) {
                j += 1;
            }
        }
        o.push(cs[i..j].iter().collect());
        i = j;
    }
    o
}
/// range of the balanced expression that starts at `i`
fn balanced(t: &[String], i: usize) -> usize {
    if t[i] != "(" {
        return i + 1;
    }
    let mut d = 0;
    for (j, x) in t.iter().enumerate().skip(i) {
        if x == "(" {
            d += 1;
        } else if x == ")" {
            d -= 1;
            if d == 0 {
                return j + 1;
            }
        }
    }
    t.len()
}
fn garble(g: &mut G, s: &str, other: &[String], n: usize) -> Vec<u8> {
    let mut t = tokens(s);
    for _ in 0..n {
        if t.is_empty() {
            break;
        }
        let i = g.u(t.len());
        match g.weighted(&[2, 1, 1, 5, 2, 2, 4, 2, 2]) {
            0 => {
                t.remove(i);
            }
            1 => {
                let x = t[i].clone();
                t.insert(i, x);
            }
            2 => {
                let j = g.u(t.len());
                t.swap(i, j);
            }
            3 => t[i] = g.pick_s(TOKENS).to_string(),
            4 => t.insert(i, g.pick_s(TOKENS).to_string()),
            5 => {
                let j = balanced(&t, i);
                t.drain(i..j);
            }
            6 => {
                let j = balanced(&t, i);
                let k = g.u(t.len());
                let m = balanced(&t, k);
                let x: Vec<String> = t[k..m].to_vec();
                if t.len() + x.len() < 3000 {
                    t.splice(i..j, x);
                }
            }
            7 => {
                if !other.is_empty() {
                    let j = balanced(&t, i);
                    let k = g.u(other.len());
                    let m = balanced(other, k);
                    if m - k < 300 {
                        t.splice(i..j, other[k..m].to_vec());
                    }
                }
            }
            _ => {
                let j = balanced(&t, i);
                t.insert(j, ")".into());
                t.insert(i, "(".into());
                if g.bool() {
                    t.insert(i + 1, g.pick_s(TOKENS).to_string());
                }
            }
        }
    }
    let sep = if g.chance(1, 12) { "" } else { " " };
    let mut b = t.join(sep).into_bytes();
    match g.u(24) {
        0 => {
            let k = g.u(b.len() + 1);
            b.truncate(k);
        }
        1 => {
            let k = g.u(b.len() + 1);
            let x = g.u(256) as u8;
            b.insert(k, x);
        }
        2 if !b.is_empty() => {
            let k = g.u(b.len());
            b[k] = g.u(256) as u8;
        }
        _ => {}
    }
    b
}
/// Numbers that make objects of that size are not what this is about: bit-vectors have at most 2^32 bits,
/// and powers, repetitions and widths must fit the memory.
fn too_big(b: &[u8]) -> bool {
    let s = String::from_utf8_lossy(b);
    let t = tokens(&s);
    t.windows(3).any(|w| {
        let big = |x: &str| x.trim_start_matches("bv").parse::<u64>().is_ok_and(|n| n > 2000 && n <= u32::MAX as u64);
        w[0] == "_" && big(&w[2]) || big(w[2].as_str()) && s.contains("pow2") || big(&w[2]) && (s.contains("re.") || s.contains("int_to_bv") || s.contains("repeat") || s.contains("BitVec"))
    })
}
fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}
/// broken texts
pub fn texts(g: &mut G) -> Case {
    let (problem, proof) = match g.u(4) {
        0 => {
            let p = base(g);
            let mut s = p.sig.prelude();
            for x in &p.asserts {
                s.push_str(&format!("(assert {x})\n"));
            }
            (s, prf::print(&p.cmds))
        }
        1 => {
            let p = base(g);
            wild::dress(g, &p)
        }
        _ => wild::texts(g),
    };
    let (n, m) = match g.u(5) {
        0 => (g.ur(1, 4), 0),
        1 => (g.ur(1, 4), g.ur(1, 4)),
        _ => (0, g.ur(1, 5)),
    };
    let (tp, tq) = (tokens(&problem), tokens(&proof));
    let problem = if n == 0 { problem.into_bytes() } else { garble(g, &problem, &tq, n) };
    let proof = if m == 0 { proof.into_bytes() } else { garble(g, &proof, &tp, m) };
    let o = options(g);
    let mut c = Case { key: hash_str(&format!("{problem:?}{proof:?}{o:?}")), sample: lossy(&proof).chars().take(300).collect(), ..Case::default() };
    if too_big(&problem) || too_big(&proof) {
        c.label("skipped: large numbers");
        return c;
    }
    let r = exercise(g, &problem, &proof, None, &o);
    finish(&mut c, r, vec![("problem.smt2".into(), lossy(&problem)), ("proof.alethe".into(), lossy(&proof)), ("options".into(), format!("{o:?}"))]);
    c
}
/// broken rewrite rules, and steps that use them
pub fn rules(g: &mut G) -> Case {
    let (problem, proof, rules) = fam_rare::texts(g);
    let (t1, t2) = (tokens(&proof), tokens(&rules));
    let n = g.u(4);
    let m = if n == 0 { g.ur(1, 4) } else { g.u(3) };
    let rules = if n == 0 { rules.into_bytes() } else { garble(g, &rules, &t1, n) };
    let proof = if m == 0 { proof.into_bytes() } else { garble(g, &proof, &t2, m) };
    let o = options(g);
    let mut c = Case { key: hash_str(&format!("{rules:?}{proof:?}{o:?}")), sample: lossy(&rules).chars().take(300).collect(), ..Case::default() };
    if too_big(&rules) || too_big(&proof) {
        c.label("skipped: large numbers");
        return c;
    }
    let r = exercise(g, problem.as_bytes(), &proof, Some(&rules), &o);
    finish(&mut c, r, vec![("problem.smt2".into(), problem), ("proof.alethe".into(), lossy(&proof)), ("rules.rare".into(), lossy(&rules)), ("options".into(), format!("{o:?}"))]);
    c
}

/// well-sorted terms over every operator, in steps of any rule
pub fn anything(g: &mut G) -> Case {
    let np = [0, 0, 1, 1, 2, 3][g.u(6)];
    let mut want = vec![];
    let mut shape = vec![];
    for _ in 0..np {
        let n = [1, 1, 1, 2, 0][g.u(5)];
        shape.push(n);
        want.extend(vec![Some("Bool"); n]);
    }
    let nc = [1, 1, 1, 1, 2, 3, 0][g.u(7)];
    want.extend(vec![Some("Bool"); nc]);
    let na = [0, 0, 0, 1, 2][g.u(5)];
    for _ in 0..na {
        want.push(if g.bool() { None } else { Some(g.pick_s(&["Int", "Bool", "Real"])) });
    }
    let (problem, ts) = fam_sort::soup(g, &want);
    // the same subterms in several places
    let mut pool = vec![];
    ts.iter().for_each(|t| subterms(t, &mut pool));
    let mut ts: Vec<E> = ts.iter().map(|t| if g.chance(1, 3) { twist(g, t) } else { t.clone() }).collect();
    if ts.len() > 1 && g.chance(1, 3) && want[0] == want[ts.len() - 1] {
        let n = ts.len() - 1;
        ts[n] = ts[0].clone();
    }
    let mut it = ts.into_iter();
    let mut cmds = vec![];
    for (i, n) in shape.iter().enumerate() {
        cmds.push(Cmd::step(&format!("h{i}"), it.by_ref().take(*n).collect(), "hole", vec![], vec![]));
    }
    let cl: Vec<E> = it.by_ref().take(nc).map(|t| if g.chance(1, 4) { not(t) } else { t }).collect();
    let mut args: Vec<E> = it.collect();
    if g.chance(1, 4) {
        args.push(odd(g));
    }
    let rule = rule_names()[g.u(rule_names().len())].clone();
    let prems: Vec<String> = (0..np).map(|i| format!("h{i}")).collect();
    let last = Cmd::step("t", cl, &rule, prems, args);
    if g.chance(1, 4) {
        let a1 = g.pick_s(&["(vx Int)", "(:= (vx Int) 0)", "(:= (vb Bool) p0)", "(vb Bool)", "(vs String)", "(:= (vs String) \"a\")"]);
        let args = parse_all(a1).unwrap();
        cmds.push(Cmd::Sub { id: "t".into(), args, body: vec![Cmd::step("t.1", vec![a("p0")], "hole", vec![], vec![]), last] });
    } else {
        cmds.push(last);
    }
    let proof = prf::print(&cmds);
    let o = options(g);
    let mut c = Case { key: hash_str(&format!("{problem}{proof}{o:?}")), sample: proof.chars().take(400).collect(), ..Case::default() };
    let r = exercise(g, problem.as_bytes(), proof.as_bytes(), None, &o);
    finish(&mut c, r, vec![("problem.smt2".into(), problem), ("proof.alethe".into(), proof), ("options".into(), format!("{o:?}"))]);
    c
}
/// exchange the operands of an equality or put a negation
fn twist(g: &mut G, t: &E) -> E {
    match t {
        L(v) if v.len() == 3 && v[0].is("=") => match g.u(3) {
            0 => L(vec![v[0].clone(), v[2].clone(), v[1].clone()]),
            1 => L(vec![v[0].clone(), v[1].clone(), v[1].clone()]),
            _ => L(vec![v[0].clone(), v[2].clone(), v[2].clone()]),
        },
        t => t.clone(),
    }
}
