//! Properties of whole proofs: C11-C14.
use crate::carc::{self, Opts, Verdict};
use crate::eval::Ev;
use crate::fam_term::{rich, variant, widen, Modes};
use crate::libt;
use crate::sexp::*;
use crate::terms::*;
use crate::g::{hash_str, G};
use crate::prf::*;
use crate::runner::{Case, Viol};
use crate::whole;

pub fn opts(g: &mut G) -> Opts {
    let mut o = Opts::default();
    if g.chance(1, 6) {
        o.elaborated = true;
    }
    if g.chance(1, 5) {
        o.ignore_unknown = true;
    }
    if g.chance(1, 5) {
        for _ in 0..g.ur(1, 2) {
            o.allowed.push(g.pick_s(&["resolution", "or", "subproof", "bind", "cong", "refl", "implies", "and", "foo", "hole", "assume"]).into());
        }
    }
    o
}
/// C14
pub fn parallel(g: &mut G) -> Case {
    let mut c = Case::default();
    let mut p = whole::any(g);
    let nmut = g.weighted(&[5, 3, 1]);
    for _ in 0..nmut {
        mutate_prf(g, &mut p);
    }
    let o = opts(g);
    if g.chance(1, 10) {
        // make some step's rule unknown
        let k = g.u(whole::count(&p.cmds));
        let mut i = 0;
        for_each_mut(&mut p.cmds, &mut |c| {
            if let Cmd::Step { rule, .. } = c {
                if i == k {
                    *rule = "foo".into();
                }
            }
            i += 1;
        });
    }
    let (pb, pf) = (p.problem(), p.proof());
    c.key = hash_str(&pf);
    let s = carc::check(&pb, &pf, &o);
    if let Verdict::ParseErr(_) = s {
        c.label("unparsed");
        return c;
    }
    let n = whole::count(&p.cmds);
    c.label(format!("{}{}", s.class(), if n > 20 { "-long" } else { "" }));
    c.nontrivial = true;
    c.sample = pf.clone();
    let mut ths = vec![2, g.ur(1, 8)];
    if g.chance(1, 4) {
        ths.push(3);
        ths.push(g.ur(9, 16));
    }
    for t in ths {
        let v = carc::check_par(&pb, &pf, &o, t);
        let same = match (&s, &v) {
            (Verdict::Panic(_), Verdict::Panic(_)) => true,
            (a, b) => a.class() == b.class(),
        };
        if !same {
            c.viol = Some(Viol {
                sig: format!("sequential {} parallel {}", s.class(), v.class()),
                msg: format!("sequential: {s:?}; with {t} threads: {v:?} (options {o:?})"),
                files: p.files(),
            });
            return c;
        }
    }
    c
}

// --- C11 ---------------------------------------------------------------------------------------

pub fn assumes(g: &mut G) -> Case {
    let mut c = Case::default();
    let cfg = rich(g);
    let mut tg = TG::new(g, cfg);
    let n = tg.g.ur(1, 4);
    let mut asserts = vec![];
    for _ in 0..n {
        let d = tg.g.ur(1, 4);
        let mut t = tg.boolt(d);
        if tg.g.bool() {
            t = widen(tg.g, &t, &tg.sig);
        }
        asserts.push(t);
    }
    let d = tg.g.u(3);
    let other = tg.boolt(d);
    let sig = tg.sig.clone();
    let base = asserts[g.u(n)].clone();
    let m = Modes { reorder: true, alpha: false, nary: true, concat: false };
    let mut k = 0;
    let kind = g.weighted(&[2, 4, 5, 1]);
    let t = match kind {
        0 => base.clone(),
        1 => variant(g, &base, m, &mut k),
        2 => {
            let mut e = if g.bool() { variant(g, &base, m, &mut k) } else { base.clone() };
            for _ in 0..g.ur(1, 2) {
                e = mutate(g, &e, &sig, &[other.clone()]);
            }
            e
        }
        _ => other.clone(),
    };
    let o = Opts { elaborated: g.chance(1, 3), ..Opts::default() };
    let named = g.chance(1, 6);
    let mut pb = sig.prelude();
    for (i, x) in asserts.iter().enumerate() {
        if named && g.bool() {
            pb.push_str(&format!("(assert (! {x} :named nm{i}))\n"));
        } else {
            pb.push_str(&format!("(assert {x})\n"));
        }
    }
    let local = g.chance(1, 8);
    let pf = if local {
        format!("(anchor :step t1)\n(assume t1.h {t})\n(step t1.p (cl {t}) :rule reordering :premises (t1.h))\n(step t1 (cl (not {t}) {t}) :rule subproof :discharge (t1.h))\n")
    } else {
        format!("(assume h {t})\n")
    };
    c.key = hash_str(&format!("{pb}{pf}{}", o.elaborated));
    let v = carc::check(&pb, &pf, &o);
    let files = vec![("problem.smt2".to_string(), pb.clone()), ("proof.alethe".to_string(), pf.clone())];
    let acc = match &v {
        Verdict::ParseErr(_) => {
            c.label("unparsed");
            return c;
        }
        Verdict::Panic(m) => {
            c.viol = Some(Viol { sig: m.clone(), msg: "panic".into(), files });
            return c;
        }
        Verdict::Rejected(_, r, _) => {
            if r != "assume" {
                c.viol = Some(Viol { sig: format!("assume test rejected at {r}"), msg: format!("{v:?}"), files });
                return c;
            }
            false
        }
        _ => true,
    };
    c.nontrivial = true;
    c.sample = format!("{}{pf}", asserts.iter().map(|x| format!("(assert {x}) ")).collect::<String>());
    c.label(format!("{}{}-{}", ["same", "variant", "mutant", "other"][kind], if o.elaborated { "-strict" } else { "" }, if acc { "accepted" } else { "rejected" }));
    if local {
        if !acc {
            c.viol = Some(Viol { sig: "local assumption rejected".into(), msg: format!("{v:?}"), files });
        }
        return c;
    }
    // identical in the parsed representation
    let mut texts: Vec<String> = asserts.iter().map(|x| x.to_string()).collect();
    texts.push(t.to_string());
    let parsed = carc::guard(|| {
        let mut pool = carcara::ast::PrimitivePool::new();
        libt::parse_terms(&mut pool, &sig, &texts).map(|ts| {
            let l = ts.last().unwrap().clone();
            let same = ts[..ts.len() - 1].iter().any(|x| libt::to_e(x) == libt::to_e(&l));
            (same, ts.iter().map(libt::to_e).collect::<Vec<_>>())
        })
    });
    let Ok(Ok((same, es))) = parsed else { return c };
    if same && !acc {
        c.viol = Some(Viol { sig: "exact assumption rejected".into(), msg: format!("{v:?}"), files });
        return c;
    }
    if o.elaborated {
        if acc && !same {
            c.viol = Some(Viol { sig: "strict mode accepts a different assumption".into(), msg: format!("{t} is not syntactically an assertion"), files });
        }
        return c;
    }
    if kind == 1 && !acc {
        c.viol = Some(Viol { sig: "documented variant rejected".into(), msg: format!("{v:?}"), files });
        return c;
    }
    if acc && !same {
        // must be equivalent to one of the assertions
        let mut alive: Vec<bool> = vec![true; n];
        let seed = g.seed();
        for mo in crate::eval::models(&sig, 120, seed) {
            let Some(x) = Ev::new(&mo).bool(&es[n]) else { continue };
            for i in 0..n {
                if alive[i] && Ev::new(&mo).bool(&es[i]) == Some(!x) {
                    alive[i] = false;
                }
            }
        }
        if !alive.iter().any(|x| *x) {
            c.viol = Some(Viol { sig: "assumption accepted that no assertion states".into(), msg: format!("{t} differs from every assertion in some model"), files });
        }
    }
    c
}

// --- C12 ---------------------------------------------------------------------------------------

/// Structural rules of Alethe proofs, independent of the clauses.
pub fn wellformed(cmds: &[Cmd]) -> Result<(), String> {
    // scopes: id -> is assumption
    type Scope = Vec<(String, bool)>;
    fn vis<'a>(sc: &'a [Scope], id: &str) -> Option<(usize, &'a (String, bool))> {
        sc.iter().enumerate().rev().find_map(|(d, s)| s.iter().find(|x| x.0 == id).map(|x| (d, x)))
    }
    fn go(cmds: &[Cmd], sc: &mut Vec<Scope>, end: Option<&str>) -> Result<(), String> {
        let mut stepped = false;
        for (i, c) in cmds.iter().enumerate() {
            let last = i + 1 == cmds.len();
            if !matches!(c, Cmd::Sub { .. }) && vis(sc, c.id()).is_some() {
                return Err(format!("repeated id {}", c.id()));
            }
            match c {
                Cmd::Assume { id, .. } => {
                    if end.is_some() && stepped {
                        return Err(format!("assumption {id} after a step"));
                    }
                    if end.is_some() && last {
                        return Err(format!("subproof ends with the assumption {id}"));
                    }
                    sc.last_mut().unwrap().push((id.clone(), true));
                }
                Cmd::Step { id, prems, discharge, rule, .. } => {
                    stepped = true;
                    for p in prems {
                        if vis(sc, p).is_none() {
                            return Err(format!("premise {p} of {id} is not visible"));
                        }
                    }
                    let closing = end.is_some() && last;
                    if !discharge.is_empty() && (!closing || rule != "subproof") {
                        return Err(format!("{id} discharges but ends no subproof"));
                    }
                    let d = sc.len() - 1;
                    for p in discharge {
                        match vis(sc, p) {
                            Some((k, (_, true))) if k == d => {}
                            _ => return Err(format!("{id} discharges {p}")),
                        }
                    }
                    if closing {
                        for (a, is_asm) in sc.last().unwrap() {
                            if *is_asm && !discharge.contains(a) {
                                return Err(format!("{a} is not discharged"));
                            }
                        }
                        if cmds.len() < 2 {
                            return Err("empty subproof".into());
                        }
                        if end != Some(id) {
                            return Err("wrong end".into());
                        }
                    } else if end == Some(id) {
                        return Err("ends early".into());
                    }
                    sc.last_mut().unwrap().push((id.clone(), false));
                }
                Cmd::Sub { id, body, .. } => {
                    sc.push(vec![]);
                    go(body, sc, Some(id))?;
                    sc.pop();
                    sc.last_mut().unwrap().push((id.clone(), false));
                }
            }
        }
        Ok(())
    }
    go(cmds, &mut vec![vec![]], None)
}
fn top_empty(cmds: &[Cmd]) -> bool {
    cmds.iter().any(|c| !matches!(c, Cmd::Assume { .. }) && c.clause().is_empty())
}
fn nth<'a>(cmds: &'a mut Vec<Cmd>, n: &mut usize) -> Option<&'a mut Cmd> {
    for c in cmds.iter_mut() {
        if *n == 0 {
            return Some(c);
        }
        *n -= 1;
        if let Cmd::Sub { body, .. } = c {
            if let Some(x) = nth(body, n) {
                return Some(x);
            }
        }
    }
    None
}
/// All command lists (top level and subproof bodies).
fn with_list(cmds: &mut Vec<Cmd>, n: usize, f: &mut dyn FnMut(&mut Vec<Cmd>)) -> usize {
    let mut k = n;
    if k == 0 {
        f(cmds);
    }
    k = k.wrapping_sub(1);
    for c in cmds.iter_mut() {
        if let Cmd::Sub { body, .. } = c {
            k = with_list(body, k, f);
        }
    }
    k
}
fn count_lists(cmds: &[Cmd]) -> usize {
    let mut n = 1;
    for_each(cmds, &mut |c, _| n += matches!(c, Cmd::Sub { .. }) as usize);
    n
}
pub fn corrupt(g: &mut G, p: &mut Prf) -> &'static str {
    let mut ids: Vec<String> = vec![];
    for_each(&p.cmds, &mut |c, _| ids.push(c.id().to_string()));
    let other = ids[g.u(ids.len())].clone();
    let mut n = g.u(ids.len());
    match g.u(12) {
        0 | 1 => {
            // premise to some other step
            for _ in 0..ids.len() {
                let mut k = n;
                if let Some(Cmd::Step { prems, .. }) = nth(&mut p.cmds, &mut k) {
                    if !prems.is_empty() {
                        let i = g.u(prems.len());
                        prems[i] = if g.chance(1, 8) { "nosuch".into() } else { other };
                        return "premise";
                    }
                }
                n = (n + 1) % ids.len();
            }
            "none"
        }
        2 => {
            // rename a command; the references stay or follow
            let from = ids[n].clone();
            let follow = g.bool();
            for_each_mut(&mut p.cmds, &mut |c| {
                let fix = |x: &mut String| {
                    if *x == from {
                        *x = other.clone();
                    }
                };
                match c {
                    Cmd::Assume { id, .. } | Cmd::Sub { id, .. } => fix(id),
                    Cmd::Step { id, prems, discharge, .. } => {
                        fix(id);
                        if follow {
                            prems.iter_mut().for_each(fix);
                            discharge.iter_mut().for_each(fix);
                        }
                    }
                }
            });
            "rename"
        }
        3 => {
            // drop a command
            let k = g.u(count_lists(&p.cmds));
            let r = g.seed() as usize;
            with_list(&mut p.cmds, k, &mut |l| {
                if l.len() > 1 {
                    l.remove(r % l.len());
                }
            });
            "drop"
        }
        4 => {
            // swap two commands
            let k = g.u(count_lists(&p.cmds));
            let (r, s) = (g.seed() as usize, g.seed() as usize);
            with_list(&mut p.cmds, k, &mut |l| {
                let (i, j) = (r % l.len(), s % l.len());
                l.swap(i, j);
            });
            "swap"
        }
        5 => {
            // splice the body of a subproof into the outer scope
            let k = g.u(count_lists(&p.cmds));
            let r = g.seed() as usize;
            with_list(&mut p.cmds, k, &mut |l| {
                let subs: Vec<usize> = (0..l.len()).filter(|i| matches!(l[*i], Cmd::Sub { .. })).collect();
                if !subs.is_empty() {
                    let i = subs[r % subs.len()];
                    if let Cmd::Sub { body, .. } = l.remove(i) {
                        for (j, c) in body.into_iter().enumerate() {
                            l.insert(i + j, c);
                        }
                    }
                }
            });
            "splice"
        }
        6 => {
            // discharge list
            for _ in 0..ids.len() {
                let mut k = n;
                if let Some(Cmd::Step { rule, discharge, .. }) = nth(&mut p.cmds, &mut k) {
                    if rule == "subproof" || g.chance(1, 10) {
                        match g.u(4) {
                            0 if !discharge.is_empty() => {
                                let i = g.u(discharge.len());
                                discharge.remove(i);
                            }
                            1 if !discharge.is_empty() => {
                                let i = g.u(discharge.len());
                                discharge[i] = other;
                            }
                            2 if !discharge.is_empty() => {
                                let i = g.u(discharge.len());
                                let x = discharge[i].clone();
                                discharge.push(x);
                            }
                            _ => discharge.push(other),
                        }
                        return "discharge";
                    }
                }
                n = (n + 1) % ids.len();
            }
            "none"
        }
        7 => {
            // an assertion disappears, or changes
            if !p.asserts.is_empty() {
                let i = g.u(p.asserts.len());
                if g.bool() {
                    p.asserts.remove(i);
                } else {
                    let sig = p.sig.clone();
                    p.asserts[i] = mutate(g, &p.asserts[i], &sig, &[]);
                }
            }
            "assertion"
        }
        8 => {
            // move a command to another list
            let k = g.u(count_lists(&p.cmds));
            let k2 = g.u(count_lists(&p.cmds));
            let (r, s) = (g.seed() as usize, g.seed() as usize);
            let mut moved = None;
            with_list(&mut p.cmds, k, &mut |l| {
                if l.len() > 1 {
                    let i = r % l.len();
                    if !matches!(l[i], Cmd::Sub { .. }) {
                        moved = Some(if s % 2 == 0 { l.remove(i) } else { l[i].clone() });
                    }
                }
            });
            if let Some(c) = moved {
                with_list(&mut p.cmds, k2, &mut |l| {
                    let j = s % (l.len() + 1);
                    l.insert(j, c.clone());
                });
            }
            "move"
        }
        9 => {
            // one literal of one clause
            let sig = p.sig.clone();
            for _ in 0..ids.len() {
                let mut k = n;
                match nth(&mut p.cmds, &mut k) {
                    Some(Cmd::Step { cl, .. }) => {
                        let pool = cl.clone();
                        if !cl.is_empty() && g.chance(2, 3) {
                            let i = g.u(cl.len());
                            cl[i] = mutate(g, &cl[i], &sig, &pool);
                        } else {
                            crate::step::mutate_clause(g, cl, &pool);
                        }
                        return "clause";
                    }
                    Some(Cmd::Assume { t, .. }) => {
                        *t = mutate(g, t, &sig, &[]);
                        return "assume";
                    }
                    _ => {}
                }
                n = (n + 1) % ids.len();
            }
            "none"
        }
        10 => {
            // the end of a subproof gets another name
            let mut k = n;
            for _ in 0..ids.len() {
                let mut kk = k;
                if let Some(Cmd::Sub { id, .. }) = nth(&mut p.cmds, &mut kk) {
                    *id = if g.bool() { other } else { "nosuch".into() };
                    return "anchor-id";
                }
                k = (k + 1) % ids.len();
            }
            "none"
        }
        _ => {
            // an empty clause derived below a local assumption
            let k = g.u(p.cmds.len() + 1);
            let body = vec![
                Cmd::Assume { id: "z.a".into(), t: a("false") },
                Cmd::step("z.f", vec![not(a("false"))], "false", vec![], vec![]),
                Cmd::step("z.e", vec![], "resolution", vec!["z.a".into(), "z.f".into()], vec![]),
                Cmd::step("z.g", vec![a("true")], "true", vec![], vec![]),
                Cmd::Step { id: "z".into(), cl: vec![not(a("false")), a("true")], rule: "subproof".into(), prems: vec![], args: vec![], discharge: vec!["z.a".into()] },
            ];
            p.cmds.insert(k, Cmd::Sub { id: "z".into(), args: vec![], body });
            if g.chance(2, 3) {
                p.cmds.pop();
            }
            "inner-empty"
        }
    }
}
pub fn structure(g: &mut G) -> Case {
    let mut c = Case::default();
    let mut p = if g.chance(2, 3) {
        let d = g.ur(1, 6);
        let cfg = if g.chance(3, 4) { Cfg { names: 5, ..Cfg::prop() } } else { Cfg::uf() };
        whole::refutation(g, cfg, false, d, 25)
    } else {
        whole::any(g)
    };
    let mut kinds = vec![];
    for _ in 0..g.weighted(&[2, 8, 2]) {
        kinds.push(corrupt(g, &mut p));
    }
    let (pb, pf) = (p.problem(), p.proof());
    c.key = hash_str(&format!("{pb}{pf}"));
    let v = carc::check(&pb, &pf, &Opts::default());
    let k = kinds.first().copied().unwrap_or("intact");
    // the printed commands, re-read: mutations of ids may change the nesting
    let cmds = parse_proof(&pf);
    c.sample = pf.clone();
    let mk = |sig: &str, msg: String| Some(Viol { sig: sig.into(), msg, files: p.files() });
    match &v {
        Verdict::Panic(m) => {
            c.viol = mk(&format!("panic: {m}"), "the checker panics".into());
            return c;
        }
        Verdict::ParseErr(_) => {
            c.label(format!("{k}:parse-error"));
            c.nontrivial = cmds.is_ok();
            return c;
        }
        Verdict::Rejected(..) => {
            c.label(format!("{k}:rejected"));
            c.nontrivial = true;
            if kinds.is_empty() && p.label == "refutation" {
                c.viol = mk("rejects intact refutation", format!("{v:?}"));
            }
            return c;
        }
        _ => {}
    }
    c.nontrivial = true;
    c.label(format!("{k}:{}", v.class()));
    let cmds = match cmds {
        Ok(x) => x,
        Err(e) => {
            c.viol = mk("accepts malformed proof", format!("{v:?} but the proof is malformed: {e}"));
            return c;
        }
    };
    if let Err(e) = wellformed(&cmds) {
        c.viol = mk("accepts ill-formed proof", format!("{v:?} but {e}"));
        return c;
    }
    let top = top_empty(&cmds);
    if top != matches!(v, Verdict::Valid | Verdict::Holey) {
        c.viol = mk("empty clause", format!("{v:?}, but the empty clause is {}concluded at top level", if top { "" } else { "not " }));
        return c;
    }
    if matches!(v, Verdict::NoEmpty) && kinds.is_empty() {
        c.viol = mk("intact refutation does not reach the empty clause", format!("{v:?}"));
        return c;
    }
    let seed = g.seed();
    if hygienic(&cmds, &p.sig) {
        let q = Prf { cmds, ..p.clone() };
        if let Some((id, rule, m)) = step_countermodel(&q, 60, seed, &["hole", "lia_generic", "drat"]) {
            c.viol = mk(&format!("unsound step {rule}"), format!("step {id} ({rule}) is accepted, but does not follow from its premises: {m}"));
            return c;
        }
    }
    if v == Verdict::Valid {
        for m in crate::eval::models(&p.sig, 200, seed) {
            if p.asserts.iter().all(|x| Ev::new(&m).bool(x) == Some(true)) {
                c.viol = mk("valid proof of satisfiable assertions", format!("all assertions hold in: {}", crate::step::describe_model(&p.sig, &m)));
                return c;
            }
        }
    }
    c
}

// --- C13 ---------------------------------------------------------------------------------------

const KNOWN: &str = "true false not_not and_pos and_neg or_pos or_neg xor_pos1 xor_pos2 xor_neg1 xor_neg2 implies_pos implies_neg1 implies_neg2 equiv_pos1 equiv_pos2 equiv_neg1 equiv_neg2 ite_pos1 ite_pos2 ite_neg1 ite_neg2 eq_reflexive eq_transitive eq_congruent eq_congruent_pred distinct_elim la_rw_eq la_generic la_disequality la_totality la_tautology poly_simp bv_poly_simp poly_simp_rel bv_poly_simp_eq forall_inst qnt_join qnt_rm_unused resolution th_resolution refl trans cong ho_cong and_intro and tautology not_or or not_and xor1 xor2 not_xor1 not_xor2 implies not_implies1 not_implies2 equiv1 equiv2 not_equiv1 not_equiv2 ite1 ite2 not_ite1 not_ite2 ite_intro contraction connective_def ite_simplify eq_simplify and_simplify or_simplify not_simplify implies_simplify equiv_simplify bool_simplify qnt_simplify div_simplify prod_simplify unary_minus_simplify minus_simplify sum_simplify comp_simplify nary_elim ac_simp aci_simp bfun_elim bind qnt_cnf miniscope_distribute miniscope_split miniscope_ite subproof let onepoint sko_ex sko_forall reordering shuffle symm not_symm eq_symmetric weakening bind_let la_mult_pos la_mult_neg mod_simplify evaluate drup drat strict_resolution rare_rewrite bitblast_const bitblast_var bitblast_and bitblast_or bitblast_xor bitblast_xnor bitblast_not bitblast_comp bitblast_ult bitblast_slt bitblast_add bitblast_mult bitblast_neg bitblast_equal bitblast_extract bitblast_concat bitblast_sign_extend concat_eq concat_unify concat_conflict concat_csplit_prefix concat_csplit_suffix concat_split_prefix concat_split_suffix concat_lprop_prefix concat_lprop_suffix concat_cprop_prefix concat_cprop_suffix pbblast_bveq pbblast_bvult pbblast_bvugt pbblast_bvuge pbblast_bvule pbblast_bvslt pbblast_bvsgt pbblast_bvsge pbblast_bvsle pbblast_pbbvar pbblast_pbbconst pbblast_bvxor pbblast_bvand pbblast_bvxor_ith_bit pbblast_bvand_ith_bit cp_addition cp_multiplication cp_division cp_saturation cp_literal cp_normalize string_decompose string_length_pos string_length_non_empty re_inter re_kleene_star_unfold_pos re_concat_unfold_pos re_unfold_neg re_unfold_neg_concat_fixed_prefix re_unfold_neg_concat_fixed_suffix";

pub fn holey(g: &mut G) -> Case {
    let mut c = Case::default();
    let mut p = whole::any(g);
    // base must be accepted
    let base = carc::check(&p.problem(), &p.proof(), &Opts::default());
    c.key = hash_str(&p.proof());
    if !matches!(base, Verdict::Valid | Verdict::Holey) {
        c.label("base-not-accepted");
        return c;
    }
    let mut rules: Vec<(String, String)> = vec![];
    let collect = |cmds: &[Cmd], rules: &mut Vec<(String, String)>| {
        rules.clear();
        for_each(cmds, &mut |c, _| {
            if let Cmd::Step { id, rule, .. } = c {
                rules.push((id.clone(), rule.clone()));
            }
        });
    };
    collect(&p.cmds, &mut rules);
    let mk = |p: &Prf, sig: &str, msg: String| Some(Viol { sig: sig.into(), msg, files: p.files() });
    let has_hole = rules.iter().any(|r| r.1 == "hole" || r.1 == "lia_generic");
    if has_hole != (base == Verdict::Holey) {
        c.viol = mk(&p, "holey verdict", format!("{base:?} but the proof has {}holes", if has_hole { "" } else { "no " }));
        return c;
    }
    c.nontrivial = true;
    // options
    let mut o = Opts::default();
    o.ignore_unknown = g.bool();
    for _ in 0..g.u(3) {
        let r = match g.u(4) {
            0 | 1 => rules[g.u(rules.len())].1.clone(),
            2 => "foo".into(),
            _ => g.pick_s(&["bar", "assume", "Resolution", "resolution ", "re", "trust", "hole"]).into(),
        };
        o.allowed.push(r);
    }
    // some steps get unknown rules
    let nu = g.weighted(&[3, 3, 1]);
    for _ in 0..nu {
        let k = g.u(rules.len());
        let nm = match g.u(6) {
            0 => format!("{}x", rules[k].1),
            1 => rules[k].1.to_uppercase(),
            2 => "|my rule|".into(),
            3 => "bar".into(),
            _ => "foo".to_string(),
        };
        let mut i = 0;
        for_each_mut(&mut p.cmds, &mut |c| {
            if let Cmd::Step { rule, discharge, .. } = c {
                // only `subproof` may discharge assumptions
                if i == k && discharge.is_empty() {
                    *rule = nm.clone();
                }
                i += 1;
            }
        });
    }
    // and sometimes one clause is damaged
    let mut damaged: Option<String> = None;
    if g.chance(1, 3) {
        let k = g.u(rules.len());
        let mut i = 0;
        let wrong = ["xx0"];
        for_each_mut(&mut p.cmds, &mut |c| {
            if let Cmd::Step { cl, id, .. } = c {
                if i == k {
                    cl.push(a(wrong[0]));
                    damaged = Some(id.clone());
                }
                i += 1;
            }
        });
        p.sig.funs.push((std::rc::Rc::from("xx0"), vec![], crate::eval::S::Bool));
    }
    collect(&p.cmds, &mut rules);
    let v = carc::check(&p.problem(), &p.proof(), &o);
    c.sample = format!("{o:?} {}", p.proof());
    c.key = hash_str(&format!("{o:?}{}{}", p.problem(), p.proof()));
    let known: Vec<&str> = KNOWN.split(' ').collect();
    let strip_q = |r: &str| r.trim_matches('|').to_string();
    let is_allowed = |r: &str| o.allowed.contains(&strip_q(r));
    let is_known = |r: &str| known.contains(&&*strip_q(r)) || r == "hole" || r == "lia_generic";
    let first_bad_unknown = rules.iter().position(|(_, r)| !is_allowed(r) && !is_known(r) && !o.ignore_unknown);
    let unchecked = |r: &str| is_allowed(r) || r == "hole" || r == "lia_generic" || (!is_known(r) && o.ignore_unknown);
    let any_unchecked = rules.iter().any(|(_, r)| unchecked(r));
    c.label(format!("{}{}{}{}", if nu > 0 { "unknown " } else { "" }, if o.allowed.is_empty() { "" } else { "allowed " }, if damaged.is_some() { "damaged " } else { "" }, v.class()));
    match (&v, first_bad_unknown) {
        (Verdict::Panic(m), _) => c.viol = mk(&p, &format!("panic: {m}"), "panic".into()),
        (Verdict::Valid | Verdict::Holey | Verdict::NoEmpty, Some(i)) => {
            c.viol = mk(&p, "unknown rule accepted", format!("{v:?} with {o:?}, but step {} has unknown rule {}", rules[i].0, rules[i].1));
        }
        (Verdict::Rejected(id, _, _), Some(i)) if damaged.is_none() => {
            if strip_q(&rules[i].0) != *id {
                c.viol = mk(&p, "wrong step blamed", format!("{v:?} with {o:?}, but only step {} is wrong", rules[i].0));
            }
        }
        (Verdict::Rejected(id, _, _), None) if damaged.is_none() => {
            c.viol = mk(&p, "allowing rules changes another step", format!("{v:?} with {o:?} (step {id})"));
        }
        (Verdict::Valid | Verdict::Holey, None) => {
            if any_unchecked != (v == Verdict::Holey) {
                c.viol = mk(&p, "holey verdict", format!("{v:?} with {o:?}"));
            } else if let Some(d) = &damaged {
                let r = rules.iter().find(|r| r.0 == *d).unwrap();
                // an extra literal without a use: only unchecked steps, or weakening-like rules, take it
                if !unchecked(&r.1) && !["weakening", "resolution", "th_resolution", "drup", "drat", "la_generic", "tautology", "ite_intro"].contains(&&*r.1) {
                    c.viol = mk(&p, "damaged step accepted", format!("{v:?} with {o:?}: step {d}"));
                }
            }
        }
        _ => {}
    }
    c
}
