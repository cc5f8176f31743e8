//! Single-step quantifier rules.
use crate::eval::S;
use crate::fam_ctx::{free_names, subst_ca};
use crate::g::G;
use crate::sexp::*;
use crate::step::*;
use crate::terms::*;
use std::collections::HashMap;

fn cfg(g: &mut G) -> Cfg {
    match g.u(5) {
        0 => Cfg { lets: true, ..Cfg::quant() },
        1 => Cfg { choice: true, ..Cfg::quant() },
        _ => Cfg::quant(),
    }
}
const VARS: [&str; 7] = ["vx", "vy", "vz", "vw", "a0", "p0", "a1"];

/// Distinct variables (names may clash with constants and inner binders).
fn vars(tg: &mut TG, lo: usize, hi: usize) -> Vec<(String, S)> {
    let n = tg.g.ur(lo, hi);
    let mut v: Vec<(String, S)> = vec![];
    while v.len() < n {
        let k = tg.g.weighted(&[6, 5, 4, 3, 1, 1, 1]);
        let mut name = VARS[k].to_string();
        while v.iter().any(|x| x.0 == name) {
            name.push('q');
        }
        let ss = tg.finite_sorts();
        let s = ss[tg.g.u(ss.len())].clone();
        if let S::U(n) = &s {
            let n = n.to_string();
            tg.sig.sort(&n);
        }
        v.push((name, s));
    }
    v
}
fn bl(vs: &[(String, S)]) -> Vec<(E, E)> {
    vs.iter().map(|x| (a(&x.0), x.1.e())).collect()
}
fn in_scope<T>(tg: &mut TG, vs: &[(String, S)], f: impl FnOnce(&mut TG) -> T) -> T {
    tg.scope.extend(vs.iter().cloned());
    let r = f(tg);
    let n = tg.scope.len() - vs.len();
    tg.scope.truncate(n);
    r
}
fn body(tg: &mut TG, vs: &[(String, S)], d: usize) -> E {
    in_scope(tg, vs, |tg| tg.boolt(d))
}
fn q(tg: &mut TG) -> &'static str {
    tg.g.pick_s(&["forall", "exists"])
}

pub fn forall_inst(g: &mut G) -> Step {
    let c = cfg(g);
    let mut tg = TG::new(g, c);
    let vs = vars(&mut tg, 1, 3);
    let d = tg.g.ur(1, 3);
    let b = body(&mut tg, &vs, d);
    let vals: Vec<E> = vs
        .iter()
        .map(|v| {
            let d = tg.g.u(3);
            tg.term(&v.1, d)
        })
        .collect();
    let map: HashMap<String, E> = vs.iter().zip(&vals).map(|(v, t)| (v.0.clone(), t.clone())).collect();
    let mut fresh = 0;
    let mut r = subst_ca(&b, &map, &mut fresh);
    if tg.g.chance(1, 4) {
        let mut n = 1000;
        let gg = &mut *tg.g;
        r = crate::fam_eq::alpha(&r, &mut n, &mut || gg.bool());
    }
    let cl = or(vec![not(bind("forall", &bl(&vs), b)), r]);
    Step::new(tg.sig, "forall_inst", vec![], vals, vec![cl])
}
pub fn qnt_join(g: &mut G) -> Step {
    let c = cfg(g);
    let mut tg = TG::new(g, c);
    let v1 = vars(&mut tg, 1, 3);
    let v2 = if tg.g.chance(1, 4) {
        let k = tg.g.u(v1.len());
        let mut v = vars(&mut tg, 1, 2);
        // a shadowing duplicate of the same sort
        v.retain(|x| x.0 != v1[k].0);
        v.push(v1[k].clone());
        v
    } else {
        vars(&mut tg, 1, 3)
    };
    let mut all = v1.clone();
    for x in &v2 {
        if !all.contains(x) {
            all.push(x.clone());
        }
    }
    // different sorts for the same name: only fine if the later one wins in the list too
    let b = in_scope(&mut tg, &v1, |tg| body(tg, &v2, 2));
    let qn = q(&mut tg);
    let l = bind(qn, &bl(&v1), bind(qn, &bl(&v2), b.clone()));
    let r = bind(qn, &bl(&all), b);
    Step::new(tg.sig, "qnt_join", vec![], vec![], vec![eq(l, r)])
}
pub fn qnt_rm_unused(g: &mut G) -> Step {
    let c = cfg(g);
    let mut tg = TG::new(g, c);
    let vs = vars(&mut tg, 1, 4);
    let d = tg.g.ur(0, 3);
    let b = body(&mut tg, &vs, d);
    let fv = free_names(&b);
    let keep: Vec<(String, S)> = vs.iter().filter(|v| fv.contains(&v.0) || tg.g.chance(1, 6)).cloned().collect();
    let qn = q(&mut tg);
    let l = bind(qn, &bl(&vs), b.clone());
    let r = if keep.is_empty() { b } else { bind(qn, &bl(&keep), b) };
    Step::new(tg.sig, "qnt_rm_unused", vec![], vec![], vec![eq(l, r)])
}
pub fn qnt_simplify(g: &mut G) -> Step {
    let c = cfg(g);
    let mut tg = TG::new(g, c);
    let vs = vars(&mut tg, 1, 4);
    let qn = q(&mut tg);
    let t = a(tg.g.pick_s(&["true", "false"]));
    Step::new(tg.sig, "qnt_simplify", vec![], vec![], vec![eq(bind(qn, &bl(&vs), t.clone()), t)])
}
pub fn miniscope_distribute(g: &mut G) -> Step {
    let c = cfg(g);
    let mut tg = TG::new(g, c);
    let vs = vars(&mut tg, 1, 3);
    let n = tg.g.ur(2, 4);
    let (qn, op) = if tg.g.bool() { ("forall", "and") } else { ("exists", "or") };
    let ps: Vec<E> = (0..n).map(|_| body(&mut tg, &vs, 2)).collect();
    let l = bind(qn, &bl(&vs), ap(op, ps.clone()));
    let r = ap(op, ps.into_iter().map(|p| bind(qn, &bl(&vs), p)).collect());
    Step::new(tg.sig, "miniscope_distribute", vec![], vec![], vec![eq(l, r)])
}
pub fn miniscope_split(g: &mut G) -> Step {
    let c = cfg(g);
    let mut tg = TG::new(g, c);
    let vs = vars(&mut tg, 1, 4);
    let n = tg.g.ur(2, 4);
    let (qn, op) = if tg.g.bool() { ("forall", "or") } else { ("exists", "and") };
    // each variable belongs to one part
    let own: Vec<usize> = vs.iter().map(|_| tg.g.u(n)).collect();
    let mut ps = vec![];
    let mut rs = vec![];
    for i in 0..n {
        let mine: Vec<(String, S)> = vs.iter().enumerate().filter(|(k, _)| own[*k] == i).map(|x| x.1.clone()).collect();
        let mut b = body(&mut tg, &mine, 2);
        // no variable of another part may be free (constants of the same name)
        let other: Vec<String> = vs.iter().enumerate().filter(|(k, _)| own[*k] != i).map(|x| x.1 .0.clone()).collect();
        if free_names(&b).iter().any(|x| other.contains(x)) {
            b = if mine.is_empty() { a("true") } else { L(vec![a("="), a(&mine[0].0), a(&mine[0].0)]) };
        }
        let used: Vec<(String, S)> = mine.iter().filter(|v| free_names(&b).contains(&v.0) || tg.g.chance(1, 4)).cloned().collect();
        ps.push(b.clone());
        rs.push(if used.is_empty() { b } else { bind(qn, &bl(&used), b) });
    }
    let l = bind(qn, &bl(&vs), ap(op, ps));
    Step::new(tg.sig, "miniscope_split", vec![], vec![], vec![eq(l, ap(op, rs))])
}
pub fn miniscope_ite(g: &mut G) -> Step {
    let c = cfg(g);
    let mut tg = TG::new(g, c);
    let vs = vars(&mut tg, 1, 3);
    let mut c = tg.boolt(2);
    if free_names(&c).iter().any(|n| vs.iter().any(|v| v.0 == *n)) {
        c = a("true");
    }
    let t = body(&mut tg, &vs, 2);
    let e = body(&mut tg, &vs, 2);
    let b = bl(&vs);
    let l = bind("forall", &b, ap3("ite", c.clone(), t.clone(), e.clone()));
    let r = ap3("ite", c, bind("forall", &b, t), bind("forall", &b, e));
    Step::new(tg.sig, "miniscope_ite", vec![], vec![], vec![eq(l, r)])
}

/// Reference: negation normal form.
fn nnf(e: &E, pol: bool, sig: &crate::eval::Sig, sc: &mut Vec<(String, S)>) -> E {
    match e.head() {
        Some("not") if e.args().len() == 1 => nnf(&e.args()[0], !pol, sig, sc),
        Some(op @ ("and" | "or")) => {
            let o = if (op == "and") == pol { "and" } else { "or" };
            ap(o, e.args().iter().map(|x| nnf(x, pol, sig, sc)).collect())
        }
        Some("=>") if e.args().len() == 2 => {
            let x = nnf(&e.args()[0], !pol, sig, sc);
            let y = nnf(&e.args()[1], pol, sig, sc);
            ap(if pol { "or" } else { "and" }, vec![x, y])
        }
        Some("ite") => {
            let v = e.args();
            let (x, y, z, w) = (nnf(&v[0], !pol, sig, sc), nnf(&v[1], pol, sig, sc), nnf(&v[0], pol, sig, sc), nnf(&v[2], pol, sig, sc));
            if pol { and(vec![or(vec![x, y]), or(vec![z, w])]) } else { or(vec![and(vec![x, y]), and(vec![z, w])]) }
        }
        Some(b @ ("forall" | "exists")) => {
            let v = e.list().unwrap();
            let o = if (b == "forall") == pol { "forall" } else { "exists" };
            let n = sc.len();
            if let Some(bs) = crate::eval::bindings(&v[1]) {
                sc.extend(bs.into_iter().map(|x| (x.0.to_string(), x.1)));
            }
            let r = nnf(&v[2], pol, sig, sc);
            sc.truncate(n);
            L(vec![a(o), v[1].clone(), r])
        }
        Some("=") if e.args().len() == 2 && sort_of(&e.args()[0], sig, sc) == Some(S::Bool) => {
            let v = e.args();
            let (x, y, z, w) = (nnf(&v[0], !pol, sig, sc), nnf(&v[1], pol, sig, sc), nnf(&v[1], !pol, sig, sc), nnf(&v[0], pol, sig, sc));
            if pol { and(vec![or(vec![x, y]), or(vec![z, w])]) } else { or(vec![and(vec![x, y]), and(vec![z, w])]) }
        }
        _ => if pol { e.clone() } else { not(e.clone()) },
    }
}
fn prenex(e: &E, acc: &mut Vec<(String, S)>) -> E {
    match e.head() {
        Some(op @ ("and" | "or")) => ap(op, e.args().iter().map(|x| prenex(x, acc)).collect()),
        Some("forall") => {
            let v = e.list().unwrap();
            for b in crate::eval::bindings(&v[1]).unwrap_or_default() {
                acc.push((b.0.to_string(), b.1));
            }
            prenex(&v[2], acc)
        }
        _ => e.clone(),
    }
}
fn cnf(e: &E) -> Vec<Vec<E>> {
    match e.head() {
        Some("and") => e.args().iter().flat_map(cnf).collect(),
        Some("or") => {
            let mut acc: Vec<Vec<E>> = vec![vec![]];
            for x in e.args() {
                let c = cnf(x);
                acc = acc.iter().flat_map(|p| c.iter().map(move |k| p.iter().chain(k).cloned().collect())).collect();
            }
            acc
        }
        _ => vec![vec![e.clone()]],
    }
}
pub fn qnt_cnf(g: &mut G) -> Step {
    let wild = g.wild;
    let c = Cfg { choice: false, lets: false, ..Cfg::quant() };
    let mut tg = TG::new(g, c);
    let vs = vars(&mut tg, 1, 2);
    let d = tg.g.ur(1, 3);
    let mut b = body(&mut tg, &vs, d);
    if !wild {
        // all bound names distinct
        let mut n = 50;
        b = crate::fam_ctx::uniq(&b, &mut n);
    }
    let left = bind("forall", &bl(&vs), b.clone());
    let mut sc = vs.clone();
    let nn = nnf(&b, true, &tg.sig, &mut sc);
    let mut acc = vs.clone();
    let p = prenex(&nn, &mut acc);
    let cs = cnf(&p);
    let cs = if cs.len() > 300 { cs[..300].to_vec() } else { cs };
    let k = tg.g.u(cs.len());
    let c = ap_or_single("or", cs[k].clone());
    let fv = free_names(&c);
    let mut keep: Vec<(String, S)> = vec![];
    for v in &acc {
        if (fv.contains(&v.0) || tg.g.chance(1, 6)) && !keep.contains(v) {
            keep.push(v.clone());
        }
    }
    if keep.is_empty() {
        keep.push(vs[0].clone());
    }
    let r = bind("forall", &bl(&keep), c);
    Step::new(tg.sig, "qnt_cnf", vec![], vec![], vec![or(vec![not(left), r])])
}

pub fn fams() -> Vec<Fam> {
    vec![
        ("forall_inst", forall_inst),
        ("forall_inst", forall_inst),
        ("forall_inst", forall_inst),
        ("qnt_join", qnt_join),
        ("qnt_rm_unused", qnt_rm_unused),
        ("qnt_simplify", qnt_simplify),
        ("miniscope_distribute", miniscope_distribute),
        ("miniscope_split", miniscope_split),
        ("miniscope_split", miniscope_split),
        ("miniscope_ite", miniscope_ite),
        ("qnt_cnf", qnt_cnf),
        ("qnt_cnf", qnt_cnf),
        ("qnt_cnf", qnt_cnf),
    ]
}
