//! Equality, congruence, reflexivity, symmetry.
use crate::eval::S;
use crate::g::G;
use crate::sexp::*;
use crate::step::*;
use crate::terms::*;

fn cfg(g: &mut G) -> Cfg {
    match g.u(5) {
        0 => Cfg { int: true, real: true, ..Cfg::uf() },
        1 => Cfg { bv: true, ..Cfg::uf() },
        2 => Cfg::quant(),
        _ => Cfg { names: 4, ..Cfg::uf() },
    }
}
fn fl(g: &mut G, x: E, y: E) -> E {
    if g.chance(1, 3) { eq(y, x) } else { eq(x, y) }
}
fn distinct_terms(tg: &mut TG, s: &S, n: usize) -> Vec<E> {
    let mut v: Vec<E> = vec![];
    let mut tries = 0;
    while v.len() < n {
        tries += 1;
        let d = tg.g.u(2) + tries / 20;
        let t = tg.term(s, d.min(3));
        if !v.contains(&t) {
            v.push(t);
        } else if tries > 60 {
            let t = tg.cst_n(s, 20 + tries);
            v.push(t);
        }
    }
    v
}
fn chain(tg: &mut TG) -> (Vec<E>, E) {
    let s = tg.any_sort();
    let n = if tg.g.chance(1, 8) { tg.g.ur(3, 10) } else { tg.g.ur(3, 5) };
    let ts = distinct_terms(tg, &s, n);
    let mut ps: Vec<E> = ts.windows(2).map(|w| fl(tg.g, w[0].clone(), w[1].clone())).collect();
    if tg.g.bool() {
        tg.g.shuffle(&mut ps);
    }
    let c = fl(tg.g, ts[0].clone(), ts[n - 1].clone());
    (ps, c)
}
pub fn eq_transitive(g: &mut G) -> Step {
    let c = cfg(g);
    let mut tg = TG::new(g, c);
    let (ps, c) = chain(&mut tg);
    let mut v: Vec<E> = ps.into_iter().map(not).collect();
    v.push(c);
    Step::new(tg.sig, "eq_transitive", vec![], vec![], v)
}
pub fn trans(g: &mut G) -> Step {
    let c = cfg(g);
    let mut tg = TG::new(g, c);
    let (ps, c) = chain(&mut tg);
    Step::new(tg.sig, "trans", ps.into_iter().map(|p| vec![p]).collect(), vec![], vec![c])
}
/// head, argument pairs, result sort
fn pairs(tg: &mut TG, pred: bool, ops: bool) -> (Vec<E>, Vec<(E, E)>, &'static str) {
    let mk = |tg: &mut TG, sorts: Vec<S>| -> Vec<(E, E)> {
        sorts
            .iter()
            .map(|s| {
                let d = tg.g.u(2);
                let x = tg.term(s, d);
                let y = if tg.g.chance(1, 4) { x.clone() } else { tg.term(s, d) };
                (x, y)
            })
            .collect()
    };
    let k = tg.g.u(if ops { 10 } else { 4 });
    tg.sig.sort("U");
    tg.sig.sort("T");
    match k {
        0..=3 => {
            let n = tg.g.ur(1, 4);
            let ss: Vec<S> = (0..n).map(|_| tg.any_sort()).collect();
            let name = format!("C{}{}", if pred { "p" } else { "f" }, ss.iter().map(|s| match s {
                S::Bool => "B".to_string(),
                S::U(n) => n.to_string(),
                S::Int => "I".to_string(),
                S::Real => "R".to_string(),
                S::BV(w) => format!("V{w}"),
                _ => "o".to_string(),
            }).collect::<String>());
            let f = tg.sig.fun(&name, ss.clone(), if pred { S::Bool } else { su() });
            (vec![f], mk(tg, ss), "app")
        }
        4 | 5 => {
            let op = tg.g.pick_s(&["and", "or", "xor", "=>", "not", "ite"]);
            let n = match op {
                "not" => 1,
                "ite" => 3,
                "xor" => 2,
                _ => tg.g.ur(2, 4),
            };
            (vec![a(op)], mk(tg, vec![S::Bool; n]), op)
        }
        6 if tg.cfg.int => {
            let op = tg.g.pick_s(if pred { &["<", "<=", ">", ">="] } else { &["+", "*", "-"] });
            let s = if tg.g.bool() { S::Int } else { S::Real };
            (vec![a(op)], mk(tg, vec![s; 2]), op)
        }
        6 if tg.cfg.bv => {
            let w = tg.cfg.bvw;
            if !pred && tg.g.bool() {
                let i = tg.g.range(0, w as i64 - 1);
                let j = tg.g.range(i, w as i64 - 1);
                let h = match tg.g.u(6) {
                    0 => ix("zero_extend", &[i], vec![]),
                    1 => ix("sign_extend", &[i], vec![]),
                    2 => ix("repeat", &[i + 1], vec![]),
                    3 => ix("rotate_left", &[i], vec![]),
                    _ => ix("extract", &[j, i], vec![]),
                };
                return (vec![h.list().unwrap()[0].clone()], mk(tg, vec![S::BV(w)]), "extract");
            }
            let op = tg.g.pick_s(if pred { &["bvult", "bvsle"] } else { &["bvadd", "bvsub", "concat"] });
            (vec![a(op)], mk(tg, vec![S::BV(w); 2]), op)
        }
        7 => {
            let s = tg.any_sort_nb();
            let n = tg.g.ur(2, 3);
            (vec![a("distinct")], mk(tg, vec![s; n]), "distinct")
        }
        _ => {
            let s = tg.any_sort();
            (vec![a("=")], mk(tg, vec![s; 2]), "=")
        }
    }
}
fn app(h: &[E], args: Vec<E>) -> E {
    let mut v = h.to_vec();
    v.extend(args);
    L(v)
}
/// now and then (for soundness checks only) another operator of the same type, or the same indexed
/// operator with other indices and a result of the same sort
fn other_head(g: &mut G, h: &[E], w: i64) -> Vec<E> {
    if !g.wild || !g.chance(1, 4) {
        return h.to_vec();
    }
    if let Some(v) = h[0].list() {
        let n: Vec<i64> = v[2..].iter().filter_map(|x| x.atom()?.parse().ok()).collect();
        if v[1].is("extract") && n.len() == 2 {
            let k = n[0] - n[1];
            let i = g.range(0, w - 1 - k);
            return vec![ix("extract", &[i + k, i], vec![]).list().unwrap()[0].clone()];
        }
        if v[1].is("rotate_left") {
            let i = g.range(0, w);
            let o = g.pick_s(&["rotate_left", "rotate_right"]);
            return vec![ix(o, &[i], vec![]).list().unwrap()[0].clone()];
        }
        if v[1].is("zero_extend") {
            return vec![ix("sign_extend", &n, vec![]).list().unwrap()[0].clone()];
        }
        return h.to_vec();
    }
    let o: &[&str] = match h[0].atom().unwrap_or("") {
        "and" | "or" | "=>" | "xor" => &["and", "or", "=>"],
        "<" | "<=" | ">" | ">=" => &["<", "<=", ">", ">="],
        "+" | "-" | "*" => &["+", "-", "*"],
        "bvult" | "bvsle" => &["bvult", "bvule", "bvslt", "bvsle"],
        "bvadd" | "bvsub" => &["bvadd", "bvsub", "bvmul", "bvand"],
        "=" | "distinct" => &["=", "distinct"],
        _ => return h.to_vec(),
    };
    vec![a(g.pick_s(o))]
}
pub fn eq_congruent(g: &mut G) -> Step {
    let c = cfg(g);
    let mut tg = TG::new(g, c);
    let pred = tg.g.bool();
    let (h, ps, lab) = pairs(&mut tg, pred, false);
    let lhs = app(&h, ps.iter().map(|p| p.0.clone()).collect());
    let rhs = app(&h, ps.iter().map(|p| p.1.clone()).collect());
    let mut cl: Vec<E> = ps.iter().map(|p| not(fl(tg.g, p.0.clone(), p.1.clone()))).collect();
    cl.push(eq(lhs, rhs));
    Step::new(tg.sig, "eq_congruent", vec![], vec![], cl).lab(lab)
}
pub fn eq_congruent_pred(g: &mut G) -> Step {
    let c = cfg(g);
    let mut tg = TG::new(g, c);
    let (h, ps, lab) = pairs(&mut tg, true, false);
    let lhs = app(&h, ps.iter().map(|p| p.0.clone()).collect());
    let rhs = app(&h, ps.iter().map(|p| p.1.clone()).collect());
    let mut cl: Vec<E> = ps.iter().map(|p| not(fl(tg.g, p.0.clone(), p.1.clone()))).collect();
    if tg.g.bool() {
        cl.push(not(lhs));
        cl.push(rhs);
    } else {
        cl.push(lhs);
        cl.push(not(rhs));
    }
    Step::new(tg.sig, "eq_congruent_pred", vec![], vec![], cl).lab(lab)
}
pub fn cong(g: &mut G) -> Step {
    let c = cfg(g);
    let mut tg = TG::new(g, c);
    let pred = tg.g.bool();
    let (h, mut ps, lab) = pairs(&mut tg, pred, true);
    if ps.iter().all(|p| p.0 == p.1) {
        // at least one premise is needed
        let s = sort_of(&ps[0].0, &tg.sig, &[]).unwrap_or(S::Bool);
        let t = tg.cst_n(&s, 9);
        ps[0].1 = t;
    }
    let mut la: Vec<E> = ps.iter().map(|p| p.0.clone()).collect();
    let mut ra: Vec<E> = ps.iter().map(|p| p.1.clone()).collect();
    let mut prems = vec![];
    for p in &ps {
        if p.0 != p.1 || tg.g.chance(1, 4) {
            prems.push(vec![fl(tg.g, p.0.clone(), p.1.clone())]);
        }
    }
    if lab == "=" {
        if tg.g.chance(1, 3) {
            la.reverse();
        }
        if tg.g.chance(1, 3) {
            ra.reverse();
        }
    }
    let h2 = other_head(tg.g, &h, tg.cfg.bvw as i64);
    let c = eq(app(&h, la), app(&h2, ra));
    Step::new(tg.sig, "cong", prems, vec![], vec![c]).lab(lab)
}
pub fn ho_cong(g: &mut G) -> Step {
    let mut tg = TG::new(g, Cfg::uf());
    let n = tg.g.ur(1, 2);
    tg.sig.sort("U");
    let ss = vec![su(); n];
    let f = tg.sig.fun(&format!("hf{n}"), ss.clone(), su());
    let h = if tg.g.chance(1, 4) { f.clone() } else { tg.sig.fun(&format!("hg{n}"), ss, su()) };
    let mut ps = vec![(f, h)];
    for _ in 0..n {
        let x = tg.term(&su(), 1);
        let y = if tg.g.chance(1, 3) { x.clone() } else { tg.term(&su(), 1) };
        ps.push((x, y));
    }
    if ps.iter().all(|p| p.0 == p.1) {
        let t = tg.cst_n(&su(), 9);
        ps[1].1 = t;
    }
    let mut prems = vec![];
    for p in &ps {
        if p.0 != p.1 {
            prems.push(vec![fl(tg.g, p.0.clone(), p.1.clone())]);
        }
    }
    let l = L(ps.iter().map(|p| p.0.clone()).collect());
    let r = L(ps.iter().map(|p| p.1.clone()).collect());
    Step::new(tg.sig, "ho_cong", prems, vec![], vec![eq(l, r)])
}
pub fn eq_reflexive(g: &mut G) -> Step {
    let c = cfg(g);
    let mut tg = TG::new(g, c);
    let s = tg.any_sort();
    let t = tg.term(&s, 3);
    Step::new(tg.sig, "eq_reflexive", vec![], vec![], vec![eq(t.clone(), t)])
}
/// consistent renaming of the bound variables to fresh names
pub fn alpha(e: &E, n: &mut usize, p: &mut dyn FnMut() -> bool) -> E {
    match e {
        A(_) => e.clone(),
        L(v) => match e.head() {
            Some("forall" | "exists" | "choice" | "lambda") if v.len() == 3 => {
                let mut body = alpha(&v[2], n, p);
                let mut vars = vec![];
                for b in v[1].list().unwrap() {
                    let b = b.list().unwrap();
                    if p() {
                        *n += 1;
                        let new = a(format!("rn{n}"));
                        body = subst_free(&body, b[0].atom().unwrap(), &new);
                        vars.push(L(vec![new, b[1].clone()]));
                    } else {
                        vars.push(L(b.to_vec()));
                    }
                }
                L(vec![v[0].clone(), L(vars), body])
            }
            _ => L(v.iter().map(|x| alpha(x, n, p)).collect()),
        },
    }
}
/// replaces free occurrences; the replacement must not be captured (fresh name)
pub fn subst_free(e: &E, x: &str, to: &E) -> E {
    match e {
        A(s) if &**s == x => to.clone(),
        A(_) => e.clone(),
        L(v) => match e.head() {
            Some("forall" | "exists" | "choice" | "lambda") if v.len() == 3 => {
                if v[1].list().unwrap().iter().any(|b| b.list().map_or(false, |b| b[0].is(x))) {
                    return e.clone();
                }
                L(vec![v[0].clone(), v[1].clone(), subst_free(&v[2], x, to)])
            }
            Some("let") if v.len() == 3 => {
                let bs: Vec<E> = v[1].list().unwrap().iter().map(|b| {
                    let b = b.list().unwrap();
                    L(vec![b[0].clone(), subst_free(&b[1], x, to)])
                }).collect();
                let shadow = bs.iter().any(|b| b.list().unwrap()[0].is(x));
                L(vec![v[0].clone(), L(bs), if shadow { v[2].clone() } else { subst_free(&v[2], x, to) }])
            }
            _ => L(v.iter().map(|y| subst_free(y, x, to)).collect()),
        },
    }
}
pub fn refl(g: &mut G) -> Step {
    let mut tg = TG::new(g, Cfg { choice: true, ..Cfg::quant() });
    let t = tg.boolt(4);
    let mut n = 0;
    let r = alpha(&t, &mut n, &mut || tg.g.bool());
    Step::new(tg.sig, "refl", vec![], vec![], vec![eq(t, r)])
}
pub fn symm(g: &mut G) -> Step {
    let c = cfg(g);
    let mut tg = TG::new(g, c);
    let s = tg.any_sort();
    let (x, y) = (tg.term(&s, 1), tg.term(&s, 1));
    let (l, r) = (eq(x.clone(), y.clone()), eq(y, x));
    match tg.g.u(3) {
        0 => Step::new(tg.sig, "symm", vec![vec![l]], vec![], vec![r]),
        1 => Step::new(tg.sig, "not_symm", vec![vec![not(l)]], vec![], vec![not(r)]),
        _ => Step::new(tg.sig, "eq_symmetric", vec![], vec![], vec![eq(l, r)]),
    }
}
pub fn fams() -> Vec<Fam> {
    vec![
        ("eq_transitive", eq_transitive),
        ("trans", trans),
        ("eq_congruent", eq_congruent),
        ("eq_congruent_pred", eq_congruent_pred),
        ("cong", cong),
        ("cong", cong),
        ("ho_cong", ho_cong),
        ("eq_reflexive", eq_reflexive),
        ("refl", refl),
        ("symm", symm),
        ("distinct_elim", crate::fam_prop::distinct_elim),
    ]
}
