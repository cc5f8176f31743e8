//! Clausification, tautology and Boolean simplification rules.
use crate::eval::S;
use crate::g::G;
use crate::sexp::*;
use crate::step::*;
use crate::terms::*;

/// rule | premises (;-separated) | conclusion literals
const T: &[(&str, &str, &str)] = &[
    ("true", "", "true"),
    ("false", "", "(not false)"),
    ("not_not", "", "(not (not (not $1))) $1"),
    ("xor_pos1", "", "(not (xor $1 $2)) $1 $2"),
    ("xor_pos2", "", "(not (xor $1 $2)) (not $1) (not $2)"),
    ("xor_neg1", "", "(xor $1 $2) $1 (not $2)"),
    ("xor_neg2", "", "(xor $1 $2) (not $1) $2"),
    ("implies_pos", "", "(not (=> $1 $2)) (not $1) $2"),
    ("implies_neg1", "", "(=> $1 $2) $1"),
    ("implies_neg2", "", "(=> $1 $2) (not $2)"),
    ("equiv_pos1", "", "(not (= $1 $2)) $1 (not $2)"),
    ("equiv_pos2", "", "(not (= $1 $2)) (not $1) $2"),
    ("equiv_neg1", "", "(= $1 $2) (not $1) (not $2)"),
    ("equiv_neg2", "", "(= $1 $2) $1 $2"),
    ("ite_pos1", "", "(not (ite $1 $2 $3)) $1 $3"),
    ("ite_pos2", "", "(not (ite $1 $2 $3)) (not $1) $2"),
    ("ite_neg1", "", "(ite $1 $2 $3) $1 (not $3)"),
    ("ite_neg2", "", "(ite $1 $2 $3) (not $1) (not $2)"),
    ("xor1", "(xor $1 $2)", "$1 $2"),
    ("xor2", "(xor $1 $2)", "(not $1) (not $2)"),
    ("not_xor1", "(not (xor $1 $2))", "$1 (not $2)"),
    ("not_xor2", "(not (xor $1 $2))", "(not $1) $2"),
    ("implies", "(=> $1 $2)", "(not $1) $2"),
    ("not_implies1", "(not (=> $1 $2))", "$1"),
    ("not_implies2", "(not (=> $1 $2))", "(not $2)"),
    ("equiv1", "(= $1 $2)", "(not $1) $2"),
    ("equiv2", "(= $1 $2)", "$1 (not $2)"),
    ("not_equiv1", "(not (= $1 $2))", "$1 $2"),
    ("not_equiv2", "(not (= $1 $2))", "(not $1) (not $2)"),
    ("ite1", "(ite $1 $2 $3)", "$1 $3"),
    ("ite2", "(ite $1 $2 $3)", "(not $1) $2"),
    ("not_ite1", "(not (ite $1 $2 $3))", "$1 (not $3)"),
    ("not_ite2", "(not (ite $1 $2 $3))", "(not $1) (not $2)"),
    ("connective_def", "", "(= (xor $1 $2) (or (and (not $1) $2) (and $1 (not $2))))"),
    ("connective_def", "", "(= (= $1 $2) (and (=> $1 $2) (=> $2 $1)))"),
    ("connective_def", "", "(= (ite $1 $2 $3) (and (=> $1 $2) (=> (not $1) $3)))"),
    ("ite_simplify", "", "(= (ite true $1 $2) $1)"),
    ("ite_simplify", "", "(= (ite false $1 $2) $2)"),
    ("ite_simplify", "", "(= (ite $1 $2 $2) $2)"),
    ("ite_simplify", "", "(= (ite p0 true false) p0)"),
    ("ite_simplify", "", "(= (ite p0 false true) (not p0))"),
    ("ite_simplify", "", "(= (ite (not p0) p1 p2) (ite p0 p2 p1))"),
    ("ite_simplify", "", "(= (ite p0 (ite p0 p2 p3) p1) (ite p0 p2 p1))"),
    ("ite_simplify", "", "(= (ite p0 p1 (ite p0 p2 p3)) (ite p0 p1 p3))"),
    ("ite_simplify", "", "(= (ite p0 true p1) (or p0 p1))"),
    ("ite_simplify", "", "(= (ite p0 p1 false) (and p0 p1))"),
    ("ite_simplify", "", "(= (ite p0 false p1) (and (not p0) p1))"),
    ("ite_simplify", "", "(= (ite p0 p1 true) (or (not p0) p1))"),
    ("not_simplify", "", "(= (not (not p0)) p0)"),
    ("not_simplify", "", "(= (not false) true)"),
    ("not_simplify", "", "(= (not true) false)"),
    ("implies_simplify", "", "(= (=> (not p0) (not $2)) (=> $2 p0))"),
    ("implies_simplify", "", "(= (=> false $1) true)"),
    ("implies_simplify", "", "(= (=> $1 true) true)"),
    ("implies_simplify", "", "(= (=> true p0) p0)"),
    ("implies_simplify", "", "(= (=> p0 false) (not p0))"),
    ("implies_simplify", "", "(= (=> $1 $1) true)"),
    ("implies_simplify", "", "(= (=> (not p0) p0) p0)"),
    ("implies_simplify", "", "(= (=> p0 (not p0)) (not p0))"),
    ("implies_simplify", "", "(= (=> (=> p0 p1) p1) (or p0 p1))"),
    ("equiv_simplify", "", "(= (= (not p0) (not p1)) (= p0 p1))"),
    ("equiv_simplify", "", "(= (= $1 $1) true)"),
    ("equiv_simplify", "", "(= (= p0 (not p0)) false)"),
    ("equiv_simplify", "", "(= (= (not p0) p0) false)"),
    ("equiv_simplify", "", "(= (= true p0) p0)"),
    ("equiv_simplify", "", "(= (= p0 true) p0)"),
    ("equiv_simplify", "", "(= (= false p0) (not p0))"),
    ("equiv_simplify", "", "(= (= p0 false) (not p0))"),
    ("bool_simplify", "", "(= (not (=> $1 $2)) (and $1 (not $2)))"),
    ("bool_simplify", "", "(= (not (or $1 $2)) (and (not $1) (not $2)))"),
    ("bool_simplify", "", "(= (not (and $1 $2)) (or (not $1) (not $2)))"),
    ("bool_simplify", "", "(= (=> $1 (=> $2 p0)) (=> (and $1 $2) p0))"),
    ("bool_simplify", "", "(= (=> (=> p0 p1) p1) (or p0 p1))"),
    ("bool_simplify", "", "(= (and $1 (=> $1 p1)) (and $1 p1))"),
    ("bool_simplify", "", "(= (and (=> p0 p1) p0) (and p0 p1))"),
];

pub fn cfg(g: &mut G) -> Cfg {
    match g.u(4) {
        0 => Cfg::uf(),
        1 => Cfg { int: true, ..Cfg::uf() },
        _ => Cfg::prop(),
    }
}

fn declare_p(s: &mut Step) {
    for i in 0..4 {
        s.sig.cst(&format!("p{i}"), S::Bool);
    }
}

pub fn template(g: &mut G) -> Step {
    let (rule, pr, co) = *g.pick(T);
    let prems: Vec<&str> = if pr.is_empty() { vec![] } else { vec![pr] };
    let c = cfg(g);
    // templates with literal p0..p3 sometimes get them replaced by compound terms
    let mut s = tmpl(g, c.clone(), 2, rule, &prems, co);
    declare_p(&mut s);
    s.lab(co)
}

fn n_terms(g: &mut G, lo: usize, hi: usize) -> (TG<'_>, Vec<E>) {
    let c = cfg(g);
    let mut tg = TG::new(g, c);
    let n = if tg.g.chance(1, 8) { tg.g.ur(lo, 12) } else { tg.g.ur(lo, hi) };
    let mut v: Vec<E> = Vec::new();
    for _ in 0..n {
        let d = tg.g.u(3);
        if !v.is_empty() && tg.g.chance(1, 8) {
            let i = tg.g.u(v.len());
            v.push(v[i].clone());
        } else {
            v.push(tg.boolt(d));
        }
    }
    (tg, v)
}
pub fn and_pos(g: &mut G) -> Step {
    let (tg, v) = n_terms(g, 1, 5);
    let i = tg.g.u(v.len());
    let c = vec![not(and(v.clone())), v[i].clone()];
    Step::new(tg.sig, "and_pos", vec![], vec![int(i as i64)], c)
}
pub fn and_neg(g: &mut G) -> Step {
    let (tg, v) = n_terms(g, 1, 5);
    let mut c = vec![and(v.clone())];
    c.extend(v.into_iter().map(not));
    Step::new(tg.sig, "and_neg", vec![], vec![], c)
}
pub fn or_pos(g: &mut G) -> Step {
    let (tg, v) = n_terms(g, 1, 5);
    let mut c = vec![not(or(v.clone()))];
    c.extend(v);
    Step::new(tg.sig, "or_pos", vec![], vec![], c)
}
pub fn or_neg(g: &mut G) -> Step {
    let (tg, v) = n_terms(g, 1, 5);
    let i = tg.g.u(v.len());
    let c = vec![or(v.clone()), not(v[i].clone())];
    Step::new(tg.sig, "or_neg", vec![], vec![int(i as i64)], c)
}
pub fn and_(g: &mut G) -> Step {
    let (tg, v) = n_terms(g, 1, 5);
    let i = tg.g.u(v.len());
    Step::new(tg.sig, "and", vec![vec![and(v.clone())]], vec![int(i as i64)], vec![v[i].clone()])
}
pub fn not_or(g: &mut G) -> Step {
    let (tg, v) = n_terms(g, 1, 5);
    let i = tg.g.u(v.len());
    Step::new(tg.sig, "not_or", vec![vec![not(or(v.clone()))]], vec![int(i as i64)], vec![not(v[i].clone())])
}
pub fn or_(g: &mut G) -> Step {
    let (tg, v) = n_terms(g, 1, 5);
    Step::new(tg.sig, "or", vec![vec![or(v.clone())]], vec![], v)
}
pub fn not_and(g: &mut G) -> Step {
    let (tg, v) = n_terms(g, 1, 5);
    let c = v.iter().cloned().map(not).collect();
    Step::new(tg.sig, "not_and", vec![vec![not(and(v))]], vec![], c)
}
pub fn and_intro(g: &mut G) -> Step {
    let (tg, v) = n_terms(g, 1, 5);
    Step::new(tg.sig, "and_intro", v.iter().map(|x| vec![x.clone()]).collect(), vec![], vec![and(v)])
}
fn neg_pol(e: &E) -> (bool, &E) {
    let mut p = true;
    let mut e = e;
    while e.is_app("not") {
        p = !p;
        e = &e.args()[0];
    }
    (p, e)
}
/// and_simplify / or_simplify with the documented result
fn andor(g: &mut G, op: &'static str) -> Step {
    let (skip, short) = if op == "and" { ("true", "false") } else { ("false", "true") };
    let (mut tg, mut v) = n_terms(g, 2, 5);
    for _ in 0..tg.g.u(3) {
        let i = tg.g.u(v.len() + 1);
        let x = match tg.g.u(6) {
            0 | 1 => a(skip),
            2 => a(short),
            3 => not(v[tg.g.u(v.len())].clone()),
            _ => v[tg.g.u(v.len())].clone(),
        };
        v.insert(i, x);
    }
    let mut w: Vec<E> = vec![];
    for x in &v {
        if !x.is(skip) && !w.contains(x) {
            w.push(x.clone());
        }
    }
    let shorted = w.iter().any(|x| x.is(short))
        || w.iter().any(|x| {
            let (p, i) = neg_pol(x);
            w.iter().any(|y| neg_pol(y) == (!p, i))
        });
    let r = if shorted {
        a(short)
    } else if w.is_empty() {
        a(skip)
    } else if w.len() == 1 && w[0].is_app(op) {
        // the documented shape of this corner is ambiguous: keep one unit to have a decided case
        let x = tg.cst(&S::Bool);
        v.push(x.clone());
        w.push(x);
        ap(op, w)
    } else if w.len() == 1 {
        w[0].clone()
    } else {
        ap(op, w)
    };
    Step::new(tg.sig, &format!("{op}_simplify"), vec![], vec![], vec![eq(ap(op, v), r)])
}
pub fn and_simplify(g: &mut G) -> Step {
    andor(g, "and")
}
pub fn or_simplify(g: &mut G) -> Step {
    andor(g, "or")
}
pub fn connective_q(g: &mut G) -> Step {
    let mut tg = TG::new(g, Cfg::quant());
    let q = tg.g.bool();
    let ss = tg.finite_sorts();
    let t = tg.quantified(if q { "forall" } else { "exists" }, 2, &ss);
    let v = t.list().unwrap();
    let r = not(L(vec![a(if q { "exists" } else { "forall" }), v[1].clone(), not(v[2].clone())]));
    Step::new(tg.sig, "connective_def", vec![], vec![], vec![eq(t, r)])
}
pub fn nary_elim(g: &mut G) -> Step {
    let k = g.u(6);
    let mut tg = TG::new(g, Cfg { int: true, ..Cfg::uf() });
    let (op, s) = match k {
        0 => ("=", S::Bool),
        1 => ("=", su()),
        2 => ("=>", S::Bool),
        3 => ("-", S::Int),
        4 => ("+", S::Int),
        _ => ("*", S::Int),
    };
    let v = tg.terms(&s, 1, 2, 6);
    let r = match op {
        "=" => and(v.windows(2).map(|w| eq(w[0].clone(), w[1].clone())).collect()),
        "=>" => {
            let mut it = v.iter().rev();
            let mut acc = it.next().unwrap().clone();
            for x in it {
                acc = ap2("=>", x.clone(), acc);
            }
            acc
        }
        _ => {
            let mut it = v.iter();
            let mut acc = it.next().unwrap().clone();
            for x in it {
                acc = ap2(op, acc, x.clone());
            }
            acc
        }
    };
    Step::new(tg.sig, "nary_elim", vec![], vec![], vec![eq(ap(op, v), r)])
}
fn flat_dedup(e: &E) -> E {
    match e {
        A(_) => e.clone(),
        L(v) => match e.head() {
            Some(op @ ("and" | "or")) => {
                let mut w: Vec<E> = vec![];
                for x in &v[1..] {
                    let x = flat_dedup(x);
                    let items = if x.is_app(op) { x.args().to_vec() } else { vec![x] };
                    for y in items {
                        if !w.contains(&y) {
                            w.push(y);
                        }
                    }
                }
                if w.len() == 1 { w.pop().unwrap() } else { ap(op, w) }
            }
            Some("forall" | "exists") => L(vec![v[0].clone(), v[1].clone(), flat_dedup(&v[2])]),
            _ => L(v.iter().map(flat_dedup).collect()),
        },
    }
}
fn nested(tg: &mut TG, op: &str, d: usize) -> E {
    if d == 0 || tg.g.chance(1, 4) {
        let dd = tg.g.u(2);
        return tg.boolt(dd);
    }
    let n = tg.g.ur(2, 3);
    let o = if tg.g.chance(1, 6) { if op == "and" { "or" } else { "and" } } else { op };
    let mut v: Vec<E> = (0..n).map(|_| nested(tg, o, d - 1)).collect();
    if tg.g.chance(1, 3) {
        let i = tg.g.u(v.len());
        v.push(v[i].clone());
    }
    ap(o, v)
}
pub fn ac_simp(g: &mut G) -> Step {
    let c = if g.bool() { Cfg::quant() } else { Cfg::prop() };
    let mut tg = TG::new(g, c);
    let op = tg.g.pick_s(&["and", "or"]);
    let mut t = nested(&mut tg, op, 3);
    if tg.g.chance(1, 4) {
        t = not(t);
    }
    let r = flat_dedup(&t);
    Step::new(tg.sig, "ac_simp", vec![], vec![], vec![eq(t, r)])
}

fn aci_norm(e: &E, op: &str, unit: &Option<E>, idem: bool) -> Vec<E> {
    if e.is_app(op) {
        let mut w: Vec<E> = vec![];
        for x in e.args() {
            for y in aci_norm(x, op, unit, idem) {
                if Some(&y) == unit.as_ref() || (idem && w.contains(&y)) {
                    continue;
                }
                w.push(y);
            }
        }
        w
    } else {
        vec![e.clone()]
    }
}
fn nested_op(tg: &mut TG, op: &str, s: &S, unit: &Option<E>, d: usize) -> E {
    if d == 0 || tg.g.chance(1, 3) {
        if let Some(u) = unit {
            if tg.g.chance(1, 6) {
                return u.clone();
            }
        }
        return tg.leaf(s);
    }
    let n = tg.g.ur(2, 3);
    let mut v: Vec<E> = (0..n).map(|_| nested_op(tg, op, s, unit, d - 1)).collect();
    if tg.g.chance(1, 3) {
        let i = tg.g.u(v.len());
        v.push(v[i].clone());
    }
    ap(op, v)
}
fn shuffle_tree(g: &mut G, mut v: Vec<E>, op: &str) -> E {
    g.shuffle(&mut v);
    while v.len() > 2 && g.bool() {
        let i = g.u(v.len() - 1);
        let y = v.remove(i + 1);
        let x = v.remove(i);
        v.insert(i, ap2(op, x, y));
    }
    ap(op, v)
}
pub fn aci_simp(g: &mut G) -> Step {
    let k = g.u(7);
    let mut tg = TG::new(g, Cfg { bv: true, int: true, ..Cfg::prop() });
    let w = 3;
    let (op, s, unit, idem) = match k {
        0 => ("and", S::Bool, Some(a("true")), true),
        1 => ("or", S::Bool, Some(a("false")), true),
        2 => ("bvand", S::BV(w), Some(a("#b111")), true),
        3 => ("bvor", S::BV(w), Some(a("#b000")), true),
        4 => ("bvxor", S::BV(w), Some(a("#b000")), false),
        5 => ("bvadd", S::BV(w), Some(a("#b000")), false),
        _ => ("bvmul", S::BV(w), Some(a("#b001")), false),
    };
    let t = nested_op(&mut tg, op, &s, &unit, 3);
    let t = if t.is_app(op) { t } else { ap2(op, t.clone(), tg.leaf(&s)) };
    let n = aci_norm(&t, op, &unit, idem);
    let r = if n.is_empty() {
        unit.clone().unwrap()
    } else if n.len() == 1 {
        n[0].clone()
    } else {
        shuffle_tree(tg.g, n, op)
    };
    Step::new(tg.sig, "aci_simp", vec![], vec![], vec![eq(t, r)]).lab(op)
}
pub fn aci_arith(g: &mut G) -> Step {
    let mut tg = TG::new(g, Cfg::arith());
    let op = tg.g.pick_s(&["+", "*"]);
    let s = if tg.g.bool() { S::Int } else { S::Real };
    let unit = Some(a(match (op, &s) {
        ("+", S::Int) => "0",
        ("+", _) => "0.0",
        (_, S::Int) => "1",
        _ => "1.0",
    }));
    let t = nested_op(&mut tg, op, &s, &unit, 2);
    let t = if t.is_app(op) { t } else { ap2(op, t.clone(), tg.leaf(&s)) };
    let n = aci_norm(&t, op, &unit, false);
    let r = if n.is_empty() {
        unit.clone().unwrap()
    } else if n.len() == 1 {
        n[0].clone()
    } else {
        shuffle_tree(tg.g, n, op)
    };
    Step::new(tg.sig, "aci_simp", vec![], vec![], vec![eq(t, r)]).lab(op)
}
pub fn distinct_elim(g: &mut G) -> Step {
    let mut tg = TG::new(g, Cfg { int: true, names: 5, ..Cfg::uf() });
    let s = tg.any_sort();
    let n = tg.g.ur(2, 5);
    let v: Vec<E> = (0..n).map(|_| { let d = tg.g.u(2); tg.term(&s, d) }).collect();
    let r = if n == 2 {
        not(eq(v[0].clone(), v[1].clone()))
    } else if s == S::Bool {
        a("false")
    } else {
        let mut o = vec![];
        for i in 0..n {
            for j in i + 1..n {
                let (x, y) = if tg.g.chance(1, 4) { (j, i) } else { (i, j) };
                o.push(not(eq(v[x].clone(), v[y].clone())));
            }
        }
        and(o)
    };
    Step::new(tg.sig, "distinct_elim", vec![], vec![], vec![eq(ap("distinct", v), r)])
}
pub fn bfun_elim(g: &mut G) -> Step {
    let mut tg = TG::new(g, Cfg::prop());
    // Boolean arguments of uninterpreted functions
    let pb = tg.sig.fun("FB", vec![S::Bool], S::Bool);
    tg.sig.sort("U");
    let gb = tg.sig.fun("GB", vec![S::Bool, su(), S::Bool], S::Bool);
    let (t, r) = match tg.g.u(4) {
        0 => {
            let x = tg.boolt(1);
            if x.is("true") || x.is("false") {
                let t = L(vec![pb.clone(), x]);
                (t.clone(), t)
            } else {
                let f = |b: &str| L(vec![pb.clone(), a(b)]);
                (L(vec![pb.clone(), x.clone()]), ap3("ite", x, f("true"), f("false")))
            }
        }
        1 => {
            let u = tg.cst(&su());
            let x = tg.cst(&S::Bool);
            let y = tg.cst(&S::Bool);
            let f = |p: E, q: E| L(vec![gb.clone(), p, u.clone(), q]);
            let inner = |p: &str| ap3("ite", y.clone(), f(a(p), a("true")), f(a(p), a("false")));
            (f(x.clone(), y.clone()), ap3("ite", x, inner("true"), inner("false")))
        }
        2 => {
            // quantifier over a Boolean variable
            let q = tg.g.bool();
            let y = tg.cst(&S::Bool);
            let t = bind(if q { "forall" } else { "exists" }, &[(a("vb"), a("Bool"))], or(vec![a("vb"), y.clone()]));
            let r = ap(if q { "and" } else { "or" }, vec![or(vec![a("false"), y.clone()]), or(vec![a("true"), y])]);
            (t, r)
        }
        _ => {
            let q = tg.g.bool();
            let f = |b: E| L(vec![gb.clone(), a("true"), a("vu"), b]);
            let b = if q { "forall" } else { "exists" };
            let t = bind(b, &[(a("vu"), a("U")), (a("vb"), a("Bool"))], f(a("vb")));
            let r = bind(b, &[(a("vu"), a("U"))], ap(if q { "and" } else { "or" }, vec![f(a("false")), f(a("true"))]));
            (t, r)
        }
    };
    Step::new(tg.sig, "bfun_elim", vec![vec![t]], vec![], vec![r])
}
pub fn ite_intro(g: &mut G) -> Step {
    let mut tg = TG::new(g, Cfg { int: true, ite: false, ..Cfg::uf() });
    let s = if tg.g.bool() { su() } else { S::Int };
    let n = tg.g.ur(1, 2);
    let mut ites = vec![];
    for _ in 0..n {
        let d = tg.g.u(2);
        ites.push((tg.boolt(d), tg.term(&s, d), tg.term(&s, d)));
    }
    let it = |i: usize| ap3("ite", ites[i].0.clone(), ites[i].1.clone(), ites[i].2.clone());
    let sorts = vec![s.clone(); n];
    let f = tg.sig.fun(&format!("FI{n}"), sorts, S::Bool);
    let mut t = vec![f];
    for i in 0..n {
        t.push(it(i));
    }
    let t = L(t);
    let mut us = vec![t.clone()];
    for i in 0..n {
        let fl = |g: &mut G, x: E, y: E| if g.chance(1, 3) { eq(y, x) } else { eq(x, y) };
        let e1 = fl(tg.g, ites[i].1.clone(), it(i));
        let e2 = fl(tg.g, ites[i].2.clone(), it(i));
        us.push(ap3("ite", ites[i].0.clone(), e1, e2));
    }
    Step::new(tg.sig, "ite_intro", vec![], vec![], vec![eq(t, and(us))])
}

pub fn fams() -> Vec<Fam> {
    vec![
        ("template", template),
        ("template", template),
        ("template", template),
        ("template", template),
        ("template", template),
        ("template", template),
        ("and_pos", and_pos),
        ("and_neg", and_neg),
        ("or_pos", or_pos),
        ("or_neg", or_neg),
        ("and", and_),
        ("not_or", not_or),
        ("or", or_),
        ("not_and", not_and),
        ("and_intro", and_intro),
        ("and_simplify", and_simplify),
        ("or_simplify", or_simplify),
        ("and_simplify", and_simplify),
        ("or_simplify", or_simplify),
        ("connective_q", connective_q),
        ("nary_elim", nary_elim),
        ("ac_simp", ac_simp),
        ("aci_simp", aci_simp),
        ("distinct_elim", distinct_elim),
        ("bfun_elim", bfun_elim),
        ("ite_intro", ite_intro),
    ]
}
