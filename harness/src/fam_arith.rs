//! Linear and non-linear arithmetic, numeric simplification.
use crate::eval::{V, S};
use crate::g::G;
use crate::sexp::*;
use crate::step::*;
use crate::terms::*;
use rug::{Integer, Rational};

fn q(n: i64, d: i64) -> Rational {
    Rational::from((n, d))
}
/// A literal with the given value.
pub fn lit(g: &mut G, s: &S, v: &Rational) -> E {
    if g.wild && g.chance(1, 25) {
        let (n, d) = (g.small(4), g.small(3));
        let e = if *s == S::Int {
            ap2(if g.chance(1, 4) { "mod" } else { "div" }, int(n), int(d))
        } else {
            ap2("/", a(format!("{}.0", n.abs())), if d < 0 { ap1("-", a(format!("{}.0", -d))) } else { a(format!("{d}.0")) })
        };
        return if g.chance(1, 4) { ap1("-", e) } else { e };
    }
    if *s == S::Int {
        let n = v.numer().to_i64().unwrap();
        return int(n);
    }
    let neg = *v < 0;
    let x = v.clone().abs();
    let (n, d) = (x.numer().clone(), x.denom().clone());
    let e = if d == 1 {
        if g.chance(1, 10) { a(format!("{n}.00")) } else { a(format!("{n}.0")) }
    } else if (d == 2 || d == 4 || d == 5) && g.bool() {
        let h: Integer = Integer::from(&n * 100) / &d;
        a(format!("{}.{:02}", Integer::from(&h / 100), Integer::from(&h % 100)))
    } else if neg && g.bool() {
        return ap2("/", ap1("-", a(format!("{n}.0"))), a(format!("{d}.0")));
    } else {
        ap2("/", a(format!("{n}.0")), a(format!("{d}.0")))
    };
    if neg { ap1("-", e) } else { e }
}
fn grid(s: &S, n: i64) -> Vec<V> {
    if *s == S::Int {
        (-n..=n).map(|i| V::N(q(i, 1))).collect()
    } else {
        (-2 * n..=2 * n).map(|i| V::N(q(i, 2))).collect()
    }
}
fn coef(g: &mut G, s: &S) -> Rational {
    let n = g.small(5);
    if *s == S::Real && g.chance(1, 5) { q(n, [2, 3, 4][g.u(3)]) } else { q(n, 1) }
}
/// Renders sum c_i*atom_i + k as a term, in a random shape.
fn render(g: &mut G, s: &S, lin: &[(Rational, E)], k: &Rational) -> E {
    let mut parts: Vec<(bool, E)> = vec![];
    for (c, x) in lin {
        if *c == 0 && !g.chance(1, 12) {
            continue;
        }
        // sometimes split a coefficient
        if *s == S::Int && *c > 1 && g.chance(1, 8) {
            parts.push((true, mono(g, s, &q(1, 1), x)));
            parts.push((true, mono(g, s, &Rational::from(c - 1), x)));
            continue;
        }
        if g.chance(1, 5) {
            parts.push((false, mono(g, s, &Rational::from(-c), x)));
        } else {
            parts.push((true, mono(g, s, c, x)));
        }
    }
    if *k != 0 || parts.is_empty() || g.chance(1, 10) {
        if g.chance(1, 5) {
            parts.push((false, lit(g, s, &Rational::from(-k))));
        } else {
            parts.push((true, lit(g, s, k)));
        }
    }
    if g.bool() {
        g.shuffle(&mut parts);
    }
    combine(g, parts)
}
fn combine(g: &mut G, parts: Vec<(bool, E)>) -> E {
    if parts.len() == 1 {
        let (p, e) = parts.into_iter().next().unwrap();
        return if p { e } else { ap1("-", e) };
    }
    if parts.iter().all(|p| p.0) && g.bool() {
        return ap("+", parts.into_iter().map(|p| p.1).collect());
    }
    if parts[0].0 && parts[1..].iter().all(|p| !p.0) {
        return ap("-", parts.into_iter().map(|p| p.1).collect());
    }
    // split
    let k = g.ur(1, parts.len() - 1);
    let mut x = parts;
    let y = x.split_off(k);
    if g.chance(1, 3) {
        let y = y.into_iter().map(|(p, e)| (!p, e)).collect();
        let (x, y) = (combine(g, x), combine(g, y));
        ap2("-", x, y)
    } else {
        let (x, y) = (combine(g, x), combine(g, y));
        ap2("+", x, y)
    }
}
fn mono(g: &mut G, s: &S, c: &Rational, x: &E) -> E {
    if *c == 1 && !g.chance(1, 6) {
        return x.clone();
    }
    if *c == -1 && g.bool() {
        return ap1("-", x.clone());
    }
    let k = if *s == S::Int && g.chance(1, 10) { int_raw(c.numer().to_i64().unwrap()) } else { lit(g, s, c) };
    if g.chance(1, 4) { ap2("*", x.clone(), k) } else { ap2("*", k, x.clone()) }
}
fn num_sort(g: &mut G) -> S {
    if g.bool() { S::Int } else { S::Real }
}

/// The sets of atoms of a linear problem; values are hinted to a small grid.
fn atoms(tg: &mut TG, s: &S) -> Vec<E> {
    let n = tg.g.weighted(&[3, 5, 3]) + 1;
    if tg.g.chance(1, 10) {
        // non-constant atoms
        let mut v = vec![tg.cst_n(s, 0)];
        let f = tg.sig.fun(if *s == S::Int { "fi" } else { "fr" }, vec![s.clone()], s.clone());
        v.push(L(vec![f, v[0].clone()]));
        if *s == S::Real {
            let i = tg.cst_n(&S::Int, 0);
            v.push(ap1("to_real", i));
        } else {
            v.push(ap2("div", v[0].clone(), a("2")));
        }
        return v;
    }
    let lim = match (n, s == &S::Int) {
        (1, _) => 20,
        (2, true) => 10,
        (2, false) => 6,
        (_, true) => 4,
        (_, false) => 2,
    };
    (0..n)
        .map(|i| {
            let x = tg.cst_n(s, i);
            tg.sig.hint(x.atom().unwrap(), grid(s, lim));
            x
        })
        .collect()
}
/// A literal that is the negation of `lin ▷ d`, with ▷ one of ">", ">=", "=".
fn literal(g: &mut G, s: &S, lin: &[(Rational, E)], rel: &str, d: &Rational) -> E {
    // lhs - rhs: distribute parts on both sides
    let mut l = vec![];
    let mut r = vec![];
    for (c, x) in lin {
        if g.chance(1, 3) {
            r.push((Rational::from(-c), x.clone()));
        } else {
            l.push((c.clone(), x.clone()));
        }
    }
    let (kl, kr) = match g.u(3) {
        0 => (Rational::new(), d.clone()),
        1 => (Rational::from(-d), Rational::new()),
        _ => {
            let k = q(g.small(3), 1);
            (k.clone(), Rational::from(d + &k))
        }
    };
    let lt = render(g, s, &l, &kl);
    let rt = render(g, s, &r, &kr);
    match rel {
        "=" => not(eq(lt, rt)),
        ">" => match g.u(4) {
            0 => ap2("<=", lt, rt),
            1 => ap2(">=", rt, lt),
            2 => not(ap2(">", lt, rt)),
            _ => not(ap2("<", rt, lt)),
        },
        _ => match g.u(4) {
            0 => ap2("<", lt, rt),
            1 => ap2(">", rt, lt),
            2 => not(ap2(">=", lt, rt)),
            _ => not(ap2("<=", rt, lt)),
        },
    }
}
fn gcd_of(lin: &[(Rational, E)], d: &Rational) -> Rational {
    if lin.iter().all(|x| x.0 == 0) {
        return q(1, 1);
    }
    let mut g = d.numer().clone();
    for (c, _) in lin {
        g.gcd_mut(c.numer());
    }
    if g < 1 { q(1, 1) } else { Rational::from(g) }
}
fn farg(g: &mut G, v: &Rational) -> E {
    let d = v.denom().to_i64().unwrap();
    let n = v.numer().to_i64().unwrap();
    if d == 1 {
        return match g.u(3) {
            0 => int(n),
            1 => lit(g, &S::Real, v),
            _ => int_raw(n),
        };
    }
    match g.u(3) {
        0 => {
            let e = ap2("div", int(n.abs()), int(d));
            if n < 0 { ap1("-", e) } else { e }
        }
        1 => {
            let e = a(format!("{}/{d}", n.abs()));
            if n < 0 { ap1("-", e) } else { e }
        }
        _ => lit(g, &S::Real, v),
    }
}
pub fn la_generic(g: &mut G) -> Step {
    let s = num_sort(g);
    let mut tg = TG::new(g, Cfg::arith());
    let at = atoms(&mut tg, &s);
    let n = tg.g.weighted(&[1, 4, 4, 2]) + 1;
    let mut rows: Vec<(Vec<(Rational, E)>, &'static str, Rational, Rational)> = vec![];
    // multipliers of the first rows; the last row is minus the combination of the others
    let mut acc: Vec<Rational> = vec![Rational::new(); at.len()];
    let mut bound = Rational::new();
    let mut strict = false;
    for i in 0..n {
        let last = i + 1 == n;
        let rel = if n == 1 { tg.g.pick_s(&[">", ">="]) } else { tg.g.pick_s(&[">=", ">", "=", ">="]) };
        let m: Rational = if last {
            q(1, 1)
        } else {
            let k = tg.g.range(1, 4);
            if s == S::Real && tg.g.chance(1, 4) { q(k, 2) } else { q(k, 1) }
        };
        let lin: Vec<(Rational, E)> = if last {
            at.iter().zip(&acc).map(|(x, c)| (Rational::from(-c), x.clone())).collect()
        } else {
            at.iter().map(|x| (coef(tg.g, &s), x.clone())).collect()
        };
        let neg = rel == "=" && tg.g.bool() && !last;
        let m = if neg { -m } else { m };
        for (j, (c, _)) in lin.iter().enumerate() {
            acc[j] += Rational::from(c * &m);
        }
        // the bound that the checker obtains for `lin > d` over the integers
        let eff = |d: &Rational| -> (Rational, bool) {
            if rel == ">" && s == S::Int {
                (Rational::from(d + gcd_of(&lin, d)), false)
            } else {
                (d.clone(), rel == ">")
            }
        };
        let d = if last {
            // choose d so that the total bound is contradictory, tightly most of the time
            let tight = tg.g.chance(2, 3);
            let base = Rational::from(-&bound);
            let mut d = if tight { base } else { base + q(tg.g.range(0, 5), 1) };
            if s == S::Int {
                d = Rational::from(d.ceil_ref());
            }
            // `=` over the integers or otherwise: sum must be nonzero or strict
            let start = d.clone();
            let mut k = 0;
            loop {
                let (e, st) = eff(&d);
                let tot = Rational::from(&bound + &e);
                let all_eq = rel == "=" && rows.iter().all(|r| r.1 == "=");
                if tot > 0 || (tot == 0 && (st || strict) && !all_eq) {
                    break;
                }
                k += 1;
                d = Rational::from(&start + q(k, 1));
            }
            // the weakest one
            loop {
                let e = Rational::from(&d - q(1, 1));
                let (b, st) = eff(&e);
                let tot = Rational::from(&bound + &b);
                if tight && (tot > 0 || (tot == 0 && (st || strict))) {
                    d = e;
                } else {
                    break;
                }
            }
            d
        } else {
            coef(tg.g, &s)
        };
        let (e, st) = eff(&d);
        bound += Rational::from(&e * &m);
        strict |= st;
        rows.push((lin, rel, d, m));
    }
    if tg.g.chance(1, 12) {
        // an irrelevant literal with coefficient zero
        let lin: Vec<(Rational, E)> = at.iter().map(|x| (coef(tg.g, &s), x.clone())).collect();
        let d = coef(tg.g, &s);
        rows.push((lin, ">=", d, Rational::new()));
    }
    if tg.g.bool() {
        tg.g.shuffle(&mut rows);
    }
    let k = tg.g.range(1, 3);
    let scale = if tg.g.chance(1, 3) { q(k, tg.g.range(1, 3)) } else { q(1, 1) };
    let neg_ok = !rows.iter().any(|r| r.1 == "=");
    let flip = neg_ok && tg.g.chance(1, 10);
    let mut concl = vec![];
    let mut args = vec![];
    for (lin, rel, d, m) in &rows {
        let mut lt = literal(tg.g, &s, lin, rel, d);
        let mut v = Rational::from(m * &scale);
        if *rel == "=" && tg.g.chance(1, 3) {
            // a flipped equality needs the opposite coefficient
            let e = lt.args()[0].args().to_vec();
            lt = not(eq(e[1].clone(), e[0].clone()));
            v = -v;
        }
        concl.push(lt);
        if flip {
            v = -v;
        }
        args.push(farg(tg.g, &v));
    }
    let mut st = Step::new(tg.sig, "la_generic", vec![], args, concl);
    st.label = if s == S::Int { "int".into() } else { "real".into() };
    st
}
pub fn la_tautology(g: &mut G) -> Step {
    let s = num_sort(g);
    let mut tg = TG::new(g, Cfg::arith());
    let at = atoms(&mut tg, &s);
    let c = if tg.g.bool() {
        let lin: Vec<(Rational, E)> = at.iter().map(|x| (coef(tg.g, &s), x.clone())).collect();
        let rel = tg.g.pick_s(&[">", ">="]);
        // lin - lin ▷ d contradictory
        let d = if rel == ">" { q(tg.g.range(0, 3), 1) } else { q(tg.g.range(1, 3), 1) };
        let z: Vec<(Rational, E)> = lin.iter().cloned().chain(lin.iter().map(|(c, x)| (Rational::from(-c), x.clone()))).collect();
        literal(tg.g, &s, &z, rel, &d)
    } else {
        let t = { let d = tg.g.u(3); tg.term(&s, d) };
        let d1 = coef(tg.g, &S::Int);
        let k = tg.g.range(0, 2);
        let d2 = Rational::from(&d1 + q(k, 1));
        let e1 = lit(tg.g, &s, &d1);
        let e2 = lit(tg.g, &s, &d2);
        match tg.g.u(5) {
            0 => or(vec![not(ap2("<=", t.clone(), e1)), ap2("<=", t, e2)]),
            1 => or(vec![ap2("<=", t.clone(), e1.clone()), not(ap2("<=", t, e1))]),
            2 => or(vec![not(ap2(">=", t.clone(), e2)), ap2(">=", t, e1)]),
            3 => or(vec![ap2(">=", t.clone(), e1.clone()), not(ap2(">=", t, e1))]),
            _ => {
                let e3 = lit(tg.g, &s, &Rational::from(&d2 + q(1, 1)));
                or(vec![not(ap2("<=", t.clone(), e2)), not(ap2(">=", t, e3))])
            }
        }
    };
    Step::new(tg.sig, "la_tautology", vec![], vec![], vec![c])
}
fn two(g: &mut G) -> (crate::eval::Sig, E, E, S) {
    let s = num_sort(g);
    let mut tg = TG::new(g, Cfg { nonlin: true, names: 2, uf: true, ..Cfg::arith() });
    let d = tg.g.u(3);
    let t = tg.term(&s, d);
    let u = tg.term(&s, d);
    (tg.sig, t, u, s)
}
pub fn la_disequality(g: &mut G) -> Step {
    let (sig, t, u, _) = two(g);
    let c = or(vec![eq(t.clone(), u.clone()), not(ap2("<=", t.clone(), u.clone())), not(ap2("<=", u, t))]);
    Step::new(sig, "la_disequality", vec![], vec![], vec![c])
}
pub fn la_totality(g: &mut G) -> Step {
    let (sig, t, u, _) = two(g);
    let c = or(vec![ap2("<=", t.clone(), u.clone()), ap2("<=", u, t)]);
    Step::new(sig, "la_totality", vec![], vec![], vec![c])
}
pub fn la_rw_eq(g: &mut G) -> Step {
    let (sig, t, u, _) = two(g);
    let c = eq(eq(t.clone(), u.clone()), and(vec![ap2("<=", t.clone(), u.clone()), ap2("<=", u, t)]));
    Step::new(sig, "la_rw_eq", vec![], vec![], vec![c])
}
pub fn la_mult(g: &mut G) -> Step {
    let s = num_sort(g);
    let mut tg = TG::new(g, Cfg { names: 3, ..Cfg::arith() });
    let m = if tg.g.bool() { tg.cst_n(&s, 0) } else { let d = tg.g.u(2); tg.term(&s, d) };
    let (l, r) = { let d = tg.g.u(2); (tg.term(&s, d), tg.term(&s, d)) };
    let pos = tg.g.bool();
    let op = tg.g.pick_s(&["<", "<=", ">", ">=", "="]);
    let z = lit(tg.g, &s, &Rational::new());
    let op2 = if pos { op } else {
        match op {
            "<" => ">",
            "<=" => ">=",
            ">" => "<",
            ">=" => "<=",
            x => x,
        }
    };
    let c = ap2("=>", and(vec![ap2(if pos { ">" } else { "<" }, m.clone(), z), ap2(op, l.clone(), r.clone())]), ap2(op2, ap2("*", m.clone(), l), ap2("*", m, r)));
    Step::new(tg.sig, if pos { "la_mult_pos" } else { "la_mult_neg" }, vec![], vec![], vec![c])
}

/// random polynomial term; w = 0: numeric sort
fn poly(tg: &mut TG, s: &S, d: usize) -> E {
    if d == 0 || tg.g.chance(1, 8) {
        if tg.g.chance(1, 3) {
            return match s {
                S::BV(w) => { let x = tg.g.below(1 << w); bvlit(*w, x as u128) }
                _ => { let c = coef(tg.g, s); lit(tg.g, s, &c) }
            };
        }
        if tg.g.chance(1, 10) {
            return match s {
                S::Int => { let x = tg.cst(s); let k = tg.g.range(0, 3); ap2(if tg.g.bool() { "div" } else { "mod" }, x, int(k)) }
                S::Real => { let i = tg.cst(&S::Int); ap1("to_real", i) }
                S::BV(_) => { let (x, y) = (tg.cst(s), tg.cst(s)); ap2("bvand", x, y) }
                _ => unreachable!(),
            };
        }
        return tg.cst(s);
    }
    let bv = matches!(s, S::BV(_));
    match tg.g.u(6) {
        0 | 1 => { let n = tg.g.ur(2, 3); let v = (0..n).map(|_| poly(tg, s, d - 1)).collect(); ap(if bv { "bvadd" } else { "+" }, v) }
        2 => { let (x, y) = (poly(tg, s, d - 1), poly(tg, s, d - 1)); ap2(if bv { "bvsub" } else { "-" }, x, y) }
        3 => { let x = poly(tg, s, d - 1); ap1(if bv { "bvneg" } else { "-" }, x) }
        4 if *s == S::Real => { let x = poly(tg, s, d - 1); let k = tg.g.range(1, 3); let c = lit(tg.g, s, &q(k, 1)); ap2("/", x, c) }
        _ => { let n = tg.g.ur(2, 3); let v = (0..n).map(|_| poly(tg, s, d - 1)).collect(); ap(if bv { "bvmul" } else { "*" }, v) }
    }
}
/// one value-preserving rewriting at a random position of the polynomial structure
fn rewrite(g: &mut G, s: &S, e: &E) -> E {
    let bv = matches!(s, S::BV(_));
    let (add, sub, neg, mul) = if bv { ("bvadd", "bvsub", "bvneg", "bvmul") } else { ("+", "-", "-", "*") };
    let k = |g: &mut G, n: i64| -> E {
        match s {
            S::BV(w) => bvlit(*w, (n as i128).rem_euclid(1 << w) as u128),
            _ => lit(g, s, &q(n, 1)),
        }
    };
    let inner = e.is_app(add) || e.is_app(sub) || e.is_app(neg) || e.is_app(mul);
    if inner && g.chance(2, 3) {
        let mut v = e.list().unwrap().to_vec();
        let i = 1 + g.u(v.len() - 1);
        v[i] = rewrite(g, s, &v[i]);
        return L(v);
    }
    let ar = e.args().len();
    match g.u(12) {
        0 if (e.is_app(add) || e.is_app(mul)) && ar >= 2 => {
            let mut v = e.list().unwrap().to_vec();
            let i = 1 + g.u(ar);
            let j = 1 + g.u(ar);
            v.swap(i, j);
            L(v)
        }
        1 if e.is_app(sub) && ar == 2 => { let x = ap1(neg, e.args()[1].clone()); ap2(add, e.args()[0].clone(), x) }
        2 if e.is_app(neg) && ar == 1 => { let m = k(g, -1); ap2(mul, m, e.args()[0].clone()) }
        3 if e.is_app(mul) && ar == 2 && e.args()[1].is_app(add) => {
            let x = e.args()[0].clone();
            ap(add, e.args()[1].args().iter().map(|y| ap2(mul, x.clone(), y.clone())).collect())
        }
        3 if e.is_app(mul) && ar == 2 && e.args()[0].is_app(sub) && e.args()[0].args().len() == 2 => {
            let y = e.args()[1].clone();
            ap(sub, e.args()[0].args().iter().map(|x| ap2(mul, x.clone(), y.clone())).collect())
        }
        4 if (e.is_app(add) || e.is_app(mul)) && ar >= 3 => {
            let v = e.args();
            ap2(e.head().unwrap(), v[0].clone(), ap(e.head().unwrap(), v[1..].to_vec()))
        }
        5 => { let z = k(g, 0); ap2(add, z, e.clone()) }
        6 => { let o = k(g, 1); ap2(mul, e.clone(), o) }
        7 => ap1(neg, ap1(neg, e.clone())),
        8 => { let c = g.small(4); let (x, y) = (k(g, c), k(g, c)); ap2(sub, ap2(add, e.clone(), x), y) }
        9 => { let t = k(g, 2); ap2(sub, ap2(mul, t, e.clone()), e.clone()) }
        10 if *s == S::Real => { let (t, h) = (k(g, 2), lit(g, s, &q(1, 2))); ap2("*", t, ap2("*", h, e.clone())) }
        11 if *s == S::Real => { let (t, h) = (k(g, 4), k(g, 4)); ap2("/", ap2("*", t, e.clone()), h) }
        11 if bv => {
            // a multiple of 2^w vanishes
            let S::BV(w) = s else { unreachable!() };
            let half = bvlit(*w, 1 << (w - 1));
            ap3(add, e.clone(), ap2(mul, half.clone(), e.clone()), ap2(mul, half, e.clone()))
        }
        _ => e.clone(),
    }
}
pub fn poly_simp(g: &mut G) -> Step {
    let s = match g.u(3) {
        0 => S::Int,
        1 => S::Real,
        _ => S::BV([2, 3, 4][g.u(3)]),
    };
    let mut tg = TG::new(g, Cfg { bv: true, names: 3, ..Cfg::arith() });
    let d = tg.g.ur(1, 3);
    let p = poly(&mut tg, &s, d);
    let mut r = p.clone();
    let n = tg.g.ur(1, 6);
    for _ in 0..n {
        if r.size() < 120 {
            r = rewrite(tg.g, &s, &r);
        }
    }
    let bv = matches!(s, S::BV(_));
    let rule = if bv && tg.g.bool() { "bv_poly_simp" } else { "poly_simp" };
    let (l, r) = if tg.g.bool() { (p, r) } else { (r, p) };
    let mut st = Step::new(tg.sig, rule, vec![], vec![], vec![eq(l, r)]);
    st.label = if bv { "bv".into() } else { String::new() };
    st
}
pub fn poly_simp_rel(g: &mut G) -> Step {
    let s = match g.u(3) {
        0 => S::Int,
        1 => S::Real,
        _ => S::BV([2, 3][g.u(2)]),
    };
    let mut tg = TG::new(g, Cfg { bv: true, names: 4, ..Cfg::arith() });
    if let S::BV(w) = s {
        let v: Vec<E> = (0..4).map(|i| tg.cst_n(&s, i)).collect();
        let (c1, c2) = (tg.g.below(1 << w) | 1, tg.g.below(1 << w) | 1);
        let p = eq(ap2("bvmul", bvlit(w, c1 as u128), ap2("bvsub", v[0].clone(), v[1].clone())), ap2("bvmul", bvlit(w, c2 as u128), ap2("bvsub", v[2].clone(), v[3].clone())));
        let c = eq(eq(v[0].clone(), v[1].clone()), eq(v[2].clone(), v[3].clone()));
        let rule = if tg.g.bool() { "bv_poly_simp_eq" } else { "poly_simp_rel" };
        return Step::new(tg.sig, rule, vec![vec![p]], vec![], vec![c]).lab("bv");
    }
    let op = tg.g.pick_s(&["<", "<=", ">", ">=", "="]);
    // x1 - x2 is k times y1 - y2 often, so that the premise has models
    let (y1, y2) = (tg.cst_n(&s, 0), tg.cst_n(&s, 1));
    for y in [&y1, &y2] {
        tg.sig.hint(y.atom().unwrap(), grid(&s, if s == S::Int { 2 } else { 1 }));
    }
    let mut c1 = tg.g.small(3);
    if c1 == 0 {
        c1 = 1
    }
    let mut m = tg.g.small(3);
    if m == 0 {
        m = 1
    }
    if op != "=" {
        // the signs of the two scalars must agree
        m = m.abs();
    }
    let (x1, x2, c2) = if tg.g.chance(1, 3) {
        let (x1, x2) = (tg.cst_n(&s, 2), tg.cst_n(&s, 3));
        for y in [&x1, &x2] {
            tg.sig.hint(y.atom().unwrap(), grid(&s, if s == S::Int { 2 } else { 1 }));
        }
        let mut c2 = tg.g.small(3);
        if c2 == 0 || (op != "=" && (c2 > 0) != (c1 > 0)) {
            c2 = c1;
        }
        (x1, x2, c2)
    } else {
        let k = lit(tg.g, &s, &q(m, 1));
        (ap2("*", k.clone(), y1.clone()), ap2("*", k, y2.clone()), c1 * m)
    };
    let (e1, e2) = (lit(tg.g, &s, &q(c1, 1)), lit(tg.g, &s, &q(c2, 1)));
    let p = eq(ap2("*", e1, ap2("-", x1.clone(), x2.clone())), ap2("*", e2, ap2("-", y1.clone(), y2.clone())));
    let c = eq(ap2(op, x1, x2), ap2(op, y1, y2));
    Step::new(tg.sig, "poly_simp_rel", vec![vec![p]], vec![], vec![c])
}
fn flip(g: &mut G, l: E, r: E) -> E {
    if g.chance(1, 3) { eq(r, l) } else { eq(l, r) }
}
pub fn sum_prod(g: &mut G) -> Step {
    let s = num_sort(g);
    let sum = g.bool();
    let op = if sum { "+" } else { "*" };
    let mut tg = TG::new(g, Cfg { names: 3, ..Cfg::arith() });
    let n = tg.g.ur(2, 5);
    let mut tot = if sum { Rational::new() } else { q(1, 1) };
    let mut rest = vec![];
    let mut l = vec![];
    for _ in 0..n {
        if tg.g.bool() {
            let c = coef(tg.g, &s);
            if sum { tot += &c } else { tot *= &c };
            l.push(lit(tg.g, &s, &c));
        } else {
            let d = tg.g.u(2);
            let mut t = tg.term(&s, d);
            if crate::eval::parse_num(t.atom().unwrap_or("x")).is_some() || (t.is_app("-") && t.args().len() == 1) || t.is_app(op) {
                t = tg.cst(&s);
            }
            rest.push(t.clone());
            l.push(t);
        }
    }
    let idt = if sum { Rational::new() } else { q(1, 1) };
    if !sum && tot == 0 {
        rest.clear();
    }
    let mut r = vec![];
    if tot != idt || rest.is_empty() {
        r.push(lit(tg.g, &s, &tot));
    }
    r.extend(rest);
    let r = ap_or_single(op, r);
    let c = flip(tg.g, ap(op, l), r);
    Step::new(tg.sig, if sum { "sum_simplify" } else { "prod_simplify" }, vec![], vec![], vec![c])
}
pub fn minus(g: &mut G) -> Step {
    let s = num_sort(g);
    let mut tg = TG::new(g, Cfg { names: 3, ..Cfg::arith() });
    let d = tg.g.u(2);
    let t = tg.term(&s, d);
    let z = lit(tg.g, &s, &Rational::new());
    let c1 = coef(tg.g, &S::Int);
    let c2 = coef(tg.g, &S::Int);
    let t = if t.atom().map_or(false, |x| x.as_bytes()[0].is_ascii_digit()) || t.is_app("-") { tg.cst_n(&s, 0) } else { t };
    let (rule, l, r) = match tg.g.u(6) {
        0 => ("minus_simplify", ap2("-", t.clone(), t), z),
        1 => ("minus_simplify", ap2("-", t.clone(), z), t),
        2 => ("minus_simplify", ap2("-", z, t.clone()), ap1("-", t)),
        3 => {
            let c1 = if c1 == 0 { q(3, 1) } else { c1 };
            let (x, y) = (lit(tg.g, &s, &c1), lit(tg.g, &s, &c2));
            let r = if c1 == c2 { z } else { lit(tg.g, &s, &Rational::from(&c1 - &c2)) };
            ("minus_simplify", ap2("-", x, y), r)
        }
        4 => ("unary_minus_simplify", ap1("-", ap1("-", t.clone())), t),
        _ => {
            let x = lit(tg.g, &s, &c1);
            let y = lit(tg.g, &s, &c1);
            ("unary_minus_simplify", x, y)
        }
    };
    // (- t 0.0) with t itself 0 etc. are fine; numbers as fractions are not covered by minus_simplify
    let c = flip(tg.g, l, r);
    Step::new(tg.sig, rule, vec![], vec![], vec![c])
}
pub fn div_mod(g: &mut G) -> Step {
    let mut tg = TG::new(g, Cfg { names: 3, ..Cfg::arith() });
    let n = tg.g.small(20);
    let mut m = tg.g.small(6);
    if m == 0 {
        m = 3;
    }
    let (x, y) = (q(n, 1), q(m, 1));
    let quo = n.div_euclid(m);
    let rem = n.rem_euclid(m);
    let (rule, l, r) = match tg.g.u(5) {
        0 | 1 => {
            let (e, f) = (lit(tg.g, &S::Int, &x), lit(tg.g, &S::Int, &y));
            ("mod_simplify", ap2("mod", e, f), lit(tg.g, &S::Int, &q(rem, 1)))
        }
        2 => {
            let t = tg.term(&S::Int, 1);
            ("div_simplify", ap2("div", t.clone(), a("1")), t)
        }
        3 => {
            let t = tg.term(&S::Real, 1);
            ("div_simplify", ap2("/", t.clone(), a("1.0")), t)
        }
        _ => {
            let (e, f) = (lit(tg.g, &S::Int, &x), lit(tg.g, &S::Int, &y));
            ("div_simplify", ap2("div", e, f), lit(tg.g, &S::Int, &q(quo, 1)))
        }
    };
    Step::new(tg.sig, rule, vec![], vec![], vec![eq(l, r)])
}
pub fn comp(g: &mut G) -> Step {
    let s = num_sort(g);
    let mut tg = TG::new(g, Cfg { names: 3, nonlin: true, ..Cfg::arith() });
    let d = tg.g.u(2);
    let (t, u) = (tg.term(&s, d), tg.term(&s, d));
    let (c1, c2) = (coef(tg.g, &s), coef(tg.g, &s));
    let (e1, e2) = (lit(tg.g, &s, &c1), lit(tg.g, &s, &c2));
    let b = |x: bool| a(if x { "true" } else { "false" });
    let (l, r) = match tg.g.u(9) {
        0 => (ap2("<", e1, e2), b(c1 < c2)),
        1 => (ap2("<=", e1, e2), b(c1 <= c2)),
        2 => (ap2("<", t.clone(), t), b(false)),
        3 => (ap2("<=", t.clone(), t), b(true)),
        4 => (ap2(">=", t.clone(), u.clone()), ap2("<=", u, t)),
        5 => {
            // over two constants or two equal terms, `<` simplifies to a Boolean constant
            let x = tg.cst_n(&s, 0);
            let y = tg.cst_n(&s, 1);
            (ap2("<", x.clone(), y.clone()), not(ap2("<=", y, x)))
        }
        6 => (ap2(">", t.clone(), u.clone()), not(ap2("<=", t, u))),
        7 => (ap2(">=", e1, e2), b(c1 >= c2)),
        _ => {
            let x = tg.cst_n(&s, 0);
            (ap2("<", x.clone(), e1.clone()), not(ap2("<=", e1, x)))
        }
    };
    let c = flip(tg.g, l, r);
    Step::new(tg.sig, "comp_simplify", vec![], vec![], vec![c])
}
pub fn eq_num(g: &mut G) -> Step {
    let s = num_sort(g);
    let mut tg = TG::new(g, Cfg { names: 3, ..Cfg::arith() });
    let c1 = coef(tg.g, &s);
    let mut c2 = coef(tg.g, &s);
    if c1 == c2 {
        c2 += 1;
    }
    // fractions written with `/` and a sign are not numerical constants for this rule
    let (c1, c2) = if c1.is_integer() && c2.is_integer() { (c1, c2) } else { (q(1, 1), q(4, 1)) };
    let (e1, e2) = (lit(tg.g, &s, &c1), lit(tg.g, &s, &c2));
    let (l, r) = match tg.g.u(3) {
        0 => { let t = tg.term(&s, 1); (eq(t.clone(), t), a("true")) }
        1 => (eq(e1, e2), a("false")),
        _ => (not(eq(e1.clone(), e1)), a("false")),
    };
    let c = flip(tg.g, l, r);
    Step::new(tg.sig, "eq_simplify", vec![], vec![], vec![c])
}

pub fn fams() -> Vec<Fam> {
    vec![
        ("la_generic", la_generic),
        ("la_generic", la_generic),
        ("la_generic", la_generic),
        ("la_generic", la_generic),
        ("la_tautology", la_tautology),
        ("la_disequality", la_disequality),
        ("la_totality", la_totality),
        ("la_rw_eq", la_rw_eq),
        ("la_mult", la_mult),
        ("poly_simp", poly_simp),
        ("poly_simp", poly_simp),
        ("poly_simp_rel", poly_simp_rel),
        ("sum_prod", sum_prod),
        ("sum_prod", sum_prod),
        ("minus", minus),
        ("div_mod", div_mod),
        ("comp", comp),
        ("eq_num", eq_num),
    ]
}
