//! Bit-blasting of bit-vectors into Booleans, and into pseudo-Boolean sums; cutting planes.
use crate::eval::{vint, S};
use crate::g::G;
use crate::sexp::*;
use crate::step::*;
use crate::terms::*;

fn ff() -> E {
    a("false")
}
fn bit(i: usize, x: &E) -> E {
    ix("@bit_of", &[i as i64], vec![x.clone()])
}
fn bits(x: &E, w: usize) -> Vec<E> {
    if x.is_app("@bbterm") {
        x.args().to_vec()
    } else {
        (0..w).map(|i| bit(i, x)).collect()
    }
}
fn xor2(x: E, y: E) -> E {
    ap2("xor", x, y)
}
fn and2(x: E, y: E) -> E {
    ap2("and", x, y)
}
fn or2(x: E, y: E) -> E {
    ap2("or", x, y)
}
fn bb(v: Vec<E>) -> E {
    ap("@bbterm", v)
}
fn width(g: &mut G) -> usize {
    *g.pick(&[1usize, 2, 3, 4, 2, 3, 1, 5])
}
fn tg(g: &mut G) -> TG<'_> {
    TG::new(g, Cfg { bv: true, ..Cfg::prop() })
}
/// an operand of width w
fn operand(t: &mut TG, w: usize) -> E {
    match t.g.weighted(&[6, 4, 2, 1]) {
        0 => {
            let n = ["x", "y", "z"][t.g.u(3)];
            t.sig.cst(&format!("{n}{w}"), S::BV(w))
        }
        1 => bb((0..w)
            .map(|_| {
                let d = if t.g.chance(1, 4) { 1 } else { 0 };
                t.boolt(d)
            })
            .collect()),
        2 => {
            let x = t.g.below(1 << w) as u128;
            bvlit(w, x)
        }
        _ => {
            let op = ["bvadd", "bvand", "bvmul"][t.g.u(3)];
            let (x, y) = (operand(t, w), operand(t, w));
            ap2(op, x, y)
        }
    }
}
fn operands(t: &mut TG, w: usize, hi: usize) -> Vec<E> {
    let n = if hi > 2 && t.g.chance(1, 3) { t.g.ur(2, hi) } else { 2 };
    let mut v: Vec<E> = (0..n).map(|_| operand(t, w)).collect();
    if t.g.chance(1, 12) {
        v[1] = v[0].clone();
    }
    v
}
fn done(t: TG, rule: &str, l: E, r: E) -> Step {
    Step::new(t.sig, rule, vec![], vec![], vec![eq(l, r)])
}
pub fn bconst(g: &mut G) -> Step {
    let w = if g.chance(1, 6) { g.ur(6, 70) } else { width(g) };
    let x = (g.seed() as u128) << 3 ^ g.seed() as u128;
    let x = if w < 128 { x & ((1u128 << w) - 1) } else { x };
    let t = tg(g);
    let r = bb((0..w).map(|i| a(if x >> i & 1 == 1 { "true" } else { "false" })).collect());
    done(t, "bitblast_const", bvlit(w, x), r)
}
pub fn bvar(g: &mut G) -> Step {
    let mut t = tg(g);
    let w = width(t.g);
    let x = operand(&mut t, w);
    let r = bb(bits(&x, w));
    done(t, "bitblast_var", x, r)
}
fn nary(g: &mut G, rule: &str, op: &str, f: &dyn Fn(E, E) -> E) -> Step {
    let mut t = tg(g);
    let w = width(t.g);
    let v = operands(&mut t, w, 4);
    let mut acc = v[0].clone();
    for y in &v[1..] {
        acc = bb(bits(&acc, w).into_iter().zip(bits(y, w)).map(|(p, q)| f(p, q)).collect());
    }
    done(t, rule, ap(op, v), acc)
}
pub fn band(g: &mut G) -> Step {
    nary(g, "bitblast_and", "bvand", &and2)
}
pub fn bor(g: &mut G) -> Step {
    nary(g, "bitblast_or", "bvor", &or2)
}
pub fn bxor(g: &mut G) -> Step {
    nary(g, "bitblast_xor", "bvxor", &xor2)
}
pub fn bxnor(g: &mut G) -> Step {
    let mut t = tg(g);
    let w = width(t.g);
    let v = operands(&mut t, w, 2);
    let r = bb(bits(&v[0], w).into_iter().zip(bits(&v[1], w)).map(|(p, q)| eq(p, q)).collect());
    done(t, "bitblast_xnor", ap("bvxnor", v), r)
}
pub fn bnot(g: &mut G) -> Step {
    let mut t = tg(g);
    let w = width(t.g);
    let x = operand(&mut t, w);
    let r = bb(bits(&x, w).into_iter().map(not).collect());
    done(t, "bitblast_not", ap1("bvnot", x), r)
}
fn ult_bits(x: &[E], y: &[E]) -> E {
    let mut r = and2(not(x[0].clone()), y[0].clone());
    for i in 1..x.len() {
        r = or2(and2(eq(x[i].clone(), y[i].clone()), r), and2(not(x[i].clone()), y[i].clone()));
    }
    r
}
fn slt_bits(x: &[E], y: &[E]) -> E {
    let n = x.len() - 1;
    if n == 0 {
        return and2(x[0].clone(), not(y[0].clone()));
    }
    let r = ult_bits(&x[..n], &y[..n]);
    or2(and2(eq(x[n].clone(), y[n].clone()), r), and2(x[n].clone(), not(y[n].clone())))
}
pub fn bult(g: &mut G) -> Step {
    let mut t = tg(g);
    let w = width(t.g);
    let v = operands(&mut t, w, 2);
    let r = ult_bits(&bits(&v[0], w), &bits(&v[1], w));
    done(t, "bitblast_ult", ap("bvult", v), r)
}
pub fn bslt(g: &mut G) -> Step {
    let mut t = tg(g);
    let w = width(t.g);
    let v = operands(&mut t, w, 2);
    let r = slt_bits(&bits(&v[0], w), &bits(&v[1], w));
    done(t, "bitblast_slt", ap("bvslt", v), r)
}
fn adder(x: &[E], y: &[E], c0: E) -> Vec<E> {
    let mut c = c0;
    let mut out = vec![];
    for i in 0..x.len() {
        out.push(xor2(xor2(x[i].clone(), y[i].clone()), c.clone()));
        c = or2(and2(x[i].clone(), y[i].clone()), and2(xor2(x[i].clone(), y[i].clone()), c));
    }
    out
}
pub fn badd(g: &mut G) -> Step {
    let mut t = tg(g);
    let w = width(t.g).min(4);
    let v = operands(&mut t, w, 3);
    let mut acc = v[0].clone();
    for y in &v[1..] {
        acc = bb(adder(&bits(&acc, w), &bits(y, w), ff()));
    }
    done(t, "bitblast_add", ap("bvadd", v), acc)
}
fn multiplier(x: &[E], y: &[E]) -> Vec<E> {
    let n = x.len();
    let sh = |j: usize, i: usize| if j <= i { and2(y[j].clone(), x[i - j].clone()) } else { ff() };
    let mut res: Vec<E> = (0..n).map(|i| sh(0, i)).collect();
    for j in 1..n {
        let mut carry: Vec<E> = vec![ff()];
        for i in 1..n {
            let prev = if j < i { carry[i - 1].clone() } else { ff() };
            carry.push(if j < i {
                or2(and2(res[i - 1].clone(), sh(j, i - 1)), and2(xor2(res[i - 1].clone(), sh(j, i - 1)), prev))
            } else {
                ff()
            });
        }
        res = (0..n)
            .map(|i| if i < j { res[i].clone() } else { xor2(xor2(res[i].clone(), sh(j, i)), carry[i].clone()) })
            .collect();
    }
    res
}
pub fn bmult(g: &mut G) -> Step {
    let mut t = tg(g);
    let w = width(t.g).min(4);
    let v = operands(&mut t, w, if w < 3 { 3 } else { 2 });
    let mut acc = v[0].clone();
    for y in &v[1..] {
        acc = bb(multiplier(&bits(&acc, w), &bits(y, w)));
    }
    done(t, "bitblast_mult", ap("bvmul", v), acc)
}
pub fn bneg(g: &mut G) -> Step {
    let mut t = tg(g);
    let w = width(t.g);
    let x = operand(&mut t, w);
    let nx: Vec<E> = bits(&x, w).into_iter().map(not).collect();
    let r = bb(adder(&nx, &vec![ff(); w], a("true")));
    done(t, "bitblast_neg", ap1("bvneg", x), r)
}
fn eqs(x: &E, y: &E, w: usize) -> E {
    let v: Vec<E> = bits(x, w).into_iter().zip(bits(y, w)).map(|(p, q)| eq(p, q)).collect();
    ap_or_single("and", v)
}
pub fn bequal(g: &mut G) -> Step {
    let mut t = tg(g);
    let w = width(t.g);
    let v = operands(&mut t, w, 2);
    let r = eqs(&v[0], &v[1], w);
    done(t, "bitblast_equal", ap("=", v), r)
}
pub fn bcomp(g: &mut G) -> Step {
    let mut t = tg(g);
    let w = width(t.g);
    let v = operands(&mut t, w, 2);
    let r = bb(vec![eqs(&v[0], &v[1], w)]);
    done(t, "bitblast_comp", ap("bvcomp", v), r)
}
pub fn bextract(g: &mut G) -> Step {
    let mut t = tg(g);
    let w = width(t.g);
    let x = operand(&mut t, w);
    let j = t.g.u(w);
    let i = t.g.ur(j, w - 1);
    let r = bb(bits(&x, w)[j..=i].to_vec());
    done(t, "bitblast_extract", ix("extract", &[i as i64, j as i64], vec![x]), r)
}
pub fn bconcat(g: &mut G) -> Step {
    let mut t = tg(g);
    let n = if t.g.chance(1, 3) { 3 } else { 2 };
    let v: Vec<(E, usize)> = (0..n)
        .map(|_| {
            let w = t.g.ur(1, 3);
            (operand(&mut t, w), w)
        })
        .collect();
    let r = bb(v.iter().rev().flat_map(|(x, w)| bits(x, *w)).collect());
    done(t, "bitblast_concat", ap("concat", v.into_iter().map(|x| x.0).collect()), r)
}
pub fn bsext(g: &mut G) -> Step {
    let mut t = tg(g);
    let w = width(t.g);
    let x = operand(&mut t, w);
    let k = t.g.u(4);
    let r = if k == 0 {
        x.clone()
    } else {
        let mut b = bits(&x, w);
        let s = b[w - 1].clone();
        b.extend(vec![s; k]);
        bb(b)
    };
    done(t, "bitblast_sign_extend", ix("sign_extend", &[k as i64], vec![x]), r)
}

/// One change in an index, or an exchange of two bits, or a different operation with the same result.
fn tamper(g: &mut G, s: &mut Step) {
    let c = s.concl[0].clone();
    match g.weighted(&[3, 3, 2, 2]) {
        0 => {
            // index of a bit, or of an extraction
            let ps: Vec<Vec<usize>> = c
                .paths()
                .into_iter()
                .filter(|p| {
                    let x = c.get(p);
                    x.is_app("_") && x.args().len() >= 2 && x.args()[1].atom().is_some_and(|s| s.parse::<i64>().is_ok())
                })
                .collect();
            if !ps.is_empty() {
                let p = ps[g.u(ps.len())].clone();
                let mut x = c.get(&p).clone();
                let k = g.ur(2, x.args().len());
                let i: i64 = x.args()[k - 1].atom().unwrap().parse().unwrap();
                let d = g.pick(&[1i64, -1, 2]);
                x.set(&[k], int_raw((i + d).max(0)));
                s.concl[0].set(&p, x);
            }
        }
        1 => {
            // exchange two arguments of some application
            let ps: Vec<Vec<usize>> = c.paths().into_iter().filter(|p| c.get(p).args().len() >= 2 && !c.get(p).is_app("_")).collect();
            if !ps.is_empty() {
                let p = ps[g.u(ps.len())].clone();
                let mut x = c.get(&p).clone();
                let n = x.args().len();
                let (i, j) = (g.u(n), g.u(n));
                let (xi, xj) = (x.args()[i].clone(), x.args()[j].clone());
                x.set(&[i + 1], xj);
                x.set(&[j + 1], xi);
                s.concl[0].set(&p, x);
            }
        }
        2 => {
            let ops = [
                "bvand", "bvor", "bvxor", "bvxnor", "bvnand", "bvnor", "bvadd", "bvsub", "bvmul", "bvult", "bvule", "bvugt", "bvuge", "bvslt", "bvsle", "bvsgt",
                "bvsge", "bvcomp", "=", "bvneg", "bvnot", "and", "or", "xor", "+", "-", ">=", ">", "<=", "<", "*",
            ];
            let ps: Vec<Vec<usize>> = c.paths().into_iter().filter(|p| c.get(p).head().is_some_and(|h| ops.contains(&h))).collect();
            if !ps.is_empty() {
                let m = 1 + g.below(6) as usize;
                let p = ps[g.u(ps.len().min(m))].clone();
                let mut x = c.get(&p).clone();
                let o = g.pick_s(&ops);
                x.set(&[0], a(o));
                s.concl[0].set(&p, x);
            }
        }
        _ => {
            // exchange of constants
            let ps: Vec<Vec<usize>> =
                c.paths().into_iter().filter(|p| matches!(c.get(p).atom(), Some("true" | "false" | "0" | "1" | "2" | "4"))).collect();
            if !ps.is_empty() {
                let p = ps[g.u(ps.len())].clone();
                let x = match c.get(&p).atom().unwrap() {
                    "true" => "false",
                    "false" => "true",
                    "0" => "1",
                    "1" => g.pick_s(&["0", "2"]),
                    "2" => g.pick_s(&["1", "4"]),
                    _ => g.pick_s(&["2", "8"]),
                };
                s.concl[0].set(&p, a(x));
            }
        }
    }
}

macro_rules! with_tamper {
    ($($n:ident $f:ident),*) => {
        $(fn $n(g: &mut G) -> Step {
            let mut s = $f(g);
            if g.wild && g.chance(1, 2) { tamper(g, &mut s); }
            s
        })*
    };
}
with_tamper!(
    t_bconst bconst, t_bvar bvar, t_band band, t_bor bor, t_bxor bxor, t_bxnor bxnor, t_bnot bnot, t_bult bult, t_bslt bslt, t_badd badd,
    t_bmult bmult, t_bneg bneg, t_bequal bequal, t_bcomp bcomp, t_bextract bextract, t_bconcat bconcat, t_bsext bsext,
    t_pcmp pcmp, t_pbvar pbvar, t_pbconst pbconst, t_pbitwise pbitwise, t_pith pith
);

pub fn fams() -> Vec<Fam> {
    vec![
        ("const", t_bconst), ("var", t_bvar), ("and", t_band), ("or", t_bor), ("xor", t_bxor), ("xnor", t_bxnor), ("not", t_bnot), ("ult", t_bult),
        ("slt", t_bslt), ("add", t_badd), ("mult", t_bmult), ("neg", t_bneg), ("equal", t_bequal), ("comp", t_bcomp), ("extract", t_bextract),
        ("concat", t_bconcat), ("sign_extend", t_bsext),
    ]
}

// ------------------------------------------------------------------ pseudo-Boolean blasting

fn pb_tg(g: &mut G) -> TG<'_> {
    let mut t = TG::new(g, Cfg { bv: true, int: true, ..Cfg::prop() });
    t.sig.pb = true;
    t
}
/// an integer term that is 0 or 1
fn pbit(t: &mut TG) -> E {
    match t.g.weighted(&[8, 1, 1]) {
        0 => {
            let n = t.g.pick_s(&["@x0", "@y0", "a", "b", "z", "i"]);
            let e = t.sig.cst(n, S::Int);
            t.sig.hint(n, vec![vint(0), vint(1)]);
            e
        }
        1 => int(t.g.range(0, 1)),
        _ => {
            let x = t.sig.cst("x2", S::BV(2));
            let i = t.g.range(0, 1);
            ix("@int_of", &[i], vec![x])
        }
    }
}
fn pb_operands(t: &mut TG, w: usize, z: bool) -> (E, E) {
    let short = t.g.bool();
    let one = |t: &mut TG| {
        if short {
            ap(
                "@pbbterm",
                (0..w)
                    .map(|_| loop {
                        let b = pbit(t);
                        if z || !b.contains_atom("z") {
                            break b;
                        }
                    })
                    .collect(),
            )
        } else {
            match t.g.u(4) {
                0 => {
                    let x = t.g.below(1 << w) as u128;
                    bvlit(w, x)
                }
                _ => {
                    let n = ["x", "y"][t.g.u(2)];
                    t.sig.cst(&format!("{n}{w}"), S::BV(w))
                }
            }
        }
    };
    let x = one(t);
    let y = one(t);
    (x, y)
}
fn pbits(x: &E, w: usize) -> Vec<E> {
    if x.is_app("@pbbterm") {
        x.args().to_vec()
    } else {
        (0..w).map(|i| ix("@int_of", &[i as i64], vec![x.clone()])).collect()
    }
}
fn times(t: &mut TG, i: usize, b: &E) -> E {
    if i == 0 && t.g.bool() { b.clone() } else { ap2("*", int(1 << i), b.clone()) }
}
fn sum(t: &mut TG, bs: &[E]) -> E {
    // a first summand that is itself a product or a sum must keep its coefficient
    let v: Vec<E> = bs.iter().enumerate().map(|(i, b)| times(t, i, b)).collect();
    ap_or_single("+", v)
}
pub fn pcmp(g: &mut G) -> Step {
    let mut t = pb_tg(g);
    let k = t.g.u(9);
    let w = if k >= 5 { t.g.ur(2, 4) } else { t.g.ur(1, 4) };
    // signed relations of wild cases also at width 1
    let w = if t.g.wild && t.g.chance(1, 6) { 1 } else { w };
    let (x, y) = pb_operands(&mut t, w, true);
    let (bx, by) = (pbits(&x, w), pbits(&y, w));
    let sub = |p: E, q: E| ap2("-", p, q);
    let ge = |p: E, k: i64| ap2(">=", p, int(k));
    let (rule, op, r): (&str, &str, E) = if k < 5 {
        let (sx, sy) = (sum(&mut t, &bx), sum(&mut t, &by));
        match k {
            0 => ("bveq", "=", eq(sub(sx, sy), int(0))),
            1 => ("bvult", "bvult", ge(sub(sy, sx), 1)),
            2 => ("bvugt", "bvugt", ge(sub(sx, sy), 1)),
            3 => ("bvuge", "bvuge", ge(sub(sx, sy), 0)),
            _ => ("bvule", "bvule", ge(sub(sy, sx), 0)),
        }
    } else {
        let n = w - 1;
        let m = n.max(1);
        let (sx, sy) = (sum(&mut t, &bx[..m]), sum(&mut t, &by[..m]));
        let sign = |b: &E| ap2("*", int(1 << n), b.clone());
        let (gx, gy) = (sign(&bx[n]), sign(&by[n]));
        match k {
            5 => ("bvslt", "bvslt", ge(ap2("+", sub(sy, gy), sub(gx, sx)), 1)),
            6 => ("bvsgt", "bvsgt", ge(ap2("+", sub(sx, gx), sub(gy, sy)), 1)),
            7 => ("bvsge", "bvsge", ge(ap2("+", sub(sx, gx), sub(gy, sy)), 0)),
            _ => ("bvsle", "bvsle", ge(ap2("+", sub(sy, gy), sub(gx, sx)), 0)),
        }
    };
    done(t, &format!("pbblast_{rule}"), ap2(op, x, y), r).lab(rule)
}
pub fn pbvar(g: &mut G) -> Step {
    let mut t = pb_tg(g);
    let w = t.g.ur(1, 4);
    let x = loop {
        let x = pb_operands(&mut t, w, true).0;
        if !x.is_app("@pbbterm") {
            break x;
        }
    };
    let r = ap("@pbbterm", pbits(&x, w));
    done(t, "pbblast_pbbvar", x, r)
}
pub fn pbconst(g: &mut G) -> Step {
    let t = pb_tg(g);
    let w = if t.g.chance(1, 6) { t.g.ur(6, 70) } else { t.g.ur(1, 5) };
    let x = (t.g.seed() as u128) << 5 ^ t.g.seed() as u128;
    let x = if w < 128 { x & ((1u128 << w) - 1) } else { x };
    let r = ap(
        "@pbbterm",
        (0..w)
            .map(|i| {
                if t.g.wild && t.g.chance(1, 40) {
                    // 0 or 1 modulo 2^32
                    a(format!("{}", (1u128 << 32) + (x >> i & 1)))
                } else {
                    int((x >> i & 1) as i64)
                }
            })
            .collect(),
    );
    done(t, "pbblast_pbbconst", bvlit(w, x), r)
}
fn xor_cs(x: &E, y: &E, z: &E) -> Vec<E> {
    let ge = |p: E, q: E| ap2(">=", p, q);
    let pl = |p: &E, q: &E| ap2("+", p.clone(), q.clone());
    vec![ge(pl(x, y), z.clone()), ge(pl(z, x), y.clone()), ge(pl(z, y), x.clone()), ge(int(2), ap3("+", z.clone(), x.clone(), y.clone()))]
}
fn and_cs(x: &E, y: &E, z: &E) -> Vec<E> {
    let ge = |p: E, q: E| ap2(">=", p, q);
    vec![ge(x.clone(), z.clone()), ge(y.clone(), z.clone()), ge(ap2("+", z.clone(), int(1)), ap2("+", x.clone(), y.clone()))]
}
fn choice(cs: Vec<E>) -> E {
    bind("choice", &[(a("z"), a("Int"))], and(cs))
}
pub fn pbitwise(g: &mut G) -> Step {
    let mut t = pb_tg(g);
    let w = t.g.ur(1, 3);
    let wild = t.g.wild;
    let (x, y) = pb_operands(&mut t, w, wild);
    let is_and = t.g.bool();
    let z = a("z");
    let r = ap(
        "@pbbterm",
        pbits(&x, w).iter().zip(pbits(&y, w)).map(|(p, q)| choice(if is_and { and_cs(p, &q, &z) } else { xor_cs(p, &q, &z) })).collect(),
    );
    let (rule, op) = if is_and { ("pbblast_bvand", "bvand") } else { ("pbblast_bvxor", "bvxor") };
    done(t, rule, ap2(op, x, y), r).lab(op)
}
pub fn pith(g: &mut G) -> Step {
    let mut t = pb_tg(g);
    let wild = t.g.wild;
    let b = |t: &mut TG| loop {
        let b = pbit(t);
        if wild || !b.contains_atom("z") {
            break b;
        }
    };
    let (x, y) = (b(&mut t), b(&mut t));
    let is_and = t.g.bool();
    let z = a("z");
    let f = |z: &E| if is_and { and_cs(&x, &y, z) } else { xor_cs(&x, &y, z) };
    let r = choice(f(&z));
    let c = and(f(&r));
    let rule = if is_and { "pbblast_bvand_ith_bit" } else { "pbblast_bvxor_ith_bit" };
    Step::new(t.sig, rule, vec![], vec![x, y], vec![c])
}

// ------------------------------------------------------------------ cutting planes

/// A pseudo-Boolean sum: (coefficient, variable, negated)
type Pb = Vec<(i64, E, bool)>;
const NAMES: [&str; 7] = ["x1", "x2", "x3", "y", "~x1", "|~x2|", "w"];

fn pb_sig(t: &mut TG) {
    for n in NAMES {
        let m = n.trim_matches('|');
        t.sig.cst(m, S::Int);
        t.sig.hint(m, vec![vint(0), vint(1)]);
    }
}
fn lit(x: &E, neg: bool) -> E {
    if neg { ap2("-", int_raw(1), x.clone()) } else { x.clone() }
}
fn pb_sum(p: &Pb) -> E {
    if p.is_empty() {
        return int_raw(0);
    }
    ap_or_single("+", p.iter().map(|(c, x, n)| ap2("*", int_raw(*c), lit(x, *n))).collect())
}
fn pb_ge(p: &Pb, k: i64) -> E {
    ap2(">=", pb_sum(p), int_raw(k))
}
/// distinct literals
fn pb_rand(g: &mut G, neg_coeffs: bool, max: i64) -> Pb {
    let n = g.ur(1, 4);
    let mut out: Pb = vec![];
    for _ in 0..n {
        let x = a(NAMES[g.u(if g.wild { NAMES.len() } else { 4 })]);
        let neg = g.chance(1, 3);
        if !g.wild && out.iter().any(|(_, y, m)| *y == x && *m == neg) {
            continue;
        }
        let c = if neg_coeffs && g.chance(1, 4) { g.range(-max, 0) } else { g.range(1, max) };
        out.push((c, x, neg));
    }
    out
}
fn cp(t: TG, rule: &str, prems: Vec<E>, args: Vec<E>, c: E) -> Step {
    Step::new(t.sig, rule, prems.into_iter().map(|p| vec![p]).collect(), args, vec![c])
}
/// a sum over a combined hash: order-preserving accumulation
fn add_up(v: &[(i64, E, bool)]) -> Pb {
    let mut out: Pb = vec![];
    for (c, x, n) in v {
        if let Some(e) = out.iter_mut().find(|e| e.1 == *x && e.2 == *n) {
            e.0 += c;
        } else {
            out.push((*c, x.clone(), *n));
        }
    }
    out
}
pub fn cp_add(g: &mut G) -> Step {
    let mut t = pb_tg(g);
    pb_sig(&mut t);
    let negc = t.g.wild;
    let (p, q) = (pb_rand(t.g, negc, 5), pb_rand(t.g, negc, 5));
    let (k, l) = (t.g.range(-2, 7), t.g.range(-2, 7));
    let all: Vec<_> = p.iter().chain(&q).cloned().collect();
    let s = add_up(&all);
    let mut slack = 0;
    let mut r: Pb = vec![];
    for (c, x, n) in &s {
        match s.iter().find(|e| e.1 == *x && e.2 != *n) {
            None => r.push((*c, x.clone(), *n)),
            Some(o) => {
                if !*n {
                    slack += (*c).min(o.0);
                }
                if *c > o.0 {
                    r.push((*c - o.0, x.clone(), *n));
                } else if t.g.chance(1, 6) {
                    r.push((0, x.clone(), *n));
                }
            }
        }
    }
    let r: Pb = r.into_iter().filter(|e| e.0 != 0 || t.g.chance(1, 2)).collect();
    let mut r = r;
    if t.g.bool() {
        t.g.shuffle(&mut r);
    }
    cp(t, "cp_addition", vec![pb_ge(&p, k), pb_ge(&q, l)], vec![], pb_ge(&r, k + l - slack))
}
pub fn cp_mult(g: &mut G) -> Step {
    let mut t = pb_tg(g);
    pb_sig(&mut t);
    let p = pb_rand(t.g, true, 5);
    let k = t.g.range(-3, 7);
    let m = if t.g.wild { t.g.range(-2, 4) } else { t.g.range(1, 5) };
    let mut r: Pb = add_up(&p).into_iter().map(|(c, x, n)| (m * c, x, n)).collect();
    if t.g.bool() {
        t.g.shuffle(&mut r);
    }
    cp(t, "cp_multiplication", vec![pb_ge(&p, k)], vec![int_raw(m)], pb_ge(&r, m * k))
}
pub fn cp_div(g: &mut G) -> Step {
    let mut t = pb_tg(g);
    pb_sig(&mut t);
    let wild = t.g.wild;
    let p = pb_rand(t.g, wild, 9);
    let k = if wild { t.g.range(-12, 12) } else { t.g.range(0, 12) };
    let d = t.g.range(1, 5);
    // what the rule documents for natural numbers; for negative ones the checker's own rounding
    let ceil = |c: i64| (c + d - 1) / d;
    let floorish = t.g.wild && t.g.bool();
    let up = |c: i64| if floorish { (c + d - 1).div_euclid(d) } else { ceil(c) };
    let r: Pb = add_up(&p).into_iter().map(|(c, x, n)| (up(c), x, n)).collect();
    cp(t, "cp_division", vec![pb_ge(&p, k)], vec![int_raw(d)], pb_ge(&r, up(k)))
}
pub fn cp_sat(g: &mut G) -> Step {
    let mut t = pb_tg(g);
    pb_sig(&mut t);
    let wild = t.g.wild;
    let p = pb_rand(t.g, wild, 7);
    let k = if wild { t.g.range(-3, 7) } else { t.g.range(0, 7) };
    let r: Pb = add_up(&p).into_iter().map(|(c, x, n)| (c.min(k), x, n)).collect();
    cp(t, "cp_saturation", vec![pb_ge(&p, k)], vec![], pb_ge(&r, k))
}
pub fn cp_lit(g: &mut G) -> Step {
    let mut t = pb_tg(g);
    pb_sig(&mut t);
    let x = a(NAMES[t.g.u(NAMES.len())]);
    let n = t.g.bool();
    let l = lit(&x, n);
    let s = if t.g.bool() { ap2("*", int_raw(1), l.clone()) } else { l.clone() };
    cp(t, "cp_literal", vec![], vec![l], ap2(">=", s, int_raw(0)))
}
/// A linear expression tree together with its flat reading.
fn tree(t: &mut TG, d: usize, sg: i64, vars: &mut Vec<(i64, E)>, k: &mut i64) -> E {
    let n = t.g.u(if d == 0 { 4 } else { 7 });
    match n {
        0 | 1 => {
            let x = a(NAMES[t.g.u(4)]);
            vars.push((sg, x.clone()));
            x
        }
        2 => {
            let x = a(NAMES[t.g.u(4)]);
            let c = t.g.range(-4, 4);
            vars.push((sg * c, x.clone()));
            if t.g.bool() { ap2("*", int_raw(c), x) } else { ap2("*", x, int_raw(c)) }
        }
        3 => {
            let c = t.g.range(-3, 4);
            *k += sg * c;
            int_raw(c)
        }
        4 | 5 => {
            let m = t.g.ur(2, 3);
            ap("+", (0..m).map(|_| tree(t, d - 1, sg, vars, k)).collect())
        }
        _ => {
            let m = t.g.ur(2, 3);
            ap("-", (0..m).map(|i| tree(t, d - 1, if i == 0 { sg } else { -sg }, vars, k)).collect())
        }
    }
}
/// `sum >= k` with non-negative coefficients
fn push(vars: &[(i64, E)], k: i64) -> (Pb, i64) {
    let mut k = k;
    let p = vars
        .iter()
        .map(|(c, x)| {
            if *c >= 0 {
                (*c, x.clone(), false)
            } else {
                k -= c;
                (-c, x.clone(), true)
            }
        })
        .collect();
    (p, k)
}
pub fn cp_norm(g: &mut G) -> Step {
    let mut t = pb_tg(g);
    pb_sig(&mut t);
    let (l, r, vars, k) = loop {
        let (mut vars, mut k) = (vec![], 0);
        let d = t.g.u(3);
        let l = tree(&mut t, d, 1, &mut vars, &mut k);
        let d = t.g.u(2);
        let r = tree(&mut t, d, -1, &mut vars, &mut k);
        if !vars.is_empty() {
            break (l, r, vars, -k);
        }
    };
    let minus: Vec<(i64, E)> = vars.iter().map(|(c, x)| (-c, x.clone())).collect();
    let op = t.g.pick_s(&[">=", ">", "<=", "<", "="]);
    let mk = |(p, k): (Pb, i64)| pb_ge(&p, k);
    let n = match op {
        ">=" => mk(push(&vars, k)),
        ">" => mk(push(&vars, k + 1)),
        "<=" => mk(push(&minus, -k)),
        "<" => mk(push(&minus, 1 - k)),
        _ => and(vec![mk(push(&vars, k)), mk(push(&minus, -k))]),
    };
    done(t, "cp_normalize", ap2(op, l, r), n).lab(op)
}
/// steps of the soundness stream: also premises that are clauses, and unary minus
fn wildly(g: &mut G, f: fn(&mut G) -> Step) -> Step {
    let mut s = f(g);
    if !g.wild {
        return s;
    }
    if g.chance(1, 12) && !s.prems.is_empty() {
        let i = g.u(s.prems.len());
        let k = g.range(0, 2);
        let x = ap2(">=", a(NAMES[g.u(4)]), int_raw(k));
        s.prems[i].push(x);
    }
    if g.chance(1, 8) && s.rule == "cp_normalize" {
        let c = s.concl[0].clone();
        let ps: Vec<Vec<usize>> = c.paths().into_iter().filter(|p| p.first() == Some(&1) && p.len() > 1 && NAMES.iter().any(|n| c.get(p).is(n))).collect();
        if !ps.is_empty() {
            let p = ps[g.u(ps.len())].clone();
            let x = ap1("-", c.get(&p).clone());
            s.concl[0].set(&p, x);
        }
    }
    s
}
fn w_add(g: &mut G) -> Step {
    wildly(g, cp_add)
}
fn w_mult(g: &mut G) -> Step {
    wildly(g, cp_mult)
}
fn w_div(g: &mut G) -> Step {
    wildly(g, cp_div)
}
fn w_sat(g: &mut G) -> Step {
    wildly(g, cp_sat)
}
fn w_lit(g: &mut G) -> Step {
    wildly(g, cp_lit)
}
fn w_norm(g: &mut G) -> Step {
    wildly(g, cp_norm)
}
pub fn pb_fams() -> Vec<Fam> {
    vec![
        ("pb-cmp", t_pcmp), ("pb-var", t_pbvar), ("pb-const", t_pbconst), ("pb-bitwise", t_pbitwise), ("pb-ith", t_pith), ("cp-add", w_add),
        ("cp-mult", w_mult), ("cp-div", w_div), ("cp-sat", w_sat), ("cp-lit", w_lit), ("cp-norm", w_norm),
    ]
}
/// Literals of cutting planes are 0-1 variables, possibly negated: other literal arguments are not judged.
pub fn pb_judged(s: &Step) -> bool {
    fn simple(x: &E) -> bool {
        x.atom().is_some_and(|s| s.parse::<i64>().is_err()) || (x.is_app("-") && x.args().len() == 2 && x.args()[0].is("1") && x.args()[1].atom().is_some_and(|s| s.parse::<i64>().is_err()))
    }
    fn sum_ok(x: &E) -> bool {
        let v: Vec<E> = if x.is_app("+") { x.args().to_vec() } else { vec![x.clone()] };
        v.iter().all(|t| t.is("0") || simple(t) || (t.is_app("*") && t.args().len() == 2 && simple(&t.args()[1])))
    }
    fn ineq(x: &E) -> bool {
        !x.is_app(">=") || x.args().len() != 2 || sum_ok(&x.args()[0])
    }
    match &*s.rule {
        "cp_literal" => s.args.iter().all(simple),
        // the arguments are bits
        "pbblast_bvxor_ith_bit" | "pbblast_bvand_ith_bit" => {
            s.args.iter().all(|x| x.is("0") || x.is("1") || x.atom().is_some_and(|s| s.parse::<i64>().is_err()) || x.list().is_some_and(|l| l[0].is_app("_")))
        }
        "cp_normalize" => true,
        r if r.starts_with("cp_") => s.prems.iter().flatten().chain(&s.concl).all(ineq),
        _ => true,
    }
}
