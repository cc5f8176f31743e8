//! Resolution, clause manipulation, DRUP/DRAT.
use crate::eval::S;
use crate::g::G;
use crate::sexp::*;
use crate::step::*;
use crate::terms::*;

/// literal: number of negations, atom index
type Lit = (usize, usize);

struct Atoms {
    sig: crate::eval::Sig,
    at: Vec<E>,
}
fn atoms(g: &mut G, n: usize) -> Atoms {
    let compound = g.chance(1, 3);
    let mut tg = TG::new(g, if compound { Cfg::uf() } else { Cfg::prop() });
    let mut at: Vec<E> = vec![];
    for i in 0..n {
        let mut t = if compound && tg.g.chance(1, 2) { tg.boolt(2) } else { tg.cst_n(&S::Bool, i) };
        while t.is_app("not") {
            t = t.args()[0].clone();
        }
        if at.contains(&t) {
            t = tg.cst_n(&S::Bool, 10 + i);
        }
        at.push(t);
    }
    Atoms { sig: tg.sig, at }
}
fn e(at: &Atoms, x: Lit) -> E {
    let mut t = at.at[x.1].clone();
    for _ in 0..x.0 {
        t = not(t);
    }
    t
}
fn cle(at: &Atoms, c: &[Lit]) -> Vec<E> {
    c.iter().map(|x| e(at, *x)).collect()
}
fn lit(g: &mut G, n: usize) -> Lit {
    (g.weighted(&[6, 6, 2, 1]), g.u(n))
}

struct Chain {
    at: Atoms,
    prems: Vec<Vec<Lit>>,
    pivots: Vec<(Lit, bool)>,
    /// resolvents, multiset semantics with exact negation counts
    res: Vec<Vec<Lit>>,
}
/// Input resolution chain. The resolvent is computed with list semantics (strict) or set semantics.
fn chain(g: &mut G, strict: bool) -> Chain {
    let n = g.ur(2, 7);
    let at = atoms(g, n);
    let len = if g.chance(1, 6) { g.ur(1, 12) } else { g.ur(1, 5) };
    let mut cur: Vec<Lit> = vec![];
    for _ in 0..g.ur(1, 4) {
        cur.push(lit(g, n));
    }
    if !strict {
        dedup(&mut cur);
    }
    let mut prems = vec![cur.clone()];
    let mut pivots = vec![];
    let mut res = vec![];
    for _ in 0..len {
        if cur.is_empty() {
            break;
        }
        let i = g.u(cur.len());
        let l = cur[i];
        // pivot is (k, x); current has it or its negation (k+1, x)
        let (piv, pol) = if l.0 > 0 && g.bool() { ((l.0 - 1, l.1), false) } else { (l, true) };
        let other = if pol { (piv.0 + 1, piv.1) } else { piv };
        let mut next: Vec<Lit> = vec![];
        for _ in 0..g.weighted(&[4, 4, 2, 1]) {
            next.push(if !cur.is_empty() && g.chance(1, 3) { cur[g.u(cur.len())] } else { lit(g, n) });
        }
        let at_pos = g.u(next.len() + 1);
        next.insert(at_pos, other);
        if !strict {
            dedup(&mut next);
        }
        // resolve
        let p = cur.iter().position(|x| *x == l).unwrap();
        cur.remove(p);
        let q = next.iter().position(|x| *x == other).unwrap();
        for (j, x) in next.iter().enumerate() {
            if j != q {
                cur.push(*x);
            }
        }
        if !strict {
            dedup(&mut cur);
        }
        prems.push(next);
        pivots.push((piv, pol));
        res.push(cur.clone());
    }
    Chain { at, prems, pivots, res }
}
fn dedup(v: &mut Vec<Lit>) {
    let mut w: Vec<Lit> = vec![];
    for x in v.iter() {
        if !w.contains(x) {
            w.push(*x);
        }
    }
    *v = w;
}
fn args(c: &Chain) -> Vec<E> {
    c.pivots.iter().flat_map(|(p, b)| vec![e(&c.at, *p), a(if *b { "true" } else { "false" })]).collect()
}
pub fn res_plain(g: &mut G) -> Step {
    let c = chain(g, false);
    let mut concl = cle(&c.at, c.res.last().unwrap());
    let mut prems: Vec<Vec<E>> = c.prems.iter().map(|p| cle(&c.at, p)).collect();
    if g.chance(1, 4) {
        g.shuffle(&mut concl);
    }
    if g.chance(1, 8) {
        g.shuffle(&mut prems);
    }
    let r = g.pick_s(&["resolution", "th_resolution"]);
    Step::new(c.at.sig, r, prems, vec![], concl)
}
pub fn res_args(g: &mut G) -> Step {
    let c = chain(g, false);
    let mut concl = cle(&c.at, c.res.last().unwrap());
    if g.chance(1, 4) {
        g.shuffle(&mut concl);
    }
    let a = args(&c);
    let r = g.pick_s(&["resolution", "th_resolution"]);
    let prems = c.prems.iter().map(|p| cle(&c.at, p)).collect();
    Step::new(c.at.sig, r, prems, a, concl).lab("args")
}
pub fn res_strict(g: &mut G) -> Step {
    let c = chain(g, true);
    let concl = cle(&c.at, c.res.last().unwrap());
    let a = args(&c);
    let prems = c.prems.iter().map(|p| cle(&c.at, p)).collect();
    Step::new(c.at.sig, "strict_resolution", prems, a, concl)
}
/// unconstrained small clauses: many are nearly valid
pub fn res_random(g: &mut G) -> Step {
    let n = g.ur(1, 3);
    let at = atoms(g, n);
    let k = g.ur(2, 4);
    let prems: Vec<Vec<E>> = (0..k)
        .map(|_| {
            let m = g.ur(1, 3);
            let c: Vec<Lit> = (0..m).map(|_| lit(g, n)).collect();
            cle(&at, &c)
        })
        .collect();
    let m = g.weighted(&[5, 3, 2]);
    let c: Vec<Lit> = (0..m).map(|_| lit(g, n)).collect();
    let c = cle(&at, &c);
    let mut s = Step::new(at.sig.clone(), "resolution", prems, vec![], c);
    match g.u(6) {
        0 => s.rule = "th_resolution".into(),
        1 => {
            for _ in 1..k {
                s.args.push(e(&at, lit(g, n)));
                s.args.push(a(if g.bool() { "true" } else { "false" }));
            }
            if g.bool() {
                s.rule = "strict_resolution".into();
            }
        }
        2 | 3 => {
            s.rule = g.pick_s(&["drup", "drat"]).into();
            for _ in 0..g.u(3) {
                let m = g.ur(0, 2);
                let c: Vec<Lit> = (0..m).map(|_| lit(g, n)).collect();
                s.args.push(ap("cl", cle(&at, &c)));
                if g.chance(1, 4) {
                    let c = s.prems[g.u(k)].clone();
                    s.args.push(ap1("@d", ap("cl", c)));
                }
            }
            if g.chance(3, 4) {
                s.args.push(ap("cl", s.concl.clone()));
            }
        }
        _ => {}
    }
    s
}
pub fn contraction(g: &mut G) -> Step {
    let n = g.ur(1, 5);
    let at = atoms(g, n);
    let m = g.ur(0, 6);
    let c: Vec<Lit> = (0..m).map(|_| lit(g, n)).collect();
    let mut d = c.clone();
    // drop some of the duplicates
    let full = g.bool();
    let mut i = 0;
    while i < d.len() {
        if d[..i].contains(&d[i]) && (full || g.bool()) {
            d.remove(i);
        } else {
            i += 1;
        }
    }
    let (c, d) = (cle(&at, &c), cle(&at, &d));
    Step::new(at.sig, "contraction", vec![c], vec![], d)
}
pub fn reordering(g: &mut G) -> Step {
    let n = g.ur(1, 5);
    let at = atoms(g, n);
    let m = g.ur(0, 6);
    let mut c: Vec<Lit> = (0..m).map(|_| lit(g, n)).collect();
    let p = cle(&at, &c);
    g.shuffle(&mut c);
    let c = cle(&at, &c);
    Step::new(at.sig, "reordering", vec![p], vec![], c)
}
pub fn weakening(g: &mut G) -> Step {
    let n = g.ur(1, 5);
    let at = atoms(g, n);
    let m = g.ur(0, 4);
    let mut c: Vec<Lit> = (0..m).map(|_| lit(g, n)).collect();
    let p = cle(&at, &c);
    for _ in 0..g.u(4) {
        c.push(lit(g, n));
    }
    let c = cle(&at, &c);
    Step::new(at.sig, "weakening", vec![p], vec![], c)
}
pub fn tautology(g: &mut G) -> Step {
    let n = g.ur(1, 5);
    let at = atoms(g, n);
    let m = g.ur(0, 4);
    let mut c: Vec<Lit> = (0..m).map(|_| lit(g, n)).collect();
    let x = lit(g, n);
    for k in [x.0, x.0 + 1] {
        let i = g.u(c.len() + 1);
        c.insert(i, (k, x.1));
    }
    let p = cle(&at, &c);
    Step::new(at.sig, "tautology", vec![p], vec![], vec![a("true")])
}
pub fn shuffle(g: &mut G) -> Step {
    let mut tg = TG::new(g, Cfg { ..Cfg::arith() });
    let op = tg.g.pick_s(&["and", "or", "+", "*"]);
    let s = match op {
        "and" | "or" => S::Bool,
        _ => if tg.g.bool() { S::Int } else { S::Real },
    };
    let v = tg.terms(&s, 1, 2, 5);
    let mut w = v.clone();
    tg.g.shuffle(&mut w);
    Step::new(tg.sig, "shuffle", vec![], vec![], vec![eq(ap(op, v), ap(op, w))])
}
/// DRUP from a resolution chain: every resolvent is a RUP clause
pub fn drup(g: &mut G) -> Step {
    let c = chain(g, false);
    let mut args: Vec<E> = vec![];
    let mut deletable: Vec<Vec<Lit>> = vec![c.prems[0].clone()];
    let last = c.res.len() - 1;
    for (i, r) in c.res.iter().enumerate() {
        if i == last || g.chance(2, 3) {
            args.push(ap("cl", cle(&c.at, r)));
            if i != last {
                // the premises resolved so far are not needed any more, unless they occur again
                for d in deletable.drain(..).chain([c.prems[i + 1].clone()]).collect::<Vec<_>>() {
                    let again = c.prems[i + 2..].contains(&d) || c.res[i..].contains(&d);
                    if !again && g.chance(1, 4) {
                        args.push(ap1("@d", ap("cl", cle(&c.at, &d))));
                    }
                }
                deletable = vec![r.clone()];
            }
        } else {
            deletable.clear();
        }
    }
    let concl = cle(&c.at, &c.res[last]);
    let r = g.pick_s(&["drup", "drat"]);
    let mut prems: Vec<Vec<E>> = c.prems.iter().map(|p| cle(&c.at, p)).collect();
    g.shuffle(&mut prems);
    Step::new(c.at.sig, r, prems, args, concl)
}
/// DRAT refutation with an extension variable
pub fn drat(g: &mut G) -> Step {
    let n = g.ur(2, 4);
    let at = atoms(g, n);
    // all 2^k sign patterns over k atoms: unsatisfiable
    let k = g.ur(1, n.min(3));
    let mut prems = vec![];
    for m in 0..1usize << k {
        prems.push((0..k).map(|i| e(&at, ((m >> i) & 1, i))).collect::<Vec<E>>());
    }
    g.shuffle(&mut prems);
    let mut sig = at.sig.clone();
    let x = sig.cst("ext0", S::Bool);
    // x <-> (a or b)
    let (a1, b1) = (e(&at, lit(g, n)), e(&at, lit(g, n)));
    let mut args = vec![
        ap("cl", vec![x.clone(), not(a1.clone())]),
        ap("cl", vec![x.clone(), not(b1.clone())]),
        ap("cl", vec![not(x.clone()), a1, b1]),
    ];
    let cutoff = g.u(4);
    args.truncate(cutoff);
    // then derive the prefixes by RUP
    for j in (0..k).rev() {
        for m in 0..1usize << j {
            args.push(ap("cl", (0..j).map(|i| e(&at, ((m >> i) & 1, i))).collect()));
        }
    }
    Step::new(sig, "drat", prems, args, vec![])
}
pub fn fams() -> Vec<Fam> {
    vec![
        ("res_plain", res_plain),
        ("res_plain", res_plain),
        ("res_args", res_args),
        ("res_strict", res_strict),
        ("contraction", contraction),
        ("reordering", reordering),
        ("weakening", weakening),
        ("tautology", tautology),
        ("shuffle", shuffle),
        ("drup", drup),
        ("drat", drat),
    ]
}
pub fn sound_fams() -> Vec<Fam> {
    let mut v = fams();
    v.push(("res_random", res_random));
    v.push(("res_random", res_random));
    v.push(("res_random", res_random));
    v
}
