//! Properties of terms through the library API: substitution, free variables, polyequality, pool.
use crate::carc::guard;
use crate::eval::{models, Ev, Model, Sig, S};
use crate::fam_ctx::{free_names, subst_ca};
use crate::g::{hash_str, G};
use crate::libt::*;
use crate::runner::{Case, Viol};
use crate::sexp::*;
use crate::terms::*;
use carcara::ast::pool::advanced::{ContextPool, LocalPool};
use carcara::ast::{Polyeq, PrimitivePool, Rc, Substitution, Term, TermPool};
use indexmap::IndexMap;
use std::collections::{BTreeSet, HashMap, HashSet};

pub fn viol(sig: impl Into<String>, msg: String, sigd: &Sig, terms: &[(&str, String)]) -> Viol {
    let mut t = String::new();
    for (k, v) in terms {
        t.push_str(&format!("; {k}\n{v}\n"));
    }
    Viol { sig: sig.into(), msg, files: vec![("problem.smt2".into(), sigd.prelude()), ("terms.txt".into(), t)] }
}
pub fn rich(g: &mut G) -> Cfg {
    let q = g.chance(4, 5);
    Cfg {
        uf: true,
        int: g.chance(1, 3),
        real: g.chance(1, 5),
        bv: g.chance(1, 6),
        strs: g.chance(1, 6),
        quant: q,
        lets: g.chance(2, 3),
        choice: g.chance(1, 3),
        names: 3,
        nary: 4,
        nonlin: g.chance(1, 3),
        ite: true,
        bvw: 3,
    }
}
/// Declared symbols that occur free.
fn free_syms(e: &E, sig: &Sig) -> BTreeSet<String> {
    free_names(e).into_iter().filter(|n| sig.get(n).is_some()).collect()
}
pub fn gen_term(g: &mut G, cfg: Cfg, sig: Sig, d: usize) -> (E, S, Sig) {
    let mut tg = TG { g, sig, cfg, scope: vec![] };
    let s = if tg.g.chance(2, 3) { S::Bool } else { tg.any_sort() };
    let t = tg.term(&s, d);
    (t, s, tg.sig)
}

pub fn subst(g: &mut G) -> Case {
    let mut c = Case::default();
    let cfg = rich(g);
    let d = g.ur(1, 4);
    let (body, _, sig) = gen_term(g, cfg.clone(), Sig::default(), d);
    let (body2, _, mut sig) = gen_term(g, cfg.clone(), sig, d);
    // names that also occur as bound variables, to provoke captures
    for n in ["vx", "vy", "vz"] {
        if g.chance(1, 2) {
            let s = *g.pick(&["U", "T"]);
            let s = sig.sort(s);
            sig.cst(n, s);
        }
    }
    let consts: Vec<(String, S)> = {
        let fv: BTreeSet<String> = free_syms(&body, &sig).union(&free_syms(&body2, &sig)).cloned().collect();
        sig.funs.iter().filter(|f| f.1.is_empty() && (fv.contains(&*f.0) || f.0.starts_with('v'))).map(|f| (f.0.to_string(), f.2.clone())).collect()
    };
    if consts.is_empty() {
        return c;
    }
    let n = g.ur(1, 3).min(consts.len());
    let mut dom = consts.clone();
    g.shuffle(&mut dom);
    dom.truncate(n);
    let mut texts = vec![body.to_string(), body2.to_string()];
    for (n, s) in &dom {
        let same: Vec<String> = consts.iter().filter(|x| x.1 == *s).map(|x| x.0.clone()).collect();
        let t = if g.chance(1, 2) {
            a(&same[g.u(same.len())])
        } else {
            let mut tg = TG { g, sig, cfg: cfg.clone(), scope: vec![] };
            let mut t = tg.term(s, 2);
            sig = tg.sig;
            // put one of the awkward names inside
            let ps = term_paths(&t, &sig);
            let cand: Vec<_> = ps.iter().filter(|p| p.1.as_ref() == Some(s) && p.2.is_empty()).collect();
            if !cand.is_empty() && g.bool() {
                let p = cand[g.u(cand.len())].0.clone();
                t.set(&p, a(&same[g.u(same.len())]));
            }
            t
        };
        texts.push(n.clone());
        texts.push(t.to_string());
    }
    c.key = hash_str(&texts.join("\n"));
    let twice = g.bool();
    let seed = g.seed();
    let r = guard(|| -> Result<_, String> {
        let mut pool = PrimitivePool::new();
        let ts = parse_terms(&mut pool, &sig, &texts)?;
        let mut map = IndexMap::new();
        for i in 0..dom.len() {
            map.insert(ts[2 + 2 * i].clone(), ts[3 + 2 * i].clone());
        }
        let mut sub = Substitution::new(&mut pool, map).map_err(|e| format!("substitution: {e}"))?;
        let mut res = vec![];
        for t in ts.iter().take(if twice { 2 } else { 1 }) {
            res.push((t.clone(), sub.apply(&mut pool, t)));
        }
        let mut fvs = vec![];
        for t in ts.iter().chain(res.iter().map(|r| &r.1)) {
            let set: BTreeSet<String> = pool.free_vars(t).iter().map(|v| to_e(v).to_string()).collect();
            fvs.push((to_e(t), set));
        }
        let vals: Vec<E> = (0..dom.len()).map(|i| to_e(&ts[3 + 2 * i])).collect();
        Ok((res.iter().map(|(x, y)| (to_e(x), to_e(y), pool.sort(x) == pool.sort(y))).collect::<Vec<_>>(), vals, fvs))
    });
    let terms: Vec<(&str, String)> = texts.iter().enumerate().map(|(i, t)| (["term", "second term", "variable", "replacement"][if i < 2 { i } else { 2 + i % 2 }], t.clone())).collect();
    let (res, vals, fvs) = match r {
        Err(p) => {
            c.viol = Some(viol(p.sig(), format!("substitution panics: {}", p.msg), &sig, &terms));
            return c;
        }
        Ok(Err(_)) => {
            c.label("unparsed");
            return c;
        }
        Ok(Ok(x)) => x,
    };
    c.nontrivial = true;
    c.label(format!("dom{}", dom.len()));
    c.sample = texts.join("  ;  ");
    for (t, set) in &fvs {
        let want = free_syms(t, &sig);
        let got: BTreeSet<String> = set.iter().filter(|n| sig.get(n).is_some()).cloned().collect();
        if got != want || set.len() != got.len() {
            c.viol = Some(viol("free variables", format!("free variables of {t}: reported {set:?}, expected {want:?}"), &sig, &terms));
            return c;
        }
    }
    let map: HashMap<String, E> = dom.iter().map(|x| x.0.clone()).zip(vals.iter().cloned()).collect();
    for (orig, got, same_sort) in &res {
        if !same_sort {
            c.viol = Some(viol("substitution changes sort", format!("{orig} became {got}"), &sig, &terms));
            return c;
        }
        let mut fresh = 0;
        let want = subst_ca(orig, &map, &mut fresh);
        if want != *orig {
            c.label("changed");
        }
        if alpha_eq(&want, got) {
            continue;
        }
        c.viol = Some(viol("substitution", format!("applying {map:?} to {orig} gives {got}, expected (modulo bound names) {want}"), &sig, &terms));
        return c;
    }
    // value under the changed assignment
    for m in models(&sig, 12, seed) {
        let mut m2 = Model { sig: &sig, seed: m.seed, consts: m.consts.clone(), sizes: m.sizes.clone() };
        let mut ok = true;
        for ((n, _), t) in dom.iter().zip(&vals) {
            match Ev::new(&m).val(t) {
                Some(v) => {
                    m2.consts.insert(std::rc::Rc::from(n.as_str()), v);
                }
                None => ok = false,
            }
        }
        if !ok {
            continue;
        }
        for (orig, got, _) in &res {
            if let (Some(x), Some(y)) = (Ev::new(&m2).val(orig), Ev::new(&m).val(got)) {
                if x != y {
                    c.viol = Some(viol("substitution value", format!("{got} is not {orig} under {map:?}"), &sig, &terms));
                    return c;
                }
            }
        }
    }
    c
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug)]
pub struct Modes {
    pub reorder: bool,
    pub alpha: bool,
    pub nary: bool,
    pub concat: bool,
}
fn compare(m: Modes, x: &Rc<Term>, y: &Rc<Term>) -> bool {
    Polyeq::new().mod_reordering(m.reorder).alpha_equiv(m.alpha).mod_nary(m.nary).mod_string_concat(m.concat).eq(x, y)
}
const LEFT: [&str; 9] = ["and", "or", "xor", "+", "-", "*", "str.++", "bvadd", "bvand"];

/// A variant of the term made only by the transformations the mode documents.
pub fn variant(g: &mut G, e: &E, m: Modes, n: &mut usize) -> E {
    let e = if m.alpha && g.bool() {
        let mut k = *n;
        let r = {
            let g = &mut *g;
            crate::fam_eq::alpha(e, &mut k, &mut || g.chance(2, 3))
        };
        *n = k;
        r
    } else {
        e.clone()
    };
    variant_rec(g, &e, m)
}
fn variant_rec(g: &mut G, e: &E, m: Modes) -> E {
    let L(v) = e else { return e.clone() };
    if v.is_empty() {
        return e.clone();
    }
    if let Some("forall" | "exists" | "choice" | "lambda") = e.head() {
        return L(vec![v[0].clone(), v[1].clone(), variant_rec(g, &v[2], m)]);
    }
    if e.is_app("let") {
        let bs = v[1].list().unwrap().iter().map(|b| {
            let b = b.list().unwrap();
            L(vec![b[0].clone(), variant_rec(g, &b[1], m)])
        }).collect();
        return L(vec![v[0].clone(), L(bs), variant_rec(g, &v[2], m)]);
    }
    if e.is_app("_") {
        return e.clone();
    }
    let mut w = vec![v[0].clone()];
    for x in &v[1..] {
        w.push(variant_rec(g, x, m));
    }
    let h = e.head().unwrap_or("").to_string();
    if m.reorder && h == "=" && w.len() == 3 && g.bool() {
        w.swap(1, 2);
    }
    if m.nary && g.bool() {
        let n = w.len() - 1;
        // bvadd etc. included; the expansion is the one SMT-LIB defines
        if LEFT.contains(&h.as_str()) && n > 2 && !(m.concat && h == "str.++") {
            let k = g.ur(2, n - 1);
            let inner = L(w[..=k].to_vec());
            let mut nw = vec![w[0].clone(), inner];
            nw.extend(w[k + 1..].iter().cloned());
            return L(nw);
        }
        if h == "=>" && n > 2 {
            let k = g.ur(1, n - 2);
            let mut inner = vec![w[0].clone()];
            inner.extend(w[k + 1..].iter().cloned());
            let mut nw = w[..=k].to_vec();
            nw.push(L(inner));
            return L(nw);
        }
        if ["=", "<", "<=", ">", ">="].contains(&h.as_str()) && n > 2 {
            let parts = (1..n).map(|i| ap2(&h, w[i].clone(), w[i + 1].clone())).collect();
            return and(parts);
        }
    }
    if m.concat && h == "str.++" && g.bool() {
        return concat_variant(g, &L(w));
    }
    L(w)
}
/// merges adjacent constants or splits a constant
fn concat_variant(g: &mut G, e: &E) -> E {
    let mut w = e.args().to_vec();
    let lit = |x: &E| x.atom().filter(|s| s.starts_with('"') && s.is_ascii() && !s.contains('\\') && !s[1..s.len() - 1].contains('"')).map(|s| s[1..s.len() - 1].to_string());
    for i in 0..w.len() {
        if i + 1 < w.len() && w.len() > 2 && g.bool() {
            if let (Some(x), Some(y)) = (lit(&w[i]).filter(|x| !x.is_empty()), lit(&w[i + 1]).filter(|x| !x.is_empty())) {
                w[i] = a(format!("\"{x}{y}\""));
                w.remove(i + 1);
                continue;
            }
        }
        if i < w.len() && g.bool() {
            if let Some(x) = lit(&w[i]) {
                if x.len() >= 2 {
                    let k = g.ur(1, x.len() - 1);
                    w[i] = a(format!("\"{}\"", &x[..k]));
                    w.insert(i + 1, a(format!("\"{}\"", &x[k..])));
                }
            }
        }
    }
    ap("str.++", w)
}

pub fn poly(g: &mut G) -> Case {
    let mut c = Case::default();
    let mut cfg = rich(g);
    if g.chance(1, 4) {
        cfg.strs = true;
    }
    let m = Modes { reorder: g.chance(3, 4), alpha: g.chance(1, 2), nary: g.chance(1, 2), concat: g.chance(1, 5) };
    let d = g.ur(1, 4);
    let (t, _, sig) = gen_term(g, cfg.clone(), Sig::default(), d);
    let (t2, _, sig) = gen_term(g, cfg, sig, 2);
    let mut n = 0;
    // chains and n-ary applications, often
    let t = if m.nary || g.bool() { widen(g, &t, &sig) } else { t };
    let pos = variant(g, &t, m, &mut n);
    let all = Modes { reorder: true, alpha: true, nary: true, concat: true };
    let mut mu = if g.bool() { variant(g, &t, m, &mut n) } else { variant(g, &t, all, &mut n) };
    for _ in 0..g.ur(1, 2) {
        mu = match g.u(4) {
            0 => rename_clash(g, &mu),
            1 => unary(g, &mu),
            _ => mutate(g, &mu, &sig, &[t2.clone(), t.clone()]),
        };
    }
    let texts = vec![t.to_string(), pos.to_string(), mu.to_string()];
    c.key = hash_str(&format!("{m:?}{}", texts.join("\n")));
    let terms: Vec<(&str, String)> = vec![("term", texts[0].clone()), ("variant", texts[1].clone()), ("mutant", texts[2].clone())];
    let seed = g.seed();
    let r = guard(|| {
        let mut pool = PrimitivePool::new();
        let base = parse_terms(&mut pool, &sig, &texts[..2])?;
        let mut pool2 = PrimitivePool::new();
        let mu = parse_terms(&mut pool2, &sig, &[texts[0].clone(), texts[2].clone()]).ok();
        let x = (
            compare(m, &base[0], &base[1]),
            compare(m, &base[1], &base[0]),
            compare(m, &base[0], &base[0]),
            mu.map(|mu| (compare(m, &mu[0], &mu[1]), compare(m, &mu[1], &mu[0]), to_e(&mu[0]), to_e(&mu[1]))),
        );
        Ok::<_, String>(x)
    });
    let (p1, p2, rf, mu) = match r {
        Err(p) => {
            c.viol = Some(viol(p.sig(), format!("comparison panics: {}", p.msg), &sig, &terms));
            return c;
        }
        Ok(Err(_)) => {
            c.label("unparsed");
            return c;
        }
        Ok(Ok(x)) => x,
    };
    c.nontrivial = true;
    c.sample = format!("{m:?} {}", texts.join("  ;  "));
    c.label(if t == pos { "same" } else { "variant" });
    if !rf || !p1 || !p2 {
        let what = if !rf { "not reflexive" } else if p1 != p2 { "not symmetric on variant" } else { "variant not equal" };
        c.viol = Some(viol(format!("polyeq {what}"), format!("{what} ({m:?}): {t} vs {pos}"), &sig, &terms));
        return c;
    }
    if let Some((m1, m2, e0, e1)) = mu {
        if m1 != m2 {
            c.viol = Some(viol("polyeq not symmetric", format!("{m:?}: {t} vs {}: {m1} one way, {m2} the other", texts[2]), &sig, &terms));
            return c;
        }
        if m1 {
            c.label("mutant-equal");
            for mo in models(&sig, 150, seed) {
                if let (Some(x), Some(y)) = (Ev::new(&mo).val(&e0), Ev::new(&mo).val(&e1)) {
                    if x != y {
                        c.viol = Some(viol("polyeq unsound", format!("{m:?}: equal modulo, but different in a model: {e0} vs {e1}"), &sig, &terms));
                        return c;
                    }
                }
            }
        } else {
            c.label("mutant-different");
        }
    }
    c
}
/// Gives some n-ary applications more arguments.
pub fn widen(g: &mut G, e: &E, sig: &Sig) -> E {
    let mut e = e.clone();
    let ps: Vec<_> = e.paths().into_iter().filter(|p| {
        let x = e.get(p);
        matches!(x.head(), Some("and" | "or" | "xor" | "=>" | "=" | "<" | "<=" | ">" | ">=" | "+" | "-" | "*" | "str.++" | "bvadd" | "bvand")) && x.args().len() >= 2
    }).collect();
    let _ = sig;
    for _ in 0..g.u(3) {
        if ps.is_empty() {
            break;
        }
        let p = &ps[g.u(ps.len())];
        // the path may have been changed by an earlier insertion: only extend at the end
        let x = e.get(p).clone();
        if x.args().len() < 2 {
            continue;
        }
        let k = g.u(x.args().len());
        let extra = x.args()[k].clone();
        if let L(mut v) = x {
            v.push(extra);
            e.set(p, L(v));
        }
    }
    e
}
/// `(- x)` added or removed, or a one-element application
fn unary(g: &mut G, e: &E) -> E {
    let mut r = e.clone();
    let ps: Vec<_> = e.paths().into_iter().filter(|p| matches!(e.get(p).head(), Some("-" | "+" | "*" | "and" | "or" | "not"))).collect();
    if ps.is_empty() {
        return r;
    }
    let p = ps[g.u(ps.len())].clone();
    let x = e.get(&p).clone();
    let k = g.u(x.args().len().max(1));
    match g.u(3) {
        0 if x.args().len() == 1 => r.set(&p, x.args()[0].clone()),
        0 | 1 if !x.args().is_empty() => {
            let mut q = p.clone();
            q.push(k + 1);
            let h = x.head().unwrap().to_string();
            r.set(&q, ap1(&h, x.args()[k].clone()));
        }
        _ if x.args().len() > 2 => {
            let mut v = x.list().unwrap().to_vec();
            // right nesting instead of left
            let last = v.pop().unwrap();
            let prev = v.pop().unwrap();
            v.push(ap2(x.head().unwrap(), prev, last));
            r.set(&p, L(v));
        }
        _ => {}
    }
    r
}
/// Renames a bound variable without care, or swaps bound variables of a binder.
fn rename_clash(g: &mut G, e: &E) -> E {
    let mut r = e.clone();
    let ps: Vec<_> = e.paths().into_iter().filter(|p| matches!(e.get(p).head(), Some("forall" | "exists" | "choice" | "let")) && e.get(p).list().unwrap().len() == 3).collect();
    if ps.is_empty() {
        return r;
    }
    let p = ps[g.u(ps.len())].clone();
    let x = e.get(&p).clone();
    let v = x.list().unwrap();
    let bs = v[1].list().unwrap().to_vec();
    if bs.is_empty() {
        return r;
    }
    let i = g.u(bs.len());
    let old = bs[i].list().unwrap()[0].to_string();
    let names = ["vx", "vy", "vz", "a0", "p0", "vxq"];
    let new = names[g.u(names.len())];
    match g.u(3) {
        0 => {
            // binder and body
            r.set(&p, x.replace_atom(&old, &a(new)));
        }
        1 => {
            // body only
            r.set(&p, L(vec![v[0].clone(), v[1].clone(), v[2].replace_atom(&old, &a(new))]));
        }
        _ => {
            let mut bs = bs;
            bs.reverse();
            r.set(&p, L(vec![v[0].clone(), L(bs), v[2].clone()]));
        }
    }
    r
}

// ---------------------------------------------------------------------------------------------

fn rebuild(pool: &mut dyn TermPool, t: &Rc<Term>) -> Rc<Term> {
    let r = |pool: &mut dyn TermPool, x: &Rc<Term>| rebuild(pool, x);
    let new = match t.as_ref() {
        Term::Const(_) => t.as_ref().clone(),
        Term::Var(n, s) => Term::Var(n.clone(), r(pool, s)),
        Term::App(f, args) => {
            let f = r(pool, f);
            Term::App(f, args.iter().map(|x| rebuild(pool, x)).collect())
        }
        Term::Op(o, args) => Term::Op(*o, args.iter().map(|x| rebuild(pool, x)).collect()),
        Term::Sort(s) => Term::Sort(rebuild_sort(pool, s)),
        Term::Binder(b, bs, body) => {
            let bs = bs.0.iter().map(|(n, s)| (n.clone(), rebuild(pool, s))).collect();
            let body = r(pool, body);
            Term::Binder(*b, carcara::ast::BindingList(bs), body)
        }
        Term::Let(bs, body) => {
            let bs = bs.0.iter().map(|(n, s)| (n.clone(), rebuild(pool, s))).collect();
            let body = r(pool, body);
            Term::Let(carcara::ast::BindingList(bs), body)
        }
        Term::ParamOp { op, op_args, args } => Term::ParamOp {
            op: *op,
            op_args: op_args.iter().map(|x| rebuild(pool, x)).collect(),
            args: args.iter().map(|x| rebuild(pool, x)).collect(),
        },
    };
    pool.add(new)
}
fn rebuild_sort(pool: &mut dyn TermPool, s: &carcara::ast::Sort) -> carcara::ast::Sort {
    use carcara::ast::Sort::*;
    match s {
        Function(v) => Function(v.iter().map(|x| rebuild(pool, x)).collect()),
        Atom(n, v) => Atom(n.clone(), v.iter().map(|x| rebuild(pool, x)).collect()),
        Array(x, y) => {
            let x = rebuild(pool, x);
            Array(x, rebuild(pool, y))
        }
        ParamSort(v, h) => {
            let v = v.iter().map(|x| rebuild(pool, x)).collect();
            ParamSort(v, rebuild(pool, h))
        }
        s => s.clone(),
    }
}
fn subterms(t: &Rc<Term>, out: &mut Vec<Rc<Term>>, seen: &mut HashSet<usize>) {
    if !seen.insert(Rc::as_ptr(t) as usize) {
        return;
    }
    match t.as_ref() {
        Term::App(f, args) => {
            subterms(f, out, seen);
            args.iter().for_each(|x| subterms(x, out, seen));
        }
        Term::Op(_, args) | Term::ParamOp { args, .. } => args.iter().for_each(|x| subterms(x, out, seen)),
        Term::Binder(_, _, b) => subterms(b, out, seen),
        Term::Let(bs, b) => {
            bs.0.iter().for_each(|x| subterms(&x.1, out, seen));
            subterms(b, out, seen);
        }
        Term::Sort(_) => return,
        _ => {}
    }
    out.push(t.clone());
}
/// observable data of a term in a pool
fn facts(pool: &mut dyn TermPool, t: &Rc<Term>) -> (String, BTreeSet<String>, bool) {
    let s = pool.sort(t);
    let fv = pool.free_vars(t).iter().map(|v| to_e(v).to_string()).collect();
    // the same sort, built again, must be the same object
    let again = rebuild(pool, &s);
    (to_e(&s).to_string(), fv, again == s)
}

pub fn pool(g: &mut G) -> Case {
    let mut c = Case::default();
    let cfg = rich(g);
    let mut sig = Sig::default();
    let mut texts = vec![];
    let mut es = vec![];
    for _ in 0..g.ur(2, 5) {
        let d = g.ur(1, 3);
        let (t, _, s) = gen_term(g, cfg.clone(), sig, d);
        sig = s;
        es.push(t.clone());
        texts.push(t.to_string());
        if g.chance(1, 3) {
            let m = mutate(g, &t, &sig, &es);
            es.push(m.clone());
            texts.push(m.to_string());
        }
        if g.chance(1, 4) {
            texts.push(t.to_string());
        }
    }
    c.key = hash_str(&texts.join("\n"));
    let terms: Vec<(&str, String)> = texts.iter().map(|t| ("term", t.clone())).collect();
    // a layering script: where each term is built, and which queries are made in between
    let script: Vec<(usize, bool, bool)> = (0..texts.len()).map(|_| (g.u(4), g.bool(), g.bool())).collect();
    let mut order: Vec<usize> = (0..texts.len()).collect();
    g.shuffle(&mut order);
    let r = guard(|| -> Result<Option<(&'static str, String)>, String> {
        let mut p1 = PrimitivePool::new();
        let mut ts: Vec<Rc<Term>> = vec![];
        for t in &texts {
            ts.push(parse_terms(&mut p1, &sig, &[t.clone()])?.pop().unwrap());
        }
        // 1. equal iff the same object (the structural text of the harness decides equality)
        let strs: Vec<String> = ts.iter().map(|t| typed(t)).collect();
        for i in 0..ts.len() {
            for j in 0..i {
                let same = strs[i] == strs[j];
                if same != (ts[i] == ts[j]) {
                    return Ok(Some(("hash consing", format!("{} and {}: same term {same}, same object {}", texts[i], texts[j], ts[i] == ts[j]))));
                }
            }
            let again = rebuild(&mut p1, &ts[i]);
            if again != ts[i] {
                return Ok(Some(("hash consing", format!("{} built again is another object", texts[i]))));
            }
        }
        let reference: Vec<_> = ts.iter().map(|t| facts(&mut p1, t)).collect();
        for (i, f) in reference.iter().enumerate() {
            if !f.2 {
                return Ok(Some(("sort object", format!("sort of {} is not the pool's own object", texts[i]))));
            }
        }
        // 2. other order, other history
        let mut p2 = PrimitivePool::new();
        let mut ts2: Vec<Option<Rc<Term>>> = vec![None; texts.len()];
        for &i in &order {
            let t = parse_terms(&mut p2, &sig, &[texts[i].clone()])?.pop().unwrap();
            if script[i].1 {
                let mut sub = vec![];
                subterms(&t, &mut sub, &mut HashSet::new());
                for s in &sub {
                    p2.free_vars(s);
                    p2.sort(s);
                }
            }
            ts2[i] = Some(t);
        }
        for &i in order.iter().rev() {
            let t = ts2[i].clone().unwrap();
            let f = facts(&mut p2, &t);
            if f != reference[i] {
                return Ok(Some(("history", format!("{}: {f:?} here, {:?} in a fresh pool", texts[i], reference[i]))));
            }
        }
        // 3. layered pools: some terms global, some in the context pool, some local
        let mut glob = PrimitivePool::new();
        for (i, t) in texts.iter().enumerate() {
            if script[i].0 == 0 {
                let t = parse_terms(&mut glob, &sig, &[t.clone()])?.pop().unwrap();
                if script[i].2 {
                    glob.free_vars(&t);
                }
            }
        }
        let glob = std::sync::Arc::new(glob);
        let mut ctx = ContextPool::from_global(&glob);
        let mut got: Vec<Option<(usize, Rc<Term>)>> = vec![None; texts.len()];
        // the context layer is filled first: it is shared, and nothing may enter it after a local
        // pool has built the same term
        for &i in &order {
            if script[i].0 == 1 {
                let t = rebuild(&mut ctx, &ts[i]);
                facts(&mut ctx, &t);
                got[i] = Some((1, t));
            }
        }
        let mut l1 = LocalPool::from_previous(&ctx);
        let mut l2 = LocalPool::from_previous(&ctx);
        for &i in &order {
            match script[i].0 {
                1 => {}
                2 => got[i] = Some((2, rebuild(&mut l1, &ts[i]))),
                3 => got[i] = Some((3, rebuild(&mut l2, &ts[i]))),
                _ => got[i] = Some((0, rebuild(&mut l1, &ts[i]))),
            }
        }
        for i in 0..texts.len() {
            let (layer, t) = got[i].clone().unwrap();
            for who in 0..3 {
                // which layers can see the term
                let pool: &mut dyn TermPool = match (who, layer) {
                    (0, 1) => &mut ctx,
                    (1, 0 | 1 | 2) => &mut l1,
                    (2, 3 | 1) => &mut l2,
                    _ => continue,
                };
                let f = facts(pool, &t);
                if f != reference[i] {
                    return Ok(Some(("layered pool", format!("{} (layer {layer}, seen from {who}): {f:?}, expected {:?}", texts[i], reference[i]))));
                }
                if rebuild(pool, &t) != t {
                    return Ok(Some(("layered hash consing", format!("{} (layer {layer}, seen from {who}) built again is another object", texts[i]))));
                }
            }
        }
        Ok(None)
    });
    match r {
        Err(p) => {
            c.nontrivial = true;
            c.viol = Some(viol(p.sig(), format!("the pool panics: {}", p.msg), &sig, &terms));
        }
        Ok(Err(_)) => c.label("unparsed"),
        Ok(Ok(v)) => {
            c.nontrivial = true;
            c.sample = texts.join("  ;  ");
            if let Some((s, m)) = v {
                c.viol = Some(viol(s, m, &sig, &terms));
            }
        }
    }
    c
}
/// text that also shows the sorts of variables
fn typed(t: &Rc<Term>) -> String {
    // names determine sorts in one signature unless bound; include the whole binder lists, which `to_e` does
    to_e(t).to_string()
}
