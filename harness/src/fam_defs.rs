//! C22: definitions, lets, named terms and sort definitions stand for their bodies.
use crate::carc::guard;
use crate::eval::{models, Ev, Sig, S};
use crate::fam_ctx::{free_names, subst_ca};
use crate::fam_parse::canon_literals;
use crate::fam_print::{diff, parse_in};
use crate::fam_term::rich;
use crate::g::{hash_str, G};
use crate::libt::*;
use crate::prf::{self, anchor_arg, Cmd};
use crate::runner::{Case, Viol};
use crate::sexp::*;
use crate::terms::*;
use crate::whole;
use carcara::ast::{AnchorArg, PrimitivePool, ProofCommand, Rc, Term};
use carcara::parser::{Config, Parser};
use std::collections::{HashMap, HashSet};

pub const CAPTURE: &str = "a free constant of a definition is captured at its use";

#[derive(Clone, Debug)]
struct Def {
    name: String,
    params: Vec<(String, S)>,
    ret: S,
    body: E,
}
impl Def {
    fn head(&self) -> String {
        let p: Vec<String> = self.params.iter().map(|(n, s)| format!("({n} {})", s.e())).collect();
        format!("{} ({}) {}", self.name, p.join(" "), self.ret.e())
    }
}

const BINDERS: [&str; 5] = ["forall", "exists", "choice", "lambda", "let"];
fn is_binder(e: &E) -> bool {
    e.head().is_some_and(|h| BINDERS.contains(&h)) && e.list().unwrap().len() == 3
}

/// Puts the bodies in for the defined names (latest definition first needed), expands lets and
/// annotations if asked.
fn expand(e: &E, defs: &[Def], lets: bool, fresh: &mut usize) -> E {
    fn go(e: &E, defs: &HashMap<&str, (Vec<String>, E)>, lets: bool, bound: &mut Vec<String>, fresh: &mut usize) -> E {
        let get = |s: &str, bound: &Vec<String>| if bound.iter().any(|b| b == s) { None } else { defs.get(s).cloned() };
        match e {
            A(s) => match get(s, bound) {
                Some((d, b)) if d.is_empty() => b,
                _ => e.clone(),
            },
            L(v) if v.len() >= 2 && v[0].is("!") => go(&v[1], defs, lets, bound, fresh),
            L(v) if is_binder(e) => {
                let is_let = v[0].is("let");
                let k = bound.len();
                let bs: Vec<(String, E)> = v[1]
                    .list()
                    .unwrap()
                    .iter()
                    .map(|b| {
                        let b = b.list().unwrap();
                        (b[0].to_string(), if is_let { go(&b[1], defs, lets, bound, fresh) } else { b[1].clone() })
                    })
                    .collect();
                bound.extend(bs.iter().map(|b| b.0.clone()));
                // definitions below must not see the bound names: rename these apart first
                let body = v[2].clone();
                bound.truncate(k);
                let mut map = HashMap::new();
                let mut nbs = vec![];
                for (n, s) in &bs {
                    *fresh += 1;
                    let nn = format!("bv!{fresh}");
                    map.insert(n.clone(), a(&nn));
                    nbs.push((nn, s.clone()));
                }
                let body = subst_ca(&body, &map, fresh);
                let body = go(&body, defs, lets, bound, fresh);
                if is_let && lets {
                    let m: HashMap<String, E> = nbs.into_iter().collect();
                    return subst_ca(&body, &m, fresh);
                }
                L(vec![v[0].clone(), L(nbs.into_iter().map(|(n, s)| L(vec![a(n), s])).collect()), body])
            }
            L(v) => {
                if let Some((d, b)) = v[0].atom().and_then(|h| get(h, bound)) {
                    if d.len() == v.len() - 1 && !d.is_empty() {
                        let args: Vec<E> = v[1..].iter().map(|x| go(x, defs, lets, bound, fresh)).collect();
                        let m: HashMap<String, E> = d.into_iter().zip(args).collect();
                        return subst_ca(&b, &m, fresh);
                    }
                }
                L(v.iter().map(|x| go(x, defs, lets, bound, fresh)).collect())
            }
        }
    }
    // every binder is renamed apart from everything, so that no capture is possible
    let mut done: HashMap<&str, (Vec<String>, E)> = HashMap::new();
    for d in defs {
        // the parameters get names of their own first
        let names: Vec<String> = d
            .params
            .iter()
            .map(|_| {
                *fresh += 1;
                format!("par!{fresh}")
            })
            .collect();
        let m: HashMap<String, E> = d.params.iter().zip(&names).map(|(p, n)| (p.0.clone(), a(n))).collect();
        let b = subst_ca(&d.body, &m, fresh);
        let b = go(&b, &done, lets, &mut vec![], fresh);
        done.insert(&d.name, (names, b));
    }
    go(e, &done, lets, &mut vec![], fresh)
}

/// Size of the term with everything expanded (saturating; infinite when too costly to tell).
fn expanded_size(e: &E, defs: &[Def], env: &mut Vec<(String, f64)>, fuel: &mut u32) -> f64 {
    if *fuel == 0 {
        return f64::INFINITY;
    }
    *fuel -= 1;
    let find = |s: &str, env: &Vec<(String, f64)>| env.iter().rev().find(|x| x.0 == s).map(|x| x.1);
    match e {
        A(s) => match find(s, env) {
            Some(x) => x,
            None => match defs.iter().find(|d| d.name == **s && d.params.is_empty()) {
                Some(d) => expanded_size(&d.body, defs, &mut vec![], fuel),
                None => 1.0,
            },
        },
        L(v) if is_binder(e) => {
            let is_let = v[0].is("let");
            let bs: Vec<(String, f64)> = v[1]
                .list()
                .unwrap()
                .iter()
                .map(|b| {
                    let b = b.list().unwrap();
                    (b[0].to_string(), if is_let { expanded_size(&b[1], defs, env, fuel) } else { 1.0 })
                })
                .collect();
            let k = env.len();
            env.extend(bs);
            let r = 4.0 + expanded_size(&v[2], defs, env, fuel);
            env.truncate(k);
            r
        }
        L(v) => {
            if let Some(d) = v.first().and_then(|h| h.atom()).and_then(|h| if find(h, env).is_some() { None } else { defs.iter().find(|d| d.name == h && !d.params.is_empty()) }) {
                let mut args: Vec<(String, f64)> = v[1..].iter().zip(&d.params).map(|(x, p)| (p.0.clone(), expanded_size(x, defs, env, fuel))).collect();
                return expanded_size(&d.body, defs, &mut args, fuel);
            }
            1.0 + v.iter().map(|x| expanded_size(x, defs, env, fuel)).sum::<f64>()
        }
    }
}
/// Is some definition used where a free constant of its body is bound?
fn captures(e: &E, defs: &[Def]) -> bool {
    // free names of the expanded bodies
    let mut free: HashMap<String, HashSet<String>> = HashMap::new();
    fn names(e: &E, free: &HashMap<String, HashSet<String>>) -> HashSet<String> {
        let mut o = HashSet::new();
        for n in free_names(e) {
            if let Some(f) = free.get(&n) {
                o.extend(f.iter().cloned());
            }
            o.insert(n);
        }
        o
    }
    fn go(e: &E, free: &HashMap<String, HashSet<String>>, bound: &mut Vec<String>) -> bool {
        match e {
            A(s) => !bound.iter().any(|b| **b == **s) && free.get(&**s).is_some_and(|f| f.iter().any(|n| bound.contains(n))),
            L(v) if is_binder(e) => {
                let k = bound.len();
                for b in v[1].list().unwrap() {
                    if v[0].is("let") && go(&b.list().unwrap()[1], free, bound) {
                        return true;
                    }
                }
                for b in v[1].list().unwrap() {
                    bound.push(b.list().unwrap()[0].to_string());
                }
                let r = go(&v[2], free, bound);
                bound.truncate(k);
                r
            }
            L(v) => v.iter().any(|x| go(x, free, bound)),
        }
    }
    for d in defs {
        let mut b: Vec<String> = d.params.iter().map(|p| p.0.clone()).collect();
        if go(&d.body, &free, &mut b) {
            return true;
        }
        let mut f = names(&d.body, &free);
        for p in &d.params {
            f.remove(&p.0);
        }
        free.insert(d.name.clone(), f);
    }
    go(e, &free, &mut vec![])
}

/// Renames bound variables to hostile names, keeping the meaning.
fn hostile(g: &mut G, e: &E, names: &[String]) -> E {
    let mut e = e.clone();
    for _ in 0..g.u(4) {
        let ps: Vec<Vec<usize>> = e.paths().into_iter().filter(|p| is_binder(e.get(p))).collect();
        if ps.is_empty() || names.is_empty() {
            break;
        }
        let p = ps[g.u(ps.len())].clone();
        let x = e.get(&p).clone();
        let v = x.list().unwrap();
        let bs = v[1].list().unwrap();
        let i = g.u(bs.len());
        let old = bs[i].list().unwrap()[0].to_string();
        let new = names[g.u(names.len())].clone();
        if free_names(&v[2]).contains(&new) || bs.iter().any(|b| b.list().unwrap()[0].is(&new)) {
            continue;
        }
        let mut f = 0;
        let body = subst_ca(&v[2], &HashMap::from([(old, a(&new))]), &mut f);
        let mut nb = bs.to_vec();
        nb[i] = L(vec![a(&new), bs[i].list().unwrap()[1].clone()]);
        e.set(&p, L(vec![v[0].clone(), L(nb), body]));
    }
    e
}

fn cands() -> Vec<(&'static str, Vec<S>, S)> {
    let (u, t) = (su(), S::u("T"));
    vec![
        ("a1", vec![], u.clone()),
        ("a2", vec![], u.clone()),
        ("p1", vec![], S::Bool),
        ("p2", vec![], S::Bool),
        ("T_c1", vec![], t.clone()),
        ("fU", vec![u.clone()], u.clone()),
        ("gU", vec![u.clone(), u.clone()], u.clone()),
        ("hU", vec![t.clone()], u.clone()),
        ("hT", vec![u.clone()], t.clone()),
        ("PU", vec![u.clone()], S::Bool),
        ("QU", vec![u.clone(), u.clone()], S::Bool),
        ("PT", vec![t.clone()], S::Bool),
        ("fi", vec![S::Int], S::Int),
        ("i1", vec![], S::Int),
        ("fr", vec![S::Real], S::Real),
        ("x1", vec![], S::Real),
        ("s1", vec![], S::Str),
    ]
}

struct Prog {
    sig: Sig,
    defs: Vec<Def>,
    terms: Vec<E>,
}
fn program(g: &mut G) -> Prog {
    let cfg = rich(g);
    let mut all = cands();
    g.shuffle(&mut all);
    let k = g.ur(1, 4);
    all.truncate(k);
    let mut sig = Sig::default();
    sig.sort("U");
    sig.sort("T");
    let mut hostile_names: Vec<String> = all.iter().map(|x| x.0.to_string()).collect();
    hostile_names.extend(["vx", "vy", "a0", "p0", "a1", "p1"].map(String::from));
    let mut defs: Vec<Def> = vec![];
    for i in 0..all.len() {
        let (name, args, ret) = all[i].clone();
        let mut params: Vec<(String, S)> = args.iter().enumerate().map(|(j, s)| (format!("q{j}"), s.clone())).collect();
        // names that do not mean anything yet
        let later: Vec<&(&str, Vec<S>, S)> = all[i..].iter().collect();
        let d = g.u(3);
        let mut tg = TG { g: &mut *g, sig, cfg: cfg.clone(), scope: params.clone() };
        let body = tg.term(&ret, d);
        sig = std::mem::take(&mut tg.sig);
        let mut map = HashMap::new();
        for (n, args, ret) in &later {
            if body.contains_atom(n) {
                let m = format!("{n}_d");
                sig.fun(&m, args.clone(), ret.clone());
                map.insert(n.to_string(), a(&m));
            }
        }
        let mut f = 0;
        let mut body = subst_ca(&body, &map, &mut f);
        body = hostile(g, &body, &hostile_names);
        for j in 0..params.len() {
            if g.chance(1, 2) {
                let n = hostile_names[g.u(hostile_names.len())].clone();
                if !free_names(&body).contains(&n) && !params.iter().any(|p| p.0 == n) {
                    let mut f = 0;
                    body = subst_ca(&body, &HashMap::from([(params[j].0.clone(), a(&n))]), &mut f);
                    params[j].0 = n;
                }
            }
        }
        defs.push(Def { name: name.into(), params, ret, body });
        // its name is taken from here on
        for f in all[..=i].iter() {
            sig.fun(f.0, f.1.clone(), f.2.clone());
        }
    }
    let n = g.ur(1, 3);
    let mut terms = vec![];
    for _ in 0..n {
        let d = g.ur(1, 4);
        let mut tg = TG { g: &mut *g, sig, cfg: cfg.clone(), scope: vec![] };
        let s = if tg.g.chance(3, 4) { S::Bool } else { tg.any_sort() };
        let t = tg.term(&s, d);
        sig = std::mem::take(&mut tg.sig);
        terms.push(hostile(g, &t, &hostile_names));
    }
    // only what is declared
    let names: HashSet<String> = defs.iter().map(|d| d.name.clone()).collect();
    sig.funs.retain(|f| !names.contains(&*f.0));
    Prog { sig, defs, terms }
}
/// literals in one form, names of bound variables as they are
fn norm(e: &E) -> E {
    canon_literals(e)
}
fn same(x: &E, y: &E) -> bool {
    alpha_eq(&norm(x), &norm(y))
}

fn parse_all_terms(pool: &mut PrimitivePool, cfg: Config, prelude: &str, terms: &[String]) -> Result<(Vec<Rc<Term>>, Vec<Rc<Term>>), String> {
    let mut p = Parser::new(pool, cfg, prelude.as_bytes()).map_err(|e| e.to_string())?;
    let pb = p.parse_problem().map_err(|e| e.to_string())?;
    let mut out = vec![];
    for t in terms {
        p.reset(t.as_bytes()).map_err(|e| e.to_string())?;
        out.push(p.parse_term().map_err(|e| e.to_string())?);
    }
    Ok((pb.premises.iter().cloned().collect(), out))
}

/// functions and constants defined in terms of one another, shadowed and used everywhere
pub fn programs(g: &mut G) -> Case {
    let p = program(g);
    let cfg = Config { apply_function_defs: g.chance(2, 3), expand_lets: g.bool(), allow_int_real_subtyping: false, strict: false, parse_hole_args: false };
    let mut terms = p.terms.clone();
    let mut defs = p.defs.clone();
    // named subterms, used again in the terms that follow
    let mut texts: Vec<E> = terms.clone();
    let mut named = 0;
    if g.chance(1, 2) {
        let names: HashSet<String> = p.defs.iter().map(|d| d.name.clone()).collect();
        let mut sig = p.sig.clone();
        for d in &p.defs {
            sig.fun(&d.name, d.params.iter().map(|x| x.1.clone()).collect(), d.ret.clone());
        }
        for i in 0..texts.len() {
            if !g.chance(2, 3) {
                continue;
            }
            let ps: Vec<_> = term_paths(&texts[i], &sig)
                .into_iter()
                .filter(|(p, s, sc)| {
                    let t = texts[i].get(p);
                    s.is_some() && t.size() < 30 && !free_names(t).iter().any(|n| sc.iter().any(|b| b.0 == *n)) && !sc.iter().any(|b| names.contains(&b.0))
                })
                .collect();
            if ps.is_empty() {
                continue;
            }
            let (p, s, _) = ps[g.u(ps.len())].clone();
            let n = format!("n{named}");
            named += 1;
            let t = texts[i].get(&p).clone();
            // later occurrences, in later terms
            let body = terms[i].get(&p).clone();
            if t != body {
                continue;
            }
            texts[i].set(&p, L(vec![a("!"), t.clone(), a(":named"), a(&n)]));
            let d = Def { name: n.clone(), params: vec![], ret: s.clone().unwrap(), body };
            sig.fun(&n, vec![], s.unwrap());
            for j in i + 1..texts.len() {
                let r = subst_occurrence(g, &texts[j], &d, &sig);
                terms[j] = r.clone();
                texts[j] = r;
            }
            defs.push(d);
        }
    }
    let mut prelude = p.sig.prelude();
    for d in &p.defs {
        prelude.push_str(&format!("(define-fun {} {})\n", d.head(), d.body));
    }
    let tt: Vec<String> = texts.iter().map(|t| t.to_string()).collect();
    let mut c = Case { key: hash_str(&format!("{prelude}{tt:?}{cfg:?}")), sample: format!("{prelude}{}", tt.join("\n")), ..Case::default() };
    if terms.iter().chain(defs.iter().map(|d| &d.body)).map(|t| expanded_size(t, &defs, &mut vec![], &mut 20_000)).sum::<f64>() > 5_000.0 {
        c.label("too large");
        return c;
    }
    let captured = terms.iter().any(|t| captures(t, &defs));
    let mk = |sig: &str, msg: String| {
        let sig = if captured { CAPTURE.to_string() } else { sig.to_string() };
        Some(Viol { sig, msg, files: vec![("problem.smt2".into(), prelude.clone()), ("terms.txt".into(), tt.join("\n")), ("options.txt".into(), format!("{cfg:?}"))] })
    };
    let mut pool = PrimitivePool::new();
    let (prem, got) = match guard(|| parse_all_terms(&mut pool, cfg, &prelude, &tt)) {
        Err(p) => {
            c.viol = mk("panic", format!("the parser panics: {p:?}"));
            return c;
        }
        Ok(Err(e)) => {
            c.viol = mk("rejected", format!("well-sorted definitions and terms are rejected: {e}"));
            return c;
        }
        Ok(Ok(x)) => x,
    };
    c.nontrivial = !captured;
    if captured {
        c.label("captures");
    }
    c.label(if cfg.apply_function_defs { "applied" } else { "declared" });
    let mut fresh = 0;
    if !cfg.apply_function_defs {
        // the definitions are assertions
        if prem.len() != p.defs.len() && p.defs.iter().collect::<Vec<_>>().len() == p.defs.iter().map(|d| d.body.to_string() + &d.name).collect::<HashSet<_>>().len() {
            c.viol = mk("premises", format!("{} definitions give {} premises", p.defs.len(), prem.len()));
            return c;
        }
        for (d, t) in p.defs.iter().zip(&prem) {
            let b = if d.params.is_empty() { d.body.clone() } else { bind("lambda", &d.params.iter().map(|(n, s)| (a(n), s.e())).collect::<Vec<_>>(), d.body.clone()) };
            let (x, y) = (expand(&eq(a(&d.name), b), &[], true, &mut fresh), expand(&to_raw(t), &[], true, &mut fresh));
            if !same(&x, &y) {
                c.viol = mk("premise", format!("the definition of {} becomes the premise {t}", d.name));
                return c;
            }
        }
    }
    for ((t, text), x) in terms.iter().zip(&tt).zip(&got) {
        let want = expand(t, &defs, true, &mut fresh);
        let raw = to_raw(x);
        let have = if cfg.apply_function_defs { expand(&raw, &[], true, &mut fresh) } else { expand(&raw, &defs, true, &mut fresh) };
        if cfg.expand_lets && raw.contains_atom("let") {
            c.viol = mk("let left", format!("a let is left in {x}"));
            return c;
        }
        if !same(&want, &have) {
            c.viol = mk("expansion", format!("{text} stands for {want}, but is read as {x}"));
            return c;
        }
        // the reference expansion itself, against the evaluator's reading of the definitions
        if hash_str(text) % 8 == 0 {
            for m in models(&p.sig, 2, 3) {
                let (mut e1, mut e2) = (Ev::new(&m), Ev::new(&m));
                for d in &defs {
                    e1.defs.insert(d.name.as_str().into(), (d.params.iter().map(|p| p.0.as_str().into()).collect(), d.body.clone()));
                }
                if let (Some(x), Some(y)) = (e1.val(t), e2.val(&want)) {
                    c.label("evaluated");
                    assert!(x == y, "harness: reference expansion of {t} is wrong: {want}\n{prelude}");
                }
            }
        }
    }
    c
}
/// Puts the name of the definition for some occurrences of its body.
fn subst_occurrence(g: &mut G, e: &E, d: &Def, sig: &Sig) -> E {
    let mut e = e.clone();
    let fv = free_names(&d.body);
    let ps: Vec<Vec<usize>> = term_paths(&e, sig)
        .into_iter()
        .filter(|(p, s, sc)| (e.get(p) == &d.body || (s.as_ref() == Some(&d.ret) && e.get(p).size() == 1 && e.get(p).atom().is_some())) && !fv.iter().any(|n| sc.iter().any(|b| b.0 == *n)))
        .map(|x| x.0)
        .collect();
    let mut done: Vec<Vec<usize>> = vec![];
    for p in ps {
        if done.iter().any(|d| p.starts_with(d)) {
            continue;
        }
        let inside = (0..p.len()).any(|k| e.get(&p[..k]).head() == Some("!") && p[k] != 1);
        if !inside && g.chance(1, 2) {
            e.set(&p, a(&d.name));
            done.push(p);
        }
    }
    e
}

/// recursive definitions become assertions about the function
pub fn recursive(g: &mut G) -> Case {
    let cfg = rich(g);
    let mut all = cands();
    all.retain(|x| !x.1.is_empty() || g.chance(1, 3));
    g.shuffle(&mut all);
    let k = g.ur(1, 3);
    all.truncate(k);
    let mut sig = Sig::default();
    sig.sort("U");
    sig.sort("T");
    for (n, args, r) in &all {
        sig.fun(n, args.clone(), r.clone());
    }
    let hostile_names: Vec<String> = ["vx", "vy", "a0", "p0", "fU", "a1"].map(String::from).to_vec();
    let mut defs = vec![];
    for (n, args, r) in &all {
        let params: Vec<(String, S)> = args.iter().enumerate().map(|(j, s)| (["vx", "vy", "q0"][(j + g.u(3)) % 3].to_string(), s.clone())).collect();
        let params: Vec<(String, S)> = if params.len() > 1 && params[0].0 == params[1].0 { vec![("vx".into(), params[0].1.clone()), ("vy".into(), params[1].1.clone())] } else { params };
        let d = g.u(3);
        let mut tg = TG { g: &mut *g, sig, cfg: cfg.clone(), scope: params.clone() };
        let body = tg.term(r, d);
        sig = std::mem::take(&mut tg.sig);
        defs.push(Def { name: n.to_string(), params, ret: r.clone(), body: hostile(g, &body, &hostile_names) });
    }
    let names: HashSet<String> = defs.iter().map(|d| d.name.clone()).collect();
    let mut decl = sig.clone();
    decl.funs.retain(|f| !names.contains(&*f.0));
    let mut text = decl.prelude();
    let multi = g.bool();
    if multi {
        let heads: Vec<String> = defs.iter().map(|d| format!("({})", d.head())).collect();
        let bodies: Vec<String> = defs.iter().map(|d| d.body.to_string()).collect();
        text.push_str(&format!("(define-funs-rec ({}) ({}))\n", heads.join(" "), bodies.join(" ")));
    } else {
        // one at a time: the later functions are declared in the earlier bodies only if they do not occur
        for (i, d) in defs.iter().enumerate() {
            if defs[i + 1..].iter().any(|x| d.body.contains_atom(&x.name)) {
                return Case::default();
            }
            text.push_str(&format!("(define-fun-rec {} {})\n", d.head(), d.body));
        }
    }
    let lets = g.bool();
    let pc = Config { apply_function_defs: g.bool(), expand_lets: lets, allow_int_real_subtyping: false, strict: false, parse_hole_args: false };
    let mut c = Case { key: hash_str(&format!("{text}{pc:?}")), sample: text.clone(), ..Case::default() };
    let mk = |sig: &str, msg: String| Some(Viol { sig: sig.into(), msg, files: vec![("problem.smt2".into(), text.clone())] });
    let mut pool = PrimitivePool::new();
    match guard(|| parse_all_terms(&mut pool, pc, &text, &[])) {
        Err(p) => c.viol = mk("panic", format!("the parser panics: {p:?}")),
        Ok(Err(e)) => c.viol = mk("rec rejected", format!("well-sorted recursive definitions are rejected: {e}")),
        Ok(Ok((prem, _))) => {
            c.nontrivial = true;
            c.label(if multi { "define-funs-rec" } else { "define-fun-rec" });
            let mut fresh = 0;
            let want: Vec<E> = defs
                .iter()
                .map(|d| {
                    let h = if d.params.is_empty() { a(&d.name) } else { ap(&d.name, d.params.iter().map(|p| a(&p.0)).collect()) };
                    let q = eq(h, d.body.clone());
                    if d.params.is_empty() { q } else { bind("forall", &d.params.iter().map(|(n, s)| (a(n), s.e())).collect::<Vec<_>>(), q) }
                })
                .collect();
            if prem.len() != want.len() {
                c.viol = mk("rec premises", format!("{} definitions give {} premises", want.len(), prem.len()));
                return c;
            }
            for (w, p) in want.iter().zip(&prem) {
                if !same(&expand(w, &[], true, &mut fresh), &expand(&to_raw(p), &[], true, &mut fresh)) {
                    c.viol = mk("rec premise", format!("{w} should be a premise, but it is {p}"));
                    return c;
                }
            }
        }
    }
    c
}

/// sort definitions
pub fn sorts(g: &mut G) -> Case {
    // base sorts: U, T, (Pair x y), Array, BitVec, Bool, Int, Real
    fn base(g: &mut G, d: usize, extra: &[(String, usize)], vars: &[String]) -> E {
        let k = g.u(10);
        match k {
            0 | 1 if d > 0 => ap2("Pair", base(g, d - 1, extra, vars), base(g, d - 1, extra, vars)),
            2 if d > 0 => ap2("Array", base(g, d - 1, extra, vars), base(g, d - 1, extra, vars)),
            3 => ix_atom("BitVec", vec![a((1 + g.u(9)).to_string())]),
            4 | 5 if !vars.is_empty() => a(&vars[g.u(vars.len())]),
            6..=8 if !extra.is_empty() => {
                let (n, k) = extra[g.u(extra.len())].clone();
                if vars.contains(&n) {
                    return a("Int");
                }
                if k == 0 {
                    a(&n)
                } else if d == 0 {
                    a("Int")
                } else {
                    ap(&n, (0..k).map(|_| base(g, d - 1, extra, vars)).collect())
                }
            }
            _ => {
                let s = g.pick_s(&["U", "T", "Bool", "Int", "Real", "String"]);
                if vars.iter().any(|v| v == s) { a("Bool") } else { a(s) }
            }
        }
    }
    fn exp(e: &E, defs: &[(String, Vec<String>, E)], n: usize, env: &HashMap<String, E>) -> E {
        match e {
            A(s) => {
                if let Some(x) = env.get(&**s) {
                    return x.clone();
                }
                match defs[..n].iter().rposition(|d| d.0 == **s) {
                    Some(i) => exp(&defs[i].2, defs, i, &HashMap::new()),
                    None => e.clone(),
                }
            }
            L(v) if e.head() == Some("_") => L(v.clone()),
            L(v) => {
                let args: Vec<E> = v[1..].iter().map(|x| exp(x, defs, n, env)).collect();
                let h = v[0].atom().unwrap();
                match defs[..n].iter().rposition(|d| d.0 == h) {
                    Some(i) => {
                        let m: HashMap<String, E> = defs[i].1.iter().cloned().zip(args).collect();
                        exp(&defs[i].2, defs, i, &m)
                    }
                    None => ap(h, args),
                }
            }
        }
    }
    let mut text = String::from("(declare-sort U 0)\n(declare-sort T 0)\n(declare-sort Pair 2)\n");
    let mut defs: Vec<(String, Vec<String>, E)> = vec![];
    let n = g.ur(1, 4);
    for i in 0..n {
        let extra: Vec<(String, usize)> = defs.iter().map(|d| (d.0.clone(), d.1.len())).collect();
        let k = g.u(4);
        let mut ps: Vec<String> = vec![];
        for _ in 0..k {
            // parameters may shadow sorts
            let p = g.pick_s(&["X", "Y", "U", "T", "S0", "S1", "Z"]).to_string();
            if !ps.contains(&p) {
                ps.push(p);
            }
        }
        let b = base(g, 2, &extra, &ps);
        text.push_str(&format!("(define-sort S{i} ({}) {b})\n", ps.join(" ")));
        defs.push((format!("S{i}"), ps, b));
    }
    let extra: Vec<(String, usize)> = defs.iter().map(|d| (d.0.clone(), d.1.len())).collect();
    let uses: Vec<E> = (0..g.ur(1, 3)).map(|_| base(g, 2, &extra, &[])).collect();
    // the sizes of the expansions
    fn size(e: &E, defs: &[(String, Vec<String>, E)], n: usize, env: &HashMap<String, f64>, fuel: &mut u32) -> f64 {
        if *fuel == 0 {
            return 1e9;
        }
        *fuel -= 1;
        match e {
            A(s) => match env.get(&**s) {
                Some(x) => *x,
                None => match defs[..n].iter().rposition(|d| d.0 == **s) {
                    Some(i) => size(&defs[i].2, defs, i, &HashMap::new(), fuel),
                    None => 1.0,
                },
            },
            L(_) if e.head() == Some("_") => 1.0,
            L(v) => {
                let args: Vec<f64> = v[1..].iter().map(|x| size(x, defs, n, env, fuel)).collect();
                match defs[..n].iter().rposition(|d| Some(&*d.0) == v[0].atom()) {
                    Some(i) => {
                        let m: HashMap<String, f64> = defs[i].1.iter().cloned().zip(args).collect();
                        size(&defs[i].2, defs, i, &m, fuel)
                    }
                    None => 1.0 + args.iter().sum::<f64>(),
                }
            }
        }
    }
    let terms: Vec<String> = uses.iter().map(|s| format!("(forall ((x {s})) (= x x))")).collect();
    let total: f64 = uses.iter().chain(defs.iter().map(|d| &d.2)).map(|u| size(u, &defs, defs.len(), &HashMap::new(), &mut 5_000)).sum();
    if total > 2_000.0 {
        let mut c = Case { key: hash_str(&text), ..Case::default() };
        c.label("too large");
        return c;
    }
    let mut c = Case { key: hash_str(&format!("{text}{terms:?}")), sample: format!("{text}{}", terms.join("\n")), nontrivial: true, ..Case::default() };
    let mk = |sig: &str, msg: String| Some(Viol { sig: sig.into(), msg, files: vec![("problem.smt2".into(), text.clone()), ("terms.txt".into(), terms.join("\n"))] });
    let mut pool = PrimitivePool::new();
    match guard(|| parse_all_terms(&mut pool, config(), &text, &terms)) {
        Err(p) => c.viol = mk("panic", format!("the parser panics: {p:?}")),
        Ok(Err(e)) => c.viol = mk("sort rejected", format!("well-formed sort definitions are rejected: {e}")),
        Ok(Ok((_, ts))) => {
            for (u, t) in uses.iter().zip(&ts) {
                let x = exp(u, &defs, defs.len(), &HashMap::new());
                let want = bind("forall", &[(a("x"), x.clone())], eq(a("x"), a("x")));
                if to_raw(t) != want {
                    c.viol = mk("sort", format!("the sort {u} is {x}, but is read in {t}"));
                    return c;
                }
            }
        }
    }
    c
}

// ---- whole proofs
/// A piece of the problem or proof text: the term and the names bound outside of it.
fn occurrences(e: &E, bound: &mut Vec<String>, cur: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, Vec<String>)>) {
    out.push((cur.clone(), bound.clone()));
    if let L(v) = e {
        if v.is_empty() || v[0].is("_") || v[0].is("as") {
            return;
        }
        if v[0].is("!") {
            cur.push(1);
            occurrences(&v[1], bound, cur, out);
            cur.pop();
            return;
        }
        if is_binder(e) {
            let k = bound.len();
            for (i, b) in v[1].list().unwrap().iter().enumerate() {
                if v[0].is("let") {
                    let d = cur.len();
                    cur.extend([1, i, 1]);
                    occurrences(&b.list().unwrap()[1], bound, cur, out);
                    cur.truncate(d);
                }
            }
            for b in v[1].list().unwrap() {
                bound.push(b.list().unwrap()[0].to_string());
            }
            cur.push(2);
            occurrences(&v[2], bound, cur, out);
            cur.pop();
            bound.truncate(k);
            return;
        }
        for (i, x) in v.iter().enumerate().skip(1) {
            cur.push(i);
            occurrences(x, bound, cur, out);
            cur.pop();
        }
    }
}
/// Calls `f` on every term of the proof, in the order of the text, with the names bound by anchors.
fn each_term(cmds: &mut [Cmd], bound: &mut Vec<String>, f: &mut dyn FnMut(&mut E, &[String])) {
    for c in cmds {
        match c {
            Cmd::Assume { t, .. } => f(t, bound),
            Cmd::Step { cl, args, rule, .. } => {
                for x in cl.iter_mut() {
                    f(x, bound);
                }
                if rule != "rare_rewrite" {
                    for x in args.iter_mut() {
                        // `(:= x t)` arguments of older proofs and `(cl ..)` are no terms
                        if !x.is_app(":=") && !x.is_app("cl") {
                            f(x, bound);
                        }
                    }
                }
            }
            Cmd::Sub { args, body, .. } => {
                let k = bound.len();
                for x in args.iter_mut() {
                    let Some((n, _, assign)) = anchor_arg(x) else { continue };
                    if assign {
                        let mut t = x.list().unwrap()[2].clone();
                        f(&mut t, bound);
                        x.set(&[2], t);
                    }
                    bound.push(n);
                }
                // the closing step is still inside
                each_term(body, bound, f);
                bound.truncate(k);
            }
        }
    }
}

/// definitions, named terms and lets put into whole proofs: the same proof
pub fn proofs(g: &mut G) -> Case {
    let p = whole::any(g);
    let mut c = Case::default();
    let known: HashSet<String> = p.sig.funs.iter().map(|f| f.0.to_string()).collect();
    // candidate bodies
    let mut bodies: Vec<(E, S)> = vec![];
    {
        let mut cmds = p.cmds.clone();
        each_term(&mut cmds, &mut vec![], &mut |t, anch| {
            let mut occ = vec![];
            occurrences(t, &mut anch.to_vec(), &mut vec![], &mut occ);
            for (q, b) in occ {
                let x = t.get(&q);
                if x.size() > 40 || bodies.len() > 200 {
                    continue;
                }
                let fv = free_names(x);
                if fv.iter().any(|n| b.contains(n)) {
                    continue;
                }
                if let Some(s) = sort_of(x, &p.sig, &[]).filter(|s| !s.e().to_string().contains("->")) {
                    bodies.push((x.clone(), s));
                }
            }
        });
    }
    if bodies.is_empty() {
        return c;
    }
    let mut asserts = p.asserts.clone();
    let mut cmds = p.cmds.clone();
    let (mut pdefs, mut qdefs) = (String::new(), String::new());
    let mut used: HashSet<String> = known.clone();
    prf::for_each(&p.cmds, &mut |c, _| {
        if let Cmd::Sub { args, .. } = c {
            args.iter().filter_map(anchor_arg).for_each(|x| {
                used.insert(x.0);
            });
        }
    });
    let anchors = used.clone();
    let cfg = Config { apply_function_defs: true, expand_lets: true, allow_int_real_subtyping: false, strict: false, parse_hole_args: true };
    let n = g.ur(1, 3);
    let mut kinds = vec![];
    let mut count = 0usize;
    for i in 0..n {
        let (t, s) = bodies[g.u(bodies.len())].clone();
        // a name: new, or one that only means something where it is bound
        let mut name = format!("d{i}");
        if g.chance(1, 3) {
            let v = g.pick_s(&["vx", "vy", "vz", "v1", "v2", "@p_1", "a0'"]).to_string();
            if !used.contains(&v) || anchors.contains(&v) && !known.contains(&v) {
                name = v;
            }
        }
        if used.contains(&name) && !anchors.contains(&name) || kinds.iter().any(|k: &(u8, String)| k.1 == name) {
            continue;
        }
        // parameters
        let mut params: Vec<(String, S)> = vec![];
        let mut args: Vec<E> = vec![];
        let mut body = t.clone();
        let kind = *g.pick(&[0u8, 0, 0, 1, 1, 2, 3, 4]);
        if kind <= 1 && g.bool() {
            for j in 0..g.ur(1, 2) {
                let mut occ = vec![];
                occurrences(&body, &mut vec![], &mut vec![], &mut occ);
                let occ: Vec<_> = occ
                    .into_iter()
                    .filter(|(q, b)| {
                        let x = body.get(q);
                        let fv = free_names(x);
                        !fv.iter().any(|n| b.contains(n) || params.iter().any(|p| p.0 == *n)) && sort_of(x, &p.sig, &[]).is_some_and(|s| !s.e().to_string().contains("->"))
                    })
                    .collect();
                if occ.is_empty() {
                    break;
                }
                let (q, b) = occ[g.u(occ.len())].clone();
                let x = body.get(&q).clone();
                let Some(xs) = sort_of(&x, &p.sig, &[]) else { break };
                let mut pn = g.pick_s(&["x", "y", "vx", "a0", "p0", "vz"]).to_string();
                // the parameter must be visible at its place and mean nothing else in the body
                if b.contains(&pn) || free_names(&body).contains(&pn) || params.iter().any(|p| p.0 == pn) {
                    pn = format!("par{j}");
                }
                body.set(&q, a(&pn));
                params.push((pn, xs));
                args.push(x);
            }
        }
        let call = if params.is_empty() { a(&name) } else { ap(&name, args.clone()) };
        let ps: Vec<String> = params.iter().map(|(n, s)| format!("({n} {})", s.e())).collect();
        let def = format!("(define-fun {name} ({}) {} {body})\n", ps.join(" "), s.e());
        let fv = free_names(&t);
        let mut first = true;
        let mut placed = 0;
        let lname = name.clone();
        let mut put = |g: &mut G, e: &mut E, anch: &[String], mode: u8| {
            let mut occ = vec![];
            occurrences(e, &mut anch.to_vec(), &mut vec![], &mut occ);
            let mut done: Vec<Vec<usize>> = vec![];
            if mode >= 3 {
                // a let (3) or eo::define (4) around the whole term
                if !g.chance(1, 3) {
                    return;
                }
                let hit: Vec<Vec<usize>> = occ.into_iter().filter(|(q, b)| e.get(q) == &t && !fv.iter().any(|n| b.contains(n)) && !b[anch.len()..].contains(&lname) && !(0..q.len()).any(|k| e.get(&q[..k]).head() == Some("!"))).map(|x| x.0).collect();
                if hit.is_empty() || free_names(e).contains(&lname) {
                    return;
                }
                let mut x = e.clone();
                for q in hit {
                    if done.iter().any(|d| q.starts_with(d)) {
                        continue;
                    }
                    if g.chance(2, 3) {
                        x.set(&q, a(&lname));
                        done.push(q);
                    }
                }
                placed += done.len();
                let b = L(vec![L(vec![a(&lname), t.clone()])]);
                *e = if mode == 3 { L(vec![a("let"), b, x]) } else { L(vec![a("eo"), a("::define"), b, x]) };
                return;
            }
            for (q, b) in occ {
                if done.iter().any(|d| q.starts_with(d)) || e.get(&q) != &t || fv.iter().any(|n| b.contains(n)) || b.contains(&lname) {
                    continue;
                }
                if mode == 2 && first {
                    // everything before this place is unnamed
                    if g.chance(1, 2) {
                        e.set(&q, L(vec![a("!"), t.clone(), a(":named"), a(&lname)]));
                        first = false;
                        placed += 1;
                        done.push(q);
                    }
                } else if g.chance(2, 3) {
                    e.set(&q, call.clone());
                    placed += 1;
                    done.push(q);
                }
            }
        };
        // where it may be used
        match kind {
            0 => {
                pdefs.push_str(&def);
                for x in asserts.iter_mut() {
                    put(g, x, &[], 0);
                }
            }
            1 => qdefs.push_str(&def),
            2 => {
                if g.bool() {
                    for x in asserts.iter_mut() {
                        put(g, x, &[], 2);
                    }
                }
            }
            _ => (),
        }
        each_term(&mut cmds, &mut vec![], &mut |x, anch| put(g, x, anch, kind));
        count += placed;
        used.insert(name.clone());
        kinds.push((kind, name));
        c.label(["problem definition", "proof definition", "named", "let", "define"][kind as usize]);
        // later definitions must not contain text that is already replaced
    }
    let (problem, proof) = (p.problem(), p.proof());
    let mut problem2 = p.sig.prelude() + &pdefs;
    for x in &asserts {
        problem2.push_str(&format!("(assert {x})\n"));
    }
    let proof2 = qdefs + &prf::print(&cmds);
    c.key = hash_str(&format!("{problem2}{proof2}"));
    c.sample = format!("{problem2}{proof2}").chars().take(500).collect();
    let mk = |sig: &str, msg: String| Some(Viol { sig: sig.into(), msg, files: vec![("problem.smt2".into(), problem.clone()), ("proof.alethe".into(), proof.clone()), ("problem2.smt2".into(), problem2.clone()), ("proof2.alethe".into(), proof2.clone())] });
    let mut pool = PrimitivePool::new();
    let x = guard(|| parse_in(&mut pool, cfg, &problem, &proof));
    let y = guard(|| parse_in(&mut pool, cfg, &problem2, &proof2));
    match (x, y) {
        (Err(p), _) | (_, Err(p)) => c.viol = mk("panic", format!("the parser panics: {p:?}")),
        (Ok(Err(_)), _) => c.label("does not parse"),
        (_, Ok(Err(e))) => c.viol = mk("proof rejected", format!("the proof with definitions does not parse: {e}")),
        (Ok(Ok((pb, pf))), Ok(Ok((pb2, pf2)))) => {
            c.nontrivial = count > 0;
            // the substitution may rename bound variables
            if pb.premises != pb2.premises {
                let (x, y): (Vec<E>, Vec<E>) = (pb.premises.iter().map(to_raw).collect(), pb2.premises.iter().map(to_raw).collect());
                // two variants of one assertion may become one
                if !x.iter().all(|t| y.iter().any(|u| alpha_eq(t, u))) || !y.iter().all(|t| x.iter().any(|u| alpha_eq(t, u))) {
                    c.viol = mk("proof premises", "the premises differ".into());
                    return c;
                }
                c.label("renamed");
            }
            if diff(&pf.commands, &pf2.commands).is_some() {
                if let Some(d) = alpha_diff(&pf.commands, &pf2.commands) {
                    c.viol = mk("proof differs", format!("the definitions change the proof: {d}"));
                }
                c.label("renamed");
            }
        }
    }
    c
}

fn alpha_diff(x: &[ProofCommand], y: &[ProofCommand]) -> Option<String> {
    if x.len() != y.len() {
        return Some(format!("{} and {} commands", x.len(), y.len()));
    }
    let eq1 = |t: &Rc<Term>, u: &Rc<Term>| t == u || alpha_eq(&to_raw(t), &to_raw(u));
    let eqs = |v: &[Rc<Term>], w: &[Rc<Term>]| v.len() == w.len() && v.iter().zip(w).all(|(t, u)| eq1(t, u));
    for (c, d) in x.iter().zip(y) {
        let ok = match (c, d) {
            (ProofCommand::Assume { id: i, term: t }, ProofCommand::Assume { id: j, term: u }) => i == j && eq1(t, u),
            (ProofCommand::Step(s), ProofCommand::Step(t)) => s.id == t.id && s.rule == t.rule && s.premises == t.premises && s.discharge == t.discharge && eqs(&s.clause, &t.clause) && eqs(&s.args, &t.args),
            (ProofCommand::Subproof(s), ProofCommand::Subproof(t)) => {
                if s.args != t.args {
                    let f = |v: &[AnchorArg]| v.iter().map(|a| match a {
                        AnchorArg::Variable((n, s)) => (n.clone(), s.clone(), None),
                        AnchorArg::Assign((n, s), t) => (n.clone(), s.clone(), Some(t.clone())),
                    }).collect::<Vec<_>>();
                    let (v, w) = (f(&s.args), f(&t.args));
                    let same = v.len() == w.len() && v.iter().zip(&w).all(|(p, q)| p.0 == q.0 && p.1 == q.1 && match (&p.2, &q.2) {
                        (None, None) => true,
                        (Some(t), Some(u)) => eq1(t, u),
                        _ => false,
                    });
                    if !same {
                        return Some(format!("args of anchor {}", c.id()));
                    }
                }
                if let Some(r) = alpha_diff(&s.commands, &t.commands) {
                    return Some(r);
                }
                true
            }
            _ => false,
        };
        if !ok {
            return Some(format!("{} {:?} is not {} {:?}", c.id(), c.clause().iter().map(|t| t.to_string()).collect::<Vec<_>>(), d.id(), d.clause().iter().map(|t| t.to_string()).collect::<Vec<_>>()));
        }
    }
    None
}
/// the pinned input of the known finding
pub fn pin_capture() -> bool {
    let mut pool = PrimitivePool::new();
    let cfg = Config { apply_function_defs: true, ..config() };
    let pre = "(declare-sort U 0)\n(declare-const a U)\n(define-fun f () U a)\n";
    match parse_all_terms(&mut pool, cfg, pre, &["(forall ((a U)) (= a f))".into()]) {
        Ok((_, v)) => alpha_eq(&to_raw(&v[0]), &parse("(forall ((a U)) (= a a))")),
        Err(_) => false,
    }
}
