//! Proofs with contexts: nested bind / let / bind_let / onepoint / skolemization / subproof.
use crate::eval::{bindings, S};
use crate::g::G;
use crate::prf::*;
use crate::runner::Case;
use crate::sexp::*;
use crate::terms::*;
use std::collections::HashMap;

pub fn free_names(e: &E) -> Vec<String> {
    fn go(e: &E, bound: &mut Vec<String>, out: &mut Vec<String>) {
        match e {
            A(s) => {
                if !bound.iter().any(|b| **b == **s) && !out.iter().any(|b| **b == **s) {
                    out.push(s.to_string());
                }
            }
            L(v) => match e.head() {
                Some("forall" | "exists" | "choice" | "lambda") if v.len() == 3 => {
                    let k = bound.len();
                    for b in v[1].list().unwrap_or(&[]) {
                        if let Some(n) = b.list().and_then(|b| b.first()).and_then(|x| x.atom()) {
                            bound.push(n.to_string());
                        }
                    }
                    go(&v[2], bound, out);
                    bound.truncate(k);
                }
                Some("let") if v.len() == 3 => {
                    let mut names = vec![];
                    for b in v[1].list().unwrap_or(&[]) {
                        if let Some(b) = b.list() {
                            go(&b[1], bound, out);
                            names.push(b[0].to_string());
                        }
                    }
                    let k = bound.len();
                    bound.extend(names);
                    go(&v[2], bound, out);
                    bound.truncate(k);
                }
                _ => v.iter().for_each(|x| go(x, bound, out)),
            },
        }
    }
    let mut out = vec![];
    go(e, &mut vec![], &mut out);
    out
}
/// Capture-avoiding simultaneous substitution.
pub fn subst_ca(e: &E, map: &HashMap<String, E>, fresh: &mut usize) -> E {
    if map.is_empty() {
        return e.clone();
    }
    match e {
        A(s) => map.get(&**s).cloned().unwrap_or_else(|| e.clone()),
        L(v) => match e.head() {
            Some(h @ ("forall" | "exists" | "choice" | "lambda" | "let")) if v.len() == 3 => {
                let is_let = h == "let";
                let bs: Vec<(String, E)> = v[1].list().unwrap().iter().map(|b| {
                    let b = b.list().unwrap();
                    (b[0].to_string(), if is_let { subst_ca(&b[1], map, fresh) } else { b[1].clone() })
                }).collect();
                let mut inner = map.clone();
                for (n, _) in &bs {
                    inner.remove(n);
                }
                let fv = free_names(&v[2]);
                inner.retain(|k, _| fv.contains(k));
                let range: Vec<String> = inner.values().flat_map(|t| free_names(t)).collect();
                let mut nbs = vec![];
                let names: Vec<String> = bs.iter().map(|b| b.0.clone()).collect();
                for (n, s) in bs {
                    if range.contains(&n) {
                        *fresh += 1;
                        let mut nn = format!("rn{fresh}");
                        while names.contains(&nn) || range.contains(&nn) || fv.contains(&nn) {
                            *fresh += 1;
                            nn = format!("rn{fresh}");
                        }
                        inner.insert(n, a(&nn));
                        nbs.push(L(vec![a(&nn), s]));
                    } else {
                        nbs.push(L(vec![a(&n), s]));
                    }
                }
                L(vec![v[0].clone(), L(nbs), subst_ca(&v[2], &inner, fresh)])
            }
            _ => L(v.iter().map(|x| subst_ca(x, map, fresh)).collect()),
        },
    }
}
/// Gives every binder its own name.
pub fn uniq(e: &E, n: &mut usize) -> E {
    match e {
        A(_) => e.clone(),
        L(v) => match e.head() {
            Some(h @ ("forall" | "exists" | "choice" | "lambda" | "let")) if v.len() == 3 => {
                let is_let = h == "let";
                let mut map = HashMap::new();
                let mut bs = vec![];
                for b in v[1].list().unwrap() {
                    let b = b.list().unwrap();
                    *n += 1;
                    let nn = a(format!("v{n}"));
                    bs.push(L(vec![nn.clone(), if is_let { uniq(&b[1], n) } else { b[1].clone() }]));
                    map.insert(b[0].to_string(), nn);
                }
                let mut f = 0;
                let body = subst_ca(&v[2], &map, &mut f);
                L(vec![v[0].clone(), L(bs), uniq(&body, n)])
            }
            _ => L(v.iter().map(|x| uniq(x, n)).collect()),
        },
    }
}

struct Ctx {
    /// every name in scope with its sort
    scope: Vec<(String, S)>,
    /// latest last; None = the name stands for itself
    map: Vec<(String, Option<E>)>,
    local_hyps: Vec<(E, E, String)>,
}
impl Ctx {
    fn hmap(&self) -> HashMap<String, E> {
        let mut m = HashMap::new();
        for (n, t) in &self.map {
            match t {
                Some(t) => {
                    m.insert(n.clone(), t.clone());
                }
                None => {
                    m.remove(n);
                }
            }
        }
        m
    }
}
struct P<'g> {
    tg: TG<'g>,
    hyps: Vec<(E, E)>,
    next: usize,
    fresh: usize,
    wild: bool,
    budget: usize,
    used: Vec<&'static str>,
}
impl<'g> P<'g> {
    fn id(&mut self) -> String {
        self.next += 1;
        format!("t{}", self.next)
    }
    fn push(&mut self, out: &mut Vec<Cmd>, rule: &'static str, cl: Vec<E>, prems: Vec<String>, args: Vec<E>) -> String {
        let id = self.id();
        self.used.push(rule);
        out.push(Cmd::step(&id, cl, rule, prems, args));
        id
    }
    fn sigma(&mut self, e: &E, ctx: &Ctx) -> E {
        let m = ctx.hmap();
        subst_ca(e, &m, &mut self.fresh)
    }
    fn hyp(&mut self, l: &E, s: &S) -> (E, String) {
        for (i, (x, y)) in self.hyps.iter().enumerate() {
            if x == l {
                return (y.clone(), format!("h{i}"));
            }
        }
        let saved = std::mem::take(&mut self.tg.scope);
        let d = self.tg.g.u(2);
        let r = self.tg.term(s, d);
        let r = if self.wild { r } else { uniq(&r, &mut self.fresh) };
        self.tg.scope = saved;
        self.hyps.push((l.clone(), r.clone()));
        (r, format!("h{}", self.hyps.len() - 1))
    }
    /// like prove, but the last command of `out` proves (= l r)
    fn prove_last(&mut self, l: &E, ctx: &mut Ctx, d: usize, out: &mut Vec<Cmd>) -> E {
        let (r, id) = self.prove(l, ctx, d, out);
        match id {
            None => {
                self.push(out, "refl", vec![eq(l.clone(), l.clone())], vec![], vec![]);
            }
            Some(id) => {
                if out.last().map_or(true, |c| c.id() != id) {
                    let i2 = self.push(out, "symm", vec![eq(r.clone(), l.clone())], vec![id], vec![]);
                    self.push(out, "symm", vec![eq(l.clone(), r.clone())], vec![i2], vec![]);
                }
            }
        }
        r
    }
    /// Emits steps that prove (= l r) for some r; the id is None if l and r are the same term.
    fn prove(&mut self, l: &E, ctx: &mut Ctx, d: usize, out: &mut Vec<Cmd>) -> (E, Option<String>) {
        let Some(s) = sort_of(l, &self.tg.sig, &ctx.scope) else {
            return self.stop(l, ctx, out);
        };
        if self.budget == 0 || d == 0 {
            return self.stop(l, ctx, out);
        }
        self.budget -= 1;
        // a local assumption about exactly this term
        if let Some((_, b, id)) = ctx.local_hyps.iter().rev().find(|h| h.0 == *l).cloned() {
            return (b, Some(id));
        }
        let fv = free_names(l);
        let closed = !fv.iter().any(|n| ctx.scope.iter().any(|x| x.0 == *n));
        match self.tg.g.weighted(&[2, if closed { 3 } else { 0 }, 14, 2, 2]) {
            0 => self.stop(l, ctx, out),
            1 => {
                let (r, id) = self.hyp(l, &s);
                if r == *l { (r, None) } else { (r, Some(id)) }
            }
            3 => {
                let (m, i1) = self.prove(l, ctx, d - 1, out);
                let (r, i2) = self.prove(&m, ctx, d - 1, out);
                match (i1, i2) {
                    (Some(x), Some(y)) => {
                        if r == *l {
                            return (r, None);
                        }
                        let id = self.push(out, "trans", vec![eq(l.clone(), r.clone())], vec![x, y], vec![]);
                        (r, Some(id))
                    }
                    (x, None) => (m, x),
                    (None, y) => (r, y),
                }
            }
            4 => self.via_subproof(l, ctx, d, out),
            _ => self.structural(l, ctx, d, out),
        }
    }
    fn stop(&mut self, l: &E, ctx: &mut Ctx, out: &mut Vec<Cmd>) -> (E, Option<String>) {
        let mut r = self.sigma(l, ctx);
        if self.tg.g.chance(1, 4) {
            let mut n = self.fresh + 1000;
            let g = &mut *self.tg.g;
            r = crate::fam_eq::alpha(&r, &mut n, &mut || g.bool());
            self.fresh = n - 1000;
        }
        if r == *l {
            return (r, None);
        }
        let id = self.push(out, "refl", vec![eq(l.clone(), r.clone())], vec![], vec![]);
        (r, Some(id))
    }
    fn via_subproof(&mut self, l: &E, ctx: &mut Ctx, d: usize, out: &mut Vec<Cmd>) -> (E, Option<String>) {
        // a closed subterm of l
        let names: Vec<String> = ctx.scope.iter().map(|x| x.0.clone()).collect();
        let c: Vec<(E, S)> = term_paths(l, &self.tg.sig)
            .into_iter()
            .filter_map(|(p, s, _)| {
                let t = l.get(&p).clone();
                let s = s?;
                let fv = free_names(&t);
                let sc = bound_on_path(l, &p);
                (!fv.iter().any(|n| names.contains(n) || sc.contains(n))).then_some((t, s))
            })
            .collect();
        if c.is_empty() {
            return self.structural(l, ctx, d, out);
        }
        let (x, s) = c[self.tg.g.u(c.len())].clone();
        let (y, h) = self.hyp(&x, &s);
        if x == y || ctx.local_hyps.iter().any(|q| q.0 == x) {
            return self.structural(l, ctx, d, out);
        }
        let sub = self.id();
        let hid = self.id();
        let mut body = vec![Cmd::Assume { id: hid.clone(), t: eq(x.clone(), y.clone()) }];
        ctx.local_hyps.push((x.clone(), y.clone(), hid.clone()));
        let r = self.prove_last(l, ctx, d - 1, &mut body);
        ctx.local_hyps.pop();
        if r == *l {
            return (r, None);
        }
        self.used.push("subproof");
        body.push(Cmd::Step { id: sub.clone(), cl: vec![not(eq(x.clone(), y)), eq(l.clone(), r.clone())], rule: "subproof".into(), prems: vec![], args: vec![], discharge: vec![hid] });
        out.push(Cmd::Sub { id: sub.clone(), args: vec![], body });
        let id = self.push(out, "resolution", vec![eq(l.clone(), r.clone())], vec![sub, h], vec![]);
        (r, Some(id))
    }
    fn structural(&mut self, l: &E, ctx: &mut Ctx, d: usize, out: &mut Vec<Cmd>) -> (E, Option<String>) {
        let L(v) = l else { return self.stop(l, ctx, out) };
        match l.head() {
            Some(h @ ("forall" | "exists" | "choice")) if v.len() == 3 => {
                if h != "choice" {
                    match self.tg.g.u(6) {
                        0 | 1 => {
                            if let Some(x) = self.onepoint(l, ctx, d, out) {
                                return x;
                            }
                        }
                        2 => {
                            if let Some(x) = self.sko(l, ctx, d, out) {
                                return x;
                            }
                        }
                        _ => {}
                    }
                }
                self.bind(l, ctx, d, out)
            }
            Some("let") if v.len() == 3 => self.lets(l, ctx, d, out),
            Some("_" | "lambda") => self.stop(l, ctx, out),
            _ => {
                let mut nv = vec![v[0].clone()];
                let mut prems = vec![];
                for x in &v[1..] {
                    let (y, id) = self.prove(x, ctx, d - 1, out);
                    if y != *x {
                        prems.push(id.unwrap());
                    }
                    nv.push(y);
                }
                let r = L(nv);
                if r == *l {
                    return (r, None);
                }
                let id = self.push(out, "cong", vec![eq(l.clone(), r.clone())], prems, vec![]);
                (r, Some(id))
            }
        }
    }
    fn new_name(&mut self, old: &str) -> String {
        if self.wild && self.tg.g.chance(1, 4) {
            return self.tg.fresh_var_name();
        }
        if self.tg.g.chance(1, 3) {
            return old.to_string();
        }
        self.fresh += 1;
        format!("y{}", self.fresh)
    }
    fn bind(&mut self, l: &E, ctx: &mut Ctx, d: usize, out: &mut Vec<Cmd>) -> (E, Option<String>) {
        let L(v) = l else { unreachable!() };
        let Some(bs) = bindings(&v[1]) else { return self.stop(l, ctx, out) };
        let mut ys: Vec<(String, S)> = vec![];
        for (n, s) in &bs {
            let mut y = self.new_name(n);
            if !self.wild && (ys.iter().any(|x| x.0 == y) || (bs.iter().any(|b| *b.0 == *y) && *y != **n)) {
                self.fresh += 1;
                y = format!("y{}", self.fresh);
            }
            ys.push((y, s.clone()));
        }
        let mut args: Vec<E> = ys.iter().map(|(y, s)| L(vec![a(y), s.e()])).collect();
        let (k, m) = (ctx.scope.len(), ctx.map.len());
        for (y, s) in &ys {
            ctx.scope.push((y.clone(), s.clone()));
            ctx.map.push((y.clone(), None));
        }
        for ((x, s), (y, _)) in bs.iter().zip(&ys) {
            if **x != **y || self.tg.g.bool() {
                args.push(L(vec![a(":="), L(vec![a(x), s.e()]), a(y)]));
            }
            if **x != **y {
                ctx.scope.push((x.to_string(), s.clone()));
                ctx.map.push((x.to_string(), Some(a(y))));
            }
        }
        let sub = self.id();
        let mut body = vec![];
        let rb = self.prove_last(&v[2], ctx, d - 1, &mut body);
        ctx.scope.truncate(k);
        ctx.map.truncate(m);
        // the order of the right-hand side variables does not matter for quantifiers
        let r = L(vec![v[0].clone(), L(ys.iter().map(|(y, s)| L(vec![a(y), s.e()])).collect()), rb]);
        self.used.push("bind");
        body.push(Cmd::step(&sub, vec![eq(l.clone(), r.clone())], "bind", vec![], vec![]));
        if r == *l {
            return (r, None);
        }
        out.push(Cmd::Sub { id: sub.clone(), args, body });
        (r, Some(sub))
    }
    fn lets(&mut self, l: &E, ctx: &mut Ctx, d: usize, out: &mut Vec<Cmd>) -> (E, Option<String>) {
        let L(v) = l else { unreachable!() };
        let bs: Vec<(String, E)> = v[1].list().unwrap().iter().map(|b| (b.args0(), b.list().unwrap()[1].clone())).collect();
        let mut sorts = vec![];
        for (_, t) in &bs {
            match sort_of(t, &self.tg.sig, &ctx.scope) {
                Some(s) => sorts.push(s),
                None => return self.stop(l, ctx, out),
            }
        }
        let mut prems = vec![];
        let mut ss = vec![];
        for (_, t) in &bs {
            let (s, id) = self.prove(t, ctx, d - 1, out);
            if s != *t {
                prems.push(id.unwrap());
            }
            ss.push(s);
        }
        let bl = self.tg.g.chance(1, 3);
        let (k, m) = (ctx.scope.len(), ctx.map.len());
        let mut args = vec![];
        for (((x, _), s), so) in bs.iter().zip(&ss).zip(&sorts) {
            ctx.scope.push((x.clone(), so.clone()));
            if bl {
                ctx.map.push((x.clone(), None));
                args.push(L(vec![a(x), so.e()]));
            } else {
                ctx.map.push((x.clone(), Some(s.clone())));
                args.push(L(vec![a(":="), L(vec![a(x), so.e()]), s.clone()]));
            }
        }
        let sub = self.id();
        let mut body = vec![];
        let u = self.prove_last(&v[2], ctx, d - 1, &mut body);
        ctx.scope.truncate(k);
        ctx.map.truncate(m);
        let (r, rule) = if bl {
            let nb = bs.iter().zip(&ss).map(|((x, _), s)| L(vec![a(x), s.clone()])).collect();
            (L(vec![a("let"), L(nb), u]), "bind_let")
        } else {
            (u, "let")
        };
        if r == *l {
            return (r, None);
        }
        self.used.push(rule);
        body.push(Cmd::step(&sub, vec![eq(l.clone(), r.clone())], rule, prems, vec![]));
        out.push(Cmd::Sub { id: sub.clone(), args, body });
        (r, Some(sub))
    }
    fn onepoint(&mut self, l: &E, ctx: &mut Ctx, d: usize, out: &mut Vec<Cmd>) -> Option<(E, Option<String>)> {
        let L(v) = l else { unreachable!() };
        let bs = bindings(&v[1])?;
        let mut pts: Vec<(E, E)> = vec![];
        fn points(e: &E, pol: bool, out: &mut Vec<(E, E)>) {
            if e.is_app("not") && e.args().len() == 1 {
                return points(&e.args()[0], !pol, out);
            }
            match (pol, e.head()) {
                (true, Some("=")) if e.args().len() == 2 => {
                    out.push((e.args()[0].clone(), e.args()[1].clone()));
                    out.push((e.args()[1].clone(), e.args()[0].clone()));
                }
                (true, Some("and")) => e.args().iter().for_each(|x| points(x, true, out)),
                (false, Some("or")) => e.args().iter().for_each(|x| points(x, false, out)),
                (false, Some("=>")) if e.args().len() == 2 => {
                    points(&e.args()[0], true, out);
                    points(&e.args()[1], false, out);
                }
                _ => {}
            }
        }
        points(&v[2], l.is_app("exists"), &mut pts);
        if self.wild {
            // also points below quantifiers
            fn deep(e: &E, pol: bool, out: &mut Vec<(E, E)>) {
                points(e, pol, out);
                if let L(v) = e {
                    for x in v {
                        deep(x, pol, out);
                    }
                }
            }
            if self.tg.g.chance(1, 3) {
                deep(&v[2], l.is_app("exists"), &mut pts);
            }
        }
        let mut elim: Vec<(String, E, S)> = vec![];
        let (k, m) = (ctx.scope.len(), ctx.map.len());
        for (n, s) in &bs {
            ctx.scope.push((n.to_string(), s.clone()));
            ctx.map.push((n.to_string(), None));
        }
        let start = ctx.map.len();
        for (x, t) in pts {
            let Some(n) = x.atom() else { continue };
            let Some((_, s)) = bs.iter().rev().find(|b| *b.0 == *n) else { continue };
            if elim.iter().any(|e| e.0 == *n) || self.tg.g.chance(1, 5) {
                continue;
            }
            if sort_of(&t, &self.tg.sig, &ctx.scope).as_ref() != Some(s) {
                continue;
            }
            let val = self.sigma(&t, ctx);
            let fv = free_names(&val);
            if !self.wild && (fv.iter().any(|f| f == n || elim.iter().any(|e| e.0 == *f)) || elim.iter().any(|e| free_names(&e.1).iter().any(|f| f == n))) {
                continue;
            }
            elim.push((n.to_string(), val.clone(), s.clone()));
            ctx.map.push((n.to_string(), Some(val)));
        }
        if elim.is_empty() {
            ctx.scope.truncate(k);
            ctx.map.truncate(m);
            return None;
        }
        let _ = start;
        let kept: Vec<E> = bs.iter().filter(|b| !elim.iter().any(|e| *e.0 == *b.0)).map(|(n, s)| L(vec![a(n), s.e()])).collect();
        let mut args = kept.clone();
        for (n, val, s) in &elim {
            args.push(L(vec![a(":="), L(vec![a(n), s.e()]), val.clone()]));
        }
        let sub = self.id();
        let mut body = vec![];
        let rb = self.prove_last(&v[2], ctx, d - 1, &mut body);
        ctx.scope.truncate(k);
        ctx.map.truncate(m);
        let r = if kept.is_empty() { rb } else { L(vec![v[0].clone(), L(kept.clone()), rb]) };
        if kept.is_empty() && matches!(r.head(), Some("forall" | "exists")) {
            return None;
        }
        self.used.push("onepoint");
        body.push(Cmd::step(&sub, vec![eq(l.clone(), r.clone())], "onepoint", vec![], vec![]));
        out.push(Cmd::Sub { id: sub.clone(), args, body });
        Some((r, Some(sub)))
    }
    fn sko(&mut self, l: &E, ctx: &mut Ctx, d: usize, out: &mut Vec<Cmd>) -> Option<(E, Option<String>)> {
        let L(v) = l else { unreachable!() };
        if v[2].size() > 30 {
            return None;
        }
        let ex = l.is_app("exists");
        let bs = v[1].list().unwrap().to_vec();
        let names = bindings(&v[1])?;
        let (k, m) = (ctx.scope.len(), ctx.map.len());
        // the body with the outer substitution, bound names left alone
        let mut hm = ctx.hmap();
        for (n, _) in &names {
            hm.remove(&**n);
        }
        let mut cur = subst_ca(&v[2], &hm, &mut self.fresh);
        let mut args = vec![];
        for (i, (n, s)) in names.iter().enumerate() {
            let mut inner = cur.clone();
            if i + 1 < bs.len() {
                inner = L(vec![v[0].clone(), L(bs[i + 1..].to_vec()), inner]);
            }
            if !ex {
                inner = not(inner);
            }
            let t = L(vec![a("choice"), L(vec![bs[i].clone()]), inner]);
            args.push(L(vec![a(":="), L(vec![a(n), s.e()]), t.clone()]));
            let mut mm = HashMap::new();
            mm.insert(n.to_string(), t.clone());
            cur = subst_ca(&cur, &mm, &mut self.fresh);
            ctx.scope.push((n.to_string(), s.clone()));
            ctx.map.push((n.to_string(), Some(t)));
        }
        let sub = self.id();
        let mut body = vec![];
        let r = self.prove_last(&v[2], ctx, d - 1, &mut body);
        ctx.scope.truncate(k);
        ctx.map.truncate(m);
        let rule = if ex { "sko_ex" } else { "sko_forall" };
        self.used.push(rule);
        body.push(Cmd::step(&sub, vec![eq(l.clone(), r.clone())], rule, vec![], vec![]));
        out.push(Cmd::Sub { id: sub.clone(), args, body });
        Some((r, Some(sub)))
    }
    /// Adds points to quantified formulas so that `onepoint` has something to do.
    fn shapes(&mut self, e: &E, scope: &mut Vec<(String, S)>) -> E {
        let L(v) = e else { return e.clone() };
        match e.head() {
            Some(q @ ("forall" | "exists")) if v.len() == 3 => {
                let k = scope.len();
                let bs = bindings(&v[1]).unwrap();
                for (n, s) in &bs {
                    scope.push((n.to_string(), s.clone()));
                }
                let mut body = self.shapes(&v[2], scope);
                let n = self.tg.g.u(3);
                for _ in 0..n {
                    let (x, s) = bs[self.tg.g.u(bs.len())].clone();
                    let save = std::mem::replace(&mut self.tg.scope, scope.clone());
                    let d = self.tg.g.u(2);
                    let t = self.tg.term(&s, d);
                    self.tg.scope = save;
                    let p = if self.tg.g.bool() { eq(a(&x), t) } else { eq(t, a(&x)) };
                    body = if q == "exists" {
                        and(vec![p, body])
                    } else if self.tg.g.bool() {
                        ap2("=>", p, body)
                    } else {
                        or(vec![not(p), body])
                    };
                }
                scope.truncate(k);
                L(vec![v[0].clone(), v[1].clone(), body])
            }
            Some("let" | "choice" | "_" | "lambda") => e.clone(),
            _ => {
                let mut nv = vec![v[0].clone()];
                for x in &v[1..] {
                    nv.push(self.shapes(x, scope));
                }
                L(nv)
            }
        }
    }
}
trait Args0 {
    fn args0(&self) -> String;
}
impl Args0 for E {
    fn args0(&self) -> String {
        self.list().unwrap()[0].to_string()
    }
}

/// A proof of one or more equalities between formulas with binders.
pub fn eq_proof(g: &mut G, cfg: Cfg, depth: usize) -> Prf {
    let wild = g.wild;
    let tg = TG::new(g, cfg);
    let mut p = P { tg, hyps: vec![], next: 0, fresh: 0, wild, budget: 60, used: vec![] };
    let q = p.tg.g.pick_s(&["forall", "exists", ""]);
    let mut l = if q.is_empty() {
        p.tg.boolt(depth)
    } else {
        let ss = p.tg.finite_sorts();
        p.tg.quantified(q, depth, &ss)
    };
    l = p.shapes(&l, &mut vec![]);
    if !wild || p.tg.g.bool() {
        l = uniq(&l, &mut p.fresh);
    }
    let mut ctx = Ctx { scope: vec![], map: vec![], local_hyps: vec![] };
    let mut body = vec![];
    let r = p.prove_last(&l, &mut ctx, depth + 3, &mut body);
    let mut cmds: Vec<Cmd> = p.hyps.iter().enumerate().map(|(i, (x, y))| Cmd::step(&format!("h{i}"), vec![eq(x.clone(), y.clone())], "hole", vec![], vec![])).collect();
    cmds.extend(body);
    // derive something from it
    if p.tg.g.chance(1, 3) {
        let last = cmds.last().unwrap().id().to_string();
        cmds.push(Cmd::step("e1", vec![not(l.clone()), r.clone()], "equiv1", vec![last], vec![]));
    }
    let mut used = p.used.clone();
    used.sort();
    used.dedup();
    let label = used.iter().filter(|x| matches!(**x, "bind" | "let" | "bind_let" | "onepoint" | "sko_ex" | "sko_forall" | "subproof")).cloned().collect::<Vec<_>>().join("+");
    Prf { sig: p.tg.sig, asserts: vec![], cmds, label }
}
fn cfg(g: &mut G) -> Cfg {
    Cfg { lets: g.chance(2, 3), choice: g.chance(1, 3), nary: 3, ..Cfg::quant() }
}
/// Subproofs with several assumptions and clausal reasoning inside.
pub fn subproof_proof(g: &mut G) -> Prf {
    let mut tg = TG::new(g, Cfg { names: 3, ..Cfg::uf() });
    fn build(tg: &mut TG, next: &mut usize, facts: &[(String, E)], depth: usize) -> (Cmd, Vec<E>) {
        *next += 1;
        let id = format!("t{next}");
        let n = tg.g.ur(0, 3);
        let mut body = vec![];
        let mut asm = vec![];
        let mut facts = facts.to_vec();
        for _ in 0..n {
            *next += 1;
            let hid = format!("t{next}");
            let d = tg.g.u(2);
            // sometimes an implication from an earlier fact, so that something can be derived
            let t = if !facts.is_empty() && tg.g.bool() {
                let i = tg.g.u(facts.len());
                ap2("=>", facts[i].1.clone(), tg.boolt(d))
            } else {
                tg.boolt(d)
            };
            body.push(Cmd::Assume { id: hid.clone(), t: t.clone() });
            facts.push((hid.clone(), t.clone()));
            asm.push((hid, t));
        }
        if depth > 0 && tg.g.chance(1, 3) {
            let (c, _) = build(tg, next, &facts, depth - 1);
            body.push(c);
        }
        // contradictory assumptions: the last conclusion is the negation of an assumption
        let mut phi_of = None;
        if !asm.is_empty() && tg.g.chance(1, 5) {
            let i = tg.g.u(asm.len());
            let t = not(asm[i].1.clone());
            *next += 1;
            let hid = format!("t{next}");
            body.push(Cmd::Assume { id: hid.clone(), t: t.clone() });
            facts.push((hid.clone(), t.clone()));
            phi_of = Some(facts.len() - 1);
            asm.push((hid, t));
        }
        // modus ponens where possible
        let mut last: Option<E> = None;
        for _ in 0..2 {
            let imps: Vec<(String, E)> = facts.iter().filter(|f| f.1.is_app("=>")).cloned().collect();
            for (i, f) in imps {
                if let Some((j, _)) = facts.iter().find(|x| x.1 == f.args()[0]).cloned() {
                    if tg.g.chance(1, 3) {
                        continue;
                    }
                    let (p, q) = (f.args()[0].clone(), f.args()[1].clone());
                    *next += 2;
                    let (a1, a2) = (format!("t{}", *next - 1), format!("t{next}"));
                    body.push(Cmd::step(&a1, vec![not(p), q.clone()], "implies", vec![i], vec![]));
                    body.push(Cmd::step(&a2, vec![q.clone()], "resolution", vec![a1, j], vec![]));
                    facts.push((a2, q.clone()));
                    last = Some(q);
                    break;
                }
            }
        }
        let phi = match last {
            Some(q) if body.last().map_or(false, |c| c.clause() == vec![q.clone()]) => q,
            _ => {
                // repeat a fact, or a tautology
                *next += 1;
                let i2 = format!("t{next}");
                if facts.is_empty() || tg.g.chance(1, 4) {
                    let s = tg.any_sort();
                    let x = tg.term(&s, 1);
                    let e = eq(x.clone(), x);
                    body.push(Cmd::step(&i2, vec![e.clone()], "refl", vec![], vec![]));
                    e
                } else {
                    let i = match phi_of {
                        Some(i) if tg.g.chance(2, 3) => i,
                        _ => tg.g.u(facts.len()),
                    };
                    let (fid, f) = facts[i].clone();
                    body.push(Cmd::step(&i2, vec![f.clone()], "reordering", vec![fid], vec![]));
                    f
                }
            }
        };
        let mut cl: Vec<E> = asm.iter().map(|x| not(x.1.clone())).collect();
        cl.push(phi);
        body.push(Cmd::Step { id: id.clone(), cl: cl.clone(), rule: "subproof".into(), prems: vec![], args: vec![], discharge: asm.iter().map(|x| x.0.clone()).collect() });
        (Cmd::Sub { id, args: vec![], body }, cl)
    }
    let mut cmds = vec![];
    let mut facts = vec![];
    for i in 0..tg.g.u(3) {
        let t = tg.boolt(1);
        cmds.push(Cmd::step(&format!("h{i}"), vec![t.clone()], "hole", vec![], vec![]));
        facts.push((format!("h{i}"), t));
    }
    let mut next = 0;
    let (c, cl) = build(&mut tg, &mut next, &facts, 2);
    let id = c.id().to_string();
    cmds.push(c);
    if tg.g.bool() {
        // resolve with holes for the assumptions
        let mut prems = vec![id];
        for (i, x) in cl[..cl.len() - 1].iter().enumerate() {
            let t = x.args()[0].clone();
            cmds.push(Cmd::step(&format!("k{i}"), vec![t], "hole", vec![], vec![]));
            prems.push(format!("k{i}"));
        }
        if prems.len() > 1 {
            // literals may cancel in surprising ways; only the plain case is built
            let phi = cl.last().unwrap().clone();
            let distinct = (0..cl.len()).all(|i| (0..i).all(|j| strip(&cl[i]) != strip(&cl[j])));
            if distinct {
                cmds.push(Cmd::step("fin", vec![phi], "resolution", prems, vec![]));
            }
        }
    }
    Prf { sig: tg.sig, asserts: vec![], cmds, label: "subproof".into() }
}
fn strip(e: &E) -> E {
    let mut e = e.clone();
    while e.is_app("not") {
        e = e.args()[0].clone();
    }
    e
}
/// Names bound by binders on the way to a subterm.
pub fn bound_on_path(e: &E, path: &[usize]) -> Vec<String> {
    let mut v = vec![];
    for k in 0..path.len() {
        let t = e.get(&path[..k]);
        if matches!(t.head(), Some("forall" | "exists" | "choice" | "let" | "lambda")) {
            if let Some(bs) = t.list().and_then(|x| x.get(1)).and_then(|x| x.list()) {
                v.extend(bs.iter().filter_map(|b| b.list().and_then(|q| q.first()).and_then(|q| q.atom()).map(|s| s.to_string())));
            }
        }
    }
    v
}
pub fn gen(g: &mut G) -> Prf {
    match g.weighted(&[5, 1]) {
        0 => {
            let c = cfg(g);
            let d = g.ur(1, 3);
            eq_proof(g, c, d)
        }
        _ => subproof_proof(g),
    }
}
/// The closing step of some subproof loses literals, discharged assumptions, or both.
fn shorten_subproof(g: &mut G, p: &mut Prf) {
    let mut n = 0;
    for_each(&p.cmds, &mut |c, _| n += matches!(c, Cmd::Step { rule, .. } if rule == "subproof") as usize);
    if n == 0 {
        return;
    }
    let k = g.u(n);
    let mut i = 0;
    for_each_mut(&mut p.cmds, &mut |c| {
        if let Cmd::Step { rule, cl, discharge, .. } = c {
            if rule == "subproof" {
                if i == k {
                    match g.u(4) {
                        0 => {
                            let m = g.u(cl.len() + 1);
                            cl.truncate(m);
                        }
                        1 => {
                            let m = g.u(cl.len() + 1);
                            cl.drain(..m);
                        }
                        2 => {
                            let m = g.u(discharge.len() + 1);
                            discharge.truncate(m);
                        }
                        _ => {
                            let m = g.u(discharge.len() + 1);
                            discharge.truncate(m);
                            let phi = cl.pop();
                            cl.truncate(m);
                            cl.extend(phi);
                        }
                    }
                }
                i += 1;
            }
        }
    });
}
pub fn sound(g: &mut G) -> Case {
    g.wild = true;
    let mut p = gen(g);
    let nmut = g.weighted(&[3, 6, 3, 1]);
    for _ in 0..nmut {
        if p.label == "subproof" && g.chance(1, 3) {
            shorten_subproof(g, &mut p);
        } else {
            mutate_prf(g, &mut p);
        }
    }
    let name = p.label.clone();
    judge(g, if name.contains('+') { "mixed" } else if name.is_empty() { "flat" } else { &name }, &p, nmut, 60, &Default::default())
}
pub fn comp(g: &mut G) -> Case {
    let p = gen(g);
    complete(&p.label.clone(), &p, &Default::default())
}
