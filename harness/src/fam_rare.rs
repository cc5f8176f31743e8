//! RARE rewrite rules: declared rules, their instances, and sound rules used in hostile ways.
use crate::carc::{self, Opts, Verdict};
use crate::eval::{Sig, S};
use crate::g::{hash_str, G};
use crate::libt;
use crate::runner::{Case, Viol};
use crate::sexp::*;
use crate::step::{cl, entails, mutate_clause};
use crate::terms::*;
use carcara::ast::PrimitivePool;

#[derive(Clone, Debug)]
pub struct Param {
    pub name: String,
    pub sort: S,
    /// declared through a type parameter
    pub poly: Option<String>,
    pub list: bool,
}
#[derive(Clone, Debug)]
pub enum Arg {
    One(E),
    Many(Vec<E>),
}
impl Arg {
    pub fn e(&self) -> E {
        match self {
            Arg::One(e) => e.clone(),
            Arg::Many(v) if v.is_empty() => a("rare-list"),
            Arg::Many(v) => ap("rare-list", v.clone()),
        }
    }
    pub fn read(e: &E) -> Arg {
        if e.is("rare-list") {
            Arg::Many(vec![])
        } else if e.is_app("rare-list") {
            Arg::Many(e.args().to_vec())
        } else {
            Arg::One(e.clone())
        }
    }
}
#[derive(Clone, Debug)]
pub struct Rule {
    pub name: String,
    pub params: Vec<Param>,
    /// order of the arguments
    pub args: Vec<usize>,
    pub prems: Vec<E>,
    pub concl: E,
}
fn name_e(n: &str) -> String {
    libt::quote(n)
}
impl Rule {
    pub fn text(&self, g: &mut G) -> String {
        let mut o = format!("(declare-rare-rule {} (", name_e(&self.name));
        let mut seen: Vec<&String> = vec![];
        for p in &self.params {
            if let Some(t) = &p.poly {
                if !seen.contains(&t) {
                    seen.push(t);
                    o.push_str(&format!("({t} Type) "));
                }
            }
            let s = match &p.poly {
                Some(t) => t.clone(),
                None => p.sort.e().to_string(),
            };
            o.push_str(&format!("({} {s}{}) ", name_e(&p.name), if p.list { " :list" } else { "" }));
        }
        o.push_str(")\n");
        let mut attrs = vec![];
        let names: Vec<String> = self.args.iter().map(|i| name_e(&self.params[*i].name)).collect();
        if !(names.is_empty() && g.bool()) {
            attrs.push(format!(":args ({})", names.join(" ")));
        }
        if !(self.prems.is_empty() && g.bool()) {
            let ps: Vec<String> = self.prems.iter().map(|p| p.to_string()).collect();
            attrs.push(format!(":premises ({})", ps.join(" ")));
        }
        attrs.push(format!(":conclusion {}", self.concl));
        if g.chance(1, 5) {
            g.shuffle(&mut attrs);
        }
        o.push_str("  ");
        o.push_str(&attrs.join("\n  "));
        o.push_str(")\n");
        o
    }
}

fn bvars(b: &E) -> Vec<String> {
    b.list().unwrap_or(&[]).iter().filter_map(|x| Some(x.list()?.first()?.to_string())).collect()
}
fn free_atoms(e: &E, out: &mut Vec<String>) {
    match e {
        A(s) => out.push(s.to_string()),
        L(v) => v.iter().for_each(|x| free_atoms(x, out)),
    }
}
fn bound_names(e: &E, out: &mut Vec<String>) {
    if let L(v) = e {
        match e.head() {
            Some("forall" | "exists" | "choice" | "lambda") if v.len() == 3 => out.extend(bvars(&v[1])),
            Some("let") if v.len() == 3 => out.extend(bvars(&v[1])),
            _ => {}
        }
        v.iter().for_each(|x| bound_names(x, out));
    }
}
/// Bound variables of the rule may be renamed in the instance (in a way that is not specified).
fn may_rename(r: &Rule, args: &[E]) -> bool {
    let mut b = vec![];
    bound_names(&r.concl, &mut b);
    r.prems.iter().for_each(|p| bound_names(p, &mut b));
    let mut f = vec![];
    args.iter().for_each(|x| free_vars(x, &mut vec![], &mut f));
    f.extend(r.params.iter().map(|p| name_e(&p.name)));
    b.iter().any(|x| f.contains(x))
}
fn free_vars(e: &E, bound: &mut Vec<String>, out: &mut Vec<String>) {
    match e {
        A(s) => {
            if !bound.iter().any(|b| **b == **s) {
                out.push(s.to_string())
            }
        }
        L(v) => {
            let n0 = bound.len();
            match e.head() {
                Some("forall" | "exists" | "choice" | "lambda") if v.len() == 3 => {
                    bound.extend(bvars(&v[1]));
                    free_vars(&v[2], bound, out);
                    bound.truncate(n0);
                }
                Some("let") if v.len() == 3 => {
                    let bs: Vec<&[E]> = v[1].list().unwrap_or(&[]).iter().filter_map(|b| b.list()).collect();
                    bs.iter().for_each(|b| free_vars(&b[1], bound, out));
                    bs.iter().for_each(|b| bound.push(b[0].to_string()));
                    free_vars(&v[2], bound, out);
                    bound.truncate(n0);
                }
                _ => v.iter().for_each(|x| free_vars(x, bound, out)),
            }
        }
    }
}
/// Instantiation, written independently: simultaneous substitution, then list splicing and the
/// neutral elements of empty `or` and `and` applications.
pub struct Inst<'a> {
    pub map: Vec<(String, Arg)>,
    pub capture: bool,
    /// what becomes of `(or)` and `(and)`
    pub neutral: fn(&str, &[E]) -> Option<E>,
    pub sig: &'a Sig,
}
pub fn neutral_ok(op: &str, args: &[E]) -> Option<E> {
    match (op, args) {
        ("or", []) => Some(a("false")),
        ("and", []) => Some(a("true")),
        ("or", [x]) if x.is("true") => Some(a("true")),
        ("and", [x]) if x.is("false") => Some(a("false")),
        _ => None,
    }
}
fn neutral_swapped(op: &str, args: &[E]) -> Option<E> {
    match (op, args) {
        ("or", []) => Some(a("true")),
        ("and", []) => Some(a("false")),
        _ => neutral_ok(op, args),
    }
}
fn neutral_single(op: &str, args: &[E]) -> Option<E> {
    match (op, args) {
        ("or" | "and" | "+" | "*", [x]) => Some(x.clone()),
        ("+", []) => Some(a("0")),
        ("*", []) => Some(a("1")),
        _ => neutral_ok(op, args),
    }
}
impl<'a> Inst<'a> {
    pub fn go(&mut self, e: &E) -> E {
        let mut bound = vec![];
        let mut r = self.rec(e, &mut bound);
        if r.len() == 1 {
            r.pop().unwrap()
        } else {
            ap("rare-list", r)
        }
    }
    fn rec(&mut self, e: &E, bound: &mut Vec<String>) -> Vec<E> {
        match e {
            A(s) => {
                if bound.iter().any(|b| **b == **s) {
                    return vec![e.clone()];
                }
                let Some((_, arg)) = self.map.iter().find(|(n, _)| **n == **s) else { return vec![e.clone()] };
                let v = match arg {
                    Arg::One(x) => vec![x.clone()],
                    Arg::Many(v) => v.clone(),
                };
                for x in &v {
                    let mut f = vec![];
                    free_vars(x, &mut vec![], &mut f);
                    self.capture |= f.iter().any(|y| bound.contains(y));
                }
                v
            }
            L(v) => {
                let n0 = bound.len();
                match e.head() {
                    Some(q @ ("forall" | "exists" | "choice" | "lambda")) if v.len() == 3 => {
                        for x in bvars(&v[1]) {
                            bound.push(x);
                        }
                        let b = self.one(&v[2], bound);
                        bound.truncate(n0);
                        vec![l(vec![a(q), v[1].clone(), b])]
                    }
                    Some("let") if v.len() == 3 => {
                        let mut bs = vec![];
                        for b in v[1].list().unwrap_or(&[]) {
                            let p = b.list().unwrap();
                            bs.push((p[0].clone(), self.one(&p[1], bound)));
                        }
                        for (x, _) in &bs {
                            bound.push(x.to_string());
                        }
                        let body = self.one(&v[2], bound);
                        bound.truncate(n0);
                        vec![l(vec![a("let"), l(bs.into_iter().map(|(x, y)| l(vec![x, y])).collect()), body])]
                    }
                    _ => {
                        let mut out = vec![v[0].clone()];
                        for x in &v[1..] {
                            out.extend(self.rec(x, bound));
                        }
                        if let Some(op) = v[0].atom() {
                            if let Some(x) = (self.neutral)(op, &out[1..]) {
                                return vec![x];
                            }
                        }
                        vec![l(out)]
                    }
                }
            }
        }
    }
    fn one(&mut self, e: &E, bound: &mut Vec<String>) -> E {
        let mut r = self.rec(e, bound);
        if r.len() == 1 {
            r.pop().unwrap()
        } else {
            ap("rare-list", r)
        }
    }
}

const NARY: [&str; 8] = ["or", "and", "+", "str.++", "bvadd", "bvand", "bvor", "bvmul"];
/// Makes every occurrence of the list parameters an argument of a variadic operator.
fn listify(e: &E, lists: &[(String, S)], in_nary: bool, bound: &mut Vec<String>, g: &mut G) -> E {
    match e {
        A(s) => {
            if bound.iter().any(|b| **b == **s) || in_nary {
                return e.clone();
            }
            match lists.iter().find(|(n, _)| **n == **s) {
                None => e.clone(),
                Some((_, S::Bool)) => ap1(if g.bool() { "or" } else { "and" }, e.clone()),
                Some((_, S::Int)) => ap3("+", a("0"), e.clone(), a("1")),
                Some((_, S::Real)) => ap3("+", a("0.0"), e.clone(), a("1.0")),
                Some((_, S::Str)) => ap3("str.++", a("\"a\""), e.clone(), a("\"\"")),
                Some((_, S::BV(w))) => ap3(if g.bool() { "bvadd" } else { "bvmul" }, bvlit(*w as usize, 1), e.clone(), bvlit(*w as usize, 0)),
                Some(_) => e.clone(),
            }
        }
        L(v) => {
            let n0 = bound.len();
            match e.head() {
                Some(q @ ("forall" | "exists" | "choice" | "lambda")) if v.len() == 3 => {
                    for x in bvars(&v[1]) {
                        bound.push(x);
                    }
                    let b = listify(&v[2], lists, false, bound, g);
                    bound.truncate(n0);
                    l(vec![a(q), v[1].clone(), b])
                }
                Some("let") if v.len() == 3 => {
                    let bs: Vec<E> = v[1]
                        .list()
                        .unwrap_or(&[])
                        .iter()
                        .map(|b| {
                            let p = b.list().unwrap();
                            l(vec![p[0].clone(), listify(&p[1], lists, false, bound, g)])
                        })
                        .collect();
                    for b in &bs {
                        bound.push(b.list().unwrap()[0].to_string());
                    }
                    let body = listify(&v[2], lists, false, bound, g);
                    bound.truncate(n0);
                    l(vec![a("let"), l(bs), body])
                }
                h => {
                    let nary = h.is_some_and(|h| NARY.contains(&h)) && v.len() > 2;
                    // two arguments at least must survive in `+` and `str.++`
                    let keep = h.is_some_and(|h| NARY[2..].contains(&h));
                    let mut out = vec![v[0].clone()];
                    let mut plain = 0;
                    for x in &v[1..] {
                        let is_list = lists.iter().any(|(n, _)| x.is(n) && !bound.contains(n));
                        if !is_list {
                            plain += 1;
                        }
                        out.push(listify(x, lists, nary, bound, g));
                    }
                    if keep && nary && plain < 2 {
                        let unit = if h == Some("str.++") {
                            a("\"b\"")
                        } else if let Some(w) = lists.iter().find_map(|(n, s)| match s {
                            S::BV(w) if v[1..].iter().any(|x| x.is(n)) => Some(*w),
                            _ => None,
                        }) {
                            bvlit(w as usize, 1)
                        } else if lists.iter().any(|(n, s)| *s == S::Real && v[1..].iter().any(|x| x.is(n))) {
                            a("2.0")
                        } else {
                            a("2")
                        };
                        out.push(unit.clone());
                        out.push(unit);
                    }
                    l(out)
                }
            }
        }
    }
}
/// Puts further occurrences of the list parameters into variadic applications.
fn sprinkle(e: &E, lists: &[(String, S)], bound: &mut Vec<String>, g: &mut G) -> E {
    match e {
        A(_) => e.clone(),
        L(v) => {
            let n0 = bound.len();
            match e.head() {
                Some("let") => e.clone(),
                Some("forall" | "exists" | "choice" | "lambda") if v.len() == 3 => {
                    for x in bvars(&v[1]) {
                        bound.push(x);
                    }
                    let b = sprinkle(&v[2], lists, bound, g);
                    bound.truncate(n0);
                    l(vec![v[0].clone(), v[1].clone(), b])
                }
                h => {
                    let mut out: Vec<E> = v.iter().enumerate().map(|(i, x)| if i == 0 { x.clone() } else { sprinkle(x, lists, bound, g) }).collect();
                    if matches!(h, Some("or" | "and")) {
                        for (n, s) in lists {
                            if *s == S::Bool && !bound.contains(n) && g.chance(1, 2) {
                                let i = 1 + g.u(out.len());
                                if g.chance(1, 3) && i < out.len() {
                                    out[i] = a(n);
                                } else {
                                    out.insert(i, a(n));
                                }
                            }
                        }
                    }
                    l(out)
                }
            }
        }
    }
}

pub struct Setup {
    pub sig: Sig,
    pub rules: Vec<Rule>,
    pub k: usize,
    pub args: Vec<Arg>,
    pub text: String,
    pub extra_defs: String,
}
fn cfg(g: &mut G) -> Cfg {
    match g.u(7) {
        0 => Cfg::prop(),
        1 => Cfg::uf(),
        2 => Cfg::quant(),
        5 => Cfg { bv: true, ..Cfg::prop() },
        3 => Cfg { int: true, ..Cfg::uf() },
        4 => Cfg { strs: true, int: true, ..Cfg::prop() },
        _ => Cfg { choice: false, ..Cfg::all() },
    }
}
fn has_single(e: &E) -> bool {
    match e {
        A(_) => false,
        L(v) => (v.len() <= 2 && matches!(e.head(), Some("or" | "and"))) || v.iter().any(has_single),
    }
}
fn gen_rule(g: &mut G, c: &Cfg, sig: Sig, name: String) -> (Sig, Rule) {
    let mut t = TG::new(g, c.clone());
    t.sig = sig;
    let d = t.g.ur(1, 3);
    let np = t.g.weighted(&[6, 3, 1]);
    let concl = if t.g.chance(3, 4) {
        let s = t.any_sort();
        let x = t.term(&s, d);
        let y = t.term(&s, d);
        eq(x, y)
    } else {
        t.boolt(d)
    };
    let prems: Vec<E> = (0..np).map(|_| t.boolt(d.min(2))).collect();
    let sig = t.sig.clone();
    let mut used = vec![];
    free_atoms(&concl, &mut used);
    prems.iter().for_each(|p| free_atoms(p, &mut used));
    let mut cand: Vec<(String, S)> = vec![];
    for (n, args, r) in &sig.funs {
        if args.is_empty() && used.iter().any(|u| **u == **n) && !matches!(r, S::Re) && !cand.iter().any(|c| c.0 == **n) {
            cand.push((n.to_string(), r.clone()));
        }
    }
    g.shuffle(&mut cand);
    let n = g.ur(0, cand.len().min(4));
    cand.truncate(n);
    if g.chance(1, 8) {
        // a parameter that does not occur
        cand.push(("unused".into(), S::Bool));
    }
    let rename = g.chance(1, 3);
    // (the sort of a let variable is not instantiated together with the type parameters)
    let has_let = used.iter().any(|u| u == "let");
    let mut params = vec![];
    let mut ren: Vec<(String, Arg)> = vec![];
    for (i, (n, s)) in cand.iter().enumerate() {
        let list = g.chance(1, 3) && matches!(s, S::Bool | S::Int | S::Real | S::Str | S::BV(_));
        let mut name = if rename && g.chance(2, 3) { ["x1", "y 2", "xs", "ts'", "Z"][i % 5].to_string() } else { n.clone() };
        if params.iter().any(|p: &Param| p.name == name) || (name != *n && used.iter().any(|u| *u == name)) {
            name = n.clone();
        }
        ren.push((n.clone(), Arg::One(a(name_e(&name)))));
        // a type parameter when sorts do not matter to the parser
        let poly = if !has_let && g.chance(1, 4) && matches!(s, S::U(_) | S::Bool) { Some(format!("@T{}", if *s == S::Bool { 0 } else if *s == su() { 1 } else { 2 })) } else { None };
        params.push(Param { name, sort: s.clone(), poly, list });
    }
    let mut i = Inst { map: ren, capture: false, neutral: |_, _| None, sig: &sig };
    let mut concl = i.go(&concl);
    let mut prems: Vec<E> = prems.iter().map(|p| i.go(p)).collect();
    let lists: Vec<(String, S)> = params.iter().filter(|p| p.list).map(|p| (name_e(&p.name), p.sort.clone())).collect();
    if !lists.is_empty() {
        for e in prems.iter_mut().chain([&mut concl]) {
            *e = sprinkle(e, &lists, &mut vec![], g);
            *e = listify(e, &lists, false, &mut vec![], g);
        }
    }
    let mut args: Vec<usize> = (0..params.len()).collect();
    if g.chance(1, 3) {
        g.shuffle(&mut args);
    }
    (sig, Rule { name, params, args, prems, concl })
}
fn gen_args(g: &mut G, c: &Cfg, sig: Sig, r: &Rule) -> (Sig, Vec<Arg>) {
    let mut t = TG::new(g, c.clone());
    t.sig = sig;
    let mut args = vec![];
    for i in &r.args {
        let p = &r.params[*i];
        let one = |t: &mut TG| {
            for _ in 0..4 {
                let d = t.g.u(3);
                let e = t.term(&p.sort, d);
                if !has_single(&e) {
                    return e;
                }
            }
            t.leaf(&p.sort)
        };
        if p.list {
            let n = t.g.weighted(&[3, 3, 3, 2, 1]);
            args.push(Arg::Many((0..n).map(|_| one(&mut t)).collect()));
        } else {
            args.push(Arg::One(one(&mut t)));
        }
    }
    (t.sig, args)
}
fn setup(g: &mut G) -> Setup {
    let c = cfg(g);
    let nr = g.ur(1, 3);
    let mut sig = Sig::default();
    let mut rules = vec![];
    let names = ["r1", "bool-r", "arith rule", "x", "true-elim"];
    for i in 0..nr {
        let name = names[(i + g.u(2)) % names.len()].to_string();
        if rules.iter().any(|r: &Rule| r.name == name) {
            continue;
        }
        let (s, r) = gen_rule(g, &c, sig, name);
        sig = s;
        rules.push(r);
    }
    let k = g.u(rules.len());
    let (sig, args) = gen_args(g, &c, sig, &rules[k]);
    let mut text = String::new();
    for r in &rules {
        if g.chance(1, 6) {
            text.push_str("; a comment (\n");
        }
        text.push_str(&r.text(g));
    }
    // definitions of the problem that have the name of a parameter must not matter
    let mut extra_defs = String::new();
    if g.chance(1, 8) {
        if let Some(p) = rules[k].params.iter().find(|p| sig.get(&p.name).is_none() && p.name != "unused" && p.sort == S::Bool) {
            extra_defs = format!("(define-fun {} () Bool true)\n", name_e(&p.name));
        }
    }
    Setup { sig, rules, k, args, text, extra_defs }
}

#[derive(Clone)]
struct RStep {
    prems: Vec<Vec<E>>,
    name: E,
    args: Vec<E>,
    concl: Vec<E>,
}
impl RStep {
    fn proof(&self) -> String {
        let mut o = String::new();
        for (i, p) in self.prems.iter().enumerate() {
            o.push_str(&format!("(step h{i} {} :rule hole)\n", cl(p)));
        }
        o.push_str(&format!("(step t {} :rule rare_rewrite", cl(&self.concl)));
        if !self.prems.is_empty() {
            let ids: Vec<String> = (0..self.prems.len()).map(|i| format!("h{i}")).collect();
            o.push_str(&format!(" :premises ({})", ids.join(" ")));
        }
        let mut args = vec![self.name.to_string()];
        args.extend(self.args.iter().map(|x| x.to_string()));
        o.push_str(&format!(" :args ({}))\n", args.join(" ")));
        o
    }
}
fn base(s: &Setup) -> (RStep, bool) {
    let r = &s.rules[s.k];
    let map = r.args.iter().zip(&s.args).map(|(i, x)| (name_e(&r.params[*i].name), x.clone())).collect();
    let mut i = Inst { map, capture: false, neutral: neutral_ok, sig: &s.sig };
    let prems = r.prems.iter().map(|p| vec![i.go(p)]).collect();
    let concl = vec![i.go(&r.concl)];
    (RStep { prems, name: libt::str_e(&r.name), args: s.args.iter().map(|x| x.e()).collect(), concl }, i.capture)
}
/// Some(true): must be accepted; Some(false): must not; None: not specified here.
fn expect(s: &Setup, st: &RStep) -> Option<bool> {
    let Some(r) = s.rules.iter().find(|r| libt::str_e(&r.name) == st.name) else { return Some(false) };
    if st.args.len() != r.args.len() || st.prems.len() != r.prems.len() || st.concl.len() != 1 || st.prems.iter().any(|p| p.len() != 1) {
        return Some(false);
    }
    let mut map = vec![];
    let mut unspecified = false;
    for (i, x) in r.args.iter().zip(&st.args) {
        let p = &r.params[*i];
        let arg = Arg::read(x);
        match (&arg, p.list) {
            (Arg::Many(_), false) => return Some(false),
            // a plain term for a list: as good as the list of that term, but nothing says so
            (Arg::One(_), true) => unspecified = true,
            _ => {}
        }
        map.push((name_e(&p.name), arg));
    }
    let mut i = Inst { map, capture: false, neutral: neutral_ok, sig: &s.sig };
    let mut same = true;
    for (p, q) in r.prems.iter().zip(&st.prems) {
        same &= i.go(p) == q[0];
    }
    same &= i.go(&r.concl) == st.concl[0];
    if i.capture {
        // the bound variables are renamed in a way that is not specified; the capturing instance is wrong
        return if same { Some(false) } else { None };
    }
    // an ill-sorted argument
    for (i, x) in r.args.iter().zip(&st.args) {
        let p = &r.params[*i];
        if p.poly.is_none() {
            let items = match Arg::read(x) {
                Arg::One(e) => vec![e],
                Arg::Many(v) => v,
            };
            if items.iter().any(|e| sort_of(e, &s.sig, &[]).is_some_and(|z| z != p.sort)) {
                return Some(false);
            }
        }
    }
    if !same {
        return Some(false);
    }
    if unspecified || may_rename(r, &st.args) {
        None
    } else {
        Some(true)
    }
}
fn mutate_r(g: &mut G, s: &Setup, st: &mut RStep) {
    let pool: Vec<E> = st.concl.iter().chain(st.prems.iter().flatten()).cloned().chain(st.args.iter().flat_map(|x| match Arg::read(x) {
        Arg::One(e) => vec![e],
        Arg::Many(v) => v,
    })).collect();
    match g.weighted(&[6, 3, 3, 2, 4, 1, 2]) {
        0 => {
            if let Some(x) = st.concl.first_mut() {
                *x = mutate(g, x, &s.sig, &pool);
            }
        }
        1 => {
            if !st.prems.is_empty() {
                let i = g.u(st.prems.len());
                if let Some(x) = st.prems[i].first_mut() {
                    *x = mutate(g, x, &s.sig, &pool);
                }
            }
        }
        2 => {
            // one item of one list
            let ls: Vec<usize> = (0..st.args.len()).filter(|i| matches!(Arg::read(&st.args[*i]), Arg::Many(_))).collect();
            if !ls.is_empty() {
                let i = ls[g.u(ls.len())];
                let Arg::Many(mut v) = Arg::read(&st.args[i]) else { return };
                match g.u(4) {
                    0 if !v.is_empty() => {
                        let k = g.u(v.len());
                        v.remove(k);
                    }
                    1 if v.len() > 1 => {
                        let k = g.u(v.len() - 1);
                        v.swap(k, k + 1);
                    }
                    2 if !v.is_empty() => {
                        let k = g.u(v.len());
                        v[k] = mutate(g, &v[k], &s.sig, &pool);
                    }
                    _ => {
                        if let Some(x) = v.first().cloned() {
                            v.push(x)
                        } else {
                            v.push(a("true"))
                        }
                    }
                }
                st.args[i] = Arg::Many(v).e();
            }
        }
        3 => {
            if !st.args.is_empty() {
                let i = g.u(st.args.len());
                match g.u(4) {
                    0 => {
                        st.args.remove(i);
                    }
                    1 => {
                        let x = st.args[i].clone();
                        st.args.push(x);
                    }
                    _ => {
                        let j = g.u(st.args.len());
                        st.args.swap(i, j);
                    }
                }
            }
        }
        4 => {
            // lists for terms and terms for lists
            if !st.args.is_empty() {
                let i = g.u(st.args.len());
                st.args[i] = match Arg::read(&st.args[i]) {
                    Arg::One(e) => {
                        let n = g.u(3);
                        Arg::Many(vec![e; n]).e()
                    }
                    Arg::Many(v) if !v.is_empty() => v[g.u(v.len())].clone(),
                    Arg::Many(_) => a("true"),
                };
            }
        }
        5 => {
            st.name = match g.u(3) {
                0 => a("\"no-such-rule\""),
                1 => libt::str_e(&s.rules[g.u(s.rules.len())].name),
                _ => a(s.rules[s.k].name.split(' ').next().unwrap()),
            };
        }
        _ => match g.u(3) {
            0 => mutate_clause(g, &mut st.concl, &pool),
            1 => {
                if !st.prems.is_empty() {
                    let i = g.u(st.prems.len());
                    mutate_clause(g, &mut st.prems[i], &pool);
                }
            }
            _ => {
                if !st.prems.is_empty() {
                    let i = g.u(st.prems.len());
                    match g.u(3) {
                        0 => {
                            st.prems.remove(i);
                        }
                        1 => {
                            let x = st.prems[i].clone();
                            st.prems.push(x);
                        }
                        _ => {
                            let j = g.u(st.prems.len());
                            st.prems.swap(i, j);
                        }
                    }
                }
            }
        },
    }
}
/// both texts denote the same terms
fn same_terms(sig: &Sig, x: &RStep, y: &RStep) -> bool {
    let f = |s: &RStep| -> Vec<String> { s.concl.iter().chain(s.prems.iter().flatten()).map(|e| e.to_string()).collect() };
    let (xs, ys) = (f(x), f(y));
    if xs.len() != ys.len() {
        return false;
    }
    let n = xs.len();
    let mut pool = PrimitivePool::new();
    let Ok(ts) = libt::parse_terms(&mut pool, sig, &xs.into_iter().chain(ys).collect::<Vec<_>>()) else { return false };
    (0..n).all(|i| ts[i] == ts[n + i])
}
pub fn instance(g: &mut G) -> Case {
    let mut c = Case::default();
    let s = setup(g);
    let (mut st, capture) = base(&s);
    let nmut = if g.chance(2, 5) { 0 } else { g.ur(1, 2) };
    for _ in 0..nmut {
        mutate_r(g, &s, &mut st);
    }
    let pb = format!("{}{}", s.sig.prelude(), s.extra_defs);
    let pf = st.proof();
    c.key = hash_str(&format!("{}{}", s.text, pf));
    let want = expect(&s, &st);
    let v = carc::check_r(&pb, &pf, Some(&s.text), &Opts::default());
    let poly = s.rules.iter().any(|r| r.params.iter().any(|p| p.poly.is_some()));
    let r = &s.rules[s.k];
    let lists = r.params.iter().any(|p| p.list);
    c.label(format!(
        "{}{}{}{} {}",
        if nmut > 0 { "mutant " } else { "instance " },
        if lists { "list " } else { "" },
        if poly { "poly " } else { "" },
        if capture { "capture " } else { "" },
        match want {
            Some(true) => "wanted",
            Some(false) => "unwanted",
            None => "free",
        }
    ));
    c.label(v.class());
    let files = vec![("problem.smt2".to_string(), pb), ("proof.alethe".to_string(), pf.clone()), ("rules.rare".to_string(), s.text.clone())];
    match (&v, want) {
        (Verdict::ParseErr(m), _) => {
            if nmut == 0 && !poly && !capture {
                c.viol = Some(Viol { sig: "does not parse".into(), msg: m.clone(), files });
            }
            return c;
        }
        (Verdict::Panic(m), _) => {
            c.viol = Some(Viol { sig: format!("panic {}", m.split_whitespace().next().unwrap_or("")), msg: m.clone(), files });
            return c;
        }
        (_, None) => return c,
        (v, Some(true)) if !v.steps_accepted() => {
            c.viol = Some(Viol { sig: "rejects an instance".into(), msg: format!("{v:?}"), files });
        }
        (v, Some(false)) if v.steps_accepted() => {
            // another spelling of the same terms?
            let (b, _) = {
                let map: Vec<(String, Arg)> = r.args.iter().zip(&st.args).map(|(i, x)| (name_e(&r.params[*i].name), Arg::read(x))).collect();
                let mut i = Inst { map, capture: false, neutral: neutral_ok, sig: &s.sig };
                let prems = r.prems.iter().map(|p| vec![i.go(p)]).collect();
                let concl = vec![i.go(&r.concl)];
                (RStep { prems, name: st.name.clone(), args: st.args.clone(), concl }, i.capture)
            };
            if st.args.len() == r.args.len() && st.concl.len() == 1 && b.name == libt::str_e(&r.name) && same_terms(&s.sig, &b, &st) {
                c.label("respelled");
                return c;
            }
            c.viol = Some(Viol { sig: "accepts a non-instance".into(), msg: format!("{v:?}"), files });
        }
        _ => {}
    }
    c.nontrivial = true;
    c.sample = format!("{}{}", s.text, pf);
    c
}

/// Rules that are true: parameters, premises, conclusion. `xs`/`ys`/`zs` are lists.
const SOUND: &[(&str, &[&str], &str)] = &[
    ("B", &[], "(= (or xs true ys) true)"),
    ("B", &[], "(= (or xs false ys) (or xs ys))"),
    ("B", &[], "(= (and xs false ys) false)"),
    ("B", &[], "(= (and xs true ys) (and xs ys))"),
    ("B", &[], "(= (or xs (or x ys) zs) (or xs x ys zs))"),
    ("B", &[], "(= (and xs (and x ys) zs) (and xs x ys zs))"),
    ("B", &[], "(= (or xs x ys x zs) (or xs x ys zs))"),
    ("B", &[], "(= (and xs x ys (not x) zs) false)"),
    ("B", &[], "(= (or xs x ys (not x) zs) true)"),
    ("B", &[], "(= (not (and x y zs)) (or (not x) (not (and y zs))))"),
    ("B", &[], "(= (not (or x y zs)) (and (not x) (not (or y zs))))"),
    ("B", &[], "(= (not (or x zs)) (and (not x) (not (or zs))))"),
    ("B", &[], "(= (not (and x zs)) (or (not x) (not (and zs))))"),
    ("B", &[], "(= (=> x y) (or (not x) y))"),
    ("B", &[], "(= (or xs ys) (or ys xs))"),
    ("B", &[], "(= (and xs ys) (and ys xs))"),
    ("B", &[], "(= (and (or xs) (or ys)) (and (or ys) (or xs)))"),
    ("B", &["x"], "(= (and xs x ys) (and xs ys))"),
    ("B", &["(or xs)"], "(= (or xs ys) true)"),
    ("B", &["(and xs)"], "(= (and xs ys) (and ys))"),
    ("B", &["(= x false)"], "(= (or xs x ys) (or xs ys))"),
    ("B", &[], "(= (xor x x) false)"),
    ("B", &[], "(= (ite x y y) y)"),
    ("B", &[], "(= (not (ite x y z)) (ite x (not y) (not z)))"),
    ("I", &[], "(= (+ xs 0 ys 1 2) (+ xs ys 1 2))"),
    ("I", &[], "(= (- x) (* (- 1) x))"),
    ("I", &[], "(= (- x y) (+ x (* (- 1) y)))"),
    ("I", &[], "(= (+ xs x ys 0 0) (+ x xs ys 0 0))"),
    ("I", &["(= x 0)"], "(= (+ xs x 1 1) (+ xs 1 1))"),
    ("I", &[], "(= (>= x y) (not (< x y)))"),
    ("I", &["(> y 0)"], "(= (> (+ x y) x) true)"),
    ("T", &[], "(= (= x x) true)"),
    ("T", &[], "(= (= x y) (= y x))"),
    ("T", &[], "(= (distinct x y) (not (= x y)))"),
    ("T", &[], "(= (ite true x y) x)"),
    ("T", &["(= x y)"], "(= (ite p x y) y)"),
    ("P", &[], "(= (- x) (* (- 1) x))"),
    ("P", &[], "(= (or x y) (or y x))"),
    ("P", &[], "(= (=> x false) (not x))"),
    ("P", &[], "(= (= x y) (= y x))"),
    ("P", &[], "(= (not (and x y)) (or (not x) (not y)))"),
    ("P", &[], "(= (- x y) (+ x (- y)))"),
    ("S", &[], "(= (str.++ xs \"\" ys \"a\" \"\") (str.++ xs ys \"a\" \"\"))"),
    ("S", &[], "(= (str.len (str.++ x y)) (+ (str.len x) (str.len y)))"),
    ("S", &[], "(= (str.++ xs \"a\" \"b\" ys) (str.++ xs \"ab\" ys))"),
];
pub fn sound(g: &mut G) -> Case {
    let mut c = Case::default();
    let (kind, ps, concl) = SOUND[g.u(SOUND.len())];
    let prems: Vec<E> = ps.iter().map(|p| parse(p)).collect();
    let concl = parse(concl);
    let mut used = vec![];
    free_atoms(&concl, &mut used);
    prems.iter().for_each(|p| free_atoms(p, &mut used));
    let cfg = match kind {
        "I" => Cfg { int: true, ..Cfg::prop() },
        "T" => Cfg::uf(),
        "P" => Cfg { int: true, ..Cfg::uf() },
        "S" => Cfg { strs: true, ..Cfg::prop() },
        _ => Cfg::prop(),
    };
    let base_sort = match kind {
        "I" => S::Int,
        "S" => S::Str,
        "T" => su(),
        "P" => {
            if concl.contains_atom("-") {
                S::Int
            } else {
                S::Bool
            }
        }
        _ => S::Bool,
    };
    let mut params = vec![];
    let polylists = g.bool();
    for n in ["x", "y", "z", "xs", "ys", "zs"] {
        if used.iter().any(|u| u == n) {
            let list = n.len() == 2;
            let poly = matches!(kind, "T" | "P") || (list && polylists);
            params.push(Param { name: n.into(), sort: base_sort.clone(), poly: poly.then(|| "@T0".to_string()), list });
        }
    }
    if used.iter().any(|u| u == "p") {
        params.push(Param { name: "p".into(), sort: S::Bool, poly: None, list: false });
    }
    let r = Rule { name: "r".into(), args: (0..params.len()).collect(), params, prems, concl };
    let (sig, mut args) = gen_args(g, &cfg, Sig::default(), &r);
    // hostile arguments: lists for terms, terms for lists
    for x in args.iter_mut() {
        if g.chance(1, 6) {
            *x = match x.clone() {
                Arg::One(e) => {
                    let mut t = TG::new(g, cfg.clone());
                    t.sig = sig.clone();
                    let mut v = vec![e];
                    if t.g.bool() {
                        v.push(t.cst_n(&base_sort, 0));
                    }
                    if t.g.chance(1, 4) {
                        v.clear();
                    }
                    Arg::Many(v)
                }
                Arg::Many(v) if !v.is_empty() => Arg::One(v[0].clone()),
                y => y,
            }
        }
    }
    let mut sig = sig;
    if matches!(base_sort, S::Bool | S::Int | S::Str) || kind == "T" {
        let n = match base_sort {
            S::Bool => "p0",
            S::Int => "i0",
            S::Str => "s0",
            _ => "a0",
        };
        if kind == "T" {
            sig.sort("U");
        }
        if sig.get(n).is_none() {
            sig.cst(n, base_sort.clone());
        }
    }
    let neutral = [neutral_ok as fn(&str, &[E]) -> Option<E>, neutral_swapped, neutral_single][g.weighted(&[3, 1, 1])];
    let map = r.args.iter().zip(&args).map(|(i, x)| (r.params[*i].name.clone(), x.clone())).collect();
    let mut i = Inst { map, capture: false, neutral, sig: &sig };
    let prems: Vec<Vec<E>> = r.prems.iter().map(|p| vec![i.go(p)]).collect();
    let concl = vec![i.go(&r.concl)];
    let s = Setup { text: r.text(g), rules: vec![r], k: 0, args: args.clone(), sig: sig.clone(), extra_defs: String::new() };
    let mut st = RStep { prems, name: a("\"r\""), args: args.iter().map(|x| x.e()).collect(), concl };
    if g.chance(1, 4) && !sig.funs.is_empty() {
        mutate_r(g, &s, &mut st);
    }
    let pb = sig.prelude();
    let pf = st.proof();
    c.key = hash_str(&format!("{}{}", s.text, pf));
    let v = carc::check_r(&pb, &pf, Some(&s.text), &Opts::default());
    c.label(format!("{kind}:{}", v.class()));
    let files = vec![("problem.smt2".to_string(), pb), ("proof.alethe".to_string(), pf.clone()), ("rules.rare".to_string(), s.text.clone())];
    if let Verdict::Panic(m) = &v {
        c.viol = Some(Viol { sig: format!("panic {}", m.split_whitespace().next().unwrap_or("")), msg: m.clone(), files });
        return c;
    }
    if let Verdict::ParseErr(_) = v {
        return c;
    }
    c.nontrivial = true;
    if !v.steps_accepted() {
        return c;
    }
    c.sample = format!("{}{}", s.text, pf);
    let seed = g.seed();
    let res = entails(&sig, &st.prems, &st.concl, 24, seed);
    if res.decided == 0 {
        c.label(format!("{kind}:undecided"));
    }
    if let Some(m) = res.counter {
        c.viol = Some(Viol { sig: "unsound instance of a sound rule".into(), msg: format!("false in a model: {m}"), files });
    }
    c
}
/// problem, proof and rules
pub fn texts(g: &mut G) -> (String, String, String) {
    let s = setup(g);
    let (mut st, _) = base(&s);
    for _ in 0..g.u(4) {
        mutate_r(g, &s, &mut st);
    }
    (format!("{}{}", s.sig.prelude(), s.extra_defs), st.proof(), s.text)
}
