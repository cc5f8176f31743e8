//! Bridge between text, the library's terms and the harness's S-expressions.
use crate::eval::Sig;
use crate::sexp::*;
use carcara::ast::{Binder, Constant, PrimitivePool, Problem, Rc, Sort, Term};
use carcara::parser::{Config, Parser};

pub fn config() -> Config {
    Config { apply_function_defs: false, expand_lets: false, allow_int_real_subtyping: false, strict: false, parse_hole_args: false }
}

/// Parses terms in the signature's problem, all in one pool.
pub fn parse_terms(pool: &mut PrimitivePool, sig: &Sig, terms: &[String]) -> Result<Vec<Rc<Term>>, String> {
    parse_terms_in(pool, &sig.prelude(), config(), terms).map(|x| x.1)
}
pub fn parse_terms_in(pool: &mut PrimitivePool, prelude: &str, cfg: Config, terms: &[String]) -> Result<(Problem, Vec<Rc<Term>>), String> {
    let bufs: Vec<&[u8]> = terms.iter().map(|t| t.as_bytes()).collect();
    let mut p = Parser::new(pool, cfg, prelude.as_bytes()).map_err(|e| e.to_string())?;
    let pb = p.parse_problem().map_err(|e| e.to_string())?;
    let mut out = vec![];
    for b in bufs {
        p.reset(b).map_err(|e| e.to_string())?;
        out.push(p.parse_term().map_err(|e| e.to_string())?);
    }
    Ok((pb, out))
}

pub fn sort_e(s: &Sort) -> E {
    let rec = |t: &Rc<Term>| to_e(t);
    match s {
        Sort::Bool => a("Bool"),
        Sort::Int => a("Int"),
        Sort::Real => a("Real"),
        Sort::String => a("String"),
        Sort::RegLan => a("RegLan"),
        Sort::RareList => a("RareList"),
        Sort::Type => a("Type"),
        Sort::BitVec(w) => ix_atom("BitVec", vec![a(w.to_string())]),
        Sort::Array(x, y) => ap2("Array", rec(x), rec(y)),
        Sort::Var(v) => a(v),
        Sort::Atom(n, args) if args.is_empty() => a(quote(n)),
        Sort::Atom(n, args) => ap(&quote(n), args.iter().map(rec).collect()),
        Sort::Function(args) => ap("->", args.iter().map(rec).collect()),
        Sort::ParamSort(v, h) => ap("@param", v.iter().map(rec).chain([rec(h)]).collect()),
    }
}
pub fn ix_atom(op: &str, idx: Vec<E>) -> E {
    let mut v = vec![a("_"), a(op)];
    v.extend(idx);
    L(v)
}
fn simple(c: char) -> bool {
    c.is_ascii_alphanumeric() || "+-/*=%?!.$_~&^<>@".contains(c)
}
pub fn quote(s: &str) -> String {
    let first_digit = s.chars().next().map_or(true, |c| c.is_ascii_digit());
    if !first_digit && s.chars().all(|c| simple(c) || c == '\'') {
        s.to_string()
    } else {
        format!("|{s}|")
    }
}
pub fn str_e(s: &str) -> E {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\"\""),
            '\\' => o.push_str("\\u{5c}"),
            ' '..='~' => o.push(c),
            c => o.push_str(&format!("\\u{{{:x}}}", c as u32)),
        }
    }
    o.push('"');
    a(o)
}
pub fn const_e(c: &Constant) -> E {
    match c {
        Constant::Integer(i) if i.is_negative() => ap1("-", a(i.clone().abs().to_string())),
        Constant::Integer(i) => a(i.to_string()),
        Constant::Real(r) => {
            let n = r.numer().clone().abs();
            let t = if r.is_integer() { a(format!("{n}.0")) } else { ap2("/", a(format!("{n}.0")), a(format!("{}.0", r.denom()))) };
            if r.is_negative() { ap1("-", t) } else { t }
        }
        Constant::String(s) => str_e(s),
        Constant::BitVec(v, w) => {
            let mut o = String::from("#b");
            for i in (0..*w).rev() {
                o.push(if v.get_bit(i as u32) { '1' } else { '0' });
            }
            a(o)
        }
    }
}
pub fn to_e(t: &Rc<Term>) -> E {
    to_e_with(t, const_e)
}
/// Like `to_e`, with one token for every constant, so that it parses back to the same term.
pub fn to_raw(t: &Rc<Term>) -> E {
    to_e_with(t, |c| match c {
        Constant::Integer(i) => a(i.to_string()),
        Constant::Real(r) if r.is_integer() => a(format!("{}.0", r.numer())),
        Constant::Real(r) => a(format!("{}/{}", r.numer(), r.denom())),
        c => const_e(c),
    })
}
fn to_e_with(t: &Rc<Term>, k: fn(&Constant) -> E) -> E {
    match t.as_ref() {
        Term::Const(c) => k(c),
        Term::Var(n, _) => a(quote(n)),
        Term::Sort(s) => sort_e(s),
        Term::App(f, args) => {
            let mut v = vec![to_e_with(f, k)];
            v.extend(args.iter().map(|x| to_e_with(x, k)));
            L(v)
        }
        Term::Op(op, args) if args.is_empty() => a(op.to_string()),
        Term::Op(op, args) => ap(&op.to_string(), args.iter().map(|x| to_e_with(x, k)).collect()),
        Term::Binder(b, bs, body) => {
            let name = match b {
                Binder::Forall => "forall",
                Binder::Exists => "exists",
                Binder::Choice => "choice",
                Binder::Lambda => "lambda",
            };
            L(vec![a(name), bl(&bs.0, k), to_e_with(body, k)])
        }
        Term::Let(bs, body) => L(vec![a("let"), bl(&bs.0, k), to_e_with(body, k)]),
        Term::ParamOp { op, op_args, args } => {
            if op.to_string() == "const" {
                return L(vec![L(vec![a("as"), a("const"), to_e_with(&op_args[0], k)]), to_e_with(&args[0], k)]);
            }
            let h = ix_atom(&op.to_string(), op_args.iter().map(|x| to_e_with(x, k)).collect());
            if args.is_empty() {
                h
            } else {
                let mut v = vec![h];
                v.extend(args.iter().map(|x| to_e_with(x, k)));
                L(v)
            }
        }
    }
}
fn bl(bs: &[(String, Rc<Term>)], k: fn(&Constant) -> E) -> E {
    L(bs.iter().map(|(n, t)| L(vec![a(quote(n)), to_e_with(t, k)])).collect())
}

/// alpha-equality of S-expression terms
pub fn alpha_eq(x: &E, y: &E) -> bool {
    fn go(x: &E, y: &E, bx: &mut Vec<String>, by: &mut Vec<String>) -> bool {
        match (x, y) {
            (A(s), A(t)) => {
                let i = bx.iter().rposition(|n| **n == **s);
                let j = by.iter().rposition(|n| **n == **t);
                match (i, j) {
                    (None, None) => s == t,
                    (i, j) => i == j,
                }
            }
            (L(v), L(w)) => {
                if v.len() != w.len() {
                    return false;
                }
                match (x.head(), y.head()) {
                    (Some(h @ ("forall" | "exists" | "choice" | "lambda" | "let")), Some(h2)) if v.len() == 3 && v[1].list().is_some() => {
                        if h != h2 {
                            return false;
                        }
                        let (Some(b1), Some(b2)) = (v[1].list(), w[1].list()) else { return false };
                        if b1.len() != b2.len() {
                            return false;
                        }
                        for (p, q) in b1.iter().zip(b2) {
                            let (Some(p), Some(q)) = (p.list(), q.list()) else { return false };
                            if p.len() != 2 || q.len() != 2 || !go(&p[1], &q[1], bx, by) {
                                return false;
                            }
                        }
                        let k = bx.len();
                        for (p, q) in b1.iter().zip(b2) {
                            bx.push(p.list().unwrap()[0].to_string());
                            by.push(q.list().unwrap()[0].to_string());
                        }
                        let r = go(&v[2], &w[2], bx, by);
                        bx.truncate(k);
                        by.truncate(k);
                        r
                    }
                    _ => v.iter().zip(w).all(|(p, q)| go(p, q, bx, by)),
                }
            }
            _ => false,
        }
    }
    go(x, y, &mut vec![], &mut vec![])
}
