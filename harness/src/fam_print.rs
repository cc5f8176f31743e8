//! C15: printing and parsing round trips.
use crate::carc::guard;
use crate::g::{hash_str, G};
use crate::runner::{Case, Viol};
use crate::wild;
use carcara::ast::{self, AnchorArg, PrimitivePool, Problem, Proof, ProofCommand};
use carcara::parser::{Config, Parser};

pub fn parse_in(pool: &mut PrimitivePool, cfg: Config, problem: &str, proof: &str) -> Result<(Problem, Proof), String> {
    let mut p = Parser::new(pool, cfg, problem.as_bytes()).map_err(|e| e.to_string())?;
    let pb = p.parse_problem().map_err(|e| format!("problem: {e}"))?;
    p.reset(proof.as_bytes()).map_err(|e| e.to_string())?;
    let pf = p.parse_proof().map_err(|e| format!("proof: {e}"))?;
    Ok((pb, pf))
}

pub fn diff(x: &[ProofCommand], y: &[ProofCommand]) -> Option<String> {
    if x.len() != y.len() {
        return Some(format!("{} and {} commands", x.len(), y.len()));
    }
    for (c, d) in x.iter().zip(y) {
        match (c, d) {
            (ProofCommand::Assume { id: i, term: t }, ProofCommand::Assume { id: j, term: u }) => {
                if i != j || t != u {
                    return Some(format!("assume {i}: {t} is not {j}: {u}"));
                }
            }
            (ProofCommand::Step(s), ProofCommand::Step(t)) => {
                let f = |a: bool, w: &str| if a { None } else { Some(format!("{w} of step {}: {s:?} is not {t:?}", s.id)) };
                if let Some(r) = f(s.id == t.id, "id")
                    .or(f(s.clause == t.clause, "clause"))
                    .or(f(s.rule == t.rule, "rule"))
                    .or(f(s.premises == t.premises, "premises"))
                    .or(f(s.args == t.args, "args"))
                    .or(f(s.discharge == t.discharge, "discharge"))
                {
                    return Some(r);
                }
            }
            (ProofCommand::Subproof(s), ProofCommand::Subproof(t)) => {
                if s.args != t.args {
                    return Some(format!("args of anchor {}: {:?} is not {:?}", c.id(), s.args, t.args));
                }
                if let Some(r) = diff(&s.commands, &t.commands) {
                    return Some(r);
                }
            }
            _ => return Some(format!("{} and {} are different kinds of command", c.id(), d.id())),
        }
    }
    None
}
#[allow(dead_code)]
fn args_eq(x: &[AnchorArg], y: &[AnchorArg]) -> bool {
    x == y
}

fn viol(sig: &str, msg: String, problem: &str, proof: &str, extra: &[(&str, &str)]) -> Option<Viol> {
    let mut files = vec![("problem.smt2".to_string(), problem.to_string()), ("proof.alethe".to_string(), proof.to_string())];
    for (n, t) in extra {
        files.push((n.to_string(), t.to_string()));
    }
    Some(Viol { sig: sig.into(), msg, files })
}
fn kind(m: &str) -> String {
    // the error without the specifics
    m.split(['\'', '`', '|', '(']).next().unwrap_or("").replace(|c: char| c.is_ascii_digit(), "").trim().to_string()
}
/// Numbers the way SMT-LIB writes them.
fn numbers(t: &str) -> String {
    fn go(e: &crate::sexp::E) -> crate::sexp::E {
        use crate::sexp::*;
        match e {
            L(v) => L(v.iter().map(go).collect()),
            A(s) => {
                let (neg, r) = s.strip_prefix('-').map_or((false, &**s), |r| (true, r));
                if !r.starts_with(|c: char| c.is_ascii_digit()) {
                    return e.clone();
                }
                let x = match r.split_once('/') {
                    Some((n, d)) if d == "1" => a(format!("{n}.0")),
                    Some((n, d)) => ap2("/", a(format!("{n}.0")), a(format!("{d}.0"))),
                    None => a(r),
                };
                if neg {
                    ap("-", vec![x])
                } else {
                    x
                }
            }
        }
    }
    match crate::sexp::parse_all(t) {
        Ok(v) => v.iter().map(|e| go(e).to_string() + "\n").collect(),
        Err(_) => t.to_string(),
    }
}

/// parse, print, parse: the same proof
pub fn roundtrip(g: &mut G) -> Case {
    let (problem, proof) = wild::texts(g);
    let cfg = Config { expand_lets: g.chance(1, 5), apply_function_defs: g.chance(1, 4), allow_int_real_subtyping: g.chance(1, 6), strict: false, parse_hole_args: g.chance(3, 4) };
    let sharing = g.bool();
    let again = g.chance(1, 3);
    let mut c = Case { key: hash_str(&format!("{problem}{proof}{cfg:?}{sharing}")), sample: proof.chars().take(400).collect(), ..Case::default() };
    let mut pool = PrimitivePool::new();
    let (pb, pf) = match guard(|| parse_in(&mut pool, cfg, &problem, &proof)) {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => {
            c.label("does not parse");
            if std::env::var("VERIF_SHOW").is_ok() {
                eprintln!("{e}\n{problem}\n{proof}\n");
            }
            return c;
        }
        Err(p) => {
            c.label("panic in parser");
            c.viol = viol("panic", format!("the parser panics: {p:?}"), &problem, &proof, &[]);
            return c;
        }
    };
    c.nontrivial = true;
    c.label(if sharing { "sharing" } else { "plain" });
    let mut buf = vec![];
    if let Err(p) = guard(|| ast::write_proof_to_dest(&mut pool, &pb.prelude, &pf, &mut buf, sharing).unwrap()) {
        c.viol = viol(&format!("print panics {}", p.sig()), format!("printing panics: {p:?}"), &problem, &proof, &[]);
        return c;
    }
    let text = String::from_utf8(buf).unwrap();
    if text.contains(":named") {
        c.label("named terms printed");
    }
    let fs = [("printed.alethe", text.as_str())];
    // the printer writes expanded definitions; lets that the printer wrote are kept as they are
    let cfg2 = cfg;
    match guard(|| parse_in(&mut pool, cfg2, &problem, &text)) {
        Err(p) => c.viol = viol("panic on printed", format!("parsing the printed proof panics: {p:?}"), &problem, &proof, &fs),
        Ok(Err(e)) => c.viol = viol(&format!("reparse {}", kind(&e)), format!("the printed proof does not parse: {e}"), &problem, &proof, &fs),
        Ok(Ok((_, pf2))) => {
            if let Some(d) = diff(&pf.commands, &pf2.commands) {
                c.viol = viol("reparse differs", format!("the printed proof is a different one: {d}"), &problem, &proof, &fs);
            } else if pf.constant_definitions != pf2.constant_definitions {
                c.viol = viol("definitions differ", format!("{:?} is not {:?}", pf.constant_definitions, pf2.constant_definitions), &problem, &proof, &fs);
            } else if again && !sharing {
                let mut buf = vec![];
                ast::write_proof_to_dest(&mut pool, &pb.prelude, &pf2, &mut buf, false).unwrap();
                let t2 = String::from_utf8(buf).unwrap();
                if t2 != text {
                    c.viol = viol("not idempotent", format!("printing again gives a different text:\n{t2}"), &problem, &proof, &fs);
                }
            }
        }
    }
    c
}

/// prelude and assertions: the same declarations and assertions
pub fn problem(g: &mut G) -> Case {
    let (problem, proof) = wild::texts(g);
    let cfg = Config { expand_lets: g.chance(1, 5), apply_function_defs: true, allow_int_real_subtyping: false, strict: false, parse_hole_args: false };
    let sharing = g.bool();
    let mut c = Case { key: hash_str(&format!("{problem}{cfg:?}{sharing}")), sample: problem.chars().take(400).collect(), ..Case::default() };
    let mut pool = PrimitivePool::new();
    let pb = match guard(|| parse_in(&mut pool, cfg, &problem, "")) {
        Ok(Ok(x)) => x.0,
        _ => {
            c.label("does not parse");
            return c;
        }
    };
    c.nontrivial = true;
    let asserts: Vec<_> = pb.premises.iter().cloned().collect();
    let r = guard(|| {
        let mut buf = vec![];
        ast::write_asserts(&mut pool, &pb.prelude, &mut buf, &asserts, sharing).unwrap();
        format!("{}{}", pb.prelude, String::from_utf8(buf).unwrap())
    });
    let text = match r {
        Ok(t) => t,
        Err(p) => {
            c.viol = viol(&format!("print panics {}", p.sig()), format!("printing the problem panics: {p:?}"), &problem, &proof, &[]);
            return c;
        }
    };
    let fs = [("printed.smt2", text.as_str())];
    match guard(|| parse_in(&mut pool, cfg, &text, "")) {
        Err(p) => c.viol = viol("panic on printed", format!("parsing the printed problem panics: {p:?}"), &problem, "", &fs),
        Ok(Err(e)) => c.viol = viol(&format!("reparse {}", kind(&e)), format!("the printed problem does not parse: {e}"), &problem, "", &fs),
        Ok(Ok((pb2, _))) => {
            let (x, y) = (format!("{}", pb.prelude), format!("{}", pb2.prelude));
            if x != y {
                c.viol = viol("prelude differs", format!("the printed prelude is read as {y}"), &problem, "", &fs);
            } else if let Some((t, u)) = pb.premises.iter().zip(&pb2.premises).find(|(t, u)| t != u && numbers(&t.to_string()) != numbers(&u.to_string())) {
                c.viol = viol("assert differs", format!("assertion {t} is read as {u}"), &problem, "", &fs);
            } else if pb.premises.len() != pb2.premises.len() {
                c.viol = viol("assert differs", format!("{} assertions instead of {}", pb2.premises.len(), pb.premises.len()), &problem, "", &fs);
            }
        }
    }
    c
}
