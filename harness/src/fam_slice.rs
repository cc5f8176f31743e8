//! C17: slices against a reference slicer written from docs/src/slicing.md.
use crate::carc::{self, guard, Opts, Verdict};
use crate::fam_print::parse_in;
use crate::g::{hash_str, G};
use crate::prf::{self, Cmd, Prf};
use crate::runner::{Case, Viol};
use crate::sexp::*;
use crate::{whole, wild};
use carcara::ast::{self, PrimitivePool, ProofNode, ProofNodeForest};
use carcara::parser::Config;
use std::collections::{HashMap, HashSet, VecDeque};

/// A command of the original; a subproof and its closing step are one node.
struct Node {
    id: String,
    assume: bool,
    prems: Vec<usize>,
    discharge: Vec<usize>,
    prev: Option<usize>,
    /// enclosing subproofs, outermost first
    encl: Vec<usize>,
    sub: bool,
}
struct Index {
    nodes: Vec<Node>,
    leading: HashMap<usize, Vec<usize>>,
}
fn index(cmds: &[Cmd]) -> Result<Index, String> {
    fn go(cmds: &[Cmd], encl: &[usize], closing: Option<usize>, scopes: &mut Vec<HashMap<String, usize>>, ix: &mut Index) -> Result<(), String> {
        let mut prev = None;
        let mut lead = true;
        for (i, c) in cmds.iter().enumerate() {
            let last = i + 1 == cmds.len();
            let look = |scopes: &[HashMap<String, usize>], s: &String| -> Result<usize, String> { scopes.iter().rev().find_map(|m| m.get(s)).copied().ok_or(format!("no {s}")) };
            match c {
                Cmd::Assume { id, .. } => {
                    let n = ix.nodes.len();
                    ix.nodes.push(Node { id: id.clone(), assume: true, prems: vec![], discharge: vec![], prev: None, encl: encl.to_vec(), sub: false });
                    scopes.last_mut().unwrap().insert(id.clone(), n);
                    if let (true, Some(s)) = (lead, closing) {
                        ix.leading.entry(s).or_default().push(n);
                    }
                    prev = Some(n);
                }
                Cmd::Step { id, prems, discharge, .. } => {
                    lead = false;
                    let ps = prems.iter().map(|p| look(scopes, p)).collect::<Result<Vec<_>, _>>()?;
                    let ds = discharge.iter().map(|p| look(scopes, p)).collect::<Result<Vec<_>, _>>()?;
                    if let (true, Some(s)) = (last, closing) {
                        ix.nodes[s].prems = ps;
                        ix.nodes[s].discharge = ds;
                        ix.nodes[s].prev = prev;
                        continue;
                    }
                    let n = ix.nodes.len();
                    ix.nodes.push(Node { id: id.clone(), assume: false, prems: ps, discharge: ds, prev: None, encl: encl.to_vec(), sub: false });
                    scopes.last_mut().unwrap().insert(id.clone(), n);
                    prev = Some(n);
                }
                Cmd::Sub { id, body, .. } => {
                    lead = false;
                    let n = ix.nodes.len();
                    ix.nodes.push(Node { id: id.clone(), assume: false, prems: vec![], discharge: vec![], prev: None, encl: encl.to_vec(), sub: true });
                    let mut e = encl.to_vec();
                    e.push(n);
                    scopes.push(HashMap::new());
                    go(body, &e, Some(n), scopes, ix)?;
                    scopes.pop();
                    scopes.last_mut().unwrap().insert(id.clone(), n);
                    prev = Some(n);
                }
            }
        }
        Ok(())
    }
    let mut ix = Index { nodes: vec![], leading: HashMap::new() };
    go(cmds, &[], None, &mut vec![HashMap::new()], &mut ix)?;
    Ok(ix)
}
fn trust() -> E {
    a("\"trust\"")
}

/// What the slice of `cmds` at `id` should be; None when `id` cannot be sliced.
fn model(cmds: &[Cmd], ix: &Index, id: &str, d: usize) -> Option<(Vec<Cmd>, usize)> {
    let target = ix.nodes.iter().position(|n| n.id == id)?;
    if ix.nodes[target].assume {
        return None;
    }
    let mut dist: HashMap<usize, usize> = HashMap::from([(target, 0)]);
    let mut q = VecDeque::from([target]);
    while let Some(x) = q.pop_front() {
        let n = &ix.nodes[x];
        let dx = dist[&x];
        for &y in n.prems.iter().chain(&n.discharge).chain(&n.prev) {
            if let std::collections::hash_map::Entry::Vacant(e) = dist.entry(y) {
                e.insert(dx + 1);
                q.push_back(y);
            }
        }
    }
    let mut full: HashSet<usize> = dist.iter().filter(|x| *x.1 <= d).map(|x| *x.0).collect();
    let mut part: HashSet<usize> = dist.iter().filter(|x| *x.1 > d && *x.1 - 1 == d).map(|x| *x.0).collect();
    let mut encl = ix.nodes[target].encl.clone();
    if ix.nodes[target].sub {
        encl.push(target);
    }
    for &s in &encl {
        full.insert(s);
        part.extend(ix.leading.get(&s).into_iter().flatten());
        let n = &ix.nodes[s];
        part.extend(n.prems.iter().chain(&n.prev).chain(&n.discharge));
    }
    // the last steps of the enclosing subproofs that come after the sliced step get it as a premise
    let mut link: HashMap<usize, usize> = HashMap::new();
    for (i, &s) in encl.iter().enumerate() {
        if s == target {
            continue;
        }
        let child = encl.get(i + 1).copied().unwrap_or(target);
        if let Some(p) = ix.nodes[s].prev {
            if !full.contains(&p) && p > child {
                link.insert(p, child);
            }
        }
    }
    struct M<'a> {
        ix: &'a Index,
        full: HashSet<usize>,
        part: HashSet<usize>,
        link: HashMap<usize, usize>,
        next: usize,
    }
    fn go(m: &mut M, cmds: &[Cmd], closing: Option<usize>, out: &mut Vec<Cmd>, keep: bool) {
        for (i, c) in cmds.iter().enumerate() {
            if closing.is_some() && i + 1 == cmds.len() {
                if keep {
                    out.push(c.clone());
                }
                continue;
            }
            let n = m.next;
            m.next += 1;
            let (f, p) = (keep && m.full.contains(&n), keep && m.part.contains(&n));
            let hole = |m: &M| Cmd::Step { id: c.id().to_string(), cl: c.clause(), rule: "hole".into(), prems: m.link.get(&n).map(|x| m.ix.nodes[*x].id.clone()).into_iter().collect(), args: vec![trust()], discharge: vec![] };
            match c {
                Cmd::Assume { .. } => {
                    if f || p {
                        out.push(c.clone());
                    }
                }
                Cmd::Step { .. } => {
                    if f {
                        out.push(c.clone());
                    } else if p {
                        out.push(hole(m));
                    }
                }
                Cmd::Sub { id, args, body } => {
                    let mut b = vec![];
                    go(m, body, Some(n), &mut b, f);
                    if f {
                        out.push(Cmd::Sub { id: id.clone(), args: args.clone(), body: b });
                    } else if p {
                        out.push(hole(m));
                    }
                }
            }
        }
    }
    let mut out = vec![];
    let mut m = M { ix, full, part, link, next: 0 };
    go(&mut m, cmds, None, &mut out, true);
    let top = encl.first().copied().unwrap_or(target);
    out.push(Cmd::Step { id: "slice_end".into(), cl: vec![], rule: "hole".into(), prems: vec![ix.nodes[top].id.clone()], args: vec![trust()], discharge: vec![] });
    Some((out, ix.nodes.len()))
}

/// Makes sibling subproofs use the same local ids.
fn relocal(cmds: &mut [Cmd], depth: usize) {
    fn ren(c: &mut Cmd, m: &[(String, String)]) {
        let f = |s: &mut String| {
            if let Some(x) = m.iter().rev().find(|x| x.0 == *s) {
                *s = x.1.clone();
            }
        };
        match c {
            Cmd::Assume { id, .. } => f(id),
            Cmd::Step { id, prems, discharge, .. } => {
                f(id);
                prems.iter_mut().chain(discharge.iter_mut()).for_each(f);
            }
            Cmd::Sub { id, body, .. } => {
                f(id);
                body.iter_mut().for_each(|x| ren(x, m));
            }
        }
    }
    for c in cmds.iter_mut() {
        if let Cmd::Sub { body, .. } = c {
            relocal(body, depth + 1);
            let k = body.len();
            let m: Vec<(String, String)> = body[..k.saturating_sub(1)].iter().enumerate().map(|(i, c)| (c.id().to_string(), format!("s{depth}.{i}"))).collect();
            for x in body.iter_mut() {
                ren(x, &m);
            }
        }
    }
}
fn print_of(pool: &mut PrimitivePool, pb: &ast::Problem, pf: &ast::Proof) -> Result<String, carc::PanicInfo> {
    guard(|| {
        let mut buf = vec![];
        ast::write_proof_to_dest(pool, &pb.prelude, pf, &mut buf, false).unwrap();
        String::from_utf8(buf).unwrap()
    })
}

fn slices(g: &mut G, problem: String, proof: String, checks: bool) -> Case {
    let mut c = Case { key: hash_str(&format!("{problem}{proof}")), sample: proof.chars().take(400).collect(), ..Case::default() };
    let cfg = Config { expand_lets: false, apply_function_defs: true, allow_int_real_subtyping: false, strict: false, parse_hole_args: true };
    let mut pool = PrimitivePool::new();
    let Ok(Ok((pb, pf))) = guard(|| parse_in(&mut pool, cfg, &problem, &proof)) else {
        c.label("does not parse");
        return c;
    };
    let Ok(text) = print_of(&mut pool, &pb, &pf) else {
        c.label("does not print");
        return c;
    };
    // definitions are printed first and carried over
    let body: String = text.lines().filter(|x| !x.starts_with("(define-fun")).map(|x| format!("{x}\n")).collect();
    let defs: String = text.lines().filter(|x| x.starts_with("(define-fun")).map(|x| format!("{x}\n")).collect();
    let Ok(cmds) = prf::parse_proof(&body) else {
        c.label("not read by the harness");
        return c;
    };
    let Ok(ix) = index(&cmds) else {
        c.label("not indexed");
        return c;
    };
    if checks {
        let o = Opts::default();
        if !carc::check(&problem, &proof, &o).steps_accepted() {
            c.label("original not accepted");
            return c;
        }
    }
    c.nontrivial = true;
    for _ in 0..3 {
        let id = if g.chance(1, 20) { "no such step".to_string() } else { ix.nodes[g.u(ix.nodes.len())].id.clone() };
        let d = *g.pick(&[0, 0, 1, 1, 2, 3, 4, 6, 10, 100, usize::MAX - 1, usize::MAX]);
        c.key ^= hash_str(&format!("{id} {d}"));
        let files = |extra: Vec<(&str, String)>| -> Vec<(String, String)> {
            let mut f = vec![("problem.smt2".to_string(), problem.clone()), ("proof.alethe".to_string(), proof.clone()), ("slice.txt".to_string(), format!("--from '{id}' --max-distance {d}\n"))];
            f.extend(extra.into_iter().map(|x| (x.0.to_string(), x.1)));
            f
        };
        macro_rules! bad {
            ($sig:expr, $msg:expr, $fs:expr) => {{
                c.viol = Some(Viol { sig: $sig.into(), msg: format!("slice at {id}, distance {d}: {}", $msg), files: files($fs) });
                return c;
            }};
        }
        let want = model(&cmds, &ix, &id, d);
        let raw = id.strip_prefix('|').and_then(|x| x.strip_suffix('|')).unwrap_or(&id);
        let got = match guard(|| carcara::slice::slice(&pf, raw, &mut pool, d)) {
            Ok(x) => x,
            Err(p) => bad!(format!("slice panics {}", p.sig()), format!("panic {p:?}"), vec![]),
        };
        let ((want, _), (sliced, asserts)) = match (want, got) {
            (None, None) => {
                c.label("no slice");
                continue;
            }
            (None, Some(_)) => bad!("sliced", "there is no such step", vec![]),
            (Some(_), None) => bad!("not sliced", "no slice of a step", vec![]),
            (Some(x), Some(y)) => (x, y),
        };
        let out = match print_of(&mut pool, &pb, &sliced) {
            Ok(x) => x,
            Err(p) => bad!(format!("printing panics {}", p.sig()), format!("the slice cannot be printed: {p:?}"), vec![]),
        };
        let want_text = prf::print(&want);
        let sub: Vec<(&str, String)> = vec![("slice.alethe", out.clone()), ("expected.alethe", want_text.clone())];
        let want_read = match prf::parse_proof(&want_text) {
            Ok(x) => x,
            Err(_) => {
                c.label("expected slice not read");
                continue;
            }
        };
        let out_body: String = out.lines().filter(|x| !x.starts_with("(define-fun")).map(|x| format!("{x}\n")).collect();
        let out_defs: String = out.lines().filter(|x| x.starts_with("(define-fun")).map(|x| format!("{x}\n")).collect();
        // the printer uses a definition only where its name is not bound anywhere
        let dl = parse_all(&defs).unwrap_or_default();
        let expand_e = |e: &E| -> E {
            let mut e = e.clone();
            for d in &dl {
                if let Some([_, n, _, _, t]) = d.list() {
                    e = e.replace_atom(n.atom().unwrap_or(""), t);
                }
            }
            e
        };
        let expand = |x: &[Cmd]| -> Vec<Cmd> {
            let mut x = x.to_vec();
            prf::map_terms(&mut x, &mut |e| expand_e(e));
            x
        };
        match prf::parse_proof(&out_body) {
            Ok(x) if expand(&x) == expand(&want_read) => (),
            Ok(x) => {
                let (mut l, mut r) = (vec![], vec![]);
                prf::for_each(&x, &mut |c, _| l.push(c.id().to_string()));
                prf::for_each(&want_read, &mut |c, _| r.push(c.id().to_string()));
                let s = if l.len() < r.len() {
                    "too little kept"
                } else if l.len() > r.len() {
                    "too much kept"
                } else if l != r {
                    "other steps kept"
                } else {
                    "steps changed"
                };
                bad!(s, format!("{s}: {l:?}, expected {r:?}"), sub)
            }
            Err(e) => bad!("slice malformed", format!("the slice is not well-formed: {e}"), sub),
        }
        if out_defs != defs {
            bad!("definitions", "the definitions are not those of the original", sub);
        }
        c.label(if want.len() < cmds.len() { "smaller" } else { "not smaller" });
        if want.iter().any(|x| matches!(x, Cmd::Sub { .. })) {
            c.label("subproof in slice");
        }
        // as a graph, the sliced step is part of the derivation of slice_end
        let r = guard(|| {
            let f = ProofNodeForest::from_commands(sliced.commands.clone());
            let last = f.0.iter().find(|n| n.id() == "slice_end").cloned();
            let Some(root) = last else { return false };
            let mut todo = vec![root];
            let mut seen: HashSet<ast::Rc<ProofNode>> = HashSet::new();
            while let Some(n) = todo.pop() {
                if !seen.insert(n.clone()) {
                    continue;
                }
                if n.id() == raw {
                    return true;
                }
                match n.as_ref() {
                    ProofNode::Assume { .. } => (),
                    ProofNode::Step(s) => {
                        todo.extend(s.premises.iter().cloned());
                        todo.extend(s.discharge.iter().cloned());
                        todo.extend(s.previous_step.iter().cloned());
                    }
                    ProofNode::Subproof(s) => todo.push(s.last_step.clone()),
                }
            }
            false
        });
        match r {
            Ok(true) => (),
            Ok(false) => bad!("not connected", "slice_end does not depend on the sliced step", sub),
            Err(p) => bad!(format!("graph panics {}", p.sig()), format!("the slice has no proof graph: {p:?}"), sub),
        }
        // the sliced problem asserts the kept assumptions
        let mut s2: Vec<String> = vec![];
        for x in &want {
            if let Cmd::Assume { id, .. } = x {
                let raw = id.strip_prefix('|').and_then(|x| x.strip_suffix('|')).unwrap_or(id);
                s2.extend(pf.commands.iter().filter(|y| y.id() == raw).map(|y| match y {
 ast::ProofCommand::Assume { term, .. } => term.to_string(),
 _ => String::new(),
 }));
            }
        }
        let mut s1: Vec<String> = asserts.iter().map(|x| x.to_string()).collect();
        s1.sort();
        s2.sort();
        if s1 != s2 {
            bad!("asserts", format!("the sliced problem asserts {s1:?} instead of {s2:?}"), sub);
        }
        if checks {
            let pt = guard(|| {
                let mut buf = vec![];
                ast::write_asserts(&mut pool, &pb.prelude, &mut buf, &asserts, false).unwrap();
                format!("{}{}(check-sat)\n(exit)\n", pb.prelude, String::from_utf8(buf).unwrap())
            });
            let pt = match pt {
                Ok(x) => x,
                Err(p) => bad!(format!("printing panics {}", p.sig()), format!("the sliced problem cannot be printed: {p:?}"), sub),
            };
            match carc::check(&pt, &out, &Opts::default()) {
                Verdict::Holey => (),
                v => {
                    let k = match &v {
                        Verdict::Rejected(_, r, _) => format!("{} {r}", v.class()),
                        _ => v.class().to_string(),
                    };
                    let mut sub = sub;
                    sub.push(("slice.smt2", pt));
                    bad!(format!("slice verdict {k}"), format!("the original is accepted but the slice is {v:?}"), sub)
                }
            }
        }
    }
    c
}
/// Slices of accepted proofs
pub fn accepted(g: &mut G) -> Case {
    let mut p = whole::any(g);
    if g.chance(1, 4) {
        relocal(&mut p.cmds, 0);
    }
    late(g, &mut p);
    let (problem, proof) = (p.problem(), p.proof());
    slices(g, problem, proof, true)
}
/// Moves a top-level assumption after steps that do not use it.
fn late(g: &mut G, p: &mut Prf) {
    if !g.chance(1, 3) {
        return;
    }
    for i in (0..p.cmds.len()).rev() {
        if !matches!(p.cmds[i], Cmd::Assume { .. }) || !g.bool() {
            continue;
        }
        let id = p.cmds[i].id().to_string();
        let mut j = i;
        let mut lim = i;
        while j + 1 < p.cmds.len() {
            let mut uses = false;
            prf::for_each(&p.cmds[j + 1..j + 2], &mut |c, _| {
                if let Cmd::Step { prems, discharge, .. } = c {
                    uses |= prems.contains(&id) || discharge.contains(&id);
                }
            });
            if uses {
                break;
            }
            j += 1;
            lim = j;
        }
        let k = g.ur(i, lim);
        let c = p.cmds.remove(i);
        p.cmds.insert(k, c);
    }
}
/// Slices of meaningless proofs
pub fn structure(g: &mut G) -> Case {
    let (problem, proof) = if g.bool() {
        wild::texts(g)
    } else {
        let mut p = wild::wild(g);
        if g.bool() {
            relocal(&mut p.cmds, 0);
        }
        (p.problem(), p.proof())
    };
    slices(g, problem, proof, false)
}
