//! C16: elaboration.
use crate::carc::{self, guard, Opts, PanicInfo, Verdict};
use crate::g::{hash_str, G};
use crate::prf::{self, Cmd, Prf};
use crate::runner::{Case, Viol};
use crate::sexp::*;
use crate::fam_term::{variant, Modes};
use crate::step::Step;
use crate::whole;
use carcara::ast::{self, ProofCommand};
use carcara::elaborator::{Config, ElaborationStep};

pub fn pipeline(g: &mut G) -> (Vec<ElaborationStep>, bool) {
    use ElaborationStep::*;
    let full = vec![Polyeq, LiaGeneric, Local, Uncrowd, Reordering];
    if g.chance(1, 2) {
        return (full, true);
    }
    let n = g.ur(1, 5);
    let v = (0..n)
        .map(|_| match g.u(6) {
            0 => Polyeq,
            1 => LiaGeneric,
            2 => Local,
            3 => Uncrowd,
            4 => Reordering,
            _ => Hole,
        })
        .collect();
    (v, false)
}

pub struct Elab {
    pub holey: bool,
    pub text: String,
    /// without sharing
    pub plain: String,
    pub assumes: Vec<String>,
    pub orig: Vec<String>,
    pub premises: Vec<String>,
    pub again: Option<String>,
}
/// `twice`: elaborate the elaborated proof again with the same passes
pub fn elaborate(problem: &str, proof: &str, o: &Opts, pipe: &[ElaborationStep], rotate: bool, sharing: bool, twice: bool) -> Result<Result<Elab, carcara::Error>, PanicInfo> {
    guard(|| {
        let cfg = Config { lia_options: None, uncrowd_rotation: rotate, hole_options: None };
        let (holey, pb, pf, mut pool) =
            carcara::check_and_elaborate(problem.as_bytes(), proof.as_bytes(), None, o.parser(), o.checker(), cfg.clone(), pipe.to_vec(), false)?;
        let mut buf = vec![];
        ast::write_proof_to_dest(&mut pool, &pb.prelude, &pf, &mut buf, sharing).unwrap();
        let mut plain = vec![];
        ast::write_proof_to_dest(&mut pool, &pb.prelude, &pf, &mut plain, false).unwrap();
        let mut assumes = vec![];
        let mut orig = vec![];
        let mut depth0 = |cs: &[ProofCommand]| {
            for c in cs {
                if let ProofCommand::Assume { term, .. } = c {
                    assumes.push(term.to_string());
                }
            }
        };
        depth0(&pf.commands);
        {
            let (_, q, _, _) = carcara::parser::parse_instance(problem.as_bytes(), proof.as_bytes(), None, o.parser())?;
            for c in &q.commands {
                if let ProofCommand::Assume { term, .. } = c {
                    orig.push(term.to_string());
                }
            }
        }
        let again = if twice {
            let node = ast::ProofNodeForest::from_commands(pf.commands.clone());
            let el = carcara::elaborator::Elaborator::new(&mut pool, &pb, cfg).elaborate(node, pipe.to_vec());
            let commands = el.into_commands();
            let pf2 = ast::Proof { commands, constant_definitions: pf.constant_definitions.clone() };
            if pf2.commands == pf.commands {
                None
            } else {
                let mut b2 = vec![];
                ast::write_proof_to_dest(&mut pool, &pb.prelude, &pf2, &mut b2, sharing).unwrap();
                Some(String::from_utf8(b2).unwrap())
            }
        } else {
            None
        };
        Ok(Elab { orig, holey, text: String::from_utf8(buf).unwrap(), plain: String::from_utf8(plain).unwrap(), assumes, premises: pb.premises.iter().map(|t| t.to_string()).collect(), again })
    })
}

fn viol(sig: &str, msg: String, problem: &str, proof: &str, out: Option<&str>) -> Option<Viol> {
    let mut files = vec![("problem.smt2".to_string(), problem.to_string()), ("proof.alethe".to_string(), proof.to_string())];
    if let Some(t) = out {
        files.push(("elaborated.alethe".into(), t.into()));
    }
    Some(Viol { sig: sig.into(), msg, files })
}

pub fn judge(g: &mut G, p: &Prf, c: &mut Case) {
    if let_renamed(&p.cmds) {
        c.label("skipped: let under renaming");
        return;
    }
    let p = &rename_inner_assumes(p);
    let o = Opts { expand_lets: g.chance(1, 6), ..Opts::default() };
    let (pipe, full) = pipeline(g);
    let rotate = g.bool();
    let sharing = g.chance(1, 3);
    let problem = p.problem();
    let proof = prf::print(&p.cmds);
    c.key = hash_str(&format!("{problem}{proof}{pipe:?}{o:?}{rotate}"));
    c.sample = format!("{pipe:?} {proof}").chars().take(500).collect();
    let base = carc::check(&problem, &proof, &o);
    c.label(format!("base {}", base.class()));
    let was_holey = match base {
        Verdict::Valid => false,
        Verdict::Holey => true,
        _ => return,
    };
    c.nontrivial = true;
    let pd = format!("{pipe:?} rotation={rotate}");
    let e = match elaborate(&problem, &proof, &o, &pipe, rotate, sharing, full) {
        Err(pn) => {
            c.viol = viol(&pn.sig(), format!("elaboration panics with {pd}: {} at {}:{}", pn.msg, pn.file, pn.line), &problem, &proof, None);
            return;
        }
        Ok(Err(err)) => {
            c.viol = viol("elaboration error", format!("elaboration of an accepted proof fails with {pd}: {err}"), &problem, &proof, None);
            return;
        }
        Ok(Ok(e)) => e,
    };
    if e.holey != was_holey {
        c.viol = viol("verdict", format!("check_and_elaborate reports holey={}", e.holey), &problem, &proof, Some(&e.text));
        return;
    }
    let v = carc::check(&problem, &e.text, &o);
    match &v {
        Verdict::Valid => {}
        Verdict::Holey if was_holey => {}
        v => {
            let sig = match v {
                Verdict::Rejected(i, r, _) => format!("elaborated proof rejected at {r}{}", if rebound(&e.plain, i) { ", bound names of the context used again" } else { "" }),
                v => format!("elaborated proof {}", v.class()),
            };
            c.viol = viol(&sig, format!("original {}, elaborated with {pd}: {v:?}", if was_holey { "holey" } else { "valid" }), &problem, &proof, Some(&e.text));
            return;
        }
    }
    // assumptions
    for x in &e.assumes {
        if !e.premises.contains(x) && !e.orig.contains(x) {
            c.viol = viol("new assumption", format!("{x} is assumed by the elaborated proof"), &problem, &proof, Some(&e.text));
            return;
        }
    }
    if full {
        c.label("full pipeline");
        let v = carc::check(&problem, &e.text, &Opts { elaborated: true, ..o.clone() });
        match &v {
            Verdict::Valid => {}
            Verdict::Holey if was_holey => {}
            v => {
                let sig = match v {
                    Verdict::Rejected(i, r, m) if r.contains("resolution") && m.contains("arguments") => {
                        match forced_chain(&e.plain, i) {
                            Some(true) => format!("elaborated mode rejects {r}, which has a unique chain"),
                            Some(false) => "resolution steps with no unique chain are not elaborated".to_string(),
                            None => format!("elaborated mode rejects {r}, not found"),
                        }
                    }
                    Verdict::Rejected(i, r, _) => format!("elaborated mode rejects {r}{}", if rebound(&e.plain, i) { ", bound names of the context used again" } else { "" }),
                    v => format!("elaborated mode {}", v.class()),
                };
                c.viol = viol(&sig, format!("the fully elaborated proof in elaborated mode: {v:?}"), &problem, &proof, Some(&e.text));
                return;
            }
        }
        if let Some(t) = e.again {
            // known finding REFL: such steps may be elaborated again
            let mut refl = vec![];
            if let Ok(cmds) = prf::parse_proof(&e.plain) {
                prf::for_each(&cmds, &mut |c, _| {
                    if let Cmd::Step { id, rule, .. } = c {
                        if rule == "refl" {
                            refl.push(id.clone());
                        }
                    }
                });
            }
            if refl.iter().any(|i| rebound(&e.plain, i)) {
                c.label("not idempotent, rebound");
                return;
            }
            c.viol = viol("not idempotent", format!("elaborating again changes the proof:\n{t}"), &problem, &proof, Some(&e.text));
        }
    }
}
pub fn elab(g: &mut G) -> Case {
    let p = whole::any(g);
    let mut c = Case::default();
    c.label(p.label.clone());
    judge(g, &p, &mut c);
    c
}

/// Steps whose conclusions or assumptions hold only modulo reordering of equalities, n-ary forms
/// or bound names, and steps with premises in unusual order: what the passes have to repair.
pub fn loose(g: &mut G) -> Prf {
    use crate::{fam_eq, fam_prop, fam_quant, fam_res};
    let m = Modes { reorder: true, alpha: g.chance(1, 3), nary: false, concat: false };
    let mut n = 5000;
    let kind = g.weighted(&[3, 3, 2, 2, 3, 3, 3, 4, 3]);
    let mut p = match kind {
        0 => {
            // refl
            let d = g.ur(2, 5);
            let cfg = crate::fam_term::rich(g);
            let (e, _, sig) = crate::fam_term::gen_term(g, cfg, Default::default(), d);
            let f = variant(g, &e, m, &mut n);
            let (e, f) = if g.chance(1, 4) { (f, e) } else { (e, f) };
            whole::of_step(&Step::new(sig, "refl", vec![], vec![], vec![eq(e, f)]))
        }
        1 => {
            let mut s = fam_quant::forall_inst(g);
            s.concl = s.concl.iter().map(|x| inst_variant(g, x, m, &mut n)).collect();
            whole::of_step(&s)
        }
        2 => {
            let mut s = fam_prop::ite_intro(g);
            let m = Modes { alpha: false, ..m };
            s.concl = s.concl.iter().map(|x| if let E::L(v) = x { E::L(vec![v[0].clone(), v[1].clone(), variant(g, &v[2], m, &mut n)]) } else { x.clone() }).collect();
            whole::of_step(&s)
        }
        3 => {
            let mut s = fam_prop::bfun_elim(g);
            let m = Modes { alpha: false, ..m };
            s.concl = s.concl.iter().map(|x| variant(g, x, m, &mut n)).collect();
            whole::of_step(&s)
        }
        4 => {
            // chains
            let (mut s, first) = match g.u(2) {
                0 => (fam_eq::trans(g), 0),
                _ => (fam_eq::eq_transitive(g), 1),
            };
            if first == 0 {
                for q in s.prems.iter_mut() {
                    if g.chance(1, 3) {
                        q[0] = flip(&q[0]);
                    }
                }
                if g.chance(1, 3) {
                    g.shuffle(&mut s.prems);
                }
                if g.chance(1, 4) {
                    s.concl[0] = flip(&s.concl[0]);
                }
            } else {
                let k = s.concl.len() - 1;
                for i in 0..k {
                    if g.chance(1, 3) {
                        if let Some(t) = s.concl[i].args().first().cloned() {
                            s.concl[i] = not(flip(&t));
                        }
                    }
                }
                if g.chance(1, 3) {
                    let mut v = s.concl[..k].to_vec();
                    g.shuffle(&mut v);
                    v.push(s.concl[k].clone());
                    s.concl = v;
                }
                if g.chance(1, 4) {
                    s.concl[k] = flip(&s.concl[k]);
                }
            }
            whole::of_step(&s)
        }
        5 => {
            let mut s = match g.u(3) {
                0 => fam_eq::eq_congruent(g),
                _ => fam_eq::cong(g),
            };
            for q in s.prems.iter_mut() {
                if g.chance(1, 3) {
                    q[0] = flip(&q[0]);
                }
            }
            if s.rule == "eq_congruent" {
                let k = s.concl.len() - 1;
                for i in 0..k {
                    if g.chance(1, 3) {
                        if let Some(t) = s.concl[i].args().first().cloned() {
                            s.concl[i] = not(flip(&t));
                        }
                    }
                }
            }
            whole::of_step(&s)
        }
        6 => {
            let s = match g.u(3) {
                0 => fam_res::res_plain(g),
                1 => fam_res::res_args(g),
                _ => fam_res::res_random(g),
            };
            whole::of_step(&s)
        }
        7 => crowd(g),
        _ => {
            let mut p = crate::fam_ctx::gen(g);
            let m = Modes { alpha: false, ..m };
            let mut done = false;
            let g2 = &mut *g;
            prf::for_each_mut(&mut p.cmds, &mut |c| {
                if let Cmd::Step { rule, cl, .. } = c {
                    if rule == "subproof" && !cl.is_empty() && !done && g2.chance(1, 2) {
                        let k = cl.len() - 1;
                        cl[k] = variant(g2, &cl[k].clone(), m, &mut n);
                        done = true;
                    } else if rule == "refl" && g2.chance(1, 2) {
                        if let E::L(v) = &cl[0] {
                            cl[0] = E::L(vec![v[0].clone(), v[1].clone(), v[2].clone()]);
                        }
                    }
                }
            });
            p
        }
    };
    p.label = format!("loose {}", p.label);
    let asm = !g.chance(1, 5);
    let mut p = whole::close(&p, asm);
    // unused premises and steps, reorderings
    if g.chance(1, 4) {
        let k = g.u(p.cmds.len());
        if let Cmd::Step { id, cl, .. } = p.cmds[k].clone() {
            if cl.len() > 1 {
                let mut c2 = cl.clone();
                g.shuffle(&mut c2);
                let nid = format!("{id}.r");
                for c in p.cmds.iter_mut() {
                    if let Cmd::Step { prems, .. } = c {
                        for q in prems.iter_mut() {
                            if *q == id {
                                *q = nid.clone();
                            }
                        }
                    }
                }
                p.cmds.insert(k + 1, Cmd::step(&nid, c2, "reordering", vec![id.clone()], vec![]));
            }
        }
    }
    if g.chance(1, 2) {
        let m = Modes { reorder: true, alpha: false, nary: false, concat: false };
        let nary = g.chance(1, 3);
        for i in 0..p.asserts.len() {
            if g.bool() {
                let t = p.asserts[i].clone();
                let mut v = variant(g, &t, m, &mut n);
                if nary {
                    v = binarize(g, &v);
                }
                p.asserts[i] = v;
            }
        }
    }
    p
}
fn flip(e: &E) -> E {
    match e {
        E::L(v) if v.len() == 3 && v[0].is("=") => E::L(vec![v[0].clone(), v[2].clone(), v[1].clone()]),
        _ => e.clone(),
    }
}
fn inst_variant(g: &mut G, x: &E, m: Modes, n: &mut usize) -> E {
    match x {
        E::L(v) if v.len() == 3 && v[0].is("or") => E::L(vec![v[0].clone(), v[1].clone(), variant(g, &v[2], m, n)]),
        _ => x.clone(),
    }
}
/// a resolution chain in which literals come back after they were eliminated, are eliminated
/// several times, or stay in the conclusion; with and without pivots
pub fn crowd(g: &mut G) -> Prf {
    let n = g.ur(3, 7);
    let mut sig = crate::eval::Sig::default();
    for i in 0..n {
        sig.fun(&format!("x{i}"), vec![], crate::eval::S::Bool);
    }
    type L = (usize, bool);
    let te = |(i, s): L| if s { a(format!("x{i}")) } else { not(a(format!("x{i}"))) };
    let k = g.ur(2, 8);
    let mut cur: Vec<L> = vec![];
    let mut clauses: Vec<Vec<L>> = vec![];
    let mut args = vec![];
    for i in 0..k {
        let mut c: Vec<L> = vec![];
        if i > 0 {
            if cur.is_empty() {
                break;
            }
            let pv = cur[g.u(cur.len())];
            c.push((pv.0, !pv.1));
            // set semantics
            cur.retain(|x| *x != pv);
            // the pivot argument is an atom
            args.push(te((pv.0, true)));
            args.push(a(if pv.1 { "true" } else { "false" }));
        }
        let m = g.ur(if i == 0 { 1 } else { 0 }, 3);
        for _ in 0..m {
            let l: L = if !cur.is_empty() && g.bool() { cur[g.u(cur.len())] } else { (g.u(n), g.bool()) };
            if c.contains(&l) || c.contains(&(l.0, !l.1)) || (cur.contains(&(l.0, !l.1)) && !g.chance(1, 6)) {
                continue;
            }
            c.push(l);
        }
        if i == 0 {
            cur = c.clone();
        } else {
            for l in &c[1..] {
                if !cur.contains(l) {
                    cur.push(*l);
                }
            }
        }
        g.shuffle(&mut c);
        clauses.push(c);
    }
    if g.chance(1, 3) {
        g.shuffle(&mut cur);
    }
    let with = g.chance(2, 3);
    let mut cmds: Vec<Cmd> = clauses.iter().enumerate().map(|(i, c)| Cmd::step(&format!("h{i}"), c.iter().map(|l| te(*l)).collect(), "hole", vec![], vec![])).collect();
    cmds.push(Cmd::step("t", cur.iter().map(|l| te(*l)).collect(), if g.bool() { "resolution" } else { "th_resolution" }, (0..clauses.len()).map(|i| format!("h{i}")).collect(), if with { args } else { vec![] }));
    Prf { sig, asserts: vec![], cmds, label: if with { "crowd with pivots".into() } else { "crowd".into() } }
}
pub fn elab_loose(g: &mut G) -> Case {
    let p = loose(g);
    let mut c = Case::default();
    c.label(p.label.clone());
    judge(g, &p, &mut c);
    c
}
/// Does the resolution step `id` have exactly one pivot candidate at every premise, with none of
/// the pivots left or coming back, or in the conclusion, and exactly the conclusion as its result?
fn forced_chain(plain: &str, id: &str) -> Option<bool> {
    let cmds = prf::parse_proof(plain).ok()?;
    fn find<'a>(cmds: &'a [Cmd], id: &str, seen: &mut Vec<(&'a str, &'a Cmd)>) -> Option<&'a Cmd> {
        for c in cmds {
            if let Cmd::Sub { body, .. } = c {
                if let Some(r) = find(body, id, seen) {
                    return Some(r);
                }
            }
            if c.id() == id {
                return Some(c);
            }
            seen.push((c.id(), c));
        }
        None
    }
    let mut seen = vec![];
    let c = find(&cmds, id, &mut seen)?;
    let Cmd::Step { cl, prems, .. } = c else { return None };
    let lit = |e: &E| {
        let mut n = false;
        let mut t = e.clone();
        while t.head() == Some("not") && t.args().len() == 1 {
            t = t.args()[0].clone();
            n = !n;
        }
        (t.to_string(), n)
    };
    let twice = |e: &E| e.head() == Some("not") && e.args().first().is_some_and(|x| x.head() == Some("not"));
    if cl.iter().any(twice) {
        return Some(false);
    }
    let mut ps = vec![];
    for p in prems {
        let q = seen.iter().rev().find(|x| x.0 == p)?.1;
        if q.clause().iter().any(twice) {
            return Some(false);
        }
        ps.push(q.clause().iter().map(lit).collect::<Vec<_>>());
    }
    let concl: Vec<_> = cl.iter().map(lit).collect();
    let mut cur: Vec<(String, bool)> = ps.first()?.clone();
    let mut pivots: Vec<String> = vec![];
    let uniq = |v: &Vec<(String, bool)>| (0..v.len()).all(|i| !v[..i].contains(&v[i]));
    if !uniq(&cur) {
        return Some(false);
    }
    for p in &ps[1..] {
        if !uniq(p) {
            return Some(false);
        }
        let c: Vec<_> = cur.iter().filter(|l| p.contains(&(l.0.clone(), !l.1))).cloned().collect();
        if c.len() != 1 || concl.iter().any(|l| l.0 == c[0].0) {
            return Some(false);
        }
        let neg = (c[0].0.clone(), !c[0].1);
        pivots.push(neg.0.clone());
        cur.retain(|l| *l != c[0]);
        for l in p.iter().filter(|l| **l != neg) {
            if cur.contains(l) {
                continue;
            }
            cur.push(l.clone());
        }
        // atoms do not come back after they were eliminated
        if cur.iter().any(|l| pivots.contains(&l.0)) {
            return Some(false);
        }
    }
    let mut x = cur;
    let mut y = concl;
    x.sort();
    y.sort();
    Some(x == y)
}
/// Is some variable of the contexts around step `id` bound again inside them?
fn rebound(plain: &str, id: &str) -> bool {
    let Ok(cmds) = prf::parse_proof(plain) else { return false };
    fn binders(e: &E, out: &mut Vec<String>) {
        if let E::L(v) = e {
            if matches!(e.head(), Some("forall" | "exists" | "choice" | "lambda" | "let")) && v.len() == 3 {
                for b in v[1].list().unwrap_or(&[]) {
                    if let Some(n) = b.list().and_then(|b| b.first()).and_then(|x| x.atom()) {
                        out.push(n.to_string());
                    }
                }
            }
            for x in v {
                binders(x, out);
            }
        }
    }
    fn go(cmds: &[Cmd], id: &str, scope: &mut Vec<Vec<String>>) -> Option<bool> {
        for c in cmds {
            match c {
                Cmd::Sub { args, body, .. } => {
                    let mut names: Vec<String> = args.iter().filter_map(|x| prf::anchor_arg(x).map(|y| y.0)).collect();
                    names.sort();
                    names.dedup();
                    scope.push(names);
                    if let Some(r) = go(body, id, scope) {
                        return Some(r);
                    }
                    scope.pop();
                }
                c if c.id() == id => {
                    let mut b = vec![];
                    for t in c.clause() {
                        binders(&t, &mut b);
                    }
                    b.sort();
                    b.dedup();
                    let mut all: Vec<String> = scope.concat();
                    all.extend(b);
                    let n = all.len();
                    all.sort();
                    all.dedup();
                    return Some(all.len() < n);
                }
                _ => {}
            }
        }
        None
    }
    go(&cmds, id, &mut vec![]).unwrap_or(false)
}

/// n-ary sums, products and implications written with binary applications
fn binarize(g: &mut G, e: &E) -> E {
    let E::L(v) = e else { return e.clone() };
    if matches!(e.head(), Some("_" | "!")) {
        return e.clone();
    }
    if matches!(e.head(), Some("forall" | "exists" | "choice" | "lambda" | "let")) {
        return e.clone();
    }
    let w: Vec<E> = v.iter().map(|x| binarize(g, x)).collect();
    let h = e.head().unwrap_or("").to_string();
    if w.len() > 3 && g.chance(2, 3) {
        match &*h {
            "+" | "-" | "*" => {
                let mut acc = w[1].clone();
                for x in &w[2..] {
                    acc = E::L(vec![w[0].clone(), acc, x.clone()]);
                }
                return acc;
            }
            "=>" => {
                let mut acc = w[w.len() - 1].clone();
                for x in w[1..w.len() - 1].iter().rev() {
                    acc = E::L(vec![w[0].clone(), x.clone(), acc]);
                }
                return acc;
            }
            _ => {}
        }
    }
    E::L(w)
}

/// Known finding DISCHARGE: assumptions of subproofs whose ids look like the ids the elaborator
/// makes. Here they are renamed.
fn rename_inner_assumes(p: &Prf) -> Prf {
    fn inner(cmds: &[Cmd], d: usize, ids: &mut Vec<String>) {
        for c in cmds {
            match c {
                Cmd::Assume { id, .. } if d > 0 && id.starts_with('t') => ids.push(id.clone()),
                Cmd::Sub { body, .. } => inner(body, d + 1, ids),
                _ => {}
            }
        }
    }
    let mut q = p.clone();
    let mut ids = vec![];
    inner(&q.cmds, 0, &mut ids);
    if ids.is_empty() {
        return q;
    }
    let f = |s: &mut String| {
        if ids.contains(s) {
            *s = format!("a.{s}");
        }
    };
    prf::for_each_mut(&mut q.cmds, &mut |c| match c {
        Cmd::Assume { id, .. } => f(id),
        Cmd::Step { id, prems, discharge, .. } => {
            f(id);
            prems.iter_mut().chain(discharge.iter_mut()).for_each(f);
        }
        Cmd::Sub { id, .. } => f(id),
    });
    q
}
/// Known finding LET: steps that compare `let` terms modulo a context or modulo bound names.
fn let_renamed(cmds: &[Cmd]) -> bool {
    fn has_let(e: &E) -> bool {
        e.head() == Some("let") || e.list().is_some_and(|v| v.iter().any(has_let))
    }
    let mut r = false;
    prf::for_each(cmds, &mut |c, _| {
        if let Cmd::Step { rule, cl, .. } = c {
            if matches!(rule.as_str(), "refl" | "forall_inst" | "bfun_elim" | "ite_intro") && cl.iter().any(has_let) {
                r = true;
            }
        }
    });
    r
}

pub const RES: &str = "resolution steps with no unique chain are not elaborated";
pub const REFL: &str = "elaborated mode rejects refl, bound names of the context used again";
pub const DISCHARGE: &str = "ids made by the elaborator hide the assumptions of a subproof";
pub const LET: &str = "let terms compared modulo bound names cannot be elaborated";
pub const NARY: &str = "assumptions with n-ary operators other than = + - * => cannot be elaborated";

fn full_pipe() -> Vec<ElaborationStep> {
    use ElaborationStep::*;
    vec![Polyeq, LiaGeneric, Local, Uncrowd, Reordering]
}
/// the elaboration of an accepted proof fails, or its result is rejected
fn broken(problem: &str, proof: &str) -> bool {
    let o = Opts::default();
    if carc::check(problem, proof, &o) != Verdict::Valid {
        return false;
    }
    match elaborate(problem, proof, &o, &full_pipe(), false, false, false) {
        Ok(Ok(e)) => carc::check(problem, &e.text, &Opts { elaborated: true, ..o }) != Verdict::Valid,
        _ => true,
    }
}
pub fn pin_res() -> bool {
    broken(
        "(declare-fun x0 () Bool)(declare-fun x1 () Bool)(declare-fun x3 () Bool)(assert (or (not x0) x3 (not x1)))(assert (or (not x3) (not x0)))(assert x0)(assert (or (not x3) x1))(assert (or x3 (not x0)))",
        "(assume h0.a (or (not x0) x3 (not x1)))(step h0 (cl (not x0) x3 (not x1)) :rule or :premises (h0.a))(assume h1.a (or (not x3) (not x0)))(step h1 (cl (not x3) (not x0)) :rule or :premises (h1.a))(assume h2 x0)(assume h3.a (or (not x3) x1))(step h3 (cl (not x3) x1) :rule or :premises (h3.a))(assume h4.a (or x3 (not x0)))(step h4 (cl x3 (not x0)) :rule or :premises (h4.a))(assume h5 x0)(step t (cl) :rule resolution :premises (h0 h1 h2 h3 h4 h5))",
    )
}
pub fn pin_discharge() -> bool {
    broken(
        "(declare-fun p () Bool)(declare-fun q () Bool)(assert (= p q))(assert (not (= p q)))",
        "(assume h0 (= p q))(anchor :step t1)(assume t2 (= p q))(step t1 (cl (not (= p q)) (= q p)) :rule subproof :discharge (t2))(step t3 (cl (= p q)) :rule resolution :premises (t1 h0))(assume n0 (not (= p q)))(step end (cl) :rule resolution :premises (t3 n0))",
    )
}
pub fn pin_let() -> bool {
    broken(
        "(declare-sort U 0)(declare-fun f (U) Bool)(declare-fun a () U)(assert (not (= (forall ((x U)) (let ((y x)) (f y))) (forall ((z U)) (let ((w z)) (f w))))))",
        "(step t (cl (= (forall ((x U)) (let ((y x)) (f y))) (forall ((z U)) (let ((w z)) (f w))))) :rule refl)(assume n0 (not (= (forall ((x U)) (let ((y x)) (f y))) (forall ((z U)) (let ((w z)) (f w))))))(step end (cl) :rule resolution :premises (t n0))",
    )
}
pub fn pin_nary() -> bool {
    broken(
        "(declare-fun p () Bool)(declare-fun q () Bool)(assert (and (and p q) (not p)))",
        "(assume h0 (and p q (not p)))(step t0 (cl p) :rule and :premises (h0) :args (0))(step t1 (cl (not p)) :rule and :premises (h0) :args (2))(step end (cl) :rule resolution :premises (t0 t1))",
    )
}
pub fn pin_refl() -> bool {
    let f = "(choice ((y U)) (not (forall ((z U)) (r y z))))";
    let f2 = "(choice ((w U)) (not (forall ((z U)) (r w z))))";
    let k = "(choice ((z U)) (not (r a z)))";
    let _ = (f2, k);
    broken(
        &format!("(declare-sort U 0)(declare-fun r (U U) Bool)(declare-fun a () U)(assert (not (= (forall ((z U)) (= {f} {f2})) (forall ((v U)) (= {f} {f})))))"),
        &format!("(anchor :step t1 :args ((z U) (v U) (:= (z U) v)))(step t2 (cl (= (= {f} {f2}) (= {f} {f}))) :rule refl)(step t1 (cl (= (forall ((z U)) (= {f} {f2})) (forall ((v U)) (= {f} {f})))) :rule bind)(assume n0 (not (= (forall ((z U)) (= {f} {f2})) (forall ((v U)) (= {f} {f})))))(step end (cl) :rule resolution :premises (t1 n0))"),
    )
}
