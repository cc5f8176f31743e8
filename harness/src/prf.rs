//! Whole proofs: command trees, printing, parsing, mutation, and the semantic judge.
use crate::carc::{self, Opts, Verdict};
use crate::eval::{models, Ev, Sig};
use crate::g::{hash_str, G};
use crate::runner::{Case, Viol};
use crate::sexp::*;
use crate::step::describe_model;
use crate::terms::mutate;

#[derive(Clone, Debug, PartialEq)]
pub enum Cmd {
    Assume { id: String, t: E },
    Step { id: String, cl: Vec<E>, rule: String, prems: Vec<String>, args: Vec<E>, discharge: Vec<String> },
    Sub { id: String, args: Vec<E>, body: Vec<Cmd> },
}
impl Cmd {
    pub fn step(id: &str, cl: Vec<E>, rule: &str, prems: Vec<String>, args: Vec<E>) -> Cmd {
        Cmd::Step { id: id.into(), cl, rule: rule.into(), prems, args, discharge: vec![] }
    }
    pub fn id(&self) -> &str {
        match self {
            Cmd::Assume { id, .. } | Cmd::Step { id, .. } | Cmd::Sub { id, .. } => id,
        }
    }
    /// clause of a step or of the closing step of a subproof
    pub fn clause(&self) -> Vec<E> {
        match self {
            Cmd::Assume { t, .. } => vec![t.clone()],
            Cmd::Step { cl, .. } => cl.clone(),
            Cmd::Sub { body, .. } => body.last().map_or(vec![], |c| c.clause()),
        }
    }
}
pub fn print(cmds: &[Cmd]) -> String {
    let mut o = String::new();
    fn go(cmds: &[Cmd], o: &mut String) {
        for c in cmds {
            match c {
                Cmd::Assume { id, t } => o.push_str(&format!("(assume {id} {t})\n")),
                Cmd::Step { id, cl, rule, prems, args, discharge } => {
                    o.push_str(&format!("(step {id} {} :rule {rule}", crate::step::cl(cl)));
                    if !prems.is_empty() {
                        o.push_str(&format!(" :premises ({})", prems.join(" ")));
                    }
                    if !args.is_empty() {
                        let s: Vec<String> = args.iter().map(|x| x.to_string()).collect();
                        o.push_str(&format!(" :args ({})", s.join(" ")));
                    }
                    if !discharge.is_empty() {
                        o.push_str(&format!(" :discharge ({})", discharge.join(" ")));
                    }
                    o.push_str(")\n");
                }
                Cmd::Sub { id, args, body } => {
                    o.push_str(&format!("(anchor :step {id}"));
                    if !args.is_empty() {
                        let s: Vec<String> = args.iter().map(|x| x.to_string()).collect();
                        o.push_str(&format!(" :args ({})", s.join(" ")));
                    }
                    o.push_str(")\n");
                    go(body, o);
                }
            }
        }
    }
    go(cmds, &mut o);
    o
}
/// Parses proof text (no term sharing) into commands.
pub fn parse_proof(s: &str) -> Result<Vec<Cmd>, String> {
    let es = parse_all(s)?;
    let mut stack: Vec<(String, Vec<E>, Vec<Cmd>)> = vec![(String::new(), vec![], vec![])];
    for e in es {
        let v = e.list().ok_or("not a command")?.to_vec();
        let attr = |k: &str| -> Option<E> { v.iter().position(|x| x.is(k)).and_then(|i| v.get(i + 1).cloned()) };
        let ids = |x: Option<E>| -> Vec<String> { x.and_then(|x| x.list().map(|l| l.iter().map(|y| y.to_string()).collect())).unwrap_or_default() };
        match v.first().and_then(|x| x.atom()).unwrap_or("") {
            "assume" => {
                let c = Cmd::Assume { id: v.get(1).ok_or("id")?.to_string(), t: v.get(2).ok_or("term")?.clone() };
                stack.last_mut().unwrap().2.push(c);
            }
            "anchor" => {
                let id = attr(":step").ok_or("anchor")?.to_string();
                let args = attr(":args").and_then(|x| x.list().map(|l| l.to_vec())).unwrap_or_default();
                stack.push((id, args, vec![]));
            }
            "step" => {
                let id = v.get(1).ok_or("id")?.to_string();
                let cl = v.get(2).and_then(|x| x.list()).ok_or("cl")?[1..].to_vec();
                let c = Cmd::Step {
                    id: id.clone(),
                    cl,
                    rule: attr(":rule").ok_or("rule")?.to_string(),
                    prems: ids(attr(":premises")),
                    args: attr(":args").and_then(|x| x.list().map(|l| l.to_vec())).unwrap_or_default(),
                    discharge: ids(attr(":discharge")),
                };
                stack.last_mut().unwrap().2.push(c);
                if stack.len() > 1 && stack.last().unwrap().0 == id {
                    let (id, args, body) = stack.pop().unwrap();
                    stack.last_mut().unwrap().2.push(Cmd::Sub { id, args, body });
                }
            }
            x => return Err(format!("unknown command {x}")),
        }
    }
    if stack.len() != 1 {
        return Err("unclosed subproof".into());
    }
    Ok(stack.pop().unwrap().2)
}

pub fn for_each(cmds: &[Cmd], f: &mut dyn FnMut(&Cmd, usize)) {
    fn go(cmds: &[Cmd], d: usize, f: &mut dyn FnMut(&Cmd, usize)) {
        for c in cmds {
            f(c, d);
            if let Cmd::Sub { body, .. } = c {
                go(body, d + 1, f);
            }
        }
    }
    go(cmds, 0, f)
}
pub fn for_each_mut(cmds: &mut Vec<Cmd>, f: &mut dyn FnMut(&mut Cmd)) {
    for c in cmds {
        f(c);
        if let Cmd::Sub { body, .. } = c {
            for_each_mut(body, f);
        }
    }
}
/// Applies `f` to every term of the commands (clause literals, args, anchor args).
pub fn map_terms(cmds: &mut Vec<Cmd>, f: &mut dyn FnMut(&E) -> E) {
    for_each_mut(cmds, &mut |c| match c {
        Cmd::Assume { t, .. } => *t = f(t),
        Cmd::Step { cl, args, .. } => {
            for x in cl.iter_mut().chain(args.iter_mut()) {
                *x = f(x);
            }
        }
        Cmd::Sub { args, .. } => {
            for x in args.iter_mut() {
                *x = f(x);
            }
        }
    })
}

/// (name, sort or value expression, is assignment)
pub fn anchor_arg(e: &E) -> Option<(String, E, bool)> {
    let v = e.list()?;
    if v.first()?.is(":=") {
        // (:= (x S) t) or (:= x t)
        let n = match &v[1] {
            A(s) => s.to_string(),
            L(b) => b.first()?.atom()?.to_string(),
        };
        Some((n, v.get(2)?.clone(), true))
    } else {
        Some((v.first()?.atom()?.to_string(), v.get(1)?.clone(), false))
    }
}

pub struct Closure {
    pub id: String,
    pub rule: String,
    pub depth: usize,
    pub f: E,
    pub hyp: bool,
}
/// The meaning of every command as a closed formula: the variables of the enclosing anchors are
/// universally quantified, assigned variables stand for their values, local assumptions are
/// hypotheses. The closing step of a subproof belongs to the outer context.
pub fn closures(cmds: &[Cmd], holes: &[&str]) -> Vec<Closure> {
    struct Frame {
        args: Vec<E>,
        hyps: Vec<E>,
    }
    fn wrap(f: E, path: &[Frame]) -> E {
        let mut f = f;
        for fr in path.iter().rev() {
            if !fr.hyps.is_empty() {
                f = ap2("=>", ap_or_single("and", fr.hyps.clone()), f);
            }
            for x in fr.args.iter().rev() {
                if let Some((n, t, asg)) = anchor_arg(x) {
                    f = if asg { L(vec![a("let"), L(vec![L(vec![a(&n), t])]), f]) } else { bind("forall", &[(a(&n), t)], f) };
                }
            }
        }
        f
    }
    fn disj(cl: &[E]) -> E {
        match cl.len() {
            0 => a("false"),
            _ => ap_or_single("or", cl.to_vec()),
        }
    }
    fn go(cmds: &[Cmd], path: &mut Vec<Frame>, closing: bool, holes: &[&str], out: &mut Vec<Closure>) {
        for (i, c) in cmds.iter().enumerate() {
            match c {
                Cmd::Assume { id, t } => {
                    if path.is_empty() {
                        out.push(Closure { id: id.clone(), rule: "assume".into(), depth: 0, f: t.clone(), hyp: true });
                    } else {
                        path.last_mut().unwrap().hyps.push(t.clone());
                    }
                }
                Cmd::Step { id, cl, rule, .. } => {
                    let is_close = closing && i + 1 == cmds.len();
                    let p = if is_close { &path[..path.len() - 1] } else { &path[..] };
                    out.push(Closure { id: id.clone(), rule: rule.clone(), depth: p.len(), f: wrap(disj(cl), p), hyp: holes.contains(&&**rule) });
                }
                Cmd::Sub { args, body, .. } => {
                    path.push(Frame { args: args.clone(), hyps: vec![] });
                    go(body, path, true, holes, out);
                    path.pop();
                }
            }
        }
    }
    let mut out = vec![];
    go(cmds, &mut vec![], false, holes, &mut out);
    out
}
/// No anchor re-uses a name that already means something in its scope.
pub fn hygienic(cmds: &[Cmd], sig: &Sig) -> bool {
    fn go(cmds: &[Cmd], names: &mut Vec<String>) -> bool {
        for c in cmds {
            if let Cmd::Sub { args, body, .. } = c {
                let k = names.len();
                for x in args {
                    let Some((n, _, _)) = anchor_arg(x) else { return false };
                    if names.contains(&n) {
                        return false;
                    }
                    names.push(n);
                }
                if !go(body, names) {
                    return false;
                }
                names.truncate(k);
            }
        }
        true
    }
    let mut names: Vec<String> = sig.funs.iter().map(|f| f.0.to_string()).collect();
    go(cmds, &mut names)
}

#[derive(Clone, Debug, Default)]
pub struct Prf {
    pub sig: Sig,
    /// asserts of the problem
    pub asserts: Vec<E>,
    pub cmds: Vec<Cmd>,
    pub label: String,
}
impl Prf {
    pub fn problem(&self) -> String {
        let mut o = self.sig.prelude();
        for x in &self.asserts {
            o.push_str(&format!("(assert {x})\n"));
        }
        o
    }
    pub fn proof(&self) -> String {
        print(&self.cmds)
    }
    pub fn files(&self) -> Vec<(String, String)> {
        vec![("problem.smt2".into(), self.problem()), ("proof.alethe".into(), self.proof())]
    }
}

/// Looks for a model of all hypotheses in which a judged step is false.
pub fn countermodel(p: &Prf, n: usize, seed: u64, deep: bool) -> (Option<(Closure, String)>, usize) {
    let cs = closures(&p.cmds, &["hole"]);
    let mut live = 0;
    for m in models(&p.sig, n, seed) {
        let mut ok = true;
        for c in cs.iter().filter(|c| c.hyp) {
            if Ev::new(&m).bool(&c.f) != Some(true) {
                ok = false;
                break;
            }
        }
        if !ok {
            continue;
        }
        let mut any = false;
        for c in cs.iter().filter(|c| !c.hyp && (deep || c.depth == 0)) {
            match Ev::new(&m).bool(&c.f) {
                Some(true) => any = true,
                None => {}
                Some(false) => {
                    let c = Closure { id: c.id.clone(), rule: c.rule.clone(), depth: c.depth, f: c.f.clone(), hyp: false };
                    return (Some((c, describe_model(&p.sig, &m))), live + 1);
                }
            }
        }
        if any {
            live += 1;
        }
    }
    (None, live)
}

pub fn judge(g: &mut G, name: &str, p: &Prf, nmut: usize, nmodels: usize, opts: &Opts) -> Case {
    let mut c = Case::default();
    let (pb, pf) = (p.problem(), p.proof());
    c.key = hash_str(&pf);
    let v = carc::check(&pb, &pf, opts);
    let seed = g.seed();
    let m = if nmut > 0 { "mutant-" } else { "valid-" };
    match &v {
        Verdict::ParseErr(_) => {
            c.label(format!("{name}:unparsed"));
            return c;
        }
        Verdict::Panic(_) => {
            c.label(format!("{name}:panic"));
            return c;
        }
        Verdict::Rejected(_, rule, _) => {
            c.label(format!("{name}:{m}rejected:{rule}"));
            c.nontrivial = true;
            return c;
        }
        _ => {}
    }
    let deep = hygienic(&p.cmds, &p.sig);
    let (cm, live) = countermodel(p, nmodels, seed, deep);
    c.label(format!("{name}:{m}accepted{}", if live == 0 { ":vacuous" } else { "" }));
    c.nontrivial = live > 0 || cm.is_some();
    c.sample = pf.clone();
    if let Some((cl, model)) = cm {
        c.viol = Some(Viol {
            sig: format!("unsound {}", cl.rule),
            msg: format!("the accepted proof has step {} ({}) whose meaning {} is false in a model of all its hypotheses: {model}", cl.id, cl.rule, cl.f),
            files: p.files(),
        });
    }
    c
}
pub fn complete(name: &str, p: &Prf, opts: &Opts) -> Case {
    let mut c = Case::default();
    let (pb, pf) = (p.problem(), p.proof());
    c.key = hash_str(&pf);
    let v = carc::check(&pb, &pf, opts);
    c.nontrivial = true;
    c.label(name.to_string());
    c.sample = pf;
    if !v.steps_accepted() {
        let rule = match &v {
            Verdict::Rejected(_, r, _) => r.clone(),
            _ => v.class().to_string(),
        };
        c.viol = Some(Viol { sig: format!("rejects valid proof at {rule}"), msg: format!("a correct proof ({name}) is not accepted: {v:?}"), files: p.files() });
    }
    c
}

pub fn names_of(cmds: &[Cmd]) -> Vec<String> {
    let mut out = vec![];
    for_each(cmds, &mut |c, _| {
        if let Cmd::Sub { args, .. } = c {
            for x in args {
                if let Some((n, _, _)) = anchor_arg(x) {
                    if !out.contains(&n) {
                        out.push(n);
                    }
                }
            }
        }
    });
    out
}
/// the i-th command in pre-order
pub fn nth_mut<'a>(cmds: &'a mut Vec<Cmd>, n: &mut usize) -> Option<&'a mut Cmd> {
    for c in cmds.iter_mut() {
        if *n == 0 {
            return Some(c);
        }
        *n -= 1;
        if let Cmd::Sub { body, .. } = c {
            if let Some(x) = nth_mut(body, n) {
                return Some(x);
            }
        }
    }
    None
}
fn ids_of(cmds: &[Cmd]) -> Vec<String> {
    let mut v = vec![];
    for_each(cmds, &mut |c, _| v.push(c.id().to_string()));
    v
}

pub fn mutate_prf(g: &mut G, p: &mut Prf) {
    let ids = ids_of(&p.cmds);
    let k = g.weighted(&[6, 3, 4, 3, 3, 2, 2]);
    match k {
        // consistently rename a bound name to another name
        0 | 1 => {
            let names = names_of(&p.cmds);
            if names.is_empty() {
                return;
            }
            let from = names[g.u(names.len())].clone();
            let mut tos: Vec<String> = names.iter().filter(|x| **x != from).cloned().collect();
            for f in &p.sig.funs {
                if f.1.is_empty() {
                    tos.push(f.0.to_string());
                }
            }
            if tos.is_empty() {
                return;
            }
            let to = a(&tos[g.u(tos.len())]);
            if k == 0 {
                map_terms(&mut p.cmds, &mut |t| t.replace_atom(&from, &to));
            } else {
                // only in one subproof
                let subs: Vec<usize> = {
                    let mut v = vec![];
                    let mut i = 0;
                    for_each(&p.cmds, &mut |c, _| {
                        if matches!(c, Cmd::Sub { .. }) {
                            v.push(i);
                        }
                        i += 1;
                    });
                    v
                };
                let mut n = subs[g.u(subs.len())];
                if let Some(Cmd::Sub { args, body, .. }) = nth_mut(&mut p.cmds, &mut n) {
                    for x in args.iter_mut() {
                        *x = x.replace_atom(&from, &to);
                    }
                    map_terms(body, &mut |t| t.replace_atom(&from, &to));
                }
            }
        }
        // one literal
        2 => {
            let mut n = g.u(ids.len());
            let sig = p.sig.clone();
            match nth_mut(&mut p.cmds, &mut n) {
                Some(Cmd::Step { cl, .. }) if !cl.is_empty() => {
                    let i = g.u(cl.len());
                    let pool = cl.clone();
                    cl[i] = mutate(g, &cl[i], &sig, &pool);
                }
                Some(Cmd::Assume { t, .. }) => *t = mutate(g, t, &sig, &[]),
                _ => {}
            }
        }
        // anchor arguments
        3 => {
            let mut n = g.u(ids.len());
            let sig = p.sig.clone();
            // find a subproof at or after n
            for _ in 0..ids.len() {
                let mut k = n;
                if let Some(Cmd::Sub { args, .. }) = nth_mut(&mut p.cmds, &mut k) {
                    if !args.is_empty() {
                        let i = g.u(args.len());
                        match g.u(5) {
                            0 => {
                                args.remove(i);
                            }
                            1 => {
                                let x = args[i].clone();
                                args.push(x);
                            }
                            2 => {
                                let j = g.u(args.len());
                                args.swap(i, j);
                            }
                            3 => {
                                let j = g.u(args.len());
                                args[i] = args[j].clone();
                            }
                            _ => {
                                if args[i].args().len() == 2 && args[i].is_app(":=") {
                                    let x = mutate(g, &args[i].args()[1].clone(), &sig, &[]);
                                    args[i].set(&[2], x);
                                } else {
                                    args.remove(i);
                                }
                            }
                        }
                    }
                    break;
                }
                n = (n + 1) % ids.len();
            }
        }
        // premises and discharge
        4 => {
            let mut n = g.u(ids.len());
            let other = ids[g.u(ids.len())].clone();
            if let Some(Cmd::Step { prems, discharge, .. }) = nth_mut(&mut p.cmds, &mut n) {
                let l = if !discharge.is_empty() && g.bool() { discharge } else { prems };
                if !l.is_empty() {
                    let i = g.u(l.len());
                    match g.u(4) {
                        0 => {
                            l.remove(i);
                        }
                        1 => l[i] = other,
                        2 => {
                            let j = g.u(l.len());
                            l.swap(i, j);
                        }
                        _ => l.insert(i, other),
                    }
                } else if g.bool() {
                    l.push(other);
                }
            }
        }
        // drop a command or swap two
        5 => {
            fn lists<'a>(cmds: &'a mut Vec<Cmd>, n: &mut usize) -> Option<&'a mut Vec<Cmd>> {
                if *n == 0 {
                    return Some(cmds);
                }
                *n -= 1;
                for c in cmds.iter_mut() {
                    if let Cmd::Sub { body, .. } = c {
                        if let Some(x) = lists(body, n) {
                            return Some(x);
                        }
                    }
                }
                None
            }
            let mut n = g.u(4);
            if let Some(l) = lists(&mut p.cmds, &mut n) {
                if l.len() > 2 {
                    let i = g.u(l.len() - 1);
                    let j = g.u(l.len() - 1);
                    if g.bool() {
                        l.remove(i);
                    } else {
                        l.swap(i, j);
                    }
                }
            }
        }
        // another rule
        _ => {
            let mut n = g.u(ids.len());
            let r = g.pick_s(&["bind", "let", "bind_let", "onepoint", "sko_ex", "sko_forall", "subproof", "refl", "cong", "trans"]);
            if let Some(Cmd::Step { rule, .. }) = nth_mut(&mut p.cmds, &mut n) {
                if rule != "hole" {
                    *rule = r.into();
                }
            }
        }
    }
}

/// Each step on its own: its premises' meanings must entail its own meaning, whether or not the
/// assertions are satisfiable.
pub fn step_countermodel(p: &Prf, n: usize, seed: u64, skip: &[&str]) -> Option<(String, String, String)> {
    let cs = closures(&p.cmds, &["hole"]);
    let mut prems: Vec<Vec<usize>> = vec![];
    {
        // pre-order of steps matches the order of closures, except that local assumptions have none
        let mut steps: Vec<(String, Vec<String>)> = vec![];
        fn go(cmds: &[Cmd], top: bool, closing: bool, out: &mut Vec<(String, Vec<String>)>) {
            for (i, c) in cmds.iter().enumerate() {
                match c {
                    Cmd::Assume { id, .. } => {
                        if top {
                            out.push((id.clone(), vec![]))
                        }
                    }
                    Cmd::Step { id, prems, .. } => {
                        let mut v = prems.clone();
                        if closing && i + 1 == cmds.len() && i > 0 {
                            v.push(cmds[i - 1].id().to_string());
                        }
                        out.push((id.clone(), v));
                    }
                    Cmd::Sub { body, .. } => go(body, false, true, out),
                }
            }
        }
        go(&p.cmds, true, false, &mut steps);
        if steps.len() != cs.len() {
            return None;
        }
        for (i, (_, v)) in steps.iter().enumerate() {
            prems.push(v.iter().filter_map(|q| steps[..i].iter().rposition(|s| s.0 == *q)).collect());
        }
    }
    for m in models(&p.sig, n, seed) {
        let vals: Vec<Option<bool>> = cs.iter().map(|c| Ev::new(&m).bool(&c.f)).collect();
        for i in 0..cs.len() {
            if cs[i].hyp || skip.contains(&&*cs[i].rule) || vals[i] != Some(false) {
                continue;
            }
            if prems[i].iter().all(|j| vals[*j] == Some(true)) {
                return Some((cs[i].id.clone(), cs[i].rule.clone(), describe_model(&p.sig, &m)));
            }
        }
    }
    None
}
