//! Single proof steps: generation helpers, printing, checking, mutation, soundness oracle.
use crate::carc::{self, Opts, Verdict};
use crate::eval::{models, Ev, Model, Sig};
use crate::g::{hash_str, G};
use crate::runner::{Case, Viol};
use crate::sexp::*;
use crate::terms::{mutate, Cfg, TG};

#[derive(Clone, Debug, Default)]
pub struct Step {
    pub sig: Sig,
    pub rule: String,
    pub prems: Vec<Vec<E>>,
    pub args: Vec<E>,
    pub concl: Vec<E>,
    pub label: String,
    /// extra text put before the final step (subproofs etc.) -- then `prems` are still the hypotheses
    pub discharge: Option<Vec<String>>,
}

pub fn cl(lits: &[E]) -> String {
    let mut s = String::from("(cl");
    for l in lits {
        s.push(' ');
        s.push_str(&l.to_string());
    }
    s.push(')');
    s
}

impl Step {
    pub fn new(sig: Sig, rule: &str, prems: Vec<Vec<E>>, args: Vec<E>, concl: Vec<E>) -> Step {
        Step { sig, rule: rule.into(), prems, args, concl, label: String::new(), discharge: None }
    }
    pub fn lab(mut self, l: &str) -> Step {
        self.label = l.into();
        self
    }
    pub fn problem(&self) -> String {
        self.sig.prelude()
    }
    pub fn proof(&self) -> String {
        let mut o = String::new();
        for (i, p) in self.prems.iter().enumerate() {
            o.push_str(&format!("(step h{i} {} :rule hole)\n", cl(p)));
        }
        o.push_str(&self.line("t"));
        o
    }
    pub fn line(&self, id: &str) -> String {
        let mut o = format!("(step {id} {} :rule {}", cl(&self.concl), self.rule);
        if !self.prems.is_empty() {
            let ids: Vec<String> = (0..self.prems.len()).map(|i| format!("h{i}")).collect();
            o.push_str(&format!(" :premises ({})", ids.join(" ")));
        }
        if !self.args.is_empty() {
            let s: Vec<String> = self.args.iter().map(|x| x.to_string()).collect();
            o.push_str(&format!(" :args ({})", s.join(" ")));
        }
        o.push_str(")\n");
        o
    }
    pub fn files(&self) -> Vec<(String, String)> {
        vec![("problem.smt2".into(), self.problem()), ("proof.alethe".into(), self.proof())]
    }
}

pub fn describe_model(sig: &Sig, m: &Model) -> String {
    let mut o = String::new();
    for (n, args, r) in &sig.funs {
        if args.is_empty() {
            if let Some(v) = m.consts.get(n) {
                o.push_str(&format!("{n} = {} ", show(v)));
            }
        } else {
            o.push_str(&format!("{n}: {args:?} -> {r:?} "));
        }
    }
    for s in &sig.sorts {
        o.push_str(&format!("|{s}| = {} ", m.size_of(s)));
    }
    o
}
pub fn show(v: &crate::eval::V) -> String {
    use crate::eval::V;
    match v {
        V::B(b) => b.to_string(),
        V::N(q) => q.to_string(),
        V::BV(w, x) => format!("bv{w}:{x}"),
        V::S(s) => format!("{:?}", s.iter().filter_map(|c| char::from_u32(*c)).collect::<String>()),
        V::U(n, i) => format!("{n}!{i}"),
        _ => format!("{v:?}"),
    }
}

pub struct SoundRes {
    pub counter: Option<String>,
    /// models in which the premises were true
    pub live: usize,
    /// models in which the conclusion was determined
    pub decided: usize,
}

/// Search for a model with all hypotheses true and the conclusion false.
pub fn entails(sig: &Sig, hyps: &[Vec<E>], concl: &[E], n: usize, seed: u64) -> SoundRes {
    let mut live = 0;
    let mut decided = 0;
    for m in models(sig, n, seed) {
        let mut ev = Ev::new(&m);
        // conclusion first: usually true, and then nothing else matters
        match ev.clause(concl) {
            Some(true) => {
                decided += 1;
                continue;
            }
            None => continue,
            Some(false) => decided += 1,
        }
        let mut ok = true;
        for h in hyps {
            let mut ev = Ev::new(&m);
            if ev.clause(h) != Some(true) {
                ok = false;
                break;
            }
        }
        if ok {
            live += 1;
            return SoundRes { counter: Some(describe_model(sig, &m)), live, decided };
        }
    }
    SoundRes { counter: None, live, decided }
}

/// Mutate a step in one place.
pub fn mutate_step(g: &mut G, s: &mut Step) {
    let pool: Vec<E> = s.concl.iter().chain(s.prems.iter().flatten()).cloned().collect();
    match g.weighted(&[10, 4, 3, 2, 3]) {
        0 => {
            if !s.concl.is_empty() {
                let i = g.u(s.concl.len());
                s.concl[i] = mutate(g, &s.concl[i], &s.sig, &pool);
            }
        }
        1 => mutate_clause(g, &mut s.concl, &pool),
        2 => {
            if !s.prems.is_empty() {
                let i = g.u(s.prems.len());
                if g.bool() && !s.prems[i].is_empty() {
                    let j = g.u(s.prems[i].len());
                    s.prems[i][j] = mutate(g, &s.prems[i][j], &s.sig, &pool);
                } else {
                    mutate_clause(g, &mut s.prems[i], &pool);
                }
            } else if !s.concl.is_empty() {
                let i = g.u(s.concl.len());
                s.concl[i] = mutate(g, &s.concl[i], &s.sig, &pool);
            }
        }
        3 => {
            if !s.prems.is_empty() {
                let i = g.u(s.prems.len());
                match g.u(3) {
                    0 => {
                        s.prems.remove(i);
                    }
                    1 => {
                        let x = s.prems[i].clone();
                        s.prems.push(x);
                    }
                    _ => {
                        let j = g.u(s.prems.len());
                        s.prems.swap(i, j);
                    }
                }
            }
        }
        _ => {
            if !s.args.is_empty() {
                let i = g.u(s.args.len());
                match g.u(6) {
                    0 => {
                        s.args.remove(i);
                    }
                    1 => {
                        let x = s.args[i].clone();
                        s.args.insert(i, x);
                    }
                    2 => {
                        let j = g.u(s.args.len());
                        s.args.swap(i, j);
                    }
                    3 => {
                        s.args[i] = if s.args[i].is("true") {
                            a("false")
                        } else if s.args[i].is("false") {
                            a("true")
                        } else {
                            mutate(g, &s.args[i], &s.sig, &pool)
                        }
                    }
                    _ => s.args[i] = mutate(g, &s.args[i], &s.sig, &pool),
                }
            } else if !s.concl.is_empty() {
                let i = g.u(s.concl.len());
                s.concl[i] = mutate(g, &s.concl[i], &s.sig, &pool);
            }
        }
    }
}
pub fn mutate_clause(g: &mut G, c: &mut Vec<E>, pool: &[E]) {
    match g.u(6) {
        0 if !c.is_empty() => {
            let i = g.u(c.len());
            c.remove(i);
        }
        1 if !c.is_empty() => {
            let i = g.u(c.len());
            let x = c[i].clone();
            c.insert(i, x);
        }
        2 if c.len() > 1 => {
            let i = g.u(c.len());
            let j = g.u(c.len());
            c.swap(i, j);
        }
        3 if !pool.is_empty() => {
            let i = g.u(pool.len());
            let j = g.u(c.len() + 1);
            c.insert(j, pool[i].clone());
        }
        4 if !c.is_empty() && !pool.is_empty() => {
            let i = g.u(c.len());
            let j = g.u(pool.len());
            c[i] = pool[j].clone();
        }
        _ if !c.is_empty() => {
            let i = g.u(c.len());
            c[i] = if c[i].is_app("not") && c[i].args().len() == 1 && g.bool() { c[i].args()[0].clone() } else { not(c[i].clone()) };
        }
        _ => {}
    }
}

pub type Fam = (&'static str, fn(&mut G) -> Step);

/// Soundness case: generate an instance, usually mutate, check, and search for a countermodel.
pub fn sound_case(g: &mut G, fams: &[Fam], nmodels: usize, opts: &Opts) -> Case {
    sound_case_if(g, fams, nmodels, opts, |_| true)
}
/// As `sound_case`, for the steps the property is about.
pub fn sound_case_if(g: &mut G, fams: &[Fam], nmodels: usize, opts: &Opts, judged: fn(&Step) -> bool) -> Case {
    let (name, f) = fams[g.u(fams.len())];
    g.wild = true;
    let mut s = f(g);
    let nmut = g.weighted(&[3, 6, 3, 1]);
    for _ in 0..nmut {
        mutate_step(g, &mut s);
    }
    // Guided by the checker's own message ("expected X, got Y"), turn a rejected mutant into one the
    // checker may accept: what it expects must still be true in every model.
    if nmut > 0 && g.chance(1, 2) {
        for _ in 0..2 {
            let Verdict::Rejected(id, _, msg) = carc::check(&s.problem(), &s.proof(), opts) else { break };
            if id != "t" || !repair(g, &mut s, &msg) {
                break;
            }
        }
    }
    if !judged(&s) {
        let mut c = Case::default();
        c.label(format!("{name}:out-of-scope"));
        return c;
    }
    judge_step(g, name, &s, nmut, nmodels, opts)
}

/// Terms quoted in an error message.
fn quoted(msg: &str) -> Vec<E> {
    let mut out: Vec<E> = Vec::new();
    let mut parts = msg.split('\'');
    parts.next();
    while let Some(p) = parts.next() {
        if let Ok(v) = parse_all(p) {
            if v.len() == 1 && !out.contains(&v[0]) {
                out.push(v[0].clone());
            }
        }
        parts.next();
    }
    out
}
/// Replaces one of the terms of an error message by another one in the step.
pub fn repair(g: &mut G, s: &mut Step, msg: &str) -> bool {
    let ts = quoted(msg);
    let mut cand: Vec<(usize, E, E)> = vec![];
    for x in &ts {
        for y in &ts {
            if x == y || y.contains(x) {
                continue;
            }
            for (i, c) in s.concl.iter().enumerate() {
                if c.contains(x) {
                    cand.push((i, x.clone(), y.clone()));
                }
            }
        }
    }
    if cand.is_empty() {
        // "term X is missing in the conclusion" and the like
        if let (Some(x), true) = (ts.first(), msg.contains("missing")) {
            s.concl.push(x.clone());
            return true;
        }
        return false;
    }
    let (i, x, y) = cand[g.u(cand.len())].clone();
    let ps: Vec<Vec<usize>> = s.concl[i].paths().into_iter().filter(|p| s.concl[i].get(p) == &x).collect();
    if ps.is_empty() {
        return false;
    }
    if g.bool() {
        s.concl[i] = s.concl[i].replace(&x, &y);
    } else {
        let p = ps[g.u(ps.len())].clone();
        s.concl[i].set(&p, y);
    }
    true
}

pub fn judge_step(g: &mut G, name: &str, s: &Step, nmut: usize, nmodels: usize, opts: &Opts) -> Case {
    let mut c = Case::default();
    let pb = s.problem();
    let pf = s.proof();
    c.key = hash_str(&pf);
    let v = carc::check(&pb, &pf, opts);
    let seed = g.seed();
    match &v {
        Verdict::ParseErr(_) => {
            c.label(format!("{name}:unparsed"));
            return c;
        }
        Verdict::Panic(_) => {
            c.label(format!("{name}:panic"));
            return c;
        }
        Verdict::Rejected(id, ..) if id != "t" => {
            c.label(format!("{name}:other"));
            return c;
        }
        Verdict::Rejected(..) => {
            c.label(format!("{name}:{}rejected", if nmut > 0 { "mutant-" } else { "valid-" }));
            c.nontrivial = true;
            return c;
        }
        _ => {}
    }
    c.nontrivial = true;
    c.label(format!("{name}:{}accepted", if nmut > 0 { "mutant-" } else { "valid-" }));
    c.sample = pf.clone();
    let r = entails(&s.sig, &s.prems, &s.concl, nmodels, seed);
    if r.decided == 0 {
        c.label(format!("{name}:undecided"));
        c.nontrivial = false;
    }
    if let Some(m) = r.counter {
        c.viol = Some(Viol {
            sig: format!("unsound {}", s.rule),
            msg: format!("rule {} accepts a step that is false in a model: {}", s.rule, m),
            files: s.files(),
        });
    }
    c
}

/// Completeness case: an unmutated instance must be accepted.
pub fn complete_case(g: &mut G, fams: &[Fam], opts: &Opts) -> Case {
    let (name, f) = fams[g.u(fams.len())];
    let s = f(g);
    complete_judge(name, &s, opts)
}
pub fn complete_judge(name: &str, s: &Step, opts: &Opts) -> Case {
    let mut c = Case::default();
    let pb = s.problem();
    let pf = s.proof();
    c.key = hash_str(&pf);
    let v = carc::check(&pb, &pf, opts);
    c.nontrivial = true;
    c.label(format!("{name}{}", if s.label.is_empty() { String::new() } else { format!("/{}", s.label) }));
    c.sample = pf;
    if !v.steps_accepted() {
        c.viol = Some(Viol {
            sig: format!("rejects valid {}{}{}", s.rule, if s.label.is_empty() { "" } else { "/" }, s.label),
            msg: format!("a correct instance of {} ({name}) is not accepted: {v:?}", s.rule),
            files: s.files(),
        });
    }
    c
}

/// Instantiates `$1`..`$9` in template S-expressions with random Boolean terms.
pub fn tmpl(g: &mut G, cfg: Cfg, d: usize, rule: &str, prems: &[&str], concl: &str) -> Step {
    let mut tg = TG::new(g, cfg);
    let mut sub: Vec<Option<E>> = vec![None; 10];
    let mut inst = |t: &str| -> Vec<E> {
        fn go(e: &E, sub: &mut Vec<Option<E>>, tg: &mut TG, d: usize) -> E {
            match e {
                A(s) if s.starts_with('$') => {
                    let i: usize = s[1..].parse().unwrap();
                    if sub[i].is_none() {
                        // sometimes reuse another meta-variable's term, or a related one
                        let have: Vec<E> = sub.iter().flatten().cloned().collect();
                        let t = if !have.is_empty() && tg.g.chance(1, 8) {
                            have[tg.g.u(have.len())].clone()
                        } else if !have.is_empty() && tg.g.chance(1, 10) {
                            not(have[tg.g.u(have.len())].clone())
                        } else {
                            let dd = tg.g.u(d + 1);
                            tg.boolt(dd)
                        };
                        sub[i] = Some(t);
                    }
                    sub[i].clone().unwrap()
                }
                A(_) => e.clone(),
                L(v) => L(v.iter().map(|x| go(x, sub, tg, d)).collect()),
            }
        }
        parse_all(t).unwrap().iter().map(|e| go(e, &mut sub, &mut tg, d)).collect()
    };
    let prems: Vec<Vec<E>> = prems.iter().map(|p| inst(p)).collect();
    let concl = inst(concl);
    Step::new(tg.sig, rule, prems, vec![], concl)
}
