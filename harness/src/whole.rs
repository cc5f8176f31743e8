//! Closed refutations: whole problems with proofs of the empty clause.
use crate::eval::Sig;
use crate::g::G;
use crate::prf::*;
use crate::sexp::*;
use crate::step::{Fam, Step};
use crate::terms::*;
use crate::*;

fn strip(e: &E) -> E {
    let mut e = e.clone();
    while e.is_app("not") {
        e = e.args()[0].clone();
    }
    e
}
fn neg(e: &E) -> E {
    if e.is_app("not") { e.args()[0].clone() } else { not(e.clone()) }
}

struct B<'g> {
    tg: TG<'g>,
    atoms: Vec<E>,
    asserts: Vec<E>,
    next: usize,
    budget: i32,
    holes: bool,
    names: usize,
    extra_fams: bool,
}
/// a scope level: commands, and the (id, clause) of everything derived in it
#[derive(Default)]
struct Lvl {
    cmds: Vec<Cmd>,
    facts: Vec<(String, Vec<E>)>,
}
impl B<'_> {
    fn id(&mut self) -> String {
        self.next += 1;
        match self.names {
            0 => format!("t{}", self.next),
            1 => format!("t{}.t{}", self.next / 3, self.next),
            2 => format!("|s {}|", self.next),
            _ => format!("@{}x", self.next),
        }
    }
    fn push(&mut self, lv: &mut [Lvl], at: usize, c: Cmd) -> String {
        let id = c.id().to_string();
        let cl = c.clause();
        lv[at].cmds.push(c);
        lv[at].facts.push((id.clone(), cl));
        id
    }
    fn assume(&mut self, lv: &mut [Lvl], t: &E) -> String {
        // top level assumption: only usable from the current position on, so it must be put into
        // the outermost level, before the open subproofs
        let f = lv[0].facts.iter().find(|f| f.1.len() == 1 && f.1[0] == *t && f.0.contains('h'));
        if let Some(f) = f {
            if self.tg.g.chance(3, 4) {
                return f.0.clone();
            }
        }
        if !self.asserts.contains(t) {
            self.asserts.push(t.clone());
        }
        self.next += 1;
        let id = format!("h{}", self.next);
        self.push(lv, 0, Cmd::Assume { id: id.clone(), t: t.clone() })
    }
    fn step(&mut self, lv: &mut [Lvl], cl: &[E], rule: &str, prems: Vec<String>, args: Vec<E>) -> String {
        let id = self.id();
        let at = lv.len() - 1;
        self.push(lv, at, Cmd::step(&id, cl.to_vec(), rule, prems, args))
    }
    fn atom(&mut self) -> E {
        let n = self.atoms.len();
        if n > 0 && self.tg.g.chance(4, 5) {
            return self.atoms[self.tg.g.u(n)].clone();
        }
        let d = self.tg.g.u(3);
        let mut t = self.tg.boolt(d);
        t = strip(&t);
        self.atoms.push(t.clone());
        t
    }
    /// derive exactly this clause (literals in this order, no duplicates, not tautological)
    fn derive(&mut self, c: &[E], lv: &mut Vec<Lvl>, d: usize) -> String {
        self.budget -= 1;
        // reuse
        let reuse = lv.iter().flat_map(|l| l.facts.iter()).find(|f| f.1 == c).map(|f| f.0.clone());
        if let Some(id) = reuse {
            if self.tg.g.chance(4, 5) {
                return id;
            }
        }
        if d == 0 || self.budget <= 0 {
            return self.leaf(c, lv);
        }
        let k = self.tg.g.weighted(&[5, 1, 2, 1, 1]);
        match k {
            // resolution
            0 => {
                let mut p = self.atom();
                let mut tries = 0;
                while c.iter().any(|l| strip(l) == p) && tries < 5 {
                    p = self.atom();
                    tries += 1;
                }
                if c.iter().any(|l| strip(l) == p) {
                    return self.leaf(c, lv);
                }
                let (mut l, mut r) = (vec![], vec![]);
                for x in c {
                    match self.tg.g.u(3) {
                        0 => l.push(x.clone()),
                        1 => r.push(x.clone()),
                        _ => {
                            l.push(x.clone());
                            r.push(x.clone());
                        }
                    }
                }
                let (i, j) = (self.tg.g.u(l.len() + 1), self.tg.g.u(r.len() + 1));
                l.insert(i, p.clone());
                r.insert(j, not(p.clone()));
                let a1 = self.derive(&l, lv, d - 1);
                let a2 = self.derive(&r, lv, d - 1);
                let swap = self.tg.g.chance(1, 4);
                let args = if self.tg.g.chance(1, 3) { vec![p, a(if swap { "false" } else { "true" })] } else { vec![] };
                let prems = if swap { vec![a2, a1] } else { vec![a1, a2] };
                let rule = self.tg.g.pick_s(&["resolution", "th_resolution"]);
                self.step(lv, c, rule, prems, args)
            }
            // weakening
            1 if !c.is_empty() => {
                let n = self.tg.g.u(c.len()).max(1);
                let s = self.derive(&c[..n], lv, d - 1);
                if n == c.len() { s } else { self.step(lv, c, "weakening", vec![s], vec![]) }
            }
            // subproof
            2 if !c.is_empty() && c[..c.len() - 1].iter().all(|l| l.is_app("not")) && lv.len() < 5 => {
                let sid = self.id();
                lv.push(Lvl::default());
                let at = lv.len() - 1;
                let mut dis = vec![];
                for l in &c[..c.len() - 1] {
                    let hid = self.id();
                    let h = l.args()[0].clone();
                    self.push(lv, at, Cmd::Assume { id: hid.clone(), t: h });
                    dis.push(hid);
                }
                let goal = vec![c[c.len() - 1].clone()];
                // goal from the local assumptions
                if dis.is_empty() || self.tg.g.chance(1, 5) {
                    let s = self.derive(&goal, lv, d - 1);
                    self.step(lv, &goal, "reordering", vec![s], vec![]);
                } else {
                    let s = self.derive(c, lv, d - 1);
                    let mut prems = vec![s];
                    prems.extend(dis.iter().cloned());
                    self.step(lv, &goal, "resolution", prems, vec![]);
                }
                let lvl = lv.pop().unwrap();
                let mut body = lvl.cmds;
                body.push(Cmd::Step { id: sid.clone(), cl: c.to_vec(), rule: "subproof".into(), prems: vec![], args: vec![], discharge: dis });
                let at = lv.len() - 1;
                lv[at].cmds.push(Cmd::Sub { id: sid.clone(), args: vec![], body });
                lv[at].facts.push((sid.clone(), c.to_vec()));
                sid
            }
            // reordering
            3 if c.len() > 1 => {
                let mut c2 = c.to_vec();
                self.tg.g.shuffle(&mut c2);
                let s = self.derive(&c2, lv, d - 1);
                self.step(lv, c, "reordering", vec![s], vec![])
            }
            4 if !c.is_empty() => {
                // contraction
                let mut c2 = c.to_vec();
                let i = self.tg.g.u(c.len());
                c2.push(c[i].clone());
                let s = self.leaf(&c2, lv);
                self.step(lv, c, "contraction", vec![s], vec![])
            }
            _ => self.leaf(c, lv),
        }
    }
    fn leaf(&mut self, c: &[E], lv: &mut Vec<Lvl>) -> String {
        if self.holes && self.tg.g.chance(1, 6) {
            let r = self.tg.g.pick_s(&["hole", "lia_generic", "hole"]);
            return self.step(lv, c, r, vec![], vec![]);
        }
        match c {
            [] => {
                let p = self.atom();
                let x = self.leaf(&[p.clone()], lv);
                let y = self.leaf(&[not(p)], lv);
                self.step(lv, &[], "resolution", vec![x, y], vec![])
            }
            [x] => {
                match self.tg.g.u(5) {
                    0 => {
                        // through a conjunction
                        let y = self.atom();
                        let (conj, i) = if self.tg.g.bool() { (vec![x.clone(), y], 0) } else { (vec![y, x.clone()], 1) };
                        let h = self.assume(lv, &and(conj));
                        self.step(lv, c, "and", vec![h], vec![int(i)])
                    }
                    1 if x.is_app("not") => {
                        let y = self.atom();
                        let (dj, i) = if self.tg.g.bool() { (vec![x.args()[0].clone(), y], 0) } else { (vec![y, x.args()[0].clone()], 1) };
                        let h = self.assume(lv, &not(or(dj)));
                        self.step(lv, c, "not_or", vec![h], vec![int(i)])
                    }
                    2 if x.is_app("=") && x.args().len() == 2 => {
                        let v = x.args();
                        let h = self.assume(lv, &eq(v[1].clone(), v[0].clone()));
                        self.step(lv, c, "symm", vec![h], vec![])
                    }
                    _ => self.assume(lv, x),
                }
            }
            [x, y] if x.is_app("not") && self.tg.g.bool() => match self.tg.g.u(2) {
                0 => {
                    let h = self.assume(lv, &ap2("=>", x.args()[0].clone(), y.clone()));
                    self.step(lv, c, "implies", vec![h], vec![])
                }
                _ => {
                    let h = self.assume(lv, &eq(x.args()[0].clone(), y.clone()));
                    self.step(lv, c, "equiv1", vec![h], vec![])
                }
            },
            _ => {
                let h = self.assume(lv, &or(c.to_vec()));
                self.step(lv, c, "or", vec![h], vec![])
            }
        }
    }
}
/// A refutation of random asserted formulas by resolution and subproofs.
pub fn refutation(g: &mut G, cfg: Cfg, holes: bool, depth: usize, budget: i32) -> Prf {
    let names = if g.chance(1, 4) { g.u(4) } else { 0 };
    let tg = TG::new(g, cfg);
    let mut b = B { tg, atoms: vec![], asserts: vec![], next: 0, budget, holes, names, extra_fams: false };
    let _ = b.extra_fams;
    let mut lv = vec![Lvl::default()];
    // the last step must be at top level and conclude the empty clause
    let goal: Vec<E> = vec![];
    b.derive(&goal, &mut lv, depth);
    let cmds = lv.pop().unwrap().cmds;
    let mut asserts = b.asserts.clone();
    // unrelated assertions, and assertion order
    if b.tg.g.bool() {
        let t = b.atom();
        asserts.push(t);
    }
    if b.tg.g.bool() {
        b.tg.g.shuffle(&mut asserts);
    }
    let mut sig = b.tg.sig;
    sig.sorts.dedup();
    // assumptions come first in half of the proofs
    let _ = &mut sig;
    Prf { sig, asserts, cmds, label: "refutation".into() }
}
/// Makes hypotheses (top-level holes) assertions, and refutes the last clause.
pub fn close(p: &Prf, as_assumes: bool) -> Prf {
    let mut asserts = p.asserts.clone();
    let mut cmds = vec![];
    for c in &p.cmds {
        match c {
            Cmd::Step { id, cl, rule, prems, .. } if rule == "hole" && as_assumes && prems.is_empty() && !cl.is_empty() => {
                if cl.len() == 1 {
                    asserts.push(cl[0].clone());
                    cmds.push(Cmd::Assume { id: id.clone(), t: cl[0].clone() });
                } else {
                    let t = or(cl.clone());
                    asserts.push(t.clone());
                    cmds.push(Cmd::Assume { id: format!("{id}.a"), t });
                    cmds.push(Cmd::step(id, cl.clone(), "or", vec![format!("{id}.a")], vec![]));
                }
            }
            c => cmds.push(c.clone()),
        }
    }
    let last = p.cmds.last().unwrap();
    let cl = last.clause();
    if !cl.is_empty() {
        let mut prems = vec![last.id().to_string()];
        let mut seen: Vec<E> = vec![];
        for (i, x) in cl.iter().enumerate() {
            if seen.contains(x) {
                continue;
            }
            seen.push(x.clone());
            let n = neg(x);
            asserts.push(n.clone());
            cmds.push(Cmd::Assume { id: format!("n{i}"), t: n });
            prems.push(format!("n{i}"));
        }
        cmds.push(Cmd::step("end", vec![], "resolution", prems, vec![]));
    }
    Prf { sig: p.sig.clone(), asserts, cmds, label: p.label.clone() }
}
pub fn of_step(s: &Step) -> Prf {
    let mut cmds = vec![];
    for (i, p) in s.prems.iter().enumerate() {
        cmds.push(Cmd::step(&format!("h{i}"), p.clone(), "hole", vec![], vec![]));
    }
    cmds.push(Cmd::step("t", s.concl.clone(), &s.rule, (0..s.prems.len()).map(|i| format!("h{i}")).collect(), s.args.clone()));
    Prf { sig: s.sig.clone(), asserts: vec![], cmds, label: s.rule.clone() }
}
pub fn all_fams() -> Vec<Fam> {
    let mut v: Vec<Fam> = vec![];
    v.extend(fam_prop::fams());
    v.extend(fam_res::fams());
    v.extend(fam_eq::fams());
    v.extend(fam_arith::fams());
    v.extend(fam_quant::fams());
    v.extend(fam_bits::fams());
    v.extend(fam_bits::pb_fams());
    v.extend(fam_str::complete_fams());
    v
}
pub fn one_rule(g: &mut G) -> Prf {
    let fams = all_fams();
    let (_, f) = fams[g.u(fams.len())];
    of_step(&f(g))
}
/// Any closed proof: mostly accepted by the checker.
pub fn any(g: &mut G) -> Prf {
    match g.weighted(&[5, 3, 4]) {
        0 => {
            let cfg = match g.u(5) {
                0 => Cfg::uf(),
                1 => Cfg::quant(),
                2 => Cfg { lets: true, ..Cfg::all() },
                3 => Cfg::arith(),
                _ => Cfg::prop(),
            };
            let holes = g.chance(1, 4);
            let d = g.ur(1, 7);
            let b = if g.chance(1, 6) { 120 } else { 30 };
            refutation(g, cfg, holes, d, b)
        }
        1 => {
            let p = one_rule(g);
            let keep = g.chance(1, 4);
            close(&p, !keep)
        }
        _ => {
            let p = fam_ctx::gen(g);
            let keep = g.chance(1, 4);
            close(&p, !keep)
        }
    }
}
pub fn has_hole(cmds: &[Cmd]) -> bool {
    let mut h = false;
    for_each(cmds, &mut |c, _| {
        if let Cmd::Step { rule, .. } = c {
            h |= rule == "hole" || rule == "lia_generic";
        }
    });
    h
}
pub fn count(cmds: &[Cmd]) -> usize {
    let mut n = 0;
    for_each(cmds, &mut |_, _| n += 1);
    n
}
/// Extends `sig` so that every hole can be declared.
pub fn merge_sig(into: &mut Sig, from: &Sig) {
    for s in &from.sorts {
        if !into.sorts.contains(s) {
            into.sorts.push(s.clone());
        }
    }
    for f in &from.funs {
        if !into.funs.iter().any(|x| x.0 == f.0) {
            into.funs.push(f.clone());
        }
    }
}
