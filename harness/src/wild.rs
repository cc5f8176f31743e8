//! Proof texts that only have to parse: every syntactic form, weird names, definitions, sharing.
use crate::eval::{Sig, S};
use crate::g::G;
use crate::prf::{self, Cmd, Prf};
use crate::sexp::*;
use crate::terms::*;
use crate::whole;
use std::collections::HashMap;

pub const WEIRD: &[&str] = &[
    "|a b|", "|5|", "|-5|", "|-1/2|", "||", "|let|", "|:=|", "|#b1|", "@p_0", "@p_1", "|;x|", "|é|", "x'", "|(|", "|\"|", "|!|", "|_|", "|as|", "|1.5|", "|a,b|",
    "p_0", "p_1", "|assume|", "|forall|", "|par|", "|:named|", "@k", "-x", "|-|", "|NUMERAL|", "|x\ny|", ".x", "|par x|", "|[|", "|step|", "t1", "t1.t1", "|0x|",
];

struct W<'g> {
    tg: TG<'g>,
    next: usize,
    /// open levels: ids in scope with "is assume"
    ids: Vec<Vec<(String, bool)>>,
}
impl W<'_> {
    fn id(&mut self) -> String {
        self.next += 1;
        format!("t{}", self.next)
    }
    fn array(&mut self, d: usize) -> E {
        let s = S::Arr(Box::new(S::Int), Box::new(S::Int));
        let k = self.tg.g.u(2);
        match self.tg.g.u(4) {
            0 if d > 0 => ap3("store", self.array(d - 1), self.tg.term(&S::Int, 1), self.tg.term(&S::Int, 1)),
            1 => L(vec![L(vec![a("as"), a("const"), s.e()]), self.tg.term(&S::Int, 1)]),
            _ => self.tg.sig.cst(&format!("arr{k}"), s),
        }
    }
    fn lit(&mut self) -> E {
        match self.tg.g.u(12) {
            0 => {
                let x = self.array(2);
                let y = self.array(2);
                eq(x, y)
            }
            1 => {
                let i = self.tg.term(&S::Int, 1);
                ap2("<", ap2("select", self.array(1), i), self.tg.term(&S::Int, 1))
            }
            2 => {
                // indexed operators
                let k = self.tg.g.range(1, 3);
                let b = S::BV(3);
                let t = self.tg.term(&b, 1);
                match self.tg.g.u(9) {
                    0 => eq(ix("zero_extend", &[k], vec![t.clone()]), ix("sign_extend", &[k], vec![t])),
                    1 => eq(ix("rotate_left", &[k], vec![t.clone()]), ix("rotate_right", &[k], vec![t])),
                    2 => eq(ix("extract", &[k - 1, 0], vec![t.clone()]), ix("extract", &[k - 1, 0], vec![t])),
                    3 => eq(ix("repeat", &[k], vec![t.clone()]), ix("repeat", &[k], vec![t])),
                    4 => ix("@bit_of", &[k - 1], vec![t]),
                    5 => ap2("<", ix("@int_of", &[k - 1], vec![t]), int(2)),
                    6 => eq(ix("int_to_bv", &[3], vec![self.tg.term(&S::Int, 1)]), t),
                    7 => eq(libix("bv5", 3), t),
                    _ => ap2("str.in_re", self.tg.term(&S::Str, 1), ix("re.^", &[k], vec![self.tg.re(1)])),
                }
            }
            3 => {
                let (i, j) = (self.tg.g.range(0, 2), self.tg.g.range(0, 3));
                ap2("str.in_re", self.tg.term(&S::Str, 1), ix("re.loop", &[i, j], vec![self.tg.re(1)]))
            }
            4 => {
                let s = ["a\\u{5c}u{41}", "\\u{5c}", "q\"\"q", "\\u{e9}", "\\x", "\\u{12345}", "\\u{5c}\\u{5c}u{5c}", "\\u0041\\u{5c}u0041", ";", "|", "\\u{5c}u", "", "\\u{0}", "\\u{a}"];
                let k = self.tg.g.pick_s(&s);
                eq(a(format!("\"{k}\"")), self.tg.term(&S::Str, 1))
            }
            5 => {
                let n = self.tg.g.pick_s(&["-5", "1/2", "-1/2", "-3/1", "0/7", "2.50", "1.0", "007.0", "0", "-0", "18446744073709551616.5", "0.000000000000000000001"]);
                let v = if n.contains(['.', '/']) { S::Real } else { S::Int };
                ap2(">", a(n), self.tg.term(&v, 1))
            }
            6 => {
                // higher-order: a function as an argument, lambda
                let f = self.tg.sig.fun("fU", vec![su()], su());
                self.tg.sig.sort("U");
                let x = self.tg.term(&su(), 1);
                if self.tg.g.bool() {
                    eq(f, bind("lambda", &[(a("v"), a("U"))], x))
                } else {
                    eq(L(vec![bind("lambda", &[(a("v"), a("U"))], x.clone()), x.clone()]), x)
                }
            }
            7 => {
                // parametric sort
                let srt = ap("Pair", vec![a("Int"), a("U")]);
                self.tg.sig.sort("U");
                let n = format!("pr{}", self.tg.g.u(2));
                let c = bind("forall", &[(a(&n), srt)], eq(a(&n), a(&n)));
                c
            }
            _ => {
                let d = self.tg.g.u(4);
                self.tg.boolt(d)
            }
        }
    }
    fn clause(&mut self) -> Vec<E> {
        let n = self.tg.g.weighted(&[1, 5, 4, 2]);
        (0..n).map(|_| self.lit()).collect()
    }
    fn prems(&mut self) -> Vec<String> {
        let all: Vec<String> = self.ids.iter().flatten().map(|x| x.0.clone()).collect();
        if all.is_empty() || self.tg.g.chance(1, 2) {
            return vec![];
        }
        let n = self.tg.g.ur(1, 3);
        (0..n).map(|_| all[self.tg.g.u(all.len())].clone()).collect()
    }
    fn any_term(&mut self) -> E {
        if self.tg.g.chance(1, 2) {
            return self.lit();
        }
        let s = self.tg.any_sort();
        let d = self.tg.g.u(3);
        self.tg.term(&s, d)
    }
    fn step(&mut self) -> Cmd {
        let cl = self.clause();
        let rule = self.tg.g.pick_s(&["hole", "resolution", "cong", "foo", "|a rule|", "forall_inst", "|let|", "and", "lia_generic", "subproof"]);
        let prems = self.prems();
        let n = if self.tg.g.chance(1, 3) { self.tg.g.ur(1, 3) } else { 0 };
        let args = (0..n).map(|_| self.any_term()).collect();
        let id = self.id();
        self.ids.last_mut().unwrap().push((id.clone(), false));
        Cmd::Step { id, cl, rule: rule.into(), prems, args, discharge: vec![] }
    }
    fn cmds(&mut self, n: usize, depth: usize) -> Vec<Cmd> {
        let mut o = vec![];
        if self.tg.g.chance(2, 3) {
            for _ in 0..self.tg.g.ur(0, 2) {
                let t = self.lit();
                let id = self.id();
                self.ids.last_mut().unwrap().push((id.clone(), true));
                o.push(Cmd::Assume { id, t });
            }
        }
        for _ in 0..n {
            if depth > 0 && self.tg.g.chance(1, 3) {
                let id = self.id();
                self.ids.push(vec![]);
                let k0 = self.tg.scope.len();
                let mut args = vec![];
                for _ in 0..self.tg.g.u(3) {
                    let name = self.tg.fresh_var_name();
                    let s = self.tg.any_sort_nb();
                    if self.tg.g.bool() {
                        args.push(L(vec![a(&name), s.e()]));
                    } else {
                        let v = self.tg.term(&s, 1);
                        args.push(if self.tg.g.chance(1, 4) { L(vec![a(":="), a(&name), v]) } else { L(vec![a(":="), L(vec![a(&name), s.e()]), v]) });
                    }
                    self.tg.scope.push((name, s));
                }
                let m = self.tg.g.ur(1, 3);
                let mut body = self.cmds(m, depth - 1);
                let assumes: Vec<String> = self.ids.last().unwrap().iter().filter(|x| x.1).map(|x| x.0.clone()).collect();
                let mut last = self.step();
                if let Cmd::Step { id: i, discharge, prems, .. } = &mut last {
                    *i = id.clone();
                    *discharge = assumes;
                    // no premises on later ids
                    prems.retain(|p| p != i);
                }
                body.push(last);
                self.tg.scope.truncate(k0);
                self.ids.pop();
                self.ids.last_mut().unwrap().push((id.clone(), false));
                o.push(Cmd::Sub { id, args, body });
            } else {
                let s = self.step();
                o.push(s);
            }
        }
        o
    }
}
fn libix(op: &str, i: i64) -> E {
    L(vec![a("_"), a(op), int(i)])
}

/// A well-formed but meaningless proof.
pub fn wild(g: &mut G) -> Prf {
    let cfg = match g.u(4) {
        0 => Cfg { nary: 3, ..Cfg::all() },
        1 => Cfg::quant(),
        2 => Cfg { lets: true, ..Cfg::uf() },
        _ => Cfg::arith(),
    };
    let mut w = W { tg: TG::new(g, cfg), next: 0, ids: vec![vec![]] };
    let n = w.tg.g.ur(1, 5);
    let cmds = w.cmds(n, 3);
    let na = w.tg.g.u(3);
    let asserts = (0..na).map(|_| w.lit()).collect();
    let sig = w.tg.sig.clone();
    Prf { sig, asserts, cmds, label: "wild".into() }
}

fn rename(e: &E, m: &HashMap<String, String>) -> E {
    match e {
        A(s) => m.get(&**s).map_or_else(|| e.clone(), |n| a(n)),
        L(v) => L(v.iter().map(|x| rename(x, m)).collect()),
    }
}

/// Problem and proof text. Names are replaced by unusual ones, and definitions and named terms are
/// introduced.
pub fn texts(g: &mut G) -> (String, String) {
    let p = if g.chance(2, 3) { wild(g) } else { whole::any(g) };
    dress(g, &p)
}
pub fn dress(g: &mut G, p: &Prf) -> (String, String) {
    let mut names: Vec<String> = p.sig.funs.iter().map(|f| f.0.to_string()).collect();
    names.extend(p.sig.sorts.iter().map(|s| s.to_string()));
    prf::for_each(&p.cmds, &mut |c, _| names.push(c.id().to_string()));
    names.extend(["vx", "vy", "vz", "a0", "p0", "vxq", "Pair", "foo"].map(String::from));
    names.sort();
    names.dedup();
    let mut m: HashMap<String, String> = HashMap::new();
    if g.chance(2, 3) {
        let k = g.ur(1, 5);
        let mut pool: Vec<&str> = WEIRD.to_vec();
        g.shuffle(&mut pool);
        for w in pool.into_iter().take(k) {
            let n = names[g.u(names.len())].clone();
            if !names.iter().any(|x| x == w) {
                m.insert(n, w.to_string());
            }
        }
    }
    // definitions in the proof
    let mut cmds = p.cmds.clone();
    let mut defs = String::new();
    if g.chance(1, 3) {
        let mut top = vec![];
        for c in &p.cmds {
            if let Cmd::Step { cl, .. } = c {
                top.extend(cl.iter().cloned());
            }
        }
        top.extend(p.sig.funs.iter().filter(|f| f.1.is_empty() && f.2 == S::Bool).map(|f| a(&*f.0)));
        for i in 0..g.ur(1, 3) {
            if top.is_empty() {
                break;
            }
            let t = top[g.u(top.len())].clone();
            let n = match g.u(6) {
                0 => "vx".into(),
                1 => "|d 0|".into(),
                2 => "@p_0".into(),
                _ => format!("d{i}"),
            };
            if names.contains(&n) && n != "vx" || defs.contains(&format!(" {n} ")) {
                continue;
            }
            defs.push_str(&format!("(define-fun {n} () Bool {})\n", rename(&t, &m)));
            let nm = a(&n);
            if n != "vx" {
                for c in cmds.iter_mut() {
                    if let Cmd::Step { cl, .. } = c {
                        for x in cl {
                            if *x == t && g.bool() {
                                *x = nm.clone();
                            }
                        }
                    }
                }
            }
        }
    }
    // named terms
    if g.chance(1, 4) {
        for c in cmds.iter_mut() {
            if let Cmd::Step { cl, .. } = c {
                if !cl.is_empty() && g.bool() {
                    let i = g.u(cl.len());
                    let t = cl[i].clone();
                    let nm = format!("nn{}", g.u(1000));
                    cl[i] = L(vec![a("!"), t.clone(), a(":named"), a(&nm)]);
                    if g.bool() {
                        cl.push(a(&nm));
                    }
                }
            }
        }
    }
    let mut problem = String::new();
    if g.chance(1, 4) {
        problem.push_str(&format!("(set-logic {})\n", g.pick_s(&["QF_UF", "ALL", "QF_LRA", "UFLIA", "|a logic|"])));
    }
    problem.push_str("(declare-sort Pair 2)\n");
    problem.push_str(&p.sig.prelude());
    for x in &p.asserts {
        problem.push_str(&format!("(assert {x})\n"));
    }
    let proof = prf::print(&cmds);
    let re = |s: &str| -> String {
        match parse_all(s) {
            Ok(v) => v.iter().map(|e| rename(e, &m).to_string() + "\n").collect(),
            Err(_) => s.to_string(),
        }
    };
    if m.is_empty() {
        return (problem, defs + &proof);
    }
    (re(&problem), defs + &re(&proof))
}
pub fn sig_of(p: &Prf) -> Sig {
    p.sig.clone()
}
