//! Constant evaluation (C24): ground terms over every operator, the library's evaluator and the
//! `evaluate` rule against the reference evaluator.
use crate::carc::{check, guard, Opts};
use crate::eval::{models, Ev, Sig, S};
use crate::fam_term::viol;
use crate::g::{hash_str, G};
use crate::libt::*;
use crate::runner::Case;
use crate::sexp::*;
use crate::step::{describe_model, entails, Step};
use crate::terms::{bvlit, mutate};
use carcara::ast::{Constant, PrimitivePool, Term, TermPool};

pub struct CG<'g> {
    pub g: &'g mut G,
    pub sig: Sig,
    /// allow non-constant leaves and uninterpreted applications
    pub open: bool,
    pub strs: bool,
    /// allow `mod` with a negative dividend
    pub negmod: bool,
    pub ops: usize,
}
fn big(g: &mut G) -> i64 {
    match g.u(10) {
        0..=5 => g.small(6),
        6 | 7 => g.small(40),
        8 => g.range(-1000, 1000),
        _ => *g.pick(&[1i64 << 31, -(1i64 << 31), 1i64 << 32, (1i64 << 62), i64::MAX, -i64::MAX, 255, 256, 65535]),
    }
}
impl<'g> CG<'g> {
    fn w(&mut self) -> usize {
        match self.g.u(12) {
            0..=8 => self.g.ur(1, 5),
            9 => self.g.ur(6, 9),
            10 => *self.g.pick(&[16, 31, 32, 33]),
            _ => *self.g.pick(&[63, 64, 65, 70]),
        }
    }
    fn bvc(&mut self, w: usize) -> E {
        let m = crate::eval::mask(w);
        let x = match self.g.u(6) {
            0 => 0,
            1 => m,
            2 => 1u128 << (w - 1),
            3 => (self.g.u(4) as u128) & m,
            _ => ((self.g.seed() as u128) << 64 | self.g.seed() as u128) & m,
        };
        match self.g.u(8) {
            0 => parse(&format!("(_ bv{x} {w})")),
            1 if w % 4 == 0 => a(format!("#x{:0>1$x}", x, w / 4)),
            2 => {
                let v: Vec<E> = (0..w).map(|i| a(if x >> i & 1 == 1 { "true" } else { "false" })).collect();
                ap("@bbterm", v)
            }
            3 => {
                let v: Vec<E> = (0..w).map(|i| a(if x >> i & 1 == 1 { "1" } else { "0" })).collect();
                ap("@pbbterm", v)
            }
            4 if x < 1 << 60 => ap2("@bv", a(x.to_string()), a(w.to_string())),
            _ => bvlit(w, x),
        }
    }
    fn realc(&mut self) -> E {
        let n = big(self.g);
        let e = match self.g.u(4) {
            0 => a(format!("{}.{}", n.abs(), self.g.u(100))),
            1 => a(format!("{}/{}", n.abs(), 1 + self.g.u(9))),
            _ => a(format!("{}.0", n.abs())),
        };
        if n < 0 && self.g.bool() { ap1("-", e) } else { e }
    }
    fn leaf(&mut self, s: &S) -> E {
        if self.open && self.g.chance(1, 3) {
            let n = format!("c{}{}", ["a", "b"][self.g.u(2)], hash_str(&format!("{s:?}")) % 1000);
            return self.sig.cst(&n, s.clone());
        }
        match s {
            S::Bool => a(if self.g.bool() { "true" } else { "false" }),
            S::Int => int(big(self.g)),
            S::Real => self.realc(),
            S::BV(w) => self.bvc(*w),
            _ => a(*self.g.pick(&["\"\"", "\"a\"", "\"ab\"", "\"b\"", "\"\\u{61}\""])),
        }
    }
    fn many(&mut self, s: &S, d: usize, lo: usize, hi: usize) -> Vec<E> {
        let n = self.g.ur(lo, hi);
        (0..n).map(|_| self.t(s, d)).collect()
    }
    fn sort(&mut self) -> S {
        match self.g.u(10) {
            0 | 1 => S::Bool,
            2 | 3 => S::Int,
            4 => S::Real,
            5 if self.strs => S::Str,
            _ => S::BV(self.w()),
        }
    }
    /// positive integer, mostly a constant
    fn nat(&mut self, d: usize) -> E {
        if d > 0 && self.g.chance(1, 4) {
            let x = self.t(&S::Int, d - 1);
            ap1("abs", x)
        } else {
            a(self.g.u(12).to_string())
        }
    }
    pub fn t(&mut self, s: &S, d: usize) -> E {
        if d == 0 || self.g.chance(1, 10) {
            return self.leaf(s);
        }
        self.ops += 1;
        if self.g.chance(1, 16) {
            let b = self.t(&S::Bool, d - 1);
            let x = self.t(s, d - 1);
            let y = self.t(s, d - 1);
            return ap3("ite", b, x, y);
        }
        let d = d - 1;
        match s {
            S::Bool => match self.g.u(15) {
                0 => {
                    let x = self.t(&S::Bool, d);
                    not(x)
                }
                1 => ap("and", self.many(&S::Bool, d, 1, 4)),
                2 => ap("or", self.many(&S::Bool, d, 1, 4)),
                3 => ap("xor", self.many(&S::Bool, d, 2, 4)),
                4 => ap("=>", self.many(&S::Bool, d, 2, 4)),
                5 | 6 => {
                    let s2 = self.sort();
                    let n = if matches!(s2, S::BV(w) if w > 9) { 2 } else { 4 };
                    let v = self.many(&s2, d, 2, n);
                    ap(self.g.pick_s(&["=", "distinct"]), v)
                }
                7 | 8 => {
                    let s2 = if self.g.bool() { S::Int } else { S::Real };
                    let v = self.many(&s2, d, 2, 3);
                    ap(self.g.pick_s(&["<", "<=", ">", ">="]), v)
                }
                9 => {
                    let x = self.t(&S::Real, d);
                    ap1("is_int", x)
                }
                10 => {
                    let x = self.t(&S::Int, d);
                    ap1("int.ispow2", x)
                }
                11 => {
                    let w = self.w();
                    let x = self.t(&S::BV(w), d);
                    ix("@bit_of", &[self.g.u(w) as i64], vec![x])
                }
                _ => {
                    let s2 = S::BV(self.w());
                    let x = self.t(&s2, d);
                    let y = if self.g.chance(1, 6) { x.clone() } else { self.t(&s2, d) };
                    ap2(self.g.pick_s(&["bvult", "bvule", "bvugt", "bvuge", "bvslt", "bvsle", "bvsgt", "bvsge"]), x, y)
                }
            },
            S::Int => match self.g.u(16) {
                0 | 1 => ap("+", self.many(s, d, 2, 4)),
                2 => ap("*", self.many(s, d, 2, 3)),
                3 => ap("-", self.many(s, d, 1, 3)),
                4 | 5 => ap("div", self.many(s, d, 2, 3)),
                6 => {
                    let x = if self.negmod { self.t(s, d) } else { self.nat(d) };
                    let y = self.t(s, d);
                    ap2("mod", x, y)
                }
                7 => {
                    let x = self.t(s, d);
                    ap1("abs", x)
                }
                8 => {
                    let x = if self.g.chance(1, 6) { int(self.g.small(30) - 3) } else { int(self.g.u(9) as i64) };
                    ap1("int.pow2", x)
                }
                9 => {
                    let x = self.t(s, d);
                    ap1("int.log2", x)
                }
                10 => {
                    let x = self.t(&S::Real, d);
                    ap1("to_int", x)
                }
                11 => {
                    let w = self.w();
                    let x = self.t(&S::BV(w), d);
                    ix("@int_of", &[self.g.u(w) as i64], vec![x])
                }
                12 => {
                    let w = self.w();
                    let x = self.t(&S::BV(w), d);
                    ap1("@bvsize", x)
                }
                _ => {
                    let w = self.w();
                    let x = self.t(&S::BV(w), d);
                    ap1(self.g.pick_s(&["ubv_to_int", "sbv_to_int"]), x)
                }
            },
            S::Real => match self.g.u(9) {
                0 | 1 => ap("+", self.many(s, d, 2, 4)),
                2 => ap("*", self.many(s, d, 2, 3)),
                3 => ap("-", self.many(s, d, 1, 3)),
                4 | 5 => ap("/", self.many(s, d, 2, 3)),
                6 => {
                    let x = self.t(s, d);
                    ap1("abs", x)
                }
                _ => {
                    let x = self.t(&S::Int, d);
                    ap1("to_real", x)
                }
            },
            S::BV(w) => {
                let w = *w;
                match self.g.u(26) {
                    0 => {
                        let x = self.t(s, d);
                        ap1("bvnot", x)
                    }
                    1 => {
                        let x = self.t(s, d);
                        ap1("bvneg", x)
                    }
                    2..=4 => {
                        let v = self.many(s, d, 2, 4);
                        ap(self.g.pick_s(&["bvand", "bvor", "bvxor", "bvadd", "bvmul"]), v)
                    }
                    5..=14 => {
                        let x = self.t(s, d);
                        let y = if self.g.chance(1, 8) { x.clone() } else { self.t(s, d) };
                        ap2(
                            self.g.pick_s(&["bvsub", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvsmod", "bvshl", "bvlshr", "bvashr", "bvnand", "bvnor", "bvxnor"]),
                            x,
                            y,
                        )
                    }
                    15 | 16 if w >= 2 => {
                        let k = self.g.ur(1, w - 1);
                        let x = self.t(&S::BV(k), d);
                        if w - k >= 2 && self.g.chance(1, 4) {
                            let k2 = self.g.ur(1, w - k - 1);
                            let y = self.t(&S::BV(k2), d);
                            let z = self.t(&S::BV(w - k - k2), d);
                            ap3("concat", x, y, z)
                        } else {
                            let y = self.t(&S::BV(w - k), d);
                            ap2("concat", x, y)
                        }
                    }
                    17 | 18 => {
                        let lo = self.g.u(4);
                        let hi = self.g.u(4);
                        let x = self.t(&S::BV(w + lo + hi), d);
                        ix("extract", &[(w + lo - 1) as i64, lo as i64], vec![x])
                    }
                    19 | 20 if w >= 2 => {
                        let k = self.g.u(w.min(6));
                        let x = self.t(&S::BV(w - k), d);
                        ix(self.g.pick_s(&["zero_extend", "sign_extend"]), &[k as i64], vec![x])
                    }
                    21 | 22 => {
                        let k = *self.g.pick(&[0, 1, 2, w - 1, w, w + 1, 3 * w + 1]);
                        let x = self.t(s, d);
                        ix(self.g.pick_s(&["rotate_left", "rotate_right"]), &[k as i64], vec![x])
                    }
                    23 => {
                        let k = (2..=w).find(|k| w % k == 0).unwrap_or(1);
                        let k = if self.g.chance(1, 4) { 1 } else { k };
                        let x = self.t(&S::BV(w / k), d);
                        ix("repeat", &[k as i64], vec![x])
                    }
                    24 => {
                        let x = self.t(&S::Int, d);
                        ix("int_to_bv", &[w as i64], vec![x])
                    }
                    _ if w == 1 => {
                        let s2 = S::BV(self.w());
                        let x = self.t(&s2, d);
                        let y = if self.g.chance(1, 4) { x.clone() } else { self.t(&s2, d) };
                        ap2("bvcomp", x, y)
                    }
                    _ if w <= 5 => {
                        let v = self.many(&S::Bool, d.min(1), w, w);
                        ap("@bbterm", v)
                    }
                    _ => self.bvc(w),
                }
            }
            _ => self.leaf(s),
        }
    }
}

pub fn evaluate(g: &mut G) -> Case {
    let mut c = Case::default();
    let open = g.chance(1, 4);
    let strs = g.chance(1, 4);
    let negmod = g.chance(1, 10);
    let d = g.ur(1, 3);
    let mut cg = CG { g, sig: Sig::default(), open, strs, negmod, ops: 0 };
    let s = cg.sort();
    let t = cg.t(&s, d);
    let (sig, ops) = (cg.sig.clone(), cg.ops);
    let text = t.to_string();
    c.key = hash_str(&text);
    let texts = vec![text.clone()];
    let r = guard(|| {
        let mut pool = PrimitivePool::new();
        let ts = parse_terms(&mut pool, &sig, &texts)?;
        let v = ts[0].evaluate(&mut pool);
        let again = v.evaluate(&mut pool);
        let kind = match v.as_ref() {
            Term::Const(Constant::BitVec(..)) => "bv",
            Term::Const(Constant::Integer(_)) => "int",
            Term::Const(Constant::Real(_)) => "real",
            Term::Const(Constant::String(_)) => "string",
            _ if v.is_bool_true() || v.is_bool_false() => "bool",
            _ => "",
        };
        let s1 = pool.sort(&ts[0]).as_sort().map(sort_e);
        let s2 = pool.sort(&v).as_sort().map(sort_e);
        Ok::<_, String>((to_e(&ts[0]), to_raw(&v), kind, s1, s2, v == again))
    });
    let files = vec![("term", text.clone())];
    let (te, ve, kind, s1, s2, idem) = match r {
        Err(p) => {
            c.viol = Some(viol(p.sig(), format!("evaluation panics: {}", p.msg), &sig, &files));
            return c;
        }
        Ok(Err(e)) => {
            c.label("unparsed");
            c.sample = format!("{text}: {e}");
            return c;
        }
        Ok(Ok(x)) => x,
    };
    c.nontrivial = ops > 0;
    c.sample = format!("{text} ~> {ve}");
    c.label(if kind.is_empty() { "not-constant" } else { kind });
    for p in te.paths() {
        if let Some(h) = te.get(&p).head() {
            if g_label(h) {
                c.label(format!("op-{h}"));
            }
        }
    }
    if s1 != s2 {
        c.viol = Some(viol("evaluate changes sort", format!("{text} of sort {s1:?} evaluates to {ve} of sort {s2:?}"), &sig, &files));
        return c;
    }
    if !idem {
        c.viol = Some(viol("evaluate not idempotent", format!("{text} evaluates to {ve}, which evaluates further"), &sig, &files));
        return c;
    }
    let seed = g.seed();
    let mut decided = false;
    let mut stable = true;
    let mut first = None;
    for mo in models(&sig, if open { 30 } else { 3 }, seed) {
        // the original text is the reference; the parsed term must denote the same
        let (x, y) = (Ev::new(&mo).val(&t), Ev::new(&mo).val(&ve));
        if let Some(x) = &x {
            stable &= *first.get_or_insert(x.clone()) == *x;
        } else {
            stable = false;
        }
        if let (Some(x), Some(y)) = (x, y) {
            decided = true;
            if x != y {
                let mut ev = Ev::new(&mo);
                ev.trunc_mod = true;
                let known = ev.val(&t) == Some(y.clone());
                let what = if known { "evaluate mod with negative dividend truncates" } else { "evaluate gives a wrong value" };
                c.viol = Some(viol(what, format!("{text} is {x:?} but evaluates to {ve} = {y:?} ({})", describe_model(&sig, &mo)), &sig, &files));
                return c;
            }
        }
    }
    c.label(if decided { "decided" } else { "undecided" });
    if kind.is_empty() && !open && stable && decided && !has_undef(&t) {
        c.viol = Some(viol("evaluate leaves a constant term unevaluated", format!("{text} evaluates only to {ve}"), &sig, &files));
        return c;
    }
    // the rule: the computed value is accepted, and what is accepted is true
    let mut s = Step::new(sig.clone(), "evaluate", vec![], vec![], vec![eq(t.clone(), ve.clone())]);
    let o = Opts::default();
    if t != ve {
        let v = check(&s.problem(), &s.proof(), &o);
        if !v.steps_accepted() {
            c.viol = Some(viol(format!("evaluate rule rejects {}", v.class()), format!("{text} = {ve}: {v:?}"), &sig, &[("proof", s.proof()), ("problem", s.problem())]));
            return c;
        }
    }
    let other = match g.u(4) {
        0 => mutate(g, &ve, &sig, &[]),
        1 => {
            let mut cg = CG { g, sig: sig.clone(), open: false, strs, negmod: false, ops: 0 };
            let s2 = crate::terms::sort_of(&t, &sig, &[]).unwrap_or(S::Bool);
            cg.leaf(&s2)
        }
        _ => return c,
    };
    let lhs = if g.chance(1, 3) { mutate(g, &t, &sig, &[]) } else { t.clone() };
    s.concl = vec![eq(lhs, other)];
    let v = check(&s.problem(), &s.proof(), &o);
    if let crate::carc::Verdict::Panic(p) = &v {
        c.viol = Some(viol(p.clone(), format!("evaluate rule panics: {p}"), &sig, &[("proof", s.proof()), ("problem", s.problem())]));
        return c;
    }
    if v.steps_accepted() {
        c.label("mutant-accepted");
        let r = entails(&sig, &[], &s.concl, 30, seed);
        if let Some(m) = r.counter {
            let mo = models(&sig, 1, seed);
            let mut ev = Ev::new(&mo[0]);
            ev.trunc_mod = true;
            let known = ev.bool(&s.concl[0]) == Some(true);
            let what = if known { "evaluate mod with negative dividend truncates" } else { "evaluate rule unsound" };
            c.viol = Some(viol(what, format!("accepted but false in {m}: {}", s.concl[0]), &sig, &[("proof", s.proof()), ("problem", s.problem())]));
        }
    } else {
        c.label("mutant-rejected");
    }
    c
}
fn g_label(h: &str) -> bool {
    h.starts_with("bv") || h.starts_with("int.") || h.starts_with('@') || matches!(h, "div" | "mod" | "/" | "concat" | "ubv_to_int" | "sbv_to_int" | "abs" | "to_int" | "is_int")
}
/// Contains something whose value the evaluator may decline to compute.
fn has_undef(e: &E) -> bool {
    e.paths().iter().any(|p| {
        let x = e.get(p);
        ["div", "mod", "/", "bvsdiv", "bvsrem", "bvsmod"].iter().any(|o| x.is_app(o))
    })
}

/// Known finding: an existing test requires `(mod (- 7) (- 3))` to evaluate to -1; SMT-LIB says 2.
pub fn pin_mod() -> bool {
    check("", "(step t1 (cl (= (mod (- 7) (- 3)) -1)) :rule evaluate)", &Opts::default()).steps_accepted()
}
