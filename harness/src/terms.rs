//! Random well-sorted terms; sort inference; sort-preserving mutation.
use crate::eval::{bindings, Sig, S};
use crate::g::G;
use crate::sexp::*;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub uf: bool,
    pub int: bool,
    pub real: bool,
    pub bv: bool,
    pub strs: bool,
    pub quant: bool,
    pub lets: bool,
    pub choice: bool,
    /// number of distinct names per sort
    pub names: usize,
    /// nested `not` etc. more likely
    pub nary: usize,
    /// div/mod//
    pub nonlin: bool,
    pub ite: bool,
    pub bvw: usize,
}
impl Cfg {
    pub fn prop() -> Cfg {
        Cfg { uf: false, int: false, real: false, bv: false, strs: false, quant: false, lets: false, choice: false, names: 4, nary: 4, nonlin: false, ite: true, bvw: 3 }
    }
    pub fn uf() -> Cfg {
        Cfg { uf: true, names: 3, ..Cfg::prop() }
    }
    pub fn arith() -> Cfg {
        Cfg { int: true, real: true, ..Cfg::prop() }
    }
    pub fn quant() -> Cfg {
        Cfg { uf: true, quant: true, names: 3, ..Cfg::prop() }
    }
    pub fn all() -> Cfg {
        Cfg { uf: true, int: true, real: true, bv: true, strs: true, quant: true, lets: true, choice: true, names: 3, nary: 4, nonlin: true, ite: true, bvw: 3 }
    }
}

pub struct TG<'g> {
    pub g: &'g mut G,
    pub sig: Sig,
    pub cfg: Cfg,
    pub scope: Vec<(String, S)>,
}

pub fn su() -> S {
    S::u("U")
}

impl<'g> TG<'g> {
    pub fn new(g: &'g mut G, cfg: Cfg) -> TG<'g> {
        TG { g, sig: Sig::default(), cfg, scope: vec![] }
    }
    fn prefix(s: &S) -> String {
        match s {
            S::Bool => "p".into(),
            S::Int => "i".into(),
            S::Real => "x".into(),
            S::Str => "s".into(),
            S::Re => "re".into(),
            S::BV(w) => format!("b{w}_"),
            S::U(n) if &**n == "U" => "a".into(),
            S::U(n) => format!("{}_c", n),
            _ => "o".into(),
        }
    }
    pub fn cst(&mut self, s: &S) -> E {
        let k = self.g.u(self.cfg.names);
        self.cst_n(s, k)
    }
    pub fn cst_n(&mut self, s: &S, k: usize) -> E {
        if let S::U(n) = s {
            let n = n.to_string();
            self.sig.sort(&n);
        }
        let name = format!("{}{}", Self::prefix(s), k);
        self.sig.cst(&name, s.clone())
    }
    fn scoped(&mut self, s: &S) -> Option<E> {
        let c: Vec<String> = self
            .scope
            .iter()
            .enumerate()
            .filter(|(i, x)| x.1 == *s && !self.scope[i + 1..].iter().any(|y| y.0 == x.0))
            .map(|(_, x)| x.0.clone())
            .collect();
        if c.is_empty() || self.g.chance(1, 4) {
            return None;
        }
        let i = self.g.u(c.len());
        Some(a(&c[i]))
    }
    pub fn leaf(&mut self, s: &S) -> E {
        if let Some(e) = self.scoped(s) {
            return e;
        }
        match s {
            S::Bool if self.g.chance(1, 10) => a(if self.g.bool() { "true" } else { "false" }),
            S::Int if self.g.chance(1, 3) => self.num(S::Int),
            S::Real if self.g.chance(1, 3) => self.num(S::Real),
            S::Str if self.g.chance(1, 2) => {
                let v = ["\"\"", "\"a\"", "\"b\"", "\"ab\"", "\"ba\"", "\"aab\"", "\"é\""];
                a(v[self.g.u(v.len())])
            }
            S::BV(w) if self.g.chance(1, 3) => {
                let w = *w;
                let x = self.g.below(1 << w.min(20));
                bvlit(w, x as u128)
            }
            S::Re => self.re(0),
            _ => {
                // a bound variable of another sort may shadow the constant's name
                let k = self.g.u(self.cfg.names);
                for j in 0..self.cfg.names + 10 {
                    let n = format!("{}{}", Self::prefix(s), k + j);
                    match self.scope.iter().rev().find(|x| x.0 == n) {
                        Some(x) if x.1 != *s => continue,
                        Some(_) => return a(&n),
                        None => return self.cst_n(s, k + j),
                    }
                }
                self.cst(s)
            }
        }
    }
    pub fn re(&mut self, d: usize) -> E {
        if d == 0 {
            return match self.g.u(5) {
                0 => a("re.allchar"),
                1 => ap1("str.to_re", a("\"a\"")),
                2 => ap1("str.to_re", a("\"ab\"")),
                3 => ap2("re.range", a("\"a\""), a("\"c\"")),
                _ => ap1("str.to_re", a("\"\"")),
            };
        }
        match self.g.u(7) {
            0 => ap2("re.++", self.re(d - 1), self.re(d - 1)),
            1 => ap2("re.union", self.re(d - 1), self.re(d - 1)),
            2 => ap1("re.*", self.re(d - 1)),
            3 => ap1("re.+", self.re(d - 1)),
            4 => ap1("re.opt", self.re(d - 1)),
            5 => ap1("re.comp", self.re(d - 1)),
            _ => ap2("re.inter", self.re(d - 1), self.re(d - 1)),
        }
    }
    pub fn num(&mut self, s: S) -> E {
        let n = self.g.small(12);
        match s {
            S::Int => int(n),
            _ => {
                if self.g.chance(1, 3) {
                    let e = a(format!("{}.{}", n.abs(), [5, 25, 0][self.g.u(3)]));
                    if n < 0 { ap1("-", e) } else { e }
                } else {
                    let e = a(format!("{}.0", n.abs()));
                    if n < 0 { ap1("-", e) } else { e }
                }
            }
        }
    }
    pub fn sorts(&self) -> Vec<S> {
        let mut v = vec![S::Bool];
        if self.cfg.uf {
            v.push(su());
            v.push(S::u("T"));
        }
        if self.cfg.int {
            v.push(S::Int)
        }
        if self.cfg.real {
            v.push(S::Real)
        }
        if self.cfg.strs {
            v.push(S::Str)
        }
        if self.cfg.bv {
            v.push(S::BV(self.cfg.bvw))
        }
        v
    }
    pub fn any_sort(&mut self) -> S {
        let v = self.sorts();
        let i = self.g.u(v.len());
        v[i].clone()
    }
    /// a sort other than Bool if there is one
    pub fn any_sort_nb(&mut self) -> S {
        let v = self.sorts();
        if v.len() == 1 {
            return v[0].clone();
        }
        let i = 1 + self.g.u(v.len() - 1);
        v[i].clone()
    }
    pub fn terms(&mut self, s: &S, d: usize, lo: usize, hi: usize) -> Vec<E> {
        let n = self.g.ur(lo, hi);
        (0..n).map(|_| self.term(s, d)).collect()
    }
    pub fn boolt(&mut self, d: usize) -> E {
        self.term(&S::Bool, d)
    }
    pub fn fresh_var_name(&mut self) -> String {
        // few names on purpose: shadowing and capture must happen
        let v = ["vx", "vy", "vz", "a0", "p0"];
        v[self.g.weighted(&[5, 4, 3, 1, 1])].to_string()
    }
    pub fn quantified(&mut self, b: &str, d: usize, sorts: &[S]) -> E {
        let n = self.g.ur(1, 2);
        let mut vars = Vec::new();
        for _ in 0..n {
            let mut name = self.fresh_var_name();
            if vars.iter().any(|(x, _): &(E, E)| x.is(&name)) {
                name = format!("{name}q");
            }
            let s = sorts[self.g.u(sorts.len())].clone();
            if let S::U(n) = &s {
                let n = n.to_string();
                self.sig.sort(&n);
            }
            vars.push((a(&name), s.e()));
            self.scope.push((name, s));
        }
        let body = self.boolt(d);
        self.scope.truncate(self.scope.len() - n);
        bind(b, &vars, body)
    }
    pub fn finite_sorts(&self) -> Vec<S> {
        let mut v = vec![];
        if self.cfg.uf {
            v.push(su());
            v.push(su());
            v.push(S::u("T"));
        }
        v.push(S::Bool);
        v
    }
    pub fn term(&mut self, s: &S, d: usize) -> E {
        if d == 0 || self.g.chance(1, 6) {
            return self.leaf(s);
        }
        let d = d - 1;
        if let S::U(n) = s {
            let n = n.to_string();
            self.sig.sort(&n);
        }
        if self.cfg.ite && !matches!(s, S::Re) && self.g.chance(1, 12) {
            return ap3("ite", self.boolt(d), self.term(s, d), self.term(s, d));
        }
        if self.cfg.lets && self.g.chance(1, 12) {
            let n = self.g.ur(1, 2);
            let mut bs = Vec::new();
            let mut sc = Vec::new();
            for _ in 0..n {
                let mut name = self.fresh_var_name();
                if sc.iter().any(|(x, _): &(String, S)| *x == name) {
                    name = format!("{name}q");
                }
                let vs = self.any_sort();
                bs.push(L(vec![a(&name), self.term(&vs, d)]));
                sc.push((name, vs));
            }
            let k = sc.len();
            self.scope.extend(sc);
            let body = self.term(s, d);
            self.scope.truncate(self.scope.len() - k);
            return L(vec![a("let"), L(bs), body]);
        }
        if self.cfg.choice && matches!(s, S::U(_)) && self.g.chance(1, 12) {
            let name = self.fresh_var_name();
            self.scope.push((name.clone(), s.clone()));
            let body = self.boolt(d);
            self.scope.pop();
            return bind("choice", &[(a(&name), s.e())], body);
        }
        match s {
            S::Bool => self.bool_node(d),
            S::Int | S::Real => {
                if self.cfg.uf && self.g.chance(1, 6) {
                    let n = if *s == S::Int { "fi" } else { "fr" };
                    let f = self.sig.fun(n, vec![s.clone()], s.clone());
                    return L(vec![f, self.term(s, d)]);
                }
                match self.g.u(8) {
                    0 | 1 => ap("+", self.terms(s, d, 2, self.cfg.nary.min(3))),
                    2 => ap("-", self.terms(s, d, 2, 3)),
                    3 => ap1("-", self.term(s, d)),
                    4 => ap2("*", self.num(s.clone()), self.term(s, d)),
                    5 if self.cfg.nonlin => ap("*", self.terms(s, d, 2, 3)),
                    6 if self.cfg.nonlin && *s == S::Int => {
                        let op = self.g.pick_s(&["div", "mod"]);
                        ap2(op, self.term(s, d), self.term(s, d))
                    }
                    6 if self.cfg.nonlin && *s == S::Real => ap2("/", self.term(s, d), self.term(s, d)),
                    7 if self.cfg.nonlin && *s == S::Int => match self.g.u(3) {
                        0 if self.cfg.real => ap1("to_int", self.term(&S::Real, d)),
                        1 if self.cfg.strs => ap1("str.len", self.term(&S::Str, d)),
                        _ => ap1("abs", self.term(s, d)),
                    },
                    7 if self.cfg.nonlin && *s == S::Real && self.cfg.int => ap1("to_real", self.term(&S::Int, d)),
                    _ => self.leaf(s),
                }
            }
            S::U(n) => {
                let n = n.to_string();
                match self.g.u(3) {
                    0 => {
                        let f = self.sig.fun(&format!("f{n}"), vec![s.clone()], s.clone());
                        L(vec![f, self.term(s, d)])
                    }
                    1 => {
                        let f = self.sig.fun(&format!("g{n}"), vec![s.clone(), s.clone()], s.clone());
                        L(vec![f, self.term(s, d), self.term(s, d)])
                    }
                    _ => {
                        self.sig.sort("U");
                        self.sig.sort("T");
                        let o = if n == "U" { S::u("T") } else { su() };
                        let f = self.sig.fun(&format!("h{n}"), vec![o.clone()], s.clone());
                        L(vec![f, self.term(&o, d)])
                    }
                }
            }
            S::BV(w) => {
                let w = *w;
                match self.g.u(6) {
                    0 => {
                        let op = self.g.pick_s(&["bvnot", "bvneg"]);
                        ap1(op, self.term(s, d))
                    }
                    1 | 2 => {
                        let op = self.g.pick_s(&["bvadd", "bvmul", "bvand", "bvor", "bvxor"]);
                        ap(op, self.terms(s, d, 2, 3))
                    }
                    3 => {
                        let op = self.g.pick_s(&["bvsub", "bvudiv", "bvurem", "bvshl", "bvlshr", "bvashr", "bvsdiv", "bvsrem", "bvsmod", "bvnand", "bvnor", "bvxnor"]);
                        ap2(op, self.term(s, d), self.term(s, d))
                    }
                    4 => {
                        // extract from a concat
                        let hi = w as i64 - 1;
                        let off = self.g.range(0, w as i64);
                        ix("extract", &[hi + off, off], vec![ap2("concat", self.term(s, d), self.term(s, d))])
                    }
                    _ => {
                        let k = self.g.range(0, 4);
                        let op = self.g.pick_s(&["rotate_left", "rotate_right"]);
                        ix(op, &[k], vec![self.term(s, d)])
                    }
                }
            }
            S::Str => match self.g.u(5) {
                0 | 1 => ap("str.++", self.terms(s, d, 2, 3)),
                2 if self.cfg.int => ap3("str.substr", self.term(s, d), self.term(&S::Int, d), self.term(&S::Int, d)),
                3 => ap3("str.replace", self.term(s, d), self.term(s, d), self.term(s, d)),
                4 if self.cfg.int => ap2("str.at", self.term(s, d), self.term(&S::Int, d)),
                _ => ap("str.++", self.terms(s, d, 2, 2)),
            },
            S::Re => self.re(d),
            _ => self.leaf(s),
        }
    }
    fn bool_node(&mut self, d: usize) -> E {
        let nary = self.cfg.nary;
        let k = self.g.u(14);
        match k {
            0 | 1 => not(self.boolt(d)),
            2 => and(self.terms(&S::Bool, d, 2, nary)),
            3 => or(self.terms(&S::Bool, d, 2, nary)),
            4 => ap2("=>", self.boolt(d), self.boolt(d)),
            5 => ap2("xor", self.boolt(d), self.boolt(d)),
            6 => eq(self.boolt(d), self.boolt(d)),
            7 | 8 if self.cfg.quant => {
                let b = if self.g.bool() { "forall" } else { "exists" };
                let ss = self.finite_sorts();
                self.quantified(b, d, &ss)
            }
            9 => {
                let s = self.any_sort_nb();
                if s == S::Bool {
                    return self.leaf(&s);
                }
                if self.g.chance(1, 4) {
                    ap("distinct", self.terms(&s, d, 2, 3))
                } else {
                    eq(self.term(&s, d), self.term(&s, d))
                }
            }
            _ => {
                // theory atom
                let s = self.any_sort_nb();
                match s {
                    S::Int | S::Real => {
                        let op = self.g.pick_s(&["<", "<=", ">", ">="]);
                        ap2(op, self.term(&s, d), self.term(&s, d))
                    }
                    S::BV(_) => {
                        let op = self.g.pick_s(&["bvult", "bvule", "bvugt", "bvuge", "bvslt", "bvsle", "bvsgt", "bvsge"]);
                        ap2(op, self.term(&s, d), self.term(&s, d))
                    }
                    S::Str => match self.g.u(4) {
                        0 => ap2("str.in_re", self.term(&s, d), self.re(d.min(2))),
                        1 => ap2("str.prefixof", self.term(&s, d), self.term(&s, d)),
                        2 => ap2("str.contains", self.term(&s, d), self.term(&s, d)),
                        _ => eq(self.term(&s, d), self.term(&s, d)),
                    },
                    S::U(ref n) => {
                        if self.g.bool() {
                            let f = self.sig.fun(&format!("P{n}"), vec![s.clone()], S::Bool);
                            L(vec![f, self.term(&s, d)])
                        } else {
                            let f = self.sig.fun(&format!("Q{n}"), vec![s.clone(), s.clone()], S::Bool);
                            L(vec![f, self.term(&s, d), self.term(&s, d)])
                        }
                    }
                    _ => self.leaf(&S::Bool),
                }
            }
        }
    }
    pub fn clause(&mut self, d: usize, lo: usize, hi: usize) -> Vec<E> {
        self.terms(&S::Bool, d, lo, hi)
    }
}

pub fn bvlit(w: usize, x: u128) -> E {
    let mut s = String::from("#b");
    for i in (0..w).rev() {
        s.push(if x >> i & 1 == 1 { '1' } else { '0' });
    }
    a(s)
}

/// Lenient sort inference, used to pick sort-preserving mutations.
pub fn sort_of(e: &E, sig: &Sig, scope: &[(String, S)]) -> Option<S> {
    match e {
        A(s) => {
            if let Some((_, t)) = scope.iter().rev().find(|x| x.0 == **s) {
                return Some(t.clone());
            }
            if let Some(f) = sig.get(s) {
                return Some(if f.1.is_empty() { f.2.clone() } else { S::Fun(f.1.clone(), Box::new(f.2.clone())) });
            }
            let b = s.as_bytes();
            match b[0] {
                b'"' => Some(S::Str),
                b'#' if b.len() > 2 && b[1] == b'b' => Some(S::BV(b.len() - 2)),
                b'#' if b.len() > 2 && b[1] == b'x' => Some(S::BV((b.len() - 2) * 4)),
                b'0'..=b'9' => Some(if s.contains('.') || s.contains('/') { S::Real } else { S::Int }),
                b'-' if b.len() > 1 => Some(if s.contains('.') || s.contains('/') { S::Real } else { S::Int }),
                _ => match &**s {
                    "true" | "false" => Some(S::Bool),
                    "re.none" | "re.all" | "re.allchar" => Some(S::Re),
                    _ => None,
                },
            }
        }
        L(v) => {
            let h = v.first()?;
            let n = v.len() - 1;
            match h {
                A(op) => {
                    if let Some(f) = sig.get(op) {
                        return Some(f.2.clone());
                    }
                    match &**op {
                        "not" | "and" | "or" | "xor" | "=>" | "=" | "distinct" | "<" | "<=" | ">" | ">=" | "forall" | "exists" | "is_int" | "cl" | "bvult" | "bvule" | "bvugt" | "bvuge" | "bvslt" | "bvsle" | "bvsgt" | "bvsge" | "str.<" | "str.<=" | "str.prefixof" | "str.suffixof" | "str.contains" | "str.in_re" | "str.is_digit" => Some(S::Bool),
                        "ite" if n == 3 => sort_of(&v[2], sig, scope),
                        "+" | "-" | "*" | "abs" => {
                            let ss: Vec<S> = v[1..].iter().filter_map(|x| sort_of(x, sig, scope)).collect();
                            if ss.contains(&S::Real) { Some(S::Real) } else { Some(S::Int) }
                        }
                        "/" | "to_real" => Some(S::Real),
                        "div" | "mod" | "to_int" | "str.len" | "str.indexof" | "str.to_code" | "str.to_int" | "ubv_to_int" | "sbv_to_int" | "int.pow2" | "int.log2" | "@bvsize" => Some(S::Int),
                        "str.++" | "str.at" | "str.substr" | "str.replace" | "str.replace_all" | "str.replace_re" | "str.replace_re_all" | "str.from_code" | "str.from_int" => Some(S::Str),
                        "bvnot" | "bvneg" | "bvand" | "bvor" | "bvxor" | "bvadd" | "bvmul" | "bvsub" | "bvudiv" | "bvurem" | "bvsdiv" | "bvsrem" | "bvsmod" | "bvshl" | "bvlshr" | "bvashr" | "bvnand" | "bvnor" | "bvxnor" => sort_of(v.get(1)?, sig, scope),
                        "bvcomp" => Some(S::BV(1)),
                        "@bbterm" | "@pbbterm" => Some(S::BV(n)),
                        "concat" => {
                            let mut w = 0;
                            for x in &v[1..] {
                                match sort_of(x, sig, scope)? {
                                    S::BV(k) => w += k,
                                    _ => return None,
                                }
                            }
                            Some(S::BV(w))
                        }
                        "_" => {
                            if v.get(1)?.atom()?.starts_with("bv") {
                                return Some(S::BV(v.get(2)?.atom()?.parse().ok()?));
                            }
                            None
                        }
                        "choice" => {
                            let b = bindings(v.get(1)?)?;
                            Some(b.first()?.1.clone())
                        }
                        "let" => {
                            let mut sc = scope.to_vec();
                            for b in v.get(1)?.list()? {
                                let b = b.list()?;
                                sc.push((b.first()?.atom()?.to_string(), sort_of(b.get(1)?, sig, scope)?));
                            }
                            sort_of(v.get(2)?, sig, &sc)
                        }
                        "!" => sort_of(v.get(1)?, sig, scope),
                        x if x.starts_with("re.") || x == "str.to_re" => Some(S::Re),
                        _ => match scope.iter().rev().find(|x| x.0 == **op) {
                            Some((_, S::Fun(_, r))) => Some((**r).clone()),
                            _ => None,
                        },
                    }
                }
                L(hv) if hv.first()?.is("_") => {
                    let i = |k: usize| hv.get(k).and_then(|x| x.atom()).and_then(|x| x.parse::<usize>().ok());
                    match hv.get(1)?.atom()? {
                        "extract" => Some(S::BV((i(2)? + 1).checked_sub(i(3)?)?)),
                        "@bit_of" => Some(S::Bool),
                        "@int_of" => Some(S::Int),
                        "zero_extend" | "sign_extend" => match sort_of(v.get(1)?, sig, scope)? {
                            S::BV(w) => Some(S::BV(w + i(2)?)),
                            _ => None,
                        },
                        "rotate_left" | "rotate_right" => sort_of(v.get(1)?, sig, scope),
                        "repeat" => match sort_of(v.get(1)?, sig, scope)? {
                            S::BV(w) => Some(S::BV(w * i(2)?)),
                            _ => None,
                        },
                        "int_to_bv" => Some(S::BV(i(2)?)),
                        "re.^" | "re.loop" => Some(S::Re),
                        _ => None,
                    }
                }
                _ => None,
            }
        }
    }
}

/// All term positions with their sort and scope.
pub fn term_paths(e: &E, sig: &Sig) -> Vec<(Vec<usize>, Option<S>, Vec<(String, S)>)> {
    fn go(e: &E, sig: &Sig, scope: &mut Vec<(String, S)>, cur: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, Option<S>, Vec<(String, S)>)>) {
        out.push((cur.clone(), sort_of(e, sig, scope), scope.clone()));
        if let L(v) = e {
            match e.head() {
                Some("forall" | "exists" | "choice" | "lambda") if v.len() == 3 => {
                    let k = scope.len();
                    if let Some(b) = bindings(&v[1]) {
                        for (n, s) in b {
                            scope.push((n.to_string(), s));
                        }
                    }
                    cur.push(2);
                    go(&v[2], sig, scope, cur, out);
                    cur.pop();
                    scope.truncate(k);
                }
                Some("let") if v.len() == 3 => {
                    let mut new = vec![];
                    if let L(bs) = &v[1] {
                        for (i, b) in bs.iter().enumerate() {
                            if let L(bv) = b {
                                if bv.len() == 2 {
                                    cur.push(1);
                                    cur.push(i);
                                    cur.push(1);
                                    go(&bv[1], sig, scope, cur, out);
                                    cur.truncate(cur.len() - 3);
                                    if let (Some(n), Some(s)) = (bv[0].atom(), sort_of(&bv[1], sig, scope)) {
                                        new.push((n.to_string(), s));
                                    }
                                }
                            }
                        }
                    }
                    let k = scope.len();
                    scope.extend(new);
                    cur.push(2);
                    go(&v[2], sig, scope, cur, out);
                    cur.pop();
                    scope.truncate(k);
                }
                Some("_") => {}
                _ => {
                    for i in 0..v.len() {
                        if i == 0 {
                            continue;
                        }
                        cur.push(i);
                        go(&v[i], sig, scope, cur, out);
                        cur.pop();
                    }
                }
            }
        }
    }
    let mut out = Vec::new();
    go(e, sig, &mut Vec::new(), &mut Vec::new(), &mut out);
    out
}

const OPS: [&[&str]; 14] = [
    &["and", "or"],
    &["and", "or", "xor", "=>", "="],
    &["<", "<=", ">", ">="],
    &["+", "-", "*"],
    &["forall", "exists"],
    &["bvult", "bvule", "bvugt", "bvuge", "bvslt", "bvsle", "bvsgt", "bvsge"],
    &["bvand", "bvor", "bvxor", "bvadd", "bvmul", "bvnand", "bvnor", "bvxnor"],
    &["bvnot", "bvneg"],
    &["=", "distinct"],
    &["div", "mod"],
    &["re.union", "re.inter", "re.++"],
    &["re.*", "re.+", "re.opt", "re.comp"],
    &["str.prefixof", "str.suffixof", "str.contains"],
    &["true", "false"],
];

/// One random, mostly sort-preserving mutation of a term. `pool` holds further terms to splice in.
pub fn mutate(g: &mut G, e: &E, sig: &Sig, pool: &[E]) -> E {
    let paths = term_paths(e, sig);
    let (p, s, _) = paths[g.u(paths.len())].clone();
    let cur = e.get(&p).clone();
    let mut out = e.clone();
    match g.weighted(&[8, 4, 4, 4, 5, 5, 3, 3, 3]) {
        // replace by another subterm of the same sort
        0 => {
            let mut c: Vec<E> = paths.iter().filter(|x| x.1 == s && s.is_some()).map(|x| e.get(&x.0).clone()).filter(|x| *x != cur).collect();
            for q in pool {
                for x in term_paths(q, sig) {
                    if x.1 == s && s.is_some() && x.2.is_empty() {
                        let t = q.get(&x.0).clone();
                        if t != cur {
                            c.push(t);
                        }
                    }
                }
            }
            if !c.is_empty() {
                let i = g.u(c.len());
                out.set(&p, c[i].clone());
            }
        }
        // toggle a negation
        1 => {
            if s == Some(S::Bool) {
                let new = if cur.is_app("not") && !cur.args().is_empty() && g.bool() { cur.args()[0].clone() } else { not(cur) };
                out.set(&p, new);
            } else if s.as_ref().map_or(false, |s| s.is_num()) {
                let new = if cur.is_app("-") && cur.args().len() == 1 { cur.args()[0].clone() } else { ap1("-", cur) };
                out.set(&p, new);
            }
        }
        // delete / duplicate / swap arguments of an application
        2 | 3 | 4 => {
            let apps: Vec<&Vec<usize>> = paths.iter().filter(|x| e.get(&x.0).args().len() >= 2 && !matches!(e.get(&x.0).head(), Some("forall" | "exists" | "choice" | "lambda" | "let" | "_" | "!"))).map(|x| &x.0).collect();
            if apps.is_empty() {
                return out;
            }
            let p = apps[g.u(apps.len())].clone();
            let mut v = e.get(&p).list().unwrap().to_vec();
            match g.u(4) {
                0 => {
                    let i = 1 + g.u(v.len() - 1);
                    v.remove(i);
                }
                1 => {
                    let i = 1 + g.u(v.len() - 1);
                    let j = 1 + g.u(v.len());
                    let x = v[i].clone();
                    v.insert(j, x);
                }
                2 => {
                    let i = 1 + g.u(v.len() - 1);
                    let j = 1 + g.u(v.len() - 1);
                    v.swap(i, j);
                }
                _ => {
                    let i = 1 + g.u(v.len() - 1);
                    let j = 1 + g.u(v.len() - 1);
                    v[i] = v[j].clone();
                }
            }
            out.set(&p, L(v));
        }
        // change an operator
        5 => {
            let ops: Vec<Vec<usize>> = e.paths().into_iter().filter(|p| e.get(p).atom().map_or(false, |s| OPS.iter().any(|o| o.contains(&s)))).collect();
            if ops.is_empty() {
                return out;
            }
            let p = ops[g.u(ops.len())].clone();
            let s = e.get(&p).atom().unwrap().to_string();
            let fam: Vec<&&[&str]> = OPS.iter().filter(|o| o.contains(&s.as_str())).collect();
            let f = fam[g.u(fam.len())];
            let n = f[g.u(f.len())];
            out.set(&p, a(n));
        }
        // tweak a number
        6 => {
            let nums: Vec<Vec<usize>> = e.paths().into_iter().filter(|p| e.get(p).atom().map_or(false, |s| s.as_bytes()[0].is_ascii_digit() || s.starts_with("#b"))).collect();
            if nums.is_empty() {
                return out;
            }
            let p = nums[g.u(nums.len())].clone();
            let s = e.get(&p).atom().unwrap().to_string();
            let new = if let Some(b) = s.strip_prefix("#b") {
                let mut cs: Vec<char> = b.chars().collect();
                let i = g.u(cs.len());
                cs[i] = if cs[i] == '0' { '1' } else { '0' };
                format!("#b{}", cs.into_iter().collect::<String>())
            } else if let Some((i, f)) = s.split_once('.') {
                match i.parse::<i64>() {
                    Ok(i) => format!("{}.{}", i.saturating_add(g.range(-1, 2)).max(0), f),
                    _ => s.clone(),
                }
            } else {
                match s.parse::<i64>() {
                    Ok(i) => format!("{}", i.saturating_add(g.range(-1, 2)).max(0)),
                    _ => s.clone(),
                }
            };
            out.set(&p, a(new));
        }
        // wrap / unwrap
        7 => {
            let args: Vec<E> = cur.args().iter().filter(|x| sort_of(x, sig, &paths.iter().find(|q| q.0 == p).unwrap().2) == s).cloned().collect();
            if !args.is_empty() && s.is_some() && !matches!(cur.head(), Some("forall" | "exists" | "choice" | "let")) {
                let i = g.u(args.len());
                out.set(&p, args[i].clone());
            }
        }
        // swap two subterms of the same sort
        _ => {
            let c: Vec<&Vec<usize>> = paths.iter().filter(|x| x.1 == s && s.is_some() && !x.0.starts_with(&p) && !p.starts_with(&x.0)).map(|x| &x.0).collect();
            if !c.is_empty() {
                let q = c[g.u(c.len())].clone();
                let x = e.get(&q).clone();
                out.set(&q, cur);
                out.set(&p, x);
            }
        }
    }
    out
}
