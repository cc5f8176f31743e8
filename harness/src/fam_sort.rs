//! C20: an independent sort checker (SMT-LIB signatures plus the documented extensions) against the parser.
use crate::carc::guard;
use crate::fam_print::parse_in;
use crate::g::{hash_str, G};
use crate::libt;
use crate::runner::{Case, Viol};
use crate::sexp::*;
use carcara::ast::{PrimitivePool, TermPool};
use carcara::parser::Config;

/// What the checker says about a term: its sort, that it is ill-sorted, or that the rules leave it open.
#[derive(Clone, Debug, PartialEq)]
enum T {
    Ok(E),
    Bad(String),
    Open,
}
use T::{Bad, Open};

#[derive(Clone, Default)]
struct Env {
    sorts: Vec<(String, usize)>,
    sort_defs: Vec<(String, Vec<String>, E)>,
    funs: Vec<(String, Vec<E>, E)>,
    strict: bool,
    sub: bool,
    /// numerals are reals
    reals: bool,
}
fn bv(w: u64) -> E {
    L(vec![a("_"), a("BitVec"), a(w.to_string())])
}
fn bvw(s: &E) -> Option<u64> {
    match s.list()? {
        [u, b, w] if u.is("_") && b.is("BitVec") => w.atom()?.parse().ok(),
        _ => None,
    }
}
fn is_numeral(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit()) && (s == "0" || !s.starts_with('0'))
}
fn subst_sort(e: &E, m: &[(String, E)]) -> E {
    match e {
        A(s) => m.iter().find(|x| x.0 == **s).map_or_else(|| e.clone(), |x| x.1.clone()),
        L(v) => {
            // the head of a sort application is not a parameter
            let mut o = vec![v[0].clone()];
            o.extend(v[1..].iter().map(|x| subst_sort(x, m)));
            L(o)
        }
    }
}
impl Env {
    /// the sort with its definitions expanded; None if it is not a sort
    fn sort(&self, e: &E) -> Option<E> {
        let (n, args): (&str, &[E]) = match e {
            A(s) => (s, &[]),
            L(v) => {
                if v.len() == 3 && v[0].is("_") {
                    let w = v[2].atom()?;
                    return (v[1].is("BitVec") && is_numeral(w) && w != "0" && w.len() < 10).then(|| e.clone());
                }
                if v.len() < 2 {
                    return None;
                }
                (v[0].atom()?, &v[1..])
            }
        };
        let xs = args.iter().map(|x| self.sort(x)).collect::<Option<Vec<_>>>()?;
        match (n, xs.len()) {
            ("Bool" | "Int" | "Real" | "String" | "RegLan", 0) => return Some(e.clone()),
            ("Bool" | "Int" | "Real" | "String" | "RegLan", _) => return None,
            ("Array", 2) => return Some(ap("Array", xs)),
            ("Array", _) => return None,
            _ => (),
        }
        if let Some((_, ps, body)) = self.sort_defs.iter().rev().find(|x| x.0 == n) {
            if ps.len() != xs.len() {
                return None;
            }
            let m: Vec<(String, E)> = ps.iter().cloned().zip(xs).collect();
            return Some(subst_sort(body, &m));
        }
        let d = self.sorts.iter().find(|x| x.0 == n)?;
        if d.1 != xs.len() {
            return None;
        }
        Some(if xs.is_empty() { e.clone() } else { ap(n, xs) })
    }
    fn num(&self, s: &E) -> bool {
        s.is("Int") || s.is("Real")
    }
    fn vars(&self, e: &E) -> Option<Vec<(String, E)>> {
        let v = e.list()?;
        if v.is_empty() {
            return None;
        }
        v.iter()
            .map(|x| match x.list()? {
                [n, s] => Some((n.atom()?.to_string(), self.sort(s)?)),
                _ => None,
            })
            .collect()
    }
    fn ty(&self, e: &E, sc: &mut Vec<(String, E)>) -> T {
        let ok = |s: &str| T::Ok(a(s));
        let bad = |m: &str| Bad(format!("{m}: {e}"));
        match e {
            A(s) => {
                if let Some(x) = sc.iter().rev().find(|x| x.0 == **s) {
                    return T::Ok(x.1.clone());
                }
                if let Some(f) = self.funs.iter().rev().find(|x| x.0 == **s) {
                    return if f.1.is_empty() { T::Ok(f.2.clone()) } else { Open };
                }
                match &**s {
                    "true" | "false" => return ok("Bool"),
                    "re.none" | "re.all" | "re.allchar" => return ok("RegLan"),
                    _ => (),
                }
                if is_numeral(s) {
                    return ok(if self.reals { "Real" } else { "Int" });
                }
                if s.contains('.') && s.split('.').count() == 2 && s.split('.').all(|x| !x.is_empty() && x.bytes().all(|c| c.is_ascii_digit())) {
                    return ok("Real");
                }
                if s.strip_prefix('-').is_some_and(is_numeral) {
                    return Open;
                }
                if let Some(b) = s.strip_prefix("#b") {
                    return T::Ok(bv(b.len() as u64));
                }
                if let Some(b) = s.strip_prefix("#x") {
                    return T::Ok(bv(4 * b.len() as u64));
                }
                if s.starts_with('"') {
                    return ok("String");
                }
                bad("unknown name")
            }
            L(v) => {
                if v.is_empty() {
                    return bad("empty");
                }
                if let Some(h) = v[0].atom() {
                    match h {
                        "forall" | "exists" | "choice" | "lambda" => {
                            if v.len() != 3 {
                                return bad("binder");
                            }
                            let Some(vs) = self.vars(&v[1]) else { return bad("variables") };
                            if h == "choice" && vs.len() != 1 {
                                return bad("choice variables");
                            }
                            let n = sc.len();
                            sc.extend(vs.iter().cloned());
                            let b = self.ty(&v[2], sc);
                            sc.truncate(n);
                            let T::Ok(b) = b else { return b };
                            return match h {
                                "lambda" => {
                                    let mut x: Vec<E> = vs.iter().map(|x| x.1.clone()).collect();
                                    x.push(b);
                                    T::Ok(ap("->", x))
                                }
                                _ if !b.is("Bool") => bad("body"),
                                "choice" => T::Ok(vs[0].1.clone()),
                                _ => ok("Bool"),
                            };
                        }
                        "let" => {
                            let (3, Some(bs)) = (v.len(), v[1].list()) else { return bad("let") };
                            if bs.is_empty() {
                                return bad("no bindings");
                            }
                            let mut new = vec![];
                            let mut open = false;
                            for b in bs {
                                let Some([n, t]) = b.list() else { return bad("binding") };
                                let Some(n) = n.atom() else { return bad("binding") };
                                match self.ty(t, sc) {
                                    T::Ok(s) => new.push((n.to_string(), s)),
                                    Open => {
                                        open = true;
                                        new.push((n.to_string(), a("?")))
                                    }
                                    x => return x,
                                }
                            }
                            let n = sc.len();
                            sc.extend(new);
                            let r = self.ty(&v[2], sc);
                            sc.truncate(n);
                            return if open { Open } else { r };
                        }
                        "!" => {
                            return if v.len() == 4 && v[2].is(":named") { self.ty(&v[1], sc) } else { Open };
                        }
                        "_" => {
                            // a constant (_ bvN w)
                            if let [_, n, w] = &v[..] {
                                if let (Some(n), Some(w)) = (n.atom().and_then(|x| x.strip_prefix("bv")), w.atom()) {
                                    if n.bytes().all(|c| c.is_ascii_digit()) && !n.is_empty() && is_numeral(w) && w != "0" && w.len() < 10 {
                                        return T::Ok(bv(w.parse().unwrap()));
                                    }
                                }
                            }
                            return bad("indexed constant");
                        }
                        _ => (),
                    }
                }
                let mut ss = vec![];
                let mut open = false;
                for x in &v[1..] {
                    match self.ty(x, sc) {
                        T::Ok(s) => ss.push(s),
                        Open => open = true,
                        x => return x,
                    }
                }
                if open {
                    return Open;
                }
                if ss.is_empty() {
                    return bad("no arguments");
                }
                match &v[0] {
                    A(h) => {
                        if let Some(x) = sc.iter().rev().find(|x| x.0 == **h) {
                            return self.apply(&x.1.clone(), &ss, e);
                        }
                        if let Some(f) = self.funs.iter().rev().find(|x| x.0 == **h) {
                            return if f.1.is_empty() {
                                self.apply(&f.2.clone(), &ss, e)
                            } else if f.1 == ss {
                                T::Ok(f.2.clone())
                            } else if f.1.len() == ss.len() && self.mixed(&f.1, &ss) {
                                Open
                            } else {
                                bad("arguments")
                            };
                        }
                        self.op(h, &ss, e)
                    }
                    L(h) if h.len() >= 2 && h[0].is("_") => self.ixop(&h[1..], &ss, e),
                    L(h) if h.len() == 3 && h[0].is("as") && h[1].is("const") => {
                        let Some(s) = self.sort(&h[2]) else { return bad("sort") };
                        match s.list() {
                            Some([_, _, y]) if s.is_app("Array") && ss.len() == 1 && *y == ss[0] => T::Ok(s),
                            Some([_, _, y]) if s.is_app("Array") && ss.len() == 1 && self.mixed(&[y.clone()], &ss) => Open,
                            _ => bad("constant array"),
                        }
                    }
                    f => match self.ty(f, sc) {
                        T::Ok(s) => self.apply(&s, &ss, e),
                        x => x,
                    },
                }
            }
        }
    }
    /// an Int is given for a Real, and that is allowed somewhere
    fn mixed(&self, want: &[E], got: &[E]) -> bool {
        self.sub && want.iter().zip(got).all(|(x, y)| x == y || self.num(x) && self.num(y) || x.list().is_some() && y.list().is_some())
    }
    fn apply(&self, f: &E, ss: &[E], e: &E) -> T {
        if f.is("?") {
            return Open;
        }
        if !f.is_app("->") {
            return Bad(format!("not a function: {e}"));
        }
        let x = f.args();
        if x.len() != ss.len() + 1 {
            return Bad(format!("number of arguments: {e}"));
        }
        if x[..ss.len()] == *ss {
            T::Ok(x[ss.len()].clone())
        } else if self.mixed(&x[..ss.len()], ss) {
            Open
        } else {
            Bad(format!("arguments: {e}"))
        }
    }
    fn op(&self, h: &str, ss: &[E], e: &E) -> T {
        let n = ss.len();
        let all = |s: &str| ss.iter().all(|x| x.is(s));
        let same = ss.windows(2).all(|w| w[0] == w[1]);
        let bvs = ss.iter().all(|s| bvw(s).is_some());
        let sig = |args: &[&str], r: &str| -> T {
            if n == args.len() && ss.iter().zip(args).all(|(x, y)| x.is(y)) {
                T::Ok(a(r))
            } else if n == args.len() && self.sub && ss.iter().zip(args).all(|(x, y)| x.is(y) || x.is("Int") && *y == "Real") {
                Open
            } else {
                Bad(format!("arguments of {h}: {e}"))
            }
        };
        let cond = |c: bool, r: E| if c { T::Ok(r) } else { Bad(format!("arguments of {h}: {e}")) };
        let b = || a("Bool");
        // equal up to Int and Real, with subtyping
        let loose = self.sub && ss.windows(2).all(|w| w[0] == w[1] || self.num(&w[0]) && self.num(&w[1]));
        match h {
            "not" => sig(&["Bool"], "Bool"),
            "=>" => cond(n >= 2 && all("Bool"), b()),
            "and" | "or" | "xor" => cond(n >= if self.strict { 2 } else { 1 } && all("Bool"), b()),
            "=" | "distinct" => {
                if n >= 2 && !same && loose {
                    return Open;
                }
                cond(n >= 2 && same, b())
            }
            "ite" => {
                if n == 3 && ss[0].is("Bool") && ss[1] != ss[2] && self.sub && self.num(&ss[1]) && self.num(&ss[2]) {
                    return Open;
                }
                cond(n == 3 && ss[0].is("Bool") && ss[1] == ss[2], ss.get(1).cloned().unwrap_or(b()))
            }
            "+" | "*" | "-" => {
                let real = ss.iter().any(|x| x.is("Real"));
                cond(n >= if h == "-" { 1 } else { 2 } && ss.iter().all(|x| self.num(x)) && (same || self.sub), a(if real { "Real" } else { "Int" }))
            }
            "/" => cond(n >= 2 && if self.sub { ss.iter().all(|x| self.num(x)) } else { all("Real") }, a("Real")),
            "div" => cond(n >= 2 && all("Int"), a("Int")),
            "mod" => sig(&["Int", "Int"], "Int"),
            "abs" => cond(n == 1 && (ss[0].is("Int") || self.sub && ss[0].is("Real")), ss[0].clone()),
            "<" | "<=" | ">" | ">=" => cond(n >= 2 && ss.iter().all(|x| self.num(x)), b()),
            "to_real" => {
                if self.sub && n == 1 && ss[0].is("Real") {
                    return Open;
                }
                sig(&["Int"], "Real")
            }
            "to_int" => sig(&["Real"], "Int"),
            "is_int" => sig(&["Real"], "Bool"),
            "select" | "store" => {
                if n != if h == "select" { 2 } else { 3 } || !ss[0].is_app("Array") {
                    return Bad(format!("arguments of {h}: {e}"));
                }
                let x = ss[0].args();
                let r = if h == "select" { x[1].clone() } else { ss[0].clone() };
                if x[..n - 1] == ss[1..] {
                    T::Ok(r)
                } else if self.mixed(x, &ss[1..]) {
                    Open
                } else {
                    Bad(format!("arguments of {h}: {e}"))
                }
            }
            "str.++" => cond(n >= 2 && all("String"), a("String")),
            "str.len" | "str.to_code" | "str.to_int" => sig(&["String"], "Int"),
            "str.is_digit" => sig(&["String"], "Bool"),
            "str.<" | "str.<=" if n > 2 => Open,
            "str.<" | "str.<=" | "str.prefixof" | "str.suffixof" | "str.contains" => sig(&["String", "String"], "Bool"),
            "str.at" => sig(&["String", "Int"], "String"),
            "str.substr" => sig(&["String", "Int", "Int"], "String"),
            "str.indexof" => sig(&["String", "String", "Int"], "Int"),
            "str.replace" | "str.replace_all" => sig(&["String", "String", "String"], "String"),
            "str.replace_re" | "str.replace_re_all" => sig(&["String", "RegLan", "String"], "String"),
            "str.from_code" | "str.from_int" => sig(&["Int"], "String"),
            "str.to_re" => sig(&["String"], "RegLan"),
            "str.in_re" => sig(&["String", "RegLan"], "Bool"),
            "re.range" => sig(&["String", "String"], "RegLan"),
            "re.++" | "re.union" | "re.inter" | "re.diff" => cond(n >= 2 && all("RegLan"), a("RegLan")),
            "re.*" | "re.+" | "re.opt" | "re.comp" => sig(&["RegLan"], "RegLan"),
            "bvnot" | "bvneg" => cond(n == 1 && bvs, ss[0].clone()),
            "bvadd" | "bvmul" | "bvand" | "bvor" | "bvxor" => cond(n >= 2 && bvs && same, ss[0].clone()),
            "bvudiv" | "bvurem" | "bvshl" | "bvlshr" | "bvnand" | "bvnor" | "bvxnor" | "bvsub" | "bvsdiv" | "bvsrem" | "bvsmod" | "bvashr" => cond(n == 2 && bvs && same, ss[0].clone()),
            "bvcomp" => cond(n == 2 && bvs && same, bv(1)),
            "bvult" | "bvule" | "bvugt" | "bvuge" | "bvslt" | "bvsle" | "bvsgt" | "bvsge" => cond(n == 2 && bvs && same, b()),
            "concat" => cond(n >= 2 && bvs, bv(ss.iter().filter_map(bvw).sum())),
            "ubv_to_int" | "sbv_to_int" | "@bvsize" => cond(n == 1 && bvs, a("Int")),
            "int.pow2" | "int.log2" => sig(&["Int"], "Int"),
            "int.ispow2" => sig(&["Int"], "Bool"),
            "@bbterm" => cond(n >= 1 && all("Bool"), bv(n as u64)),
            "@pbbterm" => cond(n >= 1 && all("Int"), bv(n as u64)),
            "@bv" | "cl" | "@d" | "rare-list" => Open,
            _ => Bad(format!("unknown operator: {e}")),
        }
    }
    fn ixop(&self, h: &[E], ss: &[E], e: &E) -> T {
        let bad = || Bad(format!("indexed operator: {e}"));
        let Some(op) = h[0].atom() else { return bad() };
        if !h[1..].iter().all(|x| x.atom().is_some_and(is_numeral)) {
            return if h[1..].iter().all(|x| x.atom().is_some_and(|s| s.strip_prefix('-').is_some_and(is_numeral))) { bad() } else { Open };
        }
        let ix: Vec<u64> = h[1..].iter().filter_map(|x| x.atom()?.parse().ok()).collect();
        if ix.len() != h.len() - 1 || ix.iter().any(|x| *x > 1 << 30) {
            return Open;
        }
        let w = if ss.len() == 1 { bvw(&ss[0]) } else { None };
        match (op, &ix[..], w) {
            ("extract", [i, j], Some(w)) if w > *i && i >= j => T::Ok(bv(i - j + 1)),
            ("zero_extend" | "sign_extend", [i], Some(w)) => T::Ok(bv(w + i)),
            ("rotate_left" | "rotate_right", [_], Some(w)) => T::Ok(bv(w)),
            ("repeat", [i], Some(w)) if *i >= 1 => T::Ok(bv(w * i)),
            ("@bit_of", [i], Some(w)) if *i < w => T::Ok(a("Bool")),
            ("@int_of", [i], Some(w)) if *i < w => T::Ok(a("Int")),
            ("@bit_of" | "@int_of", [_], Some(_)) => Open,
            ("int_to_bv", [i], _) if *i >= 1 && ss.len() == 1 && ss[0].is("Int") => T::Ok(bv(*i)),
            ("re.^", [_], _) if ss.len() == 1 && ss[0].is("RegLan") => T::Ok(a("RegLan")),
            ("re.loop", [_, _], _) if ss.len() == 1 && ss[0].is("RegLan") => T::Ok(a("RegLan")),
            _ => bad(),
        }
    }
}

struct Gen<'a> {
    g: &'a mut G,
    env: Env,
    scope: Vec<(String, E)>,
    /// number of places still to be damaged, and the chance to damage one
    damage: usize,
}
impl Gen<'_> {
    fn base(&mut self) -> E {
        match self.g.u(14) {
            0 | 1 => a("Bool"),
            2 | 3 => a("Int"),
            4 => a("Real"),
            5 => a("String"),
            6 => a("RegLan"),
            7 | 8 => bv(*self.g.pick(&[1, 3, 8])),
            9 => a("U"),
            10 => ap("Pair", vec![a("Int"), a("U")]),
            11 => ap("Array", vec![a("Int"), a("Int")]),
            12 => ap("Array", vec![a("U"), a("Bool")]),
            _ => ap("Array", vec![a("Int"), ap("Array", vec![a("Int"), bv(3)])]),
        }
    }
    /// A sort expression, sometimes through a definition, sometimes wrong.
    fn sort_expr(&mut self, d: usize) -> E {
        if self.damage > 0 && self.g.chance(1, 4) {
            self.damage -= 1;
            return match self.g.u(9) {
                0 => a("Undeclared"),
                1 => bv(0),
                2 => ap("U", vec![a("Int")]),
                3 => a("Pair"),
                4 => ap("Pair", vec![a("Int")]),
                5 => ap("Array", vec![a("Int")]),
                6 => ap("Int", vec![a("Int")]),
                7 => ap("D1", vec![]),
                _ => ap("D0", vec![a("Int")]),
            };
        }
        let k = self.g.u(12);
        match k {
            0 => a("D0"),
            1 if d > 0 => ap("D1", vec![self.sort_expr(d - 1)]),
            2 if d > 0 => ap("D2", vec![self.sort_expr(d - 1), self.sort_expr(d - 1)]),
            3 if d > 0 => ap("Array", vec![self.sort_expr(d - 1), self.sort_expr(d - 1)]),
            4 if d > 0 => ap("Pair", vec![self.sort_expr(d - 1), self.sort_expr(d - 1)]),
            _ => self.base(),
        }
    }
    fn leaf(&mut self, s: &E) -> E {
        let vs: Vec<String> = self.scope.iter().enumerate().filter(|(i, x)| x.1 == *s && !self.scope[i + 1..].iter().any(|y| y.0 == x.0)).map(|x| x.1 .0.clone()).collect();
        if !vs.is_empty() && self.g.bool() {
            return a(&vs[self.g.u(vs.len())]);
        }
        let cs: Vec<String> = self.env.funs.iter().filter(|x| x.1.is_empty() && x.2 == *s && !self.scope.iter().any(|y| y.0 == x.0)).map(|x| x.0.clone()).collect();
        let lit = self.g.chance(1, 3) || cs.is_empty();
        if lit {
            if s.is("Int") && !self.env.reals {
                return int(self.g.range(0, 12));
            }
            if s.is("Real") {
                return if self.env.reals && self.g.bool() { int(self.g.range(0, 12)) } else { a(self.g.pick_s(&["0.0", "1.5", "10.25"])) };
            }
            if s.is("String") {
                return a(self.g.pick_s(&["\"\"", "\"a b\"", "\"x\"\"y\""]));
            }
            if s.is("Bool") {
                return a(self.g.pick_s(&["true", "false"]));
            }
            if s.is("RegLan") {
                return a(self.g.pick_s(&["re.none", "re.all", "re.allchar"]));
            }
            if let Some(w) = bvw(s) {
                if w <= 64 {
                    return match self.g.u(3) {
                        0 => L(vec![a("_"), a(format!("bv{}", self.g.u(300))), a(w.to_string())]),
                        1 if w % 4 == 0 => a(format!("#x{}", "a".repeat(w as usize / 4))),
                        _ => a(format!("#b{}", "1".repeat(w as usize))),
                    };
                }
                return L(vec![a("_"), a("bv1"), a(w.to_string())]);
            }
        }
        if cs.is_empty() {
            // declared on demand
            let n = format!("k{}", self.env.funs.len());
            self.env.funs.push((n.clone(), vec![], s.clone()));
            return a(n);
        }
        a(&cs[self.g.u(cs.len())])
    }
    fn app(&mut self, h: E, sorts: &[E], d: usize) -> E {
        let mut v: Vec<E> = vec![h];
        for s in sorts {
            let t = self.term(s, d);
            v.push(t);
        }
        if self.damage > 0 && self.g.chance(1, 3) {
            self.damage -= 1;
            let n = v.len() - 1;
            match self.g.u(6) {
                0 if n > 0 => {
                    v.remove(1 + self.g.u(n));
                }
                1 => {
                    let s = self.base();
                    let t = self.term(&s, 0);
                    let i = 1 + self.g.u(n + 1);
                    v.insert(i, t);
                }
                2 if n > 0 => {
                    let t = v[1 + self.g.u(n)].clone();
                    v.push(t);
                }
                3 if n > 1 => {
                    let (i, j) = (1 + self.g.u(n), 1 + self.g.u(n));
                    v.swap(i, j);
                }
                4 if v[0].list().is_some() => {
                    // another index
                    if let L(x) = &mut v[0] {
                        let i = x.len() - 1;
                        match self.g.u(3) {
                            0 => x[i] = a(self.g.pick_s(&["0", "1", "2", "7", "8", "9", "-1", "100"])),
                            1 => x.push(a("1")),
                            _ => {
                                if i >= 2 {
                                    x.remove(i);
                                }
                            }
                        }
                    }
                }
                _ if n > 0 => {
                    let s = self.base();
                    let t = self.term(&s, 0);
                    let i = 1 + self.g.u(n);
                    v[i] = t;
                }
                _ => (),
            }
        }
        L(v)
    }
    fn rep(&mut self, s: &E, lo: usize, hi: usize) -> Vec<E> {
        let n = self.g.ur(lo, hi);
        vec![s.clone(); n]
    }
    fn term(&mut self, s: &E, d: usize) -> E {
        if d == 0 {
            return self.leaf(s);
        }
        let d = d - 1;
        let b = a("Bool");
        let (i, r, st, re) = (a("Int"), a("Real"), a("String"), a("RegLan"));
        // forms for every sort
        if self.g.chance(1, 4) {
            match self.g.u(8) {
                0 => return self.app(a("ite"), &[b, s.clone(), s.clone()], d),
                1 => {
                    let k = self.base();
                    let arr = ap("Array", vec![k.clone(), s.clone()]);
                    return self.app(a("select"), &[arr, k], d);
                }
                2 => {
                    // let, with names that hide others
                    let n = self.g.ur(1, 2);
                    let mut bs = vec![];
                    let mut new: Vec<(String, E)> = vec![];
                    for _ in 0..n {
                        let s = self.base();
                        let t = self.term(&s, d.min(1));
                        let nm = self.g.pick_s(&["x", "y", "z", "p0"]).to_string();
                        if new.iter().any(|x| x.0 == nm) {
                            continue;
                        }
                        bs.push(l(vec![a(&nm), t]));
                        new.push((nm, s));
                    }
                    let k = self.scope.len();
                    self.scope.extend(new);
                    let body = self.term(s, d);
                    self.scope.truncate(k);
                    return L(vec![a("let"), L(bs), body]);
                }
                3 => {
                    let vs = self.vars(1);
                    let k = self.scope.len();
                    self.scope.extend(vs.iter().map(|x| (x.0.clone(), x.2.clone())));
                    let body = self.term(&b, d.min(1));
                    self.scope.truncate(k);
                    // the sort of the choice is that of its variable
                    let v: Vec<E> = vs.iter().map(|x| l(vec![a(&x.0), x.1.clone()])).collect();
                    let c = L(vec![a("choice"), L(v), body]);
                    if vs.len() == 1 && vs[0].2 == *s {
                        return c;
                    }
                    return self.app(a("ite"), &[b, s.clone(), s.clone()], d);
                }
                4 => {
                    let vs = self.vars(2);
                    let k = self.scope.len();
                    self.scope.extend(vs.iter().map(|x| (x.0.clone(), x.2.clone())));
                    let body = self.term(s, d.min(1));
                    self.scope.truncate(k);
                    let v: Vec<E> = vs.iter().map(|x| l(vec![a(&x.0), x.1.clone()])).collect();
                    let ss: Vec<E> = vs.iter().map(|x| x.2.clone()).collect();
                    return self.app(L(vec![a("lambda"), L(v), body]), &ss, d.min(1));
                }
                5 => {
                    let fs: Vec<(String, Vec<E>)> = self.env.funs.iter().filter(|x| !x.1.is_empty() && x.2 == *s && !self.scope.iter().any(|y| y.0 == x.0)).map(|x| (x.0.clone(), x.1.clone())).collect();
                    if !fs.is_empty() {
                        let f = fs[self.g.u(fs.len())].clone();
                        return self.app(a(&f.0), &f.1, d);
                    }
                    let n = format!("f{}", self.env.funs.len());
                    let k = self.g.ur(1, 3);
                    let ss: Vec<E> = (0..k).map(|_| self.base()).collect();
                    self.env.funs.push((n.clone(), ss.clone(), s.clone()));
                    return self.app(a(n), &ss, d);
                }
                6 => {
                    let n = format!("nm{}", self.g.u(100_000));
                    let t = self.term(s, d);
                    return L(vec![a("!"), t, a(":named"), a(n)]);
                }
                _ => return self.leaf(s),
            }
        }
        if s.is("Bool") {
            match self.g.u(14) {
                0 => self.app(a("not"), &[b], d),
                1 => {
                    let o = self.g.pick_s(&["and", "or", "xor", "=>"]);
                    let v = self.rep(&b, if o == "=>" { 2 } else { 1 }, 4);
                    self.app(a(o), &v, d)
                }
                2 | 3 => {
                    let x = self.base();
                    let v = self.rep(&x, 2, 4);
                    let o = self.g.pick_s(&["=", "distinct"]);
                    self.app(a(o), &v, d)
                }
                4 => {
                    let x = if self.g.bool() { i } else { r };
                    let v = self.rep(&x, 2, 4);
                    let o = self.g.pick_s(&["<", "<=", ">", ">="]);
                    self.app(a(o), &v, d)
                }
                5 => self.app(a("is_int"), &[r], d),
                6 => {
                    let o = self.g.pick_s(&["str.<", "str.<=", "str.prefixof", "str.suffixof", "str.contains"]);
                    self.app(a(o), &[st.clone(), st], d)
                }
                7 => self.app(a("str.is_digit"), &[st], d),
                8 => self.app(a("str.in_re"), &[st, re], d),
                9 | 10 => {
                    let x = bv(*self.g.pick(&[1, 3, 8]));
                    let o = self.g.pick_s(&["bvult", "bvule", "bvugt", "bvuge", "bvslt", "bvsle", "bvsgt", "bvsge"]);
                    self.app(a(o), &[x.clone(), x], d)
                }
                11 => {
                    let k = self.g.u(3) as u64;
                    self.app(ix_head("@bit_of", &[k]), &[bv(3)], d)
                }
                12 => self.app(a("int.ispow2"), &[i], d),
                _ => {
                    let vs = self.vars(3);
                    let k = self.scope.len();
                    self.scope.extend(vs.iter().map(|x| (x.0.clone(), x.2.clone())));
                    let body = if self.damage > 0 && self.g.chance(1, 5) {
                        self.damage -= 1;
                        let s = self.base();
                        self.term(&s, 0)
                    } else {
                        self.term(&b, d)
                    };
                    self.scope.truncate(k);
                    let v: Vec<E> = vs.iter().map(|x| l(vec![a(&x.0), x.1.clone()])).collect();
                    let o = self.g.pick_s(&["forall", "exists"]);
                    L(vec![a(o), L(v), body])
                }
            }
        } else if s.is("Int") {
            match self.g.u(12) {
                0 | 1 => {
                    let o = self.g.pick_s(&["+", "-", "*", "div"]);
                    let v = self.rep(&i, if o == "-" { 1 } else { 2 }, 4);
                    self.app(a(o), &v, d)
                }
                2 => self.app(a("mod"), &[i.clone(), i], d),
                3 => self.app(a("abs"), &[i], d),
                4 => self.app(a("to_int"), &[r], d),
                5 => {
                    let o = self.g.pick_s(&["str.len", "str.to_code", "str.to_int"]);
                    self.app(a(o), &[st], d)
                }
                6 => self.app(a("str.indexof"), &[st.clone(), st, i], d),
                7 => {
                    let o = self.g.pick_s(&["ubv_to_int", "sbv_to_int", "@bvsize"]);
                    let w = *self.g.pick(&[1, 3, 8]);
                    self.app(a(o), &[bv(w)], d)
                }
                8 => {
                    let o = self.g.pick_s(&["int.pow2", "int.log2"]);
                    self.app(a(o), &[i], d)
                }
                9 => {
                    let k = self.g.u(3) as u64;
                    self.app(ix_head("@int_of", &[k]), &[bv(3)], d)
                }
                _ => self.leaf(s),
            }
        } else if s.is("Real") {
            match self.g.u(4) {
                0 | 1 => {
                    let o = self.g.pick_s(&["+", "-", "*", "/"]);
                    let v = self.rep(&r, if o == "-" { 1 } else { 2 }, 4);
                    self.app(a(o), &v, d)
                }
                2 => self.app(a("to_real"), &[i], d),
                _ => self.leaf(s),
            }
        } else if s.is("String") {
            match self.g.u(6) {
                0 => {
                    let v = self.rep(&st, 2, 4);
                    self.app(a("str.++"), &v, d)
                }
                1 => self.app(a("str.at"), &[st, i], d),
                2 => self.app(a("str.substr"), &[st, i.clone(), i], d),
                3 => {
                    let o = self.g.pick_s(&["str.replace", "str.replace_all"]);
                    self.app(a(o), &[st.clone(), st.clone(), st], d)
                }
                4 => {
                    let o = self.g.pick_s(&["str.replace_re", "str.replace_re_all"]);
                    self.app(a(o), &[st.clone(), re, st], d)
                }
                _ => {
                    let o = self.g.pick_s(&["str.from_code", "str.from_int"]);
                    self.app(a(o), &[i], d)
                }
            }
        } else if s.is("RegLan") {
            match self.g.u(6) {
                0 => self.app(a("str.to_re"), &[st], d),
                1 => self.app(a("re.range"), &[st.clone(), st], d),
                2 => {
                    let o = self.g.pick_s(&["re.++", "re.union", "re.inter", "re.diff"]);
                    let v = self.rep(&re, 2, 4);
                    self.app(a(o), &v, d)
                }
                3 => {
                    let o = self.g.pick_s(&["re.*", "re.+", "re.opt", "re.comp"]);
                    self.app(a(o), &[re], d)
                }
                4 => {
                    let k = self.g.u(4) as u64;
                    self.app(ix_head("re.^", &[k]), &[re], d)
                }
                _ => {
                    let (k, m) = (self.g.u(4) as u64, self.g.u(4) as u64);
                    self.app(ix_head("re.loop", &[k, m]), &[re], d)
                }
            }
        } else if let Some(w) = bvw(s) {
            match self.g.u(12) {
                0 => {
                    let o = self.g.pick_s(&["bvnot", "bvneg"]);
                    self.app(a(o), &[s.clone()], d)
                }
                1 => {
                    let o = self.g.pick_s(&["bvadd", "bvmul", "bvand", "bvor", "bvxor"]);
                    let v = self.rep(s, 2, 4);
                    self.app(a(o), &v, d)
                }
                2 | 3 => {
                    let o = self.g.pick_s(&["bvudiv", "bvurem", "bvshl", "bvlshr", "bvnand", "bvnor", "bvxnor", "bvsub", "bvsdiv", "bvsrem", "bvsmod", "bvashr"]);
                    self.app(a(o), &[s.clone(), s.clone()], d)
                }
                4 if w == 1 => {
                    let x = bv(*self.g.pick(&[1, 3, 8]));
                    self.app(a("bvcomp"), &[x.clone(), x], d)
                }
                5 if w >= 2 => {
                    let k = self.g.range(1, w as i64 - 1) as u64;
                    let mut v = vec![bv(k), bv(w - k)];
                    if w - k >= 2 && self.g.bool() {
                        v = vec![bv(k), bv(1), bv(w - k - 1)];
                    }
                    self.app(a("concat"), &v, d)
                }
                6 => {
                    let m = w + self.g.u(4) as u64;
                    let j = self.g.u((m - w + 1) as usize) as u64;
                    self.app(ix_head("extract", &[j + w - 1, j]), &[bv(m)], d)
                }
                7 => {
                    let k = self.g.u(w as usize) as u64;
                    let o = self.g.pick_s(&["zero_extend", "sign_extend"]);
                    self.app(ix_head(o, &[k]), &[bv(w - k)], d)
                }
                8 => {
                    let o = self.g.pick_s(&["rotate_left", "rotate_right"]);
                    let k = self.g.u(12) as u64;
                    self.app(ix_head(o, &[k]), &[s.clone()], d)
                }
                9 => {
                    let ds: Vec<u64> = (1..=w).filter(|x| w % x == 0).collect();
                    let k = ds[self.g.u(ds.len())];
                    self.app(ix_head("repeat", &[k]), &[bv(w / k)], d)
                }
                10 => self.app(ix_head("int_to_bv", &[w]), &[i], d),
                _ if w <= 4 => {
                    let (o, x) = if self.g.bool() { ("@bbterm", b) } else { ("@pbbterm", i) };
                    self.app(a(o), &vec![x; w as usize], d)
                }
                _ => self.leaf(s),
            }
        } else if s.is_app("Array") {
            let x = s.args().to_vec();
            match self.g.u(3) {
                0 => self.app(a("store"), &[s.clone(), x[0].clone(), x[1].clone()], d),
                1 => self.app(L(vec![a("as"), a("const"), s.clone()]), &[x[1].clone()], d),
                _ => self.leaf(s),
            }
        } else {
            self.leaf(s)
        }
    }
    /// Bound variables: name, sort expression, sort
    fn vars(&mut self, hi: usize) -> Vec<(String, E, E)> {
        let n = self.g.ur(1, hi);
        let mut o = vec![];
        for _ in 0..n {
            let e = self.sort_expr(1);
            let s = self.env.sort(&e).unwrap_or(a("Int"));
            o.push((self.g.pick_s(&["x", "y", "z", "p0"]).to_string(), e, s));
        }
        o
    }
}
fn ix_head(op: &str, ix: &[u64]) -> E {
    let mut v = vec![a("_"), a(op)];
    v.extend(ix.iter().map(|x| a(x.to_string())));
    L(v)
}

pub fn terms(g: &mut G) -> Case {
    let reals = g.chance(1, 10);
    let logic = if reals {
        Some(g.pick_s(&["QF_LRA", "LRA", "QF_UFLRA", "QF_NRA"]))
    } else if g.chance(1, 5) {
        Some(g.pick_s(&["ALL", "QF_LIA", "AUFLIRA", "QF_BV"]))
    } else {
        None
    };
    let mut env = Env { strict: g.chance(1, 4), sub: g.chance(1, 4), reals: false, ..Env::default() };
    env.sorts = vec![("U".into(), 0), ("Pair".into(), 2), ("T".into(), 0)];
    // sort definitions; parameters may hide declared sorts
    let mut defs = vec![];
    let d0 = g.pick(&[ap("Array", vec![a("Int"), a("U")]), bv(3), ap("Pair", vec![a("U"), a("Bool")]), a("Int")]).clone();
    defs.push(("D0".to_string(), vec![], d0));
    let p = g.pick_s(&["X", "U", "T", "D0"]).to_string();
    let d1 = g.pick(&[ap("Array", vec![a(&p), a("Int")]), ap("Pair", vec![a(&p), a(&p)]), a(&p)]).clone();
    defs.push(("D1".into(), vec![p], d1));
    let (p, q) = *g.pick(&[("X", "Y"), ("U", "T"), ("T", "U")]);
    let d2 = g.pick(&[ap("Array", vec![a(q), a(p)]), ap("Pair", vec![a(q), ap("Array", vec![a(p), a("Int")])]), a(q)]).clone();
    defs.push(("D2".into(), vec![p.to_string(), q.to_string()], d2));
    let mut text = String::new();
    if let Some(x) = logic {
        text.push_str(&format!("(set-logic {x})\n"));
    }
    for (n, k) in &env.sorts {
        text.push_str(&format!("(declare-sort {n} {k})\n"));
    }
    for (n, ps, b) in &defs {
        text.push_str(&format!("(define-sort {n} ({}) {b})\n", ps.join(" ")));
        // the body with what is known so far
        let mut e2 = env.clone();
        e2.sorts.retain(|x| !ps.contains(&x.0));
        e2.sort_defs.retain(|x| !ps.contains(&x.0));
        e2.sorts.extend(ps.iter().map(|p| (p.clone(), 0)));
        let b = e2.sort(b).unwrap_or(a("?"));
        env.sort_defs.push((n.clone(), ps.clone(), b));
    }
    env.funs.push(("p0".into(), vec![], a("Bool")));
    env.reals = reals;
    let damage = if g.chance(2, 5) { 0 } else { g.ur(1, 2) };
    let mut q = Gen { g, env, scope: vec![], damage: 0 };
    // 0: assertion, 1: bare term in a proof's arguments, 2: literal, 3: assumption, 4: definition, 5: anchor, 6: declaration
    let pos = q.g.u(8);
    if pos >= 1 && pos != 4 && pos != 6 && pos != 7 {
        // literals in proofs are not read as reals
        q.env.reals = false;
    }
    let want = match pos {
        0 | 2 | 3 => a("Bool"),
        _ => q.base(),
    };
    q.damage = damage;
    let given = if q.damage > 0 && matches!(pos, 0 | 2 | 3) && q.g.chance(1, 8) {
        q.damage -= 1;
        q.base()
    } else {
        want.clone()
    };
    let d = q.g.ur(1, 4);
    let mut t = q.term(&given, d);
    // the sort written where one has to be written
    let (se, ret_ok): (E, Option<E>) = if pos == 4 || pos == 5 {
        if q.g.chance(1, 3) {
            let e = q.sort_expr(1);
            let s = q.env.sort(&e);
            if let Some(s) = &s {
                if q.g.bool() {
                    let k = q.g.u(3);
                    t = q.term(&s.clone(), k);
                }
            }
            (e, s)
        } else {
            (want.clone(), Some(want.clone()))
        }
    } else {
        (want.clone(), Some(want.clone()))
    };
    let decl_sort = q.sort_expr(2);
    let env = q.env.clone();
    for (n, args, r) in &env.funs {
        let x: Vec<String> = args.iter().map(|x| x.to_string()).collect();
        text.push_str(&format!("(declare-fun {n} ({}) {r})\n", x.join(" ")));
    }
    let ty = env.ty(&t, &mut vec![]);
    // what has to happen
    let accept = |s: &E| -> Option<bool> {
        match &ty {
            T::Ok(x) => Some(x == s),
            Bad(_) => Some(false),
            Open => None,
        }
    };
    let mut proof = String::new();
    let mut named = false;
    t.to_string().contains(":named").then(|| named = true);
    let expect: Option<bool> = match pos {
        0 => {
            text.push_str(&format!("(assert {t})\n"));
            accept(&a("Bool"))
        }
        1 => {
            proof = format!("(step t1 (cl) :rule whatever :args ({t}))\n");
            match &ty {
                T::Ok(_) => Some(true),
                Bad(_) => Some(false),
                Open => None,
            }
        }
        2 => {
            proof = format!("(step t1 (cl p0 {t}) :rule whatever)\n");
            accept(&a("Bool"))
        }
        3 => {
            proof = format!("(assume a1 {t})\n");
            accept(&a("Bool"))
        }
        4 => {
            text.push_str(&format!("(define-fun dd () {se} {t})\n"));
            match &ret_ok {
                Some(s) => accept(s),
                None => Some(false),
            }
        }
        5 => {
            proof = format!("(anchor :step t2 :args ((:= (vv {se}) {t})))\n(step t2.1 (cl) :rule hole)\n(step t2 (cl) :rule hole)\n");
            match &ret_ok {
                Some(s) => accept(s),
                None => Some(false),
            }
        }
        6 => {
            text.push_str(&format!("(declare-const cc {decl_sort})\n"));
            Some(env.sort(&decl_sort).is_some())
        }
        _ => {
            // an application of a defined function
            let s2 = env.sort(&decl_sort);
            text.push_str(&format!("(define-fun fd ((x {se}) (y {decl_sort})) {se} x)\n(declare-const cy {decl_sort})\n(assert (= (fd {t} cy) (fd {t} cy)))\n"));
            match s2 {
                None => Some(false),
                Some(_) => accept(&want),
            }
        }
    };
    if q.env.sub && pos >= 4 && expect == Some(false) {
        // an Int where a Real is declared
        if let (T::Ok(x), Some(y)) = (&ty, &ret_ok) {
            if env.mixed(&[y.clone()], &[x.clone()]) {
                return Case::default();
            }
        }
    }
    let _ = named;
    let cfg = Config { expand_lets: q.g.chance(1, 6), apply_function_defs: q.g.chance(5, 6), allow_int_real_subtyping: env.sub, strict: env.strict, parse_hole_args: true };
    let mut c = Case { key: hash_str(&format!("{text}{proof}{cfg:?}")), sample: format!("{}{proof}", text.lines().last().unwrap_or("")).chars().take(400).collect(), ..Case::default() };
    let files = vec![("problem.smt2".to_string(), text.clone()), ("proof.alethe".to_string(), proof.clone()), ("config.txt".to_string(), format!("{cfg:?}\n"))];
    let Some(expect) = expect else {
        c.label("left open");
        return c;
    };
    c.nontrivial = true;
    let mut pool = PrimitivePool::new();
    let what = ["assertion", "argument", "literal", "assumption", "definition", "anchor", "declaration", "defined function"][pos];
    c.label(format!("{what} {}", if expect { "well-sorted" } else { "ill-sorted" }));
    let head = |t: &E| -> String {
        match t {
            L(v) => v[0].atom().map(|x| x.to_string()).or(v[0].list().and_then(|x| x.get(1)).map(|x| x.to_string())).unwrap_or_default(),
            _ => "atom".into(),
        }
    };
    match guard(|| parse_in(&mut pool, cfg, &text, &proof)) {
        Err(p) => c.viol = Some(Viol { sig: format!("panic {}", p.sig()), msg: format!("the parser panics: {p:?}"), files }),
        Ok(Ok(_)) if !expect => {
            let why = match &ty {
                Bad(m) => m.clone(),
                _ => format!("the term has sort {ty:?}"),
            };
            c.viol = Some(Viol { sig: format!("accepted {what} {}", why.split(':').next().unwrap_or("")), msg: format!("{what} accepted although ill-sorted: {why}"), files });
        }
        Ok(Err(e)) if expect => {
            let k: String = e.split(|c: char| c == '\'' || c == '`' || c.is_ascii_digit()).next().unwrap_or("").to_string();
            c.viol = Some(Viol { sig: format!("rejected {what} {k}"), msg: format!("{what} rejected although well-sorted: {e}"), files });
        }
        Ok(Ok((_, pf))) => {
            // the sort of the term
            if pos == 1 {
                let T::Ok(s) = &ty else { return c };
                if let Some(carcara::ast::ProofCommand::Step(st)) = pf.commands.first() {
                    let got = match guard(|| libt::sort_e(pool.sort(&st.args[0]).as_sort().unwrap())) {
                        Ok(x) => x,
                        Err(p) => {
                            c.viol = Some(Viol { sig: format!("sort panics {}", p.sig()), msg: format!("{p:?}"), files });
                            return c;
                        }
                    };
                    if got != *s {
                        c.viol = Some(Viol { sig: format!("sort of {}", head(&t)), msg: format!("{t} has sort {s} but is given {got}"), files });
                    }
                }
            }
        }
        Ok(Err(_)) => (),
    }
    c
}

/// Declarations and well-sorted terms over every operator.
pub fn soup(g: &mut G, want: &[Option<&str>]) -> (String, Vec<E>) {
    let mut env = Env { sorts: vec![("U".into(), 0), ("Pair".into(), 2), ("T".into(), 0)], ..Env::default() };
    env.funs.push(("p0".into(), vec![], a("Bool")));
    let mut q = Gen { g, env, scope: vec![], damage: 0 };
    let mut out: Vec<E> = vec![];
    for w in want {
        let s = match w {
            Some(s) => a(s),
            None => q.base(),
        };
        let d = q.g.u(4);
        // equations of terms of one sort are what most rules are about
        let t = if *w == Some("Bool") && q.g.chance(1, 2) {
            let s = q.base();
            let (x, y) = (q.term(&s, d), q.term(&s, d.min(1)));
            let y = if q.g.chance(1, 4) { x.clone() } else { y };
            ap2("=", x, y)
        } else {
            q.term(&s, d)
        };
        out.push(t);
    }
    let mut text = String::from("(declare-sort U 0)\n(declare-sort Pair 2)\n(declare-sort T 0)\n");
    for (n, args, r) in &q.env.funs {
        let x: Vec<String> = args.iter().map(|x| x.to_string()).collect();
        text.push_str(&format!("(declare-fun {n} ({}) {r})\n", x.join(" ")));
    }
    (text, out)
}
