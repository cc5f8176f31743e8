//! Independent reference semantics of SMT-LIB terms (over S-expressions), 3-valued.
//! `None` means "not determined" (unsupported operator, or a quantifier over an infinite sort
//! whose value cannot be settled by sampling); it never counts as a violation.
use crate::g::{hash_str, mix, splitmix};
use crate::sexp::*;
use rug::{Integer, Rational};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum S {
    Bool,
    Int,
    Real,
    Str,
    Re,
    BV(usize),
    U(Rc<str>),
    Arr(Box<S>, Box<S>),
    Fun(Vec<S>, Box<S>),
}
impl S {
    pub fn e(&self) -> E {
        match self {
            S::Bool => a("Bool"),
            S::Int => a("Int"),
            S::Real => a("Real"),
            S::Str => a("String"),
            S::Re => a("RegLan"),
            S::BV(w) => L(vec![a("_"), a("BitVec"), a(w.to_string())]),
            S::U(n) => a(n),
            S::Arr(x, y) => L(vec![a("Array"), x.e(), y.e()]),
            S::Fun(v, r) => {
                let mut o = vec![a("->")];
                o.extend(v.iter().map(|s| s.e()));
                o.push(r.e());
                L(o)
            }
        }
    }
    pub fn u(n: &str) -> S {
        S::U(Rc::from(n))
    }
    pub fn parse(e: &E) -> Option<S> {
        Some(match e {
            A(s) => match &**s {
                "Bool" => S::Bool,
                "Int" => S::Int,
                "Real" => S::Real,
                "String" => S::Str,
                "RegLan" => S::Re,
                _ => S::U(s.clone()),
            },
            L(v) => match v.first()?.atom()? {
                "_" if v.len() == 3 && v[1].is("BitVec") => S::BV(v[2].atom()?.parse().ok()?),
                "Array" if v.len() == 3 => {
                    S::Arr(Box::new(S::parse(&v[1])?), Box::new(S::parse(&v[2])?))
                }
                "->" if v.len() >= 3 => {
                    let mut x: Vec<S> = v[1..].iter().map(S::parse).collect::<Option<_>>()?;
                    let r = x.pop()?;
                    S::Fun(x, Box::new(r))
                }
                _ => return None,
            },
        })
    }
    pub fn is_num(&self) -> bool {
        matches!(self, S::Int | S::Real)
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum V {
    B(bool),
    N(Rational),
    BV(usize, u128),
    S(Vec<u32>),
    U(Rc<str>, u32),
    /// value of a function or array over finite domains: table in domain order
    F(Vec<V>),
    R(Rc<Re>),
    /// abstract array/other values
    X(u64),
}
impl V {
    pub fn b(&self) -> Option<bool> {
        match self {
            V::B(b) => Some(*b),
            _ => None,
        }
    }
    pub fn n(&self) -> Option<&Rational> {
        match self {
            V::N(n) => Some(n),
            _ => None,
        }
    }
    fn hash(&self) -> u64 {
        match self {
            V::B(b) => splitmix(*b as u64 + 1),
            V::N(q) => {
                // rationals in the models are small: hash the text only if big
                match (q.numer().to_i64(), q.denom().to_i64()) {
                    (Some(n), Some(d)) => mix(n as u64, d as u64),
                    _ => hash_str(&q.to_string()),
                }
            }
            V::BV(w, x) => mix(*w as u64 + 77, (*x as u64) ^ ((*x >> 64) as u64).rotate_left(9)),
            V::S(s) => s.iter().fold(991, |h, c| mix(h, *c as u64)),
            V::U(n, i) => mix(hash_str(n), *i as u64),
            V::F(t) => t.iter().fold(17, |h, v| mix(h, v.hash())),
            V::R(_) => 5,
            V::X(x) => splitmix(*x ^ 0xabcdef),
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Re {
    None,
    All,
    AllChar,
    Str(Vec<u32>),
    Range(u32, u32),
    Cat(Vec<Rc<Re>>),
    Alt(Vec<Rc<Re>>),
    And(Vec<Rc<Re>>),
    Star(Rc<Re>),
    Comp(Rc<Re>),
    Diff(Rc<Re>, Rc<Re>),
}
pub fn re_match(r: &Re, s: &[u32]) -> bool {
    match r {
        Re::None => false,
        Re::All => true,
        Re::AllChar => s.len() == 1,
        Re::Str(t) => s == &t[..],
        Re::Range(x, y) => s.len() == 1 && *x <= s[0] && s[0] <= *y,
        Re::Cat(v) => cat_match(v, s),
        Re::Alt(v) => v.iter().any(|r| re_match(r, s)),
        Re::And(v) => v.iter().all(|r| re_match(r, s)),
        Re::Star(x) => {
            if s.is_empty() {
                return true;
            }
            (1..=s.len()).any(|k| re_match(x, &s[..k]) && re_match(r, &s[k..]))
        }
        Re::Comp(x) => !re_match(x, s),
        Re::Diff(x, y) => re_match(x, s) && !re_match(y, s),
    }
}
fn cat_match(v: &[Rc<Re>], s: &[u32]) -> bool {
    match v.len() {
        0 => s.is_empty(),
        1 => re_match(&v[0], s),
        _ => (0..=s.len()).any(|k| re_match(&v[0], &s[..k]) && cat_match(&v[1..], &s[k..])),
    }
}

#[derive(Clone, Default, Debug)]
pub struct Sig {
    pub sorts: Vec<Rc<str>>,
    pub funs: Vec<(Rc<str>, Vec<S>, S)>,
    /// constants that only take these values
    pub hints: HashMap<Rc<str>, Vec<V>>,
    /// pseudo-Boolean reading: integer variables range over 0 and 1
    pub pb: bool,
}
impl Sig {
    pub fn sort(&mut self, n: &str) -> S {
        if !self.sorts.iter().any(|s| &**s == n) {
            self.sorts.push(Rc::from(n));
        }
        S::u(n)
    }
    pub fn fun(&mut self, n: &str, args: Vec<S>, ret: S) -> E {
        if !self.funs.iter().any(|f| &*f.0 == n) {
            self.funs.push((Rc::from(n), args, ret));
        }
        a(n)
    }
    pub fn cst(&mut self, n: &str, s: S) -> E {
        self.fun(n, vec![], s)
    }
    pub fn get(&self, n: &str) -> Option<&(Rc<str>, Vec<S>, S)> {
        self.funs.iter().find(|f| &*f.0 == n)
    }
    pub fn hint(&mut self, n: &str, v: Vec<V>) {
        self.hints.insert(Rc::from(n), v);
    }
    pub fn prelude(&self) -> String {
        let mut o = String::new();
        for s in &self.sorts {
            o.push_str(&format!("(declare-sort {s} 0)\n"));
        }
        for (n, args, r) in &self.funs {
            let ar: Vec<String> = args.iter().map(|s| s.e().to_string()).collect();
            o.push_str(&format!("(declare-fun {n} ({}) {})\n", ar.join(" "), r.e()));
        }
        o
    }
}

pub struct Model<'a> {
    pub sig: &'a Sig,
    pub seed: u64,
    pub consts: HashMap<Rc<str>, V>,
    pub sizes: HashMap<Rc<str>, u32>,
}

fn q(n: i64, d: i64) -> V {
    V::N(Rational::from((n, d)))
}
pub fn vint(n: i64) -> V {
    q(n, 1)
}
pub fn str_v(s: &str) -> V {
    V::S(s.chars().map(|c| c as u32).collect())
}

const STRS: [&str; 22] = [
    "", "a", "b", "ab", "ba", "aa", "bb", "abc", "c", "aab", "bab", "abab", "é", "éa", "0", "12",
    "cab", "aba", "x", "aaa", "d", "B",
];

impl<'a> Model<'a> {
    pub fn size_of(&self, n: &str) -> u32 {
        self.sizes.get(n).copied().unwrap_or_else(|| 1 + (mix(self.seed, hash_str(n)) % 3) as u32)
    }
    pub fn domain(&self, s: &S) -> Option<Vec<V>> {
        match s {
            S::Int if self.sig.pb => Some(vec![vint(0), vint(1)]),
            S::Bool => Some(vec![V::B(false), V::B(true)]),
            S::BV(w) if *w <= 6 => Some((0..(1u128 << w)).map(|i| V::BV(*w, i)).collect()),
            S::U(n) => {
                let k = self.size_of(n);
                Some((0..k).map(|i| V::U(n.clone(), i)).collect())
            }
            _ => None,
        }
    }
    /// domain, or a sample with `false`
    pub fn domain_or_sample(&self, s: &S) -> Option<(Vec<V>, bool)> {
        if let Some(d) = self.domain(s) {
            return Some((d, true));
        }
        Some(match s {
            S::Int => ([0, 1, -1, 2, -2, 3, 5, -7].iter().map(|n| q(*n, 1)).collect(), false),
            S::Real => (
                [(0, 1), (1, 1), (-1, 1), (1, 2), (-3, 2), (2, 1), (5, 1), (1, 3)]
                    .iter()
                    .map(|n| q(n.0, n.1))
                    .collect(),
                false,
            ),
            S::Str => (STRS.iter().take(14).map(|s| str_v(s)).collect(), false),
            S::BV(w) => {
                let m = mask(*w);
                ([0u128, 1, 2, 5, m, m >> 1, (m >> 1) + 1].iter().map(|x| V::BV(*w, x & m)).collect(), false)
            }
            _ => return None,
        })
    }
    pub fn rand_value(&self, s: &S, h: u64) -> Option<V> {
        let h = splitmix(h);
        Some(match s {
            S::Bool => V::B(h & 1 == 1),
            S::Int => {
                let r = (h >> 8) % 16;
                let t = match h % 8 {
                    0 => r as i64 * 7 - 50,
                    1 | 2 => r as i64 - 8,
                    _ => (r % 5) as i64 - 2,
                };
                q(t, 1)
            }
            S::Real => {
                let r = (h >> 8) % 16;
                match h % 8 {
                    0 => q(r as i64 * 7 - 50, 3),
                    1 | 2 => q(r as i64 - 8, 2),
                    3 => q(r as i64 - 8, 4),
                    _ => q((r % 5) as i64 - 2, 1),
                }
            }
            S::Str => str_v(STRS[((h >> 5) % STRS.len() as u64) as usize]),
            S::BV(w) => {
                let m = mask(*w);
                let x = (h as u128) | ((splitmix(h) as u128) << 64);
                let x = match h % 16 {
                    0 => 0,
                    1 => m,
                    2 => 1,
                    3 => (m >> 1) + 1,
                    _ => x >> 3,
                };
                V::BV(*w, x & m)
            }
            S::U(n) => V::U(n.clone(), ((h >> 7) % self.size_of(n) as u64) as u32),
            S::Arr(..) => V::X((h >> 7) % 4),
            S::Fun(args, ret) => {
                let doms: Vec<Vec<V>> = args.iter().map(|s| self.domain(s)).collect::<Option<_>>()?;
                let n: usize = doms.iter().map(|d| d.len()).product();
                if n > 64 {
                    return None;
                }
                V::F((0..n).map(|i| self.rand_value(ret, mix(h, i as u64))).collect::<Option<_>>()?)
            }
            S::Re => V::R(Rc::new(rand_re(h, 2))),
        })
    }
    pub fn random(sig: &'a Sig, seed: u64) -> Model<'a> {
        let mut m = Model { sig, seed: splitmix(seed), consts: HashMap::new(), sizes: HashMap::new() };
        for (n, args, r) in &sig.funs {
            if args.is_empty() {
                let h = mix(m.seed, hash_str(n));
                let v = if let Some(p) = sig.hints.get(n) {
                    Some(p[(h % p.len() as u64) as usize].clone())
                } else {
                    m.rand_value(r, h)
                };
                if let Some(v) = v {
                    m.consts.insert(n.clone(), v);
                }
            }
        }
        m
    }
    pub fn apply(&self, name: &str, args: &[V]) -> Option<V> {
        let (n, doms, ret) = self.sig.get(name)?;
        if doms.len() != args.len() {
            return None;
        }
        let h = args.iter().fold(mix(self.seed, hash_str(n)), |h, v| mix(h, v.hash()));
        self.rand_value(ret, h)
    }
}

fn rand_re(h: u64, depth: u32) -> Re {
    let h = splitmix(h);
    let k = if depth == 0 { h % 5 } else { h % 9 };
    match k {
        0 => Re::AllChar,
        1 => Re::Str(vec!['a' as u32]),
        2 => Re::Str(vec![]),
        3 => Re::Str(vec!['a' as u32, 'b' as u32]),
        4 => Re::Range('a' as u32, 'b' as u32),
        5 => Re::Cat(vec![Rc::new(rand_re(h + 1, depth - 1)), Rc::new(rand_re(h + 2, depth - 1))]),
        6 => Re::Alt(vec![Rc::new(rand_re(h + 1, depth - 1)), Rc::new(rand_re(h + 2, depth - 1))]),
        7 => Re::Star(Rc::new(rand_re(h + 1, depth - 1))),
        _ => Re::Comp(Rc::new(rand_re(h + 1, depth - 1))),
    }
}

/// The models to check a step against: exhaustive over the constants when that is small, random
/// otherwise.
pub fn models<'a>(sig: &'a Sig, n: usize, seed: u64) -> Vec<Model<'a>> {
    let only_consts = sig.funs.iter().all(|f| f.1.is_empty());
    if only_consts {
        let base = Model { sig, seed, consts: HashMap::new(), sizes: sig.sorts.iter().map(|s| (s.clone(), 3)).collect() };
        let mut doms: Vec<(Rc<str>, Vec<V>)> = Vec::new();
        let mut total = 1usize;
        let mut ok = true;
        for (name, _, r) in &sig.funs {
            let d = sig.hints.get(name).cloned().or_else(|| base.domain(r));
            match d {
                Some(d) if total * d.len() <= n.max(256) => {
                    total *= d.len();
                    doms.push((name.clone(), d));
                }
                _ => {
                    ok = false;
                    break;
                }
            }
        }
        if ok {
            let mut out = Vec::with_capacity(total);
            for mut i in 0..total {
                let mut consts = HashMap::new();
                for (name, d) in &doms {
                    consts.insert(name.clone(), d[i % d.len()].clone());
                    i /= d.len();
                }
                out.push(Model { sig, seed: splitmix(seed), consts, sizes: base.sizes.clone() });
            }
            return out;
        }
    }
    (0..n as u64).map(|i| Model::random(sig, mix(seed, i))).collect()
}

pub fn mask(w: usize) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
fn signed(w: usize, x: u128) -> i128 {
    if w == 0 {
        0
    } else if w < 128 && x >> (w - 1) & 1 == 1 {
        x as i128 - (1i128 << w)
    } else {
        x as i128
    }
}

pub type Env = Vec<(Rc<str>, V)>;

pub fn parse_num(s: &str) -> Option<Rational> {
    let (neg, t) = match s.strip_prefix('-') {
        Some(t) => (true, t),
        None => (false, s),
    };
    if t.is_empty() || !t.as_bytes()[0].is_ascii_digit() {
        return None;
    }
    let r = if let Some((n, d)) = t.split_once('/') {
        let num = parse_num(n)?;
        let den = parse_num(d)?;
        if den == 0 {
            return None;
        }
        num / den
    } else if let Some((i, f)) = t.split_once('.') {
        if !i.bytes().all(|b| b.is_ascii_digit()) || !f.bytes().all(|b| b.is_ascii_digit()) || f.is_empty() {
            return None;
        }
        let all: Integer = format!("{i}{f}").parse().ok()?;
        let den = Integer::from(Integer::u_pow_u(10, f.len() as u32));
        Rational::from((all, den))
    } else {
        if !t.bytes().all(|b| b.is_ascii_digit()) {
            return None;
        }
        Rational::from(t.parse::<Integer>().ok()?)
    };
    Some(if neg { -r } else { r })
}

/// value of an SMT-LIB string literal (with quotes)
pub fn parse_str_lit(s: &str) -> Option<Vec<u32>> {
    let t = s.strip_prefix('"')?.strip_suffix('"')?;
    let cs: Vec<char> = t.chars().collect();
    let mut out = Vec::new();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == '"' {
            out.push('"' as u32);
            i += 2;
            continue;
        }
        if cs[i] == '\\' && i + 1 < cs.len() && cs[i + 1] == 'u' {
            if i + 2 < cs.len() && cs[i + 2] == '{' {
                let mut j = i + 3;
                while j < cs.len() && cs[j].is_ascii_hexdigit() && j - i - 3 < 6 {
                    j += 1;
                }
                if j < cs.len() && cs[j] == '}' && j > i + 3 && j - i - 3 <= 5 {
                    let h: String = cs[i + 3..j].iter().collect();
                    let v = u32::from_str_radix(&h, 16).ok()?;
                    if v <= 0x2FFFF {
                        out.push(v);
                        i = j + 1;
                        continue;
                    }
                }
            } else if i + 5 < cs.len() && cs[i + 2..i + 6].iter().all(|c| c.is_ascii_hexdigit()) {
                let h: String = cs[i + 2..i + 6].iter().collect();
                out.push(u32::from_str_radix(&h, 16).ok()?);
                i += 6;
                continue;
            }
        }
        out.push(cs[i] as u32);
        i += 1;
    }
    Some(out)
}

pub fn unquote_sym(s: &str) -> &str {
    s.strip_prefix('|').and_then(|s| s.strip_suffix('|')).unwrap_or(s)
}

fn atom_literal(s: &str) -> Option<V> {
    let b = s.as_bytes();
    match b.first()? {
        b'#' if b.len() > 2 && b[1] == b'b' => {
            let w = b.len() - 2;
            if w > 127 { return None; }
            Some(V::BV(w, u128::from_str_radix(&s[2..], 2).ok()?))
        }
        b'#' if b.len() > 2 && b[1] == b'x' => {
            let w = (b.len() - 2) * 4;
            if w > 127 { return None; }
            Some(V::BV(w, u128::from_str_radix(&s[2..], 16).ok()?))
        }
        b'"' => Some(V::S(parse_str_lit(s)?)),
        b'0'..=b'9' | b'-' => parse_num(s).map(V::N),
        _ => None,
    }
}

pub struct Ev<'m, 'a> {
    pub m: &'m Model<'a>,
    pub fuel: u64,
    /// names defined by `(! t :named n)` or define-fun: name -> (params, body)
    pub defs: HashMap<Rc<str>, (Vec<Rc<str>>, E)>,
    /// `mod` keeps the sign of the dividend (only used to recognise a known finding)
    pub trunc_mod: bool,
}

fn floor_div(x: &Rational, y: &Rational) -> Rational {
    // SMT-LIB div: for y>0 floor(x/y), for y<0 ceil(x/y) = -floor(x/-y)
    let qn = Rational::from(x / y);
    if *y > 0 { qn.floor() } else { qn.ceil() }
}

impl<'m, 'a> Ev<'m, 'a> {
    pub fn new(m: &'m Model<'a>) -> Self {
        Ev { m, fuel: 200_000, defs: HashMap::new(), trunc_mod: false }
    }
    pub fn bool(&mut self, e: &E) -> Option<bool> {
        self.ev(e, &mut Vec::new())?.b()
    }
    pub fn val(&mut self, e: &E) -> Option<V> {
        self.ev(e, &mut Vec::new())
    }
    /// value of a clause: Some(true) if a literal is true, Some(false) if all are false
    pub fn clause(&mut self, c: &[E]) -> Option<bool> {
        let mut unk = false;
        for x in c {
            match self.bool(x) {
                Some(true) => return Some(true),
                Some(false) => {}
                None => unk = true,
            }
        }
        if unk { None } else { Some(false) }
    }

    fn uf(&self, name: &str, args: &[V], ret: &S) -> Option<V> {
        let h = args.iter().fold(mix(self.m.seed, hash_str(name)), |h, v| mix(h, v.hash()));
        self.m.rand_value(ret, h)
    }

    pub fn ev(&mut self, e: &E, env: &mut Env) -> Option<V> {
        if self.fuel == 0 {
            return None;
        }
        self.fuel -= 1;
        match e {
            A(s) => {
                match &**s {
                    "true" => return Some(V::B(true)),
                    "false" => return Some(V::B(false)),
                    "re.none" => return Some(V::R(Rc::new(Re::None))),
                    "re.all" => return Some(V::R(Rc::new(Re::All))),
                    "re.allchar" => return Some(V::R(Rc::new(Re::AllChar))),
                    _ => {}
                }
                for (n, v) in env.iter().rev() {
                    if **n == **s || unquote_sym(n) == unquote_sym(s) {
                        return Some(v.clone());
                    }
                }
                if let Some(v) = self.m.consts.get(s) {
                    return Some(v.clone());
                }
                if let Some((p, body)) = self.defs.get(s).cloned() {
                    if p.is_empty() {
                        return self.ev(&body, &mut Vec::new());
                    }
                    return None;
                }
                if let Some(v) = atom_literal(s) {
                    return Some(v);
                }
                if let Some(v) = self.m.consts.get(unquote_sym(s)) {
                    return Some(v.clone());
                }
                if let Some((_, args, _)) = self.m.sig.get(s) {
                    // function symbol used as a value
                    let doms: Vec<Vec<V>> =
                        args.iter().map(|s| self.m.domain(s)).collect::<Option<_>>()?;
                    let mut tab = Vec::new();
                    let args2 = product(&doms)?;
                    for t in args2 {
                        tab.push(self.m.apply(s, &t)?);
                    }
                    return Some(V::F(tab));
                }
                None
            }
            L(v) => {
                if v.is_empty() {
                    return None;
                }
                match &v[0] {
                    A(h) => self.ev_app(h, &v[1..], env),
                    L(hv) => {
                        if hv.first().map_or(false, |x| x.is("_")) {
                            let mut idx = Vec::new();
                            for i in &hv[2..] {
                                idx.push(i.clone());
                            }
                            return self.ev_indexed(hv[1].atom()?, &idx, &v[1..], env);
                        }
                        // higher-order head
                        let f = self.ev(&v[0], env)?;
                        self.ev_ho(f, &hv_sorts(hv)?, &v[1..], env)
                    }
                }
            }
        }
    }

    fn ev_ho(&mut self, f: V, sorts: &[S], args: &[E], env: &mut Env) -> Option<V> {
        let V::F(tab) = f else { return None };
        let mut idx = 0;
        let mut mul = 1;
        if sorts.len() != args.len() {
            return None;
        }
        for (s, x) in sorts.iter().zip(args) {
            let d = self.m.domain(s)?;
            let v = self.ev(x, env)?;
            let i = d.iter().position(|y| *y == v)?;
            idx += i * mul;
            mul *= d.len();
        }
        tab.get(idx).cloned()
    }

    fn vals(&mut self, args: &[E], env: &mut Env) -> Option<Vec<V>> {
        args.iter().map(|x| self.ev(x, env)).collect()
    }
    fn nums(&mut self, args: &[E], env: &mut Env) -> Option<Vec<Rational>> {
        args.iter().map(|x| self.ev(x, env).and_then(|v| v.n().cloned())).collect()
    }
    fn bvs(&mut self, args: &[E], env: &mut Env) -> Option<(usize, Vec<u128>)> {
        let mut w = 0;
        let mut out = Vec::new();
        for (i, x) in args.iter().enumerate() {
            match self.ev(x, env)? {
                V::BV(w2, x) => {
                    if i > 0 && w2 != w {
                        return None;
                    }
                    w = w2;
                    out.push(x)
                }
                _ => return None,
            }
        }
        if out.is_empty() { None } else { Some((w, out)) }
    }
    fn strv(&mut self, x: &E, env: &mut Env) -> Option<Vec<u32>> {
        match self.ev(x, env)? {
            V::S(s) => Some(s),
            _ => None,
        }
    }
    fn num(&mut self, x: &E, env: &mut Env) -> Option<Rational> {
        self.ev(x, env)?.n().cloned()
    }
    fn re(&mut self, x: &E, env: &mut Env) -> Option<Rc<Re>> {
        match self.ev(x, env)? {
            V::R(r) => Some(r),
            _ => None,
        }
    }

    fn quant(&mut self, vars: &[(Rc<str>, S)], body: &E, env: &mut Env, forall: bool) -> Option<bool> {
        if vars.is_empty() {
            return self.ev(body, env)?.b();
        }
        let (dom, complete) = match self.m.domain_or_sample(&vars[0].1) {
            Some(x) => x,
            None => return None,
        };
        let mut unk = !complete;
        for v in dom {
            env.push((vars[0].0.clone(), v));
            let r = self.quant(&vars[1..], body, env, forall);
            env.pop();
            match r {
                Some(b) if b != forall => return Some(!forall),
                Some(_) => {}
                None => unk = true,
            }
        }
        // a body in which the variable does not occur does not need a complete domain
        if unk && !complete && !body.contains_atom(&vars[0].0) {
            let v = self.m.rand_value(&vars[0].1, 3)?;
            env.push((vars[0].0.clone(), v));
            let r = self.quant(&vars[1..], body, env, forall);
            env.pop();
            return r;
        }
        if unk { None } else { Some(forall) }
    }

    fn ev_app(&mut self, h: &str, args: &[E], env: &mut Env) -> Option<V> {
        use V::*;
        let n = args.len();
        // bound/defined higher-order variables
        if let Some((_, v)) = env.iter().rev().find(|(n, _)| **n == *h) {
            let v = v.clone();
            if let F(_) = v {
                // sorts of arguments are not known here: infer from values when unary/multi over same domain
                return self.ev_ho_untyped(v, args, env);
            }
            return None;
        }
        match h {
            "not" if n == 1 => Some(B(!self.ev(&args[0], env)?.b()?)),
            "and" => {
                let mut unk = false;
                for x in args {
                    match self.ev(x, env).and_then(|v| v.b()) {
                        Some(false) => return Some(B(false)),
                        Some(true) => {}
                        None => unk = true,
                    }
                }
                if unk { Option::None } else { Some(B(true)) }
            }
            "or" | "cl" => {
                let mut unk = false;
                for x in args {
                    match self.ev(x, env).and_then(|v| v.b()) {
                        Some(true) => return Some(B(true)),
                        Some(false) => {}
                        None => unk = true,
                    }
                }
                if unk { Option::None } else { Some(B(false)) }
            }
            "=>" if n >= 2 => {
                let mut unk = false;
                for (i, x) in args.iter().enumerate() {
                    let last = i + 1 == n;
                    match self.ev(x, env).and_then(|v| v.b()) {
                        Some(b) if b == last => return Some(B(true)),
                        Some(_) => {}
                        None => unk = true,
                    }
                }
                if unk { Option::None } else { Some(B(false)) }
            }
            "xor" if n >= 2 => {
                let mut r = false;
                for x in args {
                    r ^= self.ev(x, env)?.b()?;
                }
                Some(B(r))
            }
            "=" if n >= 2 => {
                let vs: Vec<Option<V>> = args.iter().map(|x| self.ev(x, env)).collect();
                let mut unk = false;
                for i in 1..n {
                    match (&vs[i - 1], &vs[i]) {
                        (Some(x), Some(y)) => match val_eq(x, y) {
                            Some(false) => return Some(B(false)),
                            Some(true) => {}
                            Option::None => unk = true,
                        },
                        _ => {
                            if args[i - 1] != args[i] {
                                unk = true
                            }
                        }
                    }
                }
                if unk { Option::None } else { Some(B(true)) }
            }
            "distinct" if n >= 1 => {
                let vs = self.vals(args, env)?;
                for i in 0..n {
                    for j in 0..i {
                        if val_eq(&vs[i], &vs[j])? {
                            return Some(B(false));
                        }
                    }
                }
                Some(B(true))
            }
            "ite" if n == 3 => match self.ev(&args[0], env).and_then(|v| v.b()) {
                Some(true) => self.ev(&args[1], env),
                Some(false) => self.ev(&args[2], env),
                None => {
                    let x = self.ev(&args[1], env)?;
                    let y = self.ev(&args[2], env)?;
                    if x == y { Some(x) } else { Option::None }
                }
            },
            "forall" | "exists" if n == 2 => {
                let vars = bindings(&args[0])?;
                Some(B(self.quant(&vars, &args[1], env, h == "forall")?))
            }
            "choice" if n == 2 => {
                let vars = bindings(&args[0])?;
                if vars.len() != 1 {
                    return Option::None;
                }
                let dom = self.m.domain(&vars[0].1)?;
                let mut first = Option::None;
                for v in dom {
                    if first.is_none() {
                        first = Some(v.clone());
                    }
                    env.push((vars[0].0.clone(), v.clone()));
                    let r = self.ev(&args[1], env).and_then(|v| v.b());
                    env.pop();
                    if r? {
                        return Some(v);
                    }
                }
                first
            }
            "lambda" if n == 2 => {
                let vars = bindings(&args[0])?;
                let doms: Vec<Vec<V>> =
                    vars.iter().map(|(_, s)| self.m.domain(s)).collect::<Option<_>>()?;
                let mut tab = Vec::new();
                for t in product(&doms)? {
                    let k = t.len();
                    for (i, v) in t.into_iter().enumerate() {
                        env.push((vars[i].0.clone(), v));
                    }
                    let r = self.ev(&args[1], env);
                    env.truncate(env.len() - k);
                    tab.push(r?);
                }
                Some(F(tab))
            }
            "let" if n == 2 => {
                let mut new = Vec::new();
                for b in args[0].list()? {
                    let b = b.list()?;
                    let v = self.ev(&b[1], env);
                    new.push((Rc::from(b[0].atom()?), v));
                }
                let k = new.len();
                let mut bad = false;
                for (n, v) in &new {
                    match v {
                        Some(v) => env.push((Rc::clone(n), v.clone())),
                        None => {
                            bad = true;
                            break;
                        }
                    }
                }
                if bad {
                    let have = new.iter().take_while(|x| x.1.is_some()).count();
                    env.truncate(env.len() - have);
                    return Option::None;
                }
                let r = self.ev(&args[1], env);
                env.truncate(env.len() - k);
                r
            }
            "!" if n >= 1 => {
                let mut i = 1;
                while i + 1 < n {
                    if args[i].is(":named") {
                        self.defs.insert(Rc::from(args[i + 1].atom()?), (vec![], args[0].clone()));
                    }
                    i += 2;
                }
                self.ev(&args[0], env)
            }
            "_" => {
                // (_ bvN w) and nullary indexed
                let name = args.first()?.atom()?;
                if let Some(d) = name.strip_prefix("bv") {
                    if n == 2 && !d.is_empty() && d.bytes().all(|b| b.is_ascii_digit()) {
                        let w: usize = args[1].atom()?.parse().ok()?;
                        if w > 127 {
                            return Option::None;
                        }
                        let x: Integer = d.parse().ok()?;
                        let x = Integer::from(x.keep_bits_ref(w as u32)).to_u128()?;
                        return Some(BV(w, x));
                    }
                }
                if name == "char" && n == 2 {
                    let h = args[1].atom()?.strip_prefix("#x")?;
                    return Some(S(vec![u32::from_str_radix(h, 16).ok()?]));
                }
                Option::None
            }
            // arithmetic
            "+" if n >= 1 => {
                let v = self.nums(args, env)?;
                Some(N(v.into_iter().fold(Rational::new(), |a, b| a + b)))
            }
            "*" if n >= 1 => {
                let mut acc = Rational::from(1);
                for x in args {
                    acc *= self.num(x, env)?;
                }
                Some(N(acc))
            }
            "-" if n == 1 => Some(N(-self.num(&args[0], env)?)),
            "-" if n >= 2 => {
                let v = self.nums(args, env)?;
                let mut it = v.into_iter();
                let f = it.next()?;
                Some(N(it.fold(f, |a, b| a - b)))
            }
            "/" if n >= 2 => {
                let v = self.nums(args, env)?;
                let mut acc = v[0].clone();
                for d in &v[1..] {
                    if *d == 0 && acc == 0 {
                        // fixed interpretation: the documented `div_simplify` case t/t = 1
                        acc = Rational::from(1);
                    } else if *d == 0 {
                        acc = match self.uf("/0", &[N(acc)], &self::S::Real)? {
                            N(x) => x,
                            _ => return Option::None,
                        };
                    } else {
                        acc /= d;
                    }
                }
                Some(N(acc))
            }
            "div" | "mod" if n >= 2 => {
                let v = self.nums(args, env)?;
                if h == "mod" && n != 2 {
                    return Option::None;
                }
                let mut acc = v[0].clone();
                for d in &v[1..] {
                    if *d == 0 && acc == 0 && h == "div" {
                        acc = Rational::from(1);
                    } else if *d == 0 {
                        acc = match self.uf(if h == "div" { "div0" } else { "mod0" }, &[N(acc)], &self::S::Int)? {
                            N(x) => x,
                            _ => return Option::None,
                        };
                    } else {
                        let qt = floor_div(&acc, d);
                        acc = if h == "div" {
                            qt
                        } else if self.trunc_mod {
                            let tq = Rational::from(&acc / d).trunc();
                            acc - tq * d
                        } else {
                            acc - qt * d
                        };
                    }
                }
                Some(N(acc))
            }
            "abs" if n == 1 => Some(N(self.num(&args[0], env)?.abs())),
            "<" | ">" | "<=" | ">=" if n >= 2 => {
                let v = self.nums(args, env)?;
                let ok = v.windows(2).all(|p| match h {
                    "<" => p[0] < p[1],
                    ">" => p[0] > p[1],
                    "<=" => p[0] <= p[1],
                    _ => p[0] >= p[1],
                });
                Some(B(ok))
            }
            "to_real" if n == 1 => Some(N(self.num(&args[0], env)?)),
            "to_int" if n == 1 => Some(N(self.num(&args[0], env)?.floor())),
            "is_int" if n == 1 => Some(B(self.num(&args[0], env)?.is_integer())),
            "int.pow2" if n == 1 => {
                let k = self.num(&args[0], env)?;
                if k < 0 {
                    return Some(vint(0));
                }
                let k = k.numer().to_u32()?;
                if k > 4096 {
                    return Option::None;
                }
                Some(N(Rational::from(Integer::from(Integer::u_pow_u(2, k)))))
            }
            "int.ispow2" if n == 1 => {
                let k = self.num(&args[0], env)?;
                Some(B(k > 0 && k.numer().is_power_of_two()))
            }
            "int.log2" if n == 1 => {
                let k = self.num(&args[0], env)?;
                if k <= 0 {
                    return Some(vint(0));
                }
                Some(vint(k.numer().significant_bits() as i64 - 1))
            }
            // arrays: uninterpreted
            "select" | "store" => Option::None,
            _ if h.starts_with("str.") || h.starts_with("re.") => self.ev_str(h, args, env),
            _ if h.starts_with("bv") || matches!(h, "concat" | "ubv_to_int" | "sbv_to_int" | "bv2nat" | "@bbterm" | "@pbbterm" | "@bvsize" | "@bv") => {
                if self.m.sig.get(h).is_some() {
                    return self.user(h, args, env);
                }
                self.ev_bv(h, args, env)
            }
            _ => self.user(h, args, env),
        }
    }
    fn ev_ho_untyped(&mut self, f: V, args: &[E], env: &mut Env) -> Option<V> {
        let V::F(tab) = f else { return None };
        let mut idx = 0;
        let mut mul = 1;
        for x in args {
            let (i, k) = match self.ev(x, env)? {
                V::B(b) => (b as usize, 2),
                V::U(n, i) => (i as usize, self.m.size_of(&n) as usize),
                V::BV(w, x) if w <= 6 => (x as usize, 1 << w),
                _ => return None,
            };
            idx += i * mul;
            mul *= k;
        }
        tab.get(idx).cloned().filter(|_| mul == tab.len())
    }
    fn user(&mut self, h: &str, args: &[E], env: &mut Env) -> Option<V> {
        if let Some(v) = self.m.consts.get(h).cloned() {
            if let V::F(_) = v {
                return self.ev_ho_untyped(v, args, env);
            }
            return None;
        }
        if let Some((params, body)) = self.defs.get(h).cloned() {
            if params.len() != args.len() || params.is_empty() {
                return None;
            }
            let vs = self.vals(args, env)?;
            let mut e2: Env = params.into_iter().zip(vs).collect();
            return self.ev(&body, &mut e2);
        }
        let name = if self.m.sig.get(h).is_some() { h } else { unquote_sym(h) };
        self.m.sig.get(name)?;
        let vs = self.vals(args, env)?;
        self.m.apply(name, &vs)
    }

    fn ev_indexed(&mut self, op: &str, idx: &[E], args: &[E], env: &mut Env) -> Option<V> {
        let mut ii: Vec<i64> = Vec::new();
        for i in idx {
            let v = self.ev(i, env)?;
            ii.push(v.n()?.numer().to_i64()?);
        }
        let n = args.len();
        if ii.iter().any(|i| *i < 0) && op != "bv" {
            return None;
        }
        match op {
            "extract" if ii.len() == 2 && n == 1 => {
                let (w, x) = self.bvs(args, env)?;
                let (i, j) = (ii[0] as usize, ii[1] as usize);
                if i >= w || j > i {
                    return None;
                }
                Some(V::BV(i - j + 1, (x[0] >> j) & mask(i - j + 1)))
            }
            "@bit_of" if ii.len() == 1 && n == 1 => {
                let (w, x) = self.bvs(args, env)?;
                let i = ii[0] as usize;
                if i >= w {
                    return None;
                }
                Some(V::B(x[0] >> i & 1 == 1))
            }
            "@int_of" if ii.len() == 1 && n == 1 => {
                let (w, x) = self.bvs(args, env)?;
                let i = ii[0] as usize;
                if i >= w {
                    return None;
                }
                Some(vint((x[0] >> i & 1) as i64))
            }
            "zero_extend" if ii.len() == 1 && n == 1 => {
                let (w, x) = self.bvs(args, env)?;
                let k = ii[0] as usize;
                if w + k > 127 {
                    return None;
                }
                Some(V::BV(w + k, x[0]))
            }
            "sign_extend" if ii.len() == 1 && n == 1 => {
                let (w, x) = self.bvs(args, env)?;
                let k = ii[0] as usize;
                if w + k > 127 {
                    return None;
                }
                Some(V::BV(w + k, (signed(w, x[0]) as u128) & mask(w + k)))
            }
            "rotate_left" | "rotate_right" if ii.len() == 1 && n == 1 => {
                let (w, x) = self.bvs(args, env)?;
                let k = ii[0] as usize % w;
                let k = if op == "rotate_left" { k } else { (w - k) % w };
                if k == 0 {
                    return Some(V::BV(w, x[0]));
                }
                Some(V::BV(w, ((x[0] << k) | (x[0] >> (w - k))) & mask(w)))
            }
            "repeat" if ii.len() == 1 && n == 1 => {
                let (w, x) = self.bvs(args, env)?;
                let k = ii[0] as usize;
                if k == 0 || w * k > 127 {
                    return None;
                }
                let mut r = 0;
                for _ in 0..k {
                    r = (r << w) | x[0];
                }
                Some(V::BV(w * k, r))
            }
            "int_to_bv" | "int2bv" if ii.len() == 1 && n == 1 => {
                let k = self.num(&args[0], env)?;
                let w = ii[0] as usize;
                if w > 127 || w == 0 {
                    return None;
                }
                let x = Integer::from(k.numer().keep_bits_ref(w as u32)).to_u128()?;
                Some(V::BV(w, x))
            }
            "re.^" if ii.len() == 1 && n == 1 => {
                let r = self.re(&args[0], env)?;
                if ii[0] > 20 {
                    return None;
                }
                Some(V::R(Rc::new(Re::Cat(vec![r; ii[0] as usize]))))
            }
            "re.loop" if ii.len() == 2 && n == 1 => {
                let r = self.re(&args[0], env)?;
                if ii[1] > 20 {
                    return None;
                }
                if ii[0] > ii[1] {
                    return Some(V::R(Rc::new(Re::None)));
                }
                Some(V::R(Rc::new(Re::Alt(
                    (ii[0]..=ii[1]).map(|k| Rc::new(Re::Cat(vec![r.clone(); k as usize]))).collect(),
                ))))
            }
            _ => None,
        }
    }

    fn ev_bv(&mut self, h: &str, args: &[E], env: &mut Env) -> Option<V> {
        let n = args.len();
        match h {
            "@bbterm" => {
                let mut x = 0u128;
                if n > 127 || n == 0 {
                    return None;
                }
                for (i, t) in args.iter().enumerate() {
                    if self.ev(t, env)?.b()? {
                        x |= 1 << i;
                    }
                }
                return Some(V::BV(n, x));
            }
            "@pbbterm" => {
                let mut x = 0u128;
                if n > 127 || n == 0 {
                    return None;
                }
                for (i, t) in args.iter().enumerate() {
                    let v = self.num(t, env)?;
                    if v == 1 {
                        x |= 1 << i;
                    } else if v != 0 {
                        return None;
                    }
                }
                return Some(V::BV(n, x));
            }
            "@bvsize" if n == 1 => {
                let (w, _) = self.bvs(args, env)?;
                return Some(vint(w as i64));
            }
            "@bv" if n == 2 => {
                let k = self.num(&args[0], env)?;
                let w = self.num(&args[1], env)?.numer().to_usize()?;
                if w == 0 || w > 127 {
                    return None;
                }
                return Some(V::BV(w, Integer::from(k.numer().keep_bits_ref(w as u32)).to_u128()?));
            }
            "concat" => {
                let mut w = 0;
                let mut x = 0u128;
                for t in args {
                    match self.ev(t, env)? {
                        V::BV(w2, y) => {
                            w += w2;
                            if w > 127 {
                                return None;
                            }
                            x = (x << w2) | y;
                        }
                        _ => return None,
                    }
                }
                return if w == 0 { None } else { Some(V::BV(w, x)) };
            }
            _ => {}
        }
        let (w, x) = self.bvs(args, env)?;
        if w > 127 {
            return None;
        }
        let m = mask(w);
        let bv = |x: u128| Some(V::BV(w, x & m));
        let s = |i: usize| signed(w, x[i]);
        let udiv = |a: u128, b: u128| if b == 0 { m } else { a / b };
        let urem = |a: u128, b: u128| if b == 0 { a } else { a % b };
        match (h, n) {
            ("bvnot", 1) => bv(!x[0]),
            ("bvneg", 1) => bv(x[0].wrapping_neg()),
            ("ubv_to_int", 1) | ("bv2nat", 1) => Some(V::N(Rational::from(x[0]))),
            ("sbv_to_int", 1) => Some(V::N(Rational::from(s(0)))),
            ("bvand", _) => bv(x.iter().fold(m, |a, b| a & b)),
            ("bvor", _) => bv(x.iter().fold(0, |a, b| a | b)),
            ("bvxor", _) => bv(x.iter().fold(0, |a, b| a ^ b)),
            ("bvadd", _) => bv(x.iter().fold(0u128, |a, b| a.wrapping_add(*b))),
            ("bvmul", _) => bv(x.iter().fold(1u128, |a, b| a.wrapping_mul(*b))),
            ("bvnand", 2) => bv(!(x[0] & x[1])),
            ("bvnor", 2) => bv(!(x[0] | x[1])),
            ("bvxnor", 2) => bv(!(x[0] ^ x[1])),
            ("bvcomp", 2) => Some(V::BV(1, (x[0] == x[1]) as u128)),
            ("bvsub", k) if k >= 2 => bv(x[1..].iter().fold(x[0], |a, b| a.wrapping_sub(*b))),
            ("bvudiv", 2) => bv(udiv(x[0], x[1])),
            ("bvurem", 2) => bv(urem(x[0], x[1])),
            ("bvsdiv", 2) => {
                let (sa, sb) = (s(0) < 0, s(1) < 0);
                let ab = |v: u128, n: bool| if n { v.wrapping_neg() & m } else { v };
                let q = udiv(ab(x[0], sa), ab(x[1], sb));
                bv(if sa != sb { q.wrapping_neg() } else { q })
            }
            ("bvsrem", 2) => {
                let (sa, sb) = (s(0) < 0, s(1) < 0);
                let ab = |v: u128, n: bool| if n { v.wrapping_neg() & m } else { v };
                let r = urem(ab(x[0], sa), ab(x[1], sb));
                bv(if sa { r.wrapping_neg() } else { r })
            }
            ("bvsmod", 2) => {
                let (sa, sb) = (s(0) < 0, s(1) < 0);
                let ab = |v: u128, n: bool| if n { v.wrapping_neg() & m } else { v };
                let u = urem(ab(x[0], sa), ab(x[1], sb)) & m;
                let r = if u == 0 {
                    u
                } else if !sa && !sb {
                    u
                } else if sa && !sb {
                    u.wrapping_neg().wrapping_add(x[1])
                } else if !sa && sb {
                    u.wrapping_add(x[1])
                } else {
                    u.wrapping_neg()
                };
                bv(r)
            }
            ("bvshl", 2) => bv(if x[1] >= w as u128 { 0 } else { x[0] << x[1] }),
            ("bvlshr", 2) => bv(if x[1] >= w as u128 { 0 } else { x[0] >> x[1] }),
            ("bvashr", 2) => {
                let k = x[1].min(w as u128 - 1).min(126) as u32;
                bv((s(0) >> k) as u128)
            }
            ("bvult", 2) => Some(V::B(x[0] < x[1])),
            ("bvule", 2) => Some(V::B(x[0] <= x[1])),
            ("bvugt", 2) => Some(V::B(x[0] > x[1])),
            ("bvuge", 2) => Some(V::B(x[0] >= x[1])),
            ("bvslt", 2) => Some(V::B(s(0) < s(1))),
            ("bvsle", 2) => Some(V::B(s(0) <= s(1))),
            ("bvsgt", 2) => Some(V::B(s(0) > s(1))),
            ("bvsge", 2) => Some(V::B(s(0) >= s(1))),
            _ => None,
        }
    }

    fn ev_str(&mut self, h: &str, args: &[E], env: &mut Env) -> Option<V> {
        let n = args.len();
        let code = |c: char| c as u32;
        match (h, n) {
            ("str.++", _) => {
                let mut o = Vec::new();
                for x in args {
                    o.extend(self.strv(x, env)?);
                }
                Some(V::S(o))
            }
            ("str.len", 1) => Some(vint(self.strv(&args[0], env)?.len() as i64)),
            ("str.<", _) | ("str.<=", _) if n >= 2 => {
                let v: Vec<Vec<u32>> =
                    args.iter().map(|x| self.strv(x, env)).collect::<Option<_>>()?;
                Some(V::B(v.windows(2).all(|p| if h == "str.<" { p[0] < p[1] } else { p[0] <= p[1] })))
            }
            ("str.at", 2) => {
                let s = self.strv(&args[0], env)?;
                let i = self.num(&args[1], env)?;
                Some(V::S(substr(&s, &i, &Rational::from(1))))
            }
            ("str.substr", 3) => {
                let s = self.strv(&args[0], env)?;
                let i = self.num(&args[1], env)?;
                let k = self.num(&args[2], env)?;
                Some(V::S(substr(&s, &i, &k)))
            }
            ("str.prefixof", 2) => {
                let s = self.strv(&args[0], env)?;
                let t = self.strv(&args[1], env)?;
                Some(V::B(t.starts_with(&s)))
            }
            ("str.suffixof", 2) => {
                let s = self.strv(&args[0], env)?;
                let t = self.strv(&args[1], env)?;
                Some(V::B(t.ends_with(&s)))
            }
            ("str.contains", 2) => {
                let s = self.strv(&args[0], env)?;
                let t = self.strv(&args[1], env)?;
                Some(V::B(find(&s, &t, 0).is_some()))
            }
            ("str.indexof", 3) => {
                let s = self.strv(&args[0], env)?;
                let t = self.strv(&args[1], env)?;
                let i = self.num(&args[2], env)?;
                if i < 0 || i > s.len() {
                    return Some(vint(-1));
                }
                let i = i.numer().to_usize()?;
                Some(vint(find(&s, &t, i).map_or(-1, |p| p as i64)))
            }
            ("str.replace", 3) => {
                let s = self.strv(&args[0], env)?;
                let t = self.strv(&args[1], env)?;
                let u = self.strv(&args[2], env)?;
                Some(V::S(match find(&s, &t, 0) {
                    None => s,
                    Some(p) => {
                        let mut o = s[..p].to_vec();
                        o.extend(&u);
                        o.extend(&s[p + t.len()..]);
                        o
                    }
                }))
            }
            ("str.replace_all", 3) => {
                let s = self.strv(&args[0], env)?;
                let t = self.strv(&args[1], env)?;
                let u = self.strv(&args[2], env)?;
                if t.is_empty() {
                    return Some(V::S(s));
                }
                let mut o = Vec::new();
                let mut p = 0;
                while let Some(k) = find(&s, &t, p) {
                    o.extend(&s[p..k]);
                    o.extend(&u);
                    p = k + t.len();
                }
                o.extend(&s[p..]);
                Some(V::S(o))
            }
            ("str.replace_re", 3) => {
                let s = self.strv(&args[0], env)?;
                let r = self.re(&args[1], env)?;
                let u = self.strv(&args[2], env)?;
                // shortest leftmost match
                for i in 0..=s.len() {
                    for j in i..=s.len() {
                        if re_match(&r, &s[i..j]) {
                            let mut o = s[..i].to_vec();
                            o.extend(&u);
                            o.extend(&s[j..]);
                            return Some(V::S(o));
                        }
                    }
                }
                Some(V::S(s))
            }
            ("str.replace_re_all", 3) => {
                let s = self.strv(&args[0], env)?;
                let r = self.re(&args[1], env)?;
                let u = self.strv(&args[2], env)?;
                let mut o = Vec::new();
                let mut i = 0;
                'o: while i < s.len() {
                    for j in i + 1..=s.len() {
                        if re_match(&r, &s[i..j]) {
                            o.extend(&u);
                            i = j;
                            continue 'o;
                        }
                    }
                    o.push(s[i]);
                    i += 1;
                }
                Some(V::S(o))
            }
            ("str.is_digit", 1) => {
                let s = self.strv(&args[0], env)?;
                Some(V::B(s.len() == 1 && (code('0')..=code('9')).contains(&s[0])))
            }
            ("str.to_code", 1) => {
                let s = self.strv(&args[0], env)?;
                Some(vint(if s.len() == 1 { s[0] as i64 } else { -1 }))
            }
            ("str.from_code", 1) => {
                let k = self.num(&args[0], env)?;
                if k < 0 || k > 0x2FFFF {
                    return Some(V::S(vec![]));
                }
                Some(V::S(vec![k.numer().to_u32()?]))
            }
            ("str.to_int", 1) => {
                let s = self.strv(&args[0], env)?;
                if s.is_empty() || !s.iter().all(|c| (48..58).contains(c)) {
                    return Some(vint(-1));
                }
                let t: String = s.iter().map(|c| char::from_u32(*c).unwrap()).collect();
                Some(V::N(Rational::from(t.parse::<Integer>().ok()?)))
            }
            ("str.from_int", 1) => {
                let k = self.num(&args[0], env)?;
                if k < 0 {
                    return Some(V::S(vec![]));
                }
                Some(str_v(&k.numer().to_string()))
            }
            ("str.to_re", 1) => Some(V::R(Rc::new(Re::Str(self.strv(&args[0], env)?)))),
            ("str.in_re", 2) => {
                let s = self.strv(&args[0], env)?;
                let r = self.re(&args[1], env)?;
                if s.len() > 12 {
                    return None;
                }
                Some(V::B(re_match(&r, &s)))
            }
            ("re.++", _) | ("re.union", _) | ("re.inter", _) => {
                let v: Vec<Rc<Re>> = args.iter().map(|x| self.re(x, env)).collect::<Option<_>>()?;
                Some(V::R(Rc::new(match h {
                    "re.++" => Re::Cat(v),
                    "re.union" => Re::Alt(v),
                    _ => Re::And(v),
                })))
            }
            ("re.*", 1) => Some(V::R(Rc::new(Re::Star(self.re(&args[0], env)?)))),
            ("re.+", 1) => {
                let r = self.re(&args[0], env)?;
                Some(V::R(Rc::new(Re::Cat(vec![r.clone(), Rc::new(Re::Star(r))]))))
            }
            ("re.opt", 1) => {
                let r = self.re(&args[0], env)?;
                Some(V::R(Rc::new(Re::Alt(vec![r, Rc::new(Re::Str(vec![]))]))))
            }
            ("re.comp", 1) => Some(V::R(Rc::new(Re::Comp(self.re(&args[0], env)?)))),
            ("re.diff", 2) => {
                let x = self.re(&args[0], env)?;
                let y = self.re(&args[1], env)?;
                Some(V::R(Rc::new(Re::Diff(x, y))))
            }
            ("re.range", 2) => {
                let x = self.strv(&args[0], env)?;
                let y = self.strv(&args[1], env)?;
                Some(V::R(Rc::new(if x.len() == 1 && y.len() == 1 {
                    Re::Range(x[0], y[0])
                } else {
                    Re::None
                })))
            }
            _ => None,
        }
    }
}

fn val_eq(x: &V, y: &V) -> Option<bool> {
    match (x, y) {
        (V::R(p), V::R(q)) => {
            if p == q {
                return Some(true);
            }
            // sample: a distinguishing string settles it
            for s in STRS {
                let cs: Vec<u32> = s.chars().map(|c| c as u32).collect();
                if re_match(p, &cs) != re_match(q, &cs) {
                    return Some(false);
                }
            }
            None
        }
        _ => {
            if std::mem::discriminant(x) != std::mem::discriminant(y) {
                return None;
            }
            Some(x == y)
        }
    }
}
fn substr(s: &[u32], i: &Rational, k: &Rational) -> Vec<u32> {
    if *i < 0 || *i >= s.len() || *k <= 0 {
        return vec![];
    }
    let i = i.numer().to_usize().unwrap();
    let k = k.numer().to_usize().unwrap_or(usize::MAX).min(s.len() - i);
    s[i..i + k].to_vec()
}
fn find(s: &[u32], t: &[u32], from: usize) -> Option<usize> {
    if t.len() > s.len() {
        return None;
    }
    (from..=s.len() - t.len()).find(|&p| &s[p..p + t.len()] == t)
}
pub fn bindings(e: &E) -> Option<Vec<(Rc<str>, S)>> {
    e.list()?
        .iter()
        .map(|b| {
            let b = b.list()?;
            Some((Rc::from(b.first()?.atom()?), S::parse(b.get(1)?)?))
        })
        .collect()
}
fn hv_sorts(hv: &[E]) -> Option<Vec<S>> {
    // head is a lambda: its binder gives the sorts
    if hv.first()?.is("lambda") {
        return Some(bindings(&hv[1])?.into_iter().map(|x| x.1).collect());
    }
    None
}
/// all tuples, first component varies fastest
fn product(doms: &[Vec<V>]) -> Option<Vec<Vec<V>>> {
    let n: usize = doms.iter().map(|d| d.len()).product();
    if n > 128 {
        return None;
    }
    Some(
        (0..n)
            .map(|mut i| {
                doms.iter()
                    .map(|d| {
                        let v = d[i % d.len()].clone();
                        i /= d.len();
                        v
                    })
                    .collect()
            })
            .collect(),
    )
}
