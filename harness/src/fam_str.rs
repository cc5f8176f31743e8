//! String and regular-expression rules.
use crate::carc::{self, Opts, Verdict};
use crate::eval::{models, str_v, Ev, Sig, S, V};
use crate::g::{hash_str, G};
use crate::libt::str_e;
use crate::runner::{Case, Viol};
use crate::sexp::*;
use crate::step::*;
use crate::terms::*;

pub struct SG<'g> {
    t: TG<'g>,
    n: usize,
}
fn lit(s: &[char]) -> E {
    str_e(&s.iter().collect::<String>())
}
pub fn slen(x: &E) -> E {
    ap1("str.len", x.clone())
}
fn sub(x: &E, i: E, n: E) -> E {
    ap3("str.substr", x.clone(), i, n)
}
fn minus(x: E, y: E) -> E {
    ap2("-", x, y)
}
fn empty() -> E {
    a("\"\"")
}
fn in_re(x: &E, r: &E) -> E {
    ap2("str.in_re", x.clone(), r.clone())
}
/// substr u n (len u - n)
fn rem(u: &E, n: &E) -> E {
    sub(u, n.clone(), minus(slen(u), n.clone()))
}
fn is_chr(e: &E) -> bool {
    matches!(e, A(s) if s.starts_with('"'))
}
fn word(g: &mut G, lo: usize, hi: usize) -> Vec<char> {
    let n = g.ur(lo, hi);
    (0..n)
        .map(|_| match g.u(14) {
            0..=6 => 'a',
            7..=10 => 'b',
            11 => 'c',
            12 => 'é',
            _ => '"',
        })
        .collect()
}
impl<'g> SG<'g> {
    fn new(g: &'g mut G) -> SG<'g> {
        SG { t: TG::new(g, Cfg { strs: true, int: true, uf: true, ..Cfg::prop() }), n: 0 }
    }
    /// a constant whose value is `w` in some of the models
    fn var(&mut self, w: &[char]) -> E {
        // an existing constant with this value
        if self.n > 0 && self.t.g.chance(1, 3) {
            let k = format!("s{}", self.t.g.u(self.n));
            let hv = str_v(&w.iter().collect::<String>());
            if let Some(V::S(x)) = self.t.sig.hints.get(&*k).map(|v| v[0].clone()) {
                if matches!(&hv, V::S(y) if *y == x) {
                    return a(&k);
                }
            }
        }
        let k = format!("s{}", self.n);
        self.n += 1;
        let w0: String = w.iter().collect();
        let mut v = vec![str_v(&w0)];
        for _ in 0..3 {
            let x = match self.t.g.u(5) {
                0 => String::new(),
                1 => format!("{w0}a"),
                2 => w.iter().skip(1).collect(),
                3 => w.iter().take(1).collect(),
                _ => word(self.t.g, 0, 3).into_iter().collect(),
            };
            v.push(str_v(&x));
        }
        self.t.sig.hint(&k, v);
        self.t.sig.cst(&k, S::Str)
    }
    /// a flat list of one-character constants and other terms, that can have the value `w`
    fn pieces(&mut self, w: &[char]) -> Vec<E> {
        let mut out = vec![];
        let mut i = 0;
        if self.t.g.chance(1, 10) {
            out.push(self.var(&[]));
        }
        while i < w.len() {
            let k = self.t.g.ur(1, (w.len() - i).min(3));
            if self.t.g.bool() {
                out.extend(w[i..i + k].iter().map(|c| lit(&[*c])));
            } else {
                out.push(self.var(&w[i..i + k]));
            }
            i += k;
        }
        out
    }
    /// terms that may occur on both sides
    fn shared(&mut self) -> Vec<E> {
        let n = self.t.g.u(3);
        (0..n)
            .flat_map(|_| match self.t.g.u(4) {
                0 => {
                    let w = word(self.t.g, 1, 2);
                    w.iter().map(|c| lit(&[*c])).collect()
                }
                1 => {
                    let w = word(self.t.g, 0, 2);
                    vec![self.var(&w)]
                }
                2 => {
                    let w = word(self.t.g, 0, 3);
                    let v = self.var(&w);
                    vec![sub(&v, int(0), int(1))]
                }
                _ => {
                    let v = self.var(&['a']);
                    let w = word(self.t.g, 1, 3);
                    vec![ap3("str.replace", lit(&w), v, lit(&['b']))]
                }
            })
            .collect()
    }
    /// a term with the given flat form
    fn render(&mut self, flat: &[E], concl: bool) -> E {
        match flat.len() {
            0 => return empty(),
            1 => return flat[0].clone(),
            _ => {}
        }
        let g = &mut *self.t.g;
        if flat.iter().all(is_chr) && g.chance(2, 3) {
            return join(flat);
        }
        let mut out: Vec<E> = vec![];
        let mut i = 0;
        while i < flat.len() {
            let mut j = i + 1;
            if is_chr(&flat[i]) {
                while j < flat.len() && is_chr(&flat[j]) && g.chance(3, 4) {
                    j += 1;
                }
                out.push(join(&flat[i..j]));
            } else {
                out.push(flat[i].clone());
            }
            i = j;
        }
        if g.chance(1, 8) {
            let k = g.u(out.len() + 1);
            out.insert(k, empty());
        }
        if out.len() > 2 && g.chance(1, 4) {
            let k = g.ur(1, out.len() - 2);
            let tail = out.split_off(k);
            out.push(ap("str.++", tail));
        }
        if out.len() == 1 {
            if concl {
                return out.pop().unwrap();
            }
            out.push(empty());
        }
        ap("str.++", out)
    }
    fn split(&mut self, w: &[char], lo: usize) -> usize {
        self.t.g.ur(lo.min(w.len()), w.len())
    }
    fn word(&mut self, lo: usize, hi: usize) -> Vec<char> {
        word(self.t.g, lo, hi)
    }
    fn done(self, rule: &str, prems: Vec<E>, args: Vec<E>, concl: E) -> Step {
        Step::new(self.t.sig, rule, prems.into_iter().map(|p| vec![p]).collect(), args, vec![concl])
    }
}
fn join(fl: &[E]) -> E {
    let s: String = fl.iter().map(|e| e.atom().unwrap()).map(|x| &x[1..x.len() - 1]).collect::<Vec<_>>().concat();
    a(format!("\"{s}\""))
}
fn bool_e(b: bool) -> E {
    a(if b { "true" } else { "false" })
}
fn cat2(rev: bool, common: &[E], own: &[E]) -> Vec<E> {
    if rev {
        own.iter().chain(common).cloned().collect()
    } else {
        common.iter().chain(own).cloned().collect()
    }
}
fn strip(rev: bool, s: &[E], t: &[E]) -> (Vec<E>, Vec<E>) {
    let mut s = s.to_vec();
    let mut t = t.to_vec();
    if rev {
        s.reverse();
        t.reverse();
    }
    let k = s.iter().zip(&t).take_while(|(x, y)| x == y).count();
    let mut s = s[k..].to_vec();
    let mut t = t[k..].to_vec();
    if rev {
        s.reverse();
        t.reverse();
    }
    (s, t)
}
pub fn concat_eq(g: &mut G) -> Step {
    let mut b = SG::new(g);
    let rev = b.t.g.bool();
    let c = b.shared();
    let w = b.word(0, 4);
    let (p, q) = (b.pieces(&w), b.pieces(&w));
    let (mut s, mut t) = (cat2(rev, &c, &p), cat2(rev, &c, &q));
    if s.is_empty() {
        s.push(a("\"a\""));
    }
    if t.is_empty() {
        t = s.clone();
    }
    let (s1, t1) = strip(rev, &s, &t);
    let prem = eq(b.render(&s, false), b.render(&t, false));
    let concl = eq(b.render(&s1, true), b.render(&t1, true));
    b.done("concat_eq", vec![prem], vec![bool_e(rev)], concl)
}
pub fn concat_unify(g: &mut G) -> Step {
    let mut b = SG::new(g);
    let rev = b.t.g.bool();
    let w = b.word(1, 5);
    let k = b.split(&w, 0);
    let (x, y) = if rev { (&w[k..], &w[..k]) } else { (&w[..k], &w[k..]) };
    let (s1, t1) = (b.pieces(x), b.pieces(x));
    let (s2, t2) = (b.pieces(y), b.pieces(y));
    let (s, t) = (cat2(rev, &s1, &s2), cat2(rev, &t1, &t2));
    let prem = eq(b.render(&s, false), b.render(&t, false));
    let lens = eq(slen(&b.render(&s1, false)), slen(&b.render(&t1, false)));
    let concl = eq(b.render(&s1, true), b.render(&t1, true));
    b.done("concat_unify", vec![prem, lens], vec![bool_e(rev)], concl)
}
pub fn concat_conflict(g: &mut G) -> Step {
    let mut b = SG::new(g);
    let rev = b.t.g.bool();
    let c = b.shared();
    let (c1, mut c2) = (b.word(1, 1), b.word(1, 1));
    if c1 == c2 {
        c2 = vec![if c1[0] == 'z' { 'y' } else { 'z' }];
    }
    let (w1, w2) = (b.word(0, 2), b.word(0, 2));
    let (o1, o2) = (b.pieces(&w1), b.pieces(&w2));
    let h1 = cat2(rev, &[lit(&c1)], &o1);
    let mut h2 = cat2(rev, &[lit(&c2)], &o2);
    if !c.is_empty() && b.t.g.chance(1, 5) {
        h2.clear();
    }
    if b.t.g.wild && b.t.g.chance(1, 3) {
        let v = b.var(&c1);
        h2 = cat2(rev, &[v], &o2);
    }
    let (mut s, mut t) = (cat2(rev, &c, &h1), cat2(rev, &c, &h2));
    if b.t.g.bool() {
        std::mem::swap(&mut s, &mut t);
    }
    let prem = eq(b.render(&s, false), b.render(&t, false));
    b.done("concat_conflict", vec![prem], vec![bool_e(rev)], a("false"))
}
pub fn concat_csplit(g: &mut G) -> Step {
    let mut b = SG::new(g);
    let suf = b.t.g.bool();
    let w = b.word(1, 4);
    let k = b.t.g.ur(1, w.len());
    let (x, y, c, rest) = if suf {
        let m = w.len() - k;
        (&w[m..], &w[..m], w[w.len() - 1], &w[..w.len() - 1])
    } else {
        (&w[..k], &w[k..], w[0], &w[1..])
    };
    let t1 = b.pieces(x);
    let t2 = b.pieces(y);
    let s2 = b.pieces(rest);
    let t = cat2(suf, &t1, &t2);
    let s = cat2(suf, &[lit(&[c])], &s2);
    let prem = eq(b.render(&t, false), b.render(&s, false));
    let p1 = b.render(&t1, false);
    let len = not(eq(slen(&p1), int(0)));
    let q = b.render(&t1, true);
    let q2 = b.render(&t1, true);
    let concl = if suf {
        eq(q, ap2("str.++", sub(&q2, int(0), minus(slen(&q2), int(1))), lit(&[c])))
    } else {
        eq(q, ap2("str.++", lit(&[c]), rem(&q2, &int(1))))
    };
    b.done(if suf { "concat_csplit_suffix" } else { "concat_csplit_prefix" }, vec![prem, len], vec![], concl)
}
fn split_skolem(suf: bool, t: &E, s: &E) -> E {
    let c = ap2(">=", slen(t), slen(s));
    if suf {
        ap3("ite", c, sub(t, int(0), minus(slen(t), slen(s))), sub(s, int(0), minus(slen(s), slen(t))))
    } else {
        ap3("ite", c, rem(t, &slen(s)), rem(s, &slen(t)))
    }
}
fn split_like(g: &mut G, lprop: bool) -> Step {
    let mut b = SG::new(g);
    let suf = b.t.g.bool();
    let w = b.word(1, 4);
    let mut k = b.split(&w, 0);
    let mut m = b.split(&w, 0);
    if k == m {
        if k > 0 {
            m = k - 1;
        } else {
            k = 1;
        }
    }
    if lprop && k < m {
        std::mem::swap(&mut k, &mut m);
    }
    let n = w.len();
    let cut = |k: usize| if suf { (w[n - k..].to_vec(), w[..n - k].to_vec()) } else { (w[..k].to_vec(), w[k..].to_vec()) };
    let (x, y) = cut(k);
    let (x2, y2) = cut(m);
    let (t1, t2) = (b.pieces(&x), b.pieces(&y));
    let (s1, s2) = (b.pieces(&x2), b.pieces(&y2));
    let (t, s) = (cat2(suf, &t1, &t2), cat2(suf, &s1, &s2));
    let prem = eq(b.render(&t, false), b.render(&s, false));
    let (lt, ls) = (b.render(&t1, false), b.render(&s1, false));
    let len = if lprop { ap2(">", slen(&lt), slen(&ls)) } else { not(eq(slen(&lt), slen(&ls))) };
    let (t1, s1) = (b.render(&t1, true), b.render(&s1, true));
    let r = split_skolem(suf, &t1, &s1);
    let cc = |x: &E| if suf { ap2("str.++", r.clone(), x.clone()) } else { ap2("str.++", x.clone(), r.clone()) };
    let e1 = eq(t1.clone(), cc(&s1));
    let e2 = eq(s1.clone(), cc(&t1));
    let first = if lprop { e1 } else { or(vec![e1, e2]) };
    let concl = and(vec![first, not(eq(r.clone(), empty())), ap2(">", slen(&r), int(0))]);
    let rule = match (lprop, suf) {
        (false, false) => "concat_split_prefix",
        (false, true) => "concat_split_suffix",
        (true, false) => "concat_lprop_prefix",
        (true, true) => "concat_lprop_suffix",
    };
    b.done(rule, vec![prem, len], vec![], concl)
}
pub fn concat_split(g: &mut G) -> Step {
    split_like(g, false)
}
pub fn concat_lprop(g: &mut G) -> Step {
    split_like(g, true)
}
fn overlap(s: &[char], t: &[char]) -> usize {
    let compat = |s: &[char]| s.iter().zip(t).all(|(x, y)| x == y);
    (0..s.len()).find(|&p| compat(&s[p..])).unwrap_or(s.len()).min(s.len().saturating_sub(1))
}
pub fn concat_cprop(g: &mut G) -> Step {
    let mut b = SG::new(g);
    let suf = b.t.g.bool();
    // in the suffix form everything is mirrored
    let t1v = b.word(1, 3);
    let w2 = b.word(1, 3);
    let t3v = b.word(0, 2);
    let full: Vec<char> = if suf {
        t3v.iter().chain(&w2).chain(&t1v).copied().collect()
    } else {
        t1v.iter().chain(&w2).chain(&t3v).copied().collect()
    };
    let k = b.t.g.ur(1, full.len());
    let n = full.len();
    let (w1, rest) = if suf { (full[n - k..].to_vec(), full[..n - k].to_vec()) } else { (full[..k].to_vec(), full[k..].to_vec()) };
    let part = |b: &mut SG, v: &[char]| {
        let p = b.pieces(v);
        b.render(&p, false)
    };
    let t1 = part(&mut b, &t1v);
    let t3 = part(&mut b, &t3v);
    let mut mid = lit(&w2);
    if b.t.g.wild && b.t.g.chance(1, 4) {
        mid = part(&mut b, &w2);
    }
    let t = ap("str.++", if suf { vec![t3, mid, t1.clone()] } else { vec![t1.clone(), mid, t3] });
    let mut w1e = lit(&w1);
    if b.t.g.wild && b.t.g.chance(1, 4) {
        w1e = part(&mut b, &w1);
    }
    let s = if rest.is_empty() && b.t.g.bool() {
        w1e.clone()
    } else {
        let r = part(&mut b, &rest);
        let mut v = vec![w1e.clone(), r];
        if b.t.g.chance(1, 5) {
            let x = b.var(&[]);
            v.push(x);
        }
        if suf {
            v.reverse();
        }
        ap("str.++", v)
    };
    let rv = |v: &[char]| if suf { v.iter().rev().copied().collect::<Vec<_>>() } else { v.to_vec() };
    let (m1, m2) = (rv(&w1), rv(&w2));
    let v = int(1 + overlap(&m1[1..], &m2) as i64);
    let p1 = not(eq(slen(&t1), int(0)));
    let prem = eq(t, s);
    let (rule, concl) = if suf {
        let oc = sub(&w1e, minus(slen(&w1e), v.clone()), v);
        ("concat_cprop_suffix", eq(t1.clone(), ap2("str.++", sub(&t1, int(0), minus(slen(&t1), slen(&oc))), oc)))
    } else {
        let oc = sub(&w1e, int(0), v);
        ("concat_cprop_prefix", eq(t1.clone(), ap2("str.++", oc.clone(), rem(&t1, &slen(&oc)))))
    };
    b.done(rule, vec![prem, p1], vec![], concl)
}
fn sterm(b: &mut SG) -> E {
    if b.t.g.bool() {
        let w = b.word(0, 4);
        let p = b.pieces(&w);
        b.render(&p, false)
    } else {
        let d = b.t.g.u(3);
        b.t.term(&S::Str, d)
    }
}
pub fn decompose(g: &mut G) -> Step {
    let mut b = SG::new(g);
    let t = sterm(&mut b);
    let rev = b.t.g.wild && b.t.g.chance(1, 6);
    let n = if b.t.g.wild && b.t.g.chance(1, 5) {
        match b.t.g.u(2) {
            0 => b.t.term(&S::Int, 1),
            _ => int(-b.t.g.range(1, 2)),
        }
    } else {
        int(b.t.g.range(0, 3))
    };
    let w1 = sub(&t, int(0), n.clone());
    let w2 = rem(&t, &n);
    let w = if rev { w2.clone() } else { w1.clone() };
    let concl = and(vec![eq(t.clone(), ap2("str.++", w1, w2)), eq(slen(&w), n.clone())]);
    let prem = ap2(">=", slen(&t), n);
    b.done("string_decompose", vec![prem], vec![bool_e(rev)], concl)
}
pub fn length_pos(g: &mut G) -> Step {
    let mut b = SG::new(g);
    let t = sterm(&mut b);
    let concl = or(vec![and(vec![eq(slen(&t), int(0)), eq(t.clone(), empty())]), ap2(">", slen(&t), int(0))]);
    b.done("string_length_pos", vec![], vec![t], concl)
}
pub fn length_non_empty(g: &mut G) -> Step {
    let mut b = SG::new(g);
    let t = sterm(&mut b);
    b.done("string_length_non_empty", vec![not(eq(t.clone(), empty()))], vec![], not(eq(slen(&t), int(0))))
}
fn rterm(b: &mut SG) -> E {
    if b.t.g.chance(1, 3) {
        let k = b.t.g.u(2);
        return b.t.sig.cst(&format!("re{k}"), S::Re);
    }
    let d = b.t.g.u(3);
    b.t.re(d)
}
pub fn re_inter(g: &mut G) -> Step {
    let mut b = SG::new(g);
    let x = sterm(&mut b);
    let (r, s) = (rterm(&mut b), rterm(&mut b));
    b.done("re_inter", vec![in_re(&x, &r), in_re(&x, &s)], vec![], in_re(&x, &ap2("re.inter", r, s)))
}
fn re_cat(mut v: Vec<E>) -> E {
    if v.len() == 1 {
        v.pop().unwrap()
    } else {
        ap("re.++", v)
    }
}
pub fn unfold_neg(g: &mut G) -> Step {
    let mut b = SG::new(g);
    let mut t = sterm(&mut b);
    if b.t.g.wild && b.t.g.chance(1, 6) {
        let l = b.t.sig.cst("L", S::Int);
        t = match b.t.g.u(3) {
            0 => ap1("str.from_int", l),
            1 => ap2("str.at", t, l),
            _ => sub(&t, int(0), l),
        };
    }
    let lv = a("L");
    let pref = sub(&t, int(0), lv.clone());
    let suff = rem(&t, &lv);
    let q = |body: E| bind("forall", &[(a("L"), a("Int"))], body);
    let (r, concl) = if b.t.g.bool() {
        let mut r1 = rterm(&mut b);
        if b.t.g.wild && b.t.g.chance(1, 8) {
            let l = b.t.sig.cst("L", S::Int);
            r1 = ap1("str.to_re", ap1("str.from_int", l));
        }
        let r = ap1("re.*", r1.clone());
        let body = or(vec![
            ap2("<=", lv.clone(), int(0)),
            ap2("<", slen(&t), lv.clone()),
            not(in_re(&pref, &r1)),
            not(in_re(&suff, &r)),
        ]);
        (r, and(vec![not(eq(t.clone(), empty())), q(body)]))
    } else {
        let n = b.t.g.ur(2, 3);
        let v: Vec<E> = (0..n).map(|_| rterm(&mut b)).collect();
        let body = or(vec![
            ap2("<", lv.clone(), int(0)),
            ap2("<", slen(&t), lv.clone()),
            not(in_re(&pref, &v[0])),
            not(in_re(&suff, &re_cat(v[1..].to_vec()))),
        ]);
        (ap("re.++", v), q(body))
    };
    b.done("re_unfold_neg", vec![not(in_re(&t, &r))], vec![], concl)
}
/// a regular expression all of whose words have length n
fn fixed(b: &mut SG, n: usize, d: usize) -> E {
    let k = b.t.g.u(if d == 0 { 2 } else { 5 });
    match k {
        0 if n == 1 => match b.t.g.u(2) {
            0 => a("re.allchar"),
            _ => ap2("re.range", a("\"a\""), a("\"b\"")),
        },
        2 if n > 0 => {
            let m = b.t.g.ur(0, n);
            let (x, y) = (fixed(b, m, d - 1), fixed(b, n - m, d - 1));
            ap2("re.++", x, y)
        }
        3 | 4 => {
            let mut v: Vec<E> = (0..b.t.g.ur(1, 2)).map(|_| fixed(b, n, d - 1)).collect();
            let op = if k == 3 { "re.union" } else { "re.inter" };
            if v.len() == 1 || b.t.g.chance(1, 3) {
                let i = b.t.g.u(v.len() + 1);
                v.insert(i, a(if k == 3 { "re.none" } else { "re.all" }));
            }
            ap(op, v)
        }
        _ => {
            let w = b.word(n, n);
            ap1("str.to_re", lit(&w))
        }
    }
}
pub fn unfold_neg_fixed(g: &mut G) -> Step {
    let mut b = SG::new(g);
    let suf = b.t.g.bool();
    let t = sterm(&mut b);
    let n = b.t.g.u(4);
    let d = b.t.g.u(3);
    let r1 = fixed(&mut b, n, d);
    let others: Vec<E> = (0..b.t.g.ur(1, 2)).map(|_| rterm(&mut b)).collect();
    let n = int(n as i64);
    let r2 = re_cat(others.clone());
    let (r, concl, rule) = if suf {
        let mut v = others;
        v.push(r1.clone());
        let m = minus(slen(&t), n.clone());
        (
            ap("re.++", v),
            or(vec![not(in_re(&sub(&t, m.clone(), n), &r1)), not(in_re(&sub(&t, int(0), m), &r2))]),
            "re_unfold_neg_concat_fixed_suffix",
        )
    } else {
        let mut v = vec![r1.clone()];
        v.extend(others);
        (
            ap("re.++", v),
            or(vec![not(in_re(&sub(&t, int(0), n.clone()), &r1)), not(in_re(&rem(&t, &n), &r2))]),
            "re_unfold_neg_concat_fixed_prefix",
        )
    };
    b.done(rule, vec![not(in_re(&t, &r))], vec![], concl)
}

pub fn fams() -> Vec<Fam> {
    vec![
        ("concat_eq", concat_eq),
        ("concat_unify", concat_unify),
        ("concat_conflict", concat_conflict),
        ("concat_csplit", concat_csplit),
        ("concat_split", concat_split),
        ("concat_lprop", concat_lprop),
        ("concat_cprop", concat_cprop),
        ("string_decompose", decompose),
        ("string_length_pos", length_pos),
        ("string_length_non_empty", length_non_empty),
        ("re_inter", re_inter),
        ("re_unfold_neg", unfold_neg),
        ("re_unfold_neg_fixed", unfold_neg_fixed),
    ]
}
pub const DECOMPOSE: &str = "string_decompose with a true argument bounds the wrong part";
pub fn sound(g: &mut G) -> Case {
    let mut c = sound_case(g, &fams(), 150, &Opts::default());
    if let Some(v) = &mut c.viol {
        let proof = &v.files[1].1;
        if v.sig == "unsound string_decompose" && proof.contains(":args (true)") {
            v.sig = DECOMPOSE.into();
        }
    }
    c
}

// ---- positive unfolding: the conclusion mentions Skolem terms, which are read existentially

/// the components of an unfolding, their Skolem terms as the checker names them
fn components(t: &E, rs: &[E]) -> (Vec<E>, Vec<Option<E>>) {
    let str_s = a("String");
    let re_s = a("RegLan");
    let n = rs.len();
    let mut ks: Vec<E> = vec![];
    let mut pieces: Vec<E> = vec![];
    let mut sk: Vec<Option<E>> = vec![];
    for i in (0..n).rev() {
        if rs[i].is_app("str.to_re") {
            pieces.insert(0, rs[i].args()[0].clone());
            sk.insert(0, None);
            continue;
        }
        let x = a("x");
        let mut conj = vec![];
        let mut cat = vec![];
        let mut bs = vec![];
        for j in 0..i {
            let (k, r) = (a(format!("k_{j}")), a(format!("R_{j}")));
            cat.push(k.clone());
            conj.push(in_re(&k, &r));
            bs.push((k, str_s.clone()));
            bs.push((r, re_s.clone()));
        }
        cat.push(x.clone());
        cat.extend(ks.iter().cloned());
        let ri = a(format!("R_{i}"));
        bs.push((ri.clone(), re_s.clone()));
        conj.push(in_re(&x, &ri));
        // the Skolem terms of the later components are numbered on from here
        for (j, k) in ks.iter().enumerate() {
            bs.push((a(format!("R_{}", i + j + 1)), re_s.clone()));
            conj.push(in_re(k, &a(format!("R_{}", later(&sk, i, j)))));
        }
        conj.insert(0, eq(t.clone(), ap("str.++", cat)));
        let c = l(vec![a("choice"), l(vec![l(vec![x, str_s.clone()])]), bind("exists", &bs, and(conj))]);
        ks.insert(0, c.clone());
        pieces.insert(0, c.clone());
        sk.insert(0, Some(c));
    }
    (pieces, sk)
}
/// index of the j-th later component that has a Skolem term
fn later(sk: &[Option<E>], i: usize, j: usize) -> usize {
    let idx: Vec<usize> = sk.iter().enumerate().filter(|x| x.1.is_some()).map(|x| x.0).collect();
    i + 1 + idx[j]
}
fn concl_of(b: &mut SG, t: &E, rs: &[E], whole: bool) -> (Vec<E>, E) {
    let _ = b;
    let (pieces, sk) = components(t, rs);
    let mut m = a("true");
    for i in (0..rs.len()).rev() {
        if let Some(k) = &sk[i] {
            let r = if whole && i + 1 < rs.len() { ap("re.++", rs[i..].to_vec()) } else { rs[i].clone() };
            m = and(vec![in_re(k, &r), m]);
        }
    }
    (pieces, m)
}
pub fn unfold_step(g: &mut G, whole: bool) -> Step {
    let mut b = SG::new(g);
    let t = match b.t.g.u(3) {
        0 => {
            let w = b.word(0, 3);
            b.var(&w)
        }
        _ => sterm(&mut b),
    };
    let re = |b: &mut SG| {
        if b.t.g.chance(1, 3) {
            let w = b.word(1, 2);
            ap1("str.to_re", lit(&w))
        } else {
            rterm(b)
        }
    };
    if b.t.g.chance(1, 3) {
        let r1 = re(&mut b);
        let r = ap1("re.*", r1.clone());
        let (p, m) = concl_of(&mut b, &t, &[r1.clone(), r.clone(), r1.clone()], whole);
        let mut v = vec![eq(t.clone(), ap("str.++", p.clone()))];
        if m.is_app("and") {
            v.extend(m.args().to_vec());
        }
        let third = and(vec![and(v), not(eq(p[0].clone(), empty())), not(eq(p[2].clone(), empty()))]);
        let concl = or(vec![eq(t.clone(), empty()), in_re(&t, &r1), third]);
        b.done("re_kleene_star_unfold_pos", vec![in_re(&t, &r)], vec![], concl)
    } else {
        let n = b.t.g.ur(2, 3);
        let rs: Vec<E> = (0..n).map(|_| re(&mut b)).collect();
        let (p, m) = concl_of(&mut b, &t, &rs, whole);
        let teq = eq(t.clone(), ap("str.++", p));
        let concl = if m.is("true") { teq } else { and(vec![teq, m]) };
        b.done("re_concat_unfold_pos", vec![in_re(&t, &ap("re.++", rs))], vec![], concl)
    }
}
/// constants followed by one other component: here the conclusion the checker wants is right
pub fn unfold_last(g: &mut G) -> Step {
    let mut b = SG::new(g);
    let t = sterm(&mut b);
    let mut rs: Vec<E> = (0..b.t.g.ur(1, 2))
        .map(|_| {
            let w = b.word(1, 2);
            ap1("str.to_re", lit(&w))
        })
        .collect();
    let mut last = rterm(&mut b);
    if last.is_app("str.to_re") {
        last = ap1("re.*", last);
    }
    rs.push(last);
    let (p, m) = concl_of(&mut b, &t, &rs, false);
    let concl = and(vec![eq(t.clone(), ap("str.++", p)), m]);
    b.done("re_concat_unfold_pos", vec![in_re(&t, &ap("re.++", rs))], vec![], concl)
}
pub fn complete_fams() -> Vec<Fam> {
    let mut v = fams();
    v.push(("unfold_last", unfold_last));
    v
}
pub const UNFOLD: &str = "positive unfolding puts a component into the whole rest of the expression";
fn choices(e: &E, out: &mut Vec<E>) {
    if e.is_app("choice") {
        if !out.contains(e) {
            out.push(e.clone());
        }
        return;
    }
    if let L(v) = e {
        v.iter().for_each(|x| choices(x, out));
    }
}
/// is there a model with the premises true, and the conclusion false whatever the Skolem terms are?
fn exists_counter(sig: &Sig, prems: &[Vec<E>], concl: &[E], seed: u64) -> (Option<String>, bool) {
    let mut ch = vec![];
    concl.iter().for_each(|e| choices(e, &mut ch));
    let mut sig2 = sig.clone();
    let mut c2 = concl.to_vec();
    let names: Vec<E> = (0..ch.len()).map(|i| sig2.cst(&format!("sk!{i}"), S::Str)).collect();
    for (c, n) in ch.iter().zip(&names) {
        for e in &mut c2 {
            *e = e.replace(c, n);
        }
    }
    let t = prems.first().and_then(|p| p.first()).filter(|e| e.is_app("str.in_re")).map(|e| e.args()[0].clone());
    let mut live = false;
    for m in models(&sig2, 40, seed) {
        if !prems.iter().all(|p| Ev::new(&m).clause(p) == Some(true)) {
            continue;
        }
        let mut cand: Vec<V> = vec![str_v("")];
        if let Some(V::S(s)) = t.as_ref().and_then(|t| Ev::new(&m).val(t)) {
            if s.len() > 4 {
                continue;
            }
            for i in 0..s.len() {
                for j in i + 1..=s.len() {
                    let v = V::S(s[i..j].to_vec());
                    if !cand.contains(&v) {
                        cand.push(v);
                    }
                }
            }
        }
        let mut some = false;
        let total = cand.len().pow(names.len() as u32);
        if total > 3000 {
            continue;
        }
        for mut i in 0..total {
            let mut m2 = crate::eval::Model { sig: &sig2, seed: m.seed, consts: m.consts.clone(), sizes: m.sizes.clone() };
            for n in &names {
                m2.consts.insert(n.atom().unwrap().into(), cand[i % cand.len()].clone());
                i /= cand.len();
            }
            if Ev::new(&m2).clause(&c2) != Some(false) {
                some = true;
                break;
            }
        }
        live = true;
        if !some {
            return (Some(describe_model(sig, &m)), true);
        }
    }
    (None, live)
}
pub fn unfold(g: &mut G) -> Case {
    g.wild = true;
    let whole = g.chance(2, 3);
    let mut s = unfold_step(g, whole);
    let nmut = g.weighted(&[4, 4, 1]);
    for _ in 0..nmut {
        mutate_step(g, &mut s);
    }
    if nmut > 0 && g.chance(1, 2) {
        if let Verdict::Rejected(_, _, msg) = carc::check(&s.problem(), &s.proof(), &Opts::default()) {
            repair(g, &mut s, &msg);
        }
    }
    let mut c = Case::default();
    let pf = s.proof();
    c.key = hash_str(&pf);
    let v = carc::check(&s.problem(), &pf, &Opts::default());
    let seed = g.seed();
    match v {
        Verdict::ParseErr(_) | Verdict::Panic(_) => {
            c.label("unfold:unparsed");
            return c;
        }
        Verdict::Rejected(..) => {
            c.label(format!("unfold:rejected{}", if whole && nmut == 0 { "-as-built" } else { "" }));
            c.nontrivial = true;
            return c;
        }
        _ => {}
    }
    c.sample = pf;
    c.nontrivial = true;
    c.label(format!("unfold:accepted{}", if nmut > 0 { "-mutant" } else { "" }));
    let (counter, live) = exists_counter(&s.sig, &s.prems, &s.concl, seed);
    if live {
        c.label("unfold:judged");
    }
    if let Some(m) = counter {
        // the listed defect: would the conclusion hold with each Skolem term in its own component?
        let rs: Vec<E> = match s.prems.first().and_then(|p| p.first()) {
            Some(p) if p.is_app("str.in_re") && p.args()[1].is_app("re.++") => p.args()[1].args().to_vec(),
            Some(p) if p.is_app("str.in_re") && p.args()[1].is_app("re.*") => {
                let r = p.args()[1].args()[0].clone();
                vec![r.clone(), p.args()[1].clone(), r]
            }
            _ => vec![],
        };
        fn own(e: &E, rs: &[E]) -> E {
            if e.is_app("str.in_re") && e.args()[0].is_app("choice") {
                for i in 0..rs.len().saturating_sub(1) {
                    if e.args()[1] == ap("re.++", rs[i..].to_vec()) {
                        return in_re(&e.args()[0], &rs[i]);
                    }
                }
            }
            match e {
                L(v) if !e.is_app("choice") => L(v.iter().map(|x| own(x, rs)).collect()),
                _ => e.clone(),
            }
        }
        let fixed: Vec<E> = s.concl.iter().map(|e| own(e, &rs)).collect();
        let listed = fixed != s.concl && exists_counter(&s.sig, &s.prems, &fixed, seed).0.is_none();
        c.viol = Some(Viol {
            sig: if listed { UNFOLD.into() } else { format!("unsound {}", s.rule) },
            msg: format!("rule {} accepts a conclusion that no choice of its Skolem terms makes true in a model of the premise: {m}", s.rule),
            files: s.files(),
        });
    }
    c
}
pub fn pin_decompose() -> bool {
    let p = "(set-logic ALL)\n(declare-const x String)\n";
    let q = "(step h0 (cl (>= (str.len x) 1)) :rule hole)\n(step t (cl (and (= x (str.++ (str.substr x 0 1) (str.substr x 1 (- (str.len x) 1)))) (= (str.len (str.substr x 1 (- (str.len x) 1))) 1))) :rule string_decompose :premises (h0) :args (true))\n";
    carc::check(p, q, &Opts::default()).steps_accepted()
}
pub fn pin_unfold() -> bool {
    let k1 = "(choice ((x String)) (exists ((k_0 String) (R_0 RegLan) (R_1 RegLan)) (and (= z (str.++ k_0 x)) (str.in_re k_0 R_0) (str.in_re x R_1))))";
    let k0 = format!("(choice ((x String)) (exists ((R_0 RegLan) (R_1 RegLan)) (and (= z (str.++ x {k1})) (str.in_re x R_0) (str.in_re {k1} R_1))))");
    let p = "(set-logic ALL)\n(declare-const z String)\n";
    let r = "(re.++ re.allchar re.allchar)";
    let q = format!("(step h0 (cl (str.in_re z {r})) :rule hole)\n(step t (cl (and (= z (str.++ {k0} {k1})) (and (str.in_re {k0} {r}) (and (str.in_re {k1} re.allchar) true)))) :rule re_concat_unfold_pos :premises (h0))\n");
    carc::check(p, &q, &Opts::default()).steps_accepted()
}
