//! S-expressions: the harness's own representation of SMT-LIB terms and proofs.
use std::fmt;
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum E {
    A(Rc<str>),
    L(Vec<E>),
}
pub use E::{A, L};

impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            A(s) => f.write_str(s),
            L(v) => {
                f.write_str("(")?;
                for (i, e) in v.iter().enumerate() {
                    if i > 0 {
                        f.write_str(" ")?;
                    }
                    e.fmt(f)?;
                }
                f.write_str(")")
            }
        }
    }
}
impl fmt::Debug for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}

pub fn a(s: impl AsRef<str>) -> E {
    A(Rc::from(s.as_ref()))
}
pub fn l(v: Vec<E>) -> E {
    L(v)
}
/// `(op args...)`, or just `op` if there are no arguments
pub fn ap(op: &str, args: Vec<E>) -> E {
    let mut v = vec![a(op)];
    v.extend(args);
    L(v)
}
pub fn ap1(op: &str, x: E) -> E {
    L(vec![a(op), x])
}
pub fn ap2(op: &str, x: E, y: E) -> E {
    L(vec![a(op), x, y])
}
pub fn ap3(op: &str, x: E, y: E, z: E) -> E {
    L(vec![a(op), x, y, z])
}
pub fn not(x: E) -> E {
    ap1("not", x)
}
pub fn eq(x: E, y: E) -> E {
    ap2("=", x, y)
}
pub fn and(v: Vec<E>) -> E {
    ap("and", v)
}
pub fn or(v: Vec<E>) -> E {
    ap("or", v)
}
/// application that drops the operator for one operand
pub fn ap_or_single(op: &str, mut v: Vec<E>) -> E {
    if v.len() == 1 { v.pop().unwrap() } else { ap(op, v) }
}
pub fn int(n: i64) -> E {
    if n < 0 { ap1("-", a((-(n as i128)).to_string())) } else { a(n.to_string()) }
}
/// raw literal, negative allowed (Alethe/carcara extension)
pub fn int_raw(n: i64) -> E {
    a(n.to_string())
}
pub fn ix(op: &str, idx: &[i64], args: Vec<E>) -> E {
    let mut h = vec![a("_"), a(op)];
    h.extend(idx.iter().map(|i| a(i.to_string())));
    let mut v = vec![L(h)];
    v.extend(args);
    L(v)
}
pub fn bind(b: &str, vars: &[(E, E)], body: E) -> E {
    L(vec![a(b), L(vars.iter().map(|(x, s)| L(vec![x.clone(), s.clone()])).collect()), body])
}

impl E {
    pub fn is(&self, s: &str) -> bool {
        matches!(self, A(x) if &**x == s)
    }
    pub fn atom(&self) -> Option<&str> {
        match self {
            A(s) => Some(s),
            _ => None,
        }
    }
    pub fn list(&self) -> Option<&[E]> {
        match self {
            L(v) => Some(v),
            _ => None,
        }
    }
    pub fn head(&self) -> Option<&str> {
        self.list().and_then(|v| v.first()).and_then(|h| h.atom())
    }
    pub fn is_app(&self, op: &str) -> bool {
        self.head() == Some(op)
    }
    pub fn args(&self) -> &[E] {
        match self {
            L(v) if !v.is_empty() => &v[1..],
            _ => &[],
        }
    }
    pub fn size(&self) -> usize {
        match self {
            A(_) => 1,
            L(v) => 1 + v.iter().map(E::size).sum::<usize>(),
        }
    }
    /// All positions (paths) in preorder.
    pub fn get(&self, path: &[usize]) -> &E {
        let mut e = self;
        for &i in path {
            e = &e.list().unwrap()[i];
        }
        e
    }
    pub fn set(&mut self, path: &[usize], new: E) {
        if path.is_empty() {
            *self = new;
            return;
        }
        if let L(v) = self {
            v[path[0]].set(&path[1..], new);
        }
    }
    pub fn paths(&self) -> Vec<Vec<usize>> {
        fn go(e: &E, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
            out.push(cur.clone());
            if let L(v) = e {
                for (i, c) in v.iter().enumerate() {
                    cur.push(i);
                    go(c, cur, out);
                    cur.pop();
                }
            }
        }
        let mut out = Vec::new();
        go(self, &mut Vec::new(), &mut out);
        out
    }
    /// Replace every occurrence of atom `from` (purely textual).
    pub fn replace_atom(&self, from: &str, to: &E) -> E {
        match self {
            A(s) if &**s == from => to.clone(),
            A(_) => self.clone(),
            L(v) => L(v.iter().map(|e| e.replace_atom(from, to)).collect()),
        }
    }
    pub fn replace(&self, from: &E, to: &E) -> E {
        if self == from {
            return to.clone();
        }
        match self {
            A(_) => self.clone(),
            L(v) => L(v.iter().map(|e| e.replace(from, to)).collect()),
        }
    }
    pub fn contains(&self, x: &E) -> bool {
        self == x || matches!(self, L(v) if v.iter().any(|e| e.contains(x)))
    }
    pub fn contains_atom(&self, x: &str) -> bool {
        match self {
            A(s) => &**s == x,
            L(v) => v.iter().any(|e| e.contains_atom(x)),
        }
    }
}

/// Parses a sequence of S-expressions. Strings and quoted symbols are single atoms, kept verbatim.
pub fn parse_all(s: &str) -> Result<Vec<E>, String> {
    let cs: Vec<char> = s.chars().collect();
    let mut stack: Vec<Vec<E>> = vec![Vec::new()];
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if c.is_whitespace() {
            i += 1;
        } else if c == ';' {
            while i < cs.len() && cs[i] != '\n' {
                i += 1;
            }
        } else if c == '(' {
            stack.push(Vec::new());
            i += 1;
        } else if c == ')' {
            let v = stack.pop().unwrap();
            if stack.is_empty() {
                return Err("unbalanced )".into());
            }
            stack.last_mut().unwrap().push(L(v));
            i += 1;
        } else if c == '"' {
            let st = i;
            i += 1;
            loop {
                if i >= cs.len() {
                    return Err("eof in string".into());
                }
                if cs[i] == '"' {
                    if i + 1 < cs.len() && cs[i + 1] == '"' {
                        i += 2;
                        continue;
                    }
                    i += 1;
                    break;
                }
                i += 1;
            }
            let t: String = cs[st..i].iter().collect();
            stack.last_mut().unwrap().push(a(t));
        } else if c == '|' {
            let st = i;
            i += 1;
            while i < cs.len() && cs[i] != '|' {
                i += 1;
            }
            if i >= cs.len() {
                return Err("eof in quoted symbol".into());
            }
            i += 1;
            let t: String = cs[st..i].iter().collect();
            stack.last_mut().unwrap().push(a(t));
        } else {
            let st = i;
            while i < cs.len() && !cs[i].is_whitespace() && !"();\"|".contains(cs[i]) {
                i += 1;
            }
            let t: String = cs[st..i].iter().collect();
            stack.last_mut().unwrap().push(a(t));
        }
    }
    if stack.len() != 1 {
        return Err("unbalanced (".into());
    }
    Ok(stack.pop().unwrap())
}
pub fn parse(s: &str) -> E {
    let mut v = parse_all(s).unwrap_or_else(|e| panic!("harness sexp parse error {e}: {s}"));
    assert!(v.len() == 1, "one sexp expected: {s}");
    v.pop().unwrap()
}
