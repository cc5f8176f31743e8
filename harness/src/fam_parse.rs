//! C19: every token, literal and term is read with its SMT-LIB (or Alethe) meaning.
use crate::carc::{guard, Opts};
use crate::eval::{models, Ev, S};
use crate::fam_print::{diff, parse_in};
use crate::fam_term::{gen_term, rich, viol as tviol};
use crate::g::{hash_str, G};
use crate::libt::*;
use crate::runner::{Case, Viol};
use crate::sexp::*;
use crate::terms::*;
use crate::{fam_sort, prf, whole, wild};
use carcara::ast::PrimitivePool;
use carcara::parser::{Lexer, Token};
use rug::{Integer, Rational};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tok {
    Open,
    Close,
    /// symbol, with "must be quoted"
    Sym(String),
    Res(String),
    Kw(String),
    Num(Integer),
    Dec(Rational),
    Bv(Integer, usize),
    Str(Vec<char>),
}
use Tok::*;

const RESERVED: &[&str] = &[
    "_", "!", "as", "let", "exists", "forall", "match", "choice", "lambda", "cl", "assume", "step", "anchor", "declare-fun", "declare-const", "declare-sort", "define-fun", "define-fun-rec", "define-funs-rec", "define-sort",
    "assert", "check-sat-assuming", "set-logic", "declare-rare-rule",
];
fn symc(c: char) -> bool {
    c.is_ascii_alphanumeric() || "+-/*=%?!.$_~&^<>@'".contains(c)
}
fn is_simple(s: &str) -> bool {
    let b: Vec<char> = s.chars().collect();
    !b.is_empty() && b.iter().all(|c| symc(*c)) && !b[0].is_ascii_digit() && !(b[0] == '-' && b.len() > 1 && b[1].is_ascii_digit()) && !RESERVED.contains(&s)
}

#[derive(Debug, PartialEq)]
pub enum RefErr {
    /// no SMT-LIB or Alethe token
    Bad,
    /// not settled by the standard or the documentation
    Open,
}
/// Reference tokenizer.
pub fn reference(text: &str) -> Result<Vec<Tok>, RefErr> {
    let cs: Vec<char> = text.chars().collect();
    let mut i = 0;
    let mut o = vec![];
    let at = |i: usize| cs.get(i).copied();
    while i < cs.len() {
        let c = cs[i];
        match c {
            ' ' | '\t' | '\n' | '\r' => i += 1,
            ';' => {
                while i < cs.len() && cs[i] != '\n' {
                    i += 1;
                }
            }
            '(' => {
                o.push(Open);
                i += 1;
            }
            ')' => {
                o.push(Close);
                i += 1;
            }
            '|' => {
                let mut s = String::new();
                i += 1;
                loop {
                    match at(i) {
                        None | Some('\\') => return Err(RefErr::Bad),
                        Some('|') => break,
                        Some(c) => s.push(c),
                    }
                    i += 1;
                }
                i += 1;
                o.push(Sym(s));
            }
            '"' => {
                // the text between the quotes first, the escapes of that text afterwards
                let mut raw = vec![];
                i += 1;
                loop {
                    match at(i) {
                        None => return Err(RefErr::Bad),
                        Some('"') if at(i + 1) == Some('"') => {
                            raw.push('"');
                            i += 2;
                        }
                        Some('"') => break,
                        Some(c) => {
                            raw.push(c);
                            i += 1;
                        }
                    }
                }
                i += 1;
                o.push(Str(unescape(&raw)?));
            }
            ':' => {
                let st = i + 1;
                i += 1;
                while i < cs.len() && symc(cs[i]) {
                    i += 1;
                }
                if st == i {
                    return Err(RefErr::Open);
                }
                o.push(Kw(cs[st..i].iter().collect()));
            }
            '#' => {
                let (radix, bits) = match at(i + 1) {
                    Some('b') => (2, 1),
                    Some('x') => (16, 4),
                    _ => return Err(RefErr::Bad),
                };
                let st = i + 2;
                i += 2;
                while i < cs.len() && cs[i].is_digit(radix) {
                    i += 1;
                }
                if st == i {
                    return Err(RefErr::Bad);
                }
                if i < cs.len() && symc(cs[i]) {
                    return Err(RefErr::Open);
                }
                let mut v = Integer::new();
                for d in &cs[st..i] {
                    v = v * radix + d.to_digit(radix).unwrap();
                }
                o.push(Bv(v, (i - st) * bits));
            }
            _ if c.is_ascii_digit() || (c == '-' && at(i + 1).is_some_and(|c| c.is_ascii_digit())) => {
                let neg = c == '-';
                if neg {
                    i += 1;
                }
                let digits = |i: &mut usize| {
                    let st = *i;
                    let mut v = Integer::new();
                    while *i < cs.len() && cs[*i].is_ascii_digit() {
                        v = v * 10 + cs[*i].to_digit(10).unwrap();
                        *i += 1;
                    }
                    (v, *i - st, cs[st.min(cs.len() - 1)] == '0')
                };
                let (n, len, zero) = digits(&mut i);
                if len > 1 && zero {
                    return Err(RefErr::Bad);
                }
                let sign = |r: Rational| if neg { -r } else { r };
                match at(i) {
                    Some('.') => {
                        i += 1;
                        let (f, k, _) = digits(&mut i);
                        if matches!(at(i), Some('.' | '/')) {
                            return Err(RefErr::Bad);
                        }
                        if k == 0 {
                            return Err(RefErr::Open);
                        }
                        let ten = Integer::from(Integer::u_pow_u(10, k as u32));
                        o.push(Dec(sign(Rational::from((n * &ten + f, ten)))));
                    }
                    Some('/') => {
                        i += 1;
                        let (d, k, zero) = digits(&mut i);
                        if matches!(at(i), Some('.' | '/')) || k == 0 || d == 0 {
                            return Err(RefErr::Bad);
                        }
                        if zero {
                            return Err(RefErr::Open);
                        }
                        o.push(Dec(sign(Rational::from((n, d)))));
                    }
                    _ => o.push(Num(if neg { -n } else { n })),
                }
                if at(i).is_some_and(symc) {
                    return Err(RefErr::Open);
                }
            }
            _ if symc(c) => {
                let st = i;
                while i < cs.len() && symc(cs[i]) {
                    i += 1;
                }
                let s: String = cs[st..i].iter().collect();
                o.push(if RESERVED.contains(&s.as_str()) { Res(s) } else { Sym(s) });
            }
            _ if c.is_whitespace() => return Err(RefErr::Open),
            _ => return Err(RefErr::Bad),
        }
    }
    Ok(o)
}
fn unescape(raw: &[char]) -> Result<Vec<char>, RefErr> {
    let mut o = vec![];
    let mut i = 0;
    while i < raw.len() {
        if raw[i] == '\\' && raw.get(i + 1) == Some(&'u') {
            let rest = &raw[i + 2..];
            let n = rest.iter().take_while(|c| c.is_ascii_hexdigit()).count();
            let braced = if rest.first() == Some(&'{') { rest[1..].iter().take_while(|c| c.is_ascii_hexdigit()).count() } else { 0 };
            let (hex, len) = if (1..=5).contains(&braced) && rest.get(braced + 1) == Some(&'}') {
                (Some(&rest[1..braced + 1]), braced + 4)
            } else if n >= 4 {
                (Some(&rest[..4]), 6)
            } else {
                (None, 0)
            };
            if let Some(h) = hex {
                let v = h.iter().fold(0u32, |v, c| v * 16 + c.to_digit(16).unwrap());
                if v <= 0x2FFFF {
                    match char::from_u32(v) {
                        Some(c) => o.push(c),
                        None => return Err(RefErr::Open),
                    }
                    i += len;
                    continue;
                }
            }
        }
        o.push(raw[i]);
        i += 1;
    }
    Ok(o)
}
fn of_token(t: Token) -> Option<Tok> {
    Some(match t {
        Token::OpenParen => Open,
        Token::CloseParen => Close,
        Token::Symbol(s) => Sym(s),
        Token::Keyword(s) => Kw(s),
        Token::Numeral(n) => Num(n),
        Token::Decimal(r) => Dec(r),
        Token::Bitvector { value, width } => Bv(value, width),
        Token::String(s) => Str(s.chars().collect()),
        Token::ReservedWord(r) => Res(r.to_string()),
        Token::Eof => return None,
    })
}
fn lex(text: &str) -> Result<Result<Vec<Tok>, String>, crate::carc::PanicInfo> {
    guard(|| {
        let mut l = Lexer::new(text.as_bytes()).map_err(|e| e.to_string())?;
        let mut o = vec![];
        loop {
            let t = l.next_token().map_err(|e| e.to_string())?.0;
            match of_token(t) {
                Some(t) => o.push(t),
                None => return Ok(o),
            }
        }
    })
}

// ---- spellings
fn radix(v: &Integer, bits: u32) -> String {
    let mut o = vec![];
    let mut i = 0;
    while (v.clone() >> i) != 0 {
        let d = (0..bits).fold(0u32, |d, k| d | (v.get_bit(i + k) as u32) << k);
        o.push(char::from_digit(d, 16).unwrap());
        i += bits;
    }
    o.into_iter().rev().collect()
}
fn digits(g: &mut G, n: usize) -> String {
    let mut s = String::new();
    for i in 0..n {
        let d = if i == 0 && n > 1 { 1 + g.u(9) } else { g.u(10) };
        s.push((b'0' + d as u8) as char);
    }
    s
}
fn any_char(g: &mut G) -> char {
    match g.u(14) {
        0 => '"',
        1 => '\\',
        2 => 'u',
        3 => *g.pick(&['{', '}', '|', ';', '(', ')', '\'', '#', ':']),
        4 => *g.pick(&['\n', '\t', ' ', '\r']),
        5 => char::from_u32(g.below(0x80) as u32).unwrap(),
        6 => char::from_u32(0x80 + g.below(0x7ff) as u32).unwrap(),
        7 => char::from_u32(0x10000 + g.below(0x1ffff) as u32).unwrap(),
        8 => *g.pick(&['\0', '\u{7f}', '\u{2ffff}', '\u{ffff}', '\u{d7ff}', '\u{e000}', 'é', '\u{85}', '\u{a0}', '\u{2028}']),
        9 => (b'0' + g.u(10) as u8) as char,
        _ => (b'a' + g.u(26) as u8) as char,
    }
}
fn any_sym(g: &mut G) -> String {
    match g.u(8) {
        0 => g.pick_s(RESERVED).into(),
        1 => unquote(g.pick_s(wild::WEIRD)).to_string(),
        2 => g.pick_s(&["-", "--5", "+5", "-a", "-.5", "<=", "=", "true", "a.b", "x'", ".1", "/", "*", "~", "&^", "@x", "par", "bv5", "_x", "!x", "as_", "let'", "$", "%"]).into(),
        3 => {
            let n = g.u(6);
            (0..n).map(|_| any_char(g)).filter(|c| *c != '|' && *c != '\\').collect()
        }
        4 => digits(g, 2),
        _ => {
            let cs: Vec<char> = "abxyzABZ019+-/*=%?!.$_~&^<>@".chars().collect();
            let n = g.ur(1, 6);
            (0..n).map(|_| *g.pick(&cs)).collect()
        }
    }
}
fn unquote(s: &str) -> &str {
    crate::eval::unquote_sym(s)
}
fn any_tok(g: &mut G) -> Tok {
    match g.u(12) {
        0 => Open,
        1 => Close,
        2 | 3 => Sym(any_sym(g)),
        4 => Res(g.pick_s(RESERVED).into()),
        5 => {
            let cs: Vec<char> = "abxyzABZ019+-/*=%?!.$_~&^<>@".chars().collect();
            let n = g.ur(1, 5);
            Kw((0..n).map(|_| *g.pick(&cs)).collect())
        }
        6 => {
            let n = if g.chance(1, 6) { g.ur(10, 50) } else { g.ur(1, 4) };
            let v: Integer = digits(g, n).parse().unwrap();
            Num(if g.chance(1, 4) { -v } else { v })
        }
        7 | 8 => {
            let n = if g.chance(1, 6) { g.ur(10, 40) } else { g.ur(1, 3) };
            let v: Integer = digits(g, n).parse().unwrap();
            let d = if g.bool() {
                let k = g.ur(1, 12) as u32;
                Integer::from(Integer::u_pow_u(10, k))
            } else {
                Integer::from(1 + g.below(1000))
            };
            let r = Rational::from((v, d));
            Dec(if g.chance(1, 4) { -r } else { r })
        }
        9 | 10 => {
            let w = if g.chance(1, 6) { g.ur(20, 140) } else { g.ur(1, 12) };
            let w = if g.bool() { w.div_ceil(4) * 4 } else { w };
            let mut v = Integer::new();
            for _ in 0..w {
                v = v * 2 + g.u(2) as u32;
            }
            Bv(v, w)
        }
        _ => {
            let n = g.u(8);
            Str((0..n).map(|_| any_char(g)).collect())
        }
    }
}
/// One spelling of the token.
fn spell_tok(g: &mut G, t: &Tok) -> String {
    match t {
        Open => "(".into(),
        Close => ")".into(),
        Sym(s) => {
            if is_simple(s) && !g.chance(1, 4) {
                s.clone()
            } else {
                format!("|{s}|")
            }
        }
        Res(s) => s.clone(),
        Kw(s) => format!(":{s}"),
        Num(n) => n.to_string(),
        Dec(r) => {
            let sign = if *r < 0 || (*r == 0 && g.chance(1, 8)) { "-" } else { "" };
            let (n, d) = (r.numer().clone().abs(), r.denom().clone());
            // a finite decimal expansion, if there is a short one
            let mut k = 0u32;
            let mut p = Integer::from(1);
            while k <= 40 && !p.is_divisible(&d) {
                p *= 10;
                k += 1;
            }
            let dec = p.is_divisible(&d);
            if dec && !g.chance(1, 4) {
                let v: Integer = n * (p / d);
                let s = format!("{:0>w$}", v.to_string(), w = k as usize + 1);
                let (i, f) = s.split_at(s.len() - k as usize);
                let min = if f.is_empty() { 1 } else { 0 };
                let z = if g.chance(1, 2) { min } else { g.ur(min, 4) };
                format!("{sign}{i}.{f}{}", "0".repeat(z))
            } else {
                let m = if g.bool() { 1 } else { 1 + g.below(30) };
                format!("{sign}{}/{}", Integer::from(&n * m), Integer::from(&d * m))
            }
        }
        Bv(v, w) => {
            if w % 4 == 0 && g.bool() {
                let mut s = format!("{:0>w$}", radix(v, 4), w = w / 4);
                match g.u(3) {
                    0 => s = s.to_uppercase(),
                    1 => s = s.chars().map(|c| if g.bool() { c.to_ascii_uppercase() } else { c }).collect(),
                    _ => (),
                }
                format!("#x{s}")
            } else {
                format!("#b{:0>w$}", radix(v, 1), w = *w)
            }
        }
        Str(cs) => {
            let mut o = String::from("\"");
            for (i, c) in cs.iter().enumerate() {
                let code = *c as u32;
                let esc = match c {
                    // a plain backslash must not start an escape sequence
                    '\\' => cs.get(i + 1) == Some(&'u') || g.bool(),
                    '\n' | '\t' | '\r' | ' '..='~' => g.chance(1, 6),
                    _ if code < 0x20 => true,
                    _ => g.bool(),
                };
                if !esc {
                    if *c == '"' {
                        o.push('"');
                    }
                    o.push(*c);
                } else if code <= 0xffff && g.bool() {
                    let h = format!("{code:04x}");
                    o.push_str(&format!("\\u{}", if g.bool() { h.to_uppercase() } else { h }));
                } else {
                    let h = format!("{code:x}");
                    let z = g.u(6usize.saturating_sub(h.len()));
                    o.push_str(&format!("\\u{{{}{}}}", "0".repeat(z), if g.bool() { h.to_uppercase() } else { h }));
                }
            }
            o.push('"');
            o
        }
    }
}
fn separator(g: &mut G, need: bool) -> String {
    let lo = if need { 1 } else { 0 };
    let n = match g.u(4) {
        0 | 1 => lo,
        _ => g.ur(lo, 3),
    };
    let mut o = String::new();
    for _ in 0..n {
        match g.u(8) {
            0 => o.push('\n'),
            1 => o.push('\t'),
            2 => o.push_str("\r\n"),
            3 => {
                o.push(';');
                for _ in 0..g.u(5) {
                    let c = any_char(g);
                    if c != '\n' && c != '\r' && c as u32 >= 0x20 {
                        o.push(c);
                    }
                }
                o.push('\n');
            }
            _ => o.push(' '),
        }
    }
    o
}
/// One spelling of the sequence of tokens.
pub fn spell(g: &mut G, toks: &[Tok]) -> String {
    let mut o = separator(g, false);
    let mut prev: Option<(bool, bool)> = None; // (is a parenthesis, ends with a quote)
    for t in toks {
        let s = spell_tok(g, t);
        let paren = matches!(t, Open | Close);
        let quoted = s.starts_with('"') || s.starts_with('|');
        if let Some((p, q)) = prev {
            // `"a""b"` would be one literal
            let need = !(p || paren || (q && !quoted));
            o.push_str(&separator(g, need));
        }
        prev = Some((paren, quoted));
        o.push_str(&s);
    }
    o.push_str(&separator(g, false));
    if g.chance(1, 10) {
        o.push_str("; no newline");
    }
    o
}
fn viol(sig: &str, msg: String, text: &str) -> Option<Viol> {
    Some(Viol { sig: sig.into(), msg, files: vec![("text.txt".into(), text.to_string())] })
}

/// sequences of tokens with known values, spelled in random ways
pub fn tokens(g: &mut G) -> Case {
    let n = g.ur(1, 6);
    let toks: Vec<Tok> = (0..n).map(|_| any_tok(g)).collect();
    let text = spell(g, &toks);
    let mut c = Case { key: hash_str(&text), sample: text.clone(), nontrivial: true, ..Case::default() };
    for t in &toks {
        c.label(format!("{t:?}").split('(').next().unwrap().to_string());
    }
    // the harness's own reading must agree, or the spelling is wrong
    match reference(&text) {
        Ok(t) if t == toks => (),
        x => panic!("harness spelling: {toks:?} {text:?} {x:?}"),
    }
    match lex(&text) {
        Err(p) => c.viol = viol("panic", format!("the lexer panics: {p:?}"), &text),
        Ok(Err(e)) => c.viol = viol("error", format!("the lexer rejects the spelling of {toks:?}: {e}"), &text),
        Ok(Ok(t)) if t != toks => {
            let i = t.iter().zip(&toks).position(|(x, y)| x != y).unwrap_or(t.len().min(toks.len()));
            c.viol = viol("token", format!("token {i} of {text:?} is {:?} but should be {:?}", t.get(i), toks.get(i)), &text);
        }
        _ => (),
    }
    c
}
/// any text: the reference tokenizer and the lexer agree
pub fn garbage(g: &mut G) -> Case {
    let mut text = if g.bool() {
        let n = g.ur(1, 4);
        let toks: Vec<Tok> = (0..n).map(|_| any_tok(g)).collect();
        spell(g, &toks)
    } else {
        let n = g.ur(1, 4);
        let v: Vec<&str> = (0..n)
            .map(|_| {
                g.pick_s(&[
                    "#b", "#x", "#B0", "#b2", "#b01", "#xfG", "#xFf", "#", "#o7", "0", "00", "01", "-0", "-01", "-1", "--1", "1.", "1.0", "1.5.2", "1/2", "1/2/3", "1/0", "-1/2", "1/-2", "1/", ".5", "0.5", "00.5", "0/5", "1.5/2", "\"", "\"\"",
                    "\"\"\"", "\"a\"\"b\"", "\"a\" \"b\"", "\"\\u{41}\"", "\"\\u{}\"", "\"\\u{110000}\"", "\"\\u{30000}\"", "\"\\u{2FFFF}\"", "\"\\u{000041}\"", "\"\\u{00041}\"", "\"\\u{g}\"", "\"\\u0041\"", "\"\\u004\"", "\"\\u00411\"",
                    "\"\\U0041\"", "\"\\x41\"", "\"\\\\u0041\"", "\"\\u{4", "\"\\u{41\"", "\"\\u", "\"\\u\"\"41\"", "\"\\u{4\"\"1}\"", "\"\\\"", "|a|", "|a b|", "||", "|", "|a\\|", "|a\nb|", "|;|", "|\"|", "a|b|", "a\"b\"", "a;b", ";", "\n",
                    " ", "(", ")", ":a", ":", ": a", ":a:b", ":1", ":|a|", "a:b", "let", "|let|", "let|", "_", "!", "as", "a'b", "'", "[", "]", "{", "}", ",", "`", "\\", "é", "a\u{a0}b", "\u{0}", "\r", "\t", "+", "-", "-a", "a-1", "x.y", "@a", "cl",
                ])
            })
            .collect();
        let sep = g.pick_s(&["", "", " ", "\n"]);
        v.join(sep)
    };
    let k = g.u(3);
    for _ in 0..k {
        let mut cs: Vec<char> = text.chars().collect();
        if cs.is_empty() {
            break;
        }
        let i = g.u(cs.len());
        match g.u(4) {
            0 => {
                cs.remove(i);
            }
            1 => cs.insert(i, any_char(g)),
            2 => cs[i] = any_char(g),
            _ => {
                let j = g.u(cs.len());
                let x = cs[j];
                cs.insert(i, x);
            }
        }
        text = cs.into_iter().collect();
    }
    let mut c = Case { key: hash_str(&text), sample: text.clone(), ..Case::default() };
    let want = reference(&text);
    let got = match lex(&text) {
        Ok(x) => x,
        Err(p) => {
            c.viol = viol("panic", format!("the lexer panics: {p:?}"), &text);
            return c;
        }
    };
    match (want, got) {
        (Err(RefErr::Open), _) => c.label("not settled"),
        (Err(RefErr::Bad), Err(_)) => {
            c.nontrivial = true;
            c.label("rejected");
        }
        (Err(RefErr::Bad), Ok(t)) => c.viol = viol("accepts", format!("the lexer reads {text:?} as {t:?}, but it contains something that is no token"), &text),
        (Ok(t), Err(e)) => c.viol = viol("rejects", format!("the lexer rejects {text:?}: {e}, but it is {t:?}"), &text),
        (Ok(w), Ok(t)) => {
            c.nontrivial = true;
            c.label("read");
            if w != t {
                c.viol = viol("token", format!("{text:?} is read as {t:?} but is {w:?}"), &text);
            }
        }
    }
    c
}

// ---- terms
/// literals with unusual spellings
fn odd_literal(g: &mut G, s: &S) -> Option<E> {
    let t = match s {
        S::Int => {
            let n = g.ur(1, 25);
            let v: Integer = digits(g, n).parse().unwrap();
            Num(if g.chance(1, 3) { -v } else { v })
        }
        S::Real => loop {
            if let t @ Dec(_) = any_tok(g) {
                break t;
            }
        },
        S::BV(w) => {
            let mut v = Integer::new();
            for _ in 0..*w {
                v = v * 2 + g.u(2) as u32;
            }
            if g.chance(1, 3) {
                // the value of `(_ bvN w)` is N modulo 2^w
                let n = if g.chance(1, 3) { v + (Integer::from(1) << *w as u32) * (g.below(3) as u32) } else { v };
                return Some(L(vec![a("_"), a(format!("bv{n}")), a(w.to_string())]));
            }
            Bv(v, *w)
        }
        S::Str => {
            let n = g.u(6);
            Str((0..n).map(|_| any_char(g)).collect())
        }
        _ => return None,
    };
    Some(a(spell_tok(g, &t)))
}
/// Tree with every literal and symbol in one form, annotations dropped.
fn canon(e: &E) -> E {
    match e {
        A(s) => match reference(s) {
            Ok(v) if v.len() == 1 => match &v[0] {
                Sym(x) => a(format!("s:{x}")),
                Num(n) => a(format!("i:{n}")),
                Dec(r) => a(format!("r:{r}")),
                Bv(v, w) => a(format!("b:{v}:{w}")),
                Str(x) => a(format!("t:{x:?}")),
                Res(x) => a(format!("w:{x}")),
                x => a(format!("{x:?}")),
            },
            x => a(format!("?:{s}:{x:?}")),
        },
        L(v) if v.len() >= 2 && v[0].is("!") => canon(&v[1]),
        L(v) if v.len() == 3 && v[0].is("_") && v[1].atom().is_some_and(|s| unquote(s).strip_prefix("bv").is_some_and(|d| !d.is_empty() && d.bytes().all(|b| b.is_ascii_digit()))) => {
            let n: Integer = unquote(v[1].atom().unwrap())[2..].parse().unwrap();
            match v[2].atom().and_then(|s| s.parse::<u32>().ok()) {
                Some(w) => a(format!("b:{}:{w}", n.keep_bits(w))),
                None => L(v.iter().map(canon).collect()),
            }
        }
        L(v) => L(v.iter().map(canon).collect()),
    }
}
/// Only literals in one form.
pub fn canon_literals(e: &E) -> E {
    match e {
        A(s) if s.starts_with(|c: char| c.is_ascii_digit() || c == '#' || c == '"' || c == '-') => match reference(s) {
            Ok(v) if v.len() == 1 && !matches!(v[0], Sym(_)) => canon(e),
            _ => e.clone(),
        },
        A(_) => e.clone(),
        L(v) => L(v.iter().map(canon_literals).collect()),
    }
}
fn toks_of(text: &str) -> Vec<Tok> {
    reference(text).unwrap_or_else(|e| panic!("harness text {e:?}: {text}"))
}
const ATTRS: &[&str] = &[":pattern (x (f 1) \"a)\" |)|)", ":weight 3", ":qid |a b|", ":skolemid", ":a :b", ":x #b01", ":y \"s\"", ":z -1/2", ":info (((a) b) ())", ":r let", ":q ()", ":no-pattern x"];
/// Annotates subterms.
fn annotate(g: &mut G, e: &E, sig: &crate::eval::Sig) -> E {
    let mut e = e.clone();
    let k = g.u(4);
    for i in 0..k {
        // not inside the attributes
        let inside = |p: &[usize]| (0..p.len()).any(|k| e.get(&p[..k]).head() == Some("!") && p[k] != 1);
        let paths: Vec<Vec<usize>> = term_paths(&e, sig).into_iter().map(|x| x.0).filter(|p| !inside(p)).collect();
        if paths.is_empty() {
            break;
        }
        let p = paths[g.u(paths.len())].clone();
        let n = g.ur(1, 2);
        let mut v = vec![a("!"), e.get(&p).clone()];
        for j in 0..n {
            let s = if g.chance(1, 4) { format!(":named nm{i}_{j}") } else { g.pick_s(ATTRS).to_string() };
            v.extend(crate::sexp::parse_all(&s).unwrap());
        }
        e.set(&p, L(v));
    }
    e
}
/// one term in several spellings, and a different term
pub fn terms(g: &mut G) -> Case {
    let mut c = Case::default();
    let soup = g.chance(1, 3);
    let (prelude, sig, e) = if soup {
        let (p, mut v) = fam_sort::soup(g, &[None]);
        (p, crate::eval::Sig::default(), v.remove(0))
    } else {
        let cfg = rich(g);
        let cfg = Cfg { int: cfg.int || g.chance(1, 3), strs: cfg.strs || g.chance(1, 4), bv: cfg.bv || g.chance(1, 4), real: cfg.real || g.chance(1, 4), ..cfg };
        let d = g.ur(1, 4);
        let (mut e, _, sig) = gen_term(g, cfg, crate::eval::Sig::default(), d);
        // literals in unusual places
        let k = g.ur(0, 3);
        for _ in 0..k {
            let ps: Vec<_> = term_paths(&e, &sig).into_iter().filter(|x| matches!(x.1, Some(S::Int | S::Real | S::Str | S::BV(_)))).collect();
            if ps.is_empty() {
                break;
            }
            let (p, s, _) = ps[g.u(ps.len())].clone();
            if let Some(l) = odd_literal(g, &s.unwrap()) {
                e.set(&p, l);
            }
        }
        (sig.prelude(), sig, e)
    };
    let base = e.to_string();
    let e1 = if soup { e.clone() } else { annotate(g, &e, &sig) };
    let t1 = toks_of(&e1.to_string());
    let text1 = spell(g, &t1);
    let other = {
        let m = if soup { respell_wrong(g, &t1) } else { mutate(g, &e, &sig, &[]) };
        m
    };
    c.key = hash_str(&format!("{prelude}{text1}"));
    c.sample = text1.chars().take(300).collect();
    let files = |x: &[(&str, String)]| tviol("", String::new(), &sig, x).files;
    let mk = |sig: &str, msg: String| Some(Viol { sig: sig.into(), msg, files: {
        let mut f = files(&[("plain", base.clone()), ("spelled", text1.clone()), ("other", other.to_string())]);
        f.push(("prelude.smt2".into(), prelude.clone()));
        f
    } });
    let mut pool = PrimitivePool::new();
    let one = |pool: &mut PrimitivePool, t: &str| guard(|| parse_terms_in(pool, &prelude, config(), &[t.to_string()]));
    let x = match one(&mut pool, &base) {
        Ok(Ok((_, mut v))) => v.remove(0),
        Ok(Err(e)) => {
            c.label("does not parse");
            if std::env::var("VERIF_SHOW").is_ok() {
                eprintln!("{e}\n{base}");
            }
            // the spelling must be rejected as well
            if let Ok(Ok(_)) = one(&mut pool, &text1) {
                c.viol = mk("spelling accepted", format!("{base} does not parse ({e}), but this spelling of it does: {text1}"));
            }
            return c;
        }
        Err(p) => {
            c.viol = mk("panic", format!("the parser panics: {p:?}"));
            return c;
        }
    };
    c.nontrivial = true;
    // the tree
    let (want, got) = (canon(&e), canon(&to_raw(&x)));
    if want != got {
        c.viol = mk("tree", format!("{base} is read as {}", to_raw(&x)));
        return c;
    }
    match one(&mut pool, &text1) {
        Ok(Ok((_, v))) => {
            if v[0] != x {
                c.viol = mk("spelling differs", format!("{text1} is read as {} and not as {x}", v[0]));
                return c;
            }
        }
        Ok(Err(e)) => {
            c.viol = mk("spelling rejected", format!("{base} parses, but this spelling of it does not ({e}): {text1}"));
            return c;
        }
        Err(p) => {
            c.viol = mk("panic", format!("the parser panics: {p:?}"));
            return c;
        }
    }
    // the value
    if !soup && !e1.contains_atom(":named") {
        for m in models(&sig, 2, 5) {
            let (mut a, mut b) = (Ev::new(&m), Ev::new(&m));
            if let (Some(p), Some(q)) = (a.val(&e), b.val(&to_e(&x))) {
                c.label("evaluated");
                if p != q {
                    c.viol = mk("value", format!("{base} has value {p:?} but the parsed term {x} has {q:?}"));
                    return c;
                }
            }
        }
    }
    // another term
    if let Ok(Ok((_, v))) = one(&mut pool, &other.to_string()) {
        let same = canon(&other) == want;
        c.label(if same { "other is the same" } else { "other differs" });
        if (v[0] == x) != same {
            c.viol = mk("distinct", format!("{base} and {other} {} the same term, but the parser says otherwise", if same { "are" } else { "are not" }));
        }
    }
    c
}
/// changes one literal
fn respell_wrong(g: &mut G, t: &[Tok]) -> E {
    let mut t = t.to_vec();
    let idx: Vec<usize> = (0..t.len()).filter(|i| matches!(t[*i], Num(_) | Dec(_) | Bv(..) | Str(_))).collect();
    if !idx.is_empty() {
        let i = idx[g.u(idx.len())];
        t[i] = match &t[i] {
            Num(n) => Num(match g.u(3) {
                0 => n.clone() + 1,
                1 => -n.clone(),
                _ => n.clone() * 10,
            }),
            Dec(r) => Dec(match g.u(3) {
                0 => r.clone() / 10,
                1 => -r.clone(),
                _ => r.clone() + 1,
            }),
            Bv(v, w) => {
                if g.bool() {
                    Bv(v.clone(), w + 1)
                } else {
                    Bv((v.clone() + 1u32).keep_bits(*w as u32), *w)
                }
            }
            Str(s) => {
                let mut s = s.clone();
                if s.is_empty() || g.bool() {
                    s.push(any_char(g));
                } else {
                    s.pop();
                }
                Str(s)
            }
            x => x.clone(),
        };
    }
    let s: Vec<String> = t.iter().map(|t| spell_tok(g, t)).collect();
    parse(&s.join(" "))
}

/// whole problems and proofs: the same ones in another spelling
pub fn texts(g: &mut G) -> Case {
    let (problem, proof) = match g.u(3) {
        0 => wild::texts(g),
        1 => {
            let p = whole::any(g);
            wild::dress(g, &p)
        }
        _ => {
            let p = whole::any(g);
            (p.problem(), prf::print(&p.cmds))
        }
    };
    let o = Opts { subtyping: g.chance(1, 6), hole_args: g.bool(), strict: g.chance(1, 5), apply_defs: g.bool(), ..Opts::default() };
    let mut c = Case { key: hash_str(&format!("{problem}{proof}{o:?}")), sample: proof.chars().take(300).collect(), ..Case::default() };
    let (Ok(tp), Ok(tq)) = (reference(&problem), reference(&proof)) else {
        c.label("not settled");
        return c;
    };
    let tp = dress_problem(g, tp);
    let tq = dress_proof(g, tq);
    let (problem2, proof2) = (spell(g, &tp), spell(g, &tq));
    let mut pool = PrimitivePool::new();
    let x = guard(|| parse_in(&mut pool, o.parser(), &problem, &proof));
    let y = guard(|| parse_in(&mut pool, o.parser(), &problem2, &proof2));
    let mk = |sig: &str, msg: String| {
        Some(Viol { sig: sig.into(), msg, files: vec![("problem.smt2".into(), problem.clone()), ("proof.alethe".into(), proof.clone()), ("problem2.smt2".into(), problem2.clone()), ("proof2.alethe".into(), proof2.clone())] })
    };
    match (x, y) {
        (Err(p), _) | (_, Err(p)) => c.viol = mk("panic", format!("the parser panics: {p:?}")),
        (Ok(Err(_)), Ok(Err(_))) => c.label("does not parse"),
        (Ok(Ok(_)), Ok(Err(e))) => c.viol = mk("respelled rejected", format!("the respelled texts do not parse: {e}")),
        (Ok(Err(e)), Ok(Ok(_))) => c.viol = mk("original rejected", format!("only the respelled texts parse: {e}")),
        (Ok(Ok((pb, pf))), Ok(Ok((pb2, pf2)))) => {
            c.nontrivial = true;
            c.label("parsed");
            if let Some(d) = diff(&pf.commands, &pf2.commands) {
                c.viol = mk("proof differs", format!("the respelled proof is a different one: {d}"));
            } else if pf.constant_definitions != pf2.constant_definitions {
                c.viol = mk("definitions differ", "the constant definitions of the respelled proof differ".into());
            } else if pb.premises != pb2.premises {
                c.viol = mk("premises differ", format!("the premises of the respelled problem differ: {:?} {:?}", pb.premises.iter().map(|t| t.to_string()).collect::<Vec<_>>(), pb2.premises.iter().map(|t| t.to_string()).collect::<Vec<_>>()));
            } else if format!("{}", pb.prelude) != format!("{}", pb2.prelude) {
                c.viol = mk("prelude differs", format!("the preludes differ:\n{}\n{}", pb.prelude, pb2.prelude));
            }
        }
    }
    c
}
fn lexed(s: &str) -> Vec<Tok> {
    toks_of(s)
}
/// other ways to write the same problem
fn dress_problem(g: &mut G, t: Vec<Tok>) -> Vec<Tok> {
    let mut o = vec![];
    let mut depth = 0;
    let mut i = 0;
    while i < t.len() {
        if depth == 0 && g.chance(1, 6) {
            let s = g.pick_s(&[
                "(set-info :status unsat)", "(set-option :produce-proofs true)", "(check-sat)", "(set-info :source |a ) b|)", "(get-proof)", "(echo \"(assert false)\")", "(get-unsat-core)", "(set-info :x (assert (false)))", "(exit)",
                "(get-value ((f 1) x))", "(get-info :all-statistics)", "(minimize x)",
            ]);
            o.extend(lexed(s));
        }
        match &t[i] {
            Open => {
                depth += 1;
                // nullary functions can be declared as constants
                if depth == 1 && t.get(i + 1) == Some(&Res("declare-fun".into())) && t.get(i + 3) == Some(&Open) && t.get(i + 4) == Some(&Close) && g.bool() {
                    o.extend([Open, Res("declare-const".into()), t[i + 2].clone()]);
                    i += 5;
                    continue;
                }
            }
            Close => depth -= 1,
            _ => (),
        }
        o.push(t[i].clone());
        i += 1;
    }
    o
}
/// other ways to write the same proof
fn dress_proof(g: &mut G, t: Vec<Tok>) -> Vec<Tok> {
    let mut o = vec![];
    let mut depth = 0;
    let mut head = None;
    for (i, x) in t.iter().enumerate() {
        match x {
            Open => {
                depth += 1;
                if depth == 1 {
                    head = t.get(i + 1).cloned();
                }
            }
            Close => {
                depth -= 1;
                if depth == 0 && matches!(&head, Some(Res(h)) if h == "step" || h == "assume") && g.chance(1, 5) {
                    for _ in 0..g.ur(1, 2) {
                        let a = g.pick_s(ATTRS);
                        o.extend(lexed(a));
                    }
                }
            }
            _ => (),
        }
        o.push(x.clone());
    }
    if g.chance(1, 8) {
        o.insert(0, Open);
        o.push(Close);
    }
    if g.chance(1, 8) {
        o.insert(0, Sym("unsat".into()));
    }
    o
}

fn gcd(a: u32, b: u32) -> u32 {
    if b == 0 { a } else { gcd(b, a % b) }
}
/// in logics with reals only, integer literals of the problem are reals
pub fn logics(g: &mut G) -> Case {
    let (l, real) = *g.pick(&[
        ("QF_LRA", true), ("LRA", true), ("QF_UFLRA", true), ("NRA", true), ("QF_NRA", true), ("QF_RDL", true), ("AUFLRA", true), ("UFLRA", true), ("QF_LIA", false), ("QF_LIRA", false), ("AUFLIRA", false), ("AUFNIRA", false),
        ("ALL", false), ("HORN", false), ("QF_UF", false), ("", false), ("QF_IDL", false), ("UFNRA", true), ("QF_AUFLIA", false), ("NIA", false), ("QF_ABV", false),
    ]);
    let mut c = Case { nontrivial: true, ..Case::default() };
    let d = g.ur(1, 3);
    let lit = |g: &mut G, r: bool| -> (String, String) {
        let v = g.below(30);
        if r { (v.to_string(), format!("{v}.0")) } else { (v.to_string(), v.to_string()) }
    };
    // (text with integer literals, text with explicit literals)
    fn term(g: &mut G, d: usize, real: bool, lit: &dyn Fn(&mut G, bool) -> (String, String)) -> (String, String) {
        if d == 0 {
            return match g.u(4) {
                0 => ("x".into(), "x".into()),
                1 if real => {
                    let (n, m) = (g.below(20) as u32, 1 + g.below(20) as u32);
                    // documented: a quotient of positive coprime numerals, except (/ 1 1), is a literal
                    let lit = n > 0 && gcd(n, m) == 1 && (n, m) != (1, 1);
                    (format!("(/ {n} {m})"), if lit { format!("{n}/{m}") } else { format!("(/ {n}.0 {m}.0)") })
                }
                2 if real => {
                    let n = 1 + g.below(20);
                    (format!("(f (- {n}))"), format!("(f (- {n}.0))"))
                }
                _ => lit(g, real),
            };
        }
        let op = g.pick_s(&["+", "-", "*"]);
        let (a, b) = (term(g, d - 1, real, lit), term(g, d - 1, real, lit));
        (format!("({op} {} {})", a.0, b.0), format!("({op} {} {})", a.1, b.1))
    }
    let (p, q) = (term(g, d, real, &lit), term(g, d, real, &lit));
    let s = if real { "Real" } else { "Int" };
    let head = if l.is_empty() { String::new() } else { format!("(set-logic {l})\n") };
    let decl = format!("{head}(declare-const x {s})\n(declare-fun f ({s}) {s})\n");
    let problem = format!("{decl}(assert (< {} {}))\n(assert (= (_ bv5 8) ((_ extract 7 0) #x05)))\n", p.0, q.0);
    let explicit = format!("{decl}(assert (< {} {}))\n(assert (= #x05 ((_ extract 7 0) #x05)))\n", p.1, q.1);
    // in the proof, literals are what they look like
    let (pa, qa) = (format!("(< {} {})", p.1, q.1), "(= #x05 ((_ extract 7 0) #x05))");
    let proof = format!("(assume h1 {pa})\n(assume h2 {qa})\n(step t1 (cl (= 1 1)) :rule hole)\n(step t2 (cl (= 1.0 1.0)) :rule hole)\n");
    c.key = hash_str(&problem);
    c.sample = problem.clone();
    c.label(if real { "real-only" } else { "other" });
    let cfg = Opts::default().parser();
    let mut pool = PrimitivePool::new();
    let x = guard(|| parse_in(&mut pool, cfg, &problem, &proof));
    let y = guard(|| parse_in(&mut pool, cfg, &explicit, &proof));
    let mk = |sig: &str, msg: String| Some(Viol { sig: sig.into(), msg, files: vec![("problem.smt2".into(), problem.clone()), ("explicit.smt2".into(), explicit.clone()), ("proof.alethe".into(), proof.clone())] });
    match (x, y) {
        (Ok(Ok((a, pf))), Ok(Ok((b, _)))) => {
            if a.premises != b.premises {
                c.viol = mk("premises differ", format!("in logic {l:?}, {} is read as {}", p.0, a.premises[0]));
            } else {
                for cmd in pf.commands.iter().take(2) {
                    if !a.premises.contains(&cmd.clause()[0]) {
                        c.viol = mk("proof literal", format!("{} is not the premise it is the text of", cmd.clause()[0]));
                    }
                }
                for (cmd, want) in pf.commands[2..].iter().zip(["(= 1 1)", "(= 1.0 1.0)"]) {
                    if to_raw(&cmd.clause()[0]).to_string() != want {
                        c.viol = mk("proof numeral", format!("{want} in a proof is read as {}", to_raw(&cmd.clause()[0])));
                    }
                }
            }
        }
        (x, y) => c.viol = mk("does not parse", format!("{:?} {:?}", x.map(|r| r.err()), y.map(|r| r.err()))),
    }
    c
}
