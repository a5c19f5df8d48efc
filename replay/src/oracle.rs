//! Reference definitions written from the property statements, independent of /repo's code.
use regex::Regex;
use std::cmp::Ordering;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum P {
    E(i16),
    I(i32),
    L(String),
    T(String),
    Z,
}

fn is_digit(c: char) -> bool {
    if c.is_ascii() {
        return c.is_ascii_digit();
    }
    thread_local! { static RE: Regex = Regex::new(r"^\d$").unwrap(); }
    let mut b = [0u8; 4];
    RE.with(|r| r.is_match(c.encode_utf8(&mut b)))
}

pub fn parse_epoch(s: &str) -> Option<i16> {
    let (neg, ds) = match s.chars().next() {
        Some('-') => (true, &s[1..]),
        Some('+') => (false, &s[1..]),
        _ => (false, s),
    };
    if ds.is_empty() || !ds.chars().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let mut v: i64 = 0;
    for c in ds.chars() {
        v = (v * 10 + (c as i64 - 48)).min(1_000_000);
    }
    if neg {
        v = -v;
    }
    if v < -32768 || v > 32767 {
        None
    } else {
        Some(v as i16)
    }
}

/// Components of a version text, or None when the text is malformed.
pub fn parse(text: &str) -> Option<Vec<P>> {
    let cs: Vec<char> = text.chars().collect();
    let bangs: Vec<usize> = (0..cs.len()).filter(|&i| cs[i] == '!').collect();
    let mut out = vec![];
    let rest: &[char] = match bangs.len() {
        0 => &cs,
        1 => {
            let e: String = cs[..bangs[0]].iter().collect();
            out.push(P::E(parse_epoch(&e)?));
            &cs[bangs[0] + 1..]
        }
        _ => return None,
    };
    let plus: Vec<usize> = (0..rest.len()).filter(|&i| rest[i] == '+').collect();
    let (main, local): (&[char], &[char]) = match plus.len() {
        0 => (rest, &[]),
        1 => (&rest[..plus[0]], &rest[plus[0] + 1..]),
        _ => return None,
    };
    let mut i = 0;
    while i < main.len() {
        if matches!(main[i], '.' | '-' | '_') {
            i += 1;
            continue;
        }
        let d = is_digit(main[i]);
        let mut j = i;
        while j < main.len() && !matches!(main[j], '.' | '-' | '_') && is_digit(main[j]) == d {
            j += 1;
        }
        let run = &main[i..j];
        let mut num: Option<i64> = None;
        if run.iter().all(|c| c.is_ascii_digit()) {
            let mut v: i64 = 0;
            for c in run {
                v = (v * 10 + (*c as i64 - 48)).min(10_000_000_000);
            }
            if v <= 2147483647 {
                num = Some(v);
            }
        }
        out.push(match num {
            Some(v) => P::I(v as i32),
            None => P::T(run.iter().collect()),
        });
        i = j;
    }
    if !local.is_empty() {
        out.push(P::L(local.iter().collect()));
    }
    if text.is_empty() {
        out.push(P::Z);
    }
    Some(out)
}

fn contains_ci(s: &str, w: &str) -> bool {
    let fold = |c: char| if c == '\u{17f}' { 's' } else { c.to_ascii_lowercase() };
    let s: Vec<char> = s.chars().map(fold).collect();
    let w: Vec<char> = w.chars().collect();
    s.windows(w.len()).any(|x| x == &w[..])
}

fn tcmp_ordinary(a: &str, b: &str) -> Ordering {
    if a.is_ascii() && b.is_ascii() {
        return a.to_ascii_lowercase().cmp(&b.to_ascii_lowercase());
    }
    unicase::UniCase::new(a).cmp(&unicase::UniCase::new(b))
}

pub fn text_class(s: &str) -> i32 {
    if contains_ci(s, "post") {
        3
    } else if s.is_empty() {
        2
    } else if contains_ci(s, "dev") {
        0
    } else {
        1
    }
}

pub fn text_cmp(a: &str, b: &str) -> Ordering {
    let (x, y) = (text_class(a), text_class(b));
    if x != y {
        return x.cmp(&y);
    }
    if x == 1 {
        tcmp_ordinary(a, b)
    } else {
        Ordering::Equal
    }
}

pub fn rank(p: &P) -> i32 {
    match p {
        P::E(_) => 4,
        P::I(_) => 3,
        P::L(_) => 2,
        P::T(_) => 1,
        P::Z => 0,
    }
}

pub fn part_cmp(a: &P, b: &P) -> Ordering {
    match (a, b) {
        (P::E(x), P::E(y)) => x.cmp(y),
        (P::I(x), P::I(y)) => x.cmp(y),
        (P::L(x), P::L(y)) => x.as_bytes().cmp(y.as_bytes()),
        (P::T(x), P::T(y)) => text_cmp(x, y),
        _ => rank(a).cmp(&rank(b)),
    }
}

pub fn zero(p: &P) -> P {
    match p {
        P::E(_) => P::E(0),
        P::I(_) => P::I(0),
        P::L(_) => P::L(String::new()),
        P::T(_) => P::T(String::new()),
        P::Z => P::Z,
    }
}

pub fn vcmp(a: &[P], b: &[P]) -> Ordering {
    for i in 0..a.len().max(b.len()) {
        let o = match (a.get(i), b.get(i)) {
            (Some(x), Some(y)) => part_cmp(x, y),
            (Some(x), None) => part_cmp(x, &zero(x)),
            (None, Some(y)) => part_cmp(&zero(y), y),
            _ => unreachable!(),
        };
        if o != Ordering::Equal {
            return o;
        }
    }
    Ordering::Equal
}

pub fn startswith(a: &[P], b: &[P]) -> bool {
    b.len() <= a.len() && (0..b.len()).all(|i| part_cmp(&a[i], &b[i]) == Ordering::Equal)
}

/// At each position either all three have a component or those that do share a kind.
pub fn trans_domain(a: &[P], b: &[P], c: &[P]) -> bool {
    let n = a.len().max(b.len()).max(c.len());
    (0..n).all(|i| {
        let ps: Vec<i32> = [a.get(i), b.get(i), c.get(i)].iter().flatten().map(|p| rank(p)).collect();
        ps.len() == 3 || ps.iter().all(|k| *k == ps[0])
    })
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Eq,
    Ne,
    Lt,
    Le,
    Ge,
    Gt,
    Sw,
    Nsw,
    Comp,
    Incomp,
}
pub const OPS: [Op; 10] =
    [Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Ge, Op::Gt, Op::Sw, Op::Nsw, Op::Comp, Op::Incomp];

impl Op {
    pub fn sign(self) -> &'static str {
        match self {
            Op::Eq => "==",
            Op::Ne => "!=",
            Op::Lt => "<",
            Op::Le => "<=",
            Op::Ge => ">=",
            Op::Gt => ">",
            Op::Sw => "=",
            Op::Nsw => "!=startswith",
            Op::Comp => "~=",
            Op::Incomp => "!~=",
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Op::Eq => "eq",
            Op::Ne => "ne",
            Op::Lt => "lt",
            Op::Le => "le",
            Op::Ge => "ge",
            Op::Gt => "gt",
            Op::Sw => "startswith",
            Op::Nsw => "notstartswith",
            Op::Comp => "compatible",
            Op::Incomp => "incompatible",
        }
    }
    pub fn invert(self) -> Op {
        match self {
            Op::Eq => Op::Ne,
            Op::Ne => Op::Eq,
            Op::Lt => Op::Ge,
            Op::Ge => Op::Lt,
            Op::Le => Op::Gt,
            Op::Gt => Op::Le,
            Op::Sw => Op::Nsw,
            Op::Nsw => Op::Sw,
            Op::Comp => Op::Incomp,
            Op::Incomp => Op::Comp,
        }
    }
    pub fn flip(self) -> Op {
        match self {
            Op::Lt => Op::Gt,
            Op::Gt => Op::Lt,
            Op::Le => Op::Ge,
            Op::Ge => Op::Le,
            o => o,
        }
    }
    pub fn opposite(self) -> Op {
        match self {
            Op::Lt | Op::Gt | Op::Le | Op::Ge => self.flip(),
            o => o.invert(),
        }
    }
    pub fn factor(self) -> i32 {
        match self {
            Op::Lt | Op::Le => -1,
            Op::Gt | Op::Ge => 1,
            _ => 0,
        }
    }
    pub fn ord(self) -> Option<Ordering> {
        match self {
            Op::Lt => Some(Ordering::Less),
            Op::Eq => Some(Ordering::Equal),
            Op::Gt => Some(Ordering::Greater),
            _ => None,
        }
    }
    pub fn holds(self, a: &[P], b: &[P]) -> bool {
        let o = vcmp(a, b);
        match self {
            Op::Eq => o == Ordering::Equal,
            Op::Ne => o != Ordering::Equal,
            Op::Lt => o == Ordering::Less,
            Op::Le => o != Ordering::Greater,
            Op::Gt => o == Ordering::Greater,
            Op::Ge => o != Ordering::Less,
            Op::Sw => startswith(a, b),
            Op::Nsw => !startswith(a, b),
            _ => panic!("not covered"),
        }
    }
}

#[derive(Clone, Debug)]
pub enum M {
    Always,
    Op(Op, Vec<P>),
    Re(Regex),
    Exact(String),
}

pub struct SpecCache(pub HashMap<String, Option<(M, bool)>>);

/// Meaning of a single spec text and whether it is exact; None when malformed.
pub fn spec(text: &str) -> Option<(M, bool)> {
    let cs: Vec<char> = text.chars().collect();
    let n = cs.len();
    let first = cs.first().copied();
    let last = cs.last().copied();
    if first == Some('^') || last == Some('$') {
        if first == Some('^') && last == Some('$') {
            return Regex::new(text).ok().map(|r| (M::Re(r), false));
        }
        return None;
    }
    if let Some(c) = first {
        if "=<>!~".contains(c) {
            let mut cut = if n > 1 && cs[1] == '=' { 2 } else { 1 };
            if cut == n {
                cut = 1;
            }
            let ops: String = cs[..cut].iter().collect();
            let rest = &cs[cut..];
            if rest.is_empty() || rest.iter().any(|c| c.is_whitespace()) {
                return None;
            }
            let mut op = match &ops[..] {
                "=" => Op::Sw,
                "==" => Op::Eq,
                "!=" => Op::Ne,
                "<" => Op::Lt,
                "<=" => Op::Le,
                ">" => Op::Gt,
                ">=" => Op::Ge,
                "~=" => Op::Comp,
                _ => return None,
            };
            let exact = op == Op::Eq;
            let mut rest = rest;
            if rest.len() >= 2 && rest[rest.len() - 2..] == ['.', '*'] {
                if op == Op::Comp {
                    return None;
                }
                if op == Op::Ne {
                    op = Op::Nsw;
                }
                rest = &rest[..rest.len() - 2];
            }
            let v: String = rest.iter().collect();
            return Some((M::Op(op, parse(&v)?), exact));
        }
    }
    if text == "*" {
        return Some((M::Always, false));
    }
    let stars_end = cs.iter().rev().take_while(|c| **c == '*').count();
    if cs[..n - stars_end].contains(&'*') {
        let mut rx = String::from("^(?:");
        for c in &cs {
            match c {
                '.' => rx.push_str("\\."),
                '+' => rx.push_str("\\+"),
                '*' => rx.push_str(".*"),
                c => rx.push(*c),
            }
        }
        rx.push_str(")$");
        return Regex::new(&rx).ok().map(|r| (M::Re(r), false));
    }
    if stars_end > 0 {
        let mut k = n;
        while k > 0 && (cs[k - 1] == '*' || cs[k - 1] == '.') {
            k -= 1;
        }
        let v: String = cs[..k].iter().collect();
        return Some((M::Op(Op::Sw, parse(&v)?), false));
    }
    if cs.contains(&'@') {
        return Some((M::Exact(text.to_string()), true));
    }
    Some((M::Op(Op::Eq, parse(text)?), true))
}

pub fn is_compat(m: &M) -> bool {
    matches!(m, M::Op(Op::Comp, _) | M::Op(Op::Incomp, _))
}

pub fn m_test(m: &M, vtext: &str, v: &[P]) -> bool {
    match m {
        M::Always => true,
        M::Op(o, w) => o.holds(v, w),
        M::Re(r) => r.is_match(vtext),
        M::Exact(s) => s == vtext,
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum C {
    And,
    Or,
    None,
}

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    S(String),
    N(C, Vec<T>),
}

impl T {
    pub fn eval(&self, f: &dyn Fn(&str) -> bool) -> bool {
        match self {
            T::S(s) => f(s),
            T::N(C::And, ps) => ps.iter().all(|p| p.eval(f)),
            T::N(_, ps) => ps.iter().any(|p| p.eval(f)),
        }
    }
    pub fn specs(&self, out: &mut Vec<String>) {
        match self {
            T::S(s) => out.push(s.clone()),
            T::N(_, ps) => ps.iter().for_each(|p| p.specs(out)),
        }
    }
    pub fn render(&self, nested: bool) -> Result<String, ()> {
        match self {
            T::S(s) => Ok(s.clone()),
            T::N(c, ps) => match ps.len() {
                0 => Err(()),
                1 => match &ps[0] {
                    T::S(s) => Ok(s.clone()),
                    _ => Err(()),
                },
                _ => {
                    let mut out = String::new();
                    for (i, p) in ps.iter().enumerate() {
                        if i > 0 {
                            out.push(if *c == C::And { ',' } else { '|' });
                        }
                        out.push_str(&p.render(true)?);
                    }
                    Ok(if nested { format!("({})", out) } else { out })
                }
            },
        }
    }
    /// What {:#?} or {:?} of a spec-or-tree does is only defined when every nested rendering is.
    pub fn depth(&self) -> usize {
        match self {
            T::S(_) => 1,
            T::N(_, ps) => 1 + ps.iter().map(|p| p.depth()).max().unwrap_or(0),
        }
    }
}

/// Tokens of a compound expression.
pub fn tokens(text: &str) -> Vec<String> {
    let cs: Vec<char> = text.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < cs.len() {
        while i < cs.len() && cs[i].is_whitespace() {
            i += 1;
        }
        if i == cs.len() {
            break;
        }
        if cs[i] == '^' {
            if let Some(k) = (i + 1..cs.len()).find(|&k| cs[k] == '$') {
                out.push(cs[i..=k].iter().collect());
                i = k + 1;
                continue;
            }
        }
        if "()|,".contains(cs[i]) {
            out.push(cs[i].to_string());
            i += 1;
            continue;
        }
        let mut j = i;
        while j < cs.len() && !"()|,".contains(cs[j]) {
            j += 1;
        }
        let s: String = cs[i..j].iter().collect();
        out.push(s.trim_end_matches(|c: char| c.is_whitespace()).to_string());
        i = j;
    }
    out
}

#[derive(Clone, Debug)]
enum Ast {
    S(String),
    And(Vec<Ast>),
    Or(Vec<Ast>),
}

struct Parser<'a> {
    t: &'a [String],
    i: usize,
    valid: &'a dyn Fn(&str) -> bool,
}
impl<'a> Parser<'a> {
    fn expr(&mut self) -> Option<Ast> {
        let mut v = vec![self.conj()?];
        while self.i < self.t.len() && self.t[self.i] == "|" {
            self.i += 1;
            v.push(self.conj()?);
        }
        Some(if v.len() == 1 { v.pop().unwrap() } else { Ast::Or(v) })
    }
    fn conj(&mut self) -> Option<Ast> {
        let mut v = vec![self.operand()?];
        while self.i < self.t.len() && self.t[self.i] == "," {
            self.i += 1;
            v.push(self.operand()?);
        }
        Some(if v.len() == 1 { v.pop().unwrap() } else { Ast::And(v) })
    }
    fn operand(&mut self) -> Option<Ast> {
        let t = self.t.get(self.i)?;
        match &t[..] {
            "(" => {
                self.i += 1;
                let e = self.expr()?;
                if self.t.get(self.i)? != ")" {
                    return None;
                }
                self.i += 1;
                Some(e)
            }
            ")" | "|" | "," => None,
            s => {
                if !(self.valid)(s) {
                    return None;
                }
                self.i += 1;
                Some(Ast::S(s.to_string()))
            }
        }
    }
}

fn flat(a: Ast) -> T {
    fn go(c: C, v: Vec<Ast>) -> T {
        let mut out = vec![];
        for x in v {
            match flat(x) {
                T::N(d, ps) if d == c => out.extend(ps),
                t => out.push(t),
            }
        }
        T::N(c, out)
    }
    match a {
        Ast::S(s) => T::S(s),
        Ast::And(v) => go(C::And, v),
        Ast::Or(v) => go(C::Or, v),
    }
}

/// The tree of a compound expression; None when it is malformed.
pub fn expr(text: &str, valid: &dyn Fn(&str) -> bool) -> Option<T> {
    let t = tokens(text);
    let mut p = Parser { t: &t, i: 0, valid };
    let a = p.expr()?;
    if p.i != t.len() {
        return None;
    }
    Some(match flat(a) {
        T::S(s) => T::N(C::None, vec![T::S(s)]),
        t => t,
    })
}

/// A second reading of an expression that evaluates directly, without building a tree.
pub fn expr_holds(toks: &[String], f: &dyn Fn(&str) -> bool) -> bool {
    // split at top-level '|', then ',', recursing into parentheses
    fn split<'a>(t: &'a [String], sep: &str) -> Vec<&'a [String]> {
        let mut d = 0;
        let mut s = 0;
        let mut out = vec![];
        for (i, x) in t.iter().enumerate() {
            match &x[..] {
                "(" => d += 1,
                ")" => d -= 1,
                x if x == sep && d == 0 => {
                    out.push(&t[s..i]);
                    s = i + 1;
                }
                _ => {}
            }
        }
        out.push(&t[s..]);
        out
    }
    split(toks, "|").iter().any(|c| {
        split(c, ",").iter().all(|o| if o[0] == "(" { expr_holds(&o[1..o.len() - 1], f) } else { f(&o[0]) })
    })
}
