//! Deterministic case generation: case i of a seed depends on (seed, i) only.
use crate::oracle::*;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, i: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ i.wrapping_mul(0xD1B54A32D192ED03) ^ 0x1234567);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n.max(1) as u64)) as usize
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
}

/// Literals mined from the current source: texts, characters and numbers.
#[derive(Default, Clone)]
pub struct Dict {
    pub texts: Vec<String>,
    pub nums: Vec<i64>,
}

const NUMS: &[&str] = &[
    "0", "0", "1", "1", "2", "3", "4", "5", "9", "10", "11", "12", "20", "00", "01", "007", "100", "255", "256",
    "999", "1000", "2019", "20200101", "32767", "32768", "65535", "65536", "2147483646", "2147483647", "2147483648",
    "02147483647", "00000000000001", "4294967296", "99999999999", "9223372036854775808",
];
const WORDS: &[&str] = &[
    "a", "b", "c", "rc", "alpha", "beta", "dev", "post", "DEV", "POST", "Dev", "Post", "dEV", "pOsT", "postdev", "devpost",
    "xpost", "predev", "z", "Z", "A", "B", "RC", "po", "pos", "de", "ev", "ost", "aa", "ab", "v", "x", "g", "h", "py",
    "é", "É", "ß", "ss", "SS", "ſ", "ı", "İ", "K", "k", "Σ", "ς", "σ", "ﬁ", "fi", "中", "😀", "po\u{17f}t", "o\u{308}",
];
const SEPS: &[&str] = &[".", ".", ".", ".", ".", "-", "_", "..", ".-", "", "", "", "_."];
const ODD: &[&str] = &[
    " ", "  ", "\t", "\n", "\u{a0}", "\u{2003}", "*", "@", "~", "=", "<", ">", "!", "+", "^", "$", "(", ")", "|", ",", "[",
    "]", "{", "}", "?", "\\", "\"", "'", "/", ":", ";", "#", "%", "&", "`", "\0", "\u{661}", "\u{0663}", "\u{ff11}", "²", "Ⅷ",
    "½", "\u{7f}", "\u{200b}", "\u{feff}",
];

/// What the tokens of one case are drawn from: mixed cases seldom come out all of one kind, and some changes need just that.
#[derive(Clone, PartialEq)]
pub enum Mood {
    Mixed,
    Digits,
    Words,
    Foreign,
    Edges,
    Kind(usize),
    Two(String, String),
}

pub struct Gen<'a> {
    pub r: Rng,
    pub d: &'a Dict,
    pub mood: Mood,
}

impl<'a> Gen<'a> {
    pub fn new(seed: u64, i: u64, d: &'a Dict) -> Self {
        let mut g = Gen { r: Rng::new(seed, i), d, mood: Mood::Mixed };
        g.mood = match g.r.below(40) {
            0..=3 => Mood::Digits,
            4 => Mood::Words,
            5 => Mood::Foreign,
            6 | 7 => Mood::Edges,
            8 | 9 => Mood::Kind(g.r.below(5)),
            10 | 11 => {
                let (a, b) = (g.token(), g.token());
                Mood::Two(a, b)
            }
            _ => Mood::Mixed,
        };
        g
    }

    pub fn dict_text(&mut self) -> String {
        if self.d.texts.is_empty() {
            return "x".into();
        }
        let i = self.r.below(self.d.texts.len());
        self.d.texts[i].clone()
    }
    pub fn dict_num(&mut self) -> i64 {
        if self.d.nums.is_empty() {
            return 7;
        }
        let i = self.r.below(self.d.nums.len());
        let v = self.d.nums[i];
        v + [0, 0, 0, 1, -1][self.r.below(5)]
    }
    pub fn small_len(&mut self) -> usize {
        if self.mood != Mood::Mixed && self.r.chance(40) {
            return self.r.below(40);
        }
        if self.r.below(600) == 0 {
            return *self.r.pick(&[64, 100, 127, 128, 129, 200, 255, 256, 257, 300, 513]);
        }
        match self.r.below(40) {
            0..=29 => self.r.below(5),
            30..=35 => self.r.below(12),
            36..=37 => self.r.below(40),
            38 => {
                let n = self.dict_num();
                if (0..=600).contains(&n) {
                    n as usize
                } else {
                    self.r.below(70)
                }
            }
            _ => self.r.below(150),
        }
    }
    pub fn num_text(&mut self) -> String {
        match self.r.below(12) {
            0 => self.dict_num().max(0).to_string(),
            1 => self.r.below(100000).to_string(),
            2 => (self.r.next() % 5_000_000_000).to_string(),
            _ => self.r.pick(NUMS).to_string(),
        }
    }
    pub fn case_flip(&mut self, s: &str) -> String {
        s.chars()
            .map(|c| {
                if self.r.chance(40) {
                    if c.is_lowercase() {
                        c.to_uppercase().next().unwrap()
                    } else {
                        c.to_lowercase().next().unwrap()
                    }
                } else {
                    c
                }
            })
            .collect()
    }
    pub fn word(&mut self) -> String {
        match self.r.below(14) {
            0 | 1 => self.dict_text(),
            2 => {
                let w = self.r.pick(WORDS).to_string();
                self.case_flip(&w)
            }
            3 => format!("{}{}", self.r.pick(WORDS), { let k = self.r.below(WORDS.len()); WORDS[k] }),
            4 => {
                let n = 1 + self.small_len();
                let c = *self.r.pick(&['a', 'b', 'x', 'p', 'Z']);
                std::iter::repeat(c).take(n).collect()
            }
            _ => self.r.pick(WORDS).to_string(),
        }
    }
    pub fn odd_char(&mut self) -> String {
        match self.r.below(6) {
            0 => char::from_u32(self.r.below(0x300) as u32).unwrap().to_string(),
            1 => char::from_u32(self.r.below(0x11_0000) as u32).unwrap_or('\u{fffd}').to_string(),
            2 => self.dict_text(),
            _ => self.r.pick(ODD).to_string(),
        }
    }
    pub fn token(&mut self) -> String {
        match &self.mood {
            Mood::Digits => return self.r.below(10).to_string(),
            Mood::Words => return self.word(),
            Mood::Foreign => return self.r.pick(&["é", "中", "😀", "\u{661}", "\u{ff11}", "ß", "Σ", "é1", "1é", "İ"]).to_string(),
            Mood::Edges => return self.r.pick(&["0", "00", "2147483647", "2147483648", "2147483646", "9", "1", "99999999999", "0000000000000001", "02147483647"]).to_string(),
            Mood::Two(a, b) => return if self.r.chance(50) { a.clone() } else { b.clone() },
            _ => {}
        }
        match self.r.below(10) {
            0..=5 => self.num_text(),
            _ => self.word(),
        }
    }
    /// A version text that is usually well formed.
    pub fn vtext(&mut self) -> String {
        let mut s = String::new();
        if self.r.chance(12) {
            match self.r.below(8) {
                0 => s.push_str("+5"),
                1 => s.push_str("-3"),
                2 => s.push_str("32767"),
                3 => s.push_str("-32768"),
                4 => s.push_str(&self.dict_num().to_string()),
                _ => s.push_str(&self.r.below(4).to_string()),
            }
            s.push('!');
        }
        let n = 1 + self.small_len();
        let dots = self.mood != Mood::Mixed && self.r.chance(70);
        for i in 0..n {
            if i > 0 {
                s.push_str(if dots { "." } else { *self.r.pick(SEPS) });
            }
            let t = self.token();
            s.push_str(&t);
        }
        if self.r.chance(12) {
            s.push('+');
            let n = self.r.below(3);
            for _ in 0..n {
                let t = self.token();
                s.push_str(&t);
                if self.r.chance(40) {
                    s.push_str(*self.r.pick(&[".", "-", "_", " "]));
                }
            }
        }
        s
    }
    /// Any text.
    pub fn any_text(&mut self) -> String {
        let mut s = match self.r.below(10) {
            0 => String::new(),
            1 => self.odd_char(),
            2 => self.dict_text(),
            _ => self.vtext(),
        };
        let edits = [0, 0, 1, 1, 2, 4][self.r.below(6)];
        for _ in 0..edits {
            s = self.mutate(&s);
        }
        s
    }
    pub fn short_text(&mut self) -> String {
        let n = self.r.below(7);
        const AL: &[&str] =
            &["0", "1", "9", "a", "d", ".", "-", "_", "!", "+", "*", "@", "^", "$", "=", "<", ">", "~", "(", ")", "|", ",", " ", "é"];
        (0..n).map(|_| *self.r.pick(AL)).collect()
    }
    pub fn mutate(&mut self, s: &str) -> String {
        let cs: Vec<char> = s.chars().collect();
        let k = self.r.below(cs.len() + 1);
        let pre: String = cs[..k].iter().collect();
        let post: String = cs[k..].iter().collect();
        match self.r.below(9) {
            0 => pre + &self.odd_char() + &post,
            1 => pre + &self.token() + &post,
            2 => pre + *self.r.pick(&[".", "-", "_", "!", "+"]) + &post,
            3 => pre + &cs[(k + 1).min(cs.len())..].iter().collect::<String>(),
            4 => {
                let j = (k + self.r.below(4)).min(cs.len());
                pre + &cs[j..].iter().collect::<String>()
            }
            5 => self.case_flip(s),
            6 => s.to_string() + *self.r.pick(&[".0", ".0.0", ".", "-", ".1", "a", ".post1", "post", "dev", "rc", "+", "+1", "0", ".00"]),
            7 => pre,
            _ => {
                let c = self.odd_char();
                pre + &c + &cs[(k + 1).min(cs.len())..].iter().collect::<String>()
            }
        }
    }
    pub fn text_comp(&mut self) -> String {
        match self.r.below(8) {
            0 => String::new(),
            1 => {
                let a = self.word();
                let b = self.word();
                a + &b
            }
            2 => self.odd_char(),
            3 => {
                let w = self.word();
                self.mutate(&w)
            }
            4 => self.vtext(),
            _ => self.word(),
        }
    }
    pub fn text_comp_like(&mut self, t: &str) -> String {
        match self.r.below(8) {
            0 => t.to_string(),
            1 => self.case_flip(t),
            2 => t.to_lowercase(),
            3 => t.to_uppercase(),
            4 => self.mutate(t),
            5 => format!("{}{}", t, self.r.pick(&["a", "z", "post", "dev", "A", " ", "é"])),
            _ => self.text_comp(),
        }
    }
    pub fn int(&mut self) -> i32 {
        match self.r.below(8) {
            0 => *self.r.pick(&[i32::MAX, i32::MIN, i32::MAX - 1, -1, i32::MIN + 1, 65536, 32768]),
            1 => self.dict_num() as i32,
            2 => self.r.next() as i32,
            _ => self.r.below(12) as i32,
        }
    }
    pub fn epoch(&mut self) -> i16 {
        match self.r.below(6) {
            0 => *self.r.pick(&[i16::MAX, i16::MIN, -1, 256, 255]),
            1 => self.dict_num() as i16,
            _ => self.r.below(4) as i16,
        }
    }
    pub fn part(&mut self) -> P {
        match self.mood.clone() {
            Mood::Digits => return P::I(self.r.below(10) as i32),
            Mood::Edges => return P::I(*self.r.pick(&[0, 0, i32::MAX, i32::MIN, i32::MAX - 1, -1, i32::MIN + 1, 1])),
            Mood::Kind(0) => return P::I(self.int()),
            Mood::Kind(1) => return P::T(self.text_comp()),
            Mood::Kind(2) => return P::L(self.text_comp()),
            Mood::Kind(3) => return P::E(self.epoch()),
            Mood::Kind(_) => return [P::Z, P::T("".into()), P::I(0), P::L("".into()), P::E(0)][self.r.below(5)].clone(),
            Mood::Two(a, b) => {
                let t = if self.r.chance(50) { a } else { b };
                return match t.parse() {
                    Ok(n) => P::I(n),
                    _ => P::T(t),
                };
            }
            _ => {}
        }
        match self.r.below(20) {
            0..=9 => P::I(self.int()),
            10..=14 => P::T(self.text_comp()),
            15..=16 => P::L(self.text_comp()),
            17..=18 => P::E(self.epoch()),
            _ => P::Z,
        }
    }
    pub fn part_like(&mut self, p: &P) -> P {
        if self.r.chance(25) {
            return match p {
                P::I(n) => P::I(n.wrapping_add([1, -1, 10, i32::MIN][self.r.below(4)])),
                P::E(n) => P::E(n.wrapping_add([1, -1, 256][self.r.below(3)])),
                P::L(t) => P::L(self.text_comp_like(t)),
                P::T(t) => P::T(self.text_comp_like(t)),
                P::Z => P::Z,
            };
        }
        if self.r.chance(20) {
            return self.part();
        }
        if self.r.chance(25) {
            return zero(p);
        }
        if let (P::T(t), true) = (p, self.r.chance(50)) {
            let t = t.clone();
            return P::T(self.case_flip(&t));
        }
        p.clone()
    }
    pub fn parts(&mut self) -> Vec<P> {
        let n = self.small_len();
        (0..n).map(|_| self.part()).collect()
    }
    /// Parts close to the given ones: same prefix, changed somewhere, longer or shorter by zeros or others.
    pub fn parts_like(&mut self, a: &[P]) -> Vec<P> {
        if self.r.chance(12) {
            return self.parts();
        }
        let mut v = a.to_vec();
        let edits = [0, 0, 1, 1, 1, 2][self.r.below(6)];
        for _ in 0..edits {
            match self.r.below(6) {
                0 | 1 | 2 if !v.is_empty() => {
                    // late positions as often as early ones
                    let k = if self.r.chance(40) { v.len() - 1 } else { self.r.below(v.len()) };
                    v[k] = self.part_like(&v[k].clone());
                }
                3 if !v.is_empty() => {
                    let k = self.r.below(v.len());
                    v.truncate(k);
                }
                4 => {
                    let k = self.r.below(v.len() + 1);
                    let p = self.part();
                    v.insert(k, p);
                }
                _ => {
                    let n = 1 + self.r.below(4);
                    for _ in 0..n {
                        let p = self.part();
                        let z = if self.r.chance(75) { zero(&p) } else { p };
                        v.push(z);
                    }
                }
            }
        }
        v
    }
    pub fn vtext_like(&mut self, s: &str) -> String {
        match self.r.below(8) {
            0 => self.vtext(),
            1 => s.to_string(),
            2 => s.to_string() + *self.r.pick(&[".0", ".0.0.0", ".00", ".0.1", ".0.0.1", ".0.0dev", ".post1", "rc1", ".a", ".1", "+1", ".0+a"]),
            3 => self.case_flip(s),
            4 => {
                // change one numeric run
                let cs: Vec<char> = s.chars().collect();
                let ds: Vec<usize> = (0..cs.len()).filter(|&i| cs[i].is_ascii_digit()).collect();
                if ds.is_empty() {
                    return self.vtext();
                }
                let k = *self.r.pick(&ds);
                let mut cs = cs.clone();
                cs[k] = *self.r.pick(&['0', '1', '2', '9']);
                cs.into_iter().collect()
            }
            5 => {
                let k = s.char_indices().map(|(i, _)| i).collect::<Vec<_>>();
                if k.is_empty() {
                    return self.vtext();
                }
                let j = *self.r.pick(&k);
                s[..j].to_string()
            }
            _ => self.mutate(s),
        }
    }
    pub fn spec(&mut self) -> String {
        let v = if self.r.chance(85) { self.vtext() } else { self.any_text() };
        self.spec_from(v)
    }
    pub fn spec_from(&mut self, v: String) -> String {
        match self.r.below(24) {
            0..=5 => v,
            6..=12 => format!("{}{}", self.r.pick(&["=", "==", "!=", "<", "<=", ">", ">="]), v),
            13 => format!("{}{}", self.r.pick(&["~=", "!", "~", "!~=", "<>", "===", "=>", "!=="]), v),
            14 => format!("{}{}.*", self.r.pick(&["=", "==", "!=", "!=", "<", "<=", ">", ">=", "~="]), v),
            15 => format!("{}*", v),
            16 => format!("{}.*", v),
            17 => {
                let cs: Vec<char> = v.chars().collect();
                let k = self.r.below(cs.len() + 1);
                cs[..k].iter().collect::<String>() + "*" + &cs[k..].iter().collect::<String>()
            }
            18 => format!("^{}$", v.replace('.', "\\.").replace('*', ".*").replace('+', "\\+")),
            19 => format!("^{}.*$", { let cs: Vec<char> = v.chars().collect(); let k = self.r.below(cs.len() + 1); cs[..k].iter().collect::<String>() }),
            20 => match self.r.below(4) {
                0 => format!("{}@{}", v, self.word()),
                1 => format!("@{}", v),
                2 => format!("{}@", v),
                _ => "*".into(),
            },
            21 => self.r.pick(&["*", "**", "", ".*", "*.", "^$", "^", "$", "=", ">", ">=", "==", "!=", "~=", "=*", "==*", "@", "^.*$", "^(1|2).*$", "^1.(2|3)$", "^[0-9,]+$", "(?", "*(?*"]).to_string(),
            22 => self.mutate(&v),
            _ => {
                let s = format!("{}{}", self.r.pick(&["=", "==", "!=", "<", "<=", ">", ">="]), v);
                self.mutate(&s)
            }
        }
    }
    /// A spec that parses and is covered (not the compatible operators).
    pub fn good_spec(&mut self) -> String {
        for _ in 0..20 {
            let s = self.spec();
            if let Some((m, _)) = spec(&s) {
                if !is_compat(&m) {
                    return s;
                }
            }
        }
        ">=1.2".into()
    }
    /// A spec usable inside a compound expression.
    pub fn expr_spec(&mut self) -> String {
        if self.r.chance(30) {
            return self.r.pick(&["1.2", ">1.2", "<2", "1.*", "!=1.3", "1.5|1".split('|').next().unwrap(), "^1\\.(2|3),?$", "^a$", "=1.4", "*", ">=1.0.0", "1.2@x"]).to_string();
        }
        for _ in 0..20 {
            let s = self.good_spec();
            let t = tokens(&s);
            if t.len() == 1 && t[0] == s {
                return s;
            }
        }
        "1.2.3".into()
    }
    pub fn ws(&mut self) -> &'static str {
        *self.r.pick(&["", "", "", "", "", " ", "  ", "\t", "\n", "\u{a0}", " \u{2003}"])
    }
    pub fn expr(&mut self, depth: usize) -> String {
        let k = self.r.below(10);
        let s = if depth == 0 || k < 3 {
            self.expr_spec()
        } else if k < 6 {
            format!("({})", self.expr(depth - 1))
        } else {
            let n = 2 + self.r.below(4);
            let mut s = String::new();
            for i in 0..n {
                if i > 0 {
                    s.push_str(*self.r.pick(&[",", "|"]));
                }
                let d = self.r.below(depth);
                s.push_str(&self.expr(d));
            }
            s
        };
        format!("{}{}{}", self.ws(), s, self.ws())
    }
    /// Expressions over the alphabet ( ) , | and short specs, often malformed.
    pub fn expr_soup(&mut self) -> String {
        let n = self.r.below(10);
        let mut s = String::new();
        for _ in 0..n {
            match self.r.below(8) {
                0 => s.push('('),
                1 => s.push(')'),
                2 | 3 => s.push(','),
                4 => s.push('|'),
                _ => {
                    let x = if self.r.chance(80) { self.r.pick(&["1", "2", "a", ">3", "1.*", "^1$"]).to_string() } else { self.spec() };
                    s.push_str(&x)
                }
            }
            s.push_str(self.ws());
        }
        s
    }
    pub fn any_expr(&mut self) -> String {
        let d = [1, 2, 2, 3, 3, 4, 6][self.r.below(7)];
        match self.r.below(10) {
            0 | 1 => self.expr_soup(),
            2 => {
                let e = self.expr(d);
                self.mutate(&e)
            }
            3 => {
                // delete or duplicate one token
                let mut t = tokens(&self.expr(d));
                if !t.is_empty() {
                    let k = self.r.below(t.len());
                    if self.r.chance(50) {
                        t.remove(k);
                    } else {
                        let x = t[k].clone();
                        t.insert(k, x);
                    }
                }
                t.concat()
            }
            4 => {
                let mut s = self.spec();
                if self.r.chance(30) {
                    s = format!("({})", s)
                }
                s
            }
            5 => {
                let n = self.small_len();
                let op = *self.r.pick(&[",", "|"]);
                (0..=n).map(|_| self.expr_spec()).collect::<Vec<_>>().join(op)
            }
            6 if self.r.chance(30) => {
                // many operators open at once
                let n = 2 * self.small_len();
                let mut s = self.expr_spec();
                let way = self.r.below(3);
                for _ in 0..n {
                    let op = *self.r.pick(&[",", "|"]);
                    let x = if self.r.chance(70) { "1".to_string() } else { self.expr_spec() };
                    let left = match way { 0 => true, 1 => false, _ => self.r.chance(50) };
                    s = if left { format!("({}{}{})", s, op, x) } else { format!("({}{}{})", x, op, s) };
                }
                s
            }
            6 => {
                let n = if self.r.chance(80) { self.r.below(12) } else { 2 * self.small_len() };
                let inner = self.expr(1);
                "(".repeat(n) + &inner + &")".repeat(n)
            }
            _ => self.expr(d),
        }
    }
    pub fn tree(&mut self, depth: usize) -> T {
        if depth == 0 || self.r.chance(35) {
            return T::S(self.expr_spec());
        }
        self.node(depth)
    }
    pub fn node(&mut self, depth: usize) -> T {
        let c = *self.r.pick(&[C::And, C::And, C::Or, C::Or, C::None]);
        let n = [0, 1, 1, 2, 2, 2, 3, 3, 4, 7][self.r.below(10)];
        let n = if self.r.chance(3) { self.small_len() } else { n };
        T::N(c, (0..n).map(|_| self.tree(depth.saturating_sub(1))).collect())
    }
    pub fn node_full(&mut self, depth: usize) -> T {
        // every nested tree has at least two parts
        fn go(g: &mut Gen, d: usize, top: bool) -> T {
            if d == 0 || (!top && g.r.chance(40)) {
                return T::S(g.expr_spec());
            }
            let c = *g.r.pick(&[C::And, C::And, C::Or, C::Or, C::None]);
            let n = 2 + g.r.below(3);
            T::N(c, (0..n).map(|_| go(g, d - 1, false)).collect())
        }
        go(self, depth, true)
    }
    pub fn tree_like(&mut self, t: &T) -> T {
        match t {
            T::S(s) => match self.r.below(12) {
                0 => T::S(self.expr_spec()),
                1 => T::N(C::None, vec![t.clone()]),
                2 => T::S(s.clone() + ".0"),
                3 => T::S(self.case_flip(s)),
                4 => T::S(s.clone() + *self.r.pick(&[" ", "*", ".*", "0", "\n", "a"])),
                5 => T::S(format!("{}{}", self.r.pick(&[" ", "==", "0"]), s)),
                6 => T::S(self.mutate(s)),
                _ => t.clone(),
            },
            T::N(c, ps) => {
                let mut ps = ps.clone();
                let mut c = *c;
                match self.r.below(10) {
                    0 => c = *self.r.pick(&[C::And, C::Or, C::None]),
                    1 => {
                        ps.pop();
                    }
                    2 => {
                        let x = self.tree(1);
                        let k = self.r.below(ps.len() + 1);
                        ps.insert(k, x)
                    }
                    3 if ps.len() > 1 => {
                        let (i, j) = (self.r.below(ps.len()), self.r.below(ps.len()));
                        ps.swap(i, j)
                    }
                    4..=7 if !ps.is_empty() => {
                        let k = self.r.below(ps.len());
                        ps[k] = self.tree_like(&ps[k].clone());
                    }
                    _ => {}
                }
                T::N(c, ps)
            }
        }
    }
    /// A version text related to the versions in a spec, so that matches and near misses are common.
    pub fn version_near(&mut self, spec_text: &str) -> String {
        let core: String = spec_text.trim_matches(|c: char| "=<>!~^$*".contains(c)).replace('\\', "");
        let core = core.trim_end_matches(".*").to_string();
        for _ in 0..6 {
            let s = match self.r.below(6) {
                0 => core.clone(),
                1 => core.clone() + *self.r.pick(&[".0", ".1", "a", ".1.2", "0", ".dev1", ".post1", "rc"]),
                2 => core.replace('*', &self.r.below(20).to_string()),
                3 => self.vtext(),
                _ => self.vtext_like(&core),
            };
            if parse(&s).is_some() {
                return s;
            }
        }
        "1.2".into()
    }
    pub fn good_vtext(&mut self) -> String {
        for _ in 0..10 {
            let s = if self.r.chance(90) { self.vtext() } else { self.any_text() };
            if parse(&s).is_some() {
                return s;
            }
        }
        "1.2.3".into()
    }
    pub fn good_vtext_like(&mut self, s: &str) -> String {
        for _ in 0..10 {
            let s = self.vtext_like(s);
            if parse(&s).is_some() {
                return s;
            }
        }
        s.to_string()
    }
}
