//! conform MIRROR SEED SECONDS PATTERN..: asks the proved twins and the real library the same questions; prints what was asked and every difference.
#[path = "../../vx/src/re.rs"]
mod re;
use regex::Regex;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0 }
    fn below(&mut self, n: usize) -> usize { (self.next() >> 11) as usize % n }
    fn pick<'a, A>(&mut self, v: &'a [A]) -> &'a A { let i = self.below(v.len()); &v[i] }
    fn one_in(&mut self, n: usize) -> bool { self.below(n) == 0 }
}
const CHARS: &[char] = &['a', 'b', 'd', 'e', 'v', 'p', 'o', 's', 't', 'k', 'A', 'D', 'V', 'Z', 'K', 'S', '0', '1', '5', '9', '.', '.', '*', '+', '-', '_', '!', '=', '<', '>', '~', '(', ')', ',', ',', '|', '|', '^', '$', '[', ']', '{', '}', '?', '\\', '"', '\'',
    ' ', ' ', '\t', '\n', '\r', '\u{b}', '\0', '\u{1f}', '\u{7f}', '\u{85}', '\u{a0}', '\u{2003}', '\u{2028}', '\u{3000}', '\u{200b}', 'é', 'ß', 'İ', 'Σ', 'ς', '\u{17f}', '\u{212a}', '²', '\u{660}', '\u{966}', '\u{96f}', '€', '😀', '\u{10ffff}', '\u{d7ff}', '\u{e000}'];
fn text(r: &mut Rng, max: usize) -> String {
    let n = r.below(max + 1);
    // often few different characters, so that they meet
    let k = 1 + r.below(5);
    let few: Vec<char> = (0..k).map(|_| *r.pick(CHARS)).collect();
    let narrow = !r.one_in(4);
    (0..n).map(|_| if narrow { *r.pick(&few) } else { *r.pick(CHARS) }).collect()
}
fn number(r: &mut Rng) -> String {
    let mut s = String::new();
    match r.below(6) { 0 => s.push('-'), 1 => s.push('+'), _ => {} }
    if r.one_in(4) { let d: &&str = r.pick(&["32767", "32768", "32769", "2147483647", "2147483648", "2147483649", "00032767", "65536", "4294967296", "99999999999999999999", "0", "00"]); s.push_str(d) }
    else { for _ in 0..r.below(8) { s.push(*r.pick(&['0', '1', '2', '9', '7'])) } }
    if r.one_in(5) { let i = r.below(s.len() + 1); s.insert(i, *r.pick(CHARS)) }
    s
}
fn hex(s: &str) -> String { s.chars().map(|c| format!("{:x}", c as u32)).collect::<Vec<_>>().join(",") }
fn list(v: &[String]) -> String { if v.is_empty() { "#".into() } else { v.iter().map(|s| hex(s)).collect::<Vec<_>>().join(";") } }
fn shows<'a>(v: &[&'a str]) -> String { v.iter().map(|s| hex(s)).collect::<Vec<_>>().join(";") + &format!("#{}", v.len()) }
fn opt(o: Option<&str>) -> String { match o { Some(s) => format!("+{}", hex(s)), None => "-".into() } }
/// patterns of the kind the translation knows
fn pattern(r: &mut Rng, depth: usize) -> String {
    let atom = |r: &mut Rng| -> String {
        match r.below(12) {
            0 => r"\d".into(), 1 => r"\s".into(), 2 => r"\D".into(), 3 => r"\S".into(), 4 => ".".into(),
            5 => "[.a1]".into(), 6 => "[^.,|]".into(), 7 => "[a-e]".into(), 8 => r"[\d.]".into(), 9 => r"[\s*_]".into(),
            _ => regex_syntax::escape(&r.pick(&['a', 'b', '.', '1', ' ', '-', ',', '*', 'k', 's', '|', 'é']).to_string()),
        }
    };
    if depth == 0 { return atom(r) }
    match r.below(11) {
        0 => format!("{}|{}", pattern(r, depth - 1), pattern(r, depth - 1)),
        1 => format!("({})", pattern(r, depth - 1)),
        2 => format!("(?:{})", pattern(r, depth - 1)),
        3 => format!("(?:{})?", pattern(r, depth - 1)),
        4 => format!("(?:{})*", pattern(r, depth - 1)),
        5 => format!("({})+", pattern(r, depth - 1)),
        6 => format!("^{}", pattern(r, depth - 1)),
        7 => format!("{}$", pattern(r, depth - 1)),
        8 => atom(r) + *r.pick(&["*", "+", "?", "", "{2}"]),
        _ => pattern(r, depth - 1) + &pattern(r, depth - 1),
    }
}
const KNOWN: &[&str] = &[r"(\d+)|(\D+)", "(?i)dev", "(?i)post", r".*[()|,^$]", r"\s*\^[^$]*[$]|\s*[()|,]|\s*[^()|,]+", r"^(\d+)(\*)$", "[0-9]+", r"^(==|!=|<=|>=|<|>|~=|=)(.*)$", r"[^\d.*]+", r"(?i)(dev|post|rc)\d*", r"^([a-z0-9_]+)(?:\[([^\]]*)\])?$", r"(a)|(b)|c", r"(a*)(b?)", r"^$", r"(?:^|,)a(?:$|,)", r"(a|ab)(c|bcd)?(d*)"];
fn asked(r: &mut Rng, own: &[String]) -> Option<(String, String)> {
    let s = text(r, 9);
    let h = hex(&s);
    let q = |op: &str, args: &[String]| format!("{}\t{}", op, args.join("\t"));
    let c = if s.is_empty() || r.one_in(3) { *r.pick(CHARS) } else { *r.pick(&s.chars().collect::<Vec<_>>()) };
    let c2 = *r.pick(CHARS);
    let cs = c.to_string();
    let two = format!("{}{}", c, c2);
    let set = [c, c2];
    let part = |r: &mut Rng, s: &str| -> String { let v: Vec<char> = s.chars().collect(); if v.is_empty() || r.one_in(4) { text(r, 3) } else { let a = r.below(v.len()); let b = a + r.below(v.len() - a + 1); v[if r.one_in(3) { 0 } else { a }..if r.one_in(3) { v.len() } else { b }].iter().collect() } };
    Some(match r.below(41) {
        0 => (q("trim_l", &[h]), hex(s.trim_start())),
        1 => (q("trim_r", &[h]), hex(s.trim_end())),
        2 => (q("trimmed", &[h]), hex(s.trim())),
        3 => (q("trim_end", &[h, hex(&two)]), hex(s.trim_end_matches(|x| set.contains(&x)))),
        4 => (q("trim_end", &[h, hex(&cs)]), hex(if r.one_in(2) { s.trim_end_matches(c) } else { s.trim_end_matches(cs.as_str()) })),
        5 => (q("trim_front", &[h, hex(&two)]), hex(s.trim_start_matches(|x| set.contains(&x)))),
        6 => (q("trim_front", &[h, hex(&cs)]), hex(if r.one_in(2) { s.trim_start_matches(c) } else { s.trim_start_matches(cs.as_str()) })),
        7 => (q("trim_both", &[h, hex(&cs)]), hex(if r.one_in(2) { s.trim_matches(c) } else { s.trim_matches(|x| x == c) })),
        8 => (q("first", &[h, hex(&cs)]), s.find(c).map(|n| n.to_string()).unwrap_or("-".into())),
        9 => (q("split", &[h, hex(&cs)]), shows(&(if r.one_in(2) { s.split(c).collect::<Vec<_>>() } else { s.split(cs.as_str()).collect() }))),
        10 => (q("split", &[h, hex(&two)]), shows(&s.split(|x| set.contains(&x)).collect::<Vec<_>>())),
        11 => { let n = r.below(5); (q("splitn", &[h, hex(&cs), n.to_string()]), shows(&(if r.one_in(2) { s.splitn(n, c).collect::<Vec<_>>() } else { s.splitn(n, cs.as_str()).collect() }))) }
        12 => (q("split_once", &[h, hex(&cs)]), (if r.one_in(2) { s.split_once(c) } else { s.split_once(cs.as_str()) }).map(|(a, b)| format!("{}/{}", hex(a), hex(b))).unwrap_or("-".into())),
        13 => { let v: Vec<String> = (0..r.below(5)).map(|_| text(r, 3)).collect(); let sep = text(r, 2); (q("join", &[hex(&sep), list(&v)]), hex(&v.join(&sep))) }
        14 => { let p = part(r, &s); (q("prefix", &[h, hex(&p)]), s.starts_with(p.as_str()).to_string()) }
        15 => { let p = part(r, &s); (q("suffix", &[h, hex(&p)]), s.ends_with(p.as_str()).to_string()) }
        16 => { let p = part(r, &s); (q("occurs", &[h, hex(&p)]), s.contains(p.as_str()).to_string()) }
        17 => (q("prefix", &[h, hex(&cs)]), s.starts_with(c).to_string()),
        18 => (q("suffix", &[h, hex(&cs)]), s.ends_with(c).to_string()),
        19 => { let p = part(r, &s); (q("strip_prefix", &[h, hex(&p)]), opt(s.strip_prefix(p.as_str()))) }
        20 => { let p = part(r, &s); (q("strip_suffix", &[h, hex(&p)]), opt(s.strip_suffix(p.as_str()))) }
        21 => { let t = text(r, 3); (q("repl", &[h, hex(&cs), hex(&t)]), hex(&(if r.one_in(2) { s.replace(c, &t) } else { s.replace(cs.as_str(), &t) }))) }
        22 => { let t = if r.one_in(2) { text(r, 9) } else { part(r, &s) }; (q("lex", &[h, hex(&t)]), format!("{:?}", s.cmp(&t))) }
        23 => (q("ascii_low", &[h]), hex(&s.to_ascii_lowercase())),
        24 => { let t = if r.one_in(2) { s.to_ascii_uppercase() } else { text(r, 3) }; (q("eq_ascii", &[h, hex(&t)]), s.eq_ignore_ascii_case(&t).to_string()) }
        25 => { let t = number(r); (q("int", &[hex(&t), i16::MIN.to_string(), i16::MAX.to_string()]), t.parse::<i16>().map(|x| x.to_string()).unwrap_or("-".into())) }
        26 => { let t = number(r); (q("int", &[hex(&t), i32::MIN.to_string(), i32::MAX.to_string()]), t.parse::<i32>().map(|x| x.to_string()).unwrap_or("-".into())) }
        27 => { let n = *r.pick(&[0i32, 1, -1, 9, 10, -10, 99, 100, 32767, -32768, i32::MAX, i32::MIN, 1000000]); (q("decimal", &[n.to_string()]), hex(&n.to_string())) }
        28 => { let a = r.below(s.len() + 3); let b = r.below(s.len() + 3); (q("slice", &[h, a.to_string(), b.to_string()]), if a > b { "-".into() } else { opt(s.get(a..b)) }) }
        29 => (q("blen", &[h]), s.len().to_string()),
        30 => { struct V(Vec<String>); struct I<'a>(&'a str); impl<'a> std::fmt::Debug for I<'a> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(self.0) } }
                impl std::fmt::Debug for V { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { self.0.iter().map(|x| I(x)).collect::<Vec<_>>().fmt(f) } }
                let v = V((0..r.below(4)).map(|_| text(r, 4)).collect()); let alt = r.one_in(2);
                (q("list", &[alt.to_string(), list(&v.0)]), hex(&if alt { format!("{:#?}", v) } else { format!("{:?}", v) })) }
        31 => { let g: String = text(r, 6).chars().map(|x| if "\\[]{}()?|^$".contains(x) { '*' } else { x }).collect();
                let t: String = if r.one_in(3) { s } else { g.chars().flat_map(|x| if x == '*' { (0..r.below(3)).map(|_| *r.pick(CHARS)).collect() } else { vec![x] }).collect() };
                let pat = format!("^(?:{})$", g.replace('.', r"\.").replace('+', r"\+").replace('*', r".*"));
                (q("glob", &[hex(&g), hex(&t)]), match Regex::new(&pat) { Ok(x) => x.is_match(&t).to_string(), Err(_) => "invalid".into() }) }
        33 => { let t = number(r); (match r.below(5) {
                0 => (q("nat", &[hex(&t), u8::MAX.to_string()]), t.parse::<u8>().map(|x| x.to_string()).unwrap_or("-".into())),
                1 => (q("nat", &[hex(&t), u16::MAX.to_string()]), t.parse::<u16>().map(|x| x.to_string()).unwrap_or("-".into())),
                2 => (q("nat", &[hex(&t), u32::MAX.to_string()]), t.parse::<u32>().map(|x| x.to_string()).unwrap_or("-".into())),
                3 => (q("nat", &[hex(&t), u64::MAX.to_string()]), t.parse::<u64>().map(|x| x.to_string()).unwrap_or("-".into())),
                _ => (q("nat", &[hex(&t), usize::MAX.to_string()]), t.parse::<usize>().map(|x| x.to_string()).unwrap_or("-".into())) }) }
        34 => { let t = number(r); if r.one_in(2) { (q("int", &[hex(&t), i8::MIN.to_string(), i8::MAX.to_string()]), t.parse::<i8>().map(|x| x.to_string()).unwrap_or("-".into())) } else { (q("int", &[hex(&t), i64::MIN.to_string(), i64::MAX.to_string()]), t.parse::<i64>().map(|x| x.to_string()).unwrap_or("-".into())) } }
        35 => { let p = part(r, &s); (q("find", &[h, hex(&p)]), s.find(p.as_str()).map(|n| n.to_string()).unwrap_or("-".into())) }
        36 => (q("rfind", &[h, hex(&cs)]), s.rfind(c).map(|n| n.to_string()).unwrap_or("-".into())),
        37 => (q("ascii_up", &[h]), hex(&s.to_ascii_uppercase())),
        38 => (q("classes", &[hex(&cs)]), format!("{:?}", (c.is_ascii_digit(), c.is_ascii_uppercase(), c.is_ascii_lowercase(), c.is_ascii_alphabetic(), c.is_ascii_alphanumeric(), c.is_ascii_punctuation()))),
        39 => { let a = r.below(s.len() + 3); (q("slice_from", &[h, a.to_string()]), opt(s.get(a..))) }
        40 if own.is_empty() => return None,
        _ => {
            let d = r.below(5);
            let mine = !own.is_empty() && r.one_in(2);
            let p = if mine { r.pick(own).clone() } else if r.one_in(3) { r.pick(KNOWN).to_string() } else { pattern(r, d) };
            let p = if !mine && !p.contains("[a-e]") && !p.contains('é') && r.one_in(4) { format!("(?i){}", p) } else { p };
            let ast = re::translate(&p)?;
            if ast.len() > 4000 && !mine { return None }
            if !mine && !KNOWN.contains(&p.as_str()) && p.matches(")*").count() + p.matches(")+").count() + p.matches(")?").count() > 2 { return None }
            // a text of pieces the pattern mentions
            let pool: Vec<char> = p.chars().filter(|x| x.is_alphanumeric() || ".,|*_-<>=!~^$()*+ ".contains(*x)).chain("a1 K\u{17f}\n".chars()).collect();
            let s: String = if r.one_in(2) { s } else { (0..r.below(9)).map(|_| *r.pick(&pool)).collect() };
            let x = Regex::new(&p).ok()?;
            match r.below(3) {
                0 => (q("is_match", &[hex(&s), ast]), x.is_match(&s).to_string()),
                1 => (q("find_iter", &[hex(&s), ast]), shows(&x.find_iter(&s).map(|m| m.as_str()).collect::<Vec<_>>())),
                _ => (q("captures", &[hex(&s), ast]), match x.captures(&s) { Some(k) => (0..k.len()).map(|i| opt(k.get(i).map(|m| m.as_str()))).collect::<Vec<_>>().join(";"), None => "none".into() }),
            }
        }
    })
}
/// the axioms about single characters and short texts, for every character there is
fn axioms(bad: &mut Vec<String>) -> u64 {
    let mut n = 0;
    let dec = Regex::new(r"^\d$").unwrap();
    let ws = Regex::new(r"^\s$").unwrap();
    let any = Regex::new(r"^.$").unwrap();
    let folds: Vec<(char, Regex)> = ('a'..='z').map(|c| (c, Regex::new(&format!("^(?i){}$", c)).unwrap())).collect();
    let fold1 = |c: char| match c { 'A'..='Z' => c.to_ascii_lowercase(), '\u{17f}' => 's', '\u{212a}' => 'k', c => c };
    for c in (0..=0x10ffffu32).filter_map(char::from_u32) {
        let s = c.to_string();
        let k = c as u32;
        let mut want = |what: &str, ok: bool| { n += 1; if !ok && bad.len() < 20 { bad.push(format!("{} of U+{:x}", what, k)) } };
        want("is_ws (ASCII)", k >= 128 || c.is_whitespace() == (k == 32 || (9..=13).contains(&k)));
        want("is_dec (ASCII)", k >= 128 || dec.is_match(&s) == c.is_ascii_digit());
        want("\\s is char::is_whitespace", ws.is_match(&s) == c.is_whitespace());
        want(". is not a line break", any.is_match(&s) == (c != '\n'));
        want("UTF-8 length", s.len() == if k < 0x80 { 1 } else if k < 0x800 { 2 } else if k < 0x10000 { 3 } else { 4 });
        want("lower case of ASCII", k >= 128 || s.to_lowercase() == c.to_ascii_lowercase().to_string());
        want("upper case of ASCII", k >= 128 || s.to_uppercase() == c.to_ascii_uppercase().to_string());
        want("alphabetic, numeric ASCII", k >= 128 || (c.is_alphabetic() == c.is_ascii_alphabetic() && c.is_numeric() == c.is_ascii_digit()));
        want("alphanumeric", c.is_alphanumeric() == (c.is_alphabetic() || c.is_numeric()));
        want("is_digit(10)", c.is_digit(10) == c.is_ascii_digit());
        want("lower case and white space", s.to_lowercase().chars().any(|x| x.is_whitespace()) == c.is_whitespace());
        if k < 0x3000 { for (a, x) in &folds { want("folding", x.is_match(&s) == (fold1(c) == *a)); } }
    }
    n
}
fn more(r: &mut Rng, bad: &mut Vec<String>) {
    let a = text(r, 8); let b = text(r, 8); let c = text(r, 8);
    // trimming and lower case commute
    if a.to_lowercase().trim() != a.trim().to_lowercase() && bad.len() < 20 { bad.push(format!("ax_lowered_trimmed {:?}", a)) }
    // UniCase compares some texts made of these: an order
    use unicase::UniCase as U;
    use std::cmp::Ordering::*;
    let (x, y, z) = (U::new(a.as_str()), U::new(b.as_str()), U::new(c.as_str()));
    let ok = x.cmp(&y) == y.cmp(&x).reverse() && (x == y) == (x.cmp(&y) == Equal) && x.partial_cmp(&y) == Some(x.cmp(&y)) && !(x.cmp(&y) != Greater && y.cmp(&z) != Greater && x.cmp(&z) == Greater)
        && (!(a.is_ascii() && b.is_ascii()) || x.cmp(&y) == a.to_ascii_lowercase().cmp(&b.to_ascii_lowercase()));
    if !ok && bad.len() < 20 { bad.push(format!("unicase {:?} {:?} {:?}", a, b, c)) }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[2].parse().unwrap();
    let secs: u64 = a[3].parse().unwrap();
    let mut r = Rng(seed.wrapping_mul(0x9e3779b97f4a7c15) | 1);
    let mut bad = vec![];
    let singles = axioms(&mut bad);
    let mut kid = Command::new(&a[1]).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().unwrap();
    let mut to = kid.stdin.take().unwrap();
    let mut from = BufReader::new(kid.stdout.take().unwrap());
    let end = Instant::now() + Duration::from_secs(secs);
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut total = 0u64;
    while Instant::now() < end && bad.len() < 20 {
        let mut batch = vec![];
        while batch.len() < 300 { if let Some(x) = asked(&mut r, &a[4..]) { batch.push(x) } more(&mut r, &mut bad); }
        let text: String = batch.iter().map(|x| x.0.clone() + "\n").collect();
        let w = std::thread::spawn(move || { to.write_all(text.as_bytes()).unwrap(); to.flush().unwrap(); to });
        for (q, want) in &batch {
            let mut l = String::new();
            if from.read_line(&mut l).unwrap() == 0 { bad.push(format!("the twins gave up on {}", q)); break }
            let got = l.trim_end_matches('\n');
            *counts.entry(q.split('\t').next().unwrap().into()).or_default() += 1;
            total += 1;
            if got == "?" { continue } // the contract says nothing
            if got != want && bad.len() < 20 { bad.push(format!("{}: library {:?}, specification {:?}", q.replace('\t', " "), want, got)) }
        }
        to = w.join().unwrap();
    }
    drop(to);
    let _ = kid.wait();
    println!("{}", serde_json::json!({"ok": bad.is_empty(), "questions": total, "by_function": counts, "facts_about_single_characters": singles, "patterns_of_the_code": a[4..].to_vec(), "differences": bad}));
}
