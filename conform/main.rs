// Reads one request a line and answers it: fields between tabs, texts as code points in hex between commas.
fn dec(c: char) -> bool { let n = c as u32; [0x30u32, 0x660, 0x966, 0xff10, 0x1d7ce].iter().any(|a| n >= *a && n < a + 10) || (n >= 0x1d7ce && n < 0x1d800) }
fn fold1(c: char) -> char { match c { 'A'..='Z' => c.to_ascii_lowercase(), '\u{17f}' => 's', '\u{212a}' => 'k', c => c } }
fn text(s: &str) -> Vec<char> { if s.is_empty() { vec![] } else { s.split(',').map(|h| char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap()).collect() } }
fn show(t: &Vec<char>) -> String { t.iter().map(|c| format!("{:x}", *c as u32)).collect::<Vec<_>>().join(",") }
fn shows(v: &Vec<Vec<char>>) -> String { v.iter().map(show).collect::<Vec<_>>().join(";") + &format!("#{}", v.len()) }
fn shows_opt(v: &Vec<Option<Vec<char>>>) -> String { v.iter().map(|x| match x { Some(t) => format!("+{}", show(t)), None => "-".to_string() }).collect::<Vec<_>>().join(";") }
// Re::.. and Cls::.. as vx/src/re.rs prints them
struct P<'a> { s: &'a [char], i: usize }
impl<'a> P<'a> {
    fn word(&mut self) -> String { let mut w = String::new(); while self.i < self.s.len() && (self.s[self.i].is_alphanumeric() || self.s[self.i] == ':') { w.push(self.s[self.i]); self.i += 1; } w }
    fn eat(&mut self, t: &str) { for c in t.chars() { assert!(self.s[self.i] == c, "expected {:?} at {}", t, self.i); self.i += 1; } }
    fn chr(&mut self) -> char {
        self.eat("'");
        let mut c = self.s[self.i]; self.i += 1;
        if c == '\\' {
            let e = self.s[self.i]; self.i += 1;
            c = match e { 'n' => '\n', 't' => '\t', 'r' => '\r', '0' => '\0', 'u' => { self.eat("{"); let h = self.word(); self.eat("}"); char::from_u32(u32::from_str_radix(&h, 16).unwrap()).unwrap() } e => e };
        }
        self.eat("'");
        c
    }
    fn bcls(&mut self) -> Box<XCls> { self.eat("Box::new("); let x = self.cls(); self.eat(")"); Box::new(x) }
    fn bre(&mut self) -> Box<XRe> { self.eat("Box::new("); let x = self.re(); self.eat(")"); Box::new(x) }
    fn cls(&mut self) -> XCls {
        match self.word().as_str() {
            "Cls::Lit" => { self.eat("("); let c = self.chr(); self.eat(")"); XCls::Lit(c) }
            "Cls::Fold" => { self.eat("("); let c = self.chr(); self.eat(")"); XCls::Fold(c) }
            "Cls::Range" => { self.eat("("); let c = self.chr(); self.eat(", "); let d = self.chr(); self.eat(")"); XCls::Range(c, d) }
            "Cls::Dec" => XCls::Dec, "Cls::Ws" => XCls::Ws, "Cls::Any" => XCls::Any,
            "Cls::Or" => { self.eat("("); let a = self.bcls(); self.eat(", "); let b = self.bcls(); self.eat(")"); XCls::Or(a, b) }
            "Cls::Not" => { self.eat("("); let a = self.bcls(); self.eat(")"); XCls::Not(a) }
            w => panic!("class {:?}", w),
        }
    }
    fn re(&mut self) -> XRe {
        match self.word().as_str() {
            "Re::Empty" => XRe::Empty, "Re::Start" => XRe::Start, "Re::End" => XRe::End,
            "Re::Set" => { self.eat("("); let k = self.cls(); self.eat(")"); XRe::Set(k) }
            "Re::Cat" => { self.eat("("); let a = self.bre(); self.eat(", "); let b = self.bre(); self.eat(")"); XRe::Cat(a, b) }
            "Re::Alt" => { self.eat("("); let a = self.bre(); self.eat(", "); let b = self.bre(); self.eat(")"); XRe::Alt(a, b) }
            "Re::Star" => { self.eat("("); let a = self.bre(); self.eat(")"); XRe::Star(a) }
            "Re::Opt" => { self.eat("("); let a = self.bre(); self.eat(")"); XRe::Opt(a) }
            "Re::Group" => { self.eat("("); let n: usize = self.word().parse().unwrap(); self.eat(", "); let a = self.bre(); self.eat(")"); XRe::Group(n, a) }
            w => panic!("expression {:?}", w),
        }
    }
}
fn re(s: &str) -> XRe { let cs: Vec<char> = s.chars().collect(); let mut p = P { s: &cs, i: 0 }; let r = p.re(); assert!(p.i == cs.len()); r }
fn answer(f: &[&str]) -> String {
    let t = |i: usize| text(f[i]);
    let n = |i: usize| f[i].parse::<i128>().unwrap();
    let b = |x: bool| x.to_string();
    let list = |i: usize| -> Vec<Vec<char>> { if f[i] == "#" { vec![] } else { f[i].split(';').map(text).collect() } };
    match f[0] {
        "trim_l" => show(&x_trim_l(&t(1))), "trim_r" => show(&x_trim_r(&t(1))), "trimmed" => show(&x_trimmed(&t(1))),
        "trim_end" => show(&x_trim_end(&t(1), &t(2))), "trim_front" => show(&x_trim_front(&t(1), &t(2))), "trim_both" => show(&x_trim_end(&x_trim_front(&t(1), &t(2)), &t(2))),
        "first" => { let s = t(1); let k = x_first(&s, &t(2)); if k < s.len() { x_blen(&take(&s, k)).to_string() } else { "-".into() } }
        "split" => shows(&x_split(&t(1), &t(2))), "splitn" => shows(&x_split_most(&t(1), &t(2), n(3) as usize)),
        "split_once" => { let s = t(1); let k = x_first(&s, &t(2)); if k < s.len() { format!("{}/{}", show(&take(&s, k)), show(&skip(&s, k + 1))) } else { "-".into() } }
        "join" => { let v = list(2); show(&x_joined(&v, v.len(), &t(1))) }
        "prefix" => b(x_has_prefix(&t(1), &t(2))), "suffix" => b(x_has_suffix(&t(1), &t(2))), "occurs" => b(x_occurs(&t(1), &t(2))),
        "strip_prefix" => { let (s, p) = (t(1), t(2)); if x_has_prefix(&s, &p) { format!("+{}", show(&skip(&s, p.len()))) } else { "-".into() } }
        "strip_suffix" => { let (s, p) = (t(1), t(2)); if x_has_suffix(&s, &p) { format!("+{}", show(&take(&s, s.len() - p.len()))) } else { "-".into() } }
        "repl" => show(&x_repl(&t(1), t(2)[0], &t(3))), "lex" => format!("{:?}", x_lex(&t(1), &t(2))),
        "ascii_low" => show(&x_ascii_low(&t(1))), "eq_ascii" => b(same(&x_ascii_low(&t(1)), &x_ascii_low(&t(2)))),
        "int" => match x_int_of(&t(1), n(2), n(3)) { Some(v) => v.to_string(), None => "-".into() },
        "nat" => match x_nat_of(&t(1), n(2)) { Some(v) => v.to_string(), None => "-".into() },
        "find" => { let s = t(1); match x_find(&s, &t(2)) { Some(k) => x_blen(&take(&s, k)).to_string(), None => "-".into() } }
        "rfind" => { let s = t(1); match x_rfind(&s, &t(2)) { Some(k) => x_blen(&take(&s, k)).to_string(), None => "-".into() } }
        "ascii_up" => show(&x_ascii_up(&t(1))),
        "classes" => { let x = x_classes(t(1)[0]); format!("{:?}", x) }
        "slice_from" => match x_slice_from(&t(1), n(2) as usize) { Some(v) => format!("+{}", show(&v)), None => "-".into() },
        "decimal" => show(&x_decimal(n(1) as i64)), "blen" => x_blen(&t(1)).to_string(),
        "slice" => match x_slice(&t(1), n(2) as usize, n(3) as usize) { Some(v) => format!("+{}", show(&v)), None => "-".into() },
        "list" => show(&x_list_debug(&list(2), f[1] == "true")),
        "is_match" => b(x_matches(&re(f[2]), &t(1))), "find_iter" if !x_unanchored(&re(f[2])) => "?".into(),
        "find_iter" => shows(&x_finds(&re(f[2]), &t(1), 0, None)),
        "captures" => match x_caps(&re(f[2]), &t(1)) { Some(v) => shows_opt(&v), None => "none".into() },
        "plain" => b(x_plain(&t(1))), "glob" => b(x_glob(&t(1), &t(2))),
        o => panic!("operation {:?}", o),
    }
}
fn main() { std::thread::Builder::new().stack_size(1 << 30).spawn(serve).unwrap().join().unwrap() }
fn serve() {
    use std::io::{BufRead, Write};
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let f: Vec<&str> = l.split('\t').collect();
        writeln!(out, "{}", answer(&f)).unwrap();
        out.flush().unwrap();
    }
}
