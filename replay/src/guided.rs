//! Coverage-guided search: libronda is compiled with coverage counters (see lib/harness.py); cases that reach something new are kept
//! and changed. It only finds inputs: a case that fails is reported by the same checker as any other.
use crate::gen::{Dict, Rng};
use serde_json::{json, Value as J};
use std::sync::atomic::{AtomicBool, AtomicU8, AtomicUsize, Ordering::Relaxed};

// ---------- what the instrumented code calls ----------
static ON: AtomicBool = AtomicBool::new(false);
const REGS: usize = 512;
static REG: [(AtomicUsize, AtomicUsize); REGS] = [const { (AtomicUsize::new(0), AtomicUsize::new(0)) }; REGS];
static NREG: AtomicUsize = AtomicUsize::new(0);
const CMPS: usize = 1 << 16;
static CMP: [AtomicU8; CMPS] = [const { AtomicU8::new(0) }; CMPS];
static DIRTY: [AtomicUsize; 4096] = [const { AtomicUsize::new(0) }; 4096];
static NDIRTY: AtomicUsize = AtomicUsize::new(0);

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, end: *mut u8) {
    let n = NREG.load(Relaxed);
    if n < REGS && start < end && (0..n).all(|i| REG[i].0.load(Relaxed) != start as usize) {
        REG[n].0.store(start as usize, Relaxed);
        REG[n].1.store(end as usize - start as usize, Relaxed);
        NREG.store(n + 1, Relaxed);
    }
}
#[inline(always)]
fn cmp(pc: usize, a: u64, b: u64, w: u32) {
    let x = a ^ b;
    let d = if x == 0 { 0 } else { 1 + (x.count_ones() as usize).min(w as usize) };
    let near = a.wrapping_sub(b).min(b.wrapping_sub(a)) as usize;
    let d = if near <= 16 { near } else { 17 + d };
    let h = (pc.wrapping_mul(0x9E37_79B9_7F4A_7C15usize) >> 20).wrapping_add(d) & (CMPS - 1);
    if CMP[h].load(Relaxed) == 0 {
        CMP[h].store(1, Relaxed);
        let k = NDIRTY.fetch_add(1, Relaxed);
        if k < DIRTY.len() {
            DIRTY[k].store(h, Relaxed);
        }
    }
}
macro_rules! traces {
    ($($n:ident $f:ident $t:ty;)*) => { $(
        extern "C" fn $f(a: $t, b: $t, pc: usize) {
            if ON.load(Relaxed) {
                cmp(pc, a as u64, b as u64, <$t>::BITS);
            }
        }
        /// passes its return address on: it tells one comparison from another
        #[cfg(target_arch = "x86_64")]
        #[unsafe(naked)]
        #[no_mangle]
        pub extern "C" fn $n(_a: $t, _b: $t) {
            std::arch::naked_asm!("mov rdx, [rsp]", "jmp {f}", f = sym $f)
        }
        #[cfg(not(target_arch = "x86_64"))]
        #[no_mangle]
        pub extern "C" fn $n(a: $t, b: $t) {
            $f(a, b, stringify!($n).len())
        }
    )* };
}
traces! {
    __sanitizer_cov_trace_cmp1 cmp1 u8;
    __sanitizer_cov_trace_cmp2 cmp2 u16;
    __sanitizer_cov_trace_cmp4 cmp4 u32;
    __sanitizer_cov_trace_cmp8 cmp8 u64;
    __sanitizer_cov_trace_const_cmp1 ccmp1 u8;
    __sanitizer_cov_trace_const_cmp2 ccmp2 u16;
    __sanitizer_cov_trace_const_cmp4 ccmp4 u32;
    __sanitizer_cov_trace_const_cmp8 ccmp8 u64;
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_switch(_v: u64, _cases: *const u64) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_pcs_init(_a: *const usize, _b: *const usize) {}

pub fn sizes() -> usize { (0..NREG.load(Relaxed)).map(|i| REG[i].1.load(Relaxed)).sum() }
pub fn available() -> bool {
    NREG.load(Relaxed) > 0
}

/// Which counters a case moved that no case moved before (buckets of 1, 2, 3, 4-7, ... hits), and which comparisons came out differently.
struct Seen {
    bits: Vec<Vec<u8>>,
}
impl Seen {
    fn new() -> Seen {
        let n = NREG.load(Relaxed);
        Seen { bits: (0..n).map(|i| vec![0u8; REG[i].1.load(Relaxed)]).collect() }
    }
    fn clear(&self) {
        for (i, b) in self.bits.iter().enumerate() {
            unsafe { std::ptr::write_bytes(REG[i].0.load(Relaxed) as *mut u8, 0, b.len()) }
        }
        NDIRTY.store(0, Relaxed);
    }
    /// 2: a new counter or bucket, 1: a comparison nearer or further than any before, 0: nothing new
    fn news(&mut self) -> u8 {
        let mut out = if NDIRTY.load(Relaxed) > 0 { 1 } else { 0 };
        for (i, b) in self.bits.iter_mut().enumerate() {
            let c = unsafe { std::slice::from_raw_parts(REG[i].0.load(Relaxed) as *const u8, b.len()) };
            let mut k = 0;
            while k < c.len() {
                if k + 8 <= c.len() && c[k..k + 8] == [0; 8] {
                    k += 8;
                    continue;
                }
                if c[k] != 0 {
                    let bucket: u8 = match c[k] {
                        1 => 1,
                        2 => 2,
                        3 => 4,
                        4..=7 => 8,
                        8..=15 => 16,
                        16..=31 => 32,
                        32..=127 => 64,
                        _ => 128,
                    };
                    if b[k] & bucket == 0 {
                        b[k] |= bucket;
                        out = 2;
                    }
                }
                k += 1;
            }
        }
        out
    }
}

// ---------- changing a case ----------
#[derive(Clone)]
enum Step {
    K(String),
    I(usize),
}
fn leaves(j: &J, at: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
    match j {
        J::Array(v) => {
            out.push(at.clone());
            for (i, x) in v.iter().enumerate() {
                at.push(Step::I(i));
                leaves(x, at, out);
                at.pop();
            }
        }
        J::Object(o) => {
            for (k, x) in o {
                at.push(Step::K(k.clone()));
                leaves(x, at, out);
                at.pop();
            }
        }
        J::String(_) | J::Number(_) => out.push(at.clone()),
        _ => {}
    }
}
fn at<'a>(j: &'a mut J, p: &[Step]) -> Option<&'a mut J> {
    let mut c = j;
    for s in p {
        c = match s {
            Step::K(k) => c.get_mut(k)?,
            Step::I(i) => c.get_mut(*i)?,
        };
    }
    Some(c)
}
const BITS: &[&str] = &[
    ".", "_", "-", "+", "!", "*", " ", "0", "1", "9", "10", "a", "b", "Z", "post", "dev", "rc", "|", ",", "(", ")", "<", ">", "=", "==", "!=", "<=", ">=", "~=",
    "~", "^", "$", "\\", "\"", "'", "@", "#", "/", ":", "\n", "\t", "\0", "\u{e9}", "\u{df}", "\u{130}", "\u{661}", "\u{1f600}", "\u{a0}", "1.2", "1!", ".*", "=1", "00", "&",
];
/// a number of up to that many bits, small ones as likely as big ones
fn size(r: &mut Rng, bits: usize) -> usize {
    let b = r.below(bits);
    r.below(1 << b)
}
fn few(r: &mut Rng, most: usize, few: usize) -> usize {
    let n = if r.chance(20) { most } else { few };
    r.below(n) + 1
}
fn word(r: &mut Rng, d: &Dict, others: &[String]) -> String {
    match r.below(10) {
        0..=4 => r.pick(BITS).to_string(),
        5 | 6 if !d.texts.is_empty() => r.pick(&d.texts).clone(),
        7 if !d.nums.is_empty() => r.pick(&d.nums).to_string(),
        8 => size(r, 34).to_string(),
        _ if !others.is_empty() => r.pick(others).clone(),
        _ => char::from_u32(r.below(0x500) as u32).unwrap_or('x').to_string(),
    }
}
fn change_text(t: &str, r: &mut Rng, d: &Dict, others: &[String]) -> String {
    let cs: Vec<char> = t.chars().collect();
    let n = cs.len();
    let i = r.below(n + 1);
    let k = if r.chance(60) { r.below(3) + 1 } else { r.below(n + 1) };
    let j = (i + k).min(n);
    let st = |v: &[char]| v.iter().collect::<String>();
    match r.below(14) {
        0 | 1 => st(&cs[..i]) + &st(&cs[j..]),
        2 | 3 => st(&cs[..i]) + &word(r, d, others) + &st(&cs[i..]),
        4 => st(&cs[..i]) + &word(r, d, others) + &st(&cs[j..]),
        5 => st(&cs[..j]) + &st(&cs[i..]),
        6 => {
            let m = few(r, 60, 5);
            st(&cs[..j]) + &st(&cs[i..j]).repeat(m) + &st(&cs[j..])
        }
        7 => {
            let mid: String = st(&cs[i..j]);
            st(&cs[..i]) + &(if r.chance(50) { mid.to_uppercase() } else { mid.to_lowercase() }) + &st(&cs[j..])
        }
        8 if !others.is_empty() => r.pick(others).clone(),
        9 if !others.is_empty() => {
            let o: Vec<char> = r.pick(others).chars().collect();
            let a = r.below(o.len() + 1);
            st(&cs[..i]) + &st(&o[a..])
        }
        10 => {
            let mut v = cs.clone();
            if n > 1 {
                let k = r.below(n);
                v.swap(i % n, k);
            }
            st(&v)
        }
        11 => {
            // a number in the text moves by one, or becomes another one
            let ds: Vec<usize> = (0..n).filter(|&x| cs[x].is_ascii_digit()).collect();
            if ds.is_empty() {
                return word(r, d, others);
            }
            let a = *r.pick(&ds);
            let (mut b, mut e) = (a, a + 1);
            while b > 0 && cs[b - 1].is_ascii_digit() {
                b -= 1;
            }
            while e < n && cs[e].is_ascii_digit() {
                e += 1;
            }
            let x: i128 = st(&cs[b..e]).parse().unwrap_or(0);
            let y = match r.below(5) {
                0 => x.saturating_add(1),
                1 => x.saturating_sub(1),
                2 => x.saturating_mul(10),
                3 if !d.nums.is_empty() => (*r.pick(&d.nums) as i128 + r.below(3) as i128 - 1).abs(),
                _ => size(r, 33) as i128,
            };
            st(&cs[..b]) + &y.to_string() + &st(&cs[e..])
        }
        12 => st(&cs[..i]) + &char::from_u32(cs.get(i).map_or(0x61, |c| *c as u32).wrapping_add(r.below(5) as u32).wrapping_sub(2)).unwrap_or('a').to_string() + &st(&cs[(i + 1).min(n)..]),
        _ => word(r, d, others),
    }
}
fn texts(j: &J, out: &mut Vec<String>) {
    match j {
        J::String(t) => out.push(t.clone()),
        J::Array(v) => v.iter().for_each(|x| texts(x, out)),
        J::Object(o) => o.values().for_each(|x| texts(x, out)),
        _ => {}
    }
}
fn change(j: &mut J, r: &mut Rng, d: &Dict, mate: &J) {
    let mut ps = vec![];
    leaves(j, &mut vec![], &mut ps);
    if ps.is_empty() {
        return;
    }
    let mut others = vec![];
    texts(j, &mut others);
    if r.chance(30) {
        texts(mate, &mut others);
    }
    let p = r.pick(&ps).clone();
    // now and then a whole value of the other case, or of another place in this one, is put here
    if r.chance(12) {
        let mut src = if r.chance(50) { mate.clone() } else { j.clone() };
        let mut qs = vec![];
        leaves(&src, &mut vec![], &mut qs);
        if let Some(q) = (!qs.is_empty()).then(|| r.pick(&qs).clone()) {
            if let Some(x) = at(&mut src, &q).cloned() {
                if let Some(y) = at(j, &p) {
                    if std::mem::discriminant(&x) == std::mem::discriminant(y) {
                        *y = x;
                    }
                }
            }
        }
        return;
    }
    let Some(x) = at(j, &p) else { return };
    match x {
        J::String(t) => {
            // a document inside a text is changed as a document
            if t.starts_with('{') && r.chance(85) {
                if let Ok(mut inner) = serde_json::from_str::<J>(t) {
                    let m = inner.clone();
                    change(&mut inner, r, d, &m);
                    *t = inner.to_string();
                    return;
                }
            }
            *t = change_text(t, r, d, &others);
        }
        J::Number(n) => {
            let Some(v) = n.as_i64() else { return };
            let y = match r.below(7) {
                0 => v.wrapping_add(1),
                1 => v.wrapping_sub(1),
                2 => r.below(4) as i64,
                3 if !d.nums.is_empty() => r.pick(&d.nums).wrapping_add(r.below(3) as i64 - 1),
                4 => v.wrapping_neg(),
                5 => v.wrapping_mul(2),
                _ => size(r, 33) as i64,
            };
            *x = json!(y);
        }
        J::Array(v) => {
            let n = v.len();
            match r.below(6) {
                0 if n > 0 => {
                    v.remove(r.below(n));
                }
                1 if n > 0 => {
                    let y = v[r.below(n)].clone();
                    v.insert(r.below(n + 1), y);
                }
                2 if n > 1 => v.swap(r.below(n), r.below(n)),
                3 if n > 0 => {
                    let m = few(r, 40, 3);
                    let y = v[r.below(n)].clone();
                    v.extend(std::iter::repeat(y).take(m));
                }
                4 if n > 1 => v.truncate(r.below(n)),
                _ => {
                    // something of the same kind as what stands here, from the other case
                    let mut m = mate.clone();
                    if let Some(J::Array(w)) = at(&mut m, &p) {
                        if !w.is_empty() {
                            let y = r.pick(w).clone();
                            v.insert(r.below(n + 1), y);
                        }
                    }
                }
            }
        }
        _ => {}
    }
}

/// Fresh cases and changed ones, in turn. `run` says whether the case fails; it gets each case before it is checked through `note`.
pub fn hunt(
    seed: u64,
    secs: u64,
    d: &Dict,
    gen: impl Fn(u64) -> J,
    mut note: impl FnMut(u64, &J),
    mut check: impl FnMut(&J) -> Option<String>,
    start: u64,
    step: u64,
) -> (u64, usize, Option<(J, String)>) {
    let t0 = std::time::Instant::now();
    let mut r = Rng::new(seed ^ 0x6775_6964, start);
    let mut seen = Seen::new();
    let mut pool: Vec<J> = vec![];
    let mut sizes: Vec<usize> = vec![];
    let (mut n, mut i) = (0u64, start);
    ON.store(true, Relaxed);
    let mut out = None;
    while t0.elapsed().as_secs() < secs {
        let fresh = pool.len() < 8 || n < 400 || r.chance(20);
        let case = if fresh {
            i += step;
            gen(i)
        } else {
            let mut pick = || if r.chance(50) { pool.len() - 1 - r.below((pool.len() / 6).max(1)) } else { r.below(pool.len()) };
            let (a, b) = (pick(), pick());
            let k = if sizes[a] <= sizes[b] { a } else { b };
            let mut c = pool[k].clone();
            let mate = if r.chance(30) {
                i += step;
                gen(i)
            } else {
                pool[r.below(pool.len())].clone()
            };
            for _ in 0..1 + (r.below(8) * r.below(8)) / 14 {
                change(&mut c, &mut r, d, &mate);
            }
            c
        };
        let text = case.to_string();
        if !fresh && text.len() > 1500 {
            continue;
        }
        n += 1;
        note(n, &case);
        seen.clear();
        let bad = check(&case);
        let news = seen.news();
        if let Some(m) = bad {
            out = Some((case, m));
            break;
        }
        if news == 2 && text.len() <= 1500 || news == 1 && text.len() <= 300 {
            if pool.len() >= 6000 {
                let k = r.below(pool.len());
                pool.swap_remove(k);
                sizes.swap_remove(k);
            }
            pool.push(case);
            sizes.push(text.len());
        }
    }
    ON.store(false, Relaxed);
    (n, pool.len(), out)
}
