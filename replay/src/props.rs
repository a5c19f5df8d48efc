//! One checker per property: runs the real code of /repo on a case and compares with the oracle.
use crate::gen::*;
use crate::oracle::*;
use ronda::verif_hooks::{PEP440String, Spec, VersionParsingError, VersionSpec};
use ronda::*;
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::HashMap;
use std::convert::TryFrom;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type R = Result<bool, String>;

/// The recorded findings (see /verif/known_findings.txt), each re-run against the real code.
pub fn known() -> Vec<(&'static str, &'static str, bool)> {
    let v = |t: &str| t.parse::<Version>().ok().unwrap();
    let intransitive = catch_unwind(AssertUnwindSafe(|| {
        let (a, b, c) = (v("1.1"), v("1.1post1"), v("1.1.0"));
        a < b && b < c && !(a < c)
    }))
    .unwrap_or(false);
    let op_panics = |o: CompOp| catch_unwind(AssertUnwindSafe(|| v("1.4.5").compare_to_version(&v("1.4"), &o))).is_err();
    let spec_panics = catch_unwind(AssertUnwindSafe(|| match VersionSpec::try_from("~=1.4") {
        Ok(s) => catch_unwind(AssertUnwindSafe(|| s.test_match_version(&v("1.4.5")))).is_err(),
        Err(_) => false,
    }))
    .unwrap_or(false);
    vec![
        ("C05", "order-mixed-kinds", intransitive),
        ("C06", "compatible-operator", op_panics(CompOp::Compatible) || op_panics(CompOp::Incompatible)),
        ("C13", "compatible-spec", spec_panics),
    ]
}

// ---------- conversions ----------
pub fn p_real(p: &P) -> VersionPart {
    match p {
        P::E(n) => VersionPart::Epoch(*n),
        P::I(n) => VersionPart::Integer(*n),
        P::L(s) => VersionPart::LexicographicString(s.clone()),
        P::T(s) => VersionPart::PEP440String(PEP440String::from(s)),
        P::Z => VersionPart::Empty,
    }
}
pub fn p_of(p: &VersionPart) -> P {
    match p {
        VersionPart::Epoch(n) => P::E(*n),
        VersionPart::Integer(n) => P::I(*n),
        VersionPart::LexicographicString(s) => P::L(s.clone()),
        VersionPart::PEP440String(s) => P::T(s.to_string()),
        VersionPart::Empty => P::Z,
    }
}
pub fn ps_of(v: &Version) -> Vec<P> {
    v.parts().iter().map(p_of).collect()
}
pub fn version_of(text: &str, ps: &[P]) -> Version {
    let v: Vec<VersionPart> = ps.iter().map(p_real).collect();
    Version::parse(text, &move |_: &str| Ok(v.clone())).ok().expect("custom parser result")
}
pub fn op_real(o: Op) -> CompOp {
    match o {
        Op::Eq => CompOp::Eq,
        Op::Ne => CompOp::Ne,
        Op::Lt => CompOp::Lt,
        Op::Le => CompOp::Le,
        Op::Ge => CompOp::Ge,
        Op::Gt => CompOp::Gt,
        Op::Sw => CompOp::StartsWith,
        Op::Nsw => CompOp::NotStartsWith,
        Op::Comp => CompOp::Compatible,
        Op::Incomp => CompOp::Incompatible,
    }
}
pub fn op_of(o: &CompOp) -> Op {
    match o {
        CompOp::Eq => Op::Eq,
        CompOp::Ne => Op::Ne,
        CompOp::Lt => Op::Lt,
        CompOp::Le => Op::Le,
        CompOp::Ge => Op::Ge,
        CompOp::Gt => Op::Gt,
        CompOp::StartsWith => Op::Sw,
        CompOp::NotStartsWith => Op::Nsw,
        CompOp::Compatible => Op::Comp,
        CompOp::Incompatible => Op::Incomp,
    }
}
fn ord_op(o: Ordering) -> Op {
    match o {
        Ordering::Less => Op::Lt,
        Ordering::Equal => Op::Eq,
        Ordering::Greater => Op::Gt,
    }
}
pub fn c_real(c: C) -> Combinator {
    match c {
        C::And => Combinator::And,
        C::Or => Combinator::Or,
        C::None => Combinator::None,
    }
}
pub fn c_of(c: &Combinator) -> C {
    match c {
        Combinator::And => C::And,
        Combinator::Or => C::Or,
        Combinator::None => C::None,
    }
}
pub fn t_real(t: &T) -> Option<VersionSpecOrConstraintTree> {
    Some(match t {
        T::S(s) => VersionSpecOrConstraintTree::VersionSpec(VersionSpec::try_from(&s[..]).ok()?),
        T::N(_, _) => VersionSpecOrConstraintTree::ConstraintTree(n_real(t)?),
    })
}
pub fn n_real(t: &T) -> Option<ConstraintTree> {
    match t {
        T::N(c, ps) => Some(ConstraintTree {
            combinator: c_real(*c),
            parts: ps.iter().map(t_real).collect::<Option<Vec<_>>>()?,
        }),
        _ => None,
    }
}
pub fn t_of(t: &VersionSpecOrConstraintTree) -> T {
    match t {
        VersionSpecOrConstraintTree::VersionSpec(s) => T::S(s.get_spec()),
        VersionSpecOrConstraintTree::ConstraintTree(n) => n_of(n),
    }
}
pub fn n_of(n: &ConstraintTree) -> T {
    T::N(c_of(&n.combinator), n.parts.iter().map(t_of).collect())
}

// ---------- JSON encoding of cases ----------
pub fn jp(p: &P) -> J {
    match p {
        P::E(n) => json!({ "E": n }),
        P::I(n) => json!({ "I": n }),
        P::L(s) => json!({ "L": s }),
        P::T(s) => json!({ "T": s }),
        P::Z => json!("Z"),
    }
}
fn pj(j: &J) -> Option<P> {
    if j == "Z" {
        return Some(P::Z);
    }
    let (k, v) = j.as_object()?.iter().next()?;
    Some(match &k[..] {
        "E" => P::E(i16::try_from(v.as_i64()?).ok()?),
        "I" => P::I(i32::try_from(v.as_i64()?).ok()?),
        "L" => P::L(v.as_str()?.into()),
        "T" => P::T(v.as_str()?.into()),
        _ => return None,
    })
}
pub fn jps(v: &[P]) -> J {
    J::Array(v.iter().map(jp).collect())
}
fn psj(j: &J) -> Option<Vec<P>> {
    j.as_array()?.iter().map(pj).collect()
}
pub fn jt(t: &T) -> J {
    match t {
        T::S(s) => json!({ "s": s }),
        T::N(c, ps) => json!({"c": match c {C::And=>"&",C::Or=>"|",C::None=>"-"}, "p": ps.iter().map(jt).collect::<Vec<_>>()}),
    }
}
fn tj(j: &J) -> Option<T> {
    if let Some(s) = j.get("s") {
        return Some(T::S(s.as_str()?.into()));
    }
    let c = match j.get("c")?.as_str()? {
        "&" => C::And,
        "|" => C::Or,
        "-" => C::None,
        _ => return None,
    };
    Some(T::N(c, j.get("p")?.as_array()?.iter().map(tj).collect::<Option<Vec<_>>>()?))
}
fn s<'a>(j: &'a J, k: &str) -> Option<&'a str> {
    j.get(k)?.as_str()
}

// ---------- helpers ----------
thread_local! { pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }
pub fn guard<X>(what: &str, f: impl FnOnce() -> X) -> Result<X, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("{} panicked: {}", what, LAST_PANIC.with(|l| l.borrow().clone())))
}
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
macro_rules! get {
    ($e:expr) => {
        match $e {
            Some(x) => x,
            None => return Ok(false),
        }
    };
}
thread_local! { static SPECS: RefCell<HashMap<String, Option<(M, bool)>>> = RefCell::new(HashMap::new()); }
pub fn spec_c(t: &str) -> Option<(M, bool)> {
    SPECS.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 4000 {
            c.clear();
        }
        c.entry(t.to_string()).or_insert_with(|| spec(t)).clone()
    })
}
fn holds(spec_text: &str, vt: &str, v: &[P]) -> bool {
    m_test(&spec_c(spec_text).expect("valid spec").0, vt, v)
}
fn valid(t: &str) -> bool {
    spec_c(t).is_some()
}
/// all specs valid and covered
fn covered(t: &T) -> bool {
    let mut v = vec![];
    t.specs(&mut v);
    v.iter().all(|x| matches!(spec_c(x), Some((m, _)) if !is_compat(&m)))
}

fn pair_case(i: u64, seed: u64, d: &Dict) -> J {
    // exhaustive small scope first, then random near-pairs
    const N: u64 = 11;
    let comp = |k: u64| -> P {
        match k {
            0 => P::I(0),
            1 => P::I(1),
            2 => P::T("".into()),
            3 => P::T("post".into()),
            4 => P::T("dev".into()),
            5 => P::T("a".into()),
            6 => P::L("".into()),
            7 => P::L("b".into()),
            8 => P::E(0),
            9 => P::E(1),
            _ => P::Z,
        }
    };
    let vecs = 1 + N + N * N;
    let vec = |k: u64| -> Vec<P> {
        if k == 0 {
            vec![]
        } else if k <= N {
            vec![comp(k - 1)]
        } else {
            vec![comp((k - 1 - N) / N), comp((k - 1 - N) % N)]
        }
    };
    if i < vecs * vecs {
        return json!({"a": jps(&vec(i / vecs)), "b": jps(&vec(i % vecs))});
    }
    let mut g = Gen::new(seed, i, d);
    if g.r.chance(35) {
        let a = g.good_vtext();
        let b = g.good_vtext_like(&a);
        return json!({"at": a, "bt": b});
    }
    let a = g.parts();
    let b = g.parts_like(&a);
    let (a, b) = if g.r.chance(50) { (a, b) } else { (b, a) };
    let mut c = json!({"a": jps(&a), "b": jps(&b)});
    misname(&mut g, &mut c, &["a", "b"]);
    c
}
/// sometimes: texts for the versions of a custom parser, alike or not
fn misname(g: &mut Gen, c: &mut J, ks: &[&str]) {
    if !g.r.chance(30) {
        return;
    }
    let mut t = g.good_vtext();
    for k in ks {
        c[format!("{}x", k)] = json!(t);
        if g.r.chance(40) {
            t = g.good_vtext_like(&t);
        }
    }
}
/// A case's version: real object, text, components
fn ver(c: &J, k: &str) -> Result<Option<(Version, String, Vec<P>)>, String> {
    if let Some(ps) = c.get(k) {
        return Ok(psj(ps).map(|ps| {
            // the text a parser was given says nothing about the components it made
            let t = s(c, &format!("{}x", k)).map(|x| x.to_string()).unwrap_or(format!("<{}>", k));
            (version_of(&t, &ps), t, ps)
        }));
    }
    let t = match s(c, &format!("{}t", k)) {
        Some(t) => t,
        None => return Ok(None),
    };
    let ps = match parse(t) {
        Some(p) => p,
        None => return Ok(None),
    };
    let v = guard("parsing a version", || t.parse::<Version>())?;
    match v {
        Ok(v) => Ok(Some((v, t.to_string(), ps))),
        Err(e) => Err(format!("well-formed version {:?} rejected: {:?}", t, e)),
    }
}

fn enum_text(i: u64, alphabet: &[&str], maxlen: u32) -> Option<String> {
    let n = alphabet.len() as u64;
    let mut i = i;
    for l in 0..=maxlen {
        let c = n.pow(l);
        if i < c {
            let mut out = String::new();
            for _ in 0..l {
                out.push_str(alphabet[(i % n) as usize]);
                i /= n;
            }
            return Some(out);
        }
        i -= c;
    }
    None
}

fn gen_text(i: u64, seed: u64, d: &Dict) -> J {
    const AL: &[&str] = &["0", "7", "a", "B", ".", "-", "_", "!", "+", "é", "\u{661}", " "];
    if let Some(t) = enum_text(i, AL, 4) {
        return json!({ "t": t });
    }
    let mut g = Gen::new(seed, i, d);
    let t = match g.r.below(10) {
        0..=4 => g.vtext(),
        5..=8 => g.any_text(),
        _ => g.short_text(),
    };
    // lengths around the sizes buffers have
    if g.r.below(400) == 0 {
        let n = *g.r.pick(&[255usize, 256, 1000, 1024, 4096, 8192, 16384, 65536]) + g.r.below(5);
        let mut long = String::new();
        while long.len() < n {
            long += &t;
            if g.r.chance(60) {
                long.push('.');
            }
            long += &g.token();
        }
        return json!({ "t": long });
    }
    json!({ "t": t })
}

// ---------- C01..C03 ----------
fn c01(c: &J) -> R {
    let t = get!(s(c, "t"));
    let want = parse(t).is_some();
    let r = guard("parsing", || t.parse::<Version>().is_ok())?;
    ensure!(r == want, "parsing {:?}: accepted={}, must be {}", t, r, want);
    let r = guard("conda_parser", || conda_parser(t).is_ok())?;
    ensure!(r == want, "conda_parser({:?}): accepted={}, must be {}", t, r, want);
    let r = guard("Version::parse", || Version::parse(t, &conda_parser).is_ok())?;
    ensure!(r == want, "Version::parse({:?}): accepted={}, must be {}", t, r, want);
    if want {
        guard("Version::from", || Version::from(t))?;
    }
    Ok(t.len() > 1)
}
fn c02(c: &J) -> R {
    let t = get!(s(c, "t"));
    let want = get!(parse(t));
    let v = match guard("parsing", || t.parse::<Version>())? {
        Ok(v) => v,
        Err(e) => return Err(format!("{:?} rejected: {:?}", t, e)),
    };
    let got = ps_of(&v);
    ensure!(got == want, "components of {:?}: {:?}, must be {:?}", t, got, want);
    let got: Vec<P> = guard("conda_parser", || conda_parser(t))?.unwrap().iter().map(p_of).collect();
    ensure!(got == want, "conda_parser({:?}): {:?}, must be {:?}", t, got, want);
    let got = ps_of(&guard("Version::from", || Version::from(t))?);
    ensure!(got == want, "Version::from({:?}): {:?}, must be {:?}", t, got, want);
    Ok(want.len() > 1)
}
fn gen_c03(i: u64, seed: u64, d: &Dict) -> J {
    let mut g = Gen::new(seed, i, d);
    let t = g.any_text();
    match g.r.below(8) {
        0 => json!({"t": t, "err": g.r.below(5), "msg": g.any_text()}),
        1 | 2 => json!({ "t": g.good_vtext() }),
        _ => json!({"t": t, "p": jps(&g.parts())}),
    }
}
fn c03_obs(v: &Version, t: &str, ps: &[P]) -> Result<(), String> {
    ensure!(v.as_str() == t, "version made from {:?} reports text {:?}", t, v.as_str());
    let shown = guard("Display", || v.to_string())?;
    ensure!(shown == t, "version made from {:?} displays as {:?}", t, shown);
    ensure!(v.part_count() == ps.len(), "part_count {} for {} components", v.part_count(), ps.len());
    let got = ps_of(v);
    ensure!(got == ps, "parts {:?}, must be {:?}", got, ps);
    for k in (0..ps.len() + 4).chain(vec![usize::MAX, usize::MAX / 2, 1 << 32, 255, 256, 65536]) {
        match (guard("part", || v.part(k).map(p_of))?, ps.get(k)) {
            (Ok(p), Some(q)) => ensure!(p == *q, "part({}) is {:?}, must be {:?}", k, p, q),
            (Err(_), None) => {}
            (r, q) => return Err(format!("part({}) is {:?}, must be {:?}", k, r, q)),
        }
    }
    Ok(())
}
fn mk_err(k: u64, m: &str) -> VersionParsingError {
    match k {
        0 => VersionParsingError::Message(m.to_string()),
        1 => VersionParsingError::DisallowedCharacter,
        2 => VersionParsingError::DuplicatedEpochCharacter,
        3 => VersionParsingError::DuplicatedLocalSeparatorCharacter,
        _ => VersionParsingError::UnknownParseError,
    }
}
fn c03(c: &J) -> R {
    let t = get!(s(c, "t"));
    if let Some(k) = c.get("err").and_then(|k| k.as_u64()) {
        let m = get!(s(c, "msg")).to_string();
        let m2 = m.clone();
        let r = guard("Version::parse", || Version::parse(t, &move |_: &str| Err(mk_err(k, &m2))))?;
        match r {
            Ok(_) => return Err("a failing parser gave a version".into()),
            Err(e) => ensure!(e == mk_err(k, &m), "parser error {:?} became {:?}", mk_err(k, &m), e),
        }
        return Ok(true);
    }
    if let Some(p) = c.get("p") {
        let ps = get!(psj(p));
        let real: Vec<VersionPart> = ps.iter().map(p_real).collect();
        let seen = std::rc::Rc::new(RefCell::new(vec![]));
        let seen2 = seen.clone();
        let v = guard("Version::parse", || {
            Version::parse(t, &move |x: &str| {
                seen2.borrow_mut().push(x.to_string());
                Ok(real.clone())
            })
        })?;
        let v = v.map_err(|e| format!("parser succeeded but parse gave {:?}", e))?;
        ensure!(seen.borrow().iter().all(|x| x == t) && !seen.borrow().is_empty(), "the parser was given {:?} for {:?}", seen.borrow(), t);
        c03_obs(&v, t, &ps)?;
        c03_obs(&v.clone(), t, &ps)?;
        return Ok(ps.len() > 1);
    }
    let ps = get!(parse(t));
    let v = match guard("parsing", || t.parse::<Version>())? {
        Ok(v) => v,
        Err(e) => return Err(format!("{:?} rejected: {:?}", t, e)),
    };
    c03_obs(&v, t, &ps)?;
    Ok(ps.len() > 1)
}

// ---------- C04..C09 ----------
fn c04(c: &J) -> R {
    let (a, _, pa) = get!(ver(c, "a")?);
    let (b, tb, pb) = get!(ver(c, "b")?);
    let want = vcmp(&pa, &pb);
    let got = guard("compare_version", || op_of(&a.compare_version(&b)))?;
    ensure!(got == ord_op(want), "{:?} vs {:?}: {:?}, must be {:?}", pa, pb, got, want);
    let got = guard("partial_cmp", || a.partial_cmp(&b))?;
    ensure!(got == Some(want), "partial_cmp {:?} vs {:?}: {:?}, must be {:?}", pa, pb, got, want);
    let got = guard("==", || a == b)?;
    ensure!(got == (want == Ordering::Equal), "{:?} == {:?}: {}", pa, pb, got);
    if c.get("bt").is_some() {
        let got = guard("compare_str", || op_of(&a.compare_str(&tb)))?;
        ensure!(got == ord_op(want), "compare_str {:?} vs {:?}: {:?}, must be {:?}", pa, pb, got, want);
    }
    Ok(!pa.is_empty() && !pb.is_empty())
}
fn gen_c05(i: u64, seed: u64, d: &Dict) -> J {
    let mut g = Gen::new(seed, i, d);
    if i < 30000 {
        let mut j = pair_case(i, seed, d);
        let b = psj(j.get("b").unwrap_or(&J::Null)).unwrap_or_default();
        let x = g.parts_like(&b);
        if j.get("a").is_some() {
            j["c"] = jps(&x);
        } else {
            j["ct"] = j["bt"].clone();
        }
        return j;
    }
    if g.r.chance(30) {
        let a = g.good_vtext();
        let b = g.good_vtext_like(&a);
        let x = if g.r.chance(50) { g.good_vtext_like(&a) } else { g.good_vtext_like(&b) };
        return json!({"at": a, "bt": b, "ct": x});
    }
    // same kinds position by position, so that the transitivity domain is hit
    let a = g.parts();
    let like = |g: &mut Gen, a: &Vec<P>| -> Vec<P> {
        if g.r.chance(30) {
            return g.parts_like(a);
        }
        let mut v: Vec<P> = a
            .iter()
            .map(|p| {
                if g.r.chance(60) {
                    p.clone()
                } else {
                    let q = g.part_like(p);
                    if rank(&q) == rank(p) {
                        q
                    } else {
                        zero(p)
                    }
                }
            })
            .collect();
        if g.r.chance(30) {
            let k = g.r.below(v.len() + 1);
            v.truncate(k);
        }
        v
    };
    let b = like(&mut g, &a);
    let x = like(&mut g, &a);
    let mut c = json!({"a": jps(&a), "b": jps(&b), "c": jps(&x)});
    misname(&mut g, &mut c, &["a", "b", "c"]);
    c
}
fn le(o: Op) -> bool {
    o != Op::Gt
}
fn c05(c: &J) -> R {
    let (a, _, pa) = get!(ver(c, "a")?);
    let (b, _, pb) = get!(ver(c, "b")?);
    let (x, _, px) = get!(ver(c, "c")?);
    let cmp = |u: &Version, w: &Version| guard("compare_version", || op_of(&u.compare_version(w)));
    for (u, pu) in [(&a, &pa), (&b, &pb), (&x, &px)] {
        ensure!(cmp(u, &u.clone())? == Op::Eq, "{:?} is not equal to itself", pu);
        ensure!(guard("==", || u == u)?, "{:?} is not == itself", pu);
    }
    for (u, pu, w, pw) in [(&a, &pa, &b, &pb), (&b, &pb, &x, &px), (&a, &pa, &x, &px)] {
        let (o, q) = (cmp(u, w)?, cmp(w, u)?);
        ensure!(matches!(o, Op::Lt | Op::Eq | Op::Gt), "comparison gave {:?}", o);
        ensure!(q == o.flip(), "{:?} vs {:?} is {:?} but the other way round {:?}", pu, pw, o, q);
        let (eq, lt, gt) = guard("native", || (u == w, u < w, u > w))?;
        ensure!(eq == (!lt && !gt), "{:?} vs {:?}: == is {}, < is {}, > is {}", pu, pw, eq, lt, gt);
        ensure!(eq == (o == Op::Eq) && lt == (o == Op::Lt), "{:?} vs {:?}: native and compare_version disagree", pu, pw);
    }
    let mut nt = false;
    if trans_domain(&pa, &pb, &px) {
        let vs = [(&a, &pa), (&b, &pb), (&x, &px)];
        for (i, j, k) in [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)] {
            let (ij, jk, ik) = (cmp(vs[i].0, vs[j].0)?, cmp(vs[j].0, vs[k].0)?, cmp(vs[i].0, vs[k].0)?);
            if le(ij) && le(jk) {
                nt = true;
                let want = if ij == Op::Lt || jk == Op::Lt { Op::Lt } else { Op::Eq };
                ensure!(ik == want, "not transitive: {:?} {:?} {:?} {:?} {:?} but first vs last is {:?}", vs[i].1, ij, vs[j].1, jk, vs[k].1, ik);
            }
        }
    }
    Ok(nt)
}
fn c06(c: &J) -> R {
    let (a, _, pa) = get!(ver(c, "a")?);
    let (b, tb, pb) = get!(ver(c, "b")?);
    for &o in &OPS[..8] {
        let want = o.holds(&pa, &pb);
        let real = op_real(o);
        let got = guard("compare_to_version", || a.compare_to_version(&b, &real))?;
        ensure!(got == want, "{:?} {:?} {:?}: {}, must be {}", pa, o, pb, got, want);
        let inv = guard("compare_to_version", || a.compare_to_version(&b, &real.invert()))?;
        ensure!(inv == !want, "{:?} {:?} {:?}: {}, and inverted {}", pa, o, pb, got, inv);
        if !matches!(o, Op::Sw | Op::Nsw) {
            let fl = guard("compare_to_version", || b.compare_to_version(&a, &real.flip()))?;
            ensure!(fl == want, "{:?} {:?} {:?}: {}, but flipped {}", pa, o, pb, want, fl);
        }
        if c.get("bt").is_some() {
            let got = guard("compare_to_str", || a.compare_to_str(&tb, &real))?;
            ensure!(got == want, "{:?} {:?} text {:?}: {}, must be {}", pa, o, tb, got, want);
        }
    }
    let o = vcmp(&pa, &pb);
    let got = guard("native operators", || [a == b, a != b, a < b, a <= b, a > b, a >= b])?;
    use Ordering::*;
    let want = [o == Equal, o != Equal, o == Less, o != Greater, o == Greater, o != Less];
    ensure!(got == want, "{:?} vs {:?}: [==,!=,<,<=,>,>=] is {:?}, must be {:?}", pa, pb, got, want);
    let got = guard("compare_version", || a.compare_version(&b).ord())?;
    ensure!(got == Some(o), "{:?} vs {:?}: ord() is {:?}, must be {:?}", pa, pb, got, o);
    Ok(!pa.is_empty() && !pb.is_empty())
}
fn gen_c07(i: u64, seed: u64, d: &Dict) -> J {
    const AL: &[&str] = &["", "a", "B", "b", "post", "POST", "dev", "Dev", "rc", "1", "pos", "de", "apost", "devx", "postdev", "ß", "é", "É", "z"];
    let n = AL.len() as u64;
    if i < n * n {
        return json!({"a": AL[(i / n) as usize], "b": AL[(i % n) as usize]});
    }
    let k = i - n * n;
    let m = d.texts.len() as u64;
    if k < m * n * 2 {
        let x = &d.texts[(k / (2 * n)) as usize];
        let y = AL[((k / 2) % n) as usize];
        return if k % 2 == 0 { json!({"a": x, "b": y}) } else { json!({"a": y, "b": x}) };
    }
    let mut g = Gen::new(seed, i, d);
    let a = g.text_comp();
    let b = g.text_comp_like(&a);
    json!({"a": a, "b": b})
}
fn cmp_part(a: &VersionPart, b: &VersionPart, pa: &P, pb: &P, want: Ordering) -> Result<(), String> {
    let got = guard("partial_cmp", || a.partial_cmp(b))?;
    ensure!(got == Some(want), "{:?} vs {:?}: {:?}, must be {:?}", pa, pb, got, want);
    let got = guard("==", || a == b)?;
    ensure!(got == (want == Ordering::Equal), "{:?} == {:?} is {}", pa, pb, got);
    let got = guard("<", || (a < b, a <= b, a > b, a >= b, a != b))?;
    use Ordering::*;
    ensure!(got == (want == Less, want != Greater, want == Greater, want != Less, want != Equal), "{:?} vs {:?}: operators {:?}", pa, pb, got);
    Ok(())
}
fn c07(c: &J) -> R {
    let (x, y) = (get!(s(c, "a")), get!(s(c, "b")));
    for (x, y) in [(x, y), (y, x), (x, x)] {
        let want = text_cmp(x, y);
        let (a, b) = (PEP440String::from(x), PEP440String::from(y));
        let got = guard("text component comparison", || a.partial_cmp(&b))?;
        ensure!(got == Some(want), "text {:?} vs {:?}: {:?}, must be {:?}", x, y, got, want);
        let got = guard("text component equality", || a == b)?;
        ensure!(got == (want == Ordering::Equal), "text {:?} == {:?} is {}", x, y, got);
        let (pa, pb) = (P::T(x.into()), P::T(y.into()));
        cmp_part(&p_real(&pa), &p_real(&pb), &pa, &pb, want)?;
        let (va, vb) = (version_of("a", &[pa]), version_of("b", &[pb]));
        let got = guard("comparison", || op_of(&va.compare_version(&vb)))?;
        ensure!(got == ord_op(want), "one-text versions {:?} vs {:?}: {:?}, must be {:?}", x, y, got, want);
    }
    Ok(x != y)
}
fn gen_c08(i: u64, seed: u64, d: &Dict) -> J {
    let fixed: Vec<P> = vec![
        P::E(0),
        P::E(1),
        P::E(-1),
        P::E(i16::MAX),
        P::E(i16::MIN),
        P::I(0),
        P::I(1),
        P::I(-1),
        P::I(i32::MAX),
        P::I(i32::MIN),
        P::I(65536),
        P::I(65537),
        P::L("".into()),
        P::L("a".into()),
        P::L("A".into()),
        P::L("0".into()),
        P::L("é".into()),
        P::T("".into()),
        P::T("a".into()),
        P::T("post".into()),
        P::T("dev".into()),
        P::Z,
    ];
    let n = fixed.len() as u64;
    if i < n * n {
        return json!({"a": jp(&fixed[(i / n) as usize]), "b": jp(&fixed[(i % n) as usize])});
    }
    let mut g = Gen::new(seed, i, d);
    let a = g.part();
    let b = g.part_like(&a);
    json!({"a": jp(&a), "b": jp(&b)})
}
fn c08(c: &J) -> R {
    let (pa, pb) = (get!(pj(get!(c.get("a")))), get!(pj(get!(c.get("b")))));
    let (a, b) = (p_real(&pa), p_real(&pb));
    cmp_part(&a, &b, &pa, &pb, part_cmp(&pa, &pb))?;
    cmp_part(&b, &a, &pb, &pa, part_cmp(&pb, &pa))?;
    cmp_part(&a, &a.clone(), &pa, &pa, Ordering::Equal)?;
    // zero of the kind, seen by comparing with a version that lacks the component
    let (va, e) = (version_of("a", &[pa.clone()]), version_of("e", &[]));
    let want = part_cmp(&pa, &zero(&pa));
    let got = guard("comparison with nothing", || (op_of(&va.compare_version(&e)), op_of(&e.compare_version(&va))))?;
    ensure!(got == (ord_op(want), ord_op(want.reverse())), "{:?} against a missing component: {:?}, must be {:?}", pa, got, want);
    Ok(pa != pb)
}
fn c09(c: &J) -> R {
    let (a, _, pa) = get!(ver(c, "a")?);
    let (b, tb, pb) = get!(ver(c, "b")?);
    for (u, pu, w, pw) in [(&a, &pa, &b, &pb), (&b, &pb, &a, &pa), (&a, &pa, &a, &pa)] {
        let want = startswith(pu, pw);
        let got = guard("startswith", || u.startswith(w))?;
        ensure!(got == want, "{:?} starts with {:?}: {}, must be {}", pu, pw, got, want);
        let got = guard("StartsWith", || (u.compare_to_version(w, &CompOp::StartsWith), u.compare_to_version(w, &CompOp::NotStartsWith)))?;
        ensure!(got == (want, !want), "{:?} (not) starts with {:?}: {:?}", pu, pw, got);
    }
    for k in 0..=pa.len() {
        let w = version_of("prefix", &pa[..k]);
        ensure!(guard("startswith", || a.startswith(&w))?, "{:?} does not start with its first {} components", pa, k);
    }
    if c.get("bt").is_some() {
        let want = startswith(&pa, &pb);
        let got = guard("StartsWith", || a.compare_to_str(&tb, &CompOp::StartsWith))?;
        ensure!(got == want, "{:?} starts with text {:?}: {}", pa, tb, got);
        if !tb.is_empty() && tb.chars().all(|c| c.is_ascii_alphanumeric() || c == '.') && !tb.ends_with('.') && a.as_str() != "<a>" {
            let sp = guard("spec", || VersionSpec::try_from(&format!("{}.*", tb)[..]))?;
            if let Ok(sp) = sp {
                ensure!(guard("spec", || sp.test_match_version(&a))? == want, "spec {}.* on {:?}", tb, pa);
            }
        }
    }
    Ok(!pa.is_empty() && !pb.is_empty())
}

// ---------- C10 ----------
fn gen_c10(i: u64, seed: u64, d: &Dict) -> J {
    let mut g = Gen::new(seed, i, d);
    const WS: &[&str] = &["", " ", "  ", "\t", "\n", "\r\n", "\u{a0}", "\u{2003}", "\u{200b}", "\u{feff}", "\u{85}"];
    let k = i as usize;
    let base: String = if k < 20 {
        if k < 10 { OPS[k].sign().into() } else { OPS[k - 10].name().into() }
    } else {
        let o = *g.r.pick(&OPS);
        let mut t = match g.r.below(12) {
            0..=3 => o.sign().to_string(),
            4..=7 => {
                let n = o.name().to_string();
                g.case_flip(&n)
            }
            8 => g.dict_text(),
            9 => g.any_text(),
            10 => {
                const AL: &[&str] = &["=", "<", ">", "!", "~", "startswith", " ", "*"];
                let n = g.r.below(5);
                (0..n).map(|_| *g.r.pick(AL)).collect()
            }
            _ => g.case_flip("NotStartsWithKſ"),
        };
        if g.r.chance(25) {
            t = g.mutate(&t);
        }
        let (a, b) = (*g.r.pick(WS), *g.r.pick(WS));
        format!("{}{}{}", a, t, b)
    };
    json!({ "t": base })
}
fn c10(c: &J) -> R {
    let t = get!(s(c, "t"));
    let tt = t.trim_matches(|c: char| c.is_whitespace());
    let want = OPS.iter().copied().find(|o| o.sign() == tt);
    let got = guard("from_sign", || CompOp::from_sign(t).ok().map(|o| op_of(&o)))?;
    ensure!(got == want, "from_sign({:?}) is {:?}, must be {:?}", t, got, want);
    let low = tt.to_lowercase();
    let wantn = OPS.iter().copied().find(|o| o.name() == low);
    let got = guard("from_name", || CompOp::from_name(t).ok().map(|o| op_of(&o)))?;
    ensure!(got == wantn, "from_name({:?}) is {:?}, must be {:?}", t, got, wantn);
    for &o in &OPS {
        let r = op_real(o);
        let g = guard("operator tables", || {
            (
                r.sign().to_string(),
                r.name().to_string(),
                op_of(&r.invert()),
                op_of(&r.as_inverted()),
                op_of(&r.opposite()),
                op_of(&r.as_opposite()),
                op_of(&r.flip()),
                op_of(&r.as_flipped()),
                r.factor() as i32,
                r.ord(),
            )
        })?;
        let w = (o.sign().to_string(), o.name().to_string(), o.invert(), o.invert(), o.opposite(), o.opposite(), o.flip(), o.flip(), o.factor(), o.ord());
        ensure!(g == w, "{:?}: (sign,name,invert,as_inverted,opposite,as_opposite,flip,as_flipped,factor,ord) is {:?}, must be {:?}", o, g, w);
    }
    for o in [Ordering::Less, Ordering::Equal, Ordering::Greater] {
        let g = guard("from_ord", || op_of(&CompOp::from_ord(o)))?;
        ensure!(g == ord_op(o), "from_ord({:?}) is {:?}", o, g);
    }
    Ok(want.is_some() || wantn.is_some())
}

// ---------- C12..C15 ----------
fn gen_spec_text(i: u64, seed: u64, d: &Dict) -> String {
    const AL: &[&str] = &["1", "a", ".", "*", "=", "!", ">", "~", "^", "$", "@", "+", "(", " "];
    if let Some(t) = enum_text(i, AL, 4) {
        return t;
    }
    let mut g = Gen::new(seed, i, d);
    if g.r.chance(8) {
        g.any_text()
    } else {
        g.spec()
    }
}
fn gen_c12(i: u64, seed: u64, d: &Dict) -> J {
    json!({ "t": gen_spec_text(i, seed, d) })
}
fn c12(c: &J) -> R {
    let t = get!(s(c, "t"));
    let want = valid(t);
    let got = guard("turning a text into a spec", || VersionSpec::try_from(t).is_ok())?;
    ensure!(got == want, "spec {:?}: accepted={}, must be {}", t, got, want);
    if let Some((M::Op(o, ps), _)) = spec_c(t) {
        return Ok(!ps.is_empty() && o != Op::Eq);
    }
    Ok(want)
}
fn gen_c13(i: u64, seed: u64, d: &Dict) -> J {
    let st = gen_spec_text(i, seed, d);
    let mut g = Gen::new(seed ^ 0x55, i, d);
    let n = 3 + g.r.below(4);
    let vs: Vec<String> = (0..n).map(|_| g.version_near(&st)).collect();
    json!({"t": st, "v": vs})
}
fn c13(c: &J) -> R {
    let t = get!(s(c, "t"));
    let (m, _) = get!(spec_c(t));
    if is_compat(&m) {
        return Ok(false);
    }
    let sp = match guard("spec", || VersionSpec::try_from(t))? {
        Ok(x) => x,
        Err(e) => return Err(format!("spec {:?} rejected: {:?}", t, e)),
    };
    let mut nt = false;
    for v in get!(c.get("v").and_then(|v| v.as_array())) {
        let vt = get!(v.as_str());
        let ps = get!(parse(vt));
        let want = m_test(&m, vt, &ps);
        let ver = match guard("parsing", || vt.parse::<Version>())? {
            Ok(v) => v,
            Err(e) => return Err(format!("{:?} rejected: {:?}", vt, e)),
        };
        let got = guard("test_match_version", || sp.test_match_version(&ver))?;
        ensure!(got == want, "spec {:?} on version {:?}: {}, must be {}", t, vt, got, want);
        let got = guard("test_match", || sp.test_match(vt))?;
        ensure!(got == want, "spec {:?} on text {:?}: {}, must be {}", t, vt, got, want);
        let got = guard("clone", || sp.clone().test_match_version(&ver))?;
        ensure!(got == want, "clone of spec {:?} on version {:?}: {}, must be {}", t, vt, got, want);
        let wrapped = VersionSpecOrConstraintTree::VersionSpec(sp.clone());
        let got = guard("test_match_version", || (wrapped.test_match_version(&ver), wrapped.test_match(vt)))?;
        ensure!(got == (want, want), "wrapped spec {:?} on version {:?}: {:?}, must be {}", t, vt, got, want);
        nt |= want;
    }
    Ok(nt)
}
fn gen_c14(i: u64, seed: u64, d: &Dict) -> J {
    let mut g = Gen::new(seed ^ 0x77, i, d);
    match g.r.below(12) {
        0 | 1 => return json!({"tree": jt(&g.node_full(2))}),
        2 | 3 => return json!({"tree": jt(&g.node(2))}),
        4 => {
            // few parts, most of them exact
            let n = g.r.below(3);
            let ps = (0..n)
                .map(|_| {
                    let v = g.good_vtext();
                    let t = T::S(if g.r.chance(60) { v } else { format!("=={}", v) });
                    if g.r.chance(20) { T::N(*g.r.pick(&[C::And, C::Or, C::None]), vec![t]) } else { t }
                })
                .collect();
            return json!({"tree": jt(&T::N(*g.r.pick(&[C::And, C::Or, C::None]), ps))});
        }
        _ => {}
    }
    json!({ "t": gen_spec_text(i, seed, d) })
}
fn c14(c: &J) -> R {
    if let Some(t) = c.get("tree") {
        let t = get!(tj(t));
        if !covered(&t) {
            return Ok(false);
        }
        let n = get!(n_real(&t));
        let w = VersionSpecOrConstraintTree::ConstraintTree(n.clone());
        let (a, b) = guard("exactness", || (n.is_exact() || w.is_exact(), n.exact_value().or(w.exact_value())))?;
        ensure!(!a && b.is_none(), "tree {:?} is exact: {:?}", t, b);
        if let Ok(want) = t.render(false) {
            for got in guard("get_spec", || vec![n.get_spec(), n.raw_value(), w.get_spec(), w.raw_value()])? {
                ensure!(got == want, "tree {:?} reports {:?}, must be {:?}", t, got, want);
            }
        }
        return Ok(true);
    }
    let t = get!(s(c, "t"));
    let (_, exact) = get!(spec_c(t));
    let sp = match guard("spec", || VersionSpec::try_from(t))? {
        Ok(x) => x,
        Err(e) => return Err(format!("spec {:?} rejected: {:?}", t, e)),
    };
    let w = VersionSpecOrConstraintTree::VersionSpec(sp.clone());
    let g = guard("reporting", || (sp.get_spec(), sp.raw_value(), w.get_spec(), w.raw_value()))?;
    ensure!(g == (t.into(), t.into(), t.into(), t.into()), "spec {:?} reports {:?}", t, g);
    let g = guard("exactness", || (sp.is_exact(), w.is_exact(), sp.exact_value(), w.exact_value()))?;
    let ev = if exact { Some(t.to_string()) } else { None };
    ensure!(g == (exact, exact, ev.clone(), ev.clone()), "spec {:?}: exactness {:?}, must be {} {:?}", t, g, exact, ev);
    Ok(exact)
}
fn gen_c15(i: u64, seed: u64, d: &Dict) -> J {
    // boolean truth patterns first: trees over always-true / always-false specs, exhaustively
    let mut g = Gen::new(seed, i, d);
    if g.r.chance(40) {
        // truth pattern: "1" true, "2" false on version 1
        fn go(g: &mut Gen, d: usize) -> T {
            if d == 0 || g.r.chance(45) {
                return T::S(if g.r.chance(50) { "1" } else { "2" }.into());
            }
            let c = *g.r.pick(&[C::And, C::Or, C::None]);
            let n = g.r.below(5);
            T::N(c, (0..n).map(|_| go(g, d - 1)).collect())
        }
        let dd = 1 + g.r.below(4);
        let n = g.small_len();
        let c = *g.r.pick(&[C::And, C::Or, C::None]);
        let mut ps: Vec<T> = (0..n).map(|_| go(&mut g, dd - 1)).collect();
        if g.r.chance(40) && n > 0 {
            // all the same but one, at any position
            let (x, y) = if g.r.chance(50) { ("1", "2") } else { ("2", "1") };
            ps = (0..n).map(|_| T::S(x.into())).collect();
            let k = g.r.below(n);
            ps[k] = T::S(y.into());
        }
        return json!({"tree": jt(&T::N(c, ps)), "v": ["1", "2", "3"]});
    }
    let t = g.node(3);
    let mut ss = vec![];
    t.specs(&mut ss);
    let mut vs = vec![];
    for _ in 0..4 {
        let base = if ss.is_empty() { "1.2".to_string() } else { g.r.pick(&ss).clone() };
        vs.push(g.version_near(&base));
    }
    json!({"tree": jt(&t), "v": vs})
}
fn c15(c: &J) -> R {
    let t = get!(tj(get!(c.get("tree"))));
    if !covered(&t) {
        return Ok(false);
    }
    let n = get!(n_real(&t));
    let w = VersionSpecOrConstraintTree::ConstraintTree(n.clone());
    let mut seen = [false; 2];
    for v in get!(c.get("v").and_then(|v| v.as_array())) {
        let vt = get!(v.as_str());
        let ps = get!(parse(vt));
        let ver = match guard("parsing", || vt.parse::<Version>())? {
            Ok(v) => v,
            Err(e) => return Err(format!("{:?} rejected: {:?}", vt, e)),
        };
        let want = t.eval(&|x| holds(x, vt, &ps));
        seen[want as usize] = true;
        for k in 0..2 {
            let got = guard("matching a tree", || [n.test_match_version(&ver), n.test_match(vt), w.test_match_version(&ver), w.test_match(vt)])?;
            ensure!(got == [want; 4], "tree {:?} on {:?}: {:?} (by version, by text, wrapped; time {}), must be {}", t, vt, got, k, want);
        }
        ensure!(ver.as_str() == vt && ps_of(&ver) == ps, "matching changed the version {:?}", vt);
    }
    ensure!(n_of(&n) == t, "matching changed the tree");
    Ok(seen[0] && seen[1])
}

// ---------- C16..C19, C23, C24 ----------
fn gen_expr_text(i: u64, seed: u64, d: &Dict) -> String {
    const AL: &[&str] = &["1", "2", "(", ")", ",", "|"];
    if let Some(t) = enum_text(i, AL, 6) {
        return t;
    }
    let j = i - (0..7).map(|l| 6u64.pow(l)).sum::<u64>();
    const AL2: &[&str] = &["1", "(", ")", ",", "|", " ", "^", "$"];
    if let Some(t) = enum_text(j, AL2, 4) {
        return t;
    }
    Gen::new(seed, i, d).any_expr()
}
fn gen_c16(i: u64, seed: u64, d: &Dict) -> J {
    json!({ "t": gen_expr_text(i, seed, d) })
}
fn c16(c: &J) -> R {
    let t = get!(s(c, "t"));
    let want = expr(t, &valid).is_some();
    let got = guard("treeify", || treeify(t).is_ok())?;
    ensure!(got == want, "expression {:?}: accepted={}, must be {}", t, got, want);
    Ok(tokens(t).len() > 1)
}
fn gen_c17(i: u64, seed: u64, d: &Dict) -> J {
    let t = gen_expr_text(i, seed, d);
    let mut g = Gen::new(seed ^ 0x99, i, d);
    let toks = tokens(&t);
    let mut vs = vec!["1".to_string(), "2".to_string()];
    for _ in 0..3 {
        let b = if toks.is_empty() { "1".to_string() } else { g.r.pick(&toks).clone() };
        vs.push(g.version_near(&b));
    }
    json!({"t": t, "v": vs})
}
fn c17(c: &J) -> R {
    let t = get!(s(c, "t"));
    let want = get!(expr(t, &valid));
    let got = match guard("treeify", || treeify(t))? {
        Ok(x) => x,
        Err(e) => return Err(format!("well-formed {:?} rejected: {}", t, e)),
    };
    let got_t = n_of(&got);
    ensure!(got_t == want, "tree of {:?}: {:?}, must be {:?}", t, got_t, want);
    if covered(&want) {
        let toks = tokens(t);
        for v in get!(c.get("v").and_then(|v| v.as_array())) {
            let vt = get!(v.as_str());
            let ps = get!(parse(vt));
            let w = expr_holds(&toks, &|x| holds(x, vt, &ps));
            let g = guard("test_match", || got.test_match(vt))?;
            ensure!(g == w, "{:?} on {:?}: {}, must be {}", t, vt, g, w);
        }
    }
    Ok(matches!(&want, T::N(_, p) if p.len() > 1))
}
fn gen_c18(i: u64, seed: u64, d: &Dict) -> J {
    let mut g = Gen::new(seed ^ 0x33, i, d);
    match g.r.below(4) {
        0 => json!({ "t": gen_expr_text(i, seed, d) }),
        1 => json!({"tree": jt(&g.node(3))}),
        2 => json!({"tree": jt(&T::S(g.expr_spec()))}),
        _ => {
            let k = 1 + g.r.below(4);
            json!({"tree": jt(&g.node_full(k))})
        }
    }
}
fn c18(c: &J) -> R {
    if let Some(t) = s(c, "t") {
        let want = get!(expr(t, &valid));
        let got = match guard("treeify", || treeify(t))? {
            Ok(x) => x,
            Err(e) => return Err(format!("well-formed {:?} rejected: {}", t, e)),
        };
        let r = guard("rendering", || untreeify(&VersionSpecOrConstraintTree::ConstraintTree(got.clone())))?;
        let wr = want.render(false).map_err(|_| "oracle".to_string())?;
        ensure!(r.as_ref().ok() == Some(&wr), "rendering of the tree of {:?}: {:?}, must be {:?}", t, r, wr);
        let again = guard("treeify", || treeify(&wr))?;
        match again {
            Ok(x) => ensure!(n_of(&x) == want && x == got, "{:?} renders as {:?}, which parses as {:?}", t, wr, n_of(&x)),
            Err(e) => return Err(format!("rendering {:?} of {:?} does not parse: {}", wr, t, e)),
        }
        return Ok(tokens(t).len() > 2);
    }
    let t = get!(tj(get!(c.get("tree"))));
    let r = get!(t_real(&t));
    let got = guard("untreeify", || untreeify(&r))?;
    let want = t.render(false);
    match (&got, &want) {
        (Ok(a), Ok(b)) => ensure!(a == b, "{:?} renders as {:?}, must be {:?}", t, a, b),
        (Err(_), Err(_)) => {}
        _ => return Err(format!("rendering {:?}: {:?}, must be {:?}", t, got, want)),
    }
    if let Ok(b) = &want {
        let g = guard("get_spec", || r.get_spec())?;
        ensure!(&g == b, "{:?} get_spec {:?}, must be {:?}", t, g, b);
    }
    Ok(want.is_ok())
}
fn gen_c19(i: u64, seed: u64, d: &Dict) -> J {
    let mut g = Gen::new(seed, i, d);
    let k = g.r.below(4);
    let a = if k == 0 { g.tree(1) } else { g.node(k) };
    let mut b = g.tree_like(&a);
    if g.r.chance(10) {
        b = g.tree(2);
    }
    if g.r.chance(10) {
        b = T::N(C::None, vec![a.clone()]);
    }
    json!({"a": jt(&a), "b": jt(&b)})
}
fn c19(c: &J) -> R {
    let (ta, tb) = (get!(tj(get!(c.get("a")))), get!(tj(get!(c.get("b")))));
    let (a, b) = (get!(t_real(&ta)), get!(t_real(&tb)));
    let want = ta == tb;
    let got = guard("==", || [a == b, b == a, !(a != b), !(b != a)])?;
    ensure!(got == [want; 4], "{:?} == {:?}: {:?}, must be {}", ta, tb, got, want);
    ensure!(guard("==", || a == a && a == a.clone() && b == b.clone())?, "{:?} differs from itself", ta);
    if let (VersionSpecOrConstraintTree::ConstraintTree(x), VersionSpecOrConstraintTree::ConstraintTree(y)) = (&a, &b) {
        let got = guard("==", || [x == y, y == x])?;
        ensure!(got == [want; 2], "trees {:?} == {:?}: {:?}, must be {}", ta, tb, got, want);
    }
    if let (VersionSpecOrConstraintTree::VersionSpec(x), VersionSpecOrConstraintTree::VersionSpec(y)) = (&a, &b) {
        let got = guard("==", || [x == y, y == x])?;
        ensure!(got == [want; 2], "specs {:?} == {:?}: {:?}, must be {}", ta, tb, got, want);
    }
    Ok(ta.depth() > 1)
}
fn gen_c23(i: u64, seed: u64, d: &Dict) -> J {
    let mut g = Gen::new(seed ^ 0x23, i, d);
    if g.r.chance(45) {
        let t = if g.r.chance(50) { gen_expr_text(i, seed, d) } else { gen_spec_text(i, seed, d) };
        return json!({ "t": t });
    }
    let mut v = vec![];
    if !g.r.chance(4) {
        v.push(match g.r.below(12) {
            0..=4 => ",".to_string(),
            5..=9 => "|".to_string(),
            10 => g.any_text(),
            _ => g.r.pick(&["", "&", ",,", " ,", ", ", "||", "and", "(", "1.2", "|,"]).to_string(),
        });
    }
    let n = g.small_len();
    let bad = if g.r.chance(30) { g.r.below(n.max(1)) } else { usize::MAX };
    for k in 0..n {
        let t = if k == bad {
            g.any_expr()
        } else if g.r.chance(25) {
            g.expr(2)
        } else {
            g.good_spec()
        };
        v.push(t);
    }
    json!({ "list": v })
}
fn o_either(t: &str) -> Option<T> {
    if t.chars().any(|c| "()|,^$".contains(c)) {
        expr(t, &valid)
    } else {
        spec_c(t).map(|_| T::S(t.into()))
    }
}
fn c23(c: &J) -> R {
    if let Some(t) = s(c, "t") {
        let want = o_either(t);
        let got = guard("conversion", || VersionSpecOrConstraintTree::try_from(t))?;
        let got = got.ok().map(|x| t_of(&x));
        ensure!(got == want, "conversion of {:?}: {:?}, must be {:?}", t, got, want);
        return Ok(want.is_some());
    }
    let l: Vec<&str> = get!(get!(c.get("list").and_then(|l| l.as_array())).iter().map(|x| x.as_str()).collect::<Option<Vec<_>>>());
    let want = (|| {
        let c = match *l.first()? {
            "," => C::And,
            "|" => C::Or,
            _ => return None,
        };
        Some(T::N(c, l[1..].iter().map(|x| o_either(x)).collect::<Option<Vec<_>>>()?))
    })();
    let got = guard("conversion of a list", || ConstraintTree::try_from(l.clone()))?;
    let got = got.ok().map(|x| n_of(&x));
    ensure!(got == want, "conversion of the list {:?}: {:?}, must be {:?}", l, got, want);
    for x in &l {
        let cw = match *x {
            "," => C::And,
            "|" => C::Or,
            _ => C::None,
        };
        let g = guard("Combinator::from", || c_of(&Combinator::from(*x)))?;
        ensure!(g == cw, "operator of text {:?}: {:?}, must be {:?}", x, g, cw);
    }
    Ok(want.is_some())
}
fn gen_c24(i: u64, seed: u64, d: &Dict) -> J {
    let mut g = Gen::new(seed, i, d);
    match g.r.below(4) {
        0 => json!({"t": g.any_text(), "p": jps(&g.parts())}),
        1 => json!({"tree": jt(&T::S(g.expr_spec()))}),
        _ => {
            let k = 1 + g.r.below(4);
            let t = if g.r.chance(30) { g.node(k) } else { g.node_full(k) };
            json!({ "tree": jt(&t) })
        }
    }
}
fn p_dbg(p: &P) -> String {
    match p {
        P::E(n) => format!("Epoch({})", n),
        P::I(n) => format!("Integer({})", n),
        P::L(s) => format!("LexicographicString({})", s),
        P::T(s) => format!("PEP440String({})", s),
        P::Z => "Empty".into(),
    }
}
struct Raw(String);
impl std::fmt::Debug for Raw {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
fn t_alt(t: &T) -> String {
    match t {
        T::S(s) => format!("{:?}", s),
        T::N(c, ps) => {
            let v: Vec<Raw> = ps.iter().map(|p| Raw(t_alt(p))).collect();
            format!("{}{:#?}", match c { C::And => "&", C::Or => "|", C::None => "" }, v)
        }
    }
}
/// no way of asking makes printing panic
fn styled(v: &dyn std::fmt::Debug) -> Result<(), String> {
    guard("Debug", || {
        [format!("{:1?}", v), format!("{:>60?}", v), format!("{:.2?}", v), format!("{:+?}", v), format!("{:05?}", v), format!("{:x?}", v), format!("{:X?}", v), format!("{:*^#9.1?}", v)];
    })
}
fn c24(c: &J) -> R {
    if let Some(p) = c.get("p") {
        let ps = get!(psj(p));
        let t = get!(s(c, "t"));
        let v = version_of(t, &ps);
        let d = guard("Display", || format!("{}", v))?;
        ensure!(d == t, "version {:?} displays as {:?}", t, d);
        let d = guard("Display", || [format!("{:3}", v), format!("{:<40}", v), format!("{:+}", v), format!("{:#}", v), format!("{:05}", v)])?;
        ensure!(d.iter().all(|x| x.contains(t)), "version {:?} displays, with a width, as {:?}", t, d);
        styled(&v)?;
        let raw: Vec<Raw> = ps.iter().map(|p| Raw(p_dbg(p))).collect();
        let g = guard("Debug", || (format!("{:?}", v), format!("{:#?}", v)))?;
        ensure!(g == (format!("{:?}", raw), format!("{:#?}", raw)), "version {:?} debug-prints as {:?}", ps, g);
        for p in &ps {
            let r = p_real(p);
            let g = guard("printing a component", || (format!("{}", r), format!("{:?}", r), format!("{:#?}", r)))?;
            styled(&r)?;
            let w = p_dbg(p);
            ensure!(g == (w.clone(), w.clone(), w.clone()), "component {:?} prints as {:?}", p, g);
        }
        return Ok(ps.len() > 1);
    }
    let t = get!(tj(get!(c.get("tree"))));
    let r = get!(t_real(&t));
    let g = guard("Debug", || (format!("{:?}", r), format!("{:#?}", r)))?;
    styled(&r)?;
    let w = t_alt(&t);
    ensure!(g == (w.clone(), w.clone()), "{:?} debug-prints as {:?}, must be {:?}", t, g, w);
    if let VersionSpecOrConstraintTree::ConstraintTree(n) = &r {
        styled(n)?;
        styled(&n.combinator)?;
        let want = match t { T::N(C::And, _) => "&", T::N(C::Or, _) => "|", _ => "" };
        let d = guard("Debug", || [format!("{:?}", n.combinator), format!("{:#?}", n.combinator)])?;
        ensure!(d.iter().all(|x| x == want), "combinator {:?} debug-prints as {:?}", want, d);
        let g = guard("Debug", || format!("{:#?}", n))?;
        ensure!(g == w, "{:?} debug-prints as {:?}, must be {:?}", t, g, w);
        let g = guard("Debug", || format!("{:?}", n))?;
        let x = match t.render(false) {
            Ok(x) => format!("{:?}", x),
            Err(_) => w.clone(),
        };
        ensure!(g == x, "{:?} debug-prints as {:?}, must be {:?}", t, g, x);
    }
    Ok(t.depth() > 1)
}

// ---------- C20 ----------
/// equal values, whatever the types the record declares
fn same(a: &dyn std::fmt::Debug, b: &dyn std::fmt::Debug) -> bool {
    format!("{:?}", a) == format!("{:?}", b)
}
fn rec(g: &mut Gen) -> J {
    let n = g.r.below(3);
    let deps: Vec<String> = (0..n).map(|_| g.any_text()).collect();
    let big = [0u64, 1, 4294967296, u64::MAX, 1234567890123];
    json!({"build": g.any_text(), "build_number": *g.r.pick(&[0u64, 1, 2, 65535, 1000]), "depends": deps, "md5": g.word(), "name": g.any_text(),
        "sha256": g.word(), "size": *g.r.pick(&big), "timestamp": *g.r.pick(&big), "version": g.good_vtext()})
}
fn gen_c20(i: u64, seed: u64, d: &Dict) -> J {
    let mut g = Gen::new(seed, i, d);
    if g.r.chance(3) {
        return json!({"path": *g.r.pick(&["missing", "dir", "nul", "empty-name", "not-a-dir"])});
    }
    let mut doc = json!({"info": {"subdir": g.any_text()}, "packages": {}, "packages.conda": {}, "repodata_version": *g.r.pick(&[0, 1, 255]), "removed": []});
    for t in ["packages", "packages.conda"] {
        let n = g.r.below(4);
        for k in 0..n {
            let key = if g.r.chance(60) { format!("p-{}.tar.bz2", k) } else { g.any_text() };
            doc[t][key] = rec(&mut g);
        }
    }
    let n = g.r.below(3);
    doc["removed"] = J::Array((0..n).map(|_| J::String(g.any_text())).collect());
    // now and then a file of tens of thousands of bytes, full of long characters
    if g.r.below(150) == 0 {
        let n = 40 + g.r.below(200);
        let c = *g.r.pick(&["é", "中", "😀", "a", "a中", "\u{661}"]);
        for k in 0..n {
            let mut r = rec(&mut g);
            let long = c.repeat(50 + g.r.below(300));
            r[*g.r.pick(&["name", "md5", "sha256", "build"])] = J::String(long);
            doc[*g.r.pick(&["packages", "packages.conda"])][format!("n-{}", k)] = r;
        }
    }
    // structural mutations
    let muts = [0, 0, 1, 1, 1, 2][g.r.below(6)];
    for _ in 0..muts {
        mutate_doc(&mut g, &mut doc);
    }
    let mut text = if g.r.chance(50) { serde_json::to_string(&doc).unwrap() } else { serde_json::to_string_pretty(&doc).unwrap() };
    // escape some characters
    if g.r.chance(40) {
        let mut out = String::new();
        for c in text.chars() {
            if (c.is_ascii_alphanumeric() && g.r.chance(0)) || (!c.is_ascii() && g.r.chance(50)) {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    out.push_str(&format!("\\u{:04x}", u));
                }
            } else {
                out.push(c);
            }
        }
        text = out;
    }
    if g.r.chance(30) {
        text = text.replace("\"version\":\"1", "\"version\":\"\\u0031").replace("\"version\": \"1", "\"version\": \"\\u0031");
    }
    if g.r.chance(8) {
        text = g.mutate(&text);
    }
    if g.r.chance(4) {
        return json!({"doc": text, "bad_utf8": g.r.below(text.len() + 1)});
    }
    json!({ "doc": text })
}
fn mutate_doc(g: &mut Gen, doc: &mut J) {
    // choose an object to damage
    let t = *g.r.pick(&["packages", "packages.conda"]);
    let keys: Vec<String> = doc[t].as_object().map(|o| o.keys().cloned().collect()).unwrap_or_default();
    let target: &mut J = if keys.is_empty() || g.r.chance(25) {
        if g.r.chance(20) {
            &mut doc["info"]
        } else {
            doc
        }
    } else {
        let k = g.r.pick(&keys).clone();
        &mut doc[t][&k]
    };
    let o = match target.as_object_mut() {
        Some(o) => o,
        None => return,
    };
    let fields: Vec<String> = o.keys().cloned().collect();
    if fields.is_empty() {
        return;
    }
    let f = g.r.pick(&fields).clone();
    match g.r.below(8) {
        0 => {
            o.remove(&f);
        }
        6 => {
            // the value under another name
            let v = o.remove(&f).unwrap();
            let k = match g.r.below(8) {
                0 => f.to_uppercase(),
                1 => f.replace('_', ""),
                2 => f.replace('_', "-"),
                3 => f.split('_').enumerate().map(|(i, w)| if i == 0 { w.to_string() } else { w[..1].to_uppercase() + &w[1..] }).collect(),
                4 => f.replace('.', "_"),
                _ => g.dict_text(),
            };
            o.insert(k, v);
        }
        7 => {
            // a value of a near type
            let v = match &o[&f] {
                J::String(t) if g.r.chance(50) => json!([t]),
                J::String(_) => g.r.pick(&[json!(1), json!(1.5), J::Null]).clone(),
                J::Number(n) => match g.r.below(4) {
                    0 => json!(n.to_string()),
                    1 => json!(n.as_f64().unwrap_or(1.0)),
                    2 => json!([n]),
                    _ => J::Null,
                },
                J::Array(a) => match g.r.below(4) {
                    0 => json!(a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect::<Vec<_>>().join(",")),
                    1 => a.first().cloned().unwrap_or(json!("x")),
                    2 => json!({}),
                    _ => J::Null,
                },
                J::Object(_) => g.r.pick(&[J::Null, json!([]), json!("")]).clone(),
                _ => J::Null,
            };
            o.insert(f, v);
        }
        1 => {
            let k = g.word();
            if !["build", "name", "size", "version", "md5", "depends", "info", "removed", "packages"].contains(&&k[..]) {
                o.insert(k, json!(1));
            }
        }
        2 | 3 if o.contains_key("version") => {
            let v = g.any_text();
            o.insert("version".into(), J::String(v));
        }
        _ => {
            let v = g.r.pick(&[J::Null, json!(true), json!(3), json!("s"), json!([]), json!({}), json!(-1), json!(1.5), json!(65536), json!(70000), json!(256), json!(u64::MAX), json!(["x", 1]), json!("")]).clone();
            o.insert(f, v);
        }
    }
}
struct ORec(String, u64, Vec<String>, String, String, String, u64, u64, String, Vec<P>);
fn o_str(j: &J, k: &str) -> Option<String> {
    j.as_object()?.get(k)?.as_str().map(|x| x.to_string())
}
fn o_strs(j: &J, k: &str) -> Option<Vec<String>> {
    j.as_object()?.get(k)?.as_array()?.iter().map(|x| x.as_str().map(|x| x.to_string())).collect()
}
fn o_u(j: &J, k: &str, max: u64) -> Option<u64> {
    j.as_object()?.get(k)?.as_u64().filter(|x| *x <= max)
}
fn o_rec(j: &J) -> Option<ORec> {
    let v = o_str(j, "version")?;
    let ps = parse(&v)?;
    Some(ORec(o_str(j, "build")?, o_u(j, "build_number", 65535)?, o_strs(j, "depends")?, o_str(j, "md5")?, o_str(j, "name")?, o_str(j, "sha256")?, o_u(j, "size", u64::MAX)?, o_u(j, "timestamp", u64::MAX)?, v, ps))
}
pub fn scratch() -> std::path::PathBuf {
    let d = std::env::var("VREPLAY_SCRATCH").unwrap_or_else(|_| "/tmp/vreplay-scratch".into());
    let p = std::path::PathBuf::from(d);
    let _ = std::fs::create_dir_all(&p);
    p
}
/// Whether a JSON text repeats a key in one object.
fn repeats_key(text: &str) -> bool {
    use serde::de::*;
    struct V;
    const DUP: &str = "repeated key here";
    impl<'de> DeserializeSeed<'de> for V {
        type Value = ();
        fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
            d.deserialize_any(V)
        }
    }
    impl<'de> Visitor<'de> for V {
        type Value = ();
        fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str("a value")
        }
        fn visit_bool<E>(self, _: bool) -> Result<(), E> {
            Ok(())
        }
        fn visit_i64<E>(self, _: i64) -> Result<(), E> {
            Ok(())
        }
        fn visit_u64<E>(self, _: u64) -> Result<(), E> {
            Ok(())
        }
        fn visit_f64<E>(self, _: f64) -> Result<(), E> {
            Ok(())
        }
        fn visit_str<E>(self, _: &str) -> Result<(), E> {
            Ok(())
        }
        fn visit_unit<E>(self) -> Result<(), E> {
            Ok(())
        }
        fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
            while a.next_element_seed(V)?.is_some() {}
            Ok(())
        }
        fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
            let mut seen = std::collections::HashSet::new();
            while let Some(k) = a.next_key::<String>()? {
                if !seen.insert(k) {
                    return Err(A::Error::custom(DUP));
                }
                a.next_value_seed(V)?;
            }
            Ok(())
        }
    }
    let mut d = serde_json::Deserializer::from_str(text);
    matches!(V.deserialize(&mut d), Err(e) if e.to_string().contains(DUP))
}
/// Whether an array stands where a struct is expected (serde reads its fields by position).
fn unnamed(j: &J) -> bool {
    let table = |k: &str| j.get(k).and_then(|t| t.as_object()).map_or(false, |t| t.values().any(|r| r.is_array()));
    j.is_array() || j.get("info").map_or(false, |i| i.is_array()) || table("packages") || table("packages.conda")
}
fn c20(c: &J) -> R {
    let dir = scratch();
    if let Some(p) = s(c, "path") {
        let path = match p {
            "missing" => dir.join("no-such-file.json"),
            "dir" => dir.clone(),
            "nul" => std::path::PathBuf::from("a\0b"),
            "not-a-dir" => {
                std::fs::write(dir.join("plain"), "{}").map_err(|e| e.to_string())?;
                dir.join("plain").join("x.json")
            }
            _ => std::path::PathBuf::from(""),
        };
        let r = guard("read_repodata", || read_repodata(&path).is_ok())?;
        ensure!(!r, "unreadable path {:?} gave data", p);
        return Ok(true);
    }
    let text = get!(s(c, "doc"));
    let file = dir.join(format!("doc-{}-{:?}.json", std::process::id(), std::thread::current().id()));
    let mut bytes = text.as_bytes().to_vec();
    if let Some(k) = c.get("bad_utf8").and_then(|k| k.as_u64()) {
        let k = (k as usize).min(bytes.len());
        bytes.insert(k, 0xff);
    }
    std::fs::write(&file, &bytes).map_err(|e| e.to_string())?;
    let got = guard("read_repodata", || read_repodata(&file));
    let _ = std::fs::remove_file(&file);
    let got = got?;
    let want = (|| {
        let text = std::str::from_utf8(&bytes).ok()?;
        let j: J = serde_json::from_str(text).ok()?;
        let table = |k: &str| -> Option<HashMap<String, ORec>> { j.get(k)?.as_object()?.iter().map(|(k, v)| Some((k.clone(), o_rec(v)?))).collect() };
        Some((o_str(j.get("info")?, "subdir")?, table("packages")?, table("packages.conda")?, o_u(&j, "repodata_version", 255)?, o_strs(&j, "removed")?))
    })();
    // a document in a form the oracle does not model (arrays as structs, repeated keys) is skipped
    if let Ok(t) = std::str::from_utf8(&bytes) {
        if repeats_key(t) || serde_json::from_str(t).map_or(false, |j| unnamed(&j)) {
            return Ok(false);
        }
    }
    let g = match (&got, &want) {
        (Ok(g), Some(_)) => g,
        (Err(_), None) => return Ok(true),
        (Ok(_), None) => {
            return Err(format!("a malformed document was accepted"));
        }
        (Err(e), Some(_)) => {
            return Err(format!("a well-formed document was rejected: {}", e));
        }
    };
    let (sub, pk, pc, rv, rem) = want.unwrap();
    ensure!(same(&g.info.subdir, &sub) && same(&g.repodata_version, &rv) && same(&g.removed, &rem), "header fields differ: {:?} {:?} {:?}", g.info.subdir, g.repodata_version, g.removed);
    for (name, got, want) in [("packages", &g.packages, &pk), ("packages.conda", &g.packages_conda, &pc)] {
        ensure!(got.len() == want.len(), "{}: {} records, must be {}", name, got.len(), want.len());
        for (k, w) in want {
            let r = match got.get(k) {
                Some(r) => r,
                None => return Err(format!("{}: record {:?} missing", name, k)),
            };
            ensure!(
                same(&r.build, &w.0) && same(&r.build_number, &w.1) && same(&r.depends, &w.2) && same(&r.md5, &w.3) && same(&r.name, &w.4) && same(&r.sha256, &w.5) && same(&r.size, &w.6) && same(&r.timestamp, &w.7),
                "{}: record {:?} has wrong fields: {:?}",
                name,
                k,
                r
            );
            ensure!(r.version.as_str() == w.8 && ps_of(&r.version) == w.9, "{}: record {:?} has version {:?} {:?}, must be {:?} {:?}", name, k, r.version.as_str(), ps_of(&r.version), w.8, w.9);
        }
    }
    Ok(!pk.is_empty() || !pc.is_empty())
}

// ---------- C21 ----------
#[cfg(feature = "py")]
#[path = "/repo/python/src/python_interface.rs"]
#[allow(warnings)]
pub mod py_iface;
#[cfg(feature = "py")]
fn gen_c21(i: u64, seed: u64, d: &Dict) -> J {
    let mut g = Gen::new(seed, i, d);
    const VS: &[&str] = &["1", "2", "1.0", "1.0.0", "1.1", "", "a", "1.0a", "1.0post1", "1!0", "1+a", "x!1", "1!2!3", "1+2+3"];
    let n = VS.len() as u64;
    if i < n * n {
        return json!({"at": VS[(i / n) as usize], "bt": VS[(i % n) as usize]});
    }
    let a = if g.r.chance(85) { g.good_vtext() } else { g.any_text() };
    let b = g.vtext_like(&a);
    json!({"at": a, "bt": b})
}
#[cfg(feature = "py")]
fn c21(c: &J) -> R {
    use cpython::CompareOp;
    use py_iface::RustyVersion;
    let py = cpython::gil();
    let mut made = vec![];
    for k in ["at", "bt"] {
        let t = get!(s(c, k));
        let r = guard("RustyVersion(text)", || RustyVersion::__new__(py, t))?;
        match (r, parse(t)) {
            (Ok(v), Some(ps)) => {
                let rep = guard("repr", || v.__repr__(py))?.map_err(|e| format!("repr raised {:?}", e))?;
                ensure!(rep == t, "repr of RustyVersion({:?}) is {:?}", t, rep);
                made.push((v, ps, t.to_string()));
            }
            (Err(e), None) => ensure!(e.kind == "ValueError", "RustyVersion({:?}) raised {}", t, e.kind),
            (Ok(_), None) => return Err(format!("RustyVersion({:?}) did not raise", t)),
            (Err(e), Some(_)) => return Err(format!("RustyVersion({:?}) raised {}", t, e.kind)),
        }
    }
    if made.len() < 2 {
        return Ok(true);
    }
    for (x, y) in [(0, 1), (1, 0), (0, 0)] {
        let ((a, pa, ta), (b, pb, tb)) = (&made[x], &made[y]);
        let (la, lb) = (guard("parse", || Version::from(&ta[..]))?, guard("parse", || Version::from(&tb[..]))?);
        for (o, w) in [(CompareOp::Eq, Op::Eq), (CompareOp::Ne, Op::Ne), (CompareOp::Lt, Op::Lt), (CompareOp::Le, Op::Le), (CompareOp::Gt, Op::Gt), (CompareOp::Ge, Op::Ge)] {
            let got = guard("comparison", || a.__richcmp__(py, b, o))?.map_err(|e| format!("comparison raised {:?}", e))?;
            let lib = guard("comparison", || la.compare_to_version(&lb, &op_real(w)))?;
            ensure!(got == lib && got == w.holds(pa, pb), "RustyVersion({:?}) {:?} RustyVersion({:?}) is {}, the library says {}", ta, o, tb, got, lib);
        }
        let got = guard("startswith", || a.startswith(py, b))?.map_err(|e| format!("startswith raised {:?}", e))?;
        let lib = guard("startswith", || la.startswith(&lb))?;
        ensure!(got == lib && got == startswith(pa, pb), "RustyVersion({:?}).startswith({:?}) is {}, the library says {}", ta, tb, got, lib);
    }
    Ok(true)
}

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(u64, u64, &Dict) -> J,
    pub check: fn(&J) -> R,
    pub rule: &'static str,
}
pub const PROPS: &[Prop] = &[
    Prop { id: "C01", gen: gen_text, check: c01, rule: "version texts: every text of up to 4 characters over 12 characters, then random, mutated and dictionary texts; non-trivial: longer than one byte" },
    Prop { id: "C02", gen: gen_text, check: c02, rule: "as C01; non-trivial: at least two components" },
    Prop { id: "C03", gen: gen_c03, check: c03, rule: "texts with custom parsers returning arbitrary components or errors, and the standard parser; non-trivial: an error or at least two components" },
    Prop { id: "C04", gen: pair_case, check: c04, rule: "pairs of component lists: all pairs of lists of up to 2 out of 11 components, then random near-pairs and version texts; non-trivial: both non-empty" },
    Prop { id: "C05", gen: gen_c05, check: c05, rule: "triples of versions close to each other; non-trivial: in the transitivity domain with a chain" },
    Prop { id: "C06", gen: pair_case, check: c06, rule: "pairs as C04, all eight covered operators; non-trivial: both non-empty" },
    Prop { id: "C07", gen: gen_c07, check: c07, rule: "pairs of texts: a fixed table squared, dictionary texts against it, random near-pairs; non-trivial: different texts" },
    Prop { id: "C08", gen: gen_c08, check: c08, rule: "pairs of components: a table of 22 squared, then random near-pairs; non-trivial: different" },
    Prop { id: "C09", gen: pair_case, check: c09, rule: "pairs as C04 and all prefixes; non-trivial: both non-empty" },
    Prop { id: "C10", gen: gen_c10, check: c10, rule: "signs and names with case and whitespace changes, near misses, arbitrary texts, and all ten operators each time; non-trivial: a known sign or name" },
    Prop { id: "C12", gen: gen_c12, check: c12, rule: "spec texts: every text of up to 4 characters over 14 characters, then random specs and mutations; non-trivial: accepted" },
    Prop { id: "C13", gen: gen_c13, check: c13, rule: "spec texts as C12 with 3 to 6 versions near the spec; non-trivial: some version matches" },
    Prop { id: "C14", gen: gen_c14, check: c14, rule: "spec texts as C12 and random trees; non-trivial: exact or a tree" },
    Prop { id: "C15", gen: gen_c15, check: c15, rule: "trees up to depth 4 with truth patterns, and random trees with versions near their specs; non-trivial: some version matches and some does not" },
    Prop { id: "C16", gen: gen_c16, check: c16, rule: "every text of up to 6 characters over 1 2 ( ) , |, of up to 4 over 8 characters, then random, damaged and nested expressions; non-trivial: more than one token" },
    Prop { id: "C17", gen: gen_c17, check: c17, rule: "expressions as C16 with versions near their specs; non-trivial: well formed with an operator" },
    Prop { id: "C18", gen: gen_c18, check: c18, rule: "expressions as C16 rendered and re-parsed, and hand-built trees; non-trivial: renderable" },
    Prop { id: "C19", gen: gen_c19, check: c19, rule: "pairs of trees one edit apart at any depth; non-trivial: a tree" },
    Prop { id: "C20", gen: gen_c20, check: c20, rule: "metadata documents with random records, damaged fields, types, ranges, escapes, syntax, encoding and paths; non-trivial: has records or is rejected" },
    #[cfg(feature = "py")]
    Prop { id: "C21", gen: gen_c21, check: c21, rule: "pairs of version texts, all six operators, the bodies of the Python class compiled against a stand-in for the cpython crate; non-trivial: all" },
    Prop { id: "C23", gen: gen_c23, check: c23, rule: "texts as C12/C16 and lists of up to dozens of items, valid and damaged; non-trivial: accepted" },
    Prop { id: "C24", gen: gen_c24, check: c24, rule: "versions of arbitrary components and trees, all print forms; non-trivial: at least two components or a tree" },
];
