#[cfg(feature = "py")]
#[macro_use]
extern crate cpython;
mod gen;
mod guided;
mod oracle;
mod props;
use gen::*;
use props::*;
use serde_json::{json, Value as J};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::time::{Duration, Instant};

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned()
}
fn load_dict(p: Option<String>) -> Dict {
    let mut d = Dict::default();
    if let Some(p) = p {
        if let Ok(t) = std::fs::read_to_string(p) {
            if let Ok(j) = serde_json::from_str::<J>(&t) {
                for x in j["texts"].as_array().into_iter().flatten() {
                    d.texts.push(x.as_str().unwrap_or("").to_string());
                }
                for x in j["nums"].as_array().into_iter().flatten() {
                    d.nums.push(x.as_i64().unwrap_or(0));
                }
            }
        }
    }
    d
}
fn prop(id: &str) -> &'static Prop {
    PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(2)
    })
}

/// Greedy generic shrinking of a failing case.
fn shrink(p: &Prop, case: &J) -> J {
    let start = Instant::now();
    let mut cur = case.clone();
    fn variants(j: &J, out: &mut Vec<J>) {
        match j {
            J::String(s) => {
                let cs: Vec<char> = s.chars().collect();
                let n = cs.len();
                let mut step = n;
                while step >= 1 {
                    let mut i = 0;
                    while i < n {
                        let mut v = cs[..i].to_vec();
                        v.extend(&cs[(i + step).min(n)..]);
                        out.push(J::String(v.into_iter().collect()));
                        i += step;
                    }
                    step /= 2;
                }
            }
            J::Number(n) if n.as_i64().map_or(false, |x| x != 0) => {
                let x = n.as_i64().unwrap();
                for y in [0, 1, x / 2] {
                    if y != x {
                        out.push(json!(y));
                    }
                }
            }
            J::Array(v) => {
                for i in 0..v.len() {
                    let mut w = v.clone();
                    w.remove(i);
                    out.push(J::Array(w));
                }
                for (i, x) in v.iter().enumerate() {
                    let mut sub = vec![];
                    variants(x, &mut sub);
                    for y in sub {
                        let mut w = v.clone();
                        w[i] = y;
                        out.push(J::Array(w));
                    }
                }
            }
            J::Object(o) => {
                for (k, x) in o {
                    let mut sub = vec![];
                    variants(x, &mut sub);
                    for y in sub {
                        let mut w = o.clone();
                        w[k] = y;
                        out.push(J::Object(w));
                    }
                }
            }
            _ => {}
        }
    }
    'outer: loop {
        let mut vs = vec![];
        variants(&cur, &mut vs);
        for v in vs {
            if start.elapsed() > Duration::from_secs(6) {
                return cur;
            }
            if (p.check)(&v).is_err() {
                cur = v;
                continue 'outer;
            }
        }
        return cur;
    }
}

fn shard(a: &[String]) -> i32 {
    let p = prop(&arg(a, "--prop").unwrap());
    let num = |k: &str, d: u64| arg(a, k).and_then(|x| x.parse().ok()).unwrap_or(d);
    let (seed, k, of, secs) = (num("--seed", 1), num("--shard", 0), num("--of", 1), num("--secs", 5));
    let upto = num("--upto", u64::MAX);
    let dict = load_dict(arg(a, "--dict"));
    let prog = arg(a, "--progress").map(|f| std::fs::OpenOptions::new().create(true).write(true).open(f).unwrap());
    let threads = num("--threads", 1);
    if threads > 1 {
        return match crowd(p, seed, k, of, threads, secs, dict, prog) {
            Ok(n) => {
                println!("{}", json!({"evaluations": n, "nontrivial": 0, "samples": []}));
                0
            }
            Err((i, case, m, n)) => {
                // a failure that does not need the other threads is made small as usual
                let alone = (p.check)(&case).is_err();
                let small = if alone { shrink(p, &case) } else { case.clone() };
                let m2 = if alone { (p.check)(&small).err().unwrap_or(m) } else { m };
                println!("{}", json!({"fail": i, "case": small, "original": case, "msg": m2, "evaluations": n, "threads": threads}));
                3
            }
        };
    }
    if arg(a, "--guided").is_some() {
        // the case itself goes into the progress file: it cannot be made again from a number
        let note = |n: u64, c: &J| {
            if let Some(f) = &prog {
                let t = c.to_string();
                let mut b = n.to_le_bytes().to_vec();
                b.extend((t.len() as u64).to_le_bytes());
                b.extend(t.as_bytes());
                let _ = f.write_all_at(&b, 0);
            }
        };
        // a case the checker itself cannot handle is no case
        let check = |c: &J| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.check)(c).err())).unwrap_or(None);
        let (n, kept, fail) = guided::hunt(seed.wrapping_mul(31).wrapping_add(k), secs, &dict, |i| (p.gen)(i, seed, &dict), note, check, 100_000 * (k + 1), of);
        return match fail {
            Some((case, m)) => {
                let small = shrink(p, &case);
                let m2 = (p.check)(&small).err().unwrap_or(m);
                println!("{}", json!({"fail": 0, "case": small, "original": case, "msg": m2, "evaluations": n, "guided": true}));
                3
            }
            None => {
                println!("{}", json!({"evaluations": n, "nontrivial": 0, "samples": [], "kept": kept, "counters": guided::sizes()}));
                0
            }
        };
    }
    let start = Instant::now();
    let (mut n, mut nt) = (0u64, 0u64);
    let mut seen: HashSet<u64> = HashSet::new();
    let mut samples: Vec<J> = vec![];
    let mut i = k;
    while start.elapsed() < Duration::from_secs(secs) && i <= upto {
        let case = (p.gen)(i, seed, &dict);
        if let Some(f) = &prog {
            let _ = f.write_all_at(&i.to_le_bytes(), 0);
        }
        match (p.check)(&case) {
            Ok(x) => {
                n += 1;
                if x {
                    let mut h = DefaultHasher::new();
                    case.to_string().hash(&mut h);
                    if seen.len() < 3_000_000 && seen.insert(h.finish()) {
                        nt += 1;
                        if samples.len() < 4 && (nt == 1 || nt % 997 == 0) {
                            samples.push(case);
                        }
                    }
                }
            }
            Err(m) => {
                let small = shrink(p, &case);
                let m2 = (p.check)(&small).err().unwrap_or_else(|| m.clone());
                println!("{}", json!({"fail": i, "case": small, "original": case, "msg": m2, "evaluations": n}));
                return 3;
            }
        }
        i += of;
    }
    println!("{}", json!({"evaluations": n, "nontrivial": nt, "samples": samples, "last": i}));
    0
}

/// The cases of one shard, checked by several threads at once: a failure that needs two calls to overlap shows only here.
fn crowd(p: &'static Prop, seed: u64, k: u64, of: u64, threads: u64, secs: u64, dict: Dict, prog: Option<std::fs::File>) -> Result<u64, (u64, J, String, u64)> {
    use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
    use std::sync::{Arc, Mutex};
    let start = Instant::now();
    let stop = Arc::new(AtomicBool::new(false));
    let count = Arc::new(AtomicU64::new(0));
    let fail = Arc::new(Mutex::new(None));
    let (dict, prog) = (Arc::new(dict), Arc::new(prog));
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let (stop, count, fail, dict, prog) = (stop.clone(), count.clone(), fail.clone(), dict.clone(), prog.clone());
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    let mut i = k + of * t;
                    while start.elapsed() < Duration::from_secs(secs) && !stop.load(SeqCst) {
                        let case = (p.gen)(i, seed, &dict);
                        if let Some(f) = &*prog {
                            let _ = f.write_all_at(&i.to_le_bytes(), 0);
                        }
                        if let Err(m) = (p.check)(&case) {
                            stop.store(true, SeqCst);
                            fail.lock().unwrap().get_or_insert((i, case, m));
                            return;
                        }
                        count.fetch_add(1, SeqCst);
                        i += of * threads;
                    }
                })
                .unwrap()
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    let n = count.load(SeqCst);
    let f = fail.lock().unwrap().take();
    match f {
        Some((i, case, m)) => Err((i, case, m, n)),
        None => Ok(n),
    }
}

fn search(a: &[String]) -> i32 {
    let id = arg(a, "--prop").unwrap();
    let p = prop(&id);
    let of: u64 = arg(a, "--of").and_then(|x| x.parse().ok()).unwrap_or(6);
    let secs: u64 = arg(a, "--secs").and_then(|x| x.parse().ok()).unwrap_or(5);
    let seed: u64 = arg(a, "--seed").and_then(|x| x.parse().ok()).unwrap_or(1);
    let dict = arg(a, "--dict").unwrap_or_default();
    let dir = scratch();
    let exe = std::env::current_exe().unwrap();
    let mut kids = vec![];
    let guided: u64 = if guided::available() { arg(a, "--guided").and_then(|x| x.parse().ok()).unwrap_or(0) } else { 0 };
    for k in 0..of + guided {
        let pf = dir.join(format!("progress-{}", k));
        let of_ = dir.join(format!("out-{}", k));
        let mut c = std::process::Command::new(&exe);
        let c = c
            .args(["shard", "--prop", &id, "--seed", &seed.to_string(), "--shard", &k.to_string(), "--of", &of.to_string(), "--secs", &secs.to_string(), "--dict", &dict])
            .args(["--threads", if k + 1 == of && of > 1 { "3" } else { "1" }])
            .args(if k >= of { &["--guided", "1"][..] } else { &[] })
            .arg("--progress")
            .arg(&pf)
            .stdout(std::fs::File::create(&of_).unwrap())
            .stderr(std::process::Stdio::null())
            .spawn()
            .unwrap();
        kids.push((k, c, pf, of_, 0u64, Instant::now(), None::<String>, false));
    }
    let d = load_dict(Some(dict.clone()));
    loop {
        let mut live = 0;
        for kid in kids.iter_mut() {
            if kid.7 {
                continue;
            }
            let progress = std::fs::read(&kid.2).ok().filter(|b| b.len() >= 8).map(|b| {
                let mut x = [0u8; 8];
                x.copy_from_slice(&b[..8]);
                u64::from_le_bytes(x)
            });
            match kid.1.try_wait().unwrap() {
                Some(st) => {
                    kid.7 = true;
                    if st.code() != Some(0) && st.code() != Some(3) {
                        kid.6 = Some(format!("the process died ({}) on this case", st.signal().map_or("abort".into(), |s| format!("signal {}", s))));
                        kid.4 = progress.unwrap_or(0);
                    }
                }
                None => {
                    live += 1;
                    if progress != Some(kid.4) {
                        kid.4 = progress.unwrap_or(kid.4);
                        kid.5 = Instant::now();
                    } else if kid.5.elapsed() > Duration::from_secs(20) {
                        let _ = kid.1.kill();
                        let _ = kid.1.wait();
                        kid.7 = true;
                        kid.6 = Some("no answer within 20 s on this case".into());
                    }
                }
            }
        }
        if live == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let (mut n, mut nt) = (0, 0);
    let mut samples = vec![];
    let mut fails = vec![];
    for kid in kids {
        if let Some(m) = kid.6 {
            if kid.0 >= of {
                let b = std::fs::read(&kid.2).unwrap_or_default();
                let case = b.get(8..16).map(|x| u64::from_le_bytes(x.try_into().unwrap()) as usize).and_then(|l| b.get(16..16 + l)).and_then(|x| serde_json::from_slice::<J>(x).ok());
                if let Some(case) = case {
                    fails.push(json!({"fail": kid.4, "shard": kid.0, "case": case, "msg": m, "crash": true, "guided": true}));
                }
                continue;
            }
            fails.push(json!({"fail": kid.4, "shard": kid.0, "threads": if kid.0 + 1 == of && of > 1 { 3 } else { 1 }, "case": (p.gen)(kid.4, seed, &d), "msg": m, "crash": true}));
            continue;
        }
        let t = std::fs::read_to_string(&kid.3).unwrap_or_default();
        let j: J = t.lines().last().and_then(|l| serde_json::from_str(l).ok()).unwrap_or(J::Null);
        n += j["evaluations"].as_u64().unwrap_or(0);
        nt += j["nontrivial"].as_u64().unwrap_or(0);
        if samples.len() < 6 {
            samples.extend(j["samples"].as_array().cloned().unwrap_or_default().into_iter().take(2));
        }
        if !j["fail"].is_null() {
            let mut j = j;
            j["shard"] = json!(kid.0);
            fails.push(j);
        }
    }
    for f in fails.iter_mut() {
        f["prop"] = json!(id);
        f["seed"] = json!(seed);
        f["of"] = json!(of);
    }
    println!("{}", json!({"prop": id, "evaluations": n, "distinct_nontrivial": nt, "rule": p.rule, "samples": samples, "fails": fails}));
    0
}

fn run(a: &[String]) -> i32 {
    let f = &a[1];
    let j: J = serde_json::from_str(&std::fs::read_to_string(f).expect("replay file")).expect("replay file is JSON");
    if let Some(h) = j.get("history").filter(|h| h.is_object()) {
        // the failure depends on what the same process did before: repeat all of it
        let p = prop(h["prop"].as_str().unwrap());
        let d = load_dict(h["dict"].as_str().map(String::from));
        let n = |k: &str| h[k].as_u64().unwrap_or(0);
        let mut i = n("shard");
        while i <= n("upto") {
            let case = (p.gen)(i, n("seed"), &d);
            if let Err(m) = (p.check)(&case) {
                println!("property {} FAILS on {} after the cases generated before it: {}", p.id, case, m);
                return 1;
            }
            i += n("of").max(1);
        }
        println!("property {} holds on that history", p.id);
        return 0;
    }
    if let Some(h) = j.get("threads").filter(|h| h.is_object()) {
        // the failure needs calls that overlap: run the same cases on as many threads again
        let p = prop(h["prop"].as_str().unwrap());
        let d = load_dict(h["dict"].as_str().map(String::from));
        let n = |k: &str| h[k].as_u64().unwrap_or(0);
        return match crowd(p, n("seed"), n("shard"), n("of").max(1), n("threads"), n("secs"), d, None) {
            Err((_, case, m, _)) => {
                println!("property {} FAILS on {} while other threads check other cases: {}", p.id, case, m);
                1
            }
            Ok(k) => {
                println!("property {} holds on {} cases checked by {} threads at once", p.id, k, n("threads"));
                0
            }
        };
    }
    let j = if j.get("case").is_some() { j } else { j["input"].clone() };
    let p = prop(j["prop"].as_str().unwrap());
    match (p.check)(&j["case"]) {
        Ok(_) => {
            println!("property {} holds on {}", p.id, j["case"]);
            0
        }
        Err(m) => {
            println!("property {} FAILS on {}: {}", p.id, j["case"], m);
            1
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        LAST_PANIC.with(|l| *l.borrow_mut() = s);
    }));
    let a: Vec<String> = std::env::args().skip(1).collect();
    // deep but finite recursion in the code under test must not be confused with unbounded recursion
    let a2 = a.clone();
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || match a2.first().map(|x| &x[..]) {
            Some("shard") => shard(&a2),
            Some("search") => search(&a2),
            Some("run") => run(&a2),
            Some("known") => {
                for (id, name, fails) in known() {
                    println!("{}", json!({"prop": id, "id": name, "still_fails": fails}));
                }
                0
            }
            Some("list") => {
                for p in PROPS {
                    println!("{}", p.id);
                }
                0
            }
            _ => {
                eprintln!("usage: vreplay search|shard|run|list");
                2
            }
        })
        .unwrap();
    let code = h.join().unwrap_or(2);
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}
