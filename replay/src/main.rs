//! Bounded, executable side of the checks.  It runs the real crate on generated inputs and compares
//! with an independent oracle.  It (1) turns a failed proof obligation into a concrete failing input
//! where it can and (2) audits what the proofs assume about the libraries.  It never stands for a proof.
mod ctx;
mod dict;
mod exec;
mod gen;
mod keys;
mod parse;
mod prints;
mod text;

use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub struct Case {
    /// the input, written out
    pub desc: String,
    pub nontrivial: bool,
}
pub struct Fail {
    pub input: String,
    pub expected: String,
    pub observed: String,
}
pub type Res = Result<Case, Fail>;
pub fn fail<T>(input: impl Into<String>, expected: impl Into<String>, observed: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { input: input.into(), expected: expected.into(), observed: observed.into() })
}

fn case_of(prop: &str) -> Option<fn(u64, u64) -> Res> {
    Some(match prop {
        "C01" => prints::c01,
        "C02" => prints::c02,
        "C03" => prints::c03,
        "C04" => prints::c04,
        "C05" => prints::c05,
        "C06" => parse::c06,
        "C07" => parse::c07,
        "C08" => parse::c08,
        "C09" => parse::c09,
        "C10" => parse::c10,
        "C11" => parse::c11,
        "C12" => exec::c12,
        "C13" => exec::c13,
        "C14" => keys::c14,
        "C17" => prints::c17,
        _ => return None,
    })
}

static CURRENT: AtomicU64 = AtomicU64::new(0);
static STARTED: AtomicU64 = AtomicU64::new(0);

fn run_case(f: fn(u64, u64) -> Res, seed: u64, i: u64) -> Res {
    match catch_unwind(AssertUnwindSafe(|| f(seed, i))) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            fail(LAST.with(|l| l.borrow().clone()), "a result", format!("panic: {m}"))
        }
    }
}
thread_local! {
    /// the input the code under test is working on, for a panic report
    pub static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn on(s: &str) {
    LAST.with(|l| *l.borrow_mut() = s.to_string());
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\r' => o += "\\r",
            '\t' => o += "\\t",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[0].ends_with("/dot") || a[0] == "dot" {
        exec::fake_dot(&a);
        return;
    }
    std::panic::set_hook(Box::new(|_| {}));
    let prop = a[2].clone();
    let f = case_of(&prop).unwrap_or_else(|| {
        eprintln!("unknown property {prop}");
        std::process::exit(3)
    });
    let seed: u64 = a[3].parse().unwrap();
    match a[1].as_str() {
        // replay case PROP SEED INDEX
        "case" => {
            let i: u64 = a[4].parse().unwrap();
            let t = std::thread::Builder::new().stack_size(512 << 20).spawn(move || run_case(f, seed, i)).unwrap();
            match t.join().unwrap() {
                Ok(c) => println!("holds on case {i}:\n{}", c.desc),
                Err(e) => {
                    println!("FAILS on case {i}\n--- input\n{}\n--- expected\n{}\n--- observed\n{}", e.input, e.expected, e.observed);
                    std::process::exit(1);
                }
            }
        }
        // replay run PROP SEED MAXCASES SECONDS REPLAYFILE TRACEFILE
        "run" => {
            let max: u64 = a[4].parse().unwrap();
            let secs: f64 = a[5].parse().unwrap();
            let out = a[6].clone();
            let trace = a.get(7).cloned();
            let t0 = Instant::now();
            let threads: u64 = if matches!(prop.as_str(), "C12" | "C13") || trace.is_some() { 1 } else { 6 };
            let mut hs = vec![];
            let best = std::sync::Arc::new(AtomicU64::new(u64::MAX));
            let next = std::sync::Arc::new(AtomicU64::new(0));
            for _ in 0..threads {
                let best = best.clone();
                let next = next.clone();
                let trace = trace.clone();
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(512 << 20)
                        .spawn(move || {
                            let mut n = 0u64;
                            let mut seen: HashSet<u64> = HashSet::new();
                            let mut samples: Vec<(u64, String)> = vec![];
                            let mut bad: Option<(u64, Fail)> = None;
                            loop {
                                let i = next.fetch_add(1, Ordering::SeqCst);
                                if i >= max || i > best.load(Ordering::SeqCst) || t0.elapsed().as_secs_f64() > secs {
                                    break;
                                }
                                CURRENT.store(i, Ordering::SeqCst);
                                STARTED.fetch_add(1, Ordering::SeqCst);
                                if let Some(t) = &trace {
                                    let _ = std::fs::write(t, i.to_string());
                                }
                                n += 1;
                                match run_case(f, seed, i) {
                                    Ok(c) => {
                                        if c.nontrivial {
                                            let mut h = DefaultHasher::new();
                                            c.desc.hash(&mut h);
                                            seen.insert(h.finish());
                                            if samples.len() < 2 && i > 20 {
                                                samples.push((i, c.desc));
                                            }
                                        }
                                    }
                                    Err(e) => {
                                        best.fetch_min(i, Ordering::SeqCst);
                                        if bad.as_ref().map(|b| b.0 > i).unwrap_or(true) {
                                            bad = Some((i, e));
                                        }
                                    }
                                }
                            }
                            (n, seen, samples, bad)
                        })
                        .unwrap(),
                );
            }
            // watchdog: no case may run for long
            {
                let prop = prop.clone();
                let out = out.clone();
                std::thread::spawn(move || {
                    let mut last = (0, Instant::now());
                    loop {
                        std::thread::sleep(Duration::from_millis(500));
                        let s = STARTED.load(Ordering::SeqCst);
                        if s != last.0 {
                            last = (s, Instant::now());
                        } else if last.1.elapsed().as_secs() > 60 {
                            let i = CURRENT.load(Ordering::SeqCst);
                            let _ = std::fs::write(&out, format!("property {prop} seed {seed} case {i}\nre-run: replay case {prop} {seed} {i}\n--- observed\nno answer after 60 s\n"));
                            println!("{{\"evaluations\":{s},\"distinct\":0,\"samples\":[],\"fail\":{{\"case\":{i},\"input\":\"\",\"expected\":\"an answer\",\"observed\":\"no answer after 60 s\"}}}}");
                            std::process::exit(1);
                        }
                    }
                });
            }
            let (mut n, mut seen, mut samples, mut bad) = (0, HashSet::new(), vec![], None::<(u64, Fail)>);
            for h in hs {
                let (a, b, c, d) = h.join().unwrap();
                n += a;
                seen.extend(b);
                samples.extend(c);
                if let Some((i, e)) = d {
                    if bad.as_ref().map(|x| x.0 > i).unwrap_or(true) {
                        bad = Some((i, e));
                    }
                }
            }
            exec::cleanup();
            samples.truncate(3);
            let ss: Vec<String> = samples.iter().map(|(_, s)| json(&s.chars().take(600).collect::<String>())).collect();
            let fj = match &bad {
                None => "null".to_string(),
                Some((i, e)) => {
                    let _ = std::fs::write(
                        &out,
                        format!("property {prop} seed {seed} case {i}\nre-run: replay case {prop} {seed} {i}\n--- input\n{}\n--- expected\n{}\n--- observed\n{}\n", e.input, e.expected, e.observed),
                    );
                    format!("{{\"case\":{i},\"input\":{},\"expected\":{},\"observed\":{}}}", json(&e.input), json(&e.expected), json(&e.observed))
                }
            };
            println!("{{\"evaluations\":{n},\"distinct\":{},\"samples\":[{}],\"fail\":{fj}}}", seen.len(), ss.join(","));
            std::process::exit(if bad.is_some() { 1 } else { 0 });
        }
        _ => std::process::exit(3),
    }
}
