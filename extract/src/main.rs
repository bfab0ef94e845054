//! vextract: turns a contract template plus the compiler's own macro expansion of /repo's current
//! source into one Verus file.  The text of every function under contract is taken from the
//! expansion on every run; the rewrites applied to it are listed in DESIGN.md ("What the
//! extraction changes").
mod desugar;
mod find;
mod grammar;
mod print;
mod template;

use std::collections::HashMap;
use std::fs;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut srcs: HashMap<String, syn::File> = HashMap::new();
    let mut template = None;
    let mut out = None;
    let mut map = None;
    let mut trust: Vec<String> = vec![];
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--src" => {
                let (k, p) = args[i + 1].split_once('=').expect("--src name=path");
                let text = fs::read_to_string(p).unwrap_or_else(|e| die(&format!("read {p}: {e}")));
                let f = syn::parse_file(&text).unwrap_or_else(|e| die(&format!("parse {p}: {e}")));
                srcs.insert(k.to_string(), f);
            }
            "--template" => template = Some(args[i + 1].clone()),
            "--out" => out = Some(args[i + 1].clone()),
            "--map" => map = Some(args[i + 1].clone()),
            // functions whose body Verus cannot take: contract kept, body dropped, reported
            "--trust" => trust.push(args[i + 1].clone()),
            // path=k: use the k-th of the loop invariants written for a function
            "--alt" => trust.push(format!("alt:{}", args[i + 1])),
            // `--probe start|end`: an `assert(false)` there, which must fail (is a contract vacuous?)
            "--probe" => trust.push(format!("probe:{}", args[i + 1])),
            a => die(&format!("unknown argument {a}")),
        }
        i += 2;
    }
    let r = template::expand(&srcs, &template.unwrap(), &trust);
    match r {
        Ok((text, json)) => {
            fs::write(out.unwrap(), text).unwrap();
            if let Some(m) = map {
                fs::write(m, json).unwrap();
            }
        }
        Err(e) => die(&e),
    }
}

fn die(m: &str) -> ! {
    eprintln!("vextract: {m}");
    std::process::exit(3)
}
