//! Concrete replay for the compiler's modules behind the parser, as they are in /repo
//! (the parser itself needs a crate that is not installed).
#![allow(warnings)]
#[path = "/repo/compiler/src"]
mod compiler {
    pub mod assembler;
    pub mod cte;
    pub mod diagnostics;
    pub mod error;
    pub mod scope;
    pub mod source_map;
    pub mod sugar;
    pub mod symbol;
    pub mod transform;
    pub mod typechecker;
}
pub use compiler::*;
pub mod parser {
    include!(concat!(env!("OUT_DIR"), "/parser.rs"));
}
mod gen;
mod advice;
mod kinds;
mod line;
#[path = "/repo/scc/cli/src/opts.rs"]
mod opts;
mod pos;
#[path = "../../replay/src/util.rs"]
mod util;

use util::*;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let suite = args[1].as_str();
    let seed: u64 = args[2].parse().unwrap_or(1);
    let thorough = args.get(3).map(|s| s == "thorough").unwrap_or(false);
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string().replace('\n', " ");
        PANIC.with(|p| *p.borrow_mut() = s);
    }));
    let mut c = Ctx { rng: Rng::new(seed), thorough, cases: 0, fails: vec![], notes: vec![], seen: Default::default(), samples: vec![] };
    let f: fn(&mut Ctx) = match suite {
        "advice" => advice::run,
        "assemble" => gen::run,
        "kinds" => kinds::run,
        "calls" => kinds::run_calls,
        "options" => line::run,
        "positions" => pos::run,
        _ => panic!("no suite {suite}"),
    };
    let r = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut c)));
        if r.is_err() {
            let m = PANIC.with(|p| p.borrow().clone());
            c.fail("suite/panic", format!("panicked outside a case: {m}"));
        }
        c
    }).unwrap().join();
    let c = r.unwrap();
    println!("CASES {}", c.cases);
    println!("DISTINCT {}", c.seen.len());
    for (k, i) in &c.samples {
        println!("SAMPLE {k} :: {}", i.replace('\n', "\\n"));
    }
    for n in &c.notes {
        println!("NOTE {n}");
    }
    for (k, w) in &c.fails {
        println!("FAIL {k} :: {}", w.replace('\n', "\\n"));
    }
    std::process::exit(if c.fails.is_empty() { 0 } else { 1 });
}
