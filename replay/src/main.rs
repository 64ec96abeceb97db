//! Concrete replay: runs the real code on concrete inputs against oracles that
//! do not use it.  Looks for a failing input; finding none decides nothing.
mod bundle;
mod codec;
mod decomp;
mod defs;
mod gen;
mod instr;
mod lang;
mod mapper;
mod types;
mod util;

use util::*;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let suite = args[1].as_str();
    let seed: u64 = args[2].parse().unwrap_or(1);
    let thorough = args.get(3).map(|s| s == "thorough").unwrap_or(false);
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string().replace('\n', " ");
        PANIC.with(|p| *p.borrow_mut() = s);
    }));
    let mut c = Ctx { rng: Rng::new(seed), thorough, cases: 0, fails: vec![], notes: vec![], seen: Default::default(), samples: vec![] };
    let f: fn(&mut Ctx) = match suite {
        "codec" => codec::run,
        "instr" => instr::run,
        "code" => instr::code,
        "jumps" => instr::jumps,
        "cursor" => instr::cursor,
        "defs" => defs::run,
        "bundle" => bundle::run,
        "tables" => bundle::tables,
        "strings" => bundle::strings,
        "pool" => bundle::pool,
        "stream" => bundle::stream,
        "decompile" => decomp::run,
        "control" => decomp::control,
        "print" => decomp::print,
        "declare" => decomp::declare,
        "mapper" => mapper::run,
        "typenames" => types::run,
        _ => panic!("no suite {suite}"),
    };
    let r = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut c)));
        if r.is_err() {
            let m = PANIC.with(|p| p.borrow().clone());
            c.fail("suite/panic", format!("panicked outside a case: {m}"));
        }
        c
    }).unwrap().join();
    let c = r.unwrap();
    println!("CASES {}", c.cases);
    println!("DISTINCT {}", c.seen.len());
    for (k, i) in &c.samples {
        println!("SAMPLE {k} :: {}", i.replace('\n', "\\n"));
    }
    for n in &c.notes {
        println!("NOTE {n}");
    }
    for (k, w) in &c.fails {
        println!("FAIL {k} :: {}", w.replace('\n', "\\n"));
    }
    std::process::exit(if c.fails.is_empty() { 0 } else { 1 });
}
