//! The command line of the game: what the options see after Windows took it
//! apart and the repair put it together, against what was told.
use std::path::PathBuf;

use crate::opts::{fix_args, Opts};
use crate::util::*;

/// how Windows takes a command line apart (CommandLineToArgvW)
fn split(line: &str) -> Vec<String> {
    let s: Vec<char> = line.chars().collect();
    let (mut out, mut cur, mut quoted, mut some, mut i) = (vec![], String::new(), false, false, 0);
    while i < s.len() {
        match s[i] {
            '\\' => {
                let from = i;
                while i < s.len() && s[i] == '\\' { i += 1; }
                let n = i - from;
                some = true;
                if i < s.len() && s[i] == '"' {
                    cur.extend(std::iter::repeat('\\').take(n / 2));
                    if n % 2 == 1 {
                        cur.push('"');
                        i += 1;
                    }
                } else {
                    cur.extend(std::iter::repeat('\\').take(n));
                }
                continue;
            }
            '"' => {
                quoted = !quoted;
                some = true;
            }
            ' ' if !quoted => {
                if some { out.push(std::mem::take(&mut cur)); }
                some = false;
            }
            c => {
                cur.push(c);
                some = true;
            }
        }
        i += 1;
    }
    if some { out.push(cur); }
    out
}

fn word(r: &mut Rng) -> String {
    const POOL: &[&str] = &["a", "B", "x86", "(", ")", ".", "-", "_", ":", "\\", "\u{e9}", "\u{20ac}", "\u{3000}", "\u{a0}", "=", "'", "r6"];
    let n = 1 + r.below(4);
    let w: String = (0..n).map(|_| *r.pick(POOL)).collect();
    let w = w.trim_end_matches('\\').to_string();
    if w.is_empty() { "C".to_string() } else { w }
}

fn path(r: &mut Rng) -> String {
    let n = *r.pick(&[1, 1, 2, 2, 3, 5]);
    let mut p = format!("C:\\{}", word(r));
    for _ in 1..n {
        p.push_str(if r.below(4) == 0 { "\\ " } else { " " });
        p.push_str(&word(r));
    }
    p
}

/// as written on the command line, and as meant
fn arg(p: &str, slash: bool, quoted: bool) -> (String, String) {
    let meant = if slash { format!("{p}\\") } else { p.to_string() };
    let quoted = quoted || meant.contains(' ');
    (if quoted { format!("\"{meant}\"") } else { meant.clone() }, meant)
}

fn told(c: &mut Ctx, key: &str, line: &str, meant: &[String]) -> Option<Vec<String>> {
    let args = split(line);
    let got = c.case(key, line, || fix_args(args.clone()))?;
    c.check(got == meant, key, || format!("{line} arrives as {args:?} and becomes {got:?} instead of {meant:?}"));
    Some(got)
}

pub fn run(c: &mut Ctx) {
    for _ in 0..c.n(4000) {
        let n = c.rng.below(7);
        let (mut line, mut meant) = (vec![], vec![]);
        for _ in 0..n {
            let p = if c.rng.bool() { path(&mut c.rng) } else { word(&mut c.rng) };
            let slash = c.rng.below(5) < 2;
            // an unquoted text that ends in a backslash stands in front of a blank: nothing is hidden
            let quoted = slash || c.rng.below(3) == 0;
            let (w, m) = arg(&p, slash, quoted);
            line.push(w);
            meant.push(m);
        }
        told(c, "options/line", &line.join(" "), &meant);
    }
    // arguments without quotes pass as they are, empty ones are left out
    for _ in 0..c.n(500) {
        let n = c.rng.below(6);
        let args: Vec<String> = (0..n).map(|_| if c.rng.below(4) == 0 { String::new() } else { c.rng.text(8).replace('"', "'") }).collect();
        let want: Vec<String> = args.iter().filter(|a| !a.is_empty()).cloned().collect();
        if let Some(got) = c.case("options/plain", &format!("{args:?}"), || fix_args(args.clone())) {
            c.check(got == want, "options/plain", || format!("{args:?} becomes {got:?}"));
        }
    }
    // any arguments at all: no panic, and nothing empty comes out
    for _ in 0..c.n(1000) {
        let n = c.rng.below(5);
        const POOL: &[&str] = &["\"", "\"", " ", "\\", "a", "-x", "\\\"", "\" "];
        let args: Vec<String> = (0..n).map(|_| { let k = c.rng.below(6); (0..k).map(|_| *c.rng.pick(POOL)).collect() }).collect();
        if let Some(got) = c.case("options/any", &format!("{args:?}"), || fix_args(args.clone())) {
            c.check(got.iter().all(|a| !a.is_empty()), "options/any", || format!("{args:?} becomes {got:?}"));
        }
    }
    for _ in 0..c.n(150) {
        whole(c);
    }
}

fn whole(c: &mut Ctx) {
    let r = &mut c.rng;
    let mut parts: Vec<Vec<(String, String)>> = vec![];
    let flag = |s: &str| (s.to_string(), s.to_string());
    let dir = path(r);
    let first = vec![flag("-compile"), arg(&dir, r.below(3) > 0, true)];
    let scripts = first[1].1.clone();
    let mut named = |r: &mut Rng, parts: &mut Vec<Vec<(String, String)>>, name: &str| -> Option<PathBuf> {
        if r.bool() { return None; }
        let slash = r.below(3) == 0;
        let a = arg(&path(r), slash, true);
        let m = PathBuf::from(&a.1);
        parts.push(vec![flag(name), a]);
        Some(m)
    };
    let cache_dir = named(r, &mut parts, "-customCacheDir");
    let output = named(r, &mut parts, "-outputCacheFile");
    let list = named(r, &mut parts, "-compilePathsFile");
    let mut on = |r: &mut Rng, parts: &mut Vec<Vec<(String, String)>>, name: &str| -> bool {
        if r.bool() { parts.push(vec![flag(name)]); true } else { false }
    };
    let optimize = on(r, &mut parts, "-optimize");
    let no_exec = on(r, &mut parts, "-no-exec");
    let no_debug = on(r, &mut parts, "-no-debug");
    let no_testonly = on(r, &mut parts, "-no-testonly");
    let no_breakpoint = on(r, &mut parts, "-no-breakpoint");
    let profile = match r.below(3) {
        0 => None,
        k => { parts.push(vec![flag(if k == 1 { "-profile=on" } else { "-profile=off" })]); Some(k == 1) }
    };
    let threads = if r.bool() { let n = r.below(256); parts.push(vec![flag("-threads"), flag(&n.to_string())]); Some(n as u8) } else { None };
    let warnings: Vec<String> = (0..r.below(3)).map(|_| word(r)).collect();
    for w in &warnings { parts.push(vec![flag(&format!("-W{w}"))]); }
    // the order of the warnings is theirs; everything else may stand anywhere behind the scripts
    if warnings.len() < 2 {
        for i in (1..parts.len()).rev() {
            let j = r.below(i as u64 + 1) as usize;
            parts.swap(i, j);
        }
    }
    let mut all = vec![first];
    let cache = if r.bool() { let a = arg(&path(r), r.below(3) == 0, true); let m = PathBuf::from(&a.1); all.push(vec![a]); Some(m) } else { None };
    all.extend(parts);
    let flat: Vec<(String, String)> = all.into_iter().flatten().collect();
    let line = flat.iter().map(|a| a.0.as_str()).collect::<Vec<_>>().join(" ");
    let meant: Vec<String> = flat.iter().map(|a| a.1.clone()).collect();
    let Some(got) = told(c, "options/whole", &line, &meant) else { return };
    if got != meant { return; }
    let loaded = c.case("options/load", &line, || Opts::load(&got.iter().map(String::as_str).collect::<Vec<_>>()));
    match loaded {
        None => {}
        Some(Err(e)) => c.fail("options/load", format!("{line} is refused: {e:?}")),
        Some(Ok(o)) => {
            let want = Opts { scripts_dir: PathBuf::from(scripts), cache_dir, optimize, threads: threads.unwrap_or(1), warnings, no_testonly, no_breakpoint,
                profile: profile.unwrap_or(true), script_paths_file: list, cache_file: cache, output_cache_file: output, no_exec, no_debug };
            c.check(format!("{o:?}") == format!("{want:?}"), "options/load", || format!("{line}: {o:?} instead of {want:?}"));
        }
    }
}
