//! Positions in sources: which file, line and column a position is, and what
//! a report about it shows, against a scan of the texts character by character.
use std::cmp::Ordering;
use std::path::PathBuf;

use redscript::ast::{Ident, Pos, Span};
use redscript::bundle::PoolIndex;

use crate::diagnostics::{Deprecation, Diagnostic};
use crate::error::Cause;
use crate::source_map::Files;
use crate::util::*;

fn text(r: &mut Rng, max: u64) -> String {
    const POOL: &[char] = &['a', 'b', '0', '_', ' ', ' ', '\t', '\n', '\n', '\n', '\r', '{', '\u{e9}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{20ac}', '\u{ffff}', '\u{10000}', '\u{1f600}', '\u{301}', '\u{feff}'];
    let n = r.below(max + 1);
    (0..n).map(|_| *r.pick(POOL)).collect()
}

struct At {
    file: usize,
    line: usize,
    col: usize,
}

pub fn run(c: &mut Ctx) {
    for round in 0..c.n(800) {
        let n = c.rng.below(5) as usize;
        let sizes = *c.rng.pick(&[0u64, 3, 12, 40]);
        let texts: Vec<String> = (0..n).map(|_| text(&mut c.rng, sizes)).collect();
        one(c, round, &texts);
    }
    spans(c);
}

fn one(c: &mut Ctx, round: u64, texts: &[String]) {
    let input = format!("{texts:?}");
    let Some(files) = c.case("positions/add", &input, || {
        let mut fs = Files::new();
        for (i, t) in texts.iter().enumerate() {
            fs.add(PathBuf::from(format!("dir/f{i}.reds")), t.clone());
        }
        fs
    }) else { return };
    c.check(files.is_empty() == texts.is_empty(), "positions/is_empty", || input.clone());
    // by hand: every file starts one behind the end of the one before it
    let mut known: Vec<(usize, At)> = vec![];
    let mut start = 0usize;
    for (i, t) in texts.iter().enumerate() {
        let (mut line, mut col) = (0, 0);
        for (off, ch) in t.char_indices() {
            known.push((start + off as usize, At { file: i, line, col }));
            col += 1;
            if ch == '\n' {
                line += 1;
                col = 0;
            }
        }
        known.push((start + t.len() as usize, At { file: i, line, col }));
        start += t.len() as usize + 1;
    }
    let lines = |f: usize| -> Vec<&str> { 
        let mut v: Vec<&str> = texts[f].split_inclusive('\n').collect();
        if texts[f].is_empty() || texts[f].ends_with('\n') { v.push(""); }
        v
    };
    let nth = |f: usize, k: usize| lines(f)[k].to_string();
    for (p, at) in &known {
        let what = format!("position {p} of {input}");
        let got = c.case("positions/lookup", &what, || {
            let f = files.lookup_file(Pos::new(*p))?;
            let q = f.lookup(Pos::new(*p))?;
            Some((f.path().to_path_buf(), q.line, q.col, q.to_string(), f.source().to_string(), f.enclosing_line(q.line).to_string(), usize::from(f.byte_offset())))
        });
        let base = known.iter().find(|(_, a)| a.file == at.file).unwrap().0;
        let want = (PathBuf::from(format!("dir/f{}.reds", at.file)), at.line, at.col, format!("{}:{}", at.line + 1, at.col + 1), texts[at.file].clone(), nth(at.file, at.line), base);
        if let Some(got) = got {
            c.check(got.as_ref() == Some(&want), "positions/lookup", || format!("{what}: {got:?} instead of {want:?}"));
        }
        let early = c.case("positions/before", &what, || files.lookup_file(Pos::new(*p)).and_then(|f| if base > 0 { f.lookup(Pos::new(base - 1)) } else { None }));
        c.check(matches!(early, Some(None)), "positions/before", || format!("{what}: the position in front of the file is found in it"));
    }
    for far in [start, start + 1, start + 1000] {
        let r = c.case("positions/beyond", &input, || files.lookup_file(Pos::new(far)).is_none() && files.lookup(Span::new(Pos::new(far), Pos::new(far))).is_none());
        c.check(r != Some(false), "positions/beyond", || format!("position {far} of {input} belongs to no file"));
    }
    if known.is_empty() { return; }
    for k in 0..12 {
        let a = c.rng.below(known.len() as u64) as usize;
        let (lo, at) = &known[a];
        let same: Vec<&(usize, At)> = known[a..].iter().filter(|(_, x)| x.file == at.file).collect();
        let (hi, to) = if k % 3 == 0 { same[c.rng.below(same.len().min(4) as u64) as usize] } else { same[c.rng.below(same.len() as u64) as usize] };
        let span = Span::new(Pos::new(*lo), Pos::new(*hi));
        let what = format!("{lo}..{hi} of {input}");
        let base = known.iter().find(|(_, x)| x.file == at.file).unwrap().0;
        let slice = &texts[at.file][lo - base..hi - base];
        let got = c.case("positions/span", &what, || files.lookup(span).map(|l| (l.file.path().to_path_buf(), l.start.line, l.start.col, l.end.line, l.end.col, l.to_string(), l.enclosing_line().to_string(), l.file.source_slice(span).to_string())));
        let want = (PathBuf::from(format!("dir/f{}.reds", at.file)), at.line, at.col, to.line, to.col, format!("dir/f{}.reds:{}:{}", at.file, at.line + 1, at.col + 1), nth(at.file, at.line), slice.to_string());
        if let Some(got) = got {
            c.check(got.as_ref() == Some(&want), "positions/span", || format!("{what}: {got:?} instead of {want:?}"));
        }
        let (d, fatal, code, words): (Diagnostic, bool, &str, &str) = match (round + k) % 8 {
            0 => (Diagnostic::UnusedLocal(span), false, "OTHER", "this variable is never used"),
            1 => (Diagnostic::MissingReturn(span), false, "OTHER", "not all code paths return a value, make sure you're not missing a return statement"),
            2 => (Diagnostic::CompileError(Cause::ClassNotFound(Ident::from_static("Foo")), span), true, "UNRESOLVED_CLASS", "class Foo not found"),
            3 => (Diagnostic::CteError("no value", span), true, "OTHER", "compile-time expression error: no value"),
            4 => (Diagnostic::StatementFallthrough(span), true, "OTHER", "the body of this case might fall through, it should end with a break/return statement or contain no statements at all"),
            5 => (Diagnostic::InvalidUseOfTemporary(span), true, "OTHER", "this use of a temporary value is not allowed, consider extracting the highlighted expression into a variable"),
            6 => (Diagnostic::FieldConflict(span), false, "OTHER", "a field with this name is already defined in the class, this will have no effect"),
            _ => (Diagnostic::ReplaceMethodConflict(PoolIndex::new(7), span), false, "OTHER", "this method replacement overwrites a previous annotation targeting the same method, only one replacement per method can be active at a time"),
        };
        let code = if code == "OTHER" { code } else { Cause::ClassNotFound(Ident::from_static("Foo")).code() };
        c.check(d.is_fatal() == fatal && d.code() == code && d.span() == span, "report/kind", || format!("{d:?}: fatal {} code {} span {:?}", d.is_fatal(), d.code(), d.span()));
        let shown = c.case("report/display", &what, || {
            let mut out = String::new();
            d.display(&files, &mut out).unwrap();
            out
        });
        let marks = if at.line == to.line { (to.col - at.col).max(1) } else { 3 };
        let mut want = String::new();
        if let Diagnostic::CompileError(..) = d {
            want.push_str(&format!("[{code}] "));
        }
        let line: String = nth(at.file, at.line).trim_end().chars().map(|c| if c == '\t' { ' ' } else { c }).collect();
        want.push_str(&format!("At dir/f{}.reds:{}:{}:\n{line}\n", at.file, at.line + 1, at.col + 1));
        for _ in 0..at.col { want.push(' '); }
        for _ in 0..marks { want.push('^'); }
        want.push_str(&format!("\n{words}\n"));
        if let Some(shown) = shown {
            c.check(shown == want, "report/display", || format!("{what}: {shown:?} instead of {want:?}"));
        }
    }
}

fn spans(c: &mut Ctx) {
    let _ = Deprecation::UnrelatedTypeEquals;
    for _ in 0..c.n(300) {
        let mut p = || c.rng.below(9) as usize;
        let (a, b, x, y, q) = (p(), p(), p(), p(), p());
        let (s, t) = (Span::new(Pos::new(a), Pos::new(b)), Span::new(Pos::new(x), Pos::new(y)));
        let m = s.merge(t);
        c.check(m == Span::new(Pos::new(a.min(x)), Pos::new(b.max(y))), "span/merge", || format!("{s:?} {t:?} {m:?}"));
        c.check(s.contains(Pos::new(q)) == (a <= q && q < b), "span/contains", || format!("{s:?} {q}"));
        let want = if a > q { Ordering::Greater } else if b < q { Ordering::Less } else { Ordering::Equal };
        c.check(s.compare_pos(Pos::new(q)) == want, "span/compare", || format!("{s:?} {q}"));
    }
}
