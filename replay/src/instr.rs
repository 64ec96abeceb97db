//! C02 instructions, C03 code bodies, C04 jump arithmetic, C05 cursors
use redscript::bytecode::*;
use redscript::decode::Decode;
use redscript::encode::Encode;

use crate::gen::*;
use crate::util::*;

pub fn operands(c: &mut Ctx, op: u8) -> Vec<u64> {
    (0..ARITY[op as usize]).map(|_| c.rng.edgy()).collect()
}

pub fn desc(op: u8, a: &[u64]) -> String {
    format!("{} (opcode {op}) operands {a:x?}", NAMES[op as usize])
}

pub fn size_of(op: u8, a: &[u64]) -> u32 {
    if op == 51 { (SIZE[51] + profiling_len(a[0]) as u32).min(65535) } else { SIZE[op as usize] }
}

fn bytes_of(i: &Instr<Offset>) -> std::io::Result<Vec<u8>> {
    let mut o = vec![];
    i.encode(&mut o).map(|()| o)
}

fn one(c: &mut Ctx, op: u8, a: &[u64]) {
    let d = desc(op, a);
    let k = format!("instr/{}", NAMES[op as usize]);
    let want = wire(op, a);
    let Some(i) = c.case(&k, &d, || make(op, a)) else { return };
    if let Some(r) = c.case(&k, &d, || bytes_of(&i)) {
        c.check(matches!(&r, Ok(o) if *o == want), &k, || format!("{d} written as {r:02x?}, expected {want:02x?}"));
    }
    let mut src = want.clone();
    src.extend([0xee, 0x11]);
    if let Some((r, rest)) = c.case(&k, &format!("bytes {:02x?}", &src[..src.len().min(40)]), || {
        let mut s = Trickle(&src, 3);
        let r = Instr::<Offset>::decode(&mut s);
        (r, s.0.to_vec())
    }) {
        match r {
            Err(e) => c.fail(&k, format!("{d}: its bytes {:02x?} are refused: {e}", &src[..src.len().min(40)])),
            Ok(j) => {
                c.check(rest == [0xee, 0x11], &k, || format!("{d}: reading its bytes leaves {rest:02x?}"));
                let (o2, a2) = parts(&j);
                let mut a1 = parts(&i).1;
                let mut a2 = a2;
                if op == 23 { a1.clear(); a2.clear(); }
                c.check(o2 == op && a1 == a2, &k, || format!("{d} reads back as {j:?}"));
                let back = bytes_of(&j);
                c.check(matches!(&back, Ok(b) if *b == want), &k, || format!("{d}: bytes {want:02x?} read and written again give {back:02x?}"));
                let sz = j.size() as u32;
                c.check(sz == size_of(op, a), &format!("size/{}", NAMES[op as usize]), || format!("{d}: read instruction has size {sz}, expected {}", size_of(op, a)));
            }
        }
    }
    for n in 0..want.len().min(40) {
        if let Some(r) = c.case(&k, &format!("truncated {:02x?}", &want[..n]), || Instr::<Offset>::decode(&mut &want[..n])) {
            c.check(r.is_err(), &k, || format!("{d}: truncated bytes {:02x?} accepted as {r:?}", &want[..n]));
        }
    }
}

pub fn run(c: &mut Ctx) {
    for op in 0..104u8 {
        for _ in 0..c.n(60) {
            let a = operands(c, op);
            one(c, op, &a);
        }
        for v in [0u64, 1, u64::MAX, 0x7fff, 0x8000, 0x8001, 0x8002, 0x8003, 0x8004, 0x8005, 0x800a, 0x800b, 0x7ffd, 2, 3, 4, 5, 10, 11, 12, 0xfffe] {
            let a = vec![v; ARITY[op as usize]];
            one(c, op, &a);
        }
    }
    for op in 104..=255u8 {
        let mut b = vec![op];
        b.extend([0u8; 64]);
        if let Some(r) = c.case("instr/unknown", &format!("opcode {op}"), || Instr::<Offset>::decode(&mut &b[..])) {
            c.check(r.is_err(), "instr/unknown", || format!("unknown opcode {op} accepted as {r:?}"));
        }
    }
}

// ---------------------------------------------------------------- C03
pub fn sizes_only(c: &mut Ctx) {
    for op in 0..104u8 {
        for _ in 0..c.n(10) {
            let a = operands(c, op);
            let k = format!("size/{}", NAMES[op as usize]);
            let d = desc(op, &a);
            if let Some(s) = c.case(&k, &d, || make(op, &a).size()) {
                c.check(s as u32 == size_of(op, &a), &k, || format!("{d} has size {s}, expected {}", size_of(op, &a)));
            }
            if let Some(s) = c.case(&k, &d, || make_label(op, &a).size()) {
                c.check(s as u32 == size_of(op, &a), &k, || format!("{d} (unresolved) has size {s}, expected {}", size_of(op, &a)));
            }
        }
    }
    for n in [0u64, 1, 65529, 65530, 65531, 65535, 65536, 69_999] {
        // profiling names around the 16-bit limit
        let seed = (0x10001u64..0x200_0000).find(|s| s % 7 == 3 && s % 70_000 == n);
        if let Some(s) = seed {
            let want = size_of(51, &[s]);
            if let Some(got) = c.case("size/StartProfiling", &format!("a {n} byte name"), || make(51, &[s]).size()) {
                c.check(got as u32 == want, "size/StartProfiling", || format!("profiling name of {n} bytes has size {got}, expected {want}"));
            }
        }
    }
}

/// opcodes that occur in code that is written out
pub fn random_code(c: &mut Ctx, max: u64) -> Vec<(u8, Vec<u64>)> {
    let n = c.rng.below(max + 1);
    (0..n)
        .map(|_| {
            let mut op = c.rng.below(104) as u8;
            if op == 23 {
                op = 0;
            }
            let mut a = operands(c, op);
            if op == 51 {
                a[0] &= 0xffff;
            }
            (op, a)
        })
        .collect()
}

pub fn build(code: &[(u8, Vec<u64>)]) -> Code<Offset> {
    Code::new(code.iter().map(|(o, a)| make(*o, a)).collect())
}

pub fn code(c: &mut Ctx) {
    sizes_only(c);
    for round in 0..c.n(300) {
        let code = if round < 104 {
            let op = if round == 23 { 0 } else { round as u8 };
            let mut v = vec![(0u8, vec![]), (op, operands(c, op)), (39u8, vec![])];
            if round % 2 == 0 { v.truncate(2); }
            v
        } else if round == 104 {
            vec![(15u8, vec![7, 9]); 9000]
        } else {
            random_code(c, 30)
        };
        let d: String = format!("code {:?}", code.iter().take(12).map(|(o, _)| NAMES[*o as usize]).collect::<Vec<_>>());
        let total: u32 = code.iter().map(|(o, a)| size_of(*o, a)).sum();
        let mut want = total.to_le_bytes().to_vec();
        for (o, a) in &code {
            want.extend(wire(*o, a));
        }
        let Some(body) = c.case("code", &d, || build(&code)) else { continue };
        c.check(body.len() == code.len() && body.is_empty() == code.is_empty(), "code/len", || format!("{d}: wrong length"));
        if let Some(r) = c.case("code/encode", &d, || {
            let mut o = vec![];
            body.encode(&mut o).map(|()| o)
        }) {
            c.check(matches!(&r, Ok(o) if *o == want), "code/encode", || {
                let r = r.map(|o| o[..o.len().min(4)].to_vec());
                format!("{d} (total size {total}) written wrongly, starts {r:02x?}")
            });
        }
        want.extend([21, 22, 23]);
        if let Some((r, rest)) = c.case("code/decode", &d, || {
            let mut s = &want[..];
            let r = Code::<Offset>::decode(&mut s);
            (r, s.to_vec())
        }) {
            match r {
                Ok(b) => {
                    let got: Vec<_> = b.as_ref().iter().map(parts).collect();
                    let exp: Vec<_> = code.iter().map(|(o, a)| parts(&make(*o, a))).collect();
                    c.check(got == exp && rest == [21, 22, 23], "code/decode", || format!("{d} read back as {} instructions leaving {} bytes (expected {} and 3)", got.len(), rest.len(), exp.len()));
                }
                Err(e) => c.fail("code/decode", format!("{d} cannot be read back: {e}")),
            }
        }
        let cut = c.rng.below((want.len() - 3) as u64) as usize;
        if let Some(r) = c.case("code/trunc", &d, || Code::<Offset>::decode(&mut &want[..cut])) {
            c.check(r.is_err(), "code/trunc", || format!("{d} truncated to {cut} bytes accepted"));
        }
    }
    // an instruction that overshoots the recorded size ends the body
    for over in 1..17u32 {
        let mut b = over.to_le_bytes().to_vec();
        b.extend(wire(15, &[1, 2]));
        b.extend([0xaa; 3]);
        if let Some((r, left)) = c.case("code/overshoot", &format!("declared size {over}"), || {
            let mut s = &b[..];
            (Code::<Offset>::decode(&mut s), s.len())
        }) {
            c.check(matches!(&r, Ok(x) if x.len() == 1) && left == 3, "code/overshoot", || format!("declared size {over} with one 17 byte instruction read as {r:?}"));
        }
    }
    let mut b = u32::MAX.to_le_bytes().to_vec();
    b.extend([0u8; 100]);
    let r = c.case("code/huge", "declared size 2^32-1", || Code::<Offset>::decode(&mut &b[..]));
    c.check(matches!(r, Some(Err(_))), "code/huge", || "declared size 2^32-1 with 100 bytes accepted".into());
}

// ---------------------------------------------------------------- C04
pub fn jumps(c: &mut Ctx) {
    let edge: Vec<u16> = vec![0, 1, 2, 3, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0xfffe, 0xffff];
    let mut pairs: Vec<(u16, u16)> = edge.iter().flat_map(|a| edge.iter().map(move |b| (*a, *b))).collect();
    for _ in 0..c.n(20_000) {
        pairs.push((c.rng.next() as u16, c.rng.next() as u16));
    }
    for (t, b) in pairs {
        if let Some(o) = c.case("jump/relative", &format!("target {t} from {b}"), || Location::new(t).relative(Location::new(b))) {
            if let Some(back) = c.case("jump/absolute", &format!("offset {} from {b}", o.value), || o.absolute(Location::new(b))) {
                c.check(back.value == t, "jump/relative", || format!("target {t} seen from {b} is offset {}, which leads to {}", o.value, back.value));
            }
            c.check(o.value == t.wrapping_sub(b) as i16, "jump/relative", || format!("target {t} seen from {b} is offset {}", o.value));
        }
        let off = t as i16;
        if let Some(l) = c.case("jump/absolute", &format!("offset {off} from {b}"), || Offset::new(off).absolute(Location::new(b))) {
            c.check(l.value == (b as i32 + off as i32) as u16, "jump/absolute", || format!("offset {off} from {b} leads to {}", l.value));
        }
    }
    for op in 0..104u8 {
        for _ in 0..c.n(40) {
            let targets: Vec<Location> = (0..8).map(|_| Location::new(c.rng.edgy() as u16)).collect();
            let here = Location::new(c.rng.edgy() as u16);
            let kinds = KINDS[op as usize];
            let a: Vec<u64> = kinds.iter().map(|k| if k.starts_with('O') || *k == "T" { c.rng.below(8) } else { c.rng.edgy() }).collect();
            let want: Vec<u64> = kinds
                .iter()
                .zip(&a)
                .map(|(k, x)| if k.starts_with('O') || *k == "T" { targets[*x as usize].value.wrapping_sub(here.value) as u64 } else { *x })
                .collect();
            let d = format!("{} at {} with targets {:?}", desc(op, &a), here.value, targets.iter().map(|t| t.value).collect::<Vec<_>>());
            let k = format!("resolve/{}", NAMES[op as usize]);
            if let Some(r) = c.case(&k, &d, || make_label(op, &a).resolve_labels(here, &targets)) {
                let ok = parts(&r) == parts(&make(op, &want)) && (op == 23 || bytes_of(&r).ok() == bytes_of(&make(op, &want)).ok());
                c.check(ok, &k, || format!("{d} resolves to {r:?}"));
                c.check(r.size() == make_label(op, &a).size(), &k, || format!("{d}: size changes on resolution"));
            }
        }
    }
}

// ---------------------------------------------------------------- C05
pub fn cursor(c: &mut Ctx) {
    for round in 0..c.n(400) {
        let spec = random_code(c, if round % 10 == 0 { 0 } else { 25 });
        let body = build(&spec);
        let mut pos = vec![0u32];
        for (o, a) in &spec {
            pos.push(pos.last().unwrap() + size_of(*o, a));
        }
        let want: Vec<_> = spec.iter().map(|(o, a)| parts(&make(*o, a))).collect();
        let d = format!("code {:?} at {pos:?}", spec.iter().map(|(o, _)| NAMES[*o as usize]).collect::<Vec<_>>());
        // iteration
        if let Some(got) = c.case("cursor/iter", &d, || body.iter().map(|(l, i)| (l.value as u32, parts(&i))).collect::<Vec<_>>()) {
            let exp: Vec<_> = want.iter().cloned().enumerate().map(|(i, w)| (pos[i], w)).collect();
            c.check(got == exp, "cursor/iter", || format!("{d}: iteration yields positions {:?}", got.iter().map(|g| g.0).collect::<Vec<_>>()));
        }
        // walking
        c.case("cursor/walk", &d, || {
            let mut cur = body.cursor();
            let mut bad = None;
            for i in 0..=spec.len() {
                if cur.pos().value as u32 != pos[i] {
                    bad = Some(format!("{d}: position {} before instruction {i}", cur.pos().value));
                }
                let p = cur.peek();
                let q = cur.pop();
                let e = want.get(i).cloned();
                if p.as_ref().map(parts) != e || q.as_ref().ok().map(parts) != e {
                    bad = Some(format!("{d}: at instruction {i} peek {p:?}, pop {q:?}"));
                }
                if q.is_err() && cur.pos().value as u32 != *pos.last().unwrap() {
                    bad = Some(format!("{d}: failed pop moved the cursor"));
                }
            }
            bad
        })
        .flatten()
        .into_iter()
        .for_each(|b| c.fail("cursor/walk", b));
        // seeking
        let last = *pos.last().unwrap();
        for _ in 0..30 {
            let start = c.rng.below(pos.len() as u64) as usize;
            let p = if c.rng.bool() { *c.rng.pick(&pos) } else { c.rng.below(last as u64 + 5) as u32 };
            let r = c.case("cursor/seek", &format!("{d}: seek {p}"), || {
                let mut cur = body.cursor();
                for _ in 0..start {
                    cur.pop().unwrap();
                }
                let before = cur.pos();
                let a = cur.seek_abs(Location::new(p as u16)).is_ok();
                let pa = (cur.pos(), cur.peek().map(|i| parts(&i)));
                let mut cur2 = body.cursor();
                for _ in 0..start {
                    cur2.pop().unwrap();
                }
                let b = cur2.seek_rel(Offset::new((p as u16).wrapping_sub(before.value) as i16)).is_ok();
                let pb = (cur2.pos(), cur2.peek().map(|i| parts(&i)));
                (before, a, pa, b, pb)
            });
            if let Some((before, a, pa, b, pb)) = r {
                let idx = pos.iter().position(|x| *x == p);
                let exp = idx.unwrap_or(start);
                let e = (pos[exp], want.get(exp).cloned());
                c.check(a == idx.is_some() && (pa.0.value as u32, pa.1.clone()) == e, "cursor/seek", || format!("{d}: absolute seek to {p} from {} gives ok={a}, position {:?}", before.value, pa.0));
                c.check(b == idx.is_some() && (pb.0.value as u32, pb.1.clone()) == e, "cursor/seek_rel", || format!("{d}: relative seek to {p} from {} gives ok={b}, position {:?}", before.value, pb.0));
            }
            // ranges
            let q = if c.rng.bool() { *c.rng.pick(&pos) } else { c.rng.below(last as u64 + 5) as u32 };
            let (lo, hi) = (p.min(q), p.max(q));
            let r = c.case("cursor/range", &format!("{d}: range {lo}..{hi}"), || {
                let cur = body.cursor();
                let x = cur
                    .range(Location::new(lo as u16), Location::new(hi as u16))
                    .map(|it| it.map(|(l, i)| (l.value as u32, parts(&i))).collect::<Vec<_>>());
                x.ok()
            });
            if let Some(r) = r {
                let ia = pos.iter().position(|x| *x == lo);
                let ib = pos.iter().position(|x| *x == hi);
                let exp = match (ia, ib) {
                    (Some(a), Some(b)) => Some((a..b).map(|i| (pos[i], want[i].clone())).collect::<Vec<_>>()),
                    _ => None,
                };
                c.check(r == exp, "cursor/range", || format!("{d}: range {lo}..{hi} yields {:?}", r.as_ref().map(|v| v.iter().map(|x| x.0).collect::<Vec<_>>())));
            }
        }
    }
}
