//! C01: values, strings and arrays
use std::fmt::Debug;

use redscript::decode::{Decode, DecodeExt};
use redscript::encode::{Encode, EncodeExt};

use crate::util::*;

fn one<T: Encode + Decode + Copy + Debug>(c: &mut Ctx, ty: &str, v: T, want: &[u8], bits: impl Fn(T) -> u64) {
    let k = format!("codec/{ty}");
    let inp = format!("{ty} {v:?}");
    let got = c.case(&k, &inp, || {
        let mut o = vec![];
        v.encode(&mut o).map(|()| o)
    });
    match got {
        Some(Ok(o)) => c.check(o == want, &k, || format!("{inp} is written as {o:02x?}, expected {want:02x?}")),
        Some(Err(e)) => c.fail(&k, format!("{inp} cannot be written: {e}")),
        None => {}
    }
    let mut src = want.to_vec();
    src.extend([0xab, 0xcd]);
    for step in [1usize, 64] {
        let r = c.case(&k, &format!("bytes {src:02x?}"), || {
            let mut t = Trickle(&src, step);
            let v = T::decode(&mut t);
            (v, t.0.to_vec())
        });
        if let Some((r, rest)) = r {
            match r {
                Ok(x) => c.check(bits(x) == bits(v) && rest == [0xab, 0xcd], &k, || {
                    format!("bytes {src:02x?} read as {ty} {x:?} leaving {rest:02x?}; expected {v:?} leaving [ab, cd]")
                }),
                Err(e) => c.fail(&k, format!("bytes {src:02x?} cannot be read as {ty}: {e}")),
            }
        }
    }
    for n in 0..want.len() {
        if let Some(r) = c.case(&k, &format!("truncated {:02x?}", &want[..n]), || T::decode(&mut &want[..n])) {
            c.check(r.is_err(), &format!("{k}/trunc"), || format!("truncated bytes {:02x?} read as {ty} {r:?}", &want[..n]));
        }
    }
}

macro_rules! ints {
    ($c:expr, $($t:ident),*) => {$(
        let mut vals: Vec<$t> = vec![0, 1, 2, $t::MAX, $t::MIN, $t::MAX - 1, $t::MIN + 1, $t::MAX / 2, 0x7f, 0x55];
        if std::mem::size_of::<$t>() <= 2 {
            let step = if std::mem::size_of::<$t>() == 1 || $c.thorough { 1 } else { 7 };
            let mut i = 0u32;
            while i <= 0xffff { vals.push(i as $t); i += step; }
        }
        for i in 0..64 { vals.push((1u64 << i) as $t); vals.push(((1u64 << i).wrapping_sub(1)) as $t); }
        for _ in 0..$c.n(300) { vals.push($c.rng.edgy() as $t); }
        for v in vals { one($c, stringify!($t), v, &v.to_le_bytes(), |x| x as u64); }
    )*};
}

fn lens(c: &mut Ctx) -> Vec<usize> {
    let mut v = vec![0usize, 1, 2, 3, 127, 128, 255, 256, 257, 1000, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 70_000, 131_072];
    for _ in 0..c.n(20) {
        v.push(c.rng.below(600) as usize);
    }
    v
}

pub fn run(c: &mut Ctx) {
    ints!(c, u8, i8, u16, i16, u32, i32, u64, i64);
    for v in [true, false] {
        one(c, "bool", v, &[u8::from(v)], |x| x as u64);
    }
    for b in 0..=255u8 {
        let r = bool::decode(&mut &[b][..]);
        c.check(matches!(r, Ok(x) if x == (b != 0)), "codec/bool", || format!("byte {b} read as {r:?}"));
    }
    let mut f = vec![0u64, 1 << 31, 1 << 63, 0x7fc0_0000, 0x7f80_0001, 0x7ff0_0000_0000_0001, 0x3f80_0000, 0x3ff0_0000_0000_0000];
    for _ in 0..c.n(300) {
        f.push(c.rng.edgy());
    }
    for v in f {
        one(c, "f32", f32::from_bits(v as u32), &(v as u32).to_le_bytes(), |x| x.to_bits().into());
        one(c, "f64", f64::from_bits(v), &v.to_le_bytes(), |x| x.to_bits());
    }
    // fixed arrays
    for _ in 0..c.n(50) {
        let b = c.rng.next().to_le_bytes();
        let mut o = vec![];
        let r = b.encode(&mut o);
        c.check(r.is_ok() && o == b, "codec/array", || format!("array {b:02x?} written as {o:02x?}"));
        let mut s = &b[..];
        let r = <[u8; 5]>::decode(&mut s);
        c.check(matches!(r, Ok(x) if x == b[..5]) && s == &b[5..], "codec/array", || format!("array read back as {r:?} from {b:02x?}"));
        let r = <[u8; 9]>::decode(&mut &b[..]);
        c.check(r.is_err(), "codec/array", || format!("9 byte array read from 8 bytes: {r:?}"));
    }
    strings(c);
    vectors(c);
}

fn strings(c: &mut Ctx) {
    let mut texts: Vec<String> = vec![String::new(), "a".into(), "\u{7f}\u{80}\u{7ff}\u{800}\u{ffff}\u{10000}\u{10ffff}".into(), "x".repeat(255), "x".repeat(256), "é".repeat(128), "x".repeat(4097), "x".repeat(65535), "x".repeat(65536), "é".repeat(40_000), "x".repeat(200_000)];
    for _ in 0..c.n(200) {
        texts.push(c.rng.text(40));
    }
    for t in texts {
        let short: String = t.chars().take(40).collect();
        let inp = format!("text {short:?} ({} bytes)", t.len());
        // NUL terminated
        if !t.contains('\0') {
            let got = c.case("codec/cstr", &inp, || {
                let mut o = vec![];
                let s: &str = &t;
                s.encode(&mut o).map(|()| o)
            });
            let mut want = t.as_bytes().to_vec();
            want.push(0);
            c.check(matches!(&got, Some(Ok(o)) if *o == want), "codec/cstr", || format!("{inp} written wrongly"));
            want.extend([7, 0, 9]);
            let r = c.case("codec/cstr", &inp, || {
                let mut s = Trickle(&want, 3);
                let r = String::decode(&mut s);
                (r, s.0.to_vec())
            });
            if let Some((r, rest)) = r {
                c.check(matches!(&r, Ok(x) if *x == t) && rest == [7, 0, 9], "codec/cstr", || format!("{inp} read back as {r:?}, left {rest:?}"));
            }
            let r = c.case("codec/cstr", &inp, || String::decode(&mut t.as_bytes()));
            c.check(matches!(r, Some(Err(_))), "codec/cstr/trunc", || format!("{inp} without terminator was accepted"));
        }
        // length-prefixed
        macro_rules! pre {
            ($p:ident) => {
                if t.len() <= $p::MAX as usize {
                    let k = concat!("codec/str_", stringify!($p));
                    let mut want = (t.len() as $p).to_le_bytes().to_vec();
                    want.extend(t.as_bytes());
                    let got = c.case(k, &inp, || {
                        let mut o = Dribble(vec![], 3);
                        o.encode_str_prefixed::<$p>(&t).map(|()| o.0)
                    });
                    c.check(matches!(&got, Some(Ok(o)) if *o == want), k, || format!("{inp} written wrongly"));
                    if !want.is_empty() {
                        let cut = c.rng.below(want.len() as u64) as usize;
                        let r = c.case(k, &inp, || {
                            let mut o = Full(vec![], cut);
                            o.encode_str_prefixed::<$p>(&t)
                        });
                        c.check(matches!(r, Some(Err(_))), k, || format!("{inp}: a full sink ({cut} bytes) was not reported"));
                        let r = c.case(k, &inp, || (&want[..cut]).decode_str_prefixed::<$p>());
                        c.check(matches!(r, Some(Err(_))), k, || format!("{inp} truncated to {cut} bytes was accepted"));
                    }
                    want.extend([1, 2]);
                    let r = c.case(k, &inp, || {
                        let mut s = Trickle(&want, 5);
                        let r = s.decode_str_prefixed::<$p>();
                        (r, s.0.to_vec())
                    });
                    if let Some((r, rest)) = r {
                        c.check(matches!(&r, Ok(x) if *x == t) && rest == [1, 2], k, || format!("{inp} read back as {r:?}, left {rest:?}"));
                    }
                }
            };
        }
        pre!(u16);
        pre!(u32);
        if t.len() <= 255 {
            pre!(u8);
        }
        let mut o = vec![];
        let r = o.encode_str(&t);
        c.check(r.is_ok() && o == t.as_bytes(), "codec/str", || format!("{inp} written as {} bytes", o.len()));
        if let Some(r) = c.case("codec/str", &inp, || t.as_bytes().decode_str(t.len() as u32)) {
            c.check(matches!(&r, Ok(x) if *x == t), "codec/str", || format!("{inp} read back as {r:?}"));
        }
    }
    for bad in [&[0xffu8][..], &[0xc0, 0x80], &[0xed, 0xa0, 0x80], &[0xe2, 0x82], &[b'a', 0x80], &[0xf4, 0x90, 0x80, 0x80]] {
        let mut p = (bad.len() as u32).to_le_bytes().to_vec();
        p.extend(bad);
        let r = c.case("codec/utf8", &format!("{bad:02x?}"), || (&p[..]).decode_str_prefixed::<u32>());
        c.check(matches!(r, Some(Err(_))), "codec/utf8", || format!("invalid text {bad:02x?} accepted: {r:?}"));
        let mut z = bad.to_vec();
        z.push(0);
        let r = c.case("codec/utf8", &format!("{bad:02x?}"), || String::decode(&mut &z[..]));
        c.check(matches!(r, Some(Err(_))), "codec/utf8", || format!("invalid text {bad:02x?} accepted: {r:?}"));
    }
}

fn vectors(c: &mut Ctx) {
    for n in lens(c) {
        let v: Vec<u32> = (0..n).map(|_| c.rng.edgy() as u32).collect();
        let raw: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
        let inp = format!("{n} items");
        let got = c.case("codec/slice", &inp, || {
            let mut o = vec![];
            o.encode_slice(&v).map(|()| o)
        });
        c.check(matches!(&got, Some(Ok(o)) if *o == raw), "codec/slice", || format!("{inp}: slice written wrongly"));
        let got = c.case("codec/slice_prefixed", &inp, || {
            let mut o = Dribble(vec![], 5);
            o.encode_slice_prefixed::<u32, u32>(&v).map(|()| o.0)
        });
        let mut want = (n as u32).to_le_bytes().to_vec();
        want.extend(&raw);
        c.check(matches!(&got, Some(Ok(o)) if *o == want), "codec/slice_prefixed", || format!("{inp}: prefixed slice written wrongly: {got:?}"));
        let cut = c.rng.below(want.len() as u64) as usize;
        let r = c.case("codec/slice_prefixed", &inp, || Full(vec![], cut).encode_slice_prefixed::<u32, u32>(&v));
        c.check(matches!(r, Some(Err(_))), "codec/slice_prefixed", || format!("{inp}: a full sink ({cut} bytes) was not reported"));
        let r = c.case("codec/vec", &inp, || (&want[..cut]).decode_vec_prefixed::<u32, u32>());
        c.check(matches!(r, Some(Err(_))), "codec/vec", || format!("{inp} truncated to {cut} bytes accepted"));
        want.extend([9, 8, 7]);
        let r = c.case("codec/vec", &inp, || {
            let mut s = Trickle(&want, 7);
            let r = s.decode_vec_prefixed::<u32, u32>();
            (r, s.0.to_vec())
        });
        if let Some((r, rest)) = r {
            c.check(matches!(&r, Ok(x) if *x == v) && rest == [9, 8, 7], "codec/vec", || format!("{inp} read back wrongly: {r:?}"));
        }
        let r = c.case("codec/vec", &inp, || (&raw[..]).decode_vec::<u32, u32>(n as u32));
        c.check(matches!(&r, Some(Ok(x)) if *x == v), "codec/vec", || format!("{inp}: unprefixed vector read back wrongly"));
        let r = c.case("codec/bytes", &inp, || {
            let mut s = &want[..];
            let r = s.decode_bytes(n as u32);
            (r, s.len())
        });
        if let Some((r, left)) = r {
            c.check(matches!(&r, Ok(x) if **x == want[..n]) && left == want.len() - n, "codec/bytes", || format!("{inp}: raw bytes read wrongly"));
        }
        let r = c.case("codec/bytes", &inp, || (&want[..]).decode_bytes(want.len() as u32 + 1));
        c.check(matches!(r, Some(Err(_))), "codec/bytes", || format!("{inp}: short input for raw bytes accepted"));
    }
    // a count is only a claim: a stream that ends early is an error however many entries were announced
    for n in [u32::MAX, 0x8000_0000, 0x7fff_ffff, 0x10_0000, 0x1_0001] {
        let mut p = n.to_le_bytes().to_vec();
        p.extend([1; 200]);
        let inp = format!("{n} entries of 4096 bytes announced, 200 bytes follow");
        let r = c.case("codec/short", &inp, || (&p[4..]).decode_vec::<u32, [u8; 4096]>(n).is_err());
        c.check(r == Some(true), "codec/short", || format!("{inp}: accepted"));
        let r = c.case("codec/short", &inp, || (&p[..]).decode_vec_prefixed::<u32, [u8; 4096]>().is_err());
        c.check(r == Some(true), "codec/short", || format!("{inp}: accepted"));
    }
}
