//! C07, C08, C09, C10, C19: whole bundles, their tables, string and definition pools, counted streams
use std::collections::HashMap;
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};

use redscript::bundle::*;
use redscript::definition::*;
use redscript::encode::Encode;
use redscript::io::StreamOffset;
use redscript::Ref;

use crate::defs;
use crate::util::*;

pub fn crc32(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xedb8_8320 } else { c >> 1 };
        }
    }
    !c
}

/// a definition as the format sees it
#[derive(Clone)]
pub struct MDef {
    pub name: u32,
    pub parent: u32,
    pub unk: [u8; 3],
    pub kind: u8,
    pub bytes: Vec<u8>,
    pub value: AnyDefinition,
    pub what: String,
}

/// a bundle as the format sees it
#[derive(Clone, Default)]
pub struct MBundle {
    pub version: u32,
    pub flags: u32,
    pub stamp: [u8; 8],
    pub unk3: u32,
    pub hash: u32,
    pub chunks: u32,
    pub texts: [Vec<String>; 4], // names, tweakdb, resources, strings
    pub defs: Vec<MDef>,         // without slot 0
}

pub fn any(c: &mut Ctx) -> (AnyDefinition, u8, Vec<u8>, String) {
    macro_rules! k { ($f:ident, $v:ident, $n:expr) => {{ let r = defs::$f(c); (AnyDefinition::$v(r.value), $n, r.bytes, r.what) }} }
    match c.rng.below(9) {
        0 => k!(type_, Type, 0),
        1 => k!(class, Class, 1),
        2 => {
            let v = c.rng.edgy() as i64;
            (AnyDefinition::EnumValue(v), 2, v.to_le_bytes().to_vec(), format!("enum value {v}"))
        }
        3 => k!(enum_, Enum, 3),
        4 => k!(function, Function, 5),
        5 => k!(parameter, Parameter, 6),
        6 => k!(local, Local, 7),
        7 => k!(field, Field, 8),
        _ => k!(source_file, SourceFile, 9),
    }
}

pub fn mdef(c: &mut Ctx) -> MDef {
    let (value, kind, bytes, what) = any(c);
    MDef { name: c.rng.edgy() as u32, parent: c.rng.edgy() as u32, unk: [c.rng.next() as u8, c.rng.next() as u8, c.rng.next() as u8], kind, bytes, value, what }
}

pub fn model(c: &mut Ctx, big: bool) -> MBundle {
    let mut m = MBundle {
        version: if c.rng.bool() { 14 } else { c.rng.edgy() as u32 },
        flags: c.rng.edgy() as u32,
        stamp: c.rng.next().to_le_bytes(),
        unk3: c.rng.edgy() as u32,
        hash: c.rng.next() as u32,
        chunks: c.rng.edgy() as u32,
        ..Default::default()
    };
    let shared: Vec<String> = (0..6).map(|_| c.rng.text(7)).collect();
    for t in m.texts.iter_mut() {
        let n = match c.rng.below(4) {
            0 => 0,
            1 => 1,
            _ if big => c.rng.below(600),
            _ => c.rng.below(9),
        };
        for _ in 0..n {
            let s = match c.rng.below(4) {
                0 => c.rng.pick(&shared).clone(),
                1 => String::new(),
                _ => c.rng.text(12),
            };
            t.push(s);
        }
    }
    let n = match c.rng.below(4) {
        0 => 0,
        _ if big => c.rng.below(120),
        _ => c.rng.below(7),
    };
    m.defs = (0..n).map(|_| mdef(c)).collect();
    m
}

/// write a bundle image by hand.  `wild`: records and texts anywhere, gaps, a text used from inside another
pub fn image(c: &mut Ctx, m: &MBundle, wild: bool) -> Vec<u8> {
    let mut data = vec![];
    let mut offs: [Vec<u32>; 4] = Default::default();
    let mut seen: HashMap<String, u32> = HashMap::new();
    let mut order: Vec<(usize, usize)> = (0..4).flat_map(|t| (0..m.texts[t].len()).map(move |i| (t, i))).collect();
    for (o, t) in offs.iter_mut().zip(&m.texts) {
        *o = vec![0; t.len()];
    }
    if wild {
        for i in (1..order.len()).rev() {
            let j = c.rng.below(i as u64 + 1) as usize;
            order.swap(i, j);
        }
    }
    for (t, i) in order {
        let s = &m.texts[t][i];
        if let Some(o) = seen.get(s).filter(|_| !wild || c.rng.bool()) {
            offs[t][i] = *o;
            continue;
        }
        if wild && c.rng.below(4) == 0 {
            data.extend([b'x', 0]);
        }
        let o = data.len() as u32;
        offs[t][i] = o;
        seen.insert(s.clone(), o);
        data.extend(s.as_bytes());
        data.push(0);
    }
    let tab = |v: &Vec<u32>| v.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>();
    let (names, tweak, res, strs) = (tab(&offs[0]), tab(&offs[1]), tab(&offs[2]), tab(&offs[3]));
    let p0 = 104usize;
    let p1 = p0 + data.len();
    let p2 = p1 + names.len();
    let p3 = p2 + tweak.len();
    let p4 = p3 + res.len();
    let p5 = p4 + 20 * (m.defs.len() + 1);
    let p6 = p5 + strs.len();
    let mut hs = vec![0u8; 20];
    let mut recs: Vec<u8> = vec![];
    let mut dorder: Vec<usize> = (0..m.defs.len()).collect();
    if wild {
        dorder.reverse();
        hs = (0..20).map(|i| if i == 16 { 0 } else { c.rng.next() as u8 }).collect();
    }
    let mut at = vec![0u32; m.defs.len()];
    for i in dorder {
        if wild && c.rng.below(3) == 0 {
            recs.extend([0xcc; 3]);
        }
        at[i] = (p6 + recs.len()) as u32;
        recs.extend(&m.defs[i].bytes);
    }
    for (d, o) in m.defs.iter().zip(at) {
        hs.extend(d.name.to_le_bytes());
        hs.extend(d.parent.to_le_bytes());
        hs.extend(o.to_le_bytes());
        hs.extend((d.bytes.len() as u32).to_le_bytes());
        hs.push(d.kind);
        hs.extend(d.unk);
    }
    let mut out = vec![];
    out.extend(0x5344_4552u32.to_le_bytes());
    out.extend(m.version.to_le_bytes());
    out.extend(m.flags.to_le_bytes());
    out.extend(m.stamp);
    for v in [m.unk3, m.hash, m.chunks] {
        out.extend(v.to_le_bytes());
    }
    for (p, n, b) in [(p0, data.len(), &data), (p1, offs[0].len(), &names), (p2, offs[1].len(), &tweak), (p3, offs[2].len(), &res), (p4, m.defs.len() + 1, &hs), (p5, offs[3].len(), &strs)] {
        out.extend((p as u32).to_le_bytes());
        out.extend((n as u32).to_le_bytes());
        out.extend(crc32(b).to_le_bytes());
    }
    for b in [&data, &names, &tweak, &res, &hs, &strs, &recs] {
        out.extend(b);
    }
    out
}

fn desc(m: &MBundle) -> String {
    if m.defs.len() > 1000 {
        return format!("{:?} texts and {} definitions", m.texts.iter().map(|t| t.len()).collect::<Vec<_>>(), m.defs.len());
    }
    format!("names {:?} tweakdb {:?} resources {:?} strings {:?} definitions {:?}", m.texts[0], m.texts[1], m.texts[2], m.texts[3],
        m.defs.iter().map(|d| format!("{{name {} parent {} unk {:?} {}}}", d.name, d.parent, d.unk, d.what)).collect::<Vec<_>>())
}

fn texts<K: DefaultString>(s: &Strings<K>, want: &[String]) -> Option<String> {
    for (i, w) in want.iter().enumerate() {
        let x = PoolIndex::<K>::new(i as u32);
        let e: &str = match K::DEFAULT {
            Some(d) if i == 0 => d,
            _ => w,
        };
        let g = s.get(x);
        if !matches!(&g, Ok(v) if &**v == e) {
            return Some(format!("entry {i} is {g:?}, expected {e:?}"));
        }
        let g = s.get_ref(x);
        if !matches!(&g, Ok(v) if *v == e) {
            return Some(format!("entry {i} (by reference) is {g:?}, expected {e:?}"));
        }
        match s.get_index(w) {
            Some(j) if want.get(u32::from(j) as usize) == Some(w) => (),
            o => return Some(format!("looking up {w:?} gives {o:?}")),
        }
    }
    for i in [want.len() as u32, u32::MAX] {
        if !(i == 0 && K::DEFAULT.is_some()) && s.get(PoolIndex::new(i)).is_ok() {
            return Some(format!("entry {i} of {} exists", want.len()));
        }
    }
    None
}

/// does the loaded bundle hold what the model holds
fn holds(b: &ScriptBundle, m: &MBundle) -> Option<String> {
    let p = &b.pool;
    let t = texts(&p.names, &m.texts[0]).map(|e| format!("names: {e}"))
        .or(texts(&p.tweakdb_ids, &m.texts[1]).map(|e| format!("tweakdb ids: {e}")))
        .or(texts(&p.resources, &m.texts[2]).map(|e| format!("resources: {e}")))
        .or(texts(&p.strings, &m.texts[3]).map(|e| format!("strings: {e}")));
    if t.is_some() {
        return t;
    }
    let ds: Vec<_> = p.definitions().collect();
    if ds.len() != m.defs.len() {
        return Some(format!("{} definitions, expected {}", ds.len(), m.defs.len()));
    }
    for (i, ((ix, d), w)) in ds.iter().zip(&m.defs).enumerate() {
        if u32::from(*ix) != i as u32 + 1 {
            return Some(format!("definition {} listed as {ix}", i + 1));
        }
        let got = (u32::from(d.name), u32::from(d.parent), [d.unk1, d.unk2, d.unk3]);
        if got != (w.name, w.parent, w.unk) {
            return Some(format!("definition {}: name, parent, unk are {got:?}, expected {:?}", i + 1, (w.name, w.parent, w.unk)));
        }
        let mut o = vec![];
        if d.value.encode(&mut o).is_err() || o != w.bytes {
            return Some(format!("definition {}: holds {o:02x?}, expected {:02x?}", i + 1, w.bytes));
        }
        if d.value.type_() as u8 != w.kind {
            return Some(format!("definition {}: is {:?}, expected kind {}", i + 1, d.value.type_(), w.kind));
        }
    }
    None
}

fn u32at(b: &[u8], p: usize) -> Option<u32> {
    b.get(p..p + 4).map(|x| u32::from_le_bytes([x[0], x[1], x[2], x[3]]))
}

fn cstr(b: &[u8], p: usize) -> Option<&[u8]> {
    let t = b.get(p..)?;
    Some(&t[..t.iter().position(|x| *x == 0)?])
}

/// read a saved image by hand
fn parse(b: &[u8], m: &MBundle) -> Result<(), String> {
    let no = |w: &str| format!("the image ends inside {w}");
    let w = |i: usize| u32at(b, 4 * i).ok_or_else(|| no("the header"));
    if w(0)? != 0x5344_4552 {
        return Err("bad magic".into());
    }
    if (w(1)?, w(2)?, w(5)?, w(7)?) != (m.version, m.flags, m.unk3, m.chunks) || b[12..20] != m.stamp {
        return Err("version, flags, timestamp or chunks changed".into());
    }
    let mut h = b[..104].to_vec();
    h[24..28].copy_from_slice(&0xdead_beefu32.to_le_bytes());
    if w(6)? != crc32(&h) {
        return Err(format!("header checksum is {:#x}, expected {:#x}", w(6)?, crc32(&h)));
    }
    let mut tabs = vec![];
    let mut next = 104usize;
    for (i, n) in ["data", "names", "tweakdb ids", "resources", "definitions", "strings"].iter().enumerate() {
        let (o, c, s) = (w(8 + 3 * i)? as usize, w(9 + 3 * i)? as usize, w(10 + 3 * i)?);
        let size = match i { 0 => 1, 4 => 20, _ => 4 } * c;
        if o != next {
            return Err(format!("{n} table announced at {o}, expected {next}"));
        }
        next = o + size;
        let bytes = b.get(o..o + size).ok_or_else(|| no(n))?;
        if s != crc32(bytes) {
            return Err(format!("{n} table checksum is {s:#x}, expected {:#x}", crc32(bytes)));
        }
        tabs.push(bytes);
    }
    for (i, t) in [(1, 0), (2, 1), (3, 2), (5, 3)] {
        if tabs[i].len() != 4 * m.texts[t].len() {
            return Err(format!("text table {t} has {} entries, expected {}", tabs[i].len() / 4, m.texts[t].len()));
        }
        for (k, want) in m.texts[t].iter().enumerate() {
            let o = u32at(tabs[i], 4 * k).unwrap() as usize;
            let g = cstr(tabs[0], o);
            if g != Some(want.as_bytes()) {
                return Err(format!("text table {t} entry {k} (at {o}) is {g:?}, expected {want:?}"));
            }
        }
    }
    if tabs[4].len() != 20 * (m.defs.len() + 1) {
        return Err(format!("{} definition headers, expected {}", tabs[4].len() / 20, m.defs.len() + 1));
    }
    let mut at = next;
    for (k, d) in m.defs.iter().enumerate() {
        let h = &tabs[4][20 * (k + 1)..20 * (k + 2)];
        let v = |i: usize| u32at(h, 4 * i).unwrap();
        if (v(0), v(1), h[16]) != (d.name, d.parent, d.kind) || h[17..20] != d.unk {
            return Err(format!("header of definition {} is {h:02x?}", k + 1));
        }
        if v(2) as usize != at || v(3) as usize != d.bytes.len() {
            return Err(format!("definition {} announced at {} with {} bytes, expected {at} and {}", k + 1, v(2), v(3), d.bytes.len()));
        }
        let g = b.get(at..at + d.bytes.len()).ok_or_else(|| no("a record"))?;
        if g != &d.bytes[..] {
            return Err(format!("record of definition {} is {g:02x?}, expected {:02x?}", k + 1, d.bytes));
        }
        at += d.bytes.len();
    }
    Ok(())
}

/// a stream that accepts and yields a few bytes at a time
struct Slow(Cursor<Vec<u8>>, usize);
impl Read for Slow {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = b.len().min(self.1);
        self.0.read(&mut b[..n])
    }
}
impl Write for Slow {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(self.1);
        self.0.write(&b[..n])
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for Slow {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.0.seek(p)
    }
}

/// a disk with room for n bytes
struct Small(Cursor<Vec<u8>>, u64);
impl Write for Small {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.0.position() + b.len() as u64 > self.1 {
            return Err(io::Error::new(io::ErrorKind::Other, "full"));
        }
        self.0.write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for Small {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.0.seek(p)
    }
}

fn one(c: &mut Ctx, m: &MBundle, k: &str, tables: bool) {
    let wild = c.rng.bool();
    let img = image(c, m, wild);
    let what = desc(m);
    let key = format!("{k}/load");
    let slow = 1 + c.rng.below(9) as usize;
    let Some(l) = c.case(&key, &what, || ScriptBundle::load(&mut Slow(Cursor::new(img.clone()), slow))) else { return };
    let b = match l {
        Err(e) => return c.fail(&key, format!("a well-formed bundle is refused ({e}): {what}; image {img:02x?}")),
        Ok(b) => b,
    };
    let bad = holds(&b, m);
    c.check(bad.is_none(), &key, || format!("{} in {what}; image {img:02x?}", bad.unwrap()));
    // into: an empty sink, a reused one, a slow one
    let mut images = vec![];
    for mode in 0..3 {
        let key = format!("{k}/save");
        let junk = if mode == 1 { vec![0xa5u8; c.rng.below(3 * img.len() as u64) as usize] } else { vec![] };
        let old = junk.len();
        let r = c.case(&key, &what, || {
            let mut o = Slow(Cursor::new(junk), if mode == 2 { slow } else { 1 << 20 });
            if mode == 1 {
                o.0.set_position(7);
            }
            b.save(&mut o).map(|()| o.0.into_inner())
        });
        match r {
            None => return,
            Some(Err(e)) => return c.fail(&key, format!("saving fails ({e}): {what}")),
            Some(Ok(v)) => {
                let p = parse(&v, m);
                if tables {
                    c.check(p.is_ok(), &format!("{k}/tables"), || format!("{} in {what}; image {v:02x?}", p.unwrap_err()));
                }
                if mode != 1 {
                    images.push(v.clone());
                } else {
                    c.check(v.len() >= old, &key, || "saving shortened the sink".into());
                }
                let key = format!("{k}/reload");
                match c.case(&key, &what, || ScriptBundle::load(&mut Cursor::new(&v))) {
                    None => return,
                    Some(Err(e)) => return c.fail(&key, format!("what was saved is refused ({e}): {what}; image {v:02x?}")),
                    Some(Ok(b2)) => {
                        let bad = holds(&b2, m);
                        c.check(bad.is_none(), &key, || format!("{} after saving and loading {what}", bad.unwrap()));
                    }
                }
            }
        }
    }
    c.check(images[0] == images[1], &format!("{k}/save"), || format!("two saves of the same bundle differ: {what}"));
    let v = &images[0];
    // a full disk is an error
    let cut = c.rng.below(v.len() as u64);
    if let Some(e) = c.case(&format!("{k}/full"), &what, || b.save(&mut Small(Cursor::new(vec![]), cut))) {
        c.check(e.is_err(), &format!("{k}/full"), || format!("running out of space after {cut} of {} bytes was not reported: {what}", v.len()));
    }
    // so is an image that ends early
    for n in [c.rng.below(v.len() as u64) as usize, v.len() - 1] {
        if n == v.len() - 1 && m.defs.is_empty() && m.texts[3].is_empty() && n > 104 {
            // the last bytes are then the unread first definition header's
        }
        if let Some(e) = c.case(&format!("{k}/truncated"), &what, || ScriptBundle::load(&mut Cursor::new(&v[..n])).map(|_| ())) {
            c.check(e.is_err(), &format!("{k}/truncated"), || format!("an image cut to {n} of {} bytes was accepted: {what}", v.len()));
        }
    }
    let mut w = v.clone();
    let i = c.rng.below(4) as usize;
    w[i] ^= 1 << c.rng.below(8);
    let e = ScriptBundle::load(&mut Cursor::new(&w)).map(|_| ());
    c.check(e.is_err(), &format!("{k}/magic"), || format!("an image starting with {:02x?} was accepted", &w[..4]));
}

fn go(c: &mut Ctx, k: &str, tables: bool) {
    for i in 0..c.n(600) {
        let m = model(c, i % 10 == 9);
        one(c, &m, k, tables);
    }
    // offsets beyond 64 KiB
    for _ in 0..2 {
        let mut m = model(c, true);
        for t in 0..4 {
            for i in 0..3 {
                m.texts[t].push(format!("{t}{i}").repeat(12_000 + i));
            }
        }
        m.defs.extend((0..40).map(|_| mdef(c)).collect::<Vec<_>>());
        one(c, &m, k, tables);
    }
    // records beyond 64 KiB, more than 65536 entries
    let mut m = model(c, false);
    for n in [70_000u32, 16_500, 3] {
        let members: Vec<_> = (0..n).map(PoolIndex::new).collect();
        let mut d = mdef(c);
        d.kind = 3;
        d.bytes = vec![1, 8];
        d.bytes.extend(n.to_le_bytes());
        (0..n).for_each(|i| d.bytes.extend(i.to_le_bytes()));
        d.bytes.push(0);
        d.value = AnyDefinition::Enum(Enum { flags: 1, size: 8, members, unk1: false });
        d.what = format!("enum of {n} members");
        m.defs.push(d);
    }
    one(c, &m, k, tables);
    let mut m = model(c, false);
    let t = c.rng.below(4) as usize;
    m.texts[t] = (0..66_000).map(|i| format!("{i:x}")).collect();
    let ds: Vec<MDef> = (0..50).map(|_| mdef(c)).collect();
    m.defs = (0..66_000).map(|i| ds[i % 50].clone()).collect();
    one(c, &m, k, tables);
    // the bundle shipped in the repository
    if let Ok(bytes) = std::fs::read("/repo/resources/predef.redscripts") {
        if let Some(r) = c.case(&format!("{k}/predef"), "resources/predef.redscripts", || {
            let a = ScriptBundle::load(&mut Cursor::new(&bytes))?;
            let mut o = Cursor::new(vec![]);
            a.save(&mut o)?;
            let b = ScriptBundle::load(&mut Cursor::new(o.get_ref()))?;
            let mut p = Cursor::new(vec![]);
            b.save(&mut p)?;
            let e: Vec<String> = a.pool.definitions().map(|d| format!("{d:?}")).collect();
            let f: Vec<String> = b.pool.definitions().map(|d| format!("{d:?}")).collect();
            io::Result::Ok((e == f, o.into_inner() == p.into_inner()))
        }) {
            c.check(matches!(r, Ok((true, true))), &format!("{k}/predef"), || format!("the shipped bundle does not survive saving and loading: {r:?}"));
        }
    }
}

pub fn run(c: &mut Ctx) {
    go(c, "bundle", false)
}

pub fn tables(c: &mut Ctx) {
    go(c, "tables", true)
}

// ---------------------------------------------------------------- string pool
fn pool_of<K: DefaultString>(c: &mut Ctx, which: usize, pick: impl Fn(ScriptBundle) -> Strings<K>, k: &str) {
    for _ in 0..c.n(500) {
        // what a loaded table holds: slot 0 is the reserved one for names
        let mut m = MBundle { version: 14, ..Default::default() };
        let base: Vec<String> = (0..c.rng.below(5)).map(|_| if c.rng.below(6) == 0 { "None".into() } else { c.rng.text(4) }).collect();
        if which == 0 {
            m.texts[0].push(if c.rng.bool() { "".into() } else { "None".into() });
        }
        for s in base {
            // a table as a compiler leaves it: every text once
            if !m.texts[which].contains(&s) && !(which == 0 && s == "None") {
                m.texts[which].push(s);
            }
        }
        let img = image(c, &m, false);
        let Ok(b) = ScriptBundle::load(&mut Cursor::new(&img)) else {
            return c.fail(k, format!("a well-formed bundle is refused: {}", desc(&m)));
        };
        let mut s = pick(b);
        let mut want: Vec<String> = m.texts[which].clone();
        let mut hist = format!("loaded {want:?}");
        for _ in 0..c.rng.below(14) {
            let t = match c.rng.below(6) {
                0 => c.rng.pick(&["None", "None", "none", "NONE", "Non", "None ", " None", "Nonee", "Any", "null"]).to_string(),
                1 if !want.is_empty() => c.rng.pick(&want).clone(),
                2 => String::new(),
                _ => c.rng.text(3),
            };
            hist.push_str(&format!(", add {t:?}"));
            let Some(i) = c.case(k, &hist, || s.add(Ref::from(t.as_str()))) else { return };
            let e = match (K::DEFAULT, want.iter().position(|x| *x == t)) {
                (Some(d), _) if d == t => 0,
                (_, Some(p)) => p,
                _ => {
                    want.push(t.clone());
                    want.len() - 1
                }
            };
            c.check(u32::from(i) as usize == e, k, || format!("{hist}: got index {i}, expected {e}"));
            let g = s.get(i);
            let lone = which == 0 && e == 0;
            c.check(matches!(&g, Ok(v) if **v == *t) || lone && t.is_empty(), k, || format!("{hist}: index {i} reads as {g:?}"));
            let bad = texts(&s, &want);
            c.check(bad.is_none(), k, || format!("{hist}: {}", bad.unwrap()));
            let n = c.rng.text(5);
            if !want.contains(&n) {
                let g = s.get_index(&n);
                c.check(g.is_none(), k, || format!("{hist}: {n:?} was never added but is found at {g:?}"));
            }
        }
    }
}

pub fn strings(c: &mut Ctx) {
    pool_of(c, 0, |b| b.pool.names, "strings/names");
    pool_of(c, 1, |b| b.pool.tweakdb_ids, "strings/tweakdb");
    pool_of(c, 2, |b| b.pool.resources, "strings/resources");
    pool_of(c, 3, |b| b.pool.strings, "strings/strings");
}

// ---------------------------------------------------------------- definition pool
pub fn same(d: &Definition, w: &MDef) -> bool {
    let mut o = vec![];
    (u32::from(d.name), u32::from(d.parent), [d.unk1, d.unk2, d.unk3], d.value.type_() as u8) == (w.name, w.parent, w.unk, w.kind) && d.value.encode(&mut o).is_ok() && o == w.bytes
}

pub fn blank() -> MDef {
    MDef { name: 0, parent: 0, unk: [0; 3], kind: 0, bytes: vec![0], value: AnyDefinition::Type(Type::Prim), what: "blank".into() }
}

fn build(d: &MDef) -> Definition {
    Definition { name: PoolIndex::new(d.name), parent: PoolIndex::new(d.parent), unk1: d.unk[0], unk2: d.unk[1], unk3: d.unk[2], value: d.value.clone() }
}

fn bytes_of<T: Encode, E>(r: Result<T, E>) -> Option<Vec<u8>> {
    r.ok().map(|v| {
        let mut o = vec![];
        v.encode(&mut o).unwrap();
        o
    })
}

struct E<'a, T>(&'a T);
impl<T: Encode> Encode for E<'_, T> {
    fn encode<O: io::Write>(&self, o: &mut O) -> io::Result<()> {
        self.0.encode(o)
    }
}

fn agree(p: &mut ConstantPool, names: &[String], want: &[MDef]) -> Option<String> {
    let listed: Vec<_> = p.definitions().collect();
    if listed.len() + 1 != want.len() || !listed.iter().enumerate().all(|(i, (x, d))| u32::from(*x) as usize == i + 1 && same(d, &want[i + 1])) {
        return Some("listing the definitions gives something else".into());
    }
    let back: Vec<u32> = p.definitions().rev().map(|(i, _)| i.into()).collect();
    if back != (1..want.len() as u32).rev().collect::<Vec<_>>() {
        return Some(format!("listing the definitions backwards gives {back:?}"));
    }
    let roots: Vec<u32> = p.roots().map(|(i, _)| i.into()).collect();
    let wr: Vec<u32> = (1..want.len()).filter(|i| want[*i].parent == 0).map(|i| i as u32).collect();
    if roots != wr {
        return Some(format!("roots are {roots:?}, expected {wr:?}"));
    }
    for i in (0..want.len() as u32 + 2).chain([u32::MAX, u32::MAX - 1]) {
        let w = want.get(i as usize);
        let d = p.definition(PoolIndex::<Definition>::new(i));
        match (&d, w) {
            (Ok(d), Some(w)) if same(d, w) => (),
            (Err(PoolError::DefinitionNotFound(x)), None) if u32::from(*x) == i => (),
            _ => return Some(format!("definition {i} is {d:?}")),
        }
        macro_rules! kind {
            ($f:ident, $n:expr) => {{
                let g = bytes_of(p.$f(PoolIndex::new(i)).map(|x| E(x)));
                let e = w.filter(|w| w.kind == $n).map(|w| w.bytes.clone());
                if g != e {
                    return Some(format!("{}({i}) is {g:02x?}, expected {e:02x?}", stringify!($f)));
                }
            }};
        }
        kind!(function, 5);
        kind!(field, 8);
        kind!(parameter, 6);
        kind!(local, 7);
        kind!(type_, 0);
        kind!(class, 1);
        kind!(enum_, 3);
        kind!(function_mut, 5);
        kind!(field_mut, 8);
        kind!(class_mut, 1);
        let g = p.enum_value(PoolIndex::new(i)).ok().map(|v| v.to_le_bytes().to_vec());
        if g != w.filter(|w| w.kind == 2).map(|w| w.bytes.clone()) {
            return Some(format!("enum_value({i}) is {g:?}"));
        }
        let g = p.def_name(PoolIndex::<Definition>::new(i)).ok().map(|s| s.to_string());
        let e = w.and_then(|w| if w.name == 0 { Some("None".to_string()) } else { names.get(w.name as usize).cloned() });
        if g != e {
            return Some(format!("def_name({i}) is {g:?}, expected {e:?}"));
        }
        if let Some(w) = w {
            let d = p.definition(PoolIndex::<Definition>::new(i)).unwrap();
            let src = match &w.value {
                AnyDefinition::Function(f) => f.source.as_ref().map(|s| (u32::from(s.file), s.line)),
                _ => None,
            };
            if d.source().map(|s| (u32::from(s.file), s.line)) != src {
                return Some(format!("source of definition {i} is {:?}", d.source()));
            }
            let line = match &w.value {
                AnyDefinition::Function(f) => f.source.as_ref().map(|s| s.line),
                AnyDefinition::Class(k) => k.functions.iter().filter_map(|x| match want.get(u32::from(*x) as usize).map(|d| &d.value) {
                    Some(AnyDefinition::Function(f)) => f.source.as_ref().map(|s| s.line),
                    _ => None,
                }).min(),
                _ => None,
            };
            let g = d.first_line(p);
            if g != line {
                return Some(format!("first line of definition {i} is {g:?}, expected {line:?}"));
            }
        }
    }
    None
}

pub fn pool(c: &mut Ctx) {
    for _ in 0..c.n(400) {
        let mut m = model(c, false);
        let n = m.texts[0].len() as u64 + 2;
        let nd = m.defs.len() as u64 + 4;
        let tame = |c: &mut Ctx, d: &mut MDef| {
            d.name = c.rng.below(n) as u32;
            if c.rng.bool() {
                d.parent = 0;
            }
            if let AnyDefinition::Class(k) = &mut d.value {
                // methods that exist, so that the first line is decided by them
                k.functions = (0..c.rng.below(5)).map(|_| PoolIndex::new(c.rng.below(nd) as u32)).collect();
                d.bytes.clear();
                d.value.encode(&mut d.bytes).unwrap();
            }
        };
        m.defs.iter_mut().for_each(|d| tame(c, d));
        let img = image(c, &m, false);
        let Ok(b) = ScriptBundle::load(&mut Cursor::new(&img)) else {
            return c.fail("pool/load", format!("a well-formed bundle is refused: {}", desc(&m)));
        };
        let mut p = b.pool;
        let mut want = vec![blank()];
        want.extend(m.defs.clone());
        let mut hist = desc(&m);
        let Some(bad) = c.case("pool/loaded", &hist, || agree(&mut p, &m.texts[0], &want)) else { return };
        c.check(bad.is_none(), "pool/loaded", || format!("{} in {hist}", bad.unwrap()));
        for _ in 0..c.rng.below(10) {
            let i = c.rng.below(want.len() as u64) as u32;
            let j = c.rng.below(want.len() as u64) as u32;
            let mut d = mdef(c);
            tame(c, &mut d);
            let op = c.rng.below(8);
            let step = format!("; step {op} on {i}, {j} with {{name {} parent {} {}}}", d.name, d.parent, d.what);
            hist.push_str(&step);
            let end = want.len() as u32;
            let ok = c.case("pool/edit", &hist, || match op {
                0 => u32::from(p.add_definition::<Definition>(build(&d))) == end,
                1 => {
                    p.put_definition(PoolIndex::<Definition>::new(i), build(&d));
                    true
                }
                2 => {
                    p.swap_definition(PoolIndex::<Definition>::new(i), PoolIndex::new(j));
                    true
                }
                3 => u32::from(p.reserve::<Definition>()) == end,
                4 => u32::from(p.stub_definition::<Definition>(PoolIndex::new(d.name))) == end,
                5 => {
                    p.rename(PoolIndex::<Definition>::new(i), PoolIndex::new(d.name));
                    true
                }
                6 => match p.function_mut(PoolIndex::new(i)) {
                    Ok(f) => {
                        f.cast ^= 0x55;
                        f.flags.set_is_cast(true);
                        true
                    }
                    Err(_) => true,
                },
                _ => match p.class_mut(PoolIndex::new(i)) {
                    Ok(f) => {
                        f.base = PoolIndex::new(d.name);
                        true
                    }
                    Err(_) => true,
                },
            });
            let (i, j) = (i as usize, j as usize);
            match op {
                0 => want.push(d),
                1 => want[i] = d,
                2 => want.swap(i, j),
                3 => want.push(blank()),
                4 => want.push(MDef { name: d.name, ..blank() }),
                5 => want[i].name = d.name,
                6 => {
                    if let AnyDefinition::Function(f) = &mut want[i].value {
                        f.cast ^= 0x55;
                        f.flags.set_is_cast(true);
                    }
                }
                _ => {
                    if let AnyDefinition::Class(f) = &mut want[i].value {
                        f.base = PoolIndex::new(d.name);
                    }
                }
            }
            if op >= 6 {
                let mut o = vec![];
                want[i].value.encode(&mut o).unwrap();
                want[i].bytes = o;
            }
            let Some(ok) = ok else { return };
            c.check(ok, "pool/edit", || format!("the new definition is not at {end}: {hist}"));
            let Some(bad) = c.case("pool/edit", &hist, || agree(&mut p, &m.texts[0], &want)) else { return };
            c.check(bad.is_none(), "pool/edit", || format!("{} after {hist}", bad.unwrap()));
        }
    }
    // the constructors
    for _ in 0..c.n(50) {
        let (n, q) = (c.rng.edgy() as u32, c.rng.edgy() as u32);
        let name = PoolIndex::new(n);
        let v = c.rng.edgy() as i64;
        let (cl, fu, fi, en, ty, lo, pa, sf) = (defs::class(c), defs::function(c), defs::field(c), defs::enum_(c), defs::type_(c), defs::local(c), defs::parameter(c), defs::source_file(c));
        let all = [
            ("class", 1, 0, n, cl.bytes.clone(), Definition::class(name, cl.value)),
            ("function", 5, q, n, fu.bytes.clone(), Definition::function(name, PoolIndex::new(q), fu.value)),
            ("field", 8, q, n, fi.bytes.clone(), Definition::field(name, PoolIndex::new(q), fi.value)),
            ("enum", 3, 0, n, en.bytes.clone(), Definition::enum_(name, en.value)),
            ("enum value", 2, q, n, v.to_le_bytes().to_vec(), Definition::enum_value(name, PoolIndex::new(q), v)),
            ("type", 0, 0, n, ty.bytes.clone(), Definition::type_(name, ty.value)),
            ("local", 7, q, n, lo.bytes.clone(), Definition::local(name, PoolIndex::new(q), lo.value)),
            ("parameter", 6, q, n, pa.bytes.clone(), Definition::param(name, PoolIndex::new(q), pa.value)),
            ("source file", 9, 0, 0, sf.bytes.clone(), Definition::source_file(sf.value)),
        ];
        for (w, kind, parent, name, bytes, d) in all {
            let m = MDef { name, parent, unk: [0; 3], kind, bytes, value: AnyDefinition::EnumValue(0), what: String::new() };
            c.check(same(&d, &m), "pool/constructor", || format!("{w} definition named {name} under {parent} is {d:?}"));
        }
    }
}

// ---------------------------------------------------------------- counted streams
pub fn stream(c: &mut Ctx) {
    for _ in 0..c.n(400) {
        let step = 1 + c.rng.below(6) as usize;
        let start = c.rng.below(40);
        let base: Vec<u8> = (0..c.rng.below(60)).map(|_| c.rng.next() as u8).collect();
        let mut chunks = vec![];
        for _ in 0..c.rng.below(8) {
            let n = c.rng.below(12);
            chunks.push((0..n).map(|_| c.rng.next() as u8).collect::<Vec<u8>>());
        }
        let what = format!("{step} bytes at a time from {start} over {} bytes, chunks {chunks:02x?}", base.len());
        // writing
        let r = c.case("stream/write", &what, || {
            let mut inner = Slow(Cursor::new(base.clone()), step);
            inner.0.set_position(start);
            let mut s = StreamOffset::new_seekable(inner)?;
            let mut bad = vec![];
            if s.offset() as u64 != start {
                bad.push(format!("starts at {}", s.offset()));
            }
            let mut pos = start as usize;
            for (i, ch) in chunks.iter().enumerate() {
                if i % 3 == 2 {
                    let n = s.write(ch)?;
                    pos += n;
                    if n != ch.len().min(step) {
                        bad.push(format!("a write of {} bytes reported {n}", ch.len()));
                    }
                } else {
                    s.write_all(ch)?;
                    pos += ch.len();
                }
                s.flush()?;
                if s.offset() != pos {
                    bad.push(format!("after chunk {i}: offset {} instead of {pos}", s.offset()));
                }
            }
            let inner = s.into_inner();
            if inner.0.position() != pos as u64 {
                bad.push(format!("the stream is at {} instead of {pos}", inner.0.position()));
            }
            let mut raw = Slow(Cursor::new(base.clone()), step);
            raw.0.set_position(start);
            for (i, ch) in chunks.iter().enumerate() {
                if i % 3 == 2 { raw.write(ch)?; } else { raw.write_all(ch)?; }
            }
            if raw.0.get_ref() != inner.0.get_ref() {
                bad.push(format!("wrote {:02x?}, expected {:02x?}", inner.0.get_ref(), raw.0.get_ref()));
            }
            io::Result::Ok(bad)
        });
        if let Some(r) = r {
            c.check(matches!(&r, Ok(b) if b.is_empty()), "stream/write", || format!("{r:?} for {what}"));
        }
        // reading
        let r = c.case("stream/read", &what, || {
            let mut s = StreamOffset::new_zeroed(Slow(Cursor::new(base.clone()), step));
            let mut bad = vec![];
            let mut pos = 0usize;
            for (i, ch) in chunks.iter().enumerate() {
                let mut b = vec![0; ch.len()];
                let n = s.read(&mut b)?;
                if n != ch.len().min(step).min(base.len() - pos) || b[..n] != base[pos..pos + n] {
                    bad.push(format!("read {i} gave {n} bytes {b:02x?}"));
                }
                pos += n;
                if s.offset() != pos {
                    bad.push(format!("after read {i}: offset {} instead of {pos}", s.offset()));
                }
            }
            io::Result::Ok(bad)
        });
        if let Some(r) = r {
            c.check(matches!(&r, Ok(b) if b.is_empty()), "stream/read", || format!("{r:?} for {what}"));
        }
        // a sink that fails: nothing is counted that was not written
        let room = c.rng.below(20) as usize;
        let r = c.case("stream/full", &what, || {
            let mut s = StreamOffset::new_zeroed(Full(vec![], room));
            for ch in &chunks {
                if s.write_all(ch).is_err() {
                    break;
                }
            }
            let o = s.offset();
            (o, s.into_inner().0.len())
        });
        if let Some((o, n)) = r {
            c.check(o == n, "stream/full", || format!("{o} counted, {n} written: {what}"));
        }
    }
}
