//! C12: re-targeting of references
use std::collections::HashMap;
use std::io::Cursor;

use redscript::bundle::*;
use redscript::bytecode::Code;
use redscript::definition::*;
use redscript::encode::Encode;
use redscript::mapper::{MultiMapper, PoolMapper};

use crate::bundle::*;
use crate::gen::*;
use crate::util::*;

fn pairs(c: &mut Ctx, seen: &[u32]) -> HashMap<u32, u32> {
    let mut m = HashMap::new();
    for _ in 0..c.rng.below(8) {
        let k = if seen.is_empty() || c.rng.below(4) == 0 { c.rng.below(6) as u32 } else { *c.rng.pick(seen) };
        let v = if seen.is_empty() || c.rng.bool() { c.rng.edgy() as u32 } else { *c.rng.pick(seen) };
        m.insert(k, v);
    }
    m
}

/// indices a definition mentions, so that mappings hit
fn mentioned(m: &MBundle) -> Vec<u32> {
    let mut v = vec![];
    for d in &m.defs {
        v.push(d.parent);
        match &d.value {
            AnyDefinition::Class(k) => {
                v.push(k.base.into());
                v.extend(k.functions.iter().map(|i| u32::from(*i)));
            }
            AnyDefinition::Function(f) => {
                for i in f.code.as_ref() {
                    let (op, a) = parts(i);
                    v.extend(match op { 35 => Some(a[1] as u32), 36 => Some(a[2] as u32), 48 | 90 => Some(a[0] as u32), _ => None });
                }
                v.extend(f.base_method.iter().map(|i| u32::from(*i)));
            }
            _ => {}
        }
    }
    v
}

pub fn expect(d: &MDef, cm: &HashMap<u32, u32>, fm: &HashMap<u32, u32>) -> MDef {
    let get = |m: &HashMap<u32, u32>, i: u32| *m.get(&i).unwrap_or(&i);
    let mut d = d.clone();
    match &mut d.value {
        AnyDefinition::Class(k) => k.base = PoolIndex::new(get(cm, k.base.into())),
        AnyDefinition::Function(f) => {
            d.parent = get(cm, d.parent);
            let code = f.code.as_ref().iter().map(|i| {
                let (op, mut a) = parts(i);
                match op {
                    35 => a[1] = get(cm, a[1] as u32) as u64,
                    48 | 90 => a[0] = get(cm, a[0] as u32) as u64,
                    36 => a[2] = get(fm, a[2] as u32) as u64,
                    _ => return i.clone(),
                }
                make(op, &a)
            }).collect();
            f.code = Code::new(code);
        }
        AnyDefinition::Parameter(_) | AnyDefinition::Local(_) => d.parent = get(fm, d.parent),
        AnyDefinition::Field(_) => d.parent = get(cm, d.parent),
        _ => {}
    }
    d.bytes.clear();
    d.value.encode(&mut d.bytes).unwrap();
    d
}

pub fn run(c: &mut Ctx) {
    for _ in 0..c.n(600) {
        let mut m = model(c, false);
        for d in &mut m.defs {
            if c.rng.below(3) == 0 {
                d.parent = 0;
            }
            if let AnyDefinition::Function(f) = &mut d.value {
                if f.flags.has_body() {
                    // more of the instructions that refer to classes and functions, others between them
                    let mut code = f.code.as_ref().to_vec();
                    for _ in 0..c.rng.below(6) {
                        let at = c.rng.below(code.len() as u64 + 1) as usize;
                        let (x, y, z) = (c.rng.below(9), c.rng.below(9), c.rng.below(4));
                        code.insert(at, match c.rng.below(7) { 0 => make(35, &[z, x]), 1 => make(48, &[x]), 2 => make(90, &[x, z & 1]), 3 | 4 => make(36, &[x, y, y, z]), 5 => make(37, &[x, y, x, z]), _ => make(27, &[x]) });
                    }
                    f.code = Code::new(code);
                }
            }
            d.bytes.clear();
            d.value.encode(&mut d.bytes).unwrap();
        }
        let img = image(c, &m, false);
        let seen = mentioned(&m);
        let (cm, fm) = (pairs(c, &seen), pairs(c, &seen));
        let which = c.rng.below(4);
        let none = HashMap::new();
        let (ce, fe) = match which {
            0 => (&cm, &none),
            1 => (&none, &fm),
            2 => (&cm, &fm),
            _ => (&none, &none),
        };
        let what = format!("classes {ce:?}, functions {fe:?} on {}", m.defs.iter().map(|d| format!("[name {} parent {} {}]", d.name, d.parent, d.what)).collect::<Vec<_>>().join(" "));
        let Ok(b) = ScriptBundle::load(&mut Cursor::new(&img)) else {
            return c.fail("mapper/load", format!("a well-formed bundle is refused: {what}"));
        };
        let mut p = b.pool;
        let names = p.names.clone();
        let multi_c = || MultiMapper::new(cm.iter().map(|(k, v)| (PoolIndex::<Class>::new(*k), PoolIndex::new(*v))).collect());
        let multi_f = || MultiMapper::new(fm.iter().map(|(k, v)| (PoolIndex::<Function>::new(*k), PoolIndex::new(*v))).collect());
        if c.case("mapper/map", &what, || match which {
            0 => PoolMapper::default().with_class_mapper(multi_c()).map(&mut p),
            1 => PoolMapper::default().with_function_mapper(multi_f()).map(&mut p),
            2 => PoolMapper::default().with_function_mapper(multi_f()).with_class_mapper(multi_c()).map(&mut p),
            _ => PoolMapper::default().map(&mut p),
        }).is_none() { return }
        let mut want = vec![blank()];
        want.extend(m.defs.iter().map(|d| expect(d, ce, fe)));
        for (i, w) in want.iter().enumerate() {
            match p.definition(PoolIndex::<Definition>::new(i as u32)) {
                Ok(d) => c.check(same(d, w), "mapper/map", || format!("definition {i} becomes {d:?} (expected parent {} and {:?}) with {what}", w.parent, w.value)),
                Err(e) => c.fail("mapper/map", format!("definition {i} is gone ({e}): {what}")),
            }
        }
        c.check(p.definition(PoolIndex::<Definition>::new(want.len() as u32)).is_err(), "mapper/map", || format!("a definition appeared: {what}"));
        let same_names = (0..m.texts[0].len() as u32 + 1).all(|i| p.names.get(PoolIndex::new(i)).ok() == names.get(PoolIndex::new(i)).ok());
        c.check(same_names, "mapper/map", || format!("the names changed: {what}"));
    }
}
