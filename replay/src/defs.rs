//! C06: definition records
use std::fmt::Debug;
use std::path::PathBuf;

use redscript::bundle::PoolIndex;
use redscript::bytecode::{Code, Instr, Offset};
use redscript::decode::Decode;
use redscript::definition::*;
use redscript::encode::Encode;

use crate::gen::*;
use crate::instr;
use crate::util::*;

pub struct Rec<T> {
    pub value: T,
    pub bytes: Vec<u8>,
    pub what: String,
}

pub fn vis(c: &mut Ctx) -> (Visibility, u8) {
    match c.rng.below(3) {
        0 => (Visibility::Public, 0),
        1 => (Visibility::Protected, 1),
        _ => (Visibility::Private, 2),
    }
}

fn idx<A>(c: &mut Ctx) -> (PoolIndex<A>, [u8; 4]) {
    let v = c.rng.edgy() as u32;
    (PoolIndex::new(v), v.to_le_bytes())
}

fn list<A>(c: &mut Ctx) -> (Vec<PoolIndex<A>>, Vec<u8>) {
    let n = match c.rng.below(4) {
        0 => 0,
        1 => 1,
        _ => c.rng.below(6),
    };
    let mut v = vec![];
    let mut b = (n as u32).to_le_bytes().to_vec();
    for _ in 0..n {
        let (i, x) = idx(c);
        v.push(i);
        b.extend(x);
    }
    (v, b)
}

fn set(word: u32, bit: u32, on: bool) -> u32 {
    if on { word | (1 << bit) } else { word & !(1 << bit) }
}

fn props(c: &mut Ctx) -> (Vec<Property>, Vec<u8>) {
    let n = c.rng.below(4);
    let mut v = vec![];
    let mut b = (n as u32).to_le_bytes().to_vec();
    for _ in 0..n {
        let (name, value) = (c.rng.text(6), c.rng.text(9));
        for s in [&name, &value] {
            b.extend((s.len() as u16).to_le_bytes());
            b.extend(s.as_bytes());
        }
        v.push(Property { name, value });
    }
    (v, b)
}

pub fn class(c: &mut Ctx) -> Rec<Class> {
    let raw = c.rng.next() as u16;
    let (visibility, vb) = vis(c);
    let (base, bb) = idx(c);
    let (functions, fb) = list(c);
    let (fields, fib) = list(c);
    let (overrides, ob) = list(c);
    let mut w = raw as u32;
    w = set(w, 4, !functions.is_empty());
    w = set(w, 5, !fields.is_empty());
    w = set(w, 8, !overrides.is_empty());
    let mut bytes = vec![vb];
    bytes.extend((w as u16).to_le_bytes());
    bytes.extend(bb);
    for (e, l) in [(functions.is_empty(), fb), (fields.is_empty(), fib), (overrides.is_empty(), ob)] {
        if !e {
            bytes.extend(l);
        }
    }
    let value = Class { visibility, flags: ClassFlags::from_bytes(raw.to_le_bytes()), base, functions, fields, overrides };
    let what = format!("{value:?} with flag word {raw:#x}");
    Rec { value, bytes, what }
}

pub fn enum_(c: &mut Ctx) -> Rec<Enum> {
    let (members, mb) = list(c);
    let (flags, size, unk1) = (c.rng.next() as u8, c.rng.next() as u8, c.rng.bool());
    let mut bytes = vec![flags, size];
    bytes.extend(mb);
    bytes.push(unk1 as u8);
    let value = Enum { flags, size, members, unk1 };
    let what = format!("{value:?}");
    Rec { value, bytes, what }
}

pub fn code(c: &mut Ctx, n: u64) -> (Vec<Instr<Offset>>, Vec<u8>) {
    let mut v = vec![];
    let mut b = vec![];
    let mut size = 0u32;
    for _ in 0..n {
        // a label's target is not stored (opcode 23): left out
        let op = match c.rng.below(104) as u8 { 23 => 0, x => x };
        // profiling names with odd sizes are C03's business
        let a: Vec<u64> = instr::operands(c, op).iter().map(|x| if op == 51 { x % 0x1_0000 } else { *x }).collect();
        size += instr::size_of(op, &a);
        b.extend(wire(op, &a));
        v.push(make(op, &a));
    }
    let mut o = size.to_le_bytes().to_vec();
    o.extend(b);
    (v, o)
}

pub fn function(c: &mut Ctx) -> Rec<Function> {
    let mut raw = c.rng.next() as u32;
    if c.rng.bool() {
        raw &= !(1 << 4);
    }
    let native = raw >> 4 & 1 == 1;
    let cast_f = raw >> 13 & 1 == 1;
    let unk4 = raw >> 23 & 1 == 1;
    let (visibility, vb) = vis(c);
    let mut tail = vec![];
    let source = if native {
        None
    } else {
        let ((file, fb), line) = (idx(c), c.rng.edgy() as u32);
        tail.extend(fb);
        tail.extend(line.to_le_bytes());
        Some(SourceReference { file, line })
    };
    let (mut return_type, mut unk1) = (None, false);
    if c.rng.bool() {
        let (t, b) = idx(c);
        unk1 = c.rng.bool();
        tail.extend(b);
        tail.push(unk1 as u8);
        return_type = Some(t);
    }
    let mut base_method = None;
    if c.rng.bool() {
        let (t, b) = idx(c);
        tail.extend(b);
        base_method = Some(t);
    }
    let (parameters, pb) = list(c);
    let (locals, lb) = list(c);
    let (unk2, ub) = if unk4 { list(c) } else { (vec![], vec![0; 4]) };
    let params = !parameters.is_empty() || !unk2.is_empty();
    if params {
        tail.extend(pb);
    }
    if !locals.is_empty() {
        tail.extend(lb);
    }
    let mut operator = None;
    if c.rng.below(3) == 0 {
        let o = c.rng.edgy() as u32;
        tail.extend(o.to_le_bytes());
        operator = Some(o);
    }
    let mut cast = 0;
    if cast_f {
        cast = c.rng.next() as u8;
        tail.push(cast);
    }
    let n = if c.rng.bool() { 0 } else { 1 + c.rng.below(6) };
    let (code, cb) = code(c, n);
    if n > 0 {
        tail.extend(cb);
    }
    if unk4 {
        tail.extend(ub);
    }
    let mut w = raw;
    for (b, on) in [(7, operator.is_some()), (8, return_type.is_some()), (9, base_method.is_some()), (10, params), (11, !locals.is_empty()), (12, n > 0)] {
        w = set(w, b, on);
    }
    let mut bytes = vec![vb];
    bytes.extend(w.to_le_bytes());
    bytes.extend(tail);
    let value = Function {
        visibility,
        flags: FunctionFlags::from_bytes(raw.to_le_bytes()),
        source,
        return_type,
        unk1,
        base_method,
        parameters,
        locals,
        operator,
        cast,
        code: Code::new(code),
        unk2,
    };
    let what = format!("{value:?} with flag word {raw:#x}");
    Rec { value, bytes, what }
}

pub fn field(c: &mut Ctx) -> Rec<Field> {
    let raw = c.rng.next() as u16;
    let (visibility, vb) = vis(c);
    let (type_, tb) = idx(c);
    let hint = if c.rng.bool() { Some(c.rng.text(10)) } else { None };
    let (attributes, ab) = props(c);
    let (defaults, db) = props(c);
    let mut bytes = vec![vb];
    bytes.extend(tb);
    bytes.extend((set(raw as u32, 5, hint.is_some()) as u16).to_le_bytes());
    if let Some(h) = &hint {
        bytes.extend((h.len() as u16).to_le_bytes());
        bytes.extend(h.as_bytes());
    }
    bytes.extend(ab);
    bytes.extend(db);
    let value = Field { visibility, type_, flags: FieldFlags::from_bytes(raw.to_le_bytes()), hint, attributes, defaults };
    let what = format!("{value:?} with flag word {raw:#x}");
    Rec { value, bytes, what }
}

pub fn type_(c: &mut Ctx) -> Rec<Type> {
    let (i, b) = idx(c);
    let t = c.rng.below(7) as u8;
    let mut bytes = vec![t];
    let value = match t {
        0 => Type::Prim,
        1 => Type::Class,
        2 => Type::Ref(i),
        3 => Type::WeakRef(i),
        4 => Type::Array(i),
        5 => {
            let n = c.rng.edgy() as u32;
            bytes.extend(b);
            bytes.extend(n.to_le_bytes());
            Type::StaticArray(i, n)
        }
        _ => Type::ScriptRef(i),
    };
    if t >= 2 && t != 5 {
        bytes.extend(b);
    }
    Rec { value, bytes, what: format!("{value:?}") }
}

pub fn local(c: &mut Ctx) -> Rec<Local> {
    let (type_, tb) = idx(c);
    let w = c.rng.next() as u8;
    let mut bytes = tb.to_vec();
    bytes.push(w);
    Rec { value: Local { type_, flags: LocalFlags::from_bytes([w]) }, bytes, what: format!("local of type {type_} with flag word {w:#x}") }
}

pub fn parameter(c: &mut Ctx) -> Rec<Parameter> {
    let (type_, tb) = idx(c);
    let w = c.rng.next() as u8;
    let mut bytes = tb.to_vec();
    bytes.push(w);
    Rec { value: Parameter { type_, flags: ParameterFlags::from_bytes([w]) }, bytes, what: format!("parameter of type {type_} with flag word {w:#x}") }
}

pub fn source_file(c: &mut Ctx) -> Rec<SourceFile> {
    let (id, path_hash) = (c.rng.edgy() as u32, c.rng.edgy());
    let text = c.rng.text(12);
    let mut bytes = id.to_le_bytes().to_vec();
    bytes.extend(path_hash.to_le_bytes());
    let disk: String = text.chars().map(|c| if c == '/' { '\\' } else { c }).collect();
    bytes.extend((disk.len() as u16).to_le_bytes());
    bytes.extend(disk.as_bytes());
    Rec { value: SourceFile { id, path_hash, path: PathBuf::from(&text) }, bytes, what: format!("source file {id} {path_hash:#x} {text:?}") }
}

fn one<T: Encode + Decode + Debug>(c: &mut Ctx, kind: &str, r: Rec<T>, canon: impl Fn(&mut T)) {
    let k = format!("defs/{kind}");
    let want = &r.bytes;
    if let Some(o) = c.case(&k, &r.what, || {
        let mut o = vec![];
        r.value.encode(&mut o).map(|()| o)
    }) {
        c.check(matches!(&o, Ok(b) if b == want), &k, || format!("{} is written as {o:02x?}, expected {want:02x?}", r.what));
    }
    let mut src = want.clone();
    src.extend([0x77, 0x88]);
    if let Some((v, rest)) = c.case(&k, &format!("bytes {src:02x?}"), || {
        let mut s = Trickle(&src, 3);
        let v = T::decode(&mut s);
        (v, s.0.to_vec())
    }) {
        match v {
            Err(e) => c.fail(&k, format!("{}: its bytes {want:02x?} are refused: {e}", r.what)),
            Ok(v) => {
                c.check(rest == [0x77, 0x88], &k, || format!("{}: reading its bytes {want:02x?} leaves {rest:02x?}", r.what));
                let mut orig = r.value;
                canon(&mut orig);
                let (a, b) = (format!("{orig:?}"), format!("{v:?}"));
                c.check(a == b, &k, || format!("bytes {want:02x?} should read as {a}, read as {b}"));
                let mut o = vec![];
                let e = v.encode(&mut o);
                c.check(e.is_ok() && o == *want, &k, || format!("bytes {want:02x?} read and written again give {o:02x?}"));
            }
        }
    }
    let n = c.rng.below(want.len() as u64) as usize;
    for n in [n, want.len() - 1] {
        if let Some(v) = c.case(&k, &format!("truncated {:02x?}", &want[..n]), || T::decode(&mut &want[..n])) {
            c.check(v.is_err(), &k, || format!("{}: truncated bytes {:02x?} accepted as {v:?}", r.what, &want[..n]));
        }
    }
    let cut = c.rng.below(want.len() as u64) as usize;
    let mut s = Trickle(want, 9999);
    if let Ok(v) = T::decode(&mut s) {
        if let Some(e) = c.case(&k, &r.what, || v.encode(&mut Full(vec![], cut))) {
            c.check(e.is_err(), &k, || format!("{}: a full sink ({cut} bytes) was not reported", r.what));
        }
    }
}

macro_rules! layout {
    ($c:expr, $t:ident, $n:expr, [$($name:ident / $with:ident : $bit:expr),* $(,)?]) => {
        for w in 0..(8 * $n + 64u32) {
            let raw: u32 = if w < 8 * $n { 1u32 << w } else { $c.rng.next() as u32 & (0xffff_ffffu32 >> (32 - 8 * $n)) };
            let mut b = [0u8; $n];
            b.copy_from_slice(&raw.to_le_bytes()[..$n]);
            let k = concat!("defs/flags/", stringify!($t));
            let f = $t::from_bytes(b);
            $(
                $c.check(f.$name() == (raw >> $bit & 1 == 1), k, || format!("{} word {raw:#x}: {} reads as {}", stringify!($t), stringify!($name), f.$name()));
                for on in [false, true] {
                    let g = f.$with(on).into_bytes();
                    let mut want = [0u8; $n];
                    want.copy_from_slice(&set(raw, $bit, on).to_le_bytes()[..$n]);
                    $c.check(g == want, k, || format!("{} word {raw:#x}: setting {} to {on} gives {g:02x?}", stringify!($t), stringify!($name)));
                }
            )*
            let mut o = vec![];
            let e = f.encode(&mut o);
            $c.check(e.is_ok() && o == b, k, || format!("{} word {raw:#x} written as {o:02x?}", stringify!($t)));
            let d = $t::decode(&mut &b[..]).map(|d| d.into_bytes());
            $c.check(matches!(d, Ok(x) if x == b), k, || format!("{} word {raw:#x} read back as {d:?}", stringify!($t)));
        }
    };
}

pub fn run(c: &mut Ctx) {
    layout!(c, FieldFlags, 2, [is_native/with_is_native: 0, is_editable/with_is_editable: 1, is_inline/with_is_inline: 2, is_const/with_is_const: 3,
        is_replicated/with_is_replicated: 4, has_hint/with_has_hint: 5, is_instance_editable/with_is_instance_editable: 6, has_default/with_has_default: 7,
        is_persistent/with_is_persistent: 8, is_test_only/with_is_test_only: 9, is_browsable/with_is_browsable: 10]);
    layout!(c, LocalFlags, 1, [is_const/with_is_const: 0]);
    layout!(c, ParameterFlags, 1, [is_optional/with_is_optional: 0, is_out/with_is_out: 1, is_short_circuit/with_is_short_circuit: 2, is_const/with_is_const: 3]);
    layout!(c, ClassFlags, 2, [is_native/with_is_native: 0, is_abstract/with_is_abstract: 1, is_final/with_is_final: 2, is_struct/with_is_struct: 3,
        has_functions/with_has_functions: 4, has_fields/with_has_fields: 5, is_import_only/with_is_import_only: 6, is_test_only/with_is_test_only: 7, has_overrides/with_has_overrides: 8]);
    layout!(c, FunctionFlags, 4, [is_static/with_is_static: 0, is_exec/with_is_exec: 1, is_timer/with_is_timer: 2, is_final/with_is_final: 3, is_native/with_is_native: 4,
        unk1/with_unk1: 5, is_callback/with_is_callback: 6, is_operator/with_is_operator: 7, has_return_value/with_has_return_value: 8, has_base_method/with_has_base_method: 9,
        has_parameters/with_has_parameters: 10, has_locals/with_has_locals: 11, has_body/with_has_body: 12, is_cast/with_is_cast: 13, is_implicit_cast/with_is_implicit_cast: 14,
        is_thread_safe/with_is_thread_safe: 18, is_const/with_is_const: 19, unk2/with_unk2: 20, unk3/with_unk3: 21, is_quest/with_is_quest: 22, unk4/with_unk4: 23,
        unk5/with_unk5: 24, unk6/with_unk6: 25]);
    for b in 0..=255u8 {
        let v = Visibility::decode(&mut &[b][..]);
        let ok = match &v {
            Ok(Visibility::Public) => b == 0,
            Ok(Visibility::Protected) => b == 1,
            Ok(Visibility::Private) => b == 2,
            Err(_) => b > 2,
        };
        c.check(ok, "defs/visibility", || format!("visibility byte {b} read as {v:?}"));
    }
    for _ in 0..c.n(1500) {
        let r = class(c);
        one(c, "class", r, |v| {
            v.flags = v.flags.with_has_functions(!v.functions.is_empty()).with_has_fields(!v.fields.is_empty()).with_has_overrides(!v.overrides.is_empty())
        });
        let r = function(c);
        one(c, "function", r, |v| {
            v.flags = v.flags.with_is_operator(v.operator.is_some()).with_has_return_value(v.return_type.is_some()).with_has_base_method(v.base_method.is_some())
                .with_has_parameters(!v.parameters.is_empty() || !v.unk2.is_empty()).with_has_locals(!v.locals.is_empty()).with_has_body(!v.code.is_empty())
        });
        let r = field(c);
        one(c, "field", r, |v| v.flags = v.flags.with_has_hint(v.hint.is_some()));
        let r = enum_(c);
        one(c, "enum", r, |_| ());
        let r = type_(c);
        one(c, "type", r, |_| ());
        let r = local(c);
        one(c, "local", r, |_| ());
        let r = parameter(c);
        one(c, "parameter", r, |_| ());
        let r = source_file(c);
        one(c, "source_file", r, |_| ());
    }
    // long lists
    for n in [255u32, 256, 257, 65535, 65536, 70000] {
        let mut r = enum_(c);
        r.value.members = (0..n).map(PoolIndex::new).collect();
        let mut b = vec![r.value.flags, r.value.size];
        b.extend(n.to_le_bytes());
        (0..n).for_each(|i| b.extend(i.to_le_bytes()));
        b.push(r.value.unk1 as u8);
        let got = c.case("defs/long", &format!("enum of {n} members"), || {
            let mut o = vec![];
            r.value.encode(&mut o).map(|()| o)
        });
        c.check(matches!(&got, Some(Ok(o)) if *o == b), "defs/long", || format!("enum of {n} members written wrongly"));
        let got = c.case("defs/long", &format!("enum of {n} members"), || Enum::decode(&mut &b[..]));
        c.check(matches!(&got, Some(Ok(e)) if e.members == r.value.members), "defs/long", || format!("enum of {n} members read back wrongly"));
    }
    // arbitrary bytes: an answer or an error
    for _ in 0..c.n(3000) {
        let n = c.rng.below(40);
        let mut b: Vec<u8> = (0..n).map(|_| if c.rng.bool() { c.rng.below(8) as u8 } else { c.rng.next() as u8 }).collect();
        // no gigantic announced counts
        for x in b.iter_mut().skip(3).step_by(2) {
            *x &= 1;
        }
        let inp = format!("bytes {b:02x?}");
        c.case("defs/garbage/type", &inp, || Type::decode(&mut &b[..]).is_ok());
        c.case("defs/garbage/local", &inp, || Local::decode(&mut &b[..]).is_ok());
        c.case("defs/garbage/parameter", &inp, || Parameter::decode(&mut &b[..]).is_ok());
        c.case("defs/garbage/source_file", &inp, || SourceFile::decode(&mut &b[..]).is_ok());
        if let Some(Ok(t)) = c.case("defs/garbage/type", &inp, || Type::decode(&mut &b[..])) {
            let mut o = vec![];
            let e = t.encode(&mut o);
            c.check(e.is_ok() && b.starts_with(&o), "defs/garbage/type", || format!("{inp} read as {t:?}, written as {o:02x?}"));
        }
    }
}
