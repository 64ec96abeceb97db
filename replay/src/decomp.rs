//! C13, C14: decompiled trees mirror the code; printed trees read back
use redscript::bundle::*;
use redscript::bytecode::{Code, Instr, Offset};
use redscript::definition::*;
use redscript_decompiler::print::{write_definition, OutputMode};
use redscript_decompiler::Decompiler;

use crate::gen::*;
use crate::instr::size_of;
use crate::lang::*;
use crate::util::*;

#[derive(Clone, Copy, Debug)]
enum Arg {
    V(u64),
    L(usize),
}
use Arg::*;

#[derive(Clone, Debug)]
enum Item {
    Op(u8, Vec<Arg>),
    Mark(usize),
}

pub struct World {
    pub pool: ConstantPool,
    locals: Vec<(u32, String, String)>, // index, name, type text
    params: Vec<(u32, String)>,
    fields: Vec<(u32, String)>,
    enums: Vec<(u32, String, Vec<(u32, String)>)>,
    types: Vec<(u32, String)>, // index, type text
    classes: Vec<(u32, String)>,
    statics: Vec<(u32, String)>,                 // global functions
    casts: Vec<(u32, String, String)>,           // name, target type
    binops: Vec<(u32, String)>,
    unops: Vec<(u32, String)>,
    class_statics: Vec<(u32, String, String)>,   // class, name
    methods: Vec<(u32, String, bool)>,           // name, is the overridden one
    virtuals: Vec<(u32, String)>,                // name index, name
    pub me: u32,
    texts: Vec<String>,
}

pub fn fun(flags: FunctionFlags) -> Function {
    Function { visibility: Visibility::Public, flags, source: None, return_type: None, unk1: false, base_method: None, parameters: vec![], locals: vec![], operator: None, cast: 0, code: Code::EMPTY, unk2: vec![] }
}

fn pretty(repr: &str) -> String {
    match repr.split_once(':') {
        Some((a, b)) => format!("{a}<{}>", pretty(b)),
        None => repr.to_string(),
    }
}

pub fn world(c: &mut Ctx) -> World {
    let mut p = ConstantPool::default();
    p.names.add("_pad".into()); // slot 0 of the names table is reserved
    let mut w = World { pool: p, locals: vec![], params: vec![], fields: vec![], enums: vec![], types: vec![], classes: vec![], statics: vec![], casts: vec![], binops: vec![], unops: vec![], class_statics: vec![], methods: vec![], virtuals: vec![], me: 0, texts: vec![] };
    // slot 0 of the definition table is the empty definition
    let _: PoolIndex<Class> = if w.pool.definitions().next().is_none() && w.pool.definition::<Class>(PoolIndex::new(0)).is_err() { w.pool.reserve() } else { PoolIndex::new(0) };
    for r in ["Int32", "Foo", "ref:Foo", "wref:Foo", "array:Int32", "array:ref:Foo", "script_ref:String", "Bool"] {
        let n = w.pool.names.add(r.into());
        let t = match r.split(':').next().unwrap() { "ref" => Type::Ref(PoolIndex::new(2)), "wref" => Type::WeakRef(PoolIndex::new(2)), "array" => Type::Array(PoolIndex::new(1)), "script_ref" => Type::ScriptRef(PoolIndex::new(1)), "Foo" => Type::Class, _ => Type::Prim };
        let i: PoolIndex<Type> = w.pool.add_definition(Definition::type_(n, t));
        w.types.push((i.into(), pretty(r)));
    }
    let cls = || Class { visibility: Visibility::Public, flags: ClassFlags::new(), base: PoolIndex::UNDEFINED, functions: vec![], fields: vec![], overrides: vec![] };
    for n in ["Foo", "Bar", "Base"] {
        let ni = w.pool.names.add(n.into());
        let i: PoolIndex<Class> = w.pool.add_definition(Definition::class(ni, cls()));
        w.classes.push((i.into(), n.to_string()));
    }
    let foo: PoolIndex<Class> = PoolIndex::new(w.classes[0].0);
    let base: PoolIndex<Class> = PoolIndex::new(w.classes[2].0);
    for k in 0..3 {
        let n = format!("m_{}{k}", c.rng.word(3));
        let ni = w.pool.names.add(n.as_str().into());
        let f = Field { visibility: Visibility::Private, type_: PoolIndex::new(w.types[0].0), flags: FieldFlags::new(), hint: None, attributes: vec![], defaults: vec![] };
        let i: PoolIndex<Field> = w.pool.add_definition(Definition::field(ni, foo, f));
        w.fields.push((i.into(), n));
    }
    for e in ["Mode", "Side"] {
        let ni = w.pool.names.add(e.into());
        let ei: PoolIndex<Enum> = w.pool.add_definition(Definition::enum_(ni, Enum { flags: 0, size: 4, members: vec![], unk1: false }));
        let mut ms = vec![];
        for k in 0..2 {
            let n = format!("{e}{k}");
            let ni = w.pool.names.add(n.as_str().into());
            let i: PoolIndex<i64> = w.pool.add_definition(Definition::enum_value(ni, ei, k));
            ms.push((i.into(), n));
        }
        w.enums.push((ei.into(), e.to_string(), ms));
    }
    let mut add = |w: &mut World, n: &str, parent: PoolIndex<Class>, st: bool, ret: Option<u32>| -> u32 {
        let ni = w.pool.names.add(n.into());
        let mut f = fun(FunctionFlags::new().with_is_static(st).with_is_final(true));
        f.return_type = ret.map(PoolIndex::new);
        let i: PoolIndex<Function> = w.pool.add_definition(Definition::function(ni, parent, f));
        i.into()
    };
    for n in ["Log;String", "Rand", "OperatorX;Int32", "AsRefs;Int32"] {
        let i = add(&mut w, n, PoolIndex::UNDEFINED, true, None);
        w.statics.push((i, n.to_string()));
    }
    for (n, t) in [("Cast;Int32;Float", 0usize), ("Cast;Foo;ref:Foo", 2)] {
        let ti = w.types[t].0;
        let i = add(&mut w, n, PoolIndex::UNDEFINED, true, Some(ti));
        let tt = w.types[t].1.clone();
        w.casts.push((i, n.to_string(), tt));
    }
    for (n, _, _) in BINOPS {
        let n = format!("{n};Int32Int32;Int32");
        let i = add(&mut w, &n, PoolIndex::UNDEFINED, true, None);
        w.binops.push((i, n));
    }
    for (n, _) in UNOPS {
        let n = format!("{n};Int32;Int32");
        let i = add(&mut w, &n, PoolIndex::UNDEFINED, true, None);
        w.unops.push((i, n));
    }
    for n in ["Make;Int32", "Get"] {
        let i = add(&mut w, n, foo, true, None);
        w.class_statics.push((i, "Foo".into(), n.to_string()));
    }
    for n in ["Run;Int32", "Stop", "Test;", "AsRef;Int32", "OperatorNeg;Int32;Int32"] {
        let i = add(&mut w, n, foo, false, None);
        w.methods.push((i, n.to_string(), false));
    }
    let i = add(&mut w, "Main;Int32", base, false, None);
    w.methods.push((i, "Main;Int32".into(), true));
    for n in ["Call;Int32", "Tick", "Main;Int32", "WeakRefToRef", "OperatorAdd;Int32"] {
        let ni = w.pool.names.add(n.into());
        w.virtuals.push((ni.into(), n.to_string()));
    }
    w.me = add(&mut w, "Main;Int32", foo, false, None);
    // calling itself is a call on this, calling the base class's version is a call on super
    w.methods.push((w.me, "Main;Int32".into(), false));
    let me = PoolIndex::<Function>::new(w.me);
    for k in 0..c.rng.below(5) {
        let n = format!("{}{k}", c.rng.word(3)).to_lowercase();
        let n = if n.starts_with(|c: char| c.is_ascii_digit()) { format!("v{n}") } else { n };
        let t = c.rng.below(w.types.len() as u64) as usize;
        let ni = w.pool.names.add(n.as_str().into());
        let i: PoolIndex<Local> = w.pool.add_definition(Definition::local(ni, me, Local::new(PoolIndex::new(w.types[t].0), LocalFlags::new())));
        let tt = w.types[t].1.clone();
        w.locals.push((i.into(), n, tt));
    }
    for n in ["arg", "other"] {
        let ni = w.pool.names.add(n.into());
        let i: PoolIndex<Parameter> = w.pool.add_definition(Definition::param(ni, me, Parameter { type_: PoolIndex::new(w.types[0].0), flags: ParameterFlags::new() }));
        w.params.push((i.into(), n.into()));
    }
    for _ in 0..6 {
        let t = format!("{}{}", c.rng.text(6), c.rng.pick(&["", "\"", "\\", "'", "\t\r", "\\(x)", "\u{10ffff}"]));
        w.texts.push(t);
    }
    w
}

/// instruction, name, arguments, operand kinds are all pool indices of types
const INTR: &[(u8, &str, usize)] = &[
    (42, "Equals", 2), (43, "Equals", 2), (44, "Equals", 2), (45, "NotEquals", 2), (46, "NotEquals", 2), (47, "NotEquals", 2),
    (49, "Delete", 1), (52, "ArrayClear", 1), (53, "ArraySize", 1), (54, "ArrayResize", 2), (55, "ArrayFindFirst", 2), (56, "ArrayFindFirst", 2),
    (57, "ArrayFindLast", 2), (58, "ArrayFindLast", 2), (59, "ArrayContains", 2), (60, "ArrayContains", 2), (61, "ArrayCount", 2), (62, "ArrayCount", 2),
    (63, "ArrayPush", 2), (64, "ArrayPop", 1), (65, "ArrayInsert", 3), (66, "ArrayRemove", 2), (67, "ArrayRemove", 2), (68, "ArrayGrow", 2),
    (69, "ArrayErase", 2), (70, "ArrayErase", 2), (71, "ArrayLast", 1), (73, "ArraySort", 1), (74, "ArraySortByPredicate", 2),
    (75, "ArraySize", 1), (76, "ArrayFindFirst", 2), (77, "ArrayFindFirst", 2), (78, "ArrayFindLast", 2), (79, "ArrayFindLast", 2),
    (80, "ArrayContains", 2), (81, "ArrayContains", 2), (82, "ArrayCount", 2), (83, "ArrayCount", 2), (84, "ArrayLast", 1),
    (86, "IsDefined", 1), (87, "IsDefined", 1), (88, "EnumInt", 1), (91, "ToString", 1), (92, "ToVariant", 1), (94, "IsDefined", 1),
    (95, "VariantIsRef", 1), (96, "VariantIsArray", 1), (97, "VariantTypeName", 1), (98, "ToString", 1), (99, "WeakRefToRef", 1),
    (100, "RefToWeakRef", 1), (102, "AsRef", 1), (103, "Deref", 1),
];

pub struct G<'a> {
    c: &'a mut Ctx,
    w: &'a mut World,
    code: Vec<Item>,
    labels: usize,
    fuel: i64,
    /// only what can be printed (no infinite numbers)
    pub printable: bool,
    /// what the next expressions are to be, outermost first
    script: Vec<Force>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Force {
    Bin(usize),
    Un(usize),
    Leaf,
    Member,
    Index,
    As,
    Cond,
    Call,
    Method,
    Make,
}
impl Force {
    fn width(self) -> usize {
        match self { Force::Bin(_) | Force::Index | Force::Method | Force::Make | Force::Call => 2, Force::Un(_) | Force::Member | Force::As => 1, Force::Cond => 3, Force::Leaf => 0 }
    }
}

impl G<'_> {
    fn op(&mut self, op: u8, a: &[Arg]) {
        self.code.push(Item::Op(op, a.to_vec()));
    }
    fn label(&mut self) -> usize {
        self.labels += 1;
        self.labels - 1
    }
    fn mark(&mut self, l: usize) {
        self.code.push(Item::Mark(l));
    }
    fn pick<X: Clone>(&mut self, v: &[X]) -> X {
        self.c.rng.pick(v).clone()
    }
    /// how many arguments: few as a rule, sometimes many
    fn count(&mut self) -> u64 {
        match self.c.rng.below(40) {
            0 => self.c.rng.below(24),
            1..=3 => self.c.rng.below(8),
            _ => self.c.rng.below(3),
        }
    }
    fn float(&mut self) -> f64 {
        loop {
            let v = match self.c.rng.below(6) {
                0 => self.c.rng.below(100) as f64,
                1 => self.c.rng.below(100_000) as f64 / 100.0,
                2 => -(self.c.rng.below(1000) as f64) / 8.0,
                3 => f64::from_bits(self.c.rng.next()),
                4 => f32::from_bits(self.c.rng.next() as u32) as f64,
                _ => self.c.rng.below(1000) as f64 / 100_000.0,
            };
            if !self.printable || (v.is_finite() && (v as f32).is_finite()) {
                return v;
            }
        }
    }
    fn constant(&mut self) -> T {
        let k = self.c.rng.edgy();
        match self.c.rng.below(17) {
            0 => { self.op(2, &[]); leaf("i32:1") }
            1 => { self.op(3, &[]); leaf("i32:0") }
            2 => { self.op(4, &[V(k)]); leaf(format!("i32:{}", k as i8)) }
            3 => { self.op(5, &[V(k)]); leaf(format!("i32:{}", k as i16)) }
            4 => { self.op(6, &[V(k)]); leaf(format!("i32:{}", k as i32)) }
            5 => { self.op(7, &[V(k)]); leaf(format!("i64:{}", k as i64)) }
            6 => { self.op(8, &[V(k)]); leaf(format!("u32:{}", k as u8)) }
            7 => { self.op(9, &[V(k)]); leaf(format!("u32:{}", k as u16)) }
            8 => { self.op(10, &[V(k)]); leaf(format!("u32:{}", k as u32)) }
            9 => { self.op(11, &[V(k)]); leaf(format!("u64:{k}")) }
            10 => { let v = self.float() as f32; self.op(12, &[V(v.to_bits() as u64)]); leaf(format!("f32:{:x}", v.to_bits())) }
            11 => { let v = self.float(); self.op(13, &[V(v.to_bits())]); leaf(format!("f64:{:x}", v.to_bits())) }
            12 => { let b = self.c.rng.bool(); self.op(if b { 19 } else { 20 }, &[]); leaf(format!("bool:{b}")) }
            n => {
                let t = self.pick(&self.w.texts.clone());
                let r: redscript::Ref<str> = t.as_str().into();
                let (op, i, k): (u8, u32, &str) = match n {
                    13 => (14, self.w.pool.names.add(r).into(), "name"),
                    14 => (16, self.w.pool.strings.add(r).into(), "str"),
                    15 => (17, self.w.pool.tweakdb_ids.add(r).into(), "tdb"),
                    _ => (18, self.w.pool.resources.add(r).into(), "res"),
                };
                self.op(op, &[V(i as u64)]);
                leaf(format!("{k}:{t:?}"))
            }
        }
    }
    fn variable(&mut self) -> T {
        if self.c.rng.bool() && !self.w.locals.is_empty() {
            let (i, n, _) = self.pick(&self.w.locals.clone());
            self.op(24, &[V(i as u64)]);
            leaf(format!("id:{n}"))
        } else {
            let (i, n) = self.pick(&self.w.params.clone());
            self.op(25, &[V(i as u64)]);
            leaf(format!("id:{n}"))
        }
    }
    fn args(&mut self, n: usize, out: &mut Vec<T>) {
        for _ in 0..n {
            if self.c.rng.below(5) == 0 {
                let l = self.label();
                self.op(33, &[L(l)]);
                out.push(self.expr());
                self.mark(l);
            } else {
                out.push(self.expr());
            }
        }
        for _ in 0..self.c.rng.below(3) {
            self.op(0, &[]);
        }
        self.op(38, &[]);
    }
    fn call(&mut self, op: u8, idx: u32, n: usize, out: &mut Vec<T>) {
        let l = self.label();
        let (line, fl) = (self.c.rng.next() & 0xffff, self.c.rng.next() & 0xffff);
        self.op(op, &[L(l), V(line), V(idx as u64), V(fl)]);
        self.args(n, out);
        self.mark(l);
    }
    /// field of, or call on, a given object
    fn on(&mut self, obj: T) -> T {
        let n = self.count() as usize;
        match self.c.rng.below(3) {
            0 => {
                let (i, f) = self.pick(&self.w.fields.clone());
                self.op(26, &[V(i as u64)]);
                node(format!(".{f}"), vec![obj])
            }
            1 => {
                let (i, m, _) = self.pick(&self.w.methods.clone());
                let mut a = vec![obj];
                self.call(36, i, n, &mut a);
                node(format!("mcall {m}"), a)
            }
            _ => {
                let (i, m) = self.pick(&self.w.virtuals.clone());
                let mut a = vec![obj];
                self.call(37, i, n, &mut a);
                node(format!("mcall {m}"), a)
            }
        }
    }
    fn forced(&mut self, f: Force) -> T {
        match f {
            Force::Bin(k) | Force::Un(k) => {
                let (i, n) = if let Force::Bin(_) = f { self.w.binops[k].clone() } else { self.w.unops[k].clone() };
                let mut a = vec![];
                self.call(36, i, f.width(), &mut a);
                node(format!("call {n}"), a)
            }
            Force::Leaf => self.variable(),
            Force::Member => {
                let (i, f) = self.pick(&self.w.fields.clone());
                self.op(40, &[V(i as u64)]);
                let b = self.base();
                node(format!(".{f}"), vec![b])
            }
            Force::Index => {
                self.op(72, &[V(1)]);
                let a = self.base();
                let i = self.expr();
                node("[]", vec![a, i])
            }
            Force::As => {
                let (i, t) = self.pick(&self.w.types.clone());
                self.op(90, &[V(i as u64), V(0)]);
                let x = self.base();
                node(format!("as {t}"), vec![x])
            }
            Force::Cond => {
                let (f, e) = (self.label(), self.label());
                self.op(34, &[L(f), L(e)]);
                let a = self.expr();
                let b = self.expr();
                self.mark(f);
                let c = self.expr();
                self.mark(e);
                node("?:", vec![a, b, c])
            }
            Force::Call => {
                let (i, s) = self.w.statics[0].clone();
                let mut a = vec![];
                self.call(36, i, 2, &mut a);
                node(format!("call {s}"), a)
            }
            Force::Method => {
                let e = self.label();
                self.op(41, &[L(e)]);
                let o = self.base();
                let (i, m) = self.w.virtuals[0].clone();
                let mut a = vec![o];
                self.call(37, i, 1, &mut a);
                self.mark(e);
                node(format!("mcall {m}"), a)
            }
            Force::Make => {
                let (i, n) = self.pick(&self.w.classes.clone());
                self.op(35, &[V(2), V(i as u64)]);
                let v = (0..2).map(|_| self.expr()).collect();
                node(format!("new {n}"), v)
            }
        }
    }
    pub fn expr(&mut self) -> T {
        if let Some(f) = self.script.pop() {
            return self.forced(f);
        }
        self.fuel -= 1;
        if self.fuel <= 0 {
            return if self.c.rng.bool() { self.constant() } else { self.variable() };
        }
        match self.c.rng.below(12) {
            0 | 1 => self.constant(),
            2 => self.variable(),
            3 => self.operator(),
            4 => self.operator(),
            5 => {
                let (op, n, k) = self.pick(INTR);
                let a: Vec<Arg> = KINDS[op as usize].iter().map(|_| V(self.c.rng.below(200))).collect();
                self.op(op, &a);
                let v = (0..k).map(|_| self.expr()).collect();
                node(format!("call {n}"), v)
            }
            6 => {
                let f = self.label();
                let e = self.label();
                self.op(34, &[L(f), L(e)]);
                let a = self.expr();
                let b = self.expr();
                self.mark(f);
                let c = self.expr();
                self.mark(e);
                node("?:", vec![a, b, c])
            }
            7 => {
                let n = self.count();
                if self.c.rng.bool() {
                    let (i, s) = self.pick(&self.w.statics.clone());
                    let mut a = vec![];
                    self.call(36, i, n as usize, &mut a);
                    node(format!("call {s}"), a)
                } else {
                    let (i, s, t) = self.pick(&self.w.casts.clone());
                    let mut a = vec![];
                    self.call(36, i, 1, &mut a);
                    node(format!("call {s}<{t}>"), a)
                }
            }
            8 => {
                let (i, t) = self.pick(&self.w.types.clone());
                let k = self.c.rng.next() & 0xff;
                match self.c.rng.below(2) {
                    0 => {
                        self.op(89, &[V(i as u64), V(k)]);
                        let x = self.expr();
                        node(format!("call IntEnum<{t}>"), vec![x])
                    }
                    _ => {
                        self.op(93, &[V(i as u64)]);
                        let x = self.expr();
                        node(format!("call FromVariant<{t}>"), vec![x])
                    }
                }
            }
            _ => self.base(),
        }
    }
    fn operator(&mut self) -> T {
        if self.c.rng.below(4) == 0 {
            let (i, n) = self.pick(&self.w.unops.clone());
            let mut a = vec![];
            self.call(36, i, 1, &mut a);
            node(format!("call {n}"), a)
        } else {
            let (i, n) = self.pick(&self.w.binops.clone());
            let mut a = vec![];
            self.call(36, i, 2, &mut a);
            node(format!("call {n}"), a)
        }
    }
    /// something that can be an object, an array or a structure (not a bare number)
    fn base(&mut self) -> T {
        if let Some(f) = self.script.pop() {
            return self.forced(f);
        }
        self.fuel -= 1;
        if self.fuel <= 0 {
            return self.variable();
        }
        match self.c.rng.below(14) {
            0 => { self.op(50, &[]); leaf("this") }
            1 => { let o = if self.c.rng.bool() { 1 } else { 101 }; self.op(o, &[]); leaf("null") }
            2 => {
                let (i, f) = self.pick(&self.w.fields.clone());
                self.op(26, &[V(i as u64)]);
                node(format!(".{f}"), vec![leaf("this")])
            }
            3 => {
                let (i, f) = self.pick(&self.w.fields.clone());
                self.op(40, &[V(i as u64)]);
                let b = self.base();
                node(format!(".{f}"), vec![b])
            }
            4 => {
                let e = self.label();
                self.op(41, &[L(e)]);
                let o = self.base();
                let r = self.on(o);
                self.mark(e);
                r
            }
            5 => {
                let o = self.pick(&[72u8, 85]);
                let k = self.c.rng.below(100);
                self.op(o, &[V(k)]);
                let a = self.base();
                let i = self.expr();
                node("[]", vec![a, i])
            }
            6 => {
                let (i, t) = self.pick(&self.w.types.clone());
                let k = self.c.rng.next() & 0xff;
                self.op(90, &[V(i as u64), V(k)]);
                let x = self.base();
                node(format!("as {t}"), vec![x])
            }
            7 => {
                let (i, n) = self.pick(&self.w.classes.clone());
                self.op(48, &[V(i as u64)]);
                leaf(format!("new {n}"))
            }
            8 => {
                let (i, n) = self.pick(&self.w.classes.clone());
                let k = self.count();
                self.op(35, &[V(k), V(i as u64)]);
                let v = (0..k).map(|_| self.expr()).collect();
                node(format!("new {n}"), v)
            }
            9 => {
                let (e, n, ms) = self.pick(&self.w.enums.clone());
                let (m, mn) = self.pick(&ms);
                self.op(15, &[V(e as u64), V(m as u64)]);
                node(format!(".{mn}"), vec![leaf(format!("id:{n}"))])
            }
            10 => {
                let n = self.count() as usize;
                let (i, c, s) = self.pick(&self.w.class_statics.clone());
                let mut a = vec![leaf(format!("id:{c}"))];
                self.call(36, i, n, &mut a);
                node(format!("mcall {s}"), a)
            }
            11 => {
                let n = self.count() as usize;
                let (i, s, up) = self.pick(&self.w.methods.clone());
                let mut a = vec![leaf(if up { "super" } else { "this" })];
                self.call(36, i, n, &mut a);
                node(format!("mcall {s}"), a)
            }
            12 => self.operator(),
            _ => {
                let f = self.label();
                let e = self.label();
                self.op(34, &[L(f), L(e)]);
                let a = self.expr();
                let b = self.base();
                self.mark(f);
                let c = self.base();
                self.mark(e);
                node("?:", vec![a, b, c])
            }
        }
    }
    fn assign(&mut self) -> T {
        self.op(22, &[]);
        let l = if self.c.rng.bool() { self.variable() } else { self.base() };
        let r = self.expr();
        node("=", vec![l, r])
    }
    fn simple(&mut self) -> T {
        match self.c.rng.below(3) {
            0 => self.assign(),
            1 => self.operator(),
            _ => self.expr(),
        }
    }
    fn ret(&mut self) -> T {
        self.op(39, &[]);
        if self.c.rng.below(3) == 0 {
            self.op(0, &[]);
            node("return", vec![])
        } else {
            let x = self.expr();
            node("return", vec![x])
        }
    }
    /// statements that are never reached: they follow what leaves the block, so the tree does not have them
    fn dead(&mut self) {
        if self.c.rng.below(4) == 0 {
            for _ in 0..1 + self.c.rng.below(2) {
                self.simple();
            }
        }
    }
    /// statements; `brk` is where a break goes; `must` end in a break
    fn block(&mut self, depth: u32, brk: Option<usize>, max: u64) -> Vec<T> {
        let mut v = vec![];
        for _ in 0..self.c.rng.below(max + 1) {
            if let Some(l) = brk {
                if self.c.rng.below(6) == 0 {
                    // conditional break
                    self.cond_end(Some(l), &mut v);
                    continue;
                }
            }
            self.stmt(depth, brk, &mut v);
        }
        v
    }
    /// if x { ...; break/return; }
    fn cond_end(&mut self, brk: Option<usize>, v: &mut Vec<T>) {
        let e = self.label();
        self.op(32, &[L(e)]);
        let x = self.expr();
        let mut b = vec![];
        if self.c.rng.bool() {
            b.push(self.simple());
        }
        match brk {
            Some(l) if self.c.rng.below(3) > 0 => {
                self.op(31, &[L(l)]);
                b.push(leaf("break"));
            }
            _ => b.push(self.ret()),
        }
        self.dead();
        self.mark(e);
        v.push(node("if", vec![x, node("seq", b)]));
    }
    /// a choice inside whose first branch ends in a second jump over the outer else: that one is not the outer's
    fn tangle(&mut self, v: &mut Vec<T>) {
        let (f, g, m, e) = (self.label(), self.label(), self.label(), self.label());
        self.op(32, &[L(f)]);
        let x = self.expr();
        self.op(32, &[L(g)]);
        let y = self.expr();
        let a = self.simple();
        self.op(31, &[L(m)]);
        self.mark(g);
        let b = self.simple();
        self.op(31, &[L(e)]);
        self.mark(m);
        let d = self.simple();
        self.op(31, &[L(e)]);
        self.mark(f);
        let z = self.simple();
        self.mark(e);
        let inner = node("if", vec![y, node("seq", vec![a]), node("seq", vec![b, leaf(format!("goto ?{e}"))])]);
        v.push(node("if", vec![x, node("seq", vec![inner, d]), node("seq", vec![z])]));
    }
    /// if x { ... } else { ... }
    fn choice(&mut self, depth: u32, brk: Option<usize>, v: &mut Vec<T>) {
        let f = self.label();
        let e = self.label();
        self.op(32, &[L(f)]);
        let x = self.expr();
        let a = self.block(depth, brk, 2);
        self.op(31, &[L(e)]);
        self.mark(f);
        let mut b = self.block(depth, brk, 2);
        if b.is_empty() {
            b.push(self.simple());
        }
        if self.c.rng.below(6) == 0 {
            b.push(self.ret());
            self.dead();
        }
        self.mark(e);
        v.push(node("if", vec![x, node("seq", a), node("seq", b)]));
    }
    fn stmt(&mut self, depth: u32, brk: Option<usize>, v: &mut Vec<T>) {
        if depth == 3 && !self.printable && self.c.rng.below(16) == 0 {
            return self.tangle(v);
        }
        match if depth == 0 { 0 } else { self.c.rng.below(8) } {
            0..=2 => {
                let s = self.simple();
                v.push(s);
            }
            3 => self.cond_end(brk, v),
            4 => {
                let e = self.label();
                self.op(32, &[L(e)]);
                let x = self.expr();
                let b = self.block(depth - 1, brk, 2);
                self.mark(e);
                v.push(node("if", vec![x, node("seq", b)]));
            }
            5 => self.choice(depth - 1, brk, v),
            6 => {
                let e = self.label();
                let l = self.label();
                self.mark(l);
                self.op(32, &[L(e)]);
                let x = self.expr();
                let mut b = self.block(depth - 1, Some(e), 3);
                // a body that ends by leaving the loop, or by a jump to its start that is not the last instruction
                match self.c.rng.below(8) {
                    0 => {
                        let r = self.ret();
                        b.push(r);
                        self.dead();
                    }
                    1 => {
                        self.op(31, &[L(e)]);
                        b.push(leaf("break"));
                        self.dead();
                    }
                    2 if !self.printable => {
                        self.op(31, &[L(l)]);
                        b.push(leaf(format!("goto ?{l}")));
                        self.simple();
                    }
                    _ => (),
                }
                self.op(31, &[L(l)]);
                self.mark(e);
                v.push(node("while", vec![x, node("seq", b)]));
            }
            _ => self.switch(depth, v),
        }
    }
    fn switch(&mut self, depth: u32, v: &mut Vec<T>) {
        let first = self.label();
        let exit = self.label();
        let many = self.c.rng.below(12) == 0;
        let n = if many { 20 + self.c.rng.below(50) as usize } else { 1 + self.c.rng.below(3) as usize };
        let with_default = self.c.rng.bool();
        let k = self.c.rng.below(100);
        self.op(28, &[V(k), L(first)]);
        let x = self.expr();
        self.mark(first);
        let mut out = vec![x];
        let mut next = self.label();
        let mut body = self.label();
        for k in 0..n {
            let last = k + 1 == n;
            self.mark(next);
            next = self.label();
            self.op(29, &[L(next), L(body)]);
            let m = self.expr();
            if !last && self.c.rng.below(if many { 12 } else { 4 }) <= if many { 10 } else { 0 } {
                out.push(node("case", vec![m, node("seq", vec![])]));
                continue;
            }
            // a body need not stand right behind the label it belongs to
            self.dead();
            self.mark(body);
            // in the last case without a default a break goes to the next instruction: it is nothing
            let mut b = vec![];
            if !last || with_default {
                b.push(self.simple());
                b.extend(self.block(depth - 1, Some(exit), 2));
                if self.c.rng.below(3) > 0 {
                    self.op(31, &[L(exit)]);
                    b.push(leaf("break"));
                    self.dead();
                } else if self.c.rng.bool() {
                    b.push(self.ret());
                    self.dead();
                } else if self.c.rng.bool() {
                    // a switch right before the next label would chain into it
                    b.push(self.simple());
                } else {
                    self.choice(0, None, &mut b);
                }
            } else {
                // ends in a plain statement: leaving an if-else there is the same as leaving the switch
                b.extend(self.block(depth - 1, None, 2));
                b.push(self.simple());
            }
            body = self.label();
            out.push(node("case", vec![m, node("seq", b)]));
        }
        self.mark(next);
        if with_default {
            self.op(30, &[]);
            let known = self.code.iter().any(|i| matches!(i, Item::Op(31, a) if matches!(a[0], L(l) if l == exit)));
            let mut d = vec![self.simple()];
            // only a break out of a case tells how far the default goes
            if known {
                d.extend(self.block(depth - 1, Some(exit), 2));
                if self.c.rng.below(4) == 0 {
                    d.push(self.ret());
                    self.dead();
                } else {
                    d.push(self.simple());
                }
            }
            out.push(node("default", vec![node("seq", d)]));
        }
        self.mark(exit);
        v.push(node("switch", out));
    }
}

fn assemble(items: &[Item], labels: usize) -> Option<Vec<(u8, Vec<u64>)>> {
    let mut at = vec![0u32; labels];
    let mut pos = 0u32;
    for i in items {
        match i {
            Item::Mark(l) => at[*l] = pos,
            Item::Op(op, _) => pos += size_of(*op, &[0]),
        }
    }
    if pos > 32_000 {
        return None;
    }
    let mut out = vec![];
    pos = 0;
    for i in items {
        if let Item::Op(op, a) = i {
            let v = a.iter().map(|a| match a { V(v) => *v, L(l) => (at[*l] as i64 - pos as i64) as i16 as u64 }).collect();
            out.push((*op, v));
            pos += size_of(*op, &[0]);
        }
    }
    Some(out)
}

/// where each label ends up
fn places(items: &[Item], labels: usize) -> Vec<u32> {
    let mut at = vec![0u32; labels];
    let mut pos = 0u32;
    for i in items {
        match i {
            Item::Mark(l) => at[*l] = pos,
            Item::Op(op, _) => pos += size_of(*op, &[0]),
        }
    }
    at
}

fn placed(t: T, at: &[u32]) -> T {
    let name = match t.0.strip_prefix("goto ?") { Some(l) => format!("goto {}", at[l.parse::<usize>().unwrap()]), None => t.0 };
    T(name, t.1.into_iter().map(|x| placed(x, at)).collect())
}

/// what the declarations step makes of a body
fn declared(w: &World, body: Vec<T>) -> Vec<T> {
    let mut left: Vec<(String, String)> = w.locals.iter().map(|l| (l.1.clone(), l.2.clone())).collect();
    left.sort();
    let mut init = vec![];
    let mut it = body.into_iter().peekable();
    while it.peek().map_or(false, |t| t.0 == "=") {
        let t = it.next().unwrap();
        let n = t.1[0].0.strip_prefix("id:").map(|s| s.to_string());
        match n.and_then(|n| left.iter().position(|l| l.0 == n)) {
            Some(i) if t.1[0].1.is_empty() => {
                let (n, ty) = left.remove(i);
                init.push(node(format!("let {n}: {ty}"), vec![t.1[1].clone()]));
            }
            _ => init.push(t),
        }
    }
    let mut o: Vec<T> = left.into_iter().map(|(n, t)| leaf(format!("let {n}: {t}"))).collect();
    o.extend(init);
    o.extend(it);
    o
}

fn show(code: &[(u8, Vec<u64>)]) -> String {
    code.iter().map(|(o, a)| format!("{}{}", NAMES[*o as usize], if a.is_empty() { String::new() } else { format!("({})", a.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>().join(",")) })).collect::<Vec<_>>().join(" ")
}

/// one random function; returns the world with the function in place, its code and its tree
pub fn program(c: &mut Ctx, n: u64, control: bool, printable: bool) -> Option<(World, Vec<(u8, Vec<u64>)>, T)> {
    let mut w = world(c);
    // small programs first
    let fuel = 1 + c.rng.below(2 + n / 20).min(60) as i64;
    let mut g = G { c, w: &mut w, code: vec![], labels: 0, fuel, printable, script: vec![] };
    let mut body = vec![];
    if control {
        for _ in 0..1 + g.c.rng.below(3) {
            g.fuel += 2;
            g.stmt(3, None, &mut body);
        }
        if g.c.rng.bool() {
            let r = g.ret();
            body.push(r);
        }
    } else {
        for _ in 0..1 + g.c.rng.below(3) {
            g.fuel += 1;
            let s = g.simple();
            body.push(s);
        }
    }
    g.op(0, &[]);
    let (items, labels) = (std::mem::take(&mut g.code), g.labels);
    let code = assemble(&items, labels)?;
    let tree = placed(node("seq", declared(&w, body)), &places(&items, labels));
    let me = PoolIndex::<Function>::new(w.me);
    let locals: Vec<_> = w.locals.iter().map(|l| PoolIndex::new(l.0)).collect();
    let f = w.pool.function_mut(me).unwrap();
    f.locals = locals;
    f.flags.set_has_body(true);
    f.code = Code::new(code.iter().map(|(o, a)| make(*o, a)).collect::<Vec<Instr<Offset>>>());
    Some((w, code, tree))
}

fn round(c: &mut Ctx, n: u64, key: &str, control: bool) {
    let Some((w, code, want)) = program(c, n, control, false) else { return };
    let me = PoolIndex::<Function>::new(w.me);
    let d = show(&code);
    let r = c.case(key, &d, || {
        let f = w.pool.function(me).unwrap();
        Decompiler::decompiled(f, w.pool.definition(me).unwrap(), &w.pool).map(|s| of_seq(&s)).map_err(|e| e.to_string())
    });
    match r {
        Some(Ok(t)) => c.check(t == want, key, || {
            let (x, y) = differ(&t, &want);
            format!("decompiles to a tree with {x:?} where {y:?} is expected; the code is {d}; whole tree {t:?}")
        }),
        Some(Err(e)) => c.fail(key, format!("code {d} is refused ({e}), expected {want:?}")),
        None => (),
    }
}

pub fn run(c: &mut Ctx) {
    for n in 0..c.n(1500) {
        round(c, n, "decompile/expr", false);
    }
}

pub fn control(c: &mut Ctx) {
    for n in 0..c.n(1500) {
        round(c, n, "decompile/control", true);
    }
}

/// one body, printed with and without the verbose flag, and read back
fn printed(c: &mut Ctx, w: &World, want: &T) {
    let me = PoolIndex::<Function>::new(w.me);
    for verbose in [false, true] {
        let want = surface(want, verbose);
        let d = format!("{want:?}");
        let r = c.case("print", &d, || {
            let mut o = vec![];
            write_definition(&mut o, w.pool.definition(me).unwrap(), &w.pool, 0, OutputMode::Code { verbose }).map_err(|e| e.to_string())?;
            Ok::<_, String>(String::from_utf8(o).unwrap())
        });
        match r {
            Some(Ok(s)) => {
                let mut p = P::new(&s);
                match p.decl() {
                    Ok(x) => c.check(x.body.as_ref() == Some(&want) && p.end(), "print", || {
                        let none = leaf("nothing");
                        let (x, y) = differ(x.body.as_ref().unwrap_or(&none), &want);
                        format!("printed text reads as {x:?} where {y:?} was printed; the text is {s}")
                    }),
                    Err(e) => c.fail("print", format!("body {d} is printed as {s}, which does not parse: {e}")),
                }
            }
            Some(Err(e)) => c.fail("print", format!("{d}: {e}")),
            None => (),
        }
    }
}

/// a body of the given statements, each written as the productions of its expression, outermost first
fn scripted(c: &mut Ctx, stmts: &[Vec<Force>]) -> (World, T) {
    let mut w = world(c);
    let mut g = G { c, w: &mut w, code: vec![], labels: 0, fuel: 0, printable: true, script: vec![] };
    let mut body = vec![];
    for s in stmts {
        g.script = s.iter().rev().copied().collect();
        let t = g.expr();
        assert!(g.script.is_empty());
        body.push(t);
    }
    g.op(0, &[]);
    let (items, labels) = (std::mem::take(&mut g.code), g.labels);
    let code = assemble(&items, labels).unwrap();
    let f = w.pool.function_mut(PoolIndex::new(w.me)).unwrap();
    f.flags.set_has_body(true);
    f.code = Code::new(code.iter().map(|(o, a)| make(*o, a)).collect::<Vec<Instr<Offset>>>());
    let tree = node("seq", body);
    (w, tree)
}

/// every construct with every other one in each of its places, operators one by one
fn nestings(c: &mut Ctx) {
    let all: Vec<Force> = (0..BINOPS.len()).map(Force::Bin).chain((0..UNOPS.len()).map(Force::Un))
        .chain([Force::Member, Force::Index, Force::As, Force::Cond, Force::Call, Force::Method, Force::Make, Force::Leaf]).collect();
    let put = |outer: Force, at: usize, inner: &[Force]| -> Vec<Force> {
        let mut v = vec![outer];
        for k in 0..outer.width() {
            if k == at { v.extend(inner) } else { v.push(Force::Leaf) }
        }
        v
    };
    let filled = |f: Force| put(f, 99, &[]);
    for &outer in &all {
        let mut stmts = vec![];
        for at in 0..outer.width() {
            for &inner in &all {
                stmts.push(put(outer, at, &filled(inner)));
            }
        }
        for s in stmts.chunks(4) {
            let (w, t) = scripted(c, s);
            printed(c, &w, &t);
        }
    }
    // three deep
    for _ in 0..c.n(400) {
        let stmts: Vec<Vec<Force>> = (0..3).map(|_| {
            let (a, b, d) = (*c.rng.pick(&all), *c.rng.pick(&all), *c.rng.pick(&all));
            let (i, j) = (c.rng.below(a.width().max(1) as u64) as usize, c.rng.below(b.width().max(1) as u64) as usize);
            put(a, i, &put(b, j, &filled(d)))
        }).collect();
        let (w, t) = scripted(c, &stmts);
        printed(c, &w, &t);
    }
}

pub fn print(c: &mut Ctx) {
    for n in 0..c.n(1500) {
        let Some((w, _, want)) = program(c, n, n % 3 == 2, true) else { continue };
        printed(c, &w, &want);
    }
    nestings(c);
}

// ------------------------------------------------------------------ C15: declarations

const PUNCT: &[&str] = &["\"", "\\", "a\"b", "c\\n", "\n", "\t", "'", "\u{e9}", " ", "{}", ",", ")", "//", "$"];

fn some_text(c: &mut Ctx) -> String {
    let mut s = c.rng.word(4);
    if c.rng.below(3) == 0 {
        s.push_str(*c.rng.pick::<&str>(PUNCT));
        s.push_str(&c.rng.word(2));
    }
    s
}

fn vis(c: &mut Ctx) -> (Visibility, &'static str) {
    match c.rng.below(3) {
        0 => (Visibility::Public, "public"),
        1 => (Visibility::Protected, "protected"),
        _ => (Visibility::Private, "private"),
    }
}

fn flags_of(c: &mut Ctx, names: &[&'static str]) -> Vec<(&'static str, bool)> {
    let p = 1 + c.rng.below(4);
    names.iter().map(|n| (*n, c.rng.below(4) < p)).collect()
}

fn on(v: &[(&'static str, bool)], n: &str) -> bool {
    v.iter().any(|(m, b)| *m == n && *b)
}

fn a_type(c: &mut Ctx, w: &mut World, depth: u64) -> (u32, String) {
    if depth == 0 || c.rng.below(3) == 0 {
        let (i, t) = w.types[[0usize, 1, 7][c.rng.below(3) as usize]].clone();
        return (i, t);
    }
    let (i, t) = a_type(c, w, depth - 1);
    let at = PoolIndex::<Type>::new(i);
    let n = w.pool.names.add(format!("t{}", c.rng.word(6)).into());
    let size = match c.rng.below(3) { 0 => c.rng.below(5) as u32, 1 => u32::MAX - c.rng.below(2) as u32, _ => c.rng.below(100_000) as u32 };
    let (ty, text) = match c.rng.below(5) {
        0 => (Type::Ref(at), format!("ref<{t}>")),
        1 => (Type::WeakRef(at), format!("wref<{t}>")),
        2 => (Type::Array(at), format!("array<{t}>")),
        3 => (Type::StaticArray(at, size), format!("array<{t}; {size}>")),
        _ => (Type::ScriptRef(at), format!("script_ref<{t}>")),
    };
    let i: PoolIndex<Type> = w.pool.add_definition(Definition::type_(n, ty));
    (i.into(), text)
}

/// a function, with the declaration its text has to read as
fn a_function(c: &mut Ctx, w: &mut World, parent: PoolIndex<Class>) -> (PoolIndex<Function>, Decl) {
    let mut d = Decl { kind: "func".into(), ..Decl::default() };
    let (visibility, v) = vis(c);
    let fl = flags_of(c, &["final", "static", "native", "exec", "const", "quest", "cb"]);
    d.quals.push(v.into());
    d.quals.extend(fl.iter().filter(|f| f.1).map(|f| f.0.to_string()));
    d.name = format!("f_{}", c.rng.word(5));
    let full = match c.rng.below(3) { 0 => d.name.clone(), 1 => format!("{};Int32", d.name), _ => format!("{};Int32;{}", d.name, c.rng.word(3)) };
    let ni = w.pool.names.add(full.as_str().into());
    let flags = FunctionFlags::new().with_is_final(on(&fl, "final")).with_is_static(on(&fl, "static")).with_is_native(on(&fl, "native")).with_is_exec(on(&fl, "exec"))
        .with_is_const(on(&fl, "const")).with_is_quest(on(&fl, "quest")).with_is_callback(on(&fl, "cb"))
        .with_is_timer(c.rng.bool()).with_is_thread_safe(c.rng.bool()).with_unk1(c.rng.bool());
    let mut f = fun(flags);
    f.visibility = visibility;
    d.type_ = Some("Void".into());
    if c.rng.bool() {
        let (t, s) = a_type(c, w, 3);
        f.return_type = Some(PoolIndex::new(t));
        d.type_ = Some(s);
    }
    let me: PoolIndex<Function> = w.pool.add_definition(Definition::function(ni, parent, f));
    let mut params = vec![];
    for _ in 0..c.rng.below(5) {
        let q = flags_of(c, &["const", "out", "opt"]);
        let n = format!("p_{}", c.rng.word(4));
        let (t, s) = a_type(c, w, 2);
        let ni = w.pool.names.add(n.as_str().into());
        let p = Parameter { type_: PoolIndex::new(t), flags: ParameterFlags::new().with_is_const(on(&q, "const")).with_is_out(on(&q, "out")).with_is_optional(on(&q, "opt")).with_is_short_circuit(c.rng.bool()) };
        let i: PoolIndex<Parameter> = w.pool.add_definition(Definition::param(ni, me, p));
        params.push(i);
        d.params.push((q.iter().filter(|f| f.1).map(|f| f.0.to_string()).collect(), n, s));
    }
    w.pool.function_mut(me).unwrap().parameters = params;
    // a body, sometimes one without statements
    if c.rng.below(3) > 0 {
        let mut body = vec![];
        let mut code = vec![];
        let mut locals = vec![];
        for _ in 0..c.rng.below(3) {
            let n = format!("v_{}", c.rng.word(4));
            let (t, s) = c.rng.pick(&w.types).clone();
            let ni = w.pool.names.add(n.as_str().into());
            let i: PoolIndex<Local> = w.pool.add_definition(Definition::local(ni, me, Local::new(PoolIndex::new(t), LocalFlags::new())));
            locals.push(i);
            body.push((n, s));
        }
        body.sort();
        body.dedup_by(|a, b| a.0 == b.0);
        let mut body: Vec<T> = body.into_iter().map(|(n, s)| leaf(format!("let {n}: {s}"))).collect();
        if locals.len() != body.len() {
            locals.clear();
            body.clear();
        }
        if c.rng.bool() {
            let k = c.rng.below(100) as i32;
            code.push(Instr::Return);
            code.push(Instr::I32Const(k));
            body.push(node("return", vec![leaf(format!("i32:{k}"))]));
        }
        code.push(Instr::Nop);
        let f = w.pool.function_mut(me).unwrap();
        f.locals = locals;
        f.flags.set_has_body(true);
        f.code = Code::new(code);
        d.body = Some(node("seq", body));
    }
    (me, d)
}

fn a_field(c: &mut Ctx, w: &mut World, parent: PoolIndex<Class>) -> (PoolIndex<Field>, Decl) {
    let mut d = Decl { kind: "let".into(), ..Decl::default() };
    let (visibility, v) = vis(c);
    let fl = flags_of(c, &["inline", "replicated", "edit", "native", "persistent", "const"]);
    d.quals.push(v.into());
    d.quals.extend(fl.iter().filter(|f| f.1).map(|f| f.0.to_string()));
    d.name = format!("m_{}", c.rng.word(5));
    let (t, s) = a_type(c, w, 3);
    d.type_ = Some(s);
    let ni = w.pool.names.add(d.name.as_str().into());
    let mut attributes = vec![];
    for _ in 0..c.rng.below(3) {
        let (a, b) = (some_text(c), some_text(c));
        d.notes.push(("runtimeProperty".into(), vec![format!("{a:?}"), format!("{b:?}")]));
        attributes.push(Property { name: a, value: b });
    }
    let mut defaults = vec![];
    for _ in 0..c.rng.below(3) {
        let (a, b) = (c.rng.word(4), c.rng.word(4));
        d.notes.push(("default".into(), vec![a.clone(), b.clone()]));
        defaults.push(Property { name: a, value: b });
    }
    let flags = FieldFlags::new().with_is_inline(on(&fl, "inline")).with_is_replicated(on(&fl, "replicated")).with_is_editable(on(&fl, "edit")).with_is_native(on(&fl, "native"))
        .with_is_persistent(on(&fl, "persistent")).with_is_const(on(&fl, "const")).with_has_hint(c.rng.bool()).with_is_instance_editable(c.rng.bool()).with_has_default(c.rng.bool())
        .with_is_test_only(c.rng.bool()).with_is_browsable(c.rng.bool());
    let f = Field { visibility, type_: PoolIndex::new(t), flags, hint: None, attributes, defaults };
    let i: PoolIndex<Field> = w.pool.add_definition(Definition::field(ni, parent, f));
    (i, d)
}

fn a_class(c: &mut Ctx, w: &mut World) -> (u32, Decl) {
    let mut d = Decl::default();
    let (visibility, v) = vis(c);
    let fl = flags_of(c, &["abstract", "final", "importonly", "native", "struct"]);
    d.quals.push(v.into());
    d.quals.extend(["abstract", "final"].iter().filter(|f| on(&fl, f)).map(|f| f.to_string()));
    if on(&fl, "importonly") {
        d.quals.push("importonly".into());
    } else if on(&fl, "native") {
        d.quals.push("native".into());
    }
    d.kind = if on(&fl, "struct") { "struct" } else { "class" }.into();
    d.name = format!("C_{}", c.rng.word(5));
    let ni = w.pool.names.add(d.name.as_str().into());
    let flags = ClassFlags::new().with_is_abstract(on(&fl, "abstract")).with_is_final(on(&fl, "final")).with_is_import_only(on(&fl, "importonly")).with_is_native(on(&fl, "native"))
        .with_is_struct(on(&fl, "struct")).with_has_functions(c.rng.bool()).with_has_fields(c.rng.bool()).with_is_test_only(c.rng.bool());
    let mut base = PoolIndex::UNDEFINED;
    if c.rng.bool() {
        let (i, n) = c.rng.pick(&w.classes).clone();
        base = PoolIndex::new(i);
        d.base = Some(n);
    }
    let ci: PoolIndex<Class> = w.pool.add_definition(Definition::class(ni, Class { visibility, flags, base, functions: vec![], fields: vec![], overrides: vec![] }));
    let (mut fields, mut functions) = (vec![], vec![]);
    for _ in 0..c.rng.below(4) {
        let (i, m) = a_field(c, w, ci);
        fields.push(i);
        d.members.push(m);
    }
    for _ in 0..c.rng.below(4) {
        let (i, m) = a_function(c, w, ci);
        functions.push(i);
        d.members.push(m);
    }
    let k = w.pool.class_mut(ci).unwrap();
    k.fields = fields;
    k.functions = functions;
    (ci.into(), d)
}

fn an_enum(c: &mut Ctx, w: &mut World) -> (u32, Decl) {
    let mut d = Decl { kind: "enum".into(), name: format!("E_{}", c.rng.word(5)), ..Decl::default() };
    let ni = w.pool.names.add(d.name.as_str().into());
    let ei: PoolIndex<Enum> = w.pool.add_definition(Definition::enum_(ni, Enum { flags: c.rng.below(4) as u8, size: 4, members: vec![], unk1: c.rng.bool() }));
    let mut ms = vec![];
    for _ in 0..c.rng.below(5) {
        let n = format!("e_{}", c.rng.word(4));
        let v = c.rng.edgy() as i64;
        let ni = w.pool.names.add(n.as_str().into());
        let i: PoolIndex<i64> = w.pool.add_definition(Definition::enum_value(ni, ei, v));
        ms.push(i);
        d.values.push((n, v));
    }
    w.pool.put_definition(ei, Definition::enum_(ni, Enum { flags: 0, size: 4, members: ms, unk1: false }));
    (ei.into(), d)
}

fn decl_differs(a: &Decl, b: &Decl) -> Option<String> {
    let show = |d: &Decl| format!("notes {:?} quals {:?} {} {} type {:?} params {:?} values {:?} base {:?}", d.notes, d.quals, d.kind, d.name, d.type_, d.params, d.values, d.base);
    let (x, y) = (show(a), show(b));
    if x != y {
        return Some(format!("reads as [{x}] where [{y}] is expected"));
    }
    if a.body != b.body {
        return Some(format!("{} {}: the body reads as {:?} where {:?} is expected", a.kind, a.name, a.body, b.body));
    }
    if a.members.len() != b.members.len() {
        return Some(format!("{} {}: {} members where {} are expected", a.kind, a.name, a.members.len(), b.members.len()));
    }
    a.members.iter().zip(&b.members).find_map(|(x, y)| decl_differs(x, y))
}

pub fn declare(c: &mut Ctx) {
    for n in 0..c.n(300) {
        listing(c, n);
    }
    for n in 0..c.n(700) {
        let mut w = world(c);
        let (i, want) = match n % 4 {
            0 => an_enum(c, &mut w),
            1 => { let (i, d) = a_function(c, &mut w, PoolIndex::UNDEFINED); (i.into(), d) }
            2 => { let p = PoolIndex::new(w.classes[0].0); let (i, d) = a_field(c, &mut w, p); (i.into(), d) }
            _ => a_class(c, &mut w),
        };
        let verbose = c.rng.bool();
        let depth = c.rng.below(3) as usize;
        let input = format!("{} {} {} at depth {depth}: {:?} params {:?} values {:?} {} members", want.quals.join(" "), want.kind, want.name, want.notes, want.params, want.values, want.members.len());
        let r = c.case("declare", &input, || {
            let mut o = vec![];
            let at = PoolIndex::<Definition>::new(i);
            write_definition(&mut o, w.pool.definition(at).unwrap(), &w.pool, depth, OutputMode::Code { verbose }).map_err(|e| e.to_string())?;
            Ok::<_, String>(String::from_utf8(o).unwrap())
        });
        match r {
            Some(Ok(s)) => {
                let mut p = P::new(&s);
                match p.decl() {
                    Ok(x) => {
                        let bad = decl_differs(&x, &want);
                        let whole = p.end();
                        c.check(bad.is_none() && whole, "declare", || format!("{}; the text is {s}", bad.unwrap_or("text left behind the declaration".into())));
                    }
                    Err(e) => c.fail("declare", format!("{input} is printed as {s}, which does not parse: {e}")),
                }
            }
            Some(Err(e)) => c.fail("declare", format!("{input}: {e}")),
            None => (),
        }
        // a reference to an entry that is not there is an error, and in a method it costs only the method
        if n % 4 == 3 {
            broken(c, &mut w, PoolIndex::new(i), &want, verbose);
        } else if n % 4 == 1 {
            broken_function(c, &mut w, PoolIndex::new(i));
        } else if n % 4 == 2 {
            let bad = absent(c);
            w.pool.field_mut(PoolIndex::new(i)).unwrap().type_ = PoolIndex::new(bad);
            refused(c, &w, i, "the type of a field");
        }
    }
}

/// the instructions of a body, each with its position, behind the locals
fn listing(c: &mut Ctx, n: u64) {
    let Some((mut w, code, _)) = program(c, n, n % 2 == 0, false) else { return };
    let me = PoolIndex::<Function>::new(w.me);
    let mut want = vec![];
    let locals = w.pool.function(me).unwrap().locals.clone();
    for (i, l) in locals.iter().zip(&w.locals) {
        let constant = c.rng.below(3) == 0;
        let ty = w.pool.local(*i).unwrap().type_;
        let name = w.pool.names.add(l.1.as_str().into());
        w.pool.put_definition(*i, Definition::local(name, me, Local::new(ty, LocalFlags::new().with_is_const(constant))));
        want.push(format!("{} {}: {};", if constant { "const" } else { "let" }, l.1, shape_of(&w, ty)));
    }
    let mut pos = 0;
    for (o, a) in &code {
        let i: Instr<Offset> = make(*o, a);
        want.push(format!("{pos}: {}", format!("{i:?}").to_lowercase()));
        pos += size_of(*o, &[0]);
    }
    let depth = c.rng.below(3) as usize;
    let input = show(&code);
    let r = c.case("declare/listing", &input, || {
        let mut o = vec![];
        write_definition(&mut o, w.pool.definition(me).unwrap(), &w.pool, depth, OutputMode::Bytecode).map_err(|e| e.to_string())?;
        Ok::<_, String>(String::from_utf8(o).unwrap())
    });
    match r {
        Some(Ok(s)) => {
            let mut lines = s.lines().map(str::trim).filter(|l| !l.is_empty());
            let head = lines.next().unwrap_or("");
            let mut got: Vec<&str> = lines.collect();
            let end = got.pop().unwrap_or("");
            c.check(head.ends_with('{') && head.contains("func Main") && end == "}" && got == want, "declare/listing", || format!("the body {input} with locals {:?} is listed as {s}", w.locals));
        }
        Some(Err(e)) => c.fail("declare/listing", format!("{input}: {e}")),
        None => (),
    }
}

/// how a type is spelled from its structure
fn shape_of(w: &World, t: PoolIndex<Type>) -> String {
    let d = w.pool.definition(t).unwrap();
    match &d.value {
        AnyDefinition::Type(Type::Ref(x)) => format!("ref<{}>", shape_of(w, *x)),
        AnyDefinition::Type(Type::WeakRef(x)) => format!("wref<{}>", shape_of(w, *x)),
        AnyDefinition::Type(Type::Array(x)) => format!("array<{}>", shape_of(w, *x)),
        AnyDefinition::Type(Type::ScriptRef(x)) => format!("script_ref<{}>", shape_of(w, *x)),
        AnyDefinition::Type(Type::StaticArray(x, n)) => format!("array<{}; {n}>", shape_of(w, *x)),
        _ => w.pool.names.get(d.name).unwrap().to_string(),
    }
}

fn absent(c: &mut Ctx) -> u32 {
    1_000_000 + c.rng.below(1000) as u32
}

fn refused(c: &mut Ctx, w: &World, i: u32, what: &str) {
    let r = c.case("declare/missing", what, || {
        let mut o = vec![];
        write_definition(&mut o, w.pool.definition(PoolIndex::<Definition>::new(i)).unwrap(), &w.pool, 0, OutputMode::Code { verbose: false }).map(|_| String::from_utf8_lossy(&o).into_owned()).ok()
    });
    if let Some(Some(s)) = r {
        c.fail("declare/missing", format!("{what} refers to an entry that does not exist and is printed as {s}"));
    }
}

fn broken_function(c: &mut Ctx, w: &mut World, i: PoolIndex<Function>) {
    let bad = absent(c);
    let what = match c.rng.below(4) {
        0 => { w.pool.function_mut(i).unwrap().return_type = Some(PoolIndex::new(bad)); "the return type of a function" }
        1 => { w.pool.function_mut(i).unwrap().parameters.push(PoolIndex::new(bad)); "a parameter of a function" }
        2 => {
            let n = w.pool.names.add("p_bad".into());
            let p = Parameter { type_: PoolIndex::new(bad), flags: ParameterFlags::new() };
            let k: PoolIndex<Parameter> = w.pool.add_definition(Definition::param(n, i, p));
            w.pool.function_mut(i).unwrap().parameters.push(k);
            "the type of a parameter"
        }
        _ => {
            let n = w.pool.names.add("t_bad".into());
            let k: PoolIndex<Type> = w.pool.add_definition(Definition::type_(n, Type::Array(PoolIndex::new(bad))));
            w.pool.function_mut(i).unwrap().return_type = Some(k);
            "the element of a returned array type"
        }
    };
    refused(c, w, i.into(), what);
}

fn broken(c: &mut Ctx, w: &mut World, i: PoolIndex<Class>, want: &Decl, verbose: bool) {
    let fs = w.pool.class(i).unwrap().functions.clone();
    match c.rng.below(3) {
        0 => {
            let bad = absent(c);
            w.pool.class_mut(i).unwrap().base = PoolIndex::new(bad);
            refused(c, w, i.into(), "the base of a class");
        }
        1 => {
            let bad = absent(c);
            w.pool.class_mut(i).unwrap().fields.push(PoolIndex::new(bad));
            refused(c, w, i.into(), "a field of a class");
        }
        // a method whose parameter is missing: the fields and the other methods are still there
        _ if !fs.is_empty() => {
            let k = c.rng.below(fs.len() as u64) as usize;
            let bad = absent(c);
            w.pool.function_mut(fs[k]).unwrap().parameters.push(PoolIndex::new(bad));
            let input = format!("class {} with a broken method {}", want.name, k);
            let r = c.case("declare/method", &input, || {
                let mut o = vec![];
                write_definition(&mut o, w.pool.definition(i).unwrap(), &w.pool, 0, OutputMode::Code { verbose }).map_err(|e| e.to_string())?;
                Ok::<_, String>(String::from_utf8(o).unwrap())
            });
            match r {
                Some(Ok(s)) => {
                    let all: Vec<&Decl> = want.members.iter().collect();
                    let lost = all[all.len() - fs.len() + k].name.clone();
                    for m in all {
                        let head = format!("{} {}", m.kind, m.name);
                        let seen = s.lines().filter(|l| l.contains(&format!("{head}(")) || l.contains(&format!("{head}:"))).count();
                        let want = want.members.iter().filter(|x| x.name == m.name && x.kind == m.kind).count();
                        c.check(seen == want || m.name == lost, "declare/method", || format!("{input}: {head} is printed {seen} times, {want} expected: {s}"));
                    }
                    c.check(s.trim_end().ends_with('}'), "declare/method", || format!("{input}: the class is left open: {s}"));
                }
                Some(Err(e)) => c.fail("declare/method", format!("{input}: the whole class is refused: {e}")),
                None => (),
            }
        }
        _ => (),
    }
}
