//! Code generation: what the assembler makes of a body against a compiler of
//! its own (no labels: the code of a part is laid out from the code of its
//! parts, with distances counted in bytes).
use std::collections::HashMap;
use std::path::PathBuf;

use redscript::ast::*;
use redscript::bundle::{ConstantPool, PoolIndex};
use redscript::bytecode::{Instr, IntrinsicOp, Location, Offset};
use redscript::definition::*;

use crate::assembler::Assembler;
use crate::scope::{Reference, Scope, TypeId, Value};
use crate::source_map::Files;
use crate::symbol::Symbol;
use crate::typechecker::{Callable, Member, TypedAst};
use crate::util::*;

type E = Expr<TypedAst>;
type I = Instr<Offset>;

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Ty {
    Prim(&'static str),
    Cl(usize),
    St(usize),
    En(usize),
    Ref(Box<Ty>),
    Weak(Box<Ty>),
    Array(Box<Ty>),
    Fixed(Box<Ty>, u32),
    Script(Box<Ty>),
    Variant,
    Null,
    Void,
}
use Ty::*;

/// one instruction of the expected code
#[derive(Debug, Clone)]
pub struct X {
    i: I,
    name: Option<String>,
    brk: bool,
}

fn x(i: I) -> X {
    X { i, name: None, brk: false }
}
fn xn(i: I, name: String) -> X {
    X { i, name: Some(name), brk: false }
}
fn len(c: &[X]) -> i32 {
    c.iter().map(|x| x.i.size() as i32).sum()
}
fn off(n: i32) -> Offset {
    Offset::new(i16::try_from(n).expect("body too long"))
}
/// breaks inside `code`, which starts at `at`, lead to `end`
fn bind(code: &mut [X], at: i32, end: i32) {
    let mut p = at;
    for x in code {
        if x.brk {
            x.i = Instr::Jump(off(end - p));
            x.brk = false;
        }
        p += x.i.size() as i32;
    }
}

/// an expression, what it is known to compile to (None: refused) and its type
pub struct B {
    e: E,
    code: Option<Vec<X>>,
    ty: Option<Ty>,
    prvalue: bool,
    empty: bool,
}

pub struct W {
    pub pool: ConstantPool,
    types: HashMap<Ty, PoolIndex<Type>>,
    pub classes: Vec<(PoolIndex<Class>, &'static str, Option<usize>)>,
    structs: Vec<(PoolIndex<Class>, &'static str)>,
    enums: Vec<(PoolIndex<Enum>, &'static str, Vec<PoolIndex<i64>>)>,
    this: Option<usize>,
    files: Files,
    srcs: Vec<(usize, String)>,
    count: usize,
    text: String,
}

const PRIMS: &[&str] = &[
    "Bool", "Int8", "Int16", "Int32", "Int64", "Uint8", "Uint16", "Uint32", "Uint64", "Float", "Double", "String", "CName", "ResRef", "TweakDBID",
    "Unknown",
];

fn cls(base: PoolIndex<Class>, s: bool) -> Class {
    Class { visibility: Visibility::Public, flags: ClassFlags::new().with_is_struct(s), base, functions: vec![], fields: vec![], overrides: vec![] }
}

impl W {
    pub fn new(c: &mut Ctx) -> W {
        let mut w = W {
            pool: ConstantPool::default(),
            types: HashMap::new(),
            classes: vec![],
            structs: vec![],
            enums: vec![],
            this: None,
            files: Files::new(),
            srcs: vec![],
            count: 0,
            text: String::new(),
        };
        // the definition at 0 stands for "none"
        w.pool.names.add("<first>".into());
        w.pool.strings.add("<first>".into());
        w.pool.resources.add("<first>".into());
        w.pool.tweakdb_ids.add("<first>".into());
        w.pool.add_definition::<Type>(Definition::DEFAULT);
        let nm = w.pool.names.add("Base".into());
        let b = w.pool.add_definition(Definition::class(nm, cls(PoolIndex::UNDEFINED, false)));
        w.classes.push((b, "Base", None));
        let nm = w.pool.names.add("Mod.Sub".into());
        let k = w.pool.add_definition(Definition::class(nm, cls(b, false)));
        w.classes.push((k, "Mod.Sub", Some(0)));
        let nm = w.pool.names.add("Lone".into());
        let k = w.pool.add_definition(Definition::class(nm, cls(PoolIndex::UNDEFINED, false)));
        w.classes.push((k, "Lone", None));
        for n in ["Pair", "Mod.Triple"] {
            let nm = w.pool.names.add(n.into());
            let k = w.pool.add_definition(Definition::class(nm, cls(PoolIndex::UNDEFINED, true)));
            w.structs.push((k, n));
        }
        for (n, k) in [("Mode", 3), ("Void_", 0)] {
            let nm = w.pool.names.add(n.into());
            let en = Enum { flags: 0, size: 4, members: vec![], unk1: false };
            let e: PoolIndex<Enum> = w.pool.add_definition(Definition::enum_(nm, en));
            let mut ms = vec![];
            for m in 0..k {
                let mn = w.pool.names.add(format!("{n}{m}").into());
                ms.push(w.pool.add_definition(Definition::enum_value(mn, e, 10 - m)));
            }
            w.pool.put_definition(e, Definition::enum_(nm, Enum { flags: 0, size: 4, members: ms.clone(), unk1: false }));
            w.enums.push((e, n, ms));
        }
        for p in PRIMS {
            w.ty(&Prim(p));
        }
        w.ty(&Variant);
        // the type a null is taken for
        let nm = w.pool.names.add("IScriptable".into());
        let k: PoolIndex<Type> = w.pool.add_definition(Definition::type_(nm, Type::Class));
        let nm = w.pool.names.add("ref:IScriptable".into());
        w.pool.add_definition::<Type>(Definition::type_(nm, Type::Ref(k)));
        w.this = if c.rng.below(4) == 0 { None } else { Some(c.rng.below(3) as usize) };
        let mut at = 0;
        for f in 0..1 + c.rng.below(3) {
            let mut s = String::new();
            let lines = if c.rng.below(40) == 0 { 66_000 } else { c.rng.below(12) };
            for _ in 0..lines {
                if lines < 100 {
                    s.push_str(&c.rng.word(6));
                    if c.rng.below(3) == 0 {
                        s.push_str("\u{e9}\u{1f600}");
                    }
                }
                s.push_str(if c.rng.below(5) == 0 && lines < 100 { "\r\n" } else { "\n" });
            }
            if c.rng.bool() {
                s.push_str(&c.rng.word(6));
            }
            w.files.add(PathBuf::from(format!("f{f}.reds")), s.clone());
            w.srcs.push((at, s.clone()));
            at += s.len() + 1;
        }
        w
    }

    fn name(&self, t: &Ty) -> String {
        match t {
            Prim(p) => p.to_string(),
            Cl(k) => self.classes[*k].1.to_string(),
            St(k) => self.structs[*k].1.to_string(),
            En(k) => self.enums[*k].1.to_string(),
            Ref(t) => format!("ref:{}", self.name(t)),
            Weak(t) => format!("wref:{}", self.name(t)),
            Array(t) => format!("array:{}", self.name(t)),
            Fixed(t, n) => format!("{}[{n}]", self.name(t)),
            Script(t) => format!("script_ref:{}", self.name(t)),
            Variant => "Variant".into(),
            Null => "ref:IScriptable".into(),
            Void => unreachable!(),
        }
    }

    fn ty(&mut self, t: &Ty) -> PoolIndex<Type> {
        if let Some(i) = self.types.get(t) {
            return *i;
        }
        let v = match t {
            Prim(_) | Variant => Type::Prim,
            Cl(_) | St(_) | En(_) => Type::Class,
            Ref(t) => Type::Ref(self.ty(t)),
            Weak(t) => Type::WeakRef(self.ty(t)),
            Array(t) => Type::Array(self.ty(t)),
            Fixed(t, n) => Type::StaticArray(self.ty(t), *n),
            Script(t) => Type::ScriptRef(self.ty(t)),
            Null | Void => unreachable!(),
        };
        let n = self.pool.names.add(self.name(t).into());
        let i = self.pool.add_definition(Definition::type_(n, v));
        self.types.insert(t.clone(), i);
        i
    }

    fn id(&self, t: &Ty) -> TypeId {
        match t {
            Prim(_) => TypeId::Prim(self.types[t]),
            Cl(k) => TypeId::Class(self.classes[*k].0),
            St(k) => TypeId::Struct(self.structs[*k].0),
            En(k) => TypeId::Enum(self.enums[*k].0),
            Ref(t) => TypeId::Ref(Box::new(self.id(t))),
            Weak(t) => TypeId::WeakRef(Box::new(self.id(t))),
            Array(t) => TypeId::Array(Box::new(self.id(t))),
            Fixed(t, n) => TypeId::StaticArray(Box::new(self.id(t)), *n),
            Script(t) => TypeId::ScriptRef(Box::new(self.id(t))),
            Variant => TypeId::Variant,
            Null => TypeId::Null,
            Void => TypeId::Void,
        }
    }

    fn fresh(&mut self, p: &str) -> PoolIndex<redscript::bundle::CName> {
        self.count += 1;
        self.pool.names.add(format!("{p}{}", self.count).into())
    }

    fn local(&mut self, t: &Ty) -> PoolIndex<Local> {
        let (n, ty) = (self.fresh("l"), self.ty(t));
        self.pool.add_definition(Definition::local(n, PoolIndex::UNDEFINED, Local::new(ty, LocalFlags::new())))
    }

    fn param(&mut self, t: &Ty, short: bool) -> PoolIndex<Parameter> {
        let (n, ty) = (self.fresh("p"), self.ty(t));
        let p = Parameter { type_: ty, flags: ParameterFlags::new().with_is_short_circuit(short) };
        self.pool.add_definition(Definition::param(n, PoolIndex::UNDEFINED, p))
    }

    fn field(&mut self, t: &Ty) -> PoolIndex<Field> {
        let (n, ty) = (self.fresh("f"), self.ty(t));
        let f = Field { visibility: Visibility::Public, type_: ty, flags: FieldFlags::new(), hint: None, attributes: vec![], defaults: vec![] };
        self.pool.add_definition(Definition::field(n, PoolIndex::UNDEFINED, f))
    }

    /// a span of some file and the number of the line it starts on
    fn span(&mut self, c: &mut Ctx) -> (Span, u16) {
        if c.rng.below(8) == 0 {
            let (at, s) = self.srcs.last().unwrap();
            let p = at + s.len() + 1 + c.rng.below(20) as usize;
            return (Span::new(Pos::new(p), Pos::new(p + 1)), 0);
        }
        let (at, s) = c.rng.pick(&self.srcs).clone();
        let mut cut = |lo: usize| {
            let mut k = lo + c.rng.below((s.len() - lo + 1) as u64) as usize;
            while !s.is_char_boundary(k) {
                k += 1;
            }
            k
        };
        let lo = cut(0);
        let hi = cut(lo);
        let line = s.as_bytes()[..lo].iter().filter(|b| **b == b'\n').count();
        (Span::new(Pos::new(at + lo), Pos::new(at + hi)), u16::try_from(line).unwrap_or(0))
    }

    fn boom(&mut self, e: E, ty: Option<Ty>) -> B {
        B { e, code: None, ty, prvalue: true, empty: false }
    }

    fn val(e: E, code: Vec<X>, ty: Ty, prvalue: bool) -> B {
        B { e, code: Some(code), ty: Some(ty), prvalue, empty: false }
    }

    fn any_ty(&mut self, c: &mut Ctx, d: u32) -> Ty {
        match c.rng.below(if d == 0 { 5 } else { 11 }) {
            0 | 1 => Prim(*c.rng.pick(PRIMS)),
            2 => St(c.rng.below(2) as usize),
            3 => En(c.rng.below(2) as usize),
            4 => Variant,
            5 => Ref(Box::new(Cl(c.rng.below(3) as usize))),
            6 => Weak(Box::new(Cl(c.rng.below(3) as usize))),
            7 | 8 => Array(Box::new(self.any_ty(c, d - 1))),
            9 => Fixed(Box::new(self.any_ty(c, d - 1)), 1 + c.rng.below(9) as u32),
            _ => Script(Box::new(self.any_ty(c, d - 1))),
        }
    }

    fn intrinsic(&mut self, op: IntrinsicOp, head: Option<X>, args: Vec<B>, ret: Ty) -> B {
        let prvalue = !matches!(op, IntrinsicOp::Deref);
        let mut code = head.map(|h| vec![h]);
        let mut es = vec![];
        for a in args {
            code = code.zip(a.code).map(|(mut x, y)| {
                x.extend(y);
                x
            });
            es.push(a.e);
        }
        let e = Expr::Call(Callable::Intrinsic(op, self.id(&ret)), Box::new([]), es.into_boxed_slice(), Span::ZERO);
        B { e, code, ty: Some(ret), prvalue, empty: false }
    }

    /// an instruction that names the type of an argument
    fn typed(&mut self, i: fn(PoolIndex<Type>) -> I, t: &Option<Ty>) -> Option<X> {
        match t {
            None | Some(Void) => None,
            Some(t) => Some(xn(i(PoolIndex::UNDEFINED), self.name(t))),
        }
    }

    /// flags, arguments and the part of the code they make
    fn call(&mut self, c: &mut Ctx, d: u32, ret: Option<&Ty>, stat: bool, forced: bool) -> (PoolIndex<Function>, Vec<E>, Option<Vec<X>>, Span) {
        let n = if c.rng.below(30) == 0 { 16 } else { c.rng.below(5) } as usize;
        let mut params = vec![];
        let mut tys = vec![];
        for _ in 0..n {
            let t = self.any_ty(c, 1);
            let short = c.rng.below(4) == 0;
            params.push((self.param(&t, short), short));
            tys.push(t);
        }
        let flags = FunctionFlags::new().with_is_static(stat).with_is_final(c.rng.below(3) == 0).with_is_native(c.rng.below(4) == 0);
        let virt = !forced && !stat && !flags.is_final() && !flags.is_native();
        let nm = self.fresh("fn");
        let return_type = ret.filter(|t| **t != Void).map(|t| self.ty(t));
        let f = Function {
            visibility: Visibility::Public,
            flags,
            source: None,
            return_type,
            unk1: false,
            base_method: None,
            parameters: params.iter().map(|p| p.0).collect(),
            locals: vec![],
            operator: None,
            cast: 0,
            code: redscript::bytecode::Code::EMPTY,
            unk2: vec![],
        };
        let fi: PoolIndex<Function> = self.pool.add_definition(Definition::function(nm, PoolIndex::UNDEFINED, f));
        let m = match c.rng.below(8) {
            0 if n > 0 => n - 1,
            1 if n < 16 && c.rng.below(6) == 0 => n + 1,
            _ => n,
        };
        let mut body = Some(vec![]);
        let mut es = vec![];
        let mut inv = 0u16;
        for k in 0..m {
            let t = if k < n && c.rng.below(5) != 0 {
                tys[k].clone()
            } else if c.rng.below(5) == 0 {
                Null
            } else if c.rng.bool() {
                Script(Box::new(self.any_ty(c, 1)))
            } else {
                self.any_ty(c, 1)
            };
            let a = self.expr(c, &t, d);
            if let Some(Script(_)) = a.ty {
                let temp = match &a.e {
                    Expr::Call(Callable::Intrinsic(IntrinsicOp::AsRef, _), _, _, _) => a.prvalue_of_ref(),
                    _ => true,
                };
                if temp {
                    inv |= 1 << k;
                }
            }
            es.push(a.e);
            body = body.zip(a.code).map(|(mut b, mut a)| {
                if k < n && params[k].1 {
                    let l = 3 + len(&a);
                    a.insert(0, x(Instr::Skip(off(l))));
                }
                b.extend(a);
                b
            });
        }
        let (span, line) = self.span(c);
        let code = if m > n { None } else { body }.map(|mut b| {
            for _ in m..n {
                b.push(x(Instr::Nop));
            }
            b.push(x(Instr::ParamEnd));
            let l = 15 + len(&b);
            let head = if virt { Instr::InvokeVirtual(off(l), line, nm, inv) } else { Instr::InvokeStatic(off(l), line, fi, inv) };
            b.insert(0, x(head));
            b
        });
        (fi, es, code, span)
    }

    fn method(&mut self, c: &mut Ctx, d: u32, want: &Ty) -> B {
        let sel = c.rng.below(8);
        if sel == 0 {
            // through the name of its class
            let stat = c.rng.below(4) != 0;
            let sym = if c.rng.bool() { Symbol::Class(self.classes[0].0, Visibility::Public) } else { Symbol::Struct(self.structs[0].0, Visibility::Public) };
            let (f, a, code, sp) = self.call(c, d, Some(want), stat, true);
            let who = Expr::Ident(Reference::Symbol(sym), sp);
            let code = if stat { code } else { None };
            return B { e: Expr::MethodCall(Box::new(who), f, a, sp), code, ty: Some(want.clone()), prvalue: true, empty: false };
        }
        let stat = c.rng.below(20) == 0;
        let k = c.rng.below(3) as usize;
        let who = match (self.this, sel) {
            (Some(k), 1) => Self::val(Expr::This(Span::ZERO), vec![x(Instr::This)], Ref(Box::new(Cl(k))), false),
            (Some(_), 2 | 3) => B { e: Expr::Super(Span::ZERO), code: Some(vec![x(Instr::This)]), ty: None, prvalue: false, empty: false },
            _ => self.expr(c, &Ref(Box::new(Cl(k))), d),
        };
        let forced = matches!(who.e, Expr::Super(_));
        let (f, a, code, sp) = self.call(c, d, Some(want), stat, forced);
        let code = who.code.zip(code).filter(|_| !stat).map(|(w, b)| {
            let mut r = vec![x(Instr::Context(off(3 + len(&w) + len(&b))))];
            r.extend(w);
            r.extend(b);
            r
        });
        B { e: Expr::MethodCall(Box::new(who.e), f, a, sp), code, ty: Some(want.clone()), prvalue: true, empty: false }
    }

    fn ident(&mut self, c: &mut Ctx, t: &Ty) -> B {
        if c.rng.bool() {
            let l = self.local(t);
            Self::val(Expr::Ident(Reference::Value(Value::Local(l)), Span::ZERO), vec![x(Instr::Local(l))], t.clone(), false)
        } else {
            let p = self.param(t, false);
            Self::val(Expr::Ident(Reference::Value(Value::Parameter(p)), Span::ZERO), vec![x(Instr::Param(p))], t.clone(), false)
        }
    }

    fn constant(&mut self, c: &mut Ctx, t: &Ty) -> Option<B> {
        let v = c.rng.edgy();
        let s = c.rng.text(6);
        let r = |s: &String| -> redscript::Ref<str> { s.as_str().into() };
        let (k, i) = match t {
            Prim("Bool") if v & 1 == 0 => (Constant::Bool(true), x(Instr::TrueConst)),
            Prim("Bool") => (Constant::Bool(false), x(Instr::FalseConst)),
            Prim("Int32") => (Constant::I32(v as i32), x(Instr::I32Const(v as i32))),
            Prim("Int64") => (Constant::I64(v as i64), x(Instr::I64Const(v as i64))),
            Prim("Uint32") => (Constant::U32(v as u32), x(Instr::U32Const(v as u32))),
            Prim("Uint64") => (Constant::U64(v), x(Instr::U64Const(v))),
            Prim("Float") => (Constant::F32(v as i32 as f32 / 8.), x(Instr::F32Const(v as i32 as f32 / 8.))),
            Prim("Double") => (Constant::F64(v as f64 / 8.), x(Instr::F64Const(v as f64 / 8.))),
            Prim("String") => (Constant::String(Literal::String, r(&s)), xn(Instr::StringConst(PoolIndex::UNDEFINED), s)),
            Prim("CName") => (Constant::String(Literal::Name, r(&s)), xn(Instr::NameConst(PoolIndex::UNDEFINED), s)),
            Prim("ResRef") => (Constant::String(Literal::Resource, r(&s)), xn(Instr::ResourceConst(PoolIndex::UNDEFINED), s)),
            Prim("TweakDBID") => (Constant::String(Literal::TweakDbId, r(&s)), xn(Instr::TweakDbIdConst(PoolIndex::UNDEFINED), s)),
            _ => return None,
        };
        Some(Self::val(Expr::Constant(k, Span::ZERO), vec![i], t.clone(), false))
    }

    pub fn expr(&mut self, c: &mut Ctx, want: &Ty, d: u32) -> B {
        if *want == Null {
            return Self::val(Expr::Null(Span::ZERO), vec![x(Instr::Null)], Null, true);
        }
        if *want == Void {
            return self.stmt(c, 0, false);
        }
        if c.rng.below(250) == 0 {
            return self.refused(c, d);
        }
        if d == 0 || c.rng.below(5) == 0 {
            if c.rng.bool() {
                if let Some(b) = self.constant(c, want) {
                    return b;
                }
            }
            return self.ident(c, want);
        }
        let d = d - 1;
        // what only a value of this type can be
        if c.rng.bool() {
            if let Some(b) = self.special(c, want, d) {
                return b;
            }
        }
        match c.rng.below(8) {
            0 => {
                let (p, a, b) = (self.expr(c, &Prim("Bool"), d), self.expr(c, want, d), self.expr(c, want, d));
                let code = (|| {
                    let (p, a, b) = (p.code?, a.code?, b.code?);
                    let f = 5 + len(&p) + len(&a);
                    let mut r = vec![x(Instr::Conditional(off(f), off(f + len(&b))))];
                    r.extend(p);
                    r.extend(a);
                    r.extend(b);
                    Some(r)
                })();
                let ty = if a.ty == b.ty { a.ty } else { None };
                B { e: Expr::Conditional(Box::new(p.e), Box::new(a.e), Box::new(b.e), Span::ZERO), code, ty, prvalue: true, empty: false }
            }
            1 => {
                let stat = c.rng.bool();
                let (f, a, code, sp) = self.call(c, d, Some(want), stat, false);
                B { e: Expr::Call(Callable::Function(f), Box::new([]), a.into_boxed_slice(), sp), code, ty: Some(want.clone()), prvalue: true, empty: false }
            }
            2 => self.method(c, d, want),
            3 => {
                let k = c.rng.below(3) as usize;
                let o = self.expr(c, &Ref(Box::new(Cl(k))), d);
                let f = self.field(want);
                let code = o.code.map(|o| {
                    let mut r = vec![x(Instr::Context(off(3 + len(&o) + 9)))];
                    r.extend(o);
                    r.push(x(Instr::ObjectField(f)));
                    r
                });
                B { e: Expr::Member(Box::new(o.e), Member::ClassField(f), Span::ZERO), code, ty: Some(want.clone()), prvalue: false, empty: false }
            }
            4 => {
                let o = self.expr(c, &St(0), d);
                let f = self.field(want);
                let code = o.code.map(|o| {
                    let mut r = vec![x(Instr::StructField(f))];
                    r.extend(o);
                    r
                });
                B { e: Expr::Member(Box::new(o.e), Member::StructField(f), Span::ZERO), code, ty: Some(want.clone()), prvalue: o.prvalue, empty: false }
            }
            5 => {
                let t = if c.rng.bool() { Array(Box::new(want.clone())) } else { Fixed(Box::new(want.clone()), 4) };
                let (a, i) = (self.expr(c, &t, d), self.expr(c, &Prim("Int32"), d));
                let head = match &a.ty {
                    Some(Array(_)) => self.typed(Instr::ArrayElement, &a.ty),
                    Some(Fixed(_, _)) => self.typed(Instr::StaticArrayElement, &a.ty),
                    _ => None,
                };
                let ty = match &a.ty {
                    Some(Array(t) | Fixed(t, _)) => Some((**t).clone()),
                    _ => None,
                };
                let code = (|| {
                    let mut r = vec![head?];
                    r.extend(a.code?);
                    r.extend(i.code?);
                    Some(r)
                })();
                B { e: Expr::ArrayElem(Box::new(a.e), Box::new(i.e), Span::ZERO), code, ty, prvalue: a.prvalue, empty: false }
            }
            6 => {
                let a = self.expr(c, &Script(Box::new(want.clone())), d);
                let h = self.typed(Instr::Deref, &a.ty);
                self.ty(want);
                self.intrinsic(IntrinsicOp::Deref, h, vec![a], want.clone())
            }
            _ => {
                let a = self.expr(c, &Variant, d);
                let h = self.typed(Instr::FromVariant, &Some(want.clone()));
                self.intrinsic(IntrinsicOp::FromVariant, h, vec![a], want.clone())
            }
        }
    }

    fn special(&mut self, c: &mut Ctx, want: &Ty, d: u32) -> Option<B> {
        use IntrinsicOp as O;
        let elem = self.any_ty(c, 1);
        let arr = Array(Box::new(elem.clone()));
        Some(match want {
            Prim("Bool") => match c.rng.below(7) {
                0 | 1 => {
                    let (a, b) = (self.expr(c, &elem, d), self.expr(c, &elem, d));
                    let eq = c.rng.bool();
                    let h = self.typed(if eq { Instr::Equals } else { Instr::NotEquals }, &a.ty);
                    self.intrinsic(if eq { O::Equals } else { O::NotEquals }, h, vec![a, b], want.clone())
                }
                2 => {
                    let (a, b) = (self.expr(c, &arr, d), self.expr(c, &elem, d));
                    let h = self.typed(Instr::ArrayContains, &a.ty);
                    self.intrinsic(O::ArrayContains, h, vec![a, b], want.clone())
                }
                3 => {
                    let a = self.expr(c, &Variant, d);
                    self.intrinsic(O::VariantIsRef, Some(x(Instr::VariantIsRef)), vec![a], want.clone())
                }
                4 => {
                    let a = self.expr(c, &Variant, d);
                    self.intrinsic(O::VariantIsArray, Some(x(Instr::VariantIsArray)), vec![a], want.clone())
                }
                _ => {
                    let k = Box::new(Cl(c.rng.below(3) as usize));
                    let (t, i) = match c.rng.below(4) {
                        0 => (Ref(k), Instr::RefToBool),
                        1 => (Weak(k), Instr::WeakRefToBool),
                        2 => (Variant, Instr::VariantIsDefined),
                        _ => (Null, Instr::RefToBool),
                    };
                    let a = self.expr(c, &t, d);
                    if a.ty.as_ref() != Some(&t) {
                        return None;
                    }
                    self.intrinsic(O::IsDefined, Some(x(i)), vec![a], want.clone())
                }
            },
            Prim("Int32") => match c.rng.below(5) {
                0 => {
                    let a = self.expr(c, &En(0), d);
                    let h = match &a.ty {
                        Some(Void) | None => None,
                        Some(t) => Some(xn(Instr::EnumToI32(PoolIndex::UNDEFINED, 4), self.name(t))),
                    };
                    self.intrinsic(O::EnumInt, h, vec![a], want.clone())
                }
                1 => {
                    let a = self.expr(c, &arr, d);
                    let h = self.typed(Instr::ArraySize, &a.ty);
                    self.intrinsic(O::ArraySize, h, vec![a], want.clone())
                }
                k => {
                    let (a, b) = (self.expr(c, &arr, d), self.expr(c, &elem, d));
                    let (o, i): (_, fn(PoolIndex<Type>) -> I) = match k {
                        2 => (O::ArrayFindFirst, Instr::ArrayFindFirst),
                        3 => (O::ArrayFindLast, Instr::ArrayFindLast),
                        _ => (O::ArrayCount, Instr::ArrayCount),
                    };
                    let h = self.typed(i, &a.ty);
                    self.intrinsic(o, h, vec![a, b], want.clone())
                }
            },
            Prim("String") => {
                let t = if c.rng.below(3) == 0 { Variant } else { elem };
                let a = self.expr(c, &t, d);
                let h = match &a.ty {
                    Some(Variant) => Some(x(Instr::VariantToString)),
                    t => self.typed(Instr::ToString, t),
                };
                self.intrinsic(O::ToString, h, vec![a], want.clone())
            }
            Prim("CName") => {
                let a = self.expr(c, &Variant, d);
                self.intrinsic(O::VariantTypeName, Some(x(Instr::VariantTypeName)), vec![a], want.clone())
            }
            Variant => {
                let a = self.expr(c, &elem, d);
                let h = self.typed(Instr::ToVariant, &a.ty);
                self.intrinsic(O::ToVariant, h, vec![a], Variant)
            }
            St(k) => {
                let n = if c.rng.below(20) == 0 { 30 } else { c.rng.below(4) };
                let (mut es, mut code) = (vec![], Some(vec![x(Instr::Construct(n as u8, self.structs[*k].0))]));
                for _ in 0..n {
                    let t = self.any_ty(c, 1);
                    let a = self.expr(c, &t, if n > 4 { 0 } else { d });
                    es.push(a.e);
                    code = code.zip(a.code).map(|(mut x, y)| {
                        x.extend(y);
                        x
                    });
                }
                let e = Expr::New(TypeId::Struct(self.structs[*k].0), es.into_boxed_slice(), Span::ZERO);
                B { e, code, ty: Some(want.clone()), prvalue: true, empty: false }
            }
            En(k) if c.rng.bool() && !self.enums[*k].2.is_empty() => {
                let (e, ms) = (self.enums[*k].0, self.enums[*k].2.clone());
                let m = *c.rng.pick(&ms);
                let who = self.ident(c, &Prim("Bool"));
                Self::val(Expr::Member(Box::new(who.e), Member::EnumMember(e, m), Span::ZERO), vec![x(Instr::EnumConst(e, m))], want.clone(), true)
            }
            En(_) => {
                let a = self.expr(c, &Prim("Int32"), d);
                let h = Some(xn(Instr::I32ToEnum(PoolIndex::UNDEFINED, 4), self.name(want)));
                self.intrinsic(O::IntEnum, h, vec![a], want.clone())
            }
            Ref(t) => match (&**t, c.rng.below(4)) {
                (Cl(k), 0) => {
                    let i = self.classes[*k].0;
                    Self::val(Expr::New(TypeId::Class(i), Box::new([]), Span::ZERO), vec![x(Instr::New(i))], want.clone(), true)
                }
                (Cl(k), 1) if self.this == Some(*k) => Self::val(Expr::This(Span::ZERO), vec![x(Instr::This)], want.clone(), false),
                (Cl(k), 1) if self.this.map_or(false, |t| self.classes[t].2 == Some(*k)) => {
                    Self::val(Expr::Super(Span::ZERO), vec![x(Instr::This)], want.clone(), false)
                }
                (Cl(k), 2) => {
                    let from = Box::new(Cl(c.rng.below(3) as usize));
                    let from = if c.rng.bool() { Ref(from) } else { Weak(from) };
                    let a = self.expr(c, &from, d);
                    let i = self.classes[*k].0;
                    let ty = match &a.ty {
                        Some(Ref(_) | Weak(_)) => Some(want.clone()),
                        _ => None,
                    };
                    let code = a.code.map(|a| {
                        let mut r = vec![x(Instr::DynamicCast(i, 0))];
                        r.extend(a);
                        r
                    });
                    B { e: Expr::Cast(TypeId::Class(i), Box::new(a.e), Span::ZERO), code, ty, prvalue: true, empty: false }
                }
                (t, _) => {
                    let a = self.expr(c, &Weak(Box::new(t.clone())), d);
                    self.intrinsic(O::WeakRefToRef, Some(x(Instr::WeakRefToRef)), vec![a], want.clone())
                }
            },
            Weak(t) => {
                let a = self.expr(c, &Ref(t.clone()), d);
                self.intrinsic(O::RefToWeakRef, Some(x(Instr::RefToWeakRef)), vec![a], want.clone())
            }
            Script(t) => {
                let a = self.expr(c, t, d);
                let h = self.typed(Instr::AsRef, &a.ty);
                self.intrinsic(O::AsRef, h, vec![a], want.clone())
            }
            _ => return None,
        })
    }

    /// something the assembler has to turn down
    fn refused(&mut self, c: &mut Ctx, d: u32) -> B {
        let t = self.any_ty(c, 1);
        let a = self.expr(c, &Prim("Int32"), d.min(1));
        let b = Box::new(a.e);
        let sp = Span::ZERO;
        match c.rng.below(13) {
            0 => {
                let id = self.id(&t);
                self.boom(Expr::Cast(id, b, sp), None)
            }
            1 => {
                let i = self.ident(c, &Prim("Int32"));
                self.boom(Expr::ArrayElem(Box::new(i.e), b, sp), None)
            }
            2 => {
                self.ty(&Ref(Box::new(Cl(0))));
                let id = self.id(&Ref(Box::new(Cl(0))));
                self.boom(Expr::New(id, Box::new([]), sp), None)
            }
            3 => self.boom(Expr::Return(Some(Box::new(Expr::Break(sp))), sp), Some(Void)),
            4 => self.boom(Expr::ArrayLit(Box::new([]), Some(Box::new(TypeId::Variant)), sp), None),
            5 => self.boom(Expr::InterpolatedString("".into(), vec![], sp), None),
            6 => {
                let l = self.local(&t);
                self.boom(Expr::ForIn(l, b, Seq::new(vec![]), sp), Some(Void))
            }
            7 => self.boom(Expr::BinOp(b, Box::new(Expr::Null(sp)), BinOp::Add, sp), None),
            8 => self.boom(Expr::UnOp(b, UnOp::Neg, sp), None),
            9 => self.boom(Expr::Goto(Target::new(Location::new(0)), sp), Some(Void)),
            10 => {
                let s = Symbol::Class(self.classes[1].0, Visibility::Public);
                self.boom(Expr::Ident(Reference::Symbol(s), sp), Some(Cl(1)))
            }
            11 => {
                let s = Symbol::Functions(vec![]);
                self.boom(Expr::Ident(Reference::Symbol(s), sp), None)
            }
            _ => {
                // the type of a call that gives nothing back
                let (f, a, _, sp) = self.call(c, 0, None, false, false);
                let e = Expr::Call(Callable::Function(f), Box::new([]), a.into_boxed_slice(), sp);
                let r = TypeId::Variant;
                self.boom(Expr::Call(Callable::Intrinsic(IntrinsicOp::ToVariant, r), Box::new([]), Box::new([e]), sp), Some(Variant))
            }
        }
    }

    fn seq(&mut self, c: &mut Ctx, d: u32, most: u64, inside: bool) -> B {
        let n = c.rng.below(most + 1);
        let (mut es, mut code, mut empty) = (vec![], Some(vec![]), true);
        for _ in 0..n {
            let s = self.stmt(c, d, inside);
            empty &= s.empty;
            es.push(s.e);
            code = code.zip(s.code).map(|(mut x, y)| {
                x.extend(y);
                x
            });
        }
        B { e: Expr::Seq(Seq::new(es)), code, ty: Some(Void), prvalue: true, empty }
    }

    fn take(e: E) -> Seq<TypedAst> {
        match e {
            Expr::Seq(s) => s,
            _ => unreachable!(),
        }
    }

    fn init(&mut self, t: &Ty) -> Option<X> {
        let z = PoolIndex::UNDEFINED;
        Some(x(match t {
            Prim("Bool") => Instr::FalseConst,
            Prim("Int8") => Instr::I8Const(0),
            Prim("Int16") => Instr::I16Const(0),
            Prim("Int32") => Instr::I32Zero,
            Prim("Int64") => Instr::I64Const(0),
            Prim("Uint8") => Instr::U8Const(0),
            Prim("Uint16") => Instr::U16Const(0),
            Prim("Uint32") => Instr::U32Const(0),
            Prim("Uint64") => Instr::U64Const(0),
            Prim("Float") => Instr::F32Const(0.),
            Prim("Double") => Instr::F64Const(0.),
            Prim("String") => return Some(xn(Instr::StringConst(PoolIndex::UNDEFINED), String::new())),
            Prim("CName") => return Some(xn(Instr::NameConst(PoolIndex::UNDEFINED), "<none>".into())),
            Prim("TweakDBID") => return Some(xn(Instr::TweakDbIdConst(PoolIndex::UNDEFINED), "<none>".into())),
            Prim("ResRef") => return Some(xn(Instr::ResourceConst(PoolIndex::UNDEFINED), "<none>".into())),
            St(k) => Instr::Construct(0, self.structs[*k].0),
            En(k) => Instr::EnumConst(self.enums[*k].0, *self.enums[*k].2.first()?),
            Ref(_) => Instr::Null,
            Weak(_) => Instr::WeakRefNull,
            Array(_) => return Some(xn(Instr::ArrayClear(z), self.name(t))),
            _ => return None,
        }))
    }

    pub fn stmt(&mut self, c: &mut Ctx, d: u32, inside: bool) -> B {
        use IntrinsicOp as O;
        let sp = Span::ZERO;
        let void = |e: E, code: Option<Vec<X>>| B { e, code, ty: Some(Void), prvalue: true, empty: false };
        if inside && c.rng.below(5) == 0 || c.rng.below(400) == 0 {
            return void(Expr::Break(sp), Some(vec![X { i: Instr::Jump(Offset::new(0)), name: None, brk: true }]));
        }
        let t = self.any_ty(c, 2);
        match if d == 0 { c.rng.below(9) } else { c.rng.below(18) } {
            0 => {
                let a = if c.rng.below(4) == 0 { None } else { Some(self.expr(c, &t, d)) };
                match a {
                    None => void(Expr::Return(None, sp), Some(vec![x(Instr::Return), x(Instr::Nop)])),
                    Some(a) => {
                        let code = a.code.map(|a| {
                            let mut r = vec![x(Instr::Return)];
                            r.extend(a);
                            r
                        });
                        void(Expr::Return(Some(Box::new(a.e)), sp), code)
                    }
                }
            }
            1 => {
                let l = self.local(&t);
                let a = self.expr(c, &t, d);
                let code = a.code.map(|a| {
                    let mut r = vec![x(Instr::Assign), x(Instr::Local(l))];
                    r.extend(a);
                    r
                });
                let ty = if c.rng.bool() { Some(Box::new(self.id(&t))) } else { None };
                void(Expr::Declare(l, ty, Some(Box::new(a.e)), sp), code)
            }
            2 | 3 => {
                let l = self.local(&t);
                let code = match (&t, self.init(&t)) {
                    (_, None) => vec![],
                    (Array(_), Some(i)) => vec![i, x(Instr::Local(l))],
                    (_, Some(i)) => vec![x(Instr::Assign), x(Instr::Local(l)), i],
                };
                let ty = Box::new(self.id(&t));
                void(Expr::Declare(l, Some(ty), None, sp), Some(code))
            }
            4 => {
                let (a, b) = (self.expr(c, &t, d), self.expr(c, &t, d));
                let code = a.code.zip(b.code).map(|(a, b)| {
                    let mut r = vec![x(Instr::Assign)];
                    r.extend(a);
                    r.extend(b);
                    r
                });
                void(Expr::Assign(Box::new(a.e), Box::new(b.e), sp), code)
            }
            5 => {
                let elem = self.any_ty(c, 1);
                let arr = Array(Box::new(elem.clone()));
                let a = self.expr(c, &arr, d);
                let (o, i, more): (_, fn(PoolIndex<Type>) -> I, Vec<Ty>) = match c.rng.below(11) {
                    0 => (O::ArrayClear, Instr::ArrayClear, vec![]),
                    1 => (O::ArrayResize, Instr::ArrayResize, vec![Prim("Int32")]),
                    2 => (O::ArrayPush, Instr::ArrayPush, vec![elem]),
                    3 => (O::ArrayPop, Instr::ArrayPop, vec![]),
                    4 => (O::ArrayInsert, Instr::ArrayInsert, vec![Prim("Int32"), elem]),
                    5 => (O::ArrayRemove, Instr::ArrayRemove, vec![elem]),
                    6 => (O::ArrayGrow, Instr::ArrayGrow, vec![Prim("Int32")]),
                    7 => (O::ArrayErase, Instr::ArrayErase, vec![Prim("Int32")]),
                    8 => (O::ArrayLast, Instr::ArrayLast, vec![]),
                    9 => (O::ArraySort, Instr::ArraySort, vec![]),
                    _ => (O::ArraySortByPredicate, Instr::ArraySortByPredicate, vec![Prim("CName")]),
                };
                let h = self.typed(i, &a.ty);
                let mut args = vec![a];
                for t in more {
                    args.push(self.expr(c, &t, d));
                }
                self.intrinsic(o, h, args, Void)
            }
            6 => {
                let (f, a, code, s) = self.call(c, d, None, true, false);
                void(Expr::Call(Callable::Function(f), Box::new([]), a.into_boxed_slice(), s), code)
            }
            7 => self.method(c, d, &Void),
            8 => {
                let n = if d == 0 { 0 } else { 2 };
                self.seq(c, d.saturating_sub(1), n, inside)
            }
            9..=11 => {
                let p = self.expr(c, &Prim("Bool"), d - 1);
                let a = self.seq(c, d - 1, 3, inside);
                let b = if c.rng.bool() { Some(self.seq(c, d - 1, 3, inside)) } else { None };
                let (bx, bc) = match b {
                    Some(b) => (Some(Self::take(b.e)), Some(b.code)),
                    None => (None, None),
                };
                let code = (|| {
                    let (p, a) = (p.code?, a.code?);
                    let mut r = vec![];
                    match bc {
                        None => {
                            r.push(x(Instr::JumpIfFalse(off(3 + len(&p) + len(&a)))));
                            r.extend(p);
                            r.extend(a);
                        }
                        Some(b) => {
                            let b = b?;
                            r.push(x(Instr::JumpIfFalse(off(3 + len(&p) + len(&a) + 3))));
                            r.extend(p);
                            r.extend(a);
                            r.push(x(Instr::Jump(off(3 + len(&b)))));
                            r.extend(b);
                        }
                    }
                    Some(r)
                })();
                void(Expr::If(Box::new(p.e), Self::take(a.e), bx, sp), code)
            }
            12..=13 => {
                let p = self.expr(c, &Prim("Bool"), d - 1);
                let a = self.seq(c, d - 1, 3, true);
                let code = (|| {
                    let (p, mut a) = (p.code?, a.code?);
                    let body = 3 + len(&p);
                    let back = body + len(&a);
                    bind(&mut a, body, back + 3);
                    let mut r = vec![x(Instr::JumpIfFalse(off(back + 3)))];
                    r.extend(p);
                    r.extend(a);
                    r.push(x(Instr::Jump(off(-back))));
                    Some(r)
                })();
                void(Expr::While(Box::new(p.e), Self::take(a.e), sp), code)
            }
            _ => {
                let t = self.any_ty(c, 1);
                let s = self.expr(c, &t, d - 1);
                let n = c.rng.below(5);
                let (mut cases, mut parts) = (vec![], Some(vec![]));
                for _ in 0..n {
                    let m = self.expr(c, &t, (d - 1).min(1));
                    let most = if c.rng.below(3) == 0 { 0 } else { 2 };
                    let b = self.seq(c, d - 1, most, true);
                    parts = (|| {
                        let mut p = parts?;
                        p.push((m.code?, b.code?, b.empty));
                        Some(p)
                    })();
                    cases.push(SwitchCase { matcher: m.e, body: Self::take(b.e) });
                }
                let def = if c.rng.bool() { Some(self.seq(c, d - 1, 2, true)) } else { None };
                let (de, dc) = match def {
                    Some(b) => (Some(Self::take(b.e)), Some(b.code)),
                    None => (None, None),
                };
                let head = self.typed(|z| Instr::Switch(z, Offset::new(0)), &s.ty);
                let code = (|| {
                    let (mut head, subj, parts) = (head?, s.code?, parts?);
                    let dc = match dc {
                        Some(c) => Some(c?),
                        None => None,
                    };
                    // where everything goes
                    let first = 11 + len(&subj);
                    let mut at = first;
                    let (mut labels, mut bodies) = (vec![], vec![]);
                    for (m, b, _) in &parts {
                        labels.push(at);
                        at += 5 + len(m);
                        bodies.push(at);
                        at += len(b);
                    }
                    let rest = at;
                    let behind = rest + if dc.is_some() { 1 } else { 0 };
                    let end = behind + dc.as_ref().map_or(0, |d| len(d));
                    let name = head.name.take().unwrap();
                    let mut r = vec![xn(Instr::Switch(PoolIndex::UNDEFINED, off(first)), name)];
                    r.extend(subj);
                    for k in 0..parts.len() {
                        let next = labels.get(k + 1).copied().unwrap_or(rest);
                        let body = (k..parts.len()).find(|j| !parts[*j].2).map_or(behind, |j| bodies[j]);
                        r.push(x(Instr::SwitchLabel(off(next - labels[k]), off(body - labels[k]))));
                        r.extend(parts[k].0.clone());
                        let mut b = parts[k].1.clone();
                        bind(&mut b, bodies[k], end);
                        r.extend(b);
                    }
                    if let Some(mut d) = dc {
                        r.push(x(Instr::SwitchDefault));
                        bind(&mut d, behind, end);
                        r.extend(d);
                    }
                    Some(r)
                })();
                void(Expr::Switch(Box::new(s.e), cases, de, sp), code)
            }
        }
    }

    pub fn scope(&self) -> Scope {
        let mut s = Scope::new(&self.pool).unwrap();
        let last = |n: &'static str| Ident::from_static(n.split('.').last().unwrap());
        for (i, n, _) in &self.classes {
            s.add_symbol(last(n), Symbol::Class(*i, Visibility::Public));
        }
        for (i, n) in &self.structs {
            s.add_symbol(last(n), Symbol::Struct(*i, Visibility::Public));
        }
        for (i, n, _) in &self.enums {
            s.add_symbol(last(n), Symbol::Enum(*i));
        }
        s.this = self.this.map(|k| self.classes[k].0);
        s
    }
}

impl B {
    /// of a reference taken to something: is that a temporary
    fn prvalue_of_ref(&self) -> bool {
        match &self.e {
            Expr::Call(_, _, args, _) => args.first().map_or(true, prvalue),
            _ => unreachable!(),
        }
    }
}

fn prvalue(e: &E) -> bool {
    match e {
        Expr::Constant(..) | Expr::Ident(..) | Expr::This(_) | Expr::Super(_) => false,
        Expr::Call(Callable::Intrinsic(IntrinsicOp::Deref, _), ..) => false,
        Expr::Member(_, Member::ClassField(_), _) => false,
        Expr::Member(e, Member::StructField(_), _) | Expr::ArrayElem(e, _, _) => prvalue(e),
        _ => true,
    }
}

/// the instruction without the index, and what the index stands for
fn plain(i: &I, pool: &ConstantPool) -> (I, Option<String>) {
    let z = PoolIndex::UNDEFINED;
    let t = |i: &PoolIndex<Type>| match pool.type_(*i) {
        Ok(_) => Some(pool.def_name(*i).map_or("<no name>".to_string(), |n| n.to_string())),
        Err(_) => Some(format!("<no type> {i:?}")),
    };
    macro_rules! typed {
        ($($v:ident),*) => {
            match i {
                $(Instr::$v(a) => return (Instr::$v(PoolIndex::UNDEFINED), t(a)),)*
                _ => {}
            }
        };
    }
    typed!(
        Equals, NotEquals, ArrayClear, ArraySize, ArrayResize, ArrayFindFirst, ArrayFindLast, ArrayContains, ArrayCount, ArrayPush, ArrayPop, ArrayInsert,
        ArrayRemove, ArrayGrow, ArrayErase, ArrayLast, ArrayElement, ArraySort, ArraySortByPredicate, StaticArrayElement, ToString, ToVariant,
        FromVariant, AsRef, Deref
    );
    let s = |r: Result<redscript::Ref<str>, redscript::bundle::PoolError>| Some(r.map_or("<no text>".to_string(), |n| n.to_string()));
    match i {
        Instr::Switch(a, o) => (Instr::Switch(z, *o), t(a)),
        Instr::EnumToI32(a, n) => (Instr::EnumToI32(PoolIndex::UNDEFINED, *n), t(a)),
        Instr::I32ToEnum(a, n) => (Instr::I32ToEnum(PoolIndex::UNDEFINED, *n), t(a)),
        Instr::StringConst(a) => (Instr::StringConst(PoolIndex::UNDEFINED), s(pool.strings.get(*a))),
        Instr::NameConst(a) if a.is_undefined() => (Instr::NameConst(PoolIndex::UNDEFINED), Some("<none>".into())),
        Instr::NameConst(a) => (Instr::NameConst(PoolIndex::UNDEFINED), s(pool.names.get(*a))),
        Instr::ResourceConst(a) if a.is_undefined() => (Instr::ResourceConst(PoolIndex::UNDEFINED), Some("<none>".into())),
        Instr::ResourceConst(a) => (Instr::ResourceConst(PoolIndex::UNDEFINED), s(pool.resources.get(*a))),
        Instr::TweakDbIdConst(a) if a.is_undefined() => (Instr::TweakDbIdConst(PoolIndex::UNDEFINED), Some("<none>".into())),
        Instr::TweakDbIdConst(a) => (Instr::TweakDbIdConst(PoolIndex::UNDEFINED), s(pool.tweakdb_ids.get(*a))),
        i => (i.clone(), None),
    }
}

pub fn run(c: &mut Ctx) {
    let n = c.n(1500);
    let mut accepted = 0;
    for k in 0..n {
        let mut w = W::new(c);
        let early = if c.rng.below(4) == 0 { Some(w.scope()) } else { None };
        let d = 1 + c.rng.below(4) as u32;
        let b = w.seq(c, d, 4, false);
        let code = b.code.as_ref().map(|c| c.clone());
        if code.as_ref().map_or(false, |c| len(c) > 30_000) {
            continue;
        }
        let mut scope = early.unwrap_or_else(|| w.scope());
        w.text = format!("{:?}", b.e);
        let text = w.text.clone();
        let refused = code.as_ref().map_or(true, |c| c.iter().any(|x| x.brk));
        let what = match &b.e {
            Expr::Seq(s) => s.exprs.iter().map(|e| format!("{e:?}").split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()).collect::<Vec<_>>().join(","),
            _ => String::new(),
        };
        let Some(r) = c.case("assemble", &format!("#{k} [{what}] {text}"), || {
            let r = Assembler::from_body(W::take(b.e), &w.files, &mut scope, &mut w.pool);
            r.map_err(|e| format!("{e:?}"))
        }) else {
            continue;
        };
        match (r, refused) {
            (Err(_), true) => {}
            (Ok(o), true) => c.fail("assemble/accepts", format!("code for something there is no code for: {text}\n gave {o:?}")),
            (Err(e), false) => c.fail("assemble/refuses", format!("refused ({e}): {text}")),
            (Ok(o), false) => {
                accepted += 1;
                let mut want: Vec<X> = code.unwrap();
                want.push(x(Instr::Nop));
                let got: Vec<_> = o.as_ref().iter().map(|i| plain(i, &w.pool)).collect();
                if got.len() != want.len() {
                    c.fail("assemble/length", format!("{} instructions instead of {} for {text}\n got {got:?}\n want {want:?}", got.len(), want.len()));
                }
                for (j, (g, e)) in got.iter().zip(&want).enumerate() {
                    if g.0 != e.i || g.1 != e.name {
                        let at = |n: &dyn Fn(usize) -> String| (j.saturating_sub(2)..(j + 3).min(want.len()).min(got.len())).map(|k| n(k)).collect::<Vec<_>>().join("; ");
                        let kind = format!("{:?}", e.i);
                        let kind = kind.split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string();
                        c.fail(
                            format!("assemble/{kind}"),
                            format!(
                                "instruction {j} is {g:?} instead of {:?} {:?}\n got  .. {}\n want .. {}\n for {text}",
                                e.i,
                                e.name,
                                at(&|k| format!("{:?}", got[k])),
                                at(&|k| format!("{:?} {:?}", want[k].i, want[k].name))
                            ),
                        );
                        break;
                    }
                }
            }
        }
    }    c.notes.push(format!("assemble: {accepted} of {n} bodies have code"));
}
