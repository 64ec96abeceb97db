//! Types: what entries and names stand for, what converts to what, where
//! members are found and of what type an expression is, in random programs.
use std::collections::HashMap;

use redscript::ast::*;
use redscript::bundle::{ConstantPool, PoolIndex};
use redscript::bytecode::{IntrinsicOp, Location};
use redscript::definition::*;

use crate::scope::{Reference, Scope, TypeId, Value};
use crate::symbol::Symbol;
use crate::typechecker::{collect_supertypes, lub, type_of, Callable, Member, TypeChecker, TypedAst};
use crate::util::*;

type E = Expr<TypedAst>;

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
enum T {
    Prim(usize),
    Cl(usize),
    En(usize),
    Ref(Box<T>),
    Weak(Box<T>),
    Array(Box<T>),
    Fixed(Box<T>, u32),
    Script(Box<T>),
    Variant,
    Null,
    Void,
}
use T::*;

const PRIMS: &[&str] = &["Bool", "Int8", "Int32", "Int64", "Uint32", "Uint64", "Float", "Double", "String", "CName", "ResRef", "TweakDBID", "Other"];

struct K {
    idx: PoolIndex<Class>,
    name: String,
    base: Option<usize>,
    is_struct: bool,
    fields: Vec<(String, PoolIndex<Field>, T)>,
    methods: Vec<(String, PoolIndex<Function>)>,
}

struct W {
    pool: ConstantPool,
    types: HashMap<T, PoolIndex<Type>>,
    classes: Vec<K>,
    enums: Vec<(PoolIndex<Enum>, String, Vec<(String, PoolIndex<i64>)>)>,
    count: usize,
}

fn bare(name: &str) -> Ident {
    Ident::from_ref(name.rsplit('.').next().unwrap())
}

impl W {
    fn new(c: &mut Ctx) -> W {
        let mut w = W { pool: ConstantPool::default(), types: HashMap::new(), classes: vec![], enums: vec![], count: 0 };
        w.pool.names.add("<first>".into());
        w.pool.add_definition::<Type>(Definition::DEFAULT);
        for k in 0..PRIMS.len() {
            w.ty(&Prim(k));
        }
        w.ty(&Variant);
        let nm = w.pool.names.add("IScriptable".into());
        let k: PoolIndex<Type> = w.pool.add_definition(Definition::type_(nm, Type::Class));
        let nm = w.pool.names.add("ref:IScriptable".into());
        w.pool.add_definition::<Type>(Definition::type_(nm, Type::Ref(k)));
        for n in 0..2 + c.rng.below(2) {
            let name = if c.rng.bool() { format!("En{n}") } else { format!("Mod.Deep.En{n}") };
            let nm = w.pool.names.add(name.as_str().into());
            let e: PoolIndex<Enum> = w.pool.add_definition(Definition::enum_(nm, Enum { flags: 0, size: 4, members: vec![], unk1: false }));
            let mut ms = vec![];
            for m in 0..c.rng.below(4) {
                // members of one enum may share a name
                let name = format!("m{}", if c.rng.below(4) == 0 { 0 } else { m });
                let mn = w.pool.names.add(name.as_str().into());
                ms.push((name, w.pool.add_definition(Definition::enum_value(mn, e, m as i64))));
            }
            w.pool.put_definition(e, Definition::enum_(nm, Enum { flags: 0, size: 4, members: ms.iter().map(|m| m.1).collect(), unk1: false }));
            w.enums.push((e, name, ms));
        }
        let n = 3 + c.rng.below(6) as usize;
        let chainy = c.rng.bool();
        for k in 0..n {
            let is_struct = c.rng.below(3) == 0;
            let same: Vec<usize> = (0..k).filter(|i| w.classes[*i].is_struct == is_struct).collect();
            let base = if same.is_empty() || c.rng.below(4) == 0 { None } else if chainy { same.last().copied() } else { Some(*c.rng.pick(&same)) };
            let name = match c.rng.below(3) { 0 => format!("Mod.K{k}"), 1 => format!("Mod.Deep.K{k}"), _ => format!("K{k}") };
            let nm = w.pool.names.add(name.as_str().into());
            let cl = Class { visibility: Visibility::Public, flags: ClassFlags::new().with_is_struct(is_struct), base: base.map_or(PoolIndex::UNDEFINED, |b| w.classes[b].idx), functions: vec![], fields: vec![], overrides: vec![] };
            let idx: PoolIndex<Class> = w.pool.add_definition(Definition::class(nm, cl.clone()));
            w.classes.push(K { idx, name, base, is_struct, fields: vec![], methods: vec![] });
        }
        for k in 0..n {
            let mut fields = vec![];
            for _ in 0..c.rng.below(4) {
                let name = format!("f{}", c.rng.below(5));
                let t = w.any(c, 2);
                let (nm, ty) = (w.pool.names.add(name.as_str().into()), w.ty(&t));
                let f = Field { visibility: Visibility::Public, type_: ty, flags: FieldFlags::new(), hint: None, attributes: vec![], defaults: vec![] };
                fields.push((name, w.pool.add_definition(Definition::field(nm, w.classes[k].idx, f)), t));
            }
            let mut methods = vec![];
            for _ in 0..c.rng.below(4) {
                let name = format!("g{}", c.rng.below(3));
                let sig = match c.rng.below(3) { 0 => name.clone(), 1 => format!("{name};Int32;Float"), _ => format!("{name};String") };
                let nm = w.pool.names.add(sig.as_str().into());
                let ret = if c.rng.below(4) == 0 { None } else { let t = w.any(c, 2); Some(w.ty(&t)) };
                let f = Function { visibility: Visibility::Public, flags: FunctionFlags::new(), source: None, return_type: ret, unk1: false, base_method: None, parameters: vec![], locals: vec![], operator: None, cast: 0, code: redscript::bytecode::Code::EMPTY, unk2: vec![] };
                methods.push((name, w.pool.add_definition(Definition::function(nm, w.classes[k].idx, f))));
            }
            let d = &w.classes[k];
            let cl = Class { visibility: Visibility::Public, flags: ClassFlags::new().with_is_struct(d.is_struct), base: d.base.map_or(PoolIndex::UNDEFINED, |b| w.classes[b].idx), functions: methods.iter().map(|m| m.1).collect(), fields: fields.iter().map(|m| m.1).collect(), overrides: vec![] };
            let nm = w.pool.names.add(d.name.as_str().into());
            w.pool.put_definition(d.idx, Definition::class(nm, cl));
            w.classes[k].fields = fields;
            w.classes[k].methods = methods;
        }
        w
    }
    fn any(&self, c: &mut Ctx, d: u32) -> T {
        match if d == 0 { c.rng.below(5) } else { c.rng.below(12) } {
            0 => Prim(c.rng.below(PRIMS.len() as u64) as usize),
            1 | 2 => Cl(c.rng.below(self.classes.len() as u64) as usize),
            3 => En(c.rng.below(self.enums.len() as u64) as usize),
            4 => Variant,
            5 | 6 => Ref(Box::new(self.any(c, d - 1))),
            7 | 8 => Weak(Box::new(self.any(c, d - 1))),
            9 => Array(Box::new(self.any(c, d - 1))),
            // a type is known by its name, and array:K[2] names two of them: only the one is used
            10 => Fixed(Box::new(self.any(c, 0)), c.rng.below(12) as u32),
            _ => Script(Box::new(self.any(c, d - 1))),
        }
    }
    fn class(&self, c: &mut Ctx) -> usize {
        c.rng.below(self.classes.len() as u64) as usize
    }
    fn name(&self, t: &T) -> String {
        match t {
            Prim(p) => PRIMS[*p].to_string(),
            Cl(k) => self.classes[*k].name.clone(),
            En(k) => self.enums[*k].1.clone(),
            Ref(t) => format!("ref:{}", self.name(t)),
            Weak(t) => format!("wref:{}", self.name(t)),
            Array(t) => format!("array:{}", self.name(t)),
            Fixed(t, n) => format!("{}[{n}]", self.name(t)),
            Script(t) => format!("script_ref:{}", self.name(t)),
            Variant => "Variant".into(),
            Null => "ref:IScriptable".into(),
            Void => "".into(),
        }
    }
    fn ty(&mut self, t: &T) -> PoolIndex<Type> {
        if let Some(i) = self.types.get(t) {
            return *i;
        }
        let v = match t {
            Prim(_) | Variant => Type::Prim,
            Cl(_) | En(_) => Type::Class,
            Ref(t) => Type::Ref(self.ty(t)),
            Weak(t) => Type::WeakRef(self.ty(t)),
            Array(t) => Type::Array(self.ty(t)),
            Fixed(t, n) => Type::StaticArray(self.ty(t), *n),
            Script(t) => Type::ScriptRef(self.ty(t)),
            Null | Void => unreachable!(),
        };
        let n = self.pool.names.add(self.name(t).into());
        let i = self.pool.add_definition(Definition::type_(n, v));
        self.types.insert(t.clone(), i);
        i
    }
    fn id(&self, t: &T) -> TypeId {
        match t {
            Prim(_) => TypeId::Prim(self.types[t]),
            Cl(k) if self.classes[*k].is_struct => TypeId::Struct(self.classes[*k].idx),
            Cl(k) => TypeId::Class(self.classes[*k].idx),
            En(k) => TypeId::Enum(self.enums[*k].0),
            Ref(t) => TypeId::Ref(Box::new(self.id(t))),
            Weak(t) => TypeId::WeakRef(Box::new(self.id(t))),
            Array(t) => TypeId::Array(Box::new(self.id(t))),
            Fixed(t, n) => TypeId::StaticArray(Box::new(self.id(t)), *n),
            Script(t) => TypeId::ScriptRef(Box::new(self.id(t))),
            Variant => TypeId::Variant,
            Null => TypeId::Null,
            Void => TypeId::Void,
        }
    }
    fn scope(&self) -> Scope {
        let mut s = Scope::new(&self.pool).unwrap();
        for k in &self.classes {
            s.add_symbol(bare(&k.name), if k.is_struct { Symbol::Struct(k.idx, Visibility::Public) } else { Symbol::Class(k.idx, Visibility::Public) });
        }
        for e in &self.enums {
            s.add_symbol(bare(&e.1), Symbol::Enum(e.0));
        }
        s
    }
    /// the class and those it extends, nearest first
    fn line(&self, k: usize) -> Vec<usize> {
        let mut v = vec![k];
        while let Some(b) = self.classes[*v.last().unwrap()].base {
            v.push(b);
        }
        v
    }
    fn convert(&self, from: &T, to: &T) -> Option<&'static str> {
        if from == to {
            return Some("same");
        }
        let same = |a: &T, b: &T| self.convert(a, b) == Some("same");
        match (from, to) {
            (Cl(a), Cl(b)) => (self.classes[*a].is_struct == self.classes[*b].is_struct && self.line(*a).contains(b)).then_some("same"),
            (Null, Ref(_)) => Some("same"),
            (Null, Weak(_)) => Some("weaken"),
            (Ref(a), Ref(b)) | (Weak(a), Weak(b)) if same(a, b) => Some("same"),
            (Weak(a), Ref(b)) if same(a, b) => Some("strengthen"),
            (Ref(a), Weak(b)) if same(a, b) => Some("weaken"),
            (a, Script(b)) if same(a, b) => Some("borrow"),
            (_, Variant) => Some("wrap"),
            _ => None,
        }
    }
    fn join(&self, a: &T, b: &T) -> Option<T> {
        if a == b {
            return Some(a.clone());
        }
        match (a, b) {
            (Ref(_) | Weak(_), Null) => Some(a.clone()),
            (Null, Ref(_) | Weak(_)) => Some(b.clone()),
            (Ref(a), Ref(b)) => Some(Ref(Box::new(self.join(a, b)?))),
            (Weak(a), Weak(b)) => Some(Weak(Box::new(self.join(a, b)?))),
            (Cl(a), Cl(b)) if self.classes[*a].is_struct == self.classes[*b].is_struct => {
                let other = self.line(*b);
                self.line(*a).into_iter().find(|k| other.contains(k)).map(Cl)
            }
            _ => None,
        }
    }
    /// a pair of types that have to do with one another
    fn pair(&self, c: &mut Ctx) -> (T, T) {
        let a = match c.rng.below(8) { 0 => Null, _ => self.any(c, 3) };
        let mut b = match c.rng.below(4) { 0 => self.any(c, 3), 1 => a.clone(), _ => self.near(c, &a) };
        if c.rng.below(5) == 0 && b != Null {
            b = Script(Box::new(b));
        }
        if c.rng.bool() { (a, b) } else { (b, a) }
    }
    fn near(&self, c: &mut Ctx, t: &T) -> T {
        let rewrap = c.rng.below(3) == 0;
        match t {
            Cl(k) => if c.rng.bool() { Cl(self.class(c)) } else { Cl(*c.rng.pick(&self.line(*k))) },
            Ref(t) if rewrap => Weak(Box::new(self.near(c, t))),
            Weak(t) if rewrap => Ref(Box::new(self.near(c, t))),
            Ref(t) => Ref(Box::new(self.near(c, t))),
            Weak(t) => Weak(Box::new(self.near(c, t))),
            Array(t) => Array(Box::new(self.near(c, t))),
            Fixed(t, n) => Fixed(t.clone(), n + c.rng.below(2) as u32),
            Script(t) => Script(Box::new(self.near(c, t))),
            Null => if c.rng.bool() { Ref(Box::new(Cl(self.class(c)))) } else { Weak(Box::new(Cl(self.class(c)))) },
            t => t.clone(),
        }
    }
    fn local(&mut self, t: &T) -> PoolIndex<Local> {
        self.count += 1;
        let (n, ty) = (self.pool.names.add(format!("l{}", self.count).into()), self.ty(t));
        self.pool.add_definition(Definition::local(n, PoolIndex::UNDEFINED, Local::new(ty, LocalFlags::new())))
    }
    fn written(&self, t: &T) -> Option<TypeName> {
        Some(match t {
            Prim(p) => TypeName::basic(PRIMS[*p]),
            Cl(k) => TypeName::basic_owned(bare(&self.classes[*k].name).to_heap()),
            En(k) => TypeName::basic_owned(bare(&self.enums[*k].1).to_heap()),
            // only what is spelled with the names in scope
            Ref(_) | Weak(_) | Array(_) | Script(_) => TypeName::from_repr(&self.spelled(t)?),
            Variant => TypeName::VARIANT,
            _ => return None,
        })
    }
    fn spelled(&self, t: &T) -> Option<String> {
        Some(match t {
            Prim(p) => PRIMS[*p].to_string(),
            Cl(k) => bare(&self.classes[*k].name).to_string(),
            En(k) => bare(&self.enums[*k].1).to_string(),
            Ref(t) => format!("ref:{}", self.spelled(t)?),
            Weak(t) => format!("wref:{}", self.spelled(t)?),
            Array(t) => format!("array:{}", self.spelled(t)?),
            Script(t) => format!("script_ref:{}", self.spelled(t)?),
            Variant => "Variant".into(),
            _ => return None,
        })
    }
    /// an expression and its type (None: it has none)
    fn expr(&mut self, c: &mut Ctx, d: u32, this: Option<usize>) -> (E, Option<T>) {
        let sp = Span::new(Pos::new(self.count), Pos::new(self.count + 1));
        self.count += 1;
        let inner = |t: Option<T>| t;
        match if d == 0 { c.rng.below(9) } else { c.rng.below(20) } {
            0 | 1 => {
                let t = self.any(c, 3);
                (Expr::Ident(Reference::Value(Value::Local(self.local(&t))), sp), Some(t))
            }
            2 => {
                let t = self.any(c, 3);
                let (n, ty) = (self.pool.names.add(format!("p{}", self.count).into()), self.ty(&t));
                let p = self.pool.add_definition(Definition::param(n, PoolIndex::UNDEFINED, Parameter { type_: ty, flags: ParameterFlags::new() }));
                (Expr::Ident(Reference::Value(Value::Parameter(p)), sp), Some(t))
            }
            3 => {
                let (k, n) = match c.rng.below(11) {
                    0 => (Constant::String(Literal::String, "x".into()), "String"),
                    1 => (Constant::String(Literal::Name, "x".into()), "CName"),
                    2 => (Constant::String(Literal::Resource, "x".into()), "ResRef"),
                    3 => (Constant::String(Literal::TweakDbId, "x".into()), "TweakDBID"),
                    4 => (Constant::F32(1.5), "Float"),
                    5 => (Constant::F64(1.5), "Double"),
                    6 => (Constant::I32(1), "Int32"),
                    7 => (Constant::I64(1), "Int64"),
                    8 => (Constant::U32(1), "Uint32"),
                    9 => (Constant::U64(1), "Uint64"),
                    _ => (Constant::Bool(true), "Bool"),
                };
                (Expr::Constant(k, sp), Some(Prim(PRIMS.iter().position(|p| *p == n).unwrap())))
            }
            4 => (Expr::This(sp), this.map(|k| Ref(Box::new(self.any_class(k))))),
            5 => (Expr::Null(sp), Some(Null)),
            6 => match c.rng.below(3) {
                0 => { let k = self.class(c); let s = if self.classes[k].is_struct { Symbol::Struct(self.classes[k].idx, Visibility::Public) } else { Symbol::Class(self.classes[k].idx, Visibility::Public) }; (Expr::Ident(Reference::Symbol(s), sp), Some(Cl(k))) }
                1 => { let k = c.rng.below(self.enums.len() as u64) as usize; (Expr::Ident(Reference::Symbol(Symbol::Enum(self.enums[k].0)), sp), Some(En(k))) }
                _ => (Expr::Ident(Reference::Symbol(Symbol::Functions(vec![])), sp), None),
            },
            7 => match c.rng.below(5) {
                0 => (Expr::Goto(Target::new(Location::new(0)), sp), Some(Void)),
                1 => (Expr::Break(sp), Some(Void)),
                2 => (Expr::Return(None, sp), Some(Void)),
                3 => (Expr::Seq(Seq::new(vec![Expr::Null(sp)])), Some(Void)),
                _ => (Expr::While(Box::new(Expr::Null(sp)), Seq::new(vec![]), sp), Some(Void)),
            },
            8 => { let t = self.any(c, 2); let a = Array(Box::new(t.clone())); (Expr::ArrayLit(vec![].into(), Some(Box::new(self.id_of(&t))), sp), Some(a)) }
            9 | 10 => {
                let (e, t) = self.expr(c, d - 1, this);
                let to = Cl(self.class(c));
                let r = match t { None => None, Some(Weak(_) | Ref(_)) => Some(Ref(Box::new(to.clone()))), Some(Script(_)) => Some(Script(Box::new(to.clone()))), Some(_) => Some(to.clone()) };
                (Expr::Cast(self.id_of(&to), Box::new(e), sp), r)
            }
            11 => {
                let (e, t) = self.expr(c, d - 1, this);
                let r = match t { Some(Array(t) | Fixed(t, _)) => Some(*t), _ => None };
                (Expr::ArrayElem(Box::new(e), Box::new(Expr::Null(sp)), sp), r)
            }
            12..=14 => {
                let (mut x, mut a) = self.expr(c, d - 1, this);
                if c.rng.bool() {
                    let k = self.class(c);
                    let t = if c.rng.bool() { Ref(Box::new(Cl(k))) } else { Weak(Box::new(Cl(k))) };
                    (x, a) = (Expr::Ident(Reference::Value(Value::Local(self.local(&t))), sp), Some(t));
                }
                let (mut y, mut b) = self.expr(c, d - 1, this);
                if let (true, Some(t)) = (c.rng.below(4) != 0, &a) {
                    let t = self.near(c, t);
                    if !format!("{t:?}").contains("Null") && !format!("{t:?}").contains("Void") {
                        (y, b) = (Expr::Ident(Reference::Value(Value::Local(self.local(&t))), sp), Some(t));
                    }
                }
                let r = match (inner(a), inner(b)) { (Some(a), Some(b)) => self.join(&a, &b), _ => None };
                (Expr::Conditional(Box::new(Expr::Null(sp)), Box::new(x), Box::new(y), sp), r)
            }
            15 => {
                let t = self.any(c, 1);
                let r = match &t { Cl(k) if self.classes[*k].is_struct => Some(t.clone()), Cl(_) => Some(Ref(Box::new(t.clone()))), _ => None };
                (Expr::New(self.id_of(&t), vec![].into(), sp), r)
            }
            16 => {
                let k = self.class(c);
                match c.rng.below(3) {
                    0 => { let e = c.rng.below(self.enums.len() as u64) as usize; (Expr::Member(Box::new(Expr::Null(sp)), Member::EnumMember(self.enums[e].0, PoolIndex::new(1)), sp), Some(En(e))) }
                    n => match self.classes[k].fields.last() {
                        Some((_, f, t)) => (Expr::Member(Box::new(Expr::Null(sp)), if n == 1 { Member::ClassField(*f) } else { Member::StructField(*f) }, sp), Some(t.clone())),
                        None => (Expr::Super(sp), this.map(|k| Ref(Box::new(self.classes[k].base.map_or(Void, Cl))))),
                    },
                }
            }
            17 => {
                let t = self.any(c, 3);
                (Expr::Call(Callable::Intrinsic(IntrinsicOp::ArrayPop, self.id_of(&t)), vec![].into(), vec![].into(), sp), Some(t))
            }
            18 => {
                let t = if c.rng.below(4) == 0 { None } else { Some(self.any(c, 3)) };
                let ret = t.as_ref().map(|t| self.ty(t));
                let nm = self.pool.names.add(format!("fun{}", self.count).into());
                let f = Function { visibility: Visibility::Public, flags: FunctionFlags::new(), source: None, return_type: ret, unk1: false, base_method: None, parameters: vec![], locals: vec![], operator: None, cast: 0, code: redscript::bytecode::Code::EMPTY, unk2: vec![] };
                let i: PoolIndex<Function> = self.pool.add_definition(Definition::function(nm, PoolIndex::UNDEFINED, f));
                let e = if c.rng.bool() { Expr::Call(Callable::Function(i), vec![].into(), vec![].into(), sp) } else { Expr::MethodCall(Box::new(Expr::Null(sp)), i, vec![], sp) };
                (e, Some(t.unwrap_or(Void)))
            }
            _ => match c.rng.below(3) {
                0 => (Expr::InterpolatedString("x".into(), vec![], sp), Some(Prim(8))),
                1 => (Expr::BinOp(Box::new(Expr::Null(sp)), Box::new(Expr::Null(sp)), BinOp::Add, sp), None),
                _ => (Expr::UnOp(Box::new(Expr::Null(sp)), UnOp::Neg, sp), None),
            },
        }
    }
    fn any_class(&self, k: usize) -> T {
        Cl(k)
    }
    fn id_of(&mut self, t: &T) -> TypeId {
        self.ty(t);
        self.id(t)
    }
    /// what the checker makes of the type; `this` and `super` always stand for classes
    fn says(&self, e: &E, t: &Option<T>, this: Option<usize>) -> Option<TypeId> {
        match (e, this) {
            (Expr::This(_), Some(k)) => Some(TypeId::Ref(Box::new(TypeId::Class(self.classes[k].idx)))),
            (Expr::Super(_), Some(k)) => Some(TypeId::Ref(Box::new(TypeId::Class(self.classes[k].base.map_or(PoolIndex::UNDEFINED, |b| self.classes[b].idx))))),
            _ => t.as_ref().map(|t| self.id(t)),
        }
    }
}

fn show(e: &E) -> String {
    format!("{e:?}")
}

pub fn run(c: &mut Ctx) {
    for round in 0..c.n(40) {
        let mut w = W::new(c);
        members(c, &w);
        for _ in 0..12 {
            let t = w.any(c, 3);
            entries(c, &mut w, &t);
        }
        for _ in 0..20 {
            let (a, b) = w.pair(c);
            pairs(c, &mut w, &a, &b);
        }
        // `this` is a class
        let classes: Vec<usize> = (0..w.classes.len()).filter(|k| !w.classes[*k].is_struct).collect();
        let this = if classes.is_empty() || c.rng.below(4) == 0 { None } else { Some(*c.rng.pick(&classes)) };
        for _ in 0..20 {
            let (e, t) = w.expr(c, 3, this);
            if matches!(e, Expr::Super(_)) && this.map_or(false, |k| w.classes[k].base.is_none()) {
                continue;
            }
            let mut s = w.scope();
            s.this = this.map(|k| w.classes[k].idx);
            let what = show(&e);
            let got = c.case("types/type_of", &what, || type_of(&e, &s, &w.pool).ok());
            let want = w.says(&e, &t, this);
            if let Some(got) = got {
                // an operand that is `super` without a base has no type of its own here
                if !what.contains("Super") || !this.map_or(false, |k| w.classes[k].base.is_none()) {
                    c.check(got == want, "types/type_of", || format!("{got:?} instead of {want:?} ({t:?}) of {what}"));
                }
            }
        }
        let _ = round;
    }
}

fn entries(c: &mut Ctx, w: &mut W, t: &T) {
    let known = w.types.contains_key(t);
    let prims_only = !format!("{t:?}").contains("Prim") || true;
    let mut s = w.scope();
    let id = w.id(t);
    // the entry a type gets: the one of its name, else a new one of its kind
    let before = w.pool.definitions().count();
    let (pool, name) = (&mut w.pool, match t { Prim(p) => PRIMS[*p].to_string(), _ => String::new() });
    let i = c.case("types/entry", &format!("{t:?}"), || s.get_type_index(&id, pool).ok()).flatten();
    let _ = name;
    let Some(i) = i else { c.fail("types/entry", format!("no entry for {t:?}")); return };
    let want = w.name(t);
    let got = w.pool.def_name(i).map(|n| n.to_string()).unwrap_or_default();
    c.check(got == want, "types/entry-name", || format!("{got} instead of {want} for {t:?}"));
    if known {
        c.check(i == w.types[t] && w.pool.definitions().count() == before, "types/entry-again", || format!("{t:?} got entry {i:?} besides {:?}", w.types[t]));
    }
    let again = s.get_type_index(&id, &mut w.pool).ok();
    c.check(again == Some(i), "types/entry-again", || format!("{t:?} got entry {i:?}, then {again:?}"));
    // and what it stands for
    let back = c.case("types/meaning", &format!("{t:?}"), || s.resolve_type_from_pool(i, &w.pool).ok()).flatten();
    c.check(back == Some(id.clone()), "types/meaning", || format!("the entry {want} of {t:?} stands for {back:?}"));
    let inner = w.pool.type_(i).ok();
    let ok = match (t, inner) {
        (Prim(_) | Variant, Some(Type::Prim)) | (Cl(_) | En(_), Some(Type::Class)) => true,
        (Ref(x), Some(Type::Ref(j))) | (Weak(x), Some(Type::WeakRef(j))) | (Array(x), Some(Type::Array(j))) | (Script(x), Some(Type::ScriptRef(j))) => w.pool.def_name(*j).unwrap().as_ref() == w.name(x),
        (Fixed(x, n), Some(Type::StaticArray(j, m))) => n == m && w.pool.def_name(*j).unwrap().as_ref() == w.name(x),
        _ => false,
    };
    c.check(ok && prims_only, "types/entry-kind", || format!("{:?} for {t:?}", w.pool.type_(i)));
    // as it is written
    if let Some(n) = w.written(t) {
        let s = w.scope();
        let got = c.case("types/written", &format!("{n:?}"), || s.resolve_type(&n, &w.pool).ok()).flatten();
        c.check(got == Some(id.clone()), "types/written", || format!("{n:?} stands for {got:?} instead of {id:?}"));
    }
    let none = TypeName::basic("Nowhere");
    c.check(w.scope().resolve_type(&none, &w.pool).is_err(), "types/written-unknown", || format!("{none:?}"));
    let mut at = &id;
    while let TypeId::Ref(x) | TypeId::WeakRef(x) | TypeId::ScriptRef(x) = at {
        at = x;
    }
    c.check(id.unwrapped() == at, "types/unwrapped", || format!("{t:?}: {:?}", id.unwrapped()));
}

fn pairs(c: &mut Ctx, w: &mut W, a: &T, b: &T) {
    let what = format!("{a:?} {b:?}");
    if !matches!(b, Null) {
        let _ = w.id_of(b);
    }
    // a value of type a where one of type b is wanted
    let want = w.convert(a, b);
    let name = Ident::from_static("value");
    let local = if *a == Null { None } else { Some(w.local(a)) };
    let mut s = w.scope();
    let (src, typed): (Expr<SourceAst>, E) = match local {
        Some(l) => { s.add_local(name.clone(), l); (Expr::Ident(name, Span::new(Pos::new(3), Pos::new(8))), Expr::Ident(Reference::Value(Value::Local(l)), Span::new(Pos::new(3), Pos::new(8)))) }
        None => (Expr::Null(Span::new(Pos::new(3), Pos::new(8))), Expr::Null(Span::new(Pos::new(3), Pos::new(8)))),
    };
    let to = w.id(b);
    let pool = &mut w.pool;
    let r = c.case("convert", &what, || {
        let mut t = TypeChecker::new(pool, false);
        let r = t.check_and_convert(&src, &to, &mut s).map_err(|e| format!("{e:?}"));
        (r, t.into_diagnostics().len())
    });
    if let Some((r, reports)) = r {
        let op = match want { Some("weaken") => Some(IntrinsicOp::RefToWeakRef), Some("strengthen") => Some(IntrinsicOp::WeakRefToRef), Some("borrow") => Some(IntrinsicOp::AsRef), Some("wrap") => Some(IntrinsicOp::ToVariant), _ => None };
        let expected = match op { None => typed, Some(op) => Expr::Call(Callable::Intrinsic(op, to.clone()), vec![].into(), vec![typed].into(), Span::new(Pos::new(3), Pos::new(8))) };
        let ok = match &r { Ok(e) => show(e) == show(&expected) && reports == usize::from(want.is_none()), Err(_) => false };
        c.check(ok, "convert", || format!("{a:?} to {b:?} should be {want:?}: {r:?} with {reports} reports"));
    }
    // what both are
    let (x, y) = (w.id(a), w.id(b));
    let got = c.case("join", &what, || lub(x, y, &w.pool).ok());
    let want = w.join(a, b).map(|t| w.id(&t));
    if let Some(got) = got {
        c.check(got == want, "join", || format!("{got:?} instead of {want:?} for {what}"));
    }
}

fn members(c: &mut Ctx, w: &W) {
    let s = w.scope();
    for (k, d) in w.classes.iter().enumerate() {
        let line = w.line(k);
        let up: Vec<_> = line.iter().rev().map(|k| w.classes[*k].idx).collect();
        let got = collect_supertypes(d.idx, &w.pool).ok();
        c.check(got.as_ref() == Some(&up), "members/supertypes", || format!("{got:?} instead of {up:?}"));
        for n in 0..6 {
            let name = format!("f{n}");
            let want = line.iter().find_map(|k| w.classes[*k].fields.iter().find(|f| f.0 == name).map(|f| f.1));
            let got = c.case("members/field", &name, || Scope::resolve_field(Ident::from_ref(name.as_str()), d.idx, &w.pool).ok());
            c.check(got == Some(want), "members/field", || format!("{name} of class {k} ({line:?}): {got:?} instead of {want:?}"));
        }
        for n in 0..4 {
            let name = format!("g{n}");
            let own: Vec<_> = d.methods.iter().filter(|m| m.0 == name).map(|m| m.1).collect();
            let all: Vec<_> = line.iter().flat_map(|k| w.classes[*k].methods.iter().filter(|m| m.0 == name).map(|m| m.1)).collect();
            let got = c.case("members/method", &name, || s.resolve_method(Ident::from_ref(name.as_str()), d.idx, &w.pool).map(|r| r.functions).unwrap_or_default());
            c.check(got.as_ref() == Some(&all), "members/method", || format!("{name} of class {k} ({line:?}): {got:?} instead of {all:?}"));
            let got = c.case("members/own-method", &name, || s.resolve_direct_method(Ident::from_ref(name.as_str()), d.idx, &w.pool).map(|r| r.functions).unwrap_or_default());
            c.check(got.as_ref() == Some(&own), "members/own-method", || format!("{name} of class {k}: {got:?} instead of {own:?}"));
        }
    }
    for e in &w.enums {
        for n in 0..5 {
            let name = format!("m{n}");
            let want = e.2.iter().find(|m| m.0 == name).map(|m| m.1);
            let got = c.case("members/enum", &name, || s.resolve_enum_member(Ident::from_ref(name.as_str()), e.0, &w.pool).ok());
            c.check(got == Some(want), "members/enum", || format!("{name} of {}: {got:?} instead of {want:?}", e.1));
        }
    }
}

struct Cand {
    idx: PoolIndex<Function>,
    params: Vec<(T, bool)>,
    cast: bool,
    ret: Option<T>,
}

impl W {
    fn candidate(&mut self, c: &mut Ctx, args: &[T], expected: &Option<T>) -> Cand {
        let mut params = vec![];
        let n = match c.rng.below(8) { 0 => args.len() + 1 + c.rng.below(2) as usize, 1 => args.len().saturating_sub(1), _ => args.len() };
        for k in 0..n {
            let mut t = match args.get(k) {
                Some(a) if c.rng.below(3) == 0 => a.clone(),
                Some(a) if c.rng.below(6) != 0 => self.near(c, a),
                _ => self.any(c, 2),
            };
            if c.rng.below(6) == 0 { t = Script(Box::new(t)); }
            if c.rng.below(12) == 0 { t = Variant; }
            if matches!(args.get(k), Some(Prim(_))) && c.rng.below(2) == 0 { t = args[k].clone(); }
            if args.get(k) == Some(&Prim(2)) && c.rng.bool() { t = Prim(*c.rng.pick(&[2, 3, 6, 7])); }
            if format!("{t:?}").contains("Null") { t = Variant; }
            params.push((t, k >= args.len() && c.rng.below(4) != 0 || c.rng.below(6) == 0));
        }
        let cast = c.rng.below(3) == 0;
        let ret = match expected {
            _ if !cast && c.rng.bool() => None,
            Some(t) if c.rng.below(3) != 0 => { let t = self.near(c, t); if format!("{t:?}").contains("Null") { Some(Variant) } else { Some(t) } }
            _ => Some(self.any(c, 2)),
        };
        let ps: Vec<PoolIndex<Parameter>> = params.iter().map(|(t, opt)| {
            self.count += 1;
            let (n, ty) = (self.pool.names.add(format!("a{}", self.count).into()), self.ty(t));
            self.pool.add_definition(Definition::param(n, PoolIndex::UNDEFINED, Parameter { type_: ty, flags: ParameterFlags::new().with_is_optional(*opt) }))
        }).collect();
        let rt = ret.as_ref().map(|t| self.ty(t));
        self.count += 1;
        let nm = self.pool.names.add(format!("pick;{}", self.count).into());
        let f = Function { visibility: Visibility::Public, flags: FunctionFlags::new().with_is_cast(cast), source: None, return_type: rt, unk1: false, base_method: None, parameters: ps, locals: vec![], operator: None, cast: 0, code: redscript::bytecode::Code::EMPTY, unk2: vec![] };
        let idx = self.pool.add_definition(Definition::function(nm, PoolIndex::UNDEFINED, f));
        Cand { idx, params, cast, ret }
    }
    fn takes(&self, k: &Cand, args: &[T], expected: &Option<T>) -> bool {
        (!k.cast || match (expected, &k.ret) { (Some(e), Some(r)) => self.convert(r, e).is_some(), _ => true })
            && args.iter().zip(&k.params).all(|(a, p)| self.convert(a, &p.0).is_some())
    }
}

fn op_for(conv: &str) -> Option<IntrinsicOp> {
    match conv { "weaken" => Some(IntrinsicOp::RefToWeakRef), "strengthen" => Some(IntrinsicOp::WeakRefToRef), "borrow" => Some(IntrinsicOp::AsRef), "wrap" => Some(IntrinsicOp::ToVariant), _ => None }
}

pub fn run_calls(c: &mut Ctx) {
    for _ in 0..c.n(60) {
        let mut w = W::new(c);
        for _ in 0..25 {
            call(c, &mut w);
        }
    }
}

fn call(c: &mut Ctx, w: &mut W) {
    let n = c.rng.below(4) as usize;
    let args: Vec<T> = (0..n).map(|_| match c.rng.below(8) { 0 => Null, 1 => Prim(*c.rng.pick(&[0, 2, 2, 2])), 2 => w.any(c, 2), 3 => Weak(Box::new(Cl(w.class(c)))), 4 => Cl(w.class(c)), _ => Ref(Box::new(Cl(w.class(c)))) }).collect();
    // a number without a decimal point
    let number: Vec<bool> = args.iter().map(|t| *t == Prim(2) && c.rng.bool()).collect();
    let expected = if c.rng.bool() { None } else { let t = w.any(c, 2); w.ty(&t); Some(t) };
    // the object of a method, or none
    let object = if c.rng.bool() { None } else { let k = w.class(c); Some((k, match c.rng.below(4) { 0 => Cl(k), 1 => Weak(Box::new(Cl(k))), 2 => Script(Box::new(Cl(k))), _ => Ref(Box::new(Cl(k))) })) };
    let mut cands: Vec<Cand> = vec![];
    let mut restore = vec![];
    match &object {
        None => for _ in 0..1 + c.rng.below(4) { cands.push(w.candidate(c, &args, &expected)); },
        Some((k, _)) => {
            for k in w.line(*k) {
                let idx = w.classes[k].idx;
                let def = w.pool.class(idx).unwrap().clone();
                let nm = w.pool.names.add(w.classes[k].name.as_str().into());
                let mut new = def.clone();
                for _ in 0..c.rng.below(3) {
                    let d = w.candidate(c, &args, &expected);
                    new.functions.push(d.idx);
                    cands.push(d);
                }
                w.pool.put_definition(idx, Definition::class(nm, new));
                restore.push((idx, nm, def));
            }
        }
    }
    let sp = |k: usize| Span::new(Pos::new(k), Pos::new(k + 1));
    let mut s = w.scope();
    let (mut src, mut typed): (Vec<Expr<SourceAst>>, Vec<E>) = (vec![], vec![]);
    for (k, t) in args.iter().enumerate() {
        if *t == Null {
            src.push(Expr::Null(sp(k)));
            typed.push(Expr::Null(sp(k)));
        } else if number[k] {
            src.push(Expr::Constant(Constant::I32(7), sp(k)));
            typed.push(Expr::Constant(Constant::I32(7), sp(k)));
        } else {
            let l = w.local(t);
            let name = Ident::from_heap(format!("v{k}").into());
            s.add_local(name.clone(), l);
            src.push(Expr::Ident(name, sp(k)));
            typed.push(Expr::Ident(Reference::Value(Value::Local(l)), sp(k)));
        }
    }
    let pick = Ident::from_static("pick");
    let at = sp(90);
    let mut context = None;
    let (source, expects): (Expr<SourceAst>, Option<TypeId>) = match &object {
        None => {
            for d in &cands {
                s.add_symbol(pick.clone(), Symbol::Functions(vec![(d.idx, Visibility::Public)]));
            }
            (Expr::Call(pick, vec![].into(), src.into_boxed_slice(), at), None)
        }
        Some((k, t)) => {
            let l = w.local(t);
            let name = Ident::from_static("object");
            s.add_local(name.clone(), l);
            let e: E = Expr::Ident(Reference::Value(Value::Local(l)), sp(80));
            context = Some(match t { Weak(_) => Expr::Call(Callable::Intrinsic(IntrinsicOp::WeakRefToRef, w.id_of(&Ref(Box::new(Cl(*k))))), vec![].into(), vec![e].into(), sp(80)), _ => e });
            (Expr::MethodCall(Box::new(Expr::Ident(name, sp(80))), pick, src, at), None)
        }
    };
    let expects = expects.or(expected.as_ref().map(|t| w.id(t)));
    // by the rules
    let fits: Vec<&Cand> = cands.iter().filter(|d| args.len() <= d.params.len() && d.params.iter().filter(|p| !p.1).count() <= args.len()).collect();
    // where there is no choice, a number is read as the type that is wanted
    let mut read = args.clone();
    let mut numbers = vec![None; args.len()];
    if let [d] = &fits[..] {
        for k in 0..args.len() {
            let (v, t) = match &d.params[k].0 { Prim(3) => (Constant::I64(7), 3), Prim(6) => (Constant::F32(7.0), 6), Prim(7) => (Constant::F64(7.0), 7), _ => (Constant::I32(7), 2) };
            if number[k] {
                read[k] = Prim(t);
                numbers[k] = Some(v);
            }
        }
    }
    let chosen = fits.iter().find(|d| w.takes(d, &read, &expected)).copied();
    let what = format!("{source:?} wanted as {expected:?}, arguments {args:?}, candidates {:?}", cands.iter().map(|d| (&d.params, d.cast, &d.ret)).collect::<Vec<_>>());
    let wrap = |e: E, t: TypeId, op: IntrinsicOp, k: usize| -> E { Expr::Call(Callable::Intrinsic(op, t), vec![].into(), vec![e].into(), sp(k)) };
    let passed: Vec<E> = match chosen {
        None => typed,
        Some(d) => typed.into_iter().enumerate().map(|(k, e)| match numbers[k].take() { Some(v) => (k, Expr::Constant(v, sp(k))), None => (k, e) }).map(|(k, e)| match op_for(w.convert(&read[k], &d.params[k].0).unwrap()) { Some(op) => wrap(e, w.id(&d.params[k].0), op, k), None => e }).collect(),
    };
    let index = chosen.map(|d| d.idx).or(cands.first().map(|d| d.idx));
    let result: Option<E> = index.map(|i| match context { None => Expr::Call(Callable::Function(i), vec![].into(), passed.into(), at), Some(x) => Expr::MethodCall(Box::new(x), i, passed, at) });
    let right = chosen.is_some();
    for permissive in [false, true] {
        let mut s2 = s.clone();
        let pool = &mut w.pool;
        let r = c.case("call", &what, || {
            let mut t = TypeChecker::new(pool, permissive);
            let r = t.check(&source, expects.as_ref(), &mut s2);
            (r.map_err(|e| format!("{e:?}")), t.into_diagnostics().len())
        });
        let Some((r, reports)) = r else { continue };
        let ok = match (&r, right, permissive) {
            (Ok(e), true, _) => reports == 0 && result.as_ref().map(show) == Some(show(e)),
            (Ok(e), false, true) => reports == 1 && result.as_ref().map(show) == Some(show(e)),
            (Err(_), false, false) => true,
            // no method of that name
            (Err(_), false, true) => cands.is_empty(),
            _ => false,
        };
        c.check(ok, "call", || format!("{r:?} with {reports} reports instead of {} ({}): {what}", result.as_ref().map(show).unwrap_or_default(), if right { "chosen" } else { "none fits" }));
    }
    for (idx, nm, def) in restore {
        w.pool.put_definition(idx, Definition::class(nm, def));
    }
}
