"""contracts for the types of expressions and the conversions between them (compiler/src/typechecker.rs, scope.rs)"""
import re
from vgen import Unit, F, L
from rsx import LostAnchor
import assembler
from assembler import NODEC, OPEN, TC, SC, SY
from decompile import AST

WORLD = r"""
// ------------------------------------------------------------------ the pool and the names in scope: ASSUMED contracts
#[verifier::external_body]
pub struct ConstantPool { _p: () }
#[verifier::external_body]
pub struct Error { _p: () }
pub type Cause = Error;
impl core::fmt::Debug for Error { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
pub struct ClassDef { pub base: PoolIndex<Class>, pub functions: Vec<PoolIndex<Function>>, pub fields: Vec<PoolIndex<Field>> }
pub struct EnumDef { pub members: Vec<PoolIndex<i64>> }
pub struct FieldDef { pub type_: PoolIndex<Type> }

pub uninterp spec fn cls(p: ConstantPool, i: PoolIndex<Class>) -> Option<ClassDef>;
pub uninterp spec fn fun(p: ConstantPool, i: PoolIndex<Function>) -> Option<Function>;
pub uninterp spec fn par(p: ConstantPool, i: PoolIndex<Parameter>) -> Option<Parameter>;
pub uninterp spec fn loc(p: ConstantPool, i: PoolIndex<Local>) -> Option<Local>;
pub uninterp spec fn fld(p: ConstantPool, i: PoolIndex<Field>) -> Option<FieldDef>;
pub uninterp spec fn enu(p: ConstantPool, i: PoolIndex<Enum>) -> Option<EnumDef>;
pub uninterp spec fn typ(p: ConstantPool, i: PoolIndex<Type>) -> Option<Type>;
pub uninterp spec fn called(p: ConstantPool, i: u32) -> Option<Seq<char>>;
// the part of a function's stored name in front of the first ';'
pub uninterp spec fn plain_name(s: Seq<char>) -> Seq<char>;
// the part of a type's stored name behind the last '.'
pub uninterp spec fn last_part(s: Seq<char>) -> Seq<char>;

impl ConstantPool {
    #[verifier::external_body]
    pub fn class_entry(&self, i: PoolIndex<Class>) -> (r: Result<&ClassDef, Error>) ensures r is Ok <==> cls(*self, i) is Some, r matches Ok(x) ==> cls(*self, i) == Some(*x) { unimplemented!() }
    // with what the entry says about the class (proved)
    pub fn class(&self, i: PoolIndex<Class>) -> (r: Result<&ClassDef, Error>) ensures r is Ok <==> cls(*self, i) is Some, r matches Ok(x) ==> cls(*self, i) == Some(*x), sound(*self) && r is Ok ==> step(*self, i)
    { let r = self.class_entry(i); proof { if sound(*self) && r is Ok { step_of(*self, i); } } r }
    #[verifier::external_body]
    pub fn function(&self, i: PoolIndex<Function>) -> (r: Result<&Function, Error>) ensures r is Ok <==> fun(*self, i) is Some, r matches Ok(x) ==> fun(*self, i) == Some(*x) { unimplemented!() }
    #[verifier::external_body]
    pub fn parameter(&self, i: PoolIndex<Parameter>) -> (r: Result<&Parameter, Error>) ensures r is Ok <==> par(*self, i) is Some, r matches Ok(x) ==> par(*self, i) == Some(*x) { unimplemented!() }
    #[verifier::external_body]
    pub fn local(&self, i: PoolIndex<Local>) -> (r: Result<&Local, Error>) ensures r is Ok <==> loc(*self, i) is Some, r matches Ok(x) ==> loc(*self, i) == Some(*x) { unimplemented!() }
    #[verifier::external_body]
    pub fn field(&self, i: PoolIndex<Field>) -> (r: Result<&FieldDef, Error>) ensures r is Ok <==> fld(*self, i) is Some, r matches Ok(x) ==> fld(*self, i) == Some(*x) { unimplemented!() }
    #[verifier::external_body]
    pub fn enum_(&self, i: PoolIndex<Enum>) -> (r: Result<&EnumDef, Error>) ensures r is Ok <==> enu(*self, i) is Some, r matches Ok(x) ==> enu(*self, i) == Some(*x) { unimplemented!() }
    #[verifier::external_body]
    pub fn type_(&self, i: PoolIndex<Type>) -> (r: Result<&Type, Error>) ensures r is Ok <==> typ(*self, i) is Some, r matches Ok(x) ==> typ(*self, i) == Some(*x) { unimplemented!() }
    #[verifier::external_body]
    pub fn def_name<X>(&self, i: PoolIndex<X>) -> (r: Result<Ident, Error>) ensures r is Ok <==> called(*self, i.value) is Some, r matches Ok(x) ==> called(*self, i.value) == Some(x@) { unimplemented!() }
}
#[verifier::external_body]
pub struct SymMap { _p: () }
impl View for SymMap { type V = Map<Seq<char>, Symbol>; uninterp spec fn view(&self) -> Map<Seq<char>, Symbol>; }
impl SymMap {
    #[verifier::external_body]
    pub fn find(&self, k: &Ident) -> (r: Option<&Symbol>) ensures r is Some <==> self@.contains_key(k@), r matches Some(x) ==> *x == self@[k@] { unimplemented!() }
}
#[verifier::external_body]
pub struct TypeMap { _p: () }
impl View for TypeMap { type V = Map<Seq<char>, PoolIndex<Type>>; uninterp spec fn view(&self) -> Map<Seq<char>, PoolIndex<Type>>; }
impl TypeMap {
    #[verifier::external_body]
    pub fn find(&self, k: &Ident) -> (r: Option<&PoolIndex<Type>>) ensures r is Some <==> self@.contains_key(k@), r matches Some(x) ==> *x == self@[k@] { unimplemented!() }
}
#[verifier::external_body]
pub struct RefMap { _p: () }
@@SCOPE@@

impl Clone for TypeId { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Ident { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body]
pub fn from_heap(i: Ident) -> (r: Ident) ensures r@ == i@ { unimplemented!() }
#[verifier::external_body]
pub fn last_part_of(i: &Ident) -> (r: Ident) ensures r@ == last_part(i@) { unimplemented!() }
#[verifier::external_body]
pub fn plain_name_is(i: &Ident, o: &Ident) -> (r: bool) ensures r == (plain_name(i@) == o@) { unimplemented!() }
#[verifier::external_body]
pub fn same_text_as(i: &Ident, o: &Ident) -> (r: bool) ensures r == (i@ == o@) { unimplemented!() }
#[verifier::external_body]
pub fn is_text(i: &Ident, o: &str) -> (r: bool) ensures r == (i@ == o@) { unimplemented!() }
// derived PartialEq: ASSUMED
#[verifier::external_body]
pub fn same_type(a: &TypeId, b: &TypeId) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
#[verifier::external_body]
pub fn same_class(a: PoolIndex<Class>, b: PoolIndex<Class>) -> (r: bool) ensures r == (a == b) { unimplemented!() }
#[verifier::external_body]
pub fn trouble() -> Error { unimplemented!() }
#[verifier::external_body]
pub fn not_found(a: Ident, b: Ident) -> Error { unimplemented!() }
#[verifier::external_body]
pub fn not_joined(a: Ident, b: Ident) -> Error { unimplemented!() }
#[verifier::external_body]
pub fn unreachable_here<T>() -> T requires false { unimplemented!() }
pub fn no_types() -> (r: Vec<TypeId>) ensures r@ == Seq::<TypeId>::empty() { Vec::new() }
pub fn one_arg(e: Expr) -> (r: Vec<Expr>) ensures r@ == seq![e] { let mut v = Vec::new(); v.push(e); proof { assert(v@ =~= seq![e]); } v }

// ------------------------------------------------------------------ names of types as written in a source
#[derive(Clone, Copy)]
pub enum Kind { Prim, Ref, WRef, ScriptRef, Array }
pub struct TypeName { pub name: Ident, pub arguments: Option<Vec<TypeName>> }
// the stored form (C16)
pub uninterp spec fn stored(t: TypeName) -> Seq<char>;
pub uninterp spec fn kind_of(s: Seq<char>) -> Kind;
pub open spec fn args_of(t: TypeName) -> Seq<TypeName> { match t.arguments { Some(v) => v@, None => Seq::empty() } }
pub enum Args<'a> { None, One(&'a TypeName), More }
impl TypeName {
    #[verifier::external_body]
    pub fn repr(&self) -> (r: Ident) ensures r@ == stored(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn pretty(&self) -> (r: Ident) { unimplemented!() }
    #[verifier::external_body]
    pub fn kind(&self) -> (r: Kind) ensures r == kind_of(self.name@) { unimplemented!() }
    // arguments(), matched against [nested]
    pub fn args(&self) -> (r: Args<'_>) ensures match r { Args::One(x) => args_of(*self).len() == 1 && *x == args_of(*self)[0], Args::None => args_of(*self).len() == 0, Args::More => args_of(*self).len() > 1 }
    { match &self.arguments { None => Args::None, Some(v) => if v.len() == 0 { Args::None } else if v.len() == 1 { Args::One(&v[0]) } else { Args::More } } }
}
// a constant of ast.rs: TypeName::basic(text)
#[verifier::external_body]
pub fn basic(s: &str) -> (r: TypeName) ensures r.name@ == s@, r.arguments is None, stored(r) == s@, kind_of(s@) is Prim { unimplemented!() }
"""

SPEC = r"""
// ------------------------------------------------------------------ the class hierarchy
// n steps up from c; the undefined index behind the topmost class
pub open spec fn up(p: ConstantPool, c: PoolIndex<Class>, n: nat) -> PoolIndex<Class>
    decreases n
{ if n == 0 { c } else { let b = up(p, c, (n - 1) as nat); match cls(p, b) { Some(k) => if b.value == 0 { b } else { k.base }, None => b } } }
pub open spec fn is_a(p: ConstantPool, a: PoolIndex<Class>, b: PoolIndex<Class>) -> bool { b.value != 0 && exists|n: nat| #[trigger] up(p, a, n) == b }
pub proof fn up_base(p: ConstantPool, c: PoolIndex<Class>, k: ClassDef, n: nat)
    requires cls(p, c) == Some(k), c.value != 0
    ensures up(p, c, n + 1) == up(p, k.base, n)
    decreases n
{ if n > 0 { up_base(p, c, k, (n - 1) as nat); assert(up(p, c, n) == up(p, k.base, (n - 1) as nat)); } else { assert(up(p, c, 0) == c); assert(up(p, c, 1) == k.base); } }
pub proof fn is_a_base(p: ConstantPool, c: PoolIndex<Class>, k: ClassDef, b: PoolIndex<Class>)
    requires cls(p, c) == Some(k), c.value != 0
    ensures is_a(p, c, b) == (b.value != 0 && (c == b || is_a(p, k.base, b)))
{
    if is_a(p, c, b) {
        let n = choose|n: nat| #[trigger] up(p, c, n) == b;
        if n > 0 { up_base(p, c, k, (n - 1) as nat); assert(up(p, k.base, (n - 1) as nat) == b); }
    }
    if b.value != 0 && c == b { assert(up(p, c, 0) == b); }
    if is_a(p, k.base, b) { let n = choose|n: nat| #[trigger] up(p, k.base, n) == b; up_base(p, c, k, n); assert(up(p, c, n + 1) == b); }
}
pub proof fn nothing_above(p: ConstantPool, c: PoolIndex<Class>, n: nat)
    requires c.value == 0
    ensures up(p, c, n) == c
    decreases n
{ if n > 0 { nothing_above(p, c, (n - 1) as nat); } }
pub proof fn is_a_nothing(p: ConstantPool, c: PoolIndex<Class>, b: PoolIndex<Class>)
    requires c.value == 0
    ensures !is_a(p, c, b)
{ if is_a(p, c, b) { let n = choose|n: nat| #[trigger] up(p, c, n) == b; nothing_above(p, c, n); } }

// the classes of the pool have existing bases, names, named fields and functions
#[verifier::opaque]
pub open spec fn sound(p: ConstantPool) -> bool {
    &&& called(p, 0) is Some
    &&& forall|c: PoolIndex<Class>| c.value == 0 ==> #[trigger] cls(p, c) is None
    &&& forall|c: PoolIndex<Class>| (#[trigger] cls(p, c)) is Some ==> called(p, c.value) is Some && (cls(p, c)->0.base.value == 0 || cls(p, cls(p, c)->0.base) is Some)
}
pub proof fn sound_nothing(p: ConstantPool, c: PoolIndex<Class>)
    requires sound(p), c.value == 0
    ensures cls(p, c) is None
{ reveal(sound); }
pub proof fn sound_at(p: ConstantPool, c: PoolIndex<Class>)
    requires sound(p), cls(p, c) is Some
    ensures called(p, 0) is Some, called(p, c.value) is Some, cls(p, c)->0.base.value == 0 || cls(p, cls(p, c)->0.base) is Some
{ reveal(sound); }

// one step up
pub open spec fn step(p: ConstantPool, c: PoolIndex<Class>) -> bool {
    let b = cls(p, c)->0.base;
    &&& c.value != 0 && called(p, 0) is Some && called(p, c.value) is Some && (b.value == 0 || cls(p, b) is Some)
    &&& forall|t: PoolIndex<Class>| #[trigger] is_a(p, c, t) == (t.value != 0 && (c == t || is_a(p, b, t)))
    &&& forall|t: PoolIndex<Class>| b.value == 0 ==> !(#[trigger] is_a(p, b, t))
    &&& b.value != 0 ==> is_a(p, b, b)
    &&& chain_of(p, c) == (match chain_of(p, b) { Some(s) => Some(s.push(c)), None => None })
    &&& b.value == 0 ==> chain_of(p, b) == Some(Seq::<PoolIndex<Class>>::empty())
}
pub proof fn step_of(p: ConstantPool, c: PoolIndex<Class>)
    requires sound(p), cls(p, c) is Some
    ensures step(p, c)
{
    sound_at(p, c);
    if c.value == 0 { sound_nothing(p, c); }
    let k = cls(p, c)->0;
    assert(up(p, k.base, 0) == k.base);
    assert forall|t: PoolIndex<Class>| #[trigger] is_a(p, c, t) == (t.value != 0 && (c == t || is_a(p, k.base, t))) by { is_a_base(p, c, k, t); }
    assert forall|t: PoolIndex<Class>| k.base.value == 0 implies !(#[trigger] is_a(p, k.base, t)) by { is_a_nothing(p, k.base, t); }
    chain_base(p, c);
    if k.base.value == 0 { chain_is(p, k.base, Seq::empty()); }
}

// the classes from the topmost one down to c
pub open spec fn chain(p: ConstantPool, c: PoolIndex<Class>, s: Seq<PoolIndex<Class>>) -> bool
    decreases s.len()
{
    if c.value == 0 { s.len() == 0 } else {
        s.len() > 0 && s.last() == c && (match cls(p, c) { Some(k) => chain(p, k.base, s.drop_last()), None => false })
    }
}
pub proof fn chain_unique(p: ConstantPool, c: PoolIndex<Class>, s: Seq<PoolIndex<Class>>, t: Seq<PoolIndex<Class>>)
    requires chain(p, c, s), chain(p, c, t)
    ensures s == t
    decreases s.len()
{
    if c.value == 0 { assert(s =~= t); } else {
        chain_unique(p, cls(p, c)->0.base, s.drop_last(), t.drop_last());
        assert(s =~= s.drop_last().push(s.last())); assert(t =~= t.drop_last().push(t.last()));
    }
}
pub open spec fn chain_of(p: ConstantPool, c: PoolIndex<Class>) -> Option<Seq<PoolIndex<Class>>> { if exists|s: Seq<PoolIndex<Class>>| chain(p, c, s) { Some(choose|s: Seq<PoolIndex<Class>>| chain(p, c, s)) } else { None } }
pub proof fn chain_is(p: ConstantPool, c: PoolIndex<Class>, s: Seq<PoolIndex<Class>>)
    requires chain(p, c, s)
    ensures chain_of(p, c) == Some(s)
{ chain_unique(p, c, s, chain_of(p, c)->0); }
pub proof fn chain_base(p: ConstantPool, c: PoolIndex<Class>)
    requires c.value != 0
    ensures match cls(p, c) { None => chain_of(p, c) is None, Some(k) => chain_of(p, c) == (match chain_of(p, k.base) { Some(s) => Some(s.push(c)), None => None }) }
{
    if chain_of(p, c) is Some { let s = chain_of(p, c)->0; chain_is(p, cls(p, c)->0.base, s.drop_last()); assert(s =~= s.drop_last().push(c)); }
    match cls(p, c) { Some(k) => { if chain_of(p, k.base) is Some { let s = chain_of(p, k.base)->0; assert(s.push(c).drop_last() =~= s); chain_is(p, c, s.push(c)); } }, None => {} }
}
// every class of a chain is what its class is a kind of, and the part of the chain down to it is its own chain
pub proof fn chain_prefix(p: ConstantPool, c: PoolIndex<Class>, s: Seq<PoolIndex<Class>>, i: int)
    requires chain(p, c, s), 0 <= i < s.len()
    ensures is_a(p, c, s[i]), chain(p, s[i], s.take(i + 1))
    decreases s.len()
{
    let k = cls(p, c)->0;
    is_a_base(p, c, k, s[i]);
    if i < s.len() - 1 { chain_prefix(p, k.base, s.drop_last(), i); assert(s.drop_last().take(i + 1) =~= s.take(i + 1)); assert(s.drop_last()[i] == s[i]); }
    else { assert(s.take(i + 1) =~= s); assert(s[i] == c); reveal_with_fuel(chain, 2); }
    if s[i].value == 0 { assert(s.take(i + 1).len() > 0); assert(chain(p, s[i], s.take(i + 1))); }
}
pub proof fn chain_has(p: ConstantPool, c: PoolIndex<Class>, s: Seq<PoolIndex<Class>>, b: PoolIndex<Class>)
    requires chain(p, c, s), is_a(p, c, b)
    ensures exists|i: int| 0 <= i < s.len() && s[i] == b
    decreases s.len()
{
    if c.value == 0 { is_a_nothing(p, c, b); } else {
        let k = cls(p, c)->0;
        is_a_base(p, c, k, b);
        if c == b { assert(s[s.len() - 1] == b); } else {
            chain_has(p, k.base, s.drop_last(), b);
            let i = choose|i: int| 0 <= i < s.drop_last().len() && s.drop_last()[i] == b;
            assert(s[i] == b);
        }
    }
}
// how far two lists agree
pub open spec fn agree(x: Seq<PoolIndex<Class>>, y: Seq<PoolIndex<Class>>, k: int) -> int
    decreases x.len() - k
{ if 0 <= k < x.len() && k < y.len() && x[k] == y[k] { agree(x, y, k + 1) } else { k } }
pub proof fn agree_what(x: Seq<PoolIndex<Class>>, y: Seq<PoolIndex<Class>>, k: int)
    requires 0 <= k <= x.len(), k <= y.len()
    ensures k <= agree(x, y, k) <= x.len(), agree(x, y, k) <= y.len(), forall|i: int| k <= i < agree(x, y, k) ==> x[i] == y[i],
        agree(x, y, k) < x.len() && agree(x, y, k) < y.len() ==> x[agree(x, y, k)] != y[agree(x, y, k)],
    decreases x.len() - k
{ if k < x.len() && k < y.len() && x[k] == y[k] { agree_what(x, y, k + 1); } }
pub open spec fn shared(p: ConstantPool, a: PoolIndex<Class>, b: PoolIndex<Class>) -> Option<PoolIndex<Class>> {
    match (chain_of(p, a), chain_of(p, b)) { (Some(x), Some(y)) => if agree(x, y, 0) > 0 { Some(x[agree(x, y, 0) - 1]) } else { None }, _ => None }
}
// it is the nearest class both are kinds of
pub proof fn shared_is_nearest(p: ConstantPool, a: PoolIndex<Class>, b: PoolIndex<Class>)
    requires chain_of(p, a) is Some, chain_of(p, b) is Some
    ensures match shared(p, a, b) {
        Some(c) => is_a(p, a, c) && is_a(p, b, c) && forall|d: PoolIndex<Class>| is_a(p, a, d) && is_a(p, b, d) ==> is_a(p, c, d),
        None => forall|d: PoolIndex<Class>| !(is_a(p, a, d) && is_a(p, b, d)),
    }
{
    let x = chain_of(p, a)->0;
    let y = chain_of(p, b)->0;
    let n = agree(x, y, 0);
    agree_what(x, y, 0);
    if n > 0 { chain_prefix(p, a, x, n - 1); chain_prefix(p, b, y, n - 1); }
    assert forall|d: PoolIndex<Class>| is_a(p, a, d) && is_a(p, b, d) implies n > 0 && is_a(p, x[n - 1], d) by {
        chain_has(p, a, x, d); chain_has(p, b, y, d);
        let i = choose|i: int| 0 <= i < x.len() && x[i] == d;
        let j = choose|j: int| 0 <= j < y.len() && y[j] == d;
        chain_prefix(p, a, x, i); chain_prefix(p, b, y, j);
        chain_unique(p, d, x.take(i + 1), y.take(j + 1));
        assert(x.take(i + 1).len() == i + 1); assert(y.take(j + 1).len() == j + 1);
        if n <= i { assert(x.take(i + 1)[n] == x[n]); assert(y.take(j + 1)[n] == y[n]); }
        let z = x.take(n);
        assert(z[i] == d);
        chain_prefix(p, x[n - 1], z, i);
    }
}

// ------------------------------------------------------------------ conversions
pub open spec fn conv(p: ConstantPool, from: TypeId, to: TypeId) -> Option<Conversion>
    decreases to
{
    if from == to { Some(Conversion::Identity) } else {
        match (from, to) {
            (TypeId::Null, TypeId::Ref(_)) => Some(Conversion::Identity),
            (TypeId::Null, TypeId::WeakRef(_)) => Some(Conversion::RefToWeakRef),
            (TypeId::Class(a), TypeId::Class(b)) => if is_a(p, a, b) { Some(Conversion::Identity) } else { None },
            (TypeId::Struct(a), TypeId::Struct(b)) => if is_a(p, a, b) { Some(Conversion::Identity) } else { None },
            (TypeId::Ref(a), TypeId::Ref(b)) => if conv(p, *a, *b) == Some(Conversion::Identity) { Some(Conversion::Identity) } else { None },
            (TypeId::WeakRef(a), TypeId::WeakRef(b)) => if conv(p, *a, *b) == Some(Conversion::Identity) { Some(Conversion::Identity) } else { None },
            (TypeId::WeakRef(a), TypeId::Ref(b)) => if conv(p, *a, *b) == Some(Conversion::Identity) { Some(Conversion::WeakRefToRef) } else { None },
            (TypeId::Ref(a), TypeId::WeakRef(b)) => if conv(p, *a, *b) == Some(Conversion::Identity) { Some(Conversion::RefToWeakRef) } else { None },
            (a, TypeId::ScriptRef(b)) => if conv(p, a, *b) == Some(Conversion::Identity) { Some(Conversion::ToScriptRef) } else { None },
            (_, TypeId::Variant) => Some(Conversion::ToVariant),
            _ => None,
        }
    }
}
// a type without the references around it
pub open spec fn bare(t: TypeId) -> TypeId
    decreases t
{ match t { TypeId::Ref(x) | TypeId::WeakRef(x) | TypeId::ScriptRef(x) => bare(*x), _ => t } }
// the classes a type is made of exist
pub open spec fn exists_(p: ConstantPool, t: TypeId) -> bool
    decreases t
{
    match t {
        TypeId::Class(c) | TypeId::Struct(c) => cls(p, c) is Some && c.value != 0,
        TypeId::Ref(x) | TypeId::WeakRef(x) | TypeId::ScriptRef(x) | TypeId::Array(x) => exists_(p, *x),
        TypeId::StaticArray(x, _) => exists_(p, *x),
        _ => true,
    }
}
pub open spec fn op_of(c: Conversion) -> IntrinsicOp {
    match c { Conversion::RefToWeakRef => IntrinsicOp::RefToWeakRef, Conversion::WeakRefToRef => IntrinsicOp::WeakRefToRef, Conversion::ToScriptRef => IntrinsicOp::AsRef, _ => IntrinsicOp::ToVariant }
}
pub open spec fn converted(e: Expr, to: TypeId, c: Conversion, r: Expr) -> bool {
    if c == Conversion::Identity { r == e } else { r matches Expr::Call(f, ts, args, s) && f == Callable::Intrinsic(op_of(c), to) && ts@.len() == 0 && args@ == seq![e] && s == place(e) }
}

// ------------------------------------------------------------------ the nearest type both sides are kinds of
pub open spec fn join(p: ConstantPool, a: TypeId, b: TypeId) -> Option<TypeId>
    decreases a
{
    if a == b { Some(a) } else {
        match (a, b) {
            (TypeId::Ref(_), TypeId::Null) | (TypeId::WeakRef(_), TypeId::Null) => Some(a),
            (TypeId::Null, TypeId::Ref(_)) | (TypeId::Null, TypeId::WeakRef(_)) => Some(b),
            (TypeId::Ref(x), TypeId::Ref(y)) => match join(p, *x, *y) { Some(z) => Some(TypeId::Ref(Box::new(z))), None => None },
            (TypeId::WeakRef(x), TypeId::WeakRef(y)) => match join(p, *x, *y) { Some(z) => Some(TypeId::WeakRef(Box::new(z))), None => None },
            (TypeId::Class(x), TypeId::Class(y)) => match shared(p, x, y) { Some(z) => Some(TypeId::Class(z)), None => None },
            (TypeId::Struct(x), TypeId::Struct(y)) => match shared(p, x, y) { Some(z) => Some(TypeId::Struct(z)), None => None },
            _ => None,
        }
    }
}
// what the two sides of a conditional are joined to is a type both convert to without a change of value
pub open spec fn of_class(t: TypeId) -> bool { match t { TypeId::Class(_) => true, TypeId::Struct(_) => true, TypeId::Prim(_) => true, TypeId::Enum(_) => true, _ => false } }
pub open spec fn usual(t: TypeId) -> bool { match t { TypeId::Ref(x) | TypeId::WeakRef(x) => of_class(*x), _ => true } }
pub proof fn join_is_above(p: ConstantPool, a: TypeId, b: TypeId)
    requires usual(a), usual(b)
    ensures join(p, a, b) matches Some(t) ==> conv(p, a, t) is Some && conv(p, b, t) is Some && usual(t)
    decreases a
{
    if a != b {
        match (a, b) {
            (TypeId::Ref(x), TypeId::Ref(y)) => { classes_join(p, *x, *y); }
            (TypeId::WeakRef(x), TypeId::WeakRef(y)) => { classes_join(p, *x, *y); }
            (TypeId::Class(_), TypeId::Class(_)) => { classes_join(p, a, b); }
            (TypeId::Struct(_), TypeId::Struct(_)) => { classes_join(p, a, b); }
            _ => {}
        }
    }
}
pub proof fn classes_join(p: ConstantPool, a: TypeId, b: TypeId)
    requires of_class(a), of_class(b)
    ensures join(p, a, b) matches Some(t) ==> conv(p, a, t) == Some(Conversion::Identity) && conv(p, b, t) == Some(Conversion::Identity) && of_class(t)
{
    match (a, b) {
        (TypeId::Class(x), TypeId::Class(y)) => { if a != b && join(p, a, b) is Some { shared_is_nearest(p, x, y); } }
        (TypeId::Struct(x), TypeId::Struct(y)) => { if a != b && join(p, a, b) is Some { shared_is_nearest(p, x, y); } }
        _ => {}
    }
}

// zip(..).take_while(|(a, b)| a == b).last() written out
pub fn last_agreeing(x: Vec<PoolIndex<Class>>, y: Vec<PoolIndex<Class>>) -> (r: Option<(PoolIndex<Class>, PoolIndex<Class>)>)
    ensures agree(x@, y@, 0) > 0 ==> r == Some((x@[agree(x@, y@, 0) - 1], y@[agree(x@, y@, 0) - 1])), agree(x@, y@, 0) <= 0 ==> r is None
{
    let mut at = 0;
    let mut r = None;
    while at < x.len() && at < y.len() && same_class(x[at], y[at])
        invariant at <= x@.len(), at <= y@.len(), agree(x@, y@, 0) == agree(x@, y@, at as int), at > 0 ==> r == Some((x@[at - 1], y@[at - 1])), at == 0 ==> r is None
        decreases x@.len() - at
    { r = Some((x[at], y[at])); at = at + 1; }
    r
}
pub proof fn chained(p: ConstantPool, c: PoolIndex<Class>)
    requires sound(p), chain_of(p, c) is Some
    ensures called(p, c.value) is Some
{ reveal(sound); if c.value != 0 { chain_base(p, c); } }

// ------------------------------------------------------------------ what a type entry of the pool means
pub open spec fn symbol_type(s: Scope, n: Seq<char>) -> Option<TypeId> {
    if !s.symbols@.contains_key(n) { None } else {
        match s.symbols@[n] { Symbol::Class(i, _) => Some(TypeId::Class(i)), Symbol::Struct(i, _) => Some(TypeId::Struct(i)), Symbol::Enum(i) => Some(TypeId::Enum(i)), _ => None }
    }
}
pub open spec fn means(s: Scope, p: ConstantPool, i: PoolIndex<Type>, t: TypeId) -> bool
    decreases t
{
    match typ(p, i) {
        None => false,
        Some(Type::Prim) => called(p, i.value) is Some && t == (if called(p, i.value)->0 == "Variant"@ { TypeId::Variant } else { TypeId::Prim(i) }),
        Some(Type::Class) => called(p, i.value) is Some && symbol_type(s, last_part(called(p, i.value)->0)) == Some(t),
        Some(Type::Ref(j)) => t matches TypeId::Ref(x) && means(s, p, j, *x),
        Some(Type::WeakRef(j)) => t matches TypeId::WeakRef(x) && means(s, p, j, *x),
        Some(Type::Array(j)) => t matches TypeId::Array(x) && means(s, p, j, *x),
        Some(Type::StaticArray(j, n)) => t matches TypeId::StaticArray(x, m) && m == n && means(s, p, j, *x),
        Some(Type::ScriptRef(j)) => t matches TypeId::ScriptRef(x) && means(s, p, j, *x),
    }
}
pub proof fn means_one(s: Scope, p: ConstantPool, i: PoolIndex<Type>, t: TypeId, q: TypeId)
    requires means(s, p, i, t), means(s, p, i, q)
    ensures t == q
    decreases t
{
    match (t, q) {
        (TypeId::Ref(x), TypeId::Ref(y)) => { match typ(p, i) { Some(Type::Ref(j)) => means_one(s, p, j, *x, *y), _ => {} } }
        (TypeId::WeakRef(x), TypeId::WeakRef(y)) => { match typ(p, i) { Some(Type::WeakRef(j)) => means_one(s, p, j, *x, *y), _ => {} } }
        (TypeId::Array(x), TypeId::Array(y)) => { match typ(p, i) { Some(Type::Array(j)) => means_one(s, p, j, *x, *y), _ => {} } }
        (TypeId::StaticArray(x, _), TypeId::StaticArray(y, _)) => { match typ(p, i) { Some(Type::StaticArray(j, _)) => means_one(s, p, j, *x, *y), _ => {} } }
        (TypeId::ScriptRef(x), TypeId::ScriptRef(y)) => { match typ(p, i) { Some(Type::ScriptRef(j)) => means_one(s, p, j, *x, *y), _ => {} } }
        _ => {}
    }
}
pub open spec fn meant(s: Scope, p: ConstantPool, i: PoolIndex<Type>) -> Option<TypeId> { if exists|t: TypeId| means(s, p, i, t) { Some(choose|t: TypeId| means(s, p, i, t)) } else { None } }
pub proof fn meant_is(s: Scope, p: ConstantPool, i: PoolIndex<Type>, t: TypeId)
    requires means(s, p, i, t)
    ensures meant(s, p, i) == Some(t)
{ means_one(s, p, i, t, meant(s, p, i)->0); }
// with what the inner entry means, the outer one is settled
pub open spec fn lift(s: Scope, p: ConstantPool, i: PoolIndex<Type>) -> Option<TypeId> {
    match typ(p, i) {
        None => None,
        Some(Type::Prim) => match called(p, i.value) { Some(n) => Some(if n == "Variant"@ { TypeId::Variant } else { TypeId::Prim(i) }), None => None },
        Some(Type::Class) => match called(p, i.value) { Some(n) => symbol_type(s, last_part(n)), None => None },
        Some(Type::Ref(j)) => match meant(s, p, j) { Some(x) => Some(TypeId::Ref(Box::new(x))), None => None },
        Some(Type::WeakRef(j)) => match meant(s, p, j) { Some(x) => Some(TypeId::WeakRef(Box::new(x))), None => None },
        Some(Type::Array(j)) => match meant(s, p, j) { Some(x) => Some(TypeId::Array(Box::new(x))), None => None },
        Some(Type::StaticArray(j, n)) => match meant(s, p, j) { Some(x) => Some(TypeId::StaticArray(Box::new(x), n)), None => None },
        Some(Type::ScriptRef(j)) => match meant(s, p, j) { Some(x) => Some(TypeId::ScriptRef(Box::new(x))), None => None },
    }
}
pub proof fn meant_lift(s: Scope, p: ConstantPool, i: PoolIndex<Type>)
    ensures meant(s, p, i) == lift(s, p, i)
{
    if lift(s, p, i) is Some { assert(means(s, p, i, lift(s, p, i)->0)); meant_is(s, p, i, lift(s, p, i)->0); }
    if meant(s, p, i) is Some {
        let t = meant(s, p, i)->0;
        assert(means(s, p, i, t));
        match typ(p, i) {
            Some(Type::Ref(j)) => meant_is(s, p, j, *(t->Ref_0)), Some(Type::WeakRef(j)) => meant_is(s, p, j, *(t->WeakRef_0)), Some(Type::Array(j)) => meant_is(s, p, j, *(t->Array_0)),
            Some(Type::StaticArray(j, _)) => meant_is(s, p, j, *(t->StaticArray_0)), Some(Type::ScriptRef(j)) => meant_is(s, p, j, *(t->ScriptRef_0)), _ => {}
        }
    }
}
// a type as it is written in a source: an entry of the pool of that name, else put together from its parts, else a name in scope
pub open spec fn written(s: Scope, p: ConstantPool, t: TypeName) -> Option<TypeId>
    decreases t
{
    if s.types@.contains_key(stored(t)) { meant(s, p, s.types@[stored(t)]) } else {
        match t.arguments {
            Some(v) => if v@.len() == 1 && !(kind_of(t.name@) is Prim) {
                match written(s, p, v@[0]) {
                    Some(x) => Some(match kind_of(t.name@) { Kind::Ref => TypeId::Ref(Box::new(x)), Kind::WRef => TypeId::WeakRef(Box::new(x)), Kind::ScriptRef => TypeId::ScriptRef(Box::new(x)), _ => TypeId::Array(Box::new(x)) }),
                    None => None,
                }
            } else { symbol_type(s, stored(t)) },
            None => symbol_type(s, stored(t)),
        }
    }
}
pub open spec fn named(s: Scope, p: ConstantPool, n: Seq<char>) -> Option<TypeId> { if s.types@.contains_key(n) { meant(s, p, s.types@[n]) } else { symbol_type(s, n) } }

// ------------------------------------------------------------------ the name a type goes by in the pool
pub uninterp spec fn decimal(n: u32) -> Seq<char>;
pub open spec fn spell(p: ConstantPool, t: TypeId) -> Option<Seq<char>>
    decreases t
{
    match t {
        TypeId::Prim(i) => called(p, i.value),
        TypeId::Class(i) | TypeId::Struct(i) => called(p, i.value),
        TypeId::Enum(i) => called(p, i.value),
        TypeId::Ref(x) => match spell(p, *x) { Some(n) => Some("ref:"@ + n), None => None },
        TypeId::WeakRef(x) => match spell(p, *x) { Some(n) => Some("wref:"@ + n), None => None },
        TypeId::Array(x) => match spell(p, *x) { Some(n) => Some("array:"@ + n), None => None },
        TypeId::StaticArray(x, k) => match spell(p, *x) { Some(n) => Some(n + "["@ + decimal(k) + "]"@), None => None },
        TypeId::ScriptRef(x) => match spell(p, *x) { Some(n) => Some("script_ref:"@ + n), None => None },
        TypeId::Variant => Some("Variant"@),
        TypeId::Null => Some("ref:IScriptable"@),
        TypeId::Void => None,
    }
}
// every part of the type has a name
pub open spec fn nameable(p: ConstantPool, t: TypeId) -> bool
    decreases t
{
    match t {
        TypeId::Prim(i) => called(p, i.value) is Some,
        TypeId::Class(i) | TypeId::Struct(i) => called(p, i.value) is Some,
        TypeId::Enum(i) => called(p, i.value) is Some,
        TypeId::Ref(x) | TypeId::WeakRef(x) | TypeId::ScriptRef(x) | TypeId::Array(x) => nameable(p, *x),
        TypeId::StaticArray(x, _) => nameable(p, *x),
        _ => true,
    }
}
pub uninterp spec fn cname(p: ConstantPool, n: PoolIndex<CName>) -> Option<Seq<char>>;
// entries are added, never changed
pub open spec fn grew(p: ConstantPool, q: ConstantPool) -> bool {
    &&& forall|i: u32| (#[trigger] called(p, i)) is Some ==> called(q, i) == called(p, i)
    &&& forall|n: PoolIndex<CName>| (#[trigger] cname(p, n)) is Some ==> cname(q, n) == cname(p, n)
    &&& forall|i: PoolIndex<Type>| (#[trigger] typ(p, i)) is Some ==> typ(q, i) == typ(p, i)
}
pub broadcast proof fn spell_grew(p: ConstantPool, q: ConstantPool, t: TypeId)
    requires #[trigger] grew(p, q)
    ensures spell(p, t) is Some ==> #[trigger] spell(q, t) == spell(p, t)
    decreases t
{
    match t {
        TypeId::Ref(x) | TypeId::WeakRef(x) | TypeId::Array(x) | TypeId::ScriptRef(x) => spell_grew(p, q, *x),
        TypeId::StaticArray(x, _) => spell_grew(p, q, *x),
        _ => {}
    }
}
impl ConstantPool {
    // pool.names.add(..), pool.add_definition(Definition::type_(..)): ASSUMED here, proved in C09 and C10
    #[verifier::external_body]
    pub fn add_name(&mut self, n: &Ident) -> (r: PoolIndex<CName>) ensures grew(*old(self), *final(self)), cname(*final(self), r) == Some(n@) { unimplemented!() }
    #[verifier::external_body]
    pub fn add_type_entry(&mut self, n: PoolIndex<CName>, t: Type) -> (r: PoolIndex<Type>)
        ensures grew(*old(self), *final(self)), called(*final(self), r.value) == cname(*old(self), n), typ(*final(self), r) == Some(t)
    { unimplemented!() }
}
impl TypeMap {
    #[verifier::external_body]
    pub fn insert(&self, k: Ident, v: PoolIndex<Type>) -> (r: TypeMap) ensures r@ == self@.insert(k@, v) { unimplemented!() }
}
#[verifier::external_body]
pub fn text_of(s: &str) -> (r: Ident) ensures r@ == s@ { unimplemented!() }
pub trait Shown { spec fn shown(&self) -> Seq<char>; }
impl Shown for Ident { open spec fn shown(&self) -> Seq<char> { self@ } }
impl Shown for u32 { open spec fn shown(&self) -> Seq<char> { decimal(*self) } }
impl Shown for &u32 { open spec fn shown(&self) -> Seq<char> { decimal(**self) } }
// str_fmt! of one or two values between fixed texts
#[verifier::external_body]
pub fn shown<A: Shown>(a: &A) -> (r: Ident) ensures r@ == a.shown() { unimplemented!() }
#[verifier::external_body]
pub fn joined_value<A: Shown>(x: Ident, a: &A) -> (r: Ident) ensures r@ == x@ + a.shown() { unimplemented!() }
#[verifier::external_body]
pub fn joined_text(x: Ident, y: &str) -> (r: Ident) ensures r@ == x@ + y@ { unimplemented!() }
// every name in the table leads to the entry of that name
pub open spec fn indexed(s: Scope, p: ConstantPool) -> bool { forall|n: Seq<char>| #[trigger] s.types@.contains_key(n) ==> called(p, s.types@[n].value) == Some(n) }
pub open spec fn kept(s: Scope, q: Scope) -> bool { q.symbols == s.symbols && q.references == s.references && q.this == s.this && q.function == s.function && forall|n: Seq<char>| #[trigger] s.types@.contains_key(n) ==> q.types@.contains_key(n) && q.types@[n] == s.types@[n] }
// the entry made for a type: its kind, and the entry of what it is made of
pub open spec fn made_for(p: ConstantPool, i: PoolIndex<Type>, t: TypeId) -> bool {
    match t {
        TypeId::Prim(_) | TypeId::Variant => typ(p, i) == Some(Type::Prim),
        TypeId::Class(_) | TypeId::Struct(_) | TypeId::Enum(_) => typ(p, i) == Some(Type::Class),
        TypeId::Ref(x) => typ(p, i) matches Some(Type::Ref(j)) && called(p, j.value) == spell(p, *x),
        TypeId::WeakRef(x) => typ(p, i) matches Some(Type::WeakRef(j)) && called(p, j.value) == spell(p, *x),
        TypeId::Array(x) => typ(p, i) matches Some(Type::Array(j)) && called(p, j.value) == spell(p, *x),
        TypeId::StaticArray(x, n) => typ(p, i) matches Some(Type::StaticArray(j, m)) && m == n && called(p, j.value) == spell(p, *x),
        TypeId::ScriptRef(x) => typ(p, i) matches Some(Type::ScriptRef(j)) && called(p, j.value) == spell(p, *x),
        _ => false,
    }
}

// ------------------------------------------------------------------ members
pub open spec fn field_in(p: ConstantPool, v: Vec<PoolIndex<Field>>, n: Seq<char>, k: int) -> Option<PoolIndex<Field>>
    decreases v@.len() - k
{ if k < 0 || k >= v@.len() { None } else if called(p, v@[k].value) == Some(n) { Some(v@[k]) } else { field_in(p, v, n, k + 1) } }
pub open spec fn member_in(p: ConstantPool, v: Vec<PoolIndex<i64>>, n: Seq<char>, k: int) -> Option<PoolIndex<i64>>
    decreases v@.len() - k
{ if k < 0 || k >= v@.len() { None } else if called(p, v@[k].value) == Some(n) { Some(v@[k]) } else { member_in(p, v, n, k + 1) } }
pub open spec fn own_field(p: ConstantPool, c: PoolIndex<Class>, n: Seq<char>) -> Option<PoolIndex<Field>> { match cls(p, c) { Some(k) => field_in(p, k.fields, n, 0), None => None } }
// f is the field called n of the nearest class that has one
pub open spec fn field_at(p: ConstantPool, c: PoolIndex<Class>, n: Seq<char>, f: PoolIndex<Field>, k: nat) -> bool {
    own_field(p, up(p, c, k), n) == Some(f) && forall|j: nat| j < k ==> own_field(p, #[trigger] up(p, c, j), n) is None
}
pub open spec fn has_field(p: ConstantPool, c: PoolIndex<Class>, n: Seq<char>, f: PoolIndex<Field>) -> bool { exists|k: nat| #[trigger] field_at(p, c, n, f, k) }
pub proof fn inherits(p: ConstantPool, c: PoolIndex<Class>, n: Seq<char>)
    requires c.value != 0, cls(p, c) is Some, own_field(p, c, n) is None
    ensures forall|f: PoolIndex<Field>| #[trigger] has_field(p, c, n, f) == has_field(p, cls(p, c)->0.base, n, f)
{
    let b = cls(p, c)->0.base;
    assert forall|f: PoolIndex<Field>| has_field(p, c, n, f) == has_field(p, b, n, f) by {
        if has_field(p, c, n, f) {
            let k = choose|k: nat| #[trigger] field_at(p, c, n, f, k);
            assert(up(p, c, 0) == c);
            up_base(p, c, cls(p, c)->0, (k - 1) as nat);
            assert forall|j: nat| j < k - 1 implies own_field(p, #[trigger] up(p, b, j), n) is None by { up_base(p, c, cls(p, c)->0, j); assert(own_field(p, up(p, c, j + 1), n) is None); }
            assert(field_at(p, b, n, f, (k - 1) as nat));
        }
        if has_field(p, b, n, f) {
            let k = choose|k: nat| #[trigger] field_at(p, b, n, f, k);
            up_base(p, c, cls(p, c)->0, k);
            assert forall|j: nat| j < k + 1 implies own_field(p, #[trigger] up(p, c, j), n) is None by { if j > 0 { up_base(p, c, cls(p, c)->0, (j - 1) as nat); assert(own_field(p, up(p, b, (j - 1) as nat), n) is None); } else { assert(up(p, c, 0) == c); } }
            assert(field_at(p, c, n, f, k + 1));
        }
    }
}
pub proof fn own_first(p: ConstantPool, c: PoolIndex<Class>, n: Seq<char>, f: PoolIndex<Field>)
    requires own_field(p, c, n) == Some(f)
    ensures has_field(p, c, n, f)
{ assert(up(p, c, 0) == c); assert(field_at(p, c, n, f, 0)); }
pub proof fn none_above(p: ConstantPool, c: PoolIndex<Class>, n: Seq<char>)
    requires c.value == 0, cls(p, c) is None || own_field(p, c, n) is None
    ensures forall|f: PoolIndex<Field>| !has_field(p, c, n, f)
{
    assert forall|f: PoolIndex<Field>| !has_field(p, c, n, f) by { if has_field(p, c, n, f) { let k = choose|k: nat| #[trigger] field_at(p, c, n, f, k); nothing_above(p, c, k); } }
}
pub proof fn fields_of(p: ConstantPool, c: PoolIndex<Class>, n: Seq<char>)
    requires sound(p), named_fields(p)
    ensures match cls(p, c) {
        None => forall|f: PoolIndex<Field>| !(#[trigger] has_field(p, c, n, f)),
        Some(k) => match field_in(p, k.fields, n, 0) {
            Some(f) => has_field(p, c, n, f),
            None => (forall|f: PoolIndex<Field>| #[trigger] has_field(p, c, n, f) == has_field(p, k.base, n, f)) && (k.base.value == 0 ==> forall|f: PoolIndex<Field>| !(#[trigger] has_field(p, c, n, f))),
        },
    }, (cls(p, c) matches Some(k) ==> forall|i: int| 0 <= i < k.fields@.len() ==> called(p, (#[trigger] k.fields@[i]).value) is Some),
{
    reveal(named_fields);
    match cls(p, c) {
        None => { assert forall|f: PoolIndex<Field>| !has_field(p, c, n, f) by { if has_field(p, c, n, f) { let k = choose|k: nat| #[trigger] field_at(p, c, n, f, k); stuck(p, c, k); } } }
        Some(k) => {
            sound_at(p, c);
            if c.value == 0 { sound_nothing(p, c); }
            if field_in(p, k.fields, n, 0) is Some { own_first(p, c, n, own_field(p, c, n)->0); } else {
                inherits(p, c, n);
                if k.base.value == 0 { sound_nothing(p, k.base); none_above(p, k.base, n); }
            }
        }
    }
}
pub proof fn stuck(p: ConstantPool, c: PoolIndex<Class>, n: nat)
    requires cls(p, c) is None
    ensures up(p, c, n) == c
    decreases n
{ if n > 0 { stuck(p, c, (n - 1) as nat); } }
#[verifier::opaque]
pub open spec fn named_fields(p: ConstantPool) -> bool { forall|c: PoolIndex<Class>, i: int| cls(p, c) is Some && 0 <= i < cls(p, c)->0.fields@.len() ==> called(p, (#[trigger] cls(p, c)->0.fields@[i]).value) is Some }
#[verifier::opaque]
pub open spec fn named_methods(p: ConstantPool) -> bool { forall|c: PoolIndex<Class>, i: int| cls(p, c) is Some && 0 <= i < cls(p, c)->0.functions@.len() ==> called(p, (#[trigger] cls(p, c)->0.functions@[i]).value) is Some }
// the methods called n that a class declares itself, in order
pub open spec fn own_methods(p: ConstantPool, v: Vec<PoolIndex<Function>>, n: Seq<char>, k: int) -> Seq<PoolIndex<Function>>
    decreases k
{ if k <= 0 || k > v@.len() { Seq::empty() } else { let r = own_methods(p, v, n, k - 1); if called(p, v@[k - 1].value) is Some && plain_name(called(p, v@[k - 1].value)->0) == n { r.push(v@[k - 1]) } else { r } } }
pub open spec fn declared(p: ConstantPool, c: PoolIndex<Class>, n: Seq<char>) -> Seq<PoolIndex<Function>> { match cls(p, c) { Some(k) => own_methods(p, k.functions, n, k.functions@.len() as int), None => Seq::empty() } }
// those of the first k classes of the line, nearest first
pub open spec fn inherited(p: ConstantPool, c: PoolIndex<Class>, n: Seq<char>, k: nat) -> Seq<PoolIndex<Function>>
    decreases k
{ if k == 0 { Seq::empty() } else { inherited(p, c, n, (k - 1) as nat) + declared(p, up(p, c, (k - 1) as nat), n) } }
// k classes up there are no more
pub open spec fn height(p: ConstantPool, c: PoolIndex<Class>, k: nat) -> bool { up(p, c, k).value == 0 && forall|j: nat| j < k ==> (#[trigger] up(p, c, j)).value != 0 }

// ------------------------------------------------------------------ the type of an expression
pub open spec fn no_type() -> Option<TypeId> { Some(TypeId::Void) }
pub open spec fn type_of_(s: Scope, p: ConstantPool, e: Expr) -> Option<TypeId>
    decreases e
{
    match e {
        Expr::Ident(r, _) => match r {
            Reference::Value(Value::Local(i)) => match loc(p, i) { Some(l) => meant(s, p, l.type_), None => None },
            Reference::Value(Value::Parameter(i)) => match par(p, i) { Some(l) => meant(s, p, l.type_), None => None },
            Reference::Symbol(Symbol::Class(i, _)) => Some(TypeId::Class(i)),
            Reference::Symbol(Symbol::Struct(i, _)) => Some(TypeId::Struct(i)),
            Reference::Symbol(Symbol::Enum(i)) => Some(TypeId::Enum(i)),
            Reference::Symbol(Symbol::Functions(_)) => None,
        },
        Expr::Constant(c, _) => match c {
            Constant::String(Literal::String, _) => named(s, p, "String"@),
            Constant::String(Literal::Name, _) => named(s, p, "CName"@),
            Constant::String(Literal::Resource, _) => named(s, p, "ResRef"@),
            Constant::String(Literal::TweakDbId, _) => named(s, p, "TweakDBID"@),
            Constant::F32(_) => named(s, p, "Float"@),
            Constant::F64(_) => named(s, p, "Double"@),
            Constant::I32(_) => named(s, p, "Int32"@),
            Constant::I64(_) => named(s, p, "Int64"@),
            Constant::U32(_) => named(s, p, "Uint32"@),
            Constant::U64(_) => named(s, p, "Uint64"@),
            Constant::Bool(_) => named(s, p, "Bool"@),
        },
        Expr::ArrayLit(_, t, _) => match t { Some(t) => Some(TypeId::Array(t)), None => None },
        Expr::InterpolatedString(_, _, _) => named(s, p, "String"@),
        Expr::Cast(t, x, _) => match type_of_(s, p, *x) {
            None => None,
            Some(TypeId::WeakRef(_)) | Some(TypeId::Ref(_)) => Some(TypeId::Ref(Box::new(t))),
            Some(TypeId::ScriptRef(_)) => Some(TypeId::ScriptRef(Box::new(t))),
            Some(_) => Some(t),
        },
        Expr::Call(Callable::Function(i), _, _, _) | Expr::MethodCall(_, i, _, _) => match fun(p, i) { None => None, Some(g) => match g.return_type { None => Some(TypeId::Void), Some(t) => meant(s, p, t) } },
        Expr::Call(Callable::Intrinsic(_, t), _, _, _) => Some(t),
        Expr::Member(_, m, _) => match m { Member::StructField(f) | Member::ClassField(f) => match fld(p, f) { Some(d) => meant(s, p, d.type_), None => None }, Member::EnumMember(e, _) => Some(TypeId::Enum(e)) },
        Expr::ArrayElem(x, _, _) => match type_of_(s, p, *x) { Some(TypeId::StaticArray(t, _)) => Some(*t), Some(TypeId::Array(t)) => Some(*t), _ => None },
        Expr::New(t, _, _) => match t { TypeId::Struct(_) => Some(t), TypeId::Class(_) => Some(TypeId::Ref(Box::new(t))), _ => None },
        Expr::Conditional(_, x, y, _) => match (type_of_(s, p, *x), type_of_(s, p, *y)) { (Some(a), Some(b)) => join(p, a, b), _ => None },
        Expr::This(_) => match s.this { Some(c) => Some(TypeId::Ref(Box::new(TypeId::Class(c)))), None => None },
        Expr::Super(_) => match s.this { Some(c) => match cls(p, c) { Some(k) => Some(TypeId::Ref(Box::new(TypeId::Class(k.base)))), None => None }, None => None },
        Expr::Null(_) => Some(TypeId::Null),
        Expr::BinOp(_, _, _, _) | Expr::UnOp(_, _, _) => None,
        _ => Some(TypeId::Void),
    }
}
// array literals carry their type
pub open spec fn settled(e: Expr) -> bool
    decreases e
{
    match e {
        Expr::ArrayLit(_, t, _) => t is Some,
        Expr::Cast(_, x, _) => settled(*x),
        Expr::ArrayElem(x, _, _) => settled(*x),
        Expr::Conditional(_, x, y, _) => settled(*x) && settled(*y),
        _ => true,
    }
}
"""


def constants(u):
    t = u.src(AST).text
    c = dict(re.findall(r'pub const (\w+): Self = TypeName::basic\("(\w+)"\);', t))
    return c


def build(repo):
    u = Unit("conversions", repo)
    types(u, None)
    return u


def types(u, mode):
    names = constants(u)
    u.global_rw = [("Seq<TypedAst>", "Block"), ("TypedExpr", "Expr"), (".with_span(*span)?", "?"), (".with_span(span)?", "?"), (".with_span(*span)", ""), (".with_span($s)?", "?"), ("PoolIndex::UNDEFINED", "PoolIndex::new(0)"),
                   ("Ident::from_heap($x)", "from_heap($x)")] + [("&TypeName::" + k, '&basic("%s")' % v) for k, v in names.items()]
    assembler.base(u)
    import advice
    u.struct(SC, "Scope", rw=[("Map<Ident, Symbol>", "SymMap"), ("Map<Ident, Value>", "RefMap"), ("Map<Ident, PoolIndex<Type>>", "TypeMap")])
    u.raw(WORLD.replace("@@SCOPE@@", ""))
    u.enum(TC, "Conversion", attrs="#[derive(Clone, Copy)]")
    u.struct(SC, "FunctionCandidates")
    # where an expression stands: proved in C20
    spec = advice.SPEC
    u.raw(re.search(r"pub uninterp spec fn around.*?\n", spec).group(0) if "uninterp spec fn around" in spec else "pub uninterp spec fn around(a: Span, b: Span) -> Span;")
    u.raw("pub uninterp spec fn place(e: Expr) -> Span;")
    u.raw("impl Expr { #[verifier::external_body] pub fn span(&self) -> (r: Span) ensures r == place(*self) { unimplemented!() } }")
    u.raw("#[verifier::external_body]\npub fn same_conversion(a: Option<Conversion>, b: Option<Conversion>) -> (r: bool) ensures r == (a == b) { unimplemented!() }")
    u.raw(SPEC)
    u.default_mode = mode
    # ---------------------------------------------------------------- conversions
    u.fn(TC, "find_conversion", F("""requires sound(*pool),
    ensures r matches Ok(c) ==> c == conv(*pool, *from, *to), r is Err ==> !exists_(*pool, *from),""", attrs=NODEC, rw=[
        ("if from == to {", "if same_type(from, to) {"),
        ("if class.base != PoolIndex::new(0) {", "if !class.base.is_undefined() {"),
        ("find_conversion(from, to, pool)?.filter(|conv| *conv == Conversion::Identity)", "(match find_conversion(from, to, pool)? { Some(Conversion::Identity) => Some(Conversion::Identity), _ => None })"),
        ("find_conversion(from, to, pool)? == Some(Conversion::Identity)", "same_conversion(find_conversion(from, to, pool)?, Some(Conversion::Identity))")]))
    u.fn(TC, "insert_conversion", F("ensures converted(expr, *type_, conversion, r),", rw=[("[].into()", "no_types()"), ("[expr].into()", "one_arg(expr)")]))
    # ---------------------------------------------------------------- the nearest common type
    u.fn(TC, "collect_supertypes", F("""requires sound(*pool),
    ensures match r { Ok(l) => chain_of(*pool, class_idx) == Some(l@), Err(_) => chain_of(*pool, class_idx) is None },""", attrs=NODEC, sig_rw=[("PoolError", "Error")],
        pre="proof { if class_idx.value == 0 { chain_is(*pool, class_idx, Seq::empty()); } else { chain_base(*pool, class_idx); } }", rw=[("vec![]", "Vec::new()")]))
    lub = u.src(TC).item("fn", "lub")
    inner = [c for c in lub.children() if c.kind == "fn" and c.name == "lub_class"]
    shared = F("""requires sound(*pool),
    ensures match r { Ok(c) => shared(*pool, a, b) == Some(c), Err(_) => shared(*pool, a, b) is None },""", rw=[
        ("$x:id.into_iter().zip($y:id).take_while(|(a, b)| a == b).last()", "last_agreeing($x, $y)"),
        ("res.map(|(i, _)| i).ok_or_else(|| $e)", "(match res { Some((i, _)) => Ok(i), None => { proof { chained(*pool, a); chained(*pool, b); } Err($e) } })"),
        ("Cause::UnificationFailed($x)", "not_joined($x)")])
    if inner:
        u.raw(u.fn_text(inner[0], shared, TC + "::lub::lub_class"))
    else:
        u.fn(TC, "lub_class", shared)
    u.fn(TC, "lub", F("""requires sound(*pool),
    ensures match r { Ok(t) => join(*pool, a, b) == Some(t), Err(_) => join(*pool, a, b) is None },""", attrs=NODEC, split_or=True, rw=[(u._rw(i.text, u.global_rw, "lub_class"), "") for i in inner] + [
        ("if a == b {", "if same_type(&a, &b) {"), ("Cause::UnificationFailed($x)", "not_joined($x)")]))
    FMT = [("Ident::from_static($x)", "text_of($x)"), ("Err(PoolError::UnexpectedEntry($x))", "Err(trouble())")]
    for x in sorted(set(re.findall(r'str_fmt!\("([^"]*)"', u.src(SC).text))):
        q, acc, args = x.split("{}"), None, []
        for k, lit in enumerate(q):
            if k:
                v = "&$a" if len(args) == 0 else "$b"
                args.append(v)
                acc = "shown(%s)" % v if acc is None else "joined_value(%s, %s)" % (acc, v)
            if lit:
                acc = 'text_of("%s")' % lit if acc is None else 'joined_text(%s, "%s")' % (acc, lit)
        FMT.append(('str_fmt!("%s", %s)' % (x, ", ".join(["$a", "$b:id"][:len(args)])), acc))
    tid = {
        "repr": F("ensures match r { Ok(n) => spell(*pool, *self) == Some(n@), Err(_) => spell(*pool, *self) is None },", attrs=NODEC, split_or=True, sig_rw=[("PoolError", "Error")], rw=FMT),
        "unwrapped": F("ensures *r == bare(*self),", attrs=NODEC, split_or=True),
        "pretty": F("ensures r is Ok <==> nameable(*pool, *self),", attrs=NODEC, split_or=True, sig_rw=[("PoolError", "Error")], rw=FMT),
    }
    u.impl(SC, "TypeId", tid)
    # ---------------------------------------------------------------- what entries and names stand for
    MEANT = "ensures match r { Ok(t) => %s == Some(t), Err(_) => %s is None },"
    OWN = [("let mut functions = vec![];", "let mut functions: Vec<PoolIndex<Function>> = Vec::new();"), ("for fun in &class.functions {", "for at in 0..class.functions.len() { let fun = &class.functions[at];"),
           ("FunctionSignature::from_raw(&pool.def_name(*fun)?).name() == ident.as_ref()", "plain_name_is(&pool.def_name(*fun)?, &ident)"), ("functions.is_empty()", "(functions.len() == 0)"), ("Cause::MethodNotFound($x)", "not_found($x)")]
    u.impl(SC, "Scope", {
        "add_type": F("ensures final(self).types@ == old(self).types@.insert(name@, typ), final(self).symbols == old(self).symbols, final(self).references == old(self).references, final(self).this == old(self).this, final(self).function == old(self).function,"),
        "get_type_index": F("""requires indexed(*old(self), *old(pool)), old(self).types@.contains_key("ref:IScriptable"@),
    ensures indexed(*final(self), *final(pool)), kept(*old(self), *final(self)), grew(*old(pool), *final(pool)), r is Ok <==> spell(*old(pool), *type_) is Some,
        r matches Ok(i) ==> called(*final(pool), i.value) == spell(*old(pool), *type_) && final(self).types@.contains_key(spell(*old(pool), *type_)->0) && final(self).types@[spell(*old(pool), *type_)->0] == i
            && (old(self).types@.contains_key(spell(*old(pool), *type_)->0) || made_for(*final(pool), i, *type_)),""", attrs=NODEC, split_or=True, pre="broadcast use spell_grew;", rw=[
            ("pool.names.add($n:id.to_heap())", "pool.add_name(&$n)"), ("pool.add_definition(Definition::type_($x))", "pool.add_type_entry($x)"), ("panic!()", "unreachable_here()")]),
        "resolve_type_from_pool": F(MEANT % (("meant(*self, *pool, index)",) * 2), attrs=NODEC, pre="proof { meant_lift(*self, *pool, index); }", rw=[
            ("match from_heap(pool.def_name(index)?) { tp if tp == TypeName::VARIANT.name() => TypeId::Variant, _ => TypeId::Prim(index), }",
             "match from_heap(pool.def_name(index)?) { tp if is_text(&tp, \"%s\") => TypeId::Variant, _ => TypeId::Prim(index), }" % names["VARIANT"]),
            ("Ident::from_ref(name.split('.').last().unwrap())", "last_part_of(&name)"), ("return Err(Cause::UnresolvedType($x))", "return Err(trouble())"),
            ("match pool.type_(index)? {", "match *pool.type_(index)? {"), ("self.resolve_type_from_pool(*type_, pool)", "self.resolve_type_from_pool(type_, pool)"), ("Box::new(inner), *size", "Box::new(inner), size")]),
        "resolve_type": F(MEANT % (("written(*self, *pool, *name)",) * 2), attrs=NODEC, rw=[
            ("match (name.kind(), name.arguments()) {", "match (name.kind(), name.args()) {"), ("[nested]", "Args::One(nested)"), ("return Err(Cause::UnresolvedType($x))", "return Err(trouble())")]),
        "resolve_field": F("""requires sound(*pool), named_fields(*pool),
    ensures match r { Ok(f) => has_field(*pool, class_idx, ident@, f), Err(_) => forall|f: PoolIndex<Field>| !has_field(*pool, class_idx, ident@, f) },""", attrs=OPEN, rw=[
            ("pool.def_name(*field)?.as_ref() == ident.as_ref()", "same_text_as(&pool.def_name(*field)?, &ident)"),
            ("for field in &class.fields {", "for at in 0..class.fields.len() { let field = &class.fields[at];"),
            ("class.base != PoolIndex::new(0)", "!class.base.is_undefined()"),
            ("Self::resolve_field($x).map_err(|_| $e)", "(match Self::resolve_field($x) { Ok(f) => Ok(f), Err(_) => Err($e) })"), ("Cause::MemberNotFound($x)", "not_found($x)")],
            pre="proof { fields_of(*pool, class_idx, ident@); }", loops=[L("for", "own_field(*pool, class_idx, ident@) == field_in(*pool, class.fields, ident@, at as int)")]),
        "resolve_enum_member": F("""ensures match r { Ok(f) => enu(*pool, enum_idx) is Some && member_in(*pool, enu(*pool, enum_idx)->0.members, ident@, 0) == Some(f),
        Err(_) => enu(*pool, enum_idx) matches Some(e) ==> member_in(*pool, e.members, ident@, 0) is None || exists|i: int| 0 <= i < e.members@.len() && called(*pool, (#[trigger] e.members@[i]).value) is None },""", attrs=OPEN, rw=[
            ("pool.def_name(*field)?.as_ref() == ident.as_ref()", "same_text_as(&pool.def_name(*field)?, &ident)"),
            ("for field in &enum_.members {", "for at in 0..enum_.members.len() { let field = &enum_.members[at];"), ("Cause::MemberNotFound($x)", "not_found($x)")],
            loops=[L("for", "member_in(*pool, enum_.members, ident@, 0) == member_in(*pool, enum_.members, ident@, at as int)")]),
        "resolve_direct_method": F("""ensures r matches Ok(c) ==> c.functions@ == declared(*pool, class_idx, ident@) && c.functions@.len() > 0,
        r is Err ==> cls(*pool, class_idx) is None || declared(*pool, class_idx, ident@).len() == 0 || !named_methods(*pool),""", attrs=OPEN, pre="proof { reveal(named_methods); }", rw=OWN,
            loops=[L("for", "functions@ == own_methods(*pool, class.functions, ident@, at as int)")]),
        "resolve_method": F("""requires sound(*pool),
    ensures r matches Ok(c) ==> c.functions@.len() > 0 && exists|k: nat| #[trigger] height(*pool, class_idx, k) && c.functions@ == inherited(*pool, class_idx, ident@, k),
        r is Err ==> !named_methods(*pool) || cls(*pool, class_idx) is None || exists|k: nat| #[trigger] height(*pool, class_idx, k) && inherited(*pool, class_idx, ident@, k).len() == 0,""", attrs=OPEN, pre="proof { reveal(named_methods); } let ghost mut n: nat = 0;", rw=OWN + [
            ("while current_idx != PoolIndex::new(0) {", "while !current_idx.is_undefined() {"), ("current_idx = class.base;", "current_idx = class.base; proof { n = n + 1; }")],
            loops=[L("while", """current_idx == up(*pool, class_idx, n), functions@ == inherited(*pool, class_idx, ident@, n), forall|j: nat| j < n ==> (#[trigger] up(*pool, class_idx, j)).value != 0,
                n > 0 ==> current_idx.value == 0 || cls(*pool, current_idx) is Some, n > 0 ==> cls(*pool, class_idx) is Some, n == 0 ==> current_idx == class_idx""", done="proof { assert(height(*pool, class_idx, n)); if class_idx.value == 0 { sound_nothing(*pool, class_idx); } else if cls(*pool, class_idx) is Some { sound_at(*pool, class_idx); } }"),
                   L("for", "functions@ == inherited(*pool, class_idx, ident@, n) + own_methods(*pool, class.functions, ident@, at as int)")],
            ),
    }, hdr="impl Scope")
    # ---------------------------------------------------------------- the type of an expression
    u.fn(TC, "type_of", F("""requires sound(*pool), settled(*expr),
    ensures match r { Ok(t) => type_of_(*scope, *pool, *expr) == Some(t), Err(_) => type_of_(*scope, *pool, *expr) is None },""", attrs=NODEC, split_or=True, rw=[
        ("return Err(Cause::$a:id($x))", "return Err(trouble())"), ("return Err(Cause::$a:id)", "return Err(trouble())")]))
    u.default_mode = None
