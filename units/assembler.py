"""contracts for the code generator (compiler/src/assembler.rs): the instructions of every construct"""
import re
from vgen import Unit, F, L
from rsx import rewrite, strip_inner_attrs
import instr
import codebody
import cursor
import decompile
from instr import B, BU, DF
from decompile import AST, INTRINSIC
from codec import contract_file
from optable import TABLE
from printer import steps

A = "compiler/src/assembler.rs"
TC = "compiler/src/typechecker.rs"
SC = "compiler/src/scope.rs"
SY = "compiler/src/symbol.rs"
NODEC = "#[verifier::exec_allows_no_decreases_clause]"
OPEN = NODEC + "\n#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]"

# the instructions that name a type
TYPED = [n for n, _, o in TABLE if "P:Type" in o]


def tree(u):
    """the typed syntax tree: ast.rs at Name = TypedAst, the name kinds of typechecker.rs and scope.rs"""
    src = u.src(AST)
    names = u.src(TC)
    kinds = {}
    for it in names.items:
        if it.kind == "impl" and "NameKind for TypedAst" in it.text:
            kinds = dict(re.findall(r"type (\w+) = ([^;]+);", it.text))
    u.raw("""
#[verifier::external_body]
pub struct Ident { _p: () }
impl View for Ident { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[derive(Clone, Copy)]
pub struct Pos(pub u32);
#[derive(Clone, Copy)]
pub struct Span { pub low: Pos, pub high: Pos }
impl Span { pub const ZERO: Span = Span { low: Pos(0), high: Pos(0) }; }
""")
    u.enum(AST, "Literal")
    u.enum(AST, "Constant", rw=[("Ref<str>", "RefStr")])
    u.enum(AST, "BinOp", attrs="#[derive(Clone, Copy)]")
    u.enum(AST, "UnOp", attrs="#[derive(Clone, Copy)]")
    u.struct(AST, "Target", attrs="#[derive(Clone, Copy)]")
    u.enum(SC, "TypeId")
    u.enum(SC, "Value")
    u.enum(SY, "Symbol")
    u.enum(SC, "Reference")
    u.enum(TC, "Callable")
    u.enum(TC, "Member")
    for kind, name in (("enum", "Expr"), ("struct", "SwitchCase"), ("struct", "Seq")):
        t = strip_inner_attrs(src.item(kind, name).text, keep=())
        t = re.sub(r"<\s*(Name|N)\s*>\s*where.*?\{", " {", t, count=1, flags=re.S)
        t = re.sub(r"^pub\s+", "", t)
        for k, v in kinds.items():
            t = rewrite(t, "Name::" + k, v)
        for a, b in [("Box<[Self]>", "Vec<Self>"), ("Box<[TypeId]>", "Vec<TypeId>"), ("Seq<Name>", "Block"), ("SwitchCase<Name>", "SwitchCase"), ("Expr<Name>", "Expr"),
                     ("Expr<N>", "Expr"), ("Seq<N>", "Block"), ("Ref<str>", "RefStr")]:
            t = rewrite(t, a, b)
        if name == "Seq":
            t = re.sub(r"\bstruct Seq\b", "struct Block", t)
        u.raw("pub " + t)


def typed_by(ops):
    return "(%s)" % ", ".join("x" if k == "P:Type" else "a%d" % i for i, k in enumerate(ops))


WORLD = """
// ------------------------------------------------------------------ the program being compiled: ASSUMED contracts on the pool, the scope and the type checker
#[verifier::external_body]
pub struct ConstantPool { _p: () }
#[verifier::external_body]
pub struct Scope { _p: () }
#[verifier::external_body]
pub struct Files { _p: () }
#[verifier::external_body]
pub struct Error { _p: () }
pub type Cause = Error;

// what the declarations in scope and pool say; texts and types entered into the pool do not change it
#[verifier::external_body]
pub ghost struct Names { _p: () }
#[verifier::external_body]
pub ghost struct Decls { _p: () }
pub ghost struct Env { pub s: Names, pub p: Decls }
pub uninterp spec fn names(s: Scope) -> Names;
pub uninterp spec fn decls(p: ConstantPool) -> Decls;
pub open spec fn env(s: Scope, p: ConstantPool) -> Env { Env { s: names(s), p: decls(p) } }

pub uninterp spec fn ty(v: Env, e: Expr) -> Option<TypeId>;
// the name a type goes by in the pool (different types can share one: null and ref<IScriptable>)
pub uninterp spec fn spelled(v: Env, t: TypeId) -> Option<Seq<char>>;
pub uninterp spec fn fun(d: Decls, i: PoolIndex<Function>) -> Option<Function>;
pub uninterp spec fn par(d: Decls, i: PoolIndex<Parameter>) -> Option<Parameter>;
pub uninterp spec fn enu(d: Decls, i: PoolIndex<Enum>) -> Option<EnumDef>;
pub uninterp spec fn name_index(d: Decls, i: PoolIndex<Function>) -> Option<PoolIndex<CName>>;
pub uninterp spec fn name_text(d: Decls, i: u32) -> Option<Seq<char>>;
pub uninterp spec fn blank(d: Decls, kind: int) -> Seq<char>;
pub uninterp spec fn line_at(f: Files, s: Span) -> u16;

// what an index of the pool stands for
pub uninterp spec fn text(p: ConstantPool, kind: int, i: u32) -> Option<Seq<char>>;
pub uninterp spec fn type_at(p: ConstantPool, i: u32) -> Option<Seq<char>>;
// entries are added, never changed
#[verifier::opaque]
pub open spec fn grown(p: ConstantPool, q: ConstantPool) -> bool {
    &&& decls(q) == decls(p)
    &&& forall|k: int, i: u32| (#[trigger] text(p, k, i)) is Some ==> text(q, k, i) == text(p, k, i)
    &&& forall|i: u32| (#[trigger] type_at(p, i)) is Some ==> type_at(q, i) == type_at(p, i)
}
// entry 0 of every text table is the blank one
#[verifier::opaque]
pub open spec fn based(p: ConstantPool) -> bool { forall|k: int| 0 <= k < 4 ==> #[trigger] text(p, k, 0) == Some(blank(decls(p), k)) }

pub struct EnumDef { pub members: Vec<PoolIndex<i64>> }
impl ConstantPool {
    #[verifier::external_body]
    pub fn function(&self, i: PoolIndex<Function>) -> (r: Result<&Function, Error>) ensures r is Ok <==> fun(decls(*self), i) is Some, r matches Ok(x) ==> fun(decls(*self), i) == Some(*x) { unimplemented!() }
    #[verifier::external_body]
    pub fn parameter(&self, i: PoolIndex<Parameter>) -> (r: Result<&Parameter, Error>) ensures r is Ok <==> par(decls(*self), i) is Some, r matches Ok(x) ==> par(decls(*self), i) == Some(*x) { unimplemented!() }
    #[verifier::external_body]
    pub fn enum_(&self, i: PoolIndex<Enum>) -> (r: Result<&EnumDef, Error>) ensures r is Ok <==> enu(decls(*self), i) is Some, r matches Ok(x) ==> enu(decls(*self), i) == Some(*x) { unimplemented!() }
    #[verifier::external_body]
    pub fn name_of(&self, i: PoolIndex<Function>) -> (r: Result<PoolIndex<CName>, Error>) ensures r is Ok <==> name_index(decls(*self), i) is Some, r matches Ok(x) ==> name_index(decls(*self), i) == Some(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn def_name<X>(&self, i: PoolIndex<X>) -> (r: Result<Ident, Error>) ensures r is Ok <==> name_text(decls(*self), i.value) is Some, r matches Ok(x) ==> name_text(decls(*self), i.value) == Some(x@) { unimplemented!() }
@@ADD@@
}
impl Scope {
    #[verifier::external_body]
    pub fn get_type_index(&mut self, t: &TypeId, pool: &mut ConstantPool) -> (r: Result<PoolIndex<Type>, Error>)
        ensures names(*final(self)) == names(*old(self)), grown(*old(pool), *final(pool)), r is Ok <==> spelled(env(*old(self), *old(pool)), *t) is Some,
            r matches Ok(i) ==> type_at(*final(pool), i.value) == spelled(env(*old(self), *old(pool)), *t)
    { unimplemented!() }
}
#[verifier::external_body]
pub fn type_of(e: &Expr, scope: &Scope, pool: &ConstantPool) -> (r: Result<TypeId, Error>)
    ensures r is Ok <==> ty(env(*scope, *pool), *e) is Some, r matches Ok(t) ==> ty(env(*scope, *pool), *e) == Some(t)
{ unimplemented!() }
#[verifier::external_body]
pub fn line_of(files: &Files, span: Span) -> (r: u16) ensures r == line_at(*files, span) { unimplemented!() }
#[verifier::external_body]
pub fn trouble() -> Error { unimplemented!() }
#[verifier::external_body]
pub fn same_name(a: &Ident, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub fn no_text() -> (r: RefStr) ensures r@ == ""@ { unimplemented!() }
// the first element, taken out
pub fn take_first<T>(v: &mut Vec<T>) -> (r: T)
    requires old(v)@.len() > 0
    ensures r == old(v)@[0], final(v)@ == old(v)@.skip(1)
{ let r = v.remove(0); assert(v@ =~= old(v)@.skip(1)); r }
// the first element, if there is one (slice::first)
pub fn first_of<T>(v: &Vec<T>) -> (r: Option<&T>)
    ensures r is None <==> v@.len() == 0, r matches Some(x) ==> *x == v@[0]
{ if v.len() > 0 { Some(&v[0]) } else { None } }
// counters of labels stay below 2^64: ASSUMED
#[verifier::external_body]
pub fn next_count(n: usize) -> (r: usize) ensures r == n + 1 { n + 1 }
#[verifier::external_body]
pub fn elsewhere<T>() -> T requires false { unimplemented!() }
#[verifier::external_body]
pub fn unreachable_here<T>() -> T requires false { unimplemented!() }
"""

SPEC = """
// ------------------------------------------------------------------ instructions by what their indices stand for
pub ghost enum V { Plain(Instr<Label>), Text(int, Option<Seq<char>>), Typed(Instr<Label>, Option<Seq<char>>) }
pub open spec fn noty() -> PoolIndex<Type> { PoolIndex { value: 0, phantom: PhantomData } }
pub open spec fn vi(i: Instr<Label>, p: ConstantPool) -> V {
    match i {
        Instr::StringConst(x) => V::Text(0, text(p, 0, x.value)),
        Instr::NameConst(x) => V::Text(1, text(p, 1, x.value)),
        Instr::ResourceConst(x) => V::Text(2, text(p, 2, x.value)),
        Instr::TweakDbIdConst(x) => V::Text(3, text(p, 3, x.value)),
@@TYPED@@
        _ => V::Plain(i),
    }
}
pub open spec fn whole(x: V) -> bool { match x { V::Plain(_) => true, V::Text(_, t) => t is Some, V::Typed(_, t) => t is Some } }
#[verifier::opaque]
pub open spec fn sound(s: Seq<V>) -> bool { forall|i: int| 0 <= i < s.len() ==> whole(#[trigger] s[i]) }
#[verifier::opaque]
pub open spec fn vis(s: Seq<Instr<Label>>, p: ConstantPool) -> Seq<V> { Seq::new(s.len(), |k: int| vi(s[k], p)) }

pub mod flow {
use vstd::prelude::*;
use super::*;
pub broadcast proof fn vis_push(s: Seq<Instr<Label>>, i: Instr<Label>, p: ConstantPool)
    ensures #[trigger] vis(s.push(i), p) == vis(s, p).push(vi(i, p)),
{ reveal(vis); assert(vis(s.push(i), p) =~= vis(s, p).push(vi(i, p))); }
pub broadcast proof fn vis_grown(s: Seq<Instr<Label>>, p: ConstantPool, q: ConstantPool)
    requires #[trigger] grown(p, q), sound(vis(s, p)),
    ensures #[trigger] vis(s, q) == vis(s, p),
{
    reveal(vis); reveal(grown); reveal(sound);
    assert forall|k: int| 0 <= k < s.len() implies vi(#[trigger] s[k], q) == vi(s[k], p) by { assert(whole(vis(s, p)[k])); }
    assert(vis(s, q) =~= vis(s, p));
}
pub broadcast proof fn sound_push(s: Seq<V>, x: V)
    ensures #[trigger] sound(s.push(x)) == (sound(s) && whole(x)),
{
    reveal(sound);
    if sound(s.push(x)) { assert forall|i: int| 0 <= i < s.len() implies whole(#[trigger] s[i]) by { assert(s.push(x)[i] == s[i]); } assert(whole(s.push(x)[s.len() as int])); }
}
pub broadcast proof fn grown_decls(p: ConstantPool, q: ConstantPool)
    requires #[trigger] grown(p, q),
    ensures decls(q) == decls(p), based(p) ==> based(q),
{ reveal(grown); reveal(based); if based(p) { assert forall|k: int| 0 <= k < 4 implies #[trigger] text(q, k, 0) == Some(blank(decls(q), k)) by { assert(text(p, k, 0) is Some); } } }
pub broadcast proof fn grown_trans(p: ConstantPool, q: ConstantPool, r: ConstantPool)
    requires #[trigger] grown(p, q), #[trigger] grown(q, r),
    ensures grown(p, r),
{ reveal(grown); assert forall|k: int, i: u32| (#[trigger] text(p, k, i)) is Some implies text(r, k, i) == text(p, k, i) by { assert(text(q, k, i) == text(p, k, i)); }
  assert forall|i: u32| (#[trigger] type_at(p, i)) is Some implies type_at(r, i) == type_at(p, i) by { assert(type_at(q, i) == type_at(p, i)); } }
pub broadcast proof fn grown_same(p: ConstantPool)
    ensures #[trigger] grown(p, p),
{ reveal(grown); }
pub broadcast proof fn blank_text(p: ConstantPool)
    requires #[trigger] based(p),
    ensures text(p, 0, 0) == Some(blank(decls(p), 0)), text(p, 1, 0) == Some(blank(decls(p), 1)), text(p, 2, 0) == Some(blank(decls(p), 2)), text(p, 3, 0) == Some(blank(decls(p), 3)),
{ reveal(based); }
pub broadcast proof fn skip_first<T>(s: Seq<T>, n: int)
    requires 0 <= n < s.len(),
    ensures #[trigger] s.skip(n).skip(1) == s.skip(n + 1),
{ assert(s.skip(n).skip(1) =~= s.skip(n + 1)); }
pub broadcast group group_flow { vis_push, vis_grown, sound_push, grown_decls, grown_trans, grown_same, blank_text, skip_first }
}

// ------------------------------------------------------------------ what the construct is compiled to
// the instructions so far and the number of labels handed out
pub ghost struct Out { pub code: Seq<V>, pub n: nat }
pub open spec fn put(a: Out, x: V) -> Out { Out { code: a.code.push(x), n: a.n } }
pub open spec fn op(a: Out, i: Instr<Label>) -> Out { put(a, V::Plain(i)) }
pub open spec fn fresh(a: Out) -> Label { Label { index: a.n as usize } }
pub open spec fn drew(a: Out) -> Out { Out { code: a.code, n: a.n + 1 } }
pub open spec fn mark(a: Out, l: Label) -> Out { op(a, Instr::Target(l)) }
// an instruction that names the type t (written with the blank index)
pub open spec fn typed(v: Env, a: Out, i: Instr<Label>, t: Option<TypeId>) -> Option<Out> {
    match t { Some(x) => match spelled(v, x) { Some(n) => Some(put(a, V::Typed(i, Some(n)))), None => None }, None => None }
}
pub open spec fn then_args(v: Env, f: Files, a: Option<Out>, s: Vec<Expr>) -> Option<Out> { match a { Some(a) => gen_from(v, f, s, 0, None, a), None => None } }
@@GEN@@
"""

GEN = """
// a statement without effect
#[verifier::opaque]
pub open spec fn empty(e: Expr) -> bool
    decreases e
{
    match e { Expr::Seq(b) => forall|i: int| 0 <= i < b.exprs@.len() ==> empty(#[trigger] b.exprs@[i]), _ => false }
}
pub open spec fn empty_block(b: Block) -> bool { forall|i: int| 0 <= i < b.exprs@.len() ==> empty(#[trigger] b.exprs@[i]) }

// statements or operands from the k-th on
#[verifier::opaque]
pub open spec fn gen_from(v: Env, f: Files, s: Vec<Expr>, k: int, exit: Option<Label>, a: Out) -> Option<Out>
    decreases s, s@.len() - k
{
    if k < 0 || k >= s@.len() { Some(a) } else { match gen(v, f, s@[k], exit, a) { Some(a) => gen_from(v, f, s, k + 1, exit, a), None => None } }
}
#[verifier::opaque]
pub open spec fn gen_block(v: Env, f: Files, b: Block, exit: Option<Label>, a: Out) -> Option<Out>
    decreases b, 0int
{
    gen_from(v, f, b.exprs, 0, exit, a)
}
// arguments: those a short-circuit parameter may leave unevaluated can be skipped; with less parameters than arguments there is no code
#[verifier::opaque]
pub open spec fn gen_args(v: Env, f: Files, s: Vec<Expr>, lazy: Seq<bool>, k: int, a: Out) -> Option<Out>
    decreases s, s@.len() - k
{
    if k < 0 || k >= s@.len() || k >= lazy.len() { Some(a) }
    else if lazy[k] {
        let skip = fresh(a);
        match gen(v, f, s@[k], None, op(drew(a), Instr::Skip(skip))) { Some(a) => gen_args(v, f, s, lazy, k + 1, mark(a, skip)), None => None }
    } else {
        match gen(v, f, s@[k], None, a) { Some(a) => gen_args(v, f, s, lazy, k + 1, a), None => None }
    }
}
// cases from the k-th on; `body`: where the cases just before, which have no body of their own, continue; `next`: where the last case leads when it does not match
#[verifier::opaque]
pub open spec fn gen_cases(v: Env, f: Files, s: Vec<SwitchCase>, k: int, body: Option<Label>, next: Label, exit: Label, a: Out) -> Option<(Out, Option<Label>, Label)>
    decreases s, s@.len() - k
{
    if k < 0 || k >= s@.len() { Some((a, body, next)) } else {
        let lb = match body { Some(l) => l, None => fresh(a) };
        let a = match body { Some(l) => a, None => drew(a) };
        let a = mark(a, next);
        let next = fresh(a);
        match gen(v, f, s@[k].matcher, None, op(drew(a), Instr::SwitchLabel(next, lb))) {
            None => None,
            Some(a) =>
                if empty_block(s@[k].body) { gen_cases(v, f, s, k + 1, Some(lb), next, exit, a) }
                else { match gen_block(v, f, s@[k].body, Some(exit), mark(a, lb)) { Some(a) => gen_cases(v, f, s, k + 1, None, next, exit, a), None => None } },
        }
    }
}
#[verifier::opaque]
pub open spec fn gen_call(v: Env, f: Files, i: PoolIndex<Function>, s: Vec<Expr>, direct: bool, span: Span, a: Out) -> Option<Out>
    decreases s, s@.len() + 1
{
    match fun(v.p, i) {
        None => None,
        Some(g) => {
            let end = fresh(a);
            let a = drew(a);
            let flags = by_value(v, s, s@.len() as int);
            if !known_params(v.p, g.parameters@) || (virtual_call(g, direct) && name_index(v.p, i) is None) || g.parameters@.len() < s@.len() { None } else {
                let a = op(a, if virtual_call(g, direct) { Instr::InvokeVirtual(end, line_at(f, span), name_index(v.p, i)->0, flags) } else { Instr::InvokeStatic(end, line_at(f, span), i, flags) });
                match gen_args(v, f, s, lazy_params(v.p, g.parameters@), 0, a) {
                    None => None,
                    Some(a) => Some(mark(op(nops(a, g.parameters@.len() - s@.len()), Instr::ParamEnd), end)),
                }
            }
        },
    }
}
#[verifier::opaque]
pub open spec fn gen(v: Env, f: Files, e: Expr, exit: Option<Label>, a: Out) -> Option<Out>
    decreases e, 0int
{
    match e {
        Expr::Ident(r, _) => match r {
            Reference::Value(Value::Local(i)) => Some(op(a, Instr::Local(i))),
            Reference::Value(Value::Parameter(i)) => Some(op(a, Instr::Param(i))),
            _ => None,
        },
        Expr::Constant(c, _) => Some(put(a, constant(c))),
        Expr::Cast(t, x, _) => match t { TypeId::Class(c) => gen(v, f, *x, None, op(a, Instr::DynamicCast(c, 0))), _ => None },
        Expr::Declare(l, t, d, _) => match d {
            Some(x) => gen(v, f, *x, None, op(op(a, Instr::Assign), Instr::Local(l))),
            None => initial(v, l, *(t->0), a),
        },
        Expr::Assign(l, r, _) => match gen(v, f, *l, None, op(a, Instr::Assign)) { Some(a) => gen(v, f, *r, None, a), None => None },
        Expr::ArrayElem(x, i, _) => {
            let t = ty(v, *x);
            let h = match t { Some(TypeId::Array(_)) => typed(v, a, Instr::ArrayElement(noty()), t), Some(TypeId::StaticArray(_, _)) => typed(v, a, Instr::StaticArrayElement(noty()), t), _ => None };
            match h { None => None, Some(a) => match gen(v, f, *x, None, a) { Some(a) => gen(v, f, *i, None, a), None => None } }
        },
        Expr::New(t, s, _) => match t { TypeId::Class(i) => Some(op(a, Instr::New(i))), TypeId::Struct(i) => gen_from(v, f, s, 0, None, op(a, Instr::Construct(s@.len() as u8, i))), _ => None },
        Expr::Return(x, _) => match x { Some(x) => gen(v, f, *x, None, op(a, Instr::Return)), None => Some(op(op(a, Instr::Return), Instr::Nop)) },
        Expr::Seq(b) => gen_block(v, f, b, exit, a),
        Expr::Switch(x, cs, d, _) => {
            let first = fresh(a);
            let next = fresh(drew(a));
            let end = fresh(drew(drew(a)));
            match typed(v, drew(drew(drew(a))), Instr::Switch(noty(), first), ty(v, *x)) { None => None, Some(a) => match gen(v, f, *x, None, a) { None => None, Some(a) =>
            match gen_cases(v, f, cs, 0, None, next, end, mark(a, first)) { None => None, Some((a, body, next)) => {
                let a = mark(a, next);
                let a = if d is Some { op(a, Instr::SwitchDefault) } else { a };
                let a = match body { Some(l) => mark(a, l), None => a };
                match d { None => Some(mark(a, end)), Some(b) => match gen_block(v, f, b, Some(end), a) { None => None, Some(a) => Some(mark(a, end)) } }
            } } } }
        },
        Expr::If(c, b, d, _) => {
            let other = fresh(a);
            match gen(v, f, *c, None, op(drew(a), Instr::JumpIfFalse(other))) { None => None, Some(a) => match gen_block(v, f, b, exit, a) { None => None, Some(a) => match d {
                None => Some(mark(a, other)),
                Some(d) => {
                    let end = fresh(a);
                    match gen_block(v, f, d, exit, mark(op(drew(a), Instr::Jump(end)), other)) { None => None, Some(a) => Some(mark(a, end)) }
                },
            } } }
        },
        Expr::Conditional(c, x, y, _) => {
            let other = fresh(a);
            let end = fresh(drew(a));
            match gen(v, f, *c, None, op(drew(drew(a)), Instr::Conditional(other, end))) { None => None, Some(a) => match gen(v, f, *x, None, a) { None => None, Some(a) =>
                match gen(v, f, *y, None, mark(a, other)) { None => None, Some(a) => Some(mark(a, end)) } } }
        },
        Expr::While(c, b, _) => {
            let end = fresh(a);
            let top = fresh(drew(a));
            match gen(v, f, *c, None, op(mark(drew(drew(a)), top), Instr::JumpIfFalse(end))) { None => None, Some(a) => match gen_block(v, f, b, Some(end), a) { None => None, Some(a) =>
                Some(mark(op(a, Instr::Jump(top)), end)) } }
        },
        Expr::Member(x, m, _) => match m {
            Member::ClassField(i) => { let end = fresh(a); match gen(v, f, *x, None, op(drew(a), Instr::Context(end))) { None => None, Some(a) => Some(mark(op(a, Instr::ObjectField(i)), end)) } },
            Member::StructField(i) => gen(v, f, *x, None, op(a, Instr::StructField(i))),
            Member::EnumMember(e, i) => Some(op(a, Instr::EnumConst(e, i))),
        },
        Expr::Call(c, _, s, span) => match c {
            Callable::Function(i) => gen_call(v, f, i, s, false, span, a),
            Callable::Intrinsic(o, t) => match gen_op(v, o, s, t, a) { Some(a) => gen_from(v, f, s, 0, None, a), None => None },
        },
        Expr::MethodCall(x, i, s, span) => match fun(v.p, i) {
            None => None,
            Some(g) => if on_type(*x) { if g.flags.st() { gen_call(v, f, i, s, true, x->Ident_1, a) } else { None } }
                else if g.flags.st() { None }
                else {
                    let end = fresh(a);
                    match gen(v, f, *x, None, op(drew(a), Instr::Context(end))) { None => None, Some(a) => match gen_call(v, f, i, s, *x is Super, span, a) { None => None, Some(a) => Some(mark(a, end)) } }
                },
        },
        Expr::Null(_) => Some(op(a, Instr::Null)),
        Expr::This(_) | Expr::Super(_) => Some(op(a, Instr::This)),
        Expr::Break(_) => match exit { Some(l) => Some(op(a, Instr::Jump(l))), None => None },
        _ => None,
    }
}
"""

GEN2 = """
pub open spec fn on_type(e: Expr) -> bool { e matches Expr::Ident(r, _) && r matches Reference::Symbol(s) && (s is Class || s is Struct) }
pub open spec fn virtual_call(g: Function, direct: bool) -> bool { !direct && !g.flags.fi() && !g.flags.st() && !g.flags.na() }
pub open spec fn known_params(d: Decls, s: Seq<PoolIndex<Parameter>>) -> bool { forall|i: int| 0 <= i < s.len() ==> par(d, #[trigger] s[i]) is Some }
pub open spec fn lazy_params(d: Decls, s: Seq<PoolIndex<Parameter>>) -> Seq<bool> { Seq::new(s.len(), |i: int| (par(d, s[i])->0).flags.sc()) }
pub open spec fn nops(a: Out, k: int) -> Out decreases k { if k <= 0 { a } else { nops(op(a, Instr::Nop), k - 1) } }
// bit k: the k-th argument is a reference to a value that is no variable
pub open spec fn by_value(v: Env, s: Vec<Expr>, k: int) -> u16 decreases k { if k <= 0 { 0 } else { let w = by_value(v, s, k - 1); if by_value_arg(v, s@[k - 1]) { w | (1u16 << ((k - 1) as u16)) } else { w } } }
pub open spec fn by_value_arg(v: Env, e: Expr) -> bool {
    match ty(v, e) { Some(TypeId::ScriptRef(_)) => match e { Expr::Call(c, _, s, _) => match c { Callable::Intrinsic(o, _) => if o is AsRef && s@.len() > 0 { temporary(s@[0]) } else { true }, _ => true }, _ => true }, _ => false }
}
pub open spec fn temporary(e: Expr) -> bool
    decreases e
{
    match e {
        Expr::Constant(_, _) | Expr::Ident(_, _) | Expr::This(_) | Expr::Super(_) => false,
        Expr::Call(c, _, _, _) => !(c matches Callable::Intrinsic(o, _) && o is Deref),
        Expr::Member(x, m, _) => match m { Member::ClassField(_) => false, Member::StructField(_) => temporary(*x), Member::EnumMember(_, _) => true },
        Expr::ArrayElem(x, _, _) => temporary(*x),
        _ => true,
    }
}
pub open spec fn constant(c: Constant) -> V {
    match c {
        Constant::String(Literal::String, t) => V::Text(0, Some(t@)),
        Constant::String(Literal::Name, t) => V::Text(1, Some(t@)),
        Constant::String(Literal::Resource, t) => V::Text(2, Some(t@)),
        Constant::String(Literal::TweakDbId, t) => V::Text(3, Some(t@)),
        Constant::F32(x) => V::Plain(Instr::F32Const(x)),
        Constant::F64(x) => V::Plain(Instr::F64Const(x)),
        Constant::I32(x) => V::Plain(Instr::I32Const(x)),
        Constant::I64(x) => V::Plain(Instr::I64Const(x)),
        Constant::U32(x) => V::Plain(Instr::U32Const(x)),
        Constant::U64(x) => V::Plain(Instr::U64Const(x)),
        Constant::Bool(x) => V::Plain(if x { Instr::TrueConst } else { Instr::FalseConst }),
    }
}
pub open spec fn set(a: Out, l: PoolIndex<Local>, x: V) -> Option<Out> { Some(put(op(op(a, Instr::Assign), Instr::Local(l)), x)) }
// a variable declared without a value holds the blank value of its type
pub open spec fn initial(v: Env, l: PoolIndex<Local>, t: TypeId, a: Out) -> Option<Out> {
    match t {
        TypeId::Prim(i) => match name_text(v.p, i.value) { None => None, Some(n) =>
@@PRIMS@@
            else { Some(a) } },
        TypeId::Struct(i) => set(a, l, V::Plain(Instr::Construct(0, i))),
        TypeId::Enum(i) => match enu(v.p, i) { None => None, Some(d) => if d.members@.len() > 0 { set(a, l, V::Plain(Instr::EnumConst(i, d.members@[0]))) } else { Some(a) } },
        TypeId::Ref(_) => set(a, l, V::Plain(Instr::Null)),
        TypeId::WeakRef(_) => set(a, l, V::Plain(Instr::WeakRefNull)),
        TypeId::Array(_) => match typed(v, a, Instr::ArrayClear(noty()), Some(t)) { Some(a) => Some(op(a, Instr::Local(l))), None => None },
        _ => Some(a),
    }
}
pub open spec fn first_type(v: Env, s: Vec<Expr>) -> Option<TypeId> { ty(v, s@[0]) }
// the instruction of an operation; its operands follow
pub open spec fn gen_op(v: Env, o: IntrinsicOp, s: Vec<Expr>, r: TypeId, a: Out) -> Option<Out> {
    match o {
@@OPS@@
        IntrinsicOp::EnumInt => typed(v, a, Instr::EnumToI32(noty(), 4), first_type(v, s)),
        IntrinsicOp::IntEnum => typed(v, a, Instr::I32ToEnum(noty(), 4), Some(r)),
        IntrinsicOp::FromVariant => typed(v, a, Instr::FromVariant(noty()), Some(r)),
        IntrinsicOp::ToString => match first_type(v, s) { None => None, Some(TypeId::Variant) => Some(op(a, Instr::VariantToString)), t => typed(v, a, Instr::ToString(noty()), t) },
        IntrinsicOp::IsDefined => match first_type(v, s) { None => None, Some(TypeId::Ref(_)) | Some(TypeId::Null) => Some(op(a, Instr::RefToBool)), Some(TypeId::WeakRef(_)) => Some(op(a, Instr::WeakRefToBool)), _ => Some(op(a, Instr::VariantIsDefined)) },
    }
}
// what the type checker leaves: operations have operands, IsDefined is asked of references and variants, a variable without a value has a type;
// and what fits the instructions: up to 255 fields of a new struct, up to 16 arguments of a call
#[verifier::opaque]
pub open spec fn wf(v: Env, e: Expr) -> bool
    decreases e
{
    match e {
        Expr::Cast(_, x, _) => wf(v, *x),
        Expr::Declare(_, t, d, _) => match d { Some(x) => wf(v, *x), None => t is Some },
        Expr::Assign(x, y, _) => wf(v, *x) && wf(v, *y),
        Expr::ArrayElem(x, y, _) => wf(v, *x) && wf(v, *y),
        Expr::New(_, s, _) => s@.len() <= 255 && forall|i: int| 0 <= i < s@.len() ==> wf(v, #[trigger] s@[i]),
        Expr::Return(x, _) => match x { Some(x) => wf(v, *x), None => true },
        Expr::Seq(b) => wf_block(v, b),
        Expr::Switch(x, s, d, _) => wf(v, *x) && (forall|i: int| 0 <= i < s@.len() ==> wf(v, (#[trigger] s@[i]).matcher) && wf_block(v, s@[i].body)) && (match d { Some(d) => wf_block(v, d), None => true }),
        Expr::If(c, b, d, _) => wf(v, *c) && wf_block(v, b) && (match d { Some(d) => wf_block(v, d), None => true }),
        Expr::Conditional(x, y, z, _) => wf(v, *x) && wf(v, *y) && wf(v, *z),
        Expr::While(c, b, _) => wf(v, *c) && wf_block(v, b),
        Expr::Member(x, _, _) => wf(v, *x),
        Expr::Call(c, _, s, _) => (forall|i: int| 0 <= i < s@.len() ==> wf(v, #[trigger] s@[i])) && (match c { Callable::Function(_) => s@.len() <= 16, Callable::Intrinsic(o, _) => can_op(v, o, s) }),
        Expr::MethodCall(x, _, s, _) => wf(v, *x) && s@.len() <= 16 && forall|i: int| 0 <= i < s@.len() ==> wf(v, #[trigger] s@[i]),
        _ => true,
    }
}
#[verifier::opaque]
pub open spec fn wf_block(v: Env, b: Block) -> bool
    decreases b, 0int
{
    forall|i: int| 0 <= i < b.exprs@.len() ==> wf(v, #[trigger] b.exprs@[i])
}
"""

GEN3 = """
pub open spec fn can_op(v: Env, o: IntrinsicOp, s: Vec<Expr>) -> bool {
    s@.len() >= 1 && (o is IsDefined ==> (ty(v, s@[0]) matches Some(t) ==> t is Ref || t is Null || t is WeakRef || t is Variant))
}
pub open spec fn gen_intrinsic(v: Env, f: Files, o: IntrinsicOp, s: Vec<Expr>, r: TypeId, a: Out) -> Option<Out> { match gen_op(v, o, s, r, a) { Some(a) => gen_from(v, f, s, 0, None, a), None => None } }
pub open spec fn so_far(s: Assembler, p: ConstantPool) -> Out { Out { code: vis(s.instructions@, p), n: s.labels as nat } }
"""

# the operations that name the type of their first operand
BY_ARG = [n for n in "Equals NotEquals ArrayClear ArraySize ArrayResize ArrayFindFirst ArrayFindLast ArrayContains ArrayCount ArrayPush ArrayPop ArrayInsert ArrayRemove ArrayGrow "
          "ArrayErase ArrayLast ArraySort ArraySortByPredicate ToVariant AsRef Deref".split()]
UNTYPED = "VariantIsRef VariantIsArray VariantTypeName RefToWeakRef WeakRefToRef".split()
# the blank value of every primitive type
BLANK = [("Bool", "FalseConst"), ("Int8", "I8Const(0)"), ("Int16", "I16Const(0)"), ("Int32", "I32Zero"), ("Int64", "I64Const(0)"), ("Uint8", "U8Const(0)"), ("Uint16", "U16Const(0)"),
         ("Uint32", "U32Const(0)"), ("Uint64", "U64Const(0)"), ("Float", "F32Const(0.0f32)"), ("Double", "F64Const(0.0f64)"), ("String", ("V::Text(0, Some(\"\"@))")),
         ("CName", "V::Text(1, Some(blank(v.p, 1)))"), ("TweakDBID", "V::Text(3, Some(blank(v.p, 3)))"), ("ResRef", "V::Text(2, Some(blank(v.p, 2)))")]


def world(u):
    t = WORLD
    add = []
    for k, (n, kind) in enumerate((("string", "String"), ("name", "CName"), ("resource", "Resource"), ("tweakdb_id", "TweakDbId"))):
        add.append("""    #[verifier::external_body]
    pub fn add_%s(&mut self, t: RefStr) -> (r: PoolIndex<%s>) ensures grown(*old(self), *final(self)), text(*final(self), %d, r.value) == Some(t@) { unimplemented!() }""" % (n, kind, k))
    u.raw(t.replace("@@ADD@@", "\n".join(add)))


def spec(u):
    typed = []
    for n, _, ops in TABLE:
        if "P:Type" in ops:
            a = ", ".join("x" if k == "P:Type" else "a%d" % i for i, k in enumerate(ops))
            b = ", ".join("noty()" if k == "P:Type" else "a%d" % i for i, k in enumerate(ops))
            typed.append("        Instr::%s(%s) => V::Typed(Instr::%s(%s), type_at(p, x.value))," % (n, a, n, b))
    prims = "            " + "\n            else ".join('if n == "%s"@ { set(a, l, %s) }' % (n, i if i.startswith("V::") else "V::Plain(Instr::%s)" % i) for n, i in BLANK)
    ops = "\n".join(["        IntrinsicOp::%s => typed(v, a, Instr::%s(noty()), first_type(v, s))," % (n, n) for n in BY_ARG] + ["        IntrinsicOp::%s => Some(op(a, Instr::%s))," % (n, n) for n in UNTYPED])
    g = GEN2.replace("@@PRIMS@@", prims).replace("@@OPS@@", ops)
    u.raw(SPEC.replace("@@TYPED@@", "\n".join(typed)).replace("@@GEN@@", GEN))
    u.raw(g)
    u.raw(steps(GEN, ("empty", "gen_from", "gen_block", "gen_args", "gen_cases", "gen_call", "gen")))
    u.raw(steps(GEN2, ("wf", "wf_block")))


NEED = "sound(so_far(*old(self), *old(pool)).code), based(*old(pool)),"
KEEP = "names(*final(scope)) == names(*old(scope)), grown(*old(pool), *final(pool)), final(self).files == old(self).files,"
ENV = "env(*old(scope), *old(pool))"


def made(g):
    return "%s r is Ok ==> sound(so_far(*final(self), *final(pool)).code), (r is Ok) == (%s is Some), r is Ok ==> %s == Some(so_far(*final(self), *final(pool)))," % (KEEP, g, g)


GH = "broadcast use flow::group_flow; let ghost v = env(*scope, *pool); let ghost a0 = so_far(*self, *pool); let ghost f = *self.files; let ghost p0 = *pool; "
SAME = "v == env(*old(scope), *old(pool)), f == *old(self).files, a0 == so_far(*old(self), *old(pool)), env(*scope, *pool) == v, names(*scope) == names(*old(scope)), grown(*old(pool), *pool), based(*pool), self.files == old(self).files, *self.files == f, sound(so_far(*self, *pool).code),"

FAIL = [("Err(Cause::$x:id($a).with_span($s),)", "Err(trouble())"), ("PoolIndex::UNDEFINED", "PoolIndex::new(0)"), ("Err(Cause::$x:id($a).with_span($s))", "Err(trouble())"), ("Err(Error::CompileError($a))", "Err(trouble())"), (".with_span(span)?", "?"),
        ("pool.strings.add(\"\".into())", "pool.add_string(no_text())"),
        ("pool.strings.add($x)", "pool.add_string($x)"), ("pool.names.add($x)", "pool.add_name($x)"), ("pool.resources.add($x)", "pool.add_resource($x)"), ("pool.tweakdb_ids.add($x)", "pool.add_tweakdb_id($x)"),
        ("args.into_vec()", "args"), ("unreachable!()", "unreachable_here()")]


NOTHING_LEFT = "rest@ == S@.skip(S@.len() - rest@.len()), rest@.len() <= S@.len(),"
EVERY = [("$v:id.body.exprs.iter().all(Expr::is_empty)", "all_empty(&$v.body.exprs)"), ("$v:id.exprs.iter().all(Expr::is_empty)", "all_empty(&$v.exprs)")]


def each(v, coll):
    """`for X in COLL {` of a list taken apart"""
    return ("for $x:id in %s {" % coll, "let mut rest = %s; let ghost S = rest; let ghost a1 = so_far(*self, *pool); proof { assert(S@.skip(0) =~= S@); } while rest.len() > 0 { let $x = take_first(&mut rest);" % v)


def closure(u, name, fn, res=None):
    """a local closure of `fn` written out at its calls"""
    t = u.src(A).impl_with("Assembler<'a>", fn).child("fn", fn).text
    m = re.search(r"let mut %s\s*=\s*\|(\w+)(?::[^|]*)?\|\s*" % name, t)
    if not m:
        return []
    body, n = "", 0
    for k, c in enumerate(t[m.end():]):
        n += c in "({["
        n -= c in ")}]"
        if c == ";" and n == 0:
            body = t[m.end():m.end() + k]
            break
    return [("%s($a)" % name, "{ let %s = $a; %s }" % (m.group(1), body)), (re.sub(r"\s+", " ", t[m.start():m.end()]) + " " + body + ";", "")]


def gen(u, mode="verify"):
    u.struct(A, "Assembler")
    world(u)
    spec(u)
    u.raw(GEN3)
    u.raw("""// <[Expr]>::iter().all(Expr::is_empty) written out
#[verifier::exec_allows_no_decreases_clause]
pub fn all_empty(s: &Vec<Expr>) -> (r: bool)
    ensures r == forall|i: int| 0 <= i < s@.len() ==> empty(#[trigger] s@[i])
{
    let mut at = 0;
    while at < s.len()
        invariant at <= s@.len(), forall|i: int| 0 <= i < at ==> empty(#[trigger] s@[i])
    { if !s[at].is_empty() { return false; } at = at + 1; }
    true
}
""")
    u.impl(AST, "Expr<N>", {"is_empty": F("ensures r == empty(*self),", attrs=NODEC, pre="proof { empty_is(*self); }", rw=EVERY)}, mode=mode, hdr="impl Expr")
    u.impl(TC, "TypedExprExt for TypedExpr", {"is_prvalue": F("ensures r == temporary(*self),", attrs=NODEC, split_or=True)}, mode=mode, hdr="impl Expr")
    FR = "final(self).files == old(self).files,"
    texts = dict(re.findall(r'pub const (\w+): Self = TypeName::basic\(("[^"]*")\);', u.src(AST).text))
    named = [("TypeName::%s.name()" % k, v) for k, v in texts.items()]
    lits = "".join("reveal_strlit(%s);" % v for v in texts.values())
    INV = "proof { %s }"
    u.impl(A, "Assembler<'a>", {
        "new": F("ensures r.files == files, r.instructions@.len() == 0, r.labels == 0,"),
        "emit": F("ensures final(self).instructions@ == old(self).instructions@.push(instr), final(self).labels == old(self).labels, %s" % FR),
        "emit_label": F("ensures final(self).instructions@ == old(self).instructions@.push(Instr::Target(label)), final(self).labels == old(self).labels, %s" % FR),
        "new_label": F("ensures final(self).instructions == old(self).instructions, final(self).labels == old(self).labels + 1, r.index == old(self).labels, %s" % FR,
                       rw=[("self.labels += 1;", "self.labels = next_count(self.labels);")]),
        "assemble": F("requires %s wf(%s, expr), ensures %s" % (NEED, ENV, made("gen(%s, *old(self).files, expr, exit, so_far(*old(self), *old(pool)))" % ENV)), attrs=OPEN, cases=8,
            pre=GH + "proof { gen_is(v, f, expr, exit, a0); wf_is(v, expr); }",
            rw=[each("args", "args.into_vec()"),
                ("let mut $c:id = $v:id.into_iter().peekable();", "let ghost CS = $v; let ghost next0 = next_case_label; let ghost a1 = so_far(*self, *pool); let mut $c = $v;"),
                ("$c:id.peek().is_some()", "$c.len() > 0"),
                ("for $x:id in &mut $c:id {", "while $c.len() > 0 { let $x = take_first(&mut $c);")] + EVERY + FAIL,
            loops=[
                L("while", SAME + NOTHING_LEFT + """ forall|i: int| 0 <= i < S@.len() ==> wf(v, #[trigger] S@[i]),
                    gen_from(v, f, S, S@.len() - rest@.len(), None, so_far(*self, *pool)) == gen_from(v, f, S, 0, None, a1)""",
                  start="broadcast use flow::group_flow; let ghost k = S@.len() - rest@.len(); proof { gen_from_is(v, f, S, k, None, so_far(*self, *pool)); assert(rest@[0] == S@[k]); }", done="proof { gen_from_is(v, f, S, S@.len() as int, None, so_far(*self, *pool)); }"),
                L("while", SAME + """ case_iter@ == CS@.skip(CS@.len() - case_iter@.len()), case_iter@.len() <= CS@.len(),
                    forall|i: int| 0 <= i < CS@.len() ==> wf(v, (#[trigger] CS@[i]).matcher) && wf_block(v, CS@[i].body),
                    gen_cases(v, f, CS, CS@.len() - case_iter@.len(), pending_label, next_case_label, exit_label, so_far(*self, *pool)) == gen_cases(v, f, CS, 0, None, next0, exit_label, a1),
                    case_iter@.len() > 0 ==> pending_label is None""",
                  pre="proof { assert(CS@.skip(0) =~= CS@); }",
                  start="broadcast use flow::group_flow; let ghost k = CS@.len() - case_iter@.len(); proof { gen_cases_is(v, f, CS, k, None, next_case_label, exit_label, so_far(*self, *pool)); gen_cases_is(v, f, CS, k, Some(fresh(so_far(*self, *pool))), next_case_label, exit_label, drew(so_far(*self, *pool))); }", done="proof { gen_cases_is(v, f, CS, CS@.len() as int, pending_label, next_case_label, exit_label, so_far(*self, *pool)); }"),
                L("while", SAME + """ case_iter@ == CS@.skip(CS@.len() - case_iter@.len()), case_iter@.len() <= CS@.len(),
                    forall|i: int| 0 <= i < CS@.len() ==> wf(v, (#[trigger] CS@[i]).matcher) && wf_block(v, CS@[i].body),
                    gen_cases(v, f, CS, CS@.len() - case_iter@.len(), pending_label, next_case_label, exit_label, so_far(*self, *pool)) == gen_cases(v, f, CS, 0, None, next0, exit_label, a1)""",
                  exc="pending_label == Some(body_label)", ens="case_iter@.len() > 0 ==> pending_label is None",
                  start="broadcast use flow::group_flow; let ghost k = CS@.len() - case_iter@.len(); proof { gen_cases_is(v, f, CS, k, Some(body_label), next_case_label, exit_label, so_far(*self, *pool)); assert(case_iter@[0] == CS@[k]); }"),
            ]),
        "assemble_seq": F("requires %s wf_block(%s, seq), ensures %s" % (NEED, ENV, made("gen_block(%s, *old(self).files, seq, exit, so_far(*old(self), *old(pool)))" % ENV)), attrs=OPEN,
            pre=GH + "let ghost S = seq.exprs; proof { gen_block_is(v, f, seq, exit, a0); wf_block_is(v, seq); }",
            rw=[each("seq.exprs", "seq.exprs")] + FAIL,
            loops=[L("while", SAME + NOTHING_LEFT + """ forall|i: int| 0 <= i < S@.len() ==> wf(v, #[trigger] S@[i]),
                gen_from(v, f, S, S@.len() - rest@.len(), exit, so_far(*self, *pool)) == gen_from(v, f, S, 0, exit, a0)""",
                pre="proof { assert(S@.skip(0) =~= S@); }", start="broadcast use flow::group_flow; let ghost k = S@.len() - rest@.len(); proof { gen_from_is(v, f, S, k, exit, so_far(*self, *pool)); assert(rest@[0] == S@[k]); }", done="proof { gen_from_is(v, f, S, S@.len() as int, exit, so_far(*self, *pool)); }")]),
        "emit_initializer": F("requires %s ensures %s" % (NEED, made("initial(%s, local, typ, so_far(*old(self), *old(pool)))" % ENV)),
            pre=GH + "proof { %s }" % lits,
            rw=closure(u, "emit_assignment", "emit_initializer") + [("match Ident::from_heap(pool.def_name($i)?) {", "match pool.def_name($i)? {")]
               + [("$t:id if $t:id == %s" % a, "$t if same_name(&$t, %s)" % b) for a, b in named] + [("$m:id.members.first()", "first_of(&$m.members)")] + FAIL),
        "assemble_call": F("requires %s args@.len() <= 16, forall|i: int| 0 <= i < args@.len() ==> wf(%s, #[trigger] args@[i]), ensures %s" % (NEED, ENV, made("gen_call(%s, *old(self).files, function_idx, args, force_static, span, so_far(*old(self), *old(pool)))" % ENV)), attrs=OPEN,
            pre=GH + "let ghost S = args; proof { gen_call_is(v, f, function_idx, args, force_static, span, a0); }",
            rw=[("let $p:id: Vec<_> = $g:id.parameters.iter().map(|$i:id| pool.parameter(*$j:id).map(|$k:id| $b)).try_collect()?;",
                 "let ghost G = *$g; let mut $p: Vec<ParameterFlags> = Vec::new(); let mut at = 0; while at < $g.parameters.len() { match pool.parameter($g.parameters[at]) { Ok($k) => { $p.push($b); } Err(e) => { return Err(e); } } at = at + 1; }"),
                ("for ($n:id, $x:id) in args.iter().enumerate() {", "let mut at = 0; while at < args.len() { let $n = at; at = at + 1; let $x = &args[$n];"),
                ("self.files.lookup(span).and_then(|loc| loc.start.line.try_into().ok()).unwrap_or_default()", "line_of(self.files, span)"),
                ("pool.definition($i)?.name", "pool.name_of($i)?"),
                ("for ($x:id, $y:id) in args.into_iter().zip(&$p:id) {", "let mut rest = args; let mut at = 0; let ghost a1 = so_far(*self, *pool); while rest.len() > 0 && at < $p.len() { let $x = take_first(&mut rest); let $y = &$p[at]; at = at + 1;"),
                ("for _ in 0..$a - $b {", "let mut left = $a - $b; let ghost a2 = so_far(*self, *pool); while left > 0 { left = left - 1;")] + FAIL,
            loops=[
                L("while", SAME + """ at <= G.parameters@.len(), *fun == G, param_flags@.len() == at, *self == *old(self), *pool == *old(pool), *scope == *old(scope),
                    forall|i: int| 0 <= i < at ==> par(v.p, #[trigger] G.parameters@[i]) is Some && param_flags@[i] == (par(v.p, G.parameters@[i])->0).flags"""),
                L("while", "at <= args@.len() <= 16, args == S, env(*scope, *pool) == v, invoke_flags == by_value(v, S, at as int)"),
                L("while", SAME + NOTHING_LEFT + """ forall|i: int| 0 <= i < S@.len() ==> wf(v, #[trigger] S@[i]), at == S@.len() - rest@.len(), at <= param_flags@.len(),
                    param_flags@.map_values(|x: ParameterFlags| x.sc()) =~= lazy_params(v.p, G.parameters@),
                    gen_args(v, f, S, lazy_params(v.p, G.parameters@), at as int, so_far(*self, *pool)) == gen_args(v, f, S, lazy_params(v.p, G.parameters@), 0, a1)""",
                  pre="proof { assert(S@.skip(0) =~= S@); }", start="broadcast use flow::group_flow; let ghost k = S@.len() - rest@.len(); proof { gen_args_is(v, f, S, lazy_params(v.p, G.parameters@), k, so_far(*self, *pool)); assert(rest@[0] == S@[k]); }", done="proof { gen_args_is(v, f, S, lazy_params(v.p, G.parameters@), at as int, so_far(*self, *pool)); }"),
                L("while", SAME + "nops(so_far(*self, *pool), left as int) == nops(a2, param_flags@.len() - args_len)", start="broadcast use flow::group_flow;"),
            ]),
        "is_rvalue_ref": F("ensures r == (if ty(env(*scope, *pool), *expr) matches Some(TypeId::ScriptRef(_)) { Some(by_value_arg(env(*scope, *pool), *expr)) } else { None }),",
            rw=[("type_of($a).ok()?", "match type_of($a) { Ok(t) => t, Err(_) => { return None; } }"), ("$s:id.first()", "first_of(&$s)")]),
        "assemble_intrinsic": F("""requires %s can_op(%s, intrinsic, args), forall|i: int| 0 <= i < args@.len() ==> wf(%s, #[trigger] args@[i]),
            ensures %s""" % (NEED, ENV, ENV, made("gen_intrinsic(%s, *old(self).files, intrinsic, args, *return_type, so_far(*old(self), *old(pool)))" % ENV)), attrs=OPEN, cases=6,
            pre=GH + "let ghost S = args;",
            rw=closure(u, "get_arg_type", "assemble_intrinsic") + [each("args", "args"), ("type_of($a).and_then(|$t:id| $b)", "match type_of($a) { Ok($t) => $b, Err(e) => Err(e) }"), ("panic!($m)", "unreachable_here()"), (".with_span(span)", "")] + FAIL,
            loops=[L("while", SAME + NOTHING_LEFT + """ forall|i: int| 0 <= i < S@.len() ==> wf(v, #[trigger] S@[i]),
                gen_from(v, f, S, S@.len() - rest@.len(), None, so_far(*self, *pool)) == gen_from(v, f, S, 0, None, a1)""",
                start="broadcast use flow::group_flow; let ghost k = S@.len() - rest@.len(); proof { gen_from_is(v, f, S, k, None, so_far(*self, *pool)); assert(rest@[0] == S@[k]); }", done="proof { gen_from_is(v, f, S, S@.len() as int, None, so_far(*self, *pool)); }")]),
    }, mode=mode, hdr="impl<'a> Assembler<'a>")



PLACING = """
// ------------------------------------------------------------------ where the labels are
pub open spec fn uses(i: Instr<Label>, l: int) -> bool {
    match i {
@@USES@@
        _ => false,
    }
}
pub open spec fn uses_v(x: V, l: int) -> bool { match x { V::Plain(i) => uses(i, l), V::Text(_, _) => false, V::Typed(i, _) => uses(i, l) } }
pub open spec fn places_v(x: V, l: int) -> nat { match x { V::Plain(Instr::Target(t)) => if t.index == l { 1 } else { 0 }, _ => 0 } }
// how often label l is placed, and whether an instruction leads to it
pub open spec fn placed(s: Seq<V>, l: int) -> nat decreases s.len() { if s.len() == 0 { 0 } else { placed(s.drop_last(), l) + places_v(s.last(), l) } }
pub open spec fn used(s: Seq<V>, l: int) -> bool decreases s.len() { if s.len() == 0 { false } else { used(s.drop_last(), l) || uses_v(s.last(), l) } }

pub mod lab {
use vstd::prelude::*;
use super::*;
pub broadcast proof fn placed_push(s: Seq<V>, x: V, l: int)
    ensures #[trigger] placed(s.push(x), l) == placed(s, l) + places_v(x, l),
{ assert(s.push(x).drop_last() =~= s); }
pub broadcast proof fn used_push(s: Seq<V>, x: V, l: int)
    ensures #[trigger] used(s.push(x), l) == (used(s, l) || uses_v(x, l)),
{ assert(s.push(x).drop_last() =~= s); }
pub broadcast group group_lab { placed_push, used_push }
}

pub open spec fn within(a: Out, b: Out, l: int) -> bool { a.n <= l < b.n }
// from a to b: every label handed out is placed once, no other label is placed, and instructions lead to labels handed out or to `exit`
pub open spec fn tidy(a: Out, b: Out, exit: Option<Label>, l: int) -> bool {
    &&& a.n <= b.n
    &&& b.n <= usize::MAX ==> placed(b.code, l) == placed(a.code, l) + (if within(a, b, l) { 1nat } else { 0 })
    &&& b.n <= usize::MAX ==> used(b.code, l) ==> used(a.code, l) || within(a, b, l) || (exit matches Some(e) && e.index == l)
}
pub open spec fn tidy_o(a: Out, b: Option<Out>, exit: Option<Label>, l: int) -> bool { b matches Some(b) ==> tidy(a, b, exit, l) }

pub proof fn tidy_nops(a: Out, k: int, l: int)
    ensures nops(a, k).n == a.n, placed(nops(a, k).code, l) == placed(a.code, l), used(nops(a, k).code, l) == used(a.code, l),
    decreases k
{ broadcast use lab::group_lab; if k > 0 { tidy_nops(op(a, Instr::Nop), k - 1, l); } }
pub proof fn tidy_initial(v: Env, i: PoolIndex<Local>, t: TypeId, a: Out, l: int)
    ensures tidy_o(a, initial(v, i, t, a), None, l),
{ broadcast use lab::group_lab; }
pub proof fn tidy_op(v: Env, o: IntrinsicOp, s: Vec<Expr>, r: TypeId, a: Out, l: int)
    ensures tidy_o(a, gen_op(v, o, s, r, a), None, l),
{ broadcast use lab::group_lab; }
pub proof fn tidy_from(v: Env, f: Files, s: Vec<Expr>, k: int, exit: Option<Label>, a: Out, l: int)
    ensures tidy_o(a, gen_from(v, f, s, k, exit, a), exit, l),
    decreases s, s@.len() - k
{
    gen_from_is(v, f, s, k, exit, a);
    if 0 <= k < s@.len() {
        tidy_gen(v, f, s@[k], exit, a, l);
        if let Some(b) = gen(v, f, s@[k], exit, a) { tidy_from(v, f, s, k + 1, exit, b, l); }
    }
}
pub proof fn tidy_block(v: Env, f: Files, b: Block, exit: Option<Label>, a: Out, l: int)
    ensures tidy_o(a, gen_block(v, f, b, exit, a), exit, l),
    decreases b, 0int
{ gen_block_is(v, f, b, exit, a); tidy_from(v, f, b.exprs, 0, exit, a, l); }
pub proof fn tidy_args(v: Env, f: Files, s: Vec<Expr>, lazy: Seq<bool>, k: int, a: Out, l: int)
    ensures tidy_o(a, gen_args(v, f, s, lazy, k, a), None, l),
    decreases s, s@.len() - k
{
    broadcast use lab::group_lab;
    gen_args_is(v, f, s, lazy, k, a);
    if 0 <= k < s@.len() && k < lazy.len() {
        if lazy[k] {
            let a1 = op(drew(a), Instr::Skip(fresh(a)));
            tidy_gen(v, f, s@[k], None, a1, l);
            if let Some(b) = gen(v, f, s@[k], None, a1) { tidy_args(v, f, s, lazy, k + 1, mark(b, fresh(a)), l); }
        } else {
            tidy_gen(v, f, s@[k], None, a, l);
            if let Some(b) = gen(v, f, s@[k], None, a) { tidy_args(v, f, s, lazy, k + 1, b, l); }
        }
    }
}
// labels handed out and not placed yet
pub open spec fn owed(body: Option<Label>, next: Label, l: int) -> nat { (if next.index == l { 1nat } else { 0 }) + (if body matches Some(b) && b.index == l { 1nat } else { 0 }) }
pub proof fn tidy_cases(v: Env, f: Files, s: Vec<SwitchCase>, k: int, body: Option<Label>, next: Label, exit: Label, a: Out, l: int)
    ensures gen_cases(v, f, s, k, body, next, exit, a) matches Some((b, body2, next2)) ==> a.n <= b.n && (b.n <= usize::MAX ==> {
        &&& placed(b.code, l) + owed(body2, next2, l) == placed(a.code, l) + owed(body, next, l) + (if within(a, b, l) { 1nat } else { 0 })
        &&& used(b.code, l) ==> used(a.code, l) || within(a, b, l) || exit.index == l || (body matches Some(x) && x.index == l)
    }),
    decreases s, s@.len() - k
{
    broadcast use lab::group_lab;
    gen_cases_is(v, f, s, k, body, next, exit, a);
    if 0 <= k < s@.len() {
        let lb = match body { Some(x) => x, None => fresh(a) };
        let a1 = match body { Some(x) => a, None => drew(a) };
        let a2 = mark(a1, next);
        let next2 = fresh(a2);
        let a3 = op(drew(a2), Instr::SwitchLabel(next2, lb));
        tidy_gen(v, f, s@[k].matcher, None, a3, l);
        if let Some(b) = gen(v, f, s@[k].matcher, None, a3) {
            if empty_block(s@[k].body) { tidy_cases(v, f, s, k + 1, Some(lb), next2, exit, b, l); }
            else {
                tidy_block(v, f, s@[k].body, Some(exit), mark(b, lb), l);
                if let Some(c) = gen_block(v, f, s@[k].body, Some(exit), mark(b, lb)) { tidy_cases(v, f, s, k + 1, None, next2, exit, c, l); }
            }
        }
    }
}
pub proof fn tidy_call(v: Env, f: Files, i: PoolIndex<Function>, s: Vec<Expr>, direct: bool, span: Span, a: Out, l: int)
    ensures tidy_o(a, gen_call(v, f, i, s, direct, span, a), None, l),
    decreases s, s@.len() + 1
{
    broadcast use lab::group_lab;
    gen_call_is(v, f, i, s, direct, span, a);
    if let Some(g) = fun(v.p, i) {
        let flags = by_value(v, s, s@.len() as int);
        let a1 = op(drew(a), if virtual_call(g, direct) { Instr::InvokeVirtual(fresh(a), line_at(f, span), name_index(v.p, i)->0, flags) } else { Instr::InvokeStatic(fresh(a), line_at(f, span), i, flags) });
        tidy_args(v, f, s, lazy_params(v.p, g.parameters@), 0, a1, l);
        if let Some(b) = gen_args(v, f, s, lazy_params(v.p, g.parameters@), 0, a1) { tidy_nops(b, g.parameters@.len() - s@.len(), l); }
    }
}
pub proof fn tidy_gen(v: Env, f: Files, e: Expr, exit: Option<Label>, a: Out, l: int)
    ensures tidy_o(a, gen(v, f, e, exit, a), exit, l),
    decreases e, 0int
{
    broadcast use lab::group_lab;
    gen_is(v, f, e, exit, a);
    match e {
        Expr::Cast(t, x, _) => if let TypeId::Class(c) = t { tidy_gen(v, f, *x, None, op(a, Instr::DynamicCast(c, 0)), l); },
        Expr::Declare(i, t, d, _) => match d { Some(x) => tidy_gen(v, f, *x, None, op(op(a, Instr::Assign), Instr::Local(i)), l), None => tidy_initial(v, i, *(t->0), a, l) },
        Expr::Assign(x, y, _) => {
            let a1 = op(a, Instr::Assign);
            tidy_gen(v, f, *x, None, a1, l);
            if let Some(b) = gen(v, f, *x, None, a1) { tidy_gen(v, f, *y, None, b, l); }
        },
        Expr::ArrayElem(x, i, _) => {
            let t = ty(v, *x);
            let h = match t { Some(TypeId::Array(_)) => typed(v, a, Instr::ArrayElement(noty()), t), Some(TypeId::StaticArray(_, _)) => typed(v, a, Instr::StaticArrayElement(noty()), t), _ => None };
            if let Some(b) = h { tidy_gen(v, f, *x, None, b, l); if let Some(c) = gen(v, f, *x, None, b) { tidy_gen(v, f, *i, None, c, l); } }
        },
        Expr::New(t, s, _) => if let TypeId::Struct(i) = t { tidy_from(v, f, s, 0, None, op(a, Instr::Construct(s@.len() as u8, i)), l); },
        Expr::Return(x, _) => if let Some(x) = x { tidy_gen(v, f, *x, None, op(a, Instr::Return), l); },
        Expr::Seq(b) => tidy_block(v, f, b, exit, a, l),
        Expr::Switch(x, cs, d, _) => {
            let first = fresh(a);
            let next = fresh(drew(a));
            let end = fresh(drew(drew(a)));
            if let Some(a1) = typed(v, drew(drew(drew(a))), Instr::Switch(noty(), first), ty(v, *x)) {
                tidy_gen(v, f, *x, None, a1, l);
                if let Some(a2) = gen(v, f, *x, None, a1) {
                    tidy_cases(v, f, cs, 0, None, next, end, mark(a2, first), l);
                    if let Some((a3, body, next2)) = gen_cases(v, f, cs, 0, None, next, end, mark(a2, first)) {
                        let a4 = mark(a3, next2);
                        let a5 = if d is Some { op(a4, Instr::SwitchDefault) } else { a4 };
                        let a6 = match body { Some(x) => mark(a5, x), None => a5 };
                        if let Some(b) = d { tidy_block(v, f, b, Some(end), a6, l); }
                    }
                }
            }
        },
        Expr::If(c, b, d, _) => {
            let a1 = op(drew(a), Instr::JumpIfFalse(fresh(a)));
            tidy_gen(v, f, *c, None, a1, l);
            if let Some(a2) = gen(v, f, *c, None, a1) {
                tidy_block(v, f, b, exit, a2, l);
                if let Some(a3) = gen_block(v, f, b, exit, a2) { if let Some(d) = d { tidy_block(v, f, d, exit, mark(op(drew(a3), Instr::Jump(fresh(a3))), fresh(a)), l); } }
            }
        },
        Expr::Conditional(c, x, y, _) => {
            let a1 = op(drew(drew(a)), Instr::Conditional(fresh(a), fresh(drew(a))));
            tidy_gen(v, f, *c, None, a1, l);
            if let Some(a2) = gen(v, f, *c, None, a1) {
                tidy_gen(v, f, *x, None, a2, l);
                if let Some(a3) = gen(v, f, *x, None, a2) { tidy_gen(v, f, *y, None, mark(a3, fresh(a)), l); }
            }
        },
        Expr::While(c, b, _) => {
            let a1 = op(mark(drew(drew(a)), fresh(drew(a))), Instr::JumpIfFalse(fresh(a)));
            tidy_gen(v, f, *c, None, a1, l);
            if let Some(a2) = gen(v, f, *c, None, a1) { tidy_block(v, f, b, Some(fresh(a)), a2, l); }
        },
        Expr::Member(x, m, _) => match m {
            Member::ClassField(i) => tidy_gen(v, f, *x, None, op(drew(a), Instr::Context(fresh(a))), l),
            Member::StructField(i) => tidy_gen(v, f, *x, None, op(a, Instr::StructField(i)), l),
            Member::EnumMember(_, _) => {},
        },
        Expr::Call(c, _, s, span) => match c {
            Callable::Function(i) => tidy_call(v, f, i, s, false, span, a, l),
            Callable::Intrinsic(o, t) => { tidy_op(v, o, s, t, a, l); if let Some(b) = gen_op(v, o, s, t, a) { tidy_from(v, f, s, 0, None, b, l); } },
        },
        Expr::MethodCall(x, i, s, span) => if let Some(g) = fun(v.p, i) {
            if on_type(*x) { tidy_call(v, f, i, s, true, x->Ident_1, a, l); }
            else if !g.flags.st() {
                let a1 = op(drew(a), Instr::Context(fresh(a)));
                tidy_gen(v, f, *x, None, a1, l);
                if let Some(a2) = gen(v, f, *x, None, a1) { tidy_call(v, f, i, s, *x is Super, span, a2, l); }
            }
        },
        Expr::Constant(c, _) => {},
        _ => {},
    }
}

// ------------------------------------------------------------------ labels to positions
// what an instruction leads to does not depend on the pool
pub proof fn uses_vi(i: Instr<Label>, p: ConstantPool, l: int)
    ensures uses_v(vi(i, p), l) == uses(i, l), places_v(vi(i, p), l) == (if i matches Instr::Target(t) && t.index == l { 1nat } else { 0 }),
{}
pub open spec fn no_use(s: Seq<Instr<Label>>, n: nat) -> bool { forall|i: int| 0 <= i < s.len() ==> labels_in(#[trigger] s[i], n) }
// the position of every label of s[..k]: where it is placed
pub open spec fn places(s: Seq<Instr<Label>>, n: nat, k: int) -> Seq<Location> decreases k {
    if k <= 0 { Seq::new(n, |i: int| Location { value: 0 }) } else { match s[k - 1] { Instr::Target(t) => places(s, n, k - 1).update(t.index as int, Location { value: pos_of(s, k - 1) as u16 }), _ => places(s, n, k - 1) } }
}
// r is s[..k] without the label markers, every label replaced by the distance to its position
pub open spec fn laid(s: Seq<Instr<Label>>, t: Seq<Location>, k: int, r: Seq<Instr<Offset>>) -> bool decreases k {
    if k <= 0 { r.len() == 0 } else if s[k - 1] is Target { laid(s, t, k - 1, r) } else { r.len() > 0 && laid(s, t, k - 1, r.drop_last()) && resolved(s[k - 1], Location { value: pos_of(s, k - 1) as u16 }, t, r.last()) }
}

"""


FINAL = """
// every label an instruction leads to is placed once, at the position the label stands for
pub open spec fn reached(s: Seq<Instr<Label>>, t: Seq<Location>) -> bool {
    forall|i: int, l: int| 0 <= i < s.len() && #[trigger] uses(s[i], l) ==> exists|j: int| 0 <= j < s.len() && #[trigger] at_label(s, j, l) && t[l].value == pos_of(s, j) && (forall|m: int| 0 <= m < s.len() && #[trigger] at_label(s, m, l) ==> m == j)
}
pub open spec fn at_label(s: Seq<Instr<Label>>, j: int, l: int) -> bool { s[j] matches Instr::Target(t) && t.index == l }

pub open spec fn nothing() -> Out { Out { code: Seq::<V>::empty(), n: 0 } }
pub proof fn vis_none(p: ConstantPool)
    ensures vis(Seq::<Instr<Label>>::empty(), p) =~= Seq::<V>::empty(), sound(Seq::<V>::empty()),
{ reveal(vis); reveal(sound); }
pub proof fn count_vis(s: Seq<Instr<Label>>, p: ConstantPool, l: int)
    ensures
        placed(vis(s, p), l) == 0 <==> forall|j: int| 0 <= j < s.len() ==> !#[trigger] at_label(s, j, l),
        placed(vis(s, p), l) == 1 ==> exists|j: int| 0 <= j < s.len() && #[trigger] at_label(s, j, l) && (forall|m: int| 0 <= m < s.len() && #[trigger] at_label(s, m, l) ==> m == j),
        used(vis(s, p), l) <==> exists|j: int| 0 <= j < s.len() && #[trigger] uses(s[j], l),
    decreases s.len()
{
    reveal(vis);
    if s.len() > 0 {
        let d = s.drop_last();
        count_vis(d, p, l);
        assert(vis(s, p).drop_last() =~= vis(d, p));
        uses_vi(s.last(), p, l);
        assert(vis(s, p).last() == vi(s.last(), p));
        assert forall|j: int| 0 <= j < d.len() implies at_label(s, j, l) == #[trigger] at_label(d, j, l) && uses(s[j], l) == uses(d[j], l) by { assert(s[j] == d[j]); }
        let n = s.len() - 1;
        assert(s[n] == s.last());
        assert(at_label(s, n, l) == (places_v(vi(s.last(), p), l) == 1));
        if placed(vis(s, p), l) == 0 { assert forall|j: int| 0 <= j < s.len() implies !#[trigger] at_label(s, j, l) by { if j < n { assert(!at_label(d, j, l)); } } }
        if forall|j: int| 0 <= j < s.len() ==> !#[trigger] at_label(s, j, l) { assert forall|j: int| 0 <= j < d.len() implies !#[trigger] at_label(d, j, l) by { assert(!at_label(s, j, l)); } assert(!at_label(s, n, l)); }
        if placed(vis(s, p), l) == 1 {
            if at_label(s, n, l) {
                assert forall|m: int| 0 <= m < s.len() && #[trigger] at_label(s, m, l) implies m == n by { if m < n { assert(at_label(d, m, l)); } }
            } else {
                let j = choose|j: int| 0 <= j < d.len() && #[trigger] at_label(d, j, l) && (forall|m: int| 0 <= m < d.len() && #[trigger] at_label(d, m, l) ==> m == j);
                assert(at_label(s, j, l));
                assert forall|m: int| 0 <= m < s.len() && #[trigger] at_label(s, m, l) implies m == j by { assert(m != n); assert(at_label(d, m, l)); }
            }
        }
        if used(vis(s, p), l) { if used(vis(d, p), l) { let j = choose|j: int| 0 <= j < d.len() && #[trigger] uses(d[j], l); assert(uses(s[j], l)); } else { assert(uses(s[n], l)); } }
        if exists|j: int| 0 <= j < s.len() && #[trigger] uses(s[j], l) { let j = choose|j: int| 0 <= j < s.len() && #[trigger] uses(s[j], l); if j < n { assert(uses(d[j], l)); } }
    }
}
pub proof fn places_at(s: Seq<Instr<Label>>, n: nat, k: int, j: int, l: int)
    requires 0 <= j < k <= s.len(), 0 <= l < n, at_label(s, j, l), forall|m: int| 0 <= m < s.len() && #[trigger] at_label(s, m, l) ==> m == j,
    ensures places(s, n, k).len() == n, places(s, n, k)[l].value == pos_of(s, j) as u16,
    decreases k
{
    places_len(s, n, k - 1);
    if k - 1 > j { places_at(s, n, k - 1, j, l); if s[k - 1] is Target { assert(!at_label(s, k - 1, l)); } }
}
pub proof fn places_len(s: Seq<Instr<Label>>, n: nat, k: int)
    ensures places(s, n, k).len() == n,
    decreases k
{ if k > 0 { places_len(s, n, k - 1); } }
// instructions keep their positions: markers take no space
pub proof fn laid_size(s: Seq<Instr<Label>>, t: Seq<Location>, k: int, r: Seq<Instr<Offset>>)
    requires 0 <= k <= s.len(), laid(s, t, k, r),
    ensures code_size(r) == pos_of(s, k),
    decreases k
{
    if k > 0 {
        code_size_step(s, k - 1);
        if s[k - 1] is Target { laid_size(s, t, k - 1, r); }
        else { laid_size(s, t, k - 1, r.drop_last()); resolve_keeps_size(s[k - 1], Location { value: pos_of(s, k - 1) as u16 }, t, r.last()); }
    } else { assert(s.take(0) =~= Seq::<Instr<Label>>::empty()); assert(r =~= Seq::<Instr<Offset>>::empty()); }
}
// the labels of what is generated for a whole function
pub proof fn all_reached(v: Env, f: Files, b: Block, s: Seq<Instr<Label>>, n: usize, p: ConstantPool)
    requires gen_block(v, f, b, None, nothing()) == Some(Out { code: vis(s, p), n: n as nat }), pos_of(s, s.len() as int) <= 65535,
    ensures no_use(s, n as nat), reached(s, places(s, n as nat, s.len() as int)),
{
    let o = Out { code: vis(s, p), n: n as nat };
    assert forall|l: int| #![trigger used(o.code, l)] #![trigger placed(o.code, l)] (used(o.code, l) ==> 0 <= l < n) && placed(o.code, l) == (if 0 <= l < n { 1nat } else { 0 }) by { tidy_block(v, f, b, None, nothing(), l); }
    assert forall|i: int, l: int| 0 <= i < s.len() && #[trigger] uses(s[i], l) implies 0 <= l < n && exists|j: int| 0 <= j < s.len() && #[trigger] at_label(s, j, l) && places(s, n as nat, s.len() as int)[l].value == pos_of(s, j) && (forall|m: int| 0 <= m < s.len() && #[trigger] at_label(s, m, l) ==> m == j) by {
        count_vis(s, p, l);
        assert(used(o.code, l));
        assert(placed(o.code, l) == 1);
        let j = choose|j: int| 0 <= j < s.len() && #[trigger] at_label(s, j, l) && (forall|m: int| 0 <= m < s.len() && #[trigger] at_label(s, m, l) ==> m == j);
        places_at(s, n as nat, s.len() as int, j, l);
        code_size_mono(s, j); assert(s.take(s.len() as int) =~= s);
    }
    assert forall|i: int| 0 <= i < s.len() implies labels_in(#[trigger] s[i], n as nat) by {
        assert forall|l: int| uses(s[i], l) implies l < n by {}
        if let Instr::Target(t) = s[i] { let l = t.index as int; count_vis(s, p, l); assert(at_label(s, i, l)); assert(placed(o.code, l) == (if 0 <= l < n { 1nat } else { 0 })); }
        labels_by_use(s[i], n as nat);
    }
}
pub proof fn labels_by_use(i: Instr<Label>, n: nat)
    requires forall|l: int| #[trigger] uses(i, l) ==> l < n, i matches Instr::Target(t) ==> t.index < n,
    ensures labels_in(i, n),
{
@@BYUSE@@
}
// code of a function fits in 64 KB: ASSUMED (positions are 16 bits wide)
#[verifier::external_body]
pub fn fits_a_function(s: &Vec<Instr<Label>>) ensures pos_of(s@, s@.len() as int) + 1 <= 65535 { }
// Vec::resize on an empty vector
#[verifier::external_body]
pub fn fill(v: &mut Vec<Location>, n: usize, x: Location)
    requires old(v)@.len() == 0
    ensures final(v)@ == Seq::new(n as nat, |i: int| x)
{ v.resize(n, x) }
"""


def final(u, mode="verify"):
    rows = []
    for n, _, ops in TABLE:
        ns = instr.names(ops)
        labs = [x for k, x in zip(ops, ns) if k[0] == "O"]
        if labs:
            rows.append("    if let Instr::%s(%s) = i { %s }" % (n, ", ".join(ns), " ".join("assert(uses(i, %s.index as int));" % x for x in labs)))
    u.raw(FINAL.replace("@@BYUSE@@", "\n".join(rows)))
    ST = "it.offset + code_size(it.slice@) <= 65535, it.slice@ == I.skip(I.len() - it.slice@.len()), it.slice@.len() <= I.len(), it.offset == pos_of(I, I.len() - it.slice@.len()), code.0@ == I,"
    STEP = "let ghost k = I.len() - it.slice@.len() - 1; proof { assert(instr == I[k]); code_size_step(I, k); assert(I.skip(k).skip(1) =~= I.skip(k + 1)); }"
    u.impl(A, "Assembler<'a>", {
        "into_code": F("""requires no_use(self.instructions@, self.labels as nat), pos_of(self.instructions@, self.instructions@.len() as int) <= 65535,
            ensures laid(self.instructions@, places(self.instructions@, self.labels as nat, self.instructions@.len() as int), self.instructions@.len() as int, r.0@),""", attrs=OPEN,
            pre="let ghost I = self.instructions@; let ghost n = self.labels as nat; proof { assert(I.take(I.len() as int) =~= I); assert(I.take(0) =~= Seq::<Instr<Label>>::empty()); assert(I.skip(0) =~= I); }",
            rw=[("$v:id.resize($n, Location::new(0))", "fill(&mut $v, $n, Location { value: 0 })"),
                ("for ($l:id, $i:id) in $c:id.iter() {", "let mut it = $c.iter(); while let Some(($l, $i)) = it.next() {"),
                ("for ($l:id, $i:id) in $c:id.iter().filter(|(_, $j:id)| $p) {", "let mut it = $c.iter(); let ghost T = locations@; while let Some(($l, $i)) = it.next() { proof { let k = I.len() - it.slice@.len() - 1; assert($i == I[k]); code_size_step(I, k); assert(I.skip(k).skip(1) =~= I.skip(k + 1)); } if !({ let $j = &$i; $p }) { continue; }")],
            loops=[L("while", ST + "locations@ == places(I, n, I.len() - it.slice@.len()), locations@.len() == n", start=STEP),
                   L("while", ST + "locations@ == T, T.len() == n, laid(I, T, I.len() - it.slice@.len(), resolved@)",
                     start="let ghost R = resolved@;", post="proof { assert(resolved@.drop_last() =~= R); }")]),
        "from_body": F("""requires wf_block(env(*old(scope), *old(pool)), seq), based(*old(pool)),
            ensures names(*final(scope)) == names(*old(scope)), grown(*old(pool), *final(pool)),
                (r is Ok) == (gen_block(env(*old(scope), *old(pool)), *files, seq, None, nothing()) is Some),
                r is Ok ==> exists|s: Seq<Instr<Label>>, n: usize| #[trigger] compiled(env(*old(scope), *old(pool)), *files, seq, *final(pool), s, n, r->Ok_0),""",
            pre="broadcast use flow::group_flow; let ghost v = env(*scope, *pool); let ghost p0 = *pool; proof { vis_none(*pool); }",
            rw=[("let mut assembler = Self::new(files);", "let mut assembler = Self::new(files); proof { assert(assembler.instructions@ =~= Seq::<Instr<Label>>::empty()); assert(so_far(assembler, *pool) == nothing()); }"),
                ("assembler.emit(Instr::Nop);", "fits_a_function(&assembler.instructions); let ghost s = assembler.instructions@; let ghost n = assembler.labels; proof { all_reached(v, *files, seq, s, n, *pool); end_of(s, n); } assembler.emit(Instr::Nop);"),
                ("Ok(assembler.into_code())", "{ let code = assembler.into_code(); proof { last_nop(s, n, code.0@); } let out: Result<Code<Offset>, Error> = Ok(code); proof { assert(out->Ok_0 == code); assert(compiled(env(*old(scope), *old(pool)), *files, seq, *pool, s, n, out->Ok_0)); } out }")]),
    }, mode=mode, hdr="impl<'a> Assembler<'a>")
    u.raw("""
pub open spec fn finished(s: Seq<Instr<Label>>) -> Seq<Instr<Label>> { s.push(Instr::Nop) }
// the code of a function: what its body is compiled to, and a Nop; labels replaced by distances
pub open spec fn compiled(v: Env, f: Files, b: Block, p: ConstantPool, s: Seq<Instr<Label>>, n: usize, c: Code<Offset>) -> bool {
    let r = c.0@;
    let t = places(s, n as nat, s.len() as int);
    &&& gen_block(v, f, b, None, nothing()) == Some(Out { code: vis(s, p), n: n as nat })
    &&& r.len() > 0 && r.last() is Nop && laid(s, t, s.len() as int, r.drop_last())
    &&& reached(s, t)
    &&& code_size(r.drop_last()) == pos_of(s, s.len() as int)
}
pub proof fn end_of(s: Seq<Instr<Label>>, n: usize)
    requires no_use(s, n as nat), pos_of(s, s.len() as int) + 1 <= 65535,
    ensures no_use(finished(s), n as nat), pos_of(finished(s), finished(s).len() as int) <= 65535,
{
    let t = finished(s);
    assert forall|i: int| 0 <= i < t.len() implies labels_in(#[trigger] t[i], n as nat) by { if i < s.len() { assert(t[i] == s[i]); } }
    code_size_step(t, s.len() as int);
    assert(t.take(s.len() as int) =~= s); assert(s.take(s.len() as int) =~= s);
}
pub proof fn prefix_same(s: Seq<Instr<Label>>, n: nat, k: int)
    requires 0 <= k <= s.len(),
    ensures places(finished(s), n, k) == places(s, n, k),
    decreases k
{ if k > 0 { prefix_same(s, n, k - 1); assert(finished(s)[k - 1] == s[k - 1]); assert(finished(s).take(k - 1) =~= s.take(k - 1)); } }
pub proof fn prefix_laid(s: Seq<Instr<Label>>, t: Seq<Location>, k: int, r: Seq<Instr<Offset>>)
    requires 0 <= k <= s.len(),
    ensures laid(finished(s), t, k, r) == laid(s, t, k, r),
    decreases k
{ if k > 0 { assert(finished(s)[k - 1] == s[k - 1]); assert(finished(s).take(k - 1) =~= s.take(k - 1)); if s[k - 1] is Target { prefix_laid(s, t, k - 1, r); } else if r.len() > 0 { prefix_laid(s, t, k - 1, r.drop_last()); } } }
pub proof fn last_nop(s: Seq<Instr<Label>>, n: usize, r: Seq<Instr<Offset>>)
    requires laid(finished(s), places(finished(s), n as nat, finished(s).len() as int), finished(s).len() as int, r),
    ensures r.len() > 0, r.last() is Nop, laid(s, places(s, n as nat, s.len() as int), s.len() as int, r.drop_last()), code_size(r.drop_last()) == pos_of(s, s.len() as int),
{
    let k = s.len() as int;
    assert(finished(s)[k] is Nop);
    prefix_same(s, n as nat, k);
    assert(places(finished(s), n as nat, k + 1) == places(finished(s), n as nat, k));
    prefix_laid(s, places(s, n as nat, k), k, r.drop_last());
    laid_size(s, places(s, n as nat, k), k, r.drop_last());
}
""")


def build(repo):
    u = Unit("assembler", repo)
    u.global_rw = [("Seq<TypedAst>", "Block"), ("TypedExpr", "Expr")]
    base(u)
    rows = []
    for n, _, ops in TABLE:
        ns = instr.names(ops)
        labs = [x for k, x in zip(ops, ns) if k[0] == "O" or k == "T"]
        if labs and n != "Target":
            rows.append("        Instr::%s(%s) => %s," % (n, ", ".join(ns), " || ".join("%s.index == l" % x for x in labs)))
    gen(u)
    u.raw(PLACING.replace("@@USES@@", "\n".join(rows)))
    final(u)
    return u


def base(u):
    instr.base(u)
    instr.stubs(u, ["CName", "Resource", "TweakDbId", "Class", "Enum", "Field", "SourceFile", "Visibility", "LocalFlags", "SourceReference"])
    u.raw(contract_file("refstr.rs"))
    instr.pool_index(u, "assume")
    instr.small(u, "assume")
    u.enum(DF, "Type", attrs="#[derive(Clone, Copy)]")
    u.raw("""// bit sets (modular-bitfield): contracts ASSUMED
#[derive(Clone, Copy)]
pub struct FunctionFlags { _p: () }
impl FunctionFlags {
    pub uninterp spec fn st(self) -> bool;
    pub uninterp spec fn fi(self) -> bool;
    pub uninterp spec fn na(self) -> bool;
    #[verifier::external_body] pub fn is_static(&self) -> (r: bool) ensures r == self.st() { unimplemented!() }
    #[verifier::external_body] pub fn is_final(&self) -> (r: bool) ensures r == self.fi() { unimplemented!() }
    #[verifier::external_body] pub fn is_native(&self) -> (r: bool) ensures r == self.na() { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct ParameterFlags { _p: () }
impl ParameterFlags {
    pub uninterp spec fn sc(self) -> bool;
    #[verifier::external_body] pub fn is_short_circuit(&self) -> (r: bool) ensures r == self.sc() { unimplemented!() }
}""")
    instr.instr_types(u)
    codebody.sizes(u, "assume")
    u.struct(B, "Code")
    codebody.small(u, "assume")
    u.default_mode = "assume"
    cursor.cursor(u, "assume")
    u.default_mode = None
    codebody.resolve(u, "assume")
    u.struct(DF, "Function")
    u.struct(DF, "Parameter")
    u.struct(DF, "Local")
    it = decompile.intrinsics(u, "assume")
    tree(u)
