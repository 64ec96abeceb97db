"""contracts for calls: which candidate a call means and what becomes of its arguments (compiler/src/typechecker.rs)"""
from vgen import Unit, F, L
from assembler import NODEC, OPEN, TC
import conversions

SPEC = r"""
pub type TypedExpr = Expr;
impl FunctionFlags { pub uninterp spec fn cs(self) -> bool;
#[verifier::external_body] pub fn is_cast(&self) -> (r: bool) ensures r == self.cs() { unimplemented!() } }
impl ParameterFlags { pub uninterp spec fn op(self) -> bool;
#[verifier::external_body] pub fn is_optional(&self) -> (r: bool) ensures r == self.op() { unimplemented!() } }
#[verifier::external_body]
pub struct FunctionMatchError { _p: () }
pub enum MatcherError { MatchError(FunctionMatchError), Other(Error) }
#[verifier::external_body]
pub fn mismatch(a: Ident, b: Ident) -> (r: FunctionMatchError) { unimplemented!() }
#[verifier::external_body]
pub fn miscount(given: usize, min: usize, max: usize) -> (r: FunctionMatchError) { unimplemented!() }
#[verifier::external_body]
pub fn no_match(name: Ident, errors: Vec<FunctionMatchError>) -> Error { unimplemented!() }

// ------------------------------------------------------------------ the arguments a function takes
pub open spec fn callee(p: ConstantPool, f: PoolIndex<Function>) -> Option<Function> { fun(p, f) }
// a parameter that has to be given
pub open spec fn must(p: ConstantPool, i: PoolIndex<Parameter>) -> bool { match par(p, i) { Some(d) => !d.flags.op(), None => true } }
pub open spec fn needed(p: ConstantPool, v: Seq<PoolIndex<Parameter>>, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else { needed(p, v, k - 1) + (if must(p, v[k - 1]) { 1int } else { 0 }) } }
pub proof fn needed_most(p: ConstantPool, v: Seq<PoolIndex<Parameter>>, k: int)
    requires 0 <= k
    ensures 0 <= needed(p, v, k) <= k
    decreases k
{ if k > 0 { needed_most(p, v, k - 1); } }
pub open spec fn takes(p: ConstantPool, f: PoolIndex<Function>, n: int) -> bool {
    fun(p, f) matches Some(d) && needed(p, d.parameters@, d.parameters@.len() as int) <= n <= d.parameters@.len()
}
pub open spec fn par_type(s: Scope, p: ConstantPool, i: PoolIndex<Parameter>) -> Option<TypeId> { match par(p, i) { Some(d) => meant(s, p, d.type_), None => None } }
// t is the list of the types of the parameters
pub open spec fn types_are(s: Scope, p: ConstantPool, f: PoolIndex<Function>, t: Seq<TypeId>) -> bool {
    fun(p, f) matches Some(d) && t.len() == d.parameters@.len() && forall|k: int| 0 <= k < t.len() ==> par_type(s, p, #[trigger] d.parameters@[k]) == Some(t[k])
}
pub open spec fn types_missing(s: Scope, p: ConstantPool, f: PoolIndex<Function>) -> bool {
    fun(p, f) matches Some(d) ==> exists|k: int| 0 <= k < d.parameters@.len() && par_type(s, p, #[trigger] d.parameters@[k]) is None
}

// ------------------------------------------------------------------ whether it takes these
pub open spec fn least(a: int, b: int) -> int { if a < b { a } else { b } }
// a cast is chosen by what is wanted as well
pub open spec fn returns(s: Scope, p: ConstantPool, f: PoolIndex<Function>) -> Option<TypeId> { match fun(p, f)->0.return_type { Some(t) => meant(s, p, t), None => None } }
pub open spec fn by_result(p: ConstantPool, f: PoolIndex<Function>, want: Option<TypeId>) -> bool { fun(p, f)->0.flags.cs() && want is Some }
pub open spec fn wanted(want: Option<&TypeId>) -> Option<TypeId> { match want { Some(t) => Some(*t), None => None } }
pub open spec fn fit_conv(s: Scope, p: ConstantPool, e: Expr, t: TypeId) -> Option<Conversion> { match type_of_(s, p, e) { Some(x) => conv(p, x, t), None => None } }
pub open spec fn suits(s: Scope, p: ConstantPool, f: PoolIndex<Function>, a: Seq<Expr>, t: Seq<TypeId>, want: Option<TypeId>) -> bool {
    &&& fun(p, f) is Some
    &&& by_result(p, f, want) ==> (returns(s, p, f) matches Some(r) && conv(p, r, want->0) is Some)
    &&& forall|k: int| 0 <= k < a.len() && k < t.len() ==> fit_conv(s, p, #[trigger] a[k], t[k]) is Some
}
pub open spec fn unsuited(s: Scope, p: ConstantPool, f: PoolIndex<Function>, a: Seq<Expr>, t: Seq<TypeId>, want: Option<TypeId>) -> bool {
    &&& fun(p, f) is Some
    &&& (by_result(p, f, want) && (returns(s, p, f) matches Some(r) && conv(p, r, want->0) is None))
        || exists|k: int| 0 <= k < a.len() && k < t.len() && (type_of_(s, p, #[trigger] a[k]) matches Some(x) && conv(p, x, t[k]) is None)
}
pub open spec fn shaky(p: ConstantPool, t: TypeId) -> bool { !exists_(p, t) || !nameable(p, t) }
// something of it has no type, or a type without a name or class
pub open spec fn broken(s: Scope, p: ConstantPool, f: PoolIndex<Function>, a: Seq<Expr>, t: Seq<TypeId>, want: Option<TypeId>) -> bool {
    ||| fun(p, f) is None
    ||| by_result(p, f, want) && (returns(s, p, f) matches Some(r) ==> shaky(p, r) || shaky(p, want->0))
    ||| exists|k: int| 0 <= k < a.len() && k < t.len() && (type_of_(s, p, #[trigger] a[k]) matches Some(x) ==> shaky(p, x) || shaky(p, t[k]))
}
pub open spec fn convs_are(s: Scope, p: ConstantPool, a: Seq<Expr>, t: Seq<TypeId>, c: Seq<ArgConversion>) -> bool {
    c.len() == least(a.len() as int, t.len() as int) && forall|k: int| 0 <= k < c.len() ==> (#[trigger] c[k]).target == t[k] && fit_conv(s, p, a[k], t[k]) == Some(c[k].conversion)
}
// the arguments, each converted
pub open spec fn passed(a: Seq<Expr>, c: Seq<ArgConversion>, r: Seq<Expr>) -> bool {
    r.len() == least(a.len() as int, c.len() as int) && forall|k: int| 0 <= k < r.len() ==> converted(a[k], c[k].target, c[k].conversion, #[trigger] r[k])
}
pub open spec fn all_settled(a: Seq<Expr>) -> bool { forall|k: int| 0 <= k < a.len() ==> settled(#[trigger] a[k]) }

// ------------------------------------------------------------------ checking one expression: ASSUMED, see C20 and C21 for parts of it
#[verifier::external_body]
pub struct Src { _p: () }
// e is what the source expression is read as where a value of that type is expected
pub uninterp spec fn read_as(x: Src, want: Option<TypeId>, e: Expr) -> bool;
// the names and definitions there are once it is read
pub uninterp spec fn after(x: Src, want: Option<TypeId>, s: Scope, p: ConstantPool, s1: Scope, p1: ConstantPool) -> bool;
pub uninterp spec fn unreadable(x: Src, want: Option<TypeId>) -> bool;
#[verifier::external_body]
pub struct Diagnostic { _p: () }
impl Diagnostic {
#[verifier::external_body]
pub fn from_error(err: Error) -> (r: Result<Diagnostic, Error>) { unimplemented!() }
#[verifier::external_body]
pub fn unrelated(span: Span) -> (r: Diagnostic) { unimplemented!() } }
#[verifier::external_body]
pub fn not_an_enum(given: Ident) -> Error { unimplemented!() }
#[verifier::external_body]
pub fn misused(op: IntrinsicOp, given: Ident) -> Error { unimplemented!() }
pub struct TypeChecker { pub pool: ConstantPool, pub locals: Vec<PoolIndex<Local>>, pub diagnostics: Vec<Diagnostic>, pub permissive: bool }
impl TypeChecker {
    #[verifier::external_body]
    pub fn check(&mut self, expr: &Src, expected: Option<&TypeId>, scope: &mut Scope) -> (r: Result<Expr, Error>)
        ensures r matches Ok(e) ==> read_as(*expr, wanted(expected), e) && settled(e), after(*expr, wanted(expected), *old(scope), old(self).pool, *final(scope), final(self).pool), r is Err ==> unreadable(*expr, wanted(expected)), sound(old(self).pool) ==> sound(final(self).pool), final(self).permissive == old(self).permissive,
            final(self).diagnostics@.len() >= old(self).diagnostics@.len()
    { unimplemented!() }
}
pub open spec fn all_read(x: Seq<&Src>, want: Seq<TypeId>, n: nat, e: Seq<Expr>) -> bool {
    e.len() == (if n != 1 { x.len() as int } else { least(x.len() as int, want.len() as int) }) && forall|k: int| 0 <= k < e.len() ==> read_as(*x[k], if n != 1 { None } else { Some(want[k]) }, #[trigger] e[k])
}
pub open spec fn some_unreadable(x: Seq<&Src>) -> bool { exists|k: int, w: Option<TypeId>| 0 <= k < x.len() && #[trigger] unreadable(*x[k], w) }

// e is what the source expression is where a value of type t has to stand; told: an error was reported
pub open spec fn stands_as(src: Src, t: TypeId, s: Scope, p: ConstantPool, e: Expr, told: bool) -> bool {
    exists|x: Expr| #[trigger] read_as(src, Some(t), x) && match fit_conv(s, p, x, t) { Some(c) => converted(x, t, c, e), None => e == x && told }
}

// ------------------------------------------------------------------ built-in operations
// what an operand behind the first is, where the first is of type t
pub enum Operand { Whole, Element }
pub open spec fn operands(op: IntrinsicOp) -> Seq<Operand> {
    match op {
        IntrinsicOp::ArrayResize | IntrinsicOp::ArrayGrow | IntrinsicOp::ArrayErase => seq![Operand::Whole],
        IntrinsicOp::ArrayFindFirst | IntrinsicOp::ArrayFindLast | IntrinsicOp::ArrayContains | IntrinsicOp::ArrayCount | IntrinsicOp::ArrayPush | IntrinsicOp::ArrayRemove => seq![Operand::Element],
        IntrinsicOp::ArrayInsert => seq![Operand::Whole, Operand::Element],
        _ => Seq::empty(),
    }
}
pub open spec fn compares(op: IntrinsicOp) -> bool { op is Equals || op is NotEquals }
// the operation works on a first operand of type t
pub open spec fn works_on(op: IntrinsicOp, t: TypeId, want: Option<TypeId>) -> bool {
    match op {
        IntrinsicOp::Equals | IntrinsicOp::NotEquals | IntrinsicOp::ToString | IntrinsicOp::ToVariant | IntrinsicOp::AsRef => true,
        IntrinsicOp::ArrayClear | IntrinsicOp::ArraySize | IntrinsicOp::ArrayResize | IntrinsicOp::ArrayFindFirst | IntrinsicOp::ArrayFindLast | IntrinsicOp::ArrayContains | IntrinsicOp::ArrayCount
        | IntrinsicOp::ArrayPush | IntrinsicOp::ArrayPop | IntrinsicOp::ArrayInsert | IntrinsicOp::ArrayRemove | IntrinsicOp::ArrayGrow | IntrinsicOp::ArrayErase | IntrinsicOp::ArrayLast => t is Array,
        IntrinsicOp::EnumInt => t is Enum,
        IntrinsicOp::IntEnum => want matches Some(w) && w is Enum,
        IntrinsicOp::FromVariant => t is Variant && want is Some,
        IntrinsicOp::VariantTypeName | IntrinsicOp::VariantIsRef | IntrinsicOp::VariantIsArray => t is Variant,
        IntrinsicOp::Deref => t is ScriptRef,
        IntrinsicOp::IsDefined => t is Ref || t is WeakRef || t is Null || t is Variant,
        _ => false,
    }
}
// what it yields
pub open spec fn yields(op: IntrinsicOp, t: TypeId, want: Option<TypeId>, s: Scope, p: ConstantPool) -> Option<TypeId> {
    match op {
        IntrinsicOp::Equals | IntrinsicOp::NotEquals | IntrinsicOp::ArrayContains | IntrinsicOp::ArrayRemove | IntrinsicOp::ArrayErase | IntrinsicOp::VariantIsRef | IntrinsicOp::VariantIsArray | IntrinsicOp::IsDefined => named(s, p, "Bool"@),
        IntrinsicOp::ArraySize | IntrinsicOp::ArrayCount | IntrinsicOp::EnumInt => named(s, p, "Int32"@),
        IntrinsicOp::ArrayFindFirst | IntrinsicOp::ArrayFindLast | IntrinsicOp::ArrayPop | IntrinsicOp::ArrayLast => Some(*t->Array_0),
        IntrinsicOp::ArrayClear | IntrinsicOp::ArrayResize | IntrinsicOp::ArrayPush | IntrinsicOp::ArrayInsert | IntrinsicOp::ArrayGrow => Some(TypeId::Void),
        IntrinsicOp::ToString => named(s, p, "String"@),
        IntrinsicOp::ToVariant => named(s, p, "Variant"@),
        IntrinsicOp::VariantTypeName => named(s, p, "CName"@),
        IntrinsicOp::IntEnum | IntrinsicOp::FromVariant => want,
        IntrinsicOp::AsRef => Some(TypeId::ScriptRef(Box::new(t))),
        IntrinsicOp::Deref => Some(*t->ScriptRef_0),
        _ => None,
    }
}
pub open spec fn operand_type(o: Operand, t: TypeId, s: Scope, p: ConstantPool) -> Option<TypeId> { match o { Operand::Whole => named(s, p, "Int32"@), Operand::Element => Some(*t->Array_0) } }
// e is the operand, converted; s0, p0 and s, p: names and definitions before and behind it
pub open spec fn operand(x: Src, w: Option<TypeId>, s0: Scope, p0: ConstantPool, s: Scope, p: ConstantPool, e: Expr, told: bool) -> bool { w is Some && after(x, w, s0, p0, s, p) && stands_as(x, w->0, s, p, e, told) }
pub open spec fn further(op: IntrinsicOp, x: Seq<Src>, t: TypeId, s1: Scope, p1: ConstantPool, s: Scope, p: ConstantPool, a: Seq<Expr>, told: bool) -> bool {
    let o = operands(op);
    if compares(op) {
        after(x[1], Some(t), s1, p1, s, p) && read_as(x[1], Some(t), a[1]) && (type_of_(s, p, a[1]) matches Some(t2) && (join(p, t, t2) is None ==> told))
    } else if o.len() == 0 { s == s1 && p == p1 }
    else if o.len() == 1 { operand(x[1], operand_type(o[0], t, s1, p1), s1, p1, s, p, a[1], told) }
    else { exists|s2: Scope, p2: ConstantPool| #[trigger] operand(x[1], operand_type(o[0], t, s1, p1), s1, p1, s2, p2, a[1], told) && operand(x[2], operand_type(o[1], t, s1, p1), s2, p2, s, p, a[2], told) }
}
pub open spec fn op_call(op: IntrinsicOp, x: Seq<Src>, want: Option<TypeId>, s0: Scope, p0: ConstantPool, s: Scope, p: ConstantPool, e: Expr, told: bool) -> bool {
    &&& e matches Expr::Call(c, ts, a, _) && ts@.len() == 0 && a@.len() == op_args(op) && x.len() == op_args(op) && (c matches Callable::Intrinsic(o, y) && o == op && op_has(op, x, want, s0, p0, s, p, a@, y, told))
}
pub open spec fn op_has(op: IntrinsicOp, x: Seq<Src>, want: Option<TypeId>, s0: Scope, p0: ConstantPool, s: Scope, p: ConstantPool, a: Seq<Expr>, y: TypeId, told: bool) -> bool {
    exists|s1: Scope, p1: ConstantPool, t: TypeId| {
        &&& read_as(x[0], None, a[0]) && #[trigger] after(x[0], None, s0, p0, s1, p1) && type_of_(s1, p1, a[0]) == Some(t)
        &&& works_on(op, t, want) && yields(op, t, want, s, p) == Some(y)
        &&& #[trigger] further(op, x, t, s1, p1, s, p, a, told)
    }
}
pub open spec fn nameless(s: Scope, p: ConstantPool) -> bool { named(s, p, "Bool"@) is None || named(s, p, "Int32"@) is None || named(s, p, "String"@) is None || named(s, p, "Variant"@) is None || named(s, p, "CName"@) is None }
pub open spec fn op_refused(op: IntrinsicOp, x: Seq<Src>, want: Option<TypeId>, s0: Scope, p0: ConstantPool) -> bool {
    ||| x.len() != op_args(op)
    ||| unreadable(x[0], None)
    ||| exists|e: Expr, s1: Scope, p1: ConstantPool| #[trigger] read_as(x[0], None, e) && #[trigger] after(x[0], None, s0, p0, s1, p1) && (type_of_(s1, p1, e) matches Some(t) ==> !works_on(op, t, want))
    ||| exists|s: Scope, p: ConstantPool| #[trigger] nameless(s, p)
    ||| exists|k: int, w: TypeId| 1 <= k < x.len() && #[trigger] unreadable(x[k], Some(w))
    ||| exists|k: int, w: TypeId, e: Expr, s: Scope, p: ConstantPool| 1 <= k < x.len() && #[trigger] read_as(x[k], Some(w), e) && (#[trigger] type_of_(s, p, e) matches Some(t) ==> !exists_(p, t) || conv(p, t, w) is None)
}

// ------------------------------------------------------------------ the candidates that take that many arguments, in order
pub open spec fn fitting(p: ConstantPool, c: Seq<PoolIndex<Function>>, n: int, k: int) -> Seq<PoolIndex<Function>>
    decreases k
{ if k <= 0 { Seq::empty() } else if takes(p, c[k - 1], n) { fitting(p, c, n, k - 1).push(c[k - 1]) } else { fitting(p, c, n, k - 1) } }
pub open spec fn typed(s: Scope, p: ConstantPool, c: Seq<PoolIndex<Function>>, e: Seq<(PoolIndex<Function>, Vec<TypeId>)>) -> bool {
    e.len() == c.len() && forall|k: int| 0 <= k < e.len() ==> (#[trigger] e[k]).0 == c[k] && types_are(s, p, c[k], e[k].1@)
}
// the call means this one: s0 and p0 are the names and definitions before its arguments are looked at, s and p those behind
pub open spec fn means_one_of(s0: Scope, p0: ConstantPool, s: Scope, p: ConstantPool, c: Seq<PoolIndex<Function>>, x: Seq<&Src>, want: Option<TypeId>, m: FunctionMatch) -> bool {
    exists|e: Seq<(PoolIndex<Function>, Vec<TypeId>)>, a: Seq<Expr>, v: Seq<ArgConversion>, j: int| {
        &&& #[trigger] typed(s0, p0, fitting(p0, c, x.len() as int, c.len() as int), e)
        &&& 0 <= j < e.len() && m.index == e[j].0
        &&& #[trigger] all_read(x, e[j].1@, e.len(), a)
        &&& suits(s, p, e[j].0, a, e[j].1@, want)
        &&& forall|i: int| 0 <= i < j ==> unsuited(s, p, (#[trigger] e[i]).0, a, e[i].1@, want)
        &&& #[trigger] convs_are(s, p, a, e[j].1@, v) && passed(a, v, m.args@)
    }
}
pub open spec fn means_none(s0: Scope, p0: ConstantPool, s: Scope, p: ConstantPool, c: Seq<PoolIndex<Function>>, x: Seq<&Src>, want: Option<TypeId>) -> bool {
    ||| some_unreadable(x)
    ||| exists|k: int| 0 <= k < c.len() && (fun(p0, #[trigger] c[k]) is None || takes(p0, c[k], x.len() as int) && types_missing(s0, p0, c[k]))
    ||| exists|e: Seq<(PoolIndex<Function>, Vec<TypeId>)>, a: Seq<Expr>| {
        &&& #[trigger] typed(s0, p0, fitting(p0, c, x.len() as int, c.len() as int), e)
        &&& e.len() == 0 || #[trigger] all_read(x, e[0].1@, e.len(), a)
        &&& (forall|i: int| 0 <= i < e.len() ==> unsuited(s, p, (#[trigger] e[i]).0, a, e[i].1@, want)) || exists|i: int| 0 <= i < e.len() && broken(s, p, (#[trigger] e[i]).0, a, e[i].1@, want)
    }
}
pub fn first_of<T>(v: Vec<T>) -> (r: Option<T>)
    ensures match r { Some(x) => v@.len() > 0 && v@[0] == x, None => v@.len() == 0 }
{ let mut v = v; if v.len() == 0 { None } else { let x = v.remove(0); Some(x) } }
// Itertools::exactly_one
pub fn exactly_one<T>(v: Vec<T>) -> (r: Result<T, Vec<T>>)
    ensures match r { Ok(x) => v@.len() == 1 && v@[0] == x, Err(w) => w == v && v@.len() != 1 }
{ let mut v = v; if v.len() == 1 { let x = v.remove(0); Ok(x) } else { Err(v) } }
"""


def build(repo):
    u = Unit("calls", repo)
    conversions.types(u, "assume")
    u.raw(SPEC)
    u.struct(TC, "ArgConversion")
    u.struct(TC, "FunctionMatch", rw=[("TypedExpr", "Expr")])
    u.impl(TC, "ArgConversion", {"new": F("ensures r.conversion == conversion, r.target == target,"), "identity": F("ensures r.conversion == Conversion::Identity,")})
    u.impl(TC, "FunctionMatch", {"new": F("ensures r.index == index, passed(args@, conversions@, r.args@),", rw=[
        ("args.into_iter().zip(conversions).map(|(expr, conv)| $e).collect()", """{
            let ghost a0 = args@; let ghost c0 = conversions@;
            let mut left = args; let mut convs = conversions; let mut out: Vec<Expr> = Vec::new();
            while left.len() > 0 && convs.len() > 0
                { let expr = left.remove(0); let conv = convs.remove(0); out.push($e); }
            out }""")], loops=[L("while", """out@.len() <= a0.len(), out@.len() <= c0.len(), left@ == a0.skip(out@.len() as int), convs@ == c0.skip(out@.len() as int), forall|k: int| 0 <= k < out@.len() ==> converted(a0[k], c0[k].target, c0[k].conversion, #[trigger] out@[k])""", dec="left@.len()")])})
    OTHER = "(match %s { Ok(x) => x, Err(e) => { return Err(MatcherError::Other(e)); } })"
    tc = {
        "validate_call": F("""ensures r matches Ok(x) ==> x.0 == fun_index && takes(*pool, fun_index, arg_count as int) && types_are(*scope, *pool, fun_index, x.1@),
        r matches Err(MatcherError::MatchError(_)) ==> fun(*pool, fun_index) is Some && !takes(*pool, fun_index, arg_count as int),
        r matches Err(MatcherError::Other(_)) ==> fun(*pool, fun_index) is None || takes(*pool, fun_index, arg_count as int) && types_missing(*scope, *pool, fun_index),""", rw=[
            ("let fun = pool.function(fun_index)?;", "let fun = %s;" % OTHER % "pool.function(fun_index)"),
            ("let params = fun.parameters.iter().map(|idx| pool.parameter(*idx).map_err(Error::PoolError));", "let params = &fun.parameters;"),
            ("params.clone().filter_ok(|$p:id| $c).count()", """{ let mut n = 0usize; let mut at = 0usize;
                while at < params.len()
                { match pool.parameter(params[at]) { Ok($p) => { if $c { n = n + 1; } }, Err(_) => { n = n + 1; } } at = at + 1; }
                n }"""),
            ("params.map(|res| res.and_then(|$p:id| $c.with_span(span))).try_collect()?", """{ let mut v: Vec<TypeId> = Vec::new(); let mut at = 0usize;
                while at < params.len()
                { let $p = (match pool.parameter(params[at]) { Ok(x) => x, Err(e) => { proof { assert(par_type(*scope, *pool, params@[at as int]) is None); } return Err(MatcherError::Other(e)); } });
                  match $c { Ok(t) => v.push(t), Err(e) => { proof { assert(par_type(*scope, *pool, params@[at as int]) is None); } return Err(MatcherError::Other(e)); } } at = at + 1; }
                v }"""),
            ("FunctionMatchError::ArgumentCountMismatch { given: $a, min: $b, max: $c, }", "miscount($a, $b, $c)"),
            ("return Err(err.into());", "return Err(MatcherError::MatchError(err));")], loops=[L("while", """at <= params@.len(), n <= at, n as int == needed(*pool, params@, at as int)""", dec="params@.len() - at"), L("while", """at <= params@.len(), v@.len() == at, callee(*pool, fun_index) is Some, params@ == callee(*pool, fun_index)->0.parameters@, takes(*pool, fun_index, arg_count as int), forall|k: int| 0 <= k < at ==> par_type(*scope, *pool, #[trigger] params@[k]) == Some(v@[k])""", dec="params@.len() - at")]),
        "validate_args": F("""requires sound(*pool), all_settled(args@),
    ensures r matches Ok(c) ==> suits(*scope, *pool, fun_index, args@, param_types@, wanted(wanted_ret_type)) && convs_are(*scope, *pool, args@, param_types@, c@),
        r matches Err(MatcherError::MatchError(_)) ==> unsuited(*scope, *pool, fun_index, args@, param_types@, wanted(wanted_ret_type)),
        r matches Err(MatcherError::Other(_)) ==> broken(*scope, *pool, fun_index, args@, param_types@, wanted(wanted_ret_type)),""", rw=[
            ("let fun = pool.function(fun_index)?;", "let fun = %s;" % OTHER % "pool.function(fun_index)"),
            ("let type_idx = fun.return_type.ok_or(Cause::VoidCannotBeUsed)?;", "let type_idx = (match fun.return_type { Some(x) => x, None => { return Err(MatcherError::Other(trouble())); } });"),
            ("scope.resolve_type_from_pool(type_idx, pool)?", OTHER % "scope.resolve_type_from_pool(type_idx, pool)"),
            ("find_conversion($x)?.is_none()", "%s.is_none()" % OTHER % "find_conversion($x)"),
            ("$x:id.pretty(pool)?", OTHER % "$x.pretty(pool)"),
            ("find_conversion(&arg_typ, param_typ, pool)?", OTHER % "find_conversion(&arg_typ, param_typ, pool)"),
            ("type_of(arg, scope, pool)?", OTHER % "type_of(arg, scope, pool)"),
            ("FunctionMatchError::ReturnMismatch { given, expected }.into()", "MatcherError::MatchError(mismatch(given, expected))"),
            ("FunctionMatchError::ParameterMismatch { given, expected, index }.into()", "MatcherError::MatchError(mismatch(given, expected))"),
            ("izip!(args, param_types, 0..args.len()).map(|(arg, param_typ, index)| $e).collect()", """{ let mut v: Vec<ArgConversion> = Vec::new(); let mut index = 0usize;
                while index < args.len() && index < param_types.len()
                { let arg = &args[index]; let param_typ = &param_types[index];
                  proof { assert(settled(args@[index as int])); }
                  let found: Result<ArgConversion, MatcherError> = $e;
                  match found { Ok(c) => { v.push(c); }, Err(e) => { return Err(e); } } index = index + 1; }
                Ok(v) }""")
        ], loops=[L("while", """v@.len() == index, index <= args@.len(), index <= param_types@.len(), sound(*pool), all_settled(args@), callee(*pool, fun_index) is Some,
                        by_result(*pool, fun_index, wanted(wanted_ret_type)) ==> (returns(*scope, *pool, fun_index) matches Some(r) && conv(*pool, r, wanted(wanted_ret_type)->0) is Some),
                        forall|k: int| 0 <= k < index ==> (#[trigger] v@[k]).target == param_types@[k] && fit_conv(*scope, *pool, args@[k], param_types@[k]) == Some(v@[k].conversion),
                        forall|k: int| 0 <= k < index ==> fit_conv(*scope, *pool, #[trigger] args@[k], param_types@[k]) is Some""", dec="args@.len() - index")]),
    }
    READ = """{ let ghost w0 = *scope; let mut v: Vec<Expr> = Vec::new(); let mut at = 0usize;
                while at < %s
                { let %s = args[at]; %s
                  match $e { Ok(x) => { v.push(x); }, Err(e) => { proof { assert(some_unreadable(args@)); } return Err(e); } } at = at + 1; }
                %sv }"""
    GA = "proof { ga = v@; assert(all_settled(ga)); assert(typed(s0, p0, fitting(p0, cs, args@.len() as int, cs.len() as int), e0)); assert(all_read(args@, e0[0].1@, e0.len(), ga)); } "
    KEPT = "sound(self.pool), self.permissive == old(self).permissive, self.diagnostics@.len() >= seen"
    ALL = "v@.len() == at, at <= args@.len(), all_settled(v@), forall|k: int| 0 <= k < at ==> read_as(*args@[k], None, #[trigger] v@[k]), " + KEPT
    tc["resolve_overload"] = F("""requires sound(old(self).pool), overloads.functions@.len() > 0,
    ensures r matches Ok(m) ==> means_one_of(*old(scope), old(self).pool, *final(scope), final(self).pool, overloads.functions@, args@, wanted(expected), m)
            || old(self).permissive && m.index == overloads.functions@[0] && all_read(args@, Seq::empty(), 0, m.args@) && final(self).diagnostics@.len() > old(self).diagnostics@.len(),
        r is Err && !old(self).permissive ==> means_none(*old(scope), old(self).pool, *final(scope), final(self).pool, overloads.functions@, args@, wanted(expected)),
        r is Ok && !old(self).permissive ==> final(self).diagnostics@.len() >= old(self).diagnostics@.len(),""",
        sig_rw=[("impl ExactSizeIterator<Item = &'b Expr<SourceAst>> + Clone", "&Vec<&'b Src>")],
        pre="let ghost s0 = *scope; let ghost p0 = self.pool; let ghost seen = self.diagnostics@.len(); let ghost cs = overloads.functions@; let ghost want = wanted(expected); let ghost mut e0: Seq<(PoolIndex<Function>, Vec<TypeId>)> = Seq::empty(); let ghost mut pick: int = 0; let ghost mut ga: Seq<Expr> = Seq::empty();",
        rw=[
            ("let mut eligible = vec![];", "let mut eligible: Vec<(PoolIndex<Function>, Vec<TypeId>)> = Vec::new();"),
            ("let mut overload_errors = vec![];", "let mut overload_errors: Vec<FunctionMatchError> = Vec::new();"),
            ("let mut matches = vec![];", "let mut matches: Vec<(PoolIndex<Function>, Vec<ArgConversion>)> = Vec::new();"),
            ("let match_ = match", "proof { e0 = eligible@; } let match_ = match"),
            ("matches.push($x)", "{ proof { if matches@.len() == 0 { pick = at as int; } } matches.push($x); }"),
            ("Ok(FunctionMatch::new(overloads.functions[0], $a, $c))", "{ let ghost da = $a@; let m = FunctionMatch::new(overloads.functions[0], $a, $c); proof { assert forall|k: int| 0 <= k < m.args@.len() implies read_as(*args@[k], None, #[trigger] m.args@[k]) by { assert(da[k] == m.args@[k]); } assert(all_read(args@, Seq::empty(), 0, m.args@)); } Ok(m) }"),
            ("Ok(FunctionMatch::new($f, $a, $c))", """{ let ghost cv = $c@; let m = FunctionMatch::new($f, $a, $c);
                proof { { assert(all_read(args@, e0[pick].1@, e0.len(), ga)); assert(convs_are(*scope, self.pool, ga, e0[pick].1@, cv)); assert(means_one_of(s0, p0, *scope, self.pool, cs, args@, want, m)); } }
                Ok(m) }"""),
            ("Err(Cause::NoMatchingOverload($n, $e:id.into_boxed_slice()).with_span(span))", "{ proof { assert(means_none(s0, p0, *scope, self.pool, cs, args@, want)); } Err(no_match($n, $e)) }"),
            ("scope, self.pool, span", "&*scope, &self.pool, span"),
            ("&checked_args, &types,", "checked_args.as_slice(), types.as_slice(),"),
            ("for overload in &overloads.functions {", "for at in 0..overloads.functions.len() { let overload = &overloads.functions[at];"),
            ("for (fun_index, types) in $x:id {", "for at in 0..$x.len() { let fun_index = $x[at].0; let types = &$x[at].1;"),
            ("eligible.into_iter().exactly_one()", "exactly_one(eligible)"),
            ("args.clone().zip(&types).map(|(arg, typ)| $e).try_collect()?", READ % ("args.len() && at < types.len()", "arg", "let typ = &types[at];", GA)),
            ("args.clone().map(|$p:id| $e).try_collect()?", READ % ("args.len()", "$p", "", GA)),
            ("args.map(|$p:id| $e).try_collect()?", READ % ("args.len()", "$p", "", "")),
            ("let mut it = $m:id.into_iter(); match it.next() {", "match first_of($m) {"),
            ("Err(MatcherError::Other(err)) => return Err(err),", "Err(MatcherError::Other(err)) => { proof { if e0.len() > 0 { assert(broken(*scope, self.pool, e0[at as int].0, ga, e0[at as int].1@, want)); assert(means_none(s0, p0, *scope, self.pool, cs, args@, want)); } } return Err(err); },"),
            ("Err(MatcherError::Other(err)) => Err(err),", "Err(MatcherError::Other(err)) => { proof { assert(means_none(s0, p0, *scope, self.pool, cs, args@, want)); } Err(err) },"),
            ("iter::repeat($a).take($n).collect()", """{ let mut v: Vec<ArgConversion> = Vec::new(); let mut at = 0usize;
                while at < $n
                { v.push($a); at = at + 1; }
                v }"""),
        ], loops=[
            L("for", "e0.len() == 0, self.pool == p0, *scope == s0, self.diagnostics@.len() == seen, self.permissive == old(self).permissive, cs == overloads.functions@, arg_count == args@.len(), typed(s0, p0, fitting(p0, cs, arg_count as int, at as int), eligible@)"),
            L("while", "v@.len() == at, at <= args@.len(), at <= types@.len(), all_settled(v@), forall|k: int| 0 <= k < at ==> read_as(*args@[k], Some(types@[k]), #[trigger] v@[k]), " + KEPT, dec="args@.len() - at"),
            L("while", ALL, dec="args@.len() - at"),
            L("for", KEPT + """, s0 == *old(scope), p0 == old(self).pool, cs == overloads.functions@, eligible@ == e0, e0.len() != 1, ga == checked_args@, all_settled(ga), typed(s0, p0, fitting(p0, cs, args@.len() as int, cs.len() as int), e0), all_read(args@, e0[0].1@, e0.len(), ga), want == wanted(expected),
                matches@.len() == 0 ==> forall|i: int| 0 <= i < at ==> unsuited(*scope, self.pool, (#[trigger] e0[i]).0, ga, e0[i].1@, want),
                matches@.len() > 0 ==> 0 <= pick < at && matches@[0].0 == e0[pick].0 && suits(*scope, self.pool, e0[pick].0, ga, e0[pick].1@, want) && convs_are(*scope, self.pool, ga, e0[pick].1@, matches@[0].1@)
                    && forall|i: int| 0 <= i < pick ==> unsuited(*scope, self.pool, (#[trigger] e0[i]).0, ga, e0[i].1@, want)"""),
            L("while", ALL + ", self.diagnostics@.len() > seen", dec="args@.len() - at"),
            L("while", "v@.len() == at, at <= dummy_args@.len(), forall|k: int| 0 <= k < at ==> (#[trigger] v@[k]).conversion == Conversion::Identity", dec="dummy_args@.len() - at"),
        ])
    tc["check_and_convert"] = F(sig_rw=[("Expr<SourceAst>", "Src")], contract="""requires sound(old(self).pool),
    ensures sound(final(self).pool), final(self).permissive == old(self).permissive, final(self).diagnostics@.len() >= old(self).diagnostics@.len(), after(*expr, Some(*to), *old(scope), old(self).pool, *final(scope), final(self).pool),
        r matches Ok(e) ==> stands_as(*expr, *to, *final(scope), final(self).pool, e, final(self).diagnostics@.len() > old(self).diagnostics@.len()),
        r is Err ==> unreadable(*expr, Some(*to)) || exists|x: Expr| #[trigger] read_as(*expr, Some(*to), x) && (type_of_(*final(scope), final(self).pool, x) matches Some(t) ==> !exists_(final(self).pool, t) || conv(final(self).pool, t, *to) is None),""",
        rw=[("type_of(&checked, scope,", "type_of(&checked, &*scope,"), ("self.pool)", "&self.pool)"), ("Cause::TypeError($x).with_span($s)", "not_joined($x)"),
            ("let from =", "proof { assert(read_as(*expr, Some(*to), checked)); } let from =")])
    tc["check_intrinsic"] = F(sig_rw=[("Expr<SourceAst>", "Src")], contract="""requires sound(old(self).pool),
    ensures r matches Ok(e) ==> op_call(intrinsic, args@, wanted(expected), *old(scope), old(self).pool, *final(scope), final(self).pool, e, final(self).diagnostics@.len() > old(self).diagnostics@.len()),
        r is Err ==> op_refused(intrinsic, args@, wanted(expected), *old(scope), old(self).pool),""",
        pre="let ghost s0 = *scope; let ghost p0 = self.pool; let ghost d0 = self.diagnostics@.len(); let ghost mut s1 = s0; let ghost mut p1 = p0; let ghost mut s2 = s0; let ghost mut p2 = p0; let ghost mut t1 = TypeId::Void;",
        rw=[("match (intrinsic, first_arg_type) {", "match (intrinsic, first_arg_type, expected.is_some()) {"), ("($a, $b) =>", "($a, $b, _) =>"), ("($a, $b) if expected.is_some() =>", "($a, $b, true) =>"),
            ("let first_arg_type = $x;", "let first_arg_type = $x; proof { s1 = *scope; p1 = self.pool; t1 = first_arg_type; }"),
            ("checked_args.push(self.check_and_convert(&args[1], &idx_type, scope)?);", "checked_args.push(self.check_and_convert(&args[1], &idx_type, scope)?); proof { s2 = *scope; p2 = self.pool; }"),
            ("&snd_arg, scope", "&snd_arg, &*scope"), ("&first_arg, scope", "&first_arg, &*scope"), ("self.pool)", "&self.pool)"),
            ("intrinsic.arg_count().into()", "(intrinsic.arg_count() as usize)"), ("Cause::InvalidArgCount($x)", "trouble()"), ("Err(cause.with_span(span))", "Err(cause)"),
            ("Cause::TypeError(Ident::from_static($n), $x)", "not_an_enum($x)"), ("Err(Cause::InvalidIntrinsicUse($x).with_span(span))", "Err(misused($x))"),
            ("let mut checked_args = vec![];", "let mut checked_args: Vec<Expr> = Vec::new();"), ("Diagnostic::Deprecation($x)", "Diagnostic::unrelated(span)"),
            ("&elem, scope", "&*elem, scope"),
            ("scope.resolve_type($x)?", "(match scope.resolve_type($x) { Ok(t) => t, Err(e) => { proof { assert(nameless(*scope, self.pool)); } return Err(e); } })"), ("[].into()", "no_types()"), ("checked_args.into_boxed_slice()", "checked_args"),
            ("Ok(Expr::Call($x))", """{ let ghost told = self.diagnostics@.len() > d0; let ghost a = checked_args@; let ghost y = type_;
                proof {
                    assert(after(args@[0], None, s0, p0, s1, p1));
                    assert(yields(intrinsic, t1, wanted(expected), *scope, self.pool) == Some(y));
                    if intrinsic is ArrayInsert { assert(operand(args@[1], operand_type(Operand::Whole, t1, s1, p1), s1, p1, s2, p2, a[1], told)); }
                    assert(further(intrinsic, args@, t1, s1, p1, *scope, self.pool, a, told));
                    assert(op_has(intrinsic, args@, wanted(expected), s0, p0, *scope, self.pool, a, y, told));
                }
                let e = Expr::Call($x);
                proof {
                    assert(a.len() == op_args(intrinsic));
                    assert(args@.len() == op_args(intrinsic));
                    assert(e->Call_0 == Callable::Intrinsic(intrinsic, y)); assert(e->Call_1@.len() == 0); assert(e->Call_2@ == a);
                    assert(told == (self.diagnostics@.len() > old(self).diagnostics@.len()));
                    assert(op_call(intrinsic, args@, wanted(expected), s0, p0, *scope, self.pool, e, told));
                }
                Ok(e) }"""),
        ])
    tc["report"] = F("ensures final(self).pool == old(self).pool, final(self).permissive == old(self).permissive, r is Ok ==> final(self).diagnostics@.len() == old(self).diagnostics@.len() + 1, r is Err ==> final(self).diagnostics@ == old(self).diagnostics@,")
    u.impl(TC, "TypeChecker<'a>", tc, hdr="impl TypeChecker")
    return u
