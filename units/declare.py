"""contracts for printing declarations (decompiler/src/print.rs): classes, fields, functions, parameters, types and enums in the language's syntax"""
import re
from vgen import Unit, F, L
import instr
import codebody
import cursor
import decompile
import pool
import printer
import strings
from codec import contract_file
from decompile import NODEC
from instr import B, BU, DF

P = printer.P
# flags whose value is shown
SHOWN = {
    "ClassFlags": ["is_native", "is_abstract", "is_final", "is_struct", "is_import_only"],
    "FieldFlags": ["is_native", "is_editable", "is_inline", "is_const", "is_replicated", "is_persistent"],
    "FunctionFlags": ["is_static", "is_exec", "is_final", "is_native", "is_callback", "has_body", "is_const", "is_quest"],
    "ParameterFlags": ["is_optional", "is_out", "is_const"],
    "LocalFlags": ["is_const"],
}


def flags(u):
    for n, fs in SHOWN.items():
        u.raw("// modular_bitfield accessors (which bit each reads: C06)\npub struct %s { _p: () }\nimpl %s {\n%s\n}" % (n, n, "\n".join(
            "    pub uninterp spec fn f_%s(self) -> bool;\n    #[verifier::external_body]\n    pub fn %s(&self) -> (r: bool) ensures r == self.f_%s() { unimplemented!() }" % (f, f, f) for f in fs)))


def base(u):
    instr.base(u)
    instr.stubs(u, ["CName", "Resource", "TweakDbId", "SourceFile", "SourceReference"])
    u.raw(contract_file("refstr.rs"))
    instr.pool_index(u, "assume")
    instr.small(u, "assume")
    u.enum(DF, "Type", attrs="#[derive(Clone, Copy)]")
    flags(u)
    u.enum(DF, "Visibility", attrs="#[derive(Clone, Copy)]")
    instr.instr_types(u)
    codebody.sizes(u, "assume")
    u.struct(B, "Code")
    for n in ("Class", "Enum", "Function", "Local", "Parameter", "Field", "Property"):
        u.struct(DF, n)
    pool.any_definition(u)
    pool.definition(u)
    strings.pool_error(u)
    strings.kinds(u)
    strings.strings(u, "assume")
    pool.pool(u, "assume")
    cursor.cursor(u, "assume")
    decompile.ast(u)
    decompile.errors(u)
    u.global_rw = decompile.RW


SPEC = """
// ------------------------------------------------------------------ what the decompiler makes of a body (C13)
pub uninterp spec fn legible(f: Function) -> bool;
pub uninterp spec fn decompiles(f: Function, d: Definition, p: ConstantPool, b: Block) -> bool;
pub uninterp spec fn stuck(f: Function, d: Definition, p: ConstantPool) -> bool;
pub struct Decompiler { _p: () }
impl Decompiler {
    #[verifier::external_body]
    pub fn decompiled(f: &Function, d: &Definition, p: &ConstantPool) -> (r: Result<Block, Error>)
        requires legible(*f),
        ensures match r { Ok(b) => decompiles(*f, *d, *p, b), Err(_) => stuck(*f, *d, *p) }
    { unimplemented!() }
}
// Debug, in lower case (std and derive): a function of the instruction
pub uninterp spec fn lower_debug_of(i: Instr<Offset>) -> Seq<char>;
#[verifier::external_body]
pub fn lower_debug(i: &Instr<Offset>) -> (r: String) ensures r@ == lower_debug_of(*i) { unimplemented!() }
impl Out {
    #[verifier::external_body]
    pub fn debug<T>(&mut self, x: &T) -> (r: Result<(), IoError>) ensures final(self).refuses() == old(self).refuses(), r is Err ==> old(self).refuses() { unimplemented!() }
}
pub open spec fn vis(v: Visibility) -> Seq<char> { match v { Visibility::Public => "public"@, Visibility::Protected => "protected"@, Visibility::Private => "private"@ } }
impl Show for u16 { open spec fn text(&self) -> Seq<char> { decimal(*self as int) } }
impl Show for Visibility { open spec fn text(&self) -> Seq<char> { vis(*self) } }
// one text behind the other
pub trait Cat { spec fn then(self, b: Self) -> Self; }
impl Cat for Seq<char> { open spec fn then(self, b: Self) -> Self { cat(self, b) } }
// text made by format!
pub struct Made { _p: () }
impl View for Made { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Made {
    #[verifier::external_body]
    pub fn new() -> (r: Made) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn put(&mut self, s: &str) ensures final(self)@ == old(self)@.then(s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn show<T: Show>(&mut self, x: &T) ensures final(self)@ == old(self)@.then(x.text()) { unimplemented!() }
    #[verifier::external_body]
    pub fn done(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub fn owned(t: &RefStr) -> (r: String) ensures r@ == t@ { unimplemented!() }
#[verifier::external_body]
pub fn text(t: &str) -> (r: String) ensures r@ == t@ { unimplemented!() }
#[verifier::external_body]
pub fn escape_text(t: &String) -> (r: String) ensures r@ == escaped(t@) { unimplemented!() }
// str::split(';').next(): the part in front of the first semicolon; there always is one
#[verifier::external_body]
pub fn head_of(t: &RefStr) -> (r: &str) ensures r@ == plain_name(t@) { unimplemented!() }
pub open spec fn strings_of(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(|t: String| t@) }
pub open spec fn comma(ts: Seq<Seq<char>>) -> Seq<char> decreases ts.len() {
    if ts.len() == 0 { Seq::empty() } else if ts.len() == 1 { ts[0] } else { comma(ts.drop_last()).then(", "@).then(ts.last()) }
}
#[verifier::external_body]
pub fn joined(v: &Vec<String>) -> (r: String) ensures r@ == comma(strings_of(v@)) { unimplemented!() }
#[verifier::external_body]
pub fn complain() { unimplemented!() }
pub mod growing {
use vstd::prelude::*;
use super::{grew, added};
#[verifier::opaque]
pub open spec fn cat(a: Seq<char>, b: Seq<char>) -> Seq<char> { a + b }
pub broadcast proof fn grown(a: Seq<char>, b: Seq<char>)
    requires #[trigger] grew(a, b),
    ensures b == cat(a, added(a, b)),
{
    reveal(grew); reveal(added);
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(a =~= b.subrange(0, a.len() as int)); assert(b.subrange(0, a.len() as int)[i] == b[i]); }
    assert(b =~= a + added(a, b)); reveal(cat);
}
}
pub use growing::cat;

// ------------------------------------------------------------------ the language's declarations
// nothing to look up ends in a missing entry
pub open spec fn name_of(p: ConstantPool, d: Definition) -> Option<Seq<char>> { resolves(p.names, d.name.value as int) }
pub open spec fn put(o: Option<Seq<char>>, s: Seq<char>) -> Option<Seq<char>> { match o { Some(o) => Some(o.then(s)), None => None } }
#[verifier::opaque]
pub open spec fn flag(o: Seq<char>, b: bool, s: Seq<char>) -> Seq<char> { if b { o.then(s) } else { o } }

// the spelling of a type of at most so many nested parts
pub open spec fn type_within(p: ConstantPool, d: Definition, n: nat) -> Option<Seq<char>>
    decreases n, 0int
{
    if n == 0 { None } else {
        match d.value {
            AnyDefinition::Type(t) => match t {
                Type::Prim => name_of(p, d), Type::Class => name_of(p, d),
                Type::Ref(x) => wrap("ref<"@, inner_type(p, x, (n - 1) as nat), ">"@),
                Type::WeakRef(x) => wrap("wref<"@, inner_type(p, x, (n - 1) as nat), ">"@),
                Type::Array(x) => wrap("array<"@, inner_type(p, x, (n - 1) as nat), ">"@),
                Type::StaticArray(x, k) => match wrap("array<"@, inner_type(p, x, (n - 1) as nat), "; "@) { Some(t) => Some(t.then(decimal(k as int)).then(">"@)), None => None },
                Type::ScriptRef(x) => wrap("script_ref<"@, inner_type(p, x, (n - 1) as nat), ">"@),
            },
            _ => None,
        }
    }
}
pub open spec fn wrap(a: Seq<char>, t: Option<Seq<char>>, b: Seq<char>) -> Option<Seq<char>> { match t { Some(t) => Some(Seq::<char>::empty().then(a).then(t).then(b)), None => None } }
pub open spec fn inner_type(p: ConstantPool, x: PoolIndex<Type>, n: nat) -> Option<Seq<char>>
    decreases n, 1int
{ match slot(p, x.value as int) { Some(d) => type_within(p, d, n), None => None } }
pub open spec fn type_at(p: ConstantPool, x: PoolIndex<Type>) -> Option<Seq<char>> { match slot(p, x.value as int) { Some(d) => type_text(p, d), None => None } }
#[verifier::opaque]
pub open spec fn type_text(p: ConstantPool, d: Definition) -> Option<Seq<char>> {
    if exists|n: nat| (#[trigger] type_within(p, d, n)) is Some { type_within(p, d, choose|n: nat| (#[trigger] type_within(p, d, n)) is Some) } else { None }
}
pub proof fn type_more(p: ConstantPool, d: Definition, n: nat, m: nat)
    requires n <= m,
    ensures type_within(p, d, n) is Some ==> type_within(p, d, m) == type_within(p, d, n),
    decreases n,
{
    if n > 0 {
        match d.value {
            AnyDefinition::Type(t) => match t {
                Type::Ref(x) | Type::WeakRef(x) | Type::Array(x) | Type::StaticArray(x, _) | Type::ScriptRef(x) => { match slot(p, x.value as int) { Some(e) => type_more(p, e, (n - 1) as nat, (m - 1) as nat), None => {} } }
                _ => {}
            },
            _ => {}
        }
    }
}
pub proof fn type_found(p: ConstantPool, d: Definition, n: nat)
    ensures type_within(p, d, n) is Some ==> type_text(p, d) == type_within(p, d, n),
{
    reveal(type_text);
    if type_within(p, d, n) is Some {
        let m = choose|m: nat| (#[trigger] type_within(p, d, m)) is Some;
        if n <= m { type_more(p, d, n, m); } else { type_more(p, d, m, n); }
    }
}
pub proof fn type_step(p: ConstantPool, d: Definition, e: Definition, x: PoolIndex<Type>)
    requires slot(p, x.value as int) == Some(e), d.value matches AnyDefinition::Type(t) && (t == Type::Ref(x) || t == Type::WeakRef(x) || t == Type::Array(x) || (t matches Type::StaticArray(y, _) && y == x) || t == Type::ScriptRef(x)),
    ensures
        type_text(p, e) is None ==> type_text(p, d) is None,
        type_text(p, e) matches Some(s) ==> type_text(p, d) == (match d.value {
            AnyDefinition::Type(t) => match t {
                Type::Ref(_) => wrap("ref<"@, Some(s), ">"@), Type::WeakRef(_) => wrap("wref<"@, Some(s), ">"@), Type::Array(_) => wrap("array<"@, Some(s), ">"@),
                Type::StaticArray(_, k) => Some(wrap("array<"@, Some(s), "; "@)->Some_0.then(decimal(k as int)).then(">"@)), Type::ScriptRef(_) => wrap("script_ref<"@, Some(s), ">"@), _ => None,
            },
            _ => None }),
{
    if type_text(p, e) is None {
        if type_text(p, d) is Some {
            reveal(type_text);
            let n = choose|n: nat| (#[trigger] type_within(p, d, n)) is Some;
            assert(inner_type(p, x, (n - 1) as nat) is Some);
            type_found(p, e, (n - 1) as nat);
        }
    } else {
        let n = { reveal(type_text); choose|n: nat| (#[trigger] type_within(p, e, n)) is Some };
        assert(type_within(p, e, n) is Some) by { reveal(type_text); }
        type_found(p, e, n);
        assert(inner_type(p, x, n) == type_within(p, e, n));
        type_found(p, d, n + 1);
    }
}
// a type that is not built from another, or is built from one that is not there
pub proof fn type_plain(p: ConstantPool, d: Definition)
    ensures
        !(d.value is Type) ==> type_text(p, d) is None,
        d.value matches AnyDefinition::Type(t) ==> match t {
            Type::Prim => type_text(p, d) == name_of(p, d), Type::Class => type_text(p, d) == name_of(p, d),
            Type::Ref(x) | Type::WeakRef(x) | Type::Array(x) | Type::StaticArray(x, _) | Type::ScriptRef(x) => slot(p, x.value as int) is None ==> type_text(p, d) is None,
        },
{
    type_found(p, d, 1);
    reveal(type_text);
    if type_text(p, d) is Some {
        let n = choose|n: nat| (#[trigger] type_within(p, d, n)) is Some;
        assert(n > 0);
        match d.value {
            AnyDefinition::Type(t) => match t {
                Type::Ref(x) | Type::WeakRef(x) | Type::Array(x) | Type::StaticArray(x, _) | Type::ScriptRef(x) => { assert(inner_type(p, x, (n - 1) as nat) is Some); }
                _ => { type_found(p, d, n); type_more(p, d, 1, n); }
            },
            _ => {}
        }
    }
}

pub open spec fn param_text(p: ConstantPool, d: Definition) -> Option<Seq<char>> {
    match d.value {
        AnyDefinition::Parameter(m) => match (name_of(p, d), type_at(p, m.type_)) {
            (Some(n), Some(t)) => Some(Seq::<char>::empty().then(if m.flags.f_is_const() { "const "@ } else { ""@ }).then(if m.flags.f_is_out() { "out "@ } else { ""@ }).then(if m.flags.f_is_optional() { "opt "@ } else { ""@ }).then(n).then(": "@).then(t)),
            _ => None,
        },
        _ => None,
    }
}
pub open spec fn param_texts(p: ConstantPool, s: Seq<PoolIndex<Parameter>>, n: int) -> Option<Seq<Seq<char>>>
    decreases n
{
    if n <= 0 { Some(Seq::empty()) } else {
        match (param_texts(p, s, n - 1), slot(p, s[n - 1].value as int)) {
            (Some(ts), Some(d)) => match param_text(p, d) { Some(t) => Some(ts.push(t)), None => None },
            _ => None,
        }
    }
}
pub proof fn params_down(p: ConstantPool, s: Seq<PoolIndex<Parameter>>, k: int, n: int)
    requires 0 <= k <= n,
    ensures param_texts(p, s, k) is None ==> param_texts(p, s, n) is None,
    decreases n,
{ if k < n { params_down(p, s, k, n - 1); } }

pub open spec fn local_text(p: ConstantPool, d: Definition, depth: usize, o: Seq<char>) -> Option<Seq<char>> {
    match d.value {
        AnyDefinition::Local(l) => match (name_of(p, d), type_at(p, l.type_)) {
            (Some(n), Some(t)) => Some(o.then(indent(depth)).then(if l.flags.f_is_const() { "const "@ } else { "let "@ }).then(n).then(": "@).then(t).then(";"@)),
            _ => None,
        },
        _ => None,
    }
}
pub open spec fn properties(s: Seq<Property>, n: int, depth: usize, o: Seq<char>) -> Seq<char>
    decreases n
{ if n <= 0 { o } else { properties(s, n - 1, depth, o).then(indent(depth)).then("@runtimeProperty(\\""@).then(escaped(s[n - 1].name@)).then("\\", \\""@).then(escaped(s[n - 1].value@)).then("\\")\\n"@) } }
pub open spec fn initials(s: Seq<Property>, n: int, depth: usize, o: Seq<char>) -> Seq<char>
    decreases n
{ if n <= 0 { o } else { initials(s, n - 1, depth, o).then(indent(depth)).then("@default("@).then(s[n - 1].name@).then(", "@).then(s[n - 1].value@).then(")\\n"@) } }
pub open spec fn field_text(p: ConstantPool, d: Definition, depth: usize, o: Seq<char>) -> Option<Seq<char>> {
    match d.value {
        AnyDefinition::Field(f) => match (name_of(p, d), type_at(p, f.type_)) {
            (Some(n), Some(t)) => {
                let a = properties(f.attributes@, f.attributes@.len() as int, depth, o.then("\\n"@));
                let b = initials(f.defaults@, f.defaults@.len() as int, depth, a).then(indent(depth)).then(vis(f.visibility)).then(" "@);
                let c = flag(flag(flag(b, f.flags.f_is_inline(), "inline "@), f.flags.f_is_replicated(), "replicated "@), f.flags.f_is_editable(), "edit "@);
                let e = flag(flag(flag(c, f.flags.f_is_native(), "native "@), f.flags.f_is_persistent(), "persistent "@), f.flags.f_is_const(), "const "@);
                Some(e.then("let "@).then(n).then(": "@).then(t).then(";\\n"@))
            },
            _ => None,
        },
        _ => None,
    }
}
pub open spec fn field_texts(p: ConstantPool, s: Seq<PoolIndex<Field>>, n: int, depth: usize, o: Seq<char>) -> Option<Seq<char>>
    decreases n
{
    if n <= 0 { Some(o) } else {
        match (field_texts(p, s, n - 1, depth, o), slot(p, s[n - 1].value as int)) { (Some(o), Some(d)) => field_text(p, d, depth, o), _ => None }
    }
}
pub open spec fn member_text(p: ConstantPool, d: Definition, depth: usize, o: Seq<char>) -> Option<Seq<char>> {
    match d.value { AnyDefinition::EnumValue(v) => match name_of(p, d) { Some(n) => Some(o.then(indent(depth)).then(n).then(" = "@).then(decimal(v as int)).then(",\\n"@)), None => None }, _ => None }
}
pub open spec fn member_texts(p: ConstantPool, s: Seq<PoolIndex<i64>>, n: int, depth: usize, o: Seq<char>) -> Option<Seq<char>>
    decreases n
{
    if n <= 0 { Some(o) } else {
        match (member_texts(p, s, n - 1, depth, o), slot(p, s[n - 1].value as int)) { (Some(o), Some(d)) => member_text(p, d, depth, o), _ => None }
    }
}
pub open spec fn fun_head(p: ConstantPool, d: Definition, f: Function, depth: usize, o: Seq<char>) -> Option<Seq<char>> {
    match (name_of(p, d), param_texts(p, f.parameters@, f.parameters@.len() as int), match f.return_type { Some(t) => type_at(p, t), None => Some("Void"@) }) {
        (Some(n), Some(ps), Some(t)) => {
            let a = o.then("\\n"@).then(indent(depth)).then(vis(f.visibility)).then(" "@);
            let b = flag(flag(flag(flag(a, f.flags.f_is_final(), "final "@), f.flags.f_is_static(), "static "@), f.flags.f_is_native(), "native "@), f.flags.f_is_exec(), "exec "@);
            let c = flag(flag(flag(b, f.flags.f_is_const(), "const "@), f.flags.f_is_quest(), "quest "@), f.flags.f_is_callback(), "cb "@);
            Some(c.then("func "@).then(plain_name(n)).then("("@).then(comma(ps)).then(") -> "@).then(t))
        },
        _ => None,
    }
}
pub open spec fn local_texts(p: ConstantPool, s: Seq<PoolIndex<Local>>, n: int, depth: usize, o: Seq<char>) -> Option<Seq<char>>
    decreases n
{
    if n <= 0 { Some(o) } else {
        match (local_texts(p, s, n - 1, depth, o), slot(p, s[n - 1].value as int)) { (Some(o), Some(d)) => put(local_text(p, d, depth, o), "\\n"@), _ => None }
    }
}
pub open spec fn listing_text(c: Seq<Instr<Offset>>, n: int, depth: usize, o: Seq<char>) -> Seq<char>
    decreases n
{ if n <= 0 { o } else { listing_text(c, n - 1, depth, o).then(indent(depth)).then(decimal(pos_of(c, n - 1))).then(": "@).then(lower_debug_of(c[n - 1])).then("\\n"@) } }
// the statements of the tree the decompiler finds
pub open spec fn statements(p: ConstantPool, d: Definition, f: Function, v: bool, k: Block, s: Seq<char>) -> bool {
    decompiles(f, d, p, k) && stmts(shown_block(k, v).kids, shown_block(k, v).kids.len() as int, s)
}
pub proof fn any_statements(p: ConstantPool, d: Definition, f: Function, v: bool)
    ensures forall|k: Block, s: Seq<char>| decompiles(f, d, p, k) && #[trigger] stmts(shown_block(k, v).kids, shown_block(k, v).kids.len() as int, s) ==> statements(p, d, f, v, k, s),
{ }
#[verifier::opaque]
pub open spec fn body_text(p: ConstantPool, d: Definition, f: Function, depth: usize, mode: OutputMode, a: Seq<char>, b: Seq<char>) -> bool {
    match mode {
        OutputMode::Code { verbose } => exists|k: Block, s: Seq<char>| #[trigger] statements(p, d, f, verbose, k, s) && b == a.then(" {\\n"@).then(s).then(indent(depth)).then("}"@),
        OutputMode::Bytecode => match local_texts(p, f.locals@, f.locals@.len() as int, (depth + 1) as usize, a.then(" {\\n"@)) {
            Some(o) => b == listing_text(f.code.0@, f.code.0@.len() as int, (depth + 1) as usize, o).then(indent(depth)).then("}"@),
            None => false,
        },
        OutputMode::SyntaxTree => true,
    }
}
#[verifier::opaque]
pub open spec fn bodied(p: ConstantPool, d: Definition, f: Function, depth: usize, mode: OutputMode, h: Seq<char>, b: Seq<char>) -> bool { exists|m: Seq<char>| #[trigger] body_text(p, d, f, depth, mode, h, m) && b == m.then("\\n"@) }
pub proof fn bodies(p: ConstantPool, d: Definition, depth: usize, mode: OutputMode)
    ensures d.value matches AnyDefinition::Function(f) ==> forall|h: Seq<char>, m: Seq<char>| #[trigger] body_text(p, d, f, depth, mode, h, m) ==> bodied(p, d, f, depth, mode, h, m.then("\\n"@)),
{ reveal(bodied); }
pub open spec fn fun_text(p: ConstantPool, d: Definition, depth: usize, mode: OutputMode, a: Seq<char>, b: Seq<char>) -> bool {
    match d.value {
        AnyDefinition::Function(f) => match fun_head(p, d, f, depth, a) {
            Some(h) => if f.flags.f_has_body() { bodied(p, d, f, depth, mode, h, b) } else { b == h.then(";"@).then("\\n"@) },
            None => false,
        },
        _ => false,
    }
}
pub open spec fn class_head(p: ConstantPool, d: Definition, c: Class, o: Seq<char>) -> Option<Seq<char>> {
    let a = o.then("\\n"@).then(vis(c.visibility)).then(" "@);
    let b = flag(flag(a, c.flags.f_is_abstract(), "abstract "@), c.flags.f_is_final(), "final "@);
    let e = if c.flags.f_is_import_only() { b.then("importonly "@) } else { flag(b, c.flags.f_is_native(), "native "@) };
    let g = e.then(if c.flags.f_is_struct() { "struct "@ } else { "class "@ });
    match name_of(p, d) {
        Some(n) => if c.base.value == 0 { Some(g.then(n).then(" "@).then("{\\n"@)) } else {
            match slot(p, c.base.value as int) { Some(e) => match name_of(p, e) { Some(m) => Some(g.then(n).then(" "@).then("extends "@).then(m).then(" "@).then("{\\n"@)), None => None }, None => None }
        },
        None => None,
    }
}
// a method is written, or something about it cannot be and it costs only its own text
pub open spec fn method_step(p: ConstantPool, x: PoolIndex<Function>, depth: usize, mode: OutputMode, down: bool, a: Seq<char>, b: Seq<char>) -> bool {
    match slot(p, x.value as int) { Some(d) => fun_text(p, d, depth, mode, a, b) || down || !printable(p, d, mode), None => false }
}
pub open spec fn methods(p: ConstantPool, s: Seq<PoolIndex<Function>>, n: int, depth: usize, mode: OutputMode, down: bool, xs: Seq<Seq<char>>) -> bool {
    xs.len() == n + 1 && forall|i: int| 0 <= i < n ==> method_step(p, #[trigger] s[i], depth, mode, down, xs[i], xs[i + 1])
}
pub open spec fn class_text(p: ConstantPool, d: Definition, c: Class, depth: usize, mode: OutputMode, down: bool, a: Seq<char>, b: Seq<char>) -> bool {
    match class_head(p, d, c, a) {
        Some(h) => match field_texts(p, c.fields@, c.fields@.len() as int, (depth + 1) as usize, h) {
            Some(o) => exists|xs: Seq<Seq<char>>| #[trigger] methods(p, c.functions@, c.functions@.len() as int, (depth + 1) as usize, mode, down, xs) && xs[0] == o && b == xs.last().then("}\\n"@),
            None => false,
        },
        None => false,
    }
}
pub open spec fn written_body(p: ConstantPool, d: Definition, depth: usize, mode: OutputMode, down: bool, a: Seq<char>, b: Seq<char>) -> bool {
    match d.value {
        AnyDefinition::Type(_) => type_text(p, d) matches Some(t) && b == a.then(t),
        AnyDefinition::Class(c) => class_text(p, d, c, depth, mode, down, a, b),
        AnyDefinition::EnumValue(_) => member_text(p, d, depth, a) == Some(b),
        AnyDefinition::Enum(e) => name_of(p, d) matches Some(n) && (member_texts(p, e.members@, e.members@.len() as int, (depth + 1) as usize, a.then("\\n"@).then("enum "@).then(n).then(" {\\n"@)) matches Some(o) && b == o.then("}\\n"@)),
        AnyDefinition::Function(_) => fun_text(p, d, depth, mode, a, b),
        AnyDefinition::Parameter(_) => param_text(p, d) matches Some(t) && b == a.then(t),
        AnyDefinition::Local(_) => local_text(p, d, depth, a) == Some(b),
        AnyDefinition::Field(_) => field_text(p, d, depth, a) == Some(b),
        AnyDefinition::SourceFile(_) => false,
    }
}
#[verifier::opaque]
pub open spec fn written(p: ConstantPool, d: Definition, depth: usize, mode: OutputMode, down: bool, a: Seq<char>, b: Seq<char>) -> bool { written_body(p, d, depth, mode, down, a, b) }
pub proof fn written_is(p: ConstantPool, d: Definition, depth: usize, mode: OutputMode, down: bool, a: Seq<char>)
    ensures forall|b: Seq<char>| #[trigger] written(p, d, depth, mode, down, a, b) == written_body(p, d, depth, mode, down, a, b),
{ reveal(written); }
// everything it refers to is there
pub open spec fn printable_body(p: ConstantPool, d: Definition, mode: OutputMode) -> bool {
    match d.value {
        AnyDefinition::Type(_) => type_text(p, d) is Some,
        AnyDefinition::Class(c) => name_of(p, d) is Some && (c.base.value == 0 || (slot(p, c.base.value as int) matches Some(e) && name_of(p, e) is Some))
            && (forall|i: int| 0 <= i < c.fields@.len() ==> has_field(p, #[trigger] c.fields@[i])) && (forall|i: int| 0 <= i < c.functions@.len() ==> slot(p, (#[trigger] c.functions@[i]).value as int) is Some),
        AnyDefinition::EnumValue(_) => name_of(p, d) is Some,
        AnyDefinition::Enum(e) => name_of(p, d) is Some && forall|i: int| 0 <= i < e.members@.len() ==> has_name(p, (#[trigger] e.members@[i]).value as int),
        AnyDefinition::Function(f) => name_of(p, d) is Some && param_texts(p, f.parameters@, f.parameters@.len() as int) is Some && (f.return_type matches Some(t) ==> type_at(p, t) is Some)
            && (f.flags.f_has_body() ==> if mode is Bytecode { forall|i: int| 0 <= i < f.locals@.len() ==> has_local(p, #[trigger] f.locals@[i]) } else { !stuck(f, d, p) }),
        AnyDefinition::Parameter(_) => param_text(p, d) is Some,
        AnyDefinition::Local(l) => name_of(p, d) is Some && type_at(p, l.type_) is Some,
        AnyDefinition::Field(f) => name_of(p, d) is Some && type_at(p, f.type_) is Some,
        AnyDefinition::SourceFile(_) => false,
    }
}
#[verifier::opaque]
pub open spec fn printable(p: ConstantPool, d: Definition, mode: OutputMode) -> bool { printable_body(p, d, mode) }
pub proof fn printable_is(p: ConstantPool, d: Definition, mode: OutputMode) ensures printable(p, d, mode) == printable_body(p, d, mode), { reveal(printable); }
pub open spec fn has_name(p: ConstantPool, x: int) -> bool { slot(p, x) matches Some(m) && name_of(p, m) is Some }
pub open spec fn has_field(p: ConstantPool, x: PoolIndex<Field>) -> bool { slot(p, x.value as int) matches Some(d) && (d.value matches AnyDefinition::Field(f) && name_of(p, d) is Some && type_at(p, f.type_) is Some) }
pub open spec fn has_local(p: ConstantPool, x: PoolIndex<Local>) -> bool { slot(p, x.value as int) matches Some(d) && (d.value matches AnyDefinition::Local(l) && name_of(p, d) is Some && type_at(p, l.type_) is Some) }
// members are of the kinds their lists are for, bodies can be read (C13) and what they decompile to has a spelling (C14)
pub open spec fn proper_body(p: ConstantPool, d: Definition, mode: OutputMode) -> bool {
    match d.value {
        AnyDefinition::Class(c) => (forall|i: int| 0 <= i < c.fields@.len() ==> (slot(p, (#[trigger] c.fields@[i]).value as int) matches Some(m) ==> m.value is Field))
            && (forall|i: int| 0 <= i < c.functions@.len() ==> (slot(p, (#[trigger] c.functions@[i]).value as int) matches Some(m) ==> m.value is Function)),
        AnyDefinition::Enum(e) => forall|i: int| 0 <= i < e.members@.len() ==> (slot(p, (#[trigger] e.members@[i]).value as int) matches Some(m) ==> m.value is EnumValue),
        AnyDefinition::Function(f) => legible(f) && pos_of(f.code.0@, f.code.0@.len() as int) <= 65535
            && (forall|i: int| 0 <= i < f.locals@.len() ==> (slot(p, (#[trigger] f.locals@[i]).value as int) matches Some(m) ==> m.value is Local))
            && (mode matches OutputMode::Code { verbose } ==> forall|k: Block| #[trigger] decompiles(f, d, p, k) ==> fit_block(k, verbose)),
        AnyDefinition::SourceFile(_) => false,
        _ => true,
    }
}
#[verifier::opaque]
pub open spec fn proper(p: ConstantPool, d: Definition, mode: OutputMode) -> bool { proper_body(p, d, mode) }
pub proof fn proper_is(p: ConstantPool, d: Definition, mode: OutputMode) ensures proper(p, d, mode) == proper_body(p, d, mode), { reveal(proper); }
pub open spec fn all_proper(p: ConstantPool, mode: OutputMode) -> bool { forall|i: int| 0 <= i < p.definitions@.len() && !((#[trigger] p.definitions@[i]).value is SourceFile) ==> proper(p, p.definitions@[i], mode) }
pub open spec fn room(d: Definition) -> int { if d.value is Class || d.value is Enum { 3 } else if d.value is Function { 2 } else { 0 } }
"""

IO = "old(out)@, final(out)@"
LOYAL = printer.LOYAL.split(",")[0] + ", "


def declare(u):
    u.enum(P, "OutputMode", attrs="#[derive(Clone, Copy)]")
    u.raw(SPEC)
    u.raw("broadcast use growing::grown;")
    u.impl(DF, "Display for Visibility", {"fmt": F("ensures r is Ok ==> grew(old(f)@, final(f)@) && added(old(f)@, final(f)@) == vis(*self),",
        sig_rw=[("&mut std::fmt::Formatter<'_>", "&mut Out"), ("std::fmt::Result", "Result<(), IoError>")], rw=[("f.write_str($x)", "f.put($x)")])}, hdr="impl Visibility")
    u.fn(P, "format_type", F("ensures match type_text(*pool, *def) { Some(t) => (r matches Ok(s) && s@ == t), None => r is Err },", attrs=NODEC, pieces=True, opt=("ok_or",),
         rw=[("pool.names.get(def.name)?.to_string()", "owned(&pool.names.get(def.name)?)")],
         pre="""proof { type_plain(*pool, *def); match def.value { AnyDefinition::Type(t) => match t {
                Type::Ref(x) | Type::WeakRef(x) | Type::Array(x) | Type::StaticArray(x, _) | Type::ScriptRef(x) => { match slot(*pool, x.value as int) { Some(e) => type_step(*pool, *def, e, x), None => {} } }, _ => {} }, _ => {} } }"""))
    u.fn(P, "format_param", F("ensures match param_text(*pool, *def) { Some(t) => (r matches Ok(s) && s@ == t), None => r is Err },", attrs=NODEC, pieces=True, opt=("ok_or",)))
    REQ = "requires proper(*pool, %s, mode), all_proper(*pool, mode), depth + room(%s) < 0x1000_0000, "
    ALL = "depth + room(*definition) < 0x1000_0000, all_proper(*pool, mode), proper_body(*pool, *definition, mode), printable(*pool, *definition, mode) == printable_body(*pool, *definition, mode), "
    SAME = "out.refuses() == old(out).refuses(), "
    u.fn(P, "write_function_body", F("requires def.value == AnyDefinition::Function(*fun), fun.flags.f_has_body(), proper(*pool, *def, mode), all_proper(*pool, mode), depth + 2 < 0x1000_0000, ensures " + LOYAL
         + "r is Err ==> old(out).refuses() || !printable(*pool, *def, mode), r is Ok ==> body_text(*pool, *def, *fun, depth, mode, %s)," % IO, sig_rw=printer.io(1), attrs=NODEC, pieces=True,
         rw=[("for $x:id in code.exprs {", "let stop = code.exprs.len(); for at in 0..stop { let $x = &code.exprs[at];"), ("for $x:id in &fun.locals {", "let stop = fun.locals.len(); for at in 0..stop { let $x = &fun.locals[at];"),
             ("for ($a:id, $b:id) in fun.code.iter() {", "let mut walk = fun.code.iter(); while let Some(($a, $b)) = walk.next() {"), ('format!("{:?}", $x:id).to_lowercase()', "lower_debug(&$x)")],
         pre="let ghost g_a = out@; proof { printable_is(*pool, *def, mode); proper_is(*pool, *def, mode); assert(fun.code.0@.take(fun.code.0@.len() as int) =~= fun.code.0@); assert(fun.code.0@.take(0) =~= Seq::<Instr<Offset>>::empty()); assert(fun.code.0@.skip(0) =~= fun.code.0@); reveal(body_text); if let OutputMode::Code { verbose } = mode { any_statements(*pool, *def, *fun, verbose); } }",
         loops=[L("for", SAME + "depth + 2 < 0x1000_0000, stop == code.exprs@.len(),"),
                L("for", SAME + "stop == fun.locals@.len(), depth + 2 < 0x1000_0000, all_proper(*pool, mode), proper_body(*pool, *def, mode), printable(*pool, *def, mode) == printable_body(*pool, *def, mode), def.value == AnyDefinition::Function(*fun), fun.flags.f_has_body(), mode is Bytecode, local_texts(*pool, fun.locals@, at as int, (depth + 1) as usize, g_a.then(\" {\\n\"@)) == Some(out@),", start="proof { match slot(*pool, fun.locals@[at as int].value as int) { Some(d) => { proper_is(*pool, d, mode); printable_is(*pool, d, mode); written_is(*pool, d, (depth + 1) as usize, mode, out.refuses(), out@); }, None => {} } }"),
                L("while", "", exc=SAME + "depth + 2 < 0x1000_0000, walk.slice@ == fun.code.0@.skip(g_n), 0 <= g_n <= fun.code.0@.len(), walk.offset == pos_of(fun.code.0@, g_n), walk.offset + code_size(walk.slice@) <= 65535, out@ == listing_text(fun.code.0@, g_n, (depth + 1) as usize, g_o),",
                  ens=SAME + "out@ == listing_text(fun.code.0@, fun.code.0@.len() as int, (depth + 1) as usize, g_o),", pre="let ghost mut g_n = 0; let ghost g_o = out@;", start="proof { let c = fun.code.0@; if g_n < c.len() { code_size_step(c, g_n); assert(c.skip(g_n).skip(1) =~= c.skip(g_n + 1)); assert(c.skip(g_n)[0] == c[g_n]); } else { assert(c.skip(g_n).len() == 0); } }", post="proof { g_n = g_n + 1; }")]
         ))
    u.fn(P, "write_definition", F(REQ % ("*definition", "*definition") + "ensures " + LOYAL + "r is Err ==> old(out).refuses() || !printable(*pool, *definition, mode), r is Ok ==> written(*pool, *definition, depth, mode, old(out).refuses(), %s)," % IO,
         sig_rw=printer.io(1), attrs=NODEC + "\n#[verifier::spinoff_prover]", pieces=True, cases=9,
         rw=[("if $a:id.flags.$f:id() { write!(out, $s)?; } else", "if $a.flags.$f() { out.put($s)?; } else"),
             ("if $a:id.flags.$f:id() { write!(out, $s)?; }", "{ let g_c = $a.flags.$f(); let ghost g_t = out@; if g_c { out.put($s)?; } proof { assert(out@ == flag(g_t, g_c, $s@)) by { reveal(flag); } } }"),
             ("for $x:id in &$v {", "let stop = $v.len(); for at in 0..stop { let $x = &$v[at];"), ("$n:id.split(';').next().expect($m)", "head_of(&$n)"), ("Vec::with_capacity($n)", "Vec::new()"),
             ('params.join(", ")', "joined(&params)"), ('"Void".to_owned()', 'text("Void")'), ("str::escape_default(&$x)", "escape_text(&$x)"), ("log::error!($m)", "complain()"), ("panic!()", "never()")],
         pre="proof { printable_is(*pool, *definition, mode); proper_is(*pool, *definition, mode); written_is(*pool, *definition, depth, mode, out.refuses(), out@); bodies(*pool, *definition, depth, mode); }",
         loops=[L("for", SAME + "stop == class.fields@.len(), " + ALL + "definition.value == AnyDefinition::Class(*class), field_texts(*pool, class.fields@, at as int, (depth + 1) as usize, g_o) == Some(out@),", pre="let ghost g_o = out@;", start="proof { match slot(*pool, class.fields@[at as int].value as int) { Some(d) => { proper_is(*pool, d, mode); printable_is(*pool, d, mode); written_is(*pool, d, (depth + 1) as usize, mode, out.refuses(), out@); }, None => {} } }"),
                L("for", SAME + "stop == class.functions@.len(), " + ALL + "definition.value == AnyDefinition::Class(*class), methods(*pool, class.functions@, at as int, (depth + 1) as usize, mode, old(out).refuses(), g_xs), g_xs[0] == g_o, g_xs.last() == out@,",
                  pre="let ghost g_o = out@; let ghost mut g_xs = seq![out@];", start="proof { match slot(*pool, class.functions@[at as int].value as int) { Some(d) => { proper_is(*pool, d, mode); printable_is(*pool, d, mode); written_is(*pool, d, (depth + 1) as usize, mode, out.refuses(), out@); }, None => {} } }", post="proof { g_xs = g_xs.push(out@); }"),
                L("for", SAME + "stop == enum_.members@.len(), " + ALL + "definition.value == AnyDefinition::Enum(*enum_), member_texts(*pool, enum_.members@, at as int, (depth + 1) as usize, g_o) == Some(out@),", pre="let ghost g_o = out@;", start="proof { match slot(*pool, enum_.members@[at as int].value as int) { Some(d) => { proper_is(*pool, d, mode); printable_is(*pool, d, mode); written_is(*pool, d, (depth + 1) as usize, mode, out.refuses(), out@); }, None => {} } }"),
                L("for", SAME + "stop == fun.parameters@.len(), out@ == old(out)@, definition.value == AnyDefinition::Function(*fun), printable(*pool, *definition, mode) == printable_body(*pool, *definition, mode), param_texts(*pool, fun.parameters@, at as int) == Some(strings_of(params@)), printable(*pool, *definition, mode) ==> param_texts(*pool, fun.parameters@, stop as int) is Some,",
                  pre="proof { assert(strings_of(params@) =~= Seq::<Seq<char>>::empty()); }", start="let ghost g_ps = params@; proof { params_down(*pool, fun.parameters@, at + 1, stop as int); }", post="proof { assert(strings_of(params@) =~= strings_of(g_ps).push(params@.last()@)); }"),
                L("for", SAME + "stop == field.attributes@.len(), depth < 0x1000_0000, out@ == properties(field.attributes@, at as int, depth, g_o),", pre="let ghost g_o = out@;"),
                L("for", SAME + "stop == field.defaults@.len(), depth < 0x1000_0000, out@ == initials(field.defaults@, at as int, depth, g_o),", pre="let ghost g_o = out@;")]
         ))


def build(repo):
    u = Unit("declare", repo)
    base(u)
    u.default_mode = "assume"
    printer.writer(u, "assume", joining=False)
    u.default_mode = None
    declare(u)
    return u
