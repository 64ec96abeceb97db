"""contracts for core/src/mapper.rs (re-targeting of class and function references)"""
from vgen import Unit, F, L
import instr
import defs
import pool
import strings
from instr import B, BU, DF
from optable import TABLE

M = "core/src/mapper.rs"

SPEC_MAP = """
// a table from indices to indices (hashbrown::HashMap, std Eq): contracts ASSUMED
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { _k: PhantomData<K>, _v: PhantomData<V> }
impl<K, V> View for HashMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
#[verifier::external_body]
pub fn copy_of<A: Copy>(a: &A) -> (r: A) ensures r == *a { *a }
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) }
    { unimplemented!() }
}
"""


def mapper(u, mode="verify"):
    u.raw(SPEC_MAP)
    u.trait(M, "Mapper", {"apply": F("ensures r == self.image(value),")}, extra="    spec fn image(&self, a: A) -> A;")
    u.struct(M, "MultiMapper", attrs="#[verifier::reject_recursive_types(A)]")
    u.struct(M, "NoopMapper", attrs="#[verifier::reject_recursive_types(A)]")
    u.struct(M, "PoolMapper")
    u.impl(M, "MultiMapper<A>", {"new": F("ensures r.mappings == mappings,")}, mode=mode)
    # clone of an index is the index itself (Clone for PoolIndex is derived on a Copy field)
    u.impl(M, "Mapper<A> for MultiMapper<A>", {"apply": F(rw=[("$x:id.clone()", "copy_of($x)")])}, mode=mode, hdr_rw=[("A: Eq + Hash + Clone", "A: Copy")],
           extra="    open spec fn image(&self, a: A) -> A { if self.mappings@.contains_key(a) { self.mappings@[a] } else { a } }")
    u.impl(M, "Mapper<A> for NoopMapper<A>", {"apply": F()}, mode=mode, extra="    open spec fn image(&self, a: A) -> A { a }")
    u.raw("""
// a parent index names a definition of some kind: seen as the given kind and back
pub open spec fn as_idx<A>(v: u32) -> PoolIndex<A> { PoolIndex { value: v, phantom: PhantomData } }
pub open spec fn map_i<L, CM: Mapper<PoolIndex<Class>>, FM: Mapper<PoolIndex<Function>>>(m: PoolMapper<CM, FM>, i: Instr<L>) -> Instr<L> {
    match i {
        Instr::Construct(n, c) => Instr::Construct(n, m.map_class.image(c)),
        Instr::New(c) => Instr::New(m.map_class.image(c)),
        Instr::DynamicCast(c, f) => Instr::DynamicCast(m.map_class.image(c), f),
        Instr::InvokeStatic(o, l, f, g) => Instr::InvokeStatic(o, l, m.map_function.image(f), g),
        x => x,
    }
}
pub open spec fn map_code<L, CM: Mapper<PoolIndex<Class>>, FM: Mapper<PoolIndex<Function>>>(m: PoolMapper<CM, FM>, c: Code<L>, d: Code<L>) -> bool {
    d.0@ =~= c.0@.map_values(|i: Instr<L>| map_i(m, i))
}
pub open spec fn class_of<CM: Mapper<PoolIndex<Class>>, FM: Mapper<PoolIndex<Function>>>(m: PoolMapper<CM, FM>, p: PoolIndex<Definition>) -> PoolIndex<Definition> {
    as_idx(m.map_class.image(as_idx(p.value)).value)
}
pub open spec fn function_of<CM: Mapper<PoolIndex<Class>>, FM: Mapper<PoolIndex<Function>>>(m: PoolMapper<CM, FM>, p: PoolIndex<Definition>) -> PoolIndex<Definition> {
    as_idx(m.map_function.image(as_idx(p.value)).value)
}
// d is what becomes of the definition c
pub open spec fn mapped<CM: Mapper<PoolIndex<Class>>, FM: Mapper<PoolIndex<Function>>>(m: PoolMapper<CM, FM>, c: Definition, d: Definition) -> bool {
    match c.value {
        AnyDefinition::Class(k) => d == (Definition { value: AnyDefinition::Class(Class { base: m.map_class.image(k.base), ..k }), ..c }),
        AnyDefinition::Function(f) => d.value matches AnyDefinition::Function(g) && map_code(m, f.code, g.code)
            && g == (Function { code: g.code, ..f })
            && d == (Definition { value: AnyDefinition::Function(g), parent: class_of(m, c.parent), ..c }),
        AnyDefinition::Parameter(_) | AnyDefinition::Local(_) => d == (Definition { parent: function_of(m, c.parent), ..c }),
        AnyDefinition::Field(_) => d == (Definition { parent: class_of(m, c.parent), ..c }),
        _ => d == c,
    }
}
""")
    u.impl(M, "PoolMapper<CM, FM>", {
        "map": F("""ensures
            same_strings(*old(pool), *final(pool)),
            final(pool).definitions@.len() == old(pool).definitions@.len(),
            forall|i: int| 0 <= i < old(pool).definitions@.len() ==> mapped(*self, old(pool).definitions@[i], #[trigger] final(pool).definitions@[i]),""",
            rw=[("for def in &mut pool.definitions {", "let stop = pool.definitions.len(); for at in 0..stop { let def = &mut pool.definitions[at];"),
                ("for instr in fun.code.as_mut() {", "let last = fun.code.0.len(); for k in 0..last { let instr = &mut fun.code.0[k];")],
            loops=[L("for", """
                stop == pool.definitions@.len(), same_strings(*old(pool), *pool),
                pool.definitions@.len() == old(pool).definitions@.len(),
                forall|i: int| 0 <= i < at ==> mapped(*self, old(pool).definitions@[i], #[trigger] pool.definitions@[i]),
                forall|i: int| at <= i < pool.definitions@.len() ==> #[trigger] pool.definitions@[i] == old(pool).definitions@[i],"""),
                L("for", """last == c0.0@.len(), fun.code.0@.len() == c0.0@.len(), *fun == (Function { code: fun.code, ..f0 }),
                forall|i: int| 0 <= i < k ==> #[trigger] fun.code.0@[i] == map_i(*self, c0.0@[i]),
                forall|i: int| k <= i < c0.0@.len() ==> #[trigger] fun.code.0@[i] == c0.0@[i],
                """, pre="let ghost f0 = *fun; let ghost c0 = fun.code;")]),
        "map_instr": F("ensures *final(instr) == map_i(*self, *old(instr)),", split_or=True),
        "with_class_mapper": F("ensures r.map_class == mapper, r.map_function == self.map_function,"),
        "with_function_mapper": F("ensures r.map_function == mapper, r.map_class == self.map_class,"),
    }, mode=mode)
    u.impl(M, "Default for PoolMapper<NoopMapper<PoolIndex<Class>>, NoopMapper<PoolIndex<Function>>>", {"default": F()}, mode=mode)


def build(repo):
    u = Unit("mapper", repo)
    instr.base(u)
    instr.stubs(u, ["CName", "Resource", "TweakDbId", "Type", "Enum", "Parameter", "Local", "Field", "SourceFile"])
    u.raw("\n".join("pub struct %s { pub _p: () }" % n for n in ["Visibility", "ClassFlags", "FunctionFlags", "SourceReference", "Strings0"]))
    u.raw("#[verifier::reject_recursive_types(K)]\npub struct Strings<K> { _k: PhantomData<K> }")
    instr.pool_index(u, "assume")
    instr.small(u, "assume")
    u.enum(B, "Instr")
    u.struct(B, "Code")
    u.struct(DF, "Class")
    u.struct(DF, "Function")
    u.enum(DF, "AnyDefinition")
    u.struct(DF, "Definition")
    u.struct(BU, "ConstantPool")
    u.raw("""pub open spec fn same_strings(p: ConstantPool, q: ConstantPool) -> bool {
    p.names == q.names && p.tweakdb_ids == q.tweakdb_ids && p.resources == q.resources && p.strings == q.strings
}""")
    mapper(u)
    return u
