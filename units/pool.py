"""contracts for the definition pool of core/src/bundle.rs (ConstantPool accessors and edits)"""
from vgen import Unit, F, L
import instr
import strings
from instr import BU, DF
from codec import contract_file

KINDS = [("Type", "Type", "type"), ("Class", "Class", "class"), ("EnumValue", "i64", "enum_value"), ("Enum", "Enum", "enum"), ("Function", "Function", "function"),
         ("Parameter", "Parameter", "parameter"), ("Local", "Local", "local"), ("Field", "Field", "field"), ("SourceFile", "SourceFile", "source_file")]
OPT = ("and_then", "ok_or_else")


def any_definition(u, verified=True):
    """enum_as_inner accessors: contracts ASSUMED"""
    u.enum(DF, "AnyDefinition")
    out = []
    for v, t, n in KINDS:
        out.append("""    #[verifier::external_body]
    pub fn as_%(n)s(&self) -> (r: Option<&%(t)s>)
        ensures match *self { AnyDefinition::%(v)s(x) => r == Some(&x), _ => r is None }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_%(n)s_mut(&mut self) -> (r: Option<&mut %(t)s>)
        ensures
            match *old(self) { AnyDefinition::%(v)s(x) => r is Some, _ => r is None },
            r matches Some(p) ==> *old(self) == AnyDefinition::%(v)s(*p) && *final(self) == AnyDefinition::%(v)s(*final(p)),
            r is None ==> *final(self) == *old(self)
    { unimplemented!() }""" % dict(n=n, t=t, v=v))
    u.raw("impl AnyDefinition {\n" + "\n".join(out) + "\n}")


def definition(u, mode="verify"):
    u.struct(DF, "Definition")
    it = next(i for i in u.src(DF).impls("Definition") if any(c.kind == "const" and c.name == "DEFAULT" for c in i.children()))
    t = it.child("const", "DEFAULT").text
    w = DF + "::Definition::DEFAULT"
    u.raw("""pub open spec fn is_blank(d: Definition) -> bool {
    d.name.value == 0 && d.parent.value == 0 && d.unk1 == 0 && d.unk2 == 0 && d.unk3 == 0 && d.value == AnyDefinition::Type(Type::Prim)
}
//@fn %s
pub fn definition_default() -> (r: Definition)
    ensures is_blank(r),
{%s %s }
//@end""" % (w, " proof { assert(false); }" if u.vacuity else "", u._rw(t[t.index("=") + 1:].rstrip().rstrip(";"), UNDEF, w)))
    u.fns.append(w)


UNDEF = [("PoolIndex::UNDEFINED", "PoolIndex::new(0)"), ("Definition::DEFAULT", "definition_default()")]


def makers(u, mode="verify"):
    """constructors of definitions"""
    def c(v, parent, arg, name="name.value"):
        return F("ensures r.name.value == %s, r.parent.value == %s, r.unk1 == 0, r.unk2 == 0, r.unk3 == 0, r.value == AnyDefinition::%s(%s)," % (name, parent, v, arg), rw=UNDEF)
    u.impl(DF, "Definition", {
        "default": F("ensures r.name == name, r.parent == parent, r.unk1 == 0, r.unk2 == 0, r.unk3 == 0, r.value == value,"),
        "local": c("Local", "parent.value", "local"), "param": c("Parameter", "parent.value", "param"), "class": c("Class", "0", "class"),
        "type_": c("Type", "0", "type_"), "function": c("Function", "parent.value", "fun"), "field": c("Field", "parent.value", "field"),
        "enum_": c("Enum", "0", "enum_"), "enum_value": c("EnumValue", "parent.value", "value"), "source_file": c("SourceFile", "0", "source", "0"),
    }, mode=mode)


def pool(u, mode="verify"):
    u.struct(BU, "ConstantPool")
    u.raw("""
pub open spec fn slot(p: ConstantPool, i: int) -> Option<Definition> { if 0 <= i < p.definitions@.len() { Some(p.definitions@[i]) } else { None } }
// everything but the definition list is as before
pub open spec fn same_strings(p: ConstantPool, q: ConstantPool) -> bool {
    p.names == q.names && p.tweakdb_ids == q.tweakdb_ids && p.resources == q.resources && p.strings == q.strings
}
#[verifier::external_body]
pub fn vec_swap<T>(v: &mut Vec<T>, a: usize, b: usize)
    requires a < old(v)@.len(), b < old(v)@.len(),
    ensures final(v)@ == old(v)@.update(a as int, old(v)@[b as int]).update(b as int, old(v)@[a as int])
{ v.swap(a, b) }
#[verifier::external_body]
pub fn vec_get_mut<T>(v: &mut Vec<T>, i: usize) -> (r: Option<&mut T>)
    ensures
        i < old(v)@.len() <==> r is Some,
        r matches Some(p) ==> *p == old(v)@[i as int] && final(v)@ == old(v)@.update(i as int, *final(p)),
        r is None ==> *final(v) == *old(v)
{ v.get_mut(i) }
""")
    fns = {
        "definition_by": F("""requires forall|x: &AnyDefinition| #[trigger] get.requires((x,)),
            ensures
              slot(*self, index.value as int) is None ==> r is Err,
              slot(*self, index.value as int) matches Some(d) ==> exists|o: Option<&A>| #[trigger] get.ensures((&d.value,), o) && (match o { Some(a) => r == Ok::<&A, PoolError>(a), None => r is Err }),""", opt=OPT),
        "definition": F("ensures slot(*self, index.value as int) matches Some(d) ==> r == Ok::<&Definition, PoolError>(&d), slot(*self, index.value as int) is None ==> r is Err,", opt=OPT),
    }
    def acc(v):
        return F("ensures match slot(*self, index.value as int) { Some(d) => (match d.value { AnyDefinition::%s(x) => (r matches Ok(y) && *y == x), _ => r is Err }), None => r is Err }," % v, opt=OPT)

    def acc_mut(v):
        return F("""ensures same_strings(*old(self), *final(self)),
            match slot(*old(self), index.value as int) {
              Some(d) => (match d.value {
                AnyDefinition::%s(x) => (r matches Ok(y) && *y == x
                  && final(self).definitions@ == old(self).definitions@.update(index.value as int, Definition { value: AnyDefinition::%s(*final(y)), ..d })),
                _ => r is Err && final(self).definitions@ == old(self).definitions@ }),
              None => r is Err && final(self).definitions@ == old(self).definitions@ },""" % (v, v), opt=OPT,
              rw=[("self.definitions.get_mut($i)", "vec_get_mut(&mut self.definitions, $i)")])
    for f, v in (("function", "Function"), ("field", "Field"), ("parameter", "Parameter"), ("local", "Local"), ("type_", "Type"), ("class", "Class"), ("enum_", "Enum")):
        fns[f] = acc(v)
    for f, v in (("function_mut", "Function"), ("field_mut", "Field"), ("class_mut", "Class")):
        fns[f] = acc_mut(v)
    fns["enum_value"] = F("ensures match slot(*self, index.value as int) { Some(d) => (match d.value { AnyDefinition::EnumValue(x) => r == Ok::<i64, PoolError>(x), _ => r is Err }), None => r is Err },",
                          rw=[("self.definition_by($a, $b).cloned()", "(match self.definition_by($a, $b) { Ok(x) => Ok(*x), Err(e) => Err(e) })")])
    fns["def_name"] = F("""ensures
            slot(*self, index.value as int) is None ==> r is Err,
            slot(*self, index.value as int) matches Some(d) ==> (match resolves(self.names, d.name.value as int) { Some(t) => (r matches Ok(v) && v@ == t), None => r is Err }),""")
    PUSH = "same_strings(*old(self), *final(self)), r.value == old(self).definitions@.len(),"
    fns["add_definition"] = F("requires old(self).definitions@.len() < 0xffff_ffff, ensures %s final(self).definitions@ == old(self).definitions@.push(definition)," % PUSH)
    fns["reserve"] = F("""requires old(self).definitions@.len() < 0xffff_ffff,
        ensures %s final(self).definitions@.len() == old(self).definitions@.len() + 1, is_blank(final(self).definitions@.last()),
          forall|i: int| 0 <= i < old(self).definitions@.len() ==> #[trigger] final(self).definitions@[i] == old(self).definitions@[i],""" % PUSH, rw=UNDEF)
    fns["stub_definition"] = F("""requires old(self).definitions@.len() < 0xffff_ffff,
        ensures %s final(self).definitions@.len() == old(self).definitions@.len() + 1,
          final(self).definitions@.last().name == name_idx, final(self).definitions@.last().parent.value == 0, final(self).definitions@.last().value == AnyDefinition::Type(Type::Prim),
          forall|i: int| 0 <= i < old(self).definitions@.len() ==> #[trigger] final(self).definitions@[i] == old(self).definitions@[i],""" % PUSH)
    fns["put_definition"] = F("""requires index.value < old(self).definitions@.len(),
        ensures same_strings(*old(self), *final(self)), final(self).definitions@ == old(self).definitions@.update(index.value as int, definition),""")
    fns["rename"] = F("""requires index.value < old(self).definitions@.len(),
        ensures same_strings(*old(self), *final(self)),
          final(self).definitions@ == old(self).definitions@.update(index.value as int, Definition { name, ..old(self).definitions@[index.value as int] }),""")
    fns["swap_definition"] = F("""requires lhs.value < old(self).definitions@.len(), rhs.value < old(self).definitions@.len(),
        ensures same_strings(*old(self), *final(self)),
          final(self).definitions@ == old(self).definitions@.update(lhs.value as int, old(self).definitions@[rhs.value as int]).update(rhs.value as int, old(self).definitions@[lhs.value as int]),""",
          rw=[("self.definitions.swap($a, $b)", "vec_swap(&mut self.definitions, $a, $b)")])
    u.impl(BU, "ConstantPool", fns, mode=mode)


def build(repo):
    u = Unit("pool", repo)
    instr.base(u)
    instr.stubs(u, ["CName", "Resource", "TweakDbId", "Class", "Enum", "Function", "Parameter", "Local", "Field", "SourceFile"])
    u.raw(contract_file("refstr.rs"))
    instr.pool_index(u, "assume")
    u.enum(DF, "Type", attrs="#[derive(Clone, Copy)]")
    any_definition(u)
    definition(u)
    strings.pool_error(u)
    strings.kinds(u)
    strings.strings(u, "assume")
    makers(u)
    pool(u)
    return u
