"""contracts for the string pools of core/src/bundle.rs (Strings<K>)"""
from vgen import Unit, F, L
import instr
from instr import BU
from codec import contract_file

KINDS = {"String": None, "CName": "None", "Resource": None, "TweakDbId": None}
# D3: the shared-string and constant forms Verus has no model for
RW = [("Ref<str>", "RefStr"), ("Ref::from", "RefStr::from"), (".map(Ref::as_ref)", ".map(|x: &RefStr| -> (t: &str) ensures t@ == x@ { x.as_ref() })"),
      ("K::DEFAULT == Some($x)", "same_text(K::default_text(), $x)"), ("Some($x) == K::DEFAULT", "same_text(K::default_text(), $x)"), ("K::DEFAULT", "K::default_text()")]


def kinds(u, mode="verify"):
    u.raw("""pub trait DefaultString: Sized {
    spec fn reserved() -> Option<Seq<char>>;
    fn default_text() -> (r: Option<&'static str>)
        ensures match r { Some(s) => Self::reserved() == Some(s@), None => Self::reserved() is None };
}""")
    for k, d in KINDS.items():
        it = next(i for i in u.src(BU).impls("DefaultString for " + k))
        t = it.child("const", "DEFAULT").text
        w = "%s::<DefaultString for %s>::DEFAULT" % (BU, k)
        u.raw("""impl DefaultString for %s {
    open spec fn reserved() -> Option<Seq<char>> { %s }
//@fn %s
    fn default_text() -> (r: Option<&'static str>) {%s %s }
//@end
}""" % (k, "None" if d is None else "Some(\"%s\"@)" % d, w, " proof { assert(false); }" if u.vacuity else "", t[t.index("=") + 1:].rstrip().rstrip(";")))
        u.fns.append(w)


SPEC = """
// every text in the table is found, and what is found is where the text is
pub open spec fn found_in<K>(s: Seq<RefStr>, m: Map<Seq<char>, PoolIndex<K>>) -> bool {
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> (m[k].value as int) < s.len() && s[m[k].value as int]@ == k
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i])@)
}
pub open spec fn found<K>(s: Strings<K>) -> bool { found_in::<K>(s.strings@, s.mappings@) }
// a table with a reserved entry has it in front
pub open spec fn fronted<K: DefaultString>(s: Strings<K>) -> bool {
    K::reserved() matches Some(d) ==> s.strings@.len() > 0 && s.strings@[0]@ == d
}
pub open spec fn resolves<K: DefaultString>(s: Strings<K>, i: int) -> Option<Seq<char>> {
    if i == 0 && K::reserved() is Some { K::reserved() } else if 0 <= i < s.strings@.len() { Some(s.strings@[i]@) } else { None }
}
pub open spec fn texts(v: Seq<RefStr>) -> Seq<Seq<char>> { v.map_values(|r: RefStr| r@) }
"""


def pool_error(u):
    u.raw("pub enum PoolError { DefinitionNotFound(PoolIndex<Definition>), StringNotFound(PoolIndex<String>), UnexpectedEntry(&'static str) }")


def strings(u, mode="verify"):
    u.global_rw = RW
    u.struct(BU, "Strings", rw=RW)
    u.raw(SPEC)
    u.impl(BU, "Strings<K>", {
        "get": F("""ensures
            resolves(*self, index.value as int) matches Some(t) ==> (r matches Ok(v) && v@ == t),
            resolves(*self, index.value as int) is None ==> r is Err,"""),
        "get_ref": F("""ensures
            resolves(*self, index.value as int) matches Some(t) ==> (r matches Ok(v) && v@ == t),
            resolves(*self, index.value as int) is None ==> r is Err,"""),
        "get_index": F("""requires found(*self), fronted(*self),
            ensures r matches Some(i) ==> resolves(*self, i.value as int) == Some(name@),
              r is None ==> forall|i: int| 0 <= i < self.strings@.len() ==> (#[trigger] self.strings@[i])@ != name@,"""),
        "add": F("""requires found(*old(self)), fronted(*old(self)), old(self).strings@.len() < 0xffff_ffff,
            ensures found(*final(self)), fronted(*final(self)),
              resolves(*final(self), r.value as int) == Some(str@),
              // known text: nothing changes; new text: one entry more, behind the others
              (exists|i: int| 0 <= i < old(self).strings@.len() && (#[trigger] old(self).strings@[i])@ == str@) ==> *final(self) == *old(self),
              (forall|i: int| 0 <= i < old(self).strings@.len() ==> (#[trigger] old(self).strings@[i])@ != str@) ==>
                final(self).strings@.len() == old(self).strings@.len() + 1 && r.value == old(self).strings@.len(),
              final(self).strings@.len() >= old(self).strings@.len(),
              forall|i: int| 0 <= i < old(self).strings@.len() ==> #[trigger] final(self).strings@[i] == old(self).strings@[i],""",
              rw=[("PoolIndex::UNDEFINED", "PoolIndex::<K>::new(0)")]),
    }, mode=mode)
    return u


def build(repo):
    u = Unit("strings", repo)
    instr.base(u)
    instr.stubs(u, ["CName", "Definition", "Resource", "TweakDbId"])
    u.raw(contract_file("refstr.rs"))
    instr.pool_index(u, "assume")
    pool_error(u)
    kinds(u)
    strings(u)
    return u
