"""contracts for the definition records of core/src/definition.rs"""
import re
from vgen import Unit, F, L
from rsx import lex
import instr
import codec
from instr import B, BU, DF, FMT

# the flag words of the bundle format: bit numbers, least significant first (the specification)
FLAGS = {
    "FieldFlags": (2, dict(is_native=0, is_editable=1, is_inline=2, is_const=3, is_replicated=4, has_hint=5, is_instance_editable=6,
                           has_default=7, is_persistent=8, is_test_only=9, is_browsable=10)),
    "LocalFlags": (1, dict(is_const=0)),
    "ParameterFlags": (1, dict(is_optional=0, is_out=1, is_short_circuit=2, is_const=3)),
    "ClassFlags": (2, dict(is_native=0, is_abstract=1, is_final=2, is_struct=3, has_functions=4, has_fields=5, is_import_only=6,
                           is_test_only=7, has_overrides=8)),
    "FunctionFlags": (4, dict(is_static=0, is_exec=1, is_timer=2, is_final=3, is_native=4, unk1=5, is_callback=6, is_operator=7,
                              has_return_value=8, has_base_method=9, has_parameters=10, has_locals=11, has_body=12, is_cast=13,
                              is_implicit_cast=14, is_thread_safe=18, is_const=19, unk2=20, unk3=21, is_quest=22, unk4=23, unk5=24, unk6=25)),
}
ENUMS = {
    "Visibility": (DF, dict(Public=0, Protected=1, Private=2)),
    "DefinitionType": (BU, dict(Type=0, Class=1, EnumValue=2, Enum=3, BitField=4, Function=5, Parameter=6, Local=7, Field=8, SourceFile=9)),
}

PRE = """
// ----- flag words: modular_bitfield accessors, contracts ASSUMED from the declared layout -----
pub mod fl {
use vstd::prelude::*;
pub open spec fn bit_of(b: u8, j: int) -> bool { (b as int / p2(j)) % 2 == 1 }
pub open spec fn p2(j: int) -> int { if j == 0 { 1 } else if j == 1 { 2 } else if j == 2 { 4 } else if j == 3 { 8 } else if j == 4 { 16 } else if j == 5 { 32 } else if j == 6 { 64 } else { 128 } }
pub open spec fn bv(x: bool, j: int) -> int { if x { p2(j) } else { 0 } }
// eight bits, least significant first
pub open spec fn byte_of(f: Seq<bool>, o: int) -> u8 {
    (bv(f[o], 0) + bv(f[o + 1], 1) + bv(f[o + 2], 2) + bv(f[o + 3], 3) + bv(f[o + 4], 4) + bv(f[o + 5], 5) + bv(f[o + 6], 6) + bv(f[o + 7], 7)) as u8
}
#[verifier::opaque]
pub open spec fn pack(f: Seq<bool>) -> Seq<u8> { Seq::new((f.len() / 8) as nat, |i: int| byte_of(f, 8 * i)) }
#[verifier::opaque]
pub open spec fn unpack(b: Seq<u8>) -> Seq<bool> { Seq::new(8 * b.len(), |i: int| bit_of(b[i / 8], i % 8)) }
pub proof fn byte_bits(f: Seq<bool>, o: int)
    ensures forall|j: int| 0 <= j < 8 ==> bit_of(#[trigger] byte_of(f, o), j) == f[o + j],
{
    assert forall|j: int| 0 <= j < 8 implies bit_of(#[trigger] byte_of(f, o), j) == f[o + j] by {
        assert(j == 0 || j == 1 || j == 2 || j == 3 || j == 4 || j == 5 || j == 6 || j == 7);
    }
}
pub broadcast proof fn unpack_pack(f: Seq<bool>)
    requires f.len() % 8 == 0,
    ensures unpack(#[trigger] pack(f)) == f, pack(f).len() == f.len() / 8,
{
    reveal(pack); reveal(unpack);
    assert forall|i: int| 0 <= i < f.len() implies unpack(pack(f))[i] == f[i] by {
        byte_bits(f, 8 * (i / 8));
        assert(8 * (i / 8) + i % 8 == i);
    }
    assert(unpack(pack(f)) =~= f);
}
pub broadcast proof fn unpack_len(b: Seq<u8>)
    ensures (#[trigger] unpack(b)).len() == 8 * b.len(),
{ reveal(unpack); }
pub broadcast proof fn pack_len(f: Seq<bool>)
    ensures (#[trigger] pack(f)).len() == f.len() / 8,
{ reveal(pack); }
// the same bits give the same bytes
pub broadcast proof fn pack_ext(f: Seq<bool>, g: Seq<bool>)
    requires f.len() == g.len(), forall|i: int| 0 <= i < f.len() ==> f[i] == g[i],
    ensures #[trigger] pack(f) == #[trigger] pack(g),
{ assert(f =~= g); }
pub broadcast group group_flags { unpack_pack, unpack_len, pack_len, pack_ext }
}
pub use fl::*;
broadcast use fl::group_flags;
"""


def declared_bits(u, name):
    """bit number of every accessor, from the declaration in /repo"""
    it = u.src(DF).item("struct", name)
    toks = lex(it.text)
    i = next(k for k, t in enumerate(toks) if t.t == "{")
    pos, out = 0, {}
    skip = False
    k = i + 1
    while k < len(toks) and toks[k].t != "}":
        if toks[k].t == "#":
            if any(t.t == "skip" for t in toks[k:k + 4]):
                skip = True
            while toks[k].t != "]":
                k += 1
            k += 1
            continue
        if toks[k].t == "pub":
            k += 1
            continue
        f, ty = toks[k].t, toks[k + 2].t
        w = 1 if ty == "bool" else int(ty[1:])
        if not skip:
            out[f] = pos
        pos += w
        skip = False
        k += 3
        if toks[k].t == ",":
            k += 1
    return pos, out


def flags(u, mode="verify"):
    u.raw(PRE)
    for name, (nb, bits) in FLAGS.items():
        total, decl = declared_bits(u, name)
        acc = []
        for f, b in decl.items():
            acc.append("""    #[verifier::external_body]
    pub fn %s(&self) -> (r: bool) ensures r == self.bits()[%d] { unimplemented!() }
    #[verifier::external_body]
    pub fn with_%s(self, v: bool) -> (r: Self) ensures r.bits() == self.bits().update(%d, v) { unimplemented!() }""" % (f, b, f, b))
        u.raw("""pub mod ax_%(n)s {
use vstd::prelude::*;
use super::{pack, unpack};
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct %(n)s { _p: () }
impl %(n)s {
    pub uninterp spec fn bits(&self) -> Seq<bool>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.bits() == Seq::new(%(t)d, |i: int| false) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_bytes(b: [u8; %(nb)d]) -> (r: Self) ensures r.bits() == unpack(b@) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_bytes(self) -> (r: [u8; %(nb)d]) ensures r@ == pack(self.bits()) { unimplemented!() }
%(acc)s
}
#[verifier::external_body]
pub broadcast proof fn axiom_len(f: %(n)s) ensures (#[trigger] f.bits()).len() == %(t)d { }
}
pub use ax_%(n)s::%(n)s;
broadcast use ax_%(n)s::axiom_len;""" % dict(n=name, nb=nb, t=8 * nb, acc="\n".join(acc)))
        # layout obligations: the declared layout is the format's
        u.raw("//@fn %s::%s (layout)\npub fn layout_%s(f: %s) {\n%s%s\n}\n//@end" % (DF, name, name, name, "    proof { assert(false); }\n" if u.vacuity else "", "\n".join(
            "    let x = f.%s(); assert(x == f.bits()[%d]);" % (f, b) for f, b in bits.items())))
        u.fns.append("%s::%s (layout)" % (DF, name))
        u.impl(DF, "Decode for " + name, {"decode": F()}, mode=mode, extra="""    type V = Seq<bool>;
    open spec fn dv(self) -> Seq<bool> { self.bits() }
    open spec fn dec(b: Seq<u8>) -> Option<(Seq<bool>, Seq<u8>)> {
        match dec_bytes(%d, b) { None => None, Some((x, r)) => Some((unpack(x), r)) }
    }""" % nb)
        u.impl(DF, "Encode for " + name, {"encode": F()}, mode=mode, extra="""    open spec fn fits(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { pack(self.bits()) }""")
        u.raw("""impl Rt for %s { open spec fn ok(&self) -> bool { true } proof fn rt(&self, r: Seq<u8>) { assert((pack(self.bits()) + r).take(%d) =~= pack(self.bits())); assert((pack(self.bits()) + r).skip(%d) =~= r); } }""" % (name, nb, nb))
    u.raw("#[verifier::external_body]\n#[derive(Debug)]\npub struct OutOfBounds { _p: () }\n#[verifier::external_body]\n#[derive(Debug)]\npub struct InvalidBitPattern { _p: () }")


NOCLOS = [("|_| io", "|_e| io")]


def byte_enum(u, name, mode="verify"):
    rel, tab = ENUMS[name]
    it = u.src(rel).item("enum", name)
    decl = dict(re.findall(r"(\w+)\s*=\s*(\d+)", re.sub(r"//[^\n]*", "", it.text[it.text.index("{"):])))
    u.enum(rel, name, attrs="#[derive(Clone, Copy)]", rw=())
    u.raw("""impl %(n)s {
    pub open spec fn disc(self) -> u8 { match self { %(m)s } }
    #[verifier::external_body]
    pub fn from_bytes(b: u8) -> (r: core::result::Result<Self, InvalidBitPattern>)
        ensures r matches Ok(v) ==> v.disc() == b, (%(any)s) ==> r is Ok { unimplemented!() }
    #[verifier::external_body]
    pub fn into_bytes(v: Self) -> (r: core::result::Result<u8, OutOfBounds>) ensures r == Ok::<u8, OutOfBounds>(v.disc()) { unimplemented!() }
    // the numbers of the format
    pub open spec fn num(self) -> u8 { match self { %(s)s } }
}""" % dict(n=name, m=", ".join("%s::%s => %su8" % (name, v, decl.get(v, "255")) for v in decl), any=" || ".join("b == %s" % v for v in decl.values()) or "false",
            s=", ".join("%s::%s => %du8" % (name, v, n) for v, n in tab.items())))
    top = max(tab.values())
    u.impl(rel, "Decode for " + name, {"decode": F(rw=NOCLOS, pre="proof { assert(forall|v: %s| #[trigger] v.disc() == v.num()); }" % name)}, mode=mode, extra="""    type V = u8;
    open spec fn dv(self) -> u8 { self.num() }
    open spec fn dec(b: Seq<u8>) -> Option<(u8, Seq<u8>)> {
        match <u8 as Decode>::dec(b) { None => None, Some((x, r)) => if x <= %d { Some((x, r)) } else { None } }
    }""" % top)
    u.impl(rel, "Encode for " + name, {"encode": F(pre="proof { assert(self.disc() == self.num()); }")}, mode=mode, extra="""    open spec fn fits(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { seq![self.num()] }""")
    u.raw("impl Rt for %s { open spec fn ok(&self) -> bool { true } proof fn rt(&self, r: Seq<u8>) { self.num().rt(r); } }" % name)


def record(u, name, fields, mode="verify"):
    """plain record: every field in order; fields = [(name, type, V type)]"""
    u.struct(DF, name)
    u.raw("pub ghost struct %sV { %s }" % (name, ", ".join("pub %s: %s" % (f, v) for f, _, v in fields)))
    d = ""
    for i, (f, t, _) in enumerate(fields):
        d += "match <%s as Decode>::dec(%s) { None => None, Some((%s, r%d)) => " % (t, "b" if i == 0 else "r%d" % (i - 1), f, i)
    d += "Some((%sV { %s }, r%d))" % (name, ", ".join(f for f, _, _ in fields), len(fields) - 1) + " }" * len(fields)
    u.impl(DF, "Decode for " + name, {"decode": F()}, mode=mode, extra="""    type V = %sV;
    open spec fn dv(self) -> %sV { %sV { %s } }
    open spec fn dec(b: Seq<u8>) -> Option<(%sV, Seq<u8>)> { %s }""" % (name, name, name, ", ".join("%s: self.%s.dv()" % (f, f) for f, _, _ in fields), name, d))
    u.impl(DF, "Encode for " + name, {"encode": F()}, mode=mode, extra="""    open spec fn fits(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { %s }""" % " + ".join("self.%s.enc()" % f for f, _, _ in fields))
    rt = "".join("self.%s.rt(%s); " % (f, " + ".join(["self.%s.enc()" % g for g, _, _ in fields[i + 1:]] + ["r"])) for i, (f, _, _) in enumerate(fields))
    u.raw("impl Rt for %s { open spec fn ok(&self) -> bool { true } proof fn rt(&self, r: Seq<u8>) { %s } }" % (name, rt))


VEC = """
// a vector with a 32-bit count in front
pub open spec fn enc_v<A: Encode>(s: Seq<A>) -> Seq<u8> { (s.len() as u32).enc() + enc_seq(s) }
pub open spec fn fits_v<A: Encode>(s: Seq<A>) -> bool { s.len() < 0x1_0000_0000 && fits_seq(s) }
pub open spec fn dec_v<A: Decode>(b: Seq<u8>) -> Option<(Seq<A::V>, Seq<u8>)> { dec_vecp::<u32, A>(b) }
pub proof fn rt_v<A: Rt>(s: Seq<A>, r: Seq<u8>)
    requires fits_v(s), ok_seq(s),
    ensures dec_v::<A>(enc_v(s) + r) == Some((dvs(s), r)),
{ rt_vec_u32(s, r); assert(prefix_of::<u32>(s.len() as usize) == s.len() as u32); }
// an optional vector: absent means empty
pub open spec fn enc_ov<A: Encode>(s: Seq<A>) -> Seq<u8> { if s.len() > 0 { enc_v(s) } else { Seq::<u8>::empty() } }
pub open spec fn dec_ov<A: Decode>(p: bool, b: Seq<u8>) -> Option<(Seq<A::V>, Seq<u8>)> { if p { dec_v::<A>(b) } else { Some((Seq::<A::V>::empty(), b)) } }
pub proof fn rt_ov<A: Rt>(s: Seq<A>, r: Seq<u8>)
    requires fits_v(s), ok_seq(s),
    ensures dec_ov::<A>(s.len() > 0, enc_ov(s) + r) == Some((dvs(s), r)),
{ if s.len() > 0 { rt_v(s, r); } else { assert(dvs(s) =~= Seq::<A::V>::empty()); assert(enc_ov(s) + r =~= r); } }
pub proof fn vec_pre()
    ensures inj::<u32>(), inj::<u16>(), <u32 as IntoSpec<u32>>::obeys_into_spec(), <u16 as IntoSpec<u32>>::obeys_into_spec(),
{ count_u32(0); count_u16(0); }
pub broadcast proof fn prefix_u32(n: usize)
    requires n < 0x1_0000_0000,
    ensures #[trigger] prefix_of::<u32>(n) == n as u32, prefix_ok::<u32>(n),
{}
pub broadcast proof fn dvs_empty<A: Decode>(s: Seq<A>)
    requires s.len() == 0,
    ensures #[trigger] dvs(s) == Seq::<A::V>::empty(),
{ assert(dvs(s) =~= Seq::<A::V>::empty()); }
pub open spec fn opt_dec<A: Decode>(p: bool, b: Seq<u8>) -> Option<(Option<A::V>, Seq<u8>)> {
    if p { match A::dec(b) { None => None, Some((v, r)) => Some((Some(v), r)) } } else { Some((None, b)) }
}
pub open spec fn opt_enc<A: Encode>(o: Option<A>) -> Seq<u8> { match o { Some(x) => x.enc(), None => Seq::<u8>::empty() } }
pub open spec fn opt_dv<A: Decode>(o: Option<A>) -> Option<A::V> { match o { Some(x) => Some(x.dv()), None => None } }
pub proof fn rt_opt<A: Rt>(o: Option<A>, r: Seq<u8>)
    requires o matches Some(x) ==> x.fits() && x.ok(),
    ensures opt_dec::<A>(o is Some, opt_enc(o) + r) == Some((opt_dv(o), r)),
{ match o { Some(x) => { x.rt(r); }, None => { assert(opt_enc(o) + r =~= r); } } }
"""


def enum_(u, mode="verify"):
    u.struct(DF, "Enum")
    u.raw("pub ghost struct EnumV { pub flags: u8, pub size: u8, pub members: Seq<u32>, pub unk1: bool }")
    u.impl(DF, "Decode for Enum", {"decode": F(pre="proof { vec_pre(); }")}, mode=mode, extra="""    type V = EnumV;
    open spec fn dv(self) -> EnumV { EnumV { flags: self.flags, size: self.size, members: dvs(self.members@), unk1: self.unk1 } }
    open spec fn dec(b: Seq<u8>) -> Option<(EnumV, Seq<u8>)> {
        match <u8 as Decode>::dec(b) { None => None, Some((flags, r0)) => match <u8 as Decode>::dec(r0) { None => None, Some((size, r1)) =>
        match dec_v::<PoolIndex<i64>>(r1) { None => None, Some((members, r2)) => match <bool as Decode>::dec(r2) { None => None, Some((unk1, r3)) =>
            Some((EnumV { flags, size, members, unk1 }, r3)) } } } }
    }""")
    u.impl(DF, "Encode for Enum", {"encode": F(pre="broadcast use prefix_u32;")}, mode=mode, extra="""    open spec fn fits(&self) -> bool { fits_v(self.members@) }
    open spec fn enc(&self) -> Seq<u8> { self.flags.enc() + self.size.enc() + enc_v(self.members@) + self.unk1.enc() }""")
    u.raw("""impl Rt for Enum { open spec fn ok(&self) -> bool { true } proof fn rt(&self, r: Seq<u8>) {
        self.flags.rt(self.size.enc() + enc_v(self.members@) + self.unk1.enc() + r); self.size.rt(enc_v(self.members@) + self.unk1.enc() + r);
        rt_v(self.members@, self.unk1.enc() + r); self.unk1.rt(r);
    } }""")


def class_(u, mode="verify"):
    u.struct(DF, "Class")
    u.raw("""pub ghost struct ClassV { pub visibility: u8, pub flags: Seq<bool>, pub base: u32, pub functions: Seq<u32>, pub fields: Seq<u32>, pub overrides: Seq<u32> }
// the flag word as written: the three content bits say which lists follow
pub open spec fn class_word(f: Seq<bool>, functions: bool, fields: bool, overrides: bool) -> Seq<bool> {
    f.update(4, functions).update(5, fields).update(8, overrides)
}
""")
    u.impl(DF, "Decode for Class", {"decode": F(pre="broadcast use dvs_empty; proof { vec_pre(); }")}, mode=mode, extra="""    type V = ClassV;
    open spec fn dv(self) -> ClassV { ClassV {
        visibility: self.visibility.dv(), flags: class_word(self.flags.bits(), self.functions@.len() > 0, self.fields@.len() > 0, self.overrides@.len() > 0),
        base: self.base.dv(), functions: dvs(self.functions@), fields: dvs(self.fields@), overrides: dvs(self.overrides@) } }
    open spec fn dec(b: Seq<u8>) -> Option<(ClassV, Seq<u8>)> {
        match <Visibility as Decode>::dec(b) { None => None, Some((visibility, r0)) =>
        match <ClassFlags as Decode>::dec(r0) { None => None, Some((fl, r1)) =>
        match <PoolIndex<Class> as Decode>::dec(r1) { None => None, Some((base, r2)) =>
        match dec_ov::<PoolIndex<Function>>(fl[4], r2) { None => None, Some((functions, r3)) =>
        match dec_ov::<PoolIndex<Field>>(fl[5], r3) { None => None, Some((fields, r4)) =>
        match dec_ov::<PoolIndex<Field>>(fl[8], r4) { None => None, Some((overrides, r5)) =>
            Some((ClassV { visibility, flags: class_word(fl, functions.len() > 0, fields.len() > 0, overrides.len() > 0), base, functions, fields, overrides }, r5)) } } } } } }
    }""")
    u.impl(DF, "Encode for Class", {"encode": F(pre="broadcast use prefix_u32;")}, mode=mode, extra="""    open spec fn fits(&self) -> bool { fits_v(self.functions@) && fits_v(self.fields@) && fits_v(self.overrides@) }
    open spec fn enc(&self) -> Seq<u8> {
        self.visibility.enc() + pack(class_word(self.flags.bits(), self.functions@.len() > 0, self.fields@.len() > 0, self.overrides@.len() > 0)) + self.base.enc()
        + enc_ov(self.functions@) + enc_ov(self.fields@) + enc_ov(self.overrides@)
    }""")
    u.raw("""pub proof fn rt_flag_bytes(n: nat, f: Seq<bool>, r: Seq<u8>)
    requires f.len() == 8 * n,
    ensures dec_bytes(n, pack(f) + r) == Some((pack(f), r)), unpack(pack(f)) == f,
{ assert((pack(f) + r).take(n as int) =~= pack(f)); assert((pack(f) + r).skip(n as int) =~= r); }
impl Rt for Class { open spec fn ok(&self) -> bool { true } proof fn rt(&self, r: Seq<u8>) {
        let w = class_word(self.flags.bits(), self.functions@.len() > 0, self.fields@.len() > 0, self.overrides@.len() > 0);
        let t5 = enc_ov(self.overrides@) + r;
        let t4 = enc_ov(self.fields@) + t5;
        let t3 = enc_ov(self.functions@) + t4;
        let t2 = self.base.enc() + t3;
        self.visibility.rt(pack(w) + t2);
        rt_flag_bytes(2, w, t2);
        self.base.rt(t3);
        rt_ov(self.functions@, t4); rt_ov(self.fields@, t5); rt_ov(self.overrides@, r);
        assert(class_word(w, self.functions@.len() > 0, self.fields@.len() > 0, self.overrides@.len() > 0) =~= w);
    } }""")


def function_(u, mode="verify"):
    u.struct(DF, "Function")
    u.raw("""pub ghost struct FunctionV { pub visibility: u8, pub flags: Seq<bool>, pub source: Option<SourceReferenceV>, pub return_type: Option<u32>, pub unk1: bool,
    pub base_method: Option<u32>, pub parameters: Seq<u32>, pub locals: Seq<u32>, pub operator: Option<u32>, pub cast: u8, pub code: Seq<InstrV>, pub unk2: Seq<u32> }
pub open spec fn fun_word(f: Seq<bool>, op: bool, ret: bool, base: bool, params: bool, locals: bool, body: bool) -> Seq<bool> {
    f.update(7, op).update(8, ret).update(9, base).update(10, params).update(11, locals).update(12, body)
}
impl Function {
    pub open spec fn word(self) -> Seq<bool> {
        fun_word(self.flags.bits(), self.operator is Some, self.return_type is Some, self.base_method is Some, self.parameters@.len() > 0 || self.unk2@.len() > 0,
            self.locals@.len() > 0, self.code.0@.len() > 0)
    }
}
""")
    u.impl(DF, "Decode for Function", {"decode": F(attrs="#[verifier::spinoff_prover]", pre="broadcast use dvs_empty; broadcast use code_dv_empty; proof { vec_pre(); reveal(fun_dec1); reveal(fun_dec2); }",
                                                   rw=[('#[cfg(feature = "parse-code")]', ""), ('#[cfg(not(feature = "parse-code"))] let (code, unk2) = (Code::EMPTY, vec![]);', ""),
                                                       ("Code::EMPTY", "code_empty()")])}, mode=mode, extra="""    type V = FunctionV;
    open spec fn dv(self) -> FunctionV { FunctionV {
        visibility: self.visibility.dv(), flags: self.word(), source: opt_dv(self.source), return_type: opt_dv(self.return_type), unk1: self.unk1,
        base_method: opt_dv(self.base_method), parameters: dvs(self.parameters@), locals: dvs(self.locals@), operator: opt_dv(self.operator), cast: self.cast,
        code: self.code.dv(), unk2: dvs(self.unk2@) } }
    open spec fn dec(b: Seq<u8>) -> Option<(FunctionV, Seq<u8>)> {
        match <Visibility as Decode>::dec(b) { None => None, Some((visibility, r0)) =>
        match <FunctionFlags as Decode>::dec(r0) { None => None, Some((fl, r1)) =>
        match opt_dec::<SourceReference>(!fl[4], r1) { None => None, Some((source, r2)) =>
        match opt_dec::<PoolIndex<Type>>(fl[8], r2) { None => None, Some((return_type, r3)) =>
        match opt_dec::<bool>(fl[8], r3) { None => None, Some((u1, r4)) =>
        match fun_dec1(fl, r4) { None => None, Some((base_method, parameters, locals, operator, r8)) =>
        match fun_dec2(fl, r8) { None => None, Some((cast, code, unk2, r11)) =>
            Some((FunctionV { visibility, flags: fun_word(fl, operator is Some, return_type is Some, base_method is Some, parameters.len() > 0 || unk2.len() > 0, locals.len() > 0, code.len() > 0),
                source, return_type, unk1: u1 == Some(true), base_method, parameters, locals, operator, cast, code, unk2 }, r11)) } } } } } } }
    }""")
    u.raw("""
#[verifier::external_body]
pub fn code_empty() -> (r: Code<Offset>) ensures r.0@ == Seq::<Instr<Offset>>::empty() { unimplemented!() }
// parameters are written as a list, empty when only unk2 asks for it
#[verifier::opaque]
pub open spec fn fun_dec1(fl: Seq<bool>, r4: Seq<u8>) -> Option<(Option<u32>, Seq<u32>, Seq<u32>, Option<u32>, Seq<u8>)> {
    match opt_dec::<PoolIndex<Function>>(fl[9], r4) { None => None, Some((base_method, r5)) =>
    match dec_ov::<PoolIndex<Parameter>>(fl[10], r5) { None => None, Some((parameters, r6)) =>
    match dec_ov::<PoolIndex<Local>>(fl[11], r6) { None => None, Some((locals, r7)) =>
    match opt_dec::<u32>(fl[7], r7) { None => None, Some((operator, r8)) => Some((base_method, parameters, locals, operator, r8)) } } } }
}
#[verifier::opaque]
pub open spec fn fun_dec2(fl: Seq<bool>, r8: Seq<u8>) -> Option<(u8, Seq<InstrV>, Seq<u32>, Seq<u8>)> {
    match opt_dec::<u8>(fl[13], r8) { None => None, Some((c, r9)) =>
    match opt_dec::<Code<Offset>>(fl[12], r9) { None => None, Some((body, r10)) =>
    match dec_ov::<PoolIndex<Parameter>>(fl[23], r10) { None => None, Some((unk2, r11)) =>
        Some(((match c { Some(x) => x, None => 0 }), (match body { Some(x) => x, None => Seq::<InstrV>::empty() }), unk2, r11)) } } }
}
pub open spec fn enc_params(f: Function) -> Seq<u8> { if f.parameters@.len() > 0 || f.unk2@.len() > 0 { enc_v(f.parameters@) } else { Seq::<u8>::empty() } }
""")

    # (name, what the part adds, what the output is after it given the output P before it, statement anchor)
    parts = [("visibility", "self.visibility.enc()", "P + self.visibility.enc()", r"^output . encode \( & self . visibility"),
             ("flags", "pack(self.word())", "P + pack(self.word())", r"^output . encode \( & flags"),
             ("source", "(if !self.flags.bits()[4] { opt_enc(self.source) } else { Seq::<u8>::empty() })",
              "if !self.flags.bits()[4] { match self.source { Some(x) => P + x.enc(), None => P } } else { P }", r"encode \( source"),
             ("ret", "(match self.return_type { Some(t) => t.enc() + self.unk1.enc(), None => Seq::<u8>::empty() })",
              "match self.return_type { Some(t) => P + t.enc() + self.unk1.enc(), None => P }", r"self . unk1"),
             ("base", "opt_enc(self.base_method)", "match self.base_method { Some(x) => P + x.enc(), None => P }", r"encode \( method"),
             ("params", "enc_params(self)", "if self.parameters@.len() > 0 || self.unk2@.len() > 0 { P + enc_v(self.parameters@) } else { P }", r"self . parameters \) \?"),
             ("locals", "enc_ov(self.locals@)", "if self.locals@.len() > 0 { P + enc_v(self.locals@) } else { P }", r"self . locals \) \?"),
             ("operator", "opt_enc(self.operator)", "match self.operator { Some(x) => P + x.enc(), None => P }", r"encode \( operator"),
             ("cast", "(if self.flags.bits()[13] { self.cast.enc() } else { Seq::<u8>::empty() })", "if self.flags.bits()[13] { P + self.cast.enc() } else { P }", r"self . cast"),
             ("code", "(if self.code.0@.len() > 0 { self.code.enc() } else { Seq::<u8>::empty() })", "if self.code.0@.len() > 0 { P + self.code.enc() } else { P }", r"encode \( & self . code"),
             ("unk2", "(if self.flags.bits()[23] { enc_v(self.unk2@) } else { Seq::<u8>::empty() })", "if self.flags.bits()[23] { P + enc_v(self.unk2@) } else { P }", r"self . unk2 \) \?")]
    prev, body = None, []
    for n, e, step, _ in parts:
        body.append("""    #[verifier::opaque]
    pub open spec fn upto_%(n)s(self) -> Seq<u8> { %(pre)s%(e)s }
    pub proof fn step_%(n)s(self, o: Seq<u8>, now: Seq<u8>)
        requires now == (%(step)s),
        ensures now == o + self.upto_%(n)s(),
    { reveal(Function::upto_%(n)s); }""" % dict(n=n, pre="self.upto_%s() + " % prev if prev else "", e=e, step=step.replace("P", "(o + self.upto_%s())" % prev if prev else "o")))
        prev = n
    # the record so far, part by part
    u.raw("impl Function {\n" + "\n".join(body) + "\n}")
    hints = [(rx, "proof { self.step_%s(old(output).written(), output.written()); }" % n) for n, _, _, rx in parts]
    # its own module: the associativity broadcast of the root module is not wanted here
    u.raw("pub mod funenc {\nuse vstd::prelude::*;\nuse super::*;")
    u.impl(DF, "Encode for Function", {"encode": F(attrs="#[verifier::spinoff_prover]", pre="""broadcast use prefix_u32; broadcast use ax_FunctionFlags::axiom_len;
    proof { assert(self.flags.bits().update(8, self.return_type is Some).update(9, self.base_method is Some).update(10, self.parameters@.len() > 0 || self.unk2@.len() > 0)
        .update(11, self.locals@.len() > 0).update(7, self.operator is Some).update(12, self.code.0@.len() > 0) =~= self.word()); }""", after=hints)}, mode=mode, extra="""    open spec fn fits(&self) -> bool {
        fits_v(self.parameters@) && fits_v(self.locals@) && fits_v(self.unk2@) && self.code.fits()
    }
    open spec fn enc(&self) -> Seq<u8> { self.upto_unk2() }""")
    u.raw("}")
    u.raw("""
// records the format can hold: what a flag announces is there, what no flag announces is absent
impl Rt for Function {
    open spec fn ok(&self) -> bool {
        &&& self.source is Some <==> !self.flags.bits()[4]
        &&& self.return_type is None ==> !self.unk1
        &&& !self.flags.bits()[13] ==> self.cast == 0
        &&& !self.flags.bits()[23] ==> self.unk2@.len() == 0
        &&& self.code.ok()
    }
    proof fn rt(&self, r: Seq<u8>) {
        let w = self.word();
        let e = Seq::<u8>::empty();
        fun_rt2(*self, r);
        let t8 = self.tail2() + r;
        fun_rt1(*self, t8);
        let t4 = self.tail1() + t8;
        let s4 = match self.return_type { Some(t) => t.enc() + self.unk1.enc(), None => e };
        let t2 = opt_enc(self.source) + (s4 + t4);
        self.visibility.rt(pack(w) + t2);
        rt_flag_bytes(4, w, t2);
        rt_opt(self.source, s4 + t4);
        if self.return_type is Some { rt_opt(self.return_type, self.unk1.enc() + t4); rt_opt(Some(self.unk1), t4); }
        assert(fun_word(w, self.operator is Some, self.return_type is Some, self.base_method is Some, self.parameters@.len() > 0 || self.unk2@.len() > 0,
            self.locals@.len() > 0, self.code.0@.len() > 0) =~= w);
        assert(self.enc() =~= self.visibility.enc() + pack(w) + opt_enc(self.source) + s4 + self.tail1() + self.tail2()) by {
            reveal(Function::upto_visibility); reveal(Function::upto_flags); reveal(Function::upto_source); reveal(Function::upto_ret); reveal(Function::upto_base);
            reveal(Function::upto_params); reveal(Function::upto_locals); reveal(Function::upto_operator); reveal(Function::upto_cast); reveal(Function::upto_code); reveal(Function::upto_unk2);
            reveal(Function::tail1); reveal(Function::tail2);
        }
        assert(self.enc() + r =~= self.visibility.enc() + (pack(w) + t2));
    }
}
impl Function {
    #[verifier::opaque]
    pub open spec fn tail1(self) -> Seq<u8> { opt_enc(self.base_method) + enc_params(self) + enc_ov(self.locals@) + opt_enc(self.operator) }
    #[verifier::opaque]
    pub open spec fn tail2(self) -> Seq<u8> {
        (if self.flags.bits()[13] { self.cast.enc() } else { Seq::<u8>::empty() }) + (if self.code.0@.len() > 0 { self.code.enc() } else { Seq::<u8>::empty() })
        + (if self.flags.bits()[23] { enc_v(self.unk2@) } else { Seq::<u8>::empty() })
    }
}
pub proof fn fun_rt1(f: Function, r: Seq<u8>)
    requires f.fits(), f.ok(),
    ensures fun_dec1(f.word(), f.tail1() + r) == Some((opt_dv(f.base_method), dvs(f.parameters@), dvs(f.locals@), opt_dv(f.operator), r)),
{
    reveal(Function::tail1); reveal(fun_dec1);
    let t8 = opt_enc(f.operator) + r; let t7 = enc_ov(f.locals@) + t8; let t6 = enc_params(f) + t7;
    rt_opt(f.base_method, t6);
    if f.parameters@.len() > 0 || f.unk2@.len() > 0 { rt_v(f.parameters@, t7); } else { rt_ov(f.parameters@, t7); }
    rt_ov(f.locals@, t8);
    rt_opt(f.operator, r);
    assert(f.tail1() + r =~= opt_enc(f.base_method) + t6);
}
pub proof fn fun_rt2(f: Function, r: Seq<u8>)
    requires f.fits(), f.ok(),
    ensures fun_dec2(f.word(), f.tail2() + r) == Some((f.cast, f.code.dv(), dvs(f.unk2@), r)),
{
    reveal(Function::tail2); reveal(fun_dec2);
    broadcast use code_dv_empty; broadcast use dvs_empty;
    let e = Seq::<u8>::empty();
    let s11 = if f.flags.bits()[23] { enc_v(f.unk2@) } else { e };
    let s10 = if f.code.0@.len() > 0 { f.code.enc() } else { e };
    let s9 = if f.flags.bits()[13] { f.cast.enc() } else { e };
    let t11 = s11 + r; let t10 = s10 + t11;
    if f.flags.bits()[13] { f.cast.rt(t10); }
    if f.code.0@.len() > 0 { f.code.rt(t11); }
    if f.flags.bits()[23] { rt_v(f.unk2@, r); }
    assert(f.tail2() + r =~= s9 + t10);
}
""")


def field_(u, mode="verify"):
    u.struct(DF, "Property")
    u.raw("""pub open spec fn enc_s16(s: Seq<char>) -> Seq<u8> { (vstd::utf8::encode_utf8(s).len() as u16).enc() + vstd::utf8::encode_utf8(s) }
pub open spec fn fits_s16(s: Seq<char>) -> bool { vstd::utf8::encode_utf8(s).len() < 0x1_0000 }
pub proof fn rt_s16(s: Seq<char>, r: Seq<u8>)
    requires fits_s16(s),
    ensures dec_strp::<u16>(enc_s16(s) + r) == Some((vstd::utf8::encode_utf8(s), r)),
{ rt_str_u16(s, r); assert(prefix_of::<u16>(vstd::utf8::encode_utf8(s).len() as usize) == vstd::utf8::encode_utf8(s).len() as u16); }
pub broadcast proof fn prefix_u16(n: usize)
    requires n < 0x1_0000,
    ensures #[trigger] prefix_of::<u16>(n) == n as u16, prefix_ok::<u16>(n),
{}
""")
    u.impl(DF, "Decode for Property", {"decode": F(pre="proof { vec_pre(); }")}, mode=mode, extra="""    type V = (Seq<u8>, Seq<u8>);
    open spec fn dv(self) -> (Seq<u8>, Seq<u8>) { (vstd::utf8::encode_utf8(self.name@), vstd::utf8::encode_utf8(self.value@)) }
    open spec fn dec(b: Seq<u8>) -> Option<((Seq<u8>, Seq<u8>), Seq<u8>)> {
        match dec_strp::<u16>(b) { None => None, Some((n, r0)) => match dec_strp::<u16>(r0) { None => None, Some((v, r1)) => Some(((n, v), r1)) } }
    }""")
    u.impl(DF, "Encode for Property", {"encode": F(pre="broadcast use prefix_u16;")}, mode=mode, extra="""    open spec fn fits(&self) -> bool { fits_s16(self.name@) && fits_s16(self.value@) }
    open spec fn enc(&self) -> Seq<u8> { enc_s16(self.name@) + enc_s16(self.value@) }""")
    u.raw("impl Rt for Property { open spec fn ok(&self) -> bool { true } proof fn rt(&self, r: Seq<u8>) { rt_s16(self.name@, enc_s16(self.value@) + r); rt_s16(self.value@, r); } }")
    u.struct(DF, "Field")
    u.raw("""pub ghost struct FieldV { pub visibility: u8, pub type_: u32, pub flags: Seq<bool>, pub hint: Option<Seq<u8>>, pub attributes: Seq<(Seq<u8>, Seq<u8>)>, pub defaults: Seq<(Seq<u8>, Seq<u8>)> }
pub open spec fn hint_dv(h: Option<String>) -> Option<Seq<u8>> { match h { Some(s) => Some(vstd::utf8::encode_utf8(s@)), None => None } }
pub open spec fn hint_enc(h: Option<String>) -> Seq<u8> { match h { Some(s) => enc_s16(s@), None => Seq::<u8>::empty() } }
pub open spec fn hint_dec(p: bool, b: Seq<u8>) -> Option<(Option<Seq<u8>>, Seq<u8>)> {
    if p { match dec_strp::<u16>(b) { None => None, Some((v, r)) => Some((Some(v), r)) } } else { Some((None, b)) }
}""")
    u.impl(DF, "Decode for Field", {"decode": F(pre="proof { vec_pre(); }")}, mode=mode, extra="""    type V = FieldV;
    open spec fn dv(self) -> FieldV { FieldV { visibility: self.visibility.dv(), type_: self.type_.dv(), flags: self.flags.bits().update(5, self.hint is Some),
        hint: hint_dv(self.hint), attributes: dvs(self.attributes@), defaults: dvs(self.defaults@) } }
    open spec fn dec(b: Seq<u8>) -> Option<(FieldV, Seq<u8>)> {
        match <Visibility as Decode>::dec(b) { None => None, Some((visibility, r0)) =>
        match <PoolIndex<Type> as Decode>::dec(r0) { None => None, Some((type_, r1)) =>
        match <FieldFlags as Decode>::dec(r1) { None => None, Some((fl, r2)) =>
        match hint_dec(fl[5], r2) { None => None, Some((hint, r3)) =>
        match dec_v::<Property>(r3) { None => None, Some((attributes, r4)) =>
        match dec_v::<Property>(r4) { None => None, Some((defaults, r5)) =>
            Some((FieldV { visibility, type_, flags: fl.update(5, hint is Some), hint, attributes, defaults }, r5)) } } } } } }
    }""")
    u.impl(DF, "Encode for Field", {"encode": F(pre="broadcast use prefix_u32; broadcast use prefix_u16;")}, mode=mode, extra="""    open spec fn fits(&self) -> bool {
        fits_v(self.attributes@) && fits_v(self.defaults@) && (self.hint matches Some(h) ==> fits_s16(h@))
    }
    open spec fn enc(&self) -> Seq<u8> {
        self.visibility.enc() + self.type_.enc() + pack(self.flags.bits().update(5, self.hint is Some)) + hint_enc(self.hint) + enc_v(self.attributes@) + enc_v(self.defaults@)
    }""")
    u.raw("""impl Rt for Field { open spec fn ok(&self) -> bool { true } proof fn rt(&self, r: Seq<u8>) {
        let w = self.flags.bits().update(5, self.hint is Some);
        let t5 = enc_v(self.defaults@) + r; let t4 = enc_v(self.attributes@) + t5; let t3 = hint_enc(self.hint) + t4; let t2 = pack(w) + t3;
        self.visibility.rt(self.type_.enc() + t2);
        self.type_.rt(t2);
        rt_flag_bytes(2, w, t3);
        match self.hint { Some(h) => { rt_s16(h@, t4); }, None => { assert(hint_enc(self.hint) + t4 =~= t4); } }
        rt_v(self.attributes@, t5); rt_v(self.defaults@, r);
        assert(w.update(5, self.hint is Some) =~= w);
    } }""")


def type_(u, mode="verify"):
    u.enum(DF, "Type", attrs="#[derive(Clone, Copy)]")
    rows = [("Prim", 0, 0), ("Class", 1, 0), ("Ref", 2, 1), ("WeakRef", 3, 1), ("Array", 4, 1), ("StaticArray", 5, 2), ("ScriptRef", 6, 1)]
    u.raw("pub ghost enum TypeV { %s }" % ", ".join(n + ["", "(u32)", "(u32, u32)"][k] for n, _, k in rows))
    dv, enc, dec, rt = [], [], [], []
    for n, c, k in rows:
        p = "Type::%s%s" % (n, ["", "(x)", "(x, y)"][k])
        dv.append("%s => TypeV::%s%s" % (p, n, ["", "(x.dv())", "(x.dv(), y)"][k]))
        enc.append("%s => %du8.enc()%s" % (p, c, ["", " + x.enc()", " + x.enc() + y.enc()"][k]))
        D = "match <PoolIndex<Type> as Decode>::dec(r) { None => None, Some((x, r1)) => %s }"
        dec.append("if t == %d { %s } else " % (c, ["Some((TypeV::%s, r))" % n, D % ("Some((TypeV::%s(x), r1))" % n),
                                                  D % ("match <u32 as Decode>::dec(r1) { None => None, Some((y, r2)) => Some((TypeV::%s(x, y), r2)) }" % n)][k]))
        rt.append("%s => { %du8.rt(%s); %s }" % (p, c, ["r", "x.enc() + r", "x.enc() + y.enc() + r"][k], ["", "x.rt(r);", "x.rt(y.enc() + r); y.rt(r);"][k]))
    u.impl(DF, "Decode for Type", {"decode": F(rw=FMT)}, mode=mode, extra="""    type V = TypeV;
    open spec fn dv(self) -> TypeV { match self { %s } }
    open spec fn dec(b: Seq<u8>) -> Option<(TypeV, Seq<u8>)> {
        match <u8 as Decode>::dec(b) { None => None, Some((t, r)) => %s { None } }
    }""" % (", ".join(dv), "".join(dec)))
    u.impl(DF, "Encode for Type", {"encode": F()}, mode=mode, extra="""    open spec fn fits(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { match *self { %s } }""" % ", ".join(enc))
    u.raw("impl Rt for Type { open spec fn ok(&self) -> bool { true } proof fn rt(&self, r: Seq<u8>) { match *self { %s } } }" % ", ".join(rt))


PATH = """
// ----- paths and text replacement: contracts ASSUMED -----
#[verifier::external_body]
pub struct PathBuf { _p: () }
impl PathBuf {
    pub uninterp spec fn text(&self) -> Seq<char>;
    pub uninterp spec fn unicode(&self) -> bool;
    #[verifier::external_body]
    pub fn from(s: String) -> (r: PathBuf) ensures r.text() == s@, r.unicode() { unimplemented!() }
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&str>) ensures self.unicode() ==> r is Some, r matches Some(s) ==> s@ == self.text() { unimplemented!() }
}
pub open spec fn repl(s: Seq<char>, a: char, b: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { Seq::<char>::empty() } else { repl(s.drop_last(), a, b) + (if s.last() == a { b } else { seq![s.last()] }) } }
pub trait ReplaceExt {
    spec fn chars_(&self) -> Seq<char>;
    fn replace_(&self, a: char, b: &str) -> (r: String) ensures r@ == repl(self.chars_(), a, b@);
}
impl ReplaceExt for str {
    open spec fn chars_(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn replace_(&self, a: char, b: &str) -> (r: String) { unimplemented!() }
}
impl ReplaceExt for String {
    open spec fn chars_(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn replace_(&self, a: char, b: &str) -> (r: String) { unimplemented!() }
}
pub open spec fn contains_ch(s: Seq<char>, c: char) -> bool { exists|i: int| 0 <= i < s.len() && s[i] == c }
// text without backslashes survives '/' -> '\\\\' -> '/'
pub proof fn repl_back(s: Seq<char>)
    requires !contains_ch(s, '\\\\'),
    ensures repl(repl(s, '/', seq!['\\\\']), '\\\\', seq!['/']) == s,
    decreases s.len()
{
    if s.len() > 0 {
        assert(!contains_ch(s.drop_last(), '\\\\')) by { if contains_ch(s.drop_last(), '\\\\') { let i = choose|i: int| 0 <= i < s.drop_last().len() && s.drop_last()[i] == '\\\\'; assert(s[i] == '\\\\'); } }
        repl_back(s.drop_last());
        let p = repl(s.drop_last(), '/', seq!['\\\\']);
        let l = if s.last() == '/' { seq!['\\\\'] } else { seq![s.last()] };
        assert((p + l).drop_last() =~= p);
        assert((p + l).last() == l[0]);
        assert(s[s.len() - 1] != '\\\\');
        assert(s.drop_last() + seq![s.last()] =~= s);
    } else {
        assert(repl(repl(s, '/', seq!['\\\\']), '\\\\', seq!['/']) =~= s);
    }
}
"""


def source_file(u, mode="verify"):
    u.raw(PATH)
    RW = [(".replace($a, $b)", ".replace_($a, $b)")]
    u.struct(DF, "SourceFile")
    u.raw("pub ghost struct SourceFileV { pub id: u32, pub path_hash: u64, pub path: Seq<char> }")
    u.impl(DF, "Decode for SourceFile", {"decode": F(rw=RW, pre="""proof { vec_pre(); reveal_strlit("/"); assert("/"@ =~= seq!['/']); }
        broadcast use utf_inv;""")}, mode=mode, extra="""    type V = SourceFileV;
    open spec fn dv(self) -> SourceFileV { SourceFileV { id: self.id, path_hash: self.path_hash, path: self.path.text() } }
    open spec fn dec(b: Seq<u8>) -> Option<(SourceFileV, Seq<u8>)> {
        match <u32 as Decode>::dec(b) { None => None, Some((id, r0)) =>
        match <u64 as Decode>::dec(r0) { None => None, Some((path_hash, r1)) =>
        match dec_strp::<u16>(r1) { None => None, Some((p, r2)) =>
            Some((SourceFileV { id, path_hash, path: repl(vstd::utf8::decode_utf8(p), '\\\\', seq!['/']) }, r2)) } } }
    }""")
    u.raw("""pub broadcast proof fn utf_inv(s: Seq<char>)
    ensures vstd::utf8::decode_utf8(#[trigger] vstd::utf8::encode_utf8(s)) == s,
{ vstd::utf8::encode_utf8_decode_utf8(s); }""")
    u.impl(DF, "Encode for SourceFile", {"encode": F(rw=RW, pre="""proof { reveal_strlit("\\\\"); assert("\\\\"@ =~= seq!['\\\\']); } broadcast use prefix_u16;""")}, mode=mode, extra="""    open spec fn fits(&self) -> bool { self.path.unicode() && fits_s16(repl(self.path.text(), '/', seq!['\\\\'])) }
    open spec fn enc(&self) -> Seq<u8> { self.id.enc() + self.path_hash.enc() + enc_s16(repl(self.path.text(), '/', seq!['\\\\'])) }""")
    u.raw("""impl Rt for SourceFile {
    open spec fn ok(&self) -> bool { !contains_ch(self.path.text(), '\\\\') }
    proof fn rt(&self, r: Seq<u8>) {
        let p = repl(self.path.text(), '/', seq!['\\\\']);
        self.id.rt(self.path_hash.enc() + enc_s16(p) + r); self.path_hash.rt(enc_s16(p) + r); rt_s16(p, r);
        utf_inv(p); repl_back(self.path.text());
    }
}""")


def code_stub(u):
    """Code<Offset>: contract proved in unit codebody"""
    u.struct(B, "Code")
    u.impl(B, "Code<Loc>", {"is_empty": F("ensures r == (self.0@.len() == 0),")}, mode="assume")
    u.raw("""pub uninterp spec fn dec_code_body(b: Seq<u8>) -> Option<(Seq<InstrV>, Seq<u8>)>;
pub uninterp spec fn enc_code_body(c: Seq<Instr<Offset>>) -> Seq<u8>;
pub uninterp spec fn fits_code_body(c: Seq<Instr<Offset>>) -> bool;
pub uninterp spec fn ok_code_body(c: Seq<Instr<Offset>>) -> bool;
pub uninterp spec fn iv(i: Instr<Offset>) -> InstrV;
pub broadcast proof fn code_dv_empty(c: Code<Offset>)
    ensures (#[trigger] c.dv()).len() == c.0@.len(), c.0@.len() == 0 ==> c.dv() == Seq::<InstrV>::empty(),
{ if c.0@.len() == 0 { assert(c.dv() =~= Seq::<InstrV>::empty()); } }
""")
    u.impl(B, "Decode for Code<Offset>", {"decode": F()}, mode="assume", extra="""    type V = Seq<InstrV>;
    open spec fn dv(self) -> Seq<InstrV> { self.0@.map_values(|i: Instr<Offset>| iv(i)) }
    open spec fn dec(b: Seq<u8>) -> Option<(Seq<InstrV>, Seq<u8>)> { dec_code_body(b) }""")
    u.impl(B, "Encode for Code<Offset>", {"encode": F()}, mode="assume", extra="""    open spec fn fits(&self) -> bool { fits_code_body(self.0@) }
    open spec fn enc(&self) -> Seq<u8> { enc_code_body(self.0@) }""")
    u.raw("""impl Rt for Code<Offset> {
    open spec fn ok(&self) -> bool { ok_code_body(self.0@) }
    // round trip of code bodies: proved in unit codebody
    #[verifier::external_body]
    proof fn rt(&self, r: Seq<u8>) { }
}""")


def any_definition(u, mode="verify"):
    u.enum(DF, "AnyDefinition")
    rows = ["Type", "Class", "EnumValue", "Enum", "Function", "Parameter", "Local", "Field", "SourceFile"]
    ty = {"EnumValue": "i64"}
    u.impl(DF, "AnyDefinition", {"type_": F("ensures r.num() == anydef_num(*self),")}, mode=mode)
    u.raw("""pub open spec fn anydef_num(d: AnyDefinition) -> u8 { match d { %s } }""" % ", ".join("AnyDefinition::%s(_) => %du8" % (n, ENUMS["DefinitionType"][1][n]) for n in rows))
    u.impl(DF, "Encode for AnyDefinition", {"encode": F()}, mode=mode, extra="""    open spec fn fits(&self) -> bool { match self { %s } }
    open spec fn enc(&self) -> Seq<u8> { match self { %s } }""" % (", ".join("AnyDefinition::%s(x) => (*x).fits()" % n for n in rows), ", ".join("AnyDefinition::%s(x) => (*x).enc()" % n for n in rows)))
    u.raw("""pub ghost enum AnyDefinitionV { %s }
pub open spec fn any_dv(d: AnyDefinition) -> AnyDefinitionV { match d { %s } }
pub open spec fn any_ok(d: AnyDefinition) -> bool { match d { %s } }
// decode the record a header of type `num` announces
pub open spec fn any_dec(num: u8, b: Seq<u8>) -> Option<(AnyDefinitionV, Seq<u8>)> {
    %s { None }
}
pub proof fn any_rt(d: AnyDefinition, r: Seq<u8>)
    requires d.fits(), any_ok(d),
    ensures any_dec(anydef_num(d), d.enc() + r) == Some((any_dv(d), r)),
{ match d { %s } }""" % (
        ", ".join("%s(<%s as Decode>::V)" % (n, ty.get(n, n)) for n in rows),
        ", ".join("AnyDefinition::%s(x) => AnyDefinitionV::%s(x.dv())" % (n, n) for n in rows),
        ", ".join("AnyDefinition::%s(x) => x.ok()" % n for n in rows),
        "".join("if num == %d { match <%s as Decode>::dec(b) { None => None, Some((x, r)) => Some((AnyDefinitionV::%s(x), r)) } } else " % (ENUMS["DefinitionType"][1][n], ty.get(n, n), n) for n in rows),
        ", ".join("AnyDefinition::%s(x) => { x.rt(r); }" % n for n in rows)))


DEF_DECODE = """ensures
        final(input).contents() == old(input).contents(), final(input).src() == old(input).src(), final(input).reliable() == old(input).reliable(),
        r matches Ok(d) ==> any_dec(header.type_.num(), io::from_at(old(input).contents(), header.offset as int)) == Some((any_dv(d.value), final(input).rest()))
            && d.name == header.name && d.parent == header.parent && d.unk1 == header.unk1 && d.unk2 == header.unk2 && d.unk3 == header.unk3,
        old(input).reliable() && any_dec(header.type_.num(), io::from_at(old(input).contents(), header.offset as int)) is Some ==> r is Ok,"""


def definition(u, mode="verify", structs=True):
    """the record a definition header points at"""
    if structs:
        u.struct(DF, "Definition")
        u.struct(BU, "DefinitionHeader")
    u.impl(DF, "Definition", {"decode": F(DEF_DECODE, pre="broadcast use io::axiom_rs;")}, mode=mode)


def definition_types(u, mode="verify"):
    """everything up to AnyDefinition"""
    u.raw(VEC)
    flags(u, mode)
    byte_enum(u, "Visibility", mode)
    byte_enum(u, "DefinitionType", mode)
    record(u, "Local", [("type_", "PoolIndex<Type>", "u32"), ("flags", "LocalFlags", "Seq<bool>")], mode)
    record(u, "Parameter", [("type_", "PoolIndex<Type>", "u32"), ("flags", "ParameterFlags", "Seq<bool>")], mode)
    record(u, "SourceReference", [("file", "PoolIndex<SourceFile>", "u32"), ("line", "u32", "u32")], mode)
    enum_(u, mode)
    class_(u, mode)
    field_(u, mode)
    type_(u, mode)
    source_file(u, mode)
    function_(u, mode)
    any_definition(u, mode)


def opaque_instr(u):
    u.raw("pub ghost struct InstrV { pub _x: int }\n#[verifier::external_body]\n#[verifier::accept_recursive_types(Loc)]\npub struct Instr<Loc> { _p: PhantomData<Loc> }")
    u.raw("#[derive(Clone, Copy)]\npub struct Offset { pub value: i16 }")


def build(repo):
    u = Unit("defs", repo)
    instr.base(u, seek=True)
    instr.stubs(u, ["CName"])
    instr.pool_index(u, "assume")
    opaque_instr(u)
    code_stub(u)
    definition_types(u)
    definition(u)
    return u
