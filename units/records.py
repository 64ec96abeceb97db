"""contracts for the header records of core/src/bundle.rs: TableHeader, DefinitionHeader, Header, Timestamp"""
from vgen import Unit, F, L
import instr
import defs
from instr import BU

TABLE = [("offset", "u32"), ("count", "u32"), ("hash", "u32")]
DEFH = [("name", "PoolIndex<CName>", "u32"), ("parent", "PoolIndex<Definition>", "u32"), ("offset", "u32", "u32"), ("size", "u32", "u32"),
        ("type_", "DefinitionType", "u8"), ("unk1", "u8", "u8"), ("unk2", "u8", "u8"), ("unk3", "u8", "u8")]
# order in the file (the strings table comes after the definitions table)
HEAD = [("version", "u32", "u32"), ("flags", "u32", "u32"), ("timestamp", "Timestamp", "Seq<u8>"), ("unk3", "u32", "u32"), ("hash", "u32", "u32"), ("chunks", "u32", "u32"),
        ("data", "TableHeader", "TableHeaderV"), ("names", "TableHeader", "TableHeaderV"), ("tweakdb_indexes", "TableHeader", "TableHeaderV"),
        ("resources", "TableHeader", "TableHeaderV"), ("definitions", "TableHeader", "TableHeaderV"), ("strings", "TableHeader", "TableHeaderV")]


def chain(fields, name, start="b"):
    d = ""
    for i, f in enumerate(fields):
        d += "match <%s as Decode>::dec(%s) { None => None, Some((%s, r%d)) => " % (f[1], start if i == 0 else "r%d" % (i - 1), f[0], i)
    return d + "Some((%s { %s }, r%d))" % (name, ", ".join(f[0] for f in fields), len(fields) - 1) + " }" * len(fields)


def rt(fields):
    return "".join("self.%s.rt(%s); " % (f[0], " + ".join(["self.%s.enc()" % g[0] for g in fields[i + 1:]] + ["r"])) for i, f in enumerate(fields))


def crc(u):
    u.raw("""
// crc32fast (external): a function of the bytes
pub uninterp spec fn crc(b: Seq<u8>) -> u32;
pub mod crc32fast {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub fn hash(b: &[u8]) -> (r: u32) ensures r == super::crc(b@) { unimplemented!() }
}
pub mod log {
    // messages only; no effect on what is read or written
    #[verifier::external_body]
    pub fn warned() { }
}
""")


def record(u, name, fields, mode, extra_fns=None, attrs="", ok="true"):
    u.struct(BU, name, attrs=attrs)
    u.raw("pub ghost struct %sV { %s }" % (name, ", ".join("pub %s: %s" % (f[0], f[-1]) for f in fields)))


def records(u, mode="verify"):
    crc(u)
    # the 8-byte timestamp (modular_bitfield): only its byte conversion matters here
    u.raw("""pub mod ax_ts {
use vstd::prelude::*;
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Timestamp { _p: () }
impl Timestamp {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn from_bytes(b: [u8; 8]) -> (r: Self) ensures r.bytes() == b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn into_bytes(&self) -> (r: [u8; 8]) ensures r@ == self.bytes() { unimplemented!() }
}
#[verifier::external_body]
pub broadcast proof fn axiom_len(t: Timestamp) ensures (#[trigger] t.bytes()).len() == 8 { }
}
pub use ax_ts::Timestamp;
broadcast use ax_ts::axiom_len;""")
    u.impl(BU, "Encode for Timestamp", {"encode": F()}, mode=mode, extra="""    open spec fn fits(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { self.bytes() }""")
    u.impl(BU, "Decode for Timestamp", {"decode": F()}, mode=mode, extra="""    type V = Seq<u8>;
    open spec fn dv(self) -> Seq<u8> { self.bytes() }
    open spec fn dec(b: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> { dec_bytes(8, b) }""")
    u.raw("impl Rt for Timestamp { open spec fn ok(&self) -> bool { true } proof fn rt(&self, r: Seq<u8>) { assert((self.bytes() + r).take(8) =~= self.bytes()); assert((self.bytes() + r).skip(8) =~= r); } }")

    for name, fields, rw in (("TableHeader", TABLE, []), ("DefinitionHeader", DEFH, []), ("Header", HEAD, [("log::warn!($m)", "log::warned()")])):
        it = u.struct(BU, name)
        u.raw("pub ghost struct %sV { %s }" % (name, ", ".join("pub %s: %s" % (f[0], f[-1]) for f in fields)))
        if name == "Header":
            u.raw("impl Header {\n    pub const MAGIC: u32 = %s;\n}" % magic(u))
            d = "match <u32 as Decode>::dec(b) { None => None, Some((m, r)) => if m != 0x5344_4552 { None } else { %s } }" % chain(fields, name + "V", "r")
            e = "0x5344_4552u32.enc() + " + " + ".join("self.%s.enc()" % f[0] for f in fields)
            r = "0x5344_4552u32.rt(%s); " % " + ".join(["self.%s.enc()" % f[0] for f in fields] + ["r"]) + rt(fields)
            u.raw("impl Header {\n    pub const SUPPORTED_VERSION: u32 = %s;\n}" % const(u, "Header", "SUPPORTED_VERSION"))
        else:
            d = chain(fields, name + "V")
            e = " + ".join("self.%s.enc()" % f[0] for f in fields)
            r = rt(fields)
        u.impl(BU, "Decode for " + name, {"decode": F(rw=rw)}, mode=mode, extra="""    type V = %sV;
    open spec fn dv(self) -> %sV { %sV { %s } }
    open spec fn dec(b: Seq<u8>) -> Option<(%sV, Seq<u8>)> { %s }""" % (name, name, name, ", ".join("%s: self.%s.dv()" % (f[0], f[0]) for f in fields), name, d))
        u.impl(BU, "Encode for " + name, {"encode": F()}, mode=mode, extra="""    open spec fn fits(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { %s }""" % e)
        u.raw("impl Rt for %s { open spec fn ok(&self) -> bool { true } proof fn rt(&self, r: Seq<u8>) { %s } }" % (name, r))
        if name == "TableHeader":
            u.impl(BU, "TableHeader", {"new": F("ensures r.offset == offset, r.count == count, r.hash == crc(bytes@),")}, mode=mode)


def const(u, ty, name):
    it = next(i for i in u.src(BU).impls(ty) if any(c.kind == "const" and c.name == name for c in i.children()))
    t = it.child("const", name).text
    return t[t.index("=") + 1:].rstrip().rstrip(";").strip()


def magic(u):
    return const(u, "Header", "MAGIC")


def sizes(u, mode="verify"):
    """the announced record sizes are the sizes of the encodings"""
    u.raw("""
impl TableHeader { pub proof fn enc_len(&self) ensures self.enc().len() == 12 { reveal(enc_u32); lemma_le_len(self.offset as nat, 4); lemma_le_len(self.count as nat, 4); lemma_le_len(self.hash as nat, 4); } }
pub proof fn len_u32(x: u32) ensures x.enc().len() == 4 { reveal(enc_u32); lemma_le_len(x as nat, 4); }
impl DefinitionHeader { pub proof fn enc_len(&self) ensures self.enc().len() == 20 { len_u32(self.name.value); len_u32(self.parent.value); len_u32(self.offset); len_u32(self.size); } }
impl Header { pub proof fn enc_len(&self) ensures self.enc().len() == 104 {
    len_u32(0x5344_4552u32); len_u32(self.version); len_u32(self.flags); len_u32(self.unk3); len_u32(self.hash); len_u32(self.chunks);
    self.data.enc_len(); self.names.enc_len(); self.tweakdb_indexes.enc_len(); self.resources.enc_len(); self.definitions.enc_len(); self.strings.enc_len();
} }
""")
    for ty, n in (("Header", 104), ("DefinitionHeader", 20)):
        w = "%s::%s::SIZE" % (BU, ty)
        u.raw("//@fn %s\npub fn size_of_%s() -> (r: usize)\n    ensures r == %d,\n{%s %s }\n//@end" % (w, ty, n, " proof { assert(false); }" if u.vacuity else "", const(u, ty, "SIZE")))
        u.fns.append(w)


def build(repo):
    u = Unit("records", repo)
    instr.base(u)
    instr.stubs(u, ["CName", "Definition"])
    instr.pool_index(u, "verify")
    u.raw("#[verifier::external_body]\n#[derive(Debug)]\npub struct OutOfBounds { _p: () }\n#[verifier::external_body]\n#[derive(Debug)]\npub struct InvalidBitPattern { _p: () }")
    defs.byte_enum(u, "DefinitionType", "assume")
    records(u)
    sizes(u)
    return u
