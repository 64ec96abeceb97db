"""contracts for the instruction codec, sizes and label resolution of core/src/bytecode.rs"""
from vgen import Unit, F, L
import codec
from codec import contract_file
from optable import TABLE, mem

B = "core/src/bytecode.rs"
BU = "core/src/bundle.rs"
DF = "core/src/definition.rs"

FMT = [("format!($m)", 'fmt_stub()')]


def base(u, codec_mode="assume", seek=False):
    u.raw(contract_file("prelude.rs").replace("//@seek", contract_file("seek.rs") if seek else ""))
    codec.byteorder(u)
    codec.prims(u, codec_mode)
    codec.strings(u, codec_mode)
    codec.ext(u, codec_mode)
    codec.arrays(u, codec_mode)
    codec.roundtrip(u)
    u.raw("""pub assume_specification<T: ?Sized, A: std::alloc::Allocator> [<Box<T, A> as AsRef<T>>::as_ref](b: &Box<T, A>) -> (r: &T)
    ensures r == &**b;

pub assume_specification[ <i32 as From<u16>>::from ](x: u16) -> (r: i32) ensures r == x;""")
    u.raw("#[verifier::external_body]\npub fn fmt_stub() -> String { unimplemented!() }")


def pool_index(u, mode="assume"):
    u.struct(BU, "PoolIndex", attrs="#[verifier::accept_recursive_types(A)]")
    u.raw("""
impl<A> Clone for PoolIndex<A> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<A> Copy for PoolIndex<A> {}
""")
    u.impl(BU, "PoolIndex<A>", {
        "new": F("ensures r.value == index,"),
        "is_undefined": F("ensures r == (self.value == 0),"),
        "cast": F("ensures r.value == self.value,"),
    }, mode=mode)
    u.impl(BU, "Decode for PoolIndex<A>", {"decode": F()}, mode=mode, extra="""    type V = u32;
    open spec fn dv(self) -> u32 { self.value }
    open spec fn dec(b: Seq<u8>) -> Option<(u32, Seq<u8>)> { <u32 as Decode>::dec(b) }""")
    u.impl(BU, "Encode for PoolIndex<A>", {"encode": F()}, mode=mode, extra="""    open spec fn fits(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { self.value.enc() }""")
    u.raw("impl<A> Rt for PoolIndex<A> { open spec fn ok(&self) -> bool { true } proof fn rt(&self, r: Seq<u8>) { self.value.rt(r); } }")


def stubs(u, names):
    for n in names:
        u.raw("pub struct %s { pub _p: () }" % n)


def vtype(k):
    if k[:2] in ("P:", "S:"):
        return "u32"
    return {"f32": "u32", "f64": "u64", "BP": "BreakpointV", "PROF": "(Seq<u8>, u8)", "T": None}.get(k, "i16" if k[0] == "O" else k)


def small(u, mode="verify"):
    """Location, Offset, Label, Breakpoint, StartProfiling"""
    u.struct(B, "Location", attrs="#[derive(Clone, Copy)]")
    u.struct(B, "Offset", attrs="#[derive(Clone, Copy)]")
    u.struct(B, "Label", attrs="#[derive(Clone, Copy)]")
    u.raw("""
// the 16-bit code space: offsets and locations wrap
pub open spec fn wrap16(x: int) -> int { x % 65536 }
""")
    u.impl(B, "Location", {
        "new": F("ensures r.value == value,"),
        "relative": F("ensures wrap16(base.value + r.value) == self.value,",
                      pre="proof { lemma_rel(self.value, base.value); }"),
    }, mode=mode)
    u.impl(B, "Offset", {
        "new": F("ensures r.value == value,"),
        "absolute": F("ensures r.value as int == wrap16(position.value + self.value),",
                      pre="proof { let x: i32 = (position.value as i32 + self.value as i32) as i32; lemma_abs(x); }"),
    }, mode=mode)
    u.raw("""
pub proof fn lemma_rel(a: u16, b: u16)
    ensures wrap16(b + ((if a >= b { a - b } else { a - b + 65536 }) as u16 as i16)) == a,
{
    let d: u16 = (if a >= b { a - b } else { a - b + 65536 }) as u16;
    assert((d < 0x8000 ==> d as i16 == d as i32) && (d >= 0x8000 ==> d as i16 as i32 == d as i32 - 0x10000)) by (bit_vector);
}

pub proof fn lemma_abs(x: i32)
    requires -65536 <= x <= 131071,
    ensures x as u16 as int == wrap16(x as int),
{
    assert(x as u16 as i32 == x || x as u16 as i32 == sub(x, 65536i32) || x as u16 as i32 == add(x, 65536i32)) by (bit_vector)
        requires -65536i32 <= x, x <= 131071i32;
}

// resolving a location relative to a base and going back is the identity
pub proof fn rel_abs(target: u16, base: u16, off: i16)
    requires wrap16(base + off) == target,
    ensures wrap16(base + off) as u16 == target,
{}
""")
    u.impl(B, "Decode for Offset", {"decode": F()}, mode=mode, extra="""    type V = i16;
    open spec fn dv(self) -> i16 { self.value }
    open spec fn dec(b: Seq<u8>) -> Option<(i16, Seq<u8>)> { <i16 as Decode>::dec(b) }""")
    u.impl(B, "Encode for Offset", {"encode": F()}, mode=mode, extra="""    open spec fn fits(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { self.value.enc() }""")
    u.struct(B, "Breakpoint")
    u.struct(B, "StartProfiling")
    fs = [("line", "u16"), ("line_start", "u32"), ("col", "u16"), ("length", "u16"), ("enabled", "bool"), ("padding", "u64")]
    u.raw("pub ghost struct BreakpointV { %s }" % ", ".join("pub %s: %s" % f for f in fs))
    dec = "b"
    chain = ""
    for i, (f, t) in enumerate(fs):
        chain += "match <%s as Decode>::dec(%s) { None => None, Some((%s, r%d)) => " % (t, "b" if i == 0 else "r%d" % (i - 1), f, i)
    chain += "Some((BreakpointV { %s }, r%d))" % (", ".join(f for f, _ in fs), len(fs) - 1) + " }" * len(fs)
    u.impl(B, "Decode for Breakpoint", {"decode": F()}, mode=mode, extra="""    type V = BreakpointV;
    open spec fn dv(self) -> BreakpointV { BreakpointV { %s } }
    open spec fn dec(b: Seq<u8>) -> Option<(BreakpointV, Seq<u8>)> { %s }""" % (", ".join("%s: self.%s" % (f, f) for f, _ in fs), chain))
    u.impl(B, "Encode for Breakpoint", {"encode": F()}, mode=mode, extra="""    open spec fn fits(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { %s }""" % " + ".join("self.%s.enc()" % f for f, _ in fs))
    rt = ""
    for i, (f, t) in enumerate(fs):
        rt += "self.%s.rt(%s); " % (f, " + ".join(["self.%s.enc()" % g for g, _ in fs[i + 1:]] + ["r"]))
    u.raw("impl Rt for Breakpoint { open spec fn ok(&self) -> bool { true } proof fn rt(&self, r: Seq<u8>) { %s } }" % rt)
    u.impl(B, "Decode for StartProfiling", {"decode": F(pre="proof { count_u32(0); }")}, mode=mode, extra="""    type V = (Seq<u8>, u8);
    open spec fn dv(self) -> (Seq<u8>, u8) { (vstd::utf8::encode_utf8(self.0@), self.1) }
    open spec fn dec(b: Seq<u8>) -> Option<((Seq<u8>, u8), Seq<u8>)> {
        match dec_strp::<u32>(b) { None => None, Some((f, r)) => match <u8 as Decode>::dec(r) { None => None, Some((e, r2)) => Some(((f, e), r2)) } }
    }""")
    u.impl(B, "Encode for StartProfiling", {"encode": F()}, mode=mode, extra="""    open spec fn fits(&self) -> bool { vstd::utf8::encode_utf8(self.0@).len() < 0x1_0000_0000 }
    open spec fn enc(&self) -> Seq<u8> { (vstd::utf8::encode_utf8(self.0@).len() as u32).enc() + vstd::utf8::encode_utf8(self.0@) + self.1.enc() }""")
    u.raw("""impl Rt for StartProfiling {
    open spec fn ok(&self) -> bool { true }
    proof fn rt(&self, r: Seq<u8>) {
        let e = vstd::utf8::encode_utf8(self.0@);
        assert(prefix_of::<u32>(e.len() as usize) == e.len() as u32);
        rt_str_u32(self.0@, self.1.enc() + r); self.1.rt(r);
    }
}""")


def names(ops):
    return ["a%d" % i for i in range(len(ops))]


def instr_types(u):
    u.enum(B, "Instr")
    rows = []
    for n, c, ops in TABLE:
        vs = [vtype(k) for k in ops]
        vs = [v for v in vs if v]
        rows.append("    %s%s," % (n, "(%s)" % ", ".join(vs) if vs else ""))
    u.raw("pub ghost enum InstrV {\n" + "\n".join(rows) + "\n}")


def opview(k, x):
    if k == "BP" or k == "PROF":
        return "(*%s).dv()" % x
    return "%s.dv()" % x


def openc(k, x):
    if k[0] == "O":
        return "(wsub16(%s.value as int, %s) as i16).enc()" % (x, k[2:])
    if k == "BP" or k == "PROF":
        return "(*%s).enc()" % x
    return "%s.enc()" % x


def optype(k):
    if k[:2] in ("P:", "S:"):
        return "u32"
    if k[0] == "O":
        return "i16"
    return {"BP": "Breakpoint", "PROF": "StartProfiling"}.get(k, k)


def instr_specs(u):
    u.raw("""
// i16 subtraction / addition modulo 2^16
pub open spec fn wsub16(a: int, b: int) -> int { if a - b < -32768 { a - b + 65536 } else { a - b } }
pub open spec fn wadd16(a: int, b: int) -> int { if a + b > 32767 { a + b - 65536 } else { a + b } }
""")
    rows, encs, decs, fits, rts, lems, rtl = [], [], [], [], [], [], []
    for n, c, ops in TABLE:
        ns = names(ops)
        pat = "Instr::%s%s" % (n, "(%s)" % ", ".join(ns) if ops else "")
        vv = [opview(k, x) for k, x in zip(ops, ns) if k != "T"]
        rows.append("        %s => InstrV::%s%s," % (pat, n, "(%s)" % ", ".join(vv) if vv else ""))
        encs.append("        %s => %s," % (pat, " + ".join(["%du8.enc()" % c] + [openc(k, x) for k, x in zip(ops, ns) if k != "T"])))
        if "PROF" in ops:
            fits.append("        %s => (*a0).fits()," % pat)
        # decoder
        d = ""
        j = 0
        res = []
        for i, (k, x) in enumerate(zip(ops, ns)):
            if k == "T":
                continue
            d += "match <%s as Decode>::dec(r%d) { None => None, Some((%s, r%d)) => " % (optype(k), j, x, j + 1)
            j += 1
            res.append("wadd16(%s as int, %s) as i16" % (x, k[2:]) if k[0] == "O" else x)
        d += "Some((InstrV::%s%s, r%d))" % (n, "(%s)" % ", ".join(res) if res else "", j) + " }" * j
        lems.append("""pub broadcast proof fn dec_op_%d(r0: Seq<u8>)
    ensures #[trigger] instr_dec(%du8, r0) == (%s),
{ reveal(instr_dec); }""" % (c, c, d))
        decs.append("        %sif code == %d { %s }" % ("else " if c else "", c, d))
        rt = []
        live = [(k, x) for k, x in zip(ops, ns) if k != "T"]
        for i, (k, x) in enumerate(live):
            tail = " + ".join([openc(k2, x2) for k2, x2 in live[i + 1:]] + ["r"])
            if k[0] == "O":
                rt.append("(wsub16(%s.value as int, %s) as i16).rt(%s);" % (x, k[2:], tail))
            elif k in ("BP", "PROF"):
                rt.append("(*%s).rt(%s);" % (x, tail))
            else:
                rt.append("%s.rt(%s);" % (x, tail))
        full = " + ".join([openc(k, x) for k, x in live] + ["r"])
        ptypes = ", ".join("%s: %s" % (x, rust_type(k)) for k, x in zip(ops, ns))
        rtl.append("""pub proof fn rt_op_%d(%s)
    requires instr_fits(%s),
    ensures <Instr<Offset> as Decode>::dec(instr_enc(%s) + r) == Some((instr_view(%s), r)),
{ %du8.rt(%s); dec_op_%d(%s); %s }""" % (c, ", ".join(filter(None, [ptypes, "r: Seq<u8>"])), pat, pat, pat, c, full, c, full, " ".join(rt)))
        rts.append("            %s => { rt_op_%d(%s); }" % (pat, c, ", ".join(["*" + x for x in ns] + ["r"])))
    u.raw("pub open spec fn instr_view(i: Instr<Offset>) -> InstrV {\n    match i {\n" + "\n".join(rows) + "\n    }\n}")
    u.raw("pub open spec fn instr_enc(i: Instr<Offset>) -> Seq<u8> {\n    match i {\n" + "\n".join(encs) + "\n    }\n}")
    u.raw("#[verifier::opaque]\npub open spec fn instr_dec(code: u8, r0: Seq<u8>) -> Option<(InstrV, Seq<u8>)> {\n" + "\n".join(decs) + "\n        else { None }\n}")
    u.raw("pub open spec fn instr_fits(i: Instr<Offset>) -> bool {\n    match i {\n" + "\n".join(fits) + "\n        _ => true,\n    }\n}")
    u.raw("pub mod ops {\nuse vstd::prelude::*;\nuse super::*;\n" + "\n".join(lems) + "\npub broadcast group group_ops { %s }\n}\npub use ops::*;" % ", ".join("dec_op_%d" % i for i in range(len(TABLE))))
    return rts, rtl


def rust_type(k):
    if k[:2] in ("P:", "S:"):
        return "PoolIndex<%s>" % k[2:]
    if k[0] == "O" or k == "T":
        return "Offset"
    return {"BP": "Box<Breakpoint>", "PROF": "Box<StartProfiling>"}.get(k, k)


def instr_codec(u, mode="verify"):
    rts, rtl = instr_specs(u)
    u.impl(B, "Decode for Instr<Offset>", {"decode": F(rw=FMT, attrs="#[verifier::spinoff_prover]", pre="broadcast use ops::group_ops; proof { lemma_bad_op(); }")}, mode=mode, extra="""    type V = InstrV;
    open spec fn dv(self) -> InstrV { instr_view(self) }
    open spec fn dec(b: Seq<u8>) -> Option<(InstrV, Seq<u8>)> {
        match <u8 as Decode>::dec(b) { None => None, Some((c, r)) => instr_dec(c, r) }
    }""")
    u.impl(B, "Encode for Instr<Offset>", {"encode": F(attrs="#[verifier::spinoff_prover]")}, mode=mode, extra="""    open spec fn fits(&self) -> bool { instr_fits(*self) }
    open spec fn enc(&self) -> Seq<u8> { instr_enc(*self) }""")
    u.raw("""pub proof fn lemma_bad_op()
    ensures forall|c: u8, r0: Seq<u8>| c > 103 ==> #[trigger] instr_dec(c, r0) is None,
{ reveal(instr_dec); }""")
    u.raw("\n".join(rtl))
    u.raw("""impl Rt for Instr<Offset> {
    open spec fn ok(&self) -> bool { true }
    #[verifier::spinoff_prover]
    proof fn rt(&self, r: Seq<u8>) {
        match self {
%s
        }
    }
}""" % "\n".join(rts))


def build(repo):
    u = Unit("instr", repo)
    base(u)
    stubs(u, ["CName", "Resource", "TweakDbId", "Class", "Enum", "Field", "Function", "Local", "Parameter", "Type"])
    pool_index(u, "verify")
    small(u)
    instr_types(u)
    instr_codec(u)
    return u
