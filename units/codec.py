"""contracts for core/src/encode.rs and core/src/decode.rs"""
import os
from vgen import Unit, F, L

E = "core/src/encode.rs"
D = "core/src/decode.rs"
HERE = os.path.dirname(os.path.abspath(__file__))


def contract_file(n):
    with open(os.path.join(HERE, "..", "contracts", n)) as f:
        return f.read()


# name, byte length, unsigned?, value as nat / from nat
INTS = [("u64", 8, False, 2**64), ("u32", 4, False, 2**32), ("u16", 2, False, 2**16), ("u8", 1, False, 2**8),
        ("i64", 8, True, 2**64), ("i32", 4, True, 2**32), ("i16", 2, True, 2**16), ("i8", 1, True, 2**8)]


def byte_enc(t, n, s, m, x):
    if n == 1:
        return "seq![%s]" % (x if t == "u8" else "tc(%s as int, 256) as u8" % x)
    return "le(%s, %d)" % (to_nat(t, s, m, x), n)


def byte_dec(t, n, s, m, b, o=lambda x: x):
    if n == 1:
        return "%s[0]" % b if t == "u8" else "untc(%s[0] as nat, 256) as i8" % b
    return from_nat(t, s, m, "de(%s)" % o("%s.take(%d)" % (b, n)))


def to_nat(t, signed, m, x):
    return "tc(%s as int, %d)" % (x, m) if signed else "%s as nat" % x


def from_nat(t, signed, m, x):
    return "untc(%s, %d) as %s" % (x, m, t) if signed else "%s as %s" % (x, t)


def byteorder(u):
    w, r = [], []
    for t, n, s, m in INTS:
        g = "" if n == 1 else "<E: ByteOrder>"
        o = (lambda x: x) if n == 1 else (lambda x: "E::ord(%s)" % x)
        w.append("""    #[verifier::external_body]
    fn write_%s%s(&mut self, n: %s) -> (r: io::Result<()>)
        requires old(self).wf(),
        ensures wrote(*old(self), *final(self), r, %s)
    { unimplemented!() }""" % (t, g, t, o(byte_enc(t, n, s, m, "n"))))
        r.append("""    #[verifier::external_body]
    fn read_%s%s(&mut self) -> (r: io::Result<%s>)
        ensures
            final(self).src() == old(self).src(), final(self).reliable() == old(self).reliable(),
            r matches Ok(v) ==> old(self).rest().len() >= %d && final(self).rest() == old(self).rest().skip(%d)
                && v == %s,
            old(self).reliable() && old(self).rest().len() >= %d ==> r is Ok
    { unimplemented!() }""" % (t, g, t, n, n, byte_dec(t, n, s, m, "old(self).rest()", o), n))
    for t, n, b in (("f32", 4, "u32"), ("f64", 8, "u64")):
        w.append("""    #[verifier::external_body]
    fn write_%s<E: ByteOrder>(&mut self, n: %s) -> (r: io::Result<()>)
        requires old(self).wf(),
        ensures wrote(*old(self), *final(self), r, E::ord(le(%s_bits(n) as nat, %d)))
    { unimplemented!() }""" % (t, t, t, n))
        r.append("""    #[verifier::external_body]
    fn read_%s<E: ByteOrder>(&mut self) -> (r: io::Result<%s>)
        ensures
            final(self).src() == old(self).src(), final(self).reliable() == old(self).reliable(),
            r matches Ok(v) ==> old(self).rest().len() >= %d && final(self).rest() == old(self).rest().skip(%d)
                && %s_bits(v) == de(E::ord(old(self).rest().take(%d))) as %s,
            old(self).reliable() && old(self).rest().len() >= %d ==> r is Ok
    { unimplemented!() }""" % (t, t, n, n, t, n, b, n))
    u.raw("pub trait WriteBytesExt: io::Write {\n" + "\n".join(w) + "\n}\nimpl<W: io::Write> WriteBytesExt for W {}")
    u.raw("pub trait ReadBytesExt: io::Read {\n" + "\n".join(r) + "\n}\nimpl<R: io::Read> ReadBytesExt for R {}")


ENC = "requires old(output).wf(), self.fits(), ensures wrote(*old(output), *final(output), r, self.enc()),"
DEC = """ensures
        final(input).src() == old(input).src(), final(input).reliable() == old(input).reliable(),
        r matches Ok(v) ==> Self::dec(old(input).rest()) == Some((v.dv(), final(input).rest())),
        old(input).reliable() && Self::dec(old(input).rest()) is Some ==> r is Ok,"""


def prims(u, mode="verify"):
    u.trait(E, "Encode", {"encode": F(ENC)}, extra="""    spec fn enc(&self) -> Seq<u8>;
    spec fn fits(&self) -> bool;   // lengths fit their prefixes""")
    u.trait(D, "Decode", {"decode": F(DEC)}, extra="""    type V;
    spec fn dv(self) -> Self::V;
    spec fn dec(b: Seq<u8>) -> Option<(Self::V, Seq<u8>)>;""")
    for t, n, s, m in INTS + [("f32", 4, None, "u32"), ("f64", 8, None, "u64")]:
        if s is None:
            vt, view = m, "%s_bits(self)" % t
            e = "le(%s_bits(x) as nat, %d)" % (t, n)
            d = "de(b.take(%d)) as %s" % (n, m)
        else:
            vt, view = t, "self"
            e, d = byte_enc(t, n, s, m, "x"), byte_dec(t, n, s, m, "b")
        op = "" if n == 1 else "#[verifier::opaque]\n"
        u.raw("""%spub open spec fn enc_%s(x: %s) -> Seq<u8> { %s }
%spub open spec fn dec_%s(b: Seq<u8>) -> Option<(%s, Seq<u8>)> {
    if b.len() >= %d { Some((%s, b.skip(%d))) } else { None }
}""" % (op, t, t, e, op, t, vt, n, d, n))
        re, rd = ("", "") if n == 1 else ("proof { reveal(enc_%s); }" % t, "proof { reveal(dec_%s); }" % t)
        u.impl(E, "Encode for " + t, {"encode": F(pre=re)}, mode=mode, extra="""    open spec fn fits(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { enc_%s(*self) }""" % t)
        u.impl(D, "Decode for " + t, {"decode": F(pre=rd)}, mode=mode, extra="""    type V = %s;
    open spec fn dv(self) -> %s { %s }
    open spec fn dec(b: Seq<u8>) -> Option<(%s, Seq<u8>)> { dec_%s(b) }""" % (vt, vt, view, vt, t))
    u.impl(E, "Encode for bool", {"encode": F()}, mode=mode, extra="""    open spec fn fits(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { seq![if *self { 1u8 } else { 0u8 }] }""")
    u.impl(D, "Decode for bool", {"decode": F()}, mode=mode, extra="""    type V = bool;
    open spec fn dv(self) -> bool { self }
    open spec fn dec(b: Seq<u8>) -> Option<(bool, Seq<u8>)> {
        if b.len() >= 1 { Some((b[0] != 0, b.skip(1))) } else { None }
    }""")


STR_AX = """
pub assume_specification[ <u8 as From<bool>>::from ](b: bool) -> (r: u8)
    ensures r == (if b { 1u8 } else { 0u8 });

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);

pub assume_specification[ String::from_utf8 ](v: Vec<u8>) -> (r: core::result::Result<String, std::string::FromUtf8Error>)
    ensures
        r is Ok <==> vstd::utf8::valid_utf8(v@),
        r matches Ok(s) ==> vstd::utf8::encode_utf8(s@) == v@;
"""


def strings(u, mode="verify"):
    u.raw(STR_AX)
    u.impl(E, "Encode for &str", {"encode": F()}, mode=mode, extra="""    open spec fn fits(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { vstd::utf8::encode_utf8(self@) + seq![0u8] }""")
    u.raw("""
// index of the first NUL at or after i (b.len() when there is none)
pub open spec fn nul_at(b: Seq<u8>, i: nat) -> nat
    decreases b.len() - i
{
    if i >= b.len() { b.len() } else if b[i as int] == 0 { i } else { nul_at(b, i + 1) }
}""")
    u.impl(D, "Decode for String", {"decode": F(
        pre="let ghost start = input.rest();",
        loops=[L("loop", """
            input.src() == old(input).src(), input.reliable() == old(input).reliable(),
            start == old(input).rest(),
            buf@.len() <= start.len(),
            buf@ =~= start.take(buf@.len() as int),
            nul_at(start, 0) == nul_at(start, buf@.len()),
            """, exc="input.rest() == start.skip(buf@.len() as int)",
            ens="buf@.len() < start.len(), start[buf@.len() as int] == 0, input.rest() == start.skip(buf@.len() as int + 1)",
            dec="start.len() - buf@.len()")])}, mode=mode, extra="""    type V = Seq<u8>;
    open spec fn dv(self) -> Seq<u8> { vstd::utf8::encode_utf8(self@) }
    open spec fn dec(b: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> {
        let n = nul_at(b, 0);
        if n >= b.len() || !vstd::utf8::valid_utf8(b.take(n as int)) { None }
        else { Some((b.take(n as int), b.skip((n + 1) as int))) }
    }""")


def ext(u, mode="verify"):
    u.raw("""
pub open spec fn enc_seq<A: Encode>(s: Seq<A>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { Seq::<u8>::empty() } else { enc_seq(s.drop_last()) + s.last().enc() }
}

pub open spec fn fits_seq<A: Encode>(s: Seq<A>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).fits() }

pub open spec fn dec_seq<A: Decode>(n: nat, b: Seq<u8>) -> Option<(Seq<A::V>, Seq<u8>)>
    decreases n
{
    if n == 0 { Some((Seq::<A::V>::empty(), b)) }
    else {
        match dec_seq::<A>((n - 1) as nat, b) {
            None => None,
            Some((s, r)) => match A::dec(r) { None => None, Some((v, r2)) => Some((s.push(v), r2)) },
        }
    }
}

// a failed prefix cannot be completed
pub proof fn dec_seq_prefix<A: Decode>(n: nat, m: nat, b: Seq<u8>)
    requires n <= m, dec_seq::<A>(m, b) is Some,
    ensures dec_seq::<A>(n, b) is Some,
    decreases m - n
{
    if n < m { dec_seq_prefix::<A>(n, (m - 1) as nat, b); }
}

pub open spec fn dvs<A: Decode>(s: Seq<A>) -> Seq<A::V> { s.map_values(|a: A| a.dv()) }

pub open spec fn inj<S: Decode>() -> bool { forall|s: S, t: S| #[trigger] s.dv() == #[trigger] t.dv() ==> s == t }

pub open spec fn count_of<S: Decode + Into<u32>>(v: S::V) -> nat {
    <S as IntoSpec<u32>>::into_spec(choose|s: S| s.dv() == v) as nat
}

pub open spec fn dec_vecp<S: Decode + Into<u32>, A: Decode>(b: Seq<u8>) -> Option<(Seq<A::V>, Seq<u8>)> {
    match S::dec(b) { None => None, Some((k, r)) => dec_seq::<A>(count_of::<S>(k), r) }
}

pub open spec fn dec_strp<S: Decode + Into<u32>>(b: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> {
    match S::dec(b) { None => None, Some((k, r)) => dec_utf8(count_of::<S>(k), r) }
}

// core: `impl<T> From<T> for T` is the identity (assumed; vstd has no spec for it)
pub broadcast axiom fn axiom_u32_into_u32(x: u32)
    ensures <u32 as IntoSpec<u32>>::obeys_into_spec(), #[trigger] <u32 as IntoSpec<u32>>::into_spec(x) == x;

pub open spec fn dec_bytes(n: nat, b: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> {
    if b.len() >= n { Some((b.take(n as int), b.skip(n as int))) } else { None }
}

pub open spec fn dec_utf8(n: nat, b: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> {
    if b.len() >= n && vstd::utf8::valid_utf8(b.take(n as int)) { Some((b.take(n as int), b.skip(n as int))) } else { None }
}

pub open spec fn prefix_ok<S: TryFrom<usize>>(n: usize) -> bool {
    <S as TryFromSpec<usize>>::obeys_try_from_spec() && <S as TryFromSpec<usize>>::try_from_spec(n) is Ok
}

pub open spec fn prefix_of<S: TryFrom<usize>>(n: usize) -> S {
    match <S as TryFromSpec<usize>>::try_from_spec(n) { Ok(s) => s, Err(_) => arbitrary() }
}
""")
    W = "requires old(self).wf(), %s ensures wrote(*old(self), *final(self), r, %s),"
    u.trait(E, "EncodeExt", {
        "encode": F(W % ("value.fits(),", "value.enc()")),
        "encode_slice": F(W % ("fits_seq(value@),", "enc_seq(value@)"), loops=[L("for", """
            self.wf(), self.base() == old(self).base(), self.reliable() == old(self).reliable(), self.tok() == old(self).tok(), fits_seq(value@),
            self.written() == old(self).written() + enc_seq(value@.take(it.index@ as int)),
            """, it="it", start="proof { assert(value@.take(it.index@ as int + 1).drop_last() =~= value@.take(it.index@ as int)); }"),
            ], pre="proof { assert(value@.take(value@.len() as int) =~= value@); assert(value@.take(0) =~= Seq::<A>::empty()); }"),
        "encode_slice_prefixed": F(W % ("prefix_ok::<S>(value@.len() as usize), prefix_of::<S>(value@.len() as usize).fits(), fits_seq(value@),",
                                        "prefix_of::<S>(value@.len() as usize).enc() + enc_seq(value@)")),
        "encode_str": F(W % ("", "vstd::utf8::encode_utf8(value@)")),
        "encode_str_prefixed": F(W % ("prefix_ok::<S>(vstd::utf8::encode_utf8(value@).len() as usize), prefix_of::<S>(vstd::utf8::encode_utf8(value@).len() as usize).fits(),",
                                      "prefix_of::<S>(vstd::utf8::encode_utf8(value@).len() as usize).enc() + vstd::utf8::encode_utf8(value@)"),
                                 pre="proof { enc_seq_u8(vstd::utf8::encode_utf8(value@)); }"),
    }, mode=mode)
    u.raw("""
pub proof fn enc_seq_u8(s: Seq<u8>)
    ensures enc_seq::<u8>(s) == s, fits_seq::<u8>(s),
    decreases s.len()
{
    if s.len() > 0 {
        enc_seq_u8(s.drop_last());
        assert(s.drop_last() + seq![s.last()] =~= s);
    } else {
        assert(enc_seq::<u8>(s) =~= s);
    }
}
""")
    u.raw("impl<O: io::Write> EncodeExt for O {}")
    R = """requires %s
      ensures
        final(self).src() == old(self).src(), final(self).reliable() == old(self).reliable(),
        r matches Ok(v) ==> %s == Some((%s, final(self).rest())),
        old(self).reliable() && %s is Some ==> r is Ok,"""

    def rc(req, dec, view):
        return R % (req, dec, view, dec)
    INTO = "<S as IntoSpec<u32>>::obeys_into_spec(),"
    N = "<S as IntoSpec<u32>>::into_spec(count) as nat"
    # an announced count is only a claim of the stream: room for at most 2^16 entries may be asked for before reading any
    u.raw("""
#[verifier::external_body]
pub fn room_for<A>(n: usize) -> (r: Vec<A>)
    requires n <= 0x10000
    ensures r@.len() == 0
{ Vec::with_capacity(n) }
#[verifier::external_body]
pub fn lesser(a: usize, b: usize) -> (r: usize)
    ensures r == if a <= b { a } else { b }
{ a.min(b) }""")
    for c in u.consts(D):
        u.const(D, c)
    u.trait(D, "DecodeExt", {
        "decode": F(rc("true,", "A::dec(old(self).rest())", "v.dv()")),
        "decode_vec": F(rc(INTO, "dec_seq::<A>(%s, old(self).rest())" % N, "dvs(v@)"), rw=[
            ("Vec::with_capacity($n)", "room_for($n)"), ("$a:id.min($b)", "lesser($a, $b)")], loops=[L("for", """
            self.src() == old(self).src(), self.reliable() == old(self).reliable(),
            it.index@ <= size, size as nat == SN, SN == %s,
            dec_seq::<A>(it.index@ as nat, old(self).rest()) == Some((dvs(vec@), self.rest())),
            """ % N, it="it", start="""
            proof { if dec_seq::<A>(SN, old(self).rest()) is Some { dec_seq_prefix::<A>((it.index@ + 1) as nat, SN, old(self).rest()); } }
            let ghost v0: Seq<A> = vec@;""", post="proof { let v1: Seq<A> = vec@; assert(dvs(v1) =~= dvs(v0).push(v1.last().dv())); }",
            pre="proof { let v1: Seq<A> = vec@; assert(dvs(v1) =~= Seq::<A::V>::empty()); }")], pre="let ghost SN = %s;" % N),
        "decode_vec_prefixed": F(rc("inj::<S>(), " + INTO, "dec_vecp::<S, A>(old(self).rest())", "dvs(v@)")),
        "decode_bytes": F(rc(INTO, "dec_bytes(%s, old(self).rest())" % N, "v@")),
        "decode_str": F(rc(INTO, "dec_utf8(%s, old(self).rest())" % N, "vstd::utf8::encode_utf8(v@)")),
        "decode_str_prefixed": F(rc("inj::<S>(), " + INTO, "dec_strp::<S>(old(self).rest())", "vstd::utf8::encode_utf8(v@)")),
    }, mode=mode)
    u.raw("impl<I: io::Read> DecodeExt for I {}")


def roundtrip(u):
    """the round-trip lemmas over the contracts above"""
    o = ["""
pub proof fn lemma_le_len(v: nat, n: nat)
    ensures le(v, n).len() == n,
    decreases n
{ if n > 0 { lemma_le_len(v / 256, (n - 1) as nat); } }

pub open spec fn p256(n: nat) -> nat decreases n { if n == 0 { 1 } else { 256 * p256((n - 1) as nat) } }

pub proof fn lemma_de_le(v: nat, n: nat)
    requires v < p256(n),
    ensures de(le(v, n)) == v, le(v, n).len() == n,
    decreases n
{
    lemma_le_len(v, n);
    if n > 0 {
        assert(v / 256 < p256((n - 1) as nat)) by (nonlinear_arith) requires v < 256 * p256((n - 1) as nat);
        lemma_de_le(v / 256, (n - 1) as nat);
        assert(le(v, n).skip(1) =~= le(v / 256, (n - 1) as nat));
        assert(le(v, n)[0] == (v % 256) as u8);
    }
}

pub proof fn lemma_split(a: Seq<u8>, r: Seq<u8>)
    ensures (a + r).take(a.len() as int) == a, (a + r).skip(a.len() as int) == r,
{
    assert((a + r).take(a.len() as int) =~= a);
    assert((a + r).skip(a.len() as int) =~= r);
}

// decode (encode x ++ r) = (x, r)
pub trait Rt: Encode + Decode {
    spec fn ok(&self) -> bool;
    proof fn rt(&self, r: Seq<u8>)
        requires self.fits(), self.ok(),
        ensures Self::dec(self.enc() + r) == Some(((*self).dv(), r));
}
"""]
    for t, n, s, m in INTS:
        if n == 1:
            b = "assert((self.enc() + r).skip(1) =~= r);"
        else:
            b = "reveal(enc_%s); reveal(dec_%s); " % (t, t) + "reveal_with_fuel(p256, 9); lemma_de_le(%s, %d); lemma_split(self.enc(), r);" % (to_nat(t, s, m, "(*self)"), n)
        o.append("impl Rt for %s { open spec fn ok(&self) -> bool { true } proof fn rt(&self, r: Seq<u8>) { %s } }" % (t, b))
    for t, n, b in (("f32", 4, "u32"), ("f64", 8, "u64")):
        o.append("impl Rt for %s { open spec fn ok(&self) -> bool { true } proof fn rt(&self, r: Seq<u8>) { reveal(enc_%s); reveal(dec_%s); reveal_with_fuel(p256, 9); lemma_de_le(%s_bits(*self) as nat, %d); lemma_split(self.enc(), r); } }" % (t, t, t, t, n))
    o.append("""
impl Rt for bool { open spec fn ok(&self) -> bool { true } proof fn rt(&self, r: Seq<u8>) { assert((self.enc() + r).skip(1) =~= r); } }

pub proof fn lemma_nul_at(b: Seq<u8>, i: nat, n: nat)
    requires i <= n < b.len(), b[n as int] == 0, forall|k: int| i <= k < n ==> b[k] != 0,
    ensures nul_at(b, i) == n,
    decreases n - i
{ if i < n { lemma_nul_at(b, i + 1, n); } }

// C-strings: text without NUL comes back (encoder is for &str, decoder for String)
pub proof fn rt_cstr(s: &str, r: Seq<u8>)
    requires forall|k: int| 0 <= k < vstd::utf8::encode_utf8(s@).len() ==> vstd::utf8::encode_utf8(s@)[k] != 0,
    ensures <String as Decode>::dec(s.enc() + r) == Some((vstd::utf8::encode_utf8(s@), r)),
{
    let e = vstd::utf8::encode_utf8(s@);
    let b = s.enc() + r;
    lemma_nul_at(b, 0, e.len());
    assert(b.take(e.len() as int) =~= e);
    assert(b.skip(e.len() as int + 1) =~= r);
    vstd::utf8::encode_utf8_valid_utf8(s@);
}

pub open spec fn ok_seq<A: Rt>(s: Seq<A>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).ok() }

pub proof fn rt_seq<A: Rt>(s: Seq<A>, r: Seq<u8>)
    requires fits_seq(s), ok_seq(s),
    ensures dec_seq::<A>(s.len(), enc_seq(s) + r) == Some((dvs(s), r)),
    decreases s.len()
{
    if s.len() > 0 {
        assert(s.last() == s[s.len() - 1]);
        assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i]).fits() by { assert(s.drop_last()[i] == s[i]); }
        assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i]).ok() by { assert(s.drop_last()[i] == s[i]); }
        rt_seq(s.drop_last(), s.last().enc() + r);
        s.last().rt(r);
        assert(enc_seq(s) + r =~= enc_seq(s.drop_last()) + (s.last().enc() + r));
        assert(dvs(s) =~= dvs(s.drop_last()).push(s.last().dv()));
    } else {
        assert(dvs(s) =~= Seq::<A::V>::empty());
        assert(enc_seq(s) + r =~= r);
    }
}
""")
    for t, m in (("u32", 2**32), ("u16", 2**16)):
        o.append("""
pub proof fn count_%(t)s(k: %(t)s)
    ensures count_of::<%(t)s>(k) == k as nat, inj::<%(t)s>(), <%(t)s as IntoSpec<u32>>::obeys_into_spec(),
{
    broadcast use axiom_u32_into_u32;
    let s = choose|s: %(t)s| s.dv() == k;
    assert(k.dv() == k);
    assert(s == k);
    assert(<%(t)s as IntoSpec<u32>>::into_spec(k) as nat == k as nat);
}

pub proof fn rt_vec_%(t)s<A: Rt>(s: Seq<A>, r: Seq<u8>)
    requires fits_seq(s), ok_seq(s), s.len() < %(m)d,
    ensures dec_vecp::<%(t)s, A>(prefix_of::<%(t)s>(s.len() as usize).enc() + enc_seq(s) + r) == Some((dvs(s), r)),
{
    let k = s.len() as %(t)s;
    assert(prefix_of::<%(t)s>(s.len() as usize) == k);
    k.rt(enc_seq(s) + r);
    count_%(t)s(k);
    rt_seq(s, r);
}

pub proof fn rt_str_%(t)s(s: Seq<char>, r: Seq<u8>)
    requires vstd::utf8::encode_utf8(s).len() < %(m)d,
    ensures dec_strp::<%(t)s>(prefix_of::<%(t)s>(vstd::utf8::encode_utf8(s).len() as usize).enc() + vstd::utf8::encode_utf8(s) + r)
        == Some((vstd::utf8::encode_utf8(s), r)),
{
    let e = vstd::utf8::encode_utf8(s);
    let k = e.len() as %(t)s;
    assert(prefix_of::<%(t)s>(e.len() as usize) == k);
    k.rt(e + r);
    count_%(t)s(k);
    lemma_split(e, r);
    vstd::utf8::encode_utf8_valid_utf8(s);
}
""" % dict(t=t, m=m))
    u.raw("\n".join(o))


def arrays(u, mode="verify"):
    u.impl(E, "Encode for [u8; N]", {"encode": F()}, mode=mode, extra="""    open spec fn fits(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { self@ }""")
    u.impl(D, "Decode for [u8; N]", {"decode": F()}, mode=mode, extra="""    type V = Seq<u8>;
    open spec fn dv(self) -> Seq<u8> { self@ }
    open spec fn dec(b: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> { dec_bytes(N as nat, b) }""")


def build(repo):
    u = Unit("codec", repo)
    u.raw(contract_file("prelude.rs"))
    byteorder(u)
    prims(u)
    strings(u)
    ext(u)
    arrays(u)
    roundtrip(u)
    return u
