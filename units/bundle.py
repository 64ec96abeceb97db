"""contracts for loading and saving whole bundles (core/src/bundle.rs, core/src/io.rs)"""
from vgen import Unit, F, L
import instr
import defs
import pool
import records
import strings
from instr import BU, DF
from codec import contract_file

IO = "core/src/io.rs"

ITER = [("in $x.iter().skip($n) {", "in skipped(&$x, $n) {"), ("in $x.iter().enumerate() {", "in enumerated($x) {")]


def any_stub(u):
    """records of definitions: proved in unit defs"""
    u.raw("""pub ghost struct AnyDefinitionV { pub _x: int }
#[verifier::external_body]
pub struct AnyDefinition { _p: () }
pub uninterp spec fn any_dv(d: AnyDefinition) -> AnyDefinitionV;
pub uninterp spec fn any_ok(d: AnyDefinition) -> bool;
pub uninterp spec fn any_fits(d: AnyDefinition) -> bool;
pub uninterp spec fn any_enc(d: AnyDefinition) -> Seq<u8>;
pub uninterp spec fn any_dec(num: u8, b: Seq<u8>) -> Option<(AnyDefinitionV, Seq<u8>)>;
pub uninterp spec fn anydef_num(d: AnyDefinition) -> u8;
// proved in unit defs
#[verifier::external_body]
pub proof fn any_rt(d: AnyDefinition, r: Seq<u8>)
    requires d.fits(), any_ok(d),
    ensures any_dec(anydef_num(d), d.enc() + r) == Some((any_dv(d), r)),
{ }
""")
    u.impl(DF, "AnyDefinition", {"type_": F("ensures r.num() == anydef_num(*self),")}, mode="assume")
    u.impl(DF, "Encode for AnyDefinition", {"encode": F()}, mode="assume", extra="""    open spec fn fits(&self) -> bool { any_fits(*self) }
    open spec fn enc(&self) -> Seq<u8> { any_enc(*self) }""")
    u.struct(DF, "Definition")
    u.impl(DF, "Definition", {"decode": F(defs.DEF_DECODE)}, mode="assume")
    u.raw("""pub uninterp spec fn blank_dv() -> AnyDefinitionV;
pub open spec fn is_blank(d: Definition) -> bool {
    d.name.value == 0 && d.parent.value == 0 && d.unk1 == 0 && d.unk2 == 0 && d.unk3 == 0 && any_dv(d.value) == blank_dv()
}
// proved in unit pool
#[verifier::external_body]
pub fn definition_default() -> (r: Definition) ensures is_blank(r) { unimplemented!() }""")


def stream(u, mode="verify"):
    u.struct(IO, "StreamOffset", attrs="")
    u.impl(IO, "StreamOffset<S>", {
        "new_zeroed": F("ensures r.inner == inner, r.offset == 0,"),
        "offset": F("ensures r == self.offset,"),
        "into_inner": F("ensures r == self.inner,"),
    }, mode=mode)
    # the instance in use: over a borrowed sink
    u.impl(IO, "StreamOffset<S>", {
        "new_seekable": F("""ensures
            old(inner).steady() ==> r is Ok,
            r matches Ok(s) ==> *final(s.inner) == *final(inner) && s.inner.contents() == old(inner).contents() && s.inner.pos() == old(inner).pos()
              && s.inner.steady() == old(inner).steady() && s.offset == old(inner).pos(),""", sig_rw=[("mut inner: S", "inner: &'a mut O")], ret="r"),
    }, mode=mode, hdr_rw=[("impl<S: io::Seek> StreamOffset<S>", "impl<'a, O: io::Seek> StreamOffset<&'a mut O>")])
    u.impl(IO, "io::Write for StreamOffset<W>", {
        "write": F(pre="broadcast use io::axiom_small;"),
        "flush": F(),
    }, mode=mode, hdr_rw=[("impl<W: io::Write> io::Write for StreamOffset<W>", "impl<'a, W: io::Write> io::Write for StreamOffset<&'a mut W>")], extra="""
    type Tok = (int, W, W::Tok);
    // how far the counter is from the bytes written; the borrow being written through
    #[verifier::prophetic]
    open spec fn tok(&self) -> (int, W, W::Tok) { (self.offset - self.inner.written().len(), *final(self.inner), self.inner.tok()) }
    open spec fn base(&self) -> (Seq<u8>, nat) { self.inner.base() }
    open spec fn written(&self) -> Seq<u8> { self.inner.written() }
    open spec fn reliable(&self) -> bool { self.inner.reliable() }
    open spec fn wf(&self) -> bool { self.inner.wf() && self.offset <= self.inner.base().1 + self.inner.written().len() }
    // std: the provided method, a loop over write
    #[verifier::external_body]
    fn write_all(&mut self, buf: &[u8]) -> (r: io::Result<()>) { unimplemented!() }""")


SPEC = """
#[verifier::external_body]
pub fn skipped<'a, T>(s: &'a Vec<T>, n: usize) -> (r: Vec<&'a T>)
    ensures r@.len() == (if n <= s@.len() { s@.len() - n } else { 0 }), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == s@[i + n]
{ s.iter().skip(n).collect() }

// ----- what a bundle holds -----
pub ghost struct DefV { pub name: u32, pub parent: u32, pub unk1: u8, pub unk2: u8, pub unk3: u8, pub value: AnyDefinitionV }
pub ghost struct PoolV { pub names: Seq<Seq<u8>>, pub tweakdb_ids: Seq<Seq<u8>>, pub resources: Seq<Seq<u8>>, pub strings: Seq<Seq<u8>>, pub definitions: Seq<DefV> }
pub open spec fn def_v(d: Definition) -> DefV { DefV { name: d.name.value, parent: d.parent.value, unk1: d.unk1, unk2: d.unk2, unk3: d.unk3, value: any_dv(d.value) } }
pub open spec fn blank_v() -> DefV { DefV { name: 0, parent: 0, unk1: 0, unk2: 0, unk3: 0, value: blank_dv() } }
// slot 0 is the reserved blank definition
pub open spec fn defs_v(s: Seq<Definition>) -> Seq<DefV> { Seq::new(s.len(), |i: int| if i == 0 { blank_v() } else { def_v(s[i]) }) }
pub open spec fn utf(s: Seq<RefStr>) -> Seq<Seq<u8>> { s.map_values(|r: RefStr| vstd::utf8::encode_utf8(r@)) }
pub open spec fn pool_v(p: ConstantPool) -> PoolV {
    PoolV { names: utf(p.names.strings@), tweakdb_ids: utf(p.tweakdb_ids.strings@), resources: utf(p.resources.strings@), strings: utf(p.strings.strings@), definitions: defs_v(p.definitions@) }
}

// ----- how it is read -----
pub open spec fn str_at(d: Seq<u8>, o: u32) -> Option<(Seq<u8>, Seq<u8>)> { <String as Decode>::dec(io::from_at(d, o as int)) }
pub open spec fn strs_dec(d: Seq<u8>, offs: Seq<u32>) -> Option<Seq<Seq<u8>>>
    decreases offs.len()
{
    if offs.len() == 0 { Some(Seq::<Seq<u8>>::empty()) }
    else { match strs_dec(d, offs.drop_last()) { None => None, Some(s) => match str_at(d, offs.last()) { None => None, Some((t, _)) => Some(s.push(t)) } } }
}
pub open spec fn def_at(c: Seq<u8>, h: DefinitionHeaderV) -> Option<DefV> {
    match any_dec(h.type_, io::from_at(c, h.offset as int)) { None => None, Some((v, _)) => Some(DefV { name: h.name, parent: h.parent, unk1: h.unk1, unk2: h.unk2, unk3: h.unk3, value: v }) }
}
// definitions 1 .. n
pub open spec fn defs_dec(c: Seq<u8>, hs: Seq<DefinitionHeaderV>, n: nat) -> Option<Seq<DefV>>
    decreases n
{
    if n == 0 { Some(seq![blank_v()]) }
    else { match defs_dec(c, hs, (n - 1) as nat) { None => None, Some(s) => match def_at(c, hs[n as int]) { None => None, Some(d) => Some(s.push(d)) } } }
}
pub proof fn defs_dec_prefix(c: Seq<u8>, hs: Seq<DefinitionHeaderV>, n: nat, m: nat)
    requires n <= m, defs_dec(c, hs, m) is Some,
    ensures defs_dec(c, hs, n) is Some,
    decreases m - n
{ if n < m { defs_dec_prefix(c, hs, n, (m - 1) as nat); } }
pub open spec fn strs_tab(d: Seq<u8>, n: u32, b: Seq<u8>) -> Option<(Seq<Seq<u8>>, Seq<u8>)> {
    match dec_seq::<u32>(n as nat, b) { None => None, Some((o, r)) => match strs_dec(d, o) { None => None, Some(s) => Some((s, r)) } }
}
pub open spec fn pool_dec(c: Seq<u8>, r0: Seq<u8>, h: HeaderV) -> Option<PoolV> {
    match dec_bytes(h.data.count as nat, r0) { None => None, Some((d, r1)) =>
    match strs_tab(d, h.names.count, r1) { None => None, Some((names, r2)) =>
    match strs_tab(d, h.tweakdb_indexes.count, r2) { None => None, Some((tweakdb_ids, r3)) =>
    match strs_tab(d, h.resources.count, r3) { None => None, Some((resources, r4)) =>
    match dec_seq::<DefinitionHeader>(h.definitions.count as nat, r4) { None => None, Some((hs, r5)) =>
    match strs_tab(d, h.strings.count, r5) { None => None, Some((strings, r6)) =>
    match defs_dec(c, hs, (if hs.len() == 0 { 0 } else { hs.len() - 1 }) as nat) { None => None, Some(definitions) =>
        Some(PoolV { names, tweakdb_ids, resources, strings, definitions }) } } } } } } }
}
"""


def strings_codec(u, mode="verify"):
    u.raw("""
pub proof fn strs_dec_prefix(d: Seq<u8>, offs: Seq<u32>, n: int)
    requires 0 <= n <= offs.len(), strs_dec(d, offs) is Some,
    ensures strs_dec(d, offs.take(n)) is Some,
    decreases offs.len()
{
    if n == offs.len() { assert(offs.take(n) =~= offs); }
    else { strs_dec_prefix(d, offs.drop_last(), n); assert(offs.drop_last().take(n) =~= offs.take(n)); }
}
pub open spec fn offs_of(s: Seq<RefStr>, m: Map<Seq<char>, u32>) -> Seq<u32> { s.map_values(|r: RefStr| m[r@]) }
pub proof fn u32s_fit(s: Seq<u32>) ensures fits_seq(s), ok_seq(s) {}
""")
    u.impl(BU, "Strings<K>", {
        "decode_from": F("""ensures
            final(input).contents() == old(input).contents(), final(input).src() == old(input).src(), final(input).reliable() == old(input).reliable(),
            r matches Ok(s) ==> strs_dec(old(input).contents(), offsets@) == Some(utf(s.strings@)) && found(s),
            old(input).reliable() && strs_dec(old(input).contents(), offsets@) is Some && offsets@.len() <= 0xffff_ffff ==> r is Ok,""".replace(" && offsets@.len() <= 0xffff_ffff ==>", " ==>").replace("ensures", "requires offsets@.len() <= 0xffff_ffff, ensures"),
            rw=ITER, pre="broadcast use io::axiom_rs;",
            loops=[L("for", """
                input.contents() == old(input).contents(), input.src() == old(input).src(), input.reliable() == old(input).reliable(),
                strings@.len() == it.index@, it.seq().len() == offsets@.len(), offsets@.len() <= 0xffff_ffff,
                forall|k: int| 0 <= k < offsets@.len() ==> (#[trigger] it.seq()[k]).0 == k && *it.seq()[k].1 == offsets@[k],
                strs_dec(old(input).contents(), offsets@.take(it.index@ as int)) == Some(utf(strings@)),
                found_in::<K>(strings@, mappings@),
                """, it="it", pre="proof { assert(offsets@.take(0) =~= Seq::<u32>::empty()); let e: Seq<RefStr> = strings@; assert(utf(e) =~= Seq::<Seq<u8>>::empty()); assert(offsets@.take(offsets@.len() as int) =~= offsets@); }",
                start="""
                let ghost s0: Seq<RefStr> = strings@;
                proof { let n = it.index@ as int; assert(offsets@.take(n + 1).drop_last() =~= offsets@.take(n)); assert(offsets@.take(n + 1).last() == offsets@[n]);
                  if strs_dec(old(input).contents(), offsets@) is Some { strs_dec_prefix(old(input).contents(), offsets@, n + 1); } }""",
                post="proof { let s1: Seq<RefStr> = strings@; assert(utf(s1) =~= utf(s0).push(vstd::utf8::encode_utf8(s1.last()@))); }")]),
    }, mode=mode)
    u.raw("""pub mod listing {
use vstd::prelude::*;
use super::*;
    broadcast use { io::axiom_ws, io::axiom_small, lay::splice_more, lay::splice_end };""")
    u.impl(BU, "Strings<K>", {
        "encoded_offsets": F("""requires forall|i: int| 0 <= i < self.strings@.len() ==> str_map@.contains_key((#[trigger] self.strings@[i])@),
            ensures r is Ok, r matches Ok(v) ==> v@ == enc_seq(offs_of(self.strings@, str_map@)),""",
            pre="broadcast use io::axiom_ws;",
            loops=[L("for", """
                offsets.contents() == enc_seq(offs_of(self.strings@, str_map@).take(it.index@ as int)), offsets.pos() == offsets.contents().len(),
                forall|i: int| 0 <= i < self.strings@.len() ==> str_map@.contains_key((#[trigger] self.strings@[i])@)""", it="it",
                pre="proof { let o = offs_of(self.strings@, str_map@); assert(o.take(0) =~= Seq::<u32>::empty()); assert(o.take(o.len() as int) =~= o); }",
                start="""proof { let o = offs_of(self.strings@, str_map@); let n = it.index@ as int; assert(o.take(n + 1).drop_last() =~= o.take(n)); assert(o.take(n + 1).last() == str_map@[self.strings@[n]@]);
                    }""")]),
    }, mode=mode)
    u.raw("}")


POOL = """
// ----- how it is written -----
pub open spec fn ctext(k: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(k) + seq![0u8] }
pub open spec fn all_strings(p: ConstantPool) -> Seq<RefStr> { p.names.strings@ + p.tweakdb_ids.strings@ + p.resources.strings@ + p.strings.strings@ }
pub open spec fn text_size(s: Seq<RefStr>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { text_size(s.drop_last()) + ctext(s.last()@).len() } }
pub proof fn text_size_prefix(s: Seq<RefStr>, n: int)
    requires 0 <= n <= s.len(),
    ensures text_size(s.take(n)) <= text_size(s), n < s.len() ==> text_size(s.take(n + 1)) == text_size(s.take(n)) + ctext(s[n]@).len(),
    decreases s.len()
{
    if n == s.len() { assert(s.take(n) =~= s); }
    else {
        text_size_prefix(s.drop_last(), n);
        assert(s.drop_last().take(n) =~= s.take(n));
        assert(s.take(n + 1).drop_last() =~= s.take(n));
        assert(s.take(n + 1).last() == s[n]);
    }
}
// the records of definitions 1 .. n-1
pub open spec fn defs_enc(s: Seq<Definition>, n: int) -> Seq<u8>
    decreases n
{ if n <= 1 { Seq::<u8>::empty() } else { defs_enc(s, n - 1) + s[n - 1].value.enc() } }
pub proof fn defs_enc_mono(s: Seq<Definition>, a: int, b: int)
    requires a <= b,
    ensures defs_enc(s, a).len() <= defs_enc(s, b).len(),
    decreases b - a
{ if a < b { defs_enc_mono(s, a, b - 1); } }
pub open spec fn file_size(p: ConstantPool, start: int) -> int {
    start + text_size(all_strings(p)) + 4 * (p.names.strings@.len() + p.tweakdb_ids.strings@.len() + p.resources.strings@.len() + p.strings.strings@.len())
        + 20 * p.definitions@.len() + defs_enc(p.definitions@, p.definitions@.len() as int).len()
}
// everything fits the 32-bit positions and counts of the format
pub open spec fn pool_fits(p: ConstantPool, start: int) -> bool {
    p.definitions@.len() >= 1 && file_size(p, start) <= 0xffff_ffff && forall|i: int| 1 <= i < p.definitions@.len() ==> (#[trigger] p.definitions@[i]).value.fits()
}
// every text is in the data section, terminated, where the map says
pub open spec fn mapped(d: Seq<u8>, m: Map<Seq<char>, u32>) -> bool { forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> at(d, m[k] as int, ctext(k)) }
pub open spec fn covers(m: Map<Seq<char>, u32>, s: Seq<RefStr>, n: int) -> bool { forall|i: int| 0 <= i < n ==> m.contains_key((#[trigger] s[i])@) }
pub proof fn mapped_more(d: Seq<u8>, m: Map<Seq<char>, u32>, k: Seq<char>)
    requires mapped(d, m), d.len() <= u32::MAX,
    ensures mapped(d + ctext(k), m.insert(k, d.len() as u32)),
{
    let e = d + ctext(k);
    assert forall|j: Seq<char>| #[trigger] m.insert(k, d.len() as u32).contains_key(j) implies at(e, m.insert(k, d.len() as u32)[j] as int, ctext(j)) by {
        if j == k { assert(e.subrange(d.len() as int, e.len() as int) =~= ctext(k)); }
        else { assert(e.subrange(m[j] as int, m[j] + ctext(j).len()) =~= d.subrange(m[j] as int, m[j] + ctext(j).len())); }
    }
}
pub proof fn covers_parts(m: Map<Seq<char>, u32>, p: ConstantPool)
    requires covers(m, all_strings(p), all_strings(p).len() as int),
    ensures covers(m, p.names.strings@, p.names.strings@.len() as int), covers(m, p.tweakdb_ids.strings@, p.tweakdb_ids.strings@.len() as int),
        covers(m, p.resources.strings@, p.resources.strings@.len() as int), covers(m, p.strings.strings@, p.strings.strings@.len() as int),
{
    let (a, b, c, d) = (p.names.strings@, p.tweakdb_ids.strings@, p.resources.strings@, p.strings.strings@);
    let s = all_strings(p);
    assert forall|i: int| 0 <= i < a.len() implies m.contains_key((#[trigger] a[i])@) by { assert(s[i] == a[i]); }
    assert forall|i: int| 0 <= i < b.len() implies m.contains_key((#[trigger] b[i])@) by { assert(s[a.len() + i] == b[i]); }
    assert forall|i: int| 0 <= i < c.len() implies m.contains_key((#[trigger] c[i])@) by { assert(s[a.len() + b.len() + i] == c[i]); }
    assert forall|i: int| 0 <= i < d.len() implies m.contains_key((#[trigger] d[i])@) by { assert(s[a.len() + b.len() + c.len() + i] == d[i]); }
}
#[verifier::external_body]
pub fn chained4<'a>(a: &'a Vec<RefStr>, b: &'a Vec<RefStr>, c: &'a Vec<RefStr>, d: &'a Vec<RefStr>) -> (r: Vec<&'a RefStr>)
    ensures r@.len() == (a@ + b@ + c@ + d@).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == (a@ + b@ + c@ + d@)[i]
{ unimplemented!() }

pub open spec fn header_of(h: DefinitionHeader, d: Definition, off: int) -> bool {
    h.name == d.name && h.parent == d.parent && h.unk1 == d.unk1 && h.unk2 == d.unk2 && h.unk3 == d.unk3
    && h.offset == off && h.size == d.value.enc().len() && h.type_.num() == anydef_num(d.value)
}
pub open spec fn blank_header(h: DefinitionHeader) -> bool {
    h.name.value == 0 && h.parent.value == 0 && h.offset == 0 && h.size == 0 && h.type_.num() == 0 && h.unk1 == 0 && h.unk2 == 0 && h.unk3 == 0
}
pub open spec fn headers_of(hs: Seq<DefinitionHeader>, s: Seq<Definition>, n: int, base: int) -> bool {
    hs.len() == n && n >= 1 && blank_header(hs[0]) && forall|i: int| 1 <= i < n ==> header_of(#[trigger] hs[i], s[i], base + defs_enc(s, i).len())
}
pub proof fn headers_len(hs: Seq<DefinitionHeader>)
    ensures enc_seq(hs).len() == 20 * hs.len(), fits_seq(hs), ok_seq(hs),
    decreases hs.len()
{ if hs.len() > 0 { headers_len(hs.drop_last()); hs.last().enc_len(); } }
pub proof fn u32s_len(s: Seq<u32>)
    ensures enc_seq(s).len() == 4 * s.len(),
    decreases s.len()
{ if s.len() > 0 { u32s_len(s.drop_last()); len_u32(s.last()); } }

// a table header tells where a table is, how many entries it has and the checksum of its bytes
pub open spec fn announces(t: TableHeader, bytes: Seq<u8>, count: int, offset: int) -> bool { t.offset == offset && t.count == count && t.hash == crc(bytes) }

pub ghost struct Parts { pub d: Seq<u8>, pub m: Map<Seq<char>, u32>, pub hs: Seq<DefinitionHeader> }
pub open spec fn nb(p: ConstantPool, q: Parts) -> Seq<u8> { enc_seq(offs_of(p.names.strings@, q.m)) }
pub open spec fn tb(p: ConstantPool, q: Parts) -> Seq<u8> { enc_seq(offs_of(p.tweakdb_ids.strings@, q.m)) }
pub open spec fn rb(p: ConstantPool, q: Parts) -> Seq<u8> { enc_seq(offs_of(p.resources.strings@, q.m)) }
pub open spec fn sb(p: ConstantPool, q: Parts) -> Seq<u8> { enc_seq(offs_of(p.strings.strings@, q.m)) }
pub open spec fn fb(p: ConstantPool) -> Seq<u8> { defs_enc(p.definitions@, p.definitions@.len() as int) }
pub open spec fn s1(p: ConstantPool, q: Parts, start: int) -> int { start + q.d.len() }
pub open spec fn s2(p: ConstantPool, q: Parts, start: int) -> int { s1(p, q, start) + 4 * p.names.strings@.len() }
pub open spec fn s3(p: ConstantPool, q: Parts, start: int) -> int { s2(p, q, start) + 4 * p.tweakdb_ids.strings@.len() }
pub open spec fn s4(p: ConstantPool, q: Parts, start: int) -> int { s3(p, q, start) + 4 * p.resources.strings@.len() }
pub open spec fn s5(p: ConstantPool, q: Parts, start: int) -> int { s4(p, q, start) + 20 * p.definitions@.len() }
pub open spec fn s6(p: ConstantPool, q: Parts, start: int) -> int { s5(p, q, start) + 4 * p.strings.strings@.len() }

// where everything is
pub open spec fn placed(c: Seq<u8>, p: ConstantPool, q: Parts, start: int) -> bool {
    &&& at(c, start, q.d) && at(c, s1(p, q, start), nb(p, q)) && at(c, s2(p, q, start), tb(p, q)) && at(c, s3(p, q, start), rb(p, q))
    &&& at(c, s4(p, q, start), enc_seq(q.hs)) && at(c, s5(p, q, start), sb(p, q)) && at(c, s6(p, q, start), fb(p))
    &&& mapped(q.d, q.m) && covers(q.m, all_strings(p), all_strings(p).len() as int)
    &&& headers_of(q.hs, p.definitions@, p.definitions@.len() as int, s6(p, q, start))
}
// what the header says about it
pub open spec fn announced(h: Header, p: ConstantPool, q: Parts, start: int) -> bool {
    &&& announces(h.data, q.d, q.d.len() as int, start)
    &&& announces(h.names, nb(p, q), p.names.strings@.len() as int, s1(p, q, start))
    &&& announces(h.tweakdb_indexes, tb(p, q), p.tweakdb_ids.strings@.len() as int, s2(p, q, start))
    &&& announces(h.resources, rb(p, q), p.resources.strings@.len() as int, s3(p, q, start))
    &&& announces(h.definitions, enc_seq(q.hs), p.definitions@.len() as int, s4(p, q, start))
    &&& announces(h.strings, sb(p, q), p.strings.strings@.len() as int, s5(p, q, start))
}
// the checksum over the header, taken with a fixed value in the checksum's own place
pub open spec fn sealed(h: Header) -> bool { h.hash == crc((Header { hash: 0xDEAD_BEEFu32, ..h }).enc()) }
pub open spec fn same_build(h: Header, g: Header) -> bool { h.version == g.version && h.flags == g.flags && h.timestamp == g.timestamp && h.unk3 == g.unk3 && h.chunks == g.chunks }
pub open spec fn final_image(p: ConstantPool, q: Parts, c0: Seq<u8>, start: nat) -> Seq<u8> {
    splice(splice(splice(splice(splice(splice(splice(c0, start, q.d), s1(p, q, start as int) as nat, nb(p, q)), s2(p, q, start as int) as nat, tb(p, q)), s3(p, q, start as int) as nat, rb(p, q)),
        s5(p, q, start as int) as nat, sb(p, q)), s6(p, q, start as int) as nat, fb(p)), s4(p, q, start as int) as nat, enc_seq(q.hs))
}
pub proof fn finish(p: ConstantPool, q: Parts, c0: Seq<u8>, start: nat)
    requires p.definitions@.len() >= 1, mapped(q.d, q.m), covers(q.m, all_strings(p), all_strings(p).len() as int),
        headers_of(q.hs, p.definitions@, p.definitions@.len() as int, s6(p, q, start as int)),
    ensures placed(final_image(p, q, c0, start), p, q, start as int),
{
    u32s_len(offs_of(p.names.strings@, q.m)); u32s_len(offs_of(p.tweakdb_ids.strings@, q.m)); u32s_len(offs_of(p.resources.strings@, q.m)); u32s_len(offs_of(p.strings.strings@, q.m));
    headers_len(q.hs);
    laid(c0, start, q.d, nb(p, q), tb(p, q), rb(p, q), sb(p, q), fb(p), enc_seq(q.hs));
}
impl Clone for Header {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
"""


def pool_codec(u, mode="verify"):
    u.raw(POOL)
    d = records.const(u, "DefinitionHeader", "DEFAULT")
    w = BU + "::DefinitionHeader::DEFAULT"
    u.raw("""//@fn %s
pub fn header_default() -> (r: DefinitionHeader)
    ensures blank_header(r),
{%s %s }
//@end
impl DefinitionHeader { pub const SIZE: usize = %s; }
impl Header { pub const SIZE: usize = %s; }""" % (w, " proof { assert(false); }" if u.vacuity else "", u._rw(d, pool.UNDEF, w), records.const(u, "DefinitionHeader", "SIZE"), records.const(u, "Header", "SIZE")))
    u.fns.append(w)
    u.impl(BU, "DefinitionHeader", {"encode_definition": F("""requires old(output).wf(), definition.value.fits(), old(output).offset + definition.value.enc().len() <= 0xffff_ffff,
        ensures final(output).wf(), final(output).base() == old(output).base(), final(output).tok() == old(output).tok(), final(output).reliable() == old(output).reliable(),
          r matches Ok(h) ==> header_of(h, *definition, old(output).offset as int) && final(output).written() == old(output).written() + definition.value.enc()
            && final(output).offset == old(output).offset + definition.value.enc().len(),
          old(output).reliable() ==> r is Ok,""", sig_rw=[("&mut StreamOffset<O>", "&mut StreamOffset<&mut O>")])}, mode=mode)
    RW = ITER + pool.UNDEF + [("DefinitionHeader::DEFAULT", "header_default()"), ("chain!($a, $b, $c, $d)", "chained4($a, $b, $c, $d)")]
    u.impl(BU, "ConstantPool", {
        "decode": F("""ensures
            final(input).contents() == old(input).contents(), final(input).src() == old(input).src(), final(input).reliable() == old(input).reliable(),
            r matches Ok(p) ==> pool_dec(old(input).contents(), old(input).rest(), header.dv()) == Some(pool_v(p))
              && found(p.names) && found(p.tweakdb_ids) && found(p.resources) && found(p.strings) && p.definitions@.len() >= 1 && is_blank(p.definitions@[0]),
            old(input).reliable() && pool_dec(old(input).contents(), old(input).rest(), header.dv()) is Some ==> r is Ok,""", rw=RW,
            pre="broadcast use {bl::u32_into, bl::dec_seq_len, bl::dvs_u32}; proof { count_u32(0); } let ghost header0 = *header;", attrs="#[verifier::loop_isolation(false)]",
            loops=[L("for", """
                input.contents() == old(input).contents(), input.src() == old(input).src(), input.reliable() == old(input).reliable(),
                definitions@.len() == it.index@ + 1, it.seq().len() == (if headers@.len() == 0 { 0 } else { headers@.len() - 1 }),
                forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]) == headers@[k + 1],
                is_blank(definitions@[0]), defs_dec(old(input).contents(), dvs(headers@), it.index@ as nat) == Some(defs_v(definitions@)),
                pool_dec(old(input).contents(), old(input).rest(), header0.dv()) is Some && headers@.len() > 0 ==> defs_dec(old(input).contents(), dvs(headers@), (headers@.len() - 1) as nat) is Some,
                """, it="it", pre="proof { let e: Seq<Definition> = definitions@; assert(defs_v(e) =~= seq![blank_v()]); }",
                start="""let ghost d0: Seq<Definition> = definitions@;
                proof { let n = it.index@ as int; assert(dvs(headers@)[n + 1] == headers@[n + 1].dv());
                  let hn = dvs(headers@);
                  if defs_dec(old(input).contents(), hn, (hn.len() - 1) as nat) is Some { defs_dec_prefix(old(input).contents(), hn, (n + 1) as nat, (hn.len() - 1) as nat); } }""",
                post="proof { let d1: Seq<Definition> = definitions@; assert(defs_v(d1) =~= defs_v(d0).push(def_v(d1.last()))); }")]),
    }, mode=mode)
    # by itself, with only the facts about streams in scope: the proof is long
    u.raw("""pub mod saving {
use vstd::prelude::*;
use super::*;
    broadcast use { io::axiom_ws, io::axiom_small, lay::splice_more, lay::splice_end };""")
    u.impl(BU, "ConstantPool", {
        "encode": F("""requires old(output).wf(), pool_fits(*self, old(output).pos() as int),
            ensures r is Ok ==> final(output).steady() == old(output).steady(),
              old(output).steady() ==> r is Ok,
              r matches Ok(h) ==> same_build(h, *header) && sealed(h) && exists|q: Parts| #[trigger] placed(final(output).contents(), *self, q, old(output).pos() as int)
                && announced(h, *self, q, old(output).pos() as int),""", rw=RW,
            pre="hide(at); hide(placed); let ghost P0 = old(output).pos(); let ghost c0 = old(output).contents(); let ghost st = old(output).steady();",
            after=[
              (r"^for str in", """let ghost D = buffer.contents(); let ghost M = dedup_map@;
                let ghost nB = enc_seq(offs_of(self.names.strings@, M)); let ghost tB = enc_seq(offs_of(self.tweakdb_ids.strings@, M));
                let ghost rB = enc_seq(offs_of(self.resources.strings@, M)); let ghost sB = enc_seq(offs_of(self.strings.strings@, M));
                let ghost fB = fb(*self);
                let ghost p1 = (P0 + D.len()) as nat; let ghost p2 = (p1 + nB.len()) as nat; let ghost p3 = (p2 + tB.len()) as nat; let ghost p4 = (p3 + rB.len()) as nat;
                let ghost p5 = (p4 + 20 * self.definitions@.len()) as nat; let ghost p6 = (p5 + sB.len()) as nat;
                proof {
                  covers_parts(M, *self); u32s_len(offs_of(self.names.strings@, M)); u32s_len(offs_of(self.tweakdb_ids.strings@, M));
                  u32s_len(offs_of(self.resources.strings@, M)); u32s_len(offs_of(self.strings.strings@, M));
                  assert(p6 + fB.len() <= 0xffff_ffff);
                }"""),
              (r"^let name_offsets", "let ghost c1 = output.contents(); assert(c1 == splice(c0, P0, D)); assert(output.pos() == p1); assert(output.steady() == st);"),
              (r"^let tweakdb_offsets", "let ghost c2 = output.contents(); assert(c2 == splice(c1, p1, nB)); assert(output.pos() == p2); assert(output.steady() == st);"),
              (r"^let resource_offsets", "let ghost c3 = output.contents(); assert(c3 == splice(c2, p2, tB)); assert(output.pos() == p3); assert(output.steady() == st);"),
              (r"^let def_header_pos", "let ghost c4 = output.contents(); assert(c4 == splice(c3, p3, rB)); assert(output.pos() == p4); assert(output.steady() == st); assert(def_header_pos == p4);"),
              (r"^let string_offsets", "assert(output.contents() == c4); assert(output.pos() == p5); assert(output.steady() == st);"),
              (r"^let mut offset_output", "let ghost c5 = offset_output.inner.contents(); assert(c5 == splice(c4, p5, sB)); assert(offset_output.inner.pos() == p6); assert(offset_output.offset == p6); assert(offset_output.inner.steady() == st);"),
              (r"^let output = offset_output", "let ghost c6 = output.contents(); assert(c6 == splice(c5, p6, fB)); assert(output.steady() == st); let ghost hB = enc_seq(hs); proof { headers_len(hs); } assert(buffer.contents() == hB);"),
              (r"^let definitions = TableHeader", "assert(output.contents() == splice(c6, p4, hB)); assert(output.steady() == st);"),
              (r"^let header = Header", """proof {
                  let q = Parts { d: D, m: M, hs: hs };
                  finish(*self, q, c0, P0);
                  assert(announced(header, *self, q, P0 as int));
                }"""),
            ],
            loops=[
              L("for", """
                buffer.pos() == buffer.contents().len(), mapped(buffer.contents(), dedup_map@), covers(dedup_map@, all_strings(*self), it.index@ as int),
                it.seq().len() == all_strings(*self).len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == all_strings(*self)[i],
                buffer.contents().len() <= text_size(all_strings(*self).take(it.index@ as int)), pool_fits(*self, old(output).pos() as int),
                """, it="it", pre="proof { assert(all_strings(*self).take(0) =~= Seq::<RefStr>::empty()); assert(all_strings(*self).take(all_strings(*self).len() as int) =~= all_strings(*self)); }",
                start="""proof { text_size_prefix(all_strings(*self), it.index@ as int); let n = it.index@ as int; text_size_prefix(all_strings(*self), n + 1); mapped_more(buffer.contents(), dedup_map@, str@); }"""),
              L("for", """
                st == old(output).steady(), pool_fits(*self, old(output).pos() as int), p6 + defs_enc(self.definitions@, self.definitions@.len() as int).len() <= 0xffff_ffff,
                offset_output.wf(), offset_output.base() == B0, offset_output.tok() == T0, offset_output.reliable() == st,
                it.seq().len() == self.definitions@.len() - 1, forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]) == self.definitions@[k + 1],
                offset_output.written() == W0 + defs_enc(self.definitions@, it.index@ + 1), offset_output.offset == p6 + defs_enc(self.definitions@, it.index@ + 1).len(),
                buffer.contents() == enc_seq(hs), buffer.pos() == buffer.contents().len(), headers_of(hs, self.definitions@, it.index@ + 1, p6 as int),
                """, it="it", pre="""let ghost W0 = offset_output.written(); let ghost B0 = offset_output.base(); let ghost T0 = offset_output.tok();
                let ghost mut hs = seq![choose|h: DefinitionHeader| #[trigger] blank_header(h) && buffer.contents() == h.enc()];
                proof { assert(hs.drop_last() =~= Seq::<DefinitionHeader>::empty()); assert(enc_seq(hs) == enc_seq(hs.drop_last()) + hs.last().enc()); assert(defs_enc(self.definitions@, 1) =~= Seq::<u8>::empty()); assert(W0 + Seq::<u8>::empty() =~= W0); }""",
                start="let ghost hs0 = hs; proof { defs_enc_mono(self.definitions@, it.index@ + 2, self.definitions@.len() as int); }",
                post="proof { assert(offset_output.written() =~= W0 + defs_enc(self.definitions@, it.index@ + 2)); hs = hs.push(header); assert(hs.drop_last() =~= hs0); }"),
            ])
    }, mode=mode)
    u.raw("}")


LOAD = """
// ----- what was written reads back -----
pub open spec fn no_nul(k: Seq<char>) -> bool { forall|i: int| 0 <= i < vstd::utf8::encode_utf8(k).len() ==> #[trigger] vstd::utf8::encode_utf8(k)[i] != 0 }
pub open spec fn texts_ok(s: Seq<RefStr>) -> bool { forall|i: int| 0 <= i < s.len() ==> no_nul((#[trigger] s[i])@) }
pub open spec fn pool_ok(p: ConstantPool) -> bool {
    texts_ok(p.names.strings@) && texts_ok(p.tweakdb_ids.strings@) && texts_ok(p.resources.strings@) && texts_ok(p.strings.strings@)
    && forall|i: int| 1 <= i < p.definitions@.len() ==> any_ok((#[trigger] p.definitions@[i]).value)
}
pub proof fn text_reads(k: Seq<char>, r: Seq<u8>)
    requires no_nul(k),
    ensures <String as Decode>::dec(ctext(k) + r) == Some((vstd::utf8::encode_utf8(k), r)),
{
    let e = vstd::utf8::encode_utf8(k);
    let b = ctext(k) + r;
    lemma_nul_at(b, 0, e.len());
    assert(b.take(e.len() as int) =~= e);
    assert(b.skip(e.len() as int + 1) =~= r);
    vstd::utf8::encode_utf8_valid_utf8(k);
}
pub proof fn texts_read(d: Seq<u8>, m: Map<Seq<char>, u32>, s: Seq<RefStr>)
    requires mapped(d, m), covers(m, s, s.len() as int), texts_ok(s),
    ensures strs_dec(d, offs_of(s, m)) == Some(utf(s)),
    decreases s.len()
{
    if s.len() == 0 { assert(offs_of(s, m) =~= Seq::<u32>::empty()); assert(utf(s) =~= Seq::<Seq<u8>>::empty()); }
    else {
        let t = s.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies m.contains_key((#[trigger] t[i])@) by { assert(t[i] == s[i]); }
        assert forall|i: int| 0 <= i < t.len() implies no_nul((#[trigger] t[i])@) by { assert(t[i] == s[i]); }
        texts_read(d, m, t);
        assert(offs_of(s, m).drop_last() =~= offs_of(t, m));
        let l = s[s.len() - 1];
        assert(offs_of(s, m).last() == m[l@]);
        assert(m.contains_key(l@));
        at_from(d, m[l@] as int, ctext(l@));
        text_reads(l@, io::from_at(d, m[l@] + ctext(l@).len()));
        assert(utf(s) =~= utf(t).push(vstd::utf8::encode_utf8(l@)));
    }
}
pub proof fn table_reads(d: Seq<u8>, m: Map<Seq<char>, u32>, s: Seq<RefStr>, n: u32, r: Seq<u8>)
    requires mapped(d, m), covers(m, s, s.len() as int), texts_ok(s), n == s.len(),
    ensures strs_tab(d, n, enc_seq(offs_of(s, m)) + r) == Some((utf(s), r)),
{
    texts_read(d, m, s);
    u32s_fit(offs_of(s, m));
    rt_seq::<u32>(offs_of(s, m), r);
    bl::dvs_u32(offs_of(s, m));
    assert(offs_of(s, m).len() == n as nat);
}
pub proof fn record_at(c: Seq<u8>, b: int, s: Seq<Definition>, n: int, i: int)
    requires at(c, b, defs_enc(s, n)), 1 <= i < n,
    ensures at(c, b + defs_enc(s, i).len(), s[i].value.enc()),
    decreases n
{
    at_split(c, b, defs_enc(s, n - 1), s[n - 1].value.enc());
    if i < n - 1 { record_at(c, b, s, n - 1, i); }
}
pub proof fn records_read(c: Seq<u8>, b: int, hs: Seq<DefinitionHeader>, s: Seq<Definition>, n: nat)
    requires at(c, b, defs_enc(s, s.len() as int)), headers_of(hs, s, s.len() as int, b), n < s.len(),
        forall|i: int| 1 <= i < s.len() ==> (#[trigger] s[i]).value.fits() && any_ok(s[i].value),
    ensures defs_dec(c, dvs(hs), n) == Some(defs_v(s.take((n + 1) as int))),
    decreases n
{
    if n == 0 { assert(defs_v(s.take(1)) =~= seq![blank_v()]); }
    else {
        records_read(c, b, hs, s, (n - 1) as nat);
        let i = n as int;
        let d = s[i];
        record_at(c, b, s, s.len() as int, i);
        let off = b + defs_enc(s, i).len();
        assert(header_of(hs[i], s[i], off));
        at_from(c, off, d.value.enc());
        any_rt(d.value, io::from_at(c, off + d.value.enc().len()));
        assert(dvs(hs)[i] == hs[i].dv());
        assert(def_at(c, dvs(hs)[i]) == Some(def_v(d)));
        assert(defs_v(s.take((n + 1) as int)) =~= defs_v(s.take(n as int)).push(def_v(d)));
    }
}
// a saved pool loads as itself: texts by content, definitions field by field
pub proof fn pool_reads(c: Seq<u8>, p: ConstantPool, q: Parts, h: Header, start: int)
    requires placed(c, p, q, start), announced(h, p, q, start), pool_fits(p, start), pool_ok(p), start >= 0,
    ensures pool_dec(c, io::from_at(c, start), h.dv()) == Some(pool_v(p)),
{
    covers_parts(q.m, p);
    u32s_len(offs_of(p.names.strings@, q.m)); u32s_len(offs_of(p.tweakdb_ids.strings@, q.m)); u32s_len(offs_of(p.resources.strings@, q.m)); u32s_len(offs_of(p.strings.strings@, q.m));
    headers_len(q.hs);
    at_from(c, start, q.d); at_from(c, s1(p, q, start), nb(p, q)); at_from(c, s2(p, q, start), tb(p, q)); at_from(c, s3(p, q, start), rb(p, q));
    at_from(c, s4(p, q, start), enc_seq(q.hs)); at_from(c, s5(p, q, start), sb(p, q));
    let (r1, r2, r3, r4, r5, r6) = (io::from_at(c, s1(p, q, start)), io::from_at(c, s2(p, q, start)), io::from_at(c, s3(p, q, start)), io::from_at(c, s4(p, q, start)), io::from_at(c, s5(p, q, start)), io::from_at(c, s6(p, q, start)));
    let hv = h.dv();
    assert((q.d + r1).take(q.d.len() as int) =~= q.d);
    assert((q.d + r1).skip(q.d.len() as int) =~= r1);
    assert(dec_bytes(hv.data.count as nat, io::from_at(c, start)) == Some((q.d, r1)));
    table_reads(q.d, q.m, p.names.strings@, hv.names.count, r2);
    table_reads(q.d, q.m, p.tweakdb_ids.strings@, hv.tweakdb_indexes.count, r3);
    table_reads(q.d, q.m, p.resources.strings@, hv.resources.count, r4);
    rt_seq::<DefinitionHeader>(q.hs, r5);
    table_reads(q.d, q.m, p.strings.strings@, hv.strings.count, r6);
    records_read(c, s6(p, q, start), q.hs, p.definitions@, (p.definitions@.len() - 1) as nat);
    assert(p.definitions@.take(p.definitions@.len() as int) =~= p.definitions@);
    assert(dvs(q.hs).len() == p.definitions@.len());
}
#[verifier::opaque]
pub open spec fn hdec(b: Seq<u8>) -> Option<(HeaderV, Seq<u8>)> { <Header as Decode>::dec(b) }
#[verifier::opaque]
pub open spec fn henc(h: Header) -> Seq<u8> { h.enc() }
pub proof fn header_reads(h: Header, r: Seq<u8>)
    ensures hdec(henc(h) + r) == Some((h.dv(), r)), henc(h).len() == 104,
{ reveal(hdec); reveal(henc); h.rt(r); h.enc_len(); }
// a saved bundle: its header at the start, the rest behind it
pub open spec fn saved(c: Seq<u8>, b: ScriptBundle) -> bool {
    exists|h: Header, q: Parts| at(c, 0, #[trigger] henc(h)) && #[trigger] placed(c, b.pool, q, 104) && announced(h, b.pool, q, 104) && same_build(h, b.header) && sealed(h)
}
// what loading yields: the header read first, then the pool it announces
pub open spec fn loads(c: Seq<u8>) -> Option<(HeaderV, PoolV)> {
    match hdec(c) { None => None, Some((h, r)) => match pool_dec(c, r, h) { None => None, Some(p) => Some((h, p)) } }
}
pub open spec fn same_build_v(h: HeaderV, g: HeaderV) -> bool { h.version == g.version && h.flags == g.flags && h.timestamp == g.timestamp && h.unk3 == g.unk3 && h.chunks == g.chunks }
pub proof fn saved_loads(c: Seq<u8>, b: ScriptBundle)
    requires saved(c, b), pool_fits(b.pool, 104), pool_ok(b.pool),
    ensures loads(c) matches Some((h, p)) && p == pool_v(b.pool) && same_build_v(h, b.header.dv()),
{
    let (h, q) = choose|h: Header, q: Parts| at(c, 0, #[trigger] henc(h)) && #[trigger] placed(c, b.pool, q, 104) && announced(h, b.pool, q, 104) && same_build(h, b.header) && sealed(h);
    header_reads(h, io::from_at(c, 104));
    at_from(c, 0, henc(h));
    assert(io::from_at(c, 0) =~= c);
    assert(c == henc(h) + io::from_at(c, 104));
    pool_reads(c, b.pool, q, h, 104);
}
// writing the header at the front leaves the rest alone
pub proof fn front(c: Seq<u8>, p: ConstantPool, q: Parts, h: Seq<u8>)
    requires placed(c, p, q, 104), h.len() == 104,
    ensures placed(splice(c, 0, h), p, q, 104), at(splice(c, 0, h), 0, h),
{
    u32s_len(offs_of(p.names.strings@, q.m)); u32s_len(offs_of(p.tweakdb_ids.strings@, q.m)); u32s_len(offs_of(p.resources.strings@, q.m)); u32s_len(offs_of(p.strings.strings@, q.m));
    splice_put(c, 0, h);
    splice_keep(c, 0, h, 104, q.d); splice_keep(c, 0, h, s1(p, q, 104), nb(p, q)); splice_keep(c, 0, h, s2(p, q, 104), tb(p, q)); splice_keep(c, 0, h, s3(p, q, 104), rb(p, q));
    splice_keep(c, 0, h, s4(p, q, 104), enc_seq(q.hs)); splice_keep(c, 0, h, s5(p, q, 104), sb(p, q)); splice_keep(c, 0, h, s6(p, q, 104), fb(p));
}
"""


def bundle(u, mode="verify"):
    u.struct(BU, "ScriptBundle")
    u.raw(LOAD)
    u.impl(BU, "ScriptBundle", {
        "load": F("""ensures
            r matches Ok(b) ==> <Header as Decode>::dec(old(input).rest()) is Some && <Header as Decode>::dec(old(input).rest())->Some_0.0 == b.header.dv()
              && pool_dec(old(input).contents(), <Header as Decode>::dec(old(input).rest())->Some_0.1, b.header.dv()) == Some(pool_v(b.pool))
              && found(b.pool.names) && found(b.pool.tweakdb_ids) && found(b.pool.resources) && found(b.pool.strings),
            old(input).pos() == 0 ==> (r matches Ok(b) ==> loads(old(input).contents()) == Some((b.header.dv(), pool_v(b.pool)))),
            old(input).pos() == 0 && old(input).reliable() && loads(old(input).contents()) is Some ==> r is Ok,""",
            pre="proof { reveal(hdec); assert(old(input).contents().skip(0) =~= old(input).contents()); }"),
    }, mode=mode)
    u.raw("""pub mod whole {
use vstd::prelude::*;
use super::*;
    broadcast use { io::axiom_ws, io::axiom_small, lay::splice_more };""")
    u.impl(BU, "ScriptBundle", {
        "save": F("""requires old(output).wf(), pool_fits(self.pool, 104),
            ensures r is Ok ==> saved(final(output).contents(), *self),
              old(output).steady() ==> r is Ok,""",
            after=[(r"^let header = self", "let ghost cc = output.contents(); let ghost q = choose|q: Parts| #[trigger] placed(cc, self.pool, q, 104) && announced(header, self.pool, q, 104); proof { reveal(henc); header.enc_len(); front(cc, self.pool, q, header.enc()); }"),
                   (r"^output . encode", "assert(output.contents() == splice(cc, 0, header.enc())); assert(at(output.contents(), 0, henc(header))); assert(placed(output.contents(), self.pool, q, 104));")]),
    }, mode=mode)
    u.raw("}")


def build(repo):
    u = Unit("bundle", repo)
    instr.base(u, seek=True)
    instr.stubs(u, ["CName", "Resource", "TweakDbId"])
    u.raw(contract_file("refstr.rs"))
    u.raw(contract_file("layout.rs"))
    u.raw("pub use io::Seek;\npub use io::Write as IoWrite;\nglobal size_of usize == 8;\nbroadcast use io::axiom_ws;\nbroadcast use io::axiom_rs;\nbroadcast use io::axiom_small;")
    instr.pool_index(u, "assume")
    u.raw("""pub mod bl {
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use super::*;
pub broadcast proof fn u32_into(x: u32)
    ensures <u32 as IntoSpec<u32>>::obeys_into_spec(), #[trigger] <u32 as IntoSpec<u32>>::into_spec(x) == x,
{ broadcast use axiom_u32_into_u32; }
pub broadcast proof fn dec_seq_len<A: Decode>(n: nat, b: Seq<u8>)
    ensures (#[trigger] dec_seq::<A>(n, b)) matches Some((s, _)) ==> s.len() == n,
    decreases n
{ if n > 0 { dec_seq_len::<A>((n - 1) as nat, b); } }
pub broadcast proof fn dvs_u32(s: Seq<u32>)
    ensures #[trigger] dvs::<u32>(s) == s,
{ assert(dvs::<u32>(s) =~= s); }
}
""")
    u.raw("#[verifier::external_body]\n#[derive(Debug)]\npub struct OutOfBounds { _p: () }\n#[verifier::external_body]\n#[derive(Debug)]\npub struct InvalidBitPattern { _p: () }")
    defs.byte_enum(u, "DefinitionType", "assume")
    records.records(u, "assume")
    records.sizes(u)
    strings.pool_error(u)
    strings.kinds(u)
    strings.strings(u, "assume")
    any_stub(u)
    u.struct(BU, "ConstantPool")
    stream(u)
    u.raw(SPEC)
    strings_codec(u)
    pool_codec(u)
    bundle(u)
    return u
