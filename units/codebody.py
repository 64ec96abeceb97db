"""contracts for code bodies, instruction sizes, label resolution, cursors (core/src/bytecode.rs)"""
from vgen import Unit, F, L
import instr
from instr import B, names, rust_type
from optable import TABLE, mem

POOLED = ["CName", "Resource", "TweakDbId", "Class", "Enum", "Field", "Function", "Local", "Parameter", "Type"]

# iterator-sum as the loop it abbreviates (std::iter::Sum for u32: left fold of + from 0)
SUM = [("self.0.iter().map(|$x| $b).sum()", "{ let mut acc: u32 = 0; for $x in self.0.iter() { acc = acc + $b; } acc }")]


def sizes(u, mode="verify"):
    rows = []
    for n, c, ops in TABLE:
        ns = names(ops)
        pat = "Instr::%s%s" % (n, "(%s)" % ", ".join("_" if k != "PROF" else "a0" for k in ops) if ops else "")
        if n == "Target":
            v = "0"
        elif "PROF" in ops:
            v = "prof_size(vstd::utf8::encode_utf8((*a0).0@).len())"
        else:
            v = str(1 + sum(mem(k) for k in ops))
        rows.append("        %s => %s," % (pat, v))
    u.raw("""// in-memory size of an instruction: opcode byte plus operands
pub open spec fn instr_size<L>(i: Instr<L>) -> int {
    match i {
%s
    }
}

pub open spec fn prof_size(n: nat) -> int { if n + 6 <= 65535 { n as int + 6 } else { 65535 } }

pub open spec fn code_size<L>(s: Seq<Instr<L>>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { code_size(s.drop_last()) + instr_size(s.last()) }
}

pub assume_specification[ String::len ](s: &String) -> (n: usize)
    ensures n == vstd::utf8::encode_utf8(s@).len();

pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](r: Result<T, E>, d: T) -> (x: T)
    ensures x == (match r { Ok(v) => v, Err(_) => d });
""" % "\n".join(rows))
    u.impl(B, "Instr<L>", {"size": F("ensures r as int == instr_size(*self),", sig_rw=[])}, mode=mode)
    u.raw("""
pub proof fn code_size_mono<L>(s: Seq<Instr<L>>, n: int)
    requires 0 <= n <= s.len(),
    ensures 0 <= code_size(s.take(n)) <= code_size(s),
    decreases s.len()
{
    if n < s.len() {
        code_size_mono(s.drop_last(), n);
        assert(s.drop_last().take(n) =~= s.take(n));
    } else {
        assert(s.take(n) =~= s);
        if n > 0 { code_size_mono(s.drop_last(), n - 1); assert(s.drop_last().take(n-1) =~= s.drop_last()); }
    }
}

pub proof fn code_size_step<L>(s: Seq<Instr<L>>, n: int)
    requires 0 <= n < s.len(),
    ensures code_size(s.take(n + 1)) == code_size(s.take(n)) + instr_size(s[n]),
{
    assert(s.take(n + 1).drop_last() =~= s.take(n));
}
""")


def small(u, mode="verify"):
    u.impl(B, "Code<Loc>", {
        "new": F("ensures r.0@ == code@,"),
        "is_empty": F("ensures r == (self.0@.len() == 0),"),
        "len": F("ensures r == self.0@.len(),"),
    }, mode=mode)


def codebody(u, mode="verify"):
    u.struct(B, "Code")
    small(u, mode)
    rows = []
    for n, c, ops in TABLE:
        pat = "InstrV::%s%s" % (n, "(%s)" % ", ".join("_" if k != "PROF" else "a0" for k in ops if k != "T") if [k for k in ops if k != "T"] else "")
        v = "0" if n == "Target" else "prof_size(a0.0.len())" if "PROF" in ops else str(1 + sum(mem(k) for k in ops))
        rows.append("        %s => %s," % (pat, v))
    u.raw("""pub open spec fn v_size(i: InstrV) -> int {
    match i {
%s
    }
}

// decode instructions until their sizes add up to the recorded code size
pub open spec fn dec_code(done: int, max: int, b: Seq<u8>) -> Option<(Seq<InstrV>, Seq<u8>)>
    decreases b.len()
{
    if done >= max { Some((Seq::<InstrV>::empty(), b)) }
    else {
        match <Instr<Offset> as Decode>::dec(b) {
            None => None,
            Some((i, r)) =>
                if r.len() >= b.len() { None }
                else {
                    match dec_code(done + v_size(i), max, r) { None => None, Some((s, r2)) => Some((seq![i] + s, r2)) }
                }
        }
    }
}

pub open spec fn no_target(s: Seq<Instr<Offset>>) -> bool { forall|i: int| 0 <= i < s.len() ==> !(#[trigger] s[i] is Target) }

// decoding consumes at least the opcode byte
pub proof fn dec_shrinks(b: Seq<u8>)
    ensures <Instr<Offset> as Decode>::dec(b) matches Some((i, r)) ==> r.len() < b.len(),
{ dec_consumes(b); }

pub proof fn view_size(i: Instr<Offset>)
    ensures v_size(instr_view(i)) == instr_size(i),
{}
""" % "\n".join(rows))
    # consumption: each operand decode does not grow the rest
    u.raw("""
pub proof fn prim_shrinks()
    ensures
        forall|b: Seq<u8>| (#[trigger] <u8 as Decode>::dec(b)) matches Some((v, r)) ==> r.len() < b.len(),
        forall|b: Seq<u8>| (#[trigger] <i8 as Decode>::dec(b)) matches Some((v, r)) ==> r.len() < b.len(),
%s
        forall|b: Seq<u8>| (#[trigger] <Offset as Decode>::dec(b)) matches Some((v, r)) ==> r.len() < b.len(),
        forall|b: Seq<u8>| (#[trigger] <Breakpoint as Decode>::dec(b)) matches Some((v, r)) ==> r.len() < b.len(),
        forall|b: Seq<u8>| (#[trigger] <StartProfiling as Decode>::dec(b)) matches Some((v, r)) ==> r.len() < b.len(),
{
%s
}
""" % ("\n".join("        forall|b: Seq<u8>| (#[trigger] <%s as Decode>::dec(b)) matches Some((v, r)) ==> r.len() < b.len()," % t for t in ("i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64")),
       "\n".join("    reveal(dec_%s);" % t for t in ("i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64"))))
    u.raw("""
pub proof fn dec_consumes(b: Seq<u8>)
    ensures <Instr<Offset> as Decode>::dec(b) matches Some((i, r)) ==> r.len() < b.len(),
{
    prim_shrinks();
    if let Some((c, r0)) = <u8 as Decode>::dec(b) { op_shrinks(c, r0); }
}
""")
    u.raw("""pub proof fn op_shrinks(c: u8, r0: Seq<u8>)
    ensures instr_dec(c, r0) matches Some((i, r)) ==> r.len() <= r0.len(),
{
    prim_shrinks();
    lemma_bad_op();
    if c > 103 { }
%s
}""" % "\n".join("    else if c == %d { dec_op_%d(r0); }" % (c, c) for _, c, _ in TABLE))
    u.impl(B, "Decode for Code<Offset>", {"decode": F(
        loops=[L("while", """
            input.src() == old(input).src(), input.reliable() == old(input).reliable(),
            <u32 as Decode>::dec(old(input).rest()) == Some((max_offset, start)),
            forall|x: Seq<InstrV>, r: Seq<u8>| dec_code(0, max_offset as int, start) == Some((x, r)) ==>
                #[trigger] dec_code(offset as int, max_offset as int, input.rest()) is Some,
            dec_code(offset as int, max_offset as int, input.rest()) matches Some((x, r)) ==>
                dec_code(0, max_offset as int, start) == Some((ivs(code@) + x, r)),
            dec_code(offset as int, max_offset as int, input.rest()) is None ==> dec_code(0, max_offset as int, start) is None,
            """, dec="input.rest().len()", pre="let ghost start = input.rest(); proof { assert(ivs(code@) =~= Seq::<InstrV>::empty()); }",
            start="""let ghost o0 = offset as int; let ghost c0 = code@; let ghost b0 = input.rest(); proof { dec_shrinks(b0); }""",
            post="""proof {
                let i = code@.last();
                view_size(i);
                assert(code@.drop_last() =~= c0);
                sat_dec_code(o0, offset as int, v_size(instr_view(i)), max_offset as int, input.rest());
                assert(ivs(code@) =~= ivs(c0) + seq![instr_view(i)]);
            }""")],
        rw=[("u32::saturating_add($a, $b)", "sat_add($a, $b)")] )}, mode=mode, extra="""    type V = Seq<InstrV>;
    open spec fn dv(self) -> Seq<InstrV> { ivs(self.0@) }
    open spec fn dec(b: Seq<u8>) -> Option<(Seq<InstrV>, Seq<u8>)> {
        match <u32 as Decode>::dec(b) { None => None, Some((n, r)) => dec_code(0, n as int, r) }
    }""")
    u.raw("""
pub open spec fn ivs(s: Seq<Instr<Offset>>) -> Seq<InstrV> { s.map_values(|i: Instr<Offset>| instr_view(i)) }

pub fn sat_add(a: u32, b: u32) -> (r: u32)
    ensures r as int == (if a + b <= 0xffff_ffff { a + b } else { 0xffff_ffff }),
{ a.saturating_add(b) }

// past the recorded size it does not matter by how much
pub proof fn sat_dec_code(o0: int, o1: int, d: int, max: int, b: Seq<u8>)
    requires o1 == o0 + d || (o0 + d >= max && o1 >= max),
    ensures dec_code(o1, max, b) == dec_code(o0 + d, max, b),
{}
""")
    u.impl(B, "Encode for Code<Offset>", {"encode": F(rw=SUM,
        pre="proof { assert(self.0@.take(0) =~= Seq::<Instr<Offset>>::empty()); assert(self.0@.take(self.0@.len() as int) =~= self.0@); }",
        loops=[L("for", "acc as int == code_size(self.0@.take(it.index@ as int)), code_size(self.0@) < 0x1_0000_0000", it="it",
                 start="proof { code_size_step(self.0@, it.index@ as int); code_size_mono(self.0@, it.index@ as int + 1); }"),
               L("for", """output.wf(), output.base() == old(output).base(), output.reliable() == old(output).reliable(), output.tok() == old(output).tok(), fits_seq(self.0@),
                 self.0@.take(self.0@.len() as int) == self.0@,
                 output.written() == old(output).written() + (size.enc() + enc_seq(self.0@.take(it.index@ as int)))""", it="it",
                 start="proof { assert(self.0@.take(it.index@ as int + 1).drop_last() =~= self.0@.take(it.index@ as int)); }")])},
        mode=mode, extra="""    open spec fn fits(&self) -> bool { fits_seq(self.0@) && code_size(self.0@) < 0x1_0000_0000 }
    open spec fn enc(&self) -> Seq<u8> { (code_size(self.0@) as u32).enc() + enc_seq(self.0@) }""")
    u.raw("""
pub proof fn rt_code(s: Seq<Instr<Offset>>, k: int, r: Seq<u8>)
    requires 0 <= k <= s.len(), fits_seq(s), no_target(s),
    ensures dec_code(code_size(s.take(k)), code_size(s), enc_seq(s.skip(k)) + r) == Some((ivs(s.skip(k)), r)),
    decreases s.len() - k
{
    if k < s.len() {
        let i = s[k];
        code_size_step(s, k);
        code_size_mono(s, k + 1);
        view_size(i);
        rt_code(s, k + 1, r);
        enc_seq_front(s.skip(k));
        assert(s.skip(k)[0] == i);
        assert(s.skip(k).skip(1) =~= s.skip(k + 1));
        i.rt(enc_seq(s.skip(k + 1)) + r);
        assert(!(s[k] is Target));
        let b = enc_seq(s.skip(k)) + r;
        assert(b =~= i.enc() + (enc_seq(s.skip(k + 1)) + r));
        dec_shrinks(b);
        assert(ivs(s.skip(k)) =~= seq![instr_view(i)] + ivs(s.skip(k + 1)));
    } else {
        assert(s.take(k) =~= s);
        assert(s.skip(k) =~= Seq::<Instr<Offset>>::empty());
        assert(ivs(s.skip(k)) =~= Seq::<InstrV>::empty());
        assert(enc_seq(s.skip(k)) + r =~= r);
    }
}

pub proof fn enc_seq_front<A: Encode>(s: Seq<A>)
    requires s.len() > 0,
    ensures enc_seq(s) == s[0].enc() + enc_seq(s.skip(1)),
    decreases s.len()
{
    if s.len() == 1 {
        assert(s.drop_last() =~= Seq::<A>::empty());
        assert(s.skip(1) =~= Seq::<A>::empty());
        assert(enc_seq(s) =~= s[0].enc() + enc_seq(s.skip(1)));
    } else {
        enc_seq_front(s.drop_last());
        assert(s.drop_last().skip(1) =~= s.skip(1).drop_last());
        assert(s.skip(1).last() == s.last());
        assert(s.drop_last()[0] == s[0]);
    }
}

impl Rt for Code<Offset> {
    // Target is a compile-time marker: it never occurs in code that is written out
    open spec fn ok(&self) -> bool { no_target(self.0@) }
    proof fn rt(&self, r: Seq<u8>) {
        let s = self.0@;
        let n = code_size(s) as u32;
        code_size_mono(s, 0);
        assert(s.take(0) =~= Seq::<Instr<Offset>>::empty());
        assert(s.skip(0) =~= s);
        n.rt(enc_seq(s) + r);
        rt_code(s, 0, r);
    }
}
""")


def resolve(u, mode="verify"):
    pre, res = [], []
    for n, c, ops in TABLE:
        ns = names(ops)
        pat = "Instr::%s%s" % (n, "(%s)" % ", ".join(ns) if ops else "")
        labs = [x for k, x in zip(ops, ns) if k[0] == "O" or k == "T"]
        if labs:
            pre.append("        %s => %s," % (pat, " && ".join("%s.index < n" % x for x in labs)))
        bs = ["b%d" % i for i in range(len(ops))]
        conj = []
        for k, x, y in zip(ops, ns, bs):
            if k[0] == "O" or k == "T":
                conj.append("wrap16(location.value + %s.value) == targets[%s.index as int].value as int" % (y, x))
            else:
                conj.append("%s == %s" % (x, y))
        res.append("        %s => r matches Instr::%s%s && %s," % (pat, n, "(%s)" % ", ".join(bs) if ops else "", " && ".join(conj)) if ops else "        %s => r is %s," % (pat, n))
    u.raw("""pub open spec fn labels_in(i: Instr<Label>, n: nat) -> bool {
    match i {
%s
        _ => true,
    }
}
// r is i with every label replaced by the distance from `location` to that label's target, everything else kept
pub open spec fn resolved(i: Instr<Label>, location: Location, targets: Seq<Location>, r: Instr<Offset>) -> bool {
    match i {
%s
    }
}

pub proof fn resolve_keeps_size(i: Instr<Label>, location: Location, targets: Seq<Location>, r: Instr<Offset>)
    requires resolved(i, location, targets, r),
    ensures instr_size(r) == instr_size(i),
{}
""" % ("\n".join(pre), "\n".join(res)))
    u.impl(B, "Instr<Label>", {"resolve_labels": F("requires labels_in(self, targets@.len()), ensures resolved(self, location, targets@, r),",
                                                   attrs="#[verifier::spinoff_prover]")}, mode=mode)


def build(repo):
    u = Unit("code", repo)
    instr.base(u)
    instr.stubs(u, POOLED)
    instr.pool_index(u, "assume")
    instr.small(u, "assume")
    instr.instr_types(u)
    instr.instr_codec(u, "assume")
    sizes(u)
    codebody(u)
    resolve(u)
    return u
