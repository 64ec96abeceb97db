"""contracts for CodeCursor and CodeIter (core/src/bytecode.rs)"""
from vgen import Unit, F, L
import instr
import codebody as code
from instr import B

SPEC = """
pub use core::cmp::Ordering;

// derived Clone on instructions copies them (Loc is Offset or Label, both Copy)
impl<Loc: Clone> Clone for Instr<Loc> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

pub broadcast axiom fn axiom_instr_cloned<Loc: Clone>(a: Instr<Loc>, b: Instr<Loc>)
    requires #[trigger] vstd::pervasive::cloned(a, b),
    ensures a == b;

#[verifier::external_body]
pub fn slice_uncons<T>(s: &[T]) -> (r: Option<(&T, &[T])>)
    ensures
        r is None <==> s@.len() == 0,
        r matches Some((h, t)) ==> *h == s@[0] && t@ == s@.skip(1),
{ s.split_first() }

pub open spec fn ord_is(o: Ordering, a: int, b: int) -> bool {
    (a < b ==> o == Ordering::Less) && (a == b ==> o == Ordering::Equal) && (a > b ==> o == Ordering::Greater)
}

// <[u16]>::binary_search_by (std) on a slice sorted with respect to the comparator
#[verifier::external_body]
pub fn bin_search<F: Fn(&u16) -> Ordering>(s: &Vec<u16>, f: F, key: Ghost<int>) -> (r: Result<usize, usize>)
    requires
        forall|x: u16| f.requires((&x,)),
        forall|x: u16, o: Ordering| #[trigger] f.ensures((&x,), o) ==> ord_is(o, x as int, key@),
        forall|i: int, j: int| 0 <= i < j < s@.len() ==> #[trigger] s@[i] <= #[trigger] s@[j],
    ensures
        r matches Ok(k) ==> k < s@.len() && s@[k as int] == key@,
        r is Err ==> forall|i: int| 0 <= i < s@.len() ==> #[trigger] s@[i] != key@,
{ s.binary_search_by(f) }

// byte position of instruction k
pub open spec fn pos_of<L>(s: Seq<Instr<L>>, k: int) -> int { code_size(s.take(k)) }

pub open spec fn solid<L>(s: Seq<Instr<L>>) -> bool { forall|i: int| 0 <= i < s.len() ==> !(#[trigger] s[i] is Target) }

pub proof fn pos_strict<L>(s: Seq<Instr<L>>, a: int, b: int)
    requires 0 <= a <= b <= s.len(),
    ensures pos_of(s, a) <= pos_of(s, b), solid(s) && a < b ==> pos_of(s, a) < pos_of(s, b),
    decreases b - a
{
    if a < b { code_size_step(s, b - 1); pos_strict(s, a, b - 1); assert(s[b-1] is Target || !(s[b-1] is Target)); }
}

pub open spec fn cur_wf<L>(c: CodeCursor<L>) -> bool {
    &&& c.index <= c.code@.len() <= usize::MAX
    &&& c.offsets@.len() == c.code@.len()
    &&& pos_of(c.code@, c.code@.len() as int) <= 65535
    &&& forall|i: int| 0 <= i < c.offsets@.len() ==> #[trigger] c.offsets@[i] as int == pos_of(c.code@, i + 1)
}

// a position that is not one is not reported as the end of the code
pub open spec fn no_end<T>(r: Result<T, CursorError>) -> bool { r matches Err(e) ==> !(e is EndOfCode) }
// an instruction boundary
pub open spec fn boundary<L>(s: Seq<Instr<L>>, p: int) -> bool { exists|k: int| 0 <= k <= s.len() && #[trigger] pos_of(s, k) == p }
"""


def cursor(u, mode="verify"):
    u.raw(SPEC)
    u.enum(B, "CursorError")
    u.struct(B, "CodeCursor", rw=())
    u.struct(B, "CodeIter")
    u.raw("""impl Location {
    pub const MAX: Location = Location { value: 65535 };
    pub const ZERO: Location = Location { value: 0 };
}
pub broadcast axiom fn axiom_ord()
    ensures true;
""".replace("pub broadcast axiom fn axiom_ord()\n    ensures true;\n", ""))
    WF = "cur_wf(*self),"
    FR = "final(self).code == old(self).code, final(self).offsets == old(self).offsets, cur_wf(*final(self)),"
    KEEP = "r is Err ==> *final(self) == *old(self),"
    u.impl(B, "CodeCursor<'a, Loc>", {
        "new": F("""requires pos_of(code@, code@.len() as int) <= 65535,
            ensures r.code == code, r.index == 0, cur_wf(r),""",
            pre="proof { assert(code@.take(0) =~= Seq::<Instr<Loc>>::empty()); }",
            loops=[L("for", """
              offsets@.len() == it.index@,
              pos_of(code@, code@.len() as int) <= 65535,
              size as int == pos_of(code@, it.index@ as int),
              forall|i: int| 0 <= i < offsets@.len() ==> #[trigger] offsets@[i] as int == pos_of(code@, i + 1)""", it="it",
              start="proof { code_size_step(code@, it.index@ as int); pos_strict(code@, it.index@ as int + 1, code@.len() as int); }")]),
        "pop": F("""requires cur_wf(*old(self)),
            ensures %s
              old(self).index < old(self).code@.len() ==> r == Ok::<Instr<Loc>, CursorError>(old(self).code@[old(self).index as int]) && final(self).index == old(self).index + 1,
              old(self).index >= old(self).code@.len() ==> r == Err::<Instr<Loc>, CursorError>(CursorError::EndOfCode) && final(self).index == old(self).index,""" % FR),
        "peek": F("""requires cur_wf(*self),
            ensures self.index < self.code@.len() ==> r == Some(self.code@[self.index as int]),
              self.index >= self.code@.len() ==> r is None,""", pre="broadcast use axiom_instr_cloned;"),
        "pos": F("requires cur_wf(*self), ensures r.value as int == pos_of(self.code@, self.index as int),",
                 pre="proof { assert(self.code@.take(0) =~= Seq::<Instr<Loc>>::empty()); }"),
        "range": F("""requires cur_wf(*self), solid(self.code@), from.value <= to.value,
            ensures
              r matches Ok(it) ==> it.offset == from.value && boundary(self.code@, from.value as int) && boundary(self.code@, to.value as int)
                && (exists|a: int, b: int| 0 <= a <= b <= self.code@.len() && pos_of(self.code@, a) == from.value && pos_of(self.code@, b) == to.value && it.slice@ == #[trigger] self.code@.subrange(a, b)),
              boundary(self.code@, from.value as int) && boundary(self.code@, to.value as int) ==> r is Ok, no_end(r),""",
              rw=[("&self.code[start..end]", "{ proof { range_order(*self, start as int, end as int); } slice_range(self.code, start, end) }")]),
        "seek_abs": F("""requires cur_wf(*old(self)), solid(old(self).code@),
            ensures %s %s no_end(r),
              r is Ok <==> boundary(old(self).code@, position.value as int),
              r is Ok ==> pos_of(old(self).code@, final(self).index as int) == position.value,""" % (FR, KEEP)),
        "seek_rel": F("""requires cur_wf(*old(self)), solid(old(self).code@),
            ensures %s %s no_end(r),
              r is Ok ==> pos_of(old(self).code@, final(self).index as int) == wrap16(pos_of(old(self).code@, old(self).index as int) + offset.value),
              r is Ok <==> boundary(old(self).code@, wrap16(pos_of(old(self).code@, old(self).index as int) + offset.value)),""" % (FR, KEEP)),
        "get_index": F("""requires cur_wf(*self), solid(self.code@),
            ensures
              r matches Ok(k) ==> k <= self.code@.len() && pos_of(self.code@, k as int) == position.value,
              r is Err ==> !boundary(self.code@, position.value as int),
              r is Ok ==> boundary(self.code@, position.value as int), no_end(r),""",
              pre="""proof { assert(self.code@.take(0) =~= Seq::<Instr<Loc>>::empty()); assert(pos_of(self.code@, 0) == 0);
                assert forall|i: int, j: int| 0 <= i < j < self.offsets@.len() implies #[trigger] self.offsets@[i] < #[trigger] self.offsets@[j] by { pos_strict(self.code@, i + 1, j + 1); }
                assert forall|k: int| 0 < k <= self.code@.len() implies #[trigger] pos_of(self.code@, k) == self.offsets@[k - 1] by {}
              }""",
              rw=[("self.offsets.binary_search_by(|$x| $b)", "bin_search(&self.offsets, |$x: &u16| -> (o: Ordering) ensures ord_is(o, *$x as int, position.value as int) { $b }, Ghost(position.value as int))"),
                  ("map_err(|_| $e)", "map_err(|_e| -> (o: CursorError) ensures !(o is EndOfCode) { $e })")]),
    }, mode=mode)
    u.raw("""
#[verifier::external_body]
pub fn slice_range<T>(s: &[T], a: usize, b: usize) -> (r: &[T])
    requires a <= b <= s@.len(),
    ensures r@ == s@.subrange(a as int, b as int),
{ &s[a..b] }

pub proof fn range_order<L>(c: CodeCursor<L>, a: int, b: int)
    requires cur_wf(c), solid(c.code@), 0 <= a <= c.code@.len(), 0 <= b <= c.code@.len(), pos_of(c.code@, a) <= pos_of(c.code@, b),
    ensures a <= b,
{
    if b < a { pos_strict(c.code@, b, a); }
}
""")
    u.impl(B, "CodeIter<'a, Loc>", {
        "new": F("ensures r.slice == code, r.offset == 0,"),
        "new_at": F("ensures r.slice == code, r.offset == loc.value,"),
    }, mode=mode)
    # Iterator::next under contract as a free-standing inherent function (vstd has its own Iterator contract)
    it = u.src(B).impl_with("Iterator for CodeIter<'a, Loc>", "next").child("fn", "next")
    f = F("""requires old(self).offset + code_size(old(self).slice@) <= 65535,
        ensures
          old(self).slice@.len() == 0 ==> r is None && *final(self) == *old(self),
          old(self).slice@.len() > 0 ==> r is Some && r.unwrap().0.value == old(self).offset && r.unwrap().1 == old(self).slice@[0]
            && final(self).slice@ == old(self).slice@.skip(1) && final(self).offset == old(self).offset + instr_size(old(self).slice@[0]),
          final(self).offset + code_size(final(self).slice@) == old(self).offset + code_size(old(self).slice@),""",
          pre="proof { if self.slice@.len() > 0 { code_size_front(self.slice@); } }",
          rw=[("if let [$h, $t @ ..] = self.slice", "if let Some(($h, $t)) = slice_uncons(self.slice)")],
          sig_rw=[("Option<Self::Item>", "Option<(Location, Instr<Loc>)>")])
    try:
        txt = u.fn_text(it, f, B + "::<Iterator for CodeIter<'a, Loc>>::next")
    except Exception:
        raise
    u.raw("""pub proof fn code_size_front<L>(s: Seq<Instr<L>>)
    requires s.len() > 0,
    ensures code_size(s) == instr_size(s[0]) + code_size(s.skip(1)), code_size(s.skip(1)) >= 0,
    decreases s.len()
{
    code_size_mono(s.skip(1), 0);
    if s.len() == 1 {
        assert(s.skip(1) =~= Seq::<Instr<L>>::empty());
        assert(s.drop_last() =~= Seq::<Instr<L>>::empty());
    } else {
        code_size_front(s.drop_last());
        assert(s.drop_last().skip(1) =~= s.skip(1).drop_last());
        assert(s.skip(1).last() == s.last());
        assert(s.drop_last()[0] == s[0]);
    }
}
impl<'a, Loc: Clone> CodeIter<'a, Loc> {
%s
}""" % txt)
    u.impl(B, "Code<Loc>", {
        "cursor": F("requires pos_of(self.0@, self.0@.len() as int) <= 65535, ensures r.code@ == self.0@, r.index == 0, cur_wf(r),"),
        "iter": F("ensures r.slice@ == self.0@, r.offset == 0,"),
    }, mode=mode)


def build(repo):
    u = Unit("cursor", repo)
    instr.base(u)
    instr.stubs(u, code.POOLED)
    instr.pool_index(u, "assume")
    instr.small(u, "assume")
    instr.instr_types(u)
    code.sizes(u, "assume")
    u.struct(B, "Code")
    cursor(u)
    return u
