// ===== stand-ins for std::io and byteorder: contracts ASSUMED (no bodies) =====
pub open spec fn le(v: nat, n: nat) -> Seq<u8>
    decreases n
{
    if n == 0 { Seq::<u8>::empty() } else { seq![(v % 256) as u8] + le(v / 256, (n - 1) as nat) }
}

pub open spec fn de(s: Seq<u8>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { s[0] as nat + 256 * de(s.skip(1)) }
}

pub open spec fn rev(s: Seq<u8>) -> Seq<u8> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }

// two's complement image of a signed integer in `m` = 2^bits
pub open spec fn tc(v: int, m: int) -> nat { if v < 0 { (v + m) as nat } else { v as nat } }
pub open spec fn untc(v: nat, m: int) -> int { if v >= m / 2 { v - m } else { v as int } }

pub uninterp spec fn f32_bits(f: f32) -> u32;
pub uninterp spec fn f64_bits(f: f64) -> u64;

pub mod spl {
use vstd::prelude::*;
#[verifier::opaque]
pub open spec fn splice(c: Seq<u8>, p: nat, w: Seq<u8>) -> Seq<u8> {
    if w.len() == 0 { c }
    else if p <= c.len() { c.take(p as int) + w + (if p + w.len() <= c.len() { c.skip((p + w.len()) as int) } else { Seq::<u8>::empty() }) }
    else { c + Seq::new((p - c.len()) as nat, |i: int| 0u8) + w }
}
}
pub use spl::splice;

pub mod io {
    use vstd::prelude::*;
    use super::spl::splice;

    #[verifier::external_body]
    pub struct Error { _p: () }

    pub enum ErrorKind { InvalidData, InvalidInput, UnexpectedEof, Other, Unsupported, NotFound }

    impl Error {
        #[verifier::external_body]
        pub fn new<E>(kind: ErrorKind, error: E) -> Self { unimplemented!() }
        #[verifier::external_body]
        pub fn other<E>(error: E) -> Self { unimplemented!() }
        #[verifier::external_body]
        pub fn from_kind(kind: ErrorKind) -> Self { unimplemented!() }
    }

    pub type Result<T> = core::result::Result<T, Error>;

    pub trait Write: Sized {
        // (contents, position) at the last seek, and the bytes written since
        spec fn base(&self) -> (Seq<u8>, nat);
        spec fn written(&self) -> Seq<u8>;
        // a sink that does not fail (a Vec, a file on a healthy disk)
        spec fn reliable(&self) -> bool;
        spec fn wf(&self) -> bool;
        // whatever else writing leaves alone (for an adapter: its own state, the borrow it holds)
        type Tok;
        #[verifier::prophetic]
        spec fn tok(&self) -> Self::Tok;

        fn write(&mut self, buf: &[u8]) -> (r: Result<usize>)
            requires old(self).wf(),
            ensures
                final(self).wf(), final(self).base() == old(self).base(), final(self).reliable() == old(self).reliable(), final(self).tok() == old(self).tok(),
                r matches Ok(n) ==> n <= buf@.len() && final(self).written() == old(self).written() + buf@.take(n as int),
                r is Err ==> final(self).written() == old(self).written();

        fn flush(&mut self) -> (r: Result<()>)
            requires old(self).wf(),
            ensures final(self).wf(), final(self).base() == old(self).base(), final(self).written() == old(self).written(),
                final(self).reliable() == old(self).reliable(), final(self).tok() == old(self).tok();

        fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>)
            requires old(self).wf(),
            ensures
                final(self).wf(), final(self).base() == old(self).base(), final(self).reliable() == old(self).reliable(), final(self).tok() == old(self).tok(),
                r is Ok ==> final(self).written() == old(self).written() + buf@,
                old(self).reliable() ==> r is Ok;
    }

    pub trait Read: Sized {
        spec fn src(&self) -> Seq<u8>;      // the whole stream
        spec fn rest(&self) -> Seq<u8>;     // what is left of it
        spec fn reliable(&self) -> bool;

        fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>)
            ensures
                final(self).src() == old(self).src(), final(self).reliable() == old(self).reliable(),
                final(buf)@.len() == old(buf)@.len(),
                r matches Ok(n) ==> n <= old(buf)@.len() && n <= old(self).rest().len()
                    && final(buf)@ == old(self).rest().take(n as int) + old(buf)@.skip(n as int)
                    && final(self).rest() == old(self).rest().skip(n as int);

        fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<()>)
            ensures
                final(self).src() == old(self).src(), final(self).reliable() == old(self).reliable(),
                final(buf)@.len() == old(buf)@.len(),
                r is Ok ==> old(buf)@.len() <= old(self).rest().len()
                    && final(buf)@ == old(self).rest().take(old(buf)@.len() as int)
                    && final(self).rest() == old(self).rest().skip(old(buf)@.len() as int),
                old(self).reliable() && old(buf)@.len() <= old(self).rest().len() ==> r is Ok;
    }
//@seek
}

#[verifier::prophetic]
pub open spec fn wrote<O: io::Write>(o: O, f: O, r: io::Result<()>, bytes: Seq<u8>) -> bool {
    &&& f.wf() && f.base() == o.base() && f.reliable() == o.reliable() && f.tok() == o.tok()
    &&& r is Ok ==> f.written() == o.written() + bytes
    &&& o.reliable() ==> r is Ok
}

pub open spec fn took<I: io::Read, A, V>(o: I, f: I, r: io::Result<A>, d: Option<(V, Seq<u8>)>, view: spec_fn(A) -> V) -> bool {
    &&& f.src() == o.src() && f.reliable() == o.reliable()
    &&& r matches Ok(v) ==> d == Some((view(v), f.rest()))
    &&& o.reliable() && d is Some ==> r is Ok
}

pub trait ByteOrder { spec fn ord(s: Seq<u8>) -> Seq<u8>; }
pub struct LittleEndian;
pub struct BigEndian;
impl ByteOrder for LittleEndian { open spec fn ord(s: Seq<u8>) -> Seq<u8> { s } }
impl ByteOrder for BigEndian { open spec fn ord(s: Seq<u8>) -> Seq<u8> { rev(s) } }
pub type LE = LittleEndian;
pub type BE = BigEndian;
pub type NetworkEndian = BigEndian;
pub type NativeEndian = LittleEndian;

pub mod lem {
use vstd::prelude::*;
use super::*;

pub broadcast proof fn seq_assoc<A>(a: Seq<A>, b: Seq<A>, c: Seq<A>)
    ensures #[trigger] ((a + b) + c) == a + (b + c),
{
    assert(((a + b) + c) =~= (a + (b + c)));
}

pub broadcast proof fn seq_empty_r<A>(a: Seq<A>)
    ensures #[trigger] (a + Seq::<A>::empty()) == a,
{
    assert((a + Seq::<A>::empty()) =~= a);
}

pub broadcast proof fn seq_empty_l<A>(a: Seq<A>)
    ensures #[trigger] (Seq::<A>::empty() + a) == a,
{
    assert((Seq::<A>::empty() + a) =~= a);
}

pub broadcast group group_seq { seq_assoc, seq_empty_r, seq_empty_l }
}
pub use lem::*;
broadcast use lem::group_seq;
