// ===== bytes at a place =====
pub mod lay {
use vstd::prelude::*;
use super::*;
use super::io::from_at;

pub open spec fn at(c: Seq<u8>, p: int, w: Seq<u8>) -> bool { 0 <= p && p + w.len() <= c.len() && c.subrange(p, p + w.len()) == w }

pub proof fn splice_put(c: Seq<u8>, p: nat, w: Seq<u8>)
    requires w.len() > 0 || p <= c.len(),
    ensures at(splice(c, p, w), p as int, w), splice(c, p, w).len() >= c.len(), splice(c, p, w).len() >= p + w.len(),
{
    reveal(splice);
    let s = splice(c, p, w);
    if w.len() == 0 { assert(s.subrange(p as int, p as int) =~= w); }
    else { assert(s.subrange(p as int, (p + w.len()) as int) =~= w); }
}

pub proof fn splice_keep(c: Seq<u8>, p: nat, w: Seq<u8>, q: int, x: Seq<u8>)
    requires at(c, q, x), q + x.len() <= p || p + w.len() <= q,
    ensures at(splice(c, p, w), q, x),
{
    reveal(splice);
    let s = splice(c, p, w);
    assert forall|i: int| q <= i < q + x.len() implies s[i] == c[i] by {
        if w.len() > 0 && p <= c.len() && i >= p + w.len() { assert(c.skip((p + w.len()) as int)[i - p - w.len()] == c[i]); }
    }
    assert(s.subrange(q, q + x.len()) =~= c.subrange(q, q + x.len()));
}

pub proof fn splice_two(c: Seq<u8>, p: nat, w: Seq<u8>, x: Seq<u8>)
    ensures splice(c, p, w + x) == splice(splice(c, p, w), p + w.len(), x),
{
    reveal(splice);
    let a = splice(c, p, w + x);
    let b = splice(splice(c, p, w), p + w.len(), x);
    if w.len() == 0 { assert(w + x =~= x); }
    else if x.len() == 0 { assert(w + x =~= w); }
    else { assert(a =~= b); }
}

pub broadcast proof fn splice_more(c: Seq<u8>, p: nat, w: Seq<u8>, x: Seq<u8>)
    ensures #[trigger] splice(c, p, w + x) == splice(splice(c, p, w), p + w.len(), x),
{ splice_two(c, p, w, x); }

pub broadcast proof fn splice_end(c: Seq<u8>, p: nat, x: Seq<u8>)
    requires p == c.len(),
    ensures #[trigger] splice(c, p, x) == c + x,
{
    reveal(splice);
    if x.len() > 0 { assert(c.take(p as int) =~= c); assert(c.skip(p as int) =~= Seq::<u8>::empty()); assert(splice(c, p, x) =~= c + x); }
    else { assert(c + x =~= c); }
}

// a piece laid down at p survives a later write elsewhere (an empty piece only needs the stream to reach it)
pub proof fn put_keep(c: Seq<u8>, p: nat, w: Seq<u8>, q: nat, x: Seq<u8>)
    requires x.len() > 0 ==> at(c, q as int, x), q + x.len() <= p || p + w.len() <= q,
    ensures x.len() > 0 ==> at(splice(c, p, w), q as int, x), splice(c, p, w).len() >= c.len(), w.len() > 0 ==> splice(c, p, w).len() >= p + w.len(),
        w.len() > 0 ==> at(splice(c, p, w), p as int, w),
{
    reveal(splice);
    if x.len() > 0 { splice_keep(c, p, w, q as int, x); }
    if w.len() > 0 { splice_put(c, p, w); }
}

// the pieces of a bundle after all writes: data, three offset tables, (headers), string offsets, records, and last the headers
pub proof fn laid(c0: Seq<u8>, start: nat, a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>, s: Seq<u8>, f: Seq<u8>, h: Seq<u8>)
    requires h.len() > 0,
    ensures ({
        let s1 = (start + a.len()) as nat; let s2 = (s1 + b.len()) as nat; let s3 = (s2 + c.len()) as nat; let s4 = (s3 + d.len()) as nat; let s5 = (s4 + h.len()) as nat; let s6 = (s5 + s.len()) as nat;
        let c4 = splice(splice(splice(splice(c0, start, a), s1, b), s2, c), s3, d);
        let e = splice(splice(splice(c4, s5, s), s6, f), s4, h);
        at(e, start as int, a) && at(e, s1 as int, b) && at(e, s2 as int, c) && at(e, s3 as int, d) && at(e, s4 as int, h) && at(e, s5 as int, s) && at(e, s6 as int, f)
    }),
{
    let s1 = (start + a.len()) as nat; let s2 = (s1 + b.len()) as nat; let s3 = (s2 + c.len()) as nat; let s4 = (s3 + d.len()) as nat; let s5 = (s4 + h.len()) as nat; let s6 = (s5 + s.len()) as nat;
    let e = Seq::<u8>::empty();
    put_keep(c0, start, a, start, e);
    let c1 = splice(c0, start, a);
    put_keep(c1, s1, b, start, a);
    let c2 = splice(c1, s1, b);
    put_keep(c2, s2, c, start, a); put_keep(c2, s2, c, s1, b);
    let c3 = splice(c2, s2, c);
    put_keep(c3, s3, d, start, a); put_keep(c3, s3, d, s1, b); put_keep(c3, s3, d, s2, c);
    let c4 = splice(c3, s3, d);
    put_keep(c4, s5, s, start, a); put_keep(c4, s5, s, s1, b); put_keep(c4, s5, s, s2, c); put_keep(c4, s5, s, s3, d);
    let c5 = splice(c4, s5, s);
    put_keep(c5, s6, f, start, a); put_keep(c5, s6, f, s1, b); put_keep(c5, s6, f, s2, c); put_keep(c5, s6, f, s3, d); put_keep(c5, s6, f, s5, s);
    let c6 = splice(c5, s6, f);
    put_keep(c6, s4, h, start, a); put_keep(c6, s4, h, s1, b); put_keep(c6, s4, h, s2, c); put_keep(c6, s4, h, s3, d); put_keep(c6, s4, h, s5, s); put_keep(c6, s4, h, s6, f);
    let c7 = splice(c6, s4, h);
    empty_at(c7, start as int, a); empty_at(c7, s1 as int, b); empty_at(c7, s2 as int, c); empty_at(c7, s3 as int, d); empty_at(c7, s5 as int, s); empty_at(c7, s6 as int, f);
}
pub proof fn empty_at(c: Seq<u8>, p: int, x: Seq<u8>)
    requires x.len() > 0 ==> at(c, p, x), 0 <= p <= c.len(),
    ensures at(c, p, x),
{ if x.len() == 0 { assert(c.subrange(p, p + x.len()) =~= x); } }

pub proof fn at_split(c: Seq<u8>, p: int, a: Seq<u8>, b: Seq<u8>)
    requires at(c, p, a + b),
    ensures at(c, p, a), at(c, p + a.len(), b),
{
    assert(c.subrange(p, p + a.len()) =~= (a + b).take(a.len() as int));
    assert((a + b).take(a.len() as int) =~= a);
    assert(c.subrange(p + a.len(), p + a.len() + b.len()) =~= (a + b).skip(a.len() as int));
    assert((a + b).skip(a.len() as int) =~= b);
}

// reading from where the bytes are
pub proof fn at_from(c: Seq<u8>, p: int, w: Seq<u8>)
    requires at(c, p, w),
    ensures from_at(c, p) == w + from_at(c, p + w.len()),
{
    assert(from_at(c, p) =~= w + from_at(c, p + w.len()));
}

}
pub use lay::*;


