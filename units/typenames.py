"""contracts for type names (core/src/ast.rs): stored form, signature form, source form"""
from vgen import Unit, F, L
from codec import contract_file

A = "core/src/ast.rs"
# what each named constant spells
CONSTS = dict(BOOL="Bool", CNAME="CName", DOUBLE="Double", FLOAT="Float", INT16="Int16", INT32="Int32", INT64="Int64", INT8="Int8", RESOURCE="ResRef",
              STRING="String", TWEAKDB_ID="TweakDBID", UINT16="Uint16", UINT32="Uint32", UINT64="Uint64", UINT8="Uint8", VARIANT="Variant", VOID="Void")

RW = [("Ref<str>", "RefStr"), ("Box<[TypeName]>", "Vec<TypeName>"), ("&[TypeName]", "&Vec<TypeName>"), ("$x.into_boxed_slice()", "$x"), ("[$x:id].into()", "vec![$x]"),
      ("$b:id.is_empty().not().then(|| $e)", "if !$b.is_empty() { Some($e) } else { None }"),
      ("self.arguments.as_deref().unwrap_or_default()", "arguments_of(&self.arguments)")]

# `v.iter().map(f).format(sep)` is the texts f makes of the elements with sep in between, `join` likewise: written out as the loop it is
def listing(f, first="0 < at", start=""):
    return """{
            let mut made = Made::new(); %s
            let mut at: usize = 0;
            while at < $a.len() {
                if %s { made.put($s); }
                made.show(&TypeName::%s(&$a[at]));
                at = at + 1;
            }
            made
        }""" % (start, first, f)


def loop(spec):
    return [L("while", "at <= arguments.len(), forall|i: int| 0 <= i < arguments@.len() ==> size(kin(#[trigger] arguments@[i])) < size(kin(*self)), made@ == %s," % spec, dec="arguments.len() - at", start="proof { kin_of(arguments@[at as int]); }")]


SPEC = """
#[verifier::external_body]
pub struct Ident { _p: () }
impl View for Ident { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Clone for Ident { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
impl Ident {
    #[verifier::external_body]
    pub fn from_heap(t: RefStr) -> (r: Ident) ensures r@ == t@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from_static(t: &'static str) -> (r: Ident) ensures r@ == t@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from_ref(t: &str) -> (r: Ident) ensures r@ == t@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub fn is_text(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
pub trait Show { spec fn text(&self) -> Seq<char>; }
impl Show for Ident { open spec fn text(&self) -> Seq<char> { self@ } }
impl Show for Made { open spec fn text(&self) -> Seq<char> { self@ } }
impl<T: Show + ?Sized> Show for &T { open spec fn text(&self) -> Seq<char> { (**self).text() } }
// text made by format!, format, join
pub struct Made { _p: () }
impl View for Made { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Made {
    #[verifier::external_body]
    pub fn new() -> (r: Made) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn put(&mut self, s: &str) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn show<T: Show>(&mut self, x: &T) ensures final(self)@ == old(self)@ + x.text() { unimplemented!() }
    #[verifier::external_body]
    pub fn done(self) -> (r: Ident) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn into(self) -> (r: RefStr) ensures r@ == self@ { unimplemented!() }
}
// where shown text goes; it may refuse
pub struct Refused;
pub struct Sink { _p: () }
impl View for Sink { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Sink {
    #[verifier::external_body]
    pub fn put(&mut self, s: &str) -> (r: Result<(), Refused>) ensures r is Ok ==> final(self)@ == old(self)@ + s@ { unimplemented!() }
}
pub fn arguments_of(a: &Option<Vec<TypeName>>) -> (r: &Vec<TypeName>)
    ensures r@ == (match *a { Some(v) => v@, None => Seq::<TypeName>::empty() })
{ match a { Some(v) => v, None => no_arguments() } }
#[verifier::external_body]
pub fn no_arguments() -> (r: &'static Vec<TypeName>) ensures r@ == Seq::<TypeName>::empty() { unimplemented!() }

// ------------------------------------------------------------------ types as the language has them
pub ghost struct Kin { pub name: Seq<char>, pub of: Seq<Kin>, pub applied: bool }
pub open spec fn kin(t: TypeName) -> Kin
    decreases t
{
    match t.arguments {
        None => Kin { name: t.name@, of: Seq::empty(), applied: false },
        Some(v) => Kin { name: t.name@, of: Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { kin(v@[i]) } else { arbitrary() }), applied: true },
    }
}
pub open spec fn kinds(s: Seq<TypeName>) -> Seq<Kin> { s.map_values(|t: TypeName| kin(t)) }
pub proof fn kin_of(t: TypeName)
    ensures kin(t).name == t.name@,
        match t.arguments { Some(v) => kin(t).applied && kin(t).of == kinds(v@), None => !kin(t).applied && kin(t).of == Seq::<Kin>::empty() },
{
    match t.arguments { Some(v) => { assert(kin(t).of =~= kinds(v@)); } None => {} }
}
// the spelling of a type with its parts in brackets
pub open spec fn spelled(t: Kin, sep: Seq<char>) -> Seq<char>
    decreases t, 0int, 0int
{ if t.applied { t.name + "<"@ + spelled_list(t.of, t.of.len() as int, sep) + ">"@ } else { t.name } }
pub open spec fn spelled_list(s: Seq<Kin>, n: int, sep: Seq<char>) -> Seq<char>
    decreases s, 1int, n
{
    if n <= 0 || n > s.len() { Seq::empty() } else if n == 1 { spelled(s[0], sep) } else { spelled_list(s, n - 1, sep) + sep + spelled(s[n - 1], sep) }
}
// ... and with a colon in front of each part, as constant pools store it
pub open spec fn stored(t: Kin) -> Seq<char>
    decreases t, 0int, 0int
{ t.name + stored_list(t.of, t.of.len() as int) }
pub open spec fn stored_list(s: Seq<Kin>, n: int) -> Seq<char>
    decreases s, 1int, n
{ if n <= 0 || n > s.len() { Seq::empty() } else { stored_list(s, n - 1) + ":"@ + stored(s[n - 1]) } }
// a type without the references around it
pub open spec fn refers(t: Kin) -> bool { (t.name == "ref"@ || t.name == "wref"@) && t.of.len() == 1 }
pub open spec fn bare(t: Kin) -> Kin
    decreases t
{ if refers(t) { bare(t.of[0]) } else { t } }
// ... and without those around its parts
pub open spec fn plain(t: Kin) -> Kin
    decreases t
{
    if refers(t) { plain(t.of[0]) } else { Kin { name: t.name, of: Seq::new(t.of.len(), |i: int| if 0 <= i < t.of.len() { plain(t.of[i]) } else { arbitrary() }), applied: t.applied } }
}
pub open spec fn plains(s: Seq<TypeName>) -> Seq<Kin> { s.map_values(|t: TypeName| plain(kin(t))) }
// how many parts a type has
pub open spec fn size(t: Kin) -> nat
    decreases t, 0int, 0int
{ 1 + size_list(t.of, t.of.len() as int) }
pub open spec fn size_list(s: Seq<Kin>, n: int) -> nat
    decreases s, 1int, n
{ if n <= 0 || n > s.len() { 0 } else { size_list(s, n - 1) + size(s[n - 1]) } }
pub proof fn size_in(s: Seq<Kin>, i: int, n: int)
    requires 0 <= i < n <= s.len(),
    ensures size(s[i]) <= size_list(s, n),
    decreases n,
{ if i < n - 1 { size_in(s, i, n - 1); } }
pub proof fn smaller(t: TypeName)
    ensures size(bare(kin(t))) <= size(kin(t)),
        t.arguments matches Some(v) ==> forall|i: int| 0 <= i < v@.len() ==> size(kin(#[trigger] v@[i])) < size(kin(t)),
{
    kin_of(t);
    bare_smaller(kin(t));
    match t.arguments { Some(v) => {
        assert forall|i: int| 0 <= i < v@.len() implies size(kin(#[trigger] v@[i])) < size(kin(t)) by { assert(kin(t).of[i] == kin(v@[i])); size_in(kin(t).of, i, kin(t).of.len() as int); }
    } None => {} }
}
pub proof fn bare_smaller(t: Kin) ensures size(bare(t)) <= size(t), decreases t { if refers(t) { bare_smaller(t.of[0]); size_in(t.of, 0, t.of.len() as int); } }
pub mod fronts {
use vstd::prelude::*;
pub broadcast proof fn no_front(s: Seq<char>) ensures #[trigger] (Seq::<char>::empty() + s) == s { assert(Seq::<char>::empty() + s =~= s); }
}
broadcast use fronts::no_front;
pub proof fn lone()
    ensures
        forall|t: TypeName| #![trigger kin(t)] (t.arguments matches Some(v) && v@.len() == 1) ==> kin(t) == (Kin { name: t.name@, of: seq![kin(t.arguments->0@[0])], applied: true }),
        forall|t: TypeName| #![trigger kin(t)] t.arguments is None ==> kin(t) == (Kin { name: t.name@, of: Seq::empty(), applied: false }),
{
    assert forall|t: TypeName| #![trigger kin(t)] (t.arguments matches Some(v) && v@.len() == 1) implies kin(t) == (Kin { name: t.name@, of: seq![kin(t.arguments->0@[0])], applied: true }) by { kin_of(t); assert(kin(t).of =~= seq![kin(t.arguments->0@[0])]); }
}
pub proof fn plain_bare(t: Kin) ensures plain(bare(t)) == plain(t), !refers(bare(t)), decreases t { if refers(t) { plain_bare(t.of[0]); } }
pub proof fn plain_of(t: TypeName)
    requires !refers(kin(t)),
    ensures plain(kin(t)).name == t.name@, t.arguments matches Some(v) ==> plain(kin(t)).applied && plain(kin(t)).of == plains(v@), t.arguments is None ==> !plain(kin(t)).applied,
{
    kin_of(t);
    match t.arguments { Some(v) => { assert(plain(kin(t)).of =~= plains(v@)); } None => {} }
}
// a text is its characters: ASSUMED (`match` on texts compares characters)
pub axiom fn same_characters() ensures forall|a: &str, b: &str| #![trigger a@, b@] a@ == b@ ==> a == b;
pub open spec fn kind_named(n: Seq<char>) -> Kind {
    if n == "ref"@ { Kind::Ref } else if n == "wref"@ { Kind::WRef } else if n == "script_ref"@ { Kind::ScriptRef } else if n == "array"@ { Kind::Array } else { Kind::Prim }
}

// ------------------------------------------------------------------ texts cut at a character
pub open spec fn pieces(t: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases t.len()
{
    if t.len() == 0 { seq![t] } else {
        let r = pieces(t.drop_last(), c);
        if t.last() == c { r.push(Seq::empty()) } else { r.drop_last().push(r.last().push(t.last())) }
    }
}
pub open spec fn glued(s: Seq<Seq<char>>, c: char) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else if s.len() == 1 { s[0] } else { glued(s.drop_last(), c).push(c) + s.last() } }
pub proof fn pieces_some(t: Seq<char>, c: char) ensures pieces(t, c).len() > 0, decreases t.len() { if t.len() > 0 { pieces_some(t.drop_last(), c); } }
pub proof fn pieces_one(t: Seq<char>, c: char)
    requires !t.contains(c),
    ensures pieces(t, c) == seq![t],
    decreases t.len(),
{
    if t.len() > 0 {
        assert(t.last() == t[t.len() - 1]);
        assert(!t.drop_last().contains(c)) by { if t.drop_last().contains(c) { let i = choose|i: int| 0 <= i < t.len() - 1 && t.drop_last()[i] == c; assert(t[i] == c); } }
        pieces_one(t.drop_last(), c);
        assert(t.drop_last().push(t.last()) =~= t);
        assert(pieces(t, c) =~= seq![t]);
    }
}
pub proof fn pieces_cut(a: Seq<char>, b: Seq<char>, c: char)
    ensures pieces(a.push(c) + b, c) == pieces(a, c) + pieces(b, c),
    decreases b.len(),
{
    let t = a.push(c) + b;
    if b.len() == 0 {
        assert(t =~= a.push(c));
        assert(t.drop_last() =~= a);
        assert(pieces(t, c) =~= pieces(a, c) + seq![b]) by { assert(b =~= Seq::<char>::empty()); }
    } else {
        pieces_cut(a, b.drop_last(), c);
        pieces_some(b.drop_last(), c);
        assert(t.drop_last() =~= a.push(c) + b.drop_last());
        assert(pieces(t, c) =~= pieces(a, c) + pieces(b, c));
    }
}
pub proof fn glued_pieces(t: Seq<char>, c: char)
    ensures glued(pieces(t, c), c) == t,
    decreases t.len(),
{
    if t.len() > 0 {
        let r = pieces(t.drop_last(), c);
        glued_pieces(t.drop_last(), c);
        pieces_some(t.drop_last(), c);
        let q = pieces(t, c);
        if t.last() == c {
            assert(q.drop_last() =~= r);
            assert(glued(q, c) =~= t);
        } else {
            assert(q.drop_last() =~= r.drop_last());
            assert(glued(q, c) =~= glued(r, c).push(t.last()));
            assert(t.drop_last().push(t.last()) =~= t);
        }
    }
}
// str::split at a character
#[verifier::external_body]
pub struct Parts { _p: () }
impl View for Parts { type V = Seq<Seq<char>>; uninterp spec fn view(&self) -> Seq<Seq<char>>; }
impl Parts {
    #[verifier::external_body]
    pub fn of(t: &str, c: char) -> (r: Parts) ensures r@ == pieces(t@, c) { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'static str>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> (r matches Some(t) && t@ == old(self)@[0] && final(self)@ == old(self)@.skip(1)),
    { unimplemented!() }
}

// ------------------------------------------------------------------ reading a stored type
// a part applied to the type behind it
pub open spec fn read(name: Seq<char>, rest: Seq<Seq<char>>) -> Kin
    decreases rest.len()
{ if rest.len() == 0 { Kin { name, of: Seq::empty(), applied: false } } else { Kin { name, of: seq![read(rest[0], rest.skip(1))], applied: true } } }
pub open spec fn read_text(t: Seq<char>) -> Kin { read(pieces(t, ':')[0], pieces(t, ':').skip(1)) }
// each part applied to at most one, and no colon in the names
pub open spec fn chain(t: Kin) -> bool
    decreases t
{ !t.name.contains(':') && (if t.applied { t.of.len() == 1 && chain(t.of[0]) } else { t.of =~= Seq::<Kin>::empty() }) }
pub open spec fn names(t: Kin) -> Seq<Seq<char>>
    decreases t
{ if t.of.len() == 1 { seq![t.name] + names(t.of[0]) } else { seq![t.name] } }
pub proof fn stored_one(t: Kin)
    ensures t.of.len() == 0 ==> stored(t) == t.name, t.of.len() == 1 ==> stored(t) == t.name.push(':') + stored(t.of[0]),
{
    reveal_strlit(":");
    reveal_with_fuel(stored_list, 3);
    assert(":"@ =~= seq![':']);
    if t.of.len() == 1 {
        assert(stored_list(t.of, 1) == stored_list(t.of, 0) + ":"@ + stored(t.of[0]));
        assert(stored_list(t.of, 0) =~= Seq::<char>::empty());
        assert(t.name.push(':') =~= t.name + ":"@);
        assert(stored(t) =~= t.name.push(':') + stored(t.of[0])); } else if t.of.len() == 0 { assert(stored(t) =~= t.name); }
}
pub proof fn chain_names(t: Kin)
    requires chain(t),
    ensures pieces(stored(t), ':') == names(t), names(t).len() > 0, names(t)[0] == t.name, read(t.name, names(t).skip(1)) == t,
    decreases t,
{
    stored_one(t);
    pieces_one(t.name, ':');
    if t.applied {
        let k = t.of[0];
        chain_names(k);
        pieces_cut(t.name, stored(k), ':');
        assert(names(t).skip(1) =~= names(k));
        assert(t.of =~= seq![k]);
    } else {
        assert(names(t).skip(1) =~= Seq::<Seq<char>>::empty());
    }
}
// THEOREM: what was stored reads back
pub proof fn stored_reads_back(t: Kin)
    requires chain(t),
    ensures read_text(stored(t)) == t,
{ chain_names(t); }
pub proof fn glued_front(a: Seq<char>, s: Seq<Seq<char>>, c: char)
    requires s.len() > 0,
    ensures glued(seq![a] + s, c) == a.push(c) + glued(s, c),
    decreases s.len(),
{
    let q = seq![a] + s;
    if s.len() == 1 {
        assert(q.drop_last() =~= seq![a]);
        assert(q.last() == s[0]);
        assert(glued(seq![a], c) == a);
    } else {
        glued_front(a, s.drop_last(), c);
        assert(q.drop_last() =~= seq![a] + s.drop_last());
        assert(glued(q, c) =~= a.push(c) + glued(s, c));
    }
}
pub proof fn read_stored(name: Seq<char>, rest: Seq<Seq<char>>)
    ensures stored(read(name, rest)) == glued(seq![name] + rest, ':'),
    decreases rest.len(),
{
    stored_one(read(name, rest));
    if rest.len() == 0 {
        assert(seq![name] + rest =~= seq![name]);
    } else {
        read_stored(rest[0], rest.skip(1));
        assert(seq![rest[0]] + rest.skip(1) =~= rest);
        glued_front(name, rest, ':');
    }
}
// THEOREM: what was read stores as the same text
pub proof fn read_stores_back(t: Seq<char>)
    ensures stored(read_text(t)) == t,
{
    pieces_some(t, ':');
    let q = pieces(t, ':');
    read_stored(q[0], q.skip(1));
    assert(seq![q[0]] + q.skip(1) =~= q);
    glued_pieces(t, ':');
}
// THEOREM: a reference around a type changes neither its signature nor that of what it is part of
pub open spec fn signature(t: Kin) -> Seq<char> { spelled(plain(t), ","@) }
pub proof fn reference_unseen(a: Kin, w: Kin)
    requires w.name == "ref"@ || w.name == "wref"@, w.of == seq![a],
    ensures plain(w) == plain(a), signature(w) == signature(a),
{}
pub proof fn part_unseen(t: Kin, i: int, a: Kin)
    requires 0 <= i < t.of.len(), plain(a) == plain(t.of[i]), !refers(t),
    ensures signature(Kin { of: t.of.update(i, a), ..t }) == signature(t),
{
    let s = Kin { of: t.of.update(i, a), ..t };
    assert(plain(s).of =~= plain(t).of);
}
// THEOREM: where nothing refers, the signature spells the type
pub open spec fn direct(t: Kin) -> bool
    decreases t
{ !refers(t) && forall|i: int| 0 <= i < t.of.len() ==> direct(#[trigger] t.of[i]) }
pub proof fn direct_plain(t: Kin)
    requires direct(t),
    ensures plain(t) == t,
    decreases t,
{
    assert forall|i: int| 0 <= i < t.of.len() implies plain(#[trigger] t.of[i]) == t.of[i] by { direct_plain(t.of[i]); }
    assert(plain(t).of =~= t.of);
}
"""


def build(repo):
    u = Unit("typenames", repo)
    u.raw(contract_file("refstr.rs").split("#[verifier::external_body]\npub fn same_text")[0] + "}\npub use rs::*;\nbroadcast use rs::axiom_ref_cloned;")
    u.raw(SPEC)
    u.struct(A, "TypeName", rw=RW)
    u.enum(A, "Kind")
    u.global_rw = RW
    J = {f: "$a:id.iter().map(TypeName::%s).format($s)" % f for f in ("mangled", "pretty")}
    u.impl(A, "TypeName", {
        "new": F("ensures r.name == name, kin(r).name == name@, kin(r).of == kinds(arguments@), kin(r).applied == (arguments@.len() > 0),", pre="proof { assert(kinds(arguments@).len() == 0 ==> kinds(arguments@) =~= Seq::<Kin>::empty()); }",
                 rw=[], post=""),
        "basic": F("ensures kin(r) == (Kin { name: name@, of: Seq::empty(), applied: false }),"),
        "basic_owned": F("ensures kin(r) == (Kin { name: name@, of: Seq::empty(), applied: false }),"),
        "name": F("ensures r@ == kin(*self).name,"),
        "arguments": F("ensures kinds(r@) == kin(*self).of, self.arguments matches Some(v) ==> r@ == v@, self.arguments is None ==> r@ == Seq::<TypeName>::empty(),", pre="proof { kin_of(*self); assert(kinds(Seq::<TypeName>::empty()) =~= Seq::<Kin>::empty()); }"),
        "kind": F("ensures r == kind_named(kin(*self).name),", pre="proof { kin_of(*self); same_characters(); reveal_strlit(\"ref\"); reveal_strlit(\"wref\"); reveal_strlit(\"array\"); reveal_strlit(\"script_ref\"); }"),
        # a slice pattern of one element is a length test
        "unwrapped": F("ensures kin(*r) == bare(kin(*self)), decreases size(kin(*self)),", pre="proof { kin_of(*self); smaller(*self); }",
                       rw=[("($a:id::Ref | $b:id::WRef, [$x:id]) => $e,", "($a::Ref, $x) if $x.len() == 1 => { let $x = &$x[0]; $e } ($b::WRef, $x) if $x.len() == 1 => { let $x = &$x[0]; $e }")]),
        "mangled": F(loops=loop('spelled_list(plains(arguments@), at as int, ","@)'), contract="ensures r@ == signature(kin(*self)), decreases size(kin(*self)),", pieces=True, pre="proof { kin_of(*self); smaller(*self); plain_bare(kin(*self)); }", after=[("^let unwrapped", "proof { kin_of(*unwrapped); smaller(*unwrapped); plain_of(*unwrapped); }")],
                     rw=[(J["mangled"], listing("mangled")), ("str_fmt!", "format!")]),
        "pretty": F(loops=loop('spelled_list(kinds(arguments@), at as int, ", "@)'), contract="ensures r@ == spelled(kin(*self), \", \"@), decreases size(kin(*self)),", pieces=True, pre="proof { kin_of(*self); smaller(*self); }",
                    rw=[(J["pretty"], listing("pretty")), ("str_fmt!", "format!")]),
        "repr": F(loops=loop("kin(*self).name + stored_list(kinds(arguments@), at as int)"), contract="ensures r@ == stored(kin(*self)), decreases size(kin(*self)),", pre="proof { kin_of(*self); smaller(*self); }",
                  rw=[("iter::once($n).chain($a:id.iter().map(TypeName::repr)).join($s)", listing("repr", "true", "made.show(&$n);"))]),
        "from_repr": F("ensures kin(r) == read_text(str@), stored(kin(r)) == str@,", rw=[("$x:id.split($c)", "Parts::of($x, $c)")], pre="proof { pieces_some(str@, ':'); read_stores_back(str@); }"),
        "from_parts": F("ensures r matches Some(t) && kin(t) == read(name@, parts@), decreases parts@.len(),", pre="proof { lone(); }", sig_rw=[("impl Iterator<Item = &'a str>", "Parts")]),
    })
    # the named types: the initializer of each constant, as a function
    item = next(i for i in u.src(A).impls("TypeName") if any(c.kind == "const" for c in i.children()))
    have = {c.name: c for c in item.children() if c.kind == "const"}
    for n, t in sorted(CONSTS.items()):
        if n not in have:
            continue
        w = "%s::<TypeName>::%s" % (A, n)
        e = have[n].text
        e = e[e.index("=") + 1:].rstrip().rstrip(";").strip()
        u.raw("//@fn %s\npub fn constant_%s() -> (r: TypeName)\n    ensures kin(r) == (Kin { name: \"%s\"@, of: Seq::empty(), applied: false }),\n{%s %s }\n//@end" % (w, n.lower(), t, " proof { assert(false); }" if u.vacuity else "", e))
        u.fns.append(w)
    # what is shown for a type is its signature form
    u.impl(A, "Display for TypeName", {"fmt": F("ensures r is Ok ==> final(f)@ == old(f)@ + signature(kin(*self)),",
        sig_rw=[("&mut fmt::Formatter<'_>", "&mut Sink"), ("fmt::Result", "Result<(), Refused>")], rw=[("f.write_str($x)", "f.put($x)")])}, hdr="impl TypeName")
    return u
