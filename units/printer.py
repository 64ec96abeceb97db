"""contracts for printing decompiled code (decompiler/src/print.rs): the text derives the tree in the language's grammar"""
import re
from vgen import Unit, F, L
import decompile
from decompile import AST, NODEC

P = "decompiler/src/print.rs"

# the language (compiler/src/parser.rs): operator, its text, how loosely it binds
BIN = {"AssignAdd": ("+=", 10), "AssignSubtract": ("-=", 10), "AssignMultiply": ("*=", 10), "AssignDivide": ("/=", 10), "AssignOr": ("|=", 10), "AssignAnd": ("&=", 10),
       "LogicOr": ("||", 9), "LogicAnd": ("&&", 8), "Or": ("|", 7), "Xor": ("^", 6), "And": ("&", 5), "Equal": ("==", 4), "NotEqual": ("!=", 4), "Less": ("<", 3), "LessEqual": ("<=", 3),
       "Greater": (">", 3), "GreaterEqual": (">=", 3), "Add": ("+", 2), "Subtract": ("-", 2), "Multiply": ("*", 1), "Divide": ("/", 1), "Modulo": ("%", 1)}
UN = {"BitNot": "~", "LogicNot": "!", "Neg": "-"}

SHOWN = ("shown", "kept", "shown_block", "shown_all", "shown_cases")
FITS = ("fits", "fit_block", "empty")
GRAMMAR = ("plain", "writes", "heads", "list", "stmts", "arms")


def steps(t, group):
    out = []
    for f in group:
        m = re.search(r"#\[verifier::opaque\]\npub open spec fn %s\(([^\n]*?)\) -> ([^\n]+)\n\s*decreases[^\n]*\n\{\n(.*?)\n\}\n" % f, t, re.S)
        names = ", ".join(re.findall(r"(\w+):", re.sub(r"<[^<>]*>|\([^()]*\)", "", m.group(1))))
        out.append("pub open spec fn %s_body(%s) -> %s {\n%s\n}\n" % (f, m.group(1), m.group(2), m.group(3)))
        out.append("pub proof fn %s_is(%s)\n    ensures %s(%s) == %s_body(%s),\n{ %s }\n" % (f, m.group(1), f, names, f, names, " ".join("reveal_with_fuel(%s, 2);" % x for x in group)))
    return "\n".join(out)


def named_ops(u, kind):
    """strum's EnumString: the serialize attribute of each variant"""
    body = u.src(AST).item("enum", kind).text
    body = body[body.index("{"):]
    rows = []
    for m in re.finditer(r"((?:#\[[^\]]*\]\s*)*)(\w+)\s*,", body):
        s = re.search(r'serialize\s*=\s*"([^"]*)"', m.group(1))
        rows.append((m.group(2), s.group(1) if s else m.group(2)))
    return rows


def spec(u):
    low = kind_rows = ""
    for kind, f in (("BinOp", "bin"), ("UnOp", "un")):
        rows = named_ops(u, kind)
        low += "pub open spec fn %s_named(n: Seq<char>) -> Option<%s> { %s else { None } }\n" % (f, kind, " else ".join('if n == "%s"@ { Some(%s::%s) }' % (s, kind, v) for v, s in rows))
    u.raw("""
// ------------------------------------------------------------------ output: pieces of text, one after the other
// an io::Write behind write!: a piece is written whole or the write fails: contracts ASSUMED
#[verifier::external_body]
pub struct Out { _p: () }
impl View for Out { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
// some write to it fails, now or later
impl Out { pub uninterp spec fn refuses(&self) -> bool; }
pub mod joining {
use vstd::prelude::*;
#[verifier::opaque]
pub open spec fn grew(a: Seq<char>, b: Seq<char>) -> bool { a.is_prefix_of(b) }
#[verifier::opaque]
pub open spec fn added(a: Seq<char>, b: Seq<char>) -> Seq<char> { b.skip(a.len() as int) }
pub broadcast proof fn joins(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires #[trigger] grew(a, b), #[trigger] grew(b, c),
    ensures grew(a, c), added(a, c) == added(a, b) + added(b, c),
{
    reveal(grew); reveal(added);
    assert(a =~= c.subrange(0, a.len() as int)) by {
        assert(a =~= b.subrange(0, a.len() as int));
        assert(b =~= c.subrange(0, b.len() as int));
        assert forall|i: int| 0 <= i < a.len() implies a[i] == c[i] by { assert(a[i] == b.subrange(0, a.len() as int)[i]); assert(b[i] == c.subrange(0, b.len() as int)[i]); }
    }
    assert forall|i: int| 0 <= i < b.len() implies b[i] == c[i] by { assert(b[i] == c.subrange(0, b.len() as int)[i]); }
    assert(added(a, c) =~= added(a, b) + added(b, c));
}
pub proof fn nothing(a: Seq<char>) ensures grew(a, a), added(a, a) == Seq::<char>::empty() { reveal(grew); reveal(added); assert(added(a, a) =~= Seq::<char>::empty()); }
}
pub use joining::*;
#[verifier::opaque]
pub open spec fn blanks(n: int) -> Seq<char> { Seq::new(n as nat, |i: int| ' ') }
pub proof fn blank(n: int) ensures spaces(blanks(n)), n == 0 ==> blanks(n) == Seq::<char>::empty() { reveal(blanks); if n == 0 { assert(blanks(n) =~= Seq::<char>::empty()); } }
// the indentation of nested lines
pub open spec fn indent(depth: usize) -> Seq<char> { blanks(""" + norm_const(u, "INDENT_SIZE") + """ * depth) }
pub open spec fn spaces(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] == ' ' }

pub open spec fn digits(n: int) -> bool { true }
pub uninterp spec fn decimal(v: int) -> Seq<char>;
pub uninterp spec fn escaped(t: Seq<char>) -> Seq<char>;
pub uninterp spec fn pretty_of(t: Seq<char>) -> Seq<char>;
pub uninterp spec fn mangled_of(t: Seq<char>) -> Seq<char>;
pub uninterp spec fn fixed_of<T>(digits: int, v: T) -> Seq<char>;
pub uninterp spec fn shortest<T>(v: T) -> Seq<char>;
// how many digits follow the point of a number's text
pub uninterp spec fn fraction(t: Seq<char>) -> int;
pub trait Show { spec fn text(&self) -> Seq<char>; }
impl Show for Ident { open spec fn text(&self) -> Seq<char> { self@ } }
impl Show for RefStr { open spec fn text(&self) -> Seq<char> { self@ } }
impl Show for TypeName { open spec fn text(&self) -> Seq<char> { mangled_of(self@) } }
impl Show for str { open spec fn text(&self) -> Seq<char> { self@ } }
impl Show for String { open spec fn text(&self) -> Seq<char> { self@ } }
impl Show for i32 { open spec fn text(&self) -> Seq<char> { decimal(*self as int) } }
impl Show for i64 { open spec fn text(&self) -> Seq<char> { decimal(*self as int) } }
impl Show for u32 { open spec fn text(&self) -> Seq<char> { decimal(*self as int) } }
impl Show for u64 { open spec fn text(&self) -> Seq<char> { decimal(*self as int) } }
impl Show for Location { open spec fn text(&self) -> Seq<char> { decimal(self.value as int) } }
impl<T: Show + ?Sized> Show for &T { open spec fn text(&self) -> Seq<char> { (**self).text() } }
impl Out {
    #[verifier::external_body]
    pub fn put(&mut self, s: &str) -> (r: Result<(), IoError>) ensures final(self).refuses() == old(self).refuses(), r is Err ==> old(self).refuses(), r is Ok ==> grew(old(self)@, final(self)@) && added(old(self)@, final(self)@) == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn show<T: Show>(&mut self, x: &T) -> (r: Result<(), IoError>) ensures final(self).refuses() == old(self).refuses(), r is Err ==> old(self).refuses(), r is Ok ==> grew(old(self)@, final(self)@) && added(old(self)@, final(self)@) == x.text() { unimplemented!() }
    #[verifier::external_body]
    pub fn fixed<T>(&mut self, n: usize, x: T) -> (r: Result<(), IoError>) ensures final(self).refuses() == old(self).refuses(), r is Err ==> old(self).refuses(), r is Ok ==> grew(old(self)@, final(self)@) && added(old(self)@, final(self)@) == fixed_of(n as int, x) && digits(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn padded(&mut self, c: char, n: usize) -> (r: Result<(), IoError>) ensures final(self).refuses() == old(self).refuses(), r is Err ==> old(self).refuses(), r is Ok && c == ' ' ==> grew(old(self)@, final(self)@) && added(old(self)@, final(self)@) == blanks(if n < 1 { 1 } else { n as int }) { unimplemented!() }
}
#[verifier::external_body]
pub fn escape(t: &RefStr) -> (r: String) ensures r@ == escaped(t@) { unimplemented!() }
impl TypeName {
    #[verifier::external_body]
    pub fn pretty(&self) -> (r: String) ensures r@ == pretty_of(self@) { unimplemented!() }
}
pub open spec fn comma_list(ts: Seq<Seq<char>>) -> Seq<char> decreases ts.len() {
    if ts.len() == 0 { Seq::empty() } else if ts.len() == 1 { pretty_of(ts[0]) } else { comma_list(ts.drop_last()) + ", "@ + pretty_of(ts.last()) }
}
#[verifier::external_body]
pub fn pretty_list(ts: &Vec<TypeName>) -> (r: String) ensures r@ == comma_list(type_texts(ts@)) { unimplemented!() }
pub uninterp spec fn shortest_of<T>(v: T) -> Seq<char>;
#[verifier::external_body]
pub fn shortest_text<T>(v: &T) -> (r: &'static str) ensures r@ == shortest_of(*v) { unimplemented!() }
#[verifier::external_body]
pub fn fraction_digits(s: &str) -> (r: usize) ensures r == fraction(s@) { unimplemented!() }
#[verifier::external_body]
pub fn larger(a: usize, b: usize) -> (r: usize) ensures r >= a, r >= b, r == a || r == b { unimplemented!() }
#[verifier::external_body]
pub fn smaller(a: usize, b: usize) -> (r: usize) ensures r <= a, r <= b, r == a || r == b { unimplemented!() }
// fewer than 2^27 nested blocks: ASSUMED
#[verifier::external_body]
pub fn deeper(d: usize, n: usize) -> (r: usize) ensures r < 0x1000_0000 { unimplemented!() }
#[verifier::external_body]
pub fn bin_from_str(s: &str) -> (r: Result<BinOp, ()>) ensures match bin_named(s@) { Some(op) => r == Ok::<BinOp, ()>(op), None => r is Err } { unimplemented!() }
#[verifier::external_body]
pub fn un_from_str(s: &str) -> (r: Result<UnOp, ()>) ensures match un_named(s@) { Some(op) => r == Ok::<UnOp, ()>(op), None => r is Err } { unimplemented!() }
#[verifier::external_body]
pub fn never() requires false { unimplemented!() }
#[verifier::external_body]
pub fn is_text(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
// the part of a mangled name in front of its signature
pub uninterp spec fn plain_name(t: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn before_semicolon(t: &Ident) -> (r: &str) ensures r@ == plain_name(t@) { unimplemented!() }

// ------------------------------------------------------------------ what is shown of a tree
pub ghost enum KV { Text(Literal, Seq<char>), F32(f32), F64(f64), I32(i32), I64(i64), U32(u32), U64(u64), Bool(bool) }
pub ghost enum Tag {
    Null, This, Super, Break, Return, Block, Assign, Elem, Cond, If, While, Switch, Case, Default, Foreign,
    Const(KV), Id(Seq<char>), Member(Seq<char>), Cast(Seq<char>), New(Seq<char>), Call(Seq<char>, Seq<Seq<char>>), Method(Seq<char>), Goto(int),
    Let(Seq<char>, Option<Seq<char>>), Bin(BinOp), Un(UnOp),
}
pub ghost struct Tree { pub tag: Tag, pub kids: Seq<Tree> }
pub open spec fn node(t: Tag, k: Seq<Tree>) -> Tree { Tree { tag: t, kids: k } }
pub open spec fn kv(c: Constant) -> KV {
    match c {
        Constant::String(l, t) => KV::Text(l, t@), Constant::F32(v) => KV::F32(v), Constant::F64(v) => KV::F64(v), Constant::I32(v) => KV::I32(v),
        Constant::I64(v) => KV::I64(v), Constant::U32(v) => KV::U32(v), Constant::U64(v) => KV::U64(v), Constant::Bool(v) => KV::Bool(v),
    }
}
pub open spec fn type_texts(v: Seq<TypeName>) -> Seq<Seq<char>> { v.map_values(|t: TypeName| t@) }
""" + low + """
// conversions between kinds of references are implicit in the language
pub open spec fn implicit(n: Seq<char>) -> bool { n == "WeakRefToRef"@ || n == "RefToWeakRef"@ || n == "AsRef"@ }
""")
    trees = """
#[verifier::opaque]
pub open spec fn empty(e: Expr) -> bool
    decreases e
{
    match e { Expr::Seq(b) => forall|i: int| 0 <= i < b.exprs@.len() ==> empty(#[trigger] b.exprs@[i]), _ => false }
}
#[verifier::opaque]
pub open spec fn shown_block(b: Block, v: bool) -> Tree
    decreases b, 0int
{
    node(Tag::Block, kept(b.exprs, b.exprs@.len() as int, v))
}
// statements that do nothing are left out
#[verifier::opaque]
pub open spec fn kept(s: Vec<Expr>, k: int, v: bool) -> Seq<Tree>
    decreases s, k
{
    if k <= 0 || k > s@.len() { Seq::empty() } else if empty(s@[k - 1]) { kept(s, k - 1, v) } else { kept(s, k - 1, v).push(shown(s@[k - 1], v)) }
}
#[verifier::opaque]
pub open spec fn shown_all(s: Vec<Expr>, v: bool) -> Seq<Tree>
    decreases s, 0int
{
    Seq::new(s@.len(), |i: int| if 0 <= i < s@.len() { shown(s@[i], v) } else { arbitrary() })
}
#[verifier::opaque]
pub open spec fn shown_cases(s: Vec<SwitchCase>, v: bool) -> Seq<Tree>
    decreases s, 0int
{
    Seq::new(s@.len(), |i: int| if 0 <= i < s@.len() { node(Tag::Case, seq![shown(s@[i].matcher, v), shown_block(s@[i].body, v)]) } else { arbitrary() })
}
#[verifier::opaque]
pub open spec fn shown(e: Expr, v: bool) -> Tree
    decreases e, 0int
{
    match e {
        Expr::Ident(x, _) => node(Tag::Id(x@), seq![]),
        Expr::Constant(c, _) => node(Tag::Const(kv(c)), seq![]),
        Expr::Declare(x, t, d, _) => node(Tag::Let(x@, match t { Some(t) => Some((*t)@), None => None }), match d { Some(d) => seq![shown(*d, v)], None => seq![] }),
        Expr::Cast(t, x, _) => node(Tag::Cast(t@), seq![shown(*x, v)]),
        Expr::Assign(a, b, _) => node(Tag::Assign, seq![shown(*a, v), shown(*b, v)]),
        Expr::Call(f, ts, s, _) =>
            if bin_named(plain_name(f@)) is Some { node(Tag::Bin(bin_named(plain_name(f@))->Some_0), shown_all(s, v)) }
            else if un_named(plain_name(f@)) is Some { node(Tag::Un(un_named(plain_name(f@))->Some_0), shown_all(s, v)) }
            else if !v && implicit(plain_name(f@)) && s@.len() > 0 { shown(s@[0], v) }
            else { node(Tag::Call(plain_name(f@), type_texts(ts@)), shown_all(s, v)) },
        Expr::MethodCall(o, f, s, _) => node(Tag::Method(plain_name(f@)), seq![shown(*o, v)] + shown_all(s, v)),
        Expr::Member(o, f, _) => node(Tag::Member(f@), seq![shown(*o, v)]),
        Expr::ArrayElem(a, b, _) => node(Tag::Elem, seq![shown(*a, v), shown(*b, v)]),
        Expr::New(t, s, _) => node(Tag::New(t@), shown_all(s, v)),
        Expr::Return(x, _) => node(Tag::Return, match x { Some(x) => seq![shown(*x, v)], None => seq![] }),
        Expr::Seq(b) => shown_block(b, v),
        Expr::Switch(x, cs, d, _) => node(Tag::Switch, seq![shown(*x, v)] + shown_cases(cs, v) + (match d { Some(d) => seq![node(Tag::Default, seq![shown_block(d, v)])], None => seq![] })),
        Expr::Goto(t, _) => node(Tag::Goto(t.position.value as int), seq![]),
        Expr::If(c, a, b, _) => node(Tag::If, seq![shown(*c, v), shown_block(a, v)] + (match b { Some(b) => seq![shown_block(b, v)], None => seq![] })),
        Expr::Conditional(a, b, c, _) => node(Tag::Cond, seq![shown(*a, v), shown(*b, v), shown(*c, v)]),
        Expr::While(c, b, _) => node(Tag::While, seq![shown(*c, v), shown_block(b, v)]),
        Expr::BinOp(a, b, op, _) => node(Tag::Bin(op), seq![shown(*a, v), shown(*b, v)]),
        Expr::UnOp(a, op, _) => node(Tag::Un(op), seq![shown(*a, v)]),
        Expr::This(_) => node(Tag::This, seq![]),
        Expr::Super(_) => node(Tag::Super, seq![]),
        Expr::Break(_) => node(Tag::Break, seq![]),
        Expr::Null(_) => node(Tag::Null, seq![]),
        _ => node(Tag::Foreign, seq![]),
    }
}
"""
    u.raw(trees)
    u.raw(steps(trees, ("shown", "kept", "shown_block", "shown_all", "shown_cases")) + steps(trees, ("empty",)))
    fits = """
// ------------------------------------------------------------------ trees the language has a spelling for
pub open spec fn stmt(t: Tree) -> bool { t.tag is Break || t.tag is Return || t.tag is Block || t.tag is If || t.tag is While || t.tag is Switch || t.tag is Case || t.tag is Default || t.tag is Let || t.tag is Goto || t.tag is Foreign }
pub open spec fn number(t: Tree) -> bool { t.tag matches Tag::Const(c) && !(c is Text) && !(c is Bool) }
pub open spec fn value(e: Expr, v: bool) -> bool { fits(e, v) && !stmt(shown(e, v)) }
pub open spec fn object(e: Expr, v: bool) -> bool { value(e, v) && !number(shown(e, v)) }
pub open spec fn values(s: Vec<Expr>, v: bool) -> bool { forall|i: int| 0 <= i < s@.len() ==> fits(#[trigger] s@[i], v) && !stmt(shown(s@[i], v)) }
#[verifier::opaque]
pub open spec fn fit_block(b: Block, v: bool) -> bool
    decreases b
{
    forall|i: int| 0 <= i < b.exprs@.len() ==> empty(#[trigger] b.exprs@[i]) || fits(b.exprs@[i], v)
}
#[verifier::opaque]
pub open spec fn fits(e: Expr, v: bool) -> bool
    decreases e
{
    match e {
        Expr::Ident(..) | Expr::Constant(..) | Expr::Goto(..) | Expr::This(_) | Expr::Super(_) | Expr::Break(_) | Expr::Null(_) => true,
        Expr::Declare(_, _, d, _) => match d { Some(x) => fits(*x, v) && !stmt(shown(*x, v)), None => true },
        Expr::Cast(_, x, _) => fits(*x, v) && !stmt(shown(*x, v)) && !number(shown(*x, v)),
        Expr::Assign(a, b, _) => fits(*a, v) && !stmt(shown(*a, v)) && fits(*b, v) && !stmt(shown(*b, v)),
        Expr::Call(f, ts, s, _) => (forall|i: int| 0 <= i < s@.len() ==> fits(#[trigger] s@[i], v) && !stmt(shown(s@[i], v)))
            && (bin_named(plain_name(f@)) is Some ==> s@.len() == 2)
            && (bin_named(plain_name(f@)) is None && un_named(plain_name(f@)) is Some ==> s@.len() == 1)
            && (bin_named(plain_name(f@)) is None && un_named(plain_name(f@)) is None && !v && implicit(plain_name(f@)) ==> s@.len() == 1),
        Expr::MethodCall(o, f, s, _) => fits(*o, v) && !stmt(shown(*o, v)) && !number(shown(*o, v)) && (forall|i: int| 0 <= i < s@.len() ==> fits(#[trigger] s@[i], v) && !stmt(shown(s@[i], v))),
        Expr::Member(o, f, _) => fits(*o, v) && !stmt(shown(*o, v)) && !number(shown(*o, v)),
        Expr::ArrayElem(a, b, _) => fits(*a, v) && !stmt(shown(*a, v)) && !number(shown(*a, v)) && fits(*b, v) && !stmt(shown(*b, v)),
        // only classes are created: their names are written the same way everywhere
        Expr::New(t, s, _) => mangled_of(t@) == pretty_of(t@) && forall|i: int| 0 <= i < s@.len() ==> fits(#[trigger] s@[i], v) && !stmt(shown(s@[i], v)),
        Expr::Return(x, _) => match x { Some(x) => fits(*x, v) && !stmt(shown(*x, v)), None => true },
        Expr::Switch(x, cs, d, _) => fits(*x, v) && !stmt(shown(*x, v))
            && (forall|i: int| 0 <= i < cs@.len() ==> fits((#[trigger] cs@[i]).matcher, v) && !stmt(shown(cs@[i].matcher, v)) && fit_block(cs@[i].body, v))
            && (match d { Some(d) => fit_block(d, v), None => true }),
        Expr::If(c, a, b, _) => fits(*c, v) && !stmt(shown(*c, v)) && fit_block(a, v) && (match b { Some(b) => fit_block(b, v), None => true }),
        Expr::Conditional(a, b, c, _) => fits(*a, v) && !stmt(shown(*a, v)) && fits(*b, v) && !stmt(shown(*b, v)) && fits(*c, v) && !stmt(shown(*c, v)),
        Expr::While(c, b, _) => fits(*c, v) && !stmt(shown(*c, v)) && fit_block(b, v),
        Expr::BinOp(a, b, op, _) => fits(*a, v) && !stmt(shown(*a, v)) && fits(*b, v) && !stmt(shown(*b, v)),
        Expr::UnOp(a, op, _) => fits(*a, v) && !stmt(shown(*a, v)),
        _ => false,
    }
}
"""
    u.raw(fits)
    u.raw(steps(fits, ("fits", "fit_block")))
    gram = """
// ------------------------------------------------------------------ the grammar (compiler/src/parser.rs), expressions from tight to loose:
// 0 names, literals, calls, members, elements, `new`, `this`; 1 prefix operators; 2..10 binary operators; 11 assignments, `?:`, `as`
pub open spec fn binds(op: BinOp) -> int { match op { %s } }
pub open spec fn sign(op: BinOp) -> Seq<char> { match op { %s } }
pub open spec fn prefix(op: UnOp) -> Seq<char> { match op { %s } }
pub open spec fn callee(n: Seq<char>, ts: Seq<Seq<char>>) -> Seq<char> { if ts.len() == 0 { n } else { n + "<"@ + comma_list(ts) + ">"@ } }
pub open spec fn let_head(n: Seq<char>, ty: Option<Seq<char>>) -> Seq<char> { match ty { Some(ty) => "let "@ + n + ": "@ + pretty_of(ty), None => "let "@ + n } }
pub open spec fn left_of(op: BinOp) -> int { if binds(op) == 10 { 10 } else { binds(op) + 1 } }
pub open spec fn right_of(op: BinOp) -> int { if binds(op) == 10 { 11 } else { binds(op) } }
pub open spec fn rank(t: Tree) -> int {
    match t.tag {
        Tag::Assign | Tag::Cond | Tag::Cast(_) => 11,
        Tag::Bin(op) => binds(op) + 1,
        Tag::Un(_) => 1,
        Tag::Const(c) => if number(t) { 1 } else { 0 },
        _ => 0,
    }
}
pub open spec fn literal(c: KV, s: Seq<char>) -> bool {
    match c {
        KV::Text(Literal::String, t) => s == "\\\\""@ + escaped(t) + "\\\\""@,
        KV::Text(Literal::Name, t) => s == "n\\\\""@ + escaped(t) + "\\\\""@,
        KV::Text(Literal::Resource, t) => s == "r\\\\""@ + escaped(t) + "\\\\""@,
        KV::Text(Literal::TweakDbId, t) => s == "t\\\\""@ + escaped(t) + "\\\\""@,
        KV::I32(v) => s == decimal(v as int),
        KV::I64(v) => s == decimal(v as int) + "l"@,
        KV::U32(v) => s == decimal(v as int) + "u"@,
        KV::U64(v) => s == decimal(v as int) + "ul"@,
        // no digit that tells the value from its neighbours is missing
        KV::F32(v) => exists|n: int| n >= fraction(shortest_of(v)) && n >= 1 && s == fixed_of(n, v) && #[trigger] digits(n),
        KV::F64(v) => exists|n: int| n >= fraction(shortest_of(v)) && n >= 1 && s == fixed_of(n, v) + "d"@ && #[trigger] digits(n),
        KV::Bool(v) => s == if v { "true"@ } else { "false"@ },
    }
}
// s spells t where something that binds as loosely as lvl may stand: as it is, or in parentheses
#[verifier::opaque]
pub open spec fn writes(t: Tree, lvl: int, s: Seq<char>) -> bool
    decreases t, 1int
{
    (rank(t) <= lvl && plain(t, s)) || (exists|a: Seq<char>| plain(t, a) && s == #[trigger] ("("@ + a + ")"@))
}
#[verifier::opaque]
pub open spec fn heads(k: Seq<Tree>, lo: int, hi: int, s: Seq<char>) -> bool
    decreases k, hi - lo, 0int
{
    if lo >= hi { s == Seq::<char>::empty() }
    else { 0 <= hi - 1 < k.len() && exists|a: Seq<char>, b: Seq<char>| heads(k, lo, hi - 1, a) && writes(k[hi - 1], 11, b) && s == #[trigger] (a + b + ", "@) }
}
#[verifier::opaque]
pub open spec fn list(k: Seq<Tree>, lo: int, hi: int, s: Seq<char>) -> bool
    decreases k, hi - lo, 1int
{
    if lo >= hi { s == Seq::<char>::empty() }
    else { 0 <= hi - 1 < k.len() && exists|a: Seq<char>, b: Seq<char>| heads(k, lo, hi - 1, a) && writes(k[hi - 1], 11, b) && s == #[trigger] (a + b) }
}
#[verifier::opaque]
pub open spec fn stmts(k: Seq<Tree>, n: int, s: Seq<char>) -> bool
    decreases k, n
{
    if n <= 0 { s == Seq::<char>::empty() }
    else { n <= k.len() && exists|a: Seq<char>, w: Seq<char>, b: Seq<char>| stmts(k, n - 1, a) && spaces(w) && (if stmt(k[n - 1]) { plain(k[n - 1], b) } else { writes(k[n - 1], 11, b) }) && s == #[trigger] (a + w + b + ";\\n"@) }
}
#[verifier::opaque]
pub open spec fn arms(k: Seq<Tree>, lo: int, hi: int, s: Seq<char>) -> bool
    decreases k, hi - lo
{
    if lo >= hi { s == Seq::<char>::empty() }
    else {
        0 <= hi - 1 < k.len() && k[hi - 1].kids.len() == 2 && exists|a: Seq<char>, w: Seq<char>, m: Seq<char>, b: Seq<char>|
            arms(k, lo, hi - 1, a) && spaces(w) && writes(k[hi - 1].kids[0], 11, m) && stmts(k[hi - 1].kids[1].kids, k[hi - 1].kids[1].kids.len() as int, b)
                && s == #[trigger] (a + w + "case "@ + m + ":\\n"@ + b)
    }
}
#[verifier::opaque]
pub open spec fn plain(t: Tree, s: Seq<char>) -> bool
    decreases t, 0int
{
    match t.tag {
        Tag::Id(x) => s == x,
        Tag::Const(c) => literal(c, s),
        Tag::Null => s == "null"@,
        Tag::This => s == "this"@,
        Tag::Super => s == "super"@,
        Tag::Break => s == "break"@,
        Tag::Goto(n) => s == "goto "@ + decimal(n),
        Tag::Return => if t.kids.len() == 0 { s == "return"@ } else { exists|a: Seq<char>| writes(t.kids[0], 11, a) && s == #[trigger] ("return "@ + a) },
        Tag::Let(n, ty) => {
            let head = let_head(n, ty);
            if t.kids.len() == 0 { s == head } else { exists|a: Seq<char>| writes(t.kids[0], 11, a) && s == head + #[trigger] (" = "@ + a) }
        },
        Tag::Cast(ty) => t.kids.len() == 1 && exists|a: Seq<char>| writes(t.kids[0], 0, a) && s == #[trigger] (a + " as "@) + pretty_of(ty),
        Tag::Assign => t.kids.len() == 2 && exists|a: Seq<char>, b: Seq<char>| writes(t.kids[0], 10, a) && writes(t.kids[1], 11, b) && s == #[trigger] (a + " = "@ + b),
        Tag::Cond => t.kids.len() == 3 && exists|a: Seq<char>, b: Seq<char>, c: Seq<char>| writes(t.kids[0], 10, a) && writes(t.kids[1], 11, b) && writes(t.kids[2], 11, c) && s == #[trigger] (a + " ? "@ + b + " : "@ + c),
        Tag::Member(n) => t.kids.len() == 1 && exists|a: Seq<char>| writes(t.kids[0], 0, a) && s == #[trigger] (a + "."@) + n,
        Tag::Elem => t.kids.len() == 2 && exists|a: Seq<char>, b: Seq<char>| writes(t.kids[0], 0, a) && writes(t.kids[1], 11, b) && s == #[trigger] (a + "["@ + b + "]"@),
        Tag::Method(n) => t.kids.len() >= 1 && exists|a: Seq<char>, b: Seq<char>| writes(t.kids[0], 0, a) && list(t.kids, 1, t.kids.len() as int, b) && s == #[trigger] (a + "."@) + n + #[trigger] ("("@ + b + ")"@),
        Tag::New(ty) => exists|b: Seq<char>| list(t.kids, 0, t.kids.len() as int, b) && s == "new "@ + pretty_of(ty) + #[trigger] ("("@ + b + ")"@),
        Tag::Call(n, ts) => exists|b: Seq<char>| list(t.kids, 0, t.kids.len() as int, b) && s == callee(n, ts) + #[trigger] ("("@ + b + ")"@),
        // operators group to the left; assignments to the right
        Tag::Bin(op) => t.kids.len() == 2 && exists|a: Seq<char>, b: Seq<char>| writes(t.kids[0], left_of(op), a) && writes(t.kids[1], right_of(op), b)
            && s == #[trigger] (a + " "@ + sign(op) + " "@ + b),
        Tag::Un(op) => t.kids.len() == 1 && exists|a: Seq<char>| writes(t.kids[0], 1, a) && s == #[trigger] (prefix(op) + a),
        Tag::While => t.kids.len() == 2 && exists|c: Seq<char>, b: Seq<char>, w: Seq<char>| writes(t.kids[0], 11, c) && stmts(t.kids[1].kids, t.kids[1].kids.len() as int, b) && spaces(w)
            && s == #[trigger] ("while "@ + c + " {\\n"@ + b + w + "}"@),
        Tag::If =>
            if t.kids.len() == 2 {
                exists|c: Seq<char>, b: Seq<char>, w: Seq<char>| writes(t.kids[0], 11, c) && stmts(t.kids[1].kids, t.kids[1].kids.len() as int, b) && spaces(w)
                    && s == #[trigger] ("if "@ + c + " {\\n"@ + b + w + "}"@)
            } else {
                t.kids.len() == 3 && exists|c: Seq<char>, b: Seq<char>, w: Seq<char>, e: Seq<char>, x: Seq<char>| writes(t.kids[0], 11, c) && stmts(t.kids[1].kids, t.kids[1].kids.len() as int, b) && spaces(w)
                    && stmts(t.kids[2].kids, t.kids[2].kids.len() as int, e) && spaces(x)
                    && s == #[trigger] ("if "@ + c + " {\\n"@ + b + w + "}"@ + " else {\\n"@ + e + x + "}"@)
            },
        Tag::Switch => {
            let d = t.kids.len() > 1 && t.kids.last().tag is Default;
            let n = if d { t.kids.len() - 1 } else { t.kids.len() as int };
            t.kids.len() >= 1 && if d {
                t.kids.last().kids.len() == 1 && exists|x: Seq<char>, c: Seq<char>, u: Seq<char>, b: Seq<char>, w: Seq<char>| writes(t.kids[0], 11, x) && arms(t.kids, 1, n, c) && spaces(u)
                    && stmts(t.kids.last().kids[0].kids, t.kids.last().kids[0].kids.len() as int, b) && spaces(w)
                    && s == #[trigger] ("switch "@ + x + " {\\n"@ + c + u + "default:\\n"@ + b + w + "}"@)
            } else {
                exists|x: Seq<char>, c: Seq<char>, w: Seq<char>| writes(t.kids[0], 11, x) && arms(t.kids, 1, n, c) && spaces(w) && s == #[trigger] ("switch "@ + x + " {\\n"@ + c + w + "}"@)
            }
        },
        _ => false,
    }
}
""" % (", ".join("BinOp::%s => %d" % (k, v[1]) for k, v in BIN.items()), ", ".join('BinOp::%s => "%s"@' % (k, v[0]) for k, v in BIN.items()), ", ".join('UnOp::%s => "%s"@' % (k, v) for k, v in UN.items()))
    gram = gram.replace('\\\\"', '\\"')
    u.raw(gram)
    u.raw(steps(gram, GRAMMAR))
    u.raw("""
// the rules for one tree
pub proof fn rules(t: Tree)
    ensures forall|s: Seq<char>| #[trigger] plain(t, s) == plain_body(t, s), forall|l: int, s: Seq<char>| #[trigger] writes(t, l, s) == writes_body(t, l, s),
{
    assert forall|s: Seq<char>| #[trigger] plain(t, s) == plain_body(t, s) by { plain_is(t, s); }
    assert forall|l: int, s: Seq<char>| #[trigger] writes(t, l, s) == writes_body(t, l, s) by { writes_is(t, l, s); }
}
pub open spec fn place(p: Option<ParentOp>) -> int {
    match p {
        None => 11,
        Some(ParentOp::Assign) => 10,
        Some(ParentOp::UnOp) => 1,
        Some(ParentOp::Dot) => 0,
        Some(ParentOp::BinOpLeft(op)) => left_of(op),
        Some(ParentOp::BinOpRight(op)) => right_of(op),
    }
}
// only the statements and arguments listed matter
pub proof fn same_stmts(k: Seq<Tree>, l: Seq<Tree>, n: int, s: Seq<char>)
    requires stmts(k, n, s), n <= l.len(), forall|i: int| 0 <= i < n ==> k[i] == l[i],
    ensures stmts(l, n, s),
    decreases n,
{
    stmts_is(k, n, s); stmts_is(l, n, s);
    if n > 0 {
        let (a, w, b) = choose|a: Seq<char>, w: Seq<char>, b: Seq<char>| stmts(k, n - 1, a) && spaces(w) && (if stmt(k[n - 1]) { plain(k[n - 1], b) } else { writes(k[n - 1], 11, b) }) && s == #[trigger] (a + w + b + ";\\n"@);
        same_stmts(k, l, n - 1, a);
    }
}
pub proof fn same_heads(k: Seq<Tree>, l: Seq<Tree>, d: int, n: int, s: Seq<char>)
    requires heads(k, 0, n, s), 0 <= d, n + d <= l.len(), forall|i: int| 0 <= i < n ==> k[i] == l[i + d],
    ensures heads(l, d, n + d, s),
    decreases n,
{
    heads_is(k, 0, n, s); heads_is(l, d, n + d, s);
    if n > 0 {
        let (a, b) = choose|a: Seq<char>, b: Seq<char>| heads(k, 0, n - 1, a) && writes(k[n - 1], 11, b) && s == #[trigger] (a + b + ", "@);
        same_heads(k, l, d, n - 1, a);
    }
}
pub proof fn same_list(k: Seq<Tree>, l: Seq<Tree>, d: int, n: int, s: Seq<char>)
    requires list(k, 0, n, s), 0 <= d, n + d <= l.len(), forall|i: int| 0 <= i < n ==> k[i] == l[i + d],
    ensures list(l, d, n + d, s),
{
    list_is(k, 0, n, s); list_is(l, d, n + d, s);
    if n > 0 {
        let (a, b) = choose|a: Seq<char>, b: Seq<char>| heads(k, 0, n - 1, a) && writes(k[n - 1], 11, b) && s == #[trigger] (a + b);
        same_heads(k, l, d, n - 1, a);
    }
}
pub proof fn heads_rule(k: Seq<Tree>, lo: int, hi: int)
    ensures forall|s: Seq<char>| #[trigger] heads(k, lo, hi, s) == heads_body(k, lo, hi, s),
{ assert forall|s: Seq<char>| #[trigger] heads(k, lo, hi, s) == heads_body(k, lo, hi, s) by { heads_is(k, lo, hi, s); } }
pub proof fn list_rule(k: Seq<Tree>, lo: int, hi: int)
    ensures forall|s: Seq<char>| #[trigger] list(k, lo, hi, s) == list_body(k, lo, hi, s),
{ assert forall|s: Seq<char>| #[trigger] list(k, lo, hi, s) == list_body(k, lo, hi, s) by { list_is(k, lo, hi, s); } }
pub proof fn stmts_rule(k: Seq<Tree>, n: int)
    ensures forall|s: Seq<char>| #[trigger] stmts(k, n, s) == stmts_body(k, n, s),
{ assert forall|s: Seq<char>| #[trigger] stmts(k, n, s) == stmts_body(k, n, s) by { stmts_is(k, n, s); } }
pub proof fn arms_rule(k: Seq<Tree>, lo: int, hi: int)
    ensures forall|s: Seq<char>| #[trigger] arms(k, lo, hi, s) == arms_body(k, lo, hi, s),
{ assert forall|s: Seq<char>| #[trigger] arms(k, lo, hi, s) == arms_body(k, lo, hi, s) by { arms_is(k, lo, hi, s); } }
pub open spec fn call_of(f: Ident, ts: Vec<TypeName>, s: Vec<Expr>) -> Expr { Expr::Call(f, ts, s, Span { low: Pos(0), high: Pos(0) }) }
pub proof fn about(e: Expr, v: bool)
    ensures
        e matches Expr::Call(f, ts, s, _) ==> fits(call_of(f, ts, s), v) == fits(e, v) && shown(call_of(f, ts, s), v) == shown(e, v),
        e matches Expr::MethodCall(o, f, s, _) ==> forall|b: Seq<char>| list(shown_all(s, v), 0, s@.len() as int, b) ==> #[trigger] list(shown(e, v).kids, 1, shown(e, v).kids.len() as int, b),
        e matches Expr::New(t, s, _) ==> shown_all(s, v) == shown_all_body(s, v) && (forall|b: Seq<char>| #[trigger] list(shown(e, v).kids, 0, s@.len() as int, b) == list_body(shown(e, v).kids, 0, s@.len() as int, b)) && ("("@ + Seq::<char>::empty()) + ")"@ == "("@ + ")"@,
{
    fits_is(e, v); shown_is(e, v);
    match e {
        Expr::Call(f, ts, s, _) => { fits_is(call_of(f, ts, s), v); shown_is(call_of(f, ts, s), v); }
        Expr::MethodCall(o, f, s, _) => {
            shown_all_is(s, v);
            let k = shown(e, v).kids;
            assert forall|b: Seq<char>| list(shown_all(s, v), 0, s@.len() as int, b) implies #[trigger] list(k, 1, k.len() as int, b) by { same_list(shown_all(s, v), k, 1, s@.len() as int, b); }
        }
        Expr::New(t, s, _) => { shown_all_is(s, v); list_rule(shown(e, v).kids, 0, s@.len() as int); assert(("("@ + Seq::<char>::empty()) + ")"@ =~= "("@ + ")"@); }
        _ => {}
    }
}
// what was written spells the tree
pub open spec fn spelt(t: Tree, p: Option<ParentOp>, a: Seq<char>, b: Seq<char>) -> bool {
    grew(a, b) && if stmt(t) { plain(t, added(a, b)) } else { writes(t, place(p), added(a, b)) }
}
""")


OUT = [("W: Write", ""), ("&mut W", "&mut Out")]
IO = "old(out)@, final(out)@"
LOYAL = "final(out).refuses() == old(out).refuses(), r is Err ==> old(out).refuses(), "
SAMEV = "out.refuses() == old(out).refuses(), "


def io(n):
    return [("<W: Write>", ""), ("&mut W", "&mut Out")]


TAKE = [("($a).min($b)", "smaller($a, $b)"), ("for $p:id in $v:id.iter().take($n) {", "let stop = smaller($n, $v.len()); for at in 0..stop { let $p = &$v[at];"), ("$v:id.last().unwrap()", "&$v[$v.len() - 1]")]


def writer(u, mode="verify", joining=True):
    u.enum(P, "ParentOp", attrs="#[derive(Clone, Copy)]")
    spec(u)
    if joining:
        u.raw("broadcast use joins;")
    u.impl(AST, "BinOp", {
        "precedence": F("ensures r == binds(self),"),
        "associative": F("ensures r ==> binds(self) < 10,"),
        "does_associate": F("ensures r ==> binds(self) + 1 <= (if binds(parent) == 10 { 10 } else { binds(parent) + 1 }),"),
    }, mode=mode)
    u.fn(P, "format_binop", F("ensures r@ == sign(op),"))
    u.fn(P, "format_unop", F("ensures r@ == prefix(op),"))
    u.fn(P, "function_name", F("ensures r@ == plain_name(name@),", rw=[("name.as_ref().split(';').next().expect($m)", "before_semicolon(name)")]))
    u.fn(P, "float_precision", F("ensures r >= fraction(shortest@), r >= 1,",
         rw=[("shortest.split_once('.').map_or(0, |(_, $f:id)| $f.len()).max($n)", "larger(fraction_digits(shortest), $n)")]))
    c = {n: norm_const(u, n) for n in ("INDENT_CHAR", "INDENT_SIZE")}
    u.fn(P, "write_indent", F("requires depth < 0x1000_0000, ensures " + LOYAL + "r is Ok ==> grew(%s) && added(%s) == indent(depth) && spaces(added(%s))," % (IO, IO, IO), sig_rw=io(1), pieces=True,
         rw=[("INDENT_CHAR", c["INDENT_CHAR"]), ("INDENT_SIZE", c["INDENT_SIZE"])], pre="proof { nothing(out@); blank(%s * depth); assert(depth == 0 ==> %s * depth == 0); }" % (c["INDENT_SIZE"], c["INDENT_SIZE"])))
    nest = "depth < 0x1000_0000,"
    expr = lambda e, p: "ensures " + LOYAL + "r is Ok ==> spelt(shown(%s, verbose), %s, %s)," % (e, p, IO)
    u.impl(AST, "Expr<N>", {"is_empty": F("ensures r == empty(*self),", attrs=NODEC, pre="proof { empty_is(*self); }", sig_rw=[],
        rw=[("$v:id.exprs.iter().all(Expr::is_empty)", "{ let mut every = true; let mut at = 0; while every && at < $v.exprs.len() { every = $v.exprs[at].is_empty(); at = at + 1; } every }")],
        loops=[L("while", "every == (forall|j: int| 0 <= j < at ==> empty(#[trigger] seq.exprs@[j])), at <= seq.exprs@.len(),")])}, mode=mode, hdr="impl Expr")
    u.fn(P, "write_seq", F("requires fit_block(*code, verbose), " + nest + " ensures " + LOYAL + "r is Ok ==> grew(%s) && stmts(shown_block(*code, verbose).kids, shown_block(*code, verbose).kids.len() as int, added(%s))," % (IO, IO),
         sig_rw=io(1), pieces=True, attrs=NODEC,
         rw=[("for $p:id in $v.iter().filter(|$q:id| $c) {", "let mut at = 0; while at < $v.len() { let $p = &$v[at]; at = at + 1; let $q = $p; if !($c) { continue; }")],
         pre="let ghost g_o = out@; let ghost g_v = verbose; proof { nothing(out@); fit_block_is(*code, verbose); kept_is(code.exprs, 0, verbose); stmts_rule(kept(code.exprs, 0, verbose), 0); shown_block_is(*code, verbose); }",
         loops=[L("while", SAMEV + "depth < 0x1000_0000, at <= code.exprs@.len(), fit_block_body(*code, verbose), grew(g_o, out@), stmts(kept(code.exprs, at as int, verbose), kept(code.exprs, at as int, verbose).len() as int, added(g_o, out@)),",
                  start="""proof {
                      let k0 = kept(code.exprs, at as int, verbose); let k1 = kept(code.exprs, at + 1, verbose);
                      kept_is(code.exprs, at + 1, verbose);
                      if !empty(code.exprs@[at as int]) { same_stmts(k0, k1, k0.len() as int, added(g_o, out@)); stmts_rule(k1, k1.len() as int); assert(k1.len() == k0.len() + 1); assert(k1.last() == shown(code.exprs@[at as int], verbose)); }
                  }""")]))
    u.fn(P, "write_expr", F("requires fits(*expr, verbose), %s %s" % (nest, expr("*expr", "None")), sig_rw=io(1), attrs=NODEC))
    u.fn(P, "write_args", F("requires values(*params, verbose), ensures " + LOYAL + "r is Ok ==> grew(%s) && exists|b: Seq<char>| list(shown_all(*params, verbose), 0, params@.len() as int, b) && added(%s) == #[trigger] (\"(\"@ + b + \")\"@)," % (IO, IO),
         sig_rw=io(1) + [("&[Expr]", "&Vec<Expr>")], pieces=True, attrs=NODEC, rw=TAKE,
         pre="let ghost g_k = shown_all(*params, verbose); proof { shown_all_is(*params, verbose); list_rule(g_k, 0, params@.len() as int); heads_rule(g_k, 0, 0); assert((\"(\"@ + Seq::<char>::empty()) + \")\"@ =~= \"(\"@ + \")\"@); }",
         loops=[L("for", SAMEV + "stop == params@.len() - 1, values(*params, verbose), g_k == shown_all_body(*params, verbose), grew(g_o, out@), heads(g_k, 0, at as int, added(g_o, out@)),", pre="let ghost g_o = out@; proof { nothing(out@); }",
                  start="proof { heads_rule(g_k, 0, at + 1); }")]))
    u.fn(P, "write_unop", F("requires fits(*param, verbose), !stmt(shown(*param, verbose)), ensures " + LOYAL + "r is Ok ==> spelt(node(Tag::Un(op), seq![shown(*param, verbose)]), parent_op, %s)," % IO, sig_rw=io(1), pieces=True, attrs=NODEC,
         pre="proof { rules(node(Tag::Un(op), seq![shown(*param, verbose)])); }"))
    bin_ = "node(Tag::Bin(op), seq![shown(*lhs, verbose), shown(*rhs, verbose)])"
    u.fn(P, "write_binop", F("requires fits(*lhs, verbose), !stmt(shown(*lhs, verbose)), fits(*rhs, verbose), !stmt(shown(*rhs, verbose)), ensures " + LOYAL + "r is Ok ==> spelt(%s, parent_op, %s)," % (bin_, IO), sig_rw=io(1), pieces=True, attrs=NODEC,
         pre="proof { rules(%s); }" % bin_))
    call = "call_of(*name, *type_params, *params)"
    u.fn(P, "write_call", F("requires fits(%s, verbose), parent_op == Some(ParentOp::Dot) ==> !number(shown(%s, verbose)), %s" % (call, call, expr(call, "parent_op")), sig_rw=io(1) + [("&[Expr]", "&Vec<Expr>"), ("&[TypeName]", "&Vec<TypeName>")], pieces=True, attrs=NODEC,
         rw=[("$t:id.iter().map(TypeName::pretty).format(\", \")", "pretty_list($t)"), ("BinOp::from_str($x:id)", "bin_from_str($x)"), ("UnOp::from_str($x:id)", "un_from_str($x)"), ("fun_name == $s", "is_text(fun_name, $s)")],
         pre="proof { fits_is(%s, verbose); shown_is(%s, verbose); shown_all_is(*params, verbose); rules(shown(%s, verbose)); if params@.len() == 2 { assert(shown_all(*params, verbose) =~= seq![shown(params@[0], verbose), shown(params@[1], verbose)]); } if params@.len() == 1 { assert(shown_all(*params, verbose) =~= seq![shown(params@[0], verbose)]); } }" % (call, call, call)))
    u.fn(P, "write_expr_nested", F("requires fits(*expr, verbose), parent_op == Some(ParentOp::Dot) ==> !number(shown(*expr, verbose)), %s %s" % (nest, expr("*expr", "parent_op")), sig_rw=io(1), pieces=True, attrs=NODEC + "\n#[verifier::spinoff_prover]", cases=40,
         rw=TAKE + [("str::escape_default($x)", "escape($x)"), ("&$l:id.to_string()", "shortest_text($l)"), ("panic!($m)", "never()"), ("depth + $n", "deeper(depth, $n)"),
                    ("for SwitchCase { matcher, body } in $v:id {", "let stop = $v.len(); for at in 0..stop { let SwitchCase { matcher, body } = &$v[at];")],
         pre="""let ghost g_k = shown(*expr, verbose).kids; proof { nothing(out@); fits_is(*expr, verbose); shown_is(*expr, verbose); rules(shown(*expr, verbose));
             about(*expr, verbose); }""",
         loops=[L("for", SAMEV + "stop == params@.len() - 1, depth < 0x1000_0000, values(*params, verbose), g_k == shown_all_body(*params, verbose), grew(g_o, out@), heads(g_k, 0, at as int, added(g_o, out@)),",
                  pre="let ghost g_o = out@; proof { nothing(out@); shown_all_is(*params, verbose); list_rule(g_k, 0, params@.len() as int); heads_rule(g_k, 0, 0); }", start="proof { heads_rule(g_k, 0, at + 1); }"),
                L("for", SAMEV + "stop == cases@.len(), g_k.len() >= 1 + stop, forall|i: int| 0 <= i < cases@.len() ==> fits((#[trigger] cases@[i]).matcher, verbose) && !stmt(shown(cases@[i].matcher, verbose)) && fit_block(cases@[i].body, verbose), forall|i: int| 0 <= i < cases@.len() ==> #[trigger] g_k[1 + i] == node(Tag::Case, seq![shown(cases@[i].matcher, verbose), shown_block(cases@[i].body, verbose)]), grew(g_o, out@), arms(g_k, 1, 1 + at as int, added(g_o, out@)),",
                  pre="let ghost g_o = out@; proof { nothing(out@); shown_cases_is(*cases, verbose); arms_rule(g_k, 1, 1); }", start="proof { arms_rule(g_k, 1, 2 + at); assert(g_k[1 + at as int].kids.len() == 2); }")]))


def norm_const(u, n):
    t = u.src(P).item("const", n).text
    return t[t.index("=") + 1:].strip().rstrip(";").strip()


def build(repo):
    u = Unit("printer", repo)
    decompile.base(u)
    writer(u)
    return u
