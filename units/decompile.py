"""contracts for the decompiler (decompiler/src/lib.rs): trees mirror the bytecode"""
import re
from vgen import Unit, F, L
from rsx import LostAnchor, lex, norm, strip_inner_attrs
import instr
import codebody
import cursor
import pool
import strings
from instr import B, BU, DF
from codec import contract_file
from optable import TABLE

D = "decompiler/src/lib.rs"
AST = "core/src/ast.rs"
ERR = "decompiler/src/error.rs"

# D3: shared strings, boxed slices as vectors, the syntax tree at its only instance
RW = [("Seq<SourceAst>", "Block"), ("Expr<SourceAst>", "Expr"), ("Seq::new($x)", "Block::new($x)"), ("SwitchCase<SourceAst>", "SwitchCase"),
      ("$x:id.into_boxed_slice()", "$x"), ("[].into()", "vec![]"), ("[$x:id].into()", "vec![$x]"),
      ("Expr::EMPTY", "Expr::Seq(Block::new(vec![]))"),
      ("vec![self.consume_with(None, block)?]", "one(self.consume_with(None, block)?)"),
      ("self.code.peek() == Some(Instr::$x:id)", "matches!(self.code.peek(), Some(Instr::$x))"),
      ("op.into()", "op.op_name()"), ("$x:id.as_ref().starts_with($s)", "text_starts_with(&$x, $s)"),
      ("TypeName::from_repr(&$x)", "TypeName::from_repr(&$x)"), ("assert!($c, $m)", "must($c)"),
      ]

# name and number of operands of the operations that have no syntax of their own
INTRINSIC = {}
for k, names in {
    ("Equals", 2): "Equals RefStringEqualsString StringEqualsRefString", ("NotEquals", 2): "NotEquals RefStringNotEqualsString StringNotEqualsRefString",
    ("Delete", 1): "Delete", ("ArrayClear", 1): "ArrayClear", ("ArraySize", 1): "ArraySize StaticArraySize", ("ArrayResize", 2): "ArrayResize",
    ("ArrayFindFirst", 2): "ArrayFindFirst ArrayFindFirstFast StaticArrayFindFirst StaticArrayFindFirstFast",
    ("ArrayFindLast", 2): "ArrayFindLast ArrayFindLastFast StaticArrayFindLast StaticArrayFindLastFast",
    ("ArrayContains", 2): "ArrayContains ArrayContainsFast StaticArrayContains StaticArrayContainsFast",
    ("ArrayCount", 2): "ArrayCount ArrayCountFast StaticArrayCount StaticArrayCountFast",
    ("ArrayPush", 2): "ArrayPush", ("ArrayPop", 1): "ArrayPop", ("ArrayInsert", 3): "ArrayInsert", ("ArrayRemove", 2): "ArrayRemove ArrayRemoveFast",
    ("ArrayGrow", 2): "ArrayGrow", ("ArrayErase", 2): "ArrayErase ArrayEraseFast", ("ArrayLast", 1): "ArrayLast StaticArrayLast",
    ("ArraySort", 1): "ArraySort", ("ArraySortByPredicate", 2): "ArraySortByPredicate", ("IsDefined", 1): "RefToBool WeakRefToBool VariantIsDefined",
    ("EnumInt", 1): "EnumToI32", ("ToString", 1): "ToString VariantToString", ("ToVariant", 1): "ToVariant", ("VariantIsRef", 1): "VariantIsRef",
    ("VariantIsArray", 1): "VariantIsArray", ("VariantTypeName", 1): "VariantTypeName", ("WeakRefToRef", 1): "WeakRefToRef",
    ("RefToWeakRef", 1): "RefToWeakRef", ("AsRef", 1): "AsRef", ("Deref", 1): "Deref",
}.items():
    for n in names.split():
        INTRINSIC[n] = k
OPS = {n: len(o) for n, _, o in TABLE}


def pat(n, binds=()):
    k = OPS[n]
    return "Instr::%s%s" % (n, "(%s)" % ", ".join(binds[i] if i < len(binds) else "_" for i in range(k)) if k else "")


def ast(u):
    """the syntax tree, at Name = SourceAst"""
    src = u.src(AST)

    def mono(kind, name):
        t = strip_inner_attrs(src.item(kind, name).text, keep=())
        t = re.sub(r"<\s*(Name|N)\s*>\s*where.*?\{", " {", t, count=1, flags=re.S)
        t = re.sub(r"^pub\s+", "", t)
        for a, b in [("Name::Reference", "Ident"), ("Name::Callable", "Ident"), ("Name::Local", "Ident"), ("Name::Function", "Ident"), ("Name::Member", "Ident"),
                     ("Name::Type", "TypeName"), ("Box<[Self]>", "Vec<Self>"), ("Box<[TypeName]>", "Vec<TypeName>"), ("Seq<Name>", "Block"), ("SwitchCase<Name>", "SwitchCase"),
                     ("Expr<N>", "Expr"), ("Seq<N>", "Block"), ("Ref<str>", "RefStr")]:
            from rsx import rewrite
            t = rewrite(t, a, b)
        if name == "Seq":
            t = re.sub(r"\bstruct Seq\b", "struct Block", t)
        u.raw("pub " + t)
    u.raw("""
// names are shared strings; a type name is its spelling in the pool ("array:ref:Foo"): contracts ASSUMED
#[verifier::external_body]
pub struct Ident { _p: () }
impl View for Ident { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Clone for Ident { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
impl Ident {
    #[verifier::external_body]
    pub fn from_heap(t: RefStr) -> (r: Ident) ensures r@ == t@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from_static(t: &'static str) -> (r: Ident) ensures r@ == t@ { unimplemented!() }
}
#[verifier::external_body]
pub struct TypeName { _p: () }
impl View for TypeName { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl TypeName {
    #[verifier::external_body]
    pub fn from_repr(t: &RefStr) -> (r: TypeName) ensures r@ == t@ { unimplemented!() }
    #[verifier::external_body]
    pub fn basic_owned(t: RefStr) -> (r: TypeName) ensures r@ == t@ { unimplemented!() }
}
#[verifier::external_body]
pub fn text_starts_with(t: &Ident, p: &str) -> (r: bool) ensures r == p@.is_prefix_of(t@) { unimplemented!() }
#[verifier::external_body]
pub fn elsewhere<T>() -> T requires false { unimplemented!() }
pub fn must(c: bool) requires c {}
pub fn one(e: Expr) -> (r: Vec<Expr>) ensures r@ == seq![e] { let mut v = Vec::new(); v.push(e); v }
#[derive(Clone, Copy)]
pub struct Pos(pub u32);
#[derive(Clone, Copy)]
pub struct Span { pub low: Pos, pub high: Pos }
impl Span { pub const ZERO: Span = Span { low: Pos(0), high: Pos(0) }; }
""")
    u.enum(AST, "Literal")
    u.enum(AST, "Constant", rw=[("Ref<str>", "RefStr")])
    u.enum(AST, "BinOp", attrs="#[derive(Clone, Copy)]")
    u.enum(AST, "UnOp", attrs="#[derive(Clone, Copy)]")
    u.struct(AST, "Target", attrs="#[derive(Clone, Copy)]")
    mono("enum", "Expr")
    mono("struct", "SwitchCase")
    mono("struct", "Seq")


def errors(u):
    """Error and the conversions thiserror derives from its #[from] attributes"""
    it = u.src(ERR).item("enum", "Error")
    ax, arms = [], []
    for m in re.finditer(r"(\w+)\s*\(([^()]*)\)\s*,", re.sub(r"#\[error\([^\]]*\)\]", "", it.text)):
        v, t = m.group(1), norm(m.group(2))
        frm = "#[from]" in t.replace(" ", "")
        t = re.sub(r"#\s*\[\s*from\s*\]", "", t).strip()
        t = {"io :: Error": "IoError", "fmt :: Error": "FmtError", "& 'static str": "&'static str"}.get(t, t)
        t = t.replace("io::Error", "IoError").replace("fmt::Error", "FmtError")
        arms.append("    %s(%s)," % (v, t))
        if frm:
            u.raw("impl From<%s> for Error { #[verifier::external_body] fn from(e: %s) -> (r: Error) { unimplemented!() } }" % (t, t))
            ax.append("pub broadcast axiom fn from_%s(e: %s, r: Error) requires #[trigger] vstd::std_specs::control_flow::spec_from(e, r), ensures r == Error::%s(e);" % (v, t, v))
    u.raw("pub struct IoError { _p: () }\npub struct FmtError { _p: () }\npub enum Error {\n%s\n}" % "\n".join(arms))
    names = re.findall(r"axiom fn (from_\w+)", "\n".join(ax))
    u.raw("// thiserror: `?` wraps the error in the variant marked #[from]: contracts ASSUMED\npub mod froms {\nuse vstd::prelude::*;\nuse super::*;\n%s\npub broadcast group group_from { %s }\n}\nbroadcast use froms::group_from;" % ("\n".join(ax), ", ".join(names)))


def intrinsics(u, mode="verify"):
    src = u.src(B)
    it = src.item("enum", "IntrinsicOp")
    body = it.text[it.text.index("{"):]
    rows = []
    for m in re.finditer(r"((?:#\[[^\]]*\]\s*)*)(\w+)\s*,", body):
        s = re.search(r'serialize\s*=\s*"([^"]*)"', m.group(1))
        rows.append((m.group(2), s.group(1) if s else m.group(2)))
    u.enum(B, "IntrinsicOp", attrs="#[derive(Clone, Copy)]")
    u.raw("""
// strum::IntoStaticStr on IntrinsicOp: the name of the variant (or its serialize attribute): contract ASSUMED, read from the declaration
pub open spec fn op_name_of(op: IntrinsicOp) -> Seq<char> { match op { %s } }
impl IntrinsicOp {
    #[verifier::external_body]
    pub fn op_name(self) -> (r: &'static str) ensures r@ == op_name_of(self) { unimplemented!() }
}
""" % ", ".join('IntrinsicOp::%s => "%s"@' % r for r in rows))
    args = {k[0]: k[1] for k in INTRINSIC.values()}
    args.update({"IntEnum": 1, "FromVariant": 1})
    u.raw("pub open spec fn op_args(op: IntrinsicOp) -> int { match op { %s } }" % ", ".join("IntrinsicOp::%s => %d" % (v, args.get(n, 0)) for v, n in rows))
    u.impl(B, "IntrinsicOp", {"arg_count": F("ensures r == op_args(*self),")}, mode=mode)


MUTUAL = ("read", "flow", "path", "switch_at", "branches", "reads", "args")
TAKEN = ("resolve", "settle")


def steps(t):
    """each of the mutually recursive functions is opaque; its defining equation is a lemma"""
    out = []
    for f in MUTUAL + TAKEN:
        m = re.search(r"#\[verifier::opaque\]\npub open spec fn %s\(([^\n]*?)\) -> ([^\n]+)\n\s*decreases[^\n]*\n\{\n(.*?)\n\}\n" % f, t, re.S)
        names = ", ".join(re.findall(r"(\w+):", re.sub(r"<[^<>]*>|\([^()]*\)", "", m.group(1))))
        out.append("pub open spec fn %s_body(%s) -> %s {\n%s\n}\n" % (f, m.group(1), m.group(2), m.group(3)))
        out.append("pub proof fn %s_is(%s)\n    ensures %s(%s) == %s_body(%s),\n{ %s }\n" % (f, m.group(1), f, names, f, names, " ".join("reveal(%s);" % x for x in (MUTUAL if f in MUTUAL else TAKEN))))
    return t + "\n".join(out)


def spec(u):
    rows = []

    def leaf(n, tag, binds=()):
        rows.append("            %s => R::Got(node(%s, Seq::empty()), i + 1)," % (pat(n, binds), tag))
    leaf("Null", "Tag::Null")
    leaf("WeakRefNull", "Tag::Null")
    leaf("This", "Tag::This")
    for n, v in [("I32One", "KV::I32(1)"), ("I32Zero", "KV::I32(0)"), ("I8Const", "KV::I32(v as i32)"), ("I16Const", "KV::I32(v as i32)"), ("I32Const", "KV::I32(v)"),
                 ("I64Const", "KV::I64(v)"), ("U8Const", "KV::U32(v as u32)"), ("U16Const", "KV::U32(v as u32)"), ("U32Const", "KV::U32(v)"), ("U64Const", "KV::U64(v)"),
                 ("F32Const", "KV::F32(v)"), ("F64Const", "KV::F64(v)"), ("TrueConst", "KV::Bool(true)"), ("FalseConst", "KV::Bool(false)")]:
        leaf(n, "Tag::Const(%s)" % v, ("v",))
    for n, p, k in [("StringConst", "strings", "String"), ("NameConst", "names", "Name"), ("TweakDbIdConst", "tweakdb_ids", "TweakDbId"), ("ResourceConst", "resources", "Resource")]:
        rows.append("            %s => atom(resolves(cx.pool.%s, x.value as int), |t: Seq<char>| Tag::Const(KV::Text(Literal::%s, t)), i + 1)," % (pat(n, "x"), p, k))
    for n in ("Local", "Param"):
        rows.append("            %s => atom(named(cx.pool, x.value as int), |t: Seq<char>| Tag::Id(t), i + 1)," % pat(n, "x"))
    for n in ("Target", "ExternalVar", "SwitchLabel", "SwitchDefault", "ParamEnd"):
        rows.append("            %s => R::Bad," % pat(n))
    for n in ("Nop", "Breakpoint", "StartProfiling"):
        leaf(n, "Tag::Block")
    for n, (name, k) in INTRINSIC.items():
        rows.append('            %s => form(reads(cx, i + 1, %d), Tag::Call("%s"@, Seq::empty())),' % (pat(n), k, name))
    for n, name in (("I32ToEnum", "IntEnum"), ("FromVariant", "FromVariant")):
        rows.append('            %s => match named(cx.pool, t.value as int) { Some(ty) => form(reads(cx, i + 1, 1), Tag::Call("%s"@, seq![ty])), None => blame(reads(cx, i + 1, 1)) },' % (pat(n, "t"), name))
    for n, k, tag, b in (("DynamicCast", "1", "Tag::Cast(ty)", ("t",)), ("Construct", "n as nat", "Tag::New(ty)", ("n", "t"))):
        rows.append("            %s => match named(cx.pool, t.value as int) { Some(ty) => form(reads(cx, i + 1, %s), %s), None => blame(reads(cx, i + 1, %s)) }," % (pat(n, b), k, tag, k))
    rows.append("            %s => atom(named(cx.pool, t.value as int), |ty: Seq<char>| Tag::New(ty), i + 1)," % pat("New", "t"))
    rows.append("            %s => form(reads(cx, i + 1, 2), Tag::Assign)," % pat("Assign"))
    rows.append("            %s => form(reads(cx, i + 1, 3), Tag::Cond)," % pat("Conditional"))
    for n in ("ArrayElement", "StaticArrayElement"):
        rows.append("            %s => form(reads(cx, i + 1, 2), Tag::Elem)," % pat(n))
    u.raw(steps("""
// ------------------------------------------------------------------ trees
pub ghost enum KV { Text(Literal, Seq<char>), F32(f32), F64(f64), I32(i32), I64(i64), U32(u32), U64(u64), Bool(bool) }
pub ghost enum Tag {
    Null, This, Super, Break, Return, Block, Assign, Elem, Cond, If, While, Switch, Case, Default, Foreign,
    Const(KV), Id(Seq<char>), Member(Seq<char>), Cast(Seq<char>), New(Seq<char>), Call(Seq<char>, Seq<Seq<char>>), Method(Seq<char>), Goto(int),
    Let(Seq<char>, Option<Seq<char>>),
}
pub ghost struct Tree { pub tag: Tag, pub kids: Seq<Tree> }
pub open spec fn node(t: Tag, k: Seq<Tree>) -> Tree { Tree { tag: t, kids: k } }
pub open spec fn kv(c: Constant) -> KV {
    match c {
        Constant::String(l, t) => KV::Text(l, t@), Constant::F32(v) => KV::F32(v), Constant::F64(v) => KV::F64(v), Constant::I32(v) => KV::I32(v),
        Constant::I64(v) => KV::I64(v), Constant::U32(v) => KV::U32(v), Constant::U64(v) => KV::U64(v), Constant::Bool(v) => KV::Bool(v),
    }
}
pub open spec fn type_texts(v: Seq<TypeName>) -> Seq<Seq<char>> { v.map_values(|t: TypeName| t@) }
pub open spec fn block(b: Block) -> Tree decreases b { node(Tag::Block, trees(b.exprs)) }
pub open spec fn trees(v: Vec<Expr>) -> Seq<Tree> decreases v {
    Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { tree(v@[i]) } else { arbitrary() })
}
pub open spec fn case_trees(v: Vec<SwitchCase>) -> Seq<Tree> decreases v {
    Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { node(Tag::Case, seq![tree(v@[i].matcher), block(v@[i].body)]) } else { arbitrary() })
}
// the shape of a syntax tree: everything but the source spans
pub open spec fn tree(e: Expr) -> Tree decreases e {
    match e {
        Expr::Ident(x, _) => node(Tag::Id(x@), seq![]),
        Expr::Constant(c, _) => node(Tag::Const(kv(c)), seq![]),
        Expr::Declare(x, t, v, _) => node(Tag::Let(x@, match t { Some(t) => Some((*t)@), None => None }), match v { Some(v) => seq![tree(*v)], None => seq![] }),
        Expr::Cast(t, x, _) => node(Tag::Cast(t@), seq![tree(*x)]),
        Expr::Assign(a, b, _) => node(Tag::Assign, seq![tree(*a), tree(*b)]),
        Expr::Call(f, ts, v, _) => node(Tag::Call(f@, type_texts(ts@)), trees(v)),
        Expr::MethodCall(o, f, v, _) => node(Tag::Method(f@), seq![tree(*o)] + trees(v)),
        Expr::Member(o, f, _) => node(Tag::Member(f@), seq![tree(*o)]),
        Expr::ArrayElem(a, b, _) => node(Tag::Elem, seq![tree(*a), tree(*b)]),
        Expr::New(t, v, _) => node(Tag::New(t@), trees(v)),
        Expr::Return(v, _) => node(Tag::Return, match v { Some(v) => seq![tree(*v)], None => seq![] }),
        Expr::Seq(b) => block(b),
        Expr::Switch(x, cs, d, _) => node(Tag::Switch, seq![tree(*x)] + case_trees(cs) + (match d { Some(d) => seq![node(Tag::Default, seq![block(d)])], None => seq![] })),
        Expr::Goto(t, _) => node(Tag::Goto(t.position.value as int), seq![]),
        Expr::If(c, a, b, _) => node(Tag::If, seq![tree(*c), block(a)] + (match b { Some(b) => seq![block(b)], None => seq![] })),
        Expr::Conditional(a, b, c, _) => node(Tag::Cond, seq![tree(*a), tree(*b), tree(*c)]),
        Expr::While(c, b, _) => node(Tag::While, seq![tree(*c), block(b)]),
        Expr::This(_) => node(Tag::This, seq![]),
        Expr::Super(_) => node(Tag::Super, seq![]),
        Expr::Break(_) => node(Tag::Break, seq![]),
        Expr::Null(_) => node(Tag::Null, seq![]),
        _ => node(Tag::Foreign, seq![]),
    }
}

// ------------------------------------------------------------------ what the code at a position stands for
pub ghost struct Cx { pub code: Seq<Instr<Offset>>, pub def: Definition, pub pool: ConstantPool }
// a tree and where it ends; the code ends inside it; it is not an expression; not settled by this specification
pub ghost enum R { Got(Tree, int), Eoc, Bad, Free }
pub ghost enum Rs { Got(Seq<Tree>, int), Eoc, Bad, Free }
impl Rs { pub open spec fn is_free(self) -> bool { self is Free } }

pub open spec fn named(p: ConstantPool, i: int) -> Option<Seq<char>> {
    match slot(p, i) { Some(d) => resolves(p.names, d.name.value as int), None => None }
}
pub open spec fn atom(t: Option<Seq<char>>, f: spec_fn(Seq<char>) -> Tag, j: int) -> R {
    match t { Some(t) => R::Got(node(f(t), Seq::empty()), j), None => R::Bad }
}
pub open spec fn form(s: Rs, t: Tag) -> R {
    match s { Rs::Got(k, j) => R::Got(node(t, k), j), Rs::Eoc => R::Eoc, Rs::Bad => R::Bad, Rs::Free => R::Free }
}
// an operand is missing from the pool: refused, unless something else is wrong as well
pub open spec fn blame(s: Rs) -> R {
    match s { Rs::Got(_, _) => R::Bad, Rs::Eoc => R::Free, Rs::Bad => R::Bad, Rs::Free => R::Free }
}
pub open spec fn after(a: R, f: spec_fn(Tree, int) -> R) -> R {
    match a { R::Got(t, j) => f(t, j), _ => a }
}
pub open spec fn target_of(cx: Cx, i: int, off: Offset) -> int { wrap16(pos_of(cx.code, i) + off.value) }

// the receiver is written in front of the arguments
pub open spec fn on(o: Tree, s: Rs, t: Tag) -> R {
    match s { Rs::Got(k, j) => R::Got(node(t, seq![o] + k), j), Rs::Eoc => R::Eoc, Rs::Bad => R::Bad, Rs::Free => R::Free }
}
pub open spec fn this() -> Tree { node(Tag::This, Seq::empty()) }
pub open spec fn or_this(o: Option<Tree>) -> Tree { match o { Some(o) => o, None => this() } }

// a jump: out of the loop or switch around it, back to the head of the loop from its end, or somewhere else
pub open spec fn jump(cx: Cx, i: int, off: Offset, blk: Option<BlockContext>) -> Tree {
    let to = target_of(cx, i, off);
    if off.value == 3 { node(Tag::Block, Seq::empty()) }
    else {
        match blk {
            Some(BlockContext::Loop { prologue, epilogue }) =>
                if to == epilogue.value { node(Tag::Break, Seq::empty()) }
                else if to == prologue.value && pos_of(cx.code, i + 1) == epilogue.value { node(Tag::Block, Seq::empty()) }
                else { node(Tag::Goto(to), Seq::empty()) },
            Some(BlockContext::Switch { epilogue }) => if to == epilogue.value { node(Tag::Break, Seq::empty()) } else { node(Tag::Goto(to), Seq::empty()) },
            None => node(Tag::Goto(to), Seq::empty()),
        }
    }
}
// a static call of function f, whose definition is d
pub open spec fn static_call(cx: Cx, d: Definition, f: Function, name: Seq<char>, obj: Option<Tree>, a: Rs) -> R {
    match obj {
        Some(o) => on(o, a, Tag::Method(name)),
        None =>
            if f.flags.st() {
                if d.parent.value == 0 {
                    if "Cast;"@.is_prefix_of(name) {
                        match f.return_type {
                            Some(t) => match named(cx.pool, t.value as int) { Some(ty) => form(a, Tag::Call(name, seq![ty])), None => blame(a) },
                            None => blame(a),
                        }
                    } else { form(a, Tag::Call(name, Seq::empty())) }
                } else {
                    match named(cx.pool, d.parent.value as int) { Some(c) => on(node(Tag::Id(c), Seq::empty()), a, Tag::Method(name)), None => blame(a) }
                }
            } else if cx.def.name == d.name && cx.def.parent != d.parent { on(node(Tag::Super, Seq::empty()), a, Tag::Method(name)) }
            else { on(this(), a, Tag::Method(name)) },
    }
}

pub open spec fn loc(p: int) -> Location { Location { value: p as u16 } }
pub open spec fn index_at(s: Seq<Instr<Offset>>, p: int) -> Option<int> {
    if boundary(s, p) { Some(choose|k: int| 0 <= k <= s.len() && #[trigger] pos_of(s, k) == p) } else { None }
}
pub proof fn index_is(s: Seq<Instr<Offset>>, k: int)
    requires solid(s), 0 <= k <= s.len(),
    ensures index_at(s, pos_of(s, k)) == Some(k),
{
    let p = pos_of(s, k);
    assert(boundary(s, p));
    let c = choose|j: int| 0 <= j <= s.len() && #[trigger] pos_of(s, j) == p;
    if c < k { pos_strict(s, c, k); } else if k < c { pos_strict(s, k, c); }
}
pub open spec fn goes_to(cx: Cx, q: int, p: int) -> bool { cx.code[q] matches Instr::Jump(off) && target_of(cx, q, off) == p }
pub open spec fn loops_back(cx: Cx, i: int, b: int) -> bool { exists|q: int| i <= q < b && #[trigger] goes_to(cx, q, pos_of(cx.code, i)) }
// the first jump in [a, b) beyond position e: where the switch ends
pub open spec fn beyond(cx: Cx, q: int, e: int) -> Option<int> { match cx.code[q] { Instr::Jump(off) => if target_of(cx, q, off) > e { Some(target_of(cx, q, off)) } else { None }, _ => None } }
pub open spec fn leaves(cx: Cx, a: int, b: int, e: int) -> Option<BlockContext>
    decreases b - a
{
    if a >= b { None } else { match beyond(cx, a, e) { Some(t) => Some(BlockContext::Switch { epilogue: loc(t) }), None => leaves(cx, a + 1, b, e) } }
}
pub open spec fn ended(v: Seq<Tree>) -> bool { v.len() > 0 && (v.last().tag is Goto || v.last().tag is Break || v.last().tag is Return) }
pub open spec fn broken(v: Seq<Tree>) -> Seq<Tree> { if v.len() > 0 && v.last().tag is Goto { v.drop_last().push(node(Tag::Break, Seq::empty())) } else { v } }
// the last jump left in a sequence (or in the branches of its choices): taken out, with where it leads
#[verifier::opaque]
pub open spec fn resolve(v: Seq<Tree>, n: int) -> (Seq<Tree>, Option<int>)
    decreases v, n
{
    if n <= 0 || n > v.len() { (v, None) } else { match settle(v[n - 1]) { (t, Some(q)) => (v.update(n - 1, t), Some(q)), _ => resolve(v, n - 1) } }
}
#[verifier::opaque]
pub open spec fn settle(t: Tree) -> (Tree, Option<int>)
    decreases t, 0int
{
    match t.tag {
        Tag::Goto(q) => (node(Tag::Block, Seq::empty()), Some(q)),
        Tag::If => if t.kids.len() < 2 { (t, None) } else {
            match resolve(t.kids[1].kids, t.kids[1].kids.len() as int) {
                (w, Some(q)) => (node(Tag::If, t.kids.update(1, node(Tag::Block, w))), Some(q)),
                (_, None) => if t.kids.len() < 3 { (t, None) } else {
                    match resolve(t.kids[2].kids, t.kids[2].kids.len() as int) {
                        (w, Some(q)) => (node(Tag::If, t.kids.update(2, node(Tag::Block, w))), Some(q)),
                        (_, None) => (t, None),
                    }
                },
            }
        },
        _ => (t, None),
    }
}
// the labels of a switch: where each stands and where its code starts; None: one leads nowhere, Some(None): not settled
pub open spec fn label_list(cx: Cx, s: int, acc: Seq<(int, int)>) -> Option<Option<Seq<(int, int)>>>
    decreases cx.code.len() - s
{
    if s < 0 || s > cx.code.len() { Some(None) } else if s == cx.code.len() { Some(Some(acc)) } else {
        match cx.code[s] {
            Instr::SwitchLabel(exit, start) => match index_at(cx.code, target_of(cx, s, exit)) {
                None => None,
                Some(n) => if n <= s { Some(None) } else { label_list(cx, n, acc.push((pos_of(cx.code, s), target_of(cx, s, start)))) },
            },
            Instr::SwitchDefault => Some(Some(acc.push((pos_of(cx.code, s), pos_of(cx.code, s))))),
            _ => Some(Some(acc)),
        }
    }
}
// slice::sort_by_key is stable
pub open spec fn slot_in(s: Seq<(int, int)>, x: (int, int)) -> Seq<(int, int)>
    decreases s.len()
{
    if s.len() == 0 || s.last().1 <= x.1 { s.push(x) } else { slot_in(s.drop_last(), x).push(s.last()) }
}
pub open spec fn stable(s: Seq<(int, int)>) -> Seq<(int, int)>
    decreases s.len()
{
    if s.len() == 0 { s } else { slot_in(stable(s.drop_last()), s.last()) }
}
pub open spec fn spots(s: Seq<(Location, Location)>) -> Seq<(int, int)> { s.map_values(|x: (Location, Location)| (x.0.value as int, x.1.value as int)) }
#[verifier::external_body]
pub fn sort_by_start(v: &mut Vec<(Location, Location)>) ensures spots(final(v)@) == stable(spots(old(v)@)), final(v)@.len() == old(v)@.len() { unimplemented!() }

#[verifier::opaque]
pub open spec fn read(cx: Cx, i: int, obj: Option<Tree>, blk: Option<BlockContext>) -> R
    decreases (if i < 0 { 0 } else { cx.code.len() - i }), 5int, 0int
{
    if i < 0 { R::Free } else if i >= cx.code.len() { R::Eoc } else {
        match cx.code[i] {
%s
            %s => match (named(cx.pool, e.value as int), named(cx.pool, m.value as int)) {
                (Some(e), Some(m)) => R::Got(node(Tag::Member(m), seq![node(Tag::Id(e), Seq::empty())]), i + 1),
                _ => R::Bad,
            },
            %s => match named(cx.pool, x.value as int) { Some(f) => R::Got(node(Tag::Member(f), seq![or_this(obj)]), i + 1), None => R::Bad },
            %s => match named(cx.pool, x.value as int) { Some(f) => form(reads(cx, i + 1, 1), Tag::Member(f)), None => blame(reads(cx, i + 1, 1)) },
            %s => match read(cx, i + 1, None, None) { R::Got(o, j) => if i < j <= cx.code.len() { read(cx, j, Some(o), None) } else { R::Free }, x => x },
            %s => R::Got(node(Tag::Goto(target_of(cx, i, off)), Seq::empty()), i + 1),
            %s => R::Got(jump(cx, i, off, blk), i + 1),
            %s =>
                if i + 1 < cx.code.len() && cx.code[i + 1] is Nop { R::Got(node(Tag::Return, Seq::empty()), i + 2) }
                else { form(reads(cx, i + 1, 1), Tag::Return) },
            %s => match slot(cx.pool, x.value as int) {
                None => R::Bad,
                Some(d) => match d.value {
                    AnyDefinition::Function(f) => match resolves(cx.pool.names, d.name.value as int) {
                        None => R::Bad,
                        Some(name) => static_call(cx, d, f, name, obj, args(cx, i + 1)),
                    },
                    _ => R::Bad,
                },
            },
            %s => match resolves(cx.pool.names, x.value as int) { None => R::Bad, Some(name) => on(or_this(obj), args(cx, i + 1), Tag::Method(name)) },
            %s => flow(cx, i, off, blk),
            %s => switch_at(cx, i, target_of(cx, i, start)),
        }
    }
}
// a conditional jump: a loop when something in between leads back to it, else a choice, with another branch when the
// first one ends by jumping over it
#[verifier::opaque]
pub open spec fn flow(cx: Cx, i: int, off: Offset, blk: Option<BlockContext>) -> R
    decreases (if i < 0 { 0 } else { cx.code.len() - i }), 3int, 0int
{
    if i < 0 || i >= cx.code.len() { R::Free } else {
    let p = pos_of(cx.code, i);
    let t = target_of(cx, i, off);
    match read(cx, i + 1, None, None) {
        R::Got(c, k) => match index_at(cx.code, t) {
            None => R::Bad,
            Some(b) =>
                if k <= i || k > cx.code.len() || b <= i { R::Free }
                else if loops_back(cx, i, b) {
                    match path(cx, k, t, Some(BlockContext::Loop { prologue: loc(p), epilogue: loc(t) }), Seq::empty()) {
                        Rs::Got(v, j) => R::Got(node(Tag::While, seq![c, node(Tag::Block, v)]), b),
                        Rs::Eoc => R::Eoc, Rs::Bad => R::Bad, Rs::Free => R::Free,
                    }
                } else {
                    match path(cx, k, t, blk, Seq::empty()) {
                        Rs::Got(v, j) => match resolve(v, v.len() as int) {
                            (w, Some(q)) => match path(cx, b, q, blk, Seq::empty()) {
                                Rs::Got(e, j) => {
                                    // what stands behind a branch that ended early is not reached
                                    let made = node(Tag::If, seq![c, node(Tag::Block, w)] + seq![node(Tag::Block, e)]);
                                    if pos_of(cx.code, j) >= q { R::Got(made, j) } else { match index_at(cx.code, q) { Some(m) => if m < j { R::Free } else { R::Got(made, m) }, None => R::Bad } }
                                },
                                Rs::Eoc => R::Eoc, Rs::Bad => R::Bad, Rs::Free => R::Free,
                            },
                            (w, None) => R::Got(node(Tag::If, seq![c, node(Tag::Block, w)] + Seq::empty()), b),
                        },
                        Rs::Eoc => R::Eoc, Rs::Bad => R::Bad, Rs::Free => R::Free,
                    }
                },
        },
        x => x,
    } }
}
// statements up to a position, or up to one that leaves
#[verifier::opaque]
pub open spec fn path(cx: Cx, i: int, target: int, blk: Option<BlockContext>, acc: Seq<Tree>) -> Rs
    decreases (if i < 0 { 0 } else { cx.code.len() - i }), 6int, 0int
{
    if i < 0 || i > cx.code.len() { Rs::Free }
    else if pos_of(cx.code, i) >= target || ended(acc) { Rs::Got(acc, i) }
    else {
        match read(cx, i, None, blk) {
            R::Got(t, j) => if i < j <= cx.code.len() { path(cx, j, target, blk, acc.push(t)) } else { Rs::Free },
            R::Eoc => Rs::Got(acc, cx.code.len() as int), R::Bad => Rs::Bad, R::Free => Rs::Free,
        }
    }
}
// a switch whose labels start at position `first`
#[verifier::opaque]
pub open spec fn switch_at(cx: Cx, i: int, first: int) -> R
    decreases (if i < 0 { 0 } else { cx.code.len() - i }), 3int, 0int
{
    if i < 0 || i >= cx.code.len() { R::Free } else {
    match read(cx, i + 1, None, None) {
        R::Got(subject, _) => match index_at(cx.code, first) {
            None => R::Bad,
            Some(s) => if s <= i { R::Free } else {
                match label_list(cx, s, Seq::empty()) {
                    None => R::Bad,
                    Some(None) => R::Free,
                    Some(Some(ls)) => branches(cx, i + 1, subject, stable(ls), 0, s, None, Seq::empty(), None),
                }
            },
        },
        x => x,
    } }
}
// the branches of a switch in the order of their code; `at` is where the one before ended
#[verifier::opaque]
pub open spec fn branches(cx: Cx, lo: int, subject: Tree, ls: Seq<(int, int)>, n: int, at: int, blk: Option<BlockContext>, cs: Seq<Tree>, dft: Option<Tree>) -> R
    decreases (if lo < 0 { 0 } else { cx.code.len() - lo }), 7int, ls.len() - n
{
    if lo < 0 || n < 0 { R::Free } else if n >= ls.len() { R::Got(node(Tag::Switch, seq![subject] + cs + (match dft { Some(d) => seq![d], None => Seq::empty() })), at) } else {
        match index_at(cx.code, ls[n].0) {
            None => R::Bad,
            Some(l) => if l < lo { R::Free } else if l >= cx.code.len() { R::Eoc } else {
                match cx.code[l] {
                    Instr::SwitchLabel(exit, _) => match read(cx, l + 1, None, None) {
                        R::Got(matcher, _) => {
                            let e = target_of(cx, l, exit);
                            match index_at(cx.code, ls[n].1) {
                                None => R::Bad,
                                Some(a) => if a < lo || (blk is None && e > ls[n].1 && index_at(cx.code, e) is None) { R::Free } else {
                                    let blk2 = if blk is None && e > ls[n].1 { leaves(cx, a, index_at(cx.code, e)->Some_0, e) } else { blk };
                                    match path(cx, a, e, blk2, Seq::empty()) {
                                        Rs::Got(v, j) => branches(cx, lo, subject, ls, n + 1, j, blk2, cs.push(node(Tag::Case, seq![matcher, node(Tag::Block, broken(v))])), dft),
                                        Rs::Eoc => R::Eoc, Rs::Bad => R::Bad, Rs::Free => R::Free,
                                    }
                                },
                            }
                        },
                        x => x,
                    },
                    Instr::SwitchDefault => match blk {
                        Some(BlockContext::Switch { epilogue }) => match path(cx, l + 1, epilogue.value as int, blk, Seq::empty()) {
                            Rs::Got(v, j) => {
                                let made = Some(node(Tag::Default, seq![node(Tag::Block, v)]));
                                if pos_of(cx.code, j) >= epilogue.value { branches(cx, lo, subject, ls, n + 1, j, blk, cs, made) }
                                else { match index_at(cx.code, epilogue.value as int) { Some(m) => if m < j { R::Free } else { branches(cx, lo, subject, ls, n + 1, m, blk, cs, made) }, None => R::Bad } }
                            },
                            Rs::Eoc => R::Eoc, Rs::Bad => R::Bad, Rs::Free => R::Free,
                        },
                        _ => match read(cx, l + 1, None, blk) {
                            R::Got(t, j) => branches(cx, lo, subject, ls, n + 1, j, blk, cs, Some(node(Tag::Default, seq![node(Tag::Block, seq![t])]))),
                            x => x,
                        },
                    },
                    _ => R::Bad,
                }
            },
        }
    }
}
// n expressions in a row
#[verifier::opaque]
pub open spec fn reads(cx: Cx, i: int, n: nat) -> Rs
    decreases (if i < 0 { 0 } else { cx.code.len() - i }), 6int, n
{
    if n == 0 { Rs::Got(Seq::empty(), i) } else if i < 0 { Rs::Free } else {
        match read(cx, i, None, None) {
            R::Got(t, j) => if i < j <= cx.code.len() { match reads(cx, j, (n - 1) as nat) { Rs::Got(k, e) => Rs::Got(seq![t] + k, e), x => x } } else { Rs::Free },
            R::Eoc => Rs::Eoc, R::Bad => Rs::Bad, R::Free => Rs::Free,
        }
    }
}
// arguments up to the end marker; markers of skipped arguments and gaps in between are no arguments
#[verifier::opaque]
pub open spec fn args(cx: Cx, i: int) -> Rs
    decreases (if i < 0 { 0 } else { cx.code.len() - i }), 6int, 0int
{
    if i < 0 { Rs::Free } else if i >= cx.code.len() { Rs::Eoc }
    else if cx.code[i] is Nop || cx.code[i] is Skip { args(cx, i + 1) }
    else if cx.code[i] is ParamEnd { Rs::Got(Seq::empty(), i + 1) }
    else {
        match read(cx, i, None, None) {
            R::Got(t, j) => if i < j <= cx.code.len() { match args(cx, j) { Rs::Got(k, e) => Rs::Got(seq![t] + k, e), x => x } } else { Rs::Free },
            R::Eoc => Rs::Eoc, R::Bad => Rs::Bad, R::Free => Rs::Free,
        }
    }
}

pub open spec fn is_eoc(e: Error) -> bool { e == Error::CursorError(CursorError::EndOfCode) }
pub open spec fn meets(g: R, r: Result<Expr, Error>, at: int, end: int) -> bool {
    match g {
        R::Got(t, j) => r matches Ok(e) && tree(e) == t && at == j,
        R::Eoc => (r matches Err(e) && is_eoc(e)) && at == end,
        R::Bad => r matches Err(e) && !is_eoc(e),
        R::Free => true,
    }
}
pub open spec fn meet_all(g: Rs, r: Result<Vec<Expr>, Error>, at: int, end: int) -> bool {
    match g {
        Rs::Got(t, j) => r matches Ok(v) && trees(v) == t && at == j,
        Rs::Eoc => (r matches Err(e) && is_eoc(e)) && at == end,
        Rs::Bad => r matches Err(e) && !is_eoc(e),
        Rs::Free => true,
    }
}
pub open spec fn meet_block(g: Rs, r: Result<Block, Error>, at: int, end: int) -> bool {
    match g {
        Rs::Got(t, j) => r matches Ok(v) && trees(v.exprs) == t && at == j,
        Rs::Eoc => (r matches Err(e) && is_eoc(e)) && at == end,
        Rs::Bad => r matches Err(e) && !is_eoc(e),
        Rs::Free => true,
    }
}
pub open spec fn cx_of(d: Decompiler) -> Cx { Cx { code: d.code.code@, def: *d.definition, pool: *d.pool } }
pub open spec fn obj_of(c: Option<Expr>) -> Option<Tree> { match c { Some(e) => Some(tree(e)), None => None } }

// jumps that skip code when a condition fails lead forward, inside the code
pub open spec fn forward(s: Seq<Instr<Offset>>) -> bool {
    forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k] matches Instr::JumpIfFalse(off) ==> off.value >= 0 && pos_of(s, k) + off.value <= 65535)
}
pub open spec fn dec_wf(d: Decompiler) -> bool { cur_wf(d.code) && solid(d.code.code@) && forward(d.code.code@) }
pub open spec fn same_input(a: Decompiler, b: Decompiler) -> bool { a.code.code == b.code.code && a.definition == b.definition && a.pool == b.pool && dec_wf(b) }

pub open spec fn cons(b: Seq<Tree>, s: Rs) -> Rs {
    match s { Rs::Got(k, j) => Rs::Got(b + k, j), x => x }
}
pub proof fn trees_push(v: Vec<Expr>, w: Vec<Expr>)
    requires w@.len() == v@.len() + 1, forall|i: int| 0 <= i < v@.len() ==> w@[i] == v@[i],
    ensures trees(w) == trees(v).push(tree(w@.last())), trees(v) + seq![tree(w@.last())] == trees(w),
{
    assert(trees(w) =~= trees(v).push(tree(w@.last())));
    assert(trees(v) + seq![tree(w@.last())] =~= trees(w));
}
pub proof fn trees_last(v: Vec<Expr>)
    requires v@.len() > 0,
    ensures trees(v).len() == v@.len(), trees(v).last() == tree(v@.last()),
        v@.last() is Goto <==> trees(v).last().tag is Goto, v@.last() is Break <==> trees(v).last().tag is Break, v@.last() is Return <==> trees(v).last().tag is Return,
{ tag_is(v@.last()); }
pub proof fn tag_is(e: Expr)
    ensures e is Goto <==> tree(e).tag is Goto, e is Break <==> tree(e).tag is Break, e is Return <==> tree(e).tag is Return,
{ reveal_with_fuel(tree, 3); match e { Expr::Goto(_, _) => {} Expr::Break(_) => {} Expr::Return(_, _) => {} _ => {} } }
// a statement with its last jump taken out
pub open spec fn same_hit(a: Option<int>, b: Option<Target>) -> bool { match a { Some(q) => (b matches Some(t) && t.position.value == q), None => b is None } }
pub open spec fn unjump(a: Block, b: Block, hit: Option<Target>) -> bool {
    resolve(trees(a.exprs), a.exprs@.len() as int).0 == trees(b.exprs) && same_hit(resolve(trees(a.exprs), a.exprs@.len() as int).1, hit)
}
pub open spec fn turned(e0: Expr, e1: Expr, hit: Option<Target>) -> bool {
    match e0 {
        Expr::Goto(t, _) => hit == Some(t) && (e1 matches Expr::Seq(b) && b.exprs@.len() == 0),
        Expr::If(c, a, None, _) => e1 matches Expr::If(c1, a1, None, _) && c1 == c && unjump(a, a1, hit),
        Expr::If(c, a, Some(b), _) => e1 matches Expr::If(c1, a1, Some(b1), _) && c1 == c && (if hit is Some && unjump(a, a1, hit) { b1 == b } else { unjump(a, a1, None) && unjump(b, b1, hit) }),
        _ => e1 == e0 && hit is None,
    }
}
pub proof fn branch_kids(e: Expr)
    ensures e matches Expr::If(c, a, b, _) ==> tree(e).tag is If && tree(e).kids =~= seq![tree(*c), node(Tag::Block, trees(a.exprs))] + (match b { Some(b) => seq![node(Tag::Block, trees(b.exprs))], None => seq![] }),
        e matches Expr::Goto(t, _) ==> tree(e) == node(Tag::Goto(t.position.value as int), seq![]),
        e matches Expr::Seq(b) ==> tree(e) == node(Tag::Block, trees(b.exprs)),
        !(e is If) && !(e is Goto) ==> !(tree(e).tag is If) && !(tree(e).tag is Goto),
{ reveal_with_fuel(tree, 3); reveal_with_fuel(block, 3); match e { Expr::If(_, _, Some(_), _) => {} Expr::If(_, _, None, _) => {} _ => {} } }
pub proof fn resolve_keeps(v: Seq<Tree>, n: int)
    ensures resolve(v, n).1 is None ==> resolve(v, n).0 == v,
    decreases v, n
{ resolve_is(v, n); if 0 < n <= v.len() { resolve_keeps(v, n - 1); } }
pub proof fn settle_step(e0: Expr, e1: Expr, hit: Option<Target>)
    requires turned(e0, e1, hit),
    ensures settle(tree(e0)).0 == tree(e1), same_hit(settle(tree(e0)).1, hit), hit is None ==> tree(e1) == tree(e0),
{
    branch_kids(e0); branch_kids(e1);
    settle_is(tree(e0));
    match e0 {
        Expr::If(c, a, None, _) => match e1 {
            Expr::If(_, a1, None, _) => {
                let k = tree(e0).kids;
                assert(k[1].kids == trees(a.exprs));
                resolve_keeps(trees(a.exprs), a.exprs@.len() as int);
                assert(trees(a.exprs).len() == a.exprs@.len());
                assert(k.update(1, node(Tag::Block, trees(a1.exprs))) =~= tree(e1).kids);
            }
            _ => {}
        },
        Expr::If(c, a, Some(b), _) => match e1 {
            Expr::If(_, a1, Some(b1), _) => {
                let k = tree(e0).kids;
                assert(k.len() == 3);
                assert(k[1].kids == trees(a.exprs));
                assert(k[2].kids == trees(b.exprs));
                assert(trees(a.exprs).len() == a.exprs@.len());
                assert(trees(b.exprs).len() == b.exprs@.len());
                resolve_keeps(trees(a.exprs), a.exprs@.len() as int);
                resolve_keeps(trees(b.exprs), b.exprs@.len() as int);
                assert(k.update(1, node(Tag::Block, trees(a1.exprs))) =~= seq![tree(*c), node(Tag::Block, trees(a1.exprs)), node(Tag::Block, trees(b.exprs))]);
                assert(k.update(2, node(Tag::Block, trees(b1.exprs))) =~= seq![tree(*c), node(Tag::Block, trees(a.exprs)), node(Tag::Block, trees(b1.exprs))]);
                if hit is Some && unjump(a, a1, hit) {
                    assert(tree(e1).kids =~= seq![tree(*c), node(Tag::Block, trees(a1.exprs)), node(Tag::Block, trees(b.exprs))]);
                } else {
                    assert(tree(e1).kids =~= seq![tree(*c), node(Tag::Block, trees(a.exprs)), node(Tag::Block, trees(b1.exprs))]);
                }
            }
            _ => {}
        },
        Expr::Goto(_, _) => match e1 { Expr::Seq(b) => { trees_none(b.exprs); } _ => {} },
        _ => {}
    }
}
pub proof fn one_turned(v: Vec<Expr>, w: Vec<Expr>, k: int)
    requires 0 <= k < v@.len(), w@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() && i != k ==> w@[i] == v@[i],
    ensures trees(w) == trees(v).update(k, tree(w@[k])), tree(w@[k]) == tree(v@[k]) ==> trees(w) == trees(v), trees(v)[k] == tree(v@[k]), trees(v).len() == v@.len(),
{
    assert(trees(w) =~= trees(v).update(k, tree(w@[k])));
    if tree(w@[k]) == tree(v@[k]) { assert(trees(w) =~= trees(v)); }
}
pub proof fn atoms()
    ensures forall|x: Ident, s: Span| #[trigger] tree(Expr::Ident(x, s)) == node(Tag::Id(x@), seq![]), forall|s: Span| #[trigger] tree(Expr::This(s)) == this(),
        forall|s: Span| #[trigger] tree(Expr::Super(s)) == node(Tag::Super, seq![]),
        forall|b: Block| b.exprs@.len() == 0 ==> #[trigger] tree(Expr::Seq(b)) == node(Tag::Block, seq![]),
        forall|v: Vec<Expr>| v@.len() == 0 ==> #[trigger] trees(v) == Seq::<Tree>::empty(),
        forall|o: Box<Expr>, f: Ident, s: Span| #[trigger] tree(Expr::Member(o, f, s)) == node(Tag::Member(f@), seq![tree(*o)]),
        forall|o: Box<Expr>, f: Ident, v: Vec<Expr>, s: Span| #[trigger] tree(Expr::MethodCall(o, f, v, s)) == node(Tag::Method(f@), seq![tree(*o)] + trees(v)),
        forall|t: TypeName, v: Vec<Expr>, s: Span| #[trigger] tree(Expr::New(t, v, s)) == node(Tag::New(t@), trees(v)),
{
    reveal_with_fuel(tree, 3);
    assert forall|v: Vec<Expr>| v@.len() == 0 implies #[trigger] trees(v) == Seq::<Tree>::empty() by { trees_none(v); }
    assert forall|b: Block| b.exprs@.len() == 0 implies #[trigger] tree(Expr::Seq(b)) == node(Tag::Block, seq![]) by { trees_none(b.exprs); branch_kids(Expr::Seq(b)); }
}
pub proof fn sub_size(s: Seq<Instr<Offset>>, a: int, b: int)
    requires 0 <= a <= b <= s.len(),
    ensures pos_of(s, a) + code_size(s.subrange(a, b)) == pos_of(s, b),
    decreases b - a
{
    if a == b { assert(s.subrange(a, b) =~= Seq::empty()); } else {
        sub_size(s, a, b - 1);
        code_size_step(s, b - 1);
        assert(s.subrange(a, b).drop_last() =~= s.subrange(a, b - 1));
    }
}
pub proof fn ranged(s: Seq<Instr<Offset>>, part: Seq<Instr<Offset>>, from: int, to: int)
    requires solid(s), exists|a: int, b: int| 0 <= a <= b <= s.len() && pos_of(s, a) == from && pos_of(s, b) == to && part == #[trigger] s.subrange(a, b),
    ensures index_at(s, from) is Some, index_at(s, to) is Some, 0 <= index_at(s, from)->Some_0 <= index_at(s, to)->Some_0 <= s.len(), part == s.subrange(index_at(s, from)->Some_0, index_at(s, to)->Some_0),
        pos_of(s, index_at(s, from)->Some_0) == from, pos_of(s, index_at(s, to)->Some_0) == to,
{
    let (a, b) = choose|a: int, b: int| 0 <= a <= b <= s.len() && pos_of(s, a) == from && pos_of(s, b) == to && part == #[trigger] s.subrange(a, b);
    index_is(s, a); index_is(s, b);
}
pub proof fn walk_start(s: Seq<Instr<Offset>>, lo: int, hi: int)
    requires 0 <= lo <= hi <= s.len(), pos_of(s, s.len() as int) <= 65535,
    ensures pos_of(s, lo) + code_size(s.subrange(lo, hi)) <= 65535,
{ sub_size(s, lo, hi); pos_strict(s, hi, s.len() as int); }
pub proof fn walk_step(s: Seq<Instr<Offset>>, at: int, hi: int)
    requires 0 <= at < hi <= s.len(),
    ensures s.subrange(at, hi).skip(1) == s.subrange(at + 1, hi), s.subrange(at, hi)[0] == s[at], pos_of(s, at + 1) == pos_of(s, at) + instr_size(s[at]),
{ assert(s.subrange(at, hi).skip(1) =~= s.subrange(at + 1, hi)); code_size_step(s, at); }
pub proof fn branching()
    ensures forall|c: Box<Expr>, a: Block, b: Option<Block>, s: Span| #[trigger] tree(Expr::If(c, a, b, s)) == node(Tag::If, seq![tree(*c), node(Tag::Block, trees(a.exprs))] + (match b { Some(b) => seq![node(Tag::Block, trees(b.exprs))], None => seq![] })),
        forall|c: Box<Expr>, a: Block, s: Span| #[trigger] tree(Expr::While(c, a, s)) == node(Tag::While, seq![tree(*c), node(Tag::Block, trees(a.exprs))]),
        forall|v: Vec<Expr>| #[trigger] trees(v).len() == v@.len(),
{
    reveal_with_fuel(tree, 3); reveal_with_fuel(block, 3);
    assert forall|c: Box<Expr>, a: Block, b: Option<Block>, s: Span| #[trigger] tree(Expr::If(c, a, b, s)) == node(Tag::If, seq![tree(*c), node(Tag::Block, trees(a.exprs))] + (match b { Some(b) => seq![node(Tag::Block, trees(b.exprs))], None => seq![] })) by {
        branch_kids(Expr::If(c, a, b, s));
    }
}
pub open spec fn noted(b: bool) -> bool { true }
pub open spec fn default_tree(d: Option<Block>) -> Option<Tree> { match d { Some(b) => Some(node(Tag::Default, seq![node(Tag::Block, trees(b.exprs))])), None => None } }
pub proof fn spotted()
    ensures forall|s: Seq<(Location, Location)>, x: (Location, Location)| #[trigger] spots(s.push(x)) == spots(s).push((x.0.value as int, x.1.value as int)),
        forall|s: Seq<(Location, Location)>| #[trigger] spots(s).len() == s.len(),
{
    assert forall|s: Seq<(Location, Location)>, x: (Location, Location)| #[trigger] spots(s.push(x)) == spots(s).push((x.0.value as int, x.1.value as int)) by {
        assert(spots(s.push(x)) =~= spots(s).push((x.0.value as int, x.1.value as int)));
    }
}
pub proof fn choices()
    ensures forall|x: Box<Expr>, cs: Vec<SwitchCase>, d: Option<Block>, s: Span| #[trigger] tree(Expr::Switch(x, cs, d, s)) == node(Tag::Switch, seq![tree(*x)] + case_trees(cs) + (match default_tree(d) { Some(d) => seq![d], None => Seq::empty() })),
        forall|c: Vec<SwitchCase>| c@.len() == 0 ==> #[trigger] case_trees(c) == Seq::<Tree>::empty(),
        forall|v: Vec<Expr>| v@.len() == 1 ==> #[trigger] trees(v) == seq![tree(v@[0])],
{
    reveal_with_fuel(tree, 3); reveal_with_fuel(block, 3);
    assert forall|c: Vec<SwitchCase>| c@.len() == 0 implies #[trigger] case_trees(c) == Seq::<Tree>::empty() by { assert(case_trees(c) =~= Seq::<Tree>::empty()); }
    assert forall|v: Vec<Expr>| v@.len() == 1 implies #[trigger] trees(v) == seq![tree(v@[0])] by { assert(trees(v) =~= seq![tree(v@[0])]); }
}
pub proof fn cases_push(c: Vec<SwitchCase>, d: Vec<SwitchCase>)
    requires d@.len() == c@.len() + 1, forall|i: int| 0 <= i < c@.len() ==> d@[i] == c@[i],
    ensures case_trees(d) == case_trees(c).push(node(Tag::Case, seq![tree(d@.last().matcher), node(Tag::Block, trees(d@.last().body.exprs))])),
{
    reveal_with_fuel(case_trees, 3); reveal_with_fuel(block, 3);
    assert(case_trees(d) =~= case_trees(c).push(node(Tag::Case, seq![tree(d@.last().matcher), node(Tag::Block, trees(d@.last().body.exprs))])));
}
// a jump at the end of a branch is the break it stands for
pub proof fn breaks()
    ensures forall|v: Vec<Expr>, w: Vec<Expr>| #![trigger trees(v), trees(w)] v@.len() > 0 && v@.last() is Goto && w@.len() == v@.len() && (forall|i: int| 0 <= i < v@.len() - 1 ==> w@[i] == v@[i]) && w@.last() is Break
            ==> trees(w) == broken(trees(v)),
        forall|v: Vec<Expr>| #[trigger] trees(v).len() == v@.len() && (v@.len() == 0 || !(v@.last() is Goto) ==> broken(trees(v)) == trees(v)),
{
    assert forall|v: Vec<Expr>, w: Vec<Expr>| #![trigger trees(v), trees(w)] v@.len() > 0 && v@.last() is Goto && w@.len() == v@.len() && (forall|i: int| 0 <= i < v@.len() - 1 ==> w@[i] == v@[i]) && w@.last() is Break
            implies trees(w) == broken(trees(v)) by { trees_last(v); trees_last(w); branch_kids(v@.last()); assert(trees(w) =~= trees(v).drop_last().push(node(Tag::Break, Seq::empty()))); }
    assert forall|v: Vec<Expr>| #[trigger] trees(v).len() == v@.len() && (v@.len() == 0 || !(v@.last() is Goto) ==> broken(trees(v)) == trees(v)) by { if v@.len() > 0 { trees_last(v); } }
}
pub proof fn few_types()
    ensures forall|v: Seq<TypeName>| v.len() == 0 ==> #[trigger] type_texts(v) == Seq::<Seq<char>>::empty(), forall|v: Seq<TypeName>| v.len() == 1 ==> #[trigger] type_texts(v) == seq![v[0]@],
{
    assert forall|v: Seq<TypeName>| v.len() == 0 implies #[trigger] type_texts(v) == Seq::<Seq<char>>::empty() by { assert(type_texts(v) =~= Seq::empty()); }
    assert forall|v: Seq<TypeName>| v.len() == 1 implies #[trigger] type_texts(v) == seq![v[0]@] by { assert(type_texts(v) =~= seq![v[0]@]); }
}
pub proof fn few_reads(cx: Cx, i: int)
    requires 0 <= i,
    ensures
        reads(cx, i, 1) == (match read(cx, i, None, None) { R::Got(a, j) => if i < j <= cx.code.len() { Rs::Got(seq![a], j) } else { Rs::Free }, R::Eoc => Rs::Eoc, R::Bad => Rs::Bad, R::Free => Rs::Free }),
        reads(cx, i, 2) == (match read(cx, i, None, None) { R::Got(a, j) => if i < j <= cx.code.len() { match read(cx, j, None, None) {
            R::Got(b, k) => if j < k <= cx.code.len() { Rs::Got(seq![a, b], k) } else { Rs::Free }, R::Eoc => Rs::Eoc, R::Bad => Rs::Bad, R::Free => Rs::Free } } else { Rs::Free }, R::Eoc => Rs::Eoc, R::Bad => Rs::Bad, R::Free => Rs::Free }),
        reads(cx, i, 3) == (match read(cx, i, None, None) { R::Got(a, j) => if i < j <= cx.code.len() { match read(cx, j, None, None) {
            R::Got(b, k) => if j < k <= cx.code.len() { match read(cx, k, None, None) { R::Got(c, l) => if k < l <= cx.code.len() { Rs::Got(seq![a, b, c], l) } else { Rs::Free }, R::Eoc => Rs::Eoc, R::Bad => Rs::Bad, R::Free => Rs::Free } } else { Rs::Free },
            R::Eoc => Rs::Eoc, R::Bad => Rs::Bad, R::Free => Rs::Free } } else { Rs::Free }, R::Eoc => Rs::Eoc, R::Bad => Rs::Bad, R::Free => Rs::Free }),
{
    none_is(cx);
    reads_is(cx, i, 1); reads_is(cx, i, 2); reads_is(cx, i, 3);
    let e = Seq::<Tree>::empty();
    match read(cx, i, None, None) {
        R::Got(a, j) => {
            assert(seq![a] + e =~= seq![a]);
            reads_is(cx, j, 1); reads_is(cx, j, 2);
            match read(cx, j, None, None) {
                R::Got(b, k) => {
                    assert(seq![b] + e =~= seq![b]);
                    assert(seq![a] + seq![b] =~= seq![a, b]);
                    reads_is(cx, k, 1);
                    match read(cx, k, None, None) { R::Got(c, l) => { assert(seq![c] + e =~= seq![c]); assert(seq![b] + seq![c] =~= seq![b, c]); assert(seq![a] + seq![b, c] =~= seq![a, b, c]); } _ => {} }
                }
                _ => {}
            }
        }
        _ => {}
    }
}
pub proof fn trees_none(v: Vec<Expr>)
    requires v@.len() == 0,
    ensures trees(v) == Seq::<Tree>::empty(),
{ assert(trees(v) =~= Seq::<Tree>::empty()); }
pub proof fn cons_step(b: Seq<Tree>, t: Tree, s: Rs)
    ensures cons(b, match s { Rs::Got(k, e) => Rs::Got(seq![t] + k, e), x => x }) == cons(b + seq![t], s), cons(Seq::empty(), s) == s,
{
    match s { Rs::Got(k, e) => { assert(b + (seq![t] + k) =~= (b + seq![t]) + k); assert(Seq::<Tree>::empty() + k =~= k); } _ => {} }
}
// reading goes forward and stays inside
pub open spec fn inside(cx: Cx, a: int, j: int) -> bool { a <= j <= cx.code.len() }
pub proof fn read_moves(cx: Cx, i: int, obj: Option<Tree>, blk: Option<BlockContext>)
    ensures read(cx, i, obj, blk) matches R::Got(_, j) ==> inside(cx, i + 1, j), i >= cx.code.len() ==> read(cx, i, obj, blk) == R::Eoc,
    decreases (if i < 0 { 0 } else { cx.code.len() - i }), 5int, 0int
{
    read_is(cx, i, obj, blk);
    if 0 <= i < cx.code.len() {
        assert forall|n: nat| (#[trigger] reads(cx, i + 1, n) matches Rs::Got(_, j) ==> inside(cx, i + 1, j)) by { reads_moves(cx, i + 1, n); }
        args_moves(cx, i + 1);
        read_moves(cx, i + 1, None, None);
        match read(cx, i + 1, None, None) { R::Got(o, j) => if i < j <= cx.code.len() { read_moves(cx, j, Some(o), None); }, _ => {} }
        match cx.code[i] {
            Instr::JumpIfFalse(off) => { flow_moves(cx, i, off, blk); }
            Instr::Switch(_, start) => { switch_at_is(cx, i, target_of(cx, i, start)); match read(cx, i + 1, None, None) {
                R::Got(subject, _) => match index_at(cx.code, target_of(cx, i, start)) {
                    Some(s) => if s > i { match label_list(cx, s, Seq::empty()) { Some(Some(ls)) => { branches_moves(cx, i + 1, subject, stable(ls), 0, s, None, Seq::empty(), None); } _ => {} } },
                    None => {}
                },
                _ => {}
            } },
            _ => {}
        }
    }
}
pub proof fn none_is(cx: Cx)
    ensures forall|i: int| #[trigger] reads(cx, i, 0) == Rs::Got(Seq::empty(), i),
{
    assert forall|i: int| #[trigger] reads(cx, i, 0) == Rs::Got(Seq::empty(), i) by { reads_is(cx, i, 0); }
}
pub proof fn reads_moves(cx: Cx, i: int, n: nat)
    requires 0 <= i <= cx.code.len(),
    ensures reads(cx, i, n) matches Rs::Got(_, j) ==> inside(cx, i, j),
    decreases (if i < 0 { 0 } else { cx.code.len() - i }), 6int, n
{
    reads_is(cx, i, n);
    if n > 0 {
        read_moves(cx, i, None, None);
        match read(cx, i, None, None) { R::Got(o, j) => if i < j <= cx.code.len() { reads_moves(cx, j, (n - 1) as nat); }, _ => {} }
    }
}
pub proof fn args_moves(cx: Cx, i: int)
    requires 0 <= i <= cx.code.len(),
    ensures args(cx, i) matches Rs::Got(_, j) ==> inside(cx, i + 1, j),
    decreases (if i < 0 { 0 } else { cx.code.len() - i }), 6int, 0int
{
    args_is(cx, i);
    if i < cx.code.len() {
        if cx.code[i] is Nop || cx.code[i] is Skip { args_moves(cx, i + 1); }
        else if cx.code[i] is ParamEnd {}
        else {
            read_moves(cx, i, None, None);
            match read(cx, i, None, None) { R::Got(o, j) => if i < j <= cx.code.len() { args_moves(cx, j); }, _ => {} }
        }
    }
}
pub proof fn flow_moves(cx: Cx, i: int, off: Offset, blk: Option<BlockContext>)
    ensures flow(cx, i, off, blk) matches R::Got(_, j) ==> inside(cx, i + 1, j),
    decreases (if i < 0 { 0 } else { cx.code.len() - i }), 3int, 0int
{
    flow_is(cx, i, off, blk);
    if 0 <= i < cx.code.len() {
        let t = target_of(cx, i, off);
        read_moves(cx, i + 1, None, None);
        match read(cx, i + 1, None, None) {
            R::Got(c, k) => match index_at(cx.code, t) {
                Some(b) => if i < k <= cx.code.len() && b > i {
                    path_moves(cx, k, t, Some(BlockContext::Loop { prologue: loc(pos_of(cx.code, i)), epilogue: loc(t) }), Seq::empty());
                    path_moves(cx, k, t, blk, Seq::empty());
                    match path(cx, k, t, blk, Seq::empty()) {
                        Rs::Got(v, _) => match resolve(v, v.len() as int) { (_, Some(q)) => { path_moves(cx, b, q, blk, Seq::empty()); } _ => {} },
                        _ => {}
                    }
                },
                None => {}
            },
            _ => {}
        }
    }
}
pub proof fn path_moves(cx: Cx, i: int, target: int, blk: Option<BlockContext>, acc: Seq<Tree>)
    requires 0 <= i <= cx.code.len(),
    ensures path(cx, i, target, blk, acc) matches Rs::Got(_, j) ==> inside(cx, i, j),
    decreases (if i < 0 { 0 } else { cx.code.len() - i }), 6int, 0int
{
    path_is(cx, i, target, blk, acc);
    read_moves(cx, i, None, blk);
    match read(cx, i, None, blk) { R::Got(t, j) => if i < j <= cx.code.len() { path_moves(cx, j, target, blk, acc.push(t)); }, _ => {} }
}
pub proof fn branches_moves(cx: Cx, lo: int, subject: Tree, ls: Seq<(int, int)>, n: int, at: int, blk: Option<BlockContext>, cs: Seq<Tree>, dft: Option<Tree>)
    requires inside(cx, lo, at),
    ensures branches(cx, lo, subject, ls, n, at, blk, cs, dft) matches R::Got(_, j) ==> inside(cx, lo, j),
    decreases (if lo < 0 { 0 } else { cx.code.len() - lo }), 7int, ls.len() - n
{
    branches_is(cx, lo, subject, ls, n, at, blk, cs, dft);
    if lo >= 0 && 0 <= n < ls.len() {
        match index_at(cx.code, ls[n].0) {
            Some(l) => if lo <= l < cx.code.len() {
                match cx.code[l] {
                    Instr::SwitchLabel(exit, _) => match read(cx, l + 1, None, None) {
                        R::Got(matcher, _) => {
                            let e = target_of(cx, l, exit);
                            match index_at(cx.code, ls[n].1) {
                                Some(a) => if !(a < lo || (blk is None && e > ls[n].1 && index_at(cx.code, e) is None)) {
                                    let blk2 = if blk is None && e > ls[n].1 { leaves(cx, a, index_at(cx.code, e)->Some_0, e) } else { blk };
                                    path_moves(cx, a, e, blk2, Seq::empty());
                                    match path(cx, a, e, blk2, Seq::empty()) {
                                        Rs::Got(v, j) => { branches_moves(cx, lo, subject, ls, n + 1, j, blk2, cs.push(node(Tag::Case, seq![matcher, node(Tag::Block, broken(v))])), dft); }
                                        _ => {}
                                    }
                                },
                                None => {}
                            }
                        }
                        _ => {}
                    },
                    Instr::SwitchDefault => match blk {
                        Some(BlockContext::Switch { epilogue }) => {
                            path_moves(cx, l + 1, epilogue.value as int, blk, Seq::empty());
                            match path(cx, l + 1, epilogue.value as int, blk, Seq::empty()) {
                                Rs::Got(v, j) => {
                                    let made = Some(node(Tag::Default, seq![node(Tag::Block, v)]));
                                    branches_moves(cx, lo, subject, ls, n + 1, j, blk, cs, made);
                                    match index_at(cx.code, epilogue.value as int) { Some(m) => if m >= j && inside(cx, lo, m) { branches_moves(cx, lo, subject, ls, n + 1, m, blk, cs, made); }, None => {} }
                                }
                                _ => {}
                            }
                        }
                        _ => {
                            read_moves(cx, l + 1, None, blk);
                            match read(cx, l + 1, None, blk) {
                                R::Got(t, j) => { branches_moves(cx, lo, subject, ls, n + 1, j, blk, cs, Some(node(Tag::Default, seq![node(Tag::Block, seq![t])]))); }
                                _ => {}
                            }
                        }
                    },
                    _ => {}
                }
            },
            None => {}
        }
    }
}
""" % ("\n".join(rows), pat("EnumConst", ("e", "m")), pat("ObjectField", "x"), pat("StructField", "x"), pat("Context"), pat("Skip", ("off",)), pat("Jump", ("off",)), pat("Return"),
       pat("InvokeStatic", ("_", "_", "x")), pat("InvokeVirtual", ("_", "_", "x")), pat("JumpIfFalse", ("off",)), pat("Switch", ("_", "start")))))


WF = "dec_wf(*old(self)),"
KEEP = "same_input(*old(self), *final(self)),"
CX = "cx_of(*old(self))"
AT = "old(self).code.index as int"
HIDE = ""
NODEC = "#[verifier::exec_allows_no_decreases_clause]"
# Iterator::any / find_map over the instructions of a range, a sort by key and a loop over pairs, written out
WALK = "let ghost g_span = self.code.code@; let ghost g_lo = index_at(g_span, ($a).value as int)->Some_0; let ghost g_hi = index_at(g_span, ($b).value as int)->Some_0; let ghost mut g_at = g_lo; proof { ranged(g_span, walk.slice@, ($a).value as int, ($b).value as int); walk_start(g_span, g_lo, g_hi); }"
FLOW_RW = [("self.code.seek_rel($x)?;", "self.code.seek_rel($x)?; proof { index_is(self.code.code@, self.code.index as int); }"), ("$x:id.into()", "Box::new($x)"), ("self.code.seek_abs($x)?;", "self.code.seek_abs($x)?; proof { index_is(self.code.code@, self.code.index as int); }"),
           ("self.code.range($a, $b)?.any(|($l:id, $i:id)| $c)", "{ let mut walk = self.code.range($a, $b)?; %s let mut hit = false; while let Some(($l, $i)) = walk.next() { if $c { hit = true; break; } } hit }" % WALK),
           ("self.code.range($a, $b)?.find_map(|($l:id, $i:id)| $c)", "{ let mut walk = self.code.range($a, $b)?; %s let mut hit: Option<Location> = None; while let Some(($l, $i)) = walk.next() { hit = $c; if hit.is_some() { break; } } hit }" % WALK),
           ("labels.sort_by_key(|(_, $s:id)| *$s);", "sort_by_start(&mut labels);"),
           ("for ($l:id, $s:id) in labels {", "let stop = labels.len(); for n in 0..stop { let ($l, $s) = labels[n];")]


ARGS = "dec_wf(*self), same_input(*old(self), *self), done == args(%s, %s), done.is_free() || done == cons(trees(params), args(cx_of(*self), self.code.index as int))," % (CX, AT)


MAXLOC = [("Location::MAX", "last_location()")]
WALKING = "0 <= g_lo <= g_at <= g_hi <= g_span.len(), walk.slice@ == g_span.subrange(g_at, g_hi), walk.offset == pos_of(g_span, g_at), walk.offset + code_size(walk.slice@) <= 65535,"


def ONE_CALL(name, types, n):
    return "requires %s ensures %s meets(form(reads(%s, %s, %s), Tag::Call(%s, %s)), r, final(self).code.index as int, final(self).code.code@.len() as int)," % (WF, KEEP, CX, AT, n, name, types)


def orders(u, mode="verify"):
    u.raw("""
use vstd::std_specs::cmp::*;
impl<A> PartialEqSpecImpl for PoolIndex<A> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.value == o.value } }
// derived on a one-field struct: contracts ASSUMED
impl PartialEqSpecImpl for Location { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.value == o.value } }
impl PartialEq for Location { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { self.value == o.value } }
impl PartialOrdSpecImpl for Location {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { if self.value < o.value { Some(Ordering::Less) } else if self.value == o.value { Some(Ordering::Equal) } else { Some(Ordering::Greater) } }
}
impl PartialOrd for Location { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> (r: Option<Ordering>) { unimplemented!() } }
pub proof fn same_place<A>(a: PoolIndex<A>, b: PoolIndex<A>) requires a.value == b.value, ensures a == b {}
""")
    u.impl(BU, "PartialEq for PoolIndex<A>", {"eq": F()}, mode=mode)


DECLARE = """
// the locals and their types: a map from name to type; listing it names each entry once: contracts ASSUMED (BTreeMap)
#[verifier::external_body]
pub struct LocalMap { _p: () }
impl View for LocalMap { type V = Map<Seq<char>, Seq<char>>; uninterp spec fn view(&self) -> Map<Seq<char>, Seq<char>>; }
pub uninterp spec fn listing(m: Map<Seq<char>, Seq<char>>) -> Seq<(Seq<char>, Seq<char>)>;
impl LocalMap {
    #[verifier::external_body]
    pub fn new() -> (r: LocalMap) ensures r@ == Map::<Seq<char>, Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Ident, v: TypeName) -> (r: Option<TypeName>) ensures final(self)@ == old(self)@.insert(k@, v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &Ident) -> (r: Option<TypeName>)
        ensures final(self)@ == old(self)@.remove(k@), match r { Some(t) => old(self)@.dom().contains(k@) && t@ == old(self)@[k@], None => !old(self)@.dom().contains(k@) && final(self)@ == old(self)@ },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn listed(self) -> (r: Listed)
        ensures r@ == listing(self@), r@.no_duplicates(), forall|e: (Seq<char>, Seq<char>)| #[trigger] r@.contains(e) <==> (self@.dom().contains(e.0) && self@[e.0] == e.1),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Listed { _p: () }
impl View for Listed { type V = Seq<(Seq<char>, Seq<char>)>; uninterp spec fn view(&self) -> Seq<(Seq<char>, Seq<char>)>; }
impl Listed {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(Ident, TypeName)>)
        ensures match r { Some((n, t)) => old(self)@.len() > 0 && (n@, t@) == old(self)@[0] && final(self)@ == old(self)@.skip(1), None => old(self)@.len() == 0 && final(self)@ == old(self)@ },
    { unimplemented!() }
}
// the statements of a body, taken one by one (vec::IntoIter): contracts ASSUMED
#[verifier::external_body]
pub struct Stmts { _p: () }
impl View for Stmts { type V = Seq<Expr>; uninterp spec fn view(&self) -> Seq<Expr>; }
impl Stmts {
    #[verifier::external_body]
    pub fn of(v: Vec<Expr>) -> (r: Stmts) ensures r@ == v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Expr>)
        ensures match r { Some(e) => old(self)@.len() > 0 && e == old(self)@[0] && final(self)@ == old(self)@.skip(1), None => old(self)@.len() == 0 && final(self)@ == old(self)@ },
    { unimplemented!() }
    pub fn push_all(self, v: &mut Vec<Expr>)
        ensures trees(*final(v)) == trees(*old(v)) + shapes(self@),
    {
        let mut me = self;
        loop
            invariant trees(*v) + shapes(me@) == trees(*old(v)) + shapes(self@),
            ensures trees(*v) == trees(*old(v)) + shapes(self@),
            decreases me@.len(),
        {
            let ghost g_v = *v;
            let ghost g_me = me@;
            match me.next() {
                Some(e) => { v.push(e); proof { trees_push(g_v, *v); shapes_first(g_me); assert(trees(*v) + shapes(me@) =~= trees(g_v) + shapes(g_me)); } }
                None => { proof { assert(shapes(me@) =~= Seq::<Tree>::empty()); assert(trees(*v) + shapes(me@) =~= trees(*v)); } break; }
            }
        }
    }
}
pub fn push_some(v: &mut Vec<Expr>, e: Option<Expr>)
    ensures trees(*final(v)) == trees(*old(v)) + maybe(e),
{
    let ghost g_v = *v;
    match e {
        Some(e) => { v.push(e); proof { trees_push(g_v, *v); } }
        None => { proof { assert(trees(*v) + maybe(None) =~= trees(*v)); } }
    }
}
pub fn push_list(v: &mut Vec<Expr>, w: Vec<Expr>)
    ensures trees(*final(v)) == trees(*old(v)) + trees(w),
{
    let ghost g_w = w;
    let ghost g_v = *v;
    let mut w = w;
    v.append(&mut w);
    proof { assert(trees(*v) =~= trees(g_v) + trees(g_w)); }
}
pub open spec fn shapes(s: Seq<Expr>) -> Seq<Tree> { s.map_values(|e: Expr| tree(e)) }
pub open spec fn maybe(e: Option<Expr>) -> Seq<Tree> { match e { Some(e) => seq![tree(e)], None => seq![] } }
pub proof fn shapes_are(v: Vec<Expr>) ensures trees(v) == shapes(v@) { assert(trees(v) =~= shapes(v@)); }
pub proof fn shapes_first(s: Seq<Expr>) requires s.len() > 0, ensures shapes(s)[0] == tree(s[0]), shapes(s).len() == s.len(), shapes(s.skip(1)) == shapes(s).skip(1) { assert(shapes(s.skip(1)) =~= shapes(s).skip(1)); }
pub open spec fn lets(s: Seq<(Seq<char>, Seq<char>)>) -> Seq<Tree> { s.map_values(|e: (Seq<char>, Seq<char>)| node(Tag::Let(e.0, Some(e.1)), Seq::empty())) }
// the locals a function declares, by name; None: one of them is missing or not a local
pub open spec fn locals_of(p: ConstantPool, v: Seq<PoolIndex<Local>>, k: int) -> Option<Map<Seq<char>, Seq<char>>>
    decreases k,
{
    if k <= 0 { Some(Map::empty()) }
    else {
        match locals_of(p, v, k - 1) {
            Some(m) => match slot(p, v[k - 1].value as int) {
                Some(Definition { value: AnyDefinition::Local(l), .. }) => match (named(p, v[k - 1].value as int), named(p, l.type_.value as int)) { (Some(n), Some(t)) => Some(m.insert(n, t)), _ => None },
                _ => None,
            },
            None => None,
        }
    }
}
pub proof fn locals_down(p: ConstantPool, v: Seq<PoolIndex<Local>>, k: int)
    ensures forall|j: int| #![trigger locals_of(p, v, j)] 0 <= j <= k && locals_of(p, v, j) is None ==> locals_of(p, v, k) is None,
    decreases k,
{ if k > 0 { locals_down(p, v, k - 1); } }
// leading assignments to a local declare it there; the other locals are declared in front; the rest stays
pub open spec fn merged(m: Map<Seq<char>, Seq<char>>, s: Seq<Tree>, init: Seq<Tree>) -> Seq<Tree>
    decreases s.len(),
{
    if s.len() > 0 && s[0].tag is Assign {
        match s[0].kids[0].tag {
            Tag::Id(n) if m.dom().contains(n) => merged(m.remove(n), s.skip(1), init.push(node(Tag::Let(n, Some(m[n])), seq![s[0].kids[1]]))),
            _ => merged(m, s.skip(1), init.push(s[0])),
        }
    } else { lets(listing(m)) + init + s }
}
pub proof fn merged_is(m: Map<Seq<char>, Seq<char>>, s: Seq<Tree>, init: Seq<Tree>)
    ensures merged(m, s, init) == (
        if s.len() > 0 && s[0].tag is Assign {
            match s[0].kids[0].tag {
                Tag::Id(n) if m.dom().contains(n) => merged(m.remove(n), s.skip(1), init.push(node(Tag::Let(n, Some(m[n])), seq![s[0].kids[1]]))),
                _ => merged(m, s.skip(1), init.push(s[0])),
            }
        } else { lets(listing(m)) + init + s }),
{ }
pub proof fn kid_is(e: Expr)
    ensures e matches Expr::Assign(a, b, _) ==> tree(e) == node(Tag::Assign, seq![tree(*a), tree(*b)]), !(e is Assign) ==> !(tree(e).tag is Assign),
        e matches Expr::Assign(a, b, _) ==> (tree(*a).tag is Id <==> *a is Ident),
{
    reveal_with_fuel(tree, 3); reveal_with_fuel(block, 3);
    match e { Expr::Seq(b) => { assert(block(b).tag is Block); } Expr::Assign(a, _, _) => { match *a { Expr::Seq(b) => { assert(block(b).tag is Block); } _ => {} } } _ => {} }
}
"""


def dec(u, mode="verify"):
    orders(u)
    u.enum(D, "BlockContext", attrs="#[derive(Clone, Copy)]")
    u.struct(D, "Decompiler")
    spec(u)
    ONE = "requires %s ensures %s meets(read(%s, %s, %s, %s), r, final(self).code.index as int, final(self).code.code@.len() as int),"
    u.impl(D, "BlockContext", {
        "new_loop": F("ensures r == (BlockContext::Loop { prologue, epilogue }),"),
        "new_switch": F("ensures r == (BlockContext::Switch { epilogue }),"),
    }, mode=mode)
    u.impl(AST, "Target", {"new": F("ensures r.position == position,")}, mode=mode)
    u.fn(D, "resolve_jump", F("""ensures
            resolve(trees(old(seq).exprs), old(seq).exprs@.len() as int).0 == trees(final(seq).exprs),
            match resolve(trees(old(seq).exprs), old(seq).exprs@.len() as int).1 { Some(q) => (r matches Some(t) && t.position.value == q), None => r is None },""", attrs=NODEC,
        rw=[("seq.exprs.iter_mut().rev().find_map(|$x:id| $b)", "{ let mut k = seq.exprs.len(); while k > 0 { k = k - 1; let ghost v0 = seq.exprs; let $x = &mut seq.exprs[k]; let hit = $b; proof { settle_step(v0@[k as int], seq.exprs@[k as int], hit); one_turned(v0, seq.exprs, k as int); resolve_is(trees(v0), k + 1); } if hit.is_some() { return hit; } } proof { resolve_is(trees(seq.exprs), 0); } None }")],
        opt=("or_else",),
        loops=[L("while", """k <= seq.exprs@.len(), seq.exprs@.len() == old(seq).exprs@.len(), trees(seq.exprs) == trees(old(seq).exprs),
            resolve(trees(old(seq).exprs), old(seq).exprs@.len() as int) == resolve(trees(old(seq).exprs), k as int)""")]))
    mx = u.src(B).impls("Location")
    mx = next(c for i in mx for c in i.children() if c.kind == "const" and c.name == "MAX").text
    u.raw("//@fn %s::<Location>::MAX\npub fn last_location() -> (r: Location) ensures r.value == 65535 {%s %s }\n//@end" % (B, " proof { assert(false); }" if u.vacuity else "", re.sub(r"^.*?=|;\\s*$", "", mx, flags=re.S).strip().rstrip(";")))
    u.fns.append(B + "::<Location>::MAX")
    u.raw(DECLARE)
    u.fn(D, "merge_declarations", F("ensures r matches Ok(v) && trees(v.exprs) == merged(locals@, trees(seq.exprs), Seq::empty()),", attrs=NODEC,
        rw=[("Vec::with_capacity($n)", "Vec::new()"), ("let $x:id = loop { match $m { $b $o:id => break $o, } };", "let mut $x = None; loop { match $m { $b $o => { $x = $o; break; } } }"),
            ("seq.exprs.into_iter()", "Stmts::of(seq.exprs)"), ("for ($a:id, $b:id) in locals {", "let mut listed = locals.listed(); while let Some(($a, $b)) = listed.next() {"),
            ("$x:id.into()", "Box::new($x)"), ("ident.as_ref()", "&*ident"), ("body.extend(init)", "push_list(&mut body, init)"), ("body.extend(stmt)", "push_some(&mut body, stmt)"), ("body.extend(it)", "it.push_all(&mut body)")],
        sig_rw=[("BTreeMap<Ident, TypeName>", "LocalMap")],
        pre="let ghost g_all = merged(locals@, trees(seq.exprs), Seq::empty()); let ghost g_in = trees(seq.exprs);",
        loops=[L("loop", "", exc="g_all == merged(locals@, shapes(it@), trees(init))",
                 ens="g_all == lets(listing(locals@)) + trees(init) + maybe(stmt) + shapes(it@)",
                 pre="proof { trees_none(init); shapes_are(seq.exprs); assert(it@ == seq.exprs@); }",
                 start="let ghost g_init = init; let ghost g_loc = locals@; let ghost g_it = it@; proof { merged_is(g_loc, shapes(g_it), trees(g_init)); if it@.len() > 0 { shapes_first(it@); kid_is(it@[0]); } }",
                 post="proof { trees_push(g_init, init);  }"),
               L("while", "", exc="g_all == lets(listing(g_left)) + trees(init) + maybe(stmt) + shapes(it@), lets(listing(g_left)) == trees(body) + lets(listed@)", ens="g_all == trees(body) + trees(init) + maybe(stmt) + shapes(it@)",
                 pre="let ghost g_left = locals@; proof { trees_none(body); }",
                 start="let ghost g_body = body;",
                 post="proof { trees_push(g_body, body); }")]))
    u.raw("impl Block { pub fn new(exprs: Vec<Expr>) -> (r: Block) ensures r.exprs == exprs { Block { exprs } } }")
    u.impl(D, "Decompiler<'a>", {
        "new": F("ensures r.code == code, r.definition == definition, r.pool == pool,"),
        "definition_ident": F("ensures match named(*self.pool, index.value as int) { Some(t) => (r matches Ok(x) && x@ == t), None => (r matches Err(e) && !is_eoc(e)) },"),
        "consume_n": F("requires %s ensures %s meet_all(reads(%s, %s, n as nat), r, final(self).code.index as int, final(self).code.code@.len() as int)," % (WF, KEEP, CX, AT), attrs=NODEC, pre=HIDE,
            loops=[L("for", """dec_wf(*self), same_input(*old(self), *self), %s == %s,
                reads(cx_of(*self), %s, n as nat) is Free || reads(cx_of(*self), old(self).code.index as int, n as nat) == cons(trees(body), reads(cx_of(*self), self.code.index as int, (n - it.index@) as nat))""" % (CX, "cx_of(*self)", AT), it="it",
                     pre="proof { trees_none(body); cons_step(Seq::empty(), this(), reads(%s, %s, n as nat)); none_is(%s); }" % (CX, AT, CX),
                     start="let ghost b0 = body; proof { reads_is(cx_of(*self), self.code.index as int, (n - it.index@) as nat); read_moves(cx_of(*self), self.code.index as int, None, None); }",
                     post="proof { trees_push(b0, body); cons_step(trees(b0), tree(body@.last()), reads(cx_of(*self), self.code.index as int, (n - it.index@ - 1) as nat)); }")]),
        "consume_call": F(ONE_CALL("name@", "Seq::empty()", "param_count as nat"), attrs=NODEC, pre="proof { few_types(); }"),
        "consume_intrisnic_typed": F(ONE_CALL("op_name_of(op)", "type_texts(type_args@)", "op_args(op) as nat"), attrs=NODEC),
        "consume_intrisnic": F(ONE_CALL("op_name_of(op)", "Seq::empty()", "op_args(op) as nat"), attrs=NODEC, pre="proof { few_types(); }"),
        "consume_params": F("requires %s ensures %s meet_all(args(%s, %s), r, final(self).code.index as int, final(self).code.code@.len() as int)," % (WF, KEEP, CX, AT), attrs=NODEC, pre=HIDE,
            loops=[L("loop", "", exc=ARGS, ens=ARGS + "self.code.index < self.code.code@.len() && self.code.code@[self.code.index as int] is ParamEnd, args(cx_of(*self), self.code.index as int) == args_body(cx_of(*self), self.code.index as int),",
                     pre="let ghost done = args(%s, %s); proof { trees_none(params); cons_step(Seq::empty(), this(), done); }" % (CX, AT),
                     start="let ghost b0 = params; proof { args_is(cx_of(*self), self.code.index as int); read_moves(cx_of(*self), self.code.index as int, None, None); }",
                     post="proof { trees_push(b0, params); cons_step(trees(b0), tree(params@.last()), args(cx_of(*self), self.code.index as int)); }"),
                   L("while", ARGS + """params == b0, args(cx_of(*self), self.code.index as int) == args_body(cx_of(*self), self.code.index as int),
                        self.code.index >= self.code.code@.len() ==> read(cx_of(*self), self.code.index as int, None, None) == R::Eoc,
                        read(cx_of(*self), self.code.index as int, None, None) matches R::Got(_, j) ==> inside(cx_of(*self), self.code.index + 1, j)""",
                     post="proof { args_is(cx_of(*self), self.code.index as int); read_moves(cx_of(*self), self.code.index as int, None, None); }")]),
        "consume_path": F("requires %s ensures %s meet_block(path(%s, %s, target.value as int, block, Seq::empty()), r, final(self).code.index as int, final(self).code.code@.len() as int)," % (WF, KEEP, CX, AT), attrs=NODEC, pre=HIDE,
            loops=[L("loop", "", exc="""dec_wf(*self), same_input(*old(self), *self), done == path(cx_of(*old(self)), old(self).code.index as int, target.value as int, block, Seq::empty()),
                    done.is_free() || done == path(cx_of(*self), self.code.index as int, target.value as int, block, trees(body))""",
                     ens="""dec_wf(*self), same_input(*old(self), *self),
                    meet_block(done, Ok(Block { exprs: body }), self.code.index as int, self.code.code@.len() as int)""",
                     pre="let ghost done = path(%s, %s, target.value as int, block, Seq::empty()); proof { trees_none(body); }" % (CX, AT),
                     start="let ghost b0 = body; proof { path_is(cx_of(*self), self.code.index as int, target.value as int, block, trees(body)); read_moves(cx_of(*self), self.code.index as int, None, block); if body@.len() > 0 { trees_last(body); } }",
                     post="proof { if body@ != b0@ { trees_push(b0, body); } }")]),
        "consume_conditional_jump": F("""requires %s 0 < old(self).code.index <= old(self).code.code@.len(), old(self).code.code@[old(self).code.index - 1] == Instr::<Offset>::JumpIfFalse(offset),
                position.value == pos_of(old(self).code.code@, old(self).code.index - 1),
            ensures %s meets(flow(%s, old(self).code.index - 1, offset, block), r, final(self).code.index as int, final(self).code.code@.len() as int),""" % (WF, KEEP, CX),
            attrs=NODEC + "\n#[verifier::spinoff_prover]",
            pre="""let ghost g_cx = %s; let ghost g_i = old(self).code.index - 1;
                proof { flow_is(g_cx, g_i, offset, block); read_moves(g_cx, g_i + 1, None, None); index_is(g_cx.code, g_i); branching(); }""" % CX,
            rw=FLOW_RW,
            loops=[L("while", inv="g_cx.code == g_span, g_lo == g_i, position.value == pos_of(g_span, g_i)", exc=WALKING + " !hit, forall|q: int| g_lo <= q < g_at ==> !#[trigger] goes_to(g_cx, q, pos_of(g_cx.code, g_i))", ens="hit == loops_back(g_cx, g_i, g_hi)",
                     start="proof { walk_step(g_span, g_at, g_hi); g_at = g_at + 1; assert(noted(goes_to(g_cx, g_at - 1, pos_of(g_cx.code, g_i)))); }")]),
        "consume_switch": F("""requires %s 0 < old(self).code.index <= old(self).code.code@.len(),
            ensures %s meets(switch_at(%s, old(self).code.index - 1, start.value as int), r, final(self).code.index as int, final(self).code.code@.len() as int),""" % (WF, KEEP, CX),
            attrs=NODEC + "\n#[verifier::spinoff_prover]",
            pre="""let ghost g_cx = %s; let ghost g_i = old(self).code.index - 1; let ghost g_first = start.value as int; let ghost g_all = switch_at(g_cx, g_i, g_first);
                proof { switch_at_is(g_cx, g_i, g_first); read_moves(g_cx, g_i + 1, None, None); spotted(); choices(); }""" % CX,
            rw=FLOW_RW,
            loops=[L("while", inv="""dec_wf(*self), same_input(*old(self), *self), g_cx == cx_of(*self), g_cx == cx_of(*old(self)), g_i == old(self).code.index - 1, g_first == start.value,
                        g_all == switch_at(g_cx, g_i, g_first), index_at(g_cx.code, g_first) == Some(g_s), g_s > g_i ==> (g_all is Free || label_list(g_cx, g_s, Seq::empty()) is Some ),
                        g_s <= g_i ==> g_all is Free, g_s > g_i ==> (label_list(g_cx, g_s, Seq::empty()) matches Some(None) ==> g_all is Free),
                        g_all is Free || (label_list(g_cx, g_s, Seq::empty()) is None ==> g_all is Bad),
                        g_all is Free || (label_list(g_cx, g_s, Seq::empty()) matches Some(Some(ls)) ==> g_all == branches(g_cx, g_i + 1, tree(subject), stable(ls), 0, g_s, None, Seq::empty(), None)),
                        g_all is Free || label_list(g_cx, g_s, Seq::empty()) == label_list(g_cx, self.code.index as int, spots(labels@)),
                        labels@.len() == 0 ==> self.code.index == g_s""".replace("g_s > g_i ==> (g_all is Free || label_list(g_cx, g_s, Seq::empty()) is Some ),\n", ""),
                     ens="!(self.code.index < self.code.code@.len() && self.code.code@[self.code.index as int] is SwitchLabel)",
                     pre="let ghost g_s = self.code.index as int; proof { assert(spots(labels@) =~= Seq::<(int, int)>::empty()); }",
                     start="let ghost g_was = self.code.index as int; proof { spotted(); }"),
                   L("for", """dec_wf(*self), same_input(*old(self), *self), g_cx == cx_of(*self), g_cx == cx_of(*old(self)), g_i == old(self).code.index - 1, 0 <= g_i, stop == labels@.len(),
                        g_all == switch_at(%s, old(self).code.index - 1, start.value as int),
                        g_all is Free || g_all == branches(g_cx, g_i + 1, tree(subject), spots(labels@), it.index@ as int, g_end, block, case_trees(cases), default_tree(default)),
                        g_all is Free || it.index@ < stop || g_all == branches_body(g_cx, g_i + 1, tree(subject), spots(labels@), it.index@ as int, g_end, block, case_trees(cases), default_tree(default)),
                        it.index@ > 0 || stop == 0 ==> g_end == self.code.index""" % CX, it="it",
                     pre="let ghost mut g_end = g_s; proof { branches_is(g_cx, g_i + 1, tree(subject), spots(labels@), 0, g_end, block, case_trees(cases), default_tree(default)); }",
                     start="let ghost g_cases = cases; proof { branches_is(g_cx, g_i + 1, tree(subject), spots(labels@), it.index@ as int, g_end, block, case_trees(cases), default_tree(default)); breaks(); choices(); atoms(); }",
                     post="""proof { g_end = self.code.index as int; if cases@.len() > g_cases@.len() { cases_push(g_cases, cases); }
                        branches_is(g_cx, g_i + 1, tree(subject), spots(labels@), it.index@ + 1, g_end, block, case_trees(cases), default_tree(default)); }"""),
                   L("while", inv="g_cx.code == g_span", exc=WALKING + " hit is None, leaves(g_cx, g_lo, g_hi, exit.value as int) == leaves(g_cx, g_at, g_hi, exit.value as int)",
                     ens="match hit { Some(p) => leaves(g_cx, g_lo, g_hi, exit.value as int) == Some(BlockContext::Switch { epilogue: p }), None => leaves(g_cx, g_lo, g_hi, exit.value as int) is None }",
                     start="proof { walk_step(g_span, g_at, g_hi); g_at = g_at + 1; }")]),
        "decompile": F("requires %s ensures %s meet_block(path(%s, %s, 65535, None, Seq::empty()), r, final(self).code.index as int, final(self).code.code@.len() as int)," % (WF, KEEP, CX, AT), attrs=NODEC, rw=MAXLOC),
        "decompiled": F("""requires solid(function.code.0@), forward(function.code.0@), pos_of(function.code.0@, function.code.0@.len() as int) <= 65535,
            ensures match locals_of(*pool, function.locals@, function.locals@.len() as int) {
                None => r is Err,
                Some(m) => match path(Cx { code: function.code.0@, def: *def, pool: *pool }, 0, 65535, None, Seq::empty()) {
                    Rs::Got(t, _) => r matches Ok(v) && trees(v.exprs) == merged(m, t, Seq::empty()), Rs::Free => true, _ => r is Err,
                },
            },""", attrs=NODEC,
            rw=[("for $x:id in &function.locals {", "let stop = function.locals.len(); for at in 0..stop { let $x = &function.locals[at];"), ("BTreeMap::new()", "LocalMap::new()")],
            pre="proof { locals_down(*pool, function.locals@, function.locals@.len() as int); }",
            loops=[L("for", "stop == function.locals@.len(), locals_of(*pool, function.locals@, it.index@ as int) == Some(locals@), forall|j: int| #![trigger locals_of(*pool, function.locals@, j)] 0 <= j <= stop && locals_of(*pool, function.locals@, j) is None ==> locals_of(*pool, function.locals@, stop as int) is None", it="it",
                     start="proof { assert(noted(locals_of(*pool, function.locals@, it.index@ + 1) is None)); }")]),
        "consume": F(ONE % (WF, KEEP, CX, AT, "None", "None"), attrs=NODEC),
        "consume_with": F(ONE % (WF, KEEP, CX, AT, "obj_of(context)", "block"), attrs=NODEC + "\n#[verifier::spinoff_prover]", split_or=True, cases=12, opt=("ok_or",),
            pre="""proof {
                let cx = %s; let i = %s;
                read_is(cx, i, obj_of(context), block); few_reads(cx, i + 1); few_types(); atoms(); read_moves(cx, i + 1, None, None);
                match read(cx, i + 1, None, None) { R::Got(_, j) => { read_moves(cx, j, None, None); } _ => {} }
            }""" % (CX, AT)),
    }, mode=mode)


def base(u):
    instr.base(u)
    instr.stubs(u, ["CName", "Resource", "TweakDbId", "Class", "Enum", "Parameter", "Field", "SourceFile", "Visibility", "LocalFlags", "SourceReference"])
    u.raw(contract_file("refstr.rs"))
    instr.pool_index(u, "assume")
    instr.small(u, "assume")
    u.enum(DF, "Type", attrs="#[derive(Clone, Copy)]")
    u.raw("pub struct FunctionFlags { _p: () }\nimpl FunctionFlags { pub uninterp spec fn st(self) -> bool; #[verifier::external_body] pub fn is_static(&self) -> (r: bool) ensures r == self.st() { unimplemented!() } }")
    instr.instr_types(u)
    codebody.sizes(u, "assume")
    u.struct(B, "Code")
    u.struct(DF, "Function")
    u.struct(DF, "Local")
    pool.any_definition(u)
    pool.definition(u)
    strings.pool_error(u)
    strings.kinds(u)
    strings.strings(u, "assume")
    pool.pool(u, "assume")
    cursor.cursor(u, "assume")
    ast(u)
    errors(u)
    u.global_rw = RW


def build(repo):
    u = Unit("decompile", repo)
    base(u)
    intrinsics(u)
    dec(u)
    return u
