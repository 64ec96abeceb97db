"""contracts for the checks of typed bodies (compiler/src/diagnostics/*.rs): what is reported, and in which order"""
import re
from vgen import Unit, F, L
from rsx import strip_inner_attrs, rewrite, LostAnchor
import assembler
import instr
from assembler import NODEC, OPEN, TC
from instr import B, DF
from decompile import AST

D = "compiler/src/diagnostics.rs"
MR = "compiler/src/diagnostics/missing_return.rs"
SF = "compiler/src/diagnostics/stmt_fallthrough.rs"
UL = "compiler/src/diagnostics/unused_local.rs"
IT = "compiler/src/diagnostics/invalid_temp_use.rs"
TR = "compiler/src/transform.rs"

SPEC = r"""
// ------------------------------------------------------------------ every part of an expression, in the order of the source: itself, then its operands and the statements in it
pub open spec fn visit<A>(w: spec_fn(Expr, A) -> A, e: Expr, a: A) -> A
    decreases e, 0int
{
    let a = w(e, a);
    match e {
        Expr::ArrayLit(x, _, _) => visits(w, x, 0, a),
        Expr::InterpolatedString(_, x, _) => visit_parts(w, x, 0, a),
        Expr::Declare(_, _, Some(x), _) => visit(w, *x, a),
        Expr::Cast(_, x, _) => visit(w, *x, a),
        Expr::Assign(x, y, _) => visit(w, *y, visit(w, *x, a)),
        Expr::Call(_, _, x, _) => visits(w, x, 0, a),
        Expr::MethodCall(x, _, y, _) => visits(w, y, 0, visit(w, *x, a)),
        Expr::Member(x, _, _) => visit(w, *x, a),
        Expr::ArrayElem(x, y, _) => visit(w, *y, visit(w, *x, a)),
        Expr::New(_, x, _) => visits(w, x, 0, a),
        Expr::Return(Some(x), _) => visit(w, *x, a),
        Expr::Seq(b) => visits(w, b.exprs, 0, a),
        Expr::Switch(x, cases, default, _) => {
            let a = visit_cases(w, cases, 0, visit(w, *x, a));
            match default { Some(b) => visits(w, b.exprs, 0, a), None => a }
        }
        Expr::If(x, b, other, _) => {
            let a = visits(w, b.exprs, 0, visit(w, *x, a));
            match other { Some(b) => visits(w, b.exprs, 0, a), None => a }
        }
        Expr::Conditional(x, y, z, _) => visit(w, *z, visit(w, *y, visit(w, *x, a))),
        Expr::While(x, b, _) => visits(w, b.exprs, 0, visit(w, *x, a)),
        Expr::ForIn(_, x, b, _) => visits(w, b.exprs, 0, visit(w, *x, a)),
        Expr::BinOp(x, y, _, _) => visit(w, *y, visit(w, *x, a)),
        Expr::UnOp(x, _, _) => visit(w, *x, a),
        _ => a,
    }
}
pub open spec fn visits<A>(w: spec_fn(Expr, A) -> A, s: Vec<Expr>, k: int, a: A) -> A
    decreases s, s@.len() - k
{ if k < 0 || k >= s@.len() { a } else { visits(w, s, k + 1, visit(w, s@[k], a)) } }
pub open spec fn visit_parts<A>(w: spec_fn(Expr, A) -> A, s: Vec<(Expr, RefStr)>, k: int, a: A) -> A
    decreases s, s@.len() - k
{ if k < 0 || k >= s@.len() { a } else { visit_parts(w, s, k + 1, visit(w, s@[k].0, a)) } }
pub open spec fn visit_cases<A>(w: spec_fn(Expr, A) -> A, s: Vec<SwitchCase>, k: int, a: A) -> A
    decreases s, s@.len() - k
{ if k < 0 || k >= s@.len() { a } else { visit_cases(w, s, k + 1, visits(w, s@[k].body.exprs, 0, visit(w, s@[k].matcher, a))) } }

// ------------------------------------------------------------------ where an expression stands
pub open spec fn around(a: Span, b: Span) -> Span {
    Span { low: if a.low.0 <= b.low.0 { a.low } else { b.low }, high: if a.high.0 >= b.high.0 { a.high } else { b.high } }
}
pub open spec fn nowhere() -> Span { Span { low: Pos(0), high: Pos(0) } }
pub open spec fn place(e: Expr) -> Span
    decreases e
{
    match e {
        Expr::Ident(_, s) => s, Expr::Constant(_, s) => s, Expr::ArrayLit(_, _, s) => s, Expr::InterpolatedString(_, _, s) => s, Expr::Declare(_, _, _, s) => s,
        Expr::Cast(_, _, s) => s, Expr::Assign(_, _, s) => s, Expr::Call(_, _, _, s) => s, Expr::MethodCall(_, _, _, s) => s, Expr::Member(_, _, s) => s,
        Expr::ArrayElem(_, _, s) => s, Expr::New(_, _, s) => s, Expr::Return(_, s) => s, Expr::Switch(_, _, _, s) => s, Expr::Goto(_, s) => s, Expr::If(_, _, _, s) => s,
        Expr::Conditional(_, _, _, s) => s, Expr::While(_, _, s) => s, Expr::ForIn(_, _, _, s) => s, Expr::BinOp(_, _, _, s) => s, Expr::UnOp(_, _, s) => s,
        Expr::This(s) => s, Expr::Super(s) => s, Expr::Break(s) => s, Expr::Null(s) => s,
        // statements: from the first to the last
        Expr::Seq(b) => if b.exprs@.len() > 0 { around(place(b.exprs@[0]), place(b.exprs@[b.exprs@.len() - 1])) } else { nowhere() },
    }
}

// ------------------------------------------------------------------ a body whose end is not reached
pub open spec fn leaves(e: Expr) -> bool
    decreases e
{
    match e {
        Expr::Return(_, _) => true,
        Expr::Seq(b) => exists|i: int| 0 <= i < b.exprs@.len() && leaves(#[trigger] b.exprs@[i]),
        // every case does, and the default if there is one
        Expr::Switch(_, cases, default, _) =>
            (forall|k: int| 0 <= k < cases@.len() ==> exists|i: int| 0 <= i < (#[trigger] cases@[k]).body.exprs@.len() && leaves(#[trigger] cases@[k].body.exprs@[i]))
            && match default { Some(b) => exists|i: int| 0 <= i < b.exprs@.len() && leaves(#[trigger] b.exprs@[i]), None => true },
        Expr::If(_, b, Some(o), _) =>
            (exists|i: int| 0 <= i < b.exprs@.len() && leaves(#[trigger] b.exprs@[i])) && (exists|i: int| 0 <= i < o.exprs@.len() && leaves(#[trigger] o.exprs@[i])),
        _ => false,
    }
}
pub open spec fn leaves_block(b: Block) -> bool { exists|i: int| 0 <= i < b.exprs@.len() && leaves(#[trigger] b.exprs@[i]) }

// ------------------------------------------------------------------ a case that runs into the next
pub open spec fn runs_on(b: Block) -> bool {
    b.exprs@.len() > 0 && !(b.exprs@.last() is Break) && !(b.exprs@.last() is Return)
}
// of the first n cases
pub open spec fn running_on(cases: Vec<SwitchCase>, n: int, a: Seq<Diagnostic>) -> Seq<Diagnostic>
    decreases n
{
    if n <= 0 { a } else {
        let a = running_on(cases, n - 1, a);
        if runs_on(cases@[n - 1].body) { a.push(Diagnostic::StatementFallthrough(place(cases@[n - 1].matcher))) } else { a }
    }
}
// all but the last
pub open spec fn through(e: Expr, a: Seq<Diagnostic>) -> Seq<Diagnostic> { match e { Expr::Switch(_, cases, _, _) => running_on(cases, cases@.len() - 1, a), _ => a } }
pub open spec fn through_() -> spec_fn(Expr, Seq<Diagnostic>) -> Seq<Diagnostic> { |e: Expr, a: Seq<Diagnostic>| through(e, a) }

// ------------------------------------------------------------------ what needs a place in memory, done to a temporary
pub open spec fn in_place(o: IntrinsicOp) -> bool {
    o is ArrayContains || o is ArrayCount || o is ArrayFindFirst || o is ArrayFindLast || o is ArrayLast || o is ArrayPop || o is ArraySize
}
pub open spec fn misused(e: Expr) -> Option<Expr> {
    match e {
        Expr::Member(x, Member::StructField(_), _) => if temporary(*x) { Some(*x) } else { None },
        Expr::ArrayElem(x, _, _) => if temporary(*x) { Some(*x) } else { None },
        Expr::Call(Callable::Intrinsic(o, _), _, args, _) => if in_place(o) && args@.len() > 0 && temporary(args@[0]) { Some(args@[0]) } else { None },
        _ => None,
    }
}
pub open spec fn misuse(e: Expr, a: Seq<Diagnostic>) -> Seq<Diagnostic> { match misused(e) { Some(x) => a.push(Diagnostic::InvalidUseOfTemporary(place(x))), None => a } }
pub open spec fn misuse_() -> spec_fn(Expr, Seq<Diagnostic>) -> Seq<Diagnostic> { |e: Expr, a: Seq<Diagnostic>| misuse(e, a) }

// ------------------------------------------------------------------ locals declared and never named
pub ghost struct Use { pub declared: Seq<(PoolIndex<Local>, Span)>, pub used: Set<PoolIndex<Local>> }
pub open spec fn using(e: Expr, a: Use) -> Use {
    match e {
        Expr::Declare(l, _, _, s) => Use { declared: a.declared.push((l, s)), ..a },
        Expr::ForIn(l, _, _, s) => Use { declared: a.declared.push((l, s)), ..a },
        Expr::Ident(Reference::Value(Value::Local(l)), _) => Use { used: a.used.insert(l), ..a },
        _ => a,
    }
}
pub open spec fn using_() -> spec_fn(Expr, Use) -> Use { |e: Expr, a: Use| using(e, a) }
pub open spec fn uses(b: Block) -> Use { visits(using_(), b.exprs, 0, Use { declared: Seq::empty(), used: Set::empty() }) }
pub open spec fn unused(u: Use, n: int) -> Seq<Diagnostic>
    decreases n
{
    if n <= 0 { Seq::empty() } else {
        let a = unused(u, n - 1);
        if u.used.contains(u.declared[n - 1].0) { a } else { a.push(Diagnostic::UnusedLocal(u.declared[n - 1].1)) }
    }
}

// ------------------------------------------------------------------ theorems
// a report for each declared local that is named nowhere, and for no other
pub proof fn unused_is(u: Use, n: int)
    requires 0 <= n <= u.declared.len(),
    ensures
        forall|i: int| 0 <= i < n && !u.used.contains(u.declared[i].0) ==> unused(u, n).contains(Diagnostic::UnusedLocal((#[trigger] u.declared[i]).1)),
        forall|d: Diagnostic| #[trigger] unused(u, n).contains(d) ==> exists|i: int| 0 <= i < n && !u.used.contains(u.declared[i].0) && d == Diagnostic::UnusedLocal(u.declared[i].1),
    decreases n,
{
    if n > 0 {
        unused_is(u, n - 1);
        let a = unused(u, n - 1);
        let x = Diagnostic::UnusedLocal(u.declared[n - 1].1);
        assert(forall|d: Diagnostic| a.push(x).contains(d) <==> a.contains(d) || d == x) by {
            assert(a.push(x)[a.len() as int] == x);
            assert forall|d: Diagnostic| a.contains(d) implies a.push(x).contains(d) by { let k = choose|k: int| 0 <= k < a.len() && a[k] == d; assert(a.push(x)[k] == d); }
        }
        assert forall|d: Diagnostic| #[trigger] unused(u, n).contains(d) implies exists|i: int| 0 <= i < n && !u.used.contains(u.declared[i].0) && d == Diagnostic::UnusedLocal(u.declared[i].1) by {
            if a.contains(d) {
                let i = choose|i: int| 0 <= i < n - 1 && !u.used.contains(u.declared[i].0) && d == Diagnostic::UnusedLocal(u.declared[i].1);
                assert(0 <= i < n);
            } else { assert(!u.used.contains(u.declared[n - 1].0)); }
        }
    }
}
// a loop, a branch without an else, an assignment: none of them keeps the end from being reached
pub proof fn reaches_end(b: Block)
    requires forall|i: int| 0 <= i < b.exprs@.len() ==> !((#[trigger] b.exprs@[i]) is Return || b.exprs@[i] is Seq || b.exprs@[i] is Switch || b.exprs@[i] is If),
    ensures !leaves_block(b),
{ }
"""

HELP = r"""
#[verifier::external_body]
pub struct LocalSet { _p: () }
impl View for LocalSet { type V = Set<PoolIndex<Local>>; uninterp spec fn view(&self) -> Set<PoolIndex<Local>>; }
impl LocalSet {
    #[verifier::external_body]
    pub fn insert(&mut self, l: PoolIndex<Local>) -> (r: bool) ensures final(self)@ == old(self)@.insert(l) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, l: &PoolIndex<Local>) -> (r: bool) ensures r == self@.contains(*l) { unimplemented!() }
}
#[verifier::external_body]
pub struct ParamSet { _p: () }
impl ParamSet {
    #[verifier::external_body]
    pub fn insert(&mut self, l: PoolIndex<Parameter>) -> (r: bool) { unimplemented!() }
}
pub fn last_of(v: &Vec<Expr>) -> (r: Option<&Expr>)
    ensures match r { Some(x) => v@.len() > 0 && *x == v@[v@.len() - 1], None => v@.len() == 0 }
{ if v.len() > 0 { Some(&v[v.len() - 1]) } else { None } }
// iter().any(does_always_return), iter().all(|case| does_seq_return(&case.body)) written out
@@NODEC@@
pub fn any_leaves(s: &Vec<Expr>) -> (r: bool)
    ensures r == exists|i: int| 0 <= i < s@.len() && leaves(#[trigger] s@[i])
{
    let mut at = 0;
    while at < s.len()
        invariant at <= s@.len(), forall|i: int| 0 <= i < at ==> !leaves(#[trigger] s@[i])
    { if does_always_return(&s[at]) { return true; } at = at + 1; }
    false
}
@@NODEC@@
pub fn all_cases_leave(s: &Vec<SwitchCase>) -> (r: bool)
    ensures r == forall|k: int| 0 <= k < s@.len() ==> leaves_block((#[trigger] s@[k]).body)
{
    let mut at = 0;
    while at < s.len()
        invariant at <= s@.len(), forall|k: int| 0 <= k < at ==> leaves_block((#[trigger] s@[k]).body)
    { if !does_seq_return(&s[at].body) { return false; } at = at + 1; }
    true
}
"""

# the derive of Diagnostic's payloads is not modelled; Deprecation, Cause and ExpectedSet are opaque
OPAQUE = """
#[verifier::external_body]
pub struct ExpectedSet { _p: () }
#[verifier::external_body]
pub struct Deprecation { _p: () }
"""


def macro(u):
    """the arms of visit_expr! at (self, on_expr, expr)"""
    t = u.src(TR).text
    m = re.search(r"macro_rules!\s*visit_expr\s*\{\s*\(\s*\$self:expr,\s*\$fun:ident,\s*\$expr:expr\s*\)\s*=>\s*\{", t)
    if not m:
        raise LostAnchor("visit_expr!")
    n, k = 1, m.end()
    while n:
        n += {"{": 1, "}": -1}.get(t[k], 0)
        k += 1
    body = t[m.end():k - 1]
    return body.replace("$self", "self").replace("$fun", "on_expr").replace("$expr", "expr").replace("$crate::", "crate::")


def build(repo):
    u = Unit("advice", repo)
    u.global_rw = [("Seq<TypedAst>", "Block"), ("TypedExpr", "Expr")]
    assembler.base(u)
    u.raw(OPAQUE)
    assembler.world(u)
    u.raw(re.search(r"pub open spec fn temporary.*?\n\}\n", assembler.GEN1 if hasattr(assembler, "GEN1") else open(assembler.__file__).read(), re.S).group(0))
    u.enum(D, "Diagnostic")
    u.struct(D, "FunctionMetadata")
    u.raw(SPEC + HELP.replace("@@NODEC@@", NODEC))
    u.raw("impl FunctionFlags { pub uninterp spec fn rv(self) -> bool;\n#[verifier::external_body] pub fn has_return_value(&self) -> (r: bool) ensures r == self.rv() { unimplemented!() } }")
    u.raw("impl Span {\n#[verifier::external_body]\npub fn merge(self, other: Span) -> (r: Span) ensures r == around(self, other) { unimplemented!() } }")
    u.impl(AST, "Expr<N>", {"span": F("ensures r == place(*self),", attrs=NODEC, split_or=True, rw=[
        ("seq.exprs.first().map(Self::span).unwrap_or_default()", "(match first_of(&seq.exprs) { Some(x) => x.span(), None => Span::ZERO })"),
        ("seq.exprs.last().map(Self::span).unwrap_or_default()", "(match last_of(&seq.exprs) { Some(x) => x.span(), None => Span::ZERO })")])}, hdr="impl Expr")
    u.impl(TC, "TypedExprExt for TypedExpr", {"is_prvalue": F("ensures r == temporary(*self),", attrs=NODEC, split_or=True)}, hdr="impl Expr")
    # ---------------------------------------------------------------- missing return
    u.fn(MR, "does_always_return", F("ensures r == leaves(*expr),", attrs=NODEC, rw=[
        ("cases.iter().all(|case| does_seq_return(&case.body))", "all_cases_leave(cases)"),
        ("default.as_ref().map_or(true, does_seq_return)", "(match default { Some(b) => does_seq_return(b), None => true })")],
        after=[("^let cases_return", "proof { assert(cases_return == forall|k: int| 0 <= k < cases@.len() ==> exists|i: int| 0 <= i < (#[trigger] cases@[k]).body.exprs@.len() && leaves(#[trigger] cases@[k].body.exprs@[i])) by { assert(forall|k: int| 0 <= k < cases@.len() ==> leaves_block((#[trigger] cases@[k]).body) == exists|i: int| 0 <= i < cases@[k].body.exprs@.len() && leaves(#[trigger] cases@[k].body.exprs@[i])); } }")]))
    u.fn(MR, "does_seq_return", F("ensures r == leaves_block(*seq),", attrs=NODEC, rw=[("seq.exprs.iter().any(does_always_return)", "any_leaves(&seq.exprs)")]))
    u.trait(D, "DiagnosticPass", {"diagnose": F("ensures r@ == self.advice(*body, *metadata),")}, hdr_rw=[(": fmt::Debug", "")],
            extra="spec fn advice(&self, b: Block, m: FunctionMetadata) -> Seq<Diagnostic>;")
    u.trait(D, "ExprDiagnosticPass", {"diagnose": F("ensures final(results)@ == visit(self.pass(), *body, old(results)@),")}, hdr_rw=[(": fmt::Debug", "")],
            extra="spec fn pass(&self) -> spec_fn(Expr, Seq<Diagnostic>) -> Seq<Diagnostic>;")
    # every statement of the body, with what was reported so far
    u.impl(D, "DiagnosticPass for A", {"diagnose": F("", attrs=OPEN, rw=[("let mut $x:id = vec![];", "let mut $x: Vec<Diagnostic> = Vec::new();"), ("for expr in &body.exprs {", "for at in 0..body.exprs.len() { let expr = &body.exprs[at];")],
           loops=[L("for", "visits(self.pass(), body.exprs, at as int, results@) == self.advice(*body, *metadata)")])},
           extra="open spec fn advice(&self, b: Block, m: FunctionMetadata) -> Seq<Diagnostic> { visits(self.pass(), b.exprs, 0, Seq::empty()) }")
    u.raw("pub struct MissingReturnCheck;")
    u.impl(MR, "DiagnosticPass for MissingReturnCheck", {"diagnose": F("", rw=[("vec![$x]", "one_of($x)"), ("vec![]", "Vec::new()")])},
           extra="open spec fn advice(&self, b: Block, m: FunctionMetadata) -> Seq<Diagnostic> { if m.flags.rv() && !m.was_callback && !leaves_block(b) { seq![Diagnostic::MissingReturn(m.span)] } else { Seq::empty() } }")
    u.raw("pub fn one_of(d: Diagnostic) -> (r: Vec<Diagnostic>) ensures r@ == seq![d] { let mut v = Vec::new(); v.push(d); proof { assert(v@ =~= seq![d]); } v }")
    # ---------------------------------------------------------------- the visitors
    walk = macro(u)
    RW = [("visit_expr!(self, on_expr, expr);", walk),
          ("for expr in exprs.iter() { self.on_expr(expr); }", "self.on_each(exprs);"), ("for expr in args.iter() { self.on_expr(expr); }", "self.on_each(args);"),
          ("for expr in args { self.on_expr(expr); }", "self.on_each(args);"), ("for (expr, _) in parts { self.on_expr(expr); }", "self.on_parts(parts);"),
          ("for case in cases {", "for case_at in 0..cases.len() { let case = &cases[case_at];"),
          ("crate::transform::visit_seq(&seq, |e| self.on_expr(e))", "self.visit_seq(seq)"), ("crate::transform::visit_seq(&case.body, |e| self.on_expr(e))", "self.visit_seq(&case.body)"),
          ("crate::transform::visit_seq($s, |e| self.on_expr(e))", "self.visit_seq($s)"),
          ("*local, *span", "*local, *span"),
          ("for case in cases.iter().dropping_back(1) {", "for back_at in 0..all_but_one(cases) { let case = &cases[back_at];"),
          ("case.body.exprs.last()", "last_of(&case.body.exprs)"),
          ("for expr in &seq.exprs {", "for at in 0..seq.exprs.len() { let expr = &seq.exprs[at];")]
    u.raw("pub fn all_but_one(v: &Vec<SwitchCase>) -> (r: usize) ensures r == (if v@.len() > 0 { v@.len() - 1 } else { 0 }) { if v.len() > 0 { v.len() - 1 } else { 0 } }")

    def visitor(rel, hdr, w, state, decl, rw=(), loops=(), keep=""):
        one = "ensures %s == visit(%s, *expr, %s), %s" % (state("final(self)"), w, state("old(self)"), keep)
        many = "ensures %s == %s(%s, *v, 0, %s), %s" % (state("final(self)"), "%s", w, state("old(self)"), keep)
        still = keep.replace("final(self)", "self")
        seq = u.fn_text(u.src(TR).item("fn", "visit_seq"), F("ensures %s == visits(%s, seq.exprs, 0, %s), %s" % (state("final(self)"), w, state("old(self)"), keep), attrs=OPEN, ret="_r",
                        rw=[("fun(item)", "self.on_expr(item)"), ("for item in &seq.exprs {", "for at in 0..seq.exprs.len() { let item = &seq.exprs[at];")],
                        sig_rw=[("<F: FnMut(&Expr)>(seq: &Block, mut fun: F)", "(&mut self, seq: &Block)")],
                        loops=[L("for", "visits(%s, seq.exprs, 0, %s) == visits(%s, seq.exprs, at as int, %s), %s" % (w, state("old(self)"), w, state("self"), still))]), TR + "::visit_seq")

        def loop(name, ty, sp, item):
            return OPEN + "\npub fn %s(&mut self, v: &Vec<%s>)\n %s\n{ for at in 0..v.len() invariant %s(%s, *v, 0, %s) == %s(%s, *v, at as int, %s), %s { self.on_expr(%s); } }" % (
                name, ty, many % sp, sp, w, state("old(self)"), sp, w, state("self"), still, item)
        extra = seq + "\n" + loop("on_each", "Expr", "visits", "&v[at]") + "\n" + loop("on_parts", "(Expr, RefStr)", "visit_parts", "&v[at].0")
        mine = [("visit_expr!(self, on_expr, expr);", "proof { assert(%s == (%s)(*expr, entry)); }" % (state("self"), w) + walk)]
        before = "let ghost entry = %s;" % state("self")
        u.impl(rel, decl, {"on_expr": F(one, attrs=OPEN, rw=list(rw) + mine + RW, pre=before, split_or=True, 
               loops=list(loops) + [L("for", "visit_cases(%s, *cases, case_at as int, %s) == visit_cases(%s, *cases, 0, asked), %s" % (w, state("self"), w, still), pre="let ghost asked = %s;" % state("self"))])},
               extra=extra, hdr="impl " + hdr)
    KEEP = "*final(final(self).results) == *final(old(self).results),"
    results = lambda s: s + ".results@"  # noqa: E731
    u.struct(SF, "StatementFallthroughVisitor")
    visitor(SF, "StatementFallthroughVisitor<'_>", "through_()", results, "StatementFallthroughVisitor<'_>", keep=KEEP,
            loops=[L("for", "self.results@ == running_on(*cases, back_at as int, entry), " + KEEP.replace("final(self)", "self"))])
    u.struct(IT, "InvalidUseOfTemporaryVisitor")
    visitor(IT, "InvalidUseOfTemporaryVisitor<'_>", "misuse_()", results, "InvalidUseOfTemporaryVisitor<'_>", keep=KEEP,
            rw=[("match (op, &args[..]) { ($p, [inner, ..],) if inner.is_prvalue() => $b, _ => {} }", "if args.len() > 0 && matches!(op, $p) && args[0].is_prvalue() { let inner = &args[0]; $b }")])
    for rel, ck, v in ((SF, "StatementFallthroughCheck", "through_()"), (IT, "InvalidUseOfTemporaryCheck", "misuse_()")):
        u.raw("pub struct %s;" % ck)
        u.impl(rel, "ExprDiagnosticPass for " + ck, {"diagnose": F("")},
               extra="open spec fn pass(&self) -> spec_fn(Expr, Seq<Diagnostic>) -> Seq<Diagnostic> { %s }" % v)
    u.struct(UL, "UsedNames", rw=[("HashSet<PoolIndex<Local>>", "LocalSet"), ("HashSet<PoolIndex<Parameter>>", "ParamSet")])
    u.raw("impl UsedNames {\n#[verifier::external_body]\npub fn nothing() -> (r: UsedNames) ensures r.declared@ == Seq::<(PoolIndex<Local>, Span)>::empty(), r.used_locals@ == Set::<PoolIndex<Local>>::empty() { unimplemented!() }\n}")
    use = lambda s: "(Use { declared: %s.declared@, used: %s.used_locals@ })" % (s, s)  # noqa: E731
    visitor(UL, "UsedNames", "using_()", use, "UsedNames")
    u.impl(UL, "UsedNames", {"from_seq": F("ensures (Use { declared: r.declared@, used: r.used_locals@ }) == uses(*seq),", attrs=OPEN, rw=[("Self::default()", "UsedNames::nothing()")] + RW,
           loops=[L("for", "visits(using_(), seq.exprs, at as int, Use { declared: names.declared@, used: names.used_locals@ }) == uses(*seq)")])}, hdr="impl UsedNames")
    u.raw("pub struct UnusedLocalCheck;")
    u.impl(UL, "DiagnosticPass for UnusedLocalCheck", {"diagnose": F("", attrs=OPEN,
           rw=[("let mut $x:id = vec![];", "let mut $x: Vec<Diagnostic> = Vec::new();"), ("for (local, span) in names.declared {", "for at in 0..names.declared.len() { let (local, span) = names.declared[at];")],
           loops=[L("for", "diagnostics@ == unused(uses(*body), at as int), names.declared@ == uses(*body).declared, names.used_locals@ == uses(*body).used")])},
           extra="open spec fn advice(&self, b: Block, m: FunctionMetadata) -> Seq<Diagnostic> { unused(uses(b), uses(b).declared.len() as int) }")
    return u
