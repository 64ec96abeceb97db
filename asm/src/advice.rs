//! The checks of typed bodies: what they report about random trees (of any
//! shape, well typed or not) against a list of the tree's parts.
use redscript::ast::*;
use redscript::bundle::PoolIndex;
use redscript::bytecode::{IntrinsicOp, Location};
use redscript::definition::*;

use crate::diagnostics::invalid_temp_use::InvalidUseOfTemporaryCheck;
use crate::diagnostics::missing_return::MissingReturnCheck;
use crate::diagnostics::stmt_fallthrough::StatementFallthroughCheck;
use crate::diagnostics::unused_local::UnusedLocalCheck;
use crate::diagnostics::{Diagnostic, DiagnosticPass, FunctionMetadata};
use crate::scope::{Reference, TypeId, Value};
use crate::symbol::Symbol;
use crate::typechecker::{Callable, Member, TypedAst};
use crate::util::*;

type E = Expr<TypedAst>;
type S = Seq<TypedAst>;

struct Gen {
    at: usize,
    locals: u64,
}

const OPS: &[IntrinsicOp] = &[
    IntrinsicOp::Equals, IntrinsicOp::NotEquals, IntrinsicOp::ArrayClear, IntrinsicOp::ArraySize, IntrinsicOp::ArrayResize, IntrinsicOp::ArrayFindFirst,
    IntrinsicOp::ArrayFindLast, IntrinsicOp::ArrayContains, IntrinsicOp::ArrayCount, IntrinsicOp::ArrayPush, IntrinsicOp::ArrayPop, IntrinsicOp::ArrayInsert,
    IntrinsicOp::ArrayRemove, IntrinsicOp::ArrayGrow, IntrinsicOp::ArrayErase, IntrinsicOp::ArrayLast, IntrinsicOp::ArraySort, IntrinsicOp::ArraySortByPredicate,
    IntrinsicOp::ToString, IntrinsicOp::EnumInt, IntrinsicOp::IntEnum, IntrinsicOp::ToVariant, IntrinsicOp::FromVariant, IntrinsicOp::VariantIsRef,
    IntrinsicOp::VariantIsArray, IntrinsicOp::VariantTypeName, IntrinsicOp::AsRef, IntrinsicOp::Deref, IntrinsicOp::RefToWeakRef, IntrinsicOp::WeakRefToRef, IntrinsicOp::IsDefined,
];

impl Gen {
    fn span(&mut self) -> Span {
        self.at += 3;
        Span::new(Pos::new(self.at), Pos::new(self.at + 1))
    }
    fn boxed(&mut self, c: &mut Ctx, d: u32) -> Box<E> {
        Box::new(self.expr(c, d))
    }
    fn many(&mut self, c: &mut Ctx, d: u32, most: u64) -> Vec<E> {
        let n = if d == 0 { 0 } else { c.rng.below(most + 1) };
        (0..n).map(|_| self.expr(c, d - 1)).collect()
    }
    fn seq(&mut self, c: &mut Ctx, d: u32) -> S {
        let mut v = self.many(c, d, 3);
        match c.rng.below(5) {
            0 => v.push(Expr::Break(self.span())),
            1 => v.push(Expr::Return(None, self.span())),
            2 if d > 0 => v.push(Expr::Return(Some(self.boxed(c, d - 1)), self.span())),
            _ => {}
        }
        Seq::new(v)
    }
    fn local(&mut self, c: &mut Ctx) -> PoolIndex<Local> {
        PoolIndex::new(c.rng.below(self.locals) as u32)
    }
    fn expr(&mut self, c: &mut Ctx, d: u32) -> E {
        let k = if d == 0 { c.rng.below(9) } else { c.rng.below(30) };
        let sp = self.span();
        let n = d.saturating_sub(1);
        match k {
            0 => Expr::Constant(Constant::I32(c.rng.next() as i32), sp),
            1 => Expr::This(sp),
            2 => Expr::Super(sp),
            3 => Expr::Null(sp),
            4 => Expr::Goto(Target::new(Location::new(0)), sp),
            5 => Expr::Ident(Reference::Symbol(Symbol::Functions(vec![])), sp),
            6 => Expr::Ident(Reference::Value(Value::Parameter(PoolIndex::new(c.rng.below(self.locals) as u32))), sp),
            7 | 8 => Expr::Ident(Reference::Value(Value::Local(self.local(c))), sp),
            9 => Expr::ArrayLit(self.many(c, d, 3).into(), None, sp),
            10 => {
                let parts = self.many(c, d, 3).into_iter().map(|e| (e, "x".into())).collect();
                Expr::InterpolatedString("p".into(), parts, sp)
            }
            11 => Expr::Declare(self.local(c), None, if c.rng.bool() { Some(self.boxed(c, n)) } else { None }, sp),
            12 => Expr::Cast(TypeId::Void, self.boxed(c, n), sp),
            13 => Expr::Assign(self.boxed(c, n), self.boxed(c, n), sp),
            14 => Expr::Call(Callable::Function(PoolIndex::new(1)), vec![].into(), self.many(c, d, 3).into(), sp),
            15 | 16 => Expr::Call(Callable::Intrinsic(*c.rng.pick(OPS), TypeId::Void), vec![].into(), self.many(c, d, 2).into(), sp),
            17 => Expr::MethodCall(self.boxed(c, n), PoolIndex::new(1), self.many(c, d, 2), sp),
            18 => {
                let m = match c.rng.below(4) {
                    0 => Member::ClassField(PoolIndex::new(1)),
                    1 => Member::EnumMember(PoolIndex::new(1), PoolIndex::new(2)),
                    _ => Member::StructField(PoolIndex::new(1)),
                };
                Expr::Member(self.boxed(c, n), m, sp)
            }
            19 => Expr::ArrayElem(self.boxed(c, n), self.boxed(c, n), sp),
            20 => Expr::New(TypeId::Void, self.many(c, d, 3).into(), sp),
            21 => Expr::Return(if c.rng.bool() { Some(self.boxed(c, n)) } else { None }, sp),
            22 => Expr::Seq(self.seq(c, n)),
            23 | 24 => {
                let m = self.boxed(c, n);
                let k = c.rng.below(4);
                let cases = (0..k).map(|_| SwitchCase { matcher: self.expr(c, n), body: self.seq(c, n) }).collect();
                let default = if c.rng.bool() { Some(self.seq(c, n)) } else { None };
                Expr::Switch(m, cases, default, sp)
            }
            25 => Expr::If(self.boxed(c, n), self.seq(c, n), if c.rng.bool() { Some(self.seq(c, n)) } else { None }, sp),
            26 => Expr::Conditional(self.boxed(c, n), self.boxed(c, n), self.boxed(c, n), sp),
            27 => Expr::While(self.boxed(c, n), self.seq(c, n), sp),
            28 => Expr::ForIn(self.local(c), self.boxed(c, n), self.seq(c, n), sp),
            _ if c.rng.bool() => Expr::BinOp(self.boxed(c, n), self.boxed(c, n), BinOp::Add, sp),
            _ => Expr::UnOp(self.boxed(c, n), UnOp::Neg, sp),
        }
    }
}

/// the parts of an expression, in the order of the source
fn parts(e: &E) -> Vec<&E> {
    let mut v: Vec<&E> = vec![];
    match e {
        Expr::ArrayLit(x, _, _) | Expr::Call(_, _, x, _) | Expr::New(_, x, _) => v.extend(x.iter()),
        Expr::InterpolatedString(_, x, _) => v.extend(x.iter().map(|p| &p.0)),
        Expr::Declare(_, _, x, _) | Expr::Return(x, _) => v.extend(x.iter().map(|b| &**b)),
        Expr::Cast(_, x, _) | Expr::Member(x, _, _) | Expr::UnOp(x, _, _) => v.push(x),
        Expr::Assign(x, y, _) | Expr::ArrayElem(x, y, _) | Expr::BinOp(x, y, _, _) => v.extend([&**x, &**y]),
        Expr::MethodCall(x, _, y, _) => {
            v.push(x);
            v.extend(y);
        }
        Expr::Seq(b) => v.extend(&b.exprs),
        Expr::Switch(x, cases, default, _) => {
            v.push(x);
            for k in cases {
                v.push(&k.matcher);
                v.extend(&k.body.exprs);
            }
            v.extend(default.iter().flat_map(|b| &b.exprs));
        }
        Expr::If(x, b, o, _) => {
            v.push(x);
            v.extend(&b.exprs);
            v.extend(o.iter().flat_map(|b| &b.exprs));
        }
        Expr::Conditional(x, y, z, _) => v.extend([&**x, &**y, &**z]),
        Expr::While(x, b, _) | Expr::ForIn(_, x, b, _) => {
            v.push(x);
            v.extend(&b.exprs);
        }
        Expr::Ident(..) | Expr::Constant(..) | Expr::Goto(..) | Expr::This(_) | Expr::Super(_) | Expr::Break(_) | Expr::Null(_) => {}
    }
    v
}
fn all<'a>(e: &'a E, out: &mut Vec<&'a E>) {
    out.push(e);
    for p in parts(e) {
        all(p, out);
    }
}
fn place(e: &E) -> (u32, u32) {
    match e {
        Expr::Seq(b) => match (b.exprs.first(), b.exprs.last()) {
            (Some(x), Some(y)) => (place(x).0.min(place(y).0), place(x).1.max(place(y).1)),
            _ => (0, 0),
        },
        _ => ends(e.span()),
    }
}
fn ends(s: Span) -> (u32, u32) {
    (usize::from(s.low) as u32, usize::from(s.high) as u32)
}
fn temporary(e: &E) -> bool {
    match e {
        Expr::Constant(..) | Expr::Ident(..) | Expr::This(_) | Expr::Super(_) => false,
        Expr::Call(Callable::Intrinsic(op, _), _, _, _) => !matches!(op, IntrinsicOp::Deref),
        Expr::Member(_, Member::ClassField(_), _) => false,
        Expr::Member(x, Member::StructField(_), _) => temporary(x),
        Expr::ArrayElem(x, _, _) => temporary(x),
        _ => true,
    }
}
fn leaves(b: &S) -> bool {
    b.exprs.iter().any(|e| match e {
        Expr::Return(..) => true,
        Expr::Seq(b) => leaves(b),
        Expr::If(_, a, Some(b), _) => leaves(a) && leaves(b),
        Expr::Switch(_, cases, default, _) => cases.iter().map(|k| &k.body).chain(default).all(leaves),
        _ => false,
    })
}

fn told(v: &[Diagnostic]) -> Vec<(String, (u32, u32))> {
    v.iter().map(|d| (format!("{d:?}").chars().take_while(|c| c.is_alphanumeric()).collect(), ends(d.span()))).collect()
}

pub fn run(c: &mut Ctx) {
    for round in 0..c.n(6000) {
        let depth = (round % 6) as u32;
        let mut g = Gen { at: 0, locals: *c.rng.pick(&[1u64, 3, 8]) };
        let body = g.seq(c, depth);
        let meta_span = g.span();
        let (has, callback) = (c.rng.below(4) != 0, c.rng.below(4) == 0);
        let text: String = format!("{body:?}").chars().take(1200).collect();
        let meta = FunctionMetadata::new(FunctionFlags::new().with_has_return_value(has), callback, meta_span);
        let mut every: Vec<&E> = vec![];
        for e in &body.exprs {
            all(e, &mut every);
        }
        let mut want: [Vec<(String, (u32, u32))>; 4] = Default::default();
        if has && !callback && !leaves(&body) {
            want[0].push(("MissingReturn".into(), ends(meta_span)));
        }
        for e in &every {
            if let Expr::Switch(_, cases, _, _) = e {
                for (i, k) in cases.iter().enumerate() {
                    let fine = match k.body.exprs.last() {
                        None | Some(Expr::Break(_)) | Some(Expr::Return(..)) => true,
                        _ => i + 1 == cases.len(),
                    };
                    if !fine {
                        want[1].push(("StatementFallthrough".into(), place(&k.matcher)));
                    }
                }
            }
            let at = match e {
                Expr::Member(x, Member::StructField(_), _) => Some(&**x),
                Expr::ArrayElem(x, _, _) => Some(&**x),
                Expr::Call(Callable::Intrinsic(op, _), _, args, _) if ["ArrayContains", "ArrayCount", "ArrayFindFirst", "ArrayFindLast", "ArrayLast", "ArrayPop", "ArraySize"].contains(&format!("{op:?}").as_str()) => args.first(),
                _ => None,
            };
            if let Some(x) = at.filter(|x| temporary(x)) {
                want[2].push(("InvalidUseOfTemporary".into(), place(x)));
            }
            if let Expr::Declare(l, _, _, s) | Expr::ForIn(l, _, _, s) = e {
                if !every.iter().any(|e| matches!(e, Expr::Ident(Reference::Value(Value::Local(k)), _) if k == l)) {
                    want[3].push(("UnusedLocal".into(), ends(*s)));
                }
            }
        }
        let passes: [(&str, Box<dyn DiagnosticPass>); 4] = [
            ("advice/return", Box::new(MissingReturnCheck)),
            ("advice/fallthrough", Box::new(StatementFallthroughCheck)),
            ("advice/temporary", Box::new(InvalidUseOfTemporaryCheck)),
            ("advice/unused", Box::new(UnusedLocalCheck)),
        ];
        for ((key, p), want) in passes.iter().zip(&want) {
            let Some(got) = c.case(key, &text, || told(&p.diagnose(&body, &meta))) else { continue };
            c.check(got == *want, key, || format!("reports {got:?} instead of {want:?} about {text} (returns a value: {has}, callback: {callback})"));
        }
        for e in &every {
            c.check(ends(e.span()) == place(e), "advice/span", || format!("{:?} of {e:?}", e.span()));
        }
    }
}
