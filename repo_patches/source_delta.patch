From 31fc13a9930d24a19ab2e2ef6ed9511e7e797912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:55 +0000
Subject: [PATCH 01/14] fix: jump offset arithmetic overflows for far targets

Code offsets are 16 bit and wrap; the bias applied on encode/decode and the
relative offset computation panicked in builds with overflow checks.
---
 core/src/bytecode.rs | 49 +++++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 23 deletions(-)

diff --git a/core/src/bytecode.rs b/core/src/bytecode.rs
index b84fa18..68df498 100644
--- a/core/src/bytecode.rs
+++ b/core/src/bytecode.rs
@@ -380,28 +380,31 @@ impl Decode for Instr<Offset> {
             25 => Ok(Instr::Param(input.decode()?)),
             26 => Ok(Instr::ObjectField(input.decode()?)),
             27 => Ok(Instr::ExternalVar),
-            28 => Ok(Instr::Switch(input.decode()?, Offset::new(input.decode::<i16>()? + 11))),
+            28 => Ok(Instr::Switch(
+                input.decode()?,
+                Offset::new(input.decode::<i16>()?.wrapping_add(11)),
+            )),
             29 => Ok(Instr::SwitchLabel(
-                Offset::new(input.decode::<i16>()? + 3),
-                Offset::new(input.decode::<i16>()? + 5),
+                Offset::new(input.decode::<i16>()?.wrapping_add(3)),
+                Offset::new(input.decode::<i16>()?.wrapping_add(5)),
             )),
             30 => Ok(Instr::SwitchDefault),
-            31 => Ok(Instr::Jump(Offset::new(input.decode::<i16>()? + 3))),
-            32 => Ok(Instr::JumpIfFalse(Offset::new(input.decode::<i16>()? + 3))),
-            33 => Ok(Instr::Skip(Offset::new(input.decode::<i16>()? + 3))),
+            31 => Ok(Instr::Jump(Offset::new(input.decode::<i16>()?.wrapping_add(3)))),
+            32 => Ok(Instr::JumpIfFalse(Offset::new(input.decode::<i16>()?.wrapping_add(3)))),
+            33 => Ok(Instr::Skip(Offset::new(input.decode::<i16>()?.wrapping_add(3)))),
             34 => Ok(Instr::Conditional(
-                Offset::new(input.decode::<i16>()? + 3),
-                Offset::new(input.decode::<i16>()? + 5),
+                Offset::new(input.decode::<i16>()?.wrapping_add(3)),
+                Offset::new(input.decode::<i16>()?.wrapping_add(5)),
             )),
             35 => Ok(Instr::Construct(input.decode()?, input.decode()?)),
             36 => Ok(Instr::InvokeStatic(
-                Offset::new(input.decode::<i16>()? + 3),
+                Offset::new(input.decode::<i16>()?.wrapping_add(3)),
                 input.decode()?,
                 input.decode()?,
                 input.decode()?,
             )),
             37 => Ok(Instr::InvokeVirtual(
-                Offset::new(input.decode::<i16>()? + 3),
+                Offset::new(input.decode::<i16>()?.wrapping_add(3)),
                 input.decode()?,
                 input.decode()?,
                 input.decode()?,
@@ -409,7 +412,7 @@ impl Decode for Instr<Offset> {
             38 => Ok(Instr::ParamEnd),
             39 => Ok(Instr::Return),
             40 => Ok(Instr::StructField(input.decode()?)),
-            41 => Ok(Instr::Context(Offset::new(input.decode::<i16>()? + 3))),
+            41 => Ok(Instr::Context(Offset::new(input.decode::<i16>()?.wrapping_add(3)))),
             42 => Ok(Instr::Equals(input.decode()?)),
 
             43 => Ok(Instr::RefStringEqualsString(input.decode()?)),
@@ -596,32 +599,32 @@ impl Encode for Instr<Offset> {
             Instr::Switch(idx, offset) => {
                 output.encode(&28u8)?;
                 output.encode(idx)?;
-                output.encode(&Offset::new(offset.value - 11))?;
+                output.encode(&Offset::new(offset.value.wrapping_sub(11)))?;
             }
             Instr::SwitchLabel(start, exit) => {
                 output.encode(&29u8)?;
-                output.encode(&Offset::new(start.value - 3))?;
-                output.encode(&Offset::new(exit.value - 5))?;
+                output.encode(&Offset::new(start.value.wrapping_sub(3)))?;
+                output.encode(&Offset::new(exit.value.wrapping_sub(5)))?;
             }
             Instr::SwitchDefault => {
                 output.encode(&30u8)?;
             }
             Instr::Jump(offset) => {
                 output.encode(&31u8)?;
-                output.encode(&Offset::new(offset.value - 3))?;
+                output.encode(&Offset::new(offset.value.wrapping_sub(3)))?;
             }
             Instr::JumpIfFalse(offset) => {
                 output.encode(&32u8)?;
-                output.encode(&Offset::new(offset.value - 3))?;
+                output.encode(&Offset::new(offset.value.wrapping_sub(3)))?;
             }
             Instr::Skip(offset) => {
                 output.encode(&33u8)?;
-                output.encode(&Offset::new(offset.value - 3))?;
+                output.encode(&Offset::new(offset.value.wrapping_sub(3)))?;
             }
             Instr::Conditional(if_true, if_false) => {
                 output.encode(&34u8)?;
-                output.encode(&Offset::new(if_true.value - 3))?;
-                output.encode(&Offset::new(if_false.value - 5))?;
+                output.encode(&Offset::new(if_true.value.wrapping_sub(3)))?;
+                output.encode(&Offset::new(if_false.value.wrapping_sub(5)))?;
             }
             Instr::Construct(n_params, idx) => {
                 output.encode(&35u8)?;
@@ -630,14 +633,14 @@ impl Encode for Instr<Offset> {
             }
             Instr::InvokeStatic(offset, line, idx, u) => {
                 output.encode(&36u8)?;
-                output.encode(&Offset::new(offset.value - 3))?;
+                output.encode(&Offset::new(offset.value.wrapping_sub(3)))?;
                 output.encode(line)?;
                 output.encode(idx)?;
                 output.encode(u)?;
             }
             Instr::InvokeVirtual(offset, line, idx, u) => {
                 output.encode(&37u8)?;
-                output.encode(&Offset::new(offset.value - 3))?;
+                output.encode(&Offset::new(offset.value.wrapping_sub(3)))?;
                 output.encode(line)?;
                 output.encode(idx)?;
                 output.encode(u)?;
@@ -654,7 +657,7 @@ impl Encode for Instr<Offset> {
             }
             Instr::Context(offset) => {
                 output.encode(&41u8)?;
-                output.encode(&Offset::new(offset.value - 3))?;
+                output.encode(&Offset::new(offset.value.wrapping_sub(3)))?;
             }
             Instr::Equals(idx) => {
                 output.encode(&42u8)?;
@@ -975,7 +978,7 @@ impl Location {
 
     #[inline]
     pub fn relative(&self, base: Location) -> Offset {
-        Offset::new(self.value as i16 - base.value as i16)
+        Offset::new(self.value.wrapping_sub(base.value) as i16)
     }
 }
 
-- 
2.43.0


From a0b49a3e461542e9b41e9fa6267011957a72f805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:06 +0000
Subject: [PATCH 02/14] fix: code size arithmetic overflows on oversized
 profiling names

Instr::size and Code::decode panicked in builds with overflow checks (and
wrapped to a wrong size otherwise) when the size does not fit its integer.
---
 core/src/bytecode.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/bytecode.rs b/core/src/bytecode.rs
index 68df498..950be95 100644
--- a/core/src/bytecode.rs
+++ b/core/src/bytecode.rs
@@ -218,11 +218,11 @@ impl<L> Instr<L> {
             | Instr::RefToWeakRef
             | Instr::WeakRefNull => 0,
             // variable size
-            Instr::StartProfiling(instr) => 5 + instr.0.len() as u16,
+            Instr::StartProfiling(instr) => u16::try_from(instr.0.len()).unwrap_or(u16::MAX).saturating_add(5),
             // not present in bytecode
             Instr::Target(_) => return 0,
         };
-        1 + op_size
+        op_size.saturating_add(1)
     }
 }
 
@@ -1076,7 +1076,7 @@ impl Decode for Code<Offset> {
         let mut code = Vec::new();
         while offset < max_offset {
             let instr: Instr<Offset> = input.decode()?;
-            offset += u32::from(instr.size());
+            offset = u32::saturating_add(offset, instr.size().into());
             code.push(instr);
         }
         Ok(Code(code))
-- 
2.43.0


From 16fa16bae11a8d569c5409c0c06c23cc66baf06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:06 +0000
Subject: [PATCH 03/14] fix: malformed definitions panic instead of failing to
 load

Unknown type tags, visibility values and definition kinds are now reported as
InvalidData errors, as unknown instruction codes already are.
---
 core/src/bundle.rs     |  3 ++-
 core/src/definition.rs | 12 +++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/core/src/bundle.rs b/core/src/bundle.rs
index e8e1130..1b8dc33 100644
--- a/core/src/bundle.rs
+++ b/core/src/bundle.rs
@@ -575,7 +575,8 @@ pub enum DefinitionType {
 
 impl Decode for DefinitionType {
     fn decode<I: io::Read>(input: &mut I) -> io::Result<Self> {
-        Ok(DefinitionType::from_bytes(input.decode()?).expect("Invalid DefinitionType enum value"))
+        DefinitionType::from_bytes(input.decode()?)
+            .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "Invalid DefinitionType enum value"))
     }
 }
 
diff --git a/core/src/definition.rs b/core/src/definition.rs
index 9e9be69..ff422dd 100644
--- a/core/src/definition.rs
+++ b/core/src/definition.rs
@@ -38,7 +38,9 @@ impl Definition {
             DefinitionType::Class => AnyDefinition::Class(input.decode()?),
             DefinitionType::EnumValue => AnyDefinition::EnumValue(input.decode()?),
             DefinitionType::Enum => AnyDefinition::Enum(input.decode()?),
-            DefinitionType::BitField => panic!("Bit field not supported"),
+            DefinitionType::BitField => {
+                return Err(io::Error::new(io::ErrorKind::InvalidData, "Bit field not supported"))
+            }
             DefinitionType::Function => AnyDefinition::Function(input.decode()?),
             DefinitionType::Parameter => AnyDefinition::Parameter(input.decode()?),
             DefinitionType::Local => AnyDefinition::Local(input.decode()?),
@@ -485,7 +487,10 @@ impl Decode for Type {
             4 => Ok(Type::Array(input.decode()?)),
             5 => Ok(Type::StaticArray(input.decode()?, input.decode()?)),
             6 => Ok(Type::ScriptRef(input.decode()?)),
-            _ => panic!("Unknown Type enum value {}", tag),
+            _ => {
+                let msg = format!("Unknown Type enum value {tag}");
+                Err(io::Error::new(io::ErrorKind::InvalidData, msg))
+            }
         }
     }
 }
@@ -761,7 +766,8 @@ impl Display for Visibility {
 
 impl Decode for Visibility {
     fn decode<I: io::Read>(input: &mut I) -> io::Result<Self> {
-        Ok(Visibility::from_bytes(input.decode()?).expect("Invalid Visibility enum value"))
+        Visibility::from_bytes(input.decode()?)
+            .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "Invalid Visibility enum value"))
     }
 }
 
-- 
2.43.0


From 60278dc7b2c84ad65a9ba9e1cdd978a489cbc5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:46 +0000
Subject: [PATCH 04/14] fix: parenthesize operands so that printed expressions
 read back unchanged

The printer only considered the precedence of an operator call against its
parent operator. Right operands of the same precedence (a - (b - c)), operands
of casts, member and element accesses, prefix operators below a member access
and nested assignments and conditionals were printed without the parentheses
they need, and conversions that are hidden in the output hid the parent too.
---
 decompiler/src/print.rs | 91 ++++++++++++++++++++++++++++-------------
 1 file changed, 62 insertions(+), 29 deletions(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index ef3f9b2..de4c391 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -268,11 +268,11 @@ fn write_expr_nested<W: Write>(
         Expr::Cast(type_, expr, _) => {
             if parent_op.is_some() {
                 write!(out, "(")?;
-                write_expr(out, expr, verbose, 0)?;
+                write_expr_nested(out, expr, Some(ParentOp::Dot), verbose, 0)?;
                 write!(out, " as {}", type_.pretty())?;
                 write!(out, ")")?;
             } else {
-                write_expr(out, expr, verbose, 0)?;
+                write_expr_nested(out, expr, Some(ParentOp::Dot), verbose, 0)?;
                 write!(out, " as {}", type_.pretty())?;
             }
         }
@@ -287,9 +287,15 @@ fn write_expr_nested<W: Write>(
             }
         }
         Expr::Assign(lhs, rhs, _) => {
-            write_expr(out, lhs, verbose, 0)?;
+            if parent_op.is_some() {
+                write!(out, "(")?;
+            }
+            write_expr_nested(out, lhs, Some(ParentOp::Assign), verbose, 0)?;
             write!(out, " = ")?;
             write_expr(out, rhs, verbose, 0)?;
+            if parent_op.is_some() {
+                write!(out, ")")?;
+            }
         }
         Expr::Call(fun, type_args, params, _) => write_call(out, fun, type_args, params, parent_op, verbose)?,
         Expr::MethodCall(obj, fun, params, _) => {
@@ -298,7 +304,7 @@ fn write_expr_nested<W: Write>(
             write_call(out, fun, &[], params, None, verbose)?;
         }
         Expr::ArrayElem(arr, idx, _) => {
-            write_expr(out, arr, verbose, 0)?;
+            write_expr_nested(out, arr, Some(ParentOp::Dot), verbose, 0)?;
             write!(out, "[")?;
             write_expr(out, idx, verbose, 0)?;
             write!(out, "]")?;
@@ -355,11 +361,17 @@ fn write_expr_nested<W: Write>(
             }
         }
         Expr::Conditional(condition, true_, false_, _) => {
-            write_expr(out, condition, verbose, 0)?;
+            if parent_op.is_some() {
+                write!(out, "(")?;
+            }
+            write_expr_nested(out, condition, Some(ParentOp::Assign), verbose, 0)?;
             write!(out, " ? ")?;
             write_expr(out, true_, verbose, 0)?;
             write!(out, " : ")?;
             write_expr(out, false_, verbose, 0)?;
+            if parent_op.is_some() {
+                write!(out, ")")?;
+            }
         }
         Expr::While(condition, body, _) => {
             write!(out, "while ")?;
@@ -370,14 +382,14 @@ fn write_expr_nested<W: Write>(
             write!(out, "}}")?;
         }
         Expr::Member(expr, accessor, _) => {
-            write_expr(out, expr, verbose, 0)?;
+            write_expr_nested(out, expr, Some(ParentOp::Dot), verbose, 0)?;
             write!(out, ".{}", accessor)?;
         }
         Expr::BinOp(lhs, rhs, op, _) => {
-            write_binop(out, lhs, rhs, *op, verbose)?;
+            write_binop(out, lhs, rhs, *op, parent_op, verbose)?;
         }
         Expr::UnOp(val, op, _) => {
-            write_unop(out, val, *op, verbose)?;
+            write_unop(out, val, *op, parent_op, verbose)?;
         }
         Expr::Break(_) => write!(out, "break")?,
         Expr::Null(_) => write!(out, "null")?,
@@ -399,24 +411,11 @@ fn write_call<W: Write>(
     let fun_name = name.as_ref().split(';').next().expect("Empty function name");
 
     if let Ok(binop) = BinOp::from_str(fun_name) {
-        if parent_op
-            .filter(|op| match op {
-                ParentOp::UnOp | ParentOp::Dot => true,
-                ParentOp::BinOp(op) => !binop.does_associate(*op),
-            })
-            .is_some()
-        {
-            write!(out, "(")?;
-            write_binop(out, &params[0], &params[1], binop, verbose)?;
-            write!(out, ")")?;
-            Ok(())
-        } else {
-            write_binop(out, &params[0], &params[1], binop, verbose)
-        }
+        write_binop(out, &params[0], &params[1], binop, parent_op, verbose)
     } else if let Ok(unop) = UnOp::from_str(fun_name) {
-        write_unop(out, &params[0], unop, verbose)
+        write_unop(out, &params[0], unop, parent_op, verbose)
     } else if (fun_name == "WeakRefToRef" || fun_name == "RefToWeakRef" || fun_name == "AsRef") && !verbose {
-        write_expr(out, &params[0], verbose, 0)
+        write_expr_nested(out, &params[0], parent_op, verbose, 0)
     } else {
         write!(out, "{}", fun_name)?;
         if !type_params.is_empty() {
@@ -440,16 +439,46 @@ fn write_binop<W: Write>(
     lhs: &Expr<SourceAst>,
     rhs: &Expr<SourceAst>,
     op: BinOp,
+    parent_op: Option<ParentOp>,
     verbose: bool,
 ) -> Result<(), Error> {
-    write_expr_nested(out, lhs, Some(ParentOp::BinOp(op)), verbose, 0)?;
+    let parens = match parent_op {
+        None => false,
+        Some(ParentOp::UnOp | ParentOp::Dot) => true,
+        Some(ParentOp::Assign) => op.precedence() >= BinOp::AssignAdd.precedence(),
+        Some(ParentOp::BinOpLeft(parent)) => !op.does_associate(parent),
+        // operators group to the left, so an operand on the right has to bind tighter
+        Some(ParentOp::BinOpRight(parent)) => op.precedence() >= parent.precedence(),
+    };
+    if parens {
+        write!(out, "(")?;
+    }
+    write_expr_nested(out, lhs, Some(ParentOp::BinOpLeft(op)), verbose, 0)?;
     write!(out, " {} ", format_binop(op))?;
-    write_expr_nested(out, rhs, Some(ParentOp::BinOp(op)), verbose, 0)
+    write_expr_nested(out, rhs, Some(ParentOp::BinOpRight(op)), verbose, 0)?;
+    if parens {
+        write!(out, ")")?;
+    }
+    Ok(())
 }
 
-fn write_unop<W: Write>(out: &mut W, param: &Expr<SourceAst>, op: UnOp, verbose: bool) -> Result<(), Error> {
+fn write_unop<W: Write>(
+    out: &mut W,
+    param: &Expr<SourceAst>,
+    op: UnOp,
+    parent_op: Option<ParentOp>,
+    verbose: bool,
+) -> Result<(), Error> {
+    let parens = matches!(parent_op, Some(ParentOp::Dot));
+    if parens {
+        write!(out, "(")?;
+    }
     write!(out, "{}", format_unop(op))?;
-    write_expr_nested(out, param, Some(ParentOp::UnOp), verbose, 0)
+    write_expr_nested(out, param, Some(ParentOp::UnOp), verbose, 0)?;
+    if parens {
+        write!(out, ")")?;
+    }
+    Ok(())
 }
 
 fn format_param(def: &Definition, pool: &ConstantPool) -> Result<String, Error> {
@@ -512,8 +541,12 @@ fn format_unop(op: UnOp) -> &'static str {
     }
 }
 
+#[derive(Debug, Clone, Copy)]
 enum ParentOp {
     UnOp,
-    BinOp(BinOp),
+    BinOpLeft(BinOp),
+    BinOpRight(BinOp),
+    /// left side of an assignment or the condition of a conditional expression
+    Assign,
     Dot,
 }
-- 
2.43.0


From 9813346a19e97922409f8c5b91947528c8abd520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:46 +0000
Subject: [PATCH 05/14] fix: print the suffix of unsigned 64-bit literals

Uint64 constants were printed with the Uint32 suffix, the language reads them
as Uint32 or rejects them.
---
 decompiler/src/print.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index de4c391..5c516dd 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -259,7 +259,7 @@ fn write_expr_nested<W: Write>(
             Constant::I32(lit) => write!(out, "{}", lit)?,
             Constant::I64(lit) => write!(out, "{}l", lit)?,
             Constant::U32(lit) => write!(out, "{}u", lit)?,
-            Constant::U64(lit) => write!(out, "{}u", lit)?,
+            Constant::U64(lit) => write!(out, "{}ul", lit)?,
             Constant::F32(lit) => write!(out, "{:.2}", lit)?,
             Constant::F64(lit) => write!(out, "{:.2}d", lit)?,
             Constant::Bool(true) => write!(out, "true")?,
-- 
2.43.0


From 8a8543fee0a92e8889b8167168a6badaf4b35cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:48 +0000
Subject: [PATCH 06/14] fix: print float literals with enough digits to read
 back the same value

Floats were always printed with two decimals, so 0.001 became 0.00. Literals
that need at most two decimals are printed as before.
---
 decompiler/src/print.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index 5c516dd..4e4c05f 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -260,8 +260,8 @@ fn write_expr_nested<W: Write>(
             Constant::I64(lit) => write!(out, "{}l", lit)?,
             Constant::U32(lit) => write!(out, "{}u", lit)?,
             Constant::U64(lit) => write!(out, "{}ul", lit)?,
-            Constant::F32(lit) => write!(out, "{:.2}", lit)?,
-            Constant::F64(lit) => write!(out, "{:.2}d", lit)?,
+            Constant::F32(lit) => write!(out, "{:.*}", float_precision(&lit.to_string()), lit)?,
+            Constant::F64(lit) => write!(out, "{:.*}d", float_precision(&lit.to_string()), lit)?,
             Constant::Bool(true) => write!(out, "true")?,
             Constant::Bool(false) => write!(out, "false")?,
         },
@@ -481,6 +481,11 @@ fn write_unop<W: Write>(
     Ok(())
 }
 
+/// number of fraction digits that identify a float, given its shortest representation
+fn float_precision(shortest: &str) -> usize {
+    shortest.split_once('.').map_or(0, |(_, fraction)| fraction.len()).max(2)
+}
+
 fn format_param(def: &Definition, pool: &ConstantPool) -> Result<String, Error> {
     let param = def.value.as_parameter().expect("Expected a param definition");
     let type_name = format_type(pool.definition(param.type_)?, pool)?;
-- 
2.43.0


From 293750999c4296d4b6a47eaf11215b4558dc16f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:48 +0000
Subject: [PATCH 07/14] fix: print methods by name even if a global function of
 that name is special

Methods named like an operator or a hidden conversion were printed as if they
were the global function, losing the call or panicking when it has too few
arguments.
---
 decompiler/src/print.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index 4e4c05f..81b66d9 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -300,8 +300,9 @@ fn write_expr_nested<W: Write>(
         Expr::Call(fun, type_args, params, _) => write_call(out, fun, type_args, params, parent_op, verbose)?,
         Expr::MethodCall(obj, fun, params, _) => {
             write_expr_nested(out, obj, Some(ParentOp::Dot), verbose, 0)?;
-            write!(out, ".")?;
-            write_call(out, fun, &[], params, None, verbose)?;
+            // only global functions have special forms, a method is always printed by its name
+            write!(out, ".{}", function_name(fun))?;
+            write_args(out, params, verbose)?;
         }
         Expr::ArrayElem(arr, idx, _) => {
             write_expr_nested(out, arr, Some(ParentOp::Dot), verbose, 0)?;
@@ -408,7 +409,7 @@ fn write_call<W: Write>(
     parent_op: Option<ParentOp>,
     verbose: bool,
 ) -> Result<(), Error> {
-    let fun_name = name.as_ref().split(';').next().expect("Empty function name");
+    let fun_name = function_name(name);
 
     if let Ok(binop) = BinOp::from_str(fun_name) {
         write_binop(out, &params[0], &params[1], binop, parent_op, verbose)
@@ -421,17 +422,25 @@ fn write_call<W: Write>(
         if !type_params.is_empty() {
             write!(out, "<{}>", type_params.iter().map(TypeName::pretty).format(", "))?;
         }
-        write!(out, "(")?;
-        if !params.is_empty() {
-            for param in params.iter().take(params.len() - 1) {
-                write_expr(out, param, verbose, 0)?;
-                write!(out, ", ")?;
-            }
-            write_expr(out, params.last().unwrap(), verbose, 0)?;
+        write_args(out, params, verbose)
+    }
+}
+
+fn write_args<W: Write>(out: &mut W, params: &[Expr<SourceAst>], verbose: bool) -> Result<(), Error> {
+    write!(out, "(")?;
+    if !params.is_empty() {
+        for param in params.iter().take(params.len() - 1) {
+            write_expr(out, param, verbose, 0)?;
+            write!(out, ", ")?;
         }
-        write!(out, ")")?;
-        Ok(())
+        write_expr(out, params.last().unwrap(), verbose, 0)?;
     }
+    write!(out, ")")?;
+    Ok(())
+}
+
+fn function_name(name: &Ident) -> &str {
+    name.as_ref().split(';').next().expect("Empty function name")
 }
 
 fn write_binop<W: Write>(
-- 
2.43.0


From 102a5e463c5930b1811c549e7de99ffc81ac3f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:54 +0000
Subject: [PATCH 08/14] fix: report missing types and parameters of a printed
 function instead of panicking

---
 decompiler/src/print.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index 81b66d9..cdbefc0 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -89,19 +89,19 @@ pub fn write_definition<W: Write>(
             writeln!(out, "}}")?;
         }
         AnyDefinition::Function(fun) => {
-            let return_type = fun.return_type.map_or_else(
-                || "Void".to_owned(),
-                |idx| format_type(pool.definition(idx).unwrap(), pool).unwrap(),
-            );
+            let return_type = match fun.return_type {
+                Some(idx) => format_type(pool.definition(idx)?, pool)?,
+                None => "Void".to_owned(),
+            };
 
             let name = pool.names.get(definition.name)?;
             let pretty_name = name.split(';').next().expect("Function with empty name");
 
-            let params = fun
-                .parameters
-                .iter()
-                .map(|param| format_param(pool.definition(*param).unwrap(), pool).unwrap())
-                .format(", ");
+            let mut params = Vec::with_capacity(fun.parameters.len());
+            for param in &fun.parameters {
+                params.push(format_param(pool.definition(*param)?, pool)?);
+            }
+            let params = params.join(", ");
 
             writeln!(out)?;
             write_indent(out, depth)?;
@@ -496,7 +496,10 @@ fn float_precision(shortest: &str) -> usize {
 }
 
 fn format_param(def: &Definition, pool: &ConstantPool) -> Result<String, Error> {
-    let param = def.value.as_parameter().expect("Expected a param definition");
+    let param = def
+        .value
+        .as_parameter()
+        .ok_or(Error::DecompileError("expected a param definition"))?;
     let type_name = format_type(pool.definition(param.type_)?, pool)?;
     let name = pool.names.get(def.name)?;
     let out = if param.flags.is_out() { "out " } else { "" };
@@ -506,7 +509,10 @@ fn format_param(def: &Definition, pool: &ConstantPool) -> Result<String, Error>
 }
 
 fn format_type(def: &Definition, pool: &ConstantPool) -> Result<String, Error> {
-    let type_ = def.value.as_type().expect("Expected a type definition");
+    let type_ = def
+        .value
+        .as_type()
+        .ok_or(Error::DecompileError("expected a type definition"))?;
     let result = match type_ {
         Type::Prim | Type::Class => pool.names.get(def.name)?.to_string(),
         Type::Ref(nested) => format!("ref<{}>", format_type(pool.definition(*nested)?, pool)?),
-- 
2.43.0


From 416e643bcb0547ca92244b939757729c49120576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:08 +0000
Subject: [PATCH 09/14] fix: escape property texts in printed field annotations

---
 decompiler/src/print.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index cdbefc0..3b97129 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -155,7 +155,9 @@ pub fn write_definition<W: Write>(
             writeln!(out)?;
             for property in &field.attributes {
                 write_indent(out, depth)?;
-                writeln!(out, "@runtimeProperty(\"{}\", \"{}\")", property.name, property.value)?;
+                let name = str::escape_default(&property.name);
+                let value = str::escape_default(&property.value);
+                writeln!(out, "@runtimeProperty(\"{name}\", \"{value}\")")?;
             }
 
             for property in &field.defaults {
-- 
2.43.0


From 7da59364d76dc47c314ce3ea32f69e140be87b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:59 +0000
Subject: [PATCH 10/14] fix: decompiler lost the code behind a loop whose body
 ends in a return or break

---
 decompiler/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/decompiler/src/lib.rs b/decompiler/src/lib.rs
index 1da9c57..36c423d 100644
--- a/decompiler/src/lib.rs
+++ b/decompiler/src/lib.rs
@@ -126,6 +126,8 @@ impl<'a> Decompiler<'a> {
         let result = if is_loop {
             let block = BlockContext::new_loop(position, target);
             let body = self.consume_path(target, Some(block))?;
+            // the body may end before the jump back
+            self.code.seek_abs(target)?;
             Expr::While(condition.into(), body, Span::ZERO)
         } else {
             let mut body = self.consume_path(target, block)?;
-- 
2.43.0


From 200d78a060aba3b97550ec9362deffe2510ddd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:59 +0000
Subject: [PATCH 11/14] fix: decompiler moved unreachable code out of an else
 or default branch

---
 decompiler/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/decompiler/src/lib.rs b/decompiler/src/lib.rs
index 36c423d..ba6639d 100644
--- a/decompiler/src/lib.rs
+++ b/decompiler/src/lib.rs
@@ -134,6 +134,10 @@ impl<'a> Decompiler<'a> {
             self.code.seek_abs(target)?;
             if let Some(jump) = resolve_jump(&mut body) {
                 let else_case = self.consume_path(jump.position, block)?;
+                if self.code.pos() < jump.position {
+                    // the branch may end before the place where both branches meet
+                    self.code.seek_abs(jump.position)?;
+                }
                 Expr::If(condition.into(), body, Some(else_case), Span::ZERO)
             } else {
                 Expr::If(condition.into(), body, None, Span::ZERO)
@@ -190,6 +194,10 @@ impl<'a> Decompiler<'a> {
                 Instr::SwitchDefault => {
                     if let Some(BlockContext::Switch { epilogue }) = block {
                         default = Some(self.consume_path(epilogue, block)?);
+                        if self.code.pos() < epilogue {
+                            // the branch may end before the end of the switch
+                            self.code.seek_abs(epilogue)?;
+                        }
                     } else {
                         default = Some(Seq::new(vec![self.consume_with(None, block)?]));
                     }
-- 
2.43.0


From f39df3d876bb165270c7e974d7f1ba3f2a10b9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:08 +0000
Subject: [PATCH 12/14] fix: a list count larger than the stream aborted on
 allocation instead of failing

---
 core/src/decode.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/decode.rs b/core/src/decode.rs
index 8573c78..e36bdc1 100644
--- a/core/src/decode.rs
+++ b/core/src/decode.rs
@@ -106,6 +106,8 @@ impl<const N: usize> Decode for [u8; N] {
     }
 }
 
+const MAX_PREALLOCATED: usize = 0x10000;
+
 pub trait DecodeExt: io::Read + Sized {
     #[inline]
     fn decode<A: Decode>(&mut self) -> io::Result<A> {
@@ -114,7 +116,8 @@ pub trait DecodeExt: io::Read + Sized {
 
     fn decode_vec<S: Into<u32>, A: Decode>(&mut self, count: S) -> io::Result<Vec<A>> {
         let size = count.into() as usize;
-        let mut vec = Vec::with_capacity(size);
+        // the count is not to be trusted: a stream that ends early is an error, not a failed allocation
+        let mut vec = Vec::with_capacity(size.min(MAX_PREALLOCATED));
         for _ in 0..size {
             vec.push(self.decode()?);
         }
-- 
2.43.0


From ffd76f4d947a9536cac928d695b026df0237e5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:50 +0000
Subject: [PATCH 13/14] fix: switch cases without a body at the end of a switch
 jumped to the start of the function

---
 compiler/src/assembler.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/compiler/src/assembler.rs b/compiler/src/assembler.rs
index 27f24de..c778f7f 100644
--- a/compiler/src/assembler.rs
+++ b/compiler/src/assembler.rs
@@ -168,9 +168,11 @@ impl<'a> Assembler<'a> {
                 self.assemble(*expr, scope, pool, None)?;
                 self.emit_label(first_case_label);
 
+                let mut pending_label = None;
                 let mut case_iter = cases.into_iter().peekable();
                 while case_iter.peek().is_some() {
                     let body_label = self.new_label();
+                    pending_label = Some(body_label);
 
                     for case in &mut case_iter {
                         self.emit_label(next_case_label);
@@ -180,6 +182,7 @@ impl<'a> Assembler<'a> {
 
                         if !case.body.exprs.iter().all(Expr::is_empty) {
                             self.emit_label(body_label);
+                            pending_label = None;
                             self.assemble_seq(case.body, scope, pool, Some(exit_label))?;
                             break;
                         }
@@ -187,8 +190,14 @@ impl<'a> Assembler<'a> {
                 }
                 self.emit_label(next_case_label);
 
-                if let Some(body) = default {
+                if default.is_some() {
                     self.emit(Instr::SwitchDefault);
+                }
+                // cases left without a body at the end continue behind the last of them
+                if let Some(label) = pending_label {
+                    self.emit_label(label);
+                }
+                if let Some(body) = default {
                     self.assemble_seq(body, scope, pool, Some(exit_label))?;
                 }
                 self.emit_label(exit_label);
-- 
2.43.0


From 3ba5576a508828d56bb1703be75bd5245825aaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:47 +0000
Subject: [PATCH 14/14] fix: two hidden quotes in one argument broke the
 grouping of scc's options

---
 scc/cli/src/opts.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scc/cli/src/opts.rs b/scc/cli/src/opts.rs
index 58c6cb5..a489713 100644
--- a/scc/cli/src/opts.rs
+++ b/scc/cli/src/opts.rs
@@ -9,7 +9,8 @@ pub fn fix_args(args: Vec<String>) -> Vec<String> {
 
     // when cyberpunk's args are processed, the \" messes up the grouping, so we need to fix the args that have quotes & spaces in them
     for arg in args {
-        let contains_quote = arg.contains('"');
+        let quotes = arg.matches('"').count();
+        let contains_quote = quotes > 0;
         if !contains_quote && !broken {
             fixed_args.push(arg);
         } else if !broken {
@@ -39,7 +40,8 @@ pub fn fix_args(args: Vec<String>) -> Vec<String> {
                 *last = format!("{} {}", last, broken_arg);
             }
         }
-        if contains_quote {
+        // two quotes in one argument leave the grouping as it was
+        if quotes % 2 == 1 {
             broken = !broken;
         }
     }
-- 
2.43.0

