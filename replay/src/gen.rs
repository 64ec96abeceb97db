// generated by lib/gen_replay.py from units/optable.py
use redscript::bundle::PoolIndex;
use redscript::bytecode::*;
use crate::util::*;

pub const NAMES: [&str; 104] = ["Nop", "Null", "I32One", "I32Zero", "I8Const", "I16Const", "I32Const", "I64Const", "U8Const", "U16Const", "U32Const", "U64Const", "F32Const", "F64Const", "NameConst", "EnumConst", "StringConst", "TweakDbIdConst", "ResourceConst", "TrueConst", "FalseConst", "Breakpoint", "Assign", "Target", "Local", "Param", "ObjectField", "ExternalVar", "Switch", "SwitchLabel", "SwitchDefault", "Jump", "JumpIfFalse", "Skip", "Conditional", "Construct", "InvokeStatic", "InvokeVirtual", "ParamEnd", "Return", "StructField", "Context", "Equals", "RefStringEqualsString", "StringEqualsRefString", "NotEquals", "RefStringNotEqualsString", "StringNotEqualsRefString", "New", "Delete", "This", "StartProfiling", "ArrayClear", "ArraySize", "ArrayResize", "ArrayFindFirst", "ArrayFindFirstFast", "ArrayFindLast", "ArrayFindLastFast", "ArrayContains", "ArrayContainsFast", "ArrayCount", "ArrayCountFast", "ArrayPush", "ArrayPop", "ArrayInsert", "ArrayRemove", "ArrayRemoveFast", "ArrayGrow", "ArrayErase", "ArrayEraseFast", "ArrayLast", "ArrayElement", "ArraySort", "ArraySortByPredicate", "StaticArraySize", "StaticArrayFindFirst", "StaticArrayFindFirstFast", "StaticArrayFindLast", "StaticArrayFindLastFast", "StaticArrayContains", "StaticArrayContainsFast", "StaticArrayCount", "StaticArrayCountFast", "StaticArrayLast", "StaticArrayElement", "RefToBool", "WeakRefToBool", "EnumToI32", "I32ToEnum", "DynamicCast", "ToString", "ToVariant", "FromVariant", "VariantIsDefined", "VariantIsRef", "VariantIsArray", "VariantTypeName", "VariantToString", "WeakRefToRef", "RefToWeakRef", "WeakRefNull", "AsRef", "Deref"];
pub const ARITY: [usize; 104] = [0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 1, 1, 1, 0, 0, 1, 0, 1, 1, 1, 1, 0, 2, 2, 0, 1, 1, 1, 2, 2, 4, 4, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 2, 2, 2, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1];
/// operand kinds
pub const KINDS: [&[&str]; 104] = [&[], &[], &[], &[], &["i8"], &["i16"], &["i32"], &["i64"], &["u8"], &["u16"], &["u32"], &["u64"], &["f32"], &["f64"], &["P:CName"], &["P:Enum", "P:i64"], &["S:String"], &["P:TweakDbId"], &["P:Resource"], &[], &[], &["BP"], &[], &["T"], &["P:Local"], &["P:Parameter"], &["P:Field"], &[], &["P:Type", "O+11"], &["O+3", "O+5"], &[], &["O+3"], &["O+3"], &["O+3"], &["O+3", "O+5"], &["u8", "P:Class"], &["O+3", "u16", "P:Function", "u16"], &["O+3", "u16", "P:CName", "u16"], &[], &[], &["P:Field"], &["O+3"], &["P:Type"], &["P:Type"], &["P:Type"], &["P:Type"], &["P:Type"], &["P:Type"], &["P:Class"], &[], &[], &["PROF"], &["P:Type"], &["P:Type"], &["P:Type"], &["P:Type"], &["P:Type"], &["P:Type"], &["P:Type"], &["P:Type"], &["P:Type"], &["P:Type"], &["P:Type"], &["P:Type"], &["P:Type"], &["P:Type"], &["P:Type"], &["P:Type"], &["P:Type"], &["P:Type"], &["P:Type"], &["P:Type"], &["P:Type"], &["P:Type"], &["P:Type"], &["P:Type"], &["P:Type"], &["P:Type"], &["P:Type"], &["P:Type"], &["P:Type"], &["P:Type"], &["P:Type"], &["P:Type"], &["P:Type"], &["P:Type"], &[], &[], &["P:Type", "u8"], &["P:Type", "u8"], &["P:Class", "u8"], &["P:Type"], &["P:Type"], &["P:Type"], &[], &[], &[], &[], &[], &[], &[], &[], &["P:Type"], &["P:Type"]];
/// in-memory size (StartProfiling: plus its text)
pub const SIZE: [u32; 104] = [1 + 0, 1 + 0, 1 + 0, 1 + 0, 1 + 1, 1 + 2, 1 + 4, 1 + 8, 1 + 1, 1 + 2, 1 + 4, 1 + 8, 1 + 4, 1 + 8, 1 + 8, 1 + 8 + 8, 1 + 4, 1 + 8, 1 + 8, 1 + 0, 1 + 0, 1 + 19, 1 + 0, 0, 1 + 8, 1 + 8, 1 + 8, 1 + 0, 1 + 8 + 2, 1 + 2 + 2, 1 + 0, 1 + 2, 1 + 2, 1 + 2, 1 + 2 + 2, 1 + 1 + 8, 1 + 2 + 2 + 8 + 2, 1 + 2 + 2 + 8 + 2, 1 + 0, 1 + 0, 1 + 8, 1 + 2, 1 + 8, 1 + 8, 1 + 8, 1 + 8, 1 + 8, 1 + 8, 1 + 8, 1 + 0, 1 + 0, 1 + 5, 1 + 8, 1 + 8, 1 + 8, 1 + 8, 1 + 8, 1 + 8, 1 + 8, 1 + 8, 1 + 8, 1 + 8, 1 + 8, 1 + 8, 1 + 8, 1 + 8, 1 + 8, 1 + 8, 1 + 8, 1 + 8, 1 + 8, 1 + 8, 1 + 8, 1 + 8, 1 + 8, 1 + 8, 1 + 8, 1 + 8, 1 + 8, 1 + 8, 1 + 8, 1 + 8, 1 + 8, 1 + 8, 1 + 8, 1 + 8, 1 + 0, 1 + 0, 1 + 8 + 1, 1 + 8 + 1, 1 + 8 + 1, 1 + 8, 1 + 8, 1 + 8, 1 + 0, 1 + 0, 1 + 0, 1 + 0, 1 + 0, 1 + 0, 1 + 0, 1 + 0, 1 + 8, 1 + 8];
pub fn make(op: u8, a: &[u64]) -> Instr<Offset> {
    match op {
        0 => Instr::Nop,
        1 => Instr::Null,
        2 => Instr::I32One,
        3 => Instr::I32Zero,
        4 => Instr::I8Const(a[0] as i8),
        5 => Instr::I16Const(a[0] as i16),
        6 => Instr::I32Const(a[0] as i32),
        7 => Instr::I64Const(a[0] as i64),
        8 => Instr::U8Const(a[0] as u8),
        9 => Instr::U16Const(a[0] as u16),
        10 => Instr::U32Const(a[0] as u32),
        11 => Instr::U64Const(a[0] as u64),
        12 => Instr::F32Const(f32::from_bits(a[0] as u32)),
        13 => Instr::F64Const(f64::from_bits(a[0])),
        14 => Instr::NameConst(PoolIndex::new(a[0] as u32)),
        15 => Instr::EnumConst(PoolIndex::new(a[0] as u32), PoolIndex::new(a[1] as u32)),
        16 => Instr::StringConst(PoolIndex::new(a[0] as u32)),
        17 => Instr::TweakDbIdConst(PoolIndex::new(a[0] as u32)),
        18 => Instr::ResourceConst(PoolIndex::new(a[0] as u32)),
        19 => Instr::TrueConst,
        20 => Instr::FalseConst,
        21 => Instr::Breakpoint(Box::new(breakpoint(a[0]))),
        22 => Instr::Assign,
        23 => Instr::Target(Offset::new(a[0] as i16)),
        24 => Instr::Local(PoolIndex::new(a[0] as u32)),
        25 => Instr::Param(PoolIndex::new(a[0] as u32)),
        26 => Instr::ObjectField(PoolIndex::new(a[0] as u32)),
        27 => Instr::ExternalVar,
        28 => Instr::Switch(PoolIndex::new(a[0] as u32), Offset::new(a[1] as i16)),
        29 => Instr::SwitchLabel(Offset::new(a[0] as i16), Offset::new(a[1] as i16)),
        30 => Instr::SwitchDefault,
        31 => Instr::Jump(Offset::new(a[0] as i16)),
        32 => Instr::JumpIfFalse(Offset::new(a[0] as i16)),
        33 => Instr::Skip(Offset::new(a[0] as i16)),
        34 => Instr::Conditional(Offset::new(a[0] as i16), Offset::new(a[1] as i16)),
        35 => Instr::Construct(a[0] as u8, PoolIndex::new(a[1] as u32)),
        36 => Instr::InvokeStatic(Offset::new(a[0] as i16), a[1] as u16, PoolIndex::new(a[2] as u32), a[3] as u16),
        37 => Instr::InvokeVirtual(Offset::new(a[0] as i16), a[1] as u16, PoolIndex::new(a[2] as u32), a[3] as u16),
        38 => Instr::ParamEnd,
        39 => Instr::Return,
        40 => Instr::StructField(PoolIndex::new(a[0] as u32)),
        41 => Instr::Context(Offset::new(a[0] as i16)),
        42 => Instr::Equals(PoolIndex::new(a[0] as u32)),
        43 => Instr::RefStringEqualsString(PoolIndex::new(a[0] as u32)),
        44 => Instr::StringEqualsRefString(PoolIndex::new(a[0] as u32)),
        45 => Instr::NotEquals(PoolIndex::new(a[0] as u32)),
        46 => Instr::RefStringNotEqualsString(PoolIndex::new(a[0] as u32)),
        47 => Instr::StringNotEqualsRefString(PoolIndex::new(a[0] as u32)),
        48 => Instr::New(PoolIndex::new(a[0] as u32)),
        49 => Instr::Delete,
        50 => Instr::This,
        51 => Instr::StartProfiling(Box::new(profiling(a[0]))),
        52 => Instr::ArrayClear(PoolIndex::new(a[0] as u32)),
        53 => Instr::ArraySize(PoolIndex::new(a[0] as u32)),
        54 => Instr::ArrayResize(PoolIndex::new(a[0] as u32)),
        55 => Instr::ArrayFindFirst(PoolIndex::new(a[0] as u32)),
        56 => Instr::ArrayFindFirstFast(PoolIndex::new(a[0] as u32)),
        57 => Instr::ArrayFindLast(PoolIndex::new(a[0] as u32)),
        58 => Instr::ArrayFindLastFast(PoolIndex::new(a[0] as u32)),
        59 => Instr::ArrayContains(PoolIndex::new(a[0] as u32)),
        60 => Instr::ArrayContainsFast(PoolIndex::new(a[0] as u32)),
        61 => Instr::ArrayCount(PoolIndex::new(a[0] as u32)),
        62 => Instr::ArrayCountFast(PoolIndex::new(a[0] as u32)),
        63 => Instr::ArrayPush(PoolIndex::new(a[0] as u32)),
        64 => Instr::ArrayPop(PoolIndex::new(a[0] as u32)),
        65 => Instr::ArrayInsert(PoolIndex::new(a[0] as u32)),
        66 => Instr::ArrayRemove(PoolIndex::new(a[0] as u32)),
        67 => Instr::ArrayRemoveFast(PoolIndex::new(a[0] as u32)),
        68 => Instr::ArrayGrow(PoolIndex::new(a[0] as u32)),
        69 => Instr::ArrayErase(PoolIndex::new(a[0] as u32)),
        70 => Instr::ArrayEraseFast(PoolIndex::new(a[0] as u32)),
        71 => Instr::ArrayLast(PoolIndex::new(a[0] as u32)),
        72 => Instr::ArrayElement(PoolIndex::new(a[0] as u32)),
        73 => Instr::ArraySort(PoolIndex::new(a[0] as u32)),
        74 => Instr::ArraySortByPredicate(PoolIndex::new(a[0] as u32)),
        75 => Instr::StaticArraySize(PoolIndex::new(a[0] as u32)),
        76 => Instr::StaticArrayFindFirst(PoolIndex::new(a[0] as u32)),
        77 => Instr::StaticArrayFindFirstFast(PoolIndex::new(a[0] as u32)),
        78 => Instr::StaticArrayFindLast(PoolIndex::new(a[0] as u32)),
        79 => Instr::StaticArrayFindLastFast(PoolIndex::new(a[0] as u32)),
        80 => Instr::StaticArrayContains(PoolIndex::new(a[0] as u32)),
        81 => Instr::StaticArrayContainsFast(PoolIndex::new(a[0] as u32)),
        82 => Instr::StaticArrayCount(PoolIndex::new(a[0] as u32)),
        83 => Instr::StaticArrayCountFast(PoolIndex::new(a[0] as u32)),
        84 => Instr::StaticArrayLast(PoolIndex::new(a[0] as u32)),
        85 => Instr::StaticArrayElement(PoolIndex::new(a[0] as u32)),
        86 => Instr::RefToBool,
        87 => Instr::WeakRefToBool,
        88 => Instr::EnumToI32(PoolIndex::new(a[0] as u32), a[1] as u8),
        89 => Instr::I32ToEnum(PoolIndex::new(a[0] as u32), a[1] as u8),
        90 => Instr::DynamicCast(PoolIndex::new(a[0] as u32), a[1] as u8),
        91 => Instr::ToString(PoolIndex::new(a[0] as u32)),
        92 => Instr::ToVariant(PoolIndex::new(a[0] as u32)),
        93 => Instr::FromVariant(PoolIndex::new(a[0] as u32)),
        94 => Instr::VariantIsDefined,
        95 => Instr::VariantIsRef,
        96 => Instr::VariantIsArray,
        97 => Instr::VariantTypeName,
        98 => Instr::VariantToString,
        99 => Instr::WeakRefToRef,
        100 => Instr::RefToWeakRef,
        101 => Instr::WeakRefNull,
        102 => Instr::AsRef(PoolIndex::new(a[0] as u32)),
        103 => Instr::Deref(PoolIndex::new(a[0] as u32)),
        _ => unreachable!(),
    }
}
pub fn make_label(op: u8, a: &[u64]) -> Instr<Label> {
    match op {
        0 => Instr::Nop,
        1 => Instr::Null,
        2 => Instr::I32One,
        3 => Instr::I32Zero,
        4 => Instr::I8Const(a[0] as i8),
        5 => Instr::I16Const(a[0] as i16),
        6 => Instr::I32Const(a[0] as i32),
        7 => Instr::I64Const(a[0] as i64),
        8 => Instr::U8Const(a[0] as u8),
        9 => Instr::U16Const(a[0] as u16),
        10 => Instr::U32Const(a[0] as u32),
        11 => Instr::U64Const(a[0] as u64),
        12 => Instr::F32Const(f32::from_bits(a[0] as u32)),
        13 => Instr::F64Const(f64::from_bits(a[0])),
        14 => Instr::NameConst(PoolIndex::new(a[0] as u32)),
        15 => Instr::EnumConst(PoolIndex::new(a[0] as u32), PoolIndex::new(a[1] as u32)),
        16 => Instr::StringConst(PoolIndex::new(a[0] as u32)),
        17 => Instr::TweakDbIdConst(PoolIndex::new(a[0] as u32)),
        18 => Instr::ResourceConst(PoolIndex::new(a[0] as u32)),
        19 => Instr::TrueConst,
        20 => Instr::FalseConst,
        21 => Instr::Breakpoint(Box::new(breakpoint(a[0]))),
        22 => Instr::Assign,
        23 => Instr::Target(Label { index: a[0] as usize }),
        24 => Instr::Local(PoolIndex::new(a[0] as u32)),
        25 => Instr::Param(PoolIndex::new(a[0] as u32)),
        26 => Instr::ObjectField(PoolIndex::new(a[0] as u32)),
        27 => Instr::ExternalVar,
        28 => Instr::Switch(PoolIndex::new(a[0] as u32), Label { index: a[1] as usize }),
        29 => Instr::SwitchLabel(Label { index: a[0] as usize }, Label { index: a[1] as usize }),
        30 => Instr::SwitchDefault,
        31 => Instr::Jump(Label { index: a[0] as usize }),
        32 => Instr::JumpIfFalse(Label { index: a[0] as usize }),
        33 => Instr::Skip(Label { index: a[0] as usize }),
        34 => Instr::Conditional(Label { index: a[0] as usize }, Label { index: a[1] as usize }),
        35 => Instr::Construct(a[0] as u8, PoolIndex::new(a[1] as u32)),
        36 => Instr::InvokeStatic(Label { index: a[0] as usize }, a[1] as u16, PoolIndex::new(a[2] as u32), a[3] as u16),
        37 => Instr::InvokeVirtual(Label { index: a[0] as usize }, a[1] as u16, PoolIndex::new(a[2] as u32), a[3] as u16),
        38 => Instr::ParamEnd,
        39 => Instr::Return,
        40 => Instr::StructField(PoolIndex::new(a[0] as u32)),
        41 => Instr::Context(Label { index: a[0] as usize }),
        42 => Instr::Equals(PoolIndex::new(a[0] as u32)),
        43 => Instr::RefStringEqualsString(PoolIndex::new(a[0] as u32)),
        44 => Instr::StringEqualsRefString(PoolIndex::new(a[0] as u32)),
        45 => Instr::NotEquals(PoolIndex::new(a[0] as u32)),
        46 => Instr::RefStringNotEqualsString(PoolIndex::new(a[0] as u32)),
        47 => Instr::StringNotEqualsRefString(PoolIndex::new(a[0] as u32)),
        48 => Instr::New(PoolIndex::new(a[0] as u32)),
        49 => Instr::Delete,
        50 => Instr::This,
        51 => Instr::StartProfiling(Box::new(profiling(a[0]))),
        52 => Instr::ArrayClear(PoolIndex::new(a[0] as u32)),
        53 => Instr::ArraySize(PoolIndex::new(a[0] as u32)),
        54 => Instr::ArrayResize(PoolIndex::new(a[0] as u32)),
        55 => Instr::ArrayFindFirst(PoolIndex::new(a[0] as u32)),
        56 => Instr::ArrayFindFirstFast(PoolIndex::new(a[0] as u32)),
        57 => Instr::ArrayFindLast(PoolIndex::new(a[0] as u32)),
        58 => Instr::ArrayFindLastFast(PoolIndex::new(a[0] as u32)),
        59 => Instr::ArrayContains(PoolIndex::new(a[0] as u32)),
        60 => Instr::ArrayContainsFast(PoolIndex::new(a[0] as u32)),
        61 => Instr::ArrayCount(PoolIndex::new(a[0] as u32)),
        62 => Instr::ArrayCountFast(PoolIndex::new(a[0] as u32)),
        63 => Instr::ArrayPush(PoolIndex::new(a[0] as u32)),
        64 => Instr::ArrayPop(PoolIndex::new(a[0] as u32)),
        65 => Instr::ArrayInsert(PoolIndex::new(a[0] as u32)),
        66 => Instr::ArrayRemove(PoolIndex::new(a[0] as u32)),
        67 => Instr::ArrayRemoveFast(PoolIndex::new(a[0] as u32)),
        68 => Instr::ArrayGrow(PoolIndex::new(a[0] as u32)),
        69 => Instr::ArrayErase(PoolIndex::new(a[0] as u32)),
        70 => Instr::ArrayEraseFast(PoolIndex::new(a[0] as u32)),
        71 => Instr::ArrayLast(PoolIndex::new(a[0] as u32)),
        72 => Instr::ArrayElement(PoolIndex::new(a[0] as u32)),
        73 => Instr::ArraySort(PoolIndex::new(a[0] as u32)),
        74 => Instr::ArraySortByPredicate(PoolIndex::new(a[0] as u32)),
        75 => Instr::StaticArraySize(PoolIndex::new(a[0] as u32)),
        76 => Instr::StaticArrayFindFirst(PoolIndex::new(a[0] as u32)),
        77 => Instr::StaticArrayFindFirstFast(PoolIndex::new(a[0] as u32)),
        78 => Instr::StaticArrayFindLast(PoolIndex::new(a[0] as u32)),
        79 => Instr::StaticArrayFindLastFast(PoolIndex::new(a[0] as u32)),
        80 => Instr::StaticArrayContains(PoolIndex::new(a[0] as u32)),
        81 => Instr::StaticArrayContainsFast(PoolIndex::new(a[0] as u32)),
        82 => Instr::StaticArrayCount(PoolIndex::new(a[0] as u32)),
        83 => Instr::StaticArrayCountFast(PoolIndex::new(a[0] as u32)),
        84 => Instr::StaticArrayLast(PoolIndex::new(a[0] as u32)),
        85 => Instr::StaticArrayElement(PoolIndex::new(a[0] as u32)),
        86 => Instr::RefToBool,
        87 => Instr::WeakRefToBool,
        88 => Instr::EnumToI32(PoolIndex::new(a[0] as u32), a[1] as u8),
        89 => Instr::I32ToEnum(PoolIndex::new(a[0] as u32), a[1] as u8),
        90 => Instr::DynamicCast(PoolIndex::new(a[0] as u32), a[1] as u8),
        91 => Instr::ToString(PoolIndex::new(a[0] as u32)),
        92 => Instr::ToVariant(PoolIndex::new(a[0] as u32)),
        93 => Instr::FromVariant(PoolIndex::new(a[0] as u32)),
        94 => Instr::VariantIsDefined,
        95 => Instr::VariantIsRef,
        96 => Instr::VariantIsArray,
        97 => Instr::VariantTypeName,
        98 => Instr::VariantToString,
        99 => Instr::WeakRefToRef,
        100 => Instr::RefToWeakRef,
        101 => Instr::WeakRefNull,
        102 => Instr::AsRef(PoolIndex::new(a[0] as u32)),
        103 => Instr::Deref(PoolIndex::new(a[0] as u32)),
        _ => unreachable!(),
    }
}
pub fn wire(op: u8, a: &[u64]) -> Vec<u8> {
    let mut o = vec![op];
    match op {
        4 => { o.extend((a[0] as i8).to_le_bytes()); }
        5 => { o.extend((a[0] as i16).to_le_bytes()); }
        6 => { o.extend((a[0] as i32).to_le_bytes()); }
        7 => { o.extend((a[0] as i64).to_le_bytes()); }
        8 => { o.extend((a[0] as u8).to_le_bytes()); }
        9 => { o.extend((a[0] as u16).to_le_bytes()); }
        10 => { o.extend((a[0] as u32).to_le_bytes()); }
        11 => { o.extend((a[0] as u64).to_le_bytes()); }
        12 => { o.extend((a[0] as u32).to_le_bytes()); }
        13 => { o.extend((a[0] as u64).to_le_bytes()); }
        14 => { o.extend((a[0] as u32).to_le_bytes()); }
        15 => { o.extend((a[0] as u32).to_le_bytes()); o.extend((a[1] as u32).to_le_bytes()); }
        16 => { o.extend((a[0] as u32).to_le_bytes()); }
        17 => { o.extend((a[0] as u32).to_le_bytes()); }
        18 => { o.extend((a[0] as u32).to_le_bytes()); }
        21 => { o.extend(breakpoint_bytes(a[0])); }
        24 => { o.extend((a[0] as u32).to_le_bytes()); }
        25 => { o.extend((a[0] as u32).to_le_bytes()); }
        26 => { o.extend((a[0] as u32).to_le_bytes()); }
        28 => { o.extend((a[0] as u32).to_le_bytes()); o.extend((a[1] as u16).wrapping_sub(11).to_le_bytes()); }
        29 => { o.extend((a[0] as u16).wrapping_sub(3).to_le_bytes()); o.extend((a[1] as u16).wrapping_sub(5).to_le_bytes()); }
        31 => { o.extend((a[0] as u16).wrapping_sub(3).to_le_bytes()); }
        32 => { o.extend((a[0] as u16).wrapping_sub(3).to_le_bytes()); }
        33 => { o.extend((a[0] as u16).wrapping_sub(3).to_le_bytes()); }
        34 => { o.extend((a[0] as u16).wrapping_sub(3).to_le_bytes()); o.extend((a[1] as u16).wrapping_sub(5).to_le_bytes()); }
        35 => { o.extend((a[0] as u8).to_le_bytes()); o.extend((a[1] as u32).to_le_bytes()); }
        36 => { o.extend((a[0] as u16).wrapping_sub(3).to_le_bytes()); o.extend((a[1] as u16).to_le_bytes()); o.extend((a[2] as u32).to_le_bytes()); o.extend((a[3] as u16).to_le_bytes()); }
        37 => { o.extend((a[0] as u16).wrapping_sub(3).to_le_bytes()); o.extend((a[1] as u16).to_le_bytes()); o.extend((a[2] as u32).to_le_bytes()); o.extend((a[3] as u16).to_le_bytes()); }
        40 => { o.extend((a[0] as u32).to_le_bytes()); }
        41 => { o.extend((a[0] as u16).wrapping_sub(3).to_le_bytes()); }
        42 => { o.extend((a[0] as u32).to_le_bytes()); }
        43 => { o.extend((a[0] as u32).to_le_bytes()); }
        44 => { o.extend((a[0] as u32).to_le_bytes()); }
        45 => { o.extend((a[0] as u32).to_le_bytes()); }
        46 => { o.extend((a[0] as u32).to_le_bytes()); }
        47 => { o.extend((a[0] as u32).to_le_bytes()); }
        48 => { o.extend((a[0] as u32).to_le_bytes()); }
        51 => { o.extend(profiling_bytes(a[0])); }
        52 => { o.extend((a[0] as u32).to_le_bytes()); }
        53 => { o.extend((a[0] as u32).to_le_bytes()); }
        54 => { o.extend((a[0] as u32).to_le_bytes()); }
        55 => { o.extend((a[0] as u32).to_le_bytes()); }
        56 => { o.extend((a[0] as u32).to_le_bytes()); }
        57 => { o.extend((a[0] as u32).to_le_bytes()); }
        58 => { o.extend((a[0] as u32).to_le_bytes()); }
        59 => { o.extend((a[0] as u32).to_le_bytes()); }
        60 => { o.extend((a[0] as u32).to_le_bytes()); }
        61 => { o.extend((a[0] as u32).to_le_bytes()); }
        62 => { o.extend((a[0] as u32).to_le_bytes()); }
        63 => { o.extend((a[0] as u32).to_le_bytes()); }
        64 => { o.extend((a[0] as u32).to_le_bytes()); }
        65 => { o.extend((a[0] as u32).to_le_bytes()); }
        66 => { o.extend((a[0] as u32).to_le_bytes()); }
        67 => { o.extend((a[0] as u32).to_le_bytes()); }
        68 => { o.extend((a[0] as u32).to_le_bytes()); }
        69 => { o.extend((a[0] as u32).to_le_bytes()); }
        70 => { o.extend((a[0] as u32).to_le_bytes()); }
        71 => { o.extend((a[0] as u32).to_le_bytes()); }
        72 => { o.extend((a[0] as u32).to_le_bytes()); }
        73 => { o.extend((a[0] as u32).to_le_bytes()); }
        74 => { o.extend((a[0] as u32).to_le_bytes()); }
        75 => { o.extend((a[0] as u32).to_le_bytes()); }
        76 => { o.extend((a[0] as u32).to_le_bytes()); }
        77 => { o.extend((a[0] as u32).to_le_bytes()); }
        78 => { o.extend((a[0] as u32).to_le_bytes()); }
        79 => { o.extend((a[0] as u32).to_le_bytes()); }
        80 => { o.extend((a[0] as u32).to_le_bytes()); }
        81 => { o.extend((a[0] as u32).to_le_bytes()); }
        82 => { o.extend((a[0] as u32).to_le_bytes()); }
        83 => { o.extend((a[0] as u32).to_le_bytes()); }
        84 => { o.extend((a[0] as u32).to_le_bytes()); }
        85 => { o.extend((a[0] as u32).to_le_bytes()); }
        88 => { o.extend((a[0] as u32).to_le_bytes()); o.extend((a[1] as u8).to_le_bytes()); }
        89 => { o.extend((a[0] as u32).to_le_bytes()); o.extend((a[1] as u8).to_le_bytes()); }
        90 => { o.extend((a[0] as u32).to_le_bytes()); o.extend((a[1] as u8).to_le_bytes()); }
        91 => { o.extend((a[0] as u32).to_le_bytes()); }
        92 => { o.extend((a[0] as u32).to_le_bytes()); }
        93 => { o.extend((a[0] as u32).to_le_bytes()); }
        102 => { o.extend((a[0] as u32).to_le_bytes()); }
        103 => { o.extend((a[0] as u32).to_le_bytes()); }
        _ => {}
    }
    o
}
pub fn parts(i: &Instr<Offset>) -> (u8, Vec<u64>) {
    match i {
        Instr::Nop => (0, vec![]),
        Instr::Null => (1, vec![]),
        Instr::I32One => (2, vec![]),
        Instr::I32Zero => (3, vec![]),
        Instr::I8Const(x0) => (4, vec![*x0 as u64]),
        Instr::I16Const(x0) => (5, vec![*x0 as u64]),
        Instr::I32Const(x0) => (6, vec![*x0 as u64]),
        Instr::I64Const(x0) => (7, vec![*x0 as u64]),
        Instr::U8Const(x0) => (8, vec![*x0 as u64]),
        Instr::U16Const(x0) => (9, vec![*x0 as u64]),
        Instr::U32Const(x0) => (10, vec![*x0 as u64]),
        Instr::U64Const(x0) => (11, vec![*x0 as u64]),
        Instr::F32Const(x0) => (12, vec![x0.to_bits() as u64]),
        Instr::F64Const(x0) => (13, vec![x0.to_bits() as u64]),
        Instr::NameConst(x0) => (14, vec![u32::from(*x0) as u64]),
        Instr::EnumConst(x0, x1) => (15, vec![u32::from(*x0) as u64, u32::from(*x1) as u64]),
        Instr::StringConst(x0) => (16, vec![u32::from(*x0) as u64]),
        Instr::TweakDbIdConst(x0) => (17, vec![u32::from(*x0) as u64]),
        Instr::ResourceConst(x0) => (18, vec![u32::from(*x0) as u64]),
        Instr::TrueConst => (19, vec![]),
        Instr::FalseConst => (20, vec![]),
        Instr::Breakpoint(x0) => (21, vec![{ let _ = x0; 0 }]),
        Instr::Assign => (22, vec![]),
        Instr::Target(x0) => (23, vec![x0.value as u16 as u64]),
        Instr::Local(x0) => (24, vec![u32::from(*x0) as u64]),
        Instr::Param(x0) => (25, vec![u32::from(*x0) as u64]),
        Instr::ObjectField(x0) => (26, vec![u32::from(*x0) as u64]),
        Instr::ExternalVar => (27, vec![]),
        Instr::Switch(x0, x1) => (28, vec![u32::from(*x0) as u64, x1.value as u16 as u64]),
        Instr::SwitchLabel(x0, x1) => (29, vec![x0.value as u16 as u64, x1.value as u16 as u64]),
        Instr::SwitchDefault => (30, vec![]),
        Instr::Jump(x0) => (31, vec![x0.value as u16 as u64]),
        Instr::JumpIfFalse(x0) => (32, vec![x0.value as u16 as u64]),
        Instr::Skip(x0) => (33, vec![x0.value as u16 as u64]),
        Instr::Conditional(x0, x1) => (34, vec![x0.value as u16 as u64, x1.value as u16 as u64]),
        Instr::Construct(x0, x1) => (35, vec![*x0 as u64, u32::from(*x1) as u64]),
        Instr::InvokeStatic(x0, x1, x2, x3) => (36, vec![x0.value as u16 as u64, *x1 as u64, u32::from(*x2) as u64, *x3 as u64]),
        Instr::InvokeVirtual(x0, x1, x2, x3) => (37, vec![x0.value as u16 as u64, *x1 as u64, u32::from(*x2) as u64, *x3 as u64]),
        Instr::ParamEnd => (38, vec![]),
        Instr::Return => (39, vec![]),
        Instr::StructField(x0) => (40, vec![u32::from(*x0) as u64]),
        Instr::Context(x0) => (41, vec![x0.value as u16 as u64]),
        Instr::Equals(x0) => (42, vec![u32::from(*x0) as u64]),
        Instr::RefStringEqualsString(x0) => (43, vec![u32::from(*x0) as u64]),
        Instr::StringEqualsRefString(x0) => (44, vec![u32::from(*x0) as u64]),
        Instr::NotEquals(x0) => (45, vec![u32::from(*x0) as u64]),
        Instr::RefStringNotEqualsString(x0) => (46, vec![u32::from(*x0) as u64]),
        Instr::StringNotEqualsRefString(x0) => (47, vec![u32::from(*x0) as u64]),
        Instr::New(x0) => (48, vec![u32::from(*x0) as u64]),
        Instr::Delete => (49, vec![]),
        Instr::This => (50, vec![]),
        Instr::StartProfiling(x0) => (51, vec![{ let _ = x0; 0 }]),
        Instr::ArrayClear(x0) => (52, vec![u32::from(*x0) as u64]),
        Instr::ArraySize(x0) => (53, vec![u32::from(*x0) as u64]),
        Instr::ArrayResize(x0) => (54, vec![u32::from(*x0) as u64]),
        Instr::ArrayFindFirst(x0) => (55, vec![u32::from(*x0) as u64]),
        Instr::ArrayFindFirstFast(x0) => (56, vec![u32::from(*x0) as u64]),
        Instr::ArrayFindLast(x0) => (57, vec![u32::from(*x0) as u64]),
        Instr::ArrayFindLastFast(x0) => (58, vec![u32::from(*x0) as u64]),
        Instr::ArrayContains(x0) => (59, vec![u32::from(*x0) as u64]),
        Instr::ArrayContainsFast(x0) => (60, vec![u32::from(*x0) as u64]),
        Instr::ArrayCount(x0) => (61, vec![u32::from(*x0) as u64]),
        Instr::ArrayCountFast(x0) => (62, vec![u32::from(*x0) as u64]),
        Instr::ArrayPush(x0) => (63, vec![u32::from(*x0) as u64]),
        Instr::ArrayPop(x0) => (64, vec![u32::from(*x0) as u64]),
        Instr::ArrayInsert(x0) => (65, vec![u32::from(*x0) as u64]),
        Instr::ArrayRemove(x0) => (66, vec![u32::from(*x0) as u64]),
        Instr::ArrayRemoveFast(x0) => (67, vec![u32::from(*x0) as u64]),
        Instr::ArrayGrow(x0) => (68, vec![u32::from(*x0) as u64]),
        Instr::ArrayErase(x0) => (69, vec![u32::from(*x0) as u64]),
        Instr::ArrayEraseFast(x0) => (70, vec![u32::from(*x0) as u64]),
        Instr::ArrayLast(x0) => (71, vec![u32::from(*x0) as u64]),
        Instr::ArrayElement(x0) => (72, vec![u32::from(*x0) as u64]),
        Instr::ArraySort(x0) => (73, vec![u32::from(*x0) as u64]),
        Instr::ArraySortByPredicate(x0) => (74, vec![u32::from(*x0) as u64]),
        Instr::StaticArraySize(x0) => (75, vec![u32::from(*x0) as u64]),
        Instr::StaticArrayFindFirst(x0) => (76, vec![u32::from(*x0) as u64]),
        Instr::StaticArrayFindFirstFast(x0) => (77, vec![u32::from(*x0) as u64]),
        Instr::StaticArrayFindLast(x0) => (78, vec![u32::from(*x0) as u64]),
        Instr::StaticArrayFindLastFast(x0) => (79, vec![u32::from(*x0) as u64]),
        Instr::StaticArrayContains(x0) => (80, vec![u32::from(*x0) as u64]),
        Instr::StaticArrayContainsFast(x0) => (81, vec![u32::from(*x0) as u64]),
        Instr::StaticArrayCount(x0) => (82, vec![u32::from(*x0) as u64]),
        Instr::StaticArrayCountFast(x0) => (83, vec![u32::from(*x0) as u64]),
        Instr::StaticArrayLast(x0) => (84, vec![u32::from(*x0) as u64]),
        Instr::StaticArrayElement(x0) => (85, vec![u32::from(*x0) as u64]),
        Instr::RefToBool => (86, vec![]),
        Instr::WeakRefToBool => (87, vec![]),
        Instr::EnumToI32(x0, x1) => (88, vec![u32::from(*x0) as u64, *x1 as u64]),
        Instr::I32ToEnum(x0, x1) => (89, vec![u32::from(*x0) as u64, *x1 as u64]),
        Instr::DynamicCast(x0, x1) => (90, vec![u32::from(*x0) as u64, *x1 as u64]),
        Instr::ToString(x0) => (91, vec![u32::from(*x0) as u64]),
        Instr::ToVariant(x0) => (92, vec![u32::from(*x0) as u64]),
        Instr::FromVariant(x0) => (93, vec![u32::from(*x0) as u64]),
        Instr::VariantIsDefined => (94, vec![]),
        Instr::VariantIsRef => (95, vec![]),
        Instr::VariantIsArray => (96, vec![]),
        Instr::VariantTypeName => (97, vec![]),
        Instr::VariantToString => (98, vec![]),
        Instr::WeakRefToRef => (99, vec![]),
        Instr::RefToWeakRef => (100, vec![]),
        Instr::WeakRefNull => (101, vec![]),
        Instr::AsRef(x0) => (102, vec![u32::from(*x0) as u64]),
        Instr::Deref(x0) => (103, vec![u32::from(*x0) as u64]),
    }
}
