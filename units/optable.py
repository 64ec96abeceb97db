"""The bytecode instruction table: the specification of opcode, wire layout and
in-memory operand size of every instruction.  Written down once, by hand, as
the property; the code in /repo is checked against it.

operand kinds: i8 i16 i32 i64 u8 u16 u32 u64 f32 f64   little-endian values
               P:<T>      reference into the pool (u32 on the wire, 8 bytes in memory)
               S          reference into the string pool (u32 on the wire, 4 in memory)
               O+<n>      code offset, stored minus n (i16)
               BP, PROF   boxed records
"""
TABLE = [
    ("Nop", 0, []), ("Null", 1, []), ("I32One", 2, []), ("I32Zero", 3, []),
    ("I8Const", 4, ["i8"]), ("I16Const", 5, ["i16"]), ("I32Const", 6, ["i32"]), ("I64Const", 7, ["i64"]),
    ("U8Const", 8, ["u8"]), ("U16Const", 9, ["u16"]), ("U32Const", 10, ["u32"]), ("U64Const", 11, ["u64"]),
    ("F32Const", 12, ["f32"]), ("F64Const", 13, ["f64"]),
    ("NameConst", 14, ["P:CName"]), ("EnumConst", 15, ["P:Enum", "P:i64"]), ("StringConst", 16, ["S:String"]),
    ("TweakDbIdConst", 17, ["P:TweakDbId"]), ("ResourceConst", 18, ["P:Resource"]),
    ("TrueConst", 19, []), ("FalseConst", 20, []), ("Breakpoint", 21, ["BP"]), ("Assign", 22, []),
    ("Target", 23, ["T"]),
    ("Local", 24, ["P:Local"]), ("Param", 25, ["P:Parameter"]), ("ObjectField", 26, ["P:Field"]), ("ExternalVar", 27, []),
    ("Switch", 28, ["P:Type", "O+11"]), ("SwitchLabel", 29, ["O+3", "O+5"]), ("SwitchDefault", 30, []),
    ("Jump", 31, ["O+3"]), ("JumpIfFalse", 32, ["O+3"]), ("Skip", 33, ["O+3"]), ("Conditional", 34, ["O+3", "O+5"]),
    ("Construct", 35, ["u8", "P:Class"]), ("InvokeStatic", 36, ["O+3", "u16", "P:Function", "u16"]),
    ("InvokeVirtual", 37, ["O+3", "u16", "P:CName", "u16"]), ("ParamEnd", 38, []), ("Return", 39, []),
    ("StructField", 40, ["P:Field"]), ("Context", 41, ["O+3"]),
    ("Equals", 42, ["P:Type"]), ("RefStringEqualsString", 43, ["P:Type"]), ("StringEqualsRefString", 44, ["P:Type"]),
    ("NotEquals", 45, ["P:Type"]), ("RefStringNotEqualsString", 46, ["P:Type"]), ("StringNotEqualsRefString", 47, ["P:Type"]),
    ("New", 48, ["P:Class"]), ("Delete", 49, []), ("This", 50, []), ("StartProfiling", 51, ["PROF"]),
] + [(n, 52 + i, ["P:Type"]) for i, n in enumerate(
    "ArrayClear ArraySize ArrayResize ArrayFindFirst ArrayFindFirstFast ArrayFindLast ArrayFindLastFast ArrayContains "
    "ArrayContainsFast ArrayCount ArrayCountFast ArrayPush ArrayPop ArrayInsert ArrayRemove ArrayRemoveFast ArrayGrow "
    "ArrayErase ArrayEraseFast ArrayLast ArrayElement ArraySort ArraySortByPredicate StaticArraySize StaticArrayFindFirst "
    "StaticArrayFindFirstFast StaticArrayFindLast StaticArrayFindLastFast StaticArrayContains StaticArrayContainsFast "
    "StaticArrayCount StaticArrayCountFast StaticArrayLast StaticArrayElement".split())] + [
    ("RefToBool", 86, []), ("WeakRefToBool", 87, []), ("EnumToI32", 88, ["P:Type", "u8"]), ("I32ToEnum", 89, ["P:Type", "u8"]),
    ("DynamicCast", 90, ["P:Class", "u8"]), ("ToString", 91, ["P:Type"]), ("ToVariant", 92, ["P:Type"]),
    ("FromVariant", 93, ["P:Type"]), ("VariantIsDefined", 94, []), ("VariantIsRef", 95, []), ("VariantIsArray", 96, []),
    ("VariantTypeName", 97, []), ("VariantToString", 98, []), ("WeakRefToRef", 99, []), ("RefToWeakRef", 100, []),
    ("WeakRefNull", 101, []), ("AsRef", 102, ["P:Type"]), ("Deref", 103, ["P:Type"]),
]
assert [o for _, o, _ in TABLE] == list(range(104))


def mem(k):
    """in-memory operand size"""
    if k[:2] == "P:":
        return 8
    if k[:2] == "S:":
        return 4
    if k[0] == "O":
        return 2
    return {"i8": 1, "u8": 1, "i16": 2, "u16": 2, "i32": 4, "u32": 4, "f32": 4, "i64": 8, "u64": 8, "f64": 8, "BP": 19}[k]
