"""which obligations and which concrete suites belong to which property

units: {unit: [regex over "file::<impl>::fn" of the functions under contract]}; lemmas of a unit belong to every
property that lists the unit with "lemma" in its patterns.
"""
PROPS = {
    "C01": dict(units={"codec": [r".*", "lemma"]}, suites=["codec"]),
    "C02": dict(units={"instr": [r".*(Instr<Offset>|Breakpoint|StartProfiling|PoolIndex<A>).*::(encode|decode)$", "lemma"]}, suites=["instr"]),
    "C03": dict(units={"codebody": [r".*<Instr<L>>::size$", r".*Code<.*>>::(new|is_empty|len|encode|decode)$", "lemma"]}, suites=["code"]),
    "C04": dict(units={"instr": [r".*<(Location|Offset)>::.*", r".*for Offset>::.*"], "codebody": [r".*resolve_labels$", "lemma"]}, suites=["jumps"]),
    "C05": dict(units={"cursor": [r".*", "lemma"]}, suites=["cursor"]),
    "C06": dict(units={"defs": [r".*", "lemma"]}, suites=["defs"]),
    "C07": dict(units={"bundle": [r".*<(ConstantPool|ScriptBundle|Strings<K>)>::(decode|decode_from|encode|load|save|encoded_offsets)$", r".*::encode_definition$", r".*::DEFAULT$", "lemma"],
                       "records": [r".*", "lemma"], "defs": [r".*<Definition>::decode$", r".*AnyDefinition.*"]}, suites=["bundle"]),
    "C08": dict(units={"bundle": [r".*<ConstantPool>::encode$", r".*<ScriptBundle>::save$", r".*::(encode_definition|encoded_offsets|SIZE|DEFAULT)$", r".*StreamOffset.*", "lemma"],
                       "records": [r".*TableHeader.*", r".*::SIZE$", r".*Encode for .*", "lemma"]}, suites=["tables"]),
    "C09": dict(units={"strings": [r".*", "lemma"]}, suites=["strings"]),
    "C10": dict(units={"pool": [r".*", "lemma"]}, suites=["pool"]),
    "C12": dict(units={"mapper": [r".*", "lemma"]}, suites=["mapper"]),
    "C11": dict(units={"bundle": [r".*StreamOffset.*"]}, suites=["stream"]),
    "C13": dict(units={"decompile": [r".*", "lemma"]}, suites=["decompile", "control"]),
    "C14": dict(units={"printer": [r".*", "lemma"]}, suites=["print"]),
    "C15": dict(units={"declare": [r".*", "lemma"]}, suites=["declare"]),
    "C16": dict(units={"typenames": [r".*", "lemma"]}, suites=["typenames"]),
    "C17": dict(units={"assembler": [r".*", "lemma"]}, suites=["asm:assemble"]),
    "C18": dict(units={"sourcemap": [r".*", "lemma"]}, suites=["asm:positions"]),
    "C19": dict(units={"options": [r".*", "lemma"]}, suites=["asm:options"]),
    "C20": dict(units={"advice": [r".*", "lemma"]}, suites=["asm:advice"]),
    "C21": dict(units={"conversions": [r".*", "lemma"], "calls": [r".*::check_and_convert"]}, suites=["asm:kinds"]),
    "C22": dict(units={"calls": [r"(?!.*::check_and_convert).*", "lemma"]}, suites=["asm:calls"]),
}
