"""texts of the properties (properties.jsonl and MANIFEST.json are generated from here by lib/gen_docs.py)"""
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mechanism, note, technique="contract proof of the real functions (Verus), concrete replay for failing inputs"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, note=note, technique=technique))


def na(id, title, statement, over, text, why, files, mechanism, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, reason=reason))


prop("C01", "Values, strings and lists are written in a fixed layout and read back exactly",
     "Every integer, float, boolean, text and counted list is written to a bundle in the fixed little-endian layout of the format and, read back from any stream that delivers those bytes (in whatever pieces), yields the same value and consumes exactly the bytes that were written. "
     "A stream that ends early, text that is not valid UTF-8, or a sink that refuses bytes is reported as an error and never answered with a value; a count announcing more entries than the stream holds is such an error too, however large it is.",
     ["inputs", "fault_sequences"], "all values of every primitive type, all texts and lists whose length fits their prefix, all continuations of the stream, all short reads and failing sinks",
     "The tests only load one bundle and compile a few scripts; they do not read single values back and never see a short or failing stream.",
     ["core/src/encode.rs", "core/src/decode.rs"], [("Encode/Decode implementations of the primitive types", "core/src/encode.rs, core/src/decode.rs"), ("EncodeExt/DecodeExt prefixed strings, slices, vectors", "core/src/encode.rs, core/src/decode.rs")],
     "Proof over all inputs for every function of the two files; the byteorder calls, String::from_utf8 and io::Read/io::Write are assumed contracts.")
prop("C02", "Every instruction has its fixed opcode and layout and reads back as itself",
     "Each of the bytecode instructions is written as its fixed opcode byte followed by its operands in the order and width the game expects, and reading those bytes yields the same instruction with the same operands, leaving the rest of the stream untouched. "
     "A byte that is not an opcode, or operands cut short, is an error.",
     ["inputs"], "all instructions with all operand values, all byte strings offered for reading",
     "104 instructions times all operand values; compile tests compare the instructions a few scripts produce before they are encoded and never check their bytes.",
     ["core/src/bytecode.rs"], [("instruction encode and decode", "core/src/bytecode.rs"), ("opcode numbers", "core/src/bytecode.rs mod opcode")],
     "Proof over all instructions and inputs against an opcode table written down independently; codec contracts come from C01.")
prop("C03", "A function body announces its exact instruction size and reads back whole",
     "The size announced in front of a function body is the sum of the in-game sizes of its instructions, each of which is fixed by its kind (or by its name length for profiling markers); reading a body takes instructions until the announced size is reached, yields the same instruction sequence and leaves the stream right behind it. A body cut short is an error.",
     ["inputs", "programs"], "all instruction sequences whose total size is representable, all byte strings offered as bodies",
     "Sizes differ from byte counts (pool references count 8), so an error shows only for particular instructions in particular positions; no test reads a body back.",
     ["core/src/bytecode.rs"], [("instruction size", "core/src/bytecode.rs Instr::size"), ("code body encode and decode", "core/src/bytecode.rs Code")],
     "Proof over all bodies; instruction contracts come from C02.")
prop("C04", "Resolved jumps land exactly on the instruction carrying their label",
     "When labels are resolved, every jump, switch, conditional, context and call-skip operand is replaced by the distance for which following it leads to the position of the label it named, label markers vanish into their positions, and nothing else in the code changes. "
     "Converting between absolute positions and relative distances is inverse in both directions for all positions in the 64 KiB code space, with no arithmetic failure.",
     ["inputs", "programs"], "all instruction sequences with placed labels, all positions and distances",
     "A wrong distance shows only for particular layouts (far, backward, nested); the tests compare a handful of compiled bodies.",
     ["core/src/bytecode.rs"], [("relative / absolute", "core/src/bytecode.rs Location, Offset"), ("label resolution", "core/src/bytecode.rs resolve_labels")],
     "Proof over all sequences and positions.")
prop("C05", "Walking and seeking in a body visits the instructions at their positions",
     "Iterating a function body yields every instruction once, in order, each with the position equal to the sum of the sizes before it; seeking to the position of an instruction (forward or backward) makes that instruction (or a size-less label at the same position) the next one, and seeking to a position where no instruction starts is refused.",
     ["inputs", "histories"], "all bodies within the 16-bit code space, all sequences of stepping, peeking and seeking",
     "The decompiler's use covers forward walks only over bodies in one bundle; arbitrary interleavings of stepping and seeking are never tested.",
     ["core/src/bytecode.rs"], [("code cursor", "core/src/bytecode.rs CodeCursor"), ("code iterator", "core/src/bytecode.rs CodeIter")],
     "Proof over all bodies and call histories (a data invariant plus per-method contracts).")
prop("C06", "Every definition record is written in bundle layout and reads back as itself",
     "Each kind of definition (type, class, enum, enum value, function, parameter, local, field, source file) is written with its fields in the fixed order, its flag bits at their fixed positions and its presence bits in agreement with what follows, and reading the record yields the same definition and consumes exactly its bytes. "
     "Unknown tags and truncated records are errors.",
     ["inputs"], "all definition values the format can represent, all continuations and truncations",
     "The one bundle in the tests has few combinations of presence bits (no casts, operators, hints or overrides together) and its round trip only compares a count.",
     ["core/src/definition.rs", "core/src/bundle.rs"], [("record encode and decode", "core/src/definition.rs"), ("flag words", "core/src/definition.rs"), ("definition type tags", "core/src/bundle.rs DefinitionType")],
     "Proof over all records; the bit-field accessors generated by modular_bitfield, PathBuf conversion and str::replace are assumed contracts whose bit positions are read from the declarations in the source and checked against the format.")
prop("C07", "A bundle saved and loaded again is the same bundle",
     "Saving a bundle and loading the result yields the same names, TweakDB ids, resources and strings under the same indices and the same definitions (name, parent, kind, record, extra bytes) under the same indices, with version, flags, timestamp and chunk count unchanged; any well-formed image loads with every text and record taken from where its offset tables point. "
     "Saving is independent of what the output held before and of how many bytes each write accepts; a bad magic number, an image cut short or a failing output is an error.",
     ["inputs", "histories", "fault_sequences"], "all pools (texts without NUL, definitions the format can hold, images below 4 GiB), all well-formed images, all outputs and inputs that deliver bytes piecemeal",
     "The one test saves the shipped bundle and compares only the number of definitions; duplicated texts, empty tables, other layouts and reused outputs are never tried.",
     ["core/src/bundle.rs", "core/src/definition.rs", "core/src/io.rs"],
     [("loading", "core/src/bundle.rs ScriptBundle::load, ConstantPool::decode, Strings::decode_from"), ("saving", "core/src/bundle.rs ScriptBundle::save, ConstantPool::encode"), ("definition by header", "core/src/definition.rs Definition::decode")],
     "Proof over all pools and streams that what save lays down is what load reads (theorem saved_loads over the contracts of load and save); seekable streams, the hash map and Rc<str> are assumed contracts.")
prop("C08", "The header's tables announce exactly what was written, checksums included",
     "In a saved bundle the header announces for the data, name, TweakDB id, resource, definition and string tables exactly the position, the number of entries and the CRC-32 of the bytes that are there, the tables follow each other without gaps behind the 104-byte header, "
     "each definition header gives the position, size and kind of its record, each text offset leads to that text with its terminator, and the header checksum is the CRC-32 of the header taken with 0xDEADBEEF in its place.",
     ["inputs"], "all pools below 4 GiB",
     "redscript itself ignores checksums, table positions and record sizes when loading, so a wrong one passes every test and only fails in the game.",
     ["core/src/bundle.rs", "core/src/io.rs"],
     [("table headers", "core/src/bundle.rs TableHeader::new, ConstantPool::encode"), ("record positions", "core/src/bundle.rs DefinitionHeader::encode_definition, core/src/io.rs StreamOffset"), ("header layout", "core/src/bundle.rs Encode for Header")],
     "Proof over all pools; the CRC function itself is an assumed contract (crc32fast), compared with a bitwise CRC in the concrete search.")
prop("C09", "A text added to a string pool gets one index, and the index gives it back",
     "Adding a text to a pool returns an index under which reading yields that text; adding a text that is already there returns its existing index and changes nothing, a new one is appended and moves no other, and looking a text up finds exactly the texts that are there. "
     "For names, index 0 stands for \"None\": it reads as \"None\" whatever is stored there and adding \"None\" gives 0; an index beyond the pool is an error.",
     ["inputs", "histories"], "all histories of loading, adding, reading and looking up in each of the four kinds of pool (name pools as the game ships them, with slot 0 reserved)",
     "Interning errors need particular histories (a text added twice, before and after others, equal to the default); the tests add names once while compiling.",
     ["core/src/bundle.rs"], [("string pools", "core/src/bundle.rs Strings, DefaultString")],
     "Proof over all histories by an invariant of the pool and contracts on every operation; hashbrown's map and Rc<str> are assumed contracts.")
prop("C10", "Definition pool lookups return the right kind or an error; edits touch one entry",
     "Looking up a function, field, parameter, local, type, class, enum or enum value by index returns that entry if it exists and is of that kind and otherwise an error naming the index, never another entry and never a panic; adding or reserving returns the index of a new last entry and changes no other; replacing, swapping, renaming and editing in place change exactly the entries named. "
     "Listing yields every entry but the reserved slot 0 once, in order; roots are those without a parent.",
     ["inputs", "histories"], "all pools, all indices, all histories of edits with valid target indices",
     "The tests only look up valid indices of the right kind; out-of-range and wrong-kind lookups and interleaved edits are not tried.",
     ["core/src/bundle.rs", "core/src/definition.rs"], [("pool accessors and edits", "core/src/bundle.rs ConstantPool"), ("definition constructors", "core/src/definition.rs Definition")],
     "Proof over all pools and indices for lookups, edits and constructors; the iterator-based listings (definitions, roots, first_line) are bounded (concrete search) only.")
prop("C11", "A counted stream's offset is the position of the bytes that went through",
     "A stream wrapped for counting starts at the position of the stream it wraps (or at 0), and after every read or write its offset has moved by exactly the number of bytes that went through, whatever piece sizes the stream accepts and wherever it fails; the bytes pass unchanged.",
     ["inputs", "fault_sequences", "histories"], "all sequences of reads and writes, all partial transfers and failures",
     "Record positions and sizes in saved bundles come from this counter; the tests only use streams that take everything at once.",
     ["core/src/io.rs"], [("counting reader/writer", "core/src/io.rs StreamOffset")],
     "Proof for construction and writing over all sinks; reading is bounded (concrete search) only: its counter is not limited by anything the reader promises.")
prop("C12", "Moving classes or functions in the pool re-targets every reference to them",
     "Applying a class and a function mapping to a pool replaces, in every definition, each base class, each owner of a function or field, each owner of a parameter or local, each class constructed, allocated or cast to and each function called statically by what the mapping gives for it (indices it does not mention stay), "
     "and changes nothing else: no other operand, no flags, no order, no names.",
     ["inputs"], "all pools, all mappings of class and function indices",
     "The mapper runs when classes must be reordered, which no test with the shipped scripts triggers on a body that holds every kind of reference.",
     ["core/src/mapper.rs"], [("index mappings", "core/src/mapper.rs MultiMapper, NoopMapper"), ("application to a pool", "core/src/mapper.rs PoolMapper")],
     "Proof over all pools and mappings; the hash map lookup is an assumed contract, the iteration over `&mut` collections is written as the index loop it stands for.")
prop("C13", "Decompiling a body gives the expressions and control flow its code encodes",
     "Decompiling a function body yields one statement per top-level instruction, each operator, call, member, context, array, cast, constant and assignment instruction becoming the expression it encodes over exactly the operands that follow it, in order, with the names and types its pool references lead to; "
     "a forward conditional jump becomes an `if` (with `else` when the branch ends in a jump forward), one whose body jumps back becomes a `while`, a jump leaving the enclosing loop or switch becomes `break`, a switch gets each case with its label's value and body in code order and its default, and no instruction is dropped, repeated or moved (but for what stands unreachable behind a `return`, `break` or jump in the same block). "
     "Each local is declared once: at its assignment among the leading assignments, otherwise in front. A reference to a missing or wrong-kind entry and code cut short inside an expression are errors.",
     ["inputs", "programs"], "all function bodies the format can hold whose jumps lead to instruction starts, all pools",
     "The tests decompile one small bundle and compare a few texts; wrong operand order, scope, offset arithmetic or branch structure shows only for particular instruction nestings.",
     ["decompiler/src/lib.rs"], [("reading instructions back into expressions", "decompiler/src/lib.rs Decompiler::consume_with and helpers"), ("control flow", "decompiler/src/lib.rs consume_path, consume_conditional_jump, consume_switch, resolve_jump"), ("declarations", "decompiler/src/lib.rs merge_declarations")],
     "Proof over all bodies against a reading of the bytecode written down as a recursive specification (partial correctness: a body on which the decompiler does not terminate is outside the claim); cursor and pool contracts come from C05, C09, C10; the map of locals (BTreeMap) is an assumed contract.")
prop("C14", "The printed source of a body reads back as the tree it was printed from",
     "The source text printed for a decompiled body, read by the language's grammar (operator precedence and grouping, prefix operators, member access, calls, casts, conditionals, literals with their suffixes, statements and blocks), derives exactly the tree that was printed: "
     "parentheses stand wherever an operand would otherwise group differently, every operator keeps its own sign, every argument and statement appears once and in order, literals keep their kind and value (floats with all the digits that tell them apart, texts escaped), each case of a switch keeps its label and body and the default comes last. "
     "Only empty statements and, unless verbose, the implicit reference conversions are left out; the verbose flag changes nothing else.",
     ["inputs", "programs"], "all syntax trees the decompiler can produce for which the language has a spelling, all depths, verbose or not",
     "The tests compare the printed text of a few functions; a missing parenthesis or a wrong suffix shows only for particular nestings of operators or particular values.",
     ["decompiler/src/print.rs"], [("expressions and statements", "decompiler/src/print.rs write_expr_nested, write_seq, write_call, write_binop, write_unop, write_args"), ("how operators bind", "core/src/ast.rs BinOp::precedence, associative, does_associate"), ("numbers", "decompiler/src/print.rs float_precision")],
     "Proof over all trees against the grammar written down as a derivation relation (trees the language cannot spell, such as a statement inside an expression, are outside the precondition). std's own formatting of integers, floats and escapes, io::Write, strum's names and TypeName::pretty are assumed contracts, exercised by the bounded search, which parses the printed text back.")
prop("C15", "A printed definition states the declaration it was printed from",
     "The text printed for a class states its visibility, whether it is abstract, final, imported-only or native, a struct or a class, its name, its base if it has one, then every field and then every method in the order of their lists; "
     "for a field its properties and defaults, visibility, each of its modifiers, name and type; for a function its visibility, each of its modifiers, its name without the signature, every parameter in order with its modifiers and type, the return type or Void, and its body (the statements it decompiles to, or its instructions with their positions) exactly if it has one; "
     "for an enum every member with its value in order. A type is spelled by its nesting. Texts inside annotations are escaped. "
     "A reference to a missing entry is an error, a method that cannot be printed costs only that method, and nothing else fails but a write.",
     ["inputs", "fault_sequences"], "all pools whose member lists name entries of the kind they are for, all nestings of types, all combinations of flags, all output modes",
     "The tests print a few definitions and compare the text; a swapped or forgotten modifier, a member out of order or a wrong nesting of types shows only for particular flags and lists.",
     ["decompiler/src/print.rs", "core/src/definition.rs"], [("declarations", "decompiler/src/print.rs write_definition, write_function_body"), ("types and parameters", "decompiler/src/print.rs format_type, format_param"), ("visibility", "core/src/definition.rs Display for Visibility")],
     "Proof over all pools, flags and modes (except the text of the syntax-tree mode, which is Rust's own debug output): the appended text is equal to the declaration's text. What a body decompiles to and how its statements are spelled are the contracts of C13 and C14; the flag accessors and std's formatting are assumed contracts.")
prop("C16", "Type names are stored, shown and told apart by exactly what they say",
     "A type name keeps its name and its parts in order; its source form spells the name and, in angle brackets, the source forms of its parts separated by a comma and a space; its stored form joins the names with colons, and reading a stored text gives a type that stores as that very text, which is the original type whenever each part has at most one part of its own. "
     "Its signature form (what functions are identified by, and what is displayed) spells it the same way with a bare comma and without any reference (`ref` or `wref` with one part) around it or around a part, so two types differ in signature exactly by more than references; "
     "a type is a reference, weak reference, script reference or array by its name alone, and the named built-in types spell the names the game uses.",
     ["inputs"], "all type names of any nesting and number of parts, all texts",
     "The tests use a handful of simple types; a nested reference, a type with several parts or an unusual stored text is not among them.",
     ["core/src/ast.rs"], [("type names", "core/src/ast.rs TypeName, Kind")],
     "Proof over all nestings (the text made by format!, itertools' format and join is written out as the loop it stands for; Ident, Rc<str> and str::split at a character are assumed contracts).")
prop("C17", "Compiled code says what the typed source says, and its jumps land right",
     "The code generated for a typed function body spells it out in order: every expression and statement becomes the instruction of its kind, with what it names (constants by their value or text, variables, fields, functions, classes and the types of operands), followed by its operands in order; an absent initializer becomes the zero value of the declared type; a missing argument becomes a gap, a short-circuited one can be skipped; a call is dispatched statically exactly when the function is final, static or native or the call is forced to be (through `super` or a class name), and carries the line it starts on and which arguments are references to temporaries. "
     "Every jump leads to the start of an instruction of the same body, or to its end, and to the right one: behind the skipped branch of an if or conditional, back to the condition of a loop, behind the innermost loop or switch for a break, from one case to the next, to the default and behind the switch, from a case without a body to the first body after it; the code behind a call, an argument or a member access is found at the distance announced. "
     "What has no code (a break outside a loop or switch, a static method on an object, an instance method on a class, more arguments than parameters, constructs that earlier passes remove) is refused with an error.",
     ["inputs"], "all typed bodies (as the type checker makes them: operands present, at most 16 arguments of a call, 255 fields of a constructed struct) whose code fits the 64 KB a function has, all pools, scopes and source files",
     "No test of the core, decompiler or library crates runs the code generator, and the compiler's own tests compare the code of a few bodies; a label placed at the wrong spot, or not at all, shows only for a particular nesting of loops, switches, empty cases and calls.",
     ["compiler/src/assembler.rs", "compiler/src/typechecker.rs", "core/src/ast.rs"],
     [("code generation", "compiler/src/assembler.rs Assembler"), ("labels to distances", "compiler/src/assembler.rs into_code, core/src/bytecode.rs resolve_labels"), ("temporaries", "compiler/src/typechecker.rs is_prvalue"), ("empty bodies", "core/src/ast.rs Expr::is_empty")],
     "Proof over all bodies: the emitted instructions are those of a recursive specification, every label is placed exactly once and every jump leads to a placed one (lemmas over that specification), and resolved code is that code with distances (by what pool indices stand for). The type of an expression (type_of), the type table (Scope::get_type_index), the pool's operations and the line of a span (Files::lookup) are assumed contracts; the bounded search runs the real ones, against a compiler of its own that lays code out without labels.")

prop("C18", "A source position resolves to its file, line and column, and reports show it",
     "Source files laid one behind the other in one position space do not overlap, and a position of a file (any character of it, or its end) is found in that file and in no other; a position behind the last file is found in none. The line and column of a position are the number of newlines in front of it and the number of characters (not bytes) between the last of them and it, and they are shown counted from one, as path:line:column. "
     "The enclosing line of a position is the text from behind the previous newline through the next one (or to the end); the text of a span is exactly what lies between its ends; merging spans gives the smallest span around both; a span contains its start but not its end. "
     "A report shows the error's code where it has one, the place, the line without trailing blanks and with tabs as blanks, marks under the characters meant (at least one; three if the span crosses lines), and the message; exactly the six kinds of advisory reports are not fatal.",
     ["inputs"], "all lists of files whose texts take less than 4 GiB together, with any characters, line ends and empty files; all spans whose ends are characters (or the end) of one file",
     "No test outside the compiler crate touches positions, and its one test looks at a few ASCII positions; files without a last newline, empty files, positions at a newline or right behind it, multi-byte characters and spans up to the end of a file each take a different path.",
     ["compiler/src/source_map.rs", "compiler/src/diagnostics.rs", "core/src/ast.rs"],
     [("positions of files", "compiler/src/source_map.rs Files, File"), ("line and column", "compiler/src/source_map.rs File::lookup"), ("spans", "core/src/ast.rs Pos, Span"), ("reports", "compiler/src/diagnostics.rs Diagnostic")],
     "Proof over all texts and positions: the line table is that of the newlines (loop invariant), the search in it counts the newlines in front of the position (lemmas), columns count characters, the text of a report is that of the specification. Assumed: std's binary searches, slicing, match_indices, trimming and formatting; the wording of messages is not specified (the bounded search compares eight kinds).")

prop("C19", "The options of scc see the arguments the game's command line was written with",
     "The game calls scc with quoted paths that may end in a backslash; Windows reads that backslash and the closing quote as a quote character, so the arguments behind it arrive grouped wrongly. For every command line of arguments (plain ones, and paths in quotes, with or without blanks in them, with or without a backslash at their end, in any number and order) the repaired list is exactly the arguments as they were written: each path whole, with its backslash and blanks, each other argument on its own, in order. "
     "A list without quote characters passes unchanged but for empty arguments, which are always left out, and no list of arguments at all makes the repair fail. "
     "From the repaired list every option gets its own value: the scripts directory, cache directory, cache file, output file, paths file, thread count, warnings, profile setting and switches, whatever the order of the options behind the scripts directory and the cache file, and the documented default where it is absent.",
     ["inputs"], "all lists of arguments without quote characters of their own, whose words are separated by single blanks; all raw lists for the last two claims of the repair",
     "The six thousand test cases are combinations of the same five paths in one order, of which only the first ends in a backslash.",
     ["scc/cli/src/opts.rs"], [("repair of the arguments", "scc/cli/src/opts.rs fix_args"), ("options", "scc/cli/src/opts.rs Opts::load")],
     "Proof over all argument lists: fix_args computes the specification of its steps (loop invariants), and the theorem arrives/told (induction over the arguments) says that these steps undo what Windows makes of a command line; that grouping is a specification written by hand, which the bounded search compares with a character-level splitter. Assumed: std's replace, split, matches and contains. Opts::load (the bpaf parser) is outside the verifier's reach: bounded only.")

prop("C20", "Checks of a function body report each offence once, in order, and no other",
     "About the body of a function the compiler reports: a missing return exactly when the function returns a value, is no callback and its end is not behind a `return` (a statement counts as returning if it is a `return`, a block with such a statement, an `if` both of whose branches have one, or a `switch` each of whose cases, and its default if it has one, has one); "
     "a case that runs on into the next for each case of a `switch`, but the last, that has statements and does not end in `break` or `return`; "
     "a use of a temporary for each field of a struct, element of an array, or query of an array (contains, count, find first, find last, last, pop, size) that is taken of a temporary value; "
     "an unused variable for each declared local (also the variable of a loop) that no expression of the body names. "
     "Every expression and statement of the body is looked at, however deep it is nested, each exactly once and in the order of the source, so no offence goes unreported, none is reported twice, and each report points at the offending place (the label of the case, the temporary value, the declaration, the function).",
     ["inputs"], "all typed bodies: every construct, nesting and size, well typed or not",
     "Only compiler tests look at reports, at a handful of bodies; a construct whose operands are not looked at shows only where an offence sits inside that construct.",
     ["compiler/src/diagnostics.rs", "compiler/src/diagnostics/missing_return.rs", "compiler/src/diagnostics/stmt_fallthrough.rs", "compiler/src/diagnostics/unused_local.rs", "compiler/src/diagnostics/invalid_temp_use.rs", "compiler/src/transform.rs", "core/src/ast.rs"],
     [("every part of a body", "compiler/src/transform.rs visit_expr!, visit_seq"), ("the checks", "compiler/src/diagnostics/ diagnose"), ("where an expression stands", "core/src/ast.rs Expr::span"), ("temporaries", "compiler/src/typechecker.rs is_prvalue")],
     "Proof over all trees: visit is a recursive specification of walking a tree (the macro visit_expr! is expanded from its text in /repo on each run), and each check's reports are that walk's. Assumed: HashSet is a set, the flag accessor; which checks run on which functions (unit.rs) is not covered.")
prop("C21", "Types: what converts to what, what two types share, and what names stand for",
     "A value of one type is taken for one of another exactly as the language says: as it is, if the types are equal, if its class is the other or extends it through any number of bases (also behind a reference, `ref` to `ref` and `wref` to `wref`), and for `null` as any `ref`; with a weakening (`ref` and `null` to `wref`), strengthening (`wref` to `ref`), script reference or `Variant` wrapped around it, in that order of preference, and otherwise not at all. "
     "The branches of a conditional have as their type the nearest class both extend (any type that includes `null` if one is `null`), and none if there is none, and every typed expression has the type of what it yields. "
     "A type in source or in the pool stands for the same type as its entry in the table, a type has one entry, of its name and kind, and a field is the one of the nearest class that has it, a method all those of that name from the class up.",
     ["inputs"], "all types, however nested, class hierarchies of any depth, typed expressions and type tables",
     "Compiler tests use hierarchies of one or two classes; the rules differ only deeper in a hierarchy, behind two references, or for two names that meet in the table.",
     ["compiler/src/typechecker.rs", "compiler/src/scope.rs"],
     [("conversions", "compiler/src/typechecker.rs find_conversion, insert_conversion, TypeChecker::check_and_convert"), ("shared type", "compiler/src/typechecker.rs lub, collect_supertypes"), ("types of expressions", "compiler/src/typechecker.rs type_of"), ("types and members", "compiler/src/scope.rs resolve_type, resolve_type_from_pool, get_type_index, resolve_field, resolve_method, resolve_enum_member")],
     "Proof for every type and hierarchy without cycles. Assumed: the immutable hash map is a map, pool accessors and additions (C09, C10), names of types and their spelling (C16), derived equality. Not covered: the choice among overloads and which checks the rest of the type checker makes; for check_and_convert, what the expression is read as (TypeChecker::check) is an uninterpreted relation.")
prop("C22", "A call means the first candidate that takes its arguments, each converted",
     "Among the functions (or, from the object's class up, methods) of the name, a call can mean those with at least as many parameters as it has arguments and no more than that many that must be given; of these it means the first, in order, each of whose parameters the argument given for it converts to, and, if it is a cast and a result of some type is wanted, whose own result converts to that. "
     "If only one takes that many arguments, each argument is read with its parameter's type expected (a whole number where a fractional one is wanted), else as it stands; the call carries every argument once, in order, converted to its parameter's type. "
     "An operation built into the language (comparison for equality, those on arrays, variants, enums and references) takes as many operands as it has, works only on a first operand of its kind, takes each further one converted to the array's element type or to a whole number, as that operation has it, and yields its own type; anything else is an error. "
     "If none fits the call is an error; in permissive mode that error is reported once and the call stands with the first function of the name and the arguments as they are.",
     ["inputs"], "all candidate lists, parameter lists with optional parameters anywhere, argument lists, wanted types",
     "Compiler tests call functions with one or two overloads; which overload wins differs only for more, with conversions, casts or optional parameters among them.",
     ["compiler/src/typechecker.rs", "compiler/src/scope.rs"],
     [("the choice", "compiler/src/typechecker.rs TypeChecker::resolve_overload, validate_call, validate_args"), ("the converted arguments", "compiler/src/typechecker.rs FunctionMatch::new, ArgConversion"), ("built-in operations", "compiler/src/typechecker.rs TypeChecker::check_intrinsic")],
     "Proof for candidate, parameter and argument lists of any length. Assumed: what one argument is read as (TypeChecker::check, an uninterpreted relation, except that it keeps the pool sound), turning an error into a report, flag accessors; the conversions themselves are C21. The type checker owns its pool in the verified text instead of borrowing it.")

na("C90", "Source text is read as the program it spells",
   "Every text is either read as the one program the language gives it, with the usual precedence of operators and each part marked with its place, or rejected with an error at the place where it stops making sense.",
   ["inputs"], "all source texts",
   "Parser tests use a few dozen texts.",
   ["compiler/src/parser.rs"], [("grammar", "compiler/src/parser.rs peg::parser!")],
   "the grammar is a peg macro and the peg crate is not installed: the code it generates, which would have to be verified, does not exist in this sandbox")
na("C91", "Compiling adds what the sources say to the bundle and changes nothing else",
   "A successful compilation adds each declaration of the sources, replaces or wraps the methods annotated so, and leaves every other definition of the bundle as it was; a failed one reports every error and yields no bundle.",
   ["inputs"], "all sources and bundles",
   "Compiler tests cover one construct each.",
   ["compiler/src/unit.rs", "compiler/src/symbol.rs"], [("compilation", "compiler/src/unit.rs CompilationUnit")],
   "the unit cannot be built here (peg, hamt-sync and sequence_trie are not installed), and the guarantee is about the composition with the parser and the type checker's statement rules, for which no contract within reach exists; its parts behind the parser are C17 and C20 to C22")
na("C92", "The game's original bundle is never lost",
   "Whatever the order of runs, game updates, failed compilations and crashes, the backup kept next to the bundle is the game's own latest bundle, and no run takes compiled output for it.",
   ["histories", "crash_points"], "all histories of runs, updates, failures and crashes",
   "Tests run the compiler once or twice without faults.",
   ["scc/lib/src/lib.rs", "scc/lib/src/timestamp.rs"], [("backup protocol", "scc/lib/src/lib.rs try_compile_files")],
   "the library cannot be built here (peg, hamt-sync, fd-lock and others are not installed), and the effects are on files shared with other processes and later runs: a contract would be over a hand-written model of the file system, not over the code")
