#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one source of truth for the texts)."""
import json, os
P = "src/basic/parser/"
MOD, CLS, MET, COD, ANN, DEC = P+"mod.rs", P+"class.rs", P+"method.rs", P+"code.rs", P+"annotation.rs", P+"decode.rs"
CP, TREE, TYP, RES = "src/basic/constpool.rs", "src/basic/tree.rs", "src/types.rs", "src/result.rs"

def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": hook}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    assert len(title) <= 80, title
    return d

NOPARSE = "No test of the repository calls the class parser at all; the unit tests read single integers and one ASCII string."
props = [
p("C01", "Parsing is total: any bytes give a class or an error",
  "For every byte sequence, parsing returns either a class with its constant pool or an error value. It never panics, aborts, overflows an integer (also not in builds that check for it, nor on 32-bit platforms), or keeps running without consuming input.",
  ["inputs", "fault_sequences"], "every byte string: valid class files, every truncation and mutation of one, hostile counts, lengths, tags and switch ranges, random bytes",
  NOPARSE + " Totality is about every malformed input.",
  [MOD, CLS, MET, COD, ANN, DEC, CP], [("bounds-checked reads through one decoder, errors as values", DEC+" Decoder::check/read_bytes"), ("range checks before allocating for a switch table", COD+" opcode 0xAA")],
  ["return of basic::parse", "process exit status", "per-parse logical step counter"]),
p("C02", "Nesting depth of the input cannot exhaust the stack",
  "However deeply annotation element values (arrays and nested annotations) or Code attributes are nested in the input, parsing it, formatting the result with Debug and dropping it complete normally on a thread with a 2 MiB stack: nesting that is too deep is reported as an error. Input nested up to 32 levels is accepted and decoded.",
  ["inputs"], "all nesting shapes (arrays, annotations, mixtures, Code inside Code) and depths up to hundreds of thousands",
  NOPARSE + " A stack overflow needs an input of tens of thousands of nested elements.",
  [ANN, COD, MOD, DEC], [("nesting limit carried by the decoder", DEC+" Decoder"), ("recursion element value <-> annotation and code <-> attributes", ANN+" parse_element_value")],
  ["exit status of a worker that parses on a 2 MiB stack", "return of basic::parse"]),
p("C03", "Memory used by parsing is bounded by the input size, and is given back",
  "At any moment of parsing n bytes, the heap memory requested and not yet freed is at most 32 MiB plus 512 bytes per input byte, whatever counts and lengths the input declares. Once the result or error of a parse is dropped, no memory of that parse remains allocated.",
  ["inputs"], "every input, in particular ones whose declared counts, lengths and switch ranges promise far more data than they hold, and nestings of such tables",
  NOPARSE + " The bound is about adversarial declared sizes.",
  [MOD, CLS, MET, COD, ANN, DEC, CP], [("tables reserve from 16-bit counts, nested ones only as entries are read; 32-bit lengths checked against the remaining input first", DEC+" Decoder::limit"), ("switch tables bounded by the remaining input", COD+" opcode 0xAA")],
  ["global allocator (live and peak bytes per parse)"]),
p("C04", "Every constant pool entry is found at its class file index",
  "After a successful parse, looking up index i returns exactly the constant the class file holds at constant pool index i, with every number bit-for-bit and every reference index unchanged, for all of the 16 constant kinds, also when equal constants occur more than once. Index 0, the second slot of a long or double and every index at or above the declared pool count are reported as invalid, the reported pool length is the declared count, and a long or double in the last slot is rejected.",
  ["inputs"], "all constant pools: every mix and order of kinds, repeated equal entries, longs and doubles anywhere, up to 65534 entries",
  NOPARSE + " Only one hand-made push/get sequence is tested.",
  [MOD, CP], [("one pool slot per class file index, two for long and double", MOD+" read_constant_pool"), ("index to slot mapping", CP+" Pool::get")],
  ["Pool::get / len after basic::parse"], [("by_index", "slot table, index-1 addressed", CP), ("length", "encoded pool count", CP)]),
p("C05", "Modified UTF-8 is decoded exactly, malformed bytes are rejected",
  "Every well-formed modified UTF-8 string in a class file (NUL as two bytes, two and three byte forms, supplementary characters as surrogate pairs of three bytes each) is decoded to exactly the characters it encodes. A string with a truncated sequence, a byte that cannot start one, a continuation byte that is none, or an unpaired surrogate is rejected with the invalid UTF-8 error, never decoded to made-up characters.",
  ["inputs"], "all byte strings up to the encodable length, in constants and in the SourceDebugExtension attribute",
  "One ASCII string is tested; there are 1.1 million code points and all malformed sequences.",
  [DEC, MOD], [("sequence decoder with continuation and surrogate checks", DEC+" Decoder::read_str")],
  ["Item::UTF8 at its index; Attribute::SourceDebugExtension; error of basic::parse"]),
p("C06", "Pushing interns constants and never moves earlier ones",
  "For every sequence of pushes on a pool (new, with capacity, default, or parsed), pushing a constant equal to one already present returns an index that already holds it and leaves the pool unchanged; any other constant gets the next free index, starting at 1 and advancing by two after a long or double. Every index returned earlier keeps returning the same constant, and the reported length is always the next free index.",
  ["histories"], "all sequences of pushes and lookups over all constant kinds, with repetitions, on empty, default, pre-sized and parsed pools",
  "One sequence of five pushes is tested.",
  [CP], [("vector by index and hash map by constant kept in step", CP+" Pool::push")],
  ["Pool::push / get / len / is_empty, after every operation"], [("by_entry", "constant to index", CP), ("by_index", "index to constant", CP)]),
p("C07", "A pool never outgrows 16-bit indices; a failed push changes nothing",
  "A push succeeds whenever the constant is already present or fits within an encoded length of 65535, where a long or double needs two slots, and fails with the pool-too-large error otherwise. A failed push leaves length, contents and iteration unchanged, and the pool keeps working; no push panics or wraps around.",
  ["histories"], "all push histories that reach, touch or straddle the limit, with one- and two-slot constants and with repetitions at the limit",
  "The tests push five items; the limit is at 65535.",
  [CP], [("capacity test before insertion", CP+" Pool::push")], ["Pool::push result, len, get and iter at the limit"],
  [("length", "encoded length, at most 65535", CP)]),
p("C08", "Pool iteration yields each constant once, with its own index",
  "Iterating over a pool yields every constant exactly once, in ascending index order, each paired with the index at which lookup returns that same constant, and nothing for the second slots of longs and doubles. This holds for pools built by pushing and for parsed pools up to the maximum size and however the iterator is consumed, its size hint never promises what does not come, and an exhausted iterator stays exhausted.",
  ["histories", "inputs"], "all pools (pushed and parsed, any mix of one- and two-slot constants, any size)",
  "The assertions on iteration are commented out in the test.",
  [CP], [("running index over the slot table", CP+" PoolIter::next")], ["Pool::iter against Pool::get for all 65536 indices"]),
p("C09", "Typed pool lookups return the right string or name the bad index",
  "For every pool and every 16-bit index, the string lookup returns the text of a UTF-8 constant, the class name lookups return the text the class constant refers to, and the optional class name lookup returns nothing exactly for a class constant whose name index is 0. Every other case is the invalid-constant error carrying the index that failed (the given index if it is not of the wanted kind, else the name index it refers to), without panicking.",
  ["inputs", "histories"], "all pools, including dangling and self-referential class constants, and all 65536 indices",
  "No test calls these lookups.",
  [CP], [("bounds check and kind check per hop", CP+" get/get_utf8/get_class_name/get_class_name_opt")], ["Pool::get_utf8, get_class_name, get_class_name_opt, get"]),
p("C10", "Constant equality is bitwise and agrees with hashing",
  "Two constants are equal exactly if they are of the same kind and have identical contents, floats and doubles compared by bit pattern (so NaNs equal themselves and 0.0 differs from -0.0), and equal constants always hash alike. Constants of different kinds with the same payload, or with swapped fields, are different, and interning them gives different indices.",
  ["inputs"], "all pairs of constants of all kinds, including NaN payloads, signed zeros, swapped fields and clones",
  "Equality is exercised on two values.",
  [CP], [("hand-written Hash and PartialEq", CP+" impl Hash/PartialEq for Item")], ["==, Hash, HashMap/HashSet membership, Pool::push"]),
p("C11", "Class header, fields and methods are reported as in the file",
  "Minor and major version, name, super name, the interfaces, and every field and method with its name, descriptor and attributes are reported with exactly the values of the class file, in file order and with nothing missing, added or swapped. Index values are passed through unchanged, even when they point nowhere, without any validation.",
  ["inputs"], "all class files: any version, any 16-bit index, any number of interfaces, fields and methods",
  NOPARSE, [MOD, TREE], [("sequential reads in class file order", MOD+" parse/parse_fields/parse_methods")], ["fields of Class, Field, Method"]),
p("C12", "Attributes are recognised by name, and unknown ones kept byte for byte",
  "Wherever an attribute list occurs (class, field, method, code), it is reported in file order with one entry per attribute; each of the predefined attributes of the Java SE 9 specification is reported as its own kind, decided by the exact name its name index refers to. Any other name gives an unknown attribute with that name index and exactly its bytes; a name index that is no string is an invalid-constant error with that index.",
  ["inputs"], "all attribute lists: every predefined name, near misses of the names, several constants with the same name, empty to very large unknown contents, any order and nesting",
  NOPARSE, [MOD, TREE], [("dispatch on the attribute's name constant", MOD+" parse_attributes")], ["Attribute variants in Class/Field/Method/Code, in order"]),
p("C13", "Every bytecode instruction is decoded to its meaning with exact operands",
  "For every defined opcode, including all wide forms and both switches at every alignment, the reported instruction is the one the Java specification assigns, with its immediate operands decoded at the right width, sign and order; narrow and wide encodings of the same instruction give the same kind. Undefined opcodes, undefined wide forms, undefined array types and table switches with low greater than high are rejected.",
  ["inputs", "programs"], "all opcodes x operands x code positions; table and lookup switches of any size and range",
  NOPARSE, [COD, TREE], [("opcode table and operand reads", COD+" parse_instruction")], ["values of Attribute::Code.instructions"]),
p("C14", "Instructions sit at their code offsets and tile the code exactly",
  "The instructions of a Code attribute are keyed by their offset from the start of that code, and these keys are exactly the instruction starts when the code is walked from 0, with no gap, overlap or leftover. Maximum stack, maximum locals, the exception table (in order) and the nested attributes are reported as in the file, and code that is empty or whose last instruction passes its end is rejected.",
  ["inputs", "programs"], "all instruction sequences, code lengths (also above 65535) and positions of the code in the file, any exception table",
  NOPARSE, [COD], [("walk of the code under a length limit", COD+" parse_code")], ["keys of Attribute::Code.instructions; max_stack, max_locals, exceptions, attributes"]),
p("C15", "Stack map frames are decoded exactly for every frame type",
  "Every frame of a StackMapTable is reported in order with its kind, offset delta, chop count, and the locals and stack verification types in order with their operands, as the specification assigns to each of the 256 frame type bytes. Reserved frame types and undefined verification types are rejected with errors naming the offending byte.",
  ["inputs"], "all frame types, verification types, deltas and list sizes",
  NOPARSE, [MET, TREE], [("frame type ranges and verification tags", MET+" parse_stack_map_table/parse_verification_type")], ["Attribute::StackMapTable"]),
p("C16", "Annotations and element values are decoded exactly",
  "Annotations, parameter annotations and annotation defaults, visible and invisible, are reported with their type indices, element name/value pairs and element values of all 13 tags, nested annotations and arrays included, in file order and with unchanged indices. An undefined element tag is rejected with an error naming it.",
  ["inputs"], "all annotation trees up to the accepted nesting depth, any counts",
  NOPARSE, [ANN, MOD, TREE], [("recursive descent over element values", ANN+" parse_element_value/parse_annotation")], ["Runtime(In)Visible(Parameter)Annotations and AnnotationDefault attributes"]),
p("C17", "Type annotations are decoded exactly",
  "Type annotations, visible and invisible, are reported with the target kind the specification assigns to each of the 22 target type bytes and its operands at their specified widths (the local variable table of a variable target included), the type path elements in order, and the annotation itself. Undefined target types and path kinds are rejected with the respective error.",
  ["inputs"], "all target types, operands, table and path lengths",
  NOPARSE, [ANN, TREE], [("target type table and type path", ANN+" parse_target_type/parse_local_variable/parse_type_path")], ["Runtime(In)VisibleTypeAnnotations attributes"]),
p("C18", "Method and debug tables are decoded exactly",
  "LineNumberTable, LocalVariableTable, LocalVariableTypeTable, MethodParameters, Exceptions, ConstantValue, Signature, SourceFile and SourceDebugExtension are reported with every entry, in order and every field unchanged, for all sizes the format allows (the MethodParameters count being one byte).",
  ["inputs"], "all contents and sizes of these tables, up to 65535 entries",
  NOPARSE, [MET, MOD, TREE], [("sequential table reads", MET)], ["the corresponding Attribute variants"]),
p("C19", "Class-level and module attributes are decoded exactly",
  "InnerClasses, EnclosingMethod, BootstrapMethods, Module (requires, exports, opens, uses, provides with their target lists), ModulePackages and ModuleMainClass are reported with every entry, in order and every index and flag unchanged.",
  ["inputs"], "all contents and sizes of these tables",
  NOPARSE, [CLS, MOD, TREE], [("sequential table reads", CLS)], ["the corresponding Attribute variants"]),
p("C20", "An attribute is decoded within its declared length, exactly",
  "A predefined attribute whose contents would need more or fewer bytes than its declared length is rejected, at every nesting level and also when further bytes follow in the file; nothing decoded for one attribute ever comes from bytes of another. A length that reaches past its enclosing attribute or the file is rejected.",
  ["inputs"], "every attribute kind x every wrong length (shorter, longer, zero, huge), nested in code or not, first, middle or last in its list",
  NOPARSE, [MOD, DEC, COD], [("nested limits: limit before, exact-end check after each attribute", DEC+" Decoder::limit/remove_limit")], ["return of basic::parse"]),
p("C21", "A truncated class file is never accepted",
  "Every strict prefix of a class file that parses is rejected with the end-of-input/limit error, at whatever byte it is cut. A parse never returns a partly filled class.",
  ["inputs", "crash_points"], "every cut position of every valid class file",
  NOPARSE + " Cuts fall at every byte of every structure.",
  [DEC, MOD], [("every read checked against the limit", DEC+" Decoder::check")], ["return of basic::parse on all prefixes"]),
p("C22", "A malformed spot gives the error that describes it",
  "If a class file is valid except for one malformed spot, parsing reports the error kind for that defect with the exact offending data: not a class (magic), invalid constant (its constant pool index, for an unknown tag or method handle kind, or the index used as attribute name), invalid instruction (its opcode, or the wide or newarray opcode, and its code offset), stack map frame type, verification type, element tag, target type, type path, or invalid UTF-8.",
  ["inputs", "fault_sequences"], "every valid class file x every single-spot corruption of those kinds",
  NOPARSE, [MOD, COD, MET, ANN, RES], [("error constructors at each decode site", RES)], ["Err value of basic::parse"]),
p("C23", "Access flags keep every bit and mean what the specification says",
  "Wherever access flags occur (class, field, method, inner class, method parameter, module and its requires, exports and opens), the reported flags have exactly the 16 bits of the file. Each named flag corresponds to the mask the Java specification gives it (module and mandated are 0x8000), so testing for a flag is true exactly if that bit is set.",
  ["inputs"], "all 65536 flag values at all places",
  NOPARSE, [TREE, MOD, CLS, MET], [("bitflags constants and truncating construction", TREE+" AccessFlags")], ["AccessFlags::bits/contains in the parsed tree; the constants"]),
p("C24", "Exactly the valid type descriptors parse, to the right type",
  "A string parses as a type descriptor exactly if it is 0 to 255 '[' followed by one of B C D F I J S Z, or by 'L', a non-empty name without ';', and one final ';'. The result has that number of dimensions, that base type and exactly that name; everything else is rejected.",
  ["inputs"], "all Unicode strings", "About a dozen examples are tested out of all strings.",
  [TYP], [("character loop", TYP+" TypeDescriptor::from_str")], ["str::parse::<TypeDescriptor>"]),
p("C25", "Exactly the valid method descriptors parse, to the right signature",
  "A string parses as a method descriptor exactly if it is '(', at most 255 type descriptors, ')', and a type descriptor or 'V', with nothing before or after. The parameters and return type are reported in order, each equal to what parsing that part alone as a type descriptor gives, and 'V' gives no return type.",
  ["inputs"], "all Unicode strings", "About two dozen examples are tested out of all strings.",
  [TYP], [("two-state character loop", TYP+" MethodDescriptor::from_str")], ["str::parse::<MethodDescriptor>"]),
p("C26", "Descriptors format back to exactly what was parsed",
  "Formatting any successfully parsed type or method descriptor gives back the parsed string, character for character. Conversely, formatting any descriptor value that has valid contents (non-empty names without ';', at most 255 parameters) and parsing the text gives an equal value, and unequal values format differently.",
  ["inputs"], "all descriptor values and all accepted strings", "Two format examples per type are tested.",
  [TYP], [("Display implementations", TYP+" fmt::Display")], ["to_string, parse"]),
p("C27", "Descriptor errors are values that identify the input",
  "Parsing any string as a type or method descriptor terminates without panicking, and every rejection is the invalid-descriptor error, which carries the given string unchanged and a position not beyond its end.",
  ["inputs"], "all Unicode strings, including non-ASCII, empty and very long ones", "The tests only check that an error occurs, on ASCII strings.",
  [TYP, RES], [("err! macro and saturating capacity computation", TYP)], ["Err value of str::parse"]),
p("C28", "The result depends only on the class file's bytes",
  "Parsing the same bytes always gives the same outcome: again and again in one process, after or before parsing other inputs (also failing ones), from any position in memory, on any thread and while other threads parse, and on platforms of another word size or byte order. Bytes that follow the class file in the buffer do not change what is reported for it if the parse succeeds.",
  ["inputs", "histories", "schedules"], "all inputs x all histories of earlier parses x all interleavings of concurrent parses",
  NOPARSE + " No test runs two parses.",
  [MOD, DEC, CP], [("no global state: decoder, pool and tree are created per call", MOD+" parse")], ["digest of the parse outcome per call, thread and buffer"]),
p("C29", "No undefined behaviour or memory error in any use of the library",
  "Parsing any bytes, inspecting, printing and dropping the results, building and querying pools, and parsing and formatting descriptors never perform an out-of-bounds or use-after-free access, read uninitialised memory, or otherwise have undefined behaviour, and never race when used from several threads.",
  ["inputs", "schedules", "histories"], "all inputs and API call sequences, valid and malformed",
  "The tests run without any checker and do not reach the parser.",
  [MOD, CLS, MET, COD, ANN, DEC, CP, TYP], [("safe Rust, checked slicing", DEC+" read_bytes")], ["AddressSanitizer, ThreadSanitizer and Miri reports"]),
p("C30", "The work of parsing is linear in the input size",
  "Parsing n bytes takes a number of executed steps bounded by a constant times n plus a constant, whatever the input contains: no count, length, nesting, repeated name or table size makes the time grow faster than the input. The same holds for pushing n constants and for parsing and formatting descriptors of length n.",
  ["inputs"], "families of inputs of every structure scaled up by powers of two, valid and hostile",
  NOPARSE, [MOD, CP, TYP, DEC], [("single pass over the input, hashed interning", MOD)], ["executed instructions per input byte (callgrind), logical step counters"]),
]
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for d in props:
            f.write(json.dumps(d) + "\n")
    print(len(props), "properties")
