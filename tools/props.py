#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
RT="crates/zserio/src/"; Z=RT+"ztype/"; AT=Z+"array_traits/"
G="crates/zserio-rs-build/src/internal/generator/"; C="crates/zserio-rs-build/src/internal/compiler/"; A="crates/zserio-rs-build/src/internal/ast/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Variable-length integers: one exact encoding, exact round trip",
"Writing any representable value of varint16/32/64, varint, varuint16/32/64, varuint or varsize at any bit position produces exactly the byte sequence the zserio specification prescribes (including the one-byte special code for the smallest varint), the predicted size is that sequence's size, and reading it back yields the same value and consumes exactly those bits. A value outside the type's range, and an encoded varsize outside the type's range, is reported as an error; it never panics and is never altered silently.",
["inputs","histories"],"every value of every length class of all nine types, at each of the 8 bit positions, alone and between neighbours",
"Nine types with 2-9 byte classes, a last byte with a different payload width and a sign bit: the classes' boundaries times bit positions times neighbours cannot be sampled by a handful of cases.",
[Z+"varint_encode.rs",Z+"varint_decode.rs",Z+"varuint_encode.rs",Z+"varuint_decode.rs",Z+"varint_bitsize.rs",Z+"varuint_bitsize.rs",Z+"limits.rs"],
[("signed variable-length writer/reader",Z+"varint_encode.rs, varint_decode.rs"),("unsigned variable-length writer/reader",Z+"varuint_encode.rs, varuint_decode.rs"),("size prediction",Z+"varint_bitsize.rs, varuint_bitsize.rs")],
["zserio::ztype::{write,read}_var*","zserio::ztype::*_bitsize"])

p("C02","Fixed-width integers, booleans and floats are bit-exact everywhere",
"For every width 1..64, writing a signed or unsigned value that fits the width, a fixed-size integer, a boolean or a float16/32/64 at any bit position emits exactly the big-endian two's-complement (or IEEE-754) bit pattern, does not disturb neighbouring bits, and reading it back yields the same value and consumes exactly that many bits. This holds for every bit pattern of a float32 or float64, and for every float16 including infinities, signed zeros and subnormals (a float16 NaN stays a NaN); a single-precision value that is not exactly representable as float16 is rounded to nearest even.",
["inputs","histories"],"all widths x boundary/power-of-two/exhaustive 16-bit values x all bit positions x neighbour patterns",
"Tests exercise a few byte-aligned values; the guarantee ranges over widths x values x positions, where off-by-one, sign-extension and cross-byte errors live.",
[Z+"bits_encode.rs",Z+"bits_decode.rs",Z+"float_encode.rs",Z+"float_decode.rs",Z+"writer.rs",Z+"reader.rs",RT+"vendor.rs"],
[("bit-level integer IO",Z+"bits_encode.rs, bits_decode.rs"),("float IO",Z+"float_encode.rs, float_decode.rs")],
["zserio::ztype::{read,write}_*"])

p("C03","Strings, byte buffers and extern blobs are length-exact and lossless",
"Writing a string, byte buffer or bit buffer of any length at any bit position emits exactly its varsize length followed by exactly its payload bits, and reading it back gives the same content and consumes exactly those bits, for empty content, every length-prefix boundary and every trailing-bit count. Malformed content (invalid UTF-8, a declared length beyond the data) is an error, and writing a buffer whose declared length disagrees with its data is an error rather than a panic or a corrupt stream.",
["inputs","histories"],"all lengths 0..600 and around each varsize prefix boundary, all bit sizes mod 8, all bit positions",
"Length prefixes change size at 128 / 16384 and extern blobs end in 1-7 stray bits: failures need a specific length, trailing-bit count and position.",
[Z+"string_encode.rs",Z+"string_decode.rs",Z+"bytes_type.rs",Z+"extern_type.rs",Z+"reader.rs",Z+"writer.rs"],
[("string IO",Z+"string_encode.rs, string_decode.rs"),("bytes IO",Z+"bytes_type.rs"),("extern IO",Z+"extern_type.rs")],
["zserio::ztype::{read,write}_{string,bytes_type,extern_type}"])

p("C04","Predicted bit size equals the bits actually written",
"For every value of every type - primitives, buffers, plain, fixed-size, aligned and packed arrays, and generated structures, choices, unions, enums and bitmasks - and for every start position, the predicted bit size equals the number of bits the encoder then writes from that position. It also equals the number of bits the decoder consumes.",
["inputs","configurations"],"all values of the bounded value sets x all start positions 0..7 (0..63 with alignment) x packed/unpacked",
"Size prediction is a second, parallel implementation of the encoder that must agree with it for every value and every start position; extern blobs built from objects depend on it.",
[Z+"array.rs",AT+"delta_context.rs",AT+"string_array_trait.rs",G+"bitsize.rs",Z+"varuint_bitsize.rs",Z+"varint_bitsize.rs"],
[("array size prediction",Z+"array.rs zserio_bitsize"),("generated size prediction",G+"bitsize.rs"),("packed size prediction",AT+"delta_context.rs")],
["zserio_bitsize / zserio_bitsize_packed vs. BitWriter::bit_count"])

p("C05","Packed arrays of scalars are lossless",
"For every packable element type (fixed-width integers of every width, all variable-length integers) and every sequence of representable elements, writing the packed array and reading it back yields the same sequence and consumes exactly the bits written, whatever the deltas are - zero, sign changes, the full 64-bit range, or deltas too wide to pack. An array of elements that cannot be delta-compressed (booleans, floats, strings, buffers) declared packed round-trips as well.",
["inputs","histories"],"all element sequences up to a bounded length over boundary alphabets for every element type and width; all lengths 0..600",
"Delta packing is stateful: each element is coded relative to its predecessor under a width chosen from the whole sequence, so correctness quantifies over sequences and their extreme differences.",
[AT+"delta_context.rs",Z+"array.rs",AT+"bit_field_array_trait.rs",AT+"unsigned_bit_field_array_trait.rs"],
[("delta context",AT+"delta_context.rs"),("array driver",Z+"array.rs")],
["Array::zserio_write / zserio_read with is_packed"],[("delta context","previous element, chosen delta width, packed flag",AT+"delta_context.rs")])

p("C06","Packed arrays produce the reference zserio wire format",
"For every sequence of integers, the packed array's bits equal those the zserio reference implementation produces: the packed flag, the 6-bit delta width chosen from the largest absolute difference, the first element in full and then signed deltas - or the unpacked form when packing does not pay off or a difference needs more than 62 bits. A stream produced that way by another zserio implementation is decoded to the original sequence even where this encoder would have chosen a different form.",
["inputs","histories"],"all sequences up to a bounded length over boundary alphabets, all widths; all legal packed/unpacked descriptor forms on decoding",
"The decision depends on every element (largest delta, total size comparison with >=): off-by-one in the threshold or in the element count shows only for particular sequence/width combinations and still round-trips.",
[AT+"delta_context.rs",Z+"array.rs",RT+"numbits.rs"],
[("packing decision",AT+"delta_context.rs finish_init"),("delta width",RT+"numbits.rs bit_length")],
["Array::zserio_write bytes compared with reference model (validated against the zserio reference compiler)"],[("delta context","packing state machine: init, descriptor, deltas",AT+"delta_context.rs")])

p("C07","Decoding arbitrary bytes never panics and always terminates",
"Decoding any byte sequence as any type - primitives, strings, buffers, plain and packed arrays, and generated structures, choices, unions, enums and bitmasks - either yields a value or returns an error. It never panics, overflows or loops.",
["inputs"],"all byte strings up to a bounded length and all single-byte/two-byte corruptions and all truncations of valid encodings",
"Input comes from untrusted files; a panic needs a specific malformed field (unknown selector, truncated descriptor, overflowing delta) at a specific place that no valid-data test produces.",
[Z+"string_decode.rs",Z+"extern_type.rs",AT+"delta_context.rs",G+"decode.rs",G+"zunion.rs",G+"zenum.rs",Z+"varuint_decode.rs",Z+"varint_decode.rs"],
[("primitive readers",Z),("packed descriptor reader",AT+"delta_context.rs"),("generated readers",G+"decode.rs, zunion.rs, zenum.rs, zchoice.rs")],
["from_bytes / zserio_read / ztype::read_* under catch_unwind"])

p("C08","Hostile lengths cannot exhaust memory; the allocation cap changes nothing else",
"Before any element data has been read, decoding a stream that claims an arbitrarily large array, string or buffer length reserves no more memory than the configured allocation cap permits (a cap of 0 reserves nothing in advance), and ends in an error when the data runs out. The cap setting is observable as last set, and changing it - at any time, including while a decode is in progress - never changes any decoding result.",
["inputs","configurations","schedules"],"all cap settings around each array length x all array lengths 0..2100 x all interleavings of cap changes with element reads; hostile lengths at every prefix class",
"Needs allocation measurement under adversarial lengths for every cap and every point where the cap may change; a unit test checks one cap and one length.",
[Z+"array.rs",Z+"string_decode.rs",Z+"reader.rs",G+"array.rs",G+"decode.rs"],
[("allocation cap",Z+"array.rs set_array_alloc_chunk"),("availability check",Z+"reader.rs, string_decode.rs")],
["counting global allocator around zserio_read; decoded value"],[("allocation cap","process-wide atomic read at the start of each array decode",Z+"array.rs")])

p("C09","Decoding consumes exactly the encoding; every truncation is an error",
"Decoding an encoded value from a longer stream consumes exactly the bits that were written and is unaffected by what follows. Decoding any strict prefix (cut at any byte that removes at least one encoded bit) returns an error instead of a value, for primitives, arrays and generated types alike.",
["inputs","crash_points"],"every cut point of every encoding in the bounded value sets; every trailing-byte pattern",
"A partially written file is cut at an arbitrary byte; the property quantifies over all cut points of all encodings.",
[RT+"lib.rs",Z+"bits_decode.rs",Z+"reader.rs",Z+"string_decode.rs",Z+"extern_type.rs",Z+"array.rs",AT+"delta_context.rs",G+"decode.rs"],
[("reader bounds",Z+"bits_decode.rs, reader.rs"),("entry points",RT+"lib.rs")],
["from_bytes on prefixes; BitReader::position after decode"])

p("C10","All encode/decode entry points agree under every I/O behaviour",
"Serialising to memory and to any writer produces the same bytes, and deserialising from memory, from any reader and from a file gives the same result, however the writer or reader splits the transfer into partial or interrupted operations. An I/O error at any point is reported as an error: no truncated output is reported as success and no value is returned from an incomplete read.",
["fault_sequences","schedules","inputs"],"all sequences of short / interrupted / failing reads and writes over encodings of bounded length",
"The environment may answer each read or write in many ways; only exhaustive enumeration of the answers covers the partial-write/interrupted/error combinations.",
[RT+"lib.rs",RT+"error.rs"],
[("entry points",RT+"lib.rs to_bytes/to_writer/from_bytes/from_reader/from_file"),("error conversion",RT+"error.rs")],
["zserio::{to_bytes,to_writer,from_bytes,from_reader,from_file}"])

p("C11","The encoder refuses values the wire format cannot represent",
"Encoding a value that its declared type cannot represent - an integer outside a bit field's or variable-length type's range, a wrong element count for a fixed-size array - is refused instead of silently writing different data: whatever the encoder accepts decodes to the same value. Outside packed arrays the refusal of an integer that does not fit its bit field or variable-length type is a returned error.",
["inputs"],"for every width and variable-length type, all values just inside and outside the range, alone, in arrays, packed arrays and generated fields; all fixed lengths n x actual lengths m",
"Silent truncation corrupts data without any failing call; it shows only for values just outside the range of a particular width.",
[Z+"bits_encode.rs",Z+"varuint_encode.rs",Z+"varint_encode.rs",Z+"array.rs",G+"encode.rs"],
[("range checks",Z+"bits_encode.rs, varuint_encode.rs, varint_encode.rs"),("fixed length check",Z+"array.rs")],
["Result of zserio_write / ztype::write_*; re-decoded value"])

p("C12","Generated types write the reference wire format and round-trip",
"For every structure built from scalar fields, bit fields (including expression-sized ones), strings, buffers, nested types, subtypes and arrays (plain, fixed-size, implicit or packed), encoding any value at any start position yields exactly the bits the zserio specification prescribes, in declaration order, and decoding them yields an equal value consuming exactly those bits.",
["programs","inputs"],"all field types and all ordered pairs of field types x bounded value sets x all start positions",
"The generator has one code path per type/array/optional/packed combination in each of encode, decode and size functions; agreement with the wire format must hold for every schema, not a few samples.",
[G+"encode.rs",G+"decode.rs",G+"array.rs",G+"types.rs",G+"zstruct.rs",G+"casts.rs"],
[("field encoder",G+"encode.rs"),("field decoder",G+"decode.rs"),("type mapping",G+"types.rs, array.rs")],
["generated zserio_write/zserio_read vs. reference model over the schema"])

p("C13","Optional and conditional fields are present exactly when they should be",
"An optional field is preceded by one presence bit and stored iff it is set; a field with an if-condition (auto-optional or with an explicit expression) is stored iff its condition holds for the values decoded before it, with no presence bit; absent fields occupy no bits and decode as absent. This holds for every combination of presences, conditions and field types, including arrays, nested types and packed arrays.",
["programs","inputs"],"all subsets of present fields x all condition truth values x field type alphabet x start positions",
"Presence interacts with conditions, alignment, arrays and packing contexts; tests check single fields, not all subsets.",
[G+"encode.rs",G+"decode.rs",G+"bitsize.rs",G+"packed_contexts.rs",G+"expression.rs"],
[("optional handling",G+"encode.rs, decode.rs, bitsize.rs")],
["generated zserio_write/zserio_read vs. reference model"])

p("C14","Choices and unions carry exactly the selected member",
"A choice stores exactly the member its selector value names - including several labels for one case, cases without content, enum, bitmask, boolean and integer selectors, and the default case - and nothing else; a union stores its selector as a varsize followed by exactly the selected member. Decoding restores the same selection and content, and a selector naming no member is reported instead of silently decoding something else.",
["programs","inputs"],"all selector values (named and unnamed) x all members x value sets x start positions, plain and packed",
"Every selector value must map to its member on four separate generated paths (write, read, size, packing); an error in one label or in the default shows only for that selector.",
[G+"zchoice.rs",G+"zunion.rs",A+"zchoice.rs",A+"zunion.rs","crates/zserio-rs-build/src/internal/visitor.rs"],
[("choice codec",G+"zchoice.rs"),("union codec",G+"zunion.rs"),("choice parsing","crates/zserio-rs-build/src/internal/visitor.rs")],
["generated choice/union types"])

p("C15","Alignment and offset positions are honoured at every start position",
"A field with an alignment or offset starts at the next multiple of its alignment measured from the start of the stream, padding bits are zero on writing and skipped on reading whatever they hold, and each element of an indexed-offset array starts on a byte boundary. Encoder, decoder and size prediction agree on every position for every preceding bit length.",
["programs","inputs"],"all alignments 1..64 x all preceding bit lengths 0..63 x field kinds (scalar, optional, array, nested)",
"Padding depends on the running bit position, so each error shows only for particular residues of what precedes it.",
[Z+"alignment.rs",Z+"bit_alignment.rs",Z+"array.rs",G+"index_offsets.rs",G+"encode.rs",G+"decode.rs",G+"bitsize.rs"],
[("alignment",Z+"alignment.rs, bit_alignment.rs"),("indexed offsets",Z+"array.rs, "+G+"index_offsets.rs")],
["bit positions of fields in the encoded stream vs. model"])

p("C16","Schema expressions evaluate as zserio defines",
"Every expression in a schema - conditions, functions, array lengths, bit-field widths, selector and argument expressions - evaluates to the value zserio's operator semantics define: the same precedence and associativity, ternary, comparison, logical, bitwise, shift and arithmetic operators, length, value, bit-count and bit-test operators. This holds for every operand value for which the zserio result is defined.",
["programs","inputs"],"all expression trees up to a bounded depth over all operators x operand alphabets",
"Expressions are re-emitted as text in another language with other precedence and typing rules; an error needs a specific operator combination or operand.",
[G+"expression.rs",G+"function.rs",A+"expression.rs",A+"evaluate_mixing_native_types.rs","crates/zserio-rs-build/src/internal/visitor.rs",RT+"numbits.rs"],
[("expression emission",G+"expression.rs"),("constant evaluation",A+"expression.rs"),("numbits",RT+"numbits.rs")],
["results of generated functions and constants vs. reference evaluator"])

p("C17","Enums, bitmasks and constants keep their declared values on the wire",
"Every enum item, bitmask flag and constant has exactly the value its declaration prescribes - explicit, expression-valued, or continuing from the previous item - and an enum or bitmask is stored as exactly that value in its declared underlying type. Every item and every combination of flags round-trips, and a stored value that is no enum item is an error.",
["programs","inputs"],"all underlying types x all explicit/implicit value patterns up to 4 items x all items, flag combinations and unnamed values",
"Implicit numbering, per-type storage and item lookup have one path per underlying type; errors need a particular mixture of explicit and implicit values.",
[G+"zenum.rs",G+"zbitmask.rs",G+"zconst.rs",A+"zenum.rs",A+"zbitmask.rs",A+"zconst.rs"],
[("enum values",A+"zenum.rs, "+G+"zenum.rs"),("bitmask values",A+"zbitmask.rs, "+G+"zbitmask.rs"),("constants",A+"zconst.rs, "+G+"zconst.rs")],
["generated enum/bitmask/const items and their encodings"])

p("C18","Code generation is a function of the schema only",
"Compiling the same schema files always produces byte-identical output, whatever order the file system lists them in, whatever an earlier run left in the output files and however often the compiler is run. White space, line ends and comments in a schema (other than documentation comments) have no influence on the generated code. Reordering imports or type declarations that do not depend on each other changes neither the set of generated items nor any type's wire format.",
["configurations","schedules"],"all creation orders of the files, all permutations of imports and of declarations of a bounded schema, all layouts of its tokens, repeated runs",
"The compiler keeps packages and symbols in randomly seeded hash maps and walks directories in file-system order; a single compile in a test sees one order.",
["crates/zserio-rs-build/src/internal/model.rs",C+"symbol_scope.rs",C+"template_instantiation.rs",G+"model.rs",G+"package.rs",G+"mod_file.rs"],
[("package map","crates/zserio-rs-build/src/internal/model.rs"),("emission order",G+"package.rs, mod_file.rs")],
["bytes of the generated tree"],[("package/symbol maps","hash maps whose iteration order is random per process","crates/zserio-rs-build/src/internal/model.rs")])

p("C19","Every type name resolves to the declaration zserio scoping selects",
"A type reference - simple, imported by package, imported by symbol, or fully qualified - resolves to the declaration that zserio's scoping rules select, also when several packages declare the same name, when names are shared between packages that are not imported, and through chains of subtypes. The generated types of different packages never get mixed up on the wire, and the generated code refers to its own items correctly wherever it is placed: as a module, as a nested module or as a crate of its own.",
["programs","configurations"],"all placements of same-named types over up to 3 packages x all import forms x reference forms",
"Resolution depends on the whole configuration of packages and imports; tests cover a couple of layouts.",
[C+"symbol_scope.rs",C+"resolve_types.rs",C+"fundamental_type.rs",G+"types.rs",G+"package.rs"],
[("symbol lookup",C+"symbol_scope.rs"),("type resolution",C+"resolve_types.rs, fundamental_type.rs")],
["wire format of generated types that reference the name"])

p("C20","A template instantiation behaves like the type written out by hand",
"Instantiating a template with any arguments - built-in types of any width, structures, enums, arrays of the parameter, nested and repeated instantiations, explicit instantiate directives, choices and unions - gives a type whose encoding, decoding and size are those of the same type with the arguments substituted by hand. Different arguments never share one instantiation.",
["programs","inputs"],"all argument types x template shapes (struct/choice/union, nesting depth 2, repeated, instantiate-named) x value sets",
"Substitution has to reach every place a parameter can occur; a missed place or a name collision needs a specific shape/argument pair.",
[C+"template_instantiation.rs",G+"types.rs"],
[("template instantiation",C+"template_instantiation.rs")],
["generated instantiations vs. reference model of the substituted type"])

p("C21","Type parameters reach every nested element, on reading and on writing",
"A parameterised type sees exactly the argument values its user passes - fields, constants, expressions over earlier fields, the user's own parameters, and the element index in arrays - whether it is a single field, optional, an array element or a packed array element, on every level of nesting. Decoding sets the parameters before it reads anything that depends on them, and the decoded value equals the encoded one.",
["programs","inputs"],"all argument forms x container forms (single, optional, array, packed) x nesting depth up to 3 x values",
"Parameters are passed by separately generated code for each container form; a missed or late assignment only shows when the value differs from the default and matters on the wire.",
[G+"pass_parameters.rs",G+"decode.rs",G+"array.rs",G+"encode.rs"],
[("parameter passing",G+"pass_parameters.rs"),("parametrised array decoding",Z+"array.rs read_one_element, "+G+"decode.rs")],
["decoded nested values and their parameter fields"])

p("C22","Decoding into a used object gives the same result as into a fresh one",
"Decoding a stream into an object that already holds any other value of its type - set by hand or by an earlier successful or failed decode - leaves it equal to decoding the same stream into a new object. No absent optional field, unselected member or array element of the earlier value survives.",
["histories","inputs"],"all ordered pairs of values (previous, next) of each type in the bounded sets, and previous failed decodes at every cut point",
"State left over from an earlier decode is invisible to tests that decode into fresh objects.",
[G+"decode.rs",G+"zchoice.rs",G+"zunion.rs",Z+"array.rs"],
[("generated readers",G+"decode.rs, zchoice.rs, zunion.rs"),("array reader",Z+"array.rs data.clear")],
["zserio_read on a previously used object"],[("decoded object","fields set by an earlier decode",G+"decode.rs")])

p("C23","Packed arrays of compound types are lossless and interoperable",
"A packed array of structures, choices, unions, enums or bitmasks - nested to any depth, with optional, conditional and non-packable fields and inner arrays - writes exactly the bits the zserio reference implementation writes and decodes them to an equal value. Each packable leaf field is delta-coded against the previous element that stored that field, and all other fields are stored unpacked.",
["programs","histories","inputs"],"all element sequences up to length 3 over bounded element alphabets for every compound shape",
"Each leaf has its own stateful delta context in a tree that writer, reader, size and initialisation must walk identically; an element that skips a field desynchronises it only in particular sequences.",
[G+"packed_contexts.rs",G+"encode.rs",G+"decode.rs",G+"zchoice.rs",G+"zunion.rs",AT+"object_array_trait.rs",AT+"packing_context_node.rs"],
[("context tree",G+"packed_contexts.rs, "+AT+"packing_context_node.rs"),("packed element codec",AT+"object_array_trait.rs")],
["packed arrays of generated types vs. reference model (validated against the zserio reference compiler)"],[("packing context tree","one delta context per packable leaf",AT+"packing_context_node.rs")])

p("C24","Malformed schemas are refused, never compiled into something else",
"A file that is not in the zserio grammar, wherever the error is, makes the compiler fail instead of generating code for a part of it. So do two declarations of one name in a package, two members or parameters of one name in a type, a reference to a type, value, member, package or imported symbol that is not declared, a name that two imports make ambiguous, and a wrong number of type arguments or template arguments: either the compiler or the Rust compiler reports them. The same schemas without the mistake are accepted.",
["programs","inputs"],"all texts one token or character edit away from schemas that use every rule of the grammar; every kind of declaration, reference and argument list x every mistake of these classes",
"What is skipped, overwritten or resolved to something else leaves no trace but wrong generated code; tests feed well-formed schemas only.",
["crates/zserio-rs-build/src/internal/model/package.rs","crates/zserio-rs-build/src/internal/model.rs","crates/zserio-rs-build/src/internal/visitor.rs",C+"symbol_scope.rs",C+"resolve_types.rs",C+"template_instantiation.rs",A+"expression.rs",A+"field.rs"],
[("parsing","crates/zserio-rs-build/src/internal/model/package.rs, visitor.rs"),("names",C+"symbol_scope.rs, resolve_types.rs, "+A+"expression.rs"),("arguments",A+"field.rs, "+C+"template_instantiation.rs")],
["exit status of the compiler, and of rustc on what it generated"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P),"properties")
