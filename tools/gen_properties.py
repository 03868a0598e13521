#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so the wording stays reviewable)."""
import json, os
Z='crates/zserio/src/'; B='crates/zserio-rs-build/src/'
P=[]
def p(id,title,statement,over,q,why,files,mech,observe=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":q},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],
                 "observe_at":observe or [],"hook_needed":None}})
p("W01","Scalar codecs return the value that was written",
  "For every integer, boolean and floating-point zserio type, decoding the bits its encoder produced yields the encoded value again (float16: the value rounded to half precision) and consumes exactly those bits, at any bit position of the stream. This holds for the whole value range of the type, including its extremes and, for the variable-length types, every length.",
  ["inputs"],"every value of every scalar type, every starting bit offset",
  "Tests decode a handful of constants; value ranges are up to 2^64 and the length-dependent bit layouts change at boundaries the tests do not visit.",
  [Z+"ztype/"+f for f in ("varint_encode.rs","varint_decode.rs","varuint_encode.rs","varuint_decode.rs","bits_encode.rs","bits_decode.rs","float_encode.rs","float_decode.rs")],
  [("write/read pairs","ztype::write_*/read_*"),("shared byte loops","write_varint_type/write_varuint_type, read_sized_int/read_sized_uint")],["bytes produced","value returned","reader position"])
p("W02","Scalar encodings are bit-exact zserio",
  "The bits produced for a scalar are the ones the zserio specification prescribes, so data is exchangeable with other zserio implementations: fixed-width integers are big-endian two's complement of the declared width, variable-length integers use the fewest bytes that can hold the value, sign and continuation flags in the leading bits, seven payload bits per byte and eight in the last byte of a full-length encoding. Floats are IEEE big-endian of the declared width, booleans one bit.",
  ["inputs"],"every value of every scalar type",
  "The reference-implementation comparison covers a few values; a symmetric encoder/decoder change passes every round-trip test.",
  [Z+"ztype/"+f for f in ("varint_encode.rs","varuint_encode.rs","varint_decode.rs","varuint_decode.rs","varint_bitsize.rs","varuint_bitsize.rs","bits_encode.rs","float_encode.rs")],
  [("length selection","signed_bitsize/unsigned_bitsize"),("byte assembly","write_varint_type/write_varuint_type")],["bytes produced"])
p("W03","Scalar size functions count exactly the bits written",
  "For every encodable value, the bit-size function of a scalar, string, byte-block or extern type returns exactly the number of bits its encoder appends, and it fails for exactly the variable-length integer values the encoder rejects.",
  ["inputs"],"every value of every scalar, string, bytes and extern type",
  "Sizes are only compared on sampled values; boundary lengths are not enumerated.",
  [Z+"ztype/"+f for f in ("varint_bitsize.rs","varuint_bitsize.rs","string_encode.rs","bytes_type.rs","extern_type.rs")],
  [("size functions","ztype::*_bitsize, bitsize_*")],["value returned by the size function"])
p("W04","Strings, byte blocks and externs survive a round trip",
  "Strings, bytes and extern values are written as a varsize length (bytes; bits for extern) followed by exactly that much payload in order, the last partial byte of an extern carrying its leading bits, and reading returns an equal value. A blob whose stated length disagrees with its data is rejected on encode rather than written in a form that reads back differently.",
  ["inputs"],"every string, byte block and extern value",
  "Only a few literals are tested; lengths crossing varsize boundaries and partial last bytes are not covered exhaustively.",
  [Z+"ztype/"+f for f in ("string_encode.rs","string_decode.rs","bytes_type.rs","extern_type.rs","reader.rs","writer.rs")],
  [("length prefix","write_varsize/read_varsize"),("payload copy","write_bytes/read_bytes")],["bytes produced","value returned"])
p("W05","Values that do not fit are rejected, never truncated",
  "Encoding a number outside the range of its zserio type (a fixed bit width, a variable-length integer, a length prefix) returns an error; it never silently writes the encoding of a different value, and does not abort the process.",
  ["inputs"],"every value passed to every scalar or length encoder",
  "Tests only encode valid values.",
  [Z+"ztype/bits_encode.rs",Z+"ztype/varint_encode.rs",Z+"ztype/varuint_encode.rs",Z+"ztype/string_encode.rs",Z+"ztype/array.rs"],
  [("range checks","signed_bitsize/unsigned_bitsize error returns, MAX_VARSIZE")],["Result of the encoder"])
p("G01","Generated decoders mirror generated encoders",
  "For every generated type, reading the bytes written for a well-formed object yields an object whose encoded fields equal the original's: the decoder performs the same sequence of wire operations, under the same presence, choice, union and alignment conditions, and stores each result in the field it was written from.",
  ["programs","inputs"],"every struct, choice, union, enum and bitmask of a schema corpus covering each construct of the language, and all object values",
  "Round-trip tests set a few fields of a few objects; wrong field wiring or a wrong condition needs particular values or branches to show.",
  [B+"internal/generator/decode.rs",B+"internal/generator/encode.rs",B+"internal/generator/zstruct.rs",B+"internal/generator/zchoice.rs",B+"internal/generator/zunion.rs"],
  [("field codecs","decode_field / encode_field generators"),("generated impls","zserio_read / zserio_write")],["decoded object"])
p("G02","Generated bit size equals the bits written",
  "For every generated type, object and starting bit position, the bit-size method returns exactly the number of bits the encoder appends when it starts at that position, including alignment padding, optional presence bits, length prefixes and selectors.",
  ["programs","inputs"],"every generated type of the corpus, all object values, all start positions",
  "Tests compare sizes for single objects at position 0.",
  [B+"internal/generator/bitsize.rs",B+"internal/generator/encode.rs"],
  [("bit-size generator","generator::bitsize"),("generated impls","zserio_bitsize / zserio_write")],["zserio_bitsize result"])
p("G03","Packed decoding and sizing mirror packed encoding",
  "For every generated type used in packed arrays, the packed decoder performs the same wire operations as the packed encoder with the same delta contexts, and the packed bit size equals the bits the packed encoder appends.",
  ["programs","inputs"],"every generated type of the corpus, all object values, all context states",
  "Packed layouts depend on all elements of an array; the tests use a few regular arrays.",
  [B+"internal/generator/decode.rs",B+"internal/generator/encode.rs",B+"internal/generator/bitsize.rs",B+"internal/generator/zunion.rs",B+"internal/generator/zchoice.rs"],
  [("packed generators","zserio_read_packed / zserio_write_packed / zserio_bitsize_packed")],["bytes","decoded object"])
p("G04","Packing contexts match what packed code uses",
  "The context tree created for a generated type contains a node, with a delta context where one is used, for every node packed reading, writing or sizing accesses, and initialising it feeds each context exactly the values that will later be written through it, in the same conditions. Hence packing never fails on a missing context and delta widths always cover the written values.",
  ["programs","inputs"],"every generated type of the corpus, all object values",
  "A wrong or missing initialisation only shows for element sequences whose deltas exceed the wrongly computed width.",
  [B+"internal/generator/packed_contexts.rs",B+"internal/generator/zstruct.rs",Z+"ztype/array_traits/packing_context_node.rs"],
  [("context generators","zserio_create_packing_context / zserio_init_packing_context")],["bytes","panics"])
p("G05","The generated wire layout is the one the schema declares",
  "For every type of a schema, the generated encoder emits the schema's members in declaration order, each with the codec, bit width, array form (fixed, auto, implicit length prefix, packed), optionality, condition and alignment the schema declares, with choice cases, the default case and union selectors dispatched to the declared member. Nothing else is written.",
  ["programs","inputs"],"every type of the corpus and all object values",
  "A generator error that is symmetric between encoder and decoder passes all round-trip tests.",
  [B+"internal/generator/encode.rs",B+"internal/generator/types.rs",B+"internal/generator/array.rs",B+"internal/ast/",B+"internal/visitor.rs"],
  [("schema to code","generator::encode, types, array")],["bytes produced"])
p("G06","Enum and bitmask values are the declared numbers",
  "Every enum item and bitmask flag is encoded as the number the schema assigns to it (explicit, or one more than the previous item, or the next free bit for bitmasks), in the declared underlying type, and decodes to the same item. A number that matches no enum item makes decoding fail.",
  ["programs","inputs"],"every enum and bitmask of the corpus, every wire value",
  "Tests decode only valid items of a few enums.",
  [B+"internal/generator/zenum.rs",B+"internal/generator/zbitmask.rs",B+"internal/ast/zenum.rs",B+"internal/ast/zbitmask.rs"],
  [("value tables","zenum/zbitmask generation and evaluation")],["wire value","decode Result"])
p("G07","Schema expressions keep their meaning",
  "Conditions, choice selectors, array lengths, dynamic bit widths, alignments, constants, initial values, parameters passed to nested types and user functions evaluate in generated code to the value zserio's expression rules give for the same operands: operator, precedence, associativity, operand order and literal value are preserved.",
  ["programs","inputs"],"every expression in the corpus (each operator and literal form, nested combinations), all operand values",
  "Tests evaluate a few expressions on a few operands.",
  [B+"internal/generator/expression.rs",B+"internal/ast/expression.rs",B+"internal/visitor.rs",B+"internal/generator/function.rs"],
  [("expression generation and constant evaluation","generator::expression, ast::expression")],["value of generated functions, conditions and constants"])
p("G08","Generic instantiations and references resolve to the right type",
  "A field, parameter, constant or array element whose schema type is an alias, a subtype, an imported or qualified name, or a template instantiation is encoded exactly as the type it denotes under zserio scoping with all template arguments substituted; two instantiations never share or mix arguments.",
  ["programs"],"every reference in the corpus, including nested and multi-parameter instantiations and names shared by several packages",
  "Only a few templates and imports occur in the tests.",
  [B+"internal/compiler/symbol_scope.rs",B+"internal/compiler/template_instantiation.rs",B+"internal/ast/type_reference.rs"],
  [("symbol lookup","symbol_scope"),("template instantiation","template_instantiation")],["generated types"])
p("G09","Nested parameterised objects get their arguments before decoding",
  "Whenever generated code decodes a parameterised member, as a plain or optional field, array element or choice or union case, packed or not, every parameter has been set to the value of its argument expression before the member's decoder runs, in declared parameter order.",
  ["programs","inputs"],"every parameterised member of the corpus and all decoded values",
  "A parameter set late or swapped shows only where the parameter changes the nested layout for the sampled data.",
  [B+"internal/generator/decode.rs",B+"internal/generator/pass_parameters.rs"],
  [("parameter assignment","generator::pass_parameters, decode")],["nested object layout"])
p("R01","Array reading and sizing mirror array writing",
  "For every array, element type, packed or unpacked form, fixed or prefixed length and element-alignment setting, reading performs the wire operations writing performed, in the same order and number, and returns the same elements in order; the array's bit size equals the bits written from the given position.",
  ["inputs","configurations"],"all element sequences, lengths including 0, all combinations of packed, fixed size and offsets",
  "Unit tests use one five-element array; the reference comparison uses a few arrays.",
  [Z+"ztype/array.rs"],[("array runtime","Array::zserio_write / zserio_read / zserio_bitsize")],["bytes","decoded elements","size"])
p("R02","Delta packing is lossless and sized exactly",
  "For any sequence of elements fed to a delta context, the packed encoder's descriptor and deltas let the decoder reproduce every element, the width chosen at initialisation holds every delta written later, and the size function returns exactly the bits the encoder writes. Element types that have no integral representation are never delta-coded.",
  ["inputs","histories"],"all element sequences of all element types, all extreme deltas",
  "Delta width, sign handling and the packed/unpacked decision depend on the whole sequence; tests use a few short regular ones.",
  [Z+"ztype/array_traits/delta_context.rs",Z+"numbits.rs"],
  [("delta context state machine","DeltaContext::init/write/read/bitsize_of/finish_init")],["bytes","decoded elements"])
p("R03","Array element traits agree with each other and their scalar codec",
  "Each array element trait reads, writes and sizes elements with the codec of its own zserio type, its integral conversion is inverted by its back conversion for every element value, and its packed operations all use the same delta context with the trait itself. A trait that declares a constant element size returns the same size for every element.",
  ["inputs","configurations"],"all array element traits, all element values",
  "Twenty near-identical implementations; tests instantiate only some of them.",
  [Z+"ztype/array_traits/"],[("ArrayTrait implementations","ztype::array_traits::*")],["bytes","sizes"])
p("R04","Alignment is minimal and identical for reader, writer and size",
  "Aligning a reader, a writer or a computed bit position to n bits advances it to the smallest multiple of n not below the current position, so all three agree at every position; already aligned positions do not move. Skipped bits are written as zero.",
  ["inputs"],"every bit position and every non-zero alignment",
  "Tests align a handful of positions.",
  [Z+"ztype/alignment.rs",Z+"ztype/bit_alignment.rs"],[("alignment helpers","align_reader/align_writer/align_bitsize/align_to")],["stream position"])
p("N01","bit_length and numbits return the minimal width",
  "The bit-length helper returns the least number of bits that represents its non-negative argument (0 for 0), and the numbits operator the number of bits needed to distinguish that many values (0 for 0, 1 for 1 and 2), for every argument.",
  ["inputs"],"every non-negative 64-bit argument",
  "Tests probe about ten values; the implementation is a lookup table with 256 entries.",
  [Z+"numbits.rs"],[("lookup","bit_length / BIT_LENGTH_BYTE / numbits")],["return value"])
p("H01","Decoding hostile bytes returns, never aborts",
  "Decoding any byte sequence with the runtime and the generated decoders ends in a value or an error and never panics: no failed unwrap, assertion, out-of-range index or shift, or arithmetic overflow is reachable from wire data.",
  ["inputs"],"every byte sequence, truncated or corrupt, for every decoder of the runtime and of the generated corpus (arithmetic written by the schema author excepted)",
  "No fuzzing is done; tests feed a few truncated inputs to string and array readers.",
  [Z+"ztype/"+f for f in ("string_decode.rs","extern_type.rs","varint_decode.rs","varuint_decode.rs","array.rs","reader.rs")]+[Z+"ztype/array_traits/delta_context.rs",B+"internal/generator/decode.rs",B+"internal/generator/zunion.rs"],
  [("error returns","Result-returning decoders")],["panic"])
p("H02","Decoder allocation is bounded by the data received",
  "A length taken from the wire never by itself determines an allocation: memory reserved while decoding is limited by the bytes actually available in the input or by the configured pre-allocation cap, which takes effect as set. (Vectors grow only as elements are decoded; elements the format itself encodes in no bits, such as zero deltas of a packed array, are outside this statement.)",
  ["inputs","configurations"],"every byte sequence and every cap setting",
  "One test checks one array; strings, bytes, externs and generated array code each have their own allocation.",
  [Z+"ztype/array.rs",Z+"ztype/reader.rs",Z+"ztype/string_decode.rs",Z+"ztype/extern_type.rs"],
  [("allocation cap","ARRAY_ALLOC_CHUNK"),("remaining-data checks","read_bytes, read_string")],["allocation size"])
p("H03","No encode or decode error is swallowed",
  "Every failure reported by the bit reader, bit writer, a codec, a nested object or the output sink reaches the caller of the public operation as an error; an operation never returns success after a step of it failed, and end of data, misfit, UTF-8 and I/O failures keep their distinct error kinds.",
  ["inputs","fault_sequences"],"every fallible call in the runtime, the API and the generated corpus",
  "Faults at most call sites are never injected by tests.",
  [Z+"lib.rs",Z+"error.rs",Z+"ztype/",B+"internal/generator/"],
  [("error propagation","? on every fallible call; From impls in error.rs")],["Result of the operation"])
p("H04","Independent operations do not influence each other",
  "Encoding, decoding and sizing depend only on their arguments: the runtime and generated code use no unsafe code and no shared mutable state, encoding and sizing leave the object unchanged, and the only global setting (array pre-allocation cap) affects capacity, never results. Concurrent use from several threads therefore gives the results of sequential use.",
  ["schedules","histories"],"all interleavings and histories of calls on distinct objects",
  "Tests are single-threaded and in one order.",
  [Z+"ztype/array.rs",Z+"lib.rs",B+"internal/generator/"],
  [("single static","ARRAY_ALLOC_CHUNK")],["results"])
p("A01","The top-level API moves complete data",
  "Serialising to bytes or to a sink yields the complete encoding including the final partial byte, zero-padded to a byte, with nothing lost, repeated or added; the bytes given to a sink equal those returned for the same object. Decoding from bytes, a reader or a file decodes from the first byte of all the data the source provides into a fresh object.",
  ["inputs"],"every object and every data source or sink, including short reads and writes",
  "Tests use in-memory buffers and one file.",
  [Z+"lib.rs"],[("entry points","to_bytes/to_writer/from_bytes/from_reader/from_file")],["bytes","object"])
p("C01","Code generation is deterministic",
  "Generating code from the same schema files yields byte-identical output in every run and on every machine: nothing in the output depends on hash-map iteration order, time, environment or random state.",
  ["schedules","histories","configurations"],"all runs over all schemas",
  "Tests generate once; hash seeds differ between processes only.",
  [B+"internal/generator/",B+"internal/compiler/",B+"internal/model/"],
  [("ordering of generated items","sorting before emission")],["generated files"])
p("C02","The generator only writes inside its output directory and reports failures",
  "Code generation creates and writes files only beneath the requested output directory, reads only schema inputs, never deletes files, and an unreadable schema or failed write is reported instead of being skipped silently.",
  ["inputs","fault_sequences"],"all schemas, output locations and file-system failures",
  "Tests generate one tree successfully.",
  [B+"internal/generator/file_generator.rs",B+"internal/model/",B+"lib.rs"],
  [("file output","write_to_file and its callers")],["file system effects"])
p("C03","No schema construct is silently dropped",
  "Every grammar construct the schema parser accepts that affects encoding (fields, alternatives, defaults, modifiers, expressions, parameters) is either carried into the generated code or rejected with a message; it never disappears without notice.",
  ["programs"],"every grammar rule and alternative of the schema language",
  "Tests only parse constructs the generator supports.",
  [B+"internal/visitor.rs",B+"internal/ast/"],[("AST construction","Visitor")],["generated code"])
p("C04","Corpus schemas generate code that compiles",
  "Every schema of the language subset the generator accepts is turned into Rust code that type-checks against the runtime without edits, including names that collide with Rust keywords, nested packages and all combinations of modifiers in the corpus.",
  ["programs"],"every schema of the corpus",
  "The repository builds one fixed set of schemas, which a change can keep compiling while breaking other combinations.",
  [B+"internal/generator/"],[("code emission","generator")],["rustc result"])
p("T01","Decoding terminates in time proportional to its input",
  "Decoding n bytes terminates, and the work done is bounded by a function of n and the object's declared structure.",
  ["inputs"],"every byte sequence","Tests decode small inputs only.",
  [Z+"ztype/array.rs"],[("per-element reads","Array::zserio_read")],["time"])
p("T02","Any accepted schema compiles to working code",
  "For every schema the parser accepts, not only those in a corpus, generation succeeds and the generated code compiles and is correct.",
  ["programs"],"all schemas","Unbounded set of programs.",
  [B+"internal/"],[("generator","generate_model")],["rustc result"])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,x['title']
        f.write(json.dumps(x)+'\n')
