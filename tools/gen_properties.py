#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The list below is the source of truth."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe or [], hook_needed=hook)))

D = "src/mfast/coder/"
prop("C01", "The decoder yields the values FAST 1.1 assigns to every valid stream",
 "For every template set and every well-formed FAST 1.1 stream encoded for it, decoding message by message yields exactly the template, field presence and field values that the FAST 1.1 rules (operators, presence maps, nullability, dictionaries, initial values) assign to the stream, and consumes exactly the bytes of each message. "
 "When the stream calls for a value the specification makes a dynamic error (missing mandatory previous value, empty delta base, over-long subtraction, unknown template), decoding reports a fast error instead of a value.",
 ["inputs", "histories", "configurations"],
 "every template set (field types x operators x presence x initial value x nesting), every history of messages, every legal encoding choice a peer may make for each field",
 "the tests decode a few dozen hand-written byte strings, one operator at a time; they never drive long histories of mixed operators or encodings another implementation may legally choose",
 [D+"decoder/fast_decoder.cpp", D+"decoder/decoder_field_operator.cpp", D+"decoder/fast_istream.h", D+"decoder/fast_istream_extractor.h", D+"common/codec_helper.h", D+"decoder/decoder_presence_map.h"],
 [("operator semantics", D+"decoder/decoder_field_operator.cpp"), ("segment/group/sequence walk", D+"decoder/fast_decoder.cpp"), ("string delta application", D+"common/codec_helper.h")],
 [("previous value", "per dictionary key: undefined, empty or assigned", "src/mfast/instructions/int_instructions.h"), ("active template", "template assumed when the stream omits the id", D+"decoder/fast_decoder.cpp")],
 ["return of fast_decoder::decode: message, new read position, exception"])

prop("C02", "Encoded messages mean, under FAST 1.1, exactly what the caller put in",
 "For every template set and every history of messages an encoder accepts, the bytes it produces are a well-formed FAST 1.1 stream that a conforming decoder turns back into exactly those messages: same template, same present and absent fields, same values. "
 "Encoding never changes the message being encoded.",
 ["inputs", "histories", "configurations"],
 "every template set, every value assignment (including absence, extremes and empty values), every history of messages, resets included",
 "tests compare fixed messages with fixed bytes; stale previous values, absent-field rules and rarely used operator/presence combinations need histories",
 [D+"encoder/fast_encoder.cpp", D+"encoder/encoder_field_operator.cpp", D+"encoder/fast_ostream.h", D+"encoder/fast_ostream_inserter.h"],
 [("operator semantics", D+"encoder/encoder_field_operator.cpp"), ("segment/group/sequence walk", D+"encoder/fast_encoder.cpp"), ("integer and string transfer encoding", D+"encoder/fast_ostream.h")],
 [("previous value", "per dictionary key, must track what the receiver will hold", D+"encoder/fast_ostream.h")],
 ["bytes returned by fast_encoder::encode"])

prop("C03", "Generated-code coders and dynamic coders agree on every message history",
 "For every template set, the coders specialised for generated types and the generic coders are interchangeable: given the same messages both encoders produce the same bytes, and given the same bytes both decoders produce equal messages, consume the same bytes and fail on the same messages. "
 "Mixing them on the two ends of a connection is therefore unobservable.",
 ["inputs", "histories", "programs"],
 "every template set passed through the type generator, every message history, every direction (generic to generated and back)",
 "tests use a handful of generated templates with one message each; divergence of two independent implementations of every operator needs generated programs and histories",
 [D+"decoder_v2/fast_decoder_core.h", D+"encoder_v2/fast_encoder_core.h", D+"fast_decoder_v2.h", D+"fast_encoder_v2.h", "src/fast_type_gen/inl_gen.cpp", "src/fast_type_gen/cpp_gen.cpp"],
 [("specialised decoding", D+"decoder_v2/fast_decoder_core.h"), ("specialised encoding", D+"encoder_v2/fast_encoder_core.h")],
 None, ["bytes, messages and errors of fast_encoder/fast_decoder versus fast_encoder_v2/fast_decoder_v2"])

prop("C04", "Decoding arbitrary bytes is memory safe and ends in a value or an error",
 "Whatever bytes a decoder is given - truncated, corrupted or hostile - it never reads outside the supplied buffer, never corrupts or leaks memory, never executes undefined behaviour and always terminates, either returning a message and a read position inside the buffer or throwing an exception. "
 "This holds for both the generic and the generated-code decoders.",
 ["inputs", "histories", "fault_sequences"],
 "every byte string (in particular every truncation and mutation of valid streams) after every decoder history",
 "tests only feed complete valid messages from buffers with slack behind them; out-of-bounds reads are invisible without instrumentation",
 [D+"decoder/fast_istream.h", D+"decoder/fast_istreambuf.h", D+"decoder/decoder_presence_map.h", D+"decoder/fast_decoder.cpp", D+"decoder_v2/fast_decoder_core.h", D+"common/codec_helper.h"],
 [("bounded reads", D+"decoder/fast_istreambuf.h"), ("length validation", D+"decoder/fast_istream.h")],
 None, ["sanitizer reports on exactly sized heap buffers", "exception or returned read position"])

prop("C05", "After an error or a reset a coder behaves as if newly created",
 "After any history - including decoding that failed in the middle of a message or encoding that overflowed - a coder told to reset, or processing a template marked for reset, produces for the following messages exactly the results a freshly created coder with the same template in effect would produce. "
 "A failed operation leaves the coder usable: no later valid, reset message is rejected or misread because of it.",
 ["histories", "fault_sequences", "inputs"],
 "every prefix history of good and bad messages, every failure point, every suffix starting with a reset",
 "tests never continue after an error and reset only from trivial histories",
 [D+"decoder/fast_decoder.cpp", D+"encoder/fast_encoder.cpp", D+"common/template_repo.h", D+"decoder_v2/fast_decoder_core.h", D+"encoder_v2/fast_encoder_core.h"],
 [("dictionary reset", D+"common/template_repo.h"), ("active template tracking", D+"encoder/fast_encoder.cpp")],
 [("dictionary entries", "all previous values become undefined on reset", D+"common/template_repo.h")],
 ["bytes / messages after the reset versus those of a fresh coder"])

prop("C06", "Encoding stays inside the caller's buffer and reports overflow exactly",
 "Encoding into a fixed buffer never writes outside it: either the whole message fits and the returned size is the number of bytes written, or a buffer overflow error is reported. "
 "Encoding into a growing buffer only appends after the existing content, yields the same bytes as a large enough fixed buffer, and a fixed buffer with a small constant slack over the encoded size is always accepted.",
 ["inputs", "configurations"],
 "every message and history, every buffer size from one byte to ample, every pre-existing content of a growing buffer, with and without over-long presence maps",
 "tests always pass large buffers; boundary sizes and appending are not exercised",
 [D+"encoder/fast_ostreambuf.h", D+"encoder/fast_ostreambuf.cpp", D+"encoder/resizable_fast_ostreambuf.h", D+"encoder/fast_encoder.cpp", D+"encoder/encoder_presence_map.h", D+"encoder_v2/fast_encoder_core.cpp"],
 [("bounds test before each write", D+"encoder/fast_ostreambuf.h"), ("growth", D+"encoder/resizable_fast_ostreambuf.h"), ("presence map back-patching", D+"encoder/fast_ostreambuf.cpp")],
 None, ["guard bytes and sanitizer red zones around the buffer", "returned size / exception"])

prop("C07", "Presence maps carry any number of bits in order, minimal when asked",
 "A presence map of any length, at any nesting depth, transports exactly the sequence of bits written by the encoder to the decoder, with bits not transmitted reading as zero; templates with hundreds of presence-map fields work like small ones. "
 "When over-long presence maps are disallowed, every presence map the encoder emits is the shortest legal one, without touching bytes that do not belong to it.",
 ["inputs", "configurations"],
 "every number of presence-map bits from 0 to several hundred, every bit pattern, every nesting of segments, over-long allowed or not, message first or appended",
 "unit tests cover a few fixed bit strings of fixed length; word and chunk boundaries interact with shrinking",
 [D+"encoder/encoder_presence_map.h", D+"encoder/fast_ostreambuf.cpp", D+"decoder/decoder_presence_map.h", D+"decoder/fast_istream.h"],
 [("bit writer", D+"encoder/encoder_presence_map.h"), ("shrinking", D+"encoder/fast_ostreambuf.cpp"), ("bit reader", D+"decoder/decoder_presence_map.h")],
 [("mask", "next bit position", D+"decoder/decoder_presence_map.h")],
 ["bits read versus bits written", "encoded presence map bytes"])

prop("C08", "Previous values are shared exactly by dictionary scope and key",
 "Two fields share a previous value if and only if they name the same dictionary (global, per template, per type or user defined, inherited from the enclosing element when unspecified) and the same namespace-qualified key; every other pair of fields is independent. "
 "Sharing crosses templates, groups and sequences, fields of different types on one key are rejected when templates are loaded, and a reset clears every entry of every dictionary.",
 ["configurations", "histories", "inputs"],
 "every combination of dictionary attributes at every level, keys, namespaces and operators, over every message history touching the shared entry",
 "tests cover one pair of fields per scope; leakage between scopes only shows as a wrong value later in a history",
 [D+"common/dictionary_builder.cpp", D+"common/dictionary_builder.h", D+"common/template_repo.h"],
 [("qualified key construction", D+"common/dictionary_builder.cpp"), ("reset entries", D+"common/template_repo.h")],
 [("dictionary index", "qualified key to storage", D+"common/dictionary_builder.h")],
 ["decoded values and encoded bytes versus a reference dictionary", "error on conflicting types"])

prop("C09", "Message copies are deep, independent and release all memory exactly once",
 "Copying, assigning or moving a message, group, sequence or nested message yields an equal value that stays unchanged whatever is later done to the source, and vice versa, with any allocator on either side. "
 "Over any history of such operations every block obtained from an allocator is returned to that same allocator exactly once with the size it was obtained with, and nothing is used after release.",
 ["histories", "inputs", "configurations"],
 "every schema, every history of construct/copy/assign/move/mutate/destroy over several objects and allocators",
 "tests check a few copies; aliasing and leaks depend on the history of ownership transitions (borrowed initial values, spare sequence elements, retargeted nested messages)",
 ["src/mfast/instructions/group_instruction.cpp", "src/mfast/instructions/sequence_instruction.cpp", "src/mfast/instructions/templateref_instruction.cpp", "src/mfast/instructions/vector_instruction_base.cpp", "src/mfast/composite_type.h", "src/mfast/aggregate_ref.h", "src/mfast/nested_message_ref.h"],
 [("deep copy", "src/mfast/instructions/group_instruction.cpp"), ("destruction", "src/mfast/instructions/sequence_instruction.cpp"), ("retargeting", "src/mfast/nested_message_ref.h")],
 [("capacity/ownership flag", "zero capacity means borrowed content", "src/mfast/value_storage.h")],
 ["field values of all live objects versus a model", "allocator event log", "sanitizer reports"])

prop("C10", "String, byte-vector and integer-vector fields behave as value sequences",
 "Any sequence of assign, append, insert, replace, erase, push, pop, resize, reserve, clear, omit and aliasing self-assignment operations on a string, byte-vector or integer-vector field leaves it with exactly the elements the same operations give a standard sequence container, and with the right presence. "
 "This holds with every allocator, never touches memory outside the field's storage, never alters the shared initial value, and keeps string content terminated.",
 ["histories", "inputs", "configurations"],
 "every operation sequence, element type, starting state (absent, empty, borrowed initial value, owned) and allocator",
 "tests call each operation once on short strings from one state; element-size scaling, reallocation and borrowed-storage transitions need sequences",
 ["src/mfast/vector_ref.h", "src/mfast/string_ref.h", "src/mfast/instructions/vector_instruction_base.cpp", "src/mfast/allocator.h"],
 [("mutators", "src/mfast/vector_ref.h"), ("strings", "src/mfast/string_ref.h")],
 [("length/capacity", "length plus one, zero when absent; capacity in bytes", "src/mfast/value_storage.h")],
 ["field content after each operation versus std::vector/std::string model", "sanitizer reports"])

prop("C11", "Sequence fields behave as resizable arrays of independent elements",
 "Any history of resize, reserve, append, remove, clear, omit and element mutation on a sequence leaves exactly the elements an array of values would hold; elements newly exposed by growing are in their initial state, or hold exactly what they held when they were last part of the sequence, and never anything else. "
 "Elements, and sequences nested in them, never share storage.",
 ["histories", "inputs"],
 "every schema of (nested) sequences and every operation history, with every allocator",
 "tests resize once or twice; wrong content shows only on shrink and regrow of particular shapes",
 ["src/mfast/sequence_ref.h", "src/mfast/sequence_ref.cpp", "src/mfast/instructions/sequence_instruction.cpp", "src/mfast/instructions/sequence_instruction.h", "src/mfast/sequence_type.h"],
 [("resize/reserve", "src/mfast/sequence_ref.cpp"), ("element construction", "src/mfast/instructions/sequence_instruction.cpp")],
 None, ["element values after each operation versus a model", "sanitizer and allocator log"])

prop("C12", "The arena allocator hands out disjoint, preserved, aligned blocks",
 "Every block obtained from an arena stays disjoint from every other live block, keeps its content until the arena is reset or destroyed, and is aligned for any value the library stores; growing a block preserves its old content. "
 "After a reset the arena reuses memory safely and all memory goes back to the underlying allocator on destruction.",
 ["histories", "inputs", "configurations"],
 "every sequence of allocate, reallocate, deallocate and reset with every size, chunk size and parent allocator",
 "tests allocate a few fixed sizes; overlap needs size sequences straddling chunk boundaries and resets",
 ["src/mfast/arena_allocator.h", "src/mfast/arena_allocator.cpp", "src/mfast/allocator.cpp", "src/mfast/allocator.h"],
 [("chunk management", "src/mfast/arena_allocator.cpp")],
 [("chunk lists", "current and free chunks", "src/mfast/arena_allocator.h")],
 ["shadow map of live blocks with fill patterns", "parent allocator event log"])

prop("C13", "Equality of messages is value equality, and string ordering is total",
 "Two messages of the same template (or groups, sequences or fields of the same definition) compare equal exactly when they have the same fields present, nested messages of the same templates, and equal values in every present field, recursively; comparison is reflexive, symmetric, agrees with copying, and does not depend on how the values were built. "
 "Comparison operators of string fields form a total order over their contents (an absent string compares like an empty one), consistent with content equality; decimals compare by representation, so 10 and 1.0e1 are distinct values of a field.",
 ["inputs", "histories"],
 "every pair of messages of every schema, in particular pairs differing in exactly one leaf or one presence, however constructed",
 "tests compare a few equal messages; false equality needs pairs differing in one deep place",
 ["src/mfast/field_comparator.h", "src/mfast/field_ref.h", "src/mfast/message_ref.h", "src/mfast/vector_ref.h", "src/mfast/string_ref.h", "src/mfast/sequence_ref.h", "src/mfast/decimal_ref.h"],
 [("recursive comparison", "src/mfast/field_comparator.h"), ("string comparison", "src/mfast/string_ref.h")],
 None, ["result of operator== / operator!= / ordering versus model equality"])

prop("C14", "JSON text of a message is valid JSON and decodes to an equal message",
 "For every message, the JSON produced is syntactically valid and contains every present field once with its exact value and no absent field; reading that text back into a message of the same type yields an equal message (decimals numerically equal). "
 "This holds for every field type that has a JSON form, every nesting and every valid UTF-8 string content; dynamic template references are written but cannot be read back.",
 ["inputs", "configurations"],
 "every schema expressible in JSON and every value, including control characters, quotes, non-ASCII text, empty strings and sequences, extremes",
 "tests print a few fixed messages; escaping, separators and hex depend on content and shape",
 ["src/mfast/json/json_encode.cpp", "src/mfast/json/json_decode.cpp", "src/mfast/json/json.h"],
 [("writer", "src/mfast/json/json_encode.cpp"), ("reader", "src/mfast/json/json_decode.cpp")],
 None, ["emitted text through an independent JSON parser", "message after decoding"])

prop("C15", "Reading arbitrary JSON text is memory safe and ends in success or failure",
 "Given any text, the JSON reader never corrupts memory, never executes undefined behaviour, always terminates, and reports either success or failure; unknown members are skipped, known members set, and syntactically valid input for the type is accepted whatever its white space, member order and escapes. "
 "A message left behind by a failed read is still a valid object that can be inspected, overwritten and destroyed.",
 ["inputs", "fault_sequences"],
 "every byte string, in particular every truncation and mutation of valid documents, and every equivalent respelling of a valid document",
 "tests read a dozen well-formed documents",
 ["src/mfast/json/json_decode.cpp"],
 [("tokenising and skipping", "src/mfast/json/json_decode.cpp")],
 None, ["sanitizer reports", "return value / exception", "message state after the read"])

prop("C16", "Decimal and integer text conversion is exact",
 "Converting a decimal or integer field to text and back gives the same numeric value for every representable exponent and mantissa, sign included; text that denotes no representable value is rejected rather than misread (a field with constant exponent keeps that exponent and drops digits beyond it). "
 "Arithmetic-free operations on decimals (normalising, comparing, converting to floating point) preserve the numeric value.",
 ["inputs"],
 "every mantissa, exponent and decimal literal",
 "tests convert a handful of literals",
 ["src/mfast/value_storage.cpp", "src/mfast/decimal_ref.h", "src/mfast/decimal_ref.cpp", "src/mfast/output.h"],
 [("parsing and printing", "src/mfast/value_storage.cpp"), ("normalising", "src/mfast/decimal_ref.cpp")],
 None, ["text and re-read value versus exact rational arithmetic"])

prop("C17", "Templates mean what their XML says",
 "Loading a template document builds, for every template, exactly the fields the XML describes: order, names, ids, types, presence, operators, initial values, lengths, namespaces, dictionaries, enumeration elements, and the inlined content of referenced types and templates, regardless of element order where order is irrelevant and of definitions spread over several documents. "
 "Documents that FAST 1.1 forbids (unknown types, constants without a value, operators illegal for a type) are rejected with an error.",
 ["inputs", "configurations"],
 "every template document the grammar allows, each construct nested in every other",
 "tests parse a few fixed documents",
 ["src/mfast/xml_parser/templates_builder.cpp", "src/mfast/xml_parser/field_builder.cpp", "src/mfast/xml_parser/field_op.cpp", "src/mfast/xml_parser/FastXMLVisitor.cpp", "src/mfast/xml_parser/templates_builder.h"],
 [("template construction", "src/mfast/xml_parser/templates_builder.cpp"), ("field construction", "src/mfast/xml_parser/field_builder.cpp"), ("operator parsing", "src/mfast/xml_parser/field_op.cpp")],
 None, ["walk of the instruction tree versus the generating model"])

prop("C18", "Loading arbitrary template text is memory safe and all-or-error",
 "Given any text as a template document, loading either succeeds with a usable description or throws an exception, without memory errors, undefined behaviour or leaks. "
 "A failed load leaves other descriptions loaded through the same registry usable.",
 ["inputs", "fault_sequences"],
 "every byte string, in particular structural and textual mutations of valid template documents",
 "tests try a handful of malformed documents",
 ["src/mfast/xml_parser/templates_builder.cpp", "src/mfast/xml_parser/field_builder.cpp", "src/mfast/xml_parser/field_op.cpp", "src/mfast/xml_parser/view_info_builder.cpp", "src/mfast/xml_parser/template_registry_impl.h"],
 [("validation", "src/mfast/xml_parser/field_op.cpp")],
 None, ["sanitizer reports", "exception or description"])

prop("C19", "Messages are dispatched to the template their id names, across documents",
 "With any number of template documents loaded into one coder, every message is encoded and decoded with the template its id names, whichever document defined it; unknown ids and duplicate ids are reported as errors and never silently bound to another template. "
 "When the id is omitted on the wire the receiver uses the last template in effect at that nesting level, including after nested dynamic template references.",
 ["histories", "configurations", "inputs"],
 "every partition of templates into documents, every interleaving of template ids and nested references",
 "tests use one or two templates; id elision depends on the interleaving",
 [D+"common/template_repo.h", D+"decoder/fast_decoder.cpp", D+"encoder/fast_encoder.cpp", D+"decoder_v2/fast_decoder_core.h", D+"encoder_v2/fast_encoder_core.h"],
 [("id to template map", D+"common/template_repo.h")],
 [("active template id", "last id seen/sent", D+"encoder/fast_encoder.cpp")],
 ["template of each decoded message", "template id bits in encoded bytes", "errors"])

prop("C20", "A view presents exactly the fields its definition references",
 "Iterating a view over a message visits, in definition order, exactly the fields named by the view's paths - through groups and sequence indices, the first of alternative references that is present standing for its field - that exist and are present in that message, with the right values, for every message of the template. "
 "Building and iterating a view never reads outside the message, whatever the sequence lengths.",
 ["inputs", "configurations"],
 "every view definition over every schema and every message (short or absent sequences included)",
 "tests use one schema and one message",
 ["src/mfast/view_iterator.cpp", "src/mfast/view_iterator.h", "src/mfast/xml_parser/view_info_builder.cpp"],
 [("path compilation", "src/mfast/xml_parser/view_info_builder.cpp"), ("iteration", "src/mfast/view_iterator.cpp")],
 None, ["visited fields versus a model walk", "sanitizer reports"])

prop("C21", "Coders in different threads are independent and race free",
 "Any number of threads, each with its own coders and messages but sharing the same template descriptions, work without data races and produce exactly the results of the same work done sequentially. "
 "Templates may be loaded and coders created and destroyed concurrently with other threads using theirs.",
 ["schedules", "histories"],
 "every interleaving of threads creating, using and destroying coders over shared descriptions",
 "no test uses threads",
 [D+"decoder/fast_decoder.cpp", D+"encoder/fast_encoder.cpp", D+"common/dictionary_builder.cpp", "src/mfast/instructions/field_instruction.h", "src/mfast/malloc_allocator.cpp", D+"fast_decoder_v2.h"],
 [("per-coder clones of instructions", D+"common/dictionary_builder.cpp")],
 [("shared descriptions", "read-only after load", "src/mfast/instructions/templates_description.h")],
 ["ThreadSanitizer reports", "per-thread results versus sequential run"])

prop("C22", "Generated C++ types describe the same templates as their XML",
 "For every template document the type generator accepts, the generated code compiles and its built-in description has exactly the fields, types, operators, initial values, ids, namespaces, keys and dictionaries that loading the same document at run time gives. "
 "Typed accessors read and write the same field as generic access by position or name.",
 ["programs", "inputs", "configurations"],
 "every template document, every field accessor of the generated types",
 "tests generate a few fixed documents",
 ["src/fast_type_gen/cpp_gen.cpp", "src/fast_type_gen/hpp_gen.cpp", "src/fast_type_gen/inl_gen.cpp", "src/fast_type_gen/codegen_base.cpp"],
 [("description emission", "src/fast_type_gen/cpp_gen.cpp"), ("accessor emission", "src/fast_type_gen/inl_gen.cpp")],
 None, ["walk of the generated description versus the dynamically loaded one"])

prop("C23", "Field access, traversal and presence agree with the message's content",
 "For every message, iterating its fields, accessing them by index, by name or by id, and visiting them with any supported visitor style all see the same fields with the same presence and values, in template order; setting or omitting a field through any of these routes is seen by all the others and changes no other field. "
 "Looking up a name or id that does not exist reports so.",
 ["inputs", "histories", "configurations"],
 "every schema, every field, every route of access and every order of updates",
 "tests check particular fields of one or two schemas",
 ["src/mfast/aggregate_ref.h", "src/mfast/field_ref.h", "src/mfast/field_mref.h", "src/mfast/ext_ref.h", "src/mfast/field_visitor.h", "src/mfast/group_ref.h", "src/mfast/message_ref.h"],
 [("indexing and iteration", "src/mfast/aggregate_ref.h"), ("dispatch by type", "src/mfast/field_ref.h"), ("visitors", "src/mfast/field_visitor.h")],
 None, ["values seen by each route versus a model after each update"])

prop("C24", "Enumeration, set and boolean fields keep name and value in step",
 "For every enumeration, boolean or (where enabled) set field, converting between element names and values is consistent with the template in both directions, the value survives encoding, decoding, copying and printing, unknown names and values are reported and never read outside the element table. "
 "Initial values given by name resolve to that element's value.",
 ["inputs", "configurations"],
 "every element list (implicit or explicit values), every value, valid or not, every operator and presence",
 "tests use one enumeration",
 ["src/mfast/enum_ref.h", "src/mfast/set_ref.h", "src/mfast/boolean_ref.h", "src/mfast/instructions/enum_instruction.h", "src/mfast/instructions/enum_instruction.cpp", "src/mfast/instructions/set_instruction.cpp", "src/mfast/xml_parser/field_builder.cpp"],
 [("name table", "src/mfast/instructions/enum_instruction.cpp"), ("parsing", "src/mfast/xml_parser/field_builder.cpp")],
 None, ["names and values versus the generating model"])

prop("C25", "SQLite export stores every message exactly once with its exact values",
 "Exporting a message to SQLite stores one row for it (one for each element if it has a sequence, numbered in order where the sequence is ordered) whose columns hold exactly the values of the exported fields, with NULL in every column of an absent field, group or sequence; a decimal without constant exponent is the nearest floating-point number. "
 "Groups and sequence elements that refer to a template are rows of that template's table, linked by the key of the parent or by the row of the element; an element without NULL is stored once. "
 "A message whose key is already used is refused and leaves no trace; what is exported afterwards, in any order of messages, by the same or another connection, has the same guarantee, and the database is closed with the converter.",
 ["inputs", "histories", "configurations"],
 "every schema of the layouts the exporter accepts, every history of messages and every range of values",
 "the repository has no test of the exporter",
 ["src/mfast/sqlite3/converter_core.cpp", "src/mfast/sqlite3/aggregate_inserter.cpp", "src/mfast/sqlite3/tables_creator.cpp", "src/mfast/sqlite3/first_pass_visitor.cpp", "src/mfast/sqlite3/third_pass_visitor.cpp"],
 [("binding", "src/mfast/sqlite3/converter_core.cpp"), ("table layout", "src/mfast/sqlite3/tables_creator.cpp")],
 None, ["rows read back with SQL versus the exported messages"])

out = os.path.join(HERE, "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
for p in P:
    for fn in p["anchors"]["files"]:
        if not os.path.exists("/repo/" + fn): print("missing", p["id"], fn, file=sys.stderr)
print(len(P), "properties")
