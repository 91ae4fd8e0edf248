#!/usr/bin/env python3
# Regenerates properties.jsonl (kept as a script so the statements are easy to review).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("J01","JSON output is always exactly one well-formed document",
 "Whenever a well-formed value is streamed to any JSON output function and the call reports success, the bytes written are exactly one valid JSON document (RFC 8259). A value JSON cannot represent (a map whose key is itself a compound value) makes the call fail, never yielding malformed output reported as success; every other well-formed value is written successfully. Formatting never panics, not even on a value that breaks the streaming protocol.",
 ["inputs"],"every well-formed value: any nesting of null, bool, text, binary, numbers, maps with any key kind, sequences, records, tuples, tagged values and enums, with any labels, indexes, tags, size hints and text fragmentation",
 "The writer is a small flag machine whose flags interact across nesting levels; tests sample a few dozen shapes and never combine e.g. enum-typed map keys with labelled map values.",
 ["json/src/to_fmt.rs","json/src/to_string.rs","json/src/to_vec.rs","json/src/to_io.rs","json/src/value.rs"],
 [("JSON formatter state machine","json/src/to_fmt.rs"),("text escaping table","json/src/to_fmt.rs escape_str")],
 [("enum/variant nesting and separator flags","whether a variant object is open and whether a separator is due","json/src/to_fmt.rs Formatter")],
 ["bytes written to the output","result of the call"])
p("J02","JSON output carries exactly the value's data, serde-compatibly",
 "Decoding the JSON written for a value gives back its data: text code point for code point, integers exactly, finite floats bit-for-bit at their width, container order and arity, records and maps as objects, sequences, tuples and binary as arrays, enums externally tagged by variant label (or index), null for unit-like and non-finite values. The result depends only on the value's data, not on how its text was split into fragments, whether parts were borrowed or computed, or which tags or size hints were attached. For types that also implement serialization through serde, the JSON denotes the same document that serde_json produces (unit structs, which are written by name, excepted).",
 ["inputs"],"every well-formed value and every way of delivering the same data (fragment boundaries, borrowed or short-lived parts, hints)",
 "Tests compare a fixed list of Rust values with serde_json; they do not cover arbitrary strings, float bit patterns, enum nesting or fragment boundaries.",
 ["json/src/to_fmt.rs","src/data/text.rs","src/data/number.rs"],
 [("externally tagged enum encoding","json/src/to_fmt.rs"),("escape_str","json/src/to_fmt.rs")],
 (),["JSON text"])
p("J03","JSON sinks deliver every byte in order or report an error",
 "The string, byte-vector, formatter and I/O outputs produce identical JSON for the same value, and a destination that accepts bytes only partially, is interrupted, or fails at any point ends with either the complete document delivered in order, once, or with an error. Success is never reported for truncated output, and whatever was delivered before an error is a prefix of the document. Text held as pre-serialized JSON is embedded verbatim.",
 ["inputs","fault_sequences"],"every value and every sequence of short writes, interruptions, zero-length writes and errors by the destination",
 "No test injects a writer that writes short, is interrupted, or fails.",
 ["json/src/to_io.rs","json/src/to_vec.rs","json/src/to_string.rs","json/src/value.rs"],
 [("io adapter","json/src/to_io.rs"),("embedded JSON text","json/src/value.rs")],
 (),["bytes accepted by the destination","call result"])
p("J04","Arbitrary-precision numbers keep their exact value in JSON",
 "Any text tagged as an arbitrary-precision number and matching the documented number grammar is written to JSON as a syntactically valid JSON number denoting exactly the same decimal value, however the text is split into fragments and wherever in a document it occurs. Non-finite spellings are written as null. Built-in 128-bit integers keep their exact value, too.",
 ["inputs"],"every string of the number grammar (signs, leading zeros, fractions, exponents), every fragmentation, every position incl. map keys and enum variants",
 "Tests list a few literals delivered as a single fragment.",
 ["json/src/to_fmt.rs","src/data/tags.rs","src/data/number.rs"],
 [("number text rewriting","json/src/to_fmt.rs NumberTextHandler"),("number tag","src/data/tags.rs")],
 [("pending sign / leading zeros / start-of-number","what has been consumed but not written yet","json/src/to_fmt.rs")],
 ["JSON text"])
p("T01","Debug-style formatting renders every value fully and consistently",
 "Formatting any well-formed value succeeds and yields one balanced Debug-style rendering that shows every leaf, label, field and element exactly once and in order, with text escaped so that it can be read back. The rendering depends only on the data (not on fragmentation, borrowing or hints) and is the same, up to the spelling of floats, through the string, writer, formatter and custom-token entry points. Failures of the destination are reported, and a value that fails or breaks the streaming protocol never panics the formatter or the display adapter.",
 ["inputs","fault_sequences"],"every well-formed value, every fragmentation, every output failure point",
 "Tests compare a handful of values; empty containers inside enum variants, nested enums and split text are not covered.",
 ["fmt/src/writer.rs","fmt/src/token_write.rs","fmt/src/to_fmt.rs","fmt/src/to_string.rs","fmt/src/to_write.rs","fmt/src/to_value.rs"],
 [("token writer","fmt/src/writer.rs"),("text escaping","fmt/src/token_write.rs"),("Debug/Display to value adapters","fmt/src/to_value.rs")],
 (),["formatted text","token callbacks"])
p("B01","Buffering a value and replaying it is lossless",
 "A complete value captured in a value buffer, whether collected, streamed in, borrowed, converted to owned, cloned, or captured after the buffer was cleared and reused, replays as the same stream of data with the same structure, labels, indexes, tags and scalar types, any number of times. The buffer reports itself complete exactly when it holds a whole value, and collecting a value that fails is an error; a value that breaks the streaming protocol never causes a panic, and one that breaks off is never reported complete. Replays into any output therefore equal streaming the original directly.",
 ["inputs","histories"],"every well-formed value, every capture route and every history of capture, clear, reuse, clone and ownership conversion",
 "Tests buffer a few literals once; reuse histories, deep nesting and hint/tag/label retention are not sampled.",
 ["buffer/src/value.rs"],
 [("flat part list with subtree lengths","buffer/src/value.rs"),("ownership conversion","buffer/src/value.rs into_owned")],
 [("part stack / completeness flag","open containers and whether a whole value has been captured","buffer/src/value.rs ValueBuf")],
 ["replayed stream","completeness query"])
p("B02","Text and binary buffers hold exactly the concatenated fragments",
 "Collecting text or binary gives exactly the concatenation of its fragments, in order, for every mix of borrowed and short-lived fragments, and the borrowed accessor returns the data only when it truly is the whole original borrowed slice. Values that are not text (or not binary, for which a sequence of bytes also counts), and values that fail part-way, make collection return an error, never a panic or a silently truncated or altered buffer. In builds without an allocator the same holds: the buffer is either exact or an error.",
 ["inputs","fault_sequences","configurations"],"every fragment sequence, every failing value, allocator and allocator-less builds",
 "Tests push one or two fragments and never collect a value that fails.",
 ["buffer/src/fragments.rs","buffer/src/value.rs","buffer/src/error.rs"],
 [("fragment buffer","buffer/src/fragments.rs"),("collectors","buffer/src/fragments.rs")],
 (),["buffer contents","call result"])
p("S01","Wrapping a value or a stream never changes what is streamed",
 "Streaming through any forwarding layer (references, boxes, dynamic value or stream objects, reference-holding wrappers, short-lived delivery) produces the same sequence of data-model calls, with the same arguments and the same result, as streaming the wrapped value into the wrapped stream directly. The wrapped value's tag and scalar conversions are the same through the wrapper. This holds for any depth and mix of wrappers, and for every entry of the streaming interface.",
 ["inputs","programs"],"every value, every stack of forwarding wrappers around the value and around the stream",
 "There are dozens of hand-written forwarding methods; tests exercise few of them and never in combination.",
 ["src/stream.rs","src/value.rs","dynamic/src/stream.rs","dynamic/src/value.rs","ref/src/lib.rs"],
 [("forwarding impls","src/stream.rs, src/value.rs"),("object-safe erasure","dynamic/src")],
 (),["calls received by the stream","tag and conversion results"])
p("S02","Streams that implement only the basics receive equivalent data",
 "A stream that implements only the required methods of the data model and leaves everything else to the defaults receives an equivalent rendering of every value: integers and floats numerically equal (or as tagged number text when too large), binary as its bytes in order, maps as key/value pairs, records, tuples and enums with all their fields in order. No element, key or digit is lost, duplicated, reordered or rounded, and begin/end calls stay balanced. The same holds for any subset of optional methods a stream chooses to implement.",
 ["inputs","programs"],"every value and every choice of overridden methods",
 "Default methods are exercised by accident only; extreme integers and per-method fallbacks have no tests.",
 ["src/stream.rs","src/data/number.rs"],
 [("default stream methods","src/stream.rs default_stream"),("number fallback","src/data/number.rs")],
 (),["calls received by a minimal stream"])
p("S03","Scalar conversions are exact or absent",
 "Asking a value for a boolean, integer, float, text or binary form returns a result only if the value really is that datum, and then returns exactly it: never truncated, wrapped, rounded to another integer, or partial text. An integer converts to its own type always, and between widths of the same signedness exactly when it fits; conversions give the same answer through every reference, box, tag, option and dynamic object around the value. Text and binary accessors borrow the original data.",
 ["inputs"],"every scalar value and width, and every wrapper around it (references, boxes, options, dynamic objects, buffered values)",
 "Tests check one small value per width; boundary values and fragmented text are not covered.",
 ["src/value.rs","src/data/number.rs","src/data/text.rs","src/data/binary.rs","src/data/option.rs","buffer/src/value.rs"],
 [("default extraction","src/value.rs default_value"),("number impls","src/data/number.rs")],
 (),["conversion results"])
p("S04","Labels, indexes and tags behave as plain values",
 "A label keeps its text and tag hint through cloning, taking ownership and moving, and compares and hashes by its text alone so that static, borrowed and owned labels are interchangeable; its static form is offered only when the text really is static. An index converts to a primitive integer only when it fits, exactly, and orders and hashes by its number. Two tags are equal exactly when they were created from the same identifier.",
 ["inputs","histories"],"every string and integer, every construction route and every sequence of clones and conversions",
 "Tests cover single literals; owned-label cloning with tags and integer boundaries are not sampled.",
 ["src/data.rs"],
 [("label storage","src/data.rs Label"),("index conversions","src/data.rs Index"),("tag identity","src/data.rs Tag")],
 (),["accessors, equality, hash, ordering"])
p("S05","Built-in types stream well-formed, complete data",
 "Every built-in implementation (integers, floats, text, characters, formatted text, options, units, slices, arrays, vectors, tuples of every length, maps, binary wrappers) emits a balanced, well-nested stream with truthful size hints that contains exactly the Rust value's contents in iteration order. The emitted tag equals the one the type reports. The same value streamed twice emits the same stream.",
 ["inputs"],"every value of the built-in types and every nesting of them",
 "Tests cover literal samples of some types; tuple arities, wide values and nested combinations are not exhaustively sampled.",
 ["src/data/seq.rs","src/data/map.rs","src/data/text.rs","src/data/binary.rs","src/data/option.rs","src/data/number.rs","src/data.rs","src/value.rs"],
 [("Value impls","src/data")],
 (),["stream calls","tag query"])
p("S06","Errors stop streaming at once and always reach the caller",
 "If a stream rejects any single call, the value being streamed makes no further calls to it and the failure reaches the caller through every adapter in between, with no panic and no success reported. If a value fails part-way, every adapter and output function that can report an error reports failure (the infallible Display adapter shows an error placeholder instead). Retrying afterwards with a healthy stream or value gives the normal result.",
 ["inputs","fault_sequences"],"every value, every adapter stack, and a failure injected at every call position",
 "Tests have almost no failing streams or values; the failing position is never varied.",
 ["src/stream.rs","src/data","dynamic/src","ref/src/lib.rs","buffer/src/value.rs","flatten/src/flattener.rs","nested/src/flat.rs","serde/src"],
 [("error propagation through adapters","src/stream.rs, flatten/src/flattener.rs, nested/src/flat.rs, buffer/src/value.rs")],
 (),["calls after the injected failure","call result"])
p("S07","Short-lived data is never handed out as long-lived",
 "Text or binary delivered as borrowed for the long-lived stream lifetime always lies inside data that outlives the stream; anything delivered through a short-lived (computed) route arrives only as computed fragments, through every adapter. Borrowed data streamed directly from a long-lived value is still offered as borrowed by buffers and wrappers that preserve borrowing.",
 ["inputs","programs"],"every value, every mix of borrowed and short-lived delivery at any depth, every adapter",
 "The distinction is carried by unsafe lifetime conversions the type checker cannot verify; tests compare tokens for a few values.",
 ["src/stream.rs","ref/src/lib.rs","dynamic/src/stream.rs","buffer/src/value.rs","buffer/src/fragments.rs","flatten/src/label.rs","nested/src/flat.rs"],
 [("computed wrapper","src/stream.rs Computed"),("borrowed references","ref/src/lib.rs")],
 (),["address and flavour of every fragment a stream receives"])
p("N01","The recursive stream interface sees the same data as the flat one",
 "A recursive-style stream driven by any value receives the same structure, scalars, labels, indexes, tags and order that a flat stream receives, whether child values arrive as whole values or as individual calls, and its result is returned to the caller. Values the recursive form cannot express are rejected with an error, never a panic, dropped part or altered data. A value that breaks the streaming protocol never causes a panic, and one that breaks off before its data is complete is an error.",
 ["inputs"],"every well-formed value and every delivery style (whole children or call by call), including enums nested in enums and containers in variants",
 "Tests drive a few shapes; partially delivered nested containers and nested enums with record or tuple variants are barely covered.",
 ["nested/src/flat.rs","nested/src/flat_enum.rs","nested/src/lib.rs"],
 [("flat-to-recursive state machine","nested/src/flat.rs"),("nested enum queue","nested/src/flat_enum.rs")],
 [("current container state and partial child buffer","what is open and what is being buffered","nested/src/flat.rs FlatStream")],
 ["recursive stream callbacks","result"])
p("E01","Serializing through serde preserves the value",
 "Adapting a value to serde presents any serializer with the same data: scalars at their width, text, bytes, sequences, maps, structs, tuples and enum variants with the right names, positions, lengths and order. A serializer therefore produces the same document as for the equivalent serde type, errors from the serializer or the value come back as errors, and nothing panics, even for a value that breaks the streaming protocol; one that breaks off before its data is complete is an error.",
 ["inputs","fault_sequences"],"every well-formed value serde can express, every delivery style, serializer failures at every call",
 "Tests use a few derived types and one token serializer.",
 ["serde/src/to_serialize.rs","nested/src/flat.rs","nested/src/flat_enum.rs"],
 [("stream-to-serializer bridge","serde/src/to_serialize.rs")],
 (),["calls received by a recording serializer"])
p("E02","Streaming serde-serializable data preserves it",
 "Adapting any serde-serializable data to a value streams exactly the data the serialization emits: every scalar kind, option, unit, newtype, sequence, map, struct and enum variant kind, with names, variant indexes and order, in a balanced stream. Encoding it as JSON equals serde_json's own encoding. Errors raised while serializing come back as errors.",
 ["inputs","fault_sequences"],"every sequence of serializer calls a well-behaved serde type can make, errors at every point",
 "Tests cover a few derived types.",
 ["serde/src/to_value.rs"],
 [("serializer-to-stream bridge","serde/src/to_value.rs")],
 (),["stream calls"])
p("F01","Flattening splices exactly the documented fields into the parent",
 "Flattening a value onto a map, sequence, record or tuple contributes each of its entries exactly once and in order, keyed, labelled or indexed as documented for that combination, leaves nested values inside entries untouched, ignores values with nothing to flatten, and returns the parent's correct next offset. The resulting parent stream is well-formed.",
 ["inputs"],"every flattened value (any container, enum or wrapper nesting, simple and compound keys) onto every parent kind and starting offset",
 "Tests flatten two-entry containers holding integers; nested containers inside entries and compound keys with numbers are not covered.",
 ["flatten/src/flattener.rs","flatten/src/label.rs","flatten/src/index.rs","flatten/src/map.rs","flatten/src/record.rs","flatten/src/record_tuple.rs","flatten/src/tuple.rs","flatten/src/seq.rs"],
 [("flattener","flatten/src/flattener.rs"),("key to label conversion","flatten/src/label.rs"),("offset allocation","flatten/src/index.rs")],
 (),["stream calls on the parent","returned offset"])
p("D01","Derived implementations stream what the type and attributes say",
 "For every struct and enum accepted by the derive macro, the generated implementation streams a balanced value containing each non-skipped field exactly once, in declaration order, under the label, index and tag its attributes specify (by default the identifier and position), with truthful size hints, and reports the declared tag. Enum values stream the variant that was built with its label, index and contents.",
 ["programs","inputs"],"every type definition over the supported attributes (tags, labels, indexes, skip, flatten, unlabeled/unindexed, transparent, dynamic, discriminants, generics) and every value of it",
 "Tests fix about thirty type definitions with one value each.",
 ["derive_macros/src/derive.rs","derive_macros/src/derive","derive_macros/src/stream","derive_macros/src/attr.rs","derive_macros/src/index.rs","derive_macros/src/label.rs"],
 [("code generation","derive_macros/src/stream/stream_record_tuple.rs"),("index allocation","derive_macros/src/index.rs")],
 (),["stream calls","tag query"])
p("D02","The derive macro refuses what it cannot honour",
 "A definition whose sval attributes can't be honoured never compiles into an implementation that silently drops or guesses them: an attribute the macro doesn't know, one that doesn't belong on the item it is put on, the same attribute twice on one item (in one list or in several), a value of the wrong kind, attributes that contradict each other (dynamic with a tag, label, index, unlabeled or unindexed variants; transparent with a tag, label or index; a label on a field under unlabeled fields, an index under unindexed fields, labels on only some fields of a tuple), a union, and flatten without its Cargo feature are compile errors wherever they occur in the definition. The same definition without the fault is accepted.",
 ["programs"],"every type definition with one such fault at any container, variant or field, among any number of sound attributes, fields and variants",
 "There is no test that a definition is refused.",
 ["derive_macros/src/attr.rs","derive_macros/src/derive","derive_macros/src/stream"],
 [("attribute checks","derive_macros/src/attr.rs"),("dynamic enums","derive_macros/src/derive/derive_enum.rs"),("transparent newtypes","derive_macros/src/derive/derive_newtype.rs"),("fields","derive_macros/src/stream/stream_record_tuple.rs")],
 (),["compiler diagnostics by definition"])
p("M01","Safe callers can never trigger undefined behaviour",
 "No use of the public safe interface, including labels, borrowed wrappers, buffers, ownership conversions and adapters, in any order and including failure and drop paths, reads or writes invalid memory, leaks, double frees, breaks aliasing rules or races between threads. Objects declared shareable between threads can be cloned, read and dropped concurrently.",
 ["inputs","histories","schedules"],"every history of safe calls, every value, and every thread schedule",
 "Ordinary tests do not notice undefined behaviour; they run without sanitizers or an interpreter.",
 ["src/data.rs","src/stream.rs","src/data/binary.rs","src/data/map.rs","src/data/text.rs","buffer/src/value.rs","ref/src/lib.rs","dynamic/src","fmt/src/to_fmt.rs","fmt/src/to_value.rs","json/src/value.rs","serde/src"],
 [("unsafe blocks: label storage, transparent casts, lifetime extension in buffers","src/data.rs, buffer/src/value.rs")],
 (),["Miri and AddressSanitizer reports"])
p("G01","Test tokens record exactly what is streamed; assertions on them tell the truth",
 "Streaming any value to the test-support token buffer yields exactly one token per call made, in order, carrying that call's arguments (kinds, widths, size hints, tags, labels, indexes, fragment contents, and borrowed fragments pointing at the value's own memory). The token assertion passes exactly when the value streams successfully to exactly those tokens; the validity assertions pass exactly when streaming succeeds or fails respectively.",
 ["inputs"],"every value, every list of expected tokens, failures at every point",
 "The repository's own tests are written in terms of these assertions, so a recorder that drops or mangles a call silently weakens them and no test notices.",
 ["test/src/lib.rs"],
 [("token recorder","test/src/lib.rs TokenBuf"),("assertions","test/src/lib.rs assert_tokens, assert_valid, assert_invalid")],
 (),["recorded tokens","whether the assertion panics"])
p("X01","The experimental JSON reader streams exactly the document it is given",
 "For every valid JSON document within what the prototype supports (any nesting, white space and Unicode; the escapes for newline, carriage return, quote and backslash; lower-case exponents), the experimental slice reader streams a balanced value holding exactly the document's data in order: object keys and values as map entries, arrays as sequences, text unescaped, numbers with their exact text tagged as numbers. Text it offers as borrowed lies in the document. Nesting beyond its counters, or closing brackets that are missing, makes it fail, never misread; a stream that rejects a call is not called again.",
 ["inputs","fault_sequences"],"every supported document, every position of white space, every rejected call",
 "One test reads one three-field object.",
 ["experiments/src/json/from_slice.rs"],
 [("incremental reader","experiments/src/json/from_slice.rs JsonSliceReader"),("nesting counters","experiments/src/json/from_slice.rs Stack")],
 [("position and nesting counters","what the reader is inside of","experiments/src/json/from_slice.rs JsonSliceReader")],["stream calls","call result"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
