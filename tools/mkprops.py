#!/usr/bin/env python3
# Writes /verif/properties.jsonl. The property texts live here so that they are easy to edit.
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

GO1=["encode.go","decode.go","encoder.go","decoder.go","buffer.go"]
GO2=["v2/encode.go","v2/decode.go","v2/encoder.go","v2/decoder.go","v2/buffer.go"]
RS=["encoder.rs","decoder.rs","kind.rs"]
TS=["encoder.ts","decoder.ts","kind.ts"]
C=["c_bindings/encoder.rs","c_bindings/decoder.rs","c_bindings/types.rs"]
ALL=GO1+GO2+RS+TS+C

p("C01","Every value sequence survives encode then decode unchanged",
 "A sequence of values written with an implementation's encoder (Go v1, Go v2, Rust, C or TypeScript) is read back by the same implementation's decoder, asked for the same types in the same order, as exactly the values written: integers over their whole range, floats bit for bit, byte strings, strings and error messages byte for byte, array and map headers with their size. Decoding succeeds at every step and consumes exactly the bytes that were produced, and a decoded error equals the original one by message.",
 ["inputs","histories"],"all values of all 15 types, all sequences of values",
 "The tests encode about one value per type (1024, -2147483648, 'Test String' ...); unrolled variable-length integer code has a separate branch per length, so most branches and all branch boundaries are never run, and sequences mix types only in a few fixed orders.",
 ALL,[("per-type encode functions","encode.go, v2/encode.go, encoder.rs, encoder.ts"),("per-type decode functions","decode.go, v2/decode.go, decoder.rs, decoder.ts")],
 observe=["bytes of the encoder's buffer","values returned by the decoder"])
p("C02","One canonical wire format shared by every language",
 "For the same sequence of values every implementation (Go v1, Go v2, Rust, C, TypeScript) produces the same bytes, namely the documented format: a kind byte, little-endian base-128 varints of minimal length, zig-zag signed integers, big-endian IEEE floats, length-prefixed data. Bytes produced by any one implementation therefore decode in every other to the same values.",
 ["inputs","histories","configurations"],"all values and value sequences, all pairs of implementations",
 "The shared integration-test-data.json holds one sample value per type; bytes are compared for those samples only and each language's tests run alone.",
 ALL+["integration-test-data.json"],[("kind numbering","encode.go, v2/encode.go, kind.rs, kind.ts, c_bindings/types.rs"),("varint and zig-zag encoders","encode.go, v2/encode.go, encoder.rs, encoder.ts")],
 observe=["encoder output bytes","decoder results across languages"])
p("C03","Decoding arbitrary bytes never crashes, hangs or reads out of bounds",
 "Whatever bytes a decoder is given and whatever sequence of types is requested from it, each request returns a value or reports an error in bounded time: no panic, abort, out-of-range access, stray exception type or endless loop, and the read position never moves backwards or past the end of the input. This holds in every implementation, including requests made after a failed one.",
 ["inputs","histories"],"all byte strings and all request sequences",
 "The tests feed decoders either well-formed input or the same input shifted by one byte; they never try truncated or over-long varints, hostile length prefixes or continued use after an error.",
 ["decode.go","v2/decode.go","decoder.rs","decoder.ts","c_bindings/decoder.rs"],[("length checks before each access","decode.go, v2/decode.go"),("cursor reads returning Result","decoder.rs"),("bounds of pop/peek","decoder.ts")])
p("C04","A truncated value is never accepted",
 "If an encoded value is cut short anywhere, requesting that value from the remaining prefix reports an error in every implementation; no value made of partial or invented data is returned. The same holds for the last value of a longer message, whose earlier values still decode correctly.",
 ["inputs","fault_sequences"],"all values and all cut points",
 "The tests contain no truncated input apart from the completely empty one.",
 ["decode.go","v2/decode.go","decoder.rs","decoder.ts","c_bindings/decoder.rs"],[("remaining-length checks","decode.go, v2/decode.go"),("read_exact / read_u8 errors","decoder.rs"),("payload length checks","decoder.ts")])
p("C05","Asking for the wrong type fails and consumes nothing",
 "When the next value is not of the requested type, or is an array or map whose element kinds differ from those requested, the request reports an error (the nil probe reports 'not nil') and leaves the read position unchanged. Any number of such failed requests can therefore be followed by the right request, which returns the value as if nothing had happened.",
 ["inputs","histories"],"all pairs of encoded and requested types and element kinds, all histories of failed requests",
 "Tests check that a wrong request returns an error, not where the decoder stands afterwards; generated code relies on it for every optional or nil field.",
 ["decode.go","v2/decode.go","decoder.rs","decoder.ts","c_bindings/decoder.rs"],[("return of the unchanged input slice","decode.go, v2/decode.go"),("position restored with set_position","decoder.rs"),("validateKind peeks before consuming","decoder.ts")])
p("C06","All decoders accept the same inputs, with the same meaning",
 "For every byte string and requested type, the decoders of all languages agree whether it is accepted and, if so, on the value and on how many bytes it occupies; integers whose encoding is longer than the type allows or carries bits beyond its width are rejected rather than silently truncated. (Left open: boolean payload bytes other than 0 and 1, strings that are not valid UTF-8 and, in C, strings with an embedded NUL.)",
 ["inputs","configurations"],"all byte strings, all requested types, all implementations",
 "No test decodes input that no encoder would produce, and no test compares two decoders on the same hostile input.",
 ["decode.go","v2/decode.go","decoder.rs","decoder.ts","c_bindings/decoder.rs"],[("varint length limit and overflow test","decode.go"),("unrolled varint decoders","v2/decode.go"),("varint loops","decoder.rs, decoder.ts")])
p("C07","Encoded bytes do not depend on the buffer they are written to",
 "The bytes an encoder appends are the same whatever buffer it writes to: any capacity, remaining space, stale earlier contents, origin (fresh, sized, wrapped around caller memory, reused after reset, subarray view) or earlier values in it. Bytes already in the buffer stay as they were, and encoding never fails for lack of space.",
 ["inputs","histories","configurations"],"all buffer capacities, fill levels and origins crossed with all values",
 "Tests encode into a fresh 512-byte buffer, so the growth and reservation logic runs with a handful of fill levels only.",
 ["buffer.go","v2/buffer.go","v2/encode.go","encode.go","encoder.ts","encoder.rs"],[("space reserved per value before writing","v2/encode.go"),("growth","v2/buffer.go, buffer.go, encoder.ts")],
 state=[("offset/capacity","how much is written and how much space is left","v2/buffer.go, encoder.ts")])
p("C08","The Go buffers behave like a growable byte sequence",
 "In both Go versions, after any sequence of buffer operations the visible contents equal what was written since the last reset, in order, with the reported length equal to the number of bytes and never above the capacity. Growing never changes contents or length and guarantees the requested room, writing reports the number of bytes written, resetting empties the buffer, and moving the offset changes the length by exactly that amount while keeping earlier bytes.",
 ["histories"],"all sequences of buffer operations, argument sizes and initial buffers",
 "Tests write a few fixed chunks; growth from every (capacity, offset) combination and interactions between grow, reset, offset moves and encoders are not reached.",
 ["buffer.go","v2/buffer.go"],[("growth policy","v2/buffer.go"),("append or copy in place","buffer.go")],
 state=[("offset","number of valid bytes","v2/buffer.go")])
p("C09","Pooled buffers and decoders are never shared or dirty",
 "A buffer or decoder taken from a pool belongs to its taker alone until it is given back, under every interleaving of goroutines and whether or not the pool happens to recycle an object. A buffer obtained from the pool is always empty and a pooled decoder reads exactly the bytes it was obtained for, with nothing visible from an earlier use.",
 ["schedules","histories"],"all interleavings of get, use and put by several goroutines, all recycle/allocate choices of the pool",
 "Tests use one goroutine, and which object the runtime's pool hands out depends on scheduling and garbage collection, so reuse paths run by luck.",
 ["v2/pool.go","v2/buffer.go","decoder.go"],[("reset before put","v2/pool.go"),("input installed at get, cleared at put","decoder.go")],
 state=[("package-level pools","recycled buffers and decoders","v2/pool.go, decoder.go")],
 hook="none: build-time instrumentation through -overlay")
p("C10","Independent encoders and decoders never interfere across goroutines",
 "Goroutines that encode into different buffers or decode with different decoders, even over the same read-only input, obtain exactly the results they would obtain alone, under every interleaving, without any synchronisation by the caller.",
 ["schedules"],"all interleavings of encode and decode calls on disjoint objects",
 "Tests are single-goroutine; hidden shared scratch space would only show under particular interleavings.",
 GO1+GO2+["v2/pool.go"],[("no mutable package state in the codec","encode.go, decode.go, v2/encode.go, v2/decode.go")],
 hook="none: build-time instrumentation through -overlay")
p("C11","Decoded values are independent copies",
 "A decoded byte string, string or error stays the same when the input is later overwritten or freed or when other values are decoded, and changing a decoded byte string changes neither the input nor other values; likewise overwriting caller data after encoding it does not change what was encoded. In Go, decoding bytes into a scratch slice of any length and capacity returns exactly the payload, writes nothing outside that scratch slice, and decoding never modifies the input.",
 ["inputs","histories"],"all payload sizes, scratch lengths and capacities, all orders of decode and overwrite",
 "Tests never overwrite the input after decoding and use scratch slices of one size.",
 ["decode.go","v2/decode.go","encode.go","v2/encode.go","decoder.ts","decoder.rs","c_bindings/decoder.rs"],[("append into scratch","v2/decode.go"),("copy or append into scratch","decode.go"),("slice() copies","decoder.ts"),("input copied at decoder creation","c_bindings/decoder.rs")])
p("C12","A failed decode names the requested type and yields no data",
 "Every failed decode reports the error belonging to the type that was requested (or, when a length prefix is what is malformed, the error of the prefix's integer type), never that of an unrelated type, and returns the type's zero value where the language returns a value beside the error. This holds for every failing input in Go v1, Go v2, Rust and TypeScript.",
 ["inputs"],"all failing inputs for all requested types",
 "Tests assert the error for one wrong-type input per type; other failure paths (short input, overflow, element kinds) have their own return statements that no test reaches.",
 ["decode.go","v2/decode.go","decoder.rs","decoder.ts"],[("one error value per type","decode.go, v2/decode.go, decoder.rs, decoder.ts")])
p("C13","The C API always reports a status and survives null arguments",
 "Every call of the C interface sets the caller's status: success when the operation took effect, failure when it did not, null-pointer when a required pointer argument (handle, data or string) is null, in which case nothing is read, written or changed. Values are returned only with success, and a failed call leaves the encoder's contents as they were.",
 ["inputs","histories"],"all functions, all null/non-null argument combinations, all call sequences up to the bound, all prior status values",
 "The C test makes one pass of successful calls; the null and failure paths of the other functions are never called.",
 C+["polyglot.h"],[("status assignment on each path","c_bindings/encoder.rs, c_bindings/decoder.rs"),("null checks","c_bindings/encoder.rs, c_bindings/decoder.rs")])
p("C14","The C API hands over memory exactly once",
 "For every sequence of C calls in which the caller frees each returned object once with its matching free function, every allocation is released exactly once, nothing is leaked, freed twice or touched after being freed, and no memory outside the caller's and library's own buffers is read or written. This includes empty and failed values, early frees and freeing null.",
 ["histories","inputs"],"all call sequences up to the bound, all payload sizes including zero",
 "The one C test decodes one non-empty value of each type under valgrind.",
 C,[("boxes turned into raw pointers and back","c_bindings/encoder.rs, c_bindings/decoder.rs, c_bindings/types.rs")])
p("C15","Decoding memory is bounded by the input actually present",
 "A decoder never reserves memory in proportion to a length or size that the input merely claims: what a request allocates is bounded by a small constant plus a small multiple of the bytes remaining in the input. A length prefix that exceeds the remaining input is rejected before anything of that size is allocated.",
 ["inputs"],"all claimed lengths against all actual lengths",
 "No test gives a length prefix larger than the data, and none measures allocation on failure.",
 ["decode.go","v2/decode.go","decoder.rs","c_bindings/decoder.rs","decoder.ts"],[("length compared with the remaining input before allocating","decode.go, v2/decode.go, decoder.rs")])
p("C16","Generated Go code compiles and preserves every message",
 "For every supported schema (proto2 or proto3, one file per Go package, without groups, services, extensions, proto3 optional fields or types of other packages) the Go generators (v1 and v2) produce code that compiles, and encoding any instance of a generated message and decoding it again gives an equal message, consuming exactly its bytes: scalars, strings, bytes, enums, repeated fields, maps, nested messages and nil messages. This also holds when decoding into a target that already holds other data, and for several messages in a row. The constants of an enum have distinct numbers.",
 ["programs","inputs","histories"],"all supported field types, cardinalities and nestings; all field values including nil and empty",
 "The repository's generator tests cover two fixed schemas with a few values; most combinations of field type and cardinality are never generated, compiled or run.",
 ["generator/golang/generator.go","v2/generator/golang/generator.go"],[("Go templates","generator/golang/templates, v2/generator/golang/templates")])
p("C17","Generated Go code rejects damaged input safely",
 "Decoding a generated message from any byte string ends with a message or an error, without panic, runaway allocation or hang; in particular every strict prefix of an encoded non-nil message with at least one field, and every message whose field has a value of another type in its place, is reported as an error. A nil message and an encoded error are recognised as such rather than decoded as data.",
 ["inputs","fault_sequences"],"all byte strings and truncations, all generated message shapes in the schema family",
 "Generated code is only ever run on its own intact output.",
 ["generator/golang/templates","v2/generator/golang/templates"],[("error returned at each field","decode templates")])
p("C18","Generated Rust code interoperates with generated Go code",
 "For the schemas both generators support, the generated Rust code compiles, and a message encoded by the Go code of either version decodes in the Rust code to the same field values and re-encodes to the same bytes, and the other way round. The constants of an enum have the same numbers in both languages and versions.",
 ["programs","inputs"],"all supported field types, cardinalities and nestings in both languages",
 "No test runs generated code of two languages against each other.",
 ["generator/rust/generator.go","v2/generator/rust/generator.go","generator/golang/generator.go","v2/generator/golang/generator.go"],[("field order and wire calls of the templates","generator/*/templates, v2/generator/*/templates")])
p("C19","Code generation is a function of the schema alone",
 "For every schema, a generator's output is the same every time: it does not depend on earlier requests handled by the same generator, on other files in the same request or their order, or on unordered-container iteration. Each requested file yields exactly one output whose package, file and message names derive from that file.",
 ["histories","configurations"],"all histories of requests and all sets and orders of files up to the bound",
 "Generator tests make one request with one file in a fresh process.",
 ["generator/golang/generator.go","generator/rust/generator.go","generator/typescript/generator.go","v2/generator/golang/generator.go","v2/generator/rust/generator.go","v2/generator/typescript/generator.go"],[("generator state between calls","generator/*/generator.go")])
p("C20","Generated Rust code rejects damaged input safely",
 "Decoding a generated Rust message from any bytes ends with a message, no message or an error, without panic, abort, hang, change to the input or memory beyond what the input can hold; every strict prefix of an encoded message with at least one field, and every message in which a value is replaced by one of another type, is reported as an error, and a nil in place of the whole message is reported as no message.",
 ["inputs","fault_sequences"],"all byte strings and truncations, all generated message shapes in the schema family",
 "The repository has no test that runs generated Rust code at all.",
 ["generator/rust/templates","v2/generator/rust/templates"],[("error returned at each field","decode.templ and decodeMap.templ of the Rust generators")])
p("C21","Generated TypeScript code interoperates with generated Go code",
 "For the schemas the generators support, the generated TypeScript code compiles against the TypeScript library, and a message without nil messages that the Go code of either version encodes decodes in it to the same field values, consuming exactly its bytes, and encodes to the same bytes again. The same holds for a copy made with the generated constructor or setters and for one message behind another. The constants of an enum have the same numbers as in Go.",
 ["inputs","configurations"],"all values of all generated message shapes in the schema family",
 "The repository has no test that compiles or runs generated TypeScript code; as published it did not compile.",
 ["generator/typescript","v2/generator/typescript"],[("field order and encoding","encode.templ, decode.templ, decodeMap.templ"),("names, types and kinds","structs.templ, structs.go")])
p("C22","Generated TypeScript code rejects damaged input safely",
 "Decoding a generated TypeScript message from any bytes ends with a message or one of the decoder's own errors, in bounded time and memory and without changing the input; every strict prefix of an encoded message with at least one field, and every message in which a value is replaced by one of another type, or by nil, is reported as an error.",
 ["inputs","fault_sequences"],"all byte strings and truncations, all generated message shapes in the schema family",
 "The repository has no test that runs generated TypeScript code at all.",
 ["generator/typescript/templates","v2/generator/typescript/templates"],[("each value read with its own type's decoder","decode.templ and decodeMap.templ of the TypeScript generators")])
p("C23","Encoders and decoders in use at the same time do not influence each other",
 "However many encoders and decoders of one implementation are in use at once, over separate buffers or over the same input, and however their creation, calls and end alternate within one thread, each behaves exactly as if it were the only one: an encoder produces the same bytes, a decoder returns the same values and errors and stands at the same positions. Bytes taken from an encoder and values taken from a decoder stay as they were while these or others go on. This holds in every language.",
 ["schedules","histories"],"all sets of encoders and decoders and all orders of their calls",
 "Every test creates one encoder or decoder and finishes with it before it creates the next.",
 ALL,[("buffer of a new encoder","encoder.ts constructor, NewBuffer in buffer.go and v2/buffer.go, c_bindings/encoder.rs"),("state of a decoder","decoder.go, decoder.ts, cursor in decoder.rs, c_bindings/decoder.rs")],
 observe=["bytes of each encoder","results and positions of each decoder"])
p("C24","Code added to a Go generator goes into every message and changes nothing else",
 "Users customise the Go generators (v1 and v2) with functions that return code of their own. What CustomFields returns appears in the struct of every generated message; what CustomEncode returns runs whenever a message that is not nil is encoded, ahead of its own fields, with the message x and the buffer b in scope; what CustomDecode returns runs whenever such a message is decoded, ahead of its own fields, with x, the decoder d and err in scope, and an error it returns is returned by Decode. Apart from what the added code itself does, the generated code behaves as it does without it. A generator uses its own functions, as they are at the time of a request, whatever other generators exist and whatever it generated before. ExecuteTemplate emits the same code in the package it is given, and without package clause and imports when header is false.",
 ["configurations","histories","inputs"],"all combinations of added code, all message shapes and values, all orders of changes and requests",
 "No test sets any of these functions or calls ExecuteTemplate.",
 ["generator/golang/generator.go","v2/generator/golang/generator.go"],[("insertion points","encode.templ, decode.templ, structs.templ of the Go generators"),("template functions that call the user's","New in generator.go"),("ExecuteTemplate","generator.go, base.templ")])
p("C25","Every name a schema can use gives code that compiles",
 "Whatever valid protobuf name a field, an oneof, a message, an enum, an enum constant (nested or not) or a package of a supported schema has, also a keyword of the target language, a word the generated code uses itself, or a name that begins with underscores and digits, the code the Go, Rust and TypeScript generators (v1 and v2) emit for it compiles against the library. Two fields of a message whose names differ in more than letter case and underscores get different identifiers. Outside: names the protobuf library rejects, two proto3 names with the same JSON name, a Go package called main.",
 ["schemas"],"all short names over an alphabet with every class of character, all keywords, in every place a name can stand, all pairs of field names",
 "The tests generate code for one schema with ordinary names.",
 ["utils/utils.go","v2/utils/utils.go","generator/golang/generator.go","generator/rust/structs.go","generator/typescript/generator.go"],[("names to identifiers","CamelCase, CamelCaseFullName, SnakeCase, SnakeCaseName, constantName"),("keywords","identifier and keyword lists of the Rust and TypeScript generators"),("package names","GoPackageName in the Go generator")])
p("C26","Every structure a schema can have gives code that compiles or is refused",
 "For every valid proto2 or proto3 schema file, the Go, Rust and TypeScript generators (v1 and v2) either emit one file that compiles against the library or report an error; they never panic, hang or emit code that does not compile. They refuse only what they do not support (proto2 groups). That holds for every field type with every label and as key and value of maps, in messages and oneofs, at the top of the file and nested, for recursive messages, for files with only enums, only services or nothing at all, for aliases, options, default values, extensions, reservations and comments, for every privacy setting of the Rust generator, and for all combinations of these in one message and in one file. The fields of Rust structs are as visible as the setting says (private by default, crate, public). Outside: proto3 optional (the plugins do not announce it), types of other files.",
 ["schemas"],"all features of the schema language, alone and in pairs, in one message and in two messages of a file",
 "The tests generate code for one schema, and compile what comes out only for Go and Rust.",
 ["generator/golang","generator/rust","generator/typescript","v2/generator/golang","v2/generator/rust","v2/generator/typescript"],[("imports of what is used, and no others in Go","imports.templ, imports functions"),("field, map and message types","structs.templ, structs.go"),("encoders and decoders of all kinds","encode.templ, decode.templ, encodeMap.templ, decodeMap.templ"),("options","Generate in generator.go")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
