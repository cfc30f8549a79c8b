#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (the list of properties, one JSON object per line).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
D="internal/decoder/"; E="internal/encoder/"
DEC=[D+x for x in "context.go int.go uint.go float.go bool.go string.go bytes.go ptr.go slice.go array.go map.go struct.go interface.go unmarshal_php.go wrapped_string.go invalid.go compile.go".split()]
ENC=[E+x for x in "marshal.go compile.go common.go bool.go int.go uint.go float.go string.go bytes.go int_as_string.go uint_at_string.go bool_as_string.go ptr.go slice.go slice_reflect.go array.go map.go map_reflect.go struct.go struct_reflect.go interface.go marshal_php.go context.go buffer.go compile_cache.go".split()]

p("C01","Unmarshal never panics, hangs or overflows the stack",
 "For every byte string and every destination value (including a nil interface, a nil or non-pointer destination, recursive types, and maps with any key type), Unmarshal returns either nil or an error: it never panics, never reads outside the input and never runs forever. A declared length or element count in the input never makes it panic or allocate memory out of proportion to the input. (Memory exhaustion caused by a large explicit slice index, and panics raised inside a user's UnmarshalPHP, are outside this statement.)",
 ["inputs"],"all byte strings x all destination types and values",
 "Tests try a few dozen inputs against a few dozen types; an out-of-range index, a reflect panic or a non-terminating loop needs one particular malformed byte at one particular place for one particular destination kind.",
 ["unmarshal.go"]+DEC,
 [("bounds helpers",D+"context.go hasByte, hasBytes"),("per-kind Decode",D+"*.go"),("type compilation",D+"compile.go")],
 ["Unmarshal(data, v) returning"])
p("C02","Unmarshal succeeds only on exactly one complete value",
 "When Unmarshal returns nil, the whole input is exactly one complete serialized value: every delimiter of every nested value is present, and no byte is left over after it (declared element counts of containers that have a destination are not compared with the actual count). An input that is a proper prefix of a valid encoding, or a valid encoding followed by any further byte, is rejected with an error.",
 ["inputs"],"all byte strings x all destination types",
 "Tests sample a few truncations and one or two trailing bytes; the claim is about every truncation point and every suffix for every value shape.",
 ["unmarshal.go"]+DEC,
 [("end-of-buffer validation","unmarshal.go validateEndBuf"),("cursor threading",D+"*.go Decode"),("token readers",D+"context.go")],
 ["the error returned by Unmarshal"])
p("C03","Integers decode exactly or are rejected",
 "Whenever an integer is decoded - as a field, element, map key, value in an interface, or from a string under the `string` tag - the stored Go value is exactly the decimal number written in the input; a number that does not fit the destination's width or signedness is rejected with an error and never wrapped, truncated or clamped. Every in-range decimal, including the extreme values of every width, is accepted.",
 ["inputs"],"all decimal numerals x all integer widths and positions",
 "Existing tests check a handful of boundary numerals for int64; the claim ranges over all numerals of any length and all ten integer kinds.",
 [D+"int.go",D+"uint.go",D+"context.go",D+"wrapped_string.go",D+"interface.go"],
 [("decimal parser",D+"int.go parseInt64"),("width check",D+"int.go, uint.go processBytes"),("lexer",D+"context.go readIntegerBytes")],
 ["the destination after Unmarshal","the error"])
p("C04","Strings decode byte-for-byte by declared length",
 "A serialized string decodes to exactly the declared number of bytes that follow the opening quote, whatever those bytes are (quotes, semicolons, braces, NUL, invalid UTF-8), for string, []byte, map-key and interface destinations. If the declared length disagrees with the position of the closing quote and semicolon, or runs past the end of the input, decoding fails.",
 ["inputs"],"all byte strings as content x all declared lengths",
 "Tests use a few fixed strings; content that imitates the surrounding syntax and declared lengths that overflow arithmetic are unbounded families.",
 [D+"context.go",D+"string.go",D+"bytes.go",D+"interface.go",D+"map.go",D+"struct.go"],
 [("length-prefixed reader",D+"context.go readString, readLength, skipLengthWithBothColon")],["decoded strings and byte slices"])
p("C05","Skipped content must be one well-formed value, skipped exactly",
 "Content with no destination (unknown struct keys, array indexes beyond a fixed-size array, and the value handed to a custom unmarshaler) is skipped as exactly one complete well-formed value, so that whatever follows is decoded as if the skipped content had not been there. If the skipped content is malformed - wrong delimiters, non-numeric or negative lengths, a declared element count different from the actual one, missing bytes - the call fails.",
 ["inputs"],"all byte strings appearing in a skipped position",
 "Tests skip a few shapes of values; an off-by-one in any skip routine only shows on the shape, nesting and following content that exposes it.",
 [D+"context.go",D+"struct.go",D+"array.go",D+"unmarshal_php.go",D+"interface.go"],
 [("skipper",D+"context.go skipValue, skipArray, skipString, skipClassName, readFloatBytes, readBool, validateNull")],["fields decoded after the skipped content","the error"])
p("C06","Container nesting is limited to 10000 everywhere",
 "An input whose arrays/objects nest more than 10000 deep is rejected with an error, never a stack overflow, whichever mixture of typed containers, interface values, skipped values and custom unmarshalers the nesting runs through. An input in which no value is nested inside 10000 or more containers is never rejected because of depth.",
 ["inputs"],"all nested inputs x all destination types",
 "Tests check the limit on a couple of single-kind nestings; the claim covers every mixture, where each decoder has to pass the depth on correctly.",
 [D+"context.go",D+"slice.go",D+"array.go",D+"map.go",D+"struct.go",D+"interface.go",D+"ptr.go",D+"unmarshal_php.go"],
 [("depth accounting",D+"*.go Decode(depth), skipArray(depth)")],["the error returned for deep inputs"])
p("C07","Custom unmarshalers receive exactly their value's bytes",
 "A value whose type implements UnmarshalPHP, wherever it occurs (top level, field, element, map value or key, behind a pointer), has UnmarshalPHP called exactly once per occurrence with exactly the bytes of its serialized value; its error makes Unmarshal fail, and on success its result is stored. A serialized null sets the destination to its zero value without calling it.",
 ["inputs"],"all inputs x all positions of custom types",
 "Tests have two custom types in a few positions; the exact byte extent depends on everything the skipper accepts.",
 [D+"unmarshal_php.go",D+"interface.go",D+"compile.go",D+"context.go"],
 [("custom decode",D+"unmarshal_php.go Decode"),("type test",D+"compile.go compile, compileHead")],["bytes passed to UnmarshalPHP","destination"])
p("C08","Decoded data is isolated from the input and from itself",
 "Unmarshal never modifies the input bytes and keeps no reference to them: changing the input afterwards changes no decoded value. Distinct decoded strings and byte slices never share memory in a way that modifying or appending to one could change another.",
 ["inputs","histories"],"all inputs, and all later writes/appends to the input or the decoded slices",
 "Aliasing is invisible until a later write; tests compare values right after decoding.",
 ["unmarshal.go",D+"context.go",D+"bytes.go",D+"string.go"],
 [("private copy of the input","unmarshal.go unmarshal"),("byte slices handed to the destination",D+"context.go readString, bytes.go Decode")],["decoded values after later writes"])
p("C09","Marshal results are caller-owned and independent of history",
 "The byte slice returned by Marshal belongs to the caller: no later or concurrent call changes it. The result of a Marshal or Unmarshal call depends only on its arguments, not on earlier calls, including calls that failed part-way.",
 ["histories"],"all sequences of calls, including failing ones",
 "Tests call once and compare at once; leaking pooled state needs a particular earlier call (an error inside nested containers, say) before the observed one.",
 [E+"marshal.go",E+"context.go",E+"buffer.go",E+"struct.go",E+"ptr.go",E+"interface.go",D+"context.go","unmarshal.go"],
 [("result copy",E+"marshal.go Marshal"),("pooled context reset",E+"context.go, "+D+"context.go"),("depth/seen restore",E+"ptr.go, interface.go"),("per-struct buffers",E+"buffer.go, struct.go")],
 ["returned slices after later calls","results after failed calls"])
p("C10","Concurrent use is race-free; shared codecs are immutable",
 "Any number of goroutines may call Marshal and Unmarshal at the same time, on the same or different types, with the results each would get alone. Codecs shared between calls, and the caches that hold them, are never modified once another goroutine can see them.",
 ["schedules"],"all interleavings of concurrent calls, cold or warm caches",
 "A race shows only under particular interleavings; tests run calls one after another.",
 [D+"compile.go",E+"compile_cache.go",D+"context.go",E+"context.go",E+"buffer.go"]+[D+"wrapped_string.go"],
 [("copy-on-write caches",D+"compile.go storeDecoder; "+E+"compile_cache.go storeEncoder"),("pools","sync.Pool in "+E+"context.go, buffer.go, "+D+"context.go")],
 ["results of concurrent calls","race detector"])
p("C11","Marshal output is one well-formed value with exact counts",
 "Whenever Marshal succeeds on a value without custom marshalers, its output is exactly one well-formed serialized value: every declared string length equals the number of bytes between the quotes and every declared element count equals the number of key/value pairs that follow. Elements of slices and arrays carry the consecutive integer keys 0..n-1, and nil pointers, maps, slices and interfaces are written as N; (a nil []byte is written as the empty string).",
 ["inputs"],"all Go values of supported types",
 "Tests compare a few dozen outputs; counts and lengths must agree for every content and nesting, on both the statically typed and the interface path.",
 ENC,[("container writers",E+"slice.go, array.go, map.go, map_reflect.go, slice_reflect.go, struct.go"),("heads",E+"common.go")],["bytes returned by Marshal"])
p("C12","Scalars are encoded exactly and canonically",
 "Booleans encode as b:1; or b:0;, every integer of every width encodes as i:<its exact decimal value>;, strings and []byte as s:<byte length>:\"<exact bytes>\";. Every float encodes as d:<shortest decimal that parses back to the same value of its own width>; with NAN, INF and -INF for the non-finite values.",
 ["inputs"],"all scalar values of all widths",
 "Tests sample a few values per type; the extremes, negative zero, float32 rounding, subnormals and non-finite values are an unbounded family.",
 [E+"bool.go",E+"int.go",E+"uint.go",E+"float.go",E+"string.go",E+"bytes.go",E+"common.go"],
 [("scalar writers",E+"bool.go, int.go, uint.go, float.go, string.go, bytes.go")],["bytes returned by Marshal"])
p("C13","`string`-tagged fields encode with exact length and decode back",
 "A struct field tagged `string` of boolean, integer, float or string kind (or pointer to one) is encoded as a PHP string whose declared length is exactly the number of bytes of its text, the text being the value's decimal (or true/false) form. Unmarshal of that encoding into the same struct type restores the value, and text that is not the decimal form of an in-range value is rejected.",
 ["inputs"],"all values of tagged scalar fields; all texts on decoding",
 "The digit count is computed separately from the digits; tests check a few values, not every power-of-ten boundary and sign.",
 [E+"int_as_string.go",E+"uint_at_string.go",E+"bool_as_string.go",E+"float.go",E+"interface.go",D+"wrapped_string.go"],
 [("digit counting",E+"int_as_string.go iterativeDigitsCount; uint_at_string.go uintDigitsCount"),("wrapped decoding",D+"wrapped_string.go")],["bytes returned by Marshal","decoded fields"])
p("C14","Structs encode exactly their tagged exported fields in order",
 "A struct encodes as an array containing exactly one entry per exported field that is not excluded by the tag `-` and not an omitempty field holding its zero value, in declaration order, each under its tag name (or Go name when the tag gives none), and the declared count equals the number of entries written. This holds wherever the struct occurs: top level, nested, behind a pointer, or inside an interface.",
 ["inputs","programs"],"all struct types and values",
 "Tests fix a few struct types; the claim ranges over every combination of tags, kinds, pointers and zero values.",
 [E+"struct.go",E+"struct_reflect.go","internal/runtime/struct_field.go"],
 [("field compilation",E+"struct.go compileStructFieldsEncoders"),("field writing",E+"struct.go compileStructFields"),("tag parsing","internal/runtime/struct_field.go")],["bytes returned by Marshal"])
p("C15","Cyclic values fail with an error; acyclic ones never do",
 "Marshal of a value that contains itself through any combination of pointers, slices, maps, arrays, structs and interfaces returns an error instead of running forever or overflowing the stack. A value that does not contain itself is never rejected as recursive, however deeply nested it is and however often parts of it are shared.",
 ["inputs"],"all finite Go object graphs",
 "Tests have two or three hand-made cycles; whether the check fires depends on the mixture of static and interface paths and on the depth at which the cycle or sharing occurs.",
 [E+"ptr.go",E+"interface.go",E+"slice.go",E+"map.go",E+"array.go",E+"struct.go",E+"context.go"],
 [("seen set and depth counter",E+"ptr.go checkRecursiveEncoder, checkStructRecursiveEncoder; interface.go reflectRecursiveValue")],["error or success of Marshal"])
p("C16","Marshal then Unmarshal restores the value",
 "For every value built from booleans, integers, unsigned integers, floats, strings, []byte, slices, arrays, maps with string or integer keys, structs with distinct keys and pointers to these (without embedded fields; except pointers to nil slices or nil maps), Unmarshal of Marshal's output into a zero value of the same type succeeds and yields an equal value, where nil and empty slices or byte slices count as equal.",
 ["inputs","programs"],"all such types and values",
 "Tests round-trip a few values; encoder and decoder are separate code that must agree on every type combination and content.",
 ["marshal.go","unmarshal.go"]+DEC+ENC,
 [("encoder/decoder agreement",E+"compile.go, "+D+"compile.go"),("field keys","internal/runtime/struct_field.go")],["decoded value"])
p("C17","A serialized null has a fixed effect per destination kind",
 "Decoding N; never fails for a supported destination and sets pointers, maps, slices, interfaces and custom-unmarshaler values to their zero value, while booleans, numbers, strings, []byte, arrays and structs keep the value they had. The effect is the same at every position (top level, field, element).",
 ["inputs"],"all destinations, prior values and positions",
 "Tests check null for a few destination kinds at top level with zero prior value.",
 [D+x for x in "bool.go int.go uint.go float.go string.go bytes.go ptr.go slice.go array.go map.go struct.go interface.go unmarshal_php.go wrapped_string.go context.go".split()],
 [("N branch of each Decode",D+"*.go"),("validateNull",D+"context.go")],["destination after Unmarshal"])
p("C18","Slice and array elements land at their written index",
 "Decoding an array into a Go slice or fixed-size array stores each element at the integer index written before it, leaves every index not mentioned at the element's zero value, and makes the slice exactly as long as the largest index plus one, replacing earlier contents. For a fixed-size array elements beyond its length are skipped; a key that is not a non-negative integer is rejected.",
 ["inputs"],"all index sequences (gaps, repeats, any order) x element types",
 "Tests use consecutive indexes and one or two gaps; order, repetition and prior contents of the destination are not enumerated.",
 [D+"slice.go",D+"array.go",D+"context.go"],
 [("index handling",D+"slice.go, array.go Decode; context.go readInt")],["decoded slice/array"])
p("C19","Interface destinations get a fixed dynamic type per PHP type",
 "Decoding into an empty-interface destination, at any depth, stores nil for null, bool, int64, float64, string, map[any]any with int64 or string keys for an array, and map[string]any for an object, with exactly the decoded content; earlier contents of the interface do not influence the result.",
 ["inputs"],"all inputs x all positions of interface destinations",
 "Tests decode a few documents into any; nested combinations and prior contents are not enumerated.",
 [D+"interface.go",D+"map.go",D+"compile.go"],
 [("type switch on the first byte",D+"interface.go decodeEmptyInterface, mapKeyDecoder")],["dynamic types and values"])
p("C20","Struct keys select exactly the matching field on decoding",
 "Decoding an array or object into a struct stores each value in exactly the exported, non-ignored field whose key (tag name, or Go field name when the tag gives none) equals the written key byte-for-byte, and touches no other field; keys without a field are ignored. The key used for a field on decoding is the one Marshal writes for it.",
 ["inputs","programs"],"all struct types x all key/value sequences in any order",
 "Tests use a few struct types with keys in order; permutations, repeated, unknown and near-miss keys are not enumerated.",
 [D+"struct.go",D+"compile.go","internal/runtime/struct_field.go",E+"struct.go"],
 [("field map",D+"compile.go compileStruct; struct.go decodeKey, Decode"),("tag parsing","internal/runtime/struct_field.go")],["fields after Unmarshal"])
p("C21","Wrapping a value in interfaces or pointers does not change its encoding",
 "A value encodes to the same bytes (up to map order) whether it is passed directly, stored in an interface-typed field, element or map value, or reached through pointers; nil pointers and nil interfaces encode as N;. In particular arrays, custom marshalers and named types inside an interface behave as they do outside one.",
 ["inputs"],"all supported values x all ways of wrapping them in interfaces and pointers",
 "Two separate encoders (compiled and interface-driven) must agree on every kind; tests compare a few values.",
 [E+"interface.go",E+"slice_reflect.go",E+"map_reflect.go",E+"struct_reflect.go",E+"ptr.go",E+"compile.go"],
 [("interface path",E+"interface.go reflectInterfaceValue; slice_reflect.go; map_reflect.go")],["bytes returned by Marshal"])
p("C22","Custom marshalers are used everywhere and their output is verbatim",
 "A value whose type implements MarshalPHP is encoded by calling it, wherever the value occurs (top level, field, element, map value, behind a pointer, inside an interface), and the bytes it returns appear unchanged in that position of the output; its error makes Marshal return that error. A nil pointer or nil interface of such a type is encoded as N; without calling it.",
 ["inputs","programs"],"all types with custom marshalers in all positions",
 "Tests have two custom types in a few positions.",
 [E+"marshal_php.go",E+"compile.go",E+"interface.go",E+"struct.go",E+"ptr.go"],
 [("marshaler encoder",E+"marshal_php.go compileMarshaler"),("type test",E+"compile.go compile")],["bytes returned by Marshal","calls of MarshalPHP"])
p("C23","Map decoding stores every pair; later pairs win",
 "Decoding an array or object into a Go map stores every key/value pair of the input with exactly the decoded key and value, a repeated key keeping the last value; entries already present under other keys are kept, and a nil map is replaced by a new one. Each value is decoded into a fresh zero value, so nothing of an earlier pair or of a previous map value leaks into it.",
 ["inputs"],"all pair sequences x key and value types x prior map contents",
 "Tests decode small maps into nil maps; repeated keys, prior contents and reference-typed values are not enumerated.",
 [D+"map.go",D+"interface.go"],[("pair loop",D+"map.go Decode")],["decoded map"])
p("C24","Marshal never panics; unsupported values give an error",
 "Marshal returns for every Go value: values of supported types are encoded, and values containing an unsupported type (channels, functions, complex numbers, uintptr, unsafe pointers, maps keyed by anything but strings and integers, pointers to pointers outside interfaces) give an error, with no output. It never panics and never recurses without end on recursive types. (Panics raised inside a user's MarshalPHP, and modification of the value during the call, are outside this statement.)",
 ["inputs","programs"],"all Go values of all types",
 "Tests check three or four unsupported types; recursive type definitions and nil values in every position are not enumerated.",
 ENC,[("type compilation",E+"compile.go"),("interface fallback",E+"interface.go")],["return of Marshal"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
