import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
DE="src/json/de.rs"
p("C01","Exactly the JSON language is accepted",
"Parsing a string as an untyped JSON value, or skipping it as the content of an unknown struct field, succeeds for every string that is one complete JSON text (RFC 8259: one value with only space, tab, LF or CR around tokens, any nesting depth), except that texts with an unpaired UTF-16 surrogate escape or with a number beyond the range of finite doubles are refused. Every other string is refused with an error: truncations, trailing content, mismatched or missing brackets, commas and colons, leading zeros, bare words, foreign whitespace, raw control characters, NULs.",
["inputs"],"every Unicode string, of any length and nesting",
"The tests parse about ten fixed well-formed documents and one malformed one; acceptance is a property of the infinite set of strings and of every parser state x next-character pair.",
[DE,"src/ignore.rs","src/json/value.rs"],
[("main loop: event, comma/close handling, trailing check","src/json/de.rs from_str_impl"),("lexical functions parse_str/parse_integer/parse_decimal/parse_exponent/parse_ident/parse_whitespace","src/json/de.rs impl Deserializer"),("ESCAPE table","src/json/de.rs")],
[("stack of layers","open arrays/objects and the visitor each reports to","src/json/de.rs Deserializer.stack"),("accept_comma","whether a value was just completed in the current layer","src/json/de.rs from_str_impl")],
["json::from_str::<Value>(s) is Ok/Err","json::from_str of a struct that does not know the field"])
p("C02","String literals decode to exactly the characters they denote",
"Every string value and object key obtained by parsing (as a String, in a Value, as a map key, or handed to a custom visitor) contains exactly the Unicode characters its JSON literal denotes: unescaped characters verbatim, each escape replaced by the one character it names, an escaped surrogate pair combined into one character, always valid UTF-8. This holds for any mix, number, length and position of literals, whatever other strings the same document contains before it. A literal with an unpaired surrogate, an unknown escape, a malformed hex group or a raw control character is an error, never altered text.",
["inputs"],"every string literal over all Unicode scalar values and all escape forms, any length, in every document position, after any earlier literals",
"The tests contain no escape sequence and no non-ASCII text at all; 1.1M characters, 65536 \\u escapes, 2^20 surrogate pairs and the scratch-buffer reuse between literals are untested.",
[DE],[("borrowed fast path vs scratch buffer","src/json/de.rs parse_str"),("parse_escape, decode_hex_escape, surrogate arithmetic","src/json/de.rs"),("from_utf8_unchecked relies on it","src/json/de.rs parse_str::result")],
[("buffer","scratch space reused by successive literals","src/json/de.rs Deserializer.buffer")],["the &str given to Visitor::string and Map::key","Value::String, String, map keys"])
p("C03","Number literals denote their numeric value or are refused",
"An integer literal (no fraction, no exponent) in the range -2^63 to 2^64-1 parses to exactly that integer, as an integer; every other number literal of fewer than 2^31 digits parses to a finite double of the literal's sign within 4 units in the last place of its exact value, and to the correctly rounded double whenever its digits read as one integer are at most 2^53 and the remaining power of ten is between -22 and 22. Tiny magnitudes underflow to zero or a subnormal. A literal whose magnitude exceeds the finite double range is an error: untyped numbers and f64 are never infinite or NaN.",
["inputs"],"every number literal: any number of digits, fraction and exponent digits",
"The tests parse four one-digit integers. Overflow of the 64-bit significand, of the exponent counter, and of the power table are reached only by specific long literals.",
[DE,"src/json/number.rs","src/json/value.rs"],[("overflow! guarded accumulation","src/json/de.rs parse_integer/parse_decimal/parse_exponent"),("f64_from_parts and POW10","src/json/de.rs"),("negative/nonnegative/float dispatch","src/json/de.rs parse_number")],None,["Value::Number variant and payload","from_str::<f64>, u64, i64"])
p("C04","An untyped value mirrors the structure of the text",
"The value parsed from a valid document has exactly the structure the text denotes: arrays keep every element in order, objects hold each distinct key once with the value of its last occurrence, scalars keep their kind, and nesting is preserved at any depth and breadth. Whitespace between tokens and the way a key or string is escaped make no difference. Parsing a document as a value, or directly as an Array, Object or Number of the matching kind, gives the same content.",
["inputs"],"every valid document: all shapes, sizes, nesting depths, duplicate keys and whitespace layouts",
"The tests check one shape (x/[ nested) and one flat object through its Debug text.",
[DE,"src/json/value.rs","src/json/array.rs","src/json/object.rs"],[("ArrayBuilder/ObjectBuilder shift","src/json/value.rs, array.rs, object.rs"),("layer push/pop","src/json/de.rs from_str_impl")],
[("element/key/value slots","last produced child not yet moved into its container","src/json/{value,array,object}.rs builders")],["structure of the returned Value"])
p("C05","Built-in target types accept exactly their own values",
"Parsing into a built-in target type (integer and float types, bool, String, unit, Option, Box, pairs, fixed-size arrays, Vec, Array, Object, Number, Value, and nestings of these) succeeds exactly when the text is valid JSON denoting a value of that type, and yields that value. Nothing is wrapped, truncated, saturated, padded or coerced: out-of-range integers, fractional or exponent literals for integers, wrong array lengths, wrong kinds and null for non-nullable types are errors. Float types accept any finite number literal, and f32 is the nearest single of the parsed double.",
["inputs"],"every document x every built-in target type and nesting of them",
"The tests parse arrays of three strings and one struct; integer range checks, pair length, Option/Box forwarding and element-count handling are sampled at one point or not at all.",
["src/de/impls.rs","src/json/number.rs","src/json/value.rs","src/json/array.rs","src/json/object.rs"],[("signed!/unsigned!/float! macros","src/de/impls.rs"),("TupleBuilder, VecBuilder, ArrayBuilder, BoxSeq/BoxMap, Option forwarding","src/de/impls.rs")],
[("len/element of ArrayBuilder","elements already moved into the array","src/de/impls.rs")],["Ok/Err and value of json::from_str::<T>"])
p("C06","Derived structs read fields by name, whatever else the object holds",
"A derived struct parses from an object exactly when every field has an entry whose last value is acceptable, or is absent and its type is Option (which then is None); entries are matched by exact field name (rename if given, raw identifiers without r#), in any order, and the last of duplicate entries wins. Unknown entries may hold any valid JSON and never influence the result, but malformed content in them, or an unacceptable value in any known entry, fails the whole parse. Non-objects are refused. A derived enum parses exactly from a string equal to one variant's name, to that variant.",
["inputs","programs"],"every derived struct/enum definition (field count, types, names, renames, generics) x every sequence of object entries",
"The tests use two small struct definitions with entries in declaration order, one unknown scalar entry and no duplicates or missing required fields.",
["derive/src/de.rs","derive/src/attr.rs","derive/src/bound.rs","src/ignore.rs","src/de/mod.rs"],[("generated __State::key/finish","derive/src/de.rs"),("name_of_field/name_of_variant/unraw","derive/src/attr.rs"),("Deserialize::default for Option","src/de/impls.rs"),("Ignore visitor","src/ignore.rs")],None,["json::from_str of derived types"])
p("C07","Derived serialization writes every field and variant under its name",
"Serializing a derived struct writes one object whose entries are exactly its fields, once each, in declaration order, under the field name (rename if given, raw identifiers without r#), each holding that field's own serialization; a derived enum writes the name of its current variant as a string. This holds for any number of fields or variants, any field types including generic, borrowed and nested derived ones, and any values. Derived Serialize and Deserialize agree on names, so a derived value survives a round trip.",
["inputs","programs"],"every derived definition in the supported class x every value of it",
"The tests serialize one struct with five fields and one value.",
["derive/src/ser.rs","derive/src/attr.rs","derive/src/bound.rs","derive/src/de.rs"],[("generated __Map::next state machine","derive/src/ser.rs"),("name_of_field/name_of_variant","derive/src/attr.rs")],[("state","index of the next field to emit","derive/src/ser.rs __Map")],["json::to_string of derived types"])
p("C08","The derives refuse unsupported definitions and accept supported ones",
"Deriving Serialize or Deserialize fails to compile for every tuple struct, unit struct, union, enum with a data-carrying variant, enum with generics or a where clause, and every field or variant with an unsupported or repeated serde attribute, wherever in the item it occurs. Deriving succeeds for every braced struct with named fields (including generic ones with lifetimes, type and const parameters, bounds, defaults and where clauses on them, and ones without fields) and for C-like enums, with any valid rename, apart from packed layouts, names that begin with two underscores and type parameters named like the type itself. Nothing unsupported on a field or variant is silently ignored.",
["programs"],"every struct, enum or union definition, with any placement of variants, fields and serde attributes",
"tests/ui has one definition per error, with the offending element in one place.",
["derive/src/de.rs","derive/src/ser.rs","derive/src/attr.rs","derive/src/bound.rs","derive/src/fallback.rs"],[("try_expand shape match","derive/src/{de,ser}.rs"),("attr_rename","derive/src/attr.rs"),("with_lifetime_bound/where_clause_with_bound","derive/src/bound.rs")],None,["compiler verdict per item"])
p("C09","Serialized text is valid JSON that denotes the value",
"For every serializable value, to_string returns (it never fails or panics) one RFC 8259 text without surrounding content, and decoding that text with a conforming parser gives back exactly the value: same structure and order, same strings character by character, same integers, and floats that read back as the identical double. Non-finite floats, unit and None are written as null. All control characters, quotes and backslashes inside strings and keys are escaped.",
["inputs"],"every value of every serializable type: all strings, integers, doubles, nestings, sizes, and map keys",
"The tests serialize a handful of ASCII strings and one finite float; the escape table has 256 entries and 34 of them matter, in keys as well as values, at any offset.",
["src/json/ser.rs","src/ser/impls.rs","src/json/value.rs","src/json/number.rs","src/json/array.rs","src/json/object.rs"],[("escape_str and ESCAPE table","src/json/ser.rs"),("comma/colon/bracket emission loop","src/json/ser.rs to_string_impl"),("itoa/ryu formatting, non-finite to null","src/json/ser.rs")],[("start","first byte of the string not yet copied","src/json/ser.rs escape_str")],["json::to_string"])
p("C10","Values survive a round trip through text",
"For every value v of the built-in and derived types that can be both serialized and parsed, parsing to_string(v) as the same type gives back v: exactly for integers, bools, strings, units, options of non-nullable types, boxes, pairs, arrays, vectors, maps and finite f32, and within 4 units in the last place for finite f64. For every accepted document, parsing, serializing and parsing again gives an equal untyped value, and serializing that again gives the same text except for last-place differences in doubles.",
["inputs"],"every value of every type with both traits; every accepted document",
"The tests round-trip one nested shape and one array of three strings.",
["src/json/de.rs","src/json/ser.rs","src/de/impls.rs","src/ser/impls.rs","src/json/value.rs"],[("agreement of Serialize and Deserialize impls","src/ser/impls.rs, src/de/impls.rs, derive/"),("escape_str vs parse_str","src/json/ser.rs, src/json/de.rs"),("ryu output vs f64_from_parts","src/json/ser.rs, src/json/de.rs")],None,["from_str(to_string(v)) == v"])
p("C11","Map entries and keys survive conversion in both directions",
"Parsing an object into a HashMap or BTreeMap yields exactly the map from each key, converted from its decoded text by the key type, to the last value given for that converted key, and fails if any key does not convert or any value is unacceptable. Serializing a map writes one entry per key, with the key's text form as a properly escaped string, in order for a BTreeMap. This holds for any key type, hasher, number of entries and duplicates, including distinct texts that convert to the same key.",
["inputs"],"every object text x every key/value type and hasher; every map",
"No test uses a HashMap or BTreeMap at all.",
["src/de/impls.rs","src/ser/impls.rs"],[("MapBuilder::shift/key/finish","src/de/impls.rs HashMap and BTreeMap impls"),("HashMapStream, stream_btree_map","src/ser/impls.rs")],[("key/value slots","pending entry","src/de/impls.rs MapBuilder")],["json::from_str::<HashMap/BTreeMap>","json::to_string(&map)"])
p("C12","Parsing and serializing use bounded stack at any nesting depth",
"Neither parsing nor serializing recurses with the data: for any nesting pattern of arrays and objects and any depth that fits in memory, parsing (into untyped values, skipped content, or recursive user types) and serializing complete with the right result on a small fixed stack. This also holds when the document is truncated, mismatched or rejected part-way: the call returns an error and releases what it built without recursion. No depth limit is imposed.",
["inputs"],"every nesting pattern, depth, target type and point of failure",
"One test nests one pattern ({\"x\":[) to one depth into one type on a large default stack, and only on the success path.",
["src/json/de.rs","src/json/ser.rs","src/ignore.rs","src/de/impls.rs"],[("explicit layer stack and reverse-order Drop","src/json/de.rs Deserializer"),("explicit layer stack","src/json/ser.rs Serializer"),("BoxSeq/BoxMap heap builders","src/de/impls.rs")],[("stack","heap-allocated frames","src/json/de.rs, src/json/ser.rs")],["completion on a small-stack thread"])
p("C13","Discarding untyped values never recurses and frees everything",
"However a deeply nested untyped value comes to be discarded (dropped, cleared, truncated, popped, overwritten, replaced by a duplicate key, abandoned half-parsed, partially or fully iterated by value, inside any standard container), it is freed without stack growth in its depth, for any nesting pattern and breadth. Every allocation it owned is released exactly once.",
["inputs","histories"],"every nesting pattern, depth and breadth x every way of discarding a Value, Array or Object",
"One test and one doc example drop one shape each, by letting it go out of scope.",
["src/json/drop.rs","src/json/array.rs","src/json/object.rs","src/json/value.rs"],[("drop::safely work list","src/json/drop.rs"),("Drop for Array/Object","src/json/array.rs, src/json/object.rs"),("take() with ManuallyDrop","src/json/array.rs, src/json/object.rs")],[("stack","values waiting to be freed","src/json/drop.rs")],["completion on a small-stack thread","allocator balance"])
p("C14","Visitors are driven by the document, and their errors end the parse",
"Parsing calls a type's visitor exactly as the document dictates: one scalar callback per scalar with its decoded value, or seq/map, then one element() or key(decoded key) request per child in order before that child's own callbacks, then finish() once after the last child. If any callback returns an error, no further callback is made, every live builder is dropped innermost first, and the call returns an error. A malformed document only ever produces a prefix of the callbacks its well-formed prefix dictates, never a finish() for an unclosed container, and returns an error.",
["inputs","fault_sequences"],"every document x every callback at which an error may be returned",
"No test implements a custom visitor; none returns an error from a callback and observes what follows.",
["src/json/de.rs","src/de/mod.rs","src/place.rs","src/ignore.rs"],[("from_str_impl loop and ? propagation","src/json/de.rs"),("reverse-order Drop","src/json/de.rs Deserializer::drop"),("default Visitor methods error","src/de/mod.rs")],[("stack/visitor/layer","who receives the next event","src/json/de.rs")],["callbacks seen by a recording Visitor/Seq/Map"])
p("C15","Serialization drives each stream once, in order, child before sibling",
"Serializing calls begin exactly once on each value reached, requests children from a seq or map stream until it first answers None and never again, and finishes and drops a child's stream before asking its parent for the next child; streams are dropped innermost first. The text is exactly what the answers denote, including for streams that lend out data stored in themselves and overwrite it at the next request, keys borrowed or owned, and any mix of fragment kinds.",
["inputs"],"every tree of fragments that custom Serialize, Seq and Map implementations can answer with",
"No test implements Serialize by hand; the library's own streams tolerate extra or reordered calls.",
["src/json/ser.rs","src/ser/mod.rs","src/careful.rs"],[("to_string_impl loop","src/json/ser.rs"),("extend_lifetime! invariants: stream outlives its child","src/json/ser.rs, src/careful.rs")],[("stack","open streams","src/json/ser.rs Serializer")],["calls seen by recording Serialize/Seq/Map","json::to_string"])
p("C16","No invalid memory access, leak or double free on any path",
"For every document and target type (built-in, derived, custom place types), whether the parse succeeds or fails at any point, and for every serialization and drop of the results, safe callers never trigger undefined behaviour: no dangling, aliasing-violating, uninitialized or out-of-bounds access, and every value and allocation created on the way is released exactly once, partially filled arrays, boxes, maps and structs included.",
["inputs","fault_sequences"],"every document x target type x failure point (bad token, wrong kind, too many or too few elements, truncation)",
"The unsafe code (lifetime extension, place casts, NonuniqueBox, uninitialised arrays, ManuallyDrop) is exercised by tests only on successful parses plus two array-length errors, without a memory checker.",
["src/json/de.rs","src/json/ser.rs","src/de/impls.rs","src/ptr.rs","src/place.rs","src/careful.rs","src/ignore.rs","src/json/array.rs","src/json/object.rs","derive/src/de.rs"],[("extend_lifetime! users","src/json/de.rs, src/json/ser.rs, src/de/impls.rs"),("NonuniqueBox","src/ptr.rs"),("ArrayBuilder MaybeUninit + Drop","src/de/impls.rs"),("Place pointer casts","src/place.rs, derive/src/de.rs")],None,["Miri verdict on every explored execution","allocator and drop balance"])
p("C17","A panicking user callback leaves nothing broken, leaked or freed twice",
"If user code called during parsing or serializing panics (a visitor or builder callback, a key conversion or hash, a serialization callback, a value's drop), the panic propagates to the caller, each user value created so far is dropped exactly once, inner before outer, no memory is leaked or freed twice, and later calls work normally.",
["inputs","fault_sequences"],"every document or value x every user-code call at which a panic may occur",
"No test panics inside a callback.",
["src/json/de.rs","src/json/ser.rs","src/de/impls.rs","src/ptr.rs"],[("Drop of Deserializer/Serializer in reverse order","src/json/de.rs, src/json/ser.rs"),("ArrayBuilder finish ordering, BoxSeq/BoxMap ManuallyDrop","src/de/impls.rs")],None,["drop counts, allocator balance and Miri verdict after catch_unwind"])
p("C18","Concurrent and nested calls do not affect one another",
"Each from_str and to_string call depends only on its own arguments: any number of calls running at the same time on different threads, interleaved in any way, or started from inside a callback of another call, give the same results and the same callback arguments as when run alone, and text handed to a callback stays intact until the callback returns. Calls leave no state behind that changes later calls, whether they succeeded, failed or panicked.",
["schedules","histories"],"every interleaving of concurrent calls, every nesting of calls inside callbacks, every sequence of calls",
"All tests make one call at a time and never from inside a callback.",
["src/json/de.rs","src/json/ser.rs","src/ignore.rs"],[("all parser and serializer state is local to the call","src/json/de.rs from_str_impl, src/json/ser.rs to_string_impl"),("shared zero-sized IGNORE static","src/ignore.rs")],[("IGNORE","process-wide mutable static, zero-sized","src/ignore.rs")],["results and callback arguments under a controlled scheduler"])
p("C19","Array, Object and Value behave as the standard collections they wrap",
"Under any sequence of operations, json::Array behaves as a Vec of values and json::Object as a BTreeMap from strings to values: contents, order, lookup, insertion, removal, iteration by reference, by mutable reference and by value, collecting, default, cloning and clone_from, including partly consumed iterators and moved-out contents. Clones are independent of their originals, and serializing or Debug-printing the container shows exactly its current content. No operation loses, duplicates, leaks or double-frees an element.",
["histories"],"every sequence of container operations",
"The tests build containers only by parsing and never mutate, iterate by value or clone them.",
["src/json/array.rs","src/json/object.rs","src/json/value.rs","src/json/number.rs"],[("Deref/DerefMut, IntoIterator via take(), FromIterator, Clone","src/json/array.rs, src/json/object.rs"),("Debug impls","src/json/value.rs, array.rs, object.rs")],[("inner","the wrapped collection","src/json/array.rs, object.rs")],["contents compared with Vec/BTreeMap after each operation","allocator balance"])
p("C20","Parsing is total: any input into any type returns",
"For every string and every target type built from the library's types and derives, parsing returns Ok or Err: it never panics, overflows arithmetic, aborts, or runs forever, and neither do serializing or dropping what it returned, nor Debug-printing it unless it is nested thousands of levels deep. The work is bounded: each input character leads to at most a constant number of callbacks, and memory in use stays proportional to the input length.",
["inputs"],"every string (well-formed or not) x every target type",
"Only one malformed document is tested; arithmetic on positions, significands and exponents and the unwraps in the Box impls are not explored.",
["src/json/de.rs","src/de/impls.rs","src/json/value.rs"],[("bounds-checked position handling","src/json/de.rs next/peek/bump"),("overflow! and saturating exponent arithmetic","src/json/de.rs"),("out.unwrap() in Box impls backed by visitor contract","src/de/impls.rs")],None,["outcome, allocation counters and watchdog per call"])
p("C21","With and without the std feature the library behaves identically",
"Built without its default std feature, the library offers the same parsing and serialization except for HashMap, with identical results: every document and target type gives the same Ok/Err outcome and value, and every value the same text, as with the std feature.",
["configurations","inputs"],"both feature configurations x every document, target type and value",
"The suite runs in both configurations but samples the same handful of inputs in each and never compares them.",
["src/lib.rs","src/de/impls.rs","src/ser/impls.rs","src/error.rs","src/export.rs","Cargo.toml"],[("cfg(feature = \"std\") gates","src/lib.rs, src/de/impls.rs, src/ser/impls.rs, src/error.rs")],None,["outcome digests of both builds"])
p("C22","Target types give the same result under any driver",
"Whoever drives the visitor of a library or derived type by hand, with the callbacks that a value dictates, gets exactly the value that parsing gives: all callbacks succeed and the place then holds that value, whatever the place held or went through before (an earlier value, a refused drive, a drive given up half-way), and a value of the wrong kind makes some callback fail. A type whose visitor forwards to the visitor of another type behaves like that type, the ignoring visitor accepts every value, and nothing is leaked or freed twice however a drive ends.",
["inputs","histories"],"every target type x every value x every state the place was left in by earlier drives",
"The suite reaches visitors only through from_str, with a fresh place each time; hand-written drivers and forwarding types, which the Visitor documentation shows, are never exercised.",
["src/de/mod.rs","src/de/impls.rs","src/ignore.rs","derive/src/de.rs"],[("Visitor callbacks of the library types","src/de/impls.rs"),("generated builders: FieldVisitor state and finish","derive/src/de.rs"),("Visitor::ignore","src/de/mod.rs, src/ignore.rs")],[("out","the place a visitor writes to","src/de/impls.rs"),("Option fields of the generated struct builder","per-field slots filled by key/element","derive/src/de.rs")],["the place after every drive","which callback failed","allocator balance"])
p("C23","Values stream the same fragments to any consumer",
"Beginning any library or derived value and walking its fragments by hand gives the fragments that the value denotes (their kind, the elements in order, the keys, and after the last the end, however often it is asked for), no matter how often the same value is walked, how several walks of it are interleaved, whether a walk is given up half-way, or whether begun fragments are dropped unused. Walking changes nothing in the value, leaks nothing, and in between to_string gives the same text as before.",
["inputs","histories"],"every serializable value x every interleaving of walks of it, including abandoned ones",
"The suite consumes fragments only through to_string, once per value and to the end.",
["src/ser/mod.rs","src/ser/impls.rs","derive/src/ser.rs","src/json/array.rs","src/json/object.rs"],[("Seq/Map streams of slices, tuples and maps","src/ser/impls.rs"),("generated struct stream with its state counter","derive/src/ser.rs")],[("state","next field of the generated stream","derive/src/ser.rs")],["fragments returned by begin and next","text in between","allocator balance"])
p("C24","Numbers, values and errors print exactly what they are, into any sink",
"Displaying a json::Number writes exactly its number: an integer in decimal, a finite double as a JSON number that reads back as the identical double, and any other double as a text that Rust reads back as the same. Debug-printing a Value, Array or Object shows exactly its content, keys and order, and an Error displays and debug-prints a text without failing. When the sink fails at any point the failure is reported, what was written is a prefix of the full text, nothing is written afterwards and nothing is leaked.",
["inputs","fault_sequences"],"every number, every value tree, every point at which the sink can fail",
"One test prints one value with Debug; Display of numbers at the edges of their types and failing sinks are never exercised.",
["src/json/number.rs","src/json/value.rs","src/json/array.rs","src/json/object.rs","src/error.rs"],[("Display for Number","src/json/number.rs"),("Debug impls","src/json/value.rs, array.rs, object.rs"),("Display for Error","src/error.rs")],None,["bytes that reached the sink, and the result of formatting"])
p("C25","The work and the memory grow with the text, not faster",
"The time that parsing (accepting, skipping or refusing), serializing and dropping take grows in proportion to the size of the text, up to a logarithmic factor for sorted maps, for every shape of document and target type: four times the document takes about four times the instructions, whether it grows by its digits, whitespace, escapes, elements, entries, repeated or unknown keys, or depth. The most memory in use at a time during each of them likewise stays in proportion to the size of the text.",
["inputs"],"every shape of document x target type, at any size",
"All test documents are a few dozen bytes; quadratic work would pass every one of them.",
["src/json/de.rs","src/json/ser.rs","src/json/drop.rs","src/de/impls.rs","src/ser/impls.rs"],[("one pass over the bytes with an explicit stack","src/json/de.rs"),("string scratch buffer reused per string","src/json/de.rs parse_str"),("iterative drop","src/json/drop.rs")],None,["instructions per call","processor time per call","peak of allocated bytes"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
import re
for x in P:
    n=len(re.findall(r'[.?!](?:\s|$)',x["statement"]))
    print(x["id"],n,len(x["statement"]))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
