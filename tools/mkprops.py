import json
P=[]
def p(id,title,statement,over,text,why,files,state,mech,observe,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
p("C01","from_str accepts exactly the valid JSON texts",
 "Parsing a string as json::Value (or into a type that ignores part of the document) succeeds if and only if the whole string is one JSON text as defined by RFC 8259: one value, JSON whitespace only around tokens, no trailing data or commas, no raw control characters in strings, no leading zeros or bare signs in numbers. The only valid texts refused are those that contain a number too large in magnitude for a finite f64 or a \\u escape that is an unpaired surrogate. The part of a document that a target type ignores is held to the same grammar as the rest.",
 ["inputs"],"every &str below 2 GiB, at every nesting depth, for json::Value and for ignored positions",
 "The tests parse about a dozen documents; the grammar has an accept/reject decision at each byte position and in each container state, and a wrong decision needs the one byte sequence that reaches it.",
 ["src/json/de.rs","src/ignore.rs","src/json/value.rs"],
 [("pos","index of the next unread byte","src/json/de.rs Deserializer"),("stack","open arrays and objects with their visitors","src/json/de.rs Deserializer"),("accept_comma","whether a comma may come next","src/json/de.rs from_str_impl")],
 [("event loop","src/json/de.rs from_str_impl"),("tokenizer","src/json/de.rs Deserializer::event, parse_ident, parse_integer, parse_str"),("ESCAPE table","src/json/de.rs")],
 ["return value of json::from_str"])
p("C02","A parsed Value holds exactly the data written in the document",
 "When json::from_str::<Value> succeeds, the result has exactly the document's structure: the same nesting, array elements in document order and none lost or added, object members with their own key and value where the last of several members with an equal key wins, strings with their decoded text, booleans and nulls. An integer literal between i64::MIN and u64::MAX without fraction or exponent is stored as that exact integer (U64 when written without a sign, I64 when negative), and every other number is stored as F64. The same holds for json::Array, json::Object and json::Number as targets, which refuse every other kind of value.",
 ["inputs"],"every valid JSON text, of any size, nesting depth, width, key multiplicity and member order",
 "Two Value tests compare one small document's Debug output and one regular nested text; misplaced, lost or merged data for other shapes, sizes or duplicate keys is not observed.",
 ["src/json/de.rs","src/json/value.rs","src/json/array.rs","src/json/object.rs","src/json/number.rs"],
 [("element / value / key","the last child, not yet moved into its container","src/json/{value,array,object}.rs builders")],
 [("shift() then finish()","src/json/value.rs ArrayBuilder, ObjectBuilder"),("visitor restored from the popped frame","src/json/de.rs from_str_impl"),("integer classification","src/json/de.rs parse_integer, parse_number")],
 ["the returned Value, walked through its public API"])
p("C03","Strings and keys are decoded exactly and stay well-formed UTF-8",
 "Every string and object key handed to a visitor or stored in a result is the exact text the JSON literal denotes: unescaped characters unchanged, the eight short escapes and \\uXXXX (any hex case) replaced by their character, and a high/low surrogate pair replaced by the one character it encodes. The text is always well-formed UTF-8. Any other escape, a truncated escape, an unpaired surrogate, an unescaped character below U+0020 or a missing closing quote makes the parse fail.",
 ["inputs"],"every sequence of Unicode scalar values and escape sequences in string and key position, at every length and alignment",
 "No existing test contains an escape in an input string; there are 65,536 single escapes and 1,048,576 surrogate pairs, and the borrowed and the copied path differ.",
 ["src/json/de.rs"],
 [("buffer","scratch space with the unescaped prefix of the current string","src/json/de.rs Deserializer"),("start","first input byte not yet copied to the scratch space","src/json/de.rs parse_str")],
 [("parse_str with borrowed and copied path","src/json/de.rs"),("surrogate checks","src/json/de.rs parse_escape"),("from_utf8_unchecked relies on the checks","src/json/de.rs parse_str::result")],
 ["the &str given to Visitor::string and Map::key","the stored String"])
p("C04","Integers are exact and range-checked, floats accurate and finite",
 "Parsing an integer literal into an integer type yields exactly that integer when it lies in the type's range and fails otherwise; nothing wraps, truncates or saturates, and literals with a fraction or exponent are refused by integer types. (The literal -0 is 0 to signed types; unsigned types may refuse it.) Parsing any number literal into f64 (or json::Number's F64) yields a finite value with the literal's sign (the integer literal -0 reads as 0), within 5 units in the last place of the literal's exact value (an integer literal between i64::MIN and u64::MAX is rounded correctly), with 0 on underflow; a literal whose magnitude exceeds the largest finite f64 makes the parse fail instead of yielding an infinity. f32 targets receive that f64 rounded to f32 (integers in the 64-bit range rounded directly).",
 ["inputs"],"every JSON number literal, of any digit count and exponent, against i8..i64, isize, u8..u64, usize, f32, f64",
 "No test parses a float or an out-of-range integer; the boundary literals, the 309 powers of ten and the long-significand and huge-exponent paths are not sampled.",
 ["src/json/de.rs","src/de/impls.rs","src/json/number.rs"],
 [("significand / exponent","decimal value being assembled","src/json/de.rs parse_decimal, parse_exponent, parse_long_integer")],
 [("overflow! guard","src/json/de.rs"),("f64_from_parts and POW10","src/json/de.rs"),("signed!/unsigned!/float! range checks","src/de/impls.rs")],
 ["return value of json::from_str for each numeric type"])
p("C05","to_string always yields one compact JSON text denoting the value",
 "For every value of every Serialize type, including hand-written implementations, json::to_string returns one valid RFC 8259 JSON text without insignificant whitespace that denotes that value: integers as their exact decimal digits, finite floats as a literal (with a fraction or an exponent) that reads back to the identical f64, NaN and infinities as null, strings and map keys escaped so that a JSON parser recovers exactly the original text, sequence elements and map entries complete and in iteration order. References, Box, Cow and Some serialize as their content and None as null.",
 ["inputs","programs"],"every value tree built from the supported types and from user-written Serialize implementations, at every size and depth",
 "Tests compare four small outputs; escaping depends on each character of the text and separators on each position in each container shape, and no test reads output back with an independent parser.",
 ["src/json/ser.rs","src/ser/impls.rs","src/ser/mod.rs","src/json/value.rs","src/json/number.rs"],
 [("stack","open sequences and maps being written","src/json/ser.rs Serializer"),("out","the text so far","src/json/ser.rs to_string_impl")],
 [("iterative writer","src/json/ser.rs to_string_impl"),("escape_str and ESCAPE table","src/json/ser.rs"),("Serialize impls","src/ser/impls.rs")],
 ["the String returned by json::to_string"])
p("C06","Serializing and parsing back gives the value back",
 "For every value x of a type that derives or implements both traits from this crate, json::from_str of json::to_string(x) succeeds and equals x, where integers, f32, strings, enums, options, boxes, collections, maps and derived structs are equal exactly and f64 values are equal within 5 units in the last place (excepted are non-finite floats, which are written as null, and a Some whose content is written as null, which reads back as None). For json::Value the text itself is a fixpoint: serializing the reparsed value of a float-free document yields the identical text.",
 ["inputs","programs"],"every value of every type composed from the supported impls and derives with finite floats and distinct map keys",
 "Only one array of strings and one nested Value are round-tripped by tests; both directions have independent tables and name handling that must agree for every value.",
 ["src/json/ser.rs","src/json/de.rs","src/ser/impls.rs","src/de/impls.rs","derive/src/ser.rs","derive/src/de.rs","derive/src/attr.rs"],
 [],
 [("paired Serialize / Deserialize impls","src/ser/impls.rs, src/de/impls.rs"),("shared naming of fields and variants","derive/src/attr.rs")],
 ["json::from_str(json::to_string(x)) compared with x"])
p("C07","Typed parsing accepts exactly the documents that fit the type",
 "For every target type composed from the supported impls and derives, json::from_str succeeds exactly when the document fits the type and then yields the value the document describes. Structs take members in any order, ignore unknown members, fail on a missing member unless its type is Option (then None) and keep the last of repeated members; enums take exactly their variant names as strings; tuples and [T; N] need exactly their number of elements; maps parse each key with FromStr and fail if that fails; Option takes null as None; Box takes what its content takes; any other mismatch of JSON kind and type fails.",
 ["inputs","programs"],"every document, valid or not, against every composition of supported types (nested structs, recursive types, tuples, arrays, maps, options, boxes, enums)",
 "Tests parse one struct, one point and three string arrays; the combinations of type shape, member order, repetition, absence and kind mismatch are unbounded.",
 ["src/de/impls.rs","src/de/mod.rs","derive/src/de.rs","src/ignore.rs","src/json/de.rs"],
 [("builder slots","per-field Option holding the member seen so far","derive/src/de.rs __State"),("len / element","filled prefix of a fixed-size array","src/de/impls.rs ArrayBuilder")],
 [("Deserialize::default for absent Option members","src/de/impls.rs Option<T>"),("Visitor::ignore for unknown members","src/ignore.rs"),("finish() completeness checks","src/de/impls.rs, derive/src/de.rs")],
 ["return value of json::from_str::<T>"])
p("C08","Derived impls are right for every supported type definition",
 "For every braced struct (any number of named fields, with lifetime, type or const generics, bounds and where clauses) and every non-generic enum of unit variants, the derives compile, whichever prelude names the user has shadowed and whatever the fields, variants, parameters and surrounding items are called (names that begin with two underscores, and a module called miniserde, aside), and the generated code reads and writes each field or variant under its own JSON name: the literal given in #[serde(rename = \"...\")] if there is one, otherwise the identifier without any r# prefix. Fields are written in declaration order. Every other shape (tuple or unit struct, union, generic enum, variant with data) and every unsupported, malformed or repeated serde attribute on a field or variant is refused at compile time.",
 ["programs"],"every type definition a user can write with #[derive(Serialize, Deserialize)]",
 "Tests derive three concrete types and check twelve fixed rejections; names, renames, field counts, generics and scopes form an open set of programs.",
 ["derive/src/attr.rs","derive/src/bound.rs","derive/src/de.rs","derive/src/ser.rs","derive/src/fallback.rs","src/export.rs"],
 [],
 [("name_of_field / name_of_variant","derive/src/attr.rs"),("with_lifetime_bound, where_clause_with_bound","derive/src/bound.rs"),("expansions","derive/src/ser.rs, derive/src/de.rs")],
 ["rustc's acceptance of generated programs and what those programs read and write"])
p("C09","Call stack use does not grow with nesting depth",
 "Parsing (successful or failing at any point), serializing, and dropping json::Value, json::Array and json::Object trees use an amount of call stack bounded by a constant that does not depend on how deeply the data is nested, whatever mix of arrays and objects it is made of. The same bound holds for ignored input, for typed parsing and serialization of recursive user types, and for containers and iterators whose elements are Values.",
 ["inputs","histories"],"every document and value tree of any nesting depth, every mix of arrays and objects, every point of failure, every way of releasing a Value",
 "One test nests 100,000 levels of one regular pattern and completes; other patterns, failing parses, partially consumed containers and typed recursion are not exercised, and slow growth that does not overflow is invisible.",
 ["src/json/de.rs","src/json/ser.rs","src/json/drop.rs","src/json/array.rs","src/json/object.rs","src/json/value.rs"],
 [("stack","heap-allocated stack of open containers","src/json/de.rs, src/json/ser.rs, src/json/drop.rs")],
 [("iterative parser and writer","src/json/de.rs, src/json/ser.rs"),("drop::safely","src/json/drop.rs"),("Drop for Deserializer and Serializer","src/json/de.rs, src/json/ser.rs")],
 ["lowest stack address touched while the public call runs"])
p("C10","No undefined behaviour is reachable from safe code",
 "No safe program using miniserde's public API and derives, on any input and with any user-written Visitor, Seq, Map, Serialize or Drop implementation, reaches undefined behaviour: no access to freed, out-of-bounds or uninitialized memory, no aliasing or validity violation, no invalid str, no double free and no invalid deallocation. This includes parses and serializations that end in an error or a panic midway.",
 ["inputs","programs","fault_sequences"],"every input, every safe user implementation of the public traits, every point at which a callback fails or panics",
 "Ordinary test runs do not observe undefined behaviour; CI runs Miri, but only over the few documents of the test suite, with no failing or panicking callbacks.",
 ["src/careful.rs","src/place.rs","src/ptr.rs","src/ignore.rs","src/de/impls.rs","src/json/de.rs","src/json/ser.rs","src/json/array.rs","src/json/object.rs","derive/src/de.rs"],
 [("array / len","partly initialized [MaybeUninit<T>; N]","src/de/impls.rs ArrayBuilder"),("value / seq / map","self-referential heap state of Box<T>","src/de/impls.rs BoxSeq, BoxMap")],
 [("extend_lifetime! and frame order","src/careful.rs, src/json/de.rs, src/json/ser.rs"),("NonuniqueBox","src/ptr.rs"),("repr(C) places","src/place.rs, derive/src/de.rs"),("ptr::read under ManuallyDrop","src/json/array.rs, src/json/object.rs")],
 ["Miri, AddressSanitizer, MemorySanitizer and valgrind memcheck reports while the public API runs"])
p("C11","Every value created is dropped exactly once, whatever fails",
 "Each object that comes into existence during json::from_str (elements, map keys and values, fields, user builders) is dropped exactly once or handed to the caller exactly once, whether the parse succeeds, fails on malformed input at any byte, is refused by a visitor, or is unwound by a panic in user code at any callback. Once the caller has dropped what was returned, no heap memory obtained by the call remains allocated. A panic in the drop of a replaced value leads to no second drop.",
 ["inputs","fault_sequences"],"every target type composed from the supported impls and derives, every document, and a failure or panic injected at every callback, key conversion and drop",
 "The tests contain no type that counts its drops, no failing visitor and no panic; the failing paths run different cleanup code at each nesting state.",
 ["src/de/impls.rs","src/json/de.rs","src/json/ser.rs","src/ptr.rs","src/json/array.rs","src/json/object.rs","derive/src/de.rs"],
 [("array[..len]","initialized prefix owned by the builder","src/de/impls.rs ArrayBuilder"),("stack of layers","builders owned by the parser","src/json/de.rs")],
 [("Drop for ArrayBuilder, BoxSeq, BoxMap, NonuniqueBox","src/de/impls.rs, src/ptr.rs"),("Drop for Deserializer in reverse order","src/json/de.rs"),("place cleared before the array is moved into it","src/de/impls.rs ArrayBuilder::finish")],
 ["creation and drop log of instrumented element types","live heap bytes of the calling thread"])
p("C12","Visitor callbacks mirror the document and follow the builder protocol",
 "For any user-written Deserialize implementation, json::from_str calls the visitors with exactly the events of the document in document order: one callback per value on the place its parent handed out last, element() once before each array element, key() once with the decoded text before each member value, finish() once when the container closes and only then, and a builder is dropped before its parent is used again and in reverse order of creation. After a callback returns an error no further callback is made, the call returns Err, and remaining builders are dropped innermost first; the same order holds when a callback or the drop of a builder panics. On malformed input the callbacks made are a prefix of those the document's valid beginning calls for, and the outermost value is never finished twice.",
 ["inputs","programs","fault_sequences"],"every document, valid or malformed, every user implementation of the visitor traits, an error returned at every possible callback",
 "No test implements Visitor, Seq or Map; the order of callbacks and drops is only visible to such an implementation.",
 ["src/json/de.rs","src/de/mod.rs","src/ptr.rs"],
 [("visitor","place for the next value","src/json/de.rs from_str_impl"),("stack","suspended builders with the place of their container","src/json/de.rs")],
 [("event loop","src/json/de.rs from_str_impl"),("Drop for Deserializer","src/json/de.rs")],
 ["event log written by recording Visitor, Seq and Map implementations"])
p("C13","Serialization visits every node once, in order, and unwinds cleanly",
 "For any user-written Serialize implementation, json::to_string calls begin() exactly once on each node it is given, in output order, and next() on each stream until it returns None and never again after that. A stream stays alive and unused while the value it last handed out is being written, so values borrowed from the stream itself are safe, and it is dropped exactly once, before its parent stream is used again and in reverse order of creation even if a callback or the drop of a stream panics; no heap memory of the call remains except the returned String.",
 ["programs","inputs","fault_sequences"],"every user implementation of Serialize, Seq and Map (including ones that lend values they own), every tree shape, a panic injected at every callback",
 "No test implements Serialize or a stream by hand; call counts, liveness and drop order are only visible to such an implementation.",
 ["src/json/ser.rs","src/ser/mod.rs","src/ser/impls.rs"],
 [("stack","suspended streams","src/json/ser.rs Serializer"),("fragment","current node","src/json/ser.rs to_string_impl")],
 [("stream pushed before its element is begun","src/json/ser.rs to_string_impl"),("Drop for Serializer","src/json/ser.rs")],
 ["event log written by recording Serialize, Seq and Map implementations"])
p("C14","Calls do not influence each other, across threads or over time",
 "The result of every json::from_str, json::to_string and Value operation depends only on its arguments: not on calls made earlier, including failed or panicked ones, nor on nested calls made from inside a callback, nor on calls running concurrently in other threads. Values can be sent to and shared with other threads, and concurrent use causes no data race.",
 ["schedules","histories"],"every history of previous calls and every interleaving of calls on any number of threads",
 "All tests are single calls on fresh state with no shared data; the one process-wide object (the visitor for ignored input) is never used concurrently on purpose.",
 ["src/ignore.rs","src/json/de.rs","src/json/ser.rs","src/json/value.rs"],
 [("IGNORE","process-wide zero-sized visitor for ignored input","src/ignore.rs")],
 [("per-call parser and writer state","src/json/de.rs, src/json/ser.rs"),("zero-sized static","src/ignore.rs")],
 ["results of the same call alone, after other calls, and beside other threads; ThreadSanitizer and Miri reports"])
p("C15","Work and memory are proportional to the data",
 "The instructions executed and the heap memory held and allocated by json::from_str, json::to_string and by dropping a Value grow at most proportionally (up to a logarithmic factor for sorted maps) with the size of the document or value, for every shape of data: deep, wide, long strings, many escapes, long numbers, many or repeated keys, ignored members, and inputs that fail late.",
 ["inputs"],"every family of documents of growing size, including hostile ones",
 "Tests use inputs of fixed size and the benchmark one document; superlinear cost shows only when sizes of many different shapes are compared.",
 ["src/json/de.rs","src/json/ser.rs","src/json/drop.rs","src/json/value.rs","src/de/impls.rs","src/ser/impls.rs"],
 [("buffer","scratch space, cleared for each string","src/json/de.rs"),("stack","amortized growth","src/json/de.rs, src/json/ser.rs, src/json/drop.rs")],
 [("single pass over the input","src/json/de.rs"),("amortized pushes to Vec and String","src/json/*.rs")],
 ["instruction counts under valgrind","allocator counters"])
p("C16","Array, Object and Value behave like Vec, BTreeMap and plain data",
 "Under any sequence of operations, json::Array behaves as a Vec<Value> and json::Object as a BTreeMap<String, Value>: contents, lengths, order, iteration by value and by reference, collecting from iterators, cloning, clone_from, defaults and Debug output agree with those of the plain collection. Each element moved out is yielded exactly once and stays valid, elements not taken from a partly consumed iterator are dropped exactly once, a clone is equal to and independent of its original, and Number's Display prints the same text as json::to_string for finite numbers.",
 ["histories"],"every sequence of construction, mutation, iteration (complete or abandoned), cloning, moving and dropping operations on Value trees",
 "No test uses Array or Object beyond push and Debug; ownership hand-over between the wrapper with its own Drop and the inner collection depends on the history of operations.",
 ["src/json/array.rs","src/json/object.rs","src/json/value.rs","src/json/number.rs","src/json/drop.rs"],
 [("inner","the wrapped collection","src/json/array.rs, src/json/object.rs")],
 [("take() by ptr::read under ManuallyDrop","src/json/array.rs, src/json/object.rs"),("Deref / DerefMut","src/json/array.rs, src/json/object.rs"),("Clone and clone_from","src/json/array.rs")],
 ["public API of Array, Object and Value mirrored on a plain model; live heap bytes"])
p("C17","Results are the same in every build configuration",
 "For every input and value, json::from_str and json::to_string give the same result whether the crate is built with or without its std feature, with or without optimizations, overflow checks and debug assertions, whatever layout the compiler chooses for the types involved, and on targets of either byte order and pointer width (the limits of usize and isize aside). In particular no input makes a build with overflow checks panic where an optimized build returns.",
 ["configurations","inputs"],"every input, over feature std on/off, optimization level, overflow checks and debug assertions on/off, randomized type layout, compiler, target",
 "The suite runs in one profile, twice, each time on the same few inputs; it never compares configurations with each other.",
 ["src/lib.rs","src/de/impls.rs","src/ser/impls.rs","src/json/de.rs","src/json/ser.rs","src/place.rs","derive/src/de.rs"],
 [],
 [("cfg(feature = \"std\") only adds HashMap and Error impls","src/lib.rs, src/de/impls.rs, src/ser/impls.rs, src/error.rs"),("repr(C) on places","src/place.rs, derive/src/de.rs")],
 ["transcript of results of one workload, recorded in each configuration and compared"])
p("C18","Parsing and serializing always return",
 "For every &str and every supported target type, json::from_str returns Ok or Err after finitely many steps, and json::to_string returns a String for every value: no panic, abort, endless loop or unbounded allocation, whatever the input.",
 ["inputs"],"every &str below 2 GiB, including hostile, truncated and random ones, against every supported target type; every value",
 "Tests feed well-formed documents and three rejects; a panic or hang needs the one input that reaches it, and truncated or corrupted documents are not tried.",
 ["src/json/de.rs","src/json/ser.rs","src/de/impls.rs","src/ser/impls.rs","derive/src/de.rs","src/ignore.rs"],
 [("pos","never beyond the end of the input","src/json/de.rs")],
 [("bounds-checked next/peek","src/json/de.rs"),("unwraps that rely on visitor protocol","src/de/impls.rs Box<T>, Option<T>")],
 ["how the call ends: return, panic, signal, CPU and heap budget"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,S)
print(len(P))
