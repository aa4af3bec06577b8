#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
def P(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    print(json.dumps(d))

P("C01", "Deserializing any bytes returns Ok or Err: no panic, overflow or bad memory use",
  "For every byte string offered as YAML and every supported target type, deserialization terminates with a value or an error. It never panics, overflows, aborts, or reads or writes memory outside live allocations.",
  ["inputs"], "all byte strings (valid UTF-8 or not), all target types (Value, strings, numbers, options, sequences, maps, structs, enums, ignored content)",
  "Tests feed a few hundred well chosen documents; the C-derived scanner does manual pointer and buffer arithmetic whose failure needs rare byte combinations.",
  ["src/de.rs", "src/loader.rs", "src/libyaml/parser.rs", "src/libyaml/tag.rs", "src/libyaml/cstr.rs"],
  [("event loading and deserialization from events", "src/loader.rs, src/de.rs"), ("safe wrapper over the C-style parser", "src/libyaml/parser.rs")],
  ["from_slice/from_str/Deserializer::from_slice return"])
P("C02", "All memory acquired while parsing or emitting is released",
  "After any deserialization or serialization call has returned and its result has been dropped, no allocation made by the call is still live. This holds on success, on every error path and when a document stream is abandoned part-way.",
  ["inputs", "histories"], "all inputs, success and error outcomes, early abandonment of document iteration, failing writers",
  "No test observes allocations; leaks sit on error paths of C-style code with manual delete calls.",
  ["src/libyaml/parser.rs", "src/libyaml/emitter.rs", "src/libyaml/util.rs", "src/loader.rs", "src/de.rs", "src/ser.rs"],
  [("Owned / Drop of parser, emitter and events", "src/libyaml/util.rs, src/libyaml/parser.rs, src/libyaml/emitter.rs")],
  ["allocator state after the call"])
P("C03", "Every string survives serialization and deserialization unchanged",
  "Serializing any Rust string and deserializing the text gives back the identical string, whether it is the whole document, a sequence element, a mapping key, a mapping value, a struct field or nested deeper. Read back without a type hint it is still a string, never a number, boolean or null.",
  ["inputs"], "all Unicode strings, all positions",
  "Quoting depends on the full content of the string (indicators, spaces, line breaks, control characters, number look-alikes); tests sample a few dozen strings.",
  ["src/ser.rs", "src/de.rs", "src/libyaml/emitter.rs"],
  [("scalar style choice", "src/ser.rs serialize_str"), ("plain scalar resolution", "src/de.rs visit_untagged_scalar"), ("emitter wrapper", "src/libyaml/emitter.rs")],
  ["to_string then from_str::<String> and from_str::<Value>"])
P("C04", "Every scalar of every supported Rust type survives a round trip",
  "Serializing any bool, integer of any width up to 128 bits, float, char, unit or option and deserializing the text as the same type gives back the same value; for floats that includes infinities, negative zero and NaN.",
  ["inputs"], "all values of bool, i8..i128, u8..u128, f32, f64, char, (), Option of these",
  "The value space is huge and boundaries (sign, width, radix look-alikes) matter; tests use single values.",
  ["src/ser.rs", "src/de.rs", "src/number.rs"],
  [("integer and float formatting", "src/ser.rs"), ("integer and float parsing", "src/de.rs parse_* / visit_*")],
  ["to_string then from_str of the same type"])
P("C05", "Any YAML value tree survives a text round trip, and emitted text is stable",
  "Any Value that was obtained by parsing a document can be serialized, and parsing the result gives an equal Value. Serializing that second Value gives the same text again. Tags that contain a comma, square bracket or NUL are aside (known finding of C18).",
  ["inputs", "programs"], "all document texts that parse to a Value; all nested Values incl. tags, non-string and collection keys, empty collections",
  "Tests check fixed documents; block/flow, tag and key-position interactions multiply.",
  ["src/ser.rs", "src/value/ser.rs", "src/value/tagged.rs", "src/de.rs", "src/value/de.rs"],
  [("serializer state machine for single-entry maps and tags", "src/ser.rs State"), ("tagged values", "src/value/tagged.rs")],
  ["from_str::<Value>, to_string, from_str::<Value>"],
  state=[("State", "pending mapping start / found tag", "src/ser.rs")])
P("C06", "Plain scalars resolve to null, bool, number or string by the documented schema",
  "An untagged plain scalar read without a type hint is null exactly for ~, null, Null, NULL and empty; a bool exactly for true/True/TRUE/false/False/FALSE; an integer or float exactly when it is in the accepted decimal, 0x, 0o, 0b, float, .inf or .nan syntax, with exactly that value; and otherwise the string itself. Integers wider than 64 bits are read exactly into 128-bit types, refused by Value, and beyond 128 bits become floats. Reading a bool, unit or integer type succeeds exactly when the resolved value is of that kind and fits, a String gets the text itself, and a float accepts decimal numbers, .inf and .nan.",
  ["inputs"], "all plain scalars",
  "The set of look-alikes (leading zeros, signs, radix prefixes, underscores, overflow widths) is unbounded; tests list a few dozen.",
  ["src/de.rs", "src/number.rs"],
  [("visit_untagged_scalar, parse_null/bool/f64, visit_int, digits_but_not_number", "src/de.rs")],
  ["from_str::<Value> and typed from_str of one scalar"])
P("C07", "Quoted and block scalars are strings; explicit tags decide the type",
  "A single-quoted, double-quoted or block scalar without a tag is always read as a string, whatever its content. A scalar tagged with a core tag (!!str, !!int, !!float, !!bool, !!null) is that type or an error, and a scalar with a custom local tag is delivered with its tag.",
  ["inputs"], "all scalar contents, all styles, all core and local tags",
  "Tests use one or two contents per style and tag.",
  ["src/de.rs", "src/libyaml/tag.rs", "src/libyaml/parser.rs", "src/value/tagged.rs"],
  [("visit_scalar tag dispatch", "src/de.rs"), ("tag constants", "src/libyaml/tag.rs")],
  ["from_str::<Value>, typed reads"])
P("C08", "String, byte, reader and Deserializer entry points give the same result",
  "For the same bytes, reading from a string, a byte slice, an io::Read in any chunking, or through an explicit Deserializer gives the same value, or fails in every case with the same message.",
  ["inputs", "schedules"], "all inputs, all ways a reader may split the bytes over read calls",
  "Tests call one entry point per document and use whole-buffer readers.",
  ["src/de.rs", "src/loader.rs", "src/libyaml/parser.rs"],
  [("Progress variants", "src/de.rs"), ("Loader::new", "src/loader.rs")],
  ["from_str, from_slice, from_reader, Deserializer::from_*"])
P("C09", "A document stream is read and written document by document, none lost or added",
  "Iterating a multi-document input yields exactly the documents in order, each with the same value as if parsed alone. Single-document entry points succeed only for exactly one document, and writing several values through one Serializer gives a stream that reads back as exactly those values.",
  ["inputs", "histories"], "all sequences of documents, explicit or implicit document markers, directives between documents",
  "Tests have two or three fixed streams.",
  ["src/de.rs", "src/loader.rs", "src/ser.rs"],
  [("Deserializer iterator", "src/de.rs"), ("Loader::next_document", "src/loader.rs"), ("document start/end events", "src/ser.rs")],
  ["Deserializer iteration, from_str, Serializer::new + serialize"])
P("C10", "An alias means the node most recently anchored under that name",
  "Reading a document with anchors and aliases gives the same value as the document in which every alias is replaced by the most recent preceding node with that anchor, including anchors defined more than once and aliases in key position. An alias with no preceding anchor is an error.",
  ["inputs"], "all documents with anchors and aliases",
  "Tests cover one anchor with one or two aliases; redefinition and nesting combinations are not sampled.",
  ["src/loader.rs", "src/de.rs"],
  [("anchor table", "src/loader.rs next_document"), ("alias jump", "src/de.rs jump")],
  ["from_str::<Value>, from_str of typed targets"],
  state=[("anchors, aliases", "anchor name to event index", "src/loader.rs")])
P("C11", "Nesting and alias expansion are bounded by errors, and only beyond the limit",
  "Input nested deeper than the recursion limit gives the recursion error and never exhausts the stack, while nesting within the limit is accepted. A document whose aliases expand to far more nodes than it contains gives the repetition error, and documents without aliases never give it.",
  ["inputs"], "all nesting depths and kinds of nesting, all alias graphs",
  "Tests try one depth and one billion-laughs document.",
  ["src/de.rs", "src/loader.rs"],
  [("recursion_check", "src/de.rs"), ("jump count", "src/de.rs")],
  ["from_str result"],
  state=[("remaining_depth", "levels left", "src/de.rs"), ("jumpcount", "aliases followed", "src/de.rs")])
P("C12", "Reported error locations lie in the input and agree with each other",
  "Whenever a deserialization error carries a location, its index is within the input, and its line and column are the 1-based line and column of that index in the text, columns counted in characters (at the very end of input a missing final line break counts as present). Unless the error is at the very start, the error message and the error's Debug form show the same line and column.",
  ["inputs"], "all failing inputs, syntax and type errors",
  "Tests compare messages for about forty fixed documents.",
  ["src/error.rs", "src/libyaml/error.rs", "src/path.rs", "src/de.rs"],
  [("Location::from_mark, Display", "src/error.rs"), ("Mark", "src/libyaml/error.rs")],
  ["Error::location, Display"])
P("C13", "Merge keys combine mappings without overriding explicit keys",
  "Applying merges removes every << entry that is merged and adds exactly the missing keys from the referenced mapping, or from the listed mappings with earlier ones taking precedence; explicitly given keys keep their values and nothing else changes (the order of the remaining entries aside). A << value that is not a mapping or list of mappings is an error.",
  ["inputs"], "all Values with merge entries at any depth",
  "One test with one fixed document.",
  ["src/value/mod.rs", "src/mapping.rs"], [("apply_merge", "src/value/mod.rs")],
  ["Value::apply_merge"])
P("C14", "Numbers keep their exact value through every view, conversion and text form",
  "A Number reports the same mathematical value and kind through its is_/as_ accessors, conversions, Display and FromStr, deserialization and serialization. as_i64 and as_u64 return a value exactly when it is representable, and as_f64 of an integer is the nearest float.",
  ["inputs"], "all Numbers from any i64/u64/f64 incl. boundaries, infinities and NaN",
  "Tests use a handful of numbers.",
  ["src/number.rs", "src/value/from.rs", "src/value/partial_eq.rs", "src/value/mod.rs"],
  [("N::PosInt / NegInt / Float invariants", "src/number.rs")], ["Number API"],
  state=[("N", "PosInt for >= 0, NegInt for < 0, else Float", "src/number.rs")])
P("C15", "Equality, ordering and hashing of values obey their laws and agree",
  "For Value, Number, Tag, TaggedValue and Mapping equality is an equivalence and equal things hash equally; partial_cmp is antisymmetric and transitive and gives Equal for equal things, orders integers and strings by value and sequences by their elements. A Value equals a primitive exactly when the corresponding accessor (looking through tags) returns an equal value.",
  ["inputs"], "all pairs and triples of Values",
  "Tests compare a few fixed pairs; laws quantify over all pairs and triples.",
  ["src/value/mod.rs", "src/number.rs", "src/mapping.rs", "src/value/tagged.rs", "src/value/partial_eq.rs"],
  [("PartialOrd/Hash impls", "src/mapping.rs, src/number.rs, src/value/tagged.rs")], ["==, partial_cmp, hash"])
P("C16", "Mapping behaves as an insertion-ordered map with unique keys",
  "After any sequence of operations a Mapping contains exactly the entries an ordered list with unique keys would contain, in the same order, and every lookup, removal, entry, retain and iteration operation returns what that model returns. Looking up by &str finds exactly the string key with that text.",
  ["histories", "inputs"], "all sequences of Mapping operations over all key values",
  "Tests call a few operations once.",
  ["src/mapping.rs"], [("Mapping over IndexMap, Index impls, Entry", "src/mapping.rs")], ["Mapping API"])
P("C17", "Duplicate keys are always rejected",
  "Reading a mapping in which two keys are equal as values (written the same or differently) into a Value or Mapping, or a repeated field into a struct, gives a duplicate error. Mappings without equal keys are never rejected for duplication.",
  ["inputs"], "all mappings, all pairs of key spellings",
  "Two tests with fixed keys.",
  ["src/mapping.rs", "src/value/de.rs", "src/de.rs"],
  [("DuplicateKeyError", "src/mapping.rs")], ["from_str::<Value>, from_str::<Mapping>, struct targets"])
P("C18", "Enums and tagged values are written as tags and read back exactly",
  "Any unit, newtype, tuple or struct variant round-trips through text and through Value at any position, including as mapping keys and within options and sequences; as text, a variant with data nested directly inside a variant is refused with an error, never written wrongly. Unknown variants and mismatched payloads are errors. Names are nonempty and do not start with '!'.",
  ["inputs", "programs"], "all enum values at all positions, all tags",
  "Tests use one enum with fixed payloads.",
  ["src/ser.rs", "src/de.rs", "src/value/tagged.rs", "src/value/ser.rs", "src/value/de.rs"],
  [("serialize_*_variant, FoundTag", "src/ser.rs"), ("deserialize_enum", "src/de.rs"), ("Tag normalisation", "src/value/tagged.rs")],
  ["to_string/from_str, to_value/from_value"])
P("C19", "singleton_map encodings write one-entry maps and read back exactly",
  "Through the singleton_map (also on an Option) and singleton_map_recursive adapters every enum value is written as a string or one-entry mapping and reads back equal. Inputs that are not such an encoding are errors. (Integers wider than 64 bits inside variants are aside.)",
  ["inputs", "programs"], "all enum values, nested for the recursive adapter",
  "A few fixed examples.",
  ["src/with.rs"], [("SingletonMap* adapters", "src/with.rs")], ["adapters over to_string/from_str"])
P("C20", "Deserializing from a Value agrees with deserializing from the text",
  "For any document, reading a type from the parsed Value by value and from a borrowed Value give the same result or the same error. Reading it from the text gives that result too, or both fail, except where only the text has the needed detail: core !! tags, duplicate keys, integers over 64 bits, spellings of non-string scalars read as text, char, key or float, and null or empty documents read as collections.",
  ["inputs", "programs"], "all documents; all target types",
  "Tests pick pairs by hand for a few types.",
  ["src/value/de.rs", "src/de.rs", "src/value/tagged.rs"],
  [("Deserializer for Value and &Value", "src/value/de.rs")], ["from_str, from_value, T::deserialize(&value)"])
P("C21", "to_value agrees with the text route and from_value inverts it",
  "For any serializable value, to_value succeeds exactly when to_string does and gives the Value that parsing the text gives, and from_value gives back the original. Serializing a Value to a Value is the identity. Aside are directly nested variants, bytes, f32, integers over 64 bits, repeated map keys, and keys whose Display writes exactly '!' and then the rest (they denote tags).",
  ["inputs", "programs"], "all values of all serializable shapes",
  "A few fixed structures.",
  ["src/value/ser.rs", "src/ser.rs", "src/value/de.rs"], [("Serializer for Value", "src/value/ser.rs")], ["to_value, to_string, from_value"])
P("C22", "Collection lengths and struct fields are checked; ignored content skips one node",
  "Reading a fixed-length sequence succeeds only if the input has exactly that many elements, and a struct gets each field from its own key whatever the order, with missing fields and denied unknown fields reported. Ignoring a node of any shape consumes exactly that node.",
  ["inputs", "programs"], "all lengths, field orders and shapes of ignored nodes",
  "A few fixed lengths.",
  ["src/de.rs", "src/value/de.rs"], [("end_sequence, end_mapping, ignore_any", "src/de.rs")], ["typed from_str, from_value"])
P("C23", "Borrowed strings equal owned strings and point into the input",
  "Wherever a document deserializes into a borrowed &str, the same document deserializes into an equal String, and the borrowed slice lies within the input. A document whose string cannot be borrowed is an error, not a wrong string.",
  ["inputs"], "all inputs and scalar styles",
  "One test with two scalars.",
  ["src/de.rs", "src/loader.rs", "src/libyaml/parser.rs"], [("repr slice / parse_borrowed_str", "src/de.rs")], ["from_str::<&str> and containers"])
P("C24", "I/O faults of readers and writers are reported and nothing is lost or garbled",
  "If the reader or writer fails at any call the error is returned and carries that I/O failure; bytes already written are a prefix of the complete output. Serializer::flush passes on everything serialized so far (but for the first scalar of a collection still open) and reports the writer's own flush failure. With a writer that accepts partial or interrupted writes the bytes written equal to_string's output.",
  ["fault_sequences", "inputs"], "all positions of a fault, all short-write and interrupt schedules",
  "No test uses a failing or short-writing stream.",
  ["src/libyaml/emitter.rs", "src/ser.rs", "src/loader.rs", "src/de.rs"],
  [("write_handler", "src/libyaml/emitter.rs"), ("read_to_end", "src/loader.rs")], ["to_writer, from_reader"])
P("C25", "Value accessors and indexing agree with the content",
  "For any Value and index, get, index, get_mut, the is_/as_ accessors and index assignment address exactly the element with that position or key, looking through tags, and leave every other part unchanged. Missing elements read as None or Null and never alias another element; assigning to a missing key adds it last (a Null root becomes a mapping), and assigning to a position that cannot exist panics.",
  ["inputs", "histories"], "all Values and all index types",
  "A few fixed lookups.",
  ["src/value/index.rs", "src/value/mod.rs", "src/mapping.rs"], [("Index impls", "src/value/index.rs")], ["Value API"])
P("C26", "Serialized output is one well-formed document ending in a newline",
  "Whatever value is serialized successfully, the output is valid UTF-8, ends in a newline and contains exactly one YAML document with no content outside it. Any value that is not a directly nested enum or bytes serializes successfully. Tags that contain a comma, square bracket or NUL are aside (known finding of C18).",
  ["inputs", "programs"], "all serializable values of all shapes, incl. every key type and map length",
  "Tests check fixed values; the serializer's handling of keys, tags and lengths is a state machine over arbitrary shapes.",
  ["src/ser.rs", "src/libyaml/emitter.rs"], [("serializer state machine", "src/ser.rs"), ("emitter wrapper", "src/libyaml/emitter.rs")],
  ["to_string, to_writer"])
P("C27", "Derived types survive the text and the Value round trip",
  "A value of a derived type, built from fields, defaults, flattening, options, collections, maps with any scalar or composite key, recursion and externally, internally, adjacently or untagged enums, is read back equal from its own text and from its own Value. Aside are types where serde itself gives two values one form (nested options, Option of unit), integers over 64 bits in untagged, flattened or Value content, and directly nested variants.",
  ["inputs", "programs"], "all values of all derivable shapes, in every position",
  "Tests round-trip a handful of structs with one value each; how key position, enum representation and strings that look like other scalars combine is not sampled.",
  ["src/ser.rs", "src/de.rs", "src/value/ser.rs", "src/value/de.rs"],
  [("serializer and deserializer of composites", "src/ser.rs"), ("Deserializer for events", "src/de.rs")],
  ["to_string, from_str, to_value, from_value"])
P("C28", "A data error names the path and the place of the node that failed",
  "When a well-formed document does not fit the target type, the message starts with the path of the innermost node that failed: keys joined by dots, elements as [i], a key that is a collection or an alias as ?, an alias at the place where it stands, and for a missing, unknown or duplicate field or a wrong key the path of its mapping. The location is the start of that node as written (for an alias the anchored node, for an unknown field or wrong key the key itself) and the message ends with its line and column. Aside are an unknown variant named by a tag and errors at the very first byte, which show no place.",
  ["inputs", "programs"], "all documents and target types that disagree anywhere, at any depth",
  "Tests compare about twenty fixed messages.",
  ["src/de.rs", "src/path.rs", "src/error.rs"],
  [("Path and error fix_mark", "src/de.rs"), ("Display for Path", "src/path.rs")], ["from_str for typed targets, Error::location"])
P("C29", "A JSON document is read as the JSON value it denotes",
  "Any JSON text is accepted and gives the Value with the same null, booleans, numbers, strings, arrays and objects in order. Aside are nesting over 128, duplicate keys, tabs outside brackets, a key parted from its colon by a line break or over 1024 bytes, surrogate escapes, raw non-printable characters and line separators, integers over 64 bits and numbers beyond the range of f64.",
  ["inputs"], "all JSON texts, whatever white space, escapes and number forms",
  "No test reads JSON; users rely on YAML being a superset of it.",
  ["src/libyaml/parser.rs", "src/de.rs", "src/loader.rs"], [("plain and quoted scalars, flow collections", "src/de.rs")],
  ["from_str::<Value>"])
P("C30", "A Value is the same whichever way it was built",
  "From conversions, collecting, to_value, deserializing another format's data into a Value, and parsing the text of the same data all give equal Values. Another format's bytes, 128-bit integers, repeated keys and empty tags are errors; the text of an f32 is aside.",
  ["inputs", "programs"], "all data, all ways to build a Value, all size hints of other formats",
  "Tests use parsed Values or hand-built ones, never both for the same data.",
  ["src/value/from.rs", "src/value/de.rs", "src/value/ser.rs", "src/number.rs", "src/mapping.rs"],
  [("From impls", "src/value/from.rs"), ("ValueVisitor", "src/value/de.rs")], ["Value::from, to_value, Value::deserialize"])
P("C31", "Entries and fields keep their order",
  "Mapping entries keep the order in which they were written or inserted, and struct fields the order of declaration, from text to Value, Mapping or any map type, back to text, through to_value and from_value, below tags, aliases, flattening and singleton_map. Replacing a value keeps its place. The order after a merge and swap_remove are aside.",
  ["inputs", "programs", "histories"], "all mappings, key types and positions",
  "Tests compare the order of a few fixed maps.",
  ["src/mapping.rs", "src/de.rs", "src/ser.rs", "src/value/de.rs", "src/value/ser.rs"],
  [("Mapping iteration and MapAccess", "src/mapping.rs")], ["Mapping, from_str, to_string, to_value, from_value"])
