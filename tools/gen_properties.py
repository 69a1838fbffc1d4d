#!/usr/bin/env python3
"""Writes properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

p("P01", "Slice parsing accepts exactly well-formed DER and isolates one value",
  "Parsing a byte slice as DER succeeds if and only if the slice starts with a shortest-form identifier, a definite shortest-form length and that many contents octets; the parsed value then is exactly that prefix, its identifier, length and contents are the three parts, and the slice is advanced to the first octet after it. Otherwise an error is returned and the slice is left as it was, including when the length is indefinite. The shared-slice and the mutable-slice parsers behave alike.",
  ["inputs"], "every byte string (any identifier length, any length form, any trailing data, any truncation)",
  "Unit tests feed valid encodings built by the library itself plus a handful of bad octets; acceptance over all octet strings, and what happens to the caller's slice on failure, is never compared with an independent decoder.",
  ["bsn1/src/der_ref.rs", "bsn1/src/identifier_ref.rs", "bsn1/src/length.rs", "bsn1/src/misc.rs"],
  [("DerRef::parse / parse_mut / do_parse", "bsn1/src/der_ref.rs"), ("parse_id, parse_length", "bsn1/src/identifier_ref.rs, bsn1/src/length.rs"), ("disassemble", "bsn1/src/der_ref.rs")],
  ["return value, id/length/contents accessors, remaining slice"])
p("P02", "Slice parsing delimits BER exactly, at any nesting of indefinite lengths",
  "Parsing a byte slice as BER yields exactly the first value: a definite-length value ends after the announced contents, and an indefinite-length value ends at the end-of-contents marker that matches its own opening, however indefinite and definite values are nested inside it. The slice is advanced to the next octet on success, and any truncation or malformed identifier or length is an error that leaves the slice as it was. The shared-slice and the mutable-slice parsers behave alike.",
  ["inputs"], "every byte string and every tree of nested definite/indefinite values, at any depth, cut or corrupted anywhere",
  "Tests parse a few one- and two-level indefinite values; deep and mixed nestings, end-of-contents look-alikes inside definite contents and truncation at each octet are not reached.",
  ["bsn1/src/ber_ref.rs", "bsn1/src/identifier_ref.rs", "bsn1/src/length.rs"],
  [("BerRef::parse / parse_mut / do_parse, depth counter", "bsn1/src/ber_ref.rs"), ("parse_id, parse_length", "bsn1/src/identifier_ref.rs, bsn1/src/length.rs")],
  ["return value, accessors, remaining slice"])
p("P03", "Parsing from a reader depends only on the octets, not on how they arrive",
  "Parsing an identifier, a length, a DER or a BER value from a reader gives the same acceptance and the same octets as parsing the same bytes from a slice, whatever sizes the reader returns and however often it reports an interruption. On success exactly the octets of that value have been taken from the reader, so consecutive values can be read one after another. This holds as well when a typed value is deserialized from a reader.",
  ["inputs", "schedules"], "every byte string and every sequence of short reads and interruptions delivering it",
  "All tests read from in-memory slices, which always fill the buffer in one call; no test splits a value over several reads or checks how much was consumed.",
  ["bsn1/src/der.rs", "bsn1/src/ber.rs", "bsn1/src/identifier.rs", "bsn1/src/length.rs", "bsn1/src/misc.rs", "bsn1_serde/src/lib.rs"],
  [("Der::parse, Ber::parse", "bsn1/src/der.rs, bsn1/src/ber.rs"), ("read_u8", "bsn1/src/misc.rs"), ("read_der / read_ber", "bsn1_serde/src/lib.rs")],
  ["parsed value, octets left in the reader"])
p("P04", "Hostile, truncated or failing input ends in an error, never in a crash",
  "Whatever octets are supplied, and wherever the source ends or fails, parsing either returns a value or an error: it never panics or aborts, never reports success on incomplete input, and hands the source's own I/O error back to the caller. Memory requested while parsing stays proportional to the octets actually delivered, no matter what length the input announces.",
  ["inputs", "fault_sequences"], "every byte string, every truncation point, every read-error position and kind, every announced length up to the largest representable one",
  "No test uses a failing reader or an announced length larger than the data by more than a few octets.",
  ["bsn1/src/der.rs", "bsn1/src/ber.rs", "bsn1/src/buffer/little_endian/mod.rs", "bsn1/src/misc.rs", "bsn1_serde/src/lib.rs"],
  [("contents reading and buffer growth", "bsn1/src/der.rs, bsn1/src/ber.rs"), ("error mapping", "bsn1/src/misc.rs, bsn1/src/lib.rs")],
  ["result, allocator requests, process status"])
p("P05", "Identifiers encode class, P/C flag and number faithfully and canonically",
  "For every class, primitive/constructed flag and tag number up to 128 bits, the built identifier is the shortest-form X.690 encoding, and class, flag and number read back equal what was given; parsing that encoding gives the same identifier, and no other encoding of it is accepted. Changing the class, flag or number of an existing identifier, in any order and any number of times, gives the same octets as building it with those parts. A number that does not fit is reported as an overflow and never as a wrong number.",
  ["inputs", "histories"], "all classes, flags and tag numbers, all identifier octet strings, all sequences of edits",
  "Tests enumerate small numbers and a few boundary values and never mix edits that grow and shrink the encoding.",
  ["bsn1/src/identifier.rs", "bsn1/src/identifier_ref.rs", "bsn1/src/id_tags.rs"],
  [("Id::new, Id::set_number", "bsn1/src/identifier.rs"), ("parse_id, class/pc/number, set_class/set_pc", "bsn1/src/identifier_ref.rs")],
  ["octets and accessors"])
p("P06", "Length octets are minimal, exact and strictly parsed",
  "Every definite length encodes to the unique shortest form and its reported encoded size equals the octets produced; parsing gives back the same number. Length octets that are not the shortest form are refused as redundant, ones that exceed the machine word as overflow and incomplete ones as unterminated, and an indefinite length is neither equal to nor ordered against any length.",
  ["inputs"], "all machine-word lengths and all length octet strings",
  "Tests cover boundary lengths; the set of refused encodings and their classification is not compared with an independent definition.",
  ["bsn1/src/length.rs", "bsn1/src/length_buffer.rs"],
  [("Length::to_bytes / len / parse", "bsn1/src/length.rs"), ("LengthBuffer", "bsn1/src/length_buffer.rs")],
  ["octets, parse results, comparisons"])
p("P07", "Integer and boolean contents convert exactly for every width",
  "Every integer of every supported width and signedness encodes to the shortest two's-complement octets, and decoding into any width returns that same number if it fits and an overflow error otherwise. Contents that are empty or padded with redundant sign octets are refused. Booleans encode to 0x00/0xff; BER decoding takes any single octet (zero is false) and DER decoding only those two.",
  ["inputs"], "all values of all twelve integer types, all contents octet strings, all target widths",
  "Exhaustive tests exist only up to 16 bits and for same-width conversion; wider and cross-width conversions are sampled at the extremes.",
  ["bsn1/src/contents.rs", "bsn1/src/contents_ref.rs"],
  [("Contents::from(integer)", "bsn1/src/contents.rs"), ("to_integer, to_bool_ber, to_bool_der", "bsn1/src/contents_ref.rs")],
  ["octets, decoded numbers, error kinds"])
p("P08", "Values built from parts carry exactly those parts",
  "A DER or BER value built from an identifier and contents - in one piece, from a list of fragments, with reserved contents filled in later, or converted from an integer, boolean, string or octets - is the identifier octets, the shortest length octets (or the indefinite-length octet when so requested) and the contents, and nothing else. Taking it apart, parsing it again, converting it between DER and BER, borrowed and owned, or extracting the raw octets gives back the same parts and octets. Asking for reserved contents whose total exceeds isize::MAX panics, as documented, and never yields a value.",
  ["inputs"], "all identifiers, contents and fragmentations, across the short/long length (up to four length octets) and inline/heap storage boundaries, and sizes no allocation can have",
  "Tests build values with small fixed contents and never cross all construction routes with all length boundaries.",
  ["bsn1/src/der.rs", "bsn1/src/ber.rs", "bsn1/src/der_ref.rs", "bsn1/src/ber_ref.rs", "bsn1/src/contents.rs"],
  [("new, with_id_length, from_id_iterator, From conversions", "bsn1/src/der.rs, bsn1/src/ber.rs"), ("into_vec, disassemble, to_owned", "bsn1/src/der.rs, bsn1/src/ber.rs")],
  ["octets and accessors"])
p("P09", "Editing a value in place keeps it well formed and equal to a rebuilt one",
  "After any sequence of appending octets, truncating, overwriting contents octets, changing the identifier's class or P/C flag, cloning and converting, a definite-length value equals the one built afresh from its current identifier and contents, with the length octets again in shortest form; an indefinite-length value keeps its header and has exactly the edited contents. Truncating to the current size or more changes nothing, and a clone is never affected by edits to its original or vice versa.",
  ["histories"], "all edit sequences over all sizes, including repeated crossings of the 127/128, 255/256 and 65535/65536 length boundaries and of inline/heap storage",
  "Tests apply one kind of edit at a time to short values.",
  ["bsn1/src/der.rs", "bsn1/src/ber.rs", "bsn1/src/buffer/mod.rs", "bsn1/src/buffer/little_endian/mod.rs"],
  [("push, extend_from_slice, truncate, mut_contents, mut_id", "bsn1/src/der.rs, bsn1/src/ber.rs"), ("Buffer::reserve/set_len/clone", "bsn1/src/buffer/little_endian/mod.rs")],
  ["octets after each step"])
p("P10", "Storage is never corrupted, leaked or freed wrongly, in any usage history",
  "However values are created, parsed, grown, shrunk, cloned, converted to and from vectors, moved and dropped, every memory block is released exactly once with the size it was allocated with, nothing is written outside it, and no block is left behind. The octets read back are always the ones stored, whether they live inline or on the heap, and also when a caller's fragment list changes between traversals.",
  ["histories"], "all histories of owned values and their storage, at all sizes around the inline capacity",
  "Ordinary tests do not observe the allocator: a wrong layout, an out-of-bounds write or a leak passes unnoticed.",
  ["bsn1/src/buffer/mod.rs", "bsn1/src/buffer/little_endian/mod.rs", "bsn1/src/der.rs", "bsn1/src/ber.rs", "bsn1/src/contents.rs", "bsn1/src/identifier.rs"],
  [("Buffer drop/clone/reserve/from_vec/into_vec", "bsn1/src/buffer/little_endian/mod.rs"), ("unsafe copies in builders and editors", "bsn1/src/der.rs, bsn1/src/ber.rs")],
  ["allocation log, guard octets, octets read back"])
p("P11", "Equality, ordering and hashing follow the octets in every representation",
  "Two identifiers, contents, DER or BER values compare equal exactly when their octets are equal, in every combination of owned and borrowed operands; identifiers order by their octets consistently in all combinations. Equal values hash equally in owned and borrowed form, so a map keyed by owned values is found by a borrowed key, independently of how the value was produced or how much spare storage it holds.",
  ["inputs"], "all pairs and triples of values, all owned/borrowed combinations, all production routes",
  "Tests compare a value with itself or with one different value.",
  ["bsn1/src/identifier.rs", "bsn1/src/identifier_ref.rs", "bsn1/src/contents.rs", "bsn1/src/contents_ref.rs", "bsn1/src/der.rs", "bsn1/src/der_ref.rs", "bsn1/src/ber.rs", "bsn1/src/ber_ref.rs", "bsn1/src/buffer/mod.rs"],
  [("PartialEq/PartialOrd/Hash/Borrow implementations", "bsn1/src/*.rs")],
  ["==, <, hash, map lookups"])
p("P12", "Error context never hides or alters the underlying error",
  "However many layers of context are put around a library error, by its own methods, by anyhow, by a derived conversion or inside another error, the root cause obtained is that original error, its kind still comparable, and the message chain lists the contexts from the outermost to the innermost. Errors compare equal exactly when they are the same plain kind; I/O and wrapped errors equal nothing. An error raised deep inside nested data while deserializing is reported with the kind that caused it as its root cause.",
  ["inputs", "histories"], "all error kinds, all context stacks, all nesting depths of a failing element",
  "No test looks at contexts or root causes.",
  ["bsn1/src/lib.rs", "bsn1_serde/src/de/mod.rs", "bsn1_serde_macros/src/data_container.rs"],
  [("Error::context / root_cause / into_anyhow / PartialEq", "bsn1/src/lib.rs"), ("context wrapping of element errors", "bsn1_serde/src/de/mod.rs")],
  ["root cause, chain, equality"])
p("P13", "Values of built-in types serialize to the DER that X.690 prescribes",
  "For every value of the supported built-in types and collections, nested in any way, the serialized octets are its X.690 DER encoding with the documented identifier, and the identifier and contents sizes announced in advance equal the octets then produced. All output routes (owned DER, owned BER, writer) give the same octets, also when an element type announces no size.",
  ["inputs"], "all values of booleans, twelve integer types, strings, octet strings, lists, deques, sets and maps, in all nestings and sizes, with element types that do or do not announce sizes",
  "Tests check flat collections of small integers; size announcements are checked only for a few extremes, and mis-announced sizes corrupt every enclosing length.",
  ["bsn1_serde/src/ser/mod.rs", "bsn1_serde/src/lib.rs", "bsn1_serde/src/octet_string.rs"],
  [("Serialize implementations: write_id, write_der_contents, id_len, der_contents_len", "bsn1_serde/src/ser/mod.rs"), ("to_der, write_der", "bsn1_serde/src/lib.rs")],
  ["serialized octets, announced sizes"])
p("P14", "Values of built-in types survive a serialize/deserialize round trip",
  "For every value of the supported built-in types and collections, nested in any way, deserializing what was serialized returns an equal value, through DER and through BER, from a parsed value, a slice and a reader. Several values written one after another are read back in order, each call consuming exactly its own octets even when the octets cannot be converted into the requested type.",
  ["inputs", "histories"], "all values of the supported types in all nestings and all sequences of values in one stream",
  "Tests round-trip flat collections of small integers and single values only.",
  ["bsn1_serde/src/lib.rs", "bsn1_serde/src/ser/mod.rs", "bsn1_serde/src/de/mod.rs", "bsn1_serde/src/octet_string.rs"],
  [("Deserialize implementations", "bsn1_serde/src/de/mod.rs"), ("from_*/parse_*/read_* entry points", "bsn1_serde/src/lib.rs")],
  ["deserialized value, remaining input"])
p("P15", "BER's indefinite-length form decodes to the same value, only where allowed",
  "Re-encoding any list, set, map, key-value pair or derived structure inside a value with the indefinite-length form, in any combination of levels, does not change what it deserializes to from BER. Giving a boolean, integer, string or octet string an indefinite length is refused as such, and so is any indefinite length when decoding DER.",
  ["inputs"], "all values of the supported types and all subsets of their constructed nodes turned into indefinite-length form",
  "Tests use one indefinite-length list of three integers and one indefinite-length structure.",
  ["bsn1_serde/src/de/mod.rs", "bsn1_serde_macros/src/data_container.rs", "bsn1_serde/src/octet_string.rs"],
  [("exclude_eoc, key/value pair decoding, indefinite checks", "bsn1_serde/src/de/mod.rs"), ("from_ber_contents", "bsn1_serde_macros/src/data_container.rs")],
  ["deserialized value or error"])
p("P16", "Deserializing built-in types accepts exactly conforming data",
  "For every well-delimited value and every supported built-in type, deserializing from DER or BER returns the value that an X.690 reading of the octets gives for that type, or an error if there is none: wrong identifiers, out-of-range or padded integers, bad booleans, invalid UTF-8, malformed elements and key-value pairs that are not exactly one key and one value are refused. It never panics and never yields a value the octets do not denote.",
  ["inputs"], "all DER/BER values, in particular near misses of valid encodings, against all supported types",
  "Negative tests are almost absent; mutated encodings are never decoded.",
  ["bsn1_serde/src/de/mod.rs", "bsn1_serde/src/octet_string.rs", "bsn1/src/contents_ref.rs"],
  [("Deserialize implementations and helper", "bsn1_serde/src/de/mod.rs")],
  ["result value or error"])
p("P17", "Equal unordered collections serialize to identical, sorted DER",
  "Two equal hash sets or hash maps serialize to the same octets, whatever their insertion order, removals, capacity or hash seed, with the encoded elements in ascending order as DER requires of a SET OF. Ordered sets and maps serialize in key order.",
  ["histories"], "all sets and maps and all histories of insertions and removals producing them",
  "Hash iteration order varies from run to run; tests only check membership.",
  ["bsn1_serde/src/ser/mod.rs"],
  [("Serialize for HashSet/HashMap/BTreeSet/BTreeMap", "bsn1_serde/src/ser/mod.rs")],
  ["serialized octets"])
p("P18", "Writing to any sink delivers the exact encoding or reports the sink's failure",
  "Serializing into a writer that accepts only part of each write or is interrupted produces exactly the octets of the in-memory encoding. If the writer fails at any point, for good or for a single call, serialization returns that I/O error and what was written is a prefix of the encoding; it never reports success without having delivered everything.",
  ["inputs", "fault_sequences"], "all values of built-in and derived types, all partial-write schedules, a failure at every octet position, lasting or passing",
  "All tests write into vectors, which never fail or write partially.",
  ["bsn1_serde/src/lib.rs", "bsn1_serde/src/ser/mod.rs", "bsn1_serde_macros/src/data_container.rs"],
  [("write_der / write_ber and Serialize implementations", "bsn1_serde/src/lib.rs, bsn1_serde/src/ser/mod.rs")],
  ["octets received by the sink, result"])
p("P19", "Derived types encode with the declared identifier and fields in order",
  "A derived struct or enum variant encodes as the identifier its attributes select - the base type with class, P/C flag and number overrides, number in shortest form, default SEQUENCE - followed by each serialized field's own encoding in declaration order, for named, tuple and unit shapes, generic or not. Decoding those octets from DER or BER gives back an equal value and the same enum variant, and announced sizes equal the octets produced.",
  ["programs", "inputs"], "all struct and enum definitions over the attribute grammar and all their values",
  "Tests cover a few fixed definitions; combinations of shape, attributes, nesting and tag numbers form an unbounded space of programs.",
  ["bsn1_serde_macros/src/attribute.rs", "bsn1_serde_macros/src/data_container.rs", "bsn1_serde_macros/src/ser/mod.rs", "bsn1_serde_macros/src/de/mod.rs", "bsn1_serde_macros/src/generics.rs"],
  [("Attribute::id, id_slice", "bsn1_serde_macros/src/attribute.rs, data_container.rs"), ("write_der_contents, der_contents_len, from_*_contents", "bsn1_serde_macros/src/data_container.rs")],
  ["compiled program: octets and values"])
p("P20", "Skip, default, conversion and transparent attributes do what they declare",
  "A skipped field contributes nothing to the encoding and is restored from its default or the named function; a field or type with a conversion encodes exactly as the converted value does and decodes through the declared type, a failing conversion surfacing as an error; a transparent struct encodes and decodes exactly as its single remaining field. This holds for every placement and combination of these attributes that the macros accept.",
  ["programs", "inputs"], "all struct and enum definitions combining skip, skip_serializing, skip_deserializing, default, into, to, from, try_from and transparent, and all their values",
  "Tests exercise each attribute in isolation on one or two fixed types.",
  ["bsn1_serde_macros/src/attribute.rs", "bsn1_serde_macros/src/data_container.rs", "bsn1_serde_macros/src/ser/mod.rs", "bsn1_serde_macros/src/de/mod.rs"],
  [("field constructors, conversion code, transparent_* helpers", "bsn1_serde_macros/src/data_container.rs"), ("do_into_serialize, do_to_serialize, do_from_deserialize, do_try_from_deserialize", "bsn1_serde_macros/src/ser/mod.rs, de/mod.rs")],
  ["compiled program: octets, values, errors"])
p("P21", "Derived types refuse data that is not exactly theirs",
  "Decoding a derived struct refuses any other identifier, missing fields, extra octets after the last field and fields of the wrong type; decoding a derived enum additionally refuses identifiers of no variant and never selects a variant whose identifier differs. The result on any well-delimited DER or BER value is the value the definition gives it or an error, never a panic.",
  ["programs", "inputs"], "all derived definitions and all values, in particular near misses of valid encodings",
  "Negative tests for derived types are nearly absent.",
  ["bsn1_serde_macros/src/de/mod.rs", "bsn1_serde_macros/src/data_container.rs"],
  [("identifier comparison, extra-octet check", "bsn1_serde_macros/src/de/mod.rs, data_container.rs")],
  ["result value or error"])
p("P22", "The derive macros refuse attributes that contradict or do not apply",
  "A definition in which the arguments of a bsn1_serde(...) attribute contradict each other (two conversions of one direction, a conversion beside an identifier, transparent beside either, skip beside a conversion), are repeated, misspelt, malformed or placed on something they cannot apply to (an identifier or transparent on a field, a default or skip on a type, transparent on an enum or on a struct without exactly one serialized field, a union) does not compile, for either derive macro, and the error points into that definition.",
  ["programs"], "all struct, enum and union definitions over the attribute grammar and beyond it",
  "No test in the repository compiles a definition that should be refused.",
  ["bsn1_serde_macros/src/attribute.rs", "bsn1_serde_macros/src/lib.rs", "bsn1_serde_macros/src/data_container.rs"],
  [("Attribute::sanitize_*, exclusive!, not_allowed!, parse", "bsn1_serde_macros/src/attribute.rs")],
  ["compiler diagnostics for the definition"])
p("P23", "All of this holds alike on every byte order and word size",
  "On a machine of big-endian byte order or of 32-bit words the library does what it does on a 64-bit little-endian one: the same values give the same octets, the same octets are delimited, accepted, refused and decoded alike, histories of edits, clones and conversions of owned values end in the same octets, and memory is used correctly on the way. The only difference is that a length which does not fit the machine's word is refused with an overflow error, and that usize and isize have the range of the word.",
  ["inputs", "histories", "configurations"], "the inputs, histories and schedules of the other properties, on each combination of byte order and word size",
  "The tests run on one machine; the storage used on big-endian machines is not even compiled there, and identifiers reach the heap only where words have 32 bits.",
  ["bsn1/src/buffer/universal_endian/mod.rs", "bsn1/src/buffer/little_endian/mod.rs", "bsn1/src/length.rs", "bsn1/src/length_buffer.rs", "bsn1/src/contents.rs", "bsn1/src/contents_ref.rs", "bsn1/src/identifier.rs"],
  [("Buffer: inline and heap storage, reserve, clone, drop", "bsn1/src/buffer/universal_endian/mod.rs, little_endian/mod.rs"), ("Length::to_bytes, parse; LengthBuffer", "bsn1/src/length.rs, length_buffer.rs"), ("from_integer, to_integer", "bsn1/src/contents.rs, contents_ref.rs"), ("Id::new, set_number", "bsn1/src/identifier.rs")],
  ["octets, values, errors and memory errors of the interpreted program"])
p("P24", "An error in nested data tells where in the value it lies",
  "When deserializing a list, set, map or derived structure fails because of one of its parts, however deeply nested, the chain of messages tells the way to it from the outside in: for each list or set the index of the element, for each map the index of the key-value pair and whether the key or the value is at fault, for each derived structure or enum variant the field, by the name or number it has in the definition. Indices count from zero in the order of the octets. This holds in DER and in BER, with definite and indefinite lengths, for parts that cannot be parsed, converted or that are missing; only inside a value of indefinite length octets that cannot be parsed are found when that value itself is delimited, and the way ends there.",
  ["inputs"], "all values of the supported and derived types in all nestings, one defect of any kind at any place, DER and BER with any choice of indefinite lengths",
  "No test looks at the messages of nested errors.",
  ["bsn1_serde/src/de/mod.rs", "bsn1_serde_macros/src/data_container.rs", "bsn1/src/lib.rs"],
  [("DeserializeHelper: index in the contexts", "bsn1_serde/src/de/mod.rs"), ("from_ber_contents, from_der_contents and the transparent variants: field in the contexts", "bsn1_serde_macros/src/data_container.rs")],
  ["message chain of the error"])

p("P25", "Operations never disturb each other, in one thread or across threads",
  "What an operation returns depends on its arguments only: not on what was parsed, edited, serialized or deserialized before, nor on whether that succeeded, nor on what other threads do at the same time. Owned values, borrowed values and errors can be shared between threads and given to another thread. Concurrent reading, cloning, comparing, serializing and deserializing of shared values gives what it gives alone, is free of data races, and editing or dropping a clone in one thread never changes the original or another clone in another.",
  ["schedules", "histories"], "all programs of up to four threads over shared and handed-over values of the library and of serializable types, all ways in which the threads take turns",
  "All tests run one operation in one thread; nothing is shared or handed over.",
  ["bsn1/src/buffer/little_endian/mod.rs", "bsn1/src/buffer/universal_endian/mod.rs", "bsn1_serde/src/lib.rs", "bsn1_serde/src/ser/mod.rs", "bsn1_serde/src/de/mod.rs"],
  [("Send and Sync of Buffer, Clone, Drop", "bsn1/src/buffer/*/mod.rs"), ("absence of shared state", "all crates")],
  ["results of each thread, octets of the shared values, data races"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
