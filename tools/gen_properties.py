#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the properties)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                    "mechanism": [dict(name=a, where=b) for a, b in mech],
                    "observe_at": list(observe), "hook_needed": hook}})

IL, IO, ARR, DATA, STD = "src/ilint/mod.rs", "src/io/mod.rs", "src/io/array/mod.rs", "src/io/data/mod.rs", "src/io/std_io/mod.rs"
TAGS, MAC, RAW, PAY, SER, UT = "src/tags/mod.rs", "src/tags/macros.rs", "src/tags/raw/mod.rs", "src/tags/payload/mod.rs", "src/tags/serialization/mod.rs", "src/tags/util/mod.rs"
IMP, EXP, FAC, CST = "src/tags/standard/implicit/mod.rs", "src/tags/standard/explicit/mod.rs", "src/tags/standard/factory/mod.rs", "src/tags/standard/constants.rs"

prop("C01", "ILInt encoding is canonical and round-trips",
  "Every unsigned 64-bit value has exactly one encoding: itself in one byte below 248, otherwise a header byte 0xF8+n-1 followed by the shortest n-byte big-endian form of value-248. The reported encoded size is the number of bytes written, decoding those bytes gives back the value, and every entry point (ILInt, I/O and tag level helpers) produces the same bytes. With too little room the encoding is reported as an error.",
  ["inputs"], "all 2^64 values; all output rooms of 0 to 9 bytes",
  "The tests sample about twenty values; the size boundaries and the 2^64 range cannot be enumerated.",
  [IL, DATA, SER], [("encode / encoded_size", IL), ("decode", IL)], observe=["ilint::encode", "ilint::encoded_size", "ilint::decode", "io::data::write_ilint", "tags::serialize_ilint"])
prop("C02", "ILInt decoding of arbitrary bytes is total and exact",
  "Decoding any byte string either yields the value the format defines, consuming exactly the number of bytes announced by the first byte, or fails: with an overflow error when the value does not fit in 64 bits, otherwise with a truncation error. The decoders over readers, over slices and over bare bodies agree on every input and never panic or wrap around.",
  ["inputs"], "all byte strings of up to 10 bytes (an encoding never needs more than 9)",
  "2^72 inputs; the tests cover a handful of hand-written encodings and two overflow values.",
  [IL, DATA, SER], [("decode_body overflow check", IL), ("decoded_size", IL)], observe=["ilint::decode", "ilint::decode_from_bytes", "ilint::decode_body", "ilint::decoded_size"])
prop("C03", "Signed ILInt values map one-to-one to unsigned ones",
  "The signed mapping sends 0, -1, 1, -2, 2... to 0, 1, 2, 3, 4... and is a bijection between all signed and all unsigned 64-bit values. Signed encoding is the unsigned encoding of the mapped value, its reported size is exact, and decoding gives back the same signed value at every entry point.",
  ["inputs"], "all 2^64 signed and unsigned values",
  "Only a few values are tested; the extreme values exercise sign and shift corner cases.",
  [IL, DATA, SER], [("encode_sign / decode_sign", IL)], observe=["ilint::signed_encode", "ilint::signed_decode", "ilint::signed_encoded_size"])
prop("C04", "Primitive values are stored bit-exactly in big-endian order",
  "Writing any 8 to 64 bit integer or any 32/64 bit float (NaN payloads and signed zeros included) emits its big-endian bytes, exactly as many as its width, and reading them gives back the identical bit pattern. Strings are written as their UTF-8 bytes; reading accepts exactly the valid UTF-8 byte strings and returns the same text. All function, reader/writer-method and serializer entry points agree.",
  ["inputs"], "all values of each primitive type; all byte strings of up to 4 bytes as strings",
  "The tests use one or two samples per type; NaN payloads, sign bits and invalid UTF-8 forms are not covered.",
  [DATA, SER], [("read_*/write_*", DATA), ("ValueReader/ValueWriter", DATA), ("ValueSerializer/ValueDeserializer", SER)], observe=["io::data::read_*", "io::data::write_*", "read_value", "write_value", "serialize_value", "deserialize_value"])
prop("C05", "In-memory readers deliver the exact bytes, all or nothing",
  "A sequence of reads, skips and repositionings over an in-memory reader observes exactly the underlying bytes in order, and the position always stays between zero and the length. An operation that asks for more than what is left fails with an error (end-of-data when nothing is left), and consumes nothing; a zero-length operation always succeeds. Reported length, offset and availability are consistent after every step.",
  ["inputs", "histories"], "all buffers up to 6 bytes, all starting positions, any operation with any size (including huge sizes), one step from every state plus short histories",
  "The tests follow fixed scripts on fixed samples; overflow-sized requests and arbitrary interleavings are not sampled.",
  [ARR], [("MemoryReader::assert_can_read", ARR), ("set_offset clamping", ARR)], state=[("offset", "position of the next byte", ARR)], observe=["ByteArrayReader", "VecReader"])
prop("C06", "In-memory writers honour position, bounds and read-only mode",
  "Writing at any position of an in-memory writer replaces exactly the targeted bytes, extends growable vectors only as needed, leaves every other byte unchanged and advances the position by the amount written. A write that does not fit in a fixed buffer, or to a writer in read-only mode, fails and changes nothing. Repositioning clamps to the end of the data, and the count of bytes written never causes a failure.",
  ["inputs", "histories"], "all contents up to 6 bytes, all positions (including out of range), all write sizes up to 4, all read-only states",
  "Tests exercise append and one overwrite case; the position/size/content product is not covered.",
  [ARR], [("basevecwriter_writer_impl", ARR), ("ByteArrayWriter::can_write", ARR)], state=[("offset", "position of the next write", ARR)], observe=["VecWriter", "BorrowedVecWriter", "ByteArrayWriter"])
prop("C07", "A limited reader never goes past its budget",
  "Through a limited reader no operation ever takes more bytes from the source than the remaining budget, whatever the source does. A request larger than the budget fails without touching the source, a failed operation leaves the budget unchanged, and after success the budget has decreased by exactly the requested amount. Moving to the end consumes exactly the remaining budget.",
  ["inputs", "fault_sequences"], "all budgets and request sizes (full machine range for sizes), sources that fail at any point",
  "Tests use small fixed budgets and well-behaved sources.",
  [IO], [("LimitedReader::can_read", IO), ("LimitedReader::goto_end", IO)], state=[("available", "remaining budget", IO)], observe=["LimitedReader"])
prop("C08", "Skipping equals reading and discarding",
  "Skipping n bytes on any reader succeeds exactly when n more bytes are available, and then leaves the reader in the same position as reading n bytes would. No skip count, however large, causes a panic, a wrap-around, a backward move or a success without the bytes being there; a failed skip on an in-memory or seekable source leaves its position unchanged.",
  ["inputs", "fault_sequences"], "all 64-bit skip counts, all source lengths and positions; default, in-memory, limited and seekable readers",
  "Tests skip small counts; chunk boundaries (512) and counts near the integer limits are not covered.",
  [IO, ARR, STD], [("Reader::skip / skip_u64", IO), ("seekable skip_u64", STD)], observe=["Reader::skip", "Reader::skip_u64"])
prop("C09", "Standard stream adaptors lose no data under short transfers",
  "Reading through the adaptors over std streams returns exactly the stream's bytes, and writing delivers exactly the given bytes in order, even when the stream transfers fewer bytes than asked or is interrupted. Success is reported only when everything was transferred; any other stream failure is reported as an error. The length, offset and availability queries of seekable streams report the truth, leave the position unchanged and never fail arithmetically.",
  ["inputs", "fault_sequences"], "every split of transfers of up to 4 bytes into short reads/writes, interruptions and failures at every point; all stream lengths and positions",
  "Tests use cursors and streams that always transfer everything or always fail.",
  [STD], [("ReadReader", STD), ("WriteWriter", STD), ("SizedSeek", STD), ("Reader/Writer for Read/Write + Seek", STD)], observe=["ReadReader", "WriteWriter", "SizedSeek"])
prop("C10", "Fixed-size standard tags round-trip bit-exactly",
  "Each implicit standard tag (null, bool, 8 to 64 bit integers, ILInt, signed ILInt, 32/64/128 bit binary) serializes any value as its one-byte id followed only by the value in the documented format, with no size field. Decoding through the standard factory gives back a tag of the same type with the identical value (bit-exact for floats), consuming exactly those bytes; invalid booleans and mismatched value sizes are rejected.",
  ["inputs"], "all values of every implicit tag type; all declared value sizes",
  "Tests use one value per type.",
  [IMP, FAC, MAC], [("int_iltag_impl", IMP), ("implicit_tag_size", IMP), ("ILStandardTagFactory::deserialize", FAC)], observe=["serialize", "to_bytes", "factory.deserialize"])
prop("C11", "Byte, text and decimal tags round-trip",
  "Raw, byte array, string, big integer and big decimal tags serialize as id, ILInt size, then exactly their content (for decimals a 4-byte big-endian scale followed by the integer bytes), and decode back to the same type, id and content. Text content is accepted exactly when it is valid UTF-8, and decoding into an existing tag fully replaces its previous content. The stand-alone string tag helpers produce and accept exactly the same bytes as the string tag.",
  ["inputs"], "all contents up to a few bytes, plus sizes around the ILInt size boundary (247/248/249 bytes); all ids >= 16 and all scales",
  "Tests use a few fixed payloads; content/length/previous-state combinations are unbounded.",
  [EXP, TAGS], [("ILRawTag", TAGS), ("ILStringTag", EXP), ("ILBigDecTag", EXP), ("*_string_tag_from_value", EXP)], observe=["serialize", "factory.deserialize", "value"])
prop("C12", "Integer array, OID, range and version tags round-trip",
  "ILInt array and OID tags serialize as a count followed by each element as an ILInt, ranges as an ILInt start and a 16-bit count, versions as four 32-bit big-endian integers. Any content decodes back unchanged and in order, replacing any previous content; a payload whose declared size is not exactly what its content needs, or whose count exceeds it, is rejected.",
  ["inputs"], "all arrays up to 3 elements of any 64-bit values, long arrays across the count-size boundary (248 elements), all ranges and versions; all payloads of up to 8 bytes",
  "Tests use fixed samples; the combination of element sizes, counts and declared sizes is unbounded.",
  [EXP], [("ILILIntArrayTag", EXP), ("ILRangeTag", EXP), ("ILVersionTag", EXP), ("ILOIDTag", EXP)], observe=["serialize_value", "deserialize_value"])
prop("C13", "Tag sequences and arrays preserve their elements",
  "A tag sequence serializes as the concatenation of its elements and a tag array as the element count followed by them; decoding gives back the same elements, same order and same number, replacing any previous content. Elements may never extend past the container: a container whose declared size or count does not match its elements exactly is rejected, whichever tags it holds and wherever it is nested.",
  ["inputs"], "containers of up to 3 elements with arbitrary element sizes, element behaviour abstracted by an arbitrary conforming factory; concrete nesting up to 3 levels; counts across the 248 boundary",
  "Tests use one fixed set of elements and few malformed sizes.",
  [EXP, FAC], [("ILTagSeqTag", EXP), ("ILTagArrayTag", EXP), ("LimitedReader", IO)], observe=["serialize_value", "deserialize_value", "value"])
prop("C14", "Dictionaries have one canonical encoding and round-trip",
  "Two dictionaries with the same entries serialize to the same bytes - the entry count, then each key as a string tag followed by its value, in ascending byte order of the keys - whatever the insertion order and the map's internal order. Decoding gives back exactly the encoded entries, replacing previous ones, and rejects keys that are not string tags and payloads that do not match the declared size exactly.",
  ["inputs", "histories"], "up to 3 entries with any 0 to 2 byte keys and values, every iteration order of the map, every insertion history of those entries",
  "Iteration order is randomly chosen per process, so a test sees one order; key contents and lengths are unbounded.",
  [EXP], [("ILDictTag::serialize_value key sorting", EXP), ("ILStrDictTag::serialize_value key sorting", EXP)], observe=["serialize", "to_bytes", "deserialize_value"], hook="cfg(kani) HashMap stand-in with solver-chosen iteration order")
prop("C15", "Reported sizes equal the bytes actually written",
  "For every tag the reported value size is the number of bytes its value serialization emits, and the reported total size is the number of bytes of its complete serialization: id, plus an ILInt value size unless the tag is implicit, plus the value. Serializing to bytes yields exactly that many bytes.",
  ["inputs"], "every standard tag type with all contents within the bounds of C10 to C14; any tag with any id and any value size for the header rule",
  "Size bookkeeping and serialization are separate code for each type; tests check a few samples.",
  [TAGS, IMP, EXP, PAY], [("ILTag::size / serialize / to_bytes", TAGS), ("value_size of each type", EXP)], observe=["size", "value_size", "serialize", "to_bytes"])
prop("C16", "Decoding untrusted bytes never crashes and stays within its extent",
  "Decoding arbitrary bytes with the standard factory or with any standard tag type either fails with an error or yields a tag; it never panics, overflows or loops. On success exactly the header plus the declared value bytes were consumed: nothing beyond the declared extent is read, nothing inside it is left unread, and bytes after it do not influence the result.",
  ["inputs"], "all byte strings up to about 8 bytes per tag type, any reader content; nesting up to 2 levels",
  "The input space is unbounded and adversarial; tests use well-formed samples and a few mutations.",
  [FAC, EXP, IMP, TAGS, SER], [("deserialize_tag_value_into", FAC), ("deserialize_value of each type", EXP), ("LimitedReader", IO)], observe=["factory.deserialize", "factory.from_bytes", "deserialize_value"])
prop("C17", "Truncated encodings are always rejected",
  "Removing one or more bytes from the end of the serialization of any tag makes decoding fail with an error; a tag is never returned from an incomplete encoding.",
  ["inputs"], "every strict prefix of the encoding of every standard tag type, for all contents within the bounds of C10 to C14",
  "Every cut point of every value must be tried; tests cut a few samples.",
  [FAC, EXP, IMP, IL, ARR], [("all-or-nothing reads", ARR), ("LimitedReader", IO), ("ilint::decode", IL)], observe=["factory.deserialize", "factory.from_bytes"])
prop("C18", "Accepted bytes re-encode to a stable equivalent form",
  "Whenever decoding accepts some bytes, serializing the resulting tag succeeds, and decoding that serialization is accepted and gives an equal tag with the same id whose serialization is identical. For canonical input the serialization equals the accepted bytes.",
  ["inputs"], "all byte strings of up to about 8 bytes per tag type",
  "Tests only round-trip values built by the library, never arbitrary accepted input such as non-minimal integers or duplicate keys.",
  [FAC, EXP, IMP, TAGS], [("deserialize_value / serialize_value pairs", EXP)], observe=["factory.from_bytes", "to_bytes"])
prop("C19", "Oversized tags are rejected up front",
  "A tag whose declared value size exceeds the documented maximum (512 MiB) is rejected with a too-large error before any of its value is read, skipped or allocated, and a size up to the maximum is never rejected for that reason. An array whose element count exceeds its declared size in bytes (an element takes at least one) is rejected before storage is reserved for the elements.",
  ["inputs"], "all 64-bit declared sizes and element counts",
  "Sizes near 512 MiB and 2^64 cannot be tried with real data; tests check the two values around the limit.",
  [TAGS, FAC, EXP], [("tag_size_to_usize", TAGS), ("count checks", EXP)], observe=["tag_size_to_usize", "factory.deserialize", "deserialize_value"])
prop("C20", "The tag factory maps every id to its own tag type",
  "For every 64-bit id the standard factory creates an empty tag of the documented type whose id is the requested one; ids without a standard type give a raw tag, except implicit ids and strict factories, which give none (reported as an unknown tag when decoding). Registering a creator affects exactly its own id, replaces and returns the previous one, and deregistering restores the unregistered behaviour.",
  ["inputs", "histories"], "all 2^64 ids, strict and non-strict; every short history of register/deregister over arbitrary ids",
  "Tests walk a list of the known ids; other ids and histories are not covered.",
  [FAC, TAGS, CST], [("create_std_engine", FAC), ("ILTagCreatorEngine", TAGS)], state=[("creators", "registered creators by id", TAGS)], observe=["factory.create_tag", "engine.register", "engine.deregister"], hook="cfg(kani) HashMap stand-in")
prop("C21", "Targeted decoding accepts only the requested tag",
  "Decoding into an existing tag succeeds exactly when the encoded id is the id of that tag and the value is valid, and then the tag holds the decoded value; with another id it fails with an unexpected-type error and the tag is unchanged. Decoding from a byte slice accepts it exactly when one complete tag spans the whole slice, and agrees with decoding from a reader.",
  ["inputs"], "all encodings of up to about 8 bytes for representative targets of each kind, all ids",
  "Tests use matching ids and one mismatch.",
  [FAC, TAGS], [("deserialize_into", FAC), ("ILTagFactory::from_bytes", TAGS)], observe=["factory.deserialize_into", "factory.from_bytes"])
prop("C22", "The raw scanner tiles a stream exactly as the decoder reads it",
  "Scanning a stream reports for each tag the id, position, header size and value size that decoding the same bytes would consume, and moves the reader exactly to the next tag, so consecutive results tile the stream without gaps or overlaps - also for non-minimal integers. Scanning arbitrary bytes never panics, and a tag that is truncated or whose extent is not representable is an error; expecting a specific id rejects any other.",
  ["inputs", "histories"], "all byte strings of up to about 14 bytes, any 64-bit sizes and ids, two consecutive scans from any starting state",
  "Tests scan well-formed samples only.",
  [RAW], [("RawTagScanner::next_tag", RAW), ("extract_tag_size", RAW)], state=[("offset", "position of the next tag", RAW)], observe=["RawTagScanner::next_tag", "next_tag_if_id"])
prop("C23", "Raw tag offsets describe consistent ranges",
  "For any raw tag descriptor within the address range, the header is followed by the value and then by the next tag without gap or overlap, and the tag and value slices are exactly those byte ranges of the data. Mapping an inner descriptor to its parent's space succeeds exactly when it lies within the parent's value, and then keeps its id and sizes and designates the same bytes in the parent's data.",
  ["inputs"], "all 64-bit descriptors whose end is representable; all buffers up to 8 bytes for slices",
  "Tests use a few fixed descriptors.",
  [RAW], [("RawTagOffset", RAW), ("map_to_parent_space", RAW)], observe=["RawTagOffset"])
prop("C24", "Equality and cloning follow the serialized form",
  "Two tags compare equal exactly when their complete serializations are byte-identical, so equality is reflexive and symmetric, and a tag that cannot be serialized equals nothing. Cloning a tag yields an equal tag of the same type, independent of the original.",
  ["inputs"], "pairs of tags with all contents within small bounds, across different types",
  "Tests compare a few pairs.",
  [UT], [("iltag_are_equal", UT), ("iltag_clone_with_factory", UT)], observe=["iltag_are_equal", "iltag_clone"])
prop("C25", "Typed access succeeds exactly when id and type match",
  "The typed accessors return the concrete tag exactly when the tag has that concrete type and, for those that take one, also the given id; otherwise they return nothing or an unexpected-type error (or the given error). They never panic, and mutable access changes exactly that tag.",
  ["inputs"], "all ids, matching and non-matching concrete types, for every accessor",
  "Tests check one positive and one or two negative cases per accessor.",
  [TAGS], [("tag_downcast_*", TAGS), ("tag_id_downcast_*", TAGS), ("assert_tag_id_and_type*", TAGS)], observe=["tag_downcast_ref", "tag_id_downcast_mut", "assert_tag_id_and_type"])
prop("C26", "I/O failures always surface as errors",
  "When the underlying writer fails at any point of the serialization of a tag, serialization reports an error and what was written is a prefix of the correct encoding. When the underlying reader fails at any point, decoding reports an error: a failure is never swallowed, turned into a value or into a panic.",
  ["fault_sequences", "inputs"], "a fault at every operation or byte position, for every standard tag type with contents within small bounds",
  "Tests inject no faults, or a single one.",
  [TAGS, EXP, IMP, SER, FAC, IL], [("error propagation with ?", EXP), ("ErrorKind conversions", TAGS)], observe=["serialize", "factory.deserialize"])
prop("C27", "Custom payload tags carry their payload faithfully",
  "A tag built from a user-supplied payload reports the payload's size, emits exactly the bytes the payload emits after the standard header for its id, and hands the payload the exact declared size and only its own bytes when decoding. Failures of the payload surface unchanged, and registering it in a factory makes decoding produce that payload type with the registered id.",
  ["inputs"], "all ids, any payload size and behaviour (arbitrary consumption, success or failure)",
  "Tests use one sample payload.",
  [PAY, TAGS, FAC], [("ILGenericPayloadTag", PAY), ("ILDefaultWithIdTagCreator", TAGS)], observe=["ILGenericPayloadTag", "factory.deserialize"])
prop("C28", "Concurrent read-only use gives the sequential results",
  "Sharing tags and a factory between threads and serializing, decoding or comparing them concurrently without mutation gives the same results as doing so sequentially.",
  ["schedules"], "all schedules of concurrent readers",
  "Tests are single threaded.",
  [TAGS, FAC], [("Send + Sync bounds, no interior mutability", TAGS)], observe=["ILTag", "ILTagFactory"])
prop("C29", "Nesting depth cannot exhaust the stack",
  "Decoding containers nested to any depth returns a tag or an error; it never terminates the process by exhausting the stack.",
  ["inputs"], "all nesting depths",
  "Needs deeply nested hostile input; tests nest one or two levels.",
  [EXP, FAC], [("recursive deserialize (no depth limit)", FAC)], observe=["factory.deserialize"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80
        f.write(json.dumps(p) + "\n")
print(len(P))
