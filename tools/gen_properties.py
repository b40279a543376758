#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
ENC, DEC, SIZ = "oct/src/encode/encode/mod.rs", "oct/src/decode/decode/mod.rs", "oct/src/encode/sized_encode/mod.rs"
INP, OUT, SLOT = "oct/src/decode/input/mod.rs", "oct/src/encode/output/mod.rs", "oct/src/slot/mod.rs"
SS, SSC, SSV, SSI, SSM = ["oct/src/sized_slice/%s.rs" % x for x in ("mod", "code", "conv", "iter", "cmp")]
IT, STR, STRV, STRC, STRM = "oct/src/sized_iter/mod.rs", "oct/src/sized_str/mod.rs", "oct/src/sized_str/conv.rs", "oct/src/sized_str/code.rs", "oct/src/sized_str/cmp.rs"
DB, ERR = "oct/src/decode/decode_borrowed/mod.rs", "oct/src/error/"
MAC = "oct-macros/src/impls/"

p("C01", "Decoding an encoding gives back the value and consumes exactly its bytes",
  "For every type that can be both encoded and decoded and every value of it whose encoding succeeds, decoding the produced bytes as the same type succeeds, yields a value equal to the original (bit-exact for floating point, unordered for hash collections, whole seconds for system times) and consumes exactly the bytes that the encoding produced. The same holds when any number of values, of the same or of different types, are encoded one after the other into one stream and decoded in that order.",
  ["inputs"], "every encodable value of every supported type, nested to any depth, alone and chained with others in one stream",
  "the unit tests decode a handful of literal byte strings and encode a handful of literal values; hash maps, sized slices, most tuples, ranges, atomics, locks and all nested combinations are never put through both directions",
  [ENC, DEC, SSC, STRC], [("per-type encode/decode pairs", ENC + ", " + DEC), ("length-prefixed sized containers", SSC + ", " + STRC)],
  ["bytes in the output stream after encode", "value and stream position after decode"])
p("C02", "Every encoding has exactly the documented byte layout",
  "The bytes produced for a value are exactly those of the documented data model: little-endian fixed-width numbers, pointer-sized integers narrowed to 16 bits, a one-byte sign or discriminant in front of options, results, bounds and addresses, a 16-bit element or byte count in front of every slice, vector, list, map, set, string and C string (without its terminator) but not in front of arrays, and fields, elements, range ends and tuple members in declaration order with nothing in between. Wrappers (references, boxes, shared pointers, cells, locks, atomics, lazies, wrapping and saturating numbers, clone-on-write) add no bytes of their own.",
  ["inputs"], "every encodable value of every supported type",
  "the tests compare the bytes of a few dozen constants; which bytes come out depends on every value, length and nesting, and a wrong layout that both directions share is invisible to a round trip",
  [ENC, "oct/src/lib.rs", SSC, STRC], [("little-endian conversion of numbers", ENC), ("length prefix", ENC), ("signs and discriminants", ENC)],
  ["bytes in the output stream"])
p("C03", "Decoding arbitrary bytes yields only valid values or the precise error",
  "For every byte string, decoding it as any supported type either yields the one value that the documented data model assigns to a prefix of it, with the stream advanced by exactly that prefix, or returns the error that describes the first offending part (invalid character, zero in a non-zero integer, malformed UTF-8 with its offset and byte, interior null with its offset, unassigned discriminant with its value, too long a count with capacity and count, index of the bad item). It never yields an invalid value and never rejects bytes that the model accepts.",
  ["inputs"], "every byte string, including adversarial ones, for every supported type",
  "tests feed well-formed literals only; which malformed inputs are accepted is a property of all byte strings",
  [DEC, SSC, STRC, ERR], [("character validity test", DEC), ("UTF-8 and null validation", DEC + ", " + STRV), ("discriminant matching", DEC), ("capacity test", SSC + ", " + STRC)],
  ["result and stream position of decode"])
p("C04", "The advertised maximum encoded size is a tight upper bound",
  "For every type that advertises a maximum encoded size, no value of it ever encodes to more bytes, and a decode never consumes more; a slot created at that size can hold the encoding of every encodable value. The bound is tight: some value of the type encodes to exactly that many bytes (unless a capacity beyond the 16-bit count makes its largest values unencodable).",
  ["inputs"], "every size-constrained type (including nested and derived ones) and every value of it",
  "tests compare the constant of a few types to a literal and never relate it to actual encodings of other values",
  [SIZ, SSC, STRC, MAC + "sized_encode_enum.rs", MAC + "sized_encode_struct.rs", SLOT], [("per-type size constants", SIZ), ("slot allocation from the constant", SLOT)],
  ["the constant", "stream positions after encode and decode", "slot capacity"])
p("C05", "Output streams account for every byte and writes are all-or-nothing",
  "In any sequence of writes, an output stream's content equals the concatenation of the successful writes, its position equals that content's length, and position plus remaining always equals the capacity. A write that does not fit is refused with an error stating the capacity, position and requested count, and changes neither the stream nor any byte of the buffer; no write ever touches bytes outside the written range.",
  ["histories"], "every sequence of writes of every size into buffers of every capacity",
  "no test writes past the end of a stream or checks the untouched bytes",
  [OUT, ERR + "output_error.rs"], [("bounds test before copying", OUT)], ["write results", "position, remaining, capacity, contents", "the underlying buffer"],
  [("cursor", "number of bytes written", OUT)])
p("C06", "Input streams account for every byte and reads are all-or-nothing",
  "In any sequence of borrowing and copying reads, the bytes handed out are consecutive slices of the source in order, and position plus remaining always equals the capacity. A read of more than remains is refused with an error stating the capacity, position and requested count, leaving the stream and the destination unchanged; a later read that fits still succeeds.",
  ["histories"], "every sequence of reads of every size, including absurd counts, from sources of every size",
  "no test reads past the end or mixes the two ways of reading",
  [INP, ERR + "input_error.rs"], [("bounds test before reading", INP)], ["read results", "position, remaining, capacity"],
  [("cursor", "number of bytes consumed", INP)])
p("C07", "Encoding into too small an output never succeeds and never writes elsewhere",
  "If the remaining output cannot hold the whole encoding of a value, encoding that value never reports success: it panics (or returns an error). Bytes before the stream's position at the call and bytes outside the buffer keep their contents, and whatever the stream then claims to contain beyond that position is a prefix of the value's encoding.",
  ["inputs", "fault_sequences"], "every value of every type and every output capacity smaller than its encoding",
  "the tests always allocate enough room",
  [ENC, OUT, SSC, STRC], [("refused write is turned into a panic", ENC), ("bounds test", OUT)], ["outcome of encode", "buffer contents with canaries around it"])
p("C08", "A truncated encoding never decodes",
  "For every value and every strict prefix of its encoding, decoding that prefix never reports success: it panics or returns an error, without reading beyond the prefix and without advancing the stream beyond its end. A source that ends inside a value is therefore never mistaken for a complete one.",
  ["inputs", "fault_sequences"], "every value of every type and every truncation point of its encoding",
  "no test decodes incomplete data",
  [DEC, INP, SSC, STRC], [("refused read is turned into a panic", DEC), ("bounds test", INP)], ["outcome of decode", "stream position"])
p("C09", "Values that cannot be represented are refused with the exact cause",
  "Encoding never silently truncates: a pointer-sized integer outside 16 bits, a collection or string of more than 65535 elements or bytes, or an exclusively borrowed cell is refused with an error that carries the offending value (or borrow failure) and, inside collections, the index of the first offending item. Every value within the limits, including the limits themselves, is accepted.",
  ["inputs"], "every unencodable value of every type, at every nesting position, and all limits",
  "tests never encode an out-of-range value",
  [ENC, ERR], [("checked narrowing of lengths and pointer-sized integers", ENC), ("borrow test", ENC)], ["result of encode"])
p("C10", "A slot behaves like a bounded byte buffer holding one encoding",
  "Through every sequence of operations a slot's capacity stays fixed and its used length never exceeds it; after a successful write the used bytes are exactly the value's encoding and reading yields the value, decoding from the used bytes only; copying in bytes or setting a length beyond capacity panics and changes nothing, as a refused write leaves length and capacity unchanged. Every view of the slot (slices, indices, comparisons, debug output, borrowed forms) agrees with that state: shared views show the used bytes and mutable ones the entire, always initialised buffer.",
  ["histories"], "every sequence of slot operations on slots of every capacity and element type",
  "the tests write and read a slot once",
  [SLOT], [("length bookkeeping", SLOT), ("bounds assertions", SLOT)], ["all public observers of the slot after each operation"],
  [("used length", "bytes of the last encoding or copy", SLOT), ("buffer", "initialised bytes of fixed capacity", SLOT)])
p("C11", "A sized slice behaves like a vector bounded by its capacity",
  "Through every sequence of construction (from slices, arrays, iterators, raw parts, decoding), copying, mutation, cloning, re-borrowing per element and conversion, a sized slice holds exactly the elements that a vector bounded at its capacity would, in order; sources longer than the capacity are refused with an error or panic and leave it unchanged, except that collecting from an iterator takes the first elements that fit and asks the iterator for no more. Its length, capacity, emptiness and fullness, indexing, comparisons and all its views agree with that content.",
  ["histories"], "every sequence of operations, every capacity and element type (including zero-sized and heap-owning ones)",
  "the tests build two or three slices and compare them",
  [SS, SSV, SSI, SSM], [("length bookkeeping", SS), ("conversions", SSV)], ["all public observers after each operation"],
  [("length", "number of initialised elements", SS)])
p("C12", "Consuming iteration yields each element once from either end",
  "For every interleaving of steps from the front and from the back, a consumed sized slice yields each remaining element exactly once and in order, reports exactly how many remain, exposes exactly the remaining elements as a slice, stays exhausted once exhausted, and its clones continue independently with equal remaining elements. All derived iterator operations (skipping, counting, folding, searching, reversing, collecting) agree with those of a vector's iterator.",
  ["histories"], "every sequence of iterator operations on every length and capacity",
  "two fixed sequences are tested",
  [IT, SSI], [("cursor and length bookkeeping", IT)], ["yielded items, size hints and remaining slices"],
  [("cursor", "index of the next element", IT), ("length", "remaining elements", IT)])
p("C13", "Every owned element is dropped at most once and none is lost in a transfer",
  "However containers of owning elements are built, cloned, iterated, converted, encoded, decoded and dropped, no element is ever dropped twice or used after its drop. Moving elements between a sized slice and vectors, boxed slices, iterators, arrays or raw parts neither drops nor duplicates any: each one remains owned by exactly one place and is dropped exactly once when that place drops it.",
  ["histories"], "every sequence of operations over containers of drop-observing elements",
  "no test uses an element type whose drop can be observed",
  [SS, SSV, SSI, IT, DEC], [("untyped buffers of possibly uninitialised elements", SS + ", " + IT), ("moves out of arrays and into boxes", SSV)], ["drop and clone events of instrumented elements", "allocator events"])
p("C14", "A sized string is always valid UTF-8 within its capacity and acts like its text",
  "However a sized string is made (from text, bytes, single characters, character iterators, raw parts, decoding), it holds exactly the given text, which is valid UTF-8 and no longer than its capacity: longer or malformed sources are refused with the capacity and length or the offset and byte of the first malformed position, while a character iterator is cut at the first character that does not fit, never inside one. Formatting, iteration, indexing, mutation in place, parsing, conversions and comparisons give the same results as the equivalent string slice.",
  ["inputs", "histories"], "every text, byte string and character sequence against every capacity",
  "tests build a few short strings",
  [STR, STRV, STRM, STRC], [("capacity and UTF-8 validation", STRV), ("per-character capacity test", STR)], ["results of constructors and all observers"])
p("C15", "Derived implementations follow the declared shape of any type",
  "For every structure or enumeration the derive macros accept (unit, tuple-like, named, generic, nested; any supported representation; implicit and explicit discriminants), the derived encoding is the representation-typed discriminant (if an enumeration) followed by the fields in declaration order, the derived decoding inverts it, unassigned discriminants and field failures are reported as such, and the derived maximum size is that of the largest variant including its discriminant. Discriminants equal those that the language assigns to the variants.",
  ["programs", "inputs"], "every deriving type definition and every value and byte string for it",
  "the tests derive for three fixed types; the quantifier is over programs",
  [MAC + "encode_enum.rs", MAC + "decode_enum.rs", MAC + "encode_struct.rs", MAC + "decode_struct.rs", MAC + "sized_encode_enum.rs", MAC + "sized_encode_struct.rs", "oct-macros/src/discriminants/mod.rs", "oct-macros/src/repr/mod.rs", "oct-macros/src/generic_name/mod.rs", "oct-macros/src/impl_derive_macro.rs"],
  [("discriminant numbering", "oct-macros/src/discriminants/mod.rs"), ("representation lookup", "oct-macros/src/repr/mod.rs"), ("field chaining", MAC)], ["behaviour of compiled, generated programs"])
p("C16", "A failed or aborted decode releases everything it had built",
  "When decoding a composite value fails part-way, by an invalid element, a truncated source or a panicking element decoder, every element decoded before the failure is dropped exactly once and all memory obtained meanwhile is released. No element decoder runs again after the first failure.",
  ["inputs", "fault_sequences"], "every failure point in the decoding of every composite type",
  "no test fails a decode part-way or observes drops or memory",
  [DEC, SSC, "oct/src/decode/array_guard/mod.rs"], [("incremental vectors and guarded arrays", DEC)], ["drop events of instrumented elements", "live allocations before and after"])
p("C17", "No undefined behaviour is reachable through the safe interface",
  "No sequence of safe calls, with any values, bytes, lengths or capacities, makes the library read or write out of bounds, use freed or uninitialised memory, create invalid values or aliased exclusive references, violate a precondition of an unchecked operation, or mismatch allocations. This includes calls that fail or panic half-way.",
  ["inputs", "histories"], "every sequence of safe calls",
  "the tests are run without sanitizers and never reach failing paths",
  [INP, OUT, SLOT, SS, SSV, IT, STRV, DEC, ENC], [("unsafe blocks and their stated conditions", "oct/src")], ["AddressSanitizer, LeakSanitizer and Miri reports, debug assertions on unchecked operations"])
p("C18", "Encoding shared state takes one consistent snapshot and leaves no lock behind",
  "Encoding a value behind a mutex, read-write lock, atomic or lazy while other threads mutate it yields the encoding of a value that was really stored at one point (never a mixture), successive snapshots by one reader respect the order of the updates, and no data race occurs. A poisoned lock still encodes its content, locks and borrows are released afterwards even when encoding panics or fails, read-write locks admit concurrent encoders, and a lazy value is initialised exactly once.",
  ["schedules"], "every interleaving of encoders and mutators",
  "the tests are single-threaded and never poison or hold a lock",
  [ENC, DEC], [("lock held for the whole encoding", ENC), ("poison recovery", ENC), ("single atomic load", ENC)], ["history of encoded snapshots against the history of updates", "ThreadSanitizer and Miri reports", "lock state after encoding"])
p("C19", "Borrowed, owned, wrapped and differently bounded forms share one encoding",
  "All forms of the same content (slices, vectors, lists, boxed and shared slices, sized slices and clone-on-write; text, strings, sized strings; C strings and byte vectors; a value and any wrapper of it) produce identical bytes, and each decodable form decodes the encoding of every other. A bounded form accepts any encoding whose count fits its own capacity, whatever the capacity or form of the sender, and refuses a larger count with its capacity and that count.",
  ["inputs"], "every content and every ordered pair of forms",
  "each form is only tested against itself, if at all",
  [DB, ENC, DEC, SSC, STRC], [("delegation between forms", ENC), ("promised compatibility of borrowed and owned forms", DB)], ["bytes and decoded values across forms"])
p("C20", "Equality, ordering and hashing agree with the plain slice or string",
  "Two sized slices (or sized strings), whatever their capacities, compare equal, less or greater exactly as their contents do as plain slices (or strings), also against slices, arrays, vectors, text and strings; equal ones hash equally, and identically to the plain borrowed form. They can therefore be used as keys in hashed and ordered collections and be looked up by their borrowed form.",
  ["inputs"], "every pair or triple of contents and capacities",
  "no test hashes or orders sized containers",
  [SSM, SS, STRM, STR, OUT, SLOT], [("delegation to the slice or string", SSM + ", " + STRM), ("hash of the borrowed form", SS + ", " + STR)], ["comparison results, hash values, lookups"])
p("C21", "The data model is the same in every feature configuration",
  "In every combination of the optional features the crate builds, and every type available in that combination encodes, decodes and fails with exactly the same bytes, values and errors as in the default configuration.",
  ["configurations", "inputs"], "all combinations of the allocation, standard-library and macro features; all types and values available in each",
  "the tests are only ever built with the default features",
  ["oct/src/lib.rs", ENC, DEC, SIZ, ERR], [("conditional compilation of implementations", "oct/src")], ["outcomes of the same workload in each configuration"])
p("C22", "Errors keep their cause through conversion, description and source chain",
  "Every error a failed encode or decode returns states its cause in its fields and in its description; walking its chain of sources reaches that same cause without cycles; and converting it to the generic error that derived types use keeps the cause and its data (with the discriminant zero-extended). No error value that can actually occur makes description, source walk or conversion panic.",
  ["inputs"], "every error that can occur, at every nesting depth",
  "no test formats, walks or converts an error",
  [ERR, "oct/src/primitive_discriminant/mod.rs"], [("conversions", ERR + "generic_decode_error.rs, " + ERR + "generic_encode_error.rs"), ("descriptions and sources", ERR)], ["debug, display, source and conversion results"])
p("C23", "Coding is deterministic, position-independent and free of side effects",
  "The bytes of a value depend on nothing but the value: not on the stream's position or alignment, earlier buffer contents, earlier successes or failures, or which value was coded before; encoding modifies nothing but the output, and exactly the bytes between the old and new positions. What a decode returns and consumes depends only on the bytes from its position on that it consumes: not on what precedes or follows them.",
  ["inputs", "histories"], "every value, stream position, prior content and history",
  "tests code each value once, at offset zero, in a zeroed buffer",
  [ENC, DEC, INP, OUT], [("all state is in the stream's cursor", INP + ", " + OUT)], ["bytes, positions and values under varied surroundings"])
p("C24", "Heap use stays within what the decoded or encoded form needs",
  "Encoding never allocates memory, whatever the value. Decoding stack-only types (numbers, arrays, sized slices and strings, options, addresses and their combinations) never allocates, and decoding a heap-backed collection never obtains more memory than its declared 16-bit count of elements can need, however hostile the source.",
  ["inputs"], "every value and every byte string, for every supported type",
  "no test observes the allocator",
  [ENC, DEC, SSC, STRC, SLOT], [("in-place coding", ENC), ("capacity taken from the 16-bit count", DEC)], ["allocator events during encode and decode"])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for r in P: f.write(json.dumps(r, ensure_ascii=False) + "\n")
import re
for r in P:
    assert len(r["title"]) <= 80, (r["id"], len(r["title"]))
print(len(P))
