"""The table of checks: what runs for each property, and how."""

TRIPLE = "x86_64-unknown-linux-gnu"

# How a leg is built and run.
SETUPS = {
	# Stable, debug assertions (also of unchecked operations) and overflow checks on.
	"dev": {"nightly": False, "args": [], "out": ["debug"], "dir": "stable"},
	# Stable, as shipped but unoptimised.
	"plain": {"nightly": False, "args": ["--profile", "plain"], "out": ["plain"], "dir": "stable"},
	# Stable, as shipped.
	"release": {"nightly": False, "args": ["--release"], "out": ["release"], "dir": "stable"},
	"asan": {
		"nightly": True, "args": ["--profile", "plain", "--target", TRIPLE], "out": [TRIPLE, "plain"],
		"env": {"RUSTFLAGS": "-Zsanitizer=address"},
		"run_env": {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:halt_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=1"},
		"scale": 0.3,
	},
	"tsan": {
		"nightly": True, "args": ["-Zbuild-std", "--target", TRIPLE, "--profile", "plain"], "out": [TRIPLE, "plain"],
		"env": {"RUSTFLAGS": "-Zsanitizer=thread"},
		"run_env": {"TSAN_OPTIONS": "halt_on_error=0:exitcode=66:history_size=4"},
		"scale": 0.3,
	},
	"miri": {"nightly": True, "run_env": {"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-ignore-leaks"}, "scale": 0.01},
}

REG = {"extra_features": ["reg"]}


def codec(rule, technique, note, must=(), quick=("dev", "plain"), thorough=("dev", "plain", "release", "asan"), **k):
	return dict(REG, rule=rule, technique=technique, note=note, must=["types exercised", *must], legs={"quick": list(quick), "thorough": list(thorough)}, **k)


def plain(rule, technique, note, must=(), quick=("dev", "plain"), thorough=("dev", "plain", "release", "asan", "miri"), **k):
	return dict(rule=rule, technique=technique, note=note, must=list(must), legs={"quick": list(quick), "thorough": list(thorough)}, **k)


# Every combination of the features.
COMBOS = [["alloc", "proc-macro", "std"], [], ["alloc"], ["std"], ["proc-macro"], ["alloc", "std"], ["alloc", "proc-macro"], ["proc-macro", "std"]]


def combos(kinds):
	return [{"name": f"{k} {'+'.join(f) or 'no features'}", "kind": k, "features": f, "build_is_verdict": f != COMBOS[0]} for k in kinds for f in COMBOS]


def derive_legs(tier, seed):
	"""Packages of random types that derive the traits, generated when the check runs."""
	import os
	from gen_derive import generate
	root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
	def leg(name, kind, edition, seed, count, **k):
		d = os.path.join(root, ".build", "gen", name.replace(" ", "-"))
		generate(d, os.path.join(root, "harness"), edition, seed, count)
		return dict({"name": name, "kind": kind, "bin": "c15", "manifest": os.path.join(d, "Cargo.toml"), "generated": True, "build_is_verdict": True, "demands": True}, **k)
	if tier == "quick":
		return [leg("dev 2021", "dev", "2021", seed, 100), leg("dev 2024", "dev", "2024", seed, 60)]
	out = []
	for i in range(24):
		out.append(leg(f"{('dev', 'plain', 'release')[i % 3]} {i}", ("dev", "plain", "release")[i % 3], ("2021", "2024")[i // 3 % 2], f"{seed} {i}", 150))
	return out + [leg("asan", "asan", "2021", f"{seed} asan", 100), leg("miri", "miri", "2024", f"{seed} miri", 30, shards=8)]


CHECKS = {
	"C01": codec(
		"Random values (biased to boundaries, lengths 0, 1, capacity, 255, 256, 65535) of 488 concrete types are encoded behind random bytes, decoded from in front of others and, where possible, written to and read from a slot; chains of up to 14 values of different types share a stream. Non-trivial: a non-empty encoding not yet seen for that type.",
		"runtime monitoring: encode/decode traces judged by a reference data model",
		"Held on every sampled value of 488 concrete types; other types and values are not covered.",
		must=["chained values", "round trips through a slot"]),
	"C02": codec(
		"Random values of 488 concrete types (owned, borrowed and wrapped) are encoded and the bytes compared with those of an independent reference encoder; 100 literal vectors guard the reference. Non-trivial: a non-empty encoding not yet seen for that type.",
		"runtime monitoring: output bytes judged by an independent reference encoder",
		"Held on every sampled value; the reference encoder is trusted, but for the literal vectors.",
		must=["literal vectors"]),
	"C03": codec(
		"Every source of one byte and a fifth (thorough: all) of those of two, alone and in front of others, for every decodable type; every code point; UTF-8 sequences by all leads and seconds with boundary thirds and fourths; and random, damaged, truncated and spliced encodings. Non-trivial: a non-empty source not yet seen for that type.",
		"runtime monitoring: decode outcomes judged by an independent reference decoder",
		"Exhaustive for code points and short sources, sampled otherwise.",
		must=["code points swept", "UTF-8 sweeps", "sources the model accepts", "sources the model refuses", "sources that end early"]),
	"C04": codec(
		"For each of the types with a maximum size: the constant against the data model, largest and random values encoded into more room than advertised and into exactly the advertised room (a slot or a buffer), and the consumption of hostile sources; and 36 borrowed, boxed, shared, locked, lazy and compound forms around 38 contents, whose size in memory is less than, equal to or greater than the encoded one, against the size of the content and in exactly the advertised room. Non-trivial: a non-empty encoding not yet seen for that type.",
		"runtime monitoring: measured sizes against the advertised bound",
		"The constant is compared exactly; the bound is observed on sampled values.",
		must=["types with a maximum size", "encodings of exactly the maximum size", "slots filled", "consumptions measured", "forms around contents"]),
	"C07": codec(
		"Random values of 488 types are encoded into every smaller buffer (a sample if the encoding is long) between canaries and behind earlier output. Non-trivial: a value and size not yet seen for that type.",
		"fault injection (exhausted output) with canary and prefix monitors",
		"Held on every sampled value and size.",
		must=["exactly fitting buffers", "refused by a panic"]),
	"C08": codec(
		"Random encodings of all decodable types are cut at every length (a sample if long); the rest stays in memory directly behind the source, so that reading on would succeed. Non-trivial: a cut encoding not yet seen for that type.",
		"fault injection (truncation) with outcome and position monitors",
		"Held on every sampled encoding and cut.", must=["refused by a panic"]),
	"C09": codec(
		"Values with one or more unencodable parts at random places in all types that can have any, values at the exact limits, cells held exclusively, and unordered collections judged by their own order; the error is compared with that of the reference encoder. Non-trivial: a partial encoding and error not yet seen for that type.",
		"runtime monitoring: refusals judged by an independent reference encoder",
		"Held on every sampled value.", must=["unencodable values refused", "encodable values accepted", "borrowed cells met", "lengths tried at the limits", "collections judged by their own order"]),
	"C18": dict(
		rule="Threads with injected delays update locks and atomics around 21 kinds of shared content, part by part, while others encode them; every encoding must be one version, stored no earlier than the last finished before it and begun no later than after it, and versions go up. Probes look at the locks during and after encodings that succeed, fail, panic and find no room, in every combination of these, and after real refusals with each amount of room; poisoned and lazily initialised values. Values of 47 types that have nothing to do with one another are coded by several threads at once and must come out as when alone. Run natively, under ThreadSanitizer and by Miri's race detector. Non-trivial: a sequence of versions not yet seen.",
		technique="runtime monitoring: an offline-ordered snapshot checker over concurrent histories, ThreadSanitizer, Miri",
		note="Interleavings are sampled by the scheduler and injected delays, not enumerated.",
		must=["snapshots of a new version", "snapshots of atomics", "holds observed", "refusals behind locks", "concurrent encoders", "encoders that waited for a writer", "poisoned locks encoded", "lazies initialised among threads", "codings next to other threads"],
		legs={"quick": ["dev", {"name": "tsan"}, {"name": "miri", "shards": 8}], "thorough": ["dev", "plain", "release", {"name": "tsan", "scale": 1.0}] + [{"name": f"miri {i}", "kind": "miri", "shards": 8, "MIRIFLAGS": f"-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-seed={i}"} for i in range(12)]}),
	"C19": plain(
		"Random sequences of 14 element types, texts, byte strings and scalars, each encoded in up to 60 borrowed, owned, wrapped, shared and bounded forms and decoded into up to 35, at counts of 0, 1, each capacity, one more, 255, 256, 65534 and 65535. Non-trivial: a form and content not yet seen.",
		"differential runtime monitoring across forms",
		"Held on every sampled content.", must=["forms encoded", "forms decoded", "long counts refused"]),
	"C21": dict(REG, rule="The harness and the library are built in each of the eight combinations of features; in each, random values and sources of every type of that combination (202 to 488 types) pass the same reference model: bytes, values, sizes, refusals, errors. Non-trivial: as in C01 to C04, C09 and C22.",
		technique="runtime monitoring by one reference model in all feature configurations",
		note="All eight configurations; values and sources are sampled. A configuration that fails to build is a violation if the default one builds.",
		elsewhere=["duration-overflow"], must=["types exercised"], legs={"quick": combos(["dev"]), "thorough": combos(["dev", "release"])}),
	"C22": codec(
		"Errors provoked by hostile sources and unencodable values in all types, and errors put together from random parts: fields against the model, description, chain of sources, conversion to the generic error. Non-trivial: an error not yet seen for that type.",
		"runtime monitoring: errors judged by the cause that the reference model predicts",
		"Held on every error met; descriptions are only required to state the numbers of the cause.",
		must=["descriptions", "source chains", "conversions to the generic error", "foreign causes"]),
	"C23": codec(
		"Each random value is encoded four times at different positions, alignments and prior buffer contents and after a refused write; each hostile source is decoded three times behind and in front of different bytes and after a refused read; three threads code values of the same type at once. Non-trivial: an encoding, position and alignment not yet seen for that type.",
		"differential runtime monitoring under varied surroundings",
		"Held on every sampled value and source.",
		must=["encodings under varied surroundings", "decodings under varied surroundings", "codings next to other threads"]),
	"C24": codec(
		"A counting allocator watches the encoding of random (and unencodable) values and the decoding of hostile sources whose counts exceed what follows. Non-trivial: an encoding or source not yet seen for that type.",
		"runtime monitoring: a counting global allocator",
		"Zero allocations are exact; heap-backed decodings are bounded by twice what the declared counts need.",
		must=["encodings watched", "stack-only decodings watched", "heap-backed decodings watched"]),
	"C05": plain(
		"Random histories of up to 40 writes (lengths 0, 1, what remains, one more, far more) over buffers of 0 to 70,000 bytes inside canaries, judged after every step by a byte-vector model: content, position, remainder, capacity, error fields and every byte of the surroundings. Non-trivial: a buffer size, position and request not yet seen.",
		"runtime monitoring: a model-based monitor of stream state after every write",
		"Held on every sampled history.", must=["writes accepted", "writes refused", "canaries checked", "comparisons"]),
	"C06": plain(
		"Random histories of borrowing and copying reads over sources of 0 to 70,000 bytes, judged after every step by a cursor model: bytes handed out, addresses, position, remainder, capacity, error fields and the destination of refused reads. Non-trivial: a source size, position and request not yet seen.",
		"runtime monitoring: a model-based monitor of stream state after every read",
		"Held on every sampled history.", must=["reads accepted", "reads refused"]),
	"C10": plain(
		"Random histories of writes (encodable, too long, failing half-way, panicking), reads, copies, lengths and mutations over slots of 0 to 5000 bytes of several types, judged after every step by a byte-buffer model through every view; all capacities up to 2100 are made and filled. Non-trivial: a content and operation not yet seen.",
		"runtime monitoring: a model-based monitor of slot state after every operation",
		"Held on every sampled history.", must=["writes accepted", "writes refused", "long copies refused", "long lengths refused", "reads of values", "reads refused", "views compared", "large slots", "capacities swept"]),
	"C11": plain(
		"Random histories of up to 60 operations over up to five sized slices of 12 element types and capacities 0 to 300, judged after every step by bounded vectors through every view; iterators lie about their size, panic, and are not fused. Non-trivial: a content and operation not yet seen.",
		"runtime monitoring: a model-based monitor of container state after every operation",
		"Held on every sampled history.", must=["long sources refused", "long copies refused", "iterators longer than the capacity", "views compared", "comparisons", "op each_mut", "op from_raw_parts", "op encode"]),
	"C12": plain(
		"All interleavings of front and back steps over up to 11 elements; random histories of steps, clones and 46 derived operations; and all small cases of nth in subprocesses; judged by a double-ended queue. Non-trivial: a remaining content and operation not yet seen.",
		"runtime monitoring: a model-based monitor of iterator state after every step",
		"Interleavings are exhaustive up to 11 elements, sampled otherwise; nth from the front is a known finding and otherwise left out.", must=["interleavings swept", "derived operations", "clones", "steps after exhaustion"]),
	"C13": plain(
		"Elements that enter their creation, copies and drops in a ledger are moved through random histories of sized slices and iterators, with copies and iterators that panic, and through the encoding, decoding and dropping of 63 composite types; derived iterator operations must drop all that plain steps do. Non-trivial: a content and operation not yet seen.",
		"runtime monitoring: an ownership ledger checked after every operation",
		"Held on every sampled history; that a dropped sized slice leaks its elements is a known finding.", must=["steps whose drops were judged", "copies that panicked", "iterators that panicked", "decoded values dropped", "derived operations whose drops were judged"]),
	"C14": plain(
		"Random histories over sized strings of capacities 0 to 300, every character in every small capacity, every lead and second byte, and a hundred kinds of formatted sources, judged by strings. Non-trivial: a text, source or byte sequence not yet seen.",
		"runtime monitoring: a model-based monitor of string state after every operation",
		"Characters and two-byte prefixes are exhaustive (quick: a seventh of the characters), sampled otherwise.", must=["character sources cut", "long sources refused", "malformed sources refused", "views compared", "byte sequences swept"]),
	"C15": dict(
		rule="Crates of random types that derive the traits (structures, enumerations of every representation, generic, nested, recursive, borrowing and macro-made ones; implicit and explicit discriminants in every notation; 11 kinds of names that could clash) are generated, compiled and run with the workloads of C01 to C04, C07 to C09 and C22 against the reference model of each; the discriminants of all variants are compared with those the language gives. Non-trivial: as in those checks.",
		technique="runtime monitoring of generated programs by a reference model",
		note="Types are sampled (quick: about 200); a generated type on which the macros fail is a violation. Forms that the macros refuse by design are not generated.",
		elsewhere=["duration-overflow"],
		must=["types that derive", "variants whose discriminant was compared", "discriminants swept", "encodings of exactly the maximum size", "unencodable values refused", "conversions to the generic error", "round trips through a slot"],
		legs=derive_legs),
	"C16": codec(
		"Encodings of 63 composite types over tracked elements with an element that fails or panics, or cut short, at a random place; the ledger tells which elements were built, dropped and how often, how many decoders ran, and a counting allocator what was released; hostile and long sources of all types must leave nothing allocated, whether they are refused, abort or decode. Non-trivial: a type, place and kind of failure not yet seen.",
		"fault injection (failing, panicking, truncated decodes) with ownership and allocation monitors",
		"Held on every sampled failure; finished sized slices that leak are a known finding.", must=["failures by end", "failures by error", "failures by panic", "max bytes obtained and released", "refusals watched for leaks", "aborted decodings watched for leaks", "failures that had obtained memory"],
		thorough=("dev", "plain", "release", "asan", "miri")),
	"C17": dict(REG, ub_only=["sized-iter-nth"],
		rule="The workloads of the other checks (streams, slots, sized slices, iterators and strings, ownership, failing decodes, comparisons, and round trips, hostile and cut sources, small outputs and unencodable values of 488 types) run with the standard library's precondition assertions, under AddressSanitizer (quick: fewer rounds) and, scaled down, interpreted by Miri. Non-trivial: as in those checks.",
		technique="AddressSanitizer, Miri and checked preconditions over the workloads of all other checks",
		note="Held on everything run; Miri sees a few thousand evaluations (quick), AddressSanitizer hundreds of thousands. Uninitialised reads, aliasing and invalid values are only seen by Miri. Leaks are not undefined behaviour and are not judged here.",
		must=[],
		legs={"quick": ["dev", {"name": "asan"}, {"name": "miri", "shards": 8, "scale": 1.0}], "thorough": ["dev", "plain", "release", {"name": "asan", "scale": 1.0}, {"name": "miri", "shards": 8, "scale": 0.5}]}),
	"C20": plain(
		"Pairs of sized slices of 13 element types and strings with capacities 0 to 300 (texts to 70000), of up to 5 elements or 9 bytes, some of up to 300, mostly equal or almost so, compared and hashed next to their plain forms, also by a recording hasher; hashed and ordered collections keyed by them next to one keyed by vectors. Non-trivial: a pair not yet seen.",
		"differential runtime monitoring against plain slices and strings",
		"Held on every sampled pair and history of lookups.", must=["equal pairs", "unordered pairs", "hashes compared", "lookups", "pairs of text", "pairs of long text", "pairs of long lists"]),
}
