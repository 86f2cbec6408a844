"""Technique and level note of each check, for MANIFEST.json."""
DEFAULT_TECH = "explicit-state exploration of the real code in lockstep with a String reference model"
_TRUST = " Trusts std's String/str and the installed toolchain (x86-64)."
DEFAULT_NOTE = (
    "Every operation and argument in the stated bounds is run on the real code from every stated content and compared with a String model; "
    "the object-state graph of capacities 1 to 4 is complete, so it covers histories of any length. Larger contents are covered by shape and at the boundaries, not exhaustively."
    + _TRUST
)
CTOR_NOTE = (
    "Every text of a small alphabet up to the bound, every length around each capacity 1..255, every Unicode scalar (and for UTF-16 every unit) is given to the real constructors "
    "and the result compared with a String model. Long texts are covered by shape only." + _TRUST
)
ALL_NOTE = (
    "Runs every operation, constructor and trait of the explorations of the other properties, in optimized and in debug-checked builds, and watches for the one thing this property is about. "
    "Bounds as listed in the evidence; long contents by shape." + _TRUST
)
TECH = {
    "C01": "explicit-state exploration of the real object's complete state graph, invariant checked on every state",
    "C07": "explicit-state exploration of the real code, failing transitions judged against a String model",
    "C08": "bounded-exhaustive enumeration of constructor inputs on the real code against a String model",
    "C09": "bounded-exhaustive enumeration of constructor inputs on the real code against a String model",
    "C10": "bounded-exhaustive enumeration of UTF-16 inputs on the real code against std's decoder",
    "C11": "exhaustive exploration of the bounded operation space of the real code with a panic, abort and hang monitor",
    "C12": "exhaustive exploration of the bounded operation space of the real code with an allocation monitor",
    "C13": "exhaustive exploration of the bounded operation space between guard pages, and a smaller space under Miri's undefined-behaviour monitor",
    "C14": "exhaustive enumeration of pairs of contents and histories on the real code against str",
    "C15": "exhaustive enumeration of index ranges and of edits through views on the real code against str",
    "C16": "exhaustive enumeration of format specifications, contents and sink failure points on the real code against str",
    "C17": "lockstep exploration of the two real types over the same operation sequences",
    "C18": "exhaustive enumeration of the capacities, each built, filled and measured",
    "C19": "exhaustive enumeration of serde data-model inputs and of a bounded alphabet of documents on the real code against String",
    "C20": "exhaustive enumeration of column values, types and capacities through in-memory SQLite and wire values, against String",
    "C21": "exhaustive exploration of one bounded space in every build configuration, all observations compared",
    "C22": "exhaustive enumeration of the answers of misbehaving callers, a panic at every call point included",
    "C23": "exhaustive enumeration of error values, conversions and failing decodings",
    "C24": "exhaustive one-preemption interleaving of the real code at every machine instruction, nested calls at every callback, and data race detection",
}
NOTE = {
    "C01": "The complete graph of raw object states (length byte and buffer, leftovers included) is explored for capacities 1 to 4 with all operations, so it holds there after any history over the alphabet; larger capacities start from shaped contents and go one operation deep." + _TRUST,
    "C08": CTOR_NOTE,
    "C09": CTOR_NOTE,
    "C10": CTOR_NOTE,
    "C11": ALL_NOTE + " Non-termination is reported by a watchdog on a call that has not returned after 40 seconds.",
    "C12": ALL_NOTE + " The allocator is a counting global allocator, per thread.",
    "C13": ALL_NOTE + " The native exploration sees accesses that leave a page-guarded object, neighbour bytes or text argument; finer undefined behaviour is seen on the (much smaller) space interpreted by Miri. Foreign code (SQLite) is outside both.",
    "C14": "All pairs of contents of a small alphabet up to the bound in 24 types, every pair of texts differing in one byte at a boundary, with every history of leftovers; hashing is compared with several hashers, and lookups in std's maps." + _TRUST,
    "C15": "All ranges over all positions around each content (and extreme ones) in every range form str accepts, all edits through every mutable view, in 24 types. Only contents from a small alphabet and shaped long ones." + _TRUST,
    "C16": "All combinations of width, precision, fill, alignment and flags from a boundary set on all contents up to the bound and shaped ones, and a sink failing at each write; Debug compared between histories that leave the same text." + _TRUST,
    "C17": "Every operation followed by every operation from shaped contents of capacity 63, and every trait, on both types at once; not the complete state space of 63 bytes." + _TRUST,
    "C18": "All 255 capacities are built, measured and filled; capacities 0 and 256 and above (up to a bound) are shown not to be usable as types." + _TRUST,
    "C19": "All data-model calls (text, bytes, chars, numbers, sequences, maps, options, errors) on every content up to the bound and shaped ones, plus every JSON and bincode document of a bounded alphabet; other data formats are covered only through the data model." + _TRUST,
    "C20": "All stored values of a bounded alphabet in SQLite's storage classes, read as text, nullable or not, in several capacities; PostgreSQL and MySQL are covered through their wire values without a server." + _TRUST,
    "C21": "The builds explored are those listed (std, no std, logging idle and active, serde, diesel; debug, optimized, size-optimized); other targets and compilers are not." + _TRUST,
    "C22": "Every sequence of answers from the stated sets (size hints, resuming and panicking positions, triples of answers of a changing text or range), from contents up to the bound." + _TRUST,
    "C23": "All values of the error types, all pairs, all conversions; decoding errors over every invalid sequence in the bound." + _TRUST,
    "C24": "One preemption at every instruction boundary of each action by a complete second action, in 5 types; two preemptions in one run only in the form where the second thread acts at every boundary. The memory model is left to Miri's race detector on a smaller set." + _TRUST,
}
