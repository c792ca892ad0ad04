#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that wording stays consistent)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": mech, "where": files[0]}]}
    if state: a["state"] = [{"name": "content", "meaning": state}]
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
CC = "src/GenericContainer.cc"; HH = "include/GenericContainer/GenericContainer.hh"; PR = "src/GenericContainerPromote.cc"
prop("P01", "A stored value is read back exactly, and only as its own type",
     "Whatever the container held before, after storing a value of any supported kind (scalar, vector, matrix, list, map) the container reports that kind and its dimensions, and reading it back yields exactly the stored value, bit for bit. "
     "Reading through an accessor of another kind, where no widening is documented, raises an error and leaves the content unchanged. "
     "Clearing returns the container to the empty state from any content.",
     ["inputs", "histories"],
     "for every stored kind and value, for every previous content of the container, for every typed accessor (read-only or modifying)",
     "the examples store a handful of values in fresh containers; the 21x21 matrix of stored kind versus accessor, and re-storing over each previous content, is never enumerated",
     [CC, HH], "typed setters/getters, kind tag checks, allocation and clear of the tagged union",
     "kind tag plus payload of the tagged union", "result or error of each getter and the complete content after it")
prop("P02", "Numeric conversions return the exact value or refuse",
     "Reading a stored number as a signed or unsigned integer of either width succeeds exactly when the stored value is an integer representable in the requested type, and then returns that integer; otherwise the read is refused and the destination is untouched. "
     "Reading as a real or complex number returns the stored value (64-bit integers rounded to nearest), and complex numbers are accepted as reals only when the imaginary part vanishes (subnormal magnitudes count as zero in these tests).",
     ["inputs"],
     "for every stored number (boolean, 32/64-bit integer, real, complex, including limits, NaN, infinities, halves and values around 2^31, 2^32, 2^53, 2^63, 2^64) and every numeric target type, for direct, by-key, by-key-list and optional reads",
     "tests read small integers only; the failures are at representability boundaries of specific (stored kind, target type) pairs",
     [CC, HH], "range and integrality checks of the numeric conversions", None, "returned value / error of each conversion")
prop("P03", "Element access touches only the addressed element, within bounds",
     "Reading an element by position (or row and column) returns exactly that element, and a position outside the stored data is refused on read-only access. "
     "On modifying access to a vector the container grows just enough, filling new positions with zero values (or empty items) and widening the element type without changing the numeric value of the existing elements; every other element is left as it was.",
     ["inputs", "histories"],
     "for every content kind, every index inside, at and beyond the end, and every element accessor",
     "the interesting combinations (matrix indexed linearly, list element of another kind, growth over a narrower vector) are never sampled and out-of-bounds reads may pass unnoticed without instrumentation",
     [CC, HH, PR], "element accessors, growth, implicit promotion before element access, matrix indexing",
     "vector/matrix storage and dimensions", "element returned, full content before and after")
prop("P04", "A map holds, per key, the last value stored and nothing else",
     "Under any sequence of insertions, overwrites, erasures and lookups, a map behaves as a mathematical map from byte-string keys to values: lookups return the last value stored under exactly that key, erasing removes only that key, and keys are listed once each in sorted order. "
     "Lookups that must not modify (read-only, existence tests, optional reads, first-of-several-keys) never insert, and report a missing key as documented.",
     ["inputs", "histories"],
     "for every sequence of map operations, every key (empty, embedded zero bytes, prefixes of each other, non-ASCII) and every nesting",
     "histories with colliding prefixes, read-only lookups of missing keys and multi-key fallbacks are not sampled by examples",
     [CC, HH], "key lookup/insert/erase, existence and optional getters, first-existing-of-many lookups",
     "key/value association", "results of lookups and complete map after each step")
prop("P05", "Copies are equal and independent, whatever aliases whatever",
     "Assigning, copying, loading or exporting one container into another makes the destination deeply equal to the source as it was before the operation, for every kind of content and every previous content of the destination, including self assignment and assignment between a container and its own nested elements. "
     "Afterwards no modification of one is ever visible in the other.",
     ["inputs", "histories"],
     "for every source content, every previous destination content, every aliasing relation between the two, followed by every further modification",
     "aliasing and later divergence need specific multi-step histories; use-after-free in them is invisible without instrumentation",
     [CC, HH], "deep copy, copy constructor, assignment, aliasing-safe replacement of content",
     "object graph of source and destination", "complete content of all live containers after every step")
prop("P06", "Merging keeps what is not overridden and overrides recursively",
     "Merging a map into another yields, at every depth, every key of either side; where both sides hold a map under the same key they are merged, otherwise the merged-in value wins, and all other destination entries are unchanged. "
     "Merging an empty container changes nothing, merging into an empty container copies, and anything else that is not a map is refused without changing the destination; the source is never modified.",
     ["inputs", "histories"],
     "for every pair of destination and source contents, including sources nested inside the destination",
     "needs overlapping keys at several depths with differing kinds",
     [CC], "recursive merge of maps", None, "destination and source after the merge")
prop("P07", "Comparison finds no difference exactly when contents are equal",
     "Comparing two containers always terminates, and reports no difference if and only if both hold the same kinds and the same values at every depth (reals compared by value); it never modifies either side.",
     ["inputs"],
     "for every pair of contents of every kind and depth, including equal, one element apart, prefix, and differently typed pairs",
     "equality over all kind pairs and single-element differences at any position is not sampled",
     [CC], "recursive content comparison", None, "emptiness of the difference report")
prop("P08", "Promotion changes the type, never the values",
     "Promoting a container to a wider numeric scalar, vector, matrix or to a generic list converts every element to the wider type with its exact value (64-bit integers to reals round to nearest), keeps the order and shape, and is idempotent. "
     "Promotions for which no widening exists are refused.",
     ["inputs"],
     "for every source kind, every element value, every promotion target",
     "thirteen targets times twenty-one source kinds, each with several sizes, are mostly unexercised",
     [PR, CC], "promotion functions", "kind tag and storage", "content after promotion")
prop("P09", "Appending adds one element at the end and keeps the rest",
     "Appending a value leaves the earlier elements in place with their numeric values (possibly in a wider element type that can represent both) and puts the new value, unchanged, in one new last position; an append that cannot be represented is refused and changes nothing.",
     ["inputs", "histories"],
     "for every content kind and every sequence of appended booleans, integers, reals, complex numbers and strings",
     "mixed-type append histories over each starting kind are not sampled",
     [CC, PR], "append operations with implicit widening", None, "content after each append")
prop("P10", "Bulk extraction yields every element, in order, or an error",
     "Extracting the content as a plain vector or matrix of a requested element type returns exactly the stored elements, in order and with their values converted exactly, from every kind that can represent them (scalar, vector, matrix, list of numbers, list of columns). "
     "If any element cannot be converted exactly to an integer target, or the shape does not fit, the extraction is refused; the container is never modified.",
     ["inputs"],
     "for every content and every target element type (signed/unsigned 32/64-bit, real, complex, string; vector or matrix)",
     "one unrepresentable element at an arbitrary position, or one ragged column, is needed",
     [CC, HH], "copy-out functions and element conversions, row and column extraction", None, "extracted sequence or error")
prop("P11", "Collapsing preserves every number and the nesting",
     "Collapsing replaces, bottom-up, each list made only of numbers by a vector of the narrowest common element type, each list of strings by a string vector and each list of equal-length numeric vectors by a matrix having them as columns; everything else is left as it was. "
     "It never fails, never loses or reorders elements, and collapsing twice equals collapsing once.",
     ["inputs"],
     "for every nested list/map content",
     "the shape of collapse depends on all elements of a list; only tiny regular lists appear in tests",
     ["src/GenericContainerCollapse.cc", CC], "bottom-up type unification", None, "content after collapse")
prop("P12", "Serialized bytes rebuild exactly the same container",
     "Serializing any content writes exactly the announced number of bytes and never outside the buffer given, refusing buffers that are too small; reading those bytes back into a container with any previous content rebuilds exactly the same content and consumes exactly those bytes. "
     "The byte layout is fixed, so bytes written by one build are read by another.",
     ["inputs"],
     "for every content of any depth, every buffer size from zero to larger than needed",
     "round trips of each kind at each nesting, and each insufficient buffer length, are not sampled",
     ["src/GenericContainerSerialize.cc"], "size computation, writer and reader of the binary format", None, "bytes, byte counts, rebuilt content")
prop("P13", "Corrupted or truncated serialized data is rejected safely",
     "Given any byte sequence and its length, rebuilding a container either succeeds consuming at most that many bytes or raises an error; it never reads outside the buffer, never hangs or crashes (for nesting within the call stack), and leaves a usable container. "
     "Every proper prefix of valid serialized data is rejected.",
     ["inputs"],
     "for every byte buffer, in particular every truncation and every corrupted length, count or tag field of valid data",
     "tests only feed intact buffers",
     ["src/GenericContainerSerialize.cc"], "bounds checks on counts and lengths in the reader", None, "result or error, content afterwards, memory accesses")
prop("P14", "JSON output is valid JSON denoting the same data",
     "For any content the JSON writer emits one valid JSON document that denotes it: same nesting, keys and order, strings byte for byte, integers exactly, reals such that reading them gives the same number (possibly as an integer of the same value; non-finite become null), complex numbers as text, matrices as lists of columns. "
     "Reading the document back gives the collapsed original.",
     ["inputs"],
     "for every content, every string and key including quotes, backslashes, control characters and multi-byte characters, every number",
     "the escape set, empty containers at every position and 17-digit reals are not sampled",
     ["src_json_interface/to_json.cc", CC], "JSON writer, string escaping, number formatting", None, "emitted text")
prop("P15", "Both JSON readers decode exactly the document or report failure",
     "For every valid JSON text each of the two readers produces the collapsed image of the document: objects to maps (last duplicate wins), arrays to lists, strings with all escapes decoded, integers exactly in the narrowest of 32/64-bit integer or else real, other numbers correctly rounded, whatever the container held before. "
     "Texts that are not a JSON document, in particular documents cut off in the middle, are reported as failures, never as a crash or silently partial data; the second reader (from_json2) additionally tolerates empty text, raw control characters in strings, unknown escapes, and numbers such as +1, 01 and 1. (out-of-range exponents, lone surrogates, embedded NUL and invalid UTF-8 are outside this promise).",
     ["inputs"],
     "for every text: valid documents of any nesting and layout, and malformed or truncated ones",
     "grammar coverage (escapes, surrogates, number forms, whitespace, nesting, truncation) is far beyond the example files",
     ["src_json_interface/from_json.cc", "src_json_interface/from_json2.cc", "src_json_interface/jsonLexer.cc", "src_json_interface/jsonParser.yy", "src_json_interface/jsonParser.tab.hh"],
     "two independent lexers/parsers building the container", None, "decoded content or failure")
prop("P16", "YAML written is read back as the same data",
     "For any content made of the kinds YAML can express, with valid UTF-8 text, what the YAML writer emits is accepted by the YAML reader and gives the collapsed image of the original: same nesting, keys, strings, integers and reals, at every indentation depth. "
     "Reading replaces whatever the container held before, and text cut off inside a quoted string or a bracketed collection is reported as failure.",
     ["inputs"],
     "for every nested content, key and string (quotes, colons, dashes, hashes, reserved words, control characters)",
     "indentation-sensitive nesting and special keys/strings are not sampled",
     ["src_yaml_interface/to_yaml.cc", "src_yaml_interface/from_yaml.cc"], "YAML writer and reader", None, "emitted text and rebuilt content")
prop("P17", "TOML written is read back as the same data",
     "For any map whose content TOML can express, with valid UTF-8 text, what the TOML writer emits is accepted by the TOML reader and gives the image of the original: same nesting, keys, strings, integers exactly and reals exactly, complex numbers as pairs and matrices as tagged tables with dimensions and data. "
     "Any TOML document is read as the collapsed image of the data it denotes, whatever the container held before, with dates and times as tagged text. "
     "Content that TOML cannot express is reported as a failure instead of being written, and text that is not TOML is reported as a failure when read.",
     ["inputs"],
     "for every nested map content, key, string and number",
     "array homogeneity, 64-bit integer arrays, special keys and strings are not sampled",
     ["src_toml_interface/to_toml.cc", "src_toml_interface/from_toml.cc"], "TOML writer and reader", None, "emitted text and rebuilt content")
prop("P18", "Values cross into Lua and back unchanged",
     "Exporting content to the embedded Lua interpreter and importing it back, directly or through a called Lua function, yields the same booleans, integers (as 64-bit), reals, strings, lists and maps (a real with integral value may return as an integer, an empty list or map as empty); kinds without a Lua counterpart become nil (lists containing such elements are outside this promise). "
     "Any number of transfers and failed calls leaves the interpreter usable.",
     ["inputs", "histories"],
     "for every content expressible in Lua and every sequence of exports, imports, calls and errors",
     "stack discipline over long histories and mixed lists are not sampled",
     ["src_lua_interface/GenericContainerInterface_lua.cc"], "conversion both ways over the Lua stack", "Lua stack and globals", "imported content, results of calls")
prop("P19", "The C interface edits exactly the selected node",
     "Driving containers only through the C functions, every call acts on the node selected by the sequence of select, push and pop calls since, exactly as the corresponding C++ operation, and returns the documented status code; other containers and nodes are unaffected. "
     "Calls with no selected container, after deletion, on the wrong kind or out of range return an error or neutral value and never crash or let an exception escape.",
     ["histories", "inputs"],
     "for every sequence of C calls over several named containers",
     "cursor-stack histories with deletion, re-creation and errors are not sampled",
     ["src/GenericContainerInterface_C.cc", "include/GenericContainer/GenericContainerInterface_C.h"], "registry of named containers and head stack",
     "active container, head stack, key iterator", "return codes/values and content of all containers")
prop("P20", "Column tables are written and read back cell by cell",
     "Writing a table (headers plus columns, as list of columns or real matrix) emits one header line and one line per row with every cell in its place; the pretty-printed form shows the same cells. Reading such text (blank, tab or ',;:' separated, LF or CRLF) returns the headers and the numbers in the same columns and order, whether or not the last line is terminated; lines holding a comment character are skipped, and the parameter-collecting reader stores their 'name = value' pairs. "
     "A row with another number of cells, and writing without headers or with missing or too short columns, are refused.",
     ["inputs"],
     "for every table shape, header set, delimiter, comment layout and line ending",
     "unterminated last lines, one-column tables, empty tables and ragged rows are not sampled",
     ["src/GenericContainerSupport.cc", "src/GenericContainerTables.cc"], "tokenizer, comment skipping, table writers", None, "emitted text, rebuilt content")
prop("P21", "Printed reports show every element of the content once, in order",
     "The human-readable dump (dump and print) and the type listing enumerate the whole content: every scalar, vector and matrix element, list position and map key (its title, for keys of the form number-hash-title, underlined as asked) appears exactly once, in order, with its value or its type and size, every line starting with the given prefix and one indentation per level of nesting; the one-line summary states the kind and the value or, for vectors, matrices and lists, the size. "
     "Printing changes neither the container nor the formatting state of the stream.",
     ["inputs"],
     "for every nested content and every prefix",
     "deep and empty nesting, header-formatted keys and stream state after pointers are not sampled",
     [CC], "dump, type listing, info", None, "emitted text, stream flags, content")
prop("P22", "No history of operations corrupts, leaks or crashes",
     "Under any sequence of operations on any number of containers and nested elements, including ones that raise errors, every container stays well formed with exactly the content the operations define, all memory is released once the containers are gone, and no operation reads or writes outside live storage.",
     ["histories"],
     "for every interleaving of setters, getters, element access, promotion, append, copy, merge, erase, collapse, serialization and text import over several containers sharing data by copy",
     "ownership errors need specific operation orders and are silent without instrumentation",
     [CC, HH, PR, "src/GenericContainerCollapse.cc", "src/GenericContainerSerialize.cc"], "ownership of the heap blocks behind the tagged union",
     "kind tag and owned storage", "contents after each step, allocator balance, sanitizers")
prop("P23", "Values cross into MATLAB and back with the same shape and data",
     "Exporting any content to MATLAB yields an array of the corresponding class (logical, 64-bit integer, double real or complex, char, cell, struct), with the same dimensions, element order and data, without reading outside the content or printing anything. "
     "Importing an array of any class, shape and nesting (numeric of every width, logical, char, string object, cell, struct and struct array, sparse) replaces the content by exactly its elements, in its order: one element as a scalar, a row as a vector, anything else as a matrix of the same dimensions; an unsigned integer that no supported kind can hold is refused rather than altered. "
     "Contents expressible in MATLAB return from the trip as the same data.",
     ["inputs", "histories"],
     "for every content (every kind, nested, empty, of any shape), every MATLAB array of the classes above including boundary values of each class, and any sequence of imports and exports",
     "no test of the repository touches this interface at all (it needs MATLAB); class limits, empty arrays, orientation and column order fail only for particular inputs",
     ["src_matlab_interface/GenericContainerInterface_matlab.cc"], "dispatch on the array class and on the kind tag, column by column copying",
     "content, and the array on the MATLAB side", "array exported, complete content after each import")
prop("P24", "Threads do not affect each other",
     "Threads working on different containers never influence one another: every operation of each gives the reply and leaves the content it would give and leave in a thread working alone, on any of the core, text, table, report and serialization interfaces. "
     "Any number of threads may read one container, print or serialize it, or copy from it, at the same time without synchronization and without changing it; a copy taken belongs to the thread that took it, which may change it while others go on reading the original. "
     "(The C interface, which by design works on one active container per process, and the Lua and MATLAB interpreters are not included; reads that widen an entry in place count as modifications.)",
     ["schedules", "histories"],
     "for every number of threads, every sequence of operations in each and every interleaving, including the first use of an operation in the process",
     "the tests are single threaded; shared scratch buffers, lazily filled caches and hidden sharing between copies are invisible without concurrency",
     [CC, "src/GenericContainerSupport.cc", "src_json_interface/from_json.cc", "src_json_interface/to_json.cc", "src_yaml_interface/from_yaml.cc", "src_toml_interface/from_toml.cc", "src/GenericContainerSerialize.cc"],
     "no mutable state outside the containers; per-call match data, buffers and parsers",
     "own containers of each thread and the shared one", "replies and contents in every thread, data races")
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
open(out, "w").write("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
