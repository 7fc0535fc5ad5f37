#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code only to keep the JSON lines readable to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Library builds are reproducible",
 "Building a type library from the same set of type definitions always produces the byte-identical library with the same library id, whatever the order in which the types and the dependencies are fed to the builder, whatever randomness the hosting process uses for its hash tables, and whatever other builds run at the same time. The same holds when the finished symbolic library is compiled in another process. A build that fails, fails in every such execution.",
 ["schedules", "configurations", "inputs"],
 "for every set of derived types, every order of adding them and of listing the dependencies, every hash seed of the process, and every interleaving of concurrently running builds",
 "The repository's tests build each library once per process, in one fixed order and with whatever hash seed the process drew, and at most compare ids of one build; they cannot choose the hash seeds or the interleavings.",
 ["src/typelib/transpile.rs", "src/typelib/symbolic.rs", "src/typelib/compile.rs", "src/ast/id.rs"],
 [("collection of transpiled types, known libraries and external types", "LibBuilder in src/typelib/transpile.rs"),
  ("ordering of the result and selection of the used dependencies", "LibBuilder::compile_symbols and SymbolicLib::compile in src/typelib/symbolic.rs")],
 state=[("known_libs, extern_types, types", "hash tables whose iteration order depends on the process's random hash keys", "LibBuilder in src/typelib/transpile.rs")],
 observe=["serialized bytes and id of the compiled library"])

prop("C02", "Linked system does not depend on the order libraries arrive in",
 "Linking a set of libraries gives one and the same type system, symbol table and system id for every order in which the libraries arrive and however often one of them arrives again. The result contains exactly the types of the libraries, every named type resolvable by its library and name to the id which commits to its definition, and every id leading to that definition; in particular, importing one library never removes or renames what another one contributed.",
 ["histories", "schedules", "inputs"],
 "for every set of libraries and every delivery history (order, duplicates, retransmissions, copies that travelled in different formats) that delivers each of them at least once",
 "Tests import fixed libraries in one fixed order, once each.",
 ["src/typesys/translate.rs", "src/typesys/symbols.rs", "src/typesys/type_sys.rs", "src/typesys/id.rs", "src/ast/id.rs"],
 [("import of a library into a system under construction", "SystemBuilder::import in src/typesys/translate.rs"),
  ("symbol table", "Symbols, SymbolicSys in src/typesys/symbols.rs"), ("ids", "src/ast/id.rs, src/typesys/id.rs")],
 state=[("pending_deps, imported_deps, types", "what was imported so far", "SystemBuilder in src/typesys/translate.rs")],
 observe=["serialized type system and symbols, system id, resolve/lookup/get for every name and id"])

prop("C03", "Linking succeeds exactly when everything referenced has arrived",
 "Completing a system succeeds exactly when each dependency declared by an arrived library has itself arrived and each type referenced by an arrived library is defined by one of them; otherwise it fails, and reports each missing library and each missing type. A system that was produced is complete: each type it refers to, at any depth, is part of it.",
 ["histories", "fault_sequences", "inputs"],
 "for every set of libraries, every subset lost on the way, every stale version delivered in the place of the one depended on, and every order of arrival",
 "Tests only link complete, consistent sets of libraries: no test loses a library, delivers an outdated one, or looks at the errors reported.",
 ["src/typesys/translate.rs", "src/typesys/symbols.rs"],
 [("tracking of pending and imported dependencies, completeness check", "SystemBuilder::import and SystemBuilder::finalize in src/typesys/translate.rs")],
 state=[("pending_deps", "dependencies seen but not yet imported", "SystemBuilder in src/typesys/translate.rs")],
 observe=["result and errors of finalize, closure of the linked system"])

prop("C04", "Partial systems exchanged between nodes stay complete and converge",
 "The part of a type system extracted for some types contains exactly those types and everything they refer to at any depth, each with its original definition, and asking for an unknown type fails. Nodes that build up their system only by merging such parts, received in any order, repeatedly, or not at all, hold at every moment a complete system that is a subset of the original one. Once messages are delivered again, all of them reach the same system with the same id.",
 ["histories", "fault_sequences", "crash_points", "schedules"],
 "for every original system, every sequence of requests, every loss, duplication, delay, reordering, corruption and partition of the network, and every crash and restart of a node from its last stored state",
 "Extraction and merging of systems are exercised by one unit path with one system; nothing merges several parts, and there is no network, loss or restart.",
 ["src/typesys/type_sys.rs", "src/ast/iter.rs", "src/typesys/id.rs"],
 [("extraction and merging", "TypeSystem::extract and TypeSystem::extend in src/typesys/type_sys.rs"), ("enumeration of the inner types", "src/ast/iter.rs")],
 state=[("known types of a node", "type system merged so far", "TypeSystem in src/typesys/type_sys.rs")],
 observe=["every node's system after every delivered message"])

prop("C05", "Libraries and systems survive any route of transport formats",
 "A library that is passed on through any sequence of the supported transport forms (binary, text armor, JSON or TOML, symbolic form compiled again at the receiver), over streams that deliver any chunking, arrives equal to the original and with the same id; a linked system and its symbol table likewise. The same value always takes the same form on the wire.",
 ["histories", "schedules", "inputs"],
 "for every valid library and linked system, every sequence of hops and formats, and every chunking and transient interruption of the streams in between",
 "Tests do one binary and one armored round trip of the built-in libraries, through memory.",
 ["src/typelib/serialize.rs", "src/typelib/symbolic.rs", "src/typelib/translate.rs", "src/typelib/compile.rs", "src/ast/encoding.rs", "src/ast/ty.rs", "src/typesys/symbols.rs", "src/typesys/type_sys.rs"],
 [("binary and armored forms", "src/typelib/serialize.rs, src/ast/encoding.rs, src/ast/ty.rs"),
  ("conversion to and from the symbolic form", "TypeLib::to_symbolic and SymbolicLib::compile in src/typelib/symbolic.rs, src/typelib/translate.rs, src/typelib/compile.rs")],
 observe=["the library or system at each receiver, and its re-encoding"])

prop("C06", "A damaged library is never taken for the original",
 "Whatever bytes of a stored or transmitted library are flipped, lost, duplicated or overwritten, reading it either is refused, or gives a library which announces a different id, or gives the very same named types. What is accepted re-encodes to exactly the bytes that were read, and can be linked, expanded or compiled further without a crash, a hang or excessive memory; the same robustness holds for stored systems and symbol tables.",
 ["fault_sequences", "inputs"],
 "for every stored library, system and symbol table in binary or armored form and every combination of bit flips, torn, lost, duplicated, moved or foreign blocks in it",
 "Tests only read intact data; the space of damages cannot be listed by hand.",
 ["src/typelib/id.rs", "src/typelib/serialize.rs", "src/ast/ty.rs", "src/ast/encoding.rs", "src/ast/id.rs", "src/typelib/symbolic.rs", "src/typesys/translate.rs", "src/typesys/id.rs"],
 [("ids commit to the content", "src/typelib/id.rs, src/ast/id.rs"), ("validation when reading", "StrictDecode of Ty, EnumVariants, UnionVariants, NamedFields in src/ast/ty.rs and src/ast/encoding.rs"),
  ("armor id check", "src/typelib/serialize.rs")],
 observe=["result of reading the damaged data, its id and re-encoding"])

prop("C07", "Saving a library reports success only if everything was written",
 "When saving a library, in any of its formats, to a directory or to the standard output, reports success, then the complete text or binary for exactly that library was handed to the operating system; for a file, nothing else is left in it. If any write, or the creation of the file, failed, an error is returned. Interrupted and partial writes alone never cause a failure nor change what is written.",
 ["fault_sequences", "inputs"],
 "for every library, format and destination, and every sequence of short, interrupted and failing writes, full disks and devices that stop working at any byte",
 "Tests never write through anything that fails, and do not compare saved files at all.",
 ["src/typelib/serialize.rs"],
 [("saving of compiled and symbolic libraries", "TypeLib::serialize and SymbolicLib::serialize in src/typelib/serialize.rs")],
 observe=["result of saving; bytes accepted by the operating system"])

prop("C08", "A crash while saving never yields a wrong library",
 "If the process or the machine stops at any moment while a library is being saved, over an older file or as a new one, then loading the file afterwards gives the complete library, or the complete older one, or is refused: never a different or incomplete library, and never a crash of the loader. Saving again after the restart makes it load as the new one.",
 ["crash_points", "fault_sequences", "inputs"],
 "for every library, older content of the file, format, crash point between or inside the writes, and every loss or reordering of writes which did not reach the disk before the power failed",
 "No test stops a save half way; the states of a disk after a power failure cannot be produced by a test on a real disk.",
 ["src/typelib/serialize.rs", "src/typelib/type_lib.rs", "src/ast/ty.rs"],
 [("saving", "TypeLib::serialize in src/typelib/serialize.rs"), ("checks when loading", "StrictDecode of TypeLib; armor id check in src/typelib/serialize.rs")],
 observe=["library loaded from every disk state"])

prop("C09", "Streams of typed values decode the same however they are chunked",
 "Reading typed values one after another from a stream gives the same sequence of values, and consumes exactly the bytes that belong to each of them, however the stream splits, delays or interrupts the delivery of the bytes; it equals decoding each value from its own complete buffer. Writing them gives the same bytes however the destination splits or interrupts the writes.",
 ["schedules", "inputs", "histories"],
 "for every complete type system, every sequence of values of its types, and every chunking and transient interruption of reads and writes",
 "Tests decode single small values from in-memory buffers.",
 ["src/value/decode.rs", "src/value/encode.rs"],
 [("reading", "TypeSystem::strict_read_type in src/value/decode.rs"), ("writing", "TypeSystem::strict_write_value in src/value/encode.rs")],
 observe=["values read, stream position, bytes written"])

prop("C10", "Failing streams surface as errors, never as made-up or lost data",
 "If the source of a typed value fails or ends before the value is complete, reading returns an error and the failure is not hidden; values read before it are exactly those that were sent. If the destination fails, writing returns an error, and what was accepted before is a prefix of the proper encoding. After the failure the same system reads and writes correctly again over a working stream.",
 ["fault_sequences", "inputs", "histories"],
 "for every typed value and stream, every byte position at which reading or writing fails, ends or stalls with a permanent error, and every later retry",
 "No test uses a reader or writer that fails.",
 ["src/value/decode.rs", "src/value/encode.rs"],
 [("propagation of I/O errors", "src/value/decode.rs, src/value/encode.rs")],
 observe=["results of reading and writing, bytes accepted"])

prop("C11", "Peers using compiled-in and dynamic types understand each other",
 "A peer which knows a type only from its library reads every message a peer with the compiled-in type wrote, and writes back bytes which the latter reads as the same value; the type information a library carries is thus exactly what the compiled-in type puts on the wire. A message damaged on the way which the compiled-in peer accepts is accepted by the dynamic one with the same meaning, and vice versa (apart from a wrong order of the items of a set or map: the type information does not cover the order).",
 ["inputs", "histories", "fault_sequences"],
 "for every derived type (numbers, enumerations, unions, tuples, structures, arrays, strings, lists, sets, maps, nested and cross-library), every value of it, every exchange of messages over links that chunk, lose, duplicate or damage them",
 "Tests compare the two representations for a handful of fixed values in one direction.",
 ["src/value/decode.rs", "src/value/encode.rs", "src/value/typify.rs", "src/typelib/transpile.rs", "src/ast/ty.rs"],
 [("reflection of the compiled-in type", "LibBuilder in src/typelib/transpile.rs"), ("dynamic reading and writing", "src/value/decode.rs, src/value/encode.rs")],
 observe=["bytes exchanged and values on both sides"])

prop("C12", "Reading damaged or hostile typed data is safe",
 "Reading typed data from arbitrary bytes never crashes, hangs, or takes memory out of proportion to the bytes received. It either returns an error, or a value which conforms to the type, including the announced minimum and maximum lengths and the permitted characters, and which encodes back to exactly the bytes that were consumed.",
 ["fault_sequences", "inputs"],
 "for every complete type system, each of its types, and every damage (flips, cuts, insertions, repetitions, foreign data) of valid data or arbitrary data",
 "Tests decode only valid data.",
 ["src/value/decode.rs", "src/value/encode.rs", "src/typesys/type_sys.rs", "src/ast/ty.rs"],
 [("reading of each class of types", "TypeSystem::strict_read_type in src/value/decode.rs")],
 observe=["result, memory used, re-encoding of accepted values"])

prop("C13", "Concurrent users of one type system do not affect each other",
 "Threads which at the same time read, write, check, look up, extract and link on one shared type system each get the result they would get if they were alone, in whatever way their steps interleave and even if some of them meet failing or stalled streams; the shared system itself does not change.",
 ["schedules", "fault_sequences", "histories"],
 "for every set of concurrent operations on a shared system, every interleaving of their I/O steps, and every failure or stall of the streams of some of them",
 "All tests are single threaded.",
 ["src/value/decode.rs", "src/value/encode.rs", "src/value/typify.rs", "src/typesys/type_sys.rs", "src/typesys/symbols.rs", "src/typelib/transpile.rs"],
 [("operations borrow the system immutably and keep no state outside of their arguments", "TypeSystem, SymbolicSys in src/typesys, src/value")],
 observe=["results per thread, id and bytes of the shared system afterwards"])

prop("C14", "A library build only uses what its declared dependencies provide",
 "Building a library fails, without producing anything, if one of its types refers to a type of a dependency which the declared version of this dependency does not provide, or whose library was not declared. A library that was built declares exactly the dependencies whose types it uses in this way, at the declared version, lists exactly the external types which its types refer to, directly or through other external types, by their right ids and names, and links with these versions.",
 ["fault_sequences", "configurations", "inputs"],
 "for every set of derived types and every knowledge of their dependencies the builder is given: complete, stale, truncated, renamed, or missing",
 "Tests always give the builder complete and current dependencies.",
 ["src/typelib/transpile.rs", "src/typelib/symbolic.rs"],
 [("check of the dependencies' types", "LibBuilder::compile_symbols in src/typelib/symbolic.rs"), ("recording of external types", "LibBuilder::report_compiled in src/typelib/transpile.rs")],
 observe=["result of the build, dependencies and external types of the library, linking with the declared versions"])

NA = []
def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech)
    NA.append({"property": id, "reason": reason})

na("C20", "Ids are the documented commitments and differ for different definitions",
 "The id of a type, library or system is the documented tagged hash of its definition: equal definitions have equal ids in every version of the software, and different definitions have different ids.",
 ["inputs"], "for every pair of type definitions",
 "Tests check the ids of the built-in libraries only.",
 ["src/ast/id.rs", "src/typelib/id.rs", "src/typesys/id.rs"], [("semantic commitments", "SemCommit in src/ast/id.rs")],
 "A pure function of one definition, with no schedule, fault, time or I/O it could depend on. (The simulated runs of C02 and C06 recompute all ids independently as part of their oracles, but sampling definitions is input generation, not simulation.)")
na("C21", "Type checking of literal values accepts exactly the conforming ones",
 "Checking a literal value against a type succeeds exactly for the values that conform to the type, and yields the normal form the encoder can write.",
 ["inputs"], "for every literal value and type", "Tests check a few literals.",
 ["src/value/typify.rs"], [("typify", "TypeSystem::typify in src/value/typify.rs")],
 "A pure function of value and type: no concurrency, I/O, time or fault involved. (C13 uses it only to show that concurrent use does not change its answers.)")
na("C22", "Text notation of values and types is faithful",
 "The textual notation printed for a value or a type denotes exactly this value or type.",
 ["inputs"], "for every value and type", "Tests print a few examples.",
 ["src/value/ston.rs", "src/ast/ty.rs", "src/typelib/serialize.rs"], [("display", "src/value/ston.rs")],
 "Pure formatting; there is no parser in the repository and nothing a schedule or fault could influence.")
na("C23", "Conversion to JSON, YAML and TOML is faithful",
 "A typed value converted to a self-describing format keeps its meaning.",
 ["inputs"], "for every typed value and format", "Tests convert a few values.",
 ["src/value/convert.rs", "src/value/val.rs"], [("conversion", "src/value/convert.rs")],
 "Pure conversion of one in-memory value; no schedule, fault, time or I/O.")
na("C24", "Memory layouts and type trees list every part of a type once",
 "The memory layout and the tree of a type enumerate each field, variant and item of the type in the order of their encoding.",
 ["inputs"], "for every type of a complete system", "Tests print one layout.",
 ["src/layout", "src/typesys/iter.rs"], [("iteration", "TypeTreeIter in src/typesys/iter.rs")],
 "A pure traversal of an immutable system; nothing for a simulator to decide.")
na("C25", "Paths address the part of a value or type they name",
 "Looking up a path in a type or value gives the part the path names, and fails if there is none.",
 ["inputs"], "for every type, value and path", "Tests follow a few paths.",
 ["src/value/path.rs", "src/ast/path.rs"], [("path lookup", "src/value/path.rs, src/ast/path.rs")],
 "Pure lookup; no schedule, fault, time or I/O.")
na("C26", "Ids printed as text read back as the same id",
 "The printed form of an id parses to the same id, and a mistyped one is refused.",
 ["inputs"], "for every id and form", "Tests parse a few ids.",
 ["src/ast/id.rs", "src/typelib/id.rs", "src/typesys/id.rs"], [("baid64 forms", "src/ast/id.rs, src/typelib/id.rs")],
 "Pure parsing and printing, implemented in a dependency.")

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
with open(os.path.join(here, "tools", "not_applicable.json"), "w") as f:
    json.dump(NA, f, indent=1)
print(len(P), [len(p["title"]) for p in P if len(p["title"]) > 80])
