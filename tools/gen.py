#!/usr/bin/env python3
"""Writes properties.jsonl, rules.json and MANIFEST.json from the table below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

T_DIFF = "runtime monitoring: differential oracle over generated workloads, with ASan and debug assertions"
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, rule, assumptions=(), must=(), state=(), note=""):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                           **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]} if state else {}),
                           "hook_needed": None},
                  technique=technique, rule=rule, assumptions=list(assumptions), must=list(must), note=note))


GEN = ("Documents are generated from (seed, case): nested arrays and dicts over all leaf types, sizes around the format's boundaries "
       "(0, 1, 14/15, 127/128, 2046..2049, 32767/32768 elements, 16-bit distances), hostile keys (empty, 1-2 bytes, prefixes of each other, NUL, "
       "multi-byte, longer than 16 bytes). ")
REFENC = ("Layouts come from an independent reference encoder of the format (own code, shares nothing with the crate) which chooses at random among the legal "
          "forms: narrow or wide collections, long ints, 4-byte doubles, gaps, shared values, pointers to pointers, far roots, inline empty collections. ")

prop("C01", "Encoding a document and opening it gives back the document",
     "For every tree of values written through the encoder (null, undefined, booleans, all integer widths, f32/f64 by bits, strings, data, arrays and dicts nested arbitrarily), "
     "finishing and opening the bytes succeeds and every value, type, length, order of array elements and mapping of dict keys read from it equals what was written. "
     "This holds for each way to finish and for each way of passing a value (owned, borrowed, boxed).",
     ["inputs"], "All documents: any shape, depth, element counts, key sets, value magnitudes and string lengths.",
     "The tests round-trip a handful of small fixed documents and compare only some fields; sizes around the format's boundaries and mixtures of types are never sampled.",
     ["src/encoder/mod.rs", "src/encoder/encodable.rs", "src/encoder/value_stack.rs", "src/value/mod.rs", "src/value/array.rs", "src/value/dict.rs", "src/value/varint.rs"],
     [("write_value / write_key / end_array / end_dict", "src/encoder/mod.rs"), ("Encodable impls", "src/encoder/encodable.rs"), ("from_bytes and accessors", "src/value/mod.rs")],
     T_DIFF,
     GEN + "Each is encoded, opened and walked completely, and compared with the model node by node, with all accessors of every leaf; a case counts if it has not been seen before (hash of the document) and has at least one value inside a collection.",
     must=["parts_written_from_other_documents", "documents_compared", "documents_of_similar_values", "values_read", "arrays_read", "dicts_read", "wide_arrays_read", "wide_dicts_read"])

prop("C02", "Reading back does not depend on sizes, element counts or distances",
     "A document reads back equal to what was written whatever the number of elements of a collection, the length of its strings and data, and the distance in bytes between a value, "
     "the collections that hold it and the root; in particular at and around every boundary at which the format changes representation. "
     "A document beyond what the format can address is refused with an error, never mis-read.",
     ["inputs"], "All element counts, string lengths and distances, with and without shared keys, swept densely around powers of two and representation limits.",
     "The tests contain no document near a limit except one of 10,000 equal elements; an off-by-one at a limit affects only exact sizes.",
     ["src/encoder/mod.rs", "src/encoder/encodable.rs", "src/value/array.rs", "src/value/pointer.rs", "src/value/sized.rs", "src/value/varint.rs"],
     [("choice of narrow or wide collections", "src/encoder/mod.rs:_array_should_be_wide"), ("offset patching", "src/encoder/mod.rs:_fix_array_pointers"), ("root pointer", "src/encoder/mod.rs:_finished_collection"),
      ("long element counts", "src/value/array.rs:len"), ("narrow / wide pointers", "src/value/pointer.rs")],
     "runtime monitoring: dense size and distance sweeps under a differential oracle, with ASan and debug assertions",
     "Each case places padding of a swept number of bytes, or a swept number of elements, between values and their parents, in windows around each limit (16,384, 32,768 and 65,536 bytes, 2046..2049 and 16382..32770 elements, 15/127/128/16383 byte strings, sizes and counts around each power of two up to 2^21, documents above 64 MB and, without instrumentation, above 1 GB), reads the whole and compares with the model; distinct by the hash of the swept parameters.",
     must=["distances_swept", "counts_swept", "documents_compared", "wide_arrays_read", "wide_dicts_read", "documents_over_64_MB", "documents_beyond_reach_refused", "sizes_beyond_16_bits"])

prop("C03", "The encoder obeys its call protocol; a rejected call has no effect",
     "For every sequence of encoder calls (values, keys, opening and closing arrays and dicts, embedding of existing values), each call succeeds or fails exactly as the documented rules say "
     "(no value without an open collection, no key outside a dict or while a value is due, no value while a key is due, collections closed by their own kind, one top-level collection). "
     "A rejected call has no effect on the resulting document, no call panics, and finishing at any point gives a valid document of exactly the accepted calls, "
     "with unclosed collections closed and a dangling key dropped.",
     ["histories"], "All finite call sequences, including misuse at every position and finishing at any point.",
     "One test makes one kind of mistake (a second top-level collection); the sequences of calls are unbounded.",
     ["src/encoder/mod.rs", "src/encoder/value_stack.rs", "src/encoder/error.rs"],
     [("collection stack", "src/encoder/value_stack.rs"), ("call guards", "src/encoder/mod.rs:write_key, write_value, begin_array, begin_dict, end_array, end_dict"), ("closing of open collections", "src/encoder/mod.rs:_end")],
     "runtime monitoring: online checker of the call-protocol specification (state machine), differential oracle on the result",
     "Random sequences of calls, most of them biased to the edges of the protocol; an automaton decides for each call whether it must be accepted and with which error class it is refused, and holds the document of the accepted calls, which is compared with the finished bytes. Distinct by the hash of the sequence.",
     must=["calls_accepted", "calls_rejected", "bulk_writes", "deep_sequences", "sequences_with_unclosed_collections", "documents_compared"])

prop("C04", "Encoding is deterministic and all ways to build or open agree",
     "Writing the same calls again gives byte-identical output, and writing a dict's entries in another order gives an equal document with the same size. "
     "All ways to construct a document (calls, literal macro, finishing to bytes, to an owned value or to a scope) and all ways to open the same bytes (checked, unchecked, copied, scoped) show the same content.",
     ["inputs", "configurations"], "All documents; every pair of constructions and every pair of openings.",
     "Tests use one construction and one opening each and never compare bytes.",
     ["src/encoder/mod.rs", "src/lib.rs", "src/value/mod.rs", "src/scope.rs", "src/alloced.rs"],
     [("ordering of keys", "src/encoder/mod.rs:dict_key_cmp"), ("finish / finish_value / finish_scoped", "src/encoder/mod.rs"), ("fleece! macro", "src/lib.rs"), ("from_bytes / from_bytes_unchecked / clone_from_bytes", "src/value/mod.rs"), ("root", "src/scope.rs")],
     "runtime monitoring: metamorphic and differential oracles between constructions and openings, with ASan",
     GEN + "Each is built in several ways and opened in several ways; bytes and contents are compared pairwise and with the model. Distinct by the hash of the document.",
     must=["constructions_compared", "openings_compared", "macro_documents", "documents_compared"])

prop("C05", "Numbers keep their value and convert as documented",
     "Every integer from i64::MIN to u64::MAX and every f32 and f64 (NaN payloads, infinities, zeros and subnormals included) reads back with the same value and kind whatever the width of the type it was written from. "
     "Every numeric and boolean accessor of every value returns the mathematically corresponding conversion (wrapping integer narrowing, saturating float to integer, true and false as 1 and 0, zero for other non-numbers; as a boolean only false and a number equal to zero are false).",
     ["inputs"], "All numbers of all numeric types, at the top of a collection of any width; all accessors.",
     "The tests write a few dozen small numbers; the defects are at representation boundaries and signs.",
     ["src/encoder/encodable.rs", "src/value/mod.rs", "src/value/sized.rs"],
     [("choice of short / int / unsigned / float forms", "src/encoder/encodable.rs"), ("to_int, to_unsigned_int, to_short, to_double, to_bool", "src/value/mod.rs")],
     "runtime monitoring: differential oracle against host arithmetic, exhaustive for 16 bits, boundary-biased beyond, with ASan and debug assertions",
     "All values of the 8- and 16-bit types are enumerated, others are drawn near powers of two, sign changes and byte-length changes, and float boundaries; each is written from every type that holds it, and all accessors are compared with host arithmetic. Distinct by the hash of the numbers.",
     must=["numbers_compared", "small_integers_enumerated"])

prop("C06", "Opening arbitrary bytes always ends in an answer",
     "Opening any byte string whatsoever (as a document, as the persisted form of a key table, or as the bytes of a scope) returns a document or an error: it never panics, aborts, reads outside of the given bytes, or hangs. "
     "Bytes that violate the structure of the format in a way that would lead a reader outside of them are refused, and well-formed bytes are accepted.",
     ["inputs"], "All byte strings, of all lengths and contents.",
     "Tests open only bytes that the encoder made; the guarantee is about all others.",
     ["src/value/mod.rs", "src/value/array.rs", "src/value/pointer.rs", "src/value/varint.rs", "src/shared_keys.rs", "src/scope.rs"],
     [("from_bytes / _find_root / _validate", "src/value/mod.rs"), ("collection validation", "src/value/array.rs:validate"), ("deref_checked", "src/value/pointer.rs"), ("varint::read", "src/value/varint.rs"), ("from_state_bytes", "src/shared_keys.rs")],
     "runtime monitoring: ASan and debug assertions on exhaustive short inputs, structured mutations and targeted malformations; three-valued acceptance oracle",
     "All byte strings of up to 4 bytes (and structured longer ones) are enumerated over a reduced alphabet of bytes; generated documents are mutated and malformed in specified ways (lengths, offsets, counts, varints, roots, truncation). Inputs lie at the end of exact heap blocks so that ASan sees any read outside. A reference decoder says whether an input must be accepted, must be refused or may be either. Distinct by the hash of the inputs.",
     must=["inputs_accepted", "inputs_rejected", "inputs_enumerated", "inputs_malformed", "long_pointer_chains", "states_accepted"],
     note="two known findings: extremely deep nesting (about 400,000 levels) overflows the stack, and a DAG of shared sub-arrays makes the validation exponential")

prop("C07", "Whatever is accepted on opening is safe to read in every way",
     "If opening some bytes succeeds, then every operation on the resulting value and everything reachable from it (all accessors, iteration, indexing, lookup, formatting, deserialization, mutable copies, re-encoding) stays inside of the bytes, "
     "terminates and does not panic. Every string returned is valid UTF-8 and every length and index agrees with what iteration yields.",
     ["inputs"], "All byte strings that are accepted; all read operations on them.",
     "Tests read only well-formed documents; what validation lets through is exactly what they do not sample.",
     ["src/value/mod.rs", "src/value/array.rs", "src/value/dict.rs", "src/value/pointer.rs", "src/mutable.rs", "src/de.rs"],
     [("validation", "src/value/mod.rs:_validate, src/value/array.rs:validate"), ("unchecked dereferences", "src/value/pointer.rs:deref_unchecked"), ("binary search on unvalidated keys", "src/value/dict.rs:_get"), ("visitors", "src/de.rs")],
     "runtime monitoring: ASan, Miri (tree borrows) and pointer-range monitors over full reads of hostile documents",
     "As for C06; whatever is accepted is read by every public operation under ASan, debug assertions and (a part) Miri, with checks that all slices returned lie inside of the input. Distinct by the hash of the inputs.",
     must=["inputs_accepted", "inputs_which_lead_outside_rejected", "values_read", "mutable_values_read", "serde_values_read", "values_reencoded", "debug_bytes"])

prop("C08", "Every legal layout of the format is accepted and decodes correctly",
     "A document laid out by any conforming writer of the Fleece format opens and reads as the document it denotes, not only the layouts that this crate's encoder happens to choose. "
     "That includes wide collections without need, numbers in longer forms, pointers to pointers, shared and gap-separated values, keys as inline strings, pointers or shared integers, and long element counts.",
     ["inputs"], "All documents times all legal layouts of them.",
     "Tests decode two fixture files and what the encoder makes; other layouts never occur.",
     ["src/value/mod.rs", "src/value/array.rs", "src/value/dict.rs", "src/value/pointer.rs", "src/value/varint.rs", "src/mutable.rs"],
     [("decoding by tag", "src/value/mod.rs"), ("elements of narrow and wide collections", "src/value/array.rs, src/value/dict.rs"), ("chains of pointers", "src/value/pointer.rs")],
     "runtime monitoring: documents of an independent reference encoder under a differential oracle, with ASan",
     GEN + REFENC + "Each layout is opened, read immutably and through mutable copies, and compared with the model. Distinct by the hash of the bytes.",
     assumptions=["The reference encoder states the format as described in the source, the fixtures and Fleece's documentation; it was checked against the reference decoder and the fixtures. The two documents of the C++ implementation that come with the repository are read, copied and re-encoded, too."],
     must=["layouts_read", "layouts_with_shared_keys_read", "refenc_far_roots", "refenc_pointers_to_pointers", "refenc_needless_wide", "refenc_inline_empty_collections", "mutable_dicts_read", "documents_of_another_writer"])

prop("C09", "The bytes that the encoder makes conform to the wire format",
     "Every document the encoder finishes is even-sized, with every value aligned at an even address, ends in a 2-byte root, and uses only forms which the Fleece format defines: pointers only backwards and inside of the document, "
     "dict keys in the order that readers search by, collections wide exactly as their elements need. "
     "With a key table, exactly the eligible keys are written as integers of the table.",
     ["inputs"], "All documents, with and without a key table.",
     "Tests never look at the bytes; a document that this crate reads back may still be unreadable for others.",
     ["src/encoder/mod.rs", "src/encoder/encodable.rs", "src/encoder/value_stack.rs", "src/value/sized.rs"],
     [("padding", "src/encoder/mod.rs:_write"), ("ordering of keys", "src/encoder/mod.rs:dict_key_cmp"), ("headers and counts", "src/encoder/encodable.rs"), ("root", "src/encoder/mod.rs:_finished_collection")],
     "runtime monitoring: offline conformance checker (independent strict decoder) on every encoded document",
     GEN + "Each is encoded, and the bytes are decoded by an independent strict decoder of the format that checks each byte region, alignment, order, width and key form, and compares the content. Distinct by the hash of the document.",
     assumptions=["A collection may be wide only when one of its pointers does not fit a narrow one with the elements at narrow distances."],
     must=["parts_written_from_other_documents", "ref_documents_decoded", "ref_regions_checked", "ref_shared_keys", "ref_pointer_keys", "ref_inline_keys", "ref_wide_collections", "ref_far_roots", "ref_long_counts"])

prop("C10", "Dict lookup finds exactly the keys that are in the dict",
     "Looking up any string in any dict returns the value stored under exactly that key, or nothing if there is none, agreeing with iteration, for every dict size, kind and mixture of keys and with or without a key table. "
     "Iteration yields each entry once, in the documented order, and its reported lengths are right.",
     ["inputs"], "All dicts and all lookup strings, present or absent (neighbours in the ordering, prefixes, extensions, empty, non-ASCII, embedded NUL).",
     "Tests look up the few keys that they wrote, in small dicts, and hardly any absent ones.",
     ["src/value/dict.rs", "src/value/mod.rs", "src/encoder/mod.rs", "src/shared_keys.rs"],
     [("binary search", "src/value/dict.rs:_get"), ("key comparison", "src/value/mod.rs:dict_key_cmp"), ("ordering when written", "src/encoder/mod.rs:dict_key_cmp"), ("iteration", "src/value/dict.rs:Iter")],
     T_DIFF,
     "Dicts of 0 to 5,000 keys from hostile key families, from the crate's encoder and from the reference encoder, narrow and wide, with empty, partial and full key tables; every present key and many near misses are looked up and compared with a map; iteration is compared in full. Distinct by the hash of the keys and layout.",
     must=["iterator_laws_checked", "dicts_beyond_16_bits", "pairs_iterated_in_order", "present_keys_looked_up", "absent_keys_looked_up", "dicts_with_shared_keys", "full_tables", "wide_dicts_read"])

prop("C11", "Indexing and iterating an array agree with its content",
     "For every array, indexing by i yields the i-th element written for i below the length and nothing otherwise, and iteration yields exactly the elements in order, once. "
     "The size hints stay exact at every point of the iteration and the iterator stays exhausted at its end, for arrays of any length, width and nesting.",
     ["inputs"], "All arrays times all indices (including huge ones) times all points of the iteration.",
     "Tests index a few positions of small narrow arrays and never index past the end or stop part-way.",
     ["src/value/array.rs", "src/value/mod.rs"],
     [("get", "src/value/array.rs:get"), ("element count", "src/value/array.rs:len"), ("iterator", "src/value/array.rs:Iter")],
     T_DIFF,
     "Arrays of 0 to 40,000 elements from both encoders, narrow and wide, in all layouts; indices at, below and beyond the end, up to usize::MAX; iteration in full and in parts with size hints at each step. Distinct by the hash of the array and layout.",
     must=["iterator_laws_checked", "arrays_beyond_16_bits", "elements_compared", "partial_iterations", "wide_arrays_read", "arrays_read"])

prop("C12", "A key table is a bijection that only grows, within its limits",
     "Under any sequence of insertions a key table maps each accepted key to one integer and back, numbering keys densely in the order of insertion, and never changes an existing mapping. "
     "Exactly the eligible keys (at most 16 bytes of letters, digits, '_' and '-') are accepted while there is room for 2048, a known key is always found even when the table is full, and lookups never confuse similar keys. "
     "Clones are equal and independent.",
     ["histories", "inputs"], "All sequences of insertions, lookups and clones, over all strings.",
     "One test inserts two dozen fixed keys; limits, truncation and ineligible keys are never reached.",
     ["src/shared_keys.rs"],
     [("encode / encode_and_insert / decode / can_add", "src/shared_keys.rs")],
     "runtime monitoring: online checker against a model table after every operation, with ASan",
     "Sequences of 150 operations over families of keys around the length limit, NULs, prefixes, non-ASCII letters, and tables filled to the limit; each result and, at intervals, the whole table are compared with a model. Distinct by the hash of the sequence.",
     must=["iterator_laws_checked", "keys_added", "keys_known", "keys_refused_as_ineligible", "keys_refused_because_full", "tables_filled", "clones_checked", "table_entries_checked"])

prop("C13", "A key table survives saving and restoring",
     "Restoring a key table from its saved state gives a table with the same keys under the same integers, so that documents written before can be read with it, and the saved states of a growing table extend each other. "
     "A state that is not a list of eligible strings is refused without panic.",
     ["histories", "inputs"], "All tables up to the limit; all states of other origins.",
     "Tests save and restore a small table once.",
     ["src/shared_keys.rs", "src/encoder/mod.rs", "src/value/array.rs"],
     [("get_state_bytes / write_state", "src/shared_keys.rs"), ("from_state_bytes / from_state_value", "src/shared_keys.rs")],
     "runtime monitoring: differential oracle on restored tables and on documents read with them, with ASan",
     "Tables of 0 to 2048 keys are saved, restored, grown and saved again, and compared entry by entry; documents that were written earlier are read with them; states laid out by the reference encoder and wrong states (other types, ineligible, too long keys) are given. Distinct by the hash of the table.",
     must=["iterator_laws_checked", "tables_restored", "wrong_states_refused", "documents_compared", "dicts_with_shared_keys_read", "state_keys_max"])

prop("C14", "Documents with shared keys mean the same as documents without",
     "A document written with a key table and opened in a scope of it has the same content as the document written without, whatever the state of the table before, the mixture of eligible and ineligible keys and the fullness of the table. "
     "Documents that were written earlier with the same growing table stay readable with it.",
     ["histories", "inputs"], "All documents times all histories of the table.",
     "One test writes one document with a fresh table.",
     ["src/encoder/mod.rs", "src/shared_keys.rs", "src/scope.rs", "src/value/dict.rs"],
     [("_write_key", "src/encoder/mod.rs"), ("find_shared_keys", "src/scope.rs"), ("get / get_with_shared_keys / iter", "src/value/dict.rs")],
     "runtime monitoring: metamorphic oracle (with and without shared keys) over histories of documents, with ASan",
     "Histories of documents over one growing table, up to full, each compared with its plain encoding and its model; earlier documents are read again with later tables. Distinct by the hash of the history.",
     must=["shared_documents_compared", "earlier_documents_read", "old_documents_read_with_newer_tables", "inlined_keys_added_later", "dicts_with_shared_keys", "shared_keys_found"])

prop("C15", "Scope lookup finds the live scope that contains an address",
     "At any moment looking up an address returns the scope which is live, registered and contains it, with its own key table and data, and nothing for any other address. "
     "Creating, dropping or removing one scope never affects another, also when memory is reused by a later scope; values of a scope read correctly while it lives and its root stays readable after.",
     ["histories"], "All sequences of creating, dropping, removing, cloning and looking up scopes, over all sizes of data and patterns of memory reuse.",
     "Tests create one scope at a time, and none looks up a dead one.",
     ["src/scope.rs", "src/encoder/mod.rs", "src/value/dict.rs"],
     [("registry of ranges", "src/scope.rs:SCOPE_MAP"), ("new / remove / containing / find_shared_keys", "src/scope.rs")],
     "runtime monitoring: online checker against a model registry of address ranges, with ASan/LSan and TSan",
     "Histories of creations (sizes from 0, so that the allocator reuses addresses), drops, removals and lookups of the first, last, inner, outside and freed addresses of each scope, a part of them carried out by a second thread while the first waits; each answer is compared with a model. Distinct by the hash of the history.",
     assumptions=["No two live scopes are made over the same shared buffer."],
     must=["scopes_created", "scopes_dropped", "scopes_removed", "reused_addresses_looked_up", "freed_pointers_looked_up", "pointers_outside_looked_up", "roots_read_after_drop", "scopes_reopened", "operations_by_a_second_thread"],
     state=[("SCOPE_MAP", "address range -> weak scope", "src/scope.rs")])

prop("C16", "Scopes can be used from many threads at once",
     "When threads create, use, remove and drop scopes concurrently, each thread's reads of its own documents are always correct, and every lookup result is explained by some moment during the call: a scope found contained the address and was live, and a scope that was live throughout is found. "
     "There are no data races, deadlocks or panics.",
     ["schedules", "histories"], "All interleavings of threads that create, look up, read, remove and drop scopes.",
     "Tests are single-threaded in this respect.",
     ["src/scope.rs", "src/value/dict.rs", "src/alloced.rs", "src/shared_keys.rs"],
     [("sharded lock around the registry", "src/scope.rs"), ("weak references", "src/scope.rs:ScopeEntry"), ("unsafe impl Send / Sync", "src/scope.rs, src/alloced.rs")],
     "runtime monitoring: TSan, and an offline interval checker over recorded event logs of stressed threads",
     "2 to 8 threads run random operations with injected yields and delays; every operation is logged with its begin and end stamps of a global counter, and a checker decides offline whether each lookup is explained. Documents are read and compared under churn. Distinct by the hash of the event log (the observed interleaving).",
     assumptions=["Threads own the scopes which they remove."],
     must=["lookups_checked", "lookups_explained_by_a_live_scope", "lookups_explained_by_a_gone_scope", "thread_switches_observed", "documents_read_under_churn", "scopes_dropped", "scopes_removed"])

prop("C17", "Owned values stay valid and unchanged, and release their memory",
     "An owned value, array, dict, or value of a scope can be cloned, moved to other threads, narrowed to its parts and kept after its source is gone, and always shows the same content. "
     "Its memory is released exactly once, when the last owner goes, with no use after free, double free or leak, and no two owners interfere.",
     ["histories", "schedules"], "All sequences and interleavings of cloning, converting, moving between threads, reading and dropping.",
     "Tests keep one owned value for a few lines; memory errors are invisible without instrumentation.",
     ["src/alloced.rs", "src/scope.rs", "src/value/mod.rs", "src/mutable.rs", "src/encoder/mod.rs"],
     [("reference-counted buffer and raw pointer", "src/alloced.rs"), ("to_array / to_dict / clone / empty", "src/alloced.rs"), ("clone_from_bytes", "src/value/mod.rs")],
     "runtime monitoring: ASan, LSan, TSan and Miri over ownership histories with heap churn, with content oracles",
     "Histories of creating, cloning, converting, sending to threads, reading and dropping owners, with churn of equal-sized blocks between; each read is compared with the model. Distinct by the hash of the history.",
     must=["only_the_narrowed_value_remains", "narrowed_in_threads", "clones_of_one_value_max", "owned_values_read", "blocks_churned", "keyed_values_read_after_their_scope", "mutable_arrays_read", "bytes_of_scopes_read", "owned_values_compared"],
     note="one known finding: a dict key of the key table, got by iteration, dangles after its scope is dropped")

prop("C18", "A mutable array behaves like a list of values",
     "Under any sequence of operations (append, set, remove, embed existing values and collections, read, change nested collections, iterate, clone) a mutable array shows the same content, length and results as a plain list would, "
     "at any point and for every kind of value. Positions out of range yield nothing on reading and removal.",
     ["histories", "inputs"], "All sequences of operations over all values.",
     "Two tests run a dozen fixed operations.",
     ["src/mutable/array.rs", "src/mutable.rs", "src/encoder/encodable.rs"],
     [("MutableArray", "src/mutable/array.rs"), ("value slots", "src/mutable.rs:ValueSlot")],
     "runtime monitoring: online checker against a model list after every operation, with ASan/LSan",
     "Sequences of operations on mutable arrays which are new or copied from documents, with nested collections; each result and the whole content are compared with a model. Distinct by the hash of the sequence.",
     must=["iterator_laws_checked", "mutations", "models_compared", "mutable_arrays_read", "mutable_dicts_read", "constant_values", "large_mutables", "mutable_arrays_beyond_16_bits"])

prop("C19", "A mutable dict behaves like a map of values",
     "Under any sequence of operations (insert, replace, remove, embed collections, read, test for keys, change nested collections, iterate, clone) a mutable dict shows the same entries, length and results as a plain map would, "
     "at any point, for every kind of key and value, with and without shared keys.",
     ["histories", "inputs"], "All sequences of operations over all keys and values.",
     "Two tests run a dozen fixed operations.",
     ["src/mutable/dict.rs", "src/mutable.rs", "src/encoder/encodable.rs"],
     [("MutableDict", "src/mutable/dict.rs"), ("value slots", "src/mutable.rs:ValueSlot")],
     "runtime monitoring: online checker against a model map after every operation, with ASan/LSan",
     "Sequences of operations on mutable dicts which are new or copied from documents, with nested collections; each result and the whole content are compared with a model. Distinct by the hash of the sequence.",
     must=["iterator_laws_checked", "mutations", "models_compared", "mutable_dicts_read", "shared_key_documents_encoded", "large_mutables", "mutable_dicts_beyond_16_bits"])

prop("C20", "Mutable copies equal their source and are independent of it",
     "A mutable copy of any document or part of one has the same content at every depth, and stays valid after the source is gone. "
     "Changing a copy, or anything nested in it, changes neither the source, nor another copy, nor a clone of it, and a change shows up only where it was made.",
     ["histories", "inputs"], "All documents, all sequences of copying, cloning and changing at all depths.",
     "Tests change one copy and look at that copy only.",
     ["src/mutable.rs", "src/mutable/array.rs", "src/mutable/dict.rs"],
     [("ValueSlot::new_from_fleece / clone", "src/mutable.rs"), ("clone_from / from_scope", "src/mutable/array.rs, src/mutable/dict.rs")],
     "runtime monitoring: model-based online checker of several aliased-looking copies, with ASan/LSan",
     GEN + REFENC + "Several copies and clones are changed in turns; after each round all of them and the source are compared with their models. Distinct by the hash of the history.",
     must=["iterator_laws_checked", "copies_compared", "mutations", "models_compared", "dicts_with_shared_keys_read", "wide_arrays_read", "sources_beyond_16_bits"])

prop("C21", "Re-encoding an existing value preserves it",
     "Writing any value that was read from any document into an encoder, at any place of the new document, gives an equal value there, whatever the layout, scope or key table of the source and of the destination.",
     ["inputs"], "All source documents and layouts, all destinations, all combinations of key tables.",
     "No test copies a value of one document to another.",
     ["src/encoder/mod.rs", "src/value/array.rs", "src/value/dict.rs"],
     [("write_fleece", "src/encoder/mod.rs"), ("iteration of dicts with shared keys", "src/value/dict.rs")],
     T_DIFF,
     GEN + REFENC + "Values of documents of both encoders, with and without key tables, are written into new documents with and without key tables, opened and compared with the model, and the bytes are checked by the strict decoder. Distinct by the hash of source and destination.",
     must=["documents_reencoded", "shared_keys_written", "dicts_with_shared_keys_read", "ref_documents_decoded", "refenc_pointers_to_pointers", "sources_beyond_16_bits"])

prop("C22", "Serde values survive serialization and deserialization",
     "For every value of every type within the serde data model that the format can express (structs, tuples, newtypes, options, maps with string, char, integer and boolean-like keys where supported, sequences, all enum variant kinds, bytes, strings, chars, numbers), "
     "deserializing what serialization made gives an equal value.",
     ["inputs", "programs"], "All types of the supported data model, nested arbitrarily, and all their values.",
     "Two tests round-trip one struct; the data model is a product of kinds that they do not touch.",
     ["src/ser.rs", "src/de.rs"],
     [("Serializer", "src/ser.rs"), ("Deserializer", "src/de.rs")],
     "runtime monitoring: round-trip oracle over generated types (a dynamic serde type interpreter) and values, with ASan",
     "Types are generated at random to depth 6 and interpreted by seeds that drive serde exactly as derived code does; values of each are serialized, deserialized and compared; derived types are used as well. Distinct by the hash of type and value.",
     assumptions=["Lossy by design and left out: Option of unit-like and Option of Option."],
     must=["values_compared", "derived_values_compared", "leaves_serialized", "characters_round_tripped", "large_typed_values"])

prop("C23", "Serde with shared keys gives the same values as without",
     "Serializing with a key table and deserializing in its scope gives the same value as without a table, for every type and value and every state of the table. "
     "The keys that were added are usable by later documents, and earlier ones remain readable.",
     ["histories", "inputs"], "All types and values times all histories of the table.",
     "One test uses one struct and a fresh table.",
     ["src/ser.rs", "src/de.rs", "src/shared_keys.rs", "src/scope.rs"],
     [("to_bytes_with_shared_keys / scoped", "src/ser.rs"), ("map and struct access", "src/de.rs"), ("find_shared_keys", "src/scope.rs")],
     "runtime monitoring: metamorphic oracle (with and without shared keys) over generated types, with ASan",
     "As for C22, over histories that share one growing table. Distinct by the hash of type and value.",
     must=["derived_values_compared", "values_compared", "shared_keys_used", "dicts_with_shared_keys_read", "large_typed_values"])

prop("C24", "Serde refuses what does not fit, and never panics",
     "Serializing something that the format cannot express returns an error, and deserializing a document into a type that does not fit it, or with keys that its table does not have, returns an error, instead of a panic or a wrong value. "
     "A document that does fit is accepted with the right value; hostile bytes give an error or a value, never a panic.",
     ["inputs", "programs"], "All pairs of documents and target types.",
     "Tests deserialize only into the type that was serialized.",
     ["src/ser.rs", "src/de.rs", "src/error.rs"],
     [("type checks of the visitors", "src/de.rs"), ("MapKeySerializer", "src/ser.rs")],
     "runtime monitoring: three-valued mismatch oracle over generated pairs of type and document, with ASan",
     "Values are serialized as one generated type and deserialized as another; an oracle says for each pair whether it must succeed (and with what value), must fail, or may do either. Distinct by the hash of the pair.",
     must=["keys_beyond_the_table", "mismatch_accepted", "mismatch_rejected", "odd_values_rejected", "malformed_rejected", "malformed_values_read", "failing_values", "scalar_roots_rejected", "large_typed_values"])

prop("C25", "Serde and the plain API describe the same documents",
     "A serialized value read by the plain API has the documented shape (structs and maps as dicts of their field names, sequences and tuples as arrays, enums by their variant name, options as null or the value). "
     "A document built by the plain API, or by another conforming writer, deserializes to the value that shape denotes, however its entries are asked for, and the number of elements that are said to remain is right.",
     ["inputs", "programs"], "All types and values, all layouts.",
     "Tests never mix the two APIs except for one fixture.",
     ["src/ser.rs", "src/de.rs", "src/value/mod.rs"],
     [("Serializer", "src/ser.rs"), ("Deserializer", "src/de.rs")],
     "runtime monitoring: differential oracle between serde, the plain API and an independent encoder, with ASan",
     "Values of generated types are serialized and read by the plain API and the strict decoder against the shape that the type denotes, and are laid out by the reference encoder and deserialized. Distinct by the hash of type and value.",
     must=["size_hints_of_what_remains_checked", "values_compared", "documents_compared", "ref_documents_decoded", "refenc_pointers_to_pointers", "unknown_fields", "large_typed_values"])

prop("C26", "Documents and key tables can be read by many threads at once",
     "Any number of threads may read the same document, owned value, mutable collection or key table at the same time, and each gets what a single thread gets, without a data race. "
     "Encoders, serializers, mutable copies and copies of key tables in different threads do not influence each other or what they were made from.",
     ["schedules", "inputs"], "All interleavings of readers of shared objects, and of independent writers, in any number of threads.",
     "The tests are single-threaded.",
     ["src/alloced.rs", "src/shared_keys.rs", "src/scope.rs", "src/value/dict.rs", "src/encoder/mod.rs", "src/mutable/dict.rs"],
     [("Send and Sync of owned values and scopes", "src/alloced.rs, src/scope.rs"), ("key table, encoding and decoding", "src/shared_keys.rs"), ("lookup, which finds the scope", "src/value/dict.rs")],
     "runtime monitoring: TSan and a reference model in each thread, over shared objects under stress; determinism compared with one thread",
     "2 to 8 threads start together and pick operations on what they share: complete reads through all accessors, lookups, clones, mutable copies, re-encoding, serde, the key table in both directions, while each also encodes and grows documents and tables of its own. Each result is compared with the model or with the bytes that one thread made. Distinct by the hash of the documents and the number of threads.",
     must=["shared_documents_read", "shared_owned_values_read", "shared_tables_read", "copies_of_shared_tables_grown", "shared_documents_copied", "shared_mutables_read",
           "shared_documents_reencoded", "encodings_compared", "shared_serde_documents_read", "operations_overlapped_by_others", "operations_in_storms"])

prop("C27", "Lookups stay logarithmic, opening linear, and reading copies nothing",
     "The cost of looking up a key grows at most with the logarithm of the number of entries (also in mutable dicts and for live scopes), indexing and key table access do not depend on the size, and opening, iterating, copying and re-encoding grow linearly, encoding and serde at most as sorting does. "
     "Opening and reading allocate no memory in proportion to the document, and owned copies hold it once.",
     ["inputs", "configurations"], "All documents of values that are referenced once, all sizes, key sets, layouts and numbers of live scopes.",
     "Tests are small and look at results only; a linear search gives the right result.",
     ["src/value/dict.rs", "src/value/array.rs", "src/value/mod.rs", "src/encoder/mod.rs", "src/encoder/value_stack.rs", "src/scope.rs", "src/shared_keys.rs", "src/mutable/dict.rs", "src/mutable/array.rs", "src/ser.rs", "src/de.rs"],
     [("binary search", "src/value/dict.rs:_get"), ("validation", "src/value/mod.rs:validate"), ("sorting of keys", "src/encoder/mod.rs"), ("registry of scopes", "src/scope.rs"), ("key table", "src/shared_keys.rs")],
     "runtime monitoring: a branch counter at each edge (sancov) and a counting allocator, with bounds relative to the same operation on small inputs",
     "The variant `cost` counts the executed edges of the control flow and the allocated bytes of single operations, which is deterministic. Each operation is measured on a small and a large instance (24 to 400 times as large), and the ratio compared with the bound of its growth, with a factor of 4 to spare. Distinct by kind, layout and sizes.",
     ["work inside the standard library's precompiled functions (memcpy, memcmp) is not counted"],
     must=["operations_measured", "logarithmic_bounds_checked", "constant_bounds_checked", "linear_bounds_checked", "in_place_bounds_checked", "edges_counted"])


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}, ensure_ascii=False) + "\n")
    with open(os.path.join(V, "rules.json"), "w") as f:
        json.dump({p["id"]: {"rule": p["rule"], "assumptions": p["assumptions"], "must_observe": p["must"]} for p in P}, f, indent=1)
        f.write("\n")
    m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": [], "not_applicable": []}
    for p in P:
        note = ("Generated workloads on the real code, judged by a monitor on every execution; counts of what it observed are in the evidence. "
                "Not a proof: inputs and schedules are sampled, with enumeration only of small spaces.")
        m["checks"].append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
                            "technique": p["technique"], "level": "exploration", "level_note": note + (f" With {p['note']}." if p["note"] else "")})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


if __name__ == "__main__":
    main()
