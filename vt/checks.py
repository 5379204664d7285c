def J(variant, harness, mode, quick, thorough=None, **kw):
    d = dict(variant=variant, harness=harness, mode=mode, quick=quick, thorough=quick * 25 if thorough is None else thorough)
    d.update(kw)
    return d


CHECKS = {
    "C01": dict(
        jobs=[J("asan", "h_ser", "roundtrip", 24000), J("asan", "h_ser", "vectors", 6000),
              J("asan", "h_ser", "partial", 10000), J("asan", "h_ser", "prims", 30000)],
        need=["refills", "flushes", "direct_in", "direct_out", "dirty_targets", "ranges", "sizes", "strings", "substrings", "statuses", "bitsets"],
        rule="random type and value (independent model), random byte order, buffer sizes 16..8192 bytes, random early flushes, "
             "refill chunks and direct transfers, fresh or already filled target; distinct = type+value+segmentation",
    ),
    "C02": dict(
        jobs=[J("asan", "h_ser", "wire", 30000), J("asan", "h_ser", "wiretype", 20000), J("asan", "h_ser", "prims", 15000)],
        need=["wire_values", "wire_types", "statuses", "bitsets"],
        rule="random type and value; bytes compared with an encoder written independently from the pvAccess data encoding; "
             "distinct = type+value+byte order",
    ),
    "C03": dict(
        jobs=[J("asan", "h_ser", "types", 30000), J("asan", "h_ser", "collide", 4000)],
        need=["types_equal", "types_different", "hash_collisions", "collided", "type_ids", "kinds"],
        rule="random type, decoded/rebuilt copies, a mutant differing in one place, an unrelated type; pairs of types whose descriptions have the same 32 bit hash; distinct = type+mutant",
    ),
    "C04": dict(
        jobs=[J("asan", "h_hostile", "values", 40000), J("asan", "h_hostile", "types", 30000), J("asan", "h_hostile", "prims", 20000),
              J("asan", "h_hostile", "updates", 15000), J("asan", "h_hostile", "faults", 10000), J("asan", "h_hostile", "nested", 60),
              J("asan", "h_hostile", "bomb", 1, 1)],
        need=["accepted", "rejected", "types_accepted", "types_rejected", "exercised", "updates_rejected", "receive_failed", "send_failed", "deep_types",
              "wrong_types", "wrong_sizes", "wrong_names", "wrong_lengths", "wrong_selectors"],
        rule="valid encodings mutated (bit flips, truncation, splices, tampered sizes and type codes), encodings which go wrong at one place in a way that fits the grammar, random bytes, failing transports; "
             "verdict and value compared with a reference decoder, object exercised afterwards; distinct = type + bytes",
    ),
    "C05": dict(
        jobs=[J("asan", "h_bits", "update", 30000)],
        need=["updates", "fields_sent", "fields_kept"],
        rule="random structure, contents, masks (with structure bits, bits outside, all/none), several rounds on one replica, whole or "
             "sub-structure; bytes and merged result compared with the model; distinct = type + mask + root",
    ),
    "C06": dict(
        jobs=[J("asan", "h_bits", "bitset", 25000)],
        need=["bit_ops"],
        rule="random operation histories over three sets mirrored in std::set, all queries after every step; distinct = history",
    ),
    "C18": dict(
        jobs=[J("asan", "h_req", "grammar", 12000), J("asan", "h_req", "broken", 12000), J("asan", "h_req", "hostile", 12000), J("asan", "h_req", "big", 48, 400)],
        need=["accepted", "refused", "broken_balance", "broken_duplicate", "broken_empty", "broken_name", "broken_option", "hostile_accepted",
              "hostile_refused", "reused", "big_lists", "deep_refused"],
        rule="random request tree written with random blanks, braces or dots, section order and separators: the structure and option values are those of the "
             "tree; requests with one thing made wrong are refused; token soup, mutated requests, very long and very deep requests do no damage and leave the "
             "parser usable; distinct = text",
    ),
    "C19": dict(
        jobs=[J("asan", "h_req", "mapper", 40000)],
        need=["large_bases", "fields_copied", "invalid_requests", "kept_after_failure", "mapper_copies", "masked", "sliced", "not_top", "partial_transfers", "warned", "truncated"],
        rule="random base structure and request (missing fields, options, selections below leaves, deeper than the limit, malformed), both modes, fresh, "
             "copied, swapped and re-computed mappers; random masks and contents in both directions compared with the model; distinct = structure + request",
    ),
    "C20": dict(
        jobs=[J("asan", "h_bits", "compress", 60000)],
        need=["compressed", "unchanged"],
        rule="random structure and mask; distinct = structure + mask",
    ),
    "C07": dict(
        jobs=[J("tsan", "h_mt", "first", 96, 400, per=1), J("asan", "h_mt", "first", 24, 100, per=1), J("tsan", "h_mt", "shared", 600, par=6),
              J("asan", "h_mt", "shared", 1500, par=6), J("tsan", "h_mt", "sharedvalues", 300, par=6), J("asan", "h_mt", "sharedvalues", 500, par=6),
              J("asan", "h_mt", "many", 160), J("tsan", "h_mt", "many", 40)],
        need=["many_again", "first_uses", "types_created", "types_decoded", "types_printed", "types_encoded", "equal_types", "different_types", "handed_over", "dropped",
              "values", "clones", "values_encoded", "values_decoded", "standard_types", "standard_values", "converted", "quiescent_counts", "delays_injected"],
        rule="several threads build, decode, print, encode, compare, hand over and drop the types of one small pool (mutants, types with equal hashes, types "
             "containing each other) and values of them; the first use of every creator from all threads at once (one process per case); up to 5000 types "
             "alive at once; random delays injected at the library's mutex operations; data races by TSan, dead objects by ASan, results by the model; distinct = operations of all threads",
    ),
    "C08": dict(
        jobs=[J("asan", "h_value", "offsets", 24000)],
        need=["long_chains", "fields", "missing_names", "missing_offsets", "typed_lookups", "type_lookups"],
        rule="random structure type built through every creation path (sub-structures queried before they join a parent); every field and "
             "every offset/name from every structure; distinct = type + path",
    ),
    "C09": dict(
        jobs=[J("asan", "h_value", "clone", 30000), J("asan", "h_value", "copy", 30000), J("asan", "h_value", "masked", 24000), J("asan", "h_value", "frozensource", 20000)],
        need=["received_changes", "clones", "copies", "masked_copies", "self_copies", "mismatches", "independent_changes", "clone_bounds", "frozen_sources", "frozen_fields"],
        rule="random type and value, every clone/copy entry point, then random in-place changes of either side; distinct = value + path",
    ),
    "C10": dict(
        jobs=[J("asan", "h_value", "equal", 40000)],
        need=["equal_pairs", "unequal_pairs", "other_types"],
        rule="three random values of one type differing in zero or few leaves, and a value of another type; distinct = the three values",
    ),
    "C13": dict(
        jobs=[J("asan", "h_value", "unions", 50000)],
        need=["union_ops", "refused", "receive_failed", "guesses"],
        rule="random history of select/set/copy/receive on a random union; distinct = type + history",
    ),
    "C23": dict(
        jobs=[J("asan", "h_value", "immutable", 50000)],
        need=["frozen", "refused", "performed", "handler_checks", "immutable_reads"],
        rule="random structure, subtrees made immutable at random points of a random history of changes; distinct = type + history",
    ),
    "C11": dict(
        jobs=[J("asan", "h_vec", "vectors", 60000), J("asan", "h_vec", "untyped", 24000), J("tsan", "h_vec", "threads", 400, par=4)],
        need=["vector_ops", "frozen", "thawed", "refused", "lifetimes", "failed_copies", "conversions", "untyped", "concurrent_reads"],
        rule="random history over five mutable and five const vectors sharing buffers, mirrored by a reference counted model; failing element "
             "copies, custom deleters; readers and thawers in several threads; distinct = history",
    ),
    "C12": dict(
        jobs=[J("asan", "h_array", "sequence", 60000), J("asan", "h_array", "mismatch", 20000)],
        need=["array_ops", "refused", "appended", "removed", "compressed", "subcopies", "mismatched", "boolean_arrays"],
        rule="random history over three arrays of one element type with different size policies, views kept, extreme arguments; "
             "distinct = history",
    ),
    "C14": dict(
        jobs=[J("asan", "h_conv", "scalar", 60000), J("asan", "h_conv", "array", 30000), J("asan", "h_conv", "lists", 20000), J("asan", "h_conv", "anyscalar", 5000)],
        need=["routes", "converted", "refused", "wrapped", "format_parse", "elements", "too_long", "lists", "structures", "to_lists", "from_lists", "from_short", "anyscalar_ops"],
        rule="random value of one scalar type converted to another through every route (castUnsafe, castUnsafeV, AnyScalar, getAs, putFrom, assign, "
             "Convert, vector conversion), compared with exact 128 bit arithmetic and an independent number parser; valid, broken and "
             "borderline texts; distinct = value + target type",
        note=" Where the documentation leaves the result undefined only agreement of the routes (integers) or nothing (floating point out of range, text at "
             "the edge of the floating point range, negative text into unsigned types) is judged.",
    ),
    "C15": dict(
        jobs=[J("asan", "h_timer", "still", 3000), J("asan", "h_timer", "stress", 1600, par=16, per=50), J("asan", "h_timer", "self", 1200, par=16, per=50),
              J("tsan", "h_timer", "stress", 1200, par=16, per=50), J("tsan", "h_timer", "self", 600, par=16, per=50)],
        need=["cancelled", "refused", "closed", "after_close", "dumps", "one_shots", "periodic_runs", "shared_runs", "cancels", "stops", "early_closes",
              "order_pairs", "long_queues", "cancel_running", "self_runs", "self_scheds", "self_cancels", "delays_injected"],
        rule="(1) one thread, nothing due, exact model; (2) one to four threads scheduling, cancelling and asking about their own and shared callbacks "
             "while callbacks run and the timer is closed, operations and callback events recorded in one global order and judged offline (each accepted "
             "scheduling has exactly one fate, not early, in order of expiration, one at a time, answers agree with the record, nothing after close); "
             "(3) callbacks which drive the timer themselves, exact model on the timer's thread. Random delays injected at the library's mutex and event "
             "operations; distinct = order of events",
        note=" 'Early' is judged with 2 us tolerance on two clocks; a callback which does not run within 30 s counts as lost.",
    ),
    "C16": dict(
        jobs=[J("asan", "h_json", "print", 24000)],
        need=["printed", "masked", "substructures", "not_printable", "nothing_selected", "round_trips", "identities", "not_parsable"],
        rule="random type, value, selection and print options; text read by an independent JSON/JSON5 reader and compared field by field with the "
             "value, then parsed back and compared with an independent model of parsing; distinct = value + options + selection",
    ),
    "C17": dict(
        jobs=[J("asan", "h_json", "into", 20000), J("asan", "h_json", "any", 30000), J("asan", "h_json", "garbage", 12000)],
        need=["into_accepted", "into_rejected", "any_accepted", "any_rejected", "garbage_accepted", "garbage_rejected", "still_json", "broken_streams", "deep"],
        rule="documents generated for a random target (with wrong kinds, names, nesting) or freely, written with random blanks, comments, escapes and "
             "JSON5 forms over many lines, or damaged; failing streams; verdict, value, assigned bits and untouched fields compared with a model; "
             "distinct = text (+ target type)",
    ),
    "C21": dict(
        jobs=[J("asan", "h_build", "field", 20000), J("asan", "h_build", "value", 20000), J("asan", "h_build", "create", 8000), J("asan", "h_build", "standard", 12000)],
        need=["continued", "ended", "extended", "ids", "members", "nested", "refused", "refused_duplicates", "refused_invalid", "refused_nested",
              "misplaced_create", "misplaced_end", "repeated_members", "reused", "structures", "unions", "built", "built_changed", "cloned", "refused_clone",
              "replaced", "structures_added", "misplaced_build", "appended", "assembled", "clones", "invalid_lists", "standard_types", "value_alarms"],
        rule="random program of builder calls (every call of FieldBuilder, ValueBuilder, FieldCreate, PVDataCreate and the standard type factories, "
             "misplaced and invalid ones included, continued and reused builders, extension of earlier types), interpreted by an independent model; the type, "
             "the value and every refusal compared, types built earlier read again; distinct = program",
    ),
    "C22": dict(
        jobs=[J("asan", "h_leak", "conserve", 5000), J("asan", "h_leak", "refuse", 5000), J("asan", "h_leak", "counts", 5000), J("asan", "h_leak", "snapshot", 2000),
              J("asan", "h_leak", "life", 2000), J("asan", "h_leak", "threads", 300, par=8), J("tsan", "h_leak", "threads", 300, par=8),
              J("tsan", "h_leak", "snapshot", 1000), J("tsan", "h_leak", "life", 1000)],
        need=["blocks_balanced", "work_sync", "faults", "allocations", "counter_checks", "failures", "registered", "unregistered", "snapshots", "shown", "monitor_runs",
              "concurrent_works", "concurrent_snapshots", "concurrent_registrations", "thread_checks", "timers", "delays_injected"],
        rule="one of the kinds of work (types, values, copies, encoding, damaged decoding, JSON, requests, mapping, builders, conversion, properties, bit sets, locks and events) "
             "repeated with every block of memory counted, or with the n-th request for memory refused at each n, or with an error half way; "
             "instance counters compared with the numbers of objects held by the workload; the same from several threads under TSan while others register, "
             "read and snapshot counters; distinct = work + fault",
        note=" gcc 13 destroys the elements of a new array twice if a later part of the same member initializer throws: the request for memory right after an "
             "array new is not refused.",
    ),
    "C24": dict(
        jobs=[J("asan", "h_print", "value", 16000), J("asan", "h_print", "type", 20000), J("asan", "h_print", "format", 16000), J("asan", "h_print", "text", 30000),
              J("asan", "h_print", "small", 30000), J("asan", "h_print", "faults", 1500)],
        need=["values", "equal_values", "members", "elements", "types", "as_json", "as_nt", "raw", "highlighted", "nt_scalars", "nt_arrays", "nt_enums", "tables",
              "substructures", "escaped", "quoted", "anyscalars", "bitsets", "kinds", "statuses", "vectors", "faults_silent", "faults_thrown"],
        rule="random type and value (well known structures with wrong members among them), random formatting, indentation, selection, highlighting, format and "
             "mode; the text compared with an independent model of the layout, escaped text read back by an independent reader, the stream's formatting and "
             "the value compared with before; destinations which fail half way; distinct = value + formatting",
        note=" Members of the recognized structures are integers, strings or booleans when their text is compared (not floats beyond the range of integers).",
    ),
    "C25": dict(
        jobs=[J("asan", "h_prop", "accessors", 40000)],
        need=["attached", "not_attached", "sets", "stored_denormal", "immutable", "nested"],
        rule="random structures with all, all but one or one wrongly typed required field among others, random (also illegal) previous content; "
             "distinct = type + content",
    ),
    "C26": dict(
        jobs=[J("asan", "h_prop", "timestamp", 100000)],
        need=["stamps", "fractions", "added", "milliseconds", "time_t", "far_fractions"],
        rule="random history over three time stamps mirrored in 128 bit nanoseconds, every comparison, difference and conversion after each step; "
             "distinct = history",
        note=" Seconds within 2^61 of the epoch (2^52 for milliseconds), increments in floating point below 5.5e11 s.",
    ),
    "C27": dict(
        jobs=[J("asan", "h_prop", "bytebuffer", 200000)],
        need=["puts", "gets", "indexed", "arrays", "blocks", "orders", "large"],
        rule="random history of put, get, indexed, array and block transfers, flips, limits and byte orders within the documented preconditions, "
             "mirrored byte by byte; distinct = history",
    ),
    "C28": dict(
        jobs=[J("asan", "h_thread", "threads", 1500, par=8), J("tsan", "h_thread", "threads", 1500, par=8), J("asan", "h_thread", "eventlin", 6000, par=8),
              J("tsan", "h_thread", "eventlin", 3000, par=8), J("tsan", "h_thread", "eventpass", 600, par=8), J("asan", "h_thread", "locks", 600, par=8),
              J("tsan", "h_thread", "locks", 600, par=8), J("asan", "h_thread", "lockseq", 2000, par=8)],
        need=["threads", "joined", "timed_joins", "no_runner", "histories", "signals", "waits_ok", "waits_timed_out", "handovers", "critical_sections",
              "trylock_failed", "trylock_ok", "lock_ops", "delays_injected"],
        rule="random threads through every constructor and configuration, joined by every means at random moments; random histories of one event from "
             "several threads decided by a linearizability checker for a binary event; a token passed around by events; random lock histories from several "
             "threads with unprotected data inside (TSan), and one command at a time against an exact model; random delays injected at mutex and event "
             "operations; distinct = history",
    ),
    "C29": dict(
        jobs=[J("asan", "h_dptr", "ptrs", 20000), J("asan", "h_dptr", "ptrthreads", 600, par=8), J("tsan", "h_dptr", "ptrthreads", 800, par=8)],
        need=["ptr_ops", "ref_sets", "locks", "failed_locks", "weak_copies", "unlinked_dead", "objects", "thread_ops", "quiescent_sets"],
        rule="random history of every operation over strong (three types) and weak pointers and chained objects, lifetimes, counts and reported reference "
             "sets compared with a model after every step; histories in several threads over common objects under TSan, reference sets exact when quiescent; "
             "distinct = history",
    ),
    "C30": dict(
        jobs=[J("asan", "h_prop", "status", 40000)],
        need=["status_checks", "combined"],
        rule="random history of construction, assignment, combination and transfer over four statuses; distinct = history",
    ),
    "C31": dict(
        jobs=[J("asan", "h_any", "any", 24000)],
        need=["made", "made_raw", "assigned", "copied", "self_assigned", "moved", "swapped", "cleared", "changed", "by_field", "converted", "refused", "steps"],
        rule="random history of construction, assignment, copy, move, swap, change in place and transfer through fields over four objects, type and value of "
             "every one compared with a model after every step; distinct = history",
        note=" Conversion is compared with castUnsafeV(), which C14 judges; floats beyond the range of the integer are not converted.",
    ),
    "C34": dict(
        jobs=[J("tsan", "h_iso", "threads", 900, par=6), J("asan", "h_iso", "threads", 600, par=6), J("tsan", "h_iso", "cold", 72, 400, per=1)],
        need=["types", "values", "print", "json", "request", "convert", "build", "props", "bits", "status", "arrays", "texts", "bytes", "repeats", "cold_starts", "delays_injected"],
        rule="11 kinds of work, each on objects of its own and describing all it observes as a text (encoded bytes, printed values, messages of refusals); many in "
             "2 to 5 threads at once, often of one kind or with the same input, with delays at mutex operations, or as the first thing a process does; the texts "
             "compared with those of the same work run alone before and after, data races by TSan; distinct = the texts of a case",
    ),
    "C32": dict(
        jobs=[J("asan", "h_misc", "exceptions", 12000), J("tsan", "h_misc", "exceptions", 3000)],
        need=["thrown", "transferred", "without_site", "again", "shared"],
        rule="random exception type, message, throwing macro and depth of the stack; type, members, message, file, line and frames of what is caught compared with "
             "what was thrown, again after transfer to another thread and for copies; distinct = kind + message + depth",
    ),
    "C33": dict(
        jobs=[J("asan", "h_misc", "testhelpers", 20000)],
        need=["compared", "truths", "shows", "handed", "throws", "methods", "fields", "no_field", "arrays", "same_array", "reports", "with_failures", "all_passed"],
        rule="random sequence of test helpers over random values and fields; the whole output of the run, captured, compared with an independent model of each "
             "helper's verdict and text, and the final verdict with the results; distinct = output",
    ),
}
