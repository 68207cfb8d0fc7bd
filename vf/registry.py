M, X = "model_checking", "exploration"
CHECKS = {
    "C01": ("checks_codec", "c01", X), "C02": ("checks_codec", "c02", X), "C03": ("checks_codec", "c03", X),
    "C04": ("checks_codec", "c04", M), "C05": ("checks_codec", "c05", M), "C06": ("checks_codec", "c06", M), "C07": ("checks_codec", "c07", M),
    "C08": ("checks_codec", "c08", X), "C09": ("checks_codec", "c09", M), "C10": ("checks_codec", "c10", X),
    "G01": ("checks_ids", "g01", X), "G02": ("checks_ids", "g02", X), "G03": ("checks_gen", "c03g", M), "G04": ("checks_gen", "c04g", X), "G05": ("checks_wf", "g05", X), "G06": ("checks_wf", "g06", M), "G07": ("checks_cli", "g07", X), "G08": ("checks_cli", "g08", X), "G09": ("checks_wf", "g09", X),
    "G10": ("checks_compile", "g10", X), "E01": ("checks_e2e", "e01", M),
    "N01": ("checks_prod", "n01", M), "N02": ("checks_prod", "n02", M), "N03": ("checks_prod", "n03", M), "N04": ("checks_prod", "n04", M),
    "R01": ("checks_prod", "r01", M), "R02": ("checks_prod", "r02", M), "R03": ("checks_prod", "r03", M), "R04": ("checks_prod", "r04", M), "R05": ("checks_prod", "r05", M), "R06": ("checks_prod", "r06", M),
    "T01": ("checks_ts", "t01", M), "T02": ("checks_ts", "t02", M), "T03": ("checks_ts", "t03", M), "T04": ("checks_ts", "t04", M), "T05": ("checks_ts", "t05", M),
}
PROD = ("explicit-state exploration of the real generated producer under a controlled executor; every observed run is decided against a reference machine", "The generated Rust runs unmodified on a stand-in transport; the harness polls it itself and owns every random choice of tokio's select!. All scripts within the bounds, all choices within the deviation bound; handlers suspend only where the script says; preemption inside a poll does not exist (one task).")
NOTES = {
    "C01": ("bounded exhaustive enumeration of types and values on the generated Rust code", "Exhaustive over the stated schemas and boundary values, run on the real generated code; values outside the alphabet are not covered."),
    "C02": ("bounded exhaustive enumeration of types and values on the generated TypeScript code", "Exhaustive over the stated schemas and boundary values, run on the real generated code under Node; values outside the alphabet are not covered."),
    "C03": ("bounded exhaustive differential enumeration of both generated codecs", "Each language is the oracle of the other on every enumerated value and package; values outside the alphabet are not covered."),
    "C04": ("exhaustive exploration of all chunkings of bounded streams on the real reader", "All cuts within the stated bounds, three reading disciplines, against the obvious reference reader."),
    "C05": ("exhaustive exploration of all chunkings of bounded streams on the real reader", "All cuts within the stated bounds, three reading disciplines, against the obvious reference reader."),
    "C06": ("exhaustive fault enumeration: corruptions of bodies, bad packages in streams", "All single corruptions from the stated sets and all placements of bad packages in bounded streams; panics, overflows and oversized allocations are monitored."),
    "C07": ("exhaustive fault enumeration: corruptions of bodies, bad packages in streams", "All single corruptions from the stated sets and all placements of bad packages in bounded streams; throws and endless loops (time limit) are monitored."),
    "C08": ("exhaustive enumeration of field orders, insertions and removals in both decoders", "All permutations up to four fields, all insertions of one unknown field, all removals of one or two."),
    "C09": ("exhaustive exploration of package sequences x middleware behaviours x chunkings", "All sequences of up to three packages with every behaviour per package; the middleware interface is synchronous."),
    "C10": ("exhaustive enumeration of probe values over every field of every type", "Every probe on every field against an independent conformance predicate; NaN/infinities and empty enum objects are left unspecified."),
    "G03": ("explicit-state exploration of a reference acceptor with conformance replay of every trace on the generator", "Every state of the acceptor within the nesting bound and every continuation within the token bound, plus every one-token edit of two documents; duplicate names and keywords as names are left unspecified."),
    "G04": ("exhaustive enumeration of scopes, declarations and reference paths", "All placements of one type name over six scopes with all reference paths and uses; the outputs are read back and an evenly spread part is typed by rustc and tsc."),
    "G05": ("exhaustive enumeration of reference places, names and pairs of definitions against a reference acceptor", "Every place x every name of the list and every ordered pair of definitions; accepted workflows are compared with what all four outputs contain."),
    "G06": ("explicit-state exploration of a reference acceptor with conformance replay of every trace on the generator", "Every state of the acceptor, every continuation within the token bound, every one-token edit of two documents; accepted texts are compared with what all four outputs contain."),
    "G01": ("exhaustive enumeration of protocol shapes; identifiers read out of every output and executed", "Every ordered forest of declarations within the bound, in all combinations of outputs; identifiers are read from the outputs and exercised by packing and reading every message."),
    "G02": ("exhaustive enumeration of single edits of two texts, all hashes in all outputs compared", "Every white-space edit and the listed content edits, texts around buffer sizes; hash strength itself (SHA-256) is not examined."),
    "G07": ("exhaustive exploration of command lines x file system states x faults on the real CLI, file trees compared before and after", "Every combination of the listed states of sources, destinations and options; disk faults in the middle of writing are not injected."),
    "G08": ("exhaustive enumeration of regeneration histories over user edits of generated files", "Every generated file edited, deleted or replaced one at a time and in the listed combinations, trees compared after every generation."),
    "G09": ("exhaustive enumeration of workflows, diagram compared with the declared interactions", "All request bodies by structure and all pairs of events x beacons x requests within the bounds."),
}
NOTES["G10"] = ("exhaustive enumeration of shapes of the two languages, both compilers decide", "Every field and option shape and every feature of a workflow alone, and combinations within the stated bounds; names stay clear of the reserved words of the target languages and of the names of the generated code.")
NOTES["E01"] = ("exploration of all orders of inputs of a producer and its consumers in both languages, with sleep sets, on the real generated code", "Producer and consumers run unmodified, the harness carries the data between them and owns every delivery; orders that differ only in inputs of different agents are explored once; the stated number of deviations (inputs in one burst, joined and cut buffers) bounds the rest.")
CONS = ("explicit-state exploration of the real generated consumer under a controlled executor; every observed run is decided against a reference machine", "The generated Rust runs unmodified on a stand-in transport, on a single-threaded runtime with virtual time; the harness decides after how many turns of the scheduler each input comes and owns every random choice of tokio's select!. All scripts within the bounds, all choices within the deviation bound; handlers suspend only where the script says; the order in which the runtime polls tasks which are ready at the same time is the runtime's own.")
for _p in ("N01", "N02", "N03", "N04"): NOTES[_p] = CONS
for _p in ("R01", "R02", "R03", "R04", "R05", "R06"): NOTES[_p] = PROD
for _p, _k in (("T01", "producer"), ("T02", "consumer"), ("T03", "producer"), ("T04", "producer"), ("T05", "consumer")): NOTES[_p] = ("explicit-state exploration of the real generated TypeScript %s, script by script under Node; every observed run is decided against a reference machine" % _k, "The generated TypeScript runs unmodified on a stand-in transport; the harness decides when each input comes, down to turns of the microtask queue. All scripts within the bounds; handlers throw only asynchronously; only what is observable through the transport, handlers and promises is judged.")
NA = {}
