#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (so that the two stay in step)."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))

P = []          # (id, title, statement, over, quantifier text, why, files, mechanism, technique, note)
NOT_APPLICABLE = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, technique=technique, note=note))


prop("C01", "Extraction returns exactly what the pathbuilder says is in the data",
     "For every pathbuilder and every N-Quads dump, loading them yields, for each top-level bundle, exactly the resources matching the bundle's path, "
     "each with exactly the field values (text, language and resources along the path) its enabled field paths reach from it, and exactly its child entities, recursively. "
     "No entity, value or child is lost, invented, listed twice or attached to the wrong parent, and n2j's JSON output shows the same.",
     ["inputs", "programs"],
     "all pathbuilders (nested bundles, fields with and without a datatype property, disabled paths, paths that revisit properties) x all dumps (literals, languages, graphs, blank nodes, cycles, shared entities, literals in resource position)",
     "No existing test loads a pathbuilder at all; the graph tests insert one regular chain of triples.",
     ["internal/sparkl/context.go", "internal/sparkl/pathbuilder.go", "internal/sparkl/index.go", "internal/triplestore/igraph/paths.go", "internal/sparkl/storages/memory.go", "cmd/n2j/json.go"],
     "bundle storages filled concurrently from path queries, linked by uri, streamed to an exporter",
     "property-based testing against a reference evaluator",
     "Random pathbuilder/dataset pairs; the oracle is an independent naive evaluator. Domain: data which the loading mask keeps (resources on datatype properties are not data), at most one inverse per property.")

prop("C02", "Caching on disk never changes a result",
     "For every input, loading with a cache directory yields the same entities, values, languages, children, paths, defining triples and alias classes as loading in memory, and fails exactly when loading in memory fails.",
     ["inputs", "configurations"],
     "all pathbuilder/dataset pairs x both storage backends, including uris and values with arbitrary bytes, and arbitrary bundle names",
     "The existing tests run each engine on its own on the same chain of integers, and never compare extraction between the two.",
     ["internal/sparkl/storages/disk.go", "internal/sparkl/storages/memory.go", "internal/sparkl/storages/entity.go", "internal/triplestore/igraph/engine_disk.go", "internal/triplestore/imap/map_disk.go", "internal/sparkl/sparkl.go"],
     "on-disk key/value storages behind the interfaces also implemented in memory",
     "differential property-based testing (memory vs. disk backend)",
     "Both backends run on every generated case in-process, and n2j with and without -cache on files.")

prop("C03", "Resources declared identical are one resource under every name",
     "Whenever statements with a same-as predicate connect a set of uris (in any order, direction, number of steps, with cycles or repetitions), all of them name one resource: statements about any of them count for it, and it is returned once, under one of them, the same for all of them. "
     "Looking up any of its names finds the same entity, and its aliases are exactly its other names; uris which are not connected stay distinct. This holds equally for classes and properties used in the pathbuilder.",
     ["inputs", "histories"],
     "all finite sets of identity statements in any order, interleaved with data, over resources, classes and predicates; all lookups",
     "The existing test identifies disjoint pairs only; chains, merges of merged classes, cycles and aliases in the viewer cache are not reached.",
     ["internal/triplestore/imap/imap.go", "internal/sparkl/index.go", "internal/sparkl/cache.go", "internal/triplestore/igraph/index.go"],
     "labels map to a canonical id, merging rewrites all members; the cache keeps alias lists",
     "property-based testing against a union-find model; metamorphic substitution of names",
     "Identity classes are computed by an independent union-find; extraction is compared with that of data in which every name was replaced by the representative.")

prop("C04", "A statement and its inverse are interchangeable",
     "When two properties are declared inverse of each other, replacing any statement using one of them by the swapped statement using the other never changes which entities, values and children are found. "
     "Statements only known because of an inverse are marked as inferred, statements found in the data are not, and without a declaration nothing is inferred.",
     ["inputs"],
     "all datasets with inverse declarations (also between aliases of properties) x all subsets of statements to swap",
     "Existing tests cover one fixed inverse pair without pathbuilder, mask or identical properties.",
     ["internal/triplestore/igraph/index.go", "internal/sparkl/index.go", "internal/triplestore/igraph/triple.go"],
     "MarkInverse mapping applied while adding triples, with a conflict rule preferring direct statements",
     "metamorphic property-based testing",
     "Random swaps of statements with their inverse; roles are checked against the statements in the input.")

prop("C05", "Dropping irrelevant statements and compacting never change a result",
     "Loading only the statements a pathbuilder can need gives the same entities, values and children as loading all of them, and neither the interval at which storages are compacted nor statements using predicates the pathbuilder does not mention make any difference to the result.",
     ["inputs", "configurations"],
     "all pathbuilder/dataset pairs x masks on or off x compaction intervals x added noise statements",
     "No existing test uses a mask, or more statements than the compaction interval.",
     ["internal/sparkl/index.go", "internal/triplestore/igraph/index.go"],
     "predicate and data masks computed from the pathbuilder; periodic compaction",
     "differential and metamorphic property-based testing",
     "Same case loaded with and without masks, with compaction after every n-th statement, and with noise added.")

prop("C06", "Graph queries return exactly the matching paths, with their evidence",
     "After any sequence of inserted statements, literals, identifications and inverse declarations, a path query returns exactly the paths which exist in the resulting graph, each once, with the right nodes, edges, literal and language, and their number can be asked for at any point. "
     "Every step of a returned path is backed by a stored statement that says what the step needs, in both the memory and the on-disk engine.",
     ["histories", "inputs"],
     "all operation histories (identifications and inverses first, then statements in any order with repetitions) x all queries of alternating steps and restrictions, on both engines",
     "The existing test inserts one regular chain per engine and queries one shape of path.",
     ["internal/triplestore/igraph/index.go", "internal/triplestore/igraph/paths.go", "internal/triplestore/igraph/engine_memory.go", "internal/triplestore/igraph/engine_disk.go", "internal/triplestore/igraph/triple.go"],
     "PSO and POS indexes over ids, joined step by step; triple ids kept as provenance",
     "model-based property testing of operation histories",
     "Model: a set of edges over union-find classes. Queries are random and biased towards existing edges.")

prop("C07", "Reading N-Quads delivers every statement exactly as written",
     "Every well-formed statement of an N-Quads file is delivered once, in order, with exactly the subject, predicate, object, text and language that was written, whatever escapes, unicode, whitespace, comments, blank lines, graph labels, datatypes, unix or windows line endings or line lengths are used, and reading the file again gives the same statements. "
     "A malformed line or a failing file is reported as an error and never treated as the end of the data.",
     ["inputs", "fault_sequences"],
     "all N-Quads documents, all malformed documents, and all positions of read errors",
     "There is no test for reading N-Quads.",
     ["internal/sparkl/index_source.go", "internal/sparkl/index.go"],
     "line based reader around a quad parser, rewound for each of the indexing passes",
     "property-based round-trip testing and fuzzing with injected read errors",
     "Documents are serialized from known statements with random spelling variants; the statements delivered must be those.")

prop("C08", "An exported index serves exactly what the original data would",
     "For every input and every combination of display options, exporting the loaded data to a file and importing it again gives the same pathbuilder structure, options, entities, aliases and pages as the data it was made from, and exporting an imported file again loses nothing.",
     ["inputs", "configurations"],
     "all pathbuilder/dataset pairs x display options x repeated export/import",
     "The export format is not tested at all (only the slice/map codec on integers).",
     ["internal/glass/glass.go", "internal/sparkl/cache.go", "pkg/sgob/sgob.go", "internal/triplestore/imap/memory.go", "cmd/hangover/hangover.go"],
     "gzip of gob streams of the cache's maps plus the pathbuilder as xml",
     "property-based round-trip testing",
     "In-process export/import on generated worlds, and pages served from both; the hangover binary on a sample.")

prop("C09", "A damaged export is refused, never served",
     "An exported file that was cut off at any point, or in which any byte was changed so that its content differs, is rejected with an error; it never crashes the program, exhausts memory or is loaded as if it were complete. "
     "A file written with a different format version is refused as well.",
     ["crash_points", "fault_sequences", "inputs"],
     "all truncation points and byte modifications of all exports, both of the compressed file and of the data within it",
     "No test reads a damaged export.",
     ["internal/glass/glass.go", "pkg/sgob/sgob.go", "internal/sparkl/cache.go", "internal/triplestore/impl/id.go", "internal/triplestore/imap/memory.go"],
     "import drains the compressed stream to verify its checksum; decoders return errors",
     "mutation fuzzing of real exports with truncation-point enumeration",
     "All truncation points of small files, random mutations of the compressed and of the uncompressed stream (re-compressed, where only crashes and allocation are judged).")

prop("C10", "An SQL export contains every entity, value and child exactly once",
     "An SQLite export holds one table per bundle with one row per entity (for children: one row for each time the entity is the child of a parent, naming that parent) and one column per field with all of its values, in order and joined by the chosen separator; or, when asked for, one table per field with one row per value and its language. "
     "Nothing is lost, duplicated or altered for any text, machine name, number of entities or batch size (an export which cannot hold everything, because two tables would have the same name, fails), and exporting into a database which already holds an export gives the same tables as exporting into a new one.",
     ["inputs", "configurations", "histories"],
     "all pathbuilder/dataset pairs x separators x batch sizes and variable limits x field tables on or off x repeated exports",
     "The exporter has no tests.",
     ["internal/sparkl/exporter/sql.go", "internal/sparkl/pathbuilder.go", "cmd/n2j/sqlite.go"],
     "batched inserts per bundle, recursively for children, chunked by the number of query variables",
     "property-based testing against the extracted entities",
     "In-process with small batch sizes on real sqlite files, and the n2j binary; compared with rows computed from the JSON extraction.")

prop("C11", "A CSV export agrees with the SQL export",
     "A CSV export has exactly one file per table of the SQL export, named after it (escaped like a path segment of a url), whose parsed header and rows are those of that table, for every machine name and text including separators, quotes and line breaks.",
     ["inputs"],
     "all pathbuilder/dataset pairs and texts",
     "The exporter has no tests.",
     ["cmd/n2j/sqlite.go", "internal/sparkl/exporter/sql.go"],
     "an in-memory database dumped table by table",
     "differential property-based testing (csv vs. sqlite output of the binary)",
     "Runs the n2j binary; the csv is parsed with an independent parser which keeps quoted line breaks.")

prop("C12", "The command line tools only report success for complete results",
     "n2j and hangover exit with status 0 only if the requested output was written completely; if an input is missing or malformed, an output cannot be created or written in full, or the arguments contradict each other, they exit with a non-zero status and say why. "
     "They do not crash with a stack trace or hang.",
     ["fault_sequences", "inputs", "configurations"],
     "all outputs (json, sqlite, csv, export) x write failures at any offset, missing/unreadable/malformed inputs, and argument combinations",
     "The commands have no tests.",
     ["cmd/n2j/n2j.go", "cmd/n2j/json.go", "cmd/n2j/sqlite.go", "cmd/hangover/hangover.go", "load.go", "internal/glass/glass.go"],
     "errors passed up to main, which logs them and exits with status 1",
     "fault injection over generated runs of the binaries",
     "Write failures come from /dev/full, closed pipes, file-size limits at a random offset and missing directories.")

prop("C13", "Every entity can be reached under every one of its names, and only those",
     "Once loaded, the viewer lists every bundle and every entity, shows every entity at the address linked to, and resolves every name of an entity (including identical uris and navigation links of the public site) to that entity; unknown bundles, uris and pages give a 404. "
     "The pages show all of the values, languages and aliases of the entity, and the JSON interface returns exactly the loaded data.",
     ["inputs", "programs"],
     "all loaded datasets x all names (with any special characters) x all requests",
     "The viewer has no tests.",
     ["internal/viewer/html.go", "internal/viewer/json.go", "internal/viewer/api.go", "internal/viewer/viewer.go", "internal/sparkl/cache.go"],
     "http handlers over an in-memory cache of entities and aliases",
     "property-based testing of generated request sequences against the loaded data",
     "Requests are made through the handler, following the links found in the pages.")

prop("C14", "Paging through a bundle shows every entity exactly once",
     "For every bundle size and page size, following the 'Next' links from the first page visits every entity of the bundle exactly once, in the order of the bundle, and following 'Prev' from the last page does the same backwards; each page shows at most the number of entities asked for and states its range and the total correctly. "
     "Limits and offsets that make no sense never crash the viewer or hide entities.",
     ["inputs"],
     "all sizes of bundles, limits and offsets, including huge, negative, missing and non-numeric ones",
     "The viewer has no tests.",
     ["internal/viewer/html.go", "internal/viewer/viewer.go"],
     "offset/limit query parameters with generated links",
     "property-based testing over sizes, limits and offsets, following links",
     "Caches of generated size; an oracle computes ranges; links are extracted from the html.")

prop("C15", "Text from the data never becomes markup or script",
     "Unless rendering html was switched on, no uri, value, language, label or path found in the data or the pathbuilder changes the structure of any page: it is shown as text or as an attribute value only, and no link with a script scheme is created from it. "
     "With html rendering on, this still holds for everything except long-text values, and images are only embedded when rendering images was switched on.",
     ["inputs", "configurations"],
     "all strings in all positions of data and pathbuilder x display options",
     "The viewer has no tests.",
     ["internal/viewer/html.go", "internal/assets/templates/viewer_render_value.html", "internal/assets/templates/viewer_render_triples.html", "internal/assets/templates/viewer_render_graph.html", "internal/viewer/templates/entity.html", "internal/viewer/viewer.go"],
     "context-aware templates; trusted types only for known-safe content",
     "metamorphic property-based testing (element structure must not depend on text)",
     "Pages are parsed with an html5 parser; the element/attribute skeleton must equal that of the same data with harmless text.")

prop("C16", "Downloaded triples are the entity's triples",
     "For every entity, the N-Triples and the Turtle download parse, and contain exactly the statements which define the entity, its values and its children, under canonical names, with text, language and blank nodes intact and without repetitions.",
     ["inputs"],
     "all entities of all datasets, with any uris, texts, languages and blank nodes",
     "Serialization has no tests.",
     ["internal/wisski/entity.go", "internal/triplestore/igraph/triple.go", "internal/viewer/json.go"],
     "collect, sort and deduplicate triples, convert to rdf terms, encode",
     "property-based round-trip testing with an independent parser",
     "Parsed with a small N-Triples/Turtle reader of the harness.")

prop("C17", "While loading, and for any request, the viewer answers sensibly",
     "Before loading has finished, every request is answered: pages show that data is being loaded, the JSON interface answers 503 with the progress, both ask the client to retry later, and pages that do not need the data work; no partial data is served. "
     "At any time, no request (with a valid utf-8 path) makes a handler panic or answer with a server error, and once loading is finished no page claims to be loading.",
     ["schedules", "inputs"],
     "all requests (methods, paths, queries, encodings) x points in time relative to loading, including requests concurrent with its end",
     "The viewer has no tests.",
     ["internal/viewer/fallback.go", "internal/viewer/viewer.go", "internal/viewer/json.go", "internal/viewer/html.go"],
     "every data handler asks the fallback first; the cache is published before the state is marked as done",
     "fuzzing of requests before, during and after loading (with the race detector)",
     "Random requests from several goroutines while Prepare runs.")

prop("C18", "Every response carries the configured content security policy",
     "Every response, including errors, redirects, assets, api answers and pages shown while loading, has a Content-Security-Policy that forbids everything by default, allows inline styles only with html rendering, images only with image or html rendering, media only with html rendering, and frames only for a configured http(s) tipsy url. "
     "In strict mode images and media are allowed from the configured public urls only.",
     ["configurations", "inputs"],
     "all combinations of display options and urls x all requests",
     "The viewer has no tests.",
     ["internal/viewer/viewer.go"],
     "header computed once from the options and set before dispatching",
     "property-based testing over configurations and requests",
     "The policy is parsed and compared with one computed from the options.")

prop("C19", "Links into the published site lead to the local copy, all others are kept",
     "In rendered html and images, a link to or below the 'wisski' path of one of the configured public urls (http or https) points to this server and leads to the same entity, and every other link, attribute, text and element is left as it was. "
     "Html without such links is rendered to an equivalent document, and rewriting twice is the same as rewriting once.",
     ["inputs", "configurations"],
     "all html fragments x all public url lists",
     "Neither link replacement nor public urls are tested.",
     ["pkg/htmlx/htmlx.go", "internal/viewer/html.go", "internal/viewer/viewer.go"],
     "parse the fragment, rewrite href of a and src of img, render again; prefix match against public urls",
     "metamorphic property-based testing on generated html",
     "Generated fragments with known links; compares parsed documents before and after.")

prop("C20", "A failing storage makes loading fail, never lose data silently",
     "If any operation on the underlying storage (creating, reading, writing, iterating, finalizing) fails at any point while indexing, extracting or exporting, the operation as a whole reports an error, without crashing or hanging; a result that is reported as successful is complete.",
     ["fault_sequences"],
     "all positions of a failing storage, exporter or source operation x all inputs",
     "Existing tests never inject failures.",
     ["internal/sparkl/index.go", "internal/sparkl/context.go", "internal/sparkl/pathbuilder.go", "internal/triplestore/igraph/index.go", "internal/triplestore/igraph/paths.go", "internal/triplestore/imap/imap.go", "internal/sparkl/cache.go"],
     "errors returned through every layer; errors of concurrent stages collected",
     "fault injection at every operation of generated runs",
     "Engines, bundle storages, sources and exporters are wrapped; the n-th call of a kind fails. A run that still succeeds must have the complete result.")

prop("C21", "Concurrency never changes a result",
     "Loading the same input any number of times, with any number of processors and any timing of storages and exporters, yields the same entities and fails for the same inputs, without data races or deadlocks, and a finished index answers concurrent queries as it answers them one by one. "
     "An exporter receives all entities of a bundle after its start and before its end.",
     ["schedules"],
     "all interleavings of the goroutines that extract and export, all concurrent readers",
     "Existing tests are sequential and do not use the race detector.",
     ["internal/sparkl/context.go", "internal/sparkl/pathbuilder.go", "internal/sparkl/storages/disk.go", "internal/triplestore/igraph/paths.go", "internal/triplestore/igraph/index.go", "internal/sparkl/exporter/map.go"],
     "goroutines per bundle, field and child with wait groups and locks",
     "randomised schedule testing with injected delays under the race detector",
     "Random yields and delays in storages and exporter, GOMAXPROCS varied. Schedules are sampled, not enumerated.")

prop("C22", "Source files are found if and only if they are unambiguous",
     "Given one directory, exactly the one pathbuilder file and the one data file in it are used, whatever the names of the directory and its other files; given two paths, the first is the pathbuilder and the second the data; given one file, it is an export and only accepted where exports can be used. "
     "In all other cases, including missing or several candidates and non-regular files, an error is returned and no file.",
     ["inputs", "configurations"],
     "all directory contents, names and argument lists",
     "There is no test for finding sources.",
     ["load.go"],
     "directory listing filtered by extension",
     "property-based testing on generated directories",
     "Generated directories in a scratch folder; compared with an independent decision.")

prop("C23", "Streamed encoding round-trips every value",
     "Every value made of (nested) maps and slices of encodable values that is written as a stream is read back equal (an empty collection may come back nil or empty), with anything written before or after it untouched; reading truncated or damaged data fails with an error instead of crashing or allocating without bound.",
     ["inputs", "crash_points"],
     "all values of nested map/slice/struct types, sequences of them, truncations and modifications of the encoding",
     "Existing tests round-trip two fixed values of two types.",
     ["pkg/sgob/sgob.go"],
     "reflection over top-level maps and slices, encoding element by element",
     "property-based round-trip testing and fuzzing of damaged streams",
     "Values of several static types including nested ones.")

prop("C24", "Progress can be reported and read from any number of places at once",
     "While stages run and progress is updated from any number of goroutines, reading the progress, the finished stages and the statistics is free of data races and never returns a torn value; every stage that was run is recorded once, in order, and after it was closed nothing changes any more. "
     "Progress output never loses or reorders a log line, and a missing output behaves like a discarded one.",
     ["schedules", "histories"],
     "all histories of stage changes, updates, logs and reads from several goroutines, with and without an output",
     "One example test of the progress writer; nothing concurrent.",
     ["internal/stats/status.go", "pkg/progress/progress.go"],
     "a lock around the current stage and an atomic done flag",
     "model-based testing of concurrent histories under the race detector",
     "Random histories; sequentially against a model, concurrently with invariants and the race detector.")

prop("C25", "Identifiers and key-value storages behave like numbers and maps",
     "Identifiers count up without repetition, compare like the numbers they stand for, and survive every encoding; every key-value storage, in memory and on disk, behaves like a map from keys to values for any history of writes, deletes, lookups, iterations and compactions, with any keys and values. "
     "The two sides of the label storage always stay inverse of each other.",
     ["histories", "inputs"],
     "all identifiers, all byte strings as keys and values, all histories of operations on all kinds of storages",
     "Existing tests use small integers, never delete and never use binary or empty keys.",
     ["internal/triplestore/impl/id.go", "internal/triplestore/impl/impl.go", "internal/triplestore/imap/memory.go", "internal/triplestore/imap/map_disk.go", "internal/triplestore/imap/imap.go", "internal/triplestore/igraph/engine_disk.go"],
     "fixed-width big-endian ids; leveldb wrapped with marshalling functions",
     "model-based property testing against maps and big integers",
     "Histories over all storages an engine hands out, compared with Go maps; ids compared with math/big.")

prop("C26", "Closing releases everything that was opened",
     "After an index, an extraction (finished or failed) or an export is closed, every storage that was opened for it has been closed exactly as often as needed, no goroutine of it is left running, and no file of it remains open; the cache directory can then be removed or used again by another run.",
     ["histories", "fault_sequences"],
     "all inputs, all points of failure, all sequences of runs sharing a cache directory",
     "Existing tests do not look at leaks.",
     ["internal/triplestore/igraph/index.go", "internal/triplestore/imap/imap.go", "internal/sparkl/context.go", "internal/sparkl/pathbuilder.go", "internal/sparkl/storages/disk.go", "internal/triplestore/imap/map_disk.go"],
     "Close methods called through closers collected while extracting",
     "property-based testing with counting wrappers and fault injection",
     "Open storages, goroutines and file descriptors are compared before and after, after successful and failed runs.")

prop("C27", "The order, repetition and graph of statements do not matter",
     "Reordering the statements of a dump, changing the graph they are in, or repeating statements between resources never changes which entities exist, which values and languages they have and which children belong to them (up to the order in which they are listed, and the choice of representative among identical names).",
     ["inputs"],
     "all dumps x all permutations, graph relabelings and repetitions of resource statements",
     "No existing test loads a dump.",
     ["internal/sparkl/index.go", "internal/sparkl/index_source.go", "internal/triplestore/igraph/index.go"],
     "set semantics of the indexes; separate passes for identities, inverses and data",
     "metamorphic property-based testing",
     "Identity statements are permuted too; entities are then compared up to the representative.")

prop("C28", "Loading writes nowhere but the cache directory and the requested output",
     "Whatever names, ids and uris the pathbuilder and the data contain, indexing, extracting, exporting and serving create, change or delete files only inside the given cache directory and at the given output path; the inputs are left as they were.",
     ["inputs", "configurations"],
     "all pathbuilders (ids with path separators, dots, control characters, long names) and data x backends and outputs",
     "No existing test runs an extraction on disk.",
     ["internal/sparkl/storages/disk.go", "internal/sparkl/sparkl.go", "internal/glass/glass.go", "cmd/n2j/sqlite.go"],
     "file names derived from hashes of bundle names inside the cache directory",
     "property-based testing with hostile names, comparing directory snapshots as an unprivileged user",
     "Runs as an unprivileged user in a scratch folder; everything around the cache directory is compared before and after, and half of the runs are traced for system calls that change anything else.")

prop("C29", "Predicate lists are read as given",
     "A list of predicates given by a user is split at commas and line breaks into exactly the non-empty trimmed entries, in order, and exactly those predicates, and no others, are treated as identity or inverse predicates.",
     ["inputs", "configurations"],
     "all lists of predicates with any whitespace, separators and repetitions",
     "There is no test for parsing predicates.",
     ["internal/sparkl/index_source.go", "internal/sparkl/sparkl.go", "internal/sparkl/index.go"],
     "splitting and trimming; a set of labels looked up while scanning",
     "property-based testing against a reference splitter, and through the extraction",
     "Lists are generated together with data using listed and unlisted predicates.")

prop("C30", "The evidence shown for an entity is complete and genuine",
     "The statements shown for an entity are in a stable order, without repetitions, each is a statement of the data (or the marked inverse of one), and together they suffice to derive the entity, each of its values and each of its children (unless it is shared with other entities) from the pathbuilder. "
     "Each entity and value names the resources on the path which leads to it.",
     ["inputs"],
     "all entities, values and children of all pathbuilder/dataset pairs",
     "Provenance is only checked for one chain without pathbuilder.",
     ["internal/wisski/entity.go", "internal/triplestore/igraph/paths.go", "internal/triplestore/igraph/index.go", "internal/sparkl/context.go", "internal/sparkl/storages/memory.go"],
     "triple ids collected along each path; sorted and compacted per entity",
     "property-based testing: re-evaluating the pathbuilder on the evidence only",
     "Every triple is looked up in the input; the reference evaluator run on the evidence of an entity must find it again.")


def main(claimed):
    with open(HERE + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": p["mechanism"]},
            }, ensure_ascii=False) + "\n")
    checks = []
    for p in P:
        if p["id"] not in claimed:
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 check.py " + p["id"],
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["note"],
        })
    done = {c["property"] for c in checks}
    na = list(NOT_APPLICABLE)
    for p in P:
        if p["id"] not in done and p["id"] not in {n["property"] for n in na}:
            na.append({"property": p["id"], "reason": "No check has been built for this property yet."})
    with open(HERE + "/MANIFEST.json", "w") as f:
        json.dump({
            "version": 1,
            "setup_cmd": "python3 check.py --setup",
            "checks": checks,
            "not_applicable": na,
            "notes": "Every check builds its harness together with /repo's working tree (go test -overlay, a copy of go.mod with rapid added); see DESIGN.md.",
        }, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    from props import PROPS
    main(set(PROPS))
