TECH = {
 "P01": "random operation sequences on every list kind against a slice model; exact content, positions, return values and rejections after each step",
 "P02": "random edits with a recording observer which rebuilds every content from the notifications alone, plus random merged chains (ChainedNotification) replayed on contents",
 "P03": "model-based histories on generated metamodels with opposite references (all multiplicity/containment combinations) against a set-of-links model",
 "P04": "model-based histories on generated metamodels and resources against a forest model (parent, feature, resource of every object)",
 "P05": "generated trees; contents, full contents, cross references and class-restricted traversals against sets computed from the model",
 "P06": "model-based histories under a content adapter; the set of objects it is attached to, and the notifications it hears, against the tree of the model",
 "P07": "differential state machine over all object implementations (dynamic, compact, generated, store) against one feature-value model",
 "P08": "histories over resources with proxies loaded on demand from generated documents, against a model of which slots are proxies",
 "P09": "random edits of metamodels against derived views recomputed from scratch by an independent model",
 "P10": "random map and entry-list operations against a sequence-of-entries model",
 "P11": "grammar-generated and arbitrary texts: round trips, RFC 3986 reference resolution re-implemented as oracle, metamorphic relations, order independence",
 "P12": "fragment and URI round trips over generated trees, edits and identifier managers; arbitrary fragments must not crash",
 "P13": "state machine on every identifier manager against a bijection model",
 "P14": "save/load round trips in XML and XMI of generated graphs over generated metamodels, options and extended metadata; equivalent rewritten texts must load alike",
 "P15": "save/load round trips in the binary format, determinism, size boundaries",
 "P16": "save/load round trips through SQLite databases under all codec options and versions",
 "P17": "generated models saved as JSON; the output is parsed by an independent parser and compared with what the model prescribes",
 "P18": "structure-aware corruption, every truncation, and arbitrary bytes, with time, memory and panic oracles",
 "P19": "structure-aware corruption, every truncation, targeted invalidation and arbitrary text, with error, time and panic oracles",
 "P20": "value/text round trips over whole type ranges with boundary-biased generators",
 "P21": "generated graphs copied and compared with an independent structural comparison; every single difference injected must be seen",
 "P22": "model-based histories through the SQL store (store API, objects, several goroutines, race detector in part of the shards) against the in-memory model, databases reopened",
 "P24": "state machine of resource sets, address mappings, codec and package registries against reference models",
 "P25": "model-based histories with a listener and an identifier registry on each resource, against the set of objects the model puts in it",
 "P27": "the checks of P01, P02, P07, P08 and P10 run on objects, lists and maps kept in a store, with cache switches and attachments",
 "P28": "fault injection: every reader and writer failure offset, opening and closing failures, then an unfailing retry",
 "P29": "random annotation edits against a model of declared names; documents which use the declared names",
 "P30": "random adapter attachments, detachments and edits, some during delivery, against a queue model of deliveries",
 "P31": "concurrent readers of fresh shared models under the race detector, answers compared with those of a single thread; process-level first initialisation",
 "P32": "generated metamodels built through the initialization functions of generated code, compared with an independent description and differentially with the equal dynamic package (documents of every format)",
 "P33": "differential check of the reflective interface against the typed methods (found by Go reflection) over generated metamodels and dynamic classes with operations",
 "P34": "structure-aware damages of valid databases (cells, rows, columns, tables, pages, bytes, truncations), with panic, hang, error, usability, temporary file and goroutine oracles",
}
B = "generated cases only; bounds and exclusions in DESIGN.md"
NOTES = {
 "P16": B + "; classes whose names differ by case only, and the sign of zero, are out of scope of the SQL format",
 "P17": B + "; one root per document",
 "P18": B + "; memory bound 200 MB and time bound per document",
 "P22": B + "; objects are referred to once they are in the store; race detector in 3 of the 8 shards",
 "P28": B + "; every byte offset of each generated document",
 "P33": B + "; create, eSet, eUnset and eInvoke are not invoked reflectively",
 "P34": B + "; up to 2 damages per database and 8 objects; the content of a model which is accepted is not compared with the undamaged one",
 "P31": B + "; schedules are those the Go scheduler gives under the race detector",
}
NOTES = {**{k: B for k in TECH}, **NOTES}
