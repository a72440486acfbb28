#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list lives here in a readable form)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": ["ecore/" + f for f in files],
                  "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe}})

p("P01", "Lists behave like the mathematical sequence they represent",
  "After any sequence of list operations (add, insert, bulk add/insert, set, move, remove, bulk and range removal, clear) every list kind holds exactly the elements, in exactly the order, that the same operations give on a plain sequence, and size, lookup, search, iteration and returned values agree with it. A unique list never contains an element twice, whatever operation is used, and an out-of-range index is rejected without changing the list. An immutable list never changes.",
  ["histories", "inputs"], "every operation sequence on every list kind, unique or not, empty or not, with duplicates inside and across bulk arguments",
  "Unit tests run a handful of short scripted sequences per list type; the claim is over all interleavings of single, bulk and positional operations.",
  ["abstractelist.go", "basicelist.go", "basicenotifyinglist.go", "basiceobjectlist.go", "basicedatatypelist.go", "immutableEList.go", "delegatingelist.go", "collection.go"],
  [("uniqueness filtering and index checks", "ecore/abstractelist.go"), ("storage operations", "ecore/basicelist.go")],
  "EList interface of every exported list constructor")

p("P02", "Notifications describe every change exactly",
  "Every effective change of a feature of an object delivers notifications from which an observer can rebuild the new content: replaying the reported kind, position, old and new values on a copy of the previous content always gives the current content. A change that has no effect on the content never reports an addition or a removal, and nothing is delivered when delivery is off or no adapter is attached.",
  ["histories", "inputs"], "every history of feature edits (single- and many-valued, attribute and reference, bulk, move, unset, clear) on objects with observers",
  "Tests assert individual notifications for individual calls; only replaying arbitrary histories shows that positions and values are always right, including bulk edits and edits that touch the other end of a relation.",
  ["basicenotifyinglist.go", "abstractnotification.go", "notification.go", "notificationchain.go", "abstractenotifier.go", "abstracteobject.go", "basicemap.go"],
  [("list notifications", "ecore/basicenotifyinglist.go"), ("single-valued notifications", "ecore/abstracteobject.go")],
  "EAdapter.NotifyChanged of adapters attached to objects")

p("P03", "Both ends of a bidirectional reference always agree",
  "For any pair of references declared opposite, after any sequence of edits through either end, an object is referred to by another through one reference if and only if it refers back through the opposite one. A single-valued end refers to at most one object and a taken-over value is released by its former owner. Edits never leave the former partner pointing back.",
  ["histories", "programs"], "every history of edits at both ends, for 1-1, 1-n, n-1, n-n opposites, containment or not, generated metamodels",
  "Handshakes cascade (an edit displaces other partners), so the state space is a product of two ends; tests cover isolated one-step cases with mocks.",
  ["abstracteobject.go", "basiceobjectlist.go", "dynamiceobject_impl.go", "reflectiveeobject_impl.go", "basiceobjectmap.go"],
  [("inverse add/remove", "ecore/abstracteobject.go"), ("inverse lists", "ecore/basiceobjectlist.go")],
  "EGet of both ends after each edit")

p("P04", "Containment is a forest and container, feature and contents always agree",
  "Every object has at most one container, and an object has a container and containing feature if and only if that container holds it in exactly that feature, after any sequence of edits. Putting an object elsewhere takes it out of the place it was in. The resource of an object is the one whose contents hold its root (or the object itself).",
  ["histories", "programs"], "every history of containment edits (set, add, move between parents, remove, unset, resource contents edits) over generated metamodels",
  "Moves between containers, features and resources interact; tests check single transitions.",
  ["abstracteobject.go", "basiceobject_impl.go", "compacteobject_impl.go", "compacteobject_container.go", "basiceobjectlist.go", "eresource_impl.go", "ecoreutils.go"],
  [("container bookkeeping", "ecore/abstracteobject.go"), ("resource contents", "ecore/eresource_impl.go")],
  "EContainer, EContainingFeature, EContainmentFeature, EContents, EResource, GetContents")

p("P05", "Traversals visit exactly the right objects, once",
  "The direct contents of an object are exactly the values of all its containment features (own and inherited), the full contents are exactly all its descendants, each once and after its parent, and its cross references are exactly the values of its non-containment, non-container references. Restricting a traversal to a class gives exactly the members that are instances of it.",
  ["programs", "inputs"], "every object tree over every generated metamodel (inheritance, abstract classes, recursive containment) and every class filter",
  "The filtered traversal precomputes which features can lead to a class from the metamodel, so its correctness is a statement over all metamodels; tests use two fixed ones.",
  ["econtentslist.go", "eallcontents.go", "etreeiterator.go", "eclass_ext.go", "eresource_impl.go", "ecoreutils.go", "eiterator.go"],
  [("derived contents lists", "ecore/econtentslist.go"), ("class filtered traversal", "ecore/eallcontents.go")],
  "EContents, ECrossReferences, EAllContents, EAllContentsWithClass, GetAllContents")

p("P06", "A content adapter is attached to exactly the objects of the tree",
  "While a content adapter is attached to an object, resource or resource set, it is attached exactly once to every object currently contained under it and to nothing else, after any sequence of edits, and it therefore hears every change in the tree. Detaching it from the root detaches it from the whole tree.",
  ["histories"], "every history of edits of a tree (adds, removes, moves, sets, unsets, bulk operations, resource contents) under an attached content adapter",
  "Tests attach to fixed trees; the invariant depends on every kind of notification being interpreted correctly.",
  ["econtentadapter.go", "abstractenotifier.go", "abstracteadapter.go"],
  [("adapter propagation", "ecore/econtentadapter.go")],
  "EAdapters of every reachable and detached object")

p("P07", "Reflective get, set, is-set and unset obey one contract",
  "For every feature, reading after writing gives the written value, a single-valued feature is set exactly when it was given a (non-null) value and not unset since (for the elements of metamodels, whose features are plain fields: when it holds a value different from its default), a collection exactly when it is not empty, and unset restores the default (or the empty collection) and makes the feature not set. The answers do not depend on which kind of object implementation holds the values, nor on other features of the object.",
  ["histories", "programs"], "every history of reflective accesses on objects of generated metamodels (types, defaults, bounds, inheritance) for every object implementation",
  "Tests exercise a few features of fixed classes; storage layouts (slot arrays, compact fields, backing stores) give the same answers only if they agree on all histories.",
  ["abstracteobject.go", "basiceobject_impl.go", "compacteobject_impl.go", "dynamiceobject_impl.go", "reflectiveeobject_impl.go", "estructuralfeature_ext.go", "dynamicemapentry_impl.go"],
  [("dynamic features", "ecore/abstracteobject.go"), ("default values", "ecore/estructuralfeature_ext.go")],
  "EGet, ESet, EIsSet, EUnset")

p("P08", "Proxies resolve to the object they denote, and only when asked",
  "Reading a resolving reference that holds a proxy returns the object which the proxy's address denotes in the resource set (loading the resource if needed), and from then on the reference holds it. Reading without resolution, or through a reference declared not to resolve proxies, returns the stored proxy unchanged, and a proxy that denotes nothing stays in place.",
  ["histories", "configurations"], "every multi-resource graph, order of loading and reading, single or many valued, resolvable or broken addresses",
  "Tests resolve one proxy in one fixed resource; interaction with order of loading, uniqueness of lists and containment across resources is untested.",
  ["abstracteobject.go", "basiceobjectlist.go", "ecoreutils.go", "eresourceset_impl.go", "eresource_impl.go", "econtentslist.go"],
  [("proxy resolution", "ecore/abstracteobject.go"), ("resolving lists", "ecore/basiceobjectlist.go")],
  "EGetResolve, list Get, ToArray, EContents, ResolveInObject helpers")

p("P09", "Derived metamodel views follow the metamodel",
  "After any sequence of metamodel edits (features, super types, types, names, flags, identifiers) the derived views of a class - all super types, all attributes, references, containments, operations and features, feature counts, identifiers and lookups by name, inheritance tests, and the lookups of a package, enumeration or operation - are exactly what the current metamodel defines. Super types contribute their features first, and each feature appears once.",
  ["histories", "programs"], "every history of metamodel edits interleaved with reads of the derived views, with multi-level and diamond inheritance",
  "Derived views are cached and invalidated by notifications; stale caches appear only for particular orders of reads and edits.",
  ["eclass_ext.go", "epackage_ext.go", "eenum_ext.go", "ereference_ext.go", "estructuralfeature_ext.go", "eoperation_ext.go", "eclassifier_ext.go", "etypedelement_ext.go"],
  [("cache invalidation", "ecore/eclass_ext.go")],
  "EClass, EPackage, EEnum, EStructuralFeature getters")

p("P10", "Maps behave like dictionaries over their entries",
  "After any sequence of map and entry-list operations, looking up a key gives the value of the entry currently holding it, membership, keys, values and the dictionary view agree with the entries, and putting never makes a second entry for a key. Putting an existing key replaces its value in place; removing a key takes its entry out and returns the removed value. When entries added as list elements share a key, the first of them counts.",
  ["histories"], "every history of put/remove/lookup mixed with list operations on the entries (entries themselves are edited through the map only), for every map kind",
  "A hash index is maintained beside the entry list; only mixed histories can show that they diverge.",
  ["basicemap.go", "basiceobjectmap.go", "immutableemap.go", "dynamicemapentry_impl.go", "estringtostringmapentry_impl.go"],
  [("index maintenance", "ecore/basicemap.go")],
  "EMap interface")

p("P11", "URIs parse, print and transform consistently",
  "Parsing a URI and printing it gives back the same text, and building it from its parts gives the same parts; equal text gives equal URIs. Resolving a reference against a base follows the standard resolution rules, making a URI relative to a base and resolving it against the same base gives the original back, and replacing a prefix or trimming parts changes only what it names. Malformed text is rejected with an error, never a crash, and results do not depend on what was parsed before.",
  ["inputs", "histories"], "every string as URI text, every pair of URIs as base/reference, every order of calls",
  "Tests use a list of typical URIs; the laws relate arbitrary pairs and the memory of previous parses.",
  ["uri.go"], [("parser, normalisation, resolution", "ecore/uri.go")], "URI methods and constructors")

p("P12", "URI fragments identify objects",
  "For every object of a resource, the fragment the resource gives it looks up exactly that object again and different objects have different fragments, in any state of the tree. The URI of an object, looked up through the resource set, gives that object. Fragments that denote nothing give no object and never crash.",
  ["histories", "inputs"], "every object tree (several roots, single and many-valued containment, map entries, identifiers, objects with special names) and arbitrary fragment strings",
  "Tests look up fixed fragments in a fixed library model.",
  ["eresource_impl.go", "abstracteobject.go", "emodelelement_ext.go", "ecoreutils.go", "eobjectidmanager_impl.go"],
  [("fragment encoding and lookup", "ecore/eresource_impl.go")],
  "GetURIFragment, GetEObject, GetURI")

p("P13", "Object identifiers stay a one-to-one registry",
  "An identifier manager gives each registered object exactly one identifier, never the same one to two objects, and looking up an identifier gives the object it was given to, after any sequence of registrations, explicit identifier assignments, unregistrations and clears. A re-registered object gets back the identifier it had, and generated identifiers never collide with explicitly assigned ones.",
  ["histories"], "every history of register, set, unregister, clear for every manager kind and identifier form accepted",
  "Collisions and stale entries only appear for particular orders of explicit and generated identifiers.",
  ["eobjectidmanager_impl.go", "uniqueidmanager.go", "uuid.go", "ulid.go", "eresource_impl.go"],
  [("registry", "ecore/uniqueidmanager.go")], "EObjectIDManager interface")

p("P14", "XML and XMI saving then loading gives back the same model",
  "Loading what was saved as XML or XMI gives a model equal to the original: same objects, attribute values, reference targets, order and containment, for every supported feature type, option and encoding of references across resources. Saving the loaded model gives the same text, and text content with any legal character survives.",
  ["inputs", "programs", "configurations"], "every generated metamodel and instance graph, several resources, documented options, and metamodels themselves as instances",
  "Tests round-trip a few fixed files; escaping, inheritance, cross-resource references, namespaces and ordering combine freely in real models.",
  ["xmlencoder.go", "xmldecoder.go", "xmiencoder.go", "xmidecoder.go", "xmlnamespaces.go", "xmlstring.go", "xmlcodec.go", "xmicodec.go", "xmlprocessor.go", "xmiprocessor.go", "extendedmetadata.go"],
  [("encoder", "ecore/xmlencoder.go"), ("decoder", "ecore/xmldecoder.go")],
  "EResource.Save/Load through XML and XMI codecs")

p("P15", "Binary saving then loading gives back the same model",
  "Loading what was saved in the binary format gives a model equal to the original - same objects, attribute values, reference targets, order, containment and identifiers - whatever the sizes, values and number of roots or resources. Encoding is deterministic.",
  ["inputs", "programs", "configurations"], "every generated metamodel and instance graph, all attribute types and value ranges, several resources, both codec options",
  "Tests encode fixed models; variable-length integers, feature kinds and object tables are only correct if they are for all values.",
  ["binaryencoder.go", "binarydecoder.go", "binarycodec.go"],
  [("encoder", "ecore/binaryencoder.go"), ("decoder", "ecore/binarydecoder.go")],
  "EResource.Save/Load, EncodeObject/DecodeObject")

p("P16", "SQL saving then loading gives back the same model",
  "Loading a database written from a model gives a model equal to the original: same objects, attribute values, reference targets, order and containment, under every documented codec option and codec version, including inherited features and references across resources.",
  ["inputs", "programs", "configurations"], "every generated metamodel and instance graph, options for defaults, identifiers and containers, both codec versions",
  "Tests load fixed databases; schema generation depends on the metamodel.",
  ["sqlencoder.go", "sqldecoder.go", "sqlschema.go", "sqlbase.go", "sqlobject.go", "sqlcodec.go"],
  [("encoder", "ecore/sqlencoder.go"), ("decoder", "ecore/sqldecoder.go"), ("schema", "ecore/sqlschema.go")],
  "SQL encoder and decoder on a database")

p("P17", "JSON output is valid and faithful",
  "Saving a model (a root object and its tree) as JSON always produces one valid JSON document that holds, for every object of the tree, its class, its identifier when asked, and every set feature with its value in order: contained objects nested, other objects as references that give them back, and any text content escaped correctly. Saving loads or changes nothing.",
  ["inputs", "programs"], "every generated metamodel and instance graph with arbitrary text values",
  "Tests compare with fixed files.",
  ["jsonencoder.go", "jsoncodec.go"], [("encoder", "ecore/jsonencoder.go")], "JSON encoder output")

p("P18", "Corrupt or truncated binary input is rejected, never crashes",
  "Decoding arbitrary, truncated or corrupted binary data always terminates in bounded time and memory and either yields a model or reports an error; it never panics, and a strict prefix of a valid document is always reported as an error.",
  ["inputs", "fault_sequences"], "every byte string, in particular every mutation and truncation of valid documents",
  "Tests decode valid files only.",
  ["binarydecoder.go", "eresource_impl.go"], [("decoder", "ecore/binarydecoder.go")], "Load, DecodeResource, DecodeObject")

p("P19", "Malformed XML input is rejected, never crashes",
  "Loading arbitrary, truncated or mutated XML or XMI text always terminates without panic; text that is not well formed, refers to unknown packages, classes or features, or is cut short is reported as an error of the resource.",
  ["inputs", "fault_sequences"], "every text, in particular every mutation and truncation of valid documents",
  "Tests load valid files and a couple of broken ones.",
  ["xmldecoder.go", "xmidecoder.go", "xmlnamespaces.go", "eresource_impl.go"], [("decoder", "ecore/xmldecoder.go")], "Load and resource errors")

p("P20", "Data type values survive conversion to text and back",
  "For every supported data type (predefined, enumeration, or custom) converting a value to text and back gives an equal value, and converting valid text to a value and back gives an equivalent text, over the whole range of the type. Default values given as text are the values they denote.",
  ["inputs"], "every value of every supported data type, every default literal",
  "Tests convert one sample value per type.",
  ["ecorefactory_impl.go", "efactory_ext.go", "efactory_impl.go", "estructuralfeature_ext.go", "edatatype_ext.go", "eenum_ext.go", "eclassifier_ext.go"],
  [("conversions", "ecore/efactory_ext.go"), ("predefined conversions", "ecore/ecorefactory_impl.go")],
  "CreateFromString, ConvertToString, GetDefaultValue")

p("P21", "Copies are equal, independent and self-contained",
  "A copy of an object or of a collection has the same structure and values as the original, references inside the copied set point to the copies and one-way references to outside objects point to the originals (two-way references to outside objects are left out, since keeping them would change those objects), and later edits of one side never show in the other. Structural equality holds exactly when two object graphs have the same classes, attribute values, contained objects and corresponding references, is reflexive and symmetric, and detects any single difference.",
  ["inputs", "programs", "histories"], "every generated metamodel and instance graph (inheritance, opposites, cycles, many-valued features) and every single mutation of a copy",
  "Tests copy and compare one- or two-object graphs with mocks.",
  ["deepcopy.go", "deepequal.go", "ecoreutils.go"], [("copier", "ecore/deepcopy.go"), ("comparer", "ecore/deepequal.go")], "Copy, CopyAll, Equals, EqualsAll")

p("P22", "A database backed model behaves like the same model in memory",
  "Any sequence of model edits and reads applied through the SQL store gives the same observable results as the same sequence on an in-memory model: values, set state, list content, order and membership, containers. Reopening the database afterwards shows the last state.",
  ["histories", "programs", "crash_points"], "every history of store operations on generated metamodels, reopening at any point",
  "Tests read fixed databases and make single edits; pending-write bookkeeping and list index arithmetic depend on history.",
  ["sqlstore.go", "sqlbase.go", "sqlencoder.go", "sqldecoder.go", "sqlschema.go", "estore.go"],
  [("store operations", "ecore/sqlstore.go")], "EStore interface of the SQL store")

p("P24", "Resource sets find, create and resolve resources consistently",
  "Asking a resource set for an address gives the resource it holds for the same normalised address and never creates a second one, also after resources were removed, renamed, unloaded or mappings were added; loading on demand happens at most once until the resource is unloaded. Address mappings are applied as prefix replacements as declared, the longest prefix first and until none applies (cyclic ones end), handlers and codecs are chosen by the declared rules (protocol, extension, default), and package lookups fall back to the parent registry.",
  ["histories", "configurations"], "every history of creating, adding, removing, renaming, loading and looking up resources with generated address mappings and registrations",
  "Tests use one mapping and one resource at a time; caches and fallbacks interact with history.",
  ["eresourceset_impl.go", "euriconverter_impl.go", "ecodecregistry_impl.go", "epackageregistry_impl.go", "memoryurihandler.go", "fileurihandler.go", "eresource_impl.go"],
  [("lookup", "ecore/eresourceset_impl.go"), ("normalisation", "ecore/euriconverter_impl.go")], "EResourceSet, EURIConverter, registries")

p("P25", "Resources track exactly the objects they hold",
  "Listeners and identifier registries of a resource are told exactly once that an object entered it or left it, whatever edit moved it (contents edit, containment edit deep in the tree, move to another resource, unload), so the tracked set always equals the set of objects in the resource. Loading a resource replaces its content only once, unloading it takes every object out of it, and loading state and change tracking are reported accordingly.",
  ["histories"], "every history of contents and containment edits, load, unload and moves over several resources",
  "Tests check single attach or detach events with mocks.",
  ["eresource_impl.go", "abstracteobject.go", "basiceobjectlist.go", "eresourcelistener.go", "eresourceset_impl.go"],
  [("attach/detach", "ecore/eresource_impl.go")], "EResourceListener, EObjectIDManager, GetEObjects, IsLoaded, Unload")

p("P27", "Objects delegating to a store behave like ordinary objects",
  "An object whose features live in an external store gives the same results as an ordinary object under any sequence of feature, list and map operations, with or without its local cache, and switching the cache on or off, or attaching the object to a store which holds its values, does not change what is observed. Every change is written through to the store while the object is attached.",
  ["histories", "configurations"], "every history of operations on store-backed objects with every cache configuration and cache switches at any point",
  "Tests use mocks of the store with scripted answers; cache coherence is a property of histories.",
  ["estoreeobject_impl.go", "estorelist.go", "estoremap.go", "ecacheprovider.go", "abstracteobject.go"],
  [("store lists", "ecore/estorelist.go"), ("store objects", "ecore/estoreeobject_impl.go")], "EObject and EList interfaces of store-backed objects, content of the store")

p("P28", "Failing reads and writes are reported",
  "If the underlying reader or writer fails at any point while a resource is loaded or saved, the failure is reported as an error of that resource (or of the encode/decode call), without panic, and a later save or load of the same resource works as if the failed one had not happened.",
  ["fault_sequences", "crash_points"], "a read or write failure injected at every byte offset, for every codec, over generated models",
  "Tests use well-behaved readers and writers.",
  ["binaryencoder.go", "binarydecoder.go", "xmlencoder.go", "xmldecoder.go", "jsonencoder.go", "eresource_impl.go", "xmlstring.go"],
  [("error reporting", "ecore/eresource_impl.go")], "GetErrors of the resource, errors returned by the codecs")

p("P29", "Extended metadata names map features and classes one to one",
  "With extended metadata, a class or feature is found by the name and namespace its annotations declare, and its declared name is the one written; annotating, renaming or removing annotations is reflected in the lookups of extended metadata created later (as each load and save does), and one extended metadata answers the same question always the same way. Wildcard and document-root roles are recognised exactly when declared.",
  ["histories", "programs"], "every generated set of annotations on packages, classes and features, and every later edit of names and annotations",
  "Tests use one fixed annotated model.",
  ["extendedmetadata.go", "eannotation_impl.go", "emodelelement_ext.go"], [("annotation cache", "ecore/extendedmetadata.go")], "ExtendedMetaData API")

p("P30", "Adapters receive each notification exactly while attached",
  "An adapter gets every notification emitted while it is attached, each once and in order, and none before it is attached or after it is detached; it is told its target exactly when it is attached and detached, whichever operation of the adapter list did it. Attaching or detaching adapters during delivery does not disturb the delivery in progress. Turning delivery off suppresses notifications and nothing else.",
  ["histories"], "every history of adapter list edits and model edits, including re-entrant edits from an adapter",
  "Tests attach and detach one adapter.",
  ["abstractenotifier.go", "enotifier_impl.go", "basiceobject_impl.go", "compacteobject_impl.go", "abstracteadapter.go"],
  [("adapter list", "ecore/abstractenotifier.go")], "EAdapters, ENotify, EDeliver")

p("P31", "Concurrent readers of a shared model see consistent results",
  "Any number of threads that only read a metamodel, resolve names, look up registries, parse addresses, or read a database backed model get the same answers as a single thread would, without data race, deadlock or crash, whichever thread triggers the lazy initialisation.",
  ["schedules"], "every interleaving of concurrent read-only operations on a freshly built metamodel, registry or store",
  "Tests are single threaded.",
  ["eclass_ext.go", "epackage_ext.go", "extendedmetadata.go", "uri.go", "epackageregistry_impl.go", "ecorepackage_impl.go", "sqlstore.go"],
  [("lazy initialisation", "ecore/eclass_ext.go")], "race detector and result comparison over generated concurrent programs")

p("P32", "Packages made as generated code makes them are what they were described to be",
  "A package type which describes itself with the initialization functions of generated code (classifiers created with identifiers, initialized classes, attributes, references, operations, parameters, enums, literals, data types, resource), and its factory type, have exactly the described metamodel: names, types, bounds, flags, defaults, opposites, identifiers, literals with their instances. The package is the content of its own resource, whose address is its namespace, and its elements are found by name, identifier, fragment and address. Resources create objects and convert values with its factory in each format, and documents written with it, or with an equal package made dynamically, are read identically by either.",
  ["programs", "inputs"], "every metamodel described through the initialization functions, with every value of their parameters, and every document of it in every format",
  "Tests use the one generated package of Ecore itself, whose description exercises few of the parameters.",
  ["epackage_ext.go", "efactory_ext.go", "eclass_ext.go", "eenum_ext.go", "epackageregistry_impl.go"],
  [("package initialization", "ecore/epackage_ext.go"), ("factory", "ecore/efactory_ext.go")], "EPackage, EClass, EFactory API of the made packages, documents written and read")

p("P33", "Reflective access gives what the methods give",
  "On objects of the static metamodel, reading, writing, resetting and testing features reflectively agree with the accessors, and invoking an operation by itself or by its identifier does and returns what the method of the operation does, or fails when it does. On dynamic objects the operations of EObject do what the methods do; operations without an implementation give nothing and change nothing, whatever their identifier.",
  ["programs", "inputs"], "every feature and operation of every object of generated metamodels, with generated arguments, and every dynamic class with operations, extending EObject or not",
  "Tests call each accessor once with mocks; agreement over all features, operations and class hierarchies is not sampled.",
  ["eclass_impl.go", "epackage_impl.go", "eoperation_impl.go", "ereference_impl.go", "eattribute_impl.go", "eenum_impl.go", "edatatype_impl.go", "emodelelement_impl.go", "dynamiceobject_impl.go", "reflectiveeobject_impl.go", "basiceobject_impl.go"],
  [("reflective dispatch", "ecore/eclass_impl.go"), ("dynamic operations", "ecore/dynamiceobject_impl.go")], "EGet, ESet, EUnset, EIsSet, EInvoke against the typed methods")

p("P34", "Damaged databases are refused or give a usable model",
  "Loading a database which was cut short, altered or damaged terminates without panic or hang, and gives errors or a model every query works on and which can be saved. A database of another codec version, one which lacks a table it needs, or one which names objects, classes, packages or enumeration literals that do not exist is reported as an error of the resource. Whatever the outcome, no temporary file and no goroutine is left.",
  ["inputs", "fault_sequences"], "every change of a cell, row, column, table, page or byte of a valid database, every truncation, and every option of the loader",
  "Tests load valid databases, and a few broken ones made with mocks.",
  ["sqldecoder.go", "sqlbase.go", "sqlcodec.go", "eresource_impl.go"], [("decoder", "ecore/sqldecoder.go")], "LoadWithReader and resource errors")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
