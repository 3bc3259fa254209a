#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the statements stay readable and diffable).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("C01","Documents on different goroutines never affect each other",
 "Goroutines that each work only on documents of their own (reading, listing, editing, merging, saving as XMP or JSON, closing) each get exactly the results they would get running alone, in every interleaving. The state the library shares behind their backs causes no data race, deadlock, crash or mixed-up content.",
 ["schedules","programs"],"every interleaving of every set of per-goroutine programs over private documents, with node recycling, lazily filled caches and registrations in progress",
 "The tests never start a second goroutine; whether two documents are independent depends on the interleaving of statements that touch shared state.",
 ["xmp/node.go","xmp/typeinfo.go","xmp/registry.go","xmp/document.go","xmp/marshal.go","xmp/unmarshal.go"],
 [("bounded free list of tree nodes shared by all documents","xmp/node.go: nodePool, NewNode, Close"),("lock around the cached struct descriptions","xmp/typeinfo.go: tinfoLock, getTypeInfo"),("reader/writer lock around the namespace registry","xmp/registry.go: Registry.m")],
 ["results of Read, Unmarshal, GetPath, SetPath, ListPaths, Merge, Marshal, MarshalJSON, Close"],
 [("nodePool","recycled tree nodes","xmp/node.go"),("tinfoNsMap","lazily built struct descriptions","xmp/typeinfo.go"),("NsRegistry","all registered namespaces","xmp/registry.go")])

p("C02","Namespace registration and lookup are atomic under concurrency",
 "Concurrent registrations of namespaces (with groups), lookups by prefix or URI, and listings of namespaces, prefixes and groups take effect as if executed one at a time in an order consistent with real time: a namespace is visible through every lookup or through none, and a registration is never lost. No interleaving races, deadlocks or crashes, and lists handed to callers are theirs to modify without affecting the registry.",
 ["schedules","histories"],"every interleaving of bounded concurrent histories of registry operations",
 "No test registers or looks up concurrently; atomicity is a statement about all interleavings.",
 ["xmp/registry.go","xmp/namespace.go"],
 [("write lock over all three maps at registration, read lock at lookup","xmp/registry.go: RegisterNamespace, GetNamespace, GetPrefix, GetGroupNamespaces, Namespaces, Prefixes"),("copy of the group list on return","xmp/registry.go: GetGroupNamespaces")],
 ["Register, GetNamespace, NsRegistry.GetPrefix, NsRegistry.Short, NsRegistry.Namespaces, NsRegistry.Prefixes, GetGroupNamespaces"])

p("C03","An unchanged document can be read from many goroutines at once",
 "While nobody edits a loaded document, any number of goroutines may list it, get values by path, look up its models and namespaces, and save it as XMP or JSON at the same time. Each gets the same answers as a lone reader and no interleaving races or changes the document.",
 ["schedules","programs"],"every interleaving of read-only operations over one shared document",
 "The tests use one goroutine; a read path that secretly writes (caches, defaults, reordering) returns the right answer when run alone.",
 ["xmp/document.go","xmp/path.go","xmp/marshal.go","xmp/json.go","xmp/array.go","xmp/node.go"],
 [("reading, listing and encoding copy instead of modifying in place","xmp/marshal.go: Encode (copyNodes), xmp/path.go: GetPath, ListPaths"),("model sync on save runs only on changed documents","xmp/document.go: syncToXMP")],
 ["ListPaths, GetPath, FindModel, FindNode, Namespaces, Marshal, MarshalJSON on a shared document"])

p("C04","Recycling never leaks or corrupts content across documents",
 "Closing a document, removing a namespace, finishing or failing a load or a save recycles memory, but never changes the content of any document that is still open, and a newly opened document or node never starts with content of a released one. This holds over every history of open, edit, merge, save, failure, removal and (repeated) document close.",
 ["histories","fault_sequences"],"all histories over several documents with injected read, write and decode failures",
 "Tests never close and reuse within one history while checking an older document; corruption appears only when a recycled node is handed out again at a particular moment.",
 ["xmp/node.go","xmp/document.go","xmp/unmarshal.go","xmp/marshal.go","xmp/json.go","xmp/xmp_ext.go"],
 [("node reset on release and on reuse","xmp/node.go: Close, NewNode"),("deep copies between decoder tree, document tree and encoder tree","xmp/node.go: copyNode; xmp/unmarshal.go: decodeNode; xmp/marshal.go: Encode"),("document forgets its nodes when closed","xmp/document.go: Close")],
 ["content of live documents (ListPaths, Marshal, MarshalJSON) after each step of a history"],
 [("nodePool","recycled tree nodes","xmp/node.go")])

p("C05","Results do not depend on hash map iteration order",
 "The same operations on the same input give the same listing, the same values by path and saved XMP and JSON output with the same content on every execution, whatever order the runtime iterates hash maps in. In particular every namespace used in a saved document is declared exactly once per element and resolves to the right URI.",
 ["schedules","inputs"],"every iteration order of every hash map iterated by the library, for documents mixing many known and unknown namespaces",
 "Go randomises map iteration per run, so one test run sees one order and cannot compare orders.",
 ["xmp/document.go","xmp/marshal.go","xmp/unmarshal.go","xmp/json.go","xmp/node.go","xmp/filter.go","xmp/namespace.go"],
 [("namespaces are looked up by URI first and de-duplicated","xmp/unmarshal.go: findNs; xmp/marshal.go: findNs; xmp/namespace.go: RemoveDups"),("document order of nodes kept in lists, not maps","xmp/document.go: nodes"),("sorted listings","xmp/path.go: ListPaths")],
 ["ListPaths, GetPath, Marshal, MarshalJSON, FilterNamespaces, Merge"])

p("C06","Scanning finds exactly the embedded packets, however data arrives",
 "Scanning a stream that carries XMP packets among arbitrary other bytes returns exactly the complete packets, byte for byte and in stream order, no matter how the reader splits, delays or pads its deliveries or how far apart the packets are. Wrappers without the XMP magic and packets cut off by the end of the stream are not returned; a stream with no packet reports end of file, and a reader error is reported instead of a packet list.",
 ["schedules","inputs","fault_sequences"],"every content layout and every partition of the stream into reads, including empty reads, data returned together with EOF or an error, and errors at every offset",
 "Tests scan in-memory buffers or files in one fixed chunking; the result depends on where chunk boundaries fall relative to packet markers.",
 ["xmp/reader.go"],
 [("incremental splitter over a buffered scanner","xmp/reader.go: splitPacket"),("magic check","xmp/reader.go: isXmpPacket"),("scanner error wins over packets","xmp/reader.go: ScanPackets")],
 ["ScanPackets, Scan"])

p("C07","Reading yields every property of a packet, however the bytes arrive",
 "Every non-empty property of a well-formed XMP document is available after loading, under its path and with the value given, whether its namespace is known or unknown, whatever prefixes the file uses, whether it is written as attribute or element, nested structure, array or language alternative. The result is the same for every way the reader cuts the stream into deliveries.",
 ["inputs","schedules"],"all documents over the known models and unknown namespaces, all serialisation variants of the same properties, all partitions into reads",
 "Tests load sample files from memory and mostly check that no error occurs; the sample set fixes prefixes, syntax and chunking.",
 ["xmp/unmarshal.go","xmp/node.go","xmp/array.go","xmp/native.go","xmp/xmp_types.go","xmp/path.go","models/"],
 [("namespace translation to standard prefixes","xmp/unmarshal.go: translate, addNamespace, findNs"),("field lookup by tag and fall-back to external nodes","xmp/unmarshal.go: decodeNode, decodeAttribute, findStructField")],
 ["Read, Decode, Unmarshal then ListPaths, GetPath, models"])

p("C08","A failing or truncated stream never yields a document",
 "When the stream ends before the document is complete, or the reader reports an error at any point before that, loading reports an error and hands out no document, and never reports success with part of the content. The failure leaves the loader's other documents untouched, and loading the same data from a healthy stream afterwards gives the full document.",
 ["fault_sequences","inputs","crash_points"],"every truncation point and every reader error position and kind, for XMP and JSON input",
 "Tests only load complete streams; they contain no failing reader at all.",
 ["xmp/reader.go","xmp/unmarshal.go","xmp/node.go","xmp/json.go"],
 [("errors of the XML tokenizer end the decode","xmp/unmarshal.go: Decode; xmp/node.go: UnmarshalXML"),("no document on error","xmp/reader.go: Read, Scan")],
 ["Read, Scan, ScanPackets, Decode, Unmarshal, UnmarshalJSON"])

p("C09","Corrupted input never crashes or hangs the program",
 "For input damaged in storage or transit in any way, loading from XMP or JSON, scanning, and addressing by arbitrary paths terminate with an error or with a usable document, without panic or endless work. A document that was accepted can be listed, read at each listed path, edited, saved and closed, likewise without panic.",
 ["inputs","fault_sequences"],"every byte string, in particular every sequence of flipped, lost, duplicated or swapped bytes or elements of valid XMP, JSON and stream data, and every path string",
 "Tests feed well-formed samples only.",
 ["xmp/reader.go","xmp/unmarshal.go","xmp/json.go","xmp/path.go","xmp/node.go","xmp/array.go","xmp/xmp_types.go","models/"],
 [("errors instead of panics on unexpected structure","xmp/unmarshal.go, xmp/json.go, xmp/path.go")],
 ["Read, ScanPackets, Unmarshal, json.Unmarshal, GetPath, SetPath, ListPaths, Marshal, MarshalJSON, Close"])

p("C10","Every failed write is reported and leaves only a prefix behind",
 "If the destination reports an error or accepts less than it was given at any point of a save, the save returns an error, and the destination has received a prefix of what a healthy destination would have received, nothing out of order, repeated or invented. A save that reports success has delivered the complete document, header and footer included.",
 ["fault_sequences","crash_points","inputs"],"every position and kind of write fault (error, short write, disk full, one-off and lasting), with and without packet wrapper, padding, indentation and size limit",
 "Tests save to memory buffers that cannot fail.",
 ["xmp/marshal.go","xmp/document.go"],
 [("errors of the counting writer and XML encoder are passed on","xmp/marshal.go: Encode, countWriter.Write"),("final flush is checked","xmp/marshal.go: Encode")],
 ["NewEncoder(w).Encode against a simulated destination"])

p("C11","The size limit of a save is exact",
 "With a size limit set, a save never delivers more bytes than the limit; it succeeds exactly when the complete output fits and reports the overflow error otherwise. With padding requested, a successful packet is exactly as long as the limit and loads to the same content.",
 ["inputs","configurations","fault_sequences"],"every document, every limit around and below the size of the output, every combination of wrapper, padding and indentation, including destinations that accept writes piecewise",
 "No test sets a size limit.",
 ["xmp/marshal.go"],
 [("counting writer that stops at the limit","xmp/marshal.go: countWriter"),("padding computed from the bytes written so far","xmp/marshal.go: Encode step 4.4")],
 ["NewEncoder(w), SetMaxSize, SetFlags, Encode"])

p("C12","A failed save leaves the document ready for a retry",
 "After a save fails, because of the destination, the size limit or an error returned by one of the document's models, the document still has all its content and its unsaved changes. A later save to a healthy destination writes exactly what it would have written had the failure never happened, and other documents are unaffected.",
 ["fault_sequences","histories","crash_points"],"every fault position in a save, every number of failed attempts, every mix of edits between attempts",
 "Tests never let a save fail.",
 ["xmp/marshal.go","xmp/document.go","xmp/json.go"],
 [("change flag cleared only after all models were synchronised","xmp/document.go: syncToXMP"),("encoder works on copies of external nodes","xmp/marshal.go: Encode")],
 ["Encode / Marshal / MarshalJSON, ListPaths, IsDirty after a failed save"])

p("C13","An acknowledged XMP save survives a crash and restart",
 "Once a save as XMP is acknowledged, a program restarted with nothing but the saved bytes loads every non-empty property of the document, in known models and unknown namespaces alike, with the same value, structure, order and language. Any number of further save-and-restart generations changes nothing.",
 ["crash_points","histories","inputs"],"every document over all models and property types and unknown namespaces, every sequence of edits, saves and restarts",
 "Round-trip tests load a few samples, compare little of the content and never edit between generations.",
 ["xmp/marshal.go","xmp/unmarshal.go","xmp/document.go","xmp/array.go","xmp/native.go","xmp/xmp_types.go","xmp/xmp_ext.go","models/"],
 [("matching encoder and decoder per type","xmp/array.go, xmp/xmp_types.go, xmp/xmp_ext.go, models/*"),("external nodes and attributes kept next to models","xmp/unmarshal.go: decodeNode, decodeAttribute; xmp/marshal.go: Encode")],
 ["Marshal / Encode then Unmarshal / Read in a fresh process"])

p("C14","An acknowledged JSON save survives a crash and restart",
 "Once a document is saved as JSON, a program restarted with nothing but those bytes loads every non-empty property, in known models and unknown namespaces alike, with the same value, structure, order and language, and saving the result as XMP or JSON again gives the same content.",
 ["crash_points","histories","inputs"],"every document over all models and property types and unknown namespaces, every sequence of edits and restarts through XMP and JSON",
 "JSON tests only check that the calls return no error on samples.",
 ["xmp/json.go","xmp/array.go","xmp/xmp_types.go","xmp/xmp_ext.go","models/"],
 [("models use their JSON form, external nodes a generic one","xmp/json.go: MarshalJSON, UnmarshalJSON, nodeToJson, jsonToNode")],
 ["json.Marshal then json.Unmarshal in a fresh process"])

p("C15","Acknowledged edits are what later reads see; refused edits change nothing",
 "An edit through a property path, a typed model or a sync between properties that reports success is visible when its path is read, in the listing, and after every later save and restart, with exactly the effect its create, replace, append, unique and delete flags prescribe, and touches no other property. An edit that reports an error leaves the content of the document as it was.",
 ["histories","programs","crash_points"],"every sequence of edits with every flag combination over known and unknown properties, simple, array and language values, interleaved with saves, failed saves and restarts",
 "The tests set a few paths with one flag combination each and never restart.",
 ["xmp/path.go","xmp/node.go","xmp/sync.go","xmp/array.go","xmp/document.go"],
 [("flag rules","xmp/path.go: SetPath, SetModelPath; xmp/node.go: SetPath; documented in xmp/sync.go")],
 ["Document.SetPath, GetPath, ListPaths, Marshal"])

p("C16","Removed or filtered namespaces are gone for good, all else is kept",
 "After a namespace is removed from a document, or a filter with include and exclude lists is applied, no property of a removed namespace is listed, readable by path, or present in anything saved later, across restarts. Every property of the kept namespaces is still there unchanged.",
 ["histories","configurations","crash_points"],"every document, every filter over known, unknown and grouped namespaces, every interleaving with edits, saves and restarts",
 "The filter test checks one document and one filter in one state.",
 ["xmp/filter.go","xmp/document.go","xmp/namespace.go"],
 [("include list removes everything else, exclude list removes the listed","xmp/filter.go: Apply; xmp/document.go: FilterNamespaces, RemoveNamespaces, RemoveNamespace")],
 ["Filter.Apply, RemoveNamespace, RemoveNamespaceByName, then ListPaths, GetPath, Marshal, MarshalJSON"])

p("C17","Merging transfers every property and entangles nothing",
 "After merging one document into another, the destination holds every property of the source that was missing from it, keeps or replaces its own according to the flags, and loses nothing; the source is unchanged. From then on editing, saving or closing either document has no effect on the other.",
 ["histories","programs"],"every pair of documents, the documented flag combinations, every later history on both documents including close and restart",
 "The merge test merges two fixed documents once and checks one direction.",
 ["xmp/sync.go","xmp/path.go","xmp/node.go"],
 [("merge by listing the source and setting each path","xmp/sync.go: Merge")],
 ["Document.Merge then ListPaths, GetPath, Marshal on both documents"])

# properties outside the reach of this family (pure functions of their input)
p("C18","Text forms of numbers, rationals, dates and units convert without loss",
 "Parsing the text form of a rational, real, integer, date, GPS coordinate, unit or identifier and formatting it again yields an equivalent text for every valid input, and invalid text is refused.",
 ["inputs"],"all valid and invalid text forms","Tests sample a few values.",
 ["xmp/native.go","xmp/xmp_types.go","xmp/units.go","models/exif/types.go"],
 [("UnmarshalText / MarshalText pairs","xmp/xmp_types.go, models/*/types.go")],["UnmarshalText, MarshalText, Parse*"])
p("C19","Version ranges select struct fields exactly",
 "A field limited to a range of format versions is read and written exactly for versions inside the range, and version comparison is a total order consistent with numeric major, minor and patch.",
 ["inputs","configurations"],"all versions and ranges","Tests cover a handful of ranges.",
 ["xmp/semver.go","xmp/typeinfo.go"],[("Between","xmp/semver.go")],["SetVersion on encoder and decoder"])
p("C20","Path arithmetic is consistent",
 "Splitting a property path into segments and joining them again gives the same path, and push, pop, index and namespace queries agree with each other for every path.",
 ["inputs"],"all paths","Tests sample paths.",["xmp/path.go"],[("Push, Pop, PopFront, Fields","xmp/path.go")],["Path methods"])
p("C21","Native values of a file format and the standard properties they stand for stay in step",
 "A native value of a container format (EXIF, TIFF, RIFF, PDF, ID3, iXML) whose standard property is absent becomes the value of that property when the document is saved. Where both exist exactly one of them is saved, whole and unmixed: the standard one, except that ID3 frames, iXML fields and the EXIF digitized date and GPS tags replace it. The native tags of a loaded document read the value of the standard property. Further saves, failed saves, crashes and restarts change none of this, a removed standard property does not come back from copies the EXIF, TIFF, RIFF and PDF models made of it, and no other property changes. Values composed of several native ones (the start time code from the iXML speed group, the location from QuickTime tags) follow from all of them. The explicit synchronisation of models adds each identifier of a format to the identifiers of the document exactly once and keeps those already listed, in order.",
 ["histories","inputs","crash points"],"all combinations of native and standard values, every history of changes on both sides with saves, failed saves, crashes and restarts",
 "Tests load sample files whose values agree already; none changes one side and saves.",
 ["models/","xmp/sync.go","xmp/document.go"],[("SyncFromXMP and SyncToXMP per model","models/*/model.go, models/*/sync.go"),("SyncModel per model and Document.Sync","models/*/model.go, xmp/sync.go"),("clearCopies","xmp/document.go")],["SetTag, GetTag, SetPath, SyncModels, then Marshal, Unmarshal"])
p("C22","Native file-format tags are the properties they map to",
 "A value set through a native tag of a container format (ID3, QuickTime, RIFF, iTunes, EXIF, PDF and the other models) with reported success is what the same tag reads and the tag list shows, it becomes the value of exactly the property the tag stands for, no other property or tag changes, and it survives failed saves, saves and restarts. Properties of a loaded document read the same through their tags. A tag or value that is refused, or unknown, changes nothing, and every known tag is reported as known.",
 ["histories","inputs","crash points"],"all tags of all models, every valid, empty and invalid value, every history of tag and document operations with failed saves, crashes and restarts",
 "The only tag test exercises one model and one tag, and never saves.",["models/","xmp/native.go"],
 [("native fields of a model","xmp/native.go: SetNativeField, GetNativeField, ListNativeFields"),("tag tables and dispatch","models/id3, models/qt, models/exif: SetTag, GetTag, CanTag")],["SetTag, GetTag, CanTag, ListTags, SetLocaleField, then ListPaths, Marshal, Unmarshal"])

p("C23","The media management model keeps a faithful record",
 "Events, versions, changes and embedded documents recorded through the media management model (AddHistory, AddVersion, AppendVersionHistory, AddPantry, ingredients) are each recorded exactly once and behind the earlier ones, which stay as they were; a change is added to the last version if that has the current version number and makes a new version otherwise. The queries (last event, last and previous version, ingredient by document) answer from what was recorded, a reference to the document itself carries its current identifiers and the date of its last event, removing an ingredient removes that one, and an embedded document holds the properties its source had at that time, and no others, whatever happens to the source later. All of it, and embedded documents that were loaded, survives failed saves, saves and restarts.",
 ["histories","inputs","crash points"],"every history of recorded events, versions, changes, references, removals and embedded documents of any content, with edits of all documents, failed saves, crashes and restarts in between",
 "No test calls the recording functions of the model.",["models/xmp_mm/","xmp/xmp_ext.go","models/xmp_dm/types.go"],
 [("recording and queries","models/xmp_mm/model.go"),("references, versions and events","models/xmp_mm/types.go"),("embedded documents","xmp/xmp_ext.go: Extension, ExtensionArray"),("lists of changed parts","models/xmp_dm/types.go: PartList")],["AddHistory, AddVersion, AppendVersionHistory, AddPantry, SelfResourceRef, Ingredients.DeleteIndex, then queries, ListPaths, Marshal, Unmarshal"])

here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
