prop("M01", "Heap memory is freed exactly once, by the allocator it came from",
     "Every block of memory the library allocates is, on every path including every error path, freed exactly once or handed "
     "to an owner that outlives the call: none becomes unreachable without being freed, none is freed twice and only the start "
     "of a block is ever freed. A block goes back to the same family (configured, aligned or C library) that provided it.",
     ["inputs", "fault_sequences", "configurations"],
     "all paths through every function callable from outside its file, each allocation, read and callee independently succeeding or failing",
     "The tests reach the success paths and a few bad files; allocation failures and most of the error paths after a partial "
     "initialisation are never taken, so a leak or double free on them is invisible.",
     ["collection.c", "cache.c", "dataset.c", "list.c", "headers.c", "overrides.c", "properties.c", "evidence.c", "file.c", "pool.c", "resource.c", "string.c", "ip.c", "value.c"],
     [("free on each error exit", "collection.c createFromFile*, dataset.c init*, headers.c fiftyoneDegreesHeadersCreate"),
      ("configured allocation functions", "memory.c fiftyoneDegreesMalloc/Free and the aligned pair")],
     AI, AI_NOTE)
prop("M02", "Freed memory is never used again nor left reachable",
     "Once the library frees a block, no later operation on that path reads or writes it, and when the call returns no "
     "structure the caller still holds (an item, a data set, a collection, an output parameter) points to it.",
     ["inputs", "fault_sequences", "configurations"],
     "all paths through every externally callable function, including every read, parse and allocation failure",
     "Use after free on an error path needs that error to occur; the tests inject almost none, and dangling pointers left in "
     "caller structures only hurt on a later call.",
     ["collection.c", "dataset.c", "headers.c", "overrides.c", "resource.c", "pool.c", "cache.c", "file.c"],
     [("pointers cleared with the memory", "data.h fiftyoneDegreesDataReset, collection.c fiftyoneDegreesCollectionReadFile*, dataset.c fiftyoneDegreesDataSetFree")],
     AI, AI_NOTE)
prop("M03", "A failed allocation is detected before the memory is used",
     "When an allocation fails, at any allocation in the library, the failure is detected before the memory would be read or "
     "written: the library never dereferences the result of an allocation that returned nothing.",
     ["fault_sequences", "inputs"],
     "every allocation call, each failing independently of the others",
     "No test makes the allocator fail.",
     ["collection.c", "cache.c", "list.c", "headers.c", "overrides.c", "properties.c", "evidence.c", "file.c", "pool.c", "resource.c", "status.c", "exceptionsc.c"],
     [("NULL check after every allocation", "throughout, reported as INSUFFICIENT_MEMORY")],
     AI, AI_NOTE)
prop("G01", "Every build configuration compiles and links",
     "With every combination of the supported build options (no threading, memory only, exceptions disabled, memory tracking, "
     "cache validation, debug) the C sources compile and every function and object the library uses or declares in its headers "
     "is defined exactly once; the C++ sources compile with every combination that keeps exceptions, and each header compiles when "
     "it is the only one included.",
     ["configurations"],
     "all combinations of the six build macros over all translation units (quick: pairs)",
     "The test build compiles one configuration.",
     ["common.h", "threading.h", "exceptions.h", "collection.h", "memory.h", "cache.h", "pool.c", "resource.c"],
     [("conditional compilation", "#ifdef FIFTYONE_DEGREES_NO_THREADING, _MEMORY_ONLY, _EXCEPTIONS_DISABLED, _MEMORY_TRACK_ENABLED, _CACHE_VALIDATE")],
     "compilation of every macro combination and resolution of all symbols",
     "Exhaustive over the macro combinations for the compilers present (clang 18, x86-64 Linux); MSVC-only branches are not seen.")
prop("C01", "Collection items are released exactly once and not used afterwards",
     "Every item obtained from a collection (through its get method or a callback which fetches one) is, on every path of the "
     "function that fetched it, released exactly once through the collection it was fetched from, or handed to the caller or to a "
     "structure that keeps it. Data reached through an item is not read after the item is released, and an item into which nothing "
     "was retrieved is not released. Items returned to the caller through an item parameter are still held.",
     ["inputs", "fault_sequences", "histories"],
     "all paths of every externally callable function that handles items, each retrieval and comparison succeeding or failing",
     "With in-memory collections release does nothing, so most tests cannot see a missing, repeated or misdirected release; with "
     "file and cache collections it costs a pinned cache entry or a pooled file handle, which only shows after many requests.",
     ["collection.c", "component.c", "profile.c", "property.c", "properties.c", "value.c", "headers.c", "dataset.c", "list.c", "overrides.c"],
     [("get/release discipline", "COLLECTION_RELEASE in collection.h and each caller of collection->get")],
     AI, AI_NOTE)
prop("C02", "A retrieval or search that fails is never used nor reported as found",
     "When a retrieval from a collection fails, the data of the item is not read, and the failure is not turned into a successful "
     "result: a search returns an index of zero or more only while the item found is held by the item parameter, and when a function "
     "returns nothing (NULL or a negative index) the caller's item holds nothing that would have to be released. Items are reset "
     "before they are used for a retrieval.",
     ["inputs", "fault_sequences"],
     "all paths of every externally callable function that handles items, each retrieval and comparison succeeding or failing",
     "Retrievals only fail for corrupt data, I/O errors or exhausted handles, none of which the tests inject into the look-ups.",
     ["collection.c", "component.c", "profile.c", "property.c", "properties.c", "value.c", "headers.c"],
     [("failure results", "collection.c fiftyoneDegreesCollectionBinarySearch, value.c, profile.c, property.c lookups")],
     AI, AI_NOTE)
prop("F01", "Files and handles opened are closed exactly once and not used afterwards",
     "Every stream or directory listing the library opens, and every handle it takes from a file pool, is on every path of the "
     "function that opened it closed, or given back to its pool, exactly once, or handed to the caller or to a structure that keeps "
     "it. It is not used after that, an open that failed is never used or closed, and nothing is closed that was not opened.",
     ["inputs", "fault_sequences", "configurations"],
     "all paths of every externally callable function that opens, uses or closes files, each open, read, seek and write succeeding or failing",
     "A leaked handle only shows when the process runs out of descriptors or the pool runs dry, and its cause is a failure in the "
     "middle of an operation that the tests do not inject.",
     ["file.c", "collection.c", "dataset.c", "textfile.c", "yamlfile.c", "pool.c"],
     [("open and close pairs", "file.c fiftyoneDegreesFileCopy, FileReadToByteArray, FileWrite, isFileInUse, iterateFiles; collection.c readers; textfile.c, yamlfile.c")],
     AI, AI_NOTE)
prop("E01", "No failure is reported as success",
     "When an allocation, an open, read, write, seek or close of a file, a retrieval from a collection, or a call of another function "
     "that reports failures, fails and is not made good by a later successful attempt, the function it happened in does not "
     "return the success status; a function that takes an exception leaves it set, or returns nothing or a negative result; and a "
     "creator that takes no exception does not return an object.",
     ["fault_sequences", "inputs", "configurations"],
     "every path of every function (helpers inlined, functions that report a status or exception judged by it), every failing operation independently",
     "The tests inject none of these failures, and a swallowed failure only shows as wrong results later.",
     ["file.c", "collection.c", "dataset.c", "component.c", "properties.c", "yamlfile.c", "pool.c", "resource.c", "headers.c", "overrides.c"],
     [("status codes and exceptions", "status.h, exceptions.h; each function returning fiftyoneDegreesStatusCode or taking fiftyoneDegreesException")],
     "disjunctive abstract interpretation of LLVM IR (failure typestate carried along each path)", AI_NOTE)
prop("T01", "Shared data is only accessed under its lock",
     "Data a mutex guards (the lists and counters of a cache shard, the memory tracker, the state of a signal) is only read or "
     "written while that mutex is held by the caller, by every thread. Each mutex taken is released exactly once on every path, "
     "never taken twice by one thread nor taken in an order that could deadlock, and a thread that waits re-checks its condition "
     "and is woken by each change of it.",
     ["schedules", "inputs", "fault_sequences"],
     "every access to the guarded data and every lock, unlock and wait on all paths of the functions of the files which take locks",
     "A missing lock only shows under an interleaving the tests do not force, and a lock kept on an error path needs the error.",
     ["cache.c", "memory.c", "threading.c"],
     [("shard locks", "cache.c fiftyoneDegreesCacheGet/Release"), ("tracker locks", "memory.c trackAllocation/untrackAllocation"),
      ("signals", "threading.c fiftyoneDegreesSignal*")],
     "lockset analysis by path-sensitive abstract interpretation of LLVM IR", AI_NOTE)
prop("T03", "Serving requests changes nothing that is shared",
     "Functions that serve requests (look-ups of properties, values, profiles, components and headers, evidence and override "
     "handling, reads of collections and caches) do not write to the data set, its collections, headers, properties, indexes or "
     "configuration, nor to any variable of the library or hidden state of the C library, outside of what a lock or an atomic "
     "operation guards: any number of them can run at the same time.",
     ["schedules", "inputs", "histories"],
     "every write reachable from every exported request function, function pointers resolved to all their targets",
     "A write to shared state only shows when two requests interleave on it.",
     ["collection.c", "cache.c", "component.c", "profile.c", "property.c", "properties.c", "value.c", "headers.c", "overrides.c", "evidence.c", "string.c", "status.c"],
     [("read-only access to shared data", "throughout the look-up functions"), ("configured evidence prefixes, status messages", "evidence.c _map, status.c messages")],
     "interprocedural effect analysis of LLVM IR", 
     "Sound for writes through typed fields and globals; memory is identified by struct type and field. Which functions serve requests is "
     "decided by their names. Assumes the C library functions not listed are free of shared state.")

prop("T02", "A pool never hands out an item twice, nor loses one",
     "However many threads take items from a pool and put them back, an item taken belongs to the thread that took it until that "
     "thread puts it back, an item put back can be taken again together with all those that were free before, and nothing is handed "
     "out (but a failure is reported) exactly when the pool is exhausted. A new pool holds every resource created for it, and counts them.",
     ["schedules", "histories", "fault_sequences"],
     "every path of every function that changes the head of a pool, any number of retries, any interference between its atomic operations",
     "The interleavings which break a lock-free list (another thread taking and putting back between read and exchange) are not forced by the tests.",
     ["pool.c", "pool.h", "interlock.h"],
     [("lock-free free list", "pool.c fiftyoneDegreesPoolItemGet, fiftyoneDegreesPoolItemRelease"), ("version beside the index", "pool.h fiftyoneDegreesPoolHead aba"),
      ("null item at index 0", "pool.c fiftyoneDegreesPoolInit")],
     "byte-provenance abstract interpretation of LLVM IR (compare-and-exchange protocol)",
     "Each value compared and stored is traced byte by byte to the read it came from. Decides the protocol of each operation; that the protocol "
     "makes the list linearizable is the usual argument for a versioned stack, limited by the 16 bit version wrapping round.")
prop("R01", "A shared resource is freed once, after its last user",
     "When a data set is replaced while it is in use, every user keeps the one it obtained until it is released; the old one is freed "
     "exactly once, after its last user has released it and not while it is active, and the new one is only seen once it is complete. "
     "Each use obtained is counted exactly once and given up exactly once, whatever other threads do in between.",
     ["schedules", "histories", "fault_sequences"],
     "every path of every function which changes the active handle or the use counter of a resource, any number of retries, any interference between atomic operations",
     "A lost count or double free needs a replacement to fall between two instructions of a reader.",
     ["resource.c", "resource.h", "dataset.c", "interlock.h"],
     [("use counter beside the handle pointer", "resource.c fiftyoneDegreesResourceHandleIncUse, fiftyoneDegreesResourceHandleDecUse"),
      ("exchange of the active handle", "resource.c fiftyoneDegreesResourceReplace"), ("data set get and release", "dataset.c")],
     "byte-provenance abstract interpretation of LLVM IR (compare-and-exchange protocol)",
     "Decides the protocol of each operation on any interleaving. Two windows in which the design reads a handle it has no use of are recorded as known findings.")

prop("K01", "A cache keeps what is in use and gives each key its own data",
     "A cached item is found under its own key only and is not evicted, moved to another key or released while anyone who obtained it "
     "has not released it; when it is released by the last user it becomes available for eviction again. The least recently used item "
     "that nobody uses is the one evicted, nothing stays in the cache that was not loaded, nothing is lost from it, whatever the history "
     "of requests, releases and failures to load; any hash selects a shard that exists.",
     ["schedules", "histories", "fault_sequences", "inputs"],
     "every path of every function which changes the lists, trees or use counts of a cache, from every list and tree that is well formed, with loads that succeed or fail",
     "Evicting an item in use or losing a node takes a history of hits, misses, releases and failed loads which fills a shard, usually from several threads.",
     ["cache.c", "cache.h", "collection.c", "tree.c", "data.c"],
     [("linked list of nodes not in use", "cache.c moveToHead, addToHead, getNext"), ("node taken out of the list while in use", "cache.c fiftyoneDegreesCacheGet, fiftyoneDegreesCacheRelease"),
      ("cached collections", "collection.c getFromCache, releaseCache")],
     "shape analysis (materialising shape graphs) over LLVM IR",
     "The list is materialised node by node around the nodes a path touches, the rest is summarised. Red-black tree operations are taken by their "
     "contract (insert, delete and find by key). Loops are followed three times; a path that goes on longer is counted in the evidence.")

prop("U01", "Nothing is used before it is initialised or handed out incomplete",
     "A variable or a field of a new object is not read before it was assigned, on any path; an object that is created and returned, or "
     "stored where it outlives the call, and one that an initialising or resetting function was given, has every field assigned when the "
     "call succeeds.",
     ["inputs", "fault_sequences", "configurations"],
     "all paths of every externally callable function, each allocation and callee independently succeeding or failing",
     "Fresh memory is often zero by chance in a test process, and the fields left out are mostly those read on rarer paths.",
     ["collection.c", "cache.c", "dataset.c", "list.c", "headers.c", "properties.c", "evidence.c", "file.c", "pool.c", "resource.c", "tree.c", "string.c"],
     [("creators and initialisers", "collection.c createFrom*, cache.c CacheCreate, resource.c setupResource, *Init and *Reset functions"),
      ("items and data reset before use", "data.h fiftyoneDegreesDataReset")],
     "disjunctive abstract interpretation of LLVM IR (bytes never written, per object and path)", AI_NOTE)

prop("B01", "Every access stays inside the object it goes to",
     "No read or write goes before the start or past the end of a local, a global, an allocation, a buffer passed with its length, or the "
     "items of a counted array. A collection hands out, and seeks to, only entries it has: an index at or above its count and an offset at "
     "or above its size are refused with an exception. This holds for any file content, evidence, path and index.",
     ["inputs", "configurations"],
     "all paths of every externally callable function, any value of every argument and of everything read",
     "An access one past the end needs an input that fills the buffer or array exactly, and then usually goes unnoticed.",
     ["collection.c", "headers.c", "properties.c", "overrides.c", "evidence.c", "pseudoheader.c", "file.c", "textfile.c", "yamlfile.c", "ip.c", "status.c", "exceptionsc.c", "list.c"],
     [("collection getters", "collection.c getMemoryFixed, getMemoryVariable, getPartial*, fiftyoneDegreesCollectionReadFilePosition"),
      ("counted arrays", "array.h FIFTYONE_DEGREES_ARRAY_TYPE and its users"),
      ("buffers with a length", "file.c fiftyoneDegreesFileGetPath, temporary file names; textfile.c; yamlfile.c")],
     "disjunctive abstract interpretation of LLVM IR (linear inequalities between offsets, indexes, counts and sizes)",
     AI_NOTE + " Accesses at a distance from the limit that linear inequalities over the path cannot express are counted in the evidence and not decided.")

prop("L01", "Every loop makes progress towards its end",
     "Each time round any loop of the library, something that decides when the loop ends advances: a counter, a position in a string, list, "
     "tree, file or collection, or the interval of a search shrinks. No value of any input, item or evidence makes a loop repeat the same step for ever.",
     ["inputs"],
     "every way round every loop, any value of everything read, any result of every comparison and callee",
     "A loop that hangs does so for the one input that takes the path which forgot to advance: a duplicate, an empty item, a middle equal to a bound.",
     ["collection.c", "headers.c", "profile.c", "properties.c", "overrides.c", "evidence.c", "textfile.c", "yamlfile.c", "ip.c", "tree.c", "string.c", "component.c"],
     [("binary search", "collection.c fiftyoneDegreesCollectionBinarySearch"),
      ("iteration over values and profiles", "profile.c iterateValues, fiftyoneDegreesProfileIterateProfilesForPropertyAndValue"),
      ("parsing", "headers.c createSegmentArray, overrides.c extractProfileIds, textfile.c returnNextLine, ip.c")],
     "per-loop transfer functions from LLVM IR: dependence closure of the exits and self-dependence of what changes",
     "A way round is reported only when everything the exits depend on provably repeats; loops driven by data structures end because those are finite.")

prop("D01", "Records of a data file are read as the format lays them out",
     "Each record type has the size, the member offsets and the member types of the file format, in C and C++. Each accessor reads the member "
     "it is named after and asks its collection for the item at that offset or index. The number of bytes a string, a component or a profile "
     "takes is worked out from the member that counts its parts, by the format's formula, from bytes that were read.",
     ["inputs", "configurations"],
     "every record type and number stored in files; every path of every accessor; any value of every member",
     "Test data is small and uniform: swapped offsets that are both zero, counts of one and short strings give the same results.",
     ["component.h", "component.c", "profile.h", "profile.c", "property.h", "property.c", "value.h", "value.c", "string.h", "string.c", "date.h", "float.h", "collection.h"],
     [("record types", "component.h, profile.h, property.h, value.h, string.h, date.h packed structures"),
      ("accessors", "property.c fiftyoneDegreesPropertyGet*, value.c fiftyoneDegreesValueGet*, component.c, profile.c"),
      ("sizes of items", "string.c getFinalStringSize, component.c getFinalComponentSize, profile.c getFinalProfileSize")],
     "compile-time witnesses (static assertions) and affine value analysis of LLVM IR paths, modulo the width of the arithmetic",
     "The format is the one the pinned commit reads; it is written out in engine/layout.py.")

prop("X01", "Status codes, evidence prefixes and short names mean one thing each",
     "Every status code a caller can get has one message, which says what the code means and has no conversion but one for the file's name. "
     "Every kind of evidence is a bit of its own and has one prefix, of the length given, which is not the start of another. Every short name "
     "in fiftyone.h stands for something that exists, and for its own long name where there is one.",
     ["inputs", "configurations"],
     "every status code, every kind of evidence, every short name, in every configuration",
     "Tests ask for a few messages and prefixes, and use some of the short names.",
     ["status.c", "status.h", "evidence.c", "evidence.h", "fiftyone.h"],
     [("messages", "status.c messages, fiftyoneDegreesStatusGetMessage"), ("prefixes", "evidence.c _map"), ("short names", "fiftyone.h macros")],
     "checks over constant initialisers in LLVM IR, enumerations and preprocessor macros; existence decided by the compiler",
     "What a message and a prefix should say is written out in engine/tables.py. NOT_SET is never returned and has no message.")

prop("S01", "Searches and sweeps leave no entry out",
     "A loop over the entries of a counted array, a list, a constant table or a collection looks at the first entry, at each one after it and "
     "at the last, unless it is done before. A binary search leaves out only entries which how the one looked at compares rules out, "
     "goes on until nothing is left, and is started with the whole collection or the whole range of a property's values.",
     ["inputs"],
     "every loop with an index into counted entries, every way round the binary search, any count and any result of every comparison",
     "What is skipped is one entry at an end, or every other one of some kind: a test finds it only with the entry it looks for there.",
     ["collection.c", "headers.c", "properties.c", "overrides.c", "evidence.c", "profile.c", "value.c", "list.c", "dataset.c", "pseudoheader.c", "cache.c", "status.c", "property.c"],
     [("binary search", "collection.c fiftyoneDegreesCollectionBinarySearch; profile.c, value.c callers"),
      ("lookups by name", "headers.c getHeaderIndex, properties.c, overrides.c getRequiredPropertyIndexFromName, property.c fiftyoneDegreesPropertyGetByName"),
      ("release and reset of every item", "list.c fiftyoneDegreesListRelease, headers.c fiftyoneDegreesHeadersFree, overrides.c")],
     "induction variables of natural loops in LLVM IR (first value, step on every path, limit) and interval transfer of the binary search",
     "Loops that are left early for another reason than having found what they look for are not decided; neither are loops over linked structures.")
