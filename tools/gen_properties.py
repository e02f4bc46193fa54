import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
DB="lib/src/database.rs"; MEM="lib/src/memory/datastore.rs"; RDS="lib/src/rdb/datastore.rs"; RMG="lib/src/rdb/managers.rs"; UT="lib/src/util.rs"
p("C01","Every history of operations leaves exactly the graph it describes",
 "After any sequence of creating, deleting and updating vertices, edges and properties, on the in-memory or the RocksDB store, what the store returns (vertices with their types, edges, properties, and each operation's own answer such as whether a vertex was created) is exactly what a plain reference graph gives for the same sequence. Creating a vertex whose id is taken answers false and keeps the existing type; creating an edge answers true exactly when both ends exist and creating it again changes nothing; setting a property replaces its value on the selected elements.",
 ["histories","inputs","configurations"],"all operation sequences over small colliding ids, types and property names, on both stores, in builds with and without debug assertions, from empty and from pre-populated stores",
 "The suite runs some dozens of fixed short scripts, each on a fresh store in a debug build; it never enumerates sequences, so order-dependent damage (delete, recreate, set again) is not reached.",
 [DB,MEM,RDS,RMG],[("Transaction implementations",MEM),("Transaction implementations",RDS),("key/value managers",RMG)],
 [("vertices/edges/properties","the graph",MEM),("column families","the graph on disk",RMG)],["Database::get after every operation, return values"])
p("C02","Deleting a vertex removes everything that hangs off it, and nothing else",
 "When a vertex is deleted, its properties, every edge that leaves or enters it, and those edges' properties are gone from every kind of query; every other vertex, edge and property is untouched. Re-creating a deleted vertex or edge yields one with no properties, edges or index hits left over from before.",
 ["histories","inputs"],"all small multigraphs (self-loops, parallel types, both directions, boundary ids) and every vertex or edge subset deleted, followed by re-creation",
 "Tests delete a vertex in one or two shapes; none deletes the inbound end of an edge and then re-creates it and looks at all views.",
 [MEM,RDS,RMG],[("delete cascade",RMG),("delete cascade",MEM)],[("reversed edges","inbound adjacency",MEM)],["all listing, adjacency, property and index queries before and after"])
p("C03","Edge listings, both directions of traversal, and counts always agree",
 "In every reachable state the edges found by listing all edges, by walking outbound from every vertex, by walking inbound to every vertex, by asking for each edge specifically, and by counting are the same set; the vertex listing, the id-range listing, specific lookups and the vertex count agree likewise. Traversal filtered by type returns exactly the edges (or vertices) of that type, also when one type's name is a prefix of another's.",
 ["histories","inputs"],"all graphs reachable by short histories over boundary ids (nil, adjacent, all-ones) and types that are empty, prefixes of each other, non-ASCII and 255 bytes long",
 "Tests check one view at a time on a handful of random ids; agreement between redundant on-disk views is never checked over a state space.",
 [DB,MEM,RMG,UT],[("forward and reversed edge ranges",RMG),("range scans",DB)],[("edge_ranges / reversed_edge_ranges","two copies of the edge set",RMG)],["Database::get"])
p("C04","Queries on an indexed property return exactly the elements that match now",
 "Once a property name is indexed, asking for vertices or edges that have it, or that have it with a given value, returns each existing matching element and no other, as the property reads at that moment, no matter whether values were set, overwritten or deleted before or after indexing, singly or in bulk. Filtering a query's results by presence, absence, equality or inequality agrees with this, and on a name that was never indexed all of these are refused.",
 ["histories","inputs"],"all histories of index, set, overwrite, delete, re-create and bulk insert over two names and a few values (including structurally similar and hash-colliding values) on vertices and edges, both stores, with and without debug assertions",
 "Index tests use one property, one value and one order of events; stale or missing index entries need particular orders and particular value pairs.",
 [MEM,RDS,RMG,DB],[("property value index",MEM),("value managers",RMG),("index_property backfill",RDS)],[("property_values","value index",MEM),("*_property_values column families","value index",RMG),("indexed_properties","which names are indexed",RDS)],["index queries vs. property reads"])
p("C05","A composed query returns what evaluating it stage by stage returns",
 "For every composition of vertex and edge sources with traversal, type filters, limits, property filters, property fetches, inclusion of intermediate results and counting, the result is what applying each stage to the previous stage's result gives: limits cap the stage's own filtered output, duplicates are kept, included intermediates appear in order before the final result, and counts equal the number of results. A composition that makes no sense is refused, whether it is built through the checked constructors or not.",
 ["programs","inputs"],"all query compositions up to a nesting depth over a menu of stages and parameters, on several small graphs, both stores",
 "Tests exercise about fifty hand-picked queries; interactions of limit, filter, direction, include and count are not enumerated.",
 [DB,"lib/src/models/queries.rs"],[("query evaluator",DB),("constructors",  "lib/src/models/queries.rs")],(),["Database::get output vector"])
p("C06","Paging through vertices visits each exactly once, in id order",
 "Listing vertices from a start id returns the existing vertices whose id is at or after it, in ascending id order, filtered by type and then capped by the limit, so that walking page by page from the successor of the last id seen visits every vertex of the type exactly once. This holds for every start id and page size, including nil and all-ones ids, zero limits, and ids that do not exist.",
 ["inputs","histories"],"all subsets of a set of boundary ids and types, all start ids in and around it, all page sizes",
 "Tests page over a few random ids; carries at byte boundaries and the last id are not reached.",
 [DB,UT,MEM,RMG],[("range scan",DB),("next_uuid",UT),("range keys",RMG)],(),["Database::get(RangeVertexQuery)"])
p("C07","Query-driven deletes and updates touch exactly what the query selects",
 "Deleting by a query removes exactly the elements (or exactly the property values) that the same query would have returned just before, with the cascade of vertex deletion and nothing more; setting a property by a query assigns it on exactly those elements. Properties of the same name on other elements, other properties of the same element, and longer or shorter names sharing a prefix are unaffected.",
 ["inputs","histories"],"all queries of a menu (sources, traversals, filters, limits, property fetches, includes) as selectors for delete and set, on all small populated states, both stores",
 "Tests delete by one or two selectors on tiny graphs and look only at the element deleted, not at everything else.",
 [DB,MEM,RDS,RMG],[("delete and set_properties",DB),("prefix scans over owner keys",RMG)],(),["full dump before and after"])
p("C08","A refused or failed operation leaves no trace and breaks nothing after it",
 "An operation that answers with an error or with 'not created', whether refused for its arguments or failed because the storage engine reported an error at any point, leaves the visible state unchanged, and later operations behave as if it had never been issued, including a retry of the same operation. No request makes the store panic or refuse further requests, and a query during which the storage reported an error is not answered as a success with missing data.",
 ["fault_sequences","inputs","histories"],"every operation of the alphabet from several states, with every single call into the storage engine failing in turn (and pairs in the thorough tier), followed by observation and a retry; every ill-typed query and request",
 "Tests inject no storage error at all and look at few refused operations.",
 [DB,RDS,RMG,MEM],[("single write batch per operation",RDS),("error propagation",RMG)],[("indexed_properties","in-memory copy of the indexed names",RDS)],["state after the failure and after a retry"])
p("C09","Bulk insertion has the effect of its items applied one after another",
 "Inserting a list of vertices, edges and property values in bulk leaves the same state as issuing the items one by one in that order, including when the list repeats an element or assigns one property several times (the last assignment wins), and index queries see the result. Where the documentation leaves a store latitude (an existing vertex's type, edges whose ends are missing), either outcome is allowed but every view of it must agree.",
 ["inputs","histories"],"all item lists up to a length over a small colliding item alphabet, split in all ways into batches, from several states, with the property indexed before, after or not at all, both stores",
 "Tests insert one list with distinct elements; repetitions within a batch are not covered.",
 [DB,RDS,RMG],[("default bulk_insert",DB),("batched bulk_insert",RDS)],(),["state after bulk vs. after singles"])
p("C10","JSON property values are equal exactly when they are the same value",
 "Equality of JSON values is an equivalence that distinguishes any two different values (different structure, nesting, type, or number), equal values always hash alike, and ordering is consistent with equality and transitive. A lookup by value therefore never confuses two different values, in either store.",
 ["inputs"],"all pairs and triples of JSON values up to a size over a menu of scalars (signed/unsigned/float boundary numbers, empty and tricky strings) and nested arrays and objects; all pairs stored and looked up in both stores",
 "Tests compare about forty hand-picked pairs; hash/equality agreement and collisions between different structures are not checked.",
 ["lib/src/models/json.rs",MEM,RMG,UT],[("Hash/Eq/Ord of Json","lib/src/models/json.rs"),("8-byte value hash in keys",UT)],(),["==, hash, cmp, value queries"])
p("C11","Ids, names and values come back exactly as they were stored",
 "Every vertex id, type, property name and JSON value that a store accepted is read back identical, by every query that returns it, on both stores, immediately and after the store is closed and opened again. This includes boundary ids, the empty and the longest names, non-ASCII text, extreme numbers and deeply nested values.",
 ["inputs","configurations"],"every value of a boundary menu of ids, names and JSON values, in every position where it can occur, on both stores, live and reopened",
 "Tests store a handful of simple values; extremes and their on-disk encodings are not enumerated.",
 [UT,RMG,MEM,"lib/src/models"],[("key building and parsing",UT),("JSON text encoding",RMG),("msgpack image",MEM)],(),["property and element queries"])
p("C12","Storage keys are unambiguous and preserve order",
 "Building a storage key from ids, names and values and reading it back gives the same parts; different part lists of one shape give different keys; the scan for one owner or one name covers all of its keys and none of another's; and keys that start with an id sort as the ids do. The successor of an id is the next id in that order, with an error only for the last one.",
 ["inputs"],"all pairs of part lists over boundary ids (every carry position) and names (empty, prefixes, non-ASCII, 255 bytes) for each key shape; all carry positions for the successor",
 "Unit tests check four concrete encodings; injectivity and prefix-freedom are relations between keys.",
 [UT,RMG],[("build/read_*",UT),("next_uuid",UT)],(),["indradb::util functions; engine keys via prefix scans"])
p("C13","Only valid identifiers get in, by every entrance",
 "A name of at most 255 bytes made of letters, digits, dashes and underscores is accepted and preserved, and every other string is refused, with the length limit reported as such, whichever way the name enters (constructor, parsing, conversion, or a network request). Two identifiers are equal, hash alike and order as their texts do.",
 ["inputs"],"every Unicode scalar value alone and in each position of a short name, all lengths around the limit with 1- to 4-byte characters, all entry points",
 "Tests try four strings.",
 ["lib/src/models/identifiers.rs","proto/src/converters.rs"],[("Identifier::new","lib/src/models/identifiers.rs")],(),["constructors and RPC responses"])
p("C14","A synced memory image reloads to exactly the state that was synced",
 "After the in-memory store is synced to its file, loading that file gives a store that answers every query, including index queries, as the original did at the moment of the sync, and that continues to behave like it under further operations and further syncs. Changes made after the sync are not in the file, an existing file is replaced whole, and a store without a file accepts a sync and does nothing.",
 ["histories","inputs"],"all histories up to a depth with syncs and reloads interleaved at every position, over boundary names and values",
 "One test syncs one vertex; index contents and continued use after reload are not covered.",
 [MEM],[("sync / read_msgpack_db",MEM)],[("persisted image","msgpack file",MEM)],["queries on the reloaded store"])
p("C15","A crash or I/O failure during a memory-image sync never loses the old image",
 "Whatever happens while an image is being written (the process dies at any instruction boundary of the I/O, a write is cut short, the disk is full, any file operation fails, or power is lost with unsynced data dropped), the file afterwards holds either the complete previous image or the complete new one. A sync that answers success has put the new image in place, and a sync that fails says so and leaves the store usable.",
 ["crash_points","fault_sequences"],"every file-modifying system call of a sync as crash point, every one failing with each plausible error, short writes of every length class, and power loss after each call",
 "No test interrupts a sync or makes an I/O call fail.",
 [MEM],[("temporary file then rename",MEM)],(),["the file at the persist path, reopened"])
p("C16","Closing and reopening a RocksDB store changes nothing",
 "After any history, closing the store and opening it again, with or without a sync before, with default or custom options, and also after a repair of a healthy store, gives a store that answers every query as before and continues identically; in particular indexed names stay indexed with complete contents and names not indexed stay refused.",
 ["histories","configurations"],"all histories up to a depth with reopen, sync and repair interleaved at every position",
 "No test reopens a store and compares; repair is tested on an almost empty store.",
 [RDS,RMG],[("metadata of indexed names",RMG),("new_db/new_db_with_options/repair",RDS)],[("metadata column family","indexed names",RMG)],["queries on the reopened store"])
p("C17","RocksDB operations are atomic and acknowledged ones survive a crash",
 "If the process dies at any point of any history, then on reopening the store contains every operation that had been acknowledged, and the one in flight either entirely or not at all, with all views and indexes consistent; the same holds when the tail of the log is torn at any byte. After power loss that drops unsynced data, the state is that of a prefix of the history, no shorter than at the last successful sync.",
 ["crash_points","histories"],"every file-modifying system call of several histories as crash point, every truncation of the write-ahead log, and dropping of unsynced data, each reopened and compared with the reference",
 "No test crashes the process or tears a file.",
 [RDS,RMG],[("one WriteBatch per operation",RDS),("sync flush",RDS)],(),["reopened store vs. acknowledged history"])
p("C18","An interrupted first start of a RocksDB store can always be resumed",
 "If the process dies at any point while a RocksDB store is being created or opened, a later open at the same path succeeds and yields a working store with everything acknowledged before (nothing, for a new store), with either of the two ways to open it. Opening an existing store never loses or hides its data, and a path that cannot be opened gives an error, not a panic.",
 ["crash_points","configurations"],"every file-modifying system call during creation and during reopening as crash point, for both constructors, including a second crash during the resumed open",
 "No test interrupts an open.",
 [RDS],[("open_cf with fallback to create_cf",RDS)],[("column families","created one by one on first open",RDS)],["the next open"])
p("C19","Concurrent use of the memory store is equivalent to some sequential order",
 "When several threads use one in-memory database at once, every operation's answer and the final state are those of some sequential execution of the same operations that respects their real-time order; whole queries, query-driven updates, deletes and bulk insertions are each indivisible. No schedule deadlocks or makes the store unusable.",
 ["schedules"],"all interleavings, up to a preemption bound, of two and three threads with one to three operations each on colliding elements, with preemption points at every datastore call, lock and allocation",
 "All tests are single-threaded.",
 [MEM,DB],[("one mutex held for a whole transaction",MEM)],[("internal","the whole state behind one lock",MEM)],["answers and final state per schedule"])
p("C20","Concurrent use of the RocksDB store never corrupts it or loses writes",
 "When several threads use one RocksDB database at once, in every schedule the final state is consistent (no edge without both ends, both edge views equal, no properties of missing elements, index contents equal to the property values) and every acknowledged single-element creation, deletion and property write has taken effect in some order consistent with real time. Of several concurrent creations of one vertex exactly one answers that it created it, indexing a property concurrently with writes misses none of them, and no schedule deadlocks or panics.",
 ["schedules"],"all interleavings, up to a preemption bound, of two and three threads with one or two operations each on colliding elements, with a preemption point at every call into the storage engine and at every lock",
 "All tests are single-threaded.",
 [RDS,RMG],[("locks around read-then-write operations",RDS)],[("indexed_properties","lock shared by writers",RDS)],["final state and answers per schedule"])
p("C21","Using the database over the network is the same as using it directly",
 "Any sequence of operations issued through the client against a server gives the same answers, the same errors (as errors), and the same final state as issuing it directly on the database, for either store and for results and inputs of any number of items. This includes result sets with several parts and empty results, which are not confused.",
 ["histories","inputs"],"all operation sequences up to a depth and a menu of all query forms, each executed through a real server and client and directly, with sizes around internal buffering limits",
 "The RPC tests run the library's fixed scripts once, with small inputs.",
 ["proto/src/server.rs","proto/src/client.rs","proto/src/converters.rs"],[("Server / Client","proto/src")],(),["client answers vs. direct answers"])
p("C22","Network messages convert faithfully, and malformed ones are refused harmlessly",
 "Every vertex, edge, property, query, bulk item and result converts to its network form and back unchanged, keeping optional fields' absence apart from their defaults. A request with any required part missing or any id, name or value malformed, at any depth, is refused as invalid and has no effect on the database, and the server keeps serving.",
 ["inputs"],"all message values up to a size, and for each every single field removed or corrupted in every way of a menu, sent to a live server",
 "Tests convert a few values; malformed requests are hardly tested.",
 ["proto/src/converters.rs","proto/src/server.rs"],[("TryInto/From conversions","proto/src/converters.rs")],(),["conversion results; RPC status; state afterwards"])
p("C23","A bulk upload over the network takes effect entirely or not at all",
 "A streamed bulk insertion that contains a malformed item at any position, or whose client stops or disconnects after any number of items, leaves the database as it was, and one that is acknowledged has inserted every item, in order, whatever the number of items. A failed upload is reported to the client as failed.",
 ["inputs","fault_sequences"],"every stream length up to a bound and around the channel capacity, with a malformed item or a client abort at every position",
 "Tests stream only complete, valid, short lists.",
 ["proto/src/server.rs","proto/src/client.rs"],[("collect whole stream before inserting","proto/src/server.rs")],(),["state after the call"])
p("C24","A failed operation is never reported over the network as a success",
 "If the datastore behind the server fails (returns an error or panics) at any point of any request, the client call ends in an error, not in an empty or truncated success, and the server continues to serve other requests. A client that goes away while a result is streaming does not disturb the server.",
 ["fault_sequences","inputs"],"every RPC and query form against a datastore that fails at each of its calls in turn by error, by a failing result item, or by panicking, and clients dropping the response after any part",
 "No test has a failing datastore behind the server.",
 ["proto/src/server.rs","proto/src/client.rs"],[("error mapping; spawn_blocking results","proto/src/server.rs")],(),["client result"])
p("C25","Mapping over vertices visits each exactly once and reports any failure",
 "The vertex-mapping facility offered to plugins calls the mapper exactly once for every vertex when nothing fails, returns only after all calls have finished, uses at most the requested number of threads at a time, and fails if and only if some call or the listing failed, with one of the errors that occurred; it never calls the mapper twice for a vertex. This holds for every number of vertices and threads and every order in which calls complete.",
 ["schedules","inputs","fault_sequences"],"all completion orders of the mapped calls for up to a few vertices and threads, all sets of failing vertices and listing errors, and vertex counts around internal check intervals",
 "One test maps over a few vertices with a mapper that never fails.",
 ["plugins/host/src/util.rs"],[("map over a thread pool","plugins/host/src/util.rs")],(),["mapper call log and result"])
p("C26","Plugins are found by name, given their argument, and vetted before use",
 "Executing a plugin over the network runs the plugin registered under exactly that name with exactly the given argument (null if absent) on the server's database, and returns its answer or its error; an unknown name is refused as not found without effect. A library built for another interface or compiler version, or a file that is no plugin, makes the server refuse to start rather than serve, and all libraries matching the pattern are loaded.",
 ["inputs","configurations","histories"],"all argument values of a menu, names around the registered ones, plugin results and errors of each kind, library sets with a valid, invalid or mismatching member in each position",
 "One test calls the two sample plugins; refusals and errors are not tested.",
 ["proto/src/server.rs","plugins/host/src/decl.rs"],[("execute_plugin / new_with_plugins","proto/src/server.rs")],(),["RPC result; server start result"])
p("C27","Generated vertex ids never collide",
 "Creating vertices without giving an id yields a different id every time within a process, for any number of calls from any number of threads, however slowly or unevenly the clock advances, including when it stands still or steps back briefly; the vertex exists under the returned id with the given type.",
 ["histories","schedules","configurations"],"all sequences of clock readings (standing still, ticking, stepping back) up to a length, all interleavings of two generating threads up to a bound, and runs across the internal sequence counter's full range",
 "Tests generate a handful of ids.",
 [UT,DB],[("shared UUIDv1 context",UT),("create_vertex_from_type",DB)],[("CONTEXT","clock sequence",UT)],["returned ids"])
p("C28","The command-line client and server do what their arguments say",
 "Each client command has exactly the effect and prints exactly the result of the corresponding database operation, and exits with failure when the operation is refused or its arguments are invalid, leaving the database unchanged. The server serves the chosen store at the chosen address, keeps persistent stores across restarts, and loads an existing memory image rather than overwriting it.",
 ["histories","configurations"],"all command sequences up to a depth over every subcommand and argument form, valid and invalid, against a real server process for each store configuration, including server restarts",
 "The client has no tests and the server has one.",
 ["client/src/main.rs","server/src/main.rs","server/src/cli.rs"],[("argument handling","client/src/main.rs"),("datastore selection","server/src/main.rs")],(),["process output, exit status, database contents"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
