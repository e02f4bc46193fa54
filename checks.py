"""What each check runs, and how MANIFEST.json describes it."""
BOTH = ["release", "dbg"]
CHECKS = {}

TRUST = ("The reference model (harness/core/src/model.rs) is taken as the meaning of the operations; both stores are "
         "bound to it by replaying every model transition on them. rustc, the RocksDB library and the kernel are trusted.")

SEQ = ("Bounded, exhaustive: the reachable states of a reference graph model are enumerated breadth first and every "
       "transition is replayed, with a full comparison of all views, on the in-memory and the RocksDB store, in builds with and "
       "without debug assertions. Histories beyond the stated scopes are not covered. ")


def seq(pid, technique, note, **kw):
    CHECKS[pid] = dict({"package": "mc-lib", "profiles": BOTH, "level": "model_checking", "assumptions": [TRUST],
                        "technique": technique, "note": note + TRUST}, **kw)


EXPL = "explicit-state model checking of a reference model, with every transition replayed on the implementation"
seq("C01", EXPL, SEQ)
seq("C02", EXPL, SEQ)
seq("C03", EXPL, SEQ)
seq("C04", EXPL, SEQ)
seq("C05", "exhaustive enumeration of query compositions over enumerated graph states, evaluated by the model and by the implementation", SEQ)
seq("C06", "exhaustive enumeration of page walks (start, page size, type) over enumerated vertex sets on the real stores", SEQ)
seq("C07", EXPL, SEQ)
seq("C09", "exhaustive enumeration of bulk item lists, compared with the model applied item by item", SEQ)
ENUM = ("Bounded, exhaustive: every value, pair, triple or key of the stated alphabets is put through the real code. ")
seq("C10", "exhaustive enumeration of bounded JSON values, pairs and triples against an independent canonical form, and of all overwrite pairs on both stores", ENUM)
seq("C11", "exhaustive enumeration of boundary values, names and ids, stored and read back by every query on both stores, before and after reopening", ENUM)
seq("C12", "exhaustive enumeration of key part lists of every key shape: injectivity, read-back, prefix scans and order", ENUM)
seq("C13", "exhaustive enumeration of all Unicode characters, lengths and short strings through every entrance", ENUM)
seq("C08", "explicit-state exploration with refused requests, and exhaustive fault injection: every storage-engine call of every request made to fail, once and persistently",
    SEQ + "Storage failures are injected at the RocksDB C API (ld --wrap): each call of each request, for the stated states. ")
seq("C14", EXPL, SEQ + "Every sync's image is loaded and compared at every observation. ")
TRACED = ("Bounded, exhaustive: every file operation of the sync, in a traced (ptrace) process of its own, is a point of death and is made to fail, to be "
          "cut short or to report nothing written, once or from there on; before every one of them the image is judged as left by a crash and by a loss of "
          "power that drops unsynced data of files (directory operations are taken as durable in order). ")
seq("C15", "exhaustive enumeration of crash points, I/O failures and power losses of the real sync under a system-call tracer, each outcome loaded by the real code and compared with the reference model", TRACED, profiles=["release"])
seq("C16", "explicit-state exploration with the store closed and reopened in every way after each history, then continued", SEQ)
CRASH = ("Bounded, exhaustive: every file-changing system call the storage engine makes in the stated histories is a crash point (seen by ld --wrap, the "
         "directory recorded before each), with the writes also cut short; every such state is reopened by the real code and compared with the model. "
         "Power loss drops what was not synced from files; directory operations are taken as durable in order. ")
seq("C17", "exhaustive crash-point enumeration: every file-changing call, torn write, log length and loss of unsynced data of enumerated histories, each recovered by the real code and compared with the reference model", CRASH, profiles=["release"])
seq("C18", "exhaustive crash-point enumeration of store creation and opening, including a second interruption, and of failing storage calls and unusable paths", CRASH, profiles=["release"])
SCHED = ("Bounded, exhaustive: the library is compiled with its locks and atomics under a scheduler's control (and every RocksDB call a "
         "scheduling point), and each scenario is executed under every schedule within the stated number of preemptions. "
         "Sequentially consistent memory is assumed (the library is safe Rust). ")
CHECKS["C19"] = dict(package="mc-sched", profiles=["release"], level="model_checking", assumptions=[SCHED],
    technique="stateless model checking: every schedule of enumerated concurrent scenarios on the real store, judged for linearizability against sequential executions", note=SCHED)
CHECKS["C20"] = dict(package="mc-sched", profiles=["release"], level="model_checking", assumptions=[SCHED],
    technique="stateless model checking: every schedule (preemption-bounded) of enumerated concurrent scenarios on the real store, judged against sequential executions and for consistency of all views", note=SCHED)

NET = ("Bounded, exhaustive: client and server of the real code are run against each other over the loopback network, in both stores. ")
CHECKS["C21"] = dict(package="mc-proto", profiles=["release"], level="model_checking", assumptions=[TRUST],
    technique="explicit-state model checking of a reference model, with every transition replayed through the real client and server and compared", note=NET + TRUST)
CHECKS["C22"] = dict(package="mc-proto", profiles=["release"], level="model_checking", assumptions=[TRUST],
    technique="exhaustive enumeration of values and queries through the conversions against an independent reading of the schema, and of every change to every request sent to the real server", note=NET + TRUST)
CHECKS["C23"] = dict(package="mc-proto", profiles=["release"], level="model_checking", assumptions=[TRUST],
    technique="exhaustive enumeration of upload sizes, malformed items and their positions, and of the points where client or connection fails (a relay that cuts after every byte), on the real client and server, judged against the reference model", note=NET + TRUST)
CHECKS["C24"] = dict(package="mc-proto", profiles=["release"], level="model_checking", assumptions=[TRUST],
    technique="exhaustive fault enumeration: every call and result item of the datastore behind the real server made to fail or panic in turn, for every request and composed query, and every point at which a client can leave", note=NET + TRUST)
CHECKS["C25"] = dict(package="mc-map", profiles=["release"], level="model_checking", assumptions=[SCHED],
    technique="stateless model checking: the mapping facility and its thread pool compiled under a scheduler's control and run under every schedule within a preemption bound, and every order of completion with real threads", note=SCHED)

CHECKS["C27"] = dict(package="mc-sched", profiles=["release"], level="model_checking", assumptions=[SCHED],
    technique="exhaustive enumeration of clock readings (the process's clock replaced by a script) and of every schedule of generating threads on the real generator and stores", note=SCHED)

CHECKS["C26"] = dict(package="mc-proto", profiles=["release"], level="model_checking", assumptions=[TRUST], needs=["plugins"],
    technique="exhaustive enumeration of plugin names, arguments, results, errors and library sets on the real server with real libraries, and explicit-state model checking of histories whose operations are carried out by requests or by a plugin", note=NET + TRUST)

CHECKS["C28"] = dict(package="mc-proto", profiles=["release"], level="model_checking", assumptions=[TRUST], needs=["plugins", "programs"],
    technique="explicit-state model checking of a reference model with every transition replayed by the real client program on the real server program, exhaustive enumeration of command lines, and of histories with restarts, signals and repairs for every kind of store", note="Bounded, exhaustive: the programs are run as processes. " + TRUST)
seq("C29", EXPL + "; every reading method of the transaction compared with the model in every state", SEQ)
seq("C30", EXPL + " over a datastore of the harness's own; exhaustive fault injection: every call of its interface and every item it hands out made to fail",
    SEQ + "The datastore interface is implemented plainly by the harness, with orders of its own where none is promised. ")
seq("C32", "exhaustive enumeration of builder programs: every chain of the query-building methods and constructors up to a length, as transitions of a model whose states are queries, each compared with the library's and put to both stores",
    "Bounded, exhaustive: the building methods are the transitions of a model whose states are queries; every chain up to the stated length is taken. ")
seq("C33", "exhaustive enumeration of histories over two stores at once: every sequence of operations up to a length, each on either store (or handle) and from either thread, each store judged by a reference model of its own after every step; every interleaving of two syncs with two changes of turn, at every system call, by ptrace",
    "Bounded, exhaustive: every sequence up to the stated length over ten pairs of stores; for two syncs at once, every pair of points at which the turn changes. ",
    profiles=["release"])
CHECKS["C31"] = dict(package="mc-proto", profiles=["release"], level="model_checking", assumptions=[TRUST], needs=["plugins", "programs"],
    technique="exhaustive exploration of a real server on one thread over a real store whose calls wait on command: every request held at each of its calls, with every other request coming meanwhile; every order in which waiting requests are let go; uploads and results that stop at every part; connections broken off at every byte; answers and effects judged by a reference model in that order",
    note="Bounded, exhaustive: the server's calls of the datastore are scheduled one by one; what the threads inside a store do is C19, C20 and C27. " + TRUST)
