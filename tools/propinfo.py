"""What each check runs and how its evidence is to be read."""
REAL = ["all of geodiff (C API, SQLite driver, changeset reader/writer, rebase, JSON, utilities, command line tool) compiled from /repo",
        "the system's SQLite 3.45.1 library with its session extension", "libstdc++ file streams down to read/write/open"]
STUBS = ["disk: in-memory files with volatile and durable content (libc calls and a SQLite VFS)", "libgpkg: minimal stand-in that registers the ST_* functions and creates metadata tables",
         "rand(), random_device, clock, pid", "memory allocation failures (operator new, SQLite's allocator)", "other processes: coroutines scheduled by the simulator"]
STUBS_PG = STUBS + ["libpq and the PostgreSQL server: a small SQL engine with transactions and schemas written for this simulator"]
ASSUME = ["sampling: the absence of a violation is evidence, not proof",
          "the power-loss model keeps, per file, any subset of the writes since the last sync at sector granularity, and any subset of unsynced name changes",
          "SQLite's own crash recovery is trusted as far as it is exercised here"]
ASSUME_PG = ASSUME + ["the SQL engine standing in for PostgreSQL answers the statements geodiff sends as a real server would (types, transactions, catalog queries, sequences)"]

def p(rule, quick=40, thorough=400, variants=None, pg=False, extra=None):
    return {"rule": rule, "quick_s": quick, "thorough_s": thorough, "variants": variants or {"opt": 1.0}, "real": REAL,
            "stubs": STUBS_PG if pg else STUBS, "assumptions": (ASSUME_PG if pg else ASSUME) + (extra or [])}

INFO = {
    "C01": p("A case is one simulated replication history: a random schema and data, up to 5 versions made by a random application, 1-2 replicas, a message schedule with loss, duplication, delay and reordering, and faults or crashes in some create and apply calls. Non-trivial: at least one apply was delivered. Distinct by the event log hash."),
    "C02": p("A case is one database, changeset and target (matching, conflicting, damaged, or conflicting after some changes), applied 4-10 times (thorough up to 24) from the same state, each time with another fault, lock holder, kill or power-cut point drawn from the operations a fault-free run performs. Non-trivial: an apply was attempted. Distinct by the event log hash."),
    "C03": p("A case is one history and one changeset delivered to a matching, stale, duplicated, divergent or unrelated target, compared with a reference apply. Non-trivial: the changeset has changes. Distinct by the event log hash."),
    "C04": p("A case is one history of versions walked backward and forward through inverted changesets, with faults in some invert and apply calls. Non-trivial: at least one version step has changes. Distinct by the event log hash."),
    "C05": p("A case is one base with two divergent edit sets, rebased through one of the entry points (files, changesets, in place), merged and compared with a reference three-way merge. Non-trivial: both sides changed something. Distinct by the event log hash. About one case in six uses PostgreSQL schemas instead of GeoPackage files.", pg=True),
    "C06": p("A case is one history of 2-3 clients editing, pulling (rebase in place, with faults, kills and power cuts) and pushing to a server, until all have converged. Non-trivial: at least one rebase had both sides changed. Distinct by the event log hash. About one case in six uses PostgreSQL schemas instead of GeoPackage files.", pg=True),
    "C07": p("A case is one base with two divergent edit sets, rebased with a conflict file, possibly over a stale one and under faults, compared with the reference conflict set. Non-trivial: both sides changed something. Distinct by the event log hash. About one case in six uses PostgreSQL schemas instead of GeoPackage files.", pg=True),
    "C08": p("A case is one call (of 14 kinds, or 9 on PostgreSQL) run fault-free and then repeatedly with other faults at points drawn from its operations. Non-trivial: a fault fired. Distinct by the event log hash."),
    "C09": p("A case is one changeset (diff, inverse or hand made) and 5 (thorough 10) damages of it: cut, torn, bit flips, zeroed and lost ranges, splices, noise, extreme lengths, each read by 3-8 of the readers (has, count, list, summary, invert, apply, rebases with the damaged file on either side), some under faults, in an address-sanitizer build. Non-trivial: the changeset was not empty. Distinct by the event log hash. About one case in seven applies the damaged files to a PostgreSQL schema.", pg=True, variants={"asan": 0.75, "opt": 0.25}),
    "C10": p("A case is a random pair of databases; non-trivial: they differ. Every emitted file (diff, inverse, dump, rebased changeset) is parsed by an independent parser and compared with a model diff of the rows read back. Distinct by the event log hash."),
    "C11": p("A case is one changeset (diff, inverse, dump, hand made, headers only, empty) asked 8-16 times for has-changes, count, listing or summary, some of the time cut inside a record or under stream and allocation faults, over stale outputs; answers are compared with an independent parse. Non-trivial: it has changes. Distinct by the event log hash."),
    "C13": p("A case is 2-4 calls on unrelated databases run as concurrent simulated processes with a common temporary directory under a random schedule, one possibly killed, compared with the same calls run alone. Non-trivial: at least one context switch inside a call. Distinct by the event log hash."),
    "C14": p("A case is one call (of 14 kinds, or 9 on PostgreSQL) run with and without faults and kills; afterwards inputs are compared byte for byte (databases: rows and schema) and files left behind are listed. Non-trivial: the call did something. Distinct by the event log hash."),
    "C12": p("A case is one call (create, dump, rebase, apply, in-place rebase; about a third with PostgreSQL) interleaved with other processes that commit transactions to, or read from, the same databases under a random schedule, with an occasional fault or kill; every committed state is kept and the result must be that of states current during the call. Non-trivial: a commit fell inside the call (diff side) or another process read the target while it changed (apply side). Distinct by the event log hash.", 40, 400, {"opt": 0.9, "asan": 0.1}, pg=True),
    "C15": p("A case is either a pair of PostgreSQL schemas with random definitions (odd names, composite and text keys, citext, reals, timestamps, geometry with Z/M, dropped columns, extra indexes) diffed and applied forward, inverted and to another target, or 1-4 (thorough 8) rounds of edits on a GeoPackage and a PostgreSQL schema exchanged both ways, with stream, allocation, statement and connection faults and kills; rows and changes are compared with a model in one normal form. Non-trivial: there are changes. Distinct by the event log hash.", 40, 400, {"opt": 0.85, "asan": 0.15}, pg=True),
    "C16": p("A case is one changeset (possibly reordered or cut) and one PostgreSQL schema (matching or edited), applied 8 (thorough 24) times from the same state with other faults: statement errors, connections lost before or after a statement, server crash, NULL results, failing begin/commit, kills, allocation and stream faults, some twice; then inserts with server-picked keys and a retry. Non-trivial: the changeset has changes. Distinct by the event log hash.", 40, 400, {"opt": 0.85, "asan": 0.15}, pg=True),
    "C17": p("A case is one database dumped or copied (GeoPackage or PostgreSQL as source and destination) 4 (thorough 8) times, with other faults each time and over a stale output; the result is read by an independent parser or straight from the simulated server and compared row by row. Non-trivial: at least one row is expected. Distinct by the event log hash.", 40, 400, {"opt": 0.85, "asan": 0.15}, pg=True),
    "C18": p("A case is one pair of databases or changeset that must be refused (13 kinds of schema difference, schema changed while or after diffing, foreign keys, user triggers; 10 kinds of difference between PostgreSQL schemas), tried 1-3 times with faults and kills, everything else compared afterwards. Non-trivial: the difference exists. Distinct by the event log hash.", 40, 400, {"opt": 0.85, "asan": 0.15}, pg=True),
    "C19": p("A case is one apply or in-place rebase on a target with 1-5 user triggers, run 6 (thorough 12) times with other faults, kills and power cuts, compared with the same call without user triggers. Non-trivial: at least one user trigger. Distinct by the event log hash.", 40, 400, {"opt": 0.85, "asan": 0.15}),
    "C20": p("A case is one call (14 kinds on files, 4 on PostgreSQL, or one with missing arguments; inputs fine, missing, damaged, or a target that moved on), run 3 (thorough 6) times at level debug with other faults, and each time again 3 (thorough 5) times with another level, another callback or none, some of them changed while messages are delivered; messages, return code and results are compared. Non-trivial: at least one message. Distinct by the event log hash.", pg=True),
    "C21": p("A case is one Python process with 1-3 threads and 1-2 GeoDiff objects that call methods in a random order; the simulated C library behind ctypes checks what arrives, delivers log messages, lets other threads run in between and returns codes drawn from the documented and from unknown ones; garbage collections, failing callbacks, a missing library and other versions are injected. Non-trivial: a C function was called or a version mismatch injected. Distinct by the event log hash.", 25, 200, {"py": 1.0}),
    "C22": p("A case is one run of the command line tool (10 modes on files, 5 of them also on PostgreSQL) with arguments that fit or do not, at one of six levels, repeated 3 (thorough 5) times under other file, database, lock and server faults and with missing or unknown arguments; exit status, files, databases and what was printed are compared with the library function under the same faults and a recording callback. Non-trivial: the call succeeded or produced a message. Distinct by the event log hash.", 30, 300, pg=True),
    "C23": p("A case is one function of the C interface (15, or 6 on PostgreSQL) on three related databases and their changesets, called 4 (thorough 6) times with one argument missing, unknown, not there, a directory or a file of another kind, some of them with a fault, or once with the same file for two arguments and once with separate copies; return code, message and everything in the file system and on the server are compared. Non-trivial: every case that makes a call. Distinct by the event log hash.", 25, 240, pg=True),
}

NOTE = "Seeded search over simulated executions of the real library: no violation in the explored runs; not a proof. Trusts the simulated disk, the fault shims and the oracle model written independently of geodiff."
TECH = {
    "C01": "deterministic simulation of replication with message and disk faults, crash-restart, state comparison with the primary",
    "C02": "deterministic simulation with fault injection at every I/O and allocation of apply, kill and power cut, old-or-new oracle",
    "C03": "deterministic simulation of misdelivered changesets (stale, duplicated, reordered, divergent), refinement against a reference apply",
    "C04": "deterministic simulation of undo/redo histories with faults and crashes in invert and apply",
    "C05": "deterministic simulation of divergent editors, refinement against a reference three-way merge",
    "C06": "deterministic simulation of clients and a server with crash-restart during in-place rebase, convergence once faults stop",
    "C07": "deterministic simulation of divergent editors with stale reports and faults, comparison with a reference conflict set",
    "C08": "deterministic simulation with I/O, stream, lock and allocation faults in every call kind, comparison with the fault-free result",
    "C09": "deterministic simulation of storage and transit corruption (torn, flipped, spliced files) in every reader, address sanitizer, refinement against plain SQL",
    "C11": "deterministic simulation of the reporting calls under cut files, stream and allocation faults, comparison with an independent parser",
    "C10": "deterministic simulation of create/invert/rebase/dump under stream and allocation faults, independent format parser and model diff",
    "C13": "deterministic simulation of concurrent processes sharing a temporary directory under seeded schedules and kills, comparison with solo runs",
    "C12": "deterministic simulation of concurrent writers, readers and appliers under seeded schedules, comparison with every committed state",
    "C15": "deterministic simulation of replicas in a GeoPackage and a simulated PostgreSQL server with faults on both sides, comparison with a model of changes and rows",
    "C16": "deterministic simulation of apply on a simulated PostgreSQL server with connection loss, server crash, statement errors and kills at every statement, old-or-new oracle and key probe",
    "C17": "deterministic simulation of dumps and copies under I/O, stream and allocation faults, comparison with the rows read back",
    "C18": "deterministic simulation of schema changes before, during and after calls with faults and kills, refusal and no-effect oracle",
    "C19": "deterministic simulation of apply and rebase on databases with user triggers with faults, kills and power cuts, comparison with a trigger-free run",
    "C14": "deterministic simulation with faults and kills, input comparison and leftover-file check after every call",
}
TECH["C20"] = "deterministic simulation: the same seeded call, schedule and fault repeated under other log levels and callbacks, differential comparison of messages and results"
TECH["C22"] = "deterministic simulation: the same seeded schedule and faults under the command line tool and under the library call, differential comparison of status, effects and printed messages"
TECH["C23"] = "deterministic simulation of calls with seeded unusable and repeated arguments, with faults, on a snapshot of the simulated file system and server: error and no effect, or the same outcome as with separate copies"
TECH["C21"] = "deterministic simulation of threads in a Python process on a simulated C library with seeded return codes, messages, collections and failing callbacks, comparison with the documented mapping"
INFO["C21"]["real"] = ["the Python package pygeodiff from /repo, CPython's ctypes"]
INFO["C21"]["stubs"] = ["the C library: a stand-in with geodiff's exported functions, driven by the simulator", "thread scheduling: one thread at a time, switched at C calls by a seeded scheduler"]
INFO["C21"]["assumptions"] = ["sampling: the absence of a violation is evidence, not proof", "the C library behaves like one that returns any code and logs any messages"]
INFO["C21"]["states_measure"] = "method, return code, exception and last two context switches"
for k in INFO:
    INFO[k]["technique"] = TECH.get(k, "deterministic simulation with fault injection")
    INFO[k]["note"] = NOTE if k != "C21" else "Seeded search over simulated executions of the real wrapper on a simulated C library: no violation in the explored runs; not a proof."
NOT_APPLICABLE = {}
