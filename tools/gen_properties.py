#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that statements are edited in one place).
import json, os
S='geodiff/src/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[S+f for f in files],mechanism=[dict(name=a,where=S+b) for a,b in mech],
                   state=[dict(name=a,meaning=b,where=S+c) for a,b,c in (state or [])],
                   observe_at=observe or [],hook_needed=None)))
UNIT="The tests that run here reach only the changeset reader, writer and string helpers; no test links the SQLite or PostgreSQL driver. "

p('C01','A replica fed changesets in order equals the primary at every version',
  "If a replica starts as a copy of version 0 of a SQLite or GeoPackage database and the changesets created between consecutive versions of the primary are applied to it in order, then after each application that reports success every table with a primary key holds exactly the primary's rows of that version (same keys, same values, same storage types, byte for byte). Tables without primary key, the replica's schema and its journal mode are left as they were, and spatial index and feature-count tables agree with the data. This holds for every key shape, table and column name and value the database can hold, and while the network drops, duplicates, delays or reorders changesets and replicas restart at arbitrary points.",
  ['histories','inputs','schedules','crash_points'],
  "All edit histories, schemas, key shapes, values and journal modes; all deliveries of the changesets (loss, duplication, reordering, delay) and replica kill points.",
  UNIT+"Even upstream's own tests compare a dozen fixed files, one step each, on a perfect network.",
  ['geodiff.cpp','drivers/sqlitedriver.cpp','drivers/sqliteutils.cpp','changesetwriter.cpp','changesetreader.cpp','changesetvarint.h'],
  [('row comparison of the attached databases','drivers/sqlitedriver.cpp: sqlFindInserted, sqlFindModified, handleInserted, handleUpdated'),('binary changeset codec','changesetwriter.cpp, changesetreader.cpp'),('apply with savepoint','drivers/sqlitedriver.cpp: SqliteDriver::applyChangeset')],
  [('replica content','rows of all keyed tables','drivers/sqlitedriver.cpp')],
  ['GEODIFF_createChangeset','GEODIFF_applyChangeset','rows read back from the replica file'])
p('C02','Applying a changeset to a SQLite file is all-or-nothing under faults and crashes',
  "Whenever applying a changeset to a SQLite or GeoPackage file does not report success - because of a conflict, an I/O error, a full disk, failed memory allocation, a lock held by another process, or a damaged changeset - the database opens, passes its integrity check and holds exactly the rows and schema it held before. If the process is killed or power is lost at any instant, the database after recovery holds exactly the old state or exactly the complete new state, and a reported success survives a later kill of the process.",
  ['fault_sequences','crash_points','inputs','configurations'],
  "All positions of a fault, kill or power cut (with torn and lost unsynced writes) among the I/O operations and allocations of the call; rollback, truncate and WAL journal modes; small page caches.",
  UNIT+"No test injects any fault, and none looks at the file after a failed call under an I/O error.",
  ['drivers/sqlitedriver.cpp','drivers/sqliteutils.cpp','geodiff.cpp','changesetreader.cpp'],
  [('savepoint transaction','drivers/sqlitedriver.cpp: Sqlite3SavepointTransaction'),('conflict counting, commit only without conflicts','drivers/sqlitedriver.cpp: SqliteDriver::applyChangeset')],
  [('savepoint','changes not yet released','drivers/sqlitedriver.cpp')],
  ['GEODIFF_applyChangeset(Ex)','database file after recovery'])
p('C03','Only changesets that match the target are accepted; all others are refused',
  "Applying a changeset reports success only if every change in it found what it was recorded against - deleted and updated rows present with all recorded old values, no row in the way of an insertion, no constraint violated, table present with the same column count and key columns - and then every change has taken full effect. A stale, duplicated, out-of-order, divergent or wrong-database changeset, or one from another schema, is refused and the target stays exactly as it was. A changeset that does match is accepted when no fault occurs.",
  ['histories','schedules','inputs'],
  "All deliveries of changesets to targets in any state: duplicates, reordering, gaps, concurrent local edits on the target (including cell-level divergence on deletions and updates), other schemas.",
  UNIT+"Upstream tests try a handful of fixed conflicting files.",
  ['drivers/sqlitedriver.cpp','geodiff.cpp'],
  [('old values in WHERE of update and delete','drivers/sqlitedriver.cpp: sqlForUpdate, sqlForDelete'),('no-row and constraint conflicts','drivers/sqlitedriver.cpp: SqliteDriver::applyChangeset'),('column count and key check','drivers/sqlitedriver.cpp: SqliteDriver::applyChangeset')],
  None,['GEODIFF_applyChangeset result and database content'])
p('C04','The inverse of a changeset undoes it exactly, step by step through history',
  "For every changeset that leads from database state A to state B, inverting it succeeds without faults, and applying the inverse to B yields exactly A; undoing a history in reverse order passes exactly through every earlier version, and redo after undo returns to B. Under I/O faults or crashes, inversion either reports an error or has produced the complete inverse, never a partial one reported as success.",
  ['histories','inputs','fault_sequences','crash_points'],
  "All histories of edits and undo/redo walks, all changesets including many tables, wide rows and large values; all I/O fault positions during inversion.",
  "The stable tests invert three fixed changesets and compare bytes; nothing is ever applied, and no write fails.",
  ['changesetutils.cpp','changesetwriter.cpp','changesetreader.cpp','geodiff.cpp'],
  [('operation and old/new swap with key fix-up','changesetutils.cpp: invertChangeset')],
  None,['GEODIFF_invertChangeset','GEODIFF_applyChangeset','database content'])
p('C05','A rebased changeset merges both sides without losing either side\'s edits',
  "For databases (SQLite files or PostgreSQL schemas) whose tables have single integer or text primary keys, applying base-to-theirs and then the rebased changeset to the base succeeds and yields the three-way merge: rows inserted by either side are all present with their values (ours are renumbered only when their key was taken by the other side or by such a renumbering, and never onto an existing row); a row deleted by either side is gone; otherwise each cell changed by us has our value, and each other cell has theirs. If either side made no change, the other side's changes come through unchanged.",
  ['histories','inputs','schedules'],
  "All pairs of concurrent edit histories over a common base in which the two sides do not insert the same text key, including 64-bit and text keys, geometry columns and metadata tables, and all orders in which a server receives them.",
  UNIT+"Upstream has a fixed set of two-file merges.",
  ['geodiffrebase.cpp','geodiffutils.cpp','geodiff.cpp'],
  [('key mapping of concurrent inserts','geodiffrebase.cpp: _find_mapping_for_new_changeset'),('patched old values','geodiffrebase.cpp: _handle_update, _handle_delete'),('writing the rebased changeset','geodiffrebase.cpp: _prepare_new_changeset')],
  [('key mapping','old key to new key for rows inserted on both sides','geodiffrebase.cpp: RebaseMapping')],
  ['GEODIFF_createRebasedChangeset(Ex)','GEODIFF_applyChangeset'])
p('C06','Clients that rebase and push through a server converge; rebase is atomic',
  "When clients repeatedly edit, rebase their local file in place onto the server's newest changeset and push, then once edits stop and every client has pulled, all clients and the server hold identical rows and every edit survives as the merge rules say. A rebase that fails or is interrupted at any point leaves the local file exactly as before it or completely rebased, never in between, and success means completely rebased. The base file and the other side's changeset are never modified.",
  ['schedules','histories','fault_sequences','crash_points'],
  "All interleavings of edits, pulls, rebases and pushes of several clients over a lossy network, with I/O faults, kills and power cuts inside the rebase.",
  UNIT+"No test involves more than two parties or any failure.",
  ['geodiff.cpp','geodiffrebase.cpp','drivers/sqlitedriver.cpp'],
  [('inverse + theirs + rebased combined into one changeset applied at once','geodiff.cpp: GEODIFF_rebaseEx'),('changeset concatenation','geodiffrebase.cpp: concatChangesets')],
  None,['GEODIFF_rebase(Ex)','client files and server state'])
p('C07','The conflict report lists exactly the cells both sides changed differently',
  "After a rebase without faults, the conflict file exists if and only if some cell of some row was changed by both sides to different values, and it names for each such row the table and key and for each such cell the column with base, their and our value; cells changed by one side only are never reported, and a stale report from an earlier run does not survive. The last-change timestamp of the contents metadata table is exempt, and cells both sides set to the same value may or may not be listed.",
  ['histories','inputs','fault_sequences'],
  "All pairs of concurrent edits (including NULLs, 64-bit keys and values that need escaping), with or without a report left by an earlier run.",
  UNIT+"Upstream checks a few fixed reports; a wrong report loses user data silently because the losing value is recorded nowhere else.",
  ['geodiffrebase.cpp','changesetutils.cpp','geodiff.cpp'],
  [('conflict detection','geodiffrebase.cpp: _handle_update, _addConflictItem'),('report writer','changesetutils.cpp: conflictsToJSON')],
  None,['conflict file written by GEODIFF_rebase, GEODIFF_createRebasedChangeset(Ex)'])
p('C08','Success is reported only when the output is complete, whatever fails underneath',
  "Whenever creating, rebasing, inverting, dumping or listing changes reports success, the file it was asked to write holds the complete result for its inputs, identical to what a fault-free run gives - even if reads, writes, opens, memory allocations or locks failed or fell short during the call. A fault that prevents the complete result is reported as an error through the return code (never as a crash or an exception escaping the C interface).",
  ['fault_sequences','inputs'],
  "Every position of a disk-full, short write, read/write/open/close error, allocation failure or busy lock inside each call, one-shot or persistent.",
  UNIT+"A truncated changeset reported as success silently loses edits on every replica; no test makes any operation fail.",
  ['changesetwriter.cpp','geodiffutils.cpp','drivers/sqlitedriver.cpp','drivers/sqliteutils.cpp','geodiffrebase.cpp','geodiff.cpp'],
  [('result stepping','drivers/sqlitedriver.cpp'),('stream output','changesetwriter.cpp; geodiffutils.cpp: flushString, filecopy, Buffer::write'),('error to return code','geodiff.cpp')],
  None,['return codes and output files of all API calls'])
p('C09','Truncated or corrupted changeset files are handled safely by every reader',
  "Given a changeset file that was truncated, torn, bit-flipped, zeroed or spliced in storage or transit, every function that reads it terminates without crashing, hanging, or reading or writing memory out of bounds. A file cut inside a record is reported as an error and is never accepted as a shorter valid changeset, and applying any damaged file either fails with the database unchanged or has exactly the effect of the changes that remain readable in full.",
  ['inputs','fault_sequences','crash_points'],
  "All damage a lossy channel, torn write or lost sector can do to any changeset, and arbitrary bytes, for every function that consumes a changeset.",
  "The stable tests read well-formed files only.",
  ['changesetreader.cpp','changesetvarint.h','changesetutils.cpp','geodiffrebase.cpp','geodiff.cpp','drivers/sqlitedriver.cpp'],
  [('bounds checks','changesetreader.cpp'),('exceptions turned into return codes','geodiff.cpp')],
  [('read position','offset into the loaded file','changesetreader.cpp: mOffset')],
  ['all functions reading changesets, under address and undefined-behaviour sanitizers'])
p('C10','Emitted changesets follow the documented format and are minimal',
  "Every changeset file reported as successfully written by diffing, inverting, rebasing or dumping parses completely under the documented format: table records with column count, key flags and name before the changes they govern, operation codes, big-endian 64-bit numbers, varint lengths. A diff contains exactly one insert, delete or update per differing row (none for equal rows), an update carries old values for key columns and changed columns only and new values for changed columns only, there is no table record without changes, and diffing equal databases gives an empty file.",
  ['histories','inputs','fault_sequences'],
  "All pairs of database versions arising in simulated histories (all value types, lengths at every varint boundary, wide tables), and all fault positions.",
  "The stable tests parse back what the same code wrote for small fixed cases.",
  ['changesetwriter.cpp','changesetvarint.h','drivers/sqlitedriver.cpp','changesetutils.cpp','geodiffrebase.cpp'],
  [('record writer','changesetwriter.cpp'),('only differing columns are defined','drivers/sqlitedriver.cpp: handleUpdated')],
  None,['changeset files, read by an independent parser'])
p('C11','Change counts, listings and summaries agree with the changeset',
  "For every changeset: the has-changes answer is 1 iff it contains a change and 0 iff it contains none, the count equals the number of changes, and the JSON listing and summary are valid JSON that state every change with its table, kind, and old and new values exactly once and the per-table totals. If a file cannot be read in full the answer is an error, not a number, and a listing reported as written is complete. None of this depends on the locale of the program that uses the library.",
  ['histories','inputs','fault_sequences'],
  "All changesets arising from simulated histories (any names, texts and values), damaged ones, and I/O faults while reading or writing the report.",
  "The stable tests check the JSON of three fixed files with plain values and no faults.",
  ['changesetutils.cpp','geodiff.cpp','changesetreader.cpp'],
  [('JSON writers','changesetutils.cpp: changesetToJSON, changesetToJSONSummary'),('entry points','geodiff.cpp: GEODIFF_hasChanges, GEODIFF_changesCount, listChangesJSON')],
  None,['GEODIFF_hasChanges','GEODIFF_changesCount','GEODIFF_listChanges(Summary)'])
p('C12','Diffs and dumps taken during concurrent writes describe one consistent state',
  "A changeset or dump created while other processes commit transactions to the same database either fails or describes the database as it was at one instant between the start and the end of the call - never a mixture of several commits within that database. Applying a changeset concurrently with other readers and writers is isolated in the same way: others see the state before or after it, never part of it.",
  ['schedules','histories'],
  "All interleavings of the call's I/O operations (or server statements) with commits of concurrent writers and reads of concurrent readers, in rollback and WAL journal modes and on a PostgreSQL server.",
  UNIT+"No test runs anything concurrently.",
  ['drivers/sqlitedriver.cpp','drivers/postgresdriver.cpp','geodiff.cpp'],
  [('transaction around reading','drivers/sqlitedriver.cpp: createChangeset, dumpData; drivers/postgresdriver.cpp'),('savepoint or BEGIN/COMMIT around applying','drivers/sqlitedriver.cpp; drivers/postgresdriver.cpp')],
  None,['GEODIFF_createChangeset(Ex)','GEODIFF_dumpData','GEODIFF_applyChangeset(Ex)'])
p('C13','Independent calls in different processes do not interfere with each other',
  "Calls on unrelated databases running at the same time in different processes that share a temporary directory have exactly the results, return codes and output files they have when run alone, whatever the interleaving and whether or not one of them is killed part-way.",
  ['schedules','crash_points'],
  "All interleavings at file operations of two or three processes performing rebases, copies, diffs and inversions in a shared temporary directory, with kills and restarts.",
  UNIT+"No test runs two processes.",
  ['geodiff.cpp','geodiffutils.cpp'],
  [('temporary file naming','geodiff.cpp: GEODIFF_rebaseEx, GEODIFF_makeCopy; geodiffutils.cpp: randomString, tmpdir')],
  None,['results of concurrent API calls'])
p('C14','Inputs are never modified and no temporary files are left behind',
  "No call changes the rows or schema of a database or the bytes of a changeset it only reads - the base, the modified copy being diffed, the other side's changeset - whether it succeeds, fails or is interrupted. A call that returns leaves no files behind other than the outputs it was asked for, even when it fails because of an injected fault.",
  ['fault_sequences','crash_points','histories'],
  "All calls, all fault positions, all kill points (for the unmodified inputs), all journal modes.",
  UNIT+"No test inspects the directory or the inputs after a failed call.",
  ['geodiff.cpp','geodiffutils.cpp','drivers/sqlitedriver.cpp'],
  [('self-deleting temporary files','geodiffutils.cpp: TmpFile'),('only the target is written','geodiff.cpp')],
  None,['directory contents and input files before and after each call'])
p('C15','PostgreSQL and GeoPackage replicas carry the same data in both directions',
  "Changesets created from PostgreSQL schemas and applied to a GeoPackage replica, and the reverse, reproduce the same rows: integers, doubles, booleans, text with any characters, timestamps, NULLs and geometries (with their CRS id) arrive with equal values. Diffing and applying between two PostgreSQL schemas reproduces the modified schema exactly, and applying reports success only if every change matched and took effect. None of this depends on the locale of the program that uses the library.",
  ['histories','inputs','fault_sequences'],
  "All histories of edits on either side over the supported column types, with lossy delivery of changesets and dropped connections.",
  UNIT+"There is no PostgreSQL server in the test environment; upstream's own tests use a few fixed rows.",
  ['drivers/postgresdriver.cpp','drivers/postgresutils.cpp','changesetutils.cpp'],
  [('value conversion','drivers/postgresdriver.cpp: resultToValue, valueToSql'),('SQL construction and quoting','drivers/postgresdriver.cpp; drivers/postgresutils.cpp')],
  None,['GEODIFF_createChangesetEx, GEODIFF_applyChangesetEx with the postgres driver'])
p('C16','Applying to PostgreSQL is atomic under connection loss and leaves ids usable',
  "If applying a changeset to a PostgreSQL schema does not report success - a conflict, a statement error, a lost connection, a server crash at any statement - the schema's rows are unchanged, except that a connection lost during the final commit may leave the complete result. After success, a subsequent insert that lets the server pick the key of an auto-incrementing table does not collide with any applied row.",
  ['fault_sequences','crash_points','histories'],
  "All statement positions for connection loss before or after execution, server errors and crashes; all changesets over auto-incrementing and plain tables.",
  UNIT+"There is no server, and no way to lose a connection, in the tests.",
  ['drivers/postgresdriver.cpp','drivers/postgresutils.cpp'],
  [('transaction wrapper','drivers/postgresdriver.cpp: PostgresTransaction'),('sequence update','drivers/postgresdriver.cpp: updateSequenceObject')],
  None,['GEODIFF_applyChangesetEx with the postgres driver, server state'])
p('C17','Dumps and copies contain every row, or the call fails',
  "A data dump reported as successful contains exactly one insertion for every row of every table with a primary key and nothing else. A database copy reported as successful, between drivers, gives a destination whose tables hold the same keys and values as the source's user tables, with the same NOT NULL constraints and with geometry columns declared with the same type, dimensions and CRS; any fault or unsupported content along the way is reported as an error and not as a successful partial copy.",
  ['fault_sequences','inputs','configurations'],
  "All source contents, both drivers as source and destination, and every fault position in reading the source, writing temporary data and filling the destination.",
  UNIT+"Upstream tests a few fixed copies without faults.",
  ['geodiff.cpp','drivers/sqlitedriver.cpp','drivers/postgresdriver.cpp','tableschema.cpp'],
  [('dump','drivers/sqlitedriver.cpp, drivers/postgresdriver.cpp: dumpData'),('copy','geodiff.cpp: GEODIFF_makeCopy'),('type conversion','tableschema.cpp')],
  None,['GEODIFF_dumpData','GEODIFF_makeCopy'])
p('C18','Databases that cannot be diffed or rebased safely are refused without effect',
  "Diffing two versions whose table sets or table definitions (column names, types, key columns, not-null, geometry type, CRS) differ is refused with an error, also when the schema changes part-way through a history or between creation and use. Creating a rebased changeset from a modified file is refused when a user table has foreign keys or there are triggers that are not GeoPackage bookkeeping. A refused call leaves databases and earlier results of the other parties unchanged.",
  ['histories','configurations','inputs'],
  "All points in a multi-client history at which one party migrates its schema, adds a trigger or a foreign key, and all kinds of schema difference.",
  UNIT+"Upstream has one fixed file per refusal.",
  ['drivers/sqlitedriver.cpp','tableschema.h','drivers/sqliteutils.cpp','geodiff.cpp'],
  [('schema equality','drivers/sqlitedriver.cpp: createChangeset; tableschema.h'),('rebase compatibility','drivers/sqlitedriver.cpp: checkCompatibleForRebase; drivers/sqliteutils.cpp: sqliteForeignKeys, sqliteTriggers')],
  None,['return codes of GEODIFF_createChangeset, GEODIFF_createRebasedChangeset'])
p('C19','User triggers do not fire during apply and are never lost',
  "Applying a changeset or rebasing a file that has user-defined triggers changes exactly the rows the changeset names: user triggers do not fire, while GeoPackage bookkeeping keeps spatial index and feature counts correct. Afterwards - on success, on failure, and after a kill or power cut at any point - every user trigger is still defined with its original text, whatever its name (other than names starting with the prefixes GeoPackage reserves for its own bookkeeping triggers: gpkg_, rtree_, trigger_insert_feature_count_, trigger_delete_feature_count_).",
  ['fault_sequences','crash_points','inputs'],
  "All trigger names, events and bodies; every fault, kill and power-cut position during the call.",
  UNIT+"Upstream applies one fixed file with triggers and never fails in between.",
  ['drivers/sqlitedriver.cpp','drivers/sqliteutils.cpp'],
  [('drop and recreate triggers inside the savepoint','drivers/sqlitedriver.cpp: SqliteDriver::applyChangeset'),('recognising bookkeeping triggers','drivers/sqliteutils.cpp: sqliteTriggers')],
  None,['sqlite_master and rows after GEODIFF_applyChangeset, GEODIFF_rebase'])
p('C20','Log messages follow the chosen level and callback and never influence a call',
  "Every message a call produces reaches the callback registered at that moment exactly once and in order if the maximum level at that moment admits its severity, and not at all otherwise; level and callback may change at any time, also while a message is delivered. Level and callback influence neither the result nor the effects of a call. A call that fails has delivered at least one error message to say so, and one that ends in a conflict a warning.",
  ['fault_sequences','inputs','histories'],
  "All calls, inputs that fit or do not, faults, levels, callbacks, and all points at which level or callback are changed.",
  UNIT+"The stable tests run at one level with the default logger and do not look at messages.",
  ['geodifflogger.cpp','geodiff.cpp','geodiffrebase.cpp','drivers/sqlitedriver.cpp','drivers/postgresdriver.cpp'],
  [('level filter','geodifflogger.cpp: Logger::log'),('errors of failing calls','geodiff.cpp: catch clauses of every GEODIFF_ function'),('debug output of rebase','geodiffrebase.cpp: DatabaseRebaseInfo::dump, RebaseMapping::dump')],
  None,['logger callback','return codes and outputs of all functions'])
p('C21','The Python wrapper raises exactly when the C call fails',
  "Each method of the Python wrapper calls its C function once with its arguments in order as UTF-8, returns normally (with the C function's answer) if that reports success, and otherwise raises the documented exception for the return code. A logger callback set from Python stays usable until it is replaced, whatever is garbage-collected meanwhile, and gets every message the C library delivers. A library of another version is refused.",
  ['schedules','fault_sequences','inputs'],
  "All methods, argument strings, return codes (documented and unknown), sequences and interleavings of calls from several threads and objects, callbacks that fail, garbage collections at any time.",
  "Upstream's Python tests need the shared library, which is not built here, and see only a few return codes.",
  ['geodiff.h'],[('return code mapping','geodiff.h')])
P[-1]['anchors']['files']=['pygeodiff/geodifflib.py','pygeodiff/main.py']
P[-1]['anchors']['mechanism']=[dict(name='return code mapping',where='pygeodiff/geodifflib.py: _parse_return_code'),dict(name='callback kept alive',where='pygeodiff/geodifflib.py: set_logger_callback'),dict(name='version check',where='pygeodiff/geodifflib.py: check_version')]
P[-1]['anchors']['observe_at']=['exceptions and return values of pygeodiff.GeoDiff methods','calls arriving at the C library']
p('C22','The command line tool does what the call it names does and prints what was asked',
  "Running geodiffinfo with a mode and its arguments has exactly the effects and outputs of the library call of that name, and its exit status is that call's return code, whatever fails underneath; an unknown mode or missing arguments end with a non-zero status and a message and touch no file. With the library's own logger, messages up to the level in GEODIFF_LOGGER_LEVEL (0 none, 1 errors, 2 warnings, 3 infos, 4 debug; unset: 1 in the library, 2 in the tool) are printed to the standard streams and no others.",
  ['fault_sequences','inputs'],
  "All modes, arguments (valid, missing, too many, unknown), levels, faults of files, databases and the server.",
  UNIT+"No test runs the tool, and none looks at what the default logger prints.",
  ['geodiffinfo.cpp','geodifflogger.cpp'],
  [('modes and arguments','geodiffinfo.cpp: main'),('default logger','geodifflogger.cpp: StdoutLogger, Logger::Logger')],
  None,['exit status, standard output and standard error of geodiffinfo, files and databases'])
p('C23','Calls with unusable arguments fail without effect; repeated inputs do no harm',
  "A call that lacks a required argument, names an unknown driver, or names an input database, changeset, schema or connection that does not exist or is something else (a directory, a file of another kind) reports an error through its return code and the logger, and changes, creates and removes no file, schema or row other than the outputs it names; a destination is not touched when the source or a driver cannot be used. When one path is given for several inputs, or the local file of a rebase is also its base or their version, the outcome is the same as with separate copies of that file.",
  ['inputs','fault_sequences'],
  "Every function, argument position, kind of unusable value, pair of arguments naming the same file, with faults underneath.",
  UNIT+"The tests pass unusable arguments in a few places and never look at what else was changed.",
  ['geodiff.cpp','driver.cpp','drivers/sqlitedriver.cpp','drivers/postgresdriver.cpp','geodiffrebase.cpp'],
  [('argument checks','geodiff.cpp'),('drivers by name','driver.cpp: Driver::createDriver'),('existence of databases','drivers/sqlitedriver.cpp: open; drivers/postgresdriver.cpp: open')],
  None,['return codes, log messages, the whole file system and server before and after'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    n=x['statement'].count('. ')+1
    if n>3: print(x['id'],'sentences',n)
